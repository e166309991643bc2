//! Crash and fault injection. A child process runs operations on a store and records what it begins
//! and what returned; the driver stops it (ptrace, with a seccomp filter that selects the system calls
//! that change files) and kills it, makes a call fail, or makes a write short, at a chosen call.
//! The driver turns the records into a trace in which a "crash" event stands for the kill.
use crate::gen::{profile, Gen};
use crate::rng::Rng;
use crate::run::{arg, num, Args};
use crate::store::{scratch_dir, Store};
use crate::trace::Trace;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};

pub const LOGFD: i32 = 100;
const CALLS: &[i64] = &[
    libc::SYS_write, libc::SYS_pwrite64, libc::SYS_writev, libc::SYS_pwritev, libc::SYS_pwritev2, libc::SYS_open,
    libc::SYS_openat, libc::SYS_creat, libc::SYS_rename, libc::SYS_renameat, libc::SYS_renameat2, libc::SYS_unlink,
    libc::SYS_unlinkat, libc::SYS_mkdir, libc::SYS_mkdirat, libc::SYS_rmdir, libc::SYS_link, libc::SYS_linkat,
    libc::SYS_symlink, libc::SYS_symlinkat, libc::SYS_ftruncate, libc::SYS_truncate, libc::SYS_fallocate, libc::SYS_fsync,
    libc::SYS_fdatasync, libc::SYS_sync_file_range, libc::SYS_copy_file_range, libc::SYS_sendfile, libc::SYS_msync,
];
fn is_write(nr: i64) -> bool {
    nr == libc::SYS_write || nr == libc::SYS_pwrite64
}

fn filter() {
    let mut p: Vec<libc::sock_filter> = vec![];
    let st = |code: u32, jt: u8, jf: u8, k: u32| libc::sock_filter { code: code as u16, jt, jf, k };
    p.push(st(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0, 0, 0));
    for c in CALLS {
        p.push(st(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, 0, 1, *c as u32));
        p.push(st(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_TRACE));
    }
    p.push(st(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_ALLOW));
    let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
    unsafe {
        assert_eq!(libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0), 0);
        assert_eq!(libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog as *const _), 0, "seccomp");
    }
}

struct Log(std::fs::File);
impl Log {
    fn line(&mut self, tag: &str, v: &Value) {
        let s = format!("{tag} {v}\n");
        self.0.write_all(s.as_bytes()).unwrap();
    }
}

fn begin(s: &mut Store, log: &mut Log, op: &Value) -> Value {
    log.line("B", op);
    let r = s.exec(op);
    let mut o = op.clone();
    o["res"] = r.clone();
    log.line("E", &o);
    r
}

/// The next group of operations; what the generator knows is brought up to date first.
fn group(g: &mut Gen, s: &mut Store, log: &mut Log) -> bool {
    if g.stale {
        for o in Gen::refresh_ops() {
            let r = begin(s, log, &o);
            g.observe(&o, &r);
        }
        g.stale = false;
    }
    for o in g.next() {
        let r = begin(s, log, &o);
        g.observe(&o, &r);
        if r["k"] == "panic" {
            return false;
        }
    }
    true
}

/// vh child store= dir= profile= hseed= round= ops= log= [traced=1] [fsize=N] [repair=1] [script=sync]
pub fn child(a: &Args) -> i32 {
    use std::os::fd::{FromRawFd, IntoRawFd};
    let f = std::fs::OpenOptions::new().append(true).create(true).open(arg(a, "log", "")).unwrap().into_raw_fd();
    unsafe {
        assert_eq!(libc::dup2(f, LOGFD), LOGFD);
        libc::close(f);
    }
    let mut log = Log(unsafe { std::fs::File::from_raw_fd(LOGFD) });
    let kind = arg(a, "store", "rdb");
    let (hseed, round) = (num(a, "hseed", 1), num(a, "round", 0));
    let mut g = Gen::new(hseed, profile(arg(a, "profile", "C13c")), kind.ends_with("rdb"));
    g.rng = Rng::new(hseed ^ (round + 1) << 40);
    let mut s = Store::new(kind, Path::new(arg(a, "dir", "")));
    s.n = 1;
    unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN) };
    if arg(a, "traced", "0") == "1" {
        filter();
    }
    if arg(a, "repair", "0") == "1" {
        let op = json!({"op": "repair"});
        log.line("B", &op);
        let r = match indradb::RocksdbDatastore::repair(s.path(), &indradb::RocksdbDatastore::get_options(None)) {
            Ok(()) => json!({"k": "ok"}),
            Err(e) => json!({"k": "err", "e": "Repair", "m": format!("{e}")}),
        };
        log.line("E", &json!({"op": "repair", "res": r}));
    }
    let open = json!({"op": if kind.ends_with("rdb") { "reopen" } else { "reload" }});
    if begin(&mut s, &mut log, &open)["k"] != "ok" {
        return 0;
    }
    // the whole state as found, which also tells the generator what is there
    for o in g.battery(&["AllV", "AllE", "Out", "In", "VPs", "EPs"]) {
        let r = begin(&mut s, &mut log, &o);
        g.observe(&o, &r);
    }
    for n in g.names.clone() {
        let r = begin(&mut s, &mut log, &json!({"op": "get", "q": {"q": "VProp", "n": n}}));
        if r["k"] == "out" {
            g.ix.insert(n);
        }
    }
    for o in g.battery(&["Ix"]) {
        begin(&mut s, &mut log, &o);
    }
    let mut n = num(a, "ops", 20);
    let syncs = arg(a, "script", "") == "sync";
    while n > 0 {
        n -= 1;
        if !group(&mut g, &mut s, &mut log) {
            return 0;
        }
    }
    if syncs {
        // sync, change a little, sync again: the faults are put into the last one
        begin(&mut s, &mut log, &json!({"op": "msync"}));
        for _ in 0..g.rng.range(1, 12) {
            if !group(&mut g, &mut s, &mut log) {
                return 0;
            }
        }
        log.line("M", &json!(0));
        // files may only grow to the limit while this sync runs
        let limit = |l: u64| unsafe {
            let r = libc::rlimit { rlim_cur: l, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_FSIZE, &r);
        };
        let op = json!({"op": "msync"});
        log.line("B", &op);
        limit(a.get("fsize").map(|l| l.parse().unwrap()).unwrap_or(libc::RLIM_INFINITY));
        let r = s.exec(&op);
        limit(libc::RLIM_INFINITY);
        log.line("E", &json!({"op": "msync", "res": r}));
        if g.rng.chance(50) {
            group(&mut g, &mut s, &mut log);
        }
    }
    s.close();
    log.line("D", &json!(0));
    0
}

/// What to do to the child, and where.
#[derive(Clone, Debug)]
pub struct Point {
    /// after this many log lines of the child (usize::MAX: after its mark)
    pub lines: usize,
    /// at this call after that (1-based)
    pub call: usize,
    pub act: Act,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Kill,
    /// part of a write is done, then kill
    Torn,
    /// the call fails with this errno
    Err(i32),
    /// a write does only part (if it is one; else nothing happens)
    Short,
    None,
}
#[derive(Debug, Default)]
pub struct Outcome {
    pub killed: bool,
    pub hit: bool,
    pub calls: usize,
    pub lines: usize,
    /// calls seen after the mark
    pub marked_calls: usize,
    pub status: i32,
}

/// Runs `vh <args>` under the tracer.
pub fn traced(args: &[String], p: &Point, rng: &mut Rng) -> Outcome {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(args).arg("traced=1").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let ch = c.spawn().expect("spawn");
    let pid = ch.id() as i32;
    let mut out = Outcome::default();
    let mut st = 0;
    unsafe {
        assert_eq!(libc::waitpid(pid, &mut st, 0), pid);
        let o = libc::PTRACE_O_EXITKILL | libc::PTRACE_O_TRACESECCOMP | libc::PTRACE_O_TRACECLONE | libc::PTRACE_O_TRACEFORK
            | libc::PTRACE_O_TRACEVFORK | libc::PTRACE_O_TRACESYSGOOD;
        libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, o);
        libc::ptrace(libc::PTRACE_CONT, pid, 0, 0);
    }
    let mut since = 0usize;
    let mut marked = false;
    let mut torn: Option<i32> = None;
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(120);
    loop {
        let mut st = 0;
        let w = unsafe { libc::waitpid(-1, &mut st, libc::__WALL) };
        if w <= 0 {
            break;
        }
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            if w == pid {
                out.status = st;
                break;
            }
            continue;
        }
        if std::time::Instant::now() > deadline {
            unsafe { libc::kill(pid, libc::SIGKILL) };
            out.status = -1;
            continue;
        }
        if !libc::WIFSTOPPED(st) {
            continue;
        }
        let sig = libc::WSTOPSIG(st);
        let ev = st >> 16;
        let mut deliver = 0;
        if sig == libc::SIGTRAP && ev == libc::PTRACE_EVENT_SECCOMP {
            let mut r: libc::user_regs_struct = unsafe { std::mem::zeroed() };
            unsafe { libc::ptrace(libc::PTRACE_GETREGS, w, 0, &mut r as *mut _) };
            let nr = r.orig_rax as i64;
            let fd = r.rdi as i32;
            let mut skip = false;
            if nr == libc::SYS_write && fd == LOGFD {
                out.lines += 1;
                // the mark is the only line "M 0\n"
                if r.rdx == 4 {
                    let v = unsafe { libc::ptrace(libc::PTRACE_PEEKDATA, w, r.rsi, 0) };
                    if v as u8 == b'M' {
                        marked = true;
                    }
                }
                skip = true;
            }
            if nr == libc::SYS_openat || nr == libc::SYS_open {
                let fl = if nr == libc::SYS_openat { r.rdx } else { r.rsi } as i32;
                skip |= fl & (libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_RDWR) == 0;
            }
            if (is_write(nr) || nr == libc::SYS_writev) && fd <= 2 {
                skip = true;
            }
            if !skip {
                out.calls += 1;
                if marked {
                    out.marked_calls += 1;
                }
                let counting = if p.lines == usize::MAX { marked } else { out.lines >= p.lines };
                if counting {
                    since += 1;
                }
                if counting && since == p.call {
                    out.hit = true;
                    match p.act {
                        Act::Kill => {
                            unsafe { libc::kill(pid, libc::SIGKILL) };
                            out.killed = true;
                            continue;
                        }
                        Act::Torn => {
                            if is_write(nr) && r.rdx > 1 {
                                r.rdx = 1 + rng.below(r.rdx as usize - 1) as u64;
                                unsafe {
                                    libc::ptrace(libc::PTRACE_SETREGS, w, 0, &r as *const _);
                                    libc::ptrace(libc::PTRACE_SYSCALL, w, 0, 0);
                                }
                                torn = Some(w);
                            } else {
                                unsafe { libc::kill(pid, libc::SIGKILL) };
                                out.killed = true;
                            }
                            continue;
                        }
                        Act::Err(e) => {
                            r.orig_rax = u64::MAX;
                            r.rax = (-(e as i64)) as u64;
                            unsafe { libc::ptrace(libc::PTRACE_SETREGS, w, 0, &r as *const _) };
                        }
                        Act::Short => {
                            if is_write(nr) && r.rdx > 1 {
                                r.rdx = 1 + rng.below(r.rdx as usize - 1) as u64;
                                unsafe { libc::ptrace(libc::PTRACE_SETREGS, w, 0, &r as *const _) };
                            } else {
                                out.hit = false;
                            }
                        }
                        Act::None => {}
                    }
                }
            }
        } else if sig == libc::SIGTRAP | 0x80 {
            if torn == Some(w) {
                // the torn write has been done
                unsafe { libc::kill(pid, libc::SIGKILL) };
                out.killed = true;
                continue;
            }
        } else if sig == libc::SIGTRAP || sig == libc::SIGSTOP {
        } else {
            deliver = sig;
        }
        unsafe { libc::ptrace(libc::PTRACE_CONT, w, 0, deliver as libc::c_long) };
    }
    // everything of the child is gone when its leader has been reaped
    drop(ch);
    out
}

/// The events a child recorded: the completed ones, and the one in progress.
pub fn read_log(path: &Path) -> (Vec<Value>, Option<Value>, bool) {
    let text = String::from_utf8_lossy(&std::fs::read(path).unwrap_or_default()).into_owned();
    let (mut done, mut fly, mut end) = (vec![], None, false);
    for l in text.split_inclusive('\n') {
        if !l.ends_with('\n') {
            break;
        }
        let (tag, rest) = l.trim_end().split_at(1);
        match tag {
            "B" => fly = Some(serde_json::from_str(rest).unwrap()),
            "E" => {
                done.push(serde_json::from_str(rest).unwrap());
                fly = None;
            }
            "D" => end = true,
            _ => {}
        }
    }
    (done, fly, end)
}

fn finish(t: &mut Trace, a: &Args, stats: &HashMap<&str, usize>, rdb: bool) -> i32 {
    t.write(arg(a, "out", "/dev/stdout"), rdb);
    let mut o = json!(stats);
    o["events"] = json!(t.events.len());
    println!("{o}");
    0
}

/// The records of one round go into the trace. Returns false if the history cannot go on.
fn absorb(t: &mut Trace, log: &Path, o: &Outcome, fault: bool, stats: &mut HashMap<&str, usize>) -> bool {
    let (done, fly, end) = read_log(log);
    let _ = std::fs::remove_file(log);
    let mut fine = true;
    for mut e in done {
        if fault && e["op"] == "msync" {
            e["fault"] = json!(1);
        }
        fine &= e["res"]["k"] != "panic" && !(["reopen", "reload", "repair"].contains(&e["op"].as_str().unwrap()) && e["res"]["k"] != "ok");
        t.events.push(e);
    }
    if !fine {
        return false;
    }
    if end {
        *stats.entry("clean").or_default() += 1;
        t.events.push(json!({"op": "exit"}));
        return true;
    }
    if !o.killed {
        // it died by itself: that is never allowed
        t.events.push(json!({"op": "died", "res": {"k": "died", "status": format!("{}", o.status), "during": fly.map(|f| f.to_string()).unwrap_or_default()}}));
        return false;
    }
    *stats.entry("kills").or_default() += 1;
    let fly: Vec<Value> = fly.into_iter().filter(|f| f["op"] != "reopen" && f["op"] != "reload" && f["op"] != "get").collect();
    if !fly.is_empty() {
        *stats.entry("kills_in_write").or_default() += 1;
    }
    t.events.push(json!({"op": "crash", "fly": fly}));
    true
}

fn child_args(store: &str, dir: &Path, log: &Path, prof: &str, hseed: u64, round: usize, ops: usize) -> Vec<String> {
    vec![
        "child".into(),
        format!("store={store}"),
        format!("dir={}", dir.display()),
        format!("log={}", log.display()),
        format!("profile={prof}"),
        format!("hseed={hseed}"),
        format!("round={round}"),
        format!("ops={ops}"),
    ]
}

/// vh crash store=rdb profile=C13c seed= histories= rounds= out=: histories of several lives.
pub fn crash(a: &Args) -> i32 {
    let store = arg(a, "store", "rdb");
    let prof = arg(a, "profile", "C13c");
    let seed = num(a, "seed", 1);
    let mut rng = Rng::new(seed);
    let dir = scratch_dir("crash");
    let log = dir.join("log");
    let mut t = Trace::default();
    let mut stats = HashMap::new();
    let secs = num(a, "secs", 1 << 30);
    let start = std::time::Instant::now();
    for h in 0..num(a, "histories", 5) {
        if start.elapsed().as_secs() > secs {
            break;
        }
        let hd = dir.join(format!("h{h}"));
        std::fs::create_dir_all(&hd).unwrap();
        t.mark("reset");
        let hseed = seed * 1_000_003 + h;
        let rounds = num(a, "rounds", 6) as usize;
        let mut open_calls = 60;
        for r in 0..rounds {
            let _w = crate::watch::begin(&json!({"op": "crash round", "history": h, "round": r}));
            let last = r + 1 == rounds;
            let ops = rng.range(2, 25);
            let mut args = child_args(store, &hd, &log, prof, hseed, r, if last { 0 } else { ops });
            if store.ends_with("rdb") && r > 0 && rng.chance(12) {
                args.push("repair=1".into());
            }
            let repair = args.last().unwrap() == "repair=1";
            // while opening (the first one or two lines), or anywhere after
            let p = if last || repair && rng.chance(70) {
                Point { lines: 0, call: usize::MAX, act: Act::None }
            } else {
                let (lines, call) = if rng.chance(if r == 0 { 50 } else { 25 }) && !repair {
                    (1, rng.range(1, open_calls))
                } else {
                    (rng.range(4, 40 + 3 * ops), rng.range(1, 3))
                };
                Point { lines, call, act: if rng.chance(35) { Act::Torn } else { Act::Kill } }
            };
            let o = traced(&args, &p, &mut rng);
            if o.hit && p.lines == 1 {
                open_calls = (open_calls + p.call).min(400);
            } else if p.lines == 1 {
                open_calls = (open_calls * 2 / 3).max(40);
            }
            if !absorb(&mut t, &log, &o, false, &mut stats) {
                break;
            }
        }
        let _ = std::fs::remove_dir_all(&hd);
    }
    let _ = std::fs::remove_dir_all(&dir);
    finish(&mut t, a, &stats, store.ends_with("rdb"))
}

/// vh creation seed= shard= shards= step= out=: kills at every (step-th) call of the first creation of
/// a RocksDB datastore, then a life that uses it.
pub fn creation(a: &Args) -> i32 {
    let seed = num(a, "seed", 1);
    let mut rng = Rng::new(seed);
    let dir = scratch_dir("creation");
    let log = dir.join("log");
    let mut t = Trace::default();
    let mut stats = HashMap::new();
    let (shard, shards) = (num(a, "shard", 0) as usize, num(a, "shards", 1) as usize);
    let mut k = shard + 1;
    loop {
        let _w = crate::watch::begin(&json!({"op": "creation", "call": k}));
        let hd = dir.join(format!("h{k}"));
        std::fs::create_dir_all(&hd).unwrap();
        t.mark("reset");
        let act = if rng.chance(30) { Act::Torn } else { Act::Kill };
        // the first line is the beginning of the open, the second its end
        let o = traced(&child_args("rdb", &hd, &log, "C13c", seed + k as u64, 0, 0), &Point { lines: 1, call: k, act }, &mut rng);
        let opened = o.lines >= 2;
        if !absorb(&mut t, &log, &o, false, &mut stats) {
            break;
        }
        // sometimes interrupted again
        let mut round = 1;
        if rng.chance(30) {
            let o = traced(&child_args("rdb", &hd, &log, "C13c", seed + k as u64, 1, 0), &Point { lines: 1, call: rng.range(1, k + 10), act }, &mut rng);
            round += 1;
            if !absorb(&mut t, &log, &o, false, &mut stats) {
                break;
            }
        }
        let none = Point { lines: 0, call: usize::MAX, act: Act::None };
        let o = traced(&child_args("rdb", &hd, &log, "C13c", seed + k as u64, round, 6), &none, &mut rng);
        if !absorb(&mut t, &log, &o, false, &mut stats) {
            break;
        }
        let _ = std::fs::remove_dir_all(&hd);
        *stats.entry("points").or_default() += 1;
        if opened {
            break;
        }
        k += shards;
    }
    let _ = std::fs::remove_dir_all(&dir);
    finish(&mut t, a, &stats, true)
}

/// vh syncfault seed= cases= mode=kill|err|fsize out=: every call of an image sync is killed at, made
/// short or failed; the image is then loaded by a new process.
pub fn syncfault(a: &Args) -> i32 {
    let seed = num(a, "seed", 1);
    let mode = arg(a, "mode", "kill");
    let mut rng = Rng::new(seed);
    let dir = scratch_dir("sync");
    let log = dir.join("log");
    let mut t = Trace::default();
    let mut stats = HashMap::new();
    'cases: for c in 0..num(a, "cases", 4) {
        let hseed = seed * 1_000_003 + c;
        let ops = [3, 12, 40, 90][c as usize % 4];
        let mut k = 1;
        let mut variant = 0;
        let mut limit = 0u64;
        loop {
            let _w = crate::watch::begin(&json!({"op": "syncfault", "case": c, "call": k, "variant": variant}));
            let hd = dir.join(format!("h{c}-{k}-{variant}"));
            std::fs::create_dir_all(&hd).unwrap();
            t.mark("reset");
            let mut args = child_args("memfile", &hd, &log, "C12", hseed, 0, ops);
            args.push("script=sync".into());
            // the first life never has the fault; the second changes and syncs again with it
            let first = c % 3 == 2;
            let mut round = 0;
            if !first {
                let o = traced(&args, &Point { lines: 0, call: usize::MAX, act: Act::None }, &mut rng);
                if !absorb(&mut t, &log, &o, false, &mut stats) {
                    break 'cases;
                }
                round = 1;
            }
            let mut args = child_args("memfile", &hd, &log, "C12", hseed, round, if first { ops } else { ops / 4 + 1 });
            args.push("script=sync".into());
            let acts: &[Act] = match mode {
                "kill" => &[Act::Kill, Act::Torn],
                "err" => &[Act::Err(libc::ENOSPC), Act::Short, Act::Err(libc::EIO)],
                _ => &[Act::None],
            };
            let mut p = Point { lines: usize::MAX, call: k, act: acts[variant] };
            if mode == "fsize" {
                args.push(format!("fsize={limit}"));
                p = Point { lines: 0, call: usize::MAX, act: Act::None };
            }
            let size = || std::fs::read_dir(&hd).ok().and_then(|mut d| d.next()).and_then(|e| e.ok()).and_then(|e| e.metadata().ok()).map(|m| m.len()).unwrap_or(0);
            let o = traced(&args, &p, &mut rng);
            let after = size();
            if !absorb(&mut t, &log, &o, mode != "kill" && (o.hit || mode == "fsize"), &mut stats) {
                break 'cases;
            }
            // what is there now, and it can be synced again
            let mut args = child_args("memfile", &hd, &log, "C12", hseed, round + 1, 2);
            args.push("script=sync".into());
            let none = Point { lines: 0, call: usize::MAX, act: Act::None };
            let o2 = traced(&args, &none, &mut rng);
            if !absorb(&mut t, &log, &o2, false, &mut stats) {
                break 'cases;
            }
            let args = child_args("memfile", &hd, &log, "C12", hseed, round + 2, 0);
            let o3 = traced(&args, &none, &mut rng);
            if !absorb(&mut t, &log, &o3, false, &mut stats) {
                break 'cases;
            }
            let _ = std::fs::remove_dir_all(&hd);
            *stats.entry("points").or_default() += 1;
            if mode == "fsize" {
                limit += 1 + rng.below((after as usize / 6).max(20)) as u64;
                if limit > after * 2 + 100 || k > 24 {
                    break;
                }
                k += 1;
                continue;
            }
            variant += 1;
            if variant == acts.len() {
                variant = 0;
                k += 1;
            }
            if !o.hit && variant == 0 && o.marked_calls < k {
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    finish(&mut t, a, &stats, false)
}

