//! The programs themselves: a server process on a datastore path, the command-line client run as a
//! process per command, and direct clients; with restarts, repairs and kills of the server.
//! Which commands are well formed, what they do and print is decided by the specification (Cli.tla).
use crate::exec;
use crate::gen::{profile, Gen};
use crate::rng::Rng;
use crate::run::{arg, num, Args};
use crate::store::{connect, grpc_exec, open_rdb, runtime, scratch_dir, Db};
use crate::trace::{uid, ustr, Trace};
use crate::wire::{ident, jsn, odd_ident, odd_json};
use indradb::*;
use indradb_proto as proto;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};
use uuid::Uuid;

fn bin(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}
fn command(name: &str) -> Command {
    let mut c = Command::new(bin(name));
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}
/// Runs a program to its end: exit code (99 for a signal, 98 when it does not end) and output.
fn finish(mut c: Command, limit: Duration) -> (i32, String, String) {
    let mut ch = c.spawn().expect("spawn");
    let read = |r: Option<Box<dyn Read + Send>>| {
        std::thread::spawn(move || {
            let mut b = vec![];
            let _ = r.unwrap().read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        })
    };
    let o = read(ch.stdout.take().map(|x| Box::new(x) as Box<dyn Read + Send>));
    let e = read(ch.stderr.take().map(|x| Box::new(x) as Box<dyn Read + Send>));
    let t = Instant::now();
    let rc = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break s.code().unwrap_or(99),
            None if t.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                break 98;
            }
            None => std::thread::sleep(Duration::from_micros(if t.elapsed().as_millis() < 200 { 500 } else { 5000 })),
        }
    };
    (rc, o.join().unwrap(), e.join().unwrap())
}

// ---------------------------------------------------------------- reading what is printed

/// The ids and the other values in printed text.
pub fn tokens(s: &str) -> (Vec<String>, Vec<String>) {
    let c: Vec<char> = s.chars().collect();
    let (mut ids, mut toks, mut i) = (vec![], vec![], 0);
    while i < c.len() {
        if c[i] == '"' {
            let mut t = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] != '\\' {
                    t.push(c[i]);
                    i += 1;
                    continue;
                }
                i += 1;
                match c.get(i) {
                    Some('n') => t.push('\n'),
                    Some('r') => t.push('\r'),
                    Some('t') => t.push('\t'),
                    Some('0') => t.push('\0'),
                    Some('u') => {
                        let end = (i..c.len()).find(|k| c[*k] == '}').unwrap_or(c.len());
                        let h: String = c[(i + 2).min(end)..end].iter().collect();
                        t.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('\u{fffd}'));
                        i = end;
                    }
                    Some(x) => t.push(*x),
                    None => {}
                }
                i += 1;
            }
            i += 1;
            toks.push(format!("s:{t}"));
        } else if c[i].is_ascii_alphanumeric() || c[i] == '-' {
            let st = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || matches!(c[i], '-' | '.' | '+' | '_')) {
                i += 1;
            }
            let w: String = c[st..i].iter().collect();
            if w.len() == 36 && Uuid::parse_str(&w).is_ok() {
                ids.push(w);
            } else if w.parse::<f64>().is_ok() && w.starts_with(|x: char| x.is_ascii_digit() || x == '-') {
                toks.push(format!("n:{w}"));
            } else if matches!(w.as_str(), "true" | "false" | "Null") {
                toks.push(w);
            }
        } else {
            i += 1;
        }
    }
    (ids, toks)
}

// ---------------------------------------------------------------- the server process

struct Server {
    ch: Child,
    addr: std::net::SocketAddr,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}
fn start(c: &mut Command) -> std::result::Result<Server, (i32, String)> {
    let mut ch = c.spawn().expect("spawn");
    let out = ch.stdout.take().unwrap();
    let mut err = ch.stderr.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut r = BufReader::new(out);
        let mut l = String::new();
        while r.read_line(&mut l).is_ok_and(|n| n > 0) {
            let _ = tx.send(std::mem::take(&mut l));
        }
    });
    let e = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = err.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(60) {
        match rx.recv_timeout(Duration::from_millis(20)) {
            Ok(l) => {
                if let Some(a) = l.trim().strip_prefix("grpc://") {
                    return Ok(Server { ch, addr: a.parse().unwrap() });
                }
            }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
            Err(_) => {}
        }
    }
    let _ = ch.kill();
    let rc = ch.wait().unwrap().code().unwrap_or(99);
    Err((rc, e.join().unwrap()))
}

// ---------------------------------------------------------------- commands

/// An id in one of its notations.
fn id_text(r: &mut Rng, u: &Value) -> String {
    let bad = [
        "", "x", "12345678-1234-1234-1234-12345678901", "12345678-1234-1234-1234-1234567890123", "g2345678-1234-1234-1234-123456789012",
        "12345678-1234-1234-1234-123456789012 ", "0", "{12345678-1234-1234-1234-123456789012", "12345678_1234_1234_1234_123456789012",
        "null", "u:12345678-1234-1234-1234-123456789012", "123456781234123412341234567890123",
    ];
    match u.get("u") {
        None => r.pick(&bad).to_string(),
        Some(i) => {
            let i = ustr(i);
            match u["f"].as_str().unwrap() {
                "upper" => i.hyphenated().to_string().to_uppercase(),
                "simple" => i.simple().to_string(),
                "urn" => i.urn().to_string(),
                "brace" => i.braced().to_string(),
                _ => i.hyphenated().to_string(),
            }
        }
    }
}
fn json_text(v: &Value) -> String {
    v["cs"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
/// The arguments of a command line.
fn words(r: &mut Rng, x: &Value) -> Vec<String> {
    let s = |v: &Value| v["s"].as_str().unwrap().to_string();
    let c = x["c"].as_str().unwrap();
    let kind = match &c[3..] {
        "V" => "vertex",
        "E" => "edge",
        "VP" => "vertex-property",
        "EP" => "edge-property",
        _ => "",
    };
    let verb = match &c[..3] {
        "set" => "set",
        "get" => "get",
        "del" => "delete",
        "cnt" => "count",
        _ => "",
    };
    if c == "ping" {
        return vec!["ping".into()];
    }
    if c == "usage" {
        // no command of the client, or one with too few or too many arguments
        let u = Uuid::nil().to_string();
        let (k, v) = (*r.pick(&["vertex", "edge", "vertex-property", "edge-property"]), *r.pick(&["set", "get", "delete", "count"]));
        return match r.below(6) {
            0 => vec![],
            1 => vec![r.pick(&["frob", "vertex", "create", "sett", "Ping", "--nope"]).to_string()],
            2 => vec![v.into()],
            3 => vec![v.into(), "vertices".into()],
            4 if v == "count" => vec![v.into(), "edge".into(), "x".into()],
            4 => vec![v.into(), k.into()],
            _ => [v.into(), k.into()].into_iter().chain((0..6).map(|_| u.clone())).collect(),
        };
    }
    let mut pos: Vec<String> = vec![];
    let mut opt: Vec<String> = vec![];
    if c == "setV" {
        pos.push(s(&x["t"]));
        if let Some(i) = x["id"].get(0) {
            opt.push("--id".into());
            opt.push(id_text(r, i));
        }
    } else if kind.starts_with("vertex") && x.get("u").is_some() {
        pos.push(id_text(r, &x["u"]));
    } else if kind.starts_with("edge") && x.get("o").is_some() {
        pos = vec![id_text(r, &x["o"]), s(&x["t"]), id_text(r, &x["i"])];
    }
    if c == "getVP" || c == "getEP" {
        if let Some(n) = x["n"].get(0) {
            opt.push("--name".into());
            opt.push(s(n));
        }
    } else if x.get("n").is_some() {
        pos.push(s(&x["n"]));
    }
    if x.get("v").is_some() {
        pos.push(json_text(&x["v"]));
    }
    let mut w: Vec<String> = vec![verb.into(), kind.into()];
    if !opt.is_empty() {
        // an option may stand in front or behind, in one word or in two
        let two = opt[1].is_empty() || (!opt[1].starts_with('-') && r.chance(50));
        if !two {
            opt = vec![format!("{}={}", opt[0], opt[1])];
        }
    }
    let dashes = pos.iter().any(|p| p.starts_with('-'));
    if dashes {
        w.extend(opt);
        w.push("--".into());
        w.extend(pos);
    } else if r.chance(50) {
        w.extend(opt);
        w.extend(pos);
    } else {
        w.extend(pos);
        w.extend(opt);
    }
    w
}

fn uref(r: &mut Rng, g: &mut Gen) -> Value {
    if r.chance(6) {
        return json!({"f": "bad"});
    }
    let f = *r.pick(&["hyphen", "hyphen", "hyphen", "upper", "simple", "urn", "brace"]);
    json!({"f": f, "u": uid(g.live_id())})
}
fn iref(r: &mut Rng, s: String) -> Value {
    if r.chance(6) {
        loop {
            let x = odd_ident(r, &s);
            // an argument of a process has no NUL and some limit
            if !x.contains('\0') && x.len() < 60_000 {
                return ident(&x);
            }
        }
    }
    ident(&s)
}
fn vref(r: &mut Rng, g: &mut Gen) -> Value {
    let t = g.val();
    if r.chance(8) {
        let x = odd_json(r, &t);
        if !x.contains('\0') && !(x.contains(['.', 'e', 'E']) && serde_json::from_str::<Value>(&x).is_ok() && x.chars().any(|c| c.is_ascii_digit())) {
            return jsn(&x);
        }
    }
    let mut v = jsn(&t);
    v["v"] = json!(t);
    v
}
/// A command of the generator.
fn random(r: &mut Rng, g: &mut Gen) -> Value {
    let c = *r.pick(&[
        "setV", "setV", "setV", "setE", "setE", "setE", "setVP", "setVP", "setVP", "setEP", "setEP", "setEP", "cntV", "cntE", "getV", "getE", "getVP", "getVP",
        "getEP", "getEP", "delV", "delE", "delVP", "delEP", "ping", "usage",
    ]);
    let mut x = json!({"c": c});
    let edge = c[3..].starts_with('E') && c != "cntE";
    if edge {
        let e = if r.chance(15) && c == "setE" { g.rand_edge() } else { g.some_edge() };
        let mut e = e;
        if r.chance(10) {
            e = (e.2, e.1, e.0);
        }
        if r.chance(8) {
            e.1 = g.et();
        }
        let (mut o, mut i) = (uref(r, g), uref(r, g));
        for (p, u) in [(&mut o, e.0), (&mut i, e.2)] {
            if p.get("u").is_some() {
                p["u"] = uid(u);
            }
        }
        x["o"] = o;
        x["i"] = i;
        x["t"] = iref(r, e.1);
    }
    match c {
        "setV" => {
            x["t"] = iref(r, g.vt());
            x["id"] = if r.chance(25) {
                json!([])
            } else {
                let mut u = uref(r, g);
                if u.get("u").is_some() && r.chance(75) {
                    u["u"] = uid(g.id());
                }
                json!([u])
            };
        }
        "getV" | "delV" | "setVP" | "getVP" | "delVP" => x["u"] = uref(r, g),
        _ => {}
    }
    match c {
        "setVP" | "setEP" => {
            x["n"] = iref(r, g.name());
            x["v"] = vref(r, g);
        }
        "getVP" | "getEP" => x["n"] = if r.chance(50) { json!([]) } else { json!([iref(r, g.name())]) },
        "delVP" | "delEP" => x["n"] = iref(r, g.name()),
        _ => {}
    }
    x
}
/// A command of the model, with real ids, names and texts.
fn instantiate(r: &mut Rng, m: &Value, g: &mut Gen) -> Value {
    match m {
        Value::Object(o) if o.contains_key("cls") => ident(&match o["s"].as_str().unwrap() {
            "a" => g.vts[0].clone(),
            "p" => g.names[0].clone(),
            "LONG" => "x".repeat(256),
            _ => odd_ident(r, "a").replace(|c: char| c.is_alphanumeric() || c == '\0', ".") + "!",
        }),
        Value::Object(o) if o.contains_key("cs") => jsn(&json_text(m)),
        Value::Object(o) if o.contains_key("f") => match o.get("u") {
            Some(u) => json!({"f": o["f"], "u": uid(g.ids[u.as_u64().unwrap() as usize % g.ids.len()])}),
            None => m.clone(),
        },
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), instantiate(r, v, g))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|x| instantiate(r, x, g)).collect()),
        x => x.clone(),
    }
}

// ---------------------------------------------------------------- sessions

struct Session {
    kind: String,
    path: PathBuf,
    /// image given at all
    plugins: bool,
    server: Option<Server>,
    client: Option<proto::Client>,
    rt: Arc<tokio::runtime::Runtime>,
    r: Rng,
    starts: u64,
    commands: u64,
}
impl Session {
    fn server_command(&mut self, repair: bool) -> Command {
        let mut c = command("indradb-server");
        let r = &mut self.r;
        // a relative path is relative to the directory the server is started in
        let rel = r.chance(30);
        let p: PathBuf = if rel { self.path.file_name().unwrap().into() } else { self.path.clone() };
        c.current_dir(if rel { self.path.parent().unwrap() } else { Path::new("/") });
        match r.below(3) {
            0 => c.args(["-a", "127.0.0.1:0"]),
            1 => c.args(["--address", "127.0.0.1:0"]),
            _ => c.arg("--address=127.0.0.1:0"),
        };
        if self.plugins {
            let glob = format!("{}/libindradb_plugin_*.so", bin("").display());
            if r.chance(50) {
                c.arg("-p").arg(glob);
            } else {
                c.arg("--plugins").arg(glob);
            }
        }
        match self.kind.as_str() {
            "mem" => {
                if r.chance(50) {
                    c.arg("memory");
                }
            }
            "image" => {
                c.arg("memory").arg("--persist-path").arg(p);
            }
            _ => {
                c.arg("rocksdb");
                let o = r.below(4);
                let n = r.pick(&["1", "20", "64", "512", "-1"]).to_string();
                if o == 1 {
                    c.arg(format!("--max-open-files={n}"));
                }
                if repair {
                    c.arg(*r.pick(&["--repair", "-r"]));
                }
                c.arg(p);
                if o == 2 && !n.starts_with('-') {
                    c.arg("--max-open-files").arg(n);
                }
            }
        }
        c
    }
    fn start(&mut self) -> Value {
        self.stop();
        self.starts += 1;
        let mut c = self.server_command(false);
        match start(&mut c) {
            Ok(s) => {
                self.client = Some(connect(&self.rt, s.addr));
                self.server = Some(s);
                exec::ok()
            }
            Err((rc, m)) => json!({"k": "err", "e": "Start", "rc": rc, "m": m}),
        }
    }
    fn stop(&mut self) {
        self.client = None;
        if let Some(mut s) = self.server.take() {
            let sig = *self.r.pick(&[libc::SIGKILL, libc::SIGKILL, libc::SIGTERM, libc::SIGINT]);
            unsafe { libc::kill(s.ch.id() as i32, sig) };
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(20) && s.ch.try_wait().unwrap().is_none() {
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    }
    fn exec(&mut self, op: &Value) -> Value {
        let _w = crate::watch::begin(op);
        let mut o = op.clone();
        if o["op"] == "msync" {
            o["op"] = json!("sync");
        }
        self.rt.block_on(grpc_exec(self.client.as_mut().unwrap(), &o))
    }
    fn cli(&mut self, x: &Value) -> Value {
        let w = words(&mut self.r, x);
        let _w = crate::watch::begin(&json!(w));
        let mut c = command("indradb-client");
        let a = self.server.as_ref().unwrap().addr;
        c.arg(format!("{}://{a}", self.r.pick(&["grpc", "http", "http"]))).args(&w);
        let (rc, o, e) = finish(c, Duration::from_secs(60));
        self.commands += 1;
        let (ids, toks) = tokens(&o);
        let said = !o.trim().is_empty() || !e.trim().is_empty();
        let ids: Vec<Value> = ids.iter().map(|u| uid(Uuid::parse_str(u).unwrap())).collect();
        json!({"k": "cli", "rc": rc, "said": said, "ids": ids, "toks": toks, "out": o, "err": e, "words": w})
    }
}

const ALL: &[&str] = &["AllV", "AllE", "Out", "In", "VPs", "EPs"];

/// vh cli store=mem|image|rdb seed= secs= sessions= [plugins=1] [msgs=FILE shard= shards=] out=
pub fn cli(a: &Args) -> i32 {
    let kind = arg(a, "store", "rdb").to_string();
    let seed = num(a, "seed", 1);
    let rdb = kind == "rdb";
    let plugins = num(a, "plugins", 0) == 1;
    let mut g = Gen::new(seed, profile("C25"), rdb);
    let mut r = Rng::new(seed ^ 0xc11);
    let dir = scratch_dir("cli");
    let mut t = Trace::default();
    if plugins {
        t.plugins = vec!["hello_world", "naive_vertex_count"];
    }
    let (shard, shards) = (num(a, "shard", 0) as usize, num(a, "shards", 1) as usize);
    let mut msgs: Vec<Value> = match a.get("msgs") {
        Some(f) => std::fs::read_to_string(f)
            .unwrap()
            .lines()
            .filter_map(|l| serde_json::from_str::<String>(l).ok())
            .filter_map(|l| l.strip_prefix("MSG ").map(|m| serde_json::from_str(m).unwrap()))
            .collect(),
        None => vec![],
    };
    msgs = msgs.into_iter().enumerate().filter(|(i, _)| i % shards == shard).map(|x| x.1).collect();
    r.shuffle(&mut msgs);
    let of = msgs.len();
    let (deadline, want) = (Instant::now() + Duration::from_secs(num(a, "secs", 600)), num(a, "sessions", 3));
    let mut s = Session {
        kind: kind.clone(),
        path: dir.join("none"),
        plugins,
        server: None,
        client: None,
        rt: runtime(),
        r: Rng::new(seed ^ 0x5e55),
        starts: 0,
        commands: 0,
    };
    crate::store::quick_ack();
    let mut sessions = 0u64;
    let mut fine = true;
    while fine && (!msgs.is_empty() || (sessions < want && Instant::now() < deadline)) {
        let modelled = !msgs.is_empty();
        g.new_history();
        s.stop();
        sessions += 1;
        let names = ["db", "a db", "db.rdb", "d-é", "-x", "data=1", "db#2", "%41"];
        let sub = dir.join(format!("s{sessions}"));
        std::fs::create_dir_all(&sub).unwrap();
        s.path = sub.join(*r.pick(&names));
        // a path beginning with a dash would be an option when it is relative
        if s.path.file_name().unwrap().to_str().unwrap().starts_with('-') {
            s.path = sub.join("x-");
        }
        t.mark("reset");
        // sometimes the library has been there before
        if kind != "mem" && r.chance(60) {
            let db = if rdb { Db::R(open_rdb(&s.path, false).unwrap()) } else { Db::M(Arc::new(MemoryDatastore::create_msgpack_db(&s.path))) };
            let mut ops = g.seed_ops();
            if r.chance(30) {
                ops = g.battery(ALL);
            }
            ops.push(json!({"op": "msync"}));
            for o in ops {
                let mut y = o.clone();
                if y["op"] == "msync" {
                    y["op"] = json!("sync");
                }
                let res = on_store(&db, &y);
                g.observe(&o, &res);
                t.push(o, res);
            }
        }
        let after = |s: &mut Session, t: &mut Trace| -> bool {
            let res = s.start();
            let ok = res["k"] == "ok";
            match s.kind.as_str() {
                "mem" if ok => t.mark("reset"),
                "image" => t.push(json!({"op": "reload"}), res),
                _ => t.push(json!({"op": "reopen"}), res),
            }
            ok
        };
        fine = after(&mut s, &mut t);
        g.stale = true;
        let n = r.range(30, 90);
        for k in 0..n {
            if !fine || (!modelled && Instant::now() > deadline) {
                break;
            }
            let mut ops = vec![];
            if g.stale {
                ops = if r.chance(40) { g.battery(ALL) } else { Gen::refresh_ops() };
                g.stale = false;
            }
            for o in ops {
                let res = s.exec(&o);
                g.observe(&o, &res);
                t.push(o, res);
            }
            match r.below(100) {
                _ if k == 0 && r.chance(40) => {
                    for o in g.seed_ops() {
                        let res = s.exec(&o);
                        g.observe(&o, &res);
                        t.push(o, res);
                    }
                }
                0..=59 => {
                    let x = match msgs.pop() {
                        Some(m) => instantiate(&mut r, &m, &mut g),
                        None => random(&mut r, &mut g),
                    };
                    let res = s.cli(&x);
                    let mut ev = x;
                    ev["op"] = json!("cli");
                    // the edge, so that its type is known to the trace
                    if ev.get("o").is_some_and(|o| o.get("u").is_some()) && ev["i"].get("u").is_some() {
                        ev["e"] = json!([ev["o"]["u"], ev["t"]["s"], ev["i"]["u"]]);
                    }
                    g.stale = true;
                    fine = res["rc"] != 98;
                    t.push(ev, res);
                }
                60..=79 => {
                    for o in g.next() {
                        let o = match o["op"].as_str().unwrap() {
                            "sync" | "msync" if kind == "mem" => json!({"op": "sync"}),
                            _ => o,
                        };
                        let res = s.exec(&o);
                        g.observe(&o, &res);
                        t.push(o, res);
                    }
                }
                80..=84 => {
                    let name = *r.pick(&["hello_world", "naive_vertex_count", "nobody"]);
                    let mut v = g.val();
                    if v.contains(['"', '\\']) {
                        v = "[1,null]".into();
                    }
                    let o = json!({"op": "plugin", "name": name, "arg": v});
                    let res = s.exec(&o);
                    t.push(o, res);
                }
                85..=92 => {
                    // stop and start again
                    s.stop();
                    if rdb && r.chance(25) {
                        let c = s.server_command(true);
                        let (rc, o, e) = finish(c, Duration::from_secs(60));
                        let res = if rc == 0 { exec::ok() } else { json!({"k": "err", "e": "Repair", "m": format!("{rc} {o} {e}")}) };
                        t.push(json!({"op": "repair"}), res);
                    }
                    if kind != "mem" && s.path.exists() && r.chance(20) {
                        // what the server stored, seen by the library
                        let db = if rdb { open_rdb(&s.path, false).map(Db::R) } else { MemoryDatastore::read_msgpack_db(&s.path).map(|d| Db::M(Arc::new(d))).map_err(|e| indradb::Error::Datastore(Box::new(e))) };
                        let res = match &db {
                            Ok(_) => exec::ok(),
                            Err(e) => json!({"k": "err", "e": "Open", "m": format!("{e}")}),
                        };
                        t.push(json!({"op": if rdb { "reopen" } else { "reload" }}), res);
                        if let Ok(db) = db {
                            for o in g.battery(ALL) {
                                let res = on_store(&db, &o);
                                t.push(o, res);
                            }
                        }
                    }
                    fine = after(&mut s, &mut t);
                    g.stale = true;
                    g.calls += 1;
                }
                93..=96 => {
                    // killed with an operation in progress
                    let ops: Vec<Value> = g.next().into_iter().filter(|o| o["op"] != "get" && o["op"] != "cvt").collect();
                    let Some(op) = ops.into_iter().next() else { continue };
                    let op = if op["op"] == "sync" && kind != "mem" { json!({"op": "msync"}) } else { op };
                    let mut o = op.clone();
                    if o["op"] == "msync" {
                        o["op"] = json!("sync");
                    }
                    let mut c = s.client.take().unwrap();
                    let h = s.rt.spawn(async move { grpc_exec(&mut c, &o).await });
                    std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
                    let sv = s.server.take().unwrap();
                    unsafe { libc::kill(sv.ch.id() as i32, libc::SIGKILL) };
                    drop(sv);
                    let res = s.rt.block_on(h).unwrap();
                    // an answer of the server is one of the operation's own; anything else means it was cut off
                    let cut = res["k"] == "err" && !["UuidTaken", "Datastore", "NotIndexed", "OpOnQuery", "Unsupported", "InvalidArgument", "NotFound"].contains(&res["e"].as_str().unwrap());
                    if cut {
                        t.events.push(json!({"op": "crash", "fly": [op]}));
                    } else {
                        t.push(op, res);
                        t.events.push(json!({"op": "crash", "fly": []}));
                    }
                    fine = after(&mut s, &mut t);
                    g.stale = true;
                    g.calls += 1;
                }
                _ => {
                    if rdb {
                        // a second server on the same path must not get it
                        let mut c = s.server_command(false);
                        let (rc, served) = match start(&mut c) {
                            Ok(_) => (0, true),
                            Err((rc, _)) => (rc, false),
                        };
                        t.push(json!({"op": "badstart", "why": "locked"}), json!({"k": "end", "rc": rc, "served": served}));
                    } else if kind == "image" && s.path.exists() {
                        // a damaged image is not served as something else, and not overwritten
                        s.stop();
                        let good = std::fs::read(&s.path).unwrap();
                        let cutat = r.below(good.len());
                        std::fs::write(&s.path, &good[..cutat]).unwrap();
                        let mut c = s.server_command(false);
                        let (rc, served) = match start(&mut c) {
                            Ok(_) => (0, true),
                            Err((rc, _)) => (rc, false),
                        };
                        let same = std::fs::read(&s.path).is_ok_and(|b| b == good[..cutat]);
                        t.push(json!({"op": "badstart", "why": "damaged"}), json!({"k": "end", "rc": if same { rc } else { 0 }, "served": served}));
                        std::fs::write(&s.path, &good).unwrap();
                        fine = after(&mut s, &mut t);
                        g.stale = true;
                    }
                }
            }
        }
        if fine {
            for o in g.battery(ALL) {
                let res = s.exec(&o);
                t.push(o, res);
            }
        }
        s.stop();
        let _ = std::fs::remove_dir_all(&sub);
    }
    s.stop();
    let _ = std::fs::remove_dir_all(&dir);
    // what the values look like when they are printed
    let mut vals = std::collections::BTreeSet::new();
    for e in &t.events {
        texts(e, &mut vals);
    }
    let toks: serde_json::Map<String, Value> = vals.into_iter().map(|v| (v.clone(), json!(tokens(&format!("{:?}", crate::jtext::parse(&v))).1))).collect();
    t.toks = Some(Value::Object(toks));
    t.write(arg(a, "out", "/dev/stdout"), rdb);
    println!("{}", json!({"events": t.events.len(), "histories": sessions, "commands": s.commands, "starts": s.starts, "transitions": of, "of": of}));
    0
}
fn on_store(db: &Db, op: &Value) -> Value {
    let _w = crate::watch::begin(op);
    crate::on_db!(db, d => exec::exec(d, op))
}
/// Every value text of an event: under the key "v".
fn texts(v: &Value, out: &mut std::collections::BTreeSet<String>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| texts(x, out)),
        Value::Object(m) => {
            for (k, x) in m {
                match x {
                    Value::String(s) if k == "v" => {
                        if !s.is_empty() {
                            out.insert(s.clone());
                        }
                    }
                    x => texts(x, out),
                }
            }
        }
        _ => {}
    }
}
