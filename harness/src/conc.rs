//! Concurrent histories: many short programs, run again and again on real threads (or gRPC clients),
//! with signals that stop threads for a moment at arbitrary instructions. Distinct histories (results
//! and order of calls and returns) are recorded; whether they are right is for the specification.
use crate::exec;
use crate::rng::Rng;
use crate::run::{arg, num, Args};
use crate::store::{connect, grpc_exec, scratch_dir, Db, Store};
use crate::trace::{uid, Trace};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use uuid::Uuid;

pub struct Program {
    pub pre: Vec<Value>,
    pub threads: Vec<Vec<Value>>,
    pub post: Vec<Value>,
}

struct P<'a> {
    r: &'a mut Rng,
    atomic: bool,
    plugins: bool,
    ids: Vec<Value>,
    names: Vec<String>,
}
impl P<'_> {
    fn id(&mut self) -> Value {
        self.r.pick(&self.ids).clone()
    }
    fn e(&mut self) -> Value {
        let t = *self.r.pick(&["a", "a", "b"]);
        json!([self.id(), t, self.id()])
    }
    fn n(&mut self) -> String {
        self.r.pick(&self.names).clone()
    }
    fn v(&mut self) -> &'static str {
        *self.r.pick(&["1", "2", "\"x\""])
    }
    fn sv(&mut self) -> Value {
        json!({"q": "SpecV", "ids": [self.id()]})
    }
    fn se(&mut self) -> Value {
        json!({"q": "SpecE", "es": [self.e()]})
    }
    fn bulk(&mut self) -> Value {
        // self-contained: every item's owner is in the request
        let mut items = vec![];
        let mut have = vec![];
        for _ in 0..self.r.range(1, 3) {
            let i = self.id();
            items.push(json!({"i": "v", "id": i, "t": "a"}));
            have.push(i);
        }
        for _ in 0..self.r.range(0, 3) {
            let (x, y) = (self.r.pick(&have).clone(), self.r.pick(&have).clone());
            let e = json!([x, "a", y]);
            items.push(json!({"i": "e", "e": e}));
            if self.r.chance(40) {
                items.push(json!({"i": "ep", "e": e, "n": self.n(), "v": self.v()}));
            }
        }
        if self.r.chance(60) {
            let x = self.r.pick(&have).clone();
            items.push(json!({"i": "vp", "id": x, "n": self.n(), "v": self.v()}));
        }
        json!({"op": "bulk", "items": items})
    }
    /// several operations in one transaction of a plugin
    fn plugin(&mut self) -> Value {
        let i = self.id();
        let e = self.e();
        let mut ops = vec![
            json!({"op": "tx", "m": "create_vertex", "id": i, "t": "a"}),
            json!({"op": "tx", "m": "vertex_count"}),
            json!({"op": "tx", "m": "all_edges"}),
            json!({"op": "tx", "m": "create_edge", "e": [i, "a", i]}),
            json!({"op": "tx", "m": "create_edge", "e": e}),
            json!({"op": "tx", "m": "delete_edges", "es": [e]}),
            json!({"op": "tx", "m": "delete_vertices", "ids": [i]}),
            json!({"op": "tx", "m": "all_vertices"}),
        ];
        self.r.shuffle(&mut ops);
        ops.truncate(self.r.range(2, 5));
        json!({"op": "plugin", "name": "vh_ops", "pa": {"ops": ops}})
    }
    fn write(&mut self) -> Value {
        if self.plugins && self.r.chance(40) {
            return self.plugin();
        }
        match self.r.below(if self.atomic { 15 } else { 12 }) {
            0 | 1 => json!({"op": "cv", "id": self.id(), "t": "a"}),
            2 | 3 => json!({"op": "ce", "e": self.e()}),
            4 => json!({"op": "del", "q": self.sv()}),
            5 => json!({"op": "del", "q": self.se()}),
            6 | 7 => json!({"op": "set", "q": self.sv(), "n": self.n(), "v": self.v()}),
            8 => json!({"op": "set", "q": self.se(), "n": self.n(), "v": self.v()}),
            9 => {
                let i = if self.r.chance(50) { self.sv() } else { self.se() };
                json!({"op": "del", "q": {"q": "PProp", "in": i, "n": [self.n()]}})
            }
            10 => json!({"op": "index", "n": self.n()}),
            11 => self.bulk(),
            12 => {
                let q = self.many();
                json!({"op": "del", "q": q})
            }
            13 => {
                let q = self.many();
                json!({"op": "set", "q": q, "n": self.n(), "v": self.v()})
            }
            _ => {
                let q = self.many();
                json!({"op": "del", "q": {"q": "PProp", "in": q, "n": []}})
            }
        }
    }
    fn many(&mut self) -> Value {
        let lim = 4294967295u64;
        match self.r.below(6) {
            0 => json!({"q": "AllV"}),
            1 => json!({"q": "AllE"}),
            2 => json!({"q": "Pipe", "in": self.sv(), "d": "out", "lim": lim, "t": []}),
            3 => json!({"q": "Pipe", "in": {"q": "Pipe", "in": self.sv(), "d": "out", "lim": lim, "t": []}, "d": "in", "lim": lim, "t": []}),
            4 => json!({"q": "SpecV", "ids": [self.id(), self.id()]}),
            _ => json!({"q": "SpecE", "es": [self.e(), self.e()]}),
        }
    }
    fn read(&mut self) -> Value {
        let lim = 4294967295u64;
        let inc = |q: Value| json!({"q": "Inc", "in": q});
        let q = match self.r.below(12) {
            0 => json!({"q": "AllV"}),
            1 => json!({"q": "AllE"}),
            2 => json!({"q": "PProp", "in": {"q": "AllV"}, "n": []}),
            3 => json!({"q": "PProp", "in": {"q": "AllE"}, "n": []}),
            4 => json!({"q": "Pipe", "in": inc(json!({"q": "AllV"})), "d": "out", "lim": lim, "t": []}),
            5 => json!({"q": "Pipe", "in": inc(json!({"q": "AllE"})), "d": "in", "lim": lim, "t": []}),
            6 => json!({"q": "VProp", "n": self.n()}),
            7 => json!({"q": "EPropVal", "n": self.n(), "v": self.v()}),
            8 => json!({"q": "VPropVal", "n": self.n(), "v": self.v()}),
            9 => json!({"q": "Cnt", "in": {"q": "AllE"}}),
            10 => json!({"q": "PProp", "in": inc(json!({"q": "Pipe", "in": inc(json!({"q": "AllV"})), "d": "in", "lim": lim, "t": []})), "n": []}),
            _ => json!({"q": "PHas", "in": {"q": "AllV"}, "n": self.n(), "x": false}),
        };
        json!({"op": "get", "q": q})
    }
}

/// atomic: reads must fit too, and writes may select any items
pub fn program(r: &mut Rng, atomic: bool, plugins: bool) -> Program {
    let ids: Vec<Value> = (0..r.range(1, 3)).map(|i| uid(Uuid::from_u128((i as u128) << (i * 60)))).collect();
    let names = if r.chance(70) { vec!["p".to_string()] } else { vec!["p".to_string(), "pp".to_string()] };
    let mut p = P { r, atomic, plugins, ids: ids.clone(), names: names.clone() };
    let mut pre = vec![];
    if p.r.chance(60) {
        pre.push(json!({"op": "index", "n": "p"}));
    }
    for i in &ids {
        if p.r.chance(70) {
            pre.push(json!({"op": "cv", "id": i, "t": "a"}));
        }
    }
    for _ in 0..p.r.below(5) {
        let o = if p.r.chance(50) { let e = p.e(); json!({"op": "ce", "e": e}) } else { p.write() };
        pre.push(o);
    }
    let nt = p.r.range(2, 4);
    let per = if nt == 2 { 4 } else { 3 };
    let same = p.r.chance(25);
    let one = p.write();
    let threads = (0..nt)
        .map(|_| {
            (0..p.r.range(1, per))
                .map(|k| {
                    if same && k == 0 {
                        return one.clone(); // all threads start with the same operation
                    }
                    if p.r.chance(if atomic { 40 } else { 10 }) {
                        let mut o = p.read();
                        if !atomic {
                            o["free"] = json!(1);
                        }
                        o
                    } else {
                        p.write()
                    }
                })
                .collect()
        })
        .collect();
    let g = |q: Value| json!({"op": "get", "q": q});
    let lim = 4294967295u64;
    let mut post = vec![
        g(json!({"q": "AllV"})),
        g(json!({"q": "AllE"})),
        g(json!({"q": "Pipe", "in": {"q": "AllV"}, "d": "out", "lim": lim, "t": []})),
        g(json!({"q": "Pipe", "in": {"q": "AllV"}, "d": "in", "lim": lim, "t": []})),
        g(json!({"q": "PProp", "in": {"q": "AllV"}, "n": []})),
        g(json!({"q": "PProp", "in": {"q": "AllE"}, "n": []})),
    ];
    for n in names {
        post.push(g(json!({"q": "VProp", "n": n})));
        post.push(g(json!({"q": "EProp", "n": n})));
        for v in ["1", "2", "\"x\""] {
            post.push(g(json!({"q": "VPropVal", "n": n, "v": v})));
            post.push(g(json!({"q": "EPropVal", "n": n, "v": v})));
        }
    }
    Program { pre, threads, post }
}

extern "C" fn nap(_: libc::c_int) {
    let t = libc::timespec { tv_sec: 0, tv_nsec: NAP.load(Ordering::Relaxed) as i64 * 1000 };
    unsafe { libc::nanosleep(&t, std::ptr::null_mut()) };
}
static NAP: AtomicU64 = AtomicU64::new(100);

/// Something that executes operations for one thread.
type Exec = Box<dyn FnMut(&Value) -> Value + Send>;

struct Slot {
    ops: Vec<Value>,
    out: Vec<(u64, u64, Value)>,
    exec: Option<Exec>,
}

/// vh conc store=mem|rdb|grpc-mem|grpc-rdb seed= programs= reps= out= [secs=]
pub fn conc(a: &Args) -> i32 {
    let kind = arg(a, "store", "mem");
    let atomic = kind.ends_with("mem") || kind == "memfile";
    let seed = num(a, "seed", 1);
    let mut rng = Rng::new(seed);
    let dir = scratch_dir("conc");
    let mut s = Store::new(kind, &dir);
    let mut t = Trace::default();
    // vh_ops through the server
    let plugins = num(a, "plugins", 0) == 1;
    if plugins {
        s = s.with_plugins();
        t.plugins = crate::store::OWN_PLUGINS.to_vec();
    }
    let secs = num(a, "secs", 1 << 30);
    let start = std::time::Instant::now();
    let reps = num(a, "reps", 200) as usize;
    const W: usize = 4;
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = nap as extern "C" fn(libc::c_int) as usize;
        sa.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    }
    let seq = Arc::new(AtomicU64::new(0));
    let go = Arc::new(Barrier::new(W + 1));
    let end = Arc::new(Barrier::new(W + 1));
    let stop = Arc::new(AtomicBool::new(false));
    let slots: Vec<Arc<Mutex<Slot>>> = (0..W).map(|_| Arc::new(Mutex::new(Slot { ops: vec![], out: vec![], exec: None }))).collect();
    let tids: Arc<Vec<AtomicI32>> = Arc::new((0..W).map(|_| AtomicI32::new(0)).collect());
    let mut joins = vec![];
    for (w, slot) in slots.iter().enumerate() {
        let (slot, go, end, stop, seq, tids) = (slot.clone(), go.clone(), end.clone(), stop.clone(), seq.clone(), tids.clone());
        joins.push(std::thread::spawn(move || {
            tids[w].store(unsafe { libc::gettid() }, Ordering::SeqCst);
            loop {
                go.wait();
                if stop.load(Ordering::SeqCst) {
                    return;
                }
                {
                    let mut s = slot.lock().unwrap();
                    let Slot { ops, out, exec } = &mut *s;
                    if let Some(exec) = exec {
                        for o in ops.iter() {
                            let c = seq.fetch_add(1, Ordering::SeqCst);
                            let r = exec(o);
                            let d = seq.fetch_add(1, Ordering::SeqCst);
                            out.push((c, d, r));
                        }
                    }
                }
                end.wait();
            }
        }));
    }
    // the interrupter
    let span = if kind.starts_with("grpc") { 20_000 } else { 2500 };
    let running = Arc::new(AtomicBool::new(false));
    let inter = {
        let (running, stop, tids) = (running.clone(), stop.clone(), tids.clone());
        std::thread::spawn(move || {
            let mut r = Rng::new(seed ^ 0x5151);
            let pid = unsafe { libc::getpid() };
            while !stop.load(Ordering::Relaxed) {
                if !running.load(Ordering::Relaxed) {
                    std::hint::spin_loop();
                    continue;
                }
                // a few naps per run, at random moments
                for _ in 0..r.range(1, 3) {
                    for _ in 0..r.below(span) {
                        std::hint::spin_loop();
                    }
                    if !running.load(Ordering::Relaxed) {
                        break;
                    }
                    let t = tids[r.below(W)].load(Ordering::Relaxed);
                    NAP.store([20, 50, 100, 200][r.below(4)], Ordering::Relaxed);
                    unsafe { libc::syscall(libc::SYS_tgkill, pid, t, libc::SIGUSR1) };
                }
                while running.load(Ordering::Relaxed) {
                    std::hint::spin_loop();
                }
            }
        })
    };
    let (mut total, mut progs) = (0u64, 0u64);
    let rounds = num(a, "programs", 50);
    let mut clients: Vec<indradb_proto::Client> = vec![];
    let batch = if kind == "mem" { 1 } else { 50 };
    for _ in 0..rounds {
        if start.elapsed().as_secs() >= secs {
            break;
        }
        progs += 1;
        let p = program(&mut rng, atomic, plugins);
        let mut seen: BTreeMap<String, Value> = BTreeMap::new();
        for rep in 0..reps {
            let _w = crate::watch::begin(&json!({"pre": p.pre, "threads": p.threads}));
            // opening a RocksDB datastore is slow: it is emptied instead, and opened anew now and then
            // (index names cannot be removed, so only programs whose names are indexed from the start share one)
            let fresh = rep % batch == 0 || !p.pre.iter().any(|o| o["op"] == "index") || p.post.len() > 14;
            if fresh {
                for sl in &slots {
                    sl.lock().unwrap().exec = None;
                }
                clients.clear();
                s.reset();
                if let Some(g) = &s.grpc {
                    let rt = g.rt.clone();
                    clients = (0..W).map(|_| connect(&rt, g.addr)).collect();
                }
            } else {
                s.exec(&json!({"op": "del", "q": {"q": "AllV"}}));
            }
            let run = |s: &mut Store, l: &[Value]| -> Vec<Value> {
                l.iter()
                    .map(|o| {
                        let r = s.exec(o);
                        let mut o = o.clone();
                        o["res"] = r;
                        o
                    })
                    .collect()
            };
            let pre = run(&mut s, &p.pre);
            for (w, sl) in slots.iter().enumerate() {
                let mut sl = sl.lock().unwrap();
                sl.out.clear();
                sl.ops = p.threads.get(w).cloned().unwrap_or_default();
                if sl.exec.is_none() {
                    sl.exec = Some(match (&s.db, clients.get(w)) {
                        (_, Some(c)) => {
                            let (mut c, rt) = (c.clone(), s.rt.clone().unwrap());
                            Box::new(move |o: &Value| rt.block_on(grpc_exec(&mut c, o)))
                        }
                        (Db::M(d), _) => {
                            let d = d.clone();
                            Box::new(move |o: &Value| exec::exec(&d, o))
                        }
                        (Db::R(d), _) => {
                            let d = d.clone();
                            Box::new(move |o: &Value| exec::exec(&d, o))
                        }
                        _ => unreachable!(),
                    });
                }
            }
            running.store(rng.chance(80), Ordering::SeqCst);
            go.wait();
            end.wait();
            running.store(false, Ordering::SeqCst);
            total += 1;
            let post = run(&mut s, &p.post);
            let mut calls = vec![];
            let mut times = vec![];
            for (w, sl) in slots.iter().enumerate() {
                let sl = sl.lock().unwrap();
                for (k, (c, d, r)) in sl.out.iter().enumerate() {
                    let mut o = p.threads[w][k].clone();
                    o["res"] = r.clone();
                    calls.push((o, *c, *d));
                    times.extend([*c, *d]);
                }
            }
            times.sort();
            for (o, c, d) in &mut calls {
                o["c"] = json!(times.binary_search(c).unwrap());
                o["r"] = json!(times.binary_search(d).unwrap());
            }
            let calls: Vec<Value> = calls.into_iter().map(|x| x.0).collect();
            // two runs are the same history if results and precedence agree
            let prec: Vec<Vec<bool>> = calls
                .iter()
                .map(|x| calls.iter().map(|y| x["r"].as_u64() < y["c"].as_u64()).collect())
                .collect();
            let key = format!("{:?} {:?} {:?}", calls.iter().map(|c| c["res"].to_string()).collect::<Vec<_>>(), prec, post);
            seen.entry(key).or_insert_with(|| json!({"op": "hist", "pre": pre, "calls": calls, "post": post}));
            if start.elapsed().as_secs() >= secs {
                break;
            }
        }
        t.events.extend(seen.into_values());
    }
    stop.store(true, Ordering::SeqCst);
    go.wait();
    for j in joins {
        let _ = j.join();
    }
    let _ = inter.join();
    for sl in &slots {
        sl.lock().unwrap().exec = None;
    }
    drop(clients);
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), s.is_rdb());
    println!("{}", json!({"events": t.events.len(), "runs": total, "programs": progs}));
    0
}
