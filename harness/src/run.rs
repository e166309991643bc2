//! Sequential histories: generate, execute, record.
use crate::gen::{profile, Gen};
use crate::store::{scratch_dir, Store};
use crate::trace::{uid, ustr, Trace};
use serde_json::{json, Value};
use std::collections::HashMap;

pub type Args = HashMap<String, String>;
pub fn num(a: &Args, k: &str, d: u64) -> u64 {
    a.get(k).map(|v| v.parse().unwrap()).unwrap_or(d)
}
pub fn arg<'a>(a: &'a Args, k: &str, d: &'a str) -> &'a str {
    a.get(k).map(|s| s.as_str()).unwrap_or(d)
}

/// Executes one operation (or a composite one) and records it.
pub fn step(s: &mut Store, t: &mut Trace, op: &Value, seen: &mut dyn FnMut(&Value, &Value)) -> bool {
    match op["op"].as_str().unwrap() {
        // paging: pages until one is short; every page is an ordinary range query
        "page" => {
            let lim = op["lim"].as_u64().unwrap();
            let mut start = json!([]);
            loop {
                let o = json!({"op": "get", "q": {"q": "RangeV", "lim": lim, "t": op["t"], "s": start}});
                let r = s.exec(&o);
                t.push(o.clone(), r.clone());
                if r["k"] != "out" {
                    return r["k"] != "panic";
                }
                let page = r["o"][0]["s"].as_array().unwrap().clone();
                if (page.len() as u64) < lim || t.events.len() > 200_000 {
                    return true;
                }
                match indradb::util::next_uuid(ustr(&page[page.len() - 1][0])) {
                    Ok(n) => start = json!([uid(n)]),
                    Err(_) => return true,
                }
            }
        }
        "txs" => {
            let ops = op["ops"].as_array().unwrap();
            let rs = s.exec_txs(ops);
            let mut fine = true;
            for (o, r) in ops.iter().zip(rs.iter()) {
                t.push(o.clone(), r.clone());
                seen(o, r);
                fine &= r["k"] != "panic";
            }
            fine
        }
        _ => {
            let r = s.exec(op);
            t.push(op.clone(), r.clone());
            seen(op, &r);
            r["k"] != "panic"
        }
    }
}

/// vh run profile=C01 store=mem seed=1 events=2000 out=FILE
pub fn run(a: &Args) -> i32 {
    let kind = arg(a, "store", "mem");
    let mut g = Gen::new(num(a, "seed", 1), profile(arg(a, "profile", "all")), kind.ends_with("rdb"));
    if kind.starts_with("grpc") {
        // ids from the wire are the same; transaction operations stay direct
        g.prof.via = true;
    }
    if g.prof.name == "C21" {
        // every kind of store is closed and opened in its own way
        g.prof.w.retain(|k, _| match *k {
            "msync" | "reload" => kind == "memfile",
            "reopen" => kind.ends_with("rdb"),
            _ => true,
        });
    }
    let dir = scratch_dir("run");
    // rel=1: the database is named by a bare relative path
    let rel = num(a, "rel", 0) == 1;
    if rel {
        std::env::set_current_dir(&dir).unwrap();
    }
    let mut s = Store::new(kind, if rel { std::path::Path::new("") } else { &dir });
    let mut t = Trace::default();
    if g.prof.plugins && kind.starts_with("grpc") {
        s = s.with_plugins();
        t.plugins = crate::store::OWN_PLUGINS.to_vec();
    }
    let want = num(a, "events", 1500) as usize;
    let mut histories = 0;
    while t.events.len() < want {
        g.new_history();
        s.reset();
        t.mark("reset");
        histories += 1;
        g.served = s.plugins.is_some();
        let n = g.history_len();
        let mut fine = true;
        for _ in 0..n {
            if g.stale {
                for o in Gen::refresh_ops() {
                    fine &= step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
                }
                g.stale = false;
            }
            for op in g.next() {
                fine &= step(&mut s, &mut t, &op, &mut |o, r| g.observe(o, r));
                if !fine {
                    break;
                }
            }
            if !fine {
                break;
            }
        }
    }
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    println!("{}", json!({"events": t.events.len(), "histories": histories}));
    0
}

/// vh replay in=FILE.raw store=mem out=FILE: executes the recorded operations again.
pub fn replay(a: &Args) -> i32 {
    let kind = arg(a, "store", "mem");
    let dir = scratch_dir("replay");
    let mut s = Store::new(kind, &dir).with_plugins();
    let mut t = Trace::default();
    if s.plugins.is_some() {
        t.plugins = crate::store::OWN_PLUGINS.to_vec();
    }
    for l in std::fs::read_to_string(arg(a, "in", "")).unwrap().lines() {
        let mut op: Value = serde_json::from_str(l).unwrap();
        if op["op"] == "reset" {
            s.reset();
            t.mark("reset");
            continue;
        }
        op.as_object_mut().unwrap().remove("res");
        if !step(&mut s, &mut t, &op, &mut |_, _| {}) {
            break;
        }
    }
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    0
}

/// vh bigmap store= seed= cases= out=: mappings over populations around the internal batch size.
pub fn bigmap(a: &Args) -> i32 {
    let kind = arg(a, "store", "mem");
    let mut rng = crate::rng::Rng::new(num(a, "seed", 1));
    let dir = scratch_dir("bigmap");
    let mut s = Store::new(kind, &dir).with_plugins();
    let mut t = Trace::default();
    if s.plugins.is_some() {
        t.plugins = crate::store::OWN_PLUGINS.to_vec();
    }
    for _ in 0..num(a, "cases", 2) {
        s.reset();
        t.mark("reset");
        let n = *rng.pick(&[998usize, 999, 1000, 1001, 1002, 1500, 1999, 2000, 2001]);
        let base = rng.next() as u128;
        let ids: Vec<Value> = (0..n as u128).map(|i| uid(uuid::Uuid::from_u128((i * 0x9e37_79b9_7f4a_7c15) ^ (base << 64)))).collect();
        let items: Vec<Value> = ids.iter().enumerate().map(|(k, i)| json!({"i": "v", "id": i, "t": (["a", "b", ""][k % 3])})).collect();
        let noop = &mut |_: &Value, _: &Value| {};
        step(&mut s, &mut t, &json!({"op": "bulk", "items": items}), noop);
        for mode in 0..4 {
            let some = |rng: &mut crate::rng::Rng, k: usize| (0..k).map(|_| rng.pick(&ids).clone()).collect::<Vec<_>>();
            let fail = match mode {
                0 | 3 => vec![],
                1 => some(&mut rng, 1),
                _ => some(&mut rng, 40),
            };
            let panic = if mode == 3 { some(&mut rng, 2) } else { vec![] };
            let pa = json!({"threads": [rng.range(1, 16)], "fail": fail, "panic": panic, "slow": some(&mut rng, 5)});
            let op = if s.plugins.is_some() && mode == 0 {
                json!({"op": "plugin", "name": "vh_map", "pa": pa})
            } else {
                json!({"op": "map", "pa": pa})
            };
            step(&mut s, &mut t, &op, noop);
        }
    }
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    println!("{}", json!({"events": t.events.len(), "histories": num(a, "cases", 2)}));
    0
}

/// vh big profile= store= seed= rounds= out=: graphs of thousands of items, where whatever is done in
/// portions has more than one.
pub fn big(a: &Args) -> i32 {
    let kind = arg(a, "store", "mem");
    let mut g = Gen::new(num(a, "seed", 1), profile(arg(a, "profile", "C04")), kind.ends_with("rdb"));
    let dir = scratch_dir("big");
    let mut s = Store::new(kind, &dir);
    let mut t = Trace::default();
    for _ in 0..num(a, "rounds", 1) {
        g.new_history();
        g.v.clear();
        s.reset();
        t.mark("reset");
        let see = &mut |_: &Value, _: &Value| {};
        for o in g.big_history(kind) {
            if !step(&mut s, &mut t, &o, see) {
                break;
            }
        }
    }
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    println!("{}", json!({"events": t.events.len(), "histories": num(a, "rounds", 1)}));
    0
}
