//! Stores written by a release, kept under golden/: written once with the operations that made them,
//! and opened again by the current code.
use crate::gen::{profile, Gen};
use crate::run::{arg, num, step, Args};
use crate::store::{scratch_dir, Store};
use crate::trace::{ustr, Trace};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::path::Path;

fn copy(from: &Path, to: &Path) {
    if from.is_dir() {
        std::fs::create_dir_all(to).unwrap();
        for e in std::fs::read_dir(from).unwrap() {
            let e = e.unwrap();
            copy(&e.path(), &to.join(e.file_name()));
        }
    } else {
        std::fs::copy(from, to).unwrap();
    }
}

/// vh goldgen store=memfile|rdb|tuned-rdb profile= seed= events= dir= out=
pub fn goldgen(a: &Args) -> i32 {
    let kind = arg(a, "store", "memfile");
    let mut g = Gen::new(num(a, "seed", 1), profile(arg(a, "profile", "C24")), kind.ends_with("rdb"));
    g.prof.w.retain(|k, _| match *k {
        "msync" | "reload" => kind == "memfile",
        "sync" => kind != "memfile",
        "reopen" => kind.ends_with("rdb"),
        _ => true,
    });
    let dir = scratch_dir("goldgen");
    let mut s = Store::new(kind, &dir);
    let mut t = Trace::default();
    s.reset();
    t.mark("reset");
    let want = num(a, "events", 200) as usize;
    while t.events.len() < want {
        if g.stale {
            for o in Gen::refresh_ops() {
                step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
            }
            g.stale = false;
        }
        for op in g.next() {
            if !step(&mut s, &mut t, &op, &mut |o, r| g.observe(o, r)) {
                return 4;
            }
        }
    }
    for n in g.names.clone() {
        if g.rng.chance(60) {
            step(&mut s, &mut t, &json!({"op": "index", "n": n}), &mut |o, r| g.observe(o, r));
        }
    }
    for o in g.battery(&["AllV", "AllE", "VPs", "EPs", "Ix"]) {
        step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
    }
    if kind == "memfile" {
        step(&mut s, &mut t, &json!({"op": "msync"}), &mut |_, _| {});
    } else if num(a, "sync", 0) == 1 {
        step(&mut s, &mut t, &json!({"op": "sync"}), &mut |_, _| {});
    }
    s.close();
    let out = Path::new(arg(a, "dir", "/nonexistent"));
    copy(&s.path(), &out.join("db"));
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    std::fs::copy(format!("{}.raw", arg(a, "out", "")), out.join("ops.raw")).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    0
}

fn learn(g: &mut Gen, events: &[Value]) {
    let (mut ids, mut names, mut vals, mut vts, mut ets) =
        (BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let mut one = |o: &Value| {
        let s = |k: &str| o[k].as_str().map(|x| x.to_string());
        if o["id"].is_string() {
            ids.insert(ustr(&o["id"]));
        }
        names.extend(s("n"));
        vals.extend(s("v"));
        vts.extend(s("t"));
        if o["e"].is_array() {
            ids.insert(ustr(&o["e"][0]));
            ids.insert(ustr(&o["e"][2]));
            ets.extend(o["e"][1].as_str().map(|x| x.to_string()));
        }
        if o["op"] == "cvt" && o["res"]["k"] == "id" {
            ids.insert(ustr(&o["res"]["id"]));
        }
    };
    for e in events {
        one(e);
        if let Some(l) = e["items"].as_array() {
            l.iter().for_each(&mut one);
        }
    }
    g.ids = ids.into_iter().collect();
    g.names = names.into_iter().collect();
    g.vals = vals.into_iter().collect();
    g.vts = vts.into_iter().collect();
    g.ets = ets.into_iter().collect();
    for e in events {
        g.observe(e, &e["res"]);
    }
}

/// vh golden store= from=DIR seed= events= repair=0|1 out=
pub fn golden(a: &Args) -> i32 {
    let kind = arg(a, "store", "memfile");
    let from = Path::new(arg(a, "from", ""));
    let dir = scratch_dir("golden");
    let mut t = Trace::default();
    let events: Vec<Value> = std::fs::read_to_string(from.join("ops.raw")).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let mut g = Gen::new(num(a, "seed", 1), profile("C24"), kind.ends_with("rdb"));
    learn(&mut g, &events);
    g.prof.w.retain(|k, _| match *k {
        "msync" | "reload" => kind == "memfile",
        "sync" => kind != "memfile",
        "reopen" => kind.ends_with("rdb"),
        _ => true,
    });
    t.events = events;
    let mut s = Store::new(kind, &dir);
    s.n = 1;
    copy(&from.join("db"), &s.path());
    if num(a, "repair", 0) == 1 {
        let r = match indradb::RocksdbDatastore::repair(s.path(), &indradb::RocksdbDatastore::get_options(None)) {
            Ok(()) => crate::exec::ok(),
            Err(e) => crate::exec::err_json(&e),
        };
        t.push(json!({"op": "repair"}), r);
    }
    let again = json!({"op": if kind == "memfile" { "reload" } else { "reopen" }});
    let everything = |g: &mut Gen, s: &mut Store, t: &mut Trace| {
        let mut ops = g.battery(&["AllV", "AllE", "CntV", "CntE", "Out", "In", "VPs", "EPs", "SpecV", "SpecE"]);
        for n in g.names.clone() {
            ops.push(json!({"op": "get", "q": {"q": "VProp", "n": n}}));
            ops.push(json!({"op": "get", "q": {"q": "EProp", "n": n}}));
            for v in g.vals.clone() {
                ops.push(json!({"op": "get", "q": {"q": "VPropVal", "n": n, "v": v}}));
                ops.push(json!({"op": "get", "q": {"q": "EPropVal", "n": n, "v": v}}));
            }
        }
        for o in ops {
            if !step(s, t, &o, &mut |o, r| g.observe(o, r)) {
                return false;
            }
        }
        true
    };
    let mut fine = step(&mut s, &mut t, &again, &mut |_, _| {}) && everything(&mut g, &mut s, &mut t);
    let end = t.events.len() + num(a, "events", 300) as usize;
    while fine && t.events.len() < end {
        if g.stale {
            for o in Gen::refresh_ops() {
                fine &= step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
            }
            g.stale = false;
        }
        for op in g.next() {
            fine = fine && step(&mut s, &mut t, &op, &mut |o, r| g.observe(o, r)) && t.events.last().unwrap()["res"]["e"] != "Open";
        }
    }
    if fine && kind == "memfile" {
        fine &= step(&mut s, &mut t, &json!({"op": "msync"}), &mut |_, _| {});
    }
    if fine && step(&mut s, &mut t, &again, &mut |_, _| {}) && t.events.last().unwrap()["res"]["e"] != "Open" {
        g.stale = false;
        for o in Gen::refresh_ops() {
            step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
        }
        everything(&mut g, &mut s, &mut t);
    }
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    println!("{}", json!({"events": t.events.len(), "histories": 1}));

    0
}
