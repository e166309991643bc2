//! Identifiers and generated ids: what every entry point accepts, and which ids are handed out.
use crate::exec;
use crate::gen::{id_pool, profile, Gen};
use crate::on_db;
use crate::rng::Rng;
use crate::run::{arg, num, step, Args};
use crate::store::{connect, scratch_dir, Db, Store};
use crate::trace::{uid, Trace};
use crate::wire;
use indradb::{Identifier, Vertex};
use indradb_proto as proto;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::{Arc, Barrier};
use uuid::Uuid;

/// The entry points for text, each giving the accepted identifier.
type Entry = (&'static str, fn(&str) -> Option<Identifier>);
const ENTRIES: &[Entry] = &[
    ("new(String)", |s| Identifier::new(s.to_string()).ok()),
    ("new(&str)", |s| Identifier::new(s).ok()),
    ("parse", |s| s.parse::<Identifier>().ok()),
    ("from_str", |s| Identifier::from_str(s).ok()),
    ("try_from", |s| Identifier::try_from(s.to_string()).ok()),
    ("wire", |s| {
        let r: Result<Identifier, _> = proto::Identifier { value: s.to_string() }.try_into();
        r.ok()
    }),
    ("index request", |s| {
        let r: Result<Identifier, _> = proto::IndexPropertyRequest { name: Some(proto::Identifier { value: s.to_string() }) }.try_into();
        r.ok()
    }),
];

fn texts(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    // every length around the limit, with characters of one to four bytes
    for c in ['x', '\u{e9}', '\u{540d}', '\u{1d4b3}', '-', '\u{663}', '\u{20ac}'] {
        for n in (0..=3).chain(60..=66).chain(82..=88).chain(120..=130).chain(248..=260).chain([300, 511, 512, 513, 1024, 65535, 65536]) {
            v.push(std::iter::repeat(c).take(n).collect());
        }
    }
    for n in 240..=262usize {
        for t in ['\u{e9}', '\u{540d}', '\u{1d4b3}', '!'] {
            let k = n.saturating_sub(t.len_utf8());
            v.push("a".repeat(k) + &t.to_string());
            v.push(t.to_string() + &"a".repeat(k));
        }
    }
    for _ in 0..600 {
        let n = if r.chance(30) { r.range(80, 280) } else { r.range(0, 12) };
        let bad = r.chance(40);
        let mut s = String::new();
        while s.len() < n {
            let any = bad && r.chance(8);
            s.push(any_char(r, any));
        }
        v.push(s);
    }
    for _ in 0..400 {
        let b = v[r.below(v.len())].clone();
        v.push(wire::odd_ident(r, if b.len() < 300 { &b } else { "a" }));
    }
    v
}
pub fn any_char(r: &mut Rng, any: bool) -> char {
    let blocks: &[(u32, u32)] =
        &[(0x30, 0x7a), (0x30, 0x7a), (0x30, 0x7a), (0xc0, 0x24f), (0x370, 0x5ff), (0x600, 0x6ff), (0x900, 0xdff), (0x1100, 0x11ff), (0x3040, 0x30ff), (0x4e00, 0x9fff), (0xac00, 0xd7a3), (0xff10, 0xff5a), (0x10000, 0x10fff), (0x1d400, 0x1d7ff), (0x20000, 0x2a6df)];
    loop {
        let (lo, hi) = if any { (0, 0x10ffff) } else { *r.pick(blocks) };
        if let Some(c) = char::from_u32(lo + r.below((hi - lo + 1) as usize) as u32) {
            if any || c.is_alphanumeric() || c == '-' || c == '_' {
                return c;
            }
        }
    }
}
/// Valid identifiers, many of them close to each other.
pub fn wide_pool(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "A", "ab", "a-", "a_", "-", "_", "--", "", "0", "\u{660}", "\u{ff10}", "\u{ac00}", "\u{1100}\u{1161}", "\u{e9}", "e", "\u{212a}", "K", "k",
        "\u{131}", "i", "I", "\u{130}", "\u{df}", "ss", "\u{1e9e}", "\u{fb01}", "fi", "\u{3c3}", "\u{3c2}", "\u{1d4b3}", "X", "\u{2160}", "\u{bd}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for _ in 0..10 {
        let n = *r.pick(&[1usize, 2, 5, 16, 127, 128, 129, 200, 252, 253, 254, 255]);
        let mut s = String::new();
        loop {
            let c = any_char(r, false);
            if s.len() + c.len_utf8() > n {
                break;
            }
            s.push(c);
        }
        while s.len() < n {
            s.push('z');
        }
        let mut c: Vec<char> = s.chars().collect();
        v.push(s);
        // and one that differs only at the end
        c.pop();
        v.push(c.iter().collect());
        c.push('y');
        v.push(c.iter().collect());
    }
    v.retain(|s| s.len() <= 255);
    v
}

fn hash(i: &Identifier) -> u64 {
    let mut h = DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}

/// vh idents seed= out=
pub fn idents(a: &Args) -> i32 {
    let mut r = Rng::new(num(a, "seed", 1));
    let mut t = Trace::default();
    let mut texts_done = 0;
    for (en, f) in ENTRIES {
        for (k, pre, post) in [(0, "", ""), (1, "a", ""), (2, "", "_"), (3, "0", "z")] {
            // in one position everywhere, in the others where it is cheap
            if k > 0 && !["new(&str)", "wire"].contains(en) {
                continue;
            }
            let mut runs: Vec<Value> = vec![];
            let mut last: Option<(Value, bool, u32, u32)> = None;
            let mut s = String::new();
            for c in '\0'..=char::MAX {
                s.clear();
                s.push_str(pre);
                s.push(c);
                s.push_str(post);
                let d = (wire::class(c), s.len());
                let ok = f(&s).is_some_and(|i| i.as_str() == s);
                texts_done += 1;
                match &mut last {
                    Some((x, o, _, hi)) if x["len"] == d.1 as u64 && x["c"] == d.0 && *o == ok => *hi = c as u32,
                    _ => {
                        let mut x = wire::ident(&s);
                        x["c"] = json!(d.0);
                        if let Some((mut x, o, lo, hi)) = last.replace((x, ok, c as u32, c as u32)) {
                            x["ok"] = json!(o);
                            x["lo"] = json!(lo);
                            x["hi"] = json!(hi);
                            x.as_object_mut().unwrap().remove("s");
                            runs.push(x);
                        }
                    }
                }
            }
            for c in runs.chunks(400) {
                t.events.push(json!({"op": "chars", "entry": en, "pre": pre, "post": post, "runs": c}));
            }
        }
    }
    let all = texts(&mut r);
    for s in &all {
        for (en, f) in ENTRIES {
            let i = f(s);
            let mut e = wire::ident(s);
            e["op"] = json!("ident");
            e["entry"] = json!(en);
            e["ok"] = json!(i.is_some());
            // long texts are compared here
            e["out"] = match &i {
                Some(i) if s.len() > 1000 => json!(if i.as_str() == s { s } else { "other" }),
                Some(i) => json!([i.as_str(), &i.to_string(), &serde_json::to_value(i).unwrap().as_str().unwrap().to_string()][r.below(3)]),
                None => json!(""),
            };
            if s.len() > 1000 {
                e["s"] = json!("long");
                if e["out"] != "" {
                    e["out"] = json!(if e["out"].as_str().unwrap() == s { "long" } else { "other" });
                }
            }
            t.events.push(e);
            texts_done += 1;
        }
    }
    for _ in 0..40 {
        let p = wide_pool(&mut r);
        for _ in 0..60 {
            let (x, y) = (r.pick(&p).clone(), r.pick(&p).clone());
            let y = if r.chance(20) { x.clone() } else { y };
            let (e, g) = (r.pick(ENTRIES), r.pick(ENTRIES));
            if let (Some(i), Some(j)) = ((e.1)(&x), (g.1)(&y)) {
                let set: HashSet<Identifier> = [i].into_iter().collect();
                t.events.push(json!({"op": "same", "a": x, "b": y, "eq": i == j, "set": set.contains(&j), "hash": hash(&i) == hash(&j), "cmp": i.cmp(&j).is_eq()}));
            }
        }
    }
    let d = Identifier::default();
    let e = Identifier::new("").unwrap();
    t.events.push(json!({"op": "same", "a": d.as_str(), "b": "", "eq": d == e, "set": true, "hash": hash(&d) == hash(&e), "cmp": d.cmp(&e).is_eq()}));
    t.write(arg(a, "out", "/dev/stdout"), false);
    println!("{}", json!({"events": t.events.len(), "histories": 1, "texts": texts_done}));
    0
}

/// vh wireids store=grpc-mem seed= events= out=: every request with every kind of identifier.
pub fn wireids(a: &Args) -> i32 {
    let kind = arg(a, "store", "grpc-mem");
    let mut r = Rng::new(num(a, "seed", 1));
    let mut g = Gen::new(num(a, "seed", 1), profile("C17"), kind.ends_with("rdb"));
    let dir = scratch_dir("wireids");
    let mut s = Store::new(kind, &dir);
    let mut t = Trace::default();
    let want = num(a, "events", 1500) as usize;
    let mut histories = 0;
    while t.events.len() < want {
        s.reset();
        t.mark("reset");
        histories += 1;
        g.new_history();
        for o in g.seed_ops() {
            step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
        }
        let rt = s.grpc.as_ref().unwrap().rt.clone();
        let mut raw = wire::raw_client(&s);
        for _ in 0..120 {
            let text = match r.below(4) {
                0 => wire::odd_ident(&mut r, "a"),
                1 => {
                    let all = r.chance(50);
                    (0..r.range(1, 4)).map(|_| any_char(&mut r, all)).collect()
                }
                2 => {
                    let p = wide_pool(&mut r);
                    r.pick(&p).clone()
                }
                _ => {
                    let c = any_char(&mut r, true);
                    format!("{}{c}", ["", "a", "_"][r.below(3)])
                }
            };
            let (i, j) = (uid(*r.pick(&g.ids)), uid(*r.pick(&g.ids)));
            let fresh = uid(Uuid::from_u128((r.next() as u128) << 64 | r.next() as u128));
            let x = json!(text);
            let op = match r.below(14) {
                0 => json!({"op": "cv", "id": fresh, "t": x}),
                1 => json!({"op": "cvt", "t": x}),
                2 => json!({"op": "ce", "e": [i, x, j]}),
                3 => json!({"op": "index", "n": x}),
                4 => json!({"op": "set", "q": {"q": "SpecV", "ids": [i]}, "n": x, "v": "1"}),
                5 => json!({"op": "get", "q": {"q": "RangeV", "lim": 5, "t": [x], "s": []}}),
                6 => json!({"op": "get", "q": {"q": "Pipe", "in": {"q": "AllV"}, "d": "out", "lim": 9, "t": [x]}}),
                7 => json!({"op": "get", "q": {"q": "PProp", "in": {"q": "AllV"}, "n": [x]}}),
                8 => json!({"op": "get", "q": {"q": "PHas", "in": {"q": "AllV"}, "n": x, "x": true}}),
                9 => json!({"op": "get", "q": {"q": "EPropVal", "n": x, "v": "1"}}),
                10 => json!({"op": "bulk", "items": [{"i": "v", "id": fresh, "t": x}, {"i": "vp", "id": fresh, "n": x, "v": "2"}]}),
                11 => json!({"op": "bulk", "items": [{"i": "v", "id": fresh, "t": "a"}, {"i": "e", "e": [fresh, x, fresh]}, {"i": "ep", "e": [fresh, x, fresh], "n": x, "v": "2"}]}),
                12 => json!({"op": "get", "q": {"q": "SpecE", "es": [[i, x, j]]}}),
                _ => json!({"op": "get", "q": {"q": "VProp", "n": x}}),
            };
            let w = wire::request(&op).unwrap();
            let _w = crate::watch::begin(&w);
            let res = rt.block_on(wire::send(&mut raw, &w));
            t.push(w, res);
        }
        for o in g.battery(&["AllV", "AllE", "Out", "In", "VPs", "EPs"]) {
            step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
        }
    }
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    println!("{}", json!({"events": t.events.len(), "histories": histories}));
    0
}

/// Runs f on several threads, started together.
fn together<T: Send + 'static>(n: usize, f: impl Fn(usize) -> T + Send + Sync + 'static) -> Vec<T> {
    let f = Arc::new(f);
    let b = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let (f, b) = (f.clone(), b.clone());
            std::thread::spawn(move || {
                b.wait();
                f(k)
            })
        })
        .collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect()
}
fn digits(u: Uuid) -> Value {
    json!(u.as_bytes().to_vec())
}

/// vh idgen store= seed= bursts= out=
pub fn idgen(a: &Args) -> i32 {
    let kind = arg(a, "store", "mem");
    let mut r = Rng::new(num(a, "seed", 1));
    let mut t = Trace::default();
    // no more than 16000 ids at a time: see IdGen.tla
    for b in 0..num(a, "bursts", 8) {
        let n = *r.pick(&[1usize, 2, 4, 8, 8, 16]);
        let each = 16000 / n;
        let via = b % 3;
        let ids: Vec<Value> = together(n, move |k| {
            (0..each)
                .map(|i| match (via + (k + i) as u64 / 64) % 2 {
                    0 => indradb::util::generate_uuid_v1(),
                    _ => Vertex::new(Identifier::default()).id,
                })
                .collect::<Vec<Uuid>>()
        })
        .into_iter()
        .flatten()
        .map(uid)
        .collect();
        t.events.push(json!({"op": "gen", "ids": ids}));
        std::thread::sleep(std::time::Duration::from_millis(3));
    }
    // successors
    let mut us: Vec<u128> = vec![0, 1, u128::MAX, u128::MAX - 1, u128::MAX - 255, u128::MAX - 256, u128::MAX >> 1, 1 << 127];
    for k in 0..16 {
        for b in [0u128, 1, 0x7f, 0x80, 0xfe, 0xff] {
            let low = (1u128 << (8 * k)) - 1;
            us.push(b << (8 * k));
            us.push((b << (8 * k)) | low);
            us.push(u128::MAX & !(0xff << (8 * k)) | (b << (8 * k)));
            let x = ((r.next() as u128) << 64) | r.next() as u128;
            us.push(x & !(0xff << (8 * k)) & !low | (b << (8 * k)) | low);
        }
    }
    for _ in 0..400 {
        us.push(((r.next() as u128) << 64) | r.next() as u128);
    }
    for u in us {
        let u = Uuid::from_u128(u);
        let n = indradb::util::next_uuid(u);
        t.events.push(json!({"op": "next", "a": digits(u), "r": n.map(|x| json!([digits(x)])).unwrap_or(json!([]))}));
    }
    // vertices created without an id
    let dir = scratch_dir("idgen");
    let mut s = Store::new(kind, &dir);
    let types: Vec<Identifier> = crate::gen::type_pool().iter().map(|x| exec::ident(x)).collect();
    for _ in 0..num(a, "rounds", 3) {
        s.reset();
        t.mark("reset");
        let own: Vec<Vertex> = id_pool(&mut r).into_iter().take(8).map(|i| Vertex::with_id(i, *r.pick(&types))).collect();
        for v in &own {
            assert!(on_db!(&s.db, d => d.create_vertex(v)).unwrap());
        }
        let vs = |l: &[(Uuid, Identifier)]| l.iter().map(|(i, t)| json!([uid(*i), t.as_str()])).collect::<Vec<_>>();
        t.events.push(json!({"op": "put", "vs": vs(&own.iter().map(|v| (v.id, v.t)).collect::<Vec<_>>())}));
        for _ in 0..3 {
            let n = *r.pick(&[1usize, 2, 4, 8]);
            let each = if s.grpc.is_some() { 120 } else { 400 } / n;
            let seed = r.next();
            let types = types.clone();
            let _w = crate::watch::begin(&json!({"idgen": n}));
            type One = (Uuid, Identifier, bool);
            let res: Vec<One> = match (&s.grpc, &s.db) {
                (Some(g), _) => {
                    let clients: Vec<_> = (0..n).map(|_| connect(&g.rt, g.addr)).collect();
                    let rt = g.rt.clone();
                    together(n, move |k| {
                        let mut c = clients[k].clone();
                        let mut r = Rng::new(seed + k as u64);
                        rt.block_on(async {
                            let mut out: Vec<One> = vec![];
                            for _ in 0..each {
                                let t = *r.pick(&types);
                                out.push(match c.create_vertex_from_type(t).await {
                                    Ok(i) => (i, t, true),
                                    Err(_) => (Uuid::nil(), t, false),
                                });
                            }
                            out
                        })
                    })
                }
                (None, db) => {
                    let db = match db {
                        Db::M(d) => Db::M(d.clone()),
                        Db::R(d) => Db::R(d.clone()),
                        Db::Closed => unreachable!(),
                    };
                    together(n, move |k| {
                        let mut r = Rng::new(seed + k as u64);
                        (0..each)
                            .map(|i| {
                                let t = *r.pick(&types);
                                if i % 3 == 0 {
                                    // the id of a new vertex, and then the vertex
                                    let v = Vertex::new(t);
                                    let ok = on_db!(&db, d => d.create_vertex(&v)).unwrap_or(false);
                                    return (v.id, v.t, ok && v.t == t);
                                }
                                match on_db!(&db, d => d.create_vertex_from_type(t)) {
                                    Ok(i) => (i, t, true),
                                    Err(_) => (Uuid::nil(), t, false),
                                }
                            })
                            .collect::<Vec<One>>()
                    })
                }
            }
            .into_iter()
            .flatten()
            .collect();
            let good: Vec<(Uuid, Identifier)> = res.iter().filter(|x| x.2).map(|x| (x.0, x.1)).collect();
            t.events.push(json!({"op": "born", "failed": res.len() - good.len(), "vs": vs(&good)}));
            let got = s.exec(&json!({"op": "get", "q": {"q": "AllV"}}));
            let seen = if got["k"] == "out" { got["o"][0]["s"].clone() } else { json!([]) };
            t.events.push(json!({"op": "seen", "vs": seen}));
        }
    }
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    println!("{}", json!({"events": t.events.len(), "histories": num(a, "rounds", 3)}));
    0
}
