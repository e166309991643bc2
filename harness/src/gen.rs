//! Random operation histories over small adversarial palettes. Nothing here knows what results are
//! right: the shadow of existing items only steers the choice of arguments (and keeps arguments
//! inside what the properties quantify over), and is refreshed from the observed results.
use crate::jtext;
use crate::rng::Rng;
use crate::trace::{uid, ustr};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use uuid::Uuid;

pub const UMAX: u64 = u32::MAX as u64;

pub fn id_pool(rng: &mut Rng) -> Vec<Uuid> {
    let base = ((rng.next() as u128) << 64) | rng.next() as u128;
    let mut pool: Vec<u128> = vec![0, 1, 2, u128::MAX, u128::MAX - 1, 0xff, 0x100, 0xffff, 0x1_0000];
    pool.extend([base, base.wrapping_add(1), base | 0xff, (base | 0xff).wrapping_add(1), base ^ (1 << 127), base ^ 1 << 64]);
    pool.extend([0xff_u128 << 120, 0x01_u128 << 120, 0x80_u128 << 120, (base >> 64) << 64, u64::MAX as u128, (u64::MAX as u128) + 1]);
    for _ in 0..4 {
        pool.push(((rng.next() as u128) << 64) | rng.next() as u128);
    }
    let mut v: Vec<Uuid> = pool.into_iter().collect::<BTreeSet<_>>().into_iter().map(Uuid::from_u128).collect();
    rng.shuffle(&mut v);
    v
}
pub fn type_pool() -> Vec<String> {
    let mut v: Vec<String> =
        ["", "a", "b", "aa", "ab", "B", "_", "-", "a-b_c9", "0", "\u{e9}", "\u{4e2d}\u{6587}", "likes", "\u{3c9}1"]
            .iter()
            .map(|s| s.to_string())
            .collect();
    v.push("x".repeat(255));
    v.push("x".repeat(254));
    v.push("\u{e9}".repeat(127));
    v.push("y".repeat(128));
    v
}
pub fn value_pool(rng: &mut Rng) -> Vec<Value> {
    let texts = [
        "null", "true", "false", "0", "1", "-1", "1.0", "0.0", "-0.0", "2", "2.0", "\"1\"", "\"\"", "\"a\"", "\"b\"", "[]", "{}",
        "[1]", "[[1]]", "[[1],2]", "[[1,2]]", "[1,[2]]", "[[],[]]", "[[[]]]", "[null]", "[[null]]", "{\"a\":1}", "{\"a\":1.0}",
        "{\"a\":{\"b\":1},\"c\":2}", "{\"a\":{\"b\":1,\"c\":2}}", "{\"\":null}", "{\"a\":null}", "-9223372036854775808",
        "18446744073709551615", "9223372036854775807", "9223372036854775808", "9007199254740993", "9007199254740992",
        "9007199254740992.0", "1e308", "5e-324", "1.5", "-1.5", "\"\\u0000\"", "\"null\"", "\"\\ud83d\\ude00\"", "\"\u{e9}\"",
        "[\"a\",\"b\"]", "[\"ab\"]", "{\"ab\":\"c\"}", "{\"a\":\"bc\"}", "[1,2]", "[2,1]", "[12]", "[true,false]", "{\"a\":[1],\"b\":2}",
        "{\"a\":[1,{\"b\":2}]}", "{\"x\":[1,2,{\"y\":[3]}]}", "{\"x\":[1,2,{\"y\":[4]}]}", "\"[1]\"", "\"\\\"\"", "\"\\\\\"", "\"\\n\\t\"",
        "18446744073709551616.0", "-9223372036854775808.0", "[1.0]", "[-0.0]", "[0.0]", "[0]", "\"A\"", "\"a \"",
        "{\"b\":{\"a\":0}}", "{\"k\":[]}", "{\"k\":{}}", "{\"\":{\"\":{}}}", "[[1,2],[3]]", "[[1],[2,3]]",
    ];
    let mut v: Vec<Value> = texts.iter().map(|t| jtext::parse(t)).collect();
    v.push(Value::String("long".repeat(rng.range(200, 1500))));
    let mut deep = json!(1);
    for i in 0..rng.range(5, 60) {
        deep = if i % 2 == 0 { json!([deep]) } else { json!({ "d": deep }) };
    }
    v.push(deep);
    for _ in 0..10 {
        v.push(rand_value(rng, 3));
    }
    v.retain(text_stable);
    v
}
/// Values whose text survives serde_json's own parser (floats it rounds wrongly are a known finding
/// that is probed separately).
pub fn text_stable(v: &Value) -> bool {
    let t = jtext::text(v);
    match serde_json::from_str::<Value>(&t) {
        Ok(x) => jtext::text(&x) == t,
        Err(_) => false,
    }
}
pub fn rand_value(rng: &mut Rng, depth: usize) -> Value {
    match rng.below(if depth == 0 { 6 } else { 9 }) {
        0 => Value::Null,
        1 => Value::Bool(rng.chance(50)),
        2 => json!(rng.next() as i64 >> rng.below(64)),
        3 => json!(rng.next() >> rng.below(64)),
        4 => {
            let f = f64::from_bits(rng.next());
            if f.is_finite() && rng.chance(30) {
                json!(f)
            } else {
                json!((rng.below(2000) as f64 - 1000.0) / 8.0)
            }
        }
        5 => {
            let cs = ['a', 'b', '\u{0}', '"', '\\', ' ', '\u{e9}', '\u{4e2d}', '\u{1f600}', '1', '\n', '\u{7f}', '/', '\u{2028}'];
            let n = rng.below(6);
            Value::String((0..n).map(|_| *rng.pick(&cs)).collect())
        }
        6 | 7 => {
            let n = rng.below(4);
            Value::Array((0..n).map(|_| rand_value(rng, depth - 1)).collect())
        }
        _ => {
            let ks = ["a", "b", "", "ab", "c d", "\u{e9}"];
            let n = rng.below(4);
            Value::Object((0..n).map(|_| (rng.pick(&ks).to_string(), rand_value(rng, depth - 1))).collect())
        }
    }
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: String,
    pub ids: (usize, usize),
    pub len: (usize, usize),
    pub depth: usize,
    pub w: BTreeMap<&'static str, usize>,
    /// which whole-state observations follow mutations, and how often (percent)
    pub battery: &'static [&'static str],
    pub battery_pct: usize,
    pub names: (usize, usize),
    pub vals: (usize, usize),
    pub indexed_queries: bool,
    pub prop_queries: bool,
    pub via: bool,
    pub plugins: bool,
}

fn weights(l: &[(&'static str, usize)]) -> BTreeMap<&'static str, usize> {
    l.iter().cloned().collect()
}
const STRUCT: &[&str] = &["AllV", "AllE", "CntV", "CntE", "SpecV", "SpecE"];
const ADJ: &[&str] = &["AllV", "AllE", "Out", "In"];
const PROPS: &[&str] = &["VPs", "EPs"];
const WHOLE: &[&str] = &["AllV", "AllE", "Out", "In", "VPs", "EPs"];
const WHOLEIX: &[&str] = &["AllV", "AllE", "Out", "In", "VPs", "EPs", "Ix"];

pub fn profile(name: &str) -> Profile {
    let base = Profile {
        name: name.into(),
        ids: (3, 8),
        len: (40, 120),
        depth: 2,
        w: BTreeMap::new(),
        battery: WHOLE,
        battery_pct: 40,
        names: (2, 4),
        vals: (4, 10),
        indexed_queries: false,
        prop_queries: false,
        via: true,
        plugins: false,
    };
    match name {
        "C01" => Profile {
            ids: (2, 9),
            w: weights(&[("cv", 22), ("cvt", 3), ("ce", 26), ("lookup", 25), ("delV", 7), ("delE", 8), ("setV", 2), ("setE", 2)]),
            battery: STRUCT,
            depth: 1,
            ..base
        },
        "C02" => Profile {
            ids: (8, 22),
            len: (50, 110),
            w: weights(&[("cv", 30), ("range", 50), ("page", 5), ("delV", 6)]),
            battery: &["AllV"],
            battery_pct: 10,
            ..base
        },
        "C03" => Profile {
            ids: (3, 7),
            w: weights(&[("cv", 14), ("ce", 40), ("pipe", 40), ("delE", 5), ("delV", 2)]),
            battery: ADJ,
            battery_pct: 15,
            depth: 3,
            ..base
        },
        "C04" => Profile {
            ids: (3, 7),
            w: weights(&[
                ("cv", 16), ("ce", 24), ("setV", 14), ("setE", 18), ("delV", 8), ("delE", 8), ("delVP", 5), ("delEP", 5), ("bulk", 4),
            ]),
            battery: WHOLE,
            battery_pct: 60,
            ..base
        },
        "C05" => Profile {
            names: (2, 6),
            w: weights(&[
                ("cv", 12), ("ce", 16), ("setV", 22), ("setE", 22), ("getVP", 12), ("getEP", 12), ("delVP", 6), ("delEP", 6), ("delV", 2),
                ("delE", 2), ("index", 2), ("bulk", 3),
            ]),
            battery: PROPS,
            battery_pct: 40,
            ..base
        },
        "C06" => Profile {
            names: (2, 3),
            vals: (3, 6),
            w: weights(&[
                ("cv", 12), ("ce", 14), ("setV", 16), ("setE", 16), ("index", 8), ("ixq", 35), ("delVP", 6), ("delEP", 6), ("delV", 5),
                ("delE", 5), ("bulk", 6), ("unindexed", 4), ("sync", 1),
            ]),
            battery: &["Ix"],
            battery_pct: 45,
            indexed_queries: true,
            ..base
        },
        "C07" => Profile {
            ids: (3, 5),
            names: (1, 2),
            vals: (14, 24),
            w: weights(&[
                ("cv", 10), ("ce", 10), ("setV", 26), ("setE", 20), ("index", 6), ("ixq", 30), ("getVP", 12), ("getEP", 12), ("bulk", 4),
            ]),
            battery: &["VPs", "EPs", "Ix"],
            battery_pct: 25,
            indexed_queries: true,
            ..base
        },
        "C08" => Profile {
            ids: (3, 6),
            depth: 6,
            w: weights(&[
                ("cv", 12), ("ce", 20), ("setV", 12), ("setE", 12), ("index", 6), ("compound", 60), ("delE", 2), ("delV", 1),
            ]),
            battery: &[],
            battery_pct: 0,
            indexed_queries: true,
            prop_queries: true,
            ..base
        },
        "C09" => Profile {
            w: weights(&[
                ("cv", 14), ("ce", 16), ("setV", 12), ("setE", 12), ("index", 3), ("illtyped", 25), ("unindexed", 20), ("delV", 3), ("delE", 3),
                ("odd", 14), ("bulk", 4),
            ]),
            battery: WHOLEIX,
            battery_pct: 50,
            indexed_queries: true,
            prop_queries: true,
            depth: 3,
            ..base
        },
        "C10" => Profile {
            w: weights(&[("bulk", 50), ("cv", 6), ("ce", 6), ("setV", 5), ("setE", 5), ("index", 6), ("delV", 5), ("delE", 5), ("delVP", 2)]),
            battery: WHOLEIX,
            battery_pct: 80,
            len: (25, 60),
            indexed_queries: true,
            ..base
        },
        "C11" => Profile {
            len: (60, 140),
            w: weights(&[
                ("cv", 14), ("ce", 16), ("setV", 14), ("setE", 14), ("index", 5), ("delV", 4), ("delE", 4), ("delVP", 3), ("delEP", 3),
                ("bulk", 6), ("msync", 8), ("reload", 8), ("ixq", 8), ("compound", 5),
            ]),
            battery: WHOLEIX,
            battery_pct: 15,
            indexed_queries: true,
            prop_queries: true,
            ..base
        },
        // the lives of a store between crashes
        "C12" => Profile {
            ids: (3, 9),
            vals: (6, 14),
            w: weights(&[("cv", 16), ("ce", 20), ("setV", 20), ("setE", 16), ("index", 5), ("delV", 3), ("delE", 3), ("delVP", 3), ("bulk", 8)]),
            battery_pct: 0,
            indexed_queries: true,
            ..base
        },
        "C13c" => Profile {
            ids: (3, 7),
            w: weights(&[
                ("cv", 14), ("ce", 18), ("setV", 14), ("setE", 16), ("index", 6), ("delV", 6), ("delE", 4), ("delVP", 3), ("delEP", 3),
                ("bulk", 12), ("sync", 1),
            ]),
            battery_pct: 0,
            indexed_queries: true,
            ..base
        },
        // clean close and reopen of a durable store
        "C13" => Profile {
            len: (50, 100),
            w: weights(&[
                ("cv", 14), ("ce", 16), ("setV", 14), ("setE", 14), ("index", 5), ("delV", 4), ("delE", 4), ("delVP", 3), ("delEP", 3),
                ("bulk", 6), ("sync", 2), ("reopen", 5), ("ixq", 8),
            ]),
            battery: WHOLEIX,
            battery_pct: 15,
            indexed_queries: true,
            prop_queries: true,
            ..base
        },
        "C16" => Profile {
            ids: (3, 7),
            depth: 5,
            len: (60, 160),
            w: weights(&[
                ("cv", 12), ("cvt", 2), ("ce", 16), ("setV", 12), ("setE", 12), ("index", 5), ("compound", 30), ("range", 8), ("pipe", 8),
                ("lookup", 6), ("ixq", 8), ("getVP", 6), ("getEP", 6), ("delV", 3), ("delE", 3), ("delVP", 3), ("delEP", 3), ("bulk", 6),
                ("illtyped", 4), ("unindexed", 4), ("sync", 1),
            ]),
            battery: WHOLEIX,
            battery_pct: 10,
            indexed_queries: true,
            prop_queries: true,
            vals: (8, 20),
            ..base
        },
        "C17" => Profile {
            ids: (3, 6),
            depth: 3,
            len: (60, 120),
            w: weights(&[
                ("cv", 12), ("cvt", 3), ("ce", 14), ("setV", 10), ("setE", 10), ("index", 5), ("compound", 16), ("range", 6), ("pipe", 6),
                ("lookup", 5), ("ixq", 6), ("getVP", 4), ("getEP", 4), ("delV", 2), ("delE", 3), ("delVP", 3), ("delEP", 3), ("bulk", 14),
                ("illtyped", 3), ("unindexed", 3), ("pecho", 5),
            ]),
            battery: WHOLE,
            battery_pct: 8,
            indexed_queries: true,
            prop_queries: true,
            vals: (6, 14),
            ..base
        },
        "C19" => Profile {
            ids: (3, 7),
            w: weights(&[
                ("cv", 10), ("ce", 10), ("setV", 6), ("setE", 6), ("index", 4), ("delV", 2), ("delE", 2), ("delVP", 2), ("bulk", 3),
                ("compound", 6), ("ixq", 10), ("pipe", 4), ("plugin", 60),
            ]),
            battery: WHOLEIX,
            battery_pct: 10,
            indexed_queries: true,
            plugins: true,
            ..base
        },
        "C20" => Profile {
            ids: (1, 22),
            len: (12, 40),
            w: weights(&[("cv", 40), ("ce", 5), ("setV", 4), ("delV", 6), ("map", 30), ("pmap", 10)]),
            battery: &["AllV"],
            battery_pct: 5,
            plugins: true,
            ..base
        },
        // identifiers of every script and length, stored and read back
        "C21" => Profile {
            ids: (3, 7),
            len: (40, 90),
            w: weights(&[
                ("cv", 14), ("ce", 18), ("setV", 14), ("setE", 14), ("index", 6), ("ixq", 10), ("pipe", 6), ("range", 5), ("getVP", 6), ("getEP", 6),
                ("lookup", 5), ("delV", 2), ("delE", 3), ("delVP", 3), ("bulk", 6), ("msync", 4), ("reload", 3), ("reopen", 3),
            ]),
            names: (2, 6),
            battery: WHOLEIX,
            battery_pct: 12,
            indexed_queries: true,
            ..base
        },
        // stores written by one release and read by the next
        "C24" | "C24b" | "C24v" => Profile {
            ids: (6, 12),
            vals: if name == "C24v" { (90, 100) } else { (10, 24) },
            names: (3, 5),
            w: weights(&[
                ("cv", 14), ("cvt", 2), ("ce", 22), ("setV", 18), ("setE", 18), ("index", 3), ("delV", if name == "C24" { 3 } else { 0 }), ("delE", 2),
                ("delVP", 2), ("delEP", 2), ("bulk", if name == "C24" { 6 } else { 0 }), ("msync", 3), ("reload", 2), ("reopen", 3), ("sync", 1), ("ixq", 6), ("compound", 4),
            ]),
            battery_pct: 0,
            indexed_queries: true,
            ..base
        },
        "C25" => Profile {
            ids: (4, 9),
            vals: (10, 24),
            names: (2, 4),
            w: weights(&[
                ("cv", 16), ("cvt", 2), ("ce", 20), ("setV", 12), ("setE", 12), ("index", 3), ("delV", 3), ("delE", 2), ("delVP", 2), ("delEP", 2),
                ("bulk", 6), ("msync", 20), ("ixq", 6), ("compound", 6),
            ]),
            battery_pct: 10,
            indexed_queries: true,
            ..base
        },
        "C23" => Profile {
            ids: (3, 7),
            w: weights(&[
                ("cv", 6), ("ce", 10), ("setV", 5), ("setE", 5), ("index", 3), ("txread", 50), ("txwrite", 22), ("txseq", 10), ("bulk", 3),
            ]),
            battery: WHOLEIX,
            battery_pct: 15,
            indexed_queries: true,
            ..base
        },
        // everything, for exploration beyond the single properties
        _ => Profile {
            depth: 4,
            w: weights(&[
                ("cv", 14), ("cvt", 2), ("ce", 18), ("setV", 12), ("setE", 12), ("index", 4), ("compound", 20), ("range", 6), ("pipe", 6),
                ("lookup", 6), ("ixq", 8), ("getVP", 4), ("getEP", 4), ("delV", 4), ("delE", 4), ("delVP", 3), ("delEP", 3), ("bulk", 6),
                ("illtyped", 3), ("unindexed", 3), ("txread", 8), ("txwrite", 4), ("txseq", 2), ("page", 1),
            ]),
            battery: WHOLEIX,
            battery_pct: 15,
            indexed_queries: true,
            prop_queries: true,
            ..base
        },
    }
}

pub struct Gen {
    pub rng: Rng,
    pub prof: Profile,
    pub ids: Vec<Uuid>,
    pub vts: Vec<String>,
    pub ets: Vec<String>,
    pub names: Vec<String>,
    pub vals: Vec<String>,
    pub v: BTreeMap<Uuid, String>,
    pub e: BTreeSet<(Uuid, String, Uuid)>,
    pub ix: BTreeSet<String>,
    pub rdb: bool,
    /// the shadow may be out of date (after a delete)
    pub stale: bool,
    /// plugins can be called
    pub served: bool,
    pub calls: u64,
}

fn ej(e: &(Uuid, String, Uuid)) -> Value {
    json!([uid(e.0), e.1, uid(e.2)])
}

impl Gen {
    pub fn new(seed: u64, prof: Profile, rdb: bool) -> Gen {
        let mut g = Gen {
            rng: Rng::new(seed),
            prof,
            ids: vec![],
            vts: vec![],
            ets: vec![],
            names: vec![],
            vals: vec![],
            v: BTreeMap::new(),
            e: BTreeSet::new(),
            ix: BTreeSet::new(),
            rdb,
            stale: false,
            served: false,
            calls: 0,
        };
        g.new_history();
        g
    }
    pub fn new_history(&mut self) {
        let r = &mut self.rng;
        let mut ids = id_pool(r);
        ids.truncate(r.range(self.prof.ids.0, self.prof.ids.1));
        self.ids = ids;
        let sub = |r: &mut Rng, mut p: Vec<String>, lo, hi| {
            r.shuffle(&mut p);
            p.truncate(r.range(lo, hi));
            p
        };
        let types = if self.prof.name == "C21" { crate::ids::wide_pool(r) } else { type_pool() };
        self.vts = sub(r, types.clone(), 1, 4);
        self.ets = sub(r, types.clone(), 1, 4);
        // names sometimes coincide with types, and come in prefix pairs
        let mut np = types;
        np.extend(["p", "pp", "ppp", "q", "p-", "age"].iter().map(|s| s.to_string()));
        self.names = sub(r, np, self.prof.names.0, self.prof.names.1);
        let mut vp = value_pool(r);
        r.shuffle(&mut vp);
        vp.truncate(r.range(self.prof.vals.0, self.prof.vals.1));
        // values code likes to treat specially are in most palettes
        for t in ["null", "false", "0", "\"\"", "[]", "{}", "-0.0"] {
            if r.chance(if t == "null" { 70 } else { 15 }) {
                vp.push(jtext::parse(t));
            }
        }
        self.vals = vp.iter().map(jtext::text).collect::<BTreeSet<_>>().into_iter().collect();
        self.v.clear();
        self.e.clear();
        self.ix.clear();
        self.stale = false;
        self.calls += 1;
    }
    pub fn history_len(&mut self) -> usize {
        self.rng.range(self.prof.len.0, self.prof.len.1)
    }
    /// Learns from an executed event.
    pub fn observe(&mut self, op: &Value, res: &Value) {
        match op["op"].as_str().unwrap() {
            "cv" if res["b"] == true => {
                self.v.insert(ustr(&op["id"]), op["t"].as_str().unwrap().into());
            }
            "cvt" if res["k"] == "id" => {
                let id = ustr(&res["id"]);
                self.v.insert(id, op["t"].as_str().unwrap().into());
                self.ids.push(id);
            }
            "ce" if res["b"] == true => {
                let e = &op["e"];
                self.e.insert((ustr(&e[0]), e[1].as_str().unwrap().into(), ustr(&e[2])));
            }
            "index" => {
                self.ix.insert(op["n"].as_str().unwrap().into());
            }
            "del" | "bulk" | "tx" | "plugin" | "reload" | "reopen" => {
                self.stale = true;
                self.calls += (op["op"] == "reopen") as u64;
            }
            "get" if op["q"]["q"] == "AllV" && res["k"] == "out" => {
                self.v = res["o"][0]["s"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| (ustr(&x[0]), x[1].as_str().unwrap().to_string()))
                    .collect();
            }
            "get" if op["q"]["q"] == "AllE" && res["k"] == "out" => {
                self.e = res["o"][0]["s"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| (ustr(&x[0]), x[1].as_str().unwrap().to_string(), ustr(&x[2])))
                    .collect();
            }
            _ => {}
        }
    }
    pub fn refresh_ops() -> Vec<Value> {
        vec![json!({"op": "get", "q": {"q": "AllV"}}), json!({"op": "get", "q": {"q": "AllE"}})]
    }

    // ---- arguments -------------------------------------------------------------------------
    pub fn id(&mut self) -> Uuid {
        *self.rng.pick(&self.ids.clone())
    }
    pub fn live_id(&mut self) -> Uuid {
        if !self.v.is_empty() && self.rng.chance(85) {
            let n = self.rng.below(self.v.len());
            *self.v.keys().nth(n).unwrap()
        } else {
            self.id()
        }
    }
    pub fn vt(&mut self) -> String {
        self.rng.pick(&self.vts).clone()
    }
    pub fn et(&mut self) -> String {
        self.rng.pick(&self.ets).clone()
    }
    pub fn name(&mut self) -> String {
        self.rng.pick(&self.names).clone()
    }
    fn ixname(&mut self) -> String {
        if self.ix.is_empty() {
            return self.name();
        }
        let n = self.rng.below(self.ix.len());
        self.ix.iter().nth(n).unwrap().clone()
    }
    pub fn val(&mut self) -> String {
        self.rng.pick(&self.vals).clone()
    }
    pub fn rand_edge(&mut self) -> (Uuid, String, Uuid) {
        (self.live_id(), self.et(), self.live_id())
    }
    pub fn some_edge(&mut self) -> (Uuid, String, Uuid) {
        if !self.e.is_empty() && self.rng.chance(80) {
            let n = self.rng.below(self.e.len());
            self.e.iter().nth(n).unwrap().clone()
        } else {
            self.rand_edge()
        }
    }
    fn limit(&mut self, n: usize) -> u64 {
        match self.rng.below(10) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => n as u64,
            4 => n as u64 + 1,
            5 => n.saturating_sub(1) as u64,
            6 => self.rng.below(n + 2) as u64,
            _ => UMAX,
        }
    }
    fn opt_t(&mut self, edge: bool, pct: usize) -> Value {
        if self.rng.chance(pct) {
            // mostly a type in use for that kind, sometimes the other kind's
            let t = if edge ^ self.rng.chance(5) { self.et() } else { self.vt() };
            json!([t])
        } else {
            json!([])
        }
    }
    fn ids_list(&mut self, max: usize) -> Value {
        let n = self.rng.range(1, max);
        Value::Array((0..n).map(|_| uid(if self.rng.chance(75) { self.live_id() } else { self.id() })).collect())
    }
    fn edges_list(&mut self, max: usize) -> Value {
        let n = self.rng.range(1, max);
        Value::Array((0..n).map(|_| { let e = self.some_edge(); ej(&e) }).collect())
    }
    fn start_id(&mut self) -> Value {
        match self.rng.below(6) {
            0 => json!([]),
            1 => json!([uid(Uuid::nil())]),
            2 => {
                let i = self.live_id();
                json!([uid(Uuid::from_u128(i.as_u128().wrapping_add(1)))])
            }
            3 => {
                let i = self.live_id();
                json!([uid(Uuid::from_u128(i.as_u128().wrapping_sub(1)))])
            }
            _ => json!([uid(self.live_id())]),
        }
    }

    // ---- queries: (json, order defined) ------------------------------------------------------
    pub fn q_range(&mut self) -> Value {
        let n = self.v.len();
        json!({"q": "RangeV", "lim": self.limit(n), "t": self.opt_t(false, 40), "s": self.start_id()})
    }
    fn wrap_inc(&mut self, q: Value, pct: usize) -> Value {
        if self.rng.chance(pct) {
            json!({"q": "Inc", "in": q})
        } else {
            q
        }
    }
    fn inc_pct(&self) -> usize {
        if self.prof.depth >= 3 {
            35
        } else {
            0
        }
    }
    pub fn q_v(&mut self, depth: usize, last: bool) -> (Value, bool) {
        let inc = self.inc_pct();
        let ixq = self.prof.indexed_queries && !self.ix.is_empty();
        let src = depth == 0 || self.rng.chance(25);
        let (q, ord) = if src {
            match self.rng.weighted(&[3, 4, 6, if ixq { 2 } else { 0 }, if ixq { 2 } else { 0 }]) {
                0 => (json!({"q": "AllV"}), true),
                1 => (self.q_range(), true),
                2 => (json!({"q": "SpecV", "ids": self.ids_list(4)}), true),
                3 => (json!({"q": "VProp", "n": self.ixname()}), false),
                _ => (json!({"q": "VPropVal", "n": self.ixname(), "v": self.val()}), false),
            }
        } else {
            match self.rng.weighted(&[8, if ixq { 3 } else { 0 }, if ixq { 3 } else { 0 }]) {
                0 => {
                    let (i, ord) = self.q_e(depth - 1, false);
                    let lim = if ord || last { let n = self.e.len(); self.limit(n) } else { UMAX };
                    let d = if self.rng.chance(50) { "out" } else { "in" };
                    (json!({"q": "Pipe", "in": i, "d": d, "lim": lim, "t": self.opt_t(false, 30)}), ord)
                }
                1 => {
                    let (i, ord) = self.q_v(depth - 1, false);
                    (json!({"q": "PHas", "in": i, "n": self.ixname(), "x": self.rng.chance(50)}), ord)
                }
                _ => {
                    let (i, ord) = self.q_v(depth - 1, false);
                    (json!({"q": "PVal", "in": i, "n": self.ixname(), "v": self.val(), "eq": self.rng.chance(50)}), ord)
                }
            }
        };
        (self.wrap_inc(q, inc), ord)
    }
    pub fn q_e(&mut self, depth: usize, last: bool) -> (Value, bool) {
        let inc = self.inc_pct();
        let ixq = self.prof.indexed_queries && !self.ix.is_empty();
        let src = depth == 0 || self.rng.chance(20);
        let (q, ord) = if src {
            match self.rng.weighted(&[3, 6, if ixq { 2 } else { 0 }, if ixq { 2 } else { 0 }]) {
                0 => (json!({"q": "AllE"}), true),
                1 => (json!({"q": "SpecE", "es": self.edges_list(4)}), true),
                2 => (json!({"q": "EProp", "n": self.ixname()}), false),
                _ => (json!({"q": "EPropVal", "n": self.ixname(), "v": self.val()}), false),
            }
        } else {
            match self.rng.weighted(&[8, if ixq { 3 } else { 0 }, if ixq { 3 } else { 0 }]) {
                0 => {
                    let (i, ord) = self.q_v(depth - 1, false);
                    let lim = if ord || last { let n = self.e.len(); self.limit(n) } else { UMAX };
                    let d = if self.rng.chance(50) { "out" } else { "in" };
                    (json!({"q": "Pipe", "in": i, "d": d, "lim": lim, "t": self.opt_t(true, 40)}), ord)
                }
                1 => {
                    let (i, ord) = self.q_e(depth - 1, false);
                    (json!({"q": "PHas", "in": i, "n": self.ixname(), "x": self.rng.chance(50)}), ord)
                }
                _ => {
                    let (i, ord) = self.q_e(depth - 1, false);
                    (json!({"q": "PVal", "in": i, "n": self.ixname(), "v": self.val(), "eq": self.rng.chance(50)}), ord)
                }
            }
        };
        (self.wrap_inc(q, inc), ord)
    }
    fn q_item(&mut self, edge: bool, last: bool) -> Value {
        let d = self.prof.depth;
        let d = self.rng.range(0, d);
        if edge { self.q_e(d, last).0 } else { self.q_v(d, last).0 }
    }
    fn q_props(&mut self, edge: bool) -> Value {
        let i = self.q_item(edge, false);
        let n = if self.rng.chance(50) { json!([self.name()]) } else { json!([]) };
        json!({"q": "PProp", "in": i, "n": n})
    }
    /// A query for deleting or setting: never a partial result of undefined order.
    fn q_target(&mut self, edge: bool) -> Value {
        // mostly precise targets, sometimes compound ones
        if self.rng.chance(60) {
            if edge { json!({"q": "SpecE", "es": self.edges_list(3)}) } else { json!({"q": "SpecV", "ids": self.ids_list(3)}) }
        } else {
            self.q_item(edge, false)
        }
    }
    fn compound(&mut self) -> Value {
        match self.rng.below(8) {
            0 => self.q_item(false, true),
            1 => self.q_item(true, true),
            2 => self.q_props(false),
            3 => self.q_props(true),
            4 => json!({"q": "Cnt", "in": self.q_item(false, true)}),
            5 => json!({"q": "Cnt", "in": self.q_item(true, true)}),
            6 => {
                let e = self.rng.chance(50);
                let p = self.q_props(e);
                let p = self.wrap_inc(p, 30);
                json!({"q": "Cnt", "in": p})
            }
            _ => {
                let e = self.rng.chance(50);
                let p = self.q_props(e);
                self.wrap_inc(p, 30)
            }
        }
    }
    fn illtyped(&mut self) -> Value {
        let e = self.rng.chance(50);
        let bad = match self.rng.below(3) {
            0 => self.q_props(e),
            _ => json!({"q": "Cnt", "in": self.q_item(e, true)}),
        };
        let bad = self.wrap_inc(bad, 20);
        match self.rng.below(6) {
            0 => json!({"q": "Pipe", "in": bad, "d": "out", "lim": UMAX, "t": []}),
            1 => json!({"q": "PProp", "in": bad, "n": []}),
            2 => json!({"q": "PHas", "in": bad, "n": self.ixname(), "x": true}),
            3 => json!({"q": "PVal", "in": bad, "n": self.ixname(), "v": self.val(), "eq": true}),
            4 => json!({"q": "Cnt", "in": {"q": "Cnt", "in": self.q_item(e, true)}}),
            _ => json!({"q": "Cnt", "in": {"q": "PProp", "in": {"q": "Cnt", "in": {"q": "AllV"}}, "n": []}}),
        }
    }
    fn unindexed_name(&mut self) -> String {
        for _ in 0..10 {
            let n = self.name();
            if !self.ix.contains(&n) {
                return n;
            }
        }
        "never-indexed".into()
    }
    fn unindexed_q(&mut self) -> Value {
        let n = self.unindexed_name();
        let v = self.val();
        let e = self.rng.chance(50);
        let x = self.rng.chance(50);
        match self.rng.below(4) {
            0 => json!({"q": if e { "EProp" } else { "VProp" }, "n": n}),
            1 => json!({"q": if e { "EPropVal" } else { "VPropVal" }, "n": n, "v": v}),
            2 => json!({"q": "PHas", "in": self.q_item(e, false), "n": n, "x": x}),
            _ => json!({"q": "PVal", "in": self.q_item(e, false), "n": n, "v": v, "eq": x}),
        }
    }
    pub fn bulk(&mut self) -> Value {
        let n = match self.rng.below(8) {
            0 => 0,
            1 => 1,
            _ => self.rng.range(2, 14),
        };
        let mut v = self.v.clone();
        let mut e = self.e.clone();
        let mut items = vec![];
        let loose = !self.rdb;
        for _ in 0..n {
            match self.rng.weighted(&[5, 6, 5, 5]) {
                0 => {
                    let id = self.id();
                    let t = match v.get(&id) {
                        Some(t) if self.rdb => t.clone(),
                        _ => self.vt(),
                    };
                    v.entry(id).or_insert(t.clone());
                    items.push(json!({"i": "v", "id": uid(id), "t": t}));
                }
                1 => {
                    let ed = if self.rng.chance(20) && !e.is_empty() {
                        let k = self.rng.below(e.len());
                        e.iter().nth(k).unwrap().clone()
                    } else {
                        let pick = |r: &mut Rng, v: &BTreeMap<Uuid, String>, ids: &[Uuid]| {
                            if v.is_empty() || (loose && r.chance(15)) {
                                *r.pick(ids)
                            } else {
                                let k = r.below(v.len());
                                *v.keys().nth(k).unwrap()
                            }
                        };
                        (pick(&mut self.rng, &v, &self.ids), self.et(), pick(&mut self.rng, &v, &self.ids))
                    };
                    let okk = v.contains_key(&ed.0) && v.contains_key(&ed.2);
                    if okk || loose {
                        items.push(json!({"i": "e", "e": ej(&ed)}));
                    }
                    if okk {
                        e.insert(ed);
                    }
                }
                2 if !v.is_empty() => {
                    let k = self.rng.below(v.len());
                    let id = *v.keys().nth(k).unwrap();
                    items.push(json!({"i": "vp", "id": uid(id), "n": self.name(), "v": self.val()}));
                }
                3 if !e.is_empty() => {
                    let k = self.rng.below(e.len());
                    let ed = e.iter().nth(k).unwrap().clone();
                    items.push(json!({"i": "ep", "e": ej(&ed), "n": self.name(), "v": self.val()}));
                }
                _ => {}
            }
        }
        json!({"op": "bulk", "items": items})
    }
    fn txread(&mut self) -> Value {
        let n = if self.prof.indexed_queries && self.rng.chance(60) { self.ixname() } else { self.name() };
        let off_edge = |g: &mut Gen| {
            let mut e = if g.rng.chance(50) { g.some_edge() } else { g.rand_edge() };
            if g.rng.chance(30) {
                e = (e.2, e.1, e.0);
            }
            match g.rng.below(6) {
                0 => e.2 = Uuid::nil(),
                1 => e.2 = Uuid::from_u128(e.2.as_u128().wrapping_add(1)),
                2 => e = (e.0, String::new(), Uuid::nil()),
                3 => e = (Uuid::nil(), String::new(), Uuid::nil()),
                _ => {}
            }
            ej(&e)
        };
        match self.rng.below(17) {
            0 => json!({"op": "tx", "m": "vertex_count"}),
            1 => json!({"op": "tx", "m": "edge_count"}),
            2 => json!({"op": "tx", "m": "all_vertices"}),
            3 => { let s = self.start_id(); json!({"op": "tx", "m": "range_vertices", "id": s.as_array().unwrap().first().cloned().unwrap_or(uid(Uuid::nil()))}) }
            4 => json!({"op": "tx", "m": "specific_vertices", "ids": self.ids_list(5)}),
            5 => json!({"op": "tx", "m": "all_edges"}),
            6 | 7 => json!({"op": "tx", "m": "range_edges", "e": off_edge(self)}),
            8 | 9 => json!({"op": "tx", "m": "range_reversed_edges", "e": off_edge(self)}),
            10 => json!({"op": "tx", "m": "specific_edges", "es": self.edges_list(5)}),
            11 => json!({"op": "tx", "m": if self.rng.chance(50) {"vertex_ids_with_property"} else {"edges_with_property"}, "n": n}),
            12 => json!({"op": "tx", "m": if self.rng.chance(50) {"vertex_ids_with_property_value"} else {"edges_with_property_value"}, "n": n, "v": self.val()}),
            13 => json!({"op": "tx", "m": "vertex_property", "id": uid(self.live_id()), "n": self.name()}),
            14 => { let e = self.some_edge(); json!({"op": "tx", "m": "edge_property", "e": ej(&e), "n": self.name()}) }
            15 => json!({"op": "tx", "m": "all_vertex_properties_for_vertex", "id": uid(self.live_id())}),
            _ => { let e = self.some_edge(); json!({"op": "tx", "m": "all_edge_properties_for_edge", "e": ej(&e)}) }
        }
    }
    fn txwrite(&mut self) -> Value {
        // only existing owners get properties
        let lv: Vec<Value> = self.v.keys().map(|u| uid(*u)).collect();
        let le: Vec<Value> = self.e.iter().map(ej).collect();
        let some = |r: &mut Rng, l: &[Value]| { let n = r.range(1, 3); (0..n).map(|_| r.pick(l).clone()).collect::<Vec<_>>() };
        match self.rng.below(11) {
            0 => json!({"op": "tx", "m": "create_vertex", "id": uid(self.id()), "t": self.vt()}),
            1 | 2 => { let e = self.rand_edge(); json!({"op": "tx", "m": "create_edge", "e": ej(&e)}) }
            3 => json!({"op": "tx", "m": "index_property", "n": self.name()}),
            4 => json!({"op": "tx", "m": "delete_vertices", "ids": self.ids_list(2)}),
            5 => json!({"op": "tx", "m": "delete_edges", "es": self.edges_list(2)}),
            6 => json!({"op": "tx", "m": "delete_vertex_properties", "ks": [[uid(self.live_id()), self.name()], [uid(self.live_id()), self.name()]]}),
            7 => { let e = self.some_edge(); json!({"op": "tx", "m": "delete_edge_properties", "ks": [[ej(&e), self.name()]]}) }
            8 if !lv.is_empty() => json!({"op": "tx", "m": "set_vertex_properties", "ids": some(&mut self.rng, &lv), "n": self.name(), "v": self.val()}),
            9 if !le.is_empty() => json!({"op": "tx", "m": "set_edge_properties", "es": some(&mut self.rng, &le), "n": self.name(), "v": self.val()}),
            _ => { let mut b = self.bulk(); b["op"] = json!("tx"); b["m"] = json!("bulk_insert"); b }
        }
    }

    /// Parameters of a mapping over the vertices.
    pub fn map_params(&mut self) -> Value {
        let vs: Vec<Uuid> = self.v.keys().copied().collect();
        let threads = match self.rng.below(8) {
            0 => json!([]),
            1 => json!([0]),
            2 => json!([1]),
            3 => json!([2]),
            4 => json!([vs.len()]),
            5 => json!([vs.len() + 1]),
            6 => json!([64]),
            _ => json!([self.rng.range(2, 12)]),
        };
        let subset = |g: &mut Gen, pct: usize| -> Vec<Value> { vs.iter().filter(|_| g.rng.chance(pct)).map(|u| uid(*u)).collect() };
        let pos = |g: &mut Gen| -> Vec<Value> {
            if vs.is_empty() {
                return vec![];
            }
            let k = [0, vs.len() - 1, vs.len() / 2, g.rng.below(vs.len())][g.rng.below(4)];
            vec![uid(vs[k])]
        };
        let fail = match self.rng.below(6) {
            0 | 1 | 2 => vec![],
            3 => pos(self),
            4 => subset(self, 20),
            _ => subset(self, 100),
        };
        let panic = if self.rng.chance(20) { if self.rng.chance(50) { pos(self) } else { subset(self, 15) } } else { vec![] };
        let slow = match self.rng.below(4) {
            0 => vec![],
            1 => pos(self),
            2 => subset(self, 10),
            _ => vs.last().map(|u| uid(*u)).into_iter().collect(),
        };
        json!({"threads": threads, "fail": fail, "panic": panic, "slow": slow})
    }
    fn plugin(&mut self) -> Vec<Value> {
        let call = |name: &str, pa: Value| json!({"op": "plugin", "name": name, "pa": pa});
        match self.rng.below(20) {
            0 | 1 => vec![json!({"op": "plugin", "name": "vh_echo", "arg": self.val()})],
            2 => vec![json!({"op": "plugin", "name": "vh2_wrap", "arg": self.val()})],
            3 => vec![json!({"op": "plugin", "name": "vh2_count", "arg": self.val()})],
            4 => {
                let n = *self.rng.pick(&["", "vh_ech", "vh_echo2", "VH_ECHO", "echo", "hello_world", "vh_echo ", "\u{e9}"]);
                vec![json!({"op": "plugin", "name": n, "arg": self.val()})]
            }
            5 | 6 => {
                let kind = *self.rng.pick(&["json", "notindexed", "invalid", "other"]);
                let msg = *self.rng.pick(&["", "no", "something went wrong: 100%", "a\nb", "\u{e9}\u{4e2d} \u{1f600}", "unknown plugin"]);
                vec![call("vh_fail", json!({"kind": kind, "msg": msg}))]
            }
            7 | 8 => {
                if self.rng.chance(30) {
                    self.calls += 1;
                }
                let n = self.rng.range(1, 3);
                (0..n).map(|_| call("vh_tick", json!({"key": format!("k{}", self.calls)}))).collect()
            }
            9 | 10 => vec![call("vh_same", json!({"t": self.vt()}))],
            11 => vec![call("vh_map", self.map_params())],
            _ => {
                let n = self.rng.range(1, 4);
                let v = self.txlist(n);
                vec![call("vh_ops", json!({"ops": v}))]
            }
        }
    }
    /// Operations of one transaction: nothing that needs to know what an earlier one deleted.
    fn txlist(&mut self, n: usize) -> Vec<Value> {
        let mut v = vec![];
        let (mut deleted, mut created) = (false, false);
        for _ in 0..n {
            let o = if self.rng.chance(45) { self.txread() } else { self.txwrite() };
            let m = o["m"].as_str().unwrap().to_string();
            if deleted && (m.starts_with("set_") || m == "bulk_insert") {
                continue;
            }
            // (a bulk insert must not give a vertex another type)
            if created && m == "bulk_insert" {
                continue;
            }
            deleted |= m.starts_with("delete_");
            created |= m == "create_vertex" || m == "bulk_insert";
            v.push(o);
        }
        v
    }

    /// Whole-state observations.
    pub fn battery(&mut self, parts: &[&str]) -> Vec<Value> {
        let g = |q: Value| json!({"op": "get", "q": q});
        let allv = json!({"q": "AllV"});
        let alle = json!({"q": "AllE"});
        let mut o = vec![];
        for p in parts {
            match *p {
                "AllV" => o.push(g(allv.clone())),
                "AllE" => o.push(g(alle.clone())),
                "CntV" => o.push(g(json!({"q": "Cnt", "in": allv}))),
                "CntE" => o.push(g(json!({"q": "Cnt", "in": alle}))),
                "SpecV" => {
                    let mut ids: Vec<Value> = self.ids.iter().map(|u| uid(*u)).collect();
                    self.rng.shuffle(&mut ids);
                    ids.push(ids[0].clone());
                    o.push(g(json!({"q": "SpecV", "ids": ids})));
                }
                "SpecE" => {
                    let mut es: Vec<Value> = self.e.iter().map(ej).collect();
                    for _ in 0..3 {
                        let e = self.rand_edge();
                        es.push(ej(&e));
                        es.push(ej(&(e.2, e.1, e.0)));
                    }
                    self.rng.shuffle(&mut es);
                    o.push(g(json!({"q": "SpecE", "es": es})));
                }
                "Out" => o.push(g(json!({"q": "Pipe", "in": allv, "d": "out", "lim": UMAX, "t": []}))),
                "In" => o.push(g(json!({"q": "Pipe", "in": allv, "d": "in", "lim": UMAX, "t": []}))),
                "VPs" => o.push(g(json!({"q": "PProp", "in": allv, "n": []}))),
                "EPs" => o.push(g(json!({"q": "PProp", "in": alle, "n": []}))),
                "Ix" => {
                    for n in self.ix.clone() {
                        o.push(g(json!({"q": "VProp", "n": n})));
                        o.push(g(json!({"q": "EProp", "n": n})));
                        let v = self.val();
                        o.push(g(json!({"q": "VPropVal", "n": n, "v": v})));
                        o.push(g(json!({"q": "EPropVal", "n": n, "v": v})));
                    }
                }
                _ => {}
            }
        }
        o
    }

    /// A small graph to begin with.
    pub fn seed_ops(&mut self) -> Vec<Value> {
        let mut o = vec![];
        let ids: Vec<Value> = self.ids.iter().map(|u| uid(*u)).collect();
        let n = self.names[0].clone();
        o.push(json!({"op": "index", "n": n}));
        for (k, i) in ids.iter().enumerate() {
            if k % 3 != 2 {
                o.push(json!({"op": "cv", "id": i, "t": self.vts[k % self.vts.len()]}));
            }
        }
        for _ in 0..6 {
            let (a, b) = (self.rng.pick(&ids).clone(), self.rng.pick(&ids).clone());
            let e = json!([a, self.et(), b]);
            o.push(json!({"op": "ce", "e": e}));
            if self.rng.chance(50) {
                o.push(json!({"op": "set", "q": {"q": "SpecE", "es": [e]}, "n": self.name(), "v": self.val()}));
            }
        }
        for i in ids.iter().take(3) {
            o.push(json!({"op": "set", "q": {"q": "SpecV", "ids": [i]}, "n": self.name(), "v": self.val()}));
        }
        o
    }

    /// A history over thousands of items, written without looking at any result.
    pub fn big_history(&mut self, kind: &str) -> Vec<Value> {
        let r = &mut self.rng;
        // (a result within the message size limit of the transport)
        let most = if kind.starts_with("grpc") { 64 } else { 255 };
        let fit = |l: &[String], d: &str, n: usize| {
            let mut l: Vec<String> = l.iter().filter(|s| s.len() <= n).cloned().collect();
            if l.is_empty() {
                l.push(d.into());
            }
            l
        };
        self.vts = fit(&self.vts, "a", most);
        self.ets = fit(&self.ets, "b", most);
        self.names = fit(&self.names, "p", most);
        self.vals = fit(&self.vals, "1", 120);
        let huge = r.chance(10);
        let sizes = if huge { [2047usize, 2048, 2049, 2050, 2500, 3000, 4095, 4096, 4097, 4098, 2050, 3500, 4097, 2049, 2600, 4100, 2047, 2048, 4099] } else { [64usize, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1100] };
        let n = *r.pick(&sizes) + r.below(3);
        let base = ((r.next() as u128) << 64) | r.next() as u128;
        let step = [1u128, 3, 1 << 64, 0x1_0000_0001, 1 << 100][r.below(5)];
        let mut ids: Vec<Uuid> = (0..n as u128).map(|i| Uuid::from_u128(base.wrapping_add(i * step))).collect::<BTreeSet<_>>().into_iter().collect();
        r.shuffle(&mut ids);
        let n = ids.len();
        let (hub, sink) = (ids[0], ids[n / 2]);
        let (vt, et) = (self.vts[0].clone(), self.ets[0].clone());
        let vt2 = self.vts[self.vts.len() - 1].clone();
        let et2 = self.ets[self.ets.len() - 1].clone();
        let (p, q) = (self.names[0].clone(), self.names[self.names.len() - 1].clone());
        let (v1, v2) = (self.vals[0].clone(), self.vals[self.vals.len() - 1].clone());
        let r = &mut self.rng;
        let u = |x: Uuid| uid(x);
        let mut v_items = vec![];
        for (k, i) in ids.iter().enumerate() {
            v_items.push(json!({"i": "v", "id": u(*i), "t": if k % 7 == 3 { &vt2 } else { &vt }}));
        }
        let mut e_items = vec![];
        let mut es = vec![];
        let (fan, unfan) = (r.pick(&sizes).min(&n).to_owned(), r.pick(&sizes).min(&n).to_owned());
        for (k, i) in ids.iter().enumerate() {
            let t = if k % 5 == 1 { &et2 } else { &et };
            if k < fan {
                es.push(json!([u(hub), t, u(*i)]));
            }
            if n - k <= unfan {
                es.push(json!([u(*i), t, u(sink)]));
            }
        }
        es.sort_by_key(|e| e.to_string());
        es.dedup();
        r.shuffle(&mut es);
        for e in &es {
            e_items.push(json!({"i": "e", "e": e}));
        }
        let mut p_items = vec![];
        for (k, i) in ids.iter().enumerate() {
            if k % 3 != 0 {
                p_items.push(json!({"i": "vp", "id": u(*i), "n": p, "v": if k % 11 == 5 { &v2 } else { &v1 }}));
            }
        }
        for (k, e) in es.iter().enumerate() {
            if k % 2 == 0 {
                p_items.push(json!({"i": "ep", "e": e, "n": p, "v": if k % 10 == 4 { &v2 } else { &v1 }}));
            }
        }
        let mut o = vec![];
        let index = json!({"op": "index", "n": p});
        let when = r.below(3);
        if when == 0 {
            o.push(index.clone());
        }
        // all in one request, in one per kind, or in many
        let portion = [usize::MAX, usize::MAX, 1000, 300][r.below(4)];
        let mut all: Vec<Vec<Value>> = if r.chance(50) { vec![[v_items, e_items, p_items].concat()] } else { vec![v_items, e_items, p_items] };
        for l in &mut all {
            for c in l.chunks(portion.min(l.len().max(1))) {
                o.push(json!({"op": "bulk", "items": c}));
            }
        }
        let by_set = r.chance(60);
        let get = |q: Value| json!({"op": "get", "q": q});
        let allv = json!({"q": "AllV"});
        let alle = json!({"q": "AllE"});
        if by_set {
            o.push(json!({"op": "set", "q": allv, "n": q, "v": v2}));
            o.push(json!({"op": "set", "q": alle, "n": q, "v": v1}));
        }
        if when == 1 {
            o.push(index.clone());
        }
        let closing = |o: &mut Vec<Value>| match kind {
            "memfile" => {
                o.push(json!({"op": "msync"}));
                o.push(json!({"op": "reload"}));
            }
            k if k.ends_with("rdb") => o.push(json!({"op": "reopen"})),
            _ => {}
        };
        let one = |x: Uuid| json!({"q": "SpecV", "ids": [u(x)]});
        let mut looked = 0;
        let mut look = |r: &mut Rng, o: &mut Vec<Value>, indexed: bool| {
            looked += 1;
            let lim = [UMAX, UMAX, *r.pick(&sizes) as u64, *r.pick(&sizes) as u64 + r.below(3) as u64][r.below(4)];
            o.push(get(allv.clone()));
            o.push(get(alle.clone()));
            o.push(get(json!({"q": "Cnt", "in": allv})));
            o.push(get(json!({"q": "Cnt", "in": alle})));
            o.push(get(json!({"q": "RangeV", "lim": lim, "t": if r.chance(50) { json!([vt]) } else { json!([]) }, "s": if r.chance(50) { json!([u(ids[n / 3])]) } else { json!([]) }})));
            o.push(get(json!({"q": "Pipe", "in": one(hub), "d": "out", "lim": UMAX, "t": []})));
            o.push(get(json!({"q": "Pipe", "in": one(hub), "d": "out", "lim": lim, "t": [et]})));
            o.push(get(json!({"q": "Pipe", "in": one(sink), "d": "in", "lim": UMAX, "t": []})));
            o.push(get(json!({"q": "Pipe", "in": {"q": "Inc", "in": {"q": "Pipe", "in": one(sink), "d": "in", "lim": lim, "t": []}}, "d": "out", "lim": UMAX, "t": []})));
            o.push(get(json!({"q": "SpecV", "ids": ids.iter().map(|x| u(*x)).collect::<Vec<_>>()})));
            o.push(get(json!({"q": "SpecE", "es": es})));
            if looked == 1 {
                o.push(get(json!({"q": "PProp", "in": allv, "n": []})));
                o.push(get(json!({"q": "PProp", "in": alle, "n": [p]})));
            } else {
                o.push(get(json!({"q": "Cnt", "in": {"q": "PProp", "in": alle, "n": []}})));
                o.push(get(json!({"q": "PProp", "in": {"q": "Pipe", "in": one(hub), "d": "out", "lim": UMAX, "t": []}, "n": []})));
            }
            if indexed {
                for q in ["VProp", "EProp"] {
                    o.push(get(json!({"q": q, "n": p})));
                    o.push(get(json!({"q": format!("{q}Val"), "n": p, "v": v1})));
                    o.push(get(json!({"q": format!("{q}Val"), "n": p, "v": v2})));
                }
                o.push(get(json!({"q": "PHas", "in": allv, "n": p, "x": false})));
                o.push(get(json!({"q": "PVal", "in": alle, "n": p, "v": v2, "eq": true})));
            }
        };
        look(r, &mut o, when != 2);
        closing(&mut o);
        if when == 2 {
            o.push(index);
        }
        look(r, &mut o, true);
        for _ in 0..2 {
            let some: Vec<Value> = ids.iter().filter(|_| r.chance(50)).map(|x| u(*x)).collect();
            let somee: Vec<Value> = es.iter().filter(|_| r.chance(50)).cloned().collect();
            let lim = *r.pick(&sizes) as u64;
            let m = match r.below(9) {
                0 => json!({"op": "del", "q": one(hub)}),
                1 => json!({"op": "del", "q": one(sink)}),
                2 => json!({"op": "del", "q": {"q": "RangeV", "lim": lim, "t": [], "s": []}}),
                3 => json!({"op": "del", "q": {"q": "SpecE", "es": somee}}),
                4 => json!({"op": "del", "q": {"q": "PProp", "in": {"q": "SpecV", "ids": some}, "n": []}}),
                5 => json!({"op": "del", "q": {"q": "PProp", "in": alle, "n": [p]}}),
                6 => json!({"op": "set", "q": {"q": "SpecV", "ids": some}, "n": p, "v": v2}),
                7 => json!({"op": "set", "q": {"q": "SpecE", "es": somee}, "n": p, "v": v2}),
                _ => json!({"op": "del", "q": {"q": "VPropVal", "n": p, "v": v1}}),
            };
            o.push(m);
            look(r, &mut o, true);
        }
        closing(&mut o);
        o.push(json!({"op": "del", "q": allv}));
        look(r, &mut o, true);
        o
    }

    /// The next group of operations (all must be executed in order).
    pub fn next(&mut self) -> Vec<Value> {
        let keys: Vec<&'static str> = self.prof.w.keys().copied().collect();
        let w: Vec<usize> = keys.iter().map(|k| self.prof.w[k]).collect();
        let k = keys[self.rng.weighted(&w)];
        let mut mutating = true;
        let mut ops = match k {
            "cv" => vec![json!({"op": "cv", "id": uid(self.id()), "t": self.vt()})],
            "cvt" => vec![json!({"op": "cvt", "t": self.vt()})],
            "ce" => {
                let mut e = if self.rng.chance(15) { self.some_edge() } else { self.rand_edge() };
                if self.rng.chance(12) {
                    e.2 = e.0;
                }
                if self.rng.chance(10) {
                    e = (e.2, e.1, e.0);
                }
                vec![json!({"op": "ce", "e": ej(&e)})]
            }
            "setV" => vec![json!({"op": "set", "q": self.q_target(false), "n": self.name(), "v": self.val()})],
            "setE" => vec![json!({"op": "set", "q": self.q_target(true), "n": self.name(), "v": self.val()})],
            "delV" | "delE" => {
                let q = self.q_target(k == "delE");
                vec![json!({"op": "del", "q": q})]
            }
            "delVP" | "delEP" => {
                let n = if self.rng.chance(60) { json!([self.name()]) } else { json!([]) };
                let q = json!({"q": "PProp", "in": self.q_target(k == "delEP"), "n": n});
                vec![json!({"op": "del", "q": q})]
            }
            "bulk" => vec![self.bulk()],
            "index" => vec![json!({"op": "index", "n": self.name()})],
            "pecho" => vec![json!({"op": "plugin", "name": *self.rng.pick(&["vh_echo", "vh_echo", "vh2_wrap", "nobody"]), "arg": self.val()})],
            "plugin" if self.served => self.plugin(),
            "plugin" => vec![self.txread()],
            "map" => vec![json!({"op": "map", "pa": self.map_params()})],
            "pmap" if self.served => vec![json!({"op": "plugin", "name": "vh_map", "pa": self.map_params()})],
            "pmap" => vec![json!({"op": "map", "pa": self.map_params()})],
            "sync" => vec![json!({"op": "sync"})],
            "msync" => vec![json!({"op": "msync"})],
            "reload" => vec![json!({"op": "reload"})],
            "reopen" => vec![json!({"op": "reopen"})],
            "txwrite" => vec![self.txwrite()],
            "txseq" => {
                let n = self.rng.range(2, 5);
                let v = self.txlist(n);
                return vec![json!({"op": "txs", "ops": v})];
            }
            "odd" => {
                // legal calls with extreme arguments: nothing may crash
                let mut b = vec![];
                match self.rng.below(7) {
                    0 => b.push(json!({"op": "get", "q": {"q": "SpecV", "ids": []}})),
                    1 => b.push(json!({"op": "get", "q": {"q": "SpecE", "es": []}})),
                    2 => b.push(json!({"op": "bulk", "items": []})),
                    3 => {
                        let m = uid(Uuid::max());
                        b.push(json!({"op": "cv", "id": m, "t": self.vt()}));
                        b.push(json!({"op": "set", "q": {"q": "SpecV", "ids": [m]}, "n": self.name(), "v": self.val()}));
                        b.push(json!({"op": "get", "q": {"q": "PProp", "in": {"q": "SpecV", "ids": [m]}, "n": []}}));
                        self.v.insert(Uuid::max(), self.vts[0].clone());
                    }
                    4 => b.push(json!({"op": "get", "q": {"q": "RangeV", "lim": 0, "t": [], "s": [uid(Uuid::max())]}})),
                    5 => {
                        let q = json!({"q": "SpecV", "ids": [uid(self.live_id()), uid(self.live_id())]});
                        b.push(json!({"op": "del", "q": {"q": "PProp", "in": q, "n": []}}));
                        b.push(json!({"op": "del", "q": {"q": "PProp", "in": q, "n": []}}));
                        b.push(json!({"op": "del", "q": q}));
                        b.push(json!({"op": "del", "q": q}));
                    }
                    _ => {
                        let i = uid(self.live_id());
                        b.push(json!({"op": "get", "q": {"q": "Pipe", "in": {"q": "SpecV", "ids": [i, i]}, "d": "out", "lim": 1, "t": []}}));
                        b.push(json!({"op": "get", "q": {"q": "Pipe", "in": {"q": "SpecV", "ids": [i, i]}, "d": "in", "lim": 0, "t": []}}));
                    }
                }
                b
            }
            "illtyped" => {
                let q = self.illtyped();
                let okq = {
                    let e = self.rng.chance(50);
                    if self.rng.chance(50) { json!({"q": "Cnt", "in": self.q_item(e, false)}) } else { self.q_props(e) }
                };
                vec![match self.rng.below(5) {
                    0 => json!({"op": "del", "q": q}),
                    1 => json!({"op": "set", "q": q, "n": self.name(), "v": self.val()}),
                    2 => json!({"op": "set", "q": okq, "n": self.name(), "v": self.val()}),
                    3 => { let e = self.rng.chance(50); json!({"op": "del", "q": {"q": "Cnt", "in": self.q_item(e, false)}}) }
                    _ => json!({"op": "get", "q": q}),
                }]
            }
            "unindexed" => {
                let q = self.unindexed_q();
                vec![match self.rng.below(4) {
                    0 => json!({"op": "del", "q": q}),
                    1 => json!({"op": "set", "q": q, "n": self.name(), "v": self.val()}),
                    _ => json!({"op": "get", "q": q}),
                }]
            }
            _ => {
                mutating = false;
                match k {
                    "lookup" => {
                        let q = match self.rng.below(7) {
                            0 => json!({"q": "AllV"}),
                            1 => json!({"q": "AllE"}),
                            2 => json!({"q": "Cnt", "in": {"q": "AllV"}}),
                            3 => json!({"q": "Cnt", "in": {"q": "AllE"}}),
                            4 => json!({"q": "SpecE", "es": self.edges_list(5)}),
                            5 => json!({"q": "Cnt", "in": {"q": "SpecV", "ids": self.ids_list(5)}}),
                            _ => json!({"q": "SpecV", "ids": self.ids_list(6)}),
                        };
                        vec![json!({"op": "get", "q": q})]
                    }
                    "range" => {
                        let q = self.q_range();
                        let q = if self.rng.chance(15) { json!({"q": "Cnt", "in": q}) } else { q };
                        vec![json!({"op": "get", "q": q})]
                    }
                    "page" => vec![json!({"op": "page", "lim": self.rng.range(1, 5), "t": self.opt_t(false, 50)})],
                    "pipe" => {
                        let d = self.prof.depth;
                        let d = self.rng.range(1, d.max(1));
                        let q = if self.rng.chance(65) { self.q_e(d, true).0 } else { self.q_v(d, true).0 };
                        vec![json!({"op": "get", "q": q})]
                    }
                    "getVP" => vec![json!({"op": "get", "q": self.q_props(false)})],
                    "getEP" => vec![json!({"op": "get", "q": self.q_props(true)})],
                    "ixq" => {
                        if self.ix.is_empty() {
                            vec![json!({"op": "index", "n": self.name()})]
                        } else {
                            let (n, v, x) = (self.ixname(), self.val(), self.rng.chance(50));
                            let e = self.rng.chance(50);
                            let q = match self.rng.below(5) {
                                0 => json!({"q": if e { "EProp" } else { "VProp" }, "n": n}),
                                1 | 2 => json!({"q": if e { "EPropVal" } else { "VPropVal" }, "n": n, "v": v}),
                                3 => json!({"q": "PHas", "in": self.q_item(e, false), "n": n, "x": x}),
                                _ => json!({"q": "PVal", "in": self.q_item(e, false), "n": n, "v": v, "eq": x}),
                            };
                            let q = if self.rng.chance(12) { json!({"q": "Cnt", "in": q}) } else { q };
                            vec![json!({"op": "get", "q": q})]
                        }
                    }
                    "compound" => vec![json!({"op": "get", "q": self.compound()})],
                    "txread" => vec![self.txread()],
                    x => panic!("unknown op class {x}"),
                }
            }
        };
        if self.prof.via {
            for o in &mut ops {
                if o.get("q").is_some() {
                    o["via"] = json!(self.rng.below(3));
                }
            }
        }
        if mutating && self.rng.chance(self.prof.battery_pct) {
            let b = self.prof.battery;
            ops.extend(self.battery(b));
        }
        ops
    }
}
