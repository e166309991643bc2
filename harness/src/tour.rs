//! Walks a real datastore along every transition of a state graph printed by TLC (MCGraph):
//! model -> code. Only the operations come from the graph; what they return is recorded and judged
//! by the specification like any other execution.
use crate::gen::{id_pool, type_pool};
use crate::rng::Rng;
use crate::run::{arg, num, step, Args};
use crate::store::{scratch_dir, Store};
use crate::trace::{uid, Trace};
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use uuid::Uuid;

pub struct Graph {
    pub ops: Vec<Value>,
    pub obs: Vec<Value>,
    pub succ: Vec<Vec<u32>>,
}

/// Reads the OPS/OBS/STATE lines of a TLC run. The first state printed is the initial one.
pub fn load(path: &str) -> Graph {
    let text = std::fs::read_to_string(path).unwrap();
    let (mut ops, mut obs, mut rows) = (vec![], vec![], vec![]);
    let mut ix: HashMap<String, u32> = HashMap::new();
    for l in text.lines() {
        if !l.starts_with('"') {
            continue;
        }
        let s: String = match serde_json::from_str(l) {
            Ok(s) => s,
            Err(_) => continue,
        };
        if let Some(r) = s.strip_prefix("OPS ") {
            ops = serde_json::from_str(r).unwrap();
        } else if let Some(r) = s.strip_prefix("OBS ") {
            obs = serde_json::from_str(r).unwrap();
        } else if let Some(r) = s.strip_prefix("STATE ") {
            let v: Value = serde_json::from_str(r).unwrap();
            let k = v["s"].as_str().unwrap().to_string();
            let n = ix.len() as u32;
            if ix.insert(k, n).is_none() {
                rows.push(v["n"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>());
            }
        }
    }
    let succ = rows
        .iter()
        .enumerate()
        .map(|(i, r)| r.iter().map(|t| if t.is_empty() { i as u32 } else { ix[t] }).collect())
        .collect();
    Graph { ops, obs, succ }
}

/// Names for the model's constants.
pub struct Names {
    pub ids: Vec<Uuid>,
    pub types: HashMap<String, String>,
    pub names: HashMap<String, String>,
}
impl Names {
    pub fn new(rng: &mut Rng, plain: bool) -> Names {
        let mut ids = id_pool(rng);
        ids.truncate(8);
        ids.sort();
        let (mut types, mut names) = (HashMap::new(), HashMap::new());
        if !plain {
            let mut tp = type_pool();
            rng.shuffle(&mut tp);
            for (k, v) in ["a", "b"].iter().zip(tp.iter()) {
                types.insert(k.to_string(), v.clone());
            }
            rng.shuffle(&mut tp);
            for (k, v) in ["p", "q"].iter().zip(tp.iter()) {
                names.insert(k.to_string(), v.clone());
            }
        }
        Names { ids, types, names }
    }
    fn id(&self, v: &Value) -> Value {
        uid(self.ids[v.as_u64().unwrap() as usize])
    }
    fn t(&self, v: &Value) -> Value {
        self.text(v, &self.types)
    }
    fn n(&self, v: &Value) -> Value {
        self.text(v, &self.names)
    }
    fn text(&self, v: &Value, m: &HashMap<String, String>) -> Value {
        match v {
            Value::String(s) => Value::String(m.get(s).unwrap_or(s).clone()),
            Value::Array(a) => Value::Array(a.iter().map(|x| self.text(x, m)).collect()),
            x => x.clone(),
        }
    }
    fn edge(&self, v: &Value) -> Value {
        json!([self.id(&v[0]), self.t(&v[1]), self.id(&v[2])])
    }
    fn each(&self, v: &Value, f: impl Fn(&Value) -> Value) -> Value {
        Value::Array(v.as_array().unwrap().iter().map(f).collect())
    }
    pub fn op(&self, o: &Value) -> Value {
        Value::Object(
            o.as_object()
                .unwrap()
                .iter()
                .map(|(k, v)| {
                    let w = match k.as_str() {
                        "id" => self.id(v),
                        "ids" | "s" => self.each(v, |x| self.id(x)),
                        "e" => self.edge(v),
                        "es" => self.each(v, |x| self.edge(x)),
                        "t" => self.t(v),
                        "n" => self.n(v),
                        "ks" => self.each(v, |x| {
                            json!([if x[0].is_array() { self.edge(&x[0]) } else { self.id(&x[0]) }, self.n(&x[1])])
                        }),
                        "q" | "in" if v.is_object() => self.op(v),
                        "items" => self.each(v, |x| self.op(x)),
                        "lim" if v.as_u64().unwrap() >= 2_000_000_000 => json!(u32::MAX),
                        _ => v.clone(),
                    };
                    (k.clone(), w)
                })
                .collect(),
        )
    }
}

pub fn is_read(o: &Value) -> bool {
    let m = o["m"].as_str().unwrap_or("");
    o["op"] == "get"
        || o["op"] == "tx"
            && !["create_", "delete_", "set_", "index_", "bulk_"].iter().any(|p| m.starts_with(p))
}

/// vh tour graph=FILE store=mem seed=1 shard=0 shards=8 events=N out=FILE [extra=msync|reopen|...]
pub fn tour(a: &Args) -> i32 {
    let g = load(arg(a, "graph", ""));
    let kind = arg(a, "store", "mem");
    let (shard, shards) = (num(a, "shard", 0), num(a, "shards", 1));
    let max = num(a, "events", u64::MAX) as usize;
    let mut rng = Rng::new(num(a, "seed", 1) ^ (shard << 32));
    let nm = Names::new(&mut rng, arg(a, "plain", "0") == "1");
    let extra = arg(a, "extra", "");
    let ops: Vec<Value> = g.ops.iter().map(|o| nm.op(o)).collect();
    let obs: Vec<Value> = g.obs.iter().map(|o| nm.op(o)).collect();
    let reads: Vec<bool> = g.ops.iter().map(is_read).collect();
    let (ns, nk) = (g.succ.len(), ops.len());

    let dir = scratch_dir("tour");
    let mut s = Store::new(kind, &dir);
    let mut t = Trace::default();
    s.reset();
    t.mark("reset");
    // what this shard covers: the states of its residue class, or all if there are few
    let mine = |i: usize| i as u64 % shards == shard;
    let mut todo: Vec<Vec<u32>> = (0..ns).map(|i| if mine(i) { (0..nk as u32).rev().collect() } else { vec![] }).collect();
    for l in &mut todo {
        rng.shuffle(l);
    }
    let total: usize = todo.iter().map(|l| l.len()).sum();
    let mut left = total;
    let mut cur = 0usize;
    let mut fine = true;
    let exec = |s: &mut Store, t: &mut Trace, o: &Value, rng: &mut Rng| {
        let mut o = o.clone();
        if o.get("q").is_some() {
            o["via"] = json!(rng.below(3));
        }
        step(s, t, &o, &mut |_, _| {})
    };
    'walk: while left > 0 && fine && t.events.len() < max {
        if let Some(k) = todo[cur].pop() {
            let k = k as usize;
            left -= 1;
            let before = cur;
            cur = g.succ[cur][k] as usize;
            fine &= exec(&mut s, &mut t, &ops[k], &mut rng);
            if !reads[k] {
                if !extra.is_empty() && before != cur {
                    for e in extra.split(',') {
                        fine &= exec(&mut s, &mut t, &json!({ "op": e }), &mut rng);
                    }
                }
                for o in &obs {
                    fine &= exec(&mut s, &mut t, o, &mut rng);
                }
            }
            continue;
        }
        // the nearest state with something left
        let mut from: HashMap<usize, (usize, usize)> = HashMap::new();
        let mut q = VecDeque::from([cur]);
        from.insert(cur, (usize::MAX, 0));
        let mut goal = None;
        while let Some(x) = q.pop_front() {
            if !todo[x].is_empty() {
                goal = Some(x);
                break;
            }
            for (k, y) in g.succ[x].iter().enumerate() {
                let y = *y as usize;
                if y != x && !from.contains_key(&y) {
                    from.insert(y, (x, k));
                    q.push_back(y);
                }
            }
        }
        let Some(mut x) = goal else {
            // not reachable from here: start again from the empty database
            if cur == 0 {
                break 'walk;
            }
            s.reset();
            t.mark("reset");
            cur = 0;
            continue;
        };
        let mut path = vec![];
        while x != cur {
            let (p, k) = from[&x];
            path.push(k);
            x = p;
        }
        for k in path.into_iter().rev() {
            fine &= exec(&mut s, &mut t, &ops[k], &mut rng);
            cur = g.succ[cur][k] as usize;
        }
    }
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    println!(
        "{}",
        json!({"events": t.events.len(), "transitions": total - left, "of": total, "states": ns, "graph": ns * nk})
    );
    0
}
