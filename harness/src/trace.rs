//! Recorded executions. Events are JSON objects in which a vertex id is the string "u:<uuid>"; when
//! the trace is written every id is replaced by its rank among all ids of the trace, so that the
//! specification's ids are naturals in id order. The output is pure ASCII, without nulls or floats.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use uuid::Uuid;

#[derive(Default)]
pub struct Trace {
    pub events: Vec<Value>,
    /// names of the plugins the server has
    pub plugins: Vec<&'static str>,
    /// the values inside each value text, as printed
    pub toks: Option<Value>,
}

pub fn uid(u: Uuid) -> Value {
    Value::String(format!("u:{u}"))
}
pub fn ustr(v: &Value) -> Uuid {
    let s = v.as_str().unwrap_or_else(|| panic!("id expected, got {v}"));
    Uuid::parse_str(&s[2..]).unwrap()
}
fn is_id(s: &str) -> bool {
    s.len() == 38 && s.starts_with("u:")
}

fn collect(v: &Value, ids: &mut BTreeSet<Uuid>) {
    match v {
        Value::String(s) if is_id(s) => {
            ids.insert(ustr(v));
        }
        Value::Array(a) => a.iter().for_each(|x| collect(x, ids)),
        Value::Object(m) => m.values().for_each(|x| collect(x, ids)),
        _ => {}
    }
}
fn ranks(v: &Value, r: &BTreeMap<Uuid, usize>) -> Value {
    match v {
        Value::String(s) if is_id(s) => json!(r[&ustr(v)]),
        Value::Array(a) => Value::Array(a.iter().map(|x| ranks(x, r)).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), ranks(x, r))).collect()),
        Value::Number(n) => json!(n.as_u64().map(|x| x.min(2_000_000_000)).expect("only naturals in traces")),
        Value::Null => panic!("null in trace"),
        x => x.clone(),
    }
}
/// Collects the edge types: every 3-element array [id, string, id].
fn etypes(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Array(a) => {
            if a.len() == 3 {
                if let (Value::String(x), Value::String(t), Value::String(y)) = (&a[0], &a[1], &a[2]) {
                    if is_id(x) && is_id(y) {
                        out.insert(t.clone());
                    }
                }
            }
            a.iter().for_each(|x| etypes(x, out))
        }
        Value::Object(m) => m.values().for_each(|x| etypes(x, out)),
        _ => {}
    }
}
pub fn ascii(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        if (c as u32) < 0x7f {
            o.push(c);
        } else {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04x}"));
            }
        }
    }
    o
}

/// The fixed order of edge types in a datastore's scans.
pub fn type_order(types: BTreeSet<String>, rdb: bool) -> Vec<String> {
    let mut t: Vec<String> = types.into_iter().collect();
    if rdb {
        t.sort_by(|a, b| (a.len(), a.as_bytes()).cmp(&(b.len(), b.as_bytes())));
    } else {
        t.sort();
    }
    t
}

impl Trace {
    pub fn push(&mut self, mut op: Value, res: Value) {
        op.as_object_mut().unwrap().insert("res".into(), res);
        self.events.push(op);
    }
    pub fn mark(&mut self, op: &str) {
        self.events.push(json!({ "op": op }));
    }
    pub fn write(&self, path: &str, rdb: bool) {
        let mut ids = BTreeSet::new();
        let mut types = BTreeSet::new();
        for e in &self.events {
            collect(e, &mut ids);
            etypes(e, &mut types);
        }
        let r: BTreeMap<Uuid, usize> = ids.iter().enumerate().map(|(i, u)| (*u, i)).collect();
        let mut hdr = json!({"types": type_order(types, rdb), "plugins": self.plugins});
        if let Some(t) = &self.toks {
            hdr["toks"] = t.clone();
        }
        let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
        writeln!(f, "{}", ascii(&hdr.to_string())).unwrap();
        for e in &self.events {
            writeln!(f, "{}", ascii(&ranks(e, &r).to_string())).unwrap();
        }
        // the same events with their real ids: the replay file
        let mut g = std::io::BufWriter::new(std::fs::File::create(format!("{path}.raw")).unwrap());
        for e in &self.events {
            writeln!(g, "{e}").unwrap();
        }
    }
}
