//! Plugins with which the checks look at the plugin interface from inside.
#[allow(dead_code)]
#[path = "../../src/exec.rs"]
mod exec;
#[allow(dead_code)]
#[path = "../../src/jtext.rs"]
mod jtext;
#[path = "../../src/mapper.rs"]
mod mapper;
#[allow(dead_code)]
#[path = "../../src/trace.rs"]
mod trace;

use indradb::Json;
use indradb_plugin_host::{self as plugin, Error};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Mutex;

type Txn<'a> = dyn indradb::Transaction<'a> + 'a;

/// Returns its argument.
struct Echo;
impl plugin::Plugin for Echo {
    fn call<'a>(&self, _: &mut Txn<'a>, arg: Json) -> Result<Json, Error> {
        Ok(arg)
    }
}
/// Fails with the given kind of error and message.
struct Fail;
impl plugin::Plugin for Fail {
    fn call<'a>(&self, _: &mut Txn<'a>, arg: Json) -> Result<Json, Error> {
        let m = arg["msg"].as_str().unwrap_or_default().to_string();
        Err(match arg["kind"].as_str().unwrap_or_default() {
            "json" => Error::Json(<serde_json::Error as serde::de::Error>::custom(m)),
            "notindexed" => Error::IndraDB(indradb::Error::NotIndexed),
            "invalid" => Error::InvalidArgument(m),
            _ => Error::Other(m.into()),
        })
    }
}
/// Counts its calls per key.
struct Tick;
static TICKS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
impl plugin::Plugin for Tick {
    fn call<'a>(&self, _: &mut Txn<'a>, arg: Json) -> Result<Json, Error> {
        let mut t = TICKS.lock().unwrap();
        let n = t.entry(arg["key"].as_str().unwrap_or_default().to_string()).or_insert(0);
        *n += 1;
        Ok(Json::new(json!(*n)))
    }
}
/// Performs a list of transaction operations, all in its one transaction.
struct Ops;
impl plugin::Plugin for Ops {
    fn call<'a>(&self, txn: &mut Txn<'a>, arg: Json) -> Result<Json, Error> {
        let rs: Vec<Value> = arg["ops"].as_array().unwrap().iter().map(|o| exec::tx(txn, o)).collect();
        Ok(Json::new(Value::Array(rs)))
    }
}
/// Compares the types of all vertices with identifiers of its own making.
struct SameType;
impl plugin::Plugin for SameType {
    fn call<'a>(&self, txn: &mut Txn<'a>, arg: Json) -> Result<Json, Error> {
        let t = exec::ident(arg["t"].as_str().unwrap());
        let set: std::collections::HashSet<indradb::Identifier> = [t].into_iter().collect();
        let vs: Vec<indradb::Vertex> = exec::all_vertices(txn)?;
        let ids = |f: &dyn Fn(&indradb::Vertex) -> bool| vs.iter().filter(|v| f(v)).map(|v| trace::uid(v.id)).collect::<Vec<_>>();
        Ok(Json::new(json!([ids(&|v| v.t == t), ids(&|v| set.contains(&v.t))])))
    }
}
/// Maps over the vertices.
struct Map;
impl plugin::Plugin for Map {
    fn call<'a>(&self, txn: &mut Txn<'a>, arg: Json) -> Result<Json, Error> {
        // calls that are told to panic do so quietly
        std::panic::set_hook(Box::new(|_| {}));
        Ok(Json::new(mapper::run(txn, &arg)))
    }
}

plugin::register_plugins!(
    1,
    "vh_echo",
    || Box::new(crate::Echo),
    "vh_fail",
    || Box::new(crate::Fail),
    "vh_tick",
    || Box::new(crate::Tick),
    "vh_ops",
    || Box::new(crate::Ops),
    "vh_same",
    || Box::new(crate::SameType),
    "vh_map",
    || Box::new(crate::Map)
);
