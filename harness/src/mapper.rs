//! A recording vertex mapper (for indradb_plugin_host::util::map): logs the start and the end of
//! every call, and fails, panics or dawdles where it is told to.
use crate::exec::vj;
use crate::trace::{uid, ustr};
use indradb_plugin_host::util::{self, VertexMapper};
use indradb_plugin_host::Error;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use uuid::Uuid;

pub struct Recorder {
    threads: Option<usize>,
    fail: HashSet<Uuid>,
    panic: HashSet<Uuid>,
    slow: HashSet<Uuid>,
    log: Mutex<Vec<Value>>,
}
impl VertexMapper for Recorder {
    fn num_threads(&self) -> usize {
        match self.threads {
            Some(n) => n,
            None => Default8.num_threads(),
        }
    }
    fn map(&self, v: indradb::Vertex) -> Result<(), Error> {
        let (id, text) = (v.id, uid(v.id));
        self.log.lock().unwrap().push(json!({"e": "begin", "v": vj(&v)}));
        if self.slow.contains(&id) {
            std::thread::sleep(Duration::from_millis(3));
        } else if id.as_bytes()[15] % 16 == 3 {
            std::thread::yield_now();
        }
        let end = |r: &str| self.log.lock().unwrap().push(json!({"e": "end", "id": text, "r": r}));
        if self.panic.contains(&id) {
            end("panic");
            panic!("mapper call told to panic");
        }
        if self.fail.contains(&id) {
            end("err");
            return Err(match id.as_bytes()[15] % 2 {
                0 => Error::InvalidArgument(format!("failed on {}", text.as_str().unwrap())),
                _ => Error::Other(format!("failed on {}", text.as_str().unwrap()).into()),
            });
        }
        end("ok");
        Ok(())
    }
}
/// the default number of threads of the trait
struct Default8;
impl VertexMapper for Default8 {
    fn map(&self, _: indradb::Vertex) -> Result<(), Error> {
        Ok(())
    }
}

/// pa: {threads: [] or [n], fail, panic, slow: ids}. The log of all calls and the return, and what
/// happened after the return.
pub fn run<'a>(txn: &(dyn indradb::Transaction<'a> + 'a), pa: &Value) -> Value {
    let set = |k: &str| pa[k].as_array().unwrap().iter().map(ustr).collect::<HashSet<Uuid>>();
    let rec = Arc::new(Recorder {
        threads: pa["threads"].as_array().unwrap().first().map(|n| n.as_u64().unwrap() as usize),
        fail: set("fail"),
        panic: set("panic"),
        slow: set("slow"),
        log: Mutex::new(vec![]),
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| util::map(txn, rec.clone())));
    let res = match r {
        Ok(Ok(())) => json!({"k": "ok"}),
        Ok(Err(e)) => {
            let m = format!("{e}");
            match m.strip_prefix("failed on ") {
                Some(id) => json!({"k": "err", "v": [id]}),
                None => json!({"k": "err", "v": [], "m": m}),
            }
        }
        Err(_) => json!({"k": "panic"}),
    };
    rec.log.lock().unwrap().push(json!({"e": "return", "res": res}));
    // calls that were still going on (or yet to start) when map returned show up after the return
    std::thread::sleep(Duration::from_millis(15));
    let log = rec.log.lock().unwrap().clone();
    json!({"k": "map", "log": log})
}
