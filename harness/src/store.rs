//! The systems under test behind one interface: in-memory (with or without an image file), RocksDB,
//! and either of them behind a gRPC server and client.
use crate::exec;
use crate::trace::ustr;
use indradb::*;
use indradb_proto as proto;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub enum Db {
    M(Arc<Database<MemoryDatastore>>),
    R(Arc<Database<RocksdbDatastore>>),
    Closed,
}
#[macro_export]
macro_rules! on_db {
    ($db:expr, $x:ident => $body:expr) => {
        match $db {
            $crate::store::Db::M($x) => $body,
            $crate::store::Db::R($x) => $body,
            $crate::store::Db::Closed => panic!("database is closed"),
        }
    };
}

pub struct Grpc {
    pub rt: Arc<tokio::runtime::Runtime>,
    pub client: proto::Client,
    pub server: tokio::task::JoinHandle<()>,
    pub addr: std::net::SocketAddr,
}
impl Drop for Grpc {
    fn drop(&mut self) {
        self.server.abort();
    }
}

pub struct Store {
    pub kind: String,
    pub dir: PathBuf,
    pub n: usize,
    pub db: Db,
    pub grpc: Option<Grpc>,
    pub rt: Option<Arc<tokio::runtime::Runtime>>,
    pub plugins: Option<String>,
}

pub fn scratch_dir(tag: &str) -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let d = PathBuf::from(base).join(format!("vh-{tag}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// tuned: opened with options of the caller (small memory tables, so that much is read from files)
pub fn open_rdb(p: &Path, tuned: bool) -> Result<Arc<Database<RocksdbDatastore>>> {
    if tuned {
        let mut o = RocksdbDatastore::get_options(Some(64));
        o.set_write_buffer_size(16 << 10);
        RocksdbDatastore::new_db_with_options(p, &o).map(Arc::new)
    } else {
        RocksdbDatastore::new_db(p).map(Arc::new)
    }
}

/// Starts a gRPC server for the database on a fresh loopback port, and a client connected to it.
pub fn serve<D: Datastore + Send + Sync + 'static>(
    rt: &Arc<tokio::runtime::Runtime>,
    db: Arc<Database<D>>,
    plugins: Option<String>,
) -> Grpc {
    let (addr, server) = rt.block_on(async {
        let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = listener.local_addr().unwrap();
        let h = match plugins {
            None => tokio::spawn(async move {
                proto::run_server(db, listener).await.unwrap();
            }),
            Some(p) => tokio::spawn(async move {
                unsafe { proto::run_server_with_plugins(db, listener, &p) }.await.unwrap();
            }),
        };
        (addr, h)
    });
    let client = connect(rt, addr);
    Grpc { rt: rt.clone(), client, server, addr }
}
pub fn connect(rt: &Arc<tokio::runtime::Runtime>, addr: std::net::SocketAddr) -> proto::Client {
    rt.block_on(async {
        let ep: tonic::transport::Endpoint = format!("http://{addr}").try_into().unwrap();
        let mut last = None;
        for _ in 0..200 {
            match proto::Client::new(ep.clone()).await {
                Ok(mut c) => match c.ping().await {
                    Ok(()) => {
                        no_delay();
                        return c;
                    }
                    Err(e) => last = Some(format!("{e}")),
                },
                Err(e) => last = Some(format!("{e}")),
            }
            tokio::time::sleep(std::time::Duration::from_millis(10)).await;
        }
        panic!("cannot connect to the server: {last:?}")
    })
}
/// Small messages at once, on every connection of this process (both ends are here).
pub fn no_delay() {
    for fd in 0..512 {
        let one: libc::c_int = 1;
        unsafe { libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_NODELAY, &one as *const _ as *const _, 4) };
    }
}
/// Acknowledge what arrives at once: the other end is a process of its own that waits for it.
pub fn quick_ack() {
    std::thread::spawn(|| loop {
        for fd in 0..64 {
            let one: libc::c_int = 1;
            unsafe { libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const _, 4) };
        }
        std::thread::sleep(std::time::Duration::from_micros(300));
    });
}
pub fn runtime() -> Arc<tokio::runtime::Runtime> {
    Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}

/// kinds: mem, memfile, rdb, tuned-rdb, grpc-mem, grpc-rdb
impl Store {
    pub fn new(kind: &str, dir: &Path) -> Store {
        Store {
            kind: kind.into(),
            dir: dir.to_path_buf(),
            n: 0,
            db: Db::Closed,
            grpc: None,
            rt: if kind.starts_with("grpc") { Some(runtime()) } else { None },
            plugins: None,
        }
    }
    pub fn with_plugins(mut self) -> Store {
        if self.rt.is_some() {
            self.plugins = Some(own_plugins());
        }
        self
    }
    pub fn is_rdb(&self) -> bool {
        self.kind.ends_with("rdb")
    }
    pub fn tuned(&self) -> bool {
        self.kind == "tuned-rdb"
    }
    pub fn path(&self) -> PathBuf {
        self.dir.join(format!("db{}", self.n))
    }
    pub fn close(&mut self) {
        self.grpc = None;
        self.db = Db::Closed;
    }
    fn attach(&mut self) {
        if let Some(rt) = &self.rt {
            self.grpc = Some(match &self.db {
                Db::M(d) => serve(rt, d.clone(), self.plugins.clone()),
                Db::R(d) => serve(rt, d.clone(), self.plugins.clone()),
                Db::Closed => unreachable!(),
            });
        }
    }
    /// A fresh, empty database.
    pub fn reset(&mut self) {
        self.close();
        let old = self.path();
        if old.is_dir() {
            let _ = std::fs::remove_dir_all(&old);
        } else {
            let _ = std::fs::remove_file(&old);
        }
        self.n += 1;
        self.db = match self.kind.as_str() {
            "mem" | "grpc-mem" => Db::M(Arc::new(MemoryDatastore::new_db())),
            "memfile" => Db::M(Arc::new(MemoryDatastore::create_msgpack_db(self.path()))),
            "rdb" | "grpc-rdb" | "tuned-rdb" => Db::R(open_rdb(&self.path(), self.tuned()).expect("cannot create a RocksDB datastore")),
            k => panic!("unknown store {k}"),
        };
        self.attach();
    }
    /// Opens the existing database at the path again.
    pub fn reopen(&mut self) -> Value {
        self.close();
        let p = self.path();
        let r = if self.is_rdb() {
            let mut r = open_rdb(&p, self.tuned());
            // the previous handle may still be closing in a server task
            for _ in 0..500 {
                match &r {
                    Err(e) if format!("{e}").contains("lock") => {
                        std::thread::sleep(std::time::Duration::from_millis(10));
                        r = open_rdb(&p, self.tuned());
                    }
                    _ => break,
                }
            }
            r.map(Db::R).map_err(|e| format!("{e}"))
        } else if p.exists() {
            MemoryDatastore::read_msgpack_db(&p).map(|d| Db::M(Arc::new(d))).map_err(|e| format!("{e}"))
        } else {
            Ok(Db::M(Arc::new(MemoryDatastore::create_msgpack_db(&p))))
        };
        match r {
            Ok(db) => {
                self.db = db;
                self.attach();
                exec::ok()
            }
            Err(m) => json!({"k": "err", "e": "Open", "m": m}),
        }
    }
    pub fn exec(&mut self, op: &Value) -> Value {
        let _w = crate::watch::begin(op);
        match op["op"].as_str().unwrap() {
            "reset" => {
                self.reset();
                exec::ok()
            }
            "reload" | "reopen" => self.reopen(),
            "msync" => {
                let mut o = op.clone();
                o["op"] = json!("sync");
                self.exec(&o)
            }
            "ping" => exec::ok(),
            _ => match &mut self.grpc {
                Some(g) => {
                    if op["op"] == "tx" || op["op"] == "map" {
                        on_db!(&self.db, d => exec::exec(d, op))
                    } else {
                        let rt = g.rt.clone();
                        rt.block_on(grpc_exec(&mut g.client, op))
                    }
                }
                None => on_db!(&self.db, d => exec::exec(d, op)),
            },
        }
    }
    pub fn exec_txs(&mut self, ops: &[Value]) -> Vec<Value> {
        let _w = crate::watch::begin(&Value::Array(ops.to_vec()));
        on_db!(&self.db, d => exec::exec_txs(d, ops))
    }
}

/// Maps a client error back to the name of the datastore error with the same message.
pub fn client_err(e: proto::ClientError) -> Value {
    match e {
        proto::ClientError::Grpc { inner } => status_json(&inner),
        e => json!({"k": "err", "e": "Client", "m": format!("{e}")}),
    }
}
pub fn status_json(s: &tonic::Status) -> Value {
    let m = s.message();
    let name = if s.code() == tonic::Code::Internal {
        let known = [Error::NotIndexed, Error::OperationOnQuery, Error::UuidTaken, Error::Unsupported];
        known.iter().find(|e| format!("{e}") == m).map(|e| exec::err_name(e).to_string())
    } else {
        None
    };
    json!({"k": "err", "e": name.unwrap_or_else(|| format!("{:?}", s.code())), "m": m})
}

/// The argument of a plugin call: given as JSON text, or as parameters.
pub fn plugin_arg(op: &Value) -> Json {
    match op.get("pa") {
        Some(pa) => Json::new(pa.clone()),
        None => exec::jval(&op["arg"]),
    }
}
pub fn plugin_result(name: &str, v: &Json) -> Value {
    match name {
        "vh_ops" => json!({"k": "seq", "rs": **v}),
        "vh_same" => json!({"k": "same", "a": v[0], "b": v[1]}),
        "vh_map" => (**v).clone(),
        _ => json!({"k": "json", "v": crate::jtext::text(v)}),
    }
}
/// The plugin libraries built together with this program, and the names they register.
pub fn own_plugins() -> String {
    let d = std::env::current_exe().unwrap();
    let d = d.parent().unwrap();
    let p = d.join("plugins");
    format!("{}/libvh_plugin*.so", if p.is_dir() { p.as_path() } else { d }.display())
}
pub const OWN_PLUGINS: &[&str] = &["vh_echo", "vh_fail", "vh_tick", "vh_ops", "vh_same", "vh_map", "vh2_wrap", "vh2_count"];

pub async fn grpc_exec(c: &mut proto::Client, op: &Value) -> Value {
    let via = op["via"].as_u64().unwrap_or(0);
    fn unit(r: std::result::Result<(), proto::ClientError>) -> Value {
        match r {
            Ok(()) => exec::ok(),
            Err(e) => client_err(e),
        }
    }
    fn boolean(r: std::result::Result<bool, proto::ClientError>) -> Value {
        match r {
            Ok(b) => exec::boolean(b),
            Err(e) => client_err(e),
        }
    }
    let q = || exec::build(&op["q"], via);
    match op["op"].as_str().unwrap() {
        "cv" => boolean(c.create_vertex(&Vertex::with_id(ustr(&op["id"]), exec::idv(&op["t"]))).await),
        "cvt" => match c.create_vertex_from_type(exec::idv(&op["t"])).await {
            Ok(id) => json!({"k": "id", "id": crate::trace::uid(id)}),
            Err(e) => client_err(e),
        },
        "ce" => boolean(c.create_edge(&exec::edge(&op["e"])).await),
        "get" => match q() {
            Err(e) => exec::invalid(e),
            Ok(q) => match c.get(q).await {
                Ok(o) => exec::outs_via(o, via),
                Err(e) => client_err(e),
            },
        },
        "del" => match q() {
            Err(e) => exec::invalid(e),
            Ok(q) => unit(c.delete(q).await),
        },
        "set" => match q() {
            Err(e) => exec::invalid(e),
            Ok(q) => unit(c.set_properties(q, exec::idv(&op["n"]), &exec::jval(&op["v"])).await),
        },
        "bulk" => unit(c.bulk_insert(exec::bulk_items(&op["items"])).await),
        "index" => unit(c.index_property(exec::idv(&op["n"])).await),
        "sync" => unit(c.sync().await),
        "plugin" => {
            let name = op["name"].as_str().unwrap();
            match c.execute_plugin(name, plugin_arg(op)).await {
                Ok(v) => plugin_result(name, &v),
                Err(e) => client_err(e),
            }
        }
        x => panic!("unknown op {x}"),
    }
}
