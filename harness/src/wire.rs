//! Requests below the level of the client library: raw messages, well formed or not, undecodable
//! bytes, and bulk streams that are broken off. Whether a message is well formed is not decided
//! here but by the specification (Wire.tla); this file only describes it field by field.
use crate::exec;
use crate::gen::{profile, Gen};
use crate::rng::Rng;
use crate::run::{arg, num, step, Args};
use crate::store::{runtime, scratch_dir, serve, status_json, Db, Store};
use crate::trace::{uid, ustr, Trace};
use indradb_proto as proto;
use serde_json::{json, Map, Value};
use std::sync::Arc;
use tonic::transport::Channel;
use uuid::Uuid;

// ---------------------------------------------------------------- describing messages

pub fn class(c: char) -> &'static str {
    match c {
        '-' => "dash",
        '_' => "underscore",
        c if c.is_alphabetic() => "letter",
        c if c.is_numeric() => "digit",
        _ => "other",
    }
}
pub fn ident(s: &str) -> Value {
    let mut cls: Vec<&str> = s.chars().map(class).collect();
    cls.sort();
    cls.dedup();
    json!({"s": s, "len": s.len(), "cls": cls})
}
fn wid(v: &Value) -> Value {
    json!({"len": 16, "u": v})
}
pub fn jsn(text: &str) -> Value {
    // the value, where there is one; whether the text is well formed is the specification's business
    let v = serde_json::from_str::<Value>(text).map(|v| v.to_string()).unwrap_or_default();
    json!({"cs": text.chars().map(|c| c as u32).collect::<Vec<_>>(), "v": v})
}
fn some(v: Value) -> Value {
    Value::Array(vec![v])
}
fn idn(v: &Value) -> Value {
    some(ident(v.as_str().unwrap()))
}
fn val(v: &Value) -> Value {
    let mut j = jsn(v.as_str().unwrap());
    j["v"] = v.clone();
    some(j)
}
fn edge(e: &Value) -> Value {
    json!({"o": [wid(&e[0])], "t": idn(&e[1]), "i": [wid(&e[2])]})
}
fn opt(v: &Value, f: impl Fn(&Value) -> Value) -> Value {
    Value::Array(v.as_array().unwrap().iter().map(f).collect())
}
fn query(q: &Value) -> Value {
    let mut o = Map::new();
    for (k, v) in q.as_object().unwrap() {
        let w = match k.as_str() {
            "in" => some(query(v)),
            "ids" => opt(v, wid),
            "es" => opt(v, edge),
            "s" => opt(v, wid),
            "t" => opt(v, |x| ident(x.as_str().unwrap())),
            "n" if v.is_array() => opt(v, |x| ident(x.as_str().unwrap())),
            "n" => idn(v),
            "v" => val(v),
            _ => v.clone(),
        };
        o.insert(k.clone(), w);
    }
    Value::Object(o)
}
fn item(i: &Value) -> Value {
    match i["i"].as_str().unwrap() {
        "v" => json!({"i": "v", "id": [wid(&i["id"])], "t": idn(&i["t"])}),
        "e" => json!({"i": "e", "e": edge(&i["e"])}),
        "vp" => json!({"i": "vp", "id": [wid(&i["id"])], "n": idn(&i["n"]), "v": val(&i["v"])}),
        _ => json!({"i": "ep", "e": [edge(&i["e"])], "n": idn(&i["n"]), "v": val(&i["v"])}),
    }
}
/// The request of an operation, if it is one that goes over the wire.
pub fn request(op: &Value) -> Option<Value> {
    let m = op["op"].as_str().unwrap();
    let mut w = match m {
        "cv" => json!({"id": [wid(&op["id"])], "t": idn(&op["t"])}),
        "cvt" => json!({"t": ident(op["t"].as_str().unwrap())}),
        "ce" => json!({"e": edge(&op["e"])}),
        "get" | "del" => json!({"q": query(&op["q"])}),
        "set" => json!({"q": [query(&op["q"])], "n": idn(&op["n"]), "v": val(&op["v"])}),
        "bulk" => json!({"items": op["items"].as_array().unwrap().iter().map(item).collect::<Vec<_>>()}),
        "index" => json!({"n": idn(&op["n"])}),
        "plugin" => json!({"name": op["name"], "arg": val(&op["arg"])}),
        _ => return None,
    };
    w["op"] = json!("wire");
    w["m"] = json!(m);
    Some(w)
}

// ---------------------------------------------------------------- corrupting them

fn slots(v: &Value, path: &str, out: &mut Vec<(String, char)>) {
    match v {
        Value::Array(a) => {
            if a.len() == 1 && a[0].is_object() {
                out.push((path.into(), 'a'));
            }
            for (i, x) in a.iter().enumerate() {
                slots(x, &format!("{path}/{i}"), out);
            }
        }
        Value::Object(m) => {
            if m.contains_key("cls") {
                out.push((path.into(), 'n'));
            } else if m.contains_key("cs") {
                out.push((path.into(), 'j'));
            } else if m.contains_key("len") {
                out.push((path.into(), 'u'));
            } else {
                if m.get("q").is_some_and(|q| q.is_string()) {
                    out.push((path.into(), 'q'));
                }
                if m.get("i").is_some_and(|q| q.is_string()) {
                    out.push((path.into(), 'b'));
                }
                if m.get("q").is_some_and(|q| q == "Pipe") {
                    out.push((path.into(), 'd'));
                }
                for (k, x) in m {
                    slots(x, &format!("{path}/{k}"), out);
                }
            }
        }
        _ => {}
    }
}

pub fn odd_ident(r: &mut Rng, base: &str) -> String {
    let odd = [
        " ", ".", "$", "/", ":", "@", "a b", "\n", "\u{0}", "\t", "é", "名前", "٣", "Ⅷ", "ñ-_", "a\u{301}", "\u{200d}", "😀", "½", "\u{a0}",
        "(", "+", "~", "'", "\"", "\\", "%", "*", ",", ";", "=", "&", "#", "`", "!", "?", "<", "|", "€", "–", "‿", "ª", "\u{7f}", "\u{85}", "_", "-", "0", "Z",
    ];
    match r.below(5) {
        0 => format!("{base}{}", r.pick(&odd)),
        1 => format!("{}{base}", r.pick(&odd)),
        2 => {
            let n = *r.pick(&[253usize, 254, 255, 256, 257, 300, 511, 512, 65536]);
            "x".repeat(n)
        }
        3 => {
            // the limit counts bytes, not characters
            let (c, n) = *r.pick(&[('é', 127usize), ('é', 128), ('名', 85), ('名', 86), ('x', 255), ('𝒳', 63), ('𝒳', 64)]);
            let mut s: String = std::iter::repeat(c).take(n).collect();
            if r.chance(50) {
                s.push('y');
            }
            s
        }
        _ => r.pick(&odd).to_string(),
    }
}
pub fn odd_json(r: &mut Rng, base: &str) -> String {
    let lits = [
        "", " ", "nul", "tru", "True", "NaN", "Infinity", "-", "+1", "01", "1.", ".5", "1e", "1e+", "0x1", "'a'", "\"a", "a\"", "\"\\x\"", "\"\\u12\"",
        "\"\\ud800\"", "\"\\udc00\\ud800\"", "\"\\ud83d\\ude00\"", "\"a\nb\"", "[", "]", "[1,]", "[,1]", "[1 2]", "{", "{}}", "{\"a\"}", "{\"a\":}", "{a:1}",
        "{\"a\":1,}", "{\"a\" 1}", "1 2", "1,", "// c\n1", "/**/1", "undefined", "\u{feff}1", "[1]]", "\"a\"\"b\"", "\u{a0}1", "\u{0}", "1\u{0}", " [ 1 , { \"k\" : null } ] ", "-0",
        "1E5", "\"\\/\"", "\ttrue\r\n", "[[]", "\"\u{7f}\"",
    ];
    match r.below(3) {
        0 => r.pick(&lits).to_string(),
        1 => {
            let mut c: Vec<char> = base.chars().collect();
            if !c.is_empty() {
                c.remove(r.below(c.len()));
            }
            c.into_iter().collect()
        }
        _ => {
            let mut c: Vec<char> = base.chars().collect();
            let x = *r.pick(&[' ', '"', ',', ':', '[', ']', '{', '}', '\\', '-', '.', 'x', '\n']);
            c.insert(r.below(c.len() + 1), x);
            c.into_iter().collect()
        }
    }
}
/// Changes one place of a request.
pub fn corrupt(r: &mut Rng, w: &mut Value, rdb: bool) {
    let mut s = vec![];
    slots(w, "", &mut s);
    if s.is_empty() {
        return;
    }
    let (p, k) = r.pick(&s).clone();
    let bulk = w["m"] == "bulk";
    if rdb && bulk && p == "/items" {
        return; // likewise
    }
    let x = w.pointer_mut(&p).unwrap();
    match k {
        'a' => *x = json!([]),
        'n' => {
            let b = x["s"].as_str().unwrap().to_string();
            *x = ident(&odd_ident(r, &b));
            // a RocksDB bulk insert whose items no longer fit together is outside its contract
            if rdb && bulk && x["cls"].as_array().unwrap().iter().all(|c| c != "other") && x["len"].as_u64().unwrap() < 256 {
                *x = ident("!");
            }
        }
        'j' => {
            let b: String = x["cs"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
            let t = odd_json(r, &b);
            // floats the recording machinery and the code may print differently are left out
            if t.contains(['.', 'e', 'E']) && serde_json::from_str::<Value>(&t).is_ok() && t.chars().any(|c| c.is_ascii_digit()) {
                *x = jsn("7");
            } else {
                *x = jsn(&t);
            }
        }
        'u' => *x = json!({"len": r.pick(&[0, 1, 8, 15, 17, 32, 36])}),
        'q' => *x = json!({"q": "none"}),
        'd' => x["d"] = json!(*r.pick(&["2", "-1", "3", "256", "2147483647", "-2147483648"])),
        _ => *x = json!({"i": "none"}),
    }
}

// ---------------------------------------------------------------- building them

fn b_uuid(v: &Value) -> proto::Uuid {
    let n = v["len"].as_u64().unwrap() as usize;
    let mut b: Vec<u8> = match v.get("u") {
        Some(u) => ustr(u).as_bytes().to_vec(),
        // ids of a wrong length begin like an id that exists
        None => Uuid::from_u128(0).as_bytes().iter().cycle().take(n).copied().collect(),
    };
    b.truncate(n);
    proto::Uuid { value: b }
}
fn b_ident(v: &Value) -> proto::Identifier {
    proto::Identifier { value: v["s"].as_str().unwrap().into() }
}
fn b_json(v: &Value) -> proto::Json {
    proto::Json { value: v["cs"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect() }
}
fn b_opt<T>(v: &Value, f: impl Fn(&Value) -> T) -> Option<T> {
    v.as_array().and_then(|a| a.first()).map(f)
}
fn b_edge(v: &Value) -> proto::Edge {
    proto::Edge { outbound_id: b_opt(&v["o"], b_uuid), t: b_opt(&v["t"], b_ident), inbound_id: b_opt(&v["i"], b_uuid) }
}
fn b_query(q: &Value) -> proto::Query {
    use proto::QueryVariant as Q;
    let lim = || q["lim"].as_u64().unwrap() as u32;
    let inner = || b_opt(&q["in"], |x| Box::new(b_query(x)));
    let name = || b_opt(&q["n"], b_ident);
    let value = || b_opt(&q["v"], b_json);
    let query = match q["q"].as_str().unwrap() {
        "none" => None,
        "AllV" => Some(Q::AllVertex(())),
        "AllE" => Some(Q::AllEdge(())),
        "RangeV" => Some(Q::RangeVertex(proto::RangeVertexQuery { limit: lim(), t: b_opt(&q["t"], b_ident), start_id: b_opt(&q["s"], b_uuid) })),
        "SpecV" => Some(Q::SpecificVertex(proto::SpecificVertexQuery { ids: q["ids"].as_array().unwrap().iter().map(b_uuid).collect() })),
        "SpecE" => Some(Q::SpecificEdge(proto::SpecificEdgeQuery { edges: q["es"].as_array().unwrap().iter().map(b_edge).collect() })),
        "VProp" => Some(Q::VertexWithPropertyPresence(proto::VertexWithPropertyPresenceQuery { name: name() })),
        "VPropVal" => Some(Q::VertexWithPropertyValue(proto::VertexWithPropertyValueQuery { name: name(), value: value() })),
        "EProp" => Some(Q::EdgeWithPropertyPresence(proto::EdgeWithPropertyPresenceQuery { name: name() })),
        "EPropVal" => Some(Q::EdgeWithPropertyValue(proto::EdgeWithPropertyValueQuery { name: name(), value: value() })),
        "Pipe" => Some(Q::Pipe(Box::new(proto::PipeQuery {
            inner: inner(),
            direction: match q["d"].as_str().unwrap() {
                "out" => 0,
                "in" => 1,
                d => d.parse().unwrap(),
            },
            limit: lim(),
            t: b_opt(&q["t"], b_ident),
        }))),
        "PProp" => Some(Q::PipeProperty(Box::new(proto::PipePropertyQuery { inner: inner(), name: name() }))),
        "PHas" => Some(Q::PipeWithPropertyPresence(Box::new(proto::PipeWithPropertyPresenceQuery {
            inner: inner(),
            name: name(),
            exists: q["x"].as_bool().unwrap(),
        }))),
        "PVal" => Some(Q::PipeWithPropertyValue(Box::new(proto::PipeWithPropertyValueQuery {
            inner: inner(),
            name: name(),
            value: value(),
            equal: q["eq"].as_bool().unwrap(),
        }))),
        "Inc" => Some(Q::Include(Box::new(proto::IncludeQuery { inner: inner() }))),
        "Cnt" => Some(Q::Count(Box::new(proto::CountQuery { inner: inner() }))),
        x => panic!("unknown wire query {x}"),
    };
    proto::Query { query }
}
fn b_item(i: &Value) -> proto::BulkInsertItem {
    use proto::BulkInsertItemVariant as B;
    let item = match i["i"].as_str().unwrap() {
        "none" => None,
        "v" => Some(B::Vertex(proto::Vertex { id: b_opt(&i["id"], b_uuid), t: b_opt(&i["t"], b_ident) })),
        "e" => Some(B::Edge(b_edge(&i["e"]))),
        "vp" => Some(B::VertexProperty(proto::VertexPropertyBulkInsertItem {
            id: b_opt(&i["id"], b_uuid),
            name: b_opt(&i["n"], b_ident),
            value: b_opt(&i["v"], b_json),
        })),
        _ => Some(B::EdgeProperty(proto::EdgePropertyBulkInsertItem {
            edge: b_opt(&i["e"], b_edge),
            name: b_opt(&i["n"], b_ident),
            value: b_opt(&i["v"], b_json),
        })),
    };
    proto::BulkInsertItem { item }
}

type Raw = proto::ProtoClient<Channel>;

fn outcome<T>(r: Result<T, tonic::Status>, f: impl Fn(T) -> Value) -> Value {
    match r {
        Ok(x) => f(x),
        Err(s) => status_json(&s),
    }
}
/// Sends one request message and reports the answer like an ordinary operation.
pub async fn send(c: &mut Raw, w: &Value) -> Value {
    match w["m"].as_str().unwrap() {
        "cv" => outcome(c.create_vertex(proto::Vertex { id: b_opt(&w["id"], b_uuid), t: b_opt(&w["t"], b_ident) }).await, |r| {
            exec::boolean(r.into_inner().created)
        }),
        "cvt" => outcome(c.create_vertex_from_type(b_ident(&w["t"])).await, |r| {
            json!({"k": "id", "id": uid(Uuid::from_slice(&r.into_inner().value).unwrap())})
        }),
        "ce" => outcome(c.create_edge(b_edge(&w["e"])).await, |r| exec::boolean(r.into_inner().created)),
        "get" => {
            let mut s = match c.get(b_query(&w["q"])).await {
                Ok(s) => s.into_inner(),
                Err(e) => return status_json(&e),
            };
            let mut out: Vec<indradb::QueryOutputValue> = vec![];
            loop {
                match s.message().await {
                    Ok(Some(m)) => match m.try_into() {
                        Ok(o) => out.push(o),
                        Err(e) => return json!({"k": "err", "e": "Client", "m": format!("{e}")}),
                    },
                    Ok(None) => return exec::outs_json(&out),
                    Err(e) => return status_json(&e),
                }
            }
        }
        "del" => outcome(c.delete(b_query(&w["q"])).await, |_| exec::ok()),
        "set" => outcome(
            c.set_properties(proto::SetPropertiesRequest { q: b_opt(&w["q"], b_query), name: b_opt(&w["n"], b_ident), value: b_opt(&w["v"], b_json) })
                .await,
            |_| exec::ok(),
        ),
        "bulk" => {
            let mut items: Vec<_> = w["items"].as_array().unwrap().iter().map(b_item).collect();
            if let Some(n) = w.get("times") {
                // a long stream: the items again and again, and some more
                let once = items.clone();
                items = std::iter::repeat_with(|| once.clone()).take(n.as_u64().unwrap() as usize).flatten().collect();
                items.extend(w["tail"].as_array().unwrap().iter().map(b_item));
            }
            outcome(c.bulk_insert(tokio_stream::iter(items)).await, |_| exec::ok())
        }
        "index" => outcome(c.index_property(proto::IndexPropertyRequest { name: b_opt(&w["n"], b_ident) }).await, |_| exec::ok()),
        "plugin" => outcome(
            c.execute_plugin(proto::ExecutePluginRequest { name: w["name"].as_str().unwrap().into(), arg: b_opt(&w["arg"], b_json) }).await,
            |r| {
                let v = r.into_inner().value;
                json!({"k": "json", "v": v.map(|j| crate::jtext::text(&crate::jtext::parse(&j.value))).unwrap_or_default()})
            },
        ),
        x => panic!("unknown wire method {x}"),
    }
}
pub fn raw_client(s: &Store) -> Raw {
    let g = s.grpc.as_ref().unwrap();
    let url = format!("http://{}", g.addr);
    g.rt.block_on(async {
        let c = Raw::connect(url).await.unwrap();
        crate::store::no_delay();
        c
    })
}

// ---------------------------------------------------------------- undecodable bytes

#[derive(Clone, Default)]
struct BytesCodec;
impl tonic::codec::Codec for BytesCodec {
    type Encode = Vec<u8>;
    type Decode = Vec<u8>;
    type Encoder = BytesCodec;
    type Decoder = BytesCodec;
    fn encoder(&mut self) -> Self::Encoder {
        BytesCodec
    }
    fn decoder(&mut self) -> Self::Decoder {
        BytesCodec
    }
}
impl tonic::codec::Encoder for BytesCodec {
    type Item = Vec<u8>;
    type Error = tonic::Status;
    fn encode(&mut self, x: Vec<u8>, b: &mut tonic::codec::EncodeBuf<'_>) -> Result<(), tonic::Status> {
        use bytes::BufMut;
        b.put_slice(&x);
        Ok(())
    }
}
impl tonic::codec::Decoder for BytesCodec {
    type Item = Vec<u8>;
    type Error = tonic::Status;
    fn decode(&mut self, b: &mut tonic::codec::DecodeBuf<'_>) -> Result<Option<Vec<u8>>, tonic::Status> {
        use bytes::Buf;
        let n = b.remaining();
        Ok(Some(b.copy_to_bytes(n).to_vec()))
    }
}
const METHODS: &[&str] =
    &["CreateVertex", "CreateVertexFromType", "CreateEdge", "Get", "Delete", "SetProperties", "BulkInsert", "IndexProperty", "ExecutePlugin"];
/// Bytes that are no protobuf message: a good message first, in a bulk stream.
async fn junk(ch: Channel, method: &str, good: Option<Vec<u8>>, bytes: Vec<u8>) -> Value {
    let mut g = tonic::client::Grpc::new(ch);
    g.ready().await.unwrap();
    let path = tonic::codegen::http::uri::PathAndQuery::from_maybe_shared(format!("/indradb.IndraDB/{method}")).unwrap();
    match method {
        "BulkInsert" => {
            let l: Vec<Vec<u8>> = good.into_iter().chain([bytes]).collect();
            outcome(g.client_streaming(tonic::Request::new(tokio_stream::iter(l)), path, BytesCodec).await, |_: tonic::Response<Vec<u8>>| exec::ok())
        }
        "Get" => match g.server_streaming(tonic::Request::new(bytes), path, BytesCodec).await {
            Ok(r) => {
                let mut s: tonic::Streaming<Vec<u8>> = r.into_inner();
                match s.message().await {
                    Err(e) => status_json(&e),
                    Ok(_) => exec::ok(),
                }
            }
            Err(e) => status_json(&e),
        },
        _ => outcome(g.unary(tonic::Request::new(bytes), path, BytesCodec).await, |_: tonic::Response<Vec<u8>>| exec::ok()),
    }
}
fn junk_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0x0a, 0x12, 0x0a],                   // field 1 longer than the message
        1 => vec![0x0f, 0x01],                         // field 1 with wire type 7
        2 => vec![0x00],                               // field number 0
        3 => vec![0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01], // overlong varint
        4 => vec![0x0c],                               // end of a group that never began
        _ => vec![0x0a, 0x04, 0x0a, 0x12, 0x12, 0x34], // nested field longer than its parent
    }
}

// ---------------------------------------------------------------- commands

/// vh wire store=grpc-mem seed= events= out= [msgs=FILE of messages printed by TLC]
pub fn wire(a: &Args) -> i32 {
    let kind = arg(a, "store", "grpc-mem");
    let seed = num(a, "seed", 1);
    let mut g = Gen::new(seed, profile("C17"), kind.ends_with("rdb"));
    let mut r = Rng::new(seed ^ 0x3172);
    let rdb = kind.ends_with("rdb");
    let dir = scratch_dir("wire");
    let mut s = Store::new(kind, &dir).with_plugins();
    let mut t = Trace::default();
    t.plugins = crate::store::OWN_PLUGINS.to_vec();
    let want = num(a, "events", 1500) as usize;
    let mut histories = 0;
    // messages of the model, with its ids and names replaced by real ones
    let mut msgs: Vec<Value> = match a.get("msgs") {
        Some(f) => std::fs::read_to_string(f)
            .unwrap()
            .lines()
            .filter_map(|l| serde_json::from_str::<String>(l).ok())
            .filter_map(|l| l.strip_prefix("MSG ").map(|m| serde_json::from_str(m).unwrap()))
            .collect(),
        None => vec![],
    };
    let (shard, shards) = (num(a, "shard", 0) as usize, num(a, "shards", 1) as usize);
    msgs = msgs.into_iter().enumerate().filter(|(i, _)| i % shards == shard).map(|x| x.1).collect();
    r.shuffle(&mut msgs);
    let of = msgs.len();
    let modelled = a.contains_key("msgs");
    while if modelled { !msgs.is_empty() } else { t.events.len() < want } {
        g.new_history();
        if modelled {
            // every vertex of the model has the same type
            g.vts.truncate(1);
        }
        s.reset();
        t.mark("reset");
        histories += 1;
        let rt = s.grpc.as_ref().unwrap().rt.clone();
        let mut raw = raw_client(&s);
        let ch = rt.block_on(async { Channel::from_shared(format!("http://{}", s.grpc.as_ref().unwrap().addr)).unwrap().connect().await.unwrap() });
        let n = if modelled { 400 } else { g.history_len() };
        for k in 0..n {
            if g.stale || (modelled && k % 8 == 7) {
                let b = if modelled && k % 16 == 15 { g.battery(&["AllV", "AllE", "Out", "In", "VPs", "EPs", "Ix"]) } else { Gen::refresh_ops() };
                for o in b {
                    step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
                }
                g.stale = false;
            }
            if r.chance(6) {
                let m = *r.pick(METHODS);
                let fresh = proto::BulkInsertItem {
                    item: Some(proto::BulkInsertItemVariant::Vertex(indradb::Vertex::new(exec::ident("junk")).into())),
                };
                let good = if r.chance(70) { Some(encode(&fresh)) } else { None };
                let b = junk_bytes(&mut r);
                let op = json!({"op": "junk", "m": m, "hex": b.iter().map(|x| format!("{x:02x}")).collect::<String>(), "good": good.is_some() as u8});
                let _w = crate::watch::begin(&op);
                let res = rt.block_on(junk(ch.clone(), m, good, b));
                t.push(op, res);
            }
            let ops: Vec<Value> = if modelled {
                match msgs.pop() {
                    Some(m) => {
                        // something for the message to act on
                        let mut l = if k == 0 { g.seed_ops() } else { vec![] };
                        l.push(instantiate(&m, &mut g));
                        l
                    }
                    None => break,
                }
            } else {
                g.next()
            };
            for op in ops {
                if op["op"] == "wire" || (request(&op).is_some() && r.chance(60)) {
                    let mut w = if op["op"] == "wire" { op.clone() } else { request(&op).unwrap() };
                    let len = w["items"].as_array().map_or(0, |a| a.len());
                    if !modelled && len > 0 && r.chance(12) {
                        // as one of thousands of items
                        let n = *r.pick(&[1000usize, 1025, 2049, 4097, 5000, 8193, 10001]);
                        w["times"] = json!(n / len + 1);
                        let k = r.range(1, len);
                        let mut tail = json!({"m": "bulk", "items": w["items"].as_array().unwrap()[..k]});
                        if r.chance(75) {
                            corrupt(&mut r, &mut tail, rdb);
                        }
                        w["tail"] = tail["items"].clone();
                    } else if !modelled && r.chance(60) {
                        corrupt(&mut r, &mut w, rdb);
                        if r.chance(15) {
                            corrupt(&mut r, &mut w, rdb);
                        }
                    }
                    let _w = crate::watch::begin(&w);
                    let res = rt.block_on(send(&mut raw, &w));
                    g.stale = true;
                    if w["m"] == "index" && res["k"] == "ok" && w["n"][0]["s"].is_string() {
                        g.ix.insert(w["n"][0]["s"].as_str().unwrap().into());
                    }
                    t.push(w, res);
                } else {
                    step(&mut s, &mut t, &op, &mut |o, r| g.observe(o, r));
                }
            }
        }
        for o in g.battery(&["AllV", "AllE", "Out", "In", "VPs", "EPs", "Ix"]) {
            step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
        }
    }
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    println!("{}", json!({"events": t.events.len(), "histories": histories, "transitions": of, "of": of}));
    0
}
fn encode(m: &proto::BulkInsertItem) -> Vec<u8> {
    use prost::Message;
    m.encode_to_vec()
}
/// A message of the model with real ids, names and texts.
fn instantiate(m: &Value, g: &mut Gen) -> Value {
    match m {
        Value::Object(o) if o.contains_key("cls") => {
            let s = o["s"].as_str().unwrap();
            let real = match s {
                "a" => g.vts[0].clone(),
                "b" => g.ets[0].clone(),
                "p" => g.names[0].clone(),
                "LONG" => "x".repeat(256),
                "BAD" => odd_ident(&mut g.rng, "a").replace(char::is_alphanumeric, ".") + "!",
                x => panic!("unknown model identifier {x}"),
            };
            ident(&real)
        }
        Value::Object(o) if o.contains_key("cs") => {
            let t: String = o["cs"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
            jsn(&t)
        }
        Value::Object(o) if o.contains_key("len") => match o.get("u") {
            Some(u) => wid(&uid(g.ids[u.as_u64().unwrap() as usize % g.ids.len()])),
            None => m.clone(),
        },
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), instantiate(v, g))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|x| instantiate(x, g)).collect()),
        x => x.clone(),
    }
}

/// vh cutoff store=grpc-mem|grpc-rdb seed= cases= out=: bulk insert streams that never end.
pub fn cutoff(a: &Args) -> i32 {
    let kind = arg(a, "store", "grpc-mem");
    let seed = num(a, "seed", 1);
    let mut g = Gen::new(seed, profile("C17"), kind.ends_with("rdb"));
    let mut r = Rng::new(seed ^ 0xc07);
    let dir = scratch_dir("cutoff");
    let mut s = Store::new(if kind.ends_with("rdb") { "rdb" } else { "mem" }, &dir);
    let mut t = Trace::default();
    let cases = num(a, "cases", 20);
    let crt = runtime();
    for case in 0..cases {
        if case % 5 == 0 {
            g.new_history();
            s.reset();
            t.mark("reset");
            for o in g.seed_ops() {
                step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
            }
        }
        let _w = crate::watch::begin(&json!({"cutoff": case}));
        // a server of its own for every case: ending its runtime waits for what it has begun
        let srt = runtime();
        let server = match &s.db {
            Db::M(d) => serve(&srt, d.clone(), None),
            Db::R(d) => serve(&srt, d.clone(), None),
            Db::Closed => unreachable!(),
        };
        let n = if r.chance(20) { r.range(100, 400) } else { r.range(1, 12) };
        let mut items: Vec<proto::BulkInsertItem> = vec![];
        while items.len() < n {
            let b = g.bulk();
            items.extend(b["items"].as_array().unwrap().iter().map(|i| b_item(&item(i))));
            items.extend((0..2).map(|_| indradb::BulkInsertItem::Vertex(indradb::Vertex::new(exec::ident("late"))).into()));
        }
        let mode = *r.pick(&["reset", "reset", "reset", "close", "closehard", "partial", "halfmessage"]);
        let wait = *r.pick(&[0u64, 1, 5, 20]);
        let addr = server.addr;
        let reason = *r.pick(&[h2::Reason::CANCEL, h2::Reason::CANCEL, h2::Reason::NO_ERROR, h2::Reason::INTERNAL_ERROR, h2::Reason::REFUSED_STREAM, h2::Reason::ENHANCE_YOUR_CALM]);
        let op = json!({"op": "cutoff", "mode": mode, "reason": format!("{reason:?}"), "n": items.len(), "wait": wait});
        let half = r.chance(30);
        crt.block_on(async {
            let tcp = tokio::net::TcpStream::connect(addr).await.unwrap();
            let _ = tcp.set_nodelay(true);
            if mode == "closehard" {
                let _ = tcp.set_linger(Some(std::time::Duration::ZERO));
            }
            let (mut h, conn) = h2::client::handshake(tcp).await.unwrap();
            let conn = tokio::spawn(async move { conn.await.map_err(|_| ()) });
            let req = tonic::codegen::http::Request::builder()
                .method("POST")
                .uri(format!("http://{addr}/indradb.IndraDB/BulkInsert"))
                .header("content-type", "application/grpc")
                .header("te", "trailers")
                .body(())
                .unwrap();
            h = h.ready().await.unwrap();
            let (resp, mut send) = h.send_request(req, false).unwrap();
            for i in &items {
                use prost::Message;
                let m = i.encode_to_vec();
                let mut f = vec![0u8];
                f.extend((m.len() as u32).to_be_bytes());
                f.extend(m);
                let _ = send.send_data(bytes::Bytes::from(f), false);
            }
            if mode == "partial" || half {
                // the beginning of one more message
                let f = encode(&items[0]);
                let mut b = vec![0u8];
                b.extend((f.len() as u32).to_be_bytes());
                b.extend(&f[..f.len() / 2]);
                let _ = send.send_data(bytes::Bytes::from(b), mode == "halfmessage");
            }
            // the items are on their way; sometimes long arrived
            tokio::time::sleep(std::time::Duration::from_millis(wait)).await;
            match mode {
                "reset" => send.send_reset(reason),
                "halfmessage" if !half => {
                    // the stream is ended inside of a message
                    let _ = send.send_data(bytes::Bytes::from_static(&[0, 0, 0, 1, 0, 10]), true);
                }
                "close" | "closehard" | "partial" | "halfmessage" => {}
                x => panic!("{x}"),
            }
            if mode == "reset" || mode == "halfmessage" {
                tokio::time::sleep(std::time::Duration::from_millis(10)).await;
            }
            conn.abort();
            let _ = conn.await;
            drop((resp, send, h));
            tokio::time::sleep(std::time::Duration::from_millis(15)).await;
        });
        drop(server);
        drop(Arc::try_unwrap(srt).ok());
        t.push(op, exec::ok());
        for o in g.battery(&["AllV", "AllE", "Out", "In", "VPs", "EPs"]) {
            step(&mut s, &mut t, &o, &mut |o, r| g.observe(o, r));
        }
    }
    s.close();
    let _ = std::fs::remove_dir_all(&dir);
    t.write(arg(a, "out", "/dev/stdout"), kind.ends_with("rdb"));
    println!("{}", json!({"events": t.events.len(), "histories": cases}));
    0
}
