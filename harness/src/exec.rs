//! Interprets operations (JSON) against the real code and reports results (JSON).
use crate::jtext;
use crate::trace::{uid, ustr};
use indradb::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use uuid::Uuid;

pub fn ident(s: &str) -> Identifier {
    Identifier::new(s).unwrap_or_else(|e| panic!("harness used a bad identifier {s:?}: {e}"))
}
pub fn idv(v: &Value) -> Identifier {
    ident(v.as_str().unwrap())
}
pub fn edge(v: &Value) -> Edge {
    Edge::new(ustr(&v[0]), idv(&v[1]), ustr(&v[2]))
}
pub fn jval(v: &Value) -> Json {
    Json::new(jtext::parse(v.as_str().unwrap()))
}
fn opt_ident(v: &Value) -> Option<Identifier> {
    v.as_array().and_then(|a| a.first()).map(idv)
}
fn opt_uuid(v: &Value) -> Option<Uuid> {
    v.as_array().and_then(|a| a.first()).map(ustr)
}
pub fn vj(v: &Vertex) -> Value {
    json!([uid(v.id), v.t.as_str()])
}
pub fn ej(e: &Edge) -> Value {
    json!([uid(e.outbound_id), e.t.as_str(), uid(e.inbound_id)])
}
pub fn err_name(e: &Error) -> &'static str {
    match e {
        Error::UuidTaken => "UuidTaken",
        Error::Datastore(_) => "Datastore",
        Error::Io(_) => "Io",
        Error::NotIndexed => "NotIndexed",
        Error::Unsupported => "Unsupported",
        Error::Invalid(_) => "Invalid",
        Error::OperationOnQuery => "OpOnQuery",
        _ => "Other",
    }
}
pub fn err_json(e: &Error) -> Value {
    json!({"k": "err", "e": err_name(e), "m": format!("{e}")})
}
pub fn invalid(e: ValidationError) -> Value {
    json!({"k": "err", "e": "Invalid", "m": format!("{e}")})
}
pub fn ok() -> Value {
    json!({"k": "ok"})
}
pub fn boolean(b: bool) -> Value {
    json!({"k": "bool", "b": b})
}

/// Applies a query-extension method to whatever concrete query is inside a Query.
macro_rules! with_nestable {
    ($q:expr, $x:ident => $body:expr, $other:expr) => {
        match $q {
            Query::AllVertex => {
                let $x = AllVertexQuery;
                $body
            }
            Query::AllEdge => {
                let $x = AllEdgeQuery;
                $body
            }
            Query::RangeVertex($x) => $body,
            Query::SpecificVertex($x) => $body,
            Query::VertexWithPropertyPresence($x) => $body,
            Query::VertexWithPropertyValue($x) => $body,
            Query::SpecificEdge($x) => $body,
            Query::EdgeWithPropertyPresence($x) => $body,
            Query::EdgeWithPropertyValue($x) => $body,
            Query::Pipe($x) => $body,
            Query::PipeWithPropertyPresence($x) => $body,
            Query::PipeWithPropertyValue($x) => $body,
            Query::Include($x) => $body,
            q => {
                #[allow(clippy::redundant_closure_call)]
                ($other)(q)
            }
        }
    };
}

/// via 0: constructors; 1: struct literals (no validation); 2: the builder methods.
type VR<T> = std::result::Result<T, ValidationError>;
pub fn build(q: &Value, via: u64) -> VR<Query> {
    let lim = || q["lim"].as_u64().unwrap() as u32;
    let inner = || build(&q["in"], via);
    Ok(match q["q"].as_str().unwrap() {
        "AllV" => AllVertexQuery.into(),
        "AllE" => AllEdgeQuery.into(),
        "RangeV" => {
            let (t, s) = (opt_ident(&q["t"]), opt_uuid(&q["s"]));
            if via == 1 {
                Query::RangeVertex(RangeVertexQuery { limit: lim(), t, start_id: s })
            } else {
                let mut r = RangeVertexQuery::new();
                if via == 2 {
                    r = r.limit(lim());
                }
                if let Some(s) = s {
                    r = r.start_id(s);
                }
                if let Some(t) = t {
                    r = r.t(t);
                }
                // (a limit that is not given is the largest one)
                if via != 2 && lim() != u32::MAX {
                    r = r.limit(lim());
                }
                r.into()
            }
        }
        "SpecV" => {
            let ids: Vec<Uuid> = q["ids"].as_array().unwrap().iter().map(ustr).collect();
            if via == 2 && ids.len() == 1 {
                SpecificVertexQuery::single(ids[0]).into()
            } else {
                SpecificVertexQuery::new(ids).into()
            }
        }
        "SpecE" => {
            let es: Vec<Edge> = q["es"].as_array().unwrap().iter().map(edge).collect();
            if via == 2 && es.len() == 1 {
                SpecificEdgeQuery::single(es[0].clone()).into()
            } else {
                SpecificEdgeQuery::new(es).into()
            }
        }
        "VProp" => VertexWithPropertyPresenceQuery::new(idv(&q["n"])).into(),
        "VPropVal" => VertexWithPropertyValueQuery::new(idv(&q["n"]), jval(&q["v"])).into(),
        "EProp" => EdgeWithPropertyPresenceQuery::new(idv(&q["n"])).into(),
        "EPropVal" => EdgeWithPropertyValueQuery::new(idv(&q["n"]), jval(&q["v"])).into(),
        "Pipe" => {
            let out = q["d"] == "out";
            let dir = if out { EdgeDirection::Outbound } else { EdgeDirection::Inbound };
            let (t, i) = (opt_ident(&q["t"]), inner()?);
            match via {
                1 => Query::Pipe(PipeQuery { inner: Box::new(i), direction: dir, limit: lim(), t }),
                2 => {
                    let mut p = with_nestable!(i, x => if out { x.outbound() } else { x.inbound() },
                        |q: Query| PipeQuery::new(Box::new(q), dir))?;
                    p = p.limit(lim());
                    if let Some(t) = t {
                        p = p.t(t);
                    }
                    p.into()
                }
                _ => {
                    let mut p = PipeQuery::new(Box::new(i), dir)?;
                    if let Some(t) = t {
                        p = p.t(t);
                    }
                    if lim() != u32::MAX {
                        p = p.limit(lim());
                    }
                    p.into()
                }
            }
        }
        "PProp" => {
            let (n, i) = (opt_ident(&q["n"]), inner()?);
            if via == 1 {
                Query::PipeProperty(PipePropertyQuery { inner: Box::new(i), name: n })
            } else {
                let mut p = if via == 2 {
                    with_nestable!(i, x => x.properties(), |q: Query| PipePropertyQuery::new(Box::new(q)))?
                } else {
                    PipePropertyQuery::new(Box::new(i))?
                };
                if let Some(n) = n {
                    p = p.name(n);
                }
                p.into()
            }
        }
        "PHas" => {
            let (n, x, i) = (idv(&q["n"]), q["x"].as_bool().unwrap(), inner()?);
            match via {
                1 => Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: Box::new(i), name: n, exists: x }),
                2 => with_nestable!(i, y => if x { y.with_property(n) } else { y.without_property(n) },
                        |q: Query| PipeWithPropertyPresenceQuery::new(Box::new(q), n, x))?.into(),
                _ => PipeWithPropertyPresenceQuery::new(Box::new(i), n, x)?.into(),
            }
        }
        "PVal" => {
            let (n, v, x, i) = (idv(&q["n"]), jval(&q["v"]), q["eq"].as_bool().unwrap(), inner()?);
            match via {
                1 => Query::PipeWithPropertyValue(PipeWithPropertyValueQuery { inner: Box::new(i), name: n, value: v, equal: x }),
                2 => with_nestable!(i, y => if x { y.with_property_equal_to(n, v) } else { y.with_property_not_equal_to(n, v) },
                        |q: Query| PipeWithPropertyValueQuery::new(Box::new(q), n, v, x))?.into(),
                _ => PipeWithPropertyValueQuery::new(Box::new(i), n, v, x)?.into(),
            }
        }
        "Inc" => {
            let i = inner()?;
            match via {
                1 => Query::Include(IncludeQuery { inner: Box::new(i) }),
                2 => with_nestable!(i, x => x.include(), |q: Query| IncludeQuery::new(Box::new(q))).into(),
                _ => IncludeQuery::new(Box::new(i)).into(),
            }
        }
        "Cnt" => {
            let i = inner()?;
            match via {
                1 => Query::Count(CountQuery { inner: Box::new(i) }),
                2 => match i {
                    Query::PipeProperty(p) => p.count()?.into(),
                    i => with_nestable!(i, x => x.count(), |q: Query| CountQuery::new(Box::new(q)))?.into(),
                },
                _ => CountQuery::new(Box::new(i))?.into(),
            }
        }
        x => panic!("unknown query {x}"),
    })
}

fn props(ps: &[NamedProperty]) -> Value {
    Value::Array(ps.iter().map(|p| json!([p.name.as_str(), jtext::text(&p.value)])).collect())
}
pub fn out_json(o: &QueryOutputValue) -> Value {
    match o {
        QueryOutputValue::Vertices(v) => json!({"k": "V", "s": v.iter().map(vj).collect::<Vec<_>>()}),
        QueryOutputValue::Edges(v) => json!({"k": "E", "s": v.iter().map(ej).collect::<Vec<_>>()}),
        QueryOutputValue::Count(n) => json!({"k": "C", "s": n}),
        QueryOutputValue::VertexProperties(v) => json!({"k": "VP", "s": v.iter()
            .map(|p| json!({"it": vj(&p.vertex), "ps": props(&p.props)})).collect::<Vec<_>>()}),
        QueryOutputValue::EdgeProperties(v) => json!({"k": "EP", "s": v.iter()
            .map(|p| json!({"it": ej(&p.edge), "ps": props(&p.props)})).collect::<Vec<_>>()}),
    }
}
pub fn outs_json(o: &[QueryOutputValue]) -> Value {
    json!({"k": "out", "o": o.iter().map(out_json).collect::<Vec<_>>()})
}
/// The same outputs, the last of them taken out by the library's helper for its kind.
pub fn outs_via(o: Vec<QueryOutputValue>, via: u64) -> Value {
    if via != 1 || o.is_empty() {
        return outs_json(&o);
    }
    use indradb::util::*;
    let mut j = outs_json(&o[..o.len() - 1]);
    let last = match o[o.len() - 1] {
        QueryOutputValue::Vertices(_) => extract_vertices(o).map(QueryOutputValue::Vertices),
        QueryOutputValue::Edges(_) => extract_edges(o).map(QueryOutputValue::Edges),
        QueryOutputValue::Count(_) => extract_count(o).map(QueryOutputValue::Count),
        QueryOutputValue::VertexProperties(_) => extract_vertex_properties(o).map(QueryOutputValue::VertexProperties),
        QueryOutputValue::EdgeProperties(_) => extract_edge_properties(o).map(QueryOutputValue::EdgeProperties),
    };
    if let Some(l) = last {
        j["o"].as_array_mut().unwrap().push(out_json(&l));
    }
    j
}
pub fn bulk_items(v: &Value) -> Vec<BulkInsertItem> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|i| match i["i"].as_str().unwrap() {
            "v" => BulkInsertItem::Vertex(Vertex::with_id(ustr(&i["id"]), idv(&i["t"]))),
            "e" => BulkInsertItem::Edge(edge(&i["e"])),
            "vp" => BulkInsertItem::VertexProperty(ustr(&i["id"]), idv(&i["n"]), jval(&i["v"])),
            "ep" => BulkInsertItem::EdgeProperty(edge(&i["e"]), idv(&i["n"]), jval(&i["v"])),
            x => panic!("unknown bulk item {x}"),
        })
        .collect()
}
pub fn panic_json(p: Box<dyn std::any::Any + Send>) -> Value {
    let m = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    json!({"k": "panic", "m": m})
}
fn unit(r: Result<()>) -> Value {
    match r {
        Ok(()) => ok(),
        Err(e) => err_json(&e),
    }
}

/// Executes one operation directly on a database. Operations whose result is an id they choose
/// (cvt) get that id added to the event by the caller: it is in the result.
pub fn exec<D: Datastore>(db: &Database<D>, op: &Value) -> Value {
    catch_unwind(AssertUnwindSafe(|| exec_inner(db, op))).unwrap_or_else(panic_json)
}
fn exec_inner<D: Datastore>(db: &Database<D>, op: &Value) -> Value {
    let via = op["via"].as_u64().unwrap_or(0);
    match op["op"].as_str().unwrap() {
        "cv" => match db.create_vertex(&Vertex::with_id(ustr(&op["id"]), idv(&op["t"]))) {
            Ok(b) => boolean(b),
            Err(e) => err_json(&e),
        },
        "cvt" => match db.create_vertex_from_type(idv(&op["t"])) {
            Ok(id) => json!({"k": "id", "id": uid(id)}),
            Err(e) => err_json(&e),
        },
        "ce" => match db.create_edge(&edge(&op["e"])) {
            Ok(b) => boolean(b),
            Err(e) => err_json(&e),
        },
        "get" => match build(&op["q"], via) {
            Err(e) => invalid(e),
            Ok(q) => match db.get(q) {
                Ok(o) => outs_via(o, via),
                Err(e) => err_json(&e),
            },
        },
        "del" => match build(&op["q"], via) {
            Err(e) => invalid(e),
            Ok(q) => unit(db.delete(q)),
        },
        "set" => match build(&op["q"], via) {
            Err(e) => invalid(e),
            Ok(q) => unit(db.set_properties(q, idv(&op["n"]), &jval(&op["v"]))),
        },
        "bulk" => unit(db.bulk_insert(bulk_items(&op["items"]))),
        "index" => unit(db.index_property(idv(&op["n"]))),
        "sync" => unit(db.sync()),
        "tx" => {
            let mut txn = db.datastore.transaction();
            tx(&mut txn, op)
        }
        "map" => {
            let txn = db.datastore.transaction();
            let t: &(dyn Transaction + '_) = &txn;
            crate::mapper::run(t, &op["pa"])
        }
        x => panic!("unknown op {x}"),
    }
}

fn list<T>(it: Result<DynIter<'_, T>>, kind: &str, f: impl Fn(&T) -> Value) -> Value {
    match it.and_then(|i| i.collect::<Result<Vec<T>>>()) {
        Ok(v) => json!({"k": "out", "o": [{"k": kind, "s": v.iter().map(f).collect::<Vec<_>>()}]}),
        Err(e) => err_json(&e),
    }
}
fn opt_list<T>(it: Result<Option<DynIter<'_, T>>>, kind: &str, f: impl Fn(&T) -> Value) -> Value {
    match it {
        Ok(Some(i)) => list(Ok(i), kind, f),
        Ok(None) => json!({"k": "none"}),
        Err(e) => err_json(&e),
    }
}
fn pj(p: &(Identifier, Json)) -> Value {
    json!([p.0.as_str(), jtext::text(&p.1)])
}
pub fn opt_prop(n: Identifier, r: Result<Option<Json>>) -> Value {
    match r {
        Ok(Some(v)) => json!({"k": "out", "o": [{"k": "P", "s": [pj(&(n, v))]}]}),
        Ok(None) => json!({"k": "out", "o": [{"k": "P", "s": []}]}),
        Err(e) => err_json(&e),
    }
}

pub fn all_vertices<'a, T: Transaction<'a> + 'a + ?Sized>(txn: &mut T) -> Result<Vec<Vertex>> {
    let t: &'a T = unsafe { &*(txn as *const T) };
    t.all_vertices()?.collect()
}

/// One operation of the transaction interface.
pub fn tx<'a, T: Transaction<'a> + 'a + ?Sized>(txn: &mut T, op: &Value) -> Value {
    // the trait ties the borrow to the transaction's own lifetime; the database itself goes
    // through a raw pointer for the same reason
    let t: &'a T = unsafe { &*(txn as *const T) };
    let ids = |k: &str| op[k].as_array().unwrap().iter().map(ustr).collect::<Vec<_>>();
    let es = |k: &str| op[k].as_array().unwrap().iter().map(edge).collect::<Vec<_>>();
    let count = |n: u64| json!({"k": "out", "o": [{"k": "C", "s": n}]});
    let vtx = |v: &Value| Vertex::with_id(ustr(v), Identifier::default());
    match op["m"].as_str().unwrap() {
        "vertex_count" => count(t.vertex_count()),
        "edge_count" => count(t.edge_count()),
        "all_vertices" => list(t.all_vertices(), "V", vj),
        "range_vertices" => list(t.range_vertices(ustr(&op["id"])), "V", vj),
        "specific_vertices" => list(t.specific_vertices(ids("ids")), "V", vj),
        "all_edges" => list(t.all_edges(), "E", ej),
        "range_edges" => list(t.range_edges(edge(&op["e"])), "E", ej),
        "range_reversed_edges" => list(t.range_reversed_edges(edge(&op["e"])), "E", ej),
        "specific_edges" => list(t.specific_edges(es("es")), "E", ej),
        "vertex_ids_with_property" => opt_list(t.vertex_ids_with_property(idv(&op["n"])), "I", |u| uid(*u)),
        "vertex_ids_with_property_value" => {
            let v = jval(&op["v"]);
            opt_list(t.vertex_ids_with_property_value(idv(&op["n"]), &v), "I", |u| uid(*u))
        }
        "edges_with_property" => opt_list(t.edges_with_property(idv(&op["n"])), "E", ej),
        "edges_with_property_value" => {
            let v = jval(&op["v"]);
            opt_list(t.edges_with_property_value(idv(&op["n"]), &v), "E", ej)
        }
        "vertex_property" => opt_prop(idv(&op["n"]), t.vertex_property(&vtx(&op["id"]), idv(&op["n"]))),
        "edge_property" => opt_prop(idv(&op["n"]), t.edge_property(&edge(&op["e"]), idv(&op["n"]))),
        "all_vertex_properties_for_vertex" => {
            let v = vtx(&op["id"]);
            let v: &Vertex = unsafe { &*(&v as *const Vertex) };
            list(t.all_vertex_properties_for_vertex(v), "P", pj)
        }
        "all_edge_properties_for_edge" => {
            let e = edge(&op["e"]);
            let e: &Edge = unsafe { &*(&e as *const Edge) };
            list(t.all_edge_properties_for_edge(e), "P", pj)
        }
        "delete_vertices" => unit(txn.delete_vertices(op["ids"].as_array().unwrap().iter().map(vtx).collect())),
        "delete_edges" => unit(txn.delete_edges(es("es"))),
        "delete_vertex_properties" => unit(
            txn.delete_vertex_properties(
                op["ks"].as_array().unwrap().iter().map(|k| (ustr(&k[0]), idv(&k[1]))).collect(),
            ),
        ),
        "delete_edge_properties" => unit(
            txn.delete_edge_properties(
                op["ks"].as_array().unwrap().iter().map(|k| (edge(&k[0]), idv(&k[1]))).collect(),
            ),
        ),
        "set_vertex_properties" => {
            let v = jval(&op["v"]);
            unit(txn.set_vertex_properties(ids("ids"), idv(&op["n"]), &v))
        }
        "set_edge_properties" => {
            let v = jval(&op["v"]);
            unit(txn.set_edge_properties(es("es"), idv(&op["n"]), &v))
        }
        "create_vertex" => match txn.create_vertex(&Vertex::with_id(ustr(&op["id"]), idv(&op["t"]))) {
            Ok(b) => boolean(b),
            Err(e) => err_json(&e),
        },
        "create_edge" => match txn.create_edge(&edge(&op["e"])) {
            Ok(b) => boolean(b),
            Err(e) => err_json(&e),
        },
        "index_property" => unit(txn.index_property(idv(&op["n"]))),
        "bulk_insert" => unit(txn.bulk_insert(bulk_items(&op["items"]))),
        x => panic!("unknown tx op {x}"),
    }
}

/// Several transaction operations within one transaction.
pub fn exec_txs<D: Datastore>(db: &Database<D>, ops: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut txn = db.datastore.transaction();
        for op in ops {
            let r = tx(&mut txn, op);
            out.push(r);
        }
    }));
    if let Err(p) = r {
        out.push(panic_json(p));
    }
    out
}
