#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one JSON object per line)."""
import json, os
M="lib/src/memory/datastore.rs"; R="lib/src/rdb/datastore.rs"; RM="lib/src/rdb/managers.rs"; D="lib/src/database.rs"
Q="lib/src/models/queries.rs"; J="lib/src/models/json.rs"; I="lib/src/models/identifiers.rs"; U="lib/src/util.rs"
V="lib/src/models/vertices.rs"; E="lib/src/models/edges.rs"; S="proto/src/server.rs"; C="proto/src/client.rs"; X="proto/src/converters.rs"
PH="plugins/host/src/util.rs"; PD="plugins/host/src/decl.rs"
def P(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
props=[
P("C01","Vertices and edges exist exactly from creation to deletion",
  "In both datastores, creating a vertex reports success exactly when no vertex with that id exists and never changes an existing vertex; creating an edge reports success exactly when both endpoint vertices exist, whether or not the edge is already there, and changes nothing else. After any history of operations, full scans, lookups by id and counts report exactly the vertices (with the type they were first created with) and edges created and not since deleted, each once in scans, and lookups by id return the existing ones in the order and multiplicity asked for.",
  ["histories","inputs","configurations"],"every finite history of create/delete/lookup operations over any ids (including the smallest and largest), types and self-loops, on the in-memory and the RocksDB datastore",
  "The suite runs a handful of fixed create/get sequences with fresh random ids; it never interleaves re-creation, deletion and lookup over a shared, adversarial id space.",
  [D,M,R,RM],[("create_vertex/create_edge/specific_*/all_*",M),("VertexManager, EdgeManager, EdgeRangeManager","lib/src/rdb/managers.rs")],["Database::create_vertex","Database::create_edge","Database::get"]),
P("C02","Vertex ranges are id-ordered, complete pages",
  "A vertex range query returns, in strictly ascending id order, exactly the first `limit` existing vertices whose id is at least the start id and whose type matches the filter if one is given. Hence paging with any page size, restarting each page just after the last id seen, visits every matching vertex exactly once.",
  ["inputs","histories","configurations"],"every graph state, start id (existing or not, minimum, maximum), type filter and limit (0, 1, exact, larger, u32 maximum), on both datastores",
  "The tests use five vertices and three or four parameter combinations; the interplay of start, filter and limit over arbitrary populations is unexplored.",
  [D,M,R,RM,U],[("Query::RangeVertex evaluation",D),("range_vertices",M),("VertexManager::iterate_for_range",RM)],["Database::get(RangeVertexQuery)"]),
P("C03","Traversal returns exactly the adjacent edges and vertices",
  "Piping vertices to edges returns, for each piped vertex in order, exactly its existing outgoing (or incoming) edges with their true orientation, restricted to the type filter, in a fixed order in which edges of equal type are sorted by the other endpoint's id; piping edges to vertices returns the requested endpoint of each piped edge, in order, restricted to the type filter. A limit keeps exactly that many leading results over the whole step, not per piped item.",
  ["inputs","histories","configurations"],"every graph (parallel edge types, self-loops, antiparallel edges, types that are prefixes of each other or differ in length) and every chain of pipe steps, directions, filters and limits, on both datastores",
  "Tests traverse one star-shaped fixture with few types, mostly without limits, so ordering, self-loops, prefix types and limits spanning several piped vertices are not covered.",
  [D,M,R,RM,E],[("Query::Pipe evaluation",D),("range_edges/range_reversed_edges",M),("EdgeRangeManager",RM),("Edge::reversed",E)],["Database::get(PipeQuery)"]),
P("C04","Deletion removes exactly the selected items and what hangs off them",
  "Deleting vertices removes those vertices, their properties, every edge that starts or ends at them and those edges' properties; deleting edges removes those edges and their properties; deleting properties removes only those properties. Everything else is unchanged, no edge ever refers to a missing vertex through any query, and re-creating a deleted item yields it with no properties or edges left over.",
  ["histories","inputs","configurations"],"every history in which any query selects what is deleted, over self-loops, antiparallel and parallel edges, indexed and unindexed properties, followed by any re-creation, on both datastores, with graphs built by individually successful operations or well-formed bulk inserts",
  "Tests delete from small fixtures and check one count afterwards; inbound edges, leftovers seen only after re-creation, and over-deletion of neighbours are not examined.",
  [D,M,R,RM],[("delete_vertices/delete_edges",M),("VertexManager::delete, EdgeManager::delete",RM),("Database::delete",D)],["Database::delete","Database::get"],
  [("edges / reversed_edges","forward and reversed adjacency","lib/src/memory/datastore.rs; edge_ranges:v2 and reversed_edge_ranges:v2")]),
P("C05","Property reads return the last value written, and nothing else's",
  "After any history, reading a property of a vertex or edge yields exactly the value most recently set on it under that name and not since deleted; reading all properties yields each current name once with its value; items without a matching property are omitted. Setting or deleting one item's property never affects another item, another name, or the same-named property of an item of the other kind.",
  ["histories","inputs","configurations"],"every history of set/overwrite/delete over vertices and edges, names that are prefixes of each other, ids at the extremes of the id space, edges sharing endpoints or types, on both datastores",
  "Tests set one property on one item and read it back; neighbouring keys (prefix names, adjacent ids, the maximum id) and long overwrite/delete histories are not covered.",
  [D,M,R,RM],[("vertex_property, all_vertex_properties_for_vertex, edge equivalents",M),("VertexPropertyManager, EdgePropertyManager key layout",RM)],["Database::set_properties","Database::get(PipePropertyQuery)"]),
P("C06","Index queries agree with the current properties",
  "Once a property name is indexed, every presence or value query on it - as a source or as a filter, positive or negated, on vertices or edges - returns exactly the existing items whose current properties satisfy it, no matter whether values were set before or after indexing, overwritten, deleted, or removed with their owner. Querying a name that was never indexed fails with the not-indexed error rather than returning anything, and indexing a name twice changes nothing.",
  ["histories","inputs","configurations"],"every interleaving of index creation with sets, overwrites, deletes, owner deletion and re-creation, on both datastores, in builds with and without debug assertions",
  "Tests index one name, set one value and query it; stale index entries appear only after specific multi-step histories, and some index maintenance is compiled only in debug builds, which is the only configuration tested.",
  [M,R,RM,D],[("property_values container",M),("VertexPropertyValueManager, EdgePropertyValueManager",RM),("index_property",R)],["Database::get(VertexWithProperty*, EdgeWithProperty*, PipeWithProperty*)"],
  [("property index","name -> value -> members","lib/src/memory/datastore.rs property_values; *_property_values:v2 column families")]),
P("C07","Values are stored faithfully and matched by JSON equality",
  "Any JSON value set as a property is read back as the same JSON value (same structure, same integers, same text). A value query matches exactly the items whose current value is that same JSON value: structurally different values - nested versus flat arrays or objects, numbers versus strings, integers versus floats, values differing deep inside - never match each other, in either datastore.",
  ["inputs","configurations"],"every pair of JSON values a client can write, including nesting variants, empty containers, unicode text, integer extremes and signed zero, on both datastores and across reopening",
  "Tests use a few scalars; equality over pairs of nested values with equal flattened contents, or numerically equal integers and floats, is not sampled.",
  [J,U,M,RM],[("Json equality and hashing",J),("value hash in index keys",U)],["Database::set_properties","Database::get(*WithPropertyValueQuery)"]),
P("C08","Compound queries have the documented output shape and counts",
  "The result of a query is the sequence of outputs of its explicitly included intermediate steps, innermost first, followed by the final output; including a step never changes any other output. A count equals the number of items its inner query returns, and a compound query returns what evaluating its steps one after another would; a query whose steps do not fit together fails with an error instead of returning a result.",
  ["inputs","histories","configurations"],"every nesting of query kinds (scans, lookups, ranges, pipes, property filters, property reads, include, count) over every reachable graph, both datastores, including ill-typed nestings",
  "The query language is recursive; tests cover about ten fixed shapes on one fixture.",
  [D,Q],[("recursive query evaluation",D),("query constructors",Q)],["Database::get","query builder functions"]),
P("C09","A failed operation changes nothing and leaves the database usable",
  "An operation that returns an error - a query on an unindexed property, a mutation through a query of the wrong kind, an ill-typed nesting - has no effect on the graph, its properties or its indexes. No operation built through the public API crashes or leaves the database unable to answer later operations.",
  ["histories","inputs","configurations"],"every operation, valid or failing, in every reachable state, on both datastores, in builds with and without debug assertions",
  "Tests check that an error is returned, not that the state is untouched and the datastore still works afterwards, nor extreme ids and values that trip internal assertions.",
  [D,M,R],[("query evaluated before any mutation",D),("mutex around the whole store",M)],["Database::*"]),
P("C10","Bulk insert equals inserting its items one by one",
  "A bulk insert whose items refer only to vertices and edges that exist or are inserted earlier in the same request, and which does not re-type existing vertices, leaves exactly the state that the corresponding individual operations in the same order would, including indexes and repeated writes of one property. In the in-memory datastore this also holds for items that refer to missing vertices: such edges are not inserted.",
  ["inputs","histories","configurations"],"every sequence of items, with repeated items, several writes to one property, indexed names, new and existing owners, in every state, on both datastores",
  "Tests bulk insert one fixture into an empty database; batches that touch the same indexed property twice or existing items are not tried.",
  [D,R,RM],[("default bulk_insert",D),("bulk_insert over one write batch",R)],["Database::bulk_insert"]),
P("C11","A synced in-memory database reloads to the same graph and indexes",
  "After a successful sync of an in-memory database with a persist path, loading that path yields a database indistinguishable by any query from the one at the moment of the sync - vertices, edges, properties and indexes - and operations not followed by a sync do not appear. The loaded database keeps working as if it had never been closed, and can be synced again to the same path wherever the system's temporary directory is.",
  ["histories","inputs","configurations"],"every history of operations with any placement of syncs and reloads, any property values and identifiers, and temporary directories on the same or another filesystem",
  "The suite's sync test syncs an empty-path datastore and never reads an image back in.",
  [M],[("MemoryTransaction::sync, read_msgpack_db",M)],["Database::sync","MemoryDatastore::read_msgpack_db"]),
P("C12","An interrupted or failed sync never damages the last good image",
  "If the process dies at any point during a sync, or a write fails part-way (disk full, file size limit), the image at the persist path is afterwards either the previous complete image or the new complete image, never absent, truncated or mixed. A sync that could not store the complete image reports an error.",
  ["crash_points","fault_sequences"],"every point at which the process can be killed and every byte offset at which writing can start to fail during a sync, for any pair of old and new states",
  "No test interrupts a sync or injects a write failure.",
  [M],[("write to a temporary file, then rename over the image",M)],["file at the persist path","Database::sync"]),
P("C13","RocksDB keeps every acknowledged operation, whole, across crashes",
  "After a process using the RocksDB datastore is closed or killed at any moment and the path is opened again, the database contains the effect of every operation that had returned, and of any operation in progress either all or nothing; indexes, indexed names and adjacency are consistent with that state. Opening succeeds whenever the process was killed, including during the first creation, and an offline repair loses nothing.",
  ["crash_points","histories","configurations"],"every history and every kill point between or inside operations, including cascading deletes, bulk inserts, indexing of existing data, syncs and initial creation; clean close, kill and repair",
  "Tests never reopen a database; multi-key operations interrupted half-way are unobservable to them.",
  [R,RM],[("one WriteBatch per operation",R),("MetadataManager indexed property set",RM)],["RocksdbDatastore::new_db*","RocksdbDatastore::repair"]),
P("C14","The in-memory datastore is linearizable under concurrent use",
  "When threads share an in-memory database, every operation appears to take effect atomically at one instant between its call and its return: there is one sequential order, consistent with real time, of which all results are the sequential results. In particular readers never see part of a cascading delete, bulk insert or index build.",
  ["schedules","histories"],"every schedule of any number of threads issuing any operations and compound queries on one shared in-memory database",
  "All tests are single-threaded.",
  [M,D],[("one mutex guard per transaction",M),("query and mutation in one transaction",D)],["Database shared across threads"]),
P("C15","Concurrent RocksDB use keeps the graph and indexes consistent",
  "When threads share a RocksDB database, the operations that write named items (creations, property writes, bulk inserts, index creations, and deletions of items named in the request) are equivalent to some sequential order of them consistent with real time: exactly one of several concurrent creations of a vertex id reports success, and once all operations have returned no edge refers to a missing vertex, no property belongs to a missing item, both directions of adjacency agree and indexes match the properties. No operation fails, blocks forever or crashes because of others.",
  ["schedules","histories"],"every schedule of concurrent creates, deletes, property writes, index creation and bulk inserts over shared ids",
  "All tests are single-threaded; every read-check-then-write window is invisible to them.",
  [R,RM],[("write batches computed from earlier reads",R),("indexed_properties lock",R)],["Database shared across threads"]),
P("C16","The gRPC client and server are transparent",
  "Every operation performed through the gRPC client has the same effect and result as the same operation performed directly on the server's database: ids, identifiers, JSON values, limits, counts, filters, output order and included outputs all arrive unchanged, and an operation that fails directly fails through the client with the same message.",
  ["inputs","histories","configurations"],"every operation and query expressible through the client, in every state, for messages within the transport's size limit and JSON and query nesting within the nesting limits of the parsers used",
  "The remote tests reuse the fixed library suite, whose inputs leave most message fields at values that hide swapped, dropped or defaulted fields.",
  [X,S,C,"proto/indradb.proto"],[("conversions between wire and native types",X),("request handlers",S),("Client methods",C)],["indradb_proto::Client"]),
P("C17","Malformed requests are refused without effect",
  "A wire request that is not a well-formed operation - missing fields, ids of the wrong length, invalid or over-long identifiers, unparsable JSON, an absent query or bulk item anywhere in the stream - is refused with the invalid-argument status and has no effect at all, even when other items of the same bulk stream were well formed. The server keeps serving correctly afterwards, and a well-formed request (within the message size and nesting limits of the transport) is never refused as malformed.",
  ["inputs","histories"],"every malformation at every position of every request type, including every position of a bulk stream, interleaved with valid requests",
  "Tests only send well-formed requests.",
  [S,X],[("map_conversion_result",S),("TryInto conversions",X)],["raw gRPC requests"]),
P("C18","Each gRPC call is atomic and ordered under concurrent clients",
  "With several clients of one server, every call on an in-memory database (and every writing call that names its items on a RocksDB database) behaves as one atomic operation that takes effect between its request and its response, so that all observed results fit one sequential order consistent with real time. A bulk insert stream that is broken off before its end has no effect.",
  ["schedules","histories","fault_sequences"],"every schedule of concurrent clients issuing any calls, with bulk streams cut at any item, against a server with an in-memory database; writing calls against one with a RocksDB database",
  "The suite uses one client issuing one call at a time.",
  [S,C],[("spawn_blocking per call, whole stream collected before insertion",S)],["concurrent gRPC clients"]),
P("C19","Plugins run by name on the server's database and report faithfully",
  "Executing a plugin by name runs the plugin registered under that name once, with exactly the argument given (null if none), on the server's current database, and returns exactly its JSON result; what the plugin reads and writes is the same graph clients see, and its writes are visible to later operations. Unknown names give a not-found error, a plugin that returns an error makes the call fail with that error's message, and neither disturbs the server.",
  ["histories","inputs"],"every sequence of plugin calls, with any arguments, results and errors, and client operations, with several plugin libraries loaded",
  "The integration test calls two demo plugins once each; no plugin that reads or writes through its transaction is exercised.",
  [S,PD,"plugins/hello_world/src/lib.rs","plugins/naive_vertex_count/src/lib.rs",I],[("execute_plugin, plugin registry",S),("register_plugins!",PD)],["Client::execute_plugin"]),
P("C20","The plugin vertex map visits every vertex exactly once",
  "Mapping an operation over the database's vertices calls it, with id and type, for vertices existing at that time only, at most once each - exactly once each if no call fails - and has finished all calls when it returns, whatever the number of threads requested. It returns success if and only if every vertex was visited and every call succeeded; otherwise an error, which is one that occurred (a panicking call counts as failed).",
  ["schedules","inputs","histories"],"every vertex population (empty, below, at and above internal batch sizes), thread count, and set of failing vertices",
  "Only one successful count over a small database is tested.",
  [PH],[("map over a thread pool",PH)],["indradb_plugin_host::util::map"]),
P("C21","Identifiers are validated identically at every entry point",
  "A string is accepted as a type or property name exactly when it is at most 255 bytes long and consists only of Unicode letters, Unicode digits, dashes and underscores, at every entry point that accepts text (constructors, parsing, and the wire). Accepted identifiers of any length and script survive storage, reload and the wire unchanged and are equal exactly when their text is.",
  ["inputs","configurations"],"every string, in particular those at the length limit, multi-byte characters and near-miss characters, on every entry point and datastore",
  "Tests try three strings on two constructors.",
  [I,U,X],[("Identifier::new and conversions",I),("length-prefixed encoding",U)],["Identifier::new, FromStr, TryFrom","wire Identifier"]),
P("C22","Generated vertex ids are unique",
  "Vertices created without an explicit id always succeed and receive an id distinct from every id generated before or at the same time in the process, and the created vertex has the requested type. Incrementing an id yields the immediate successor in id order, and fails only for the largest id.",
  ["schedules","inputs","histories"],"every number of threads generating ids in bursts as fast as they can (up to the 16384 ids that version 1 ids allow per clock tick), directly, through any datastore or through the server; every 128-bit id for the successor",
  "The test generates two ids on one thread and increments one id.",
  [U,V,D],[("generate_uuid_v1 shared context",U),("next_uuid",U),("create_vertex_from_type",D)],["Database::create_vertex_from_type","util::generate_uuid_v1","util::next_uuid"]),
P("C23","The transaction interface used by plugins obeys the same graph semantics",
  "Each operation of the datastore transaction interface - scans and ranges over vertices, edges and reversed edges from any offset, lookups, property reads, index lookups, counts, and all mutations - returns and changes exactly what the same graph state defines, and is consistent with the query interface. Edge scans and ranges are in one total order grouped by first endpoint, then type, then second endpoint, and a range from any offset is exactly the part of that order from the offset on.",
  ["inputs","histories","configurations"],"every transaction method, offset (existing or not) and state, on both datastores",
  "Transaction methods are only exercised indirectly, through a few queries.",
  [D,M,R,RM],[("Transaction trait",D)],["Datastore::transaction()"]),
P("C24","Data written by this release stays readable",
  "An in-memory image or RocksDB directory written by the current release opens in the changed code and shows, through every query including index queries and traversals, exactly the graph that was stored, and can be further modified and reopened.",
  ["histories","inputs","configurations"],"every stored graph, represented by a corpus of images and directories written by the base version covering all value kinds, identifier lengths, id extremes and indexes",
  "Tests only read data they wrote with the same code, so a symmetric change of the stored format passes them all.",
  [M,RM,U],[("msgpack image layout",M),("column family names and key/value encoding",RM),("Component encoding",U)],["MemoryDatastore::read_msgpack_db","RocksdbDatastore::new_db"]),
P("C25","The server and command-line client expose the database faithfully",
  "The server program started on a datastore path serves exactly the data previously stored there and nothing else, and after any restart (following a sync for the in-memory datastore, at any moment for RocksDB) serves the same graph again. Every command of the command-line client performs exactly its operation on the item named by its arguments, prints the result, and fails visibly on bad arguments or failed creations.",
  ["histories","inputs","configurations"],"every sequence of server starts, restarts and client commands over both datastores and their options",
  "The server and client binaries have no tests beyond plugin calls.",
  ["server/src/main.rs","server/src/cli.rs","client/src/main.rs"],[("datastore selection by arguments","server/src/main.rs"),("command dispatch","client/src/main.rs")],["indradb-server process","indradb-client process"]),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(props))
