From 740f103e84a63f0b46d24b9ac994a1ed37be680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 01/16] fix: remove memory index entries in release builds too

The removal was the argument of debug_assert!, so builds without debug
assertions kept index entries of deleted and overwritten property values.
---
 lib/src/memory/datastore.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index d76a8e2..0de706f 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -263,10 +263,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.vertex_properties.remove(&prop) {
                 let (property_vertex_id, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Vertex(property_vertex_id)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
+                    }
                 }
             }
         }
@@ -278,10 +277,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                 let (property_edge, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Edge(property_edge)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Edge(property_edge));
+                    }
                 }
             }
         }
-- 
2.43.0


From 9476e2e7009580e3cec49ae9a1f2e04038a3769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 02/16] fix: delete the inbound edges of a deleted vertex in
 RocksDB

Edges read from the reversed range were deleted with their endpoints
swapped, leaving the real edges, their properties and index entries.
---
 lib/src/rdb/managers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 6707782..5f460c5 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -118,7 +118,7 @@ impl<'a> VertexManager<'a> {
             for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
                 let edge = item?;
                 debug_assert_eq!(edge.outbound_id, id);
-                edge_manager.delete(batch, indexed_properties, &edge)?;
+                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;
             }
         }
 
-- 
2.43.0


From 95a16dc8c2cbd9d9b4743afb1058bd8b72be2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 03/16] fix: make JSON equality consistent with its hash

An integer was equal to the float of the same magnitude (and -0.0 to 0.0)
although they are different JSON values with different hashes, so memory
index lookups matched them depending on hash table layout.
---
 lib/src/models/json.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/src/models/json.rs b/lib/src/models/json.rs
index 4e35657..b861c77 100644
--- a/lib/src/models/json.rs
+++ b/lib/src/models/json.rs
@@ -56,6 +56,16 @@ fn hash<H: Hasher>(value: &serde_json::Value, state: &mut H) {
     }
 }
 
+/// Compares an integer to a float. An integer is not the same JSON value as a
+/// float, and does not have the same hash, so it is ordered before the float if
+/// they're numerically equal.
+fn cmp_int_and_float(int: f64, float: f64) -> Option<Ordering> {
+    match int.partial_cmp(&float) {
+        Some(Ordering::Equal) => Some(Ordering::Less),
+        non_eq => non_eq,
+    }
+}
+
 fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<Ordering> {
     match (first, second) {
         (serde_json::Value::Null, serde_json::Value::Null) => Some(Ordering::Equal),
@@ -71,7 +81,7 @@ fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<
                         Err(_) => Some(Ordering::Less),
                     }
                 } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
+                    cmp_int_and_float(v1 as f64, v2.as_f64().unwrap())
                 }
             } else if v1.is_u64() {
                 let v1 = v1.as_u64().unwrap();
@@ -83,16 +93,21 @@ fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<
                 } else if v2.is_u64() {
                     v1.partial_cmp(&v2.as_u64().unwrap())
                 } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
+                    cmp_int_and_float(v1 as f64, v2.as_f64().unwrap())
                 }
             } else {
                 let v1 = v1.as_f64().unwrap();
                 if v2.is_i64() {
-                    v1.partial_cmp(&(v2.as_i64().unwrap() as f64))
+                    cmp_int_and_float(v2.as_i64().unwrap() as f64, v1).map(Ordering::reverse)
                 } else if v2.is_u64() {
-                    v1.partial_cmp(&(v2.as_u64().unwrap() as f64))
+                    cmp_int_and_float(v2.as_u64().unwrap() as f64, v1).map(Ordering::reverse)
                 } else {
-                    v1.partial_cmp(&v2.as_f64().unwrap())
+                    // Only `-0.0` and `0.0` are equal but have a different total order
+                    let v2 = v2.as_f64().unwrap();
+                    match v1.partial_cmp(&v2) {
+                        Some(Ordering::Equal) => Some(v1.total_cmp(&v2)),
+                        non_eq => non_eq,
+                    }
                 }
             }
         }
-- 
2.43.0


From f2a28f2bf087f1d9bcf41541351e9cda1b9594f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 04/16] fix: read the properties of the vertex with the largest
 id

The memory datastore computed the id following the vertex's, which does
not exist for the largest id, and panicked while holding its lock.
---
 lib/src/memory/datastore.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 0de706f..827f9d0 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -6,7 +6,6 @@ use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
 use crate::errors::{Error, Result};
-use crate::util;
 use crate::{Database, Datastore, DynIter, Edge, Identifier, Json, Transaction, Vertex};
 
 use rmp_serde::decode::Error as RmpDecodeError;
@@ -176,8 +175,10 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
     fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>> {
         let mut vertex_properties = Vec::new();
         let from = &(vertex.id, Identifier::default());
-        let to = &(util::next_uuid(vertex.id).unwrap(), Identifier::default());
-        for ((_prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..to) {
+        for ((prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..) {
+            if *prop_vertex_id != vertex.id {
+                break;
+            }
             vertex_properties.push((*prop_name, prop_value.clone()));
         }
         Ok(Box::new(vertex_properties.into_iter().map(Ok)))
-- 
2.43.0


From c5021a70dc820b3d23cca7a493ecd5f94db40c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 05/16] fix: only return existing edges from memory property
 presence lookups

As property value lookups already do.
---
 lib/src/memory/datastore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 827f9d0..00d0305 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -136,8 +136,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             let mut edges = HashSet::<Edge>::default();
             for sub_container in container.values() {
                 for member in sub_container {
-                    if let IndexedPropertyMember::Edge(edge) = member {
-                        edges.insert(edge.clone());
+                    match member {
+                        IndexedPropertyMember::Edge(edge) if self.internal.edges.contains(edge) => {
+                            edges.insert(edge.clone());
+                        }
+                        _ => {}
                     }
                 }
             }
-- 
2.43.0


From 288da28e3861940896ad8255de83f92c432ed32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 06/16] fix: sync the memory image via its own directory, and
 report failed writes

The temporary file was created in the system's temporary directory, from
which it cannot be renamed if that is on another filesystem; and errors of
the last buffered write were dropped, replacing the image by a truncated one.
---
 lib/src/memory/datastore.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 00d0305..b402f40 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,7 +1,7 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
-use std::path::PathBuf;
+use std::io::{BufReader, BufWriter, Write};
+use std::path::{Path, PathBuf};
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
@@ -292,10 +292,17 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
 
     fn sync(&self) -> Result<()> {
         if let Some(ref persist_path) = self.path {
-            let temp_path = NamedTempFile::new().map_err(|err| Error::Datastore(Box::new(err)))?;
+            // The temporary file has to be on the same filesystem as the image
+            // in order to be atomically renamed
+            let dir = match persist_path.parent() {
+                Some(dir) if !dir.as_os_str().is_empty() => dir,
+                _ => Path::new("."),
+            };
+            let temp_path = NamedTempFile::new_in(dir).map_err(|err| Error::Datastore(Box::new(err)))?;
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
+                buf.flush()?;
             }
             temp_path
                 .persist(persist_path)
-- 
2.43.0


From e880329fc071c19f37c7971daef6c1224ad6d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 07/16] fix: apply only the last value of a property in a
 RocksDB bulk insert

Each write removed the index entry of the stored value, not of the value
written earlier in the same batch, leaving stale index entries.
---
 lib/src/rdb/datastore.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 7bb989d..dc419d0 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use std::sync::{Arc, RwLock};
 
@@ -283,6 +283,11 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
+        // Setting a property replaces its currently stored value in the
+        // indexes, so only the last value of each property can be applied.
+        let mut vertex_properties = HashMap::new();
+        let mut edge_properties = HashMap::new();
+
         for item in items {
             match item {
                 BulkInsertItem::Vertex(ref vertex) => {
@@ -291,17 +296,24 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
                 BulkInsertItem::Edge(ref edge) => {
                     self.edge_manager.set(&mut batch, edge)?;
                 }
-                BulkInsertItem::VertexProperty(id, ref name, ref value) => {
-                    self.vertex_property_manager
-                        .set(&mut batch, &indexed_properties, id, *name, value)?;
+                BulkInsertItem::VertexProperty(id, name, value) => {
+                    vertex_properties.insert((id, name), value);
                 }
-                BulkInsertItem::EdgeProperty(ref edge, ref name, ref value) => {
-                    self.edge_property_manager
-                        .set(&mut batch, &indexed_properties, edge, *name, value)?;
+                BulkInsertItem::EdgeProperty(edge, name, value) => {
+                    edge_properties.insert((edge, name), value);
                 }
             }
         }
 
+        for ((id, name), value) in vertex_properties.iter() {
+            self.vertex_property_manager
+                .set(&mut batch, &indexed_properties, *id, *name, value)?;
+        }
+        for ((edge, name), value) in edge_properties.iter() {
+            self.edge_property_manager
+                .set(&mut batch, &indexed_properties, edge, *name, value)?;
+        }
+
         self.db.write(batch)?;
         Ok(())
     }
-- 
2.43.0


From af8f8ec17314b790d4bc6f0ca274c05e2475243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 08/16] fix: only return existing edges from RocksDB property
 lookups

As vertex lookups, and edge lookups in the memory datastore, already do.
---
 lib/src/rdb/datastore.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index dc419d0..5656aa7 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -48,6 +48,20 @@ impl<'a> RocksdbTransaction<'a> {
             Err(err) => Some(Err(err)),
         })
     }
+
+    fn edges_from_property_value_iterator(
+        &'a self,
+        iter: impl Iterator<Item = Result<EdgePropertyValueKey>> + 'a,
+    ) -> impl Iterator<Item = Result<Edge>> + 'a {
+        iter.filter_map(|item| match item {
+            Ok((_, _, edge)) => match self.edge_range_manager.contains(&edge) {
+                Ok(true) => Some(Ok(edge)),
+                Ok(false) => None,
+                Err(err) => Some(Err(err)),
+            },
+            Err(err) => Some(Err(err)),
+        })
+    }
 }
 
 impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
@@ -134,13 +148,8 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
-            let iter = self
-                .edge_property_value_manager
-                .iterate_for_name(name)
-                .map(|r| match r {
-                    Ok((_, _, e)) => Ok(e),
-                    Err(err) => Err(err),
-                });
+            let iter = self.edge_property_value_manager.iterate_for_name(name);
+            let iter = self.edges_from_property_value_iterator(iter);
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -149,13 +158,8 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
-            let iter = self
-                .edge_property_value_manager
-                .iterate_for_value(name, value)
-                .map(|r| match r {
-                    Ok((_, _, e)) => Ok(e),
-                    Err(err) => Err(err),
-                });
+            let iter = self.edge_property_value_manager.iterate_for_value(name, value);
+            let iter = self.edges_from_property_value_iterator(iter);
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
-- 
2.43.0


From c78b0c5bcf177cf984d3a5602e29e4b0ff7faf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 09/16] fix: compare the stored value in RocksDB property value
 lookups

The index has a hash of the value only, and the hash of nested values does
not delimit them, so e.g. [[1],2] matched [[1,2]].
---
 lib/src/rdb/datastore.rs | 20 ++++++++++++++++++++
 lib/src/rdb/managers.rs  | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 5656aa7..9164d5d 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -102,8 +102,18 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn vertex_ids_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Uuid>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
+            // The index only has a hash of the value
+            let value_json = serde_json::to_vec(value)?;
             let iter = self.vertex_property_value_manager.iterate_for_value(name, value);
             let iter = self.vertex_ids_from_property_value_iterator(iter);
+            let iter = iter.filter_map(move |item| match item {
+                Ok(id) => match self.vertex_property_manager.has_value(id, name, &value_json) {
+                    Ok(true) => Some(Ok(id)),
+                    Ok(false) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -158,8 +168,18 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
+            // The index only has a hash of the value
+            let value_json = serde_json::to_vec(value)?;
             let iter = self.edge_property_value_manager.iterate_for_value(name, value);
             let iter = self.edges_from_property_value_iterator(iter);
+            let iter = iter.filter_map(move |item| match item {
+                Ok(edge) => match self.edge_property_manager.has_value(&edge, name, &value_json) {
+                    Ok(true) => Some(Ok(edge)),
+                    Ok(false) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 5f460c5..8edf005 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -340,6 +340,11 @@ impl<'a> VertexPropertyManager<'a> {
         }
     }
 
+    pub fn has_value(&self, vertex_id: Uuid, name: models::Identifier, value_json: &[u8]) -> Result<bool> {
+        let value_bytes = self.db.get_cf(&self.cf, self.key(vertex_id, name))?;
+        Ok(value_bytes.as_deref() == Some(value_json))
+    }
+
     pub fn set(
         &self,
         batch: &mut WriteBatch,
@@ -454,6 +459,11 @@ impl<'a> EdgePropertyManager<'a> {
         }
     }
 
+    pub fn has_value(&self, edge: &models::Edge, name: models::Identifier, value_json: &[u8]) -> Result<bool> {
+        let value_bytes = self.db.get_cf(&self.cf, self.key(edge, name))?;
+        Ok(value_bytes.as_deref() == Some(value_json))
+    }
+
     pub fn set(
         &self,
         batch: &mut WriteBatch,
-- 
2.43.0


From 1fbca97511f2519b16f32b253f60b86efb3ecb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 10/16] fix: serialize RocksDB writes

Writes compute their batches from earlier reads, but ran concurrently, so
that e.g. an edge or a property could be left on a vertex deleted meanwhile,
or two concurrent writes of a property both stay in its index.
---
 lib/src/rdb/datastore.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 9164d5d..ab48d57 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -22,6 +22,8 @@ const CF_NAMES: [&str; 8] = [
 
 pub struct RocksdbTransaction<'a> {
     db: &'a DB,
+    // This is exclusively locked by all writes, because the batches they write
+    // depend on what they read before.
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
     vertex_manager: VertexManager<'a>,
     edge_manager: EdgeManager<'a>,
@@ -215,7 +217,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertices(&mut self, vertices: Vec<Vertex>) -> Result<()> {
-        let indexed_properties = self.indexed_properties.read().unwrap();
+        let indexed_properties = self.indexed_properties.write().unwrap();
         let mut batch = WriteBatch::default();
 
         for vertex in vertices.into_iter() {
@@ -227,7 +229,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edges(&mut self, edges: Vec<Edge>) -> Result<()> {
-        let indexed_properties = self.indexed_properties.read().unwrap();
+        let indexed_properties = self.indexed_properties.write().unwrap();
         let mut batch = WriteBatch::default();
 
         for edge in edges.into_iter() {
@@ -241,7 +243,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertex_properties(&mut self, props: Vec<(Uuid, Identifier)>) -> Result<()> {
-        let indexed_properties = self.indexed_properties.read().unwrap();
+        let indexed_properties = self.indexed_properties.write().unwrap();
         let mut batch = WriteBatch::default();
 
         for (id, name) in props.into_iter() {
@@ -254,7 +256,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> Result<()> {
-        let indexed_properties = self.indexed_properties.read().unwrap();
+        let indexed_properties = self.indexed_properties.write().unwrap();
         let mut batch = WriteBatch::default();
 
         for (edge, name) in props.into_iter() {
@@ -280,6 +282,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_vertex(&mut self, vertex: &Vertex) -> Result<bool> {
+        let _indexed_properties = self.indexed_properties.write().unwrap();
         if self.vertex_manager.exists(vertex.id)? {
             Ok(false)
         } else {
@@ -291,6 +294,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_edge(&mut self, edge: &Edge) -> Result<bool> {
+        let _indexed_properties = self.indexed_properties.write().unwrap();
         if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {
             Ok(false)
         } else {
@@ -304,7 +308,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     // We override the default `bulk_insert` implementation because further
     // optimization can be done by using `WriteBatch`s.
     fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> Result<()> {
-        let indexed_properties = self.indexed_properties.read().unwrap();
+        let indexed_properties = self.indexed_properties.write().unwrap();
         let mut batch = WriteBatch::default();
 
         // Setting a property replaces its currently stored value in the
@@ -373,22 +377,28 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<()> {
-        let indexed_properties = self.indexed_properties.read().unwrap();
+        let indexed_properties = self.indexed_properties.write().unwrap();
         let mut batch = WriteBatch::default();
         for id in vertices.into_iter() {
-            self.vertex_property_manager
-                .set(&mut batch, &indexed_properties, id, name, value)?;
+            // It may have been deleted since it was queried
+            if self.vertex_manager.exists(id)? {
+                self.vertex_property_manager
+                    .set(&mut batch, &indexed_properties, id, name, value)?;
+            }
         }
         self.db.write(batch)?;
         Ok(())
     }
 
     fn set_edge_properties(&mut self, edges: Vec<Edge>, name: Identifier, value: &Json) -> Result<()> {
-        let indexed_properties = self.indexed_properties.read().unwrap();
+        let indexed_properties = self.indexed_properties.write().unwrap();
         let mut batch = WriteBatch::default();
         for edge in edges.into_iter() {
-            self.edge_property_manager
-                .set(&mut batch, &indexed_properties, &edge, name, value)?;
+            // It may have been deleted since it was queried
+            if self.edge_range_manager.contains(&edge)? {
+                self.edge_property_manager
+                    .set(&mut batch, &indexed_properties, &edge, name, value)?;
+            }
         }
         self.db.write(batch)?;
         Ok(())
-- 
2.43.0


From 5cfabd94faa151596f3fa781f6108736d5b0fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 11/16] fix: open a RocksDB datastore whose creation was
 interrupted

If only some of the column families had been created, neither opening with
all nor with none of them succeeds.
---
 lib/src/rdb/datastore.rs | 46 +++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index ab48d57..d2d0313 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -405,6 +405,26 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 }
 
+/// Opens the database, creating those of its column families that are missing:
+/// all if the database is new, or some if its creation was interrupted.
+fn open_db(opts: &Options, path: &Path) -> Result<DB> {
+    match DB::open_cf(opts, path, CF_NAMES) {
+        Ok(db) => Ok(db),
+        Err(_) => {
+            let existing = DB::list_cf(opts, path).unwrap_or_default();
+            let mut db = DB::open_cf(opts, path, &existing)?;
+
+            for cf_name in &CF_NAMES {
+                if !existing.iter().any(|name| name == cf_name) {
+                    db.create_cf(cf_name, opts)?;
+                }
+            }
+
+            Ok(db)
+        }
+    }
+}
+
 /// A datastore that is backed by rocksdb.
 #[derive(Debug)]
 pub struct RocksdbDatastore {
@@ -421,18 +441,7 @@ impl RocksdbDatastore {
         let opts = RocksdbDatastore::get_options(None);
         let path = path.as_ref();
 
-        let db = match DB::open_cf(&opts, path, CF_NAMES) {
-            Ok(db) => db,
-            Err(_) => {
-                let mut db = DB::open(&opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, &opts)?;
-                }
-
-                db
-            }
-        };
+        let db = open_db(&opts, path)?;
 
         let metadata_manager = MetadataManager::new(&db);
         let indexed_properties = metadata_manager.get_indexed_properties()?;
@@ -451,18 +460,7 @@ impl RocksdbDatastore {
     pub fn new_db_with_options<P: AsRef<Path>>(path: P, opts: &Options) -> Result<Database<RocksdbDatastore>> {
         let path = path.as_ref();
 
-        let db = match DB::open_cf(opts, path, CF_NAMES) {
-            Ok(db) => db,
-            Err(_) => {
-                let mut db = DB::open(opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, opts)?;
-                }
-
-                db
-            }
-        };
+        let db = open_db(opts, path)?;
 
         let metadata_manager = MetadataManager::new(&db);
         let indexed_properties = metadata_manager.get_indexed_properties()?;
-- 
2.43.0


From a8a6fa81547658d95e106a199b76e0957bce88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 12/16] fix: keep logged writes when repairing a RocksDB
 datastore

The repair only knows the column families that have table files, and
dropped everything that was still in the write-ahead log for others.
---
 lib/src/rdb/datastore.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index d2d0313..2f97ac0 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -477,6 +477,21 @@ impl RocksdbDatastore {
     /// * `path`: The file path to the rocksdb database.
     /// * `opts`: The rocksdb options used on datastore.
     pub fn repair<P: AsRef<Path>>(path: P, opts: &Options) -> Result<()> {
+        let path = path.as_ref();
+
+        // The repair drops the logged writes of column families that have no
+        // table file yet, so move them to table files first, if the database
+        // can still be opened
+        if let Ok(cf_names) = DB::list_cf(opts, path) {
+            if let Ok(db) = DB::open_cf(opts, path, &cf_names) {
+                for cf_name in &cf_names {
+                    if let Some(cf) = db.cf_handle(cf_name) {
+                        db.flush_cf(cf)?;
+                    }
+                }
+            }
+        }
+
         DB::repair(opts, path)?;
         Ok(())
     }
-- 
2.43.0


From ae5127bcebae74e66224752ad16dd96401d32957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 13/16] fix: do not insert a bulk stream that the client
 cancelled

---
 proto/src/server.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index fdd0451..17a4fff 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -272,6 +272,12 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
             items
         };
 
+        // A stream that the client cancels looks like one that ended. Suspend
+        // once before inserting, because the server drops suspended calls that
+        // have been cancelled, so that items of an incomplete request are not
+        // inserted.
+        tokio::task::yield_now().await;
+
         map_jh_indra_result(tokio::task::spawn_blocking(move || db.bulk_insert(items)).await)?;
         Ok(Response::new(()))
     }
-- 
2.43.0


From 5e8f5f97567b801f644c1362e5e09d63ac83d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 14/16] fix: compare and hash identifiers by their text

---
 lib/src/models/identifiers.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/src/models/identifiers.rs b/lib/src/models/identifiers.rs
index abc494b..6104f9b 100644
--- a/lib/src/models/identifiers.rs
+++ b/lib/src/models/identifiers.rs
@@ -1,4 +1,5 @@
 use std::convert::TryFrom;
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 use std::str::FromStr;
 
@@ -10,9 +11,23 @@ use serde::{Deserialize, Deserializer, Serialize, Serializer};
 /// A string that must be less than 256 characters long, and can only contain
 /// letters, numbers, dashes and underscores. This is used for vertex and edge
 /// types, as well as property names.
-#[derive(Eq, PartialEq, Copy, Clone, Debug, Hash, Ord, PartialOrd)]
+#[derive(Eq, Copy, Clone, Debug, Ord, PartialOrd)]
 pub struct Identifier(pub(crate) Intern<String>);
 
+// Interned strings compare and hash by address, but plugin libraries have an
+// intern pool of their own, so the same text may have several addresses.
+impl PartialEq for Identifier {
+    fn eq(&self, other: &Self) -> bool {
+        self.0 == other.0 || *self.0 == *other.0
+    }
+}
+
+impl Hash for Identifier {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        (*self.0).hash(state);
+    }
+}
+
 impl Identifier {
     /// Constructs a new identifier.
     ///
-- 
2.43.0


From 68719b8e4c44e174833ff97b16ff4767409303f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 15/16] fix: report panicked calls of a plugin's vertex map

---
 plugins/host/src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugins/host/src/util.rs b/plugins/host/src/util.rs
index 7898486..588aeb7 100644
--- a/plugins/host/src/util.rs
+++ b/plugins/host/src/util.rs
@@ -63,6 +63,8 @@ pub fn map<'a, M: VertexMapper>(txn: &(dyn indradb::Transaction<'a> + 'a), mappe
     let mut first_err = first_err.lock().unwrap();
     if first_err.is_some() {
         Err(first_err.take().unwrap())
+    } else if pool.panic_count() > 0 {
+        Err(Error::Other("a map operation panicked".into()))
     } else {
         Ok(())
     }
-- 
2.43.0


From 50c13923ad576954affc8bd0cc8deb886337b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 16/16] fix: refuse pipe queries with an unknown direction

---
 proto/src/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/src/converters.rs b/proto/src/converters.rs
index dcfe8ce..f9cd819 100644
--- a/proto/src/converters.rs
+++ b/proto/src/converters.rs
@@ -300,7 +300,7 @@ impl TryInto<indradb::Query> for crate::Query {
             }
 
             crate::QueryVariant::Pipe(q) => {
-                let direction = q.direction().into();
+                let direction = required_field("direction", crate::EdgeDirection::try_from(q.direction).ok())?.into();
                 let limit = q.limit;
                 let t = q.t.map(|t| t.try_into()).transpose()?;
                 let inner = required_field("inner", q.inner)?;
-- 
2.43.0

