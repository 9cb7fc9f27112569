From 6f09609f8dbfe3435890331a49b89704193d18aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 01/84] fix: retracting an absent value of a cardinality-one
 attribute must not retract the present one

---
 db/src/db.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 8b7401e..4730d6a 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -661,7 +661,9 @@ fn search(conn: &rusqlite::Connection) -> Result<()> {
       FROM temp.inexact_searches AS t
       LEFT JOIN datoms AS d
       ON t.e0 = d.e AND
-         t.a0 = d.a"#;
+         t.a0 = d.a AND
+         -- An assertion replaces whatever value is present, but a retraction names its value.
+         (t.added0 IS 1 OR (t.value_type_tag0 = d.value_type_tag AND t.v0 = d.v))"#;
 
     let mut stmt = conn.prepare_cached(s)?;
     stmt.execute(rusqlite::params![])
-- 
2.43.0


From c6710144082c5186c162fae4b71743b1fcc8c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 02/84] fix: keep every assertion of an entity that upserts
 through another unique identity attribute

---
 db/src/tx.rs                | 3 +++
 db/src/upsert_resolution.rs | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 8b0a65a..eee3435 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -1110,6 +1110,9 @@ pub(crate) fn into_aev_trie<'schema>(
     inert_terms: Vec<TermWithTempIds>,
 ) -> Result<AEVTrie<'schema>> {
     let mut trie = AEVTrie::default();
+    // An entity can upsert via one `[a v]` while asserting other `[a v]` pairs, also of unique
+    // identity attributes, that are not yet in the store.
+    extend_aev_trie(schema, final_populations.upserted, &mut trie)?;
     extend_aev_trie(schema, final_populations.resolved, &mut trie)?;
     extend_aev_trie(schema, final_populations.allocated, &mut trie)?;
     // Inert terms need to be unwrapped.  It is a coding error if a term can't be unwrapped.
diff --git a/db/src/upsert_resolution.rs b/db/src/upsert_resolution.rs
index f656425..5cd826d 100644
--- a/db/src/upsert_resolution.rs
+++ b/db/src/upsert_resolution.rs
@@ -60,8 +60,8 @@ pub(crate) struct Generation {
     /// - [:db/add e b OTHERID].
     allocations: Vec<TermWithTempIds>,
 
-    /// Entities that upserted and no longer reference tempids.  These assertions are guaranteed to
-    /// be in the store.
+    /// Entities that upserted and no longer reference tempids.  At least one assertion of each
+    /// upserting tempid is guaranteed to be in the store; the others may or may not be.
     upserted: Vec<TermWithoutTempIds>,
 
     /// Entities that resolved due to other upserts and no longer reference tempids.  These
@@ -148,6 +148,7 @@ impl Generation {
         // We'll iterate our own allocations to resolve more things, but terms that have already
         // resolved stay resolved.
         next.resolved = self.resolved;
+        next.upserted = self.upserted;
 
         for UpsertE(t, a, v) in self.upserts_e {
             match temp_id_map.get(&*t) {
-- 
2.43.0


From 0c96a893b337c040f2ec823843384d6a765352e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 03/84] fix: an ident moved between entities in one transaction
 must name its new entity

---
 db/src/metadata.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/db/src/metadata.rs b/db/src/metadata.rs
index ac43939..6f1ba0d 100644
--- a/db/src/metadata.rs
+++ b/db/src/metadata.rs
@@ -412,26 +412,31 @@ where
 
     let mut idents_altered: BTreeMap<Entid, IdentAlteration> = BTreeMap::new();
 
-    // Asserted, altered, or retracted :db/idents update the relevant entids.
+    // Asserted, altered, or retracted :db/idents update the relevant entids.  An ident can move from
+    // one entity to another in a single transaction, so forget every old mapping before recording
+    // any new one.
+    for (entid, ident) in &ident_set.retracted {
+        schema.entid_map.remove(entid);
+        schema.ident_map.remove(ident);
+        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    }
+
+    for (old_ident, _new_ident) in ident_set.altered.values() {
+        schema.ident_map.remove(old_ident); // Remove old.
+    }
+
     for (entid, ident) in ident_set.asserted {
         schema.entid_map.insert(entid, ident.clone());
         schema.ident_map.insert(ident.clone(), entid);
         idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
     }
 
-    for (entid, (old_ident, new_ident)) in ident_set.altered {
+    for (entid, (_old_ident, new_ident)) in ident_set.altered {
         schema.entid_map.insert(entid, new_ident.clone()); // Overwrite existing.
-        schema.ident_map.remove(&old_ident); // Remove old.
         schema.ident_map.insert(new_ident.clone(), entid); // Insert new.
         idents_altered.insert(entid, IdentAlteration::Ident(new_ident.clone()));
     }
 
-    for (entid, ident) in &ident_set.retracted {
-        schema.entid_map.remove(entid);
-        schema.ident_map.remove(ident);
-        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
-    }
-
     // Component attributes need to change if either:
     // - a component attribute changed
     // - a schema attribute that was a component was retracted
-- 
2.43.0


From e7c2e24bfedd1fd1ac468e04f5f7533def098817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 04/84] fix: a tempid that upserted must stay resolved when a
 later upsert of it finds nothing

---
 db/src/tx.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index eee3435..3ec89ce 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -731,6 +731,9 @@ where
         // TODO: push these into an internal transaction report?
         let mut tempids: BTreeMap<TempId, KnownEntid> = BTreeMap::default();
 
+        // Every tempid resolved via upsert so far.
+        let mut resolved_temp_ids = TempIdMap::default();
+
         // Pipeline stage 3: upsert tempids -> terms without tempids or lookup refs.
         // Now we can collect upsert populations.
         let (mut generation, inert_terms) = Generation::from(terms, &self.schema)?;
@@ -747,8 +750,6 @@ where
 
             debug!("resolved avs for tempids {:?}", temp_id_map);
 
-            generation = generation.evolve_one_step(&temp_id_map);
-
             // Errors.  BTree* since we want deterministic results.
             let mut conflicting_upserts: BTreeMap<TempId, BTreeSet<KnownEntid>> =
                 BTreeMap::default();
@@ -765,6 +766,7 @@ where
                             .insert(entid);
                     }
                 }
+                resolved_temp_ids.insert(tempid, entid);
             }
 
             if !conflicting_upserts.is_empty() {
@@ -775,6 +777,10 @@ where
                 ));
             }
 
+            // A tempid stays resolved: an `UpsertEV` that turned into an `UpsertE` in this step might
+            // not be in the store even though its tempid resolved in an earlier step.
+            generation = generation.evolve_one_step(&resolved_temp_ids);
+
             debug!("tempids {:?}", tempids);
         }
 
-- 
2.43.0


From 6e5fe7af8b496b52eeb90dc5d7affed1b7196b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 05/84] fix: [:db/retract v :a/_reversed e] must retract, not
 assert

---
 db/src/tx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 3ec89ce..cd0454c 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -469,7 +469,7 @@ where
                         let reversed_a = in_process.entity_a_into_term_a(reversed_a)?;
                         let reversed_v = in_process.entity_e_into_term_v(e)?;
                         terms.push(Term::AddOrRetract(
-                            OpType::Add,
+                            op,
                             reversed_e,
                             reversed_a,
                             reversed_v,
-- 
2.43.0


From 8ee761c2c939254aaf9de219c3057140877483b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 06/84] fix: :a/_reversed notation must reject an entity that
 was never allocated

---
 db/src/tx.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index cd0454c..2f3f606 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -391,7 +391,7 @@ where
                                     Some(tempid) => Ok(Either::Right(LookupRefOrTempId::TempId(self.temp_ids.intern(tempid)))),
                                     None => {
                                         if let TypedValue::Ref(entid) = v.into_typed_value(&self.schema, ValueType::Ref)? {
-                                            Ok(Either::Left(KnownEntid(entid)))
+                                            Ok(Either::Left(self.ensure_entid_exists(entid)?))
                                         } else {
                                             // The given value is expected to be :db.type/ref, so this shouldn't happen.
                                             bail!(DbErrorKind::NotYetImplemented(format!("Cannot use :attr/_reversed notation for attribute {} with value that is not :db.valueType :db.type/ref", forward_a)))
@@ -400,8 +400,10 @@ where
                                 }
                             },
 
-                            entmod::ValuePlace::Entid(entid) =>
-                                Ok(Either::Left(KnownEntid(self.entity_a_into_term_a(entid)?))),
+                            entmod::ValuePlace::Entid(entid) => {
+                                let entid = self.entity_a_into_term_a(entid)?;
+                                Ok(Either::Left(self.ensure_entid_exists(entid)?))
+                            },
 
                             entmod::ValuePlace::TempId(tempid) =>
                                 Ok(Either::Right(LookupRefOrTempId::TempId(self.temp_ids.intern(tempid)))),
-- 
2.43.0


From a7a0229866cafa0d11c9df636ed2c26e62479d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 07/84] fix: read :db/noHistory back from the store into the
 schema

---
 db/src/entids.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/entids.rs b/db/src/entids.rs
index 6308926..3c07974 100644
--- a/db/src/entids.rs
+++ b/db/src/entids.rs
@@ -72,6 +72,7 @@ pub fn might_update_metadata(attribute: Entid) -> bool {
         DB_FULLTEXT |
         DB_INDEX |
         DB_IS_COMPONENT |
+        DB_NO_HISTORY |
         DB_UNIQUE |
         DB_VALUE_TYPE
     )
@@ -86,6 +87,7 @@ pub fn is_a_schema_attribute(attribute: Entid) -> bool {
             | DB_FULLTEXT
             | DB_INDEX
             | DB_IS_COMPONENT
+            | DB_NO_HISTORY
             | DB_UNIQUE
             | DB_VALUE_TYPE
     )
@@ -100,23 +102,25 @@ lazy_static! {
 
     /// Attributes that are "schema related".  These might change the "schema" materialized view.
     pub static ref SCHEMA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
 
     /// Attributes that are "metadata" related.  These might change one of the materialized views.
     pub static ref METADATA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_IDENT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
-- 
2.43.0


From 77c05338d69c2b20ebca18fde78b65df073b237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 08/84] fix: altering one property of an attribute must not
 drop its :db/unique

---
 db/src/schema.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db/src/schema.rs b/db/src/schema.rs
index fdbed5a..e64fce5 100644
--- a/db/src/schema.rs
+++ b/db/src/schema.rs
@@ -226,9 +226,6 @@ impl AttributeBuilder {
                 attribute.unique = *unique;
                 mutations.push(AttributeAlteration::Unique);
             }
-        } else if attribute.unique != None {
-            attribute.unique = None;
-            mutations.push(AttributeAlteration::Unique);
         }
 
         if let Some(index) = self.index {
-- 
2.43.0


From c0f29ded0535bab67f9626f6d73ccccbf9105cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 09/84] fix: reject an alteration that leaves an attribute
 invalid and the store impossible to reopen

---
 db/src/db.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 4730d6a..e1f6f8c 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -39,7 +39,7 @@ use mentat_core::{AttributeMap, FromMicros, IdentMap, Schema, ToMicros, ValueRc}
 use db_traits::errors::{DbErrorKind, Result};
 
 use crate::metadata;
-use crate::schema::SchemaBuilding;
+use crate::schema::{AttributeValidation, SchemaBuilding};
 use crate::tx::transact;
 use crate::types::{AVMap, AVPair, Partition, PartitionMap, DB};
 
@@ -1300,6 +1300,10 @@ SELECT EXISTS
                 }
             }
         }
+
+        // The altered attribute has to be one that we'd allow to be installed: we validate the
+        // schema when we next open the store.
+        attribute.validate(|| entid.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From c4829b6572d08df0e436f71410e3a9420b05cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 10/84] fix: rolling back to a savepoint must also restore the
 in-memory state

---
 db/src/cache.rs        |  2 +-
 db/src/tx_observer.rs  |  2 +-
 src/conn.rs            |  1 +
 transaction/src/lib.rs | 43 +++++++++++++++++++++++++++++++++++++++---
 4 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 008ff0a..625266c 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1611,7 +1611,7 @@ impl SQLiteAttributeCache {
 
 /// We maintain a diff on top of the `inner` -- existing -- cache.
 /// That involves tracking unregisterings and registerings.
-#[derive(Debug, Default)]
+#[derive(Clone, Debug, Default)]
 pub struct InProgressSQLiteAttributeCache {
     inner: Arc<AttributeCaches>,
     pub overlay: AttributeCaches,
diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index ebc42af..5dad666 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -157,7 +157,7 @@ impl Drop for TxObservationService {
     }
 }
 
-#[derive(Default)]
+#[derive(Clone, Default)]
 pub struct InProgressObserverTransactWatcher {
     collected_attributes: AttributeSet,
     pub txes: IndexMap<Entid, AttributeSet>,
diff --git a/src/conn.rs b/src/conn.rs
index 212b3f2..0067f2c 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -258,6 +258,7 @@ impl Conn {
             use_caching: true,
             tx_observer: &self.tx_observer_service,
             tx_observer_watcher: InProgressObserverTransactWatcher::new(),
+            savepoints: Vec::new(),
         })
     }
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index f30ca7b..ef2a655 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -95,6 +95,17 @@ pub struct InProgress<'a, 'c> {
     pub use_caching: bool,
     pub tx_observer: &'a Mutex<TxObservationService>,
     pub tx_observer_watcher: InProgressObserverTransactWatcher,
+    /// What to return to on `rollback_savepoint`, for each open savepoint, innermost last.
+    pub savepoints: Vec<InProgressSavepoint>,
+}
+
+/// The in-memory state of an `InProgress` at a savepoint.
+pub struct InProgressSavepoint {
+    name: String,
+    partition_map: PartitionMap,
+    schema: Schema,
+    cache: InProgressSQLiteAttributeCache,
+    tx_observer_watcher: InProgressObserverTransactWatcher,
 }
 
 /// Represents an in-progress set of reads to the store. Just like `InProgress`,
@@ -316,23 +327,49 @@ impl<'a, 'c> InProgress<'a, 'c> {
         self.partition_map[":db.part/tx"].next_entid() - 1
     }
 
-    pub fn savepoint(&self, name: &str) -> Result<()> {
+    pub fn savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("SAVEPOINT {}", name), rusqlite::params![])?;
+        self.savepoints.push(InProgressSavepoint {
+            name: name.to_string(),
+            partition_map: self.partition_map.clone(),
+            schema: self.schema.clone(),
+            cache: self.cache.clone(),
+            tx_observer_watcher: self.tx_observer_watcher.clone(),
+        });
         Ok(())
     }
 
-    pub fn rollback_savepoint(&self, name: &str) -> Result<()> {
+    pub fn rollback_savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("ROLLBACK TO {}", name), rusqlite::params![])?;
+        // The savepoint itself stays open.
+        if let Some(i) = self.find_savepoint(name) {
+            self.savepoints.truncate(i + 1);
+            let savepoint = &self.savepoints[i];
+            self.partition_map = savepoint.partition_map.clone();
+            self.schema = savepoint.schema.clone();
+            self.cache = savepoint.cache.clone();
+            self.tx_observer_watcher = savepoint.tx_observer_watcher.clone();
+        }
         Ok(())
     }
 
-    pub fn release_savepoint(&self, name: &str) -> Result<()> {
+    pub fn release_savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("RELEASE {}", name), rusqlite::params![])?;
+        if let Some(i) = self.find_savepoint(name) {
+            self.savepoints.truncate(i);
+        }
         Ok(())
     }
+
+    /// Like SQLite, find the innermost savepoint of that name, ignoring case.
+    fn find_savepoint(&self, name: &str) -> Option<usize> {
+        self.savepoints
+            .iter()
+            .rposition(|s| s.name.eq_ignore_ascii_case(name))
+    }
 }
 
 impl<'a, 'c> InProgressRead<'a, 'c> {
-- 
2.43.0


From e665ce1ecc0dd1560dfec8d05e939180dd53bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 11/84] fix: a failed transact must leave no trace in an
 in-progress transaction that goes on

---
 db/src/tx.rs           |  5 +++--
 db/src/tx_observer.rs  |  5 +++++
 transaction/src/lib.rs | 43 ++++++++++++++++++++++++++++++++++++++----
 3 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 2f3f606..a56a222 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -937,8 +937,6 @@ where
             }
         }
 
-        self.watcher.done(&self.tx_id, self.schema)?;
-
         if tx_might_update_metadata {
             // Extract changes to metadata from the store.
             let metadata_assertions = match action {
@@ -969,6 +967,9 @@ where
             }
         }
 
+        // Nothing can fail once the watcher has been told.
+        self.watcher.done(&self.tx_id, self.schema)?;
+
         Ok(TxReport {
             tx_id: self.tx_id,
             tx_instant,
diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index 5dad666..44d6f06 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -170,6 +170,11 @@ impl InProgressObserverTransactWatcher {
             txes: Default::default(),
         }
     }
+
+    /// Forget what was collected from a transaction that failed.
+    pub fn discard(&mut self) {
+        self.collected_attributes.clear();
+    }
 }
 
 impl TransactWatcher for InProgressObserverTransactWatcher {
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index ef2a655..a8945fa 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -40,6 +40,8 @@ use edn::{InternSet, Keyword};
 
 use core_traits::{Attribute, Entid, KnownEntid, StructuredMap, TypedValue, ValueType};
 
+use db_traits::errors::DbError;
+
 use public_traits::errors::{MentatError, Result};
 
 use mentat_core::{HasSchema, Schema, TxReport, ValueRc};
@@ -176,11 +178,12 @@ impl<'a, 'c> InProgress<'a, 'c> {
     where
         I: IntoIterator<Item = TermWithTempIds>,
     {
+        self.begin_transact()?;
         let w = InProgressTransactWatcher::new(
             &mut self.tx_observer_watcher,
             self.cache.transact_watcher(),
         );
-        let (report, next_partition_map, next_schema, _watcher) = transact_terms(
+        let result = transact_terms(
             &self.transaction,
             self.partition_map.clone(),
             &self.schema,
@@ -188,7 +191,9 @@ impl<'a, 'c> InProgress<'a, 'c> {
             w,
             terms,
             tempid_set,
-        )?;
+        )
+        .map(|(report, partition_map, schema, _watcher)| (report, partition_map, schema));
+        let (report, next_partition_map, next_schema) = self.end_transact(result)?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
             self.schema = schema;
@@ -208,18 +213,21 @@ impl<'a, 'c> InProgress<'a, 'c> {
         //    `Metadata` on return. If we used `Cell` or other mechanisms, we'd be using
         //    `Default::default` in those situations to extract the partition map, and so there
         //    would still be some cost.
+        self.begin_transact()?;
         let w = InProgressTransactWatcher::new(
             &mut self.tx_observer_watcher,
             self.cache.transact_watcher(),
         );
-        let (report, next_partition_map, next_schema, _watcher) = transact(
+        let result = transact(
             &self.transaction,
             self.partition_map.clone(),
             &self.schema,
             &self.schema,
             w,
             entities,
-        )?;
+        )
+        .map(|(report, partition_map, schema, _watcher)| (report, partition_map, schema));
+        let (report, next_partition_map, next_schema) = self.end_transact(result)?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
             self.schema = schema;
@@ -227,6 +235,33 @@ impl<'a, 'c> InProgress<'a, 'c> {
         Ok(report)
     }
 
+    fn begin_transact(&mut self) -> Result<()> {
+        self.transaction
+            .execute("SAVEPOINT mentat_transact", rusqlite::params![])?;
+        Ok(())
+    }
+
+    /// If a transact failed part way, undo what it did, so that it leaves no trace in the store
+    /// should this `InProgress` be used further and committed.
+    fn end_transact<T>(&mut self, result: ::std::result::Result<T, DbError>) -> Result<T> {
+        match result {
+            Ok(x) => {
+                self.transaction
+                    .execute("RELEASE mentat_transact", rusqlite::params![])?;
+                Ok(x)
+            }
+            Err(e) => {
+                self.tx_observer_watcher.discard();
+                // Some SQLite errors have already rolled back everything.
+                if !self.transaction.is_autocommit() {
+                    self.transaction
+                        .execute_batch("ROLLBACK TO mentat_transact; RELEASE mentat_transact;")?;
+                }
+                Err(e.into())
+            }
+        }
+    }
+
     pub fn transact<B>(&mut self, transaction: B) -> Result<TxReport>
     where
         B: Borrow<str>,
-- 
2.43.0


From f86b4c469a9f86a299149a5ca339e3ce9206d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 12/84] fix: registering or dropping an observer must not lose
 notifications of earlier commits

---
 db/src/tx_observer.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index 44d6f06..188d901 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -8,7 +8,7 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::sync::{Arc, Weak};
+use std::sync::Arc;
 
 use std::sync::mpsc::{channel, Receiver, RecvError, Sender};
 
@@ -66,7 +66,8 @@ pub trait Command {
 
 pub struct TxCommand {
     reports: IndexMap<Entid, AttributeSet>,
-    observers: Weak<IndexMap<String, Arc<TxObserver>>>,
+    // A snapshot: (de)registering further observers must not affect who hears of this commit.
+    observers: Arc<IndexMap<String, Arc<TxObserver>>>,
 }
 
 impl TxCommand {
@@ -76,19 +77,17 @@ impl TxCommand {
     ) -> Self {
         TxCommand {
             reports,
-            observers: Arc::downgrade(observers),
+            observers: observers.clone(),
         }
     }
 }
 
 impl Command for TxCommand {
     fn execute(&mut self) {
-        if let Some(observers) = self.observers.upgrade() {
-            for (key, observer) in observers.iter() {
-                let applicable_reports = observer.applicable_reports(&self.reports);
-                if !applicable_reports.is_empty() {
-                    observer.notify(&key, applicable_reports);
-                }
+        for (key, observer) in self.observers.iter() {
+            let applicable_reports = observer.applicable_reports(&self.reports);
+            if !applicable_reports.is_empty() {
+                observer.notify(&key, applicable_reports);
             }
         }
     }
-- 
2.43.0


From 59f804816d34b287f5c232cf3918ecf333810c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 13/84] fix: a cardinality many attribute without conflicting
 values can be altered to cardinality one

---
 db/src/db.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index e1f6f8c..7c9a86b 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1286,8 +1286,10 @@ SELECT EXISTS
                     // TODO: improve the failure message.  Perhaps try to mimic what Datomic says in
                     // this case?
                     if !attribute.multival {
-                        let mut rows = cardinality_stmt.query(&[&entid as &dyn ToSql])?;
-                        if rows.next()?.is_some() {
+                        // `SELECT EXISTS` always yields a row.
+                        let conflict: bool =
+                            cardinality_stmt.query_row(&[&entid as &dyn ToSql], |r| r.get(0))?;
+                        if conflict {
                             bail!(DbErrorKind::SchemaAlterationFailed(format!(
                                 "Cannot alter schema attribute {} to be :db.cardinality/one",
                                 entid
-- 
2.43.0


From a81c38bc1e4de46f3ed05ee95c541cfd6200bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 14/84] fix: keep cached values right when a transaction
 re-asserts, replaces or retracts absent values

---
 db/src/cache.rs | 123 ++++++++++++++++++++++++++++--------------------
 1 file changed, 71 insertions(+), 52 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 625266c..d8258f1 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -284,16 +284,9 @@ impl RemoveFromCache for SingleValAttributeCache {
     fn remove(&mut self, e: Entid, v: &TypedValue) {
         match self.e_v.entry(e) {
             Occupied(mut entry) => {
-                let removed = entry.insert(None);
-                match removed {
-                    None => {}                  // Already removed.
-                    Some(ref r) if r == v => {} // We removed it!
-                    r => {
-                        eprintln!(
-                            "Cache inconsistency: should be ({}, {:?}), was ({}, {:?}).",
-                            e, v, e, r
-                        );
-                    }
+                // Retracting a value that isn't the current one changes nothing.
+                if entry.get().as_ref() == Some(v) {
+                    entry.insert(None);
                 }
             }
             Vacant(entry) => {
@@ -354,26 +347,20 @@ impl ClearCache for MultiValAttributeCache {
 
 impl RemoveFromCache for MultiValAttributeCache {
     fn remove(&mut self, e: Entid, v: &TypedValue) {
+        // Retracting an absent value changes nothing.
         if let Some(vec) = self.e_vs.get_mut(&e) {
-            let removed = vec.remove_every(v);
-            if removed == 0 {
-                eprintln!(
-                    "Cache inconsistency: tried to remove ({}, {:?}), was not present.",
-                    e, v
-                );
-            }
-        } else {
-            eprintln!(
-                "Cache inconsistency: tried to remove ({}, {:?}), was empty.",
-                e, v
-            );
+            vec.remove_every(v);
         }
     }
 }
 
 impl CardinalityManyCache for MultiValAttributeCache {
     fn acc(&mut self, e: Entid, v: TypedValue) {
-        self.e_vs.entry(e).or_insert_with(Vec::new).push(v)
+        let vs = self.e_vs.entry(e).or_insert_with(Vec::new);
+        // Asserting a value that's already present changes nothing.
+        if !vs.contains(&v) {
+            vs.push(v)
+        }
     }
 
     fn set(&mut self, e: Entid, vs: Vec<TypedValue>) {
@@ -409,16 +396,9 @@ impl RemoveFromCache for UniqueReverseAttributeCache {
         match self.v_e.entry(v.clone()) {
             // Future: better entry API!
             Occupied(mut entry) => {
-                let removed = entry.insert(None);
-                match removed {
-                    None => {}              // Already removed.
-                    Some(r) if r == e => {} // We removed it!
-                    r => {
-                        eprintln!(
-                            "Cache inconsistency: should be ({}, {:?}), was ({}, {:?}).",
-                            e, v, e, r
-                        );
-                    }
+                // Retracting the value of some other entity changes nothing.
+                if *entry.get() == Some(e) {
+                    entry.insert(None);
                 }
             }
             Vacant(entry) => {
@@ -471,19 +451,9 @@ impl ClearCache for NonUniqueReverseAttributeCache {
 
 impl RemoveFromCache for NonUniqueReverseAttributeCache {
     fn remove(&mut self, e: Entid, v: &TypedValue) {
-        if let Some(vec) = self.v_es.get_mut(&v) {
-            let removed = vec.remove(&e);
-            if !removed {
-                eprintln!(
-                    "Cache inconsistency: tried to remove ({}, {:?}), was not present.",
-                    e, v
-                );
-            }
-        } else {
-            eprintln!(
-                "Cache inconsistency: tried to remove ({}, {:?}), was empty.",
-                e, v
-            );
+        // Retracting an absent value changes nothing.
+        if let Some(es) = self.v_es.get_mut(v) {
+            es.remove(&e);
         }
     }
 }
@@ -530,20 +500,57 @@ fn accumulate_unique_evs_reverse<I>(
     a: Entid,
     r: &mut UniqueReverseAttributeCache,
     iter: &mut Peekable<I>,
+    keep_others: bool,
 ) where
     I: Iterator<Item = Aev>,
 {
-    with_aev_iter(a, iter, |e, v| r.set(e, v))
+    if keep_others {
+        return with_aev_iter(a, iter, |e, v| r.set(e, v));
+    }
+    // These values replace whatever else the same entities had.
+    let mut new = BTreeMap::default();
+    with_aev_iter(a, iter, |e, v| {
+        new.insert(e, v);
+    });
+    for (v, e) in r.v_e.iter_mut() {
+        if e.and_then(|e| new.get(&e)).map_or(false, |n| n != v) {
+            *e = None;
+        }
+    }
+    for (e, v) in new {
+        r.set(e, v);
+    }
 }
 
 fn accumulate_non_unique_evs_reverse<I>(
     a: Entid,
     r: &mut NonUniqueReverseAttributeCache,
     iter: &mut Peekable<I>,
+    keep_others: bool,
 ) where
     I: Iterator<Item = Aev>,
 {
-    with_aev_iter(a, iter, |e, v| r.acc(e, v))
+    if keep_others {
+        return with_aev_iter(a, iter, |e, v| r.acc(e, v));
+    }
+    // These values replace whatever else the same entities had.
+    let mut new = BTreeMap::default();
+    with_aev_iter(a, iter, |e, v| {
+        new.insert(e, v);
+    });
+    for (v, es) in r.v_es.iter_mut() {
+        let replaced: Vec<Entid> = es
+            .iter()
+            .filter(|e| new.get(e).map_or(false, |n| n != v))
+            .cloned()
+            .collect();
+        for e in replaced {
+            es.remove(&e);
+        }
+    }
+    for (e, v) in new {
+        r.acc(e, v);
+    }
 }
 
 fn accumulate_single_val_unique_evs_both<I, C>(
@@ -556,6 +563,12 @@ fn accumulate_single_val_unique_evs_both<I, C>(
     C: CardinalityOneCache,
 {
     with_aev_iter(a, iter, |e, v| {
+        // The previous value, if any, is replaced.
+        if let Some(old) = f.get(e) {
+            if *old != v {
+                r.remove(e, old);
+            }
+        }
         f.set(e, v.clone());
         r.set(e, v);
     })
@@ -586,6 +599,12 @@ fn accumulate_single_val_non_unique_evs_both<I, C>(
     C: CardinalityOneCache,
 {
     with_aev_iter(a, iter, |e, v| {
+        // The previous value, if any, is replaced.
+        if let Some(old) = f.get(e) {
+            if *old != v {
+                r.remove(e, old);
+            }
+        }
         f.set(e, v.clone());
         r.acc(e, v);
     })
@@ -927,26 +946,26 @@ impl AttributeCaches {
                             AccumulationBehavior::Remove => accumulate_removal_one(a, f, iter),
                         }
                     }
-                    (false, true, _, true) => {
+                    (false, true, multi, true) => {
                         let r = self.ruc(a, reverse_fallback);
                         match behavior {
                             AccumulationBehavior::Add { replacing } => {
                                 if replacing {
                                     r.clear();
                                 }
-                                accumulate_unique_evs_reverse(a, r, iter);
+                                accumulate_unique_evs_reverse(a, r, iter, multi || replacing);
                             }
                             AccumulationBehavior::Remove => accumulate_removal_one(a, r, iter),
                         }
                     }
-                    (false, true, _, false) => {
+                    (false, true, multi, false) => {
                         let r = self.rnuc(a, reverse_fallback);
                         match behavior {
                             AccumulationBehavior::Add { replacing } => {
                                 if replacing {
                                     r.clear();
                                 }
-                                accumulate_non_unique_evs_reverse(a, r, iter);
+                                accumulate_non_unique_evs_reverse(a, r, iter, multi || replacing);
                             }
                             AccumulationBehavior::Remove => accumulate_removal_one(a, r, iter),
                         }
-- 
2.43.0


From b135f7daadcece9f95fd43eeb4deb4f965f0109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 15/84] fix: an in-progress transaction's cache of an attribute
 is complete, and committing it replaces the old one

---
 db/src/cache.rs | 286 ++++++++++++++++++------------------------------
 1 file changed, 108 insertions(+), 178 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index d8258f1..09f66e9 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -104,50 +104,6 @@ trait Absorb {
     fn absorb(&mut self, other: Self);
 }
 
-impl<K, V> Absorb for CacheMap<K, Option<V>>
-where
-    K: Ord,
-{
-    fn absorb(&mut self, other: Self) {
-        for (e, v) in other.into_iter() {
-            match v {
-                None => {
-                    // It was deleted. Remove it from our map.
-                    self.remove(&e);
-                }
-                s @ Some(_) => {
-                    self.insert(e, s);
-                }
-            }
-        }
-    }
-}
-
-trait ExtendByAbsorbing {
-    /// Just like `extend`, but rather than replacing our value with the other, the other is
-    /// absorbed into ours.
-    fn extend_by_absorbing(&mut self, other: Self);
-}
-
-impl<K, V> ExtendByAbsorbing for BTreeMap<K, V>
-where
-    K: Ord,
-    V: Absorb,
-{
-    fn extend_by_absorbing(&mut self, other: Self) {
-        for (k, v) in other.into_iter() {
-            match self.entry(k) {
-                Occupied(mut entry) => {
-                    entry.get_mut().absorb(v);
-                }
-                Vacant(entry) => {
-                    entry.insert(v);
-                }
-            }
-        }
-    }
-}
-
 // Can't currently put doc tests on traits, so here it is.
 #[test]
 fn test_vec_remove_item() {
@@ -255,13 +211,6 @@ struct SingleValAttributeCache {
     e_v: CacheMap<Entid, Option<TypedValue>>,
 }
 
-impl Absorb for SingleValAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        self.e_v.absorb(other.e_v);
-    }
-}
-
 impl AttributeCache for SingleValAttributeCache {
     fn binding_for_e(&self, e: Entid) -> Option<Binding> {
         self.get(e).map(|v| v.clone().into())
@@ -312,20 +261,6 @@ struct MultiValAttributeCache {
     e_vs: CacheMap<Entid, Vec<TypedValue>>,
 }
 
-impl Absorb for MultiValAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        for (e, vs) in other.e_vs.into_iter() {
-            if vs.is_empty() {
-                self.e_vs.remove(&e);
-            } else {
-                // We always override with a whole vector, so let's just overwrite.
-                self.e_vs.insert(e, vs);
-            }
-        }
-    }
-}
-
 impl AttributeCache for MultiValAttributeCache {
     fn binding_for_e(&self, e: Entid) -> Option<Binding> {
         self.e_vs.get(&e).map(|vs| {
@@ -378,13 +313,6 @@ struct UniqueReverseAttributeCache {
     v_e: CacheMap<TypedValue, Option<Entid>>,
 }
 
-impl Absorb for UniqueReverseAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        self.v_e.absorb(other.v_e);
-    }
-}
-
 impl ClearCache for UniqueReverseAttributeCache {
     fn clear(&mut self) {
         self.v_e.clear();
@@ -417,10 +345,6 @@ impl UniqueReverseAttributeCache {
     fn get_e(&self, v: &TypedValue) -> Option<Entid> {
         self.v_e.get(v).and_then(|o| *o)
     }
-
-    fn lookup(&self, v: &TypedValue) -> Option<Option<Entid>> {
-        self.v_e.get(v).cloned()
-    }
 }
 
 #[derive(Clone, Debug, Default)]
@@ -429,20 +353,6 @@ struct NonUniqueReverseAttributeCache {
     v_es: CacheMap<TypedValue, BTreeSet<Entid>>,
 }
 
-impl Absorb for NonUniqueReverseAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        for (v, es) in other.v_es.into_iter() {
-            if es.is_empty() {
-                self.v_es.remove(&v);
-            } else {
-                // We always override with a whole vector, so let's just overwrite.
-                self.v_es.insert(v, es);
-            }
-        }
-    }
-}
-
 impl ClearCache for NonUniqueReverseAttributeCache {
     fn clear(&mut self) {
         self.v_es.clear();
@@ -1021,39 +931,6 @@ impl AttributeCaches {
     }
 }
 
-// We need this block for fall-back.
-impl AttributeCaches {
-    fn get_entid_for_value_if_present(
-        &self,
-        attribute: Entid,
-        value: &TypedValue,
-    ) -> Option<Option<Entid>> {
-        if self.is_attribute_cached_reverse(attribute) {
-            self.unique_reverse
-                .get(&attribute)
-                .and_then(|c| c.lookup(value))
-        } else {
-            None
-        }
-    }
-
-    fn get_value_for_entid_if_present(
-        &self,
-        schema: &Schema,
-        attribute: Entid,
-        entid: Entid,
-    ) -> Option<Option<&TypedValue>> {
-        if let Some(&Some(ref tv)) = self
-            .value_pairs(schema, attribute)
-            .and_then(|c| c.get(&entid))
-        {
-            Some(Some(tv))
-        } else {
-            None
-        }
-    }
-}
-
 /// SQL stuff.
 impl AttributeCaches {
     fn repopulate(
@@ -1079,9 +956,36 @@ impl AttributeCaches {
             .prepare(&sql)
             .context(DbErrorKind::CacheUpdateFailed)?;
         let replacing = true;
+        self.start_caching(schema, attribute);
         self.repopulate_from_aevt(schema, &mut stmt, args, replacing)
     }
 
+    /// Give `attribute` an empty cache in each direction in which it's to be cached, and drop any
+    /// other cache it has.
+    fn start_caching(&mut self, schema: &Schema, attribute: Entid) {
+        self.single_vals.remove(&attribute);
+        self.multi_vals.remove(&attribute);
+        self.unique_reverse.remove(&attribute);
+        self.non_unique_reverse.remove(&attribute);
+        if let Some(a) = schema.attribute_for_entid(attribute) {
+            if self.is_attribute_cached_forward(attribute) {
+                if a.multival {
+                    self.multi_vals.insert(attribute, Default::default());
+                } else {
+                    self.single_vals.insert(attribute, Default::default());
+                }
+            }
+            if self.is_attribute_cached_reverse(attribute) {
+                if a.unique.is_some() {
+                    self.unique_reverse.insert(attribute, Default::default());
+                } else {
+                    self.non_unique_reverse
+                        .insert(attribute, Default::default());
+                }
+            }
+        }
+    }
+
     fn repopulate_from_aevt<'a, 's, 'c, 'v>(
         &'a mut self,
         schema: &'s Schema,
@@ -1382,6 +1286,31 @@ impl UpdateableCache<DbError> for AttributeCaches {
 }
 
 impl AttributeCaches {
+    /// Drop the markers of removed values.
+    fn forget_removed(&mut self) {
+        for c in self.single_vals.values_mut() {
+            c.e_v.retain(|_, v| v.is_some());
+        }
+        for c in self.multi_vals.values_mut() {
+            c.e_vs.retain(|_, vs| !vs.is_empty());
+        }
+        for c in self.unique_reverse.values_mut() {
+            c.v_e.retain(|_, e| e.is_some());
+        }
+        for c in self.non_unique_reverse.values_mut() {
+            c.v_es.retain(|_, es| !es.is_empty());
+        }
+    }
+
+    fn has_forward_cache(&self, attribute: Entid) -> bool {
+        self.single_vals.contains_key(&attribute) || self.multi_vals.contains_key(&attribute)
+    }
+
+    fn has_reverse_cache(&self, attribute: Entid) -> bool {
+        self.unique_reverse.contains_key(&attribute)
+            || self.non_unique_reverse.contains_key(&attribute)
+    }
+
     fn update_with_fallback<I>(
         &mut self,
         fallback: Option<&AttributeCaches>,
@@ -1443,19 +1372,29 @@ impl AttributeCaches {
 
 impl Absorb for AttributeCaches {
     // Replace or insert attribute-cache pairs from `other` into `self`.
-    // Fold in any in-place deletions.
     fn absorb(&mut self, other: Self) {
         self.forward_cached_attributes
             .extend(other.forward_cached_attributes);
         self.reverse_cached_attributes
             .extend(other.reverse_cached_attributes);
 
-        self.single_vals.extend_by_absorbing(other.single_vals);
-        self.multi_vals.extend_by_absorbing(other.multi_vals);
-        self.unique_reverse
-            .extend_by_absorbing(other.unique_reverse);
-        self.non_unique_reverse
-            .extend_by_absorbing(other.non_unique_reverse);
+        for a in other.single_vals.keys().chain(other.multi_vals.keys()) {
+            self.single_vals.remove(a);
+            self.multi_vals.remove(a);
+        }
+        for a in other
+            .unique_reverse
+            .keys()
+            .chain(other.non_unique_reverse.keys())
+        {
+            self.unique_reverse.remove(a);
+            self.non_unique_reverse.remove(a);
+        }
+
+        self.single_vals.extend(other.single_vals);
+        self.multi_vals.extend(other.multi_vals);
+        self.unique_reverse.extend(other.unique_reverse);
+        self.non_unique_reverse.extend(other.non_unique_reverse);
     }
 }
 
@@ -1639,6 +1578,24 @@ pub struct InProgressSQLiteAttributeCache {
 }
 
 impl InProgressSQLiteAttributeCache {
+    /// Whenever `overlay` has a cache for an attribute at all, that cache is complete: it began as
+    /// a copy of the one in `inner`, or was populated from the store.
+    fn forward(&self, attribute: Entid) -> &AttributeCaches {
+        if self.overlay.has_forward_cache(attribute) {
+            &self.overlay
+        } else {
+            &self.inner
+        }
+    }
+
+    fn reverse(&self, attribute: Entid) -> &AttributeCaches {
+        if self.overlay.has_reverse_cache(attribute) {
+            &self.overlay
+        } else {
+            &self.inner
+        }
+    }
+
     pub fn from_cache(inner: SQLiteAttributeCache) -> InProgressSQLiteAttributeCache {
         let overlay = inner.make_override();
         InProgressSQLiteAttributeCache {
@@ -1774,12 +1731,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the values were deleted, there will be an empty
-            // array in `overlay` -- `Some(vec![])` -- and we won't fall through.
-            // We can safely use `or_else`.
-            self.overlay
+            self.forward(attribute)
                 .get_values_for_entid(schema, attribute, entid)
-                .or_else(|| self.inner.get_values_for_entid(schema, attribute, entid))
         }
     }
 
@@ -1792,16 +1745,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
-            match self
-                .overlay
-                .get_value_for_entid_if_present(schema, attribute, entid)
-            {
-                Some(present) => present,
-                None => self.inner.get_value_for_entid(schema, attribute, entid),
-            }
+            self.forward(attribute)
+                .get_value_for_entid(schema, attribute, entid)
         }
     }
 
@@ -1852,9 +1797,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            self.overlay
+            self.reverse(attribute)
                 .get_entids_for_value(attribute, value)
-                .or_else(|| self.inner.get_entids_for_value(attribute, value))
         }
     }
 
@@ -1862,16 +1806,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
-            match self
-                .overlay
-                .get_entid_for_value_if_present(attribute, value)
-            {
-                Some(present) => present,
-                None => self.inner.get_entid_for_value(attribute, value),
-            }
+            self.reverse(attribute)
+                .get_entid_for_value(attribute, value)
         }
     }
 }
@@ -1907,37 +1843,31 @@ impl InProgressSQLiteAttributeCache {
             .or_else(|| self.inner.value_pairs(schema, a))
     }
 
-    pub fn commit_to(self, destination: &mut SQLiteAttributeCache) {
+    pub fn commit_to(mut self, destination: &mut SQLiteAttributeCache) {
+        self.overlay.forget_removed();
+
         // If the destination is empty, great: just take `overlay`.
         if !destination.has_cached_attributes() {
             destination.inner = Arc::new(self.overlay);
             return;
         }
 
-        // If we have exclusive write access to the destination cache, update it in place.
-        // Because the `Conn` also contains an `Arc`, this will ordinarily never be the case.
-        // In order to hit this code block, we need to eliminate our reference… do so by dropping
-        // our copy of the `Arc`.
+        // If we have exclusive write access to the destination cache, this updates it in place;
+        // otherwise, it's copied first.
+        // Because the `Conn` also contains an `Arc`, the former will ordinarily never be the case
+        // unless we eliminate our reference… do so by dropping our copy of the `Arc`.
         ::std::mem::drop(self.inner);
-        if let Some(dest) = Arc::get_mut(&mut destination.inner) {
-            // Yeah, we unregister in both directions. The only way
-            // `unregistered_forward` won't be the same as `unregistered_reverse` is if
-            // our `overlay` added one direction back in.
-            for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
-                dest.unregister_attribute(*unregistered);
-            }
+        let dest = destination.make_mut();
 
-            // Now replace each attribute's entry with `overlay`.
-            dest.absorb(self.overlay);
-            return;
+        // Yeah, we unregister in both directions. The only way
+        // `unregistered_forward` won't be the same as `unregistered_reverse` is if
+        // our `overlay` added one direction back in.
+        for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
+            dest.unregister_attribute(*unregistered);
         }
 
-        // If we don't, populate `self.overlay` with whatever we didn't overwrite,
-        // and then shim it into `destination.`
-        // We haven't implemented this because it does not currently occur.
-        // TODO: do this! Then do this:
-        // destination.inner = Arc::new(self.overlay);
-        unimplemented!();
+        // Now replace each attribute's entry with `overlay`.
+        dest.absorb(self.overlay);
     }
 }
 
-- 
2.43.0


From ca40748480bff46dd8793971cf2455f698ae039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 16/84] fix: rebuild the cache of an attribute whose definition
 changes

---
 db/src/cache.rs        | 25 +++++++++++++++++++++++++
 transaction/src/lib.rs |  4 ++++
 2 files changed, 29 insertions(+)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 09f66e9..80ca2ed 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1702,6 +1702,31 @@ impl InProgressSQLiteAttributeCache {
         self.unregistered_reverse.insert(a);
     }
 
+    /// Bring the caches into line with a changed schema: a cache that no longer has the right
+    /// shape for its attribute is populated anew, and one for what's no longer an attribute is
+    /// dropped.
+    pub fn schema_changed(
+        &mut self,
+        old: &Schema,
+        new: &Schema,
+        sqlite: &rusqlite::Connection,
+    ) -> Result<()> {
+        let cached: BTreeSet<Entid> = self
+            .overlay
+            .forward_cached_attributes
+            .union(&self.overlay.reverse_cached_attributes)
+            .cloned()
+            .collect();
+        for a in cached {
+            match (old.attribute_for_entid(a), new.attribute_for_entid(a)) {
+                (_, None) => self.unregister(a),
+                (Some(o), Some(n)) if o == n => {}
+                _ => self.overlay.repopulate(new, sqlite, a)?,
+            }
+        }
+        Ok(())
+    }
+
     pub fn unregister_all(&mut self) {
         self.overlay.unregister_all_attributes();
         self.unregistered_forward
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index a8945fa..2eb1c4c 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -196,6 +196,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
         let (report, next_partition_map, next_schema) = self.end_transact(result)?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
+            self.cache
+                .schema_changed(&self.schema, &schema, &self.transaction)?;
             self.schema = schema;
         }
         Ok(report)
@@ -230,6 +232,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
         let (report, next_partition_map, next_schema) = self.end_transact(result)?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
+            self.cache
+                .schema_changed(&self.schema, &schema, &self.transaction)?;
             self.schema = schema;
         }
         Ok(report)
-- 
2.43.0


From ecdb6634e969bbdec2fa01c49540e2b85f7ff4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 17/84] fix: caching must not loop for ever on data of an
 entity that is no longer an attribute

---
 db/src/cache.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 80ca2ed..a454241 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -898,8 +898,13 @@ impl AttributeCaches {
     where
         I: Iterator<Item = Aev>,
     {
-        while iter.peek().is_some() {
-            self.accumulate_evs(fallback, schema, &mut iter, behavior);
+        while let Some(&(a, _, _)) = iter.peek() {
+            if schema.is_attribute(a) {
+                self.accumulate_evs(fallback, schema, &mut iter, behavior);
+            } else {
+                // Data that has outlived its attribute. There's nothing to cache it as.
+                iter.next();
+            }
         }
         Ok(())
     }
-- 
2.43.0


From b7bca4e3286fcd83ba8ee8b77527b7037307cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 18/84] fix: cached lookups of cardinality many attributes, and
 of attributes cached in one direction, must agree with uncached ones

---
 query-algebrizer/src/clauses/pattern.rs | 10 +++++++---
 transaction/src/query.rs                | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 154acde..c0f5206 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -371,8 +371,11 @@ impl ConjoiningClauses {
                                             return false;
                                         }
                                         ValueType::Keyword => {
-                                            let tv: TypedValue = TypedValue::Keyword(kw.clone());
-                                            return self.reverse_lookup(known, var, attr, &tv);
+                                            if cached_reverse {
+                                                let tv: TypedValue =
+                                                    TypedValue::Keyword(kw.clone());
+                                                return self.reverse_lookup(known, var, attr, &tv);
+                                            }
                                         }
                                         t => {
                                             let tv: TypedValue = TypedValue::Keyword(kw.clone());
@@ -397,7 +400,8 @@ impl ConjoiningClauses {
                         EvolvedNonValuePlace::Entid(entity) => {
                             match pattern.value {
                                 EvolvedValuePlace::Variable(ref var) => {
-                                    if cached_forward {
+                                    // TODO: handle multiple values.
+                                    if cached_forward && !attribute.multival {
                                         match known.get_value_for_entid(known.schema, attr, entity)
                                         {
                                             None => {
diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index 9f017c5..51ef2c7 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -215,8 +215,14 @@ where
     let attrid = attribute.into();
 
     if known.is_attribute_cached_forward(attrid) {
+        // Only one of these has anything to say, according to the attribute's cardinality.
         Ok(known
             .get_value_for_entid(known.schema, attrid, entid)
+            .or_else(|| {
+                known
+                    .get_values_for_entid(known.schema, attrid, entid)
+                    .and_then(|vs| vs.first())
+            })
             .cloned())
     } else {
         fetch_values(sqlite, known, entid, attrid, true)
@@ -240,10 +246,17 @@ where
     let attrid = attribute.into();
 
     if known.is_attribute_cached_forward(attrid) {
+        // Only one of these has anything to say, according to the attribute's cardinality.
         Ok(known
             .get_values_for_entid(known.schema, attrid, entid)
             .cloned()
-            .unwrap_or_else(Vec::new))
+            .unwrap_or_else(|| {
+                known
+                    .get_value_for_entid(known.schema, attrid, entid)
+                    .into_iter()
+                    .cloned()
+                    .collect()
+            }))
     } else {
         fetch_values(sqlite, known, entid, attrid, false)
             .into_coll_result()
-- 
2.43.0


From 8ad7154dfb44d1355d2c70c88fc5dad4169edf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 19/84] fix: reject EDN integer literals that are out of range
 instead of panicking

---
 edn/src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 2cbb21e..ace0901 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -92,13 +92,16 @@ peg::parser!(pub grammar parse() for str {
     pub rule raw_bigint() -> BigInt = b:$( sign()? digit()+ ) "N"
         { b.parse::<BigInt>().unwrap() }
     pub rule raw_octalinteger() -> i64 = "0" i:$( octaldigit()+ )
-        { i64::from_str_radix(i, 8).unwrap() }
+        {? i64::from_str_radix(i, 8).map_err(|_| "octal integer in range") }
     pub rule raw_hexinteger() -> i64 = "0x" i:$( hex()+ )
-        { i64::from_str_radix(i, 16).unwrap() }
+        {? i64::from_str_radix(i, 16).map_err(|_| "hexadecimal integer in range") }
     pub rule raw_basedinteger() -> i64 = b:$( validbase() ) "r" i:$( alphanumeric()+ )
-        { i64::from_str_radix(i, b.parse::<u32>().unwrap()).unwrap() }
-    pub rule raw_integer() -> i64 = i:$( sign()? digit()+ ) !("." / (['e' | 'E']))
-        { i.parse::<i64>().unwrap() }
+        {? i64::from_str_radix(i, b.parse::<u32>().unwrap()).map_err(|_| "based integer in range") }
+    // An integer literal that is out of range is rejected, rather than read as something else.
+    rule prefixed_integer_literal() = "0x" hex()+ / validbase() "r" alphanumeric()+
+    rule integer_literal() = sign()? digit()+ !("." / (['e' | 'E']))
+    pub rule raw_integer() -> i64 = !prefixed_integer_literal() i:$( integer_literal() )
+        {? i.parse::<i64>().map_err(|_| "integer in range") }
     pub rule raw_float() -> OrderedFloat<f64> = f:$(sign()? digit()+ ("." digit()+)? (['e' | 'E'] sign()? digit()+)?)
         { OrderedFloat(f.parse::<f64>().unwrap()) }
 
@@ -109,7 +112,8 @@ peg::parser!(pub grammar parse() for str {
     pub rule integer() -> SpannedValue = v:raw_integer() { SpannedValue::Integer(v) }
     pub rule float() -> SpannedValue = v:raw_float() { SpannedValue::Float(v) }
 
-    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() / float() )
+    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer()
+        / !prefixed_integer_literal() !integer_literal() f:float() { f } )
 
     // TODO: standalone characters: \<char>, \newline, \return, \space and \tab.
     // rule string_standalone_chars() ->
@@ -219,7 +223,7 @@ peg::parser!(pub grammar parse() for str {
 
     // Note: It's important that float comes before integer or the parser assumes that floats are integers and fails to parse.
     pub rule value() -> ValueAndSpan =
-        __ start:position!() v:(nil() / nan() / infinity() / boolean() / number() / inst() / uuid() / text() / keyword() / symbol() / list() / vector() / map() / set()) end:position!() __ {
+        __ start:position!() v:(nil() / nan() / infinity() / boolean() / number() / inst() / uuid() / text() / keyword() / !digit() s:symbol() { s } / list() / vector() / map() / set()) end:position!() __ {
             ValueAndSpan {
                 inner: v,
                 span: Span::new(start, end)
-- 
2.43.0


From 5a9210a8e873b7f8e0375dff4a22205df8e5b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 20/84] fix: do not treat a lone underscore as the reversal of
 an empty name

---
 edn/src/namespaceable_name.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edn/src/namespaceable_name.rs b/edn/src/namespaceable_name.rs
index 3c8e52a..a22001b 100644
--- a/edn/src/namespaceable_name.rs
+++ b/edn/src/namespaceable_name.rs
@@ -107,7 +107,8 @@ impl NamespaceableName {
 
     #[inline]
     pub fn is_backward(&self) -> bool {
-        self.name().starts_with('_')
+        // A lone underscore names nothing once reversed.
+        self.name().starts_with('_') && self.name().len() > 1
     }
 
     #[inline]
@@ -118,7 +119,7 @@ impl NamespaceableName {
     pub fn to_reversed(&self) -> NamespaceableName {
         let name = self.name();
 
-        if name.starts_with('_') {
+        if self.is_backward() {
             Self::new(self.namespace(), &name[1..])
         } else {
             Self::new(self.namespace(), &format!("_{}", name))
-- 
2.43.0


From be84a529b5af8ed91b323bdb04641c4fad75ad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 21/84] fix: reject #instmicros and #instmillis values that are
 out of range instead of panicking

---
 edn/src/lib.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index ace0901..eb00688 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -150,19 +150,21 @@ peg::parser!(pub grammar parse() for str {
         }
 
     rule inst_micros() -> DateTime<Utc> =
-        "#instmicros" whitespace()+ d:$( digit()+ ) {
-            let micros = d.parse::<i64>().unwrap();
-            let seconds: i64 = micros / 1_000_000;
-            let nanos: u32 = ((micros % 1_000_000).abs() as u32) * 1000;
-            Utc.timestamp(seconds, nanos)
+        "#instmicros" whitespace()+ d:$( digit()+ ) {?
+            d.parse::<i64>().ok().and_then(|micros| {
+                let seconds: i64 = micros / 1_000_000;
+                let nanos: u32 = ((micros % 1_000_000).abs() as u32) * 1000;
+                Utc.timestamp_opt(seconds, nanos).single()
+            }).ok_or("instant in range")
         }
 
     rule inst_millis() -> DateTime<Utc> =
-        "#instmillis" whitespace()+ d:$( digit()+ ) {
-            let millis = d.parse::<i64>().unwrap();
-            let seconds: i64 = millis / 1000;
-            let nanos: u32 = ((millis % 1000).abs() as u32) * 1_000_000;
-            Utc.timestamp(seconds, nanos)
+        "#instmillis" whitespace()+ d:$( digit()+ ) {?
+            d.parse::<i64>().ok().and_then(|millis| {
+                let seconds: i64 = millis / 1000;
+                let nanos: u32 = ((millis % 1000).abs() as u32) * 1_000_000;
+                Utc.timestamp_opt(seconds, nanos).single()
+            }).ok_or("instant in range")
         }
 
     rule inst() -> SpannedValue = t:(inst_millis() / inst_micros() / inst_string())
-- 
2.43.0


From 5efd5aa1d090c76cfc56079731b5e48d7a497783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 22/84] fix: read \n, \t and \r in EDN strings as the
 characters they stand for

---
 edn/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index eb00688..d44ab7f 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -117,7 +117,11 @@ peg::parser!(pub grammar parse() for str {
 
     // TODO: standalone characters: \<char>, \newline, \return, \space and \tab.
     // rule string_standalone_chars() ->
-    rule string_special_char() -> &'input str = "\\" c:$(['\\' | '"' | 'n' | 't' | 'r']) { c }
+    rule string_special_char() -> &'input str
+        = "\\n" { "\n" }
+        / "\\t" { "\t" }
+        / "\\r" { "\r" }
+        / "\\" c:$(['\\' | '"']) { c }
     rule string_normal_chars() -> &'input str = c:$((!['\"' | '\\'][_])+) { c }
 
     // This is what we need to do in order to unescape. We can't just match the entire string slice:
-- 
2.43.0


From 01d1b64b387e0e2bd402a43684d454e72e18e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 23/84] fix: escape quotes and backslashes when printing EDN
 strings

---
 edn/src/pretty_print.rs |  4 ++--
 edn/src/types.rs        | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/edn/src/pretty_print.rs b/edn/src/pretty_print.rs
index 297bafc..b3901ba 100644
--- a/edn/src/pretty_print.rs
+++ b/edn/src/pretty_print.rs
@@ -16,7 +16,7 @@ use pretty;
 use std::borrow::Cow;
 use std::io;
 
-use crate::types::Value;
+use crate::types::{escape_text, Value};
 
 impl Value {
     /// Return a pretty string representation of this `Value`.
@@ -94,7 +94,7 @@ impl Value {
             Value::NamespacedSymbol(ref v) => pp.text(v.namespace()).append("/").append(v.name()),
             Value::PlainSymbol(ref v) => pp.text(v.to_string()),
             Value::Keyword(ref v) => pp.text(v.to_string()),
-            Value::Text(ref v) => pp.text("\"").append(v.as_str()).append("\""),
+            Value::Text(ref v) => pp.text("\"").append(escape_text(v)).append("\""),
             Value::Uuid(ref u) => pp
                 .text("#uuid \"")
                 .append(u.to_hyphenated().to_string())
diff --git a/edn/src/types.rs b/edn/src/types.rs
index c1f4b07..27e4c35 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -529,8 +529,13 @@ macro_rules! def_common_value_ord {
     };
 }
 
+/// Escapes the characters that cannot stand for themselves in an EDN string.
+pub(crate) fn escape_text(text: &str) -> String {
+    text.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
 /// Converts a Value or SpannedValue to string, given a formatter.
-// TODO: Make sure float syntax is correct, handle NaN and escaping.
+// TODO: Make sure float syntax is correct, handle NaN.
 // See https://github.com/mozilla/mentat/issues/232
 macro_rules! def_common_value_display {
     ( $t:tt, $value:expr, $f:expr ) => {
@@ -556,8 +561,7 @@ macro_rules! def_common_value_display {
                     write!($f, "{}", v)
                 }
             }
-            // TODO: EDN escaping.
-            $t::Text(ref v) => write!($f, "\"{}\"", v),
+            $t::Text(ref v) => write!($f, "\"{}\"", escape_text(v)),
             $t::Uuid(ref u) => write!($f, "#uuid \"{}\"", u.to_hyphenated().to_string()),
             $t::PlainSymbol(ref v) => v.fmt($f),
             $t::NamespacedSymbol(ref v) => v.fmt($f),
-- 
2.43.0


From 393c08b02da54f8a29f8c3ee3f4b6f7711a9f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 24/84] fix: print whole, large and small EDN floats so that
 they read back as floats

---
 edn/src/types.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edn/src/types.rs b/edn/src/types.rs
index 27e4c35..3bfef92 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -535,7 +535,6 @@ pub(crate) fn escape_text(text: &str) -> String {
 }
 
 /// Converts a Value or SpannedValue to string, given a formatter.
-// TODO: Make sure float syntax is correct, handle NaN.
 // See https://github.com/mozilla/mentat/issues/232
 macro_rules! def_common_value_display {
     ( $t:tt, $value:expr, $f:expr ) => {
@@ -549,7 +548,6 @@ macro_rules! def_common_value_display {
                 v.to_rfc3339_opts(SecondsFormat::AutoSi, true)
             ),
             $t::BigInteger(ref v) => write!($f, "{}N", v),
-            // TODO: make sure float syntax is correct.
             $t::Float(ref v) => {
                 if *v == OrderedFloat(f64::INFINITY) {
                     write!($f, "#f +Infinity")
@@ -558,7 +556,8 @@ macro_rules! def_common_value_display {
                 } else if *v == OrderedFloat(f64::NAN) {
                     write!($f, "#f NaN")
                 } else {
-                    write!($f, "{}", v)
+                    // Always with a fraction or an exponent, so that it does not read as an integer.
+                    write!($f, "{:?}", v.into_inner())
                 }
             }
             $t::Text(ref v) => write!($f, "\"{}\"", escape_text(v)),
-- 
2.43.0


From e2fd68179fb91307acfd72b35012e60ef4b835ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 25/84] fix: read symbols that begin with nil, true or false as
 one symbol

---
 edn/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index d44ab7f..9777484 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -72,15 +72,18 @@ pub type ParseError = peg::error::ParseError<peg::str::LineCol>;
 
 peg::parser!(pub grammar parse() for str {
 
-    pub rule nil() -> SpannedValue = "nil" { SpannedValue::Nil }
+    // Symbols may begin with the name of a literal.
+    rule literal_end() = !(symbol_char_subsequent() / namespace_divider() symbol_char_subsequent() / namespace_separator())
+
+    pub rule nil() -> SpannedValue = "nil" literal_end() { SpannedValue::Nil }
     pub rule nan() -> SpannedValue = "#f" whitespace()+ "NaN" { SpannedValue::Float(OrderedFloat(NAN)) }
 
     pub rule infinity() -> SpannedValue = "#f" whitespace()+ s:$(sign()) "Infinity"
         { SpannedValue::Float(OrderedFloat(if s == "+" { INFINITY } else { NEG_INFINITY })) }
 
     pub rule boolean() -> SpannedValue
-        = "true"  { SpannedValue::Boolean(true) }
-        / "false" { SpannedValue::Boolean(false) }
+        = "true"  literal_end() { SpannedValue::Boolean(true) }
+        / "false" literal_end() { SpannedValue::Boolean(false) }
 
     rule digit() = ['0'..='9']
     rule alphanumeric() = ['0'..='9' | 'a'..='z' | 'A'..='Z']
-- 
2.43.0


From 1868dd79d34cbc7dee24c0663d9b66eb9c1f4ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 26/84] fix: do not split a big integer into an entity id and a
 symbol in transactions

---
 edn/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 9777484..41087ff 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -102,7 +102,7 @@ peg::parser!(pub grammar parse() for str {
         {? i64::from_str_radix(i, b.parse::<u32>().unwrap()).map_err(|_| "based integer in range") }
     // An integer literal that is out of range is rejected, rather than read as something else.
     rule prefixed_integer_literal() = "0x" hex()+ / validbase() "r" alphanumeric()+
-    rule integer_literal() = sign()? digit()+ !("." / (['e' | 'E']))
+    rule integer_literal() = sign()? digit()+ !("." / (['e' | 'E' | 'N']))
     pub rule raw_integer() -> i64 = !prefixed_integer_literal() i:$( integer_literal() )
         {? i.parse::<i64>().map_err(|_| "integer in range") }
     pub rule raw_float() -> OrderedFloat<f64> = f:$(sign()? digit()+ ("." digit()+)? (['e' | 'E'] sign()? digit()+)?)
-- 
2.43.0


From d36fb83765a572be5765f75a26e91624cf269034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 27/84] fix: read back the nil UUID

A nil UUID could be stored, but every attempt to read it failed with
BadSQLValuePair.
---
 db/src/db.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 7c9a86b..f0cec21 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -421,17 +421,13 @@ impl TypedSQLValue for TypedValue {
             (5, rusqlite::types::Value::Integer(x)) => Ok(TypedValue::Long(x)),
             (5, rusqlite::types::Value::Real(x)) => Ok(TypedValue::Double(x.into())),
             (10, rusqlite::types::Value::Text(x)) => Ok(x.into()),
-            (11, rusqlite::types::Value::Blob(x)) => {
-                let u = Uuid::from_bytes(x.as_slice().try_into().unwrap());
-                if u.is_nil() {
-                    // Rather than exposing Uuid's ParseError…
-                    bail!(DbErrorKind::BadSQLValuePair(
-                        rusqlite::types::Value::Blob(x),
-                        value_type_tag
-                    ));
-                }
-                Ok(TypedValue::Uuid(u))
-            }
+            (11, rusqlite::types::Value::Blob(x)) => match x.as_slice().try_into() {
+                Ok(bytes) => Ok(TypedValue::Uuid(Uuid::from_bytes(bytes))),
+                Err(_) => bail!(DbErrorKind::BadSQLValuePair(
+                    rusqlite::types::Value::Blob(x),
+                    value_type_tag
+                )),
+            },
             (13, rusqlite::types::Value::Text(x)) => to_namespaced_keyword(&x).map(|k| k.into()),
             (_, value) => bail!(DbErrorKind::BadSQLValuePair(value, value_type_tag)),
         }
-- 
2.43.0


From 190001ba77f59bb4ef1d050d4c74cd2950ae6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 28/84] fix: read instants before 1970 and milliseconds as
 written

from_micros took the absolute value of the fraction of a second, so that
-1 microsecond read back as +1, and from_millis took milliseconds for
microseconds.
---
 edn/src/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edn/src/types.rs b/edn/src/types.rs
index 3bfef92..a76399d 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -656,7 +656,10 @@ pub trait FromMicros {
 
 impl FromMicros for DateTime<Utc> {
     fn from_micros(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000_000, ((ts % 1_000_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000_000),
+            (ts.rem_euclid(1_000_000) as u32) * 1_000,
+        )
     }
 }
 
@@ -678,7 +681,10 @@ pub trait FromMillis {
 
 impl FromMillis for DateTime<Utc> {
     fn from_millis(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000, ((ts % 1_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000),
+            (ts.rem_euclid(1_000) as u32) * 1_000_000,
+        )
     }
 }
 
-- 
2.43.0


From dd368bb8e16437a8bc5124bb0f2b797bb287fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 29/84] fix: read back plain keywords

A keyword without a namespace could be stored as a value or an ident, but
every attempt to read it failed with 'InvalidKeyword', so that a store
with such an ident could not even be opened again.
---
 db/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/src/lib.rs b/db/src/lib.rs
index 07ce4ee..7fd9041 100644
--- a/db/src/lib.rs
+++ b/db/src/lib.rs
@@ -92,6 +92,10 @@ pub fn to_namespaced_keyword(s: &str) -> Result<symbols::Keyword> {
         (Some(""), Some(namespace), Some(name), None) => {
             Some(symbols::Keyword::namespaced(namespace, name))
         }
+        // A plain keyword can be stored as a value, too.
+        (Some(""), Some(name), None, None) if !name.is_empty() && !s.contains('/') => {
+            Some(symbols::Keyword::plain(name))
+        }
         _ => None,
     };
 
-- 
2.43.0


From 13bc4bf55a68a0b2227b0e9865aa373149b55d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 30/84] fix: write infinite doubles as SQL

An infinite double used as a constant or input became 'inf' in the SQL of
the query, which failed with 'no such column'.
---
 sql/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sql/src/lib.rs b/sql/src/lib.rs
index 65dd6bc..c40101f 100644
--- a/sql/src/lib.rs
+++ b/sql/src/lib.rs
@@ -148,7 +148,15 @@ impl QueryBuilder for SQLiteQueryBuilder {
                 // We format with 'e' -- scientific notation -- so that SQLite treats them as
                 // floats and not integers. This is most noticeable for fulltext scores, which
                 // will currently (2017-06) always be 0, and need to round-trip as doubles.
-                self.push_sql(format!("{:e}", v).as_str());
+                if v.is_finite() {
+                    self.push_sql(format!("{:e}", v).as_str());
+                } else if v.is_nan() {
+                    // SQLite has no NaN: it equals nothing, not even itself.
+                    self.push_sql("NULL");
+                } else {
+                    // SQLite has no name for infinity, but overflowing literals denote it.
+                    self.push_sql(if *v > 0.0 { "9e999" } else { "-9e999" });
+                }
             }
             Instant(dt) => {
                 self.push_sql(format!("{}", dt.to_micros()).as_str()); // TODO: argument instead?
-- 
2.43.0


From 7813133e8f4e059f50e315c03c8b473e3819d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 31/84] fix: take a plain keyword in value position for the
 value

[?e :a :plain] was parsed as [?e :a _ :plain], a pattern whose
transaction is named by the keyword, and matched nothing.
---
 edn/src/query.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edn/src/query.rs b/edn/src/query.rs
index 7cc6bcd..5e6e614 100644
--- a/edn/src/query.rs
+++ b/edn/src/query.rs
@@ -380,7 +380,7 @@ impl FromValue<PatternValuePlace> for PatternValuePlace {
             crate::SpannedValue::PlainSymbol(ref x) => {
                 Variable::from_symbol(x).map(PatternValuePlace::Variable)
             }
-            crate::SpannedValue::Keyword(ref x) if x.is_namespaced() => Some(x.clone().into()),
+            crate::SpannedValue::Keyword(ref x) => Some(x.clone().into()),
             crate::SpannedValue::Boolean(x) => {
                 Some(PatternValuePlace::Constant(NonIntegerConstant::Boolean(x)))
             }
@@ -405,7 +405,6 @@ impl FromValue<PatternValuePlace> for PatternValuePlace {
             // These don't appear in queries.
             crate::SpannedValue::Nil => None,
             crate::SpannedValue::NamespacedSymbol(_) => None,
-            crate::SpannedValue::Keyword(_) => None, // … yet.
             crate::SpannedValue::Map(_) => None,
             crate::SpannedValue::List(_) => None,
             crate::SpannedValue::Set(_) => None,
-- 
2.43.0


From 990a93c6508f1b096981edd98e7edb33e686b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 32/84] fix: truncate instants in transactions and queries to
 microseconds

Instants are stored in microseconds, and TypedValue's conversion from
DateTime truncates, but the values of #inst literals and of bind_date_time
kept their nanoseconds: a constant so written did not match through the
attribute cache the fact it matches in the store, and two such assertions
of what is stored as the same value were taken for different facts.
---
 db/src/db.rs                            | 2 +-
 query-algebrizer/src/clauses/convert.rs | 2 +-
 query-algebrizer/src/clauses/pattern.rs | 2 +-
 query-algebrizer/src/clauses/resolve.rs | 4 ++--
 src/query_builder.rs                    | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index f0cec21..9f67b06 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -443,7 +443,7 @@ impl TypedSQLValue for TypedValue {
     fn from_edn_value(value: &Value) -> Option<TypedValue> {
         match value {
             Value::Boolean(x) => Some(TypedValue::Boolean(*x)),
-            Value::Instant(x) => Some(TypedValue::Instant(*x)),
+            Value::Instant(x) => Some((*x).into()),
             Value::Integer(x) => Some(TypedValue::Long(*x)),
             Value::Uuid(x) => Some(TypedValue::Uuid(*x)),
             Value::Float(ref x) => Some(TypedValue::Double(*x)),
diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 9448229..ee9b8d5 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -216,7 +216,7 @@ impl ConjoiningClauses {
                 coerce_to_typed_value!(var, x, known_types, ValueType::Boolean, TypedValue::Boolean)
             }
             FnArg::Constant(NonIntegerConstant::Instant(x)) => {
-                coerce_to_typed_value!(var, x, known_types, ValueType::Instant, TypedValue::Instant)
+                coerce_to_typed_value!(var, x, known_types, ValueType::Instant, TypedValue::from)
             }
             FnArg::Constant(NonIntegerConstant::Uuid(x)) => {
                 coerce_to_typed_value!(var, x, known_types, ValueType::Uuid, TypedValue::Uuid)
diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index c0f5206..140481d 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -33,7 +33,7 @@ pub fn into_typed_value(nic: NonIntegerConstant) -> TypedValue {
         NonIntegerConstant::Boolean(v) => TypedValue::Boolean(v),
         NonIntegerConstant::Float(v) => TypedValue::Double(v),
         NonIntegerConstant::Text(v) => v.into(),
-        NonIntegerConstant::Instant(v) => TypedValue::Instant(v),
+        NonIntegerConstant::Instant(v) => v.into(),
         NonIntegerConstant::Uuid(v) => TypedValue::Uuid(v),
     }
 }
diff --git a/query-algebrizer/src/clauses/resolve.rs b/query-algebrizer/src/clauses/resolve.rs
index 0d4f1fa..ebb39a5 100644
--- a/query-algebrizer/src/clauses/resolve.rs
+++ b/query-algebrizer/src/clauses/resolve.rs
@@ -93,7 +93,7 @@ impl ConjoiningClauses {
                 }
             },
             Constant(NonIntegerConstant::Instant(v)) => {
-                Ok(QueryValue::TypedValue(TypedValue::Instant(v)))
+                Ok(QueryValue::TypedValue(v.into()))
             }
 
             // TODO: should we allow integers if they seem to be timestamps? It's ambiguous…
@@ -205,7 +205,7 @@ impl ConjoiningClauses {
                 Ok(QueryValue::TypedValue(TypedValue::Uuid(u)))
             }
             Constant(NonIntegerConstant::Instant(u)) => {
-                Ok(QueryValue::TypedValue(TypedValue::Instant(u)))
+                Ok(QueryValue::TypedValue(u.into()))
             }
             Constant(NonIntegerConstant::BigInteger(_)) => unimplemented!(),
             SrcVar(_) => unimplemented!(),
diff --git a/src/query_builder.rs b/src/query_builder.rs
index 90c44b2..1fb5497 100644
--- a/src/query_builder.rs
+++ b/src/query_builder.rs
@@ -88,7 +88,7 @@ impl<'a> QueryBuilder<'a> {
 
     pub fn bind_date_time(&mut self, var: &str, value: DateTime<Utc>) -> &mut Self {
         self.values
-            .insert(Variable::from_valid_name(var), TypedValue::Instant(value));
+            .insert(Variable::from_valid_name(var), value.into());
         self
     }
 
-- 
2.43.0


From 27c85ebf6200d0fee30f7c0a0d51f0a8b8c9c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 33/84] fix: bind doubles that SQLite may not parse exactly

SQLite's reading of decimal literals is not always exact, so that a double
with many digits or a large exponent used as a constant or input could
miss the very value it was written with.
---
 sql/src/lib.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/sql/src/lib.rs b/sql/src/lib.rs
index c40101f..6632d37 100644
--- a/sql/src/lib.rs
+++ b/sql/src/lib.rs
@@ -72,6 +72,24 @@ impl QueryFragment for () {
     }
 }
 
+/// SQLite reads a decimal literal exactly when its digits fit a double and the power of ten is one
+/// that a double holds exactly; other literals can come out as a neighboring number, and infinity
+/// has no literal at all.
+fn is_exact_in_sql(literal: &str) -> bool {
+    let mut parts = literal.splitn(2, 'e');
+    match (
+        parts.next(),
+        parts.next().and_then(|e| e.parse::<i32>().ok()),
+    ) {
+        (Some(digits), Some(exponent)) => {
+            digits.chars().filter(char::is_ascii_digit).count() <= 15
+                && exponent >= -7
+                && exponent <= 22
+        }
+        _ => false,
+    }
+}
+
 /// A QueryBuilder that implements SQLite's specific escaping rules.
 #[derive(Default)]
 pub struct SQLiteQueryBuilder {
@@ -148,14 +166,11 @@ impl QueryBuilder for SQLiteQueryBuilder {
                 // We format with 'e' -- scientific notation -- so that SQLite treats them as
                 // floats and not integers. This is most noticeable for fulltext scores, which
                 // will currently (2017-06) always be 0, and need to round-trip as doubles.
-                if v.is_finite() {
-                    self.push_sql(format!("{:e}", v).as_str());
-                } else if v.is_nan() {
-                    // SQLite has no NaN: it equals nothing, not even itself.
-                    self.push_sql("NULL");
+                let literal = format!("{:e}", v);
+                if is_exact_in_sql(&literal) {
+                    self.push_sql(literal.as_str());
                 } else {
-                    // SQLite has no name for infinity, but overflowing literals denote it.
-                    self.push_sql(if *v > 0.0 { "9e999" } else { "-9e999" });
+                    self.push_static_arg(Rc::new(rusqlite::types::Value::Real(*v)));
                 }
             }
             Instant(dt) => {
-- 
2.43.0


From 57741b241f1e31f6145675e63f413db428104bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 34/84] fix: an explicit join inside a clause mentions only its
 unified variables

---
 edn/src/query.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/edn/src/query.rs b/edn/src/query.rs
index 5e6e614..4aee2af 100644
--- a/edn/src/query.rs
+++ b/edn/src/query.rs
@@ -1079,10 +1079,17 @@ impl ContainsVariables for WhereClause {
     fn accumulate_mentioned_variables(&self, acc: &mut BTreeSet<Variable>) {
         use self::WhereClause::*;
         match self {
-            OrJoin(ref o) => o.accumulate_mentioned_variables(acc),
+            OrJoin(ref o) => match o.unify_vars {
+                UnifyVars::Implicit => o.accumulate_mentioned_variables(acc),
+                // The other variables are local to the clause.
+                UnifyVars::Explicit(ref vs) => acc.extend(vs.iter().cloned()),
+            },
             Pred(ref p) => p.accumulate_mentioned_variables(acc),
             Pattern(ref p) => p.accumulate_mentioned_variables(acc),
-            NotJoin(ref n) => n.accumulate_mentioned_variables(acc),
+            NotJoin(ref n) => match n.unify_vars {
+                UnifyVars::Implicit => n.accumulate_mentioned_variables(acc),
+                UnifyVars::Explicit(ref vs) => acc.extend(vs.iter().cloned()),
+            },
             WhereFn(ref f) => f.accumulate_mentioned_variables(acc),
             TypeAnnotation(ref a) => a.accumulate_mentioned_variables(acc),
             RuleExpr => (),
-- 
2.43.0


From c32ba1a22590c085f069ebf98f0269ed080eaf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 35/84] fix: let a negative integer in ground be a long where a
 ref is possible, too

---
 query-algebrizer/src/clauses/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index ee9b8d5..8db5d10 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -138,11 +138,11 @@ impl ConjoiningClauses {
                         // This can only be a ref.
                         Ok(Val(TypedValue::Ref(x)))
                     }
-                    (_, false, true) => {
+                    (_, false, true) | (false, true, true) => {
                         // This can only be a long.
                         Ok(Val(TypedValue::Long(x)))
                     }
-                    (false, true, _) => {
+                    (false, true, false) => {
                         // This isn't a valid ref, but that's the type to which this must conform!
                         Ok(Impossible(EmptyBecause::TypeMismatch {
                             var: var.clone(),
-- 
2.43.0


From 9fe66e3c14f8a4e14768c9f82779a9ccc7dd5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 36/84] fix: keep SQLite from dropping DISTINCT because of a
 partial index

---
 query-projector/src/translate.rs | 65 ++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 3 deletions(-)

diff --git a/query-projector/src/translate.rs b/query-projector/src/translate.rs
index 5c740d0..92f4a5f 100644
--- a/query-projector/src/translate.rs
+++ b/query-projector/src/translate.rs
@@ -17,7 +17,7 @@ use mentat_core::util::Either;
 use edn::query::Limit;
 
 use mentat_query_algebrizer::{
-    AlgebraicQuery, ColumnAlternation, ColumnConstraint, ColumnConstraintOrAlternation,
+    AlgebraicQuery, Column, ColumnAlternation, ColumnConstraint, ColumnConstraintOrAlternation,
     ColumnIntersection, ColumnName, ComputedTable, ConjoiningClauses, DatomsColumn, DatomsTable,
     OrderBy, QualifiedAlias, QueryValue, SourceAlias, TableAlias, VariableColumn,
 };
@@ -340,6 +340,62 @@ fn empty_query() -> SelectQuery {
 /// Returns a `SelectQuery` that queries for the provided `cc`. Note that this _always_ returns a
 /// query that runs SQL. The next level up the call stack can check for known-empty queries if
 /// needed.
+/// SQLite takes the `DISTINCT` of a query on one table for redundant as soon as the columns of one
+/// of its unique indices are all fixed or projected. The SQLite that we use does that even for a
+/// partial index, such as the one on the attribute, type tag, and value of unique attributes, and
+/// then returns other rows several times. It doesn't look into expressions, so unless we project
+/// the entity, too, hide the type tag in one.
+fn keep_distinct(query: &mut SelectQuery) {
+    let alias = match query.from {
+        FromClause::TableList(TableList(ref tables)) => match (tables.len(), tables.first()) {
+            (1, Some(TableOrSubquery::Table(SourceAlias(DatomsTable::Datoms, alias)))) => alias,
+            _ => return,
+        },
+        _ => return,
+    };
+    let columns = match query.projection {
+        Projection::Columns(ref mut columns) => columns,
+        _ => return,
+    };
+
+    let is = |column: &ColumnOrExpression, wanted: DatomsColumn| match column {
+        ColumnOrExpression::Column(QualifiedAlias(a, Column::Fixed(c))) => {
+            a == alias && *c == wanted
+        }
+        _ => false,
+    };
+    if columns.iter().any(|c| is(&c.0, DatomsColumn::Entity)) {
+        return;
+    }
+
+    let hide = |column: &mut ColumnOrExpression| {
+        if is(column, DatomsColumn::ValueTypeTag) {
+            let tag = ::std::mem::replace(column, ColumnOrExpression::Integer(0));
+            let expression = Expression::Unary {
+                sql_op: "+",
+                arg: tag,
+            };
+            *column = ColumnOrExpression::Expression(Box::new(expression), ValueType::Long);
+        }
+    };
+    for column in columns.iter_mut() {
+        hide(&mut column.0);
+    }
+    let mut pending: Vec<&mut Constraint> = query.constraints.iter_mut().collect();
+    while let Some(constraint) = pending.pop() {
+        match constraint {
+            Constraint::Infix { left, right, .. } => {
+                hide(left);
+                hide(right);
+            }
+            Constraint::And { constraints } | Constraint::Or { constraints } => {
+                pending.extend(constraints.iter_mut())
+            }
+            _ => (),
+        }
+    }
+}
+
 fn cc_to_select_query(
     projection: Projection,
     cc: ConjoiningClauses,
@@ -376,7 +432,7 @@ fn cc_to_select_query(
     } else {
         limit
     };
-    SelectQuery {
+    let mut query = SelectQuery {
         distinct,
         projection,
         from,
@@ -384,7 +440,10 @@ fn cc_to_select_query(
         constraints: cc.wheres.into_iter().map(|c| c.to_constraint()).collect(),
         order,
         limit,
-    }
+    };
+    // The query might not be distinct itself, but end up as a distinct subquery.
+    keep_distinct(&mut query);
+    query
 }
 
 /// Return a query that projects `1` if the `cc` matches the store, and returns no results
-- 
2.43.0


From 7c05708e02f2da7e292d2b208c6782a9de61dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 37/84] fix: count tables without constraints as something that
 must hold

---
 query-algebrizer/src/clauses/not.rs | 8 ++++----
 query-algebrizer/src/lib.rs         | 2 +-
 query-algebrizer/src/types.rs       | 3 +++
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 8b08f19..722aea6 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -14,7 +14,7 @@ use crate::clauses::ConjoiningClauses;
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
-use crate::types::{ColumnConstraint, ComputedTable};
+use crate::types::{ColumnConstraint, ComputedTable, EmptyBecause};
 
 use crate::Known;
 
@@ -60,9 +60,9 @@ impl ConjoiningClauses {
             return Ok(());
         }
 
-        // If we don't impose any constraints on the output, we might as well
-        // not exist.
-        if template.wheres.is_empty() {
+        // If there's nothing that might not hold, nothing is left.
+        if template.from.is_empty() && template.wheres.is_empty() {
+            self.mark_known_empty(EmptyBecause::TautologicalNot);
             return Ok(());
         }
 
diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 36cdbe7..14e9ef2 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -183,7 +183,7 @@ impl AlgebraicQuery {
     /// Return true if every variable in the find spec is fully bound to a single value,
     /// and evaluating the query doesn't require running SQL.
     pub fn is_fully_unit_bound(&self) -> bool {
-        self.cc.wheres.is_empty() && self.is_fully_bound()
+        self.cc.from.is_empty() && self.cc.wheres.is_empty() && self.is_fully_bound()
     }
 
     /// Return a set of the input variables mentioned in the `:in` clause that have not yet been
diff --git a/query-algebrizer/src/types.rs b/query-algebrizer/src/types.rs
index bde772a..4a8cee7 100644
--- a/query-algebrizer/src/types.rs
+++ b/query-algebrizer/src/types.rs
@@ -618,6 +618,8 @@ pub enum EmptyBecause {
     InvalidAttributeEntid(Entid),
     InvalidBinding(Column, TypedValue),
     ValueTypeMismatch(ValueType, TypedValue),
+    /// The clauses inside a `not` hold whatever the bindings are.
+    TautologicalNot,
     AttributeLookupFailed, // Catch-all, because the table lookup code is lazy. TODO
 }
 
@@ -677,6 +679,7 @@ impl Debug for EmptyBecause {
                 "Type mismatch: {:?} doesn't match attribute type {:?}",
                 typed_value, value_type
             ),
+            TautologicalNot => write!(f, "A `not` holds for no binding"),
             AttributeLookupFailed => write!(f, "Attribute lookup failed"),
         }
     }
-- 
2.43.0


From 7537cbabf44439fffc4241f1044753ba1740e107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 38/84] fix: don't hide outer computed tables inside not

---
 query-algebrizer/src/clauses/mod.rs | 9 ++++++++-
 query-algebrizer/src/clauses/not.rs | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 09bfe66..2a73207 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -134,6 +134,10 @@ pub struct ConjoiningClauses {
     /// A data source used to generate an alias for a table -- e.g., from "datoms" to "datoms123".
     alias_counter: RcCounter,
 
+    /// How many computed tables the enclosing scope names, if these clauses can refer to it. The
+    /// aliases of our own computed tables must differ from those.
+    pub(crate) outer_computed_tables: usize,
+
     /// A vector of source/alias pairs used to construct a SQL `FROM` list.
     pub from: Vec<SourceAlias>,
 
@@ -218,6 +222,7 @@ impl Default for ConjoiningClauses {
         ConjoiningClauses {
             empty_because: None,
             alias_counter: RcCounter::new(),
+            outer_computed_tables: 0,
             from: vec![],
             computed_tables: vec![],
             wheres: ColumnIntersection::default(),
@@ -887,7 +892,9 @@ impl ConjoiningClauses {
 
     pub(crate) fn next_alias_for_table(&mut self, table: DatomsTable) -> TableAlias {
         match table {
-            DatomsTable::Computed(u) => format!("{}{:02}", table.name(), u),
+            DatomsTable::Computed(u) => {
+                format!("{}{:02}", table.name(), self.outer_computed_tables + u)
+            }
             _ => format!("{}{:02}", table.name(), self.alias_counter.next()),
         }
     }
diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 722aea6..6d06118 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -27,6 +27,9 @@ impl ConjoiningClauses {
 
         let mut template = self.use_as_template(&unified);
 
+        // The subquery refers to columns of ours, which computed tables of its own must not hide.
+        template.outer_computed_tables = self.outer_computed_tables + self.computed_tables.len();
+
         for v in unified.iter() {
             if self.value_bindings.contains_key(&v) {
                 let val = self.value_bindings.get(&v).unwrap().clone();
-- 
2.43.0


From 5b19aaad68a4cd007c8aa66f0799fbdd11f5bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 39/84] fix: an or none of whose patterns can match

---
 query-algebrizer/src/clauses/or.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 1376fa6..1c04d7d 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -354,18 +354,24 @@ impl ConjoiningClauses {
 
         assert!(patterns.len() >= 2);
 
+        let mut reason = None;
         let patterns: Vec<EvolvedPattern> = patterns
             .into_iter()
             .filter_map(|pattern| {
                 match self.make_evolved_pattern(known, pattern) {
-                    PlaceOrEmpty::Empty(_e) => {
-                        // Never mind.
+                    PlaceOrEmpty::Empty(e) => {
+                        // Never mind, unless none is left.
+                        reason = Some(e);
                         None
                     }
                     PlaceOrEmpty::Place(p) => Some(p),
                 }
             })
             .collect();
+        if let (true, Some(reason)) = (patterns.is_empty(), reason) {
+            self.mark_known_empty(reason);
+            return Ok(());
+        }
 
         // Begin by building a base CC that we'll use to produce constraints from each pattern.
         // Populate this base CC with whatever variables are already known from the CC to which
-- 
2.43.0


From 8ba24e79dc3766c7b01a25371068591a5d5d39ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 40/84] fix: don't look for variables of clauses that cannot
 match

---
 query-algebrizer/src/clauses/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 2a73207..0ddd6f8 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -1184,6 +1184,11 @@ impl ConjoiningClauses {
                         self.apply_evolved_patterns(known, patterns)?;
                         patterns = VecDeque::with_capacity(remaining);
                     }
+                    if self.is_known_empty() {
+                        // Clauses that cannot match didn't bind their variables, so we mustn't look
+                        // for them. The rest doesn't matter anyway.
+                        return Ok(());
+                    }
                     self.apply_clause(known, clause)?;
                 }
             }
-- 
2.43.0


From 4a5696ab7a11570a8b532912441a7410c3c0de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 41/84] fix: constrain the type tag of computed tables by its
 name

---
 query-algebrizer/src/clauses/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 0ddd6f8..919a893 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -364,8 +364,14 @@ impl ConjoiningClauses {
         // Are we also trying to figure out the type of the value when the query runs?
         // If so, constrain that!
         if let Some(qa) = self.extracted_types.get(&var) {
-            self.wheres
-                .add_intersection(ColumnConstraint::has_unit_type(qa.0.clone(), vt));
+            self.wheres.add_intersection(match qa.1 {
+                // The type tag columns of computed tables are named after the variable.
+                Column::Variable(_) => ColumnConstraint::Equals(
+                    qa.clone(),
+                    QueryValue::Entid(vt.value_type_tag().into()),
+                ),
+                _ => ColumnConstraint::has_unit_type(qa.0.clone(), vt),
+            });
         }
 
         // Finally, store the binding for future use.
-- 
2.43.0


From 8a78741318505c8e018529e6b38161c17f6564a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 42/84] fix: check that a value beside an unknown attribute is
 a ref

---
 query-algebrizer/src/clauses/pattern.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 140481d..7a534bb 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -151,9 +151,18 @@ impl ConjoiningClauses {
                 self.bind_column_to_var(schema, col.clone(), DatomsColumn::Value, v.clone());
             }
             EvolvedValuePlace::Entid(i) => match value_type {
-                Some(ValueType::Ref) | None => {
+                Some(ValueType::Ref) => {
                     self.constrain_column_to_entity(col.clone(), DatomsColumn::Value, i);
                 }
+                None => {
+                    self.constrain_column_to_entity(col.clone(), DatomsColumn::Value, i);
+                    // The attribute doesn't tell, so values of other types might look the same.
+                    self.wheres
+                        .add_intersection(ColumnConstraint::has_unit_type(
+                            col.clone(),
+                            ValueType::Ref,
+                        ));
+                }
                 Some(value_type) => {
                     self.mark_known_empty(EmptyBecause::ValueTypeMismatch(
                         value_type,
-- 
2.43.0


From 8b795182a58edaeb5a9fbeedb8ae827b39ef9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 43/84] fix: take types out of or-join arms only for the joined
 variables

---
 query-algebrizer/src/clauses/or.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 1c04d7d..948f041 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -645,10 +645,12 @@ impl ConjoiningClauses {
         let projection: BTreeSet<Variable> = projected.into_iter().collect();
         let mut type_needed: BTreeSet<Variable> = BTreeSet::default();
 
-        // For any variable which has an imprecise type anywhere in the UNION, add it to the
-        // set that needs type extraction. All UNION arms must project the same columns.
+        // For any variable which has an imprecise type anywhere in the UNION, or different types in
+        // different arms, add it to the set that needs type extraction. All UNION arms must project
+        // the same columns.
         for var in projection.iter() {
-            if acc.iter().any(|cc| cc.known_type(var).is_none()) {
+            let first = acc[0].known_type(var);
+            if first.is_none() || acc.iter().any(|cc| cc.known_type(var) != first) {
                 type_needed.insert(var.clone());
             }
         }
@@ -674,7 +676,13 @@ impl ConjoiningClauses {
             for cc in clauses {
                 union_types(&mut additional_types, &cc.known_types);
             }
-            self.broaden_types(additional_types);
+            // Other variables are local to the arms, whatever their names mean outside.
+            let additional_types = additional_types
+                .into_iter()
+                .filter(|(var, _)| projection.contains(var))
+                .collect();
+            // The arms started from the types we know, and their required types are met.
+            self.narrow_types(additional_types);
         }
 
         let union = ComputedTable::Union {
-- 
2.43.0


From bde82ed19cfdf3a653fc600caf7449d64454de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 44/84] fix: compare type tags of values beside unknown
 attributes and of unions

---
 query-algebrizer/src/clauses/mod.rs        | 96 ++++++++++++++++------
 query-algebrizer/src/clauses/not.rs        | 11 +++
 query-algebrizer/src/clauses/or.rs         | 46 ++++++++---
 query-algebrizer/src/clauses/pattern.rs    |  5 +-
 query-algebrizer/src/clauses/tx_log_api.rs |  3 +
 query-algebrizer/src/lib.rs                |  1 +
 query-projector/src/translate.rs           | 16 +++-
 7 files changed, 138 insertions(+), 40 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 919a893..6983e97 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -18,7 +18,7 @@ use std::fmt::{Debug, Formatter};
 
 use core_traits::{Attribute, Entid, KnownEntid, TypedValue, ValueType, ValueTypeSet};
 
-use mentat_core::{Cloned, HasSchema, Schema};
+use mentat_core::{Cloned, HasSchema, SQLValueType, Schema};
 
 use mentat_core::counter::RcCounter;
 
@@ -29,7 +29,7 @@ use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 use crate::types::{
     Column, ColumnConstraint, ColumnIntersection, ComputedTable, DatomsColumn, DatomsTable,
     EmptyBecause, EvolvedNonValuePlace, EvolvedPattern, EvolvedValuePlace, FulltextColumn,
-    PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias, TableAlias,
+    PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias, TableAlias, TransactionsColumn,
 };
 
 mod convert; // Converting args to values.
@@ -178,6 +178,10 @@ pub struct ConjoiningClauses {
     /// If a var isn't unit in `known_types`, it should be present here.
     pub extracted_types: BTreeMap<Variable, QualifiedAlias>,
 
+    /// The type tag columns of the value columns that can hold values of any type -- those whose
+    /// attribute isn't known -- with the variables those value columns are bound to.
+    open_columns: Vec<(Variable, QualifiedAlias)>,
+
     /// Map of variables to the set of type requirements we have for them.
     required_types: BTreeMap<Variable, ValueTypeSet>,
 }
@@ -232,6 +236,7 @@ impl Default for ConjoiningClauses {
             value_bindings: BTreeMap::new(),
             known_types: BTreeMap::new(),
             extracted_types: BTreeMap::new(),
+            open_columns: vec![],
         }
     }
 }
@@ -1003,6 +1008,68 @@ impl ConjoiningClauses {
         }
     }
 
+    /// Note that the value column with the given type tag column can hold values of any type.
+    pub(crate) fn note_open_column(&mut self, var: &Variable, tag: QualifiedAlias) {
+        self.open_columns.push((var.clone(), tag));
+    }
+
+    /// When a CC has accumulated all patterns, constrain the type tags of value columns that can
+    /// hold values of any type.
+    ///
+    /// Values of different types can have the same SQLite representation. E.g., a boolean shares
+    /// its representation with integers, refs and instants, and a keyword with strings. Joining
+    /// the value columns is thus not enough: if the variable has a known type, or if another
+    /// column gives its type, the type tags must match, too.
+    ///
+    /// TODO: values joined with an entity, attribute or transaction must be refs, but we don't
+    /// check that for tables of our own.
+    pub(crate) fn expand_type_tags(&mut self) {
+        for (var, tag) in ::std::mem::replace(&mut self.open_columns, vec![]) {
+            let value_type = match self.bound_value(&var) {
+                Some(value) => Some(value.value_type()),
+                None if self.input_variables.contains(&var) => continue,
+                None if self.is_entity(&var) && self.is_own_datoms_table(&tag.0) => continue,
+                None => self.known_type(&var),
+            };
+            let required = match (value_type, self.extracted_types.get(&var)) {
+                (Some(value_type), _) => QueryValue::Entid(value_type.value_type_tag().into()),
+                (None, Some(source)) if source != &tag => QueryValue::Column(source.clone()),
+                (None, _) => continue,
+            };
+            self.wheres
+                .add_intersection(ColumnConstraint::Equals(tag, required));
+        }
+    }
+
+    /// Whether `var` is bound to an entity, attribute or transaction column.
+    fn is_entity(&self, var: &Variable) -> bool {
+        let is_value = |column: &QualifiedAlias| match column.1 {
+            Column::Fixed(DatomsColumn::Value) => true,
+            Column::Transactions(TransactionsColumn::Value) => true,
+            Column::Fixed(_) | Column::Transactions(_) => false,
+            Column::Fulltext(_) | Column::Variable(_) => true,
+        };
+        self.column_bindings
+            .get(var)
+            .map_or(false, |columns| !columns.iter().all(is_value))
+    }
+
+    /// Whether what we know about the type of `var` is at least what's required.
+    pub(crate) fn meets_required_types(&self, var: &Variable) -> bool {
+        match (self.required_types.get(var), self.known_types.get(var)) {
+            (None, _) => true,
+            (Some(required), Some(known)) => known.is_subset(*required),
+            (Some(_), None) => false,
+        }
+    }
+
+    fn is_own_datoms_table(&self, alias: &TableAlias) -> bool {
+        self.from.iter().any(|SourceAlias(table, a)| match table {
+            DatomsTable::Computed(_) => false,
+            _ => a == alias,
+        })
+    }
+
     /// Eliminate any type extractions for variables whose types are definitely known.
     pub(crate) fn prune_extracted_types(&mut self) {
         if self.extracted_types.is_empty() || self.known_types.is_empty() {
@@ -1093,31 +1160,6 @@ impl ConjoiningClauses {
         Ok(())
     }
 
-    /// When a CC has accumulated all patterns, generate value_type_tag entries in `wheres`
-    /// to refine value types for which two things are true:
-    ///
-    /// - There are two or more different types with the same SQLite representation. E.g.,
-    ///   ValueType::Boolean shares a representation with Integer and Ref.
-    /// - There is no attribute constraint present in the CC.
-    ///
-    /// It's possible at this point for the space of acceptable type tags to not intersect: e.g.,
-    /// for the query
-    ///
-    /// ```edn
-    /// [:find ?x :where
-    ///  [?x ?y true]
-    ///  [?z ?y ?x]]
-    /// ```
-    ///
-    /// where `?y` must simultaneously be a ref-typed attribute and a boolean-typed attribute. This
-    /// function deduces that and calls `self.mark_known_empty`. #293.
-    #[allow(dead_code)]
-    pub(crate) fn expand_type_tags(&mut self) {
-        // TODO.
-    }
-}
-
-impl ConjoiningClauses {
     fn apply_evolved_patterns(
         &mut self,
         known: Known,
diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 6d06118..6794911 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -48,7 +48,18 @@ impl ConjoiningClauses {
             return Ok(());
         }
 
+        // The clauses inside can determine types that are still open outside. (Bound values
+        // bring their type tags along, and required types are taken care of below.)
+        for v in unified.iter() {
+            if let (None, Some(tag)) = (self.known_type(v), self.extracted_types.get(v)) {
+                if template.bound_value(v).is_none() && template.meets_required_types(v) {
+                    template.note_open_column(v, tag.clone());
+                }
+            }
+        }
+
         template.expand_column_bindings();
+        template.expand_type_tags();
         if template.is_known_empty() {
             return Ok(());
         }
diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 948f041..5c65e27 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -23,8 +23,8 @@ use crate::clauses::{ConjoiningClauses, PushComputed};
 use query_algebrizer_traits::errors::Result;
 
 use crate::types::{
-    ColumnAlternation, ColumnConstraintOrAlternation, ColumnIntersection, ComputedTable,
-    DatomsTable, EmptyBecause, EvolvedPattern, PlaceOrEmpty, QualifiedAlias, SourceAlias,
+    Column, ColumnAlternation, ColumnConstraintOrAlternation, ColumnIntersection, ComputedTable,
+    DatomsColumn, DatomsTable, EmptyBecause, EvolvedPattern, PlaceOrEmpty, QualifiedAlias, SourceAlias,
     VariableColumn,
 };
 
@@ -387,6 +387,10 @@ impl ConjoiningClauses {
             .alias_table(known.schema, &patterns[0])
             .expect("couldn't get table");
 
+        // The variables in the value place.
+        let mut value_vars: Vec<Variable> = vec![];
+        let mut open_columns: Vec<(Variable, QualifiedAlias)> = vec![];
+
         // This is where we'll collect everything we eventually add to the destination CC.
         let mut folded = ConjoiningClauses::default();
 
@@ -448,6 +452,13 @@ impl ConjoiningClauses {
                         }
                     }
                 }
+                open_columns = first.open_columns.clone();
+                let value = Column::Fixed(DatomsColumn::Value);
+                for (v, cols) in &first.column_bindings {
+                    if cols.iter().any(|col| col.1 == value) {
+                        value_vars.push(v.clone());
+                    }
+                }
             } else {
                 // No non-empty receptacles? The destination CC is known-empty, because or([]) is false.
                 self.mark_known_empty(reason.unwrap_or(EmptyBecause::AttributeLookupFailed));
@@ -492,6 +503,16 @@ impl ConjoiningClauses {
             }
         }
 
+        // Unless all patterns agree on the type of a value we need its tag.
+        for var in value_vars {
+            if folded.known_type(&var).is_none() {
+                let tag = QualifiedAlias::new(source_alias.1.clone(), DatomsColumn::ValueTypeTag);
+                open_columns.push((var.clone(), tag.clone()));
+                self.extracted_types.entry(var).or_insert(tag);
+            }
+        }
+        self.open_columns.append(&mut open_columns);
+
         // Collect the source alias: we use a single table join to represent the entire `or`.
         self.from.push(source_alias);
 
@@ -568,7 +589,9 @@ impl ConjoiningClauses {
             UnifyVars::Explicit(vs) => vs,
         };
 
-        let template = self.use_as_template(&projected);
+        let mut template = self.use_as_template(&projected);
+        // The arms are subqueries, which can't refer to the type tags of tables outside them.
+        template.extracted_types.clear();
 
         let mut acc = Vec::with_capacity(join_clauses.len());
         let mut empty_because: Option<EmptyBecause> = None;
@@ -583,12 +606,15 @@ impl ConjoiningClauses {
                     receptacle.apply_clause(known, clause)?;
                 }
             }
-            if receptacle.is_known_empty() {
-                empty_because = receptacle.empty_because;
-            } else {
+            if !receptacle.is_known_empty() {
                 receptacle.expand_column_bindings();
+                receptacle.expand_type_tags();
                 receptacle.prune_extracted_types();
                 receptacle.process_required_types()?;
+            }
+            if receptacle.is_known_empty() {
+                empty_because = receptacle.empty_because;
+            } else {
                 acc.push(receptacle);
             }
         }
@@ -704,10 +730,10 @@ impl ConjoiningClauses {
             );
         }
         for var in type_associations.into_iter() {
-            self.extracted_types.insert(
-                var.clone(),
-                QualifiedAlias::new(alias.clone(), VariableColumn::VariableTypeTag(var)),
-            );
+            let tag =
+                QualifiedAlias::new(alias.clone(), VariableColumn::VariableTypeTag(var.clone()));
+            self.note_open_column(&var, tag.clone());
+            self.extracted_types.insert(var, tag);
         }
         self.from.push(SourceAlias(table, alias));
         Ok(())
diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 7a534bb..c6ebec3 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -22,7 +22,7 @@ use crate::clauses::ConjoiningClauses;
 
 use crate::types::{
     ColumnConstraint, DatomsColumn, EmptyBecause, EvolvedNonValuePlace, EvolvedPattern,
-    EvolvedValuePlace, PlaceOrEmpty, SourceAlias,
+    EvolvedValuePlace, PlaceOrEmpty, QualifiedAlias, SourceAlias,
 };
 
 use crate::Known;
@@ -146,6 +146,9 @@ impl ConjoiningClauses {
                     if self.is_known_empty() {
                         return;
                     }
+                } else {
+                    let tag = QualifiedAlias::new(col.clone(), DatomsColumn::ValueTypeTag);
+                    self.note_open_column(v, tag);
                 }
 
                 self.bind_column_to_var(schema, col.clone(), DatomsColumn::Value, v.clone());
diff --git a/query-algebrizer/src/clauses/tx_log_api.rs b/query-algebrizer/src/clauses/tx_log_api.rs
index 65632b0..c4a5fc8 100644
--- a/query-algebrizer/src/clauses/tx_log_api.rs
+++ b/query-algebrizer/src/clauses/tx_log_api.rs
@@ -272,6 +272,9 @@ impl ConjoiningClauses {
         }
 
         if let VariableOrPlaceholder::Variable(ref var) = b_v {
+            let tag =
+                QualifiedAlias::new(transactions.clone(), TransactionsColumn::ValueTypeTag);
+            self.note_open_column(var, tag);
             self.bind_column_to_var(
                 known.schema,
                 transactions.clone(),
diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 14e9ef2..b062265 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -321,6 +321,7 @@ pub fn algebrize_with_inputs(
     cc.apply_clauses(known, parsed.where_clauses)?;
 
     cc.expand_column_bindings();
+    cc.expand_type_tags();
     cc.prune_extracted_types();
     cc.process_required_types()?;
 
diff --git a/query-projector/src/translate.rs b/query-projector/src/translate.rs
index 92f4a5f..3f468de 100644
--- a/query-projector/src/translate.rs
+++ b/query-projector/src/translate.rs
@@ -27,7 +27,7 @@ use crate::{
 };
 
 use mentat_query_sql::{
-    ColumnOrExpression, Constraint, FromClause, GroupBy, Op, ProjectedColumn, Projection,
+    ColumnOrExpression, Constraint, Expression, FromClause, GroupBy, Op, ProjectedColumn, Projection,
     SelectQuery, TableList, TableOrSubquery, Values,
 };
 
@@ -279,7 +279,19 @@ fn table_for_computed(computed: ComputedTable, alias: TableAlias) -> TableOrSubq
                         // E.g., SELECT datoms03.v AS `?x`.
                         for var in projection.iter() {
                             // TODO: chain results out.
-                            let (projected_column, type_set) = projected_column_for_var(var, &cc).expect("every var to be bound");
+                            let (mut projected_column, type_set) = projected_column_for_var(var, &cc).expect("every var to be bound");
+                            match cc.known_type(var) {
+                                Some(ty @ ValueType::Ref) | Some(ty @ ValueType::Boolean) if type_extraction.contains(var) => {
+                                    // The columns that aren't values have INTEGER affinity, and SQLite
+                                    // might give it to the whole union, and then compare strings as if
+                                    // they were numbers. An expression has no affinity.
+                                    projected_column.0 = ColumnOrExpression::Expression(
+                                        Box::new(Expression::Unary { sql_op: "+", arg: projected_column.0 }),
+                                        ty,
+                                    );
+                                },
+                                _ => (),
+                            }
                             columns.push(projected_column);
 
                             // Similarly, project type tags if they're not known conclusively in the
-- 
2.43.0


From 893cba425631ef936fa068c60fb7e377f4845885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 45/84] fix: Group aggregates by fixed values, too, so that
 nothing is made of no rows

---
 query-projector/src/project.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/query-projector/src/project.rs b/query-projector/src/project.rs
index 4b036a0..c8d8cbb 100644
--- a/query-projector/src/project.rs
+++ b/query-projector/src/project.rs
@@ -440,10 +440,7 @@ pub(crate) fn project_elements<'a, I: IntoIterator<Item = &'a Element>>(
         .zip(::std::iter::repeat(false));
 
     for (var, group) in vars.chain(corresponds) {
-        if query.cc.is_value_bound(&var) {
-            continue;
-        }
-
+        // Group by fixed values, too: without any `GROUP BY`, SQL makes a row of no rows at all.
         if group {
             // The GROUP BY goes outside, but it needs every variable and type tag to be
             // projected from inside. Collect in both directions here.
@@ -451,6 +448,10 @@ pub(crate) fn project_elements<'a, I: IntoIterator<Item = &'a Element>>(
             group_by.push(GroupBy::ProjectedColumn(name));
         }
 
+        if query.cc.is_value_bound(&var) {
+            continue;
+        }
+
         let needs_type_projection = !query.cc.known_type_set(&var).has_unique_type_tag();
 
         let already_inner = inner_variables.contains(&var);
-- 
2.43.0


From 302204bd7a0642f27a2f22ddb746ba415a070517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 46/84] fix: Don't group by (the ?x) variables because of an
 :order

---
 query-projector/src/project.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/query-projector/src/project.rs b/query-projector/src/project.rs
index c8d8cbb..d2f5630 100644
--- a/query-projector/src/project.rs
+++ b/query-projector/src/project.rs
@@ -372,7 +372,8 @@ pub(crate) fn project_elements<'a, I: IntoIterator<Item = &'a Element>>(
     // If a variable is of a non-fixed type, also project the type tag column, so we don't
     // accidentally unify across types when considering uniqueness!
     for var in query.named_projection.iter() {
-        if outer_variables.contains(var) {
+        // Ordering by a `(the ?x)` mustn't make us group by it.
+        if outer_variables.contains(var) || corresponded_variables.contains(var) {
             continue;
         }
 
-- 
2.43.0


From 985fd8e5e95cf3953e4014601a425efa9f62d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 47/84] fix: Let SQL compute aggregates of fixed values; a sum
 of nothing is NULL

---
 query-projector-traits/aggregates.rs | 35 +++++++++-------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index e0b5831..4c91e4c 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -150,20 +150,12 @@ impl SimpleAggregate {
         format!("({} {})", self.op.to_sql(), self.var.name())
     }
 
-    pub fn use_static_value(&self) -> bool {
-        use self::SimpleAggregationOp::*;
-        match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
-        }
-    }
-
     /// Return `true` if this aggregate can be `NULL` over 0 rows.
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
         match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
+            Avg | Max | Min | Sum => true,
+            Count => false,
         }
     }
 }
@@ -195,21 +187,16 @@ pub fn projected_column_for_simple_aggregate(
     let known_types = cc.known_type_set(&simple.var);
     let return_type = simple.op.is_applicable_to_types(known_types)?;
     let projected_column_or_expression = if let Some(value) = cc.bound_value(&simple.var) {
-        // Oh, we already know the value!
-        if simple.use_static_value() {
-            // We can statically compute the aggregate result for some operators -- not count or
-            // sum, but avg/max/min are OK.
-            ColumnOrExpression::Value(value)
+        // We already know the value, but not whether there are any rows: leave it to SQL to compute
+        // the aggregate, so that there's none of no rows, and only one of several.
+        let expression = Expression::Unary {
+            sql_op: simple.op.to_sql(),
+            arg: ColumnOrExpression::Value(value),
+        };
+        if simple.is_nullable() {
+            ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
         } else {
-            let expression = Expression::Unary {
-                sql_op: simple.op.to_sql(),
-                arg: ColumnOrExpression::Value(value),
-            };
-            if simple.is_nullable() {
-                ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
-            } else {
-                ColumnOrExpression::Expression(Box::new(expression), return_type)
-            }
+            ColumnOrExpression::Expression(Box::new(expression), return_type)
         }
     } else {
         // The common case: the values are bound during execution.
-- 
2.43.0


From 14edabbc2ccf327f17ac19eae27e3cd384a18c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 48/84] fix: Return errors of stepping through results instead
 of panicking

---
 query-projector/src/projectors/pull_two_stage.rs | 8 ++++----
 query-projector/src/projectors/simple.rs         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/query-projector/src/projectors/pull_two_stage.rs b/query-projector/src/projectors/pull_two_stage.rs
index f286232..4f5bf07 100644
--- a/query-projector/src/projectors/pull_two_stage.rs
+++ b/query-projector/src/projectors/pull_two_stage.rs
@@ -69,7 +69,7 @@ impl Projector for ScalarTwoStagePullProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         // Scalar is pretty straightforward -- zero or one entity, do the pull directly.
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let entity: Entid = row.get(0).unwrap(); // This will always be 0 and a ref.
             let bindings = self.puller.pull(schema, sqlite, once(entity))?;
@@ -153,7 +153,7 @@ impl Projector for TupleTwoStagePullProjector {
         sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
 
             // Keeping the compiler happy.
@@ -280,7 +280,7 @@ impl Projector for RelTwoStagePullProjector {
         let mut pull_consumers = pull_consumers?;
 
         // Collect the usual bindings and accumulate entity IDs for pull.
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             for p in pull_consumers.iter_mut() {
                 p.collect_entity(&row);
@@ -347,7 +347,7 @@ impl Projector for CollTwoStagePullProjector {
     ) -> Result<QueryOutput> {
         let mut pull_consumer = PullConsumer::for_operation(schema, &self.pull)?;
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             pull_consumer.collect_entity(&row);
         }
diff --git a/query-projector/src/projectors/simple.rs b/query-projector/src/projectors/simple.rs
index 213d75a..7e43cc7 100644
--- a/query-projector/src/projectors/simple.rs
+++ b/query-projector/src/projectors/simple.rs
@@ -50,7 +50,7 @@ impl Projector for ScalarProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             QueryResults::Scalar(Some(binding))
@@ -122,7 +122,7 @@ impl Projector for TupleProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let bindings = self.collect_bindings(row)?;
             QueryResults::Tuple(Some(bindings))
@@ -207,7 +207,7 @@ impl Projector for RelProjector {
         let width = self.len;
         let mut values: Vec<_> = Vec::with_capacity(5 * width);
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             self.collect_bindings_into(row, &mut values)?;
         }
@@ -263,7 +263,7 @@ impl Projector for CollProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         let mut out: Vec<_> = vec![];
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             out.push(binding);
-- 
2.43.0


From 28fc2dd8f34f77705ad23b21813fbea32182b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 49/84] fix: Accept :order of variables that a query without
 results leaves unbound

---
 query-algebrizer/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index b062265..bbf44a8 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -227,6 +227,11 @@ fn validate_and_simplify_order(
                     continue;
                 }
 
+                // A query without results doesn't bind all of its variables, and has no order.
+                if cc.is_known_empty() {
+                    continue;
+                }
+
                 // Fail if the var isn't bound by the query.
                 if !cc.column_bindings.contains_key(&var) {
                     bail!(AlgebrizerError::UnboundVariable(var.name()))
-- 
2.43.0


From 8c1a4bedc0948adae98f7578181406f22767eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 50/84] fix: Order longs and doubles as one where both may
 occur

---
 query-algebrizer/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index bbf44a8..f1c4bfe 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -26,7 +26,7 @@ mod validate;
 
 use core_traits::{Entid, TypedValue, ValueType};
 
-use mentat_core::{parse_query, CachedAttributes, Schema};
+use mentat_core::{parse_query, CachedAttributes, SQLValueTypeSet, Schema};
 
 use mentat_core::counter::RcCounter;
 
@@ -237,8 +237,9 @@ fn validate_and_simplify_order(
                     bail!(AlgebrizerError::UnboundVariable(var.name()))
                 }
 
-                // Otherwise, determine if we also need to order by type…
-                if cc.known_type(&var).is_none() {
+                // Otherwise, determine if we also need to order by type… Types that share a tag --
+                // long and double -- are ordered as one, and no tag is projected for them.
+                if !cc.known_type_set(&var).has_unique_type_tag() {
                     order_bys.push(OrderBy(
                         direction.clone(),
                         VariableColumn::VariableTypeTag(var.clone()),
-- 
2.43.0


From 0bc21f04d31da35e0bde3bc52d8dd48e4ca46b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 51/84] fix: Keep the SQL columns of variables apart that
 differ only in case

---
 query-algebrizer/src/types.rs | 30 ++++++++++++++++++++++++++----
 query-sql/src/lib.rs          | 12 ++++--------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/query-algebrizer/src/types.rs b/query-algebrizer/src/types.rs
index 4a8cee7..0baf66f 100644
--- a/query-algebrizer/src/types.rs
+++ b/query-algebrizer/src/types.rs
@@ -153,18 +153,40 @@ impl ColumnName for DatomsColumn {
 impl ColumnName for VariableColumn {
     fn column_name(&self) -> String {
         match self {
-            VariableColumn::Variable(ref v) => v.to_string(),
-            VariableColumn::VariableTypeTag(ref v) => format!("{}_value_type_tag", v.as_str()),
+            VariableColumn::Variable(ref v) => variable_column_name(v),
+            VariableColumn::VariableTypeTag(ref v) => {
+                format!("{}{}", variable_column_name(v), TYPE_TAG_SUFFIX)
+            }
+        }
+    }
+}
+
+const TYPE_TAG_SUFFIX: &str = "_value_type_tag";
+
+/// SQLite compares column names without regard to case, but variables are case-sensitive, and a
+/// variable can be named like another variable's type tag. Use '^', which can't be part of a
+/// variable's name, to keep the columns of different variables apart.
+fn variable_column_name(var: &Variable) -> String {
+    let mut name = String::with_capacity(var.as_str().len());
+    for c in var.as_str().chars() {
+        if c.is_ascii_uppercase() {
+            name.push('^');
         }
+        name.push(c);
     }
+    if var.as_str().to_ascii_lowercase().ends_with(TYPE_TAG_SUFFIX) {
+        name.push('^');
+    }
+    name
 }
 
 impl Debug for VariableColumn {
     fn fmt(&self, f: &mut Formatter) -> ::std::fmt::Result {
         match self {
             // These should agree with VariableColumn::column_name.
-            VariableColumn::Variable(ref v) => write!(f, "{}", v.as_str()),
-            VariableColumn::VariableTypeTag(ref v) => write!(f, "{}_value_type_tag", v.as_str()),
+            VariableColumn::Variable(_) | VariableColumn::VariableTypeTag(_) => {
+                write!(f, "{}", self.column_name())
+            }
         }
     }
 }
diff --git a/query-sql/src/lib.rs b/query-sql/src/lib.rs
index 27e69da..46abc02 100644
--- a/query-sql/src/lib.rs
+++ b/query-sql/src/lib.rs
@@ -25,7 +25,8 @@ use mentat_core::SQLTypeAffinity;
 use edn::query::{Direction, Limit, Variable};
 
 use mentat_query_algebrizer::{
-    Column, OrderBy, QualifiedAlias, QueryValue, SourceAlias, TableAlias, VariableColumn,
+    Column, ColumnName, OrderBy, QualifiedAlias, QueryValue, SourceAlias, TableAlias,
+    VariableColumn,
 };
 
 use sql_traits::errors::{BuildQueryResult, SQLError};
@@ -216,12 +217,7 @@ pub struct SelectQuery {
 }
 
 fn push_variable_column(qb: &mut dyn QueryBuilder, vc: &VariableColumn) -> BuildQueryResult {
-    match vc {
-        VariableColumn::Variable(ref v) => qb.push_identifier(v.as_str()),
-        VariableColumn::VariableTypeTag(ref v) => {
-            qb.push_identifier(format!("{}_value_type_tag", v.name()).as_str())
-        }
-    }
+    qb.push_identifier(vc.column_name().as_str())
 }
 
 fn push_column(qb: &mut dyn QueryBuilder, col: &Column) -> BuildQueryResult {
@@ -495,7 +491,7 @@ impl QueryFragment for Values {
                 names,
                 {
                     out.push_sql("0 AS ");
-                    out.push_identifier(alias.as_str())?
+                    push_variable_column(out, &VariableColumn::Variable(alias.clone()))?
                 },
                 { out.push_sql(", ") }
             );
-- 
2.43.0


From b206ae00013823efefd0223ab6a85d2160f008ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 52/84] fix: Return the strings of fulltext attributes from log
 queries

---
 db/src/db.rs    | 10 +++++++++-
 db/src/debug.rs |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 9f67b06..8edf3a1 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -195,7 +195,15 @@ lazy_static! {
 
         r#"CREATE TABLE timelined_transactions (e INTEGER NOT NULL, a SMALLINT NOT NULL, v BLOB NOT NULL, tx INTEGER NOT NULL, added TINYINT NOT NULL DEFAULT 1, value_type_tag SMALLINT NOT NULL, timeline TINYINT NOT NULL DEFAULT 0)"#,
         r#"CREATE INDEX idx_timelined_transactions_timeline ON timelined_transactions (timeline)"#,
-        r#"CREATE VIEW transactions AS SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE timeline IS 0"#,
+        // Fulltext indexed values (see below) are rowids in the table, but strings in the view.
+        r#"CREATE VIEW transactions AS
+             SELECT e, a,
+                    CASE WHEN value_type_tag IS 10 AND typeof(v) IS 'integer'
+                         THEN (SELECT text FROM fulltext_values WHERE fulltext_values.rowid = timelined_transactions.v)
+                         ELSE v END AS v,
+                    value_type_tag, tx, added
+               FROM timelined_transactions
+               WHERE timeline IS 0"#,
 
         // Fulltext indexing.
         // A fulltext indexed value v is an integer rowid referencing fulltext_values.
diff --git a/db/src/debug.rs b/db/src/debug.rs
index b2ece25..65d82a2 100644
--- a/db/src/debug.rs
+++ b/db/src/debug.rs
@@ -258,7 +258,7 @@ pub fn transactions_after<S: Borrow<Schema>>(
 ) -> Result<Transactions> {
     let borrowed_schema = schema.borrow();
 
-    let mut stmt: rusqlite::Statement = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM transactions WHERE tx > ? ORDER BY tx ASC, e ASC, a ASC, value_type_tag ASC, v ASC, added ASC")?;
+    let mut stmt: rusqlite::Statement = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE timeline IS 0 AND tx > ? ORDER BY tx ASC, e ASC, a ASC, value_type_tag ASC, v ASC, added ASC")?;
 
     let r: Result<Vec<_>> = stmt
         .query_and_then(&[&tx], |row| {
-- 
2.43.0


From b496abee6c5e1fb8facade1b8888d0ed4ba40fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 53/84] fix: Accept a variable with a known value in the value
 place of fulltext

---
 query-algebrizer/src/clauses/mod.rs | 11 ++++++----
 query-projector/src/translate.rs    | 33 ++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 6983e97..7386fbf 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -447,13 +447,16 @@ impl ConjoiningClauses {
                     self.constrain_column_to_constant(table, column, bound_val);
                 }
 
-                Column::Fulltext(FulltextColumn::Rowid)
-                | Column::Fulltext(FulltextColumn::Text) => {
-                    // We never expose `rowid` via queries.  We do expose `text`, but only
-                    // indirectly, by joining against `datoms`.  Therefore, these are meaningless.
+                Column::Fulltext(FulltextColumn::Rowid) => {
+                    // We never expose `rowid` via queries, so this is meaningless.
                     unimplemented!()
                 }
 
+                // A `fulltext` clause binds this to its value place, which is always a string.
+                Column::Fulltext(FulltextColumn::Text) => {
+                    self.constrain_column_to_constant(table, column, bound_val);
+                }
+
                 Column::Fixed(DatomsColumn::ValueTypeTag) => {
                     // I'm pretty sure this is meaningless right now, because we will never bind
                     // a type tag to a variable -- there's no syntax for doing so.
diff --git a/query-projector/src/translate.rs b/query-projector/src/translate.rs
index 3f468de..bb6fca2 100644
--- a/query-projector/src/translate.rs
+++ b/query-projector/src/translate.rs
@@ -19,7 +19,7 @@ use edn::query::Limit;
 use mentat_query_algebrizer::{
     AlgebraicQuery, Column, ColumnAlternation, ColumnConstraint, ColumnConstraintOrAlternation,
     ColumnIntersection, ColumnName, ComputedTable, ConjoiningClauses, DatomsColumn, DatomsTable,
-    OrderBy, QualifiedAlias, QueryValue, SourceAlias, TableAlias, VariableColumn,
+    FulltextColumn, OrderBy, QualifiedAlias, QueryValue, SourceAlias, TableAlias, VariableColumn,
 };
 
 use crate::{
@@ -122,6 +122,13 @@ fn possible_affinities(value_types: ValueTypeSet) -> HashMap<ValueTypeTag, Vec<S
     result
 }
 
+fn is_fulltext_text(qa: &QualifiedAlias) -> bool {
+    match qa.1 {
+        Column::Fulltext(FulltextColumn::Text) => true,
+        _ => false,
+    }
+}
+
 impl ToConstraint for ColumnConstraint {
     fn to_constraint(self) -> Constraint {
         use self::ColumnConstraint::*;
@@ -130,6 +137,19 @@ impl ToConstraint for ColumnConstraint {
                 Constraint::equal(qa.to_column(), ColumnOrExpression::Entid(entid))
             }
 
+            Equals(qa, QueryValue::TypedValue(tv)) if is_fulltext_text(&qa) => {
+                // SQLite substitutes a column that equals a constant in other constraints, too,
+                // but the left side of MATCH must stay a column. The unary plus prevents that.
+                let expression = Expression::Unary {
+                    sql_op: "+",
+                    arg: qa.to_column(),
+                };
+                Constraint::equal(
+                    ColumnOrExpression::Expression(Box::new(expression), ValueType::String),
+                    ColumnOrExpression::Value(tv),
+                )
+            }
+
             Equals(qa, QueryValue::TypedValue(tv)) => {
                 Constraint::equal(qa.to_column(), ColumnOrExpression::Value(tv))
             }
@@ -292,6 +312,17 @@ fn table_for_computed(computed: ComputedTable, alias: TableAlias) -> TableOrSubq
                                 },
                                 _ => (),
                             }
+                            let is_text = match projected_column.0 {
+                                ColumnOrExpression::Column(ref qa) => is_fulltext_text(qa),
+                                _ => false,
+                            };
+                            if is_text {
+                                // The outer query might compare this to a constant: see `to_constraint`.
+                                projected_column.0 = ColumnOrExpression::Expression(
+                                    Box::new(Expression::Unary { sql_op: "+", arg: projected_column.0 }),
+                                    ValueType::String,
+                                );
+                            }
                             columns.push(projected_column);
 
                             // Similarly, project type tags if they're not known conclusively in the
-- 
2.43.0


From da8bd32f042121f510354a36c0e18f4674a36225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 54/84] fix: Count no rows in a relation made from no rows

---
 query-projector/src/relresult.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/query-projector/src/relresult.rs b/query-projector/src/relresult.rs
index 27661c9..6bd76a7 100644
--- a/query-projector/src/relresult.rs
+++ b/query-projector/src/relresult.rs
@@ -49,17 +49,18 @@ impl<T> RelResult<T> {
     }
 
     pub fn row_count(&self) -> usize {
-        self.values.len() / self.width
+        // A relation made from no rows doesn't know its width.
+        self.values.len() / self.width.max(1)
     }
 
     pub fn rows(&self) -> ::std::slice::Chunks<T> {
         // TODO(gburd): Nightly-only API `exact_chunks`. #47115.
-        self.values.chunks(self.width)
+        self.values.chunks(self.width.max(1))
     }
 
     pub fn row(&self, index: usize) -> Option<&[T]> {
         let end = self.width * (index + 1);
-        if end > self.values.len() {
+        if self.width == 0 || end > self.values.len() {
             None
         } else {
             let start = self.width * index;
-- 
2.43.0


From cdcc0c3f1aade4eaef4c34ac9787179cedc2f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 55/84] fix: Refuse named sources and big integers in queries
 instead of panicking

---
 query-algebrizer/src/clauses/convert.rs |  4 ++-
 query-algebrizer/src/lib.rs             |  4 +++
 query-algebrizer/src/validate.rs        | 42 ++++++++++++++++++++++++-
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 8db5d10..5fbe6ed 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -206,7 +206,9 @@ impl ConjoiningClauses {
             }
 
             // This isn't implemented yet.
-            FnArg::Constant(NonIntegerConstant::BigInteger(_)) => unimplemented!(),
+            FnArg::Constant(NonIntegerConstant::BigInteger(_)) => {
+                bail!(AlgebrizerError::UnsupportedArgument)
+            }
 
             // These don't make sense here.
             FnArg::Vector(_) | FnArg::SrcVar(_) => bail!(AlgebrizerError::InvalidGroundConstant),
diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index f1c4bfe..10d5ab5 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -24,6 +24,8 @@ mod clauses;
 mod types;
 mod validate;
 
+use crate::validate::validate_where_clauses;
+
 use core_traits::{Entid, TypedValue, ValueType};
 
 use mentat_core::{parse_query, CachedAttributes, SQLValueTypeSet, Schema};
@@ -310,6 +312,8 @@ pub fn algebrize_with_inputs(
     counter: usize,
     inputs: QueryInputs,
 ) -> Result<AlgebraicQuery> {
+    validate_where_clauses(&parsed.where_clauses)?;
+
     let alias_counter = RcCounter::with_initial(counter);
     let mut cc =
         ConjoiningClauses::with_inputs_and_alias_counter(parsed.in_vars, inputs, alias_counter);
diff --git a/query-algebrizer/src/validate.rs b/query-algebrizer/src/validate.rs
index 58e0ad6..61c957f 100644
--- a/query-algebrizer/src/validate.rs
+++ b/query-algebrizer/src/validate.rs
@@ -10,10 +10,50 @@
 
 use std::collections::BTreeSet;
 
-use edn::query::{ContainsVariables, NotJoin, OrJoin, UnifyVars, Variable};
+use edn::query::{
+    ContainsVariables, NonIntegerConstant, NotJoin, OrJoin, OrWhereClause, PatternValuePlace,
+    SrcVar, UnifyVars, Variable, WhereClause,
+};
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
+/// We only support the default source, we have no rules, and no value we store is an integer that
+/// doesn't fit into 64 bits.  Refuse clauses that use any of these, at any depth, before we begin to
+/// work with them.
+pub(crate) fn validate_where_clauses(clauses: &[WhereClause]) -> Result<()> {
+    for clause in clauses {
+        match clause {
+            WhereClause::Pattern(p) => {
+                let default_source = match p.source {
+                    None | Some(SrcVar::DefaultSrc) => true,
+                    Some(SrcVar::NamedSrc(_)) => false,
+                };
+                let big = matches!(
+                    p.value,
+                    PatternValuePlace::Constant(NonIntegerConstant::BigInteger(_))
+                );
+                if !default_source || big {
+                    bail!(AlgebrizerError::UnsupportedArgument)
+                }
+            }
+            WhereClause::RuleExpr => bail!(AlgebrizerError::UnsupportedArgument),
+            WhereClause::NotJoin(n) => validate_where_clauses(&n.clauses)?,
+            WhereClause::OrJoin(o) => {
+                for leg in &o.clauses {
+                    match leg {
+                        OrWhereClause::Clause(c) => {
+                            validate_where_clauses(::std::slice::from_ref(c))?
+                        }
+                        OrWhereClause::And(cs) => validate_where_clauses(cs)?,
+                    }
+                }
+            }
+            WhereClause::Pred(_) | WhereClause::WhereFn(_) | WhereClause::TypeAnnotation(_) => (),
+        }
+    }
+    Ok(())
+}
+
 /// In an `or` expression, every mentioned var is considered 'free'.
 /// In an `or-join` expression, every var in the var list is 'required'.
 ///
-- 
2.43.0


From b6c97d2cc127dc6ffa391d2d48332b2bf22aecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 56/84] fix: Don't underflow when joining on more variables
 than are known

---
 query-algebrizer/src/clauses/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 7386fbf..9ce4e12 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -8,7 +8,6 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::cmp;
 
 use std::collections::{BTreeMap, BTreeSet, VecDeque};
 
@@ -88,7 +87,7 @@ impl<K: Clone + Ord, V: Clone> Intersection<K> for BTreeMap<K, V> {
             self.clear();
         }
 
-        let expected_remaining = cmp::max(0, self.len() - ks.len());
+        let expected_remaining = self.len().saturating_sub(ks.len());
         let mut to_remove = Vec::with_capacity(expected_remaining);
         for k in self.keys() {
             if !ks.contains(k) {
-- 
2.43.0


From 87233eefc471a1c495566d6c7243cdff138d4a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 57/84] fix: Refuse an or with a join variable that one of its
 arms doesn't bind

---
 query-algebrizer/src/clauses/or.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 5c65e27..370c0b1 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -20,7 +20,7 @@ use edn::query::{
 
 use crate::clauses::{ConjoiningClauses, PushComputed};
 
-use query_algebrizer_traits::errors::Result;
+use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
 use crate::types::{
     Column, ColumnAlternation, ColumnConstraintOrAlternation, ColumnIntersection, ComputedTable,
@@ -615,6 +615,15 @@ impl ConjoiningClauses {
             if receptacle.is_known_empty() {
                 empty_because = receptacle.empty_because;
             } else {
+                // Each arm projects every variable, so it isn't enough to mention it in, say, a
+                // type annotation.
+                for var in &projected {
+                    if !receptacle.is_value_bound(var)
+                        && !receptacle.column_bindings.contains_key(var)
+                    {
+                        bail!(AlgebrizerError::UnboundVariable(var.name()));
+                    }
+                }
                 acc.push(receptacle);
             }
         }
-- 
2.43.0


From e83de6f2692de610c07a94dc2e5f8a5690ff10fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 58/84] fix: Keep :db/id and aliases listed beside a pull
 wildcard

---
 query-pull/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/query-pull/src/lib.rs b/query-pull/src/lib.rs
index 138d2a5..cef4259 100644
--- a/query-pull/src/lib.rs
+++ b/query-pull/src/lib.rs
@@ -162,10 +162,12 @@ impl Puller {
                 PullAttributeSpec::Wildcard => {
                     let attribute_ids = schema.attribute_map.keys();
                     for id in attribute_ids {
-                        names.insert(*id, lookup_name(id)?);
-                        attrs.insert(*id);
+                        // An attribute that's also listed by itself might have an alias, which
+                        // takes precedence.
+                        if attrs.insert(*id) {
+                            names.insert(*id, lookup_name(id)?);
+                        }
                     }
-                    break;
                 }
                 PullAttributeSpec::Attribute(NamedPullAttribute {
                     ref attribute,
-- 
2.43.0


From 078a4e0e411891da2b6df3393a31fc6dce66cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 59/84] fix: Return a pulled collection in the order of the
 query's rows

---
 query-projector/src/projectors/pull_two_stage.rs | 5 +++--
 query-projector/src/pull.rs                      | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/query-projector/src/projectors/pull_two_stage.rs b/query-projector/src/projectors/pull_two_stage.rs
index 4f5bf07..84e6f5c 100644
--- a/query-projector/src/projectors/pull_two_stage.rs
+++ b/query-projector/src/projectors/pull_two_stage.rs
@@ -347,16 +347,17 @@ impl Projector for CollTwoStagePullProjector {
     ) -> Result<QueryOutput> {
         let mut pull_consumer = PullConsumer::for_operation(schema, &self.pull)?;
 
+        let mut entities = vec![];
         while let Some(r) = rows.next()? {
             let row = r;
-            pull_consumer.collect_entity(&row);
+            entities.push(pull_consumer.collect_entity(&row));
         }
 
         // Run the pull expressions for the collected IDs.
         pull_consumer.pull(sqlite)?;
 
         // Expand the pull expressions into a results vector.
-        let out = pull_consumer.into_coll_results();
+        let out = pull_consumer.into_coll_results(entities);
 
         Ok(QueryOutput {
             spec: self.spec.clone(),
diff --git a/query-projector/src/pull.rs b/query-projector/src/pull.rs
index 0094ae6..df22d0e 100644
--- a/query-projector/src/pull.rs
+++ b/query-projector/src/pull.rs
@@ -112,8 +112,12 @@ impl<'schema> PullConsumer<'schema> {
         }
     }
 
+    /// The pulled maps of the given entities -- those of the rows, in order.
     // TODO: do we need to include empty maps for entities that didn't match any pull?
-    pub(crate) fn into_coll_results(self) -> Vec<Binding> {
-        self.results.values().cloned().map(Binding::Map).collect()
+    pub(crate) fn into_coll_results(self, rows: Vec<Entid>) -> Vec<Binding> {
+        rows.iter()
+            .filter_map(|e| self.results.get(e).cloned())
+            .map(Binding::Map)
+            .collect()
     }
 }
-- 
2.43.0


From 826b3846c458f1140b0f816f65358ee85969ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 60/84] fix: Separate the entries of a map printed by the CLI

---
 tools/cli/src/mentat_cli/repl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli/src/mentat_cli/repl.rs b/tools/cli/src/mentat_cli/repl.rs
index 885d53b..0fa10d2 100644
--- a/tools/cli/src/mentat_cli/repl.rs
+++ b/tools/cli/src/mentat_cli/repl.rs
@@ -586,8 +586,8 @@ impl Repl {
         for (k, v) in value.0.iter() {
             if !first {
                 out.push_str(", ");
-                first = true;
             }
+            first = false;
             out.push_str(&k.to_string());
             out.push(' ');
             out.push_str(self.binding_as_string(v).as_str());
-- 
2.43.0


From 12218e538cc077140c7715a9bcc30c8a11076d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 61/84] fix: Parse .timer off

---
 tools/cli/src/mentat_cli/command_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli/src/mentat_cli/command_parser.rs b/tools/cli/src/mentat_cli/command_parser.rs
index 0e6489a..b4922b8 100644
--- a/tools/cli/src/mentat_cli/command_parser.rs
+++ b/tools/cli/src/mentat_cli/command_parser.rs
@@ -273,7 +273,7 @@ pub fn command(s: &str) -> Result<Command, Error> {
 
     let timer_parser = string(COMMAND_TIMER_LONG)
         .with(spaces())
-        .with(string("on").map(|_| true).or(string("off").map(|_| false)))
+        .with(attempt(string("on").map(|_| true)).or(string("off").map(|_| false)))
         .map(|args| Ok(Command::Timer(args)));
 
     let transact_parser = attempt(string(COMMAND_TRANSACT_LONG))
-- 
2.43.0


From 03065881283b0150bedcdb4446cdbfce827e909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 62/84] fix: Refuse CLI commands glued to or followed by what
 isn't their argument

---
 tools/cli/src/mentat_cli/command_parser.rs | 29 +++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/tools/cli/src/mentat_cli/command_parser.rs b/tools/cli/src/mentat_cli/command_parser.rs
index b4922b8..7345551 100644
--- a/tools/cli/src/mentat_cli/command_parser.rs
+++ b/tools/cli/src/mentat_cli/command_parser.rs
@@ -148,6 +148,12 @@ pub fn command(s: &str) -> Result<Command, Error> {
             .or(string("both").map(|_| CacheDirection::Both))
     };
 
+    // The command word must not be glued to its arguments: `.ident` isn't `.i dent`.
+    let word_end = || look_ahead(eof().or(space().map(|_| ())));
+
+    // There's nothing but whitespace after the last argument.
+    let line_end = || spaces().skip(eof());
+
     let edn_arg_parser = || {
         spaces().with(
             look_ahead(string("[").or(string("{")))
@@ -162,6 +168,7 @@ pub fn command(s: &str) -> Result<Command, Error> {
 
     let opener = |command, num_args| {
         string(command)
+            .skip(word_end())
             .with(spaces())
             .with(arguments())
             .map(move |args| {
@@ -181,12 +188,16 @@ pub fn command(s: &str) -> Result<Command, Error> {
     };
 
     // Commands.
-    let cache_parser = string(COMMAND_CACHE).with(spaces()).with(
-        argument()
-            .skip(spaces())
-            .and(direction_parser())
-            .map(|(arg, direction)| Ok(Command::Cache(arg, direction))),
-    );
+    let cache_parser = string(COMMAND_CACHE)
+        .skip(word_end())
+        .with(spaces())
+        .with(
+            argument()
+                .skip(spaces())
+                .and(direction_parser())
+                .skip(line_end())
+                .map(|(arg, direction)| Ok(Command::Cache(arg, direction))),
+        );
 
     let close_parser = string(COMMAND_CLOSE).with(no_arg_parser()).map(|args| {
         if !args.is_empty() {
@@ -217,14 +228,17 @@ pub fn command(s: &str) -> Result<Command, Error> {
         .map(|x| Ok(Command::QueryExplain(x)));
 
     let help_parser = string(COMMAND_HELP)
+        .skip(word_end())
         .with(spaces())
         .with(arguments())
         .map(|args| Ok(Command::Help(args)));
 
     let import_parser = attempt(string(COMMAND_IMPORT_LONG))
         .or(attempt(string(COMMAND_IMPORT_SHORT)))
+        .skip(word_end())
         .with(spaces())
         .with(path())
+        .skip(line_end())
         .map(|x| Ok(Command::Import(x)));
 
     let open_parser =
@@ -254,6 +268,7 @@ pub fn command(s: &str) -> Result<Command, Error> {
     });
 
     let sync_parser = string(COMMAND_SYNC)
+        .skip(word_end())
         .with(spaces())
         .with(arguments())
         .map(|args| {
@@ -272,8 +287,10 @@ pub fn command(s: &str) -> Result<Command, Error> {
         });
 
     let timer_parser = string(COMMAND_TIMER_LONG)
+        .skip(word_end())
         .with(spaces())
         .with(attempt(string("on").map(|_| true)).or(string("off").map(|_| false)))
+        .skip(line_end())
         .map(|args| Ok(Command::Timer(args)));
 
     let transact_parser = attempt(string(COMMAND_TRANSACT_LONG))
-- 
2.43.0


From 0347728d4ffe18bdbd1b7eedc3938b01b8da815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 63/84] fix: Accept transactions that fill a whole chunk of
 statement parameters

A chunk is as large as the limit allows; 6 * 5461 is exactly SQLite's default
limit, so every transaction with that many assertions of a kind panicked.
---
 db/src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 8edf3a1..beb726d 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -801,7 +801,7 @@ impl MentatStoring for rusqlite::Connection {
             // querying against `all_datoms`.  We know all the attributes, and in the common case,
             // where most unique attributes will not be fulltext-indexed, we'll be querying just
             // `datoms`, which will be much faster.ˇ
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
 
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = format!("WITH t(search_id, a, v, value_type_tag) AS (VALUES {}) SELECT t.search_id, d.e \
@@ -943,7 +943,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = if search_type == SearchType::Exact {
                 format!("INSERT INTO temp.exact_searches (e0, a0, v0, value_type_tag0, added0, flags0) VALUES {}", values)
@@ -1064,7 +1064,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * datom_count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, datom_count, max_vars);
+            assert!(bindings_per_statement * datom_count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, datom_count, max_vars);
             let inner = "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".to_string();
             // Like "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?), (?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".
             let fts_values: String = repeat(inner).take(datom_count).join(", ");
-- 
2.43.0


From 51b46251cf860bfe1f3af6bf8c0db36eef9caade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 64/84] fix: Transact a chunk of fulltext values that were all
 seen in earlier chunks

---
 db/src/db.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index beb726d..34c23e0 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1042,13 +1042,16 @@ impl MentatStoring for rusqlite::Connection {
                              .chain(once(searchid as &dyn ToSql))
                      }).collect();
 
-            // TODO: make this maximally efficient. It's not terribly inefficient right now.
-            let fts_values: String = repeat_values(2, string_count);
-            let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
-
-            // TODO: consider ensuring we inserted the expected number of rows.
-            let mut stmt = self.prepare_cached(fts_s.as_str())?;
-            stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            // All the strings of a chunk can be known from the chunks before.
+            if string_count > 0 {
+                // TODO: make this maximally efficient. It's not terribly inefficient right now.
+                let fts_values: String = repeat_values(2, string_count);
+                let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
+
+                // TODO: consider ensuring we inserted the expected number of rows.
+                let mut stmt = self.prepare_cached(fts_s.as_str())?;
+                stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            }
 
             // Second, insert searches.
             // `params` reference computed values in `block`.
-- 
2.43.0


From 831d9876daa93a8edea4932680b76f90c8bc32fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 65/84] fix: Leave other timelines alone when moving
 transactions off the main one

A moved transaction's id is used again on the main timeline; moving that one,
too, moved the rows of the earlier one along with it.
---
 db/src/timelines.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 38fb178..8582623 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -77,8 +77,9 @@ fn move_transactions_to(
     // Move specified transactions over to a specified timeline.
     conn.execute(
         &format!(
-            "UPDATE timelined_transactions SET timeline = {} WHERE tx IN {}",
+            "UPDATE timelined_transactions SET timeline = {} WHERE timeline = {} AND tx IN {}",
             new_timeline,
+            crate::TIMELINE_MAIN,
             crate::repeat_values(tx_ids.len(), 1)
         ),
         &(tx_ids
-- 
2.43.0


From ecd4fbf9c848127f31ac2a01befa9ece6b07ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 66/84] fix: Move transactions with fulltext indexed values off
 the main timeline

---
 db/src/timelines.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 8582623..3abc27e 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -108,9 +108,11 @@ fn reversed_terms_for(
     conn: &rusqlite::Connection,
     tx_id: Entid,
 ) -> Result<Vec<TermWithoutTempIds>> {
-    let mut stmt = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE tx = ? AND timeline = ? ORDER BY tx DESC")?;
+    // The view has only the main timeline, and strings for fulltext indexed values.
+    let mut stmt = conn
+        .prepare("SELECT e, a, v, value_type_tag, tx, added FROM transactions WHERE tx = ?")?;
     let rows = stmt.query_and_then(
-        &[&tx_id, &crate::TIMELINE_MAIN],
+        &[&tx_id],
         |row| -> Result<TermWithoutTempIds> {
             let op = if row.get(5)? {
                 OpType::Retract
-- 
2.43.0


From ebd6b234bebda62bf169682e0ac37bba82579512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 67/84] fix: Rewind the schema through all the transactions
 moved off the main timeline

Each was rewound against the schema of the moment before the move, and the
result was what rewinding the last of them alone gives.
---
 db/src/timelines.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 3abc27e..65fb5c8 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -159,16 +159,18 @@ pub fn move_from_main_timeline(
 
     let txs_to_move = collect_ordered_txs_to_move(conn, txs_from, crate::TIMELINE_MAIN)?;
 
-    let mut last_schema = None;
+    // Every step starts from the schema the one before it left.
+    let mut last_schema: Option<Schema> = None;
     for tx_id in &txs_to_move {
         let reversed_terms = reversed_terms_for(conn, *tx_id)?;
+        let current_schema = last_schema.as_ref().unwrap_or(schema);
 
         // Rewind schema and datoms.
         let (report, _, new_schema, _) = transact_terms_with_action(
             conn,
             partition_map.clone(),
-            schema,
-            schema,
+            current_schema,
+            current_schema,
             NullWatcher(),
             reversed_terms.into_iter().map(|t| t.rewrap()),
             InternSet::new(),
@@ -185,7 +187,9 @@ pub fn move_from_main_timeline(
         // A quick workaround is to just remove the bad txInstant datom.
         // See test_clashing_tx_instants test case.
         remove_tx_from_datoms(conn, report.tx_id)?;
-        last_schema = new_schema;
+        if new_schema.is_some() {
+            last_schema = new_schema;
+        }
     }
 
     // Move transactions over to the target timeline.
-- 
2.43.0


From f849a7b764762e9672bf9c7f8ecf4c62d7a8d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 68/84] fix: Keep the transactions of facts brought back by
 moving later ones off the main timeline

They were given the id of the rewinding transaction, which isn't in the log and
is the id of the next transaction.
---
 db/src/timelines.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 65fb5c8..4c2e231 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -95,6 +95,26 @@ fn remove_tx_from_datoms(conn: &rusqlite::Connection, tx_id: Entid) -> Result<()
     Ok(())
 }
 
+/// Datoms that rewinding `tx_id` brought back carry the id of the rewinding transaction, which the
+/// log doesn't know. Give them back the transaction that asserted them.
+fn restore_tx_of_datoms(
+    conn: &rusqlite::Connection,
+    rewinding_tx_id: Entid,
+    tx_id: Entid,
+) -> Result<()> {
+    conn.execute(
+        "UPDATE datoms
+         SET tx = COALESCE((SELECT MAX(t.tx) FROM timelined_transactions AS t
+                            WHERE t.timeline = ? AND t.tx < ? AND t.added IS 1 AND
+                                  t.e = datoms.e AND t.a = datoms.a AND
+                                  t.value_type_tag = datoms.value_type_tag AND t.v = datoms.v),
+                           tx)
+         WHERE tx = ?",
+        &[&crate::TIMELINE_MAIN, &tx_id, &rewinding_tx_id],
+    )?;
+    Ok(())
+}
+
 fn is_timeline_empty(conn: &rusqlite::Connection, timeline: Entid) -> Result<bool> {
     let mut stmt = conn.prepare(
         "SELECT timeline FROM timelined_transactions WHERE timeline = ? GROUP BY timeline",
@@ -187,6 +207,7 @@ pub fn move_from_main_timeline(
         // A quick workaround is to just remove the bad txInstant datom.
         // See test_clashing_tx_instants test case.
         remove_tx_from_datoms(conn, report.tx_id)?;
+        restore_tx_of_datoms(conn, report.tx_id, *tx_id)?;
         if new_schema.is_some() {
             last_schema = new_schema;
         }
-- 
2.43.0


From 776a2edce724078f22af88b52af952cead687202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 69/84] fix: Rewind definitions of attributes before data when
 moving a transaction off the main timeline

Data came back under the definitions after the transaction: a value of an
attribute that had been made one-valued replaced another, and data of an
attribute the transaction removed couldn't be brought back at all.
---
 db/src/timelines.rs | 66 ++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 4c2e231..404eed9 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -23,6 +23,7 @@ use edn::InternSet;
 use edn::entities::OpType;
 
 use crate::db;
+use crate::entids;
 use crate::db::TypedSQLValue;
 
 use crate::tx::{transact_terms_with_action, TransactorAction};
@@ -182,34 +183,43 @@ pub fn move_from_main_timeline(
     // Every step starts from the schema the one before it left.
     let mut last_schema: Option<Schema> = None;
     for tx_id in &txs_to_move {
-        let reversed_terms = reversed_terms_for(conn, *tx_id)?;
-        let current_schema = last_schema.as_ref().unwrap_or(schema);
-
-        // Rewind schema and datoms.
-        let (report, _, new_schema, _) = transact_terms_with_action(
-            conn,
-            partition_map.clone(),
-            current_schema,
-            current_schema,
-            NullWatcher(),
-            reversed_terms.into_iter().map(|t| t.rewrap()),
-            InternSet::new(),
-            TransactorAction::Materialize,
-        )?;
-
-        // Rewind operation generated a 'tx' and a 'txInstant' assertion, which got
-        // inserted into the 'datoms' table (due to TransactorAction::Materialize).
-        // This is problematic. If we transact a few more times, the transactor will
-        // generate the same 'tx', but with a different 'txInstant'.
-        // The end result will be a transaction which has a phantom
-        // retraction of a txInstant, since transactor operates against the state of
-        // 'datoms', and not against the 'transactions' table.
-        // A quick workaround is to just remove the bad txInstant datom.
-        // See test_clashing_tx_instants test case.
-        remove_tx_from_datoms(conn, report.tx_id)?;
-        restore_tx_of_datoms(conn, report.tx_id, *tx_id)?;
-        if new_schema.is_some() {
-            last_schema = new_schema;
+        // Definitions of attributes first: the data to bring back needs those of its time.
+        let (metadata_terms, data_terms): (Vec<_>, Vec<_>) = reversed_terms_for(conn, *tx_id)?
+            .into_iter()
+            .partition(|Term::AddOrRetract(_, _, a, _)| entids::might_update_metadata(*a));
+
+        for reversed_terms in vec![metadata_terms, data_terms] {
+            if reversed_terms.is_empty() {
+                continue;
+            }
+            let current_schema = last_schema.as_ref().unwrap_or(schema);
+
+            // Rewind schema and datoms.
+            let (report, _, new_schema, _) = transact_terms_with_action(
+                conn,
+                partition_map.clone(),
+                current_schema,
+                current_schema,
+                NullWatcher(),
+                reversed_terms.into_iter().map(|t| t.rewrap()),
+                InternSet::new(),
+                TransactorAction::Materialize,
+            )?;
+
+            // Rewind operation generated a 'tx' and a 'txInstant' assertion, which got
+            // inserted into the 'datoms' table (due to TransactorAction::Materialize).
+            // This is problematic. If we transact a few more times, the transactor will
+            // generate the same 'tx', but with a different 'txInstant'.
+            // The end result will be a transaction which has a phantom
+            // retraction of a txInstant, since transactor operates against the state of
+            // 'datoms', and not against the 'transactions' table.
+            // A quick workaround is to just remove the bad txInstant datom.
+            // See test_clashing_tx_instants test case.
+            remove_tx_from_datoms(conn, report.tx_id)?;
+            restore_tx_of_datoms(conn, report.tx_id, *tx_id)?;
+            if new_schema.is_some() {
+                last_schema = new_schema;
+            }
         }
     }
 
-- 
2.43.0


From 942b218a972b7c65af166b9819de2dbc455a8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 70/84] fix: Keep entids allocated when applying incoming
 transactions in a sync

---
 tolstoy/src/syncer.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 4ad34e9..9ff822e 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -324,6 +324,22 @@ impl Syncer {
         }
     }
 
+    /// The partition map of an incoming transaction only accounts for the entids which that
+    /// transaction asserts or retracts, starting with the bootstrap partition map.
+    /// Entids which we've seen in earlier transactions must stay allocated.
+    fn keep_allocated_entids(partition_map: &mut PartitionMap, current: &PartitionMap) {
+        for (name, part) in partition_map.iter_mut() {
+            if name == ":db.part/tx" {
+                continue;
+            }
+            if let Some(current_part) = current.get(name) {
+                if current_part.next_entid() > part.next_entid() {
+                    part.set_next_entid(current_part.next_entid());
+                }
+            }
+        }
+    }
+
     fn fast_forward_local<'a, 'c>(
         in_progress: &mut InProgress<'a, 'c>,
         txs: Vec<Tx>,
@@ -349,6 +365,7 @@ impl Syncer {
             // Make space in the provided tx partition for the transaction we're about to create.
             // See function's notes for details.
             Syncer::rewind_tx_partition_by_one(&mut partition_map)?;
+            Syncer::keep_allocated_entids(&mut partition_map, &in_progress.partition_map);
             Syncer::remote_parts_to_builder(&mut builder, tx.parts)?;
 
             // Allocate space for the incoming entids.
@@ -420,6 +437,7 @@ impl Syncer {
             // Make space in the provided tx partition for the transaction we're about to create.
             // See function's notes for details.
             Syncer::rewind_tx_partition_by_one(&mut partition_map)?;
+            Syncer::keep_allocated_entids(&mut partition_map, &ip.partition_map);
 
             // This allocates our incoming entids in each builder,
             // letting us just use KnownEntid in the builders.
-- 
2.43.0


From 230f87f28ccaf81f54b2d6a274abbb0ed77b4373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 71/84] fix: Follow renumbered attributes and refs of local
 transactions in a merge

---
 tolstoy/src/syncer.rs | 50 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 9ff822e..f8689a6 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -10,13 +10,13 @@
 
 use std::fmt;
 
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 
 use uuid::Uuid;
 
 use core_traits::{Entid, KnownEntid, TypedValue};
 
-use edn::entities::{EntityPlace, LookupRef, TxFunction};
+use edn::entities::{EntityPlace, LookupRef, TxFunction, ValuePlace};
 use edn::PlainSymbol;
 use mentat_db::{entids, timelines, PartitionMap, CORE_SCHEMA_VERSION};
 use mentat_transaction::{InProgress, Queryable, TermBuilder};
@@ -410,6 +410,16 @@ impl Syncer {
         };
         ip.partition_map = new_partition_map;
 
+        // Entids at or above this were allocated by local transactions, and might mean something
+        // else, or nothing at all, once incoming transactions are applied.
+        let (first_local_entid, last_local_entid) = match ip.partition_map.get(":db.part/user") {
+            Some(user_part) => (user_part.next_entid(), user_part.end),
+            None => bail!(TolstoyError::UnexpectedState(
+                "Missing user partition".to_string()
+            )),
+        };
+        let is_local_entid = |e: Entid| first_local_entid <= e && e <= last_local_entid;
+
         // 2) Transact incoming.
         // 2.1) Prepare remote tx tuples (TermBuilder, PartitionMap, Uuid), which represent
         // a remote transaction, its global identifier and partitions after it's applied.
@@ -448,6 +458,10 @@ impl Syncer {
         d(&"Transacting local on top of incoming...".to_string());
         // 3) Rebase local transactions on top of remote.
         let mut clean_rebase = true;
+
+        // What entids allocated by local transactions became.
+        let mut rebased_entids: HashMap<Entid, Entid> = HashMap::new();
+
         for local_tx in local_txs_to_merge {
             let mut builder = TermBuilder::new();
 
@@ -553,8 +567,21 @@ impl Syncer {
                 }
 
                 let e: EntityPlace<TypedValue>;
-                let a = KnownEntid(part.a);
-                let v = part.v;
+                // An attribute might have been defined by a local transaction.
+                let a = match rebased_entids.get(&part.a) {
+                    Some(rebased) if is_local_entid(part.a) => KnownEntid(*rebased),
+                    _ => KnownEntid(part.a),
+                };
+                // Same for what a Ref refers to, which might also be allocated in this transaction.
+                let v: ValuePlace<TypedValue> = match part.v {
+                    TypedValue::Ref(r) if is_local_entid(r) => match rebased_entids.get(&r) {
+                        Some(rebased) if !entids_that_will_allocate.contains(&r) => {
+                            TypedValue::Ref(*rebased).into()
+                        }
+                        _ => builder.named_tempid(format!("{}", r)).into(),
+                    },
+                    v => v.into(),
+                };
 
                 // Rewrite entids if they will allocate (see entity merging notes above).
                 if entids_that_will_allocate.contains(&part.e) {
@@ -564,8 +591,6 @@ impl Syncer {
                     e = KnownEntid(part.e).into();
                 }
 
-                // TODO we need to do the same rewriting for part.v if it's a Ref.
-
                 // N.b.: attribute can't refer to an unallocated entity, so it's always a KnownEntid.
                 // To illustrate, this is not a valid transaction, and will fail ("no entid found for ident: :person/name"):
                 // [
@@ -583,7 +608,11 @@ impl Syncer {
                             continue;
                         }
 
-                        // TODO handle tempids in ValuePlace, as well.
+                        // A new entity can't be a part of something that already exists.
+                        let v = match v {
+                            ValuePlace::Atom(v) => v,
+                            _ => continue,
+                        };
 
                         // Retractions with non-upserting tempids are not currently supported.
                         // We work around this by using a lookup-ref instead of the entity tempid.
@@ -594,7 +623,7 @@ impl Syncer {
                         // - we skip retractions of non-unique attributes,
                         // - we "pre-run" a lookup-ref to ensure it will resolve,
                         //   and skip the retraction otherwise.
-                        match ip.schema.attribute_map.get(&part.a) {
+                        match ip.schema.attribute_map.get(&a.into()) {
                             Some(attributes) => {
                                 // A lookup-ref using a non-unique attribute will fail.
                                 // Skip this retraction, since we can't make sense of it.
@@ -648,6 +677,11 @@ impl Syncer {
             ));
 
             let report = ip.transact_builder(builder)?;
+            for (tempid, e) in &report.tempids {
+                if let Ok(local_e) = tempid.parse() {
+                    rebased_entids.insert(local_e, *e);
+                }
+            }
 
             // Let's check that we didn't modify any schema attributes.
             // Our current attribute map in the schema isn't rich enough to allow
-- 
2.43.0


From 022a0cf60dbd2678858ef2ad5102a64f8a2d590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 72/84] fix: Read the text of fulltext values when syncing

---
 tolstoy/src/tx_processor.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tolstoy/src/tx_processor.rs b/tolstoy/src/tx_processor.rs
index f4fd5ff..0614eaa 100644
--- a/tolstoy/src/tx_processor.rs
+++ b/tolstoy/src/tx_processor.rs
@@ -125,11 +125,13 @@ impl Processor {
         mut receiver: R,
     ) -> Result<RR> {
         let tx_filter = match from_tx {
-            Some(tx) => format!(" WHERE timeline = 0 AND tx > {} ", tx),
-            None => "WHERE timeline = 0".to_string(),
+            Some(tx) => format!("WHERE tx > {}", tx),
+            None => "".to_string(),
         };
+        // `transactions` is the main timeline, with the text of fulltext values in place of
+        // their rowids.
         let select_query = format!(
-            "SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions {} ORDER BY tx",
+            "SELECT e, a, v, value_type_tag, tx, added FROM transactions {} ORDER BY tx",
             tx_filter
         );
         let mut stmt = sqlite.prepare(&select_query)?;
-- 
2.43.0


From c64cee7fe37596c47e3a33435bd9750d3ed56175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:22 +0000
Subject: [PATCH 73/84] fix: Run the HTTP client of the sync service in a Tokio
 runtime

---
 tolstoy/src/remote_client.rs | 37 ++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/tolstoy/src/remote_client.rs b/tolstoy/src/remote_client.rs
index 9c62071..e080059 100644
--- a/tolstoy/src/remote_client.rs
+++ b/tolstoy/src/remote_client.rs
@@ -14,7 +14,9 @@ use hyper::{body, header, Body, Client, Method, Request, StatusCode};
 use hyper_tls::HttpsConnector;
 // TODO: https://github.com/mozilla/mentat/issues/570
 // use serde_cbor;
-use futures::executor::block_on;
+use std::future::Future;
+
+use tokio::runtime;
 use uuid::Uuid;
 
 use crate::logger::d;
@@ -48,6 +50,21 @@ struct SerializedTransactions {
     transactions: Vec<Uuid>,
 }
 
+/// Hyper needs a Tokio runtime to drive its connections. Use the one we're called in, if any.
+fn block_on<T, F>(work: F) -> Result<T>
+where
+    F: Future<Output = Result<T>>,
+{
+    match runtime::Handle::try_current() {
+        Ok(_) => futures::executor::block_on(work),
+        Err(_) => runtime::Builder::new()
+            .basic_scheduler()
+            .enable_all()
+            .build()?
+            .block_on(work),
+    }
+}
+
 pub struct RemoteClient {
     base_uri: String,
     user_uuid: Uuid,
@@ -81,10 +98,10 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let body_bytes = body::to_bytes(res.into_body()).await?;
             let body =
                 String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
             let json: SerializedHead = serde_json::from_str(&body)
@@ -111,7 +128,7 @@ impl RemoteClient {
             .unwrap();
 
         let work = async {
-            let res = client.request(req).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let res = client.request(req).await?;
             let status_code = res.status();
 
             if status_code != expected {
@@ -138,10 +155,10 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let body_bytes = body::to_bytes(res.into_body()).await?;
             let body =
                 String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
             let json: SerializedTransactions = serde_json::from_str(&body)
@@ -168,10 +185,10 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let body_bytes = body::to_bytes(res.into_body()).await?;
             let body =
                 String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
             let json: DeserializableTransaction = serde_json::from_str(&body)
@@ -195,10 +212,10 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let body_bytes = body::to_bytes(res.into_body()).await?;
             let body =
                 String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
             let json: TxPart = serde_json::from_str(&body)
-- 
2.43.0


From d8b29a444f81e13bd40ce8ae21a0a40987d870bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 74/84] fix: Fail a sync when the service refuses an upload

---
 tolstoy/src/remote_client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tolstoy/src/remote_client.rs b/tolstoy/src/remote_client.rs
index e080059..1e23c6f 100644
--- a/tolstoy/src/remote_client.rs
+++ b/tolstoy/src/remote_client.rs
@@ -21,6 +21,7 @@ use uuid::Uuid;
 
 use crate::logger::d;
 use public_traits::errors::Result;
+use tolstoy_traits::errors::TolstoyError;
 
 use crate::types::{GlobalTransactionLog, Tx, TxPart};
 
@@ -133,6 +134,10 @@ impl RemoteClient {
 
             if status_code != expected {
                 d(&format!("bad put response: {:?}", status_code));
+                bail!(TolstoyError::BadRemoteResponse(format!(
+                    "expected {}, got {}",
+                    expected, status_code
+                )));
             }
             Ok(())
         };
-- 
2.43.0


From ea3ab65280451ef2743a0ee2dd0911930e1be3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:59 +0000
Subject: [PATCH 75/84] fix: Send doubles exactly to the sync service

---
 tolstoy/src/types.rs | 45 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/tolstoy/src/types.rs b/tolstoy/src/types.rs
index ca87b38..a5e2868 100644
--- a/tolstoy/src/types.rs
+++ b/tolstoy/src/types.rs
@@ -75,11 +75,56 @@ pub struct TxPart {
     pub partitions: Option<PartitionMap>,
     pub e: Entid,
     pub a: Entid,
+    #[serde(with = "exact_doubles")]
     pub v: TypedValue,
     pub tx: Entid,
     pub added: bool,
 }
 
+/// JSON has no infinities, and reading other doubles from JSON may be off by one bit, so doubles
+/// travel as strings.
+mod exact_doubles {
+    use serde::de::Error;
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
+    use core_traits::TypedValue;
+
+    #[derive(Serialize, Deserialize)]
+    enum Exact {
+        Double(String),
+    }
+
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum ExactOrNot {
+        Exact(Exact),
+        NotExact(TypedValue),
+    }
+
+    pub fn serialize<S>(v: &TypedValue, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        match v {
+            TypedValue::Double(d) => Exact::Double(d.to_string()).serialize(serializer),
+            v => v.serialize(serializer),
+        }
+    }
+
+    pub fn deserialize<'de, D>(deserializer: D) -> Result<TypedValue, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        match ExactOrNot::deserialize(deserializer)? {
+            ExactOrNot::Exact(Exact::Double(d)) => {
+                let d: f64 = d.parse().map_err(D::Error::custom)?;
+                Ok(TypedValue::Double(d.into()))
+            }
+            ExactOrNot::NotExact(v) => Ok(v),
+        }
+    }
+}
+
 pub trait GlobalTransactionLog {
     fn head(&self) -> Result<Uuid>;
     fn transactions_after(&self, tx: &Uuid) -> Result<Vec<Tx>>;
-- 
2.43.0


From f22edd74d4a505e67f2d39fdb4b07effb321556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 76/84] fix: Don't panic merging a retraction of an attribute
 which remote removed

---
 tolstoy/src/syncer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index f8689a6..35f59fd 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -631,9 +631,8 @@ impl Syncer {
                                     continue;
                                 }
                             }
-                            None => panic!(
-                                "programming error: missing attribute map for a known attribute"
-                            ),
+                            // Remote removed this attribute, and there's nothing left to retract.
+                            None => continue,
                         }
 
                         // TODO prepare a query and re-use it for all retractions of this type
-- 
2.43.0


From 48171e2e8fe2e3e7d9d1f7d4543614a8bf72cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 77/84] fix: Allocate past what is in use after a merge

---
 tolstoy/src/syncer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 35f59fd..4bbb806 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -447,7 +447,6 @@ impl Syncer {
             // Make space in the provided tx partition for the transaction we're about to create.
             // See function's notes for details.
             Syncer::rewind_tx_partition_by_one(&mut partition_map)?;
-            Syncer::keep_allocated_entids(&mut partition_map, &ip.partition_map);
 
             // This allocates our incoming entids in each builder,
             // letting us just use KnownEntid in the builders.
@@ -715,6 +714,10 @@ impl Syncer {
             }
         }
 
+        // Whatever the last incoming transaction said, don't allocate what's in use after this.
+        let partitions_in_use = SyncMetadata::get_partitions(&ip.transaction, PartitionsTable::Core)?;
+        Syncer::keep_allocated_entids(&mut ip.partition_map, &partitions_in_use);
+
         // TODO
         // At this point, we've rebased local transactions on top of remote.
         // This would be a good point to create a "merge commit" and upload our loosing timeline.
-- 
2.43.0


From 82f413b87fae1ca9989a6f1ec4b864ae3ae69fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:59 +0000
Subject: [PATCH 78/84] fix: Refuse vocabularies of version 0, and read those
 of the largest version

---
 src/vocabulary.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vocabulary.rs b/src/vocabulary.rs
index 782f78c..dd973b2 100644
--- a/src/vocabulary.rs
+++ b/src/vocabulary.rs
@@ -536,6 +536,10 @@ pub trait VersionedStore: HasVocabularies + HasSchema {
         &self,
         definition: &'definition Definition,
     ) -> Result<VocabularyCheck<'definition>> {
+        // Versions start at 1: a stored version 0 would be unreadable.
+        if definition.version == 0 {
+            bail!(MentatError::InvalidVocabularyVersion);
+        }
         if let Some(vocabulary) = self.read_vocabulary_named(&definition.name)? {
             // The name is present.
             // Check the version.
@@ -896,7 +900,7 @@ where
             match self.lookup_value_for_attribute(entid, &DB_SCHEMA_VERSION)? {
                 None => Ok(None),
                 Some(TypedValue::Long(version))
-                    if version > 0 && (version < u32::max_value() as i64) =>
+                    if version > 0 && version <= u32::max_value() as i64 =>
                 {
                     let version = version as u32;
                     let attributes = self
@@ -937,7 +941,7 @@ where
                 (
                     &Binding::Scalar(TypedValue::Ref(vocab)),
                     &Binding::Scalar(TypedValue::Long(version)),
-                ) if version > 0 && (version < u32::max_value() as i64) => {
+                ) if version > 0 && version <= u32::max_value() as i64 => {
                     Some((vocab, version as u32))
                 }
                 (_, _) => None,
-- 
2.43.0


From 4fd4a5bd660e69277db93ee481d20cde6dc2717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 79/84] fix: Let vocabularies declare attributes which don't
 state that they aren't fulltext

---
 src/vocabulary.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/vocabulary.rs b/src/vocabulary.rs
index dd973b2..c05d16f 100644
--- a/src/vocabulary.rs
+++ b/src/vocabulary.rs
@@ -352,7 +352,7 @@ impl Definition {
         diff: Option<BTreeMap<Keyword, Attribute>>,
     ) -> Result<Terms>
     where
-        T: HasCoreSchema,
+        T: HasSchema,
         R: ::std::borrow::Borrow<(Keyword, Attribute)>,
     {
         // The attributes we'll need to describe this vocabulary.
@@ -407,11 +407,16 @@ impl Definition {
             // These are all unconditional because we use attribute descriptions to _alter_, not
             // just to _add_, and so absence is distinct from negation!
             builder.add(tempid.clone(), a_index, TypedValue::Boolean(attr.index))?;
-            builder.add(
-                tempid.clone(),
-                a_fulltext,
-                TypedValue::Boolean(attr.fulltext),
-            )?;
+            // All but :db/fulltext, which can't be altered: an existing attribute that doesn't state
+            // what it is already must be left alone.
+            let existing = via.attribute_for_ident(kw).map(|(a, _)| a);
+            if existing.map_or(true, |a| a.fulltext != attr.fulltext) {
+                builder.add(
+                    tempid.clone(),
+                    a_fulltext,
+                    TypedValue::Boolean(attr.fulltext),
+                )?;
+            }
             builder.add(
                 tempid.clone(),
                 a_is_component,
-- 
2.43.0


From 341b99f523123e5197cbef0fa7e07f519f0c4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:04 +0000
Subject: [PATCH 80/84] fix: Make an attribute that was unique lose that when a
 vocabulary declares it so

---
 src/vocabulary.rs | 35 ++++-------------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/src/vocabulary.rs b/src/vocabulary.rs
index c05d16f..694d567 100644
--- a/src/vocabulary.rs
+++ b/src/vocabulary.rs
@@ -349,7 +349,6 @@ impl Definition {
         &'s self,
         attributes: &[R],
         via: &T,
-        diff: Option<BTreeMap<Keyword, Attribute>>,
     ) -> Result<Terms>
     where
         T: HasSchema,
@@ -435,12 +434,7 @@ impl Definition {
                 };
                 builder.add(tempid.clone(), a_unique, uu)?;
             } else {
-                let existing_unique = if let Some(ref diff) = diff {
-                    diff.get(kw).and_then(|a| a.unique)
-                } else {
-                    None
-                };
-                match existing_unique {
+                match existing.and_then(|a| a.unique) {
                     None => {
                         // Nothing to do.
                     }
@@ -457,33 +451,12 @@ impl Definition {
         builder.build().map_err(|e| e)
     }
 
-    /// Return a sequence of terms that describes this vocabulary definition and its attributes.
-    fn description_diff<T>(&self, via: &T, from: &Vocabulary) -> Result<Terms>
-    where
-        T: HasSchema,
-    {
-        let relevant = self
-            .attributes
-            .iter()
-            .filter_map(|&(ref keyword, _)|
-                               // Look up the keyword to see if it's currently in use.
-                               via.get_entid(keyword)
-
-                               // If so, map it to the existing attribute.
-                                  .and_then(|e| from.find(e).cloned())
-
-                               // Collect enough that we can do lookups.
-                                  .map(|e| (keyword.clone(), e)))
-            .collect();
-        self.description_for_attributes(self.attributes.as_slice(), via, Some(relevant))
-    }
-
     /// Return a sequence of terms that describes this vocabulary definition and its attributes.
     fn description<T>(&self, via: &T) -> Result<Terms>
     where
         T: HasSchema,
     {
-        self.description_for_attributes(self.attributes.as_slice(), via, None)
+        self.description_for_attributes(self.attributes.as_slice(), via)
     }
 }
 
@@ -868,7 +841,7 @@ impl<'a, 'c> VocabularyMechanics for InProgress<'a, 'c> {
         definition: &'definition Definition,
         attributes: Vec<&'definition (Keyword, Attribute)>,
     ) -> Result<VocabularyOutcome> {
-        let (terms, _tempids) = definition.description_for_attributes(&attributes, self, None)?;
+        let (terms, _tempids) = definition.description_for_attributes(&attributes, self)?;
         self.transact_entities(terms)?;
         Ok(VocabularyOutcome::InstalledMissingAttributes)
     }
@@ -888,7 +861,7 @@ impl<'a, 'c> VocabularyMechanics for InProgress<'a, 'c> {
 
         // TODO: don't do work for attributes that are unchanged. Here we rely on the transactor
         // to elide duplicate datoms.
-        let (terms, _tempids) = definition.description_diff(self, &from_version)?;
+        let (terms, _tempids) = definition.description(self)?;
         self.transact_entities(terms)?;
 
         definition.post(self, &from_version)?;
-- 
2.43.0


From 1bae38168ae868c4774240fb65ce94ea6ca72ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 81/84] fix: Refuse to write with metadata that another
 connection made outdated

---
 db/src/db.rs |  8 ++++++++
 src/conn.rs  | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/db/src/db.rs b/db/src/db.rs
index 34c23e0..fe34423 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -550,6 +550,14 @@ pub fn read_partition_map(conn: &rusqlite::Connection) -> Result<PartitionMap> {
     .collect()
 }
 
+/// Read the entid of the last transaction in the given SQL store.
+pub fn read_last_tx_id(conn: &rusqlite::Connection) -> Result<Entid> {
+    let last: Option<Entid> = conn
+        .prepare_cached("SELECT MAX(e) FROM datoms WHERE a = ?")?
+        .query_row(&[&entids::DB_TX_INSTANT], |row| row.get(0))?;
+    Ok(last.unwrap_or(bootstrap::TX0))
+}
+
 /// Read the ident map materialized view from the given SQL store.
 pub(crate) fn read_ident_map(conn: &rusqlite::Connection) -> Result<IdentMap> {
     let v = read_materialized_view(conn, "idents")?;
diff --git a/src/conn.rs b/src/conn.rs
index 0067f2c..64a2289 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -113,6 +113,11 @@ impl Conn {
         metadata.partition_map[":db.part/tx"].next_entid() - 1
     }
 
+    /// Does the store have transactions that we don't know about?
+    fn is_outdated(partition_map: &PartitionMap, sqlite: &rusqlite::Connection) -> Result<bool> {
+        Ok(db::read_last_tx_id(sqlite)? >= partition_map[":db.part/tx"].next_entid())
+    }
+
     /// Query the Mentat store, using the given connection and the current metadata.
     pub fn q_once<T>(
         &self,
@@ -234,6 +239,10 @@ impl Conn {
         sqlite: &'conn mut rusqlite::Connection,
         behavior: TransactionBehavior,
     ) -> Result<InProgress<'m, 'conn>> {
+        let writable = match behavior {
+            TransactionBehavior::Deferred => false,
+            _ => true,
+        };
         let tx = sqlite.transaction_with_behavior(behavior)?;
         let (current_generation, current_partition_map, current_schema, cache_cow) = {
             // The mutex is taken during this block.
@@ -248,6 +257,13 @@ impl Conn {
             )
         };
 
+        let outdated = Conn::is_outdated(&current_partition_map, &tx)?;
+        if outdated && writable {
+            // Somebody else wrote, and we would write using a schema which isn't current and ids
+            // which are in use.
+            bail!(MentatError::UnexpectedLostTransactRace);
+        }
+
         Ok(InProgress {
             mutex: &self.metadata,
             transaction: tx,
-- 
2.43.0


From f73ccf25c9ad85280cf43313292782910460fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 82/84] fix: Read the metadata of a store from one state of it

---
 db/src/db.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/db/src/db.rs b/db/src/db.rs
index fe34423..aefbb92 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -584,9 +584,16 @@ pub(crate) fn read_attribute_map(conn: &rusqlite::Connection) -> Result<Attribut
 /// Read the materialized views from the given SQL store and return a Mentat `DB` for querying and
 /// applying transactions.
 pub(crate) fn read_db(conn: &rusqlite::Connection) -> Result<DB> {
+    // What we read must be of the same state, even if another connection writes in the meantime.
+    let snapshot = if conn.is_autocommit() {
+        Some(conn.unchecked_transaction()?)
+    } else {
+        None
+    };
     let partition_map = read_partition_map(conn)?;
     let ident_map = read_ident_map(conn)?;
     let attribute_map = read_attribute_map(conn)?;
+    drop(snapshot);
     let schema = Schema::from_ident_map_and_attribute_map(ident_map, attribute_map)?;
     Ok(DB::new(partition_map, schema))
 }
-- 
2.43.0


From 97731b3969c7d22c5f7f235090f79cac41def856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 83/84] fix: Answer each query and pull from one state of the
 store

---
 src/conn.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/conn.rs b/src/conn.rs
index 64a2289..32e4acb 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -113,6 +113,17 @@ impl Conn {
         metadata.partition_map[":db.part/tx"].next_entid() - 1
     }
 
+    /// Begin a SQLite read transaction, unless the given connection is already in a transaction, so
+    /// that everything read until the result is dropped is of the same state of the store, even if
+    /// another connection writes in the meantime.
+    fn snapshot(sqlite: &rusqlite::Connection) -> Result<Option<rusqlite::Transaction>> {
+        if sqlite.is_autocommit() {
+            Ok(Some(sqlite.unchecked_transaction()?))
+        } else {
+            Ok(None)
+        }
+    }
+
     /// Does the store have transactions that we don't know about?
     fn is_outdated(partition_map: &PartitionMap, sqlite: &rusqlite::Connection) -> Result<bool> {
         Ok(db::read_last_tx_id(sqlite)? >= partition_map[":db.part/tx"].next_entid())
@@ -130,6 +141,7 @@ impl Conn {
     {
         // Doesn't clone, unlike `current_schema`.
         let metadata = self.metadata.lock().unwrap();
+        let _snapshot = Conn::snapshot(sqlite)?;
         let known = Known::new(&*metadata.schema, Some(&metadata.attribute_cache));
         q_once(sqlite, known, query, inputs)
     }
@@ -146,6 +158,7 @@ impl Conn {
         T: Into<Option<QueryInputs>>,
     {
         let metadata = self.metadata.lock().unwrap();
+        let _snapshot = Conn::snapshot(sqlite)?;
         q_uncached(
             sqlite,
             &*metadata.schema, // Doesn't clone, unlike `current_schema`.
@@ -178,6 +191,7 @@ impl Conn {
         T: Into<Option<QueryInputs>>,
     {
         let metadata = self.metadata.lock().unwrap();
+        let _snapshot = Conn::snapshot(sqlite)?;
         let known = Known::new(&*metadata.schema, Some(&metadata.attribute_cache));
         q_explain(sqlite, known, query, inputs)
     }
@@ -194,6 +208,7 @@ impl Conn {
     {
         let metadata = self.metadata.lock().unwrap();
         let schema = &*metadata.schema;
+        let _snapshot = Conn::snapshot(sqlite)?;
         pull_attributes_for_entities(schema, sqlite, entities, attributes).map_err(|e| e.into())
     }
 
@@ -208,6 +223,7 @@ impl Conn {
     {
         let metadata = self.metadata.lock().unwrap();
         let schema = &*metadata.schema;
+        let _snapshot = Conn::snapshot(sqlite)?;
         pull_attributes_for_entity(schema, sqlite, entity, attributes).map_err(|e| e.into())
     }
 
@@ -218,6 +234,7 @@ impl Conn {
         attribute: &edn::Keyword,
     ) -> Result<Vec<TypedValue>> {
         let metadata = self.metadata.lock().unwrap();
+        let _snapshot = Conn::snapshot(sqlite)?;
         let known = Known::new(&*metadata.schema, Some(&metadata.attribute_cache));
         lookup_values_for_attribute(sqlite, known, entity, attribute)
     }
@@ -229,6 +246,7 @@ impl Conn {
         attribute: &edn::Keyword,
     ) -> Result<Option<TypedValue>> {
         let metadata = self.metadata.lock().unwrap();
+        let _snapshot = Conn::snapshot(sqlite)?;
         let known = Known::new(&*metadata.schema, Some(&metadata.attribute_cache));
         lookup_value_for_attribute(sqlite, known, entity, attribute)
     }
-- 
2.43.0


From ee08a90d77b23ad9204164525c8d0fcbb1567db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 84/84] fix: Don't answer from caches that another connection
 made outdated

---
 src/conn.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/conn.rs b/src/conn.rs
index 32e4acb..6019a72 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -124,6 +124,19 @@ impl Conn {
         }
     }
 
+    /// What we know for querying the store as the given connection sees it.  If another connection
+    /// has written since `metadata` was current, that doesn't include what we cached.
+    fn known<'m>(metadata: &'m Metadata, sqlite: &rusqlite::Connection) -> Result<Known<'m, 'm>> {
+        if Conn::is_outdated(&metadata.partition_map, sqlite)? {
+            Ok(Known::for_schema(&*metadata.schema))
+        } else {
+            Ok(Known::new(
+                &*metadata.schema,
+                Some(&metadata.attribute_cache),
+            ))
+        }
+    }
+
     /// Does the store have transactions that we don't know about?
     fn is_outdated(partition_map: &PartitionMap, sqlite: &rusqlite::Connection) -> Result<bool> {
         Ok(db::read_last_tx_id(sqlite)? >= partition_map[":db.part/tx"].next_entid())
@@ -142,7 +155,7 @@ impl Conn {
         // Doesn't clone, unlike `current_schema`.
         let metadata = self.metadata.lock().unwrap();
         let _snapshot = Conn::snapshot(sqlite)?;
-        let known = Known::new(&*metadata.schema, Some(&metadata.attribute_cache));
+        let known = Conn::known(&metadata, sqlite)?;
         q_once(sqlite, known, query, inputs)
     }
 
@@ -177,7 +190,7 @@ impl Conn {
         T: Into<Option<QueryInputs>>,
     {
         let metadata = self.metadata.lock().unwrap();
-        let known = Known::new(&*metadata.schema, Some(&metadata.attribute_cache));
+        let known = Conn::known(&metadata, sqlite)?;
         q_prepare(sqlite, known, query, inputs)
     }
 
@@ -192,7 +205,7 @@ impl Conn {
     {
         let metadata = self.metadata.lock().unwrap();
         let _snapshot = Conn::snapshot(sqlite)?;
-        let known = Known::new(&*metadata.schema, Some(&metadata.attribute_cache));
+        let known = Conn::known(&metadata, sqlite)?;
         q_explain(sqlite, known, query, inputs)
     }
 
@@ -235,7 +248,7 @@ impl Conn {
     ) -> Result<Vec<TypedValue>> {
         let metadata = self.metadata.lock().unwrap();
         let _snapshot = Conn::snapshot(sqlite)?;
-        let known = Known::new(&*metadata.schema, Some(&metadata.attribute_cache));
+        let known = Conn::known(&metadata, sqlite)?;
         lookup_values_for_attribute(sqlite, known, entity, attribute)
     }
 
@@ -247,7 +260,7 @@ impl Conn {
     ) -> Result<Option<TypedValue>> {
         let metadata = self.metadata.lock().unwrap();
         let _snapshot = Conn::snapshot(sqlite)?;
-        let known = Known::new(&*metadata.schema, Some(&metadata.attribute_cache));
+        let known = Conn::known(&metadata, sqlite)?;
         lookup_value_for_attribute(sqlite, known, entity, attribute)
     }
 
@@ -288,7 +301,12 @@ impl Conn {
             generation: current_generation,
             partition_map: current_partition_map,
             schema: (*current_schema).clone(),
-            cache: InProgressSQLiteAttributeCache::from_cache(cache_cow),
+            cache: InProgressSQLiteAttributeCache::from_cache(if outdated {
+                // What we cached isn't what is in the store.
+                Default::default()
+            } else {
+                cache_cow
+            }),
             use_caching: true,
             tx_observer: &self.tx_observer_service,
             tx_observer_watcher: InProgressObserverTransactWatcher::new(),
-- 
2.43.0

