From 54dabe377772b66373a48023e4f1aae13d039c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 01/68] fix: retracting a value an entity does not have must
 not remove its cardinality-one value

The inexact search joined only on [e a], so [:db/retract e a v] removed whatever
value was present. A retraction now finds only the datom it names.
---
 db/src/db.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 8b7401e..20be5d5 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -644,7 +644,8 @@ pub trait MentatStoring {
 /// See https://github.com/mozilla/mentat/wiki/Transacting:-entity-to-SQL-translation.
 fn search(conn: &rusqlite::Connection) -> Result<()> {
     // First is fast, only one table walk: lookup by exact eav.
-    // Second is slower, but still only one table walk: lookup old value by ea.
+    // Second is slower, but still only one table walk: lookup old value by ea.  An assertion finds
+    // (and replaces) whatever value is present; a retraction finds only the value it names.
     let s = r#"
       INSERT INTO temp.search_results
       SELECT t.e0, t.a0, t.v0, t.value_type_tag0, t.added0, t.flags0, ':db.cardinality/many', d.rowid, d.v
@@ -661,7 +662,8 @@ fn search(conn: &rusqlite::Connection) -> Result<()> {
       FROM temp.inexact_searches AS t
       LEFT JOIN datoms AS d
       ON t.e0 = d.e AND
-         t.a0 = d.a"#;
+         t.a0 = d.a AND
+         (t.added0 IS 1 OR (t.value_type_tag0 = d.value_type_tag AND t.v0 = d.v))"#;
 
     let mut stmt = conn.prepare_cached(s)?;
     stmt.execute(rusqlite::params![])
-- 
2.43.0


From 2cbf25db7c393f140f21301bc18fa7e80c5a0ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 02/68] fix: transactions that fill a chunk of SQLite's
 variables are valid

With a variable limit divisible by the number of bindings, a full chunk tripped the
transactor's assertion; and a chunk of fulltext datoms whose strings were all inserted
with an earlier chunk produced an empty VALUES list.
---
 db/src/db.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 20be5d5..f8c43e5 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -939,7 +939,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = if search_type == SearchType::Exact {
                 format!("INSERT INTO temp.exact_searches (e0, a0, v0, value_type_tag0, added0, flags0) VALUES {}", values)
@@ -1038,13 +1038,16 @@ impl MentatStoring for rusqlite::Connection {
                              .chain(once(searchid as &dyn ToSql))
                      }).collect();
 
-            // TODO: make this maximally efficient. It's not terribly inefficient right now.
-            let fts_values: String = repeat_values(2, string_count);
-            let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
+            // Every string of this chunk might have been inserted with an earlier chunk.
+            if string_count > 0 {
+                // TODO: make this maximally efficient. It's not terribly inefficient right now.
+                let fts_values: String = repeat_values(2, string_count);
+                let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
 
-            // TODO: consider ensuring we inserted the expected number of rows.
-            let mut stmt = self.prepare_cached(fts_s.as_str())?;
-            stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+                // TODO: consider ensuring we inserted the expected number of rows.
+                let mut stmt = self.prepare_cached(fts_s.as_str())?;
+                stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            }
 
             // Second, insert searches.
             // `params` reference computed values in `block`.
@@ -1060,7 +1063,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * datom_count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, datom_count, max_vars);
+            assert!(bindings_per_statement * datom_count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, datom_count, max_vars);
             let inner = "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".to_string();
             // Like "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?), (?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".
             let fts_values: String = repeat(inner).take(datom_count).join(", ");
-- 
2.43.0


From 864011f207a4ecd2eac3c34034835df3e0448459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 03/68] fix: [:db/retract v :a/_reversed e] retracts rather
 than asserts

---
 db/src/tx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 8b0a65a..6cd89bc 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -469,7 +469,7 @@ where
                         let reversed_a = in_process.entity_a_into_term_a(reversed_a)?;
                         let reversed_v = in_process.entity_e_into_term_v(e)?;
                         terms.push(Term::AddOrRetract(
-                            OpType::Add,
+                            op,
                             reversed_e,
                             reversed_a,
                             reversed_v,
-- 
2.43.0


From 4701da5745456377ce4e0d6053e86df5e3b0c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 04/68] fix: reversed notation checks that the entity it
 describes exists

---
 db/src/tx.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 6cd89bc..6808114 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -391,7 +391,7 @@ where
                                     Some(tempid) => Ok(Either::Right(LookupRefOrTempId::TempId(self.temp_ids.intern(tempid)))),
                                     None => {
                                         if let TypedValue::Ref(entid) = v.into_typed_value(&self.schema, ValueType::Ref)? {
-                                            Ok(Either::Left(KnownEntid(entid)))
+                                            Ok(Either::Left(self.ensure_entid_exists(entid)?))
                                         } else {
                                             // The given value is expected to be :db.type/ref, so this shouldn't happen.
                                             bail!(DbErrorKind::NotYetImplemented(format!("Cannot use :attr/_reversed notation for attribute {} with value that is not :db.valueType :db.type/ref", forward_a)))
@@ -400,8 +400,10 @@ where
                                 }
                             },
 
-                            entmod::ValuePlace::Entid(entid) =>
-                                Ok(Either::Left(KnownEntid(self.entity_a_into_term_a(entid)?))),
+                            entmod::ValuePlace::Entid(entid) => {
+                                let entid = self.entity_a_into_term_a(entid)?;
+                                Ok(Either::Left(self.ensure_entid_exists(entid)?))
+                            },
 
                             entmod::ValuePlace::TempId(tempid) =>
                                 Ok(Either::Right(LookupRefOrTempId::TempId(self.temp_ids.intern(tempid)))),
-- 
2.43.0


From 73cb25f40aa2e41ef570f93aa63e0ee3dc382b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 05/68] fix: assert every upsert of a tempid that resolves, not
 only those that are in the store

---
 db/src/tx.rs                | 3 +++
 db/src/upsert_resolution.rs | 1 +
 2 files changed, 4 insertions(+)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 6808114..470b261 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -1112,6 +1112,9 @@ pub(crate) fn into_aev_trie<'schema>(
     inert_terms: Vec<TermWithTempIds>,
 ) -> Result<AEVTrie<'schema>> {
     let mut trie = AEVTrie::default();
+    // A tempid with several upserts resolves when any of them does, so these aren't necessarily in
+    // the store already.
+    extend_aev_trie(schema, final_populations.upserted, &mut trie)?;
     extend_aev_trie(schema, final_populations.resolved, &mut trie)?;
     extend_aev_trie(schema, final_populations.allocated, &mut trie)?;
     // Inert terms need to be unwrapped.  It is a coding error if a term can't be unwrapped.
diff --git a/db/src/upsert_resolution.rs b/db/src/upsert_resolution.rs
index f656425..84a273e 100644
--- a/db/src/upsert_resolution.rs
+++ b/db/src/upsert_resolution.rs
@@ -147,6 +147,7 @@ impl Generation {
 
         // We'll iterate our own allocations to resolve more things, but terms that have already
         // resolved stay resolved.
+        next.upserted = self.upserted;
         next.resolved = self.resolved;
 
         for UpsertE(t, a, v) in self.upserts_e {
-- 
2.43.0


From 61aeccb1e424d308c26acd3f802ec38bb4878e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 06/68] fix: a tempid that resolved in an earlier generation is
 not allocated again

---
 db/src/tx.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 470b261..90d0624 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -745,7 +745,15 @@ where
             debug!("trying to resolve avs {:?}", tempid_avs);
 
             // Evolve further.
-            let temp_id_map: TempIdMap = self.resolve_temp_id_avs(&tempid_avs[..])?;
+            let mut temp_id_map: TempIdMap = self.resolve_temp_id_avs(&tempid_avs[..])?;
+
+            // A tempid that resolved in an earlier generation stays resolved, even if the upserts
+            // that remain for it (see `UpsertEV`) aren't in the store.
+            for (tempid, _) in &tempid_avs {
+                if let Some(&entid) = tempids.get(&**tempid) {
+                    temp_id_map.entry(tempid.clone()).or_insert(entid);
+                }
+            }
 
             debug!("resolved avs for tempids {:?}", temp_id_map);
 
-- 
2.43.0


From 1264f3a36162a27d14900192f280f152883344db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 07/68] fix: after reopening, entids that are only referred to
 are not allocated again

---
 db/src/db.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index f8c43e5..d0df2ca 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -510,7 +510,7 @@ pub fn read_partition_map(conn: &rusqlite::Connection) -> Result<PartitionMap> {
     // First part of the union sprinkles 'allow_excision' into the 'parts' view.
     // Second part of the union takes care of partitions which are known
     // but don't have any transactions.
-    conn.prepare(
+    let mut partition_map: PartitionMap = conn.prepare(
         "
         SELECT
             known_parts.part,
@@ -543,7 +543,28 @@ pub fn read_partition_map(conn: &rusqlite::Connection) -> Result<PartitionMap> {
             Partition::new(row.get(1)?, row.get(2)?, row.get(3)?, row.get(4)?),
         ))
     })?
-    .collect()
+    .collect::<Result<PartitionMap>>()?;
+
+    // The 'parts' view knows only the entids that have assertions of their own.  An entid might also
+    // have been allocated only to be referred to.
+    let mut stmt = conn.prepare(
+        "SELECT max(v) FROM timelined_transactions
+         WHERE timeline = ? AND value_type_tag = 0 AND v BETWEEN ? AND ?",
+    )?;
+    for partition in partition_map.values_mut() {
+        let max_ref: Option<Entid> = stmt.query_row(
+            rusqlite::params![
+                crate::TIMELINE_MAIN,
+                partition.next_entid(),
+                partition.end - 1
+            ],
+            |row| row.get(0),
+        )?;
+        if let Some(e) = max_ref {
+            partition.set_next_entid(e + 1);
+        }
+    }
+    Ok(partition_map)
 }
 
 /// Read the ident map materialized view from the given SQL store.
-- 
2.43.0


From 8025033315b682f3ebe69cd9bd6bb7a442bc52b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 08/68] fix: refuse references to entids that were never
 allocated

---
 db/src/tx.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 90d0624..f7641e6 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -490,9 +490,16 @@ where
                                         Some(tempid) => Either::Right(LookupRefOrTempId::TempId(
                                             in_process.temp_ids.intern(tempid),
                                         )),
-                                        None => v
-                                            .into_typed_value(&self.schema, attribute.value_type)
-                                            .map(Either::Left)?,
+                                        None => {
+                                            let typed_value = v.into_typed_value(
+                                                &self.schema,
+                                                attribute.value_type,
+                                            )?;
+                                            if let TypedValue::Ref(entid) = typed_value {
+                                                in_process.ensure_entid_exists(entid)?;
+                                            }
+                                            Either::Left(typed_value)
+                                        }
                                     }
                                 } else {
                                     v.into_typed_value(&self.schema, attribute.value_type)
@@ -500,9 +507,11 @@ where
                                 }
                             }
 
-                            entmod::ValuePlace::Entid(entid) => Either::Left(TypedValue::Ref(
-                                in_process.entity_a_into_term_a(entid)?,
-                            )),
+                            entmod::ValuePlace::Entid(entid) => {
+                                let entid = in_process.entity_a_into_term_a(entid)?;
+                                in_process.ensure_entid_exists(entid)?;
+                                Either::Left(TypedValue::Ref(entid))
+                            }
 
                             entmod::ValuePlace::TempId(tempid) => Either::Right(
                                 LookupRefOrTempId::TempId(in_process.temp_ids.intern(tempid)),
-- 
2.43.0


From 7c3b1361d31e822a94f431df8882c8edb6d5ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 09/68] fix: an ident given up by one entity and taken by
 another in one transaction keeps its name

---
 db/src/metadata.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/db/src/metadata.rs b/db/src/metadata.rs
index ac43939..4e4cb3c 100644
--- a/db/src/metadata.rs
+++ b/db/src/metadata.rs
@@ -412,24 +412,28 @@ where
 
     let mut idents_altered: BTreeMap<Entid, IdentAlteration> = BTreeMap::new();
 
-    // Asserted, altered, or retracted :db/idents update the relevant entids.
-    for (entid, ident) in ident_set.asserted {
-        schema.entid_map.insert(entid, ident.clone());
-        schema.ident_map.insert(ident.clone(), entid);
-        idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
+    // Asserted, altered, or retracted :db/idents update the relevant entids.  Idents that entities
+    // give up are removed first: another entity might take them over in the same transaction.
+    for (entid, ident) in &ident_set.retracted {
+        schema.entid_map.remove(entid);
+        schema.ident_map.remove(ident);
+        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    }
+
+    for (old_ident, _new_ident) in ident_set.altered.values() {
+        schema.ident_map.remove(old_ident); // Remove old.
     }
 
-    for (entid, (old_ident, new_ident)) in ident_set.altered {
+    for (entid, (_old_ident, new_ident)) in ident_set.altered {
         schema.entid_map.insert(entid, new_ident.clone()); // Overwrite existing.
-        schema.ident_map.remove(&old_ident); // Remove old.
         schema.ident_map.insert(new_ident.clone(), entid); // Insert new.
         idents_altered.insert(entid, IdentAlteration::Ident(new_ident.clone()));
     }
 
-    for (entid, ident) in &ident_set.retracted {
-        schema.entid_map.remove(entid);
-        schema.ident_map.remove(ident);
-        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    for (entid, ident) in ident_set.asserted {
+        schema.entid_map.insert(entid, ident.clone());
+        schema.ident_map.insert(ident.clone(), entid);
+        idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
     }
 
     // Component attributes need to change if either:
-- 
2.43.0


From f998ac9769c0ec4f44c6afe353ab3e523b639309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 10/68] fix: refuse schema alterations that leave an attribute
 invalid

---
 db/src/db.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index d0df2ca..3c8f58b 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -39,7 +39,7 @@ use mentat_core::{AttributeMap, FromMicros, IdentMap, Schema, ToMicros, ValueRc}
 use db_traits::errors::{DbErrorKind, Result};
 
 use crate::metadata;
-use crate::schema::SchemaBuilding;
+use crate::schema::{AttributeValidation, SchemaBuilding};
 use crate::tx::transact;
 use crate::types::{AVMap, AVPair, Partition, PartitionMap, DB};
 
@@ -1324,6 +1324,9 @@ SELECT EXISTS
                 }
             }
         }
+
+        // What the alterations leave must be as valid as a new attribute must be.
+        attribute.validate(|| entid.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From 7722e732b7d73a7c44e8fb0c912e5f809a5c26ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 11/68] fix: altering another property of a unique attribute
 keeps it unique

---
 db/src/schema.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db/src/schema.rs b/db/src/schema.rs
index fdbed5a..e64fce5 100644
--- a/db/src/schema.rs
+++ b/db/src/schema.rs
@@ -226,9 +226,6 @@ impl AttributeBuilder {
                 attribute.unique = *unique;
                 mutations.push(AttributeAlteration::Unique);
             }
-        } else if attribute.unique != None {
-            attribute.unique = None;
-            mutations.push(AttributeAlteration::Unique);
         }
 
         if let Some(index) = self.index {
-- 
2.43.0


From 04d5703f7526838e2be4be200dc4cd322b3995a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 12/68] fix: a cardinality-many attribute without conflicting
 values can become cardinality-one

---
 db/src/db.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 3c8f58b..ed959ab 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1310,8 +1310,10 @@ SELECT EXISTS
                     // TODO: improve the failure message.  Perhaps try to mimic what Datomic says in
                     // this case?
                     if !attribute.multival {
-                        let mut rows = cardinality_stmt.query(&[&entid as &dyn ToSql])?;
-                        if rows.next()?.is_some() {
+                        // `SELECT EXISTS` always has a row: what counts is the value in it.
+                        let conflicting: bool =
+                            cardinality_stmt.query_row(&[&entid as &dyn ToSql], |row| row.get(0))?;
+                        if conflicting {
                             bail!(DbErrorKind::SchemaAlterationFailed(format!(
                                 "Cannot alter schema attribute {} to be :db.cardinality/one",
                                 entid
-- 
2.43.0


From 9af3786a1a20b96bf74083494e7299c8d63bf6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 13/68] fix: a refused transaction leaves nothing behind in the
 InProgress it was attempted in

---
 db/src/cache.rs        |  2 +-
 db/src/tx_observer.rs  |  2 +-
 transaction/src/lib.rs | 45 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 008ff0a..625266c 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1611,7 +1611,7 @@ impl SQLiteAttributeCache {
 
 /// We maintain a diff on top of the `inner` -- existing -- cache.
 /// That involves tracking unregisterings and registerings.
-#[derive(Debug, Default)]
+#[derive(Clone, Debug, Default)]
 pub struct InProgressSQLiteAttributeCache {
     inner: Arc<AttributeCaches>,
     pub overlay: AttributeCaches,
diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index ebc42af..5dad666 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -157,7 +157,7 @@ impl Drop for TxObservationService {
     }
 }
 
-#[derive(Default)]
+#[derive(Clone, Default)]
 pub struct InProgressObserverTransactWatcher {
     collected_attributes: AttributeSet,
     pub txes: IndexMap<Entid, AttributeSet>,
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index f30ca7b..5d12864 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -161,7 +161,42 @@ impl<'a, 'c> InProgress<'a, 'c> {
             .and_then(|(terms, _tempid_set)| self.transact_entities(terms))
     }
 
+    /// Run `f`, which transacts.  If it fails, everything it did is undone, so that this `InProgress`
+    /// can be used -- and committed -- as if it hadn't been attempted.
+    fn all_or_nothing<F>(&mut self, f: F) -> Result<TxReport>
+    where
+        F: FnOnce(&mut Self) -> Result<TxReport>,
+    {
+        let cache = self.cache.clone();
+        let tx_observer_watcher = self.tx_observer_watcher.clone();
+
+        self.savepoint("in_progress_transact")?;
+        let result = f(self);
+        if result.is_err() {
+            self.cache = cache;
+            self.tx_observer_watcher = tx_observer_watcher;
+            // Some errors make SQLite roll back everything, the savepoint included.
+            if self.transaction.is_autocommit() {
+                return result;
+            }
+            self.rollback_savepoint("in_progress_transact")?;
+        }
+        self.release_savepoint("in_progress_transact")?;
+        result
+    }
+
     pub fn transact_terms<I>(&mut self, terms: I, tempid_set: InternSet<TempId>) -> Result<TxReport>
+    where
+        I: IntoIterator<Item = TermWithTempIds>,
+    {
+        self.all_or_nothing(|ip| ip.transact_terms_inner(terms, tempid_set))
+    }
+
+    fn transact_terms_inner<I>(
+        &mut self,
+        terms: I,
+        tempid_set: InternSet<TempId>,
+    ) -> Result<TxReport>
     where
         I: IntoIterator<Item = TermWithTempIds>,
     {
@@ -186,6 +221,16 @@ impl<'a, 'c> InProgress<'a, 'c> {
     }
 
     pub fn transact_entities<I, V: TransactableValue>(&mut self, entities: I) -> Result<TxReport>
+    where
+        I: IntoIterator<Item = edn::entities::Entity<V>>,
+    {
+        self.all_or_nothing(|ip| ip.transact_entities_inner(entities))
+    }
+
+    fn transact_entities_inner<I, V: TransactableValue>(
+        &mut self,
+        entities: I,
+    ) -> Result<TxReport>
     where
         I: IntoIterator<Item = edn::entities::Entity<V>>,
     {
-- 
2.43.0


From 4e224fef4f05279d9420863889795ac486d18b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 14/68] fix: watchers are told of the datoms a transaction
 changed, not of those it was asked for

---
 db/src/db.rs      | 35 +++++++++++++++++++++++++++++++++++
 db/src/tx.rs      |  8 ++++++--
 db/src/watcher.rs | 12 ++++++++++++
 3 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index ed959ab..2cd9744 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -658,6 +658,9 @@ pub trait MentatStoring {
     /// Extract metadata-related [e a typed_value added] datoms resolved in the last
     /// materialized transaction.
     fn resolved_metadata_assertions(&self) -> Result<Vec<(Entid, Entid, TypedValue, bool)>>;
+
+    /// Extract all [e a typed_value added] datoms resolved in the current transaction.
+    fn resolved_assertions(&self) -> Result<Vec<(Entid, Entid, TypedValue, bool)>>;
 }
 
 /// Take search rows and complete `temp.search_results`.
@@ -1150,6 +1153,38 @@ impl MentatStoring for rusqlite::Connection {
             .collect();
         m
     }
+
+    fn resolved_assertions(&self) -> Result<Vec<(Entid, Entid, TypedValue, bool)>> {
+        // Fulltext values are represented by their rowids.
+        let sql_stmt = format!(
+            r#"
+            SELECT e, a,
+                   CASE WHEN flags & {} IS NOT 0
+                        THEN (SELECT text FROM fulltext_values WHERE rowid = v)
+                        ELSE v END,
+                   value_type_tag, added FROM
+            (
+                SELECT e0 as e, a0 as a, v0 as v, value_type_tag0 as value_type_tag, flags0 as flags, 1 as added
+                FROM temp.search_results
+                WHERE added0 IS 1 AND ((rid IS NULL) OR ((rid IS NOT NULL) AND (v0 IS NOT v)))
+
+                UNION
+
+                SELECT e0 as e, a0 as a, v, value_type_tag0 as value_type_tag, flags0 as flags, 0 as added
+                FROM temp.search_results
+                WHERE rid IS NOT NULL AND
+                ((added0 IS 0) OR
+                    (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v))
+            ) ORDER BY a, e, v, value_type_tag, added"#,
+            AttributeBitFlags::IndexFulltext as u8
+        );
+
+        let mut stmt = self.prepare_cached(&sql_stmt)?;
+        let m: Result<Vec<_>> = stmt
+            .query_and_then(rusqlite::params![], row_to_transaction_assertion)?
+            .collect();
+        m
+    }
 }
 
 /// Extract metadata-related [e a typed_value added] datoms committed in the given transaction.
diff --git a/db/src/tx.rs b/db/src/tx.rs
index f7641e6..ef872b2 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -910,8 +910,6 @@ where
                         .map(|v| (true, v))
                         .chain(ars.retract.into_iter().map(|v| (false, v)))
                     {
-                        let op = if added { OpType::Add } else { OpType::Retract };
-                        self.watcher.datom(op, e, a, &v);
                         queue.push((e, a, attribute, v, added));
                     }
                 }
@@ -948,6 +946,12 @@ where
             }
         }
 
+        if self.watcher.is_interested() {
+            for (e, a, v, added) in self.store.resolved_assertions()? {
+                let op = if added { OpType::Add } else { OpType::Retract };
+                self.watcher.datom(op, e, a, &v);
+            }
+        }
         self.watcher.done(&self.tx_id, self.schema)?;
 
         if tx_might_update_metadata {
diff --git a/db/src/watcher.rs b/db/src/watcher.rs
index d3e42eb..df2a479 100644
--- a/db/src/watcher.rs
+++ b/db/src/watcher.rs
@@ -26,6 +26,9 @@ use edn::entities::OpType;
 use db_traits::errors::Result;
 
 pub trait TransactWatcher {
+    /// Called for each datom that the transact actually adds to or retracts from the store: not
+    /// for assertions and retractions that change nothing, and with the values that
+    /// cardinality-one assertions replace.
     fn datom(&mut self, op: OpType, e: Entid, a: Entid, v: &TypedValue);
 
     /// Only return an error if you want to interrupt the transact!
@@ -33,6 +36,11 @@ pub trait TransactWatcher {
     /// attribute changes transacted during this transact are not reflected in
     /// the schema.
     fn done(&mut self, t: &Entid, schema: &Schema) -> Result<()>;
+
+    /// Return `false` if there's no need to call `datom`.
+    fn is_interested(&self) -> bool {
+        true
+    }
 }
 
 pub struct NullWatcher();
@@ -43,4 +51,8 @@ impl TransactWatcher for NullWatcher {
     fn done(&mut self, _t: &Entid, _schema: &Schema) -> Result<()> {
         Ok(())
     }
+
+    fn is_interested(&self) -> bool {
+        false
+    }
 }
-- 
2.43.0


From 851681e02b079d7d4ebabbb8339bdd8b47dccddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 15/68] fix: value lookups of cached attributes handle both
 cardinalities

---
 transaction/src/query.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index 9f017c5..4bfb4ed 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -217,6 +217,11 @@ where
     if known.is_attribute_cached_forward(attrid) {
         Ok(known
             .get_value_for_entid(known.schema, attrid, entid)
+            .or_else(|| {
+                known
+                    .get_values_for_entid(known.schema, attrid, entid)
+                    .and_then(|vs| vs.first())
+            })
             .cloned())
     } else {
         fetch_values(sqlite, known, entid, attrid, true)
@@ -243,6 +248,11 @@ where
         Ok(known
             .get_values_for_entid(known.schema, attrid, entid)
             .cloned()
+            .or_else(|| {
+                known
+                    .get_value_for_entid(known.schema, attrid, entid)
+                    .map(|v| vec![v.clone()])
+            })
             .unwrap_or_else(Vec::new))
     } else {
         fetch_values(sqlite, known, entid, attrid, false)
-- 
2.43.0


From a32abac40cc1b173ec5222c74c9750f2a0544c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 16/68] fix: queries only consult the cache for directions and
 cardinalities it can answer

---
 query-algebrizer/src/clauses/pattern.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 154acde..c0f5206 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -371,8 +371,11 @@ impl ConjoiningClauses {
                                             return false;
                                         }
                                         ValueType::Keyword => {
-                                            let tv: TypedValue = TypedValue::Keyword(kw.clone());
-                                            return self.reverse_lookup(known, var, attr, &tv);
+                                            if cached_reverse {
+                                                let tv: TypedValue =
+                                                    TypedValue::Keyword(kw.clone());
+                                                return self.reverse_lookup(known, var, attr, &tv);
+                                            }
                                         }
                                         t => {
                                             let tv: TypedValue = TypedValue::Keyword(kw.clone());
@@ -397,7 +400,8 @@ impl ConjoiningClauses {
                         EvolvedNonValuePlace::Entid(entity) => {
                             match pattern.value {
                                 EvolvedValuePlace::Variable(ref var) => {
-                                    if cached_forward {
+                                    // TODO: handle multiple values.
+                                    if cached_forward && !attribute.multival {
                                         match known.get_value_for_entid(known.schema, attr, entity)
                                         {
                                             None => {
-- 
2.43.0


From 99392be1343668664ed94a917f69e0f4ebc14b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 17/68] fix: the attribute cache follows retractions, schema
 alterations and re-registration

---
 db/src/cache.rs        | 381 +++++++++++++++++------------------------
 transaction/src/lib.rs |   4 +
 2 files changed, 157 insertions(+), 228 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 625266c..1ebe449 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -50,8 +50,6 @@ use std::collections::{BTreeMap, BTreeSet, HashSet};
 
 use std::collections::btree_map::Entry;
 
-use std::collections::btree_map::Entry::{Occupied, Vacant};
-
 use std::iter::once;
 
 use std::sync::Arc;
@@ -100,54 +98,6 @@ where
     }
 }
 
-trait Absorb {
-    fn absorb(&mut self, other: Self);
-}
-
-impl<K, V> Absorb for CacheMap<K, Option<V>>
-where
-    K: Ord,
-{
-    fn absorb(&mut self, other: Self) {
-        for (e, v) in other.into_iter() {
-            match v {
-                None => {
-                    // It was deleted. Remove it from our map.
-                    self.remove(&e);
-                }
-                s @ Some(_) => {
-                    self.insert(e, s);
-                }
-            }
-        }
-    }
-}
-
-trait ExtendByAbsorbing {
-    /// Just like `extend`, but rather than replacing our value with the other, the other is
-    /// absorbed into ours.
-    fn extend_by_absorbing(&mut self, other: Self);
-}
-
-impl<K, V> ExtendByAbsorbing for BTreeMap<K, V>
-where
-    K: Ord,
-    V: Absorb,
-{
-    fn extend_by_absorbing(&mut self, other: Self) {
-        for (k, v) in other.into_iter() {
-            match self.entry(k) {
-                Occupied(mut entry) => {
-                    entry.get_mut().absorb(v);
-                }
-                Vacant(entry) => {
-                    entry.insert(v);
-                }
-            }
-        }
-    }
-}
-
 // Can't currently put doc tests on traits, so here it is.
 #[test]
 fn test_vec_remove_item() {
@@ -255,13 +205,6 @@ struct SingleValAttributeCache {
     e_v: CacheMap<Entid, Option<TypedValue>>,
 }
 
-impl Absorb for SingleValAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        self.e_v.absorb(other.e_v);
-    }
-}
-
 impl AttributeCache for SingleValAttributeCache {
     fn binding_for_e(&self, e: Entid) -> Option<Binding> {
         self.get(e).map(|v| v.clone().into())
@@ -279,25 +222,14 @@ impl ClearCache for SingleValAttributeCache {
 }
 
 impl RemoveFromCache for SingleValAttributeCache {
-    // We never directly remove from the cache unless we're InProgress. In that case, we
-    // want to leave a sentinel in place.
     fn remove(&mut self, e: Entid, v: &TypedValue) {
-        match self.e_v.entry(e) {
-            Occupied(mut entry) => {
-                let removed = entry.insert(None);
-                match removed {
-                    None => {}                  // Already removed.
-                    Some(ref r) if r == v => {} // We removed it!
-                    r => {
-                        eprintln!(
-                            "Cache inconsistency: should be ({}, {:?}), was ({}, {:?}).",
-                            e, v, e, r
-                        );
-                    }
-                }
-            }
-            Vacant(entry) => {
-                entry.insert(None);
+        match self.e_v.remove(&e) {
+            Some(Some(ref r)) if r == v => {} // We removed it!
+            r => {
+                eprintln!(
+                    "Cache inconsistency: should be ({}, {:?}), was ({}, {:?}).",
+                    e, v, e, r
+                );
             }
         }
     }
@@ -319,20 +251,6 @@ struct MultiValAttributeCache {
     e_vs: CacheMap<Entid, Vec<TypedValue>>,
 }
 
-impl Absorb for MultiValAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        for (e, vs) in other.e_vs.into_iter() {
-            if vs.is_empty() {
-                self.e_vs.remove(&e);
-            } else {
-                // We always override with a whole vector, so let's just overwrite.
-                self.e_vs.insert(e, vs);
-            }
-        }
-    }
-}
-
 impl AttributeCache for MultiValAttributeCache {
     fn binding_for_e(&self, e: Entid) -> Option<Binding> {
         self.e_vs.get(&e).map(|vs| {
@@ -391,13 +309,6 @@ struct UniqueReverseAttributeCache {
     v_e: CacheMap<TypedValue, Option<Entid>>,
 }
 
-impl Absorb for UniqueReverseAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        self.v_e.absorb(other.v_e);
-    }
-}
-
 impl ClearCache for UniqueReverseAttributeCache {
     fn clear(&mut self) {
         self.v_e.clear();
@@ -406,24 +317,13 @@ impl ClearCache for UniqueReverseAttributeCache {
 
 impl RemoveFromCache for UniqueReverseAttributeCache {
     fn remove(&mut self, e: Entid, v: &TypedValue) {
-        match self.v_e.entry(v.clone()) {
-            // Future: better entry API!
-            Occupied(mut entry) => {
-                let removed = entry.insert(None);
-                match removed {
-                    None => {}              // Already removed.
-                    Some(r) if r == e => {} // We removed it!
-                    r => {
-                        eprintln!(
-                            "Cache inconsistency: should be ({}, {:?}), was ({}, {:?}).",
-                            e, v, e, r
-                        );
-                    }
-                }
-            }
-            Vacant(entry) => {
-                // It didn't already exist.
-                entry.insert(None);
+        match self.v_e.remove(v) {
+            Some(Some(r)) if r == e => {} // We removed it!
+            r => {
+                eprintln!(
+                    "Cache inconsistency: should be ({}, {:?}), was ({}, {:?}).",
+                    e, v, e, r
+                );
             }
         }
     }
@@ -437,10 +337,6 @@ impl UniqueReverseAttributeCache {
     fn get_e(&self, v: &TypedValue) -> Option<Entid> {
         self.v_e.get(v).and_then(|o| *o)
     }
-
-    fn lookup(&self, v: &TypedValue) -> Option<Option<Entid>> {
-        self.v_e.get(v).cloned()
-    }
 }
 
 #[derive(Clone, Debug, Default)]
@@ -449,20 +345,6 @@ struct NonUniqueReverseAttributeCache {
     v_es: CacheMap<TypedValue, BTreeSet<Entid>>,
 }
 
-impl Absorb for NonUniqueReverseAttributeCache {
-    fn absorb(&mut self, other: Self) {
-        assert_eq!(self.attr, other.attr);
-        for (v, es) in other.v_es.into_iter() {
-            if es.is_empty() {
-                self.v_es.remove(&v);
-            } else {
-                // We always override with a whole vector, so let's just overwrite.
-                self.v_es.insert(v, es);
-            }
-        }
-    }
-}
-
 impl ClearCache for NonUniqueReverseAttributeCache {
     fn clear(&mut self) {
         self.v_es.clear();
@@ -995,43 +877,43 @@ impl AttributeCaches {
         let a = attribute.into();
         self.reverse_cached_attributes.remove(&a);
         self.forward_cached_attributes.remove(&a);
+        self.clear_attribute(a);
+    }
+
+    fn clear_attribute(&mut self, a: Entid) {
         self.single_vals.remove(&a);
         self.multi_vals.remove(&a);
         self.unique_reverse.remove(&a);
         self.non_unique_reverse.remove(&a);
     }
-}
 
-// We need this block for fall-back.
-impl AttributeCaches {
-    fn get_entid_for_value_if_present(
-        &self,
-        attribute: Entid,
-        value: &TypedValue,
-    ) -> Option<Option<Entid>> {
-        if self.is_attribute_cached_reverse(attribute) {
-            self.unique_reverse
-                .get(&attribute)
-                .and_then(|c| c.lookup(value))
-        } else {
-            None
+    /// Start over for an attribute, with entries that match the schema.
+    fn reset_attribute(&mut self, schema: &Schema, a: Entid) {
+        self.clear_attribute(a);
+        if let Some(attribute) = schema.attribute_for_entid(a) {
+            if self.forward_cached_attributes.contains(&a) {
+                if attribute.multival {
+                    self.fmc(a, None);
+                } else {
+                    self.fsc(a, None);
+                }
+            }
+            if self.reverse_cached_attributes.contains(&a) {
+                if attribute.unique.is_some() {
+                    self.ruc(a, None);
+                } else {
+                    self.rnuc(a, None);
+                }
+            }
         }
     }
 
-    fn get_value_for_entid_if_present(
-        &self,
-        schema: &Schema,
-        attribute: Entid,
-        entid: Entid,
-    ) -> Option<Option<&TypedValue>> {
-        if let Some(&Some(ref tv)) = self
-            .value_pairs(schema, attribute)
-            .and_then(|c| c.get(&entid))
-        {
-            Some(Some(tv))
-        } else {
-            None
-        }
+    /// Whether there's any entry, even an empty one, for an attribute.
+    fn has_entries_for_attribute(&self, a: Entid) -> bool {
+        self.single_vals.contains_key(&a)
+            || self.multi_vals.contains_key(&a)
+            || self.unique_reverse.contains_key(&a)
+            || self.non_unique_reverse.contains_key(&a)
     }
 }
 
@@ -1043,6 +925,9 @@ impl AttributeCaches {
         sqlite: &rusqlite::Connection,
         attribute: Entid,
     ) -> Result<()> {
+        // There might be no values at all.
+        self.reset_attribute(schema, attribute);
+
         let is_fulltext = schema
             .attribute_for_entid(attribute)
             .map_or(false, |s| s.fulltext);
@@ -1422,21 +1307,29 @@ impl AttributeCaches {
     }
 }
 
-impl Absorb for AttributeCaches {
-    // Replace or insert attribute-cache pairs from `other` into `self`.
-    // Fold in any in-place deletions.
+impl AttributeCaches {
+    // Replace or insert attribute-cache pairs from `other` into `self`. Each entry of `other` is
+    // complete: it's either populated from the store or copied from the cache it overlays.
     fn absorb(&mut self, other: Self) {
+        let replaced: BTreeSet<Entid> = (other.single_vals.keys())
+            .chain(other.multi_vals.keys())
+            .chain(other.unique_reverse.keys())
+            .chain(other.non_unique_reverse.keys())
+            .cloned()
+            .collect();
+        for a in replaced {
+            self.clear_attribute(a);
+        }
+
         self.forward_cached_attributes
             .extend(other.forward_cached_attributes);
         self.reverse_cached_attributes
             .extend(other.reverse_cached_attributes);
 
-        self.single_vals.extend_by_absorbing(other.single_vals);
-        self.multi_vals.extend_by_absorbing(other.multi_vals);
-        self.unique_reverse
-            .extend_by_absorbing(other.unique_reverse);
-        self.non_unique_reverse
-            .extend_by_absorbing(other.non_unique_reverse);
+        self.single_vals.extend(other.single_vals);
+        self.multi_vals.extend(other.multi_vals);
+        self.unique_reverse.extend(other.unique_reverse);
+        self.non_unique_reverse.extend(other.non_unique_reverse);
     }
 }
 
@@ -1457,6 +1350,20 @@ impl SQLiteAttributeCache {
         new
     }
 
+    /// Populate the cache for an attribute. If that fails we're better off without it.
+    fn repopulate(
+        &mut self,
+        schema: &Schema,
+        sqlite: &rusqlite::Connection,
+        attribute: Entid,
+    ) -> Result<()> {
+        let result = self.make_mut().repopulate(schema, sqlite, attribute);
+        if result.is_err() {
+            self.unregister(attribute);
+        }
+        result
+    }
+
     pub fn register_forward<U>(
         &mut self,
         schema: &Schema,
@@ -1474,7 +1381,7 @@ impl SQLiteAttributeCache {
             .ok_or_else(|| DbErrorKind::UnknownAttribute(a))?;
         let caches = self.make_mut();
         caches.forward_cached_attributes.insert(a);
-        caches.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn register_reverse<U>(
@@ -1495,7 +1402,7 @@ impl SQLiteAttributeCache {
 
         let caches = self.make_mut();
         caches.reverse_cached_attributes.insert(a);
-        caches.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn register<U>(
@@ -1514,7 +1421,7 @@ impl SQLiteAttributeCache {
         let caches = self.make_mut();
         caches.forward_cached_attributes.insert(a);
         caches.reverse_cached_attributes.insert(a);
-        caches.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn unregister<U>(&mut self, attribute: U)
@@ -1630,6 +1537,58 @@ impl InProgressSQLiteAttributeCache {
         }
     }
 
+    /// The cache to consult for an attribute: as soon as there's an entry for the attribute in
+    /// `overlay` it's complete, and supersedes that in `inner`.
+    fn current(&self, attribute: Entid) -> &AttributeCaches {
+        if self.overlay.has_entries_for_attribute(attribute) {
+            &self.overlay
+        } else {
+            &self.inner
+        }
+    }
+
+    /// Populate the overlay for an attribute. If that fails we're better off without a cache.
+    fn repopulate(
+        &mut self,
+        schema: &Schema,
+        sqlite: &rusqlite::Connection,
+        attribute: Entid,
+    ) -> Result<()> {
+        let result = self.overlay.repopulate(schema, sqlite, attribute);
+        if result.is_err() {
+            self.unregister(attribute);
+        }
+        result
+    }
+
+    /// Adapt to a schema change: what we cache for an attribute, and how, depends on its
+    /// definition.
+    pub fn schema_did_change(
+        &mut self,
+        before: &Schema,
+        after: &Schema,
+        sqlite: &rusqlite::Connection,
+    ) -> Result<()> {
+        let cached: BTreeSet<Entid> = (self.inner.forward_cached_attributes.iter())
+            .chain(self.inner.reverse_cached_attributes.iter())
+            .chain(self.overlay.forward_cached_attributes.iter())
+            .chain(self.overlay.reverse_cached_attributes.iter())
+            .cloned()
+            .filter(|&a| self.is_attribute_cached_forward(a) || self.is_attribute_cached_reverse(a))
+            .collect();
+        for a in cached {
+            match after.attribute_for_entid(a) {
+                None => self.unregister(a),
+                attribute => {
+                    if attribute != before.attribute_for_entid(a) {
+                        self.repopulate(after, sqlite, a)?;
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn register_forward<U>(
         &mut self,
         schema: &Schema,
@@ -1652,7 +1611,7 @@ impl InProgressSQLiteAttributeCache {
 
         self.unregistered_forward.remove(&a);
         self.overlay.forward_cached_attributes.insert(a);
-        self.overlay.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn register_reverse<U>(
@@ -1677,7 +1636,7 @@ impl InProgressSQLiteAttributeCache {
 
         self.unregistered_reverse.remove(&a);
         self.overlay.reverse_cached_attributes.insert(a);
-        self.overlay.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn register<U>(
@@ -1713,7 +1672,7 @@ impl InProgressSQLiteAttributeCache {
             self.overlay.forward_cached_attributes.insert(a);
         }
 
-        self.overlay.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn unregister<U>(&mut self, attribute: U)
@@ -1755,12 +1714,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the values were deleted, there will be an empty
-            // array in `overlay` -- `Some(vec![])` -- and we won't fall through.
-            // We can safely use `or_else`.
-            self.overlay
+            self.current(attribute)
                 .get_values_for_entid(schema, attribute, entid)
-                .or_else(|| self.inner.get_values_for_entid(schema, attribute, entid))
         }
     }
 
@@ -1773,16 +1728,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_forward.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
-            match self
-                .overlay
-                .get_value_for_entid_if_present(schema, attribute, entid)
-            {
-                Some(present) => present,
-                None => self.inner.get_value_for_entid(schema, attribute, entid),
-            }
+            self.current(attribute)
+                .get_value_for_entid(schema, attribute, entid)
         }
     }
 
@@ -1833,9 +1780,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            self.overlay
+            self.current(attribute)
                 .get_entids_for_value(attribute, value)
-                .or_else(|| self.inner.get_entids_for_value(attribute, value))
         }
     }
 
@@ -1843,16 +1789,8 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         if self.unregistered_reverse.contains(&attribute) {
             None
         } else {
-            // If it was present in `inner` but the value was deleted, there will be `Some(None)`
-            // in `overlay`, and we won't fall through.
-            // We can safely use `or_else`.
-            match self
-                .overlay
-                .get_entid_for_value_if_present(attribute, value)
-            {
-                Some(present) => present,
-                None => self.inner.get_entid_for_value(attribute, value),
-            }
+            self.current(attribute)
+                .get_entid_for_value(attribute, value)
         }
     }
 }
@@ -1868,9 +1806,7 @@ impl InProgressSQLiteAttributeCache {
         U: Into<Entid>,
     {
         let a = attribute.into();
-        self.overlay
-            .values_pairs(schema, a)
-            .or_else(|| self.inner.values_pairs(schema, a))
+        self.current(a).values_pairs(schema, a)
     }
 
     /// Intended for use from tests.
@@ -1883,9 +1819,7 @@ impl InProgressSQLiteAttributeCache {
         U: Into<Entid>,
     {
         let a = attribute.into();
-        self.overlay
-            .value_pairs(schema, a)
-            .or_else(|| self.inner.value_pairs(schema, a))
+        self.current(a).value_pairs(schema, a)
     }
 
     pub fn commit_to(self, destination: &mut SQLiteAttributeCache) {
@@ -1895,30 +1829,21 @@ impl InProgressSQLiteAttributeCache {
             return;
         }
 
-        // If we have exclusive write access to the destination cache, update it in place.
-        // Because the `Conn` also contains an `Arc`, this will ordinarily never be the case.
-        // In order to hit this code block, we need to eliminate our reference… do so by dropping
-        // our copy of the `Arc`.
+        // If we have exclusive write access to the destination cache, update it in place; if
+        // somebody is looking at it, update a copy.
+        // Because we contain an `Arc`, we need to eliminate our reference first.
         ::std::mem::drop(self.inner);
-        if let Some(dest) = Arc::get_mut(&mut destination.inner) {
-            // Yeah, we unregister in both directions. The only way
-            // `unregistered_forward` won't be the same as `unregistered_reverse` is if
-            // our `overlay` added one direction back in.
-            for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
-                dest.unregister_attribute(*unregistered);
-            }
+        let dest = destination.make_mut();
 
-            // Now replace each attribute's entry with `overlay`.
-            dest.absorb(self.overlay);
-            return;
+        // Yeah, we unregister in both directions. The only way
+        // `unregistered_forward` won't be the same as `unregistered_reverse` is if
+        // our `overlay` added one direction back in.
+        for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
+            dest.unregister_attribute(*unregistered);
         }
 
-        // If we don't, populate `self.overlay` with whatever we didn't overwrite,
-        // and then shim it into `destination.`
-        // We haven't implemented this because it does not currently occur.
-        // TODO: do this! Then do this:
-        // destination.inner = Arc::new(self.overlay);
-        unimplemented!();
+        // Now replace each attribute's entry with `overlay`.
+        dest.absorb(self.overlay);
     }
 }
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 5d12864..45ae6ad 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -215,6 +215,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
         )?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
+            self.cache
+                .schema_did_change(&self.schema, &schema, &self.transaction)?;
             self.schema = schema;
         }
         Ok(report)
@@ -256,6 +258,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
         )?;
         self.partition_map = next_partition_map;
         if let Some(schema) = next_schema {
+            self.cache
+                .schema_did_change(&self.schema, &schema, &self.transaction)?;
             self.schema = schema;
         }
         Ok(report)
-- 
2.43.0


From 8b5710a1968d484adabe8be83ae86b5de9ce3d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 18/68] fix: a storage error while stepping a query is
 reported, not a panic

---
 query-projector/src/projectors/pull_two_stage.rs | 8 ++++----
 query-projector/src/projectors/simple.rs         | 8 ++++----
 transaction/src/query.rs                         | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/query-projector/src/projectors/pull_two_stage.rs b/query-projector/src/projectors/pull_two_stage.rs
index f286232..4f5bf07 100644
--- a/query-projector/src/projectors/pull_two_stage.rs
+++ b/query-projector/src/projectors/pull_two_stage.rs
@@ -69,7 +69,7 @@ impl Projector for ScalarTwoStagePullProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         // Scalar is pretty straightforward -- zero or one entity, do the pull directly.
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let entity: Entid = row.get(0).unwrap(); // This will always be 0 and a ref.
             let bindings = self.puller.pull(schema, sqlite, once(entity))?;
@@ -153,7 +153,7 @@ impl Projector for TupleTwoStagePullProjector {
         sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
 
             // Keeping the compiler happy.
@@ -280,7 +280,7 @@ impl Projector for RelTwoStagePullProjector {
         let mut pull_consumers = pull_consumers?;
 
         // Collect the usual bindings and accumulate entity IDs for pull.
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             for p in pull_consumers.iter_mut() {
                 p.collect_entity(&row);
@@ -347,7 +347,7 @@ impl Projector for CollTwoStagePullProjector {
     ) -> Result<QueryOutput> {
         let mut pull_consumer = PullConsumer::for_operation(schema, &self.pull)?;
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             pull_consumer.collect_entity(&row);
         }
diff --git a/query-projector/src/projectors/simple.rs b/query-projector/src/projectors/simple.rs
index 213d75a..7e43cc7 100644
--- a/query-projector/src/projectors/simple.rs
+++ b/query-projector/src/projectors/simple.rs
@@ -50,7 +50,7 @@ impl Projector for ScalarProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             QueryResults::Scalar(Some(binding))
@@ -122,7 +122,7 @@ impl Projector for TupleProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let bindings = self.collect_bindings(row)?;
             QueryResults::Tuple(Some(bindings))
@@ -207,7 +207,7 @@ impl Projector for RelProjector {
         let width = self.len;
         let mut values: Vec<_> = Vec::with_capacity(5 * width);
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             self.collect_bindings_into(row, &mut values)?;
         }
@@ -263,7 +263,7 @@ impl Projector for CollProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         let mut out: Vec<_> = vec![];
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             out.push(binding);
diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index 4bfb4ed..c7c5a7f 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -320,7 +320,7 @@ where
     let mut statement = sqlite.prepare(sql)?;
     let mut rows = run_statement(&mut statement, &bindings)?;
     let mut result = vec![];
-    while let Some(row_or_error) = rows.next().unwrap() {
+    while let Some(row_or_error) = rows.next()? {
         result.push(mapper(&row_or_error));
     }
     Ok(result)
-- 
2.43.0


From 4cbd7cd8ba8c9e2abcc36c14adc42c66f5e7af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 19/68] fix: a storage error while populating the cache is
 reported, not a panic

---
 db/src/cache.rs | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 1ebe449..4013e45 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -144,30 +144,12 @@ impl AevFactory {
         }
     }
 
-    fn row_to_aev(&mut self, row: &rusqlite::Row) -> Aev {
-        let a: Entid = row.get_unwrap(0);
-        let e: Entid = row.get_unwrap(1);
-        let value_type_tag: i32 = row.get_unwrap(3);
-        let v = TypedValue::from_sql_value_pair(row.get_unwrap(2), value_type_tag).unwrap();
-        (a, e, self.intern(v))
-    }
-}
-
-pub struct AevRows<'conn, F> {
-    rows: rusqlite::MappedRows<'conn, F>,
-}
-
-/// Unwrap the Result from MappedRows. We could also use this opportunity to map_err it, but
-/// for now it's convenient to avoid error handling.
-impl<'conn, F> Iterator for AevRows<'conn, F>
-where
-    F: FnMut(&rusqlite::Row) -> rusqlite::Result<Aev>,
-{
-    type Item = Aev;
-    fn next(&mut self) -> Option<Aev> {
-        self.rows
-            .next()
-            .map(|row_result| row_result.expect("All database contents should be representable"))
+    fn row_to_aev(&mut self, row: &rusqlite::Row) -> Result<Aev> {
+        let a: Entid = row.get(0)?;
+        let e: Entid = row.get(1)?;
+        let value_type_tag: i32 = row.get(3)?;
+        let v = TypedValue::from_sql_value_pair(row.get(2)?, value_type_tag)?;
+        Ok((a, e, self.intern(v)))
     }
 }
 
@@ -956,12 +938,13 @@ impl AttributeCaches {
         replacing: bool,
     ) -> Result<()> {
         let mut aev_factory = AevFactory::new();
-        let rows = statement.query_map(&args, |row| Ok(aev_factory.row_to_aev(row)))?;
-        let aevs = AevRows { rows };
+        let aevs: Vec<Aev> = statement
+            .query_and_then(&args, |row| aev_factory.row_to_aev(row))?
+            .collect::<Result<Vec<Aev>>>()?;
         self.accumulate_into_cache(
             None,
             schema,
-            aevs.peekable(),
+            aevs.into_iter().peekable(),
             AccumulationBehavior::Add { replacing },
         )?;
         Ok(())
-- 
2.43.0


From cd2804d21dccb87a16c3834626c77d3302d36c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 20/68] fix: a transaction that SQLite has rolled back takes no
 more writes and cannot commit

---
 transaction/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 45ae6ad..1fe6158 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -161,12 +161,25 @@ impl<'a, 'c> InProgress<'a, 'c> {
             .and_then(|(terms, _tempid_set)| self.transact_entities(terms))
     }
 
+    /// Some errors make SQLite roll back the whole transaction.  Nothing more can be done in it then:
+    /// without this check, further writes would be committed one by one.
+    fn ensure_still_open(&self) -> Result<()> {
+        if self.transaction.is_autocommit() {
+            bail!(MentatError::RusqliteError(
+                "the transaction was rolled back by an earlier error".to_string(),
+                "".to_string()
+            ));
+        }
+        Ok(())
+    }
+
     /// Run `f`, which transacts.  If it fails, everything it did is undone, so that this `InProgress`
     /// can be used -- and committed -- as if it hadn't been attempted.
     fn all_or_nothing<F>(&mut self, f: F) -> Result<TxReport>
     where
         F: FnOnce(&mut Self) -> Result<TxReport>,
     {
+        self.ensure_still_open()?;
         let cache = self.cache.clone();
         let tx_observer_watcher = self.tx_observer_watcher.clone();
 
@@ -288,6 +301,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
     }
 
     pub fn commit(self) -> Result<()> {
+        self.ensure_still_open()?;
+
         // The mutex is taken during this entire method.
         let mut metadata = self.mutex.lock().unwrap();
 
-- 
2.43.0


From 7b1e17559fe1e99a8aa2baf476596ecb21f9d323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 21/68] fix: queries compare the type tags of values, not only
 their SQL representation

Values of different types share a representation in the datoms table: the
algebrizer joined value columns without comparing their type tags
(expand_type_tags was an unimplemented TODO), so that a ref, a long and a
boolean could unify; variables of or-joins whose arms have different types
were projected with the type of one arm; tags of simple ors and unions were
lost; an or with no possible arm matched everything; a not whose clauses
always hold excluded nothing; and a known-empty query was rejected for the
variables that its remaining clauses would have bound.
---
 query-algebrizer/src/clauses/mod.rs     | 198 +++++++++++++++++++++---
 query-algebrizer/src/clauses/not.rs     |  11 +-
 query-algebrizer/src/clauses/or.rs      | 115 +++++++-------
 query-algebrizer/src/clauses/pattern.rs |  13 +-
 query-algebrizer/src/lib.rs             |   3 +-
 query-algebrizer/src/types.rs           |   2 +
 6 files changed, 256 insertions(+), 86 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 09bfe66..e575ca0 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -18,7 +18,7 @@ use std::fmt::{Debug, Formatter};
 
 use core_traits::{Attribute, Entid, KnownEntid, TypedValue, ValueType, ValueTypeSet};
 
-use mentat_core::{Cloned, HasSchema, Schema};
+use mentat_core::{Cloned, HasSchema, SQLValueType, Schema};
 
 use mentat_core::counter::RcCounter;
 
@@ -27,9 +27,10 @@ use edn::query::{Element, FindSpec, Keyword, PatternNonValuePlace, Pull, Variabl
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
 use crate::types::{
-    Column, ColumnConstraint, ColumnIntersection, ComputedTable, DatomsColumn, DatomsTable,
-    EmptyBecause, EvolvedNonValuePlace, EvolvedPattern, EvolvedValuePlace, FulltextColumn,
-    PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias, TableAlias,
+    Column, ColumnAlternation, ColumnConstraint, ColumnConstraintOrAlternation, ColumnIntersection,
+    ComputedTable, DatomsColumn, DatomsTable, EmptyBecause, EvolvedNonValuePlace, EvolvedPattern,
+    EvolvedValuePlace, FulltextColumn, PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias,
+    TableAlias, VariableColumn,
 };
 
 mod convert; // Converting args to values.
@@ -176,6 +177,15 @@ pub struct ConjoiningClauses {
 
     /// Map of variables to the set of type requirements we have for them.
     required_types: BTreeMap<Variable, ValueTypeSet>,
+
+    /// The types that the value column of a table is already limited to: because the pattern's
+    /// attribute is known, or because `wheres` constrains the type tag. The values in other tables
+    /// can be of any type, whatever `known_types` says, until `expand_type_tags` constrains them.
+    table_types: BTreeMap<TableAlias, ValueTypeSet>,
+
+    /// The variables that subqueries project together with their type tags, and the types that
+    /// the subquery might produce.
+    projected_tags: BTreeMap<(TableAlias, Variable), ValueTypeSet>,
 }
 
 impl PartialEq for ConjoiningClauses {
@@ -227,6 +237,8 @@ impl Default for ConjoiningClauses {
             value_bindings: BTreeMap::new(),
             known_types: BTreeMap::new(),
             extracted_types: BTreeMap::new(),
+            table_types: BTreeMap::new(),
+            projected_tags: BTreeMap::new(),
         }
     }
 }
@@ -319,6 +331,8 @@ impl ConjoiningClauses {
             known_types: self.known_types.clone(),
             extracted_types: self.extracted_types.clone(),
             required_types: self.required_types.clone(),
+            table_types: self.table_types.clone(),
+            projected_tags: self.projected_tags.clone(),
             ..Default::default()
         }
     }
@@ -334,6 +348,8 @@ impl ConjoiningClauses {
             known_types: self.known_types.with_intersected_keys(&vars),
             extracted_types: self.extracted_types.with_intersected_keys(&vars),
             required_types: self.required_types.with_intersected_keys(&vars),
+            table_types: self.table_types.clone(),
+            projected_tags: self.projected_tags.clone(),
             ..Default::default()
         }
     }
@@ -359,8 +375,18 @@ impl ConjoiningClauses {
         // Are we also trying to figure out the type of the value when the query runs?
         // If so, constrain that!
         if let Some(qa) = self.extracted_types.get(&var) {
-            self.wheres
-                .add_intersection(ColumnConstraint::has_unit_type(qa.0.clone(), vt));
+            if let Column::Variable(_) = qa.1 {
+                // The tag is projected from a subquery.
+                self.wheres.add_intersection(ColumnConstraint::Equals(
+                    qa.clone(),
+                    QueryValue::TypedValue(TypedValue::Long(vt.value_type_tag().into())),
+                ));
+            } else {
+                self.wheres
+                    .add_intersection(ColumnConstraint::has_unit_type(qa.0.clone(), vt));
+                self.table_types
+                    .insert(qa.0.clone(), ValueTypeSet::of_one(vt));
+            }
         }
 
         // Finally, store the binding for future use.
@@ -452,7 +478,13 @@ impl ConjoiningClauses {
 
                 // TODO: recognize when the valueType might be a ref and also translate entids there.
                 Column::Fixed(DatomsColumn::Value) => {
-                    self.constrain_column_to_constant(table, column, bound_val);
+                    let value_type = bound_val.value_type();
+                    self.constrain_column_to_constant(table.clone(), column, bound_val);
+                    // Values of different types can share a representation.
+                    if !self.table_types.contains_key(&table) {
+                        self.wheres
+                            .add_intersection(ColumnConstraint::has_unit_type(table, value_type));
+                    }
                 }
 
                 // These columns can only be entities, so attempt to translate keywords. If we can't
@@ -548,7 +580,24 @@ impl ConjoiningClauses {
         self.constrain_column_to_entity(table, DatomsColumn::Attribute, attribute)
     }
 
-    pub(crate) fn constrain_value_to_numeric(&mut self, table: TableAlias, value: i64) {
+    pub(crate) fn constrain_value_to_numeric(
+        &mut self,
+        schema: &Schema,
+        table: TableAlias,
+        value: i64,
+    ) {
+        if !self.table_types.contains_key(&table)
+            && schema.attribute_map.values().any(|a| a.fulltext)
+        {
+            // Fulltext strings are represented by numbers, too.
+            let types = ValueTypeSet::of_numeric_and_instant_types()
+                .union(ValueTypeSet::of_one(ValueType::Ref));
+            self.wheres.add_intersection(ColumnConstraint::HasTypes {
+                value: table.clone(),
+                value_types: types,
+                check_value: false,
+            });
+        }
         self.wheres.add_intersection(ColumnConstraint::Equals(
             QualifiedAlias(table, Column::Fixed(DatomsColumn::Value)),
             QueryValue::PrimitiveLong(value),
@@ -978,9 +1027,8 @@ impl ConjoiningClauses {
                 let primary = &cols[0];
                 let secondaries = cols.iter().skip(1);
                 for secondary in secondaries {
-                    // TODO: if both primary and secondary are .v, should we make sure
-                    // the type tag columns also match?
-                    // We don't do so in the ClojureScript version.
+                    // Where both primary and secondary are .v, `expand_type_tags` makes sure that
+                    // the type tag columns also match.
                     self.wheres.add_intersection(ColumnConstraint::Equals(
                         primary.clone(),
                         QueryValue::Column(secondary.clone()),
@@ -1066,6 +1114,11 @@ impl ConjoiningClauses {
                 .extracted_types
                 .get(&var)
                 .ok_or_else(|| AlgebrizerError::UnboundVariable(var.name()))?;
+            if let Column::Variable(_) = qa.1 {
+                // This tag is projected from a subquery: `expand_type_tags` takes care of it.
+                continue;
+            }
+            self.table_types.insert(qa.0.clone(), types);
             self.wheres.add_intersection(ColumnConstraint::HasTypes {
                 value: qa.0.clone(),
                 value_types: types,
@@ -1087,20 +1140,118 @@ impl ConjoiningClauses {
     ///   ValueType::Boolean shares a representation with Integer and Ref.
     /// - There is no attribute constraint present in the CC.
     ///
-    /// It's possible at this point for the space of acceptable type tags to not intersect: e.g.,
-    /// for the query
+    /// For example, in
     ///
     /// ```edn
-    /// [:find ?x :where
-    ///  [?x ?y true]
-    ///  [?z ?y ?x]]
+    /// [:find ?x ?z :where
+    ///  [?x ?a ?y]
+    ///  [?z :foo/boolean ?y]]
     /// ```
     ///
-    /// where `?y` must simultaneously be a ref-typed attribute and a boolean-typed attribute. This
-    /// function deduces that and calls `self.mark_known_empty`. #293.
-    #[allow(dead_code)]
-    pub(crate) fn expand_type_tags(&mut self) {
-        // TODO.
+    /// the values that the first pattern finds are constrained to be booleans, and in
+    ///
+    /// ```edn
+    /// [:find ?x ?z :where
+    ///  [?x ?a ?y]
+    ///  [?z ?b ?y]]
+    /// ```
+    ///
+    /// those that the two patterns find are constrained to be of the same type. #293.
+    pub(crate) fn expand_type_tags(&mut self, schema: &Schema) {
+        if self.is_known_empty() {
+            return;
+        }
+
+        let mut constraints = ColumnIntersection::default();
+        let types: BTreeSet<ValueType> = schema
+            .attribute_map
+            .values()
+            .map(|attribute| attribute.value_type)
+            .collect();
+        for (var, cols) in self.column_bindings.iter() {
+            if self.input_variables.contains(var) && !self.is_value_bound(var) {
+                // It'll be bound to a single value later.
+                continue;
+            }
+            let known = self.known_type_set(var);
+
+            // The tag columns of those places in which the value could be of several types.
+            let mut tags: Vec<QualifiedAlias> = vec![];
+            for col in cols.iter() {
+                if let Some(tag) = col.for_associated_type_tag() {
+                    // If there can't be values of other types, there's no need to exclude them,
+                    // and a schema that has no refs -- only that of a test -- has no use for them.
+                    let loose = match self.table_types.get(&col.0) {
+                        Some(types) => !types.is_subset(known),
+                        None => {
+                            types.iter().any(|t| !known.contains(*t))
+                                && (known.exemplar() != Some(ValueType::Ref)
+                                    || types.contains(&ValueType::Ref))
+                        }
+                    };
+                    if loose {
+                        constraints.add_intersection(ColumnConstraint::HasTypes {
+                            value: col.0.clone(),
+                            value_types: known,
+                            check_value: true,
+                        });
+                    }
+                    tags.push(tag);
+                } else if let Some((tag, types)) = self.projected_type_tag(col, var) {
+                    if !types.is_subset(known) {
+                        let possible: BTreeSet<i64> = types
+                            .intersection(known)
+                            .iter()
+                            .map(|t| t.value_type_tag().into())
+                            .collect();
+                        constraints.add(ColumnConstraintOrAlternation::Alternation(
+                            ColumnAlternation(
+                                possible
+                                    .into_iter()
+                                    .map(|t| {
+                                        let mut one = ColumnIntersection::default();
+                                        one.add_intersection(ColumnConstraint::Equals(
+                                            tag.clone(),
+                                            QueryValue::TypedValue(TypedValue::Long(t)),
+                                        ));
+                                        one
+                                    })
+                                    .collect(),
+                            ),
+                        ));
+                    }
+                    tags.push(tag);
+                }
+            }
+
+            if !known.is_unit() && tags.len() > 1 {
+                let primary = &tags[0];
+                for secondary in tags.iter().skip(1) {
+                    constraints.add_intersection(ColumnConstraint::Equals(
+                        primary.clone(),
+                        QueryValue::Column(secondary.clone()),
+                    ));
+                }
+            }
+        }
+        self.wheres.append(&mut constraints);
+    }
+
+    /// If the column is a variable that a subquery projects together with its type tag, return the
+    /// latter, and the types that the subquery might produce.
+    fn projected_type_tag(
+        &self,
+        column: &QualifiedAlias,
+        var: &Variable,
+    ) -> Option<(QualifiedAlias, ValueTypeSet)> {
+        let types = self
+            .projected_tags
+            .get(&(column.0.clone(), var.clone()))?;
+        let tag = QualifiedAlias::new(
+            column.0.clone(),
+            VariableColumn::VariableTypeTag(var.clone()),
+        );
+        Some((tag, *types))
     }
 }
 
@@ -1187,6 +1338,11 @@ impl ConjoiningClauses {
     // This is here, rather than in `lib.rs`, because it's recursive: `or` can contain `or`,
     // and so on.
     pub(crate) fn apply_clause(&mut self, known: Known, where_clause: WhereClause) -> Result<()> {
+        if self.is_known_empty() {
+            // Nothing can change that, and the variables that this clause uses might never have
+            // been bound.
+            return Ok(());
+        }
         match where_clause {
             WhereClause::Pattern(p) => {
                 match self.make_evolved_pattern(known, p) {
diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 8b08f19..20a6fef 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -14,7 +14,7 @@ use crate::clauses::ConjoiningClauses;
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
-use crate::types::{ColumnConstraint, ComputedTable};
+use crate::types::{ColumnConstraint, ComputedTable, EmptyBecause};
 
 use crate::Known;
 
@@ -60,9 +60,12 @@ impl ConjoiningClauses {
             return Ok(());
         }
 
-        // If we don't impose any constraints on the output, we might as well
-        // not exist.
-        if template.wheres.is_empty() {
+        template.expand_type_tags(known.schema);
+
+        // If nothing constrains the subquery -- say, because the bound values are all there is to
+        // it -- then it always succeeds.
+        if template.wheres.is_empty() && template.from.is_empty() {
+            self.mark_known_empty(EmptyBecause::AlwaysExcluded);
             return Ok(());
         }
 
diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 1376fa6..a1ff070 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -20,7 +20,7 @@ use edn::query::{
 
 use crate::clauses::{ConjoiningClauses, PushComputed};
 
-use query_algebrizer_traits::errors::Result;
+use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
 use crate::types::{
     ColumnAlternation, ColumnConstraintOrAlternation, ColumnIntersection, ComputedTable,
@@ -354,12 +354,14 @@ impl ConjoiningClauses {
 
         assert!(patterns.len() >= 2);
 
+        let mut empty_because: Option<EmptyBecause> = None;
         let patterns: Vec<EvolvedPattern> = patterns
             .into_iter()
             .filter_map(|pattern| {
                 match self.make_evolved_pattern(known, pattern) {
-                    PlaceOrEmpty::Empty(_e) => {
+                    PlaceOrEmpty::Empty(e) => {
                         // Never mind.
+                        empty_because = Some(e);
                         None
                     }
                     PlaceOrEmpty::Place(p) => Some(p),
@@ -367,6 +369,12 @@ impl ConjoiningClauses {
             })
             .collect();
 
+        if patterns.is_empty() {
+            // What is known of the variables leaves no arm that can match.
+            self.mark_known_empty(empty_because.expect("we dropped every pattern for a reason"));
+            return Ok(());
+        }
+
         // Begin by building a base CC that we'll use to produce constraints from each pattern.
         // Populate this base CC with whatever variables are already known from the CC to which
         // we're applying this `or`.
@@ -433,6 +441,12 @@ impl ConjoiningClauses {
             // we know that we can blindly merge: collisions aren't possible.
             if let Some(first) = receptacles.peek() {
                 for (v, cols) in &first.column_bindings {
+                    // If it turns out that we don't know the type, this is where to find it.
+                    if let Some(tag) = cols.iter().filter_map(|c| c.for_associated_type_tag()).next() {
+                        if !self.input_variables.contains(v) {
+                            self.extracted_types.entry(v.clone()).or_insert(tag);
+                        }
+                    }
                     match self.column_bindings.entry(v.clone()) {
                         Entry::Vacant(e) => {
                             e.insert(cols.clone());
@@ -470,10 +484,18 @@ impl ConjoiningClauses {
             }
 
             let mut alternates: Vec<ColumnIntersection> = vec_for_iterator(&receptacles);
+            let mut types = ValueTypeSet::none();
             for r in receptacles {
+                types = types.union(
+                    r.table_types
+                        .get(&source_alias.1)
+                        .cloned()
+                        .unwrap_or_else(ValueTypeSet::any),
+                );
                 folded.broaden_types(r.known_types);
                 alternates.push(r.wheres);
             }
+            self.table_types.insert(source_alias.1.clone(), types);
 
             if alternates.len() == 1 {
                 // Simplify.
@@ -562,7 +584,9 @@ impl ConjoiningClauses {
             UnifyVars::Explicit(vs) => vs,
         };
 
-        let template = self.use_as_template(&projected);
+        // Each arm is a subquery of its own: it can't see our tables.
+        let mut template = self.use_as_template(&projected);
+        template.extracted_types.clear();
 
         let mut acc = Vec::with_capacity(join_clauses.len());
         let mut empty_because: Option<EmptyBecause> = None;
@@ -577,14 +601,24 @@ impl ConjoiningClauses {
                     receptacle.apply_clause(known, clause)?;
                 }
             }
-            if receptacle.is_known_empty() {
-                empty_because = receptacle.empty_because;
-            } else {
+            if !receptacle.is_known_empty() {
                 receptacle.expand_column_bindings();
                 receptacle.prune_extracted_types();
                 receptacle.process_required_types()?;
-                acc.push(receptacle);
+                receptacle.expand_type_tags(known.schema);
+            }
+            if receptacle.is_known_empty() {
+                empty_because = receptacle.empty_because;
+                continue;
             }
+            // Every arm must produce a value for every variable.
+            for var in projected.iter() {
+                if !receptacle.is_value_bound(var) && !receptacle.column_bindings.contains_key(var)
+                {
+                    bail!(AlgebrizerError::UnboundVariable(var.name()));
+                }
+            }
+            acc.push(receptacle);
         }
 
         if acc.is_empty() {
@@ -641,8 +675,10 @@ impl ConjoiningClauses {
 
         // For any variable which has an imprecise type anywhere in the UNION, add it to the
         // set that needs type extraction. All UNION arms must project the same columns.
+        // That includes a variable that has a different type in each arm.
         for var in projection.iter() {
-            if acc.iter().any(|cc| cc.known_type(var).is_none()) {
+            let first = acc[0].known_type(var);
+            if first.is_none() || acc.iter().any(|cc| cc.known_type(var) != first) {
                 type_needed.insert(var.clone());
             }
         }
@@ -657,18 +693,16 @@ impl ConjoiningClauses {
 
         // Collect the new type information from the arms. There's some redundant work here --
         // they already have all of the information from the parent.
-        // Note that we start with the first clause's type information.
-        {
-            let mut clauses = acc.iter();
-            let mut additional_types = clauses
-                .next()
-                .expect("there to be at least one clause")
-                .known_types
-                .clone();
-            for cc in clauses {
-                union_types(&mut additional_types, &cc.known_types);
+        // Variables that we don't project are local to their arms.
+        let mut projected_types = vec![];
+        for var in projection.iter() {
+            let types = acc.iter().fold(ValueTypeSet::none(), |types, cc| {
+                types.union(cc.known_type_set(var))
+            });
+            self.narrow_types_for_var(var.clone(), types);
+            if type_needed.contains(var) {
+                projected_types.push((var.clone(), types));
             }
-            self.broaden_types(additional_types);
         }
 
         let union = ComputedTable::Union {
@@ -678,6 +712,9 @@ impl ConjoiningClauses {
         };
         let table = self.computed_tables.push_computed(union);
         let alias = self.next_alias_for_table(table);
+        for (var, types) in projected_types {
+            self.projected_tags.insert((alias.clone(), var), types);
+        }
 
         // Stitch the computed table into column_bindings, so we get cross-linking.
         let schema = known.schema;
@@ -700,46 +737,6 @@ impl ConjoiningClauses {
     }
 }
 
-/// Helper to fold together a set of type maps.
-fn union_types(
-    into: &mut BTreeMap<Variable, ValueTypeSet>,
-    additional_types: &BTreeMap<Variable, ValueTypeSet>,
-) {
-    // We want the exclusive disjunction -- any variable not mentioned in both sets -- to default
-    // to ValueTypeSet::Any.
-    // This is necessary because we lazily populate known_types, so sometimes the type set will
-    // be missing a `ValueTypeSet::Any` for a variable, and we want to broaden rather than
-    // accidentally taking the other side's word for it!
-    // The alternative would be to exhaustively pre-fill `known_types` with all mentioned variables
-    // in the whole query, which is daunting.
-    let mut any: BTreeMap<Variable, ValueTypeSet>;
-    // Scoped borrow of `into`.
-    {
-        let i: BTreeSet<&Variable> = into.keys().collect();
-        let a: BTreeSet<&Variable> = additional_types.keys().collect();
-        any = i
-            .symmetric_difference(&a)
-            .map(|v| ((*v).clone(), ValueTypeSet::any()))
-            .collect();
-    }
-
-    // Collect the additional types.
-    for (var, new_types) in additional_types {
-        match into.entry(var.clone()) {
-            Entry::Vacant(e) => {
-                e.insert(*new_types);
-            }
-            Entry::Occupied(mut e) => {
-                let new = e.get().union(*new_types);
-                e.insert(new);
-            }
-        }
-    }
-
-    // Blat in those that are disjoint.
-    into.append(&mut any);
-}
-
 #[cfg(test)]
 mod testing {
     use super::*;
diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index c0f5206..5de9dbb 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -134,6 +134,10 @@ impl ConjoiningClauses {
         // inconsistent with the attribute; in that case this pattern
         // cannot return results, and we short-circuit.
         let value_type = self.get_value_type(schema, pattern);
+        if let Some(this_type) = value_type {
+            self.table_types
+                .insert(col.clone(), ValueTypeSet::of_one(this_type));
+        }
 
         match pattern.value {
             EvolvedValuePlace::Placeholder => (),
@@ -153,6 +157,13 @@ impl ConjoiningClauses {
             EvolvedValuePlace::Entid(i) => match value_type {
                 Some(ValueType::Ref) | None => {
                     self.constrain_column_to_entity(col.clone(), DatomsColumn::Value, i);
+                    if value_type.is_none() {
+                        self.wheres
+                            .add_intersection(ColumnConstraint::has_unit_type(
+                                col.clone(),
+                                ValueType::Ref,
+                            ));
+                    }
                 }
                 Some(value_type) => {
                     self.mark_known_empty(EmptyBecause::ValueTypeMismatch(
@@ -183,7 +194,7 @@ impl ConjoiningClauses {
                     //
                     // TODO: isn't there a bug here? We'll happily take a numeric value
                     // for a non-numeric attribute!
-                    self.constrain_value_to_numeric(col.clone(), i);
+                    self.constrain_value_to_numeric(schema, col.clone(), i);
                 }
             }
             EvolvedValuePlace::IdentOrKeyword(ref kw) => {
diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 36cdbe7..19b02a9 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -183,7 +183,7 @@ impl AlgebraicQuery {
     /// Return true if every variable in the find spec is fully bound to a single value,
     /// and evaluating the query doesn't require running SQL.
     pub fn is_fully_unit_bound(&self) -> bool {
-        self.cc.wheres.is_empty() && self.is_fully_bound()
+        self.cc.wheres.is_empty() && self.cc.from.is_empty() && self.is_fully_bound()
     }
 
     /// Return a set of the input variables mentioned in the `:in` clause that have not yet been
@@ -323,6 +323,7 @@ pub fn algebrize_with_inputs(
     cc.expand_column_bindings();
     cc.prune_extracted_types();
     cc.process_required_types()?;
+    cc.expand_type_tags(known.schema);
 
     let (order, extra_vars) = validate_and_simplify_order(&cc, parsed.order)?;
 
diff --git a/query-algebrizer/src/types.rs b/query-algebrizer/src/types.rs
index bde772a..2dea477 100644
--- a/query-algebrizer/src/types.rs
+++ b/query-algebrizer/src/types.rs
@@ -618,6 +618,7 @@ pub enum EmptyBecause {
     InvalidAttributeEntid(Entid),
     InvalidBinding(Column, TypedValue),
     ValueTypeMismatch(ValueType, TypedValue),
+    AlwaysExcluded, // A `not` whose clauses always hold.
     AttributeLookupFailed, // Catch-all, because the table lookup code is lazy. TODO
 }
 
@@ -677,6 +678,7 @@ impl Debug for EmptyBecause {
                 "Type mismatch: {:?} doesn't match attribute type {:?}",
                 typed_value, value_type
             ),
+            AlwaysExcluded => write!(f, "A `not` excludes everything"),
             AttributeLookupFailed => write!(f, "Attribute lookup failed"),
         }
     }
-- 
2.43.0


From 61949e86cc7ea17680b350f17d3b3e9e1a7181db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 22/68] fix: a collection of pulled maps keeps the order of the
 rows, and has a map for every entity

---
 query-projector/src/projectors/pull_two_stage.rs | 6 ++++--
 query-projector/src/pull.rs                      | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/query-projector/src/projectors/pull_two_stage.rs b/query-projector/src/projectors/pull_two_stage.rs
index 4f5bf07..51e62f6 100644
--- a/query-projector/src/projectors/pull_two_stage.rs
+++ b/query-projector/src/projectors/pull_two_stage.rs
@@ -347,16 +347,18 @@ impl Projector for CollTwoStagePullProjector {
     ) -> Result<QueryOutput> {
         let mut pull_consumer = PullConsumer::for_operation(schema, &self.pull)?;
 
+        // Keep the entities in the order of the rows: there might be an `:order` clause.
+        let mut entities = vec![];
         while let Some(r) = rows.next()? {
             let row = r;
-            pull_consumer.collect_entity(&row);
+            entities.push(pull_consumer.collect_entity(&row));
         }
 
         // Run the pull expressions for the collected IDs.
         pull_consumer.pull(sqlite)?;
 
         // Expand the pull expressions into a results vector.
-        let out = pull_consumer.into_coll_results();
+        let out = pull_consumer.into_coll_results(entities);
 
         Ok(QueryOutput {
             spec: self.spec.clone(),
diff --git a/query-projector/src/pull.rs b/query-projector/src/pull.rs
index 0094ae6..304f9bd 100644
--- a/query-projector/src/pull.rs
+++ b/query-projector/src/pull.rs
@@ -112,8 +112,11 @@ impl<'schema> PullConsumer<'schema> {
         }
     }
 
-    // TODO: do we need to include empty maps for entities that didn't match any pull?
-    pub(crate) fn into_coll_results(self) -> Vec<Binding> {
-        self.results.values().cloned().map(Binding::Map).collect()
+    /// As for other find specs, an entity that didn't match any pull yields an empty map.
+    pub(crate) fn into_coll_results(self, entities: Vec<Entid>) -> Vec<Binding> {
+        entities
+            .into_iter()
+            .map(|id| Binding::Map(self.results.get(&id).cloned().unwrap_or_default()))
+            .collect()
     }
 }
-- 
2.43.0


From bf635bb3d2184d89b9f1ffec7e622a68f0ef7662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 23/68] fix: aggregates over no rows or over constants

The sum of no rows is NULL, which the projector rejected; the average of a
constant was that constant, of the wrong type; the minimum or maximum of a
constant didn't aggregate, yielding one result for each row, or one for no
rows; and so did a constant that is found next to an aggregate.
---
 query-projector-traits/aggregates.rs | 34 +++++++++-------------------
 query-projector/src/project.rs       |  6 +++++
 2 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index e0b5831..55e8cbe 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -150,20 +150,12 @@ impl SimpleAggregate {
         format!("({} {})", self.op.to_sql(), self.var.name())
     }
 
-    pub fn use_static_value(&self) -> bool {
-        use self::SimpleAggregationOp::*;
-        match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
-        }
-    }
-
     /// Return `true` if this aggregate can be `NULL` over 0 rows.
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
         match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
+            Avg | Max | Min | Sum => true,
+            Count => false,
         }
     }
 }
@@ -196,20 +188,16 @@ pub fn projected_column_for_simple_aggregate(
     let return_type = simple.op.is_applicable_to_types(known_types)?;
     let projected_column_or_expression = if let Some(value) = cc.bound_value(&simple.var) {
         // Oh, we already know the value!
-        if simple.use_static_value() {
-            // We can statically compute the aggregate result for some operators -- not count or
-            // sum, but avg/max/min are OK.
-            ColumnOrExpression::Value(value)
+        // We can't statically compute the result: there might be no rows, and the result might not be
+        // of the type of the value.
+        let expression = Expression::Unary {
+            sql_op: simple.op.to_sql(),
+            arg: ColumnOrExpression::Value(value),
+        };
+        if simple.is_nullable() {
+            ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
         } else {
-            let expression = Expression::Unary {
-                sql_op: simple.op.to_sql(),
-                arg: ColumnOrExpression::Value(value),
-            };
-            if simple.is_nullable() {
-                ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
-            } else {
-                ColumnOrExpression::Expression(Box::new(expression), return_type)
-            }
+            ColumnOrExpression::Expression(Box::new(expression), return_type)
         }
     } else {
         // The common case: the values are bound during execution.
diff --git a/query-projector/src/project.rs b/query-projector/src/project.rs
index 4b036a0..f589b6b 100644
--- a/query-projector/src/project.rs
+++ b/query-projector/src/project.rs
@@ -441,6 +441,12 @@ pub(crate) fn project_elements<'a, I: IntoIterator<Item = &'a Element>>(
 
     for (var, group) in vars.chain(corresponds) {
         if query.cc.is_value_bound(&var) {
+            // A constant doesn't divide anything into groups, but there is no group if there are no
+            // rows.
+            if group && inner_variables.contains(&var) {
+                let name = VariableColumn::Variable(var.clone()).column_name();
+                group_by.push(GroupBy::ProjectedColumn(name));
+            }
             continue;
         }
 
-- 
2.43.0


From 9d03115d28c41e4d8e278d147fc8992b720f1cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 24/68] fix: order by variables that are longs or doubles, and
 of queries known to be empty

There is no type tag to order by where all the possible types share it.
---
 query-algebrizer/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 19b02a9..522f8ba 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -26,7 +26,7 @@ mod validate;
 
 use core_traits::{Entid, TypedValue, ValueType};
 
-use mentat_core::{parse_query, CachedAttributes, Schema};
+use mentat_core::{parse_query, CachedAttributes, SQLValueTypeSet, Schema};
 
 use mentat_core::counter::RcCounter;
 
@@ -227,13 +227,18 @@ fn validate_and_simplify_order(
                     continue;
                 }
 
+                // There's nothing to order. What would have bound the var might have been skipped.
+                if cc.is_known_empty() {
+                    continue;
+                }
+
                 // Fail if the var isn't bound by the query.
                 if !cc.column_bindings.contains_key(&var) {
                     bail!(AlgebrizerError::UnboundVariable(var.name()))
                 }
 
                 // Otherwise, determine if we also need to order by type…
-                if cc.known_type(&var).is_none() {
+                if !cc.known_type_set(&var).has_unique_type_tag() {
                     order_bys.push(OrderBy(
                         direction.clone(),
                         VariableColumn::VariableTypeTag(var.clone()),
-- 
2.43.0


From 942a0c7306ab0ab9e0e83f434ef997b92e293e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 25/68] fix: rolling back to a savepoint restores the schema,
 caches, partition map and pending notifications too

---
 src/conn.rs            |  1 +
 transaction/src/lib.rs | 53 +++++++++++++++++++++++++++++++++++-------
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/conn.rs b/src/conn.rs
index 212b3f2..0067f2c 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -258,6 +258,7 @@ impl Conn {
             use_caching: true,
             tx_observer: &self.tx_observer_service,
             tx_observer_watcher: InProgressObserverTransactWatcher::new(),
+            savepoints: Vec::new(),
         })
     }
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 1fe6158..9916250 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -95,6 +95,17 @@ pub struct InProgress<'a, 'c> {
     pub use_caching: bool,
     pub tx_observer: &'a Mutex<TxObservationService>,
     pub tx_observer_watcher: InProgressObserverTransactWatcher,
+    /// The open savepoints, innermost last.
+    pub savepoints: Vec<Savepoint>,
+}
+
+/// What an `InProgress` keeps in memory, as it was when a savepoint was opened.
+pub struct Savepoint {
+    name: String,
+    partition_map: PartitionMap,
+    schema: Schema,
+    cache: InProgressSQLiteAttributeCache,
+    tx_observer_watcher: InProgressObserverTransactWatcher,
 }
 
 /// Represents an in-progress set of reads to the store. Just like `InProgress`,
@@ -180,16 +191,12 @@ impl<'a, 'c> InProgress<'a, 'c> {
         F: FnOnce(&mut Self) -> Result<TxReport>,
     {
         self.ensure_still_open()?;
-        let cache = self.cache.clone();
-        let tx_observer_watcher = self.tx_observer_watcher.clone();
-
         self.savepoint("in_progress_transact")?;
         let result = f(self);
         if result.is_err() {
-            self.cache = cache;
-            self.tx_observer_watcher = tx_observer_watcher;
             // Some errors make SQLite roll back everything, the savepoint included.
             if self.transaction.is_autocommit() {
+                self.restore_savepoint("in_progress_transact");
                 return result;
             }
             self.rollback_savepoint("in_progress_transact")?;
@@ -380,23 +387,53 @@ impl<'a, 'c> InProgress<'a, 'c> {
         self.partition_map[":db.part/tx"].next_entid() - 1
     }
 
-    pub fn savepoint(&self, name: &str) -> Result<()> {
+    pub fn savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("SAVEPOINT {}", name), rusqlite::params![])?;
+        self.savepoints.push(Savepoint {
+            name: name.to_string(),
+            partition_map: self.partition_map.clone(),
+            schema: self.schema.clone(),
+            cache: self.cache.clone(),
+            tx_observer_watcher: self.tx_observer_watcher.clone(),
+        });
         Ok(())
     }
 
-    pub fn rollback_savepoint(&self, name: &str) -> Result<()> {
+    pub fn rollback_savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("ROLLBACK TO {}", name), rusqlite::params![])?;
+        self.restore_savepoint(name);
         Ok(())
     }
 
-    pub fn release_savepoint(&self, name: &str) -> Result<()> {
+    pub fn release_savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("RELEASE {}", name), rusqlite::params![])?;
+        if let Some(i) = self.position_of_savepoint(name) {
+            self.savepoints.truncate(i);
+        }
         Ok(())
     }
+
+    /// Like SQLite, find the innermost savepoint of that name, ignoring case.
+    fn position_of_savepoint(&self, name: &str) -> Option<usize> {
+        self.savepoints
+            .iter()
+            .rposition(|s| s.name.eq_ignore_ascii_case(name))
+    }
+
+    /// Like `ROLLBACK TO`, this leaves the savepoint itself open.
+    fn restore_savepoint(&mut self, name: &str) {
+        if let Some(i) = self.position_of_savepoint(name) {
+            self.savepoints.truncate(i + 1);
+            let s = &self.savepoints[i];
+            self.partition_map = s.partition_map.clone();
+            self.schema = s.schema.clone();
+            self.cache = s.cache.clone();
+            self.tx_observer_watcher = s.tx_observer_watcher.clone();
+        }
+    }
 }
 
 impl<'a, 'c> InProgressRead<'a, 'c> {
-- 
2.43.0


From 4267c9e102eec7fda951a0b11e670d817d31de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 26/68] fix: counting what is known not to match gives zero, as
 it does when SQLite finds that out

---
 query-projector/src/lib.rs | 53 ++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/query-projector/src/lib.rs b/query-projector/src/lib.rs
index 1caedd1..d4625e4 100644
--- a/query-projector/src/lib.rs
+++ b/query-projector/src/lib.rs
@@ -92,19 +92,45 @@ impl From<QueryOutput> for QueryResults {
 }
 
 impl QueryOutput {
-    pub fn empty_factory(spec: &FindSpec) -> Box<dyn Fn() -> QueryResults> {
+    /// The number of elements of a find specification that has a result even if nothing matches: one
+    /// that only counts, without grouping by anything. Like SQL's `count`, ours is then zero.
+    fn only_counts(spec: &FindSpec) -> Option<usize> {
+        let elements: Vec<&Element> = spec.columns().collect();
+        let counts = elements.iter().all(|e| match **e {
+            Element::Aggregate(ref agg) => agg.func.0.name() == "count",
+            _ => false,
+        });
+        if counts {
+            Some(elements.len())
+        } else {
+            None
+        }
+    }
+
+    /// The results when it's known without running any SQL that nothing matches.
+    fn empty_results(spec: &FindSpec) -> QueryResults {
         use self::FindSpec::*;
-        match *spec {
-            FindScalar(_) => Box::new(|| QueryResults::Scalar(None)),
-            FindTuple(_) => Box::new(|| QueryResults::Tuple(None)),
-            FindColl(_) => Box::new(|| QueryResults::Coll(vec![])),
-            FindRel(ref es) => {
-                let width = es.len();
-                Box::new(move || QueryResults::Rel(RelResult::empty(width)))
-            }
+        let zero = || Binding::Scalar(TypedValue::Long(0));
+        match (spec, QueryOutput::only_counts(spec)) {
+            (&FindScalar(_), None) => QueryResults::Scalar(None),
+            (&FindTuple(_), None) => QueryResults::Tuple(None),
+            (&FindColl(_), None) => QueryResults::Coll(vec![]),
+            (&FindRel(ref es), None) => QueryResults::Rel(RelResult::empty(es.len())),
+            (&FindScalar(_), Some(_)) => QueryResults::Scalar(Some(zero())),
+            (&FindTuple(_), Some(width)) => QueryResults::Tuple(Some(vec![zero(); width])),
+            (&FindColl(_), Some(_)) => QueryResults::Coll(vec![zero()]),
+            (&FindRel(_), Some(width)) => QueryResults::Rel(RelResult {
+                width,
+                values: vec![zero(); width],
+            }),
         }
     }
 
+    pub fn empty_factory(spec: &FindSpec) -> Box<dyn Fn() -> QueryResults> {
+        let empty = QueryOutput::empty_results(spec);
+        Box::new(move || empty.clone())
+    }
+
     pub fn len(&self) -> usize {
         self.results.len()
     }
@@ -114,16 +140,9 @@ impl QueryOutput {
     }
 
     pub fn empty(spec: &Rc<FindSpec>) -> QueryOutput {
-        use self::FindSpec::*;
-        let results = match **spec {
-            FindScalar(_) => QueryResults::Scalar(None),
-            FindTuple(_) => QueryResults::Tuple(None),
-            FindColl(_) => QueryResults::Coll(vec![]),
-            FindRel(ref es) => QueryResults::Rel(RelResult::empty(es.len())),
-        };
         QueryOutput {
             spec: spec.clone(),
-            results,
+            results: QueryOutput::empty_results(spec),
         }
     }
 
-- 
2.43.0


From d1aa42c0393feee6722db8bb7e16df6c2b173f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 27/68] fix: a pull's wildcard keeps what follows it and
 explicit aliases, and an attribute can be pulled under several names

---
 query-pull/src/lib.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/query-pull/src/lib.rs b/query-pull/src/lib.rs
index 138d2a5..beac226 100644
--- a/query-pull/src/lib.rs
+++ b/query-pull/src/lib.rs
@@ -128,7 +128,7 @@ where
 pub struct Puller {
     // The domain of this map is the set of attributes to fetch.
     // The range is the set of aliases to use in the output.
-    attributes: BTreeMap<Entid, ValueRc<Keyword>>,
+    attributes: BTreeMap<Entid, BTreeSet<ValueRc<Keyword>>>,
     attribute_spec: cache::AttributeSpec,
 
     // If this is set, each pulled entity is contributed to its own output map, labeled with this
@@ -152,20 +152,16 @@ impl Puller {
                 .ok_or_else(|| PullError::UnnamedAttribute(*i))
         };
 
-        let mut names: BTreeMap<Entid, ValueRc<Keyword>> = Default::default();
+        let mut names: BTreeMap<Entid, BTreeSet<ValueRc<Keyword>>> = Default::default();
         let mut attrs: BTreeSet<Entid> = Default::default();
         let db_id = ::std::rc::Rc::new(Keyword::namespaced("db", "id"));
         let mut db_id_alias = None;
+        let mut wildcard = false;
 
         for attr in attributes.iter() {
             match attr {
                 PullAttributeSpec::Wildcard => {
-                    let attribute_ids = schema.attribute_map.keys();
-                    for id in attribute_ids {
-                        names.insert(*id, lookup_name(id)?);
-                        attrs.insert(*id);
-                    }
-                    break;
+                    wildcard = true;
                 }
                 PullAttributeSpec::Attribute(NamedPullAttribute {
                     ref attribute,
@@ -184,13 +180,13 @@ impl Puller {
                         PullConcreteAttribute::Ident(ref i) => {
                             if let Some(entid) = schema.get_entid(i) {
                                 let name = alias.unwrap_or_else(|| i.to_value_rc());
-                                names.insert(entid.into(), name);
+                                names.entry(entid.into()).or_default().insert(name);
                                 attrs.insert(entid.into());
                             }
                         }
                         PullConcreteAttribute::Entid(ref entid) => {
                             let name = alias.map(Ok).unwrap_or_else(|| lookup_name(entid))?;
-                            names.insert(*entid, name);
+                            names.entry(*entid).or_default().insert(name);
                             attrs.insert(*entid);
                         }
                     }
@@ -198,6 +194,15 @@ impl Puller {
             }
         }
 
+        // The wildcard stands for every attribute that isn't mentioned explicitly.
+        if wildcard {
+            for id in schema.attribute_map.keys() {
+                if attrs.insert(*id) {
+                    names.entry(*id).or_default().insert(lookup_name(id)?);
+                }
+            }
+        }
+
         Ok(Puller {
             attributes: names,
             attribute_spec: cache::AttributeSpec::specified(&attrs, schema),
@@ -248,10 +253,10 @@ impl Puller {
             }
         }
 
-        for (name, cache) in self.attributes.iter().filter_map(|(a, name)| {
+        for (names, cache) in self.attributes.iter().filter_map(|(a, names)| {
             caches
                 .forward_attribute_cache_for_attribute(schema, *a)
-                .map(|cache| (name.clone(), cache))
+                .map(|cache| (names, cache))
         }) {
             for e in entities.iter() {
                 if let Some(binding) = cache.binding_for_e(*e) {
@@ -263,7 +268,9 @@ impl Puller {
                     // We can unwrap here because we created all of these maps…
                     let m = ValueRc::get_mut(r).unwrap();
 
-                    m.insert(name.clone(), binding);
+                    for name in names.iter() {
+                        m.insert(name.clone(), binding.clone());
+                    }
                 }
             }
         }
-- 
2.43.0


From 9dcddb5c42f750b0a312c36408ad336cec57bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 28/68] fix: a commit's observers are notified even if the
 observers change or the store is closed right after

---
 db/src/tx_observer.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index 5dad666..7574e1b 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -8,7 +8,7 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::sync::{Arc, Weak};
+use std::sync::Arc;
 
 use std::sync::mpsc::{channel, Receiver, RecvError, Sender};
 
@@ -66,7 +66,8 @@ pub trait Command {
 
 pub struct TxCommand {
     reports: IndexMap<Entid, AttributeSet>,
-    observers: Weak<IndexMap<String, Arc<TxObserver>>>,
+    // Strong: whoever observed at the time of the commit is told, whatever happens to the service.
+    observers: Arc<IndexMap<String, Arc<TxObserver>>>,
 }
 
 impl TxCommand {
@@ -76,19 +77,17 @@ impl TxCommand {
     ) -> Self {
         TxCommand {
             reports,
-            observers: Arc::downgrade(observers),
+            observers: observers.clone(),
         }
     }
 }
 
 impl Command for TxCommand {
     fn execute(&mut self) {
-        if let Some(observers) = self.observers.upgrade() {
-            for (key, observer) in observers.iter() {
-                let applicable_reports = observer.applicable_reports(&self.reports);
-                if !applicable_reports.is_empty() {
-                    observer.notify(&key, applicable_reports);
-                }
+        for (key, observer) in self.observers.iter() {
+            let applicable_reports = observer.applicable_reports(&self.reports);
+            if !applicable_reports.is_empty() {
+                observer.notify(&key, applicable_reports);
             }
         }
     }
-- 
2.43.0


From 5f9a1a98acee05ebfe2f3460bb530e7132277d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 29/68] fix: moving several transactions off the main timeline
 carries the schema from one to the next

---
 db/src/timelines.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 38fb178..8e371f9 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -156,16 +156,17 @@ pub fn move_from_main_timeline(
 
     let txs_to_move = collect_ordered_txs_to_move(conn, txs_from, crate::TIMELINE_MAIN)?;
 
-    let mut last_schema = None;
+    let mut last_schema: Option<Schema> = None;
     for tx_id in &txs_to_move {
         let reversed_terms = reversed_terms_for(conn, *tx_id)?;
 
         // Rewind schema and datoms.
+        let current_schema = last_schema.as_ref().unwrap_or(schema);
         let (report, _, new_schema, _) = transact_terms_with_action(
             conn,
             partition_map.clone(),
-            schema,
-            schema,
+            current_schema,
+            current_schema,
             NullWatcher(),
             reversed_terms.into_iter().map(|t| t.rewrap()),
             InternSet::new(),
@@ -182,7 +183,9 @@ pub fn move_from_main_timeline(
         // A quick workaround is to just remove the bad txInstant datom.
         // See test_clashing_tx_instants test case.
         remove_tx_from_datoms(conn, report.tx_id)?;
-        last_schema = new_schema;
+        if new_schema.is_some() {
+            last_schema = new_schema;
+        }
     }
 
     // Move transactions over to the target timeline.
-- 
2.43.0


From f7017aee17fb8918bf6aba1f873022076e18fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 30/68] fix: transactions with fulltext values can be moved off
 the main timeline

---
 db/src/timelines.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 8e371f9..75c2560 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -14,9 +14,9 @@ use rusqlite;
 
 use db_traits::errors::{DbErrorKind, Result};
 
-use core_traits::{Entid, KnownEntid, TypedValue};
+use core_traits::{Entid, KnownEntid, TypedValue, ValueType};
 
-use mentat_core::Schema;
+use mentat_core::{SQLValueType, Schema};
 
 use edn::InternSet;
 
@@ -107,9 +107,21 @@ fn reversed_terms_for(
     conn: &rusqlite::Connection,
     tx_id: Entid,
 ) -> Result<Vec<TermWithoutTempIds>> {
-    let mut stmt = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE tx = ? AND timeline = ? ORDER BY tx DESC")?;
+    // Fulltext strings -- and no others -- are logged as integers referring to `fulltext_values`.
+    let mut stmt = conn.prepare(
+        "SELECT e, a,
+                CASE WHEN value_type_tag = ? AND typeof(v) = 'integer'
+                     THEN (SELECT text FROM fulltext_values WHERE rowid = v)
+                     ELSE v END,
+                value_type_tag, tx, added
+         FROM timelined_transactions WHERE tx = ? AND timeline = ? ORDER BY tx DESC",
+    )?;
     let rows = stmt.query_and_then(
-        &[&tx_id, &crate::TIMELINE_MAIN],
+        &[
+            &Entid::from(ValueType::String.value_type_tag()),
+            &tx_id,
+            &crate::TIMELINE_MAIN,
+        ],
         |row| -> Result<TermWithoutTempIds> {
             let op = if row.get(5)? {
                 OpType::Retract
-- 
2.43.0


From 2b34edf84cbda79eb5d4f574064b8e237e1c90c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 31/68] fix: datoms that come back when transactions are moved
 off the main timeline are again those of the transaction that asserted them

---
 db/src/timelines.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 75c2560..be9b1b8 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -94,6 +94,24 @@ fn remove_tx_from_datoms(conn: &rusqlite::Connection, tx_id: Entid) -> Result<()
     Ok(())
 }
 
+/// Rewinding asserts anew the datoms that `tx_id` had retracted.  Put them back the way they were: asserted by
+/// the last transaction before `tx_id` that did.
+fn restore_tx_of_datoms(
+    conn: &rusqlite::Connection,
+    rewind_tx_id: Entid,
+    tx_id: Entid,
+) -> Result<()> {
+    conn.execute(
+        "UPDATE datoms SET tx = (SELECT MAX(t.tx) FROM timelined_transactions AS t
+                                 WHERE t.timeline = ? AND t.tx < ? AND t.added IS 1
+                                   AND t.e = datoms.e AND t.a = datoms.a AND t.v = datoms.v
+                                   AND t.value_type_tag = datoms.value_type_tag)
+         WHERE tx = ?",
+        &[&crate::TIMELINE_MAIN, &tx_id, &rewind_tx_id],
+    )?;
+    Ok(())
+}
+
 fn is_timeline_empty(conn: &rusqlite::Connection, timeline: Entid) -> Result<bool> {
     let mut stmt = conn.prepare(
         "SELECT timeline FROM timelined_transactions WHERE timeline = ? GROUP BY timeline",
@@ -195,6 +213,7 @@ pub fn move_from_main_timeline(
         // A quick workaround is to just remove the bad txInstant datom.
         // See test_clashing_tx_instants test case.
         remove_tx_from_datoms(conn, report.tx_id)?;
+        restore_tx_of_datoms(conn, report.tx_id, *tx_id)?;
         if new_schema.is_some() {
             last_schema = new_schema;
         }
-- 
2.43.0


From 05cbaa17253307697db1172df8ce936262f63095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 32/68] fix: backslashes and quotes in strings are escaped when
 EDN is printed

---
 edn/src/pretty_print.rs | 7 +++++--
 edn/src/types.rs        | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/edn/src/pretty_print.rs b/edn/src/pretty_print.rs
index 297bafc..1f149a9 100644
--- a/edn/src/pretty_print.rs
+++ b/edn/src/pretty_print.rs
@@ -16,7 +16,7 @@ use pretty;
 use std::borrow::Cow;
 use std::io;
 
-use crate::types::Value;
+use crate::types::{escape_text, Value};
 
 impl Value {
     /// Return a pretty string representation of this `Value`.
@@ -94,7 +94,10 @@ impl Value {
             Value::NamespacedSymbol(ref v) => pp.text(v.namespace()).append("/").append(v.name()),
             Value::PlainSymbol(ref v) => pp.text(v.to_string()),
             Value::Keyword(ref v) => pp.text(v.to_string()),
-            Value::Text(ref v) => pp.text("\"").append(v.as_str()).append("\""),
+            Value::Text(ref v) => pp
+                .text("\"")
+                .append(escape_text(v))
+                .append("\""),
             Value::Uuid(ref u) => pp
                 .text("#uuid \"")
                 .append(u.to_hyphenated().to_string())
diff --git a/edn/src/types.rs b/edn/src/types.rs
index c1f4b07..69b5336 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -504,6 +504,11 @@ macro_rules! def_common_value_methods {
     }
 }
 
+/// Escape the characters that can't appear unescaped in an EDN string.
+pub(crate) fn escape_text(text: &str) -> String {
+    text.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
 /// Compares Value or SpannedValue instances and returns Ordering.
 /// Used in `Ord` implementations.
 macro_rules! def_common_value_ord {
@@ -556,8 +561,7 @@ macro_rules! def_common_value_display {
                     write!($f, "{}", v)
                 }
             }
-            // TODO: EDN escaping.
-            $t::Text(ref v) => write!($f, "\"{}\"", v),
+            $t::Text(ref v) => write!($f, "\"{}\"", escape_text(v)),
             $t::Uuid(ref u) => write!($f, "#uuid \"{}\"", u.to_hyphenated().to_string()),
             $t::PlainSymbol(ref v) => v.fmt($f),
             $t::NamespacedSymbol(ref v) => v.fmt($f),
-- 
2.43.0


From 550a68a388f225d263a77ce5db67091c0cb9930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 33/68] fix: counts that are grouped by what they are ordered
 by are not zero where nothing is known to match

---
 query-algebrizer/src/lib.rs |  1 +
 query-projector/src/lib.rs  | 28 ++++++++++++++++------------
 transaction/src/query.rs    |  8 ++++----
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 522f8ba..8a6ba56 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -229,6 +229,7 @@ fn validate_and_simplify_order(
 
                 // There's nothing to order. What would have bound the var might have been skipped.
                 if cc.is_known_empty() {
+                    order_bys.push(OrderBy(direction, VariableColumn::Variable(var)));
                     continue;
                 }
 
diff --git a/query-projector/src/lib.rs b/query-projector/src/lib.rs
index d4625e4..e5e71f4 100644
--- a/query-projector/src/lib.rs
+++ b/query-projector/src/lib.rs
@@ -92,10 +92,14 @@ impl From<QueryOutput> for QueryResults {
 }
 
 impl QueryOutput {
-    /// The number of elements of a find specification that has a result even if nothing matches: one
-    /// that only counts, without grouping by anything. Like SQL's `count`, ours is then zero.
-    fn only_counts(spec: &FindSpec) -> Option<usize> {
-        let elements: Vec<&Element> = spec.columns().collect();
+    /// The number of elements of the find specification of a query that has a result even if nothing
+    /// matches: one that only counts, without grouping by anything -- not even by a variable that the
+    /// results are ordered by. Like SQL's `count`, ours is then zero.
+    fn only_counts(query: &AlgebraicQuery) -> Option<usize> {
+        if query.order.as_ref().map_or(false, |order| !order.is_empty()) {
+            return None;
+        }
+        let elements: Vec<&Element> = query.find_spec.columns().collect();
         let counts = elements.iter().all(|e| match **e {
             Element::Aggregate(ref agg) => agg.func.0.name() == "count",
             _ => false,
@@ -108,10 +112,10 @@ impl QueryOutput {
     }
 
     /// The results when it's known without running any SQL that nothing matches.
-    fn empty_results(spec: &FindSpec) -> QueryResults {
+    fn empty_results(query: &AlgebraicQuery) -> QueryResults {
         use self::FindSpec::*;
         let zero = || Binding::Scalar(TypedValue::Long(0));
-        match (spec, QueryOutput::only_counts(spec)) {
+        match (&*query.find_spec, QueryOutput::only_counts(query)) {
             (&FindScalar(_), None) => QueryResults::Scalar(None),
             (&FindTuple(_), None) => QueryResults::Tuple(None),
             (&FindColl(_), None) => QueryResults::Coll(vec![]),
@@ -126,8 +130,8 @@ impl QueryOutput {
         }
     }
 
-    pub fn empty_factory(spec: &FindSpec) -> Box<dyn Fn() -> QueryResults> {
-        let empty = QueryOutput::empty_results(spec);
+    pub fn empty_factory(query: &AlgebraicQuery) -> Box<dyn Fn() -> QueryResults> {
+        let empty = QueryOutput::empty_results(query);
         Box::new(move || empty.clone())
     }
 
@@ -139,10 +143,10 @@ impl QueryOutput {
         self.results.is_empty()
     }
 
-    pub fn empty(spec: &Rc<FindSpec>) -> QueryOutput {
+    pub fn empty(query: &AlgebraicQuery) -> QueryOutput {
         QueryOutput {
-            spec: spec.clone(),
-            results: QueryOutput::empty_results(spec),
+            spec: query.find_spec.clone(),
+            results: QueryOutput::empty_results(query),
         }
     }
 
@@ -470,7 +474,7 @@ pub fn query_projection(
         Ok(Either::Left(ConstantProjector::new(spec, f)))
     } else if query.is_known_empty() {
         // Do a few gyrations to produce empty results of the right kind for the query.
-        let empty = QueryOutput::empty_factory(&spec);
+        let empty = QueryOutput::empty_factory(query);
         Ok(Either::Left(ConstantProjector::new(spec, empty)))
     } else {
         match *query.find_spec {
diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index c7c5a7f..f62a2c8 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -50,7 +50,7 @@ pub type PreparedResult<'sqlite> = Result<PreparedQuery<'sqlite>>;
 
 pub enum PreparedQuery<'sqlite> {
     Empty {
-        find_spec: Rc<FindSpec>,
+        output: QueryOutput,
     },
     Constant {
         select: ConstantProjector,
@@ -70,7 +70,7 @@ impl<'sqlite> PreparedQuery<'sqlite> {
         T: Into<Option<QueryInputs>>,
     {
         match self {
-            PreparedQuery::Empty { ref find_spec } => Ok(QueryOutput::empty(find_spec)),
+            PreparedQuery::Empty { ref output } => Ok(output.clone()),
             PreparedQuery::Constant { ref select } => {
                 select.project_without_rows().map_err(|e| e.into())
             }
@@ -349,7 +349,7 @@ fn run_algebrized_query<'sqlite>(
     );
     if algebrized.is_known_empty() {
         // We don't need to do any SQL work at all.
-        return Ok(QueryOutput::empty(&algebrized.find_spec));
+        return Ok(QueryOutput::empty(&algebrized));
     }
 
     let select = query_to_select(known.schema, algebrized)?;
@@ -429,7 +429,7 @@ where
     if algebrized.is_known_empty() {
         // We don't need to do any SQL work at all.
         return Ok(PreparedQuery::Empty {
-            find_spec: algebrized.find_spec,
+            output: QueryOutput::empty(&algebrized),
         });
     }
 
-- 
2.43.0


From 1c18e209d6666790d805ed192cd6853ec8f39b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 34/68] fix: the escapes \n, \t and \r in EDN strings stand for
 the characters they name

---
 edn/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 2cbb21e..75b3402 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -113,7 +113,11 @@ peg::parser!(pub grammar parse() for str {
 
     // TODO: standalone characters: \<char>, \newline, \return, \space and \tab.
     // rule string_standalone_chars() ->
-    rule string_special_char() -> &'input str = "\\" c:$(['\\' | '"' | 'n' | 't' | 'r']) { c }
+    rule string_special_char() -> &'input str
+        = "\\" c:$(['\\' | '"']) { c }
+        / "\\n" { "\n" }
+        / "\\t" { "\t" }
+        / "\\r" { "\r" }
     rule string_normal_chars() -> &'input str = c:$((!['\"' | '\\'][_])+) { c }
 
     // This is what we need to do in order to unescape. We can't just match the entire string slice:
-- 
2.43.0


From 3c57c429773de67f678e5f97f15cf23e45c51030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 35/68] fix: floats without a fractional part are printed as
 floats, not as integers, in EDN

---
 edn/src/types.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edn/src/types.rs b/edn/src/types.rs
index 69b5336..5100ab1 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -549,7 +549,6 @@ macro_rules! def_common_value_display {
                 v.to_rfc3339_opts(SecondsFormat::AutoSi, true)
             ),
             $t::BigInteger(ref v) => write!($f, "{}N", v),
-            // TODO: make sure float syntax is correct.
             $t::Float(ref v) => {
                 if *v == OrderedFloat(f64::INFINITY) {
                     write!($f, "#f +Infinity")
@@ -558,7 +557,9 @@ macro_rules! def_common_value_display {
                 } else if *v == OrderedFloat(f64::NAN) {
                     write!($f, "#f NaN")
                 } else {
-                    write!($f, "{}", v)
+                    // Unlike `Display`, `Debug` always marks a float as such: `1.0` or `1e21`, so
+                    // that it isn't read back as an integer.
+                    write!($f, "{:?}", v.into_inner())
                 }
             }
             $t::Text(ref v) => write!($f, "\"{}\"", escape_text(v)),
-- 
2.43.0


From 98584262c29c2e072d93d6abd90347f034a2ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 36/68] fix: numbers and instants that are out of range are
 refused when EDN is parsed, not a panic

---
 edn/src/lib.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 75b3402..1e7d30f 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -92,13 +92,13 @@ peg::parser!(pub grammar parse() for str {
     pub rule raw_bigint() -> BigInt = b:$( sign()? digit()+ ) "N"
         { b.parse::<BigInt>().unwrap() }
     pub rule raw_octalinteger() -> i64 = "0" i:$( octaldigit()+ )
-        { i64::from_str_radix(i, 8).unwrap() }
+        {? i64::from_str_radix(i, 8).or(Err("octal integer in range")) }
     pub rule raw_hexinteger() -> i64 = "0x" i:$( hex()+ )
-        { i64::from_str_radix(i, 16).unwrap() }
+        {? i64::from_str_radix(i, 16).or(Err("hexadecimal integer in range")) }
     pub rule raw_basedinteger() -> i64 = b:$( validbase() ) "r" i:$( alphanumeric()+ )
-        { i64::from_str_radix(i, b.parse::<u32>().unwrap()).unwrap() }
+        {? i64::from_str_radix(i, b.parse::<u32>().unwrap()).or(Err("integer valid for its base and in range")) }
     pub rule raw_integer() -> i64 = i:$( sign()? digit()+ ) !("." / (['e' | 'E']))
-        { i.parse::<i64>().unwrap() }
+        {? i.parse::<i64>().or(Err("integer in range")) }
     pub rule raw_float() -> OrderedFloat<f64> = f:$(sign()? digit()+ ("." digit()+)? (['e' | 'E'] sign()? digit()+)?)
         { OrderedFloat(f.parse::<f64>().unwrap()) }
 
@@ -109,7 +109,7 @@ peg::parser!(pub grammar parse() for str {
     pub rule integer() -> SpannedValue = v:raw_integer() { SpannedValue::Integer(v) }
     pub rule float() -> SpannedValue = v:raw_float() { SpannedValue::Float(v) }
 
-    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() / float() )
+    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() / !(sign()? digit()+ !("." / ['e' | 'E'])) v:float() { v } )
 
     // TODO: standalone characters: \<char>, \newline, \return, \space and \tab.
     // rule string_standalone_chars() ->
@@ -150,19 +150,17 @@ peg::parser!(pub grammar parse() for str {
         }
 
     rule inst_micros() -> DateTime<Utc> =
-        "#instmicros" whitespace()+ d:$( digit()+ ) {
-            let micros = d.parse::<i64>().unwrap();
-            let seconds: i64 = micros / 1_000_000;
-            let nanos: u32 = ((micros % 1_000_000).abs() as u32) * 1000;
-            Utc.timestamp(seconds, nanos)
+        "#instmicros" whitespace()+ d:$( digit()+ ) {?
+            d.parse::<i64>().ok()
+                .and_then(|micros| Utc.timestamp_opt(micros / 1_000_000, ((micros % 1_000_000) as u32) * 1000).single())
+                .ok_or("instant in range")
         }
 
     rule inst_millis() -> DateTime<Utc> =
-        "#instmillis" whitespace()+ d:$( digit()+ ) {
-            let millis = d.parse::<i64>().unwrap();
-            let seconds: i64 = millis / 1000;
-            let nanos: u32 = ((millis % 1000).abs() as u32) * 1_000_000;
-            Utc.timestamp(seconds, nanos)
+        "#instmillis" whitespace()+ d:$( digit()+ ) {?
+            d.parse::<i64>().ok()
+                .and_then(|millis| Utc.timestamp_opt(millis / 1000, ((millis % 1000) as u32) * 1_000_000).single())
+                .ok_or("instant in range")
         }
 
     rule inst() -> SpannedValue = t:(inst_millis() / inst_micros() / inst_string())
-- 
2.43.0


From 4fb7eefcd90dcdce692b4a669741229eb83005da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 37/68] fix: an EDN token ends where it looks like it ends, so
 that nil1 isn't nil followed by 1

---
 edn/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 1e7d30f..341097e 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -219,9 +219,19 @@ peg::parser!(pub grammar parse() for str {
     pub rule map() -> SpannedValue = "{" __ v:(pair())* __ "}"
         { SpannedValue::Map(BTreeMap::from_iter(v)) }
 
+    // What follows a token that isn't delimited must not look like more of the same token: `nil1` isn't
+    // `nil` followed by `1`.
+    rule token_end() = !(symbol_char_subsequent() / namespace_separator() / ":" / "#")
+
+    rule word() -> SpannedValue = v:(nil() / nan() / infinity() / boolean()) token_end() { v }
+
+    rule number_token() -> SpannedValue = v:number() token_end() !namespace_divider() { v }
+
+    rule name() -> SpannedValue = v:(keyword() / (!digit() v:symbol() { v })) token_end() { v }
+
     // Note: It's important that float comes before integer or the parser assumes that floats are integers and fails to parse.
     pub rule value() -> ValueAndSpan =
-        __ start:position!() v:(nil() / nan() / infinity() / boolean() / number() / inst() / uuid() / text() / keyword() / symbol() / list() / vector() / map() / set()) end:position!() __ {
+        __ start:position!() v:(word() / number_token() / inst() / uuid() / text() / name() / list() / vector() / map() / set()) end:position!() __ {
             ValueAndSpan {
                 inner: v,
                 span: Span::new(start, end)
-- 
2.43.0


From e83a07840ad7808fd5ce9bf1acb9344cd226414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 38/68] fix: instants before 1970 and instants given in
 milliseconds denote the right moment

---
 edn/src/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edn/src/types.rs b/edn/src/types.rs
index 5100ab1..2971f8f 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -658,7 +658,10 @@ pub trait FromMicros {
 
 impl FromMicros for DateTime<Utc> {
     fn from_micros(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000_000, ((ts % 1_000_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000_000),
+            (ts.rem_euclid(1_000_000) as u32) * 1_000,
+        )
     }
 }
 
@@ -680,7 +683,10 @@ pub trait FromMillis {
 
 impl FromMillis for DateTime<Utc> {
     fn from_millis(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000, ((ts % 1_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000),
+            (ts.rem_euclid(1_000) as u32) * 1_000_000,
+        )
     }
 }
 
-- 
2.43.0


From 6c168a94bbecf65eaed7746ea87edfd78709b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 39/68] fix: instants given as numbers end where they look like
 they end, too

---
 edn/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 341097e..4edc680 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -150,14 +150,14 @@ peg::parser!(pub grammar parse() for str {
         }
 
     rule inst_micros() -> DateTime<Utc> =
-        "#instmicros" whitespace()+ d:$( digit()+ ) {?
+        "#instmicros" whitespace()+ d:$( digit()+ ) token_end() {?
             d.parse::<i64>().ok()
                 .and_then(|micros| Utc.timestamp_opt(micros / 1_000_000, ((micros % 1_000_000) as u32) * 1000).single())
                 .ok_or("instant in range")
         }
 
     rule inst_millis() -> DateTime<Utc> =
-        "#instmillis" whitespace()+ d:$( digit()+ ) {?
+        "#instmillis" whitespace()+ d:$( digit()+ ) token_end() {?
             d.parse::<i64>().ok()
                 .and_then(|millis| Utc.timestamp_opt(millis / 1000, ((millis % 1000) as u32) * 1_000_000).single())
                 .ok_or("instant in range")
-- 
2.43.0


From 41a316acb1c0079184b3fd744d460ea7da256d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 40/68] fix: nil, booleans and named floats followed by a dot
 are not cut off

---
 edn/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 4edc680..4fa7035 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -223,7 +223,7 @@ peg::parser!(pub grammar parse() for str {
     // `nil` followed by `1`.
     rule token_end() = !(symbol_char_subsequent() / namespace_separator() / ":" / "#")
 
-    rule word() -> SpannedValue = v:(nil() / nan() / infinity() / boolean()) token_end() { v }
+    rule word() -> SpannedValue = v:(nil() / nan() / infinity() / boolean()) token_end() !namespace_divider() { v }
 
     rule number_token() -> SpannedValue = v:number() token_end() !namespace_divider() { v }
 
-- 
2.43.0


From c4dfce53fc29dc8f6fa23f0798647c17b9295045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:17 +0000
Subject: [PATCH 41/68] fix: a keyword named _ isn't the reverse of a keyword
 without a name

---
 edn/src/namespaceable_name.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edn/src/namespaceable_name.rs b/edn/src/namespaceable_name.rs
index 3c8e52a..7ca2111 100644
--- a/edn/src/namespaceable_name.rs
+++ b/edn/src/namespaceable_name.rs
@@ -107,7 +107,8 @@ impl NamespaceableName {
 
     #[inline]
     pub fn is_backward(&self) -> bool {
-        self.name().starts_with('_')
+        // There's nothing that a lone `_` could be the reverse of.
+        self.name().len() > 1 && self.name().starts_with('_')
     }
 
     #[inline]
@@ -118,7 +119,7 @@ impl NamespaceableName {
     pub fn to_reversed(&self) -> NamespaceableName {
         let name = self.name();
 
-        if name.starts_with('_') {
+        if self.is_backward() {
             Self::new(self.namespace(), &name[1..])
         } else {
             Self::new(self.namespace(), &format!("_{}", name))
-- 
2.43.0


From 6a976fb1b56460663ad76308c4644b988f631da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 42/68] fix: a negative integer can be ground to a variable
 whose type is not known

---
 query-algebrizer/src/clauses/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 9448229..219eb4b 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -138,11 +138,11 @@ impl ConjoiningClauses {
                         // This can only be a ref.
                         Ok(Val(TypedValue::Ref(x)))
                     }
-                    (_, false, true) => {
+                    (_, false, true) | (false, true, true) => {
                         // This can only be a long.
                         Ok(Val(TypedValue::Long(x)))
                     }
-                    (false, true, _) => {
+                    (false, true, false) => {
                         // This isn't a valid ref, but that's the type to which this must conform!
                         Ok(Impossible(EmptyBecause::TypeMismatch {
                             var: var.clone(),
-- 
2.43.0


From a945fc98655ff9bc2aef3716819715e91cbe5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 43/68] fix: queries can have infinities and NaN in them

---
 sql/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sql/src/lib.rs b/sql/src/lib.rs
index 65dd6bc..b76bdc8 100644
--- a/sql/src/lib.rs
+++ b/sql/src/lib.rs
@@ -142,6 +142,11 @@ impl QueryBuilder for SQLiteQueryBuilder {
             Ref(entid) => self.push_sql(entid.to_string().as_str()),
             Boolean(v) => self.push_sql(if *v { "1" } else { "0" }),
             Long(v) => self.push_sql(v.to_string().as_str()),
+            // SQL has no literals for these. Nothing equals NaN, as nothing equals NULL.
+            Double(OrderedFloat(v)) if v.is_nan() => self.push_sql("NULL"),
+            Double(OrderedFloat(v)) if v.is_infinite() => {
+                self.push_sql(if *v > 0.0 { "9e999" } else { "-9e999" });
+            }
             Double(OrderedFloat(v)) => {
                 // Rust's floats print without a trailing '.' in some cases.
                 // https://github.com/rust-lang/rust/issues/30967
-- 
2.43.0


From 76181fbb70fbc3a26bb967fdccc724c0c9a55170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 44/68] fix: instants in EDN are cut off to microseconds before
 anything is looked up in a cache

---
 db/src/db.rs                            | 2 +-
 query-algebrizer/src/clauses/convert.rs | 2 +-
 query-algebrizer/src/clauses/pattern.rs | 2 +-
 query-algebrizer/src/clauses/resolve.rs | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 2cd9744..ff32295 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -447,7 +447,7 @@ impl TypedSQLValue for TypedValue {
     fn from_edn_value(value: &Value) -> Option<TypedValue> {
         match value {
             Value::Boolean(x) => Some(TypedValue::Boolean(*x)),
-            Value::Instant(x) => Some(TypedValue::Instant(*x)),
+            Value::Instant(x) => Some((*x).into()),
             Value::Integer(x) => Some(TypedValue::Long(*x)),
             Value::Uuid(x) => Some(TypedValue::Uuid(*x)),
             Value::Float(ref x) => Some(TypedValue::Double(*x)),
diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 219eb4b..8db5d10 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -216,7 +216,7 @@ impl ConjoiningClauses {
                 coerce_to_typed_value!(var, x, known_types, ValueType::Boolean, TypedValue::Boolean)
             }
             FnArg::Constant(NonIntegerConstant::Instant(x)) => {
-                coerce_to_typed_value!(var, x, known_types, ValueType::Instant, TypedValue::Instant)
+                coerce_to_typed_value!(var, x, known_types, ValueType::Instant, TypedValue::from)
             }
             FnArg::Constant(NonIntegerConstant::Uuid(x)) => {
                 coerce_to_typed_value!(var, x, known_types, ValueType::Uuid, TypedValue::Uuid)
diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 5de9dbb..4a467d4 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -33,7 +33,7 @@ pub fn into_typed_value(nic: NonIntegerConstant) -> TypedValue {
         NonIntegerConstant::Boolean(v) => TypedValue::Boolean(v),
         NonIntegerConstant::Float(v) => TypedValue::Double(v),
         NonIntegerConstant::Text(v) => v.into(),
-        NonIntegerConstant::Instant(v) => TypedValue::Instant(v),
+        NonIntegerConstant::Instant(v) => v.into(),
         NonIntegerConstant::Uuid(v) => TypedValue::Uuid(v),
     }
 }
diff --git a/query-algebrizer/src/clauses/resolve.rs b/query-algebrizer/src/clauses/resolve.rs
index 0d4f1fa..ebb39a5 100644
--- a/query-algebrizer/src/clauses/resolve.rs
+++ b/query-algebrizer/src/clauses/resolve.rs
@@ -93,7 +93,7 @@ impl ConjoiningClauses {
                 }
             },
             Constant(NonIntegerConstant::Instant(v)) => {
-                Ok(QueryValue::TypedValue(TypedValue::Instant(v)))
+                Ok(QueryValue::TypedValue(v.into()))
             }
 
             // TODO: should we allow integers if they seem to be timestamps? It's ambiguous…
@@ -205,7 +205,7 @@ impl ConjoiningClauses {
                 Ok(QueryValue::TypedValue(TypedValue::Uuid(u)))
             }
             Constant(NonIntegerConstant::Instant(u)) => {
-                Ok(QueryValue::TypedValue(TypedValue::Instant(u)))
+                Ok(QueryValue::TypedValue(u.into()))
             }
             Constant(NonIntegerConstant::BigInteger(_)) => unimplemented!(),
             SrcVar(_) => unimplemented!(),
-- 
2.43.0


From c6f806421d244a38858c6353eba59fbe3e22430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 45/68] fix: fulltext values can be queried in the log

---
 db/src/db.rs    | 11 ++++++++++-
 db/src/debug.rs |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index ff32295..a6f57b0 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -195,7 +195,16 @@ lazy_static! {
 
         r#"CREATE TABLE timelined_transactions (e INTEGER NOT NULL, a SMALLINT NOT NULL, v BLOB NOT NULL, tx INTEGER NOT NULL, added TINYINT NOT NULL DEFAULT 1, value_type_tag SMALLINT NOT NULL, timeline TINYINT NOT NULL DEFAULT 0)"#,
         r#"CREATE INDEX idx_timelined_transactions_timeline ON timelined_transactions (timeline)"#,
-        r#"CREATE VIEW transactions AS SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE timeline IS 0"#,
+        // A fulltext indexed value (a string whose v is an integer) is interpolated.
+        r#"CREATE VIEW transactions AS
+             SELECT e, a,
+                    CASE WHEN value_type_tag = 10 AND typeof(v) = 'integer'
+                         THEN (SELECT text FROM fulltext_values WHERE fulltext_values.rowid = v)
+                         ELSE v
+                    END AS v,
+                    value_type_tag, tx, added
+               FROM timelined_transactions
+               WHERE timeline IS 0"#,
 
         // Fulltext indexing.
         // A fulltext indexed value v is an integer rowid referencing fulltext_values.
diff --git a/db/src/debug.rs b/db/src/debug.rs
index b2ece25..65d82a2 100644
--- a/db/src/debug.rs
+++ b/db/src/debug.rs
@@ -258,7 +258,7 @@ pub fn transactions_after<S: Borrow<Schema>>(
 ) -> Result<Transactions> {
     let borrowed_schema = schema.borrow();
 
-    let mut stmt: rusqlite::Statement = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM transactions WHERE tx > ? ORDER BY tx ASC, e ASC, a ASC, value_type_tag ASC, v ASC, added ASC")?;
+    let mut stmt: rusqlite::Statement = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE timeline IS 0 AND tx > ? ORDER BY tx ASC, e ASC, a ASC, value_type_tag ASC, v ASC, added ASC")?;
 
     let r: Result<Vec<_>> = stmt
         .query_and_then(&[&tx], |row| {
-- 
2.43.0


From a636563adaebfffc7fa0b4ff7f4a45700fc61d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 46/68] fix: a fulltext search can bind a value that is already
 known

---
 query-algebrizer/src/clauses/mod.rs | 10 ++++++----
 query-projector/src/translate.rs    | 12 +++++++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index e575ca0..86cca0c 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -457,10 +457,12 @@ impl ConjoiningClauses {
                     self.constrain_column_to_constant(table, column, bound_val);
                 }
 
-                Column::Fulltext(FulltextColumn::Rowid)
-                | Column::Fulltext(FulltextColumn::Text) => {
-                    // We never expose `rowid` via queries.  We do expose `text`, but only
-                    // indirectly, by joining against `datoms`.  Therefore, these are meaningless.
+                Column::Fulltext(FulltextColumn::Text) => {
+                    self.constrain_column_to_constant(table, column, bound_val);
+                }
+
+                Column::Fulltext(FulltextColumn::Rowid) => {
+                    // We never expose `rowid` via queries.  Therefore, this is meaningless.
                     unimplemented!()
                 }
 
diff --git a/query-projector/src/translate.rs b/query-projector/src/translate.rs
index 5c740d0..cf9bd3b 100644
--- a/query-projector/src/translate.rs
+++ b/query-projector/src/translate.rs
@@ -17,7 +17,7 @@ use mentat_core::util::Either;
 use edn::query::Limit;
 
 use mentat_query_algebrizer::{
-    AlgebraicQuery, ColumnAlternation, ColumnConstraint, ColumnConstraintOrAlternation,
+    AlgebraicQuery, Column, ColumnAlternation, ColumnConstraint, ColumnConstraintOrAlternation,
     ColumnIntersection, ColumnName, ComputedTable, ConjoiningClauses, DatomsColumn, DatomsTable,
     OrderBy, QualifiedAlias, QueryValue, SourceAlias, TableAlias, VariableColumn,
 };
@@ -130,6 +130,16 @@ impl ToConstraint for ColumnConstraint {
                 Constraint::equal(qa.to_column(), ColumnOrExpression::Entid(entid))
             }
 
+            // A column that is equated to a constant by `=` is replaced by that constant by SQLite,
+            // and only the column itself can be an argument of `MATCH`.
+            Equals(qa @ QualifiedAlias(_, Column::Fulltext(_)), QueryValue::TypedValue(tv)) => {
+                Constraint::Infix {
+                    op: Op("IS"),
+                    left: qa.to_column(),
+                    right: ColumnOrExpression::Value(tv),
+                }
+            }
+
             Equals(qa, QueryValue::TypedValue(tv)) => {
                 Constraint::equal(qa.to_column(), ColumnOrExpression::Value(tv))
             }
-- 
2.43.0


From 9e2403d8521067cbcd989a7b849fd51d7c7f7763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 47/68] fix: a query can be given fewer inputs than it names

---
 query-algebrizer/src/clauses/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 86cca0c..c8fee6d 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -8,8 +8,6 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::cmp;
-
 use std::collections::{BTreeMap, BTreeSet, VecDeque};
 
 use std::collections::btree_map::Entry;
@@ -89,8 +87,7 @@ impl<K: Clone + Ord, V: Clone> Intersection<K> for BTreeMap<K, V> {
             self.clear();
         }
 
-        let expected_remaining = cmp::max(0, self.len() - ks.len());
-        let mut to_remove = Vec::with_capacity(expected_remaining);
+        let mut to_remove = Vec::with_capacity(self.len().saturating_sub(ks.len()));
         for k in self.keys() {
             if !ks.contains(k) {
                 to_remove.push(k.clone())
-- 
2.43.0


From f265b13cee0b7a647d2977244b3b34a8d84b2100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 48/68] fix: a prepared query does not keep cached values

---
 src/conn.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conn.rs b/src/conn.rs
index 0067f2c..e7162e1 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -159,7 +159,8 @@ impl Conn {
         T: Into<Option<QueryInputs>>,
     {
         let metadata = self.metadata.lock().unwrap();
-        let known = Known::new(&*metadata.schema, Some(&metadata.attribute_cache));
+        // The prepared query outlives this call, and so can be run after the cached values change.
+        let known = Known::for_schema(&*metadata.schema);
         q_prepare(sqlite, known, query, inputs)
     }
 
-- 
2.43.0


From db65049303f68594865c661dfb1c37a53a2bdcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 49/68] fix: :db/noHistory is remembered as part of the schema

---
 db/src/entids.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/entids.rs b/db/src/entids.rs
index 6308926..3c07974 100644
--- a/db/src/entids.rs
+++ b/db/src/entids.rs
@@ -72,6 +72,7 @@ pub fn might_update_metadata(attribute: Entid) -> bool {
         DB_FULLTEXT |
         DB_INDEX |
         DB_IS_COMPONENT |
+        DB_NO_HISTORY |
         DB_UNIQUE |
         DB_VALUE_TYPE
     )
@@ -86,6 +87,7 @@ pub fn is_a_schema_attribute(attribute: Entid) -> bool {
             | DB_FULLTEXT
             | DB_INDEX
             | DB_IS_COMPONENT
+            | DB_NO_HISTORY
             | DB_UNIQUE
             | DB_VALUE_TYPE
     )
@@ -100,23 +102,25 @@ lazy_static! {
 
     /// Attributes that are "schema related".  These might change the "schema" materialized view.
     pub static ref SCHEMA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
 
     /// Attributes that are "metadata" related.  These might change one of the materialized views.
     pub static ref METADATA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_IDENT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
-- 
2.43.0


From a6a94587492e0384c62f6dfca91c71d7af3f4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 50/68] fix: a vocabulary version that cannot be read back is
 refused

---
 src/vocabulary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vocabulary.rs b/src/vocabulary.rs
index 782f78c..0bd58cb 100644
--- a/src/vocabulary.rs
+++ b/src/vocabulary.rs
@@ -536,6 +536,11 @@ pub trait VersionedStore: HasVocabularies + HasSchema {
         &self,
         definition: &'definition Definition,
     ) -> Result<VocabularyCheck<'definition>> {
+        // A version that couldn't be read back must not be written.
+        if definition.version == 0 || definition.version == u32::max_value() {
+            bail!(MentatError::InvalidVocabularyVersion);
+        }
+
         if let Some(vocabulary) = self.read_vocabulary_named(&definition.name)? {
             // The name is present.
             // Check the version.
-- 
2.43.0


From a5fbd2c878469ea9e5b895c9f0124a50e716e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 51/68] fix: a vocabulary can take in an attribute that exists
 already

---
 src/vocabulary.rs | 52 ++++++++++++++---------------------------------
 1 file changed, 15 insertions(+), 37 deletions(-)

diff --git a/src/vocabulary.rs b/src/vocabulary.rs
index 0bd58cb..50c5c8e 100644
--- a/src/vocabulary.rs
+++ b/src/vocabulary.rs
@@ -349,10 +349,9 @@ impl Definition {
         &'s self,
         attributes: &[R],
         via: &T,
-        diff: Option<BTreeMap<Keyword, Attribute>>,
     ) -> Result<Terms>
     where
-        T: HasCoreSchema,
+        T: HasSchema,
         R: ::std::borrow::Borrow<(Keyword, Attribute)>,
     {
         // The attributes we'll need to describe this vocabulary.
@@ -407,11 +406,16 @@ impl Definition {
             // These are all unconditional because we use attribute descriptions to _alter_, not
             // just to _add_, and so absence is distinct from negation!
             builder.add(tempid.clone(), a_index, TypedValue::Boolean(attr.index))?;
-            builder.add(
-                tempid.clone(),
-                a_fulltext,
-                TypedValue::Boolean(attr.fulltext),
-            )?;
+            // … except that `:db/fulltext` can't be altered, so we don't mention it if it already has
+            // the right value, perhaps only by default.
+            let existing = via.attribute_for_ident(kw).map(|(a, _)| a);
+            if existing.map(|a| a.fulltext) != Some(attr.fulltext) {
+                builder.add(
+                    tempid.clone(),
+                    a_fulltext,
+                    TypedValue::Boolean(attr.fulltext),
+                )?;
+            }
             builder.add(
                 tempid.clone(),
                 a_is_component,
@@ -430,12 +434,7 @@ impl Definition {
                 };
                 builder.add(tempid.clone(), a_unique, uu)?;
             } else {
-                let existing_unique = if let Some(ref diff) = diff {
-                    diff.get(kw).and_then(|a| a.unique)
-                } else {
-                    None
-                };
-                match existing_unique {
+                match existing.and_then(|a| a.unique) {
                     None => {
                         // Nothing to do.
                     }
@@ -452,33 +451,12 @@ impl Definition {
         builder.build().map_err(|e| e)
     }
 
-    /// Return a sequence of terms that describes this vocabulary definition and its attributes.
-    fn description_diff<T>(&self, via: &T, from: &Vocabulary) -> Result<Terms>
-    where
-        T: HasSchema,
-    {
-        let relevant = self
-            .attributes
-            .iter()
-            .filter_map(|&(ref keyword, _)|
-                               // Look up the keyword to see if it's currently in use.
-                               via.get_entid(keyword)
-
-                               // If so, map it to the existing attribute.
-                                  .and_then(|e| from.find(e).cloned())
-
-                               // Collect enough that we can do lookups.
-                                  .map(|e| (keyword.clone(), e)))
-            .collect();
-        self.description_for_attributes(self.attributes.as_slice(), via, Some(relevant))
-    }
-
     /// Return a sequence of terms that describes this vocabulary definition and its attributes.
     fn description<T>(&self, via: &T) -> Result<Terms>
     where
         T: HasSchema,
     {
-        self.description_for_attributes(self.attributes.as_slice(), via, None)
+        self.description_for_attributes(self.attributes.as_slice(), via)
     }
 }
 
@@ -864,7 +842,7 @@ impl<'a, 'c> VocabularyMechanics for InProgress<'a, 'c> {
         definition: &'definition Definition,
         attributes: Vec<&'definition (Keyword, Attribute)>,
     ) -> Result<VocabularyOutcome> {
-        let (terms, _tempids) = definition.description_for_attributes(&attributes, self, None)?;
+        let (terms, _tempids) = definition.description_for_attributes(&attributes, self)?;
         self.transact_entities(terms)?;
         Ok(VocabularyOutcome::InstalledMissingAttributes)
     }
@@ -884,7 +862,7 @@ impl<'a, 'c> VocabularyMechanics for InProgress<'a, 'c> {
 
         // TODO: don't do work for attributes that are unchanged. Here we rely on the transactor
         // to elide duplicate datoms.
-        let (terms, _tempids) = definition.description_diff(self, &from_version)?;
+        let (terms, _tempids) = definition.description(self)?;
         self.transact_entities(terms)?;
 
         definition.post(self, &from_version)?;
-- 
2.43.0


From 559c4bf0a72badbb4d0e7912f1402751fd399e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 52/68] fix: a store catches up with what other connections
 have written

Two stores open on the same file each kept the partition map and schema they
had read when they were opened, and so the second to write reused entity and
transaction ids, and reads used a stale schema and stale cached values.
---
 db/src/db.rs | 17 ++++++++++++++++-
 src/conn.rs  | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index a6f57b0..4e87aa8 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -510,6 +510,21 @@ pub(crate) fn read_materialized_view(
     m
 }
 
+/// Return the id of the last transaction in the store, if there is one.
+pub fn read_last_tx_id(
+    conn: &rusqlite::Connection,
+    tx_partition: &Partition,
+) -> Result<Option<Entid>> {
+    // Every transaction has a `:db/txInstant`, and so this needs no more than a look at an index.
+    let mut stmt =
+        conn.prepare_cached("SELECT MAX(e) FROM datoms WHERE a = ? AND e BETWEEN ? AND ?")?;
+    let last = stmt.query_row(
+        &[&entids::DB_TX_INSTANT, &tx_partition.start, &tx_partition.end],
+        |row| row.get(0),
+    )?;
+    Ok(last)
+}
+
 /// Read the partition map materialized view from the given SQL store.
 pub fn read_partition_map(conn: &rusqlite::Connection) -> Result<PartitionMap> {
     // An obviously expensive query, but we use it infrequently:
@@ -601,7 +616,7 @@ pub(crate) fn read_attribute_map(conn: &rusqlite::Connection) -> Result<Attribut
 
 /// Read the materialized views from the given SQL store and return a Mentat `DB` for querying and
 /// applying transactions.
-pub(crate) fn read_db(conn: &rusqlite::Connection) -> Result<DB> {
+pub fn read_db(conn: &rusqlite::Connection) -> Result<DB> {
     let partition_map = read_partition_map(conn)?;
     let ident_map = read_ident_map(conn)?;
     let attribute_map = read_attribute_map(conn)?;
diff --git a/src/conn.rs b/src/conn.rs
index e7162e1..8288494 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -20,7 +20,7 @@ use rusqlite::TransactionBehavior;
 
 pub use core_traits::{Attribute, Entid, KnownEntid, StructuredMap, TypedValue, ValueType};
 
-use mentat_core::{HasSchema, Keyword, Schema, TxReport, ValueRc};
+use mentat_core::{CachedAttributes, HasSchema, Keyword, Schema, TxReport, ValueRc};
 
 use mentat_db::cache::{InProgressSQLiteAttributeCache, SQLiteAttributeCache};
 
@@ -229,6 +229,36 @@ impl Conn {
         lookup_value_for_attribute(sqlite, known, entity, attribute)
     }
 
+    /// If the store has been written to other than through this `Conn` since we last looked, then
+    /// our metadata is out of date. Using it would at best yield stale results, and at worst reuse
+    /// the ids that were allocated in the meantime.
+    fn catch_up(&self, sqlite: &rusqlite::Connection) -> Result<()> {
+        let mut metadata = self.metadata.lock().unwrap();
+
+        let tx_partition = &metadata.partition_map[":db.part/tx"];
+        match db::read_last_tx_id(sqlite, tx_partition)? {
+            Some(tx) if tx != tx_partition.next_entid() - 1 => {}
+            _ => return Ok(()),
+        }
+
+        let db = db::read_db(sqlite)?;
+        let mut cache = SQLiteAttributeCache::default();
+        for &attribute in db.schema.attribute_map.keys() {
+            if metadata.attribute_cache.is_attribute_cached_forward(attribute) {
+                cache.register_forward(&db.schema, sqlite, attribute)?;
+            }
+            if metadata.attribute_cache.is_attribute_cached_reverse(attribute) {
+                cache.register_reverse(&db.schema, sqlite, attribute)?;
+            }
+        }
+
+        metadata.generation += 1;
+        metadata.partition_map = db.partition_map;
+        metadata.schema = Arc::new(db.schema);
+        metadata.attribute_cache = cache;
+        Ok(())
+    }
+
     /// Take a SQLite transaction.
     fn begin_transaction_with_behavior<'m, 'conn>(
         &'m mut self,
@@ -236,6 +266,7 @@ impl Conn {
         behavior: TransactionBehavior,
     ) -> Result<InProgress<'m, 'conn>> {
         let tx = sqlite.transaction_with_behavior(behavior)?;
+        self.catch_up(&tx)?;
         let (current_generation, current_partition_map, current_schema, cache_cow) = {
             // The mutex is taken during this block.
             let current: &Metadata = &(*self.metadata.lock().unwrap());
-- 
2.43.0


From 6547de813f5535825727a79be72679ed9b5f84f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 53/68] fix: two connections may create the same store at once

The second of them found no store, waited for the first to create it, and then
failed to create the tables again.
---
 db/src/db.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 4e87aa8..58a21cd 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -389,7 +389,11 @@ pub fn ensure_current_version(conn: &mut rusqlite::Connection) -> Result<DB> {
 
     let user_version = get_user_version(&conn)?;
     match user_version {
-        0 => create_current_version(conn),
+        0 => match create_current_version(conn) {
+            // Another connection created the store before we could.
+            Err(_) if get_user_version(&conn)? == CURRENT_VERSION => read_db(conn),
+            result => result,
+        },
         CURRENT_VERSION => read_db(conn),
 
         // TODO: support updating an existing store.
-- 
2.43.0


From 8b1afa216ee66fd6dffeb15fc7336bc129d02f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 54/68] fix: fulltext values can be synced

The log has their rowids, which the reader of transactions to be uploaded or
merged took for the values.
---
 tolstoy/src/tx_processor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tolstoy/src/tx_processor.rs b/tolstoy/src/tx_processor.rs
index f4fd5ff..aa3cc46 100644
--- a/tolstoy/src/tx_processor.rs
+++ b/tolstoy/src/tx_processor.rs
@@ -129,7 +129,13 @@ impl Processor {
             None => "WHERE timeline = 0".to_string(),
         };
         let select_query = format!(
-            "SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions {} ORDER BY tx",
+            // Fulltext values are logged as rowids of `fulltext_values`.
+            "SELECT e, a,
+                CASE WHEN value_type_tag = 10 AND typeof(v) = 'integer'
+                    THEN (SELECT text FROM fulltext_values WHERE rowid = v)
+                    ELSE v END,
+                value_type_tag, tx, added
+             FROM timelined_transactions {} ORDER BY tx",
             tx_filter
         );
         let mut stmt = sqlite.prepare(&select_query)?;
-- 
2.43.0


From 4810e72fb60cd744ad294f945b0a8449f91e9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 55/68] fix: entity ids are not handed out again after a
 fast-forward

Every incoming transaction set the partitions to what it alone needs, so that
the next new entity got an id that some other entity had.
---
 tolstoy/src/syncer.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 4ad34e9..6961d1e 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -351,7 +351,19 @@ impl Syncer {
             Syncer::rewind_tx_partition_by_one(&mut partition_map)?;
             Syncer::remote_parts_to_builder(&mut builder, tx.parts)?;
 
-            // Allocate space for the incoming entids.
+            // Allocate space for the incoming entids. The incoming partitions only make room for the
+            // entids of this very transaction: keep what is allocated already.
+            for (name, partition) in partition_map.iter_mut() {
+                match in_progress.partition_map.get(name) {
+                    Some(current)
+                        if name != ":db.part/tx"
+                            && partition.next_entid() < current.next_entid() =>
+                    {
+                        partition.set_next_entid(current.next_entid());
+                    }
+                    _ => {}
+                }
+            }
             in_progress.partition_map = partition_map;
             let report = in_progress.transact_builder(builder)?;
             last_tx = Some((report.tx_id, tx.tx));
-- 
2.43.0


From 080aa238a475d29b2f905a3c33e45a13e6d9298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 56/68] fix: transactions mentioning a new entity only as a
 value can be synced

No room was made for its id, and so no other store could ever apply the
transaction.
---
 tolstoy/src/tx_uploader.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tolstoy/src/tx_uploader.rs b/tolstoy/src/tx_uploader.rs
index d33e352..3cc421e 100644
--- a/tolstoy/src/tx_uploader.rs
+++ b/tolstoy/src/tx_uploader.rs
@@ -9,10 +9,11 @@
 // specific language governing permissions and limitations under the License.
 
 use std::collections::HashMap;
+use std::iter;
 
 use uuid::Uuid;
 
-use core_traits::Entid;
+use core_traits::{Entid, TypedValue};
 
 use mentat_db::{PartitionMap, V1_PARTS};
 
@@ -104,8 +105,15 @@ impl<'c> TxReceiver<UploaderReport> for TxUploader<'c> {
 
         // TODO this should live within a transaction, once server support is in place.
         // For now, we're uploading the PartitionMap in transaction's first chunk.
+        // An entity might only ever be mentioned as a value.
         datoms[0].partitions = Some(allocate_partition_map_for_entids(
-            datoms.iter().map(|d| d.e),
+            datoms.iter().flat_map(|d| {
+                let referred = match d.v {
+                    TypedValue::Ref(v) => Some(v),
+                    _ => None,
+                };
+                iter::once(d.e).chain(referred)
+            }),
             &self.local_partitions,
         ));
 
-- 
2.43.0


From eb9e93c70fe902ad8441882d555ec9dfa6e565d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:05 +0000
Subject: [PATCH 57/68] fix: rebased transactions refer to the entities as
 they're called after a merge

References to entities allocated by local transactions were left as they were,
and so meant some other entity, or none, in which case the store could never
sync again.
---
 tolstoy/src/syncer.rs | 54 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 6961d1e..15ef302 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -10,13 +10,13 @@
 
 use std::fmt;
 
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 
 use uuid::Uuid;
 
 use core_traits::{Entid, KnownEntid, TypedValue};
 
-use edn::entities::{EntityPlace, LookupRef, TxFunction};
+use edn::entities::{EntityPlace, LookupRef, TxFunction, ValuePlace};
 use edn::PlainSymbol;
 use mentat_db::{entids, timelines, PartitionMap, CORE_SCHEMA_VERSION};
 use mentat_transaction::{InProgress, Queryable, TermBuilder};
@@ -405,6 +405,11 @@ impl Syncer {
         };
         ip.partition_map = new_partition_map;
 
+        // Local transactions allocated entids from here on. These mean something else, or nothing
+        // at all, to remote: once rebased, the same entities are called something else.
+        let user_part = ip.partition_map[":db.part/user"].clone();
+        let mut rebased_entids: HashMap<Entid, Entid> = HashMap::new();
+
         // 2) Transact incoming.
         // 2.1) Prepare remote tx tuples (TermBuilder, PartitionMap, Uuid), which represent
         // a remote transaction, its global identifier and partitions after it's applied.
@@ -547,19 +552,31 @@ impl Syncer {
                 }
 
                 let e: EntityPlace<TypedValue>;
-                let a = KnownEntid(part.a);
-                let v = part.v;
-
+                let a = KnownEntid(*rebased_entids.get(&part.a).unwrap_or(&part.a));
+
+                // References to entities which local transactions allocated are rewritten, too.
+                let v: ValuePlace<TypedValue> = match part.v {
+                    TypedValue::Ref(r) => match rebased_entids.get(&r) {
+                        Some(rebased) => KnownEntid(*rebased).into(),
+                        None if user_part.allows_entid(r) && r >= user_part.next_entid() => {
+                            builder.named_tempid(format!("{}", r)).into()
+                        }
+                        None => TypedValue::Ref(r).into(),
+                    },
+                    ref v => v.clone().into(),
+                };
+
+                // This entity was allocated by a local transaction that is rebased already.
+                if let Some(rebased) = rebased_entids.get(&part.e) {
+                    e = KnownEntid(*rebased).into();
                 // Rewrite entids if they will allocate (see entity merging notes above).
-                if entids_that_will_allocate.contains(&part.e) {
+                } else if entids_that_will_allocate.contains(&part.e) {
                     e = builder.named_tempid(format!("{}", part.e)).into();
                 // Otherwise, refer to existing entities.
                 } else {
                     e = KnownEntid(part.e).into();
                 }
 
-                // TODO we need to do the same rewriting for part.v if it's a Ref.
-
                 // N.b.: attribute can't refer to an unallocated entity, so it's always a KnownEntid.
                 // To illustrate, this is not a valid transaction, and will fail ("no entid found for ident: :person/name"):
                 // [
@@ -572,13 +589,13 @@ impl Syncer {
                 match part.added {
                     true => builder.add(e, a, v)?,
                     false => {
-                        if entids_that_will_allocate.contains(&part.e) {
+                        if entids_that_will_allocate.contains(&part.e)
+                            || rebased_entids.contains_key(&part.e)
+                        {
                             builder.retract(e, a, v)?;
                             continue;
                         }
 
-                        // TODO handle tempids in ValuePlace, as well.
-
                         // Retractions with non-upserting tempids are not currently supported.
                         // We work around this by using a lookup-ref instead of the entity tempid.
                         // However:
@@ -588,7 +605,7 @@ impl Syncer {
                         // - we skip retractions of non-unique attributes,
                         // - we "pre-run" a lookup-ref to ensure it will resolve,
                         //   and skip the retraction otherwise.
-                        match ip.schema.attribute_map.get(&part.a) {
+                        match ip.schema.attribute_map.get(&a.0) {
                             Some(attributes) => {
                                 // A lookup-ref using a non-unique attribute will fail.
                                 // Skip this retraction, since we can't make sense of it.
@@ -606,7 +623,7 @@ impl Syncer {
                             "[:find ?e . :in ?a ?v :where [?e ?a ?v]]",
                             QueryInputs::with_value_sequence(vec![
                                 (Variable::from_valid_name("?a"), a.into()),
-                                (Variable::from_valid_name("?v"), v.clone()),
+                                (Variable::from_valid_name("?v"), part.v.clone()),
                             ]),
                         )?;
 
@@ -619,7 +636,7 @@ impl Syncer {
                         builder.retract(
                             EntityPlace::LookupRef(LookupRef {
                                 a: a.into(),
-                                v: v.clone(),
+                                v: part.v.clone(),
                             }),
                             a,
                             v,
@@ -643,6 +660,15 @@ impl Syncer {
 
             let report = ip.transact_builder(builder)?;
 
+            for (name, entid) in &report.tempids {
+                match name.parse() {
+                    Ok(local) if user_part.allows_entid(local) && local >= user_part.next_entid() => {
+                        rebased_entids.insert(local, *entid);
+                    }
+                    _ => {}
+                }
+            }
+
             // Let's check that we didn't modify any schema attributes.
             // Our current attribute map in the schema isn't rich enough to allow
             // for this check: it's missing a notion of "attribute absence" - we can't
-- 
2.43.0


From e1b483f89c550557af201fc859295d2f100f40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:56 +0000
Subject: [PATCH 58/68] fix: queries with named sources or big integers in
 patterns are refused instead of panicking

---
 query-algebrizer/src/clauses/convert.rs |  4 ++-
 query-algebrizer/src/lib.rs             |  4 +++
 query-algebrizer/src/validate.rs        | 38 ++++++++++++++++++++++++-
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 8db5d10..5fbe6ed 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -206,7 +206,9 @@ impl ConjoiningClauses {
             }
 
             // This isn't implemented yet.
-            FnArg::Constant(NonIntegerConstant::BigInteger(_)) => unimplemented!(),
+            FnArg::Constant(NonIntegerConstant::BigInteger(_)) => {
+                bail!(AlgebrizerError::UnsupportedArgument)
+            }
 
             // These don't make sense here.
             FnArg::Vector(_) | FnArg::SrcVar(_) => bail!(AlgebrizerError::InvalidGroundConstant),
diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 8a6ba56..de21313 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -38,6 +38,8 @@ pub use crate::clauses::{QueryInputs, VariableBindings};
 
 pub use crate::types::{EmptyBecause, FindQuery};
 
+use crate::validate::validate_patterns;
+
 /// A convenience wrapper around things known in memory: the schema and caches.
 /// We use a trait object here to avoid making dozens of functions generic over the type
 /// of the cache. If performance becomes a concern, we should hard-code specific kinds of
@@ -322,6 +324,8 @@ pub fn algebrize_with_inputs(
         cc.constrain_var_to_long(var.clone());
     }
 
+    validate_patterns(&parsed.where_clauses)?;
+
     // TODO: integrate default source into pattern processing.
     // TODO: flesh out the rest of find-into-context.
     cc.apply_clauses(known, parsed.where_clauses)?;
diff --git a/query-algebrizer/src/validate.rs b/query-algebrizer/src/validate.rs
index 58e0ad6..2f39242 100644
--- a/query-algebrizer/src/validate.rs
+++ b/query-algebrizer/src/validate.rs
@@ -10,7 +10,10 @@
 
 use std::collections::BTreeSet;
 
-use edn::query::{ContainsVariables, NotJoin, OrJoin, UnifyVars, Variable};
+use edn::query::{
+    ContainsVariables, NonIntegerConstant, NotJoin, OrJoin, OrWhereClause, Pattern,
+    PatternValuePlace, SrcVar, UnifyVars, Variable, WhereClause,
+};
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
@@ -81,6 +84,39 @@ pub(crate) fn validate_not_join(not_join: &NotJoin) -> Result<()> {
     }
 }
 
+fn validate_pattern(pattern: &Pattern) -> Result<()> {
+    // For now we only support the default source.
+    match pattern.source {
+        None | Some(SrcVar::DefaultSrc) => (),
+        Some(SrcVar::NamedSrc(_)) => bail!(AlgebrizerError::UnsupportedArgument),
+    }
+    // TODO(gburd): #280.
+    if let PatternValuePlace::Constant(NonIntegerConstant::BigInteger(_)) = pattern.value {
+        bail!(AlgebrizerError::UnsupportedArgument)
+    }
+    Ok(())
+}
+
+/// Refuse, wherever they are, the patterns that we can parse but don't support.
+pub(crate) fn validate_patterns(clauses: &[WhereClause]) -> Result<()> {
+    for clause in clauses {
+        match clause {
+            WhereClause::Pattern(p) => validate_pattern(p)?,
+            WhereClause::NotJoin(n) => validate_patterns(&n.clauses)?,
+            WhereClause::OrJoin(o) => {
+                for leg in &o.clauses {
+                    match leg {
+                        OrWhereClause::Clause(c) => validate_patterns(std::slice::from_ref(c))?,
+                        OrWhereClause::And(cs) => validate_patterns(cs)?,
+                    }
+                }
+            }
+            _ => (),
+        }
+    }
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     extern crate edn;
-- 
2.43.0


From c9d8398abd32498c82436d75683a62b99b67b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 59/68] fix: value_at_index and row_at_index return null past
 the end, and for negative indices

---
 ffi/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 61ebd65..173c93e 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -1845,6 +1845,9 @@ pub unsafe extern "C" fn row_at_index(
     index: c_int,
 ) -> *mut Vec<Binding> {
     assert_not_null!(rows);
+    if index < 0 {
+        return std::ptr::null_mut();
+    }
     let result = &*rows;
     result
         .row(index as usize)
@@ -1931,7 +1934,7 @@ pub unsafe extern "C" fn typed_value_list_iter_next(iter: *mut BindingIterator)
 pub unsafe extern "C" fn value_at_index(values: *mut Vec<Binding>, index: c_int) -> *mut Binding {
     assert_not_null!(values);
     let values = &*values;
-    if index < 0 || (index as usize) > values.len() {
+    if index < 0 || (index as usize) >= values.len() {
         std::ptr::null_mut()
     } else {
         // TODO: an older version of this function returned a reference into values. This
-- 
2.43.0


From b9dc94b2e812c42ffec9d6bbaf2c0b27a4d4da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 60/68] fix: .sync with one argument is refused instead of
 panicking

---
 tools/cli/src/mentat_cli/command_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli/src/mentat_cli/command_parser.rs b/tools/cli/src/mentat_cli/command_parser.rs
index 0e6489a..3dfabc1 100644
--- a/tools/cli/src/mentat_cli/command_parser.rs
+++ b/tools/cli/src/mentat_cli/command_parser.rs
@@ -257,7 +257,7 @@ pub fn command(s: &str) -> Result<Command, Error> {
         .with(spaces())
         .with(arguments())
         .map(|args| {
-            if args.is_empty() {
+            if args.len() < 2 {
                 bail!(CliError::CommandParse(
                     "Missing required argument".to_string()
                 ));
-- 
2.43.0


From 2be1042953b01e1c1976491ffd115db4052381d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 61/68] fix: .timer off is understood

---
 tools/cli/src/mentat_cli/command_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli/src/mentat_cli/command_parser.rs b/tools/cli/src/mentat_cli/command_parser.rs
index 3dfabc1..25b3035 100644
--- a/tools/cli/src/mentat_cli/command_parser.rs
+++ b/tools/cli/src/mentat_cli/command_parser.rs
@@ -273,7 +273,7 @@ pub fn command(s: &str) -> Result<Command, Error> {
 
     let timer_parser = string(COMMAND_TIMER_LONG)
         .with(spaces())
-        .with(string("on").map(|_| true).or(string("off").map(|_| false)))
+        .with(attempt(string("on")).map(|_| true).or(string("off").map(|_| false)))
         .map(|args| Ok(Command::Timer(args)));
 
     let transact_parser = attempt(string(COMMAND_TRANSACT_LONG))
-- 
2.43.0


From 8b0aa94fc8fd4bbf53d638b434d2cb41b7681548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 62/68] fix: the REPL's commands end where their names and
 arguments end

---
 tools/cli/src/mentat_cli/command_parser.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tools/cli/src/mentat_cli/command_parser.rs b/tools/cli/src/mentat_cli/command_parser.rs
index 25b3035..8f5c394 100644
--- a/tools/cli/src/mentat_cli/command_parser.rs
+++ b/tools/cli/src/mentat_cli/command_parser.rs
@@ -160,9 +160,12 @@ pub fn command(s: &str) -> Result<Command, Error> {
 
     let no_arg_parser = || arguments().skip(spaces()).skip(eof());
 
+    // A command ends where its name ends: `.openx y` isn't `.open`.
+    let gap = || look_ahead(eof().or(space().map(|_| ()))).with(spaces());
+
     let opener = |command, num_args| {
         string(command)
-            .with(spaces())
+            .with(gap())
             .with(arguments())
             .map(move |args| {
                 if args.len() < num_args {
@@ -181,10 +184,12 @@ pub fn command(s: &str) -> Result<Command, Error> {
     };
 
     // Commands.
-    let cache_parser = string(COMMAND_CACHE).with(spaces()).with(
+    let cache_parser = string(COMMAND_CACHE).with(gap()).with(
         argument()
             .skip(spaces())
             .and(direction_parser())
+            .skip(spaces())
+            .skip(eof())
             .map(|(arg, direction)| Ok(Command::Cache(arg, direction))),
     );
 
@@ -217,14 +222,16 @@ pub fn command(s: &str) -> Result<Command, Error> {
         .map(|x| Ok(Command::QueryExplain(x)));
 
     let help_parser = string(COMMAND_HELP)
-        .with(spaces())
+        .with(gap())
         .with(arguments())
         .map(|args| Ok(Command::Help(args)));
 
     let import_parser = attempt(string(COMMAND_IMPORT_LONG))
         .or(attempt(string(COMMAND_IMPORT_SHORT)))
-        .with(spaces())
+        .with(gap())
         .with(path())
+        .skip(spaces())
+        .skip(eof())
         .map(|x| Ok(Command::Import(x)));
 
     let open_parser =
@@ -254,7 +261,7 @@ pub fn command(s: &str) -> Result<Command, Error> {
     });
 
     let sync_parser = string(COMMAND_SYNC)
-        .with(spaces())
+        .with(gap())
         .with(arguments())
         .map(|args| {
             if args.len() < 2 {
@@ -272,8 +279,10 @@ pub fn command(s: &str) -> Result<Command, Error> {
         });
 
     let timer_parser = string(COMMAND_TIMER_LONG)
-        .with(spaces())
+        .with(gap())
         .with(attempt(string("on")).map(|_| true).or(string("off").map(|_| false)))
+        .skip(spaces())
+        .skip(eof())
         .map(|args| Ok(Command::Timer(args)));
 
     let transact_parser = attempt(string(COMMAND_TRANSACT_LONG))
-- 
2.43.0


From a30bdcbc383fd65750c2f5551009afae61e3a0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:28 +0000
Subject: [PATCH 63/68] fix: the REPL separates the entries of a map

---
 tools/cli/src/mentat_cli/repl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli/src/mentat_cli/repl.rs b/tools/cli/src/mentat_cli/repl.rs
index 885d53b..0fa10d2 100644
--- a/tools/cli/src/mentat_cli/repl.rs
+++ b/tools/cli/src/mentat_cli/repl.rs
@@ -586,8 +586,8 @@ impl Repl {
         for (k, v) in value.0.iter() {
             if !first {
                 out.push_str(", ");
-                first = true;
             }
+            first = false;
             out.push_str(&k.to_string());
             out.push(' ');
             out.push_str(self.binding_as_string(v).as_str());
-- 
2.43.0


From 66f179c6789d72d31fce6270ceaaf69e04ac75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:28 +0000
Subject: [PATCH 64/68] fix: long startup options are followed, and queries
 come after transacts and imports

---
 tools/cli/src/mentat_cli/lib.rs | 59 ++++++++++++++-------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/tools/cli/src/mentat_cli/lib.rs b/tools/cli/src/mentat_cli/lib.rs
index be5d811..c2da6a7 100644
--- a/tools/cli/src/mentat_cli/lib.rs
+++ b/tools/cli/src/mentat_cli/lib.rs
@@ -129,40 +129,31 @@ pub fn run() -> i32 {
         false => None,
     };
 
-    let mut last_arg: Option<&str> = None;
-
-    let cmds: Vec<command_parser::Command> = args
-        .iter()
-        .filter_map(|arg| match last_arg {
-            Some("-d") => {
-                last_arg = None;
-                if let Some(ref k) = key {
-                    Some(command_parser::Command::OpenEncrypted(
-                        arg.clone(),
-                        k.clone(),
-                    ))
-                } else {
-                    Some(command_parser::Command::Open(arg.clone()))
-                }
-            }
-            Some("-q") => {
-                last_arg = None;
-                Some(command_parser::Command::Query(arg.clone()))
-            }
-            Some("-i") => {
-                last_arg = None;
-                Some(command_parser::Command::Import(arg.clone()))
-            }
-            Some("-t") => {
-                last_arg = None;
-                Some(command_parser::Command::Transact(arg.clone()))
-            }
-            Some(_) | None => {
-                last_arg = Some(&arg);
-                None
-            }
-        })
-        .collect();
+    // The database is opened first, queries come last.
+    let mut cmds = Vec::new();
+    if let Some(path) = matches.opt_str("d") {
+        cmds.push(match key {
+            Some(ref k) => command_parser::Command::OpenEncrypted(path, k.clone()),
+            None => command_parser::Command::Open(path),
+        });
+    }
+    let transacts = matches
+        .opt_strs_pos("t")
+        .into_iter()
+        .map(|(pos, arg)| (pos, command_parser::Command::Transact(arg)));
+    let imports = matches
+        .opt_strs_pos("i")
+        .into_iter()
+        .map(|(pos, arg)| (pos, command_parser::Command::Import(arg)));
+    let mut writes: Vec<_> = transacts.chain(imports).collect();
+    writes.sort_by_key(|&(pos, _)| pos);
+    cmds.extend(writes.into_iter().map(|(_, command)| command));
+    cmds.extend(
+        matches
+            .opt_strs("q")
+            .into_iter()
+            .map(command_parser::Command::Query),
+    );
 
     let mut repl = match repl::Repl::new(!matches.opt_present("no-tty")) {
         Ok(repl) => repl,
-- 
2.43.0


From 3646ddefeccec6bf7098f5a30a5b58ceb0390b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 65/68] fix: network requests run where Tokio's reactor is
 running, and their errors are returned

---
 tolstoy/src/remote_client.rs | 49 +++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/tolstoy/src/remote_client.rs b/tolstoy/src/remote_client.rs
index 9c62071..254ca01 100644
--- a/tolstoy/src/remote_client.rs
+++ b/tolstoy/src/remote_client.rs
@@ -14,7 +14,8 @@ use hyper::{body, header, Body, Client, Method, Request, StatusCode};
 use hyper_tls::HttpsConnector;
 // TODO: https://github.com/mozilla/mentat/issues/570
 // use serde_cbor;
-use futures::executor::block_on;
+use std::future::Future;
+use tokio::runtime;
 use uuid::Uuid;
 
 use crate::logger::d;
@@ -48,6 +49,18 @@ struct SerializedTransactions {
     transactions: Vec<Uuid>,
 }
 
+/// Do some network work on this thread. Hyper needs Tokio's reactor to be running.
+fn block_on<T, F>(work: F) -> Result<T>
+where
+    F: Future<Output = Result<T>>,
+{
+    runtime::Builder::new()
+        .basic_scheduler()
+        .enable_all()
+        .build()?
+        .block_on(work)
+}
+
 pub struct RemoteClient {
     base_uri: String,
     user_uuid: Uuid,
@@ -81,12 +94,12 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let body_bytes = body::to_bytes(res.into_body()).await?;
+            let body = String::from_utf8(body_bytes.to_vec())
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;
             let json: SerializedHead = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             Ok(json.head)
@@ -111,7 +124,7 @@ impl RemoteClient {
             .unwrap();
 
         let work = async {
-            let res = client.request(req).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let res = client.request(req).await?;
             let status_code = res.status();
 
             if status_code != expected {
@@ -138,12 +151,12 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let body_bytes = body::to_bytes(res.into_body()).await?;
+            let body = String::from_utf8(body_bytes.to_vec())
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;
             let json: SerializedTransactions = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             d(&format!("got transactions: {:?}", &json.transactions));
@@ -168,12 +181,12 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let body_bytes = body::to_bytes(res.into_body()).await?;
+            let body = String::from_utf8(body_bytes.to_vec())
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;
             let json: DeserializableTransaction = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
 
@@ -195,12 +208,12 @@ impl RemoteClient {
         d(&format!("GET {:?}", uri));
 
         let work = async {
-            let res = client.get(uri).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
+            let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
 
-            let body_bytes = body::to_bytes(res.into_body()).await.unwrap(); // TODO use '?' fix From hyper::Error to MentatError;
-            let body =
-                String::from_utf8(body_bytes.to_vec()).expect("response was not valid utf-8");
+            let body_bytes = body::to_bytes(res.into_body()).await?;
+            let body = String::from_utf8(body_bytes.to_vec())
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;
             let json: TxPart = serde_json::from_str(&body)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             d(&format!("got transaction chunk: {:?}", &json));
-- 
2.43.0


From 2b23c4795a9f4bc2c8279e8cc12e64a3fecbc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:26 +0000
Subject: [PATCH 66/68] fix: a request the server refuses is an error

---
 tolstoy/src/remote_client.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/tolstoy/src/remote_client.rs b/tolstoy/src/remote_client.rs
index 254ca01..5124db3 100644
--- a/tolstoy/src/remote_client.rs
+++ b/tolstoy/src/remote_client.rs
@@ -61,6 +61,19 @@ where
         .block_on(work)
 }
 
+/// Whatever the server didn't do as asked mustn't be taken for done.
+fn expect_status(status: StatusCode, expected: StatusCode) -> Result<()> {
+    if status != expected {
+        d(&format!("bad response: {:?}", status));
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::Other,
+            format!("bad response: expected {}, got {}", expected, status),
+        )
+        .into());
+    }
+    Ok(())
+}
+
 pub struct RemoteClient {
     base_uri: String,
     user_uuid: Uuid,
@@ -96,6 +109,7 @@ impl RemoteClient {
         let work = async {
             let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
+            expect_status(res.status(), StatusCode::OK)?;
 
             let body_bytes = body::to_bytes(res.into_body()).await?;
             let body = String::from_utf8(body_bytes.to_vec())
@@ -125,12 +139,7 @@ impl RemoteClient {
 
         let work = async {
             let res = client.request(req).await?;
-            let status_code = res.status();
-
-            if status_code != expected {
-                d(&format!("bad put response: {:?}", status_code));
-            }
-            Ok(())
+            expect_status(res.status(), expected)
         };
         block_on(work)
     }
@@ -153,6 +162,7 @@ impl RemoteClient {
         let work = async {
             let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
+            expect_status(res.status(), StatusCode::OK)?;
 
             let body_bytes = body::to_bytes(res.into_body()).await?;
             let body = String::from_utf8(body_bytes.to_vec())
@@ -183,6 +193,7 @@ impl RemoteClient {
         let work = async {
             let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
+            expect_status(res.status(), StatusCode::OK)?;
 
             let body_bytes = body::to_bytes(res.into_body()).await?;
             let body = String::from_utf8(body_bytes.to_vec())
@@ -210,6 +221,7 @@ impl RemoteClient {
         let work = async {
             let res = client.get(uri).await?;
             dbg!("response.status: {}", res.status());
+            expect_status(res.status(), StatusCode::OK)?;
 
             let body_bytes = body::to_bytes(res.into_body()).await?;
             let body = String::from_utf8(body_bytes.to_vec())
-- 
2.43.0


From 6262e58c316e6e817f0e1c426368dea308138694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:19 +0000
Subject: [PATCH 67/68] fix: .open_encrypted isn't taken for done when the
 database is already open

---
 tools/cli/src/mentat_cli/repl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli/src/mentat_cli/repl.rs b/tools/cli/src/mentat_cli/repl.rs
index 0fa10d2..d21b1bd 100644
--- a/tools/cli/src/mentat_cli/repl.rs
+++ b/tools/cli/src/mentat_cli/repl.rs
@@ -372,7 +372,7 @@ impl Repl {
         path: String,
         encryption_key: Option<&str>,
     ) -> ::mentat::errors::Result<()> {
-        if self.path.is_empty() || path != self.path {
+        if self.path.is_empty() || path != self.path || encryption_key.is_some() {
             let next = match encryption_key {
                 #[cfg(not(feature = "sqlcipher"))]
                 Some(_) => {
-- 
2.43.0


From 0bbe41cb83483185a1c690df7dc51e67bab80039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 68/68] fix: keywords are deserialized from escaped strings,
 too

---
 edn/src/namespaceable_name.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/edn/src/namespaceable_name.rs b/edn/src/namespaceable_name.rs
index 7ca2111..3e0627b 100644
--- a/edn/src/namespaceable_name.rs
+++ b/edn/src/namespaceable_name.rs
@@ -16,6 +16,8 @@ use std::fmt;
 use serde::de::{self, Deserialize, Deserializer};
 #[cfg(feature = "serde_support")]
 use serde::ser::{Serialize, Serializer};
+#[cfg(feature = "serde_support")]
+use std::borrow::Cow;
 
 // Data storage for both NamespaceableKeyword and NamespaceableSymbol.
 #[derive(Clone, Eq, Hash, PartialEq)]
@@ -209,8 +211,8 @@ impl fmt::Display for NamespaceableName {
 #[cfg_attr(feature = "serde_support", serde(rename = "NamespaceableName"))]
 #[cfg_attr(feature = "serde_support", derive(Serialize, Deserialize))]
 struct SerializedNamespaceableName<'a> {
-    namespace: Option<&'a str>,
-    name: &'a str,
+    namespace: Option<Cow<'a, str>>,
+    name: Cow<'a, str>,
 }
 
 #[cfg(feature = "serde_support")]
@@ -244,8 +246,8 @@ impl Serialize for NamespaceableName {
         S: Serializer,
     {
         let ser = SerializedNamespaceableName {
-            namespace: self.namespace(),
-            name: self.name(),
+            namespace: self.namespace().map(Cow::Borrowed),
+            name: Cow::Borrowed(self.name()),
         };
         ser.serialize(serializer)
     }
-- 
2.43.0

