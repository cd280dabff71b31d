From 02c6ba11f3357fc40e2f9ac1b23ef58b30eb0fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:18 +0000
Subject: [PATCH 01/57] fix: reject out of range, overflowing and zero-division
 updates and undo partial updates

---
 server/src/engine/core/dml/upd.rs   | 63 +++++++++++++++++++++++------
 server/src/engine/core/model/mod.rs |  4 ++
 2 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index d8af4f8..fd4e217 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -79,8 +79,12 @@ unsafe fn dc_op_uint_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
 }
 unsafe fn dc_op_uint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let kind = UIntSpec::from_full(dc.tag());
-    let (uint, did_of) = dc.uint().overflowing_div(rhs.uint());
-    (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
+    // NB: a zero divisor is an error
+    let uint = dc.uint().checked_div(rhs.uint());
+    (
+        uint.map_or(false, |uint| kind.check(uint)),
+        Datacell::new_uint(uint.unwrap_or_default(), kind),
+    )
 }
 // sint
 unsafe fn dc_op_sint_ass(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
@@ -105,8 +109,12 @@ unsafe fn dc_op_sint_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
 }
 unsafe fn dc_op_sint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let kind = SIntSpec::from_full(dc.tag());
-    let (sint, did_of) = dc.sint().overflowing_div(rhs.sint());
-    (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
+    // NB: a zero divisor (or an overflow) is an error
+    let sint = dc.sint().checked_div(rhs.sint());
+    (
+        sint.map_or(false, |sint| kind.check(sint)),
+        Datacell::new_sint(sint.unwrap_or_default(), kind),
+    )
 }
 /*
     float
@@ -313,27 +321,47 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
                 (tag_a, tag_b)
                     if (tag_a == tag_b) & (tag_a < TagClass::List) & field_data.is_init() =>
                 {
-                    let (okay, new) = unsafe { OPERATOR[opc(tag_a, operator_fn)](field_data, rhs) };
-                    rollback_now &= !okay;
-                    rollback_data.push((lhs.as_str(), mem::replace(field_data, new)));
+                    let (okay, new) = unsafe {
+                        // UNSAFE(@ohsayan): same class. the field might have been altered to have a different width since this
+                        // cell was written, so use the current definition
+                        field_data.set_tag(field_definition.layers()[0].tag());
+                        OPERATOR[opc(tag_a, operator_fn)](field_data, rhs)
+                    };
                     input_trace("sametag;nonnull");
+                    if compiler::unlikely(!okay) {
+                        rollback_now = true;
+                        ret = Err(QueryError::QExecDmlValidationError);
+                        break;
+                    }
+                    rollback_data.push((lhs.as_str(), Some(mem::replace(field_data, new))));
                 }
                 (tag_a, tag_b)
                     if (tag_a == tag_b)
                         & field_data.is_null()
                         & (operator_fn == AssignmentOperator::Assign) =>
                 {
-                    rollback_data.push((lhs.as_str(), mem::replace(field_data, rhs.into())));
+                    let mut new = Datacell::from(rhs);
                     input_trace("sametag;orignull");
+                    if compiler::unlikely(!field_definition.vt_data_fpath(&mut new)) {
+                        rollback_now = true;
+                        ret = Err(QueryError::QExecDmlValidationError);
+                        break;
+                    }
+                    rollback_data.push((lhs.as_str(), Some(mem::replace(field_data, new))));
                 }
-                (TagClass::List, tag_b) if operator_fn == AssignmentOperator::AddAssign => {
-                    if field_definition.layers()[1].tag().tag_class() == tag_b {
+                (TagClass::List, _)
+                    if (operator_fn == AssignmentOperator::AddAssign) & field_data.is_init() =>
+                {
+                    let mut new = Datacell::from(rhs);
+                    if field_definition.vt_list_element(&mut new) {
                         unsafe {
                             // UNSAFE(@ohsayan): matched tags
                             let mut list = field_data.read_list().write();
                             if list.try_reserve(1).is_ok() {
                                 input_trace("list;sametag");
-                                list.push(rhs.into());
+                                list.push(new);
+                                // nothing to restore; just pop the new element
+                                rollback_data.push((lhs.as_str(), None));
                             } else {
                                 rollback_now = true;
                                 ret = Err(QueryError::SysOutOfMemory);
@@ -357,10 +385,19 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         }
         if compiler::unlikely(rollback_now) {
             input_trace("rollback");
+            // NB: undo in reverse, because the same field may have been assigned to multiple times
             rollback_data
                 .into_iter()
-                .for_each(|(field_id, restored_data)| {
-                    row_data_wl.fields_mut().st_update(field_id, restored_data);
+                .rev()
+                .for_each(|(field_id, restored_data)| match restored_data {
+                    Some(restored_data) => {
+                        row_data_wl.fields_mut().st_update(field_id, restored_data);
+                    }
+                    None => {
+                        if let Some(field_data) = row_data_wl.fields_mut().st_get_mut(field_id) {
+                            field_data.list().write().pop();
+                        }
+                    }
                 });
         } else {
             // update revised tag
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 3d24e4d..2732874 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -604,6 +604,10 @@ impl Field {
             Self::rvt_data(self.layers(), data)
         }
     }
+    /// Validate an element that is to be appended to this list
+    pub fn vt_list_element(&self, data: &mut Datacell) -> bool {
+        Self::rvt_data(&self.layers()[1..], data)
+    }
     fn rvt_data(layers: &[Layer], data: &mut Datacell) -> bool {
         let layer = layers[0];
         let layers = &layers[1..];
-- 
2.43.0


From fc72aaf5073a5ed274a6f73cab1974e5749aecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:18 +0000
Subject: [PATCH 02/57] fix: do not silently ignore where clauses on columns
 that are not the primary key

---
 server/src/engine/core/dml/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/dml/mod.rs b/server/src/engine/core/dml/mod.rs
index 5d7cc1f..b0575e7 100644
--- a/server/src/engine/core/dml/mod.rs
+++ b/server/src/engine/core/dml/mod.rs
@@ -60,7 +60,9 @@ impl ModelData {
     ) -> QueryResult<Lit<'a>> {
         match where_clause.clauses_mut().remove(self.p_key().as_bytes()) {
             Some(clause)
-                if clause.filter_hint_none()
+                // NB: we can't filter on anything other than the primary key, so don't silently ignore such clauses
+                if where_clause.clauses_mut().is_empty()
+                    & clause.filter_hint_none()
                     & (clause.rhs().kind().tag_unique() == self.p_tag().tag_unique()) =>
             {
                 Ok(clause.rhs())
-- 
2.43.0


From 012fb22ef80c9d6f07d3c62e57cf309fe033c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 03/57] fix: apply every pending schema change to existing rows
 on reads and updates

---
 server/src/engine/core/dml/upd.rs     |  4 +-
 server/src/engine/core/index/row.rs   | 55 ++++++++++++++++-----------
 server/src/engine/core/model/delta.rs |  5 +--
 3 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index fd4e217..f847fc3 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -276,9 +276,9 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
             return Err(QueryError::QExecDmlRowNotFound);
         };
         // lock row
-        let mut row_data_wl = row.d_data().write();
-        // create new version
         let ds = mdl.delta_state();
+        let mut row_data_wl = row.resolve_schema_deltas_and_lock(ds);
+        // create new version
         let new_version = ds.create_new_data_delta_version();
         // process changes
         let mut rollback_now = false;
diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index 656422d..df5179d 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -68,6 +68,29 @@ impl RowData {
     pub fn get_txn_revised(&self) -> DeltaVersion {
         self.txn_revised_data
     }
+    fn resolve_schema_deltas(&mut self, delta_state: &DeltaState) {
+        // NB: `txn_revised_schema_version` is the ID of the first delta that hasn't been applied
+        for (_, delta) in delta_state.resolve_iter_since(self.txn_revised_schema_version) {
+            match delta.kind() {
+                SchemaDeltaKind::FieldAdd(f) => {
+                    self.fields.st_insert(
+                        unsafe {
+                            // UNSAFE(@ohsayan): a row is inside a model and is valid as long as it is in there!
+                            // even if the model was chucked and the row was lying around it won't cause any harm because it
+                            // neither frees anything nor allocates
+                            f.clone()
+                        },
+                        Datacell::null(),
+                    );
+                }
+                SchemaDeltaKind::FieldRem(f) => {
+                    self.fields.st_delete(f);
+                }
+            }
+        }
+        // we've revised upto the most most recent delta version (that we saw at this point)
+        self.txn_revised_schema_version = delta_state.schema_current_version();
+    }
 }
 
 impl TreeElement for Row {
@@ -154,30 +177,18 @@ impl Row {
         }
         // we have deltas to apply
         let mut wl = RwLockUpgradableReadGuard::upgrade(rwl_ug);
-        let mut max_delta = wl.txn_revised_schema_version;
-        for (delta_id, delta) in delta_state.resolve_iter_since(wl.txn_revised_schema_version) {
-            match delta.kind() {
-                SchemaDeltaKind::FieldAdd(f) => {
-                    wl.fields.st_insert(
-                        unsafe {
-                            // UNSAFE(@ohsayan): a row is inside a model and is valid as long as it is in there!
-                            // even if the model was chucked and the row was lying around it won't cause any harm because it
-                            // neither frees anything nor allocates
-                            f.clone()
-                        },
-                        Datacell::null(),
-                    );
-                }
-                SchemaDeltaKind::FieldRem(f) => {
-                    wl.fields.st_delete(f);
-                }
-            }
-            max_delta = *delta_id;
-        }
-        // we've revised upto the most most recent delta version (that we saw at this point)
-        wl.txn_revised_schema_version = max_delta;
+        wl.resolve_schema_deltas(delta_state);
         return RwLockWriteGuard::downgrade(wl);
     }
+    /// Lock this row for writes after applying any pending deltas
+    pub fn resolve_schema_deltas_and_lock<'g>(
+        &'g self,
+        delta_state: &DeltaState,
+    ) -> RwLockWriteGuard<'g, RowData> {
+        let mut wl = self.d_data().write();
+        wl.resolve_schema_deltas(delta_state);
+        wl
+    }
     pub fn resolve_schema_deltas_and_freeze<'g>(
         &'g self,
         delta_state: &DeltaState,
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 84e2aaa..a404861 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -116,7 +116,7 @@ impl DeltaState {
         &self,
         current_version: DeltaVersion,
     ) -> Range<DeltaVersion, SchemaDeltaPart> {
-        self.schema_deltas.range(current_version.step()..)
+        self.schema_deltas.range(current_version..)
     }
     pub fn schema_current_version(&self) -> DeltaVersion {
         DeltaVersion(self.schema_current_version)
@@ -158,9 +158,6 @@ impl DeltaVersion {
     pub const fn __new(v: u64) -> Self {
         Self(v)
     }
-    fn step(&self) -> Self {
-        Self(self.0 + 1)
-    }
     pub const fn value_u64(&self) -> u64 {
         self.0
     }
-- 
2.43.0


From 115beb110b7410c3d153aa979572ecf4468016b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:34 +0000
Subject: [PATCH 04/57] fix: refuse models with a nullable primary key

---
 server/src/engine/core/model/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 2732874..945c782 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -269,8 +269,10 @@ impl ModelData {
                 // UNSAFE(@ohsayan): once again, all of this is allocated
                 fields.stseq_ord_key().next().unwrap().clone()
             });
-            let tag = fields.st_get(&last_pk).unwrap().layers()[0].tag;
-            if tag.tag_unique().is_unique() {
+            let pk_field = fields.st_get(&last_pk).unwrap();
+            let tag = pk_field.layers()[0].tag;
+            // NB: a primary key can never be null, even if it wasn't explicitly declared as the primary key
+            if tag.tag_unique().is_unique() & !pk_field.is_nullable() {
                 return Ok(Self::new_with_private(
                     Uuid::new(),
                     last_pk,
-- 
2.43.0


From 8e823592e51f2fc63d232d623ddefdf33a111bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:34 +0000
Subject: [PATCH 05/57] fix: restore rows with the columns of the schema they
 were written with

---
 server/src/engine/core/model/mod.rs           | 31 +++++++++++++++++++
 .../engine/storage/v2/impls/mdl_journal.rs    | 29 +++++++++--------
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 945c782..b1637eb 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -88,6 +88,8 @@ pub struct ModelData {
     delta: DeltaState,
     private: ModelPrivate,
     decl: String,
+    /// fields (in order, excluding the primary key) that this model was created with
+    genesis_fields: Box<[Box<str>]>,
 }
 
 #[cfg(test)]
@@ -132,6 +134,29 @@ impl ModelData {
     pub fn fields(&self) -> &Fields {
         &self.fields
     }
+    /// Returns the fields (in order, excluding the primary key) that this model had at the given schema version. The second
+    /// item is false if the field was removed by a later version
+    pub fn fields_at_schema_version(&self, version: DeltaVersion) -> Vec<(&str, bool)> {
+        let mut fields: Vec<(&str, bool)> = self
+            .genesis_fields
+            .iter()
+            .map(|field| (field.as_ref(), true))
+            .collect();
+        for (id, delta) in self.delta.resolve_iter_since(DeltaVersion::genesis()) {
+            match delta.kind() {
+                SchemaDeltaKind::FieldAdd(f) if *id < version => fields.push((f.as_str(), true)),
+                SchemaDeltaKind::FieldRem(f) if *id < version => {
+                    fields.retain(|(field, _)| *field != f.as_str())
+                }
+                SchemaDeltaKind::FieldRem(f) => fields
+                    .iter_mut()
+                    .filter(|(field, _)| *field == f.as_str())
+                    .for_each(|(_, live)| *live = false),
+                SchemaDeltaKind::FieldAdd(_) => {}
+            }
+        }
+        fields
+    }
     pub fn model_mutator<'a>(&'a mut self) -> ModelMutator<'a> {
         ModelMutator { model: self }
     }
@@ -185,6 +210,11 @@ impl ModelData {
         fields: Fields,
         private: ModelPrivate,
     ) -> Self {
+        let genesis_fields = fields
+            .stseq_ord_key()
+            .filter(|field| field.as_str() != p_key.as_str())
+            .map(|field| field.as_str().into())
+            .collect();
         let mut slf = Self {
             uuid,
             p_key,
@@ -194,6 +224,7 @@ impl ModelData {
             delta: DeltaState::new_resolved(),
             private,
             decl: String::new(),
+            genesis_fields,
         };
         slf.sync_decl();
         slf
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 6870eda..4bc7aeb 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -39,7 +39,7 @@ use {
                 tag::{DataTag, TagUnique},
             },
             error::StorageError,
-            idx::{MTIndex, STIndex, STIndexSeq},
+            idx::{MTIndex, STIndex, STIndexExt, STIndexSeq},
             storage::{
                 common::sdss::sdss_r1::rw::{TrackedReaderContext, TrackedWriter},
                 common_encoding::r1,
@@ -512,6 +512,12 @@ impl BatchAdapterSpec for ModelDataAdapter {
         let p_index = gs.primary_index().__raw_index();
         let m = gs;
         let mut real_last_txn_id = DeltaVersion::genesis();
+        // NB: this batch might have been written with an older schema, so the columns are the ones from that version
+        let schema_version = DeltaVersion::__new(batch_md.schema_version);
+        let columns = m.fields_at_schema_version(schema_version);
+        if columns.len() as u64 != batch_md.column_count {
+            return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+        }
         for DecodedBatchEvent { txn_id, pk, kind } in batch_state.events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
@@ -534,12 +540,14 @@ impl BatchAdapterSpec for ModelDataAdapter {
                         real_last_txn_id = txn_id;
                     }
                     let mut data = DcFieldIndex::default();
-                    for (field_name, new_data) in m
-                        .fields()
-                        .stseq_ord_key()
-                        .filter(|key| key.as_str() != m.p_key())
-                        .zip(new_row)
-                    {
+                    for ((column, live), new_data) in columns.iter().zip(new_row) {
+                        if !*live {
+                            // this field was removed at some point after this batch was written
+                            continue;
+                        }
+                        let Some((field_name, _)) = m.fields().stext_get_key_value(*column) else {
+                            return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+                        };
                         data.st_insert(
                             unsafe {
                                 // UNSAFE(@ohsayan): model in scope, we're good
@@ -548,12 +556,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
                             new_data,
                         );
                     }
-                    let row = Row::new_restored(
-                        pk,
-                        data,
-                        DeltaVersion::__new(batch_md.schema_version),
-                        txn_id,
-                    );
+                    let row = Row::new_restored(pk, data, schema_version, txn_id);
                     // resolve any deltas
                     let _ = row.resolve_schema_deltas_and_freeze(m.delta_state());
                     // put it back in (lol); blame @ohsayan for this joke
-- 
2.43.0


From e84e4fb463dfb8de03eab266a2bbdad749ac3297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:48 +0000
Subject: [PATCH 06/57] fix: never move the change version of a model backwards
 on restore

---
 server/src/engine/core/model/delta.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index a404861..bdc3928 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -62,9 +62,10 @@ impl DeltaState {
             data_deltas_size: AtomicUsize::new(0),
         }
     }
+    /// Set the delta version, if it is newer than the current one (an older batch might have the newest version)
     pub fn __set_delta_version(&self, version: DeltaVersion) {
         self.data_current_version
-            .store(version.value_u64(), Ordering::Relaxed)
+            .fetch_max(version.value_u64(), Ordering::Relaxed);
     }
 }
 
-- 
2.43.0


From 051fd0dd2d116d17e0f22759d74b2e263c39f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:48 +0000
Subject: [PATCH 07/57] fix: order deletes and inserts with concurrent changes
 to the same key

---
 server/src/engine/core/dml/del.rs   | 38 +++++++++++++++++------------
 server/src/engine/core/dml/ins.rs   | 22 +++++++++++++----
 server/src/engine/core/dml/upd.rs   |  4 +++
 server/src/engine/core/index/row.rs |  9 +++++++
 4 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/server/src/engine/core/dml/del.rs b/server/src/engine/core/dml/del.rs
index b40d7e6..7286a35 100644
--- a/server/src/engine/core/dml/del.rs
+++ b/server/src/engine/core/dml/del.rs
@@ -46,23 +46,29 @@ pub fn delete(global: &impl GlobalInstanceLike, mut delete: DeleteStatement) ->
         let g = sync::atm::cpin();
         let delta_state = model.delta_state();
         let _idx_latch = model.primary_index().acquire_cd();
+        let key = model.resolve_where(delete.clauses_mut())?;
+        let Some(row) = model.primary_index().select(key.clone(), &g) else {
+            return Err(QueryError::QExecDmlRowNotFound);
+        };
+        /*
+            NB: the version must be created, the row removed and the delta published with the row locked. if not, a concurrent update to
+            this row or a subsequent insert with the same key might get a version that is not consistent with the actual order
+        */
+        let mut row_data_wl = row.d_data().write();
+        if row_data_wl.is_removed() {
+            return Err(QueryError::QExecDmlRowNotFound);
+        }
         // create new version
         let new_version = delta_state.create_new_data_delta_version();
-        match model
-            .primary_index()
-            .__raw_index()
-            .mt_delete_return_entry(&model.resolve_where(delete.clauses_mut())?, &g)
-        {
-            Some(row) => {
-                let dp = delta_state.append_new_data_delta_with(
-                    DataDeltaKind::Delete,
-                    row.clone(),
-                    new_version,
-                    &g,
-                );
-                Ok(QueryExecMeta::new(dp))
-            }
-            None => Err(QueryError::QExecDmlRowNotFound),
-        }
+        row_data_wl.set_removed();
+        row_data_wl.set_txn_revised(new_version);
+        let _ = model.primary_index().__raw_index().mt_delete(&key, &g);
+        let dp = delta_state.append_new_data_delta_with(
+            DataDeltaKind::Delete,
+            row.clone(),
+            new_version,
+            &g,
+        );
+        Ok(QueryExecMeta::new(dp))
     })
 }
diff --git a/server/src/engine/core/dml/ins.rs b/server/src/engine/core/dml/ins.rs
index 307f81e..debc0fe 100644
--- a/server/src/engine/core/dml/ins.rs
+++ b/server/src/engine/core/dml/ins.rs
@@ -29,7 +29,10 @@ use crate::engine::{
         self,
         dml::QueryExecMeta,
         index::{DcFieldIndex, PrimaryIndexKey, Row},
-        model::{delta::DataDeltaKind, ModelData},
+        model::{
+            delta::{DataDeltaKind, DeltaVersion},
+            ModelData,
+        },
     },
     error::{QueryError, QueryResult},
     fractal::GlobalInstanceLike,
@@ -52,12 +55,21 @@ pub fn insert(global: &impl GlobalInstanceLike, insert: InsertStatement) -> Quer
         let _idx_latch = mdl.primary_index().acquire_cd();
         let g = cpin();
         let ds = mdl.delta_state();
-        // create new version
-        let new_version = ds.create_new_data_delta_version();
-        let row = Row::new(pk, data, ds.schema_current_version(), new_version);
+        let row = Row::new(
+            pk,
+            data,
+            ds.schema_current_version(),
+            DeltaVersion::genesis(),
+        );
+        // NB: keep the row locked until it has a version, so that any other change to this row gets a later version
+        let mut row_data_wl = row.d_data().write();
         if mdl.primary_index().__raw_index().mt_insert(row.clone(), &g) {
+            // create new version
+            let new_version = ds.create_new_data_delta_version();
+            row_data_wl.set_txn_revised(new_version);
             // append delta for new version
-            let dp = ds.append_new_data_delta_with(DataDeltaKind::Insert, row, new_version, &g);
+            let dp =
+                ds.append_new_data_delta_with(DataDeltaKind::Insert, row.clone(), new_version, &g);
             Ok(QueryExecMeta::new(dp))
         } else {
             Err(QueryError::QExecDmlDuplicate)
diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index f847fc3..9d46830 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -278,6 +278,10 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         // lock row
         let ds = mdl.delta_state();
         let mut row_data_wl = row.resolve_schema_deltas_and_lock(ds);
+        if row_data_wl.is_removed() {
+            // deleted while we were waiting for the lock
+            return Err(QueryError::QExecDmlRowNotFound);
+        }
         // create new version
         let new_version = ds.create_new_data_delta_version();
         // process changes
diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index df5179d..f2e74dd 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -53,6 +53,7 @@ pub struct RowData {
     fields: DcFieldIndex,
     txn_revised_data: DeltaVersion,
     txn_revised_schema_version: DeltaVersion,
+    removed: bool,
 }
 
 impl RowData {
@@ -68,6 +69,13 @@ impl RowData {
     pub fn get_txn_revised(&self) -> DeltaVersion {
         self.txn_revised_data
     }
+    /// Returns true if this row was removed from the index
+    pub fn is_removed(&self) -> bool {
+        self.removed
+    }
+    pub fn set_removed(&mut self) {
+        self.removed = true;
+    }
     fn resolve_schema_deltas(&mut self, delta_state: &DeltaState) {
         // NB: `txn_revised_schema_version` is the ID of the first delta that hasn't been applied
         for (_, delta) in delta_state.resolve_iter_since(self.txn_revised_schema_version) {
@@ -139,6 +147,7 @@ impl Row {
                     fields: data,
                     txn_revised_schema_version: schema_version,
                     txn_revised_data,
+                    removed: false,
                 }))
             },
         }
-- 
2.43.0


From 5ae85538fee52237f0963925d60f9c688c850f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 08/57] fix: acquire the namespace locks in one order, ALTER
 MODEL could deadlock with other DDL

---
 server/src/engine/core/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/mod.rs b/server/src/engine/core/mod.rs
index 40bc540..42d0da0 100644
--- a/server/src/engine/core/mod.rs
+++ b/server/src/engine/core/mod.rs
@@ -132,11 +132,12 @@ impl GNSData {
     where
         F: FnOnce(&Space, &mut ModelData) -> QueryResult<T>,
     {
+        // NB: the order in which the locks are acquired must be the same everywhere (spaces first, then models)
+        let space_read = self.idx.read();
         let mut mdl_idx = self.idx_mdl.write();
         let Some(model) = mdl_idx.get_mut(&entity) else {
             return Err(QueryError::QExecObjectNotFound);
         };
-        let space_read = self.idx.read();
         let space = space_read.get(entity.space()).unwrap();
         f(space, model.data_mut())
     }
-- 
2.43.0


From c0a61989c5cd8a6a9deef9c015177461560ac63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 09/57] fix: INSPECT SPACE returned malformed JSON

---
 server/src/engine/core/ddl_misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/core/ddl_misc.rs b/server/src/engine/core/ddl_misc.rs
index 0c7d431..dcd39cf 100644
--- a/server/src/engine/core/ddl_misc.rs
+++ b/server/src/engine/core/ddl_misc.rs
@@ -93,7 +93,7 @@ pub fn inspect(
                         ret.push(',');
                     }
                 }
-                ret.push_str("]}}");
+                ret.push_str("]}");
                 ret
             }
             None => return Err(QueryError::QExecObjectNotFound),
-- 
2.43.0


From 6f78e150a3e331811add82f3d19dbe85c9fd82df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 10/57] fix: do not remove a space from memory when the drop
 could not be committed

---
 server/src/engine/core/space.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/core/space.rs b/server/src/engine/core/space.rs
index 30c3174..58b5aa1 100644
--- a/server/src/engine/core/space.rs
+++ b/server/src/engine/core/space.rs
@@ -245,7 +245,7 @@ impl Space {
                 .state()
                 .namespace()
                 .ddl_with_all_mut(|spaces, models| {
-                    let Some(space) = spaces.remove(space_name.as_str()) else {
+                    let Some(space) = spaces.get(space_name.as_str()) else {
                         if if_exists {
                             return Ok(Some(false));
                         } else {
@@ -266,10 +266,10 @@ impl Space {
                     global.taskmgr_post_standard_priority(Task::new(
                         GenericTask::delete_space_dir(&space_name, space.get_uuid()),
                     ));
-                    for model in space.models.into_iter() {
+                    for model in space.models.iter() {
                         let e: EntityIDRef<'static> = unsafe {
                             // UNSAFE(@ohsayan): I want to try what the borrow checker has been trying
-                            core::mem::transmute(EntityIDRef::new(space_name.as_str(), &model))
+                            core::mem::transmute(EntityIDRef::new(space_name.as_str(), model))
                         };
                         let mdl = models.st_delete_return(&e).unwrap();
                         // no need to purge model drive since the dir itself is deleted. our work here is to just
-- 
2.43.0


From 3a5fd5a7eb645300864ca141f9540e0c3d107532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 11/57] fix: let root alter other users, SYSCTL ALTER USER
 always failed

---
 server/src/engine/core/dcl.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/server/src/engine/core/dcl.rs b/server/src/engine/core/dcl.rs
index bac0c3e..358a5a3 100644
--- a/server/src/engine/core/dcl.rs
+++ b/server/src/engine/core/dcl.rs
@@ -25,6 +25,7 @@
 */
 
 use crate::engine::{
+    core::system_db::SystemDatabase,
     data::{tag::TagClass, DictEntryGeneric},
     error::{QueryError, QueryResult},
     fractal::GlobalInstanceLike,
@@ -45,7 +46,7 @@ pub fn exec<G: GlobalInstanceLike>(
     match cmd {
         SysctlCommand::CreateUser(new) => create_user(&g, new),
         SysctlCommand::DropUser(drop) => drop_user(&g, current_user, drop),
-        SysctlCommand::AlterUser(usermod) => alter_user(&g, current_user, usermod),
+        SysctlCommand::AlterUser(usermod) => alter_user(&g, usermod),
         SysctlCommand::ReportStatus => {
             if g.health().status_okay() {
                 Ok(())
@@ -56,12 +57,8 @@ pub fn exec<G: GlobalInstanceLike>(
     }
 }
 
-fn alter_user(
-    global: &impl GlobalInstanceLike,
-    cstate: &ClientLocalState,
-    user: UserDecl,
-) -> QueryResult<()> {
-    if cstate.is_root() {
+fn alter_user(global: &impl GlobalInstanceLike, user: UserDecl) -> QueryResult<()> {
+    if user.username() == SystemDatabase::ROOT_ACCOUNT {
         // the root password can only be changed by shutting down the server
         return Err(QueryError::SysAuthError);
     }
-- 
2.43.0


From dc6f9cfbb5c712f28dbc307fa267f7da1f4e54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 12/57] fix: refuse passwords that cannot be hashed instead of
 panicking

---
 server/src/engine/core/system_db.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/core/system_db.rs b/server/src/engine/core/system_db.rs
index 27e5321..7138d4d 100644
--- a/server/src/engine/core/system_db.rs
+++ b/server/src/engine/core/system_db.rs
@@ -96,7 +96,10 @@ impl SystemDatabase {
                         }
                     }
                     Ok(false) => VerifyUser::IncorrectPassword,
-                    Err(_) => unreachable!(),
+                    Err(_) => {
+                        // a password that can't be hashed (for example, one with a NUL byte) can never be the right one
+                        VerifyUser::IncorrectPassword
+                    }
                 }
             })
             .unwrap_or(VerifyUser::NotFound)
@@ -128,6 +131,11 @@ impl SystemDatabase {
 }
 
 impl SystemDatabase {
+    fn hash_password(password: &str) -> QueryResult<Vec<u8>> {
+        // empty passwords and passwords with NUL bytes can't be hashed
+        rcrypt::hash(password, rcrypt::DEFAULT_COST)
+            .map_err(|_| QueryError::QExecDdlInvalidProperties)
+    }
     pub fn create_user(
         &self,
         global: &impl GlobalInstanceLike,
@@ -138,7 +146,7 @@ impl SystemDatabase {
         if users.contains_key(&username) {
             return Err(QueryError::SysAuthError);
         }
-        let password_hash = rcrypt::hash(password, rcrypt::DEFAULT_COST).unwrap();
+        let password_hash = Self::hash_password(password)?;
         global.state().gns_driver().driver_context(
             global,
             |drv| drv.commit_event(CreateUserTxn::new(&username, &password_hash)),
@@ -155,7 +163,7 @@ impl SystemDatabase {
     ) -> QueryResult<()> {
         match self.users.write().get_mut(username) {
             Some(user) => {
-                let password_hash = rcrypt::hash(password, rcrypt::DEFAULT_COST).unwrap();
+                let password_hash = Self::hash_password(password)?;
                 global.state().gns_driver().driver_context(
                     global,
                     |drv| drv.commit_event(AlterUserTxn::new(username, &password_hash)),
-- 
2.43.0


From 8344a15ceb582107a0f4e8c6b118477bda04a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 13/57] fix: ALTER MODEL UPDATE must not move the updated
 fields

---
 server/src/engine/core/model/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index b1637eb..c6191bf 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -525,7 +525,14 @@ impl<'a> ModelMutator<'a> {
         }
     }
     pub fn update_field(&mut self, name: &str, field: Field) -> bool {
-        self.model.fields.st_update(name, field)
+        // NB: update in place, the field must keep its position
+        match self.model.fields.st_get_mut(name) {
+            Some(current) => {
+                *current = field;
+                true
+            }
+            None => false,
+        }
     }
 }
 
-- 
2.43.0


From 677d5f913f075b3422eaf042b224c193bf64917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:45 +0000
Subject: [PATCH 14/57] fix: serve requests that arrive in one segment instead
 of waiting forever

---
 server/src/engine/net/protocol/exchange.rs |  7 ++++---
 server/src/engine/net/protocol/mod.rs      | 23 +++++++++++-----------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 7522b97..2ec26a1 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -33,7 +33,7 @@ impl Resume {
     pub(super) const fn test_new(v: usize) -> Self {
         Self(v)
     }
-    #[cfg(test)]
+    /// Returns the number of bytes consumed so far
     pub(super) const fn inner(&self) -> usize {
         self.0
     }
@@ -191,7 +191,7 @@ impl QExchangeState {
             Ok(AccumlatorStatus::Pending(p)) => {
                 // if this is the first run, we read 5 bytes and need atleast one more; if this is a resume we read one or more bytes and
                 // need atleast one more
-                self.target += 1;
+                self.target = scanner.cursor() + 1;
                 self.md_packet_size = p;
                 self.state = QExchangeStateInternal::PendingMeta1;
                 return QExchangeResult::ChangeState(self);
@@ -219,7 +219,8 @@ impl QExchangeState {
     }
     fn resume_data<'a>(mut self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
         let df_size = self.target - scanner.cursor();
-        if scanner.remaining() == df_size {
+        // bytes past the target belong to the next packet
+        if scanner.has_left(df_size) {
             unsafe {
                 QExchangeResult::SQCompleted(SQuery::new(
                     scanner.next_chunk_variable(df_size),
diff --git a/server/src/engine/net/protocol/mod.rs b/server/src/engine/net/protocol/mod.rs
index c1745ea..fd185fc 100644
--- a/server/src/engine/net/protocol/mod.rs
+++ b/server/src/engine/net/protocol/mod.rs
@@ -163,22 +163,23 @@ pub(super) async fn query_loop<S: Socket>(
     let mut state = QExchangeState::default();
     let mut cursor = Default::default();
     loop {
-        if con.read_buf(buf).await? == 0 {
-            if buf.is_empty() {
-                return Ok(QueryLoopResult::Fin);
-            } else {
-                return Ok(QueryLoopResult::Rst);
-            }
-        }
+        // NB: the client may have already sent (a part of) the next packet along with the previous one
         if !state.has_reached_target(buf) {
             // we haven't buffered sufficient bytes; keep working
+            if con.read_buf(buf).await? == 0 {
+                if buf.is_empty() {
+                    return Ok(QueryLoopResult::Fin);
+                } else {
+                    return Ok(QueryLoopResult::Rst);
+                }
+            }
             continue;
         }
-        let sq = match unsafe {
+        let (packet_end, sq) = match unsafe {
             // UNSAFE(@ohsayan): as the resume cursor is private, we can't access this anyways
             exchange::resume(buf, cursor, state)
         } {
-            (_, QExchangeResult::SQCompleted(sq)) => sq,
+            (packet_end, QExchangeResult::SQCompleted(sq)) => (packet_end.inner(), sq),
             (new_cursor, QExchangeResult::ChangeState(new_state)) => {
                 cursor = new_cursor;
                 state = new_state;
@@ -222,8 +223,8 @@ pub(super) async fn query_loop<S: Socket>(
             }
         }
         con.flush().await?;
-        // reset buffer, cursor and state
-        buf.clear();
+        // discard this packet, reset cursor and state
+        buf.advance(packet_end);
         cursor = Default::default();
         state = QExchangeState::default();
     }
-- 
2.43.0


From 636fadbc93c97aee07f0b8331ad536742cd7fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 15/57] fix: reject packets with inconsistent lengths instead
 of panicking

---
 server/src/engine/net/protocol/exchange.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 2ec26a1..563f8d7 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -170,7 +170,7 @@ impl QExchangeState {
         new_buffer.len() >= self.target
     }
     fn resume<'a>(self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        debug_assert!(scanner.has_left(Self::MIN_READ));
+        debug_assert!(scanner.buffer_len() >= Self::MIN_READ);
         match self.state {
             QExchangeStateInternal::Initial => self.start_initial(scanner),
             QExchangeStateInternal::PendingMeta1 => self.resume_at_md1(scanner),
@@ -199,13 +199,20 @@ impl QExchangeState {
             Err(()) => return QExchangeResult::Error,
         };
         self.md_packet_size = packet_size;
-        self.target = scanner.cursor() + packet_size as usize;
+        self.target = match scanner.cursor().checked_add(packet_size as usize) {
+            Some(target) => target,
+            None => return QExchangeResult::Error,
+        };
         // hand over control to md2
         self.resume_at_md2(scanner)
     }
     fn resume_at_md2<'a>(mut self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
         let q_window = match super::scan_int(scanner, self.md_q_window) {
             Ok(AccumlatorStatus::Completed(v)) => v,
+            Ok(AccumlatorStatus::Pending(_)) if scanner.cursor() >= self.target => {
+                // the packet ended before its metadata did
+                return QExchangeResult::Error;
+            }
             Ok(AccumlatorStatus::Pending(p)) => {
                 self.md_q_window = p;
                 self.state = QExchangeStateInternal::PendingMeta2;
@@ -218,7 +225,11 @@ impl QExchangeState {
         self.resume_data(scanner)
     }
     fn resume_data<'a>(mut self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        let df_size = self.target - scanner.cursor();
+        let df_size = match self.target.checked_sub(scanner.cursor()) {
+            Some(df_size) if self.md_q_window <= df_size as u64 => df_size,
+            // the metadata or the query window exceeds the packet
+            _ => return QExchangeResult::Error,
+        };
         // bytes past the target belong to the next packet
         if scanner.has_left(df_size) {
             unsafe {
-- 
2.43.0


From befeb4edf70f03acd0e3265496b09b41c984b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 16/57] fix: handshakes with several invalid fields or huge
 lengths panicked

---
 server/src/engine/net/protocol/handshake.rs | 27 ++++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/server/src/engine/net/protocol/handshake.rs b/server/src/engine/net/protocol/handshake.rs
index 29a798d..6d28917 100644
--- a/server/src/engine/net/protocol/handshake.rs
+++ b/server/src/engine/net/protocol/handshake.rs
@@ -305,15 +305,14 @@ impl<'a> CHandshake<'a> {
                 ProtocolError::RejectQueryMode,
                 ProtocolError::RejectAuth,
             ];
-            return HandshakeResult::Error(
-                ERROR[((invalid_first_byte as u8 * 1)
-                    | (invalid_hs_version as u8 * 2)
-                    | (invalid_proto_version as u8 * 3)
-                    | (invalid_exchange_mode as u8 * 4)
-                    | (invalid_query_mode as u8 * 5)
-                    | (invalid_auth_mode as u8) * 6) as usize
-                    - 1usize],
-            );
+            // report the first invalid field
+            let invalid_fields = (invalid_first_byte as u8)
+                | (invalid_hs_version as u8) << 1
+                | (invalid_proto_version as u8) << 2
+                | (invalid_exchange_mode as u8) << 3
+                | (invalid_query_mode as u8) << 4
+                | (invalid_auth_mode as u8) << 5;
+            return HandshakeResult::Error(ERROR[invalid_fields.trailing_zeros() as usize]);
         }
         // init header
         let static_header = CHandshakeStatic::new(
@@ -335,7 +334,11 @@ impl<'a> CHandshake<'a> {
         uname_l: usize,
         pwd_l: usize,
     ) -> HandshakeResult<'a> {
-        if scanner.has_left(uname_l + pwd_l) {
+        let payload_l = match uname_l.checked_add(pwd_l) {
+            Some(payload_l) => payload_l,
+            None => return HandshakeResult::Error(ProtocolError::CorruptedHSPacket),
+        };
+        if scanner.has_left(payload_l) {
             // we're done here
             return unsafe {
                 // UNSAFE(@ohsayan): we just checked buffered size
@@ -350,7 +353,7 @@ impl<'a> CHandshake<'a> {
                 uname_l,
                 pwd_l,
             },
-            expect: (uname_l + pwd_l),
+            expect: payload_l,
         }
     }
 }
@@ -402,7 +405,7 @@ impl<'a> CHandshake<'a> {
                 // newline missing (or maybe there's more?)
                 return HandshakeResult::ChangeState {
                     new_state: HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l },
-                    expect: uname_l + 2, // space for username + password len
+                    expect: uname_l.saturating_add(2), // space for username + password len
                 };
             }
             ScannerDecodeResult::Error => {
-- 
2.43.0


From a8422832583ce1932c980951f7668b1744f6c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:27 +0000
Subject: [PATCH 17/57] fix: statements that end early must not read past their
 last token

---
 server/src/engine/ql/ast/mod.rs | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 5446f58..3a14735 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -32,7 +32,7 @@ pub use traits::{
 };
 
 use {
-    super::lex::{Keyword, KeywordStmt, Token},
+    super::lex::{Keyword, KeywordStmt, Symbol, Token},
     crate::{
         engine::{
             core::EntityIDRef,
@@ -88,12 +88,9 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     }
     pub fn try_entity_buffered_into_state_uninit(&mut self) -> MaybeInit<EntityIDRef<'a>> {
         let mut ret = MaybeInit::uninit();
-        let self_has_full = Self::_entity_signature_match_self_full(
-            &self.t[self.cursor()],
-            &self.t[self.cursor() + 1],
-            &self.t[self.cursor() + 2],
-        );
-        let self_has_full_cs = self._entity_signature_match_cs(&self.t[self.cursor()]);
+        let self_has_full =
+            Self::_entity_signature_match_self_full(self.peek(0), self.peek(1), self.peek(2));
+        let self_has_full_cs = self._entity_signature_match_cs(self.peek(0));
         unsafe {
             if self_has_full {
                 ret = MaybeInit::new(self._entity_new_from_tokens());
@@ -105,12 +102,9 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
         ret
     }
     pub fn try_entity_ref(&mut self) -> Option<EntityIDRef<'a>> {
-        let self_has_full = Self::_entity_signature_match_self_full(
-            self.offset_current_r(0),
-            self.offset_current_r(1),
-            self.offset_current_r(2),
-        );
-        let self_has_pre_full = self._entity_signature_match_cs(self.offset_current_r(0));
+        let self_has_full =
+            Self::_entity_signature_match_self_full(self.peek(0), self.peek(1), self.peek(2));
+        let self_has_pre_full = self._entity_signature_match_cs(self.peek(0));
         if self_has_full {
             unsafe {
                 // UNSAFE(@ohsayan): +branch condition
@@ -180,9 +174,18 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
         self.cursor_ahead_by(iff as _);
     }
     #[inline(always)]
+    /// Returns the token at the given offset from the cursor. Past the end of the statement, this is a token that no
+    /// grammar rule accepts
+    fn peek(&self, offset: usize) -> &'a Token<'a> {
+        match self.t.get(self.i + offset) {
+            Some(token) => token,
+            None => &Token::Symbol(Symbol::SymBackslash),
+        }
+    }
+    #[inline(always)]
     /// Read the cursor
     pub fn read(&self) -> &'a Token<'a> {
-        &self.t[self.i]
+        self.peek(0)
     }
     #[inline(always)]
     /// Return a subslice of the tokens using the current state
@@ -196,7 +199,7 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     #[inline(always)]
     /// Returns a count of the number of consumable tokens remaining
     pub fn remaining(&self) -> usize {
-        self.t.len() - self.i
+        self.t.len().saturating_sub(self.i)
     }
     #[inline(always)]
     /// Read and forward the cursor
@@ -257,7 +260,7 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     #[inline(always)]
     /// Check if the cursor equals the given token
     pub(crate) fn cursor_eq(&self, token: Token) -> bool {
-        self.t[self.i] == token
+        *self.read() == token
     }
     #[inline(always)]
     /// Move the cursor back by 1
-- 
2.43.0


From 09e2d0e2359a9dec04a126887269c5aa1b903e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 18/57] fix: do not execute statements with an unterminated
 list, tuple or map, a dangling and, or a non-literal limit

---
 server/src/engine/ql/dml/ins.rs | 3 +++
 server/src/engine/ql/dml/mod.rs | 2 ++
 server/src/engine/ql/dml/sel.rs | 2 +-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/ql/dml/ins.rs b/server/src/engine/ql/dml/ins.rs
index 9bd4069..85bbeaa 100644
--- a/server/src/engine/ql/dml/ins.rs
+++ b/server/src/engine/ql/dml/ins.rs
@@ -180,6 +180,7 @@ pub(super) fn parse_list<'a, Qd: QueryData<'a>>(
         state.cursor_ahead_if(state.okay());
         stop = nx_csqrb;
     }
+    state.poison_if_not(stop);
     overall_dscr
 }
 
@@ -234,6 +235,7 @@ pub(super) fn parse_data_tuple_syntax<'a, Qd: QueryData<'a>>(
         state.cursor_ahead_if(state.okay());
         stop = nx_csprn;
     }
+    state.poison_if_not(stop);
     data
 }
 
@@ -290,6 +292,7 @@ pub(super) fn parse_data_map_syntax<'a, Qd: QueryData<'a>>(
         state.cursor_ahead_if(state.okay());
         stop = nx_csbrc;
     }
+    state.poison_if_not(stop);
     data
 }
 
diff --git a/server/src/engine/ql/dml/mod.rs b/server/src/engine/ql/dml/mod.rs
index 2c23a82..3965238 100644
--- a/server/src/engine/ql/dml/mod.rs
+++ b/server/src/engine/ql/dml/mod.rs
@@ -146,6 +146,8 @@ impl<'a> WhereClause<'a> {
             has_more = state.cursor_rounded_eq(Token![and]);
             state.cursor_ahead_if(has_more);
         }
+        // an `and` must be followed by another clause
+        state.poison_if(has_more);
     }
     #[inline(always)]
     /// Parse a where context
diff --git a/server/src/engine/ql/dml/sel.rs b/server/src/engine/ql/dml/sel.rs
index e379db2..a4bb5d6 100644
--- a/server/src/engine/ql/dml/sel.rs
+++ b/server/src/engine/ql/dml/sel.rs
@@ -208,7 +208,7 @@ impl<'a> SelectAllStatement<'a> {
         let entity = state.try_entity_buffered_into_state_uninit();
         state.poison_if_not(state.cursor_rounded_eq(Token![limit]));
         state.cursor_ahead_if(state.okay()); // we did read limit
-        state.poison_if(state.exhausted()); // we MUST have the limit
+        state.poison_if_not(state.can_read_lit_rounded()); // we MUST have the limit
         if state.okay() {
             let lit = unsafe { state.fw_read().uck_read_lit() };
             match lit.try_uint() {
-- 
2.43.0


From c3bbc82f1d516fb96b7ae4b93237b8e020784b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 19/57] fix: limit the nesting depth of statements, deeply
 nested ones overflowed the stack

---
 server/src/engine/ql/ast/mod.rs | 17 +++++++++++++++++
 server/src/engine/ql/ddl/syn.rs |  6 ++++--
 server/src/engine/ql/dml/ins.rs |  2 +-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 3a14735..41cbc6f 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -43,12 +43,17 @@ use {
     },
 };
 
+/// The maximum depth to which lists, dictionaries and types can be nested (collections are parsed, encoded and dropped
+/// recursively)
+const MAX_NESTING_DEPTH: usize = 128;
+
 #[derive(Debug, PartialEq)]
 /// Query parse state
 pub struct State<'a, Qd> {
     t: &'a [Token<'a>],
     d: Qd,
     i: usize,
+    n: usize,
     f: bool,
     cs: Option<&'static str>,
 }
@@ -132,6 +137,7 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     pub const fn new(t: &'a [Token<'a>], d: Qd) -> Self {
         Self {
             i: 0,
+            n: 0,
             f: true,
             t,
             d,
@@ -158,6 +164,17 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     pub fn poison_if_not(&mut self, fuse: bool) {
         self.poison_if(!fuse);
     }
+    /// Parse a nested collection. The state is poisoned if we're nested too deep
+    pub fn nested<T: Default>(&mut self, parse: impl FnOnce(&mut Self) -> T) -> T {
+        if self.n == MAX_NESTING_DEPTH {
+            self.poison();
+            return T::default();
+        }
+        self.n += 1;
+        let ret = parse(self);
+        self.n -= 1;
+        ret
+    }
     #[inline(always)]
     /// Move the cursor ahead by 1
     pub fn cursor_ahead(&mut self) {
diff --git a/server/src/engine/ql/ddl/syn.rs b/server/src/engine/ql/ddl/syn.rs
index 1c1a938..3dc25e0 100644
--- a/server/src/engine/ql/ddl/syn.rs
+++ b/server/src/engine/ql/ddl/syn.rs
@@ -189,7 +189,9 @@ where
             (Token![open {}], DictFoldState::LIT_OR_OB) => {
                 // found a nested dict
                 let mut ndict = DictGeneric::new();
-                _rfold_dict::<Qd, NoBreakpoint>(DictFoldState::CB_OR_IDENT, state, &mut ndict);
+                state.nested(|state| {
+                    _rfold_dict::<Qd, NoBreakpoint>(DictFoldState::CB_OR_IDENT, state, &mut ndict)
+                });
                 state.poison_if_not(
                     dict.insert(
                         unsafe {
@@ -291,7 +293,7 @@ fn rfold_layers<'a, Qd: QueryData<'a>>(state: &mut State<'a, Qd>, layers: &mut V
                     // but we first need a colon
                     state.poison_if_not(state.cursor_rounded_eq(Token![:]));
                     state.cursor_ahead_if(state.okay());
-                    rfold_layers(state, layers);
+                    state.nested(|state| rfold_layers(state, layers));
                     // we are yet to parse the remaining props
                     mstate = LayerFoldState::FOLD_INCOMPLETE;
                 } else {
diff --git a/server/src/engine/ql/dml/ins.rs b/server/src/engine/ql/dml/ins.rs
index 85bbeaa..b7feea5 100644
--- a/server/src/engine/ql/dml/ins.rs
+++ b/server/src/engine/ql/dml/ins.rs
@@ -143,7 +143,7 @@ pub(super) fn parse_list<'a, Qd: QueryData<'a>>(
             Token![open []] => {
                 // a nested list
                 let mut nested_list = Vec::new();
-                let nlist_dscr = parse_list(state, &mut nested_list);
+                let nlist_dscr = state.nested(|state| parse_list(state, &mut nested_list));
                 // check type return
                 state.poison_if_not(
                     prev_nlist_dscr.is_none()
-- 
2.43.0


From bc7cc9019df3f8668ce66be4787352e85604f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 20/57] fix: a null nullable property panicked ALTER MODEL

---
 server/src/engine/core/model/alt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/model/alt.rs b/server/src/engine/core/model/alt.rs
index 90421d0..4f30e9a 100644
--- a/server/src/engine/core/model/alt.rs
+++ b/server/src/engine/core/model/alt.rs
@@ -82,7 +82,10 @@ fn no_field(mr: &ModelData, new: &str) -> bool {
 
 fn check_nullable(props: &mut HashMap<Box<str>, DictEntryGeneric>) -> QueryResult<bool> {
     match props.remove("nullable") {
-        Some(DictEntryGeneric::Data(b)) if b.kind() == TagClass::Bool => Ok(b.bool()),
+        Some(DictEntryGeneric::Data(b)) => {
+            // NB: a null also has the tag of a bool
+            b.try_bool().ok_or(QueryError::QExecDdlInvalidProperties)
+        }
         Some(_) => Err(QueryError::QExecDdlInvalidProperties),
         None => Ok(false),
     }
-- 
2.43.0


From 005a7da66b987a35ed287558dd4b7f8271804c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:41 +0000
Subject: [PATCH 21/57] fix: a stalled TLS handshake must not hold up other
 clients

---
 server/src/engine/net/mod.rs | 45 +++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/server/src/engine/net/mod.rs b/server/src/engine/net/mod.rs
index 4467fd8..9f87da5 100644
--- a/server/src/engine/net/mod.rs
+++ b/server/src/engine/net/mod.rs
@@ -261,14 +261,7 @@ impl Listener {
     }
     pub async fn listen_tls(&mut self, acceptor: &SslAcceptor) {
         loop {
-            let stream = async {
-                let (stream, _) = self.accept().await?;
-                let ssl = Ssl::new(acceptor.context())?;
-                let mut stream = SslStream::new(ssl, stream)?;
-                Pin::new(&mut stream).accept().await?;
-                RuntimeResult::Ok(stream)
-            };
-            let stream = match stream.await {
+            let (stream, _) = match self.accept().await {
                 Ok(s) => s,
                 Err(e) => {
                     /*
@@ -278,13 +271,37 @@ impl Listener {
                     continue;
                 }
             };
-            let mut handler = ConnectionHandler::new(
-                stream,
-                self.global.clone(),
-                self.sig_shutdown.subscribe(),
-                self.sig_inflight.clone(),
-            );
+            let ssl = match Ssl::new(acceptor.context()) {
+                Ok(ssl) => ssl,
+                Err(e) => {
+                    warn!("failed to initialize TLS session: `{e}`");
+                    continue;
+                }
+            };
+            let global = self.global.clone();
+            let mut sig_terminate = self.sig_shutdown.subscribe();
+            let sig_inflight = self.sig_inflight.clone();
+            // NB: a client that is slow to complete the TLS handshake must not hold up the other clients
             tokio::spawn(async move {
+                let stream = async {
+                    let mut stream = SslStream::new(ssl, stream)?;
+                    Pin::new(&mut stream).accept().await?;
+                    RuntimeResult::Ok(stream)
+                };
+                let stream = tokio::select! {
+                    stream = stream => match stream {
+                        Ok(s) => s,
+                        Err(e) => {
+                            /*
+                                SECURITY: Once again, ignore this error
+                            */
+                            warn!("failed to accept connection on TLS socket: `{e}`");
+                            return;
+                        }
+                    },
+                    _ = sig_terminate.recv() => return,
+                };
+                let mut handler = ConnectionHandler::new(stream, global, sig_terminate, sig_inflight);
                 if let Err(e) = handler.run().await {
                     warn!("error handling client TLS connection: `{e}`");
                 }
-- 
2.43.0


From d5e5522c27b7039eedea7552eafacb7eb4eeedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 22/57] fix: continue short writes where they stopped and retry
 interrupted ones

---
 server/src/engine/storage/common/interface/fs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/storage/common/interface/fs.rs b/server/src/engine/storage/common/interface/fs.rs
index 5855182..0c3727e 100644
--- a/server/src/engine/storage/common/interface/fs.rs
+++ b/server/src/engine/storage/common/interface/fs.rs
@@ -156,7 +156,7 @@ pub trait FileWrite {
         let len = buf.len() as u64;
         let mut written = 0;
         while written != len {
-            match self.fwrite(buf) {
+            match self.fwrite(&buf[written as usize..]) {
                 Ok(0) => {
                     return (
                         written,
@@ -168,6 +168,8 @@ pub trait FileWrite {
                     )
                 }
                 Ok(n) => written += n,
+                // NB: nothing was written, so we can simply try again
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                 Err(e) => return (written, Err(e)),
             }
         }
-- 
2.43.0


From 23c71931bfde9ade07e734b9ee5194b3d6adc8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 23/57] fix: remove a failed event from the journal instead of
 leaving it unusable

---
 .../storage/common/sdss/impls/sdss_r1/rw.rs   | 22 ++++++++++++++
 .../engine/storage/v2/raw/journal/raw/mod.rs  | 30 ++++++++++++++-----
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index 11e4410..8dac553 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -346,6 +346,21 @@ impl<
     pub fn __zero_buffer(&mut self) {
         self.buf.clear()
     }
+    /// Forget everything that was written since the given checksum state was obtained
+    ///
+    /// NB: Whatever has reached the file stays there (and the cursor still accounts for it) until [`Self::truncate_to`] is called
+    pub fn discard_since(&mut self, checksum: SCrc64) {
+        self.__zero_buffer();
+        self.t_partial_checksum = SCrc64::new();
+        self.t_checksum = checksum;
+    }
+    /// Remove everything in the file past the given cursor and continue writing from there
+    pub fn truncate_to(&mut self, cursor: u64) -> IoResult<()> {
+        self.f_d.f_truncate(cursor)?;
+        self.f_d.f_seek_start(cursor)?;
+        self.t_cursor = cursor;
+        self.fsync()
+    }
 }
 
 impl<
@@ -411,6 +426,9 @@ impl<
     pub fn current_checksum(&self) -> u64 {
         self.t_checksum.clone().finish()
     }
+    pub fn checksum(&self) -> SCrc64 {
+        self.t_checksum.clone()
+    }
 }
 
 impl<
@@ -460,6 +478,10 @@ impl<
     /// On error, if block error checksumming is set then whatever part of the block was written
     /// will be updated in the checksum. If disabled, then the checksum is unchanged.
     pub fn tracked_write(&mut self, buf: &[u8]) -> IoResult<()> {
+        if self.available_capacity() < buf.len() {
+            // NB: these bytes are not a part of this block (and they're already a part of the checksum)
+            self.flush_buf()?;
+        }
         let cursor_start = self.cursor_usize();
         match self.untracked_write(buf) {
             Ok(()) => {
diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 6a53516..7fc8562 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -475,6 +475,7 @@ pub struct RawJournalWriter<J: RawJournalAdapter> {
     txn_id: u64,
     known_txn_id: u64,
     known_txn_offset: u64, // if offset is 0, txn id is unset
+    rollback: Option<u64>, // if set, an event failed midway and everything past this offset has to be removed
 }
 
 impl<J: RawJournalAdapter + fmt::Debug> fmt::Debug for RawJournalWriter<J>
@@ -502,6 +503,7 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
             known_txn_id: j_.last_txn_id(),
             known_txn_offset: j_.last_offset(),
             txn_id: j_.txn_id(),
+            rollback: None,
             j: J::initialize(&j_),
         };
         if j_.is_new() {
@@ -566,18 +568,19 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
     {
         self.commit_with_ctx(event, Default::default())
     }
-    /// WARNING: ONLY CALL AFTER A FAILURE EVENT. THIS WILL EMPTY THE UNFLUSHED BUFFER
+    /// Remove whatever an event that failed has left in the file
     pub fn __lwt_heartbeat(&mut self) -> RuntimeResult<()> {
+        if let Some(cursor) = self.rollback {
+            self.log_file.truncate_to(cursor)?;
+            self.rollback = None;
+        }
         // verify that the on disk cursor is the same as what we know
         self.log_file.verify_cursor()?;
-        if self.log_file.cursor() == self.known_txn_offset {
-            // great, so if there was something in the buffer, simply ignore it
-            self.log_file.__zero_buffer();
-            Ok(())
-        } else {
-            // so, the on-disk file probably has some partial state. this is bad. throw an error
-            Err(StorageError::RawJournalRuntimeCriticalLwtHBFail.into())
+        if self.log_file.is_dirty() {
+            // so, there's an event that isn't fully on disk. this is bad. throw an error
+            return Err(StorageError::RawJournalRuntimeCriticalLwtHBFail.into());
         }
+        Ok(())
     }
 }
 
@@ -586,12 +589,23 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
         &mut self,
         f: impl FnOnce(&mut Self, u128) -> RuntimeResult<T>,
     ) -> RuntimeResult<T> {
+        if self.rollback.is_some() {
+            // we can't append anything to an event that's only partially on disk
+            self.__lwt_heartbeat()?;
+        }
         let id = self.txn_id;
+        let cursor = self.log_file.cursor();
+        let checksum = self.log_file.checksum();
         self.txn_id += 1;
         let ret = f(self, id as u128);
         if ret.is_ok() {
             self.known_txn_id = id;
             self.known_txn_offset = self.log_file.cursor();
+        } else {
+            // this event never happened, so the next one takes its place
+            self.txn_id = id;
+            self.log_file.discard_since(checksum);
+            self.rollback = Some(cursor);
         }
         ret
     }
-- 
2.43.0


From c01a8b51522512e89b0eb73e21600b0b3c4505ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 24/57] fix: do not lose or double count the changes of a batch
 that could not be written

---
 server/src/engine/core/model/delta.rs         | 21 +++++++++-
 server/src/engine/fractal/mgr.rs              | 39 ++++++++++---------
 .../engine/storage/v2/impls/mdl_journal.rs    | 32 ++++++---------
 3 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index bdc3928..381b48d 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -33,8 +33,12 @@ use {
         sync::atm::Guard,
         sync::queue::Queue,
     },
+    parking_lot::Mutex,
     std::{
-        collections::btree_map::{BTreeMap, Range},
+        collections::{
+            btree_map::{BTreeMap, Range},
+            VecDeque,
+        },
         sync::atomic::{AtomicU64, AtomicUsize, Ordering},
     },
 };
@@ -49,6 +53,8 @@ pub struct DeltaState {
     data_current_version: AtomicU64,
     data_deltas: Queue<DataDelta>,
     data_deltas_size: AtomicUsize,
+    /// deltas that were taken by a batch that could not be written; they come before everything in the queue
+    data_deltas_failed: Mutex<VecDeque<DataDelta>>,
 }
 
 impl DeltaState {
@@ -60,6 +66,7 @@ impl DeltaState {
             data_current_version: AtomicU64::new(0),
             data_deltas: Queue::new(),
             data_deltas_size: AtomicUsize::new(0),
+            data_deltas_failed: Mutex::new(VecDeque::new()),
         }
     }
     /// Set the delta version, if it is newer than the current one (an older batch might have the newest version)
@@ -107,8 +114,20 @@ impl DeltaState {
         self.data_current_version.fetch_add(1, Ordering::AcqRel)
     }
     pub fn __data_delta_dequeue(&self, g: &Guard) -> Option<DataDelta> {
+        if let Some(delta) = self.data_deltas_failed.lock().pop_front() {
+            return Some(delta);
+        }
         self.data_deltas.blocking_try_dequeue(g)
     }
+    /// Put back the deltas of a batch that failed, to be taken (in the same order) by the next batch
+    ///
+    /// NB: this doesn't count them as new deltas
+    pub fn __data_delta_put_back(&self, deltas: Vec<DataDelta>) {
+        let mut failed = self.data_deltas_failed.lock();
+        for delta in deltas.into_iter().rev() {
+            failed.push_front(delta);
+        }
+    }
 }
 
 // schema
diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 71fb33c..7c0948b 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -304,12 +304,11 @@ impl FractalMgr {
         &self,
         model_id: ModelUniqueID,
         observed_size: usize,
-        stats: BatchStats,
         threshold: usize,
     ) {
         self.hp_dispatcher
             .send(Task::with_threshold(
-                CriticalTask::WriteBatch(model_id, observed_size - stats.get_actual()),
+                CriticalTask::WriteBatch(model_id, observed_size),
                 threshold,
             ))
             .unwrap()
@@ -386,6 +385,7 @@ impl FractalMgr {
                     }
                 };
                 match self.try_write_model_data_batch(
+                    &global,
                     ModelUniqueIDRef::from(&model_id),
                     mdl.data(),
                     observed_size,
@@ -396,7 +396,7 @@ impl FractalMgr {
                             info!("fhp: completed maintenance task for {model_id}, synced={observed_size}")
                         }
                     }
-                    Err((err, stats)) => {
+                    Err(err) => {
                         error!(
                             "fhp: failed to sync data deltas for model {} with {err}. retrying ...",
                             model_id.uuid()
@@ -405,7 +405,6 @@ impl FractalMgr {
                         self.re_enqueue_model_sync(
                             model_id,
                             observed_size,
-                            stats,
                             Self::adjust_threshold(threshold),
                         )
                     }
@@ -477,6 +476,7 @@ impl FractalMgr {
                 .delta_state()
                 .__fractal_take_full_from_data_delta(super::FractalToken::new());
             match self.try_write_model_data_batch(
+                &global,
                 ModelUniqueIDRef::new(model_id.space(), model_id.entity(), model.data().get_uuid()),
                 model.data(),
                 observed_len,
@@ -491,7 +491,7 @@ impl FractalMgr {
                         )
                     }
                 }
-                Err((e, stats)) => {
+                Err(e) => {
                     info!(
                         "flp: failed to sync data for {}.{} with erro `{e}`. promoting to higher priority",
                         model_id.space(), model_id.entity(),
@@ -504,7 +504,6 @@ impl FractalMgr {
                             model.data().get_uuid(),
                         ),
                         observed_len,
-                        stats,
                         TASK_THRESHOLD,
                     )
                 }
@@ -520,27 +519,26 @@ impl FractalMgr {
     /// The zero check is essential
     fn try_write_model_data_batch(
         &'static self,
+        global: &super::Global,
         mdl_id: ModelUniqueIDRef,
         model: &ModelData,
         observed_size: usize,
         mdl_driver_: &super::drivers::FractalModelDriver,
-    ) -> Result<(), (super::error::Error, BatchStats)> {
-        if mdl_driver_.status().is_iffy() {
-            // don't mess this up any further
-            return Err((
-                super::error::Error::from(ErrorKind::Other(
-                    "model driver is in dirty state".into(),
-                )),
-                BatchStats::into_inner(BatchStats::new()),
-            ));
-        }
+    ) -> Result<(), super::error::Error> {
         if observed_size == 0 {
             // no changes, all good
             return Ok(());
         }
+        let mut mdl_driver = mdl_driver_.batch_driver().lock();
+        // NB: check the status only after acquiring the lock as another batch might have just failed
+        if mdl_driver_.status().is_iffy() {
+            // don't mess this up any further
+            return Err(super::error::Error::from(ErrorKind::Other(
+                "model driver is in dirty state".into(),
+            )));
+        }
         // try flushing the batch
         let batch_stats = BatchStats::new();
-        let mut mdl_driver = mdl_driver_.batch_driver().lock();
         let batch_driver = mdl_driver.as_mut().unwrap();
         batch_driver
             .commit_with_ctx(
@@ -548,13 +546,18 @@ impl FractalMgr {
                 batch_stats.clone(),
             )
             .map_err(|e| {
+                // nothing from this batch has been (or will be) retained by the journal
+                model
+                    .delta_state()
+                    .__data_delta_put_back(BatchStats::into_inner(batch_stats).into_taken());
                 mdl_driver_.status().set_iffy();
+                global.health().report_fault();
                 self.hp_dispatcher
                     .send(Task::new(CriticalTask::TryModelAutorecoverLWT(
                         mdl_id.into(),
                     )))
                     .unwrap();
-                (e, BatchStats::into_inner(batch_stats))
+                e
             })
     }
 }
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 4bc7aeb..e7788d8 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -219,9 +219,8 @@ impl<'a, 'b> BatchWriter<'a, 'b> {
         batch_stat: &mut BatchStats,
     ) -> RuntimeResult<usize> {
         /*
-            go over each delta, check if inconsistent and apply if not. if any delta sync fails, we enqueue the delta again.
-            Since the diffing algorithm will ensure that a stale delta is never written, we don't have to worry about checking
-            if the delta is stale or not manually. It will be picked up by another collection sequence.
+            go over each delta, check if inconsistent and apply if not. every delta taken is kept with the batch stats, so that
+            all of them can be put back if the batch (or anything after it) fails: an incomplete batch is removed from the journal
 
             There are several scopes of improvement, but one that is evident here is to try and use a sequential memory block
             rather than remote allocations for the deltas which should theoretically improve performance. But as always, we're bound by
@@ -230,18 +229,10 @@ impl<'a, 'b> BatchWriter<'a, 'b> {
             -- @ohsayan
         */
         let mut me = Self::new(model, g, f)?;
-        let mut i = 0;
-        while i < expected {
+        for _ in 0..expected {
             let delta = me.model.delta_state().__data_delta_dequeue(me.g).unwrap();
-            match me.step(&delta) {
-                Ok(()) => i += 1,
-                Err(e) => {
-                    // errored, so push this back in; we have written and flushed all prior deltas
-                    me.model.delta_state().append_new_data_delta(delta, me.g);
-                    batch_stat.set_actual(i);
-                    return Err(e);
-                }
-            }
+            batch_stat.taken.push(delta);
+            me.step(batch_stat.taken.last().unwrap())?;
         }
         Ok(me.sync_count)
     }
@@ -407,21 +398,20 @@ impl DecodedBatchEvent {
 }
 
 pub struct BatchStats {
-    actual_commit: usize,
+    /// the deltas that this batch took from the model
+    taken: Vec<DataDelta>,
 }
 
 impl BatchStats {
     pub fn new() -> Rc<RefCell<Self>> {
-        Rc::new(RefCell::new(Self { actual_commit: 0 }))
+        Rc::new(RefCell::new(Self { taken: Vec::new() }))
     }
     pub fn into_inner(me: Rc<RefCell<Self>>) -> Self {
         RefCell::into_inner(Rc::into_inner(me).unwrap())
     }
-    fn set_actual(&mut self, new: usize) {
-        self.actual_commit = new;
-    }
-    pub fn get_actual(&self) -> usize {
-        self.actual_commit
+    /// Returns the deltas that were taken by this batch (in order)
+    pub fn into_taken(self) -> Vec<DataDelta> {
+        self.taken
     }
 }
 
-- 
2.43.0


From f1cdf8467340fb35eae77082be81ba1b9697300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:59 +0000
Subject: [PATCH 25/57] fix: dropping models must not postpone the flush of
 pending changes

---
 server/src/engine/fractal/mgr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 7c0948b..50e954a 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -424,6 +424,9 @@ impl FractalMgr {
         rs_window: u64,
     ) {
         let dur = std::time::Duration::from_secs(rs_window);
+        // NB: the window must not start over when some other task is received
+        let mut window = tokio::time::interval_at(tokio::time::Instant::now() + dur, dur);
+        window.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
         loop {
             tokio::select! {
                 _ = sigterm.recv() => {
@@ -433,7 +436,7 @@ impl FractalMgr {
                     info!("flp: exited executor service");
                     break;
                 },
-                _ = tokio::time::sleep(dur) => {
+                _ = window.tick() => {
                     let global = global.clone();
                     tokio::task::spawn_blocking(|| self.general_executor(global)).await.unwrap()
                 }
-- 
2.43.0


From 0c02ca296c57bdf1457e8d589d338476445eb2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 26/57] fix: flush after the last connection is gone at
 shutdown, changes acknowledged meanwhile were lost

The background services were told to stop together with the connections, so
the final flush could run while queries were still being executed. Also wait
for them if an endpoint can't be initialized, and don't retry forever.
---
 server/src/engine/fractal/mgr.rs | 49 +++++++++++++++++++++++++-------
 server/src/engine/mod.rs         | 39 ++++++++++++++++---------
 2 files changed, 65 insertions(+), 23 deletions(-)

diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 50e954a..3b54116 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -208,13 +208,25 @@ impl FractalBoot {
             hp_recv,
         }
     }
-    pub fn boot(self, sigterm: &broadcast::Sender<()>, rs_window: u64) -> FractalHandle {
+    pub fn boot(
+        self,
+        lp_sigterm: &broadcast::Sender<()>,
+        hp_sigterm: &broadcast::Sender<()>,
+        rs_window: u64,
+    ) -> FractalHandle {
         let Self {
             global,
             lp_recv: lp_receiver,
             hp_recv: hp_receiver,
         } = self;
-        FractalMgr::start_all(global, sigterm, lp_receiver, hp_receiver, rs_window)
+        FractalMgr::start_all(
+            global,
+            lp_sigterm,
+            hp_sigterm,
+            lp_receiver,
+            hp_receiver,
+            rs_window,
+        )
     }
 }
 
@@ -222,7 +234,8 @@ impl FractalMgr {
     /// Start all background services, and return their handles
     pub(super) fn start_all(
         global: super::Global,
-        sigterm: &broadcast::Sender<()>,
+        lp_sigterm: &broadcast::Sender<()>,
+        hp_sigterm: &broadcast::Sender<()>,
         lp_receiver: UnboundedReceiver<Task<GenericTask>>,
         hp_receiver: UnboundedReceiver<Task<CriticalTask>>,
         rs_window: u64,
@@ -230,11 +243,11 @@ impl FractalMgr {
         let fractal_mgr = global.get_state().fractal_mgr();
         let global_1 = global.clone();
         let global_2 = global.clone();
-        let sigterm_rx = sigterm.subscribe();
+        let sigterm_rx = hp_sigterm.subscribe();
         let hp_handle = tokio::spawn(async move {
             FractalMgr::hp_executor_svc(fractal_mgr, global_1, hp_receiver, sigterm_rx).await
         });
-        let sigterm_rx = sigterm.subscribe();
+        let sigterm_rx = lp_sigterm.subscribe();
         let lp_handle = tokio::spawn(async move {
             FractalMgr::general_executor_svc(
                 fractal_mgr,
@@ -273,7 +286,10 @@ impl FractalMgr {
                 task = receiver.recv() => {
                     match task {
                         Some(t) => {
-                            t.sleep().await;
+                            tokio::select! {
+                                _ = t.sleep() => {}
+                                _ = sigterm.recv() => {}
+                            }
                             t
                         },
                         None => {
@@ -284,9 +300,19 @@ impl FractalMgr {
                 }
                 _ = sigterm.recv() => {
                     info!("fhp: finishing pending tasks");
-                    while let Ok(task) = receiver.try_recv() {
-                        let global = global.clone();
-                        tokio::task::spawn_blocking(move || self.hp_executor(global, task)).await.unwrap()
+                    // a task that fails posts itself again, so give up at some point
+                    for _ in 0..TASK_THRESHOLD {
+                        let mut pending = Vec::new();
+                        while let Ok(task) = receiver.try_recv() {
+                            pending.push(task)
+                        }
+                        if pending.is_empty() {
+                            break;
+                        }
+                        for task in pending {
+                            let global = global.clone();
+                            tokio::task::spawn_blocking(move || self.hp_executor(global, task)).await.unwrap()
+                        }
                     }
                     info!("fhp: exited executor service");
                     break;
@@ -443,7 +469,10 @@ impl FractalMgr {
                 task = lpq.recv() => {
                     let Task { threshold, task } = match task {
                         Some(t) => {
-                            t.sleep().await;
+                            tokio::select! {
+                                _ = t.sleep() => {}
+                                _ = sigterm.recv() => {}
+                            }
                             t
                         },
                         None => {
diff --git a/server/src/engine/mod.rs b/server/src/engine/mod.rs
index 101ee06..5482c8c 100644
--- a/server/src/engine/mod.rs
+++ b/server/src/engine/mod.rs
@@ -120,11 +120,34 @@ pub async fn start(
     }: Configuration,
     fractal::GlobalStateStart { global, boot }: fractal::GlobalStateStart,
 ) -> RuntimeResult<()> {
-    // create our system-wide channel
-    let (signal, _) = broadcast::channel::<()>(1);
     // start our services
     context::set_dmsg("starting fractal engine");
-    let fractal_handle = boot.boot(&signal, system.reliability_system_window);
+    // NB: the services must outlive all connections, or else the changes made by the last queries would never be flushed
+    let (lp_signal, _) = broadcast::channel::<()>(1);
+    let (hp_signal, _) = broadcast::channel::<()>(1);
+    let fractal_handle = boot.boot(&lp_signal, &hp_signal, system.reliability_system_window);
+    let result = serve(termsig, endpoints, global).await;
+    info!("waiting for fractal engine to exit ...");
+    // run the final flush first since it might need the high priority executor
+    drop(lp_signal);
+    if let Err(e) = fractal_handle.lp_handle.await {
+        error!("error while terminating flp-executor: {e}")
+    }
+    drop(hp_signal);
+    if let Err(e) = fractal_handle.hp_handle.await {
+        error!("error while terminating fhp-executor: {e}")
+    }
+    result
+}
+
+/// Serve clients until we receive a termination signal. All connections have been closed when this returns
+async fn serve(
+    termsig: TerminationSignal,
+    endpoints: ConfigEndpoint,
+    global: fractal::Global,
+) -> RuntimeResult<()> {
+    // create our system-wide channel
+    let (signal, _) = broadcast::channel::<()>(1);
     // create our server
     context::set(Subsystem::Network, "initializing endpoints");
     let str;
@@ -179,16 +202,6 @@ pub async fn start(
     }
     drop(signal);
     endpoint_handles.finish().await;
-    info!("waiting for fractal engine to exit ...");
-    let (hp_handle, lp_handle) = tokio::join!(fractal_handle.hp_handle, fractal_handle.lp_handle);
-    match (hp_handle, lp_handle) {
-        (Err(e1), Err(e2)) => {
-            error!("error while terminating fhp-executor and lhp-executor: {e1};{e2}")
-        }
-        (Err(e), _) => error!("error while terminating fhp-executor: {e}"),
-        (_, Err(e)) => error!("error while terminating flp-executor: {e}"),
-        _ => {}
-    }
     Ok(())
 }
 
-- 
2.43.0


From a0efed9a596c4eeb0330d66dad651a1b356e008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:04 +0000
Subject: [PATCH 27/57] fix: waiting to retry a failed task must not postpone
 the flush of pending changes

---
 server/src/engine/fractal/mgr.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 3b54116..bb7345f 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -469,9 +469,20 @@ impl FractalMgr {
                 task = lpq.recv() => {
                     let Task { threshold, task } = match task {
                         Some(t) => {
-                            tokio::select! {
-                                _ = t.sleep() => {}
-                                _ = sigterm.recv() => {}
+                            // NB: waiting to retry a failed task must not postpone the flush
+                            {
+                                let sleep = t.sleep();
+                                tokio::pin!(sleep);
+                                loop {
+                                    tokio::select! {
+                                        _ = &mut sleep => break,
+                                        _ = sigterm.recv() => break,
+                                        _ = window.tick() => {
+                                            let global = global.clone();
+                                            tokio::task::spawn_blocking(|| self.general_executor(global)).await.unwrap()
+                                        }
+                                    }
+                                }
                             }
                             t
                         },
-- 
2.43.0


From 6134cd1759f0c1437a9c16e3cb075e1076858a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:04 +0000
Subject: [PATCH 28/57] fix: free the buffer of a fixed capacity vector with
 its capacity, it was leaked

---
 server/src/engine/mem/fixed_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/mem/fixed_vec.rs b/server/src/engine/mem/fixed_vec.rs
index c6baa8c..2f1784d 100644
--- a/server/src/engine/mem/fixed_vec.rs
+++ b/server/src/engine/mem/fixed_vec.rs
@@ -135,7 +135,7 @@ impl<T, const CAP: usize> Drop for FixedVec<T, CAP> {
         self.clear();
         unsafe {
             // UNSAFE(@ohsayan): dealloc
-            unsafe_apis::dealloc_array(self.p.as_ptr(), self.len());
+            unsafe_apis::dealloc_array(self.p.as_ptr(), CAP);
         }
     }
 }
-- 
2.43.0


From b8f6234355c5d1fb331056f121c29f025dac24eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:21 +0000
Subject: [PATCH 29/57] fix: dropping a model whose driver failed left the
 server unhealthy forever

---
 server/src/engine/core/model/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index c6191bf..426f909 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -432,6 +432,10 @@ impl ModelData {
                     model.data().get_uuid(),
                 );
                 // update global state
+                if model.driver().status().is_iffy() {
+                    // the driver had a fault but it's gone now, so nobody else can report its recovery
+                    global.health().report_removal_of_faulty_source();
+                }
                 let _ = models_idx.remove(&EntityIDRef::new(&space_name, &model_name));
                 let _ = space.models_mut().remove(model_name);
                 if stmt.if_exists {
-- 
2.43.0


From 906fd87ed742f9dd70caf13bf15c5b41a4e261f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 30/57] fix: remove a failed reopen event and retry a failed
 close event

Both left a journal behind that could never be opened again.
---
 .../engine/storage/v2/raw/journal/raw/mod.rs  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 7fc8562..2b8a4ba 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -495,6 +495,9 @@ where
 
 const SERVER_EV_MASK: u64 = 1 << (u64::BITS - 1);
 
+/// The number of times we'll try to close a journal
+const CLOSE_ATTEMPTS: usize = 3;
+
 impl<J: RawJournalAdapter> RawJournalWriter<J> {
     /// Initialize a new [`RawJournalWriter`] using a [`JournalInitializer`]
     pub fn new(j_: JournalInitializer, file: SdssFile<J::Spec>) -> RuntimeResult<Self> {
@@ -511,7 +514,11 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
         } else {
             // not a new instance, so we must update the journal with a re-open event
             jtrace_writer!(ReinitializeAttempt);
-            Self::reopen_driver(&mut me)?;
+            if let Err(e) = Self::reopen_driver(&mut me) {
+                // leave the file as it was
+                let _ = me.__lwt_heartbeat();
+                return Err(e);
+            }
             jtrace_writer!(ReinitializeComplete);
         }
         Ok(me)
@@ -636,7 +643,15 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
     }
     /// Close driver
     pub fn close_driver(me: &mut Self) -> RuntimeResult<()> {
-        Self::_commit_driver_event(me, DriverEventKind::Closed)?;
+        // NB: a journal that isn't closed can't be opened again, so don't give up on the first error
+        let mut ret = Self::_commit_driver_event(me, DriverEventKind::Closed);
+        for _ in 1..CLOSE_ATTEMPTS {
+            if ret.is_ok() {
+                break;
+            }
+            ret = Self::_commit_driver_event(me, DriverEventKind::Closed);
+        }
+        ret?;
         jtrace_writer!(DriverClosed);
         Ok(())
     }
-- 
2.43.0


From e68a4e076684386b781d9d5b03733449970f56a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 31/57] fix: a start that fails must not leave journals behind
 that can't be opened again

If one file could not be loaded, the journals that had already been reopened
were not closed, so the next start was refused even with the problem solved.
---
 server/src/engine/fractal/mod.rs    |  6 ++++--
 server/src/engine/storage/v2/mod.rs | 28 +++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/server/src/engine/fractal/mod.rs b/server/src/engine/fractal/mod.rs
index f153ab7..6782e5b 100644
--- a/server/src/engine/fractal/mod.rs
+++ b/server/src/engine/fractal/mod.rs
@@ -273,7 +273,8 @@ impl Global {
         // TODO(@ohsayan): handle errors
         let GlobalState { gns, .. } = Self::__gref_raw().assume_init_read();
         let mut gns_driver = gns.gns_driver().txn_driver.lock();
-        GNSDriver::close_driver(&mut gns_driver).unwrap();
+        // NB: close everything that can be closed, even if something else can't be
+        let mut ret = GNSDriver::close_driver(&mut gns_driver);
         for mdl in gns
             .namespace()
             .idx_models()
@@ -281,8 +282,9 @@ impl Global {
             .drain()
             .map(|(_, mdl)| mdl)
         {
-            mdl.into_driver().close().unwrap();
+            ret = ret.and(mdl.into_driver().close());
         }
+        ret.unwrap();
     }
 }
 
diff --git a/server/src/engine/storage/v2/mod.rs b/server/src/engine/storage/v2/mod.rs
index 8d3bae3..a9865df 100644
--- a/server/src/engine/storage/v2/mod.rs
+++ b/server/src/engine/storage/v2/mod.rs
@@ -121,6 +121,30 @@ pub fn restore(cfg: &Configuration) -> RuntimeResult<SELoaded> {
     let gns = GNSData::empty();
     context::set_dmsg("loading gns");
     let mut gns_driver = impls::gns_log::GNSDriver::open_gns(&gns)?;
+    if let Err(e) = restore_all(cfg, &gns, &mut gns_driver) {
+        // close everything that was opened or else it can't be opened again, even if the problem is fixed
+        for (id, model) in gns.idx_models().read().iter() {
+            if let Some(driver) = model.driver().batch_driver().lock().as_mut() {
+                if let Err(e) = ModelDriver::close_driver(driver) {
+                    error!("failed to close {}.{}: {e}", id.space(), id.entity());
+                }
+            }
+        }
+        if let Err(e) = impls::gns_log::GNSDriver::close_driver(&mut gns_driver) {
+            error!("failed to close gns: {e}");
+        }
+        return Err(e);
+    }
+    Ok(SELoaded {
+        gns: GlobalNS::new(gns, FractalGNSDriver::new(gns_driver)),
+    })
+}
+
+fn restore_all(
+    cfg: &Configuration,
+    gns: &GNSData,
+    gns_driver: &mut impls::gns_log::GNSDriver,
+) -> RuntimeResult<()> {
     for (id, model) in gns.idx_models().write().iter_mut() {
         let model_data = model.data();
         let space_uuid = gns.idx().read().get(id.space()).unwrap().get_uuid();
@@ -149,7 +173,5 @@ pub fn restore(cfg: &Configuration) -> RuntimeResult<SELoaded> {
         gns.sys_db()
             .__raw_alter_user(SystemDatabase::ROOT_ACCOUNT, phash.into_boxed_slice());
     }
-    Ok(SELoaded {
-        gns: GlobalNS::new(gns, FractalGNSDriver::new(gns_driver)),
-    })
+    Ok(())
 }
-- 
2.43.0


From f410b7af961adaba2fe54b57bc2ce8787de99196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:22 +0000
Subject: [PATCH 32/57] fix: a first start that fails must not leave an
 incomplete system database behind

---
 server/src/engine/storage/v2/mod.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/server/src/engine/storage/v2/mod.rs b/server/src/engine/storage/v2/mod.rs
index a9865df..5a220a1 100644
--- a/server/src/engine/storage/v2/mod.rs
+++ b/server/src/engine/storage/v2/mod.rs
@@ -100,14 +100,25 @@ pub fn recreate(gns: GNSData) -> RuntimeResult<SELoaded> {
 
 pub fn initialize_new(config: &Configuration) -> RuntimeResult<SELoaded> {
     FileSystem::create_dir_all(DATA_DIR)?;
-    let mut gns_driver = impls::gns_log::GNSDriver::create_gns()?;
     let gns = GNSData::empty();
     let password_hash = rcrypt::hash(&config.auth.root_key, rcrypt::DEFAULT_COST).unwrap();
-    // now go ahead and initialize our root user
-    gns_driver.commit_event(CreateUserTxn::new(
-        SystemDatabase::ROOT_ACCOUNT,
-        &password_hash,
-    ))?;
+    let create_gns = || {
+        let mut gns_driver = impls::gns_log::GNSDriver::create_gns()?;
+        // now go ahead and initialize our root user
+        gns_driver.commit_event(CreateUserTxn::new(
+            SystemDatabase::ROOT_ACCOUNT,
+            &password_hash,
+        ))?;
+        RuntimeResult::Ok(gns_driver)
+    };
+    let gns_driver = match create_gns() {
+        Ok(driver) => driver,
+        Err(e) => {
+            // don't leave an incomplete system database behind as it can't be opened
+            let _ = FileSystem::remove_file(GNS_PATH);
+            return Err(e);
+        }
+    };
     assert!(gns.sys_db().__raw_create_user(
         SystemDatabase::ROOT_ACCOUNT.to_owned().into_boxed_str(),
         password_hash.into_boxed_slice(),
-- 
2.43.0


From b284c7e8d2c6af809e9626cfadb426dfd8448a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:12 +0000
Subject: [PATCH 33/57] fix: refuse passwords longer than 72 bytes, the rest of
 them was ignored

---
 server/src/engine/config.rs         | 10 +++++++++-
 server/src/engine/core/system_db.rs |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/config.rs b/server/src/engine/config.rs
index 9c1e8ee..836548b 100644
--- a/server/src/engine/config.rs
+++ b/server/src/engine/config.rs
@@ -25,7 +25,7 @@
 */
 
 use {
-    crate::engine::{error::RuntimeResult, fractal},
+    crate::engine::{core::system_db::SystemDatabase, error::RuntimeResult, fractal},
     core::fmt,
     serde::Deserialize,
     std::{collections::HashMap, fs},
@@ -963,6 +963,14 @@ fn validate_configuration<CS: ConfigurationSource>(
             CS::SOURCE,
             ConfigErrorKind::ErrorString("the root password must have at least 16 characters".into()),
         ).into(),
+        if config.auth.root_key.len() > SystemDatabase::PASSWORD_MAX_LEN => ConfigError::with_src(
+            CS::SOURCE,
+            ConfigErrorKind::ErrorString("the root password must have at most 72 bytes".into()),
+        ).into(),
+        if config.auth.root_key.contains('\0') => ConfigError::with_src(
+            CS::SOURCE,
+            ConfigErrorKind::ErrorString("the root password must not have NUL bytes".into()),
+        ).into(),
     );
     Ok(config)
 }
diff --git a/server/src/engine/core/system_db.rs b/server/src/engine/core/system_db.rs
index 7138d4d..f662216 100644
--- a/server/src/engine/core/system_db.rs
+++ b/server/src/engine/core/system_db.rs
@@ -71,6 +71,8 @@ impl VerifyUser {
 
 impl SystemDatabase {
     pub const ROOT_ACCOUNT: &'static str = "root";
+    /// The hash function ignores everything past this many bytes
+    pub const PASSWORD_MAX_LEN: usize = 72;
     pub fn empty() -> Self {
         Self {
             users: RWLIdx::default(),
@@ -84,7 +86,7 @@ impl SystemDatabase {
             .read()
             .get(username)
             .map(|user| {
-                if password.is_empty() {
+                if password.is_empty() || password.len() > Self::PASSWORD_MAX_LEN {
                     return VerifyUser::IncorrectPassword;
                 }
                 match rcrypt::verify(password, user.hash()) {
@@ -132,6 +134,10 @@ impl SystemDatabase {
 
 impl SystemDatabase {
     fn hash_password(password: &str) -> QueryResult<Vec<u8>> {
+        if password.len() > Self::PASSWORD_MAX_LEN {
+            // all passwords with the same start would be accepted
+            return Err(QueryError::QExecDdlInvalidProperties);
+        }
         // empty passwords and passwords with NUL bytes can't be hashed
         rcrypt::hash(password, rcrypt::DEFAULT_COST)
             .map_err(|_| QueryError::QExecDdlInvalidProperties)
-- 
2.43.0


From 215d348a83f10f8e1b880257cea39767ee41a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:19 +0000
Subject: [PATCH 34/57] fix: sync the header of a new model journal before its
 creation is acknowledged

---
 server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index 8dac553..d7a150f 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -78,6 +78,8 @@ impl<S: FileSpecV1> SdssFile<S> {
     {
         let mut f = File::create(path)?;
         let md = S::write_metadata(&mut f, ())?;
+        // NB: other files might refer to this one as soon as we return
+        f.fsync_all()?;
         Ok(Self::new(f, md))
     }
     pub fn into_buffered_reader(self) -> IoResult<SdssFile<S, BufferedReader>> {
-- 
2.43.0


From ada025b09aa7bcc5282a0478059be659d221609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 35/57] fix: a shutdown must not cut loose the DDL statements
 being executed, they used freed memory and a stopped task manager

---
 server/src/engine/core/exec.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/server/src/engine/core/exec.rs b/server/src/engine/core/exec.rs
index 557894b..6f28f37 100644
--- a/server/src/engine/core/exec.rs
+++ b/server/src/engine/core/exec.rs
@@ -172,18 +172,18 @@ async fn run_blocking_stmt(
             )
         },
     ];
-    let r = unsafe {
-        // UNSAFE(@ohsayan): the only await is within this block
-        let c_glob = global.clone();
+    let (static_cstate, static_state) = unsafe {
+        // UNSAFE(@ohsayan): both are only used by the statement which is run to completion before we return
         let static_cstate: &'static ClientLocalState = core::mem::transmute(cstate);
         let static_state: &'static mut State<'static, InplaceData> =
             core::mem::transmute(&mut state);
-        tokio::task::spawn_blocking(move || {
-            BLK_EXEC[fc as usize](c_glob, static_cstate, static_state)
-        })
-        .await
+        (static_cstate, static_state)
     };
-    r.unwrap()
+    // NB: there must be no await here: the connection can be dropped at any await (when the server is shut down), and the
+    // statement would then continue to run with what the connection owned
+    tokio::task::block_in_place(|| {
+        BLK_EXEC[fc as usize](global.clone(), static_cstate, static_state)
+    })
 }
 
 fn blocking_exec_sysctl(
-- 
2.43.0


From ba4be771be29565f7c57e65259d2b8986539c4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 36/57] fix: a termination signal right after the PID file was
 locked must not leave it behind

---
 server/src/main.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 252f5f6..4e8849e 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -82,22 +82,26 @@ fn entrypoint(config: engine::config::Configuration) {
     println!("{TEXT}\nSkytable v{VERSION} | {URL}\n");
     let run = || {
         let f_rt_start = || {
-            engine::set_context_init("locking PID file");
-            let pid_file = util::os::FileLock::new(SKY_PID_FILE)?;
             engine::set_context_init("initializing runtime");
             let runtime = tokio::runtime::Builder::new_multi_thread()
                 .thread_name("server")
                 .enable_all()
                 .build()?;
-            Ok((pid_file, runtime))
+            // NB: once we have the PID file, a termination signal must not end us without cleaning up
+            engine::set_context_init("binding system signals");
+            let signal = {
+                let _enter = runtime.enter();
+                util::os::TerminationSignal::init()?
+            };
+            engine::set_context_init("locking PID file");
+            let pid_file = util::os::FileLock::new(SKY_PID_FILE)?;
+            Ok((pid_file, runtime, signal))
         };
-        let (pid_file, runtime) = match f_rt_start() {
-            Ok((pf, rt)) => (pf, rt),
+        let (pid_file, runtime, signal) = match f_rt_start() {
+            Ok(v) => v,
             Err(e) => return (None, None, Err(e)),
         };
         let f_glob_init = runtime.block_on(async move {
-            engine::set_context_init("binding system signals");
-            let signal = util::os::TerminationSignal::init()?;
             let (config, global) = tokio::task::spawn_blocking(|| engine::load_all(config))
                 .await
                 .unwrap()?;
-- 
2.43.0


From b9bdc521997f0ffe059973357e21dfc12b9f867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:31 +0000
Subject: [PATCH 37/57] fix: do not take the lock of a removed PID file for the
 lock of the current one

---
 server/src/util/os/flock.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/server/src/util/os/flock.rs b/server/src/util/os/flock.rs
index 5c083d3..295ff49 100644
--- a/server/src/util/os/flock.rs
+++ b/server/src/util/os/flock.rs
@@ -50,7 +50,7 @@ pub struct FileLock {
 
 impl FileLock {
     pub fn new<P: AsRef<Path>>(path: P) -> io::Result<Self> {
-        let file = File::create(path)?;
+        let file = File::create(&path)?;
         #[cfg(windows)]
         {
             let handle = file.as_raw_handle();
@@ -74,7 +74,7 @@ impl FileLock {
         {
             use {
                 libc::{flock, LOCK_EX, LOCK_NB},
-                std::os::unix::io::AsRawFd,
+                std::os::unix::{fs::MetadataExt, io::AsRawFd},
             };
             let result = unsafe { flock(file.as_raw_fd(), LOCK_EX | LOCK_NB) };
             if result != 0 {
@@ -83,7 +83,15 @@ impl FileLock {
                     "file is already locked",
                 ));
             }
-            return Ok(Self { _file: file });
+            // NB: the previous owner removes the file before it releases the lock; what we hold could be that removed file
+            let locked = file.metadata()?;
+            match std::fs::metadata(&path) {
+                Ok(current) if (current.dev(), current.ino()) == (locked.dev(), locked.ino()) => {
+                    return Ok(Self { _file: file })
+                }
+                Err(e) if e.kind() != io::ErrorKind::NotFound => return Err(e),
+                Ok(_) | Err(_) => return Self::new(path),
+            }
         }
     }
     pub fn release(self) -> io::Result<()> {
-- 
2.43.0


From 1b6b026480e222b1f66c5670c3b5c6eb1e74ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:52 +0000
Subject: [PATCH 38/57] fix: accept any value of an option that takes one
 value, `,` (ENV) and `=` (CLI) made it invalid

---
 server/src/engine/config.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/server/src/engine/config.rs b/server/src/engine/config.rs
index 836548b..bfd2573 100644
--- a/server/src/engine/config.rs
+++ b/server/src/engine/config.rs
@@ -690,14 +690,14 @@ pub fn parse_cli_args<'a, T: 'a + AsRef<str>>(
         // x=1
         let arg_key;
         let arg_val;
-        let splits_arg_and_value = arg.split("=").collect::<Vec<&str>>();
+        // the value may have any characters (including `=`)
+        let splits_arg_and_value = arg.splitn(2, "=").collect::<Vec<&str>>();
         if (splits_arg_and_value.len() == 2) & (arg.len() >= 5) {
             // --{n}={x}; good
             arg_key = splits_arg_and_value[0];
             arg_val = splits_arg_and_value[1].to_string();
         } else if splits_arg_and_value.len() != 1 {
-            // that's an invalid argument since the split is either `x=y` or `x` and we don't have any args
-            // with special characters
+            // that's an invalid argument since there is no option with a name as short as that
             return Err(ConfigError::with_src(
                 ConfigSource::Cli,
                 ConfigErrorKind::ErrorString(format!("incorrectly formatted argument `{arg}`")),
@@ -762,7 +762,12 @@ pub fn parse_env_args() -> RuntimeResult<Option<ParsedRawArgs>> {
                 }
             },
         };
-        let splits: Vec<_> = var.split(",").map(ToString::to_string).collect();
+        // only the endpoints are a list; a password or a path may have a `,`
+        let splits: Vec<_> = if key == CSEnvArgs::KEY_ENDPOINTS {
+            var.split(",").map(ToString::to_string).collect()
+        } else {
+            vec![var]
+        };
         ret.insert(key.into(), splits);
     }
     if ret.is_empty() {
-- 
2.43.0


From cdea3018bf5f3d5d1d82c2a8bcf72c108b036012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:07 +0000
Subject: [PATCH 39/57] fix: refuse a configuration file with unknown keys, a
 mistyped setting was silently ignored

---
 server/src/engine/config.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/src/engine/config.rs b/server/src/engine/config.rs
index bfd2573..c7875b1 100644
--- a/server/src/engine/config.rs
+++ b/server/src/engine/config.rs
@@ -240,6 +240,7 @@ impl ConfigAuth {
     the "raw" configuration that we got from the user. not validated
 */
 #[derive(Debug, PartialEq, Deserialize)]
+#[serde(deny_unknown_fields)]
 pub struct DecodedConfiguration {
     system: Option<DecodedSystemConfig>,
     endpoints: Option<DecodedEPConfig>,
@@ -257,12 +258,14 @@ impl Default for DecodedConfiguration {
 }
 
 #[derive(Debug, PartialEq, Deserialize)]
+#[serde(deny_unknown_fields)]
 pub struct DecodedAuth {
     plugin: AuthDriver,
     root_pass: String,
 }
 
 #[derive(Debug, PartialEq, Deserialize)]
+#[serde(deny_unknown_fields)]
 /// Decoded system configuration
 pub struct DecodedSystemConfig {
     mode: Option<ConfigMode>,
@@ -270,6 +273,7 @@ pub struct DecodedSystemConfig {
 }
 
 #[derive(Debug, PartialEq, Deserialize)]
+#[serde(deny_unknown_fields)]
 /// Decoded endpoint configuration
 pub struct DecodedEPConfig {
     secure: Option<DecodedEPSecureConfig>,
@@ -277,6 +281,7 @@ pub struct DecodedEPConfig {
 }
 
 #[derive(Debug, PartialEq, Deserialize)]
+#[serde(deny_unknown_fields)]
 /// Decoded secure port configuration
 pub struct DecodedEPSecureConfig {
     host: String,
@@ -287,6 +292,7 @@ pub struct DecodedEPSecureConfig {
 }
 
 #[derive(Debug, PartialEq, Deserialize)]
+#[serde(deny_unknown_fields)]
 /// Decoded insecure port configuration
 pub struct DecodedEPInsecureConfig {
     host: String,
-- 
2.43.0


From e30fbdea5a8c308531835600b064ee74ac3a5720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:07 +0000
Subject: [PATCH 40/57] fix: a huge service window must not overflow the clock
 and stop the periodic flush

---
 server/src/engine/fractal/mgr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index bb7345f..9fa3393 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -267,6 +267,8 @@ impl FractalMgr {
 
 // services
 impl FractalMgr {
+    /// the longest service window: about a hundred years
+    const MAX_WINDOW: u64 = 100 * 365 * 24 * 60 * 60;
     #[inline(always)]
     fn adjust_threshold(th: usize) -> usize {
         // FIXME(@ohsayan): adjust a correct threshold. right now we don't do anything here (and for good reason)
@@ -449,7 +451,8 @@ impl FractalMgr {
         mut sigterm: broadcast::Receiver<()>,
         rs_window: u64,
     ) {
-        let dur = std::time::Duration::from_secs(rs_window);
+        // NB: a window that ends beyond what the clock can represent will never end
+        let dur = std::time::Duration::from_secs(rs_window.min(Self::MAX_WINDOW));
         // NB: the window must not start over when some other task is received
         let mut window = tokio::time::interval_at(tokio::time::Instant::now() + dur, dur);
         window.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
-- 
2.43.0


From ec6c23e6e75c18fd9fee350de6e7ea763d309a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:35 +0000
Subject: [PATCH 41/57] fix: a damaged length or nesting in a journal must not
 exhaust the memory or the stack

---
 .../engine/storage/common_encoding/r1/obj.rs  | 22 ++++++++++++++++++-
 .../engine/storage/v2/impls/mdl_journal.rs    |  6 +++++
 .../src/engine/storage/v2/raw/journal/mod.rs  |  3 +++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/storage/common_encoding/r1/obj.rs b/server/src/engine/storage/common_encoding/r1/obj.rs
index 2d16c61..cd42dc8 100644
--- a/server/src/engine/storage/common_encoding/r1/obj.rs
+++ b/server/src/engine/storage/common_encoding/r1/obj.rs
@@ -177,10 +177,23 @@ pub mod cell {
             Ok(CanYieldDict::Dict)
         }
     }
+    /// The deepest list that we'll decode; nothing that nests deeper than this was ever accepted in a query
+    const MAX_LIST_DEPTH: usize = 512;
     pub unsafe fn decode_element<EY: ElementYield, DS: DataSource>(
         s: &mut DS,
         dscr: StorageCellTypeID,
     ) -> Result<EY::Yield, DS::Error>
+    where
+        DS::Error: From<EY::Error>,
+        DS::Error: From<()>,
+    {
+        self::decode_element_at::<EY, DS>(s, dscr, 0)
+    }
+    unsafe fn decode_element_at<EY: ElementYield, DS: DataSource>(
+        s: &mut DS,
+        dscr: StorageCellTypeID,
+        depth: usize,
+    ) -> Result<EY::Yield, DS::Error>
     where
         DS::Error: From<EY::Error>,
         DS::Error: From<()>,
@@ -221,6 +234,9 @@ pub mod cell {
                 }
             }
             TagClass::List => {
+                if depth == MAX_LIST_DEPTH {
+                    return Ok(EY::error()?);
+                }
                 let len = s.read_next_u64_le()? as usize;
                 let mut l = vec![];
                 while (l.len() != len) & s.has_remaining(1) {
@@ -231,7 +247,11 @@ pub mod cell {
                     if !s.has_remaining(StorageCellTypeID::expect_atleast(dscr.value_u8())) {
                         return Ok(EY::error()?);
                     }
-                    l.push(self::decode_element::<Datacell, DS>(s, dscr)?);
+                    l.push(self::decode_element_at::<Datacell, DS>(
+                        s,
+                        dscr,
+                        depth + 1,
+                    )?);
                 }
                 if l.len() != len {
                     return Ok(EY::error()?);
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index e7788d8..c209987 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -645,6 +645,9 @@ mod restore_impls {
             }
             TagUnique::Str | TagUnique::Bin => {
                 let len = u64::from_le_bytes(f.read_block()?);
+                if f.remaining() < len {
+                    return Err(StorageError::DataBatchRestoreCorruptedEntry.into());
+                }
                 let mut data = vec![0; len as usize];
                 f.read(&mut data)?;
                 if pk_type == TagUnique::Str {
@@ -717,6 +720,9 @@ mod restore_impls {
             self.read_next_block().map(u64::from_le_bytes)
         }
         unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
+            if !self.has_remaining(size) {
+                return Err(().into());
+            }
             let mut buf = vec![0; size];
             self.read(&mut buf)?;
             Ok(buf)
diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 230849d..6e55e75 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -130,6 +130,9 @@ impl<EL: EventLogSpec> RawJournalAdapter for EventLogAdapter<EL> {
     ) -> RuntimeResult<()> {
         let expected_checksum = u64::from_le_bytes(file.read_block()?);
         let plen = u64::from_le_bytes(file.read_block()?);
+        if !file.has_left(plen) {
+            return Err(StorageError::RawJournalCorrupted.into());
+        }
         let mut pl = vec![0; plen as usize];
         file.tracked_read(&mut pl)?;
         let mut this_checksum = SCrc64::new();
-- 
2.43.0


From f66e9772cbf745507d296617fb37549d62070a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:35 +0000
Subject: [PATCH 42/57] fix: verify the checksum of a batch before its events
 are applied

---
 .../src/engine/storage/v2/raw/journal/mod.rs  | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 6e55e75..698e9c8 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -265,7 +265,7 @@ impl<BA: BatchAdapterSpec> RawJournalAdapter for BatchAdapter<BA> {
         f: &mut TrackedReader<Self::Spec>,
     ) -> RuntimeResult<()> {
         let mut f = f.context();
-        {
+        let (batch_state, batch_md) = {
             // get metadata
             // read batch size
             let _stored_expected_commit_size = u64::from_le_bytes(f.read_block()?);
@@ -298,20 +298,18 @@ impl<BA: BatchAdapterSpec> RawJournalAdapter for BatchAdapter<BA> {
             }
             // read actual commit size
             let _stored_actual_commit_size = u64::from_le_bytes(f.read_block()?);
-            if _stored_actual_commit_size == real_commit_size {
-                // finish applying batch
-                BA::finish(batch_state, batch_md, gs)?;
-            } else {
+            if _stored_actual_commit_size != real_commit_size {
                 return Err(StorageError::RawJournalCorrupted.into());
             }
-        }
-        // and finally, verify checksum
+            (batch_state, batch_md)
+        };
+        // verify checksum
         let (real_checksum, file) = f.finish();
         let stored_checksum = u64::from_le_bytes(file.read_block()?);
-        if real_checksum == stored_checksum {
-            Ok(())
-        } else {
-            Err(StorageError::RawJournalCorrupted.into())
+        if real_checksum != stored_checksum {
+            return Err(StorageError::RawJournalCorrupted.into());
         }
+        // and finally, finish applying batch
+        BA::finish(batch_state, batch_md, gs)
     }
 }
-- 
2.43.0


From f20507850aac7933dc0fb2e9851f8f4dc8e3b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:35 +0000
Subject: [PATCH 43/57] fix: refuse a batch whose key tag, columns or
 transaction ids do not fit its model instead of undefined behaviour or a
 panic

---
 .../engine/storage/v2/impls/mdl_journal.rs    | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index c209987..bfba44d 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -430,7 +430,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
         BatchRestoreState { events: Vec::new() }
     }
     fn decode_batch_metadata(
-        _: &Self::GlobalState,
+        gs: &Self::GlobalState,
         f: &mut TrackedReaderContext<Self::Spec>,
         batch_type: Self::BatchType,
     ) -> RuntimeResult<Self::BatchMetadata> {
@@ -438,8 +438,12 @@ impl BatchAdapterSpec for ModelDataAdapter {
         match batch_type {
             BatchType::Standard => {}
         }
-        let pk_tag = TagUnique::try_from_raw(f.read_block().map(|[b]| b)?)
-            .ok_or(StorageError::RawJournalCorrupted)?;
+        // NB: not every value is a valid tag, and only the tag of this model is good here
+        let pk_tag = gs.p_tag().tag_unique();
+        let [stored_pk_tag] = f.read_block()?;
+        if stored_pk_tag != pk_tag.value_u8() {
+            return Err(StorageError::RawJournalCorrupted.into());
+        }
         let schema_version = u64::from_le_bytes(f.read_block()?);
         let column_count = u64::from_le_bytes(f.read_block()?);
         Ok(BatchMetadata {
@@ -519,12 +523,9 @@ impl BatchAdapterSpec for ModelDataAdapter {
                             the delta diff algorithm statically guarantees this.
                         */
                         let row_txn_revised = row.read().get_txn_revised();
-                        assert!(
-                            row_txn_revised.value_u64() == 0 || row_txn_revised < txn_id,
-                            "revised ID is {} but our row has version {}",
-                            row.read().get_txn_revised().value_u64(),
-                            txn_id.value_u64()
-                        );
+                        if row_txn_revised.value_u64() != 0 && row_txn_revised >= txn_id {
+                            return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+                        }
                     }
                     if txn_id > real_last_txn_id {
                         real_last_txn_id = txn_id;
@@ -535,9 +536,16 @@ impl BatchAdapterSpec for ModelDataAdapter {
                             // this field was removed at some point after this batch was written
                             continue;
                         }
-                        let Some((field_name, _)) = m.fields().stext_get_key_value(*column) else {
+                        let Some((field_name, field)) = m.fields().stext_get_key_value(*column)
+                        else {
                             return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
                         };
+                        if !new_data.is_null()
+                            & (field.layers()[0].tag().tag_class() != new_data.kind())
+                        {
+                            // this is not the data of this model
+                            return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+                        }
                         data.st_insert(
                             unsafe {
                                 // UNSAFE(@ohsayan): model in scope, we're good
-- 
2.43.0


From 833b4ec29f885aecc59aa93d630c6bb9cd629625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:35 +0000
Subject: [PATCH 44/57] fix: removing a field that does not exist panicked when
 a damaged system log was loaded

---
 server/src/engine/core/model/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 426f909..e573d14 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -510,12 +510,14 @@ impl<'a> ModelMutator<'a> {
     }
     pub fn remove_field(&mut self, name: &str) -> bool {
         // remove
-        let r = self.model.fields.st_delete(name);
+        if !self.model.fields.st_delete(name) {
+            return false;
+        }
         // recycle
         let ptr = unsafe { self.model.private.mark_pending_remove(name) };
         // publish delta
         self.model.delta.unresolved_append_field_rem(ptr);
-        r
+        true
     }
     pub fn add_field(&mut self, name: Box<str>, field: Field) -> bool {
         unsafe {
-- 
2.43.0


From 4c49ae03c4bcb0ca08dc213b37858eb09d672924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:59 +0000
Subject: [PATCH 45/57] fix: ALTER SPACE refuses to replace a dictionary with a
 plain value instead of dropping it

---
 server/src/engine/data/dict.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index fe79c9b..e11e13f 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -175,6 +175,10 @@ fn rmerge_metadata_prepare_patch(
                 okay &= rmerge_metadata_prepare_patch(&into_dict!(), m, &mut this_patch);
                 let _ = patch.insert(key, DictEntryGeneric::Map(this_patch));
             }
+            // dict -> non-null data: different kinds
+            (Some(DictEntryGeneric::Map(_)), DictEntryGeneric::Data(l)) if l.is_init() => {
+                okay = false;
+            }
             // non-null -> null: remove
             (Some(_), DictEntryGeneric::Data(l)) => {
                 debug_assert!(l.is_null());
-- 
2.43.0


From 90388b3f97ff2fa8a8502af9bd87249beacc21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:59 +0000
Subject: [PATCH 46/57] fix: ALTER SPACE keeps the nested dictionaries it adds

---
 server/src/engine/data/dict.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index e11e13f..b59cc3c 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -124,6 +124,7 @@ pub fn rmerge_data_with_patch(current: &mut DictGeneric, patch: DictGeneric) {
                 None => {
                     let mut new = DictGeneric::new();
                     rmerge_data_with_patch(&mut new, m);
+                    current.insert(key, DictEntryGeneric::Map(new));
                 }
             },
         }
-- 
2.43.0


From 31e37ca2e9a1da87f8c071c06cd6dc9d0b3ea5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:23 +0000
Subject: [PATCH 47/57] fix: owned iteration over an ordered index read nodes
 it had already freed

---
 server/src/engine/idx/stord/iter.rs | 37 +++++++++++++++++------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/server/src/engine/idx/stord/iter.rs b/server/src/engine/idx/stord/iter.rs
index c70d585..b7d08a4 100644
--- a/server/src/engine/idx/stord/iter.rs
+++ b/server/src/engine/idx/stord/iter.rs
@@ -276,18 +276,24 @@ impl<K: AsKey, V: AsValue> OrderedOwnedIteratorRaw<K, V> {
         // clean up if needed
         idx.vacuum_full();
         let mut idx = ManuallyDrop::new(idx);
+        let r = idx.len();
         // chuck the map
         drop(unsafe { ptr::read((&mut idx.m) as *mut _) });
         // we own everything now
-        unsafe {
+        if idx.h.is_null() {
             Self {
-                h: if idx.h.is_null() {
-                    ptr::null_mut()
-                } else {
-                    (*idx.h).p
-                },
-                t: idx.h,
-                r: idx.len(),
+                h: ptr::null_mut(),
+                t: ptr::null_mut(),
+                r,
+            }
+        } else {
+            unsafe {
+                // UNSAFE(@ohsayan): nullck
+                Self {
+                    h: (*idx.h).p,
+                    t: (*idx.h).n,
+                    r,
+                }
             }
         }
     }
@@ -296,31 +302,32 @@ impl<K: AsKey, V: AsValue> OrderedOwnedIteratorRaw<K, V> {
 impl<K, V> OrderedOwnedIteratorRaw<K, V> {
     #[inline(always)]
     fn _next(&mut self) -> Option<(K, V)> {
-        if self.h == self.t {
+        if self.r == 0 {
             None
         } else {
             self.r -= 1;
             unsafe {
-                // UNSAFE(@ohsayan): +nullck
+                // UNSAFE(@ohsayan): there are nodes left, hence h is valid
                 let this = ptr::read(self.h);
-                // destroy this node
+                // destroy this node (do not touch it after this)
                 IndexSTSeqDllNode::dealloc_headless(self.h);
-                self.h = (*self.h).p;
+                self.h = this.p;
                 Some((this.k, this.v))
             }
         }
     }
     #[inline(always)]
     fn _next_back(&mut self) -> Option<(K, V)> {
-        if self.h == self.t {
+        if self.r == 0 {
             None
         } else {
             self.r -= 1;
             unsafe {
-                // UNSAFE(@ohsayan): +nullck
-                self.t = (*self.t).n;
+                // UNSAFE(@ohsayan): there are nodes left, hence t is valid
                 let this = ptr::read(self.t);
+                // destroy this node (do not touch it after this)
                 IndexSTSeqDllNode::dealloc_headless(self.t);
+                self.t = this.n;
                 Some((this.k, this.v))
             }
         }
-- 
2.43.0


From 70ad4daf6560ad0a45544af08f92039ce402a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:23 +0000
Subject: [PATCH 48/57] fix: replaying an update read the replaced row after it
 was freed

---
 server/src/engine/storage/v2/impls/mdl_journal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index bfba44d..4bbb7c3 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -501,7 +501,8 @@ impl BatchAdapterSpec for ModelDataAdapter {
         /*
             go over each change in this batch, resolve conflicts and then apply to global state
         */
-        let g = unsafe { crossbeam_epoch::unprotected() };
+        // NB: the rows that are replaced by this batch are still read after they were removed from the index
+        let g = crossbeam_epoch::pin();
         let mut pending_delete = HashMap::new();
         let p_index = gs.primary_index().__raw_index();
         let m = gs;
-- 
2.43.0


From 27d28ef55d970591c09df99cb3fbe3f4a78a71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:23 +0000
Subject: [PATCH 49/57] hook: cfg(skyd_verif) includes an external harness in
 the test build and keeps the system allocator

---
 server/src/engine/mod.rs | 5 +++++
 server/src/main.rs       | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/mod.rs b/server/src/engine/mod.rs
index 5482c8c..53a1220 100644
--- a/server/src/engine/mod.rs
+++ b/server/src/engine/mod.rs
@@ -41,6 +41,11 @@ mod txn;
 // test
 #[cfg(test)]
 mod tests;
+#[cfg(all(test, skyd_verif))]
+mod skyd_verif {
+    // runtime verification: an external test harness
+    include!(env!("SKYD_VERIF_HARNESS"));
+}
 // re-export
 pub use error::RuntimeResult;
 
diff --git a/server/src/main.rs b/server/src/main.rs
index 4e8849e..0395b18 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -44,7 +44,7 @@ mod engine;
 
 use libsky::{URL, VERSION};
 
-#[cfg(all(not(target_env = "msvc"), not(miri)))]
+#[cfg(all(not(target_env = "msvc"), not(miri), not(skyd_verif)))]
 #[global_allocator]
 /// Jemallocator - this is the default memory allocator for platforms other than msvc
 static GLOBAL: jemallocator::Jemalloc = jemallocator::Jemalloc;
-- 
2.43.0


From bff2443325cb4a94d7c57ab3794983be4cda680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:45 +0000
Subject: [PATCH 50/57] fix: upgrade rows of the old storage format with the
 columns of the schema they were written with

---
 .../storage/v1/raw/batch_jrnl/restore.rs      | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index 91da055..cbe6999 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -37,7 +37,7 @@ use {
             },
             data::{cell::Datacell, tag::TagUnique},
             error::{RuntimeResult, StorageError},
-            idx::{MTIndex, STIndex, STIndexSeq},
+            idx::{MTIndex, STIndex, STIndexExt},
             storage::{
                 common::interface::fs::File,
                 common_encoding::r1::{
@@ -213,11 +213,17 @@ impl DataBatchRestoreDriver {
         let g = unsafe { crossbeam_epoch::unprotected() };
         let mut pending_delete = HashMap::new();
         let p_index = m.primary_index().__raw_index();
+        // NB: this batch might have been written with an older schema, so the columns are the ones from that version
+        let schema_version = DeltaVersion::__new(schema_version);
+        let columns = m.fields_at_schema_version(schema_version);
         // scan rows
         for DecodedBatchEvent { txn_id, pk, kind } in events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
                     // this is more like a "newrow"
+                    if columns.len() != new_row.len() {
+                        return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+                    }
                     match p_index.mt_get_element(&pk, &g) {
                         Some(row) if row.d_data().read().get_txn_revised() > txn_id => {
                             // skewed
@@ -229,12 +235,15 @@ impl DataBatchRestoreDriver {
                             // new row (logically)
                             let _ = p_index.mt_delete(&pk, &g);
                             let mut data = DcFieldIndex::default();
-                            for (field_name, new_data) in m
-                                .fields()
-                                .stseq_ord_key()
-                                .filter(|key| key.as_str() != m.p_key())
-                                .zip(new_row)
-                            {
+                            for ((column, live), new_data) in columns.iter().zip(new_row) {
+                                if !*live {
+                                    // this field was removed at some point after this batch was written
+                                    continue;
+                                }
+                                let Some((field_name, _)) = m.fields().stext_get_key_value(*column)
+                                else {
+                                    return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+                                };
                                 data.st_insert(
                                     unsafe {
                                         // UNSAFE(@ohsayan): model in scope, we're good
@@ -243,12 +252,7 @@ impl DataBatchRestoreDriver {
                                     new_data,
                                 );
                             }
-                            let row = Row::new_restored(
-                                pk,
-                                data,
-                                DeltaVersion::__new(schema_version),
-                                txn_id,
-                            );
+                            let row = Row::new_restored(pk, data, schema_version, txn_id);
                             // resolve any deltas
                             let _ = row.resolve_schema_deltas_and_freeze(m.delta_state());
                             // put it back in (lol); blame @ohsayan for this joke
-- 
2.43.0


From 693b60d38aa813c73fbb8216779efceb368b2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:25 +0000
Subject: [PATCH 51/57] fix: start with a new history after an upgrade of the
 storage format

The new files have no schema changes, but the models in memory did: rows that were changed after the upgrade could not be
restored, or were skipped because of their change versions. Load the new files instead of keeping the old state.
---
 server/src/engine/storage/mod.rs              |  3 ++-
 .../engine/storage/v2/impls/mdl_journal.rs    | 21 ++++++++++---------
 server/src/engine/storage/v2/mod.rs           | 11 +++++-----
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/server/src/engine/storage/mod.rs b/server/src/engine/storage/mod.rs
index 2bec1cf..3f6f73b 100644
--- a/server/src/engine/storage/mod.rs
+++ b/server/src/engine/storage/mod.rs
@@ -67,7 +67,8 @@ pub fn load(cfg: &Configuration) -> RuntimeResult<SELoaded> {
         let gns = v1::load_gns_prepare_migration()?;
         info!("loaded data. now upgrading to new storage format");
         context::set_dmsg("upgrading storage-v1 to storage-v2 format");
-        return v2::recreate(gns);
+        v2::recreate(gns)?;
+        info!("upgraded. now loading the new storage format");
     }
     if !Path::new(v2::GNS_PATH).is_file() {
         info!("initializing databases");
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 4bbb7c3..711e01a 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -116,16 +116,15 @@ impl<'b> RowWriter<'b> {
     /// - pk tag
     /// - schema version
     /// - column count
-    fn write_row_global_metadata(&mut self, model: &ModelData) -> RuntimeResult<()> {
+    fn write_row_global_metadata(
+        &mut self,
+        model: &ModelData,
+        schema_version: DeltaVersion,
+    ) -> RuntimeResult<()> {
         self.f
             .dtrack_write(&[model.p_tag().tag_unique().value_u8()])?;
-        self.f.dtrack_write(
-            &model
-                .delta_state()
-                .schema_current_version()
-                .value_u64()
-                .u64_bytes_le(),
-        )?;
+        self.f
+            .dtrack_write(&schema_version.value_u64().u64_bytes_le())?;
         e!(self
             .f
             .dtrack_write(&(model.fields().st_len() - 1).u64_bytes_le()))
@@ -242,7 +241,8 @@ impl<'a, 'b> BatchWriter<'a, 'b> {
         f: &'b mut TrackedWriter<<BatchAdapter<ModelDataAdapter> as RawJournalAdapter>::Spec>,
     ) -> RuntimeResult<Self> {
         let mut row_writer = RowWriter { f };
-        row_writer.write_row_global_metadata(model)?;
+        row_writer
+            .write_row_global_metadata(model, model.delta_state().schema_current_version())?;
         Ok(Self {
             model,
             row_writer,
@@ -338,7 +338,8 @@ impl<'a> JournalAdapterEvent<BatchAdapter<ModelDataAdapter>> for FullModel<'a> {
             .f
             .dtrack_write(&current_row_count.u64_bytes_le())?;
         // [pk tag][schema version][column cnt]
-        row_writer.write_row_global_metadata(self.0)?;
+        // NB: the fields that we have now are the ones that this model is (re)created with
+        row_writer.write_row_global_metadata(self.0, DeltaVersion::genesis())?;
         for (key, row_data) in index.mt_iter_kv(&g) {
             let row_data = row_data.read();
             row_writer.write_row_metadata(DataDeltaKind::Insert, row_data.get_txn_revised())?;
diff --git a/server/src/engine/storage/v2/mod.rs b/server/src/engine/storage/v2/mod.rs
index 5a220a1..0bb5bf1 100644
--- a/server/src/engine/storage/v2/mod.rs
+++ b/server/src/engine/storage/v2/mod.rs
@@ -54,7 +54,10 @@ pub(super) mod raw;
 pub const GNS_PATH: &str = v1::GNS_PATH;
 pub const DATA_DIR: &str = v1::DATA_DIR;
 
-pub fn recreate(gns: GNSData) -> RuntimeResult<SELoaded> {
+/// Write everything into new files
+///
+/// NB: the models that are loaded from these files have a new history, so they have to be used instead of the ones in `gns`
+pub fn recreate(gns: GNSData) -> RuntimeResult<()> {
     context::set_dmsg("creating gns");
     let mut gns_driver = impls::gns_log::GNSDriver::create_gns()?;
     // create all spaces
@@ -86,16 +89,14 @@ pub fn recreate(gns: GNSData) -> RuntimeResult<SELoaded> {
             model_data,
         ))?;
         model_driver.commit_with_ctx(FullModel::new(model_data), BatchStats::new())?;
-        model.driver().initialize_model_driver(model_driver);
+        ModelDriver::close_driver(&mut model_driver)?;
     }
     // create all users
     context::set_dmsg("creating all users");
     for (user_name, user) in gns.sys_db().users().read().iter() {
         gns_driver.commit_event(CreateUserTxn::new(&user_name, user.hash()))?;
     }
-    Ok(SELoaded {
-        gns: GlobalNS::new(gns, FractalGNSDriver::new(gns_driver)),
-    })
+    impls::gns_log::GNSDriver::close_driver(&mut gns_driver)
 }
 
 pub fn initialize_new(config: &Configuration) -> RuntimeResult<SELoaded> {
-- 
2.43.0


From 7b8b2e9556f6508b1ba82acaf3c1d9164a6fd79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:25 +0000
Subject: [PATCH 52/57] fix: an interrupted upgrade of the storage format was
 taken for a new install

---
 server/src/engine/storage/mod.rs    |  3 ++-
 server/src/engine/storage/v1/mod.rs | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/server/src/engine/storage/mod.rs b/server/src/engine/storage/mod.rs
index 3f6f73b..f7af6c8 100644
--- a/server/src/engine/storage/mod.rs
+++ b/server/src/engine/storage/mod.rs
@@ -64,10 +64,11 @@ pub fn load(cfg: &Configuration) -> RuntimeResult<SELoaded> {
         // this is an old install
         info!("loading data");
         context::set_dmsg("loading storage-v1 in compatibility mode");
-        let gns = v1::load_gns_prepare_migration()?;
+        let (gns, backup_dir_path) = v1::load_gns_prepare_migration()?;
         info!("loaded data. now upgrading to new storage format");
         context::set_dmsg("upgrading storage-v1 to storage-v2 format");
         v2::recreate(gns)?;
+        v1::finish_migration(&backup_dir_path)?;
         info!("upgraded. now loading the new storage format");
     }
     if !Path::new(v2::GNS_PATH).is_file() {
diff --git a/server/src/engine/storage/v1/mod.rs b/server/src/engine/storage/v1/mod.rs
index fa1f667..04c4792 100644
--- a/server/src/engine/storage/v1/mod.rs
+++ b/server/src/engine/storage/v1/mod.rs
@@ -44,7 +44,10 @@ pub const GNS_PATH: &str = "gns.db-tlog";
 pub const SYSDB_PATH: &str = "sys.db";
 pub const DATA_DIR: &str = "data";
 
-pub fn load_gns_prepare_migration() -> RuntimeResult<GNSData> {
+/// Load everything and move the files into a backup directory
+///
+/// NB: the sysdb stays until [`finish_migration`], so that a migration that was interrupted is never taken for a new install
+pub fn load_gns_prepare_migration() -> RuntimeResult<(GNSData, String)> {
     // load gns
     let gns = loader::load_gns()?;
     // load sysdb
@@ -63,7 +66,10 @@ pub fn load_gns_prepare_migration() -> RuntimeResult<GNSData> {
     util::os::move_files_recursively("data", &format!("{backup_dir_path}/data"))?;
     // move GNS
     FileSystem::rename(GNS_PATH, &format!("{backup_dir_path}/{GNS_PATH}"))?;
+    Ok((gns, backup_dir_path))
+}
+
+pub fn finish_migration(backup_dir_path: &str) -> RuntimeResult<()> {
     // move sysdb
-    FileSystem::rename(SYSDB_PATH, &format!("{backup_dir_path}/{SYSDB_PATH}"))?;
-    Ok(gns)
+    e!(FileSystem::rename(SYSDB_PATH, &format!("{backup_dir_path}/{SYSDB_PATH}")))
 }
-- 
2.43.0


From 26b818dcdfe8f632598ccd750e440d1cf1f741a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:25 +0000
Subject: [PATCH 53/57] fix: loading the old storage format modified its files,
 so they could not be loaded again after an interruption

---
 server/src/engine/storage/v1/loader.rs        | 83 +++++++------------
 .../engine/storage/v1/raw/batch_jrnl/mod.rs   | 12 +--
 .../storage/v1/raw/batch_jrnl/persist.rs      | 59 -------------
 .../storage/v1/raw/batch_jrnl/restore.rs      |  3 -
 .../src/engine/storage/v1/raw/journal/raw.rs  | 78 ++---------------
 server/src/engine/storage/v1/raw/rw.rs        | 46 +---------
 6 files changed, 43 insertions(+), 238 deletions(-)
 delete mode 100644 server/src/engine/storage/v1/raw/batch_jrnl/persist.rs

diff --git a/server/src/engine/storage/v1/loader.rs b/server/src/engine/storage/v1/loader.rs
index 76764d1..2f48ca2 100644
--- a/server/src/engine/storage/v1/loader.rs
+++ b/server/src/engine/storage/v1/loader.rs
@@ -24,69 +24,42 @@
  *
 */
 
-use {
-    crate::engine::{
-        core::{EntityIDRef, GNSData},
-        error::RuntimeResult,
-        fractal::{error::ErrorContext, ModelUniqueID},
-        storage::{
-            common::paths_v1,
-            v1::raw::{
-                batch_jrnl,
-                journal::{raw as raw_journal, GNSAdapter},
-                spec,
-            },
+use crate::engine::{
+    core::{EntityIDRef, GNSData},
+    error::RuntimeResult,
+    fractal::error::ErrorContext,
+    storage::{
+        common::paths_v1,
+        v1::raw::{
+            batch_jrnl,
+            journal::{raw as raw_journal, GNSAdapter},
+            spec,
         },
     },
-    std::collections::HashMap,
 };
 
 pub fn load_gns() -> RuntimeResult<GNSData> {
     let gns = GNSData::empty();
-    let gns_txn_driver =
-        raw_journal::load_journal::<GNSAdapter, spec::GNSTransactionLogV1>(super::GNS_PATH, &gns)?;
-    let mut model_drivers = HashMap::new();
-    let mut driver_guard = || {
-        let mut models = gns.idx_models().write();
-        // this is an existing instance, so read in all data
-        for (space_name, space) in gns.idx().read().iter() {
-            let space_uuid = space.get_uuid();
-            for model_name in space.models().iter() {
-                let model = models
-                    .get_mut(&EntityIDRef::new(&space_name, &model_name))
-                    .unwrap();
-                let path = paths_v1::model_path(
-                    space_name,
-                    space_uuid,
-                    model_name,
-                    model.data().get_uuid(),
-                );
-                let persist_driver = batch_jrnl::reinit(&path, model.data()).inherit_set_dmsg(
-                    format!("failed to restore model data from journal in `{path}`"),
-                )?;
-                unsafe {
-                    // UNSAFE(@ohsayan): all pieces of data are upgraded by now, so vacuum
-                    model.data_mut().model_mutator().vacuum_stashed();
-                }
-                let _ = model_drivers.insert(
-                    ModelUniqueID::new(space_name, model_name, model.data().get_uuid()),
-                    persist_driver,
-                );
+    raw_journal::load_journal::<GNSAdapter, spec::GNSTransactionLogV1>(super::GNS_PATH, &gns)?;
+    let mut models = gns.idx_models().write();
+    // this is an existing instance, so read in all data
+    for (space_name, space) in gns.idx().read().iter() {
+        let space_uuid = space.get_uuid();
+        for model_name in space.models().iter() {
+            let model = models
+                .get_mut(&EntityIDRef::new(&space_name, &model_name))
+                .unwrap();
+            let path =
+                paths_v1::model_path(space_name, space_uuid, model_name, model.data().get_uuid());
+            batch_jrnl::restore(&path, model.data()).inherit_set_dmsg(format!(
+                "failed to restore model data from journal in `{path}`"
+            ))?;
+            unsafe {
+                // UNSAFE(@ohsayan): all pieces of data are upgraded by now, so vacuum
+                model.data_mut().model_mutator().vacuum_stashed();
             }
         }
-        RuntimeResult::Ok(())
-    };
-    if let Err(e) = driver_guard() {
-        gns_txn_driver.close().unwrap();
-        for (_, driver) in model_drivers {
-            driver.close().unwrap();
-        }
-        return Err(e);
-    }
-    // close all drivers
-    gns_txn_driver.close().unwrap();
-    for (_, driver) in model_drivers {
-        driver.close().unwrap();
     }
+    drop(models);
     Ok(gns)
 }
diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/mod.rs b/server/src/engine/storage/v1/raw/batch_jrnl/mod.rs
index ba6217a..f50a88e 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/mod.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/mod.rs
@@ -24,7 +24,6 @@
  *
 */
 
-mod persist;
 mod restore;
 
 /// the data batch file was reopened
@@ -38,18 +37,19 @@ const MARKER_ACTUAL_BATCH_EVENT: u8 = 0xFE;
 /// recovery batch event marker
 const MARKER_RECOVERY_EVENT: u8 = 0xFF;
 
-pub use {persist::DataBatchPersistDriver, restore::DataBatchRestoreDriver};
+pub use restore::DataBatchRestoreDriver;
 
 use {
     super::{rw::SDSSFileIO, spec},
     crate::engine::{core::model::ModelData, error::RuntimeResult},
 };
 
-/// Re-initialize an existing batch journal and read all its data into model
-pub fn reinit(name: &str, model: &ModelData) -> RuntimeResult<DataBatchPersistDriver> {
+/// Read all data of an existing batch journal into model
+///
+/// NB: the file is left as it is because an upgrade that doesn't complete needs it
+pub fn restore(name: &str, model: &ModelData) -> RuntimeResult<()> {
     let (f, _header) = SDSSFileIO::open::<spec::DataBatchJournalV1>(name)?;
     // restore
     let mut restore_driver = DataBatchRestoreDriver::new(f)?;
-    restore_driver.read_data_batch_into_model(model)?;
-    DataBatchPersistDriver::new(restore_driver.into_file(), false)
+    restore_driver.read_data_batch_into_model(model)
 }
diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/persist.rs b/server/src/engine/storage/v1/raw/batch_jrnl/persist.rs
deleted file mode 100644
index 0811406..0000000
--- a/server/src/engine/storage/v1/raw/batch_jrnl/persist.rs
+++ /dev/null
@@ -1,59 +0,0 @@
-/*
- * Created on Tue Sep 05 2023
- *
- * This file is a part of Skytable
- * Skytable (formerly known as TerrabaseDB or Skybase) is a free and open-source
- * NoSQL database written by Sayan Nandan ("the Author") with the
- * vision to provide flexibility in data modelling without compromising
- * on performance, queryability or scalability.
- *
- * Copyright (c) 2023, Sayan Nandan <ohsayan@outlook.com>
- *
- * This program is free software: you can redistribute it and/or modify
- * it under the terms of the GNU Affero General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * This program is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the
- * GNU Affero General Public License for more details.
- *
- * You should have received a copy of the GNU Affero General Public License
- * along with this program. If not, see <https://www.gnu.org/licenses/>.
- *
-*/
-
-use {
-    super::{MARKER_BATCH_CLOSED, MARKER_BATCH_REOPEN},
-    crate::engine::{
-        error::{RuntimeResult, StorageError},
-        storage::{
-            common::interface::fs::File,
-            v1::raw::rw::{SDSSFileIO, TrackedWriter},
-        },
-    },
-};
-
-pub struct DataBatchPersistDriver {
-    f: TrackedWriter,
-}
-
-impl DataBatchPersistDriver {
-    pub fn new(mut file: SDSSFileIO<File>, is_new: bool) -> RuntimeResult<Self> {
-        if !is_new {
-            file.fsynced_write(&[MARKER_BATCH_REOPEN])?;
-        }
-        Ok(Self {
-            f: TrackedWriter::new(file)?,
-        })
-    }
-    pub fn close(self) -> RuntimeResult<()> {
-        let mut slf = self.f.sync_into_inner()?;
-        if slf.fsynced_write(&[MARKER_BATCH_CLOSED]).is_ok() {
-            return Ok(());
-        } else {
-            return Err(StorageError::DataBatchCloseError.into());
-        }
-    }
-}
diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index cbe6999..98c51c0 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -118,9 +118,6 @@ impl DataBatchRestoreDriver {
             f: TrackedReader::new(f.into_buffered_reader())?,
         })
     }
-    pub fn into_file(self) -> SDSSFileIO<File> {
-        self.f.into_inner_file()
-    }
     pub(in crate::engine::storage::v1) fn read_data_batch_into_model(
         &mut self,
         model: &ModelData,
diff --git a/server/src/engine/storage/v1/raw/journal/raw.rs b/server/src/engine/storage/v1/raw/journal/raw.rs
index 1c0d42d..b35a462 100644
--- a/server/src/engine/storage/v1/raw/journal/raw.rs
+++ b/server/src/engine/storage/v1/raw/journal/raw.rs
@@ -58,13 +58,15 @@ use {
 
 const CRC: crc::Crc<u32> = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC);
 
+/// Read and apply all events of a journal
+///
+/// NB: the file is left as it is because an upgrade that doesn't complete needs it
 pub fn load_journal<TA: JournalAdapter, F: sdss::sdss_r1::FileSpecV1<DecodeArgs = ()>>(
     log_file_name: &str,
     gs: &TA::GlobalState,
-) -> RuntimeResult<JournalWriter<TA>> {
+) -> RuntimeResult<()> {
     let (file, _) = SDSSFileIO::open::<F>(log_file_name)?;
-    let (file, last_txn_id) = JournalReader::<TA>::scroll(file, gs)?;
-    JournalWriter::new(file, last_txn_id, false)
+    JournalReader::<TA>::scroll(file, gs)
 }
 
 /// The journal adapter
@@ -293,17 +295,14 @@ impl<TA: JournalAdapter> JournalReader<TA> {
             Err(StorageError::JournalCorrupted.into())
         }
     }
-    /// Read and apply all events in the given log file to the global state, returning the (open file, last event ID)
-    pub fn scroll(
-        file: SDSSFileIO<File>,
-        gs: &TA::GlobalState,
-    ) -> RuntimeResult<(SDSSFileIO<File>, u64)> {
+    /// Read and apply all events in the given log file to the global state
+    pub fn scroll(file: SDSSFileIO<File>, gs: &TA::GlobalState) -> RuntimeResult<()> {
         let mut slf = Self::new(file)?;
         while !slf.end_of_file() {
             slf.rapply_next_event(gs)?;
         }
         if slf.closed {
-            Ok((slf.log_file.downgrade_reader(), slf.evid))
+            Ok(())
         } else {
             Err(StorageError::JournalCorrupted.into())
         }
@@ -336,64 +335,3 @@ impl<TA> JournalReader<TA> {
         Ok(())
     }
 }
-
-pub struct JournalWriter<TA> {
-    /// the txn log file
-    log_file: SDSSFileIO<File>,
-    /// the id of the **next** journal
-    id: u64,
-    _m: PhantomData<TA>,
-    closed: bool,
-}
-
-impl<TA: JournalAdapter> JournalWriter<TA> {
-    pub fn new(mut log_file: SDSSFileIO<File>, last_txn_id: u64, new: bool) -> RuntimeResult<Self> {
-        let log_size = log_file.file_length()?;
-        log_file.seek_from_start(log_size)?; // avoid jumbling with headers
-        let mut slf = Self {
-            log_file,
-            id: last_txn_id,
-            _m: PhantomData,
-            closed: false,
-        };
-        if !new {
-            // IMPORTANT: don't forget this; otherwise the journal reader will report a false error!
-            slf.append_journal_reopen()?;
-        }
-        Ok(slf)
-    }
-}
-
-impl<TA> JournalWriter<TA> {
-    pub fn append_journal_reopen(&mut self) -> RuntimeResult<()> {
-        let id = self._incr_id() as u128;
-        e!(self.log_file.fsynced_write(
-            &JournalEntryMetadata::new(id, EventSourceMarker::DRIVER_REOPENED, 0, 0).encoded(),
-        ))
-    }
-    pub fn __close_mut(&mut self) -> RuntimeResult<()> {
-        self.closed = true;
-        let id = self._incr_id() as u128;
-        self.log_file.fsynced_write(
-            &JournalEntryMetadata::new(id, EventSourceMarker::DRIVER_CLOSED, 0, 0).encoded(),
-        )?;
-        Ok(())
-    }
-    pub fn close(mut self) -> RuntimeResult<()> {
-        self.__close_mut()
-    }
-}
-
-impl<TA> JournalWriter<TA> {
-    fn _incr_id(&mut self) -> u64 {
-        let current = self.id;
-        self.id += 1;
-        current
-    }
-}
-
-impl<TA> Drop for JournalWriter<TA> {
-    fn drop(&mut self) {
-        assert!(self.closed, "log not closed");
-    }
-}
diff --git a/server/src/engine/storage/v1/raw/rw.rs b/server/src/engine/storage/v1/raw/rw.rs
index dc979bf..aecde58 100644
--- a/server/src/engine/storage/v1/raw/rw.rs
+++ b/server/src/engine/storage/v1/raw/rw.rs
@@ -28,9 +28,7 @@ use crate::{
     engine::{
         storage::common::{
             checksum::SCrc64,
-            interface::fs::{
-                BufferedReader, BufferedWriter, File, FileExt, FileRead, FileWrite, FileWriteExt,
-            },
+            interface::fs::{BufferedReader, File, FileExt, FileRead},
             sdss,
         },
         RuntimeResult,
@@ -39,23 +37,6 @@ use crate::{
     IoResult,
 };
 
-pub struct TrackedWriter {
-    file: SDSSFileIO<BufferedWriter>,
-    _cs: SCrc64,
-}
-
-impl TrackedWriter {
-    pub fn new(f: SDSSFileIO<File>) -> IoResult<Self> {
-        Ok(Self {
-            file: f.into_buffered_writer(),
-            _cs: SCrc64::new(),
-        })
-    }
-    pub fn sync_into_inner(self) -> IoResult<SDSSFileIO<File>> {
-        self.file.downgrade_writer()
-    }
-}
-
 /// [`SDSSFileLenTracked`] simply maintains application level length and checksum tracking to avoid frequent syscalls because we
 /// do not expect (even though it's very possible) users to randomly modify file lengths while we're reading them
 pub struct TrackedReader {
@@ -111,9 +92,6 @@ impl TrackedReader {
             Err(SysIOError::from(std::io::ErrorKind::InvalidInput).into_inner())
         }
     }
-    pub fn into_inner_file(self) -> SDSSFileIO<File> {
-        self.f.downgrade_reader()
-    }
     pub fn read_block<const N: usize>(&mut self) -> IoResult<[u8; N]> {
         if !self.has_left(N as _) {
             return Err(SysIOError::from(std::io::ErrorKind::InvalidInput).into_inner());
@@ -148,21 +126,6 @@ impl SDSSFileIO<File> {
     pub fn into_buffered_reader(self) -> SDSSFileIO<BufferedReader> {
         SDSSFileIO::new(self.f.into_buffered_reader())
     }
-    pub fn into_buffered_writer(self) -> SDSSFileIO<BufferedWriter> {
-        SDSSFileIO::new(self.f.into_buffered_writer())
-    }
-}
-
-impl SDSSFileIO<BufferedReader> {
-    pub fn downgrade_reader(self) -> SDSSFileIO<File> {
-        SDSSFileIO::_new(self.f.into_inner())
-    }
-}
-
-impl SDSSFileIO<BufferedWriter> {
-    pub fn downgrade_writer(self) -> IoResult<SDSSFileIO<File>> {
-        self.f.into_inner().map(SDSSFileIO::_new)
-    }
 }
 
 impl<F> SDSSFileIO<F> {
@@ -197,10 +160,3 @@ impl<F: FileRead + FileExt> SDSSFileIO<F> {
         Ok(buf)
     }
 }
-
-impl<F: FileWrite + FileWriteExt> SDSSFileIO<F> {
-    pub fn fsynced_write(&mut self, data: &[u8]) -> IoResult<()> {
-        self.f.fwrite_all(data)?;
-        self.f.fsync_all()
-    }
-}
-- 
2.43.0


From e95774a0337477d08e71b1408bac976b8050d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:25 +0000
Subject: [PATCH 54/57] fix: the delete of a row that was never written
 panicked the upgrade of the storage format

---
 server/src/engine/storage/v1/raw/batch_jrnl/restore.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index 98c51c0..ddec4dd 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -287,8 +287,7 @@ impl DataBatchRestoreDriver {
                     let _ = p_index.mt_delete(&pk, &g);
                 }
                 None => {
-                    // since we never delete rows until here, this is quite impossible
-                    unreachable!()
+                    // the insert was never written, because the row was changed or deleted before that
                 }
             }
         }
-- 
2.43.0


From 754ffe04b3f734955a5dbc6c18f3855c667f4553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:46 +0000
Subject: [PATCH 55/57] fix: a truncated dictionary or cell was read past its
 end

---
 .../src/engine/storage/common_encoding/r1/map.rs  |  3 +--
 .../src/engine/storage/common_encoding/r1/mod.rs  | 15 +++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/server/src/engine/storage/common_encoding/r1/map.rs b/server/src/engine/storage/common_encoding/r1/map.rs
index 39b5793..86b2bf0 100644
--- a/server/src/engine/storage/common_encoding/r1/map.rs
+++ b/server/src/engine/storage/common_encoding/r1/map.rs
@@ -84,8 +84,7 @@ impl<'a, M: MapStorageSpec> PersistObject for PersistMapImpl<'a, M> {
         MapIndexSizeMD(dict_size): Self::Metadata,
     ) -> RuntimeResult<Self::OutputType> {
         let mut dict = M::RestoredMap::map_new();
-        let decode_pretest_for_entry_meta = M::decode_pretest_for_entry_meta(scanner);
-        while decode_pretest_for_entry_meta & (dict.map_length() != dict_size) {
+        while M::decode_pretest_for_entry_meta(scanner) & (dict.map_length() != dict_size) {
             let md = unsafe {
                 // UNSAFE(@ohsayan): +pretest
                 M::decode_entry_meta(scanner).ok_or::<StorageError>(
diff --git a/server/src/engine/storage/common_encoding/r1/mod.rs b/server/src/engine/storage/common_encoding/r1/mod.rs
index 56ee59f..d0d97f0 100644
--- a/server/src/engine/storage/common_encoding/r1/mod.rs
+++ b/server/src/engine/storage/common_encoding/r1/mod.rs
@@ -60,16 +60,20 @@ impl<'a> DataSource for BufferedScanner<'a> {
         self.has_left(cnt)
     }
     unsafe fn read_next_byte(&mut self) -> Result<u8, Self::Error> {
-        Ok(self.next_byte())
+        self.has_left(1).then(|| self.next_byte()).ok_or(())
     }
     unsafe fn read_next_block<const N: usize>(&mut self) -> Result<[u8; N], Self::Error> {
-        Ok(self.next_chunk())
+        self.has_left(N).then(|| self.next_chunk()).ok_or(())
     }
     unsafe fn read_next_u64_le(&mut self) -> Result<u64, Self::Error> {
-        Ok(self.next_u64_le())
+        self.has_left(sizeof!(u64))
+            .then(|| self.next_u64_le())
+            .ok_or(())
     }
     unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
-        Ok(self.next_chunk_variable(size).into())
+        self.has_left(size)
+            .then(|| self.next_chunk_variable(size).into())
+            .ok_or(())
     }
 }
 
@@ -276,6 +280,9 @@ pub mod dec {
             mem::BufferedScanner,
         };
         pub unsafe fn decode_string(s: &mut BufferedScanner, len: usize) -> RuntimeResult<String> {
+            if !s.has_left(len) {
+                return Err(StorageError::InternalDecodeStructureCorruptedPayload.into());
+            }
             String::from_utf8(s.next_chunk_variable(len).to_owned())
                 .map_err(|_| StorageError::InternalDecodeStructureCorruptedPayload.into())
         }
-- 
2.43.0


From aa12c50298f0f01bd84121041cb2a85bc6487cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:19 +0000
Subject: [PATCH 56/57] fix: damaged lengths in files of the old storage format
 panicked or exhausted the memory

---
 server/src/engine/storage/v1/raw/batch_jrnl/restore.rs | 8 ++++++++
 server/src/engine/storage/v1/raw/journal/raw.rs        | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index ddec4dd..6697990 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -475,6 +475,10 @@ impl DataBatchRestoreDriver {
             }
             TagUnique::Str | TagUnique::Bin => {
                 let len = self.f.read_u64_le()?;
+                if !self.f.has_left(len) {
+                    // don't allocate anything for a damaged length
+                    return Err(StorageError::DataBatchRestoreCorruptedEntry.into());
+                }
                 let mut data = vec![0; len as usize];
                 self.f.tracked_read(&mut data)?;
                 if pk_type == TagUnique::Str {
@@ -536,6 +540,10 @@ impl DataSource for TrackedReader {
         Ok(self.read_u64_le()?)
     }
     unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
+        if !self.has_left(size as u64) {
+            // don't allocate anything for a damaged length
+            return Err(().into());
+        }
         let mut buf = vec![0; size];
         self.tracked_read(&mut buf)?;
         Ok(buf)
diff --git a/server/src/engine/storage/v1/raw/journal/raw.rs b/server/src/engine/storage/v1/raw/journal/raw.rs
index b35a462..0ce872c 100644
--- a/server/src/engine/storage/v1/raw/journal/raw.rs
+++ b/server/src/engine/storage/v1/raw/journal/raw.rs
@@ -278,6 +278,9 @@ impl<TA: JournalAdapter> JournalReader<TA> {
     /// once we **sucessfully** finish processing a normal (aka server event origin) event and not a non-normal branch)
     fn try_recover_journal_strategy_simple_reverse(&mut self) -> RuntimeResult<()> {
         debug_assert!(TA::RECOVERY_PLUGIN, "recovery plugin not enabled");
+        if !self.has_remaining_bytes(JournalEntryMetadata::SIZE as _) {
+            return Err(StorageError::JournalCorrupted.into());
+        }
         self.__record_read_bytes(JournalEntryMetadata::SIZE); // FIXME(@ohsayan): don't assume read length?
         let mut entry_buf = [0u8; JournalEntryMetadata::SIZE];
         if self.log_file.read_buffer(&mut entry_buf).is_err() {
-- 
2.43.0


From a8c32ab4605b63014290a41c3684497472fe21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 57/57] fix: the retry of a failed batch held up the recovery
 of everything else

---
 server/src/engine/fractal/mgr.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 9fa3393..3718a1e 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -42,7 +42,7 @@ use {
         },
         util::os,
     },
-    std::{path::PathBuf, time::Duration},
+    std::{collections::VecDeque, path::PathBuf, time::Duration},
     tokio::{
         fs,
         sync::{
@@ -77,9 +77,13 @@ impl<T> Task<T> {
     pub fn into_task(self) -> T {
         self.task
     }
+    /// How long to wait before this task is run (again)
+    fn delay(&self) -> Option<Duration> {
+        (self.threshold != TASK_THRESHOLD).then(|| Duration::from_secs(TASK_FAILURE_SLEEP_DURATION))
+    }
     async fn sleep(&self) {
-        if self.threshold != TASK_THRESHOLD {
-            tokio::time::sleep(Duration::from_secs(TASK_FAILURE_SLEEP_DURATION)).await
+        if let Some(delay) = self.delay() {
+            tokio::time::sleep(delay).await
         }
     }
 }
@@ -283,14 +287,17 @@ impl FractalMgr {
         mut receiver: UnboundedReceiver<Task<CriticalTask>>,
         mut sigterm: broadcast::Receiver<()>,
     ) {
+        // NB: waiting to retry a failed task must not hold up the other tasks
+        let mut retry = VecDeque::<(tokio::time::Instant, Task<CriticalTask>)>::new();
         loop {
+            let next_retry = retry.front().map(|(at, _)| *at);
             let task = tokio::select! {
                 task = receiver.recv() => {
                     match task {
                         Some(t) => {
-                            tokio::select! {
-                                _ = t.sleep() => {}
-                                _ = sigterm.recv() => {}
+                            if let Some(delay) = t.delay() {
+                                retry.push_back((tokio::time::Instant::now() + delay, t));
+                                continue;
                             }
                             t
                         },
@@ -300,11 +307,14 @@ impl FractalMgr {
                         }
                     }
                 }
+                _ = tokio::time::sleep_until(next_retry.unwrap_or_else(tokio::time::Instant::now)), if next_retry.is_some() => {
+                    retry.pop_front().unwrap().1
+                }
                 _ = sigterm.recv() => {
                     info!("fhp: finishing pending tasks");
                     // a task that fails posts itself again, so give up at some point
                     for _ in 0..TASK_THRESHOLD {
-                        let mut pending = Vec::new();
+                        let mut pending: Vec<_> = retry.drain(..).map(|(_, task)| task).collect();
                         while let Ok(task) = receiver.try_recv() {
                             pending.push(task)
                         }
-- 
2.43.0

