From c24f82c0cbe542fd7701b5063a8be68be995b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:57 +0000
Subject: [PATCH 01/57] fix: rows written before an ALTER MODEL ADD/REMOVE
 never saw the change

A row at schema version n skipped schema delta n, so after adding a field
SELECT failed and SELECT ALL panicked on all older rows; UPDATE did not
resolve schema deltas at all.
---
 server/src/engine/core/dml/upd.rs     |  4 ++-
 server/src/engine/core/index/row.rs   | 46 ++++++++++++++-------------
 server/src/engine/core/model/delta.rs |  5 +--
 3 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index d8af4f8..d7a385a 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -269,8 +269,10 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         };
         // lock row
         let mut row_data_wl = row.d_data().write();
-        // create new version
         let ds = mdl.delta_state();
+        // the schema might have changed since this row was last revised
+        row_data_wl.resolve_schema_deltas(ds);
+        // create new version
         let new_version = ds.create_new_data_delta_version();
         // process changes
         let mut rollback_now = false;
diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index 656422d..46239e8 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -68,6 +68,29 @@ impl RowData {
     pub fn get_txn_revised(&self) -> DeltaVersion {
         self.txn_revised_data
     }
+    /// Apply all schema deltas that were published after this row was last revised, bringing this row up to the current schema
+    pub fn resolve_schema_deltas(&mut self, delta_state: &DeltaState) {
+        for (_, delta) in delta_state.resolve_iter_since(self.txn_revised_schema_version) {
+            match delta.kind() {
+                SchemaDeltaKind::FieldAdd(f) => {
+                    self.fields.st_insert(
+                        unsafe {
+                            // UNSAFE(@ohsayan): a row is inside a model and is valid as long as it is in there!
+                            // even if the model was chucked and the row was lying around it won't cause any harm because it
+                            // neither frees anything nor allocates
+                            f.clone()
+                        },
+                        Datacell::null(),
+                    );
+                }
+                SchemaDeltaKind::FieldRem(f) => {
+                    self.fields.st_delete(f);
+                }
+            }
+        }
+        // a row at version `n` has all deltas with an ID less than `n` applied
+        self.txn_revised_schema_version = delta_state.schema_current_version();
+    }
 }
 
 impl TreeElement for Row {
@@ -154,28 +177,7 @@ impl Row {
         }
         // we have deltas to apply
         let mut wl = RwLockUpgradableReadGuard::upgrade(rwl_ug);
-        let mut max_delta = wl.txn_revised_schema_version;
-        for (delta_id, delta) in delta_state.resolve_iter_since(wl.txn_revised_schema_version) {
-            match delta.kind() {
-                SchemaDeltaKind::FieldAdd(f) => {
-                    wl.fields.st_insert(
-                        unsafe {
-                            // UNSAFE(@ohsayan): a row is inside a model and is valid as long as it is in there!
-                            // even if the model was chucked and the row was lying around it won't cause any harm because it
-                            // neither frees anything nor allocates
-                            f.clone()
-                        },
-                        Datacell::null(),
-                    );
-                }
-                SchemaDeltaKind::FieldRem(f) => {
-                    wl.fields.st_delete(f);
-                }
-            }
-            max_delta = *delta_id;
-        }
-        // we've revised upto the most most recent delta version (that we saw at this point)
-        wl.txn_revised_schema_version = max_delta;
+        wl.resolve_schema_deltas(delta_state);
         return RwLockWriteGuard::downgrade(wl);
     }
     pub fn resolve_schema_deltas_and_freeze<'g>(
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 84e2aaa..a404861 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -116,7 +116,7 @@ impl DeltaState {
         &self,
         current_version: DeltaVersion,
     ) -> Range<DeltaVersion, SchemaDeltaPart> {
-        self.schema_deltas.range(current_version.step()..)
+        self.schema_deltas.range(current_version..)
     }
     pub fn schema_current_version(&self) -> DeltaVersion {
         DeltaVersion(self.schema_current_version)
@@ -158,9 +158,6 @@ impl DeltaVersion {
     pub const fn __new(v: u64) -> Self {
         Self(v)
     }
-    fn step(&self) -> Self {
-        Self(self.0 + 1)
-    }
     pub const fn value_u64(&self) -> u64 {
         self.0
     }
-- 
2.43.0


From 69091d3bfb52461f4a12f0d2779ff62197277251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:35 +0000
Subject: [PATCH 02/57] fix: restart mixed up columns of rows stored before an
 ALTER MODEL ADD/REMOVE

Stored rows were zipped with the current fields of the model instead of the
fields that the model had when the batch was written.
---
 server/src/engine/core/index/row.rs           |  2 +-
 server/src/engine/core/model/delta.rs         | 33 ++++++++++++++++---
 server/src/engine/core/model/mod.rs           | 10 +++++-
 .../engine/storage/v2/impls/mdl_journal.rs    | 27 ++++++++-------
 4 files changed, 53 insertions(+), 19 deletions(-)

diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index 46239e8..061374a 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -83,7 +83,7 @@ impl RowData {
                         Datacell::null(),
                     );
                 }
-                SchemaDeltaKind::FieldRem(f) => {
+                SchemaDeltaKind::FieldRem(f, _) => {
                     self.fields.st_delete(f);
                 }
             }
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index a404861..6f5f005 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -124,8 +124,30 @@ impl DeltaState {
     pub fn unresolved_append_field_add(&mut self, field_name: RawStr) {
         self.__schema_append_unresolved_delta(SchemaDeltaPart::field_add(field_name));
     }
-    pub fn unresolved_append_field_rem(&mut self, field_name: RawStr) {
-        self.__schema_append_unresolved_delta(SchemaDeltaPart::field_rem(field_name));
+    pub fn unresolved_append_field_rem(&mut self, field_name: RawStr, column: usize) {
+        self.__schema_append_unresolved_delta(SchemaDeltaPart::field_rem(field_name, column));
+    }
+    /// Returns the columns (all fields but the primary key, in order) at the given schema version, by undoing
+    /// every later delta on the current columns
+    pub fn columns_at_version(
+        &self,
+        version: DeltaVersion,
+        current_columns: impl Iterator<Item = RawStr>,
+    ) -> Vec<RawStr> {
+        let mut columns: Vec<RawStr> = current_columns.collect();
+        for (_, delta) in self.schema_deltas.range(version..).rev() {
+            match delta.kind() {
+                SchemaDeltaKind::FieldAdd(_) => {
+                    // new fields are always appended
+                    columns.pop();
+                }
+                SchemaDeltaKind::FieldRem(f, column) => columns.insert(*column, unsafe {
+                    // UNSAFE(@ohsayan): allocation is only vacuumed once all data is restored
+                    f.clone()
+                }),
+            }
+        }
+        columns
     }
 }
 
@@ -181,7 +203,8 @@ impl SchemaDeltaPart {
 #[derive(Debug)]
 pub enum SchemaDeltaKind {
     FieldAdd(RawStr),
-    FieldRem(RawStr),
+    /// field name and its position among the columns (all fields but the primary key) when it was removed
+    FieldRem(RawStr, usize),
 }
 
 impl SchemaDeltaPart {
@@ -191,8 +214,8 @@ impl SchemaDeltaPart {
     fn field_add(field_name: RawStr) -> Self {
         Self::new(SchemaDeltaKind::FieldAdd(field_name))
     }
-    fn field_rem(field_name: RawStr) -> Self {
-        Self::new(SchemaDeltaKind::FieldRem(field_name))
+    fn field_rem(field_name: RawStr, column: usize) -> Self {
+        Self::new(SchemaDeltaKind::FieldRem(field_name, column))
     }
 }
 
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 3d24e4d..aebfdff 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -472,12 +472,20 @@ impl<'a> ModelMutator<'a> {
         self.model.private.vacuum_marked()
     }
     pub fn remove_field(&mut self, name: &str) -> bool {
+        // locate
+        let column = self
+            .model
+            .fields
+            .stseq_ord_key()
+            .filter(|key| key.as_str() != self.model.p_key())
+            .take_while(|key| key.as_str() != name)
+            .count();
         // remove
         let r = self.model.fields.st_delete(name);
         // recycle
         let ptr = unsafe { self.model.private.mark_pending_remove(name) };
         // publish delta
-        self.model.delta.unresolved_append_field_rem(ptr);
+        self.model.delta.unresolved_append_field_rem(ptr, column);
         r
     }
     pub fn add_field(&mut self, name: Box<str>, field: Field) -> bool {
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 6870eda..6c27ef4 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -512,6 +512,19 @@ impl BatchAdapterSpec for ModelDataAdapter {
         let p_index = gs.primary_index().__raw_index();
         let m = gs;
         let mut real_last_txn_id = DeltaVersion::genesis();
+        // rows were encoded with the columns that the model had when this batch was written
+        let schema_version = DeltaVersion::__new(batch_md.schema_version)
+            .min(m.delta_state().schema_current_version());
+        let columns = m.delta_state().columns_at_version(
+            schema_version,
+            m.fields()
+                .stseq_ord_key()
+                .filter(|key| key.as_str() != m.p_key())
+                .map(|key| unsafe {
+                    // UNSAFE(@ohsayan): model in scope, we're good
+                    key.clone()
+                }),
+        );
         for DecodedBatchEvent { txn_id, pk, kind } in batch_state.events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
@@ -534,12 +547,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
                         real_last_txn_id = txn_id;
                     }
                     let mut data = DcFieldIndex::default();
-                    for (field_name, new_data) in m
-                        .fields()
-                        .stseq_ord_key()
-                        .filter(|key| key.as_str() != m.p_key())
-                        .zip(new_row)
-                    {
+                    for (field_name, new_data) in columns.iter().zip(new_row) {
                         data.st_insert(
                             unsafe {
                                 // UNSAFE(@ohsayan): model in scope, we're good
@@ -548,12 +556,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
                             new_data,
                         );
                     }
-                    let row = Row::new_restored(
-                        pk,
-                        data,
-                        DeltaVersion::__new(batch_md.schema_version),
-                        txn_id,
-                    );
+                    let row = Row::new_restored(pk, data, schema_version, txn_id);
                     // resolve any deltas
                     let _ = row.resolve_schema_deltas_and_freeze(m.delta_state());
                     // put it back in (lol); blame @ohsayan for this joke
-- 
2.43.0


From 10b895416d4965e6e0dbed14ceeedbdb265deaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:22 +0000
Subject: [PATCH 03/57] fix: UPDATE accepted out of range results, nulled
 fields and was not all-or-nothing

A failing operator (overflow, operator not defined for the type) was treated as
success; pushing to a list skipped validation and was not rolled back; division
by zero panicked; assigning to a null field skipped the range check.
---
 server/src/engine/core/dml/upd.rs   | 151 ++++++++++++++++++----------
 server/src/engine/core/model/mod.rs |   4 +
 2 files changed, 100 insertions(+), 55 deletions(-)

diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index d7a385a..62f80a6 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -34,7 +34,7 @@ use {
             data::{
                 cell::Datacell,
                 lit::Lit,
-                tag::{DataTag, FloatSpec, SIntSpec, TagClass, UIntSpec},
+                tag::{DataTag, FloatSpec, FullTag, SIntSpec, TagClass, UIntSpec},
             },
             error::{QueryError, QueryResult},
             fractal::GlobalInstanceLike,
@@ -49,64 +49,68 @@ use {
 };
 
 #[inline(always)]
-unsafe fn dc_op_fail(_: &Datacell, _: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_fail(_: FullTag, _: &Datacell, _: Lit) -> (bool, Datacell) {
     (false, Datacell::null())
 }
 // bool
-unsafe fn dc_op_bool_ass(_: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_bool_ass(_: FullTag, _: &Datacell, rhs: Lit) -> (bool, Datacell) {
     (true, Datacell::new_bool(rhs.bool()))
 }
 // uint
-unsafe fn dc_op_uint_ass(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_uint_ass(tag: FullTag, _: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let uint = rhs.uint();
-    let kind = UIntSpec::from_full(dc.tag());
+    let kind = UIntSpec::from_full(tag);
     (kind.check(uint), Datacell::new_uint(uint, kind))
 }
-unsafe fn dc_op_uint_add(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = UIntSpec::from_full(dc.tag());
+unsafe fn dc_op_uint_add(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+    let kind = UIntSpec::from_full(tag);
     let (uint, did_of) = dc.uint().overflowing_add(rhs.uint());
     (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
 }
-unsafe fn dc_op_uint_sub(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = UIntSpec::from_full(dc.tag());
+unsafe fn dc_op_uint_sub(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+    let kind = UIntSpec::from_full(tag);
     let (uint, did_of) = dc.uint().overflowing_sub(rhs.uint());
     (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
 }
-unsafe fn dc_op_uint_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = UIntSpec::from_full(dc.tag());
+unsafe fn dc_op_uint_mul(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+    let kind = UIntSpec::from_full(tag);
     let (uint, did_of) = dc.uint().overflowing_mul(rhs.uint());
     (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
 }
-unsafe fn dc_op_uint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = UIntSpec::from_full(dc.tag());
-    let (uint, did_of) = dc.uint().overflowing_div(rhs.uint());
-    (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
+unsafe fn dc_op_uint_div(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+    let kind = UIntSpec::from_full(tag);
+    match dc.uint().checked_div(rhs.uint()) {
+        Some(uint) => (kind.check(uint), Datacell::new_uint(uint, kind)),
+        None => dc_op_fail(tag, dc, rhs),
+    }
 }
 // sint
-unsafe fn dc_op_sint_ass(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_sint_ass(tag: FullTag, _: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let sint = rhs.sint();
-    let kind = SIntSpec::from_full(dc.tag());
+    let kind = SIntSpec::from_full(tag);
     (kind.check(sint), Datacell::new_sint(sint, kind))
 }
-unsafe fn dc_op_sint_add(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = SIntSpec::from_full(dc.tag());
+unsafe fn dc_op_sint_add(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+    let kind = SIntSpec::from_full(tag);
     let (sint, did_of) = dc.sint().overflowing_add(rhs.sint());
     (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
 }
-unsafe fn dc_op_sint_sub(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = SIntSpec::from_full(dc.tag());
+unsafe fn dc_op_sint_sub(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+    let kind = SIntSpec::from_full(tag);
     let (sint, did_of) = dc.sint().overflowing_sub(rhs.sint());
     (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
 }
-unsafe fn dc_op_sint_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = SIntSpec::from_full(dc.tag());
+unsafe fn dc_op_sint_mul(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+    let kind = SIntSpec::from_full(tag);
     let (sint, did_of) = dc.sint().overflowing_mul(rhs.sint());
     (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
 }
-unsafe fn dc_op_sint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = SIntSpec::from_full(dc.tag());
-    let (sint, did_of) = dc.sint().overflowing_div(rhs.sint());
-    (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
+unsafe fn dc_op_sint_div(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+    let kind = SIntSpec::from_full(tag);
+    match dc.sint().checked_div(rhs.sint()) {
+        Some(sint) => (kind.check(sint), Datacell::new_sint(sint, kind)),
+        None => dc_op_fail(tag, dc, rhs),
+    }
 }
 /*
     float
@@ -118,73 +122,73 @@ unsafe fn dc_op_sint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     --
     TODO(@ohsayan): account for float32 overflow
 */
-unsafe fn dc_op_float_ass(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_float_ass(tag: FullTag, _: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let float = rhs.float();
-    let kind = FloatSpec::from_full(dc.tag());
+    let kind = FloatSpec::from_full(tag);
     (kind.check(float), Datacell::new_float(float, kind))
 }
-unsafe fn dc_op_float_add(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_float_add(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let result = dc.read_float() + rhs.float();
-    let kind = FloatSpec::from_full(dc.tag());
+    let kind = FloatSpec::from_full(tag);
     (kind.check(result), Datacell::new_float(result, kind))
 }
-unsafe fn dc_op_float_sub(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_float_sub(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let result = dc.read_float() - rhs.float();
-    let kind = FloatSpec::from_full(dc.tag());
+    let kind = FloatSpec::from_full(tag);
     (kind.check(result), Datacell::new_float(result, kind))
 }
-unsafe fn dc_op_float_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_float_mul(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let result = dc.read_float() * rhs.float();
-    let kind = FloatSpec::from_full(dc.tag());
+    let kind = FloatSpec::from_full(tag);
     (kind.check(result), Datacell::new_float(result, kind))
 }
-unsafe fn dc_op_float_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_float_div(tag: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let result = dc.read_float() / rhs.float();
-    let kind = FloatSpec::from_full(dc.tag());
+    let kind = FloatSpec::from_full(tag);
     (kind.check(result), Datacell::new_float(result, kind))
 }
 // binary
-unsafe fn dc_op_bin_ass(_dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_bin_ass(_: FullTag, _dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let new_bin = rhs.bin();
     let mut v = Vec::new();
     if v.try_reserve_exact(new_bin.len()).is_err() {
-        return dc_op_fail(_dc, rhs);
+        return dc_op_fail(FullTag::BIN, _dc, rhs);
     }
     v.extend_from_slice(new_bin);
     (true, Datacell::new_bin(v.into_boxed_slice()))
 }
-unsafe fn dc_op_bin_add(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_bin_add(_: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let push_into_bin = rhs.bin();
     let mut bin = Vec::new();
     if compiler::unlikely(bin.try_reserve_exact(push_into_bin.len()).is_err()) {
-        return dc_op_fail(dc, rhs);
+        return dc_op_fail(FullTag::BIN, dc, rhs);
     }
     bin.extend_from_slice(dc.read_bin());
     bin.extend_from_slice(push_into_bin);
     (true, Datacell::new_bin(bin.into_boxed_slice()))
 }
 // string
-unsafe fn dc_op_str_ass(_dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_str_ass(_: FullTag, _dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let new_str = rhs.str();
     let mut v = String::new();
     if v.try_reserve_exact(new_str.len()).is_err() {
-        return dc_op_fail(_dc, rhs);
+        return dc_op_fail(FullTag::STR, _dc, rhs);
     }
     v.push_str(new_str);
     (true, Datacell::new_str(v.into_boxed_str()))
 }
-unsafe fn dc_op_str_add(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_str_add(_: FullTag, dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let push_into_str = rhs.str();
     let mut str = String::new();
     if compiler::unlikely(str.try_reserve_exact(push_into_str.len()).is_err()) {
-        return dc_op_fail(dc, rhs);
+        return dc_op_fail(FullTag::STR, dc, rhs);
     }
     str.push_str(dc.read_str());
     str.push_str(push_into_str);
     (true, Datacell::new_str(str.into_boxed_str()))
 }
 
-static OPERATOR: [unsafe fn(&Datacell, Lit) -> (bool, Datacell); {
+static OPERATOR: [unsafe fn(FullTag, &Datacell, Lit) -> (bool, Datacell); {
     TagClass::MAX_DSCR as usize * AssignmentOperator::VARIANT_COUNT
 }] = [
     // bool
@@ -315,27 +319,49 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
                 (tag_a, tag_b)
                     if (tag_a == tag_b) & (tag_a < TagClass::List) & field_data.is_init() =>
                 {
-                    let (okay, new) = unsafe { OPERATOR[opc(tag_a, operator_fn)](field_data, rhs) };
-                    rollback_now &= !okay;
-                    rollback_data.push((lhs.as_str(), mem::replace(field_data, new)));
+                    let (okay, new) = unsafe {
+                        OPERATOR[opc(tag_a, operator_fn)](
+                            field_definition.layers()[0].tag(),
+                            field_data,
+                            rhs,
+                        )
+                    };
                     input_trace("sametag;nonnull");
+                    if okay {
+                        rollback_data.push((lhs.as_str(), Some(mem::replace(field_data, new))));
+                    } else {
+                        rollback_now = true;
+                        ret = Err(QueryError::QExecDmlValidationError);
+                        break;
+                    }
                 }
                 (tag_a, tag_b)
                     if (tag_a == tag_b)
                         & field_data.is_null()
                         & (operator_fn == AssignmentOperator::Assign) =>
                 {
-                    rollback_data.push((lhs.as_str(), mem::replace(field_data, rhs.into())));
+                    let mut new = rhs.into();
                     input_trace("sametag;orignull");
+                    if field_definition.vt_data_fpath(&mut new) {
+                        rollback_data.push((lhs.as_str(), Some(mem::replace(field_data, new))));
+                    } else {
+                        rollback_now = true;
+                        ret = Err(QueryError::QExecDmlValidationError);
+                        break;
+                    }
                 }
-                (TagClass::List, tag_b) if operator_fn == AssignmentOperator::AddAssign => {
-                    if field_definition.layers()[1].tag().tag_class() == tag_b {
+                (TagClass::List, _)
+                    if (operator_fn == AssignmentOperator::AddAssign) & field_data.is_init() =>
+                {
+                    let mut new = rhs.into();
+                    if field_definition.vt_list_element(&mut new) {
                         unsafe {
                             // UNSAFE(@ohsayan): matched tags
                             let mut list = field_data.read_list().write();
                             if list.try_reserve(1).is_ok() {
                                 input_trace("list;sametag");
-                                list.push(rhs.into());
+                                list.push(new);
+                                rollback_data.push((lhs.as_str(), None));
                             } else {
                                 rollback_now = true;
                                 ret = Err(QueryError::SysOutOfMemory);
@@ -359,10 +385,25 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         }
         if compiler::unlikely(rollback_now) {
             input_trace("rollback");
+            // undo in reverse order, since the same field might have been changed more than once
             rollback_data
                 .into_iter()
-                .for_each(|(field_id, restored_data)| {
-                    row_data_wl.fields_mut().st_update(field_id, restored_data);
+                .rev()
+                .for_each(|(field_id, restored_data)| match restored_data {
+                    Some(data) => {
+                        row_data_wl.fields_mut().st_update(field_id, data);
+                    }
+                    None => {
+                        // this was a push to a list
+                        if let Some(list) = row_data_wl.fields().st_get(field_id) {
+                            let _ = unsafe {
+                                // UNSAFE(@ohsayan): +tagck
+                                list.read_list()
+                            }
+                            .write()
+                            .pop();
+                        }
+                    }
                 });
         } else {
             // update revised tag
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index aebfdff..5adf0e5 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -612,6 +612,10 @@ impl Field {
             Self::rvt_data(self.layers(), data)
         }
     }
+    /// Validate a single new element for a list field
+    pub fn vt_list_element(&self, element: &mut Datacell) -> bool {
+        (self.layers.len() > 1) && Self::rvt_data(&self.layers()[1..], element)
+    }
     fn rvt_data(layers: &[Layer], data: &mut Datacell) -> bool {
         let layer = layers[0];
         let layers = &layers[1..];
-- 
2.43.0


From 779d0e3195dfa71dcd86378b89cc3ca42c38c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:43 +0000
Subject: [PATCH 04/57] fix: a query that ends within an entity name panicked
 instead of returning an error

---
 server/src/engine/ql/ast/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 5446f58..1db555b 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -88,12 +88,14 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     }
     pub fn try_entity_buffered_into_state_uninit(&mut self) -> MaybeInit<EntityIDRef<'a>> {
         let mut ret = MaybeInit::uninit();
-        let self_has_full = Self::_entity_signature_match_self_full(
-            &self.t[self.cursor()],
-            &self.t[self.cursor() + 1],
-            &self.t[self.cursor() + 2],
-        );
-        let self_has_full_cs = self._entity_signature_match_cs(&self.t[self.cursor()]);
+        let self_has_full = self.has_remaining(3)
+            && Self::_entity_signature_match_self_full(
+                &self.t[self.cursor()],
+                &self.t[self.cursor() + 1],
+                &self.t[self.cursor() + 2],
+            );
+        let self_has_full_cs =
+            self.not_exhausted() && self._entity_signature_match_cs(&self.t[self.cursor()]);
         unsafe {
             if self_has_full {
                 ret = MaybeInit::new(self._entity_new_from_tokens());
-- 
2.43.0


From ca19d971c72c0f5174c5d8926e6f918405e3df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 05/57] fix: SELECT returned the primary key with the type of
 the query literal

SELECT ALL returns it with its declared type.
---
 server/src/engine/core/dml/sel.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/server/src/engine/core/dml/sel.rs b/server/src/engine/core/dml/sel.rs
index ea88458..6992023 100644
--- a/server/src/engine/core/dml/sel.rs
+++ b/server/src/engine/core/dml/sel.rs
@@ -186,26 +186,27 @@ where
         .namespace()
         .with_model(select.entity(), |mdl| {
             let target_key = mdl.resolve_where(select.clauses_mut())?;
-            let pkdc = VirtualDatacell::new(target_key.clone(), mdl.p_tag().tag_unique());
             let g = sync::atm::cpin();
-            let mut read_field = |key, fields: &DcFieldIndex| {
+            let mut read_field = |key, pkdc: &Datacell, fields: &DcFieldIndex| {
                 match fields.st_get(key) {
                     Some(dc) => cellfn(dc),
-                    None if key == mdl.p_key() => cellfn(&pkdc),
+                    None if key == mdl.p_key() => cellfn(pkdc),
                     None => return Err(QueryError::QExecUnknownField),
                 }
                 Ok(())
             };
-            match mdl.primary_index().select(target_key.clone(), &g) {
+            match mdl.primary_index().select(target_key, &g) {
                 Some(row) => {
+                    // the key has the type that the model declares for it, not the type of the literal in the query
+                    let pkdc = VirtualDatacell::new_pk(row.d_key(), mdl.p_tag());
                     let r = row.resolve_schema_deltas_and_freeze(mdl.delta_state());
                     if select.is_wildcard() {
                         for key in mdl.fields().stseq_ord_key() {
-                            read_field(key.as_ref(), r.fields())?;
+                            read_field(key.as_ref(), &pkdc, r.fields())?;
                         }
                     } else {
                         for key in select.into_fields() {
-                            read_field(key.as_str(), r.fields())?;
+                            read_field(key.as_str(), &pkdc, r.fields())?;
                         }
                     }
                 }
-- 
2.43.0


From 5c10942562b01b257b1d898c822aa811dfb21d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 06/57] fix: WHERE clauses on other columns were silently
 ignored

They are not indexed, so reject the query instead of returning or changing a
row that does not match.
---
 server/src/engine/core/dml/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/dml/mod.rs b/server/src/engine/core/dml/mod.rs
index 5d7cc1f..91afecd 100644
--- a/server/src/engine/core/dml/mod.rs
+++ b/server/src/engine/core/dml/mod.rs
@@ -58,9 +58,11 @@ impl ModelData {
         &self,
         where_clause: &mut WhereClause<'a>,
     ) -> QueryResult<Lit<'a>> {
-        match where_clause.clauses_mut().remove(self.p_key().as_bytes()) {
+        let clauses = where_clause.clauses_mut();
+        match clauses.remove(self.p_key().as_bytes()) {
             Some(clause)
-                if clause.filter_hint_none()
+                if clauses.is_empty()
+                    & clause.filter_hint_none()
                     & (clause.rhs().kind().tag_unique() == self.p_tag().tag_unique()) =>
             {
                 Ok(clause.rhs())
-- 
2.43.0


From 6b2286bd93027afc883888ccff8de4482424ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 07/57] fix: ALTER USER always failed

Only root may run it, and it was rejected for root.
---
 server/src/engine/core/dcl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/core/dcl.rs b/server/src/engine/core/dcl.rs
index bac0c3e..43161c0 100644
--- a/server/src/engine/core/dcl.rs
+++ b/server/src/engine/core/dcl.rs
@@ -25,6 +25,7 @@
 */
 
 use crate::engine::{
+    core::system_db::SystemDatabase,
     data::{tag::TagClass, DictEntryGeneric},
     error::{QueryError, QueryResult},
     fractal::GlobalInstanceLike,
@@ -45,7 +46,7 @@ pub fn exec<G: GlobalInstanceLike>(
     match cmd {
         SysctlCommand::CreateUser(new) => create_user(&g, new),
         SysctlCommand::DropUser(drop) => drop_user(&g, current_user, drop),
-        SysctlCommand::AlterUser(usermod) => alter_user(&g, current_user, usermod),
+        SysctlCommand::AlterUser(usermod) => alter_user(&g, usermod),
         SysctlCommand::ReportStatus => {
             if g.health().status_okay() {
                 Ok(())
@@ -58,10 +59,9 @@ pub fn exec<G: GlobalInstanceLike>(
 
 fn alter_user(
     global: &impl GlobalInstanceLike,
-    cstate: &ClientLocalState,
     user: UserDecl,
 ) -> QueryResult<()> {
-    if cstate.is_root() {
+    if user.username() == SystemDatabase::ROOT_ACCOUNT {
         // the root password can only be changed by shutting down the server
         return Err(QueryError::SysAuthError);
     }
-- 
2.43.0


From 1905fb4d1d642df6dc97db1df3402f3069680931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 08/57] fix: INSPECT SPACE returned malformed JSON

---
 server/src/engine/core/ddl_misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/core/ddl_misc.rs b/server/src/engine/core/ddl_misc.rs
index 0c7d431..dcd39cf 100644
--- a/server/src/engine/core/ddl_misc.rs
+++ b/server/src/engine/core/ddl_misc.rs
@@ -93,7 +93,7 @@ pub fn inspect(
                         ret.push(',');
                     }
                 }
-                ret.push_str("]}}");
+                ret.push_str("]}");
                 ret
             }
             None => return Err(QueryError::QExecObjectNotFound),
-- 
2.43.0


From ca4bf2ce5c45b124fc8dd08cfc7d303b01007036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:30 +0000
Subject: [PATCH 09/57] fix: deeply nested lists, dictionaries or types in a
 query killed the server

The parser recursed without a limit, so one query could overflow the stack and
abort the process. Limit the nesting depth and return a syntax error.
---
 server/src/engine/ql/ast/mod.rs | 15 +++++++++++++++
 server/src/engine/ql/ddl/syn.rs |  4 ++++
 server/src/engine/ql/dml/ins.rs |  2 ++
 3 files changed, 21 insertions(+)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 1db555b..8859c6c 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -51,6 +51,7 @@ pub struct State<'a, Qd> {
     i: usize,
     f: bool,
     cs: Option<&'static str>,
+    depth: usize,
 }
 
 impl<'a> State<'a, InplaceData> {
@@ -144,8 +145,22 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
             t,
             d,
             cs: None,
+            depth: 0,
         }
     }
+    /// The maximum depth of nested lists, dictionaries and types in a query
+    const MAX_NESTING: usize = 256;
+    #[inline(always)]
+    /// Enter a nested item; this poisons the state if the items are nested too deep
+    pub(super) fn enter_nested(&mut self) {
+        self.depth += 1;
+        self.poison_if(self.depth > Self::MAX_NESTING);
+    }
+    #[inline(always)]
+    /// Leave a nested item
+    pub(super) fn leave_nested(&mut self) {
+        self.depth -= 1;
+    }
     #[inline(always)]
     /// Returns `true` if the state is okay
     pub const fn okay(&self) -> bool {
diff --git a/server/src/engine/ql/ddl/syn.rs b/server/src/engine/ql/ddl/syn.rs
index 1c1a938..21bb9dd 100644
--- a/server/src/engine/ql/ddl/syn.rs
+++ b/server/src/engine/ql/ddl/syn.rs
@@ -189,7 +189,9 @@ where
             (Token![open {}], DictFoldState::LIT_OR_OB) => {
                 // found a nested dict
                 let mut ndict = DictGeneric::new();
+                state.enter_nested();
                 _rfold_dict::<Qd, NoBreakpoint>(DictFoldState::CB_OR_IDENT, state, &mut ndict);
+                state.leave_nested();
                 state.poison_if_not(
                     dict.insert(
                         unsafe {
@@ -291,7 +293,9 @@ fn rfold_layers<'a, Qd: QueryData<'a>>(state: &mut State<'a, Qd>, layers: &mut V
                     // but we first need a colon
                     state.poison_if_not(state.cursor_rounded_eq(Token![:]));
                     state.cursor_ahead_if(state.okay());
+                    state.enter_nested();
                     rfold_layers(state, layers);
+                    state.leave_nested();
                     // we are yet to parse the remaining props
                     mstate = LayerFoldState::FOLD_INCOMPLETE;
                 } else {
diff --git a/server/src/engine/ql/dml/ins.rs b/server/src/engine/ql/dml/ins.rs
index 9bd4069..a33b18e 100644
--- a/server/src/engine/ql/dml/ins.rs
+++ b/server/src/engine/ql/dml/ins.rs
@@ -143,7 +143,9 @@ pub(super) fn parse_list<'a, Qd: QueryData<'a>>(
             Token![open []] => {
                 // a nested list
                 let mut nested_list = Vec::new();
+                state.enter_nested();
                 let nlist_dscr = parse_list(state, &mut nested_list);
+                state.leave_nested();
                 // check type return
                 state.poison_if_not(
                     prev_nlist_dscr.is_none()
-- 
2.43.0


From 8f43a20a50492525212bbee362c1e06c75da62d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 10/57] fix: queries that end early could panic or read past
 the end instead of returning an error

---
 server/src/engine/ql/ast/mod.rs | 14 +++++++++-----
 server/src/engine/ql/dml/sel.rs |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 8859c6c..72924b8 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -32,7 +32,7 @@ pub use traits::{
 };
 
 use {
-    super::lex::{Keyword, KeywordStmt, Token},
+    super::lex::{Keyword, KeywordStmt, Symbol, Token},
     crate::{
         engine::{
             core::EntityIDRef,
@@ -150,6 +150,8 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     }
     /// The maximum depth of nested lists, dictionaries and types in a query
     const MAX_NESTING: usize = 256;
+    /// The token that is "read" once the token stream is exhausted
+    const EXHAUSTED: &'static Token<'static> = &Token::Symbol(Symbol::SymAccent);
     #[inline(always)]
     /// Enter a nested item; this poisons the state if the items are nested too deep
     pub(super) fn enter_nested(&mut self) {
@@ -198,13 +200,15 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     }
     #[inline(always)]
     /// Read the cursor
+    ///
+    /// NOTE: if the token stream has been exhausted, then this is a token that no statement expects
     pub fn read(&self) -> &'a Token<'a> {
-        &self.t[self.i]
+        self.t.get(self.i).unwrap_or(Self::EXHAUSTED)
     }
     #[inline(always)]
     /// Return a subslice of the tokens using the current state
     pub fn current(&self) -> &'a [Token<'a>] {
-        &self.t[self.i..]
+        self.t.get(self.i..).unwrap_or(&[])
     }
     #[inline(always)]
     pub fn offset_current_r(&self, offset: usize) -> &Token<'a> {
@@ -213,7 +217,7 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     #[inline(always)]
     /// Returns a count of the number of consumable tokens remaining
     pub fn remaining(&self) -> usize {
-        self.t.len() - self.i
+        self.t.len().saturating_sub(self.i)
     }
     #[inline(always)]
     /// Read and forward the cursor
@@ -274,7 +278,7 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     #[inline(always)]
     /// Check if the cursor equals the given token
     pub(crate) fn cursor_eq(&self, token: Token) -> bool {
-        self.t[self.i] == token
+        self.read().eq(&token)
     }
     #[inline(always)]
     /// Move the cursor back by 1
diff --git a/server/src/engine/ql/dml/sel.rs b/server/src/engine/ql/dml/sel.rs
index e379db2..a4bb5d6 100644
--- a/server/src/engine/ql/dml/sel.rs
+++ b/server/src/engine/ql/dml/sel.rs
@@ -208,7 +208,7 @@ impl<'a> SelectAllStatement<'a> {
         let entity = state.try_entity_buffered_into_state_uninit();
         state.poison_if_not(state.cursor_rounded_eq(Token![limit]));
         state.cursor_ahead_if(state.okay()); // we did read limit
-        state.poison_if(state.exhausted()); // we MUST have the limit
+        state.poison_if_not(state.can_read_lit_rounded()); // we MUST have the limit
         if state.okay() {
             let lit = unsafe { state.fw_read().uck_read_lit() };
             match lit.try_uint() {
-- 
2.43.0


From 2380ed67af8c154e6e389fe5d69a6d64ebaa340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 11/57] fix: a handshake with several invalid fields panicked
 instead of being rejected

---
 server/src/engine/net/protocol/handshake.rs | 31 ++++++++++-----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/server/src/engine/net/protocol/handshake.rs b/server/src/engine/net/protocol/handshake.rs
index 29a798d..4ace9e2 100644
--- a/server/src/engine/net/protocol/handshake.rs
+++ b/server/src/engine/net/protocol/handshake.rs
@@ -297,23 +297,20 @@ impl<'a> CHandshake<'a> {
                 | invalid_query_mode
                 | invalid_auth_mode,
         ) {
-            static ERROR: [ProtocolError; 6] = [
-                ProtocolError::CorruptedHSPacket,
-                ProtocolError::RejectHSVersion,
-                ProtocolError::RejectProtocol,
-                ProtocolError::RejectExchangeMode,
-                ProtocolError::RejectQueryMode,
-                ProtocolError::RejectAuth,
-            ];
-            return HandshakeResult::Error(
-                ERROR[((invalid_first_byte as u8 * 1)
-                    | (invalid_hs_version as u8 * 2)
-                    | (invalid_proto_version as u8 * 3)
-                    | (invalid_exchange_mode as u8 * 4)
-                    | (invalid_query_mode as u8 * 5)
-                    | (invalid_auth_mode as u8) * 6) as usize
-                    - 1usize],
-            );
+            // report the first invalid field
+            return HandshakeResult::Error(if invalid_first_byte {
+                ProtocolError::CorruptedHSPacket
+            } else if invalid_hs_version {
+                ProtocolError::RejectHSVersion
+            } else if invalid_proto_version {
+                ProtocolError::RejectProtocol
+            } else if invalid_exchange_mode {
+                ProtocolError::RejectExchangeMode
+            } else if invalid_query_mode {
+                ProtocolError::RejectQueryMode
+            } else {
+                ProtocolError::RejectAuth
+            });
         }
         // init header
         let static_header = CHandshakeStatic::new(
-- 
2.43.0


From ffc94b24c118386ae0c9a9ce6a6894c4ce6c4be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 12/57] fix: overflowing lengths in a handshake led to an out
 of bounds read before authentication

---
 server/src/engine/net/protocol/handshake.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/net/protocol/handshake.rs b/server/src/engine/net/protocol/handshake.rs
index 4ace9e2..b588a65 100644
--- a/server/src/engine/net/protocol/handshake.rs
+++ b/server/src/engine/net/protocol/handshake.rs
@@ -332,7 +332,11 @@ impl<'a> CHandshake<'a> {
         uname_l: usize,
         pwd_l: usize,
     ) -> HandshakeResult<'a> {
-        if scanner.has_left(uname_l + pwd_l) {
+        let payload_l = match uname_l.checked_add(pwd_l) {
+            Some(payload_l) => payload_l,
+            None => return HandshakeResult::Error(ProtocolError::CorruptedHSPacket),
+        };
+        if scanner.has_left(payload_l) {
             // we're done here
             return unsafe {
                 // UNSAFE(@ohsayan): we just checked buffered size
@@ -347,7 +351,7 @@ impl<'a> CHandshake<'a> {
                 uname_l,
                 pwd_l,
             },
-            expect: (uname_l + pwd_l),
+            expect: payload_l,
         }
     }
 }
@@ -399,7 +403,7 @@ impl<'a> CHandshake<'a> {
                 // newline missing (or maybe there's more?)
                 return HandshakeResult::ChangeState {
                     new_state: HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l },
-                    expect: uname_l + 2, // space for username + password len
+                    expect: uname_l.saturating_add(2), // space for username + password len
                 };
             }
             ScannerDecodeResult::Error => {
-- 
2.43.0


From 4e1f0c89a37d40fbec50e989078d29c1d7a34236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 13/57] fix: passwords that are empty or have a NUL panicked
 instead of being rejected

---
 server/src/engine/core/system_db.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/core/system_db.rs b/server/src/engine/core/system_db.rs
index 27e5321..7dacb4f 100644
--- a/server/src/engine/core/system_db.rs
+++ b/server/src/engine/core/system_db.rs
@@ -96,7 +96,8 @@ impl SystemDatabase {
                         }
                     }
                     Ok(false) => VerifyUser::IncorrectPassword,
-                    Err(_) => unreachable!(),
+                    // the password can't be hashed (for example, it has a NUL)
+                    Err(_) => VerifyUser::IncorrectPassword,
                 }
             })
             .unwrap_or(VerifyUser::NotFound)
@@ -128,6 +129,10 @@ impl SystemDatabase {
 }
 
 impl SystemDatabase {
+    fn hash_password(password: &str) -> QueryResult<Vec<u8>> {
+        // passwords that are empty or have a NUL can't be hashed
+        rcrypt::hash(password, rcrypt::DEFAULT_COST).map_err(|_| QueryError::SysAuthError)
+    }
     pub fn create_user(
         &self,
         global: &impl GlobalInstanceLike,
@@ -138,7 +143,7 @@ impl SystemDatabase {
         if users.contains_key(&username) {
             return Err(QueryError::SysAuthError);
         }
-        let password_hash = rcrypt::hash(password, rcrypt::DEFAULT_COST).unwrap();
+        let password_hash = Self::hash_password(password)?;
         global.state().gns_driver().driver_context(
             global,
             |drv| drv.commit_event(CreateUserTxn::new(&username, &password_hash)),
@@ -155,7 +160,7 @@ impl SystemDatabase {
     ) -> QueryResult<()> {
         match self.users.write().get_mut(username) {
             Some(user) => {
-                let password_hash = rcrypt::hash(password, rcrypt::DEFAULT_COST).unwrap();
+                let password_hash = Self::hash_password(password)?;
                 global.state().gns_driver().driver_context(
                     global,
                     |drv| drv.commit_event(AlterUserTxn::new(username, &password_hash)),
-- 
2.43.0


From 3ab2ac800085c4e22e79d5b18f5833469767773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 14/57] fix: query packets with inconsistent sizes panicked or
 stalled the connection

---
 server/src/engine/net/protocol/exchange.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 7522b97..4bfd29e 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -199,7 +199,10 @@ impl QExchangeState {
             Err(()) => return QExchangeResult::Error,
         };
         self.md_packet_size = packet_size;
-        self.target = scanner.cursor() + packet_size as usize;
+        self.target = match scanner.cursor().checked_add(packet_size as usize) {
+            Some(target) => target,
+            None => return QExchangeResult::Error,
+        };
         // hand over control to md2
         self.resume_at_md2(scanner)
     }
@@ -207,6 +210,10 @@ impl QExchangeState {
         let q_window = match super::scan_int(scanner, self.md_q_window) {
             Ok(AccumlatorStatus::Completed(v)) => v,
             Ok(AccumlatorStatus::Pending(p)) => {
+                if scanner.cursor() >= self.target {
+                    // the packet ended before the metadata did
+                    return QExchangeResult::Error;
+                }
                 self.md_q_window = p;
                 self.state = QExchangeStateInternal::PendingMeta2;
                 return QExchangeResult::ChangeState(self);
@@ -218,7 +225,11 @@ impl QExchangeState {
         self.resume_data(scanner)
     }
     fn resume_data<'a>(mut self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        let df_size = self.target - scanner.cursor();
+        let df_size = match self.target.checked_sub(scanner.cursor()) {
+            Some(df_size) if self.md_q_window <= df_size as u64 => df_size,
+            // the packet is too small for its metadata or for the query
+            _ => return QExchangeResult::Error,
+        };
         if scanner.remaining() == df_size {
             unsafe {
                 QExchangeResult::SQCompleted(SQuery::new(
-- 
2.43.0


From e24a78da014c1fe8dad9572efa4a7b9c15c67093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 15/57] fix: bytes sent right after a query or the handshake
 stalled the connection

---
 server/src/engine/net/protocol/exchange.rs |  3 +--
 server/src/engine/net/protocol/mod.rs      | 14 +++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 4bfd29e..a93dd13 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -33,7 +33,6 @@ impl Resume {
     pub(super) const fn test_new(v: usize) -> Self {
         Self(v)
     }
-    #[cfg(test)]
     pub(super) const fn inner(&self) -> usize {
         self.0
     }
@@ -230,7 +229,7 @@ impl QExchangeState {
             // the packet is too small for its metadata or for the query
             _ => return QExchangeResult::Error,
         };
-        if scanner.remaining() == df_size {
+        if scanner.has_left(df_size) {
             unsafe {
                 QExchangeResult::SQCompleted(SQuery::new(
                     scanner.next_chunk_variable(df_size),
diff --git a/server/src/engine/net/protocol/mod.rs b/server/src/engine/net/protocol/mod.rs
index c1745ea..5782e1a 100644
--- a/server/src/engine/net/protocol/mod.rs
+++ b/server/src/engine/net/protocol/mod.rs
@@ -162,23 +162,26 @@ pub(super) async fn query_loop<S: Socket>(
     con.flush().await?;
     let mut state = QExchangeState::default();
     let mut cursor = Default::default();
+    // the client might have already sent something along with the handshake
+    let mut needs_read = buf.is_empty();
     loop {
-        if con.read_buf(buf).await? == 0 {
+        if needs_read && con.read_buf(buf).await? == 0 {
             if buf.is_empty() {
                 return Ok(QueryLoopResult::Fin);
             } else {
                 return Ok(QueryLoopResult::Rst);
             }
         }
+        needs_read = true;
         if !state.has_reached_target(buf) {
             // we haven't buffered sufficient bytes; keep working
             continue;
         }
-        let sq = match unsafe {
+        let (sq, consumed) = match unsafe {
             // UNSAFE(@ohsayan): as the resume cursor is private, we can't access this anyways
             exchange::resume(buf, cursor, state)
         } {
-            (_, QExchangeResult::SQCompleted(sq)) => sq,
+            (end, QExchangeResult::SQCompleted(sq)) => (sq, end.inner()),
             (new_cursor, QExchangeResult::ChangeState(new_state)) => {
                 cursor = new_cursor;
                 state = new_state;
@@ -222,8 +225,9 @@ pub(super) async fn query_loop<S: Socket>(
             }
         }
         con.flush().await?;
-        // reset buffer, cursor and state
-        buf.clear();
+        // reset cursor and state, but keep anything that the client sent after this query
+        buf.advance(consumed);
+        needs_read = buf.is_empty();
         cursor = Default::default();
         state = QExchangeState::default();
     }
-- 
2.43.0


From 3d65158b0368ae4f73453d28f2b7213ee9027332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 16/57] fix: ALTER MODEL UPDATE moved the field to the end of
 the model

---
 server/src/engine/core/model/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 5adf0e5..b66456f 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -500,7 +500,14 @@ impl<'a> ModelMutator<'a> {
         }
     }
     pub fn update_field(&mut self, name: &str, field: Field) -> bool {
-        self.model.fields.st_update(name, field)
+        // NB: updating the entry in the index would move the field to the end of the model
+        match self.model.fields.st_get_mut(name) {
+            Some(current) => {
+                *current = field;
+                true
+            }
+            None => false,
+        }
     }
 }
 
-- 
2.43.0


From 098dcda6617ac09247537b14c3755005f444a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 17/57] fix: CREATE MODEL refused models that have a single
 column

---
 server/src/engine/ql/ddl/crt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/ql/ddl/crt.rs b/server/src/engine/ql/ddl/crt.rs
index 693cc8b..727b858 100644
--- a/server/src/engine/ql/ddl/crt.rs
+++ b/server/src/engine/ql/ddl/crt.rs
@@ -134,7 +134,8 @@ impl<'a> CreateModel<'a> {
         }
     }
     fn parse<Qd: QueryData<'a>>(state: &mut State<'a, Qd>) -> QueryResult<Self> {
-        if compiler::unlikely(state.remaining() < 10) {
+        // smallest declaration: `create model space.model(key: type)`
+        if compiler::unlikely(state.remaining() < 8) {
             return compiler::cold_rerr(QueryError::QLUnexpectedEndOfStatement);
         }
         // if not exists?
-- 
2.43.0


From 64fe37ca5a2ce4cc8f787cb2d63243e80939dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 18/57] fix: corrupted lengths in journals crashed the server
 on start instead of being refused

---
 server/src/engine/storage/v2/impls/mdl_journal.rs | 6 ++++++
 server/src/engine/storage/v2/raw/journal/mod.rs   | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 6c27ef4..7bb19ee 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -655,6 +655,9 @@ mod restore_impls {
             }
             TagUnique::Str | TagUnique::Bin => {
                 let len = u64::from_le_bytes(f.read_block()?);
+                if f.remaining() < len {
+                    return Err(StorageError::DataBatchRestoreCorruptedEntry.into());
+                }
                 let mut data = vec![0; len as usize];
                 f.read(&mut data)?;
                 if pk_type == TagUnique::Str {
@@ -727,6 +730,9 @@ mod restore_impls {
             self.read_next_block().map(u64::from_le_bytes)
         }
         unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
+            if !self.has_remaining(size) {
+                return Err(().into());
+            }
             let mut buf = vec![0; size];
             self.read(&mut buf)?;
             Ok(buf)
diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 230849d..9d15ffb 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -130,6 +130,10 @@ impl<EL: EventLogSpec> RawJournalAdapter for EventLogAdapter<EL> {
     ) -> RuntimeResult<()> {
         let expected_checksum = u64::from_le_bytes(file.read_block()?);
         let plen = u64::from_le_bytes(file.read_block()?);
+        if !file.has_left(plen) {
+            // the length is only verified along with the payload, so don't trust it
+            return Err(StorageError::RawJournalCorrupted.into());
+        }
         let mut pl = vec![0; plen as usize];
         file.tracked_read(&mut pl)?;
         let mut this_checksum = SCrc64::new();
-- 
2.43.0


From 7bcb1754ad47b91e57a0737a2bf96ed90526a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 19/57] fix: data batches were applied before their checksum
 was verified

---
 .../src/engine/storage/v2/raw/journal/mod.rs  | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 9d15ffb..f7eb2d0 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -266,7 +266,7 @@ impl<BA: BatchAdapterSpec> RawJournalAdapter for BatchAdapter<BA> {
         f: &mut TrackedReader<Self::Spec>,
     ) -> RuntimeResult<()> {
         let mut f = f.context();
-        {
+        let (batch_state, batch_md) = {
             // get metadata
             // read batch size
             let _stored_expected_commit_size = u64::from_le_bytes(f.read_block()?);
@@ -299,20 +299,18 @@ impl<BA: BatchAdapterSpec> RawJournalAdapter for BatchAdapter<BA> {
             }
             // read actual commit size
             let _stored_actual_commit_size = u64::from_le_bytes(f.read_block()?);
-            if _stored_actual_commit_size == real_commit_size {
-                // finish applying batch
-                BA::finish(batch_state, batch_md, gs)?;
-            } else {
+            if _stored_actual_commit_size != real_commit_size {
                 return Err(StorageError::RawJournalCorrupted.into());
             }
-        }
-        // and finally, verify checksum
+            (batch_state, batch_md)
+        };
+        // now verify checksum
         let (real_checksum, file) = f.finish();
         let stored_checksum = u64::from_le_bytes(file.read_block()?);
-        if real_checksum == stored_checksum {
-            Ok(())
-        } else {
-            Err(StorageError::RawJournalCorrupted.into())
+        if real_checksum != stored_checksum {
+            return Err(StorageError::RawJournalCorrupted.into());
         }
+        // the batch is intact, so finish applying it
+        BA::finish(batch_state, batch_md, gs)
     }
 }
-- 
2.43.0


From 3ccd71ce770031954382c961ec2c55554d3bcbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 20/57] fix: a start refused because of one damaged file left
 the other journals unclosed, so no later start was possible

---
 server/src/engine/storage/v2/mod.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/storage/v2/mod.rs b/server/src/engine/storage/v2/mod.rs
index 8d3bae3..b5fa4cf 100644
--- a/server/src/engine/storage/v2/mod.rs
+++ b/server/src/engine/storage/v2/mod.rs
@@ -121,6 +121,30 @@ pub fn restore(cfg: &Configuration) -> RuntimeResult<SELoaded> {
     let gns = GNSData::empty();
     context::set_dmsg("loading gns");
     let mut gns_driver = impls::gns_log::GNSDriver::open_gns(&gns)?;
+    if let Err(e) = restore_models_and_users(cfg, &gns, &mut gns_driver) {
+        // we can't start, so leave behind the journals that we did open as cleanly closed journals
+        for (id, model) in gns.idx_models().read().iter() {
+            if let Some(driver) = model.driver().batch_driver().lock().as_mut() {
+                if let Err(e) = ModelDriver::close_driver(driver) {
+                    error!("failed to close model {}.{}: {e}", id.space(), id.entity());
+                }
+            }
+        }
+        if let Err(e) = impls::gns_log::GNSDriver::close_driver(&mut gns_driver) {
+            error!("failed to close gns: {e}");
+        }
+        return Err(e);
+    }
+    Ok(SELoaded {
+        gns: GlobalNS::new(gns, FractalGNSDriver::new(gns_driver)),
+    })
+}
+
+fn restore_models_and_users(
+    cfg: &Configuration,
+    gns: &GNSData,
+    gns_driver: &mut impls::gns_log::GNSDriver,
+) -> RuntimeResult<()> {
     for (id, model) in gns.idx_models().write().iter_mut() {
         let model_data = model.data();
         let space_uuid = gns.idx().read().get(id.space()).unwrap().get_uuid();
@@ -149,7 +173,5 @@ pub fn restore(cfg: &Configuration) -> RuntimeResult<SELoaded> {
         gns.sys_db()
             .__raw_alter_user(SystemDatabase::ROOT_ACCOUNT, phash.into_boxed_slice());
     }
-    Ok(SELoaded {
-        gns: GlobalNS::new(gns, FractalGNSDriver::new(gns_driver)),
-    })
+    Ok(())
 }
-- 
2.43.0


From 57e2b65452f17dae2119a873611f6b16a4abb916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 21/57] fix: rows were restored into the wrong columns when the
 catalogue was older than the rows

---
 server/src/engine/storage/v2/impls/mdl_journal.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 7bb19ee..5df87fb 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -513,8 +513,11 @@ impl BatchAdapterSpec for ModelDataAdapter {
         let m = gs;
         let mut real_last_txn_id = DeltaVersion::genesis();
         // rows were encoded with the columns that the model had when this batch was written
-        let schema_version = DeltaVersion::__new(batch_md.schema_version)
-            .min(m.delta_state().schema_current_version());
+        let schema_version = DeltaVersion::__new(batch_md.schema_version);
+        if schema_version > m.delta_state().schema_current_version() {
+            // the batch was written with a declaration that we don't have, so we can't tell its columns
+            return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+        }
         let columns = m.delta_state().columns_at_version(
             schema_version,
             m.fields()
@@ -525,6 +528,9 @@ impl BatchAdapterSpec for ModelDataAdapter {
                     key.clone()
                 }),
         );
+        if columns.len() as u64 != batch_md.column_count {
+            return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+        }
         for DecodedBatchEvent { txn_id, pk, kind } in batch_state.events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
-- 
2.43.0


From 8363d159d7c602fb67cf9ca074933795af86dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 22/57] fix: handshakes with a malformed password length
 stalled until the username had been received

---
 server/src/engine/net/protocol/handshake.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/net/protocol/handshake.rs b/server/src/engine/net/protocol/handshake.rs
index b588a65..0fcaef1 100644
--- a/server/src/engine/net/protocol/handshake.rs
+++ b/server/src/engine/net/protocol/handshake.rs
@@ -403,7 +403,7 @@ impl<'a> CHandshake<'a> {
                 // newline missing (or maybe there's more?)
                 return HandshakeResult::ChangeState {
                     new_state: HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l },
-                    expect: uname_l.saturating_add(2), // space for username + password len
+                    expect: 2, // password len; it must be valid before we wait for the username
                 };
             }
             ScannerDecodeResult::Error => {
-- 
2.43.0


From 87cffc18558711ff7ee7007604ddc136e1683497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:18 +0000
Subject: [PATCH 23/57] fix: one client that stalled in the TLS handshake
 blocked all other connections to the TLS endpoint

---
 server/src/engine/net/mod.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/server/src/engine/net/mod.rs b/server/src/engine/net/mod.rs
index 4467fd8..f883161 100644
--- a/server/src/engine/net/mod.rs
+++ b/server/src/engine/net/mod.rs
@@ -264,11 +264,9 @@ impl Listener {
             let stream = async {
                 let (stream, _) = self.accept().await?;
                 let ssl = Ssl::new(acceptor.context())?;
-                let mut stream = SslStream::new(ssl, stream)?;
-                Pin::new(&mut stream).accept().await?;
-                RuntimeResult::Ok(stream)
+                RuntimeResult::Ok(SslStream::new(ssl, stream)?)
             };
-            let stream = match stream.await {
+            let mut stream = match stream.await {
                 Ok(s) => s,
                 Err(e) => {
                     /*
@@ -278,13 +276,23 @@ impl Listener {
                     continue;
                 }
             };
-            let mut handler = ConnectionHandler::new(
-                stream,
-                self.global.clone(),
-                self.sig_shutdown.subscribe(),
-                self.sig_inflight.clone(),
-            );
+            let global = self.global.clone();
+            let mut sig_terminate = self.sig_shutdown.subscribe();
+            let sig_inflight = self.sig_inflight.clone();
             tokio::spawn(async move {
+                // the TLS handshake depends on the client, so it must not hold up other connections (or a shutdown)
+                let handshake = Pin::new(&mut stream).accept();
+                tokio::select! {
+                    ret = handshake => {
+                        if let Err(e) = ret {
+                            warn!("failed to accept connection on TLS socket: `{e}`");
+                            return;
+                        }
+                    }
+                    _ = sig_terminate.recv() => return,
+                }
+                let mut handler =
+                    ConnectionHandler::new(stream, global, sig_terminate, sig_inflight);
                 if let Err(e) = handler.run().await {
                     warn!("error handling client TLS connection: `{e}`");
                 }
-- 
2.43.0


From 1bbd818c544f58329e8340c416d3300fe556a702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:14 +0000
Subject: [PATCH 24/57] fix: write only the remaining bytes after a short write

fwrite_all_count passed the whole buffer again after a short write, so that the
file got the beginning twice and lost bytes at the end
---
 server/src/engine/storage/common/interface/fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/storage/common/interface/fs.rs b/server/src/engine/storage/common/interface/fs.rs
index 5855182..629191c 100644
--- a/server/src/engine/storage/common/interface/fs.rs
+++ b/server/src/engine/storage/common/interface/fs.rs
@@ -156,7 +156,7 @@ pub trait FileWrite {
         let len = buf.len() as u64;
         let mut written = 0;
         while written != len {
-            match self.fwrite(buf) {
+            match self.fwrite(&buf[written as usize..]) {
                 Ok(0) => {
                     return (
                         written,
-- 
2.43.0


From 463f2f19395644742a820a0359cb582b8a788f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:44 +0000
Subject: [PATCH 25/57] fix: lock spaces before models in ALTER MODEL

ALTER MODEL locked the models and then the spaces while CREATE and DROP do the
opposite, so that the two could deadlock and block the whole server
---
 server/src/engine/core/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/mod.rs b/server/src/engine/core/mod.rs
index 40bc540..b223de3 100644
--- a/server/src/engine/core/mod.rs
+++ b/server/src/engine/core/mod.rs
@@ -132,11 +132,12 @@ impl GNSData {
     where
         F: FnOnce(&Space, &mut ModelData) -> QueryResult<T>,
     {
+        // NB: always lock the spaces before the models
+        let space_read = self.idx.read();
         let mut mdl_idx = self.idx_mdl.write();
         let Some(model) = mdl_idx.get_mut(&entity) else {
             return Err(QueryError::QExecObjectNotFound);
         };
-        let space_read = self.idx.read();
         let space = space_read.get(entity.space()).unwrap();
         f(space, model.data_mut())
     }
-- 
2.43.0


From a20cff284c42dedbcdd64a2bb674a18a1170410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 26/57] fix: order versions of concurrent changes as they were
 applied

INSERT and DELETE took their version before they changed the index and UPDATE
could change a row that had just been deleted, so that the changes of a row were
restored in another order than they were applied: deleted rows came back, rows
were lost or the start panicked. Also a batch could move the version counter back.
---
 server/src/engine/core/dml/del.rs             | 20 ++++++++++++-------
 server/src/engine/core/dml/ins.rs             | 19 +++++++++++++-----
 server/src/engine/core/dml/upd.rs             |  4 ++++
 server/src/engine/core/index/row.rs           | 11 ++++++++++
 server/src/engine/core/model/delta.rs         |  8 +++++---
 .../engine/storage/v2/impls/mdl_journal.rs    |  2 +-
 6 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/server/src/engine/core/dml/del.rs b/server/src/engine/core/dml/del.rs
index b40d7e6..3530079 100644
--- a/server/src/engine/core/dml/del.rs
+++ b/server/src/engine/core/dml/del.rs
@@ -46,14 +46,20 @@ pub fn delete(global: &impl GlobalInstanceLike, mut delete: DeleteStatement) ->
         let g = sync::atm::cpin();
         let delta_state = model.delta_state();
         let _idx_latch = model.primary_index().acquire_cd();
-        // create new version
-        let new_version = delta_state.create_new_data_delta_version();
-        match model
-            .primary_index()
-            .__raw_index()
-            .mt_delete_return_entry(&model.resolve_where(delete.clauses_mut())?, &g)
-        {
+        let key = model.resolve_where(delete.clauses_mut())?;
+        let index = model.primary_index().__raw_index();
+        match index.mt_get_element(&key, &g) {
             Some(row) => {
+                // lock the row so that no older change of it can be published after this one
+                let mut row_data_wl = row.d_data().write();
+                if row_data_wl.is_deleted() {
+                    // someone else was faster
+                    return Err(QueryError::QExecDmlRowNotFound);
+                }
+                // create new version (before a new row with the same key can appear)
+                let new_version = delta_state.create_new_data_delta_version();
+                let _ = index.mt_delete(&key, &g);
+                row_data_wl.set_deleted(new_version);
                 let dp = delta_state.append_new_data_delta_with(
                     DataDeltaKind::Delete,
                     row.clone(),
diff --git a/server/src/engine/core/dml/ins.rs b/server/src/engine/core/dml/ins.rs
index 307f81e..0e30fe7 100644
--- a/server/src/engine/core/dml/ins.rs
+++ b/server/src/engine/core/dml/ins.rs
@@ -29,7 +29,7 @@ use crate::engine::{
         self,
         dml::QueryExecMeta,
         index::{DcFieldIndex, PrimaryIndexKey, Row},
-        model::{delta::DataDeltaKind, ModelData},
+        model::{delta::DataDeltaKind, DeltaVersion, ModelData},
     },
     error::{QueryError, QueryResult},
     fractal::GlobalInstanceLike,
@@ -52,12 +52,21 @@ pub fn insert(global: &impl GlobalInstanceLike, insert: InsertStatement) -> Quer
         let _idx_latch = mdl.primary_index().acquire_cd();
         let g = cpin();
         let ds = mdl.delta_state();
-        // create new version
-        let new_version = ds.create_new_data_delta_version();
-        let row = Row::new(pk, data, ds.schema_current_version(), new_version);
+        let row = Row::new(
+            pk,
+            data,
+            ds.schema_current_version(),
+            DeltaVersion::genesis(),
+        );
+        // lock the row until its version is known, so that any later change of the row gets a newer version
+        let mut row_data_wl = row.d_data().write();
         if mdl.primary_index().__raw_index().mt_insert(row.clone(), &g) {
+            // create new version (older versions of rows with the same key can no longer appear)
+            let new_version = ds.create_new_data_delta_version();
+            row_data_wl.set_txn_revised(new_version);
             // append delta for new version
-            let dp = ds.append_new_data_delta_with(DataDeltaKind::Insert, row, new_version, &g);
+            let dp =
+                ds.append_new_data_delta_with(DataDeltaKind::Insert, row.clone(), new_version, &g);
             Ok(QueryExecMeta::new(dp))
         } else {
             Err(QueryError::QExecDmlDuplicate)
diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index 62f80a6..7a64d10 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -273,6 +273,10 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         };
         // lock row
         let mut row_data_wl = row.d_data().write();
+        if row_data_wl.is_deleted() {
+            // the row was deleted before we could lock it
+            return Err(QueryError::QExecDmlRowNotFound);
+        }
         let ds = mdl.delta_state();
         // the schema might have changed since this row was last revised
         row_data_wl.resolve_schema_deltas(ds);
diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index 061374a..cb52e04 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -53,6 +53,7 @@ pub struct RowData {
     fields: DcFieldIndex,
     txn_revised_data: DeltaVersion,
     txn_revised_schema_version: DeltaVersion,
+    deleted: bool,
 }
 
 impl RowData {
@@ -68,6 +69,15 @@ impl RowData {
     pub fn get_txn_revised(&self) -> DeltaVersion {
         self.txn_revised_data
     }
+    /// Returns true if this row was removed from the index
+    pub fn is_deleted(&self) -> bool {
+        self.deleted
+    }
+    /// Mark this row as removed from the index by the given version
+    pub fn set_deleted(&mut self, version: DeltaVersion) {
+        self.deleted = true;
+        self.txn_revised_data = version;
+    }
     /// Apply all schema deltas that were published after this row was last revised, bringing this row up to the current schema
     pub fn resolve_schema_deltas(&mut self, delta_state: &DeltaState) {
         for (_, delta) in delta_state.resolve_iter_since(self.txn_revised_schema_version) {
@@ -139,6 +149,7 @@ impl Row {
                     fields: data,
                     txn_revised_schema_version: schema_version,
                     txn_revised_data,
+                    deleted: false,
                 }))
             },
         }
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 6f5f005..3a28706 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -62,9 +62,11 @@ impl DeltaState {
             data_deltas_size: AtomicUsize::new(0),
         }
     }
-    pub fn __set_delta_version(&self, version: DeltaVersion) {
-        self.data_current_version
-            .store(version.value_u64(), Ordering::Relaxed)
+    /// Ensure that new versions are not older than the given version
+    pub fn __advance_delta_version(&self, version: DeltaVersion) {
+        let _ = self
+            .data_current_version
+            .fetch_max(version.value_u64(), Ordering::Relaxed);
     }
 }
 
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 5df87fb..067f852 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -617,7 +617,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
         }
         // +1 since it is a fetch add!
         m.delta_state()
-            .__set_delta_version(DeltaVersion::__new(real_last_txn_id.value_u64() + 1));
+            .__advance_delta_version(DeltaVersion::__new(real_last_txn_id.value_u64() + 1));
         Ok(())
     }
 }
-- 
2.43.0


From 16c5f5d010d04ef800cb9920c29abf90840df93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:57 +0000
Subject: [PATCH 27/57] fix: wait for a running DDL statement when its
 connection is terminated

The blocking task kept using the query and the parser state after they had been
freed when the server was shut down during a DDL statement
---
 server/src/engine/core/exec.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/server/src/engine/core/exec.rs b/server/src/engine/core/exec.rs
index 557894b..320c05b 100644
--- a/server/src/engine/core/exec.rs
+++ b/server/src/engine/core/exec.rs
@@ -101,6 +101,15 @@ fn translate_ddl_result(x: Option<bool>) -> Response {
     }
 }
 
+/// Blocks until the sender is dropped
+struct WaitOnDrop(std::sync::mpsc::Receiver<()>);
+
+impl Drop for WaitOnDrop {
+    fn drop(&mut self) {
+        let _ = self.0.recv();
+    }
+}
+
 async fn run_blocking_stmt(
     global: &Global,
     cstate: &mut ClientLocalState,
@@ -178,7 +187,11 @@ async fn run_blocking_stmt(
         let static_cstate: &'static ClientLocalState = core::mem::transmute(cstate);
         let static_state: &'static mut State<'static, InplaceData> =
             core::mem::transmute(&mut state);
+        // if we're cancelled while waiting (on shutdown), the task must be done before the state that it uses is dropped
+        let (task_alive, task_done) = std::sync::mpsc::channel::<()>();
+        let _wait = WaitOnDrop(task_done);
         tokio::task::spawn_blocking(move || {
+            let _task_alive = task_alive;
             BLK_EXEC[fc as usize](c_glob, static_cstate, static_state)
         })
         .await
-- 
2.43.0


From 877b61871d1b5db49d4c11682453e086773b823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 28/57] fix: stop the background services after the last
 connection

The final flush ran concurrently with the queries that were still in progress, so
that rows acknowledged during a shutdown could be lost
---
 server/src/engine/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/mod.rs b/server/src/engine/mod.rs
index 101ee06..7378870 100644
--- a/server/src/engine/mod.rs
+++ b/server/src/engine/mod.rs
@@ -122,9 +122,11 @@ pub async fn start(
 ) -> RuntimeResult<()> {
     // create our system-wide channel
     let (signal, _) = broadcast::channel::<()>(1);
+    // the services must outlive all connections, since they have to write what the last queries changed
+    let (signal_services, _) = broadcast::channel::<()>(1);
     // start our services
     context::set_dmsg("starting fractal engine");
-    let fractal_handle = boot.boot(&signal, system.reliability_system_window);
+    let fractal_handle = boot.boot(&signal_services, system.reliability_system_window);
     // create our server
     context::set(Subsystem::Network, "initializing endpoints");
     let str;
@@ -179,6 +181,7 @@ pub async fn start(
     }
     drop(signal);
     endpoint_handles.finish().await;
+    drop(signal_services);
     info!("waiting for fractal engine to exit ...");
     let (hp_handle, lp_handle) = tokio::join!(fractal_handle.hp_handle, fractal_handle.lp_handle);
     match (hp_handle, lp_handle) {
-- 
2.43.0


From ec0bc718fbab07710e519839210894122e17e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:30 +0000
Subject: [PATCH 29/57] fix: a sign without digits was accepted as the integer
 0

---
 server/src/engine/mem/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/mem/scanner.rs b/server/src/engine/mem/scanner.rs
index 2f2a2f0..48a0a11 100644
--- a/server/src/engine/mem/scanner.rs
+++ b/server/src/engine/mem/scanner.rs
@@ -362,7 +362,8 @@ impl<'a> Scanner<'a, u8> {
             // UNSAFE(@ohsayan): not eof
             self.incr_cursor_if(direction_negative)
         }
-        let mut okay = direction_negative | current.is_ascii_digit() & !self.eof();
+        // a sign alone is not a number
+        let mut okay = self.rounded_cursor_not_eof_matches(|b| b.is_ascii_digit());
         while self.rounded_cursor_not_eof_matches(|b| !stop_if(*b)) & okay {
             let byte = unsafe {
                 // UNSAFE(@ohsayan): loop invariant
-- 
2.43.0


From a48ad67a00b0cb2dacfa6896b7f6d52dbccdc4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 30/57] fix: synchronise the header of a new database file

A file that the namespace log refers to could have lost its header after a crash.
---
 server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index 11e4410..aad05e8 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -78,6 +78,8 @@ impl<S: FileSpecV1> SdssFile<S> {
     {
         let mut f = File::create(path)?;
         let md = S::write_metadata(&mut f, ())?;
+        // nothing that relies on this file may outlive its header
+        f.fsync_all()?;
         Ok(Self::new(f, md))
     }
     pub fn into_buffered_reader(self) -> IoResult<SdssFile<S, BufferedReader>> {
-- 
2.43.0


From ac3b06a4b9c3563324fb8f33c78f3c1e64bf8cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 31/57] fix: account only for written bytes in the checksum
 after a write error

---
 server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index aad05e8..4d21dd3 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -463,6 +463,7 @@ impl<
     /// will be updated in the checksum. If disabled, then the checksum is unchanged.
     pub fn tracked_write(&mut self, buf: &[u8]) -> IoResult<()> {
         let cursor_start = self.cursor_usize();
+        let buffered = self.buf.len();
         match self.untracked_write(buf) {
             Ok(()) => {
                 self.t_checksum.update(buf);
@@ -470,8 +471,10 @@ impl<
             }
             Err(e) => {
                 if CHECKSUM_WRITTEN_IF_BLOCK_ERROR {
-                    let cursor_now = self.cursor_usize();
-                    self.t_checksum.update(&buf[..cursor_now - cursor_start]);
+                    // NB: what was buffered before (and is already a part of the checksum) is written first
+                    let written = self.cursor_usize() - cursor_start;
+                    self.t_checksum
+                        .update(&buf[..written.saturating_sub(buffered)]);
                 }
                 Err(e)
             }
-- 
2.43.0


From 8a17f38e6972142927849c64e7ef1238306a3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 32/57] fix: roll the journal back after a failed transaction

Otherwise the next event is appended to a partially written one and the journal is lost.
The close and reopen events are synchronised, and failing to write them is handled.
---
 .../storage/common/sdss/impls/sdss_r1/rw.rs   | 15 +++++
 .../engine/storage/v2/raw/journal/raw/mod.rs  | 57 ++++++++++++++-----
 2 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index 4d21dd3..8a01233 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -348,6 +348,18 @@ impl<
     pub fn __zero_buffer(&mut self) {
         self.buf.clear()
     }
+    /// Discard everything that was written after the given point, on disk or only in the buffer
+    ///
+    /// NB: the buffer is always cleared
+    pub fn rollback(&mut self, cursor: u64, checksum: SCrc64) -> IoResult<()> {
+        self.buf.clear();
+        self.f_d.f_truncate(cursor)?;
+        self.f_d.f_seek_start(cursor)?;
+        self.t_cursor = cursor;
+        self.t_checksum = checksum;
+        self.t_partial_checksum = SCrc64::new();
+        Ok(())
+    }
 }
 
 impl<
@@ -413,6 +425,9 @@ impl<
     pub fn current_checksum(&self) -> u64 {
         self.t_checksum.clone().finish()
     }
+    pub fn checksum(&self) -> SCrc64 {
+        self.t_checksum.clone()
+    }
 }
 
 impl<
diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 6a53516..05e9c2c 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -475,6 +475,14 @@ pub struct RawJournalWriter<J: RawJournalAdapter> {
     txn_id: u64,
     known_txn_id: u64,
     known_txn_offset: u64, // if offset is 0, txn id is unset
+    failed_txn: Option<FailedTxn>,
+}
+
+/// The state of the journal right before a transaction that failed
+struct FailedTxn {
+    txn_id: u64,
+    cursor: u64,
+    checksum: SCrc64,
 }
 
 impl<J: RawJournalAdapter + fmt::Debug> fmt::Debug for RawJournalWriter<J>
@@ -503,13 +511,18 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
             known_txn_offset: j_.last_offset(),
             txn_id: j_.txn_id(),
             j: J::initialize(&j_),
+            failed_txn: None,
         };
         if j_.is_new() {
             jtrace_writer!(Initialized);
         } else {
             // not a new instance, so we must update the journal with a re-open event
             jtrace_writer!(ReinitializeAttempt);
-            Self::reopen_driver(&mut me)?;
+            if let Err(e) = Self::reopen_driver(&mut me) {
+                // leave behind the cleanly closed journal that we found
+                let _ = me.rollback_failed_txn();
+                return Err(e);
+            }
             jtrace_writer!(ReinitializeComplete);
         }
         Ok(me)
@@ -566,18 +579,11 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
     {
         self.commit_with_ctx(event, Default::default())
     }
-    /// WARNING: ONLY CALL AFTER A FAILURE EVENT. THIS WILL EMPTY THE UNFLUSHED BUFFER
+    /// Attempt to recover from a failed transaction
+    ///
+    /// WARNING: ONLY CALL AFTER A FAILURE EVENT. THIS WILL DISCARD WHATEVER THE FAILED TRANSACTION WROTE
     pub fn __lwt_heartbeat(&mut self) -> RuntimeResult<()> {
-        // verify that the on disk cursor is the same as what we know
-        self.log_file.verify_cursor()?;
-        if self.log_file.cursor() == self.known_txn_offset {
-            // great, so if there was something in the buffer, simply ignore it
-            self.log_file.__zero_buffer();
-            Ok(())
-        } else {
-            // so, the on-disk file probably has some partial state. this is bad. throw an error
-            Err(StorageError::RawJournalRuntimeCriticalLwtHBFail.into())
-        }
+        self.rollback_failed_txn()
     }
 }
 
@@ -586,15 +592,35 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
         &mut self,
         f: impl FnOnce(&mut Self, u128) -> RuntimeResult<T>,
     ) -> RuntimeResult<T> {
+        // never append to a partially written transaction
+        self.rollback_failed_txn()?;
         let id = self.txn_id;
+        let (cursor, checksum) = (self.log_file.cursor(), self.log_file.checksum());
         self.txn_id += 1;
         let ret = f(self, id as u128);
         if ret.is_ok() {
             self.known_txn_id = id;
             self.known_txn_offset = self.log_file.cursor();
+        } else {
+            self.log_file.__zero_buffer();
+            self.failed_txn = Some(FailedTxn {
+                txn_id: id,
+                cursor,
+                checksum,
+            });
         }
         ret
     }
+    /// If the last transaction failed, restore the state that the journal (and its file) had before it
+    fn rollback_failed_txn(&mut self) -> RuntimeResult<()> {
+        if let Some(failed) = &self.failed_txn {
+            self.log_file
+                .rollback(failed.cursor, failed.checksum.clone())?;
+            self.txn_id = failed.txn_id;
+            self.failed_txn = None;
+        }
+        Ok(())
+    }
     /// Commit a new driver event
     fn _commit_driver_event(me: &mut Self, kind: DriverEventKind) -> RuntimeResult<()> {
         jtrace_writer!(DriverEventAttemptCommit {
@@ -616,13 +642,18 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
                 me.log_file.flush_sync()?;
             }
             me.log_file.tracked_write_through_buffer(&block)?;
+            me.log_file.fsync()?;
             jtrace_writer!(DriverEventCompleted);
             Ok(())
         })
     }
     /// Close driver
+    ///
+    /// NB: a journal that wasn't closed can't be opened again, so don't give up because of one failure
     pub fn close_driver(me: &mut Self) -> RuntimeResult<()> {
-        Self::_commit_driver_event(me, DriverEventKind::Closed)?;
+        if Self::_commit_driver_event(me, DriverEventKind::Closed).is_err() {
+            Self::_commit_driver_event(me, DriverEventKind::Closed)?;
+        }
         jtrace_writer!(DriverClosed);
         Ok(())
     }
-- 
2.43.0


From 7d437bbdb1cba46eb24325f36a28d9ab36ea1236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 33/57] fix: keep unsynced rows after a failed batch and retry

Deltas were lost once dequeued. Retrying could fail during the shutdown, and a
failure to close one file prevented all others from being closed.
---
 server/src/engine/core/model/delta.rs         |  12 ++
 server/src/engine/fractal/mgr.rs              | 179 +++++++++++-------
 server/src/engine/fractal/mod.rs              |  44 +++--
 .../engine/storage/v2/impls/mdl_journal.rs    |  30 ++-
 4 files changed, 172 insertions(+), 93 deletions(-)

diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 3a28706..6e32e61 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -98,6 +98,14 @@ impl DeltaState {
         self.data_deltas.blocking_enqueue(delta, g);
         self.data_deltas_size.fetch_add(1, Ordering::Release) + 1
     }
+    /// Return deltas that couldn't be persisted to the queue
+    ///
+    /// NB: this doesn't affect the tracked queue size, since whoever observed the size will try again
+    pub fn requeue_data_deltas(&self, deltas: Vec<DataDelta>, g: &Guard) {
+        for delta in deltas {
+            self.data_deltas.blocking_enqueue(delta, g);
+        }
+    }
     pub fn create_new_data_delta_version(&self) -> DeltaVersion {
         DeltaVersion(self.__data_delta_step())
     }
@@ -171,6 +179,10 @@ impl DeltaState {
     pub fn __fractal_take_full_from_data_delta(&self, _token: FractalToken) -> usize {
         self.data_deltas_size.swap(0, Ordering::AcqRel)
     }
+    /// Return an observed size that was taken but will not be persisted for now
+    pub fn __fractal_return_to_data_delta(&self, _token: FractalToken, observed: usize) {
+        let _ = self.data_deltas_size.fetch_add(observed, Ordering::AcqRel);
+    }
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 71fb33c..84bbfd1 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -39,6 +39,7 @@ use {
                 safe_interfaces::{paths_v1, StdModelBatch},
                 BatchStats,
             },
+            sync::atm::cpin,
         },
         util::os,
     },
@@ -268,13 +269,18 @@ impl FractalMgr {
         mut receiver: UnboundedReceiver<Task<CriticalTask>>,
         mut sigterm: broadcast::Receiver<()>,
     ) {
-        loop {
+        let mut terminating = false;
+        while !terminating {
             let task = tokio::select! {
                 task = receiver.recv() => {
                     match task {
                         Some(t) => {
-                            t.sleep().await;
-                            t
+                            // don't let a failing task delay termination
+                            tokio::select! {
+                                _ = t.sleep() => {}
+                                _ = sigterm.recv() => terminating = true,
+                            }
+                            Some(t)
                         },
                         None => {
                             info!("fhp: exiting executor service because all tasks closed");
@@ -283,36 +289,69 @@ impl FractalMgr {
                     }
                 }
                 _ = sigterm.recv() => {
-                    info!("fhp: finishing pending tasks");
-                    while let Ok(task) = receiver.try_recv() {
-                        let global = global.clone();
-                        tokio::task::spawn_blocking(move || self.hp_executor(global, task)).await.unwrap()
-                    }
-                    info!("fhp: exited executor service");
-                    break;
+                    terminating = true;
+                    None
                 }
             };
+            if let Some(task) = task {
+                let global = global.clone();
+                tokio::task::spawn_blocking(move || self.hp_executor(global, task))
+                    .await
+                    .unwrap()
+            }
+        }
+        info!("fhp: finishing pending tasks");
+        while let Ok(task) = receiver.try_recv() {
             let global = global.clone();
-            tokio::task::spawn_blocking(move || self.hp_executor(global, task))
-                .await
-                .unwrap()
+            if task.threshold == 0 {
+                // this task has failed too often; whatever it leaves behind is retried one last time on unload
+                Self::abandon_task(&global, task.task);
+            } else {
+                tokio::task::spawn_blocking(move || self.hp_executor(global, task))
+                    .await
+                    .unwrap()
+            }
+        }
+        // nobody will look at what is posted from now on
+        receiver.close();
+        while let Ok(task) = receiver.try_recv() {
+            Self::abandon_task(&global, task.task);
         }
+        info!("fhp: exited executor service");
     }
-    #[cold]
-    #[inline(never)]
-    fn re_enqueue_model_sync(
-        &self,
-        model_id: ModelUniqueID,
-        observed_size: usize,
-        stats: BatchStats,
-        threshold: usize,
-    ) {
-        self.hp_dispatcher
-            .send(Task::with_threshold(
-                CriticalTask::WriteBatch(model_id, observed_size - stats.get_actual()),
-                threshold,
-            ))
-            .unwrap()
+    /// Enqueue a task again. This is a no-op if the executor has already exited
+    fn retry_high_priority(&self, global: &super::Global, task: CriticalTask, threshold: usize) {
+        if let Err(e) = self
+            .hp_dispatcher
+            .send(Task::with_threshold(task, threshold))
+        {
+            Self::abandon_task(global, e.0.task)
+        }
+    }
+    /// Give up on a task
+    fn abandon_task(global: &super::Global, task: CriticalTask) {
+        match task {
+            CriticalTask::WriteBatch(model_id, observed_size) => {
+                error!("fhp: giving up on syncing data for {model_id}");
+                match global
+                    .state()
+                    .namespace()
+                    .idx_models()
+                    .read()
+                    .get(&EntityIDRef::new(model_id.space(), model_id.model()))
+                {
+                    Some(mdl) if mdl.data().get_uuid() == model_id.uuid() => mdl
+                        .data()
+                        .delta_state()
+                        .__fractal_return_to_data_delta(super::FractalToken::new(), observed_size),
+                    Some(_) | None => {}
+                }
+            }
+            CriticalTask::TryModelAutorecoverLWT(model_id) => {
+                error!("fhp: giving up on recovering {model_id}")
+            }
+            CriticalTask::CheckGNSDriver => error!("fhp: giving up on recovering GNS driver"),
+        }
     }
     fn hp_executor(
         &'static self,
@@ -337,9 +376,11 @@ impl FractalMgr {
                     }
                     Err(e) => {
                         error!("failed to autorecover GNS driver with error `{e}`. will try again");
-                        self.hp_dispatcher
-                            .send(Task::new(CriticalTask::CheckGNSDriver))
-                            .unwrap();
+                        self.retry_high_priority(
+                            &global,
+                            CriticalTask::CheckGNSDriver,
+                            Self::adjust_threshold(threshold),
+                        );
                     }
                 }
             }
@@ -363,9 +404,11 @@ impl FractalMgr {
                             }
                             Err(e) => {
                                 error!("failed to autorecover {mdl_id} with {e}. will try again");
-                                self.hp_dispatcher
-                                    .send(Task::new(CriticalTask::TryModelAutorecoverLWT(mdl_id)))
-                                    .unwrap()
+                                self.retry_high_priority(
+                                    &global,
+                                    CriticalTask::TryModelAutorecoverLWT(mdl_id),
+                                    Self::adjust_threshold(threshold),
+                                )
                             }
                         }
                     }
@@ -386,6 +429,7 @@ impl FractalMgr {
                     }
                 };
                 match self.try_write_model_data_batch(
+                    &global,
                     ModelUniqueIDRef::from(&model_id),
                     mdl.data(),
                     observed_size,
@@ -396,16 +440,15 @@ impl FractalMgr {
                             info!("fhp: completed maintenance task for {model_id}, synced={observed_size}")
                         }
                     }
-                    Err((err, stats)) => {
+                    Err(err) => {
                         error!(
                             "fhp: failed to sync data deltas for model {} with {err}. retrying ...",
                             model_id.uuid()
                         );
                         // enqueue again for retrying
-                        self.re_enqueue_model_sync(
-                            model_id,
-                            observed_size,
-                            stats,
+                        self.retry_high_priority(
+                            &global,
+                            CriticalTask::WriteBatch(model_id, observed_size),
                             Self::adjust_threshold(threshold),
                         )
                     }
@@ -477,6 +520,7 @@ impl FractalMgr {
                 .delta_state()
                 .__fractal_take_full_from_data_delta(super::FractalToken::new());
             match self.try_write_model_data_batch(
+                &global,
                 ModelUniqueIDRef::new(model_id.space(), model_id.entity(), model.data().get_uuid()),
                 model.data(),
                 observed_len,
@@ -491,20 +535,22 @@ impl FractalMgr {
                         )
                     }
                 }
-                Err((e, stats)) => {
+                Err(e) => {
                     info!(
                         "flp: failed to sync data for {}.{} with erro `{e}`. promoting to higher priority",
                         model_id.space(), model_id.entity(),
                     );
                     // this failure is *not* good, so we want to promote this to a critical task
-                    self.re_enqueue_model_sync(
-                        ModelUniqueID::new(
-                            model_id.space(),
-                            model_id.entity(),
-                            model.data().get_uuid(),
+                    self.retry_high_priority(
+                        &global,
+                        CriticalTask::WriteBatch(
+                            ModelUniqueID::new(
+                                model_id.space(),
+                                model_id.entity(),
+                                model.data().get_uuid(),
+                            ),
+                            observed_len,
                         ),
-                        observed_len,
-                        stats,
                         TASK_THRESHOLD,
                     )
                 }
@@ -520,27 +566,26 @@ impl FractalMgr {
     /// The zero check is essential
     fn try_write_model_data_batch(
         &'static self,
+        global: &super::Global,
         mdl_id: ModelUniqueIDRef,
         model: &ModelData,
         observed_size: usize,
         mdl_driver_: &super::drivers::FractalModelDriver,
-    ) -> Result<(), (super::error::Error, BatchStats)> {
-        if mdl_driver_.status().is_iffy() {
-            // don't mess this up any further
-            return Err((
-                super::error::Error::from(ErrorKind::Other(
-                    "model driver is in dirty state".into(),
-                )),
-                BatchStats::into_inner(BatchStats::new()),
-            ));
-        }
+    ) -> Result<(), super::error::Error> {
+        // NB: the status must be checked with the lock held (or else we might miss a failure that is happening right now)
+        let mut mdl_driver = mdl_driver_.batch_driver().lock();
         if observed_size == 0 {
             // no changes, all good
             return Ok(());
         }
+        if mdl_driver_.status().is_iffy() {
+            // don't mess this up any further
+            return Err(super::error::Error::from(ErrorKind::Other(
+                "model driver is in dirty state".into(),
+            )));
+        }
         // try flushing the batch
         let batch_stats = BatchStats::new();
-        let mut mdl_driver = mdl_driver_.batch_driver().lock();
         let batch_driver = mdl_driver.as_mut().unwrap();
         batch_driver
             .commit_with_ctx(
@@ -548,13 +593,19 @@ impl FractalMgr {
                 batch_stats.clone(),
             )
             .map_err(|e| {
+                // nothing from this batch is on disk
+                model.delta_state().requeue_data_deltas(
+                    BatchStats::into_inner(batch_stats).into_dequeued(),
+                    &cpin(),
+                );
                 mdl_driver_.status().set_iffy();
-                self.hp_dispatcher
-                    .send(Task::new(CriticalTask::TryModelAutorecoverLWT(
-                        mdl_id.into(),
-                    )))
-                    .unwrap();
-                (e, BatchStats::into_inner(batch_stats))
+                global.health().report_fault();
+                self.retry_high_priority(
+                    global,
+                    CriticalTask::TryModelAutorecoverLWT(mdl_id.into()),
+                    TASK_THRESHOLD,
+                );
+                e
             })
     }
 }
diff --git a/server/src/engine/fractal/mod.rs b/server/src/engine/fractal/mod.rs
index f153ab7..9d31db8 100644
--- a/server/src/engine/fractal/mod.rs
+++ b/server/src/engine/fractal/mod.rs
@@ -26,11 +26,15 @@
 
 use {
     super::{
-        core::{dml::QueryExecMeta, model::ModelData, GlobalNS},
+        core::{
+            dml::QueryExecMeta,
+            model::{Model, ModelData},
+            GlobalNS,
+        },
         data::uuid::Uuid,
         storage::{
-            safe_interfaces::{paths_v1, FileSystem},
-            GNSDriver, ModelDriver,
+            safe_interfaces::{paths_v1, FileSystem, StdModelBatch},
+            BatchStats, GNSDriver, ModelDriver,
         },
     },
     crate::{engine::error::RuntimeResult, util::compiler},
@@ -270,19 +274,33 @@ impl Global {
         Self::__gref_raw().assume_init_ref()
     }
     pub unsafe fn unload_all(self) {
-        // TODO(@ohsayan): handle errors
         let GlobalState { gns, .. } = Self::__gref_raw().assume_init_read();
         let mut gns_driver = gns.gns_driver().txn_driver.lock();
-        GNSDriver::close_driver(&mut gns_driver).unwrap();
-        for mdl in gns
-            .namespace()
-            .idx_models()
-            .write()
-            .drain()
-            .map(|(_, mdl)| mdl)
-        {
-            mdl.into_driver().close().unwrap();
+        if let Err(e) = GNSDriver::close_driver(&mut gns_driver) {
+            error!("failed to close GNS: {e}");
+        }
+        for (id, mdl) in gns.namespace().idx_models().write().drain() {
+            if let Err(e) = Self::unload_model(&mdl) {
+                error!("failed to close model {}.{}: {e}", id.space(), id.entity());
+            }
+        }
+    }
+    fn unload_model(mdl: &Model) -> RuntimeResult<()> {
+        let mut driver = mdl.driver().batch_driver().lock();
+        let driver = driver.as_mut().unwrap();
+        // make one last attempt to write what the background services couldn't
+        let pending = mdl
+            .data()
+            .delta_state()
+            .__fractal_take_full_from_data_delta(FractalToken::new());
+        if pending != 0 {
+            if let Err(e) =
+                driver.commit_with_ctx(StdModelBatch::new(mdl.data(), pending), BatchStats::new())
+            {
+                error!("failed to write pending changes: {e}");
+            }
         }
+        ModelDriver::close_driver(driver)
     }
 }
 
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 067f852..d02b06c 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -219,7 +219,8 @@ impl<'a, 'b> BatchWriter<'a, 'b> {
         batch_stat: &mut BatchStats,
     ) -> RuntimeResult<usize> {
         /*
-            go over each delta, check if inconsistent and apply if not. if any delta sync fails, we enqueue the delta again.
+            go over each delta, check if inconsistent and apply if not. all deltas that we take off the queue are kept until the
+            batch is committed: if anything fails until then, none of the batch is on disk and all deltas must be enqueued again.
             Since the diffing algorithm will ensure that a stale delta is never written, we don't have to worry about checking
             if the delta is stale or not manually. It will be picked up by another collection sequence.
 
@@ -233,15 +234,8 @@ impl<'a, 'b> BatchWriter<'a, 'b> {
         let mut i = 0;
         while i < expected {
             let delta = me.model.delta_state().__data_delta_dequeue(me.g).unwrap();
-            match me.step(&delta) {
-                Ok(()) => i += 1,
-                Err(e) => {
-                    // errored, so push this back in; we have written and flushed all prior deltas
-                    me.model.delta_state().append_new_data_delta(delta, me.g);
-                    batch_stat.set_actual(i);
-                    return Err(e);
-                }
-            }
+            me.step(batch_stat.add_dequeued(delta))?;
+            i += 1;
         }
         Ok(me.sync_count)
     }
@@ -407,21 +401,25 @@ impl DecodedBatchEvent {
 }
 
 pub struct BatchStats {
-    actual_commit: usize,
+    dequeued: Vec<DataDelta>,
 }
 
 impl BatchStats {
     pub fn new() -> Rc<RefCell<Self>> {
-        Rc::new(RefCell::new(Self { actual_commit: 0 }))
+        Rc::new(RefCell::new(Self {
+            dequeued: Vec::new(),
+        }))
     }
     pub fn into_inner(me: Rc<RefCell<Self>>) -> Self {
         RefCell::into_inner(Rc::into_inner(me).unwrap())
     }
-    fn set_actual(&mut self, new: usize) {
-        self.actual_commit = new;
+    fn add_dequeued(&mut self, delta: DataDelta) -> &DataDelta {
+        self.dequeued.push(delta);
+        &self.dequeued[self.dequeued.len() - 1]
     }
-    pub fn get_actual(&self) -> usize {
-        self.actual_commit
+    /// The deltas that were taken off the queue for this batch
+    pub fn into_dequeued(self) -> Vec<DataDelta> {
+        self.dequeued
     }
 }
 
-- 
2.43.0


From adcf3f25798d7b521df614e640a0b7b108d68a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 34/57] fix: check the GNS driver status with its lock held

---
 server/src/engine/fractal/drivers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/fractal/drivers.rs b/server/src/engine/fractal/drivers.rs
index 560d5c8..68a8f33 100644
--- a/server/src/engine/fractal/drivers.rs
+++ b/server/src/engine/fractal/drivers.rs
@@ -60,10 +60,12 @@ impl FractalGNSDriver {
         f: impl Fn(&mut GNSDriver) -> RuntimeResult<T>,
         on_failure: impl Fn(),
     ) -> QueryResult<T> {
+        // NB: the status must be checked with the lock held (or else we might miss a failure that is happening right now)
+        let mut txn_driver = self.txn_driver.lock();
         if self.status.is_iffy() {
+            on_failure();
             return Err(QueryError::SysServerError);
         }
-        let mut txn_driver = self.txn_driver.lock();
         match f(&mut txn_driver) {
             Ok(v) => Ok(v),
             Err(e) => compiler::cold_call(|| {
-- 
2.43.0


From 1dbeec4189a3c49d94b0089610fa33979035b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 35/57] fix: remove a space only after its removal was logged

---
 server/src/engine/core/space.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/space.rs b/server/src/engine/core/space.rs
index 30c3174..ff388b8 100644
--- a/server/src/engine/core/space.rs
+++ b/server/src/engine/core/space.rs
@@ -245,7 +245,7 @@ impl Space {
                 .state()
                 .namespace()
                 .ddl_with_all_mut(|spaces, models| {
-                    let Some(space) = spaces.remove(space_name.as_str()) else {
+                    let Some(space) = spaces.get(space_name.as_str()) else {
                         if if_exists {
                             return Ok(Some(false));
                         } else {
@@ -262,6 +262,8 @@ impl Space {
                         |drv| drv.commit_event(txn),
                         || {},
                     )?;
+                    // the drop is final, so remove it from the namespace
+                    let space = spaces.remove(space_name.as_str()).unwrap();
                     // request cleanup
                     global.taskmgr_post_standard_priority(Task::new(
                         GenericTask::delete_space_dir(&space_name, space.get_uuid()),
@@ -279,7 +281,6 @@ impl Space {
                             global.health().report_removal_of_faulty_source();
                         }
                     }
-                    let _ = spaces.st_delete(space_name.as_str());
                     if if_exists {
                         Ok(Some(true))
                     } else {
-- 
2.43.0


From 3b48f6d6fb86c4a5afb91bef6c639b3b042f7458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 36/57] fix: report the removal of a faulty model that is
 dropped

---
 server/src/engine/core/model/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index b66456f..a311dcf 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -399,6 +399,10 @@ impl ModelData {
                     model.data().get_uuid(),
                 );
                 // update global state
+                if model.driver().status().is_iffy() {
+                    // this driver had a fault, but it's gone now
+                    global.health().report_removal_of_faulty_source();
+                }
                 let _ = models_idx.remove(&EntityIDRef::new(&space_name, &model_name));
                 let _ = space.models_mut().remove(model_name);
                 if stmt.if_exists {
-- 
2.43.0


From 295e2e36330e051d956dd5d5ac11a83a6b4e3e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 37/57] fix: remove a partially initialised namespace log

---
 server/src/engine/storage/v2/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server/src/engine/storage/v2/mod.rs b/server/src/engine/storage/v2/mod.rs
index b5fa4cf..223c8c1 100644
--- a/server/src/engine/storage/v2/mod.rs
+++ b/server/src/engine/storage/v2/mod.rs
@@ -100,6 +100,14 @@ pub fn recreate(gns: GNSData) -> RuntimeResult<SELoaded> {
 
 pub fn initialize_new(config: &Configuration) -> RuntimeResult<SELoaded> {
     FileSystem::create_dir_all(DATA_DIR)?;
+    initialize_new_gns(config).map_err(|e| {
+        // a partially initialized GNS can't be loaded, so don't mistake it for an existing database on the next start
+        let _ = FileSystem::remove_file(GNS_PATH);
+        e
+    })
+}
+
+fn initialize_new_gns(config: &Configuration) -> RuntimeResult<SELoaded> {
     let mut gns_driver = impls::gns_log::GNSDriver::create_gns()?;
     let gns = GNSData::empty();
     let password_hash = rcrypt::hash(&config.auth.root_key, rcrypt::DEFAULT_COST).unwrap();
-- 
2.43.0


From 3bb3ab8c62dc297666358a38af71e8bc72ec8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 38/57] fix: a damaged ALTER MODEL event must not crash the
 start

---
 server/src/engine/core/model/mod.rs                         | 6 ++++--
 .../engine/storage/common_encoding/r1/impls/gns/model.rs    | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index a311dcf..4ffab26 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -485,12 +485,14 @@ impl<'a> ModelMutator<'a> {
             .take_while(|key| key.as_str() != name)
             .count();
         // remove
-        let r = self.model.fields.st_delete(name);
+        if !self.model.fields.st_delete(name) {
+            return false;
+        }
         // recycle
         let ptr = unsafe { self.model.private.mark_pending_remove(name) };
         // publish delta
         self.model.delta.unresolved_append_field_rem(ptr, column);
-        r
+        true
     }
     pub fn add_field(&mut self, name: Box<str>, field: Field) -> bool {
         unsafe {
diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
index faafbab..e9d51a2 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
@@ -420,7 +420,8 @@ impl<'a> PersistObject for AlterModelRemoveTxn<'a> {
         md: Self::Metadata,
     ) -> RuntimeResult<Self::OutputType> {
         let model_id = <ModelID as PersistObject>::obj_dec(s, md.model_id_meta)?;
-        let mut removed_fields = Vec::with_capacity(md.remove_field_c as usize);
+        // NB: the number of fields is unverified at this point
+        let mut removed_fields = Vec::new();
         while !s.eof()
             & (removed_fields.len() as u64 != md.remove_field_c)
             & s.has_left(sizeof!(u64))
-- 
2.43.0


From bcffc09322a55bebddca21d8931d90ba2b18f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 39/57] fix: check the bounds when decoding events

---
 .../engine/storage/common_encoding/r1/map.rs  |  3 +--
 .../engine/storage/common_encoding/r1/mod.rs  | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/server/src/engine/storage/common_encoding/r1/map.rs b/server/src/engine/storage/common_encoding/r1/map.rs
index 39b5793..86b2bf0 100644
--- a/server/src/engine/storage/common_encoding/r1/map.rs
+++ b/server/src/engine/storage/common_encoding/r1/map.rs
@@ -84,8 +84,7 @@ impl<'a, M: MapStorageSpec> PersistObject for PersistMapImpl<'a, M> {
         MapIndexSizeMD(dict_size): Self::Metadata,
     ) -> RuntimeResult<Self::OutputType> {
         let mut dict = M::RestoredMap::map_new();
-        let decode_pretest_for_entry_meta = M::decode_pretest_for_entry_meta(scanner);
-        while decode_pretest_for_entry_meta & (dict.map_length() != dict_size) {
+        while M::decode_pretest_for_entry_meta(scanner) & (dict.map_length() != dict_size) {
             let md = unsafe {
                 // UNSAFE(@ohsayan): +pretest
                 M::decode_entry_meta(scanner).ok_or::<StorageError>(
diff --git a/server/src/engine/storage/common_encoding/r1/mod.rs b/server/src/engine/storage/common_encoding/r1/mod.rs
index 56ee59f..d41fd45 100644
--- a/server/src/engine/storage/common_encoding/r1/mod.rs
+++ b/server/src/engine/storage/common_encoding/r1/mod.rs
@@ -60,16 +60,22 @@ impl<'a> DataSource for BufferedScanner<'a> {
         self.has_left(cnt)
     }
     unsafe fn read_next_byte(&mut self) -> Result<u8, Self::Error> {
-        Ok(self.next_byte())
+        self.read_next_block::<1>().map(|[b]| b)
     }
     unsafe fn read_next_block<const N: usize>(&mut self) -> Result<[u8; N], Self::Error> {
-        Ok(self.next_chunk())
+        if self.has_left(N) {
+            Ok(self.next_chunk())
+        } else {
+            Err(())
+        }
     }
     unsafe fn read_next_u64_le(&mut self) -> Result<u64, Self::Error> {
-        Ok(self.next_u64_le())
+        self.read_next_block().map(u64::from_le_bytes)
     }
     unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
-        Ok(self.next_chunk_variable(size).into())
+        self.try_next_variable_block(size)
+            .map(Into::into)
+            .ok_or(())
     }
 }
 
@@ -276,8 +282,9 @@ pub mod dec {
             mem::BufferedScanner,
         };
         pub unsafe fn decode_string(s: &mut BufferedScanner, len: usize) -> RuntimeResult<String> {
-            String::from_utf8(s.next_chunk_variable(len).to_owned())
-                .map_err(|_| StorageError::InternalDecodeStructureCorruptedPayload.into())
+            s.try_next_variable_block(len)
+                .and_then(|block| String::from_utf8(block.to_owned()).ok())
+                .ok_or(StorageError::InternalDecodeStructureCorruptedPayload.into())
         }
     }
 }
-- 
2.43.0


From 558b1f8b5efb918cb376a0fb108843d064d5fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:11 +0000
Subject: [PATCH 40/57] fix: make sure that the locked PID file still exists

A server that ends removes its PID file; another one that had already opened it
would lock a file that nobody else looks at.
---
 server/src/util/os/flock.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/server/src/util/os/flock.rs b/server/src/util/os/flock.rs
index 5c083d3..fec3019 100644
--- a/server/src/util/os/flock.rs
+++ b/server/src/util/os/flock.rs
@@ -50,7 +50,7 @@ pub struct FileLock {
 
 impl FileLock {
     pub fn new<P: AsRef<Path>>(path: P) -> io::Result<Self> {
-        let file = File::create(path)?;
+        let file = File::create(path.as_ref())?;
         #[cfg(windows)]
         {
             let handle = file.as_raw_handle();
@@ -74,7 +74,7 @@ impl FileLock {
         {
             use {
                 libc::{flock, LOCK_EX, LOCK_NB},
-                std::os::unix::io::AsRawFd,
+                std::os::unix::{fs::MetadataExt, io::AsRawFd},
             };
             let result = unsafe { flock(file.as_raw_fd(), LOCK_EX | LOCK_NB) };
             if result != 0 {
@@ -83,7 +83,17 @@ impl FileLock {
                     "file is already locked",
                 ));
             }
-            return Ok(Self { _file: file });
+            // the previous owner might have removed the file after we opened it, but before we locked it. a lock on a removed
+            // file excludes nobody, so try again in that case
+            let locked = file.metadata()?;
+            match std::fs::metadata(path.as_ref()) {
+                Ok(current) if (current.dev(), current.ino()) == (locked.dev(), locked.ino()) => {
+                    return Ok(Self { _file: file })
+                }
+                Ok(_) => return Self::new(path),
+                Err(e) if e.kind() == io::ErrorKind::NotFound => return Self::new(path),
+                Err(e) => return Err(e),
+            }
         }
     }
     pub fn release(self) -> io::Result<()> {
-- 
2.43.0


From 64a9dfe736e6ca68423011aa5ebe9f620d43a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:11 +0000
Subject: [PATCH 41/57] fix: keep to the reliability service window

Any task restarted the timer of the window, and deletions that can not succeed were
retried for ever, with the executor asleep in between.
---
 server/src/engine/fractal/mgr.rs | 52 +++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 84bbfd1..c751358 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -468,51 +468,61 @@ impl FractalMgr {
         rs_window: u64,
     ) {
         let dur = std::time::Duration::from_secs(rs_window);
+        // NB: tasks must not restart the window (or else a steady stream of tasks would defer maintenance forever)
+        let mut window = Box::pin(tokio::time::sleep(dur));
         loop {
             tokio::select! {
                 _ = sigterm.recv() => {
                     info!("flp: finishing any pending maintenance tasks");
                     let global = global.clone();
                     tokio::task::spawn_blocking(|| self.general_executor(global)).await.unwrap();
+                    while let Ok(Task { task, .. }) = lpq.try_recv() {
+                        let _ = Self::run_general_task(&task).await;
+                    }
                     info!("flp: exited executor service");
                     break;
                 },
-                _ = tokio::time::sleep(dur) => {
+                _ = &mut window => {
                     let global = global.clone();
-                    tokio::task::spawn_blocking(|| self.general_executor(global)).await.unwrap()
+                    tokio::task::spawn_blocking(|| self.general_executor(global)).await.unwrap();
+                    window = Box::pin(tokio::time::sleep(dur));
                 }
                 task = lpq.recv() => {
                     let Task { threshold, task } = match task {
-                        Some(t) => {
-                            t.sleep().await;
-                            t
-                        },
+                        Some(t) => t,
                         None => {
                             info!("flp: exiting executor service because all tasks closed");
                             break;
                         }
                     };
-                    // TODO(@ohsayan): threshold
-                    match task {
-                        GenericTask::DeleteFile(f) => {
-                            if let Err(_) = fs::remove_file(&f).await {
-                                self.general_dispatcher.send(
-                                    Task::with_threshold(GenericTask::DeleteFile(f), Self::adjust_threshold(threshold))
-                                ).unwrap();
-                            }
-                        }
-                        GenericTask::DeleteDirAll(dir) => {
-                            if let Err(_) = fs::remove_dir_all(&dir).await {
-                                self.general_dispatcher.send(
-                                    Task::with_threshold(GenericTask::DeleteDirAll(dir), Self::adjust_threshold(threshold))
-                                ).unwrap();
-                            }
+                    match Self::run_general_task(&task).await {
+                        Ok(()) => {}
+                        Err(e) if threshold == 0 => error!("flp: giving up on removing stale data with {e}"),
+                        Err(_) => {
+                            // try again later, without blocking the executor until then
+                            let task = Task::with_threshold(task, Self::adjust_threshold(threshold));
+                            let dispatcher = self.general_dispatcher.clone();
+                            tokio::spawn(async move {
+                                task.sleep().await;
+                                let _ = dispatcher.send(task);
+                            });
                         }
                     }
                 }
             }
         }
     }
+    async fn run_general_task(task: &GenericTask) -> std::io::Result<()> {
+        let ret = match task {
+            GenericTask::DeleteFile(f) => fs::remove_file(f).await,
+            GenericTask::DeleteDirAll(dir) => fs::remove_dir_all(dir).await,
+        };
+        match ret {
+            // it's gone already
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
+            ret => ret,
+        }
+    }
     fn general_executor(&'static self, global: super::Global) {
         for (model_id, model) in global.state().namespace().idx_models().read().iter() {
             let observed_len = model
-- 
2.43.0


From 2f1cbdf05d4858771d4135e53130761e21752f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:11 +0000
Subject: [PATCH 42/57] fix: split only the endpoints in the environment at
 commas

---
 server/src/engine/config.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/config.rs b/server/src/engine/config.rs
index 9c1e8ee..3d3d89f 100644
--- a/server/src/engine/config.rs
+++ b/server/src/engine/config.rs
@@ -762,8 +762,13 @@ pub fn parse_env_args() -> RuntimeResult<Option<ParsedRawArgs>> {
                 }
             },
         };
-        let splits: Vec<_> = var.split(",").map(ToString::to_string).collect();
-        ret.insert(key.into(), splits);
+        // only the endpoints are a list (a password may very well have a comma)
+        let values: Vec<_> = if key == CSEnvArgs::KEY_ENDPOINTS {
+            var.split(",").map(ToString::to_string).collect()
+        } else {
+            vec![var]
+        };
+        ret.insert(key.into(), values);
     }
     if ret.is_empty() {
         Ok(None)
-- 
2.43.0


From 8b9c43d70acebf862b94a9f6c5172774f439464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:11 +0000
Subject: [PATCH 43/57] fix: report an argument that is not valid unicode

---
 server/src/engine/config.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/server/src/engine/config.rs b/server/src/engine/config.rs
index 3d3d89f..eb1a89a 100644
--- a/server/src/engine/config.rs
+++ b/server/src/engine/config.rs
@@ -1075,17 +1075,29 @@ fn get_var_from_store(name: &str) -> Result<String, std::env::VarError> {
     }
     var
 }
-fn get_cli_from_store() -> Vec<String> {
-    let src;
+fn get_cli_from_store() -> RuntimeResult<Vec<String>> {
+    let src: Vec<String>;
     #[cfg(test)]
     {
         src = local_mut!(CLI_SRC, |args| args.take()).unwrap_or_default();
     }
     #[cfg(not(test))]
     {
-        src = std::env::args().collect();
+        src = std::env::args_os()
+            .map(|arg| {
+                arg.into_string().map_err(|arg| {
+                    ConfigError::with_src(
+                        ConfigSource::Cli,
+                        ConfigErrorKind::ErrorString(format!(
+                            "the argument `{}` is not valid unicode",
+                            arg.to_string_lossy()
+                        )),
+                    )
+                })
+            })
+            .collect::<Result<_, _>>()?;
     }
-    src
+    Ok(src)
 }
 
 /// Check the configuration. We look through:
@@ -1096,7 +1108,7 @@ pub fn check_configuration() -> RuntimeResult<ConfigReturn> {
     // read in our environment variables
     let env_args = parse_env_args()?;
     // read in our CLI args (since that can tell us whether we need a configuration file)
-    let read_cli_args = parse_cli_args(get_cli_from_store().into_iter())?;
+    let read_cli_args = parse_cli_args(get_cli_from_store()?.into_iter())?;
     let cli_args = match read_cli_args {
         CLIConfigParseReturn::Default => {
             // no options were provided in the CLI
-- 
2.43.0


From ffa7d66c6e11e805d76eebf9c028ffea2ff32020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:11 +0000
Subject: [PATCH 44/57] fix: ALTER SPACE must not replace a map with a scalar

---
 server/src/engine/data/dict.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index fe79c9b..9740b3f 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -153,6 +153,11 @@ fn rmerge_metadata_prepare_patch(
             (Some(DictEntryGeneric::Data(_)), DictEntryGeneric::Map(_)) => {
                 okay = false;
             }
+            (Some(DictEntryGeneric::Map(_)), DictEntryGeneric::Data(new_data))
+                if new_data.is_init() =>
+            {
+                okay = false;
+            }
             (
                 Some(DictEntryGeneric::Map(this_recursive_data)),
                 DictEntryGeneric::Map(new_recursive_data),
-- 
2.43.0


From d418eb22a16606ffe6e9937e662b233ddd9647fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:11 +0000
Subject: [PATCH 45/57] fix: keep new nested maps in ALTER SPACE

---
 server/src/engine/data/dict.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index 9740b3f..b033f6b 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -124,6 +124,7 @@ pub fn rmerge_data_with_patch(current: &mut DictGeneric, patch: DictGeneric) {
                 None => {
                     let mut new = DictGeneric::new();
                     rmerge_data_with_patch(&mut new, m);
+                    current.st_insert(key, DictEntryGeneric::Map(new));
                 }
             },
         }
-- 
2.43.0


From a7d3d353a21d739c912aee9b9aab3bfd893f8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:12 +0000
Subject: [PATCH 46/57] fix: decode v1 rows with the columns of their schema
 version

A batch of the old storage holds the columns that the model had when the batch
was written; after a removed field they were restored into the wrong fields.
---
 .../storage/v1/raw/batch_jrnl/restore.rs      | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index 91da055..97afa45 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -213,6 +213,21 @@ impl DataBatchRestoreDriver {
         let g = unsafe { crossbeam_epoch::unprotected() };
         let mut pending_delete = HashMap::new();
         let p_index = m.primary_index().__raw_index();
+        // rows were encoded with the columns that the model had when this batch was written
+        let schema_version = DeltaVersion::__new(schema_version);
+        if schema_version > m.delta_state().schema_current_version() {
+            return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+        }
+        let columns = m.delta_state().columns_at_version(
+            schema_version,
+            m.fields()
+                .stseq_ord_key()
+                .filter(|key| key.as_str() != m.p_key())
+                .map(|key| unsafe {
+                    // UNSAFE(@ohsayan): model in scope, we're good
+                    key.clone()
+                }),
+        );
         // scan rows
         for DecodedBatchEvent { txn_id, pk, kind } in events {
             match kind {
@@ -229,12 +244,10 @@ impl DataBatchRestoreDriver {
                             // new row (logically)
                             let _ = p_index.mt_delete(&pk, &g);
                             let mut data = DcFieldIndex::default();
-                            for (field_name, new_data) in m
-                                .fields()
-                                .stseq_ord_key()
-                                .filter(|key| key.as_str() != m.p_key())
-                                .zip(new_row)
-                            {
+                            if columns.len() != new_row.len() {
+                                return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+                            }
+                            for (field_name, new_data) in columns.iter().zip(new_row) {
                                 data.st_insert(
                                     unsafe {
                                         // UNSAFE(@ohsayan): model in scope, we're good
@@ -243,12 +256,7 @@ impl DataBatchRestoreDriver {
                                     new_data,
                                 );
                             }
-                            let row = Row::new_restored(
-                                pk,
-                                data,
-                                DeltaVersion::__new(schema_version),
-                                txn_id,
-                            );
+                            let row = Row::new_restored(pk, data, schema_version, txn_id);
                             // resolve any deltas
                             let _ = row.resolve_schema_deltas_and_freeze(m.delta_state());
                             // put it back in (lol); blame @ohsayan for this joke
-- 
2.43.0


From d13ea4f1a5c056d097fe3894c47112b2e68db902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:12 +0000
Subject: [PATCH 47/57] fix: continue the delta version after an upgrade of a
 model

Updates after the upgrade got versions lower than those of the restored rows.
---
 server/src/engine/storage/v1/raw/batch_jrnl/restore.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index 97afa45..2210b0b 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -212,6 +212,7 @@ impl DataBatchRestoreDriver {
         // pin model
         let g = unsafe { crossbeam_epoch::unprotected() };
         let mut pending_delete = HashMap::new();
+        let mut real_last_txn_id = DeltaVersion::genesis();
         let p_index = m.primary_index().__raw_index();
         // rows were encoded with the columns that the model had when this batch was written
         let schema_version = DeltaVersion::__new(schema_version);
@@ -230,6 +231,9 @@ impl DataBatchRestoreDriver {
         );
         // scan rows
         for DecodedBatchEvent { txn_id, pk, kind } in events {
+            if txn_id > real_last_txn_id {
+                real_last_txn_id = txn_id;
+            }
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
                     // this is more like a "newrow"
@@ -299,6 +303,9 @@ impl DataBatchRestoreDriver {
                 }
             }
         }
+        // +1 since it is a fetch add!
+        m.delta_state()
+            .__advance_delta_version(DeltaVersion::__new(real_last_txn_id.value_u64() + 1));
         Ok(())
     }
 }
-- 
2.43.0


From f5c4dc0e3c5018b9594e0b24e66559d06fa6c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:12 +0000
Subject: [PATCH 48/57] fix: start schema versions over after an upgrade

The upgraded storage only gets the current declaration of a model, so rows with
the schema versions of the old storage could not be read on the next start.
---
 server/src/engine/core/index/row.rs    |  3 +++
 server/src/engine/core/model/delta.rs  |  5 +++++
 server/src/engine/core/model/mod.rs    | 12 +++++++++++-
 server/src/engine/storage/v1/loader.rs |  2 ++
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index cb52e04..97b7979 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -69,6 +69,9 @@ impl RowData {
     pub fn get_txn_revised(&self) -> DeltaVersion {
         self.txn_revised_data
     }
+    pub fn set_schema_version(&mut self, new: DeltaVersion) {
+        self.txn_revised_schema_version = new;
+    }
     /// Returns true if this row was removed from the index
     pub fn is_deleted(&self) -> bool {
         self.deleted
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 6e32e61..9a568d7 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -131,6 +131,11 @@ impl DeltaState {
     pub fn schema_current_version(&self) -> DeltaVersion {
         DeltaVersion(self.schema_current_version)
     }
+    /// Forget all schema deltas and start over with the genesis version
+    pub fn reset_schema_version(&mut self) {
+        self.schema_current_version = 0;
+        self.schema_deltas.clear();
+    }
     pub fn unresolved_append_field_add(&mut self, field_name: RawStr) {
         self.__schema_append_unresolved_delta(SchemaDeltaPart::field_add(field_name));
     }
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 4ffab26..6440512 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -37,7 +37,7 @@ use {
         },
         error::{QueryError, QueryResult},
         fractal::{FractalModelDriver, GenericTask, GlobalInstanceLike, Task},
-        idx::{self, IndexBaseSpec, IndexSTSeqCns, STIndex, STIndexSeq},
+        idx::{self, IndexBaseSpec, IndexSTSeqCns, MTIndex, STIndex, STIndexSeq},
         mem::{RawStr, VInline},
         ql::ddl::{
             crt::CreateModel,
@@ -475,6 +475,16 @@ impl<'a> ModelMutator<'a> {
     pub unsafe fn vacuum_stashed(&mut self) {
         self.model.private.vacuum_marked()
     }
+    /// Make the current schema the genesis schema
+    ///
+    /// NB: all rows must have all deltas resolved
+    pub fn rebase_schema(&mut self) {
+        let g = crossbeam_epoch::pin();
+        for (_, row) in self.model.primary_index().__raw_index().mt_iter_kv(&g) {
+            row.write().set_schema_version(DeltaVersion::genesis());
+        }
+        self.model.delta.reset_schema_version();
+    }
     pub fn remove_field(&mut self, name: &str) -> bool {
         // locate
         let column = self
diff --git a/server/src/engine/storage/v1/loader.rs b/server/src/engine/storage/v1/loader.rs
index 76764d1..403e781 100644
--- a/server/src/engine/storage/v1/loader.rs
+++ b/server/src/engine/storage/v1/loader.rs
@@ -68,6 +68,8 @@ pub fn load_gns() -> RuntimeResult<GNSData> {
                     // UNSAFE(@ohsayan): all pieces of data are upgraded by now, so vacuum
                     model.data_mut().model_mutator().vacuum_stashed();
                 }
+                // the new storage only gets the current declaration, so versions have to start over
+                model.data_mut().model_mutator().rebase_schema();
                 let _ = model_drivers.insert(
                     ModelUniqueID::new(space_name, model_name, model.data().get_uuid()),
                     persist_driver,
-- 
2.43.0


From b8d1616f04bda832b97b524d6a164ff0aa98374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:15 +0000
Subject: [PATCH 49/57] fix: refuse impossible lengths in v1 batches

A damaged length made the server try to allocate that much memory and abort.
---
 server/src/engine/storage/v1/raw/batch_jrnl/restore.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index 2210b0b..84e977a 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -490,6 +490,9 @@ impl DataBatchRestoreDriver {
             }
             TagUnique::Str | TagUnique::Bin => {
                 let len = self.f.read_u64_le()?;
+                if !self.f.has_left(len) {
+                    return Err(StorageError::DataBatchRestoreCorruptedEntry.into());
+                }
                 let mut data = vec![0; len as usize];
                 self.f.tracked_read(&mut data)?;
                 if pk_type == TagUnique::Str {
@@ -551,6 +554,9 @@ impl DataSource for TrackedReader {
         Ok(self.read_u64_le()?)
     }
     unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
+        if !self.has_left(size as u64) {
+            return Err(ErrorHack(StorageError::DataBatchRestoreCorruptedEntry.into()));
+        }
         let mut buf = vec![0; size];
         self.tracked_read(&mut buf)?;
         Ok(buf)
-- 
2.43.0


From 1a302a2666b12a2fc8a5a5b0133e608841494990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:07 +0000
Subject: [PATCH 50/57] fix: do not add a backslash to escaped characters in
 skysh strings

After an escape sequence the shell pushed the resolved character and then the
backslash itself, so "a\\"b" was sent as a"\b. The escape is now consumed.
---
 cli/src/query.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/src/query.rs b/cli/src/query.rs
index bb2c977..160ee98 100644
--- a/cli/src/query.rs
+++ b/cli/src/query.rs
@@ -203,6 +203,8 @@ impl Parameterizer {
                     }
                     _ => return Err(CliError::QueryError("unknown escape sequence".into())),
                 }
+                self.i += 1;
+                continue;
             }
             if b == quote_style {
                 terminated = true;
-- 
2.43.0


From 2e976fdaa3b6e982da1b6a999130b4b1cf527252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:07 +0000
Subject: [PATCH 51/57] fix: accept negative numbers, floats before a space and
 -= in skysh

The scan for the end of a signed integer began at its own `-`, a character that
ends numbers, so that no negative literal was accepted; negative floats were
not supported at all, a float followed by a space swallowed the space and
failed to parse, and the `-` of `-=` was taken for the start of a number.
---
 cli/src/query.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/src/query.rs b/cli/src/query.rs
index 160ee98..274dbd7 100644
--- a/cli/src/query.rs
+++ b/cli/src/query.rs
@@ -131,7 +131,9 @@ impl Parameterizer {
             match self.buf[self.i] {
                 b if b.is_ascii_alphabetic() || b == b'_' => self.read_ident(),
                 b if b.is_ascii_digit() => self.read_unsigned_integer(),
-                b'-' => self.read_signed_integer(),
+                b'-' if self.buf.get(self.i + 1).map_or(false, u8::is_ascii_digit) => {
+                    self.read_signed_integer()
+                }
                 quote_style @ (b'"' | b'\'') => {
                     self.i += 1;
                     self.read_string(quote_style)
@@ -255,7 +257,13 @@ impl Parameterizer {
         self.query.push(b'?');
         // we must have encountered a `-`
         let start = self.i;
+        self.i += 1;
         self.read_until_number_escape();
+        if self.not_eof() && self.buf[self.i] == b'.' {
+            self.i += 1;
+            // a negative float
+            return self.read_float(start);
+        }
         let stop = self.i;
         match core::str::from_utf8(&self.buf[start..stop]).map(|v| v.parse()) {
             Ok(Ok(s)) => self.params.push(Item::SInt(s)),
@@ -305,7 +313,7 @@ impl Parameterizer {
     fn read_until_number_escape(&mut self) {
         while self.not_eof() {
             let b = self.buf[self.i];
-            if b == b'\n' || b == b'\t' || b.is_ascii_punctuation() {
+            if b == b' ' || b == b'\n' || b == b'\t' || b.is_ascii_punctuation() {
                 break;
             }
             self.i += 1;
-- 
2.43.0


From 7261ad738841b61549560c8de0d9aabc43b170e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:07 +0000
Subject: [PATCH 52/57] fix: leave the closing backtick out of binary literals
 in skysh

The bytes of a binary literal included its closing delimiter, which was then
stored in the database.
---
 cli/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/query.rs b/cli/src/query.rs
index 274dbd7..60c4d8a 100644
--- a/cli/src/query.rs
+++ b/cli/src/query.rs
@@ -327,7 +327,7 @@ impl Parameterizer {
             self.i += 1;
             if b == b'`' {
                 self.params
-                    .push(Item::Bin(self.buf[start..self.i].to_vec()));
+                    .push(Item::Bin(self.buf[start..self.i - 1].to_vec()));
                 return Ok(());
             }
         }
-- 
2.43.0


From ccdd96f338fc371fee55b0b9d5f6b617dfd2b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:07 +0000
Subject: [PATCH 53/57] fix: do not panic in skysh on a multi-byte character
 near the first word

The shell sliced the first eight bytes of every statement to look for INSPECT,
which panics when a character spans the boundary.
---
 cli/src/query.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/src/query.rs b/cli/src/query.rs
index 60c4d8a..b6d8ffc 100644
--- a/cli/src/query.rs
+++ b/cli/src/query.rs
@@ -158,8 +158,7 @@ impl Parameterizer {
                 Ok(if qstr.eq_ignore_ascii_case("use null") {
                     ExecKind::UseNull(q)
                 } else {
-                    if qstr.len() > 8 {
-                        let qstr = &qstr[..8];
+                    if let Some(qstr) = qstr.get(..8) {
                         if qstr.eq_ignore_ascii_case("inspect ") {
                             return Ok(ExecKind::PrintSpecial(q));
                         }
-- 
2.43.0


From bf7b56d905ddcd0e9318c32a5904c3e914fd23e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:32 +0000
Subject: [PATCH 54/57] fix: accept large floats in skysh

The shell gave up on a float whose integral part does not fit an unsigned
64-bit integer before it saw the decimal point.
---
 cli/src/query.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cli/src/query.rs b/cli/src/query.rs
index b6d8ffc..9c0f593 100644
--- a/cli/src/query.rs
+++ b/cli/src/query.rs
@@ -277,18 +277,15 @@ impl Parameterizer {
     fn read_unsigned_integer(&mut self) -> CliResult<()> {
         self.query.push(b'?');
         let start = self.i;
-        let mut ret = 0u64;
+        let mut ret = Some(0u64);
         while self.not_eof() {
             match self.buf[self.i] {
                 b if b.is_ascii_digit() => {
                     self.i += 1;
-                    ret = match ret
-                        .checked_mul(10)
-                        .map(|v| v.checked_add((b & 0x0f) as u64))
-                    {
-                        Some(Some(r)) => r,
-                        _ => return Err(CliError::QueryError("bad value for integer".into())),
-                    };
+                    // the digits may turn out to be those of a float
+                    ret = ret
+                        .and_then(|v| v.checked_mul(10))
+                        .and_then(|v| v.checked_add((b & 0x0f) as u64));
                 }
                 b'.' => {
                     self.i += 1;
@@ -306,7 +303,10 @@ impl Parameterizer {
                 }
             }
         }
-        self.params.push(Item::UInt(ret));
+        match ret {
+            Some(ret) => self.params.push(Item::UInt(ret)),
+            None => return Err(CliError::QueryError("bad value for integer".into())),
+        }
         Ok(())
     }
     fn read_until_number_escape(&mut self) {
-- 
2.43.0


From d937bd974f2d6c14dd997eda67e60345e6a79ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:03 +0000
Subject: [PATCH 55/57] fix: free all of the buffer of a fixed vector

---
 server/src/engine/mem/fixed_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/mem/fixed_vec.rs b/server/src/engine/mem/fixed_vec.rs
index c6baa8c..2f1784d 100644
--- a/server/src/engine/mem/fixed_vec.rs
+++ b/server/src/engine/mem/fixed_vec.rs
@@ -135,7 +135,7 @@ impl<T, const CAP: usize> Drop for FixedVec<T, CAP> {
         self.clear();
         unsafe {
             // UNSAFE(@ohsayan): dealloc
-            unsafe_apis::dealloc_array(self.p.as_ptr(), self.len());
+            unsafe_apis::dealloc_array(self.p.as_ptr(), CAP);
         }
     }
 }
-- 
2.43.0


From 1b2943a5ff65b4f7f085b89f114050ee20c6e3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:03 +0000
Subject: [PATCH 56/57] fix: do not read freed nodes when an ordered index is
 consumed

---
 server/src/engine/idx/stord/iter.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/server/src/engine/idx/stord/iter.rs b/server/src/engine/idx/stord/iter.rs
index c70d585..0d3e71e 100644
--- a/server/src/engine/idx/stord/iter.rs
+++ b/server/src/engine/idx/stord/iter.rs
@@ -302,10 +302,12 @@ impl<K, V> OrderedOwnedIteratorRaw<K, V> {
             self.r -= 1;
             unsafe {
                 // UNSAFE(@ohsayan): +nullck
-                let this = ptr::read(self.h);
+                let node = self.h;
+                let this = ptr::read(node);
+                self.h = this.p;
                 // destroy this node
-                IndexSTSeqDllNode::dealloc_headless(self.h);
-                self.h = (*self.h).p;
+                IndexSTSeqDllNode::unlink(node);
+                IndexSTSeqDllNode::dealloc_headless(node);
                 Some((this.k, this.v))
             }
         }
@@ -318,9 +320,13 @@ impl<K, V> OrderedOwnedIteratorRaw<K, V> {
             self.r -= 1;
             unsafe {
                 // UNSAFE(@ohsayan): +nullck
-                self.t = (*self.t).n;
-                let this = ptr::read(self.t);
-                IndexSTSeqDllNode::dealloc_headless(self.t);
+                let node = (*self.t).n;
+                let this = ptr::read(node);
+                if self.h == node {
+                    self.h = self.t;
+                }
+                IndexSTSeqDllNode::unlink(node);
+                IndexSTSeqDllNode::dealloc_headless(node);
                 Some((this.k, this.v))
             }
         }
@@ -331,6 +337,10 @@ impl<K, V> Drop for OrderedOwnedIteratorRaw<K, V> {
     fn drop(&mut self) {
         // clean up what's left
         while let Some(_) = self._next() {}
+        if !self.t.is_null() {
+            // UNSAFE(@ohsayan): nullck; the sentinel is the last thing that we still own
+            unsafe { IndexSTSeqDllNode::dealloc_headless(self.t) }
+        }
     }
 }
 
-- 
2.43.0


From 75a12272de87848142ee59dd4f268853ce9877b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:03 +0000
Subject: [PATCH 57/57] fix: do not read a row that was freed at recovery

---
 server/src/engine/storage/v2/impls/mdl_journal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index d02b06c..82a0ca5 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -532,8 +532,8 @@ impl BatchAdapterSpec for ModelDataAdapter {
         for DecodedBatchEvent { txn_id, pk, kind } in batch_state.events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
-                    let popped_row = p_index.mt_delete_return(&pk, &g);
-                    if let Some(row) = popped_row {
+                    // NB: without a pinned epoch a removed row is freed at once, so look at it before removing it
+                    if let Some(row) = p_index.mt_get(&pk, &g) {
                         /*
                             if a newer version of the row is received first and the older version is pending to be synced, the older
                             version is never synced. this is how the diffing algorithm works to ensure consistency.
@@ -547,6 +547,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
                             txn_id.value_u64()
                         );
                     }
+                    let _ = p_index.mt_delete(&pk, &g);
                     if txn_id > real_last_txn_id {
                         real_last_txn_id = txn_id;
                     }
-- 
2.43.0

