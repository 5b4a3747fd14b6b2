From e8b6199fbb486326ccd6fe4109a599dfeaba0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 01/57] fix: do not panic when a file known to the server is
 deleted

Replacing the package roots drops deleted files from all of them, and applying
the deletion then asked for the package of such a file.
---
 crates/base-db/src/change.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/base-db/src/change.rs b/crates/base-db/src/change.rs
index 3713b1a..634a781 100644
--- a/crates/base-db/src/change.rs
+++ b/crates/base-db/src/change.rs
@@ -80,9 +80,11 @@ impl FileChanges {
 
         let is_replacing_package_roots = self.package_roots.is_some();
         for (file_id, text) in self.files_changed {
+            // a deleted file does not belong to any of the new package roots
+            let is_deleted = text.is_none();
             let text = text.unwrap_or_default();
             // only use durability if roots are explicitly provided
-            if is_replacing_package_roots {
+            if is_replacing_package_roots && !is_deleted {
                 let package_id = db.file_package_id(file_id);
                 let package_root = db.package_root(package_id).data(db);
                 let durability = file_text_durability(&package_root);
-- 
2.43.0


From 91098383b423c0e10dafbb521b98a167735e27ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 02/57] fix: a dependency with an invalid manifest does not
 break the other packages

---
 crates/project-model/src/aptos_package/load_from_fs.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/project-model/src/aptos_package/load_from_fs.rs b/crates/project-model/src/aptos_package/load_from_fs.rs
index 1d4a5a0..954e02f 100644
--- a/crates/project-model/src/aptos_package/load_from_fs.rs
+++ b/crates/project-model/src/aptos_package/load_from_fs.rs
@@ -180,7 +180,6 @@ fn collect_deps_transitively(
                     "cannot collect deps due to invalid Move.toml file: {}",
                     current_dep.0
                 );
-                res.push(current_dep);
             }
         }
     }
-- 
2.43.0


From 01f085411065257c9ed0c5180724123428ce5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 03/57] fix: notice when the package of a file changes

---
 crates/base-db/src/inputs.rs | 61 +++++++++++++++++++++++++++++-------
 crates/ide-db/src/root_db.rs |  2 +-
 2 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/crates/base-db/src/inputs.rs b/crates/base-db/src/inputs.rs
index 6e6449d..5c1a676 100644
--- a/crates/base-db/src/inputs.rs
+++ b/crates/base-db/src/inputs.rs
@@ -37,6 +37,12 @@ pub struct FileIdSet {
     pub data: Vec<FileId>,
 }
 
+#[salsa::input]
+pub struct FilePackageIdInput {
+    /// `None` if the file does not belong to any package (anymore)
+    pub data: Option<PackageId>,
+}
+
 #[salsa::input]
 pub struct PackageIdSet {
     pub data: Vec<PackageId>,
@@ -70,7 +76,7 @@ pub struct PackageMetadataInput {
 #[derive(Default)]
 pub struct Files {
     files: Arc<DashMap<FileId, FileText>>,
-    file_package_ids: Arc<DashMap<FileId, PackageId>>,
+    file_package_ids: Arc<DashMap<FileId, FilePackageIdInput>>,
 
     package_roots: Arc<DashMap<PackageId, PackageRootInput>>,
     package_metadata: Arc<DashMap<ManifestFileId, PackageMetadataInput>>,
@@ -123,10 +129,15 @@ impl Files {
     }
 
     pub fn replace_package_roots(&self, db: &mut dyn SourceDatabase, package_roots: Vec<PackageRoot>) {
-        self.file_package_ids.clear();
+        // NOTE: memoized queries hold on to the inputs which they have seen, so the inputs of the files
+        // need to be updated (and not re-created) to be noticed as changed
+        let mut outdated_file_ids = self
+            .file_package_ids
+            .iter()
+            .map(|it| *it.key())
+            .collect::<HashSet<_>>();
         self.package_roots.clear();
 
-        self.spec_file_sets.clear();
         if let Some(builtins_file_id) = db.builtins_file_id() {
             db.set_spec_related_files(builtins_file_id.data(db), vec![])
         }
@@ -134,15 +145,16 @@ impl Files {
         let mut all_package_ids = vec![];
         for (idx, package_root) in package_roots.into_iter().enumerate() {
             let package_id = PackageId::new(db, idx as u32);
+            let package_durability = package_root_durability(&package_root);
             for file_id in package_root.file_ids() {
-                self.file_package_ids.insert(file_id, package_id);
+                outdated_file_ids.remove(&file_id);
+                self.set_file_package_id(db, file_id, Some(package_id), package_durability);
                 self.set_spec_related_files(
                     db,
                     file_id,
                     find_spec_file_set(file_id, package_root.clone()).unwrap_or(vec![]),
                 );
             }
-            let package_durability = package_root_durability(&package_root);
             self.package_roots.insert(
                 package_id,
                 PackageRootInput::builder(Arc::from(package_root))
@@ -151,6 +163,10 @@ impl Files {
             );
             all_package_ids.push(package_id);
         }
+        for file_id in outdated_file_ids {
+            self.set_file_package_id(db, file_id, None, Durability::LOW);
+            self.set_spec_related_files(db, file_id, vec![]);
+        }
 
         self.all_package_ids
             .unwrap()
@@ -159,15 +175,36 @@ impl Files {
             .to(all_package_ids);
     }
 
-    pub fn file_package_id(&self, file_id: FileId) -> PackageId {
-        let file_package_id = self.file_package_ids.get(&file_id).expect(&format!(
-            "Unable to fetch PackageId for {file_id:?}; this is a bug"
-        ));
-        *file_package_id
+    pub fn file_package_id(&self, db: &dyn SourceDatabase, file_id: FileId) -> PackageId {
+        self.file_package_ids
+            .get(&file_id)
+            .map(|it| *it)
+            .and_then(|it| it.data(db))
+            .unwrap_or_else(|| panic!("Unable to fetch PackageId for {file_id:?}; this is a bug"))
     }
 
-    pub fn set_file_package_id(&self, file_id: FileId, package_id: PackageId) {
-        self.file_package_ids.insert(file_id, package_id);
+    fn set_file_package_id(
+        &self,
+        db: &mut dyn SourceDatabase,
+        file_id: FileId,
+        package_id: Option<PackageId>,
+        durability: Durability,
+    ) {
+        match self.file_package_ids.entry(file_id) {
+            Entry::Occupied(mut occupied) => {
+                occupied
+                    .get_mut()
+                    .set_data(db)
+                    .with_durability(durability)
+                    .to(package_id);
+            }
+            Entry::Vacant(vacant) => {
+                let input = FilePackageIdInput::builder(package_id)
+                    .durability(durability)
+                    .new(db);
+                vacant.insert(input);
+            }
+        };
     }
 
     pub fn package_metadata(&self, manifest_file_id: ManifestFileId) -> PackageMetadataInput {
diff --git a/crates/ide-db/src/root_db.rs b/crates/ide-db/src/root_db.rs
index b21453b..cf3594a 100644
--- a/crates/ide-db/src/root_db.rs
+++ b/crates/ide-db/src/root_db.rs
@@ -83,7 +83,7 @@ impl SourceDatabase for RootDatabase {
     }
 
     fn file_package_id(&self, id: FileId) -> PackageId {
-        self.files.file_package_id(id)
+        self.files.file_package_id(self, id)
     }
 
     fn builtins_file_id(&self) -> Option<FileIdInput> {
-- 
2.43.0


From 51c818d294a89348699173c8aa689aaecd5de639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 04/57] fix: do not answer about an older text while files are
 loading

---
 .../src/handlers/dispatch.rs                  | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/aptos-language-server/src/handlers/dispatch.rs b/crates/aptos-language-server/src/handlers/dispatch.rs
index 01c4dfa..2814154 100644
--- a/crates/aptos-language-server/src/handlers/dispatch.rs
+++ b/crates/aptos-language-server/src/handlers/dispatch.rs
@@ -72,7 +72,8 @@ impl RequestDispatcher<'_> {
         self
     }
 
-    /// Dispatches the request onto the current thread.
+    /// Dispatches the request onto the current thread. When the VFS is marked not
+    /// ready (and the latest edits are not applied yet) this will return a default constructed `R::Result`.
     pub(crate) fn on_sync<R>(
         &mut self,
         f: fn(GlobalStateSnapshot, R::Params) -> anyhow::Result<R::Result>,
@@ -80,8 +81,17 @@ impl RequestDispatcher<'_> {
     where
         R: lsp_types::Request,
         R::Params: DeserializeOwned + panic::UnwindSafe + fmt::Debug,
-        R::Result: Serialize,
+        R::Result: Serialize + Default,
     {
+        if !self.global_state.vfs_initialized_and_loaded() {
+            if let Some(lsp_server::Request { id, .. }) =
+                self.req.take_if(|it| it.method.as_str() == R::METHOD.as_str())
+            {
+                self.global_state
+                    .respond(lsp_server::Response::new_ok(id, R::Result::default()));
+            }
+            return self;
+        }
         let (req, params, panic_context) = match self.parse::<R>() {
             Some(it) => it,
             None => return self,
@@ -212,6 +222,8 @@ impl RequestDispatcher<'_> {
     /// Formatting requests should never block on waiting a for task thread to open up, editors will wait
     /// on the response and a late formatting update might mess with the document and user.
     /// We can't run this on the main thread though as we invoke rustfmt which may take arbitrary time to complete!
+    /// When the VFS is marked not ready this will return a default constructed `R::Result`, otherwise the
+    /// formatted text can be older than the text the editor has.
     pub(crate) fn on_fmt_thread<R>(
         &mut self,
         f: fn(GlobalStateSnapshot, R::Params) -> anyhow::Result<R::Result>,
@@ -219,8 +231,17 @@ impl RequestDispatcher<'_> {
     where
         R: lsp_types::Request + 'static,
         R::Params: DeserializeOwned + panic::UnwindSafe + Send + fmt::Debug,
-        R::Result: Serialize,
+        R::Result: Serialize + Default,
     {
+        if !self.global_state.vfs_initialized_and_loaded() {
+            if let Some(lsp_server::Request { id, .. }) =
+                self.req.take_if(|it| it.method.as_str() == R::METHOD.as_str())
+            {
+                self.global_state
+                    .respond(lsp_server::Response::new_ok(id, R::Result::default()));
+            }
+            return self;
+        }
         self.on_with_thread_intent::<true, false, R>(
             ThreadIntent::LatencySensitive,
             f,
-- 
2.43.0


From 3a17af9a8be9311a6cde5d083ea30c4d7c0b53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 05/57] fix: a deleted Move.toml does not break the packages
 which depend on it

---
 crates/base-db/src/inputs.rs                           | 10 ++++++----
 crates/base-db/src/source_db.rs                        |  3 +++
 crates/ide-db/src/root_db.rs                           |  4 ++++
 crates/lang/src/hir_db.rs                              |  3 ++-
 crates/project-model/src/aptos_package/load_from_fs.rs |  4 ++++
 5 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/base-db/src/inputs.rs b/crates/base-db/src/inputs.rs
index 5c1a676..9371e42 100644
--- a/crates/base-db/src/inputs.rs
+++ b/crates/base-db/src/inputs.rs
@@ -176,13 +176,15 @@ impl Files {
     }
 
     pub fn file_package_id(&self, db: &dyn SourceDatabase, file_id: FileId) -> PackageId {
-        self.file_package_ids
-            .get(&file_id)
-            .map(|it| *it)
-            .and_then(|it| it.data(db))
+        self.try_file_package_id(db, file_id)
             .unwrap_or_else(|| panic!("Unable to fetch PackageId for {file_id:?}; this is a bug"))
     }
 
+    pub fn try_file_package_id(&self, db: &dyn SourceDatabase, file_id: FileId) -> Option<PackageId> {
+        let input = self.file_package_ids.get(&file_id).map(|it| *it)?;
+        input.data(db)
+    }
+
     fn set_file_package_id(
         &self,
         db: &mut dyn SourceDatabase,
diff --git a/crates/base-db/src/source_db.rs b/crates/base-db/src/source_db.rs
index 6b6c7d1..1ae494b 100644
--- a/crates/base-db/src/source_db.rs
+++ b/crates/base-db/src/source_db.rs
@@ -34,6 +34,9 @@ pub trait SourceDatabase: salsa::Database {
 
     fn file_package_id(&self, id: FileId) -> PackageId;
 
+    /// `None` if the file does not belong to any package, i.e. if it's deleted
+    fn try_file_package_id(&self, id: FileId) -> Option<PackageId>;
+
     fn builtins_file_id(&self) -> Option<FileIdInput>;
 
     fn set_builtins_file_id(&mut self, id: Option<FileId>);
diff --git a/crates/ide-db/src/root_db.rs b/crates/ide-db/src/root_db.rs
index cf3594a..1a1463a 100644
--- a/crates/ide-db/src/root_db.rs
+++ b/crates/ide-db/src/root_db.rs
@@ -86,6 +86,10 @@ impl SourceDatabase for RootDatabase {
         self.files.file_package_id(self, id)
     }
 
+    fn try_file_package_id(&self, id: FileId) -> Option<PackageId> {
+        self.files.try_file_package_id(self, id)
+    }
+
     fn builtins_file_id(&self) -> Option<FileIdInput> {
         self.builtins_file_id
     }
diff --git a/crates/lang/src/hir_db.rs b/crates/lang/src/hir_db.rs
index 428daf2..0f3280f 100644
--- a/crates/lang/src/hir_db.rs
+++ b/crates/lang/src/hir_db.rs
@@ -194,7 +194,8 @@ pub fn transitive_dep_package_ids(db: &dyn SourceDatabase, package_id: PackageId
             entries.extend(
                 dep_manifest_ids
                     .iter()
-                    .map(|file_id| db.file_package_id(*file_id)),
+                    // manifest could've been deleted before the packages are reloaded
+                    .filter_map(|file_id| db.try_file_package_id(*file_id)),
             );
             entries
         }
diff --git a/crates/project-model/src/aptos_package/load_from_fs.rs b/crates/project-model/src/aptos_package/load_from_fs.rs
index 954e02f..87e8f2d 100644
--- a/crates/project-model/src/aptos_package/load_from_fs.rs
+++ b/crates/project-model/src/aptos_package/load_from_fs.rs
@@ -81,6 +81,10 @@ impl LoadedPackages {
 pub fn load_aptos_packages(ws_manifests: Vec<DiscoveredManifest>) -> LoadedPackages {
     let mut all_reachable_manifests = HashMap::new();
     for ws_manifest in ws_manifests.clone() {
+        if !ws_manifest.move_toml_file.exists() {
+            tracing::info!("{} was deleted", ws_manifest.move_toml_file);
+            continue;
+        }
         let reachable_manifests = collect_reachable_manifests(&ws_manifest);
         all_reachable_manifests.extend(reachable_manifests);
     }
-- 
2.43.0


From beb4f0cb47c7c1aef93e29d0308b7baf928844fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 06/57] fix: apply the new set of packages after they are
 reloaded

---
 crates/aptos-language-server/src/reload.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 5d9921c..6d167e8 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -350,6 +350,11 @@ impl GlobalState {
         }
 
         let mut changes = FileChanges::new();
+        {
+            // set of the packages can change without any of the vfs files being changed
+            let vfs = &self.vfs.read().0;
+            changes.set_package_roots(self.package_root_config.partition_into_package_roots(vfs));
+        }
         changes.set_package_graph(package_graph);
         self.analysis_host.apply_change(changes);
     }
-- 
2.43.0


From 2c66f8240f7af539885ab450afe0fd4588a71f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 07/57] fix: watch nested folders of clients without relative
 glob patterns

---
 crates/aptos-language-server/src/reload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 6d167e8..43dcd43 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -266,7 +266,7 @@ impl GlobalState {
                     folder_root
                         .source_dirs()
                         .iter()
-                        .map(|base| format!("{base}**/*.move"))
+                        .map(|base| format!("{base}/**/*.move"))
                         .collect::<Vec<_>>()
                 })
                 .map(|glob_pattern| FileSystemWatcher {
-- 
2.43.0


From 6eb7580b598ca3fb03c643ffcd14685a8e5cbb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 08/57] fix: non-ASCII text in block comments does not break
 the lexer

---
 crates/syntax/src/parse/lexer/move_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/lexer/move_model.rs b/crates/syntax/src/parse/lexer/move_model.rs
index 813a552..f1a8857 100644
--- a/crates/syntax/src/parse/lexer/move_model.rs
+++ b/crates/syntax/src/parse/lexer/move_model.rs
@@ -541,7 +541,7 @@ fn get_block_comment_len(text: &str) -> usize {
             pos += 2;
             continue;
         }
-        pos += 1;
+        pos += curr.len_utf8();
     }
 
     2 + pos
-- 
2.43.0


From b2ab73772dd348229b9a52cb9b61461de7b8bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 09/57] fix: negative numbers after return, abort, break and ..

---
 crates/syntax/src/parse/grammar/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/expressions.rs b/crates/syntax/src/parse/grammar/expressions.rs
index 61c8a07..5296ef0 100644
--- a/crates/syntax/src/parse/grammar/expressions.rs
+++ b/crates/syntax/src/parse/grammar/expressions.rs
@@ -372,7 +372,7 @@ pub(crate) struct Restrictions {
 }
 
 pub(crate) const EXPR_FIRST: TokenSet =
-    atom::ATOM_EXPR_FIRST.union(TokenSet::new(&[T![&], T![*], T![!]]));
+    atom::ATOM_EXPR_FIRST.union(TokenSet::new(&[T![&], T![*], T![!], T![-]]));
 
 pub(crate) const STMT_FIRST: TokenSet = EXPR_FIRST.union(TokenSet::new(&[T![let]]));
 
-- 
2.43.0


From 022ab1f1c420c966286e7e8929712f182150d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 10/57] fix: || after an is expression is the logical operator

---
 crates/syntax/src/parse/grammar/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/expressions.rs b/crates/syntax/src/parse/grammar/expressions.rs
index 5296ef0..90e8326 100644
--- a/crates/syntax/src/parse/grammar/expressions.rs
+++ b/crates/syntax/src/parse/grammar/expressions.rs
@@ -97,7 +97,8 @@ fn is_expr(p: &mut Parser, lhs: CompletedMarker) -> CompletedMarker {
     let m = lhs.precede(p);
     p.bump_remap(T![is]);
     types::type_(p);
-    while p.eat(T![|]) {
+    // `||` is the operator, it is not followed by another variant
+    while !p.at(T![||]) && p.eat(T![|]) {
         types::type_(p);
     }
     m.complete(p, IS_EXPR)
-- 
2.43.0


From f59c5a0d82f25085351569139baba5360433f507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 11/57] fix: abilities of a struct without fields

---
 crates/syntax/src/parse/grammar/items/adt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/items/adt.rs b/crates/syntax/src/parse/grammar/items/adt.rs
index 5a900ee..198580c 100644
--- a/crates/syntax/src/parse/grammar/items/adt.rs
+++ b/crates/syntax/src/parse/grammar/items/adt.rs
@@ -20,7 +20,7 @@ pub(super) fn struct_(p: &mut Parser, m: Marker) {
     p.bump(T![struct]);
     name_or_recover(p, adt_name_recovery());
     type_params::opt_type_param_list(p);
-    p.with_recovery_token_set(T!['{'] | T!['('], opt_abilities_list);
+    p.with_recovery_token_set(T!['{'] | T!['('] | T![;], opt_abilities_list);
     match p.current() {
         T!['{'] => {
             p.with_recovery_token(T!['}'], |p| named_field_list(p));
-- 
2.43.0


From 160a979acfb5ab1a3d7a2bee2a0589852b8775c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 12/57] fix: do not panic on a module name which starts with
 another token than an address

---
 crates/syntax/src/parse/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar.rs b/crates/syntax/src/parse/grammar.rs
index 6178d03..4b19c9c 100644
--- a/crates/syntax/src/parse/grammar.rs
+++ b/crates/syntax/src/parse/grammar.rs
@@ -83,7 +83,7 @@ pub mod entry_points {
 
 pub(crate) fn module(p: &mut Parser, m: Marker) {
     p.bump(T![module]);
-    if p.nth_at(1, T![::]) {
+    if matches!(p.current(), IDENT | INT_NUMBER) && p.nth_at(1, T![::]) {
         // named address
         any_address(p);
         p.bump(T![::]);
-- 
2.43.0


From 8953aa7dc01b2ff172b7643898abb641a2d44b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 13/57] fix: do not panic on a lemma or behavior predicate
 without arguments

---
 crates/syntax/src/parse/grammar/specs/behavior.rs          | 6 +++++-
 crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/parse/grammar/specs/behavior.rs b/crates/syntax/src/parse/grammar/specs/behavior.rs
index 24d044d..dea9f0f 100644
--- a/crates/syntax/src/parse/grammar/specs/behavior.rs
+++ b/crates/syntax/src/parse/grammar/specs/behavior.rs
@@ -16,7 +16,11 @@ pub(crate) fn behavior_predicate(p: &mut Parser) -> Option<CompletedMarker> {
         let m = p.start();
         p.bump(T![ident]);
         opt_type_arg_list_for_expr(p, false);
-        value_arg_list(p);
+        if p.at(T!['(']) {
+            value_arg_list(p);
+        } else {
+            p.error("expected argument list");
+        }
         let cm = m.complete(p, BEHAVIOR_PREDICATE_EXPR);
         return Some(cm);
     }
diff --git a/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs b/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
index 5e940c9..c72d93a 100644
--- a/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
+++ b/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
@@ -56,7 +56,11 @@ pub(crate) fn apply_lemma(p: &mut Parser) -> bool {
     // lemma path
     atom::path_expr(p);
     // lemma args
-    expressions::value_arg_list(p);
+    if p.at(T!['(']) {
+        expressions::value_arg_list(p);
+    } else {
+        p.error("expected argument list");
+    }
     p.expect(T![;]);
     m.complete(p, APPLY_LEMMA);
     true
-- 
2.43.0


From 257c2bc2337168468992b39260dd146cdb9f50a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 14/57] fix: do not panic on an include with a damaged schema
 before &&

---
 crates/syntax/src/parse/grammar/specs/schemas.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/syntax/src/parse/grammar/specs/schemas.rs b/crates/syntax/src/parse/grammar/specs/schemas.rs
index b84b346..2172a5d 100644
--- a/crates/syntax/src/parse/grammar/specs/schemas.rs
+++ b/crates/syntax/src/parse/grammar/specs/schemas.rs
@@ -123,6 +123,7 @@ fn include_schema_expr(p: &mut Parser) -> Option<()> {
         schema_lit(p);
         if !p.at(T![&&]) {
             p.error_and_recover("expected schema lit", INCLUDE_SCHEMA_RECOVERY_SET);
+            m.complete(p, AND_INCLUDE_EXPR);
             return None;
         }
         p.bump(T![&&]);
-- 
2.43.0


From 0084afec84ad1adb2a658a797629f1d642101529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 15/57] fix: command line diagnostics are printed for files
 after the first one with an error

---
 crates/aptos-language-server/src/cli/diagnostics.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/aptos-language-server/src/cli/diagnostics.rs b/crates/aptos-language-server/src/cli/diagnostics.rs
index bf7be9a..7765393 100644
--- a/crates/aptos-language-server/src/cli/diagnostics.rs
+++ b/crates/aptos-language-server/src/cli/diagnostics.rs
@@ -149,13 +149,12 @@ impl Diagnostics {
 
                     let apply_assists = package_cmd_config.allowed_fix_codes.has_codes_to_apply();
                     if !apply_assists {
-                        found_error = found_error
-                            || self.print_diagnostics_for_a_file(
-                                &db,
-                                &package_cmd_config,
-                                file_id,
-                                &abs_file_path,
-                            );
+                        found_error |= self.print_diagnostics_for_a_file(
+                            &db,
+                            &package_cmd_config,
+                            file_id,
+                            &abs_file_path,
+                        );
                         continue;
                     }
 
-- 
2.43.0


From fcbf5788c56809b8dea5e4352aae7a96debb4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 16/57] fix: disabling and enabling of syntax-error diagnostics

---
 crates/ide-diagnostics/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ide-diagnostics/src/lib.rs b/crates/ide-diagnostics/src/lib.rs
index 0823957..c024a12 100644
--- a/crates/ide-diagnostics/src/lib.rs
+++ b/crates/ide-diagnostics/src/lib.rs
@@ -58,7 +58,7 @@ pub fn syntax_diagnostics(
 ) -> Vec<Diagnostic> {
     let _p = tracing::info_span!("syntax_diagnostics").entered();
 
-    if !config.is_diagnostic_enabled("syntax_error") {
+    if !config.is_diagnostic_enabled("syntax-error") {
         // if config.disabled.contains("syntax-error") {
         return Vec::new();
     }
-- 
2.43.0


From fdb102207ff7a502aaaef5e4ed4a13d2ecbe3d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 17/57] fix: command line fixes keep the line endings of the
 file

---
 crates/aptos-language-server/src/cli/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/cli/utils.rs b/crates/aptos-language-server/src/cli/utils.rs
index 2c76f42..b6007e1 100644
--- a/crates/aptos-language-server/src/cli/utils.rs
+++ b/crates/aptos-language-server/src/cli/utils.rs
@@ -10,6 +10,7 @@ use project_model::aptos_package::load_from_fs;
 use std::fs;
 use std::path::PathBuf;
 use std::sync::Arc;
+use stdext::line_endings::LineEndings;
 use syntax::TextRange;
 use vfs::{FileId, Vfs};
 
@@ -90,7 +91,12 @@ pub(crate) fn write_file_text(
     let abs_file_path = file_path.as_path().unwrap().to_path_buf();
 
     vfs.set_file_contents(file_path, Some(new_file_text.clone().into_bytes()));
-    fs::write(&abs_file_path, new_file_text.clone()).expect("cannot write file");
+    // the text in the database has unix line endings, the file might have others
+    let line_endings = match fs::read_to_string(&abs_file_path) {
+        Ok(old_file_text) => LineEndings::normalize(old_file_text).1,
+        Err(_) => LineEndings::Unix,
+    };
+    fs::write(&abs_file_path, line_endings.map(new_file_text.clone())).expect("cannot write file");
 }
 
 pub(super) struct CmdPath {
-- 
2.43.0


From 3a84ff47e3a127e1f44b46ca3ae087d55fa7505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 18/57] fix: bounds of a for loop do not refer to its variable

---
 crates/ide-db/src/search.rs                | 9 +++------
 crates/lang/src/nameres/name_resolution.rs | 9 +++++++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 18bec57..112574a 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -152,12 +152,9 @@ fn ident_pat_search_scope(db: &RootDatabase, ident_pat: InFile<ast::IdentPat>) -
             let fun = ident_pat.and_then(|it| it.syntax().containing_function())?;
             Some(SearchScope::from_file_range(fun.syntax().file_range()))
         }
-        IdentPatOwner::ForCondition(for_condition) => {
-            let for_body_expr = for_condition.for_expr().loop_body_expr()?;
-            Some(SearchScope::from_file_range(
-                for_body_expr.in_file(file_id).file_range(),
-            ))
-        }
+        IdentPatOwner::ForCondition(for_condition) => Some(SearchScope::from_file_range(
+            for_condition.for_expr().in_file(file_id).file_range(),
+        )),
         IdentPatOwner::MatchArm(match_arm) => Some(SearchScope::from_file_range(
             match_arm.in_file(file_id).file_range(),
         )),
diff --git a/crates/lang/src/nameres/name_resolution.rs b/crates/lang/src/nameres/name_resolution.rs
index 1915c1b..4021b7d 100644
--- a/crates/lang/src/nameres/name_resolution.rs
+++ b/crates/lang/src/nameres/name_resolution.rs
@@ -54,6 +54,15 @@ pub fn get_entries_from_walking_scopes(
         {
             continue;
         }
+        // bounds of the `for` loop are evaluated outside of the loop
+        if let Some(for_expr) = resolve_scope.value.cast::<ast::ForExpr>()
+            && for_expr
+                .for_condition()
+                .and_then(|it| it.expr())
+                .is_some_and(|it| it.syntax().text_range().contains(start_at_offset))
+        {
+            continue;
+        }
 
         let block_entries = resolve_scope
             .syntax_cast::<ast::BlockExpr>()
-- 
2.43.0


From 55ec44417f7c06ba90c81b6b6a0ef0e3ef7b496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 19/57] fix: type parameters hide enums and positional structs
 of their name

---
 crates/lang/src/nameres/name_resolution.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/nameres/name_resolution.rs b/crates/lang/src/nameres/name_resolution.rs
index 4021b7d..74af724 100644
--- a/crates/lang/src/nameres/name_resolution.rs
+++ b/crates/lang/src/nameres/name_resolution.rs
@@ -7,7 +7,7 @@
 use crate::hir_db::get_modules_in_file;
 use crate::nameres::address::Address;
 use crate::nameres::blocks::get_entries_in_block;
-use crate::nameres::namespaces::{Ns, NsSet};
+use crate::nameres::namespaces::{ITEM_TYPE_NS, Ns, NsSet};
 use crate::nameres::path_resolution::ResolutionContext;
 use crate::nameres::resolve_scopes;
 use crate::nameres::scope::{NamedItemsInFileExt, ScopeEntry};
@@ -99,6 +99,10 @@ pub fn get_entries_from_walking_scopes(
                 continue;
             }
             visited_names.insert(ns_pair);
+            if ITEM_TYPE_NS.contains(entry_ns) {
+                // structs, enums and type parameters shadow each other
+                visited_names.extend(ITEM_TYPE_NS.iter().map(|ns| (ns, scope_entry.name.as_str())));
+            }
 
             entries.push(scope_entry.clone());
         }
-- 
2.43.0


From 31f23e6155a2fcc9b09cff548290109371a13460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 20/57] fix: ranges of quantified variables do not refer to the
 variables

---
 crates/lang/src/nameres/name_resolution.rs | 28 +++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/nameres/name_resolution.rs b/crates/lang/src/nameres/name_resolution.rs
index 74af724..0901a6a 100644
--- a/crates/lang/src/nameres/name_resolution.rs
+++ b/crates/lang/src/nameres/name_resolution.rs
@@ -19,7 +19,7 @@ use rustc_hash::FxHashSet;
 use syntax::SyntaxKind;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
 use syntax::files::InFile;
-use syntax::{AstNode, SyntaxNode, ast};
+use syntax::{AstNode, SyntaxNode, TextSize, ast};
 
 pub struct WalkScopesCtx {
     pub allowed_ns: NsSet,
@@ -64,6 +64,10 @@ pub fn get_entries_from_walking_scopes(
             continue;
         }
 
+        // range of a quantified variable is evaluated before the variable itself and those after it
+        let quant_binding_start = get_quant_binding_with_range(&resolve_scope.value, start_at_offset)
+            .map(|it| it.syntax().text_range().start());
+
         let block_entries = resolve_scope
             .syntax_cast::<ast::BlockExpr>()
             .map(|block_expr| get_entries_in_block(db, block_expr, start_at))
@@ -89,6 +93,10 @@ pub fn get_entries_from_walking_scopes(
                 continue;
             }
 
+            if quant_binding_start.is_some_and(|it| it <= scope_entry.node_loc.text_range().start()) {
+                continue;
+            }
+
             let entry_ns = scope_entry.ns;
             if !walk_ctx.allowed_ns.contains(entry_ns) {
                 continue;
@@ -110,6 +118,24 @@ pub fn get_entries_from_walking_scopes(
     entries
 }
 
+fn get_quant_binding_with_range(scope: &SyntaxNode, offset: TextSize) -> Option<ast::QuantBinding> {
+    let quant_bindings = match scope.kind() {
+        SyntaxKind::FORALL_EXPR | SyntaxKind::EXISTS_EXPR => {
+            scope.cast::<ast::QuantExpr>()?.quant_bindings()
+        }
+        SyntaxKind::CHOOSE_EXPR => scope
+            .cast::<ast::ChooseExpr>()?
+            .quant_binding()
+            .into_iter()
+            .collect(),
+        _ => return None,
+    };
+    quant_bindings.into_iter().find(|it| {
+        it.expr()
+            .is_some_and(|range| range.syntax().text_range().contains(offset))
+    })
+}
+
 pub fn get_modules_as_entries(
     db: &dyn SourceDatabase,
     package_id: PackageId,
-- 
2.43.0


From 73a542f898d45c6f0da8abefb1f8f772ecdd73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 21/57] fix: lets of a spec block which is inside of another
 let

---
 crates/lang/src/nameres/blocks.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/nameres/blocks.rs b/crates/lang/src/nameres/blocks.rs
index ac83d35..668c6e1 100644
--- a/crates/lang/src/nameres/blocks.rs
+++ b/crates/lang/src/nameres/blocks.rs
@@ -24,6 +24,7 @@ pub fn get_entries_in_block<'db>(
 
     let is_msl = block_expr.is_msl();
 
+    let block = block_expr.value.syntax().clone();
     let block_loc = SyntaxLocInput::new(db, block_expr.loc());
     if is_msl {
         entries.extend(block_inline_functions(db, block_loc).iter());
@@ -31,8 +32,14 @@ pub fn get_entries_in_block<'db>(
 
     let let_stmts = let_stmts_with_bindings_tracked(db, block_loc);
 
+    // `let` statement of this block (and not of the outer or inner ones) the `start_at` is in,
     // make it lazy to not call it in non-msl case (most common)
-    let current_let_stmt = LazyCell::new(|| start_at.ancestor_or_self::<ast::LetStmt>());
+    let current_let_stmt = LazyCell::new(|| {
+        start_at.ancestors().filter_map(ast::LetStmt::cast).find(|it| {
+            let owner_block = it.syntax().ancestors().find(|it| ast::BlockExpr::can_cast(it.kind()));
+            owner_block.as_ref() == Some(&block)
+        })
+    });
     let bindings = let_stmts.iter().filter(|(let_stmt_info, _)| {
         if !is_msl {
             return let_stmt_info.strictly_before(start_at_offset);
-- 
2.43.0


From d6b72670ddf337d2dbf59b40699d1f5004b20889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:09 +0000
Subject: [PATCH 22/57] fix: renaming of a variable from a struct pattern
 shorthand keeps the field

---
 crates/ide-db/src/rename.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index 6dc0581..e9a88eb 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -11,6 +11,7 @@ use crate::{RootDatabase, search};
 use base_db::SourceDatabase;
 use lang::Semantics;
 use std::fmt;
+use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
 use syntax::files::InFile;
 use syntax::{AstNode, SyntaxKind, TextRange, ast};
 
@@ -187,6 +188,15 @@ fn source_edit_from_def(named_element: ast::NamedElement, new_name: &str) -> Res
     let mut edit = TextEdit::builder();
 
     let old_name_range = named_element.name().unwrap().syntax().text_range();
+    if let ast::NamedElement::IdentPat(ident_pat) = &named_element
+        && let Some(pat_field) = ident_pat.syntax().parent_of_type::<ast::StructPatField>()
+        && pat_field.is_shorthand()
+    {
+        // Foo { field } -> Foo { field: new_name }
+        //            ^ insert `: new_name`
+        edit.insert(old_name_range.end(), format!(": {new_name}"));
+        return Ok(edit.finish());
+    }
     edit.replace(old_name_range, new_name.to_string());
     Ok(edit.finish())
 }
-- 
2.43.0


From a672d7b562fa26f22145278cac3fcd7e35df940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 23/57] fix: usages of fields in other modules

---
 crates/ide-db/src/search.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 112574a..b02c2da 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -116,13 +116,6 @@ pub fn item_search_scope(db: &RootDatabase, named_item: &InFile<ast::NamedElemen
         }
     }
 
-    // accessible only in the module it was defined in (and in specs)
-    if let Some(named_field) = named_item.cast_into_ref::<ast::NamedField>() {
-        if let Some(containing_module) = named_field.and_then(|it| it.syntax().containing_module()) {
-            return SearchScope::from_module_and_module_spec(db, containing_module);
-        }
-    }
-
     SearchScope::from_reverse_dependencies(db, package_id)
 }
 
-- 
2.43.0


From 24de7c865c18ef270c238502828fa3d06359aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 24/57] fix: usages and renaming in a field shorthand of a
 literal

---
 crates/ide-db/src/defs.rs   | 28 +++++++++++++++++++++-------
 crates/ide-db/src/rename.rs | 24 +++++++++++++++++-------
 crates/ide-db/src/search.rs |  6 +++---
 crates/ide/src/rename.rs    |  6 +++---
 4 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/crates/ide-db/src/defs.rs b/crates/ide-db/src/defs.rs
index 5b08f2e..4cea114 100644
--- a/crates/ide-db/src/defs.rs
+++ b/crates/ide-db/src/defs.rs
@@ -6,7 +6,8 @@
 
 use crate::{RootDatabase, SymbolKind, ast_kind_to_symbol_kind};
 use lang::Semantics;
-use lang::nameres::scope::{VecExt, into_field_shorthand_items};
+use lang::loc::SyntaxLocFileExt;
+use lang::nameres::scope::VecExt;
 use std::collections::HashSet;
 use std::sync::LazyLock;
 use syntax::SyntaxKind::*;
@@ -157,9 +158,10 @@ impl NameClass {
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum NameRefClass {
     Definition(Definition),
+    /// `field` in `Foo { field }`, any of those can be unresolved (but not both).
     FieldShorthand {
-        ident_pat: InFile<ast::IdentPat>,
-        named_field: InFile<ast::NamedField>,
+        value: Option<InFile<ast::NamedElement>>,
+        named_field: Option<InFile<ast::NamedField>>,
     },
 }
 
@@ -181,10 +183,22 @@ impl NameRefClass {
                         named_field.map_into(),
                     )))
                 }
-                ast::StructLitFieldKind::Shorthand { struct_field: _, path } => {
-                    let entries = sema.resolve(path);
-                    let (named_field, ident_pat) = into_field_shorthand_items(sema.db, entries)?;
-                    Some(NameRefClass::FieldShorthand { ident_pat, named_field })
+                ast::StructLitFieldKind::Shorthand { struct_field, path } => {
+                    let mut entries = sema.resolve(path);
+                    let named_field =
+                        sema.resolve_to_element::<ast::NamedField>(sema.wrap_node_infile(struct_field));
+                    if let Some(named_field) = &named_field {
+                        let field_loc = named_field.loc();
+                        let field_pos = entries.iter().rposition(|it| it.node_loc == field_loc);
+                        field_pos.map(|it| entries.remove(it));
+                    }
+                    let value = entries
+                        .single_or_none()
+                        .and_then(|it| it.node_loc.to_ast::<ast::NamedElement>(sema.db));
+                    if value.is_none() && named_field.is_none() {
+                        return None;
+                    }
+                    Some(NameRefClass::FieldShorthand { value, named_field })
                 }
             };
         }
diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index e9a88eb..fdc746d 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -4,6 +4,7 @@
 // This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
 // Modifications have been made to the original code.
 
+use crate::defs::NameRefClass;
 use crate::search::{FileReference, FileReferenceNode};
 use crate::source_change::SourceChange;
 use crate::text_edit::{TextEdit, TextEditBuilder};
@@ -58,7 +59,7 @@ pub fn rename_named_element<'db>(
     let usages = search::item_usages(sema, named_element.clone()).fetch_all();
 
     for (file_id, references) in usages.iter() {
-        let text_edit = source_edit_from_references(references, named_element.value.clone(), new_name);
+        let text_edit = source_edit_from_references(sema, references, &named_element, new_name);
         source_change.insert_source_edit(file_id, text_edit);
     }
 
@@ -73,15 +74,16 @@ pub fn rename_named_element<'db>(
 }
 
 pub fn source_edit_from_references(
+    sema: &Semantics<'_, RootDatabase>,
     references: &[FileReference],
-    named_element: ast::NamedElement,
+    named_element: &InFile<ast::NamedElement>,
     new_name: &str,
 ) -> TextEdit {
     let mut edit = TextEdit::builder();
     for &FileReference { range, ref name, .. } in references {
         let has_emitted_edit = match name {
             FileReferenceNode::NameRef(name_ref) => {
-                source_edit_from_name_ref(&mut edit, name_ref, &new_name, &named_element)
+                source_edit_from_name_ref(sema, &mut edit, name_ref, &new_name, named_element)
             }
             FileReferenceNode::Name(name) => source_edit_from_name(&mut edit, name, &new_name),
         };
@@ -109,10 +111,11 @@ fn source_edit_from_name(
 }
 
 fn source_edit_from_name_ref(
+    sema: &Semantics<'_, RootDatabase>,
     edit: &mut TextEditBuilder,
     name_ref: &ast::NameRef,
     new_name: &dyn fmt::Display,
-    named_element: &ast::NamedElement,
+    named_element: &InFile<ast::NamedElement>,
 ) -> bool {
     if let Some(struct_lit_field_kind) = name_ref.try_into_struct_lit_field() {
         match struct_lit_field_kind {
@@ -135,15 +138,22 @@ fn source_edit_from_name_ref(
                 }
             }
             ast::StructLitFieldKind::Shorthand { .. } => {
-                match named_element {
-                    ast::NamedElement::NamedField(_) => {
+                let Some(NameRefClass::FieldShorthand { value, named_field }) =
+                    NameRefClass::classify(sema, name_ref)
+                else {
+                    return false;
+                };
+                let is_value = value.is_some_and(|it| it == *named_element);
+                let is_field = named_field.is_some_and(|it| it.map_into() == *named_element);
+                match (is_field, is_value) {
+                    (true, false) => {
                         // Foo { field } -> Foo { new_name: field }
                         //       ^ insert `new_name: `
                         let offset = name_ref.syntax().text_range().start();
                         edit.insert(offset, format!("{new_name}: "));
                         return true;
                     }
-                    ast::NamedElement::IdentPat(_) => {
+                    (false, true) => {
                         // Foo { field } -> Foo { field: new_name }
                         //            ^ insert `: new_name`
                         let offset = name_ref.syntax().text_range().end();
diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index b02c2da..d221d07 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -449,9 +449,9 @@ impl<'a> FindUsages<'a> {
                 };
                 sink(file_id, reference)
             }
-            Some(NameRefClass::FieldShorthand { ident_pat, named_field })
-                if self.named_item == ident_pat.clone().map_into()
-                    || self.named_item == named_field.clone().map_into() =>
+            Some(NameRefClass::FieldShorthand { value, named_field })
+                if value.as_ref() == Some(&self.named_item)
+                    || named_field.clone().map(|it| it.map_into()).as_ref() == Some(&self.named_item) =>
             {
                 let FileRange { file_id, range } = self.sema.file_range(name_ref.syntax());
                 let reference = FileReference {
diff --git a/crates/ide/src/rename.rs b/crates/ide/src/rename.rs
index 3d5aac9..bc00f5f 100644
--- a/crates/ide/src/rename.rs
+++ b/crates/ide/src/rename.rs
@@ -90,9 +90,9 @@ fn find_definition(
                 NameRefClass::Definition(Definition::BuiltinType) => {
                     bail!("Cannot rename built-in type.");
                 }
-                NameRefClass::FieldShorthand { ident_pat, named_field: _ } => {
-                    ident_pat.map(|it| it.into())
-                }
+                NameRefClass::FieldShorthand { value, named_field } => value
+                    .or_else(|| named_field.map(|it| it.map_into()))
+                    .ok_or_else(|| format_err!("No references found at position"))?,
             };
 
             // if the name differs from the definitions name it has to be an alias
-- 
2.43.0


From 027a7dc428d159f186a75649cfc3c87533307ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 25/57] revert changes of the grammar of specs

---
 crates/syntax/src/parse/grammar/specs/behavior.rs          | 6 +-----
 crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs | 6 +-----
 crates/syntax/src/parse/grammar/specs/schemas.rs           | 1 -
 3 files changed, 2 insertions(+), 11 deletions(-)

diff --git a/crates/syntax/src/parse/grammar/specs/behavior.rs b/crates/syntax/src/parse/grammar/specs/behavior.rs
index dea9f0f..24d044d 100644
--- a/crates/syntax/src/parse/grammar/specs/behavior.rs
+++ b/crates/syntax/src/parse/grammar/specs/behavior.rs
@@ -16,11 +16,7 @@ pub(crate) fn behavior_predicate(p: &mut Parser) -> Option<CompletedMarker> {
         let m = p.start();
         p.bump(T![ident]);
         opt_type_arg_list_for_expr(p, false);
-        if p.at(T!['(']) {
-            value_arg_list(p);
-        } else {
-            p.error("expected argument list");
-        }
+        value_arg_list(p);
         let cm = m.complete(p, BEHAVIOR_PREDICATE_EXPR);
         return Some(cm);
     }
diff --git a/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs b/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
index c72d93a..5e940c9 100644
--- a/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
+++ b/crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
@@ -56,11 +56,7 @@ pub(crate) fn apply_lemma(p: &mut Parser) -> bool {
     // lemma path
     atom::path_expr(p);
     // lemma args
-    if p.at(T!['(']) {
-        expressions::value_arg_list(p);
-    } else {
-        p.error("expected argument list");
-    }
+    expressions::value_arg_list(p);
     p.expect(T![;]);
     m.complete(p, APPLY_LEMMA);
     true
diff --git a/crates/syntax/src/parse/grammar/specs/schemas.rs b/crates/syntax/src/parse/grammar/specs/schemas.rs
index 2172a5d..b84b346 100644
--- a/crates/syntax/src/parse/grammar/specs/schemas.rs
+++ b/crates/syntax/src/parse/grammar/specs/schemas.rs
@@ -123,7 +123,6 @@ fn include_schema_expr(p: &mut Parser) -> Option<()> {
         schema_lit(p);
         if !p.at(T![&&]) {
             p.error_and_recover("expected schema lit", INCLUDE_SCHEMA_RECOVERY_SET);
-            m.complete(p, AND_INCLUDE_EXPR);
             return None;
         }
         p.bump(T![&&]);
-- 
2.43.0


From 05adf51e86cdb0f944d5c0c3c065cbc0389a77f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 26/57] fix: do not panic on a lemma or behavior predicate
 without an argument list

---
 crates/syntax/src/parse/grammar/expressions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/expressions.rs b/crates/syntax/src/parse/grammar/expressions.rs
index 90e8326..0cce22b 100644
--- a/crates/syntax/src/parse/grammar/expressions.rs
+++ b/crates/syntax/src/parse/grammar/expressions.rs
@@ -302,7 +302,10 @@ fn index_expr(p: &mut Parser, lhs: CompletedMarker) -> CompletedMarker {
 }
 
 pub(crate) fn value_arg_list(p: &mut Parser) {
-    assert!(p.at(T!['(']));
+    if !p.at(T!['(']) {
+        p.error("expected argument list");
+        return;
+    }
     let m = p.start();
     p.bump(T!['(']);
     delimited_with_recovery(
-- 
2.43.0


From f22a0ff326f8d0d5c54e2955e6a62742a135e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 27/57] fix: do not panic on moving an import which is not
 indented

---
 crates/syntax/src/syntax_editor/syntax_editor_ext.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/syntax/src/syntax_editor/syntax_editor_ext.rs b/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
index a7db036..30393ba 100644
--- a/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
+++ b/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
@@ -10,8 +10,7 @@ impl SyntaxEditor {
         self.insert_all(
             Position::after(relative_to.syntax()),
             vec![
-                make.newline().syntax_element(),
-                make.whitespace(&indent_level.to_string()).syntax_element(),
+                make.whitespace(&format!("\n{indent_level}")).syntax_element(),
                 element.syntax_element(),
             ],
         );
-- 
2.43.0


From b9f4e3da1d6742b45e8e963737a7ca64583da263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 28/57] fix: report unused imports of module specs in the files
 they are in

---
 crates/ide-diagnostics/src/handlers/unused_import.rs | 5 +++--
 crates/ide-diagnostics/src/lib.rs                    | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import.rs b/crates/ide-diagnostics/src/handlers/unused_import.rs
index e74ef6b..f0a25bb 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import.rs
@@ -35,9 +35,10 @@ pub(crate) fn find_unused_imports(
     }
 
     let db = ctx.sema.db;
+    let own_use_stmts = use_stmts_owner.as_ref().flat_map(|it| it.use_stmts());
 
     let unused_use_items_in_scope = find_unused_use_items(db, &use_stmts_owner).unwrap_or_default();
-    for use_stmt in hir_db::combined_use_stmts(db, &use_stmts_owner) {
+    for use_stmt in own_use_stmts.clone() {
         let stmt_use_items = unused_use_items_in_scope
             .iter()
             .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
@@ -48,7 +49,7 @@ pub(crate) fn find_unused_imports(
 
     let unused_scoped_use_items =
         find_use_items_with_redundant_main_scope(db, &use_stmts_owner).unwrap_or_default();
-    for use_stmt in hir_db::combined_use_stmts(db, &use_stmts_owner) {
+    for use_stmt in own_use_stmts {
         let unused_use_items_for_current_stmt = unused_scoped_use_items
             .iter()
             .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
diff --git a/crates/ide-diagnostics/src/lib.rs b/crates/ide-diagnostics/src/lib.rs
index c024a12..25328bb 100644
--- a/crates/ide-diagnostics/src/lib.rs
+++ b/crates/ide-diagnostics/src/lib.rs
@@ -116,6 +116,13 @@ pub fn semantic_diagnostics(
                 module.in_file(file_id).map_into(),
             );
         }
+        if let Some(module_spec) = node.clone().cast::<ast::ModuleSpec>() {
+            handlers::unused_import::find_unused_imports(
+                &mut acc,
+                &ctx,
+                module_spec.in_file(file_id).map_into(),
+            );
+        }
         if let Some(block_expr) = node.clone().cast::<ast::BlockExpr>() {
             handlers::unused_import::find_unused_imports(
                 &mut acc,
-- 
2.43.0


From caa3d74213aff8a6daac755e3d4bdfcdfcd09468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 29/57] fix: imports used through variants of enums are not
 unused

---
 .../src/handlers/unused_import/use_items.rs   | 55 ++++++++++---------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
index b956624..aff0009 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
@@ -2,6 +2,7 @@ use base_db::SourceDatabase;
 use lang::hir_db;
 use lang::item_scope::ItemScope;
 use lang::loc::SyntaxLocFileExt;
+use lang::nameres;
 use lang::nameres::use_speck_entries::{UseItem, UseItemType};
 use std::collections::HashSet;
 use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
@@ -47,7 +48,7 @@ fn find_use_item_hit_for_path(
                 use_item.declared_scope == ItemScope::Main
                     || specific_path_item_scope.is_some_and(|it| use_item.declared_scope == it)
             });
-        let use_items_hit_in_owner = find_use_items_hit(owner_use_items, &base_path_type);
+        let use_items_hit_in_owner = find_use_items_hit(db, owner_use_items, &base_path_type);
 
         // first try to find a candidate in the specific scope
         let use_item_hit = specific_path_item_scope
@@ -72,6 +73,7 @@ fn find_use_item_hit_for_path(
 }
 
 fn find_use_items_hit<'a>(
+    db: &dyn SourceDatabase,
     use_items: impl Iterator<Item = &'a UseItem>,
     path_type: &'a BasePathType,
 ) -> Vec<&'a UseItem> {
@@ -79,49 +81,50 @@ fn find_use_items_hit<'a>(
         BasePathType::Item { item_name } => use_items
             .filter(|it| it.type_ == UseItemType::Item && it.alias_or_name.eq(item_name))
             .collect(),
-        BasePathType::Module { module_name } => use_items
+        BasePathType::ModuleOrEnum { name } => use_items
+            .filter(|it| it.alias_or_name.eq(name))
             .filter(|it| {
                 matches!(it.type_, UseItemType::Module | UseItemType::SelfModule)
-                    && it.alias_or_name.eq(module_name)
+                    || is_enum_use_item(db, it)
             })
             .collect(),
         _ => vec![],
     }
 }
 
+fn is_enum_use_item(db: &dyn SourceDatabase, use_item: &UseItem) -> bool {
+    use_item
+        .use_speck(db)
+        .and_then(|it| it.and_then(|speck| speck.path()))
+        .and_then(|path| nameres::resolve_no_inf_cast::<ast::Enum>(db, path))
+        .is_some()
+}
+
 #[derive(Debug)]
 enum BasePathType {
     Address,
-    Module { module_name: String },
+    ModuleOrEnum { name: String },
     Item { item_name: String },
 }
 
 impl BasePathType {
     fn for_path(db: &dyn SourceDatabase, path: &ast::Path) -> Option<BasePathType> {
         let root_path = path.root_path();
-        let qualifier = root_path.qualifier();
-        match qualifier {
-            // foo
-            None => Some(BasePathType::Item {
-                item_name: root_path.reference_name()?,
-            }),
+        let base_path = root_path.base_path();
+        if base_path.path_address().is_some() {
             // 0x1::foo
-            Some(qualifier) if qualifier.path_address().is_some() => Some(BasePathType::Address),
-            Some(qualifier) => {
-                let parent_qualifier = qualifier.qualifier();
-                // addr::m::foo
-                if let Some(parent_qualifier) = parent_qualifier
-                    && let Some(parent_name) = parent_qualifier.reference_name()
-                    && hir_db::named_addresses(db).contains_key(&parent_name)
-                {
-                    Some(BasePathType::Address)
-                } else {
-                    // mod::foo
-                    Some(BasePathType::Module {
-                        module_name: qualifier.reference_name()?,
-                    })
-                }
-            }
+            return Some(BasePathType::Address);
+        }
+        let base_name = base_path.reference_name()?;
+        match root_path.segments().len() {
+            // foo
+            1 => Some(BasePathType::Item { item_name: base_name }),
+            // mod::foo, Enum::Variant
+            2 => Some(BasePathType::ModuleOrEnum { name: base_name }),
+            // addr::m::foo
+            _ if hir_db::named_addresses(db).contains_key(&base_name) => Some(BasePathType::Address),
+            // mod::Enum::Variant
+            _ => Some(BasePathType::ModuleOrEnum { name: base_name }),
         }
     }
 }
-- 
2.43.0


From 0e6be7d26160f875c0b2e3e1fdd68af358f80a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 30/57] fix: a use item is hit in the file of the path before
 the sibling module

---
 .../src/handlers/unused_import/use_items.rs                | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
index aff0009..c90f791 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
@@ -48,7 +48,12 @@ fn find_use_item_hit_for_path(
                 use_item.declared_scope == ItemScope::Main
                     || specific_path_item_scope.is_some_and(|it| use_item.declared_scope == it)
             });
-        let use_items_hit_in_owner = find_use_items_hit(db, owner_use_items, &base_path_type);
+        let mut use_items_hit_in_owner = find_use_items_hit(db, owner_use_items, &base_path_type);
+        // use items of the owner hide those of its siblings
+        let is_own = |it: &&UseItem| it.use_speck_loc.file_id() == path.file_id;
+        if use_items_hit_in_owner.iter().any(is_own) {
+            use_items_hit_in_owner.retain(is_own);
+        }
 
         // first try to find a candidate in the specific scope
         let use_item_hit = specific_path_item_scope
-- 
2.43.0


From 9db3bd4bf6c1f282fa37badd43ada41dbbb51125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 31/57] fix: organizing imports edits every use statement once

---
 .../unused_import/organize_imports.rs         | 141 ++++++++++--------
 1 file changed, 75 insertions(+), 66 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs b/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
index 15470c0..5f0cb48 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
@@ -2,15 +2,13 @@
 // SPDX-License-Identifier: Apache-2.0
 
 use crate::handlers::reduced_scope_import::find_use_items_with_redundant_main_scope;
-use crate::handlers::unused_import::{
-    UnusedUseKind, UnusedUseStmtKind, find_unused_use_items, unused_use_kind,
-};
+use crate::handlers::unused_import::{UnusedUseKind, find_unused_use_items, unused_use_kind};
 use base_db::SourceDatabase;
 use ide_db::RootDatabase;
 use ide_db::assist_context::LocalAssists;
 use ide_db::assists::{Assist, AssistResolveStrategy};
 use lang::Semantics;
-use lang::loc::SyntaxLocFileExt;
+use lang::loc::{SyntaxLoc, SyntaxLocFileExt};
 use syntax::ast::UseStmtsOwner;
 use syntax::ast::edit::AstNodeEdit;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
@@ -46,96 +44,107 @@ fn organize_imports_in_stmts_owner(
     editor: &mut SyntaxEditor,
 ) -> Option<()> {
     let unused_use_items = find_unused_use_items(db, &use_stmts_owner)?;
+    let redundant_main_scope_use_items = find_use_items_with_redundant_main_scope(db, &use_stmts_owner)?;
+
+    // every use stmt is edited once, edits of the same node cannot be combined
     let use_stmts = use_stmts_owner.as_ref().flat_map(|it| it.use_stmts());
     for use_stmt in use_stmts {
         let unused_stmt_use_items = unused_use_items
             .iter()
             .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
             .collect::<Vec<_>>();
-        let unused_use_kind = unused_use_kind(db, use_stmt.clone(), unused_stmt_use_items)?;
-        remove_unused_imports_in_use_stmt(db, use_stmt.value, unused_use_kind, editor);
-    }
+        let unused_stmt_kind = unused_use_kind(db, use_stmt.clone(), unused_stmt_use_items)?;
 
-    let redundant_main_scope_use_items = find_use_items_with_redundant_main_scope(db, &use_stmts_owner)?;
-    let use_stmts = use_stmts_owner.as_ref().flat_map(|it| it.use_stmts());
-    for use_stmt in use_stmts {
         let redundant_scope_use_items = redundant_main_scope_use_items
             .iter()
             .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
             .collect::<Vec<_>>();
-        let unused_use_kind = unused_use_kind(db, use_stmt.clone(), redundant_scope_use_items)?;
-        replace_main_scope_with_test_only(db, use_stmt.value, unused_use_kind, editor);
+        let redundant_scope_kind = unused_use_kind(db, use_stmt.clone(), redundant_scope_use_items)?;
+
+        organize_imports_in_use_stmt(
+            db,
+            use_stmt.value,
+            unused_stmt_kind,
+            redundant_scope_kind,
+            editor,
+        );
     }
 
     Some(())
 }
 
-fn remove_unused_imports_in_use_stmt(
+fn organize_imports_in_use_stmt(
     db: &dyn SourceDatabase,
     use_stmt: ast::UseStmt,
     unused_use_kind: UnusedUseKind,
+    redundant_scope_use_kind: UnusedUseKind,
     editor: &mut SyntaxEditor,
 ) -> Option<()> {
-    match &unused_use_kind {
-        UnusedUseKind::UseStmt { use_stmt, .. } => use_stmt.value.delete(editor),
-        UnusedUseKind::UseSpeck { use_speck_locs } => {
-            if use_stmt.use_speck().is_some_and(|it| it.is_root_self()) {
-                // try to simplify use stmt
-                use_stmt.simplify_root_self(editor);
-                return Some(());
-            }
-            let use_specks = use_speck_locs
-                .iter()
-                .filter_map(|it| it.to_ast::<ast::UseSpeck>(db))
-                .map(|it| it.value)
-                .collect();
-            use_stmt.delete_group_use_specks(editor, use_specks);
+    let unused_use_specks = match unused_use_kind {
+        UnusedUseKind::UseStmt { use_stmt, .. } => {
+            use_stmt.value.delete(editor);
+            return Some(());
         }
-    }
-    Some(())
-}
-
-fn replace_main_scope_with_test_only(
-    db: &dyn SourceDatabase,
-    use_stmt: ast::UseStmt,
-    unused_use_kind: UnusedUseKind,
-    editor: &mut SyntaxEditor,
-) -> Option<()> {
-    match unused_use_kind {
-        UnusedUseKind::UseStmt { use_stmt, kind } => {
-            if kind == UnusedUseStmtKind::EmptyGroup {
-                return None;
-            }
+        UnusedUseKind::UseSpeck { use_speck_locs } => use_specks(db, use_speck_locs),
+    };
+    let test_only_use_specks = match redundant_scope_use_kind {
+        UnusedUseKind::UseStmt { use_stmt, .. } => {
             use_stmt.value.add_attribute(editor, "test_only");
+            return Some(());
         }
-        UnusedUseKind::UseSpeck { use_speck_locs } => {
-            let root_use_speck = use_stmt.use_speck()?;
-            let module_path = root_use_speck.path()?;
-            for use_speck_loc in use_speck_locs {
-                if let Some(use_speck) = use_speck_loc.to_ast::<ast::UseSpeck>(db).map(|it| it.value)
-                    && let Some(use_speck_name_ref) = use_speck.path_name_ref()
-                {
-                    let use_speck_alias = use_speck.use_alias().clone();
-                    use_stmt.delete_group_use_specks(editor, vec![use_speck.clone()]);
+        UnusedUseKind::UseSpeck { use_speck_locs } => use_specks(db, use_speck_locs),
+    };
 
-                    let make = SyntaxFactory::new();
-                    let new_root_use_speck = make.root_use_speck(
-                        module_path.clone(),
-                        Some(use_speck_name_ref.clone()),
-                        use_speck_alias,
-                    );
-                    editor.insert_at_next_line_after(
-                        &use_stmt,
-                        make.use_stmt(vec![make.attr("test_only")], new_root_use_speck)
-                            .indent_inner(use_stmt.indent_level())
-                            .syntax()
-                            .syntax_element(),
-                    );
+    if use_stmt.use_speck().is_some_and(|it| it.is_root_self()) {
+        // try to simplify use stmt
+        use_stmt.simplify_root_self(editor);
+        return Some(());
+    }
+
+    let make = SyntaxFactory::new();
+    let module_path = use_stmt.use_speck()?.path()?;
+    let indent_level = use_stmt.indent_level();
+    let test_only_use_stmts = test_only_use_specks
+        .iter()
+        .filter_map(|use_speck| {
+            let new_root_use_speck = make.root_use_speck(
+                module_path.clone(),
+                Some(use_speck.path_name_ref()?),
+                use_speck.use_alias(),
+            );
+            let test_only_use_stmt = make
+                .use_stmt(vec![make.attr("test_only")], new_root_use_speck)
+                .indent_inner(indent_level);
+            Some(test_only_use_stmt.syntax().syntax_element())
+        })
+        .collect::<Vec<_>>();
 
-                    editor.add_mappings(make.finish_with_mappings());
-                }
+    let removed_use_specks = [unused_use_specks, test_only_use_specks].concat();
+    if removed_use_specks.len() == use_stmt.group_use_specks().len() && !test_only_use_stmts.is_empty() {
+        // nothing is left of the use stmt
+        let mut new_elements = vec![];
+        for test_only_use_stmt in test_only_use_stmts {
+            if !new_elements.is_empty() {
+                new_elements.push(make.whitespace(&format!("\n{indent_level}")).syntax_element());
             }
+            new_elements.push(test_only_use_stmt);
+        }
+        editor.replace_with_many(use_stmt.syntax(), new_elements);
+    } else {
+        use_stmt.delete_group_use_specks(editor, removed_use_specks);
+        for test_only_use_stmt in test_only_use_stmts {
+            editor.insert_at_next_line_after(&use_stmt, test_only_use_stmt);
         }
     }
+    editor.add_mappings(make.finish_with_mappings());
+
     Some(())
 }
+
+fn use_specks(db: &dyn SourceDatabase, use_speck_locs: Vec<SyntaxLoc>) -> Vec<ast::UseSpeck> {
+    use_speck_locs
+        .iter()
+        .filter_map(|it| it.to_ast::<ast::UseSpeck>(db))
+        .map(|it| it.value)
+        .collect()
+}
-- 
2.43.0


From 8d639fe56de4e74a4ee0fa82694bb9e47a2936ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 32/57] fix: a named address can be followed by whitespace

---
 crates/lang/src/nameres/path_kind.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/nameres/path_kind.rs b/crates/lang/src/nameres/path_kind.rs
index db02aba..bf336cc 100644
--- a/crates/lang/src/nameres/path_kind.rs
+++ b/crates/lang/src/nameres/path_kind.rs
@@ -14,9 +14,10 @@ use enumset::enum_set;
 use std::fmt;
 use std::fmt::Formatter;
 use syntax::SyntaxKind::*;
+use syntax::algo::skip_trivia_token;
 use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
-use syntax::{AstNode, SyntaxNode, T, ast};
+use syntax::{AstNode, Direction, SyntaxNode, T, ast};
 
 #[derive(Clone, PartialEq, Eq)]
 pub enum PathKind {
@@ -117,7 +118,7 @@ pub fn path_kind(
     //     ^ qualifier
     let has_trailing_colon_colon = path
         .ident_token()
-        .and_then(|it| it.next_token())
+        .and_then(|it| skip_trivia_token(it.next_token()?, Direction::Next))
         .is_some_and(|token| token.is_kind(T![::]));
 
     let ns = path_namespaces(qualifier.as_ref(), path_parent, is_completion);
-- 
2.43.0


From 4041b1d6aa8e5ba637d4ba0c7a03b62d736e51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 33/57] fix: field shorthand can stand for a field in item
 specs

---
 crates/lang/src/nameres/scope.rs              | 14 +++++++-------
 crates/lang/src/types/inference/ast_walker.rs |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/lang/src/nameres/scope.rs b/crates/lang/src/nameres/scope.rs
index 9d5b3a7..2d4f220 100644
--- a/crates/lang/src/nameres/scope.rs
+++ b/crates/lang/src/nameres/scope.rs
@@ -14,7 +14,7 @@ use std::fmt;
 use std::fmt::Formatter;
 use std::vec::IntoIter;
 use stdx::itertools::Itertools;
-use syntax::SyntaxKind::{IDENT_PAT, NAMED_FIELD};
+use syntax::SyntaxKind::NAMED_FIELD;
 use syntax::files::{InFile, InFileExt};
 use syntax::{AstNode, SyntaxKind, ast};
 use vfs::FileId;
@@ -193,15 +193,15 @@ impl ScopeEntryListExt for Vec<ScopeEntry> {
 pub fn into_field_shorthand_items(
     db: &dyn SourceDatabase,
     mut entries: Vec<ScopeEntry>,
-) -> Option<(InFile<ast::NamedField>, InFile<ast::IdentPat>)> {
+) -> Option<(InFile<ast::NamedField>, InFile<ast::NamedElement>)> {
     if entries.len() != 2 {
         return None;
     }
+    // the field goes last, it can be shorthand for a variable, or (in specs) for a field or a constant
     let named_field = entries
-        .remove(entries.iter().position(|it| it.kind() == NAMED_FIELD)?)
+        .pop()
+        .filter(|it| it.kind() == NAMED_FIELD)?
         .cast_into::<ast::NamedField>(db)?;
-    let ident_pat = entries
-        .remove(entries.iter().position(|it| it.kind() == IDENT_PAT)?)
-        .cast_into::<ast::IdentPat>(db)?;
-    Some((named_field, ident_pat))
+    let named_element = entries.pop()?.cast_into::<ast::NamedElement>(db)?;
+    Some((named_field, named_element))
 }
diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index bcd8c7d..6f7dcfd 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -531,9 +531,9 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         let expected_ty = expected.ty(self.ctx);
         let named_elements = self.ctx.resolve_path_cached_multi(path_expr.path(), expected_ty);
         let named_element = if named_elements.len() == 2 {
-            // if it's field and ident pat, fetch type of ident_pat
-            let (_, ident_pat) = into_field_shorthand_items(self.ctx.db, named_elements.clone())?;
-            ident_pat.map_into()
+            // if it's field and the element it is a shorthand for, fetch type of the element
+            let (_, named_element) = into_field_shorthand_items(self.ctx.db, named_elements.clone())?;
+            named_element
         } else {
             named_elements
                 .single_or_none()?
-- 
2.43.0


From 08d3278e2399d9db6932f4d1ca1b5d4e580b5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 34/57] fix: an expression which never returns fits an integer
 of any kind

`if (c) 1 else abort 2` was reported as a type error and had no type.
---
 crates/lang/src/types/inference/combine_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference/combine_types.rs b/crates/lang/src/types/inference/combine_types.rs
index ff5f57f..40a7a83 100644
--- a/crates/lang/src/types/inference/combine_types.rs
+++ b/crates/lang/src/types/inference/combine_types.rs
@@ -209,8 +209,8 @@ impl InferenceCtx<'_> {
                 self.int_table.unify_var_var(&int_var, &ty_int_var)
             }
             Ty::Integer(_) => self.int_table.unify_var_value(&int_var, ty),
-            Ty::Unknown => {
-                // do nothing, unknown should not influence IntVar
+            Ty::Unknown | Ty::Never => {
+                // do nothing, neither unknown nor never should influence IntVar
             }
             _ => {
                 return Err(CombineError::type_mismatch(
-- 
2.43.0


From 00f62fade7a31f1462ae896796d2880bdb41693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 35/57] fix: type variables of a lambda body are not mixed up
 with others

The body was inferred in a context of its own which numbered its variables from 1 again, so that variables in its type
stood for unrelated variables of the function around it: correct calls were reported with wrong types.
---
 crates/lang/src/types/inference.rs                        | 6 +++++-
 crates/lang/src/types/inference/ast_walker/lambda_expr.rs | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference.rs b/crates/lang/src/types/inference.rs
index 342804b..f5450bb 100644
--- a/crates/lang/src/types/inference.rs
+++ b/crates/lang/src/types/inference.rs
@@ -36,7 +36,7 @@ use syntax::SyntaxKind::{STRUCT, VARIANT};
 use syntax::ast::node_ext::struct_pat_field::PatFieldKind;
 use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
 
-#[derive(Debug, Default)]
+#[derive(Debug, Default, Clone)]
 pub struct TyVarIndex(Cell<usize>);
 
 impl TyVarIndex {
@@ -101,6 +101,10 @@ impl<'db> InferenceCtx<'db> {
     pub fn from_parent_ctx(ctx: &'db InferenceCtx) -> InferenceCtx<'db> {
         let mut new_ctx = Self::new(ctx.db, ctx.file_id, ctx.msl);
         new_ctx.pat_types = ctx.pat_types.clone();
+        // variables of both contexts can occur in the types of either one
+        new_ctx.ty_var_index = ctx.ty_var_index.clone();
+        new_ctx.var_table = ctx.var_table.clone();
+        new_ctx.int_table = ctx.int_table.clone();
         new_ctx
     }
 
diff --git a/crates/lang/src/types/inference/ast_walker/lambda_expr.rs b/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
index 9c0c2cb..4011923 100644
--- a/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
+++ b/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
@@ -33,7 +33,12 @@ impl TypeAstWalker<'_, '_> {
         // // need to infer return type to proceed further
         let lambda_return_ty = if let Some(body_expr) = lambda_expr.body_expr() {
             let mut inner_ctx = InferenceCtx::from_parent_ctx(self.ctx);
-            TypeAstWalker::new(&mut inner_ctx, Ty::Unknown).infer_expr(&body_expr, Expected::NoValue)
+            let body_ty = TypeAstWalker::new(&mut inner_ctx, Ty::Unknown)
+                .infer_expr(&body_expr, Expected::NoValue);
+            let body_ty = inner_ctx.resolve_ty_vars_if_possible(body_ty);
+            let ty_var_index = inner_ctx.ty_var_index;
+            self.ctx.ty_var_index = ty_var_index;
+            body_ty
         } else {
             Ty::Unit
         };
-- 
2.43.0


From f4bb187415704e72bb40c4838c0a21dd52f83c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 36/57] fix: a path which is an index is resolved like any
 other value

Only the base of an index expression can be a resource type.
---
 crates/lang/src/nameres/path_kind.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/nameres/path_kind.rs b/crates/lang/src/nameres/path_kind.rs
index bf336cc..84186c7 100644
--- a/crates/lang/src/nameres/path_kind.rs
+++ b/crates/lang/src/nameres/path_kind.rs
@@ -327,8 +327,15 @@ fn path_namespaces(
 
         PATH_EXPR if path_parent.has_ancestor_or_self::<ast::AttrItem>() => ALL_NS,
 
-        // TYPE | ENUM for resource indexing, NAME for vector indexing
-        PATH_EXPR if path_parent.parent_is::<ast::IndexExpr>() => INDEXABLE_NS,
+        // TYPE | ENUM for resource indexing, NAME for vector indexing (the index itself is a usual expr)
+        PATH_EXPR
+            if path_parent
+                .parent()
+                .and_then(ast::IndexExpr::cast)
+                .is_some_and(|it| it.base_expr().syntax() == &path_parent) =>
+        {
+            INDEXABLE_NS
+        }
 
         PATH_EXPR if path_parent.parent_is::<ast::ApplyLemma>() => enum_set!(Ns::LEMMA),
 
-- 
2.43.0


From 74cd9556732436f578453134787090ebc6b504a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:28 +0000
Subject: [PATCH 37/57] fix: an index of a wrong type is reported

The type of the items was compared with an integer instead of the type of the index.
---
 crates/lang/src/types/inference/ast_walker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index 6f7dcfd..aeb73ce 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -869,7 +869,7 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
                 _ => {
                     self.ctx.coerce_types(
                         arg_expr.node_or_token(),
-                        item_ty.clone(),
+                        arg_ty,
                         if self.ctx.msl { Ty::Num } else { Ty::integer() },
                     );
                     item_ty
-- 
2.43.0


From 8d589c37a492ee6601f747200e91720f0842f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:28 +0000
Subject: [PATCH 38/57] fix: branches of an if are compared by what their type
 variables stand for

With an expected type not known yet (`let y; y = if ..`) references in the branches were not seen, and the expression had no type.
---
 crates/lang/src/types/inference/ast_walker.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index aeb73ce..f31f341 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -984,6 +984,10 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         };
         let actual_else_ty = self.infer_block_or_inline_expr(&else_branch, expected.clone(), false);
 
+        // refs are only seen in the resolved types
+        let actual_if_ty = actual_if_ty.map(|it| self.ctx.resolve_ty_vars_if_possible(it));
+        let actual_else_ty = self.ctx.resolve_ty_vars_if_possible(actual_else_ty);
+
         // try comparing branch types to each other, if they are compatible, then the whole if-else expr is wrong
         let branches_compat = self
             .ctx
-- 
2.43.0


From 589d235bb19c3e91e9c87a037a050e35234397ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:28 +0000
Subject: [PATCH 39/57] fix: operands of bit operations, shifts and minus keep
 their type

The expectation of any integer replaced the type of an operand which is a call or a block, so `id(1u8) & 2` was of type `integer`.
---
 crates/lang/src/types/inference/ast_walker.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index f31f341..bff0901 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -1292,7 +1292,7 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         rhs: Option<ast::Expr>,
         is_compound: bool,
     ) -> Ty {
-        let lhs_ty = self.infer_expr_coerceable_to(&lhs, Ty::integer());
+        let lhs_ty = self.infer_integer_operand(&lhs);
         if let Some(rhs) = rhs {
             self.infer_expr_coerceable_to(&rhs, lhs_ty.clone());
         }
@@ -1305,13 +1305,24 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         rhs: Option<ast::Expr>,
         is_compound: bool,
     ) -> Ty {
-        let lhs_ty = self.infer_expr_coerceable_to(&lhs, Ty::integer());
+        let lhs_ty = self.infer_integer_operand(&lhs);
         if let Some(rhs) = rhs {
             self.infer_expr_coerceable_to(&rhs, Ty::Integer(IntegerKind::U8));
         }
         if is_compound { Ty::Unit } else { lhs_ty }
     }
 
+    /// `Ty::integer()` is not an expectation here: it would replace the actual type of the operand
+    fn infer_integer_operand(&mut self, expr: &ast::Expr) -> Ty {
+        let actual_ty = self.infer_expr(expr, Expected::NoValue);
+        let actual_ty = self.ctx.resolve_ty_vars_if_possible(actual_ty);
+        if !matches!(actual_ty, Ty::Infer(TyInfer::IntVar(_))) {
+            self.ctx
+                .coerce_types(expr.node_or_token(), actual_ty.clone(), Ty::integer());
+        }
+        actual_ty
+    }
+
     fn infer_logic_binary_expr(&mut self, lhs: ast::Expr, rhs: Option<ast::Expr>) -> Ty {
         self.infer_expr_coerceable_to(&lhs, Ty::Bool);
         if let Some(rhs) = rhs {
@@ -1375,7 +1386,7 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
     fn infer_minus_expr(&mut self, minus_expr: &ast::MinusExpr) -> Option<Ty> {
         minus_expr
             .expr()
-            .map(|it| self.infer_expr_coerceable_to(&it, Ty::integer()))
+            .map(|it| self.infer_integer_operand(&it))
     }
 
     pub(crate) fn infer_literal(&mut self, literal: &ast::Literal) -> Ty {
-- 
2.43.0


From 1d9c2150d31a73ab05b040733dec09d5a969be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 40/57] fix: lambda bodies see variables bound by field
 shorthands of patterns

---
 crates/lang/src/types/inference.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lang/src/types/inference.rs b/crates/lang/src/types/inference.rs
index f5450bb..fe12457 100644
--- a/crates/lang/src/types/inference.rs
+++ b/crates/lang/src/types/inference.rs
@@ -101,6 +101,8 @@ impl<'db> InferenceCtx<'db> {
     pub fn from_parent_ctx(ctx: &'db InferenceCtx) -> InferenceCtx<'db> {
         let mut new_ctx = Self::new(ctx.db, ctx.file_id, ctx.msl);
         new_ctx.pat_types = ctx.pat_types.clone();
+        new_ctx.pat_field_types = ctx.pat_field_types.clone();
+        new_ctx.resolved_ident_pats = ctx.resolved_ident_pats.clone();
         // variables of both contexts can occur in the types of either one
         new_ctx.ty_var_index = ctx.ty_var_index.clone();
         new_ctx.var_table = ctx.var_table.clone();
-- 
2.43.0


From 647a8cb1bd154ae8a5cc86b698b76e89f1b71b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 41/57] fix: a parameter without a name yet is no reason to
 panic

---
 crates/syntax/src/ast/node_ext/param.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/syntax/src/ast/node_ext/param.rs b/crates/syntax/src/ast/node_ext/param.rs
index ce0c7e1..c720ef4 100644
--- a/crates/syntax/src/ast/node_ext/param.rs
+++ b/crates/syntax/src/ast/node_ext/param.rs
@@ -22,9 +22,11 @@ impl ast::Param {
         if self.wildcard_pat().is_some() {
             return "_".to_string();
         }
-        // todo: ident_pat can be none
-        let ident_pat = self.ident_pat().unwrap();
-        ident_pat.name().unwrap().as_string()
+        // there's no name in incomplete code
+        self.ident_pat()
+            .and_then(|it| it.name())
+            .map(|it| it.as_string())
+            .unwrap_or_else(|| "_".to_string())
     }
 
     pub fn is_self(&self) -> bool {
-- 
2.43.0


From 77347afcb1c77ed56cf7c1ac6c44d9cffd1a0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 42/57] fix: a let of a spec outside of any block is no reason
 to panic

---
 .../src/handlers/unused_variables.rs          | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_variables.rs b/crates/ide-diagnostics/src/handlers/unused_variables.rs
index a1b89c6..d410aa8 100644
--- a/crates/ide-diagnostics/src/handlers/unused_variables.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_variables.rs
@@ -48,17 +48,14 @@ pub(crate) fn check_unused_ident_pat<'db>(
     if matches!(ident_owner, ast::IdentPatOwner::LetStmt(_)) && ident_pat.is_msl() {
         // if there's an `include` statement anywhere in this block, don't warn
         // NOTE: it should be implement properly, but for now we just do it easy way
-        let outer_block = ident_pat
-            .value
-            .syntax()
-            .ancestor_strict::<ast::BlockExpr>()
-            .expect("LetStmt is always a child of a block");
-        if outer_block
-            .syntax()
-            .descendants_of_type::<ast::IncludeSchema>()
-            .next()
-            .is_some()
-        {
+        // there's no block around the statement in incomplete code
+        let outer_block = ident_pat.value.syntax().ancestor_strict::<ast::BlockExpr>();
+        if outer_block.is_some_and(|it| {
+            it.syntax()
+                .descendants_of_type::<ast::IncludeSchema>()
+                .next()
+                .is_some()
+        }) {
             return None;
         }
     }
-- 
2.43.0


From 90cbdf52cd553f2233f0e23231f1406e628c9ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 43/57] fix: a tuple pattern longer than the tuple is no reason
 to panic

---
 crates/lang/src/types/patterns.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/types/patterns.rs b/crates/lang/src/types/patterns.rs
index 2f79bb7..d33ba50 100644
--- a/crates/lang/src/types/patterns.rs
+++ b/crates/lang/src/types/patterns.rs
@@ -275,7 +275,10 @@ impl TypeAstWalker<'_, '_> {
             let pat_ty = if indx < first_rest_indx {
                 get_type(indx as usize)
             } else if indx > last_rest_indx {
-                get_type(tuple_size - (pats_len - (indx as usize)))
+                // there can be more patterns than elements in the tuple
+                tuple_size
+                    .checked_sub(pats_len - (indx as usize))
+                    .map_or(Ty::Unknown, &get_type)
             } else {
                 Ty::Unknown
             };
-- 
2.43.0


From 2ffe544b27b9cce44e04249261e09dfd025b8c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 44/57] fix: import paths whose address is a decimal number

---
 crates/syntax/src/ast/syntax_factory/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/ast/syntax_factory/paths.rs b/crates/syntax/src/ast/syntax_factory/paths.rs
index eed2d87..cc08591 100644
--- a/crates/syntax/src/ast/syntax_factory/paths.rs
+++ b/crates/syntax/src/ast/syntax_factory/paths.rs
@@ -52,7 +52,7 @@ impl SyntaxFactory {
         let path_segments = import_path
             .split("::")
             .map(|it| {
-                if it.starts_with("0x") {
+                if it.starts_with(|c: char| c.is_ascii_digit()) {
                     self.path_segment_from_value_address(it)
                 } else {
                     self.path_segment_from_name(it)
-- 
2.43.0


From 5151fbba0b838928ef891091f325d27d117746a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 45/57] fix: prepare rename answers the name at the position,
 not the one declared

---
 crates/ide/src/rename.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/ide/src/rename.rs b/crates/ide/src/rename.rs
index bc00f5f..c4221fa 100644
--- a/crates/ide/src/rename.rs
+++ b/crates/ide/src/rename.rs
@@ -23,12 +23,15 @@ pub(crate) fn prepare_rename(db: &RootDatabase, position: FilePosition) -> Renam
     let syntax = source_file.syntax();
 
     let named_element = find_definition(&sema, syntax, position)?;
-    let name = named_element
-        .value
-        .name()
-        .ok_or_else(|| format_err!("No references found at position"))?;
+    if named_element.value.name().is_none() {
+        bail!("No references found at position");
+    }
 
-    Ok(RangeInfo::new(name.syntax().text_range(), ()))
+    // the name at the position, declaration can be elsewhere or in another file
+    let name_like = sema
+        .find_namelike_at_offset(syntax, position.offset)
+        .ok_or_else(|| format_err!("No references found at position"))?;
+    Ok(RangeInfo::new(name_like.syntax().text_range(), ()))
 }
 
 pub(crate) fn rename(
-- 
2.43.0


From 4240f59c9b027435668b9df7228561f39b5ea374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 46/57] fix: an import is not unused because one of another
 namespace has its name

---
 .../src/handlers/unused_import/use_items.rs   | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
index c90f791..fd9c8e6 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
@@ -41,6 +41,7 @@ fn find_use_item_hit_for_path(
         .flat_map(|it| it.syntax().ancestors_of_type::<ast::AnyUseStmtsOwner>());
 
     let base_path_type = BasePathType::for_path(db, &path.value)?;
+    let mut first_hit: Option<UseItem> = None;
     for use_item_owner_ans in use_item_owner_ancestors {
         let owner_use_items = hir_db::combined_use_items(db, use_item_owner_ans)
             .into_iter()
@@ -49,6 +50,12 @@ fn find_use_item_hit_for_path(
                     || specific_path_item_scope.is_some_and(|it| use_item.declared_scope == it)
             });
         let mut use_items_hit_in_owner = find_use_items_hit(db, owner_use_items, &base_path_type);
+        // use items of other namespaces hide nothing
+        let leads_there = |it: &&UseItem| !leads_elsewhere(db, it, &path);
+        let is_followed = use_items_hit_in_owner.iter().any(leads_there);
+        if is_followed {
+            use_items_hit_in_owner.retain(leads_there);
+        }
         // use items of the owner hide those of its siblings
         let is_own = |it: &&UseItem| it.use_speck_loc.file_id() == path.file_id;
         if use_items_hit_in_owner.iter().any(is_own) {
@@ -71,10 +78,25 @@ fn find_use_item_hit_for_path(
             .cloned();
 
         if let Some(use_item_hit) = use_item_hit {
-            return Some((use_item_hit.to_owned(), path_scope));
+            if is_followed {
+                return Some((use_item_hit.to_owned(), path_scope));
+            }
+            first_hit.get_or_insert(use_item_hit.to_owned());
         }
     }
-    None
+    first_hit.map(|it| (it, path_scope))
+}
+
+fn leads_elsewhere(db: &dyn SourceDatabase, use_item: &UseItem, path: &InFile<ast::Path>) -> bool {
+    let base_path = path.as_ref().map(|it| it.root_path().base_path());
+    let Some(path_entry) = nameres::resolve(db, base_path) else {
+        return false;
+    };
+    use_item
+        .use_speck(db)
+        .and_then(|it| it.and_then(|speck| speck.path()))
+        .and_then(|it| nameres::resolve(db, it))
+        .is_none_or(|use_entry| use_entry.node_loc != path_entry.node_loc)
 }
 
 fn find_use_items_hit<'a>(
-- 
2.43.0


From cdeee48473a6052e9b5ca416ffd81ea9b4bd8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 47/57] fix: an annotated expression has the type of the
 annotation

---
 crates/lang/src/types/inference/ast_walker.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index bff0901..5711e2e 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -1379,8 +1379,9 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         let type_ = annotated_expr.type_()?;
         let ty = ty_db::lower_type_for_ctx(self.ctx, type_.in_file(self.ctx.file_id));
 
-        let expr_ty = self.infer_expr_coerceable_to(&expr, ty);
-        Some(expr_ty)
+        let expr_ty = self.infer_expr_coerceable_to(&expr, ty.clone());
+        // the annotation decides, even if the expression is of another type
+        Some(if ty.is_unknown() { expr_ty } else { ty })
     }
 
     fn infer_minus_expr(&mut self, minus_expr: &ast::MinusExpr) -> Option<Ty> {
-- 
2.43.0


From a9a56dde778a6bb7bd3f356bd606cc972797a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 48/57] fix: hover and other requests panicked on structs
 declared in scripts

---
 crates/lang/src/nameres/fq_named_element.rs      | 2 +-
 crates/lang/src/types/ty.rs                      | 2 +-
 crates/lang/src/types/ty/adt.rs                  | 3 +--
 crates/syntax/src/ast/node_ext/struct_or_enum.rs | 7 +++----
 4 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/lang/src/nameres/fq_named_element.rs b/crates/lang/src/nameres/fq_named_element.rs
index fdbe615..9c920a7 100644
--- a/crates/lang/src/nameres/fq_named_element.rs
+++ b/crates/lang/src/nameres/fq_named_element.rs
@@ -110,7 +110,7 @@ impl<T: AstNode> ItemFQNameOwner for InFile<T> {
                     })
                 },
                 ast::StructOrEnum(it) => {
-                    let module_fq_name = it.module().in_file(it_file_id).fq_name(db)?;
+                    let module_fq_name = it.module()?.in_file(it_file_id).fq_name(db)?;
                     let name = it.name()?;
                     Some(ItemFQName::Item {
                         module_fq_name: Box::new(module_fq_name),
diff --git a/crates/lang/src/types/ty.rs b/crates/lang/src/types/ty.rs
index 8291397..07973fb 100644
--- a/crates/lang/src/types/ty.rs
+++ b/crates/lang/src/types/ty.rs
@@ -112,7 +112,7 @@ impl Ty {
         match ty {
             Ty::Adt(ty_adt) => {
                 let item = ty_adt.adt_item_loc.to_ast::<ast::StructOrEnum>(db)?;
-                Some(item.map(|it| it.module()))
+                item.and_then(|it| it.module())
             }
             Ty::Seq(TySequence::Vector(_)) => {
                 let module = get_modules_as_entries(db, current_package_id, Address::named("std"))
diff --git a/crates/lang/src/types/ty/adt.rs b/crates/lang/src/types/ty/adt.rs
index c3f0ad2..7661924 100644
--- a/crates/lang/src/types/ty/adt.rs
+++ b/crates/lang/src/types/ty/adt.rs
@@ -39,8 +39,7 @@ impl TyAdt {
 
     pub fn adt_item_module(&self, db: &dyn SourceDatabase) -> Option<ast::Module> {
         let adt_item = self.adt_item(db)?;
-        let m = adt_item.value.module();
-        Some(m)
+        adt_item.value.module()
     }
 }
 
diff --git a/crates/syntax/src/ast/node_ext/struct_or_enum.rs b/crates/syntax/src/ast/node_ext/struct_or_enum.rs
index ce05829..06520d4 100644
--- a/crates/syntax/src/ast/node_ext/struct_or_enum.rs
+++ b/crates/syntax/src/ast/node_ext/struct_or_enum.rs
@@ -10,10 +10,9 @@ use crate::{AstNode, ast};
 use std::collections::HashSet;
 
 impl ast::StructOrEnum {
-    pub fn module(&self) -> ast::Module {
-        self.syntax()
-            .parent_of_type::<ast::Module>()
-            .expect("required by the parser")
+    /// `None` for the item of a script
+    pub fn module(&self) -> Option<ast::Module> {
+        self.syntax().parent_of_type::<ast::Module>()
     }
 
     pub fn fields(&self) -> Vec<(String, ast::AnyField)> {
-- 
2.43.0


From 2e4048990bf23747dd76dc5c4f0d5395882986c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 49/57] fix: completion of a function imported under an alias
 inserted its original name

---
 crates/ide-completion/src/render/function.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ide-completion/src/render/function.rs b/crates/ide-completion/src/render/function.rs
index db68ecc..6c35b08 100644
--- a/crates/ide-completion/src/render/function.rs
+++ b/crates/ide-completion/src/render/function.rs
@@ -38,8 +38,8 @@ pub(crate) fn render_function(
 
     let (_, fun) = fun.unpack();
 
-    let function_name = fun.name().unwrap().as_string();
-    item_builder.lookup_by(function_name.clone());
+    // could be an alias from the import
+    item_builder.lookup_by(fun_name);
 
     let params = render_params(ctx, fun.clone(), call_ty.clone()).unwrap_or_default();
     let params = match kind {
@@ -47,7 +47,7 @@ pub(crate) fn render_function(
         FunctionKind::Method => params.into_iter().skip(1).collect(),
     };
     let params_line = params.join(", ");
-    item_builder.set_label(format!("{function_name}({params_line})"));
+    item_builder.set_label(format!("{fun_name}({params_line})"));
 
     if let Some(_) = ctx.config.allow_snippets {
         let snippet_parens = if is_use_stmt {
@@ -59,7 +59,7 @@ pub(crate) fn render_function(
                 if has_any_parens { "$0" } else { "($0)" }
             }
         };
-        item_builder.insert_snippet(format!("{function_name}{snippet_parens}"));
+        item_builder.insert_snippet(format!("{fun_name}{snippet_parens}"));
     }
 
     let ret_type = call_ty.ret_type_ty();
-- 
2.43.0


From a7588ff0b52cf1370110c57c5bd6d897309f80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 50/57] fix: completion in specs offered to import private
 items of other modules

---
 .../src/completions/reference/paths.rs        |  4 +-
 crates/lang/src/nameres/is_visible.rs         | 40 ++++++++++++-------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/crates/ide-completion/src/completions/reference/paths.rs b/crates/ide-completion/src/completions/reference/paths.rs
index 660b8cf..fe04302 100644
--- a/crates/ide-completion/src/completions/reference/paths.rs
+++ b/crates/ide-completion/src/completions/reference/paths.rs
@@ -15,7 +15,7 @@ use ide_db::SymbolKind;
 use ide_db::defs::BUILTIN_MUT_RESOURCE_FUNCTIONS;
 use lang::hir_db;
 use lang::nameres::fq_named_element::ItemFQNameOwner;
-use lang::nameres::is_visible::is_visible_in_context;
+use lang::nameres::is_visible::{is_importable, is_visible_in_context};
 use lang::nameres::name_resolution::WalkScopesCtx;
 use lang::nameres::namespaces::NONE;
 use lang::nameres::path_kind::path_kind;
@@ -235,6 +235,8 @@ fn add_out_of_scope_completion_items(
     let import_candidates = hir_db::import_candidates(ctx.db, original_start_at.file_id)
         .iter()
         .filter(|it| unqualified_nsset.contains(it.ns))
+        // everything is visible in specs, but not everything can be imported
+        .filter(|it| !path_ctx.is_msl() || is_importable(ctx.db, it))
         .filter(|it| is_visible_in_context(ctx.db, it, original_start_at.clone()).is_none());
     let mut completion_items = vec![];
     for import_candidate in import_candidates {
diff --git a/crates/lang/src/nameres/is_visible.rs b/crates/lang/src/nameres/is_visible.rs
index ddc55c9..f8071ce 100644
--- a/crates/lang/src/nameres/is_visible.rs
+++ b/crates/lang/src/nameres/is_visible.rs
@@ -71,6 +71,30 @@ pub fn check_if_visible(
     ScopeEntryWithVis { scope_entry, invis_reason }
 }
 
+/// Whether the item can be imported with a `use` stmt.
+pub fn is_importable(db: &dyn SourceDatabase, scope_entry: &ScopeEntry) -> bool {
+    scope_entry
+        .cast_into::<ast::NamedElement>(db)
+        .is_some_and(|item| is_visible_from_use_specks(&item.value))
+}
+
+fn is_visible_from_use_specks(item: &ast::NamedElement) -> bool {
+    use syntax::SyntaxKind::*;
+
+    // those are always public in use specks
+    if matches!(item.syntax().kind(), MODULE | STRUCT | ENUM) {
+        return true;
+    }
+
+    // items needs to be non-private to be visible, no other rules apply in use specks
+    if ast::AnyHasVisibility::cast(item.syntax().clone()).is_some_and(|it| it.vis() != Vis::Private) {
+        return true;
+    }
+
+    // msl-only items are available from imports
+    item.syntax().is_msl_only_item()
+}
+
 pub fn is_visible_in_context(
     db: &dyn SourceDatabase,
     scope_entry: &ScopeEntry,
@@ -97,7 +121,6 @@ pub fn is_visible_in_context(
     else {
         return Some(ItemInvisibleReason::Unknown);
     };
-    let item_kind = item.syntax().kind();
     let item_ns = scope_entry.ns;
     let opt_visible_item = ast::AnyHasVisibility::cast(item.syntax().clone());
 
@@ -108,20 +131,7 @@ pub fn is_visible_in_context(
     if let Some(path) = &context_opt_path
         && path.root_parent_of_type::<ast::UseSpeck>().is_some()
     {
-        // those are always public in use specks
-        if matches!(item_kind, MODULE | STRUCT | ENUM) {
-            return None;
-        }
-
-        // items needs to be non-private to be visible, no other rules apply in use specks
-        if let Some(visible_item) = opt_visible_item.clone() {
-            if visible_item.vis() != Vis::Private {
-                return None;
-            }
-        }
-
-        // msl-only items are available from imports
-        if item.syntax().is_msl_only_item() {
+        if is_visible_from_use_specks(&item) {
             return None;
         }
 
-- 
2.43.0


From 28610c7c109d5fd009593230fa7b537044c4779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 51/57] fix: completion did not offer the fields of structs of
 other modules where they are visible

---
 .../src/completions/reference/method_or_field.rs   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/ide-completion/src/completions/reference/method_or_field.rs b/crates/ide-completion/src/completions/reference/method_or_field.rs
index 734bc54..c46c1a1 100644
--- a/crates/ide-completion/src/completions/reference/method_or_field.rs
+++ b/crates/ide-completion/src/completions/reference/method_or_field.rs
@@ -11,6 +11,7 @@ use crate::render::new_named_item;
 use lang::loc::SyntaxLocFileExt;
 use lang::nameres::is_visible::is_visible_in_context;
 use lang::nameres::path_resolution::get_method_resolve_variants;
+use lang::nameres::scope::ScopeEntryExt;
 use lang::types::has_type_params_ext::GenericItemExt;
 use lang::types::inference::{InferenceCtx, TyVarIndex};
 use lang::types::substitution::ApplySubstitution;
@@ -34,7 +35,7 @@ pub(crate) fn add_method_or_field_completions(
     }
 
     if let Some(ty_adt) = receiver_ty.unwrap_all_refs().into_ty_adt() {
-        add_field_completion_items(completions, ctx, ty_adt);
+        add_field_completion_items(completions, ctx, ty_adt, receiver_expr);
     }
 
     add_method_completion_items(completions, ctx, receiver_ty);
@@ -47,18 +48,23 @@ fn add_field_completion_items(
     completions: &RefCell<Completions>,
     ctx: &CompletionContext<'_>,
     ty_adt: TyAdt,
+    receiver_expr: InFile<ast::Expr>,
 ) -> Option<()> {
     let acc = &mut completions.borrow_mut();
 
     let db = ctx.db;
     let msl = ctx.msl;
 
-    // if we're not in the module where struct/enum are declared
-    if !msl && ctx.containing_module() != ty_adt.adt_item_module(db) {
+    let adt_item = ty_adt.adt_item_loc.to_ast::<ast::StructOrEnum>(db)?;
+    // fields are accessible if the struct/enum itself is
+    if !msl
+        && let Some(adt_item_entry) = adt_item.clone().to_entry()
+        && is_visible_in_context(db, &adt_item_entry, receiver_expr.syntax()).is_some()
+    {
         return None;
     }
 
-    let (file_id, adt_item) = ty_adt.adt_item_loc.to_ast::<ast::StructOrEnum>(db)?.unpack();
+    let (file_id, adt_item) = adt_item.unpack();
     let named_fields = adt_item.named_fields();
     for named_field in named_fields {
         let name = named_field.field_name().as_string();
-- 
2.43.0


From 3a2577f446aeb99d1f81007248d6d17ad7c98c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 52/57] fix: the fixes which rebuild expressions panicked on
 expressions with syntax errors

---
 .../can_be_replaced_with_compound_expr.rs        |  2 +-
 .../handlers/can_be_replaced_with_index_expr.rs  |  2 +-
 .../handlers/can_be_replaced_with_method_call.rs |  2 +-
 .../handlers/replace_with_resource_index_expr.rs |  2 +-
 .../spec_global_replace_with_index_expr.rs       |  2 +-
 crates/ide-diagnostics/src/lib.rs                | 16 ++++++++++++++++
 6 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs
index b3d3a05..b41b064 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs
@@ -42,7 +42,7 @@ fn fixes(
     bin_expr: InFile<ast::BinExpr>,
     diagnostic_range: FileRange,
 ) -> Option<LocalAssists> {
-    let mut assists = ctx.local_assists_for_node(bin_expr.as_ref())?;
+    let mut assists = ctx.rewrite_assists_for_node(bin_expr.as_ref())?;
 
     let (_, bin_expr) = bin_expr.unpack();
     let (lhs_expr, _, rhs_expr) = bin_expr.clone().unpack()?;
diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
index a2210c1..df88fc4 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
@@ -118,7 +118,7 @@ fn fixes(
         }
     };
 
-    let mut assists = ctx.local_assists_for_node(deref_expr.as_ref())?;
+    let mut assists = ctx.rewrite_assists_for_node(deref_expr.as_ref())?;
     assists.add_fix(
         "replace-with-index-expr",
         "Replace with vector index expr",
diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
index 56099e2..cb1411b 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
@@ -92,7 +92,7 @@ fn fixes(
     call_expr: InFile<ast::CallExpr>,
     diagnostic_range: FileRange,
 ) -> Option<LocalAssists> {
-    let mut assists = ctx.local_assists_for_node(call_expr.as_ref())?;
+    let mut assists = ctx.rewrite_assists_for_node(call_expr.as_ref())?;
 
     let call_expr = call_expr.value;
 
diff --git a/crates/ide-diagnostics/src/handlers/replace_with_resource_index_expr.rs b/crates/ide-diagnostics/src/handlers/replace_with_resource_index_expr.rs
index 68fddf3..712a475 100644
--- a/crates/ide-diagnostics/src/handlers/replace_with_resource_index_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/replace_with_resource_index_expr.rs
@@ -95,7 +95,7 @@ fn fixes(
     addr_expr: ast::Expr,
     borrow_ctx: BorrowCtx,
 ) -> Option<LocalAssists> {
-    let mut assists = ctx.local_assists_for_node(call_expr.as_ref())?;
+    let mut assists = ctx.rewrite_assists_for_node(call_expr.as_ref())?;
     assists.add_fix(
         DIAGNOSTIC_ID,
         "Replace with resource index expr",
diff --git a/crates/ide-diagnostics/src/handlers/spec_global_replace_with_index_expr.rs b/crates/ide-diagnostics/src/handlers/spec_global_replace_with_index_expr.rs
index d369c5f..c1a1191 100644
--- a/crates/ide-diagnostics/src/handlers/spec_global_replace_with_index_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/spec_global_replace_with_index_expr.rs
@@ -70,7 +70,7 @@ fn fixes(
     call_expr: InFile<ast::CallExpr>,
     diagnostic_range: FileRange,
 ) -> Option<LocalAssists> {
-    let mut assists = ctx.local_assists_for_node(call_expr.as_ref())?;
+    let mut assists = ctx.rewrite_assists_for_node(call_expr.as_ref())?;
     assists.add_fix_fallible(
         DIAGNOSTIC_ID,
         "Replace with resource index expr",
diff --git a/crates/ide-diagnostics/src/lib.rs b/crates/ide-diagnostics/src/lib.rs
index 25328bb..29b0d1c 100644
--- a/crates/ide-diagnostics/src/lib.rs
+++ b/crates/ide-diagnostics/src/lib.rs
@@ -36,6 +36,22 @@ impl DiagnosticsContext<'_> {
         LocalAssists::new(node.map(|it| it.syntax()), self.resolve.clone())
     }
 
+    /// For the fixes which rebuild `node` from the text of its parts. Text with syntax errors
+    /// might be parsed differently out of its context, no fixes are offered for it.
+    pub fn rewrite_assists_for_node(&self, node: InFile<&impl AstNode>) -> Option<LocalAssists> {
+        let node_range = node.value.syntax().text_range();
+        let has_syntax_errors =
+            source_db::parse_errors(self.sema.db, node.file_id.intern(self.sema.db))
+                .as_deref()
+                .into_iter()
+                .flatten()
+                .any(|err| err.range().intersect(node_range).is_some());
+        if has_syntax_errors {
+            return None;
+        }
+        self.local_assists_for_node(node)
+    }
+
     pub fn local_fix(
         &self,
         parent_node: InFile<&impl AstNode>,
-- 
2.43.0


From c71c3b7d24302efbfd47703c68a8267e60653ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 53/57] fix: renaming an unused shorthand pattern field with an
 underscore changed the field it names

---
 .../src/handlers/unused_variables.rs            | 17 ++++++++++++++---
 crates/syntax/src/ast/syntax_factory/exprs.rs   |  7 +++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_variables.rs b/crates/ide-diagnostics/src/handlers/unused_variables.rs
index d410aa8..bdae4d7 100644
--- a/crates/ide-diagnostics/src/handlers/unused_variables.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_variables.rs
@@ -99,15 +99,26 @@ fn fixes(
     diagnostic_range: FileRange,
 ) -> Option<LocalAssists> {
     let mut assists = ctx.local_assists_for_node(ident_pat.as_ref())?;
-    let new_ident_name = format!("_{}", ident_pat.value.name()?.as_string());
+    let ident_name = ident_pat.value.name()?.as_string();
+    let new_ident_name = format!("_{ident_name}");
     assists.add_fix(
         "rename-with-underscore-prefix",
         format!("Rename to {new_ident_name}"),
         diagnostic_range.range,
         |editor| {
             let make = SyntaxFactory::new();
-            let new_ident_pat = make.ident_pat(&new_ident_name);
-            editor.replace(ident_pat.value.syntax(), new_ident_pat.syntax());
+            let ident_pat = ident_pat.value;
+            match ident_pat.syntax().parent_of_type::<ast::StructPatField>() {
+                // `S { field }` names the field too, it has to become `S { field: _field }`
+                Some(pat_field) if pat_field.is_shorthand() => {
+                    let new_pat_field = make.pat_field(&ident_name, &new_ident_name);
+                    editor.replace(pat_field.syntax(), new_pat_field.syntax());
+                }
+                _ => {
+                    let new_ident_pat = make.ident_pat(&new_ident_name);
+                    editor.replace(ident_pat.syntax(), new_ident_pat.syntax());
+                }
+            }
             editor.add_mappings(make.finish_with_mappings());
         },
     );
diff --git a/crates/syntax/src/ast/syntax_factory/exprs.rs b/crates/syntax/src/ast/syntax_factory/exprs.rs
index 34cb7b4..e56cbd8 100644
--- a/crates/syntax/src/ast/syntax_factory/exprs.rs
+++ b/crates/syntax/src/ast/syntax_factory/exprs.rs
@@ -157,6 +157,13 @@ impl SyntaxFactory {
         new_lit_field
     }
 
+    pub fn pat_field(&self, field_name: &str, ident_name: &str) -> ast::StructPatField {
+        ast_from_text::<ast::StructPatField>(&format!(
+            "module 0x1::m {{ fun main() {{ let S {{ {field_name}: {ident_name} }} }}",
+        ))
+        .clone_for_update()
+    }
+
     pub fn pat_field_shorthand(&self, ident_pat: ast::IdentPat) -> ast::StructPatField {
         let new_pat_field = ast_from_text::<ast::StructPatField>(&format!(
             "module 0x1::m {{ fun main() {{ let S {{ {} }} }}",
-- 
2.43.0


From a1d048009adc70895a499aee037cf3323b7f0f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 54/57] fix: removing redundant :: left whitespace before the
 type arguments

---
 crates/ide-diagnostics/src/handlers/simplify_turbofish.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs b/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs
index edb07c3..78c24f7 100644
--- a/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs
+++ b/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs
@@ -1,6 +1,7 @@
 use crate::DiagnosticsContext;
 use crate::diagnostic::Diagnostic;
 use ide_db::assist_context::LocalAssists;
+use syntax::SyntaxKind;
 use syntax::ast;
 use syntax::files::{FileRange, InFile, InFileExt};
 
@@ -41,6 +42,12 @@ fn fixes(
         diagnostic_range.range,
         |editor| {
             if let Some(coloncolon) = type_arg_list.value.coloncolon_token() {
+                // there cannot be any whitespace before the `<` without the `::`
+                for ws in [coloncolon.prev_token(), coloncolon.next_token()] {
+                    if let Some(ws) = ws.filter(|it| it.kind() == SyntaxKind::WHITESPACE) {
+                        editor.delete(ws);
+                    }
+                }
                 editor.delete(coloncolon);
             }
         },
-- 
2.43.0


From 74f69f81ac0f8d129707b61036300023a676c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 55/57] fix: logical operators have no compound assignment

---
 .../src/handlers/can_be_replaced_with_compound_expr.rs     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs
index b41b064..397868f 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_compound_expr.rs
@@ -21,8 +21,11 @@ pub(crate) fn can_be_replaced_with_compound_expr(
     let rhs_expr = rhs_expr?;
     if let ast::BinaryOp::Assignment { op: None } = op_kind {
         let rhs_bin_expr = rhs_expr.bin_expr()?;
-        let (argument_expr, _, _) = rhs_bin_expr.clone().unpack()?;
-        if lhs_expr.syntax().green() == argument_expr.syntax().green() {
+        let (argument_expr, (_, rhs_op_kind), _) = rhs_bin_expr.clone().unpack()?;
+        // there are no compound assignments for the logical operators and comparisons
+        if matches!(rhs_op_kind, ast::BinaryOp::ArithOp(_))
+            && lhs_expr.syntax().green() == argument_expr.syntax().green()
+        {
             acc.push(
                 Diagnostic::weak_warning(
                     "replace-with-compound-expr",
-- 
2.43.0


From 38784d7dbac8643e9012f1f335bf31b05e0c868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 56/57] fix: the method call fix needs parentheses around a
 block receiver

---
 .../src/handlers/can_be_replaced_with_method_call.rs            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
index cb1411b..9ee87ca 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
@@ -127,7 +127,7 @@ fn fixes(
                 // all AtomExpr list, same priority as MvDotExpr
                 VECTOR_LIT_EXPR | STRUCT_LIT | TUPLE_EXPR | PAREN_EXPR | ANNOTATED_EXPR | DOT_EXPR
                 | METHOD_CALL_EXPR | INDEX_EXPR | CALL_EXPR | ASSERT_MACRO_EXPR | PATH_EXPR
-                | LAMBDA_EXPR | LITERAL | BLOCK_EXPR => {
+                | LAMBDA_EXPR | LITERAL => {
                     // do nothing, those operations priorities are correct without parens
                 }
                 _ => {
-- 
2.43.0


From 769ab4bf8cc373b109baff5af5f556aea4d3cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 57/57] fix: the index expression fix dropped parentheses
 needed around the borrowed expression

---
 .../handlers/can_be_replaced_with_index_expr.rs  | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
index df88fc4..6f5801d 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_index_expr.rs
@@ -111,7 +111,21 @@ fn fixes(
     let mut with_parens = false;
     let base_expr = match &receiver_expr {
         ast::Expr::PathExpr(_) | ast::Expr::ParenExpr(_) => receiver_expr,
-        ast::Expr::BorrowExpr(borrow_expr) => borrow_expr.expr()?,
+        ast::Expr::BorrowExpr(borrow_expr) => {
+            let inner_expr = borrow_expr.expr()?;
+            // the operators before an expression and between expressions bind weaker than the index
+            with_parens = matches!(
+                inner_expr,
+                ast::Expr::DerefExpr(_)
+                    | ast::Expr::BorrowExpr(_)
+                    | ast::Expr::BinExpr(_)
+                    | ast::Expr::CastExpr(_)
+                    | ast::Expr::IfExpr(_)
+                    | ast::Expr::MatchExpr(_)
+                    | ast::Expr::BlockExpr(_)
+            );
+            inner_expr
+        }
         _ => {
             with_parens = true;
             receiver_expr
-- 
2.43.0

