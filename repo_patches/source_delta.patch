From e810c3960bc8bb8f26674e332bdfdd784a6ead3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 01/77] fix: a dist-tag dependency is satisfied by the visible
 package it resolves to

Dependencies on a tag were never satisfied by an already placed package, so
a dependency cycle through a tag nested copies forever and apply never
finished.
---
 crates/node-maintainer/src/resolver.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 49cad17..328f5e4 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -127,7 +127,8 @@ impl<'a> Resolver<'a> {
                         handler();
                     }
 
-                    if let Some(_child_idx) = Self::satisfy_dependency(&mut self.graph, &dep)? {
+                    if let Some(_child_idx) = Self::satisfy_dependency(&mut self.graph, &dep, None)?
+                    {
                         if let Some(handler) = &self.on_resolve_progress {
                             handler(&self.graph[_child_idx].package, dep.start.elapsed());
                         }
@@ -220,7 +221,7 @@ impl<'a> Resolver<'a> {
 
                         for dep in deps {
                             if let Some(_child_idx) =
-                                Self::satisfy_dependency(&mut self.graph, &dep)?
+                                Self::satisfy_dependency(&mut self.graph, &dep, Some(&package))?
                             {
                                 if let Some(handler) = &self.on_resolve_progress {
                                     handler(&self.graph[_child_idx].package, dep.start.elapsed());
@@ -278,12 +279,14 @@ impl<'a> Resolver<'a> {
     fn satisfy_dependency(
         graph: &mut Graph,
         dep: &NodeDependency,
+        fetched: Option<&Package>,
     ) -> Result<Option<NodeIndex>, NodeMaintainerError> {
         if let Some(satisfier_idx) = graph.find_by_name(dep.node_idx, &dep.name)? {
-            if graph[satisfier_idx]
-                .package
-                .resolved()
-                .satisfies(&dep.spec)?
+            let satisfier = graph[satisfier_idx].package.resolved();
+            // Tags can't be compared to a version: once such a dependency has
+            // been fetched, what satisfies it is the package it resolved to.
+            if satisfier.satisfies(&dep.spec)?
+                || fetched.map_or(false, |package| package.resolved() == satisfier)
             {
                 let edge_idx = graph.inner.add_edge(
                     dep.node_idx,
-- 
2.43.0


From 712f48b0934e0736c791fcec47772ce0dfcc5c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 02/77] fix: don't resolve a nested dependency past an
 ancestor's unplaced one

When metadata for an ancestor's own conflicting version arrived after that of
a package nested in it, the nested package was linked to a copy further up
that the ancestor's version then hid, so it loaded a version outside its
range.
---
 crates/node-maintainer/src/resolver.rs | 62 +++++++++++++++++---------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 328f5e4..c612d8f 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -1,5 +1,5 @@
 use std::cmp::Ordering;
-use std::collections::{HashSet, VecDeque};
+use std::collections::VecDeque;
 use std::path::Path;
 use std::sync::Arc;
 use std::time::Instant;
@@ -63,6 +63,10 @@ impl<'a> Resolver<'a> {
         let mut q = VecDeque::new();
         q.push_back(self.graph.root);
 
+        // Dependencies that can't be looked at until a package above their
+        // dependent gets its own dependency with the same name.
+        let mut deferred = VecDeque::new();
+
         // Number of dependencies queued for processing in `package_stream`
         let mut in_flight = 0;
 
@@ -103,28 +107,37 @@ impl<'a> Resolver<'a> {
             .ready_chunks(self.concurrency);
 
         // Start iterating over the queue. We'll be adding things to it as we find them.
-        while !q.is_empty() || in_flight != 0 {
-            while let Some(node_idx) = q.pop_front() {
-                let mut names = HashSet::new();
-                // Grab all the deps from the current package and fire off a
-                // lookup. These will be resolved concurrently.
-                for (name, (spec, dep_type)) in self.graph[node_idx].dependency_reqs.clone() {
-                    if names.contains(&name) {
-                        continue;
-                    } else {
-                        names.insert(name.clone());
+        while !q.is_empty() || !deferred.is_empty() || in_flight != 0 {
+            let mut deps = std::mem::take(&mut deferred);
+            while !q.is_empty() || !deps.is_empty() {
+                if deps.is_empty() {
+                    let node_idx = q.pop_front().expect("q can't be empty here");
+                    // Grab all the deps from the current package and fire off a
+                    // lookup. These will be resolved concurrently.
+                    for (name, (spec, dep_type)) in &self.graph[node_idx].dependency_reqs {
+                        deps.push_back(NodeDependency {
+                            name: name.clone(),
+                            spec: spec.clone(),
+                            dep_type: *dep_type,
+                            node_idx,
+                            start: Instant::now(),
+                        });
+
+                        if let Some(handler) = &self.on_resolution_added {
+                            handler();
+                        }
                     }
+                }
 
-                    let dep = NodeDependency {
-                        name: name.clone(),
-                        spec,
-                        dep_type,
-                        node_idx,
-                        start: Instant::now(),
-                    };
+                while let Some(dep) = deps.pop_front() {
+                    let name = dep.name.clone();
+                    let node_idx = dep.node_idx;
 
-                    if let Some(handler) = &self.on_resolution_added {
-                        handler();
+                    // Linking to something higher up would be undone by the
+                    // dependency still to be placed in between, so wait.
+                    if Self::is_pending_above(&self.graph, &dep) {
+                        deferred.push_back(dep);
+                        continue;
                     }
 
                     if let Some(_child_idx) = Self::satisfy_dependency(&mut self.graph, &dep, None)?
@@ -303,6 +316,15 @@ impl<'a> Resolver<'a> {
         Ok(None)
     }
 
+    /// Whether any of the packages the dependent is nested in is still waiting
+    /// for its own dependency with the same name.
+    fn is_pending_above(graph: &Graph, dep: &NodeDependency) -> bool {
+        graph.node_parent_iter(dep.node_idx).skip(1).any(|node| {
+            node.dependency_reqs.contains_key(&dep.name)
+                && !node.dependencies.contains_key(&dep.name)
+        })
+    }
+
     async fn satisfy_from_lockfile(
         &self,
         graph: &Graph,
-- 
2.43.0


From b46d7a79d970935cb5dd491cf5fe118b5b893f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 03/77] fix: install scripts no longer deadlock on dependency
 cycles

---
 crates/node-maintainer/src/linkers/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index e6b52b4..abafcf0 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -156,15 +156,20 @@ impl Linker {
             .iter()
             .copied()
             .collect::<Vec<_>>();
+        // Packages in a dependency cycle can't wait for each other, so we only
+        // order packages when the dependency goes one way.
+        let requires = |from: NodeIndex, to: NodeIndex| {
+            from != to
+                && petgraph::algo::has_path_connecting(&graph.inner, from, to, None)
+                && !petgraph::algo::has_path_connecting(&graph.inner, to, from, None)
+        };
         // Map of package to the set of packages that need to run before it can run.
         let dependencies = pending
             .iter()
             .map(|idx| {
                 let mut deps = HashSet::new();
                 for dep in &pending {
-                    if dep != idx
-                        && petgraph::algo::has_path_connecting(&graph.inner, *idx, *dep, None)
-                    {
+                    if requires(*idx, *dep) {
                         deps.insert(*dep);
                     }
                 }
@@ -178,9 +183,7 @@ impl Linker {
                 .map(|idx| {
                     let mut deps = HashSet::new();
                     for dep in &pending {
-                        if dep != idx
-                            && petgraph::algo::has_path_connecting(&graph.inner, *dep, *idx, None)
-                        {
+                        if requires(*dep, *idx) {
                             deps.insert(*dep);
                         }
                     }
-- 
2.43.0


From 8bc5e9875e21e895b99016a0c89bf898eefe9040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 04/77] fix: creating a directory that already exists is not an
 error when extracting and linking

---
 crates/nassun/src/tarball.rs              | 16 +++++++++-------
 crates/node-maintainer/src/linkers/mod.rs | 14 ++++++++------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 35472b0..c0a4cc1 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -530,13 +530,15 @@ pub(crate) fn mkdirp(path: &Path, cache: &dashmap::DashSet<PathBuf>) -> Result<(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).map_err(|e| {
-                NassunError::ExtractIoError(
-                    e,
-                    Some(path.parent().unwrap().into()),
-                    "creating parent directory for entry.".into(),
-                )
-            })?;
+            std::fs::create_dir(path)
+                .or_else(|e| if path.is_dir() { Ok(()) } else { Err(e) })
+                .map_err(|e| {
+                    NassunError::ExtractIoError(
+                        e,
+                        Some(path.parent().unwrap().into()),
+                        "creating parent directory for entry.".into(),
+                    )
+                })?;
             cache.insert(path.to_path_buf());
         } else {
             std::fs::create_dir_all(path).map_err(|e| {
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index abafcf0..56e04eb 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -494,12 +494,14 @@ pub(crate) fn mkdirp(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).io_context(|| {
-                format!(
-                    "Failed to create directory {} while extracting.",
-                    path.display()
-                )
-            })?;
+            std::fs::create_dir(path)
+                .or_else(|e| if path.is_dir() { Ok(()) } else { Err(e) })
+                .io_context(|| {
+                    format!(
+                        "Failed to create directory {} while extracting.",
+                        path.display()
+                    )
+                })?;
             cache.insert(path.to_path_buf());
         } else {
             std::fs::create_dir_all(path).io_context(|| {
-- 
2.43.0


From f185d3b3edc90e63903b35a195ddd02b1ecaf6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 05/77] fix: node_modules left behind by an interrupted install
 or a failed script isn't trusted as complete

---
 crates/node-maintainer/src/linkers/hoisted.rs |  3 --
 .../node-maintainer/src/linkers/isolated.rs   |  9 +----
 crates/node-maintainer/src/linkers/mod.rs     | 40 ++++++++++++++++++-
 3 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 619c21b..67f0143 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -343,9 +343,6 @@ impl HoistedLinker {
                 },
             )
             .await?;
-        let meta = node_modules.join(META_FILE_NAME);
-        std::fs::write(&meta, graph.to_kdl()?.to_string())
-            .io_context(|| format!("Failed to write Orogene meta file to {}.", meta.display()))?;
         let extracted_count = actually_extracted.load(atomic::Ordering::SeqCst);
 
         tracing::debug!(
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index c184769..02a36d1 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -14,7 +14,7 @@ use oro_common::BuildManifest;
 use petgraph::{stable_graph::NodeIndex, visit::EdgeRef, Direction};
 use ssri::Integrity;
 
-use crate::{error::IoContext, graph::Graph, NodeMaintainerError, META_FILE_NAME, STORE_DIR_NAME};
+use crate::{error::IoContext, graph::Graph, NodeMaintainerError, STORE_DIR_NAME};
 
 use super::LinkerOptions;
 
@@ -459,13 +459,6 @@ impl IsolatedLinker {
                 },
             )
             .await?;
-        let meta = node_modules.join(META_FILE_NAME);
-        std::fs::write(&meta, graph.to_kdl()?.to_string()).io_context(|| {
-            format!(
-                "Failed to write Orogene meta file into node_modules, at {}.",
-                meta.display()
-            )
-        })?;
         let extracted_count = actually_extracted.load(atomic::Ordering::SeqCst);
 
         tracing::debug!(
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 56e04eb..8f4fb93 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -24,7 +24,7 @@ use petgraph::stable_graph::NodeIndex;
 #[cfg(not(target_arch = "wasm32"))]
 use crate::{
     error::IoContext, graph::Graph, Lockfile, NodeMaintainerError, ProgressHandler, PruneProgress,
-    ScriptLineHandler, ScriptStartHandler,
+    ScriptLineHandler, ScriptStartHandler, META_FILE_NAME,
 };
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -76,6 +76,7 @@ impl Linker {
         &self,
         #[allow(dead_code)] graph: &Graph,
     ) -> Result<usize, NodeMaintainerError> {
+        self.remove_meta()?;
         match self {
             #[cfg(not(target_arch = "wasm32"))]
             Self::Isolated(isolated) => isolated.prune(graph).await,
@@ -115,6 +116,7 @@ impl Linker {
             self.run_scripts(graph, "install").await?;
             self.run_scripts(graph, "postinstall").await?;
         }
+        self.write_meta(graph)?;
         tracing::debug!(
             "Ran lifecycle scripts in {}ms.",
             start.elapsed().as_millis()
@@ -122,6 +124,42 @@ impl Linker {
         Ok(())
     }
 
+    #[cfg(not(target_arch = "wasm32"))]
+    fn meta_path(&self) -> Option<PathBuf> {
+        let opts = match self {
+            Self::Isolated(isolated) => &isolated.opts,
+            Self::Hoisted(hoisted) => &hoisted.opts,
+            Self::Null => return None,
+        };
+        Some(opts.root.join("node_modules").join(META_FILE_NAME))
+    }
+
+    /// Removes the meta file, so that `node_modules/` isn't trusted by the
+    /// next run if this one gets interrupted.
+    #[cfg(not(target_arch = "wasm32"))]
+    fn remove_meta(&self) -> Result<(), NodeMaintainerError> {
+        if let Some(meta) = self.meta_path() {
+            match std::fs::remove_file(&meta) {
+                Err(e) if e.kind() != std::io::ErrorKind::NotFound => Err(e).io_context(|| {
+                    format!("Failed to remove Orogene meta file at {}.", meta.display())
+                })?,
+                _ => {}
+            }
+        }
+        Ok(())
+    }
+
+    /// Records what's in `node_modules/`, now that it's complete.
+    #[cfg(not(target_arch = "wasm32"))]
+    fn write_meta(&self, graph: &Graph) -> Result<(), NodeMaintainerError> {
+        if let Some(meta) = self.meta_path() {
+            std::fs::write(&meta, graph.to_kdl()?.to_string()).io_context(|| {
+                format!("Failed to write Orogene meta file to {}.", meta.display())
+            })?;
+        }
+        Ok(())
+    }
+
     #[cfg(not(target_arch = "wasm32"))]
     async fn link_bins(
         &self,
-- 
2.43.0


From 99aa40c1bffed246fa2e3aa40b7c596012ea60bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 06/77] fix: isolated installs don't keep stale packages, links
 or bins

---
 .../node-maintainer/src/linkers/isolated.rs   | 226 ++++++++++--------
 1 file changed, 122 insertions(+), 104 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 02a36d1..51134ae 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BinaryHeap, HashMap, HashSet},
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     sync::{
         atomic::{self, AtomicUsize},
@@ -20,7 +20,6 @@ use super::LinkerOptions;
 
 pub(crate) struct IsolatedLinker {
     pub(crate) pending_rebuild: Arc<Mutex<HashSet<NodeIndex>>>,
-    pub(crate) pending_bin_link: Arc<Mutex<BinaryHeap<NodeIndex>>>,
     pub(crate) mkdir_cache: Arc<DashSet<PathBuf>>,
     pub(crate) opts: LinkerOptions,
 }
@@ -29,7 +28,6 @@ impl IsolatedLinker {
     pub fn new(opts: LinkerOptions) -> Self {
         Self {
             pending_rebuild: Arc::new(Mutex::new(HashSet::new())),
-            pending_bin_link: Arc::new(Mutex::new(BinaryHeap::new())),
             mkdir_cache: Arc::new(DashSet::new()),
             opts,
         }
@@ -129,104 +127,27 @@ impl IsolatedLinker {
                         .join(pkg.name())
                         .join("node_modules")
                 };
-                let pkg_nm_ref = &pkg_nm;
 
                 let mut expected_deps = HashMap::new();
 
                 for edge in graph.inner.edges_directed(idx, Direction::Outgoing) {
                     let dep_pkg = &graph[edge.target()].package;
-                    let dep_store_dir = async_std::path::PathBuf::from(
-                        store_ref
-                            .join(package_dir_name(graph, edge.target()))
-                            .join("node_modules")
-                            .join(dep_pkg.name()),
-                    );
-                    let dep_nm_entry = async_std::path::PathBuf::from(pkg_nm.join(dep_pkg.name()));
+                    let dep_store_dir = store_ref
+                        .join(package_dir_name(graph, edge.target()))
+                        .join("node_modules")
+                        .join(dep_pkg.name());
+                    let dep_nm_entry = pkg_nm.join(dep_pkg.name());
                     expected_deps.insert(dep_nm_entry, dep_store_dir);
                 }
 
-                if async_std::path::Path::new(&pkg_nm).exists().await {
-                    let expected_ref = Arc::new(expected_deps);
-
-                    async_std::fs::read_dir(&pkg_nm)
-                        .await
-                        .io_context(|| {
-                            format!(
-                                "Failed to read contents of node_modules at {}.",
-                                pkg_nm.display()
-                            )
-                        })?
-                        .map(|e| Ok((e, expected_ref.clone())))
-                        .try_for_each(move |(entry, expected)| async move {
-                            let entry = entry.io_context(|| {
-                                format!(
-                                    "Failed to read directory entry from prefix at {}.",
-                                    pkg_nm_ref.display()
-                                )
-                            })?;
-                            let path = entry.path();
-                            if let Some(target) = expected.get(&path) {
-                                let target = target.clone();
-                                let ty = entry.file_type().await.io_context(|| {
-                                    format!(
-                                        "Failed to get file type from entry at {}.",
-                                        entry.path().display()
-                                    )
-                                })?;
-                                if ty.is_file() {
-                                    async_std::fs::remove_file(&path).await.io_context(|| {
-                                        format!(
-                                            "Failed to delete file at {} while pruning node_modules.",
-                                            entry.path().display()
-                                        )
-                                    })?;
-                                } else if ty.is_dir() {
-                                    async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                        format!(
-                                            "Failed to rimraf contents of directory at {} while pruning node_modules.",
-                                            path.display()
-                                        )
-                                    })?;
-                                } else if ty.is_symlink() && target != path.read_link().await.io_context(|| format!("Failed to read symlink at {} while pruning node_modules.", path.display()))? {
-                                    if async_std::fs::remove_file(&path).await.is_err() {
-                                        async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                            format!(
-                                                "Failed to delete {} while pruning node_modules.",
-                                                path.display()
-                                            )
-                                        })?;
-                                    }
-                                } else {
-                                    #[cfg(windows)]
-                                    let path_clone = path.clone();
-                                    #[cfg(windows)]
-                                    if async_std::task::spawn_blocking(move || {
-                                        Ok::<_, std::io::Error>(
-                                            !junction::exists(&path_clone)?
-                                                || async_std::path::PathBuf::from(
-                                                    &junction::get_target(&path_clone)?,
-                                                ) != target,
-                                        )
-                                    })
-                                    .await.io_context(|| {
-                                        format!(
-                                            "Failed to check if {} is a junction while pruning node_modules.",
-                                            path.display()
-                                        )
-                                    })? && async_std::fs::remove_file(&path).await.is_err() {
-                                        async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                            format!(
-                                                "Failed to delete {} while pruning node_modules.",
-                                                path.display()
-                                            )
-                                        })?;
-                                    }
-                                }
-                            }
-                            Ok::<_, NodeMaintainerError>(())
-                        })
-                        .await?;
-                }
+                let is_root = idx == graph.root;
+                async_std::task::spawn_blocking(move || {
+                    if pkg_nm.exists() {
+                        prune_links(&pkg_nm, &expected_deps, is_root)?;
+                    }
+                    Ok::<_, NodeMaintainerError>(())
+                })
+                .await?;
 
                 Ok::<_, NodeMaintainerError>(())
             })
@@ -345,7 +266,6 @@ impl IsolatedLinker {
         let stream = futures::stream::iter(graph.inner.node_indices());
         let concurrent_count = Arc::new(AtomicUsize::new(0));
         let pending_rebuild = self.pending_rebuild.clone();
-        let pending_bin_link = self.pending_bin_link.clone();
         let actually_extracted = Arc::new(AtomicUsize::new(0));
         let total = graph.inner.node_count();
         let total_completed = Arc::new(AtomicUsize::new(0));
@@ -372,7 +292,6 @@ impl IsolatedLinker {
                     total_completed.clone(),
                     actually_extracted.clone(),
                     pending_rebuild.clone(),
-                    pending_bin_link.clone(),
                 ))
             })
             .try_for_each_concurrent(
@@ -383,7 +302,6 @@ impl IsolatedLinker {
                     total_completed,
                     actually_extracted,
                     pending_rebuild,
-                    pending_bin_link,
                 )| async move {
                     if child_idx == graph.root {
                         self.link_deps(graph, child_idx, store_ref, &root.join("node_modules"))
@@ -427,9 +345,6 @@ impl IsolatedLinker {
                         {
                             pending_rebuild.lock().await.insert(child_idx);
                         }
-                        if !build_mani.bin.is_empty() {
-                            pending_bin_link.lock().await.push(child_idx);
-                        }
                     }
 
                     self.link_deps(
@@ -475,8 +390,31 @@ impl IsolatedLinker {
         let store_ref = &store;
         let mut linked = 0;
 
-        let mut pending = self.pending_bin_link.lock().await;
-        while let Some(idx) = pending.pop() {
+        // Start from scratch: packages that are already extracted might have
+        // new dependents, or their dependents might have lost dependencies.
+        for idx in graph.inner.node_indices() {
+            let package_dir = if idx == graph.root {
+                root.clone()
+            } else {
+                self.package_dir(graph, idx).0
+            };
+            let bin_dir = package_dir.join("node_modules").join(".bin");
+            if bin_dir.exists() {
+                async_std::fs::remove_dir_all(&bin_dir)
+                    .await
+                    .io_context(|| {
+                        format!(
+                            "Failed to remove existing bin directory at {}.",
+                            bin_dir.display()
+                        )
+                    })?;
+            }
+        }
+
+        // If several packages have bins by the same name, the first one wins.
+        let mut pending = graph.inner.node_indices().collect::<Vec<_>>();
+        pending.sort_by_key(|idx| std::cmp::Reverse(graph.node_path_string(*idx)));
+        for idx in pending {
             let added = self.link_dep_bins(graph, idx, root, store_ref).await?;
             linked += added;
         }
@@ -582,7 +520,7 @@ impl IsolatedLinker {
             let dep_bin_dir = dep_store_dir.join("node_modules").join(".bin");
             for (name, path) in &build_mani.bin {
                 let to = dep_bin_dir.join(name);
-                let from = dep_store_dir.join("node_modules").join(name).join(path);
+                let from = node_path.join(path);
                 let name = name.clone();
                 let mkdir_cache = self.mkdir_cache.clone();
                 async_std::task::spawn_blocking(move || {
@@ -625,13 +563,93 @@ impl IsolatedLinker {
     }
 }
 
+/// Removes everything from the `node_modules` directory of a package that
+/// isn't an up to date link to one of its dependencies.
+fn prune_links(
+    nm: &Path,
+    expected: &HashMap<PathBuf, PathBuf>,
+    is_root: bool,
+) -> Result<(), NodeMaintainerError> {
+    for path in read_dir_paths(nm)? {
+        let name = path.file_name().unwrap_or_default().to_string_lossy();
+        let entries = if name.starts_with('@') && path.is_dir() && !path.is_symlink() {
+            read_dir_paths(&path)?
+        } else if is_root && name == STORE_DIR_NAME {
+            continue;
+        } else {
+            vec![path]
+        };
+        for path in entries {
+            let is_link = is_link(&path);
+            // Anything that isn't a link comes from the package itself, unless
+            // it's in the root node_modules.
+            if (!is_link && !is_root)
+                || expected
+                    .get(&path)
+                    .map_or(false, |dest| is_link && is_link_to(&path, dest))
+            {
+                continue;
+            }
+            if is_link || !path.is_dir() {
+                std::fs::remove_file(&path).or_else(|_| std::fs::remove_dir_all(&path))
+            } else {
+                std::fs::remove_dir_all(&path)
+            }
+            .io_context(|| {
+                format!(
+                    "Failed to delete {} while pruning node_modules.",
+                    path.display()
+                )
+            })?;
+        }
+    }
+    Ok(())
+}
+
+fn read_dir_paths(dir: &Path) -> Result<Vec<PathBuf>, NodeMaintainerError> {
+    std::fs::read_dir(dir)
+        .and_then(|entries| entries.map(|e| e.map(|e| e.path())).collect())
+        .io_context(|| {
+            format!(
+                "Failed to read contents of directory at {} while pruning node_modules.",
+                dir.display()
+            )
+        })
+}
+
+fn is_link(path: &Path) -> bool {
+    #[cfg(windows)]
+    if junction::exists(path).unwrap_or(false) {
+        return true;
+    }
+    path.is_symlink()
+}
+
+/// Whether the link at `path` is the one we'd create to point it at `dest`.
+fn is_link_to(path: &Path, dest: &Path) -> bool {
+    #[cfg(windows)]
+    if junction::get_target(path).map_or(false, |target| target == dest) {
+        return true;
+    }
+    let relative = path.parent().and_then(|dir| pathdiff::diff_paths(dest, dir));
+    std::fs::read_link(path).ok() == relative
+}
+
 fn package_dir_name(graph: &Graph, idx: NodeIndex) -> String {
     let node = &graph[idx];
-    let subdir = graph.node_path_string(idx);
+    // What's in the package is part of its identity, too: the same path can
+    // hold different packages at different times.
+    let resolved = node.package.resolved();
+    let integrity = resolved.integrity().map(|sri| sri.to_string());
+    let id = format!(
+        "{}|{resolved}|{}",
+        graph.node_path_string(idx),
+        integrity.unwrap_or_default()
+    );
 
     let mut name = node.name.to_string();
     name.push('@');
-    let (_, mut hex) = Integrity::from(subdir).to_hex();
+    let (_, mut hex) = Integrity::from(id).to_hex();
     hex.truncate(8);
     name.push_str(&hex);
     name
-- 
2.43.0


From 405a64e263c88acc82844a65d053a63045d9ab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 07/77] fix: hoisted installs don't keep stale nested or scoped
 packages or stale bins

---
 crates/node-maintainer/src/linkers/hoisted.rs | 156 ++++++++----------
 1 file changed, 70 insertions(+), 86 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 67f0143..01b553b 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -1,6 +1,6 @@
-use std::collections::HashSet;
+use std::collections::{BTreeMap, HashSet};
 use std::ffi::OsStr;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::atomic::AtomicUsize;
 use std::sync::{atomic, Arc};
 
@@ -109,6 +109,8 @@ impl HoistedLinker {
         let meta = prefix.join(META_FILE_NAME);
         let mut extraneous_packages = 0;
         let extraneous = &mut extraneous_packages;
+        let kept = DashSet::new();
+        let kept_ref = &kept;
 
         for entry in WalkDir::new(&prefix)
             .into_iter()
@@ -131,21 +133,18 @@ impl HoistedLinker {
                     return false;
                 }
 
-                if file_name
-                    .expect("this should have a file name")
-                    .to_string_lossy()
-                    .starts_with('@')
-                {
+                let parent = entry_path.parent().expect("this must have a parent");
+                let in_nm = parent.file_name() == nm_osstr;
+
+                if in_nm && is_scope_dir(entry_path) {
                     // Let scoped packages through.
                     return true;
                 }
 
                 // See if we're looking at a package dir, presumably (or a straggler file).
-                if entry_path
-                    .parent()
-                    .expect("this must have a parent")
-                    .file_name()
-                    == nm_osstr
+                if in_nm
+                    || (is_scope_dir(parent)
+                        && parent.parent().and_then(|p| p.file_name()) == nm_osstr)
                 {
                     let entry_subpath_path = entry_path
                         .strip_prefix(&prefix)
@@ -174,6 +173,13 @@ impl HoistedLinker {
                             .unwrap_or(false)
                         && actual == ideal.as_ref()
                     {
+                        // This one's fine, but there might be extraneous
+                        // packages nested inside it.
+                        kept_ref.insert(entry_path.to_owned());
+                        return entry.file_type().is_dir();
+                    } else if actual.is_none() && entry_subpath.contains("/node_modules/") {
+                        // Not one of ours: this is part of the contents of
+                        // the package we're in.
                         return false;
                     } else {
                         *extraneous += 1;
@@ -190,9 +196,8 @@ impl HoistedLinker {
             let file_name = entry_path.file_name();
             if file_name == nm_osstr
                 || file_name == bin_osstr
-                || file_name
-                    .map(|s| s.to_string_lossy().starts_with('@'))
-                    .unwrap_or(false)
+                || is_scope_dir(entry_path)
+                || kept.contains(entry_path)
             {
                 continue;
             } else if entry.file_type().is_dir() {
@@ -319,7 +324,6 @@ impl HoistedLinker {
                             || build_mani.scripts.contains_key("install")
                             || build_mani.scripts.contains_key("postinstall")
                             || build_mani.scripts.contains_key("prepare")
-                            || !build_mani.bin.is_empty()
                         {
                             pending_rebuild.lock().await.insert(child_idx);
                         }
@@ -356,85 +360,59 @@ impl HoistedLinker {
     pub async fn link_bins(&self, graph: &Graph) -> Result<usize, NodeMaintainerError> {
         let root = &self.opts.root;
         let linked = Arc::new(AtomicUsize::new(0));
-        let bin_file_name = Some(OsStr::new(".bin"));
-        let nm_file_name = Some(OsStr::new("node_modules"));
-        for entry in WalkDir::new(root.join("node_modules"))
-            .into_iter()
-            .filter_entry(|e| {
-                let path = e.path().file_name();
-                path == bin_file_name || path == nm_file_name
-            })
+        let mut packages = graph
+            .inner
+            .node_indices()
+            .filter(|idx| *idx != graph.root)
+            .map(|idx| (graph.node_path_string(idx), idx))
+            .collect::<Vec<_>>();
+        packages.sort();
+        // Start from scratch: packages that are already extracted might not
+        // have been linked, and we might still have bins from extraneous packages.
+        for dir in std::iter::once(root.clone())
+            .chain(packages.iter().map(|(_, idx)| self.package_dir(graph, *idx).0))
         {
-            let entry = entry?;
-            if entry.path().file_name() == bin_file_name {
-                async_std::fs::remove_dir_all(entry.path()).await.io_context(|| format!("Failed to remove directory at {} while clearing out existing node_modules/.bin directories.", entry.path().display()))?;
+            let bin_dir = dir.join("node_modules").join(".bin");
+            if bin_dir.exists() {
+                async_std::fs::remove_dir_all(&bin_dir).await.io_context(|| format!("Failed to remove directory at {} while clearing out existing node_modules/.bin directories.", bin_dir.display()))?;
             }
         }
-        futures::stream::iter(self.pending_rebuild.lock().await.iter().copied())
-            .map(|idx| Ok((idx, linked.clone())))
-            .try_for_each_concurrent(self.opts.concurrency, move |(idx, linked)| async move {
-                if idx == graph.root {
-                    return Ok(());
-                }
+        // If several packages have bins by the same name, the first one wins.
+        let mut bins = BTreeMap::new();
+        for (_, idx) in packages {
+            let package_dir = self.package_dir(graph, idx).0;
+            let parent = package_dir.parent().expect("must have parent");
+            let target_dir = if parent.file_name() == Some(OsStr::new("node_modules")) {
+                parent.join(".bin")
+            } else {
+                // Scoped
+                parent.parent().expect("must have parent").join(".bin")
+            };
 
-                let subdir = graph
-                    .node_path(idx)
-                    .iter()
-                    .map(|x| x.to_string())
-                    .collect::<Vec<_>>()
-                    .join("/node_modules/");
-                let package_dir = root.join("node_modules").join(subdir);
-                let parent = package_dir.parent().expect("must have parent");
-                let target_dir = if parent.file_name() == Some(OsStr::new("node_modules")) {
-                    parent.join(".bin")
-                } else {
-                    // Scoped
-                    parent.parent().expect("must have parent").join(".bin")
-                };
-
-                let build_mani = BuildManifest::from_path(package_dir.join("package.json"))
-                    .map_err(|e| {
-                        NodeMaintainerError::BuildManifestReadError(
-                            package_dir.join("package.json"),
-                            e,
-                        )
-                    })?;
+            let build_mani =
+                BuildManifest::from_path(package_dir.join("package.json")).map_err(|e| {
+                    NodeMaintainerError::BuildManifestReadError(package_dir.join("package.json"), e)
+                })?;
 
-                for (name, path) in &build_mani.bin {
-                    let target_dir = target_dir.clone();
-                    let to = target_dir.join(name);
-                    let from = package_dir.join(path);
-                    let name = name.clone();
+            for (name, path) in &build_mani.bin {
+                bins.entry(target_dir.join(name))
+                    .or_insert_with(|| package_dir.join(path));
+            }
+        }
+        futures::stream::iter(bins)
+            .map(|bin| Ok((bin, linked.clone())))
+            .try_for_each_concurrent(
+                self.opts.concurrency,
+                move |((to, from), linked)| async move {
                     let mkdir_cache = self.mkdir_cache.clone();
                     async_std::task::spawn_blocking(move || {
                         // We only create a symlink if the target bin exists.
-                        let target_dir = &target_dir;
                         if from.symlink_metadata().is_ok() {
+                            let target_dir = to.parent().expect("must have parent");
                             super::mkdirp(target_dir, &mkdir_cache)?;
-                            // TODO: use a DashMap here to prevent race conditions, maybe?
-                            if let Ok(meta) = to.symlink_metadata() {
-                                if meta.is_dir() {
-                                    std::fs::remove_dir_all(&to).io_context(|| {
-                                        format!(
-                                            "Failed to remove existing bin dir at {} while linking {} bin.",
-                                            to.display(),
-                                            name,
-                                        )
-                                    })?;
-                                } else {
-                                    std::fs::remove_file(&to).io_context(|| {
-                                        format!(
-                                            "Failed to remove existing bin file at {} while linking {} bin.",
-                                            to.display(),
-                                            name,
-                                        )
-                                    })?;
-                                }
-                            }
                             super::link_bin(&from, &to)?;
                             tracing::trace!(
-                                "Linked bin for {} from {} to {}",
-                                name,
+                                "Linked bin from {} to {}",
                                 from.display(),
                                 to.display()
                             );
@@ -443,9 +421,9 @@ impl HoistedLinker {
                     })
                     .await?;
                     linked.fetch_add(1, atomic::Ordering::SeqCst);
-                }
-                Ok::<_, NodeMaintainerError>(())
-            })
+                    Ok::<_, NodeMaintainerError>(())
+                },
+            )
             .await?;
         let linked = linked.load(atomic::Ordering::SeqCst);
         Ok(linked)
@@ -464,3 +442,9 @@ impl HoistedLinker {
         )
     }
 }
+
+fn is_scope_dir(path: &Path) -> bool {
+    path.file_name()
+        .map(|name| name.to_string_lossy().starts_with('@'))
+        .unwrap_or(false)
+}
-- 
2.43.0


From bf58504ffec7ce59264e42ae8080e8752007fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 08/77] fix: a file's mode no longer depends on which other
 files share its contents

---
 crates/nassun/src/tarball.rs              | 55 ++++++++++++++---------
 crates/node-maintainer/src/linkers/mod.rs | 17 ++++---
 2 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index c0a4cc1..30ed722 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -464,40 +464,53 @@ pub(crate) fn extract_from_cache(
         ExtractMode::Copy => copy_from_cache(cache, sri, to)?,
     }
     #[cfg(unix)]
-    {
-        if mode != 0o644 {
-            use std::os::unix::fs::PermissionsExt;
-            std::fs::set_permissions(to, std::fs::Permissions::from_mode(mode)).map_err(|e| {
-                NassunError::ExtractIoError(
-                    e,
-                    Some(to.to_path_buf()),
-                    "setting permissions on extracted file.".into(),
-                )
-            })?;
-        }
-    }
+    set_mode(to, mode)?;
     Ok(())
 }
 
+/// Sets the mode of an extracted file, without affecting any other file hard
+/// linked to the same contents.
 #[cfg(unix)]
-pub(crate) fn set_bin_mode(path: &Path) -> Result<()> {
-    use std::os::unix::fs::PermissionsExt;
-    let metadata = std::fs::metadata(path).map_err(|e| {
+fn set_mode(path: &Path, mode: u32) -> Result<()> {
+    use std::os::unix::fs::{MetadataExt, PermissionsExt};
+    let set = || {
+        let meta = std::fs::metadata(path)?;
+        let current = meta.permissions().mode() & 0o7777;
+        if current == mode {
+            return Ok(());
+        }
+        // Everything the cache holds is only accessible by its owner at
+        // first, which isn't what any of the files linked to it want.
+        if meta.nlink() == 1 || (mode == 0o644 && current == 0o600) {
+            return std::fs::set_permissions(path, PermissionsExt::from_mode(mode));
+        }
+        let temp = NamedTempFile::new_in(path.parent().expect("must have a parent"))?;
+        std::fs::copy(path, temp.path())?;
+        std::fs::set_permissions(temp.path(), PermissionsExt::from_mode(mode))?;
+        temp.persist(path)?;
+        Ok(())
+    };
+    set().map_err(|e: std::io::Error| {
         NassunError::ExtractIoError(
             e,
             Some(path.to_path_buf()),
-            "Getting extracted file metadata.".into(),
+            "setting permissions on extracted file.".into(),
         )
-    })?;
-    let mode = metadata.permissions().mode();
-    std::fs::set_permissions(path, std::fs::Permissions::from_mode(mode | 0o111)).map_err(|e| {
+    })
+}
+
+#[cfg(unix)]
+pub(crate) fn set_bin_mode(path: &Path) -> Result<()> {
+    use std::os::unix::fs::PermissionsExt;
+    let metadata = std::fs::metadata(path).map_err(|e| {
         NassunError::ExtractIoError(
             e,
             Some(path.to_path_buf()),
-            "setting permissions on extracted file.".into(),
+            "Getting extracted file metadata.".into(),
         )
     })?;
-    Ok(())
+    let mode = metadata.permissions().mode() & 0o7777;
+    set_mode(path, mode | 0o111)
 }
 
 #[cfg(not(target_arch = "wasm32"))]
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 8f4fb93..9de0440 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -501,13 +501,16 @@ pub(crate) fn link_bin(from: &Path, to: &Path) -> Result<(), NodeMaintainerError
             )
         })?;
         let mut perms = meta.permissions();
-        perms.set_mode(0o755);
-        std::fs::set_permissions(from, perms).io_context(|| {
-            format!(
-                "Failed to set new permissions for {} while linking bin.",
-                from.display()
-            )
-        })?;
+        // Extracted bins usually are executable already.
+        if perms.mode() & 0o777 != 0o755 {
+            perms.set_mode(0o755);
+            std::fs::set_permissions(from, perms).io_context(|| {
+                format!(
+                    "Failed to set new permissions for {} while linking bin.",
+                    from.display()
+                )
+            })?;
+        }
         let relative = pathdiff::diff_paths(from, to.parent().unwrap()).unwrap();
         std::os::unix::fs::symlink(&relative, to).io_context(|| {
             format!(
-- 
2.43.0


From a874e636412b019c971fa60ae03349b681a76c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 09/77] fix: dist-tag dependencies keep their place when
 applying a lockfile

---
 crates/node-maintainer/src/resolver.rs | 44 ++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index c612d8f..258c439 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -242,12 +242,26 @@ impl<'a> Resolver<'a> {
                                 continue;
                             }
 
+                            // Tags have to be fetched even when there's a
+                            // lockfile, but what they resolve to might still
+                            // be where it was locked.
+                            let target_path = lockfile
+                                .as_ref()
+                                .or(self.actual_tree.as_ref())
+                                .and_then(|lock| {
+                                    Self::find_locked(&self.graph, &dep, lock, |node| {
+                                        node.resolved.as_deref()
+                                            == Some(package.resolved().to_string().as_str())
+                                    })
+                                })
+                                .map(|node| node.path.clone());
+
                             let child_idx = Self::place_child(
                                 &mut self.graph,
                                 &dep,
                                 package.clone(),
                                 manifest.clone(),
-                                None,
+                                target_path,
                             )?;
 
                             q.push_back(child_idx);
@@ -368,6 +382,31 @@ impl<'a> Resolver<'a> {
         Ok(None)
     }
 
+    /// Finds what the lockfile would have the dependent load for this
+    /// dependency, as long as it's what we want it to be.
+    fn find_locked<'l>(
+        graph: &Graph,
+        dep: &NodeDependency,
+        lockfile: &'l Lockfile,
+        wanted: impl Fn(&LockfileNode) -> bool,
+    ) -> Option<&'l LockfileNode> {
+        let mut path = graph.node_path(dep.node_idx);
+        loop {
+            path.push_back(dep.name.clone());
+            let path_str = UniCase::from(
+                path.iter()
+                    .map(|x| x.to_string())
+                    .collect::<Vec<_>>()
+                    .join("/node_modules/"),
+            );
+            path.pop_back();
+            if let Some(node) = lockfile.packages().get(&path_str) {
+                return Some(node).filter(|node| wanted(node));
+            }
+            path.pop_back()?;
+        }
+    }
+
     fn place_child(
         graph: &mut Graph,
         dep: &NodeDependency,
@@ -416,7 +455,8 @@ impl<'a> Resolver<'a> {
             }
 
             if let Some((req, _)) = graph[curr_target_idx].dependency_reqs.get(child_name) {
-                if !graph[child_idx].package.resolved().satisfies(req)? {
+                // What was fetched for a tag satisfies that tag, by definition.
+                if req != requested && !graph[child_idx].package.resolved().satisfies(req)? {
                     break 'outer;
                 }
             }
-- 
2.43.0


From 10cb15af9509231fbeadda2a9adb2aa4f09cf189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 10/77] fix: debug builds don't reject installs with dist-tag
 dependencies

---
 crates/node-maintainer/src/graph.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index 921fdd5..af37533 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -16,6 +16,8 @@ use unicase::UniCase;
 
 use crate::{error::NodeMaintainerError, Lockfile, LockfileNode};
 
+#[cfg(debug_assertions)]
+use nassun::VersionSpec;
 #[cfg(debug_assertions)]
 use NodeMaintainerError::GraphValidationError;
 
@@ -341,7 +343,15 @@ impl Graph {
                 if let Some(dep_idx) = self.resolve_dep(dependent.idx, dep_name) {
                     let dependency = &self.inner[dep_idx];
 
-                    if !dependency.package.resolved().satisfies(&edge.requested)? {
+                    // What a tag refers to isn't known here.
+                    let is_tag = matches!(
+                        edge.requested.target(),
+                        PackageSpec::Npm {
+                            requested: Some(VersionSpec::Tag(_)),
+                            ..
+                        }
+                    );
+                    if !is_tag && !dependency.package.resolved().satisfies(&edge.requested)? {
                         return Err(GraphValidationError(format!(
                             "Dependency {:?} does not satisfy requirement {} from {:?}",
                             dependency.package.resolved(),
-- 
2.43.0


From 3a667c64daac1b4ad0a5199792cb65488249e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 11/77] fix: bins are resolved inside their own package,
 including those from directories.bin

---
 crates/nassun/src/tarball.rs            | 11 ++++-
 crates/oro-common/src/build_manifest.rs | 64 ++++++++++++++++---------
 2 files changed, 51 insertions(+), 24 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 30ed722..6143433 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -346,8 +346,17 @@ impl TempTarball {
             }
         }
 
-        if let Some(BuildManifest { bin, .. }) = &build_mani {
+        if build_mani.is_some() {
+            // Now that everything's been extracted, we can tell which of the
+            // bins exist, including any from `directories.bin`.
+            let BuildManifest { bin, .. } = BuildManifest::from_path(dir.join("package.json"))
+                .io_context(|| {
+                    format!("Failed to read BuildManifest from {}.", dir.display())
+                })?;
             for binpath in bin.values() {
+                if !dir.join(binpath).is_file() {
+                    continue;
+                }
                 tarball_index
                     .bin_paths
                     .push(binpath.to_string_lossy().to_string());
diff --git a/crates/oro-common/src/build_manifest.rs b/crates/oro-common/src/build_manifest.rs
index 27d0800..e2cafab 100644
--- a/crates/oro-common/src/build_manifest.rs
+++ b/crates/oro-common/src/build_manifest.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::HashMap,
     ffi::OsStr,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use serde::{Deserialize, Serialize};
@@ -47,11 +47,12 @@ impl BuildManifest {
         let path = path.as_ref();
         let pkg_str = std::fs::read_to_string(path)?;
         let raw: RawBuildManifest = serde_json::from_str(&pkg_str)?;
-        Self::normalize(raw)
+        Self::normalize(raw, path.parent())
     }
 
     /// Create a new [`BuildManifest`] from an already fully loaded [`Manifest`],
-    /// normalizing its bin field (or its `directories.bin`) into a plain HashMap.
+    /// normalizing its bin field into a plain HashMap. `directories.bin` can't
+    /// be looked at without knowing where the package is, and is ignored.
     pub fn from_manifest(manifest: &Manifest) -> std::io::Result<Self> {
         // This is a bit ineffecient but honestly it's not a big deal,
         // we already did a bunch of I/O to get the Manifest.
@@ -61,10 +62,10 @@ impl BuildManifest {
             directories: manifest.directories.clone(),
             scripts: manifest.scripts.clone(),
         };
-        Self::normalize(raw)
+        Self::normalize(raw, None)
     }
 
-    fn normalize(raw: RawBuildManifest) -> std::io::Result<Self> {
+    fn normalize(raw: RawBuildManifest, package_dir: Option<&Path>) -> std::io::Result<Self> {
         let mut bin_map = HashMap::new();
         if let Some(Bin::Hash(bins)) = raw.bin {
             for (name, bin) in bins {
@@ -93,14 +94,24 @@ impl BuildManifest {
             bin: Some(bin_dir), ..
         }) = raw.directories
         {
-            for entry in WalkDir::new(bin_dir) {
-                let entry = entry?;
-                let path = entry.path();
-                if path.starts_with(".") {
-                    continue;
-                }
-                if let Some(file_name) = path.file_name() {
-                    bin_map.insert(file_name.to_string_lossy().to_string(), path.into());
+            if let Some(package_dir) = package_dir {
+                let bin_dir = package_dir.join(contained_path(&bin_dir));
+                // Like npm, we don't mind if the directory isn't there.
+                let entries = WalkDir::new(&bin_dir)
+                    .sort_by_file_name()
+                    .into_iter()
+                    .filter_entry(|entry| {
+                        entry.depth() == 0 || !entry.file_name().to_string_lossy().starts_with('.')
+                    });
+                for entry in entries.filter(|_| bin_dir.is_dir()) {
+                    let entry = entry?;
+                    if let (false, Ok(path)) = (
+                        entry.file_type().is_dir(),
+                        entry.path().strip_prefix(package_dir),
+                    ) {
+                        let name = entry.file_name().to_string_lossy().to_string();
+                        bin_map.insert(name, path.into());
+                    }
                 }
             }
         };
@@ -133,16 +144,7 @@ impl BuildManifest {
 
             let base = base.unwrap();
 
-            let bin_target = Path::new("/")
-                .join(bin.to_string_lossy().to_string())
-                .strip_prefix(
-                    #[cfg(windows)]
-                    "\\",
-                    #[cfg(not(windows))]
-                    "/",
-                )
-                .expect("We added this ourselves")
-                .to_path_buf();
+            let bin_target = contained_path(bin);
             if bin_target == Path::new("") {
                 continue;
             }
@@ -155,3 +157,19 @@ impl BuildManifest {
         })
     }
 }
+
+/// Resolves a path declared in a package.json against the package's directory,
+/// which it can't point out of.
+fn contained_path(path: &Path) -> PathBuf {
+    let mut contained = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::Normal(name) => contained.push(name),
+            Component::ParentDir => {
+                contained.pop();
+            }
+            Component::CurDir | Component::RootDir | Component::Prefix(_) => {}
+        }
+    }
+    contained
+}
-- 
2.43.0


From 44e3729f4eb490cab7ae2600d2f8547475e8caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 12/77] fix: a bin whose target is missing doesn't hide another
 package's bin of the same name

---
 crates/node-maintainer/src/linkers/hoisted.rs | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 01b553b..34f3bbe 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -395,8 +395,11 @@ impl HoistedLinker {
                 })?;
 
             for (name, path) in &build_mani.bin {
-                bins.entry(target_dir.join(name))
-                    .or_insert_with(|| package_dir.join(path));
+                let from = package_dir.join(path);
+                // We only create a symlink if the target bin exists.
+                if from.symlink_metadata().is_ok() {
+                    bins.entry(target_dir.join(name)).or_insert(from);
+                }
             }
         }
         futures::stream::iter(bins)
@@ -406,17 +409,10 @@ impl HoistedLinker {
                 move |((to, from), linked)| async move {
                     let mkdir_cache = self.mkdir_cache.clone();
                     async_std::task::spawn_blocking(move || {
-                        // We only create a symlink if the target bin exists.
-                        if from.symlink_metadata().is_ok() {
-                            let target_dir = to.parent().expect("must have parent");
-                            super::mkdirp(target_dir, &mkdir_cache)?;
-                            super::link_bin(&from, &to)?;
-                            tracing::trace!(
-                                "Linked bin from {} to {}",
-                                from.display(),
-                                to.display()
-                            );
-                        }
+                        let target_dir = to.parent().expect("must have parent");
+                        super::mkdirp(target_dir, &mkdir_cache)?;
+                        super::link_bin(&from, &to)?;
+                        tracing::trace!("Linked bin from {} to {}", from.display(), to.display());
                         Ok::<_, NodeMaintainerError>(())
                     })
                     .await?;
-- 
2.43.0


From 86e80fb52df9a3eb83a5c8704b045b51ab31378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 13/77] fix: install scripts may print output that isn't valid
 UTF-8

---
 crates/node-maintainer/src/linkers/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 9de0440..511f3f8 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -351,15 +351,18 @@ impl Linker {
                 async_std::task::spawn_blocking(move || {
                     let _enter = stdout_span.enter();
                     if let Some(stdout) = stdout {
-                        for line in BufReader::new(stdout).lines() {
+                        // Scripts can print anything, not just valid UTF-8.
+                        for line in BufReader::new(stdout).split(b'\n') {
                             let line = line.io_context(|| {
                                 format!(
                                     "Failed to read line from stdout while executing script for {stdout_resolved}",
                                 )
                             })?;
+                            let line = String::from_utf8_lossy(&line);
+                            let line = line.strip_suffix('\r').unwrap_or(&line);
                             tracing::debug!("stdout::{stdout_name}::{event}: {line}");
                             if let Some(on_script_line) = &stdout_on_line {
-                                on_script_line(&line);
+                                on_script_line(line);
                             }
                         }
                     }
@@ -368,15 +371,18 @@ impl Linker {
                 async_std::task::spawn_blocking(move || {
                     let _enter = stderr_span.enter();
                     if let Some(stderr) = stderr {
-                        for line in BufReader::new(stderr).lines() {
+                        // Scripts can print anything, not just valid UTF-8.
+                        for line in BufReader::new(stderr).split(b'\n') {
                             let line = line.io_context(|| {
                                 format!(
-                                    "Failed to read line from stdout while executing script for {stderr_resolved}",
+                                    "Failed to read line from stderr while executing script for {stderr_resolved}",
                                 )
                             })?;
+                            let line = String::from_utf8_lossy(&line);
+                            let line = line.strip_suffix('\r').unwrap_or(&line);
                             tracing::debug!("stderr::{stderr_name}::{event_clone}: {line}");
                             if let Some(on_script_line) = &stderr_on_line {
-                                on_script_line(&line);
+                                on_script_line(line);
                             }
                         }
                     }
-- 
2.43.0


From 4dd3060b20091c32cd7a2253d6f54c6759c1390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 14/77] fix: scripts find dependencies' bins before system ones
 of the same name

---
 crates/oro-script/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oro-script/src/lib.rs b/crates/oro-script/src/lib.rs
index 4c02efc..75ed738 100644
--- a/crates/oro-script/src/lib.rs
+++ b/crates/oro-script/src/lib.rs
@@ -175,15 +175,17 @@ impl<'a> OroScript<'a> {
     }
 
     fn set_all_paths(mut self) -> Result<Self> {
+        // The package's own bins take precedence over what's already in $PATH.
+        let mut bin_paths = Vec::new();
         for dir in self.package_path.ancestors() {
-            self.paths
-                .push(dir.join("node_modules").join(".bin").to_path_buf());
+            bin_paths.push(dir.join("node_modules").join(".bin"));
             if let Some(workspace_path) = &self.workspace_path {
                 if dir == workspace_path {
                     break;
                 }
             }
         }
+        self.paths.splice(0..0, bin_paths);
         let paths = format!("{}", std::env::join_paths(&self.paths)?.to_string_lossy());
         for (var, _) in Self::current_paths() {
             self = self.env(format!("{}", var.to_string_lossy()), paths.clone());
-- 
2.43.0


From 0da282d2aa8ab32c7d5c57bf9ed949d68957392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 15/77] fix: a package is optional when everything that leads
 to it is

---
 crates/node-maintainer/src/graph.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index af37533..539376e 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -1,3 +1,5 @@
+#[cfg(not(target_arch = "wasm32"))]
+use std::collections::HashSet;
 use std::{
     collections::VecDeque,
     ffi::OsStr,
@@ -11,7 +13,7 @@ use nassun::{package::Package, PackageResolution, PackageSpec};
 use oro_common::CorgiManifest;
 use petgraph::stable_graph::{EdgeIndex, NodeIndex, StableGraph};
 #[cfg(not(target_arch = "wasm32"))]
-use petgraph::Direction;
+use petgraph::{visit::EdgeRef, Direction};
 use unicase::UniCase;
 
 use crate::{error::NodeMaintainerError, Lockfile, LockfileNode};
@@ -169,11 +171,20 @@ impl IndexMut<EdgeIndex> for Graph {
 
 impl Graph {
     #[cfg(not(target_arch = "wasm32"))]
+    /// Whether the only way to reach this node from the root is through
+    /// optional dependencies.
     pub fn is_optional(&self, node: NodeIndex) -> bool {
-        for edge_ref in self.inner.edges_directed(node, Direction::Incoming) {
-            if edge_ref.weight().dep_type != DepType::Opt {
+        let mut seen = HashSet::from([node]);
+        let mut queue = vec![node];
+        while let Some(idx) = queue.pop() {
+            if idx == self.root {
                 return false;
             }
+            for edge_ref in self.inner.edges_directed(idx, Direction::Incoming) {
+                if edge_ref.weight().dep_type != DepType::Opt && seen.insert(edge_ref.source()) {
+                    queue.push(edge_ref.source());
+                }
+            }
         }
         true
     }
-- 
2.43.0


From 5e2d06789cbbdc12bb8fb059444ddedd0de6a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 16/77] fix: the resolved tree no longer depends on the order
 responses arrive in

---
 crates/node-maintainer/src/resolver.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 258c439..5b6f2fc 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -103,8 +103,10 @@ impl<'a> Resolver<'a> {
                     .resolve_spec(spec.clone())
                     .map_ok(move |p| (p, spec))
             })
-            .buffer_unordered(self.concurrency)
-            .ready_chunks(self.concurrency);
+            // Packages are placed in the order they were asked for, and not as
+            // they come in, so timing doesn't change the result.
+            .buffered(self.concurrency)
+            .ready_chunks(1);
 
         // Start iterating over the queue. We'll be adding things to it as we find them.
         while !q.is_empty() || !deferred.is_empty() || in_flight != 0 {
-- 
2.43.0


From c61a7c0dbc0dc76a655a6b8679416585c0f2a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 17/77] fix: an alias without a version could fail graph
 validation

---
 crates/node-maintainer/src/graph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index 539376e..107556d 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -354,11 +354,12 @@ impl Graph {
                 if let Some(dep_idx) = self.resolve_dep(dependent.idx, dep_name) {
                     let dependency = &self.inner[dep_idx];
 
-                    // What a tag refers to isn't known here.
+                    // What a tag, including the default one, refers to isn't
+                    // known here.
                     let is_tag = matches!(
                         edge.requested.target(),
                         PackageSpec::Npm {
-                            requested: Some(VersionSpec::Tag(_)),
+                            requested: Some(VersionSpec::Tag(_)) | None,
                             ..
                         }
                     );
-- 
2.43.0


From d8f67e5e69d3c16d8922614800f1420e5e66eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 18/77] fix: aliases in NPM lockfiles are installed by their
 alias

---
 crates/node-maintainer/src/lockfile.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 191b1a6..1f65011 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -173,15 +173,17 @@ impl LockfileNode {
             }
         };
         let spec: PackageSpec = spec.parse()?;
+        // For aliases in NPM lockfiles, this is not the package's own name.
+        let name = self.path.last().unwrap_or(&self.name).to_string();
         let package = match &spec.target() {
             PackageSpec::Dir { path } => {
                 let resolution = PackageResolution::Dir {
-                    name: self.name.to_string(),
+                    name: name.clone(),
                     path: path.clone(),
                 };
-                nassun.resolve_from(self.name.to_string(), spec, resolution)
+                nassun.resolve_from(name, spec, resolution)
             }
-            PackageSpec::Npm { name, .. } => {
+            PackageSpec::Npm { .. } => {
                 let version = if let Some(ref version) = self.version {
                     version
                 } else {
@@ -196,7 +198,7 @@ impl LockfileNode {
                             .map_err(|e| NodeMaintainerError::UrlParseError(url.clone(), e))?,
                         integrity: self.integrity.clone(),
                     };
-                    nassun.resolve_from(self.name.to_string(), spec, resolution)
+                    nassun.resolve_from(name, spec, resolution)
                 } else {
                     nassun.resolve(spec.to_string()).await?
                 }
@@ -204,10 +206,10 @@ impl LockfileNode {
             PackageSpec::Git(info) => {
                 if info.committish().is_some() {
                     let resolution = PackageResolution::Git {
-                        name: self.name.to_string(),
+                        name: name.clone(),
                         info: info.clone(),
                     };
-                    nassun.resolve_from(self.name.to_string(), spec, resolution)
+                    nassun.resolve_from(name, spec, resolution)
                 } else {
                     nassun.resolve(spec.to_string()).await?
                 }
-- 
2.43.0


From fb7842337ed93f7b773ed32d3df9e803d4a90d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 19/77] fix: --locked rejected lockfiles that were up to date

---
 crates/node-maintainer/src/resolver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 5b6f2fc..f2f6c20 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -290,7 +290,10 @@ impl<'a> Resolver<'a> {
 
         if self.locked {
             if let Some(lockfile) = lockfile {
-                if lockfile != self.graph.to_lockfile()? {
+                // Compared as written: some of what's known about the root in
+                // a graph is not part of a lockfile.
+                let resolved = self.graph.to_lockfile()?;
+                if lockfile.to_kdl().to_string() != resolved.to_kdl().to_string() {
                     return Err(NodeMaintainerError::LockfileMismatch);
                 }
             }
-- 
2.43.0


From 1c0175e3bf7bf7b5932d8a656efd2f76d4e0362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 20/77] fix: nested copies in a lockfile were replaced by
 copies nearer the root

---
 crates/node-maintainer/src/resolver.rs | 109 +++++++++++++++----------
 1 file changed, 66 insertions(+), 43 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index f2f6c20..b174b63 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -142,58 +142,82 @@ impl<'a> Resolver<'a> {
                         continue;
                     }
 
-                    if let Some(_child_idx) = Self::satisfy_dependency(&mut self.graph, &dep, None)?
-                    {
-                        if let Some(handler) = &self.on_resolve_progress {
-                            handler(&self.graph[_child_idx].package, dep.start.elapsed());
+                    // If we have a lockfile, check if there's a dep there that
+                    // would satisfy this. Fall back to the actual tree lock if
+                    // it's there.
+                    let lock = lockfile.as_ref().or(self.actual_tree.as_ref());
+
+                    // Something that's already been placed is only what this
+                    // should load if the lockfile doesn't have anything nearer.
+                    let mut locked = None;
+                    if let Some(lock) = lock {
+                        if let Some(idx) = self.graph.find_by_name(node_idx, &name)? {
+                            let depth = self.graph.node_path(idx).len();
+                            if Self::find_locked(&self.graph, &dep, lock, |node| {
+                                node.path.len() > depth
+                            })
+                            .is_some()
+                            {
+                                locked = self
+                                    .satisfy_from_lockfile(
+                                        &self.graph,
+                                        node_idx,
+                                        lock,
+                                        &name,
+                                        &dep.spec,
+                                    )
+                                    .await?;
+                            }
                         }
                     }
-                    // Walk up the current hierarchy to see if we find a
-                    // dependency that already satisfies this request. If so,
-                    // make a new edge and move on.
-                    else {
-                        // If we have a lockfile, first check if there's a
-                        // dep there that would satisfy this.
-                        let lock = if lockfile.is_some() {
-                            &lockfile
-                        } else {
-                            // Fall back to the actual tree lock if it's there.
-                            &self.actual_tree
-                        };
-                        if let Some(kdl_lock) = lock {
-                            if let Some((package, lockfile_node)) = self
+
+                    if locked.is_none() {
+                        // Walk up the current hierarchy to see if we find a
+                        // dependency that already satisfies this request. If
+                        // so, make a new edge and move on.
+                        if let Some(_child_idx) =
+                            Self::satisfy_dependency(&mut self.graph, &dep, None)?
+                        {
+                            if let Some(handler) = &self.on_resolve_progress {
+                                handler(&self.graph[_child_idx].package, dep.start.elapsed());
+                            }
+                            continue;
+                        }
+                        if let Some(lock) = lock {
+                            locked = self
                                 .satisfy_from_lockfile(
                                     &self.graph,
                                     node_idx,
-                                    kdl_lock,
+                                    lock,
                                     &name,
                                     &dep.spec,
                                 )
-                                .await?
-                            {
-                                let target_path = lockfile_node.path.clone();
+                                .await?;
+                        }
+                    }
 
-                                let child_idx = Self::place_child(
-                                    &mut self.graph,
-                                    &dep,
-                                    package,
-                                    lockfile_node.into(),
-                                    Some(target_path),
-                                )?;
-                                q.push_back(child_idx);
+                    if let Some((package, lockfile_node)) = locked {
+                        let target_path = lockfile_node.path.clone();
 
-                                if let Some(handler) = &self.on_resolve_progress {
-                                    handler(&self.graph[child_idx].package, dep.start.elapsed());
-                                }
-                                continue;
-                            }
+                        let child_idx = Self::place_child(
+                            &mut self.graph,
+                            &dep,
+                            package,
+                            lockfile_node.into(),
+                            Some(target_path),
+                        )?;
+                        q.push_back(child_idx);
+
+                        if let Some(handler) = &self.on_resolve_progress {
+                            handler(&self.graph[child_idx].package, dep.start.elapsed());
                         }
+                        continue;
+                    }
 
-                        // Otherwise, we have to fetch package metadata to
-                        // create a new node (which we'll place later).
-                        in_flight += 1;
-                        package_sink.unbounded_send(dep)?;
-                    };
+                    // Otherwise, we have to fetch package metadata to
+                    // create a new node (which we'll place later).
+                    in_flight += 1;
+                    package_sink.unbounded_send(dep)?;
                 }
             }
 
@@ -451,9 +475,8 @@ impl<'a> Resolver<'a> {
                         .inner
                         .edge_endpoints(edge_ref.id())
                         .expect("Where did the edge go?!?!");
-                    if graph.is_ancestor(curr_target_idx, from)
-                        && !graph[resolved].package.resolved().satisfies(requested)?
-                    {
+                    // Whatever loads that one would load this one instead.
+                    if graph.is_ancestor(curr_target_idx, from) {
                         break 'outer;
                     }
                 }
-- 
2.43.0


From 73edb3f5ca1eaa4deb8be541167ca8792fd97e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 21/77] fix: paths with an @ in them, and names like '..',
 parsed as package names

---
 crates/oro-package-spec/src/parsers/alias.rs |  9 ++++++---
 crates/oro-package-spec/src/parsers/npm.rs   |  2 +-
 crates/oro-package-spec/src/parsers/util.rs  | 12 ++++++++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/alias.rs b/crates/oro-package-spec/src/parsers/alias.rs
index ba61508..04865aa 100644
--- a/crates/oro-package-spec/src/parsers/alias.rs
+++ b/crates/oro-package-spec/src/parsers/alias.rs
@@ -1,6 +1,6 @@
 use nom::branch::alt;
 use nom::bytes::complete::{tag_no_case as tag, take_till1};
-use nom::combinator::{map, map_res, opt};
+use nom::combinator::{map, map_res, not, opt};
 use nom::error::context;
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -15,12 +15,15 @@ pub(crate) fn alias_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseErr
         "alias",
         map(
             tuple((
+                // Names don't start with a dot. Paths do, and they can have an
+                // `@` further in.
+                not(tag(".")),
                 opt(scope),
-                map_res(take_till1(|c| c == '@' || c == '/'), util::no_url_encode),
+                map_res(take_till1(|c| c == '@' || c == '/'), util::package_name),
                 tag("@"),
                 prefixed_package_spec,
             )),
-            |(scope, name, _, arg)| {
+            |(_, scope, name, _, arg)| {
                 let mut fullname = String::new();
                 if let Some(scope) = scope {
                     fullname.push_str(&scope);
diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index f013beb..4158fdf 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -23,7 +23,7 @@ pub(crate) fn npm_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError
                     map_res(take_till1(|c| c == '/'), util::no_url_encode),
                     char('/'),
                 )),
-                map_res(take_till1(|x| x == '@' || x == '/'), util::no_url_encode),
+                map_res(take_till1(|x| x == '@' || x == '/'), util::package_name),
                 opt(preceded(tag("@"), cut(version_req))),
             )),
             |(scope_opt, name, req)| {
diff --git a/crates/oro-package-spec/src/parsers/util.rs b/crates/oro-package-spec/src/parsers/util.rs
index d75374a..a095dd6 100644
--- a/crates/oro-package-spec/src/parsers/util.rs
+++ b/crates/oro-package-spec/src/parsers/util.rs
@@ -26,3 +26,15 @@ pub(crate) fn no_url_encode(tag: &str) -> Result<&str, SpecParseError<&str>> {
         })
     }
 }
+
+/// Names become directories, and ones like `.` and `..` already mean something.
+pub(crate) fn package_name(name: &str) -> Result<&str, SpecParseError<&str>> {
+    if name.starts_with('.') {
+        return Err(SpecParseError {
+            input: name,
+            context: None,
+            kind: Some(SpecErrorKind::InvalidCharacters(name.into())),
+        });
+    }
+    no_url_encode(name)
+}
-- 
2.43.0


From 38184c5972c828743fed818ef550c8ce7d84b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 22/77] fix: an empty version requirement means any version

---
 crates/oro-package-spec/src/parsers/npm.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index 4158fdf..599d17d 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -3,7 +3,7 @@ use node_semver::{Range as SemVerRange, Version as SemVerVersion};
 use nom::branch::alt;
 use nom::bytes::complete::{tag_no_case as tag, take_till1};
 use nom::character::complete::char;
-use nom::combinator::{cut, map, map_res, opt};
+use nom::combinator::{cut, eof, map, map_res, opt};
 use nom::error::context;
 use nom::sequence::{delimited, preceded, tuple};
 use nom::IResult;
@@ -45,10 +45,16 @@ pub(crate) fn npm_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError
 fn version_req(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
     context(
         "version requirement",
-        alt((semver_version, semver_range, version_tag)),
+        alt((any_version, semver_version, semver_range, version_tag)),
     )(input)
 }
 
+/// An empty requirement is the same as `*`.
+fn any_version(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
+    let (input, range) = map_res(eof, |_| SemVerRange::parse("*"))(input)?;
+    Ok((input, VersionSpec::Range(range)))
+}
+
 fn semver_version(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
     let (input, version) = map_res(take_till1(|_| false), SemVerVersion::parse)(input)?;
     Ok((input, VersionSpec::Version(version)))
-- 
2.43.0


From 488d8aa3a162712cc7434a35cca1bfbecbd5ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 23/77] fix: git specs that crashed, lost part of the repo name
 or didn't print as themselves

---
 crates/oro-package-spec/src/gitinfo.rs     |  7 ++++--
 crates/oro-package-spec/src/parsers/git.rs | 26 +++++++---------------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/crates/oro-package-spec/src/gitinfo.rs b/crates/oro-package-spec/src/gitinfo.rs
index 9746d40..65214cd 100644
--- a/crates/oro-package-spec/src/gitinfo.rs
+++ b/crates/oro-package-spec/src/gitinfo.rs
@@ -174,7 +174,7 @@ impl fmt::Display for GitInfo {
                 committish,
                 semver,
             } => {
-                if url.scheme() != "git" {
+                if !url.as_str().starts_with("git://") {
                     write!(f, "git+")?;
                 }
                 write!(f, "{url}")?;
@@ -205,7 +205,10 @@ impl fmt::Display for GitInfo {
                 semver,
             } => {
                 if let Some(requested) = requested {
-                    if !requested.starts_with("git://") {
+                    if !requested.contains("://") {
+                        // user@host:path
+                        write!(f, "git+ssh://")?;
+                    } else if !requested.starts_with("git://") {
                         write!(f, "git+")?;
                     }
                     write!(f, "{requested}")?;
diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index f98f659..6f570a1 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -76,7 +76,7 @@ fn semver_range(input: &str) -> IResult<&str, Range, SpecParseError<&str>> {
 
 fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
     let (input, url) = preceded(
-        alt((tag("git+"), peek(tag("git://")))),
+        alt((tag("git+"), peek(tag("git://")), peek(tag("ssh://")))),
         map_res(take_till1(|c| c == '#'), Url::parse),
     )(input)?;
     let (input, (committish, semver)) = committish(input)?;
@@ -85,7 +85,10 @@ fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
         | Some(host @ "gitlab.com")
         | Some(host @ "gist.github.com")
         | Some(host @ "bitbucket.org") => {
-            let path = (url.path()[1..])
+            let path = url
+                .path()
+                .strip_prefix('/')
+                .unwrap_or_default()
                 .split('/')
                 .map(String::from)
                 .collect::<Vec<String>>();
@@ -101,11 +104,7 @@ fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                             _ => unreachable!(),
                         },
                         owner: owner.clone(),
-                        repo: if repo.ends_with(".git") {
-                            String::from(&repo[..].replace(".git", ""))
-                        } else {
-                            repo.clone()
-                        },
+                        repo: repo.strip_suffix(".git").unwrap_or(repo).into(),
                         committish,
                         semver,
                         requested: Some(url.to_string()),
@@ -135,7 +134,7 @@ fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
 
 fn git_scp(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
     let (input, _) = preceded(opt(tag("git+")), tag("ssh://"))(input)?;
-    let (input, username) = opt(terminated(take_till1(|c| c == '@'), tag("@")))(input)?;
+    let (input, username) = opt(terminated(take_till1(|c| c == '@' || c == '/'), tag("@")))(input)?;
     let (input, host) = take_till1(|c| c == ':' || c == '#')(input)?;
     let (input, path) = opt(preceded(tag(":"), take_till1(|c| c == '#')))(input)?;
     let (input, (committish, semver)) = committish(input)?;
@@ -159,11 +158,6 @@ fn git_scp(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                 .map(String::from)
                 .collect::<Vec<String>>();
             if let [owner, repo] = &path[..] {
-                let repo = if repo.ends_with(".git") {
-                    String::from(&repo[..].replace(".git", ""))
-                } else {
-                    repo.clone()
-                };
                 Ok((
                     input,
                     GitInfo::Hosted {
@@ -175,11 +169,7 @@ fn git_scp(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                             _ => unreachable!(),
                         },
                         owner: owner.clone(),
-                        repo: if repo.ends_with(".git") {
-                            String::from(&repo[..].replace(".git", ""))
-                        } else {
-                            repo
-                        },
+                        repo: repo.strip_suffix(".git").unwrap_or(repo).into(),
                         committish,
                         semver,
                         requested: Some(raw),
-- 
2.43.0


From ae17e09a30f65688f925c1a661cad3dadb9d3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 24/77] fix: removing a dependency from package.json doesn't
 reorder the others

---
 src/commands/add.rs    | 3 ++-
 src/commands/remove.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index 47c1030..4cbcc6d 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -152,7 +152,8 @@ impl AddCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        // NOTE: `.remove()` would change the order of other keys.
+                        obj.retain(|key, _| key != name);
                     }
                 }
             }
diff --git a/src/commands/remove.rs b/src/commands/remove.rs
index da4ab59..94fca80 100644
--- a/src/commands/remove.rs
+++ b/src/commands/remove.rs
@@ -93,7 +93,8 @@ impl RemoveCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        // NOTE: `.remove()` would change the order of other keys.
+                        obj.retain(|key, _| key != name);
                         count += 1;
                     }
                 }
-- 
2.43.0


From b70517ac59694a5357db3935cd0ca661e0de6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 25/77] fix: keep the indentation of a package.json with blank
 lines or none at all

---
 crates/oro-pretty-json/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/oro-pretty-json/src/lib.rs b/crates/oro-pretty-json/src/lib.rs
index 898d0e2..0023dec 100644
--- a/crates/oro-pretty-json/src/lib.rs
+++ b/crates/oro-pretty-json/src/lib.rs
@@ -52,22 +52,26 @@ pub fn to_string_pretty(formatted: &Formatted) -> Result<String, Error> {
 }
 
 fn detect_indentation(json: &str) -> Option<(char, usize)> {
-    let mut lines = json.lines();
+    // Blank lines say nothing about indentation.
+    let mut lines = json
+        .lines()
+        .filter(|line| !line.chars().all(is_json_whitespace));
     lines.next()?;
     let second_line = lines.next()?;
     let mut indent = 0;
-    let mut character = None;
     let mut last_whitespace_char = None;
     for c in second_line.chars() {
         if is_json_whitespace(c) {
             indent += 1;
             last_whitespace_char = Some(c);
+        } else if matches!(c, '}' | ']') {
+            // Nothing in here to be indented.
+            return None;
         } else {
-            character = last_whitespace_char;
             break;
         }
     }
-    character.map(|c| (c, indent))
+    Some((last_whitespace_char.unwrap_or(' '), indent))
 }
 
 fn detect_line_end(json: &str) -> Option<(String, bool)> {
-- 
2.43.0


From d17822c550b64e08a77e2d7c7ac04cb97747137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 26/77] fix: packages with only a shasum can be installed

---
 crates/nassun/src/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 87ec99f..e4c330b 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -269,7 +269,7 @@ impl PackageResolver {
                             v.dist
                                 .shasum
                                 .as_ref()
-                                .map(|s| format!("sha1-{}", s).parse())
+                                .map(|s| Integrity::from_hex(s, ssri::Algorithm::Sha1))
                         })
                         .transpose()?,
                 })
-- 
2.43.0


From 49d83578ffab03dd332cde20dafc64f1edda7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 27/77] fix: extract long and repeated paths, and nothing
 outside the package

---
 crates/nassun/src/tarball.rs | 80 ++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 6143433..654a888 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 #[cfg(not(target_arch = "wasm32"))]
 use std::io::{Read, Seek};
 #[cfg(not(target_arch = "wasm32"))]
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::pin::Pin;
 use std::task::{Context, Poll};
 #[cfg(not(target_arch = "wasm32"))]
@@ -241,18 +241,30 @@ impl TempTarball {
                     "reading entry from tarball".into(),
                 )
             })?;
-            let header = file.header();
-            let mode = header.mode().unwrap_or(0o644) | 0o600;
-            let entry_path = header.path().map_err(|e| {
-                NassunError::ExtractIoError(e, None, "reading path from entry header.".into())
-            })?;
-            let entry_subpath = strip_one(&entry_path)
-                .unwrap_or_else(|| entry_path.as_ref())
-                .to_path_buf();
-            let path = dir.join(&entry_subpath);
-            if let tar::EntryType::Regular = header.entry_type() {
+            let mode = file.header().mode().unwrap_or(0o644) | 0o600;
+            // NOTE: not the header's own path, which leaves out long names.
+            let entry_subpath = entry_subpath(&String::from_utf8_lossy(&file.path_bytes()));
+            if entry_subpath.is_none() {
+                tracing::debug!(
+                    "Ignoring tarball entry outside of package: {}",
+                    String::from_utf8_lossy(&file.path_bytes())
+                );
+            }
+            if let (tar::EntryType::Regular, Some(entry_subpath)) =
+                (file.header().entry_type(), entry_subpath)
+            {
+                let path = dir.join(&entry_subpath);
                 let parent = path.parent().unwrap();
                 mkdirp(parent, &created)?;
+                // The last one of several entries with the same path wins.
+                // Anything that's already there may be a link to the cache,
+                // so it must not be written to.
+                std::fs::remove_file(&path)
+                    .or_else(|e| match e.kind() {
+                        std::io::ErrorKind::NotFound => Ok(()),
+                        _ => Err(e),
+                    })
+                    .io_context(|| format!("Failed to replace {}.", path.display()))?;
 
                 if let Some(cache) = cache {
                     let mut writer = WriteOpts::new()
@@ -275,7 +287,6 @@ impl TempTarball {
                     extract_from_cache(cache, &sri, &path, extract_mode, mode)?;
 
                     let entry_subpath = entry_subpath.to_string_lossy().to_string();
-
                     // We check whether the package has any install scripts.
                     // If so, we need to re-extract all previous files as full
                     // copies and mark the package as having scripts in it.
@@ -326,13 +337,27 @@ impl TempTarball {
                             )
                         })
                         .map(std::io::BufWriter::new)?;
-                    std::io::copy(&mut file, &mut writer).map_err(|e| {
-                        NassunError::ExtractIoError(
-                            e,
-                            Some(path.clone()),
-                            "Copying file to node_modules destination.".into(),
-                        )
-                    })?;
+                    std::io::copy(&mut file, &mut writer)
+                        .and_then(|_| writer.flush())
+                        .map_err(|e| {
+                            NassunError::ExtractIoError(
+                                e,
+                                Some(path.clone()),
+                                "Copying file to node_modules destination.".into(),
+                            )
+                        })?;
+                    drop(writer);
+                    #[cfg(unix)]
+                    set_mode(&path, mode)?;
+
+                    if entry_subpath == Path::new("package.json") {
+                        build_mani = Some(BuildManifest::from_path(&path).io_context(|| {
+                            format!(
+                                "Failed to read BuildManifest from path at {}.",
+                                path.display()
+                            )
+                        })?);
+                    }
                 }
             } else {
                 loop {
@@ -427,10 +452,21 @@ pub(crate) struct TarballIndex {
     pub(crate) files: HashMap<String, (String, u32)>,
 }
 
+/// Path of a tarball entry relative to the directory the package is extracted
+/// to, without the tarball's own toplevel directory. `None` if there's no such
+/// path inside that directory.
 #[cfg(not(target_arch = "wasm32"))]
-fn strip_one(path: &Path) -> Option<&Path> {
-    let mut comps = path.components();
-    comps.next().map(|_| comps.as_path())
+fn entry_subpath(entry_path: &str) -> Option<PathBuf> {
+    let mut subpath = PathBuf::new();
+    for comp in Path::new(entry_path).components().skip(1) {
+        match comp {
+            Component::Normal(name) => subpath.push(name),
+            Component::CurDir => {}
+            Component::ParentDir | Component::RootDir | Component::Prefix(_) => return None,
+        }
+    }
+    subpath.file_name()?;
+    Some(subpath)
 }
 
 #[cfg(not(target_arch = "wasm32"))]
-- 
2.43.0


From 816be6931c8ace6bf4aa55cc4525aafa23cc5cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 28/77] fix: the package.json of a package with install scripts
 isn't linked to the cache

---
 crates/nassun/src/tarball.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 654a888..1ad96ad 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -287,6 +287,10 @@ impl TempTarball {
                     extract_from_cache(cache, &sri, &path, extract_mode, mode)?;
 
                     let entry_subpath = entry_subpath.to_string_lossy().to_string();
+                    tarball_index
+                        .files
+                        .insert(entry_subpath.clone(), (sri.to_string(), mode));
+
                     // We check whether the package has any install scripts.
                     // If so, we need to re-extract all previous files as full
                     // copies and mark the package as having scripts in it.
@@ -314,9 +318,6 @@ impl TempTarball {
                         }
                         build_mani = Some(manifest);
                     }
-                    tarball_index
-                        .files
-                        .insert(entry_subpath, (sri.to_string(), mode));
                 } else {
                     let mut open_opts = std::fs::OpenOptions::new();
                     open_opts.write(true).create_new(true);
-- 
2.43.0


From 80f0307b05afd42df828250bf23d42ccd3ab4ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 29/77] fix: a file only its owner may read doesn't share its
 mode with other files

---
 crates/nassun/src/tarball.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 1ad96ad..55340f7 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -522,12 +522,14 @@ fn set_mode(path: &Path, mode: u32) -> Result<()> {
     let set = || {
         let meta = std::fs::metadata(path)?;
         let current = meta.permissions().mode() & 0o7777;
-        if current == mode {
-            return Ok(());
-        }
+        // Files with the most common mode share the cache's contents.
         // Everything the cache holds is only accessible by its owner at
         // first, which isn't what any of the files linked to it want.
-        if meta.nlink() == 1 || (mode == 0o644 && current == 0o600) {
+        let shareable = mode == 0o644 && (current == 0o600 || current == mode);
+        if meta.nlink() == 1 || shareable {
+            if current == mode {
+                return Ok(());
+            }
             return std::fs::set_permissions(path, PermissionsExt::from_mode(mode));
         }
         let temp = NamedTempFile::new_in(path.parent().expect("must have a parent"))?;
-- 
2.43.0


From bf0ed62f2e04c4e7b9b3ecaf96caf13e6b4889fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 30/77] fix: aliases only have a scope in their name if it
 starts with @

---
 crates/oro-package-spec/src/parsers/alias.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/alias.rs b/crates/oro-package-spec/src/parsers/alias.rs
index 04865aa..b79f297 100644
--- a/crates/oro-package-spec/src/parsers/alias.rs
+++ b/crates/oro-package-spec/src/parsers/alias.rs
@@ -9,7 +9,7 @@ use crate::error::SpecParseError;
 use crate::parsers::{git, npm, path, util};
 use crate::PackageSpec;
 
-// alias_spec := [ [ '@' ], not('/')+ '/' ] not('@/')+ '@' prefixed-package-arg
+// alias_spec := [ '@' not('/')+ '/' ] not('@/')+ '@' prefixed-package-arg
 pub(crate) fn alias_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError<&str>> {
     context(
         "alias",
@@ -57,18 +57,11 @@ fn scope(input: &str) -> IResult<&str, String, SpecParseError<&str>> {
         "scope",
         map(
             tuple((
-                opt(tag("@")),
+                tag("@"),
                 map_res(take_till1(|c| c == '/'), util::no_url_encode),
                 tag("/"),
             )),
-            |(at, scope, _)| {
-                let mut out = String::new();
-                if let Some(at) = at {
-                    out.push_str(at);
-                }
-                out.push_str(scope);
-                out
-            },
+            |(at, scope, _)| format!("{at}{scope}"),
         ),
     )(input)
 }
-- 
2.43.0


From 214c8c6949a03f04a02ccd9797b48ce04a5185ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 31/77] fix: dependency names that aren't package names are
 rejected

---
 crates/node-maintainer/src/error.rs |  5 +++++
 crates/node-maintainer/src/graph.rs | 18 ++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/node-maintainer/src/error.rs b/crates/node-maintainer/src/error.rs
index b3bb79e..f400bf9 100644
--- a/crates/node-maintainer/src/error.rs
+++ b/crates/node-maintainer/src/error.rs
@@ -23,6 +23,11 @@ pub enum NodeMaintainerError {
     #[diagnostic(code(node_maintainer::kdl::semver_parse_error), url(docsrs))]
     SemverParseError(#[from] node_semver::SemverError),
 
+    /// A dependency is listed under something that's not a package name.
+    #[error("Invalid dependency name: `{0}` (for `{1}`)")]
+    #[diagnostic(code(node_maintainer::invalid_dependency_name), url(docsrs))]
+    InvalidDependencyName(String, String),
+
     /// Missing version for NPM package entry in lockfile.
     #[error("Missing version for NPM package entry in lockfile.")]
     #[diagnostic(code(node_maintainer::kdl::missing_version), url(docsrs))]
diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index 107556d..501f6d4 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -89,10 +89,20 @@ impl Node {
         };
         let mut dependency_reqs = IndexMap::new();
         for ((name, spec), dep_type) in deps {
-            dependency_reqs.insert(
-                UniCase::new(name.clone()),
-                (format!("{name}@{spec}").parse()?, dep_type),
-            );
+            let requested: PackageSpec = format!("{name}@{spec}").parse()?;
+            // The name is going to be a path inside node_modules/, so it can't
+            // be anything that doesn't parse as just a name.
+            match &requested {
+                PackageSpec::Npm { name: parsed, .. } | PackageSpec::Alias { name: parsed, .. }
+                    if parsed == name => {}
+                _ => {
+                    return Err(NodeMaintainerError::InvalidDependencyName(
+                        name.clone(),
+                        spec.clone(),
+                    ))
+                }
+            }
+            dependency_reqs.insert(UniCase::new(name.clone()), (requested, dep_type));
         }
         Ok(Self {
             package,
-- 
2.43.0


From 317664931cbc3773b62650c8c870850e39dc624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 32/77] fix: a cache that cannot be read or written does not
 make installs fail

---
 crates/nassun/src/package.rs | 100 +++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 40 deletions(-)

diff --git a/crates/nassun/src/package.rs b/crates/nassun/src/package.rs
index bffe46d..c53b36e 100644
--- a/crates/nassun/src/package.rs
+++ b/crates/nassun/src/package.rs
@@ -209,54 +209,74 @@ impl Package {
         integrity: Option<&Integrity>,
         extract_mode: ExtractMode,
     ) -> Result<Integrity> {
-        if let Some(sri) = integrity {
-            if let Some(cache) = self.cache.as_deref() {
-                if let Some(entry) = cacache::index::find(cache, &crate::tarball::tarball_key(sri))
-                    .map_err(|e| NassunError::ExtractCacheError(e, None))?
+        let cache = self.cache.as_deref();
+        if let (Some(sri), Some(cache)) = (integrity, cache) {
+            // An index that can't be read is as good as no index.
+            let entry = cacache::index::find(cache, &crate::tarball::tarball_key(sri))
+                .unwrap_or_else(|e| {
+                    tracing::warn!("reading the cache index for {:?} failed: {e}", self.resolved());
+                    None
+                });
+            if let Some(entry) = entry {
+                match self
+                    .extract_from_cache(dir, cache, entry, extract_mode)
+                    .await
                 {
-                    let sri = sri.clone();
-                    match self
-                        .extract_from_cache(dir, cache, entry, extract_mode)
-                        .await
-                    {
-                        Ok(_) => return Ok(sri),
-                        // If extracting from the cache failed for some reason
-                        // (bad data, etc), then go ahead and do a network
-                        // extract.
-                        Err(e) => {
-                            tracing::warn!("extracting package {:?} from cache failed, possily due to cache corruption: {e}", self.resolved());
-                            if let Some(entry) =
-                                cacache::index::find(cache, &crate::tarball::tarball_key(&sri))
-                                    .map_err(|e| NassunError::ExtractCacheError(e, None))?
-                            {
-                                tracing::debug!("removing corrupted cache entry.");
-                                clean_from_cache(cache, &sri, entry)?;
+                    Ok(_) => return Ok(sri.clone()),
+                    // If extracting from the cache failed for some reason
+                    // (bad data, etc), then go ahead and do a network
+                    // extract.
+                    Err(e) => {
+                        tracing::warn!("extracting package {:?} from cache failed, possily due to cache corruption: {e}", self.resolved());
+                        if let Ok(Some(entry)) =
+                            cacache::index::find(cache, &crate::tarball::tarball_key(sri))
+                        {
+                            tracing::debug!("removing corrupted cache entry.");
+                            if let Err(e) = clean_from_cache(cache, sri, entry) {
+                                tracing::warn!("removing corrupted cache entry failed: {e}");
                             }
-                            return self
-                                .tarball_checked(sri)
-                                .await?
-                                .extract_from_tarball_data(dir, self.cache.as_deref(), extract_mode)
-                                .await;
                         }
                     }
-                } else {
-                    return self
-                        .tarball_checked(sri.clone())
-                        .await?
-                        .extract_from_tarball_data(dir, self.cache.as_deref(), extract_mode)
-                        .await;
                 }
             }
-            self.tarball_checked(sri.clone())
-                .await?
-                .extract_from_tarball_data(dir, self.cache.as_deref(), extract_mode)
-                .await
-        } else {
-            self.tarball_unchecked()
-                .await?
-                .extract_from_tarball_data(dir, self.cache.as_deref(), extract_mode)
+        }
+        // Another package that shares contents with this one might be busy
+        // removing them, so it's worth trying again. If the cache really
+        // doesn't work: the package itself doesn't need it.
+        for cache in [cache, cache] {
+            match self
+                .extract_from_network(dir, integrity, cache, extract_mode)
                 .await
+            {
+                Err(NassunError::ExtractCacheError(e, _)) if cache.is_some() => {
+                    tracing::warn!(
+                        "writing package {:?} to cache failed: {e}",
+                        self.resolved()
+                    );
+                }
+                res => return res,
+            }
         }
+        self.extract_from_network(dir, integrity, None, extract_mode)
+            .await
+    }
+
+    #[cfg(not(target_arch = "wasm32"))]
+    async fn extract_from_network(
+        &self,
+        dir: &Path,
+        integrity: Option<&Integrity>,
+        cache: Option<&Path>,
+        extract_mode: ExtractMode,
+    ) -> Result<Integrity> {
+        let tarball = if let Some(sri) = integrity {
+            self.tarball_checked(sri.clone()).await?
+        } else {
+            self.tarball_unchecked().await?
+        };
+        tarball
+            .extract_from_tarball_data(dir, cache, extract_mode)
+            .await
     }
 
     #[cfg(not(target_arch = "wasm32"))]
-- 
2.43.0


From 4b0051ab271d2167ba321b20ebacf4a2fdee1869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 33/77] fix: an alias that now stands for another package isn't
 satisfied by the old one

---
 crates/node-maintainer/src/lockfile.rs | 48 ++++++++++++++++++++++++
 crates/node-maintainer/src/resolver.rs | 52 ++++++++++++++++++++++----
 2 files changed, 93 insertions(+), 7 deletions(-)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 1f65011..04b52b0 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use indexmap::IndexMap;
 use kdl::{KdlDocument, KdlNode};
 use nassun::{client::Nassun, package::Package, PackageResolution};
@@ -31,6 +33,52 @@ impl Lockfile {
         &self.packages
     }
 
+    /// Names of the packages at each path, according to their dependents. For
+    /// aliases, that's not the name they're installed as. It's `None` if the
+    /// dependents don't agree.
+    pub(crate) fn target_names(&self) -> HashMap<UniCase<String>, Option<String>> {
+        let mut names = HashMap::new();
+        for node in std::iter::once(&self.root).chain(self.packages.values()) {
+            for (name, spec) in node
+                .dependencies
+                .iter()
+                .chain(&node.dev_dependencies)
+                .chain(&node.optional_dependencies)
+            {
+                let target = match format!("{name}@{spec}").parse::<PackageSpec>() {
+                    Ok(spec) => match spec.target() {
+                        PackageSpec::Npm { name, .. } => name.clone(),
+                        _ => continue,
+                    },
+                    Err(_) => continue,
+                };
+                let mut path = node.path.clone();
+                loop {
+                    let path_str = UniCase::from(
+                        path.iter()
+                            .map(|x| x.as_ref())
+                            .chain(std::iter::once(name.as_str()))
+                            .collect::<Vec<_>>()
+                            .join("/node_modules/"),
+                    );
+                    if self.packages.contains_key(&path_str) {
+                        let known = names
+                            .entry(path_str)
+                            .or_insert_with(|| Some(target.clone()));
+                        if known.as_ref() != Some(&target) {
+                            *known = None;
+                        }
+                        break;
+                    }
+                    if path.pop().is_none() {
+                        break;
+                    }
+                }
+            }
+        }
+        names
+    }
+
     pub fn to_kdl(&self) -> KdlDocument {
         let mut doc = KdlDocument::new();
         doc.set_leading(
diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index b174b63..06742c0 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -1,5 +1,5 @@
 use std::cmp::Ordering;
-use std::collections::VecDeque;
+use std::collections::{HashMap, VecDeque};
 use std::path::Path;
 use std::sync::Arc;
 use std::time::Instant;
@@ -59,6 +59,12 @@ impl<'a> Resolver<'a> {
         #[cfg(not(target_arch = "wasm32"))]
         self.load_actual().await?;
 
+        let locked_targets = lockfile
+            .as_ref()
+            .or(self.actual_tree.as_ref())
+            .map(|lock| lock.target_names())
+            .unwrap_or_default();
+
         let (package_sink, package_stream) = futures::channel::mpsc::unbounded();
         let mut q = VecDeque::new();
         q.push_back(self.graph.root);
@@ -163,6 +169,7 @@ impl<'a> Resolver<'a> {
                                         &self.graph,
                                         node_idx,
                                         lock,
+                                        &locked_targets,
                                         &name,
                                         &dep.spec,
                                     )
@@ -189,6 +196,7 @@ impl<'a> Resolver<'a> {
                                     &self.graph,
                                     node_idx,
                                     lock,
+                                    &locked_targets,
                                     &name,
                                     &dep.spec,
                                 )
@@ -338,11 +346,11 @@ impl<'a> Resolver<'a> {
         fetched: Option<&Package>,
     ) -> Result<Option<NodeIndex>, NodeMaintainerError> {
         if let Some(satisfier_idx) = graph.find_by_name(dep.node_idx, &dep.name)? {
-            let satisfier = graph[satisfier_idx].package.resolved();
+            let satisfier = &graph[satisfier_idx].package;
             // Tags can't be compared to a version: once such a dependency has
             // been fetched, what satisfies it is the package it resolved to.
-            if satisfier.satisfies(&dep.spec)?
-                || fetched.map_or(false, |package| package.resolved() == satisfier)
+            if Self::satisfies(satisfier, &dep.spec)?
+                || fetched.map_or(false, |package| package.resolved() == satisfier.resolved())
             {
                 let edge_idx = graph.inner.add_edge(
                     dep.node_idx,
@@ -359,6 +367,16 @@ impl<'a> Resolver<'a> {
         Ok(None)
     }
 
+    /// Whether the package is what the spec asks for, and not just some other
+    /// package with a matching version and the same alias.
+    fn satisfies(package: &Package, spec: &PackageSpec) -> Result<bool, NodeMaintainerError> {
+        let same_name = match (package.from().target(), spec.target()) {
+            (PackageSpec::Npm { name: from, .. }, PackageSpec::Npm { name, .. }) => from == name,
+            _ => true,
+        };
+        Ok(same_name && package.resolved().satisfies(spec)?)
+    }
+
     /// Whether any of the packages the dependent is nested in is still waiting
     /// for its own dependency with the same name.
     fn is_pending_above(graph: &Graph, dep: &NodeDependency) -> bool {
@@ -373,6 +391,7 @@ impl<'a> Resolver<'a> {
         graph: &Graph,
         dependent_idx: NodeIndex,
         lockfile: &Lockfile,
+        targets: &HashMap<UniCase<String>, Option<String>>,
         name: &UniCase<String>,
         requested: &PackageSpec,
     ) -> Result<Option<(Package, LockfileNode)>, NodeMaintainerError> {
@@ -391,8 +410,27 @@ impl<'a> Resolver<'a> {
             );
             path.pop_back();
             if let Some(lockfile_node) = lockfile.packages().get(&path_str) {
-                if let Some(package) = lockfile_node.to_package(&self.nassun).await? {
-                    if package.resolved().satisfies(requested)? {
+                if let Some(mut package) = lockfile_node.to_package(&self.nassun).await? {
+                    if let PackageSpec::Npm { name, .. } = requested.target() {
+                        // What's there may be another package that used to
+                        // have the same alias.
+                        let same = match targets.get(&path_str) {
+                            Some(target) => target.as_ref() == Some(name),
+                            None => lockfile_node.name.as_str() == name,
+                        };
+                        if !same {
+                            return Ok(None);
+                        }
+                        // Its lockfile entry doesn't say what it's an alias of.
+                        if requested.is_alias() {
+                            package = self.nassun.resolve_from(
+                                package.name().to_string(),
+                                requested.clone(),
+                                package.resolved().clone(),
+                            );
+                        }
+                    }
+                    if Self::satisfies(&package, requested)? {
                         return Ok(Some((package, lockfile_node.clone())));
                     } else {
                         // TODO: Log this We found a lockfile node in a place
@@ -484,7 +522,7 @@ impl<'a> Resolver<'a> {
 
             if let Some((req, _)) = graph[curr_target_idx].dependency_reqs.get(child_name) {
                 // What was fetched for a tag satisfies that tag, by definition.
-                if req != requested && !graph[child_idx].package.resolved().satisfies(req)? {
+                if req != requested && !Self::satisfies(&graph[child_idx].package, req)? {
                     break 'outer;
                 }
             }
-- 
2.43.0


From b116f56dfb5991708e36a5cc7c2316d69ed329f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 34/77] fix: package.json, lockfile and node_modules metadata
 are replaced as a whole, never left half-written

---
 crates/node-maintainer/src/linkers/mod.rs |  2 +-
 crates/node-maintainer/src/maintainer.rs  |  5 +--
 crates/oro-common/src/lib.rs              |  2 ++
 crates/oro-common/src/write.rs            | 41 +++++++++++++++++++++++
 src/commands/add.rs                       |  3 +-
 src/commands/remove.rs                    |  3 +-
 6 files changed, 47 insertions(+), 9 deletions(-)
 create mode 100644 crates/oro-common/src/write.rs

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 511f3f8..573fa60 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -153,7 +153,7 @@ impl Linker {
     #[cfg(not(target_arch = "wasm32"))]
     fn write_meta(&self, graph: &Graph) -> Result<(), NodeMaintainerError> {
         if let Some(meta) = self.meta_path() {
-            std::fs::write(&meta, graph.to_kdl()?.to_string()).io_context(|| {
+            oro_common::write_atomic(&meta, graph.to_kdl()?.to_string()).io_context(|| {
                 format!("Failed to write Orogene meta file to {}.", meta.display())
             })?;
         }
diff --git a/crates/node-maintainer/src/maintainer.rs b/crates/node-maintainer/src/maintainer.rs
index ad7f936..b72f160 100644
--- a/crates/node-maintainer/src/maintainer.rs
+++ b/crates/node-maintainer/src/maintainer.rs
@@ -2,8 +2,6 @@ use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use std::time::Duration;
 
-#[cfg(not(target_arch = "wasm32"))]
-use async_std::fs;
 use nassun::client::{Nassun, NassunOpts};
 use nassun::package::Package;
 use oro_common::CorgiManifest;
@@ -505,8 +503,7 @@ impl NodeMaintainer {
     #[cfg(not(target_arch = "wasm32"))]
     pub async fn write_lockfile(&self, path: impl AsRef<Path>) -> Result<(), NodeMaintainerError> {
         let path = path.as_ref();
-        fs::write(path, self.graph.to_kdl()?.to_string())
-            .await
+        oro_common::write_atomic(path, self.graph.to_kdl()?.to_string())
             .io_context(|| format!("Failed to write lockfile to {}", path.display()))?;
         Ok(())
     }
diff --git a/crates/oro-common/src/lib.rs b/crates/oro-common/src/lib.rs
index 560be50..f14f6e7 100644
--- a/crates/oro-common/src/lib.rs
+++ b/crates/oro-common/src/lib.rs
@@ -5,7 +5,9 @@ pub use build_manifest::*;
 pub use manifest::Bin;
 pub use manifest::*;
 pub use packument::*;
+pub use write::*;
 
 mod build_manifest;
 mod manifest;
 mod packument;
+mod write;
diff --git a/crates/oro-common/src/write.rs b/crates/oro-common/src/write.rs
new file mode 100644
index 0000000..bff0be4
--- /dev/null
+++ b/crates/oro-common/src/write.rs
@@ -0,0 +1,41 @@
+use std::fs::{self, File};
+use std::io::{Result, Write};
+use std::path::Path;
+
+/// Writes a file by replacing it, so that it either keeps its old contents or
+/// gets all of the new ones, even if we're interrupted.
+pub fn write_atomic(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> Result<()> {
+    let contents = contents.as_ref();
+    // Replace what a link points to, and not the link.
+    let path = path
+        .as_ref()
+        .canonicalize()
+        .unwrap_or_else(|_| path.as_ref().into());
+    let perms = path.metadata().ok().map(|meta| meta.permissions());
+    let file_name = match path.file_name() {
+        Some(name) if !perms.as_ref().map_or(false, |perms| perms.readonly()) => name,
+        _ => return fs::write(path, contents),
+    };
+    let mut temp = std::ffi::OsString::from(".");
+    temp.push(file_name);
+    temp.push(".tmp");
+    let temp = path.with_file_name(temp);
+    let mut file = match File::create(&temp) {
+        Ok(file) => file,
+        // We may not be allowed to create files there.
+        Err(_) => return fs::write(path, contents),
+    };
+    let written = file
+        .write_all(contents)
+        .and_then(|_| perms.map_or(Ok(()), |perms| file.set_permissions(perms)));
+    drop(file);
+    if written.is_err() {
+        let _ = fs::remove_file(&temp);
+        return written;
+    }
+    fs::rename(&temp, &path).or_else(|_| {
+        // Some files can't be replaced, like mount points.
+        let _ = fs::remove_file(&temp);
+        fs::write(&path, contents)
+    })
+}
diff --git a/src/commands/add.rs b/src/commands/add.rs
index 4cbcc6d..af5ef50 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -109,11 +109,10 @@ impl OroCommand for AddCmd {
         // Then, we apply the change.
         self.apply.execute(corgi).await?;
 
-        async_std::fs::write(
+        oro_common::write_atomic(
             self.apply.root.join("package.json"),
             oro_pretty_json::to_string_pretty(&manifest).into_diagnostic()?,
         )
-        .await
         .into_diagnostic()?;
 
         tracing::info!(
diff --git a/src/commands/remove.rs b/src/commands/remove.rs
index 94fca80..57f6220 100644
--- a/src/commands/remove.rs
+++ b/src/commands/remove.rs
@@ -60,11 +60,10 @@ impl OroCommand for RemoveCmd {
         // Then, we apply the change.
         self.apply.execute(corgi).await?;
 
-        async_std::fs::write(
+        oro_common::write_atomic(
             self.apply.root.join("package.json"),
             oro_pretty_json::to_string_pretty(&manifest).into_diagnostic()?,
         )
-        .await
         .into_diagnostic()?;
 
         tracing::info!(
-- 
2.43.0


From ea7df8ddf8c092d1cf0b2c23b098ce7381f730a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 35/77] fix: requests that fail on the way are retried with a
 cache, too

---
 crates/oro-client/src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 1b721f9..c2bcb51 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -163,7 +163,6 @@ impl OroClientBuilder {
 
         #[allow(unused_mut)]
         let mut client_builder = reqwest_middleware::ClientBuilder::new(client_raw.clone())
-            .with(retry_strategy)
             .with(AuthMiddleware(credentials.clone()));
 
         #[cfg(not(target_arch = "wasm32"))]
@@ -177,6 +176,10 @@ impl OroClientBuilder {
             }));
         }
 
+        // Retries go below the cache: the errors it passes on don't say
+        // whether they're worth a retry.
+        let client_builder = client_builder.with(retry_strategy);
+
         let retry_policy = ExponentialBackoff::builder().build_with_max_retries(self.retries);
         let retry_strategy = RetryTransientMiddleware::new_with_policy(retry_policy);
 
-- 
2.43.0


From a4fdb10f957637c12582481b67c2995d50ce3094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 36/77] fix: a debug log that cannot be written does not make
 commands fail

---
 src/lib.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2344076..9637cb4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,7 +311,7 @@ pub struct Orogene {
 }
 
 impl Orogene {
-    fn setup_logging(&self, log_file: Option<&Path>) -> Result<Option<WorkerGuard>> {
+    fn setup_logging(&self, log_file: Option<std::fs::File>) -> Result<Option<WorkerGuard>> {
         let builder = EnvFilter::builder();
         let filter = if self.quiet {
             builder
@@ -339,7 +339,7 @@ impl Orogene {
         let ilayer = IndicatifLayer::new();
         let builder = tracing_subscriber::registry();
 
-        if let Some(log_file) = &log_file {
+        if let Some(log_file) = log_file {
             let targets = Targets::new()
                 .with_target("hyper", LevelFilter::WARN)
                 .with_target("reqwest", LevelFilter::WARN)
@@ -351,14 +351,7 @@ impl Orogene {
                 .with_target("polling", LevelFilter::WARN)
                 .with_default(LevelFilter::TRACE);
 
-            let logs_dir = log_file.parent().expect("must have parent");
-            clean_old_logs(logs_dir)?;
-
-            let file_appender = tracing_appender::rolling::never(
-                logs_dir,
-                log_file.file_name().expect("must have file name"),
-            );
-            let (non_blocking, guard) = tracing_appender::non_blocking(file_appender);
+            let (non_blocking, guard) = tracing_appender::non_blocking(log_file);
 
             if self.quiet || !self.progress {
                 builder
@@ -693,12 +686,15 @@ impl Orogene {
         Self::layer_command_args(&command, &mut args, &config)?;
         let mut oro =
             Orogene::from_arg_matches(&command.get_matches_from(&args)).into_diagnostic()?;
-        let log_file = oro
+        // Not being able to write a debug log is no reason to fail.
+        let (log_file, log) = oro
             .cache
             .clone()
             .or_else(|| config.get::<String>("cache").ok().map(PathBuf::from))
-            .map(|c| c.join("_logs").join(log_file_name()));
-        let _logging_guard = oro.setup_logging(log_file.as_deref())?;
+            .map(|c| c.join("_logs").join(log_file_name()))
+            .and_then(|path| open_log_file(&path).ok().map(|file| (path, file)))
+            .unzip();
+        let _logging_guard = oro.setup_logging(log)?;
         oro.first_time_setup()?;
         let _telemetry_guard = oro.setup_telemetry(log_file.clone())?;
         let do_term_progress = !oro.quiet && oro.progress;
@@ -770,16 +766,26 @@ fn log_file_name() -> PathBuf {
     PathBuf::from(format!("{}-0.log", prefix))
 }
 
-fn clean_old_logs(logs_dir: &Path) -> Result<()> {
+fn open_log_file(log_file: &Path) -> std::io::Result<std::fs::File> {
+    let logs_dir = log_file.parent().expect("must have parent");
+    clean_old_logs(logs_dir);
+    std::fs::create_dir_all(logs_dir)?;
+    std::fs::OpenOptions::new()
+        .create(true)
+        .append(true)
+        .open(log_file)
+}
+
+fn clean_old_logs(logs_dir: &Path) {
     if let Ok(readdir) = logs_dir.read_dir() {
         let mut logs = readdir.filter_map(|e| e.ok()).collect::<Vec<_>>();
         logs.sort_by_key(|e| e.file_name());
         while logs.len() >= MAX_RETAINED_LOGS {
             let log = logs.remove(0);
-            std::fs::remove_file(log.path()).into_diagnostic()?;
+            // Something else may have removed it already.
+            let _ = std::fs::remove_file(log.path());
         }
     }
-    Ok(())
 }
 
 fn log_command_line() {
-- 
2.43.0


From af36e76ddaa1800c1bc961504630a5af344dff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 37/77] fix: registries with a path work without a trailing
 slash

---
 crates/oro-client/src/client.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index c2bcb51..0a2595a 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -63,7 +63,7 @@ impl OroClientBuilder {
     }
 
     pub fn registry(mut self, registry: Url) -> Self {
-        self.registry = registry;
+        self.registry = with_trailing_slash(registry);
         self
     }
 
@@ -224,13 +224,23 @@ impl OroClient {
 
     pub fn with_registry(&self, registry: Url) -> Self {
         Self {
-            registry: Arc::new(registry),
+            registry: Arc::new(with_trailing_slash(registry)),
             client: self.client.clone(),
             client_uncached: self.client_uncached.clone(),
         }
     }
 }
 
+/// Endpoints are joined to the registry's URL, which would otherwise replace
+/// the last segment of its path.
+fn with_trailing_slash(mut registry: Url) -> Url {
+    if !registry.path().ends_with('/') {
+        let path = format!("{}/", registry.path());
+        registry.set_path(&path);
+    }
+    registry
+}
+
 impl Default for OroClient {
     fn default() -> Self {
         OroClientBuilder::new()
-- 
2.43.0


From 2771b118d214b819ea864ed7d41f7fe28047f69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 38/77] fix: credentials go to the registry a request's address
 belongs to

---
 crates/oro-client/src/auth_middleware.rs | 46 +++++++++++++-----------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/crates/oro-client/src/auth_middleware.rs b/crates/oro-client/src/auth_middleware.rs
index ea45336..d69f9ec 100644
--- a/crates/oro-client/src/auth_middleware.rs
+++ b/crates/oro-client/src/auth_middleware.rs
@@ -10,6 +10,19 @@ use crate::credentials::Credentials;
 #[derive(Debug, Clone)]
 pub(crate) struct AuthMiddleware(pub(crate) Arc<HashMap<String, Credentials>>);
 
+impl AuthMiddleware {
+    /// Credentials of the registry that a URL belongs to: the one on the same
+    /// host and port with the longest path that the URL is at or below.
+    fn credentials_for(&self, url: &Url) -> Option<&Credentials> {
+        let location = nerf_dart(url);
+        let host_len = location[2..].find('/')? + 2;
+        location
+            .rmatch_indices('/')
+            .take_while(|(i, _)| *i >= host_len)
+            .find_map(|(i, _)| self.0.get(&location[..=i]))
+    }
+}
+
 #[cfg_attr(not(target_arch = "wasm32"), async_trait::async_trait)]
 #[cfg_attr(target_arch = "wasm32", async_trait::async_trait(?Send))]
 impl Middleware for AuthMiddleware {
@@ -19,26 +32,7 @@ impl Middleware for AuthMiddleware {
         extensions: &mut Extensions,
         next: Next<'_>,
     ) -> Result<Response> {
-        let reg = Url::parse(
-            req.headers()
-                .get("X-Oro-Registry")
-                .expect(
-                    "Request did not have an x-oro-registry header. This is a bug in oro-client.",
-                )
-                .to_str()
-                .expect("This should stringify just fine."),
-        )
-        .expect("This should have already been parsed and serialized previously.");
-
-        // Don't add auth headers to requests to URLs outside the given
-        // registry.
-        let req_url = req.url().clone();
-        if reg.host_str() != req_url.host_str() || !req_url.path().starts_with(reg.path()) {
-            return next.run(req, extensions).await;
-        }
-
-        let credentials = self.0.get(&nerf_dart(&reg));
-        if let Some(cred) = credentials {
+        if let Some(cred) = self.credentials_for(req.url()) {
             let auth_header = match cred {
                 Credentials::Basic { username, password } => {
                     basic_auth(username, password.as_ref())
@@ -86,6 +80,16 @@ where
     header
 }
 
+/// Identifies the location of a registry: its host, port, and path, no matter
+/// how they've been written.
 pub fn nerf_dart(url: &Url) -> String {
-    format!("//{}{}", url.host_str().unwrap_or(""), url.path())
+    let port = url
+        .port_or_known_default()
+        .map(|port| format!(":{port}"))
+        .unwrap_or_default();
+    format!(
+        "//{}{port}{}/",
+        url.host_str().unwrap_or(""),
+        url.path().trim_end_matches('/')
+    )
 }
-- 
2.43.0


From fb96b91d5ca5ddaa0158cca2d73a928757eec50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 39/77] fix: registries in --auth can be given without a
 scheme, as documented

---
 src/client_args.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/client_args.rs b/src/client_args.rs
index 5d80a31..b6a4604 100644
--- a/src/client_args.rs
+++ b/src/client_args.rs
@@ -69,7 +69,7 @@ impl TryFrom<ClientArgs> for OroClientBuilder {
             builder = builder.proxy_url(url)?;
         }
         for (reg, key, val) in &value.auth {
-            let url = Url::parse(reg)?;
+            let url = parse_registry(reg)?;
             if key == "token" {
                 builder = builder.token_auth(url, val.into());
             } else if key == "username" {
@@ -91,3 +91,12 @@ impl TryFrom<ClientArgs> for OroClientBuilder {
         Ok(builder)
     }
 }
+
+/// Registries that credentials are for can be given with or without a
+/// scheme.
+fn parse_registry(registry: &str) -> Result<Url, OroClientError> {
+    match Url::parse(registry) {
+        Ok(url) if url.has_host() => Ok(url),
+        _ => Ok(Url::parse(&format!("https://{registry}"))?),
+    }
+}
-- 
2.43.0


From 2751cd926e21d299a43f59bbd83dfd584628cadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 40/77] fix: credentials from the command line stay out of
 debug logs

---
 src/lib.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9637cb4..42dc1dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -125,6 +125,15 @@ mod nassun_args;
 
 const MAX_RETAINED_LOGS: usize = 5;
 
+/// Options with values that are (or can include) credentials.
+const SECRET_OPTS: &[&str] = &[
+    "--auth",
+    "--token",
+    "--password",
+    "--legacy-token",
+    "--proxy-url",
+];
+
 #[derive(Debug, Parser)]
 #[command(author, version, about, long_about = None)]
 #[command(propagate_version = true)]
@@ -794,9 +803,27 @@ fn log_command_line() {
     if let Some(arg) = args.next() {
         cmd.push_str(&arg);
     }
+    // Credentials don't belong in logs.
+    let mut secret = false;
     for arg in args {
         cmd.push(' ');
-        cmd.push_str(&arg);
+        let (name, value) = match arg.split_once('=') {
+            Some((name, value)) => (name, Some(value)),
+            None => (arg.as_str(), None),
+        };
+        if secret {
+            cmd.push_str("***");
+            secret = false;
+        } else if SECRET_OPTS.contains(&name) {
+            cmd.push_str(name);
+            if value.is_some() {
+                cmd.push_str("=***");
+            } else {
+                secret = true;
+            }
+        } else {
+            cmd.push_str(&arg);
+        }
     }
     tracing::debug!("Running command: {cmd}");
 }
-- 
2.43.0


From caaea824e858e750536cc40e52c695b35841204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:16 +0000
Subject: [PATCH 41/77] fix: options with dashes in their names can be set in
 the environment

---
 crates/oro-config/src/lib.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index a23439c..18dbf59 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -1,6 +1,10 @@
 //! Configuration loader for Orogene config files.
 
-use std::{collections::HashSet, ffi::OsString, path::PathBuf};
+use std::{
+    collections::{HashMap, HashSet},
+    ffi::OsString,
+    path::PathBuf,
+};
 
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
@@ -110,6 +114,23 @@ impl OroConfigLayerExt for Command {
     }
 }
 
+const ENV_PREFIX: &str = "oro_config";
+
+/// Variables can't be named after options that have dashes in their names, so
+/// they're spelled with underscores.
+fn env_options() -> HashMap<String, String> {
+    std::env::vars_os()
+        .filter_map(|(key, value)| {
+            let key = key.into_string().ok()?.to_lowercase();
+            let opt = key.strip_prefix(ENV_PREFIX)?.strip_prefix('_')?;
+            Some((
+                format!("{ENV_PREFIX}_{}", opt.replace('_', "-")),
+                value.into_string().ok()?,
+            ))
+        })
+        .collect()
+}
+
 #[derive(Debug, Clone)]
 pub struct OroConfigOptions {
     builder: ConfigBuilder<DefaultState>,
@@ -170,7 +191,9 @@ impl OroConfigOptions {
             }
         }
         if self.env {
-            builder = builder.add_source(Environment::with_prefix("oro_config"));
+            builder = builder.add_source(
+                Environment::with_prefix(ENV_PREFIX).source(Some(env_options())),
+            );
         }
         if let Some(root) = self.pkg_root {
             builder = builder.add_source(
-- 
2.43.0


From b80d3a634db5f0500fb0709de7797f459c48359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:16 +0000
Subject: [PATCH 42/77] fix: misplaced braces in --auth are an error instead of
 a panic

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42dc1dd..46276e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -858,10 +858,10 @@ where
     let open_pos = s.find('{').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `{{` found in `{s}`",)
     })?;
-    let close_pos = s.find('}').ok_or_else(|| {
+    let close_pos = s[open_pos..].find('}').map(|i| i + open_pos).ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `}}` found in `{s}`",)
     })?;
-    let eq_pos = s.find('=').ok_or_else(|| {
+    let eq_pos = s[close_pos..].find('=').map(|i| i + close_pos).ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `=` found in `{s}`")
     })?;
 
-- 
2.43.0


From a3a8f1d690328010b4d6a4743200aaf6c448fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:16 +0000
Subject: [PATCH 43/77] fix: negated global options before the command keep its
 own ones known

---
 src/lib.rs | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46276e8..252c75e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -456,29 +456,20 @@ impl Orogene {
     }
 
     fn current_command() -> Command {
-        // First, we do a fake parse. All we really want is to get the subcommand, here.
-        let matches = Orogene::command().ignore_errors(true).get_matches();
-        let mut matches_ref = &matches;
-
-        // Next, we "recursively" follow the subcommand chain until we bottom
-        // out, then keep that path.
-        let mut subcmd_path = VecDeque::new();
-        while let Some((sub_cmd, new_m)) = matches_ref.subcommand() {
-            subcmd_path.push_back(sub_cmd);
-            matches_ref = new_m;
-        }
-
-        // Then, we find the subcommand starting from our toplevel Command.
-        let mut command = Orogene::command().with_negations();
-        let mut subcmd = &mut command;
-        while let Some(name) = subcmd_path.pop_front() {
-            subcmd = subcmd
-                .find_subcommand_mut(name)
-                .expect("This should definitely exist?");
-            *subcmd = subcmd.clone().with_negations();
+        fn negated(command: Command) -> Command {
+            let names = command
+                .get_subcommands()
+                .map(|sub| sub.get_name().to_owned())
+                .collect::<Vec<_>>();
+            names
+                .into_iter()
+                .fold(command, |command, name| {
+                    command.mut_subcommand(name, negated)
+                })
+                .with_negations()
         }
 
-        command
+        negated(Orogene::command())
     }
 
     fn layer_command_args(
-- 
2.43.0


From c3ce6a93c546a5e9b03ff89ba87fff59969584ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:16 +0000
Subject: [PATCH 44/77] fix: options from config files and the environment work
 like those from the command line

---
 crates/oro-config/src/lib.rs | 113 +++++++++++++++++++----------------
 src/lib.rs                   |  36 ++++-------
 2 files changed, 75 insertions(+), 74 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index 18dbf59..eedafb0 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -1,11 +1,8 @@
 //! Configuration loader for Orogene config files.
 
-use std::{
-    collections::{HashMap, HashSet},
-    ffi::OsString,
-    path::PathBuf,
-};
+use std::{collections::HashMap, ffi::OsString, path::PathBuf};
 
+use clap::parser::ValueSource;
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
 use config::{builder::DefaultState, ConfigBuilder, Environment, File, ValueKind};
@@ -19,7 +16,15 @@ mod kdl_source;
 
 pub trait OroConfigLayerExt {
     fn with_negations(self) -> Self;
-    fn layered_args(&self, args: &mut Vec<OsString>, config: &OroConfig) -> Result<()>;
+
+    /// Adds options from `config` to `args`, unless they're already there, as
+    /// far as `matches` (the result of parsing `args`) knows.
+    fn layered_args(
+        &self,
+        matches: &ArgMatches,
+        args: &mut Vec<OsString>,
+        config: &OroConfig,
+    ) -> Result<()>;
 }
 
 impl OroConfigLayerExt for Command {
@@ -55,61 +60,67 @@ impl OroConfigLayerExt for Command {
         self.args(negations)
     }
 
-    fn layered_args(&self, args: &mut Vec<OsString>, config: &OroConfig) -> Result<()> {
-        let mut long_opts = HashSet::new();
-        for opt in self.get_arguments() {
-            if opt.get_long().is_some() {
-                long_opts.insert(opt.get_id().to_string());
-            }
-        }
-        let matches = self
-            .clone()
-            .ignore_errors(true)
-            .get_matches_from(&args.clone());
-        for opt in long_opts {
+    fn layered_args(
+        &self,
+        matches: &ArgMatches,
+        args: &mut Vec<OsString>,
+        config: &OroConfig,
+    ) -> Result<()> {
+        let from_cli = |id: &str| {
+            matches.try_contains_id(id).is_ok()
+                && matches.value_source(id) == Some(ValueSource::CommandLine)
+        };
+        let mut layered = Vec::new();
+        for arg in self.get_arguments() {
+            let Some(long) = arg.get_long() else {
+                continue;
+            };
             // TODO: _prepend_ args unconditionally if they're coming from
             // config, so multi-args get parsed right. Right now, if you have
             // something in your config, it'll get completely overridden by
             // the command line.
-            if matches.value_source(&opt) != Some(clap::parser::ValueSource::CommandLine) {
-                let opt = opt.replace('_', "-");
-                if !args.contains(&OsString::from(format!("--no-{opt}"))) {
-                    if let Ok(bool) = config.get_bool(&opt) {
-                        if bool {
-                            args.push(OsString::from(format!("--{}", opt)));
-                        } else {
-                            args.push(OsString::from(format!("--no-{}", opt)));
-                        }
-                    } else if let Ok(value) = config.get_string(&opt) {
-                        args.push(OsString::from(format!("--{}", opt)));
-                        args.push(OsString::from(value));
-                    } else if let Ok(value) = config.get_table(&opt) {
-                        for (key, val) in value {
-                            match &val.kind {
-                                ValueKind::Table(map) => {
-                                    for (k, v) in map {
-                                        args.push(OsString::from(format!("--{}", opt)));
-                                        args.push(OsString::from(format!("{{{key}}}{k}={v}")));
-                                    }
-                                }
-                                // TODO: error if val.kind is an Array
-                                _ => {
-                                    args.push(OsString::from(format!("--{}", opt)));
-                                    args.push(OsString::from(format!("{key}={val}")));
-                                }
-                            }
-                        }
-                    } else if let Ok(value) = config.get_array(&opt) {
-                        for val in value {
-                            if let Ok(val) = val.into_string() {
-                                args.push(OsString::from(format!("--{}", opt)));
-                                args.push(OsString::from(val));
+            let id = arg.get_id().as_str();
+            if from_cli(id) || from_cli(&format!("no-{long}")) {
+                continue;
+            }
+            let opt = id.replace('_', "-");
+            let mut push = |value: &str| layered.push(format!("--{opt}={value}").into());
+            if !arg.get_action().takes_values() {
+                if let Ok(bool) = config.get_bool(&opt) {
+                    layered.push(if bool {
+                        format!("--{opt}").into()
+                    } else {
+                        format!("--no-{opt}").into()
+                    });
+                } else if let Ok(value) = config.get_string(&opt) {
+                    // The parser gets to complain about this one.
+                    push(&value);
+                }
+            } else if let Ok(value) = config.get_string(&opt) {
+                push(&value);
+            } else if let Ok(value) = config.get_table(&opt) {
+                for (key, val) in value {
+                    match &val.kind {
+                        ValueKind::Table(map) => {
+                            for (k, v) in map {
+                                push(&format!("{{{key}}}{k}={v}"));
                             }
                         }
+                        // TODO: error if val.kind is an Array
+                        _ => push(&format!("{key}={val}")),
+                    }
+                }
+            } else if let Ok(value) = config.get_array(&opt) {
+                for val in value {
+                    if let Ok(val) = val.into_string() {
+                        push(&val);
                     }
                 }
             }
         }
+        // Nothing after a `--` is an option.
+        let end = args.iter().position(|arg| arg == "--").unwrap_or(args.len());
+        args.splice(end..end, layered);
         Ok(())
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 252c75e..fb7b74e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,7 +88,6 @@
 
 use std::{
     borrow::Cow,
-    collections::VecDeque,
     ffi::OsString,
     panic::PanicInfo,
     path::{Path, PathBuf},
@@ -96,7 +95,7 @@ use std::{
 };
 
 use async_trait::async_trait;
-use clap::{Args, Command, CommandFactory, FromArgMatches as _, Parser, Subcommand};
+use clap::{ArgMatches, Args, Command, CommandFactory, FromArgMatches as _, Parser, Subcommand};
 use dialoguer::{theme::ColorfulTheme, Confirm};
 use directories::ProjectDirs;
 use is_terminal::IsTerminal;
@@ -474,30 +473,21 @@ impl Orogene {
 
     fn layer_command_args(
         command: &Command,
+        matches: &ArgMatches,
         args: &mut Vec<OsString>,
         config: &OroConfig,
     ) -> Result<()> {
-        // First, we do a fake parse. All we really want is to get the subcommand, here.
-        let matches = command.clone().ignore_errors(true).get_matches();
-        let mut matches_ref = &matches;
-
-        // Next, we "recursively" follow the subcommand chain until we bottom
-        // out, then keep that path.
-        let mut subcmd_path = VecDeque::new();
-        while let Some((sub_cmd, new_m)) = matches_ref.subcommand() {
-            subcmd_path.push_back(sub_cmd);
-            matches_ref = new_m;
-        }
-
-        // Then, we find the subcommand starting from our toplevel Command.
-        let mut command = command.clone();
-        let mut subcmd = &mut command;
-        subcmd.layered_args(args, config)?;
-        while let Some(name) = subcmd_path.pop_front() {
-            subcmd = subcmd
-                .find_subcommand_mut(name)
+        let mut command = command;
+        let mut matches = matches;
+        command.layered_args(matches, args, config)?;
+        // Then, we "recursively" follow the subcommand chain until we bottom
+        // out.
+        while let Some((name, sub_matches)) = matches.subcommand() {
+            command = command
+                .find_subcommand(name)
                 .expect("This should definitely exist?");
-            subcmd.layered_args(args, config)?;
+            matches = sub_matches;
+            command.layered_args(matches, args, config)?;
         }
         Ok(())
     }
@@ -683,7 +673,7 @@ impl Orogene {
         let oro = Orogene::from_arg_matches(&matches).into_diagnostic()?;
         let config = oro.build_config()?;
         let mut args = std::env::args_os().collect::<Vec<_>>();
-        Self::layer_command_args(&command, &mut args, &config)?;
+        Self::layer_command_args(&command, &matches, &mut args, &config)?;
         let mut oro =
             Orogene::from_arg_matches(&command.get_matches_from(&args)).into_diagnostic()?;
         // Not being able to write a debug log is no reason to fail.
-- 
2.43.0


From 17401546ca7ca8b9e18580b7fbf4cee34f48dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:16 +0000
Subject: [PATCH 45/77] fix: the config file of a project is the one in its
 root

---
 src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fb7b74e..4f83687 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ use std::{
 };
 
 use async_trait::async_trait;
-use clap::{ArgMatches, Args, Command, CommandFactory, FromArgMatches as _, Parser, Subcommand};
+use clap::{parser::ValueSource, ArgMatches, Args, Command, CommandFactory, FromArgMatches as _, Parser, Subcommand};
 use dialoguer::{theme::ColorfulTheme, Confirm};
 use directories::ProjectDirs;
 use is_terminal::IsTerminal;
@@ -426,10 +426,12 @@ impl Orogene {
         }
     }
 
-    fn build_config(&self) -> Result<OroConfig> {
+    fn build_config(&self, matches: &ArgMatches) -> Result<OroConfig> {
         let dirs = ProjectDirs::from("", "", "orogene");
         let cwd = std::env::current_dir().into_diagnostic()?;
-        let root = if let Some(root) = pkg_root(&cwd) {
+        let root = if matches.value_source("root") == Some(ValueSource::CommandLine) {
+            &self.root
+        } else if let Some(root) = pkg_root(&cwd) {
             root
         } else {
             &cwd
@@ -447,7 +449,7 @@ impl Orogene {
         } else {
             cfg_builder
                 .global_config_file(dirs.map(|d| d.config_dir().to_owned().join("oro.kdl")))
-                .pkg_root(Some(self.root.clone()))
+                .pkg_root(Some(root.to_owned()))
                 .load()?
         };
 
@@ -671,7 +673,7 @@ impl Orogene {
         let command = Self::current_command();
         let matches = command.clone().get_matches();
         let oro = Orogene::from_arg_matches(&matches).into_diagnostic()?;
-        let config = oro.build_config()?;
+        let config = oro.build_config(&matches)?;
         let mut args = std::env::args_os().collect::<Vec<_>>();
         Self::layer_command_args(&command, &matches, &mut args, &config)?;
         let mut oro =
-- 
2.43.0


From 161cd7494d254ea3693d602ee9227f456bd36e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 46/77] fix: URLs that are no valid URIs are an error instead
 of a panic

---
 crates/oro-client/src/client.rs         |  3 +++
 crates/oro-client/src/lib.rs            |  1 +
 crates/oro-client/src/uri_middleware.rs | 32 +++++++++++++++++++++++++
 3 files changed, 36 insertions(+)
 create mode 100644 crates/oro-client/src/uri_middleware.rs

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 0a2595a..0d7a1e5 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -19,6 +19,7 @@ use crate::OroClientError;
 use crate::{
     auth_middleware::{self, AuthMiddleware},
     credentials::Credentials,
+    uri_middleware::UriMiddleware,
 };
 
 #[derive(Clone, Debug)]
@@ -163,6 +164,7 @@ impl OroClientBuilder {
 
         #[allow(unused_mut)]
         let mut client_builder = reqwest_middleware::ClientBuilder::new(client_raw.clone())
+            .with(UriMiddleware)
             .with(AuthMiddleware(credentials.clone()));
 
         #[cfg(not(target_arch = "wasm32"))]
@@ -184,6 +186,7 @@ impl OroClientBuilder {
         let retry_strategy = RetryTransientMiddleware::new_with_policy(retry_policy);
 
         let client_uncached_builder = reqwest_middleware::ClientBuilder::new(client_raw)
+            .with(UriMiddleware)
             .with(retry_strategy)
             .with(AuthMiddleware(credentials));
 
diff --git a/crates/oro-client/src/lib.rs b/crates/oro-client/src/lib.rs
index 70c37bd..9861a6e 100644
--- a/crates/oro-client/src/lib.rs
+++ b/crates/oro-client/src/lib.rs
@@ -6,6 +6,7 @@ mod client;
 mod credentials;
 mod error;
 mod notify;
+mod uri_middleware;
 
 pub use api::login;
 pub use api::packument;
diff --git a/crates/oro-client/src/uri_middleware.rs b/crates/oro-client/src/uri_middleware.rs
new file mode 100644
index 0000000..293f6e8
--- /dev/null
+++ b/crates/oro-client/src/uri_middleware.rs
@@ -0,0 +1,32 @@
+use reqwest::{Request, Response};
+use reqwest_middleware::{Middleware, Next, Result};
+use task_local_extensions::Extensions;
+use url::{Position, Url};
+
+/// The HTTP client panics when it's asked for a URL that isn't a URI, too.
+#[derive(Debug, Clone)]
+pub(crate) struct UriMiddleware;
+
+#[cfg_attr(not(target_arch = "wasm32"), async_trait::async_trait)]
+#[cfg_attr(target_arch = "wasm32", async_trait::async_trait(?Send))]
+impl Middleware for UriMiddleware {
+    async fn handle(
+        &self,
+        req: Request,
+        extensions: &mut Extensions,
+        next: Next<'_>,
+    ) -> Result<Response> {
+        if !is_uri(req.url()) {
+            return Err(anyhow::anyhow!("not a valid URI: {}", req.url()).into());
+        }
+        next.run(req, extensions).await
+    }
+}
+
+fn is_uri(url: &Url) -> bool {
+    let host = &url[Position::BeforeHost..Position::AfterPort];
+    url.as_str().len() < u16::MAX as usize
+        && host
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || "-._~!$&'()*+,;=:[]".contains(c))
+}
-- 
2.43.0


From f6590732c76942b0455bac85198bf9485cfd0b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 47/77] fix: logout takes tokens for tokens, and legacy
 credentials for those

---
 crates/oro-npm-account/src/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 82b6753..cb40ac2 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -114,7 +114,7 @@ pub fn get_credentials_by_uri(uri: &Url, config: &KdlDocument) -> Option<Credent
             let password = credentials.get("password");
 
             match (token, legacy_auth, username, password) {
-                (_, Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
+                (Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
                 (.., Some(username), Some(password)) => {
                     let username = username.as_string()?;
                     let password = password.as_string()?;
@@ -125,7 +125,7 @@ pub fn get_credentials_by_uri(uri: &Url, config: &KdlDocument) -> Option<Credent
                         general_purpose::STANDARD.encode(format!("{username}:{password}")),
                     ))
                 }
-                (Some(legacy_auth), ..) => {
+                (_, Some(legacy_auth), ..) => {
                     Some(Credentials::LegacyAuth(legacy_auth.as_string()?.into()))
                 }
                 _ => None,
-- 
2.43.0


From 047c6d1517918245751a4ef4bbd6a41bdf2c4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 48/77] fix: login keeps its credentials when the config has an
 empty auth or scoped-registries node

---
 crates/oro-npm-account/src/config.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index cb40ac2..c24a961 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -22,8 +22,8 @@ pub fn set_credentials_by_uri(uri: &Url, credentials: &Credentials, config: &mut
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("auth").is_none() {
                 children.nodes_mut().push(KdlNode::new("auth"));
-                children.get_mut("auth").unwrap().ensure_children();
             }
+            children.get_mut("auth").unwrap().ensure_children();
         }
     }
 
@@ -71,11 +71,11 @@ pub fn set_scoped_registry(scope: &str, registry: &Url, config: &mut KdlDocument
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("scoped-registries").is_none() {
                 children.nodes_mut().push(KdlNode::new("scoped-registries"));
-                children
-                    .get_mut("scoped-registries")
-                    .unwrap()
-                    .ensure_children();
             }
+            children
+                .get_mut("scoped-registries")
+                .unwrap()
+                .ensure_children();
         }
     }
 
-- 
2.43.0


From 89a4105ea09f3abcf8caa39a5bd7887ef99dcf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 49/77] fix: login and logout keep, and find, credentials of
 registries without a scheme

---
 crates/oro-npm-account/src/config.rs | 30 +++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index c24a961..a4478b5 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -100,12 +100,10 @@ pub fn get_credentials_by_uri(uri: &Url, config: &KdlDocument) -> Option<Credent
         .and_then(|options_children| options_children.get("auth"))
         .and_then(|user| user.children())
         .and_then(|user_children| {
-            user_children.nodes().iter().find(|node| {
-                let Ok(node_url) = Url::parse(node.name().value()) else {
-                    return false;
-                };
-                oro_client::nerf_dart(&node_url) == oro_client::nerf_dart(uri)
-            })
+            user_children
+                .nodes()
+                .iter()
+                .find(|node| is_for_registry(node, uri))
         })
         .and_then(|credentials| {
             let token = credentials.get("token");
@@ -155,12 +153,20 @@ pub fn clear_crendentials_by_uri(uri: &Url, config: &mut KdlDocument) {
 }
 
 fn clean_auth_nodes(uri: &Url, nodes: &mut Vec<KdlNode>) {
-    nodes.retain_mut(|node| {
-        let Ok(node_url) = Url::parse(node.name().value()) else {
-            return false;
-        };
-        oro_client::nerf_dart(&node_url) != oro_client::nerf_dart(uri)
-    });
+    nodes.retain(|node| !is_for_registry(node, uri));
+}
+
+/// Registries that credentials are for can be written with or without a
+/// scheme.
+fn is_for_registry(node: &KdlNode, uri: &Url) -> bool {
+    let name = node.name().value();
+    let registry = match Url::parse(name) {
+        Ok(url) if url.has_host() => Ok(url),
+        _ => Url::parse(&format!("https://{name}")),
+    };
+    registry.map_or(false, |registry| {
+        oro_client::nerf_dart(&registry) == oro_client::nerf_dart(uri)
+    })
 }
 
 fn clean_scoped_registry_nodes(scope: &str, nodes: &mut Vec<KdlNode>) {
-- 
2.43.0


From 26d048f54b42118bacace957718b39d4576fed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 50/77] fix: logout revokes tokens that are children of the
 registry's node

---
 crates/oro-npm-account/src/config.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index a4478b5..ed11271 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -106,10 +106,10 @@ pub fn get_credentials_by_uri(uri: &Url, config: &KdlDocument) -> Option<Credent
                 .find(|node| is_for_registry(node, uri))
         })
         .and_then(|credentials| {
-            let token = credentials.get("token");
-            let legacy_auth = credentials.get("legacy-auth");
-            let username = credentials.get("username");
-            let password = credentials.get("password");
+            let token = credential(credentials, "token");
+            let legacy_auth = credential(credentials, "legacy-auth");
+            let username = credential(credentials, "username");
+            let password = credential(credentials, "password");
 
             match (token, legacy_auth, username, password) {
                 (Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
@@ -169,6 +169,15 @@ fn is_for_registry(node: &KdlNode, uri: &Url) -> bool {
     })
 }
 
+/// Credentials are either properties or children of the registry's node.
+fn credential<'a>(node: &'a KdlNode, name: &str) -> Option<&'a KdlValue> {
+    if node.entries().is_empty() {
+        node.children()?.get_arg(name)
+    } else {
+        node.get(name)
+    }
+}
+
 fn clean_scoped_registry_nodes(scope: &str, nodes: &mut Vec<KdlNode>) {
     nodes.retain_mut(|node| node.name().value() != scope);
 }
-- 
2.43.0


From 8a72ef6ff90924bb9294eaf3b0c08bdebcd8c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 51/77] fix: login --scope replaces the scope's registry with
 and without an @

---
 crates/oro-npm-account/src/config.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index ed11271..1b42676 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -179,7 +179,12 @@ fn credential<'a>(node: &'a KdlNode, name: &str) -> Option<&'a KdlValue> {
 }
 
 fn clean_scoped_registry_nodes(scope: &str, nodes: &mut Vec<KdlNode>) {
-    nodes.retain_mut(|node| node.name().value() != scope);
+    // The `@` is optional.
+    let bare = scope.strip_prefix('@').unwrap_or(scope);
+    nodes.retain(|node| {
+        let name = node.name().value();
+        name.strip_prefix('@').unwrap_or(name) != bare
+    });
 }
 
 impl TryFrom<Credentials> for HeaderValue {
-- 
2.43.0


From d07cbdca1d580c52c3e89f49500e8409eeebc862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 52/77] fix: login and logout create the config file when there
 is none

---
 src/commands/login.rs  | 11 +++++++----
 src/commands/logout.rs |  8 +++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/commands/login.rs b/src/commands/login.rs
index 8246e29..802e32b 100644
--- a/src/commands/login.rs
+++ b/src/commands/login.rs
@@ -72,10 +72,13 @@ impl OroCommand for LoginCmd {
             ProjectDirs::from("", "", "orogene")
                 .map(|config| config.config_dir().to_path_buf().join("oro.kdl"))
         }) {
-            std::fs::create_dir_all(config_path.parent().expect("must have parent")).unwrap();
-            let mut config: KdlDocument = std::fs::read_to_string(config_path)
-                .into_diagnostic()?
-                .parse()?;
+            std::fs::create_dir_all(config_path.parent().expect("must have parent"))
+                .into_diagnostic()?;
+            let mut config: KdlDocument = match std::fs::read_to_string(config_path) {
+                // It's about to be created.
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => KdlDocument::new(),
+                contents => contents.into_diagnostic()?.parse()?,
+            };
 
             tracing::info!("Logging in to {}", self.registry);
 
diff --git a/src/commands/logout.rs b/src/commands/logout.rs
index dfd63a3..8cb12d1 100644
--- a/src/commands/logout.rs
+++ b/src/commands/logout.rs
@@ -33,9 +33,11 @@ impl OroCommand for LogoutCmd {
             let client = builder.registry(self.registry.clone()).build();
             std::fs::create_dir_all(config_path.parent().expect("must have parent"))
                 .into_diagnostic()?;
-            let mut config: KdlDocument = std::fs::read_to_string(config_path)
-                .into_diagnostic()?
-                .parse()?;
+            let mut config: KdlDocument = match std::fs::read_to_string(config_path) {
+                // It's about to be created.
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => KdlDocument::new(),
+                contents => contents.into_diagnostic()?.parse()?,
+            };
 
             if let Some(Credentials::Token(token)) =
                 config::get_credentials_by_uri(&self.registry, &config)
-- 
2.43.0


From c0b8f2a6ff02373bf2d4e8c5687b7d98dafc9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 53/77] fix: logout escapes the token in the URL

---
 crates/oro-client/src/api/logout.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/oro-client/src/api/logout.rs b/crates/oro-client/src/api/logout.rs
index 39d6051..ab7aed4 100644
--- a/crates/oro-client/src/api/logout.rs
+++ b/crates/oro-client/src/api/logout.rs
@@ -1,7 +1,9 @@
 use crate::{OroClient, OroClientError};
+use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
 
 impl OroClient {
     pub async fn delete_token(&self, token: &String) -> Result<(), OroClientError> {
+        let token = utf8_percent_encode(token, NON_ALPHANUMERIC);
         self.client
             .delete(self.registry.join(&format!("-/user/token/{token}"))?)
             .header("X-Oro-Registry", self.registry.to_string())
-- 
2.43.0


From d7b072cfa0085b962f798b40a3714ed66486433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 54/77] fix: odd answers to a login are errors instead of
 panics

---
 crates/oro-client/src/api/login.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/oro-client/src/api/login.rs b/crates/oro-client/src/api/login.rs
index 3258ab8..066610d 100644
--- a/crates/oro-client/src/api/login.rs
+++ b/crates/oro-client/src/api/login.rs
@@ -1,6 +1,6 @@
 use crate::notify::Notify;
 use crate::{OroClient, OroClientError};
-use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
+use percent_encoding::{utf8_percent_encode, CONTROLS, NON_ALPHANUMERIC};
 use reqwest::header::{HeaderMap, WWW_AUTHENTICATE};
 use reqwest::StatusCode;
 use serde::{Deserialize, Serialize};
@@ -66,7 +66,10 @@ impl OroClient {
         let mut headers = HashMap::new();
 
         if let Some(scope) = options.scope.clone() {
-            headers.insert("npm-scope".to_owned(), scope);
+            headers.insert(
+                "npm-scope".to_owned(),
+                utf8_percent_encode(&scope, CONTROLS).to_string(),
+            );
         }
 
         headers.insert(
@@ -150,7 +153,7 @@ impl OroClient {
                     .headers()
                     .get(WWW_AUTHENTICATE)
                     .map_or(String::default(), |header| {
-                        header.to_str().unwrap().to_lowercase()
+                        String::from_utf8_lossy(header.as_bytes()).to_lowercase()
                     });
 
                 let text = response.text().await?;
@@ -218,11 +221,11 @@ impl OroClient {
                 ))
             }
             StatusCode::ACCEPTED => {
-                if let Some(retry_after) = response.headers().get("retry-after") {
-                    let retry_after = retry_after.to_str()
-                        .expect("The \"retry-after\" header that's included in the response should be string.")
-                        .parse::<u64>()
-                        .expect("The \"retry-after\" header that's included in the response should be able to parse to number.");
+                let retry_after = response
+                    .headers()
+                    .get("retry-after")
+                    .and_then(|retry_after| retry_after.to_str().ok()?.parse::<u64>().ok());
+                if let Some(retry_after) = retry_after {
                     Ok(DoneURLResponse::Duration(Duration::from_secs(retry_after)))
                 } else {
                     Err(OroClientError::ResponseError(
-- 
2.43.0


From 27c9f204ef29f52768296a839cc2ddd787fcac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:22 +0000
Subject: [PATCH 55/77] fix: packument entries that make no sense are left out,
 and don't fail the rest

---
 crates/oro-common/src/packument.rs | 54 +++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/crates/oro-common/src/packument.rs b/crates/oro-common/src/packument.rs
index e477637..1f7e0c6 100644
--- a/crates/oro-common/src/packument.rs
+++ b/crates/oro-common/src/packument.rs
@@ -1,8 +1,8 @@
 use derive_builder::Builder;
 use node_semver::Version;
-use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use serde::{de::IgnoredAny, Deserialize, Deserializer, Serialize, Serializer};
 use serde_json::Value;
-use std::{collections::HashMap, fmt::Display};
+use std::{collections::HashMap, fmt::Display, hash::Hash, str::FromStr};
 use url::Url;
 
 use crate::{CorgiManifest, Manifest, PersonField};
@@ -14,9 +14,9 @@ use crate::{CorgiManifest, Manifest, PersonField};
 /// "Corgi" packuments (or will only (de)serialize those specific fields).
 #[derive(Clone, Default, Debug, PartialEq, Eq, Serialize, Deserialize)]
 pub struct CorgiPackument {
-    #[serde(default)]
+    #[serde(default, deserialize_with = "valid_entries")]
     pub versions: HashMap<Version, CorgiVersionMetadata>,
-    #[serde(default, rename = "dist-tags")]
+    #[serde(default, rename = "dist-tags", deserialize_with = "valid_entries")]
     pub tags: HashMap<String, Version>,
 }
 
@@ -24,11 +24,11 @@ pub struct CorgiPackument {
 /// object containing information about package versions, dist-tags, etc.
 #[derive(Builder, Default, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
 pub struct Packument {
-    #[serde(default)]
+    #[serde(default, deserialize_with = "valid_entries")]
     pub versions: HashMap<Version, VersionMetadata>,
-    #[serde(default)]
+    #[serde(default, deserialize_with = "valid_entries")]
     pub time: HashMap<String, String>,
-    #[serde(default, rename = "dist-tags")]
+    #[serde(default, rename = "dist-tags", deserialize_with = "valid_entries")]
     pub tags: HashMap<String, Version>,
     #[serde(flatten)]
     pub rest: HashMap<String, Value>,
@@ -61,6 +61,33 @@ impl From<Packument> for CorgiPackument {
     }
 }
 
+/// Registries have some odd metadata in places, which we'd rather do without
+/// than give up on everything else that's in the same packument.
+fn valid_entries<'de, D, K, V>(deserializer: D) -> std::result::Result<HashMap<K, V>, D::Error>
+where
+    D: Deserializer<'de>,
+    K: Hash + Eq + FromStr,
+    V: Deserialize<'de>,
+{
+    Ok(match Deserialize::deserialize(deserializer)? {
+        Lenient::Valid::<HashMap<String, Lenient<V>>>(map) => map
+            .into_iter()
+            .filter_map(|(k, v)| match v {
+                Lenient::Valid(v) => Some((k.parse().ok()?, v)),
+                Lenient::Invalid(_) => None,
+            })
+            .collect(),
+        Lenient::Invalid(_) => HashMap::new(),
+    })
+}
+
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum Lenient<T> {
+    Valid(T),
+    Invalid(IgnoredAny),
+}
+
 /// A manifest for an individual package version.
 ///
 /// This version is a reduced-size VersionMetadata that only contains fields
@@ -194,16 +221,11 @@ fn deserialize_deprecation_info<'de, D>(
 where
     D: Deserializer<'de>,
 {
-    let val: StringOrBool = Deserialize::deserialize(deserializer)?;
+    let val: Option<StringOrBool> = Deserialize::deserialize(deserializer)?;
     Ok(match val {
-        StringOrBool::String(s) => Some(DeprecationInfo::Reason(s)),
-        StringOrBool::Bool(b) => {
-            if b {
-                Some(DeprecationInfo::UnknownReason)
-            } else {
-                None
-            }
-        }
+        Some(StringOrBool::String(s)) => Some(DeprecationInfo::Reason(s)),
+        Some(StringOrBool::Bool(true)) => Some(DeprecationInfo::UnknownReason),
+        Some(StringOrBool::Bool(false)) | None => None,
     })
 }
 
-- 
2.43.0


From d6a992a623b2cb3d7be11740a417485cf3370458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:22 +0000
Subject: [PATCH 56/77] fix: the version resolved to is the one the packument
 lists it as; blank integrities are none

---
 crates/nassun/src/resolver.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index e4c330b..21dfa02 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -237,20 +237,16 @@ impl PackageResolver {
         }
 
         target
-            .and_then(|v| packument.versions.get(v))
+            .and_then(|v| packument.versions.get_key_value(v))
             .ok_or_else(|| NassunError::NoVersion {
                 name: name.into(),
                 spec: spec.clone(),
                 versions: packument.versions.keys().map(|k| k.to_string()).collect(),
             })
-            .and_then(|v| {
+            .and_then(|(version, v)| {
                 Ok(PackageResolution::Npm {
                     name: name.into(),
-                    version: v
-                        .manifest
-                        .version
-                        .clone()
-                        .unwrap_or_else(|| "0.0.0".parse().unwrap()),
+                    version: version.clone(),
                     tarball: if let Some(tarball) = &v.dist.tarball {
                         tarball.clone()
                     } else {
@@ -264,6 +260,7 @@ impl PackageResolver {
                         .dist
                         .integrity
                         .as_ref()
+                        .filter(|i| !i.trim().is_empty())
                         .map(|i| i.parse())
                         .or_else(|| {
                             v.dist
-- 
2.43.0


From 41ffbc704d8de0a3624b3a8b8088f14995518847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:22 +0000
Subject: [PATCH 57/77] fix: git dependencies without a committish are errors
 instead of panics

---
 crates/nassun/src/fetch/git.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index c63c939..741693c 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -62,22 +62,20 @@ impl GitFetcher {
                     if let Some(requested) = requested {
                         self.fetch_clone(dir, requested, committish, semver, info)
                             .await?;
-                    } else if let (Some(tarball), Some(https), Some(ssh)) =
-                        (hosted.tarball(), hosted.https(), hosted.ssh())
-                    {
-                        match self.fetch_tarball(dir, &tarball).await {
+                    } else if let (Some(https), Some(ssh)) = (hosted.https(), hosted.ssh()) {
+                        // There's only a tarball when a commit was asked for.
+                        if let Some(tarball) = hosted.tarball() {
+                            if self.fetch_tarball(dir, &tarball).await.is_ok() {
+                                return Ok(());
+                            }
+                        }
+                        match self
+                            .fetch_clone(dir, https.to_string(), committish, semver, info)
+                            .await
+                        {
                             Ok(_) => {}
                             Err(_) => {
-                                match self
-                                    .fetch_clone(dir, https.to_string(), committish, semver, info)
-                                    .await
-                                {
-                                    Ok(_) => {}
-                                    Err(_) => {
-                                        self.fetch_clone(dir, ssh, committish, semver, info)
-                                            .await?;
-                                    }
-                                }
+                                self.fetch_clone(dir, ssh, committish, semver, info).await?;
                             }
                         }
                     } else {
@@ -267,8 +265,12 @@ impl PackageFetcher for GitFetcher {
             .await
     }
 
-    async fn tarball(&self, _pkg: &crate::Package) -> Result<crate::TarballStream> {
-        todo!()
+    async fn tarball(&self, pkg: &crate::Package) -> Result<crate::TarballStream> {
+        // TODO: need to implement pack before this can be implemented :(
+        Err(NassunError::MiscError(format!(
+            "Installing git dependencies is not supported yet. (While trying to fetch {})",
+            pkg.from()
+        )))
     }
 }
 
-- 
2.43.0


From a71f8ef94abd9af1b9a18d4250e0f6025adab5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:22 +0000
Subject: [PATCH 58/77] fix: aliased folder dependencies don't panic

---
 crates/nassun/src/fetch/dir.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/nassun/src/fetch/dir.rs b/crates/nassun/src/fetch/dir.rs
index 3c2e48b..8ecdc7a 100644
--- a/crates/nassun/src/fetch/dir.rs
+++ b/crates/nassun/src/fetch/dir.rs
@@ -125,7 +125,7 @@ impl PackageFetcher for DirFetcher {
     }
 
     async fn packument(&self, spec: &PackageSpec, base_dir: &Path) -> Result<Arc<Packument>> {
-        let path = match spec {
+        let path = match spec.target() {
             PackageSpec::Dir { path } => base_dir.join(path),
             _ => panic!("There shouldn't be anything but Dirs here"),
         };
@@ -137,16 +137,19 @@ impl PackageFetcher for DirFetcher {
         spec: &PackageSpec,
         base_dir: &Path,
     ) -> Result<Arc<CorgiPackument>> {
-        let path = match spec {
+        let path = match spec.target() {
             PackageSpec::Dir { path } => base_dir.join(path),
             _ => panic!("There shouldn't be anything but Dirs here"),
         };
         self.corgi_packument_from_path(&path).await
     }
 
-    async fn tarball(&self, _pkg: &Package) -> Result<Box<dyn AsyncRead + Unpin + Send + Sync>> {
+    async fn tarball(&self, pkg: &Package) -> Result<Box<dyn AsyncRead + Unpin + Send + Sync>> {
         // TODO: need to implement pack before this can be implemented :(
-        unimplemented!()
+        Err(NassunError::MiscError(format!(
+            "Installing directory dependencies is not supported yet. (While trying to fetch {})",
+            pkg.from()
+        )))
     }
 }
 
-- 
2.43.0


From 096bf9a58256e55903d985ed7c256e029c84d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:22 +0000
Subject: [PATCH 59/77] fix: add refuses a package.json it can't add to

---
 src/commands/add.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index af5ef50..bc0143e 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -91,7 +91,7 @@ impl OroCommand for AddCmd {
                 if self.apply.emoji { "🔍 " } else { "" }
             );
             self.remove_from_manifest(&mut manifest, name);
-            self.add_to_manifest(&mut manifest, name, &resolved_spec);
+            self.add_to_manifest(&mut manifest, name, &resolved_spec)?;
             count += 1;
         }
 
@@ -130,11 +130,18 @@ impl OroCommand for AddCmd {
 }
 
 impl AddCmd {
-    fn add_to_manifest(&self, mani: &mut Formatted, name: &str, spec: &str) {
+    fn add_to_manifest(&self, mani: &mut Formatted, name: &str, spec: &str) -> Result<()> {
         let deps = self.dep_kind_str();
         tracing::debug!("Adding {name}@{spec} to {deps}.");
+        if !mani.value.is_object() {
+            miette::bail!("package.json is not an object.");
+        }
+        if !mani.value[deps].is_object() && !mani.value[deps].is_null() {
+            miette::bail!("The {deps} in package.json are not an object.");
+        }
         mani.value[deps][name] =
             serde_json::to_value(spec).expect("Value is always a valid string");
+        Ok(())
     }
 
     fn remove_from_manifest(&self, mani: &mut Formatted, name: &str) {
-- 
2.43.0


From dd99ed1243eb3f03f5cc42e72a47bfbaf4f5ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:22 +0000
Subject: [PATCH 60/77] fix: blank integrities in lockfiles are none

---
 crates/node-maintainer/src/lockfile.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 04b52b0..2fd0d5d 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -295,6 +295,7 @@ impl LockfileNode {
         let integrity = children
             .get_arg("integrity")
             .and_then(|i| i.as_string())
+            .filter(|i| !i.trim().is_empty())
             .map(|i| i.parse())
             .transpose()
             .map_err(|e| NodeMaintainerError::KdlLockfileIntegrityParseError(node.clone(), e))?;
@@ -445,6 +446,7 @@ impl LockfileNode {
         let integrity = npm
             .integrity
             .as_ref()
+            .filter(|i| !i.trim().is_empty())
             .map(|i| i.parse())
             .transpose()
             .map_err(|e| {
-- 
2.43.0


From 39dcf13ad404962ee83735b5137ec1e8aefe6e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:27 +0000
Subject: [PATCH 61/77] fix: view shows dependencies that don't fit,
 executables of scoped packages by name, and packages with odd dates

---
 src/commands/view.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/commands/view.rs b/src/commands/view.rs
index 6c1d262..44053c5 100644
--- a/src/commands/view.rs
+++ b/src/commands/view.rs
@@ -122,7 +122,11 @@ impl OroCommand for ViewCmd {
             // TODO: directories.bin? (oof)
             if let Some(bin) = bin {
                 let bins = match bin {
-                    Bin::Str(_) => vec![name.clone().unwrap_or_else(|| String::from(""))],
+                    Bin::Str(_) => vec![name
+                        .as_deref()
+                        .and_then(|name| name.rsplit('/').next())
+                        .unwrap_or_default()
+                        .to_string()],
                     Bin::Hash(bins) => bins.keys().cloned().collect::<Vec<String>>(),
                     Bin::Array(bins) => bins
                         .iter()
@@ -178,12 +182,13 @@ impl OroCommand for ViewCmd {
                     let val = format!("{}: {}", dep.yellow(), version);
                     grid.add(Cell::from(val));
                 }
-                if let Some(out) = grid.fit_into_width(width) {
-                    print!("dependencies:\n{out}");
-                    let count = dependencies.len();
-                    if count > max_deps {
-                        println!("(...and {} more)", count - max_deps);
-                    }
+                let out = grid
+                    .fit_into_width(width)
+                    .unwrap_or_else(|| grid.fit_into_columns(1));
+                print!("dependencies:\n{out}");
+                let count = dependencies.len();
+                if count > max_deps {
+                    println!("(...and {} more)", count - max_deps);
                 }
                 println!();
             }
@@ -220,18 +225,17 @@ impl OroCommand for ViewCmd {
             }
 
             // published N days ago by Foo
-            if let Some(time) = packument.time.get(
+            let time = packument.time.get(
                 &version
                     .clone()
                     .unwrap_or_else(|| "0.0.0".parse().unwrap())
                     .to_string(),
-            ) {
+            );
+            if let Some(time) =
+                time.and_then(|time| chrono::DateTime::parse_from_rfc3339(time).ok())
+            {
                 if let Some(NpmUser { name, email }) = npm_user {
-                    let human = chrono_humanize::HumanTime::from(
-                        chrono::DateTime::parse_from_rfc3339(time)
-                            .into_diagnostic()
-                            .wrap_err("view::bad_date")?,
-                    );
+                    let human = chrono_humanize::HumanTime::from(time);
                     print!(
                         "published {} by {}",
                         human.to_string().yellow(),
-- 
2.43.0


From c5c5e5cc51c4d8ba0af6504275c1d5b877a3c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:27 +0000
Subject: [PATCH 62/77] fix: versions with old forms of license, engines and
 other fields can be viewed

---
 crates/oro-common/src/manifest.rs  | 32 +++++++++++++++++++++++---
 crates/oro-common/src/packument.rs | 37 ++++++++++++++++++++++++++++--
 2 files changed, 64 insertions(+), 5 deletions(-)

diff --git a/crates/oro-common/src/manifest.rs b/crates/oro-common/src/manifest.rs
index 1ad35c3..490616f 100644
--- a/crates/oro-common/src/manifest.rs
+++ b/crates/oro-common/src/manifest.rs
@@ -2,7 +2,7 @@ use std::{collections::HashMap, path::PathBuf};
 
 use derive_builder::Builder;
 use indexmap::IndexMap;
-use node_semver::{Range, Version};
+use node_semver::Version;
 use serde::{Deserialize, Deserializer, Serialize};
 use serde_json::Value;
 
@@ -54,7 +54,12 @@ pub struct Manifest {
     #[serde(skip_serializing_if = "Option::is_none")]
     pub homepage: Option<String>,
 
-    #[serde(default, alias = "licence", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        default,
+        alias = "licence",
+        deserialize_with = "license_name",
+        skip_serializing_if = "Option::is_none"
+    )]
     #[builder(setter(into, strip_option), default)]
     pub license: Option<String>,
 
@@ -140,7 +145,7 @@ pub struct Manifest {
         skip_serializing_if = "HashMap::is_empty"
     )]
     #[builder(default)]
-    pub engines: HashMap<String, Range>,
+    pub engines: HashMap<String, String>,
 
     #[serde(default, skip_serializing_if = "Vec::is_empty")]
     #[builder(default)]
@@ -258,6 +263,27 @@ where
     }
 }
 
+/// Old packages have `"license": {"type": "MIT", "url": "..."}`.
+fn license_name<'de, D>(deserializer: D) -> std::result::Result<Option<String>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let license: Option<License> = Deserialize::deserialize(deserializer)?;
+    Ok(license.map(|license| match license {
+        License::Str(name) | License::Obj { name } => name,
+    }))
+}
+
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum License {
+    Str(String),
+    Obj {
+        #[serde(rename = "type")]
+        name: String,
+    },
+}
+
 #[derive(Deserialize)]
 #[serde(untagged)]
 enum ObjectOrBust<K, V>
diff --git a/crates/oro-common/src/packument.rs b/crates/oro-common/src/packument.rs
index 1f7e0c6..9bb161b 100644
--- a/crates/oro-common/src/packument.rs
+++ b/crates/oro-common/src/packument.rs
@@ -1,7 +1,7 @@
 use derive_builder::Builder;
 use node_semver::Version;
 use serde::{de::IgnoredAny, Deserialize, Deserializer, Serialize, Serializer};
-use serde_json::Value;
+use serde_json::{Map, Value};
 use std::{collections::HashMap, fmt::Display, hash::Hash, str::FromStr};
 use url::Url;
 
@@ -24,7 +24,7 @@ pub struct CorgiPackument {
 /// object containing information about package versions, dist-tags, etc.
 #[derive(Builder, Default, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
 pub struct Packument {
-    #[serde(default, deserialize_with = "valid_entries")]
+    #[serde(default, deserialize_with = "version_entries")]
     pub versions: HashMap<Version, VersionMetadata>,
     #[serde(default, deserialize_with = "valid_entries")]
     pub time: HashMap<String, String>,
@@ -81,6 +81,38 @@ where
     })
 }
 
+/// Old versions have fields that aren't of the type they're supposed to be
+/// (and those that use the version have no use for). They're kept as they are.
+fn version_entries<'de, D>(
+    deserializer: D,
+) -> std::result::Result<HashMap<Version, VersionMetadata>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let versions: HashMap<Version, Value> = valid_entries(deserializer)?;
+    Ok(versions
+        .into_iter()
+        .filter_map(|(version, metadata)| Some((version, lenient_metadata(metadata)?)))
+        .collect())
+}
+
+fn lenient_metadata(metadata: Value) -> Option<VersionMetadata> {
+    if let Ok(metadata) = VersionMetadata::deserialize(&metadata) {
+        return Some(metadata);
+    }
+    let Value::Object(fields) = metadata else {
+        return None;
+    };
+    let (valid, odd): (Map<_, _>, Map<_, _>) = fields.into_iter().partition(|(key, value)| {
+        let field = Map::from_iter([(key.clone(), value.clone())]);
+        VersionMetadata::deserialize(Value::Object(field)).is_ok()
+    });
+    let mut metadata = VersionMetadata::deserialize(Value::Object(valid)).ok()?;
+    let odd = odd.into_iter().filter(|(key, _)| key != "dist");
+    metadata.manifest._rest.extend(odd);
+    Some(metadata)
+}
+
 #[derive(Deserialize)]
 #[serde(untagged)]
 enum Lenient<T> {
@@ -137,6 +169,7 @@ impl From<CorgiVersionMetadata> for VersionMetadata {
             dist: value.dist.into(),
             has_shrinkwrap: value.has_shrinkwrap,
             manifest: value.manifest.into(),
+            deprecated: value.deprecated,
             ..Default::default()
         }
     }
-- 
2.43.0


From 1484f078e7ee5bff9767438886fa6ed573a4b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:12 +0000
Subject: [PATCH 63/77] fix: shims of bins with dots in their names don't
 replace each other, or write through links

---
 crates/oro-shim-bin/src/lib.rs | 47 +++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/crates/oro-shim-bin/src/lib.rs b/crates/oro-shim-bin/src/lib.rs
index 80cd227..74ad381 100644
--- a/crates/oro-shim-bin/src/lib.rs
+++ b/crates/oro-shim-bin/src/lib.rs
@@ -19,7 +19,7 @@
 // ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF OR
 // IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
 
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 use once_cell::sync::Lazy;
 use regex::Regex;
@@ -53,32 +53,31 @@ pub fn shim_bin(source: &Path, to: &Path) -> std::io::Result<()> {
 }
 
 fn cleanup_existing(to: &Path) -> std::io::Result<()> {
-    if let Ok(meta) = to.metadata() {
-        if meta.is_dir() {
-            std::fs::remove_dir_all(to)?;
-        } else {
-            std::fs::remove_file(to)?;
-        }
-    }
-    let cmd = to.with_extension("cmd");
-    if let Ok(meta) = cmd.metadata() {
-        if meta.is_dir() {
-            std::fs::remove_dir_all(cmd)?;
-        } else {
-            std::fs::remove_file(cmd)?;
-        }
-    }
-    let ps1 = to.with_extension("ps1");
-    if let Ok(meta) = ps1.metadata() {
-        if meta.is_dir() {
-            std::fs::remove_dir_all(ps1)?;
-        } else {
-            std::fs::remove_file(ps1)?;
+    for path in [to, &with_extra_extension(to, "cmd"), &with_extra_extension(to, "ps1")] {
+        // NOTE: links are removed themselves, and not followed.
+        if let Ok(meta) = path.symlink_metadata() {
+            if meta.is_dir() {
+                std::fs::remove_dir_all(path)?;
+            } else {
+                std::fs::remove_file(path).or_else(|e| {
+                    // On Windows, links to directories are directories.
+                    std::fs::remove_dir(path).map_err(|_| e)
+                })?;
+            }
         }
     }
     Ok(())
 }
 
+/// Bins can have dots in their names, so unlike [`Path::with_extension`], this
+/// keeps whatever comes after them.
+fn with_extra_extension(path: &Path, extension: &str) -> PathBuf {
+    let mut path = path.as_os_str().to_owned();
+    path.push(".");
+    path.push(extension);
+    path.into()
+}
+
 fn write_shim(
     from: &Path,
     to: &Path,
@@ -139,7 +138,7 @@ fn write_cmd_shim(
         cmd.push_str(&format!("{target} %*\r\n",));
     }
 
-    std::fs::write(to.with_extension("cmd"), cmd)?;
+    std::fs::write(with_extra_extension(to, "cmd"), cmd)?;
 
     Ok(())
 }
@@ -248,7 +247,7 @@ fn write_pwsh_shim(
         pwsh.push_str("exit $LASTEXITCODE\n");
     }
 
-    std::fs::write(to.with_extension("ps1"), pwsh)?;
+    std::fs::write(with_extra_extension(to, "ps1"), pwsh)?;
 
     Ok(())
 }
-- 
2.43.0


From 8b6b4454f7d6fac19f13f5df445d97a0960391f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:12 +0000
Subject: [PATCH 64/77] fix: scripts that aren't UTF-8 get shims for their
 interpreter

---
 crates/oro-shim-bin/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oro-shim-bin/src/lib.rs b/crates/oro-shim-bin/src/lib.rs
index 74ad381..29b4be5 100644
--- a/crates/oro-shim-bin/src/lib.rs
+++ b/crates/oro-shim-bin/src/lib.rs
@@ -38,7 +38,9 @@ pub fn shim_bin(source: &Path, to: &Path) -> std::io::Result<()> {
     let from = pathdiff::diff_paths(source, to.parent().expect("must have parent"))
         .expect("paths should be diffable");
     cleanup_existing(to)?;
-    if let Ok(contents) = std::fs::read_to_string(source) {
+    if let Ok(contents) = std::fs::read(source) {
+        // Only the shebang matters: the rest can have any encoding.
+        let contents = String::from_utf8_lossy(&contents);
         let mut lines = contents.lines();
         if let Some(first_line) = lines.next() {
             if let Some(captures) = SHEBANG_REGEX.captures(first_line.trim_end()) {
-- 
2.43.0


From 26d8f0ba586ec06e1136b79868a5738e8542ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:12 +0000
Subject: [PATCH 65/77] fix: variables in shebangs end where their names do

---
 crates/oro-shim-bin/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oro-shim-bin/src/lib.rs b/crates/oro-shim-bin/src/lib.rs
index 29b4be5..0f15d62 100644
--- a/crates/oro-shim-bin/src/lib.rs
+++ b/crates/oro-shim-bin/src/lib.rs
@@ -30,7 +30,7 @@ static SHEBANG_REGEX: Lazy<Regex> = Lazy::new(|| {
 });
 
 static DOLLAR_EXPR_REGEX: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"\$\{?(?P<var>[^$@#?\- \t{}:]+)\}?").unwrap());
+    Lazy::new(|| Regex::new(r"\$\{?(?P<var>[A-Za-z_][A-Za-z0-9_]*)\}?").unwrap());
 
 pub fn shim_bin(source: &Path, to: &Path) -> std::io::Result<()> {
     // First, we blow away anything that already exists there.
-- 
2.43.0


From f3770ac96f26c2ba0ac2090d64895fb7fa83ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:37 +0000
Subject: [PATCH 66/77] fix: deprecated versions whose metadata has no name
 don't crash

---
 crates/node-maintainer/src/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 06742c0..4ad8d3f 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -256,7 +256,7 @@ impl<'a> Resolver<'a> {
                             tracing::warn!(
                                 "{} {}@{}: {}",
                                 "deprecated".on_magenta(),
-                                manifest.name.as_ref().unwrap(),
+                                manifest.name.as_deref().unwrap_or_else(|| package.name()),
                                 manifest
                                     .version
                                     .as_ref()
-- 
2.43.0


From a753551c1728db270f80c6eef3707ff479e240b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:13 +0000
Subject: [PATCH 67/77] fix: git semver ranges find tags with a v or path
 prefix

---
 crates/nassun/src/fetch/git.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index 741693c..87078d3 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -136,28 +136,33 @@ impl GitFetcher {
                 .output()
                 .await
                 .map_err(NassunError::GitIoError)?;
-            let versions: Vec<Version> = String::from_utf8(refs_output.stdout)
+            let tags: Vec<(Version, String)> = String::from_utf8(refs_output.stdout)
                 .map_err(|e| {
                     NassunError::MiscError(format!("Could not decode git output as UTF-8. {}", e))
                 })?
                 .lines()
                 .filter_map(|line| {
-                    line.split('/')
-                        .last()
-                        .and_then(|tag| Version::parse(tag).ok())
+                    let tag = line.split_once("refs/tags/")?.1;
+                    // Versions can be prefixed, like `v1.2.3` or `pkg/1.2.3`.
+                    let version = tag.rsplit('/').next()?;
+                    let version = version.strip_prefix('v').unwrap_or(version);
+                    Some((Version::parse(version).ok()?, format!("refs/tags/{tag}")))
                 })
                 .collect();
             Some(
-                versions
-                    .iter()
-                    .filter(|v| range.satisfies(v))
+                tags.iter()
+                    .filter(|(version, _)| range.satisfies(version))
                     .max()
                     .ok_or_else(|| NassunError::NoVersion {
                         name: repo.to_string(),
                         spec: PackageSpec::Git(info.clone()),
-                        versions: versions.iter().map(|v| v.to_string()).collect(),
+                        versions: tags
+                            .iter()
+                            .map(|(version, _)| version.to_string())
+                            .collect(),
                     })?
-                    .to_string(),
+                    .1
+                    .clone(),
             )
         } else {
             committish.clone()
@@ -166,6 +171,8 @@ impl GitFetcher {
             Command::new(git)
                 .arg("checkout")
                 .arg(&checkout_ref)
+                // Otherwise it's taken for a file when there's no such ref.
+                .arg("--")
                 .current_dir(dir.join("package"))
                 .stdin(Stdio::null())
                 .stdout(Stdio::null())
-- 
2.43.0


From f67bbf2a5a1af34dfe2ef2d0576004ac0120dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:43 +0000
Subject: [PATCH 68/77] fix: git dependencies never satisfied what they were
 resolved from, and folders only with the project as current directory

---
 crates/nassun/src/package.rs           | 11 +++++++++++
 crates/nassun/src/resolver.rs          |  3 +--
 crates/node-maintainer/src/graph.rs    |  2 +-
 crates/node-maintainer/src/resolver.rs |  2 +-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/nassun/src/package.rs b/crates/nassun/src/package.rs
index c53b36e..69e4e37 100644
--- a/crates/nassun/src/package.rs
+++ b/crates/nassun/src/package.rs
@@ -73,6 +73,17 @@ impl Package {
         &self.resolved
     }
 
+    /// Whether this `Package` is one that `spec` could have been resolved to.
+    pub fn satisfies(&self, spec: &PackageSpec) -> Result<bool> {
+        if let PackageSpec::Dir { path } = spec.target() {
+            self.resolved.satisfies(&PackageSpec::Dir {
+                path: self.base_dir.join(path),
+            })
+        } else {
+            self.resolved.satisfies(spec)
+        }
+    }
+
     /// The full [`Packument`] that this `Package` was resolved from.
     pub async fn packument(&self) -> Result<Arc<Packument>> {
         self.fetcher.packument(&self.from, &self.base_dir).await
diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 21dfa02..51d4ea9 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -81,8 +81,7 @@ impl PackageResolution {
                         format!("Failed to canonicalize path: {}.", ps_path.display())
                     })?
             }
-            // TODO: Implement this.
-            (PR::Git { .. }, PS::Git(..)) => false,
+            (PR::Git { info: pr_info, .. }, PS::Git(ps_info)) => pr_info == ps_info,
             _ => false,
         })
     }
diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index 501f6d4..9b0dd8e 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -373,7 +373,7 @@ impl Graph {
                             ..
                         }
                     );
-                    if !is_tag && !dependency.package.resolved().satisfies(&edge.requested)? {
+                    if !is_tag && !dependency.package.satisfies(&edge.requested)? {
                         return Err(GraphValidationError(format!(
                             "Dependency {:?} does not satisfy requirement {} from {:?}",
                             dependency.package.resolved(),
diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 4ad8d3f..ce81da3 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -374,7 +374,7 @@ impl<'a> Resolver<'a> {
             (PackageSpec::Npm { name: from, .. }, PackageSpec::Npm { name, .. }) => from == name,
             _ => true,
         };
-        Ok(same_name && package.resolved().satisfies(spec)?)
+        Ok(same_name && package.satisfies(spec)?)
     }
 
     /// Whether any of the packages the dependent is nested in is still waiting
-- 
2.43.0


From 3e9b5d39d441649e4d273680b3d8421b53be7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:51 +0000
Subject: [PATCH 69/77] fix: a git committish is never taken for an option of
 git

---
 crates/nassun/src/fetch/git.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index 87078d3..adb378b 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -168,6 +168,13 @@ impl GitFetcher {
             committish.clone()
         };
         if let Some(checkout_ref) = checkout_ref {
+            if checkout_ref.starts_with('-') {
+                // No ref has such a name, and git would take it for an option.
+                return Err(NassunError::GitCheckoutError(
+                    String::from(repo),
+                    checkout_ref,
+                ));
+            }
             Command::new(git)
                 .arg("checkout")
                 .arg(&checkout_ref)
-- 
2.43.0


From 97da579fcb6951d994c537c1e92fc3be42329cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:15 +0000
Subject: [PATCH 70/77] fix: branches and tags with slashes or at signs in
 their names can be referred to

---
 crates/oro-package-spec/src/parsers/git.rs  |  2 +-
 crates/oro-package-spec/src/parsers/util.rs | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index 6f570a1..d2e4e34 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -56,7 +56,7 @@ fn committish(input: &str) -> IResult<&str, (Option<String>, Option<Range>), Spe
             map(preceded(tag("semver:"), cut(semver_range)), |req| {
                 (None, Some(req))
             }),
-            map(map_res(rest, util::no_url_encode), |com| (Some(com), None)),
+            map(map_res(rest, util::committish), |com| (Some(com), None)),
         )),
     ))(input)?;
     Ok((
diff --git a/crates/oro-package-spec/src/parsers/util.rs b/crates/oro-package-spec/src/parsers/util.rs
index a095dd6..9147cf2 100644
--- a/crates/oro-package-spec/src/parsers/util.rs
+++ b/crates/oro-package-spec/src/parsers/util.rs
@@ -38,3 +38,17 @@ pub(crate) fn package_name(name: &str) -> Result<&str, SpecParseError<&str>> {
     }
     no_url_encode(name)
 }
+
+/// Branches and tags can be called things like `feature/x` and `pkg@1.0.0`.
+pub(crate) fn committish(committish: &str) -> Result<&str, SpecParseError<&str>> {
+    let invalid = |c: char| c.is_whitespace() || c.is_control() || "?#%:^[\\".contains(c);
+    if committish.contains(invalid) {
+        Err(SpecParseError {
+            input: committish,
+            context: None,
+            kind: Some(SpecErrorKind::InvalidCharacters(committish.into())),
+        })
+    } else {
+        Ok(committish)
+    }
+}
-- 
2.43.0


From 02029b362cf0b54702f19f843c2936732ccb9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:57 +0000
Subject: [PATCH 71/77] fix: when cache contents fail their verification after
 being hard linked, nothing is written through that link

---
 crates/nassun/src/tarball.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 55340f7..3f8c2cc 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -493,7 +493,14 @@ pub(crate) fn extract_from_cache(
             // was sometimes crashing with an ENOENT (?!), which
             // really REALLY shouldn't happen. So we just retry a few
             // times and hope the problem goes away.
-            (|| hard_link_from_cache(cache, sri, to))
+            (|| {
+                hard_link_from_cache(cache, sri, to).map_err(|e| {
+                    // The contents are verified only after they've been
+                    // linked. Don't let anything write through that link.
+                    let _ = std::fs::remove_file(to);
+                    e
+                })
+            })
                 .retry(&ConstantBuilder::default().with_delay(Duration::from_millis(50)))
                 .notify(|err, wait| {
                     tracing::debug!(
-- 
2.43.0


From 8e1e86cd7f33698c311fafae2232eb07f7abd39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:13 +0000
Subject: [PATCH 72/77] fix: responses that aren't JSON are reported without
 cutting through their characters

---
 crates/oro-client/src/error.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/oro-client/src/error.rs b/crates/oro-client/src/error.rs
index 45373c0..c8204f0 100644
--- a/crates/oro-client/src/error.rs
+++ b/crates/oro-client/src/error.rs
@@ -92,10 +92,15 @@ impl OroClientError {
         // to manually shorten the string to only the relevant bits and
         // translate the spans accordingly.
         let err_offset = SourceOffset::from_location(&json, err.line(), err.column());
-        let json_len = json.len();
-        let local_offset = err_offset.offset().saturating_sub(40);
-        let local_len = std::cmp::min(40, json_len - err_offset.offset());
-        let snipped_json = json[local_offset..err_offset.offset() + local_len].to_string();
+        let mut local_offset = err_offset.offset().saturating_sub(40);
+        while !json.is_char_boundary(local_offset) {
+            local_offset -= 1;
+        }
+        let mut local_end = std::cmp::min(err_offset.offset() + 40, json.len());
+        while !json.is_char_boundary(local_end) {
+            local_end += 1;
+        }
+        let snipped_json = json[local_offset..local_end].to_string();
         Self::BadJson {
             source: err,
             url: url.clone(),
-- 
2.43.0


From 1d76208675900ca59293a8f6e0dfe33faff14509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:26 +0000
Subject: [PATCH 73/77] fix: config files that can't be written are errors, and
 don't crash

---
 src/commands/login.rs  | 5 +++--
 src/commands/logout.rs | 5 +++--
 src/lib.rs             | 5 ++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/commands/login.rs b/src/commands/login.rs
index 802e32b..e3c9671 100644
--- a/src/commands/login.rs
+++ b/src/commands/login.rs
@@ -72,8 +72,9 @@ impl OroCommand for LoginCmd {
             ProjectDirs::from("", "", "orogene")
                 .map(|config| config.config_dir().to_path_buf().join("oro.kdl"))
         }) {
-            std::fs::create_dir_all(config_path.parent().expect("must have parent"))
-                .into_diagnostic()?;
+            if let Some(config_dir) = config_path.parent() {
+                std::fs::create_dir_all(config_dir).into_diagnostic()?;
+            }
             let mut config: KdlDocument = match std::fs::read_to_string(config_path) {
                 // It's about to be created.
                 Err(e) if e.kind() == std::io::ErrorKind::NotFound => KdlDocument::new(),
diff --git a/src/commands/logout.rs b/src/commands/logout.rs
index 8cb12d1..5675212 100644
--- a/src/commands/logout.rs
+++ b/src/commands/logout.rs
@@ -31,8 +31,9 @@ impl OroCommand for LogoutCmd {
         }) {
             let builder: OroClientBuilder = self.client_args.try_into()?;
             let client = builder.registry(self.registry.clone()).build();
-            std::fs::create_dir_all(config_path.parent().expect("must have parent"))
-                .into_diagnostic()?;
+            if let Some(config_dir) = config_path.parent() {
+                std::fs::create_dir_all(config_dir).into_diagnostic()?;
+            }
             let mut config: KdlDocument = match std::fs::read_to_string(config_path) {
                 // It's about to be created.
                 Err(e) if e.kind() == std::io::ErrorKind::NotFound => KdlDocument::new(),
diff --git a/src/lib.rs b/src/lib.rs
index 4f83687..bf1eef6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -502,9 +502,8 @@ impl Orogene {
                 ProjectDirs::from("", "", "orogene")
                     .map(|p| p.config_dir().to_owned().join("oro.kdl"))
             }) {
-                let config_dir = config_path.parent().expect("must have parent");
-                if !config_dir.exists() {
-                    std::fs::create_dir_all(config_dir).unwrap();
+                if let Some(config_dir) = config_path.parent() {
+                    std::fs::create_dir_all(config_dir).into_diagnostic()?;
                 }
                 let mut config: KdlDocument = std::fs::read_to_string(&config_path)
                     .unwrap_or_default()
-- 
2.43.0


From 5bc650e05242b74d8d69fa56f11a126b0c7f5e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:52 +0000
Subject: [PATCH 74/77] fix: legacy logins without a terminal fail instead of
 asking forever

---
 crates/oro-npm-account/src/login.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/oro-npm-account/src/login.rs b/crates/oro-npm-account/src/login.rs
index abb9759..c75ff4e 100644
--- a/crates/oro-npm-account/src/login.rs
+++ b/crates/oro-npm-account/src/login.rs
@@ -1,3 +1,5 @@
+use std::io::{self, IsTerminal};
+
 use crate::error::OroNpmAccountError;
 use dialoguer::theme::ColorfulTheme;
 use dialoguer::{Input, Password};
@@ -32,6 +34,13 @@ pub async fn login(
             }
         }
         AuthType::Legacy => {
+            // Without a terminal, prompts would never get their answers.
+            if !io::stdin().is_terminal() || !io::stderr().is_terminal() {
+                return Err(OroNpmAccountError::ReadUserInputError(io::Error::new(
+                    io::ErrorKind::Other,
+                    "legacy logins need a terminal to ask for the username and password",
+                )));
+            }
             let username: String = Input::with_theme(&ColorfulTheme::default())
                 .with_prompt("Username:")
                 .interact()
-- 
2.43.0


From 6ec02b3dafdae240b4adc64dec594278007832f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:11 +0000
Subject: [PATCH 75/77] fix: one-time passwords that can't be sent are errors,
 and don't crash

---
 crates/oro-client/src/api/login.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oro-client/src/api/login.rs b/crates/oro-client/src/api/login.rs
index 066610d..d01aebe 100644
--- a/crates/oro-client/src/api/login.rs
+++ b/crates/oro-client/src/api/login.rs
@@ -122,7 +122,9 @@ impl OroClient {
         if let Some(otp) = otp {
             headers.insert(
                 "npm-otp",
-                otp.try_into().expect("This type conversion should work"),
+                // Nothing that can't be in a header is a one-time password.
+                otp.try_into()
+                    .map_err(|_| OroClientError::OTPRequiredError)?,
             );
         }
 
-- 
2.43.0


From ad9a211e9cf4905a0be08f88df54cbde50467d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:17 +0000
Subject: [PATCH 76/77] fix: indentation is kept in files whose lines end with
 carriage returns only

---
 crates/oro-pretty-json/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oro-pretty-json/src/lib.rs b/crates/oro-pretty-json/src/lib.rs
index 0023dec..e49a6f1 100644
--- a/crates/oro-pretty-json/src/lib.rs
+++ b/crates/oro-pretty-json/src/lib.rs
@@ -54,7 +54,7 @@ pub fn to_string_pretty(formatted: &Formatted) -> Result<String, Error> {
 fn detect_indentation(json: &str) -> Option<(char, usize)> {
     // Blank lines say nothing about indentation.
     let mut lines = json
-        .lines()
+        .split(['\r', '\n'])
         .filter(|line| !line.chars().all(is_json_whitespace));
     lines.next()?;
     let second_line = lines.next()?;
-- 
2.43.0


From dc1d658686b77addb0354b795068c2e203bfd864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:12 +0000
Subject: [PATCH 77/77] fix: percent-encoded credentials of proxies are decoded

---
 crates/oro-client/src/client.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 0d7a1e5..a39bd25 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -113,15 +113,9 @@ impl OroClientBuilder {
     pub fn proxy_url(mut self, proxy_url: impl AsRef<str>) -> Result<Self, OroClientError> {
         match Url::parse(proxy_url.as_ref()) {
             Ok(url_info) => {
-                let username = url_info.username();
-                let password = url_info.password();
-                let mut proxy = Proxy::all(url_info.as_ref())?;
-
-                if let Some(password_str) = password {
-                    proxy = proxy.basic_auth(username, password_str);
-                }
-
-                proxy = proxy.no_proxy(self.get_no_proxy_domain());
+                // NOTE: this takes the (percent-encoded) credentials in the
+                // URL, too.
+                let proxy = Proxy::all(url_info.as_ref())?.no_proxy(self.get_no_proxy_domain());
                 self.proxy_url = Some(proxy);
                 self.proxy = true;
                 Ok(self)
-- 
2.43.0

