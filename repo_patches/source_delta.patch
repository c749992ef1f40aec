From 05ade2f623fbf25bca2f5e6ca9ff15bb753685e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:33 +0000
Subject: [PATCH 01/13] fix: cloning a container no longer shares B-Tree nodes
 with the original

---
 src/dataset/graph/impl/btree_graph.rs         |  6 +++++-
 src/dataset/graph/impl/indexed_btree_graph.rs |  6 +++++-
 src/dataset/impl/btree_dataset.rs             |  6 +++++-
 src/dataset/impl/indexed_btree_dataset.rs     |  6 +++++-
 src/utils.rs                                  | 19 ++++++++++++++++++-
 5 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index d029f20..3226c40 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::{super::Graph, IndexedBTreeGraph};
 use crate::{
 	dataset::{GraphMut, ResourceTraversableGraph, TraversableGraph},
+	utils::clone_btree,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -49,11 +50,14 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF graph.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct BTreeGraph<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) triples: Slab<Triple<usize>>,
+	#[educe(Clone(method(clone_btree)))]
 	pub(crate) resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_btree)))]
 	pub(crate) triples_indexes: RawBTree<usize>,
 }
 
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 274bfc4..51fb417 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -14,6 +14,7 @@ use crate::{
 		triple::canonical::{PatternObject, PatternPredicate, PatternSubject},
 		CanonicalTriplePattern,
 	},
+	utils::clone_btree,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -56,11 +57,14 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF graph, optimized for pattern matching operations.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct IndexedBTreeGraph<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	triples: Slab<Triple<usize>>,
+	#[educe(Clone(method(clone_btree)))]
 	resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_btree)))]
 	triples_indexes: RawBTree<usize>,
 	subjects: BTreeSet<usize>,
 	predicates: BTreeSet<usize>,
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 29d4e24..11dc944 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::super::Dataset;
 use crate::{
 	dataset::{DatasetMut, IndexedBTreeDataset, ResourceTraversableDataset, TraversableDataset},
+	utils::clone_btree,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -47,11 +48,14 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF dataset.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct BTreeDataset<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) quads: Slab<Quad<usize>>,
+	#[educe(Clone(method(clone_btree)))]
 	pub(crate) resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_btree)))]
 	pub(crate) quads_indexes: RawBTree<usize>,
 }
 
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 1e81ec5..5ed1b8f 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -18,6 +18,7 @@ use crate::{
 		quad::canonical::{PatternGraph, PatternObject, PatternPredicate, PatternSubject},
 		CanonicalQuadPattern,
 	},
+	utils::clone_btree,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -58,11 +59,14 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF dataset, optimized for pattern matching operations.
-#[derive(Clone)]
+#[derive(Educe)]
+#[educe(Clone(bound(R: Clone)))]
 pub struct IndexedBTreeDataset<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	quads: Slab<Quad<usize>>,
+	#[educe(Clone(method(clone_btree)))]
 	resources_indexes: RawBTree<usize>,
+	#[educe(Clone(method(clone_btree)))]
 	quads_indexes: RawBTree<usize>,
 	subjects: BTreeSet<usize>,
 	predicates: BTreeSet<usize>,
diff --git a/src/utils.rs b/src/utils.rs
index 768d1df..07eca30 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,24 @@
-use std::marker::PhantomData;
+use std::{cmp::Ordering, marker::PhantomData};
+
+use raw_btree::RawBTree;
 
 use crate::{Quad, Triple};
 
+/// Clones the given B-Tree.
+///
+/// The `Clone` implementation of `RawBTree` (up to version 0.2.0) shares the
+/// first child of every internal node with the original tree, which ends up
+/// being freed twice. Here a new tree is built by appending each item.
+pub(crate) fn clone_btree<T: Clone>(tree: &RawBTree<T>) -> RawBTree<T> {
+	let mut result = RawBTree::new();
+
+	for item in tree {
+		result.insert(|_, _| Ordering::Less, item.clone());
+	}
+
+	result
+}
+
 pub struct InfallibleIterator<I>(pub I);
 
 impl<I: Iterator> Iterator for InfallibleIterator<I> {
-- 
2.43.0


From 86ac1d30e807163b13c7d23ed6599819c62c5315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 02/13] fix: do not duplicate a new resource occurring several
 times in an inserted triple or quad

---
 src/dataset/graph/impl/btree_graph.rs         | 15 ++++--------
 src/dataset/graph/impl/indexed_btree_graph.rs | 15 ++++--------
 src/dataset/impl/btree_dataset.rs             | 24 ++++++++-----------
 src/dataset/impl/indexed_btree_dataset.rs     | 24 ++++++++-----------
 4 files changed, 30 insertions(+), 48 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index 3226c40..d757f7f 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -146,14 +146,9 @@ impl<R: Ord> BTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -166,7 +161,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -179,7 +174,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -192,7 +187,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 51fb417..34ce4af 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -224,14 +224,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -244,7 +239,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -257,7 +252,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -274,7 +269,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			self.predicates.insert(p_i);
 			self.objects.insert(o_i);
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 11dc944..af78f4f 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -144,18 +144,9 @@ impl<R: Ord> BTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			let i = self.quads.vacant_key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -168,7 +159,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -181,7 +172,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -194,6 +185,11 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
+
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].occurrences += 1;
@@ -208,7 +204,7 @@ impl<R: Ord> BTreeDataset<R> {
 				None => None,
 			};
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 5ed1b8f..da261b8 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -253,18 +253,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			let i = self.quads.vacant_key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -277,7 +268,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -290,7 +281,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -303,6 +294,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
+
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].as_graph.insert(i);
@@ -327,7 +323,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				self.named_graphs.insert(g_i);
 			}
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
-- 
2.43.0


From 27293acfa5cd726d54e860e07749ec65ea2e3026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:20 +0000
Subject: [PATCH 03/13] fix: keep subject/predicate/object/graph sets in sync
 with the triples on removal

---
 src/dataset/graph/impl/indexed_btree_graph.rs | 13 +++++++++----
 src/dataset/impl/indexed_btree_dataset.rs     | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 34ce4af..740d0dd 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -290,12 +290,11 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			Some(i) => {
 				let Triple(s_i, p_i, o_i) = self.triples.remove(i);
 
-				self.subjects.remove(&s_i);
-				self.predicates.remove(&p_i);
-				self.objects.remove(&o_i);
-
 				let s = &mut self.resources[s_i];
 				s.as_subject.remove(&i);
+				if s.as_subject.is_empty() {
+					self.subjects.remove(&s_i);
+				}
 				if s.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.0);
@@ -304,6 +303,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let p = &mut self.resources[p_i];
 				p.as_predicate.remove(&i);
+				if p.as_predicate.is_empty() {
+					self.predicates.remove(&p_i);
+				}
 				if p.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.1);
@@ -312,6 +314,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let o = &mut self.resources[o_i];
 				o.as_object.remove(&i);
+				if o.as_object.is_empty() {
+					self.objects.remove(&o_i);
+				}
 				if o.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.2);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index da261b8..c0eaf0c 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -384,12 +384,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let Quad(s_i, p_i, o_i, g_i) = self.quads.remove(i);
 
-		self.subjects.remove(&s_i);
-		self.predicates.remove(&p_i);
-		self.objects.remove(&o_i);
-
 		let s = &mut self.resources[s_i];
 		s.as_subject.remove(&i);
+		if s.as_subject.is_empty() {
+			self.subjects.remove(&s_i);
+		}
 		if s.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &s_i);
@@ -398,6 +397,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let p = &mut self.resources[p_i];
 		p.as_predicate.remove(&i);
+		if p.as_predicate.is_empty() {
+			self.predicates.remove(&p_i);
+		}
 		if p.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &p_i);
@@ -406,6 +408,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let o = &mut self.resources[o_i];
 		o.as_object.remove(&i);
+		if o.as_object.is_empty() {
+			self.objects.remove(&o_i);
+		}
 		if o.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &o_i);
@@ -416,11 +421,13 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 			Some(g_i) => {
 				let g = &mut self.resources[g_i];
 				g.as_graph.remove(&i);
+				if g.as_graph.is_empty() {
+					self.named_graphs.remove(&g_i);
+				}
 				if g.is_empty() {
 					self.resources_indexes
 						.remove(resource_index_cmp(&self.resources), &g_i);
 					self.resources.remove(g_i);
-					self.named_graphs.remove(&g_i);
 				}
 			}
 			None => {
-- 
2.43.0


From 2de640ff3acf3d1ddf1aa1171e39a83e6d8250d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 04/13] fix: do not stop pattern matching at the first vacant
 triple or quad slot

---
 src/dataset/graph/impl/indexed_btree_graph.rs |  5 ++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 740d0dd..7997759 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -624,7 +624,10 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.triples.capacity() {
 			let i = self.subject.next(self.i)?;
-			let triple = *self.triples.get(i)?;
+			let Some(&triple) = self.triples.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, triple) {
 				Ok(()) => match self.object.next(i, triple) {
 					Ok(()) => {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index c0eaf0c..0f0293a 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -824,7 +824,10 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -861,7 +864,10 @@ impl<'a, R> Iterator for MultiPatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -897,7 +903,10 @@ impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.dataset.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.dataset.quads.get(i)?;
+			let Some(&quad) = self.dataset.quads.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
-- 
2.43.0


From 88335b91283a42f15294b50538fd40ce20d76f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:21 +0000
Subject: [PATCH 05/13] fix: do not match different terms when looking for a
 blank node bijection

---
 src/dataset/isomorphism.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 405b586..9128e59 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -289,6 +289,10 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 			}
 		}
 
+		if !interpretation.is_anonymous(a) || !interpretation.is_anonymous(b) {
+			return false;
+		}
+
 		match self.forward.get(a) {
 			Some(&c) => c == b,
 			None => match self.backward.get(b) {
-- 
2.43.0


From 21391a20b6d8e330f5467f8fe823fca2ab85610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:25 +0000
Subject: [PATCH 06/13] fix: compare the quads without blank nodes when looking
 for a bijection

---
 src/dataset/isomorphism.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 9128e59..d3be2c8 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -68,6 +68,10 @@ where
 		return None;
 	}
 
+	if !ground_quads_match(interpretation, a, b) {
+		return None;
+	}
+
 	// Step 1: collect signatures.
 	let mut a_blanks_map = BTreeMap::new();
 	let mut b_blanks_map = BTreeMap::new();
@@ -160,6 +164,37 @@ where
 		}
 }
 
+/// Checks that each quad of `a` without blank nodes is matched by a distinct
+/// quad of `b` without blank nodes, and the other way around.
+fn ground_quads_match<I, A, B>(interpretation: &I, a: &A, b: &B) -> bool
+where
+	I: ReverseInterpretation,
+	I::Resource: Ord,
+	A: TraversableDataset<Resource = I::Resource>,
+	B: TraversableDataset<Resource = I::Resource>,
+{
+	let mut other: BTreeSet<_> = b
+		.quads()
+		.filter(|q| blank_count(interpretation, *q) == 0)
+		.collect();
+
+	for quad in a.quads() {
+		if blank_count(interpretation, quad) == 0 && !other.remove(&quad) {
+			let found = other
+				.iter()
+				.copied()
+				.find(|q| quad_matches(interpretation, quad, *q));
+
+			match found {
+				Some(q) => other.remove(&q),
+				None => return false,
+			};
+		}
+	}
+
+	other.is_empty()
+}
+
 fn blank_count<I>(interpretation: &I, Quad(s, p, o, g): Quad<&I::Resource>) -> usize
 where
 	I: ReverseInterpretation,
-- 
2.43.0


From 19a4e7955ecaf03c6787e438f82152d5c6af72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:59 +0000
Subject: [PATCH 07/13] fix: accept dots inside blank node identifiers

The documented grammar allows '.' anywhere after the first character of the
label, except at the end.
---
 src/blankid.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/blankid.rs b/src/blankid.rs
index eddde0e..4cc87ee 100644
--- a/src/blankid.rs
+++ b/src/blankid.rs
@@ -304,13 +304,17 @@ fn check<C: Iterator<Item = char>>(mut chars: C) -> bool {
 		Some('_') => match chars.next() {
 			Some(':') => match chars.next() {
 				Some(c) if c.is_ascii_digit() || is_pn_char_u(c) => {
+					let mut last = c;
+
 					for c in chars {
-						if !is_pn_char(c) {
+						if c != '.' && !is_pn_char(c) {
 							return false;
 						}
+
+						last = c;
 					}
 
-					true
+					last != '.'
 				}
 				_ => false,
 			},
-- 
2.43.0


From 4293d5dac370da96f25a379de5654dc451ded729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:51 +0000
Subject: [PATCH 08/13] fix: print blank node identifiers as such, not as
 string literals

BlankIdBuf had no RdfDisplay implementation, so the one of str was selected
through Deref and a blank node was printed as a quoted string.
---
 src/display.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/display.rs b/src/display.rs
index d787ff8..cf96eb9 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -2,6 +2,8 @@ use std::fmt;
 
 use langtag::{LangTag, LangTagBuf};
 
+use crate::{BlankId, BlankIdBuf};
+
 /// Display method for RDF syntax elements.
 pub trait RdfDisplay {
 	/// Formats the value using the given formatter.
@@ -127,6 +129,34 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for LangTagBuf {
 	}
 }
 
+impl RdfDisplay for BlankId {
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		use fmt::Display;
+		self.as_str().fmt(f)
+	}
+}
+
+#[cfg(feature = "contextual")]
+impl<C: ?Sized> RdfDisplayWithContext<C> for BlankId {
+	fn rdf_fmt_with(&self, _context: &C, f: &mut fmt::Formatter) -> fmt::Result {
+		self.rdf_fmt(f)
+	}
+}
+
+impl RdfDisplay for BlankIdBuf {
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		use fmt::Display;
+		self.as_str().fmt(f)
+	}
+}
+
+#[cfg(feature = "contextual")]
+impl<C: ?Sized> RdfDisplayWithContext<C> for BlankIdBuf {
+	fn rdf_fmt_with(&self, _context: &C, f: &mut fmt::Formatter) -> fmt::Result {
+		self.rdf_fmt(f)
+	}
+}
+
 impl<T: RdfDisplay + ?Sized> RdfDisplay for &T {
 	#[inline(always)]
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-- 
2.43.0


From 5d6f6d49bd16c0f42fec93d79466ea99bcf89123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:36 +0000
Subject: [PATCH 09/13] fix: panic when the blank node generator is exhausted,
 in every build mode

The documentation promises a panic, but the counter wrapped silently in
release builds and the generator repeated its identifiers.
---
 src/term/generator/blank.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term/generator/blank.rs b/src/term/generator/blank.rs
index 46ec52a..94dc5d7 100644
--- a/src/term/generator/blank.rs
+++ b/src/term/generator/blank.rs
@@ -60,7 +60,10 @@ impl Blank {
 
 	pub fn next_blank_id(&mut self) -> BlankIdBuf {
 		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, self.count)) };
-		self.count += 1;
+		self.count = self
+			.count
+			.checked_add(1)
+			.expect("no more blank node identifiers");
 		id
 	}
 }
-- 
2.43.0


From bd337d0bc62fe6e2f505d1029e151aa9d78f6d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:34 +0000
Subject: [PATCH 10/13] fix: keep the equality constraints of a triple pattern
 when fixing a component

Setting the predicate of '?x ?p ?x' or the object of '?x p ?x' lost the
constraint on the subject, and setting the object of a pattern whose object
was the same as its predicate reported that it was unconstrained.
---
 src/pattern/triple/canonical.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index 9a2e2b6..d422030 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -338,6 +338,16 @@ impl<T> CanonicalTriplePattern<T> {
 					),
 				),
 			),
+			Self::AnySubject(AnySubject::GivenPredicate(
+				p,
+				AnySubjectGivenPredicate::SameAsSubject,
+			)) => (
+				PatternObject::SameAsSubject,
+				Self::GivenSubject(
+					o.clone(),
+					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
+				),
+			),
 			Self::AnySubject(mut current_p) => {
 				let old_p = current_p.set_object(o);
 				(old_p, Self::AnySubject(current_p))
@@ -568,7 +578,7 @@ impl<T> AnySubject<T> {
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject) => (
 				PatternPredicate::Any,
-				Self::GivenPredicate(p, AnySubjectGivenPredicate::AnyObject),
+				Self::GivenPredicate(p, AnySubjectGivenPredicate::SameAsSubject),
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
 				PatternPredicate::Any,
@@ -603,7 +613,7 @@ impl<T> AnySubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), AnySubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
@@ -856,7 +866,7 @@ impl<T> GivenSubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), GivenSubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
-- 
2.43.0


From b61e3a81b264221bdb80289bd4bb550d76d581b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:37 +0000
Subject: [PATCH 11/13] fix: merge the entries found on both sides in the union
 of pattern maps

union_with replaced the values stored under a given component instead of
adding the new ones.
---
 src/pattern/triple/map.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pattern/triple/map.rs b/src/pattern/triple/map.rs
index de78054..612f82d 100644
--- a/src/pattern/triple/map.rs
+++ b/src/pattern/triple/map.rs
@@ -81,7 +81,9 @@ impl<V, T: Eq + Hash> GivenSubjectMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
-		self.given.extend(other.given);
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().union_with(rest);
+		}
 	}
 }
 
@@ -153,7 +155,9 @@ impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().extend(rest);
+		}
 	}
 }
 
@@ -211,7 +215,9 @@ impl<V, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().extend(rest);
+		}
 	}
 }
 
@@ -276,7 +282,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
 		self.same_as_subject.union_with(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().union_with(rest);
+		}
 	}
 }
 
@@ -352,7 +360,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().extend(rest);
+		}
 	}
 }
 
@@ -421,7 +431,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().extend(rest);
+		}
 	}
 }
 
-- 
2.43.0


From 265b3bdfbd4fbc9e777fa9e3af82378aa23864f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:14 +0000
Subject: [PATCH 12/13] fix: make the quad pattern macro compile with IRIs,
 literals and blank nodes

---
 src/macro.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/macro.rs b/src/macro.rs
index 3769ab2..01c8a75 100644
--- a/src/macro.rs
+++ b/src/macro.rs
@@ -199,7 +199,7 @@ macro_rules! grdf_quad {
 
 /// Creates a gRDF quad pattern.
 ///
-/// The type of the returned value is `Quad<ResourceOrVar<Term, _>>`.
+/// The type of the returned value is `Quad<ResourceOrVar<LocalTerm, _>>`.
 ///
 /// This is similar to [`grdf_quad`], but with the addition of variables, which
 /// can be introduced using the syntax `?ident`. The variable `ident` must be
@@ -215,12 +215,12 @@ macro_rules! grdf_quad_pattern {
 	{
 		@from ($($acc:tt)*) $id:ident $($rest:tt)*
 	} => {
-		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($id),) $($rest)*)
+		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::from($id)),) $($rest)*)
 	};
 	{
 		@from ($($acc:tt)*) < $iri:literal > $($rest:tt)*
 	} => {
-		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::iri($crate::static_iref::iri!($iri).to_owned())),) $($rest)*)
+		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::iri($crate::iri!($iri).to_owned())),) $($rest)*)
 	};
 	{
 		@from ($($acc:tt)*) _ : $id:literal $($rest:tt)*
@@ -233,7 +233,7 @@ macro_rules! grdf_quad_pattern {
 		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::literal($crate::Literal::new(
 			$value.to_owned(),
 			$crate::LiteralType::Any(
-				$crate::static_iref::iri!($ty).to_owned()
+				$crate::iri!($ty).to_owned()
 			)
 		))),) $($rest)*)
 	};
@@ -250,12 +250,12 @@ macro_rules! grdf_quad_pattern {
 	{
 		@from ($s:expr, $p:expr, $o:expr,)
 	} => {
-		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::Term, _>>>::new($s, $p, $o, None)
+		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::LocalTerm, _>>>::new($s, $p, $o, None)
 	};
 	{
 		@from ($s:expr, $p:expr, $o:expr, $g:expr,)
 	} => {
-		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::Term, _>>>::new($s, $p, $o, Some($g))
+		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::LocalTerm, _>>>::new($s, $p, $o, Some($g))
 	};
 	{
 		@from ($($acc:tt)*) $t:tt $($rest:tt)*
-- 
2.43.0


From 8532581a7afbbad45c65ba63595dd8c381be03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 13/13] fix: keep formatting widths out of printed literals,
 IRIs and language tags

A width given when printing an RDF term was applied to every character
of the string or IRI, which changed the term that was printed.
---
 src/display.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index cf96eb9..5de8a27 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -18,7 +18,7 @@ pub trait RdfDisplay {
 
 impl RdfDisplay for str {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
+		use fmt::Write;
 		write!(f, "\"")?;
 
 		for c in self.chars() {
@@ -27,7 +27,7 @@ impl RdfDisplay for str {
 				'\\' => write!(f, "\\\\"),
 				'\n' => write!(f, "\\n"),
 				'\r' => write!(f, "\\r"),
-				c => c.fmt(f),
+				c => f.write_char(c),
 			}?
 		}
 
@@ -43,6 +43,7 @@ impl RdfDisplay for String {
 
 impl RdfDisplay for iref::IriRef {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		use fmt::Write;
 		write!(f, "<")?;
 
 		for c in self.as_str().chars() {
@@ -51,7 +52,7 @@ impl RdfDisplay for iref::IriRef {
 					let bytes: u32 = c.into();
 					write!(f, "\\u{bytes:#04x}")
 				}
-				_ => fmt::Display::fmt(&c, f),
+				_ => f.write_char(c),
 			}?;
 		}
 
@@ -103,8 +104,7 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for iref::IriRefBuf {
 
 impl RdfDisplay for LangTag {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
-		self.as_str().fmt(f)
+		f.write_str(self.as_str())
 	}
 }
 
@@ -117,8 +117,7 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for LangTag {
 
 impl RdfDisplay for LangTagBuf {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
-		self.as_str().fmt(f)
+		f.write_str(self.as_str())
 	}
 }
 
-- 
2.43.0

