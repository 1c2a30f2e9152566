From 88ae7887854842cfead36113c9a7f62c097d83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:46 +0000
Subject: [PATCH 01/13] fix: resolve each statement component after the
 previous ones are stored on insert

All resource lookups were made before any resource of the new statement was
stored, so a resource occurring twice in a statement and absent from the store
was stored twice.
---
 src/dataset/graph/impl/btree_graph.rs         | 15 ++++--------
 src/dataset/graph/impl/indexed_btree_graph.rs | 15 ++++--------
 src/dataset/impl/btree_dataset.rs             | 24 ++++++++-----------
 src/dataset/impl/indexed_btree_dataset.rs     | 24 ++++++++-----------
 4 files changed, 30 insertions(+), 48 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index d029f20..4b86b48 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -142,14 +142,9 @@ impl<R: Ord> BTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -162,7 +157,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -175,7 +170,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -188,7 +183,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 274bfc4..0aef050 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -220,14 +220,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -240,7 +235,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -253,7 +248,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -270,7 +265,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			self.predicates.insert(p_i);
 			self.objects.insert(o_i);
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 29d4e24..2e8a191 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -140,18 +140,9 @@ impl<R: Ord> BTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			let i = self.quads.vacant_key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -164,7 +155,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -177,7 +168,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -190,6 +181,11 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
+
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].occurrences += 1;
@@ -204,7 +200,7 @@ impl<R: Ord> BTreeDataset<R> {
 				None => None,
 			};
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 1e81ec5..ce41dce 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -249,18 +249,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			let i = self.quads.vacant_key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -273,7 +264,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -286,7 +277,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -299,6 +290,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
+
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].as_graph.insert(i);
@@ -323,7 +319,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				self.named_graphs.insert(g_i);
 			}
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
-- 
2.43.0


From 2ed449d8eb3602aaee9223af1853e418b6f28e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:51 +0000
Subject: [PATCH 02/13] fix: skip vacant slots instead of ending pattern
 matching iteration

---
 src/dataset/graph/impl/indexed_btree_graph.rs |  6 +++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 0aef050..1f1d374 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -615,7 +615,11 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.triples.capacity() {
 			let i = self.subject.next(self.i)?;
-			let triple = *self.triples.get(i)?;
+			let Some(&triple) = self.triples.get(i) else {
+				// Vacant slot left by a removed triple.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, triple) {
 				Ok(()) => match self.object.next(i, triple) {
 					Ok(()) => {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index ce41dce..b319d2d 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -813,7 +813,11 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				// Vacant slot left by a removed quad.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -850,7 +854,11 @@ impl<'a, R> Iterator for MultiPatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				// Vacant slot left by a removed quad.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -886,7 +894,11 @@ impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.dataset.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.dataset.quads.get(i)?;
+			let Some(&quad) = self.dataset.quads.get(i) else {
+				// Vacant slot left by a removed quad.
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
-- 
2.43.0


From cf1df388593a384fceeee5edb9b5c29175bf212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:56 +0000
Subject: [PATCH 03/13] fix: keep role indexes in step with the remaining
 statements on removal

A removed statement dropped its subject, predicate and object from the role
sets even when other statements still use them in that role, and left its graph
in the named graphs as long as the resource was used in any other role.
---
 src/dataset/graph/impl/indexed_btree_graph.rs | 13 +++++++++----
 src/dataset/impl/indexed_btree_dataset.rs     | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 1f1d374..5d751d9 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -286,12 +286,11 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			Some(i) => {
 				let Triple(s_i, p_i, o_i) = self.triples.remove(i);
 
-				self.subjects.remove(&s_i);
-				self.predicates.remove(&p_i);
-				self.objects.remove(&o_i);
-
 				let s = &mut self.resources[s_i];
 				s.as_subject.remove(&i);
+				if s.as_subject.is_empty() {
+					self.subjects.remove(&s_i);
+				}
 				if s.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.0);
@@ -300,6 +299,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let p = &mut self.resources[p_i];
 				p.as_predicate.remove(&i);
+				if p.as_predicate.is_empty() {
+					self.predicates.remove(&p_i);
+				}
 				if p.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.1);
@@ -308,6 +310,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let o = &mut self.resources[o_i];
 				o.as_object.remove(&i);
+				if o.as_object.is_empty() {
+					self.objects.remove(&o_i);
+				}
 				if o.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.2);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index b319d2d..e7c5f25 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -380,12 +380,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let Quad(s_i, p_i, o_i, g_i) = self.quads.remove(i);
 
-		self.subjects.remove(&s_i);
-		self.predicates.remove(&p_i);
-		self.objects.remove(&o_i);
-
 		let s = &mut self.resources[s_i];
 		s.as_subject.remove(&i);
+		if s.as_subject.is_empty() {
+			self.subjects.remove(&s_i);
+		}
 		if s.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &s_i);
@@ -394,6 +393,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let p = &mut self.resources[p_i];
 		p.as_predicate.remove(&i);
+		if p.as_predicate.is_empty() {
+			self.predicates.remove(&p_i);
+		}
 		if p.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &p_i);
@@ -402,6 +404,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let o = &mut self.resources[o_i];
 		o.as_object.remove(&i);
+		if o.as_object.is_empty() {
+			self.objects.remove(&o_i);
+		}
 		if o.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &o_i);
@@ -412,11 +417,13 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 			Some(g_i) => {
 				let g = &mut self.resources[g_i];
 				g.as_graph.remove(&i);
+				if g.as_graph.is_empty() {
+					self.named_graphs.remove(&g_i);
+				}
 				if g.is_empty() {
 					self.resources_indexes
 						.remove(resource_index_cmp(&self.resources), &g_i);
 					self.resources.remove(g_i);
-					self.named_graphs.remove(&g_i);
 				}
 			}
 			None => {
-- 
2.43.0


From 5157c3bf36982f1f99ae4270d39171324e095d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:31 +0000
Subject: [PATCH 04/13] fix: compare the quads without blank nodes when
 searching an isomorphism

---
 src/dataset/isomorphism.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 405b586..80c7b0a 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -68,6 +68,11 @@ where
 		return None;
 	}
 
+	// Quads without blank nodes must be the same on both sides.
+	if !ground_quads_match(interpretation, a, b) {
+		return None;
+	}
+
 	// Step 1: collect signatures.
 	let mut a_blanks_map = BTreeMap::new();
 	let mut b_blanks_map = BTreeMap::new();
@@ -187,6 +192,28 @@ where
 	r
 }
 
+/// Checks that the quads of `a` and `b` without any blank node are the same.
+fn ground_quads_match<I, A, B>(interpretation: &I, a: &A, b: &B) -> bool
+where
+	I: ReverseInterpretation,
+	I::Resource: Ord,
+	A: TraversableDataset<Resource = I::Resource>,
+	B: TraversableDataset<Resource = I::Resource>,
+{
+	let a: BTreeSet<Quad<&I::Resource>> = a
+		.quads()
+		.filter(|q| blank_count(interpretation, *q) == 0)
+		.collect();
+	let b: BTreeSet<Quad<&I::Resource>> = b
+		.quads()
+		.filter(|q| blank_count(interpretation, *q) == 0)
+		.collect();
+
+	let a_only = BlankSignature(a.difference(&b).copied().collect());
+	let b_only = BlankSignature(b.difference(&a).copied().collect());
+	a_only.matches(interpretation, &b_only)
+}
+
 fn collect_signatures<'d, I, D>(
 	interpretation: &I,
 	map: &mut BTreeMap<&'d I::Resource, BlankSignature<'d, I::Resource>>,
-- 
2.43.0


From 1cbc91ce98487722d0d04f740606b28257b5f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:36 +0000
Subject: [PATCH 05/13] fix: never match differently named resources in an
 isomorphism

---
 src/dataset/isomorphism.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 80c7b0a..10e1593 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -316,6 +316,12 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 			}
 		}
 
+		if !interpretation.is_anonymous(a) || !interpretation.is_anonymous(b) {
+			// Two named resources with no name in common, or only one of the
+			// resources is anonymous.
+			return false;
+		}
+
 		match self.forward.get(a) {
 			Some(&c) => c == b,
 			None => match self.backward.get(b) {
-- 
2.43.0


From 4d9fcad1502ff46e43c4af0a1efddc8f7b35d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:00 +0000
Subject: [PATCH 06/13] fix: display blank node identifiers as such instead of
 quoted strings

---
 src/display.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/display.rs b/src/display.rs
index d787ff8..a5865e9 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -2,6 +2,8 @@ use std::fmt;
 
 use langtag::{LangTag, LangTagBuf};
 
+use crate::{BlankId, BlankIdBuf};
+
 /// Display method for RDF syntax elements.
 pub trait RdfDisplay {
 	/// Formats the value using the given formatter.
@@ -99,6 +101,20 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for iref::IriRefBuf {
 	}
 }
 
+impl RdfDisplay for BlankId {
+	#[inline(always)]
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		f.write_str(self.as_str())
+	}
+}
+
+impl RdfDisplay for BlankIdBuf {
+	#[inline(always)]
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		self.as_blank_id_ref().rdf_fmt(f)
+	}
+}
+
 impl RdfDisplay for LangTag {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
 		use fmt::Display;
-- 
2.43.0


From e319dfea4afe829c55f56f508e353529f58f33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 07/13] fix: write RDF syntax elements regardless of the
 formatter flags, escape IRI characters as UCHAR

Width and precision were applied to each character of the literal or IRI, and
the escape of a character forbidden in an IRI was not a valid UCHAR.
---
 src/display.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index a5865e9..94eaa9b 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -1,4 +1,4 @@
-use std::fmt;
+use std::fmt::{self, Write};
 
 use langtag::{LangTag, LangTagBuf};
 
@@ -18,7 +18,6 @@ pub trait RdfDisplay {
 
 impl RdfDisplay for str {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
 		write!(f, "\"")?;
 
 		for c in self.chars() {
@@ -27,7 +26,7 @@ impl RdfDisplay for str {
 				'\\' => write!(f, "\\\\"),
 				'\n' => write!(f, "\\n"),
 				'\r' => write!(f, "\\r"),
-				c => c.fmt(f),
+				c => f.write_char(c),
 			}?
 		}
 
@@ -49,9 +48,9 @@ impl RdfDisplay for iref::IriRef {
 			match c {
 				'\x00'..='\x20' | '<' | '>' | '"' | '{' | '}' | '|' | '^' | '`' | '\\' => {
 					let bytes: u32 = c.into();
-					write!(f, "\\u{bytes:#04x}")
+					write!(f, "\\u{bytes:04X}")
 				}
-				_ => fmt::Display::fmt(&c, f),
+				_ => f.write_char(c),
 			}?;
 		}
 
@@ -117,8 +116,7 @@ impl RdfDisplay for BlankIdBuf {
 
 impl RdfDisplay for LangTag {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
-		self.as_str().fmt(f)
+		f.write_str(self.as_str())
 	}
 }
 
@@ -131,8 +129,7 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for LangTag {
 
 impl RdfDisplay for LangTagBuf {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		use fmt::Display;
-		self.as_str().fmt(f)
+		f.write_str(self.as_str())
 	}
 }
 
-- 
2.43.0


From 2502a99b7590470c2df92b2341c56cf09ade1992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:14 +0000
Subject: [PATCH 08/13] fix: accept dots inside blank node labels as documented

---
 src/blankid.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/blankid.rs b/src/blankid.rs
index eddde0e..11d4af2 100644
--- a/src/blankid.rs
+++ b/src/blankid.rs
@@ -304,13 +304,17 @@ fn check<C: Iterator<Item = char>>(mut chars: C) -> bool {
 		Some('_') => match chars.next() {
 			Some(':') => match chars.next() {
 				Some(c) if c.is_ascii_digit() || is_pn_char_u(c) => {
+					// A `.` is allowed anywhere but at the end of the label.
+					let mut last = c;
 					for c in chars {
-						if !is_pn_char(c) {
+						if c != '.' && !is_pn_char(c) {
 							return false;
 						}
+
+						last = c;
 					}
 
-					true
+					last != '.'
 				}
 				_ => false,
 			},
-- 
2.43.0


From 7f498a54a3e6931c84f106cacb2c9150a6df4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:39 +0000
Subject: [PATCH 09/13] fix: never generate an invalid blank node identifier
 from an invalid prefix

---
 src/term/generator/blank.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/term/generator/blank.rs b/src/term/generator/blank.rs
index 46ec52a..686ac70 100644
--- a/src/term/generator/blank.rs
+++ b/src/term/generator/blank.rs
@@ -58,8 +58,15 @@ impl Blank {
 		self.count
 	}
 
+	/// Generates the next blank node identifier.
+	///
+	/// # Panics
+	///
+	/// Panics if the prefix of this generator cannot start a blank node
+	/// identifier.
 	pub fn next_blank_id(&mut self) -> BlankIdBuf {
-		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, self.count)) };
+		let id = BlankIdBuf::new(format!("_:{}{}", self.prefix, self.count))
+			.expect("invalid blank node identifier prefix");
 		self.count += 1;
 		id
 	}
-- 
2.43.0


From 469efc3d83e6b183094aba0c2e334bbe4b440d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 10/13] fix: panic instead of repeating identifiers when the
 blank generator overflows

---
 src/term/generator/blank.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/term/generator/blank.rs b/src/term/generator/blank.rs
index 686ac70..9a4f60c 100644
--- a/src/term/generator/blank.rs
+++ b/src/term/generator/blank.rs
@@ -63,11 +63,14 @@ impl Blank {
 	/// # Panics
 	///
 	/// Panics if the prefix of this generator cannot start a blank node
-	/// identifier.
+	/// identifier, or if there are no more identifiers to generate.
 	pub fn next_blank_id(&mut self) -> BlankIdBuf {
 		let id = BlankIdBuf::new(format!("_:{}{}", self.prefix, self.count))
 			.expect("invalid blank node identifier prefix");
-		self.count += 1;
+		self.count = self
+			.count
+			.checked_add(1)
+			.expect("no more blank node identifiers");
 		id
 	}
 }
-- 
2.43.0


From bc5ea94ae3d401114791f5b81dd7fa67904dc55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:35 +0000
Subject: [PATCH 11/13] fix: keep variable bindings and report the previous
 object when setting triple pattern components

---
 src/pattern/triple/canonical.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index 9a2e2b6..d422030 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -338,6 +338,16 @@ impl<T> CanonicalTriplePattern<T> {
 					),
 				),
 			),
+			Self::AnySubject(AnySubject::GivenPredicate(
+				p,
+				AnySubjectGivenPredicate::SameAsSubject,
+			)) => (
+				PatternObject::SameAsSubject,
+				Self::GivenSubject(
+					o.clone(),
+					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
+				),
+			),
 			Self::AnySubject(mut current_p) => {
 				let old_p = current_p.set_object(o);
 				(old_p, Self::AnySubject(current_p))
@@ -568,7 +578,7 @@ impl<T> AnySubject<T> {
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject) => (
 				PatternPredicate::Any,
-				Self::GivenPredicate(p, AnySubjectGivenPredicate::AnyObject),
+				Self::GivenPredicate(p, AnySubjectGivenPredicate::SameAsSubject),
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
 				PatternPredicate::Any,
@@ -603,7 +613,7 @@ impl<T> AnySubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), AnySubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
@@ -856,7 +866,7 @@ impl<T> GivenSubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), GivenSubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
-- 
2.43.0


From 65ef99c1ac6b9fb14800e4b88e47a5266ee6f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:54 +0000
Subject: [PATCH 12/13] fix: merge the values of common keys in the union of
 triple pattern maps

---
 src/pattern/triple/map.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pattern/triple/map.rs b/src/pattern/triple/map.rs
index de78054..7c2e92e 100644
--- a/src/pattern/triple/map.rs
+++ b/src/pattern/triple/map.rs
@@ -81,7 +81,9 @@ impl<V, T: Eq + Hash> GivenSubjectMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
-		self.given.extend(other.given);
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().union_with(rest);
+		}
 	}
 }
 
@@ -153,7 +155,9 @@ impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
@@ -211,7 +215,9 @@ impl<V, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
@@ -276,7 +282,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
 		self.same_as_subject.union_with(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().union_with(rest);
+		}
 	}
 }
 
@@ -352,7 +360,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
@@ -421,7 +431,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values);
+		}
 	}
 }
 
-- 
2.43.0


From f5cf8c64426ac844f6b439726fef74729a0bf788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 13/13] fix: make grdf_quad_pattern! expand to valid code

---
 src/macro.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/macro.rs b/src/macro.rs
index 3769ab2..16f9153 100644
--- a/src/macro.rs
+++ b/src/macro.rs
@@ -199,7 +199,7 @@ macro_rules! grdf_quad {
 
 /// Creates a gRDF quad pattern.
 ///
-/// The type of the returned value is `Quad<ResourceOrVar<Term, _>>`.
+/// The type of the returned value is `Quad<ResourceOrVar<LocalTerm, _>>`.
 ///
 /// This is similar to [`grdf_quad`], but with the addition of variables, which
 /// can be introduced using the syntax `?ident`. The variable `ident` must be
@@ -220,7 +220,7 @@ macro_rules! grdf_quad_pattern {
 	{
 		@from ($($acc:tt)*) < $iri:literal > $($rest:tt)*
 	} => {
-		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::iri($crate::static_iref::iri!($iri).to_owned())),) $($rest)*)
+		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::iri($crate::iri!($iri).to_owned())),) $($rest)*)
 	};
 	{
 		@from ($($acc:tt)*) _ : $id:literal $($rest:tt)*
@@ -233,7 +233,7 @@ macro_rules! grdf_quad_pattern {
 		$crate::grdf_quad_pattern!(@from ($($acc)* $crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::literal($crate::Literal::new(
 			$value.to_owned(),
 			$crate::LiteralType::Any(
-				$crate::static_iref::iri!($ty).to_owned()
+				$crate::iri!($ty).to_owned()
 			)
 		))),) $($rest)*)
 	};
@@ -250,12 +250,12 @@ macro_rules! grdf_quad_pattern {
 	{
 		@from ($s:expr, $p:expr, $o:expr,)
 	} => {
-		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::Term, _>>>::new($s, $p, $o, None)
+		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::LocalTerm, _>>>::new($s, $p, $o, None)
 	};
 	{
 		@from ($s:expr, $p:expr, $o:expr, $g:expr,)
 	} => {
-		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::Term, _>>>::new($s, $p, $o, Some($g))
+		<$crate::Quad<$crate::pattern::ResourceOrVar<$crate::LocalTerm, _>>>::new($s, $p, $o, Some($g))
 	};
 	{
 		@from ($($acc:tt)*) $t:tt $($rest:tt)*
-- 
2.43.0

