From e86fbca63d2d6a9966204e91341e294458367a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:36 +0000
Subject: [PATCH 1/8] fix: root directly emitted fans by direction, not by
 chain side, so clockwise builders get clockwise triangles

---
 src/monotone.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/monotone.rs b/src/monotone.rs
index 2a84809..0835b9d 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -111,7 +111,8 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                 // and can make the calls in a reversed order
                 let is_backtracking = self.can_triangulate();
                 let mut bodt: BuilderOrDeferredTris<'_, '_, P, FB> = if is_backtracking ^ self.is_left_chain ^ (FB::Builder::WINDING == TriangleWinding::Clockwise) {
-                    if !self.is_left_chain {
+                    // A backtracking fan is rooted at the active vertex
+                    if is_backtracking {
                         std::mem::swap(&mut vi0, &mut vi2);
                     }
                     BuilderOrDeferredTris::Builder(fbs.new_fan(ps.polygon_list(), vi0, vi1, vi2)?)
-- 
2.43.0


From bda7d783e5dbfd68634d1a7846dae0edc9ee2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:36 +0000
Subject: [PATCH 2/8] fix: restore the fans if the delimiter matches an index
 of the first triangle

---
 src/outputs/formats/delimited_fan.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/outputs/formats/delimited_fan.rs b/src/outputs/formats/delimited_fan.rs
index d45bd59..aeae1ad 100644
--- a/src/outputs/formats/delimited_fan.rs
+++ b/src/outputs/formats/delimited_fan.rs
@@ -65,11 +65,14 @@ impl<'p, P: PolygonList<'p> + ?Sized, FS: Fans<Fan=P::Index>> DelimitedFanBuilde
             _phantom: PhantomData,
         };
 
-        fb.push_index(vi0)?;
-        fb.push_index(vi1)?;
-        fb.push_index(vi2)?;
-
-        Ok(fb)
+        match fb.push_index(vi0).and_then(|()| fb.push_index(vi1)).and_then(|()| fb.push_index(vi2)) {
+            Ok(()) => Ok(fb),
+            Err(err) => {
+                // `fail` is not called for a builder which was never initialized
+                fb.fans.truncate(initial_vert_count);
+                Err(err)
+            }
+        }
     }
 
     fn push_index(&mut self, vi: P::Index) -> Result<(), <Self as FanBuilder<'p, P>>::Error> {
-- 
2.43.0


From 4342ab19a17a1449c95e71af4ab63aa5b405af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:36 +0000
Subject: [PATCH 3/8] fix: fail the list builder if its first triangle is
 refused

---
 src/outputs/formats/fan_to_list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/outputs/formats/fan_to_list.rs b/src/outputs/formats/fan_to_list.rs
index 4c386b8..4bd79bb 100644
--- a/src/outputs/formats/fan_to_list.rs
+++ b/src/outputs/formats/fan_to_list.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding};
+use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding, TriangulationError};
 
 /// A wrapper which adapts a [ListFormat] to work as a [FanFormat], which is required for [PolygonList::triangulate]
 /// 
@@ -18,7 +18,15 @@ impl<'p, P: PolygonList<'p> + ?Sized, LB: ListFormat<'p, P>> FanFormat<'p, P> fo
 
     fn initialize(self, polygon_list: &'p P, vi0: <P as PolygonList<'p>>::Index, vi1: <P as PolygonList<'p>>::Index, vi2: <P as PolygonList<'p>>::Index) -> Result<Self::Builder, <Self::Builder as FanBuilder<'p, P>>::Error> {
         let mut list_builder = self.0.initialize(polygon_list)?;
-        list_builder.add_triangle(vi0.clone(), vi1, vi2.clone())?;
+        if let Err(err) = list_builder.add_triangle(vi0.clone(), vi1, vi2.clone()) {
+            // `fail` is not called for a fan builder which was never initialized, but the list builder already exists
+            let err = TriangulationError::FanBuilder(err);
+            list_builder.fail(&err);
+            return match err {
+                TriangulationError::FanBuilder(err) => Err(err),
+                _ => unreachable!(),
+            };
+        }
         
         let fan_builder = FanToListBuilder::new(list_builder, vi0, vi2);
         Ok(fan_builder)
-- 
2.43.0


From b21a77d7e1b515dac50a38d9688da6ef8a628675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:36 +0000
Subject: [PATCH 4/8] fix: keep incomplete leading vertices when truncating a
 flat list

---
 src/outputs/list.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/outputs/list.rs b/src/outputs/list.rs
index 134fb19..9db6353 100644
--- a/src/outputs/list.rs
+++ b/src/outputs/list.rs
@@ -27,7 +27,9 @@ impl<V> List<V> for Vec<V> {
     }
 
     fn truncate(&mut self, len: usize) {
-        self.truncate(len * 3)
+        // Vertices which preceded the triangles and do not form one themselves are kept
+        let extra = Vec::len(self) % 3;
+        self.truncate(len * 3 + extra)
     }
 }
 
-- 
2.43.0


From f18edf8e07372b2c0bb43600e2cab9686792d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:44 +0000
Subject: [PATCH 5/8] fix: visit each query node once in the debug consistency
 check instead of once per path

---
 src/trapezoidation.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/trapezoidation.rs b/src/trapezoidation.rs
index f205f18..e70df40 100644
--- a/src/trapezoidation.rs
+++ b/src/trapezoidation.rs
@@ -568,17 +568,20 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
             self.check_consistency_trapezoid(ti);
         }
 
-        self.check_consistency_query_node(self.query_node_root());
+        // Nodes are shared, so following every path from the root could visit a node exponentially often
+        for q in self.qs.iter() {
+            self.check_consistency_query_node(q);
+        }
     }
 
     #[cfg(not(debug_assertions))]
     fn check_consistency(&self) { }
 
-    fn check_consistency_query_node(&self, qi: Idx<QueryNode<P::Vertex, P::Index>>) -> usize {
-        let q = &self.qs[qi];
-        (match q {
+    fn check_consistency_query_node(&self, q: &QueryNode<P::Vertex, P::Index>) {
+        match q {
             QueryNode::Branch(qi_left, qi_right, _) => {
-                self.check_consistency_query_node(*qi_left) + self.check_consistency_query_node(*qi_right)
+                let _q_left = &self.qs[*qi_left];
+                let _q_right = &self.qs[*qi_right];
             },
             QueryNode::Sink(ti) => {
                 let _t= &self.ts[*ti];
@@ -586,9 +589,8 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
                 // if t.sink() != qi {
                 //     panic!("Inconsistent sink trapezoid: {} {}({})", qi, ti, t.sink());
                 // }
-                0
             },
-        }) + 1
+        }
     }
 
     fn check_consistency_nexus(&self, ni: Idx<Nexus<P::Vertex, P::Index>>) {
-- 
2.43.0


From 886702ed9aa89599b4d78aa8df465673ab5989f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:02 +0000
Subject: [PATCH 6/8] fix: show shared query nodes once in the traced state
 instead of once per path

---
 src/querynode.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/querynode.rs b/src/querynode.rs
index 231e5b9..e2a7b75 100644
--- a/src/querynode.rs
+++ b/src/querynode.rs
@@ -66,10 +66,21 @@ pub struct IndexedQueryNode<'a, V: Vertex, Index: VertexIndex>(Idx<QueryNode<V,
 impl<V: Vertex, Index: VertexIndex> QueryNode<V, Index> {
     #[cfg(feature = "_debugging")]
     pub fn as_text_tree<'a>(&'a self, qi: Idx<Self>, qs: &'a [Self]) -> text_trees::TreeNode<IndexedQueryNode<'a, V, Index>> {
+        self.as_text_tree_inner(qi, qs, &mut vec![false; qs.len()])
+    }
+
+    // Nodes are shared, so expanding every path from the root could make the tree exponentially large.
+    // Only the first occurrence of a node is shown with its children
+    #[cfg(feature = "_debugging")]
+    fn as_text_tree_inner<'a>(&'a self, qi: Idx<Self>, qs: &'a [Self], expanded: &mut [bool]) -> text_trees::TreeNode<IndexedQueryNode<'a, V, Index>> {
         let node = IndexedQueryNode(qi, self.into());
         match self {
-            QueryNode::Branch(left, right, _) => text_trees::TreeNode::with_child_nodes(node, vec![qs[*left].as_text_tree(*left, qs), qs[*right].as_text_tree(*right, qs)].into_iter()),
-            QueryNode::Sink(_) => node.into(),
+            QueryNode::Branch(left, right, _) if !std::mem::replace(&mut expanded[qi.usize()], true) => {
+                let left_tree = qs[*left].as_text_tree_inner(*left, qs, expanded);
+                let right_tree = qs[*right].as_text_tree_inner(*right, qs, expanded);
+                text_trees::TreeNode::with_child_nodes(node, vec![left_tree, right_tree].into_iter())
+            },
+            _ => node.into(),
         }
     }
 }
-- 
2.43.0


From 47fd00f7734f6b00c9aaf7200b2f031763d34074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:36 +0000
Subject: [PATCH 7/8] fix: do not panic while tracing coordinates which cannot
 be converted to f32

---
 src/trapezoidation.rs | 48 +++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/trapezoidation.rs b/src/trapezoidation.rs
index e70df40..8296933 100644
--- a/src/trapezoidation.rs
+++ b/src/trapezoidation.rs
@@ -145,10 +145,10 @@ impl DebugInfo {
             let index: PolygonElement<_> = index.into();
             if let PolygonElement::ContinuePolygon(index) = index {
                 let v = &ps[index];
-                view_x_min = view_x_min.min(v.x().to_f32().unwrap());
-                view_x_max = view_x_max.max(v.x().to_f32().unwrap());
-                view_y_min = view_y_min.min(v.y().to_f32().unwrap());
-                view_y_max = view_y_max.max(v.y().to_f32().unwrap());
+                view_x_min = view_x_min.min(v.x().to_f32().unwrap_or(f32::NAN));
+                view_x_max = view_x_max.max(v.x().to_f32().unwrap_or(f32::NAN));
+                view_y_min = view_y_min.min(v.y().to_f32().unwrap_or(f32::NAN));
+                view_y_max = view_y_max.max(v.y().to_f32().unwrap_or(f32::NAN));
             }
         }
 
@@ -914,7 +914,7 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
             match pv {
                 PolygonElement::ContinuePolygon(index) => {
                     let v = &self.ps[index];
-                    vs.push([v.x().to_f32().unwrap(), v.y().to_f32().unwrap()]);
+                    vs.push([v.x().to_f32().unwrap_or(f32::NAN), v.y().to_f32().unwrap_or(f32::NAN)]);
                 }
                 PolygonElement::NewPolygon => {
                     if vs.len() > 2 {
@@ -965,7 +965,7 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
             debug::svg::SvgElementStyle::Highlight => rgb(255, 126, 0),
         };
         writeln!(svg_output, "{}",
-            debug::svg::circle(v.x().to_f32().unwrap(), v.y().to_f32().unwrap(), r)
+            debug::svg::circle(v.x().to_f32().unwrap_or(f32::NAN), v.y().to_f32().unwrap_or(f32::NAN), r)
                 .fill(Fill::Color(color))
         )?;
         Ok(())
@@ -974,12 +974,12 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
 
 #[cfg(feature = "_debugging")]
 fn get_x_intercept<V: Vertex>(v_min: &VertexExt<V>, v_max: &VertexExt<V>, y: f32) -> f32 {
-    let y_diff = (v_max.y() - v_min.y()).to_f32().unwrap();
+    let y_diff = (v_max.y() - v_min.y()).to_f32().unwrap_or(f32::NAN);
     if y_diff != 0.0 {
-        let slope = (v_max.x() - v_min.x()).to_f32().unwrap() / y_diff;
-        v_min.x().to_f32().unwrap() + slope * (y - v_min.y().to_f32().unwrap())
+        let slope = (v_max.x() - v_min.x()).to_f32().unwrap_or(f32::NAN) / y_diff;
+        v_min.x().to_f32().unwrap_or(f32::NAN) + slope * (y - v_min.y().to_f32().unwrap_or(f32::NAN))
     } else {
-        v_min.x().to_f32().unwrap()
+        v_min.x().to_f32().unwrap_or(f32::NAN)
     }
 }
 
@@ -997,22 +997,22 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
         let t_left = &state.ts[*n.up_trapezoids().first()];
         let x_left = if let Some(si_left) = t_left.left() {
             let s_left = &state.ss[si_left];
-            get_x_intercept(&state.ps[state.ns[s_left.ni_min()].vertex()], &state.ps[state.ns[s_left.ni_max()].vertex()], v.y().to_f32().unwrap())
+            get_x_intercept(&state.ps[state.ns[s_left.ni_min()].vertex()], &state.ps[state.ns[s_left.ni_max()].vertex()], v.y().to_f32().unwrap_or(f32::NAN))
         } else {
-            v.x().to_f32().unwrap()
+            v.x().to_f32().unwrap_or(f32::NAN)
         };
         let t_right = &state.ts[*n.up_trapezoids().last()];
         let x_right = if let Some(si_right) = t_right.right() {
             let s_right = &state.ss[si_right];
-            get_x_intercept(&state.ps[state.ns[s_right.ni_min()].vertex()], &state.ps[state.ns[s_right.ni_max()].vertex()], v.y().to_f32().unwrap())
+            get_x_intercept(&state.ps[state.ns[s_right.ni_min()].vertex()], &state.ps[state.ns[s_right.ni_max()].vertex()], v.y().to_f32().unwrap_or(f32::NAN))
         } else {
-            v.x().to_f32().unwrap()
+            v.x().to_f32().unwrap_or(f32::NAN)
         };
 
         if x_left != x_right {
             let width = svg_output.context.percent(0.25);
             writeln!(svg_output, "{}",
-                line_segment(x_left, v.y().to_f32().unwrap(), x_right, v.y().to_f32().unwrap())
+                line_segment(x_left, v.y().to_f32().unwrap_or(f32::NAN), x_right, v.y().to_f32().unwrap_or(f32::NAN))
                     .color(green())
                     .width(width)
             )?;
@@ -1026,14 +1026,14 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
         };
         let fill = Fill::Color(color);
         writeln!(svg_output, "{}",
-            debug::svg::circle(v.x().to_f32().unwrap(), v.y().to_f32().unwrap(), r)
+            debug::svg::circle(v.x().to_f32().unwrap_or(f32::NAN), v.y().to_f32().unwrap_or(f32::NAN), r)
                 .fill(fill)
         )?;
 
         if debug::env::svg::show_labels() {
             let gap = svg_output.context.percent(1.0);
             writeln!(svg_output, "{}",
-                text(v.x().to_f32().unwrap() - gap, v.y().to_f32().unwrap(), self.to_string())
+                text(v.x().to_f32().unwrap_or(f32::NAN) - gap, v.y().to_f32().unwrap_or(f32::NAN), self.to_string())
                     .color(black())
                     .align(Align::Right)
                     .size(svg_output.context.percent(1.0))
@@ -1064,7 +1064,7 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
             debug::svg::SvgElementStyle::Highlight => rgb(255, 126, 0),
         };
         writeln!(svg_output, "{}",
-            line_segment(v_min.x().to_f32().unwrap(), v_min.y().to_f32().unwrap(), v_max.x().to_f32().unwrap(), v_max.y().to_f32().unwrap())
+            line_segment(v_min.x().to_f32().unwrap_or(f32::NAN), v_min.y().to_f32().unwrap_or(f32::NAN), v_max.x().to_f32().unwrap_or(f32::NAN), v_max.y().to_f32().unwrap_or(f32::NAN))
                 .color(color)
                 .width(width)
         )?;
@@ -1088,12 +1088,12 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
 
         let t = &state.ts[*self];
         let y_min = if let Some(ni_down) = t.down() {
-            state.ps[state.ns[ni_down].vertex()].y().to_f32().unwrap()
+            state.ps[state.ns[ni_down].vertex()].y().to_f32().unwrap_or(f32::NAN)
         } else {
             svg_output.context.view_y_min
         };
         let y_max = if let Some(ni_up) = t.up() {
-            state.ps[state.ns[ni_up].vertex()].y().to_f32().unwrap()
+            state.ps[state.ns[ni_up].vertex()].y().to_f32().unwrap_or(f32::NAN)
         } else {
             svg_output.context.view_y_max
         };
@@ -1104,7 +1104,7 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
 
             let v_min = &state.ps[state.ns[s_left.ni_min()].vertex()];
             let v_max = &state.ps[state.ns[s_left.ni_max()].vertex()];
-            (get_x_intercept(v_min, v_max, y).to_f32().unwrap(), get_x_intercept(v_min, v_max, y_max).to_f32().unwrap(), get_x_intercept(v_min, v_max, y_min).to_f32().unwrap())
+            (get_x_intercept(v_min, v_max, y).to_f32().unwrap_or(f32::NAN), get_x_intercept(v_min, v_max, y_max).to_f32().unwrap_or(f32::NAN), get_x_intercept(v_min, v_max, y_min).to_f32().unwrap_or(f32::NAN))
         } else {
             (svg_output.context.view_x_min, svg_output.context.view_x_min, svg_output.context.view_x_min)
         };
@@ -1113,7 +1113,7 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
 
             let v_min = &state.ps[state.ns[s_right.ni_min()].vertex()];
             let v_max = &state.ps[state.ns[s_right.ni_max()].vertex()];
-            (get_x_intercept(v_min, v_max, y).to_f32().unwrap(), get_x_intercept(v_min, v_max, y_max).to_f32().unwrap(), get_x_intercept(v_min, v_max, y_min).to_f32().unwrap())
+            (get_x_intercept(v_min, v_max, y).to_f32().unwrap_or(f32::NAN), get_x_intercept(v_min, v_max, y_max).to_f32().unwrap_or(f32::NAN), get_x_intercept(v_min, v_max, y_min).to_f32().unwrap_or(f32::NAN))
         } else {
             (svg_output.context.view_x_max, svg_output.context.view_x_max, svg_output.context.view_x_max)
         };
@@ -1147,7 +1147,7 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
         use svg_fmt::*;
         use fmt::Write;
 
-        let points: Vec<_> = self.skipped_and_pending.iter().map(|(vi, _)| &state.ps[vi.clone()]).map(|v| [v.x().to_f32().unwrap(), v.y().to_f32().unwrap()]).collect();
+        let points: Vec<_> = self.skipped_and_pending.iter().map(|(vi, _)| &state.ps[vi.clone()]).map(|v| [v.x().to_f32().unwrap_or(f32::NAN), v.y().to_f32().unwrap_or(f32::NAN)]).collect();
         writeln!(svg_output, "{}",
             polygon(&points)
                 .open()
@@ -1173,7 +1173,7 @@ impl<'p, P: PolygonList<'p> + ?Sized> debug::svg::SvgElement<debug::svg::SvgTria
             let vertex: PolygonElement<_> = vertex.into();
             match vertex {
                 PolygonElement::ContinuePolygon(vertex) => {
-                    points.push([self.0.polygon_list().get_vertex(vertex.clone()).x().to_f32().unwrap(), self.0.polygon_list().get_vertex(vertex).y().to_f32().unwrap()]);
+                    points.push([self.0.polygon_list().get_vertex(vertex.clone()).x().to_f32().unwrap_or(f32::NAN), self.0.polygon_list().get_vertex(vertex).y().to_f32().unwrap_or(f32::NAN)]);
                 }
                 PolygonElement::NewPolygon => {
                     writeln!(svg_output, "{}",
-- 
2.43.0


From 8a51f4baf7501924d3117b05642d69e4787b7a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:10 +0000
Subject: [PATCH 8/8] fix: a list of polygons visits each polygon's own indices

Vec<P> (and other slices) of a user-defined Polygon ignored
Polygon::iter_indices and visited 0..vertex_count instead.
---
 src/inputs/polygon_list.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/inputs/polygon_list.rs b/src/inputs/polygon_list.rs
index 46a52ff..72fe4fc 100644
--- a/src/inputs/polygon_list.rs
+++ b/src/inputs/polygon_list.rs
@@ -218,41 +218,37 @@ impl<'p, P: PolygonList<'p> + ?Sized> ops::Index<P::Index> for PolygonListExt<'p
 }
 
 /// [Iterator] for a [PolygonList] represented as nested vectors
-pub struct VecVecIter<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> {
+pub struct VecVecIter<'a, 'p: 'a, V: 'a + Vertex, P: Polygon<'p, Index=usize, Vertex=V>> {
     parent: &'a [P],
     outer_index: usize,
-    inner_index: usize,
-    _phantom: PhantomData<&'p ()>,
+    inner: Option<P::Iter<'a>>,
 }
 
-impl<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> VecVecIter<'a, 'p, V, P> {
+impl<'a, 'p: 'a, V: 'a + Vertex, P: Polygon<'p, Index=usize, Vertex=V>> VecVecIter<'a, 'p, V, P> {
     fn new(parent: &'a [P]) -> Self {
         Self {
             parent,
             outer_index: 0,
-            inner_index: 0,
-            _phantom: PhantomData,
+            inner: None,
         }
     }
 }
 
-impl<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> Iterator for VecVecIter<'a, 'p, V, P> {
+impl<'a, 'p: 'a, V: 'a + Vertex, P: Polygon<'p, Index=usize, Vertex=V>> Iterator for VecVecIter<'a, 'p, V, P> {
     type Item = PolygonElement<[usize; 2]>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.outer_index < self.parent.len() {
-            Some(if self.inner_index < (self.parent[self.outer_index]).vertex_count() {
-                let result = [self.outer_index, self.inner_index];
-                self.inner_index += 1;
-                PolygonElement::ContinuePolygon(result)
-            } else {
-                self.inner_index = 0;
+        let polygon = self.parent.get(self.outer_index)?;
+        let inner = self.inner.get_or_insert_with(|| polygon.iter_indices());
+
+        Some(match inner.next() {
+            Some(inner_index) => PolygonElement::ContinuePolygon([self.outer_index, inner_index]),
+            None => {
+                self.inner = None;
                 self.outer_index += 1;
                 PolygonElement::NewPolygon
-            })
-        } else {
-            None
-        }
+            }
+        })
     }
 }
 
-- 
2.43.0

