From 40bee4cd4971c676703f508fec80300d9b28e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 01/27] fix: never match a root with an inner node

An edit script cannot replace the root, so when the Dice fallback (or the
global leaf search) matched the old root with an inner node of the new tree,
or an inner node with the new root, no script could produce the new tree.
---
 cinereus/src/matching.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 120f033..0ca6673 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -341,6 +341,12 @@ where
     TA: DiffTree,
     TB: DiffTree<Types = TA::Types>,
 {
+    // A root can only match the other root: edit scripts have no operation that
+    // replaces the root, or that turns it into an inner node (or vice versa).
+    if (a_id == tree_a.root()) != (b_id == tree_b.root()) {
+        return false;
+    }
+
     // Check if A's parent is matched
     if let Some(a_parent) = tree_a.parent(a_id)
         && let Some(matched_b_parent) = matching.get_b(a_parent)
-- 
2.43.0


From b6f2d426ea0a30e21e1a8d181ec51b7075d53f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 02/27] fix: match the roots when the new root has lost all its
 children

The root fallback required the new root to have children, and the leaf pass
only looks at old leaves, so emptying a tree deleted the root itself instead
of just its children.
---
 cinereus/src/matching.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 0ca6673..76dfa6b 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -555,7 +555,6 @@ fn bottom_up_phase<TA, TB>(
                 .into_iter()
                 .filter(|&b_id| {
                     !matching.contains_b(b_id)
-                        && tree_b.child_count(b_id) > 0
                         && tree_b.parent(b_id).is_none() // Must also be a root
                         && a_props.similarity(tree_b.properties(b_id)) >= config.similarity_threshold
                 })
-- 
2.43.0


From 16f8ddfc70957659fea3f737c33997746fbf3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 03/27] fix: match opaque nodes only with opaque nodes,
 identical ones first

---
 cinereus/src/matching.rs | 46 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 76dfa6b..6961786 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -211,6 +211,8 @@ fn top_down_phase<TA, TB>(
         hb.cmp(&ha)
     });
 
+    let mut changed_opaque: Vec<(NodeId, NodeId)> = Vec::new();
+
     while let Some((a_id, b_id)) = candidates.pop() {
         // Skip if already matched
         if matching.contains_a(a_id) || matching.contains_b(b_id) {
@@ -222,6 +224,10 @@ fn top_down_phase<TA, TB>(
         let b_hash = tree_b.hash(b_id);
         let b_kind = tree_b.kind(b_id);
 
+        if !opacity_compatible(tree_a, tree_b, a_id, b_id) {
+            continue;
+        }
+
         // Skip small subtrees (leave for bottom-up)
         if tree_a.height(a_id) < config.min_height {
             continue;
@@ -234,10 +240,11 @@ fn top_down_phase<TA, TB>(
         } else {
             trace!(a = usize::from(a_id), a_kind = %a_kind, b = usize::from(b_id), b_kind = %b_kind, "top_down: no hash match");
 
-            // If either node is opaque, match the pair but don't recurse into children
-            if tree_a.is_opaque(a_id) || tree_b.is_opaque(b_id) {
-                if a_kind == b_kind && !matching.contains_a(a_id) && !matching.contains_b(b_id) {
-                    matching.add(a_id, b_id);
+            // If the nodes are opaque, match the pair but don't recurse into children.
+            // Their content changed, so identical pairs still queued go first.
+            if tree_a.is_opaque(a_id) {
+                if a_kind == b_kind {
+                    changed_opaque.push((a_id, b_id));
                 }
                 continue;
             }
@@ -262,6 +269,22 @@ fn top_down_phase<TA, TB>(
             }
         }
     }
+
+    for (a_id, b_id) in changed_opaque {
+        if !matching.contains_a(a_id) && !matching.contains_b(b_id) {
+            matching.add(a_id, b_id);
+        }
+    }
+}
+
+/// An opaque node only ever matches another opaque node: edit scripts leave the content
+/// of opaque nodes alone, so they cannot turn an opaque node into a normal one.
+fn opacity_compatible<TA, TB>(tree_a: &TA, tree_b: &TB, a_id: NodeId, b_id: NodeId) -> bool
+where
+    TA: DiffTree,
+    TB: DiffTree<Types = TA::Types>,
+{
+    tree_a.is_opaque(a_id) == tree_b.is_opaque(b_id)
 }
 
 /// Match two subtrees recursively (when their hashes match).
@@ -281,6 +304,10 @@ fn match_subtrees<TA, TB>(
         return;
     }
 
+    if !opacity_compatible(tree_a, tree_b, a_id, b_id) {
+        return;
+    }
+
     matching.add(a_id, b_id);
 
     // If either node is opaque, match the pair but don't recurse into children
@@ -347,6 +374,10 @@ where
         return false;
     }
 
+    if !opacity_compatible(tree_a, tree_b, a_id, b_id) {
+        return false;
+    }
+
     // Check if A's parent is matched
     if let Some(a_parent) = tree_a.parent(a_id)
         && let Some(matched_b_parent) = matching.get_b(a_parent)
@@ -468,7 +499,11 @@ fn bottom_up_phase<TA, TB>(
             // Note: We don't require b to have children - a node can go from having children to empty
             let candidates: Vec<NodeId> = tree_b
                 .children(parent_b)
-                .filter(|&b_id| !matching.contains_b(b_id) && tree_b.kind(b_id) == a_kind)
+                .filter(|&b_id| {
+                    !matching.contains_b(b_id)
+                        && tree_b.kind(b_id) == a_kind
+                        && opacity_compatible(tree_a, tree_b, a_id, b_id)
+                })
                 .collect();
 
             // Match by position - don't fall back to first candidate as that can cause
@@ -602,6 +637,7 @@ fn bottom_up_phase<TA, TB>(
                     !matching.contains_b(b_id)
                         && tree_b.child_count(b_id) == 0
                         && tree_b.kind(b_id) == a_kind
+                        && opacity_compatible(tree_a, tree_b, a_id, b_id)
                 })
                 .collect();
 
-- 
2.43.0


From 94785f6b66e7b2f62b050c4948e211872a7bf81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 04/27] fix: emit moves parents first

---
 cinereus/src/chawathe.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/chawathe.rs b/cinereus/src/chawathe.rs
index b28a8ca..ad811ce 100644
--- a/cinereus/src/chawathe.rs
+++ b/cinereus/src/chawathe.rs
@@ -290,8 +290,13 @@ where
     }
 
     // Phase 4: MOVE - matched nodes where parent or position changed
+    // Process parents before children: everything above the new parent is in its final
+    // place by then, so a node is never moved beneath one of its own descendants
     debug!("Phase 4: MOVE - checking {} matched pairs", matching.len());
-    for (a_id, b_id) in matching.pairs() {
+    for b_id in tree_b.iter() {
+        let Some(a_id) = matching.get_a(b_id) else {
+            continue;
+        };
         debug!(
             a = usize::from(a_id),
             b = usize::from(b_id),
-- 
2.43.0


From 44e428924f7b8dc151e42423ded2c4c1ba24a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 05/27] fix: patches insert SVG and MathML elements in their
 namespace

Applying InsertElement always created HTML elements, so an inserted <svg> or <math> was not the
element the new document has.
---
 hotmeal/src/dom.rs | 49 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index b259f3b..2b8f1e7 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -512,14 +512,16 @@ impl<'a> Document<'a> {
                         .map(|a| (a.name.clone(), a.value.clone()))
                         .collect(),
                 };
+                let (parent_id, _) = self.get_slot_parent(&at.0.0, slots)?;
+                let ns = inserted_namespace(self.get(parent_id), tag.as_ref());
                 let new_node = self.arena.new_node(NodeData {
                     kind: NodeKind::Element(elem_data),
-                    ns: Namespace::Html,
+                    ns,
                 });
 
                 // Add children to the new element
                 for child in children {
-                    let child_node = self.create_insert_content(child)?;
+                    let child_node = self.create_insert_content(child, new_node)?;
                     new_node.append(child_node, &mut self.arena);
                 }
 
@@ -779,24 +781,29 @@ impl<'a> Document<'a> {
         Ok(())
     }
 
-    fn create_insert_content(&mut self, content: InsertContent<'a>) -> Result<NodeId, DiffError> {
+    fn create_insert_content(
+        &mut self,
+        content: InsertContent<'a>,
+        parent: NodeId,
+    ) -> Result<NodeId, DiffError> {
         match content {
             InsertContent::Element {
                 tag,
                 attrs,
                 children,
             } => {
+                let ns = inserted_namespace(self.get(parent), tag.as_ref());
                 let elem_data = ElementData {
                     tag,
                     attrs: attrs.into_iter().map(|a| (a.name, a.value)).collect(),
                 };
                 let node = self.arena.new_node(NodeData {
                     kind: NodeKind::Element(elem_data),
-                    ns: Namespace::Html,
+                    ns,
                 });
 
                 for child in children {
-                    let child_node = self.create_insert_content(child)?;
+                    let child_node = self.create_insert_content(child, node)?;
                     node.append(child_node, &mut self.arena);
                 }
 
@@ -921,6 +928,38 @@ impl<'a> Document<'a> {
     }
 }
 
+/// Namespace of a `tag` element inserted under `parent`.
+///
+/// Patches carry tag names without namespaces, so this follows the rules by which the HTML
+/// parser switches between HTML, SVG and MathML content.
+fn inserted_namespace(parent: &NodeData<'_>, tag: &str) -> Namespace {
+    let html_content = match &parent.kind {
+        NodeKind::Element(elem) => match (parent.ns, elem.tag.as_ref()) {
+            (Namespace::Html, _) => true,
+            (Namespace::Svg, name) => matches!(name, "foreignObject" | "desc" | "title"),
+            (Namespace::MathMl, "mi" | "mo" | "mn" | "ms" | "mtext") => {
+                !matches!(tag, "mglyph" | "malignmark")
+            }
+            (Namespace::MathMl, "annotation-xml") => {
+                tag == "svg"
+                    || elem.attrs.iter().any(|(name, value)| {
+                        name.local.as_ref() == "encoding"
+                            && (value.eq_ignore_ascii_case("text/html")
+                                || value.eq_ignore_ascii_case("application/xhtml+xml"))
+                    })
+            }
+            (Namespace::MathMl, _) => false,
+        },
+        _ => true,
+    };
+    match tag {
+        _ if !html_content => parent.ns,
+        "svg" => Namespace::Svg,
+        "math" => Namespace::MathMl,
+        _ => Namespace::Html,
+    }
+}
+
 /// HTML5 void elements that never have closing tags
 fn is_void_element(tag: &str) -> bool {
     matches!(
-- 
2.43.0


From 8de54ef5ae0028c8b5994f69e839b25f7624cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 06/27] fix: diff the attributes of <body> like those of any
 other element

The old side of a diff had no body attributes, so removing them went unnoticed, unchanged ones
gave a patch every time, and a new body's attributes were dropped when there was no old body.
---
 hotmeal/src/diff.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 8dfbc55..6c46658 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -825,21 +825,26 @@ impl<'a> DiffTree for OpaqueAwareTree<'a> {
 /// If the document has no body, returns an empty body tree.
 pub fn build_tree_from_arena<'a>(doc: &Document<'a>) -> Tree<HtmlTreeTypes<'a>> {
     // Find body element, or create an empty body tree if none exists
-    let (body_tag, body_ns, body_id) = if let Some(body_id) = doc.body() {
+    let (body_tag, body_ns, body_attrs, body_id) = if let Some(body_id) = doc.body() {
         let body_node = doc.get(body_id);
         if let NodeKind::Element(elem) = &body_node.kind {
-            (elem.tag.clone(), body_node.ns, Some(body_id))
+            (
+                elem.tag.clone(),
+                body_node.ns,
+                elem.attrs.clone(),
+                Some(body_id),
+            )
         } else {
-            (LocalName::from("body"), Namespace::Html, None)
+            (LocalName::from("body"), Namespace::Html, Vec::new(), None)
         }
     } else {
-        (LocalName::from("body"), Namespace::Html, None)
+        (LocalName::from("body"), Namespace::Html, Vec::new(), None)
     };
 
     let root_data = NodeData {
         hash: NodeHash(0),
         kind: HtmlNodeKind::Element(body_tag, body_ns),
-        properties: HtmlProps { attrs: Vec::new() },
+        properties: HtmlProps { attrs: body_attrs },
         text: None,
     };
 
@@ -1057,9 +1062,24 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
             return Ok(vec![]);
         }
         (false, true) => {
-            // Old has no body, new has body - insert all new body children
+            // Old has no body, new has body - set its attributes and insert all its children
             let new_body_id = new.body().unwrap();
             let mut patches = Vec::new();
+            if let NodeKind::Element(elem) = &new.get(new_body_id).kind
+                && !elem.attrs.is_empty()
+            {
+                patches.push(Patch::UpdateProps {
+                    path: NodePath(smallvec![0]),
+                    changes: elem
+                        .attrs
+                        .iter()
+                        .map(|(name, value)| PropChange {
+                            name: PropKey::Attr(name.clone()),
+                            value: Some(value.clone()),
+                        })
+                        .collect(),
+                });
+            }
             for (pos, child_id) in new_body_id.children(&new.arena).enumerate() {
                 patches.push(create_insert_patch(new, child_id, pos)?);
             }
-- 
2.43.0


From 905bf793b271c33178ab4431b31512137bbe845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 07/27] fix: OpaqueChanged patches point at the updated tree
 and cover attribute changes

They are appended after the structural patches but carried paths into the old tree, so they hit
another node or none once anything had moved. A change of nothing but attributes inside an opaque
node gave no patch, because hashes leave attributes out.
---
 hotmeal/src/diff.rs | 62 +++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 6c46658..ed043e2 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1161,16 +1161,10 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         if !diff_b.is_opaque(b_id) {
             continue;
         }
-        // Compare hashes — if identical, no change
-        if tree_a.hash(a_id) == diff_b.hash(b_id) {
+        if !opaque_content_differs(&tree_a, a_id, &diff_b, b_id) {
             continue;
         }
-        // Get the original DOM node IDs for serialization
-        // For tree_a (old), the NodeId corresponds to the cinereus tree, not the Document arena.
-        // We need to serialize from the original documents instead.
-        // tree_b's b_id maps directly to the new Document's arena (DiffableDocument wraps it).
-        // tree_a's a_id maps to the cinereus Tree arena, not the old Document arena.
-        // So we serialize from the new document (which is what we want — the new content).
+        // Serialize from the new document, whose arena b_id indexes directly.
         let new_inner = new.serialize_inner_html(b_id);
         opaque_patches.push((
             a_id,
@@ -1178,28 +1172,40 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         ));
     }
 
-    let mut patches = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
-
-    // Now emit OpaqueChanged patches with correct paths from the shadow tree
-    // We need to compute paths for the opaque nodes. Since convert_ops_with_shadow
-    // already consumed the shadow tree, we build a simpler path computation.
-    // Actually, let's integrate opaque patches into convert_ops_with_shadow instead.
-    // For now, compute paths using the same approach as the shadow tree.
-    if !opaque_patches.is_empty() {
-        // Build a fresh shadow just for path computation
-        let shadow = ShadowTree::new(tree_a.0.arena.clone(), tree_a.0.root);
-        for (a_id, content) in opaque_patches {
-            let path = shadow.compute_path(a_id);
-            patches.push(Patch::OpaqueChanged {
-                path: NodePath(path),
-                content,
-            });
-        }
+    let (mut patches, shadow) =
+        convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
+
+    // The OpaqueChanged patches come after all others, so their paths are those of the final tree.
+    for (a_id, content) in opaque_patches {
+        patches.push(Patch::OpaqueChanged {
+            path: NodePath(shadow.compute_path(a_id)),
+            content,
+        });
     }
 
     Ok(patches)
 }
 
+/// Whether the contents of two matched opaque nodes differ in any way.
+///
+/// Hashes do not cover attributes, so equal hashes alone do not mean equal content.
+fn opaque_content_differs<'a, A, B>(tree_a: &A, a_id: NodeId, tree_b: &B, b_id: NodeId) -> bool
+where
+    A: DiffTree<Types = HtmlTreeTypes<'a>>,
+    B: DiffTree<Types = HtmlTreeTypes<'a>>,
+{
+    if tree_a.hash(a_id) != tree_b.hash(b_id) {
+        return true;
+    }
+    tree_a
+        .children(a_id)
+        .zip(tree_b.children(b_id))
+        .any(|(a, b)| {
+            tree_a.properties(a).attrs != tree_b.properties(b).attrs
+                || opaque_content_differs(tree_a, a, tree_b, b)
+        })
+}
+
 /// Encapsulates the shadow tree with slot-based path computation.
 ///
 /// The arena has a "super root" whose children are slot nodes:
@@ -1554,12 +1560,14 @@ impl<'a> ShadowTree<'a> {
 ///
 /// Key insight from Chawathe semantics: INSERT and MOVE do NOT shift siblings.
 /// They DISPLACE whatever is at the target position into a slot for later use.
+///
+/// Also returns the shadow tree as it stands after all operations.
 fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
     ops: Vec<EditOp<HtmlTreeTypes<'a>>>,
     tree_a: &Tree<HtmlTreeTypes<'a>>,
     tree_b: &T,
     matching: &Matching,
-) -> Result<Vec<Patch<'a>>, DiffError> {
+) -> Result<(Vec<Patch<'a>>, ShadowTree<'a>), DiffError> {
     // Create shadow tree with encapsulated state
     let mut shadow = ShadowTree::new(tree_a.arena.clone(), tree_a.root);
 
@@ -1869,7 +1877,7 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
         }
     }
 
-    Ok(result)
+    Ok((result, shadow))
 }
 
 /// Extract attributes and children from a node in tree_b.
-- 
2.43.0


From 832194a7583d32dbd5054df75f0c4012c092c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 08/27] fix: a comment before <html> does not become the
 document root

Everything but the comment was lost: no body, no head, nothing serialized.
---
 hotmeal/src/dom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 2b8f1e7..2c87472 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1360,11 +1360,11 @@ impl<'a> TreeSink for ArenaSink<'a> {
     fn finish(self) -> Self::Output {
         let arena = self.arena.into_inner();
 
-        // Find the root element (usually <html>)
+        // Find the root element (usually <html>), which comments may precede
         let root = self
             .document
             .children(&arena)
-            .next()
+            .find(|&id| matches!(arena[id].get().kind, NodeKind::Element(_)))
             .unwrap_or(self.document);
 
         Document {
-- 
2.43.0


From 9755dc6130037dc0b1b04d07ea07ea1b7fbba6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 09/27] fix: parse HTML inside MathML annotation-xml as HTML

The tree builder asks the sink whether an annotation-xml element is an HTML integration point;
the sink always said no, so its content was parsed as MathML or thrown out of the formula.
---
 hotmeal/src/dom.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 2c87472..179f129 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -941,12 +941,7 @@ fn inserted_namespace(parent: &NodeData<'_>, tag: &str) -> Namespace {
                 !matches!(tag, "mglyph" | "malignmark")
             }
             (Namespace::MathMl, "annotation-xml") => {
-                tag == "svg"
-                    || elem.attrs.iter().any(|(name, value)| {
-                        name.local.as_ref() == "encoding"
-                            && (value.eq_ignore_ascii_case("text/html")
-                                || value.eq_ignore_ascii_case("application/xhtml+xml"))
-                    })
+                tag == "svg" || is_html_annotation_xml(parent)
             }
             (Namespace::MathMl, _) => false,
         },
@@ -960,6 +955,20 @@ fn inserted_namespace(parent: &NodeData<'_>, tag: &str) -> Namespace {
     }
 }
 
+/// Whether a node is a MathML `annotation-xml` element that holds HTML.
+fn is_html_annotation_xml(node: &NodeData<'_>) -> bool {
+    let NodeKind::Element(elem) = &node.kind else {
+        return false;
+    };
+    node.ns == Namespace::MathMl
+        && elem.tag.as_ref() == "annotation-xml"
+        && elem.attrs.iter().any(|(name, value)| {
+            name.local.as_ref() == "encoding"
+                && (value.eq_ignore_ascii_case("text/html")
+                    || value.eq_ignore_ascii_case("application/xhtml+xml"))
+        })
+}
+
 /// HTML5 void elements that never have closing tags
 fn is_void_element(tag: &str) -> bool {
     matches!(
@@ -1802,6 +1811,10 @@ impl<'a> TreeSink for ArenaSink<'a> {
         target.detach(&mut self.arena.borrow_mut());
     }
 
+    fn is_mathml_annotation_xml_integration_point(&self, handle: &Self::Handle) -> bool {
+        is_html_annotation_xml(self.arena.borrow()[*handle].get())
+    }
+
     fn reparent_children(&self, node: &Self::Handle, new_parent: &Self::Handle) {
         let mut arena = self.arena.borrow_mut();
         let children: Vec<NodeId> = node.children(&*arena).collect();
-- 
2.43.0


From e7df555c3f397379cfe0cc67fb6ae13a78033bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 10/27] fix: serialize foreign and raw text elements the way
 they are parsed

SVG and MathML elements named like raw text or void HTML elements lost the
escaping of their text or their content, and the text of xmp, iframe, noembed,
noframes and plaintext was escaped although no parser unescapes it.
---
 hotmeal/src/dom.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 179f129..22fdccf 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -883,8 +883,12 @@ impl<'a> Document<'a> {
             out.push('"');
         }
 
+        // The rules for void and raw text elements concern HTML elements only: an SVG <style>
+        // or <link> is an ordinary element whose text has to be escaped.
+        let is_html = self.get(node_id).ns == Namespace::Html;
+
         // Check if void element
-        if is_void_element(tag) {
+        if is_html && is_void_element(tag) {
             out.push('>');
             return;
         }
@@ -892,7 +896,7 @@ impl<'a> Document<'a> {
         out.push('>');
 
         // Children - raw text elements (script, style) should not have their content escaped
-        let is_raw_text = is_raw_text_element(tag);
+        let is_raw_text = is_html && is_raw_text_element(tag);
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
@@ -991,13 +995,23 @@ fn is_void_element(tag: &str) -> bool {
 }
 
 /// HTML5 raw text elements whose content should not be escaped
-/// See: https://html.spec.whatwg.org/multipage/syntax.html#raw-text-elements
+/// See: https://html.spec.whatwg.org/multipage/parsing.html#serialising-html-fragments
 ///
 /// Note: `noscript` is included because we always parse with scripting enabled
 /// (html5ever's default). When scripting is enabled, noscript is parsed as rawtext,
 /// so it must also be serialized as rawtext for innerHTML to be idempotent.
 fn is_raw_text_element(tag: &str) -> bool {
-    matches!(tag, "script" | "style" | "noscript")
+    matches!(
+        tag,
+        "script"
+            | "style"
+            | "noscript"
+            | "xmp"
+            | "iframe"
+            | "noembed"
+            | "noframes"
+            | "plaintext"
+    )
 }
 
 /// What goes in each arena slot
-- 
2.43.0


From d8cec72ec3c6783f600e60b1de05ac6bf4edd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 11/27] fix: clear the body's attributes when the new document
 has no body

The element stays in the patched document, so a later document with a bare
<body> would show up with the attributes of an earlier one.
---
 hotmeal/src/diff.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index ed043e2..3fdf65d 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1086,9 +1086,17 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
             return Ok(patches);
         }
         (true, false) => {
-            // Old has body, new has no body - remove all old body children
+            // Old has body, new has no body - clear its attributes, remove all its children
             let old_body_id = old.body().unwrap();
             let mut patches = Vec::new();
+            if let NodeKind::Element(elem) = &old.get(old_body_id).kind
+                && !elem.attrs.is_empty()
+            {
+                patches.push(Patch::UpdateProps {
+                    path: NodePath(smallvec![0]),
+                    changes: vec![],
+                });
+            }
             // Remove children in reverse order to keep indices stable
             let children: Vec<_> = old_body_id.children(&old.arena).collect();
             for (pos, _child_id) in children.iter().enumerate().rev() {
-- 
2.43.0


From 15fd7298a811235db55fed025d95275dfdde3f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 12/27] fix: do not escape the inner HTML of raw text elements

serialize_inner_html of a <script> or <style> escaped text that no parser
unescapes, which is also what OpaqueChanged carried for opaque ones.
---
 hotmeal/src/dom.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 22fdccf..73e4105 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -402,9 +402,7 @@ impl<'a> Document<'a> {
     /// Serialize the inner HTML of a node (its children, not the node itself).
     pub fn serialize_inner_html(&self, node_id: NodeId) -> String {
         let mut output = String::new();
-        for child_id in node_id.children(&self.arena) {
-            self.serialize_node(&mut output, child_id);
-        }
+        self.serialize_children(&mut output, node_id);
         output
     }
 
@@ -883,20 +881,33 @@ impl<'a> Document<'a> {
             out.push('"');
         }
 
-        // The rules for void and raw text elements concern HTML elements only: an SVG <style>
-        // or <link> is an ordinary element whose text has to be escaped.
-        let is_html = self.get(node_id).ns == Namespace::Html;
-
-        // Check if void element
-        if is_html && is_void_element(tag) {
+        // Check if void element. Only HTML has those: an SVG <link> is an ordinary element.
+        if self.get(node_id).ns == Namespace::Html && is_void_element(tag) {
             out.push('>');
             return;
         }
 
         out.push('>');
 
-        // Children - raw text elements (script, style) should not have their content escaped
-        let is_raw_text = is_html && is_raw_text_element(tag);
+        self.serialize_children(out, node_id);
+
+        // Closing tag
+        out.push_str("</");
+        out.push_str(tag);
+        out.push('>');
+    }
+
+    /// Serialize the children of a node
+    fn serialize_children(&self, out: &mut String, node_id: NodeId) {
+        // Raw text elements (script, style) should not have their content escaped. Only HTML has
+        // those: the text of an SVG <style> has to be escaped.
+        let node = self.get(node_id);
+        let is_raw_text = match &node.kind {
+            NodeKind::Element(elem) => {
+                node.ns == Namespace::Html && is_raw_text_element(elem.tag.as_ref())
+            }
+            _ => false,
+        };
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
@@ -904,11 +915,6 @@ impl<'a> Document<'a> {
                 self.serialize_node(out, child_id);
             }
         }
-
-        // Closing tag
-        out.push_str("</");
-        out.push_str(tag);
-        out.push('>');
     }
 
     /// Serialize a node without escaping text content (for raw text elements like script/style)
-- 
2.43.0


From b81e286b7a19fba03750da3e717cffce26ec828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 13/27] fix: serialize obsolete void elements without an end
 tag

The end tag of a <keygen> within an SVG <title> closes an SVG element instead.
---
 hotmeal/src/dom.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 73e4105..ee3fee6 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -997,6 +997,11 @@ fn is_void_element(tag: &str) -> bool {
             | "source"
             | "track"
             | "wbr"
+            // Obsolete, but the parser never gives them content either
+            | "basefont"
+            | "bgsound"
+            | "frame"
+            | "keygen"
     )
 }
 
-- 
2.43.0


From 321fb625d4b5764b67b4fba8e9910998ce480cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 14/27] fix: refuse to move a slot root into itself

A Move whose source is a slot and whose target lies within that slot made the
arena panic instead of returning an error.
---
 hotmeal/src/diff.rs | 3 +++
 hotmeal/src/dom.rs  | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 3fdf65d..53e8ff3 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -148,6 +148,9 @@ pub enum DiffError {
 
     /// node is not a comment
     NotAComment,
+
+    /// cannot move a node into itself
+    MoveIntoSelf,
 }
 
 /// A path to a node in the DOM tree.
diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index ee3fee6..edb8fbc 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -709,6 +709,14 @@ impl<'a> Document<'a> {
         let path = &at.0.0;
         let (parent_id, position) = self.get_slot_parent(path, slots)?;
 
+        // A slot root keeps its address, so the target of a move may lie within it.
+        if parent_id
+            .ancestors(&self.arena)
+            .any(|id| id == node_to_insert)
+        {
+            return Err(DiffError::MoveIntoSelf);
+        }
+
         debug!(
             "insert_at: path={:?} parent={} pos={}",
             path,
-- 
2.43.0


From 45e7bbbadf8900f43eb23df920bd5213036504b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 15/27] fix: refuse to give children to texts and comments

Patches that do not fit the document could insert below a text node, where no
DOM has children and where serializing loses them.
---
 hotmeal/src/dom.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index edb8fbc..4cbf1fb 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -447,6 +447,9 @@ impl<'a> Document<'a> {
         let position = path[path.len() - 1] as usize;
         let parent_path = &path[..path.len() - 1];
         let parent_id = self.navigate_slot_path(parent_path, slots)?;
+        if !matches!(self.get(parent_id).kind, NodeKind::Element(_)) {
+            return Err(DiffError::NotAnElement);
+        }
 
         Ok((parent_id, position))
     }
@@ -673,6 +676,9 @@ impl<'a> Document<'a> {
             }
             Patch::OpaqueChanged { path, content } => {
                 let node_id = self.navigate_slot_path(&path.0, slots)?;
+                if !matches!(self.get(node_id).kind, NodeKind::Element(_)) {
+                    return Err(DiffError::NotAnElement);
+                }
                 // Remove all existing children
                 let children: Vec<_> = node_id.children(&self.arena).collect();
                 for child in children {
-- 
2.43.0


From d69fb1d2f600f299d32935f7676aeacf38a17d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 16/27] fix: parse OpaqueChanged content as inner HTML of its
 own element

It was parsed inside a <div>, which loses the rows of a <table>, the text of a
<script> or the markup following content that closes the <div>.
---
 hotmeal/src/dom.rs | 48 ++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 4cbf1fb..480f7c6 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -676,28 +676,26 @@ impl<'a> Document<'a> {
             }
             Patch::OpaqueChanged { path, content } => {
                 let node_id = self.navigate_slot_path(&path.0, slots)?;
-                if !matches!(self.get(node_id).kind, NodeKind::Element(_)) {
+                let node_data = self.get(node_id);
+                let NodeKind::Element(elem) = &node_data.kind else {
                     return Err(DiffError::NotAnElement);
-                }
+                };
+                let context = QualName::new(
+                    None,
+                    html5ever::Namespace::from(node_data.ns.url()),
+                    elem.tag.clone(),
+                );
                 // Remove all existing children
                 let children: Vec<_> = node_id.children(&self.arena).collect();
                 for child in children {
                     child.detach(&mut self.arena);
                 }
-                // Parse the new content and attach as children
-                // We parse a minimal document wrapper to get the content nodes
-                let wrapper_html =
-                    format!("<html><body><div>{}</div></body></html>", content.as_ref());
-                let wrapper_tendril = StrTendril::from(wrapper_html.as_str());
-                let wrapper_doc = crate::dom::parse(&wrapper_tendril);
-                if let Some(body_id) = wrapper_doc.body() {
-                    // The content is inside body > div
-                    if let Some(div_id) = body_id.children(&wrapper_doc.arena).next() {
-                        for child_id in div_id.children(&wrapper_doc.arena) {
-                            let cloned = self.clone_subtree_from(&wrapper_doc, child_id);
-                            node_id.append(cloned, &mut self.arena);
-                        }
-                    }
+                // Parse the new content as this element's inner HTML and attach as children
+                let content_tendril = StrTendril::from(content.as_ref());
+                let content_doc = parse_inner_html(&content_tendril, context);
+                for child_id in content_doc.root.children(&content_doc.arena) {
+                    let cloned = self.clone_subtree_from(&content_doc, child_id);
+                    node_id.append(cloned, &mut self.arena);
                 }
             }
         }
@@ -1188,6 +1186,24 @@ pub fn parse_body_fragment(tendril: &StrTendril) -> Document<'_> {
     .one(tendril.clone())
 }
 
+/// Parse the inner HTML of an element named `context`: the children of the returned document's
+/// root are what the element contains.
+fn parse_inner_html(tendril: &StrTendril, context: QualName) -> Document<'_> {
+    use html5ever::{ParseOpts, parse_fragment, tokenizer::TokenizerOpts};
+    use tendril::TendrilSink;
+
+    let opts = ParseOpts {
+        tokenizer: TokenizerOpts {
+            // This is no file: a leading U+FEFF is part of the text
+            discard_bom: false,
+            ..Default::default()
+        },
+        ..Default::default()
+    };
+    let sink = ArenaSink::new(tendril.as_ref());
+    parse_fragment(sink, opts, context, vec![], true).one(tendril.clone())
+}
+
 /// Check if input has HTML structure tags (<html> or <body>).
 fn has_html_structure(input: &str) -> bool {
     let lower = input.to_ascii_lowercase();
-- 
2.43.0


From 339aa007fd19f5ff69039b9428959c53ab5704b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 17/27] fix: inject into the head, not at whatever looks like a
 head tag

inject_into_head took a <header>, or a comment, script or attribute mentioning
<head>, for the head tag, and a '>' inside a quoted attribute for its end.
---
 hotmeal-server/src/lib.rs | 103 ++++++++++++++++++++++++++++++++------
 1 file changed, 88 insertions(+), 15 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index f5e8528..8fdd5a6 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -232,27 +232,100 @@ impl Default for LiveReloadServer {
 /// Searches for `<head>` (case-insensitive) and injects `content` immediately after it.
 /// If no `<head>` tag is found, prepends content at the start.
 pub fn inject_into_head(html: &str, content: &str) -> String {
-    // Find <head> or <head ...> tag (case-insensitive)
-    let lower = html.to_ascii_lowercase();
-    if let Some(head_start) = lower.find("<head") {
-        // Find the closing '>' of the <head> tag
-        if let Some(head_end) = html[head_start..].find('>') {
-            let insert_pos = head_start + head_end + 1;
-            let mut result = String::with_capacity(html.len() + content.len());
-            result.push_str(&html[..insert_pos]);
-            result.push_str(content);
-            result.push_str(&html[insert_pos..]);
-            return result;
-        }
-    }
-
     // No <head> tag found — prepend
+    let insert_pos = after_head_tag(html).unwrap_or(0);
+
     let mut result = String::with_capacity(html.len() + content.len());
+    result.push_str(&html[..insert_pos]);
     result.push_str(content);
-    result.push_str(html);
+    result.push_str(&html[insert_pos..]);
     result
 }
 
+/// Find the end of the opening `<head>` tag.
+///
+/// Only whitespace, comments, a doctype, stray end tags and the `<html>` tag can precede it. The
+/// search steps over those and stops at anything else, so that it is not taken in by a `<header>`
+/// or by text, comments or attributes that mention `<head>`.
+fn after_head_tag(html: &str) -> Option<usize> {
+    let mut pos = if html.starts_with('\u{feff}') { 3 } else { 0 };
+    loop {
+        let rest = &html[pos..];
+        let trimmed = rest.trim_start_matches(['\t', '\n', '\x0c', '\r', ' ']);
+        pos += rest.len() - trimmed.len();
+
+        let Some(markup) = trimmed.strip_prefix('<') else {
+            return None;
+        };
+        let (is_end_tag, tag) = match markup.strip_prefix('/') {
+            Some(tag) => (true, tag),
+            None => (false, markup),
+        };
+        if tag.starts_with(|c: char| c.is_ascii_alphabetic()) {
+            let name_len = tag
+                .find(['\t', '\n', '\x0c', '\r', ' ', '/', '>'])
+                .unwrap_or(tag.len());
+            let name = tag[..name_len].to_ascii_lowercase();
+            pos = tag_end(html, html.len() - tag.len() + name_len)?;
+            match (is_end_tag, name.as_str()) {
+                (false, "head") => return Some(pos),
+                (false, "html") => {}
+                // These end the search for <head>, other end tags are ignored
+                (true, "head" | "body" | "html" | "br") => return None,
+                (true, _) => {}
+                (false, _) => return None,
+            }
+        } else if let Some(comment) = markup.strip_prefix("!--") {
+            let start = html.len() - comment.len();
+            pos = if comment.starts_with('>') {
+                start + 1
+            } else if comment.starts_with("->") {
+                start + 2
+            } else {
+                let plain = comment.find("-->").map(|at| at + 3);
+                let bang = comment.find("--!>").map(|at| at + 4);
+                start + plain.into_iter().chain(bang).min()?
+            };
+        } else if is_end_tag || markup.starts_with(['!', '?']) {
+            // Doctypes, processing instructions and other things that end at the first '>'
+            pos += trimmed.find('>')? + 1;
+        } else {
+            return None;
+        }
+    }
+}
+
+/// Find the end of a tag whose name ends at `pos`: the first '>' outside quoted attribute values.
+fn tag_end(html: &str, pos: usize) -> Option<usize> {
+    enum State {
+        BeforeName,
+        Name,
+        AfterName,
+        BeforeValue,
+        Unquoted,
+        Quoted(u8),
+    }
+    let mut state = State::BeforeName;
+    for (i, &b) in html.as_bytes().iter().enumerate().skip(pos) {
+        let is_space = matches!(b, b'\t' | b'\n' | b'\x0c' | b'\r' | b' ');
+        state = match state {
+            State::Quoted(quote) if b == quote => State::BeforeName,
+            State::Quoted(quote) => State::Quoted(quote),
+            _ if b == b'>' => return Some(i + 1),
+            State::BeforeValue if is_space => State::BeforeValue,
+            State::BeforeValue if b == b'"' || b == b'\'' => State::Quoted(b),
+            State::BeforeValue => State::Unquoted,
+            State::Unquoted if is_space => State::BeforeName,
+            State::Unquoted => State::Unquoted,
+            State::Name | State::AfterName if b == b'=' => State::BeforeValue,
+            State::Name | State::AfterName if is_space => State::AfterName,
+            _ if is_space || b == b'/' => State::BeforeName,
+            _ => State::Name,
+        };
+    }
+    None
+}
+
 /// Generate a `<script>` tag that loads hotmeal-wasm and starts live-reload.
 ///
 /// Arguments:
-- 
2.43.0


From 0299496fce466091b6ea5ca13f3ac39d8d24dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 18/27] fix: diff a body that becomes or ceases to be opaque

---
 hotmeal/src/diff.rs | 61 +++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 53e8ff3..9c986c8 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -768,55 +768,64 @@ impl Iterator for PostOrderIterator<'_, '_> {
 ///
 /// `Tree<T>` is generic and can't check HTML attributes for opaqueness.
 /// This wrapper delegates all DiffTree methods and adds the `data-hotmeal-opaque` check.
-struct OpaqueAwareTree<'a>(Tree<HtmlTreeTypes<'a>>);
+///
+/// The roots are always matched with each other, so an old root that stops being opaque
+/// (`root_opaque` is false) has to be diffed like any other element.
+struct OpaqueAwareTree<'a> {
+    tree: Tree<HtmlTreeTypes<'a>>,
+    root_opaque: bool,
+}
 
 impl<'a> DiffTree for OpaqueAwareTree<'a> {
     type Types = HtmlTreeTypes<'a>;
 
     fn root(&self) -> NodeId {
-        self.0.root()
+        self.tree.root()
     }
     fn node_count(&self) -> usize {
-        self.0.node_count()
+        self.tree.node_count()
     }
     fn hash(&self, id: NodeId) -> NodeHash {
-        self.0.hash(id)
+        self.tree.hash(id)
     }
     fn kind(&self, id: NodeId) -> &HtmlNodeKind {
-        self.0.kind(id)
+        self.tree.kind(id)
     }
     fn properties(&self, id: NodeId) -> &HtmlProps<'a> {
-        self.0.properties(id)
+        self.tree.properties(id)
     }
     fn text(&self, id: NodeId) -> Option<&Stem<'a>> {
-        self.0.text(id)
+        self.tree.text(id)
     }
     fn parent(&self, id: NodeId) -> Option<NodeId> {
-        self.0.parent(id)
+        self.tree.parent(id)
     }
     fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
-        self.0.children(id)
+        self.tree.children(id)
     }
     fn child_count(&self, id: NodeId) -> usize {
-        self.0.child_count(id)
+        self.tree.child_count(id)
     }
     fn position(&self, id: NodeId) -> usize {
-        self.0.position(id)
+        self.tree.position(id)
     }
     fn height(&self, id: NodeId) -> usize {
-        self.0.height(id)
+        self.tree.height(id)
     }
     fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
-        self.0.iter()
+        self.tree.iter()
     }
     fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
-        self.0.post_order()
+        self.tree.post_order()
     }
     fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
-        self.0.descendants(id)
+        self.tree.descendants(id)
     }
     fn is_opaque(&self, id: NodeId) -> bool {
-        self.0
+        if id == self.tree.root && !self.root_opaque {
+            return false;
+        }
+        self.tree
             .properties(id)
             .attrs
             .iter()
@@ -1116,16 +1125,19 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
 
     // Build cinereus Tree for old (needed for shadow tree mutation)
     let raw_tree_a = build_tree_from_arena(old);
-    let tree_a = OpaqueAwareTree(raw_tree_a);
     // Use DiffableDocument for new (avoids second tree allocation)
     let diff_b = DiffableDocument::new(new)?;
+    let tree_a = OpaqueAwareTree {
+        tree: raw_tree_a,
+        root_opaque: diff_b.is_opaque(diff_b.root()),
+    };
 
     #[cfg(test)]
     {
         trace!(
             "tree_a: root hash={:?}, kind={:?}",
-            tree_a.0.get(tree_a.0.root).hash,
-            tree_a.0.get(tree_a.0.root).kind
+            tree_a.tree.get(tree_a.tree.root).hash,
+            tree_a.tree.get(tree_a.tree.root).kind
         );
         trace!(
             "diff_b: root hash={:?}, kind={:?}",
@@ -1142,10 +1154,10 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     let mut matching = cinereus::compute_matching(&tree_a, &diff_b, &config);
 
     // Force root match if same tag
-    let root_a_kind = tree_a.0.get(tree_a.0.root).kind.clone();
+    let root_a_kind = tree_a.tree.get(tree_a.tree.root).kind.clone();
     let root_b_kind = diff_b.kind(diff_b.root()).clone();
-    if root_a_kind == root_b_kind && !matching.contains_a(tree_a.0.root) {
-        matching.add(tree_a.0.root, diff_b.root());
+    if root_a_kind == root_b_kind && !matching.contains_a(tree_a.tree.root) {
+        matching.add(tree_a.tree.root, diff_b.root());
     }
 
     let edit_ops = cinereus::generate_edit_script(&tree_a, &diff_b, &matching);
@@ -1172,7 +1184,8 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         if !diff_b.is_opaque(b_id) {
             continue;
         }
-        if !opaque_content_differs(&tree_a, a_id, &diff_b, b_id) {
+        // An old root that becomes opaque has had its children removed, so it always needs content.
+        if tree_a.is_opaque(a_id) && !opaque_content_differs(&tree_a, a_id, &diff_b, b_id) {
             continue;
         }
         // Serialize from the new document, whose arena b_id indexes directly.
@@ -1184,7 +1197,7 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     }
 
     let (mut patches, shadow) =
-        convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
+        convert_ops_with_shadow(edit_ops, &tree_a.tree, &diff_b, &matching)?;
 
     // The OpaqueChanged patches come after all others, so their paths are those of the final tree.
     for (a_id, content) in opaque_patches {
-- 
2.43.0


From cb0af2f8474b26e8fba115b75dd124fa95c47e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 19/27] fix: create elements and attributes in the browser the
 way the HTML parser does

Inserted SVG and MathML elements became HTML elements, xlink and xmlns attributes lost
their namespace, and attribute or tag names that the DOM API rejects made UpdateProps fail or
lost content (void, raw text, table parts) on the way through innerHTML.
---
 hotmeal-wasm/src/lib.rs | 258 ++++++++++++++++++++--------------------
 1 file changed, 130 insertions(+), 128 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 0e9f8b8..d9f955c 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -21,13 +21,13 @@
 //! which is essential for live-reload systems where hotmeal manages only part
 //! of the document.
 
-use hotmeal::{InsertContent, NodeId, StrTendril, parse};
+use hotmeal::{InsertContent, NodeId, QualName, StrTendril, parse};
 #[cfg(target_arch = "wasm32")]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
 use tracing::{debug, trace};
 use wasm_bindgen::prelude::*;
-use web_sys::{Document, Element, Node};
+use web_sys::{Document, Element, HtmlTemplateElement, Node};
 
 /// Initialize tracing subscriber for WASM (sends output to browser console).
 /// Call this once at startup.
@@ -399,20 +399,12 @@ fn apply_patch(
 
         Patch::SetAttribute { path, name, value } => {
             let el = find_element(root, path, slots)?;
-            let attr_name = match name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                Some(prefix) => format!("{}:{}", prefix, name.local),
-                None => name.local.to_string(),
-            };
-            el.set_attribute(&attr_name, value)?;
+            set_attribute(doc, &el, name, value)?;
         }
 
         Patch::RemoveAttribute { path, name } => {
             let el = find_element(root, path, slots)?;
-            let attr_name = match name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                Some(prefix) => format!("{}:{}", prefix, name.local),
-                None => name.local.to_string(),
-            };
-            el.remove_attribute(&attr_name)?;
+            el.remove_attribute(&attr_name(name))?;
         }
 
         Patch::Remove { node } => {
@@ -466,16 +458,7 @@ fn apply_patch(
                 .ok_or_else(|| JsValue::from_str("parent is not an element"))?
                 .clone();
 
-            let new_node: Node = match create_element_with_attrs(doc, tag, attrs) {
-                Ok(el) => {
-                    for child in children {
-                        let child_node = create_insert_content(doc, child)?;
-                        el.append_child(&child_node)?;
-                    }
-                    el.into()
-                }
-                Err(_) => create_element_via_html(doc, tag, attrs, children)?,
-            };
+            let new_node = create_element_tree(doc, &parent_el, tag, attrs, children)?;
 
             insert_at_position(
                 doc,
@@ -584,16 +567,14 @@ fn apply_patch(
 
                 for change in changes {
                     if let PropKey::Attr(ref qual_name) = change.name {
-                        let attr_name = if let Some(ref prefix) = qual_name.prefix {
-                            format!("{}:{}", prefix, qual_name.local)
-                        } else {
-                            qual_name.local.to_string()
-                        };
                         let value = match &change.value {
                             Some(v) => v.as_ref().to_string(),
-                            None => existing.get(&attr_name).cloned().unwrap_or_default(),
+                            None => existing
+                                .get(&attr_name(qual_name))
+                                .cloned()
+                                .unwrap_or_default(),
                         };
-                        el.set_attribute(&attr_name, &value)?;
+                        set_attribute(doc, el, qual_name, &value)?;
                     }
                 }
             }
@@ -718,127 +699,148 @@ fn insert_at_position(
     Ok(())
 }
 
-/// Try to create an element with attributes using the DOM API.
-/// Returns Err if any attribute name is invalid for setAttribute.
-fn create_element_with_attrs(
-    doc: &Document,
-    tag: &str,
-    attrs: &[hotmeal::AttrPair],
-) -> Result<Element, JsValue> {
-    let el = doc.create_element(tag)?;
-    for attr in attrs {
-        let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-            Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-            None => attr.name.local.to_string(),
-        };
-        el.set_attribute(&attr_name, &attr.value)?;
-    }
-    Ok(el)
-}
+const HTML_NS: &str = "http://www.w3.org/1999/xhtml";
+const SVG_NS: &str = "http://www.w3.org/2000/svg";
+const MATHML_NS: &str = "http://www.w3.org/1998/Math/MathML";
 
-/// Create an element via innerHTML when setAttribute fails.
-/// This handles exotic attribute names that the HTML parser accepts but the DOM API rejects.
-fn create_element_via_html(
-    doc: &Document,
-    tag: &str,
-    attrs: &[hotmeal::AttrPair],
-    children: &[InsertContent],
-) -> Result<Node, JsValue> {
-    use web_sys::HtmlTemplateElement;
-
-    let mut html = format!("<{}", tag);
-    for attr in attrs {
-        let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-            Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-            None => attr.name.local.to_string(),
-        };
-        let escaped_value = attr
-            .value
-            .replace('&', "&amp;")
-            .replace('"', "&quot;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;");
-        html.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-    }
-    html.push('>');
-
-    for child in children {
-        serialize_insert_content(&mut html, child);
+/// Namespace of a `tag` element inserted under `parent`.
+///
+/// Patches carry tag names without namespaces, so this follows the rules by which the HTML
+/// parser switches between HTML, SVG and MathML content.
+fn inserted_namespace(parent: &Element, tag: &str) -> &'static str {
+    let (parent_ns, html_content) = match parent.namespace_uri().as_deref() {
+        Some(SVG_NS) => (
+            SVG_NS,
+            matches!(
+                parent.local_name().as_str(),
+                "foreignObject" | "desc" | "title"
+            ),
+        ),
+        Some(MATHML_NS) => (
+            MATHML_NS,
+            match parent.local_name().as_str() {
+                "mi" | "mo" | "mn" | "ms" | "mtext" => !matches!(tag, "mglyph" | "malignmark"),
+                "annotation-xml" => {
+                    tag == "svg"
+                        || parent.get_attribute("encoding").is_some_and(|encoding| {
+                            encoding.eq_ignore_ascii_case("text/html")
+                                || encoding.eq_ignore_ascii_case("application/xhtml+xml")
+                        })
+                }
+                _ => false,
+            },
+        ),
+        _ => (HTML_NS, true),
+    };
+    match tag {
+        _ if !html_content => parent_ns,
+        "svg" => SVG_NS,
+        "math" => MATHML_NS,
+        _ => HTML_NS,
     }
+}
 
-    html.push_str(&format!("</{}>", tag));
-
+/// Parse HTML as the contents of a template, where it stays inert.
+fn parse_first_element(doc: &Document, html: &str) -> Result<Element, JsValue> {
     let template = doc
         .create_element("template")?
         .dyn_into::<HtmlTemplateElement>()
         .map_err(|_| JsValue::from_str("failed to create template element"))?;
-    template.set_inner_html(&html);
-
+    template.set_inner_html(html);
     template
         .content()
         .first_child()
+        .and_then(|node| node.dyn_into::<Element>().ok())
         .ok_or_else(|| JsValue::from_str("template content is empty"))
 }
 
-/// Serialize InsertContent to HTML string
-fn serialize_insert_content(out: &mut String, content: &InsertContent) {
-    match content {
-        InsertContent::Element {
-            tag,
-            attrs,
-            children,
-        } => {
-            out.push('<');
-            out.push_str(tag);
-            for attr in attrs {
-                let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                    Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-                    None => attr.name.local.to_string(),
-                };
-                let escaped_value = attr
-                    .value
-                    .replace('&', "&amp;")
-                    .replace('"', "&quot;")
-                    .replace('<', "&lt;")
-                    .replace('>', "&gt;");
-                out.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-            }
-            out.push('>');
-            for child in children {
-                serialize_insert_content(out, child);
-            }
-            out.push_str("</");
-            out.push_str(tag);
-            out.push('>');
-        }
-        InsertContent::Text(text) => {
-            out.push_str(&text.replace('&', "&amp;").replace('<', "&lt;"));
-        }
-        InsertContent::Comment(text) => {
-            out.push_str("<!--");
-            out.push_str(text);
-            out.push_str("-->");
+/// Create an element, with the help of the HTML parser if need be: it accepts tag names that the
+/// DOM API rejects.
+fn create_element(doc: &Document, ns: &str, tag: &str) -> Result<Element, JsValue> {
+    let created = match ns {
+        HTML_NS => doc.create_element(tag),
+        _ => doc.create_element_ns(Some(ns), tag),
+    };
+    if created.is_ok() {
+        return created;
+    }
+    match ns {
+        HTML_NS => parse_first_element(doc, &format!("<{tag}>")),
+        _ => {
+            let outer = if ns == SVG_NS { "svg" } else { "math" };
+            parse_first_element(doc, &format!("<{outer}><{tag}>"))?
+                .first_element_child()
+                .ok_or_else(|| JsValue::from_str("failed to create element"))
         }
     }
 }
 
-/// Create a DOM node from InsertContent.
-fn create_insert_content(doc: &Document, content: &InsertContent) -> Result<Node, JsValue> {
+/// Name of an attribute, including its prefix.
+fn attr_name(name: &QualName) -> String {
+    match name.prefix.as_ref().filter(|p| !p.is_empty()) {
+        Some(prefix) => format!("{}:{}", prefix, name.local),
+        None => name.local.to_string(),
+    }
+}
+
+/// Set an attribute, with the help of the HTML parser if need be: it accepts attribute names that
+/// the DOM API rejects.
+fn set_attribute(
+    doc: &Document,
+    el: &Element,
+    name: &QualName,
+    value: &str,
+) -> Result<(), JsValue> {
+    let qualified = attr_name(name);
+    if !name.ns.is_empty() {
+        return el.set_attribute_ns(Some(&name.ns), &qualified, value);
+    }
+    let Err(rejected) = el.set_attribute(&qualified, value) else {
+        return Ok(());
+    };
+    let donor = parse_first_element(doc, &format!("<p {qualified}>"))?;
+    let attr = donor
+        .attributes()
+        .item(0)
+        .filter(|attr| attr.name() == qualified)
+        .ok_or(rejected)?;
+    donor.remove_attribute_node(&attr)?;
+    attr.set_value(value);
+    el.set_attribute_node(&attr)?;
+    Ok(())
+}
+
+/// Create an element with its attributes and children, to be inserted under `parent`.
+fn create_element_tree(
+    doc: &Document,
+    parent: &Element,
+    tag: &str,
+    attrs: &[hotmeal::AttrPair],
+    children: &[InsertContent],
+) -> Result<Node, JsValue> {
+    let el = create_element(doc, inserted_namespace(parent, tag), tag)?;
+    for attr in attrs {
+        set_attribute(doc, &el, &attr.name, &attr.value)?;
+    }
+    for child in children {
+        let child_node = create_insert_content(doc, &el, child)?;
+        el.append_child(&child_node)?;
+    }
+    Ok(el.into())
+}
+
+/// Create a DOM node from InsertContent, to be inserted under `parent`.
+fn create_insert_content(
+    doc: &Document,
+    parent: &Element,
+    content: &InsertContent,
+) -> Result<Node, JsValue> {
     match content {
         InsertContent::Element {
             tag,
             attrs,
             children,
-        } => match create_element_with_attrs(doc, tag, attrs) {
-            Ok(el) => {
-                for child in children {
-                    let child_node = create_insert_content(doc, child)?;
-                    el.append_child(&child_node)?;
-                }
-                Ok(el.into())
-            }
-            Err(_) => create_element_via_html(doc, tag, attrs, children),
-        },
+        } => create_element_tree(doc, parent, tag, attrs, children),
         InsertContent::Text(text) => Ok(doc.create_text_node(text).into()),
         InsertContent::Comment(text) => Ok(doc.create_comment(text).into()),
     }
-- 
2.43.0


From d1600ff76ea51345140e518213871773b22412a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 20/27] fix: patch the contents of templates in the browser

A template keeps its contents in a fragment of its own, which child paths did not enter.
---
 hotmeal-wasm/src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index d9f955c..4e0d18c 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -659,7 +659,8 @@ fn insert_at_position(
     detach_to_slot: Option<u32>,
     slots: &mut Slots,
 ) -> Result<(), JsValue> {
-    let children = parent.child_nodes();
+    let contents = contents_of(parent);
+    let children = contents.child_nodes();
     let current_len = children.length() as usize;
     let pos = position as u32;
 
@@ -678,7 +679,7 @@ fn insert_at_position(
             existing_text = ?existing.text_content(),
             "replacing existing node"
         );
-        let replaced = parent.replace_child(node, &existing)?;
+        let replaced = contents.replace_child(node, &existing)?;
         if let Some(slot) = detach_to_slot {
             trace!(slot, "storing replaced node in slot");
             slots.store(slot, replaced);
@@ -691,9 +692,9 @@ fn insert_at_position(
         );
         for _ in current_len..position {
             let placeholder = doc.create_text_node("");
-            parent.append_child(&placeholder)?;
+            contents.append_child(&placeholder)?;
         }
-        parent.append_child(node)?;
+        contents.append_child(node)?;
     }
 
     Ok(())
@@ -822,9 +823,10 @@ fn create_element_tree(
     for attr in attrs {
         set_attribute(doc, &el, &attr.name, &attr.value)?;
     }
+    let contents = contents_of(&el);
     for child in children {
         let child_node = create_insert_content(doc, &el, child)?;
-        el.append_child(&child_node)?;
+        contents.append_child(&child_node)?;
     }
     Ok(el.into())
 }
@@ -846,11 +848,20 @@ fn create_insert_content(
     }
 }
 
+/// The node that holds what patches call the children of `node`: a template keeps its contents in
+/// a fragment of its own.
+fn contents_of(node: &Node) -> Node {
+    match node.dyn_ref::<HtmlTemplateElement>() {
+        Some(template) => template.content().into(),
+        None => node.clone(),
+    }
+}
+
 /// Navigate a relative path within a node (for slot-relative paths).
 fn navigate_within_node(root: &Node, path: &NodePath) -> Result<Node, JsValue> {
     let mut current = root.clone();
     for &idx in &path.0 {
-        let children = current.child_nodes();
+        let children = contents_of(&current).child_nodes();
         current = children
             .item(idx)
             .ok_or_else(|| JsValue::from_str(&format!("relative path child {} not found", idx)))?;
@@ -872,7 +883,7 @@ fn find_node(root: &Node, path: &NodePath, slots: &Slots) -> Result<Node, JsValu
 
     let mut current = slot_root;
     for &idx in &path.0[1..] {
-        let children = current.child_nodes();
+        let children = contents_of(&current).child_nodes();
         let num_children = children.length();
         trace!(idx, num_children, "navigating to child");
         current = children.item(idx).ok_or_else(|| {
-- 
2.43.0


From 03e3b782e613acba2db213346a8c6e8c50cbedc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 21/27] fix: refuse an empty Remove path in the browser instead
 of panicking

---
 hotmeal-wasm/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 4e0d18c..5777bd7 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -409,7 +409,9 @@ fn apply_patch(
 
         Patch::Remove { node } => {
             let NodeRef(path) = node;
-            let slot = path.0[0];
+            let Some(&slot) = path.0.first() else {
+                return Err(JsValue::from_str("Remove: empty path"));
+            };
             if slot == 0 {
                 let rel_path = NodePath(SmallVec::from_slice(&path.0[1..]));
                 let target = navigate_within_node(root, &rel_path)?;
-- 
2.43.0


From d9e2c8b9966f9f40b8121f27545fc4f01862220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 22/27] fix: escape the arguments of the loader script for
 JavaScript and HTML

---
 hotmeal-server/src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index 8fdd5a6..b6c00d1 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -339,6 +339,8 @@ pub fn loader_script(
     mount_selector: &str,
     ws_url: &str,
 ) -> String {
+    let [wasm_js_url, wasm_url, mount_selector, ws_url] =
+        [wasm_js_url, wasm_url, mount_selector, ws_url].map(escape_js_string);
     format!(
         r#"<script type="module">
 import init, {{ start_live_reload }} from "{wasm_js_url}";
@@ -348,6 +350,23 @@ start_live_reload("{ws_url}", "{mount_selector}");
     )
 }
 
+/// Escapes text for a double-quoted JavaScript string inside an HTML script element.
+///
+/// `<` is escaped so that neither `</script` nor `<!--` can appear in the element.
+fn escape_js_string(s: &str) -> String {
+    let mut out = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => out.push_str("\\\\"),
+            '<' | '\u{2028}' | '\u{2029}' => out.push_str(&format!("\\u{:04x}", c as u32)),
+            c if c.is_ascii_control() => out.push_str(&format!("\\u{:04x}", c as u32)),
+            c => out.push(c),
+        }
+    }
+    out
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 861d9352fcab5d98bd3f8f02defdd54dc4aac65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 23/27] fix: treat the body as the root of the tree being
 diffed to

---
 hotmeal/src/diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 9c986c8..e4a3812 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -670,6 +670,10 @@ impl<'b, 'a> DiffTree for DiffableDocument<'b, 'a> {
     }
 
     fn parent(&self, id: NodeId) -> Option<NodeId> {
+        // The tree starts at the body: its parent in the document is not part of it
+        if id == self.body_id {
+            return None;
+        }
         self.doc.arena.get(id).and_then(|n| n.parent())
     }
 
-- 
2.43.0


From 60e1b899097ebd371ad13abca0952aad9d18adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 24/27] fix: keep what is inside a root that becomes opaque out
 of the matching

---
 cinereus/src/matching.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 6961786..e2c9244 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -501,6 +501,7 @@ fn bottom_up_phase<TA, TB>(
                 .children(parent_b)
                 .filter(|&b_id| {
                     !matching.contains_b(b_id)
+                        && !opaque_descendants_b.contains(&b_id)
                         && tree_b.kind(b_id) == a_kind
                         && opacity_compatible(tree_a, tree_b, a_id, b_id)
                 })
@@ -635,6 +636,7 @@ fn bottom_up_phase<TA, TB>(
                 .children(parent_b)
                 .filter(|&b_id| {
                     !matching.contains_b(b_id)
+                        && !opaque_descendants_b.contains(&b_id)
                         && tree_b.child_count(b_id) == 0
                         && tree_b.kind(b_id) == a_kind
                         && opacity_compatible(tree_a, tree_b, a_id, b_id)
-- 
2.43.0


From 20bfaee68a0db662fd0dfb0069607917c3e512fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 25/27] fix: do not render the whole tree for every
 foster-parented text

append_before_sibling built the tree dumps of its trace messages whether or not
tracing was on, so that parsing a table with n stray texts took n squared time.
---
 hotmeal/src/dom.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 480f7c6..bca658f 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1261,6 +1261,7 @@ fn tendril_to_stem_with_input<'a>(input: &'a str, t: StrTendril) -> Stem<'a> {
     }
 }
 
+#[allow(dead_code)]
 fn node_id_short(node_id: NodeId) -> String {
     let debug = format!("{:?}", node_id);
     let Some(start) = debug.find("index1: ") else {
@@ -1275,6 +1276,7 @@ fn node_id_short(node_id: NodeId) -> String {
     }
 }
 
+#[allow(dead_code)]
 fn dump_arena_subtree<'a>(
     arena: &Arena<NodeData<'a>>,
     node_id: NodeId,
@@ -1711,11 +1713,10 @@ impl<'a> TreeSink for ArenaSink<'a> {
                         (parent, "\x1b[32m", "PARENT"),
                         (*sibling, "\x1b[33m", "SIBLING"),
                     ];
-                    let tree_dump = dump_arena_subtree(&arena, parent, &highlights);
                     trace!(
                         sibling_id = %node_id_short(*sibling),
                         parent_id = %node_id_short(parent),
-                        tree = %tree_dump,
+                        tree = %LazyTreeDump::new(&arena, parent, &highlights),
                         "append_before_sibling: before text insert"
                     );
                 }
@@ -1747,12 +1748,11 @@ impl<'a> TreeSink for ArenaSink<'a> {
                                 (prev_sibling, "\x1b[35m", "MERGED"),
                                 (*sibling, "\x1b[33m", "SIBLING"),
                             ];
-                            let tree_dump = dump_arena_subtree(&arena, parent, &highlights);
                             trace!(
                                 sibling_id = %node_id_short(*sibling),
                                 parent_id = %node_id_short(parent),
                                 merged_into_id = %node_id_short(prev_sibling),
-                                tree = %tree_dump,
+                                tree = %LazyTreeDump::new(&arena, parent, &highlights),
                                 "append_before_sibling: after merge"
                             );
                         }
@@ -1779,12 +1779,11 @@ impl<'a> TreeSink for ArenaSink<'a> {
                         (*sibling, "\x1b[33m", "SIBLING"),
                         (text_node, "\x1b[36m", "INSERTED"),
                     ];
-                    let tree_dump = dump_arena_subtree(&arena, parent, &highlights);
                     trace!(
                         sibling_id = %node_id_short(*sibling),
                         parent_id = %node_id_short(parent),
                         inserted_id = %node_id_short(text_node),
-                        tree = %tree_dump,
+                        tree = %LazyTreeDump::new(&arena, parent, &highlights),
                         "append_before_sibling: after text insert"
                     );
                 }
-- 
2.43.0


From f4dfb963ee89dc4520ad0d9d45ba6da18fdc04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 26/27] fix: check ancestry by climbing instead of walking
 whole subtrees

ancestry_compatible is asked for every candidate pair and searched everything below the
matched parent each time: wrapping n siblings in a new element took n cubed time to diff.
---
 cinereus/src/matching.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index e2c9244..bfd964e 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -353,6 +353,21 @@ impl<'a, T: DiffTree> LazyDescendantMap<'a, T> {
     }
 }
 
+/// Whether `id` is `ancestor` or one of its descendants.
+///
+/// Climbs from `id` instead of walking everything below `ancestor`: this is asked for every
+/// candidate pair, and a whole page can be below `ancestor`.
+fn is_self_or_descendant<T: DiffTree>(tree: &T, id: NodeId, ancestor: NodeId) -> bool {
+    let mut current = Some(id);
+    while let Some(node) = current {
+        if node == ancestor {
+            return true;
+        }
+        current = tree.parent(node);
+    }
+    false
+}
+
 /// Check if B is a valid match for A based on ancestry constraints.
 ///
 /// If A's parent is matched to some node P_b, then B must be a descendant of P_b.
@@ -384,9 +399,7 @@ where
     {
         // A's parent is matched to matched_b_parent.
         // B must be a descendant of matched_b_parent.
-        let is_descendant = tree_b
-            .descendants(matched_b_parent)
-            .any(|desc| desc == b_id);
+        let is_descendant = is_self_or_descendant(tree_b, b_id, matched_b_parent);
         if !is_descendant {
             trace!(
                 a = usize::from(a_id),
@@ -404,9 +417,7 @@ where
     if let Some(b_parent) = tree_b.parent(b_id)
         && let Some(matched_a_parent) = matching.get_a(b_parent)
     {
-        let is_descendant = tree_a
-            .descendants(matched_a_parent)
-            .any(|desc| desc == a_id);
+        let is_descendant = is_self_or_descendant(tree_a, a_id, matched_a_parent);
         if !is_descendant {
             trace!(
                 a = usize::from(a_id),
-- 
2.43.0


From b77396f1f322e7dc3ba8bdf8f48ab5616f4abea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 27/27] fix: find the end of a comment before the head in one
 pass

Looking for --> and --!> separately reads to the end of the page for every comment, as one
of the two is hardly ever there.
---
 hotmeal-server/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index b6c00d1..3f80eec 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -282,9 +282,11 @@ fn after_head_tag(html: &str) -> Option<usize> {
             } else if comment.starts_with("->") {
                 start + 2
             } else {
-                let plain = comment.find("-->").map(|at| at + 3);
-                let bang = comment.find("--!>").map(|at| at + 4);
-                start + plain.into_iter().chain(bang).min()?
+                let (end, _) = comment.match_indices('>').find(|&(at, _)| {
+                    let text = &comment[..at];
+                    text.ends_with("--") || text.ends_with("--!")
+                })?;
+                start + end + 1
             };
         } else if is_end_tag || markup.starts_with(['!', '?']) {
             // Doctypes, processing instructions and other things that end at the first '>'
-- 
2.43.0

