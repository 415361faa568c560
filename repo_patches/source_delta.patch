From 3828c79f72732920d50142e9db7b4413598e5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 01/26] fix: do not slice inside a multi-byte first character
 when checking a name

---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 4eddaed..b985ae3 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -389,7 +389,7 @@ pub(crate) fn is_xml_name_char(c: char) -> bool {
 ///
 pub(crate) fn is_xml_name(s: impl AsRef<str>) -> bool {
     let s = s.as_ref();
-    !s.is_empty() && s.starts_with(is_xml_name_start_char) && s[1..].chars().all(is_xml_name_char)
+    !s.is_empty() && s.starts_with(is_xml_name_start_char) && s.chars().all(is_xml_name_char)
 }
 
 ///
-- 
2.43.0


From 07defc42a5d2e07e9c3ea4f3d08ba77220d3eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 02/26] fix: check character data ranges without overflow or
 mid-character slicing

---
 src/level2/trait_impls.rs | 75 +++++++++++++--------------------------
 1 file changed, 24 insertions(+), 51 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 23d0927..e0a2b80 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -11,6 +11,7 @@ use crate::shared::{display, text};
 use std::collections::hash_map::RandomState;
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter, Result as FmtResult};
+use std::ops::Range;
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -142,26 +143,10 @@ impl CDataSection for RefNode {}
 
 impl CharacterData for RefNode {
     fn substring_data(&self, offset: usize, count: usize) -> Result<String> {
-        if offset + count == offset {
-            return Ok(String::new());
-        }
         let ref_self = self.borrow();
-        match &ref_self.i_value {
-            None => {
-                warn!("{}", MSG_INDEX_ERROR);
-                Err(Error::IndexSize)
-            }
-            Some(data) => {
-                if offset >= data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else if offset + count >= data.len() {
-                    Ok(data[offset..].to_string())
-                } else {
-                    Ok(data[offset..offset + count].to_string())
-                }
-            }
-        }
+        let data = ref_self.i_value.as_deref().unwrap_or_default();
+        let range = data_range(data, offset, count)?;
+        Ok(data[range].to_string())
     }
 
     fn append_data(&mut self, new_data: &str) -> Result<()> {
@@ -177,48 +162,21 @@ impl CharacterData for RefNode {
     }
 
     fn insert_data(&mut self, offset: usize, new_data: &str) -> Result<()> {
-        if new_data.is_empty() {
-            return Ok(());
-        }
         self.replace_data(offset, 0, new_data)
     }
 
     fn delete_data(&mut self, offset: usize, count: usize) -> Result<()> {
-        if offset + count == offset {
-            return Ok(());
-        }
         const NOTHING: &str = "";
         self.replace_data(offset, count, NOTHING)
     }
 
     fn replace_data(&mut self, offset: usize, count: usize, replace_data: &str) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        match &mut_self.i_value {
-            None => {
-                if offset + count != 0 {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else {
-                    mut_self.i_value = Some(replace_data.to_string());
-                    Ok(())
-                }
-            }
-            Some(old_data) => {
-                if offset >= old_data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else {
-                    let mut new_data = old_data.clone();
-                    if offset + count >= old_data.len() {
-                        new_data.replace_range(offset.., replace_data);
-                    } else {
-                        new_data.replace_range(offset..offset + count, replace_data);
-                    }
-                    mut_self.i_value = Some(new_data);
-                    Ok(())
-                }
-            }
-        }
+        let mut new_data = mut_self.i_value.clone().unwrap_or_default();
+        let range = data_range(&new_data, offset, count)?;
+        new_data.replace_range(range, replace_data);
+        mut_self.i_value = Some(new_data);
+        Ok(())
     }
 }
 
@@ -1177,6 +1135,21 @@ impl Display for RefNode {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+///
+/// The range of `data` selected by `offset` and `count`, where a `count` that goes past the end
+/// selects all the remaining data. It is an error if `offset` is greater than the length, or if
+/// either end of the range falls inside a character.
+///
+fn data_range(data: &str, offset: usize, count: usize) -> Result<Range<usize>> {
+    let end = offset.saturating_add(count).min(data.len());
+    if offset <= data.len() && data.is_char_boundary(offset) && data.is_char_boundary(end) {
+        Ok(offset..end)
+    } else {
+        warn!("{}", MSG_INDEX_ERROR);
+        Err(Error::IndexSize)
+    }
+}
+
 const WILD_CARD: &str = "*";
 
 fn tag_name_match(test: &str, against: &str) -> bool {
-- 
2.43.0


From d12c8bb2864e52d64b4c1acc5f862fe1c9660a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 03/26] fix: measure character data by its raw length, and
 reject a split before changing anything

---
 src/level2/trait_impls.rs | 4 ++++
 src/level2/traits.rs      | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index e0a2b80..c8c839d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1081,6 +1081,10 @@ impl ProcessingInstruction for RefNode {}
 
 impl Text for RefNode {
     fn split(&mut self, offset: usize) -> Result<RefNode> {
+        if !is_text(self) && !is_cdata_section(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::Syntax);
+        }
         let new_data = {
             let text = as_character_data_mut(self)?;
             let length = text.length();
diff --git a/src/level2/traits.rs b/src/level2/traits.rs
index f493a49..1cfa40e 100644
--- a/src/level2/traits.rs
+++ b/src/level2/traits.rs
@@ -130,7 +130,7 @@ pub trait CharacterData: Node {
     /// **Note:** This implementation drops the `_data` suffix from the methods for clarity.
     ///
     fn length(&self) -> usize {
-        match self.data() {
+        match Node::node_value(self) {
             None => 0,
             Some(s) => s.len(),
         }
-- 
2.43.0


From dc75c36747f0a2e70eca74676156c21a738ed981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 04/26] fix: do not panic when a document or parent has been
 dropped while its nodes are in use

---
 src/level2/ext/namespaced.rs | 12 ++++++------
 src/level2/trait_impls.rs    |  7 ++-----
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index 48b1fef..6d40779 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -5,9 +5,7 @@ This module provides support types for the [`Namespaced`](trait.Namespaced.html)
 use crate::level2::ext::traits::Namespaced;
 use crate::level2::node_impl::{Extension, RefNode};
 use crate::level2::traits::{Node, NodeType};
-use crate::shared::error::{
-    Error, Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE, MSG_WEAK_REF,
-};
+use crate::shared::error::{Error, Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE};
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -146,7 +144,7 @@ impl Namespaced for RefNode {
                     None => None,
                     Some(parent) => {
                         let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
+                        let parent_node = parent.upgrade()?;
                         parent_node.resolve_namespace(prefix)
                     }
                 }
@@ -194,8 +192,10 @@ impl Namespaced for RefNode {
                     None => NamespacePrefix::None,
                     Some(parent) => {
                         let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_prefix(namespace_uri)
+                        match parent.upgrade() {
+                            None => NamespacePrefix::None,
+                            Some(parent_node) => parent_node.resolve_prefix(namespace_uri),
+                        }
                     }
                 }
             }
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c8c839d..d13a0a3 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1193,8 +1193,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
             if !match child_document {
                 None => true,
                 Some(child_document) => {
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_node == &child_document
+                    child_document.clone().upgrade().as_ref() == Some(self_node)
                 }
             } {
                 warn!("Error::WrongDocument: child could not be added to the document node.");
@@ -1208,9 +1207,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
                 (Some(_), None) => true,
                 (None, Some(_)) => false,
                 (Some(self_document), Some(child_document)) => {
-                    let self_document = self_document.clone().upgrade().unwrap();
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_document == child_document
+                    self_document.clone().upgrade() == child_document.clone().upgrade()
                 }
             } {
                 warn!("Error::WrongDocument: child could not be added to the current node.");
-- 
2.43.0


From 8375a054ca5550d95c5bf9563a08818f922c8648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 05/26] fix: insert and replace children at the right place, or
 leave the tree unchanged

---
 src/level2/trait_impls.rs | 110 +++++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 37 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index d13a0a3..d5b6eed 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -886,46 +886,26 @@ impl Node for RefNode {
             }
         }
 
-        if !is_child_allowed(self, &new_child) {
-            warn!("The child you tried to add is not valid for this parent.");
-            return Err(Error::HierarchyRequest);
-        }
+        check_child_insertion(self, &new_child, None)?;
 
-        //
-        // Special case for Document only.
-        //
-        if is_document(self)
-            && is_element(&new_child)
-            && self
-                .child_nodes()
-                .iter()
-                .any(|n| n.node_type() == NodeType::Element)
-        {
-            warn!("cannot add more than one element to a document");
-            return Error::HierarchyRequest.into();
+        if let Some(ref_child) = &ref_child {
+            if !self.borrow().i_child_nodes.contains(ref_child) {
+                warn!("insert_before: ref_child not found in `child_nodes`");
+                return Error::NotFound.into();
+            }
         }
 
+        check_same_document(self, &new_child)?;
+
         //
-        // Find the index in `child_nodes` of the `ref_child`.
+        // A node inserted before itself stays where it is.
         //
-        let insert_position = match ref_child {
-            None => None,
-            Some(ref_child) => match self
-                .borrow()
-                .i_child_nodes
-                .iter()
-                .position(|child| child == &ref_child)
-            {
-                None => {
-                    warn!("insert_before: ref_child not found in `child_nodes`");
-                    return Error::NotFound.into();
-                }
-                position => position,
-            },
+        let ref_child = if ref_child.as_ref() == Some(&new_child) {
+            new_child.next_sibling()
+        } else {
+            ref_child
         };
 
-        check_same_document(self, &new_child)?;
-
         //
         // Remove from it's current parent
         //
@@ -936,6 +916,17 @@ impl Node for RefNode {
             }
         }
 
+        //
+        // Find the index in `child_nodes` of the `ref_child`, now that removing `new_child` cannot
+        // change it.
+        //
+        let insert_position = ref_child.and_then(|ref_child| {
+            self.borrow()
+                .i_child_nodes
+                .iter()
+                .position(|child| child == &ref_child)
+        });
+
         //
         // update new child with references from self
         //
@@ -970,15 +961,20 @@ impl Node for RefNode {
     }
 
     fn replace_child(&mut self, new_child: RefNode, old_child: RefNode) -> Result<RefNode> {
-        if !is_child_allowed(self, &new_child) {
-            return Err(Error::HierarchyRequest);
-        }
+        check_child_insertion(self, &new_child, Some(&old_child))?;
         let exists = {
             let ref_self = self.borrow();
             ref_self.i_child_nodes.contains(&old_child.clone())
         };
         if exists {
-            let next_node = old_child.next_sibling();
+            check_same_document(self, &new_child)?;
+            if new_child == old_child {
+                return Ok(old_child);
+            }
+            let next_node = match old_child.next_sibling() {
+                Some(next_node) if next_node == new_child => new_child.next_sibling(),
+                next_node => next_node,
+            };
             let removed = self.remove_child(old_child)?;
             let _safe_to_ignore = self.insert_before(new_child, next_node)?;
             Ok(removed)
@@ -1182,6 +1178,46 @@ fn namespaced_name_match(
     }
 }
 
+//
+// CHECK: Raise `Error::HierarchyRequest` if `newChild` is of a type that is not allowed as a child
+// of this node, if it is this node or one of its ancestors, or if it would be a second element in a
+// document. The child `replaced`, if any, is going to be removed.
+//
+fn check_child_insertion(
+    self_node: &RefNode,
+    new_child: &RefNode,
+    replaced: Option<&RefNode>,
+) -> Result<()> {
+    if !is_child_allowed(self_node, new_child) {
+        warn!("The child you tried to add is not valid for this parent.");
+        return Err(Error::HierarchyRequest);
+    }
+
+    let mut ancestor = Some(self_node.clone());
+    while let Some(node) = ancestor {
+        if &node == new_child {
+            warn!("cannot add a node to itself or to one of its descendants");
+            return Err(Error::HierarchyRequest);
+        }
+        ancestor = node.parent_node();
+    }
+
+    //
+    // Special case for Document only.
+    //
+    if is_document(self_node)
+        && is_element(new_child)
+        && self_node
+            .child_nodes()
+            .iter()
+            .any(|n| is_element(n) && n != new_child && Some(n) != replaced)
+    {
+        warn!("cannot add more than one element to a document");
+        return Err(Error::HierarchyRequest);
+    }
+    Ok(())
+}
+
 //
 // CHECK: Raise `Error::WrongDocument` if `newChild` was created from a different
 // document than the one that created this node.
-- 
2.43.0


From 3a07c95f5605aff4370a1667290cf82e1e1cbd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 06/26] fix: the document element is the first child that is an
 element

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index d5b6eed..5a24e6b 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -192,7 +192,7 @@ impl Document for RefNode {
     }
 
     fn document_element(&self) -> Option<RefNode> {
-        self.child_nodes().first().cloned()
+        self.child_nodes().into_iter().find(is_element)
     }
 
     fn implementation(&self) -> &dyn DOMImplementation<NodeRef = RefNode> {
-- 
2.43.0


From b6dea257193c96426a3f6cc26e8b243b7435b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 07/26] fix: feature names are case-insensitive and the version
 is optional

---
 src/level2/trait_impls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 5a24e6b..689eb77 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -376,8 +376,9 @@ impl DOMImplementation for Implementation {
     }
 
     fn has_feature(&self, feature: &str, version: &str) -> bool {
-        (feature == XML_FEATURE_CORE || feature == XML_FEATURE_XML)
-            && (version == XML_FEATURE_V1 || version == XML_FEATURE_V2)
+        (feature.eq_ignore_ascii_case(XML_FEATURE_CORE)
+            || feature.eq_ignore_ascii_case(XML_FEATURE_XML))
+            && (version.is_empty() || version == XML_FEATURE_V1 || version == XML_FEATURE_V2)
     }
 }
 
-- 
2.43.0


From 99dac8b11a5966fafefa6f43ebed5b00703af7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 08/26] fix: an element is not one of its own descendants

---
 src/level2/trait_impls.rs | 96 ++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 42 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 689eb77..da66c8d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -302,7 +302,7 @@ impl Document for RefNode {
         // Delegate this call to the document element
         //
         if let Some(root_element) = self.document_element() {
-            Element::get_elements_by_tag_name(&root_element, tag_name)
+            elements_by_tag_name(&root_element, tag_name)
         } else {
             Vec::default()
         }
@@ -313,7 +313,7 @@ impl Document for RefNode {
         // Delegate this call to the document element
         //
         if let Some(root_element) = self.document_element() {
-            Element::get_elements_by_tag_name_ns(&root_element, namespace_uri, local_name)
+            elements_by_tag_name_ns(&root_element, namespace_uri, local_name)
         } else {
             Vec::default()
         }
@@ -545,23 +545,14 @@ impl Element for RefNode {
     }
 
     fn get_elements_by_tag_name(&self, tag_name: &str) -> Vec<RefNode> {
-        let mut results = Vec::default();
         if is_element(self) {
-            let tag_name = tag_name.to_string();
-            let ref_self = self.borrow();
-            if tag_name_match(&ref_self.i_name.to_string(), &tag_name) {
-                results.push(self.clone());
-            }
-            for child_node in &ref_self.i_child_nodes {
-                match as_element(child_node) {
-                    Ok(ref_child) => results.extend(ref_child.get_elements_by_tag_name(&tag_name)),
-                    Err(_) => {
-                        warn!("{}", MSG_INVALID_NODE_TYPE);
-                    }
-                }
-            }
+            self.child_nodes()
+                .iter()
+                .flat_map(|child_node| elements_by_tag_name(child_node, tag_name))
+                .collect()
+        } else {
+            Vec::default()
         }
-        results
     }
 
     fn get_attribute_ns(&self, namespace_uri: &str, local_name: &str) -> Option<String> {
@@ -635,33 +626,16 @@ impl Element for RefNode {
     }
 
     fn get_elements_by_tag_name_ns(&self, namespace_uri: &str, local_name: &str) -> Vec<RefNode> {
-        let mut results = Vec::default();
         if is_element(self) {
-            let namespace_uri = namespace_uri.to_string();
-            let local_name = local_name.to_string();
-            let ref_self = self.borrow();
-            if namespaced_name_match(
-                match ref_self.i_name.namespace_uri() {
-                    None => None,
-                    Some(s) => Some(s.as_str()),
-                },
-                ref_self.i_name.local_name(),
-                &namespace_uri,
-                &local_name,
-            ) {
-                results.push(self.clone());
-            }
-            for child_node in &ref_self.i_child_nodes {
-                match as_element(child_node) {
-                    Ok(ref_child) => results
-                        .extend(ref_child.get_elements_by_tag_name_ns(&namespace_uri, &local_name)),
-                    Err(_) => {
-                        warn!("{}", MSG_INVALID_NODE_TYPE);
-                    }
-                }
-            }
+            self.child_nodes()
+                .iter()
+                .flat_map(|child_node| {
+                    elements_by_tag_name_ns(child_node, namespace_uri, local_name)
+                })
+                .collect()
+        } else {
+            Vec::default()
         }
-        results
     }
 
     fn has_attribute(&self, name: &str) -> bool {
@@ -1179,6 +1153,44 @@ fn namespaced_name_match(
     }
 }
 
+///
+/// The matching elements, in preorder, in the tree below and including `node`.
+///
+fn elements_by_tag_name(node: &RefNode, tag_name: &str) -> Vec<RefNode> {
+    let mut results = Vec::default();
+    let ref_self = node.borrow();
+    if is_element(node) && tag_name_match(&ref_self.i_name.to_string(), tag_name) {
+        results.push(node.clone());
+    }
+    for child_node in &ref_self.i_child_nodes {
+        results.extend(elements_by_tag_name(child_node, tag_name));
+    }
+    results
+}
+
+fn elements_by_tag_name_ns(node: &RefNode, namespace_uri: &str, local_name: &str) -> Vec<RefNode> {
+    let mut results = Vec::default();
+    let ref_self = node.borrow();
+    if is_element(node)
+        && namespaced_name_match(
+            ref_self.i_name.namespace_uri().as_deref(),
+            ref_self.i_name.local_name(),
+            namespace_uri,
+            local_name,
+        )
+    {
+        results.push(node.clone());
+    }
+    for child_node in &ref_self.i_child_nodes {
+        results.extend(elements_by_tag_name_ns(
+            child_node,
+            namespace_uri,
+            local_name,
+        ));
+    }
+    results
+}
+
 //
 // CHECK: Raise `Error::HierarchyRequest` if `newChild` is of a type that is not allowed as a child
 // of this node, if it is this node or one of its ancestors, or if it would be a second element in a
-- 
2.43.0


From 3f5df31e5526ffa0b928b4d10abe714011c4f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 09/26] fix: keep an element's attributes, namespace mapping
 and ID index consistent

Setting, replacing and removing attributes left stale owner elements, stale
namespace mappings and stale IDs behind, stored namespace prefixes under the
wrong key, and removed nodes that were not attributes of the element.
---
 src/level2/trait_impls.rs | 285 ++++++++++++++++++++++++++------------
 1 file changed, 193 insertions(+), 92 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index da66c8d..539b20c 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1,6 +1,6 @@
 use crate::level2::convert::*;
 use crate::level2::dom_impl::{get_implementation, Implementation};
-use crate::level2::ext::convert::as_element_namespaced_mut;
+use crate::level2::ext::namespaced::MutNamespaced;
 use crate::level2::ext::options::ProcessingOptions;
 use crate::level2::node_impl::*;
 use crate::level2::traits::*;
@@ -79,39 +79,32 @@ impl Attribute for RefNode {
     // text. See also the method `setAttribute` on the `Element` interface.
     //
     fn value(&self) -> Option<String> {
-        if self.has_child_nodes() {
-            let mut result = String::new();
-            for child_node in self.child_nodes() {
-                if child_node.node_type() == NodeType::EntityReference {
-                    if let Some(value) = child_node.node_value() {
-                        result.push_str(&value);
-                    }
-                } else if child_node.node_type() == NodeType::Text {
-                    //
-                    // Do not use the Text::data function as this will escape the response.
-                    //
-                    let ref_node = child_node.borrow();
-                    if let Some(data) = &ref_node.i_value {
-                        result.push_str(data);
-                    }
-                }
-            }
-            let normalized = text::normalize_attribute_value(&result, self, false);
-            Some(text::escape(normalized))
-        } else {
-            None
-        }
+        attribute_value(self).map(text::escape)
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
-        self.unset_value()?;
-        let document_node = self.owner_document().unwrap();
-        let document = as_document(&document_node).unwrap();
-        let _safe_to_ignore = self.append_child(document.create_text_node(value))?;
+        let text_node = {
+            let ref_self = self.borrow();
+            let document = ref_self.i_owner_document.as_ref().unwrap();
+            RefNode::new(NodeImpl::new_text(document.clone(), value))
+        };
+        let owner_element = self.owner_element();
+        if let Some(element) = &owner_element {
+            let value = text::normalize_attribute_value(value, self, true);
+            check_unique_id(element, &self.node_name(), &value)?;
+            unregister_attribute(element, self);
+        }
+        remove_all_children(self);
+        let _safe_to_ignore = self.append_child(text_node)?;
+        if let Some(element) = &owner_element {
+            register_attribute(element, self);
+        }
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
-        let mut mut_self = self.borrow_mut();
-        mut_self.i_child_nodes.clear();
+        if let Some(element) = self.owner_element() {
+            unregister_attribute(&element, self);
+        }
+        remove_all_children(self);
         Ok(())
     }
     fn owner_element(&self) -> Option<Self::NodeRef> {
@@ -215,8 +208,10 @@ impl Document for RefNode {
 
     fn create_attribute_with(&self, name: &str, value: &str) -> Result<RefNode> {
         let name = Name::from_str(name)?;
-        let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, Some(value));
-        Ok(RefNode::new(node_impl))
+        let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, None);
+        let mut attribute_node = RefNode::new(node_impl);
+        attribute_node.set_value(value)?;
+        Ok(attribute_node)
     }
 
     fn create_attribute_ns(&self, namespace_uri: &str, qualified_name: &str) -> Result<RefNode> {
@@ -403,9 +398,11 @@ impl Element for RefNode {
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-            NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
+            NodeImpl::new_attribute(document.clone(), attr_name, None)
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        let mut attr_node = RefNode::new(attr_node);
+        attr_node.set_value(value)?;
+        self.set_attribute_node(attr_node).map(|_| ())
     }
 
     fn remove_attribute(&mut self, name: &str) -> Result<()> {
@@ -446,6 +443,34 @@ impl Element for RefNode {
         if is_element(self) && is_attribute(&new_attribute) {
             check_same_document(self, &new_attribute)?;
 
+            match new_attribute.owner_element() {
+                None => (),
+                Some(element) if &element == self => return Ok(new_attribute),
+                Some(_) => {
+                    warn!("set_attribute_node: attribute is in use by another element");
+                    return Err(Error::InUseAttribute);
+                }
+            }
+
+            let name: Name = new_attribute.node_name();
+            if let Some(value) = attribute_value(&new_attribute) {
+                check_unique_id(self, &name, &value)?;
+            }
+
+            //
+            // The new attribute replaces one with the same name, or one with the same namespace
+            // and local name but a different prefix.
+            //
+            let replaced = self.attributes().into_iter().find(|(other, _)| {
+                other == &name
+                    || (name.namespace_uri().is_some()
+                        && other.namespace_uri() == name.namespace_uri()
+                        && other.local_name() == name.local_name())
+            });
+            if let Some((_, replaced)) = replaced {
+                let _safe_to_ignore = self.remove_attribute_node(replaced)?;
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -461,62 +486,17 @@ impl Element for RefNode {
                 }
             }
 
-            let name: Name = new_attribute.node_name();
-            if name.is_namespace_attribute() {
-                //
-                // Add to the element's namespace mapping hash
-                //
-                let attribute = as_attribute(&new_attribute).unwrap();
-                let namespace_uri = attribute.value().unwrap();
-
-                let as_namespaced = as_element_namespaced_mut(self).unwrap();
-                let _ignore = match &name.prefix() {
-                    None => as_namespaced.insert_mapping(None, &namespace_uri),
-                    Some(prefix) => as_namespaced.insert_mapping(Some(prefix), &namespace_uri),
-                }?;
-            }
-
-            let mut mut_self = self.borrow_mut();
-            if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                let _safe_to_ignore =
-                    i_attributes.insert(new_attribute.node_name(), new_attribute.clone());
-                {
-                    //
-                    // Add to the owning document's id_map hash
-                    //
-                    let attribute = as_attribute(&new_attribute).unwrap();
-                    let document = attribute.owner_document().unwrap();
-                    let mut mut_document = document.borrow_mut();
-                    let lax =
-                        if let Extension::Document { i_options, .. } = &mut_document.i_extension {
-                            i_options.has_assume_ids()
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                            false
-                        };
-                    if name.is_id_attribute(lax) {
-                        //
-                        // Update the document ID mapping
-                        //
-                        if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension
-                        {
-                            let id_value = attribute.value().unwrap();
-                            if i_id_map.contains_key(&id_value) {
-                                warn!("{}", MSG_DUPLICATE_ID);
-                                return Err(Error::Syntax);
-                            }
-                            let _safe_to_ignore =
-                                i_id_map.insert(id_value, self.clone().downgrade());
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                        }
-                    }
+            {
+                let mut mut_self = self.borrow_mut();
+                if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
+                    let _safe_to_ignore = i_attributes.insert(name, new_attribute.clone());
+                } else {
+                    warn!("{}", MSG_INVALID_EXTENSION);
+                    return Err(Error::Syntax);
                 }
-                Ok(new_attribute)
-            } else {
-                warn!("{}", MSG_INVALID_EXTENSION);
-                Err(Error::Syntax)
             }
+            register_attribute(self, &new_attribute);
+            Ok(new_attribute)
         } else {
             warn!("{}", MSG_INVALID_NODE_TYPE);
             Err(Error::InvalidState)
@@ -525,14 +505,22 @@ impl Element for RefNode {
 
     fn remove_attribute_node(&mut self, old_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) {
+            if !self.attributes().values().any(|node| node == &old_attribute) {
+                warn!("remove_attribute_node: not an attribute of this element");
+                return Err(Error::NotFound);
+            }
+            unregister_attribute(self, &old_attribute);
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
                 let _safe_to_ignore = i_attributes.remove(&old_attribute.node_name());
                 let mut_old = old_attribute.clone();
                 let mut mut_old = mut_old.borrow_mut();
-                mut_old.i_parent_node = None;
-                // TODO: remove from Element::namespaces
-                // TODO: remove from Document::id_map
+                if let Extension::Attribute {
+                    i_owner_element, ..
+                } = &mut mut_old.i_extension
+                {
+                    *i_owner_element = None;
+                }
                 Ok(old_attribute)
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
@@ -578,9 +566,11 @@ impl Element for RefNode {
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-            NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
+            NodeImpl::new_attribute(document.clone(), attr_name, None)
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        let mut attr_node = RefNode::new(attr_node);
+        attr_node.set_value(value)?;
+        self.set_attribute_node(attr_node).map(|_| ())
     }
 
     fn remove_attribute_ns(&mut self, namespace_uri: &str, local_name: &str) -> Result<()> {
@@ -1153,6 +1143,117 @@ fn namespaced_name_match(
     }
 }
 
+///
+/// The normalized, but not escaped, value of an attribute.
+///
+fn attribute_value(attribute: &RefNode) -> Option<String> {
+    if attribute.has_child_nodes() {
+        let mut result = String::new();
+        for child_node in attribute.child_nodes() {
+            if child_node.node_type() == NodeType::EntityReference {
+                if let Some(value) = child_node.node_value() {
+                    result.push_str(&value);
+                }
+            } else if child_node.node_type() == NodeType::Text {
+                //
+                // Do not use the Text::data function as this will escape the response.
+                //
+                let ref_node = child_node.borrow();
+                if let Some(data) = &ref_node.i_value {
+                    result.push_str(data);
+                }
+            }
+        }
+        Some(text::normalize_attribute_value(&result, attribute, true))
+    } else {
+        None
+    }
+}
+
+fn remove_all_children(node: &RefNode) {
+    for child_node in node.borrow_mut().i_child_nodes.drain(..) {
+        child_node.borrow_mut().i_parent_node = None;
+    }
+}
+
+///
+/// Is this the name of an attribute that is an ID in the document that owns `element`?
+///
+fn is_id_name(element: &RefNode, name: &Name) -> bool {
+    let lax = match element.owner_document() {
+        None => false,
+        Some(document) => match &document.borrow().i_extension {
+            Extension::Document { i_options, .. } => i_options.has_assume_ids(),
+            _ => false,
+        },
+    };
+    name.is_id_attribute(lax)
+}
+
+///
+/// CHECK: Raise `Error::Syntax` if setting this attribute would give `element` the ID of another
+/// element.
+///
+fn check_unique_id(element: &RefNode, name: &Name, value: &str) -> Result<()> {
+    if is_id_name(element, name) {
+        let other = element
+            .owner_document()
+            .and_then(|document| document.get_element_by_id(value));
+        if other.is_some() && other.as_ref() != Some(element) {
+            warn!("{}", MSG_DUPLICATE_ID);
+            return Err(Error::Syntax);
+        }
+    }
+    Ok(())
+}
+
+///
+/// Add to the element's namespace mapping, and to the owning document's ID mapping.
+///
+fn register_attribute(element: &RefNode, attribute: &RefNode) {
+    let name = attribute.node_name();
+    let value = match attribute_value(attribute) {
+        None => return,
+        Some(value) => value,
+    };
+    if name.is_namespace_attribute() {
+        let prefix = name.prefix().as_ref().map(|_| name.local_name().as_str());
+        let _safe_to_ignore = element.clone().insert_mapping(prefix, &value);
+    }
+    if is_id_name(element, &name) {
+        if let Some(document) = element.owner_document() {
+            if let Extension::Document { i_id_map, .. } = &mut document.borrow_mut().i_extension {
+                let _safe_to_ignore = i_id_map.insert(value, element.clone().downgrade());
+            }
+        }
+    }
+}
+
+///
+/// Undo `register_attribute`.
+///
+fn unregister_attribute(element: &RefNode, attribute: &RefNode) {
+    let name = attribute.node_name();
+    let value = match attribute_value(attribute) {
+        None => return,
+        Some(value) => value,
+    };
+    if name.is_namespace_attribute() {
+        let prefix = name.prefix().as_ref().map(|_| name.local_name().as_str());
+        let _safe_to_ignore = element.clone().remove_mapping(prefix);
+    }
+    if is_id_name(element, &name) {
+        if let Some(document) = element.owner_document() {
+            if document.get_element_by_id(&value).as_ref() == Some(element) {
+                if let Extension::Document { i_id_map, .. } = &mut document.borrow_mut().i_extension
+                {
+                    let _safe_to_ignore = i_id_map.remove(&value);
+                }
+            }
+        }
+    }
+}
+
 ///
 /// The matching elements, in preorder, in the tree below and including `node`.
 ///
-- 
2.43.0


From 2e17c3c82987e33463355ddeca1694194b681dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 10/26] fix: leave a reference to a code that is not a
 character as it is

---
 src/shared/text.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index b985ae3..37a3b46 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -222,13 +222,18 @@ fn char_from_entity(entity: impl AsRef<str>) -> String {
     assert!(entity.ends_with(';'));
     let code_point = if &entity[2..3] == "x" {
         let code_point = &entity[3..entity.len() - 1];
-        u32::from_str_radix(code_point, 16).unwrap()
+        u32::from_str_radix(code_point, 16)
     } else {
         let code_point = &entity[2..entity.len() - 1];
-        code_point.parse::<u32>().unwrap()
+        code_point.parse::<u32>()
     };
-    let character = char::try_from(code_point).unwrap();
-    character.to_string()
+    //
+    // A reference to something that is not a character is left as it is.
+    //
+    match code_point.ok().and_then(|c| char::try_from(c).ok()) {
+        None => entity.to_string(),
+        Some(character) => character.to_string(),
+    }
 }
 
 ///
-- 
2.43.0


From a872d05dd6093f793ad06bb7c05d5da0adceff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 11/26] fix: resolve entities by name, and do not panic when
 one is not declared

---
 src/level2/entity_resolver.rs | 46 ++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/level2/entity_resolver.rs b/src/level2/entity_resolver.rs
index 3f633d4..066d120 100644
--- a/src/level2/entity_resolver.rs
+++ b/src/level2/entity_resolver.rs
@@ -4,7 +4,8 @@ Implementation of `EntityResolver` that navigates the `Document` structure.
 
 use crate::level2::convert::{as_document, as_document_type};
 use crate::level2::{Name, Node, NodeType, RefNode};
-use crate::shared::text::EntityResolver;
+use crate::shared::syntax::*;
+use crate::shared::text::{to_entity, EntityResolver};
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -12,7 +13,15 @@ use std::str::FromStr;
 // ------------------------------------------------------------------------------------------------
 
 impl EntityResolver for RefNode {
+    ///
+    /// The replacement text for an entity reference such as `&name;`. Without a declaration for the
+    /// entity the reference is left as it is, as a non-validating processor may do.
+    ///
     fn resolve(&self, entity: &str) -> Option<String> {
+        let name = entity.get(1..entity.len() - 1)?;
+        if let (true, Some(character)) = (entity.starts_with('&'), predefined_entity(name)) {
+            return Some(to_entity(character));
+        }
         let doc_type = match self.node_type() {
             NodeType::DocumentType => Some(self.clone()),
             NodeType::Document => {
@@ -27,16 +36,29 @@ impl EntityResolver for RefNode {
                 }
             },
         };
-        match doc_type {
-            None => None,
-            Some(doc_type) => {
-                let doc_type = as_document_type(&doc_type).unwrap();
-                let name = Name::from_str(entity).unwrap();
-                match doc_type.entities().get(&name) {
-                    None => None,
-                    Some(entity) => entity.node_value(),
-                }
-            }
-        }
+        let declared = doc_type.and_then(|doc_type| {
+            let doc_type = as_document_type(&doc_type).ok()?;
+            let name = Name::from_str(name).ok()?;
+            doc_type.entities().get(&name)?.node_value()
+        });
+        declared.or_else(|| {
+            let start = entity.chars().next()?;
+            Some(format!("{}{}", to_entity(start), &entity[1..]))
+        })
+    }
+}
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn predefined_entity(name: &str) -> Option<char> {
+    match name {
+        "amp" => Some(XML_ESC_AMP_CHAR),
+        "apos" => Some(XML_ESC_APOS_CHAR),
+        "gt" => Some(XML_ESC_GT_CHAR),
+        "lt" => Some(XML_ESC_LT_CHAR),
+        "quot" => Some(XML_ESC_QUOT_CHAR),
+        _ => None,
     }
 }
-- 
2.43.0


From 94e72f2cbb4a6d8c735c39253ec654cc8da2ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 12/26] fix: a clone owns its attributes, and is the parent of
 its children

---
 src/level2/node_impl.rs   | 11 +++++++----
 src/level2/trait_impls.rs | 17 ++++++++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 1346e7a..7174cc6 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -308,8 +308,8 @@ impl NodeImpl {
     pub(crate) fn clone_node(&self, deep: bool) -> Self {
         let extension = match &self.i_extension {
             Extension::None => Extension::None,
-            Extension::Attribute { i_owner_element } => Extension::Attribute {
-                i_owner_element: i_owner_element.clone(),
+            Extension::Attribute { .. } => Extension::Attribute {
+                i_owner_element: None,
             },
             Extension::Document {
                 i_implementation,
@@ -341,7 +341,10 @@ impl NodeImpl {
                 i_attributes,
                 i_namespaces,
             } => Extension::Element {
-                i_attributes: i_attributes.clone(),
+                i_attributes: i_attributes
+                    .iter()
+                    .map(|(name, node)| (name.clone(), node.clone_node(true).unwrap()))
+                    .collect(),
                 i_namespaces: i_namespaces.clone(),
             },
             entity @ Extension::Entity { .. } => entity.clone(),
@@ -353,7 +356,7 @@ impl NodeImpl {
             i_value: self.i_value.clone(),
             i_parent_node: None,
             i_owner_document: self.i_owner_document.clone(),
-            i_child_nodes: if deep {
+            i_child_nodes: if deep || self.i_node_type == NodeType::Attribute {
                 self.i_child_nodes
                     .iter()
                     .map(|node| node.clone_node(deep).unwrap())
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 539b20c..43489b0 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -983,9 +983,20 @@ impl Node for RefNode {
     }
 
     fn clone_node(&self, deep: bool) -> Option<RefNode> {
-        let ref_self = self.borrow();
-        let new_node = ref_self.clone_node(deep);
-        Some(RefNode::new(new_node))
+        let new_node = RefNode::new(self.borrow().clone_node(deep));
+        for child_node in new_node.child_nodes() {
+            child_node.borrow_mut().i_parent_node = Some(new_node.clone().downgrade());
+        }
+        if is_element(&new_node) {
+            for attribute in new_node.attributes().values() {
+                if let Extension::Attribute { i_owner_element } =
+                    &mut attribute.borrow_mut().i_extension
+                {
+                    *i_owner_element = Some(new_node.clone().downgrade());
+                }
+            }
+        }
+        Some(new_node)
     }
 
     fn normalize(&mut self) {
-- 
2.43.0


From 39c5c52d2059702c7fae52fda2406d801fab38b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 13/26] fix: normalize the full depth of the tree, and
 attributes

---
 src/level2/trait_impls.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 43489b0..fd75a22 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1000,9 +1000,18 @@ impl Node for RefNode {
     }
 
     fn normalize(&mut self) {
-        for child_node in self.child_nodes() {
+        for attribute in self.attributes().into_values() {
+            attribute.clone().normalize();
+        }
+        for mut child_node in self.child_nodes() {
             if is_text(&child_node) {
                 if CharacterData::length(&child_node) == 0 {
+                    //
+                    // An attribute keeps its only child, as its value is empty and not absent.
+                    //
+                    if is_attribute(self) && self.child_nodes().len() == 1 {
+                        continue;
+                    }
                     if self.remove_child(child_node).is_err() {
                         panic!("Could not remove unnecessary text node");
                     }
@@ -1020,6 +1029,8 @@ impl Node for RefNode {
                         }
                     }
                 }
+            } else {
+                child_node.normalize();
             }
         }
     }
-- 
2.43.0


From a1dab2a6e363b435f1d4ed76332464029af58fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 14/26] fix: a document type belongs to the one document it is
 used with

---
 src/level2/trait_impls.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index fd75a22..b49e7f8 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1472,7 +1472,14 @@ pub(crate) fn create_document_with_options(
     doc_type: Option<RefNode>,
     options: ProcessingOptions,
 ) -> Result<RefNode> {
-    let node_impl = NodeImpl::new_document(doc_type, options);
+    if let Some(doc_type) = &doc_type {
+        if doc_type.borrow().i_owner_document.is_some() {
+            warn!("create_document: doc_type has been used with a different document");
+            return Err(Error::WrongDocument);
+        }
+    }
+
+    let node_impl = NodeImpl::new_document(doc_type.clone(), options);
     let mut document_node = RefNode::new(node_impl);
 
     //
@@ -1498,5 +1505,9 @@ pub(crate) fn create_document_with_options(
         let _safe_to_ignore = document.append_child(element_node)?;
     }
 
+    if let Some(doc_type) = doc_type {
+        doc_type.borrow_mut().i_owner_document = Some(document_node.clone().downgrade());
+    }
+
     Ok(document_node)
 }
-- 
2.43.0


From ae3aab70ec41f0b3aaa2bbb51ab873e8ac0e0bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 15/26] fix: setting the value of a node that cannot have one
 has no effect

---
 src/level2/trait_impls.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index b49e7f8..405ca50 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -717,13 +717,17 @@ impl Node for RefNode {
 
     fn set_node_value(&mut self, value: &str) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        mut_self.i_value = Some(value.to_string());
+        if has_node_value(&mut_self.i_node_type) {
+            mut_self.i_value = Some(value.to_string());
+        }
         Ok(())
     }
 
     fn unset_node_value(&mut self) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        mut_self.i_value = None;
+        if has_node_value(&mut_self.i_node_type) {
+            mut_self.i_value = None;
+        }
         Ok(())
     }
 
@@ -1137,6 +1141,20 @@ fn data_range(data: &str, offset: usize, count: usize) -> Result<Range<usize>> {
     }
 }
 
+///
+/// Setting the value of a node has no effect if, for the type of the node, it is always `None`.
+///
+fn has_node_value(node_type: &NodeType) -> bool {
+    matches!(
+        node_type,
+        NodeType::Attribute
+            | NodeType::CData
+            | NodeType::Comment
+            | NodeType::ProcessingInstruction
+            | NodeType::Text
+    )
+}
+
 const WILD_CARD: &str = "*";
 
 fn tag_name_match(test: &str, against: &str) -> bool {
-- 
2.43.0


From bb8f8153b7113d235268799622f60b19b01e8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 16/26] fix: check the prefix that a name is given

---
 src/shared/name.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared/name.rs b/src/shared/name.rs
index 3d69425..f511c9a 100644
--- a/src/shared/name.rs
+++ b/src/shared/name.rs
@@ -375,7 +375,12 @@ impl Name {
     /// Set this name's prefix.
     ///
     pub fn set_prefix(&mut self, new_prefix: Option<&str>) -> Result<()> {
-        self.prefix = new_prefix.map(String::from);
+        let new_prefix = new_prefix.map(Self::check_part).transpose()?;
+        if let Some(namespace_uri) = &self.namespace_uri {
+            let _safe_to_ignore =
+                Self::check_namespace_uri(namespace_uri, &new_prefix, &self.local_name)?;
+        }
+        self.prefix = new_prefix;
         Ok(())
     }
 }
-- 
2.43.0


From 60cca3367ad1b11e9ff40224f5a3c9b8ebbc2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 17/26] fix: setting an attribute by name finds it whatever its
 namespace

---
 src/level2/trait_impls.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 405ca50..aeeaf1b 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -395,6 +395,9 @@ impl Element for RefNode {
 
     fn set_attribute(&mut self, name: &str, value: &str) -> Result<()> {
         let attr_name = Name::from_str(name)?;
+        if let Some(mut attribute) = self.get_attribute_node(name) {
+            return attribute.set_value(value);
+        }
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
@@ -458,14 +461,16 @@ impl Element for RefNode {
             }
 
             //
-            // The new attribute replaces one with the same name, or one with the same namespace
-            // and local name but a different prefix.
+            // The new attribute replaces one with the same namespace and local name, or, if it has
+            // no namespace, one with the same qualified name.
             //
             let replaced = self.attributes().into_iter().find(|(other, _)| {
-                other == &name
-                    || (name.namespace_uri().is_some()
-                        && other.namespace_uri() == name.namespace_uri()
-                        && other.local_name() == name.local_name())
+                if name.namespace_uri().is_some() {
+                    other.namespace_uri() == name.namespace_uri()
+                        && other.local_name() == name.local_name()
+                } else {
+                    other.to_string() == name.to_string()
+                }
             });
             if let Some((_, replaced)) = replaced {
                 let _safe_to_ignore = self.remove_attribute_node(replaced)?;
-- 
2.43.0


From 9ba82b370160750dad6dad84e659a9e48cba47be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 18/26] fix: a prefix has no colon

---
 src/shared/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/name.rs b/src/shared/name.rs
index f511c9a..5cfc714 100644
--- a/src/shared/name.rs
+++ b/src/shared/name.rs
@@ -171,7 +171,7 @@ impl Name {
         let part = part.as_ref();
         if part.is_empty() {
             Err(Error::Syntax)
-        } else if is_xml_name(part) {
+        } else if is_xml_name(part) && !part.contains(XML_NS_SEPARATOR) {
             Ok(part.to_string())
         } else {
             Err(Error::InvalidCharacter)
-- 
2.43.0


From 00ab3affe2b5c572d63828e15976a6ffb69b9979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:41 +0000
Subject: [PATCH 19/26] fix: an entity reference in an attribute contributes
 its replacement text

---
 src/level2/trait_impls.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index aeeaf1b..df6f8d7 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1196,9 +1196,8 @@ fn attribute_value(attribute: &RefNode) -> Option<String> {
         let mut result = String::new();
         for child_node in attribute.child_nodes() {
             if child_node.node_type() == NodeType::EntityReference {
-                if let Some(value) = child_node.node_value() {
-                    result.push_str(&value);
-                }
+                // The reference is resolved when the value is normalized.
+                result.push_str(&child_node.to_string());
             } else if child_node.node_type() == NodeType::Text {
                 //
                 // Do not use the Text::data function as this will escape the response.
-- 
2.43.0


From 3e65d533091172beba3cff4acbd758e802d68d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 20/26] fix: refuse to change a node through the interface of
 another type of node

---
 src/level2/trait_impls.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index df6f8d7..9ff9477 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -79,9 +79,11 @@ impl Attribute for RefNode {
     // text. See also the method `setAttribute` on the `Element` interface.
     //
     fn value(&self) -> Option<String> {
+        check_node_type(self, is_attribute).ok()?;
         attribute_value(self).map(text::escape)
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
+        check_node_type(self, is_attribute)?;
         let text_node = {
             let ref_self = self.borrow();
             let document = ref_self.i_owner_document.as_ref().unwrap();
@@ -101,6 +103,7 @@ impl Attribute for RefNode {
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
+        check_node_type(self, is_attribute)?;
         if let Some(element) = self.owner_element() {
             unregister_attribute(&element, self);
         }
@@ -136,6 +139,7 @@ impl CDataSection for RefNode {}
 
 impl CharacterData for RefNode {
     fn substring_data(&self, offset: usize, count: usize) -> Result<String> {
+        check_node_type(self, is_character_data)?;
         let ref_self = self.borrow();
         let data = ref_self.i_value.as_deref().unwrap_or_default();
         let range = data_range(data, offset, count)?;
@@ -143,6 +147,7 @@ impl CharacterData for RefNode {
     }
 
     fn append_data(&mut self, new_data: &str) -> Result<()> {
+        check_node_type(self, is_character_data)?;
         if new_data.is_empty() {
             return Ok(());
         }
@@ -164,6 +169,7 @@ impl CharacterData for RefNode {
     }
 
     fn replace_data(&mut self, offset: usize, count: usize, replace_data: &str) -> Result<()> {
+        check_node_type(self, is_character_data)?;
         let mut mut_self = self.borrow_mut();
         let mut new_data = mut_self.i_value.clone().unwrap_or_default();
         let range = data_range(&new_data, offset, count)?;
@@ -394,6 +400,7 @@ impl Element for RefNode {
     }
 
     fn set_attribute(&mut self, name: &str, value: &str) -> Result<()> {
+        check_node_type(self, is_element)?;
         let attr_name = Name::from_str(name)?;
         if let Some(mut attribute) = self.get_attribute_node(name) {
             return attribute.set_value(value);
@@ -567,6 +574,7 @@ impl Element for RefNode {
         qualified_name: &str,
         value: &str,
     ) -> Result<()> {
+        check_node_type(self, is_element)?;
         let attr_name = Name::new_ns(namespace_uri, qualified_name)?;
         let attr_node = {
             let ref_self = &self.borrow_mut();
@@ -1146,6 +1154,18 @@ fn data_range(data: &str, offset: usize, count: usize) -> Result<Range<usize>> {
     }
 }
 
+///
+/// It is an error to change a node through the interface of another type of node.
+///
+fn check_node_type(node: &RefNode, is_type: fn(&RefNode) -> bool) -> Result<()> {
+    if is_type(node) {
+        Ok(())
+    } else {
+        warn!("{}", MSG_INVALID_NODE_TYPE);
+        Err(Error::InvalidState)
+    }
+}
+
 ///
 /// Setting the value of a node has no effect if, for the type of the node, it is always `None`.
 ///
-- 
2.43.0


From 7d031a9d5aebf3176394d37d72ca8533e698c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:58 +0000
Subject: [PATCH 21/26] fix: a qualified name is not a local name when asking
 for an attribute

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 9ff9477..d725eff 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -674,7 +674,7 @@ impl Element for RefNode {
                     if let Extension::Element { i_attributes, .. } = &ref_self.i_extension {
                         i_attributes.keys().any(|n| {
                             n.namespace_uri() == name.namespace_uri()
-                                && n.local_name() == name.local_name()
+                                && n.local_name() == local_name
                         })
                     } else {
                         warn!("{}", MSG_INVALID_EXTENSION);
-- 
2.43.0


From f78618c515eaeaddee83273e8f74a518caa1ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 22/26] fix: build with the quick_parser feature and quick-xml
 0.34

---
 src/parser/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d4e04be..ae11970 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,7 @@ use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
-use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesStart, BytesText, Event};
+use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
 use std::borrow::Borrow;
 use std::io::BufRead;
@@ -90,7 +90,7 @@ impl<T> From<Error> for Result<T> {
 // ------------------------------------------------------------------------------------------------
 
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
-    let _safe_to_ignore = reader.trim_text(true);
+    reader.config_mut().trim_text(true);
 
     let mut event_buffer: Vec<u8> = Vec::new();
 
@@ -259,7 +259,7 @@ fn handle_start<T: BufRead>(
 
     for attribute in ev.attributes() {
         let attribute = attribute.unwrap();
-        let value = attribute.decode_and_unescape_value(reader)?;
+        let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
@@ -328,13 +328,13 @@ fn handle_cdata<T: BufRead>(
 }
 
 fn handle_pi<T: BufRead>(
-    _reader: &mut Reader<T>,
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
-    ev: BytesText<'_>,
+    ev: BytesPI<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = ev.unescape()?;
+    let text = reader.decoder().decode(&ev)?;
     let parts = text.splitn(2, ' ').collect::<Vec<&str>>();
     let (target, data) = match parts.len() {
         1 => (parts[0].to_string(), None),
-- 
2.43.0


From 6939c831ac383674c71951178f4ca6c67bfcf48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 23/26] fix: reading malformed text gives an error, not a panic
 or a partial document

---
 src/level2/ext/decl.rs |  2 +-
 src/parser/mod.rs      | 64 ++++++++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/level2/ext/decl.rs b/src/level2/ext/decl.rs
index b64e5d3..26094ba 100644
--- a/src/level2/ext/decl.rs
+++ b/src/level2/ext/decl.rs
@@ -68,7 +68,7 @@ fn is_encoding_sub_string(s: &str) -> bool {
     s.chars().all(is_encoding_rest_char)
 }
 
-fn is_encoding(s: &str) -> bool {
+pub(crate) fn is_encoding(s: &str) -> bool {
     !s.is_empty()
         && s.starts_with(is_encoding_start_char)
         && s[1..].split(ENCODING_SEP_CHAR).all(is_encoding_sub_string)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ae11970..7d74980 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -18,7 +18,8 @@ assert!(dom.is_ok());
 
 */
 
-use crate::level2::convert::as_document_mut;
+use crate::level2::convert::{as_document, as_document_mut};
+use crate::level2::ext::decl::is_encoding;
 use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
@@ -125,28 +126,25 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
     loop {
         match reader.read_event_into(event_buffer) {
             Ok(Event::Decl(ev)) => {
+                let has_content = document.has_child_nodes();
                 let mut mut_document = document.borrow_mut();
                 if let Extension::Document {
                     i_xml_declaration, ..
                 } = &mut mut_document.i_extension
                 {
-                    if i_xml_declaration.is_some() {
+                    if i_xml_declaration.is_some() || has_content {
                         error!("XML declaration must be first");
                         return Error::Malformed.into();
                     } else {
                         let (version, encoding, standalone) = make_decl(reader, ev)?;
-                        *i_xml_declaration = Some(XmlDecl::new(
-                            XmlVersion::from_str(&version).unwrap(),
-                            encoding,
-                            standalone,
-                        ));
+                        *i_xml_declaration = Some(XmlDecl::new(version, encoding, standalone));
                     }
                 }
             }
             Ok(Event::Start(ev)) => {
                 let mut new_element = handle_start(reader, &mut document, None, ev)?;
                 let _safe_to_ignore =
-                    element(reader, event_buffer, &mut document, &mut new_element);
+                    element(reader, event_buffer, &mut document, &mut new_element)?;
             }
             Ok(Event::Empty(ev)) => {
                 let _safe_to_ignore = handle_start(reader, &mut document, None, ev)?;
@@ -171,7 +169,15 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
             //     }
             //     prolog_pre_nodes.push(make_doc_type(reader, ev)?);
             // }
-            Ok(Event::Eof) => return Ok(document),
+            Ok(Event::Eof) => {
+                let root = as_document(&document).unwrap().document_element();
+                return if root.is_some() {
+                    Ok(document)
+                } else {
+                    error!("A document must have an element");
+                    Error::Malformed.into()
+                };
+            }
             Ok(ev) => {
                 error!("Unexpected parser event: {:?}", ev);
                 return Error::Malformed.into();
@@ -249,7 +255,7 @@ fn handle_start<T: BufRead>(
     let mut element = {
         let mut_document = as_document_mut(document).unwrap();
         let name = reader.decoder().decode(ev.name().into_inner())?;
-        let new_node = mut_document.create_element(&name).unwrap();
+        let new_node = mut_document.create_element(&name)?;
         let mut actual_parent = match parent_node {
             None => document.clone(),
             Some(actual) => actual.clone(),
@@ -258,7 +264,7 @@ fn handle_start<T: BufRead>(
     };
 
     for attribute in ev.attributes() {
-        let attribute = attribute.unwrap();
+        let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
@@ -319,7 +325,7 @@ fn handle_cdata<T: BufRead>(
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
     let text = make_cdata(reader, ev)?;
-    let new_node = mut_document.create_cdata_section(text.as_ref()).unwrap();
+    let new_node = mut_document.create_cdata_section(text.as_ref())?;
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
@@ -335,7 +341,7 @@ fn handle_pi<T: BufRead>(
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
     let text = reader.decoder().decode(&ev)?;
-    let parts = text.splitn(2, ' ').collect::<Vec<&str>>();
+    let parts = text.splitn(2, [' ', '\t', '\r', '\n']).collect::<Vec<&str>>();
     let (target, data) = match parts.len() {
         1 => (parts[0].to_string(), None),
         2 => {
@@ -349,12 +355,8 @@ fn handle_pi<T: BufRead>(
         _ => return Error::Malformed.into(),
     };
     let new_node = match data {
-        None => mut_document
-            .create_processing_instruction(&target, None)
-            .unwrap(),
-        Some(s) => mut_document
-            .create_processing_instruction(&target, Some(s.as_str()))
-            .unwrap(),
+        None => mut_document.create_processing_instruction(&target, None)?,
+        Some(s) => mut_document.create_processing_instruction(&target, Some(s.as_str()))?,
     };
     let actual_parent = match parent_node {
         None => document,
@@ -378,24 +380,32 @@ fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<
 fn make_decl<T: BufRead>(
     reader: &mut Reader<T>,
     ev: BytesDecl<'_>,
-) -> Result<(String, Option<String>, Option<bool>)> {
-    let version = ev.version().unwrap();
+) -> Result<(XmlVersion, Option<String>, Option<bool>)> {
+    let version = ev.version()?;
     let version = version.borrow();
-    let version = reader.decoder().decode(version).unwrap();
+    let version = reader.decoder().decode(version)?;
     let version = unquote(version.to_string())?;
+    let version = XmlVersion::from_str(&version).map_err(|_| Error::Malformed)?;
     let encoding = if let Some(ev_value) = ev.encoding() {
-        let encoding = ev_value.unwrap();
+        let encoding = ev_value.map_err(quick_xml::Error::from)?;
         let encoding = encoding.borrow();
-        let encoding = reader.decoder().decode(encoding).unwrap();
+        let encoding = reader.decoder().decode(encoding)?;
+        if !is_encoding(&encoding) {
+            return Error::Malformed.into();
+        }
         Some(encoding.to_string())
     } else {
         None
     };
     let standalone = if let Some(ev_value) = ev.standalone() {
-        let standalone = ev_value.unwrap();
+        let standalone = ev_value.map_err(quick_xml::Error::from)?;
         let standalone = standalone.borrow();
-        let standalone = reader.decoder().decode(standalone).unwrap();
-        Some(standalone == "yes")
+        let standalone = reader.decoder().decode(standalone)?;
+        match standalone.as_ref() {
+            "yes" => Some(true),
+            "no" => Some(false),
+            _ => return Error::Malformed.into(),
+        }
     } else {
         None
     };
-- 
2.43.0


From a92a872dd91e7cac201a5ef44c002d48a3159c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 24/26] fix: a reference in an attribute value that is read is
 replaced once

---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7d74980..53dd180 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -265,7 +265,9 @@ fn handle_start<T: BufRead>(
 
     for attribute in ev.attributes() {
         let attribute = attribute.map_err(quick_xml::Error::from)?;
-        let value = attribute.decode_and_unescape_value(reader.decoder())?;
+        // references are replaced when the value is asked for, so only check them here
+        let _safe_to_ignore = attribute.decode_and_unescape_value(reader.decoder())?;
+        let value = reader.decoder().decode(&attribute.value)?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
-- 
2.43.0


From 59db35ce27f1cf6d4e29f7b3a77faa0955c086be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:46 +0000
Subject: [PATCH 25/26] fix: text of a source read in parts is not lost

---
 src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 53dd180..1ef050b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -76,8 +76,13 @@ pub fn read_xml(xml: impl AsRef<str>) -> Result<RefNode> {
 /// Parse the provided string into a DOM structure; if the result is OK, the result returned
 /// can be safely assumed to be a `Document` node.
 ///
-pub fn read_reader<B: BufRead>(reader: B) -> Result<RefNode> {
-    inner_read(&mut Reader::from_reader(reader))
+pub fn read_reader<B: BufRead>(mut reader: B) -> Result<RefNode> {
+    // quick-xml drops text that ends where a buffer that the reader returns ends
+    let mut xml: Vec<u8> = Vec::new();
+    let _safe_to_ignore = reader
+        .read_to_end(&mut xml)
+        .map_err(quick_xml::Error::from)?;
+    inner_read(&mut Reader::from_reader(xml.as_slice()))
 }
 
 impl<T> From<Error> for Result<T> {
-- 
2.43.0


From 03420dbb6ba5fd806c8d9c712a3d65595cb9d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:58 +0000
Subject: [PATCH 26/26] fix: nodes of two documents that were both dropped are
 not of the same document

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index d725eff..e7792f9 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1421,7 +1421,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
                 (Some(_), None) => true,
                 (None, Some(_)) => false,
                 (Some(self_document), Some(child_document)) => {
-                    self_document.clone().upgrade() == child_document.clone().upgrade()
+                    self_document.as_inner().ptr_eq(child_document.as_inner())
                 }
             } {
                 warn!("Error::WrongDocument: child could not be added to the current node.");
-- 
2.43.0

