From 10519405db6dda0962169c59cd9e56e598672a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 01/14] fix: keep iterating over the children of a mutable node
 when they are detached

The iterators advanced lazily from the element they had yielded last. When that
element was detached in the meantime it had no siblings any more, so iteration
stopped early: `for c in node.children() { c.detach() }` detached one child, and
`splice_children` deleted only the first child of the range.
---
 src/cursor.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 1288620..c8146c7 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1389,10 +1389,18 @@ impl Iterator for SyntaxNodeChildren {
         if !self.next_initialized {
             self.next = self.parent.first_child();
             self.next_initialized = true;
-        } else {
+        } else if !self.parent.is_mutable() {
             self.next = self.next.take().and_then(|next| next.to_next_sibling());
         }
 
+        if self.parent.is_mutable() {
+            // The yielded element might get detached before the next step, so
+            // move past it right away.
+            let res = self.next.take();
+            self.next = res.as_ref().and_then(|res| res.next_sibling());
+            return res;
+        }
+
         self.next.clone()
     }
 }
@@ -1451,10 +1459,18 @@ impl Iterator for SyntaxElementChildren {
         if !self.next_initialized {
             self.next = self.parent.first_child_or_token();
             self.next_initialized = true;
-        } else {
+        } else if !self.parent.is_mutable() {
             self.next = self.next.take().and_then(|next| next.to_next_sibling_or_token());
         }
 
+        if self.parent.is_mutable() {
+            // The yielded element might get detached before the next step, so
+            // move past it right away.
+            let res = self.next.take();
+            self.next = res.as_ref().and_then(|res| res.next_sibling_or_token());
+            return res;
+        }
+
         self.next.clone()
     }
 }
-- 
2.43.0


From 263d72bf6afa09b98d9b42d7ba53a2ee9858eec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 02/14] fix: refuse an insertion out of bounds before changing
 anything

`attach_child` linked the child and took over its green node before the green
`insert_child` noticed that the index was out of bounds and panicked. The green
node was then freed although the child still pointed to it.
---
 src/cursor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index c8146c7..c625bb0 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -964,11 +964,17 @@ impl SyntaxNode {
 
     fn attach_child(&self, index: usize, child: SyntaxElement) {
         assert!(self.data().mutable, "immutable tree: {}", self);
-        child.detach();
         let data = match &child {
             NodeOrToken::Node(it) => it.data(),
             NodeOrToken::Token(it) => it.data(),
         };
+        let mut len = self.green_ref().children().len();
+        if data.parent.get() == Some(self.ptr) {
+            // Going to be detached.
+            len -= 1;
+        }
+        assert!(index <= len, "index out of bounds: the len is {} but the index is {}", len, index);
+        child.detach();
         self.data().attach_child(index, data)
     }
 }
-- 
2.43.0


From b8daddf7262b7152af43e40ef2f2e0b7c3a3eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 03/14] fix: refuse to insert a node into its own subtree

The result was a cycle of parents, and `respine` looped forever in it.
---
 src/cursor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index c625bb0..f079877 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -968,6 +968,10 @@ impl SyntaxNode {
             NodeOrToken::Node(it) => it.data(),
             NodeOrToken::Token(it) => it.data(),
         };
+        assert!(
+            !self.ancestors().any(|it| ptr::eq(it.data(), data)),
+            "can't insert a node into its own subtree"
+        );
         let mut len = self.green_ref().children().len();
         if data.parent.get() == Some(self.ptr) {
             // Going to be detached.
-- 
2.43.0


From 4b3dceb4d9d936722424896db3ab990826713887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 04/14] fix: don't leak a root that is asked for its next
 sibling

`to_next_sibling` and `to_next_sibling_or_token` returned early after taking the
pointer out of an unshared root, and so never released it.
---
 src/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index f079877..56141aa 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -599,7 +599,7 @@ impl SyntaxNode {
 
     #[inline]
     fn can_take_ptr(&self) -> bool {
-        self.data().rc.get() == 1 && !self.data().mutable
+        self.data().rc.get() == 1 && !self.data().mutable && self.data().parent().is_some()
     }
 
     #[inline]
@@ -1002,7 +1002,7 @@ impl SyntaxToken {
 
     #[inline]
     fn can_take_ptr(&self) -> bool {
-        self.data().rc.get() == 1 && !self.data().mutable
+        self.data().rc.get() == 1 && !self.data().mutable && self.data().parent().is_some()
     }
 
     #[inline]
-- 
2.43.0


From 00a9000a18b58cfbedbd704d63ca5dd53a3daca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 05/14] fix: don't yield a child again when filtering the
 remaining children by kind

After a call to `next`, `by_kind` started with the element that had just been
yielded, as iterators over an immutable tree remember that one.
---
 src/cursor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 56141aa..8306be0 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1381,7 +1381,8 @@ impl SyntaxNodeChildren {
         } else {
             SyntaxNodeChildrenByKind {
                 next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
+                    // In an immutable tree `next` has been yielded already.
+                    if self.parent.is_mutable() && matcher(node.kind()) {
                         Some(node)
                     } else {
                         node.next_sibling_by_kind(&matcher)
@@ -1451,7 +1452,8 @@ impl SyntaxElementChildren {
         } else {
             SyntaxElementChildrenByKind {
                 next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
+                    // In an immutable tree `next` has been yielded already.
+                    if self.parent.is_mutable() && matcher(node.kind()) {
                         Some(node)
                     } else {
                         node.next_sibling_or_token_by_kind(&matcher)
-- 
2.43.0


From bdf8c828708f4544edc61ba41899092e7070c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 06/14] fix: don't use freed green nodes when a kind matcher
 edits the tree

The lookups by kind iterated over a slice of the green parent while calling
`matcher`. In a mutable tree any edit made by `matcher` replaces, and possibly
frees, the green parent.
---
 src/cursor.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 8306be0..57e7718 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -387,6 +387,13 @@ impl NodeData {
     }
 
     fn next_sibling_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
+        if self.mutable {
+            // `matcher` might edit the tree, don't hold on to green siblings.
+            return iter::successors(self.next_sibling_or_token(), |it| it.next_sibling_or_token())
+                .filter(|it| matcher(it.kind()))
+                .find_map(NodeOrToken::into_node);
+        }
+
         let siblings = self.green_siblings().enumerate();
         let index = self.index() as usize;
 
@@ -430,6 +437,12 @@ impl NodeData {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
+        if self.mutable {
+            // `matcher` might edit the tree, don't hold on to green siblings.
+            return iter::successors(self.next_sibling_or_token(), |it| it.next_sibling_or_token())
+                .find(|it| matcher(it.kind()));
+        }
+
         let siblings = self.green_siblings().enumerate();
         let index = self.index() as usize;
 
@@ -696,6 +709,14 @@ impl SyntaxNode {
     }
 
     pub fn first_child_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
+        if self.is_mutable() {
+            // `matcher` might edit the tree, don't hold on to green children.
+            return self
+                .children_with_tokens()
+                .filter(|it| matcher(it.kind()))
+                .find_map(NodeOrToken::into_node);
+        }
+
         self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
             if !matcher(child.as_ref().kind()) {
                 return None;
@@ -734,6 +755,11 @@ impl SyntaxNode {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
+        if self.is_mutable() {
+            // `matcher` might edit the tree, don't hold on to green children.
+            return self.children_with_tokens().find(|it| matcher(it.kind()));
+        }
+
         self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
             if !matcher(child.as_ref().kind()) {
                 return None;
-- 
2.43.0


From be0402f50106344d55479517803f28f9dd0cbcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 07/14] fix: look past nodes without tokens for the first,
 last, next and previous token

`first_token` and friends only descended into the outermost child, and returned
`None` if that was an empty node, although there was a token behind it.
---
 src/cursor.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 57e7718..da664bf 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -850,10 +850,11 @@ impl SyntaxNode {
     }
 
     pub fn first_token(&self) -> Option<SyntaxToken> {
-        self.first_child_or_token()?.first_token()
+        self.children_with_tokens().find_map(|it| it.first_token())
     }
     pub fn last_token(&self) -> Option<SyntaxToken> {
-        self.last_child_or_token()?.last_token()
+        iter::successors(self.last_child_or_token(), |it| it.prev_sibling_or_token())
+            .find_map(|it| it.last_token())
     }
 
     #[inline]
@@ -1122,22 +1123,20 @@ impl SyntaxToken {
     }
 
     pub fn next_token(&self) -> Option<SyntaxToken> {
-        match self.next_sibling_or_token() {
-            Some(element) => element.first_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.next_sibling_or_token())
-                .and_then(|element| element.first_token()),
-        }
+        let token_beside = |el: SyntaxElement| {
+            iter::successors(el.next_sibling_or_token(), |el| el.next_sibling_or_token())
+                .find_map(|el| el.first_token())
+        };
+        token_beside(self.clone().into())
+            .or_else(|| self.ancestors().find_map(|it| token_beside(it.into())))
     }
     pub fn prev_token(&self) -> Option<SyntaxToken> {
-        match self.prev_sibling_or_token() {
-            Some(element) => element.last_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.prev_sibling_or_token())
-                .and_then(|element| element.last_token()),
-        }
+        let token_beside = |el: SyntaxElement| {
+            iter::successors(el.prev_sibling_or_token(), |el| el.prev_sibling_or_token())
+                .find_map(|el| el.last_token())
+        };
+        token_beside(self.clone().into())
+            .or_else(|| self.ancestors().find_map(|it| token_beside(it.into())))
     }
 
     pub fn detach(&self) {
-- 
2.43.0


From 1536210a92282043111ed807e3b3c5c4695c9c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 08/14] fix: find an empty node by its pointer when it has
 empty neighbours

For an empty range the binary search ends at one of the elements that touch it,
which need not be the one that contains the node.
---
 src/ast.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 292dba9..7dd3741 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -20,7 +20,7 @@ use std::{
     marker::PhantomData,
 };
 
-use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange};
+use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange, WalkEvent};
 
 /// The main trait to go from untyped [`SyntaxNode`] to a typed AST. The
 /// conversion itself has zero runtime cost: AST and syntax nodes have exactly
@@ -100,6 +100,21 @@ impl<L: Language> SyntaxNodePtr<L> {
         if root.parent().is_some() {
             return None;
         }
+        if self.range.is_empty() {
+            // Any number of siblings can touch an empty range.
+            let mut preorder = root.preorder();
+            while let Some(event) = preorder.next() {
+                if let WalkEvent::Enter(it) = event {
+                    if it.text_range() == self.range && it.kind() == self.kind {
+                        return Some(it);
+                    }
+                    if !it.text_range().contains_range(self.range) {
+                        preorder.skip_subtree();
+                    }
+                }
+            }
+            return None;
+        }
         successors(Some(root.clone()), |node| node.child_or_token_at_range(self.range)?.into_node())
             .find(|it| it.text_range() == self.range && it.kind() == self.kind)
     }
-- 
2.43.0


From ba0a77374af80b8cc9db838e744455c82d966e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 09/14] fix: tag the version of the published package, not that
 of xtask

`cargo run -p xtask` sets CARGO_MANIFEST_DIR to the directory of xtask, whose
version is always 0.0.0.
---
 xtask/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtask/src/main.rs b/xtask/src/main.rs
index f14e1ea..55a2d80 100644
--- a/xtask/src/main.rs
+++ b/xtask/src/main.rs
@@ -87,7 +87,8 @@ pub fn section(name: &'static str) -> Section {
 
 pub fn cargo_toml() -> Result<CargoToml> {
     let manifest_dir = env::var("CARGO_MANIFEST_DIR")?;
-    let path = PathBuf::from(manifest_dir).join("Cargo.toml");
+    // The package to publish is the one at the workspace root, not xtask itself.
+    let path = PathBuf::from(manifest_dir).join("../Cargo.toml");
     let contents = std::fs::read_to_string(&path)?;
     Ok(CargoToml { path, contents })
 }
-- 
2.43.0


From 49218f849bcf34b1ed94f95215d1c21208cbc990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 10/14] fix: share the parents of an empty node of kind 0

Such a node hashes to 0, which is also the mark of a node that is not cached, so
nodes that contained one were never taken from the cache.
---
 src/green/node_cache.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/green/node_cache.rs b/src/green/node_cache.rs
index 89740bf..337cd10 100644
--- a/src/green/node_cache.rs
+++ b/src/green/node_cache.rs
@@ -56,7 +56,12 @@ fn node_hash(node: &GreenNodeData) -> u64 {
         }
         .hash(&mut h)
     }
-    h.finish()
+    non_zero(h.finish())
+}
+
+/// Zero is the hash of the nodes which are not cached.
+fn non_zero(hash: u64) -> u64 {
+    hash.max(1)
 }
 
 fn element_id(elem: GreenElementRef<'_>) -> *const () {
@@ -93,7 +98,7 @@ impl NodeCache {
                 }
                 hash.hash(&mut h);
             }
-            h.finish()
+            non_zero(h.finish())
         };
 
         // Green nodes are fully immutable, so it's ok to deduplicate them.
-- 
2.43.0


From d1eecfc25ea74ba2368927a807833886401fbe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 11/14] fix: skip a subtree whose first child has been detached

---
 src/cursor.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index da664bf..de64479 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1530,13 +1530,15 @@ impl<F: Fn(SyntaxKind) -> bool> Iterator for SyntaxElementChildrenByKind<F> {
 pub struct Preorder {
     start: SyntaxNode,
     next: Option<WalkEvent<SyntaxNode>>,
+    // The node yielded last, if it was entered.
+    entered: Option<SyntaxNode>,
     skip_subtree: bool,
 }
 
 impl Preorder {
     fn new(start: SyntaxNode) -> Preorder {
         let next = Some(WalkEvent::Enter(start.clone()));
-        Preorder { start, next, skip_subtree: false }
+        Preorder { start, next, entered: None, skip_subtree: false }
     }
 
     pub fn skip_subtree(&mut self) {
@@ -1545,10 +1547,12 @@ impl Preorder {
 
     #[cold]
     fn do_skip(&mut self) {
-        self.next = self.next.take().map(|next| match next {
-            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent().unwrap()),
-            WalkEvent::Leave(parent) => WalkEvent::Leave(parent),
-        })
+        self.next = match (self.entered.take(), self.next.take()) {
+            // The first child might no longer be a child.
+            (Some(node), _) => Some(WalkEvent::Leave(node)),
+            (None, Some(WalkEvent::Enter(sibling))) => sibling.parent().map(WalkEvent::Leave),
+            (None, next) => next,
+        };
     }
 }
 
@@ -1561,6 +1565,10 @@ impl Iterator for Preorder {
             self.skip_subtree = false;
         }
         let next = self.next.take();
+        self.entered = match &next {
+            Some(WalkEvent::Enter(node)) => Some(node.clone()),
+            _ => None,
+        };
         self.next = next.as_ref().and_then(|next| {
             Some(match next {
                 WalkEvent::Enter(node) => match node.first_child() {
@@ -1585,13 +1593,15 @@ impl Iterator for Preorder {
 pub struct PreorderWithTokens {
     start: SyntaxElement,
     next: Option<WalkEvent<SyntaxElement>>,
+    // The element yielded last, if it was entered.
+    entered: Option<SyntaxElement>,
     skip_subtree: bool,
 }
 
 impl PreorderWithTokens {
     fn new(start: SyntaxNode) -> PreorderWithTokens {
         let next = Some(WalkEvent::Enter(start.clone().into()));
-        PreorderWithTokens { start: start.into(), next, skip_subtree: false }
+        PreorderWithTokens { start: start.into(), next, entered: None, skip_subtree: false }
     }
 
     pub fn skip_subtree(&mut self) {
@@ -1600,10 +1610,14 @@ impl PreorderWithTokens {
 
     #[cold]
     fn do_skip(&mut self) {
-        self.next = self.next.take().map(|next| match next {
-            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent().unwrap().into()),
-            WalkEvent::Leave(parent) => WalkEvent::Leave(parent),
-        })
+        self.next = match (self.entered.take(), self.next.take()) {
+            // The first child might no longer be a child.
+            (Some(el), _) => Some(WalkEvent::Leave(el)),
+            (None, Some(WalkEvent::Enter(sibling))) => {
+                sibling.parent().map(|it| WalkEvent::Leave(it.into()))
+            }
+            (None, next) => next,
+        };
     }
 }
 
@@ -1616,6 +1630,10 @@ impl Iterator for PreorderWithTokens {
             self.skip_subtree = false;
         }
         let next = self.next.take();
+        self.entered = match &next {
+            Some(WalkEvent::Enter(el)) => Some(el.clone()),
+            _ => None,
+        };
         self.next = next.as_ref().and_then(|next| {
             Some(match next {
                 WalkEvent::Enter(el) => match el {
-- 
2.43.0


From ae4bba99843a4e6675179441bc4f38c488620db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:31 +0000
Subject: [PATCH 12/14] fix: refuse text that is too long for the offset type

In release builds the lengths and ranges of such a node wrapped around.
---
 src/green/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/green/node.rs b/src/green/node.rs
index 832915b..a95e317 100644
--- a/src/green/node.rs
+++ b/src/green/node.rs
@@ -208,7 +208,7 @@ impl GreenNode {
         let mut text_len: TextSize = 0.into();
         let children = children.into_iter().map(|el| {
             let rel_offset = text_len;
-            text_len += el.text_len();
+            text_len = text_len.checked_add(el.text_len()).expect("text is too long");
             match el {
                 NodeOrToken::Node(node) => GreenChild::Node { rel_offset, node },
                 NodeOrToken::Token(token) => GreenChild::Token { rel_offset, token },
-- 
2.43.0


From 65118412750c36ce07639951516dd4419dbddda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:31 +0000
Subject: [PATCH 13/14] fix: refuse an insertion that makes the text too long
 before anything has changed

The overflow was found only while the ancestors were being rebuilt, with
the child already inserted (or not found at all in release builds).
---
 src/cursor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index de64479..b7a3d71 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1005,6 +1005,15 @@ impl SyntaxNode {
             len -= 1;
         }
         assert!(index <= len, "index out of bounds: the len is {} but the index is {}", len, index);
+        let root = self.ancestors().last().unwrap();
+        if child.ancestors().last().as_ref() != Some(&root) {
+            // Otherwise it is only moved.
+            let child_len = data.green().text_len();
+            assert!(
+                root.green_ref().text_len().checked_add(child_len).is_some(),
+                "text is too long"
+            );
+        }
         child.detach();
         self.data().attach_child(index, data)
     }
-- 
2.43.0


From 2165aee6f668ec62853be30108ae707a24e7fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:05 +0000
Subject: [PATCH 14/14] fix: share the parents of a token whose hash is zero

---
 src/green/node_cache.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/green/node_cache.rs b/src/green/node_cache.rs
index 337cd10..a561e2e 100644
--- a/src/green/node_cache.rs
+++ b/src/green/node_cache.rs
@@ -43,7 +43,7 @@ fn token_hash(token: &GreenTokenData) -> u64 {
     let mut h = FxHasher::default();
     token.kind().hash(&mut h);
     token.text().hash(&mut h);
-    h.finish()
+    non_zero(h.finish())
 }
 
 fn node_hash(node: &GreenNodeData) -> u64 {
@@ -59,7 +59,7 @@ fn node_hash(node: &GreenNodeData) -> u64 {
     non_zero(h.finish())
 }
 
-/// Zero is the hash of the nodes which are not cached.
+/// Zero is the hash of what is not cached.
 fn non_zero(hash: u64) -> u64 {
     hash.max(1)
 }
@@ -140,7 +140,7 @@ impl NodeCache {
             let mut h = FxHasher::default();
             kind.hash(&mut h);
             text.hash(&mut h);
-            h.finish()
+            non_zero(h.finish())
         };
 
         let entry = self
-- 
2.43.0

