From c01b0a51ca83999dfad6710c1f66c7edb41e82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:38 +0000
Subject: [PATCH 01/74] fix: detach the removed children when emptying a node

---
 crates/oxvg_ast/src/node.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 5973cfc..2325d5d 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -274,8 +274,13 @@ impl<'input, 'arena> Node<'input, 'arena> {
 
     /// Removes all child nodes
     pub fn empty(&self) {
-        self.first_child.set(None);
+        let mut current = self.first_child.take();
         self.last_child.set(None);
+        while let Some(child) = current {
+            current = child.next_sibling.take();
+            child.previous_sibling.set(None);
+            child.parent.set(None);
+        }
     }
 
     /// Does a breadth-first search to find an element from the current node, returning this node
-- 
2.43.0


From 456585d7568da88b05c7a74b4bcd8ee3b70152d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:06 +0000
Subject: [PATCH 02/74] fix: relink the retained children in retain_children

---
 crates/oxvg_ast/src/node.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 2325d5d..fb3588d 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -350,13 +350,16 @@ impl<'input, 'arena> Node<'input, 'arena> {
     {
         self.last_child.set(None);
         let mut current = self.first_child.take();
-        let mut previously_retained = None;
+        let mut previously_retained: Option<Ref<'input, 'arena>> = None;
         while let Some(child) = current {
             current = child.next_sibling.get();
             let retain = f(child);
             if retain {
                 child.previous_sibling.set(previously_retained);
-                if previously_retained.is_none() {
+                child.next_sibling.set(None);
+                if let Some(previous) = previously_retained {
+                    previous.next_sibling.set(Some(child));
+                } else {
                     self.first_child.set(Some(child));
                 }
                 previously_retained = Some(child);
-- 
2.43.0


From f4d690e3481f23af6888d6042b8913dc5e7001b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:36 +0000
Subject: [PATCH 03/74] fix: detach a node from its old parent when it is
 appended, prepended or replaces a child

---
 crates/oxvg_ast/src/element.rs | 1 +
 crates/oxvg_ast/src/node.rs    | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index b120247..4f6c95f 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -325,6 +325,7 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | prepend](https://developer.mozilla.org/en-US/docs/Web/API/Element/prepend)
     pub fn prepend(&self, node: Ref<'input, 'arena>) {
+        node.remove();
         if let Some(first_node) = self.first_child.get() {
             first_node.previous_sibling.set(Some(node));
             node.next_sibling.set(Some(first_node));
diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index fb3588d..579db9a 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -434,6 +434,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
     ///
     /// [MDN | appendChild](https://developer.mozilla.org/en-US/docs/Web/API/Node/appendChild)
     pub fn append_child(&'arena self, a_child: Ref<'input, 'arena>) {
+        a_child.remove();
         a_child.parent.set(Some(self));
         if let Some(child) = self.last_child.replace(Some(a_child)) {
             child.next_sibling.set(Some(a_child));
@@ -710,6 +711,10 @@ impl<'input, 'arena> Node<'input, 'arena> {
         debug_assert_eq!(old_child.parent.get(), Some(self));
         debug_assert!(self.child_nodes_iter().contains(old_child));
 
+        if std::ptr::eq(new_child, *old_child) {
+            return Some(*old_child);
+        }
+        new_child.remove();
         let previous_sibling = old_child.previous_sibling.take();
         let next_sibling = old_child.next_sibling.take();
         old_child.parent.set(None);
-- 
2.43.0


From c935de2cc9ae94bcfac390286a5b2f576b29226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:05 +0000
Subject: [PATCH 04/74] fix: keep links intact when a node is inserted next to
 itself or moved among its siblings

---
 crates/oxvg_ast/src/element.rs | 5 +++--
 crates/oxvg_ast/src/node.rs    | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 4f6c95f..a825a90 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -375,6 +375,9 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | replaceWith](https://developer.mozilla.org/en-US/docs/Web/API/Element/replaceWith)
     pub fn replace_with(&self, other: Ref<'input, 'arena>) {
+        if self.id_eq(other) {
+            return;
+        }
         self.after(other);
         self.remove();
     }
@@ -489,8 +492,6 @@ impl<'input, 'arena> Element<'input, 'arena> {
     /// [MDN | before](https://developer.mozilla.org/en-US/docs/Web/API/Element/before)
     pub fn before(&self, node: Ref<'input, 'arena>) -> Option<()> {
         let parent = self.parent_node()?;
-        node.remove();
-        node.set_parent_node(&parent);
         parent.insert_before(node, self);
         Some(())
     }
diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 579db9a..efb6fa1 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -304,6 +304,9 @@ impl<'input, 'arena> Node<'input, 'arena> {
         new_node: Ref<'input, 'arena>,
         reference_node: Ref<'input, 'arena>,
     ) {
+        if std::ptr::eq(new_node, reference_node) {
+            return;
+        }
         new_node.remove();
         new_node.parent.set(Some(self));
         let Some(prev_child) = reference_node.previous_sibling.replace(Some(new_node)) else {
@@ -327,6 +330,9 @@ impl<'input, 'arena> Node<'input, 'arena> {
         new_node: Ref<'input, 'arena>,
         reference_node: &Ref<'input, 'arena>,
     ) {
+        if std::ptr::eq(new_node, *reference_node) {
+            return;
+        }
         new_node.remove();
         new_node.parent.set(Some(self));
         let Some(next_child) = reference_node.next_sibling.replace(Some(new_node)) else {
@@ -660,6 +666,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
     /// Inserts a node as the nth child of the current node's children, updating the `new_node`'s
     /// parent.
     pub fn insert(&'arena self, index: usize, new_node: Ref<'input, 'arena>) {
+        new_node.remove();
         if index == 0 {
             if let Some(first_child) = self.first_child() {
                 self.insert_before(new_node, first_child);
-- 
2.43.0


From 07161adc93ca435e5fe08318394bb103fd6396a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:55 +0000
Subject: [PATCH 05/74] fix: detach old children and moved nodes in
 replace_children

---
 crates/oxvg_ast/src/element.rs | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index a825a90..7460718 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -350,32 +350,18 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | replaceChildren](https://developer.mozilla.org/en-US/docs/Web/API/Element/replaceChildren)
     pub fn replace_children(&self, children: impl std::iter::Iterator<Item = Ref<'input, 'arena>>) {
-        let mut children = children.peekable();
-        let first = children.peek().copied();
-        self.first_child.set(first);
-        first.inspect(|first| {
-            first.previous_sibling.set(None);
-        });
-        let mut last = first;
-        for (a, b) in children.tuple_windows() {
-            // NOTE: This only runs if children >= 2
-            a.parent.set(Some(self));
-            a.next_sibling.set(Some(b));
-            b.previous_sibling.set(Some(a));
-            last = Some(b);
+        let children = children.collect_vec();
+        self.empty();
+        for child in children {
+            self.append(child);
         }
-        last.inspect(|last| {
-            last.parent.set(Some(self));
-            last.next_sibling.set(None);
-        });
-        self.last_child.set(last);
     }
 
     /// Replaces this element in the children list of it's parent with another.
     ///
     /// [MDN | replaceWith](https://developer.mozilla.org/en-US/docs/Web/API/Element/replaceWith)
     pub fn replace_with(&self, other: Ref<'input, 'arena>) {
-        if self.id_eq(other) {
+        if std::ptr::eq(self.0, other) {
             return;
         }
         self.after(other);
-- 
2.43.0


From 588af5d0f0e346aaa0529aedbcea21a5fc05d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:25 +0000
Subject: [PATCH 06/74] fix: keep sibling links and non-element order
 consistent in sort_child_elements

---
 crates/oxvg_ast/src/element.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 7460718..666af43 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -669,23 +669,20 @@ impl<'input, 'arena> Element<'input, 'arena> {
         F: FnMut(Self, Self) -> std::cmp::Ordering,
     {
         let mut children: Vec<_> = self.child_nodes_iter().collect();
-        children.sort_by(|a, b| {
-            let Some(a) = Element::new(a) else {
-                return std::cmp::Ordering::Less;
-            };
-            let Some(b) = Element::new(b) else {
-                return std::cmp::Ordering::Greater;
-            };
-            f(a, b)
+        children.sort_by(|a, b| match (Element::new(a), Element::new(b)) {
+            (Some(a), Some(b)) => f(a, b),
+            (a, b) => a.is_some().cmp(&b.is_some()),
         });
 
         self.first_child.set(children.first().copied());
         self.last_child.set(children.last().copied());
         for i in 0..children.len() {
             let child = children[i];
-            if i > 0 {
-                child.previous_sibling.set(children.get(i - 1).copied());
-            }
+            child.previous_sibling.set(if i > 0 {
+                children.get(i - 1).copied()
+            } else {
+                None
+            });
             child.next_sibling.set(children.get(i + 1).copied());
         }
     }
-- 
2.43.0


From 52e3513d4ca00d9b32eac818c5ee271277a103bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:53 +0000
Subject: [PATCH 07/74] fix: keep the children of an element when its name is
 changed

---
 crates/oxvg_ast/src/element.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 666af43..162ce9a 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -413,8 +413,12 @@ impl<'input, 'arena> Element<'input, 'arena> {
             #[cfg(feature = "range")]
             ranges: std::collections::HashMap::new(),
         });
-        self.replace_with(replacement);
-        Self(&*replacement)
+        let replacement = Self(&*replacement);
+        while let Some(child) = self.first_child() {
+            replacement.append(child);
+        }
+        self.replace_with(&replacement);
+        replacement
     }
 
     /// Returns the element immediately following this one in it's parent's child list.
-- 
2.43.0


From 206e07fe294096c9dcd62181d3b92d32df0be71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:20 +0000
Subject: [PATCH 08/74] fix: skipping a character counts only occurrences at
 the cursor

---
 crates/oxvg_parse/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index 7dfda4d..c4429ef 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -121,7 +121,7 @@ impl<'input> Parser<'input> {
 
     /// Moves the cursor forward the number of matching characters
     pub fn skip_char(&mut self, char: char) {
-        self.skip_internal(self.slice().trim_matches(char).len());
+        self.skip_internal(self.slice().trim_start_matches(char).len());
     }
 
     /// Moves the cursor forward the number of whitespace characters
-- 
2.43.0


From 99320e100423b92d9a90b1f97588a4971541712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:20 +0000
Subject: [PATCH 09/74] fix: advance the value parser by whole characters

---
 crates/oxvg_parse/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index c4429ef..4fb7c22 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -40,7 +40,7 @@ impl<'input> Parser<'input> {
 
     /// Go to the next value without reading
     pub fn advance(&mut self) {
-        self.cursor += 1;
+        self.cursor += self.current().map_or(0, char::len_utf8);
     }
 
     /// Move backwards without reading
-- 
2.43.0


From 613059d25bd8e64005a2e33c6810053463deac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:20 +0000
Subject: [PATCH 10/74] fix: keep the cursor inside the input and on a
 character when a string is expected

---
 crates/oxvg_parse/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index 4fb7c22..27628c9 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -214,7 +214,10 @@ impl<'input> Parser<'input> {
     /// If the next set of characters does not match the given string
     pub fn expect_str(&mut self, expected: &'static str) -> Result<(), Error<'input>> {
         let cursor = self.cursor;
-        self.cursor += expected.len();
+        self.cursor = (cursor + expected.len()).min(self.input.len());
+        while !self.input.is_char_boundary(self.cursor) {
+            self.cursor += 1;
+        }
         let received = self.slice_from(cursor);
         if received == expected {
             Ok(())
-- 
2.43.0


From 667e64ddf5f114df6053d10d4ac88a06891c966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:20 +0000
Subject: [PATCH 11/74] fix: accept U+00D6 as a name character

---
 crates/oxvg_parse/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index 27628c9..69b4671 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -260,7 +260,7 @@ impl<'input> Parser<'input> {
 }
 fn is_name_start_char(char: char) -> bool {
     char.is_ascii_alphabetic()
-        || matches!(char, ':' | '_' | '\u{C0}'..'\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
+        || matches!(char, ':' | '_' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
 }
 fn is_name_char(char: char) -> bool {
     is_name_start_char(char)
-- 
2.43.0


From f2dd5bfdf7dc5a22d076e6ce76c6b7cf64cc5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:20 +0000
Subject: [PATCH 12/74] fix: end a number before a second decimal point

---
 crates/oxvg_parse/src/types/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_parse/src/types/number.rs b/crates/oxvg_parse/src/types/number.rs
index 23fc0a4..3d227c0 100644
--- a/crates/oxvg_parse/src/types/number.rs
+++ b/crates/oxvg_parse/src/types/number.rs
@@ -8,7 +8,9 @@ impl<'input> Parse<'input> for f64 {
         let cursor = input.cursor();
         input.skip_matches(|char| matches!(char, '-' | '+'));
         input.skip_matches(|char| char.is_ascii_digit());
-        input.skip_char('.');
+        if let Ok('.') = input.current() {
+            input.advance();
+        }
         input.skip_matches(|char| char.is_ascii_digit());
 
         if let Ok('e' | 'E') = input.current() {
@@ -19,8 +21,6 @@ impl<'input> Parse<'input> for f64 {
                 let exponent_cursor = input.cursor();
                 input.skip_matches(|char| matches!(char, '-' | '+'));
                 input.skip_matches(|char| char.is_ascii_digit());
-                input.skip_char('.');
-                input.skip_matches(|char| char.is_ascii_digit());
                 if exponent_cursor == input.cursor() {
                     return Err(Error::InvalidNumber);
                 }
-- 
2.43.0


From 7de5022bdee8aa04186db69ead3ed18b84d3db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:20 +0000
Subject: [PATCH 13/74] fix: reject numbers out of range of the requested type

---
 crates/oxvg_parse/src/types/number.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_parse/src/types/number.rs b/crates/oxvg_parse/src/types/number.rs
index 3d227c0..73a7e18 100644
--- a/crates/oxvg_parse/src/types/number.rs
+++ b/crates/oxvg_parse/src/types/number.rs
@@ -41,7 +41,12 @@ impl<'input> Parse<'input> for f64 {
 
 impl<'input> Parse<'input> for f32 {
     fn parse(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
-        Ok(f64::parse(input)? as f32)
+        let number = f64::parse(input)? as f32;
+        if number.is_finite() {
+            Ok(number)
+        } else {
+            Err(Error::InvalidNumber)
+        }
     }
 }
 
@@ -63,7 +68,7 @@ impl<'input> Parse<'input> for i64 {
 
 impl<'input> Parse<'input> for i32 {
     fn parse(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
-        Ok(i64::parse(input)? as i32)
+        i32::try_from(i64::parse(input)?).map_err(|_| Error::InvalidNumber)
     }
 }
 
-- 
2.43.0


From d78076279175aecdeae63f29ed3d1a8c3b71e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:36 +0000
Subject: [PATCH 14/74] fix: reject arguments after a close command instead of
 looping, and ignore trailing space after it

---
 crates/oxvg_path/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/parser.rs b/crates/oxvg_path/src/parser.rs
index 83c8048..76b7c63 100644
--- a/crates/oxvg_path/src/parser.rs
+++ b/crates/oxvg_path/src/parser.rs
@@ -30,6 +30,9 @@ impl<'input> Path {
 
         while !input.is_empty() {
             input.skip_whitespace();
+            if input.is_empty() {
+                break;
+            }
             if !list.is_empty() {
                 input.skip_char(',');
                 input.skip_whitespace();
@@ -38,6 +41,9 @@ impl<'input> Path {
                 .try_parse(command::ID::parse)
                 .or_else(|_| {
                     if let Some(last) = list.last() {
+                        if last.args().is_none() {
+                            return Err(oxvg_parse::error::Error::Path(PathError::NoCommand));
+                        }
                         Ok(command::ID::Implicit(Box::new(last.id().next_implicit())))
                     } else if allow_implicit_start {
                         Ok(command::ID::MoveTo)
@@ -50,7 +56,7 @@ impl<'input> Path {
                     remaining_content: input.take_slice(),
                 })?;
             if let Some(last) = list.last() {
-                if !command_id.is_implicit() && last.id().next_implicit() == command_id {
+                if !command_id.is_implicit() && command_id.args() > 0 && last.id().next_implicit() == command_id {
                     command_id = command::ID::Implicit(Box::new(command_id));
                 }
             } else if !matches!(command_id, command::ID::MoveBy | command::ID::MoveTo) {
-- 
2.43.0


From 60cbd2ea4092446556d88ecc067765a918becbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:36 +0000
Subject: [PATCH 15/74] fix: separate a tiny number from the previous implicit
 argument

---
 crates/oxvg_path/src/paths/svg/command.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/svg/command.rs b/crates/oxvg_path/src/paths/svg/command.rs
index 5ab200d..5582557 100644
--- a/crates/oxvg_path/src/paths/svg/command.rs
+++ b/crates/oxvg_path/src/paths/svg/command.rs
@@ -506,7 +506,7 @@ impl Args<'_> {
     /// command.
     /// This check is only needed when `self` is for an implicit command.
     pub(crate) fn is_space_needed(&self, prev: &Self) -> bool {
-        (prev.last() % 1.0) == 0.0 || self.first() >= &1.0 || self.first() == &0.0
+        (prev.last() % 1.0) == 0.0 || self.first() >= &1.0 || self.first().abs() < 1e-4
     }
 }
 
-- 
2.43.0


From 20505f30564f60c74ae044c053bc1214d801b748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:36 +0000
Subject: [PATCH 16/74] fix: write the letter of a close command that is marked
 implicit

---
 crates/oxvg_path/src/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/format.rs b/crates/oxvg_path/src/format.rs
index 9a251d4..e4a860d 100644
--- a/crates/oxvg_path/src/format.rs
+++ b/crates/oxvg_path/src/format.rs
@@ -39,7 +39,7 @@ pub(crate) fn format<'a>(
                 }
                 args.fmt(f)?;
             } else {
-                f.write_char(current.id().into())?;
+                f.write_char(current.id().as_explicit().into())?;
             }
             prev_args = args;
             Ok(())
-- 
2.43.0


From ea7c22f6ba53035ba28f6b6c072b54dfd121d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:36 +0000
Subject: [PATCH 17/74] fix: compare the end of a sub-path with its own start
 when looking whether it is closed

---
 crates/oxvg_path/src/paths/segment/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index d7812ee..1a72310 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -206,7 +206,7 @@ impl Segment {
 
         let tolerance_squared = tolerance.positional * tolerance.positional;
         result.closed =
-            start.distance_squared(result.data().last().unwrap().end_point()) < tolerance_squared;
+            result.start.distance_squared(result.data().last().unwrap().end_point()) < tolerance_squared;
         result
     }
 }
-- 
2.43.0


From 0493b7b8ec8b4cc9b780d23291c90eb1c3d77e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:53 +0000
Subject: [PATCH 18/74] fix: smooth curves reflect the control point of a curve
 of the same kind only

---
 crates/oxvg_path/src/paths/segment/convert.rs | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index 1a72310..7d6eed7 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -10,13 +10,20 @@ use crate::{
     paths::segment::{Data, IterStartCursorItem, Path, Segment},
 };
 
+/// The control point of the last curve, which a following smooth curve of the same kind reflects.
+#[derive(Clone, Copy)]
+pub(crate) enum Control {
+    Cubic(Point),
+    Quadratic(Point),
+}
+
 impl Data {
     #[allow(clippy::too_many_lines)]
     pub(crate) fn take(
         command: &command::Data,
         start: &mut Point,
         cursor: &mut Point,
-        control: &mut Option<Point>,
+        control: &mut Option<Control>,
         z_end: &mut bool,
     ) -> Option<Self> {
         let last_control = control.take();
@@ -60,7 +67,7 @@ impl Data {
                 let end_control = *cursor + Point::new(a[2], a[3]);
                 let end_point = *cursor + Point::new(a[4], a[5]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end_point;
                 Some(Self::CurveTo(Curve::new(
                     start_control,
@@ -72,14 +79,14 @@ impl Data {
                 let end_control = Point::new(a[2], a[3]);
                 let end_point = Point::new(a[4], a[5]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end_point;
                 Some(Data::CurveTo(Curve::from(*a)))
             }
             command::Data::QuadraticBezierBy(a) => {
                 let quad_control = *cursor + Point::new(a[0], a[1]);
                 let end = *cursor + Point::new(a[2], a[3]);
-                *control = Some(quad_control);
+                *control = Some(Control::Quadratic(quad_control));
 
                 let start = *cursor;
                 *cursor = end;
@@ -88,14 +95,14 @@ impl Data {
             command::Data::QuadraticBezierTo(a) => {
                 let quad_control = Point::new(a[0], a[1]);
                 let end = Point::new(a[2], a[3]);
-                *control = Some(quad_control);
+                *control = Some(Control::Quadratic(quad_control));
 
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(quad_control, start, end)))
             }
             command::Data::SmoothBezierBy(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Cubic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
@@ -103,12 +110,12 @@ impl Data {
                 let end_control = *cursor + Point::new(a[0], a[1]);
                 let end = *cursor + Point::new(a[2], a[3]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new(start_control, end_control, end)))
             }
             command::Data::SmoothBezierTo(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Cubic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
@@ -116,32 +123,32 @@ impl Data {
                 let end_control = Point::new(a[0], a[1]);
                 let end = Point::new(a[2], a[3]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new(start_control, end_control, end)))
             }
             command::Data::SmoothQuadraticBezierBy(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Quadratic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
                 };
                 let end = *cursor + Point::from(*a);
 
-                *control = Some(start_control);
+                *control = Some(Control::Quadratic(start_control));
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(start_control, start, end)))
             }
             command::Data::SmoothQuadraticBezierTo(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Quadratic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
                 };
                 let end = Point::from(*a);
 
-                *control = Some(start_control);
+                *control = Some(Control::Quadratic(start_control));
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(start_control, start, end)))
-- 
2.43.0


From e04f444658a7d8d2c0b3c903e3d557dcaad6c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:59 +0000
Subject: [PATCH 19/74] fix: keep the zeros of an exponent when shortening a
 number

---
 crates/oxvg_path/src/paths/svg/command.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/svg/command.rs b/crates/oxvg_path/src/paths/svg/command.rs
index 5582557..784c8b3 100644
--- a/crates/oxvg_path/src/paths/svg/command.rs
+++ b/crates/oxvg_path/src/paths/svg/command.rs
@@ -515,7 +515,7 @@ pub(crate) fn short_number_from_buffer<W: std::fmt::Write>(
     w: &mut W,
 ) -> std::fmt::Result {
     // Remove trailing zeros
-    if raw.contains('.') {
+    if raw.contains('.') && !raw.contains('e') {
         raw = raw.strip_suffix('0').unwrap_or(raw);
     }
     if matches!(raw, "0." | "-0.") {
-- 
2.43.0


From 6b26dc13195ac248420ade486d5748fdca1e4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:23 +0000
Subject: [PATCH 20/74] Expose one step of the path conversion to the verifier

---
 crates/oxvg_path/src/paths/segment/convert.rs | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index 7d6eed7..3d1c7c6 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // kani
+
 use std::f64::consts::PI;
 
 use crate::{
@@ -181,6 +183,32 @@ impl Data {
     }
 }
 
+#[cfg(kani)]
+impl Data {
+    /// One step of the conversion, for the contracts on it. The control point comes with whether it is of a cubic curve.
+    pub fn step(
+        command: &command::Data,
+        start: &mut Point,
+        cursor: &mut Point,
+        control: &mut Option<(bool, Point)>,
+        z_end: &mut bool,
+    ) -> Option<Self> {
+        let mut inner = control.map(|(cubic, p)| {
+            if cubic {
+                Control::Cubic(p)
+            } else {
+                Control::Quadratic(p)
+            }
+        });
+        let result = Self::take(command, start, cursor, &mut inner, z_end);
+        *control = inner.map(|c| match c {
+            Control::Cubic(p) => (true, p),
+            Control::Quadratic(p) => (false, p),
+        });
+        result
+    }
+}
+
 impl Segment {
     fn take<'a>(
         iterator: &mut impl Iterator<Item = &'a command::Data>,
-- 
2.43.0


From bfc7b72bf764dc7f5b8f1a86022fe65b85690de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:14 +0000
Subject: [PATCH 21/74] fix: accept only one separator between the items of a
 list

A run of commas or semicolons was read as one separator, so `1,,2` was
read as a list of two items.
---
 crates/oxvg_collections/src/attribute/list_of.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/list_of.rs b/crates/oxvg_collections/src/attribute/list_of.rs
index 3dd9dd6..668356f 100644
--- a/crates/oxvg_collections/src/attribute/list_of.rs
+++ b/crates/oxvg_collections/src/attribute/list_of.rs
@@ -93,6 +93,10 @@ impl Separator for Comma {
     fn id(&self) -> Separators {
         Separators::Comma
     }
+    #[cfg(feature = "parse")]
+    fn parse<'input>(input: &mut Parser<'input>) -> Result<(), Error<'input>> {
+        input.expect_char(',')
+    }
     fn matches<'input>(char: char) -> bool {
         char == ','
     }
@@ -117,7 +121,7 @@ impl Separator for SpaceOrComma {
     fn parse<'input>(input: &mut Parser<'input>) -> Result<(), Error<'input>> {
         if input.try_parse(Parser::expect_whitespace).is_ok() {
             input.skip_whitespace();
-            input.skip_char(',');
+            let _ = input.try_parse(Comma::parse);
             input.skip_whitespace();
             return Ok(());
         }
@@ -149,6 +153,10 @@ impl Separator for Semicolon {
     fn id(&self) -> Separators {
         Separators::Semicolon
     }
+    #[cfg(feature = "parse")]
+    fn parse<'input>(input: &mut Parser<'input>) -> Result<(), Error<'input>> {
+        input.expect_char(';')
+    }
     fn matches<'input>(char: char) -> bool {
         char == ';'
     }
@@ -291,7 +299,7 @@ impl<'input, T: Parse<'input> + std::fmt::Debug + PartialEq, S: Separator> Parse
         };
         loop {
             let cursor = input.cursor();
-            if S::parse(input).is_err() {
+            if input.try_parse(S::parse).is_err() {
                 break;
             }
             S::maybe_skip_whitespace(input);
-- 
2.43.0


From 902f8cb469f696a99724ae81ac0e67f7fd87e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:11 +0000
Subject: [PATCH 22/74] fix: read the first item of a list like the others

White space before the first separator made the list invalid, and a first
item that failed only at its end (`-`, a number out of range) made it an
empty list.
---
 crates/oxvg_collections/src/attribute/list_of.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/list_of.rs b/crates/oxvg_collections/src/attribute/list_of.rs
index 668356f..76d0ff0 100644
--- a/crates/oxvg_collections/src/attribute/list_of.rs
+++ b/crates/oxvg_collections/src/attribute/list_of.rs
@@ -284,12 +284,11 @@ impl<'input, T: Parse<'input> + std::fmt::Debug + PartialEq, S: Separator> Parse
         if input.slice().starts_with('"') || input.slice().starts_with('\'') {
             quote = input.slice().chars().next();
         }
-        let mut start = Parser::new(take_matches(input, quote.as_ref()));
+        let start = take_matches(input, quote.as_ref());
         quote = None;
-        let mut list = match T::parse(&mut start) {
-            Ok(first) if start.is_empty() => vec![first],
-            Ok(_) => return Err(Error::ExpectedDone),
-            Err(_) if start.is_empty() => {
+        let mut list = match T::parse_string(start) {
+            Ok(first) => vec![first],
+            Err(_) if start.trim().is_empty() => {
                 return Ok(Self {
                     list: vec![],
                     separator: S::new(),
-- 
2.43.0


From e369d7ff6cbea90a4947721b226e44fbed2d7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:45 +0000
Subject: [PATCH 23/74] fix: keep a translation by one unit when shortening a
 matrix

The identity test compared translations with one instead of zero, so
translate(1 1) was dropped.
---
 crates/oxvg_collections/src/attribute/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_collections/src/attribute/transform.rs b/crates/oxvg_collections/src/attribute/transform.rs
index d755130..a88c1bf 100644
--- a/crates/oxvg_collections/src/attribute/transform.rs
+++ b/crates/oxvg_collections/src/attribute/transform.rs
@@ -236,7 +236,8 @@ impl SVGTransform {
     fn is_identity(&self) -> bool {
         match self {
             Self::Rotate(n, _, _) | Self::SkewX(n) | Self::SkewY(n) => *n == 0.0,
-            Self::Scale(x, y) | Self::Translate(x, y) => *x == 1.0 && *y == 1.0,
+            Self::Scale(x, y) => *x == 1.0 && *y == 1.0,
+            Self::Translate(x, y) => *x == 0.0 && *y == 0.0,
             Self::Matrix(_) | Self::CssTransform(_) => false,
         }
     }
-- 
2.43.0


From 8d5ed3fc3cff4b3837878148206038fe1de89d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:45 +0000
Subject: [PATCH 24/74] fix: leave the height alone when converting scaleX

---
 crates/oxvg_collections/src/attribute/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_collections/src/attribute/transform.rs b/crates/oxvg_collections/src/attribute/transform.rs
index a88c1bf..2ba4b7b 100644
--- a/crates/oxvg_collections/src/attribute/transform.rs
+++ b/crates/oxvg_collections/src/attribute/transform.rs
@@ -481,7 +481,7 @@ impl TryFrom<&Transform> for SVGTransform {
                 let NumberOrPercentage::Number(x) = x else {
                     return Err(());
                 };
-                Self::Scale(*x, 0.0)
+                Self::Scale(*x, 1.0)
             }
             Transform::Rotate(angle) => Self::Rotate(angle.to_degrees(), 0.0, 0.0),
             Transform::SkewX(x) => Self::SkewX(x.to_degrees()),
-- 
2.43.0


From 372e3c2b5df7ed1ba41f998a870accee09dc85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:45 +0000
Subject: [PATCH 25/74] fix: read transform lists of any length

---
 crates/oxvg_collections/src/attribute/transform.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/transform.rs b/crates/oxvg_collections/src/attribute/transform.rs
index 2ba4b7b..bec3e14 100644
--- a/crates/oxvg_collections/src/attribute/transform.rs
+++ b/crates/oxvg_collections/src/attribute/transform.rs
@@ -594,7 +594,7 @@ impl TryFrom<&TransformList> for SVGTransformList {
 impl<'input> Parse<'input> for SVGTransformList {
     fn parse<'t>(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
         let mut result = Vec::new();
-        for _ in 0..2048 {
+        loop {
             skip_comma_and_whitespace(input);
             if let Ok(item) = input.try_parse(SVGTransform::parse) {
                 result.push(item);
@@ -602,7 +602,6 @@ impl<'input> Parse<'input> for SVGTransformList {
                 return Ok(Self(result));
             }
         }
-        panic!("maximum iterations on transform list")
     }
 }
 #[cfg(feature = "serialize")]
-- 
2.43.0


From 56d85e8c4f83a4639db03bddfeb349deaae4ea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:22 +0000
Subject: [PATCH 26/74] fix: compute the centre of a small rotation without
 dividing by zero

The cosine of a small angle rounds to one, which made the centre NaN when
a translation and a rotation were merged.
---
 crates/oxvg_collections/src/attribute/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_collections/src/attribute/transform.rs b/crates/oxvg_collections/src/attribute/transform.rs
index bec3e14..c7832e7 100644
--- a/crates/oxvg_collections/src/attribute/transform.rs
+++ b/crates/oxvg_collections/src/attribute/transform.rs
@@ -253,8 +253,8 @@ impl SVGTransform {
         let rad = a.to_radians();
         let d = 1.0 - rad.cos();
         let e = rad.sin();
+        let cx = (d * tx - e * ty) / (d * d + e * e);
         let cy = (d * ty + e * tx) / (d * d + e * e);
-        let cx = (tx - e * cy) / d;
         Self::Rotate(*a, cx, cy)
     }
 }
-- 
2.43.0


From 794894132d715e160e46d23bba994fdb890c7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:34 +0000
Subject: [PATCH 27/74] fix: hash aliased element and attribute ids like the
 ids they equal

An id written with an unusual prefix equals the plain id but had another
hash, so maps and sets keyed by ids could not find it.
---
 crates/oxvg_collections/src/attribute.rs | 9 ++++++++-
 crates/oxvg_collections/src/element.rs   | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute.rs b/crates/oxvg_collections/src/attribute.rs
index 294df98..107ebdc 100644
--- a/crates/oxvg_collections/src/attribute.rs
+++ b/crates/oxvg_collections/src/attribute.rs
@@ -235,7 +235,7 @@ macro_rules! define_attrs {
             ];
         }
 
-        #[derive(Clone, Debug, Hash, Eq)]
+        #[derive(Clone, Debug, Eq)]
         #[cfg_attr(feature = "wasm", derive(tsify::Tsify))]
         #[cfg_attr(feature = "wasm", tsify(into_wasm_abi, from_wasm_abi))]
         #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -2774,6 +2774,13 @@ impl AttrId<'_> {
     }
 }
 
+impl std::hash::Hash for AttrId<'_> {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        self.prefix().hash(state);
+        self.local_name().hash(state);
+    }
+}
+
 impl std::fmt::Display for AttrId<'_> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if let Some(prefix) = self.prefix().value() {
diff --git a/crates/oxvg_collections/src/element.rs b/crates/oxvg_collections/src/element.rs
index 78bbc26..6ab1731 100644
--- a/crates/oxvg_collections/src/element.rs
+++ b/crates/oxvg_collections/src/element.rs
@@ -90,7 +90,7 @@ macro_rules! define_elements {
             $(pub const $element: &'static Atom<'static> = &_qual_name::$element.local;)+
         }
 
-        #[derive(Clone, Debug, Hash, Eq)]
+        #[derive(Clone, Debug, Eq)]
         #[cfg_attr(feature = "wasm", derive(tsify::Tsify))]
         #[cfg_attr(feature = "wasm", tsify(into_wasm_abi, from_wasm_abi))]
         #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -302,6 +302,12 @@ macro_rules! define_elements {
         }
     };
 }
+impl std::hash::Hash for ElementId<'_> {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        self.prefix().hash(state);
+        self.local_name().hash(state);
+    }
+}
 impl PartialOrd for ElementId<'_> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         Some(self.cmp(other))
-- 
2.43.0


From 3e124c2d02b0c627e9d091db4a6d7c4ce1ca5821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:30 +0000
Subject: [PATCH 28/74] fix: look through aliased names for their flags and
 default value

---
 crates/oxvg_collections/src/attribute.rs | 2 ++
 crates/oxvg_collections/src/element.rs   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/crates/oxvg_collections/src/attribute.rs b/crates/oxvg_collections/src/attribute.rs
index 107ebdc..9117ce4 100644
--- a/crates/oxvg_collections/src/attribute.rs
+++ b/crates/oxvg_collections/src/attribute.rs
@@ -376,6 +376,7 @@ macro_rules! define_attrs {
             pub fn info(&self) -> AttributeInfo {
                 match self {
                     $($(Self::$attr => $info,)?)+
+                    Self::Aliased { attr_id, .. } => attr_id.info(),
                     _ => AttributeInfo::empty(),
                 }
             }
@@ -384,6 +385,7 @@ macro_rules! define_attrs {
             pub fn default(&self) -> Option<Attr<'input>> {
                 match self {
                     $($(Self::$attr => Some(Attr::$attr($default)),)?)+
+                    Self::Aliased { attr_id, .. } => attr_id.default(),
                     _ => None,
                 }
             }
diff --git a/crates/oxvg_collections/src/element.rs b/crates/oxvg_collections/src/element.rs
index 6ab1731..4fedddc 100644
--- a/crates/oxvg_collections/src/element.rs
+++ b/crates/oxvg_collections/src/element.rs
@@ -270,6 +270,7 @@ macro_rules! define_elements {
             pub fn info(&self) -> ElementInfo {
                 match self {
                     $($(Self::$element => $info,)?)+
+                    Self::Aliased { element_id, .. } => element_id.info(),
                     _ => ElementInfo::empty(),
                 }
             }
-- 
2.43.0


From e565cdbdfc21089b14aa8b171b52f6dfd18d63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:29 +0000
Subject: [PATCH 29/74] fix: replacing a class token keeps the new token unique

---
 crates/oxvg_ast/src/class_list.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_ast/src/class_list.rs b/crates/oxvg_ast/src/class_list.rs
index 2ff4423..f93bbfd 100644
--- a/crates/oxvg_ast/src/class_list.rs
+++ b/crates/oxvg_ast/src/class_list.rs
@@ -147,14 +147,22 @@ impl<'a, 'input: 'a> ClassList<'a, 'input> {
         let Some(mut attr) = self.attr() else {
             return false;
         };
-        let Some(token) = attr
-            .list
-            .iter_mut()
-            .find(|token| token.0.as_str() == old_token)
-        else {
+        if !attr.iter().any(|token| token.0.as_str() == old_token) {
             return false;
-        };
-        *token = NonWhitespace(new_token);
+        }
+        // The first of the two tokens is replaced, so that the new token is in the list once
+        let mut is_replaced = false;
+        attr.list.retain_mut(|token| {
+            if token.0.as_str() != old_token && token.0 != new_token {
+                return true;
+            }
+            if is_replaced {
+                return false;
+            }
+            is_replaced = true;
+            *token = NonWhitespace(new_token.clone());
+            true
+        });
         true
     }
 
-- 
2.43.0


From c45f05d341b49dd34cf859205cbb46bf44897243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:29 +0000
Subject: [PATCH 30/74] fix: close a CDATA section before writing other content

---
 crates/oxvg_ast/src/xmlwriter.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index d673cc1..258d93f 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -528,6 +528,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         if self.state == State::Attributes {
             self.write_open_element()?;
         }
+        self.write_close_cdata()?;
 
         if self.state != State::Empty {
             self.write_new_line()?;
@@ -573,6 +574,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         if self.state == State::Attributes {
             self.write_open_element()?;
         }
+        self.write_close_cdata()?;
 
         if self.state != State::Empty {
             self.write_new_line()?;
@@ -925,7 +927,9 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.write_open_element()?;
         }
 
-        if cdata && self.state != State::CData {
+        if !cdata {
+            self.write_close_cdata()?;
+        } else if self.state != State::CData {
             self.fmt_writer
                 .writer
                 .write_all(b"<![CDATA[")
@@ -968,6 +972,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
     /// When in a bad state or when io fails.
     #[inline(never)]
     pub fn end_element(&mut self) -> Result {
+        self.write_close_cdata()?;
         if let Some(depth) = self.depth_stack.pop() {
             if depth.has_children || !self.opt.enable_self_closing {
                 // Close the empty node here as there were no children to close it.
@@ -983,13 +988,6 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                     self.write_node_indent()?;
                 }
 
-                if self.state == State::CData {
-                    self.fmt_writer
-                        .writer
-                        .write_all(b"]]>")
-                        .map_err(XmlWriterError::IO)?;
-                }
-
                 self.fmt_writer
                     .writer
                     .write_all(b"</")
@@ -1090,6 +1088,18 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         Ok(())
     }
 
+    // Writes the end of the current CDATA section, so `]]>`.
+    fn write_close_cdata(&mut self) -> Result {
+        if self.state == State::CData {
+            self.fmt_writer
+                .writer
+                .write_all(b"]]>")
+                .map_err(XmlWriterError::IO)?;
+            self.state = State::Document;
+        }
+        Ok(())
+    }
+
     fn write_node_indent(&mut self) -> Result {
         self.write_indent(self.depth_stack.len(), self.opt.indent)
             .map_err(XmlWriterError::IO)
-- 
2.43.0


From 285543cfeca15502e05f60afcd7a3e50a9c9c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:05 +0000
Subject: [PATCH 31/74] fix: keep non-breaking and other unicode spaces when
 trimming text

---
 crates/oxvg_ast/src/xmlwriter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 258d93f..c17f805 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -810,16 +810,16 @@ impl<'input, W: Write> XmlWriter<'input, W> {
 
         match space {
             Space::Default => {
-                if text.trim_start().is_empty() {
+                if text.trim_ascii_start().is_empty() {
                     return Ok(());
                 }
                 self.before_write_text(false)?;
-                let mut parts = text.split_whitespace();
+                // Other unicode spaces, such as non-breaking ones, are content
+                let mut parts = text.split_ascii_whitespace();
                 if let Some(first) = parts.next() {
-                    let mut chars = text.chars();
                     if !is_first
                         && self.opt.indent == Indent::None
-                        && chars.next().is_some_and(char::is_whitespace)
+                        && text.starts_with(|c: char| c.is_ascii_whitespace())
                     {
                         self.fmt_writer
                             .write_char(' ')
@@ -840,7 +840,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
 
                     if !is_last
                         && self.opt.indent == Indent::None
-                        && text.chars().next_back().is_some_and(char::is_whitespace)
+                        && text.ends_with(|c: char| c.is_ascii_whitespace())
                     {
                         self.fmt_writer
                             .write_char(' ')
-- 
2.43.0


From 8ca09598be4144c7ba10350132d3c8e986193e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:05 +0000
Subject: [PATCH 32/74] fix: end the effect of xml:space with its element

---
 crates/oxvg_ast/src/xmlwriter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index c17f805..d1917b3 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -348,6 +348,8 @@ enum State {
 struct DepthData<'input> {
     element_name: Option<ElementId<'input>>,
     has_children: bool,
+    /// Whether `xml:space="preserve"` applies outside of the element
+    outer_preserve_whitespaces: bool,
 }
 
 /// This wrapper writer is so that we can make sure formatted strings are properly escaped too,
@@ -554,6 +556,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                outer_preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -596,6 +599,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         self.depth_stack.push(DepthData {
             element_name: Some(name.clone()),
             has_children: false,
+            outer_preserve_whitespaces: self.preserve_whitespaces,
         });
 
         self.state = State::Attributes;
@@ -957,6 +961,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                outer_preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -1012,6 +1017,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                     .write_all(b"/>")
                     .map_err(XmlWriterError::IO)?;
             }
+            self.preserve_whitespaces = depth.outer_preserve_whitespaces;
         }
 
         self.state = State::Document;
-- 
2.43.0


From 525f7f0e567d4faa15fac91b43bd57a552d5e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:51 +0000
Subject: [PATCH 33/74] fix: keep the space between neighbouring text nodes

---
 crates/oxvg_ast/src/serialize.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_ast/src/serialize.rs b/crates/oxvg_ast/src/serialize.rs
index 31a9acc..ebba671 100644
--- a/crates/oxvg_ast/src/serialize.rs
+++ b/crates/oxvg_ast/src/serialize.rs
@@ -124,13 +124,13 @@ fn serialize_node<'arena, W: Write>(
             child,
             xml,
             node.first_child().is_none_or(|n| n == child)
-                || child
-                    .previous_sibling()
-                    .is_some_and(|n| n.node_type() == node::Type::Text),
-            node.last_child().is_none_or(|n| n == child)
-                || child
-                    .next_sibling()
-                    .is_some_and(|n| n.node_type() == node::Type::Text),
+                || child.previous_sibling().is_some_and(|n| {
+                    // The space between the two texts has already been written
+                    n.node_type() == node::Type::Text
+                        && n.text_content()
+                            .is_some_and(|t| t.ends_with(|c: char| c.is_ascii_whitespace()))
+                }),
+            node.last_child().is_none_or(|n| n == child),
         )?;
     }
 
-- 
2.43.0


From 52689ffc72e2602cc943d5e454546bd5fb2b69c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:12 +0000
Subject: [PATCH 34/74] fix: keep a space between the elements of a text

---
 crates/oxvg_ast/src/xmlwriter.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index d1917b3..485614e 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -815,6 +815,20 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         match space {
             Space::Default => {
                 if text.trim_ascii_start().is_empty() {
+                    if text.is_empty()
+                        || is_first
+                        || is_last
+                        || self.opt.indent != Indent::None
+                        || !self.is_text_content_element()
+                    {
+                        return Ok(());
+                    }
+                    // The words of the siblings are kept apart
+                    self.before_write_text(false)?;
+                    self.fmt_writer
+                        .write_char(' ')
+                        .map_err(|_| self.fmt_writer.take_err())?;
+                    self.state = State::Document;
                     return Ok(());
                 }
                 self.before_write_text(false)?;
-- 
2.43.0


From c7d002f4501c1347fa623fdcf898f454254d2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:37 +0000
Subject: [PATCH 35/74] fix: attach a parsed style sheet to its element once

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 81341af..986d2dc 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -206,8 +206,7 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
         roxmltree::NodeType::Element => {
             let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
-            if let Some(style) = style {
-                attach_child(child, style);
+            if style.is_some() {
                 return Ok(child);
             }
             child
-- 
2.43.0


From 5d6405df9be44af1f52e106f5889894d5b28dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:30 +0000
Subject: [PATCH 36/74] fix: write processing instructions anywhere in a
 document

---
 crates/oxvg_ast/src/serialize.rs |  2 +-
 crates/oxvg_ast/src/xmlwriter.rs | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/serialize.rs b/crates/oxvg_ast/src/serialize.rs
index ebba671..1fe8e1e 100644
--- a/crates/oxvg_ast/src/serialize.rs
+++ b/crates/oxvg_ast/src/serialize.rs
@@ -114,7 +114,7 @@ fn serialize_node<'arena, W: Write>(
         node::Type::Comment => xml.write_comment(&node.text_content().unwrap_or_default())?,
         node::Type::ProcessingInstruction => {
             let (target, value) = node.processing_instruction().expect("expected pi");
-            xml.write_declaration(&target, &value)?;
+            xml.write_processing_instruction(&target, &value)?;
         }
         node::Type::Document | node::Type::DocumentType | node::Type::DocumentFragment => {}
     }
diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 485614e..abe62bf 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -492,6 +492,27 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         if self.state != State::Empty {
             return Err(XmlWriterError::DeclarationAlreadyWritten);
         }
+        self.write_processing_instruction(target, value)
+    }
+
+    /// Writes a processing instruction.
+    ///
+    /// # Errors
+    ///
+    /// When io fails.
+    #[inline(never)]
+    pub fn write_processing_instruction(&mut self, target: &Atom, value: &Option<Atom>) -> Result {
+        if self.state == State::Attributes {
+            self.write_open_element()?;
+        }
+        self.write_close_cdata()?;
+
+        if self.state != State::Empty {
+            self.write_new_line()?;
+        }
+
+        self.write_node_indent()?;
+
         self.fmt_writer
             .writer
             .write_fmt(format_args!("<?{target}"))
-- 
2.43.0


From e372e29b388a711a41e402089986b312fc0f9d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:24 +0000
Subject: [PATCH 37/74] fix: limit namespace declarations to their element

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 102 +++++++++++--------------
 1 file changed, 45 insertions(+), 57 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 986d2dc..36acafb 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -6,7 +6,9 @@
 //!
 //! - Default PI is skipped
 //! - Duplicate namespace uris are merged
-use std::{cell::RefCell, collections::HashMap, fmt::Display};
+#[cfg(feature = "range")]
+use std::collections::HashMap;
+use std::{cell::RefCell, fmt::Display};
 
 use lightningcss::{
     rules::CssRuleList,
@@ -36,34 +38,43 @@ pub enum ParseError {
     IO(std::io::Error),
 }
 
+/// The namespace declarations that are in scope, innermost last.
 #[derive(Debug, Default)]
-struct NamespaceMap<'input> {
-    prefix_to_uri: HashMap<Option<&'input str>, Option<&'input str>>,
-    uri_to_prefix: HashMap<Option<&'input str>, Option<&'input str>>,
-}
+struct NamespaceMap<'input>(Vec<(Option<&'input str>, &'input str)>);
 
-#[allow(clippy::ref_option)]
 impl<'input> NamespaceMap<'input> {
     fn new() -> Self {
         Self::default()
     }
 
-    fn insert(
-        &mut self,
-        prefix: Option<&'input str>,
-        uri: Option<&'input str>,
-    ) -> Option<(Option<&'input str>, Option<&'input str>)> {
-        let p = self.uri_to_prefix.insert(uri, prefix);
-        let u = self.prefix_to_uri.insert(prefix, uri);
-        Some((p?, u?))
+    fn insert(&mut self, prefix: Option<&'input str>, uri: &'input str) {
+        self.0.push((prefix, uri));
     }
 
-    fn get_by_uri(&self, uri: Option<&'input str>) -> Option<&'input str> {
-        self.uri_to_prefix.get(&uri).copied().flatten()
+    fn get_by_prefix(&self, prefix: Option<&str>) -> Option<&'input str> {
+        self.0
+            .iter()
+            .rfind(|(other, _)| *other == prefix)
+            .map(|(_, uri)| *uri)
     }
 
-    fn get_by_prefix(&self, prefix: Option<&'input str>) -> Option<&'input str> {
-        self.prefix_to_uri.get(&prefix).copied().flatten()
+    /// Returns the prefix that stands for the uri, where no prefix is needed if it's the default.
+    fn get_by_uri(&self, uri: Option<&str>) -> Option<&'input str> {
+        let uri = uri?;
+        if self.get_by_prefix(None) == Some(uri) {
+            return None;
+        }
+        self.get_prefix_by_uri(uri)
+    }
+
+    /// Returns the innermost prefix that stands for the uri.
+    fn get_prefix_by_uri(&self, uri: &str) -> Option<&'input str> {
+        self.0
+            .iter()
+            .rev()
+            .filter(|(_, other)| *other == uri)
+            .filter_map(|(prefix, _)| *prefix)
+            .find(|prefix| self.get_by_prefix(Some(prefix)) == Some(uri))
     }
 }
 
@@ -84,7 +95,7 @@ where
     let mut allocator = Allocator::new(arena, values);
 
     let mut namespace_map = NamespaceMap::new();
-    namespace_map.insert(Some("xml"), Some("http://www.w3.org/XML/1998/namespace"));
+    namespace_map.insert(Some("xml"), "http://www.w3.org/XML/1998/namespace");
 
     let document = allocator.alloc(NodeData::Document);
     let document = parse_xml_node_children(
@@ -200,13 +211,14 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         return Err(ParseError::NodesLimitReached);
     }
 
-    let mut popped_ns: Vec<(Option<&'a str>, Option<&'a str>)> = vec![];
+    let outer_scope = namespace_map.0.len();
     let child = match node.node_type() {
         roxmltree::NodeType::Root => create_root(allocator),
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
         roxmltree::NodeType::Element => {
-            let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
+            let (child, style) = parse_element(allocator, node, namespace_map);
             if style.is_some() {
+                namespace_map.0.truncate(outer_scope);
                 return Ok(child);
             }
             child
@@ -215,9 +227,7 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::Text => parse_text(allocator, node),
     };
     parse_xml_node_children(child, allocator, node, depth + 1, namespace_map)?;
-    for (prefix, value) in popped_ns {
-        namespace_map.insert(prefix, value);
-    }
+    namespace_map.0.truncate(outer_scope);
     Ok(child)
 }
 
@@ -225,10 +235,7 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     arena: &mut Allocator<'a, 'arena>,
     xml_node: roxmltree::Node<'a, 'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
 ) -> (Ref<'a, 'arena>, Option<Ref<'a, 'arena>>) {
-    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
-
     let xml_node_namespaces = xml_node.namespaces();
     let xml_node_attributes = xml_node.attributes();
     #[cfg(feature = "range")]
@@ -236,7 +243,8 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     #[cfg(feature = "range")]
     let range = xml_node.range();
     let mut attrs = Vec::with_capacity(xml_node_attributes.len() + xml_node_namespaces.len());
-    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map, popped_ns)));
+    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map)));
+    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
     attrs.extend(xml_node_attributes.map(|attr| {
         #[cfg(feature = "range")]
         let range = crate::node::Ranges {
@@ -334,7 +342,7 @@ fn parse_attr<'a, 'input: 'a>(
     value: &'input str,
 ) -> Attr<'a> {
     let ns = attr.namespace();
-    let prefix = namespace_map.get_by_uri(ns);
+    let prefix = ns.and_then(|ns| namespace_map.get_prefix_by_uri(ns));
     let ns = ns.map_or_else(
         || namespace_map.get_by_prefix(None).unwrap_or_default().into(),
         Into::into,
@@ -358,50 +366,30 @@ fn parse_expanded_name<'a, 'input: 'a>(
     ElementId::new(prefix, name.name().into())
 }
 
-#[allow(clippy::option_option)]
 /// When a new value for `ns` is found, add it to `namespace_map`
 /// and return an `xmlns` attribute to add to the source element.
 fn find_new_xmlns<'a, 'input: 'a>(
     ns: &'a roxmltree::Namespace<'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
 ) -> Option<Attr<'a>> {
-    if find_xml_uri(ns, namespace_map) {
+    let uri = ns.uri();
+    if namespace_map.get_by_prefix(ns.name()).unwrap_or_default() == uri {
         return None;
     }
-    let uri = ns.uri();
-    if let Some(prefix) = ns.name() {
-        if namespace_map.get_by_prefix(None) != Some(uri)
-            && let Some(popped) = namespace_map.insert(Some(prefix), Some(uri))
-        {
-            popped_ns.push(popped);
-        }
+    namespace_map.insert(ns.name(), uri);
+    Some(if let Some(prefix) = ns.name() {
         // return `xmlns:ns="uri"`
-        Some(Attr::Unparsed {
+        Attr::Unparsed {
             attr_id: AttrId::Unknown(QualName {
                 prefix: Prefix::XMLNS,
                 local: prefix.into(),
             }),
             value: uri.into(),
-        })
-    } else if !ns.uri().is_empty() {
-        if let Some(popped) = namespace_map.insert(None, Some(uri)) {
-            popped_ns.push(popped);
         }
-        // return `xmlns="uri"`
-        Some(Attr::XMLNS(uri.into()))
-    } else {
-        // no new xmlns
-        None
-    }
-}
-
-fn find_xml_uri(ns: &roxmltree::Namespace, namespace_map: &mut NamespaceMap) -> bool {
-    if let Some(el) = namespace_map.get_by_prefix(ns.name()) {
-        el == ns.uri()
     } else {
-        false
-    }
+        // return `xmlns="uri"`
+        Attr::XMLNS(uri.into())
+    })
 }
 
 impl Display for ParseError {
-- 
2.43.0


From 8a6a76ab672ea6565a95f24b2ae63b825d9b95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:32 +0000
Subject: [PATCH 38/74] fix: keep references when ids are not prefixed

---
 crates/oxvg_optimiser/src/jobs/prefix_ids.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
index fcfdaae..2f12464 100644
--- a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
@@ -141,9 +141,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for PrefixIds {
                     Self::prefix_id(class, &mut prefix_generator);
                 });
             }
-            value.visit_url(|url| {
-                Self::prefix_reference(url, &mut prefix_generator);
-            });
+            if self.prefix_ids {
+                value.visit_url(|url| {
+                    Self::prefix_reference(url, &mut prefix_generator);
+                });
+            }
         }
 
         Ok(())
-- 
2.43.0


From 24c0fe30feb194ad7aab378e458cf7b2aa3e027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:32 +0000
Subject: [PATCH 39/74] fix: keep referenced ids when they are not minified

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index ee95858..f4db977 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -219,7 +219,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     generated_id.next();
                 }
                 if !is_attribute!(name, Id) {
-                    used_ids.insert(minified_id.clone());
+                    used_ids.insert(if self.options.minify {
+                        minified_id.clone()
+                    } else {
+                        referenced_id.clone()
+                    });
                 }
                 if self.options.minify {
                     log::debug!(
@@ -247,7 +251,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     generated_id.next();
                 }
                 if !is_attribute!(name, Id) {
-                    used_ids.insert(minified_id.clone());
+                    used_ids.insert(if self.options.minify {
+                        minified_id.clone()
+                    } else {
+                        referenced_id.clone()
+                    });
                 }
                 if self.options.minify {
                     log::debug!(
-- 
2.43.0


From c6f9ccf755f5fb9e38496a09423944961a47fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:32 +0000
Subject: [PATCH 40/74] fix: keep numeric ids that are referenced

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index f4db977..5b09ffa 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -320,7 +320,7 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
                 };
                 log::debug!("CleanupIds: prepare_id: found id: {id}");
                 let id = id.to_string();
-                if self.replaceable_ids.contains(&id) || id.chars().all(char::is_numeric) {
+                if self.replaceable_ids.contains(&id) || id.is_empty() {
                     log::debug!("CleanupIds: prepare_id: removed redundant id: {id}");
                     return false;
                 }
-- 
2.43.0


From c1e1c74adfaf2fecadd8e9002ade1bd6d8fa8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:52 +0000
Subject: [PATCH 41/74] fix: keep the first of several equal ids

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index 5b09ffa..d0677a3 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -312,8 +312,10 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             self.options.preserve,
             self.options.preserve_prefixes
         );
-        // Find ids
-        for element in root.breadth_first() {
+        // Find ids, in document order as references lead to the first element with the id
+        let mut elements: Vec<_> = root.children_iter().rev().collect();
+        while let Some(element) = elements.pop() {
+            elements.extend(element.children_iter().rev());
             element.attributes().retain(|attr| {
                 let Attr::Id(NonWhitespace(id)) = attr else {
                     return true;
-- 
2.43.0


From ee1a787c8b2ad16283eb74774090f84698f96145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:29 +0000
Subject: [PATCH 42/74] fix: identify elements by their node when matching
 selectors

---
 crates/oxvg_ast/src/selectors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index 0779cdf..2fd9de2 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -345,7 +345,7 @@ impl selectors::Element for SelectElement<'_, '_> {
     type Impl = SelectorImpl;
 
     fn opaque(&self) -> selectors::OpaqueElement {
-        selectors::OpaqueElement::new(self)
+        selectors::OpaqueElement::new(&**self.element)
     }
 
     fn parent_element(&self) -> Option<Self> {
-- 
2.43.0


From 9b1b5f21c4e4f59e05f8dad51618afd09ad4c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:29 +0000
Subject: [PATCH 43/74] fix: ignore comments when matching :empty

---
 crates/oxvg_ast/src/selectors.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index 2fd9de2..e7b5fbd 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -521,12 +521,16 @@ impl selectors::Element for SelectElement<'_, '_> {
 
     fn is_empty(&self) -> bool {
         !self.element.has_child_nodes()
-            || self.element.child_nodes_iter().all(|child| {
-                child.node_type() == node::Type::Text
-                    && child
+            || self
+                .element
+                .child_nodes_iter()
+                .all(|child| match child.node_type() {
+                    node::Type::Comment | node::Type::ProcessingInstruction => true,
+                    node::Type::Text => child
                         .text_content()
-                        .is_none_or(|string| string.trim().is_empty())
-            })
+                        .is_none_or(|string| string.trim().is_empty()),
+                    _ => false,
+                })
     }
 
     fn is_root(&self) -> bool {
-- 
2.43.0


From 6eb0f666f8989044b808054af152df31e9e095e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:41 +0000
Subject: [PATCH 44/74] fix: match names with capital letters in selectors

---
 crates/oxvg_ast/src/selectors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index e7b5fbd..ac635fd 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -377,7 +377,7 @@ impl selectors::Element for SelectElement<'_, '_> {
     }
 
     fn is_html_element_in_html_document(&self) -> bool {
-        true
+        false
     }
 
     fn has_local_name(
-- 
2.43.0


From c6d9ec66ed561f26ecfb500a16cd209cdc59b925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:15 +0000
Subject: [PATCH 45/74] fix: use the last of several declarations in a style
 attribute

---
 crates/oxvg_ast/src/style.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 24510c5..73acbc6 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -436,7 +436,7 @@ impl<'input> ComputedStyles<'input> {
                 inline
                     .important_declarations
                     .iter()
-                    .find(|css| css.property_id() == *id)
+                    .rfind(|css| css.property_id() == *id)
                     .cloned()
                     .map(|css| (css, Mode::Static))
             })
@@ -457,7 +457,7 @@ impl<'input> ComputedStyles<'input> {
                     inline
                         .declarations
                         .iter()
-                        .find(|css| css.property_id() == *id)
+                        .rfind(|css| css.property_id() == *id)
                         .cloned()
                         .map(|css| (css, Mode::Static))
                 })
-- 
2.43.0


From b4b84a45716778f916dde8484dc7f8d7471a0d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:15 +0000
Subject: [PATCH 46/74] fix: match each selector of a list on its own

---
 crates/oxvg_ast/src/style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 73acbc6..947dc55 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -299,11 +299,11 @@ impl<'input> ComputedStyles<'input> {
                             selector: r.selectors.clone(),
                         }
                     })?;
+                    selector.pop();
                     if !select.matches_naive(&SelectElement::new(element)) {
                         continue;
                     }
                     self.add_declarations(&r.declarations, specificity + s.specificity(), mode);
-                    selector.pop();
                 }
                 Ok(())
             }
-- 
2.43.0


From 8cdc6028fd145485c46c862eeb960b2d11fcc0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:15 +0000
Subject: [PATCH 47/74] fix: prefer the declaration with the highest
 specificity

---
 crates/oxvg_ast/src/style.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 947dc55..c8bb6f8 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -513,6 +513,9 @@ impl<'input> ComputedStyles<'input> {
     ) {
         for d in declarations {
             let id = d.property_id();
+            if record.get(&id).is_some_and(|(other, _)| *other > specificity) {
+                continue;
+            }
             record.insert(id, (specificity, mode.style(Static::Css(d.clone()))));
         }
     }
-- 
2.43.0


From c417bc61e498ff6f430139024dd8bcb02f5fe75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:15 +0000
Subject: [PATCH 48/74] fix: prefer style sheets to attributes in inherited
 styles

---
 crates/oxvg_ast/src/style.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index c8bb6f8..7553a34 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -213,12 +213,6 @@ impl<'input> ComputedStyles<'input> {
         }
         let parent_styles = ComputedStyles::default().with_all(parent, styles)?;
         self.inherited.extend(parent_styles.inherited);
-        self.inherited.extend(
-            parent_styles
-                .declarations
-                .into_iter()
-                .map(|(id, value)| (id.name().to_string(), value.1)),
-        );
         self.inherited
             .extend(parent_styles.attr.into_iter().map(|attr| {
                 (
@@ -226,6 +220,12 @@ impl<'input> ComputedStyles<'input> {
                     Style::Static(Static::Attr(attr.clone())),
                 )
             }));
+        self.inherited.extend(
+            parent_styles
+                .declarations
+                .into_iter()
+                .map(|(id, value)| (id.name().to_string(), value.1)),
+        );
         let (inline, important_inline) = parent_styles
             .inline
             .map(|style| (style.declarations, style.important_declarations))
-- 
2.43.0


From 5cb2d8e22891babb3370f842cbd7527493604cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:02 +0000
Subject: [PATCH 49/74] fix: write a close command only at the end of a segment

---
 crates/oxvg_path/src/paths/segment/convert.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index 3d1c7c6..a150a9e 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -310,6 +310,8 @@ impl Path {
                     segment_start,
                     start,
                     *to,
+                    next.is_none(),
+                    close,
                     implicit.as_ref(),
                     precision,
                 ),
@@ -364,16 +366,19 @@ impl Path {
         crate::Path(commands)
     }
 
+    #[allow(clippy::too_many_arguments)]
     fn to_svg_line(
         previous: Option<&command::Data>,
         segment_start: Point,
         start: Point,
         to: Point,
+        is_end: bool,
+        close: bool,
         implicit: Option<&ID>,
         precision: TolerancePrecision,
     ) -> command::Data {
         let by = to - start;
-        if start == to {
+        if close && start == to {
             command::Data::ClosePath
         } else if precision.round(to.x) == precision.round(start.x) {
             let v_to = command::Data::VerticalLineTo([to.y]);
@@ -383,7 +388,7 @@ impl Path {
             let h_to = command::Data::HorizontalLineTo([to.x]);
             let h_by = command::Data::HorizontalLineBy([by.x]);
             compactest(previous, h_by, h_to, implicit, precision)
-        } else if to == segment_start {
+        } else if is_end && to == segment_start {
             command::Data::ClosePath
         } else {
             let l_to = command::Data::LineTo(to.into());
-- 
2.43.0


From 7c523cd3c058d8e6e0c2ffcc74db0cf68d791ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:15 +0000
Subject: [PATCH 50/74] fix: write a smooth curve only after a curve of its own
 kind

---
 crates/oxvg_path/src/paths/segment/convert.rs | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index a150a9e..9598bff 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -400,14 +400,14 @@ impl Path {
     #[allow(clippy::too_many_arguments)]
     pub(crate) fn to_svg_curve(
         previous: Option<&command::Data>,
-        control: Option<Point>,
+        control: Option<Control>,
         start: Point,
         curve: &Curve,
         next: Option<&Data>,
         implicit: Option<&ID>,
         tolerance_squared: ToleranceSquared,
         precision: TolerancePrecision,
-    ) -> (command::Data, Option<Point>) {
+    ) -> (command::Data, Option<Control>) {
         let start_control = curve.start_control;
         let end_control = curve.end_control;
         let to = curve.end_point;
@@ -415,8 +415,16 @@ impl Path {
 
         let mut candidates = Vec::with_capacity(4);
 
-        let (_, smooth_bezier, quadratic_bezier, smooth_quadratic_bezier) =
-            curve.types(start, control, tolerance_squared);
+        // A smooth curve reflects the control point of a previous curve of its own kind.
+        let (cubic_control, quad_control) = match control {
+            Some(Control::Cubic(c)) => (Some(c), None),
+            Some(Control::Quadratic(c)) => (None, Some(c)),
+            None => (None, None),
+        };
+        let smooth_bezier = curve.smooth_bezier(start, cubic_control, tolerance_squared);
+        let quadratic_bezier = curve.quadratic_bezier(start, tolerance_squared);
+        let smooth_quadratic_bezier =
+            curve.smooth_quadratic_bezier(start, quad_control, tolerance_squared);
         if let Some(SmoothBezierTo {
             end_control,
             end_point: _,
@@ -498,13 +506,13 @@ impl Path {
         let result = compactest_vec(previous, candidates, implicit, precision);
         let control = match result.id().as_explicit() {
             ID::QuadraticBezierTo | ID::QuadraticBezierBy => {
-                quadratic_bezier.map(|q| q.quad_control)
+                quadratic_bezier.map(|q| Control::Quadratic(q.quad_control))
             }
             ID::SmoothQuadraticBezierTo | ID::SmoothQuadraticBezierBy => {
-                control.map(|c| c.reflect(start))
+                quad_control.map(|c| Control::Quadratic(c.reflect(start)))
             }
             ID::CubicBezierTo | ID::CubicBezierBy | ID::SmoothBezierBy | ID::SmoothBezierTo => {
-                Some(quadratic_bezier.map_or(end_control, |q| q.quad_control))
+                Some(Control::Cubic(end_control))
             }
             _ => None,
         };
-- 
2.43.0


From 7e2ad7349d43435ee7a991315f01d6cf7b5dd4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:15 +0000
Subject: [PATCH 51/74] fix: start each segment without a control point to
 reflect

---
 crates/oxvg_path/src/paths/segment/convert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index 9598bff..53e6bf1 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -293,7 +293,7 @@ impl Path {
             close,
         } in self.iter_start_cursor()
         {
-            let control = last_control.take();
+            let mut control = last_control.take();
             let Some(data) = data else {
                 let mut m = command::Data::MoveTo(start.into());
                 m.round(precision);
@@ -301,6 +301,9 @@ impl Path {
                 continue;
             };
             let is_start = command == 0;
+            if is_start {
+                control = None;
+            }
             let previous = if is_start { None } else { commands.last() };
             let implicit = previous.map(|d| d.id().next_implicit());
 
-- 
2.43.0


From b8f61bb98cea8fdcc425e4cfd6e2bc80fa2a3533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:31 +0000
Subject: [PATCH 52/74] fix: keep rounded radii of half ellipses below their
 limit

---
 crates/oxvg_path/src/geometry/arc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/geometry/arc.rs b/crates/oxvg_path/src/geometry/arc.rs
index 9250ca7..da3efed 100644
--- a/crates/oxvg_path/src/geometry/arc.rs
+++ b/crates/oxvg_path/src/geometry/arc.rs
@@ -628,7 +628,9 @@ impl Arc {
         {
             let denom = math::euclid_gcd_lossy(radii.x, radii.y, tolerance, precision);
             let mut simple = radii / denom;
-            while (simple - limit).quadrant() == Quadrant::A {
+            // The radii are scaled up to fit only if they're still too small once rounded
+            let round = |p: Point| Point::new(precision.round(p.x), precision.round(p.y));
+            while (round(simple) - limit).quadrant() != Quadrant::C {
                 simple /= 2.0;
             }
             radii = simple;
-- 
2.43.0


From 2a5e10224b1196af55cec755f155bb292635dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:45:12 +0000
Subject: [PATCH 53/74] fix: keep curves that go beyond their end points

---
 crates/oxvg_path/src/geometry/curve.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/geometry/curve.rs b/crates/oxvg_path/src/geometry/curve.rs
index 27561e8..0123196 100644
--- a/crates/oxvg_path/src/geometry/curve.rs
+++ b/crates/oxvg_path/src/geometry/curve.rs
@@ -289,11 +289,20 @@ impl Curve {
     pub fn is_straight(&self, start: Point, tolerance: &Tolerance) -> bool {
         let chord = start.distance(self.end_point);
         if chord < tolerance.positional {
-            return true;
+            return start.distance(self.start_control) < tolerance.positional
+                && start.distance(self.end_control) < tolerance.positional;
         }
         let tolerance_scaled = tolerance.positional * chord;
+        // The curve may go beyond its end points if a control does
+        let direction = self.end_point - start;
+        let is_between = |control: Point| {
+            let t = direction.dot(control - start);
+            t > -tolerance_scaled && t < chord * chord + tolerance_scaled
+        };
         start.cross(self.end_point, self.start_control).abs() < tolerance_scaled
             && start.cross(self.end_point, self.end_control).abs() < tolerance_scaled
+            && is_between(self.start_control)
+            && is_between(self.end_control)
     }
 
     /// Returns various bezier forms of the curve.
-- 
2.43.0


From 9efced437c7ca3bb0acb7f72cab57159daea7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:50:37 +0000
Subject: [PATCH 54/74] fix: keep curves that turn back instead of fitting an
 arc

---
 crates/oxvg_path/src/geometry/ellipses.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/oxvg_path/src/geometry/ellipses.rs b/crates/oxvg_path/src/geometry/ellipses.rs
index cc57860..969bfa2 100644
--- a/crates/oxvg_path/src/geometry/ellipses.rs
+++ b/crates/oxvg_path/src/geometry/ellipses.rs
@@ -134,6 +134,17 @@ impl Ellipses {
         {
             return None;
         }
+        // A fitting arc never turns back along its chord, so neither may the controls
+        let chord = curve.end_point - start;
+        let chord_squared = start.distance_squared(curve.end_point);
+        let give = chord_squared * 0.01;
+        if [curve.start_control, curve.end_control]
+            .into_iter()
+            .map(|control| chord.dot(control - start))
+            .any(|t| t < -give || t > chord_squared + give)
+        {
+            return None;
+        }
         // Find circumcircle
         let middle = curve.point_at_from(start, 0.5);
         let end = curve.end_point;
-- 
2.43.0


From 9b49ce8b78e46bff27f543ebb13fc2b0e9b05432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:26 +0000
Subject: [PATCH 55/74] fix: join arcs only if they turn the same way

---
 crates/oxvg_path/src/geometry/arc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/oxvg_path/src/geometry/arc.rs b/crates/oxvg_path/src/geometry/arc.rs
index da3efed..da70711 100644
--- a/crates/oxvg_path/src/geometry/arc.rs
+++ b/crates/oxvg_path/src/geometry/arc.rs
@@ -513,6 +513,9 @@ impl Arc {
         tolerance: &Tolerance,
         tolerance_squared: ToleranceSquared,
     ) -> bool {
+        if self.is_clockwise() != other.is_clockwise() {
+            return false;
+        }
         let self_chord_sq = self.start_point().distance_squared(self.end_point());
         let other_chord_sq = other.start_point().distance_squared(other.end_point());
 
-- 
2.43.0


From 844caaed20957717bd27b98ea2d1b7ea67f7c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:09 +0000
Subject: [PATCH 56/74] fix: join arcs only up to a full turn

---
 crates/oxvg_path/src/geometry/arc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/geometry/arc.rs b/crates/oxvg_path/src/geometry/arc.rs
index da70711..4aed671 100644
--- a/crates/oxvg_path/src/geometry/arc.rs
+++ b/crates/oxvg_path/src/geometry/arc.rs
@@ -1,7 +1,7 @@
 //! Types for representing elliptical arcs.
 use std::{
     cell::Cell,
-    f64::consts::{FRAC_PI_8, PI},
+    f64::consts::{FRAC_PI_8, PI, TAU},
 };
 
 use crate::{
@@ -11,6 +11,9 @@ use crate::{
     math::{self, radius_factor},
 };
 
+/// How far beyond a full turn joined arcs may go, since the angles of fitted arcs aren't exact.
+const FULL_TURN_SLACK: f64 = 0.01;
+
 #[derive(Clone, PartialEq)]
 /// An arc curve to some point.
 pub struct Arc {
@@ -516,6 +519,9 @@ impl Arc {
         if self.is_clockwise() != other.is_clockwise() {
             return false;
         }
+        if (self.sweep_angle() + other.sweep_angle()).abs() > TAU + FULL_TURN_SLACK {
+            return false;
+        }
         let self_chord_sq = self.start_point().distance_squared(self.end_point());
         let other_chord_sq = other.start_point().distance_squared(other.end_point());
 
-- 
2.43.0


From 6cd66edae65d2e464ead7876568af5c1fcf9c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:09 +0000
Subject: [PATCH 57/74] fix: split joined arcs that almost make a full turn

---
 crates/oxvg_path/src/paths/segment/simplify.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/simplify.rs b/crates/oxvg_path/src/paths/segment/simplify.rs
index 0bf42bf..62bb407 100644
--- a/crates/oxvg_path/src/paths/segment/simplify.rs
+++ b/crates/oxvg_path/src/paths/segment/simplify.rs
@@ -327,8 +327,10 @@ impl Path {
                             current.set_end_point_memo(end_point);
                             *previous = current;
                         }
-                        if previous.sweep_angle().abs() > 2.0 * PI - tolerance.angular
-                            || previous.end_point() == start
+                        // An arc can't be drawn when its ends are (almost) the same
+                        let radii = previous.radii();
+                        if previous.sweep_angle().abs() > PI
+                            && previous.end_point().distance(start) < 0.1 * radii.x.min(radii.y)
                         {
                             let delta = PI.copysign(previous.sweep_angle());
                             previous.set_sweep_angle(delta);
-- 
2.43.0


From fec5b5249d46e54cbfbfa5a4e9f1d9ec55bdfec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:41 +0000
Subject: [PATCH 58/74] fix: remove event attributes from every element

---
 crates/oxvg_optimiser/src/jobs/remove_scripts.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
index 7f16c73..4c0a93f 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
@@ -3,7 +3,7 @@ use oxvg_ast::{
     is_element, node,
     visitor::{Context, PrepareOutcome, Visitor},
 };
-use oxvg_collections::attribute::{Attr, AttributeGroup};
+use oxvg_collections::attribute::{Attr, AttrId, AttributeGroup};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
@@ -61,10 +61,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveScripts {
         }
 
         element.attributes().retain(|attr| {
-            !attr
-                .name()
-                .attribute_group()
-                .intersects(AttributeGroup::event())
+            let name = attr.name();
+            let is_event = match name {
+                // An element may have event attributes that aren't expected for it
+                AttrId::Unknown(name) => name.prefix.is_empty() && name.local.starts_with("on"),
+                _ => name.attribute_group().intersects(AttributeGroup::event()),
+            };
+            !is_event
         });
 
         Ok(())
-- 
2.43.0


From d238fcd35b44330243bdb59cd4bc03fee611cde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:03 +0000
Subject: [PATCH 59/74] fix: add classes to a root without classes and keep
 those it has

---
 .../src/jobs/add_classes_to_s_v_g_element.rs  | 54 ++++++++-----------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
index 4b603e0..cb89ab5 100644
--- a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
@@ -1,8 +1,6 @@
-use std::collections::HashSet;
-
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut, is_element,
+    get_attribute, is_element, set_attribute,
     visitor::{Context, Visitor},
 };
 use oxvg_collections::{
@@ -88,45 +86,35 @@ impl<'input, 'arena> Visitor<'input, 'arena> for AddClassesToSVGElement {
     fn element(
         &self,
         element: Element<'input, 'arena>,
-        context: &mut Context<'input, 'arena, '_>,
+        _context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
         if !element.is_root() || !is_element!(element, Svg) {
             return Ok(());
         }
 
-        let Some(mut class) = get_attribute_mut!(element, Class) else {
-            return Ok(());
+        let names: Vec<&str> = match (&self.class_names, &self.class_name) {
+            (Some(names), _) => names.iter().map(String::as_str).collect(),
+            (None, Some(name)) => name.split_whitespace().collect(),
+            (None, None) => return Ok(()),
         };
+        if names.is_empty() {
+            return Ok(());
+        }
 
-        match &self.class_names {
-            Some(names) => {
-                let mut set = HashSet::new();
-                for item in class.list.drain(..) {
-                    set.insert(item);
-                }
-                set.extend(
-                    names
-                        .iter()
-                        .map(|name| &*context.info.allocator.alloc_str(name))
-                        .map(Into::into),
-                );
-                class.list = set.into_iter().collect();
-            }
-            None => match &self.class_name {
-                Some(name) => {
-                    *class = ListOf {
-                        list: name
-                            .split_whitespace()
-                            .map(Atom::from)
-                            .map(Atom::into_owned)
-                            .map(NonWhitespace)
-                            .collect(),
-                        separator: Space,
-                    }
-                }
-                None => return Ok(()),
+        let mut class = get_attribute!(element, Class).map_or_else(
+            || ListOf {
+                list: vec![],
+                separator: Space,
             },
+            |class| class.clone(),
+        );
+        for name in names {
+            let name = NonWhitespace(Atom::from(name).into_owned());
+            if !class.list.contains(&name) {
+                class.list.push(name);
+            }
         }
+        set_attribute!(element, Class(class));
         Ok(())
     }
 }
-- 
2.43.0


From 31176f0312deab689bf14fea1433670428013293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:03 +0000
Subject: [PATCH 60/74] fix: keep other attributes and used declarations when
 removing xlink

---
 .../oxvg_optimiser/src/jobs/remove_xlink.rs   | 83 ++++++-------------
 1 file changed, 24 insertions(+), 59 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
index ca9e1c4..a8c4df5 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
@@ -6,7 +6,6 @@ use oxvg_ast::{
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::{
-    atom::Atom,
     attribute::{Attr, AttrId, uncategorised::Target, xlink::XLinkShow},
     element::{ElementId, ElementInfo},
     is_prefix,
@@ -44,12 +43,10 @@ pub struct RemoveXlink {
     pub include_legacy: bool,
 }
 
-struct State<'o, 'input> {
+struct State<'o> {
     options: &'o RemoveXlink,
-    xlink_prefix_stack: RefCell<Vec<Atom<'input>>>,
-    overridden_prefix_stack: RefCell<Vec<bool>>,
-    /// Tracks when `xlink:href` is used in legacy element
-    used_in_legacy_element_stack: RefCell<Vec<bool>>,
+    /// Tracks for each declaration of xlink in scope when `xlink` attributes remain
+    used_prefix_stack: RefCell<Vec<bool>>,
 }
 
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveXlink {
@@ -62,16 +59,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveXlink {
     ) -> Result<PrepareOutcome, Self::Error> {
         State {
             options: self,
-            xlink_prefix_stack: RefCell::new(vec![]),
-            overridden_prefix_stack: RefCell::new(vec![]),
-            used_in_legacy_element_stack: RefCell::new(vec![]),
+            used_prefix_stack: RefCell::new(vec![]),
         }
         .start_with_context(document, context)?;
         Ok(PrepareOutcome::skip)
     }
 }
 
-impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
+impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
     type Error = JobsError<'input>;
 
     fn element(
@@ -79,28 +74,17 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
         element: Element<'input, 'arena>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
-        let mut xlink_prefix_stack = self.xlink_prefix_stack.borrow_mut();
-        let mut overridden_prefix_stack = self.overridden_prefix_stack.borrow_mut();
-        let mut used_in_legacy_element_stack = self.used_in_legacy_element_stack.borrow_mut();
+        let mut used_prefix_stack = self.used_prefix_stack.borrow_mut();
         for attr in element.attributes() {
             let Attr::Unparsed {
-                attr_id: AttrId::Unknown(QualName { prefix, local }),
+                attr_id: AttrId::Unknown(QualName { prefix, .. }),
                 value,
             } = &*attr
             else {
                 continue;
             };
-            if !is_prefix!(prefix, XMLNS) {
-                continue;
-            }
-            if value == NS::XLink.uri() {
-                xlink_prefix_stack.push(local.clone());
-                overridden_prefix_stack.push(false);
-                used_in_legacy_element_stack.push(false);
-            } else if xlink_prefix_stack.last() == Some(local)
-                && let Some(last) = overridden_prefix_stack.last_mut()
-            {
-                *last = true;
+            if is_prefix!(prefix, XMLNS) && value == NS::XLink.uri() {
+                used_prefix_stack.push(false);
             }
         }
         element.attributes().retain(|attr| {
@@ -108,11 +92,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
         });
         Self::handle_show(element);
         Self::handle_title(element, context);
-        Self::handle_href(
-            element,
-            &mut used_in_legacy_element_stack,
-            self.options.include_legacy,
-        );
+        Self::handle_href(element, self.options.include_legacy);
+        if element
+            .attributes()
+            .into_iter()
+            .any(|attr| attr.prefix().ns() == &NS::XLink)
+        {
+            used_prefix_stack.fill(true);
+        }
 
         Ok(())
     }
@@ -130,34 +117,20 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
             else {
                 return true;
             };
-            if is_prefix!(prefix, XMLNS) && value == NS::XLink.uri() {
-                return false;
+            if !is_prefix!(prefix, XMLNS) || value != NS::XLink.uri() {
+                return true;
             }
 
-            self.xlink_prefix_stack.borrow_mut().pop();
-            let overridden_prefixes = self
-                .overridden_prefix_stack
-                .borrow_mut()
-                .pop()
-                .unwrap_or(false);
-            let used_in_legacy_element = self
-                .used_in_legacy_element_stack
-                .borrow_mut()
-                .pop()
-                .unwrap_or(false);
-            if !self.options.include_legacy && !overridden_prefixes && !used_in_legacy_element {
-                return false;
-            }
-            true
+            self.used_prefix_stack.borrow_mut().pop().unwrap_or(true)
         });
 
         Ok(())
     }
 }
 
-impl<'input> State<'_, 'input> {
+impl State<'_> {
     /// Replaces `xlink:show` with `target` when possible
-    fn handle_show(element: Element<'input, '_>) {
+    fn handle_show<'input>(element: Element<'input, '_>) {
         if has_attribute!(element, Target) {
             remove_attribute!(element, XLinkShow);
             return;
@@ -179,7 +152,7 @@ impl<'input> State<'_, 'input> {
         }
     }
 
-    fn handle_title<'arena>(
+    fn handle_title<'input, 'arena>(
         element: Element<'input, 'arena>,
         context: &Context<'input, 'arena, '_>,
     ) {
@@ -201,19 +174,11 @@ impl<'input> State<'_, 'input> {
         element.insert(0, title_element.0);
     }
 
-    fn handle_href(
-        element: Element<'input, '_>,
-        used_in_legacy_element: &mut [bool],
-        include_legacy: bool,
-    ) {
-        let used_in_legacy_element = used_in_legacy_element.last_mut();
+    fn handle_href<'input>(element: Element<'input, '_>, include_legacy: bool) {
         if has_attribute!(element, Href) {
             return;
         }
         if !include_legacy && element.qual_name().info().contains(ElementInfo::Legacy) {
-            if let Some(value) = used_in_legacy_element {
-                *value = true;
-            }
             return;
         }
 
-- 
2.43.0


From 82aefd413832f4c0d966782928bef705767a34a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:37:12 +0000
Subject: [PATCH 61/74] fix: read the legacy option for removing xlink by its
 documented name

---
 crates/oxvg_optimiser/src/jobs/remove_xlink.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
index a8c4df5..ebf285b 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
@@ -35,7 +35,10 @@ use crate::error::JobsError;
 ///
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveXlink {
-    #[cfg_attr(feature = "serde", serde(default = "bool::default"))]
+    #[cfg_attr(
+        feature = "serde",
+        serde(default = "bool::default", alias = "includeLegacy")
+    )]
     /// Whether to also convert xlink attributes for legacy elements which don't
     /// support the SVG 2 `href` attribute (e.g. `<cursor>`).
     ///
-- 
2.43.0


From 4510bc8e7cbdd534e9304cdb0cb9fa14439e3046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:09:29 +0000
Subject: [PATCH 62/74] fix: keep what a group's style overrides when moving
 attributes to it

Attributes shared by all children were moved to a group whose inline style
sets the same property, an explicit inherit replaced the group's own value,
and a shared transform also moved the group's styled clip, mask or filter.
---
 .../src/jobs/move_elems_attrs_to_group.rs     | 34 +++++++++++++++----
 .../oxvg_optimiser/src/utils/inline_style.rs  | 22 ++++++++++++
 crates/oxvg_optimiser/src/utils/mod.rs        |  1 +
 3 files changed, 51 insertions(+), 6 deletions(-)
 create mode 100644 crates/oxvg_optimiser/src/utils/inline_style.rs

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 58a7668..61629bb 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -2,12 +2,15 @@ use std::collections::BTreeMap;
 
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut, has_attribute, is_attribute, is_element,
+    get_attribute, get_attribute_mut, has_attribute, is_attribute, is_element,
     visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
-use oxvg_collections::attribute::{
-    Attr, AttrId, AttributeInfo,
-    inheritable::{self, Inheritable},
+use oxvg_collections::{
+    attribute::{
+        Attr, AttrId, AttributeInfo,
+        inheritable::{self, Inheritable},
+    },
+    content_type::ContentType,
 };
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -15,7 +18,10 @@ use serde::{Deserialize, Serialize};
 #[cfg(feature = "wasm")]
 use tsify::Tsify;
 
-use crate::error::JobsError;
+use crate::{
+    error::JobsError,
+    utils::inline_style::{has_styled_transform, sets_property},
+};
 
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
@@ -81,9 +87,20 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
         every_child_is_path
             // preserve for pass-through attributes
             || has_attribute!(element, Filter | ClipPath | Mask)
+            || get_attribute!(element, Style).is_some_and(|style| {
+                [AttrId::Filter, AttrId::ClipPath, AttrId::Mask]
+                    .iter()
+                    .any(|name| sets_property(&style, name))
+            })
+            || has_styled_transform(&element)
+            || element.children_iter().any(|e| has_styled_transform(&e))
         {
             common_attributes.remove(&AttrId::Transform);
         }
+        if let Some(style) = get_attribute!(element, Style) {
+            // the group's inline style would override the moved attribute
+            common_attributes.retain(|name, _| !sets_property(&style, name));
+        }
 
         for name in common_attributes.keys() {
             for child in element.children_iter() {
@@ -117,7 +134,12 @@ fn get_common_attributes<'input>(
         .attributes()
         .into_iter()
         .filter(|a| {
-            is_attribute!(a, Transform) || a.name().info().contains(AttributeInfo::Inheritable)
+            is_attribute!(a, Transform)
+                || (a.name().info().contains(AttributeInfo::Inheritable)
+                    && !matches!(
+                        a.value(),
+                        ContentType::Inheritable(value) if Inheritable::Inherited == value
+                    ))
         })
         .map(|a| (a.name().clone(), a.clone()))
         .collect();
diff --git a/crates/oxvg_optimiser/src/utils/inline_style.rs b/crates/oxvg_optimiser/src/utils/inline_style.rs
new file mode 100644
index 0000000..a0751d7
--- /dev/null
+++ b/crates/oxvg_optimiser/src/utils/inline_style.rs
@@ -0,0 +1,22 @@
+use lightningcss::properties::PropertyId;
+use oxvg_ast::{element::Element, get_attribute, has_attribute};
+use oxvg_collections::attribute::{AttrId, core_attrs::Style};
+
+/// Whether an inline style sets the property a presentation attribute stands for
+pub(crate) fn sets_property(style: &Style, name: &AttrId) -> bool {
+    let local_name: &str = name.local_name();
+    style
+        .0
+        .iter()
+        .any(|(property, _)| property.property_id().name() == local_name)
+        || style.0.get(&PropertyId::from(name)).is_some()
+}
+
+/// Whether the element's transform depends on more than the `transform` attribute
+pub(crate) fn has_styled_transform(element: &Element) -> bool {
+    has_attribute!(element, TransformOrigin)
+        || get_attribute!(element, Style).is_some_and(|style| {
+            sets_property(&style, &AttrId::Transform)
+                || sets_property(&style, &AttrId::TransformOrigin)
+        })
+}
diff --git a/crates/oxvg_optimiser/src/utils/mod.rs b/crates/oxvg_optimiser/src/utils/mod.rs
index 063a1aa..95824b0 100644
--- a/crates/oxvg_optimiser/src/utils/mod.rs
+++ b/crates/oxvg_optimiser/src/utils/mod.rs
@@ -1,3 +1,4 @@
+pub(crate) mod inline_style;
 pub(crate) mod minify_style;
 pub(crate) mod regex_memo;
 pub(crate) mod style_info;
-- 
2.43.0


From 6b981944e2768f7861ea62ef21faed68efc0165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:09:29 +0000
Subject: [PATCH 63/74] fix: keep group effects and child styles when
 collapsing groups

Equal values that are not inherited, such as opacity, were dropped, inline
styles moved to the child overrode its attributes, a styled clip or mask
moved with the child's transform, and attributes were left on both when an
animated attribute stopped the move.
---
 .../src/jobs/collapse_groups.rs               | 61 ++++++++++++++++---
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 4726c2d..57dba8e 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -8,7 +8,7 @@ use oxvg_ast::{
 };
 use oxvg_collections::{
     atom::Atom,
-    attribute::{Attr, inheritable::Inheritable},
+    attribute::{Attr, AttrId, AttributeGroup, AttributeInfo, inheritable::Inheritable},
     content_type::ContentType,
     element::ElementCategory,
 };
@@ -18,7 +18,10 @@ use serde::{Deserialize, Serialize};
 #[cfg(feature = "wasm")]
 use tsify::Tsify;
 
-use crate::error::JobsError;
+use crate::{
+    error::JobsError,
+    utils::inline_style::{has_styled_transform, sets_property},
+};
 
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
@@ -111,17 +114,27 @@ fn move_attributes_to_child(element: Element) {
     } else if is_node_with_filter(element) {
         log::debug!("collapse_groups: not moving attrs: filter");
         return;
+    } else if is_style_conflicting(element, first_child) {
+        log::debug!("collapse_groups: not moving attrs: conflicting style");
+        return;
+    } else if element
+        .attributes()
+        .into_iter()
+        .any(|attr| has_animated_attr(first_child, attr.local_name()))
+    {
+        log::debug!("collapse_groups: not moving attrs: has animated_attr");
+        return;
     }
 
     let mut removals = Vec::default();
     let first_child_attrs = first_child.attributes();
     for mut attr in attrs.into_iter_mut() {
         let name = attr.name().clone();
-        let child_attr = first_child_attrs.get_named_item_mut(&name);
-        if has_animated_attr(first_child, name.local_name()) {
-            log::debug!("collapse_groups: canelled moves: has animated_attr");
-            return;
+        if is_applied_separately(first_child, &name) {
+            log::debug!("collapse_groups: not moving {attr:?}: applied by group and child");
+            continue;
         }
+        let child_attr = first_child_attrs.get_named_item_mut(&name);
 
         removals.push(name);
         let Some(mut child_attr) = child_attr else {
@@ -200,9 +213,41 @@ fn is_position_visually_unstable<'input, 'arena>(
     node: Element<'input, 'arena>,
     child: Element<'input, 'arena>,
 ) -> bool {
-    let is_node_clipping = has_attribute!(node, ClipPath | Mask);
+    let is_node_clipping = has_attribute!(node, ClipPath | Mask)
+        || get_attribute!(node, Style).is_some_and(|style| {
+            sets_property(&style, &AttrId::ClipPath) || sets_property(&style, &AttrId::Mask)
+        });
     let is_child_transformed_group = is_element!(child, G) && has_attribute!(child, Transform);
-    is_node_clipping || is_child_transformed_group
+    let is_transform_styled = has_styled_transform(&node)
+        || (has_attribute!(node, Transform) && has_styled_transform(&child));
+    is_node_clipping || is_child_transformed_group || is_transform_styled
+}
+
+/// Whether moving the group's inline styles would override the child's own styles
+fn is_style_conflicting<'input, 'arena>(
+    node: Element<'input, 'arena>,
+    child: Element<'input, 'arena>,
+) -> bool {
+    let Some(style) = get_attribute!(node, Style) else {
+        return false;
+    };
+    has_attribute!(child, Style)
+        || child
+            .attributes()
+            .into_iter()
+            .any(|attr| sets_property(&style, attr.name()))
+}
+
+/// Whether the child sets the same property in a way that merging both would lose one
+fn is_applied_separately<'input>(child: Element<'input, '_>, name: &AttrId<'input>) -> bool {
+    if get_attribute!(child, Style).is_some_and(|style| sets_property(&style, name)) {
+        return true;
+    }
+    name.attribute_group()
+        .contains(AttributeGroup::Presentation)
+        && !name.info().contains(AttributeInfo::Inheritable)
+        && !matches!(name, AttrId::Transform)
+        && child.has_attribute(name)
 }
 
 fn is_node_with_filter(node: Element) -> bool {
-- 
2.43.0


From 6bc0069a1d4380cd1da6bd392e358aef4d76d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:09:29 +0000
Subject: [PATCH 64/74] fix: leave group transforms that are combined with
 styled transforms

The transform moved to children whose transform is set by an inline style or
turned about another origin, where it had another effect or none.
---
 crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs b/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
index 7354a20..679c7b7 100644
--- a/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
@@ -15,7 +15,7 @@ use serde::{Deserialize, Serialize};
 #[cfg(feature = "wasm")]
 use tsify::Tsify;
 
-use crate::error::JobsError;
+use crate::{error::JobsError, utils::inline_style::has_styled_transform};
 
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
@@ -61,7 +61,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveGroupAttrsToElems {
         if element.is_empty() {
             return Ok(());
         }
-        if !has_attribute!(element, Transform) {
+        if !has_attribute!(element, Transform) || has_styled_transform(&element) {
             return Ok(());
         }
         if element.attributes().into_iter_mut().any(|mut a| {
@@ -81,6 +81,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveGroupAttrsToElems {
             let name = e.qual_name();
             !(is_element!(name, G | Text) || name.expected_attributes().contains(&AttrId::D))
                 || has_attribute!(e, Id)
+                || has_styled_transform(&e)
         }) {
             return Ok(());
         }
-- 
2.43.0


From dcd5543ac94149c877d263e8ec5d450ba886d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:09:29 +0000
Subject: [PATCH 65/74] fix: keep transform-origin on groups

---
 crates/oxvg_collections/src/attribute.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_collections/src/attribute.rs b/crates/oxvg_collections/src/attribute.rs
index 9117ce4..bde11d1 100644
--- a/crates/oxvg_collections/src/attribute.rs
+++ b/crates/oxvg_collections/src/attribute.rs
@@ -2573,6 +2573,7 @@ define_attrs! {
     TransformOrigin(Position) {
         name: "transform-origin",
         categories: AttributeGroup::Presentation,
+        info: AttributeInfo::PresentationNonInheritableGroupAttrs,
         default: Position {
             x: HorizontalPosition::Length(DimensionPercentage::Percentage(Percentage(50.0))),
             y: VerticalPosition::Length(DimensionPercentage::Percentage(Percentage(50.0))),
-- 
2.43.0


From 87906c58f722b1ddca54415b1a061fd3f0fd68db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:36 +0000
Subject: [PATCH 66/74] fix: leave attributes of children that may be used
 elsewhere

An attribute moved to the group no longer reached a child drawn through a
reference to its id.
---
 crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 61629bb..11aa2d5 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -77,6 +77,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
             return Ok(());
         }
 
+        if element.children_iter().any(|e| has_attribute!(e, Id)) {
+            log::debug!("not moving attrs, a child may be used elsewhere");
+            return Ok(());
+        }
+
         let every_child_is_path = element
             .children_iter()
             .all(|e| e.qual_name().expected_attributes().contains(&AttrId::D));
-- 
2.43.0


From 2849fe56f5b254ffe7256b7d09df75752a858b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:36 +0000
Subject: [PATCH 67/74] fix: move attributes of a group as a whole when
 collapsing it

The id moved to the child while an effect stayed on the group, so a reference
to it drew something else, and a child with an id took over attributes if
both had a class.
---
 .../src/jobs/collapse_groups.rs               | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 57dba8e..330612e 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -105,7 +105,7 @@ fn move_attributes_to_child(element: Element) {
         return;
     }
 
-    if is_group_identifiable(element, first_child) {
+    if is_group_identifiable(first_child) {
         log::debug!("collapse_groups: not moving attrs: identifiable");
         return;
     } else if is_position_visually_unstable(element, first_child) {
@@ -124,16 +124,19 @@ fn move_attributes_to_child(element: Element) {
     {
         log::debug!("collapse_groups: not moving attrs: has animated_attr");
         return;
+    } else if element
+        .attributes()
+        .into_iter()
+        .any(|attr| is_applied_separately(first_child, attr.name()))
+    {
+        log::debug!("collapse_groups: not moving attrs: applied by group and child");
+        return;
     }
 
     let mut removals = Vec::default();
     let first_child_attrs = first_child.attributes();
     for mut attr in attrs.into_iter_mut() {
         let name = attr.name().clone();
-        if is_applied_separately(first_child, &name) {
-            log::debug!("collapse_groups: not moving {attr:?}: applied by group and child");
-            continue;
-        }
         let child_attr = first_child_attrs.get_named_item_mut(&name);
 
         removals.push(name);
@@ -202,11 +205,8 @@ fn has_animated_attr<'input>(element: Element<'input, '_>, local_name: &Atom<'in
     false
 }
 
-fn is_group_identifiable<'input, 'arena>(
-    node: Element<'input, 'arena>,
-    child: Element<'input, 'arena>,
-) -> bool {
-    has_attribute!(child, Id) && (!has_attribute!(node, Class) || !has_attribute!(child, Class))
+fn is_group_identifiable<'input, 'arena>(child: Element<'input, 'arena>) -> bool {
+    has_attribute!(child, Id)
 }
 
 fn is_position_visually_unstable<'input, 'arena>(
-- 
2.43.0


From 994c4fe448b6006a8b6e567766d4eaeed70366ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:24:44 +0000
Subject: [PATCH 68/74] fix: keep ellipses with percentage radii

Percentages of the two radii are of different lengths, so equal percentages
do not make a circle.
---
 .../oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs b/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
index b77ad6c..c1d8432 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
@@ -81,6 +81,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertEllipseToCircle {
             },
         }
         .cloned();
+        if radius.as_ref().is_some_and(|radius| {
+            !matches!(
+                radius.0,
+                lightningcss::values::length::LengthPercentage::Dimension(_)
+            )
+        }) {
+            // The percentages of each radius are of different lengths
+            return Ok(());
+        }
         log::debug!("derived {radius:?} from {rx:?}, {ry:?}");
 
         drop(rx);
-- 
2.43.0


From 6a43e541ed1df3da17a47fb4d6cf409341e49c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:24:44 +0000
Subject: [PATCH 69/74] fix: convert only shapes that are drawn, with the radii
 they are drawn with

Ellipses with one radius lost the other, empty rectangles and circles became
paths whose stroke is drawn, and ellipses were kept or converted by whether a
style sheet names circles.
---
 .../src/jobs/convert_shape_to_path.rs         | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
index f78f6ea..701461f 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
@@ -181,7 +181,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
             }
 
             ElementId::Ellipse
-                if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Circle) =>
+                if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Ellipse) =>
             {
                 ConvertShapeToPath::ellipse_to_path(element, precision, context.info);
             }
@@ -236,6 +236,10 @@ impl ConvertShapeToPath {
         let Some(height) = get_attribute!(element, HeightRect).and_then(lp_px) else {
             return;
         };
+        if width <= 0.0 || height <= 0.0 {
+            // Not rendered, unlike the stroke of an empty path
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([x, y]),
@@ -349,6 +353,9 @@ impl ConvertShapeToPath {
         }) else {
             return;
         };
+        if r <= 0.0 {
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([cx, cy - r]),
@@ -387,18 +394,23 @@ impl ConvertShapeToPath {
         }) else {
             return;
         };
-        let Some(rx) = (match get_attribute!(element, RX) {
-            Some(rx) => r_px(rx),
-            None => Some(0.0),
-        }) else {
-            return;
+        // A radius that's missing or `auto` is the same as the other
+        let rx = get_attribute!(element, RX).filter(|r| !matches!(**r, Radius::Auto));
+        let ry = get_attribute!(element, RY).filter(|r| !matches!(**r, Radius::Auto));
+        let (rx, ry) = match (rx, ry) {
+            (Some(rx), Some(ry)) => (r_px(rx), r_px(ry)),
+            (Some(r), None) | (None, Some(r)) => {
+                let r = r_px(r);
+                (r, r)
+            }
+            (None, None) => return,
         };
-        let Some(ry) = (match get_attribute!(element, RY) {
-            Some(ry) => r_px(ry),
-            None => Some(0.0),
-        }) else {
+        let (Some(rx), Some(ry)) = (rx, ry) else {
             return;
         };
+        if rx <= 0.0 || ry <= 0.0 {
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([cx, cy - ry]),
-- 
2.43.0


From 8b0d232b80f0ddf481e71456c01f49de900ac19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:27:52 +0000
Subject: [PATCH 70/74] fix: keep inline styles of a group on it where its
 child animates them

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 330612e..cb071b0 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -7,7 +7,6 @@ use oxvg_ast::{
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::{
-    atom::Atom,
     attribute::{Attr, AttrId, AttributeGroup, AttributeInfo, inheritable::Inheritable},
     content_type::ContentType,
     element::ElementCategory,
@@ -191,13 +190,13 @@ fn flatten_when_all_attributes_moved(element: Element) {
     element.flatten();
 }
 
-fn has_animated_attr<'input>(element: Element<'input, '_>, local_name: &Atom<'input>) -> bool {
+fn has_animated_attr(element: Element, local_name: &str) -> bool {
     for child in std::iter::once(element).chain(element.breadth_first()) {
         if child
             .qual_name()
             .categories()
             .intersects(ElementCategory::Animation)
-            && get_attribute!(child, AttributeName).is_some_and(|attr| &*attr == local_name)
+            && get_attribute!(child, AttributeName).is_some_and(|attr| &**attr == local_name)
         {
             return true;
         }
@@ -236,6 +235,10 @@ fn is_style_conflicting<'input, 'arena>(
             .attributes()
             .into_iter()
             .any(|attr| sets_property(&style, attr.name()))
+        || style
+            .0
+            .iter()
+            .any(|(property, _)| has_animated_attr(child, property.property_id().name()))
 }
 
 /// Whether the child sets the same property in a way that merging both would lose one
-- 
2.43.0


From 3c0f1f59af4c5911860447cb7d9bdc2bb1164d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:34:10 +0000
Subject: [PATCH 71/74] fix: keep the precision of transforms next to
 whole-number matrices

A matrix without decimals made every scale round to whole numbers, as in
matrix(2 0 0 2 -9 8)scale(1.25).
---
 crates/oxvg_optimiser/src/jobs/convert_transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_transform.rs b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
index 344ee73..7363997 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_transform.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
@@ -153,7 +153,7 @@ impl ConvertTransform {
                 number_of_decimals = arg_decimal_digits;
             }
         }
-        if is_matrix_data && number_of_decimals < transform_precision {
+        if number_of_decimals > 0 && number_of_decimals < transform_precision {
             transform_precision = number_of_decimals;
         }
         if !is_matrix_data {
-- 
2.43.0


From e107c2548536edb767630d0578f65991faad5d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:42:31 +0000
Subject: [PATCH 72/74] fix: let important styles override the plain ones left
 when converting styles to attributes

---
 .../src/jobs/convert_style_to_attrs.rs               | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs b/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
index 176665c..dcce732 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
@@ -101,9 +101,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertStyleToAttrs {
             .declarations
             .retain(&mut detain_and_collect_presentation_attrs);
         if !self.keep_important {
-            styles
-                .important_declarations
-                .retain(detain_and_collect_presentation_attrs);
+            let declarations = &mut styles.declarations;
+            styles.important_declarations.retain(|property| {
+                let is_kept = detain_and_collect_presentation_attrs(property);
+                if !is_kept {
+                    // A declaration left in the style would override the new attribute
+                    declarations.retain(|other| other.property_id() != property.property_id());
+                }
+                is_kept
+            });
         }
 
         let is_empty = styles.is_empty();
-- 
2.43.0


From cb6a51c106dad3e1adf2f5b97ced0f1b607ae4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:42:32 +0000
Subject: [PATCH 73/74] fix: keep attributes of children whose own style may
 inherit them

---
 crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 11aa2d5..a4fc00a 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -106,6 +106,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
             // the group's inline style would override the moved attribute
             common_attributes.retain(|name, _| !sets_property(&style, name));
         }
+        for child in element.children_iter() {
+            if let Some(style) = get_attribute!(child, Style) {
+                // the child's inline style may inherit the moved attribute
+                common_attributes.retain(|name, _| !sets_property(&style, name));
+            }
+        }
 
         for name in common_attributes.keys() {
             for child in element.children_iter() {
-- 
2.43.0


From 27318b4381aa7c0e7f4c240292deaf0f841ee4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:05:34 +0000
Subject: [PATCH 74/74] fix: keep groups together whose style overrides their
 own attributes

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index cb071b0..ede926e 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -222,7 +222,8 @@ fn is_position_visually_unstable<'input, 'arena>(
     is_node_clipping || is_child_transformed_group || is_transform_styled
 }
 
-/// Whether moving the group's inline styles would override the child's own styles
+/// Whether moving the group's inline styles would override the child's own styles, or
+/// moving its attributes would override its inline styles
 fn is_style_conflicting<'input, 'arena>(
     node: Element<'input, 'arena>,
     child: Element<'input, 'arena>,
@@ -231,9 +232,10 @@ fn is_style_conflicting<'input, 'arena>(
         return false;
     };
     has_attribute!(child, Style)
-        || child
+        || node
             .attributes()
             .into_iter()
+            .chain(child.attributes())
             .any(|attr| sets_property(&style, attr.name()))
         || style
             .0
-- 
2.43.0

