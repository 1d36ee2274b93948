From 5631de597fed4ac39b0635ff9cca2cdc6060308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 01/47] fix: report each mouse event at the position it
 happened

---
 src/view_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 2e36b42..3c0ffd0 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -245,8 +245,7 @@ impl ViewModel {
         let mut events = input.events.clone();
         for event in events.iter() {
             match *event {
-                InputEvent::MouseMove(mouse) => {
-                    self.mouse = mouse;
+                InputEvent::MouseMove(_) => {
                     has_mouse_move = true;
                 }
                 _ => {}
@@ -285,6 +284,7 @@ impl ViewModel {
             match event {
                 InputEvent::Unknown => {}
                 InputEvent::MouseMove(position) => {
+                    self.mouse = position;
                     let previous_update = take(&mut self.elements_under_mouse);
                     self.calculate_mouse_hovers(tree, body, position)?;
                     for node in previous_update.iter().rev() {
-- 
2.43.0


From 06db44c2c0772ebb51b37d30c16ed52ad58f6d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 02/47] fix: end the drag when the button is released outside
 of any drop target

---
 src/view_model.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/view_model.rs b/src/view_model.rs
index 3c0ffd0..2d82eb4 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -394,6 +394,12 @@ impl ViewModel {
                             }
                         }
                     }
+                    if let Some(drag) = self.drag.take() {
+                        // released outside of any drop target
+                        let element = tree.get_element_mut(drag.source)?;
+                        let event = MouseEvent::new(self.mouse, element);
+                        self.emit(element, "ondragend", event);
+                    }
                     for node in take(&mut self.elements_in_action) {
                         let element = tree.get_element_mut(node)?;
                         element.state.active = false;
-- 
2.43.0


From fa8621395bdfc572ba0e1a19c97c4bd0495bdc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 03/47] fix: rebind arrays whose items are not bound when their
 length changes

---
 src/view_model.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 2d82eb4..3037baf 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -97,13 +97,13 @@ impl ViewModel {
             (Value::Array(current), Value::Array(next)) => {
                 let mut array_changed = false;
                 if current.len() != next.len() {
-                    if let Some(default) = default.get(arrays_path).cloned() {
-                        array_changed = true;
-                        current.resize(next.len(), default);
-                        Self::react(path, src, bindings, reactions, transformers);
-                    } else {
-                        error!("unable to resize array {path} default not found");
+                    array_changed = true;
+                    match default.get(arrays_path).cloned() {
+                        Some(default) => current.resize(next.len(), default),
+                        // items of this array are not bound, there is nothing to update by item
+                        None => *current = next.clone(),
                     }
+                    Self::react(path, src, bindings, reactions, transformers);
                 }
                 for (index, dst) in current.iter_mut().enumerate() {
                     let src = &next[index];
-- 
2.43.0


From 43ef74b2d585bbd022c005361d5975537d41081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 04/47] fix: keep the defaults of nested arrays apart

---
 src/view_model.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 3037baf..bf8b2e6 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -57,7 +57,7 @@ impl ViewModel {
         match value {
             Value::Array(array) => {
                 default.insert(type_path.to_string(), array[0].clone());
-                Self::memorize_array_default(type_path, &array[0], default)
+                Self::memorize_array_default(&format!("{type_path}/0"), &array[0], default)
             }
             Value::Object(object) => {
                 for (key, value) in object {
@@ -96,6 +96,7 @@ impl ViewModel {
         match (&mut dst, src) {
             (Value::Array(current), Value::Array(next)) => {
                 let mut array_changed = false;
+                let items_path = format!("{arrays_path}/0");
                 if current.len() != next.len() {
                     array_changed = true;
                     match default.get(arrays_path).cloned() {
@@ -112,7 +113,7 @@ impl ViewModel {
                         dst,
                         src,
                         &path,
-                        arrays_path,
+                        &items_path,
                         bindings,
                         reactions,
                         transformers,
-- 
2.43.0


From eea82a3dbdfc81ffbd13e95839f3cc19ab704409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 05/47] fix: a negative or huge number must not panic in the
 duration transformer

---
 src/view_model.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index bf8b2e6..0f4364f 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -771,11 +771,10 @@ fn default_transformers() -> HashMap<String, Transformer> {
     fn duration(value: Value) -> Value {
         match value.as_f64() {
             None => value,
-            Some(value) => {
-                let value = Duration::from_secs_f64(value);
-                let value = format!("{value:?}");
-                Value::String(value)
-            }
+            Some(seconds) => match Duration::try_from_secs_f64(seconds) {
+                Ok(duration) => Value::String(format!("{duration:?}")),
+                Err(_) => value,
+            },
         }
     }
     let mut transformers = HashMap::new();
-- 
2.43.0


From 2b088767889186c69652ee0e34b152632c0c1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 06/47] fix: show elements with a negative condition while
 their value is null

---
 src/view.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/view.rs b/src/view.rs
index 447100f..9be2fd9 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -300,11 +300,12 @@ impl View {
         for bindings in self.model.bindings.values() {
             for binding in bindings {
                 match binding.params {
-                    BindingParams::Visibility(parent, node, _) => {
+                    BindingParams::Visibility(parent, node, visible) => {
+                        // values are null by default, only negative conditions are satisfied
                         reactions.push(Reaction::Reattach {
                             parent,
                             node,
-                            visible: false,
+                            visible: !visible,
                         })
                     }
                     _ => {}
-- 
2.43.0


From 4819446eec9246c8783a70664f031fabb711d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:06 +0000
Subject: [PATCH 07/47] fix: show repeated items at their place among their
 siblings

---
 src/view.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/view.rs b/src/view.rs
index 9be2fd9..2e0168e 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -235,18 +235,15 @@ impl View {
                     .tree
                     .get_element_mut(parent)
                     .map(|parent| parent.children.clone())?;
-                let visible = self.tree.children(parent)?;
                 let shown = &children[start..cursor];
                 let hidden = &children[cursor..end];
-                for node in shown {
-                    if !visible.contains(node) {
-                        self.tree.add_child(parent, *node)?;
-                    }
+                for node in shown.iter().copied() {
+                    let visible = true;
+                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                 }
-                for node in hidden {
-                    if visible.contains(node) {
-                        self.tree.remove_child(parent, *node)?;
-                    }
+                for node in hidden.iter().copied() {
+                    let visible = false;
+                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                 }
             }
             Reaction::Tag { node, key, tag } => {
-- 
2.43.0


From 665a51a237da66c6cbda2191322b959a555b2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 08/47] fix: forget the previous id of an element when its
 bound id changes

---
 src/view.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/view.rs b/src/view.rs
index 2e0168e..fb5349c 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -277,6 +277,8 @@ impl View {
                     }
                 }
                 if key == "id" {
+                    // the element is no longer known by its previous id
+                    self.identified.retain(|_, identified| *identified != node);
                     self.identified.insert(value.clone(), node);
                 }
                 match (element.tag.as_str(), key.as_str()) {
-- 
2.43.0


From 7a4ca5c02fba7ff522e4733eed105aaa2abfd8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 09/47] fix: measure text again when its inherited font changes

---
 src/element.rs | 4 ++--
 src/view.rs    | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 4331351..a5796cc 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -278,7 +278,7 @@ pub enum ObjectFit {
     ScaleDown,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, PartialEq, Debug)]
 pub struct FontFace {
     /// The font family.
     pub family: String,
@@ -297,7 +297,7 @@ pub struct FontFace {
     pub align: TextAlign,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, PartialEq, Debug)]
 pub enum TextAlign {
     Start,
     End,
diff --git a/src/view.rs b/src/view.rs
index fb5349c..aaa075c 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -377,7 +377,12 @@ impl View {
         };
 
         if element.text.is_some() {
+            let font = element.font.clone();
             inherit(parent, element);
+            if element.font != font {
+                // the size of text depends on its font
+                self.tree.mark_dirty(node)?;
+            }
             return Ok(());
         }
 
-- 
2.43.0


From ce9d75495fe525337057700ef22ab083585e32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 10/47] fix: declarations that do not apply anymore leave no
 trace in layout, cursor and visibility

---
 src/styles/default.rs | 2 ++
 src/view.rs           | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/styles/default.rs b/src/styles/default.rs
index 3f85bcf..8f1a595 100644
--- a/src/styles/default.rs
+++ b/src/styles/default.rs
@@ -28,6 +28,8 @@ pub(crate) fn reset_element_style(element: &mut Element) {
         align: TextAlign::Start,
     };
     element.self_opacity = 1.0;
+    element.pointer = Pointer::Auto;
+    element.visible = true;
 }
 
 pub fn create_element(node: NodeId) -> Element {
diff --git a/src/view.rs b/src/view.rs
index aaa075c..aa42e7c 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -2,7 +2,7 @@ use crate::css::{match_style, read_css, read_inline_css, Css, PseudoClassMatcher
 use crate::html::{read_html, ElementBinding, Html};
 use crate::metrics::ViewMetrics;
 use crate::rendering::{Renderer, RendererTranslator};
-use crate::styles::{inherit, Cascade, Scrolling, Sizes, Variables};
+use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
 use crate::{BindingParams, Element, ElementStyle, Fonts, Input, Output, Transformer, ViewError};
@@ -370,7 +370,8 @@ impl View {
             // TODO:
             &*ptr
         };
-        let mut layout = self.tree.style(node)?.clone();
+        // declarations that do not apply anymore must leave no trace
+        let mut layout = default_layout();
         let element = unsafe {
             let ptr = self.tree.get_element_mut(node)? as *mut Element;
             &mut *ptr
-- 
2.43.0


From e25e146c9149a635190d844b3415a64372204ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 11/47] fix: content that fits in one direction is not moved
 when it overflows in the other

---
 src/styles/scrolling.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/styles/scrolling.rs b/src/styles/scrolling.rs
index 5c7b80a..61887ce 100644
--- a/src/styles/scrolling.rs
+++ b/src/styles/scrolling.rs
@@ -17,8 +17,9 @@ impl Scrolling {
             .map(|current| [current.x, current.y])
             .unwrap_or_default();
         if content.width > size.width || content.height > size.height {
-            let scroll_x = content.width - size.width;
-            let scroll_y = content.height - size.height;
+            // content may exceed the box in one direction only
+            let scroll_x = (content.width - size.width).max(0.0);
+            let scroll_y = (content.height - size.height).max(0.0);
             let scrolling = Scrolling {
                 x: x.min(scroll_x),
                 y: y.min(scroll_y),
-- 
2.43.0


From f13e208c8692fbbab43fcdd7005be4aebb05384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 12/47] fix: the sibling combinator selects the element right
 before

---
 src/css/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 6619247..ddd6cb4 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -55,7 +55,7 @@ fn find_next_target(combinator: char, target: &mut NodeId, tree: &TaffyTree<Elem
                     .iter()
                     .skip(1)
                     .position(|child| *child == *target)
-                    .and_then(|child| children.get(child - 1).cloned())
+                    .and_then(|child| children.get(child).cloned())
             }),
         _ => {
             // TODO: multi-target selector match
-- 
2.43.0


From 73d76a1159a7dffc65472271614851a50b712df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 13/47] fix: an attribute selector with |= matches a value
 followed by a dash

---
 src/css/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index ddd6cb4..6893259 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -103,7 +103,7 @@ fn match_simple_selector(
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
                     Matcher::Include => attr.split(" ").any(|word| word == value),
-                    Matcher::DashMatch => attr == value || attr == &format!("-{value}"),
+                    Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
                     Matcher::Suffix => attr.ends_with(value),
-- 
2.43.0


From 76a7632cfa8f424f71353895420c7d037bf2aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 14/47] fix: words of an attribute may be separated by any
 white space

---
 src/css/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 6893259..a804769 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -102,7 +102,7 @@ fn match_simple_selector(
                 .map(|attr| match operator {
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
-                    Matcher::Include => attr.split(" ").any(|word| word == value),
+                    Matcher::Include => attr.split_ascii_whitespace().any(|word| word == value),
                     Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
@@ -162,7 +162,7 @@ impl Style {
 
 #[inline(always)]
 fn match_class(classes: &str, ident: &str) -> bool {
-    classes.split(" ").any(|class| class == ident)
+    classes.split_ascii_whitespace().any(|class| class == ident)
 }
 
 pub trait PseudoClassMatcher {
-- 
2.43.0


From 5fc9cb29b7340c39e6c23dd9ea696f2fa50e86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 15/47] fix: the root pseudo-class matches the top of a
 document

---
 src/css/matching.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index a804769..e982778 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -110,7 +110,8 @@ fn match_simple_selector(
                 })
                 .unwrap_or(false)
         }
-        Simple::Root => element.tag == ":root",
+        // there is no html element, body is the top of a document
+        Simple::Root => element.tag == "body",
         Simple::PseudoClass(name) => matcher.has_pseudo_class(element, name.as_str()),
         _ => {
             error!("selector {component:?} not supported");
-- 
2.43.0


From 1a1dc6fce7d86645cc81b4d524b5419008718539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 16/47] fix: styles depending on other elements are matched
 again when these can change

---
 src/css/matching.rs | 10 ++++++++++
 src/view.rs         | 11 +++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index e982778..86313a7 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -151,6 +151,16 @@ impl Style {
         })
     }
 
+    /// A style with combinators depends on other elements than the one it is applied to.
+    pub fn has_combinator(&self) -> bool {
+        self.selectors.iter().any(|complex| {
+            complex
+                .selectors
+                .iter()
+                .any(|selector| selector.as_combinator().is_some())
+        })
+    }
+
     pub fn has_pseudo_class_selector(&self) -> bool {
         self.selectors.iter().any(|complex| {
             complex.selectors.iter().any(|selector| match selector {
diff --git a/src/view.rs b/src/view.rs
index aa42e7c..f47e36d 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -329,10 +329,13 @@ impl View {
             let element = self.tree.get_element_mut(node)?;
             let hints = &element.style_hints;
             let has_pseudo = style.has_pseudo_class_selector();
-            let is_static = !hints.has_dynamic_properties()
-                || (!style.has_attrs_selector(&hints.dynamic_attrs)
-                    && (!hints.has_dynamic_classes || !style.has_class_selector())
-                    && (!hints.has_dynamic_id || !style.has_id_selector()));
+            // bindings can change the elements around this one
+            let has_dynamic_context = style.has_combinator() && !self.model.bindings.is_empty();
+            let is_static = !has_dynamic_context
+                && (!hints.has_dynamic_properties()
+                    || (!style.has_attrs_selector(&hints.dynamic_attrs)
+                        && (!hints.has_dynamic_classes || !style.has_class_selector())
+                        && (!hints.has_dynamic_id || !style.has_id_selector())));
             if matches_ignoring_pseudo {
                 if is_static && !has_pseudo {
                     element.styles.push(ElementStyle::Static(style.clone()));
-- 
2.43.0


From c2ee7b8e3a8af69b20b7cb34ba12546167e3b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 17/47] fix: a transition of a property set for the first time
 does not hang

---
 src/animation.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 9f40a49..68f81dd 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -60,9 +60,8 @@ impl Transition {
             };
             let (from, to) = match self.range.as_ref() {
                 Some(range) => range,
-                None => {
-                    continue;
-                }
+                // the property is set for the first time, there is nothing to start from
+                None => return,
             };
             let current = animate(key, &from, &to, time);
             if to != value {
-- 
2.43.0


From eed354d0f1c84216e92738b9d473fbce66dc79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:04 +0000
Subject: [PATCH 18/47] fix: the first value of gap is the gap between rows

---
 src/styles/compute_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 4160380..b59164d 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -175,7 +175,7 @@ impl<'c> Cascade<'c> {
                 overwrite(PropertyKey::Bottom, value);
                 overwrite(PropertyKey::Left, value);
             }
-            (PropertyKey::Gap, [column, row]) => {
+            (PropertyKey::Gap, [row, column]) => {
                 overwrite(PropertyKey::RowGap, row);
                 overwrite(PropertyKey::ColumnGap, column);
             }
-- 
2.43.0


From 940c2ced5e1847972c2d2f74a79beda0104ede8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:06 +0000
Subject: [PATCH 19/47] fix: zero is a value of flex-grow, flex-shrink, radii
 and iteration counts

---
 src/styles/apply.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 934bb8d..47c3242 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -233,8 +233,8 @@ impl<'c> Cascade<'c> {
                 }
             }
             (PropertyKey::FlexBasis, value) => layout.flex_basis = dimension(value, self)?,
-            (PropertyKey::FlexGrow, ComputedValue::Number(value)) => layout.flex_grow = *value,
-            (PropertyKey::FlexShrink, ComputedValue::Number(value)) => layout.flex_shrink = *value,
+            (PropertyKey::FlexGrow, value) => layout.flex_grow = resolve_number(value)?,
+            (PropertyKey::FlexShrink, value) => layout.flex_shrink = resolve_number(value)?,
             (PropertyKey::ColumnGap, column) => {
                 layout.gap.width = lengthp(column, self)?;
             }
@@ -423,6 +423,7 @@ fn resolve_iterations(
             "infinite" => AnimationIterations::Infinite,
             _ => return Err(CascadeError::ValueNotSupported),
         },
+        ComputedValue::Zero => AnimationIterations::Number(0.0),
         ComputedValue::Number(number) => AnimationIterations::Number(*number),
         _ => return Err(CascadeError::ValueNotSupported),
     };
@@ -447,6 +448,15 @@ fn resolve_alpha(value: &ComputedValue) -> Result<f32, CascadeError> {
     Ok(value)
 }
 
+fn resolve_number(value: &ComputedValue) -> Result<f32, CascadeError> {
+    let value = match value {
+        ComputedValue::Zero => 0.0,
+        ComputedValue::Number(value) => *value,
+        _ => return Err(CascadeError::ValueNotSupported),
+    };
+    Ok(value)
+}
+
 fn resolve_length(
     value: &ComputedValue,
     cascade: &Cascade,
@@ -503,6 +513,7 @@ fn dimension(value: &ComputedValue, cascade: &Cascade) -> Result<Dimension, Casc
 
 fn length(value: &ComputedValue, cascade: &Cascade) -> Result<Length, CascadeError> {
     let value = match value {
+        ComputedValue::Zero => Length::zero(),
         ComputedValue::Dimension(dimension) => {
             let length = parse_dimension_length(dimension, cascade)?;
             Length::Number(length)
-- 
2.43.0


From 57d8d935ed0c1e8019616d14a46b57b052b8564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 20/47] fix: a variable that refers to itself does not overflow
 the stack

---
 src/styles/compute_function.rs |  9 +++++++--
 src/styles/compute_style.rs    |  2 +-
 src/styles/mod.rs              | 14 ++++++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/styles/compute_function.rs b/src/styles/compute_function.rs
index 214126e..82a0909 100644
--- a/src/styles/compute_function.rs
+++ b/src/styles/compute_function.rs
@@ -4,10 +4,15 @@ use crate::styles::Cascade;
 use log::error;
 
 impl<'c> Cascade<'c> {
-    pub(crate) fn compute_function(&self, function: &Function, shorthand: &mut Vec<ComputedValue>) {
+    pub(crate) fn compute_function(
+        &self,
+        function: &Function,
+        shorthand: &mut Vec<ComputedValue>,
+        resolving: &mut Vec<String>,
+    ) {
         let name = function.name.as_str();
         let mut arguments = vec![];
-        self.compute_shorthand(&function.arguments, &mut arguments);
+        self.compute_shorthand(&function.arguments, &mut arguments, resolving);
         let computed_value = match (name, arguments.as_slice()) {
             ("rgb", [r, g, b]) => {
                 Color([map_c(r), map_c(g), map_c(b), 255])
diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index b59164d..17e4a59 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -12,7 +12,7 @@ impl<'c> Cascade<'c> {
         style: &mut ComputedStyle,
     ) {
         let mut shorthand = vec![];
-        if !self.compute_shorthand(definition, &mut shorthand) {
+        if !self.compute_shorthand(definition, &mut shorthand, &mut vec![]) {
             return;
         }
         let mut overwrite = |key: PropertyKey, value: &ComputedValue| {
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 76607ea..cfb3dcd 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -147,6 +147,7 @@ impl<'c> Cascade<'c> {
         &self,
         definition: &[Definition],
         shorthand: &mut Vec<ComputedValue>,
+        resolving: &mut Vec<String>,
     ) -> bool {
         for value in definition {
             match value {
@@ -159,9 +160,18 @@ impl<'c> Cascade<'c> {
                             continue;
                         }
                     };
-                    self.compute_shorthand(definition, shorthand);
+                    if resolving.contains(name) {
+                        error!("unable to compute variable {name}, refers to itself");
+                        shorthand.push(ComputedValue::Error);
+                        continue;
+                    }
+                    resolving.push(name.clone());
+                    self.compute_shorthand(definition, shorthand, resolving);
+                    resolving.pop();
+                }
+                Definition::Function(function) => {
+                    self.compute_function(function, shorthand, resolving)
                 }
-                Definition::Function(function) => self.compute_function(function, shorthand),
                 Definition::Explicit(value) => shorthand.push(value.clone()),
             }
         }
-- 
2.43.0


From b6162ce4ba360776ebbe5dbee878430f5ddb2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 21/47] fix: short hexadecimal colors are read

---
 src/css/reader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/css/reader.rs b/src/css/reader.rs
index cab59f8..cb37873 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -271,6 +271,16 @@ fn read_number(pair: Pair<Rule>) -> f32 {
 fn read_color(pair: Pair<Rule>) -> [u8; 4] {
     let value = pair.as_str();
     match value.len() {
+        4 | 5 if value.starts_with("#") => {
+            // every digit stands for two equal ones
+            let digit = |index| {
+                u8::from_str_radix(&value[index..index + 1], 16)
+                    .map(|value| value * 17)
+                    .unwrap_or(0)
+            };
+            let a = if value.len() == 5 { digit(4) } else { 255 };
+            [digit(1), digit(2), digit(3), a]
+        }
         7 if value.starts_with("#") => {
             let r = u8::from_str_radix(&value[1..3], 16).unwrap_or(0);
             let g = u8::from_str_radix(&value[3..5], 16).unwrap_or(0);
-- 
2.43.0


From 84834da12361f517ce50386c5839c0a094ed0ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 22/47] fix: an animation without duration does not hang or
 produce NaN

---
 src/animation.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 68f81dd..3be3ece 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -148,23 +148,27 @@ impl Animator {
     }
 
     pub fn update(&mut self, time: f32) -> Option<f32> {
-        if self.running && self.duration > 0.0 {
+        if self.duration <= 0.0 {
+            // nothing to play
+            return None;
+        }
+        if self.running {
             self.time += time;
         }
         let t = self.time - self.delay;
         if t < 0.0 {
             return None;
         }
-        let mut t = match self.iterations {
+        let t = match self.iterations {
             AnimationIterations::Number(iterations) => t.min(iterations * self.duration),
             AnimationIterations::Infinite => t,
         };
-        // use this loop instead of % to stop at last frame 1.0 (100%)
-        while t > self.duration {
-            t -= self.duration;
+        let rest = t % self.duration;
+        if rest == 0.0 && t > 0.0 {
+            // stop at last frame 1.0 (100%)
+            return Some(1.0);
         }
-        let x = t / self.duration;
-        Some(x)
+        Some(rest / self.duration)
     }
 }
 
-- 
2.43.0


From dc9902c9e214f93ac78cab1b45054230ace007ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 23/47] fix: numbers and dimensions are animated from and to
 zero

---
 src/animation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index 3be3ece..fb7f113 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -191,7 +191,11 @@ pub fn animate(_key: PropertyKey, a: &ComputedValue, b: &ComputedValue, t: f32)
             }
         }
         (Zero, Percentage(b)) => percentage(&0.0, b, t),
+        (Number(a), Zero) => number(a, &0.0, t),
+        (Zero, Number(b)) => number(&0.0, b, t),
         (Dimension(a), Dimension(b)) => dimension(a, b, t),
+        (Dimension(a), Zero) => dimension(a, &Dim::new(0.0, a.unit), t),
+        (Zero, Dimension(b)) => dimension(&Dim::new(0.0, b.unit), b, t),
         (Color(a), Color(b)) => color(a, b, t),
         (a, b) => {
             // discrete
-- 
2.43.0


From e8c2706b0ec8580181120ec2719d5c171928b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:32 +0000
Subject: [PATCH 24/47] fix: animations and transitions that are not declared
 anymore are over

---
 src/styles/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index cfb3dcd..3497e10 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -17,8 +17,8 @@ use std::collections::HashMap;
 use taffy::{NodeId, TaffyTree};
 
 use crate::css::{
-    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PseudoClassMatcher,
-    Shorthand, Variable,
+    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PropertyDescriptor,
+    PropertyKey, PseudoClassMatcher, Shorthand, Variable,
 };
 
 use crate::styles::stats::CascadeStats;
@@ -93,6 +93,11 @@ impl<'c> Cascade<'c> {
         if !element.style.is_empty() {
             self.compute_declaration_block(&element.style, &mut computed_style);
         }
+        // animations and transitions that are not declared anymore are over
+        let animators = count_layers(&computed_style, PropertyKey::AnimationName);
+        element.animators.truncate(animators);
+        let transitions = count_layers(&computed_style, PropertyKey::TransitionProperty);
+        element.transitions.truncate(transitions);
         // 3: animations
         let time = input.time.as_secs_f32();
         for animator in element.animators.iter_mut() {
@@ -188,6 +193,14 @@ impl<'c> Cascade<'c> {
     }
 }
 
+fn count_layers(style: &ComputedStyle, key: PropertyKey) -> usize {
+    let mut index = 0;
+    while style.contains_key(&PropertyDescriptor::new(key, index)) {
+        index += 1;
+    }
+    index
+}
+
 #[derive(Clone, Copy)]
 pub struct Sizes {
     pub root_font_size: f32,
-- 
2.43.0


From a37f6ccfc25635a766fe74157f3ff2cd7377dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 25/47] fix: another animation starts from its beginning

---
 src/styles/apply.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 47c3242..71ed3fa 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -265,7 +265,11 @@ impl<'c> Cascade<'c> {
             // Animation
             //
             (PropertyKey::AnimationName, Keyword(name)) => {
-                element.get_animator_mut(index).name = name.to_string();
+                let animator = element.get_animator_mut(index);
+                if &animator.name != name {
+                    animator.name = name.to_string();
+                    animator.restart();
+                }
             }
             (PropertyKey::AnimationDelay, Time(delay)) => {
                 element.get_animator_mut(index).delay = *delay;
-- 
2.43.0


From a564bf1aa52cd0e5366b543d6fca7edbeb3ade12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 26/47] fix: a declaration replaces all layers of an
 overwritten one

---
 src/styles/compute_style.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 17e4a59..99bafe1 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -16,7 +16,7 @@ impl<'c> Cascade<'c> {
             return;
         }
         let mut overwrite = |key: PropertyKey, value: &ComputedValue| {
-            style.insert(PropertyDescriptor::new(key, index), value.clone())
+            set_layer(style, key, index, value);
         };
         match (key, shorthand.as_slice()) {
             //
@@ -290,3 +290,15 @@ impl<'c> Cascade<'c> {
         }
     }
 }
+
+/// A declaration sets all layers of a property, those of an overwritten one must not remain above.
+fn set_layer(style: &mut ComputedStyle, key: PropertyKey, index: usize, value: &ComputedValue) {
+    style.insert(PropertyDescriptor::new(key, index), value.clone());
+    let mut above = index + 1;
+    while style
+        .remove(&PropertyDescriptor::new(key, above))
+        .is_some()
+    {
+        above += 1;
+    }
+}
-- 
2.43.0


From f6652af9671616f9fcbc53b4b79cb2f948caddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 27/47] fix: a transition does not start from the value of
 another property

---
 src/styles/apply.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 71ed3fa..66eae09 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -249,7 +249,11 @@ impl<'c> Cascade<'c> {
                     Some(key) => key,
                     None => return CascadeError::invalid_keyword(name),
                 };
-                element.get_transition_mut(index).key = Some(key);
+                let transition = element.get_transition_mut(index);
+                if transition.key != Some(key) {
+                    transition.key = Some(key);
+                    transition.range = None;
+                }
             }
             (PropertyKey::TransitionDuration, Time(duration)) => {
                 element.get_transition_mut(index).animator.duration = *duration;
-- 
2.43.0


From a78cbbdc67b3ea5d4a1f5c44ce9203d867d1f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 28/47] fix: properties of styles and background positions are
 read by their names

---
 src/css/model.rs | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/css/model.rs b/src/css/model.rs
index 012f9ff..525ca55 100644
--- a/src/css/model.rs
+++ b/src/css/model.rs
@@ -842,6 +842,8 @@ impl PropertyKey {
             "background-image" => Self::BackgroundImage,
             "background-origin" => Self::BackgroundOrigin,
             "background-position" => Self::BackgroundPosition,
+            "background-position-x" => Self::BackgroundPositionX,
+            "background-position-y" => Self::BackgroundPositionY,
             "background-repeat" => Self::BackgroundRepeat,
             "background-size" => Self::BackgroundSize,
             "baseline-shift" => Self::BaselineShift,
@@ -861,19 +863,19 @@ impl PropertyKey {
             "border-block-color" => Self::BorderBlockColor,
             "border-block-end" => Self::BorderBlockEnd,
             "border-block-end-color" => Self::BorderBlockEndColor,
-            "border-block-end-styles" => Self::BorderBlockEndStyle,
+            "border-block-end-style" => Self::BorderBlockEndStyle,
             "border-block-end-width" => Self::BorderBlockEndWidth,
             "border-block-start" => Self::BorderBlockStart,
             "border-block-start-color" => Self::BorderBlockStartColor,
-            "border-block-start-styles" => Self::BorderBlockStartStyle,
+            "border-block-start-style" => Self::BorderBlockStartStyle,
             "border-block-start-width" => Self::BorderBlockStartWidth,
-            "border-block-styles" => Self::BorderBlockStyle,
+            "border-block-style" => Self::BorderBlockStyle,
             "border-block-width" => Self::BorderBlockWidth,
             "border-bottom" => Self::BorderBottom,
             "border-bottom-color" => Self::BorderBottomColor,
             "border-bottom-left-radius" => Self::BorderBottomLeftRadius,
             "border-bottom-right-radius" => Self::BorderBottomRightRadius,
-            "border-bottom-styles" => Self::BorderBottomStyle,
+            "border-bottom-style" => Self::BorderBottomStyle,
             "border-bottom-width" => Self::BorderBottomWidth,
             "border-boundary" => Self::BorderBoundary,
             "border-collapse" => Self::BorderCollapse,
@@ -890,32 +892,32 @@ impl PropertyKey {
             "border-inline-color" => Self::BorderInlineColor,
             "border-inline-end" => Self::BorderInlineEnd,
             "border-inline-end-color" => Self::BorderInlineEndColor,
-            "border-inline-end-styles" => Self::BorderInlineEndStyle,
+            "border-inline-end-style" => Self::BorderInlineEndStyle,
             "border-inline-end-width" => Self::BorderInlineEndWidth,
             "border-inline-start" => Self::BorderInlineStart,
             "border-inline-start-color" => Self::BorderInlineStartColor,
-            "border-inline-start-styles" => Self::BorderInlineStartStyle,
+            "border-inline-start-style" => Self::BorderInlineStartStyle,
             "border-inline-start-width" => Self::BorderInlineStartWidth,
-            "border-inline-styles" => Self::BorderInlineStyle,
+            "border-inline-style" => Self::BorderInlineStyle,
             "border-inline-width" => Self::BorderInlineWidth,
             "border-left" => Self::BorderLeft,
             "border-left-color" => Self::BorderLeftColor,
-            "border-left-styles" => Self::BorderLeftStyle,
+            "border-left-style" => Self::BorderLeftStyle,
             "border-left-width" => Self::BorderLeftWidth,
             "border-radius" => Self::BorderRadius,
             "border-right" => Self::BorderRight,
             "border-right-color" => Self::BorderRightColor,
-            "border-right-styles" => Self::BorderRightStyle,
+            "border-right-style" => Self::BorderRightStyle,
             "border-right-width" => Self::BorderRightWidth,
             "border-spacing" => Self::BorderSpacing,
             "border-start-end-radius" => Self::BorderStartEndRadius,
             "border-start-start-radius" => Self::BorderStartStartRadius,
-            "border-styles" => Self::BorderStyle,
+            "border-style" => Self::BorderStyle,
             "border-top" => Self::BorderTop,
             "border-top-color" => Self::BorderTopColor,
             "border-top-left-radius" => Self::BorderTopLeftRadius,
             "border-top-right-radius" => Self::BorderTopRightRadius,
-            "border-top-styles" => Self::BorderTopStyle,
+            "border-top-style" => Self::BorderTopStyle,
             "border-top-width" => Self::BorderTopWidth,
             "border-width" => Self::BorderWidth,
             "bottom" => Self::Bottom,
@@ -945,7 +947,7 @@ impl PropertyKey {
             "column-gap" => Self::ColumnGap,
             "column-rule" => Self::ColumnRule,
             "column-rule-color" => Self::ColumnRuleColor,
-            "column-rule-styles" => Self::ColumnRuleStyle,
+            "column-rule-style" => Self::ColumnRuleStyle,
             "column-rule-width" => Self::ColumnRuleWidth,
             "column-span" => Self::ColumnSpan,
             "column-width" => Self::ColumnWidth,
@@ -1016,7 +1018,7 @@ impl PropertyKey {
             "font-synthesis" => Self::FontSynthesis,
             "font-synthesis-position" => Self::FontSynthesisPosition,
             "font-synthesis-small-caps" => Self::FontSynthesisSmallCaps,
-            "font-synthesis-styles" => Self::FontSynthesisStyle,
+            "font-synthesis-style" => Self::FontSynthesisStyle,
             "font-synthesis-weight" => Self::FontSynthesisWeight,
             "font-variant" => Self::FontVariant,
             "font-variant-alternates" => Self::FontVariantAlternates,
@@ -1089,10 +1091,10 @@ impl PropertyKey {
             "line-height-step" => Self::LineHeightStep,
             "line-padding" => Self::LinePadding,
             "line-snap" => Self::LineSnap,
-            "list-styles" => Self::ListStyle,
-            "list-styles-image" => Self::ListStyleImage,
-            "list-styles-position" => Self::ListStylePosition,
-            "list-styles-type" => Self::ListStyleType,
+            "list-style" => Self::ListStyle,
+            "list-style-image" => Self::ListStyleImage,
+            "list-style-position" => Self::ListStylePosition,
+            "list-style-type" => Self::ListStyleType,
             "margin" => Self::Margin,
             "margin-block" => Self::MarginBlock,
             "margin-block-end" => Self::MarginBlockEnd,
@@ -1161,7 +1163,7 @@ impl PropertyKey {
             "outline" => Self::Outline,
             "outline-color" => Self::OutlineColor,
             "outline-offset" => Self::OutlineOffset,
-            "outline-styles" => Self::OutlineStyle,
+            "outline-style" => Self::OutlineStyle,
             "outline-width" => Self::OutlineWidth,
             "overflow" => Self::Overflow,
             "overflow-anchor" => Self::OverflowAnchor,
@@ -1327,14 +1329,14 @@ impl PropertyKey {
             "text-decoration-skip-inset" => Self::TextDecorationSkipInset,
             "text-decoration-skip-self" => Self::TextDecorationSkipSelf,
             "text-decoration-skip-spaces" => Self::TextDecorationSkipSpaces,
-            "text-decoration-styles" => Self::TextDecorationStyle,
+            "text-decoration-style" => Self::TextDecorationStyle,
             "text-decoration-thickness" => Self::TextDecorationThickness,
             "text-decoration-trim" => Self::TextDecorationTrim,
             "text-emphasis" => Self::TextEmphasis,
             "text-emphasis-color" => Self::TextEmphasisColor,
             "text-emphasis-position" => Self::TextEmphasisPosition,
             "text-emphasis-skip" => Self::TextEmphasisSkip,
-            "text-emphasis-styles" => Self::TextEmphasisStyle,
+            "text-emphasis-style" => Self::TextEmphasisStyle,
             "text-group-align" => Self::TextGroupAlign,
             "text-indent" => Self::TextIndent,
             "text-justify" => Self::TextJustify,
@@ -1348,13 +1350,13 @@ impl PropertyKey {
             "text-underline-position" => Self::TextUnderlinePosition,
             "text-wrap" => Self::TextWrap,
             "text-wrap-mode" => Self::TextWrapMode,
-            "text-wrap-styles" => Self::TextWrapStyle,
+            "text-wrap-style" => Self::TextWrapStyle,
             "timeline-scope" => Self::TimelineScope,
             "top" => Self::Top,
             "transform" => Self::Transform,
             "transform-box" => Self::TransformBox,
             "transform-origin" => Self::TransformOrigin,
-            "transform-styles" => Self::TransformStyle,
+            "transform-style" => Self::TransformStyle,
             "transition" => Self::Transition,
             "transition-behavior" => Self::TransitionBehavior,
             "transition-delay" => Self::TransitionDelay,
-- 
2.43.0


From bdd73401318714c6258e775a3c42654d4905b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 29/47] fix: the first value of a property without layers is in
 effect

---
 src/styles/apply.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 66eae09..48969f8 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -22,6 +22,13 @@ impl<'c> Cascade<'c> {
             //
             (PropertyKey::Outline, _value) => {}
             //
+            // A list of values makes sense for layers only, otherwise the first one is in effect
+            //
+            (PropertyKey::FontFamily, _value) if index > 0 => {}
+            (key, _value) if index > 0 && !has_layers(key) => {
+                return Err(CascadeError::ValueNotSupported)
+            }
+            //
             // Element
             //
             (PropertyKey::Opacity, value) => element.self_opacity = resolve_alpha(value)?,
@@ -318,6 +325,28 @@ impl<'c> Cascade<'c> {
     }
 }
 
+fn has_layers(key: PropertyKey) -> bool {
+    matches!(
+        key,
+        PropertyKey::BackgroundColor
+            | PropertyKey::BackgroundImage
+            | PropertyKey::BackgroundPositionX
+            | PropertyKey::BackgroundPositionY
+            | PropertyKey::TransitionProperty
+            | PropertyKey::TransitionDuration
+            | PropertyKey::TransitionDelay
+            | PropertyKey::TransitionTimingFunction
+            | PropertyKey::AnimationName
+            | PropertyKey::AnimationDelay
+            | PropertyKey::AnimationDirection
+            | PropertyKey::AnimationDuration
+            | PropertyKey::AnimationFillMode
+            | PropertyKey::AnimationIterationCount
+            | PropertyKey::AnimationPlayState
+            | PropertyKey::AnimationTimingFunction
+    )
+}
+
 fn resolve_font_weight(value: &ComputedValue, _cascade: &Cascade) -> Result<u16, CascadeError> {
     let value = match value {
         ComputedValue::Number(value) if *value >= 1.0 && *value <= 1000.0 => *value as u16,
-- 
2.43.0


From 5182c9769c98d4b5c9ea0b03dacd0b5c47a6adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 30/47] fix: values of animations and transitions that are not
 declared anymore do not remain

---
 src/animation.rs  | 9 +++++++++
 src/styles/mod.rs | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index fb7f113..318d267 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -113,6 +113,15 @@ impl Animator {
         self.time = 0.0;
     }
 
+    /// Sets initial values of everything but the animation at hand and the time it was played.
+    pub fn reset(&mut self) {
+        *self = Self {
+            name: std::mem::take(&mut self.name),
+            time: self.time,
+            ..Self::default()
+        };
+    }
+
     pub fn play(&mut self, time: f32, tracks: &Vec<AnimationTrack>, style: &mut ComputedStyle) {
         if let Some(time) = self.update(time) {
             let step = (time * 100.0) as u32;
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 3497e10..382f8e3 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -118,6 +118,13 @@ impl<'c> Cascade<'c> {
         for transition in element.transitions.iter_mut() {
             transition.play(time, &mut computed_style);
         }
+        // values that are not declared anymore must not remain
+        for animator in element.animators.iter_mut() {
+            animator.reset();
+        }
+        for transition in element.transitions.iter_mut() {
+            transition.animator.reset();
+        }
         for (property, value) in &computed_style {
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
-- 
2.43.0


From 5b9f993de583e5c90ef1a31084b1e1e5b386e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:02 +0000
Subject: [PATCH 31/47] fix: an animation that is over stays at its last frame
 whatever its duration

---
 src/animation.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 318d267..f9e4489 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -168,16 +168,17 @@ impl Animator {
         if t < 0.0 {
             return None;
         }
-        let t = match self.iterations {
-            AnimationIterations::Number(iterations) => t.min(iterations * self.duration),
-            AnimationIterations::Infinite => t,
+        let cycles = t / self.duration;
+        let cycles = match self.iterations {
+            AnimationIterations::Number(iterations) => cycles.min(iterations),
+            AnimationIterations::Infinite => cycles,
         };
-        let rest = t % self.duration;
-        if rest == 0.0 && t > 0.0 {
+        let rest = cycles.fract();
+        if rest == 0.0 && cycles > 0.0 {
             // stop at last frame 1.0 (100%)
             return Some(1.0);
         }
-        Some(rest / self.duration)
+        Some(rest)
     }
 }
 
-- 
2.43.0


From be54690d56280549812a7260e0b174b427081d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 32/47] fix: a transition holds the value it starts from during
 its delay

---
 src/animation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index f9e4489..55b3797 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -49,6 +49,8 @@ impl Transition {
         };
         let time = match self.animator.update(time) {
             Some(time) => time,
+            // the value to start from is in effect during the delay
+            None if self.animator.duration > 0.0 => 0.0,
             None => return,
         };
         let mut index = 0;
-- 
2.43.0


From 127e213a6421eb53e5fc75ecc8160391d2a18242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 33/47] fix: layers of a property are transitioned from and to
 their own values

---
 src/animation.rs    | 54 ++++++++++++++++++---------------------------
 src/styles/apply.rs |  2 +-
 2 files changed, 22 insertions(+), 34 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 55b3797..9811d24 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -8,7 +8,8 @@ use crate::Rgba;
 pub struct Transition {
     pub key: Option<PropertyKey>,
     pub animator: Animator,
-    pub range: Option<(ComputedValue, ComputedValue)>,
+    /// Values to start from and to reach, for each layer of the property.
+    pub ranges: Vec<(ComputedValue, ComputedValue)>,
 }
 
 impl Default for Transition {
@@ -16,28 +17,20 @@ impl Default for Transition {
         Self {
             key: None,
             animator: Default::default(),
-            range: None,
+            ranges: vec![],
         }
     }
 }
 
 impl Transition {
     pub fn init_after_style_applied(&mut self, style: &mut ComputedStyle) {
-        if self.range.is_some() {
-            return;
-        }
         let key = match self.key {
             Some(key) => key,
             None => return,
         };
-        let mut index = 0;
-        loop {
-            let descriptor = PropertyDescriptor::new(key, index);
-            let value = match style.get(&descriptor) {
-                Some(value) => value,
-                None => return,
-            };
-            self.range = Some((value.clone(), value.clone()));
+        let mut index = self.ranges.len();
+        while let Some(value) = style.get(&PropertyDescriptor::new(key, index)) {
+            self.ranges.push((value.clone(), value.clone()));
             index += 1;
         }
     }
@@ -53,27 +46,22 @@ impl Transition {
             None if self.animator.duration > 0.0 => 0.0,
             None => return,
         };
-        let mut index = 0;
-        loop {
-            let descriptor = PropertyDescriptor::new(key, index);
-            let value = match style.get(&descriptor) {
-                Some(value) => value,
-                None => return,
+        let mut changed = false;
+        let mut layers = vec![];
+        for (index, (from, to)) in self.ranges.iter().enumerate() {
+            let value = match style.get(&PropertyDescriptor::new(key, index)) {
+                Some(value) => value.clone(),
+                None => break,
             };
-            let (from, to) = match self.range.as_ref() {
-                Some(range) => range,
-                // the property is set for the first time, there is nothing to start from
-                None => return,
-            };
-            let current = animate(key, &from, &to, time);
-            if to != value {
-                self.range = Some((current.clone(), value.clone()));
-                self.animator.restart();
-            }
-            if &current != value {
-                style.insert(descriptor, current);
-            }
-            index += 1;
+            changed |= to != &value;
+            layers.push((animate(key, from, to, time), value));
+        }
+        for (index, (current, _)) in layers.iter().enumerate() {
+            style.insert(PropertyDescriptor::new(key, index), current.clone());
+        }
+        if changed {
+            self.ranges = layers;
+            self.animator.restart();
         }
     }
 }
diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 48969f8..41d14ee 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -259,7 +259,7 @@ impl<'c> Cascade<'c> {
                 let transition = element.get_transition_mut(index);
                 if transition.key != Some(key) {
                     transition.key = Some(key);
-                    transition.range = None;
+                    transition.ranges.clear();
                 }
             }
             (PropertyKey::TransitionDuration, Time(duration)) => {
-- 
2.43.0


From 6f6a9686f0e041f5715e140783bacf9c1aeb6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 34/47] fix: declarations of all keyframes of a step are in
 effect

---
 src/styles/compute_animation_tracks.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/styles/compute_animation_tracks.rs b/src/styles/compute_animation_tracks.rs
index c15a24f..6cb2cbb 100644
--- a/src/styles/compute_animation_tracks.rs
+++ b/src/styles/compute_animation_tracks.rs
@@ -15,7 +15,10 @@ impl<'c> Cascade<'c> {
         let mut animated_properties: HashSet<PropertyDescriptor> = HashSet::new();
         let mut computed_keyframe_styles = BTreeMap::new();
         for keyframe in &animation.keyframes {
-            let mut keyframe_style = HashMap::new();
+            // declarations of all keyframes of a step are in effect
+            let keyframe_style = computed_keyframe_styles
+                .entry(keyframe.step)
+                .or_insert_with(HashMap::new);
             for declaration in &keyframe.declaration {
                 match declaration {
                     Declaration::Variable(variable) => {
@@ -27,13 +30,12 @@ impl<'c> Cascade<'c> {
                     Declaration::Property(property) => {
                         for index in 0..property.values.len() {
                             let value = &property.values[index];
-                            self.compute_style(property.key, index, value, &mut keyframe_style);
+                            self.compute_style(property.key, index, value, keyframe_style);
                         }
                     }
                 }
             }
             animated_properties.extend(keyframe_style.keys());
-            computed_keyframe_styles.insert(keyframe.step, keyframe_style);
         }
         let from = computed_keyframe_styles.entry(0).or_default();
         for property in &animated_properties {
-- 
2.43.0


From 376aab765c72c4e44dac40a6fb84b60fcca9c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 35/47] fix: white space after the name of a transformer is no
 part of it

---
 src/html/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 5f2adaa..7f8ea52 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -257,7 +257,7 @@ fn parse_binder(pair: Pair<Rule>) -> Binder {
                     .map(|key| key.as_str().to_string())
                     .collect();
             }
-            Rule::Transformer => pipe.push(next.as_str().to_string()),
+            Rule::Transformer => pipe.push(next.as_str().trim_end().to_string()),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 2a8b7c09b4c527554f4fbb15e27285fb06f39fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:19 +0000
Subject: [PATCH 36/47] fix: white space between the bound parts of an
 attribute is a part of its value

---
 src/html/html.pest | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index abaa099..1029773 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -73,7 +73,10 @@ AliasBinding = { "+" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
 TagBinding = { "#" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
-AttributeBinding = { "@" ~ Key ~ "=" ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\"" }
+// atomic, white space between spans is a part of the value
+AttributeBinding = ${
+    "@" ~ WHITESPACE* ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\""
+}
 
 DoubleQuotedAttributeString = @{ DoubleQuotedAttributeChar+ }
 
-- 
2.43.0


From 9885b3a6068d6a9828ffcb1236dfcfcdfc75be63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 37/47] fix: the value of an attribute without quotes ends at
 white space or the end of the tag

---
 src/html/html.pest | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 1029773..4ce5594 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -100,7 +100,10 @@ Count = { ASCII_DIGIT* }
 DoubleQuoted = { Name ~ "=" ~ "\"" ~ Value ~ "\"" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
-Unquoted = { Name ~ "=" ~ Value }
+Unquoted = { Name ~ "=" ~ UnquotedValue }
+
+// https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
+UnquotedValue = @{ (!("\"" | "'" | "=" | "<" | ">" | "`" | WHITESPACE) ~ ANY)+ }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Empty = { Name }
-- 
2.43.0


From 458b1326e4c6a7666e117b73c4e01c4d40c6897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 38/47] fix: an element whose tag only begins like a void one
 is not void

---
 src/html/html.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 4ce5594..6c16add 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -20,7 +20,7 @@ Children = { Content* }
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Void = { "<" ~ VoidTag ~ Attributes ~ ("/")? ~ ">" }
 
-VoidTag = {
+VoidTag = @{ (
     ^"area"
     | ^"base"
     | ^"br"
@@ -37,6 +37,7 @@ VoidTag = {
     | ^"source"
     | ^"track"
     | ^"wbr"
+    ) ~ !TChar
 }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
-- 
2.43.0


From ecb1ac11b900d71620e56795ed86a43c5819dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 39/47] fix: values and arguments are separated by any white
 space

---
 src/css/css.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 2c0ebde..1196076 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -76,16 +76,16 @@ Ident = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
 Values = { Shorthand ~ ("," ~ Shorthand)* }
 
-Shorthand = ${ Value ~ (WHITESPACE ~ Value)* }
+Shorthand = ${ Value ~ ((WHITESPACE | COMMENT)+ ~ Value)* }
 
 Value = _{ Var | Function | Explicit }
 
 Function = {
-    Ident ~ "(" ~ ")" |
-    Ident ~ "(" ~ Value ~ ("," ~ WHITESPACE* ~ Value)* ~ ")"
+    Ident ~ "(" ~ WHITESPACE* ~ ")" |
+    Ident ~ "(" ~ WHITESPACE* ~ Value ~ (WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)* ~ WHITESPACE* ~ ")"
 }
 
-Var = { "var" ~ "(" ~ Keyword ~ ("," ~ Value)? ~ ")" }
+Var = { "var" ~ "(" ~ WHITESPACE* ~ Keyword ~ WHITESPACE* ~ ("," ~ WHITESPACE* ~ Value ~ WHITESPACE*)? ~ ")" }
 
 Explicit = {
     Color
-- 
2.43.0


From 52b8cd80e72837251064b7ac4bb06e5c40f17be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 40/47] fix: names of variables, animations and keywords may
 have digits

---
 src/css/css.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 1196076..bf650eb 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -70,7 +70,7 @@ Declarations = { Declaration* }
 
 Declaration = { Property ~ ":" ~ Values ~ ";" }
 
-Property = { (ASCII_ALPHA | "-" | "_")+ }
+Property = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
 Ident = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
@@ -114,7 +114,7 @@ Number = { (ASCII_DIGIT | "-" | ".")+ }
 
 Unit = { ASCII_ALPHA+ }
 
-Keyword = { "-"? ~ "-"? ~ (ASCII_ALPHA | "-" | "_")+ }
+Keyword = @{ "-"? ~ "-"? ~ (ASCII_ALPHA | "-" | "_") ~ (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")* }
 
 String = { "\"" ~ StringLiteral ~ "\"" }
 
-- 
2.43.0


From 979cfa210ef391959df8a3214e2bee04a42c5409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 41/47] fix: the bound value of an attribute begins after
 leading white space

---
 src/html/html.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 6c16add..2ff103c 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -76,7 +76,7 @@ TagBinding = { "#" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
 // atomic, white space between spans is a part of the value
 AttributeBinding = ${
-    "@" ~ WHITESPACE* ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\""
+    "@" ~ WHITESPACE* ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ WHITESPACE* ~ (Binder | DoubleQuotedAttributeString)+ ~ "\""
 }
 
 DoubleQuotedAttributeString = @{ DoubleQuotedAttributeChar+ }
-- 
2.43.0


From 8830cfe2b251616fff7b0e8e5f3a035283572f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 42/47] fix: an inline style may begin with white space

---
 src/css/css.pest  | 3 +++
 src/css/reader.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index bf650eb..b5a7f23 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -62,6 +62,9 @@ PseudoElement = { "::" ~ Ident }
 
 // properties
 
+// style attribute
+InlineStyle = _{ SOI ~ Declarations }
+
 DeclarationBlock = {
     "{" ~ Declarations ~ "}"
 }
diff --git a/src/css/reader.rs b/src/css/reader.rs
index cb37873..f826b2f 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -28,7 +28,7 @@ impl From<Error<Rule>> for ReaderError {
 }
 
 pub fn read_inline_css(block: &str) -> Result<Vec<Declaration>, ReaderError> {
-    let block = CssParser::parse(Rule::Declarations, block)?
+    let block = CssParser::parse(Rule::InlineStyle, block)?
         .next()
         .ok_or(ReaderError::EmptyStyleSheet)?;
     Ok(read_declarations(block))
-- 
2.43.0


From 78ff1db88516a12b8cae1ae7fd9a488bd0bd59b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:32 +0000
Subject: [PATCH 43/47] fix: items can have the name of the array they repeat

---
 src/rendering.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index a090120..3426a93 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -262,9 +262,12 @@ impl Renderer {
                             .entry(array.clone())
                             .or_default()
                             .push(binding);
+                        // the name of items can be the name of the array
+                        let items: Vec<String> = (0..count)
+                            .map(|n| self.schema.index(binder, n, &self.locals))
+                            .collect();
                         let overridden = self.locals.remove(name);
-                        for n in 0..count {
-                            let path = self.schema.index(binder, n, &self.locals);
+                        for path in items {
                             self.locals.insert(name.to_string(), path);
                             let child = child.clone();
                             let child = self.render_node(child)?;
-- 
2.43.0


From 3a9d20499a8ae60b86700ee300ff8073c493460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:34 +0000
Subject: [PATCH 44/47] fix: a name given twice to an element is not known
 after it

---
 src/rendering.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 3426a93..fdb524b 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -234,10 +234,9 @@ impl Renderer {
                     for binding in &child.bindings {
                         if let ElementBinding::Alias(name, binder) = binding {
                             let path = self.schema.field(binder, &mut self.locals);
-                            overridden.insert(
-                                name.to_string(),
-                                self.locals.insert(name.to_string(), path),
-                            );
+                            let previous = self.locals.insert(name.to_string(), path);
+                            // a name can be given more than once, by a link and its template
+                            overridden.entry(name.to_string()).or_insert(previous);
                         }
                     }
 
-- 
2.43.0


From d817c14842e231a175835ce9b0823ba9b5c92532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 45/47] fix: bound attributes without binders take effect like
 plain ones

---
 src/rendering.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index fdb524b..347dd01 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -105,6 +105,19 @@ impl Renderer {
         let mut element = create_element(node);
         element.tag = template.tag.clone();
         for binding in template.bindings {
+            let binding = match binding {
+                ElementBinding::Attribute(key, text) => match text.as_simple_text() {
+                    Some(value) => {
+                        warn!(
+                            "element {} attribute {} has no bindings, you can just use HTML tag",
+                            element.tag, key
+                        );
+                        ElementBinding::None(key, value)
+                    }
+                    None => ElementBinding::Attribute(key, text),
+                },
+                binding => binding,
+            };
             match binding {
                 ElementBinding::None(key, value) => {
                     if key == "style" {
@@ -134,14 +147,6 @@ impl Renderer {
                     element.style_hints.dynamic_attrs.insert(key);
                 }
                 ElementBinding::Attribute(key, text) => {
-                    if let Some(value) = text.as_simple_text() {
-                        warn!(
-                            "element {} attribute {} has no bindings, you can just use HTML tag",
-                            element.tag, key
-                        );
-                        element.attrs.insert(key, value);
-                        continue;
-                    }
                     let spans = text
                         .spans
                         .into_iter()
-- 
2.43.0


From 13147f43e06d3378ec94c30acfe49cd385a0841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 46/47] fix: a bound class or id tag is known to be dynamic

---
 src/rendering.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rendering.rs b/src/rendering.rs
index 347dd01..565c088 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -144,6 +144,12 @@ impl Renderer {
                         pipe: binder.pipe.clone(),
                     };
                     self.bindings.entry(path).or_default().push(binding);
+                    if key == "class" {
+                        element.style_hints.has_dynamic_classes = true;
+                    }
+                    if key == "id" {
+                        element.style_hints.has_dynamic_id = true;
+                    }
                     element.style_hints.dynamic_attrs.insert(key);
                 }
                 ElementBinding::Attribute(key, text) => {
-- 
2.43.0


From 0a0a9bb88b31c96d9a4213dad6a1bb25e18d3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 47/47] fix: a template that links to itself is an error
 instead of an endless rendering

---
 src/rendering.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 565c088..8196961 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -227,12 +227,15 @@ impl Renderer {
             "wbr" => {}
             _ => {
                 for child in template.children {
+                    let mut used = None;
                     let child = if let Some((id, mut bindings)) = child.as_template_link() {
-                        let mut template = self
+                        // a template is not available to itself, rendering must end
+                        let definition = self
                             .templates
-                            .get(&id)
-                            .ok_or(ViewError::TemplateNotFound(id))?
-                            .clone();
+                            .remove(&id)
+                            .ok_or(ViewError::TemplateNotFound(id.clone()))?;
+                        let mut template = definition.clone();
+                        used = Some((id, definition));
                         // handle link bindings first
                         bindings.extend(template.bindings);
                         template.bindings = bindings;
@@ -300,6 +303,9 @@ impl Renderer {
                             self.locals.remove(&key);
                         }
                     }
+                    if let Some((id, definition)) = used {
+                        self.templates.insert(id, definition);
+                    }
                 }
             }
         }
-- 
2.43.0

