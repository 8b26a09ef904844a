From daf15d277c672ee9192cf92c6a1ff4c559c4d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 01/57] fix: next-sibling combinator must select the previous
 sibling

The position was computed after skip(1), so `child - 1` underflowed for the
second child and pointed one element too far back for the others.
---
 src/css/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 6619247..dcf248f 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -53,9 +53,9 @@ fn find_next_target(combinator: char, target: &mut NodeId, tree: &TaffyTree<Elem
             .and_then(|children| {
                 children
                     .iter()
-                    .skip(1)
                     .position(|child| *child == *target)
-                    .and_then(|child| children.get(child - 1).cloned())
+                    .and_then(|child| child.checked_sub(1))
+                    .and_then(|previous| children.get(previous).cloned())
             }),
         _ => {
             // TODO: multi-target selector match
-- 
2.43.0


From 496545dc63a0e2b28888b8a504392ad8878cf803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 02/57] fix: dash matching attribute selector must accept
 hyphen separated prefix

---
 src/css/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index dcf248f..e37ffdb 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -103,7 +103,7 @@ fn match_simple_selector(
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
                     Matcher::Include => attr.split(" ").any(|word| word == value),
-                    Matcher::DashMatch => attr == value || attr == &format!("-{value}"),
+                    Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
                     Matcher::Suffix => attr.ends_with(value),
-- 
2.43.0


From f4003cacf8325614c5dd646a770654ba7bc1da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 03/57] fix: animator must not hang or produce NaN on zero or
 tiny duration

Repeated subtraction never terminates when the duration is zero and the delay is
negative, or when the duration is too small to change the elapsed time.
---
 src/animation.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 9f40a49..208d40f 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -156,16 +156,20 @@ impl Animator {
         if t < 0.0 {
             return None;
         }
-        let mut t = match self.iterations {
+        if !(self.duration > 0.0) {
+            // nothing to play, animation is finished immediately
+            return Some(1.0);
+        }
+        let t = match self.iterations {
             AnimationIterations::Number(iterations) => t.min(iterations * self.duration),
             AnimationIterations::Infinite => t,
         };
-        // use this loop instead of % to stop at last frame 1.0 (100%)
-        while t > self.duration {
-            t -= self.duration;
+        let mut x = t % self.duration;
+        if x == 0.0 && t > 0.0 {
+            // cycle completed, stop at last frame 1.0 (100%)
+            x = self.duration;
         }
-        let x = t / self.duration;
-        Some(x)
+        Some(x / self.duration)
     }
 }
 
-- 
2.43.0


From ca046d4690113378c1817c8640b30aa490aef843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 04/57] fix: transition of property without initial value must
 not hang

---
 src/animation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index 208d40f..febc81e 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -61,7 +61,8 @@ impl Transition {
             let (from, to) = match self.range.as_ref() {
                 Some(range) => range,
                 None => {
-                    continue;
+                    // no value to start from, initial range will be captured after style applied
+                    return;
                 }
             };
             let current = animate(key, &from, &to, time);
-- 
2.43.0


From a60b9e7591d93ac4aa3ae7e099859028aaf92111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 05/57] fix: content must not be shifted along the axis without
 overflow

---
 src/styles/scrolling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/styles/scrolling.rs b/src/styles/scrolling.rs
index 5c7b80a..a9db294 100644
--- a/src/styles/scrolling.rs
+++ b/src/styles/scrolling.rs
@@ -17,8 +17,8 @@ impl Scrolling {
             .map(|current| [current.x, current.y])
             .unwrap_or_default();
         if content.width > size.width || content.height > size.height {
-            let scroll_x = content.width - size.width;
-            let scroll_y = content.height - size.height;
+            let scroll_x = (content.width - size.width).max(0.0);
+            let scroll_y = (content.height - size.height).max(0.0);
             let scrolling = Scrolling {
                 x: x.min(scroll_x),
                 y: y.min(scroll_y),
-- 
2.43.0


From f2e55820e5aedee8cd13cd49e0234e80ac787a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 06/57] fix: drag must end on mouse button up without drop
 target

---
 src/view_model.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/view_model.rs b/src/view_model.rs
index 2e36b42..69b83fe 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -394,6 +394,12 @@ impl ViewModel {
                             }
                         }
                     }
+                    if let Some(drag) = self.drag.take() {
+                        // no valid drop target
+                        let element = tree.get_element_mut(drag.source)?;
+                        let event = MouseEvent::new(self.mouse, element);
+                        self.emit(element, "ondragend", event);
+                    }
                     for node in take(&mut self.elements_in_action) {
                         let element = tree.get_element_mut(node)?;
                         element.state.active = false;
-- 
2.43.0


From 135198c71cb6cda50f5237e5e2fb07f45a41ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 07/57] fix: repeated elements must be shown in document order

---
 src/view.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index 447100f..f77ce1e 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -238,10 +238,18 @@ impl View {
                 let visible = self.tree.children(parent)?;
                 let shown = &children[start..cursor];
                 let hidden = &children[cursor..end];
+                let mut index = 0;
+                for sibling in visible.iter() {
+                    if !children[..start].contains(sibling) {
+                        break;
+                    }
+                    index += 1;
+                }
                 for node in shown {
                     if !visible.contains(node) {
-                        self.tree.add_child(parent, *node)?;
+                        self.tree.insert_child_at_index(parent, index, *node)?;
                     }
+                    index += 1;
                 }
                 for node in hidden {
                     if visible.contains(node) {
-- 
2.43.0


From 2ff1b1cd820d6da3a3859b929b01ecaae5032772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 08/57] fix: duration transformer must not panic on negative
 and huge numbers

---
 src/view_model.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 69b83fe..39f1a7a 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -770,11 +770,13 @@ fn default_transformers() -> HashMap<String, Transformer> {
     fn duration(value: Value) -> Value {
         match value.as_f64() {
             None => value,
-            Some(value) => {
-                let value = Duration::from_secs_f64(value);
-                let value = format!("{value:?}");
-                Value::String(value)
-            }
+            Some(seconds) => match Duration::try_from_secs_f64(seconds) {
+                Ok(duration) => Value::String(format!("{duration:?}")),
+                Err(error) => {
+                    error!("unable to format duration {seconds}, {error}");
+                    value
+                }
+            },
         }
     }
     let mut transformers = HashMap::new();
-- 
2.43.0


From 8ad0128bce0e7b9d1f94cc75d9af04cc7eccff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 09/57] fix: default of nested array must not replace default
 of outer array

Both levels shared one type path, so items of a regrown outer array were created
from the item of the inner one and their bindings were never updated again.
---
 src/view_model.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 39f1a7a..a26ae9e 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -56,8 +56,12 @@ impl ViewModel {
     ) {
         match value {
             Value::Array(array) => {
-                default.insert(type_path.to_string(), array[0].clone());
-                Self::memorize_array_default(type_path, &array[0], default)
+                if let Some(item) = array.first() {
+                    default.insert(type_path.to_string(), item.clone());
+                }
+                for item in array {
+                    Self::memorize_array_default(&format!("{type_path}/*"), item, default)
+                }
             }
             Value::Object(object) => {
                 for (key, value) in object {
@@ -108,11 +112,12 @@ impl ViewModel {
                 for (index, dst) in current.iter_mut().enumerate() {
                     let src = &next[index];
                     let path = format!("{path}/{index}");
+                    let arrays_path = format!("{arrays_path}/*");
                     let changed = Self::bind_value(
                         dst,
                         src,
                         &path,
-                        arrays_path,
+                        &arrays_path,
                         bindings,
                         reactions,
                         transformers,
-- 
2.43.0


From 92d4dfde4459e3c0b22f051dd60f0e88a7d170e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 10/57] fix: array or object bound as whole value must be
 replaced as whole

Once such a value was bound, next values were merged into it as if they had the
structure described by the template: shorter arrays caused out of bounds panic,
longer arrays and new object keys were ignored.
---
 src/view_model.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index a26ae9e..7d6e3ae 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -64,6 +64,7 @@ impl ViewModel {
                 }
             }
             Value::Object(object) => {
+                default.insert(type_path.to_string(), value.clone());
                 for (key, value) in object {
                     Self::memorize_array_default(&format!("{type_path}/{key}"), value, default)
                 }
@@ -97,17 +98,26 @@ impl ViewModel {
         transformers: &HashMap<String, Transformer>,
         default: &HashMap<String, Value>,
     ) -> bool {
+        let structure = match default.get(arrays_path) {
+            Some(structure) => structure,
+            None => {
+                // value has no bindings inside, must be updated as whole
+                return if dst != src {
+                    *dst = src.clone();
+                    Self::react(path, src, bindings, reactions, transformers);
+                    true
+                } else {
+                    false
+                };
+            }
+        };
         match (&mut dst, src) {
             (Value::Array(current), Value::Array(next)) => {
                 let mut array_changed = false;
                 if current.len() != next.len() {
-                    if let Some(default) = default.get(arrays_path).cloned() {
-                        array_changed = true;
-                        current.resize(next.len(), default);
-                        Self::react(path, src, bindings, reactions, transformers);
-                    } else {
-                        error!("unable to resize array {path} default not found");
-                    }
+                    array_changed = true;
+                    current.resize(next.len(), structure.clone());
+                    Self::react(path, src, bindings, reactions, transformers);
                 }
                 for (index, dst) in current.iter_mut().enumerate() {
                     let src = &next[index];
-- 
2.43.0


From dd809c399f07374342b4e622d5db231f77d35ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 11/57] fix: scalar must not replace structure of bound object

Bindings of the object fields were lost after such an update.
---
 src/view_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 7d6e3ae..67d8780 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -186,7 +186,7 @@ impl ViewModel {
                 }
                 object_changed
             }
-            (Value::Object(object), Value::Null) => {
+            (Value::Object(object), src) => {
                 let mut object_changed = false;
                 for (key, dst) in object.iter_mut() {
                     let path = format!("{path}/{key}");
@@ -204,7 +204,7 @@ impl ViewModel {
                     object_changed = object_changed || changed;
                 }
                 if object_changed {
-                    Self::react(path, &Value::Null, bindings, reactions, transformers);
+                    Self::react(path, src, bindings, reactions, transformers);
                 }
                 object_changed
             }
-- 
2.43.0


From ad2f5408c03cf8d0a1cd5232cf54565363668401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 12/57] fix: shown again array item must not keep state of
 hidden one

A regrown item is created from the default value, so null values and inner arrays of
the same length caused no reactions and elements kept outdated content.
---
 src/view_model.rs | 48 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 67d8780..5cb9dab 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -89,6 +89,31 @@ impl ViewModel {
     }
 
     pub fn bind_value(
+        dst: &mut Value,
+        src: &Value,
+        path: &str,
+        arrays_path: &str,
+        bindings: &Bindings,
+        reactions: &mut Vec<Reaction>,
+        transformers: &HashMap<String, Transformer>,
+        default: &HashMap<String, Value>,
+    ) -> bool {
+        Self::bind_value_state(
+            dst,
+            src,
+            path,
+            arrays_path,
+            bindings,
+            reactions,
+            transformers,
+            default,
+            false,
+        )
+    }
+
+    /// The state of elements bound to a shown again array item is unknown: it remains from
+    /// the moment when the item was hidden. Such item (`fresh`) must react on any value.
+    fn bind_value_state(
         mut dst: &mut Value,
         src: &Value,
         path: &str,
@@ -97,12 +122,13 @@ impl ViewModel {
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
         default: &HashMap<String, Value>,
+        fresh: bool,
     ) -> bool {
         let structure = match default.get(arrays_path) {
             Some(structure) => structure,
             None => {
                 // value has no bindings inside, must be updated as whole
-                return if dst != src {
+                return if fresh || dst != src {
                     *dst = src.clone();
                     Self::react(path, src, bindings, reactions, transformers);
                     true
@@ -114,7 +140,8 @@ impl ViewModel {
         match (&mut dst, src) {
             (Value::Array(current), Value::Array(next)) => {
                 let mut array_changed = false;
-                if current.len() != next.len() {
+                let known = current.len();
+                if fresh || known != next.len() {
                     array_changed = true;
                     current.resize(next.len(), structure.clone());
                     Self::react(path, src, bindings, reactions, transformers);
@@ -123,7 +150,7 @@ impl ViewModel {
                     let src = &next[index];
                     let path = format!("{path}/{index}");
                     let arrays_path = format!("{arrays_path}/*");
-                    let changed = Self::bind_value(
+                    let changed = Self::bind_value_state(
                         dst,
                         src,
                         &path,
@@ -132,13 +159,14 @@ impl ViewModel {
                         reactions,
                         transformers,
                         default,
+                        fresh || index >= known,
                     );
                     array_changed = array_changed || changed;
                 }
                 array_changed
             }
             (Value::Array(current), Value::Null) => {
-                if current.len() != 0 {
+                if fresh || current.len() != 0 {
                     current.clear();
                     Self::react(
                         path,
@@ -169,7 +197,7 @@ impl ViewModel {
                             &undefined
                         }
                     };
-                    let changed = Self::bind_value(
+                    let changed = Self::bind_value_state(
                         dst,
                         src,
                         &path,
@@ -178,10 +206,11 @@ impl ViewModel {
                         reactions,
                         transformers,
                         default,
+                        fresh,
                     );
                     object_changed = object_changed || changed;
                 }
-                if object_changed {
+                if fresh || object_changed {
                     Self::react(path, &json!({}), bindings, reactions, transformers);
                 }
                 object_changed
@@ -191,7 +220,7 @@ impl ViewModel {
                 for (key, dst) in object.iter_mut() {
                     let path = format!("{path}/{key}");
                     let arrays_path = format!("{arrays_path}/{key}");
-                    let changed = Self::bind_value(
+                    let changed = Self::bind_value_state(
                         dst,
                         &Value::Null,
                         &path,
@@ -200,16 +229,17 @@ impl ViewModel {
                         reactions,
                         transformers,
                         default,
+                        fresh,
                     );
                     object_changed = object_changed || changed;
                 }
-                if object_changed {
+                if fresh || object_changed {
                     Self::react(path, src, bindings, reactions, transformers);
                 }
                 object_changed
             }
             (dst, src) => {
-                if *dst != src {
+                if fresh || *dst != src {
                     **dst = src.clone();
                     Self::react(path, src, bindings, reactions, transformers);
                     true
-- 
2.43.0


From e2488a29624c33a672797668223585f736e5ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 13/57] fix: element with inverted condition must be visible
 until value is truthy

Default state ignored the polarity of visibility binding, the element stayed hidden
while the value was null or missing.
---
 src/view.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/view.rs b/src/view.rs
index f77ce1e..433111d 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -308,11 +308,12 @@ impl View {
         for bindings in self.model.bindings.values() {
             for binding in bindings {
                 match binding.params {
-                    BindingParams::Visibility(parent, node, _) => {
+                    BindingParams::Visibility(parent, node, visible) => {
                         reactions.push(Reaction::Reattach {
                             parent,
                             node,
-                            visible: false,
+                            // default value is null, so only inverted condition is met
+                            visible: !visible,
                         })
                     }
                     _ => {}
-- 
2.43.0


From 151518949d15380dc9d534468b0920218730dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 14/57] fix: layout, visibility and cursor must be reset when
 style no longer matches

---
 src/styles/default.rs | 2 ++
 src/view.rs           | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/styles/default.rs b/src/styles/default.rs
index 3f85bcf..b4c575f 100644
--- a/src/styles/default.rs
+++ b/src/styles/default.rs
@@ -28,6 +28,8 @@ pub(crate) fn reset_element_style(element: &mut Element) {
         align: TextAlign::Start,
     };
     element.self_opacity = 1.0;
+    element.visible = true;
+    element.pointer = Pointer::Auto;
 }
 
 pub fn create_element(node: NodeId) -> Element {
diff --git a/src/view.rs b/src/view.rs
index 433111d..95cc57c 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -2,7 +2,7 @@ use crate::css::{match_style, read_css, read_inline_css, Css, PseudoClassMatcher
 use crate::html::{read_html, ElementBinding, Html};
 use crate::metrics::ViewMetrics;
 use crate::rendering::{Renderer, RendererTranslator};
-use crate::styles::{inherit, Cascade, Scrolling, Sizes, Variables};
+use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
 use crate::{BindingParams, Element, ElementStyle, Fonts, Input, Output, Transformer, ViewError};
@@ -379,7 +379,8 @@ impl View {
             // TODO:
             &*ptr
         };
-        let mut layout = self.tree.style(node)?.clone();
+        // layout depends only on styles applied in this update
+        let mut layout = default_layout();
         let element = unsafe {
             let ptr = self.tree.get_element_mut(node)? as *mut Element;
             &mut *ptr
-- 
2.43.0


From a17bbadf79180c7052a9472222215bbf71ff04ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 15/57] fix: element must not be found by its previous
 identifier

---
 src/view.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index 95cc57c..024f6f8 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -278,7 +278,7 @@ impl View {
                     .ok_or(ViewError::AttributeBindingNotFound(key.clone()))?;
                 attribute.set(span, text);
                 let value = attribute.to_string();
-                element.attrs.insert(key.clone(), value.clone());
+                let previous = element.attrs.insert(key.clone(), value.clone());
                 if key == "style" {
                     match read_inline_css(&value) {
                         Ok(style) => element.style = style,
@@ -288,6 +288,11 @@ impl View {
                     }
                 }
                 if key == "id" {
+                    if let Some(previous) = previous {
+                        if self.identified.get(&previous) == Some(&node) {
+                            self.identified.remove(&previous);
+                        }
+                    }
                     self.identified.insert(value.clone(), node);
                 }
                 match (element.tag.as_str(), key.as_str()) {
-- 
2.43.0


From a8bc7e3ee097ca82e7f0cd1bbea02d97856025a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 16/57] fix: repeated alias must not leak outside of element

---
 src/rendering.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index a090120..290bedf 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -234,10 +234,8 @@ impl Renderer {
                     for binding in &child.bindings {
                         if let ElementBinding::Alias(name, binder) = binding {
                             let path = self.schema.field(binder, &mut self.locals);
-                            overridden.insert(
-                                name.to_string(),
-                                self.locals.insert(name.to_string(), path),
-                            );
+                            let previous = self.locals.insert(name.to_string(), path);
+                            overridden.entry(name.to_string()).or_insert(previous);
                         }
                     }
 
-- 
2.43.0


From 3b935c8602d1ba0cab2d08e0f8ff32e614163c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 17/57] fix: repeat variable must be able to shadow name of
 repeated array

---
 src/rendering.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 290bedf..9b00e87 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -260,9 +260,10 @@ impl Renderer {
                             .entry(array.clone())
                             .or_default()
                             .push(binding);
+                        let locals = self.locals.clone();
                         let overridden = self.locals.remove(name);
                         for n in 0..count {
-                            let path = self.schema.index(binder, n, &self.locals);
+                            let path = self.schema.index(binder, n, &locals);
                             self.locals.insert(name.to_string(), path);
                             let child = child.clone();
                             let child = self.render_node(child)?;
-- 
2.43.0


From 2e0c6de7c9c7dd1b952da629dbc280ef035f973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 18/57] fix: cyclic CSS variables must not overflow the stack

---
 src/styles/compute_function.rs |  9 +++++++--
 src/styles/compute_style.rs    |  2 +-
 src/styles/mod.rs              | 14 ++++++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/styles/compute_function.rs b/src/styles/compute_function.rs
index 214126e..6bdff3e 100644
--- a/src/styles/compute_function.rs
+++ b/src/styles/compute_function.rs
@@ -4,10 +4,15 @@ use crate::styles::Cascade;
 use log::error;
 
 impl<'c> Cascade<'c> {
-    pub(crate) fn compute_function(&self, function: &Function, shorthand: &mut Vec<ComputedValue>) {
+    pub(crate) fn compute_function(
+        &self,
+        function: &Function,
+        shorthand: &mut Vec<ComputedValue>,
+        trace: &mut Vec<String>,
+    ) {
         let name = function.name.as_str();
         let mut arguments = vec![];
-        self.compute_shorthand(&function.arguments, &mut arguments);
+        self.compute_shorthand(&function.arguments, &mut arguments, trace);
         let computed_value = match (name, arguments.as_slice()) {
             ("rgb", [r, g, b]) => {
                 Color([map_c(r), map_c(g), map_c(b), 255])
diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 4160380..5d26e30 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -12,7 +12,7 @@ impl<'c> Cascade<'c> {
         style: &mut ComputedStyle,
     ) {
         let mut shorthand = vec![];
-        if !self.compute_shorthand(definition, &mut shorthand) {
+        if !self.compute_shorthand(definition, &mut shorthand, &mut vec![]) {
             return;
         }
         let mut overwrite = |key: PropertyKey, value: &ComputedValue| {
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 76607ea..86edb8c 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -147,10 +147,16 @@ impl<'c> Cascade<'c> {
         &self,
         definition: &[Definition],
         shorthand: &mut Vec<ComputedValue>,
+        trace: &mut Vec<String>,
     ) -> bool {
         for value in definition {
             match value {
                 Definition::Var(name) => {
+                    if trace.contains(name) {
+                        error!("unable to compute variable {name}, cyclic dependency");
+                        shorthand.push(ComputedValue::Error);
+                        continue;
+                    }
                     let definition = match self.get_variable(name) {
                         Some(shorthand) => shorthand,
                         None => {
@@ -159,9 +165,13 @@ impl<'c> Cascade<'c> {
                             continue;
                         }
                     };
-                    self.compute_shorthand(definition, shorthand);
+                    trace.push(name.clone());
+                    self.compute_shorthand(definition, shorthand, trace);
+                    trace.pop();
+                }
+                Definition::Function(function) => {
+                    self.compute_function(function, shorthand, trace)
                 }
-                Definition::Function(function) => self.compute_function(function, shorthand),
                 Definition::Explicit(value) => shorthand.push(value.clone()),
             }
         }
-- 
2.43.0


From e9e0aadd6af7309b18c17cd1de904b743121e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 19/57] fix: style must be dynamic when combinator depends on
 dynamic ancestor or sibling

Only bindings of the element itself were considered, so a rule matched through its
parent or previous sibling was discarded or applied once and forever.
---
 src/css/matching.rs | 18 ++++++++++++++++++
 src/element.rs      |  8 ++++++++
 src/view.rs         | 34 +++++++++++++++++++++++++---------
 3 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index e37ffdb..7f1a96e 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -120,6 +120,24 @@ fn match_simple_selector(
 }
 
 impl Style {
+    pub fn has_combinator(&self) -> bool {
+        self.selectors.iter().any(|complex| {
+            complex
+                .selectors
+                .iter()
+                .any(|selector| selector.as_combinator().is_some())
+        })
+    }
+
+    pub fn has_sibling_combinator(&self) -> bool {
+        self.selectors.iter().any(|complex| {
+            complex
+                .selectors
+                .iter()
+                .any(|selector| selector.as_combinator() == Some('+'))
+        })
+    }
+
     pub fn has_id_selector(&self) -> bool {
         self.selectors.iter().any(|complex| {
             complex.selectors.iter().any(|selector| match selector {
diff --git a/src/element.rs b/src/element.rs
index 4331351..d1dc4e5 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -80,6 +80,14 @@ impl ElementStyleHints {
     pub fn has_dynamic_properties(&self) -> bool {
         self.has_dynamic_attrs() || self.has_dynamic_classes || self.has_dynamic_id
     }
+
+    pub fn merge(&self, other: &ElementStyleHints) -> ElementStyleHints {
+        ElementStyleHints {
+            dynamic_attrs: self.dynamic_attrs.union(&other.dynamic_attrs).cloned().collect(),
+            has_dynamic_classes: self.has_dynamic_classes || other.has_dynamic_classes,
+            has_dynamic_id: self.has_dynamic_id || other.has_dynamic_id,
+        }
+    }
 }
 
 impl Element {
diff --git a/src/view.rs b/src/view.rs
index 024f6f8..2c4d46e 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -5,7 +5,10 @@ use crate::rendering::{Renderer, RendererTranslator};
 use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
-use crate::{BindingParams, Element, ElementStyle, Fonts, Input, Output, Transformer, ViewError};
+use crate::{
+    BindingParams, Element, ElementStyle, ElementStyleHints, Fonts, Input, Output, Transformer,
+    ViewError,
+};
 use log::error;
 use mesura::GaugeValue;
 use serde_json::Value;
@@ -89,7 +92,7 @@ impl View {
             metrics: ViewMetrics::new(),
             identified,
         };
-        view.calculate_elements_stylesheet(body)?;
+        view.calculate_elements_stylesheet(body, &ElementStyleHints::default())?;
         view.apply_default_bindings_state()?;
         Ok(view)
     }
@@ -331,22 +334,35 @@ impl View {
         Ok(())
     }
 
-    fn calculate_elements_stylesheet(&mut self, node: NodeId) -> Result<(), ViewError> {
+    fn calculate_elements_stylesheet(
+        &mut self,
+        node: NodeId,
+        ancestors_hints: &ElementStyleHints,
+    ) -> Result<(), ViewError> {
         struct Matcher;
         impl PseudoClassMatcher for Matcher {
             fn has_pseudo_class(&self, _element: &Element, _class: &str) -> bool {
                 true
             }
         }
+        // selector with combinators depends on ancestors too
+        let element_hints = self.tree.get_element(node)?.style_hints.clone();
+        let chain_hints = ancestors_hints.merge(&element_hints);
         for style in self.css.styles.iter() {
             let matches_ignoring_pseudo = match_style(style, node, &self.tree, &Matcher);
             let element = self.tree.get_element_mut(node)?;
-            let hints = &element.style_hints;
+            let hints = if style.has_combinator() {
+                &chain_hints
+            } else {
+                &element_hints
+            };
             let has_pseudo = style.has_pseudo_class_selector();
-            let is_static = !hints.has_dynamic_properties()
-                || (!style.has_attrs_selector(&hints.dynamic_attrs)
-                    && (!hints.has_dynamic_classes || !style.has_class_selector())
-                    && (!hints.has_dynamic_id || !style.has_id_selector()));
+            // siblings of element depend on visibility and repeat bindings
+            let is_static = !style.has_sibling_combinator()
+                && (!hints.has_dynamic_properties()
+                    || (!style.has_attrs_selector(&hints.dynamic_attrs)
+                        && (!hints.has_dynamic_classes || !style.has_class_selector())
+                        && (!hints.has_dynamic_id || !style.has_id_selector())));
             if matches_ignoring_pseudo {
                 if is_static && !has_pseudo {
                     element.styles.push(ElementStyle::Static(style.clone()));
@@ -363,7 +379,7 @@ impl View {
         }
         let children = self.tree.children(node)?;
         for child in children {
-            self.calculate_elements_stylesheet(child)?;
+            self.calculate_elements_stylesheet(child, &chain_hints)?;
         }
         Ok(())
     }
-- 
2.43.0


From 1c83cc90d11cd7b951bad2676251de5f112c9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 20/57] fix: animation and transition must stop when style no
 longer matches

---
 src/styles/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 86edb8c..21b8088 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -17,8 +17,8 @@ use std::collections::HashMap;
 use taffy::{NodeId, TaffyTree};
 
 use crate::css::{
-    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PseudoClassMatcher,
-    Shorthand, Variable,
+    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PropertyDescriptor,
+    PropertyKey, PseudoClassMatcher, Shorthand, Variable,
 };
 
 use crate::styles::stats::CascadeStats;
@@ -93,6 +93,17 @@ impl<'c> Cascade<'c> {
         if !element.style.is_empty() {
             self.compute_declaration_block(&element.style, &mut computed_style);
         }
+        // animations and transitions of styles that no longer match must be stopped
+        let count = |key: PropertyKey| {
+            computed_style
+                .keys()
+                .filter(|property: &&PropertyDescriptor| property.key == key)
+                .map(|property| property.index + 1)
+                .max()
+                .unwrap_or(0)
+        };
+        element.animators.truncate(count(PropertyKey::AnimationName));
+        element.transitions.truncate(count(PropertyKey::TransitionProperty));
         // 3: animations
         let time = input.time.as_secs_f32();
         for animator in element.animators.iter_mut() {
-- 
2.43.0


From edacca569f555783926d49c4ca6f60f1b4f0cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 21/57] fix: list must be empty until data is bound

The initial model contained as many items as the template can repeat, so the first
value with the same number of items did not cause reactions of conditions bound to
the list.
---
 src/view.rs       |  8 ++++++++
 src/view_model.rs | 12 +++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index 2c4d46e..6ca4136 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -324,6 +324,14 @@ impl View {
                             visible: !visible,
                         })
                     }
+                    BindingParams::Repeat(parent, start, size) => {
+                        reactions.push(Reaction::Repeat {
+                            parent,
+                            start,
+                            cursor: start,
+                            end: start + size,
+                        })
+                    }
                     _ => {}
                 }
             }
diff --git a/src/view_model.rs b/src/view_model.rs
index 5cb9dab..788eba3 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -32,9 +32,10 @@ pub struct ViewModel {
 }
 
 impl ViewModel {
-    pub fn create(bindings: Bindings, model: Value) -> Self {
+    pub fn create(bindings: Bindings, mut model: Value) -> Self {
         let mut model_array_default = HashMap::new();
         Self::memorize_array_default("", &model, &mut model_array_default);
+        Self::clear_arrays(&mut model);
         Self {
             bindings,
             model,
@@ -73,6 +74,15 @@ impl ViewModel {
         }
     }
 
+    /// There are no items until data is bound, items of schema describe structure only.
+    fn clear_arrays(value: &mut Value) {
+        match value {
+            Value::Array(array) => array.clear(),
+            Value::Object(object) => object.values_mut().for_each(Self::clear_arrays),
+            _ => {}
+        }
+    }
+
     pub fn bind(&mut self, value: &Value) -> Vec<Reaction> {
         let mut reactions = vec![];
         Self::bind_value(
-- 
2.43.0


From e5b459d8ac20b231fee19097648ad5870e564177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 22/57] fix: only one element can be dragged at once

A press over nested draggable elements started a drag of each of them, but only the
last one was ever ended.
---
 src/view_model.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 788eba3..c96def2 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -414,7 +414,10 @@ impl ViewModel {
 
                         let event = MouseEvent::new(self.mouse, element);
                         self.emit(&element, "onmousedown", event);
-                        if button == MouseButtons::Left && element.draggable() {
+                        if button == MouseButtons::Left
+                            && self.drag.is_none()
+                            && element.draggable()
+                        {
                             let event = MouseEvent::new(self.mouse, element);
                             self.emit(element, "ondragstart", event);
                             self.drag = DragContext::new(node);
-- 
2.43.0


From 64a2db9ca484e4debe169007c7127a7e1e9a3732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 23/57] fix: drop must not be followed by click on elements
 behind the drop target

---
 src/view_model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index c96def2..6ca6cd1 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -426,6 +426,7 @@ impl ViewModel {
                 }
                 InputEvent::MouseButtonUp(button) => {
                     let elements_under_mouse = self.elements_under_mouse.clone();
+                    let is_drag = self.drag.is_some();
                     for node in elements_under_mouse.iter().rev() {
                         let element = tree.get_element_mut(*node)?;
                         let event = MouseEvent::new(self.mouse, element);
@@ -441,7 +442,7 @@ impl ViewModel {
                                 let event = MouseEvent::new(self.mouse, element);
                                 self.emit(element, "ondragend", event);
                             }
-                        } else {
+                        } else if !is_drag {
                             if button == MouseButtons::Left && element.state.active {
                                 let event = MouseEvent::new(self.mouse, element);
                                 self.emit(&element, "onclick", event);
-- 
2.43.0


From a7e2193d86e3ede785e635c0f4e9bca54fce4b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 24/57] fix: spaces after transformer name must not be part of
 the name

---
 src/html/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 5f2adaa..746a7ef 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -257,7 +257,8 @@ fn parse_binder(pair: Pair<Rule>) -> Binder {
                     .map(|key| key.as_str().to_string())
                     .collect();
             }
-            Rule::Transformer => pipe.push(next.as_str().to_string()),
+            // implicit whitespaces before the next rule belong to transformer
+            Rule::Transformer => pipe.push(next.as_str().trim().to_string()),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 633abfacea254d928d34b1d9e52d7c996f19de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 25/57] fix: absent object must differ from object with null
 fields

---
 src/view_model.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 6ca6cd1..91e34cf 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -7,7 +7,7 @@ use log::error;
 use crate::tree::ViewTreeExtensions;
 use serde::{Deserialize, Serialize};
 use serde_json::{json, Map, Value};
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::mem::take;
 use std::time::Duration;
 use taffy::{NodeId, TaffyTree};
@@ -20,6 +20,8 @@ pub struct ViewModel {
     pub(crate) bindings: Bindings,
     model: Value,
     model_array_default: HashMap<String, Value>,
+    /// Paths of bound objects that are not null, fields of absent object are null too.
+    present_objects: HashSet<String>,
     pub(crate) transformers: HashMap<String, Transformer>,
     // state
     // pub(crate) focus: Option<NodeId>,
@@ -40,6 +42,7 @@ impl ViewModel {
             bindings,
             model,
             model_array_default,
+            present_objects: HashSet::new(),
             transformers: default_transformers(),
             mouse: [0.0, 0.0],
             elements_under_mouse: Vec::new(),
@@ -85,7 +88,7 @@ impl ViewModel {
 
     pub fn bind(&mut self, value: &Value) -> Vec<Reaction> {
         let mut reactions = vec![];
-        Self::bind_value(
+        Self::bind_value_state(
             &mut self.model,
             value,
             "",
@@ -94,6 +97,8 @@ impl ViewModel {
             &mut reactions,
             &self.transformers,
             &self.model_array_default,
+            Some(&mut self.present_objects),
+            false,
         );
         reactions
     }
@@ -117,6 +122,7 @@ impl ViewModel {
             reactions,
             transformers,
             default,
+            None,
             false,
         )
     }
@@ -132,6 +138,7 @@ impl ViewModel {
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
         default: &HashMap<String, Value>,
+        mut present: Option<&mut HashSet<String>>,
         fresh: bool,
     ) -> bool {
         let structure = match default.get(arrays_path) {
@@ -169,6 +176,7 @@ impl ViewModel {
                         reactions,
                         transformers,
                         default,
+                        present.as_deref_mut(),
                         fresh || index >= known,
                     );
                     array_changed = array_changed || changed;
@@ -195,7 +203,10 @@ impl ViewModel {
                 false
             }
             (Value::Object(object), Value::Object(src)) => {
-                let mut object_changed = false;
+                let mut object_changed = match present.as_deref_mut() {
+                    Some(present) => present.insert(path.to_string()),
+                    None => false,
+                };
                 for (key, dst) in object.iter_mut() {
                     let path = format!("{path}/{key}");
                     let arrays_path = format!("{arrays_path}/{key}");
@@ -216,6 +227,7 @@ impl ViewModel {
                         reactions,
                         transformers,
                         default,
+                        present.as_deref_mut(),
                         fresh,
                     );
                     object_changed = object_changed || changed;
@@ -225,8 +237,11 @@ impl ViewModel {
                 }
                 object_changed
             }
-            (Value::Object(object), src) => {
-                let mut object_changed = false;
+            (Value::Object(object), _) => {
+                let mut object_changed = match present.as_deref_mut() {
+                    Some(present) => present.remove(path),
+                    None => false,
+                };
                 for (key, dst) in object.iter_mut() {
                     let path = format!("{path}/{key}");
                     let arrays_path = format!("{arrays_path}/{key}");
@@ -239,12 +254,13 @@ impl ViewModel {
                         reactions,
                         transformers,
                         default,
+                        present.as_deref_mut(),
                         fresh,
                     );
                     object_changed = object_changed || changed;
                 }
                 if fresh || object_changed {
-                    Self::react(path, src, bindings, reactions, transformers);
+                    Self::react(path, &Value::Null, bindings, reactions, transformers);
                 }
                 object_changed
             }
-- 
2.43.0


From 7e904762be0b2bca02a11872cdc75c65c3f972d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 26/57] fix: item of wrong kind must not keep array of the
 previous item

---
 src/view_model.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 91e34cf..70365d9 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -61,7 +61,9 @@ impl ViewModel {
         match value {
             Value::Array(array) => {
                 if let Some(item) = array.first() {
-                    default.insert(type_path.to_string(), item.clone());
+                    let mut structure = item.clone();
+                    Self::clear_arrays(&mut structure);
+                    default.insert(type_path.to_string(), structure);
                 }
                 for item in array {
                     Self::memorize_array_default(&format!("{type_path}/*"), item, default)
@@ -183,7 +185,7 @@ impl ViewModel {
                 }
                 array_changed
             }
-            (Value::Array(current), Value::Null) => {
+            (Value::Array(current), src) if fresh || src.is_null() => {
                 if fresh || current.len() != 0 {
                     current.clear();
                     Self::react(
-- 
2.43.0


From 6404b48fa59bfac22de8e4a0225a8b2d57fb7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 27/57] fix: flex factors and iteration count must accept zero

---
 src/styles/apply.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 934bb8d..ae1d046 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -234,7 +234,9 @@ impl<'c> Cascade<'c> {
             }
             (PropertyKey::FlexBasis, value) => layout.flex_basis = dimension(value, self)?,
             (PropertyKey::FlexGrow, ComputedValue::Number(value)) => layout.flex_grow = *value,
+            (PropertyKey::FlexGrow, ComputedValue::Zero) => layout.flex_grow = 0.0,
             (PropertyKey::FlexShrink, ComputedValue::Number(value)) => layout.flex_shrink = *value,
+            (PropertyKey::FlexShrink, ComputedValue::Zero) => layout.flex_shrink = 0.0,
             (PropertyKey::ColumnGap, column) => {
                 layout.gap.width = lengthp(column, self)?;
             }
@@ -424,6 +426,7 @@ fn resolve_iterations(
             _ => return Err(CascadeError::ValueNotSupported),
         },
         ComputedValue::Number(number) => AnimationIterations::Number(*number),
+        ComputedValue::Zero => AnimationIterations::Number(0.0),
         _ => return Err(CascadeError::ValueNotSupported),
     };
     Ok(value)
-- 
2.43.0


From be0040c2dde1374c86f9b7b8d52f7839f712678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 28/57] fix: words of attribute may be separated by any white
 space

---
 src/css/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 7f1a96e..960d6a9 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -102,7 +102,7 @@ fn match_simple_selector(
                 .map(|attr| match operator {
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
-                    Matcher::Include => attr.split(" ").any(|word| word == value),
+                    Matcher::Include => attr.split_ascii_whitespace().any(|word| word == value),
                     Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
@@ -180,7 +180,7 @@ impl Style {
 
 #[inline(always)]
 fn match_class(classes: &str, ident: &str) -> bool {
-    classes.split(" ").any(|class| class == ident)
+    classes.split_ascii_whitespace().any(|class| class == ident)
 }
 
 pub trait PseudoClassMatcher {
-- 
2.43.0


From 1b9b7afc4ab95a775122cca4f12aa4cc55e9adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 29/57] fix: attribute selector must not match empty part of
 value

---
 src/css/matching.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 960d6a9..2d82d1f 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -104,6 +104,10 @@ fn match_simple_selector(
                     Matcher::Equal => attr == value,
                     Matcher::Include => attr.split_ascii_whitespace().any(|word| word == value),
                     Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
+                    // empty string is not a part of any value
+                    Matcher::Prefix | Matcher::Substring | Matcher::Suffix if value.is_empty() => {
+                        false
+                    }
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
                     Matcher::Suffix => attr.ends_with(value),
-- 
2.43.0


From b1e6267fa6f611d37095414969609a7c067d7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 30/57] fix: class and id bound as flags must be dynamic

---
 src/rendering.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rendering.rs b/src/rendering.rs
index 9b00e87..2834b0b 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -131,6 +131,12 @@ impl Renderer {
                         pipe: binder.pipe.clone(),
                     };
                     self.bindings.entry(path).or_default().push(binding);
+                    if key == "class" {
+                        element.style_hints.has_dynamic_classes = true;
+                    }
+                    if key == "id" {
+                        element.style_hints.has_dynamic_id = true;
+                    }
                     element.style_hints.dynamic_attrs.insert(key);
                 }
                 ElementBinding::Attribute(key, text) => {
-- 
2.43.0


From ba7aa04f7be6b734549d861235d85efdcd6c5bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 31/57] fix: zero is interpolated with numbers and lengths

`opacity: 0` to `opacity: 1`, or `width: 0` to `width: 10px`, jumped in the
middle of an animation or a transition, because only percentages were
interpolated with zero.
---
 src/animation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index febc81e..fb6f946 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -193,6 +193,10 @@ pub fn animate(_key: PropertyKey, a: &ComputedValue, b: &ComputedValue, t: f32)
             }
         }
         (Zero, Percentage(b)) => percentage(&0.0, b, t),
+        (Number(a), Zero) => number(a, &0.0, t),
+        (Zero, Number(b)) => number(&0.0, b, t),
+        (Dimension(a), Zero) => dimension(a, &Dim { value: 0.0, ..*a }, t),
+        (Zero, Dimension(b)) => dimension(&Dim { value: 0.0, ..*b }, b, t),
         (Dimension(a), Dimension(b)) => dimension(a, b, t),
         (Color(a), Color(b)) => color(a, b, t),
         (a, b) => {
-- 
2.43.0


From 244c1d247ee69a987b6aed63621b9db25b3c2298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 32/57] fix: a finished animation stays at the end of its last
 cycle

The end was derived from the remainder of iterations * duration, which is not
exact: 3 cycles of 0.1s ended at the beginning of a fourth cycle. A negative
number of iterations gave a negative progress.
---
 src/animation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index fb6f946..9d27899 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -162,8 +162,12 @@ impl Animator {
             return Some(1.0);
         }
         let t = match self.iterations {
-            AnimationIterations::Number(iterations) => t.min(iterations * self.duration),
-            AnimationIterations::Infinite => t,
+            AnimationIterations::Number(iterations) if t >= iterations * self.duration => {
+                // finished, stays where the last cycle ends
+                let rest = iterations.max(0.0) % 1.0;
+                return Some(if rest == 0.0 && iterations > 0.0 { 1.0 } else { rest });
+            }
+            _ => t,
         };
         let mut x = t % self.duration;
         if x == 0.0 && t > 0.0 {
-- 
2.43.0


From f6e8bbc2226375b5ad1d1131aa807f70bbd8766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 33/57] fix: keyframes of the same step complement each other

The declarations of an earlier keyframe block were dropped when a later block
had the same step, so their properties were not animated.
---
 src/styles/compute_animation_tracks.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/styles/compute_animation_tracks.rs b/src/styles/compute_animation_tracks.rs
index c15a24f..122d57f 100644
--- a/src/styles/compute_animation_tracks.rs
+++ b/src/styles/compute_animation_tracks.rs
@@ -13,9 +13,11 @@ impl<'c> Cascade<'c> {
         style: &ComputedStyle,
     ) -> Vec<AnimationTrack> {
         let mut animated_properties: HashSet<PropertyDescriptor> = HashSet::new();
-        let mut computed_keyframe_styles = BTreeMap::new();
+        let mut computed_keyframe_styles: BTreeMap<u32, ComputedStyle> = BTreeMap::new();
         for keyframe in &animation.keyframes {
-            let mut keyframe_style = HashMap::new();
+            // several keyframes of the same step complement each other
+            let keyframe_style: &mut ComputedStyle =
+                computed_keyframe_styles.entry(keyframe.step).or_default();
             for declaration in &keyframe.declaration {
                 match declaration {
                     Declaration::Variable(variable) => {
@@ -27,13 +29,12 @@ impl<'c> Cascade<'c> {
                     Declaration::Property(property) => {
                         for index in 0..property.values.len() {
                             let value = &property.values[index];
-                            self.compute_style(property.key, index, value, &mut keyframe_style);
+                            self.compute_style(property.key, index, value, keyframe_style);
                         }
                     }
                 }
             }
             animated_properties.extend(keyframe_style.keys());
-            computed_keyframe_styles.insert(keyframe.step, keyframe_style);
         }
         let from = computed_keyframe_styles.entry(0).or_default();
         for property in &animated_properties {
-- 
2.43.0


From 3eb5ba11d40652fbff1f55cb45cdfc1e66457a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 34/57] fix: another animation starts from its beginning

When the name of a running animation was replaced by another one, the new
animation continued with the elapsed time of the old one and could even be
finished before it started.
---
 src/styles/apply.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index ae1d046..066d37f 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -267,7 +267,12 @@ impl<'c> Cascade<'c> {
             // Animation
             //
             (PropertyKey::AnimationName, Keyword(name)) => {
-                element.get_animator_mut(index).name = name.to_string();
+                let animator = element.get_animator_mut(index);
+                if &animator.name != name {
+                    // another animation is played from its beginning
+                    animator.name = name.to_string();
+                    animator.restart();
+                }
             }
             (PropertyKey::AnimationDelay, Time(delay)) => {
                 element.get_animator_mut(index).delay = *delay;
-- 
2.43.0


From b394d826e9d70560ee4c1dcab62583b1123b9026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 35/57] fix: animation settings of styles that no longer match
 must be reset

Play state, delay, duration and iteration count stayed forever: an animation
paused by `:hover { animation-play-state: paused; }` was never resumed.
---
 src/animation.rs  | 9 +++++++++
 src/styles/mod.rs | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index 9d27899..6e788d8 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -115,6 +115,15 @@ impl Animator {
         self.time = 0.0;
     }
 
+    /// Returns all settings to initial values, elapsed time of animation is kept.
+    pub fn reset_settings(&mut self) {
+        *self = Self {
+            name: std::mem::take(&mut self.name),
+            time: self.time,
+            ..Self::default()
+        };
+    }
+
     pub fn play(&mut self, time: f32, tracks: &Vec<AnimationTrack>, style: &mut ComputedStyle) {
         if let Some(time) = self.update(time) {
             let step = (time * 100.0) as u32;
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 21b8088..a1b9c02 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -124,6 +124,13 @@ impl<'c> Cascade<'c> {
         for transition in element.transitions.iter_mut() {
             transition.play(time, &mut computed_style);
         }
+        // settings of animations and transitions depend only on styles applied in this update
+        for animator in element.animators.iter_mut() {
+            animator.reset_settings();
+        }
+        for transition in element.transitions.iter_mut() {
+            transition.animator.reset_settings();
+        }
         for (property, value) in &computed_style {
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
-- 
2.43.0


From a16493d6b632dfac64b1a0ea5cb4df5210b24901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 36/57] fix: delayed transition shows the previous value during
 its delay

The new value was displayed at once, replaced by the previous value when the
delay had passed, and displayed again before the transition began.
---
 src/animation.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 6e788d8..dff1535 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -47,10 +47,8 @@ impl Transition {
             Some(key) => key,
             None => return,
         };
-        let time = match self.animator.update(time) {
-            Some(time) => time,
-            None => return,
-        };
+        // nothing moves until the delay has passed
+        let time = self.animator.update(time).unwrap_or(0.0);
         let mut index = 0;
         loop {
             let descriptor = PropertyDescriptor::new(key, index);
-- 
2.43.0


From c442493e21ac9256205840119ee166dff25a838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 37/57] fix: transition does not start from a value which is no
 longer displayed

A property that lost its value (its rule stopped matching) started the next
transition from a value displayed long ago.
---
 src/animation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index dff1535..3b39883 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -54,7 +54,13 @@ impl Transition {
             let descriptor = PropertyDescriptor::new(key, index);
             let value = match style.get(&descriptor) {
                 Some(value) => value,
-                None => return,
+                None => {
+                    // nothing is displayed to start from next time
+                    if index == 0 {
+                        self.range = None;
+                    }
+                    return;
+                }
             };
             let (from, to) = match self.range.as_ref() {
                 Some(range) => range,
-- 
2.43.0


From ba528ad4e65db004762d55ab97642f3634aa303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 38/57] fix: transition of another property must not start from
 values of the previous one

---
 src/styles/apply.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 066d37f..bf36ae0 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -251,7 +251,13 @@ impl<'c> Cascade<'c> {
                     Some(key) => key,
                     None => return CascadeError::invalid_keyword(name),
                 };
-                element.get_transition_mut(index).key = Some(key);
+                let transition = element.get_transition_mut(index);
+                if transition.key != Some(key) {
+                    // values of another property have nothing to do with this one
+                    transition.key = Some(key);
+                    transition.range = None;
+                    transition.animator.restart();
+                }
             }
             (PropertyKey::TransitionDuration, Time(duration)) => {
                 element.get_transition_mut(index).animator.duration = *duration;
-- 
2.43.0


From ffe07f9cf90ebd5998ab80d5168c33be25895d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 39/57] fix: transition of a property with several layers
 settles

All layers shared one range of values, so layers with different values
(`background-color: red, blue`) restarted the transition on every update and
were displayed with values of each other.
---
 src/animation.rs    | 41 ++++++++++++++++++++++-------------------
 src/styles/apply.rs |  2 +-
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 3b39883..e408ded 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -8,7 +8,8 @@ use crate::Rgba;
 pub struct Transition {
     pub key: Option<PropertyKey>,
     pub animator: Animator,
-    pub range: Option<(ComputedValue, ComputedValue)>,
+    /// Values of every layer of the property the transition moves between.
+    pub ranges: Vec<(ComputedValue, ComputedValue)>,
 }
 
 impl Default for Transition {
@@ -16,28 +17,25 @@ impl Default for Transition {
         Self {
             key: None,
             animator: Default::default(),
-            range: None,
+            ranges: vec![],
         }
     }
 }
 
 impl Transition {
     pub fn init_after_style_applied(&mut self, style: &mut ComputedStyle) {
-        if self.range.is_some() {
-            return;
-        }
         let key = match self.key {
             Some(key) => key,
             None => return,
         };
-        let mut index = 0;
+        let mut index = self.ranges.len();
         loop {
             let descriptor = PropertyDescriptor::new(key, index);
             let value = match style.get(&descriptor) {
                 Some(value) => value,
                 None => return,
             };
-            self.range = Some((value.clone(), value.clone()));
+            self.ranges.push((value.clone(), value.clone()));
             index += 1;
         }
     }
@@ -50,35 +48,40 @@ impl Transition {
         // nothing moves until the delay has passed
         let time = self.animator.update(time).unwrap_or(0.0);
         let mut index = 0;
+        let mut layers = vec![];
+        let mut restart = false;
         loop {
             let descriptor = PropertyDescriptor::new(key, index);
             let value = match style.get(&descriptor) {
-                Some(value) => value,
+                Some(value) => value.clone(),
                 None => {
                     // nothing is displayed to start from next time
-                    if index == 0 {
-                        self.range = None;
-                    }
-                    return;
+                    self.ranges.truncate(index);
+                    break;
                 }
             };
-            let (from, to) = match self.range.as_ref() {
+            let (from, to) = match self.ranges.get(index) {
                 Some(range) => range,
                 None => {
                     // no value to start from, initial range will be captured after style applied
-                    return;
+                    break;
                 }
             };
             let current = animate(key, &from, &to, time);
-            if to != value {
-                self.range = Some((current.clone(), value.clone()));
-                self.animator.restart();
+            if to != &value {
+                restart = true;
             }
-            if &current != value {
-                style.insert(descriptor, current);
+            if current != value {
+                style.insert(descriptor, current.clone());
             }
+            layers.push((current, value));
             index += 1;
         }
+        if restart {
+            // all layers continue from displayed values at the same time
+            self.ranges = layers;
+            self.animator.restart();
+        }
     }
 }
 
diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index bf36ae0..6f9209e 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -255,7 +255,7 @@ impl<'c> Cascade<'c> {
                 if transition.key != Some(key) {
                     // values of another property have nothing to do with this one
                     transition.key = Some(key);
-                    transition.range = None;
+                    transition.ranges.clear();
                     transition.animator.restart();
                 }
             }
-- 
2.43.0


From 21eac1a7828524da54c8562009e6e6d17d13f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 40/57] fix: large integers are evaluated exactly

eval_u64 converted integers via f64, which changes values above 2^53.
---
 src/value.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 3c8552c..c551ade 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -30,9 +30,11 @@ impl ValueExtensions for Value {
                     0
                 }
             }
-            Value::Number(number) => match number.as_f64() {
-                None => 0,
-                Some(number) => number as u64,
+            Value::Number(number) => match (number.as_u64(), number.as_f64()) {
+                // conversion of integers via float is not exact
+                (Some(number), _) => number,
+                (None, Some(number)) => number as u64,
+                (None, None) => 0,
             },
             Value::String(string) => string.parse::<u64>().unwrap_or(0),
             Value::Array(_) => 0,
-- 
2.43.0


From 27dd63d8b5919cf0ec24471b8ae58604de344e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 41/57] verif: hooks for specifications and proof harnesses

Compiled only with --cfg bumaga_verif, which includes the files of
BUMAGA_VERIF_DIR as child modules of the modules they specify.
---
 src/animation.rs        |  8 ++++++++
 src/css/matching.rs     |  8 ++++++++
 src/element.rs          |  8 ++++++++
 src/lib.rs              | 11 +++++++++++
 src/rendering.rs        |  8 ++++++++
 src/styles/apply.rs     |  8 ++++++++
 src/styles/mod.rs       |  8 ++++++++
 src/styles/scrolling.rs |  8 ++++++++
 src/value.rs            |  8 ++++++++
 src/view.rs             |  8 ++++++++
 src/view_model.rs       |  8 ++++++++
 11 files changed, 91 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index e408ded..6bdb356 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -300,3 +300,11 @@ fn number(a: &f32, b: &f32, t: f32) -> ComputedValue {
 fn _transform(_a: &[ComputedValue], _b: &[ComputedValue], _t: f32) -> Vec<ComputedValue> {
     unimplemented!()
 }
+
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub(crate) mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/animation.rs"));
+}
diff --git a/src/css/matching.rs b/src/css/matching.rs
index 2d82d1f..9ebf46a 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -190,3 +190,11 @@ fn match_class(classes: &str, ident: &str) -> bool {
 pub trait PseudoClassMatcher {
     fn has_pseudo_class(&self, element: &Element, class: &str) -> bool;
 }
+
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub(crate) mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/matching.rs"));
+}
diff --git a/src/element.rs b/src/element.rs
index d1dc4e5..81b5416 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -345,3 +345,11 @@ pub enum Pointer {
     Text,
     NotAllowed
 }
+
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub(crate) mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/element.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 2b17f2f..487f03b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// cfg(bumaga_verif) enables verification hooks, see mod verif
+#![allow(unexpected_cfgs)]
+
 pub use element::*;
 pub use error::*;
 pub use fonts::*;
@@ -26,3 +29,11 @@ mod tree;
 mod value;
 mod view;
 mod view_model;
+
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/lib.rs"));
+}
diff --git a/src/rendering.rs b/src/rendering.rs
index 2834b0b..3b53572 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -320,3 +320,11 @@ impl RendererTranslator for FakeTranslator {
         span
     }
 }
+
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub(crate) mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/rendering.rs"));
+}
diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 6f9209e..a99082f 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -600,3 +600,11 @@ fn map_align_content(keyword: &str) -> Result<Option<taffy::AlignContent>, Casca
     };
     Ok(Some(align))
 }
+
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub(crate) mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/apply.rs"));
+}
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index a1b9c02..8c1f262 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -214,3 +214,11 @@ pub struct Sizes {
     pub viewport_width: f32,
     pub viewport_height: f32,
 }
+
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub(crate) mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/styles.rs"));
+}
diff --git a/src/styles/scrolling.rs b/src/styles/scrolling.rs
index a9db294..decf65b 100644
--- a/src/styles/scrolling.rs
+++ b/src/styles/scrolling.rs
@@ -43,3 +43,11 @@ impl Scrolling {
         }
     }
 }
+
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub(crate) mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/scrolling.rs"));
+}
diff --git a/src/value.rs b/src/value.rs
index c551ade..dcadf2a 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -75,3 +75,11 @@ impl ValueExtensions for Value {
         }
     }
 }
+
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub(crate) mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/value.rs"));
+}
diff --git a/src/view.rs b/src/view.rs
index 6ca4136..e4208d0 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -580,6 +580,14 @@ impl PseudoClassMatcher for View {
     }
 }
 
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub(crate) mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/view.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/view_model.rs b/src/view_model.rs
index 70365d9..6ed745f 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -872,6 +872,14 @@ impl DragContext {
     }
 }
 
+// Specifications and proof harnesses, compiled only for verification.
+#[cfg(bumaga_verif)]
+pub(crate) mod verif {
+    #[allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("BUMAGA_VERIF_DIR"), "/view_model.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 248dabd1aa8e541b7369b1912a0c959fa723c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 42/57] fix: identifier shared for a while must still be found
 on its remaining element

---
 src/rendering.rs |  4 ++--
 src/view.rs      | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 3b53572..32e7034 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -14,7 +14,7 @@ pub struct Renderer {
     pub locals: HashMap<String, String>,
     pub schema: Schema,
     pub templates: HashMap<String, Html>,
-    pub static_id: HashMap<String, NodeId>,
+    pub static_id: HashMap<String, Vec<NodeId>>,
     pub translator: Box<dyn RendererTranslator>,
 }
 
@@ -119,7 +119,7 @@ impl Renderer {
                         }
                     }
                     if key == "id" {
-                        self.static_id.insert(value.clone(), node);
+                        self.static_id.entry(value.clone()).or_default().push(node);
                     }
                     element.attrs.insert(key, value);
                 }
diff --git a/src/view.rs b/src/view.rs
index e4208d0..ca33fa5 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -27,7 +27,8 @@ pub struct View {
     resources: String,
     pub fonts: Box<dyn Fonts>,
     metrics: ViewMetrics,
-    identified: HashMap<String, NodeId>,
+    /// Elements by identifier.
+    identified: HashMap<String, Vec<NodeId>>,
 }
 
 impl View {
@@ -291,12 +292,10 @@ impl View {
                     }
                 }
                 if key == "id" {
-                    if let Some(previous) = previous {
-                        if self.identified.get(&previous) == Some(&node) {
-                            self.identified.remove(&previous);
-                        }
+                    if let Some(nodes) = previous.and_then(|id| self.identified.get_mut(&id)) {
+                        nodes.retain(|identified| *identified != node);
                     }
-                    self.identified.insert(value.clone(), node);
+                    self.identified.entry(value.clone()).or_default().push(node);
                 }
                 match (element.tag.as_str(), key.as_str()) {
                     ("img", "src") => self.model.update_img_src(node, value, &mut self.tree)?,
@@ -479,6 +478,7 @@ impl View {
     pub fn get_element_by_id(&self, id: &str) -> Option<&Element> {
         self.identified
             .get(id)
+            .and_then(|nodes| nodes.last())
             .and_then(|node| self.tree.get_element(*node).ok())
     }
 
-- 
2.43.0


From 048b6a3f78ed57bfc85ebdb08fdf6b08d7c89266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 43/57] fix: rejected background values must not add background
 layers

---
 src/styles/apply.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index a99082f..ece70a5 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -26,8 +26,8 @@ impl<'c> Cascade<'c> {
             //
             (PropertyKey::Opacity, value) => element.self_opacity = resolve_alpha(value)?,
             (PropertyKey::BackgroundColor, value) => {
-                let background = element.get_background_mut(index);
-                background.color = resolve_color(value, self)?
+                let color = resolve_color(value, self)?;
+                element.get_background_mut(index).color = color;
             }
             (PropertyKey::BackgroundImage, Keyword(keyword)) => {
                 if keyword == "none" {
@@ -43,13 +43,13 @@ impl<'c> Cascade<'c> {
             }
             (PropertyKey::BackgroundPositionX, value) => {
                 // TODO: percentage
-                let background = element.get_background_mut(index);
-                background.src[0] = -resolve_length(value, self, 0.0)?;
+                let position = -resolve_length(value, self, 0.0)?;
+                element.get_background_mut(index).src[0] = position;
             }
             (PropertyKey::BackgroundPositionY, value) => {
                 // TODO: percentage
-                let background = element.get_background_mut(index);
-                background.src[1] = -resolve_length(value, self, 0.0)?;
+                let position = -resolve_length(value, self, 0.0)?;
+                element.get_background_mut(index).src[1] = position;
             }
             (PropertyKey::Color, value) => element.color = resolve_color(value, self)?,
             (PropertyKey::FontSize, value) => {
-- 
2.43.0


From 3817fe9d454a0534a7711ff59acaf64b758367b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:13 +0000
Subject: [PATCH 44/57] fix: spaces after a binder of a bound attribute are
 part of its value

---
 src/html/html.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index abaa099..6dca722 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -73,7 +73,8 @@ AliasBinding = { "+" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
 TagBinding = { "#" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
-AttributeBinding = { "@" ~ Key ~ "=" ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\"" }
+// spaces between the parts of a bound attribute belong to its value
+AttributeBinding = ${ "@" ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\"" }
 
 DoubleQuotedAttributeString = @{ DoubleQuotedAttributeChar+ }
 
-- 
2.43.0


From 889487e4daa7e6fc36bcc603d273aa11c558b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:13 +0000
Subject: [PATCH 45/57] fix: a line break before a binder separates it from the
 text

---
 src/html/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 746a7ef..5f590d6 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -186,11 +186,12 @@ fn parse_content(pair: Pair<Rule>, is_last_content: bool) -> Html {
                 let span = prefetch[index].clone();
                 match span {
                     TextSpan::String(string) => {
+                        let is_last_span = is_last_content && index + 1 == count;
                         let mut text = String::new();
                         for (index, fragment) in string.split("\n").enumerate() {
                             if index != 0 {
                                 let fragment = fragment.trim_start();
-                                if !fragment.is_empty() || !is_last_content {
+                                if !fragment.is_empty() || !is_last_span {
                                     text.push(' ');
                                     text.push_str(fragment);
                                 }
-- 
2.43.0


From a27bb43892f3dbb37ab16f01eb38fb3194ece071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:13 +0000
Subject: [PATCH 46/57] fix: a tag that begins with the name of a void element
 is no void element

---
 src/html/html.pest | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 6dca722..56bfcc4 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -20,8 +20,8 @@ Children = { Content* }
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Void = { "<" ~ VoidTag ~ Attributes ~ ("/")? ~ ">" }
 
-VoidTag = {
-    ^"area"
+VoidTag = @{ (
+       ^"area"
     | ^"base"
     | ^"br"
     | ^"col"
@@ -37,7 +37,7 @@ VoidTag = {
     | ^"source"
     | ^"track"
     | ^"wbr"
-}
+) ~ !TChar }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Tag = @{ TChar+ }
-- 
2.43.0


From 31116da58e712e79dbdebae6fd5eec75e38bdcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:13 +0000
Subject: [PATCH 47/57] fix: unquoted attribute values end at white space or
 the end of the tag

---
 src/html/html.pest | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 56bfcc4..a8e06d0 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -98,7 +98,7 @@ Count = { ASCII_DIGIT* }
 DoubleQuoted = { Name ~ "=" ~ "\"" ~ Value ~ "\"" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
-Unquoted = { Name ~ "=" ~ Value }
+Unquoted = { Name ~ "=" ~ UnquotedValue }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Empty = { Name }
@@ -131,3 +131,10 @@ VChar = {
     | "\\" ~ ("\"" | "\\" | "/" | "b" | "f" | "n" | "r" | "t")
     | "\\" ~ ("u" ~ ASCII_HEX_DIGIT{4})
 }
+
+// https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
+UnquotedValue = @{ UChar+ }
+
+UChar = {
+    !("\"" | "'" | "`" | "=" | "<" | ">" | WHITESPACE | "/" ~ ">") ~ ANY
+}
-- 
2.43.0


From f007e98b6d2d0e7fa5a1a5a37cfc2924a28ec345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:35 +0000
Subject: [PATCH 48/57] fix: inline styles may begin with white space

---
 src/css/css.pest  | 3 +++
 src/css/reader.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 2c0ebde..ae56e11 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -8,6 +8,9 @@ Rules = { Rule* }
 
 Rule = _{ Animation | Style }
 
+// white space before the first declaration is not part of it
+InlineStyle = _{ SOI ~ Declarations }
+
 // @keyframes
 
 Animation = { "@keyframes" ~ Name ~ "{" ~ Keyframes ~ "}" }
diff --git a/src/css/reader.rs b/src/css/reader.rs
index cab59f8..fa76c09 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -28,7 +28,7 @@ impl From<Error<Rule>> for ReaderError {
 }
 
 pub fn read_inline_css(block: &str) -> Result<Vec<Declaration>, ReaderError> {
-    let block = CssParser::parse(Rule::Declarations, block)?
+    let block = CssParser::parse(Rule::InlineStyle, block)?
         .next()
         .ok_or(ReaderError::EmptyStyleSheet)?;
     Ok(read_declarations(block))
-- 
2.43.0


From d85bf583b34228b7a75830d6ab2eefb800a05e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:35 +0000
Subject: [PATCH 49/57] fix: values and arguments may be separated by any white
 space

---
 src/css/css.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index ae56e11..12a51a7 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -79,16 +79,16 @@ Ident = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
 Values = { Shorthand ~ ("," ~ Shorthand)* }
 
-Shorthand = ${ Value ~ (WHITESPACE ~ Value)* }
+Shorthand = ${ Value ~ (WHITESPACE+ ~ Value)* }
 
 Value = _{ Var | Function | Explicit }
 
 Function = {
-    Ident ~ "(" ~ ")" |
-    Ident ~ "(" ~ Value ~ ("," ~ WHITESPACE* ~ Value)* ~ ")"
+    Ident ~ "(" ~ WHITESPACE* ~ ")" |
+    Ident ~ "(" ~ WHITESPACE* ~ Value ~ (WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)* ~ WHITESPACE* ~ ")"
 }
 
-Var = { "var" ~ "(" ~ Keyword ~ ("," ~ Value)? ~ ")" }
+Var = { "var" ~ "(" ~ WHITESPACE* ~ Keyword ~ (WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)? ~ WHITESPACE* ~ ")" }
 
 Explicit = {
     Color
-- 
2.43.0


From 95efdb09ab80e6270f001d997fce17928966240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:11 +0000
Subject: [PATCH 50/57] fix: nested variables that are no variables are
 rejected in linear time

---
 src/css/css.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 12a51a7..27260c4 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -81,7 +81,8 @@ Values = { Shorthand ~ ("," ~ Shorthand)* }
 
 Shorthand = ${ Value ~ (WHITESPACE+ ~ Value)* }
 
-Value = _{ Var | Function | Explicit }
+// a variable is not tried again as a function, nested ones would take exponential time
+Value = _{ Var | !("var" ~ "(") ~ Function | Explicit }
 
 Function = {
     Ident ~ "(" ~ WHITESPACE* ~ ")" |
-- 
2.43.0


From f9c1d059cefec6f886a0eb2218d90e64cf8fd3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:11 +0000
Subject: [PATCH 51/57] fix: names of variables and animations may contain
 digits

---
 src/css/css.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 27260c4..f4fd079 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -73,7 +73,7 @@ Declarations = { Declaration* }
 
 Declaration = { Property ~ ":" ~ Values ~ ";" }
 
-Property = { (ASCII_ALPHA | "-" | "_")+ }
+Property = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
 Ident = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
@@ -118,7 +118,7 @@ Number = { (ASCII_DIGIT | "-" | ".")+ }
 
 Unit = { ASCII_ALPHA+ }
 
-Keyword = { "-"? ~ "-"? ~ (ASCII_ALPHA | "-" | "_")+ }
+Keyword = { "-"? ~ "-"? ~ (ASCII_ALPHA | "-" | "_") ~ (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")* }
 
 String = { "\"" ~ StringLiteral ~ "\"" }
 
-- 
2.43.0


From 5784a5ead7b38aa353b22a23f34792fc3fcf1976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:11 +0000
Subject: [PATCH 52/57] fix: colours of three or four hexadecimal digits

---
 src/css/reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/css/reader.rs b/src/css/reader.rs
index fa76c09..10adbe6 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -271,6 +271,14 @@ fn read_number(pair: Pair<Rule>) -> f32 {
 fn read_color(pair: Pair<Rule>) -> [u8; 4] {
     let value = pair.as_str();
     match value.len() {
+        // every digit of the short forms stands for two
+        4 | 5 if value.starts_with("#") => {
+            let r = u8::from_str_radix(&value[1..2], 16).unwrap_or(0) * 17;
+            let g = u8::from_str_radix(&value[2..3], 16).unwrap_or(0) * 17;
+            let b = u8::from_str_radix(&value[3..4], 16).unwrap_or(0) * 17;
+            let a = u8::from_str_radix(&value[4..], 16).unwrap_or(15) * 17;
+            [r, g, b, a]
+        }
         7 if value.starts_with("#") => {
             let r = u8::from_str_radix(&value[1..3], 16).unwrap_or(0);
             let g = u8::from_str_radix(&value[3..5], 16).unwrap_or(0);
-- 
2.43.0


From 1c0224ff7ca8efd2f15bea04b0927236d1d1aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:47 +0000
Subject: [PATCH 53/57] fix: leading spaces of a quoted attribute are part of
 its value

---
 src/html/html.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index a8e06d0..3a98169 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -95,7 +95,7 @@ RepeatBinding = { "*" ~ Key ~ "=" ~ "\"" ~ Count ~ Binder ~ "\"" }
 Count = { ASCII_DIGIT* }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
-DoubleQuoted = { Name ~ "=" ~ "\"" ~ Value ~ "\"" }
+DoubleQuoted = ${ Name ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ Value ~ "\"" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Unquoted = { Name ~ "=" ~ UnquotedValue }
-- 
2.43.0


From 157d0a0bfb69730ae8e72642703deb63ef62e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:58 +0000
Subject: [PATCH 54/57] fix: names of properties that end with style

---
 src/css/model.rs | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/css/model.rs b/src/css/model.rs
index 012f9ff..ad0d435 100644
--- a/src/css/model.rs
+++ b/src/css/model.rs
@@ -861,19 +861,19 @@ impl PropertyKey {
             "border-block-color" => Self::BorderBlockColor,
             "border-block-end" => Self::BorderBlockEnd,
             "border-block-end-color" => Self::BorderBlockEndColor,
-            "border-block-end-styles" => Self::BorderBlockEndStyle,
+            "border-block-end-style" => Self::BorderBlockEndStyle,
             "border-block-end-width" => Self::BorderBlockEndWidth,
             "border-block-start" => Self::BorderBlockStart,
             "border-block-start-color" => Self::BorderBlockStartColor,
-            "border-block-start-styles" => Self::BorderBlockStartStyle,
+            "border-block-start-style" => Self::BorderBlockStartStyle,
             "border-block-start-width" => Self::BorderBlockStartWidth,
-            "border-block-styles" => Self::BorderBlockStyle,
+            "border-block-style" => Self::BorderBlockStyle,
             "border-block-width" => Self::BorderBlockWidth,
             "border-bottom" => Self::BorderBottom,
             "border-bottom-color" => Self::BorderBottomColor,
             "border-bottom-left-radius" => Self::BorderBottomLeftRadius,
             "border-bottom-right-radius" => Self::BorderBottomRightRadius,
-            "border-bottom-styles" => Self::BorderBottomStyle,
+            "border-bottom-style" => Self::BorderBottomStyle,
             "border-bottom-width" => Self::BorderBottomWidth,
             "border-boundary" => Self::BorderBoundary,
             "border-collapse" => Self::BorderCollapse,
@@ -890,32 +890,32 @@ impl PropertyKey {
             "border-inline-color" => Self::BorderInlineColor,
             "border-inline-end" => Self::BorderInlineEnd,
             "border-inline-end-color" => Self::BorderInlineEndColor,
-            "border-inline-end-styles" => Self::BorderInlineEndStyle,
+            "border-inline-end-style" => Self::BorderInlineEndStyle,
             "border-inline-end-width" => Self::BorderInlineEndWidth,
             "border-inline-start" => Self::BorderInlineStart,
             "border-inline-start-color" => Self::BorderInlineStartColor,
-            "border-inline-start-styles" => Self::BorderInlineStartStyle,
+            "border-inline-start-style" => Self::BorderInlineStartStyle,
             "border-inline-start-width" => Self::BorderInlineStartWidth,
-            "border-inline-styles" => Self::BorderInlineStyle,
+            "border-inline-style" => Self::BorderInlineStyle,
             "border-inline-width" => Self::BorderInlineWidth,
             "border-left" => Self::BorderLeft,
             "border-left-color" => Self::BorderLeftColor,
-            "border-left-styles" => Self::BorderLeftStyle,
+            "border-left-style" => Self::BorderLeftStyle,
             "border-left-width" => Self::BorderLeftWidth,
             "border-radius" => Self::BorderRadius,
             "border-right" => Self::BorderRight,
             "border-right-color" => Self::BorderRightColor,
-            "border-right-styles" => Self::BorderRightStyle,
+            "border-right-style" => Self::BorderRightStyle,
             "border-right-width" => Self::BorderRightWidth,
             "border-spacing" => Self::BorderSpacing,
             "border-start-end-radius" => Self::BorderStartEndRadius,
             "border-start-start-radius" => Self::BorderStartStartRadius,
-            "border-styles" => Self::BorderStyle,
+            "border-style" => Self::BorderStyle,
             "border-top" => Self::BorderTop,
             "border-top-color" => Self::BorderTopColor,
             "border-top-left-radius" => Self::BorderTopLeftRadius,
             "border-top-right-radius" => Self::BorderTopRightRadius,
-            "border-top-styles" => Self::BorderTopStyle,
+            "border-top-style" => Self::BorderTopStyle,
             "border-top-width" => Self::BorderTopWidth,
             "border-width" => Self::BorderWidth,
             "bottom" => Self::Bottom,
@@ -945,7 +945,7 @@ impl PropertyKey {
             "column-gap" => Self::ColumnGap,
             "column-rule" => Self::ColumnRule,
             "column-rule-color" => Self::ColumnRuleColor,
-            "column-rule-styles" => Self::ColumnRuleStyle,
+            "column-rule-style" => Self::ColumnRuleStyle,
             "column-rule-width" => Self::ColumnRuleWidth,
             "column-span" => Self::ColumnSpan,
             "column-width" => Self::ColumnWidth,
@@ -1016,7 +1016,7 @@ impl PropertyKey {
             "font-synthesis" => Self::FontSynthesis,
             "font-synthesis-position" => Self::FontSynthesisPosition,
             "font-synthesis-small-caps" => Self::FontSynthesisSmallCaps,
-            "font-synthesis-styles" => Self::FontSynthesisStyle,
+            "font-synthesis-style" => Self::FontSynthesisStyle,
             "font-synthesis-weight" => Self::FontSynthesisWeight,
             "font-variant" => Self::FontVariant,
             "font-variant-alternates" => Self::FontVariantAlternates,
@@ -1089,10 +1089,10 @@ impl PropertyKey {
             "line-height-step" => Self::LineHeightStep,
             "line-padding" => Self::LinePadding,
             "line-snap" => Self::LineSnap,
-            "list-styles" => Self::ListStyle,
-            "list-styles-image" => Self::ListStyleImage,
-            "list-styles-position" => Self::ListStylePosition,
-            "list-styles-type" => Self::ListStyleType,
+            "list-style" => Self::ListStyle,
+            "list-style-image" => Self::ListStyleImage,
+            "list-style-position" => Self::ListStylePosition,
+            "list-style-type" => Self::ListStyleType,
             "margin" => Self::Margin,
             "margin-block" => Self::MarginBlock,
             "margin-block-end" => Self::MarginBlockEnd,
@@ -1161,7 +1161,7 @@ impl PropertyKey {
             "outline" => Self::Outline,
             "outline-color" => Self::OutlineColor,
             "outline-offset" => Self::OutlineOffset,
-            "outline-styles" => Self::OutlineStyle,
+            "outline-style" => Self::OutlineStyle,
             "outline-width" => Self::OutlineWidth,
             "overflow" => Self::Overflow,
             "overflow-anchor" => Self::OverflowAnchor,
@@ -1327,14 +1327,14 @@ impl PropertyKey {
             "text-decoration-skip-inset" => Self::TextDecorationSkipInset,
             "text-decoration-skip-self" => Self::TextDecorationSkipSelf,
             "text-decoration-skip-spaces" => Self::TextDecorationSkipSpaces,
-            "text-decoration-styles" => Self::TextDecorationStyle,
+            "text-decoration-style" => Self::TextDecorationStyle,
             "text-decoration-thickness" => Self::TextDecorationThickness,
             "text-decoration-trim" => Self::TextDecorationTrim,
             "text-emphasis" => Self::TextEmphasis,
             "text-emphasis-color" => Self::TextEmphasisColor,
             "text-emphasis-position" => Self::TextEmphasisPosition,
             "text-emphasis-skip" => Self::TextEmphasisSkip,
-            "text-emphasis-styles" => Self::TextEmphasisStyle,
+            "text-emphasis-style" => Self::TextEmphasisStyle,
             "text-group-align" => Self::TextGroupAlign,
             "text-indent" => Self::TextIndent,
             "text-justify" => Self::TextJustify,
@@ -1348,13 +1348,13 @@ impl PropertyKey {
             "text-underline-position" => Self::TextUnderlinePosition,
             "text-wrap" => Self::TextWrap,
             "text-wrap-mode" => Self::TextWrapMode,
-            "text-wrap-styles" => Self::TextWrapStyle,
+            "text-wrap-style" => Self::TextWrapStyle,
             "timeline-scope" => Self::TimelineScope,
             "top" => Self::Top,
             "transform" => Self::Transform,
             "transform-box" => Self::TransformBox,
             "transform-origin" => Self::TransformOrigin,
-            "transform-styles" => Self::TransformStyle,
+            "transform-style" => Self::TransformStyle,
             "transition" => Self::Transition,
             "transition-behavior" => Self::TransitionBehavior,
             "transition-delay" => Self::TransitionDelay,
-- 
2.43.0


From 5816bcc21598f74b15f45d04a943fef49b039e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:58 +0000
Subject: [PATCH 55/57] fix: background-position-x and background-position-y
 can be declared

---
 src/css/model.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/css/model.rs b/src/css/model.rs
index ad0d435..525ca55 100644
--- a/src/css/model.rs
+++ b/src/css/model.rs
@@ -842,6 +842,8 @@ impl PropertyKey {
             "background-image" => Self::BackgroundImage,
             "background-origin" => Self::BackgroundOrigin,
             "background-position" => Self::BackgroundPosition,
+            "background-position-x" => Self::BackgroundPositionX,
+            "background-position-y" => Self::BackgroundPositionY,
             "background-repeat" => Self::BackgroundRepeat,
             "background-size" => Self::BackgroundSize,
             "baseline-shift" => Self::BaselineShift,
-- 
2.43.0


From 312906c106509740493451140d43d1f3ed0065d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:27 +0000
Subject: [PATCH 56/57] fix: a template that links to itself is an error, not
 endless recursion

---
 src/rendering.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 32e7034..0a9420e 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -222,12 +222,15 @@ impl Renderer {
             "wbr" => {}
             _ => {
                 for child in template.children {
+                    let mut linked = None;
                     let child = if let Some((id, mut bindings)) = child.as_template_link() {
-                        let mut template = self
+                        // template is not available inside itself, cyclic links have no end
+                        let (id, source) = self
                             .templates
-                            .get(&id)
-                            .ok_or(ViewError::TemplateNotFound(id))?
-                            .clone();
+                            .remove_entry(&id)
+                            .ok_or(ViewError::TemplateNotFound(id))?;
+                        let mut template = source.clone();
+                        linked = Some((id, source));
                         // handle link bindings first
                         bindings.extend(template.bindings);
                         template.bindings = bindings;
@@ -292,6 +295,10 @@ impl Renderer {
                             self.locals.remove(&key);
                         }
                     }
+
+                    if let Some((id, source)) = linked {
+                        self.templates.insert(id, source);
+                    }
                 }
             }
         }
-- 
2.43.0


From 5e59311493028ccfc455245231a71beed732c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:03 +0000
Subject: [PATCH 57/57] fix: positions of a list in a template describe all its
 items

A place read by its position in a list ({list.1.name}) filled the schema
with an empty item for every position before it. Items take their
structure from the first one, so the place missed the first value it got,
and a big position took all memory or overflowed. One item describes them.
---
 src/view_model.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 6ed745f..8ee3da1 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -818,15 +818,12 @@ impl Schema {
         }
         for token in pointer.split('/').skip(1) {
             match token.parse::<usize>() {
-                Ok(index) => {
+                Ok(_) => {
+                    // one item describes structure of all of them
                     if !target.is_array() {
-                        *target = json!([]);
+                        *target = json!([null]);
                     }
-                    let array = target.as_array_mut().unwrap();
-                    if array.len() <= index {
-                        array.resize(index + 1, Value::Null);
-                    }
-                    target = &mut array[index];
+                    target = &mut target.as_array_mut().unwrap()[0];
                 }
                 _ => {
                     if !target.is_object() {
-- 
2.43.0

