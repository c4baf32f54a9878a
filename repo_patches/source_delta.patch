From e33d49676264268281274c435accfa73a251203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 01/46] fix: bind model by comparing with the previous value

Values kept in the schema-shaped model depended on what had been bound before:
the first null never replaced placeholders and left negated conditions hidden,
rows that appeared again kept stale content, rows of nested arrays got defaults
of each other, a leaf bound to an array panicked when the array shrank, objects
replaced by scalars or compared by bound fields only missed changes, and
callback arguments were assembled from bound fields only.
---
 src/view_model.rs | 185 +++++++++++++++-------------------------------
 1 file changed, 59 insertions(+), 126 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 2e36b42..dd13224 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -18,8 +18,10 @@ pub type Transformer = fn(Value) -> Value;
 
 pub struct ViewModel {
     pub(crate) bindings: Bindings,
-    model: Value,
-    model_array_default: HashMap<String, Value>,
+    /// Structure of all bound paths, used to find bindings affected by changes.
+    schema: Value,
+    /// The latest bound value, undefined before the first binding.
+    model: Option<Value>,
     pub(crate) transformers: HashMap<String, Transformer>,
     // state
     // pub(crate) focus: Option<NodeId>,
@@ -32,13 +34,11 @@ pub struct ViewModel {
 }
 
 impl ViewModel {
-    pub fn create(bindings: Bindings, model: Value) -> Self {
-        let mut model_array_default = HashMap::new();
-        Self::memorize_array_default("", &model, &mut model_array_default);
+    pub fn create(bindings: Bindings, schema: Value) -> Self {
         Self {
             bindings,
-            model,
-            model_array_default,
+            schema,
+            model: None,
             transformers: default_transformers(),
             mouse: [0.0, 0.0],
             elements_under_mouse: Vec::new(),
@@ -49,160 +49,89 @@ impl ViewModel {
         }
     }
 
-    fn memorize_array_default(
-        type_path: &str,
-        value: &Value,
-        default: &mut HashMap<String, Value>,
-    ) {
-        match value {
-            Value::Array(array) => {
-                default.insert(type_path.to_string(), array[0].clone());
-                Self::memorize_array_default(type_path, &array[0], default)
-            }
-            Value::Object(object) => {
-                for (key, value) in object {
-                    Self::memorize_array_default(&format!("{type_path}/{key}"), value, default)
-                }
-            }
-            _ => {}
-        }
-    }
-
     pub fn bind(&mut self, value: &Value) -> Vec<Reaction> {
         let mut reactions = vec![];
-        Self::bind_value(
-            &mut self.model,
+        let changed = Self::bind_value(
+            &self.schema,
+            self.model.as_ref(),
             value,
             "",
-            "",
             &self.bindings,
             &mut reactions,
             &self.transformers,
-            &self.model_array_default,
         );
+        if changed {
+            self.model = Some(value.clone());
+        }
         reactions
     }
 
+    /// Reacts to the difference between previously bound value and the next one.
+    ///
+    /// Previous value is undefined when bindings are used for the first time (initial binding or
+    /// array item which has just appeared), so all of them must react regardless of next value.
     pub fn bind_value(
-        mut dst: &mut Value,
+        schema: &Value,
+        dst: Option<&Value>,
         src: &Value,
         path: &str,
-        arrays_path: &str,
         bindings: &Bindings,
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
-        default: &HashMap<String, Value>,
     ) -> bool {
-        match (&mut dst, src) {
-            (Value::Array(current), Value::Array(next)) => {
-                let mut array_changed = false;
-                if current.len() != next.len() {
-                    if let Some(default) = default.get(arrays_path).cloned() {
-                        array_changed = true;
-                        current.resize(next.len(), default);
-                        Self::react(path, src, bindings, reactions, transformers);
-                    } else {
-                        error!("unable to resize array {path} default not found");
-                    }
+        let changed = dst != Some(src);
+        match schema {
+            Value::Array(items) => {
+                let previous = dst.and_then(Value::as_array);
+                let next = src.as_array().map(Vec::as_slice).unwrap_or_default();
+                if dst.is_none() || previous.map(Vec::len).unwrap_or(0) != next.len() {
+                    Self::react(path, src, bindings, reactions, transformers, |_| true);
+                } else if changed {
+                    // count of items is the same, nothing to repeat
+                    Self::react(path, src, bindings, reactions, transformers, |binding| {
+                        !binding.pipe.is_empty() || !binding.is_repeat()
+                    });
                 }
-                for (index, dst) in current.iter_mut().enumerate() {
-                    let src = &next[index];
+                for (index, (schema, src)) in items.iter().zip(next).enumerate() {
                     let path = format!("{path}/{index}");
-                    let changed = Self::bind_value(
+                    let dst = previous.and_then(|previous| previous.get(index));
+                    Self::bind_value(
+                        schema,
                         dst,
                         src,
                         &path,
-                        arrays_path,
                         bindings,
                         reactions,
                         transformers,
-                        default,
                     );
-                    array_changed = array_changed || changed;
-                }
-                array_changed
-            }
-            (Value::Array(current), Value::Null) => {
-                if current.len() != 0 {
-                    current.clear();
-                    Self::react(
-                        path,
-                        &Value::Array(vec![]),
-                        bindings,
-                        reactions,
-                        transformers,
-                    );
-                    true
-                } else {
-                    false
                 }
             }
-            (Value::Array(_), _) => {
-                error!("unable to bind '{path}', must be array");
-                false
-            }
-            (Value::Object(object), Value::Object(src)) => {
-                let mut object_changed = false;
-                for (key, dst) in object.iter_mut() {
+            Value::Object(fields) => {
+                for (key, schema) in fields {
                     let path = format!("{path}/{key}");
-                    let arrays_path = format!("{arrays_path}/{key}");
-                    let undefined = Value::Null;
-                    let src = match src.get(key) {
-                        Some(src) => src,
-                        None => {
-                            // error!("unable to bind '{path}', must be specified");
-                            &undefined
-                        }
-                    };
-                    let changed = Self::bind_value(
+                    let dst = dst.map(|dst| dst.get(key).unwrap_or(&Value::Null));
+                    let src = src.get(key).unwrap_or(&Value::Null);
+                    Self::bind_value(
+                        schema,
                         dst,
                         src,
                         &path,
-                        &arrays_path,
-                        bindings,
-                        reactions,
-                        transformers,
-                        default,
-                    );
-                    object_changed = object_changed || changed;
-                }
-                if object_changed {
-                    Self::react(path, &json!({}), bindings, reactions, transformers);
-                }
-                object_changed
-            }
-            (Value::Object(object), Value::Null) => {
-                let mut object_changed = false;
-                for (key, dst) in object.iter_mut() {
-                    let path = format!("{path}/{key}");
-                    let arrays_path = format!("{arrays_path}/{key}");
-                    let changed = Self::bind_value(
-                        dst,
-                        &Value::Null,
-                        &path,
-                        &arrays_path,
                         bindings,
                         reactions,
                         transformers,
-                        default,
                     );
-                    object_changed = object_changed || changed;
                 }
-                if object_changed {
-                    Self::react(path, &Value::Null, bindings, reactions, transformers);
+                if changed {
+                    Self::react(path, src, bindings, reactions, transformers, |_| true);
                 }
-                object_changed
             }
-            (dst, src) => {
-                if *dst != src {
-                    **dst = src.clone();
-                    Self::react(path, src, bindings, reactions, transformers);
-                    true
-                } else {
-                    false
+            _ => {
+                if changed {
+                    Self::react(path, src, bindings, reactions, transformers, |_| true);
                 }
             }
         }
+        changed
     }
 
     #[inline]
@@ -212,9 +141,10 @@ impl ViewModel {
         bindings: &Bindings,
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
+        filter: fn(&Binding) -> bool,
     ) {
         if let Some(bindings) = bindings.get(path) {
-            for binding in bindings {
+            for binding in bindings.iter().filter(|binding| filter(binding)) {
                 if binding.pipe.len() > 0 {
                     let mut value = value.clone();
                     for name in &binding.pipe {
@@ -460,13 +390,12 @@ impl ViewModel {
                         }
                     },
                     HandlerArgument::Binder { path, pipe } => {
-                        let mut value = match self.model.pointer(&path).cloned() {
-                            Some(value) => value,
-                            None => {
-                                error!("unable to get value at {path:?}, not found");
-                                continue;
-                            }
-                        };
+                        let mut value = self
+                            .model
+                            .as_ref()
+                            .and_then(|model| model.pointer(&path))
+                            .cloned()
+                            .unwrap_or(Value::Null);
                         for name in pipe {
                             match self.transformers.get(name) {
                                 Some(transform) => value = transform(value),
@@ -613,6 +542,10 @@ pub enum BindingParams {
 }
 
 impl Binding {
+    fn is_repeat(&self) -> bool {
+        matches!(self.params, BindingParams::Repeat(..))
+    }
+
     fn react_value_change(&self, value: &Value) -> Reaction {
         match self.params.clone() {
             BindingParams::Visibility(parent, node, visible) => {
-- 
2.43.0


From 369eb8d5f9a14c15cf2fed02f82c5e9659a203b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 02/46] fix: keep template order when repeated items appear
 again

Items that had been removed were added after all following siblings.
---
 src/view.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index 447100f..d26c586 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -240,7 +240,11 @@ impl View {
                 let hidden = &children[cursor..end];
                 for node in shown {
                     if !visible.contains(node) {
-                        self.tree.add_child(parent, *node)?;
+                        self.update_tree(Reaction::Reattach {
+                            parent,
+                            node: *node,
+                            visible: true,
+                        })?;
                     }
                 }
                 for node in hidden {
-- 
2.43.0


From bd3a7ae03d4c8ffa21b34483873d0580f2a94c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 03/46] fix: do not panic in the duration pipe on values out of
 range

---
 src/view_model.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index dd13224..803f562 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -697,11 +697,11 @@ fn default_transformers() -> HashMap<String, Transformer> {
     fn duration(value: Value) -> Value {
         match value.as_f64() {
             None => value,
-            Some(value) => {
-                let value = Duration::from_secs_f64(value);
-                let value = format!("{value:?}");
-                Value::String(value)
-            }
+            Some(seconds) => match Duration::try_from_secs_f64(seconds) {
+                Ok(duration) => Value::String(format!("{duration:?}")),
+                // negative or too large, can't be represented as duration
+                Err(_) => value,
+            },
         }
     }
     let mut transformers = HashMap::new();
-- 
2.43.0


From 2ef9fe343394e12b36afad99adb8597f46282f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 04/46] fix: find pipes written with a space after the name

The name of the pipe in '{ value | pipe }' included the trailing space.
---
 src/html/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 5f2adaa..ae818ee 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -257,7 +257,7 @@ fn parse_binder(pair: Pair<Rule>) -> Binder {
                     .map(|key| key.as_str().to_string())
                     .collect();
             }
-            Rule::Transformer => pipe.push(next.as_str().to_string()),
+            Rule::Transformer => pipe.push(next.as_str().trim().to_string()),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From a6e98647a1a90d07bf525ee8664c39d47703cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 05/46] fix: report the mouse position at the moment of event

Events of one update carried the last mouse position of that update.
---
 src/view_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 803f562..19a7ea8 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -175,8 +175,7 @@ impl ViewModel {
         let mut events = input.events.clone();
         for event in events.iter() {
             match *event {
-                InputEvent::MouseMove(mouse) => {
-                    self.mouse = mouse;
+                InputEvent::MouseMove(_) => {
                     has_mouse_move = true;
                 }
                 _ => {}
@@ -215,6 +214,7 @@ impl ViewModel {
             match event {
                 InputEvent::Unknown => {}
                 InputEvent::MouseMove(position) => {
+                    self.mouse = position;
                     let previous_update = take(&mut self.elements_under_mouse);
                     self.calculate_mouse_hovers(tree, body, position)?;
                     for node in previous_update.iter().rev() {
-- 
2.43.0


From 8feea283497b9449eb59ec0f5ae8d6eebb49bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 06/46] fix: do not hang when a property appears after its
 transition

The loop over property values never advanced without transition range.
---
 src/animation.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 9f40a49..d601174 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -60,9 +60,7 @@ impl Transition {
             };
             let (from, to) = match self.range.as_ref() {
                 Some(range) => range,
-                None => {
-                    continue;
-                }
+                None => return,
             };
             let current = animate(key, &from, &to, time);
             if to != value {
-- 
2.43.0


From f1a07bf9051678f3529c3a0055875221779fc632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 07/46] fix: play animations of zero duration and with large
 time steps

Zero duration produced NaN values and endless loop with infinite iterations,
loop over cycles never ended when time was too large to be decremented.
---
 src/animation.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index d601174..9207243 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -147,7 +147,10 @@ impl Animator {
     }
 
     pub fn update(&mut self, time: f32) -> Option<f32> {
-        if self.running && self.duration > 0.0 {
+        if self.duration <= 0.0 {
+            return None;
+        }
+        if self.running {
             self.time += time;
         }
         let t = self.time - self.delay;
@@ -158,9 +161,10 @@ impl Animator {
             AnimationIterations::Number(iterations) => t.min(iterations * self.duration),
             AnimationIterations::Infinite => t,
         };
-        // use this loop instead of % to stop at last frame 1.0 (100%)
-        while t > self.duration {
-            t -= self.duration;
+        // use this instead of % to stop at last frame 1.0 (100%)
+        if t > self.duration {
+            t -= self.duration * ((t / self.duration).ceil() - 1.0);
+            t = t.clamp(0.0, self.duration);
         }
         let x = t / self.duration;
         Some(x)
-- 
2.43.0


From 5b3e5c58e094ef9baa34557893a02899479099a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 08/46] fix: hold the starting value while transition is
 delayed

Delayed transition jumped to the final value and returned back after delay.
---
 src/animation.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 9207243..cf913c7 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -47,10 +47,13 @@ impl Transition {
             Some(key) => key,
             None => return,
         };
-        let time = match self.animator.update(time) {
-            Some(time) => time,
-            None => return,
-        };
+        if self.animator.duration <= 0.0 {
+            // changes without transition
+            self.range = None;
+            return;
+        }
+        // delayed transition holds its starting value
+        let time = self.animator.update(time).unwrap_or(0.0);
         let mut index = 0;
         loop {
             let descriptor = PropertyDescriptor::new(key, index);
-- 
2.43.0


From ed4b7c3f5b1ee915a3d6d14d59bec09514b908fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 09/46] fix: drop layout, cursor and visibility of rules which
 no longer match

They stuck to the element because only part of style was reset to initial.
---
 src/styles/default.rs | 2 ++
 src/view.rs           | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/styles/default.rs b/src/styles/default.rs
index 3f85bcf..8f1a595 100644
--- a/src/styles/default.rs
+++ b/src/styles/default.rs
@@ -28,6 +28,8 @@ pub(crate) fn reset_element_style(element: &mut Element) {
         align: TextAlign::Start,
     };
     element.self_opacity = 1.0;
+    element.pointer = Pointer::Auto;
+    element.visible = true;
 }
 
 pub fn create_element(node: NodeId) -> Element {
diff --git a/src/view.rs b/src/view.rs
index d26c586..35399ee 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -2,7 +2,7 @@ use crate::css::{match_style, read_css, read_inline_css, Css, PseudoClassMatcher
 use crate::html::{read_html, ElementBinding, Html};
 use crate::metrics::ViewMetrics;
 use crate::rendering::{Renderer, RendererTranslator};
-use crate::styles::{inherit, Cascade, Scrolling, Sizes, Variables};
+use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
 use crate::{BindingParams, Element, ElementStyle, Fonts, Input, Output, Transformer, ViewError};
@@ -374,7 +374,7 @@ impl View {
             // TODO:
             &*ptr
         };
-        let mut layout = self.tree.style(node)?.clone();
+        let mut layout = default_layout();
         let element = unsafe {
             let ptr = self.tree.get_element_mut(node)? as *mut Element;
             &mut *ptr
-- 
2.43.0


From 8df88b74effb895db3d53dbe82be3c4e427eda11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 10/46] fix: stop animations and transitions which are no
 longer declared

They were played forever after the rule stopped matching, kept parameters of
that rule and reused progress of another animation or property.
---
 src/animation.rs    |  9 +++++++++
 src/styles/apply.rs | 13 +++++++++++--
 src/styles/mod.rs   | 18 ++++++++++++++++--
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index cf913c7..b782bc7 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -115,6 +115,15 @@ impl Animator {
         self.time = 0.0;
     }
 
+    /// Resets declared parameters to initial, but keeps progress of the current animation.
+    pub fn reset_params(&mut self) {
+        *self = Self {
+            name: std::mem::take(&mut self.name),
+            time: self.time,
+            ..Self::default()
+        };
+    }
+
     pub fn play(&mut self, time: f32, tracks: &Vec<AnimationTrack>, style: &mut ComputedStyle) {
         if let Some(time) = self.update(time) {
             let step = (time * 100.0) as u32;
diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 934bb8d..cd77b89 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -249,7 +249,12 @@ impl<'c> Cascade<'c> {
                     Some(key) => key,
                     None => return CascadeError::invalid_keyword(name),
                 };
-                element.get_transition_mut(index).key = Some(key);
+                let transition = element.get_transition_mut(index);
+                if transition.key != Some(key) {
+                    transition.key = Some(key);
+                    transition.range = None;
+                    transition.animator.restart();
+                }
             }
             (PropertyKey::TransitionDuration, Time(duration)) => {
                 element.get_transition_mut(index).animator.duration = *duration;
@@ -265,7 +270,11 @@ impl<'c> Cascade<'c> {
             // Animation
             //
             (PropertyKey::AnimationName, Keyword(name)) => {
-                element.get_animator_mut(index).name = name.to_string();
+                let animator = element.get_animator_mut(index);
+                if &animator.name != name {
+                    animator.name = name.to_string();
+                    animator.restart();
+                }
             }
             (PropertyKey::AnimationDelay, Time(delay)) => {
                 element.get_animator_mut(index).delay = *delay;
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 76607ea..ccd721f 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -17,8 +17,8 @@ use std::collections::HashMap;
 use taffy::{NodeId, TaffyTree};
 
 use crate::css::{
-    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PseudoClassMatcher,
-    Shorthand, Variable,
+    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PropertyDescriptor,
+    PropertyKey, PseudoClassMatcher, Shorthand, Variable,
 };
 
 use crate::styles::stats::CascadeStats;
@@ -113,6 +113,20 @@ impl<'c> Cascade<'c> {
         for transition in element.transitions.iter_mut() {
             transition.play(time, &mut computed_style);
         }
+        // animations and transitions live while they are declared by matched rules
+        let declared = |key: PropertyKey| {
+            (0..)
+                .take_while(|index| computed_style.contains_key(&PropertyDescriptor::new(key, *index)))
+                .count()
+        };
+        element.animators.truncate(declared(PropertyKey::AnimationName));
+        for animator in element.animators.iter_mut() {
+            animator.reset_params();
+        }
+        element.transitions.truncate(declared(PropertyKey::TransitionProperty));
+        for transition in element.transitions.iter_mut() {
+            transition.animator.reset_params();
+        }
         for (property, value) in &computed_style {
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
-- 
2.43.0


From 1270e060ab3332bf0a65b1b5e7e006dd0700f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 11/46] fix: do not shift children of an element overflowed by
 one axis only

---
 src/styles/scrolling.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/styles/scrolling.rs b/src/styles/scrolling.rs
index 5c7b80a..2b2b312 100644
--- a/src/styles/scrolling.rs
+++ b/src/styles/scrolling.rs
@@ -17,8 +17,9 @@ impl Scrolling {
             .map(|current| [current.x, current.y])
             .unwrap_or_default();
         if content.width > size.width || content.height > size.height {
-            let scroll_x = content.width - size.width;
-            let scroll_y = content.height - size.height;
+            // content can overflow only one of axes
+            let scroll_x = (content.width - size.width).max(0.0);
+            let scroll_y = (content.height - size.height).max(0.0);
             let scrolling = Scrolling {
                 x: x.min(scroll_x),
                 y: y.min(scroll_y),
-- 
2.43.0


From c0db7e6fd92f3c3c62d7ab9c6b3f30ca3d6a13f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 12/46] fix: do not find elements by identifiers they no longer
 have

---
 src/view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/view.rs b/src/view.rs
index 35399ee..88b5b23 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -284,6 +284,7 @@ impl View {
                     }
                 }
                 if key == "id" {
+                    self.identified.retain(|_, identified| *identified != node);
                     self.identified.insert(value.clone(), node);
                 }
                 match (element.tag.as_str(), key.as_str()) {
-- 
2.43.0


From b3de345e2b419ca227ef8a5b0b4f6e5f1d74bc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 13/46] fix: match the previous sibling by the next-sibling
 combinator

Position was counted from the second child, so the sibling before the previous
one was matched and index of the second child underflowed.
---
 src/css/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 6619247..342427c 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -55,7 +55,7 @@ fn find_next_target(combinator: char, target: &mut NodeId, tree: &TaffyTree<Elem
                     .iter()
                     .skip(1)
                     .position(|child| *child == *target)
-                    .and_then(|child| children.get(child - 1).cloned())
+                    .and_then(|previous| children.get(previous).cloned())
             }),
         _ => {
             // TODO: multi-target selector match
-- 
2.43.0


From 94d8084813cb37dd7c994451e73ee1571f422fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 14/46] fix: match attribute values followed by a dash by |=
 operator

---
 src/css/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 342427c..7d2f7b8 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -103,7 +103,7 @@ fn match_simple_selector(
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
                     Matcher::Include => attr.split(" ").any(|word| word == value),
-                    Matcher::DashMatch => attr == value || attr == &format!("-{value}"),
+                    Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
                     Matcher::Suffix => attr.ends_with(value),
-- 
2.43.0


From 04e9f29af04c8d667dc01c5a21452e7ec4a8e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 15/46] fix: match rules with combinators when parent or
 sibling changes

Such rules were discarded or applied forever when view was created if element
itself has no dynamic properties.
---
 src/css/matching.rs | 9 +++++++++
 src/view.rs         | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 7d2f7b8..3e23eb9 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -150,6 +150,15 @@ impl Style {
         })
     }
 
+    pub fn has_combinator(&self) -> bool {
+        self.selectors.iter().any(|complex| {
+            complex
+                .selectors
+                .iter()
+                .any(|selector| selector.as_combinator().is_some())
+        })
+    }
+
     pub fn has_pseudo_class_selector(&self) -> bool {
         self.selectors.iter().any(|complex| {
             complex.selectors.iter().any(|selector| match selector {
diff --git a/src/view.rs b/src/view.rs
index 88b5b23..9650e8e 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -338,6 +338,8 @@ impl View {
                 || (!style.has_attrs_selector(&hints.dynamic_attrs)
                     && (!hints.has_dynamic_classes || !style.has_class_selector())
                     && (!hints.has_dynamic_id || !style.has_id_selector()));
+            // other elements can be changed independently of this one
+            let is_static = is_static && !style.has_combinator();
             if matches_ignoring_pseudo {
                 if is_static && !has_pseudo {
                     element.styles.push(ElementStyle::Static(style.clone()));
-- 
2.43.0


From e88eff9aef258f55d873a3ffd1e0ba3eda90245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 16/46] fix: accept zero as flex-grow, flex-shrink and
 border-radius

---
 src/styles/apply.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index cd77b89..00e1553 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -233,6 +233,8 @@ impl<'c> Cascade<'c> {
                 }
             }
             (PropertyKey::FlexBasis, value) => layout.flex_basis = dimension(value, self)?,
+            (PropertyKey::FlexGrow, ComputedValue::Zero) => layout.flex_grow = 0.0,
+            (PropertyKey::FlexShrink, ComputedValue::Zero) => layout.flex_shrink = 0.0,
             (PropertyKey::FlexGrow, ComputedValue::Number(value)) => layout.flex_grow = *value,
             (PropertyKey::FlexShrink, ComputedValue::Number(value)) => layout.flex_shrink = *value,
             (PropertyKey::ColumnGap, column) => {
@@ -512,6 +514,7 @@ fn dimension(value: &ComputedValue, cascade: &Cascade) -> Result<Dimension, Casc
 
 fn length(value: &ComputedValue, cascade: &Cascade) -> Result<Length, CascadeError> {
     let value = match value {
+        ComputedValue::Zero => Length::zero(),
         ComputedValue::Dimension(dimension) => {
             let length = parse_dimension_length(dimension, cascade)?;
             Length::Number(length)
-- 
2.43.0


From 99fb67d6714b2a47fcd6fb8c321e4a47c59bd090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 17/46] fix: parse elements whose names start with a void tag
 name

---
 src/html/html.pest | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index abaa099..4a2def5 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -20,23 +20,25 @@ Children = { Content* }
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Void = { "<" ~ VoidTag ~ Attributes ~ ("/")? ~ ">" }
 
-VoidTag = {
-    ^"area"
-    | ^"base"
-    | ^"br"
-    | ^"col"
-    | ^"command"
-    | ^"embed"
-    | ^"hr"
-    | ^"img"
-    | ^"input"
-    | ^"keygen"
-    | ^"link"
-    | ^"meta"
-    | ^"param"
-    | ^"source"
-    | ^"track"
-    | ^"wbr"
+VoidTag = @{
+    (
+        ^"area"
+        | ^"base"
+        | ^"br"
+        | ^"col"
+        | ^"command"
+        | ^"embed"
+        | ^"hr"
+        | ^"img"
+        | ^"input"
+        | ^"keygen"
+        | ^"link"
+        | ^"meta"
+        | ^"param"
+        | ^"source"
+        | ^"track"
+        | ^"wbr"
+    ) ~ !TChar
 }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
-- 
2.43.0


From cbff024e6f96d1f44b747bfd5a625b18ffbe2c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 18/46] fix: resolve the repeated array and repeated aliases in
 the enclosing scope

Items were looked up by the item name itself when a nested repeat reuses the
name, alias defined by a template link and by its template leaked to siblings.
---
 src/rendering.rs  | 11 ++++++-----
 src/view_model.rs |  5 ++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index a090120..5e0c04f 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -230,14 +230,14 @@ impl Renderer {
                         child
                     };
 
-                    let mut overridden = HashMap::new();
+                    let mut overridden = vec![];
                     for binding in &child.bindings {
                         if let ElementBinding::Alias(name, binder) = binding {
                             let path = self.schema.field(binder, &mut self.locals);
-                            overridden.insert(
+                            overridden.push((
                                 name.to_string(),
                                 self.locals.insert(name.to_string(), path),
-                            );
+                            ));
                         }
                     }
 
@@ -264,7 +264,7 @@ impl Renderer {
                             .push(binding);
                         let overridden = self.locals.remove(name);
                         for n in 0..count {
-                            let path = self.schema.index(binder, n, &self.locals);
+                            let path = self.schema.index(&array, n);
                             self.locals.insert(name.to_string(), path);
                             let child = child.clone();
                             let child = self.render_node(child)?;
@@ -280,7 +280,8 @@ impl Renderer {
                         children.push(child);
                     }
 
-                    for (key, value) in overridden {
+                    // restore in reverse order, the same alias can be defined more than once
+                    for (key, value) in overridden.into_iter().rev() {
                         if let Some(value) = value {
                             self.locals.insert(key, value);
                         } else {
diff --git a/src/view_model.rs b/src/view_model.rs
index 19a7ea8..32642b9 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -649,9 +649,8 @@ impl Schema {
         Self { value: json!({}) }
     }
 
-    pub fn index(&mut self, binder: &Binder, i: usize, locals: &HashMap<String, String>) -> String {
-        let pointer = binder.to_json_pointer(locals);
-        let pointer = format!("{pointer}/{i}");
+    pub fn index(&mut self, array: &str, i: usize) -> String {
+        let pointer = format!("{array}/{i}");
         Self::define_value(&mut self.value, &pointer);
         pointer
     }
-- 
2.43.0


From 269942067cf3a31ac3797c1b8d1839813532a531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 19/46] fix: do not overflow the stack on cyclic CSS variables

---
 src/styles/compute_function.rs |  9 +++++++--
 src/styles/mod.rs              | 22 ++++++++++++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/styles/compute_function.rs b/src/styles/compute_function.rs
index 214126e..556f6db 100644
--- a/src/styles/compute_function.rs
+++ b/src/styles/compute_function.rs
@@ -4,10 +4,15 @@ use crate::styles::Cascade;
 use log::error;
 
 impl<'c> Cascade<'c> {
-    pub(crate) fn compute_function(&self, function: &Function, shorthand: &mut Vec<ComputedValue>) {
+    pub(crate) fn compute_function<'d>(
+        &'d self,
+        function: &'d Function,
+        chain: &mut Vec<&'d str>,
+        shorthand: &mut Vec<ComputedValue>,
+    ) {
         let name = function.name.as_str();
         let mut arguments = vec![];
-        self.compute_shorthand(&function.arguments, &mut arguments);
+        self.compute_definition(&function.arguments, chain, &mut arguments);
         let computed_value = match (name, arguments.as_slice()) {
             ("rgb", [r, g, b]) => {
                 Color([map_c(r), map_c(g), map_c(b), 255])
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index ccd721f..4ee7ceb 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -161,9 +161,23 @@ impl<'c> Cascade<'c> {
         &self,
         definition: &[Definition],
         shorthand: &mut Vec<ComputedValue>,
+    ) -> bool {
+        self.compute_definition(definition, &mut vec![], shorthand)
+    }
+
+    /// Substitutes variables, chain consists of variables which are already in substitution.
+    pub(crate) fn compute_definition<'d>(
+        &'d self,
+        definition: &'d [Definition],
+        chain: &mut Vec<&'d str>,
+        shorthand: &mut Vec<ComputedValue>,
     ) -> bool {
         for value in definition {
             match value {
+                Definition::Var(name) if chain.contains(&name.as_str()) => {
+                    error!("unable to compute variable {name}, cyclic definition");
+                    shorthand.push(ComputedValue::Error);
+                }
                 Definition::Var(name) => {
                     let definition = match self.get_variable(name) {
                         Some(shorthand) => shorthand,
@@ -173,9 +187,13 @@ impl<'c> Cascade<'c> {
                             continue;
                         }
                     };
-                    self.compute_shorthand(definition, shorthand);
+                    chain.push(name);
+                    self.compute_definition(definition, chain, shorthand);
+                    chain.pop();
+                }
+                Definition::Function(function) => {
+                    self.compute_function(function, chain, shorthand)
                 }
-                Definition::Function(function) => self.compute_function(function, shorthand),
                 Definition::Explicit(value) => shorthand.push(value.clone()),
             }
         }
-- 
2.43.0


From 9833d93612949eb5b3b296eb15b45f520a9fff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 20/46] fix: overwrite the whole list of values by the next
 declaration

Values of a longer list declared before remained after values of a shorter one.
---
 src/styles/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 4ee7ceb..386c157 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -149,9 +149,21 @@ impl<'c> Cascade<'c> {
             match declaration {
                 Declaration::Variable(variable) => self.set_variable(variable),
                 Declaration::Property(property) => {
+                    let mut computed = HashMap::new();
                     for index in 0..property.values.len() {
-                        self.compute_style(property.key, index, &property.values[index], style);
+                        self.compute_style(
+                            property.key,
+                            index,
+                            &property.values[index],
+                            &mut computed,
+                        );
                     }
+                    // overwrite the whole list of values
+                    style.retain(|PropertyDescriptor { key, index }, _| {
+                        *index < property.values.len()
+                            || !computed.contains_key(&PropertyDescriptor::new(*key, 0))
+                    });
+                    style.extend(computed);
                 }
             }
         }
-- 
2.43.0


From 2113b5e94bbf5209a406e4a03724df1b339662f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 21/46] fix: end drag when the button is released outside of
 drop targets

Drag was never ended without drop, so clicks were ignored and input captured
until something is dropped.
---
 src/view_model.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/view_model.rs b/src/view_model.rs
index 32642b9..1a9fcf9 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -324,6 +324,12 @@ impl ViewModel {
                             }
                         }
                     }
+                    if let Some(drag) = self.drag.take() {
+                        // released outside of drop targets
+                        let element = tree.get_element_mut(drag.source)?;
+                        let event = MouseEvent::new(self.mouse, element);
+                        self.emit(element, "ondragend", event);
+                    }
                     for node in take(&mut self.elements_in_action) {
                         let element = tree.get_element_mut(node)?;
                         element.state.active = false;
-- 
2.43.0


From 91258e5f7f4461de1bf591fe70acd75ae9eb8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 22/46] fix: blur the focused element when it is removed from
 the view

Keyboard input was captured and sent to an element which is not shown.
---
 src/view_model.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/view_model.rs b/src/view_model.rs
index 1a9fcf9..3d6a8fb 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -188,6 +188,15 @@ impl ViewModel {
             events.insert(0, InputEvent::MouseMove(self.mouse))
         }
         self.output = Output::new();
+        if let Some(focus) = self.focus {
+            if !is_attached(focus, body, tree) {
+                self.focus = None;
+                let element = tree.get_element_mut(focus)?;
+                element.state.focus = false;
+                let event = MouseEvent::new(self.mouse, element);
+                self.emit(element, "onblur", event);
+            }
+        }
         self.handle_elements_input(events, body, tree)?;
         for node in self.elements_under_mouse.iter() {
             if let Ok(element) = tree.get_element(*node) {
@@ -638,6 +647,16 @@ pub enum Reaction {
     },
 }
 
+fn is_attached(mut node: NodeId, body: NodeId, tree: &TaffyTree<Element>) -> bool {
+    while node != body {
+        match tree.parent(node) {
+            Some(parent) => node = parent,
+            None => return false,
+        }
+    }
+    true
+}
+
 fn hovers(point: [f32; 2], element: &Element) -> bool {
     let x = point[0] - element.position[0];
     let y = point[1] - element.position[1];
-- 
2.43.0


From 189627c95a70f5dadbefe6bee53989b402f5fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 23/46] fix: measure text again when its font changes

---
 src/element.rs | 4 ++--
 src/view.rs    | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 4331351..ad8201f 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -278,7 +278,7 @@ pub enum ObjectFit {
     ScaleDown,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub struct FontFace {
     /// The font family.
     pub family: String,
@@ -297,7 +297,7 @@ pub struct FontFace {
     pub align: TextAlign,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub enum TextAlign {
     Start,
     End,
diff --git a/src/view.rs b/src/view.rs
index 9650e8e..03c7671 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -384,7 +384,12 @@ impl View {
         };
 
         if element.text.is_some() {
+            let font = element.font.clone();
             inherit(parent, element);
+            if element.font != font {
+                // text must be measured again
+                self.tree.mark_dirty(node)?;
+            }
             return Ok(());
         }
 
-- 
2.43.0


From 2fe7e269556d6719937f82e7ed438f2ca5a61be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 24/46] fix: do not catch mouse by the content of
 non-interactive images

---
 src/view.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index 03c7671..92ccade 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -415,7 +415,12 @@ impl View {
 
         match element.tag.as_str() {
             "img" => {
-                // self.render_img(current_id, &element, tree);
+                // internal elements of image
+                for child in self.tree.children(node)? {
+                    let child = self.tree.get_element_mut(child)?;
+                    inherit(element, child);
+                    child.visible = element.visible;
+                }
             }
             "input" => {
                 // let text = element.html.attrs.get("value").cloned().unwrap_or_default();
-- 
2.43.0


From 33dab7ce792d85e8c340b8740ef333fbb785931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 25/46] fix: interpolate zero with numbers and dimensions

---
 src/animation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index b782bc7..4fff788 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -192,6 +192,8 @@ pub fn animate(_key: PropertyKey, a: &ComputedValue, b: &ComputedValue, t: f32)
     }
     match (a, b) {
         (Number(a), Number(b)) => number(a, b, t),
+        (Number(a), Zero) => number(a, &0.0, t),
+        (Zero, Number(b)) => number(&0.0, b, t),
         (Percentage(a), Percentage(b)) => percentage(a, b, t),
         (Percentage(a), Zero) => {
             let percentage = percentage(a, &0.0, t);
@@ -203,6 +205,8 @@ pub fn animate(_key: PropertyKey, a: &ComputedValue, b: &ComputedValue, t: f32)
         }
         (Zero, Percentage(b)) => percentage(&0.0, b, t),
         (Dimension(a), Dimension(b)) => dimension(a, b, t),
+        (Dimension(a), Zero) => dimension(a, &Dim { value: 0.0, ..*a }, t),
+        (Zero, Dimension(b)) => dimension(&Dim { value: 0.0, ..*b }, b, t),
         (Color(a), Color(b)) => color(a, b, t),
         (a, b) => {
             // discrete
-- 
2.43.0


From 9faa33624dd615225cddb1c75eed62f8a9f9eb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 26/46] fix: hide text of hidden elements

---
 src/view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/view.rs b/src/view.rs
index 92ccade..9454597 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -386,6 +386,7 @@ impl View {
         if element.text.is_some() {
             let font = element.font.clone();
             inherit(parent, element);
+            element.visible = parent.visible;
             if element.font != font {
                 // text must be measured again
                 self.tree.mark_dirty(node)?;
-- 
2.43.0


From 801c16001ca4ccd6ab78eb0e3b0e11dccff22533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 27/46] fix: transition each value of a list independently

---
 src/animation.rs    | 44 ++++++++++++++++++++------------------------
 src/styles/apply.rs |  2 +-
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 4fff788..187a69d 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -8,7 +8,8 @@ use crate::Rgba;
 pub struct Transition {
     pub key: Option<PropertyKey>,
     pub animator: Animator,
-    pub range: Option<(ComputedValue, ComputedValue)>,
+    /// Both ends of transition for each value in the list of property values.
+    pub ranges: Vec<(ComputedValue, ComputedValue)>,
 }
 
 impl Default for Transition {
@@ -16,29 +17,24 @@ impl Default for Transition {
         Self {
             key: None,
             animator: Default::default(),
-            range: None,
+            ranges: vec![],
         }
     }
 }
 
 impl Transition {
     pub fn init_after_style_applied(&mut self, style: &mut ComputedStyle) {
-        if self.range.is_some() {
-            return;
-        }
         let key = match self.key {
             Some(key) => key,
             None => return,
         };
-        let mut index = 0;
         loop {
-            let descriptor = PropertyDescriptor::new(key, index);
+            let descriptor = PropertyDescriptor::new(key, self.ranges.len());
             let value = match style.get(&descriptor) {
                 Some(value) => value,
                 None => return,
             };
-            self.range = Some((value.clone(), value.clone()));
-            index += 1;
+            self.ranges.push((value.clone(), value.clone()));
         }
     }
 
@@ -49,31 +45,31 @@ impl Transition {
         };
         if self.animator.duration <= 0.0 {
             // changes without transition
-            self.range = None;
+            self.ranges.clear();
             return;
         }
         // delayed transition holds its starting value
         let time = self.animator.update(time).unwrap_or(0.0);
-        let mut index = 0;
-        loop {
+        let mut ranges = vec![];
+        let mut changed = false;
+        for (index, (from, to)) in self.ranges.iter().enumerate() {
             let descriptor = PropertyDescriptor::new(key, index);
             let value = match style.get(&descriptor) {
-                Some(value) => value,
-                None => return,
-            };
-            let (from, to) = match self.range.as_ref() {
-                Some(range) => range,
-                None => return,
+                Some(value) => value.clone(),
+                None => break,
             };
             let current = animate(key, &from, &to, time);
-            if to != value {
-                self.range = Some((current.clone(), value.clone()));
-                self.animator.restart();
+            if to != &value {
+                changed = true;
             }
-            if &current != value {
-                style.insert(descriptor, current);
+            if current != value {
+                style.insert(descriptor, current.clone());
             }
-            index += 1;
+            ranges.push((current, value));
+        }
+        if changed {
+            self.ranges = ranges;
+            self.animator.restart();
         }
     }
 }
diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 00e1553..90984de 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -254,7 +254,7 @@ impl<'c> Cascade<'c> {
                 let transition = element.get_transition_mut(index);
                 if transition.key != Some(key) {
                     transition.key = Some(key);
-                    transition.range = None;
+                    transition.ranges.clear();
                     transition.animator.restart();
                 }
             }
-- 
2.43.0


From 9acc4c1c55c3f46fd504525c4630315938c65fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 28/46] fix: use the first value of a list where only one is
 supported

---
 src/css/model.rs  | 23 +++++++++++++++++++++++
 src/styles/mod.rs |  4 ++++
 2 files changed, 27 insertions(+)

diff --git a/src/css/model.rs b/src/css/model.rs
index 012f9ff..f2dd57b 100644
--- a/src/css/model.rs
+++ b/src/css/model.rs
@@ -806,6 +806,29 @@ pub enum PropertyKey {
 }
 
 impl PropertyKey {
+    /// Is each value in the list of property values used?
+    pub fn is_list(&self) -> bool {
+        match self {
+            PropertyKey::BackgroundColor
+            | PropertyKey::BackgroundImage
+            | PropertyKey::BackgroundPositionX
+            | PropertyKey::BackgroundPositionY
+            | PropertyKey::TransitionProperty
+            | PropertyKey::TransitionDuration
+            | PropertyKey::TransitionDelay
+            | PropertyKey::TransitionTimingFunction
+            | PropertyKey::AnimationName
+            | PropertyKey::AnimationDelay
+            | PropertyKey::AnimationDirection
+            | PropertyKey::AnimationDuration
+            | PropertyKey::AnimationFillMode
+            | PropertyKey::AnimationIterationCount
+            | PropertyKey::AnimationPlayState
+            | PropertyKey::AnimationTimingFunction => true,
+            _ => false,
+        }
+    }
+
     pub fn parse(name: &str) -> Option<Self> {
         let key = match name {
             "accent-color" => Self::AccentColor,
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 386c157..5206ec7 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -128,6 +128,10 @@ impl<'c> Cascade<'c> {
             transition.animator.reset_params();
         }
         for (property, value) in &computed_style {
+            if property.index > 0 && !property.key.is_list() {
+                // only the first value is used, computed styles have no order
+                continue;
+            }
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
                 self.stats.apply_error += 1;
-- 
2.43.0


From 3d39d45b05c37c7b939207c7a325fdd4b0d5de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 29/46] fix: handle attributes bound to literals as static ones

---
 src/rendering.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 5e0c04f..bed9357 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -99,6 +99,21 @@ impl Renderer {
         Ok(node)
     }
 
+    fn render_attribute(&mut self, element: &mut Element, key: String, value: String) {
+        if key == "style" {
+            match read_inline_css(&value) {
+                Ok(style) => element.style = style,
+                Err(error) => {
+                    error!("unable to parse inline style of {}, {error:?}", element.tag);
+                }
+            }
+        }
+        if key == "id" {
+            self.static_id.insert(value.clone(), element.node);
+        }
+        element.attrs.insert(key, value);
+    }
+
     fn render_element(&mut self, template: Html) -> Result<NodeId, ViewError> {
         let layout = default_layout();
         let node = self.tree.new_leaf(layout)?;
@@ -107,21 +122,7 @@ impl Renderer {
         for binding in template.bindings {
             match binding {
                 ElementBinding::None(key, value) => {
-                    if key == "style" {
-                        match read_inline_css(&value) {
-                            Ok(style) => element.style = style,
-                            Err(error) => {
-                                error!(
-                                    "unable to parse inline style of {}, {error:?}",
-                                    element.tag
-                                );
-                            }
-                        }
-                    }
-                    if key == "id" {
-                        self.static_id.insert(value.clone(), node);
-                    }
-                    element.attrs.insert(key, value);
+                    self.render_attribute(&mut element, key, value);
                 }
                 ElementBinding::Tag(key, binder) => {
                     let path = self.schema.field(&binder, &mut self.locals);
@@ -139,7 +140,7 @@ impl Renderer {
                             "element {} attribute {} has no bindings, you can just use HTML tag",
                             element.tag, key
                         );
-                        element.attrs.insert(key, value);
+                        self.render_attribute(&mut element, key, value);
                         continue;
                     }
                     let spans = text
-- 
2.43.0


From bdf00d78fd9e1bc086e01b8f946736e233aebc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 30/46] fix: find an element by its id after another one had
 the same

---
 src/rendering.rs |  7 +++++--
 src/view.rs      | 11 ++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index bed9357..1263988 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -14,7 +14,7 @@ pub struct Renderer {
     pub locals: HashMap<String, String>,
     pub schema: Schema,
     pub templates: HashMap<String, Html>,
-    pub static_id: HashMap<String, NodeId>,
+    pub static_id: HashMap<String, Vec<NodeId>>,
     pub translator: Box<dyn RendererTranslator>,
 }
 
@@ -109,7 +109,10 @@ impl Renderer {
             }
         }
         if key == "id" {
-            self.static_id.insert(value.clone(), element.node);
+            self.static_id
+                .entry(value.clone())
+                .or_default()
+                .push(element.node);
         }
         element.attrs.insert(key, value);
     }
diff --git a/src/view.rs b/src/view.rs
index 9454597..e1daa90 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -24,7 +24,7 @@ pub struct View {
     resources: String,
     pub fonts: Box<dyn Fonts>,
     metrics: ViewMetrics,
-    identified: HashMap<String, NodeId>,
+    identified: HashMap<String, Vec<NodeId>>,
 }
 
 impl View {
@@ -284,8 +284,12 @@ impl View {
                     }
                 }
                 if key == "id" {
-                    self.identified.retain(|_, identified| *identified != node);
-                    self.identified.insert(value.clone(), node);
+                    // several elements can have the same identifier
+                    self.identified.retain(|_, identified| {
+                        identified.retain(|identified| *identified != node);
+                        !identified.is_empty()
+                    });
+                    self.identified.entry(value.clone()).or_default().push(node);
                 }
                 match (element.tag.as_str(), key.as_str()) {
                     ("img", "src") => self.model.update_img_src(node, value, &mut self.tree)?,
@@ -458,6 +462,7 @@ impl View {
     pub fn get_element_by_id(&self, id: &str) -> Option<&Element> {
         self.identified
             .get(id)
+            .and_then(|nodes| nodes.last())
             .and_then(|node| self.tree.get_element(*node).ok())
     }
 
-- 
2.43.0


From ce4882de4c87193cbfbc9baae88a884a719449f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 31/46] fix: bind array items and fields with any names by path

---
 src/view_model.rs | 78 ++++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 3d6a8fb..d9ede2a 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -109,8 +109,10 @@ impl ViewModel {
             Value::Object(fields) => {
                 for (key, schema) in fields {
                     let path = format!("{path}/{key}");
-                    let dst = dst.map(|dst| dst.get(key).unwrap_or(&Value::Null));
-                    let src = src.get(key).unwrap_or(&Value::Null);
+                    // both properties and array items
+                    let pointer = format!("/{key}");
+                    let dst = dst.map(|dst| dst.pointer(&pointer).unwrap_or(&Value::Null));
+                    let src = src.pointer(&pointer).unwrap_or(&Value::Null);
                     Self::bind_value(
                         schema,
                         dst,
@@ -668,52 +670,64 @@ pub struct Schema {
 }
 
 impl Schema {
-    const THIS: &'static str = "/this";
-
     pub fn new() -> Self {
         Self { value: json!({}) }
     }
 
+    /// Defines item of repeated array. Array schema consists of such items only.
     pub fn index(&mut self, array: &str, i: usize) -> String {
         let pointer = format!("{array}/{i}");
-        Self::define_value(&mut self.value, &pointer);
+        let target = Self::locate(&mut self.value, array);
+        if target.is_null() {
+            *target = json!([]);
+        }
+        match target {
+            Value::Array(items) => {
+                if items.len() <= i {
+                    items.resize(i + 1, Value::Null);
+                }
+            }
+            _ => {
+                Self::define_key(target, &i.to_string());
+            }
+        }
         pointer
     }
 
     pub fn field(&mut self, binder: &Binder, locals: &HashMap<String, String>) -> String {
         let pointer = binder.to_json_pointer(locals);
-        Self::define_value(&mut self.value, &pointer);
+        let mut target = match locals.get(&binder.path[0]) {
+            Some(local) => Self::locate(&mut self.value, local),
+            None => Self::define_key(&mut self.value, &binder.path[0]),
+        };
+        for key in &binder.path[1..] {
+            target = Self::define_key(target, key);
+        }
         pointer
     }
 
-    fn define_value(mut target: &mut Value, pointer: &str) {
-        if pointer == Schema::THIS {
-            return;
+    fn locate<'v>(mut target: &'v mut Value, pointer: &str) -> &'v mut Value {
+        for key in pointer.split('/').skip(1) {
+            let pointer = format!("/{key}");
+            target = if target.pointer(&pointer).is_some() {
+                target.pointer_mut(&pointer).unwrap()
+            } else {
+                Self::define_key(target, key)
+            };
         }
-        for token in pointer.split('/').skip(1) {
-            match token.parse::<usize>() {
-                Ok(index) => {
-                    if !target.is_array() {
-                        *target = json!([]);
-                    }
-                    let array = target.as_array_mut().unwrap();
-                    if array.len() <= index {
-                        array.resize(index + 1, Value::Null);
-                    }
-                    target = &mut array[index];
-                }
-                _ => {
-                    if !target.is_object() {
-                        *target = json!({});
-                    }
-                    let object = target.as_object_mut().unwrap();
-                    if !object.contains_key(token) {
-                        object.insert(token.to_string(), Value::Null);
-                    }
-                    target = object.get_mut(token).unwrap();
-                }
-            }
+        target
+    }
+
+    /// Defines property which is bound by its name, array items can be bound in the same way.
+    fn define_key<'v>(target: &'v mut Value, key: &str) -> &'v mut Value {
+        if let Value::Array(items) = target {
+            let items = take(items).into_iter().enumerate();
+            *target = Value::Object(items.map(|(i, item)| (i.to_string(), item)).collect());
+        }
+        if !target.is_object() {
+            *target = json!({});
         }
+        &mut target[key]
     }
 }
 
-- 
2.43.0


From c03abdd122c2c4081900e53ca2ef52eb800b3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 32/46] fix: do not overflow the stack on templates which
 contain themselves

---
 src/error.rs     |  1 +
 src/rendering.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 0bb9ea5..3f70974 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,6 +19,7 @@ pub enum ViewError {
     ElementInvalidBehaviour,
     AttributeBindingNotFound(String),
     TemplateNotFound(String),
+    TemplateRecursion(String),
 }
 
 impl From<TaffyError> for ViewError {
diff --git a/src/rendering.rs b/src/rendering.rs
index 1263988..3b199f3 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -14,6 +14,8 @@ pub struct Renderer {
     pub locals: HashMap<String, String>,
     pub schema: Schema,
     pub templates: HashMap<String, Html>,
+    /// Templates which are being rendered now.
+    pub expanded: Vec<String>,
     pub static_id: HashMap<String, Vec<NodeId>>,
     pub translator: Box<dyn RendererTranslator>,
 }
@@ -31,6 +33,7 @@ impl Renderer {
             locals,
             schema,
             templates,
+            expanded: vec![],
             static_id,
             translator,
         }
@@ -220,12 +223,17 @@ impl Renderer {
             "wbr" => {}
             _ => {
                 for child in template.children {
+                    let expanded = self.expanded.len();
                     let child = if let Some((id, mut bindings)) = child.as_template_link() {
+                        if self.expanded.contains(&id) {
+                            return Err(ViewError::TemplateRecursion(id));
+                        }
                         let mut template = self
                             .templates
                             .get(&id)
-                            .ok_or(ViewError::TemplateNotFound(id))?
+                            .ok_or(ViewError::TemplateNotFound(id.clone()))?
                             .clone();
+                        self.expanded.push(id);
                         // handle link bindings first
                         bindings.extend(template.bindings);
                         template.bindings = bindings;
@@ -284,6 +292,7 @@ impl Renderer {
                         children.push(child);
                     }
 
+                    self.expanded.truncate(expanded);
                     // restore in reverse order, the same alias can be defined more than once
                     for (key, value) in overridden.into_iter().rev() {
                         if let Some(value) = value {
-- 
2.43.0


From 436c43b803e1f5bf363b04413ddfe596da6e3aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 33/46] fix: keep whitespaces around bound spans of attributes

---
 src/html/html.pest | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 4a2def5..ee4b1ce 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -75,7 +75,11 @@ AliasBinding = { "+" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
 TagBinding = { "#" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
-AttributeBinding = { "@" ~ Key ~ "=" ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\"" }
+// whitespaces between spans are significant
+AttributeBinding = ${
+    "@" ~ WHITESPACE* ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE*
+    ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\""
+}
 
 DoubleQuotedAttributeString = @{ DoubleQuotedAttributeChar+ }
 
-- 
2.43.0


From 82b27f73a51b2a71a71a86d99db50cebb7f932e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 34/46] fix: bind repeated elements which have no items because
 of pipes

---
 src/view_model.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index d9ede2a..0b2c9a0 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -92,9 +92,22 @@ impl ViewModel {
                         !binding.pipe.is_empty() || !binding.is_repeat()
                     });
                 }
-                for (index, (schema, src)) in items.iter().zip(next).enumerate() {
+                // pipes can repeat elements more times than there are items
+                let has_piped_repeat = bindings.get(path).is_some_and(|bindings| {
+                    bindings.iter().any(|binding| binding.is_repeat() && !binding.pipe.is_empty())
+                });
+                for (index, schema) in items.iter().enumerate() {
+                    let item = previous.and_then(|previous| previous.get(index));
+                    let dst = match dst {
+                        Some(_) if has_piped_repeat => item.or(Some(&Value::Null)),
+                        _ => item,
+                    };
+                    let src = match next.get(index) {
+                        Some(src) => src,
+                        None if has_piped_repeat => &Value::Null,
+                        None => break,
+                    };
                     let path = format!("{path}/{index}");
-                    let dst = previous.and_then(|previous| previous.get(index));
                     Self::bind_value(
                         schema,
                         dst,
-- 
2.43.0


From 21474bf9117e3384b2c276fbb156801d14f280c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 35/46] fix: know background-position-x and
 background-position-y

---
 src/css/model.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/css/model.rs b/src/css/model.rs
index f2dd57b..f2e1508 100644
--- a/src/css/model.rs
+++ b/src/css/model.rs
@@ -865,6 +865,8 @@ impl PropertyKey {
             "background-image" => Self::BackgroundImage,
             "background-origin" => Self::BackgroundOrigin,
             "background-position" => Self::BackgroundPosition,
+            "background-position-x" => Self::BackgroundPositionX,
+            "background-position-y" => Self::BackgroundPositionY,
             "background-repeat" => Self::BackgroundRepeat,
             "background-size" => Self::BackgroundSize,
             "baseline-shift" => Self::BaselineShift,
-- 
2.43.0


From 6e50ec14d1a4b1f898225f40d5566aee83212e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 36/46] fix: find displayed elements before hidden ones with
 the same id

---
 src/view.rs       | 12 ++++++++----
 src/view_model.rs |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/view.rs b/src/view.rs
index e1daa90..51acc51 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -4,7 +4,7 @@ use crate::metrics::ViewMetrics;
 use crate::rendering::{Renderer, RendererTranslator};
 use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
-use crate::view_model::{Reaction, ViewModel};
+use crate::view_model::{is_attached, Reaction, ViewModel};
 use crate::{BindingParams, Element, ElementStyle, Fonts, Input, Output, Transformer, ViewError};
 use log::error;
 use mesura::GaugeValue;
@@ -460,9 +460,13 @@ impl View {
 
     #[inline(always)]
     pub fn get_element_by_id(&self, id: &str) -> Option<&Element> {
-        self.identified
-            .get(id)
-            .and_then(|nodes| nodes.last())
+        let nodes = self.identified.get(id)?;
+        // hidden elements do not shadow displayed ones
+        let displayed = |node: &&NodeId| is_attached(**node, self.body, &self.tree);
+        nodes
+            .iter()
+            .rfind(displayed)
+            .or(nodes.last())
             .and_then(|node| self.tree.get_element(*node).ok())
     }
 
diff --git a/src/view_model.rs b/src/view_model.rs
index 0b2c9a0..b3c0ebc 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -662,7 +662,7 @@ pub enum Reaction {
     },
 }
 
-fn is_attached(mut node: NodeId, body: NodeId, tree: &TaffyTree<Element>) -> bool {
+pub(crate) fn is_attached(mut node: NodeId, body: NodeId, tree: &TaffyTree<Element>) -> bool {
     while node != body {
         match tree.parent(node) {
             Some(parent) => node = parent,
-- 
2.43.0


From c3889d690f195fb73ef36bfc646a6375692e4634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 37/46] fix: leave properties with malformed numbers, units and
 colors undeclared

---
 src/css/reader.rs | 76 ++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/src/css/reader.rs b/src/css/reader.rs
index cab59f8..a148e53 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -50,7 +50,9 @@ pub fn read_css(css: &str) -> Result<Css, ReaderError> {
                     let mut iter = pair.into_inner();
                     let step = iter.next().unwrap();
                     let step = match step.as_rule() {
-                        Rule::Percentage => read_number(step.into_inner().next().unwrap()) as u32,
+                        Rule::Percentage => {
+                            read_number(step.into_inner().next().unwrap()).unwrap_or(0.0) as u32
+                        }
                         Rule::Keyword => match step.as_str() {
                             "from" => 0,
                             "to" => 100,
@@ -218,59 +220,64 @@ fn read_value_def(pair: Pair<Rule>) -> Definition {
 }
 
 fn read_explicit_value(pair: Pair<Rule>) -> ComputedValue {
-    match pair.as_rule() {
-        Rule::Keyword => ComputedValue::Keyword(pair.as_str().to_string()),
-        Rule::Color => ComputedValue::Color(read_color(pair)),
-        Rule::Zero => ComputedValue::Zero,
-        Rule::Time => ComputedValue::Time(read_seconds(pair)),
-        Rule::Percentage => ComputedValue::Percentage(read_percentage(pair)),
-        Rule::Dimension => ComputedValue::Dimension(read_dimension(pair)),
-        Rule::Number => ComputedValue::Number(read_number(pair)),
-        Rule::String => ComputedValue::Str(pair.into_inner().next().unwrap().as_str().to_string()),
+    let value = match pair.as_rule() {
+        Rule::Keyword => Some(ComputedValue::Keyword(pair.as_str().to_string())),
+        Rule::Color => read_color(pair).map(ComputedValue::Color),
+        Rule::Zero => Some(ComputedValue::Zero),
+        Rule::Time => read_seconds(pair).map(ComputedValue::Time),
+        Rule::Percentage => read_percentage(pair).map(ComputedValue::Percentage),
+        Rule::Dimension => read_dimension(pair).map(ComputedValue::Dimension),
+        Rule::Number => read_number(pair).map(ComputedValue::Number),
+        Rule::String => Some(ComputedValue::Str(
+            pair.into_inner().next().unwrap().as_str().to_string(),
+        )),
         _ => unreachable!(),
-    }
+    };
+    value.unwrap_or(ComputedValue::Error)
 }
 
-fn read_dimension(pair: Pair<Rule>) -> Dim {
+fn read_dimension(pair: Pair<Rule>) -> Option<Dim> {
     let mut iter = pair.into_inner();
     let number = iter.next().unwrap();
     let unit = iter.next().unwrap().as_str();
-    let value = read_number(number);
-    let unit = Units::parse(unit).unwrap_or_else(|| {
-        error!("unable to read dimension unit {unit}, not supported");
-        Units::Px
-    });
-    Dim::new(value, unit)
+    let value = read_number(number)?;
+    match Units::parse(unit) {
+        Some(unit) => Some(Dim::new(value, unit)),
+        None => {
+            error!("unable to read dimension unit {unit}, not supported");
+            None
+        }
+    }
 }
 
-fn read_percentage(pair: Pair<Rule>) -> f32 {
+fn read_percentage(pair: Pair<Rule>) -> Option<f32> {
     let mut iter = pair.into_inner();
-    let value = read_number(iter.next().unwrap());
-    value / 100.0
+    let value = read_number(iter.next().unwrap())?;
+    Some(value / 100.0)
 }
 
-fn read_seconds(pair: Pair<Rule>) -> f32 {
+fn read_seconds(pair: Pair<Rule>) -> Option<f32> {
     let mut iter = pair.into_inner();
-    let value = read_number(iter.next().unwrap());
+    let value = read_number(iter.next().unwrap())?;
     let unit = iter.next().unwrap().as_str();
     match unit {
-        "s" => value,
-        "ms" => value / 1000.0,
+        "s" => Some(value),
+        "ms" => Some(value / 1000.0),
         _ => unreachable!(),
     }
 }
 
-fn read_number(pair: Pair<Rule>) -> f32 {
+fn read_number(pair: Pair<Rule>) -> Option<f32> {
     let number = pair.as_str();
-    number.parse::<f32>().unwrap_or_else(|error| {
-        error!("unable to parse number value {number}, {error}");
-        0.0
-    })
+    number
+        .parse::<f32>()
+        .inspect_err(|error| error!("unable to parse number value {number}, {error}"))
+        .ok()
 }
 
-fn read_color(pair: Pair<Rule>) -> [u8; 4] {
+fn read_color(pair: Pair<Rule>) -> Option<[u8; 4]> {
     let value = pair.as_str();
-    match value.len() {
+    let color = match value.len() {
         7 if value.starts_with("#") => {
             let r = u8::from_str_radix(&value[1..3], 16).unwrap_or(0);
             let g = u8::from_str_radix(&value[3..5], 16).unwrap_or(0);
@@ -299,10 +306,11 @@ fn read_color(pair: Pair<Rule>) -> [u8; 4] {
                 [r, g, b, a]
             } else {
                 error!("unable to parse color {value}");
-                [255; 4]
+                return None;
             }
         }
-    }
+    };
+    Some(color)
 }
 
 #[cfg(test)]
-- 
2.43.0


From c19bbbcc4c3a07876bbc37679893e694ce71bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 38/46] fix: do not reuse cached layout of descendants after a
 change (cache ignores size of the parent)

---
 src/view.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/view.rs b/src/view.rs
index 51acc51..4ce65b1 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -132,6 +132,11 @@ impl View {
             viewport_height,
         };
         self.apply_styles(self.body, &input, sizes, Variables::default())?;
+        // NOTE: layout cache ignores size and display mode of the parent,
+        // so results of descendants can't be reused if something has been changed
+        if self.tree.dirty(self.body)? {
+            self.invalidate_layout(self.body)?;
+        }
         self.tree.compute_layout_with_measure(
             self.body,
             Size::MAX_CONTENT,
@@ -142,6 +147,14 @@ impl View {
         self.model.handle_output(&input, self.body, &mut self.tree)
     }
 
+    fn invalidate_layout(&mut self, node: NodeId) -> Result<(), ViewError> {
+        self.tree.mark_dirty(node)?;
+        for child in self.tree.children(node)? {
+            self.invalidate_layout(child)?;
+        }
+        Ok(())
+    }
+
     fn compute_final_positions_and_clipping(
         &mut self,
         node: NodeId,
-- 
2.43.0


From d39689ce8e014b1fb68274adab651f5f29641f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:03 +0000
Subject: [PATCH 39/46] fix: a property which appears again is not transitioned
 from its forgotten value

---
 src/animation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index 187a69d..ff1b484 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -67,6 +67,8 @@ impl Transition {
             }
             ranges.push((current, value));
         }
+        // a value which is not declared anymore appears again without transition
+        self.ranges.truncate(ranges.len());
         if changed {
             self.ranges = ranges;
             self.animator.restart();
-- 
2.43.0


From 2475bd6451402e939108232ecdb1a202e32a23cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 40/46] fix: allow any whitespaces and comments between values
 and arguments

---
 src/css/css.pest | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 2c0ebde..93b58de 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -76,16 +76,18 @@ Ident = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
 Values = { Shorthand ~ ("," ~ Shorthand)* }
 
-Shorthand = ${ Value ~ (WHITESPACE ~ Value)* }
+Shorthand = ${ Value ~ (Space+ ~ Value)* }
+
+Space = _{ WHITESPACE | COMMENT }
 
 Value = _{ Var | Function | Explicit }
 
 Function = {
-    Ident ~ "(" ~ ")" |
-    Ident ~ "(" ~ Value ~ ("," ~ WHITESPACE* ~ Value)* ~ ")"
+    Ident ~ "(" ~ Space* ~ ")" |
+    Ident ~ "(" ~ Space* ~ Value ~ (Space* ~ "," ~ Space* ~ Value)* ~ Space* ~ ")"
 }
 
-Var = { "var" ~ "(" ~ Keyword ~ ("," ~ Value)? ~ ")" }
+Var = { "var" ~ "(" ~ Space* ~ Keyword ~ Space* ~ ("," ~ Space* ~ Value ~ Space*)? ~ ")" }
 
 Explicit = {
     Color
-- 
2.43.0


From 8d212f35d632dab847b47d67068febcd5d285b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:30 +0000
Subject: [PATCH 41/46] fix: keep one space for line breaks in texts before
 bindings, without carriage returns

---
 src/html/reader.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index ae818ee..d3fd728 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -178,24 +178,22 @@ fn parse_content(pair: Pair<Rule>, is_last_content: bool) -> Html {
             let mut spans = vec![];
 
             for index in 0..count {
-                let _is_next_binding = if let Some(TextSpan::Binder(_)) = prefetch.get(index + 1) {
-                    true
-                } else {
-                    false
-                };
+                let is_last_span = is_last_content && index + 1 == count;
                 let span = prefetch[index].clone();
                 match span {
                     TextSpan::String(string) => {
+                        // line break and indentation are displayed as one space
                         let mut text = String::new();
-                        for (index, fragment) in string.split("\n").enumerate() {
-                            if index != 0 {
-                                let fragment = fragment.trim_start();
-                                if !fragment.is_empty() || !is_last_content {
-                                    text.push(' ');
-                                    text.push_str(fragment);
-                                }
-                            } else {
-                                text.push_str(fragment);
+                        let mut lines = string.split("\n").enumerate().peekable();
+                        while let Some((index, line)) = lines.next() {
+                            let is_last_line = lines.peek().is_none();
+                            let line = if index != 0 { line.trim_start() } else { line };
+                            let line = if is_last_line { line } else { line.trim_end() };
+                            if index == 0 {
+                                text.push_str(line);
+                            } else if !line.is_empty() || (is_last_line && !is_last_span) {
+                                text.push(' ');
+                                text.push_str(line);
                             }
                         }
                         if !text.is_empty() {
-- 
2.43.0


From 9c57013c14d013166ff299b211fadfa231614695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:31 +0000
Subject: [PATCH 42/46] fix: separate classes and words of attributes by any
 whitespaces

---
 src/css/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 3e23eb9..aef5a29 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -102,7 +102,7 @@ fn match_simple_selector(
                 .map(|attr| match operator {
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
-                    Matcher::Include => attr.split(" ").any(|word| word == value),
+                    Matcher::Include => attr.split_whitespace().any(|word| word == value),
                     Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
@@ -171,7 +171,7 @@ impl Style {
 
 #[inline(always)]
 fn match_class(classes: &str, ident: &str) -> bool {
-    classes.split(" ").any(|class| class == ident)
+    classes.split_whitespace().any(|class| class == ident)
 }
 
 pub trait PseudoClassMatcher {
-- 
2.43.0


From 6f382daecfddb68eb05d8a3119c7c4c7bec1a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:05 +0000
Subject: [PATCH 43/46] fix: read inline styles which begin with whitespaces or
 comments

---
 src/css/css.pest  | 2 ++
 src/css/reader.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 93b58de..dc14f76 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -68,6 +68,8 @@ DeclarationBlock = {
 
 Declarations = { Declaration* }
 
+InlineDeclarations = _{ SOI ~ Declarations }
+
 Declaration = { Property ~ ":" ~ Values ~ ";" }
 
 Property = { (ASCII_ALPHA | "-" | "_")+ }
diff --git a/src/css/reader.rs b/src/css/reader.rs
index a148e53..ddc56bb 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -28,7 +28,7 @@ impl From<Error<Rule>> for ReaderError {
 }
 
 pub fn read_inline_css(block: &str) -> Result<Vec<Declaration>, ReaderError> {
-    let block = CssParser::parse(Rule::Declarations, block)?
+    let block = CssParser::parse(Rule::InlineDeclarations, block)?
         .next()
         .ok_or(ReaderError::EmptyStyleSheet)?;
     Ok(read_declarations(block))
-- 
2.43.0


From 5f4fbe104433e6a9ceeffc5909dbd7b905a34401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:45 +0000
Subject: [PATCH 44/46] fix: read values of attributes without quotes

---
 src/html/html.pest | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index ee4b1ce..1241136 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -103,7 +103,10 @@ Count = { ASCII_DIGIT* }
 DoubleQuoted = { Name ~ "=" ~ "\"" ~ Value ~ "\"" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
-Unquoted = { Name ~ "=" ~ Value }
+Unquoted = { Name ~ "=" ~ UnquotedValue }
+
+// https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
+UnquotedValue = @{ (!(WHITESPACE | "\"" | "'" | "=" | "<" | ">" | "`" | "/>") ~ ANY)+ }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Empty = { Name }
-- 
2.43.0


From 481fce88cdd1b9a6bfc0de1ae955ec2b40a03de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:29 +0000
Subject: [PATCH 45/46] fix: start no drag while something else is dragged

---
 src/view_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index b3c0ebc..a84a03e 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -313,7 +313,7 @@ impl ViewModel {
 
                         let event = MouseEvent::new(self.mouse, element);
                         self.emit(&element, "onmousedown", event);
-                        if button == MouseButtons::Left && element.draggable() {
+                        if button == MouseButtons::Left && self.drag.is_none() && element.draggable() {
                             let event = MouseEvent::new(self.mouse, element);
                             self.emit(element, "ondragstart", event);
                             self.drag = DragContext::new(node);
-- 
2.43.0


From 5579cdba788161e979c5c902fa49298f292e2707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:31 +0000
Subject: [PATCH 46/46] fix: take the first value of gap as the gap between
 rows

---
 src/styles/compute_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 4160380..b59164d 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -175,7 +175,7 @@ impl<'c> Cascade<'c> {
                 overwrite(PropertyKey::Bottom, value);
                 overwrite(PropertyKey::Left, value);
             }
-            (PropertyKey::Gap, [column, row]) => {
+            (PropertyKey::Gap, [row, column]) => {
                 overwrite(PropertyKey::RowGap, row);
                 overwrite(PropertyKey::ColumnGap, column);
             }
-- 
2.43.0

