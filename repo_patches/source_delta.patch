From 72edcc8bcacfa41e1b9435b6dbbd7d5dc81a1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 01/27] fix: an observer delivers exactly one terminal and
 nothing after it

---
 src/internals/function_wrapper.rs |  7 +++++--
 src/observer.rs                   | 11 +++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/internals/function_wrapper.rs b/src/internals/function_wrapper.rs
index 58deba9..ffd5b24 100644
--- a/src/internals/function_wrapper.rs
+++ b/src/internals/function_wrapper.rs
@@ -35,8 +35,11 @@ where
       ))),
     }
   }
-  pub fn clear(&self) {
-    *self.inner.write().unwrap() = None;
+  /// returns whether there was a function to clear
+  pub fn clear(&self) -> bool {
+    // dropped after the lock is released
+    let f = self.inner.write().unwrap().take();
+    f.is_some()
   }
   pub fn empty(&self) -> bool {
     self.inner.read().unwrap().is_none()
diff --git a/src/observer.rs b/src/observer.rs
index b6cd151..03a0181 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -38,10 +38,17 @@ where
     self.fn_next.call_if_available(x);
   }
   pub fn error(&self, x: RxError) {
-    self.fn_error.call_and_clear_if_available(x);
+    // only one terminal: whoever empties the next slot first delivers it
+    if self.fn_next.clear() {
+      self.fn_complete.clear();
+      self.fn_error.call_and_clear_if_available(x);
+    }
   }
   pub fn complete(&self) {
-    self.fn_complete.call_and_clear_if_available(());
+    if self.fn_next.clear() {
+      self.fn_error.clear();
+      self.fn_complete.call_and_clear_if_available(());
+    }
   }
   pub fn unsubscribe(&self) {
     self.fn_next.clear();
-- 
2.43.0


From 84dc9edcc501df77360b31448c47669ed1e8efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 02/27] fix: teardown runs without holding locks, cuts its
 reference cycle and is not missed when registered late

---
 src/internals/stream_controller.rs | 13 ++++++-------
 src/observer.rs                    | 16 ++++++++++++----
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index bda8774..9443741 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -130,17 +130,16 @@ where
   }
 
   pub fn finalize(&self) {
-    self.unscribers.read().unwrap().iter().for_each(|x| {
+    // everything is taken out first, so that no lock is held during the calls
+    let unscribers = std::mem::take(&mut *self.unscribers.write().unwrap());
+    unscribers.iter().for_each(|x| {
       x.1.call(());
     });
-    self.unscribers.write().unwrap().clear();
-    if self.subscriber.is_subscribed() {
-      self.subscriber.unsubscribe();
-    }
-    let on_finalize = &mut *self.on_finalize.write().unwrap();
+    // also when it got its terminal: its teardown slot refers to this controller
+    self.subscriber.unsubscribe();
+    let on_finalize = self.on_finalize.write().unwrap().take();
     if let Some(f) = on_finalize {
       f.call(());
-      *on_finalize = None;
     }
   }
 
diff --git a/src/observer.rs b/src/observer.rs
index 03a0181..7493371 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -54,10 +54,7 @@ where
     self.fn_next.clear();
     self.fn_error.clear();
     self.fn_complete.clear();
-    if let Some(f) = &*self.fn_on_unsubscribe.read().unwrap() {
-      f.call(());
-    }
-    *self.fn_on_unsubscribe.write().unwrap() = None;
+    self.call_on_unsubscribe();
   }
   pub fn is_subscribed(&self) -> bool {
     self.fn_next.exists() && self.fn_error.exists() && self.fn_complete.exists()
@@ -68,6 +65,17 @@ where
   {
     *self.fn_on_unsubscribe.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.is_subscribed() {
+      // already ended: nobody else is going to call it
+      self.call_on_unsubscribe();
+    }
+  }
+  fn call_on_unsubscribe(&self) {
+    // taken out first, so that no lock is held during the call
+    let f = self.fn_on_unsubscribe.write().unwrap().take();
+    if let Some(f) = f {
+      f.call(());
+    }
   }
 }
 
-- 
2.43.0


From e9f8bb55365a9c3190ed81b7b605c4bc64c30c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 03/27] fix: nothing is subscribed or left registered for a
 subscriber that has already ended

---
 src/internals/stream_controller.rs | 10 ++++++++--
 src/observable.rs                  |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index 9443741..29c850d 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -42,6 +42,9 @@ where
   {
     *self.on_finalize.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.subscriber.is_subscribed() {
+      self.finalize();
+    }
   }
 
   pub fn new_observer<XItem, Next, Error, Complete>(
@@ -73,11 +76,14 @@ where
     );
     let o_unsub = observer.clone();
 
-    let mut unsubscribers = self.unscribers.write().unwrap();
-    unsubscribers.insert(
+    self.unscribers.write().unwrap().insert(
       serial.clone(),
       FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
     );
+    if !self.subscriber.is_subscribed() {
+      // already ended: this observer must not stay behind
+      self.finalize();
+    }
     observer
   }
 
diff --git a/src/observable.rs b/src/observable.rs
index 62f0014..f53e9bd 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -26,7 +26,9 @@ where
   ) -> Subscription<'a> {
     let unsub_observer = observer.clone();
     let issub_observer = observer.clone();
-    self.source.call(observer.clone());
+    if observer.is_subscribed() {
+      self.source.call(observer.clone());
+    }
     Subscription::new(
       move || {
         unsub_observer.unsubscribe();
-- 
2.43.0


From 810644ee0c2762a8cd4d77e47cfc79aaedae68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 04/27] fix: an operator that completes on its own unsubscribes
 its upstream

---
 src/internals/stream_controller.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index 29c850d..1d421ab 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -106,11 +106,15 @@ where
 
   pub fn sink_complete(&self, serial: &i32) {
     if self.subscriber.is_subscribed() {
-      let done_all = {
+      let (o, done_all) = {
         let mut observers = self.unscribers.write().unwrap();
-        observers.remove(serial);
-        observers.len() == 0
+        let o = observers.remove(serial);
+        (o, observers.len() == 0)
       };
+      if let Some(o) = o {
+        // it may be the operator that completes, not its upstream
+        o.call(());
+      }
       if done_all {
         self.subscriber.complete();
         self.finalize();
@@ -128,8 +132,7 @@ where
   }
 
   pub fn upstream_abort_observe(&self, serial: &i32) {
-    let mut observers = self.unscribers.write().unwrap();
-    let o = observers.remove(serial);
+    let o = self.unscribers.write().unwrap().remove(serial);
     if let Some(o) = o {
       o.call(());
     }
-- 
2.43.0


From 3f5f058d9180bb4454b4dbe392798bf6d13aefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 05/27] fix: skip_while skips while the predicate holds

---
 src/operators/skip_while.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/skip_while.rs b/src/operators/skip_while.rs
index 3951f0b..9c935a7 100644
--- a/src/operators/skip_while.rs
+++ b/src/operators/skip_while.rs
@@ -38,9 +38,9 @@ where
           if *enable.read().unwrap() {
             sctl_next.sink_next(x);
           } else {
-            if f.call(x.clone()) {
-              sctl_next.sink_next(x);
+            if !f.call(x.clone()) {
               *enable.write().unwrap() = true;
+              sctl_next.sink_next(x);
             }
           }
         },
-- 
2.43.0


From 51829066ea6a30657ec44310e3157b3ad3bafee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 06/27] fix: element_at emits nothing when the source is too
 short

---
 src/operators/element_at.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/operators/element_at.rs b/src/operators/element_at.rs
index 14b60e3..7b297b1 100644
--- a/src/operators/element_at.rs
+++ b/src/operators/element_at.rs
@@ -7,6 +7,7 @@ where
   Item: Clone + Send + Sync,
 {
   take_op: operators::Take<Item>,
+  skip_op: operators::Skip<Item>,
 }
 
 impl<'a, Item> ElementAt<Item>
@@ -16,10 +17,12 @@ where
   pub fn new(count: usize) -> ElementAt<Item> {
     ElementAt {
       take_op: operators::Take::<Item>::new(count),
+      skip_op: operators::Skip::<Item>::new(count.saturating_sub(1)),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let take_op = self.take_op.clone();
+    let skip_op = self.skip_op.clone();
 
     Observable::<Item>::create(move |s| {
       let source = source.clone();
@@ -29,9 +32,9 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      take_op
-        .execute(source)
-        .last()
+      // the source may be shorter: the last item taken is not always the one
+      skip_op
+        .execute(take_op.execute(source))
         .inner_subscribe(sctl.new_observer(
           move |_, x| {
             sctl_next.sink_next(x);
-- 
2.43.0


From 0b42104ed04eb60bd16245cb8f5703032ab2b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 07/27] fix: take(0) completes without waiting for an item

---
 src/operators/take.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/take.rs b/src/operators/take.rs
index 099e236..5323ee7 100644
--- a/src/operators/take.rs
+++ b/src/operators/take.rs
@@ -25,6 +25,10 @@ where
     let count = self.count;
 
     Observable::<Item>::create(move |s| {
+      if count == 0 {
+        s.complete();
+        return;
+      }
       let n = Arc::new(RwLock::new(0));
 
       let sctl = StreamController::new(s);
-- 
2.43.0


From a94984a394b51b575d60bd32069bf2c63e5d0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 08/27] fix: window_with_count closes windows of one item and
 emits without holding its locks

---
 src/operators/window_with_count.rs | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/operators/window_with_count.rs b/src/operators/window_with_count.rs
index 8bf13cc..7758152 100644
--- a/src/operators/window_with_count.rs
+++ b/src/operators/window_with_count.rs
@@ -44,27 +44,36 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let mut n = n.write().unwrap();
-          if *n == 0 {
-            sctl_next.sink_next(sbj_next.read().unwrap().observable());
-            sbj_next.read().unwrap().next(x);
+          // decided under the locks, emitted without them
+          let (window, open, close) = {
+            let mut n = n.write().unwrap();
+            let mut sbj = sbj_next.write().unwrap();
+            let window = sbj.clone();
+            let open = *n == 0;
             *n += 1;
-          } else {
-            sbj_next.read().unwrap().next(x);
-            *n += 1;
-            if *n == count {
-              sbj_next.read().unwrap().complete();
-              *sbj_next.write().unwrap() = subjects::Subject::<Item>::new();
+            let close = *n == count;
+            if close {
+              *sbj = subjects::Subject::<Item>::new();
               *n = 0;
             }
+            (window, open, close)
+          };
+          if open {
+            sctl_next.sink_next(window.observable());
+          }
+          window.next(x);
+          if close {
+            window.complete();
           }
         },
         move |_, e| {
-          sbj_error.read().unwrap().error(e.clone());
+          let window = sbj_error.read().unwrap().clone();
+          window.error(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbj_complete.read().unwrap().complete();
+          let window = sbj_complete.read().unwrap().clone();
+          window.complete();
           sctl_complete.sink_complete(&serial);
         },
       ));
-- 
2.43.0


From 071db614ae1a5ba46c0d12f7448a061d52089abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 09/27] fix: operators emit without holding their locks

---
 src/operators/buffer_with_count.rs |  4 ++--
 src/operators/group_by.rs          | 17 +++++++++++------
 src/operators/max.rs               |  5 +++--
 src/operators/min.rs               |  5 +++--
 src/operators/reduce.rs            |  5 +++--
 src/operators/scan.rs              | 18 +++++++++---------
 src/operators/sum.rs               |  5 +++--
 src/operators/sum_and_count.rs     |  6 ++++--
 src/operators/take_last.rs         |  5 +++--
 src/operators/time_interval.rs     |  8 +++++---
 10 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/src/operators/buffer_with_count.rs b/src/operators/buffer_with_count.rs
index a303dba..5401196 100644
--- a/src/operators/buffer_with_count.rs
+++ b/src/operators/buffer_with_count.rs
@@ -61,9 +61,9 @@ where
             sctl_error.sink_error(e);
           },
           move |serial| {
-            let vec = results.read().unwrap();
+            let vec = results.read().unwrap().clone();
             if vec.len() > 0 {
-              sctl_complete.sink_next(vec.clone());
+              sctl_complete.sink_next(vec);
             }
             sctl_complete.sink_complete(&serial);
           },
diff --git a/src/operators/group_by.rs b/src/operators/group_by.rs
index abdd0c4..eb5df7d 100644
--- a/src/operators/group_by.rs
+++ b/src/operators/group_by.rs
@@ -50,27 +50,32 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
           let key = f.call(x.clone()); // Umm, can I use it as a reference?
-          let sbj = {
+          let (sbj, is_new) = {
             let mut sbjmap = sbjmap_next.write().unwrap();
             if let Some(sbj) = sbjmap.get(&key) {
-              sbj.clone()
+              (sbj.clone(), false)
             } else {
               let sbj = subjects::Subject::<Item>::new();
               sbjmap.insert(key, sbj.clone());
-              sctl_next.sink_next(sbj.observable());
-              sbj
+              (sbj, true)
             }
           };
+          // no lock is held during the calls
+          if is_new {
+            sctl_next.sink_next(sbj.observable());
+          }
           sbj.next(x);
         },
         move |_, e| {
-          sbjmap_error.read().unwrap().iter().for_each(|x| {
+          let sbjmap = sbjmap_error.read().unwrap().clone();
+          sbjmap.iter().for_each(|x| {
             x.1.error(e.clone());
           });
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbjmap_complete.read().unwrap().iter().for_each(|x| {
+          let sbjmap = sbjmap_complete.read().unwrap().clone();
+          sbjmap.iter().for_each(|x| {
             x.1.complete();
           });
           sctl_complete.sink_complete(&serial);
diff --git a/src/operators/max.rs b/src/operators/max.rs
index 37efdff..37a8281 100644
--- a/src/operators/max.rs
+++ b/src/operators/max.rs
@@ -42,8 +42,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let x = result.read().unwrap().clone();
+          if let Some(x) = x {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/min.rs b/src/operators/min.rs
index 6b3c544..1a06fc3 100644
--- a/src/operators/min.rs
+++ b/src/operators/min.rs
@@ -42,8 +42,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let x = result.read().unwrap().clone();
+          if let Some(x) = x {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/reduce.rs b/src/operators/reduce.rs
index 9638516..e8eafbe 100644
--- a/src/operators/reduce.rs
+++ b/src/operators/reduce.rs
@@ -46,8 +46,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let x = result.read().unwrap().clone();
+          if let Some(x) = x {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/scan.rs b/src/operators/scan.rs
index 7f72e59..f812e13 100644
--- a/src/operators/scan.rs
+++ b/src/operators/scan.rs
@@ -36,17 +36,17 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
+          let x = {
             let mut r = result_next.write().unwrap();
-            if let Some(xx) = &*r {
-              *r = Some(f.call((xx.clone(), x)));
+            let x = if let Some(xx) = &*r {
+              f.call((xx.clone(), x))
             } else {
-              *r = Some(x);
-            }
-          }
-          if let Some(x) = &*result_next.read().unwrap() {
-            sctl_next.sink_next(x.clone());
-          }
+              x
+            };
+            *r = Some(x.clone());
+            x
+          };
+          sctl_next.sink_next(x);
         },
         move |_, e| {
           sctl_error.sink_error(e);
diff --git a/src/operators/sum.rs b/src/operators/sum.rs
index f5e9c82..a238041 100644
--- a/src/operators/sum.rs
+++ b/src/operators/sum.rs
@@ -41,8 +41,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(latest) = &*sum.read().unwrap() {
-            sctl_complete.sink_next(latest.clone());
+          let latest = sum.read().unwrap().clone();
+          if let Some(latest) = latest {
+            sctl_complete.sink_next(latest);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/sum_and_count.rs b/src/operators/sum_and_count.rs
index 358042f..6f2b22b 100644
--- a/src/operators/sum_and_count.rs
+++ b/src/operators/sum_and_count.rs
@@ -47,8 +47,10 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(latest) = &*sum.read().unwrap() {
-            sctl_complete.sink_next((latest.clone(), *n.read().unwrap()));
+          let latest = sum.read().unwrap().clone();
+          if let Some(latest) = latest {
+            let n = *n.read().unwrap();
+            sctl_complete.sink_next((latest, n));
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/take_last.rs b/src/operators/take_last.rs
index 05cdb0d..71baa7f 100644
--- a/src/operators/take_last.rs
+++ b/src/operators/take_last.rs
@@ -45,11 +45,12 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          for x in items_complete.read().unwrap().iter() {
+          let items = std::mem::take(&mut *items_complete.write().unwrap());
+          for x in items {
             if !sctl_complete.is_subscribed() {
               break;
             }
-            sctl_complete.sink_next(x.clone());
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial)
         },
diff --git a/src/operators/time_interval.rs b/src/operators/time_interval.rs
index 291c5ff..6b4a004 100644
--- a/src/operators/time_interval.rs
+++ b/src/operators/time_interval.rs
@@ -37,16 +37,18 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, _| {
-          if let Some(start_time) = *start_time_next.read().unwrap() {
+          let start_time =
+            start_time_next.write().unwrap().replace(Instant::now());
+          if let Some(start_time) = start_time {
             sctl_next.sink_next(start_time.elapsed());
           }
-          *start_time_next.write().unwrap() = Some(Instant::now());
         },
         move |_, e| {
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(start_time) = *start_time_complete.read().unwrap() {
+          let start_time = *start_time_complete.read().unwrap();
+          if let Some(start_time) = start_time {
             sctl_complete.sink_next(start_time.elapsed());
           }
           sctl_complete.sink_complete(&serial);
-- 
2.43.0


From 9fc1f5b1da24b00e9777ddf5be1c57d814c964cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:05 +0000
Subject: [PATCH 10/27] fix: combine_latest combines the latest items instead
 of zipping

---
 src/operators/combine_latest.rs | 68 +++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/src/operators/combine_latest.rs b/src/operators/combine_latest.rs
index 83b746a..ddd4048 100644
--- a/src/operators/combine_latest.rs
+++ b/src/operators/combine_latest.rs
@@ -1,6 +1,10 @@
 use crate::internals::function_wrapper::FunctionWrapper;
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct CombineLatest<'a, Item, Out>
@@ -8,7 +12,7 @@ where
   Item: Clone + Send + Sync,
   Out: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
   combine_f: FunctionWrapper<'a, Vec<Item>, Out>,
 }
 
@@ -25,35 +29,59 @@ where
     F: Fn(Vec<Item>) -> Out + Send + Sync + 'a,
   {
     CombineLatest {
-      zip_op: operators::Zip::new(observables),
+      observables: observables.to_vec(),
       combine_f: FunctionWrapper::new(f),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Out> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
     let combine_f = self.combine_f.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
-      let combine_f = combine_f.clone();
-
       let sctl = StreamController::new(s);
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+      let latest = Arc::new(RwLock::new(vec![
+        None::<Item>;
+        observables.len() + 1
+      ]));
+
+      // prepare subscribers
+      let mut sbs = {
+        let sctl = sctl.clone();
+        let combine_f = combine_f.clone();
+        VecDeque::from_iter(
+          (0..(observables.len() + 1)).map(move |id| {
+            let combine_f = combine_f.clone();
+            let latest = Arc::clone(&latest);
+            let sctl_next = sctl.clone();
+            let sctl_error = sctl.clone();
+            let sctl_complete = sctl.clone();
+            sctl.new_observer(
+              move |_, x| {
+                let items = {
+                  let mut latest = latest.write().unwrap();
+                  latest[id] = Some(x);
+                  latest.iter().cloned().collect::<Option<Vec<Item>>>()
+                };
+                if let Some(items) = items {
+                  sctl_next.sink_next(combine_f.call(items));
+                }
+              },
+              move |_, e| {
+                sctl_error.sink_error(e);
+              },
+              move |serial| {
+                sctl_complete.sink_complete(&serial);
+              },
+            )
+          }),
+        )
+      };
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |_, x| {
-          sctl_next.sink_next(combine_f.call(x));
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+      source.inner_subscribe(sbs.pop_front().unwrap());
+      observables.iter().for_each(|o| {
+        o.inner_subscribe(sbs.pop_front().unwrap());
+      });
     })
   }
 }
-- 
2.43.0


From 4822fd2e24a3051cf3814e864d5fcba0b203d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 11/27] fix: sequence_equal tells sequences of different
 lengths apart

---
 src/operators/sequence_equal.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/operators/sequence_equal.rs b/src/operators/sequence_equal.rs
index 41716e2..8f449f0 100644
--- a/src/operators/sequence_equal.rs
+++ b/src/operators/sequence_equal.rs
@@ -6,7 +6,7 @@ pub struct SequenceEqual<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  zip_op: operators::Zip<'a, Option<Item>>,
 }
 
 impl<'a, Item> SequenceEqual<'a, Item>
@@ -14,7 +14,15 @@ where
   Item: Clone + Send + Sync + PartialEq,
 {
   pub fn new(observables: &[Observable<'a, Item>]) -> SequenceEqual<'a, Item> {
-    SequenceEqual { zip_op: operators::Zip::new(observables) }
+    SequenceEqual {
+      zip_op: operators::Zip::new(&Vec::from_iter(
+        observables.iter().map(|o| Self::terminated(o)),
+      )),
+    }
+  }
+  // marks the end, so that sequences of different lengths differ
+  fn terminated(o: &Observable<'a, Item>) -> Observable<'a, Option<Item>> {
+    o.map(|x| Some(x)).concat(&[observables::just(None)])
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, bool> {
     let zip_op = self.zip_op.clone();
@@ -28,8 +36,8 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |serial, x: Vec<Item>| {
+      zip_op.execute(Self::terminated(&source)).inner_subscribe(sctl.new_observer(
+        move |serial, x: Vec<Option<Item>>| {
           let check = x.get(0).unwrap();
           if !x.iter().all(|i| i == check) {
             sctl_next.upstream_abort_observe(&serial);
-- 
2.43.0


From 88db19bb9544798a8d6a871f8f2780339673348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 12/27] fix: amb completes with its winner

---
 src/operators/amb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/amb.rs b/src/operators/amb.rs
index cbc605f..43b4f70 100644
--- a/src/operators/amb.rs
+++ b/src/operators/amb.rs
@@ -64,7 +64,7 @@ where
               },
               move |serial| {
                 if is_win_complete(&serial) {
-                  sctl_complete.sink_complete(&serial);
+                  sctl_complete.sink_complete_force(); // losers also unsubscribe
                 } else {
                   sctl_complete.upstream_abort_observe(&serial);
                 }
-- 
2.43.0


From e0793256d3cc430b53afecc331f7c26a54c7faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:43 +0000
Subject: [PATCH 13/27] fix: every subscription to concat plays all the sources

---
 src/operators/concat.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/operators/concat.rs b/src/operators/concat.rs
index 2c3f931..01b5350 100644
--- a/src/operators/concat.rs
+++ b/src/operators/concat.rs
@@ -21,10 +21,11 @@ where
     Concat { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let observables = Arc::new(RwLock::new(VecDeque::from_iter(
-      self.observables.clone().into_iter(),
-    )));
+    let pending = self.observables.clone();
     Observable::create(move |s| {
+      let observables = Arc::new(RwLock::new(VecDeque::from_iter(
+        pending.clone().into_iter(),
+      )));
       let sctl = StreamController::new(s);
 
       fn complete_and_next<'a, Item>(
@@ -51,7 +52,8 @@ where
           move |_, e| {
             sctl_error.sink_error(e);
           },
-          move |_| {
+          move |serial| {
+            sctl_complete.upstream_abort_observe(&serial);
             complete_and_next(
               idx + 1,
               Arc::clone(&observables),
@@ -74,7 +76,8 @@ where
           move |_, e| {
             sctl_error.sink_error(e);
           },
-          move |_| {
+          move |serial| {
+            sctl_complete.upstream_abort_observe(&serial);
             complete_and_next(
               0,
               Arc::clone(&observables),
-- 
2.43.0


From 7256f853eb8581cc71d61c8bea184d67e00a2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 14/27] fix: default_if_empty keeps its flag per subscription

---
 src/operators/default_if_empty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/default_if_empty.rs b/src/operators/default_if_empty.rs
index 936ef39..127dfd6 100644
--- a/src/operators/default_if_empty.rs
+++ b/src/operators/default_if_empty.rs
@@ -19,9 +19,9 @@ where
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let default = self.default.clone();
-    let emitted = Arc::new(RwLock::new(false));
 
     Observable::<Item>::create(move |s| {
+      let emitted = Arc::new(RwLock::new(false));
       let default_complete = default.clone();
 
       let emitted_next = Arc::clone(&emitted);
-- 
2.43.0


From c8ddef3e88c9071df1974ada3e43bdf0cc786294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:13 +0000
Subject: [PATCH 15/27] fix: tap acts on the terminal of every subscription

---
 src/operators/tap.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/operators/tap.rs b/src/operators/tap.rs
index 81c13ed..b19211c 100644
--- a/src/operators/tap.rs
+++ b/src/operators/tap.rs
@@ -1,4 +1,4 @@
-use crate::internals::stream_controller::*;
+use crate::internals::{function_wrapper::*, stream_controller::*};
 use crate::prelude::*;
 
 #[derive(Clone)]
@@ -6,7 +6,9 @@ pub struct Tap<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  tap_observer: Observer<'a, Item>,
+  next_f: FunctionWrapper<'a, Item, ()>,
+  error_f: FunctionWrapper<'a, RxError, ()>,
+  complete_f: FunctionWrapper<'a, (), ()>,
 }
 
 impl<'a, Item> Tap<'a, Item>
@@ -24,12 +26,16 @@ where
     Complete: Fn() + Send + Sync + 'a,
   {
     Tap {
-      tap_observer: Observer::new(next, error, complete),
+      next_f: FunctionWrapper::new(next),
+      error_f: FunctionWrapper::new(error),
+      complete_f: FunctionWrapper::new(move |_| complete()),
     }
   }
 
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let tap_observer = self.tap_observer.clone();
+    let next_f = self.next_f.clone();
+    let error_f = self.error_f.clone();
+    let complete_f = self.complete_f.clone();
     Observable::create(move |s| {
       let sctl = StreamController::new(s);
       let source_next = source.clone();
@@ -38,20 +44,20 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let tap_observer_next = tap_observer.clone();
-      let tap_observer_error = tap_observer.clone();
-      let tap_observer_complete = tap_observer.clone();
+      let next_f = next_f.clone();
+      let error_f = error_f.clone();
+      let complete_f = complete_f.clone();
       source_next.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
-          tap_observer_next.next(x.clone());
+          next_f.call(x.clone());
           sctl_next.sink_next(x);
         },
         move |_, e| {
-          tap_observer_error.error(e.clone());
+          error_f.call(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          tap_observer_complete.complete();
+          complete_f.call(());
           sctl_complete.sink_complete(&serial)
         },
       ));
-- 
2.43.0


From 64094510c66f90f6334d65789724824f300cb55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 16/27] fix: an error of the trigger of take_until, skip_until
 and sample reaches the subscriber

---
 src/operators/sample.rs     | 5 ++++-
 src/operators/skip_until.rs | 5 ++++-
 src/operators/take_until.rs | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/operators/sample.rs b/src/operators/sample.rs
index 0c5cab4..7636221 100644
--- a/src/operators/sample.rs
+++ b/src/operators/sample.rs
@@ -35,6 +35,7 @@ where
       let obs_trigger = {
         let value_trigger_next = Arc::clone(&value);
         let sctl_trigger_next = sctl.clone();
+        let sctl_trigger_error = sctl.clone();
 
         sctl.new_observer(
           move |_, _| {
@@ -48,7 +49,9 @@ where
               sctl_trigger_next.sink_next(v);
             }
           },
-          |_, _| {},
+          move |_, e| {
+            sctl_trigger_error.sink_error(e);
+          },
           |_| {},
         )
       };
diff --git a/src/operators/skip_until.rs b/src/operators/skip_until.rs
index 71b9568..ee79739 100644
--- a/src/operators/skip_until.rs
+++ b/src/operators/skip_until.rs
@@ -37,13 +37,16 @@ where
       let obs_trigger = {
         let enable_triggner_next = Arc::clone(&enable);
         let sctl_trigger_next = sctl.clone();
+        let sctl_trigger_error = sctl.clone();
 
         sctl.new_observer(
           move |serial, _| {
             *enable_triggner_next.write().unwrap() = true;
             sctl_trigger_next.upstream_abort_observe(&serial);
           },
-          |_, _| {},
+          move |_, e| {
+            sctl_trigger_error.sink_error(e);
+          },
           |_| {},
         )
       };
diff --git a/src/operators/take_until.rs b/src/operators/take_until.rs
index 5b32df3..c9f8e4d 100644
--- a/src/operators/take_until.rs
+++ b/src/operators/take_until.rs
@@ -32,12 +32,15 @@ where
 
       let obs_trigger = {
         let sctl_trigger_next = sctl.clone();
+        let sctl_trigger_error = sctl.clone();
 
         sctl.new_observer(
           move |_, _| {
             sctl_trigger_next.sink_complete_force();
           },
-          |_, _| {},
+          move |_, e| {
+            sctl_trigger_error.sink_error(e);
+          },
           |_| {},
         )
       };
-- 
2.43.0


From 442a8d37602a3a137c835b6697d3a29fd623cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:29 +0000
Subject: [PATCH 17/27] fix: switch_on_next reaches its target when the source
 completes at once

---
 src/operators/switch_on_next.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/operators/switch_on_next.rs b/src/operators/switch_on_next.rs
index d999a14..0029307 100644
--- a/src/operators/switch_on_next.rs
+++ b/src/operators/switch_on_next.rs
@@ -23,13 +23,15 @@ where
       let sctl = StreamController::new(s);
       let emitted = Arc::new(RwLock::new(false));
 
-      {
+      // prepare subscribers: a source that completes at once must not complete
+      // the whole before the target is known
+      let obs_source = {
         let emitted = Arc::clone(&emitted);
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
         let sctl_complete = sctl.clone();
 
-        source.inner_subscribe(sctl.new_observer(
+        sctl.new_observer(
           move |serial, x| {
             if *emitted.read().unwrap() {
               sctl_next.upstream_abort_observe(&serial);
@@ -41,15 +43,14 @@ where
             sctl_error.sink_error(e);
           },
           move |serial| sctl_complete.sink_complete(&serial),
-        ));
+        )
       };
-
-      {
+      let obs_target = {
         let emitted = Arc::clone(&emitted);
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
         let sctl_complete = sctl.clone();
-        target.inner_subscribe(sctl.new_observer(
+        sctl.new_observer(
           move |_, x| {
             *emitted.write().unwrap() = true;
             sctl_next.sink_next(x);
@@ -58,8 +59,11 @@ where
             sctl_error.sink_error(e);
           },
           move |_| sctl_complete.sink_complete_force(),
-        ));
-      }
+        )
+      };
+
+      source.inner_subscribe(obs_source);
+      target.inner_subscribe(obs_target);
     })
   }
 }
-- 
2.43.0


From 25fb7612b72fa104746292f9e097311ada7955ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 18/27] fix: ref_count connects without holding its lock, can
 be stopped while its source emits and leaves no cycle behind

---
 src/operators/ref_count.rs | 38 ++++++++++++++++++-----------
 src/subjects/subject.rs    | 49 +++++++++++++++++++++++++-------------
 2 files changed, 57 insertions(+), 30 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 5d4db86..740d7c7 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -9,7 +9,7 @@ where
 {
   subject: subjects::Subject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
 }
 
 impl<'a, Item> RefCount<'a, Item>
@@ -20,7 +20,7 @@ where
     let _self = RefCount {
       subject: Subject::<Item>::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(None)),
     };
     _self.set_ref_count();
     _self
@@ -32,19 +32,20 @@ where
 
   fn set_ref_count(&self) {
     {
-      let subscription = Arc::clone(&self.subscription);
+      let connection = Arc::clone(&self.connection);
       self.subject.set_on_unsubscribe(move |count| {
         if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
+          let observer = connection.read().unwrap().clone();
+          if let Some(observer) = observer {
+            observer.unsubscribe();
           }
         }
       });
     }
 
     let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
+    let subject = self.subject.without_hooks();
+    let connection = Arc::clone(&self.connection);
 
     self.subject.set_on_subscribe(move |count| {
       if count == 1 {
@@ -53,12 +54,7 @@ where
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
 
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
+        let observer = Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -68,7 +64,21 @@ where
           move || {
             sbj_complete.complete();
           },
-        ));
+        );
+
+        // known before the source emits, so that it can be stopped meanwhile
+        {
+          let mut connection = connection.write().unwrap();
+          if connection.is_some() {
+            return;
+          }
+          *connection = Some(observer.clone());
+        }
+        if subject.observer_count() == 0 {
+          // the last one has left before there was something to stop
+          observer.unsubscribe();
+        }
+        source.inner_subscribe(observer);
       }
     });
   }
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 34dd4b6..2c70d04 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -28,12 +28,31 @@ where
     }
   }
 
+  /// the same observers without the hooks, for use by the hooks
+  pub(crate) fn without_hooks(&self) -> Subject<'a, Item> {
+    Subject {
+      observers: Arc::clone(&self.observers),
+      serial: Arc::clone(&self.serial),
+      on_subscribe: Arc::new(RwLock::new(None)),
+      on_unsubscribe: Arc::new(RwLock::new(None)),
+    }
+  }
+
+  pub(crate) fn observer_count(&self) -> usize {
+    self.observers.read().unwrap().len()
+  }
+
   fn fetch_observers(&self) -> Vec<Observer<'a, Item>> {
     let binding = self.observers.read().unwrap();
     let x = binding.iter().map(|x| x.1.clone());
     Vec::from_iter(x)
   }
 
+  fn take_observers(&self) -> Vec<Observer<'a, Item>> {
+    let observers = std::mem::take(&mut *self.observers.write().unwrap());
+    observers.into_iter().map(|x| x.1).collect()
+  }
+
   pub fn next(&self, item: Item) {
     self
       .fetch_observers()
@@ -41,14 +60,10 @@ where
       .for_each(move |x| x.next(item.clone()));
   }
   pub fn error(&self, err: RxError) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
-    obs.into_iter().for_each(move |x| x.error(err.clone()));
+    self.take_observers().into_iter().for_each(move |x| x.error(err.clone()));
   }
   pub fn complete(&self) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
-    obs.into_iter().for_each(|x| x.complete());
+    self.take_observers().into_iter().for_each(|x| x.complete());
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
@@ -64,26 +79,28 @@ where
         *serial += 1;
         *serial
       };
+      let len = {
+        let mut observers = observers.write().unwrap();
+        observers.insert(serial, s.clone());
+        observers.len()
+      };
       {
+        // set after the insertion: is called at once if it has ended meanwhile
         let observers = Arc::clone(&observers);
         let on_unsubscribe = Arc::clone(&on_unsubscribe);
         s.set_on_unsubscribe(move || {
-          let len = {
+          let (_removed, len) = {
             let mut observers = observers.write().unwrap();
-            observers.remove(&serial);
-            observers.len()
+            (observers.remove(&serial), observers.len())
           };
-          if let Some(on_unsubscribe) = &*on_unsubscribe.read().unwrap() {
+          let on_unsubscribe = on_unsubscribe.read().unwrap().clone();
+          if let Some(on_unsubscribe) = on_unsubscribe {
             on_unsubscribe.call(len);
           }
         });
       }
-      let len = {
-        let mut observers = observers.write().unwrap();
-        observers.insert(serial, s);
-        observers.len()
-      };
-      if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
+      let on_subscribe = on_subscribe.read().unwrap().clone();
+      if let Some(on_subscribe) = on_subscribe {
         on_subscribe.call(len);
       }
     })
-- 
2.43.0


From 441d145c1aa2a51fd3d7b7af6671ba3be90ce12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 19/27] fix: a ReplaySubject's subscribers get each item once
 and in order, also while it is being fed; replay connects without holding its
 lock

---
 src/operators/replay.rs        |  38 +++++---
 src/subjects/replay_subject.rs | 165 +++++++++++++++++++++------------
 2 files changed, 129 insertions(+), 74 deletions(-)

diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index cae0f42..82d033e 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -8,7 +8,7 @@ where
 {
   subject: subjects::ReplaySubject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
 }
 
 impl<'a, Item> Replay<'a, Item>
@@ -19,7 +19,7 @@ where
     let _self = Replay {
       subject: subjects::ReplaySubject::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(None)),
     };
     _self.set_ref_count();
     _self
@@ -31,19 +31,20 @@ where
 
   fn set_ref_count(&self) {
     {
-      let subscription = Arc::clone(&self.subscription);
+      let connection = Arc::clone(&self.connection);
       self.subject.set_on_unsubscribe(move |count| {
         if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
+          let observer = connection.read().unwrap().clone();
+          if let Some(observer) = observer {
+            observer.unsubscribe();
           }
         }
       });
     }
 
     let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
+    let subject = self.subject.without_hooks();
+    let connection = Arc::clone(&self.connection);
 
     self.subject.set_on_subscribe(move |count| {
       if count == 1 {
@@ -52,12 +53,7 @@ where
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
 
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
+        let observer = Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -67,7 +63,21 @@ where
           move || {
             sbj_complete.complete();
           },
-        ));
+        );
+
+        // known before the source emits, so that it can be stopped meanwhile
+        {
+          let mut connection = connection.write().unwrap();
+          if connection.is_some() {
+            return;
+          }
+          *connection = Some(observer.clone());
+        }
+        if subject.observer_count() == 0 {
+          // the last one has left before there was something to stop
+          observer.unsubscribe();
+        }
+        source.inner_subscribe(observer);
       }
     });
   }
diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 9c33645..40e147e 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -1,15 +1,27 @@
+use crate::internals::stream_controller::*;
 use crate::prelude::*;
 use std::sync::{Arc, RwLock};
 
+struct History<Item> {
+  items: Vec<Item>,
+  was_error: Option<RxError>,
+  was_completed: bool,
+}
+
+/// how far a subscriber is in the history
+struct Progress {
+  position: usize,
+  busy: bool,
+}
+
 #[derive(Clone)]
 pub struct ReplaySubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
-  items: Arc<RwLock<Vec<Item>>>,
-  was_error: Arc<RwLock<Option<RxError>>>,
-  was_completed: Arc<RwLock<bool>>,
+  /// tells the subscribers that the history has grown
+  subject: Arc<subject::Subject<'a, ()>>,
+  history: Arc<RwLock<History<Item>>>,
 }
 
 impl<'a, Item> ReplaySubject<'a, Item>
@@ -19,77 +31,110 @@ where
   pub fn new() -> ReplaySubject<'a, Item> {
     ReplaySubject {
       subject: Arc::new(subjects::Subject::new()),
-      items: Arc::new(RwLock::new(Vec::new())),
-      was_error: Arc::new(RwLock::new(None)),
-      was_completed: Arc::new(RwLock::new(false)),
+      history: Arc::new(RwLock::new(History {
+        items: Vec::new(),
+        was_error: None,
+        was_completed: false,
+      })),
     }
   }
 
+  /// the same history and subscribers without the hooks, for use by the hooks
+  pub(crate) fn without_hooks(&self) -> ReplaySubject<'a, Item> {
+    ReplaySubject {
+      subject: Arc::new(self.subject.without_hooks()),
+      history: Arc::clone(&self.history),
+    }
+  }
+
+  pub(crate) fn observer_count(&self) -> usize {
+    self.subject.observer_count()
+  }
+
   pub fn next(&self, item: Item) {
-    (*self.items.write().unwrap()).push(item.clone());
-    self.subject.next(item);
+    {
+      let mut history = self.history.write().unwrap();
+      if history.was_error.is_some() || history.was_completed {
+        return;
+      }
+      history.items.push(item);
+    }
+    self.subject.next(());
   }
   pub fn error(&self, err: RxError) {
-    *self.was_error.write().unwrap() = Some(err.clone());
-    self.subject.error(err);
+    {
+      let mut history = self.history.write().unwrap();
+      if history.was_error.is_some() || history.was_completed {
+        return;
+      }
+      history.was_error = Some(err);
+    }
+    self.subject.complete();
   }
   pub fn complete(&self) {
-    *self.was_completed.write().unwrap() = true;
+    {
+      let mut history = self.history.write().unwrap();
+      if history.was_error.is_some() || history.was_completed {
+        return;
+      }
+      history.was_completed = true;
+    }
     self.subject.complete();
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    let items = Arc::clone(&self.items);
-    let was_error = Arc::clone(&self.was_error);
-    let was_completed = Arc::clone(&self.was_completed);
+    let history = Arc::clone(&self.history);
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        });
-      }
-
-      let items = Arc::clone(&items);
-      let was_error = Arc::clone(&was_error);
-      let was_completed = Arc::clone(&was_completed);
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-
-      *sbsc.write().unwrap() = Some(
-        utils::ready_set_go(
-          move || {
-            // block until emitted for replay
-            let items = &items.read().unwrap();
-            let was_error = &*was_error.read().unwrap();
-            let was_completed = &*was_completed.read().unwrap();
-            items.iter().for_each(|x| {
-              s.next(x.clone());
-            });
-            if let Some(err) = &*was_error {
-              s.error(err.clone());
-              return;
-            } else if *was_completed {
-              s.complete();
-              return;
+      let sctl = StreamController::new(s);
+      let progress = Arc::new(RwLock::new(Progress { position: 0, busy: false }));
+
+      // Hands over what this subscriber has not got yet. Only one thread at a
+      // time does it, so each item arrives once and in the order of the history.
+      let advance = {
+        let history = Arc::clone(&history);
+        let sctl = sctl.clone();
+        move || {
+          while sctl.is_subscribed() {
+            let event = {
+              let mut progress = progress.write().unwrap();
+              if progress.busy {
+                // the other one goes on until it finds nothing
+                return;
+              }
+              let history = history.read().unwrap();
+              let event = if progress.position < history.items.len() {
+                let item = history.items[progress.position].clone();
+                progress.position += 1;
+                Material::Next(item)
+              } else if let Some(err) = &history.was_error {
+                Material::Error(err.clone())
+              } else if history.was_completed {
+                Material::Complete
+              } else {
+                return;
+              };
+              progress.busy = true;
+              event
+            };
+            match event {
+              Material::Next(x) => sctl.sink_next(x),
+              Material::Error(e) => sctl.sink_error(e),
+              Material::Complete => sctl.sink_complete_force(),
             }
-          },
-          subject.observable(),
-        )
-        .subscribe(
-          move |x| s_next.next(x),
-          move |e| s_error.error(e),
-          move || {
-            s_complete.complete();
-          },
-        ),
-      );
+            progress.write().unwrap().busy = false;
+          }
+        }
+      };
+
+      let advance_next = advance.clone();
+      let advance_complete = advance.clone();
+      subject.observable().inner_subscribe(sctl.new_observer(
+        move |_, _| advance_next(),
+        move |_, _| {},
+        move |_| advance_complete(),
+      ));
+      advance();
     })
   }
 
-- 
2.43.0


From 398ee73f8b07de42fcbb0736242cf8deed1f5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 20/27] fix: a BehaviorSubject hands over its latest value
 without gap, duplicate or held lock

---
 src/subjects/behavior_subject.rs | 169 +++++++++++++++++++++++--------
 1 file changed, 128 insertions(+), 41 deletions(-)

diff --git a/src/subjects/behavior_subject.rs b/src/subjects/behavior_subject.rs
index c4c079c..0dbca84 100644
--- a/src/subjects/behavior_subject.rs
+++ b/src/subjects/behavior_subject.rs
@@ -1,14 +1,34 @@
+use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::collections::VecDeque;
 use std::sync::{Arc, RwLock};
 
+struct Latest<Item> {
+  /// None after the end
+  item: Option<Item>,
+  serial: usize,
+  error: Option<RxError>,
+  completed: bool,
+}
+
+/// what a subscriber still has to get
+struct Pending<Item>
+where
+  Item: Clone + Send + Sync,
+{
+  queue: VecDeque<(usize, Material<Item>)>,
+  /// serial of the value it was first handed
+  since: Option<usize>,
+  busy: bool,
+}
+
 #[derive(Clone)]
 pub struct BehaviorSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
-  last_item: Arc<RwLock<Option<Item>>>,
-  last_error: Arc<RwLock<Option<RxError>>>,
+  subject: Arc<subject::Subject<'a, (usize, Item)>>,
+  latest: Arc<RwLock<Latest<Item>>>,
 }
 
 impl<'a, Item> BehaviorSubject<'a, Item>
@@ -18,65 +38,132 @@ where
   pub fn new(initial: Item) -> BehaviorSubject<'a, Item> {
     BehaviorSubject {
       subject: Arc::new(subjects::Subject::new()),
-      last_item: Arc::new(RwLock::new(Some(initial))),
-      last_error: Arc::new(RwLock::new(None)),
+      latest: Arc::new(RwLock::new(Latest {
+        item: Some(initial),
+        serial: 0,
+        error: None,
+        completed: false,
+      })),
     }
   }
 
   pub fn next(&self, item: Item) {
-    *self.last_item.write().unwrap() = Some(item.clone());
-    self.subject.next(item);
+    let serial = {
+      let mut latest = self.latest.write().unwrap();
+      if latest.error.is_some() || latest.completed {
+        return;
+      }
+      latest.item = Some(item.clone());
+      latest.serial += 1;
+      latest.serial
+    };
+    self.subject.next((serial, item));
   }
   pub fn error(&self, err: RxError) {
-    *self.last_error.write().unwrap() = Some(err.clone());
+    {
+      let mut latest = self.latest.write().unwrap();
+      if latest.error.is_some() || latest.completed {
+        return;
+      }
+      latest.error = Some(err.clone());
+      latest.item = None;
+    }
     self.subject.error(err);
   }
   pub fn complete(&self) {
-    *self.last_item.write().unwrap() = None;
+    {
+      let mut latest = self.latest.write().unwrap();
+      if latest.error.is_some() || latest.completed {
+        return;
+      }
+      latest.completed = true;
+      latest.item = None;
+    }
     self.subject.complete();
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    let last_item = Arc::clone(&self.last_item);
-    let last_error = Arc::clone(&self.last_error);
+    let latest = Arc::clone(&self.latest);
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
-      {
-        let last_item = &*last_item.read().unwrap();
-        let last_error = &*last_error.read().unwrap();
+      let sctl = StreamController::new(s);
+      let pending = Arc::new(RwLock::new(Pending {
+        queue: VecDeque::new(),
+        since: None,
+        busy: false,
+      }));
 
-        if let Some(err) = last_error {
-          s.error(err.clone());
-          return;
-        }
-        if let Some(item) = last_item {
-          s.next(item.clone());
-        } else {
-          s.complete();
-          return;
+      // Hands over what is pending. Nothing before the latest value is known,
+      // and only one thread at a time, so nothing gets in front of it.
+      let advance = {
+        let pending = Arc::clone(&pending);
+        let sctl = sctl.clone();
+        move || {
+          while sctl.is_subscribed() {
+            let event = {
+              let mut pending = pending.write().unwrap();
+              if pending.busy || pending.since.is_none() {
+                return;
+              }
+              match pending.queue.pop_front() {
+                Some((_, event)) => {
+                  pending.busy = true;
+                  event
+                }
+                None => return,
+              }
+            };
+            match event {
+              Material::Next(x) => sctl.sink_next(x),
+              Material::Error(e) => sctl.sink_error(e),
+              Material::Complete => sctl.sink_complete_force(),
+            }
+            pending.write().unwrap().busy = false;
+          }
         }
-      }
+      };
 
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
+      let push = {
+        let pending = Arc::clone(&pending);
+        let advance = advance.clone();
+        move |serial: usize, event: Material<Item>| {
+          {
+            let mut pending = pending.write().unwrap();
+            // not what is as old as the value it was first handed
+            if pending.since.map_or(true, |since| serial > since) {
+              pending.queue.push_back((serial, event));
+            }
           }
-        });
-      }
+          advance();
+        }
+      };
 
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-      *sbsc.write().unwrap() = Some(subject.observable().subscribe(
-        move |x| s_next.next(x),
-        move |e| s_error.error(e),
-        move || {
-          s_complete.complete();
-        },
+      let push_next = push.clone();
+      let push_error = push.clone();
+      let push_complete = push;
+      subject.observable().inner_subscribe(sctl.new_observer(
+        move |_, (serial, x)| push_next(serial, Material::Next(x)),
+        move |_, e| push_error(usize::MAX, Material::Error(e)),
+        move |_| push_complete(usize::MAX, Material::Complete),
       ));
+
+      {
+        let latest = latest.read().unwrap();
+        let mut pending = pending.write().unwrap();
+        let since = latest.serial;
+        if let Some(err) = &latest.error {
+          pending.queue.clear();
+          pending.queue.push_back((since, Material::Error(err.clone())));
+        } else if let Some(item) = &latest.item {
+          pending.queue.retain(|x| x.0 > since);
+          pending.queue.push_front((since, Material::Next(item.clone())));
+        } else {
+          pending.queue.clear();
+          pending.queue.push_back((since, Material::Complete));
+        }
+        pending.since = Some(since);
+      }
+      advance();
     })
   }
 }
-- 
2.43.0


From 9df88531f43087499c4a1bd1c11c97e7d1682d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 21/27] fix: an AsyncSubject's late subscribers get the last
 item

---
 src/subjects/async_subject.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/subjects/async_subject.rs b/src/subjects/async_subject.rs
index 5c6e2c8..819cfa5 100644
--- a/src/subjects/async_subject.rs
+++ b/src/subjects/async_subject.rs
@@ -1,12 +1,14 @@
 use crate::prelude::*;
-use std::sync::Arc;
+use std::sync::{Arc, RwLock};
 
 #[derive(Clone)]
 pub struct AsyncSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
+  /// gets the last item when it is known
+  subject: Arc<replay_subject::ReplaySubject<'a, Item>>,
+  last_item: Arc<RwLock<Option<Item>>>,
 }
 
 impl<'a, Item> AsyncSubject<'a, Item>
@@ -15,21 +17,27 @@ where
 {
   pub fn new() -> AsyncSubject<'a, Item> {
     AsyncSubject {
-      subject: Arc::new(subjects::Subject::new()),
+      subject: Arc::new(subjects::ReplaySubject::new()),
+      last_item: Arc::new(RwLock::new(None)),
     }
   }
 
   pub fn next(&self, item: Item) {
-    self.subject.next(item);
+    *self.last_item.write().unwrap() = Some(item);
   }
   pub fn error(&self, err: RxError) {
+    *self.last_item.write().unwrap() = None;
     self.subject.error(err);
   }
   pub fn complete(&self) {
+    let last_item = self.last_item.write().unwrap().take();
+    if let Some(item) = last_item {
+      self.subject.next(item);
+    }
     self.subject.complete();
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    self.subject.observable().take_last(1).clone()
+    self.subject.observable()
   }
 }
 
-- 
2.43.0


From 152dfb1011aa2e421bb2b5d4c83e561ab38029c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 22/27] fix: to_vec wakes without holding its lock

---
 src/operators/to_vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/to_vec.rs b/src/operators/to_vec.rs
index 1351ea0..06f4cb2 100644
--- a/src/operators/to_vec.rs
+++ b/src/operators/to_vec.rs
@@ -34,13 +34,15 @@ where
       move |e| {
         *err_error.write().unwrap() = Some(e);
         *done_error.write().unwrap() = true;
-        if let Some(w) = waker_error.read().unwrap().clone() {
+        let w = waker_error.read().unwrap().clone();
+        if let Some(w) = w {
           w.wake();
         }
       },
       move || {
         *done_complete.write().unwrap() = true;
-        if let Some(w) = waker_complete.read().unwrap().clone() {
+        let w = waker_complete.read().unwrap().clone();
+        if let Some(w) = w {
           w.wake();
         }
       },
-- 
2.43.0


From 6b76a414bac8d0219d7d3805029d52223ab8d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:17 +0000
Subject: [PATCH 23/27] fix: timeout stops its timer when the subscription ends

---
 src/operators/timeout.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/operators/timeout.rs b/src/operators/timeout.rs
index 883a502..edec9a6 100644
--- a/src/operators/timeout.rs
+++ b/src/operators/timeout.rs
@@ -43,25 +43,30 @@ where
       let timer = Arc::new(RwLock::new(None::<Subscription<'a>>));
       let scheduler_ctor = scheduler_ctor.clone();
 
+      let stop_timer = {
+        let timer = Arc::clone(&timer);
+        move || {
+          let timer = timer.write().unwrap().take();
+          if let Some(timer) = timer {
+            timer.unsubscribe();
+          }
+        }
+      };
+      sctl.set_on_finalize(stop_timer.clone());
+
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
-            let mut timer = timer.write().unwrap();
-            if let Some(timer) = &*timer {
-              timer.unsubscribe();
-            }
-            *timer = None;
-          }
+          stop_timer();
 
           sctl_next.sink_next(x);
 
-          {
+          if sctl_next.is_subscribed() {
             let sctl = sctl_next.clone();
             let scheduler_ctor = scheduler_ctor.clone();
-            *timer.write().unwrap() = Some(
+            let new_timer =
               observables::interval(dur, move || scheduler_ctor.call(()))
                 .take(1)
                 .subscribe(
@@ -72,8 +77,15 @@ where
                   },
                   junk_error!(),
                   junk_complete!(),
-                ),
-            );
+                );
+            let old_timer = timer.write().unwrap().replace(new_timer);
+            if let Some(old_timer) = old_timer {
+              old_timer.unsubscribe();
+            }
+            if !sctl_next.is_subscribed() {
+              // ended meanwhile
+              stop_timer();
+            }
           }
         },
         move |_, e| {
-- 
2.43.0


From 622debb73f882cbb512c8f9bae76224e65430cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:57 +0000
Subject: [PATCH 24/27] fix: take completes only after the items it let through
 were handed over

---
 src/operators/take.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/operators/take.rs b/src/operators/take.rs
index 5323ee7..1add507 100644
--- a/src/operators/take.rs
+++ b/src/operators/take.rs
@@ -29,7 +29,8 @@ where
         s.complete();
         return;
       }
-      let n = Arc::new(RwLock::new(0));
+      // (items let through, items handed over)
+      let n = Arc::new(RwLock::new((0, 0)));
 
       let sctl = StreamController::new(s);
       let sctl_next = sctl.clone();
@@ -38,15 +39,25 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |serial, x| {
-          let (emit, complete) = {
+          let emit = {
             let mut n = n.write().unwrap();
-            let nn = *n;
-            *n += 1;
-            (nn < count, (nn + 1) >= count)
+            let emit = n.0 < count;
+            if emit {
+              n.0 += 1;
+            }
+            emit
           };
-          if emit {
-            sctl_next.sink_next(x);
+          if !emit {
+            return;
           }
+          sctl_next.sink_next(x);
+
+          // another thread may still be handing over one of the items
+          let complete = {
+            let mut n = n.write().unwrap();
+            n.1 += 1;
+            n.1 == count
+          };
           if complete {
             sctl_next.upstream_abort_observe(&serial);
             sctl_next.sink_complete(&serial);
-- 
2.43.0


From 47db03c8a6fb9b3ff73f3732cfc6d57585a0a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 25/27] fix: a concurrent teardown must not take away the
 terminal being delivered

---
 src/observer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/observer.rs b/src/observer.rs
index 7493371..769395a 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -51,9 +51,11 @@ where
     }
   }
   pub fn unsubscribe(&self) {
-    self.fn_next.clear();
-    self.fn_error.clear();
-    self.fn_complete.clear();
+    // whoever emptied the next slot to deliver a terminal still needs the others
+    if self.fn_next.clear() {
+      self.fn_error.clear();
+      self.fn_complete.clear();
+    }
     self.call_on_unsubscribe();
   }
   pub fn is_subscribed(&self) -> bool {
-- 
2.43.0


From 4f36fd4266526dc96f29dd5c5585fda66f0a83c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:43 +0000
Subject: [PATCH 26/27] fix: a second unsubscribe must not return before a
 concurrent first one has stopped delivery

---
 src/subscription.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/subscription.rs b/src/subscription.rs
index e9691ce..cfe01be 100644
--- a/src/subscription.rs
+++ b/src/subscription.rs
@@ -18,7 +18,9 @@ impl<'a> Subscription<'a> {
     }
   }
   pub fn unsubscribe(&self) {
-    self.fn_unsubscribe.call_and_clear_if_available(());
+    // cleared after the call: a concurrent call must not return before it
+    self.fn_unsubscribe.call_if_available(());
+    self.fn_unsubscribe.clear();
   }
   pub fn is_subscribed(&self) -> bool {
     if let Some(x) = self.fn_is_subscribed.call_if_available(()) {
-- 
2.43.0


From 20115a43a67b3537e2fcfc8af959391505238bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:16 +0000
Subject: [PATCH 27/27] fix: scan and reduce called the user's function with
 their lock held

A function that pushes into the subject it is being called from waited on
its own thread's lock forever.
---
 src/internals.rs             |  1 +
 src/internals/accumulator.rs | 77 ++++++++++++++++++++++++++++++++++++
 src/operators/reduce.rs      | 17 +++-----
 src/operators/scan.rs        | 22 +++--------
 4 files changed, 88 insertions(+), 29 deletions(-)
 create mode 100644 src/internals/accumulator.rs

diff --git a/src/internals.rs b/src/internals.rs
index a362391..9f52821 100644
--- a/src/internals.rs
+++ b/src/internals.rs
@@ -1,2 +1,3 @@
+pub mod accumulator;
 pub mod function_wrapper;
 pub mod stream_controller;
diff --git a/src/internals/accumulator.rs b/src/internals/accumulator.rs
new file mode 100644
index 0000000..3bc8c87
--- /dev/null
+++ b/src/internals/accumulator.rs
@@ -0,0 +1,77 @@
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
+
+use super::function_wrapper::FunctionWrapper;
+
+struct State<Item> {
+  result: Option<Item>,
+  pending: VecDeque<Item>,
+  busy: bool,
+}
+
+/// Accumulates items one by one, never calling the function with its lock
+/// held: an item that arrives while the function runs (the function itself
+/// emitted it, or another thread did) is queued, and accumulated next.
+#[derive(Clone)]
+pub struct Accumulator<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  f: FunctionWrapper<'a, (Item, Item), Item>,
+  state: Arc<RwLock<State<Item>>>,
+}
+
+impl<'a, Item> Accumulator<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  pub fn new(
+    f: FunctionWrapper<'a, (Item, Item), Item>,
+  ) -> Accumulator<'a, Item> {
+    Accumulator {
+      f,
+      state: Arc::new(RwLock::new(State {
+        result: None,
+        pending: VecDeque::new(),
+        busy: false,
+      })),
+    }
+  }
+
+  /// Accumulates the item and returns the results to be emitted.
+  pub fn push(&self, x: Item) -> Vec<Item> {
+    {
+      let mut state = self.state.write().unwrap();
+      state.pending.push_back(x);
+      if state.busy {
+        return Vec::new();
+      }
+      state.busy = true;
+    }
+    let mut results = Vec::new();
+    loop {
+      let (result, x) = {
+        let mut state = self.state.write().unwrap();
+        match state.pending.pop_front() {
+          Some(x) => (state.result.clone(), x),
+          None => {
+            state.busy = false;
+            return results;
+          }
+        }
+      };
+      let result = match result {
+        Some(result) => self.f.call((result, x)),
+        None => x,
+      };
+      self.state.write().unwrap().result = Some(result.clone());
+      results.push(result);
+    }
+  }
+
+  pub fn result(&self) -> Option<Item> {
+    self.state.read().unwrap().result.clone()
+  }
+}
diff --git a/src/operators/reduce.rs b/src/operators/reduce.rs
index e8eafbe..3149eef 100644
--- a/src/operators/reduce.rs
+++ b/src/operators/reduce.rs
@@ -1,6 +1,5 @@
-use crate::internals::{function_wrapper::*, stream_controller::*};
+use crate::internals::{accumulator::*, function_wrapper::*, stream_controller::*};
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
 
 #[derive(Clone)]
 pub struct Reduce<'a, Item>
@@ -24,29 +23,23 @@ where
     let f = self.reduce_f.clone();
 
     Observable::<Item>::create(move |s| {
-      let f = f.clone();
-      let result = Arc::new(RwLock::new(None::<Item>));
+      let accumulator = Accumulator::new(f.clone());
 
       let sctl = StreamController::new(s);
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let result_next = Arc::clone(&result);
+      let accumulator_next = accumulator.clone();
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let mut r = result_next.write().unwrap();
-          if let Some(xx) = &*r {
-            *r = Some(f.call((xx.clone(), x)));
-          } else {
-            *r = Some(x);
-          }
+          accumulator_next.push(x);
         },
         move |_, e| {
           sctl_error.sink_error(e);
         },
         move |serial| {
-          let x = result.read().unwrap().clone();
+          let x = accumulator.result();
           if let Some(x) = x {
             sctl_complete.sink_next(x);
           }
diff --git a/src/operators/scan.rs b/src/operators/scan.rs
index f812e13..82e4450 100644
--- a/src/operators/scan.rs
+++ b/src/operators/scan.rs
@@ -1,6 +1,5 @@
-use crate::internals::{function_wrapper::*, stream_controller::*};
+use crate::internals::{accumulator::*, function_wrapper::*, stream_controller::*};
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
 
 #[derive(Clone)]
 pub struct Scan<'a, Item>
@@ -24,29 +23,18 @@ where
     let f = self.reduce_f.clone();
 
     Observable::<Item>::create(move |s| {
-      let f = f.clone();
-      let result = Arc::new(RwLock::new(None::<Item>));
+      let accumulator = Accumulator::new(f.clone());
 
       let sctl = StreamController::new(s);
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let result_next = Arc::clone(&result);
-
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let x = {
-            let mut r = result_next.write().unwrap();
-            let x = if let Some(xx) = &*r {
-              f.call((xx.clone(), x))
-            } else {
-              x
-            };
-            *r = Some(x.clone());
-            x
-          };
-          sctl_next.sink_next(x);
+          for x in accumulator.push(x) {
+            sctl_next.sink_next(x);
+          }
         },
         move |_, e| {
           sctl_error.sink_error(e);
-- 
2.43.0

