From 3c1e03215c4f53c41dc189005ecaab9950f8ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:29 +0000
Subject: [PATCH] fix: do not let a concurrent first detection overwrite
 force() or unforce()

Thread 1 uses the crate for the first time: it reads WORKS == 0 and enters
INIT.call_once(initialize). Before initialize stores its result, thread 2
calls fallback::force(), which stores 1 and returns. Thread 1 then stores the
detected value, so the fallback is no longer forced although nothing called
unforce(). The same happens to the outcome of a concurrent unforce().

Store the outcome of the first detection only if nothing was stored meanwhile.
---
 src/detection.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/detection.rs b/src/detection.rs
index beba7b2..d9aa9e4 100644
--- a/src/detection.rs
+++ b/src/detection.rs
@@ -11,7 +11,13 @@ pub(crate) fn inside_proc_macro() -> bool {
         _ => {}
     }
 
-    INIT.call_once(initialize);
+    INIT.call_once(|| {
+        initialize(|works| {
+            // Do not overwrite the outcome of a force or unforce that happened
+            // on a different thread in the meantime.
+            let _ = WORKS.compare_exchange(0, works, Ordering::Relaxed, Ordering::Relaxed);
+        });
+    });
     inside_proc_macro()
 }
 
@@ -20,13 +26,13 @@ pub(crate) fn force_fallback() {
 }
 
 pub(crate) fn unforce_fallback() {
-    initialize();
+    initialize(|works| WORKS.store(works, Ordering::Relaxed));
 }
 
 #[cfg(not(no_is_available))]
-fn initialize() {
+fn initialize(store: fn(usize)) {
     let available = proc_macro::is_available();
-    WORKS.store(available as usize + 1, Ordering::Relaxed);
+    store(available as usize + 1);
 }
 
 // Swap in a null panic hook to avoid printing "thread panicked" to stderr,
@@ -54,7 +60,7 @@ fn initialize() {
 // not occur, they need to call e.g. `proc_macro2::Span::call_site()` from
 // the main thread before launching any other threads.
 #[cfg(no_is_available)]
-fn initialize() {
+fn initialize(store: fn(usize)) {
     use std::panic::{self, PanicInfo};
 
     type PanicHook = dyn Fn(&PanicInfo) + Sync + Send + 'static;
@@ -65,7 +71,7 @@ fn initialize() {
     panic::set_hook(null_hook);
 
     let works = panic::catch_unwind(proc_macro::Span::call_site).is_ok();
-    WORKS.store(works as usize + 1, Ordering::Relaxed);
+    store(works as usize + 1);
 
     let hopefully_null_hook = panic::take_hook();
     panic::set_hook(original_hook);
-- 
2.43.0

