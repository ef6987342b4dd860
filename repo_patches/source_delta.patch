From 14a62407bcb254863135a2f74fcd6322a0fdcd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:07 +0000
Subject: [PATCH 01/49] hook: route the map's atomics, mutex and yield through
 a shim that a simulator can observe (cfg goko_sim)

---
 goko/src/lib.rs           |   4 +
 goko/src/monomap/mod.rs   |   5 +-
 goko/src/monomap/read.rs  |  10 +-
 goko/src/monomap/sync.rs  | 292 ++++++++++++++++++++++++++++++++++++++
 goko/src/monomap/write.rs |   6 +-
 5 files changed, 308 insertions(+), 9 deletions(-)
 create mode 100644 goko/src/monomap/sync.rs

diff --git a/goko/src/lib.rs b/goko/src/lib.rs
index de63f6f..000dae0 100644
--- a/goko/src/lib.rs
+++ b/goko/src/lib.rs
@@ -63,7 +63,11 @@ use pointcloud::*;
 pub mod errors;
 pub use errors::GokoResult;
 
+#[cfg(not(goko_sim))]
 pub(crate) mod monomap;
+/// Exposed to the simulator, see `monomap::sync`.
+#[cfg(goko_sim)]
+pub mod monomap;
 
 mod covertree;
 pub use covertree::*;
diff --git a/goko/src/monomap/mod.rs b/goko/src/monomap/mod.rs
index 23acc51..5a32abb 100644
--- a/goko/src/monomap/mod.rs
+++ b/goko/src/monomap/mod.rs
@@ -25,7 +25,10 @@
 //! concurrency with updates rather than memory efficency. Ideally if your type has any large vectors you'd partner
 //! this with a multimap to store the vector, and keep the complex logic on this structure.
 
-use std::sync::{atomic, Arc, Mutex};
+pub mod sync;
+
+use self::sync::{atomic, Mutex};
+use std::sync::Arc;
 
 mod inner;
 
diff --git a/goko/src/monomap/read.rs b/goko/src/monomap/read.rs
index 33c5fc5..0208481 100644
--- a/goko/src/monomap/read.rs
+++ b/goko/src/monomap/read.rs
@@ -8,8 +8,8 @@ use std::hash::{BuildHasher, Hash};
 use std::iter::{self, FromIterator};
 use std::marker::PhantomData;
 use std::mem;
-use std::sync::atomic;
-use std::sync::atomic::AtomicPtr;
+use super::sync::atomic;
+use super::sync::atomic::AtomicPtr;
 use std::sync::{self, Arc};
 
 /// A handle that may be used to read from the eventually consistent map.
@@ -24,8 +24,8 @@ where
 {
     pub(crate) inner: sync::Arc<AtomicPtr<Inner<K, V, M, S>>>,
     pub(crate) epochs: crate::monomap::Epochs,
-    epoch: sync::Arc<sync::atomic::AtomicUsize>,
-    my_epoch: sync::atomic::AtomicUsize,
+    epoch: sync::Arc<atomic::AtomicUsize>,
+    my_epoch: atomic::AtomicUsize,
 
     // Since a `MonoReadHandle` keeps track of its own epoch, it is not safe for multiple threads to
     // call `with_handle` at the same time. We *could* keep it `Sync` and make `with_handle`
@@ -180,7 +180,7 @@ where
         let r_handle = self.inner.load(atomic::Ordering::Acquire);
 
         // add a guard to ensure we restore read parity even if we panic
-        struct RestoreParity<'a>(&'a sync::Arc<sync::atomic::AtomicUsize>, usize);
+        struct RestoreParity<'a>(&'a sync::Arc<atomic::AtomicUsize>, usize);
         impl<'a> Drop for RestoreParity<'a> {
             fn drop(&mut self) {
                 self.0.store(
diff --git a/goko/src/monomap/sync.rs b/goko/src/monomap/sync.rs
new file mode 100644
index 0000000..4de5a3c
--- /dev/null
+++ b/goko/src/monomap/sync.rs
@@ -0,0 +1,292 @@
+//! The synchronization primitives this map is built on.
+//!
+//! Normally these are exactly the `std` ones. With `--cfg goko_sim` they call out to a registered
+//! simulator before each operation, so that a deterministic scheduler can interleave threads there
+//! and choose what a load may observe.
+
+#[cfg(not(goko_sim))]
+pub(crate) use std::{
+    sync::{atomic, Mutex, MutexGuard},
+    thread,
+};
+
+#[cfg(goko_sim)]
+pub use self::sim::*;
+
+#[cfg(goko_sim)]
+#[allow(missing_docs)]
+mod sim {
+    use std::ops::{Deref, DerefMut};
+    use std::sync::atomic as real;
+    use std::sync::{LockResult, PoisonError};
+
+    /// What a simulator has to provide. `id` names the location or lock, `latest` is the value last written.
+    pub trait SimHooks: Sync {
+        fn load(&self, id: usize, latest: usize, order: real::Ordering) -> usize;
+        fn store(&self, id: usize, latest: usize, value: usize, order: real::Ordering);
+        fn rmw(&self, id: usize, latest: usize, value: usize, order: real::Ordering);
+        fn fence(&self, order: real::Ordering);
+        /// Called before every operation.
+        fn step(&self, what: &'static str);
+        fn locked(&self, id: usize);
+        fn unlocking(&self, id: usize);
+        fn yield_now(&self);
+    }
+
+    static HOOKS: real::AtomicPtr<&'static dyn SimHooks> =
+        real::AtomicPtr::new(std::ptr::null_mut());
+    static NEXT_ID: real::AtomicUsize = real::AtomicUsize::new(1);
+
+    /// Registers the simulator, for the life of the process.
+    pub fn set_hooks(hooks: &'static dyn SimHooks) {
+        HOOKS.store(
+            Box::into_raw(Box::new(hooks)),
+            real::Ordering::SeqCst,
+        );
+    }
+
+    fn hooks() -> Option<&'static dyn SimHooks> {
+        unsafe { HOOKS.load(real::Ordering::SeqCst).as_ref().copied() }
+    }
+
+    fn next_id() -> usize {
+        NEXT_ID.fetch_add(1, real::Ordering::SeqCst)
+    }
+
+    #[derive(Debug)]
+    struct Location {
+        id: usize,
+        value: real::AtomicUsize,
+    }
+
+    impl Location {
+        fn new(value: usize) -> Self {
+            Location {
+                id: next_id(),
+                value: real::AtomicUsize::new(value),
+            }
+        }
+        fn load(&self, order: real::Ordering) -> usize {
+            match hooks() {
+                Some(h) => {
+                    h.step("load");
+                    h.load(self.id, self.value.load(real::Ordering::SeqCst), order)
+                }
+                None => self.value.load(order),
+            }
+        }
+        fn store(&self, value: usize, order: real::Ordering) {
+            if let Some(h) = hooks() {
+                h.step("store");
+                let latest = self.value.load(real::Ordering::SeqCst);
+                h.store(self.id, latest, value, order);
+            }
+            self.value.store(value, real::Ordering::SeqCst);
+        }
+        fn rmw<F: FnOnce(usize) -> Option<usize>>(&self, order: real::Ordering, f: F) -> usize {
+            if let Some(h) = hooks() {
+                h.step("rmw");
+                let latest = self.value.load(real::Ordering::SeqCst);
+                if let Some(value) = f(latest) {
+                    h.rmw(self.id, latest, value, order);
+                    self.value.store(value, real::Ordering::SeqCst);
+                } else {
+                    h.load(self.id, latest, order);
+                }
+                latest
+            } else {
+                let mut latest = self.value.load(real::Ordering::SeqCst);
+                if let Some(value) = f(latest) {
+                    latest = self.value.swap(value, real::Ordering::SeqCst);
+                }
+                latest
+            }
+        }
+    }
+
+    pub mod atomic {
+        use super::Location;
+        pub use std::sync::atomic::Ordering;
+        use std::marker::PhantomData;
+
+        #[derive(Debug)]
+        pub struct AtomicUsize(Location);
+
+        impl AtomicUsize {
+            pub fn new(value: usize) -> Self {
+                AtomicUsize(Location::new(value))
+            }
+            pub fn load(&self, order: Ordering) -> usize {
+                self.0.load(order)
+            }
+            pub fn store(&self, value: usize, order: Ordering) {
+                self.0.store(value, order)
+            }
+            pub fn swap(&self, value: usize, order: Ordering) -> usize {
+                self.0.rmw(order, |_| Some(value))
+            }
+            pub fn fetch_add(&self, value: usize, order: Ordering) -> usize {
+                self.0.rmw(order, |v| Some(v.wrapping_add(value)))
+            }
+            pub fn fetch_sub(&self, value: usize, order: Ordering) -> usize {
+                self.0.rmw(order, |v| Some(v.wrapping_sub(value)))
+            }
+            pub fn fetch_or(&self, value: usize, order: Ordering) -> usize {
+                self.0.rmw(order, |v| Some(v | value))
+            }
+            pub fn fetch_and(&self, value: usize, order: Ordering) -> usize {
+                self.0.rmw(order, |v| Some(v & value))
+            }
+            pub fn fetch_xor(&self, value: usize, order: Ordering) -> usize {
+                self.0.rmw(order, |v| Some(v ^ value))
+            }
+            pub fn compare_exchange(
+                &self,
+                current: usize,
+                new: usize,
+                success: Ordering,
+                _failure: Ordering,
+            ) -> Result<usize, usize> {
+                let old = self
+                    .0
+                    .rmw(success, |v| if v == current { Some(new) } else { None });
+                if old == current {
+                    Ok(old)
+                } else {
+                    Err(old)
+                }
+            }
+        }
+
+        impl Default for AtomicUsize {
+            fn default() -> Self {
+                AtomicUsize::new(0)
+            }
+        }
+
+        #[derive(Debug)]
+        pub struct AtomicPtr<T>(Location, PhantomData<*mut T>);
+
+        unsafe impl<T> Send for AtomicPtr<T> {}
+        unsafe impl<T> Sync for AtomicPtr<T> {}
+
+        impl<T> AtomicPtr<T> {
+            pub fn new(value: *mut T) -> Self {
+                AtomicPtr(Location::new(value as usize), PhantomData)
+            }
+            pub fn load(&self, order: Ordering) -> *mut T {
+                self.0.load(order) as *mut T
+            }
+            pub fn store(&self, value: *mut T, order: Ordering) {
+                self.0.store(value as usize, order)
+            }
+            pub fn swap(&self, value: *mut T, order: Ordering) -> *mut T {
+                self.0.rmw(order, |_| Some(value as usize)) as *mut T
+            }
+            pub fn compare_exchange(
+                &self,
+                current: *mut T,
+                new: *mut T,
+                success: Ordering,
+                _failure: Ordering,
+            ) -> Result<*mut T, *mut T> {
+                let old = self.0.rmw(success, |v| {
+                    if v == current as usize {
+                        Some(new as usize)
+                    } else {
+                        None
+                    }
+                }) as *mut T;
+                if old == current {
+                    Ok(old)
+                } else {
+                    Err(old)
+                }
+            }
+        }
+
+        pub fn fence(order: Ordering) {
+            match super::hooks() {
+                Some(h) => {
+                    h.step("fence");
+                    h.fence(order);
+                }
+                None => std::sync::atomic::fence(order),
+            }
+        }
+    }
+
+    pub mod thread {
+        pub use std::thread::*;
+        pub fn yield_now() {
+            match super::hooks() {
+                Some(h) => h.yield_now(),
+                None => std::thread::yield_now(),
+            }
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct Mutex<T> {
+        id: usize,
+        inner: std::sync::Mutex<T>,
+    }
+
+    impl<T: Default> Default for Mutex<T> {
+        fn default() -> Self {
+            Mutex::new(T::default())
+        }
+    }
+
+    impl<T> Mutex<T> {
+        pub fn new(value: T) -> Self {
+            Mutex {
+                id: next_id(),
+                inner: std::sync::Mutex::new(value),
+            }
+        }
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            if let Some(h) = hooks() {
+                h.step("lock");
+            }
+            let res = self.inner.lock();
+            if let Some(h) = hooks() {
+                h.locked(self.id);
+            }
+            match res {
+                Ok(inner) => Ok(MutexGuard { id: self.id, inner }),
+                Err(e) => Err(PoisonError::new(MutexGuard {
+                    id: self.id,
+                    inner: e.into_inner(),
+                })),
+            }
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct MutexGuard<'a, T> {
+        id: usize,
+        inner: std::sync::MutexGuard<'a, T>,
+    }
+
+    impl<'a, T> Deref for MutexGuard<'a, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            &self.inner
+        }
+    }
+
+    impl<'a, T> DerefMut for MutexGuard<'a, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            &mut self.inner
+        }
+    }
+
+    impl<'a, T> Drop for MutexGuard<'a, T> {
+        fn drop(&mut self) {
+            if let Some(h) = hooks() {
+                h.unlocking(self.id);
+            }
+        }
+    }
+}
diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index b67abac..fe5851a 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -4,9 +4,9 @@ use crate::monomap::read::MonoReadHandle;
 
 use fxhash::FxBuildHasher;
 use std::hash::{BuildHasher, Hash};
-use std::sync::atomic;
-use std::sync::{Arc, MutexGuard};
-use std::{mem, thread};
+use super::sync::{atomic, thread, MutexGuard};
+use std::mem;
+use std::sync::Arc;
 
 pub struct MonoWriteHandle<K, V, M = (), S = FxBuildHasher>
 where
-- 
2.43.0


From 0eb05f78b6d0e1347bcde9b137a8a26447871bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:17 +0000
Subject: [PATCH 02/49] fix: dropping a map's writer waits for readers that
 were idle at the last refresh

Drop waited with the epochs recorded by the last refresh. A reader that was idle then is skipped by
wait(), so a read that began after that refresh could still be using the map when Drop freed it.
---
 goko/src/monomap/write.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index fe5851a..7a88464 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -77,14 +77,22 @@ where
             .inner
             .swap(ptr::null_mut(), atomic::Ordering::Release);
 
-        // now, wait for all readers to depart
         let epochs = Arc::clone(&self.epochs);
         let mut epochs = epochs.lock().unwrap();
-        self.wait(&mut epochs);
 
         // ensure that the subsequent epoch reads aren't re-ordered to before the swap
         atomic::fence(atomic::Ordering::SeqCst);
 
+        // note which readers are active now: they may still use either map, even if they were
+        // idle when the last refresh looked
+        self.last_epochs.resize(epochs.len(), 0);
+        for (i, epoch) in epochs.iter().enumerate() {
+            self.last_epochs[i] = epoch.load(atomic::Ordering::Acquire);
+        }
+
+        // now, wait for all readers to depart
+        self.wait(&mut epochs);
+
         let w_handle = &mut self.w_handle.as_mut().unwrap().data;
 
         #[cfg(not(feature = "indexed"))]
-- 
2.43.0


From 8c2e0d2dac624b3beb252f78d02e7f6aa586a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:17 +0000
Subject: [PATCH 03/49] fix: a read from within a read on the same map handle
 no longer ends the outer read's protection

The inner read's exit marked the handle idle, so the writer could modify or free what the outer
read was still looking at.
---
 goko/src/monomap/read.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/goko/src/monomap/read.rs b/goko/src/monomap/read.rs
index 0208481..62cb0ed 100644
--- a/goko/src/monomap/read.rs
+++ b/goko/src/monomap/read.rs
@@ -26,6 +26,8 @@ where
     pub(crate) epochs: crate::monomap::Epochs,
     epoch: sync::Arc<atomic::AtomicUsize>,
     my_epoch: atomic::AtomicUsize,
+    // How many reads are in progress on this handle: a closure may read through the same handle.
+    enters: cell::Cell<usize>,
 
     // Since a `MonoReadHandle` keeps track of its own epoch, it is not safe for multiple threads to
     // call `with_handle` at the same time. We *could* keep it `Sync` and make `with_handle`
@@ -117,6 +119,7 @@ where
             epochs,
             epoch,
             my_epoch: atomic::AtomicUsize::new(0),
+            enters: cell::Cell::new(0),
             inner,
             _not_sync_no_feature: PhantomData,
         }
@@ -169,9 +172,15 @@ where
         //
         // in all cases, using a pointer we read *after* updating our epoch is safe.
 
-        // so, update our epoch tracker.
-        let epoch = self.my_epoch.fetch_add(1, atomic::Ordering::Relaxed);
-        self.epoch.store(epoch + 1, atomic::Ordering::Release);
+        // a read from within a read on the same handle is already covered by the outer read's
+        // epoch, which must stay as it is until the outer read is done.
+        let enters = self.enters.get();
+        if enters == 0 {
+            // so, update our epoch tracker.
+            let epoch = self.my_epoch.fetch_add(1, atomic::Ordering::Relaxed);
+            self.epoch.store(epoch + 1, atomic::Ordering::Release);
+        }
+        self.enters.set(enters + 1);
 
         // ensure that the pointer read happens strictly after updating the epoch
         atomic::fence(atomic::Ordering::SeqCst);
@@ -180,16 +189,29 @@ where
         let r_handle = self.inner.load(atomic::Ordering::Acquire);
 
         // add a guard to ensure we restore read parity even if we panic
-        struct RestoreParity<'a>(&'a sync::Arc<atomic::AtomicUsize>, usize);
+        struct RestoreParity<'a> {
+            epoch: &'a sync::Arc<atomic::AtomicUsize>,
+            my_epoch: &'a atomic::AtomicUsize,
+            enters: &'a cell::Cell<usize>,
+        }
         impl<'a> Drop for RestoreParity<'a> {
             fn drop(&mut self) {
-                self.0.store(
-                    (self.1 + 1) | 1usize << (mem::size_of::<usize>() * 8 - 1),
-                    atomic::Ordering::Release,
-                );
+                let enters = self.enters.get() - 1;
+                self.enters.set(enters);
+                if enters == 0 {
+                    self.epoch.store(
+                        self.my_epoch.load(atomic::Ordering::Relaxed)
+                            | 1usize << (mem::size_of::<usize>() * 8 - 1),
+                        atomic::Ordering::Release,
+                    );
+                }
             }
         }
-        let _guard = RestoreParity(&self.epoch, epoch);
+        let _guard = RestoreParity {
+            epoch: &self.epoch,
+            my_epoch: &self.my_epoch,
+            enters: &self.enters,
+        };
 
         // and finally, call the provided handler function
         unsafe { r_handle.as_ref().map(f) }
-- 
2.43.0


From 587853135554cf38bde506f8f13feb779becad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:43 +0000
Subject: [PATCH 04/49] hook: fuller interface of the simulated atomics and
 mutex (cfg goko_sim)

---
 goko/src/monomap/sync.rs | 69 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/goko/src/monomap/sync.rs b/goko/src/monomap/sync.rs
index 4de5a3c..7fbb57f 100644
--- a/goko/src/monomap/sync.rs
+++ b/goko/src/monomap/sync.rs
@@ -106,7 +106,7 @@ mod sim {
 
     pub mod atomic {
         use super::Location;
-        pub use std::sync::atomic::Ordering;
+        pub use std::sync::atomic::{compiler_fence, AtomicBool, AtomicU64, Ordering};
         use std::marker::PhantomData;
 
         #[derive(Debug)]
@@ -140,6 +140,39 @@ mod sim {
             pub fn fetch_xor(&self, value: usize, order: Ordering) -> usize {
                 self.0.rmw(order, |v| Some(v ^ value))
             }
+            pub fn fetch_max(&self, value: usize, order: Ordering) -> usize {
+                self.0.rmw(order, |v| Some(v.max(value)))
+            }
+            pub fn fetch_min(&self, value: usize, order: Ordering) -> usize {
+                self.0.rmw(order, |v| Some(v.min(value)))
+            }
+            pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(
+                &self,
+                set_order: Ordering,
+                _fetch_order: Ordering,
+                mut f: F,
+            ) -> Result<usize, usize> {
+                let mut done = false;
+                let old = self.0.rmw(set_order, |v| {
+                    let new = f(v);
+                    done = new.is_some();
+                    new
+                });
+                if done {
+                    Ok(old)
+                } else {
+                    Err(old)
+                }
+            }
+            pub fn compare_exchange_weak(
+                &self,
+                current: usize,
+                new: usize,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<usize, usize> {
+                self.compare_exchange(current, new, success, failure)
+            }
             pub fn compare_exchange(
                 &self,
                 current: usize,
@@ -183,6 +216,15 @@ mod sim {
             pub fn swap(&self, value: *mut T, order: Ordering) -> *mut T {
                 self.0.rmw(order, |_| Some(value as usize)) as *mut T
             }
+            pub fn compare_exchange_weak(
+                &self,
+                current: *mut T,
+                new: *mut T,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<*mut T, *mut T> {
+                self.compare_exchange(current, new, success, failure)
+            }
             pub fn compare_exchange(
                 &self,
                 current: *mut T,
@@ -263,6 +305,31 @@ mod sim {
         }
     }
 
+    impl<T> Mutex<T> {
+        pub fn try_lock(&self) -> std::sync::TryLockResult<MutexGuard<'_, T>> {
+            if let Some(h) = hooks() {
+                h.step("try_lock");
+            }
+            match self.inner.try_lock() {
+                Ok(inner) => {
+                    if let Some(h) = hooks() {
+                        h.locked(self.id);
+                    }
+                    Ok(MutexGuard { id: self.id, inner })
+                }
+                Err(std::sync::TryLockError::WouldBlock) => {
+                    Err(std::sync::TryLockError::WouldBlock)
+                }
+                Err(std::sync::TryLockError::Poisoned(e)) => Err(
+                    std::sync::TryLockError::Poisoned(PoisonError::new(MutexGuard {
+                        id: self.id,
+                        inner: e.into_inner(),
+                    })),
+                ),
+            }
+        }
+    }
+
     #[derive(Debug)]
     pub struct MutexGuard<'a, T> {
         id: usize,
-- 
2.43.0


From f161a2a973e81b9af02033b2152f8d9477be4a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:04 +0000
Subject: [PATCH 05/49] fix: a point cloud error during a build is returned to
 the caller instead of panicking

---
 goko/src/covertree/builders.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 5dd3945..c578929 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -82,12 +82,16 @@ impl BuilderNode {
             let (si, pi) = self.address();
             match self.split(&parameters) {
                 Ok((new_node, mut new_nodes)) => {
-                    node_sender.send(Ok((si, pi, new_node))).unwrap();
-                    while let Some(node) = new_nodes.pop() {
-                        node.split_parallel(&parameters, &node_sender);
+                    // Nobody is listening once another node has failed and the build was given up.
+                    if node_sender.send(Ok((si, pi, new_node))).is_ok() {
+                        while let Some(node) = new_nodes.pop() {
+                            node.split_parallel(&parameters, &node_sender);
+                        }
                     }
                 }
-                Err(e) => node_sender.send(Err(e)).unwrap(),
+                Err(e) => {
+                    let _ = node_sender.send(Err(e));
+                }
             };
         });
     }
@@ -430,7 +434,7 @@ impl CoverTreeBuilder {
         let now = Instant::now();
         loop {
             if let Ok(res) = node_receiver.recv() {
-                let (scale_index, point_index, new_node) = res.unwrap();
+                let (scale_index, point_index, new_node) = res?;
                 for singleton in new_node.singletons() {
                     cover_tree
                         .final_addresses
-- 
2.43.0


From 974d85d75df328bbcc1bbe5026b4434d16984f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:04 +0000
Subject: [PATCH 06/49] fix: the builder takes its seed from the
 configuration's rng_seed, not from its verbosity

---
 goko/src/covertree/builders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index c578929..f188acf 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -349,7 +349,7 @@ impl CoverTreeBuilder {
             use_singletons: params["use_singletons"].as_bool().unwrap_or(true),
             partition_type,
             verbosity: params["verbosity"].as_i64().unwrap_or(2) as u32,
-            rng_seed: params["verbosity"].as_i64().map(|i| i as u64),
+            rng_seed: params["rng_seed"].as_i64().map(|i| i as u64),
         }
     }
 
-- 
2.43.0


From 59bb647db0016f64ad04620b163d2c6ddab93b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 07/49] fix: building on an empty cloud is an error, and
 tightly packed or single points build a valid tree

---
 goko/src/covertree/builders.rs    | 11 ++++++++---
 goko/src/covertree/data_caches.rs | 11 +++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index f188acf..1ed42ed 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -58,7 +58,11 @@ impl BuilderNode {
                 CoveredData::FirstCoveredData(FirstCoveredData::new::<D>(&parameters.point_cloud)?)
             }
         };
-        let scale_index = (covered.max_distance()).log(parameters.scale_base).ceil() as i32;
+        // Data closer together than the lowest layer's scale still needs a layer to be on.
+        let scale_index = max(
+            (covered.max_distance()).log(parameters.scale_base).ceil() as i32,
+            parameters.min_res_index - 1,
+        );
         Ok(BuilderNode {
             parent_address: None,
             scale_index,
@@ -104,7 +108,8 @@ impl BuilderNode {
         let current_address = (scale_index, self.covered.center_index());
         let mut node = CoverNode::new(self.parent_address, current_address);
         let radius = self.covered.max_distance();
-        node.set_radius(radius);
+        // A node that covers nothing but its center has no largest distance.
+        node.set_radius(radius.max(0.0));
         /* Occasionally there's a small cluster split off of at a low min_res_index.
         This brings the scale-index down/min_res_index up quickly, locally.
         */
@@ -402,7 +407,7 @@ impl CoverTreeBuilder {
         let root = BuilderNode::new(&parameters, self.partition_type)?;
         let root_address = root.address();
         let scale_range = root_address.0 - parameters.min_res_index;
-        let mut layers = Vec::with_capacity(scale_range as usize);
+        let mut layers = Vec::with_capacity((scale_range + 2) as usize);
         layers.push(CoverLayerWriter::new(parameters.min_res_index - 1));
         for i in 0..(scale_range + 1) {
             layers.push(CoverLayerWriter::new(parameters.min_res_index + i as i32));
diff --git a/goko/src/covertree/data_caches.rs b/goko/src/covertree/data_caches.rs
index 2232480..159bdb3 100644
--- a/goko/src/covertree/data_caches.rs
+++ b/goko/src/covertree/data_caches.rs
@@ -127,10 +127,17 @@ fn find_split(dist_indexes: &[(f32, usize)], thresh: f32) -> usize {
     smaller
 }
 
+fn empty_cloud() -> pc_errors::PointCloudError {
+    pc_errors::PointCloudError::DataAccessError {
+        index: 0,
+        reason: "there are no points to build a tree on".to_string(),
+    }
+}
+
 impl FirstCoveredData {
     pub(crate) fn new<D: PointCloud>(point_cloud: &Arc<D>) -> GokoResult<FirstCoveredData> {
         let mut coverage = point_cloud.reference_indexes();
-        let center_index = coverage.pop().unwrap();
+        let center_index = coverage.pop().ok_or_else(empty_cloud)?;
         let dists = point_cloud.distances_to_point_index(center_index, &coverage)?;
         Ok(FirstCoveredData {
             dists,
@@ -188,7 +195,7 @@ pub(crate) struct NearestCoveredData {
 impl NearestCoveredData {
     pub(crate) fn new<D: PointCloud>(point_cloud: &Arc<D>) -> GokoResult<NearestCoveredData> {
         let mut point_indexes = point_cloud.reference_indexes();
-        let center_index = point_indexes.pop().unwrap();
+        let center_index = point_indexes.pop().ok_or_else(empty_cloud)?;
         let center_dists = point_cloud.distances_to_point_index(center_index, &point_indexes)?;
         let dists = vec![];
         let centers = vec![];
-- 
2.43.0


From 585e682eee73d43e3ce5095faf94072f658d1da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:09 +0000
Subject: [PATCH 08/49] fix: queries report point cloud failures and a departed
 writer instead of answering partially

---
 goko/src/covertree/tree.rs | 64 +++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 582709c..3d9dcd7 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -287,14 +287,19 @@ impl<D: PointCloud> CoverTreeReader<D> {
         let root_center = self.parameters.point_cloud.point(self.root_address.1)?;
         let dist_to_root = D::Metric::dist(&root_center, &point);
         query_heap.push_nodes(&[self.root_address], &[dist_to_root], None);
-        self.greedy_knn_nodes(point, &mut query_heap);
+        if let (_, Some(e)) = self.greedy_knn_nodes(point, &mut query_heap) {
+            return Err(e);
+        }
 
         while let Some((_dist, address)) = query_heap.closest_unvisited_singleton_covering_address()
         {
             self.get_node_and(address, |n| {
                 n.singleton_knn(point, &self.parameters.point_cloud, &mut query_heap)
-            });
-            self.greedy_knn_nodes(point, &mut query_heap);
+            })
+            .ok_or(GokoError::IndexNotInTree(address.1))??;
+            if let (_, Some(e)) = self.greedy_knn_nodes(point, &mut query_heap) {
+                return Err(e);
+            }
         }
 
         Ok(query_heap.unpack())
@@ -311,34 +316,46 @@ impl<D: PointCloud> CoverTreeReader<D> {
         let root_center = self.parameters.point_cloud.point(self.root_address.1)?;
         let dist_to_root = D::Metric::dist(&root_center, &point);
         query_heap.push_nodes(&[self.root_address], &[dist_to_root], None);
-        self.greedy_knn_nodes(point, &mut query_heap);
 
-        while self.greedy_knn_nodes(point, &mut query_heap) {}
+        loop {
+            match self.greedy_knn_nodes(point, &mut query_heap) {
+                (_, Some(e)) => return Err(e),
+                (true, None) => {}
+                (false, None) => break,
+            }
+        }
         Ok(query_heap.unpack())
     }
 
+    /// Returns if any node was looked at, and what stopped the descent if that was a failure.
     fn greedy_knn_nodes<P: Deref<Target = D::Point> + Send + Sync>(
         &self,
         point: &P,
         query_heap: &mut KnnQueryHeap,
-    ) -> bool {
+    ) -> (bool, Option<GokoError>) {
         let mut did_something = false;
         while let Some((dist, nearest_address)) =
             query_heap.closest_unvisited_child_covering_address()
         {
-            if self
-                .get_node_and(nearest_address, |n| n.is_leaf())
-                .unwrap_or(true)
-            {
-                break;
-            } else {
-                self.get_node_and(nearest_address, |n| {
-                    n.child_knn(Some(dist), point, &self.parameters.point_cloud, query_heap)
-                });
+            let visit = self.get_node_and(nearest_address, |n| {
+                if n.is_leaf() {
+                    None
+                } else {
+                    Some(n.child_knn(Some(dist), point, &self.parameters.point_cloud, query_heap))
+                }
+            });
+            match visit {
+                Some(Some(Ok(()))) => {}
+                Some(None) => break,
+                Some(Some(Err(e))) => return (did_something, Some(e)),
+                None => {
+                    let missing = GokoError::IndexNotInTree(nearest_address.1);
+                    return (did_something, Some(missing));
+                }
             }
             did_something = true;
         }
-        did_something
+        (did_something, None)
     }
 
     /// # Dry Insert Query
@@ -371,10 +388,11 @@ impl<D: PointCloud> CoverTreeReader<D> {
                 current_distance = nearest.0;
                 current_address = nearest.1;
             } else {
-                break;
+                return Ok(trace);
             }
         }
-        Ok(trace)
+        // The writer is gone, and the node with it.
+        Err(GokoError::IndexNotInTree(current_address.1))
     }
 
     ///
@@ -388,15 +406,17 @@ impl<D: PointCloud> CoverTreeReader<D> {
                     parent = self.get_node_and(addr, |n| n.parent_address()).flatten();
                 }
                 (&mut path[..]).reverse();
+                if path[0] != self.root_address {
+                    return Err(GokoError::IndexNotInTree(point_index));
+                }
                 let point_indexes: Vec<usize> = path.iter().map(|na| na.1).collect();
                 let dists = self
                     .parameters
                     .point_cloud
-                    .distances_to_point_index(point_index, &point_indexes[..])
-                    .unwrap();
-                dists.iter().zip(path).map(|(d, a)| (*d, a)).collect()
+                    .distances_to_point_index(point_index, &point_indexes[..])?;
+                Ok(dists.iter().zip(path).map(|(d, a)| (*d, a)).collect())
             })
-            .ok_or(GokoError::IndexNotInTree(point_index))
+            .ok_or(GokoError::IndexNotInTree(point_index))?
     }
 
     ///Computes the fractal dimension of a node
-- 
2.43.0


From 2f00f12a51369151d5d5bcf52c6052b8378eaef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:10 +0000
Subject: [PATCH 09/49] hook: the count of a build's nodes goes through the
 simulator's atomics too (cfg goko_sim)

---
 goko/src/covertree/builders.rs | 3 ++-
 goko/src/covertree/tree.rs     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 1ed42ed..9ccc4a8 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -28,7 +28,8 @@ use rand::SeedableRng;
 use std::cmp::{max, min};
 use std::fs::read_to_string;
 use std::path::Path;
-use std::sync::{atomic, Arc, RwLock};
+use crate::monomap::sync::atomic;
+use std::sync::{Arc, RwLock};
 use yaml_rust::YamlLoader;
 
 use crossbeam_channel::{unbounded, Receiver, Sender};
diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 3d9dcd7..a0de350 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -40,7 +40,8 @@ use crate::*;
 
 use crate::monomap::{MonoReadHandle, MonoWriteHandle};
 use crate::tree_file_format::*;
-use std::sync::{atomic, Arc, RwLock};
+use crate::monomap::sync::atomic;
+use std::sync::{Arc, RwLock};
 
 use super::query_tools::{KnnQueryHeap, RoutingQueryHeap};
 use crate::plugins::{GokoPlugin, TreePluginSet};
-- 
2.43.0


From 8a254bb424f113b5fcf023b2bb20bc2620635e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:35 +0000
Subject: [PATCH 10/49] fix: a vector summary counts its first vector and keeps
 the moments combined into an empty one

---
 pointcloud/src/summaries/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/summaries/mod.rs b/pointcloud/src/summaries/mod.rs
index 0f6c110..4669add 100644
--- a/pointcloud/src/summaries/mod.rs
+++ b/pointcloud/src/summaries/mod.rs
@@ -94,10 +94,15 @@ impl Summary for VecSummary {
             }
         } else {
             self.moment1.extend(val);
-            self.moment2.extend(val.iter().map(|x| x * x))
+            self.moment2.extend(val.iter().map(|x| x * x));
+            self.count += 1;
         }
     }
     fn combine(&mut self, other: &VecSummary) {
+        if self.moment1.is_empty() {
+            self.moment1.resize(other.moment1.len(), 0.0);
+            self.moment2.resize(other.moment2.len(), 0.0);
+        }
         self.moment1
             .iter_mut()
             .zip(&other.moment1)
-- 
2.43.0


From 57e9122110136815dfcb279a3d902d721084abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:35 +0000
Subject: [PATCH 11/49] fix: removing a point from a diagonal gaussian lowers
 its count

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index e7ef561..c6fa7ba 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -134,7 +134,7 @@ impl DiagGaussian {
                 .iter_mut()
                 .zip(point.dense_iter())
                 .for_each(|(m, p)| *m -= p * p);
-            self.count += 1;
+            self.count -= 1;
         }
     }
 
-- 
2.43.0


From 495f17b793f79116415ba4d3dd47c9cba0a6a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:35 +0000
Subject: [PATCH 12/49] fix: distances between very wide points no longer panic
 on an empty chunk

---
 pointcloud/src/base_traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/base_traits.rs b/pointcloud/src/base_traits.rs
index 8ee6c1f..1bd5271 100644
--- a/pointcloud/src/base_traits.rs
+++ b/pointcloud/src/base_traits.rs
@@ -39,7 +39,8 @@ use ndarray::{Array1, Array2};
 
 #[inline]
 fn chunk(data_dim: usize) -> usize {
-    min(300000 / data_dim, 100)
+    // at least one, also for very wide points; and a point may have no coordinates at all
+    min(300000 / data_dim.max(1), 100).max(1)
 }
 
 /// Base trait for a point cloud
-- 
2.43.0


From 2171e97486df120bf0226572b4c020e49d706abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:35 +0000
Subject: [PATCH 13/49] fix: bulk queries accept an empty list and arrays that
 are not in row order

---
 goko/src/query_interface/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/goko/src/query_interface/mod.rs b/goko/src/query_interface/mod.rs
index af6cd66..394f706 100644
--- a/goko/src/query_interface/mod.rs
+++ b/goko/src/query_interface/mod.rs
@@ -35,7 +35,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 
     /// Applies the passed in fn to the passed in indexes and collects the result in a vector. Core function for this struct.
@@ -60,7 +60,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 
     /// Bulk known path
@@ -120,7 +120,11 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
             .map(|(chunk_points, reader)| {
                 chunk_points
                     .iter()
-                    .map(|i| f(&reader, &points.row(*i).as_slice().unwrap()))
+                    .map(|i| match points.row(*i).as_slice() {
+                        Some(row) => f(&reader, &row),
+                        // a column major or strided array
+                        None => f(&reader, &&points.row(*i).to_vec()[..]),
+                    })
                     .collect()
             })
             .collect();
@@ -130,7 +134,7 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 }
 
-- 
2.43.0


From 6b37fba781868691d40a6722bc436f9c63dccdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:42 +0000
Subject: [PATCH 14/49] fix: routing neighbour queries look at every node that
 may hold a closer center, not only those before the first leaf

---
 goko/src/covertree/tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index a0de350..7e8a0bc 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -347,7 +347,11 @@ impl<D: PointCloud> CoverTreeReader<D> {
             });
             match visit {
                 Some(Some(Ok(()))) => {}
-                Some(None) => break,
+                Some(None) => {
+                    // A leaf ends the descent, but there may be other nodes to look at.
+                    did_something = true;
+                    break;
+                }
                 Some(Some(Err(e))) => return (did_something, Some(e)),
                 None => {
                     let missing = GokoError::IndexNotInTree(nearest_address.1);
-- 
2.43.0


From f078872306c4fae1a05bdd65c7d431065e7c6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:53 +0000
Subject: [PATCH 15/49] fix: saving a tree replaces the previous file in one
 step once the new one is on disk, and reports every failure

---
 goko/src/utils.rs | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/goko/src/utils.rs b/goko/src/utils.rs
index b82daa5..0514fa7 100644
--- a/goko/src/utils.rs
+++ b/goko/src/utils.rs
@@ -23,7 +23,8 @@ use crate::errors::{GokoError, GokoResult};
 use crate::tree_file_format::*;
 use protobuf::{CodedInputStream, CodedOutputStream, Message};
 use std::fs::File;
-use std::fs::{read_to_string, remove_file, OpenOptions};
+use std::fs::{read_to_string, remove_file, rename, OpenOptions};
+use std::io::{Error, ErrorKind};
 use std::path::Path;
 use std::sync::Arc;
 use yaml_rust::YamlLoader;
@@ -150,26 +151,41 @@ pub fn save_tree<P: AsRef<Path>, D: PointCloud>(
     let tree_path_ref: &Path = tree_path.as_ref();
 
     println!("Saving tree to : {}", tree_path_ref.to_string_lossy());
-    if tree_path_ref.exists() {
-        let tree_path_str = match tree_path_ref.to_str() {
-            Some(expr) => expr,
-            None => panic!("Unicode error with the tree path"),
-        };
-        println!("\t \t {:?} exists, removing", tree_path_str);
-        remove_file(&tree_path).map_err(GokoError::from)?;
-    }
-
     let cover_proto = cover_tree.save();
 
+    // The new file is completed next to the old one, and then takes its place in a single step.
+    let file_name = tree_path_ref.file_name().ok_or_else(|| {
+        GokoError::from(Error::new(ErrorKind::InvalidInput, "not a path to a file"))
+    })?;
+    let mut partial_name = file_name.to_os_string();
+    partial_name.push(".partial");
+    let partial_path = tree_path_ref.with_file_name(partial_name);
+
+    let written = write_proto(&partial_path, &cover_proto)
+        .and_then(|_| rename(&partial_path, &tree_path).map_err(GokoError::from));
+    if let Err(e) = written {
+        let _ = remove_file(&partial_path);
+        return Err(e);
+    }
+    match tree_path_ref.parent() {
+        Some(dir) if dir != Path::new("") => File::open(dir),
+        _ => File::open("."),
+    }
+    .and_then(|dir| dir.sync_all())
+    .map_err(GokoError::from)
+}
+
+fn write_proto(path: &Path, cover_proto: &CoreProto) -> GokoResult<()> {
     let mut core_file = OpenOptions::new()
         .read(true)
         .write(true)
         .create(true)
-        .open(&tree_path)
-        .unwrap();
+        .truncate(true)
+        .open(path)
+        .map_err(GokoError::from)?;
 
     let mut cos = CodedOutputStream::new(&mut core_file);
     cover_proto.write_to(&mut cos).map_err(GokoError::from)?;
     cos.flush().map_err(GokoError::from)?;
-    Ok(())
+    core_file.sync_all().map_err(GokoError::from)
 }
-- 
2.43.0


From b8ab5b3d1516eb26f38abe8ede4830d3a884b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:09 +0000
Subject: [PATCH 16/49] fix: loading a missing, unreadable, incomplete or
 damaged tree file is an error, not a panic or a broken tree

---
 goko/src/covertree/tree.rs | 46 ++++++++++++++++++++++++++++++++++++++
 goko/src/utils.rs          | 12 +---------
 2 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 7e8a0bc..3ceebc6 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -47,6 +47,8 @@ use super::query_tools::{KnnQueryHeap, RoutingQueryHeap};
 use crate::plugins::{GokoPlugin, TreePluginSet};
 use errors::{GokoError, GokoResult};
 use serde::{Deserialize, Serialize};
+use std::collections::HashSet;
+use std::io;
 use std::iter::Iterator;
 use std::iter::Rev;
 use std::ops::Deref;
@@ -649,11 +651,55 @@ impl<D: PointCloud> CoverTreeWriter<D> {
             final_addresses,
         };
 
+        tree.check_loaded(cover_proto.get_count() as usize)?;
         tree.refresh_final_indexes();
 
         Ok(tree)
     }
 
+    /// A file may be damaged: everything the tree refers to has to be there, and nothing may be there twice.
+    fn check_loaded(&self, count: usize) -> GokoResult<()> {
+        let known: HashSet<usize> = self.parameters.point_cloud.reference_indexes().into_iter().collect();
+        let lowest = self.parameters.min_res_index as i64 - 1;
+        let mut valid = self.parameters.scale_base > 1.0 && !self.layers.is_empty();
+        for (i, layer) in self.layers.iter().enumerate() {
+            valid &= layer.scale_index() as i64 == lowest + i as i64;
+            layer.reader().for_each_node(|pi, n| {
+                valid &= n.address() == (layer.scale_index(), *pi);
+            });
+        }
+
+        let reader = self.reader();
+        let mut nodes = 0;
+        let mut points: HashSet<usize> = HashSet::new();
+        let mut unvisited = vec![(None, self.root_address)];
+        while let (true, Some((parent, address))) = (valid, unvisited.pop()) {
+            // The scale index shrinks on the way down, so this ends.
+            valid = (address.0 as i64) < lowest + self.layers.len() as i64
+                && parent.map_or(true, |p: NodeAddress| address.0 < p.0)
+                && reader
+                    .get_node_and(address, |n| {
+                        let mut held = n.singletons().to_vec();
+                        if let Some((nested_si, child_addresses)) = n.children() {
+                            unvisited.push((Some(address), (nested_si, address.1)));
+                            unvisited.extend(child_addresses.iter().map(|a| (Some(address), *a)));
+                        } else {
+                            held.push(address.1);
+                        }
+                        n.address() == address
+                            && n.parent_address() == parent
+                            && held.iter().all(|i| known.contains(i) && points.insert(*i))
+                    })
+                    .unwrap_or(false);
+            nodes += 1;
+        }
+        if valid && points.len() == count && nodes == reader.node_count() {
+            Ok(())
+        } else {
+            Err(io::Error::new(io::ErrorKind::InvalidData, "the tree is incomplete or damaged").into())
+        }
+    }
+
     /// Completely redoes the final index map.
     pub fn refresh_final_indexes(&mut self) {
         let reader = self.reader();
diff --git a/goko/src/utils.rs b/goko/src/utils.rs
index 0514fa7..ae00db1 100644
--- a/goko/src/utils.rs
+++ b/goko/src/utils.rs
@@ -124,21 +124,11 @@ pub fn load_tree<P: AsRef<Path>, D: PointCloud>(
     let tree_path_ref: &Path = tree_path.as_ref();
     println!("\nLoading tree from : {}", tree_path_ref.to_string_lossy());
 
-    if !tree_path_ref.exists() {
-        let tree_path_str = match tree_path_ref.to_str() {
-            Some(expr) => expr,
-            None => panic!("Unicode error with the tree path"),
-        };
-        panic!("{} does not exist\n", tree_path_str);
-    }
-
     let mut cover_proto = CoreProto::new();
 
     let mut file = File::open(&tree_path_ref).map_err(GokoError::from)?;
     let mut cis = CodedInputStream::new(&mut file);
-    if let Err(e) = cover_proto.merge_from(&mut cis) {
-        panic!("Proto buff was unable to read {:#?}", e)
-    }
+    cover_proto.merge_from(&mut cis).map_err(GokoError::from)?;
 
     CoverTreeWriter::load(&cover_proto, point_cloud)
 }
-- 
2.43.0


From 48102e9c40093e3bd038a4ac375413f26a492836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:09 +0000
Subject: [PATCH 17/49] fix: a tree with unnamed points can be saved

---
 goko/src/covertree/tree.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 3ceebc6..e5f8e4c 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -741,13 +741,13 @@ impl<D: PointCloud> CoverTreeWriter<D> {
         cover_proto.set_root_scale(self.root_address.0);
         cover_proto.set_root_index(self.root_address.1 as u64);
         cover_proto.set_layers(self.layers.iter().map(|l| l.save()).collect());
-        let name_map: std::collections::HashMap<String, u64> =
-            self.final_addresses.map_into(|k, _v| {
-                (
-                    self.parameters.point_cloud.name(*k).unwrap().to_string(),
-                    *k as u64,
-                )
-            });
+        let mut name_map = std::collections::HashMap::<String, u64>::new();
+        self.final_addresses.for_each(|k, _v| {
+            // A point without a name is still in the tree.
+            if let Ok(name) = self.parameters.point_cloud.name(*k) {
+                name_map.insert(name, *k as u64);
+            }
+        });
         cover_proto.set_name_map(name_map);
         cover_proto
     }
-- 
2.43.0


From e7e8bc68e9b646e7978ab1fbf7e35799c5da1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:38 +0000
Subject: [PATCH 18/49] fix: a tree file that ends in the middle of a message
 is an error, not a tree with missing parts

---
 goko/src/utils.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/goko/src/utils.rs b/goko/src/utils.rs
index ae00db1..a67ceb3 100644
--- a/goko/src/utils.rs
+++ b/goko/src/utils.rs
@@ -23,7 +23,7 @@ use crate::errors::{GokoError, GokoResult};
 use crate::tree_file_format::*;
 use protobuf::{CodedInputStream, CodedOutputStream, Message};
 use std::fs::File;
-use std::fs::{read_to_string, remove_file, rename, OpenOptions};
+use std::fs::{read, read_to_string, remove_file, rename, OpenOptions};
 use std::io::{Error, ErrorKind};
 use std::path::Path;
 use std::sync::Arc;
@@ -126,8 +126,10 @@ pub fn load_tree<P: AsRef<Path>, D: PointCloud>(
 
     let mut cover_proto = CoreProto::new();
 
-    let mut file = File::open(&tree_path_ref).map_err(GokoError::from)?;
-    let mut cis = CodedInputStream::new(&mut file);
+    let bytes = read(&tree_path_ref).map_err(GokoError::from)?;
+    let mut cis = CodedInputStream::from_bytes(&bytes);
+    // With the limit, a message that goes on beyond the end of the file is an error.
+    cis.push_limit(bytes.len() as u64).map_err(GokoError::from)?;
     cover_proto.merge_from(&mut cis).map_err(GokoError::from)?;
 
     CoverTreeWriter::load(&cover_proto, point_cloud)
-- 
2.43.0


From 7d2d205861ab1b6a02d3a30f3148ee1baa8f1fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:10 +0000
Subject: [PATCH 19/49] fix: a node that only paths outside the window touched
 is no longer counted by the tracker

---
 goko/src/plugins/discrete/categorical.rs |  4 ++--
 goko/src/plugins/discrete/tracker.rs     | 16 ++++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/goko/src/plugins/discrete/categorical.rs b/goko/src/plugins/discrete/categorical.rs
index 6761d0f..1b026d4 100644
--- a/goko/src/plugins/discrete/categorical.rs
+++ b/goko/src/plugins/discrete/categorical.rs
@@ -72,8 +72,8 @@ impl Categorical {
         match loc {
             Some(ca) => {
                 if let Ok(index) = self.child_counts.binary_search_by_key(&ca, |&(a, _)| a) {
-                    if self.child_counts[index].1 < count {
-                        self.child_counts[index].1 = 0.0;
+                    if self.child_counts[index].1 <= count {
+                        self.child_counts.remove(index);
                     } else {
                         self.child_counts[index].1 -= count;
                     }
diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 3927259..df96aa4 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -96,14 +96,18 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
         let mut child_address_iter = trace.iter().map(|(_, ca)| ca);
         child_address_iter.next();
         for (parent, child) in parent_address_iter.zip(child_address_iter) {
-            let parent_evidence = self.running_evidence.get_mut(parent).unwrap();
-            parent_evidence.remove_child_pop(Some(*child), 1.0);
+            self.remove_observation(parent, Some(*child));
         }
         let last = trace.last().unwrap().1;
-        self.running_evidence
-            .get_mut(&last)
-            .unwrap()
-            .remove_child_pop(None, 1.0);
+        self.remove_observation(&last, None);
+    }
+
+    fn remove_observation(&mut self, address: &NodeAddress, loc: Option<NodeAddress>) {
+        let evidence = self.running_evidence.get_mut(address).unwrap();
+        evidence.remove_child_pop(loc, 1.0);
+        if evidence.total() <= 0.0 {
+            self.running_evidence.remove(address);
+        }
     }
 
     /// Gives the probability vector for this
-- 
2.43.0


From 27eb2004dcadd1c5efaab1e77e77c301678b6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:10 +0000
Subject: [PATCH 20/49] fix: appending trackers keeps to the window

---
 goko/src/plugins/discrete/tracker.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index df96aa4..6f275de 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -50,14 +50,18 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
 
     /// Appends a tracker to this one,
     pub fn append(mut self, other: &Self) -> Self {
+        if other.window_size != 0 {
+            for trace in other.sequence_queue.iter() {
+                self.add_path(trace.clone());
+            }
+            return self;
+        }
         for (k, v) in other.running_evidence.iter() {
             self.running_evidence
                 .entry(*k)
                 .and_modify(|e| e.merge(v))
                 .or_insert_with(|| v.clone());
         }
-        self.sequence_queue
-            .extend(other.sequence_queue.iter().cloned());
         self.sequence_count += other.sequence_count;
         self
     }
-- 
2.43.0


From fb0e3b48951d5de0b4a409769685495bb95a9fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:10 +0000
Subject: [PATCH 21/49] fix: dimension statistics do not panic when the writer
 is dropped meanwhile

---
 goko/src/plugins/discrete/tracker.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 6f275de..0db741c 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -250,12 +250,11 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
         let mut layer_node_counts = vec![Vec::<usize>::new(); self.reader.len()];
         let parameters = self.reader.parameters();
         self.all_node_kl().iter().for_each(|(_kl, address)| {
-            layer_totals[parameters.internal_index(address.0)] += 1;
-            layer_node_counts[parameters.internal_index(address.0)].push(
-                self.reader
-                    .get_node_and(*address, |n| n.coverage_count())
-                    .unwrap(),
-            );
+            // the tree can be dropped while this runs
+            if let Some(count) = self.reader.get_node_and(*address, |n| n.coverage_count()) {
+                layer_totals[parameters.internal_index(address.0)] += 1;
+                layer_node_counts[parameters.internal_index(address.0)].push(count);
+            }
         });
         let weighted_layer_totals: Vec<f32> = layer_node_counts
             .iter()
-- 
2.43.0


From 2a4e635790ec43e674459fa81e73cbc8abf25dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 22/49] fix: training a baseline on data that cannot be read is
 an error, not a panic

---
 goko/src/plugins/discrete/baseline.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/goko/src/plugins/discrete/baseline.rs b/goko/src/plugins/discrete/baseline.rs
index b8fac9f..45baed1 100644
--- a/goko/src/plugins/discrete/baseline.rs
+++ b/goko/src/plugins/discrete/baseline.rs
@@ -66,7 +66,7 @@ impl DirichletBaseline {
             self.sequence_len
         };
 
-        let results: Vec<Vec<KLDivergenceStats>> = repeatn(reader, self.num_sequences)
+        let results: GokoResult<Vec<Vec<KLDivergenceStats>>> = repeatn(reader, self.num_sequences)
             .map(|reader| {
                 let mut tracker = BayesCategoricalTracker::new(
                     0,
@@ -76,9 +76,12 @@ impl DirichletBaseline {
                     .choose_multiple(&mut thread_rng(), sequence_len)
                     .enumerate()
                     .filter_map(|(i, pi)| {
-                        tracker.add_path(tracker.reader().known_path(*pi).unwrap());
+                        match tracker.reader().known_path(*pi) {
+                            Ok(path) => tracker.add_path(path),
+                            Err(e) => return Some(Err(e)),
+                        }
                         if i % self.sample_rate == 0 {
-                            Some(tracker.kl_div_stats())
+                            Some(Ok(tracker.kl_div_stats()))
                         } else {
                             None
                         }
@@ -86,7 +89,8 @@ impl DirichletBaseline {
                     .collect()
             })
             .collect();
-        let len = results[0].len();
+        let results = results?;
+        let len = results.first().map_or(0, |r| r.len());
         let mut sequence_len = Vec::with_capacity(len);
         let mut stats: Vec<KLDivergenceBaselineStats> =
             std::iter::repeat_with(KLDivergenceBaselineStats::default)
-- 
2.43.0


From b5d5b64a57ccc3b4d85d493471fbecf14577fbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:35 +0000
Subject: [PATCH 23/49] fix: a baseline with a single sample has statistics
 beyond it

---
 goko/src/plugins/discrete/baseline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/goko/src/plugins/discrete/baseline.rs b/goko/src/plugins/discrete/baseline.rs
index 45baed1..667b39a 100644
--- a/goko/src/plugins/discrete/baseline.rs
+++ b/goko/src/plugins/discrete/baseline.rs
@@ -199,6 +199,9 @@ impl KLDivergenceBaseline {
             Err(index) => {
                 if index == 0 {
                     KLDivergenceBaselineStats::default()
+                } else if self.sequence_len.len() == 1 {
+                    // nothing to extrapolate with
+                    self.stats[0].to_mean_var(self.num_sequences as f64)
                 } else if index == self.sequence_len.len() {
                     let stats1 = self.stats[index - 2].to_mean_var(self.num_sequences as f64);
                     let stats2 = self.stats[index - 1].to_mean_var(self.num_sequences as f64);
-- 
2.43.0


From c4703bbe6f490eed990f4c4cffe4db2424101a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:20 +0000
Subject: [PATCH 24/49] fix: the load of a service counts a request once,
 however often it is polled, and forgets one that is given up

---
 serve_goko/src/core/internal_service.rs | 28 ++++++++++++++++++++-----
 serve_goko/src/http/message.rs          | 10 ++++++---
 serve_goko/src/http/service.rs          |  6 +++---
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/serve_goko/src/core/internal_service.rs b/serve_goko/src/core/internal_service.rs
index 3c62082..1b97cb8 100644
--- a/serve_goko/src/core/internal_service.rs
+++ b/serve_goko/src/core/internal_service.rs
@@ -46,11 +46,27 @@ impl<T: Send, S: Send> Message<T, S> {
     }
 }
 
+/// A request in flight, until it is answered or its future is dropped.
+pub(crate) struct InFlight(Arc<atomic::AtomicU32>);
+
+impl InFlight {
+    pub(crate) fn new(counter: &Arc<atomic::AtomicU32>) -> InFlight {
+        counter.fetch_add(1, atomic::Ordering::SeqCst);
+        InFlight(Arc::clone(counter))
+    }
+}
+
+impl Drop for InFlight {
+    fn drop(&mut self) {
+        self.0.fetch_sub(1, atomic::Ordering::SeqCst);
+    }
+}
+
 #[pin_project]
 pub struct ResponseFuture<T> {
     #[pin]
     pub(crate) response: oneshot::Receiver<Result<T,InternalServiceError>>,
-    pub(crate) flight_counter: Arc<atomic::AtomicU32>,
+    pub(crate) flight: Option<InFlight>,
     pub(crate) error: Option<InternalServiceError>,
 }
 
@@ -59,6 +75,7 @@ impl<T> Future for ResponseFuture<T> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
         if let Some(err) = this.error.take() {
+            this.flight.take();
             return core::task::Poll::Ready(Err(err));
         }
         else {
@@ -68,7 +85,9 @@ impl<T> Future for ResponseFuture<T> {
                     Err(e) => Err(e.into())
                 }
             });
-            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            if res.is_ready() {
+                this.flight.take();
+            }
             res
         }
     }
@@ -111,8 +130,7 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
 
 
     pub(crate) fn message(&self, request: T) -> ResponseFuture<S> {
-        let flight_counter = Arc::clone(&self.in_flight);
-        self.in_flight.fetch_add(1, atomic::Ordering::SeqCst);
+        let flight = Some(InFlight::new(&self.in_flight));
         let (reply, response): (CoreResponseSender<S>, CoreResponseReciever<S>) = oneshot::channel();
         
         let msg = Message {
@@ -124,7 +142,7 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
         let error = self.request_snd.send(msg).err().map(|_e| InternalServiceError::FailedSend); 
         ResponseFuture {
             response,
-            flight_counter,
+            flight,
             error,
         }
     }
diff --git a/serve_goko/src/http/message.rs b/serve_goko/src/http/message.rs
index 8fa94da..817dd87 100644
--- a/serve_goko/src/http/message.rs
+++ b/serve_goko/src/http/message.rs
@@ -9,8 +9,9 @@ use std::future::Future;
 use std::pin::Pin;
 use std::task::Poll;
 
-use std::sync::{atomic, Arc, Mutex};
+use std::sync::{Arc, Mutex};
 
+use crate::core::internal_service::InFlight;
 use crate::errors::{GokoClientError, InternalServiceError};
 
 pub(crate) type HttpResponseSender = oneshot::Sender<Result<Response<Body>, GokoClientError>>;
@@ -52,7 +53,7 @@ impl HttpMessage {
 pub struct ResponseFuture {
     #[pin]
     pub(crate) response: HttpResponseReciever,
-    pub(crate) flight_counter: Arc<atomic::AtomicU32>,
+    pub(crate) flight: Option<InFlight>,
     pub(crate) error: Option<GokoClientError>,
 }
 
@@ -61,6 +62,7 @@ impl Future for ResponseFuture {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
         if let Some(err) = this.error.take() {
+            this.flight.take();
             return core::task::Poll::Ready(Err(err));
         }
         else {
@@ -70,7 +72,9 @@ impl Future for ResponseFuture {
                     Err(e) => Err(GokoClientError::from(e))
                 }
             });
-            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            if res.is_ready() {
+                this.flight.take();
+            }
             res
         }
     }
diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index aff8dce..cd9b6d4 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -20,6 +20,7 @@ use std::ops::Deref;
 use regex::Regex;
 use lazy_static::lazy_static;
 use super::message::*;
+use crate::core::internal_service::InFlight;
 use crate::errors::InternalServiceError;
 use crate::PointParser;
 use crate::parsers::PointBuffer;
@@ -202,8 +203,7 @@ where
     }
 
     pub(crate) fn message(&self, request: Request<Body>) -> ResponseFuture {
-        let flight_counter = Arc::clone(&self.in_flight);
-        self.in_flight.fetch_add(1, atomic::Ordering::SeqCst);
+        let flight = Some(InFlight::new(&self.in_flight));
         let (reply, response): (HttpResponseSender, HttpResponseReciever) = oneshot::channel();
         
         let msg = HttpMessage {
@@ -215,7 +215,7 @@ where
         let error = self.request_snd.send(msg).err().map(|_e| GokoClientError::Underlying(InternalServiceError::FailedSend)); 
         ResponseFuture {
             response,
-            flight_counter,
+            flight,
             error,
         }
     }
-- 
2.43.0


From e8fdfb194defa7b3ac278ba6c2b9592960469d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:47 +0000
Subject: [PATCH 25/49] fix: a request with a chunked body is answered instead
 of looping forever

---
 serve_goko/src/parsers/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serve_goko/src/parsers/mod.rs b/serve_goko/src/parsers/mod.rs
index 86b0e28..7645f59 100644
--- a/serve_goko/src/parsers/mod.rs
+++ b/serve_goko/src/parsers/mod.rs
@@ -53,6 +53,7 @@ impl<P: PointParser> PointBuffer<P> {
                 Poll::Ready(data) => data,
                 Poll::Pending => return Poll::Pending,
             };
+            let mut done = false;
             if let Some(new_bytes) = new_bytes {
                 match new_bytes {
                     Ok(new_bytes) => {
@@ -67,12 +68,13 @@ impl<P: PointParser> PointBuffer<P> {
                 }
             } else {
                 match Pin::new(&mut body).poll_trailers(cx) {
-                    Poll::Ready(_) => (),
+                    Poll::Ready(_) => done = true,
                     Poll::Pending => return Poll::Pending,
                 }
             }
 
-            if body.is_end_stream() {
+            // a chunked body only says that it is over by running out of data
+            if done || body.is_end_stream() {
                 let point_res = P::parse(this.body_buffer, this.point_buffer, this.request);
                 this.body_buffer.clear();
                 this.point_buffer.clear();
-- 
2.43.0


From 5263e5d6a59316fd02c53f7d4fd1b940b196b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:47 +0000
Subject: [PATCH 26/49] fix: a request with a k or a content type that cannot
 be read is refused, it does not end the connection's worker

---
 serve_goko/src/http/service.rs          | 10 +++++-----
 serve_goko/src/parsers/msgpack_dense.rs |  3 +--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index cd9b6d4..686df7d 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -38,14 +38,14 @@ pub struct GokoHttp<D: PointCloud, P: PointParser> {
 }
 
 
-fn parse_knn_query(uri: &Uri) -> usize {
+fn parse_knn_query(uri: &Uri) -> Result<usize, GokoClientError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(r"k=(?P<k>\d+)").unwrap();
     }
 
     match uri.query().map(|s| RE.captures(s)).flatten() {
-        Some(caps) => caps["k"].parse::<usize>().unwrap(),
-        None => 10,
+        Some(caps) => caps["k"].parse::<usize>().map_err(|_| GokoClientError::MalformedQuery("Unable to parse k.")),
+        None => Ok(10),
     }
 }
 
@@ -74,12 +74,12 @@ pub(crate) async fn parse_http<P: PointParser>(request: Request<Body>, parser: &
         // Serve some instructions at /
         (&Method::GET, "/") => Ok(GokoRequest::Parameters(ParametersRequest)),
         (&Method::GET, "/knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri())?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::Knn(KnnRequest { point, k }))
         }
         (&Method::GET, "/routing_knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri())?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::RoutingKnn(RoutingKnnRequest { point, k }))
 
diff --git a/serve_goko/src/parsers/msgpack_dense.rs b/serve_goko/src/parsers/msgpack_dense.rs
index 6697971..425bc15 100644
--- a/serve_goko/src/parsers/msgpack_dense.rs
+++ b/serve_goko/src/parsers/msgpack_dense.rs
@@ -45,8 +45,7 @@ impl PointParser for MsgPackDense {
         scratch_buffer.clear();
         let mut reader = match request.headers().get(CONTENT_TYPE) {
             Some(typestr) => {
-                let token = typestr.to_str().unwrap();
-                match token {
+                match typestr.to_str().unwrap_or_default() {
                     "zlib" => {
                         Readers::Zlib(DeflateDecoder::new(body_buffer))
                     }
-- 
2.43.0


From 51d5a51d7372b6ffdef1af90ca1f22f8c141c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:47 +0000
Subject: [PATCH 27/49] fix: a query for more neighbors than fit in memory
 returns those there are

---
 goko/src/covertree/query_tools/knn_query_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/query_tools/knn_query_heap.rs b/goko/src/covertree/query_tools/knn_query_heap.rs
index c579692..2d8486c 100644
--- a/goko/src/covertree/query_tools/knn_query_heap.rs
+++ b/goko/src/covertree/query_tools/knn_query_heap.rs
@@ -195,7 +195,7 @@ impl KnnQueryHeap {
 
     /// Unpacks the distance heap. This consumes the query heap.
     pub fn unpack(mut self) -> Vec<(f32, usize)> {
-        let mut result = Vec::with_capacity(self.k);
+        let mut result = Vec::with_capacity(self.dist_heap.len());
         while let Some(el) = self.dist_heap.pop() {
             result.push((el.dist, el.index));
         }
-- 
2.43.0


From bc9f40e8e3160e1ec9582c49dd9a7d75b9aabdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:01 +0000
Subject: [PATCH 28/49] fix: the path of a point that is not a number, or
 infinitely far away, does not panic

---
 goko/src/covertree/node.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/goko/src/covertree/node.rs b/goko/src/covertree/node.rs
index e688b25..cf7c02f 100644
--- a/goko/src/covertree/node.rs
+++ b/goko/src/covertree/node.rs
@@ -28,6 +28,7 @@ use crate::plugins::{
 };
 use crate::tree_file_format::*;
 use crate::NodeAddress;
+use std::cmp::Ordering;
 use std::ops::Deref;
 
 use pointcloud::*;
@@ -258,7 +259,7 @@ impl<D: PointCloud> CoverNode<D> {
             let (min_index, min_dist) = distances
                 .iter()
                 .enumerate()
-                .min_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap())
+                .min_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Equal))
                 .unwrap_or((0, &std::f32::MAX));
             if dist_to_center < *min_dist {
                 if dist_to_center < scale_base.powi(children.nested_scale) {
@@ -269,10 +270,13 @@ impl<D: PointCloud> CoverNode<D> {
                 } else {
                     Ok(None)
                 }
-            } else if *min_dist < scale_base.powi(children.addresses[min_index].0) {
-                Ok(Some((*min_dist, children.addresses[min_index])))
             } else {
-                Ok(None)
+                // none, if the point is infinitely far from a node with only a nested child
+                Ok(children
+                    .addresses
+                    .get(min_index)
+                    .filter(|address| *min_dist < scale_base.powi(address.0))
+                    .map(|address| (*min_dist, *address)))
             }
         } else {
             Ok(None)
-- 
2.43.0


From 3cf3edb3b46585ae841340d9f6498f6d53f54403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:11 +0000
Subject: [PATCH 29/49] fix: a point of the wrong dimension is refused

---
 serve_goko/src/http/maker.rs            |  2 +-
 serve_goko/src/parsers/mod.rs           | 17 +++++++++++++++--
 serve_goko/src/parsers/msgpack_dense.rs |  4 ++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/serve_goko/src/http/maker.rs b/serve_goko/src/http/maker.rs
index 1c5bf10..edee23a 100644
--- a/serve_goko/src/http/maker.rs
+++ b/serve_goko/src/http/maker.rs
@@ -52,7 +52,7 @@ where
 
     fn call(&mut self, _: T) -> Self::Future {
         let reader = self.writer.reader();
-        let parser = PointBuffer::<P>::new();
+        let parser = PointBuffer::<P>::new(reader.tree.parameters().point_cloud.dim());
         future::ready(Ok(GokoHttp::new(reader, parser)))
     }
 }
\ No newline at end of file
diff --git a/serve_goko/src/parsers/mod.rs b/serve_goko/src/parsers/mod.rs
index 7645f59..0822951 100644
--- a/serve_goko/src/parsers/mod.rs
+++ b/serve_goko/src/parsers/mod.rs
@@ -20,6 +20,10 @@ pub use msgpack_dense::MsgPackDense;
 pub trait PointParser: Send + 'static {
     type Point: Serialize + Send + Sync + Debug + 'static;
     fn parse(body_buffer: &[u8], scratch_buffer: &mut Vec<u8>, request: &Request<Body>) -> Result<Self::Point, GokoClientError>;
+    /// If this point can be compared to those of a point cloud of this dimension.
+    fn fits(_point: &Self::Point, _dim: usize) -> bool {
+        true
+    }
 }
 
 #[pin_project]
@@ -27,15 +31,17 @@ pub(crate) struct PointBuffer<P: PointParser> {
     body_buffer: Vec<u8>,
     point_buffer: Vec<u8>,
     request: Request<Body>,
+    dim: usize,
     parser: PhantomData<P>,
 }
 
 impl<P: PointParser> PointBuffer<P> {
-    pub(crate) fn new() -> Self {
+    pub(crate) fn new(dim: usize) -> Self {
         PointBuffer {
             body_buffer: Vec::with_capacity(8*1024),
             point_buffer: Vec::with_capacity(8*1024),
             request: Request::default(),
+            dim,
             parser: PhantomData,
         }
     }
@@ -79,7 +85,14 @@ impl<P: PointParser> PointBuffer<P> {
                 this.body_buffer.clear();
                 this.point_buffer.clear();
                 *this.request = Request::default();
-                return Poll::Ready(point_res)
+                let dim = *this.dim;
+                return Poll::Ready(point_res.and_then(|point| {
+                    if P::fits(&point, dim) {
+                        Ok(point)
+                    } else {
+                        Err(GokoClientError::MalformedQuery("The point's dimension is not that of the tree."))
+                    }
+                }))
             }
         }
     }
diff --git a/serve_goko/src/parsers/msgpack_dense.rs b/serve_goko/src/parsers/msgpack_dense.rs
index 425bc15..cbcd429 100644
--- a/serve_goko/src/parsers/msgpack_dense.rs
+++ b/serve_goko/src/parsers/msgpack_dense.rs
@@ -69,4 +69,8 @@ impl PointParser for MsgPackDense {
             Err(GokoClientError::MissingBody)
         }
     }
+
+    fn fits(point: &Self::Point, dim: usize) -> bool {
+        point.len() == dim
+    }
 }
\ No newline at end of file
-- 
2.43.0


From 125b9ac5e104c62b3e25a090166f700ef426b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 30/49] fix: dropping a memory mapped data file unmaps all of
 it, not a quarter

---
 pointcloud/src/data_sources/memmapf32/mod.rs  | 9 ++++++---
 pointcloud/src/data_sources/memmapf32/unix.rs | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pointcloud/src/data_sources/memmapf32/mod.rs b/pointcloud/src/data_sources/memmapf32/mod.rs
index 64c2b34..03af946 100644
--- a/pointcloud/src/data_sources/memmapf32/mod.rs
+++ b/pointcloud/src/data_sources/memmapf32/mod.rs
@@ -124,7 +124,10 @@ impl Deref for Mmapf32 {
 
     #[inline]
     fn deref(&self) -> &[f32] {
-        unsafe { slice::from_raw_parts(self.inner.ptr() as *const f32, self.inner.len()) }
+        let f32_size = size_of::<f32>();
+        unsafe {
+            slice::from_raw_parts(self.inner.ptr() as *const f32, self.inner.len() / f32_size)
+        }
     }
 }
 
@@ -158,12 +161,12 @@ impl MmapMutf32 {
     }
 
     pub fn flush(&self) -> Result<()> {
-        let len = self.len();
+        let len = self.inner.len();
         self.inner.flush(0, len)
     }
 
     pub fn flush_async(&self) -> Result<()> {
-        let len = self.len();
+        let len = self.inner.len();
         self.inner.flush_async(0, len)
     }
 
diff --git a/pointcloud/src/data_sources/memmapf32/unix.rs b/pointcloud/src/data_sources/memmapf32/unix.rs
index 0f9cb38..03847aa 100644
--- a/pointcloud/src/data_sources/memmapf32/unix.rs
+++ b/pointcloud/src/data_sources/memmapf32/unix.rs
@@ -79,7 +79,7 @@ impl MmapInner {
             } else {
                 Ok(MmapInner {
                     ptr: ptr.offset(alignment as isize),
-                    len: len / 4,
+                    len,
                 })
             }
         }
-- 
2.43.0


From 885379584497eeece6aaab6711112f9ed68dda48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 31/49] fix: a data file that cannot be opened or does not hold
 whole points is an error, not a panic or a cut off point

---
 pointcloud/src/data_sources/memmap_ram.rs | 24 ++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pointcloud/src/data_sources/memmap_ram.rs b/pointcloud/src/data_sources/memmap_ram.rs
index 9cf6579..55586ee 100644
--- a/pointcloud/src/data_sources/memmap_ram.rs
+++ b/pointcloud/src/data_sources/memmap_ram.rs
@@ -23,6 +23,7 @@ use super::memmapf32::Mmapf32;
 use crate::pc_errors::{PointCloudError, PointCloudResult};
 use std::fs::OpenOptions;
 use std::marker::PhantomData;
+use std::mem::size_of;
 use std::path::Path;
 
 use crate::metrics::*;
@@ -53,15 +54,15 @@ impl<M> DataMemmap<M> {
     /// Creates a new one from a path. The name is the path.
     pub fn new(dim: usize, path: &Path) -> PointCloudResult<DataMemmap<M>> {
         let name = path.to_string_lossy().to_string();
-        if !path.exists() {
-            panic!("data file {:?} does not exist", path);
+        let file = OpenOptions::new().read(true).write(true).open(&path)?;
+        let len = file.metadata()?.len();
+        let f32_size = size_of::<f32>() as u64;
+        if dim == 0 || len % f32_size != 0 || (len / f32_size) % dim as u64 != 0 {
+            return Err(ParsingError::RegularParsingError(
+                "The data file does not hold a whole number of points of this dimension",
+            )
+            .into());
         }
-        let file = match OpenOptions::new().read(true).write(true).open(&path) {
-            Ok(file) => file,
-            Err(er) => {
-                panic!("unable to open {:?} in from_proto, {:?}", path, er);
-            }
-        };
         let data = unsafe { Mmapf32::map(&file).map_err(PointCloudError::from) }?;
         Ok(DataMemmap {
             name,
@@ -94,7 +95,12 @@ impl<M> DataMemmap<M> {
 impl<M> DataRam<M> {
     /// Consumes your box and dimension and gives a dimensioned box.
     pub fn new(data: Vec<f32>, dim: usize) -> Result<DataRam<M>, PointCloudError> {
-        assert!(data.len() % dim == 0);
+        if dim == 0 || data.len() % dim != 0 {
+            return Err(ParsingError::RegularParsingError(
+                "The data does not hold a whole number of points of this dimension",
+            )
+            .into());
+        }
         let name = "RAM".to_string();
         Ok(DataRam {
             name,
-- 
2.43.0


From 6851d6b660285a231b16097ddd7b435f01e9085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 32/49] fix: reindexing a glued cloud refuses indexes that lose
 points, it does not panic or drop them

---
 pointcloud/src/glued_data_cloud.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index 28ef578..9b8299a 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -5,7 +5,7 @@ use crate::pc_errors::{PointCloudError, PointCloudResult};
 use crate::base_traits::*;
 
 use fxhash::FxBuildHasher;
-use hashbrown::HashMap;
+use hashbrown::{HashMap, HashSet};
 
 /// For large numbers of underlying point clouds
 #[derive(Debug)]
@@ -35,11 +35,12 @@ impl<D: PointCloud> HashGluedCloud<D> {
 impl<D> HashGluedCloud<D> {
     /// Remaps the indexes, treats the first element of the pair as the old index, and the second as the new index
     pub fn reindex(&mut self, new_indexes: &[(usize, usize)]) -> PointCloudResult<()> {
-        assert!(new_indexes.len() == self.addresses.len());
+        let mut seen = HashSet::with_hasher(FxBuildHasher::default());
         let mut new_addresses = HashMap::with_hasher(FxBuildHasher::default());
         for (old_index, new_index) in new_indexes.iter() {
             match self.addresses.get(&old_index) {
                 Some(addr) => {
+                    seen.insert(*old_index);
                     new_addresses.insert(*new_index, *addr);
                 }
                 None => {
@@ -50,6 +51,12 @@ impl<D> HashGluedCloud<D> {
                 }
             }
         }
+        if seen.len() != self.addresses.len() || new_addresses.len() != self.addresses.len() {
+            return Err(PointCloudError::DataAccessError {
+                index: new_indexes.len(),
+                reason: "the new indexes do not cover every point exactly once".to_string(),
+            });
+        }
         self.addresses = new_addresses;
         Ok(())
     }
-- 
2.43.0


From bf925534ccbabf484c04e38f3d5617b3c02eff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 33/49] fix: a name in a glued cloud leads to the index of its
 point in the glued cloud, and a cloud of no parts is empty

---
 pointcloud/src/glued_data_cloud.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index 9b8299a..aa3fb23 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -106,11 +106,7 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
 
     /// Total number of points in the point cloud
     fn is_empty(&self) -> bool {
-        if self.data_sources.is_empty() {
-            false
-        } else {
-            self.data_sources.iter().all(|m| m.is_empty())
-        }
+        self.data_sources.iter().all(|m| m.is_empty())
     }
 
     /// The names of the data are currently a shallow wrapper around a usize.
@@ -120,7 +116,7 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
 
     /// Dimension of the data in the point cloud
     fn dim(&self) -> usize {
-        self.data_sources[0].dim()
+        self.data_sources.first().map_or(0, |m| m.dim())
     }
     fn label(&self, pn: usize) -> PointCloudResult<Option<&Self::Label>> {
         let (i, j) = self.get_address(pn)?;
@@ -140,10 +136,12 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
         self.data_sources[i].name(j)
     }
     fn index(&self, pn: &str) -> PointCloudResult<usize> {
-        for data_source in &self.data_sources {
-            let index = data_source.index(pn);
-            if index.is_ok() {
-                return index;
+        for (i, data_source) in self.data_sources.iter().enumerate() {
+            if let Ok(j) = data_source.index(pn) {
+                let glued = self.addresses.iter().find(|(_, a)| **a == (i, j));
+                if let Some((pi, _)) = glued {
+                    return Ok(*pi);
+                }
             }
         }
         Err(PointCloudError::UnknownName)
-- 
2.43.0


From 3bb80428862e23c4306322e34616e8e4e009d429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 34/49] fix: a point beyond the labels has none, whether or not
 some are masked, instead of a panic

---
 pointcloud/src/label_sources/mod.rs | 58 +++++------------------------
 1 file changed, 10 insertions(+), 48 deletions(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index e0b28e1..f34d294 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -23,7 +23,7 @@ impl LabelSet for SmallIntLabels {
     }
     fn label(&self, pn: usize) -> PointCloudResult<Option<&i64>> {
         if let Some(mask) = &self.mask {
-            if mask[pn] {
+            if mask.get(pn) == Some(&true) {
                 Ok(self.labels.get(pn))
             } else {
                 Ok(None)
@@ -33,26 +33,11 @@ impl LabelSet for SmallIntLabels {
         }
     }
     fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<Self::LabelSummary>> {
-        let mut summary = CategorySummary::default();
-        let mut nones = 0;
-        if let Some(mask) = &self.mask {
-            for i in pns {
-                if mask[*i] {
-                    summary.add(&self.labels[*i]);
-                } else {
-                    nones += 1;
-                }
-            }
-        } else {
-            for i in pns {
-                summary.add(&self.labels[*i]);
-            }
+        let mut summary = SummaryCounter::default();
+        for i in pns {
+            summary.add(self.label(*i));
         }
-        Ok(SummaryCounter {
-            summary,
-            nones,
-            errors: 0,
-        })
+        Ok(summary)
     }
 }
 
@@ -178,7 +163,7 @@ impl LabelSet for VecLabels {
     }
     fn label(&self, pn: usize) -> PointCloudResult<Option<&Self::Label>> {
         if let Some(mask) = &self.mask {
-            if mask[pn] {
+            if mask.get(pn) == Some(&true) {
                 Ok(self
                     .labels
                     .get(self.label_dim * (pn as usize)..self.label_dim * (pn as usize + 1)))
@@ -192,33 +177,10 @@ impl LabelSet for VecLabels {
         }
     }
     fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<Self::LabelSummary>> {
-        let mut summary = Self::LabelSummary::default();
-        let mut nones = 0;
-        if let Some(mask) = &self.mask {
-            for i in pns {
-                if mask[*i] {
-                    summary.add(
-                        self.labels
-                            .get(self.label_dim * (*i as usize)..self.label_dim * (*i as usize + 1))
-                            .unwrap(),
-                    );
-                } else {
-                    nones += 1;
-                }
-            }
-        } else {
-            for i in pns {
-                summary.add(
-                    self.labels
-                        .get(self.label_dim * (*i as usize)..self.label_dim * (*i as usize + 1))
-                        .unwrap(),
-                );
-            }
+        let mut summary = SummaryCounter::default();
+        for i in pns {
+            summary.add(self.label(*i));
         }
-        Ok(SummaryCounter {
-            summary,
-            nones,
-            errors: 0,
-        })
+        Ok(summary)
     }
 }
-- 
2.43.0


From cf448eced20772a0cb3f93a7a7a36c828ce9bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 35/49] fix: merging labels keeps what was labeled labeled

---
 pointcloud/src/label_sources/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index f34d294..c093e71 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -49,24 +49,24 @@ impl SmallIntLabels {
 
     /// Merges 2 labels together
     pub fn merge(&mut self, other: &Self) {
-        self.labels.extend(other.labels.iter());
         let mut replace_mask = false;
         match (self.mask.as_mut(), other.mask.as_ref()) {
             (Some(s_mask), Some(o_mask)) => s_mask.extend(o_mask),
             (Some(s_mask), None) => {
-                s_mask.extend(std::iter::repeat(false).take(other.labels.len()))
+                s_mask.extend(std::iter::repeat(true).take(other.labels.len()))
             }
             (None, Some(_)) => replace_mask = true,
             (None, None) => {}
         }
 
         if replace_mask {
-            let mut mask = std::iter::repeat(false)
+            let mut mask = std::iter::repeat(true)
                 .take(self.labels.len())
                 .collect::<Vec<bool>>();
             mask.extend(other.mask.as_ref().unwrap().iter());
             self.mask = Some(mask)
         }
+        self.labels.extend(other.labels.iter());
     }
 
     //pub fn to_one_hot(&self) -> VecLabels {}
-- 
2.43.0


From 624559914804ce05dfddebf3454c36ef7dc048ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 36/49] fix: the length of vector labels is their number, which
 also makes one hot labels convertible

---
 pointcloud/src/label_sources/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index c093e71..1fe24d9 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -156,7 +156,7 @@ impl LabelSet for VecLabels {
     type LabelSummary = VecSummary;
 
     fn len(&self) -> usize {
-        self.labels.len()
+        self.labels.len() / self.label_dim
     }
     fn is_empty(&self) -> bool {
         self.labels.is_empty()
-- 
2.43.0


From 013288839163c06ede9c084f51c179dbc67544cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 37/49] fix: a label csv that cannot be opened or read is an
 error, not a panic

---
 pointcloud/src/loaders/csv_loaders.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pointcloud/src/loaders/csv_loaders.rs b/pointcloud/src/loaders/csv_loaders.rs
index 26e31e2..36f0ec5 100644
--- a/pointcloud/src/loaders/csv_loaders.rs
+++ b/pointcloud/src/loaders/csv_loaders.rs
@@ -12,19 +12,11 @@ pub fn open_int_csv<P: AsRef<Path> + std::fmt::Debug>(
     path: &P,
     index: usize,
 ) -> PointCloudResult<SmallIntLabels> {
-    if !path.as_ref().exists() {
-        panic!("CSV file {:?} does not exist", path);
-    }
-
-    match File::open(&path) {
-        Ok(file) => {
-            if path.as_ref().extension().unwrap() == "gz" {
-                read_csv(index, path, Reader::from_reader(GzDecoder::new(file)))
-            } else {
-                read_csv(index, path, Reader::from_reader(file))
-            }
-        }
-        Err(e) => panic!("Unable to open csv file {:#?}", e),
+    let file = File::open(&path)?;
+    if path.as_ref().extension().map_or(false, |ext| ext == "gz") {
+        read_csv(index, path, Reader::from_reader(GzDecoder::new(file)))
+    } else {
+        read_csv(index, path, Reader::from_reader(file))
     }
 }
 
@@ -39,7 +31,13 @@ fn read_csv<P: AsRef<Path> + std::fmt::Debug, R: Read>(
     for result in rdr.records() {
         // The iterator yields Result<StringRecord, Error>, so we check the
         // error here.
-        let record = result.expect("Unable to read a record from the label CSV");
+        let record = result.map_err(|e| {
+            PointCloudError::ParsingError(ParsingError::CSVReadError {
+                file_name: path.as_ref().to_string_lossy().to_string(),
+                line_number: labels.len() + 1,
+                key: format!("Unable to read a record from the label CSV: {}", e),
+            })
+        })?;
         match record.get(index) {
             Some(val) => {
                 let val = val.parse::<i64>().map_err(|_| {
-- 
2.43.0


From 37658121fd4c51ce7b57b1f4036a26d9631e94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 38/49] fix: the label 0 in a csv is a label, only negative
 ones are unlabeled

---
 pointcloud/src/loaders/csv_loaders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/loaders/csv_loaders.rs b/pointcloud/src/loaders/csv_loaders.rs
index 36f0ec5..be9c048 100644
--- a/pointcloud/src/loaders/csv_loaders.rs
+++ b/pointcloud/src/loaders/csv_loaders.rs
@@ -47,7 +47,7 @@ fn read_csv<P: AsRef<Path> + std::fmt::Debug, R: Read>(
                         key: format!("Unable to read u64 from {:?}", record),
                     })
                 })?;
-                if 0 < val {
+                if 0 <= val {
                     mask.push(true);
                 } else {
                     mask.push(false);
-- 
2.43.0


From 4d43cd94334715a5c53dac52d2fb29ab7ff26a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 39/49] fix: a gzipped label csv of several members is read to
 its end

---
 pointcloud/src/loaders/csv_loaders.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointcloud/src/loaders/csv_loaders.rs b/pointcloud/src/loaders/csv_loaders.rs
index be9c048..13d1ab9 100644
--- a/pointcloud/src/loaders/csv_loaders.rs
+++ b/pointcloud/src/loaders/csv_loaders.rs
@@ -1,6 +1,6 @@
 use crate::pc_errors::*;
 use csv::Reader;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use std::fs::File;
 use std::io::Read;
 use std::path::Path;
@@ -14,7 +14,7 @@ pub fn open_int_csv<P: AsRef<Path> + std::fmt::Debug>(
 ) -> PointCloudResult<SmallIntLabels> {
     let file = File::open(&path)?;
     if path.as_ref().extension().map_or(false, |ext| ext == "gz") {
-        read_csv(index, path, Reader::from_reader(GzDecoder::new(file)))
+        read_csv(index, path, Reader::from_reader(MultiGzDecoder::new(file)))
     } else {
         read_csv(index, path, Reader::from_reader(file))
     }
-- 
2.43.0


From 60da2b7982745e02682c0254bd629db4c9e771b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:17 +0000
Subject: [PATCH 40/49] fix: a different number of data and label files is an
 error, not a panic

---
 pointcloud/src/loaders/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pointcloud/src/loaders/mod.rs b/pointcloud/src/loaders/mod.rs
index 2ecf24f..fa7df9c 100644
--- a/pointcloud/src/loaders/mod.rs
+++ b/pointcloud/src/loaders/mod.rs
@@ -21,10 +21,10 @@ pub fn open_labeled_memmaps<M: Metric<[f32]>>(
     labels_paths: &[PathBuf],
 ) -> PointCloudResult<HashGluedCloud<SimpleLabeledCloud<DataMemmap<M>, VecLabels>>> {
     if data_paths.len() != labels_paths.len() {
-        panic!(
-            "Mismatch of label and data paths Data: {:?}, Labels: {:?}",
-            data_paths, labels_paths
-        );
+        return Err(ParsingError::RegularParsingError(
+            "There have to be as many label files as data files",
+        )
+        .into());
     }
     let collection: PointCloudResult<Vec<SimpleLabeledCloud<DataMemmap<M>, VecLabels>>> =
         data_paths
-- 
2.43.0


From bc544caf008020030ac08fbfd1ad081919539970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:49 +0000
Subject: [PATCH 41/49] fix: a data configuration that cannot be read, is
 incomplete or matches no file is an error, not a panic

---
 pointcloud/src/loaders/yaml_loaders.rs | 171 ++++++++++++-------------
 1 file changed, 83 insertions(+), 88 deletions(-)

diff --git a/pointcloud/src/loaders/yaml_loaders.rs b/pointcloud/src/loaders/yaml_loaders.rs
index f716da4..6c2fa83 100644
--- a/pointcloud/src/loaders/yaml_loaders.rs
+++ b/pointcloud/src/loaders/yaml_loaders.rs
@@ -1,7 +1,8 @@
 use glob::{glob_with, MatchOptions};
 use std::cmp::Ordering;
+use std::convert::TryFrom;
 use std::fs;
-use yaml_rust::YamlLoader;
+use yaml_rust::{Yaml, YamlLoader};
 
 use log::{info, trace};
 
@@ -40,31 +41,14 @@ pub fn vec_labeled_ram_from_yaml<P: AsRef<Path>, M: Metric<[f32]>>(
     path: P,
 ) -> PointCloudResult<SimpleLabeledCloud<DataRam<M>, VecLabels>> {
     info!("Opening labeled pointcloud yaml with path {:?}", &path.as_ref());
-    let config = fs::read_to_string(&path)
-        .unwrap_or_else(|_| panic!("Unable to read config file {:?}", &path.as_ref()));
-
-    let params_files = &YamlLoader::load_from_str(&config).unwrap()[0];
-
-    let data_paths = &get_file_list(
-        params_files["data_path"]
-            .as_str()
-            .expect("Unable to read the 'data_path'"),
-        path.as_ref(),
-    );
-    let labels_path = &get_file_list(
-        params_files["labels_path"]
-            .as_str()
-            .expect("Unable to read the 'labels_path'"),
-        path.as_ref(),
-    );
-
-    let data_dim = params_files["data_dim"]
-        .as_i64()
-        .expect("Unable to read the 'data_dim'") as usize;
+    let params_files = &read_yaml(path.as_ref())?;
 
-    let labels_dim = params_files["labels_dim"]
-        .as_i64()
-        .expect("Unable to read the 'labels_dim'") as usize;
+    let data_paths = &get_file_list("data_path", params_files, path.as_ref())?;
+    let labels_path = &get_file_list("labels_path", params_files, path.as_ref())?;
+
+    let data_dim = get_dim("data_dim", params_files, path.as_ref())?;
+
+    let labels_dim = get_dim("labels_dim", params_files, path.as_ref())?;
 
     let label_set = convert_glued_memmap_to_ram::<L2>(open_memmaps(labels_dim, labels_path)?)
         .convert_to_labels();
@@ -82,21 +66,11 @@ pub fn vec_labeled_ram_from_yaml<P: AsRef<Path>, M: Metric<[f32]>>(
 /// ```
 pub fn ram_from_yaml<P: AsRef<Path>, M: Metric<[f32]>>(path: P) -> PointCloudResult<DataRam<M>> {
     info!("Opening unlabeled pointcloud yaml with path {:?}", &path.as_ref());
-    let config = fs::read_to_string(&path)
-        .unwrap_or_else(|_| panic!("Unable to read config file {:?}", &path.as_ref()));
+    let params_files = &read_yaml(path.as_ref())?;
 
-    let params_files = &YamlLoader::load_from_str(&config).unwrap()[0];
+    let data_paths = &get_file_list("data_path", params_files, path.as_ref())?;
 
-    let data_paths = &get_file_list(
-        params_files["data_path"]
-            .as_str()
-            .expect("Unable to read the 'data_path'"),
-        path.as_ref(),
-    );
-
-    let data_dim = params_files["data_dim"]
-        .as_i64()
-        .expect("Unable to read the 'data_dim'") as usize;
+    let data_dim = get_dim("data_dim", params_files, path.as_ref())?;
 
     let data_set = open_memmaps(data_dim, data_paths)?;
     Ok(convert_glued_memmap_to_ram(data_set))
@@ -113,29 +87,26 @@ pub fn ram_from_yaml<P: AsRef<Path>, M: Metric<[f32]>>(path: P) -> PointCloudRes
 /// ```
 pub fn labels_from_yaml<P: AsRef<Path>>(path: P) -> PointCloudResult<SmallIntLabels> {
     info!("Opening labels yaml with path {:?}", &path.as_ref());
-    let config = fs::read_to_string(&path)
-        .unwrap_or_else(|_| panic!("Unable to read config file {:?}", &path.as_ref()));
     let path: &Path = path.as_ref();
-    let params_files = &YamlLoader::load_from_str(&config).unwrap()[0];
+    let params_files = &read_yaml(path)?;
 
     trace!("Label path list, pre glob: {:?}", params_files["labels_path"]);
-    let labels_path = &get_file_list(
-        params_files["labels_path"]
-            .as_str()
-            .expect("Unable to read the 'labels_path'"),
-        path,
-    );
+    let labels_path = &get_file_list("labels_path", params_files, path)?;
     trace!("Label path list, post glob: {:?}", labels_path);
 
-    let labels_index = params_files["labels_index"].as_i64().map(|i| i as usize);
-    let labels_dim = params_files["labels_dim"].as_i64().map(|i| i as usize);
+    let labels_index = params_files["labels_index"]
+        .as_i64()
+        .and_then(|i| usize::try_from(i).ok());
+    let labels_dim = params_files["labels_dim"]
+        .as_i64()
+        .and_then(|i| usize::try_from(i).ok());
 
     let mut label_set: Vec<SmallIntLabels> = labels_path
         .iter()
         .map(|path| {
             info!("Opening label file with path {:?}", path);
             match (
-                path.extension().unwrap().to_str().unwrap(),
+                path.extension().and_then(|ext| ext.to_str()).unwrap_or(""),
                 labels_index,
                 labels_dim,
             ) {
@@ -145,19 +116,21 @@ pub fn labels_from_yaml<P: AsRef<Path>>(path: P) -> PointCloudResult<SmallIntLab
 
                     match dim.cmp(&1) {
                         Ordering::Greater => Ok(labels.one_hot_to_int()),
-                        Ordering::Less => {
-                            panic!(
-                                "Could not determine if labels are one hot or binary. {:?}, {:?}",
-                                path, dim
-                            );
-                        }
+                        Ordering::Less => Err(ParsingError::RegularParsingError(
+                            "Could not determine if labels are one hot or binary",
+                        )
+                        .into()),
                         Ordering::Equal => Ok(labels.binary_to_int()),
                     }
                 }
-                _ => panic!(
-                    "Unable to detemine label source. {:?}, index: {:?}, dim: {:?}",
-                    path, labels_index, labels_dim
-                ),
+                _ => Err(ParsingError::MalformedYamlError {
+                    file_name: path.to_string_lossy().to_string(),
+                    field: format!(
+                        "Unable to detemine label source, index: {:?}, dim: {:?}",
+                        labels_index, labels_dim
+                    ),
+                }
+                .into()),
             }
         })
         .collect::<PointCloudResult<Vec<SmallIntLabels>>>()?;
@@ -171,42 +144,64 @@ pub fn labels_from_yaml<P: AsRef<Path>>(path: P) -> PointCloudResult<SmallIntLab
         .unwrap())
 }
 
-fn get_file_list(files_reg: &str, yaml_path: &Path) -> Vec<PathBuf> {
+fn read_yaml(path: &Path) -> PointCloudResult<Yaml> {
+    let config = fs::read_to_string(path)?;
+    let malformed = |field: String| ParsingError::MalformedYamlError {
+        file_name: path.to_string_lossy().to_string(),
+        field,
+    };
+    let files = YamlLoader::load_from_str(&config).map_err(|e| malformed(e.to_string()))?;
+    let params = files.into_iter().next();
+    Ok(params.ok_or_else(|| malformed("The file is empty".to_string()))?)
+}
+
+fn missing(field: &str, yaml_path: &Path) -> PointCloudError {
+    PointCloudError::ParsingError(ParsingError::MissingYamlError {
+        file_name: yaml_path.to_string_lossy().to_string(),
+        field: field.to_string(),
+    })
+}
+
+fn get_dim(field: &str, params: &Yaml, yaml_path: &Path) -> PointCloudResult<usize> {
+    params[field]
+        .as_i64()
+        .and_then(|dim| usize::try_from(dim).ok())
+        .ok_or_else(|| missing(field, yaml_path))
+}
+
+/// The files the field names, at least one.
+fn get_file_list(field: &str, params: &Yaml, yaml_path: &Path) -> PointCloudResult<Vec<PathBuf>> {
+    let malformed = |reason: String| {
+        PointCloudError::ParsingError(ParsingError::MalformedYamlError {
+            file_name: yaml_path.to_string_lossy().to_string(),
+            field: format!("{}: {}", field, reason),
+        })
+    };
     let options = MatchOptions {
         case_sensitive: false,
         ..Default::default()
     };
-    let mut paths = Vec::new();
-    let glob_paths;
-    let files_reg_path = Path::new(files_reg);
+    let files_reg = params[field]
+        .as_str()
+        .ok_or_else(|| missing(field, yaml_path))?;
+    let mut files_reg_path = PathBuf::from(files_reg);
     if files_reg_path.is_absolute() {
         trace!("label path is absolute {:?}", files_reg_path);
-        glob_paths = match glob_with(&files_reg_path.to_str().unwrap(), options) {
-            Ok(expr) => expr,
-            Err(e) => panic!("Pattern reading error {:?}", e),
-        };
     } else {
         trace!("label path is not absolute, joining it with the yaml path files: {:?} , yaml: {:?}", files_reg_path, yaml_path);
-        glob_paths = match glob_with(
-            &yaml_path
-                .parent()
-                .unwrap()
-                .join(files_reg_path)
-                .to_str()
-                .unwrap(),
-            options,
-        ) {
-            Ok(expr) => expr,
-            Err(e) => panic!("Pattern reading error {:?}", e),
-        };
+        if let Some(parent) = yaml_path.parent() {
+            files_reg_path = parent.join(files_reg_path);
+        }
     }
-
-    for entry in glob_paths {
-        let path = match entry {
-            Ok(expr) => expr,
-            Err(e) => panic!("Error reading path {:?}", e),
-        };
-        paths.push(path)
+    let pattern = files_reg_path
+        .to_str()
+        .ok_or_else(|| malformed("the path is not unicode".to_string()))?;
+    let paths = glob_with(pattern, options)
+        .map_err(|e| malformed(e.to_string()))?
+        .collect::<Result<Vec<PathBuf>, _>>()
+        .map_err(|e| PointCloudError::IoError(e.into_error()))?;
+    if paths.is_empty() {
+        return Err(malformed(format!("no file matches {:?}", pattern)));
     }
-    paths
+    Ok(paths)
 }
-- 
2.43.0


From 8937b5877a1883a00c6506561c3e1284c67943c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:19 +0000
Subject: [PATCH 42/49] fix: building a tree from an unreadable or wrong
 configuration is an error, not a panic

---
 goko/src/covertree/builders.rs |  7 +++++--
 goko/src/utils.rs              | 36 ++++++++++++++++++++--------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 9ccc4a8..cae9fac 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -30,7 +30,7 @@ use std::fs::read_to_string;
 use std::path::Path;
 use crate::monomap::sync::atomic;
 use std::sync::{Arc, RwLock};
-use yaml_rust::YamlLoader;
+use yaml_rust::{Yaml, YamlLoader};
 
 use crossbeam_channel::{unbounded, Receiver, Sender};
 use errors::GokoResult;
@@ -342,7 +342,10 @@ impl CoverTreeBuilder {
     pub fn from_yaml<P: AsRef<Path>>(path: P) -> Self {
         let config = read_to_string(&path).expect("Unable to read config file");
         let params_files = YamlLoader::load_from_str(&config).unwrap();
-        let params = &params_files[0];
+        Self::from_params(&params_files[0])
+    }
+
+    pub(crate) fn from_params(params: &Yaml) -> Self {
         let partition_type = if "first" == params["partition_type"].as_str().unwrap_or("nearest") {
             PartitionType::First
         } else {
diff --git a/goko/src/utils.rs b/goko/src/utils.rs
index a67ceb3..a6341c6 100644
--- a/goko/src/utils.rs
+++ b/goko/src/utils.rs
@@ -27,7 +27,7 @@ use std::fs::{read, read_to_string, remove_file, rename, OpenOptions};
 use std::io::{Error, ErrorKind};
 use std::path::Path;
 use std::sync::Arc;
-use yaml_rust::YamlLoader;
+use yaml_rust::{Yaml, YamlLoader};
 
 use crate::builders::CoverTreeBuilder;
 
@@ -36,6 +36,18 @@ use crate::CoverTreeWriter;
 use pointcloud::loaders::{labeled_ram_from_yaml, ram_from_yaml};
 use pointcloud::*;
 
+fn invalid_config(reason: String) -> GokoError {
+    GokoError::from(Error::new(ErrorKind::InvalidData, reason))
+}
+
+fn read_yaml(path: &Path) -> GokoResult<Yaml> {
+    let config = read_to_string(path).map_err(GokoError::from)?;
+    let params_files =
+        YamlLoader::load_from_str(&config).map_err(|e| invalid_config(e.to_string()))?;
+    let params = params_files.into_iter().next();
+    params.ok_or_else(|| invalid_config("The config file is empty".to_string()))
+}
+
 /// Given a yaml file on disk, it builds a covertree.
 ///
 /// ```yaml
@@ -52,24 +64,21 @@ use pointcloud::*;
 pub fn cover_tree_from_labeled_yaml<P: AsRef<Path>>(
     path: P,
 ) -> GokoResult<CoverTreeWriter<DefaultLabeledCloud<L2>>> {
-    let config = read_to_string(&path).expect("Unable to read config file");
-
-    let params_files = YamlLoader::load_from_str(&config).unwrap();
-    let params = &params_files[0];
+    let params = &read_yaml(path.as_ref())?;
 
     let point_cloud = labeled_ram_from_yaml::<_, L2>(&path)?;
     if let Some(count) = params["count"].as_i64() {
         if count as usize != point_cloud.len() {
-            panic!(
+            return Err(invalid_config(format!(
                 "We expected {:?} points, but the file has {:?} points at dim {:?}",
                 count,
                 point_cloud.len(),
                 point_cloud.dim()
-            );
+            )));
         }
     }
 
-    let builder = CoverTreeBuilder::from_yaml(&path);
+    let builder = CoverTreeBuilder::from_params(params);
     println!(
         "Loaded dataset, building a cover tree with scale base {}, leaf_cutoff {}, min_res_index {}, and use_singletons {}",
         &builder.scale_base, &builder.min_res_index, &builder.min_res_index, &builder.use_singletons
@@ -92,23 +101,20 @@ pub fn cover_tree_from_labeled_yaml<P: AsRef<Path>>(
 pub fn cover_tree_from_yaml<P: AsRef<Path>>(
     path: P,
 ) -> GokoResult<CoverTreeWriter<DefaultCloud<L2>>> {
-    let config = read_to_string(&path).expect("Unable to read config file");
-
-    let params_files = YamlLoader::load_from_str(&config).unwrap();
-    let params = &params_files[0];
+    let params = &read_yaml(path.as_ref())?;
 
     let point_cloud = ram_from_yaml::<_, L2>(&path)?;
     if let Some(count) = params["count"].as_i64() {
         if count as usize != point_cloud.len() {
-            panic!(
+            return Err(invalid_config(format!(
                 "We expected {:?} points, but the file has {:?} points at dim {:?}",
                 count,
                 point_cloud.len(),
                 point_cloud.dim()
-            );
+            )));
         }
     }
-    let builder = CoverTreeBuilder::from_yaml(&path);
+    let builder = CoverTreeBuilder::from_params(params);
     println!(
         "Loaded dataset, building a cover tree with scale base {}, leaf_cutoff {}, min_res_index {}, and use_singletons {}",
         &builder.scale_base, &builder.min_res_index, &builder.min_res_index, &builder.use_singletons
-- 
2.43.0


From 109630b0847b280e739302c62f07298842bd4c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:04 +0000
Subject: [PATCH 43/49] fix: an index far beyond the end does not wrap around
 to a point or panic

---
 pointcloud/src/data_sources/memmap_ram.rs | 3 +++
 pointcloud/src/label_sources/mod.rs       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pointcloud/src/data_sources/memmap_ram.rs b/pointcloud/src/data_sources/memmap_ram.rs
index 55586ee..901efeb 100644
--- a/pointcloud/src/data_sources/memmap_ram.rs
+++ b/pointcloud/src/data_sources/memmap_ram.rs
@@ -187,6 +187,9 @@ macro_rules! make_point_cloud {
             }
             #[inline]
             fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
+                if i >= self.len() {
+                    return Err(PointCloudError::data_access(i as usize, self.name.clone()));
+                }
                 match self
                     .data
                     .get(self.dim * (i as usize)..(self.dim * (i as usize) + self.dim))
diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index 1fe24d9..b359f61 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -162,6 +162,9 @@ impl LabelSet for VecLabels {
         self.labels.is_empty()
     }
     fn label(&self, pn: usize) -> PointCloudResult<Option<&Self::Label>> {
+        if pn >= self.len() {
+            return Ok(None);
+        }
         if let Some(mask) = &self.mask {
             if mask.get(pn) == Some(&true) {
                 Ok(self
-- 
2.43.0


From b569329fc7cf891dea04adc8a281de5719de5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:26 +0000
Subject: [PATCH 44/49] fix: fractal dimensions are no number, not a panic,
 once the writer has gone

---
 goko/src/covertree/tree.rs | 40 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index e5f8e4c..76ecb9e 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -426,17 +426,17 @@ impl<D: PointCloud> CoverTreeReader<D> {
             .ok_or(GokoError::IndexNotInTree(point_index))?
     }
 
-    ///Computes the fractal dimension of a node
+    ///Computes the fractal dimension of a node, NaN if there is no such node (the writer may have gone)
     pub fn node_fractal_dim(&self, node_address: NodeAddress) -> f32 {
         let count: f32 = self
             .get_node_and(node_address, |n| {
                 (n.singletons_len() + n.children_len()) as f32
             })
-            .unwrap() as f32;
+            .unwrap_or(f32::NAN);
         count.log(self.parameters.scale_base)
     }
 
-    ///Computes the weighted fractal dimension of a node
+    ///Computes the weighted fractal dimension of a node, NaN if there is no such node (the writer may have gone)
     pub fn node_weighted_fractal_dim(&self, node_address: NodeAddress) -> f32 {
         let weighted_count: f32 = self
             .get_node_and(node_address, |n| {
@@ -448,22 +448,21 @@ impl<D: PointCloud> CoverTreeReader<D> {
                         .iter()
                         .map(|child_addr| {
                             self.get_node_and(*child_addr, |child| child.coverage_count())
-                                .unwrap()
                         })
-                        .collect();
+                        .collect::<Option<_>>()?;
                     pops.push(
                         self.get_node_and((nested_scale, node_address.1), |child| {
                             child.coverage_count()
-                        })
-                        .unwrap(),
+                        })?,
                     );
                     max_pop = *pops.iter().max().unwrap();
                     pops.iter()
                         .for_each(|p| weighted_count += (*p as f32) / (max_pop as f32));
                 }
-                weighted_count + singleton_count / (max_pop as f32)
+                Some(weighted_count + singleton_count / (max_pop as f32))
             })
-            .unwrap();
+            .flatten()
+            .unwrap_or(f32::NAN);
         weighted_count.log(self.parameters.scale_base)
     }
 
@@ -477,30 +476,31 @@ impl<D: PointCloud> CoverTreeReader<D> {
         child_count.log(self.parameters.scale_base) - parent_count.log(self.parameters.scale_base)
     }
 
-    ///Computes the weighted fractal dimension of a node
+    ///Computes the weighted fractal dimension of a layer, NaN if its children are not there (the writer may have gone)
     pub fn layer_weighted_fractal_dim(&self, scale_index: i32) -> f32 {
         // gather the coverages of every node on the layer and their's children
         let parent_layer = self.layer(scale_index);
         let mut parent_coverage_counts: Vec<usize> = Vec::new();
         let mut child_coverage_counts: Vec<usize> = Vec::new();
         let mut singletons_count: f32 = 0.0;
+        let mut complete = true;
         parent_layer.for_each_node(|center_index, n| {
             parent_coverage_counts.push(n.coverage_count());
 
             singletons_count += n.singletons().len() as f32;
             if let Some((nested_scale, children)) = n.children() {
-                child_coverage_counts.extend(children.iter().map(|child_addr| {
-                    self.get_node_and(*child_addr, |child| child.coverage_count())
-                        .unwrap()
-                }));
-                child_coverage_counts.push(
-                    self.get_node_and((nested_scale, *center_index), |child| {
-                        child.coverage_count()
-                    })
-                    .unwrap(),
-                );
+                let nested_child = (nested_scale, *center_index);
+                for child_addr in children.iter().chain(Some(&nested_child)) {
+                    match self.get_node_and(*child_addr, |child| child.coverage_count()) {
+                        Some(count) => child_coverage_counts.push(count),
+                        None => complete = false,
+                    }
+                }
             }
         });
+        if !complete {
+            return f32::NAN;
+        }
         // Get the maximum count
         let max_parent_pop: f32 = *parent_coverage_counts.iter().max().unwrap_or(&1) as f32;
         let max_child_pop: f32 = *child_coverage_counts.iter().max().unwrap_or(&1) as f32;
-- 
2.43.0


From 840f8138010b83bf890aca3deb54d8bdb41fea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:30 +0000
Subject: [PATCH 45/49] fix: sampling a distribution with fractional or no
 weights is in proportion and does not panic

---
 goko/src/plugins/discrete/categorical.rs | 8 +++++---
 goko/src/plugins/discrete/dirichlet.rs   | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/goko/src/plugins/discrete/categorical.rs b/goko/src/plugins/discrete/categorical.rs
index 1b026d4..ee86e22 100644
--- a/goko/src/plugins/discrete/categorical.rs
+++ b/goko/src/plugins/discrete/categorical.rs
@@ -109,9 +109,11 @@ impl Categorical {
 
     /// Samples from the given categorical distribution
     pub fn sample<R: Rng>(&self, rng: &mut R) -> Option<NodeAddress> {
-        let sum = self.total() as usize;
-        let uniform = Uniform::from(0..sum);
-        let sample = uniform.sample(rng) as f64;
+        let sum = self.total();
+        if sum <= 0.0 {
+            return None;
+        }
+        let sample = Uniform::from(0.0..sum).sample(rng);
 
         let mut count = 0.0;
         for (a, c) in &self.child_counts {
diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index 73e72be..9ae7e7d 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -182,9 +182,11 @@ impl Dirichlet {
 
     /// Samples from the expected PDF of the Dirichlet distribution
     pub fn sample<R: Rng>(&self, rng: &mut R) -> Option<NodeAddress> {
-        let sum = self.total() as usize;
-        let uniform = Uniform::from(0..sum);
-        let sample = uniform.sample(rng) as f64;
+        let sum = self.total();
+        if sum <= 0.0 {
+            return None;
+        }
+        let sample = Uniform::from(0.0..sum).sample(rng);
 
         let mut count = 0.0;
         for (a, c) in &self.child_counts {
-- 
2.43.0


From 73871d16bcf916496db95de3ac73b1690ae72170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:30 +0000
Subject: [PATCH 46/49] fix: small nodes have logarithms of their probabilities
 as well

---
 goko/src/plugins/discrete/dirichlet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index 9ae7e7d..1fb5934 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -69,8 +69,9 @@ impl Dirichlet {
 
     /// Gives the probability vector for this
     pub fn ln_prob_vector(&self) -> Option<(Vec<(NodeAddress, f64)>, f64)> {
-        let total_ln = self.total().ln();
-        if total_ln > 1.0 {
+        let total = self.total();
+        if total > 0.0 {
+            let total_ln = total.ln();
             let v: Vec<(NodeAddress, f64)> = self
                 .child_counts
                 .iter()
-- 
2.43.0


From b1512f6ac91b71a4f15cb582eaf5143aba088eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:49 +0000
Subject: [PATCH 47/49] fix: the divergence of categoricals with different
 supports is none or a number, not a panic or a partial sum

---
 goko/src/plugins/discrete/categorical.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/goko/src/plugins/discrete/categorical.rs b/goko/src/plugins/discrete/categorical.rs
index ee86e22..2fb4a5f 100644
--- a/goko/src/plugins/discrete/categorical.rs
+++ b/goko/src/plugins/discrete/categorical.rs
@@ -136,14 +136,24 @@ impl Categorical {
         } else {
             let ln_total = my_total.ln() - other_total.ln();
             let mut sum: f64 = 0.0;
-            if self.singleton_count > 0.0 && other.singleton_count > 0.0 {
+            if self.singleton_count > 0.0 {
+                if other.singleton_count <= 0.0 {
+                    return None;
+                }
                 sum += (self.singleton_count / my_total)
                     * (self.singleton_count.ln() - other.singleton_count.ln() - ln_total);
             }
-            for ((ca, ca_count), (other_ca, other_ca_count)) in
-                self.child_counts.iter().zip(other.child_counts.iter())
-            {
-                assert_eq!(ca, other_ca);
+            for (ca, ca_count) in self.child_counts.iter().filter(|(_, c)| *c > 0.0) {
+                let other_ca_count = match other
+                    .child_counts
+                    .binary_search_by_key(ca, |&(a, _)| a)
+                {
+                    Ok(index) => other.child_counts[index].1,
+                    Err(_) => return None,
+                };
+                if other_ca_count <= 0.0 {
+                    return None;
+                }
                 sum += (ca_count / my_total) * (ca_count.ln() - other_ca_count.ln() - ln_total);
             }
             Some(sum)
-- 
2.43.0


From f5ca9c4b59d338aa2e09795a5b86ba2afc9c763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:17 +0000
Subject: [PATCH 48/49] fix: a build on a thread of the pool does not wait for
 itself

A thread of rayon's pool that built a tree waited for the channel without
doing any work; when all of them did so, for example in a parallel iterator
over builds, nobody was left to split the nodes and the builds never returned.
---
 goko/src/covertree/builders.rs | 61 +++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index cae9fac..eb039c5 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -84,23 +84,49 @@ impl BuilderNode {
         let parameters = Arc::clone(parameters);
         let node_sender = Arc::clone(node_sender);
         rayon::spawn(move || {
-            let (si, pi) = self.address();
-            match self.split(&parameters) {
-                Ok((new_node, mut new_nodes)) => {
-                    // Nobody is listening once another node has failed and the build was given up.
-                    if node_sender.send(Ok((si, pi, new_node))).is_ok() {
-                        while let Some(node) = new_nodes.pop() {
-                            node.split_parallel(&parameters, &node_sender);
-                        }
-                    }
-                }
-                Err(e) => {
-                    let _ = node_sender.send(Err(e));
-                }
-            };
+            let mut new_nodes = self.split_and_send(&parameters, &node_sender);
+            while let Some(node) = new_nodes.pop() {
+                node.split_parallel(&parameters, &node_sender);
+            }
         });
     }
 
+    /// The same for a caller that is a thread of the pool, and works on the nodes while the scope waits for them.
+    fn split_scoped<'s, D: PointCloud>(
+        self,
+        scope: &rayon::Scope<'s>,
+        parameters: &'s Arc<CoverTreeParameters<D>>,
+        node_sender: &'s Arc<Sender<NodeSplitResult<D>>>,
+    ) {
+        scope.spawn(move |scope| {
+            let mut new_nodes = self.split_and_send(parameters, node_sender);
+            while let Some(node) = new_nodes.pop() {
+                node.split_scoped(scope, parameters, node_sender);
+            }
+        });
+    }
+
+    /// Sends this node in and returns those that are left to split.
+    fn split_and_send<D: PointCloud>(
+        self,
+        parameters: &Arc<CoverTreeParameters<D>>,
+        node_sender: &Arc<Sender<NodeSplitResult<D>>>,
+    ) -> Vec<BuilderNode> {
+        let (si, pi) = self.address();
+        match self.split(parameters) {
+            Ok((new_node, new_nodes)) => {
+                // Nobody is listening once another node has failed and the build was given up.
+                if node_sender.send(Ok((si, pi, new_node))).is_ok() {
+                    return new_nodes;
+                }
+            }
+            Err(e) => {
+                let _ = node_sender.send(Err(e));
+            }
+        };
+        Vec::new()
+    }
+
     fn split<D: PointCloud>(
         self,
         parameters: &Arc<CoverTreeParameters<D>>,
@@ -424,7 +450,12 @@ impl CoverTreeBuilder {
 
         let node_sender = Arc::new(node_sender);
         let parameters = Arc::new(parameters);
-        root.split_parallel(&parameters, &node_sender);
+        if rayon::current_thread_index().is_some() {
+            // If all threads of the pool just waited for nodes, none would be left to make them.
+            rayon::scope(|scope| root.split_scoped(scope, &parameters, &node_sender));
+        } else {
+            root.split_parallel(&parameters, &node_sender);
+        }
         let mut pb = ProgressBar::new(1u64);
         if parameters.verbosity > 1 {
             pb.format("╢▌▌░╟");
-- 
2.43.0


From 5042668cdf45e01f76ffea80d90533c960441569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:51 +0000
Subject: [PATCH 49/49] hook: the count of requests in flight goes through the
 simulator's atomics too (cfg goko_sim)

---
 goko/src/monomap/sync.rs                | 174 ++++++++++++------------
 serve_goko/src/core/internal_service.rs |   6 +-
 serve_goko/src/http/service.rs          |   6 +-
 3 files changed, 100 insertions(+), 86 deletions(-)

diff --git a/goko/src/monomap/sync.rs b/goko/src/monomap/sync.rs
index 7fbb57f..c631fc1 100644
--- a/goko/src/monomap/sync.rs
+++ b/goko/src/monomap/sync.rs
@@ -106,96 +106,102 @@ mod sim {
 
     pub mod atomic {
         use super::Location;
-        pub use std::sync::atomic::{compiler_fence, AtomicBool, AtomicU64, Ordering};
+        pub use std::sync::atomic::*;
         use std::marker::PhantomData;
 
-        #[derive(Debug)]
-        pub struct AtomicUsize(Location);
+        macro_rules! atomic_int {
+            ($Atomic:ident, $int:ty) => {
+                #[derive(Debug)]
+                pub struct $Atomic(Location);
 
-        impl AtomicUsize {
-            pub fn new(value: usize) -> Self {
-                AtomicUsize(Location::new(value))
-            }
-            pub fn load(&self, order: Ordering) -> usize {
-                self.0.load(order)
-            }
-            pub fn store(&self, value: usize, order: Ordering) {
-                self.0.store(value, order)
-            }
-            pub fn swap(&self, value: usize, order: Ordering) -> usize {
-                self.0.rmw(order, |_| Some(value))
-            }
-            pub fn fetch_add(&self, value: usize, order: Ordering) -> usize {
-                self.0.rmw(order, |v| Some(v.wrapping_add(value)))
-            }
-            pub fn fetch_sub(&self, value: usize, order: Ordering) -> usize {
-                self.0.rmw(order, |v| Some(v.wrapping_sub(value)))
-            }
-            pub fn fetch_or(&self, value: usize, order: Ordering) -> usize {
-                self.0.rmw(order, |v| Some(v | value))
-            }
-            pub fn fetch_and(&self, value: usize, order: Ordering) -> usize {
-                self.0.rmw(order, |v| Some(v & value))
-            }
-            pub fn fetch_xor(&self, value: usize, order: Ordering) -> usize {
-                self.0.rmw(order, |v| Some(v ^ value))
-            }
-            pub fn fetch_max(&self, value: usize, order: Ordering) -> usize {
-                self.0.rmw(order, |v| Some(v.max(value)))
-            }
-            pub fn fetch_min(&self, value: usize, order: Ordering) -> usize {
-                self.0.rmw(order, |v| Some(v.min(value)))
-            }
-            pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(
-                &self,
-                set_order: Ordering,
-                _fetch_order: Ordering,
-                mut f: F,
-            ) -> Result<usize, usize> {
-                let mut done = false;
-                let old = self.0.rmw(set_order, |v| {
-                    let new = f(v);
-                    done = new.is_some();
-                    new
-                });
-                if done {
-                    Ok(old)
-                } else {
-                    Err(old)
-                }
-            }
-            pub fn compare_exchange_weak(
-                &self,
-                current: usize,
-                new: usize,
-                success: Ordering,
-                failure: Ordering,
-            ) -> Result<usize, usize> {
-                self.compare_exchange(current, new, success, failure)
-            }
-            pub fn compare_exchange(
-                &self,
-                current: usize,
-                new: usize,
-                success: Ordering,
-                _failure: Ordering,
-            ) -> Result<usize, usize> {
-                let old = self
-                    .0
-                    .rmw(success, |v| if v == current { Some(new) } else { None });
-                if old == current {
-                    Ok(old)
-                } else {
-                    Err(old)
+                impl $Atomic {
+                    pub fn new(value: $int) -> Self {
+                        $Atomic(Location::new(value as usize))
+                    }
+                    pub fn load(&self, order: Ordering) -> $int {
+                        self.0.load(order) as $int
+                    }
+                    pub fn store(&self, value: $int, order: Ordering) {
+                        self.0.store(value as usize, order)
+                    }
+                    pub fn swap(&self, value: $int, order: Ordering) -> $int {
+                        self.0.rmw(order, |_| Some(value as usize)) as $int
+                    }
+                    pub fn fetch_add(&self, value: $int, order: Ordering) -> $int {
+                        self.0.rmw(order, |v| Some((v as $int).wrapping_add(value) as usize)) as $int
+                    }
+                    pub fn fetch_sub(&self, value: $int, order: Ordering) -> $int {
+                        self.0.rmw(order, |v| Some((v as $int).wrapping_sub(value) as usize)) as $int
+                    }
+                    pub fn fetch_or(&self, value: $int, order: Ordering) -> $int {
+                        self.0.rmw(order, |v| Some(((v as $int) | value) as usize)) as $int
+                    }
+                    pub fn fetch_and(&self, value: $int, order: Ordering) -> $int {
+                        self.0.rmw(order, |v| Some(((v as $int) & value) as usize)) as $int
+                    }
+                    pub fn fetch_xor(&self, value: $int, order: Ordering) -> $int {
+                        self.0.rmw(order, |v| Some(((v as $int) ^ value) as usize)) as $int
+                    }
+                    pub fn fetch_max(&self, value: $int, order: Ordering) -> $int {
+                        self.0.rmw(order, |v| Some((v as $int).max(value) as usize)) as $int
+                    }
+                    pub fn fetch_min(&self, value: $int, order: Ordering) -> $int {
+                        self.0.rmw(order, |v| Some((v as $int).min(value) as usize)) as $int
+                    }
+                    pub fn fetch_update<F: FnMut($int) -> Option<$int>>(
+                        &self,
+                        set_order: Ordering,
+                        _fetch_order: Ordering,
+                        mut f: F,
+                    ) -> Result<$int, $int> {
+                        let mut done = false;
+                        let old = self.0.rmw(set_order, |v| {
+                            let new = f(v as $int);
+                            done = new.is_some();
+                            new.map(|n| n as usize)
+                        }) as $int;
+                        if done {
+                            Ok(old)
+                        } else {
+                            Err(old)
+                        }
+                    }
+                    pub fn compare_exchange_weak(
+                        &self,
+                        current: $int,
+                        new: $int,
+                        success: Ordering,
+                        failure: Ordering,
+                    ) -> Result<$int, $int> {
+                        self.compare_exchange(current, new, success, failure)
+                    }
+                    pub fn compare_exchange(
+                        &self,
+                        current: $int,
+                        new: $int,
+                        success: Ordering,
+                        _failure: Ordering,
+                    ) -> Result<$int, $int> {
+                        let old = self
+                            .0
+                            .rmw(success, |v| if v as $int == current { Some(new as usize) } else { None }) as $int;
+                        if old == current {
+                            Ok(old)
+                        } else {
+                            Err(old)
+                        }
+                    }
                 }
-            }
-        }
 
-        impl Default for AtomicUsize {
-            fn default() -> Self {
-                AtomicUsize::new(0)
-            }
+                impl Default for $Atomic {
+                    fn default() -> Self {
+                        $Atomic::new(0)
+                    }
+                }
+            };
         }
+        atomic_int!(AtomicUsize, usize);
+        atomic_int!(AtomicU32, u32);
 
         #[derive(Debug)]
         pub struct AtomicPtr<T>(Location, PhantomData<*mut T>);
diff --git a/serve_goko/src/core/internal_service.rs b/serve_goko/src/core/internal_service.rs
index 1b97cb8..85a29e5 100644
--- a/serve_goko/src/core/internal_service.rs
+++ b/serve_goko/src/core/internal_service.rs
@@ -8,7 +8,11 @@ use std::task::Poll;
 
 use crate::errors::*;
 
-use std::sync::{atomic, Arc, Mutex};
+#[cfg(goko_sim)]
+use goko::monomap::sync::atomic;
+#[cfg(not(goko_sim))]
+use std::sync::atomic;
+use std::sync::{Arc, Mutex};
 
 pub(crate) type CoreRequestSender<T,S> = mpsc::UnboundedSender<Message<T,S>>;
 pub(crate) type CoreRequestReciever<T,S> = mpsc::UnboundedReceiver<Message<T,S>>;
diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index 686df7d..2403384 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -13,7 +13,11 @@ use tower::Service;
 use core::task::Context;
 use std::task::Poll;
 
-use std::sync::{atomic, Arc, Mutex};
+#[cfg(goko_sim)]
+use goko::monomap::sync::atomic;
+#[cfg(not(goko_sim))]
+use std::sync::atomic;
+use std::sync::{Arc, Mutex};
 
 use std::marker::PhantomData;
 use std::ops::Deref;
-- 
2.43.0

