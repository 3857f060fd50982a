From 6e73e8e1adbbc8d902b7806f66dee582355cd0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 1/7] fix: reset_index forgets the availability remembered
 before the reset

ConsIter::reset_index and WorkIter::reset_index moved the index up to the successor but kept
cached_avail, so the next request was granted slots beyond the iterator ahead.
---
 src/iterators/sync_iterators/cons_iter.rs | 1 +
 src/iterators/sync_iterators/work_iter.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 350cb27..ab67085 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -76,6 +76,7 @@ impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index b1a04d4..097d660 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -78,6 +78,7 @@ impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 522f1b560dba4f52d82d505e7aae4702286e08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 2/7] fix: Detached::set_index and Detached::reset_index keep
 index and remembered availability consistent

Both moved the local index without touching cached_avail, so later requests were granted slots beyond
the iterator ahead; reset_index also put a detached producer onto the consumer's slot (full looked empty).
---
 src/iterators/sync_iterators/detached.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index dcecf0b..75c256e 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -69,14 +69,16 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     #[inline]
     pub unsafe fn set_index(&mut self, index: usize) {
         self.inner.set_local_index(index);
+        // what was available from the old index says nothing about the new one
+        self.inner.set_cached_avail(0);
     }
 
     /// Resets the *local* index of the iterator. I.e., moves the iterator to the location occupied by its successor.
     /// To sync the atomic index, use [`Self::sync_index`].
     #[inline]
     pub fn reset_index(&mut self) {
-        let new_idx = self.inner.succ_index();
-        self.inner.set_local_index(new_idx);
+        let avail = self.inner._available();
+        unsafe { self.inner.advance_local(avail); }
     }
 
     /// Advances the iterator as in [`MRBIterator::advance()`], but does not modify the atomic counter,
-- 
2.43.0


From bd486415d29fd97211a5a0dc7421bafbe2eef70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 3/7] fix: go_back of detached iterators wraps to buf_len -
 (count - index)

---
 src/iterators/async_iterators/detached.rs | 2 +-
 src/iterators/sync_iterators/detached.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 5109dca..fae68f8 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -56,7 +56,7 @@ impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
         
         self.inner.inner_mut().set_local_index(
             match idx < count {
-                true => buf_len.unchecked_sub(count).unchecked_sub(idx),
+                true => buf_len.unchecked_sub(count.unchecked_sub(idx)),
                 false => idx.unchecked_sub(count)
             }
         );
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index 75c256e..c343027 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -100,7 +100,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
         
         self.inner.set_local_index(
             match idx < count {
-                true => self.inner.buf_len().unchecked_sub(count).unchecked_sub(idx),
+                true => self.inner.buf_len().unchecked_sub(count.unchecked_sub(idx)),
                 false => idx.unchecked_sub(count)
             }
         );
-- 
2.43.0


From c4bbe1eaa37ad75842096844aea69cd219383dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 4/7] fix: splitting a stack buffer again starts from
 consistent indices

New iterators start at index 0, but the indices published by the previous session's iterators were kept,
so availabilities were wrong and the consumer was handed slots nobody had filled in this session.
---
 src/ring_buffer/storage/mod.rs                | 2 ++
 src/ring_buffer/variants/concurrent_rb.rs     | 2 ++
 src/ring_buffer/variants/ring_buffer_trait.rs | 7 +++++++
 3 files changed, 11 insertions(+)

diff --git a/src/ring_buffer/storage/mod.rs b/src/ring_buffer/storage/mod.rs
index cd9d717..2842301 100644
--- a/src/ring_buffer/storage/mod.rs
+++ b/src/ring_buffer/storage/mod.rs
@@ -55,6 +55,7 @@ pub(crate) mod impl_splits {
                 self.set_prod_alive(true);
                 self.set_cons_alive(true);
 
+                self.reset_indices();
                 let r = BufRef::from_ref(self);
                 (
                     ProdIter::new(r.clone()),
@@ -67,6 +68,7 @@ pub(crate) mod impl_splits {
                 self.set_work_alive(true);
                 self.set_cons_alive(true);
 
+                self.reset_indices();
                 let r = BufRef::from_ref(self);
                 (
                     ProdIter::new(r.clone()),
diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 12d48a5..2011d74 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -78,6 +78,7 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
         self.set_prod_alive(true);
         self.set_cons_alive(true);
 
+        self.reset_indices();
         let r = BufRef::from_ref(self);
         (
             AsyncProdIter::from_sync(ProdIter::new(r.clone())),
@@ -95,6 +96,7 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
         self.set_work_alive(true);
         self.set_cons_alive(true);
 
+        self.reset_indices();
         let r = BufRef::from_ref(self);
         (
             AsyncProdIter::from_sync(ProdIter::new(r.clone())),
diff --git a/src/ring_buffer/variants/ring_buffer_trait.rs b/src/ring_buffer/variants/ring_buffer_trait.rs
index 2ef5e49..b363224 100644
--- a/src/ring_buffer/variants/ring_buffer_trait.rs
+++ b/src/ring_buffer/variants/ring_buffer_trait.rs
@@ -18,6 +18,13 @@ pub trait IterManager {
     fn set_work_index(&self, index: usize);
     fn set_cons_index(&self, index: usize);
 
+    /// Puts the published indices where new iterators start.
+    fn reset_indices(&self) {
+        self.set_prod_index(0);
+        self.set_work_index(0);
+        self.set_cons_index(0);
+    }
+
     fn prod_alive(&self) -> bool;
     fn work_alive(&self) -> bool;
     fn cons_alive(&self) -> bool;
-- 
2.43.0


From c5f2e6f316a8b1261b0216d3a7086a207bcb32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 5/7] fix: a heap buffer is freed by exactly one of its
 iterators, however their drops interleave

---
 src/ring_buffer/variants/concurrent_rb.rs     | 16 ++++++++++++++--
 src/ring_buffer/variants/local_rb.rs          | 17 ++++++++++++++++-
 src/ring_buffer/variants/ring_buffer_trait.rs |  5 +++++
 src/ring_buffer/wrappers/buf_ref.rs           | 16 +++++++++++-----
 4 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 2011d74..8667d47 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -1,6 +1,6 @@
 use core::cell::UnsafeCell;
 use core::num::NonZeroUsize;
-use core::sync::atomic::Ordering::{Acquire, Release};
+use core::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
 use core::sync::atomic::{AtomicBool, AtomicUsize};
 
 #[cfg(any(feature = "async", doc))]
@@ -41,6 +41,8 @@ pub struct ConcurrentMutRingBuf<S: Storage> {
     prod_alive: AtomicBool,
     work_alive: AtomicBool,
     cons_alive: AtomicBool,
+
+    iters: AtomicUsize,
 }
 
 impl<S: Storage<Item = T>, T> MutRB for ConcurrentMutRingBuf<S> {
@@ -133,7 +135,9 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
 
             prod_alive: AtomicBool::default(),
             work_alive: AtomicBool::default(),
-            cons_alive: AtomicBool::default()
+            cons_alive: AtomicBool::default(),
+
+            iters: AtomicUsize::default()
         }
     }
 }
@@ -192,6 +196,14 @@ impl<S: Storage> IterManager for ConcurrentMutRingBuf<S> {
     fn set_cons_alive(&self, alive: bool) {
         self.cons_alive.store(alive, Release);
     }
+
+    fn add_iter(&self) {
+        self.iters.fetch_add(1, Relaxed);
+    }
+
+    fn remove_iter(&self) -> bool {
+        self.iters.fetch_sub(1, AcqRel) == 1
+    }
 }
 
 impl<S: Storage<Item = T>, T> StorageManager for ConcurrentMutRingBuf<S> {
diff --git a/src/ring_buffer/variants/local_rb.rs b/src/ring_buffer/variants/local_rb.rs
index d94d5bb..4df84f6 100644
--- a/src/ring_buffer/variants/local_rb.rs
+++ b/src/ring_buffer/variants/local_rb.rs
@@ -33,6 +33,8 @@ pub struct LocalMutRingBuf<S: Storage> {
     prod_alive: UnsafeCell<bool>,
     work_alive: UnsafeCell<bool>,
     cons_alive: UnsafeCell<bool>,
+
+    iters: UnsafeCell<usize>,
 }
 
 impl<S: Storage<Item = T>, T> MutRB for LocalMutRingBuf<S> {
@@ -55,7 +57,9 @@ impl<S: Storage<Item = T>, T> LocalMutRingBuf<S> {
 
             prod_alive: false.into(),
             work_alive: false.into(),
-            cons_alive: false.into()
+            cons_alive: false.into(),
+
+            iters: 0.into()
         }
     }
 }
@@ -114,6 +118,17 @@ impl<S: Storage> IterManager for LocalMutRingBuf<S> {
     fn set_cons_alive(&self, alive: bool) {
         unsafe { *self.cons_alive.get() = alive; }
     }
+
+    fn add_iter(&self) {
+        unsafe { *self.iters.get() += 1; }
+    }
+
+    fn remove_iter(&self) -> bool {
+        unsafe {
+            *self.iters.get() -= 1;
+            *self.iters.get() == 0
+        }
+    }
 }
 
 impl<S: Storage<Item = T>, T> StorageManager for LocalMutRingBuf<S> {
diff --git a/src/ring_buffer/variants/ring_buffer_trait.rs b/src/ring_buffer/variants/ring_buffer_trait.rs
index b363224..3224d1a 100644
--- a/src/ring_buffer/variants/ring_buffer_trait.rs
+++ b/src/ring_buffer/variants/ring_buffer_trait.rs
@@ -31,6 +31,11 @@ pub trait IterManager {
     fn set_prod_alive(&self, alive: bool);
     fn set_work_alive(&self, alive: bool);
     fn set_cons_alive(&self, alive: bool);
+
+    /// Counts an iterator in, when the buffer is split.
+    fn add_iter(&self);
+    /// Counts an iterator out: `true` for the last one, after which nobody else accesses the buffer.
+    fn remove_iter(&self) -> bool;
 }
 
 /// Trait used to manage storage.
diff --git a/src/ring_buffer/wrappers/buf_ref.rs b/src/ring_buffer/wrappers/buf_ref.rs
index bd08651..788ee59 100644
--- a/src/ring_buffer/wrappers/buf_ref.rs
+++ b/src/ring_buffer/wrappers/buf_ref.rs
@@ -13,9 +13,10 @@ pub struct BufRef<'buf, B> {
     _phantom: PhantomData<&'buf ()>
 }
 
-impl<'buf, B> BufRef<'buf, B> {
+impl<'buf, B: IterManager> BufRef<'buf, B> {
     #[cfg(feature = "alloc")]
     pub(crate) fn new(buf: B) -> Self {
+        buf.add_iter();
         let x = Box::new(buf);
 
         Self {
@@ -34,6 +35,7 @@ impl<'buf, B> BufRef<'buf, B> {
 
     #[cfg(not(feature = "vmem"))]
     pub(crate) fn from_ref(buf: &'buf mut B) -> Self {
+        buf.add_iter();
         Self {
             inner: NonNull::from(buf),
             needs_drop: false,
@@ -45,8 +47,9 @@ impl<'buf, B> BufRef<'buf, B> {
     pub(crate) fn drop(&self) {}
 }
 
-impl<B> Clone for BufRef<'_, B> {
+impl<B: IterManager> Clone for BufRef<'_, B> {
     fn clone(&self) -> Self {
+        self.add_iter();
         Self {
             inner: self.inner,
             needs_drop: self.needs_drop,
@@ -70,7 +73,8 @@ impl<B: IterManager> BufRef<'_, B> {
             fence(SeqCst);
             self.inner.as_ref().set_prod_alive(alive);
 
-            let cond = !self.inner.as_ref().work_alive() && !self.inner.as_ref().cons_alive();
+            // only one of the iterators is the last one, however their drops interleave
+            let cond = self.inner.as_ref().remove_iter();
             fence(SeqCst);
 
             if cond {
@@ -84,7 +88,8 @@ impl<B: IterManager> BufRef<'_, B> {
             fence(SeqCst);
             self.inner.as_ref().set_work_alive(alive);
 
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().cons_alive();
+            // only one of the iterators is the last one, however their drops interleave
+            let cond = self.inner.as_ref().remove_iter();
             fence(SeqCst);
 
             if cond {
@@ -98,7 +103,8 @@ impl<B: IterManager> BufRef<'_, B> {
             fence(SeqCst);
             self.inner.as_ref().set_cons_alive(alive);
 
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().work_alive();
+            // only one of the iterators is the last one, however their drops interleave
+            let cond = self.inner.as_ref().remove_iter();
             fence(SeqCst);
 
             if cond {
-- 
2.43.0


From f88e098cc44b0487c89005281ec1b0072ee00add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 6/7] fix: a task whose async operation is pending is woken
 again

---
 src/iterators/async_iterators/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iterators/async_iterators/mod.rs b/src/iterators/async_iterators/mod.rs
index cb6ce4d..685f97a 100644
--- a/src/iterators/async_iterators/mod.rs
+++ b/src/iterators/async_iterators/mod.rs
@@ -85,6 +85,8 @@ impl<I: AsyncIterator, P, O, const R: bool> Future for MRBFuture<'_, I, P, O, R>
             }
 
             if waker_registered {
+                // nobody else knows the registered waker: the task itself asks to be polled again
+                cx.waker().wake_by_ref();
                 break Poll::Pending;
             }
             self.iter.register_waker(cx.waker());
-- 
2.43.0


From 391f3455cf1cb6339b5232e22016bfbf58a5780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 7/7] fix: the two vmem views share their memory, hold the
 given items and destroy them once

---
 src/ring_buffer/storage/heap/mod.rs         | 15 +++-
 src/ring_buffer/storage/heap/vmem_helper.rs | 87 +++++++++++++++++----
 2 files changed, 82 insertions(+), 20 deletions(-)

diff --git a/src/ring_buffer/storage/heap/mod.rs b/src/ring_buffer/storage/heap/mod.rs
index 4281335..fe18fe8 100644
--- a/src/ring_buffer/storage/heap/mod.rs
+++ b/src/ring_buffer/storage/heap/mod.rs
@@ -20,7 +20,14 @@ impl <T> Drop for HeapStorage<T> {
     fn drop(&mut self) {
         unsafe {
             #[cfg(feature = "vmem")]
-            libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            {
+                core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
+
+                let size = self.len * size_of::<T>();
+                if size > 0 {
+                    libc::munmap(self.inner as _, 2 * size);
+                }
+            }
 
             #[cfg(not(feature = "vmem"))]
             let _ = Box::from_raw(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
@@ -31,11 +38,11 @@ impl <T> Drop for HeapStorage<T> {
 impl<T> HeapStorage<T> {
     #[cfg(feature = "vmem")]
     fn new(value: Box<[UnsafeSyncCell<T>]>) -> Self {
-        let r = vmem_helper::new(&value);
+        let len = value.len();
 
         Self {
-            inner: r,
-            len: value.len(),
+            inner: vmem_helper::new(value),
+            len,
         }
     }
 
diff --git a/src/ring_buffer/storage/heap/vmem_helper.rs b/src/ring_buffer/storage/heap/vmem_helper.rs
index dcc287e..6d7c1ac 100644
--- a/src/ring_buffer/storage/heap/vmem_helper.rs
+++ b/src/ring_buffer/storage/heap/vmem_helper.rs
@@ -3,6 +3,9 @@
 
 //! Utilities for `vmem` optimisation.
 
+use alloc::boxed::Box;
+use core::ffi::c_int;
+use core::mem::ManuallyDrop;
 use core::ptr;
 use crate::UnsafeSyncCell;
 
@@ -21,32 +24,84 @@ pub fn get_page_size_mul(min_size: usize) -> usize {
     min_size.div_ceil(page_size) * page_size
 }
 
-pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
+/// Returns a descriptor of anonymous memory, which can be mapped more than once.
+#[cfg(any(target_os = "linux", target_os = "android"))]
+unsafe fn shared_memory() -> c_int {
+    libc::memfd_create(b"mutringbuf\0".as_ptr() as _, libc::MFD_CLOEXEC)
+}
+
+/// Returns a descriptor of anonymous memory, which can be mapped more than once.
+#[cfg(all(unix, not(any(target_os = "linux", target_os = "android"))))]
+unsafe fn shared_memory() -> c_int {
+    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
+
+    static COUNT: AtomicUsize = AtomicUsize::new(0);
+
+    let name = alloc::format!("/mutringbuf-{}-{}\0", libc::getpid(), COUNT.fetch_add(1, Relaxed));
+    let fd = libc::shm_open(name.as_ptr() as _, libc::O_RDWR | libc::O_CREAT | libc::O_EXCL, 0o600);
+    if fd >= 0 {
+        libc::shm_unlink(name.as_ptr() as _);
+    }
+    fd
+}
+
+/// Moves the given items to the beginning of a region which is mapped twice, the second view following the first one.
+pub(crate) fn new<T>(value: Box<[UnsafeSyncCell<T>]>) -> *mut UnsafeSyncCell<T> {
     let page_size = page_size();
     assert_eq!(value.len() % page_size, 0, "must be a multiple of page size, which is: {}.", page_size);
-    
+
+    let size = size_of_val(&*value);
+    if size == 0 {
+        return ptr::NonNull::dangling().as_ptr();
+    }
+
     unsafe {
-        let size = size_of_val(value);
-        
+        let fd = shared_memory();
+        assert!(fd >= 0, "cannot create shared memory.");
+
+        if libc::ftruncate(fd, size as _) != 0 {
+            libc::close(fd);
+            panic!("cannot allocate shared memory.");
+        }
+
+        // Reserve the addresses, then replace both halves with views of the same memory.
         let buffer = libc::mmap(
             ptr::null_mut(),
             2 * size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
+            libc::PROT_NONE,
             libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
             -1, 0
         );
-        
-        libc::mmap(
-            buffer.byte_add(size),
-            size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
-            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED,
-            -1, 0
-        );
+
+        if buffer == libc::MAP_FAILED {
+            libc::close(fd);
+            panic!("cannot reserve memory.");
+        }
+
+        for view in [buffer, buffer.byte_add(size)] {
+            let r = libc::mmap(
+                view,
+                size as libc::size_t,
+                libc::PROT_READ | libc::PROT_WRITE,
+                libc::MAP_SHARED | libc::MAP_FIXED,
+                fd, 0
+            );
+
+            if r == libc::MAP_FAILED {
+                libc::munmap(buffer, 2 * size as libc::size_t);
+                libc::close(fd);
+                panic!("cannot map memory.");
+            }
+        }
+
+        libc::close(fd);
 
         let r = buffer as *mut UnsafeSyncCell<T>;
-        libc::memcpy(value.as_ptr() as _, r as _, size_of_val(value));
-        
+        ptr::copy_nonoverlapping(value.as_ptr(), r, value.len());
+
+        // Items have been moved: only the memory of the box has to be released.
+        drop(Box::from_raw(Box::into_raw(value) as *mut [ManuallyDrop<UnsafeSyncCell<T>>]));
+
         r
     }
-}
\ No newline at end of file
+}
-- 
2.43.0

