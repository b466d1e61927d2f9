From e41447017db21f1075136171e6ae7fee0ef2437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 01/60] fix: destroy reference-counted values only after every
 use through other owners

The last decrement of a reference count didn't synchronize with the earlier ones,
so that uses through other owners raced with the value's destruction.
---
 stabby-abi/src/alloc/sync.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 9036d1a..5855e95 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -18,7 +18,7 @@ use core::{
     marker::PhantomData,
     mem::{ManuallyDrop, MaybeUninit},
     ptr::NonNull,
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
+    sync::atomic::{fence, AtomicPtr, AtomicUsize, Ordering},
 };
 
 use crate::{unreachable_unchecked, vtable::HasDropVt, Dyn, IStable, IntoDyn};
@@ -286,11 +286,13 @@ impl<T, Alloc: IAlloc> Drop for Arc<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every use through the other owners must happen before the destruction.
+        fence(Ordering::Acquire);
         unsafe {
             core::ptr::drop_in_place(self.ptr.as_mut());
             _ = Weak::<T, Alloc>::from_raw(self.ptr);
@@ -383,11 +385,13 @@ impl<T, Alloc: IAlloc> Drop for Weak<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every use through the other owners must happen before the destruction.
+        fence(Ordering::Acquire);
         unsafe {
             let mut alloc = self.ptr.prefix().alloc.assume_init_read();
             self.ptr.free(&mut alloc)
@@ -586,11 +590,13 @@ impl<T, Alloc: IAlloc> Drop for ArcSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every use through the other owners must happen before the destruction.
+        fence(Ordering::Acquire);
         unsafe { core::ptr::drop_in_place(self.as_slice_mut_unchecked()) }
         _ = WeakSlice { inner: self.inner };
     }
@@ -713,11 +719,13 @@ impl<T, Alloc: IAlloc> Drop for WeakSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every use through the other owners must happen before the destruction.
+        fence(Ordering::Acquire);
         let mut alloc = unsafe { self.inner.start.prefix().alloc.assume_init_read() };
         unsafe { self.inner.start.free(&mut alloc) }
     }
@@ -744,11 +752,13 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Arc<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every use through the other owners must happen before the destruction.
+        fence(Ordering::Acquire);
         unsafe {
             drop(this.ptr.cast().as_mut());
             _ = Weak::<T, Alloc>::from_raw(this.ptr);
@@ -772,11 +782,13 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every use through the other owners must happen before the destruction.
+        fence(Ordering::Acquire);
         unsafe {
             drop(this.ptr.cast().as_mut());
             _ = Weak::<T, Alloc>::from_raw(this.ptr);
-- 
2.43.0


From 0e7ab1ca171f6bb194b89c2de1fd6b6f7ea8940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 02/60] fix: let weak trait objects drop as weak handles

Dropping a trait object behind a Weak gave up a strong reference that it doesn't hold.
---
 stabby-abi/src/alloc/sync.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 5855e95..79e839c 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -779,20 +779,9 @@ impl<T, Alloc: IAlloc> IntoDyn for Arc<T, Alloc> {
 }
 
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
-    fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
-        if unsafe { this.ptr.prefix() }
-            .strong
-            .fetch_sub(1, Ordering::Release)
-            != 1
-        {
-            return;
-        }
-        // Every use through the other owners must happen before the destruction.
-        fence(Ordering::Acquire);
-        unsafe {
-            drop(this.ptr.cast().as_mut());
-            _ = Weak::<T, Alloc>::from_raw(this.ptr);
-        }
+    fn drop(this: &mut core::mem::ManuallyDrop<Self>, _: unsafe extern "C" fn(&mut ())) {
+        // A `Weak` doesn't own its pointee, only its allocation.
+        unsafe { core::mem::ManuallyDrop::drop(this) }
     }
 }
 
-- 
2.43.0


From c423a60df88373680bf477be09dcafa7561f9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 03/60] fix: upgrade weak handles in a single atomic step

Flagging the strong count during upgrades let concurrent upgrades and drops of
the last strong handle overwrite each other's updates.
---
 stabby-abi/src/alloc/sync.rs | 46 ++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 79e839c..a4b64c8 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -359,16 +359,19 @@ impl<T, Alloc: IAlloc> Weak<T, Alloc> {
     /// Attempts to upgrade self into an Arc.
     pub fn upgrade(&self) -> Option<Arc<T, Alloc>> {
         let strong = &unsafe { self.ptr.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(Arc { ptr: self.ptr })
+        let mut count = strong.load(Ordering::Relaxed);
+        loop {
+            match count {
+                0 | USIZE_TOP_BIT => return None,
+                _ => match strong.compare_exchange_weak(
+                    count,
+                    count + 1,
+                    Ordering::Acquire,
+                    Ordering::Relaxed,
+                ) {
+                    Ok(_) => return Some(Arc { ptr: self.ptr }),
+                    Err(current) => count = current,
+                },
             }
         }
     }
@@ -656,16 +659,19 @@ impl<T, Alloc: IAlloc> WeakSlice<T, Alloc> {
     /// Return a strong reference to the slice if it hasn't been destroyed yet.
     pub fn upgrade(&self) -> Option<ArcSlice<T, Alloc>> {
         let strong = &unsafe { self.inner.start.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(ArcSlice { inner: self.inner })
+        let mut count = strong.load(Ordering::Relaxed);
+        loop {
+            match count {
+                0 | USIZE_TOP_BIT => return None,
+                _ => match strong.compare_exchange_weak(
+                    count,
+                    count + 1,
+                    Ordering::Acquire,
+                    Ordering::Relaxed,
+                ) {
+                    Ok(_) => return Some(ArcSlice { inner: self.inner }),
+                    Err(current) => count = current,
+                },
             }
         }
     }
-- 
2.43.0


From a755d074da35f5542be1dd6080d30032a5376f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 04/60] fix: decide sole ownership in one step

Reading the strong count and then the weak count misses owners that move from one to
the other in between; lock the weak count meanwhile. Such a lock requires revived
slices to hold their share of the weak count before they appear.
---
 stabby-abi/src/alloc/sync.rs | 77 ++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 20 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index a4b64c8..79b499c 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -38,6 +38,52 @@ unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Send for Arc<T, Alloc>
 // SAFETY: Same constraints as in `std`.
 unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Sync for Arc<T, Alloc> {}
 const USIZE_TOP_BIT: usize = 1 << (core::mem::size_of::<usize>() as i32 * 8 - 1);
+/// Replaces the weak count while its observer checks that it's the sole owner.
+const WEAK_LOCKED: usize = usize::MAX;
+
+/// Whether the strong and weak counts are both 1.
+///
+/// The weak count is locked for the duration of the observation: reading the counts one after the other
+/// would miss owners that move from one count to the other in between.
+fn is_sole_owner<Alloc>(prefix: &super::AllocPrefix<Alloc>) -> bool {
+    if prefix
+        .weak
+        .compare_exchange(1, WEAK_LOCKED, Ordering::Acquire, Ordering::Relaxed)
+        .is_err()
+    {
+        return false;
+    }
+    let unique = prefix.strong.load(Ordering::Acquire) == 1;
+    prefix.weak.store(1, Ordering::Release);
+    unique
+}
+/// Increments the weak count on behalf of a strong owner, returning its previous value.
+fn increment_weak<Alloc>(prefix: &super::AllocPrefix<Alloc>) -> usize {
+    let mut count = prefix.weak.load(Ordering::Relaxed);
+    loop {
+        if count == WEAK_LOCKED {
+            core::hint::spin_loop();
+            count = prefix.weak.load(Ordering::Relaxed);
+            continue;
+        }
+        match prefix.weak.compare_exchange_weak(
+            count,
+            count + 1,
+            Ordering::Acquire,
+            Ordering::Relaxed,
+        ) {
+            Ok(previous) => return previous,
+            Err(current) => count = current,
+        }
+    }
+}
+/// Reads the weak count.
+fn read_weak<Alloc>(prefix: &super::AllocPrefix<Alloc>) -> usize {
+    match prefix.weak.load(Ordering::Relaxed) {
+        WEAK_LOCKED => 1,
+        count => count,
+    }
+}
 
 #[cfg(not(stabby_default_alloc = "disabled"))]
 impl<T> Arc<T> {
@@ -226,13 +272,11 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
     }
     /// Returns the weak count. Note that all Arcs to a same value share a Weak, so the weak count can never be 0.
     pub fn weak_count(this: &Self) -> usize {
-        unsafe { this.ptr.prefix() }.weak.load(Ordering::Relaxed)
+        read_weak(unsafe { this.ptr.prefix() })
     }
     /// Increments the weak count, returning its previous value.
     pub fn increment_weak_count(this: &Self) -> usize {
-        unsafe { this.ptr.prefix() }
-            .weak
-            .fetch_add(1, Ordering::Relaxed)
+        increment_weak(unsafe { this.ptr.prefix() })
     }
 
     /// Returns a mutable reference to this `Arc`'s value, cloning that value into a new `Arc` if [`Self::get_mut`] would have failed.
@@ -252,7 +296,7 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
 
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
-        Self::strong_count(this) == 1 && Self::weak_count(this) == 1
+        is_sole_owner(unsafe { this.ptr.prefix() })
     }
     /// Attempts the value from the allocation, freeing said allocation.
     /// # Errors
@@ -335,9 +379,7 @@ impl<T, Alloc: IAlloc> From<&Weak<T, Alloc>> for Weak<T, Alloc> {
 }
 impl<T, Alloc: IAlloc> From<&Arc<T, Alloc>> for Weak<T, Alloc> {
     fn from(value: &Arc<T, Alloc>) -> Self {
-        unsafe { value.ptr.prefix() }
-            .weak
-            .fetch_add(1, Ordering::Relaxed);
+        increment_weak(unsafe { value.ptr.prefix() });
         Self { ptr: value.ptr }
     }
 }
@@ -435,8 +477,7 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Returns a mutable borrow to the slice if no other references to it may exist.
     pub fn as_slice_mut(&mut self) -> Option<&mut [T]> {
-        (ArcSlice::strong_count(self) == 1 && ArcSlice::weak_count(self) == 1)
-            .then(|| unsafe { self.as_slice_mut_unchecked() })
+        ArcSlice::is_unique(self).then(|| unsafe { self.as_slice_mut_unchecked() })
     }
     /// Returns a mutable borrow to the slice.
     /// # Safety
@@ -452,11 +493,11 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Returns the weak count to the slice.
     pub fn weak_count(this: &Self) -> usize {
-        unsafe { this.inner.start.prefix().weak.load(Ordering::Relaxed) }
+        read_weak(unsafe { this.inner.start.prefix() })
     }
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
-        Self::strong_count(this) == 1 && Self::weak_count(this) == 1
+        is_sole_owner(unsafe { this.inner.start.prefix() })
     }
     /// Returns the slice's raw representation, without altering the associated reference counts.
     ///
@@ -683,13 +724,11 @@ impl<T, Alloc: IAlloc> WeakSlice<T, Alloc> {
     where
         T: Copy,
     {
+        // If there's no strong owner left, the new one needs a weak count that's already in place when it appears.
+        let shared = self.clone();
         let strong = &unsafe { self.inner.start.prefix() }.strong;
         match strong.fetch_add(1, Ordering::Release) {
-            0 | USIZE_TOP_BIT => {
-                unsafe { self.inner.start.prefix() }
-                    .weak
-                    .fetch_add(1, Ordering::Relaxed);
-            }
+            0 | USIZE_TOP_BIT => core::mem::forget(shared),
             _ => {}
         }
         ArcSlice { inner: self.inner }
@@ -715,9 +754,7 @@ impl<T, Alloc: IAlloc> From<&WeakSlice<T, Alloc>> for WeakSlice<T, Alloc> {
 }
 impl<T, Alloc: IAlloc> From<&ArcSlice<T, Alloc>> for WeakSlice<T, Alloc> {
     fn from(value: &ArcSlice<T, Alloc>) -> Self {
-        unsafe { value.inner.start.prefix() }
-            .weak
-            .fetch_add(1, Ordering::Relaxed);
+        increment_weak(unsafe { value.inner.start.prefix() });
         Self { inner: value.inner }
     }
 }
-- 
2.43.0


From 571ca435539b9461b2b3273f7da6e27305cb0f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 05/60] fix: have trait objects behind plain references point
 to their object

They passed the address of the reference itself to the methods.
---
 stabby-abi/src/fatptr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 69aa144..b0f945b 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -52,17 +52,17 @@ pub trait IPtrClone: IPtrOwned {
 }
 impl<T> IPtr for &T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&T, &U>(self)
     }
 }
 impl<T> IPtr for &mut T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&T, &U>(self)
     }
 }
 impl<T> IPtrMut for &mut T {
     unsafe fn as_mut<U>(&mut self) -> &mut U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&mut T, &mut U>(self)
     }
 }
 impl<T> IPtrOwned for &mut T {
-- 
2.43.0


From bc162095b3eebc12166c92f3e55b2ade6bb14829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 06/60] fix: make atomic Arc cells own their value consistently

Loads took their share of the value after reading its pointer, by which time it may have
been destroyed; stores leaked the previous value, and failed exchanges leaked the new one.
---
 stabby-abi/src/alloc/sync.rs | 119 ++++++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 43 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 79b499c..f505506 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -896,6 +896,35 @@ impl<T, Alloc: IAlloc> Drop for AtomicArc<T, Alloc> {
     }
 }
 
+/// Locks a cell that owns an `Arc`'s pointee, returning the (nullable) pointer to that pointee.
+///
+/// Reading the pointer and taking a share of its pointee must not be interleaved with the pointee's replacement,
+/// which may destroy it. Since allocation prefixes are at least pointer-aligned, so are the pointees: the
+/// least significant bit of the pointer is free to mark the cell as locked.
+pub(crate) fn lock_ptr<T>(cell: &AtomicPtr<T>) -> *mut T {
+    let mut current = cell.load(Ordering::Relaxed);
+    loop {
+        if current as usize & 1 != 0 {
+            core::hint::spin_loop();
+            current = cell.load(Ordering::Relaxed);
+            continue;
+        }
+        match cell.compare_exchange_weak(
+            current,
+            current.cast::<u8>().wrapping_add(1).cast(),
+            Ordering::SeqCst,
+            Ordering::Relaxed,
+        ) {
+            Ok(ptr) => return ptr,
+            Err(changed) => current = changed,
+        }
+    }
+}
+/// Unlocks a cell locked by [`lock_ptr`], leaving `ptr` in it.
+pub(crate) fn unlock_ptr<T>(cell: &AtomicPtr<T>, ptr: *mut T) {
+    cell.store(ptr, Ordering::SeqCst)
+}
+
 type MaybeArc<T, Alloc> = Option<Arc<T, Alloc>>;
 impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
     /// Constructs a new [`AtomicArc`] set to the provided value.
@@ -907,21 +936,37 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
             alloc: PhantomData,
         }
     }
-    /// Atomically load the current value.
-    pub fn load(&self, order: Ordering) -> MaybeArc<T, Alloc> {
-        let ptr = NonNull::new(self.ptr.load(order))?;
-        unsafe {
-            Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-            Some(Arc::from_raw(AllocPtr {
+    /// Takes ownership of a pointer obtained from the cell.
+    unsafe fn own(ptr: *mut T) -> MaybeArc<T, Alloc> {
+        NonNull::new(ptr).map(|ptr| unsafe {
+            Arc::from_raw(AllocPtr {
                 ptr,
                 marker: PhantomData,
-            }))
+            })
+        })
+    }
+    /// Shares a pointer obtained from the cell, while the cell is locked.
+    unsafe fn share(ptr: *mut T) -> MaybeArc<T, Alloc> {
+        if !ptr.is_null() {
+            unsafe { Arc::<T, Alloc>::increment_strong_count(ptr) };
         }
+        unsafe { Self::own(ptr) }
+    }
+    /// Atomically load the current value.
+    ///
+    /// All operations are sequentially consistent, regardless of the requested ordering.
+    pub fn load(&self, _order: Ordering) -> MaybeArc<T, Alloc> {
+        let ptr = lock_ptr(&self.ptr);
+        let value = unsafe { Self::share(ptr) };
+        unlock_ptr(&self.ptr, ptr);
+        value
     }
     /// Atomically store a new value.
-    pub fn store(&self, value: MaybeArc<T, Alloc>, order: Ordering) {
+    pub fn store(&self, value: MaybeArc<T, Alloc>, _order: Ordering) {
         let ptr = value.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
-        self.ptr.store(ptr, order)
+        let previous = lock_ptr(&self.ptr);
+        unlock_ptr(&self.ptr, ptr);
+        drop(unsafe { Self::own(previous) });
     }
     /// Compares `self` with `current` by pointer.
     /// # Errors
@@ -929,50 +974,38 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
     pub fn is(
         &self,
         current: Option<&Arc<T, Alloc>>,
-        order: Ordering,
+        _order: Ordering,
     ) -> Result<(), MaybeArc<T, Alloc>> {
-        let ptr = NonNull::new(self.ptr.load(order));
-        match (ptr, current) {
-            (None, None) => Ok(()),
-            (None, _) => Err(None),
-            (Some(ptr), Some(current)) if core::ptr::eq(ptr.as_ptr(), current.ptr.as_ptr()) => {
-                Ok(())
-            }
-            (Some(ptr), _) => unsafe {
-                Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-                Err(Some(Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })))
-            },
-        }
+        let current = current.map_or(core::ptr::null_mut(), |value| value.ptr.ptr.as_ptr());
+        let ptr = lock_ptr(&self.ptr);
+        let result = if core::ptr::eq(ptr, current) {
+            Ok(())
+        } else {
+            Err(unsafe { Self::share(ptr) })
+        };
+        unlock_ptr(&self.ptr, ptr);
+        result
     }
     /// Replace the current value with the new value.
     /// # Errors
-    /// If `current` no longer points to the same value as `self`, it
+    /// If `current` no longer points to the same value as `self`, returns the value of `self`.
     pub fn compare_exchange(
         &self,
         current: Option<&Arc<T, Alloc>>,
         new: MaybeArc<T, Alloc>,
-        success: Ordering,
-        failure: Ordering,
+        _success: Ordering,
+        _failure: Ordering,
     ) -> Result<MaybeArc<T, Alloc>, MaybeArc<T, Alloc>> {
         let current = current.map_or(core::ptr::null_mut(), |value| value.ptr.ptr.as_ptr());
-        let new = new.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
-        match self.ptr.compare_exchange(current, new, success, failure) {
-            Ok(ptr) => Ok(NonNull::new(ptr).map(|ptr| unsafe {
-                Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })
-            })),
-            Err(ptr) => Err(NonNull::new(ptr).map(|ptr| unsafe {
-                Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-                Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })
-            })),
+        let ptr = lock_ptr(&self.ptr);
+        if core::ptr::eq(ptr, current) {
+            let new = new.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
+            unlock_ptr(&self.ptr, new);
+            Ok(unsafe { Self::own(ptr) })
+        } else {
+            let value = unsafe { Self::share(ptr) };
+            unlock_ptr(&self.ptr, ptr);
+            Err(value)
         }
     }
 }
-- 
2.43.0


From 1cd85a3777715e6713197c092535148e52823a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 07/60] fix: make the atomic B-tree set own its tree
 consistently

Reads and edits took their share of the tree after reading its root, by which time it may have
been destroyed; edits could mistake a new tree for the one they started from; and the set leaked
its tree when dropped.
---
 stabby-abi/src/alloc/collections/arc_btree.rs | 56 ++++++++++++-------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index d74a0f6..c8b5b25 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -3,7 +3,10 @@ use core::{
     sync::atomic::AtomicPtr,
 };
 
-use crate::alloc::{sync::Arc, AllocPtr, DefaultAllocator, IAlloc};
+use crate::alloc::{
+    sync::{lock_ptr, unlock_ptr, Arc},
+    AllocPtr, DefaultAllocator, IAlloc,
+};
 
 /// An [`ArcBTreeSet`] that can be atomically modified.
 pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>(
@@ -38,38 +41,49 @@ where
             ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
         ) -> ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
     ) {
-        let mut current = self.0.load(core::sync::atomic::Ordering::Acquire);
+        let mut current = self.snapshot();
         loop {
-            let new = f(ArcBTreeSet::copy_from_ptr(current));
+            let new = f(ArcBTreeSet::copy_from_ptr(current.as_ptr()));
             let new_ptr = new.as_ptr();
-            if core::ptr::eq(current, new_ptr) {
+            if core::ptr::eq(current.as_ptr(), new_ptr) {
                 return;
             }
-            match self.0.compare_exchange(
-                current,
-                new_ptr,
-                core::sync::atomic::Ordering::Release,
-                core::sync::atomic::Ordering::Acquire,
-            ) {
+            let ptr = lock_ptr(&self.0);
+            if core::ptr::eq(current.as_ptr(), ptr) {
+                unlock_ptr(&self.0, new_ptr);
+                core::mem::forget(new);
                 // SAFETY: we've just replaced the old pointer succesfully, we can now free it.
-                Ok(old) => unsafe {
-                    core::mem::forget(new);
-                    ArcBTreeSet::take_ownership_from_ptr(old);
-                    return;
-                },
-                Err(new_old) => {
-                    current = new_old;
-                }
+                drop(unsafe { ArcBTreeSet::take_ownership_from_ptr(ptr) });
+                return;
             }
+            let changed = ArcBTreeSet::copy_from_ptr(ptr);
+            unlock_ptr(&self.0, ptr);
+            current = changed;
         }
     }
+    /// Returns a share of the current value.
+    fn snapshot(&self) -> ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT> {
+        let ptr = lock_ptr(&self.0);
+        let current = ArcBTreeSet::copy_from_ptr(ptr);
+        unlock_ptr(&self.0, ptr);
+        current
+    }
     /// Calls `f` with the current value of in the set associated with `value`.
     pub fn get<K>(&self, value: &K, f: impl FnOnce(Option<&T>))
     where
         T: PartialOrd<K>,
     {
-        let set = ArcBTreeSet::copy_from_ptr(self.0.load(core::sync::atomic::Ordering::Relaxed));
-        f(set.get(value))
+        f(self.snapshot().get(value))
+    }
+}
+impl<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Drop
+    for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
+where
+    DefaultAllocator: core::default::Default + IAlloc,
+{
+    fn drop(&mut self) {
+        // SAFETY: `self` owned the pointee, and nobody will access `self` anymore.
+        drop(unsafe { ArcBTreeSet::take_ownership_from_ptr(*self.0.get_mut()) })
     }
 }
 
@@ -246,7 +260,7 @@ impl<T, Alloc: IAlloc, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>
         }
     }
 }
-impl<T: Ord + Clone, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>
+impl<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>
     ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>
 where
     DefaultAllocator: core::default::Default,
-- 
2.43.0


From 8ef6bc12010ef9bad51dd8806fb3d18aaa9ecba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 08/60] fix: read checked imports only after their
 initialization

The flag that marks an import as validated was read without synchronizing with the write of the import.
---
 stabby-abi/src/checked_import.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 1e1c678..90db6e4 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -109,7 +109,7 @@ impl<F> CheckedImport<F> {
     /// Returns a [`ReportMismatch`] if the local and loaded reports differ.
     pub fn as_ref(&self) -> Result<&F, ReportMismatch> {
         loop {
-            match self.checked.load(Ordering::Relaxed) {
+            match self.checked.load(Ordering::Acquire) {
                 UNCHECKED => match unsafe { (self.checker)(self.local_report) } {
                     Some(result) => {
                         if self
-- 
2.43.0


From ab92a2508e72297a8ae2c62684efaf9b460564e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 09/60] fix: hand canaried imports out only once their canaries
 were checked

The import was marked as checked before the check, letting other threads use it meanwhile.
---
 stabby-abi/src/checked_import.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 90db6e4..da151b0 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -40,8 +40,9 @@ impl<F> CanariedImport<F> {
 impl<F> Deref for CanariedImport<F> {
     type Target = F;
     fn deref(&self) -> &Self::Target {
-        if self.checked.swap(1, Ordering::Relaxed) == 0 {
-            (self.canary)()
+        if self.checked.load(Ordering::Acquire) == 0 {
+            (self.canary)();
+            self.checked.store(1, Ordering::Release);
         }
         &self.result
     }
-- 
2.43.0


From 5add8792e2f048172bd439892604673691f1bdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 10/60] fix: let vectors hold zero-sized elements

Pushing one used to divide by zero at compile time, measuring capacities
overflowed, and elements beyond the first were accessed out of alignment.
---
 stabby-abi/src/alloc/vec.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index f971e08..24d8d06 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -52,7 +52,8 @@ pub(crate) const fn ptr_diff<T>(lhs: NonNull<T>, rhs: NonNull<T>) -> usize {
     } else {
         unsafe { lhs.as_ptr().offset_from(rhs.as_ptr()) }
     };
-    debug_assert!(diff >= 0);
+    // The capacity of a vector of zero-sized elements exceeds `isize::MAX`.
+    debug_assert!(diff >= 0 || core::mem::size_of::<T>() == 0);
     diff as usize
 }
 pub(crate) const fn ptr_add<T>(lhs: NonNull<T>, rhs: usize) -> NonNull<T> {
@@ -152,9 +153,13 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         if self.inner.end == self.inner.capacity {
             self.grow();
         }
-        unsafe { self.inner.end.as_ptr().write(value) }
+        unsafe { self.slot(self.len()).write(value) }
         self.inner.end = ptr_add(self.inner.end, 1)
     }
+    /// The (aligned) slot of the `index`th element.
+    const fn slot(&self, index: usize) -> *mut T {
+        unsafe { self.inner.start.ptr.as_ptr().add(index) }
+    }
     /// Adds `value` at the end of `self`.
     ///
     /// # Errors
@@ -166,7 +171,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         if self.inner.end == self.inner.capacity && self.try_grow().is_err() {
             return Err(value);
         }
-        unsafe { self.inner.end.as_ptr().write(value) }
+        unsafe { self.slot(self.len()).write(value) }
         self.inner.end = ptr_add(self.inner.end, 1);
         Ok(())
     }
@@ -178,10 +183,10 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     pub const fn remaining_capacity(&self) -> usize {
         ptr_diff(self.inner.capacity, self.inner.end)
     }
-    const FIRST_CAPACITY: usize = match 1024 / core::mem::size_of::<T>() {
-        0 => 1,
-        v @ 1..=8 => v,
-        _ => 8,
+    const FIRST_CAPACITY: usize = match core::mem::size_of::<T>() {
+        0..=128 => 8,
+        size @ 129..=1024 => 1024 / size,
+        _ => 1,
     };
     fn grow(&mut self) {
         self.try_grow().unwrap();
@@ -305,7 +310,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         }
         self.try_reserve(slice.len())?;
         unsafe {
-            core::ptr::copy_nonoverlapping(slice.as_ptr(), self.inner.end.as_ptr(), slice.len());
+            core::ptr::copy_nonoverlapping(slice.as_ptr(), self.slot(self.len()), slice.len());
             self.set_len(self.len() + slice.len());
         }
         Ok(())
@@ -424,7 +429,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             None
         } else {
             unsafe {
-                let value = self.inner.end.as_ptr().sub(1).read();
+                let value = self.slot(self.len() - 1).read();
                 self.set_len(self.len() - 1);
                 Some(value)
             }
@@ -559,7 +564,7 @@ impl<T, Alloc: IAlloc> core::iter::Extend<T> for Vec<T, Alloc> {
             Some(max) => {
                 self.reserve(max);
                 iter.for_each(|item| {
-                    unsafe { self.inner.end.as_ptr().write(item) };
+                    unsafe { self.slot(self.len()).write(item) };
                     self.inner.end = ptr_add(self.inner.end, 1);
                 })
             }
-- 
2.43.0


From 08aeea98a890b19d3389894c8502ab0a0938d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 11/60] fix: drain vectors from the back without skipping an
 element

---
 stabby-abi/src/alloc/vec.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 24d8d06..2e9269a 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -755,7 +755,7 @@ pub struct DoubleEndedDrain<'a, T: 'a, Alloc: IAlloc + 'a> {
 impl<'a, T: 'a, Alloc: IAlloc + 'a> Iterator for DoubleEndedDrain<'a, T, Alloc> {
     type Item = T;
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.to - self.lindex;
+        let remaining = self.rindex - self.lindex;
         (remaining, Some(remaining))
     }
     fn next(&mut self) -> Option<Self::Item> {
@@ -769,9 +769,8 @@ impl<'a, T: 'a, Alloc: IAlloc + 'a> Iterator for DoubleEndedDrain<'a, T, Alloc>
 impl<'a, T: 'a, Alloc: IAlloc + 'a> DoubleEndedIterator for DoubleEndedDrain<'a, T, Alloc> {
     fn next_back(&mut self) -> Option<Self::Item> {
         (self.lindex < self.rindex).then(|| unsafe {
-            let ret = self.vec.inner.start.as_ptr().add(self.rindex).read();
             self.rindex -= 1;
-            ret
+            self.vec.inner.start.as_ptr().add(self.rindex).read()
         })
     }
 }
-- 
2.43.0


From 94ce6597548ccd8173c1345e080fb59d67820ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 12/60] fix: have try_drain drain valid ranges and refuse
 invalid ones

---
 stabby-abi/src/alloc/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 2e9269a..25c3f97 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -378,7 +378,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => original_len,
         };
-        if to >= from || to <= original_len {
+        if to < from || to > original_len {
             return None;
         }
         unsafe { self.set_len(from) };
-- 
2.43.0


From 0678e790450bffcd582acf3b636cf974b083c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:49 +0000
Subject: [PATCH 13/60] fix: don't trust size hints to extend vectors

---
 stabby-abi/src/alloc/vec.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 25c3f97..38244d3 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -559,20 +559,10 @@ impl<T: Copy, Alloc: IAlloc + Default> From<&[T]> for Vec<T, Alloc> {
 impl<T, Alloc: IAlloc> core::iter::Extend<T> for Vec<T, Alloc> {
     fn extend<Iter: IntoIterator<Item = T>>(&mut self, iter: Iter) {
         let iter = iter.into_iter();
-        let (min, max) = iter.size_hint();
-        match max {
-            Some(max) => {
-                self.reserve(max);
-                iter.for_each(|item| {
-                    unsafe { self.slot(self.len()).write(item) };
-                    self.inner.end = ptr_add(self.inner.end, 1);
-                })
-            }
-            _ => {
-                self.reserve(min);
-                iter.for_each(|item| self.push(item))
-            }
-        }
+        let (min, _) = iter.size_hint();
+        // Size hints can't be trusted: pushing checks that there's room for each item.
+        self.reserve(min);
+        iter.for_each(|item| self.push(item))
     }
 }
 
-- 
2.43.0


From 09a2f60fa7277d37512f93d1cdcf9103f5e93eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 14/60] fix: never drop elements twice when truncating vectors
 panics

---
 stabby-abi/src/alloc/vec.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 38244d3..8b4d053 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -254,8 +254,10 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             return;
         }
         unsafe {
-            core::ptr::drop_in_place(&mut self[len..]);
-            self.set_len(len)
+            let truncated: *mut [T] = &mut self[len..];
+            // If dropping an element panics, none must be dropped again.
+            self.set_len(len);
+            core::ptr::drop_in_place(truncated);
         };
     }
     /// Returns a slice of the vector's elements.
@@ -656,8 +658,10 @@ impl<T, Alloc: IAlloc> Iterator for IntoIter<T, Alloc> {
 impl<T, Alloc: IAlloc> Drop for IntoIter<T, Alloc> {
     fn drop(&mut self) {
         unsafe {
-            core::ptr::drop_in_place(&mut self.vec.as_slice_mut()[self.index..]);
+            let remaining: *mut [T] = &mut self.vec.as_slice_mut()[self.index..];
+            // If dropping an element panics, none must be dropped again.
             self.vec.set_len(0);
+            core::ptr::drop_in_place(remaining);
         }
     }
 }
-- 
2.43.0


From 62d8901affc54969696a28078207cc4365e55179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 15/60] fix: allocate enough room for over-aligned elements

The alignment of elements was ignored when allocating, so aligning them
could push them beyond the end of the allocation, and reallocation was
passed the address of the prefix instead of the allocation's.
---
 stabby-abi/src/alloc/mod.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 472c5ac..30c078c 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -358,8 +358,7 @@ impl<T, Alloc: IAlloc> AllocPtr<T, Alloc> {
     }
     /// Allocates a pointer to an array of `capacity` `T`, prefixed by an [`AllocPrefix`]
     pub fn alloc_array(alloc: &mut Alloc, capacity: usize) -> Option<Self> {
-        let mut layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(capacity));
-        layout.align = core::mem::align_of::<AllocPrefix<Alloc>>();
+        let layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(capacity));
         let ptr = alloc.alloc(layout);
         NonNull::new(ptr).map(|ptr| unsafe { Self::init(ptr, capacity) })
     }
@@ -375,13 +374,9 @@ impl<T, Alloc: IAlloc> AllocPtr<T, Alloc> {
         prev_capacity: usize,
         new_capacity: usize,
     ) -> Option<Self> {
-        let mut layout =
-            Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(prev_capacity));
-        layout.align = core::mem::align_of::<AllocPrefix<Alloc>>();
+        let layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(prev_capacity));
         let ptr = alloc.realloc(
-            (self.prefix() as *const AllocPrefix<Alloc>)
-                .cast_mut()
-                .cast(),
+            self.prefix().origin.as_ptr(),
             layout,
             Layout::of::<AllocPrefix<Alloc>>()
                 .concat(Layout::array::<T>(new_capacity))
-- 
2.43.0


From 7a4ee4f51a0df68ea2f985478e5e875991b4fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 16/60] fix: refuse allocations whose size overflows

---
 stabby-abi/src/alloc/mod.rs | 11 +++++++----
 stabby-abi/src/alloc/vec.rs |  4 +++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 30c078c..bd82e02 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -74,16 +74,18 @@ impl Layout {
     ///
     /// Note that while this ensures that even if `T`'s size is not a multiple of its alignment,
     /// the layout will have sufficient memory to store `n` of `T` in an aligned fashion.
+    ///
+    /// Sizes that overflow saturate, which no allocator can satisfy.
     pub const fn array<T: Sized>(n: usize) -> Self {
         let Self { size, align } = Self::of::<T>();
         Layout {
-            size: size * n,
+            size: size.saturating_mul(n),
             align,
         }
     }
     /// Concatenates a layout to `self`, ensuring that alignment padding is taken into account.
     pub const fn concat(mut self, other: Self) -> Self {
-        self.size += other.size;
+        self.size = self.size.saturating_add(other.size);
         self.realign(if self.align < other.align {
             other.align
         } else {
@@ -101,8 +103,9 @@ impl Layout {
     /// Changes the alignment of the layout, adding padding if necessary.
     pub const fn realign(mut self, new_align: usize) -> Self {
         self.align = new_align;
-        self.size = self.size
-            + (new_align - (self.size % new_align)) * (((self.size % new_align) != 0) as usize);
+        self.size = self.size.saturating_add(
+            (new_align - (self.size % new_align)) * (((self.size % new_align) != 0) as usize),
+        );
         self
     }
 }
diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 8b4d053..b0e3789 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -218,7 +218,9 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     pub fn try_reserve(&mut self, additional: usize) -> Result<NonMaxUsize, AllocationError> {
         if self.remaining_capacity() < additional {
             let len = self.len();
-            let new_capacity = len + additional;
+            let Some(new_capacity) = len.checked_add(additional) else {
+                return Err(AllocationError());
+            };
             let old_capacity = self.capacity();
             let start = if old_capacity != 0 {
                 unsafe {
-- 
2.43.0


From b8b926976a28166529b5d8b092cf0cb12ca7647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 17/60] fix: refuse to reserve more zero-sized elements than a
 vector can count

---
 stabby-abi/src/alloc/vec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index b0e3789..aa1d8ab 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -221,6 +221,10 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             let Some(new_capacity) = len.checked_add(additional) else {
                 return Err(AllocationError());
             };
+            if Self::zst_mode() {
+                // There's no allocation to grow.
+                return Err(AllocationError());
+            }
             let old_capacity = self.capacity();
             let start = if old_capacity != 0 {
                 unsafe {
-- 
2.43.0


From 54634de38cec549fb300bd683386217af3117992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 18/60] fix: keep the single element of a SingleOrVec owned
 once when changing forms

---
 stabby-abi/src/alloc/single_or_vec.rs | 68 +++++++++++++--------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index 670069c..ae9c8b3 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -201,29 +201,29 @@ where
     /// Returns Ok(new_capacity) if succesful (including if no reallocation was needed),
     /// otherwise returns Err(AllocationError)
     pub fn try_reserve(&mut self, additional: usize) -> Result<NonMaxUsize, AllocationError> {
-        let inner = &mut self.inner as *mut _;
-        self.inner.match_mut(
-            |value| unsafe {
-                let new_capacity = 1 + additional;
-                // either `inner` must be leaked and overwritten by the new owner of `value` and `alloc`,
-                // or these two must be leaked to prevent double frees.
-                let Single { value, alloc } = core::ptr::read(&*value);
-                match Vec::try_with_capacity_in(new_capacity, alloc) {
-                    Ok(mut vec) => {
-                        vec.push(value);
-                        // overwrite `inner` with `value` and `alloc` with their new owner without freeing `inner`.
-                        core::ptr::write(inner, crate::Result::Err(vec));
-                        NonMaxUsize::new(new_capacity).ok_or(AllocationError())
-                    }
-                    Err(alloc) => {
-                        // leak both `value` and `alloc` since `inner` can't be overwritten
-                        core::mem::drop((value, alloc));
-                        Err(AllocationError())
-                    }
-                }
-            },
-            |mut vec| vec.try_reserve(additional),
-        )
+        if let Some(mut vec) = self.inner.err_mut() {
+            return vec.try_reserve(additional);
+        }
+        let new_capacity = additional.checked_add(1).ok_or(AllocationError())?;
+        // either `self.inner` must be leaked and overwritten by the new owner of `value` and `alloc`,
+        // or these two must be leaked to prevent double frees.
+        let Single { value, alloc } = self.inner.match_ref(
+            |single| unsafe { core::ptr::read(single) },
+            |_| unsafe { crate::unreachable_unchecked!() },
+        );
+        match Vec::try_with_capacity_in(new_capacity, alloc) {
+            Ok(mut vec) => {
+                vec.push(value);
+                // overwrite `value` and `alloc` with their new owner without freeing `self.inner`.
+                unsafe { core::ptr::write(&mut self.inner, crate::Result::Err(vec)) };
+                NonMaxUsize::new(new_capacity).ok_or(AllocationError())
+            }
+            Err(alloc) => {
+                // leak both `value` and `alloc` since `self.inner` can't be overwritten
+                core::mem::forget((value, alloc));
+                Err(AllocationError())
+            }
+        }
     }
     /// Removes all elements from `self` from the `len`th onward.
     ///
@@ -232,16 +232,16 @@ where
         if self.len() <= len {
             return;
         }
-        let inner = &mut self.inner as *mut _;
-        self.inner.match_mut(
-            |value| unsafe {
-                let Single { value, alloc } = core::ptr::read(&*value);
-                core::mem::drop(value); // drop `value` to prevent leaking it since we'll overwrite `inner` with something that doesn't own it
-                                        // overwrite `inner` with the new owner of `alloc`
-                core::ptr::write(inner, crate::Result::Err(Vec::new_in(alloc)))
-            },
-            |mut vec| vec.truncate(len),
-        )
+        if let Some(mut vec) = self.inner.err_mut() {
+            return vec.truncate(len);
+        }
+        let Single { value, alloc } = self.inner.match_ref(
+            |single| unsafe { core::ptr::read(single) },
+            |_| unsafe { crate::unreachable_unchecked!() },
+        );
+        // overwrite `self.inner` with the new owner of `alloc`
+        unsafe { core::ptr::write(&mut self.inner, crate::Result::Err(Vec::new_in(alloc))) };
+        core::mem::drop(value); // drop `value` to prevent leaking it since `self.inner` doesn't own it anymore
     }
     /// Returns a slice of the elements in the vector.
     pub fn as_slice(&self) -> &[T] {
@@ -508,7 +508,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start += n;
+        self.start = self.start.saturating_add(n);
         self.next()
     }
 }
-- 
2.43.0


From 1f0d2f4d26f3e8a58762d2404c5f80cbe8fadbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 19/60] fix: don't drop an Arc when turning it into a slice

---
 stabby-abi/src/alloc/sync.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index f505506..038e58a 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -532,10 +532,12 @@ impl<T, Alloc: IAlloc> Clone for ArcSlice<T, Alloc> {
 impl<T, Alloc: IAlloc> From<Arc<T, Alloc>> for ArcSlice<T, Alloc> {
     fn from(mut value: Arc<T, Alloc>) -> Self {
         unsafe { value.ptr.prefix_mut() }.capacity = AtomicUsize::new(1);
+        // The slice becomes the owner.
+        let start = Arc::into_raw(value);
         Self {
             inner: AllocSlice {
-                start: value.ptr,
-                end: ptr_add(value.ptr.ptr, 1),
+                start,
+                end: ptr_add(start.ptr, 1),
             },
         }
     }
-- 
2.43.0


From a18cfea96b69fad27fd9cec650f176ad1506cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 20/60] fix: turn empty vectors into shared slices and back
 soundly

---
 stabby-abi/src/alloc/sync.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 038e58a..5b6e7bc 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -571,12 +571,9 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                 start.prefix_mut().capacity = if core::mem::size_of::<T>() != 0 {
                     AtomicUsize::new(0)
                 } else {
-                    AtomicUsize::new(ptr_diff(
-                        core::mem::transmute::<usize, NonNull<u8>>(usize::MAX),
-                        start.ptr.cast::<u8>(),
-                    ))
+                    AtomicUsize::new(usize::MAX)
                 };
-                slice.start.prefix_mut().alloc.write(alloc);
+                start.prefix_mut().alloc.write(alloc);
             }
             Self {
                 inner: AllocSlice {
@@ -594,19 +591,23 @@ impl<T, Alloc: IAlloc> TryFrom<ArcSlice<T, Alloc>> for Vec<T, Alloc> {
             Err(value)
         } else {
             unsafe {
-                let ret = Vec {
+                let AllocSlice { start, end } = value.inner;
+                core::mem::forget(value);
+                let capacity = start.prefix().capacity.load(Ordering::Relaxed);
+                let mut alloc = start.prefix().alloc.assume_init_read();
+                if capacity == 0 {
+                    // Vectors without capacity don't own an allocation.
+                    start.free(&mut alloc);
+                    return Ok(Vec::new_in(alloc));
+                }
+                Ok(Vec {
                     inner: VecInner {
-                        start: value.inner.start,
-                        end: value.inner.end,
-                        capacity: ptr_add(
-                            value.inner.start.ptr,
-                            value.inner.start.prefix().capacity.load(Ordering::Relaxed),
-                        ),
-                        alloc: value.inner.start.prefix().alloc.assume_init_read(),
+                        start,
+                        end,
+                        capacity: ptr_add(start.ptr, capacity),
+                        alloc,
                     },
-                };
-                core::mem::forget(value);
-                Ok(ret)
+                })
             }
         }
     }
-- 
2.43.0


From 546178761ba86c58a3a49048f14d260f5c65e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 21/60] fix: let empty boxed slices own their allocation

---
 stabby-abi/src/alloc/boxed.rs | 40 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 0369bb1..30297d2 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -308,38 +308,36 @@ impl<T, Alloc: IAlloc> BoxedSlice<T, Alloc> {
     /// # Errors
     /// Returns the value if pushing would require reallocating.
     pub fn try_push(&mut self, value: T) -> Result<(), T> {
-        // SAFETY: the prefix must be initialized for this type to exist.
-        if self.slice.len()
-            >= unsafe { self.slice.start.prefix() }
-                .capacity
-                .load(core::sync::atomic::Ordering::Relaxed)
-        {
+        if core::mem::size_of::<T>() != 0 && self.slice.len() >= self.capacity() {
             return Err(value);
         }
         // SAFETY: we've acertained that we have enough space to push an element.
         unsafe {
-            core::ptr::write(self.slice.end.as_ptr(), value);
-            self.slice.end = NonNull::new_unchecked(self.slice.end.as_ptr().add(1));
+            core::ptr::write(self.slice.start.ptr.as_ptr().add(self.len()), value);
         }
+        self.slice.end = ptr_add(self.slice.end, 1);
         Ok(())
     }
+    /// Whether the slice owns an allocation: it may even if it's empty, as it may have spare capacity.
+    fn is_allocated(&self) -> bool {
+        core::mem::size_of::<T>() != 0 && self.slice.start.ptr != AllocPtr::<T, Alloc>::dangling().ptr
+    }
+    /// The number of elements that fit in the allocation, 0 if there is none.
+    fn capacity(&self) -> usize {
+        if !self.is_allocated() {
+            return 0;
+        }
+        // SAFETY: we store the capacity in the prefix when constructed.
+        unsafe { self.slice.start.prefix() }
+            .capacity
+            .load(core::sync::atomic::Ordering::Relaxed)
+    }
     pub(crate) fn into_raw_components(self) -> (AllocSlice<T, Alloc>, usize, Alloc) {
         let slice = self.slice;
+        let capacity = self.capacity();
         // SAFETY: We forget `alloc` immediately.
         let alloc = unsafe { core::ptr::read(&self.alloc) };
         core::mem::forget(self);
-        let capacity = if core::mem::size_of::<T>() == 0 || slice.is_empty() {
-            0
-        } else {
-            // SAFETY: we store the capacity in the prefix when constructed.
-            unsafe {
-                slice
-                    .start
-                    .prefix()
-                    .capacity
-                    .load(core::sync::atomic::Ordering::Relaxed)
-            }
-        };
         (slice, capacity, alloc)
     }
 }
@@ -438,7 +436,7 @@ impl<T, Alloc: IAlloc + Default> FromIterator<T> for BoxedSlice<T, Alloc> {
 impl<T, Alloc: IAlloc> Drop for BoxedSlice<T, Alloc> {
     fn drop(&mut self) {
         unsafe { core::ptr::drop_in_place(self.as_slice_mut()) }
-        if core::mem::size_of::<T>() != 0 && !self.is_empty() {
+        if self.is_allocated() {
             unsafe { self.slice.start.free(&mut self.alloc) }
         }
     }
-- 
2.43.0


From 32d3d1146ea7534b675b2d822b62c5a5aeee2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:47 +0000
Subject: [PATCH 22/60] fix: RustAlloc reports a refused allocation instead of
 writing through null

---
 stabby-abi/src/alloc/allocators/rust_alloc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stabby-abi/src/alloc/allocators/rust_alloc.rs b/stabby-abi/src/alloc/allocators/rust_alloc.rs
index 29dc4d1..7c819b4 100644
--- a/stabby-abi/src/alloc/allocators/rust_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/rust_alloc.rs
@@ -26,6 +26,9 @@ extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
     };
     // SAFETY: The layout is always non-zero-sized
     let alloc_start = unsafe { alloc_rs::alloc::alloc(layout) };
+    if alloc_start.is_null() {
+        return core::ptr::null_mut();
+    }
     let ret = // SAFETY: the addition is indeed in-bound.
         unsafe { alloc_start.add(layout.align().max(core::mem::size_of::<RustAllocPrefix>())) };
     // SAFETY: `ret` is allocated and _at least_ one `RustAllocPrefix` greater than the start of the allocation, so writing there is safe.
@@ -58,6 +61,9 @@ extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size:
     unsafe {
         // If `ptr` was indeed allocated on by this allocator, then `realloc_start` was indeed allocated by _our_ GlobalAlloc.
         let alloc_start = alloc_rs::alloc::realloc(realloc_start, layout, requested.size);
+        if alloc_start.is_null() {
+            return core::ptr::null_mut();
+        }
         // We follow the same return-value shifting as in `alloc`
         let ret = alloc_start.add(layout.align().max(core::mem::size_of::<RustAllocPrefix>()));
         // And prepend the same prefix
-- 
2.43.0


From fc766390254d49e5fc8f60089f327080f8ecb478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 23/60] fix: reallocation as provided by default copied beyond
 the new block when shrinking

---
 stabby-abi/src/alloc/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index bd82e02..19f4fff 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -139,7 +139,11 @@ pub trait IAlloc: Unpin {
         });
         if !ret.is_null() {
             unsafe {
-                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), prev_layout.size);
+                core::ptr::copy_nonoverlapping(
+                    ptr.cast::<u8>(),
+                    ret.cast(),
+                    prev_layout.size.min(new_size),
+                );
                 self.free(ptr);
             }
         }
@@ -178,7 +182,11 @@ pub trait IStableAlloc: Unpin {
         });
         if !ret.is_null() {
             unsafe {
-                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), prev_layout.size);
+                core::ptr::copy_nonoverlapping(
+                    ptr.cast::<u8>(),
+                    ret.cast(),
+                    prev_layout.size.min(new_size),
+                );
                 self.free(ptr);
             }
         }
-- 
2.43.0


From cbc702632de80d9a9b850461eccdbefabd2331a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 24/60] fix: RustAlloc placed blocks of large alignments past
 their allocation, and granted empty or impossible sizes

---
 stabby-abi/src/alloc/allocators/rust_alloc.rs | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/rust_alloc.rs b/stabby-abi/src/alloc/allocators/rust_alloc.rs
index 7c819b4..3fb15bc 100644
--- a/stabby-abi/src/alloc/allocators/rust_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/rust_alloc.rs
@@ -19,8 +19,18 @@ pub struct RustAllocPrefix {
     vtable: RustAllocVt,
 }
 
+/// The layout of an allocation for `requested`, prefixed with padding and a [`RustAllocPrefix`].
+fn prefixed(requested: Layout) -> Layout {
+    let prefix = Layout::of::<RustAllocPrefix>();
+    prefix
+        .realign(prefix.align.max(requested.align))
+        .concat(requested)
+}
 extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
-    let requested = Layout::of::<RustAllocPrefix>().concat(requested);
+    if requested.size == 0 {
+        return core::ptr::null_mut();
+    }
+    let requested = prefixed(requested);
     let Ok(layout) = core::alloc::Layout::from_size_align(requested.size, requested.align) else {
         return core::ptr::null_mut();
     };
@@ -41,6 +51,9 @@ extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
     ret.cast()
 }
 extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size: usize) -> *mut () {
+    if new_size == 0 {
+        return core::ptr::null_mut();
+    }
     // SAFETY: The corresponding `alloc` returns the allocation offset by this much (see the line where `ret` is constructed in both the `alloc` and `realloc` functions)
     let realloc_start = unsafe {
         ptr.cast::<u8>().sub(
@@ -53,10 +66,13 @@ extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size:
     else {
         return core::ptr::null_mut();
     };
-    let requested = Layout::of::<RustAllocPrefix>().concat(Layout {
+    let requested = prefixed(Layout {
         size: new_size,
         align: prev_layout.align,
     });
+    if core::alloc::Layout::from_size_align(requested.size, requested.align).is_err() {
+        return core::ptr::null_mut();
+    }
     // SAFETY: See each line
     unsafe {
         // If `ptr` was indeed allocated on by this allocator, then `realloc_start` was indeed allocated by _our_ GlobalAlloc.
-- 
2.43.0


From 373ed9cdb1dfe8f9b839ac900c1322d7c413c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 25/60] fix: LibcAlloc refused small alignments, trusted a
 failed call's output, and copied beyond the new block when shrinking

---
 stabby-abi/src/alloc/allocators/libc_alloc.rs | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/libc_alloc.rs b/stabby-abi/src/alloc/allocators/libc_alloc.rs
index e4e49f7..4373967 100644
--- a/stabby-abi/src/alloc/allocators/libc_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/libc_alloc.rs
@@ -52,6 +52,15 @@ impl LibcAlloc {
     }
 }
 
+/// `posix_memalign` only accepts alignments that are multiples of the pointer's size.
+const fn supported_align(align: usize) -> usize {
+    if align < core::mem::size_of::<usize>() {
+        core::mem::size_of::<usize>()
+    } else {
+        align
+    }
+}
+
 impl crate::alloc::IAlloc for LibcAlloc {
     fn alloc(&mut self, layout: Layout) -> *mut () {
         if layout.size == 0 {
@@ -59,8 +68,8 @@ impl crate::alloc::IAlloc for LibcAlloc {
         }
         let mut ptr = core::ptr::null_mut();
         // SAFETY: `posix_memalign` is always safe.
-        let err = unsafe { posix_memalign(&mut ptr, layout.align, layout.size) };
-        if err != 0 && (ptr as usize % layout.align != 0) {
+        let err = unsafe { posix_memalign(&mut ptr, supported_align(layout.align), layout.size) };
+        if err != 0 {
             ptr = core::ptr::null_mut();
         }
         ptr.cast()
@@ -80,16 +89,19 @@ impl crate::alloc::IAlloc for LibcAlloc {
         };
         if new_ptr.is_null() {
             // SAFETY: `posix_memalign` is always safe.
-            let err = unsafe { posix_memalign(&mut new_ptr, prev.align, new_size) };
+            let err =
+                unsafe { posix_memalign(&mut new_ptr, supported_align(prev.align), new_size) };
             if err == 0 {
                 unsafe {
                     core::ptr::copy_nonoverlapping(
                         ptr.cast::<u8>(),
                         new_ptr.cast::<u8>(),
-                        prev.size,
+                        prev.size.min(new_size),
                     )
                 }
                 self.free(ptr.cast());
+            } else {
+                new_ptr = core::ptr::null_mut();
             }
         }
         new_ptr.cast()
-- 
2.43.0


From 6a4e3c65aeae20637c1798b22144d6e297623b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 26/60] fix: data of enums with an integer representation
 overlapped bits declared as padding

---
 stabby-macros/src/enums.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index cf2cb1a..8aead53 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -174,6 +174,7 @@ pub fn stabby(
         todo!("empty enums are not supported by stabby YET")
     }
     let mut layout = quote!(());
+    let mut fields = Vec::new();
     let DataEnum { variants, .. } = &data;
     let mut has_non_empty_fields = false;
     let unit: syn::Type = syn::parse2(quote!(())).unwrap();
@@ -221,6 +222,7 @@ pub fn stabby(
                     let f = f.unnamed.first().unwrap();
                     let ty = f.ty.unself(&ident);
                     layout = quote!(#st::Union<#layout, core::mem::ManuallyDrop<#ty>>);
+                    fields.push(ty.clone());
                     report.add_field(variant.ident.to_string(), ty);
                 }
             }
@@ -270,7 +272,17 @@ pub fn stabby(
     } else {
         quote!(#[repr(#reprid)])
     };
-    layout = quote!(#st::Tuple<#reprid, #layout>);
+    layout = if has_non_empty_fields && !repr.is_some_and(|r| r.is_c) {
+        // Without `C`, each variant is its own `#[repr(C)]` struct that starts with the tag:
+        // a variant's data may live where another variant has padding.
+        fields
+            .iter()
+            .fold(quote!(#st::Tuple<#reprid, ()>), |layout, ty| {
+                quote!(#st::Union<#layout, core::mem::ManuallyDrop<#st::Tuple<#reprid, #ty>>>)
+            })
+    } else {
+        quote!(#st::Tuple<#reprid, #layout>)
+    };
     report.tyty = crate::Tyty::Enum(trepr);
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
-- 
2.43.0


From 7495c0596d476bdf43ed23a8c6d2c2bf3989c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 27/60] fix: nesting a tagged sum type in another made its
 variants indistinguishable once optimized

---
 stabby-abi/src/enums/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/enums/mod.rs b/stabby-abi/src/enums/mod.rs
index 6268d0d..1c9ca61 100644
--- a/stabby-abi/src/enums/mod.rs
+++ b/stabby-abi/src/enums/mod.rs
@@ -69,7 +69,11 @@ impl IDeterminant for BitDeterminant {
         BitDeterminant::Err
     }
     fn is_det_ok(&self, _: *const u8) -> bool {
-        (*self as u8 & 1) == 0
+        // The other bits are declared unused, so an outer sum type may have set them:
+        // they mustn't be read as an enum, whose other values the compiler assumes can't exist.
+        // SAFETY: `self` is a valid reference to a single byte.
+        let byte = unsafe { (self as *const Self).cast::<u8>().read() };
+        byte & 1 == 0
     }
     type IsNicheTrick = B0;
 }
-- 
2.43.0


From 8dd0632971b44e80ae1553ff3cc9f79df5ed1af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 28/60] fix: sum types hid their determinant in the bytes of
 MaybeUninit, which may be anything

---
 stabby-abi/src/stable_impls/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 54accca..3d7a2e0 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -538,9 +538,16 @@ unsafe impl<T: IStable> IStable for core::mem::ManuallyDrop<T> {
     type ContainsIndirections = T::ContainsIndirections;
 }
 // SAFETY: Automatic checks verify this.
+// Any byte (including those `T` would never let be) may be found in there.
 unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    type Align = T::Align;
+    type Size = T::Size;
+    type UnusedBits = End;
+    type ForbiddenValues = End;
+    #[cfg(feature = "experimental-ctypes")]
+    type CType = T::CType;
+    primitive_report!(<T as IStable>::REPORT.name.as_str());
+    type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
 // SAFETY: Automatic checks verify this.
-- 
2.43.0


From 48ea6ff4e98470ef254250065d7350c1eaef5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 29/60] fix: sum types hid their determinant in the bytes of
 cells, which are written to through shared references

---
 stabby-abi/src/stable_impls/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 3d7a2e0..3c3ec49 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -551,9 +551,16 @@ unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
     type ContainsIndirections = T::ContainsIndirections;
 }
 // SAFETY: Automatic checks verify this.
+// Writing to the cell writes to all of its bytes, possibly while another thread inspects what surrounds it.
 unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    type Align = T::Align;
+    type Size = T::Size;
+    type UnusedBits = End;
+    type ForbiddenValues = End;
+    #[cfg(feature = "experimental-ctypes")]
+    type CType = T::CType;
+    primitive_report!(<T as IStable>::REPORT.name.as_str());
+    type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
 
-- 
2.43.0


From e489c6983deb051f4e40ea33abb6ad254c94d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 30/60] fix: ArcBTreeSet::insert dropped its allocator twice
 when the root couldn't be allocated

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index c8b5b25..b0d9e44 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -400,8 +400,9 @@ impl<T: Ord, Alloc: IAlloc, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: us
         match &mut self.root {
             Some(inner) => inner.insert(value),
             None => {
-                // SAFETY: root == None <=> allocator is can be taken to construct a node.
-                let alloc = unsafe { self.alloc.assume_init_read() };
+                // SAFETY: root == None <=> the allocator is present. It is only disposed of once the root exists,
+                // since `Arc::new_in` panics if the allocation fails.
+                let alloc = unsafe { self.alloc.assume_init_ref() }.clone();
                 self.root = Some(ArcBTreeSetNode(Arc::new_in(
                     ArcBTreeSetNodeInner::new(
                         Some(ArcBTreeSetEntry {
@@ -412,6 +413,8 @@ impl<T: Ord, Alloc: IAlloc, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: us
                     ),
                     alloc,
                 )));
+                // SAFETY: the root now exists, so the allocator won't be accessed anymore.
+                unsafe { self.alloc.assume_init_drop() };
                 None
             }
         }
-- 
2.43.0


From e0c209880cd716e82c759bc34fbf3552013e953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 31/60] fix: NonX types that forbid different values had the
 same report and ID

---
 stabby-abi/src/num.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/num.rs b/stabby-abi/src/num.rs
index 229d263..971bd07 100644
--- a/stabby-abi/src/num.rs
+++ b/stabby-abi/src/num.rs
@@ -91,6 +91,23 @@ macro_rules! define_non_max {
         }
     };
 }
+/// Produces `"{base}<{forbidden:032x}>"`
+const fn non_x_name<const LEN: usize>(base: &str, forbidden: u128) -> [u8; LEN] {
+    let base = base.as_bytes();
+    let mut name = [b'>'; LEN];
+    let mut i = 0;
+    while i < base.len() {
+        name[i] = base[i];
+        i += 1;
+    }
+    name[i] = b'<';
+    let mut digit = 0;
+    while digit < 32 {
+        name[i + 1 + digit] = b"0123456789abcdef"[(forbidden >> (4 * (31 - digit))) as usize & 0xf];
+        digit += 1;
+    }
+    name
+}
 macro_rules! define_non_x {
     ($NonMaxU8:ident: $u8: ty = $NonZeroU8: ty; $u8s: literal ) => {
         /// A number whose value is guaranteed not to be `FORBIDDEN`.
@@ -125,6 +142,16 @@ macro_rules! define_non_x {
             pub const fn get(self) -> $u8 {
                 self.inner.get().wrapping_add(FORBIDDEN)
             }
+            /// The name of the type, including its forbidden value: types that forbid different values are different types.
+            const NAME: &'static str = match core::str::from_utf8(Self::NAME_BYTES) {
+                Ok(name) => name,
+                Err(_) => panic!("The name of a type is always valid utf8"),
+            };
+            const NAME_BYTES: &'static [u8] =
+                &non_x_name::<{ stringify!($NonMaxU8).len() + 34 }>(
+                    stringify!($NonMaxU8),
+                    FORBIDDEN as u128,
+                );
         }
         impl<const FORBIDDEN: $u8> From<$NonMaxU8<{ FORBIDDEN }>> for $u8 {
             fn from(value: $NonMaxU8<{ FORBIDDEN }>) -> Self {
@@ -163,7 +190,7 @@ macro_rules! define_non_x {
             type CType = <$NonZeroU8 as crate::IStable>::CType;
             const ID: u64 = $crate::report::gen_id(Self::REPORT);
             const REPORT: &'static $crate::report::TypeReport = &$crate::report::TypeReport {
-                name: $crate::str::Str::new(stringify!($NonMaxU8)),
+                name: $crate::str::Str::new(Self::NAME),
                 module: $crate::str::Str::new(core::module_path!()),
                 fields: $crate::StableLike::new(None),
                 version: 0,
-- 
2.43.0


From 65df08b9c1e88a19a8c1aa0fc3cce3c5ba9548ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 32/60] fix: StableWaker handled clones as if they were always
 in the default allocator

---
 stabby-abi/src/future.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index b975f3d..d7ac46c 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -127,21 +127,26 @@ mod stable_waker {
     impl<Alloc: IAlloc + Default> StableWaker<'_, Alloc> {
         /// Turns this into a waker whose clone implementation is to clone the underlying waker into a stable Arc.
         pub fn with_waker<F: FnOnce(&Waker) -> U, U>(&self, f: F) -> U {
-            const VTABLE: RawWakerVTable =
-                RawWakerVTable::new(clone, wake_by_ref, wake_by_ref, drop);
-            unsafe fn clone(this: *const ()) -> RawWaker {
-                let this = unsafe { &*(this as *const StableWaker) };
-                (this.clone)(this.waker).into_raw_waker()
-            }
-            unsafe fn wake_by_ref(this: *const ()) {
-                let this = unsafe { &*(this as *const StableWaker) };
-                (this.wake_by_ref.as_ref_unchecked())(this.waker.as_ref_unchecked())
-            }
-            const unsafe fn drop(_: *const ()) {}
-            let waker = RawWaker::new(self as *const Self as *const _, &VTABLE);
+            let waker = RawWaker::new(self as *const Self as *const _, &Self::VTABLE);
             let waker = unsafe { Waker::from_raw(waker) };
             f(&waker)
         }
+        // These are generic over `Alloc`, as it is what tells how clones are allocated.
+        const VTABLE: RawWakerVTable = RawWakerVTable::new(
+            Self::raw_clone,
+            Self::raw_wake_by_ref,
+            Self::raw_wake_by_ref,
+            Self::raw_drop,
+        );
+        unsafe fn raw_clone(this: *const ()) -> RawWaker {
+            let this = unsafe { &*(this as *const Self) };
+            (this.clone)(this.waker).into_raw_waker()
+        }
+        unsafe fn raw_wake_by_ref(this: *const ()) {
+            let this = unsafe { &*(this as *const Self) };
+            (this.wake_by_ref.as_ref_unchecked())(this.waker.as_ref_unchecked())
+        }
+        const unsafe fn raw_drop(_: *const ()) {}
         unsafe extern "C" fn waker_drop(waker: &mut ManuallyDrop<Waker>) {
             ManuallyDrop::drop(waker)
         }
-- 
2.43.0


From c96718f34182c63537b18c043a718281c18292fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 33/60] fix: MaybeResolved delivered its output repeatedly, as
 match_mut restored the variant that poll had replaced

---
 stabby-abi/src/future.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index d7ac46c..42b25fc 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -351,26 +351,24 @@ where
         cx: &mut Context<'_>,
     ) -> core::task::Poll<Self::Output> {
         let this = self.get_mut();
-        let inner = this as *mut _;
-        this.match_mut(
-            |value| {
-                let value = unsafe {
-                    let value = core::ptr::read(value);
-                    core::ptr::write(inner, MaybeResolved::Empty());
-                    value
-                };
-                core::task::Poll::Ready(value)
-            },
+        // The variant may only be changed once `match_mut` is done with it.
+        let resolution = this.match_mut(
+            |_| core::task::Poll::Ready(core::option::Option::None),
             || core::task::Poll::Pending,
-            |future| match core::future::Future::poll(core::pin::Pin::new(future), cx) {
-                core::task::Poll::Ready(value) => {
-                    unsafe {
-                        core::ptr::replace(inner, MaybeResolved::Empty());
-                    }
-                    core::task::Poll::Ready(value)
-                }
-                core::task::Poll::Pending => core::task::Poll::Pending,
-            },
-        )
+            |future| core::future::Future::poll(core::pin::Pin::new(future), cx).map(core::option::Option::Some),
+        );
+        match resolution {
+            core::task::Poll::Ready(core::option::Option::Some(value)) => {
+                *this = MaybeResolved::Empty();
+                core::task::Poll::Ready(value)
+            }
+            core::task::Poll::Ready(core::option::Option::None) => core::mem::replace(this, MaybeResolved::Empty())
+                .match_owned(
+                    core::task::Poll::Ready,
+                    || core::task::Poll::Pending,
+                    |_| core::task::Poll::Pending,
+                ),
+            core::task::Poll::Pending => core::task::Poll::Pending,
+        }
     }
 }
-- 
2.43.0


From f9122154c268cd3bca6775b02448454b618c91d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 34/60] fix: signed narrow integers had wrong bounds, refusing
 valid values or accepting invalid ones

---
 stabby-abi/src/num.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/num.rs b/stabby-abi/src/num.rs
index 971bd07..78c1af8 100644
--- a/stabby-abi/src/num.rs
+++ b/stabby-abi/src/num.rs
@@ -421,11 +421,13 @@ macro_rules! makeimask {
                     - <$bits as $crate::typenum2::Unsigned>::U128 as i32))
                 | (1 << (<$bits as $crate::typenum2::Unsigned>::U128 as i32 - 1));
             /// The maximum value for this type.
-            pub const MAX: Self =
-                Self($base::MAX >> (<$bits as $crate::typenum2::Unsigned>::U128 as $base));
-            /// The maximum value for this type.
-            pub const MIN: Self =
-                Self(1 << (<$bits as $crate::typenum2::Unsigned>::U128 as i32 - 1));
+            pub const MAX: Self = Self(
+                $base::MAX
+                    >> (8 * ::core::mem::size_of::<$base>() as i32
+                        - <$bits as $crate::typenum2::Unsigned>::U128 as i32),
+            );
+            /// The minimum value for this type.
+            pub const MIN: Self = Self(!Self::MAX.0);
             /// Construct a new value if it can fit.
             pub const fn new(value: $base) -> Option<Self> {
                 match value <= Self::MAX.get() && value >= Self::MIN.get() {
@@ -486,7 +488,8 @@ macro_rules! makeimask {
         impl ::core::ops::BitAnd<$base> for $name {
             type Output = Self;
             fn bitand(self, rhs: $base) -> Self {
-                Self(self.0 & rhs)
+                // `rhs` may have bits set beyond the width of `Self`
+                Self(Self::sign_extend(self.0 & rhs & Self::MASK))
             }
         }
         impl ::core::ops::BitAnd for $name {
-- 
2.43.0


From 3f0da6108f65188de545e0d7c41a1e218da260dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 35/60] fix: is_compatible ignored the fields that one report
 has beyond the other's

---
 stabby-abi/src/report.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/stabby-abi/src/report.rs b/stabby-abi/src/report.rs
index 433d235..478dc2b 100644
--- a/stabby-abi/src/report.rs
+++ b/stabby-abi/src/report.rs
@@ -65,14 +65,21 @@ impl core::hash::Hash for TypeReport {
 impl TypeReport {
     /// Whether or not two reports correspond to the same type, with the same layout and invariants.
     pub fn is_compatible(&self, other: &Self) -> bool {
-        self.name == other.name
-            && self.module == other.module
-            && self.version == other.version
-            && self.tyty == other.tyty
-            && self
-                .fields()
-                .zip(other.fields())
-                .all(|(s, o)| s.name == o.name && s.ty.is_compatible(o.ty))
+        if self.name != other.name
+            || self.module != other.module
+            || self.version != other.version
+            || self.tyty != other.tyty
+        {
+            return false;
+        }
+        let (mut fields, mut others) = (self.fields(), other.fields());
+        loop {
+            match (fields.next(), others.next()) {
+                (Some(s), Some(o)) if s.name == o.name && s.ty.is_compatible(o.ty) => {}
+                (None, None) => return true,
+                _ => return false,
+            }
+        }
     }
 }
 
-- 
2.43.0


From 4c24591190675a32fff89a6175caa7d652c93009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 36/60] fix: types that differ in version, or in where names
 and nested types end, had the same ID

---
 stabby-abi/src/report.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/report.rs b/stabby-abi/src/report.rs
index 478dc2b..3746a4b 100644
--- a/stabby-abi/src/report.rs
+++ b/stabby-abi/src/report.rs
@@ -141,21 +141,26 @@ impl Iterator for Fields {
     }
 }
 
+/// Strings are prefixed by their length, so that no two different reports feed the same bytes to the hash.
+const fn hash_str(hash: Sha256, s: &str) -> Sha256 {
+    hash.update(&(s.len() as u64).to_le_bytes())
+        .update(s.as_bytes())
+}
 const fn hash_report(mut hash: Sha256, report: &TypeReport) -> Sha256 {
-    hash = hash
-        .update(report.module.as_str().as_bytes())
-        .update(report.name.as_str().as_bytes());
+    hash = hash_str(hash, report.module.as_str());
+    hash = hash_str(hash, report.name.as_str());
+    hash = hash.update(&report.version.to_le_bytes());
     hash = match report.tyty {
         crate::report::TyTy::Struct => hash.update(&[0]),
         crate::report::TyTy::Union => hash.update(&[1]),
-        crate::report::TyTy::Enum(s) => hash.update(s.as_str().as_bytes()),
+        crate::report::TyTy::Enum(s) => hash_str(hash.update(&[2]), s.as_str()),
     };
     let mut fields = report.fields();
     while let (new, Some(next)) = fields.next_const() {
         fields = new;
-        hash = hash_report(hash.update(next.name.as_str().as_bytes()), next.ty)
+        hash = hash_report(hash_str(hash.update(&[1]), next.name.as_str()), next.ty)
     }
-    hash
+    hash.update(&[0])
 }
 const ARCH_INFO: [u8; 8] = [
     0,
-- 
2.43.0


From 6c317bc97c996aa49bc612aee3de55628a8f4f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 37/60] fix: MaybeUninit, ManuallyDrop and UnsafeCell reported
 as another type of the name of what they hold

---
 stabby-abi/src/stable_impls/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 3c3ec49..a545ff9 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -533,7 +533,7 @@ unsafe impl IStable for core::num::NonZeroIsize {
 
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::mem::ManuallyDrop<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
+    same_as!(T, "core::mem::ManuallyDrop", T);
     type HasExactlyOneNiche = T::HasExactlyOneNiche;
     type ContainsIndirections = T::ContainsIndirections;
 }
@@ -546,7 +546,7 @@ unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
     type ForbiddenValues = End;
     #[cfg(feature = "experimental-ctypes")]
     type CType = T::CType;
-    primitive_report!(<T as IStable>::REPORT.name.as_str());
+    primitive_report!("core::mem::MaybeUninit", T);
     type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
@@ -559,7 +559,7 @@ unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
     type ForbiddenValues = End;
     #[cfg(feature = "experimental-ctypes")]
     type CType = T::CType;
-    primitive_report!(<T as IStable>::REPORT.name.as_str());
+    primitive_report!("core::cell::UnsafeCell", T);
     type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
-- 
2.43.0


From 26a190cfc767870f8a6624ed7d33e089597f9bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 38/60] fix: core::result::Result reported only one of its
 types

---
 stabby-abi/src/stable_impls/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index a545ff9..38c84d1 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -778,7 +778,11 @@ unsafe impl<Ok: IStable, Err: IStable> IStable
         fields: StableLike::new(Some(&report::FieldReport {
             name: Str::new("Ok"),
             ty: Ok::REPORT,
-            next_field: StableLike::new(None),
+            next_field: StableLike::new(Some(&report::FieldReport {
+                name: Str::new("Err"),
+                ty: Err::REPORT,
+                next_field: StableLike::new(None),
+            })),
         })),
         version: 0,
         tyty: report::TyTy::Enum(Str::new("rust")),
@@ -813,9 +817,13 @@ unsafe impl<Ok: IStable, Err: IStable, T> IStable
         name: Str::new("Result"),
         module: Str::new("core::result"),
         fields: StableLike::new(Some(&report::FieldReport {
-            name: Str::new("Err"),
-            ty: Err::REPORT,
-            next_field: StableLike::new(None),
+            name: Str::new("Ok"),
+            ty: Ok::REPORT,
+            next_field: StableLike::new(Some(&report::FieldReport {
+                name: Str::new("Err"),
+                ty: Err::REPORT,
+                next_field: StableLike::new(None),
+            })),
         })),
         version: 0,
         tyty: report::TyTy::Enum(Str::new("rust")),
-- 
2.43.0


From 1c6b882d93d91190fec45fd50d8972d629ebf208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 39/60] fix: AtomicDuration::MAX had more than a second of
 subsecond nanoseconds

---
 stabby/src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index d3792e9..9c8ef2a 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -139,7 +139,7 @@ impl AtomicDuration {
     /// This type's time resolution.
     pub const RESOLUTION: Duration = Self::i64_to_duration(1).0;
     /// This type's maximum value.
-    pub const MAX: Duration = Self::i64_to_duration(i64::MAX).0;
+    pub const MAX: Duration = Self::i64_to_duration((i64::MAX & !MASK) + 999_999).0;
     /// Atomically loads the stored value, converting it to a duration-sign tuple.
     ///
     /// The [`Ordering`] is used in a single `load` operation.
-- 
2.43.0


From 89442c0d75afec1b393b665ea6d8d33108c1596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 40/60] fix: owned strings could only be deserialized from
 borrowed ones

---
 stabby-abi/src/alloc/string.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/string.rs b/stabby-abi/src/alloc/string.rs
index 6ab2b5b..7d906a2 100644
--- a/stabby-abi/src/alloc/string.rs
+++ b/stabby-abi/src/alloc/string.rs
@@ -371,7 +371,7 @@ mod std_impl {
 mod serde_impl {
     use super::*;
     use crate::alloc::IAlloc;
-    use serde::{Deserialize, Serialize};
+    use serde::{de::Visitor, Deserialize, Serialize};
     impl<Alloc: IAlloc> Serialize for String<Alloc> {
         fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
         where
@@ -386,7 +386,20 @@ mod serde_impl {
         where
             D: serde::Deserializer<'a>,
         {
-            crate::str::Str::deserialize(deserializer).map(Into::into)
+            deserializer.deserialize_string(StringVisitor(core::marker::PhantomData))
+        }
+    }
+    struct StringVisitor<Alloc>(core::marker::PhantomData<Alloc>);
+    impl<Alloc: IAlloc + Default> Visitor<'_> for StringVisitor<Alloc> {
+        type Value = String<Alloc>;
+        fn expecting(&self, formatter: &mut core::fmt::Formatter) -> core::fmt::Result {
+            formatter.write_str("A string")
+        }
+        fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
+        where
+            E: serde::de::Error,
+        {
+            Ok(v.into())
         }
     }
 }
-- 
2.43.0


From 0976bdf219be750a78cc2456ee84154f78e9ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 41/60] fix: deserializing a Vec reserved whatever the input
 claimed it would need

---
 stabby-abi/src/alloc/vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index aa1d8ab..fd21937 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -871,7 +871,10 @@ mod serde_impl {
         where
             A: serde::de::SeqAccess<'a>,
         {
-            let mut this = Vec::with_capacity_in(seq.size_hint().unwrap_or(0), Alloc::default());
+            // The hint comes from the input: it isn't to be trusted with more than a small allocation.
+            let max_reserved = (1 << 20) / core::mem::size_of::<T>().max(1);
+            let capacity = seq.size_hint().unwrap_or(0).min(max_reserved);
+            let mut this = Vec::with_capacity_in(capacity, Alloc::default());
             while let Some(v) = seq.next_element()? {
                 this.push(v);
             }
-- 
2.43.0


From 9fd131c0389139359703c85d6238b612b3903ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 42/60] fix: values of forbidden bytes were never reported as
 invalid

---
 stabby-abi/src/istable.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/istable.rs b/stabby-abi/src/istable.rs
index d996611..f8ffa8a 100644
--- a/stabby-abi/src/istable.rs
+++ b/stabby-abi/src/istable.rs
@@ -285,6 +285,14 @@ pub trait IForbiddenValues {
     /// # Safety
     /// Calling this on uninitialized memory is UB.
     unsafe fn is_invalid(ptr: *const u8) -> bool;
+    /// Returns `true` if `ptr` matches the bytes listed by `Self` when they are the tail of a multi-byte forbidden value.
+    ///
+    /// # Safety
+    /// Calling this on uninitialized memory is UB.
+    #[doc(hidden)]
+    unsafe fn _matches_tail(ptr: *const u8) -> bool {
+        Self::is_invalid(ptr)
+    }
 }
 /// A single multi-byte forbidden value.
 pub trait ISingleForbiddenValue {
@@ -305,6 +313,9 @@ impl IForbiddenValues for End {
     unsafe fn is_invalid(_: *const u8) -> bool {
         false
     }
+    unsafe fn _matches_tail(_: *const u8) -> bool {
+        true
+    }
 }
 impl ISingleForbiddenValue for Saturator {
     type Push<O: Unsigned, T> = Saturator;
@@ -337,7 +348,7 @@ impl<Offset: Unsigned, T: Unsigned, Rest: IForbiddenValues> IForbiddenValues
         >;
     type SelectOne = Array<Offset, T, Rest::SelectOne>;
     unsafe fn is_invalid(ptr: *const u8) -> bool {
-        ptr.add(Offset::USIZE).read() == T::U8 && Rest::is_invalid(ptr)
+        ptr.add(Offset::USIZE).read() == T::U8 && Rest::_matches_tail(ptr)
     }
 }
 impl<A: IForbiddenValues, B: IForbiddenValues> IForbiddenValues for Or<A, B> {
-- 
2.43.0


From cd9c3869a2a921a14ebe59ac78bb5bead95cfbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 43/60] fix: results were too small when their most aligned
 variant wasn't the largest

---
 stabby-abi/src/result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 94f7f13..09dd540 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -48,7 +48,7 @@ where
     Err: IStable,
 {
     /// The size is the max of the variants' sizes, plus the size of the determinant upgraded to a multiple of the alignment.
-    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <Ok::Size as Unsigned>::Max<Err::Size>);
+    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <<Ok::Size as Unsigned>::Max<Err::Size> as Unsigned>::NextMultipleOf<Self::Align>);
     /// The alignment is the max of the variants' alignments.
     type Align = <Ok::Align as Alignment>::Max<Err::Align>;
     // If either variant may contain an indirection, so may their sum-type.
-- 
2.43.0


From 2a375a002efbb7e7132f26e08894b8ddf3e48f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 44/60] fix: orderings and file descriptors declared no niche

---
 stabby-abi/src/stable_impls/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 38c84d1..2b94921 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -937,16 +937,18 @@ mod abi_stable;
 #[cfg(all(feature = "std", target_family = "unix"))]
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for std::os::fd::OwnedFd {
-    same_as!(core::ffi::c_int);
+    same_as!(core::ffi::c_int, "std::os::fd::OwnedFd");
+    // `-1` isn't a file descriptor, and Rust knows it
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B1;
-    primitive_report!("std::os::fd::OwnedFd");
 }
 #[cfg(all(feature = "std", target_family = "unix"))]
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for std::os::fd::BorrowedFd<'_> {
-    same_as!(core::ffi::c_int);
+    same_as!(core::ffi::c_int, "std::os::fd::BorrowedFd");
+    // `-1` isn't a file descriptor, and Rust knows it
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B1;
-    primitive_report!("std::os::fd::BorrowedFd");
 }
 
 const ARRAY_NAME: [&str; 129] = [
@@ -1009,7 +1011,7 @@ unsafe impl IStable for core::cmp::Ordering {
     type Size = U1;
     type ForbiddenValues = crate::istable::ForbiddenRange<U2, U254, U0>;
     type UnusedBits = End;
-    type HasExactlyOneNiche = B0;
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B0;
     #[cfg(feature = "experimental-ctypes")]
     type CType = u8;
-- 
2.43.0


From 1151e97c377d6bba39264284d976d7c0f9da3954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:13 +0000
Subject: [PATCH 45/60] fix: standard results of an over-aligned empty variant
 don't have a stable layout

---
 stabby-abi/src/stable_impls/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 2b94921..ab3bb27 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -761,7 +761,8 @@ where
     const ID: u64 = crate::report::gen_id(Self::REPORT);
 }
 // SAFETY: Automatic checks verify this.
-unsafe impl<Ok: IStable, Err: IStable> IStable
+// Rust only guarantees the layout if the empty variant's alignment is 1: otherwise it may add a tag.
+unsafe impl<Ok: IStable, Err: IStable<Align = U1>> IStable
     for HasExactlyOneNiche<core::result::Result<Ok, Err>, (B1, U0)>
 {
     type Size = Ok::Size;
@@ -802,7 +803,8 @@ where
     const ID: u64 = crate::report::gen_id(Self::REPORT);
 }
 // SAFETY: Automatic checks verify this.
-unsafe impl<Ok: IStable, Err: IStable, T> IStable
+// Rust only guarantees the layout if the empty variant's alignment is 1: otherwise it may add a tag.
+unsafe impl<Ok: IStable<Align = U1>, Err: IStable, T> IStable
     for HasExactlyOneNiche<HasExactlyOneNiche<core::result::Result<Ok, Err>, T>, (B1, U0)>
 {
     type Size = Err::Size;
-- 
2.43.0


From f1b0feec2b49ded16956ac43fb26bd1e7f817de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 46/60] fix: c_void declared the layout of the unit type

---
 stabby-abi/src/stable_impls/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index ab3bb27..31a60f5 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -278,9 +278,9 @@ unsafe impl IStable for core::marker::PhantomPinned {
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for core::ffi::c_void {
-    same_as!(());
+    same_as!(u8, "core::ffi::c_void");
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B0;
-    primitive_report!("core::ffi::c_void");
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for bool {
-- 
2.43.0


From 6eb108d6a07e682450bfcbb563a55cf1bb3f1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 47/60] fix: the layout of structures ignored some of their
 representations

---
 stabby-macros/src/structs.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/stabby-macros/src/structs.rs b/stabby-macros/src/structs.rs
index faebcbd..bfe7ee9 100644
--- a/stabby-macros/src/structs.rs
+++ b/stabby-macros/src/structs.rs
@@ -63,17 +63,13 @@ enum AllowedRepr {
 }
 impl syn::parse::Parse for AllowedRepr {
     fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
-        let mut content = input.fork();
-        if input.peek(syn::token::Paren) {
-            syn::parenthesized!(content in input);
-        }
-        let ident: Ident = content.parse()?;
+        let ident: Ident = input.parse()?;
         Ok(match ident.to_string().as_str() {
             "C" => AllowedRepr::C,
             "transparent" => AllowedRepr::Transparent,
             "packed" => return Err(input.error("stabby does not support packed structs, though you may implement IStable manually if you're very comfident")),
             "align" => {
-                let input = content;
+                let content;
                 syn::parenthesized!(content in input);
                 let lit: syn::LitInt = content.parse()?;
                 AllowedRepr::Align(lit.base10_parse()?)
@@ -122,14 +118,28 @@ pub fn stabby(
     let clauses = where_clause.as_ref().map(|w| &w.predicates);
     let mut layout = None;
     let mut report = crate::Report::r#struct(ident.to_string(), version, module);
-    let repr = attrs.iter().find_map(|attr| {
-        if attr.path.is_ident("repr") {
-            syn::parse2::<AllowedRepr>(attr.tokens.clone()).ok()
-        } else {
-            None
+    // Of all the representations, the largest alignment is the one that shapes the layout.
+    let mut repr = None;
+    for attr in attrs.iter().filter(|attr| attr.path.is_ident("repr")) {
+        type Reprs = syn::punctuated::Punctuated<AllowedRepr, syn::Token!(,)>;
+        match attr.parse_args_with(Reprs::parse_terminated) {
+            Ok(reprs) => {
+                for new in reprs {
+                    repr = Some(match (repr, new) {
+                        (Some(AllowedRepr::Align(a)), AllowedRepr::Align(b)) => {
+                            AllowedRepr::Align(a.max(b))
+                        }
+                        (Some(AllowedRepr::Align(a)), _) => AllowedRepr::Align(a),
+                        (_, new) => new,
+                    })
+                }
+            }
+            Err(e) => return e.to_compile_error(),
         }
-    });
-    let repr_attr = repr.is_none().then(|| quote! {#[repr(C)]});
+    }
+    // Without `C`, Rust is free to reorder the fields of over-aligned structures too.
+    let repr_attr =
+        matches!(repr, None | Some(AllowedRepr::Align(_))).then(|| quote! {#[repr(C)]});
     optimize &= !matches!(repr, Some(AllowedRepr::Align(_)));
     let struct_code = match &fields {
         syn::Fields::Named(fields) => {
-- 
2.43.0


From 58c28b7e1f5355262f812161467dfb5f9716fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 48/60] fix: enums declared no niche

---
 stabby-macros/src/enums.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index 8aead53..28e4d39 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -323,7 +323,8 @@ pub fn stabby(
             type UnusedBits =<#layout as #st::IStable>::UnusedBits;
             type Size = <#layout as #st::IStable>::Size;
             type Align = <#layout as #st::IStable>::Align;
-            type HasExactlyOneNiche = #st::B0;
+            // Rust knows which tags are never used, but there may be any number of them.
+            type HasExactlyOneNiche = #st::istable::Saturator;
             type ContainsIndirections = <#layout as #st::IStable>::ContainsIndirections;
             #ctype
             const REPORT: &'static #st::report::TypeReport = & #report;
-- 
2.43.0


From f7c9f5b133d38d4e53f3665bc773a2bacf82d6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:47 +0000
Subject: [PATCH 49/60] fix: results were Send and Sync whatever they held

---
 stabby-abi/src/result.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 09dd540..cfbe61b 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -33,6 +33,8 @@ where
     Err: IStable,
 {
     storage: Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
+    // `storage` only appears as bytes: this makes auto-traits depend on what's stored in them.
+    marker: core::marker::PhantomData<(Ok, Err)>,
 }
 impl<Ok: Unpin, Err: Unpin> Unpin for Result<Ok, Err>
 where
@@ -245,6 +247,7 @@ where
             Self::det_ptr_mut(storage_ptr).write(Determinant::<Ok, Err>::ok(storage_ptr.cast()));
             Self {
                 storage: storage.assume_init(),
+                marker: core::marker::PhantomData,
             }
         }
     }
@@ -258,6 +261,7 @@ where
             Self::det_ptr_mut(storage_ptr).write(Determinant::<Ok, Err>::err(storage_ptr.cast()));
             Self {
                 storage: storage.assume_init(),
+                marker: core::marker::PhantomData,
             }
         }
     }
-- 
2.43.0


From a0d78f7a39d737e41180d4d4db725e37ecbdeec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:17 +0000
Subject: [PATCH 50/60] fix: boxes were Sync without their allocator being so

---
 stabby-abi/src/alloc/boxed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 30297d2..4b797fb 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -29,11 +29,11 @@ pub struct Box<T, Alloc: IAlloc = super::DefaultAllocator> {
 // SAFETY: Same constraints as `std::boxed::Box`
 unsafe impl<T: Send, Alloc: IAlloc + Send> Send for Box<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
-unsafe impl<T: Sync, Alloc: IAlloc> Sync for Box<T, Alloc> {}
+unsafe impl<T: Sync, Alloc: IAlloc + Sync> Sync for Box<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
 unsafe impl<T: Send, Alloc: IAlloc + Send> Send for BoxedSlice<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
-unsafe impl<T: Sync, Alloc: IAlloc> Sync for BoxedSlice<T, Alloc> {}
+unsafe impl<T: Sync, Alloc: IAlloc + Sync> Sync for BoxedSlice<T, Alloc> {}
 
 #[cfg(not(stabby_default_alloc = "disabled"))]
 impl<T> Box<T> {
-- 
2.43.0


From 797b241ba91c086cd4595759948f771c04f6cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:53 +0000
Subject: [PATCH 51/60] fix: the atomic set was Send and Sync whatever its
 elements

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index b0d9e44..9deb8db 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -11,6 +11,7 @@ use crate::alloc::{
 /// An [`ArcBTreeSet`] that can be atomically modified.
 pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>(
     AtomicPtr<ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
+    PhantomData<ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
 )
 where
     DefaultAllocator: core::default::Default + IAlloc;
@@ -30,7 +31,7 @@ where
 {
     /// Constructs a new, empty set.
     pub const fn new() -> Self {
-        Self(AtomicPtr::new(core::ptr::null_mut()))
+        Self(AtomicPtr::new(core::ptr::null_mut()), PhantomData)
     }
     /// Applies `f` to the current value, swapping the current value for the one returned by `f`.
     ///
-- 
2.43.0


From 455e13b5887dce542006035ea1ac8258d672fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:56 +0000
Subject: [PATCH 52/60] fix: checked imports were Send and Sync whatever they
 imported

---
 stabby-abi/src/checked_import.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index da151b0..c0c7668 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -23,10 +23,6 @@ pub struct CanariedImport<F> {
     checked: AtomicU8,
     canary: extern "C" fn(),
 }
-// SAFETY: `CanariedImport`s always refer to `Send + Sync` things.
-unsafe impl<F> Send for CanariedImport<F> {}
-// SAFETY: `CanariedImport`s always refer to `Send + Sync` things.
-unsafe impl<F> Sync for CanariedImport<F> {}
 impl<F> CanariedImport<F> {
     /// Used in `#[stabby::import(canaries)]`
     pub const fn new(source: F, canary_caller: extern "C" fn()) -> Self {
@@ -58,10 +54,8 @@ pub struct CheckedImport<F> {
     get_report: unsafe extern "C" fn() -> &'static crate::report::TypeReport,
     local_report: &'static crate::report::TypeReport,
 }
-// SAFETY: `CheckedImport`s always refer to functions.
-unsafe impl<F> Send for CheckedImport<F> {}
-// SAFETY: `CheckedImport`s always refer to functions.
-unsafe impl<F> Sync for CheckedImport<F> {}
+// SAFETY: `result` is only written once, by the thread that locked `checked`, and read after that.
+unsafe impl<F: Send + Sync> Sync for CheckedImport<F> {}
 
 /// When reports mismatch between loader and loadee, both reports are exposed to allow debuging the issue.
 #[crate::stabby]
-- 
2.43.0


From 2f8ae7ed5224b1b783970e392c583d1c6516c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:28 +0000
Subject: [PATCH 53/60] fix: vtables needed Sync tails to be Send

---
 stabby-abi/src/vtable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/vtable/mod.rs b/stabby-abi/src/vtable/mod.rs
index 21dcc60..e9bbb91 100644
--- a/stabby-abi/src/vtable/mod.rs
+++ b/stabby-abi/src/vtable/mod.rs
@@ -336,7 +336,7 @@ impl<T: HasDropVt> HasDropVt for VtSync<T> {
 pub trait HasSendVt {}
 impl<T> HasSendVt for VtSend<T> {}
 impl<T: HasSendVt> HasSendVt for VtSync<T> {}
-impl<Head, Tail: HasSyncVt> HasSendVt for VTable<Head, Tail> {}
+impl<Head, Tail: HasSendVt> HasSendVt for VTable<Head, Tail> {}
 /// Whether or not a vtable includes [`VtSync`]
 pub trait HasSyncVt {}
 impl<T> HasSyncVt for VtSync<T> {}
-- 
2.43.0


From 9e52c8f9a636a5af77d4d771cb871b2dc1f758e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:58 +0000
Subject: [PATCH 54/60] fix: references to trait objects were Send without
 their pointee being Sync

---
 stabby-abi/src/fatptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index b0f945b..5657403 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -371,8 +371,8 @@ impl<'a, T, Vt: Copy + IConstConstructor<'a, T>> From<&'a T> for DynRef<'a, Vt>
     }
 }
 
-// SAFETY: This is analogous to a reference, and Vt proves the rest
-unsafe impl<Vt: HasSendVt> Send for DynRef<'_, Vt> {}
+// SAFETY: This is analogous to a reference, which is `Send` if its pointee is `Sync`: Vt proves the latter
+unsafe impl<Vt: HasSyncVt> Send for DynRef<'_, Vt> {}
 // SAFETY: This is analogous to a reference, and Vt proves the rest
 unsafe impl<Vt: HasSyncVt> Sync for DynRef<'_, Vt> {}
 
-- 
2.43.0


From 61e375e506b52887e598222804b2a4cf78bbec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:55 +0000
Subject: [PATCH 55/60] fix: shared trait objects were Send or Sync without
 their pointee being both

---
 stabby-abi/src/alloc/sync.rs | 26 +++++++++++++++++++++++++-
 stabby-abi/src/fatptr.rs     |  8 ++++----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 5b6e7bc..5980e67 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -21,7 +21,11 @@ use core::{
     sync::atomic::{fence, AtomicPtr, AtomicUsize, Ordering},
 };
 
-use crate::{unreachable_unchecked, vtable::HasDropVt, Dyn, IStable, IntoDyn};
+use crate::{
+    unreachable_unchecked,
+    vtable::{HasDropVt, HasSendVt, HasSyncVt},
+    Dyn, IStable, IntoDyn,
+};
 
 use super::{
     vec::{ptr_add, ptr_diff, Vec, VecInner},
@@ -837,6 +841,26 @@ impl<T, Alloc: IAlloc> crate::IPtrClone for Weak<T, Alloc> {
     }
 }
 
+// SAFETY: The pointee may be shared between threads, and dropped by any of them: it must be `Send` and `Sync`.
+unsafe impl<Alloc: IAlloc + Send + Sync, Vt: HasSendVt + HasSyncVt + HasDropVt> Send
+    for Dyn<'_, Arc<(), Alloc>, Vt>
+{
+}
+// SAFETY: The pointee may be shared between threads, and dropped by any of them: it must be `Send` and `Sync`.
+unsafe impl<Alloc: IAlloc + Send + Sync, Vt: HasSendVt + HasSyncVt + HasDropVt> Sync
+    for Dyn<'_, Arc<(), Alloc>, Vt>
+{
+}
+// SAFETY: The pointee may be shared between threads, and dropped by any of them: it must be `Send` and `Sync`.
+unsafe impl<Alloc: IAlloc + Send + Sync, Vt: HasSendVt + HasSyncVt + HasDropVt> Send
+    for Dyn<'_, Weak<(), Alloc>, Vt>
+{
+}
+// SAFETY: The pointee may be shared between threads, and dropped by any of them: it must be `Send` and `Sync`.
+unsafe impl<Alloc: IAlloc + Send + Sync, Vt: HasSendVt + HasSyncVt + HasDropVt> Sync
+    for Dyn<'_, Weak<(), Alloc>, Vt>
+{
+}
 impl<T, Alloc: IAlloc> IntoDyn for Weak<T, Alloc> {
     type Anonymized = Weak<(), Alloc>;
     type Target = T;
diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 5657403..2e156c1 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -376,7 +376,7 @@ unsafe impl<Vt: HasSyncVt> Send for DynRef<'_, Vt> {}
 // SAFETY: This is analogous to a reference, and Vt proves the rest
 unsafe impl<Vt: HasSyncVt> Sync for DynRef<'_, Vt> {}
 
-// SAFETY: The pointer must be `Send` and the pointee must me `Send` and `Sync`.
-unsafe impl<P: IPtrOwned + Send, Vt: HasSendVt + HasDropVt> Send for Dyn<'_, P, Vt> {}
-// SAFETY: The pointer must be `Sync` and the pointee must me `Send` and `Sync`.
-unsafe impl<P: IPtrOwned + Sync, Vt: HasSyncVt + HasDropVt> Sync for Dyn<'_, P, Vt> {}
+// SAFETY: Unconditionally mutable pointers are the only path to their pointee: the pointer and the pointee must be `Send`.
+unsafe impl<P: IPtrOwned + IPtrMut + Send, Vt: HasSendVt + HasDropVt> Send for Dyn<'_, P, Vt> {}
+// SAFETY: Unconditionally mutable pointers are the only path to their pointee: the pointer and the pointee must be `Sync`.
+unsafe impl<P: IPtrOwned + IPtrMut + Sync, Vt: HasSyncVt + HasDropVt> Sync for Dyn<'_, P, Vt> {}
-- 
2.43.0


From ba572d043468a9ecdd7e374c99dc822c1c24e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:42 +0000
Subject: [PATCH 56/60] fix: the names of some canaries were refused

---
 stabby-macros/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/functions.rs b/stabby-macros/src/functions.rs
index 4e12d77..1402fed 100644
--- a/stabby-macros/src/functions.rs
+++ b/stabby-macros/src/functions.rs
@@ -188,7 +188,7 @@ impl FromStr for CanarySpec {
         }
         let known = Self::ARRAY.iter().map(|s| s.0).collect::<Vec<_>>();
         if s.chars()
-            .any(|c| !(c.is_alphabetic() || c == ' ' || c == ','))
+            .any(|c| !(c.is_alphabetic() || matches!(c, ' ' | '_' | ',')))
         {
             return Err(format!("Invalid canary-spec: `{s}` must be a comma-separated list of canary identifiers ({known:?})"));
         }
-- 
2.43.0


From f96cb4eba85257e62499b041a3b508c026504f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:43 +0000
Subject: [PATCH 57/60] fix: reports left out the discriminants of enums

---
 stabby-macros/src/enums.rs | 11 +++++++++++
 stabby-macros/src/lib.rs   | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index 28e4d39..9614de2 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -284,6 +284,17 @@ pub fn stabby(
         quote!(#st::Tuple<#reprid, #layout>)
     };
     report.tyty = crate::Tyty::Enum(trepr);
+    for variant in variants {
+        if let Some((_, discriminant)) = &variant.discriminant {
+            report.add_field(
+                format!("{} =", variant.ident),
+                quote!({
+                    const DISCRIMINANT: #reprid = #discriminant;
+                    DISCRIMINANT as u64
+                }),
+            );
+        }
+    }
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
         let ctype = report.crepr();
diff --git a/stabby-macros/src/lib.rs b/stabby-macros/src/lib.rs
index 6799931..c73b278 100644
--- a/stabby-macros/src/lib.rs
+++ b/stabby-macros/src/lib.rs
@@ -259,6 +259,8 @@ pub fn gen_closures_impl(_: TokenStream) -> TokenStream {
 enum Type {
     Syn(syn::Type),
     Report(Report),
+    /// A value that's part of the type's definition, as a `u64`
+    Value(proc_macro2::TokenStream),
 }
 impl From<syn::Type> for Type {
     fn from(value: syn::Type) -> Self {
@@ -270,6 +272,11 @@ impl From<Report> for Type {
         Self::Report(value)
     }
 }
+impl From<proc_macro2::TokenStream> for Type {
+    fn from(value: proc_macro2::TokenStream) -> Self {
+        Self::Value(value)
+    }
+}
 
 #[derive(Debug, Clone, Copy)]
 pub(crate) enum Tyty {
@@ -366,6 +373,7 @@ impl Report {
                 Type::Report(report) => {
                     report_bounds = report.__bounds(bounded_types, report_bounds, st)
                 }
+                Type::Value(_) => {}
             }
         }
         report_bounds
@@ -392,6 +400,7 @@ impl Report {
                 let fields = self.fields.iter().map(|f| match &f.1 {
                     Type::Syn(ty) => quote! (<#ty as #st::IStable>::CType),
                     Type::Report(r) => r.crepr(),
+                    Type::Value(_) => quote!(()),
                 });
                 quote! {
                     #st::tuple::#tuple <#(#fields,)*>
@@ -403,6 +412,7 @@ impl Report {
                     let ty = match &f.1 {
                         Type::Syn(ty) => quote! (#ty),
                         Type::Report(r) => r.crepr(),
+                        Type::Value(_) => continue,
                     };
                     crepr = quote!(#st::Union<#ty, #crepr>);
                 }
@@ -441,6 +451,30 @@ impl ToTokens for Report {
                         next_field: #st::StableLike::new(#fields)
                     })
                 },
+                // Both halves of the value are stored as versions.
+                Type::Value(value) => quote! {
+                    Some(& #st::report::FieldReport {
+                        name: #st::str::Str::new(#name),
+                        ty: &#st::report::TypeReport {
+                            name: #st::str::Str::new("value"),
+                            module: #st::str::Str::new("stabby_abi::report"),
+                            fields: unsafe{#st::StableLike::new(Some(& #st::report::FieldReport {
+                                name: #st::str::Str::new("high"),
+                                ty: &#st::report::TypeReport {
+                                    name: #st::str::Str::new("value"),
+                                    module: #st::str::Str::new("stabby_abi::report"),
+                                    fields: unsafe{#st::StableLike::new(None)},
+                                    version: ((#value) >> 32) as u32,
+                                    tyty: #st::report::TyTy::Struct,
+                                },
+                                next_field: #st::StableLike::new(None)
+                            }))},
+                            version: (#value) as u32,
+                            tyty: #st::report::TyTy::Struct,
+                        },
+                        next_field: #st::StableLike::new(#fields)
+                    })
+                },
             }
         }
         let Self {
-- 
2.43.0


From a7ea41e714427fb999981faa7b41cf174da5ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:10 +0000
Subject: [PATCH 58/60] fix: reports didn't tell the enums that C lays out from
 others

---
 stabby-macros/src/enums.rs |  5 ++++-
 stabby-macros/src/lib.rs   | 11 ++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index 9614de2..97fc9f0 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -283,7 +283,10 @@ pub fn stabby(
     } else {
         quote!(#st::Tuple<#reprid, #layout>)
     };
-    report.tyty = crate::Tyty::Enum(trepr);
+    report.tyty = crate::Tyty::Enum(
+        trepr,
+        has_non_empty_fields && repr.is_some_and(|r| r.is_c),
+    );
     for variant in variants {
         if let Some((_, discriminant)) = &variant.discriminant {
             report.add_field(
diff --git a/stabby-macros/src/lib.rs b/stabby-macros/src/lib.rs
index c73b278..13c2464 100644
--- a/stabby-macros/src/lib.rs
+++ b/stabby-macros/src/lib.rs
@@ -282,7 +282,8 @@ impl From<proc_macro2::TokenStream> for Type {
 pub(crate) enum Tyty {
     Struct,
     Union,
-    Enum(enums::Repr),
+    /// Whether `C` lays the variants out matters too
+    Enum(enums::Repr, bool),
 }
 impl ToTokens for Tyty {
     fn to_tokens(&self, tokens: &mut proc_macro2::TokenStream) {
@@ -290,8 +291,8 @@ impl ToTokens for Tyty {
         let tyty = match self {
             Tyty::Struct => quote!(#st::report::TyTy::Struct),
             Tyty::Union => quote!(#st::report::TyTy::Union),
-            Tyty::Enum(r) => {
-                let s = format!("{r:?}");
+            Tyty::Enum(r, is_c) => {
+                let s = format!("{}{r:?}", if *is_c { "C, " } else { "" });
                 quote!(#st::report::TyTy::Enum(#st::str::Str::new(#s)))
             }
         };
@@ -334,7 +335,7 @@ impl Report {
             } else {
                 module
             },
-            tyty: Tyty::Enum(enums::Repr::Stabby),
+            tyty: Tyty::Enum(enums::Repr::Stabby, false),
         }
     }
     pub fn r#union(
@@ -418,7 +419,7 @@ impl Report {
                 }
                 quote! {<#crepr as #st::IStable>::CType}
             }
-            Tyty::Enum(r) => {
+            Tyty::Enum(r, _) => {
                 let mut clone = self.clone();
                 clone.tyty = Tyty::Union;
                 let crepr = clone.crepr();
-- 
2.43.0


From fad55e5b1509e4c312365e39a109b574ac29ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 59/60] fix: reports left out the alignment of over-aligned
 structures

---
 stabby-macros/src/structs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stabby-macros/src/structs.rs b/stabby-macros/src/structs.rs
index bfe7ee9..227f2b5 100644
--- a/stabby-macros/src/structs.rs
+++ b/stabby-macros/src/structs.rs
@@ -184,6 +184,10 @@ pub fn stabby(
             }
         }
     };
+    if let Some(AllowedRepr::Align(n)) = repr {
+        let n = n as u64;
+        report.add_field("repr align".to_string(), quote!(#n));
+    }
     let layout = layout.map_or_else(
         || quote!(()),
         |layout| {
-- 
2.43.0


From ca0d1a0034b22bb6346557282e7e8fa035feaa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:06 +0000
Subject: [PATCH 60/60] fix: over-aligned unions and unit structures didn't
 declare their alignment

---
 stabby-macros/src/structs.rs | 78 ++++++++++++++++++++----------------
 stabby-macros/src/unions.rs  | 14 ++++++-
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/stabby-macros/src/structs.rs b/stabby-macros/src/structs.rs
index 227f2b5..2412b4f 100644
--- a/stabby-macros/src/structs.rs
+++ b/stabby-macros/src/structs.rs
@@ -56,11 +56,40 @@ impl syn::parse::Parse for Args {
     }
 }
 #[derive(Copy, Clone)]
-enum AllowedRepr {
+pub(crate) enum AllowedRepr {
     C,
     Transparent,
     Align(usize),
 }
+impl AllowedRepr {
+    /// Of all the representations, the largest alignment is the one that shapes the layout.
+    pub(crate) fn of(attrs: &[Attribute]) -> syn::Result<Option<Self>> {
+        type Reprs = syn::punctuated::Punctuated<AllowedRepr, syn::Token!(,)>;
+        let mut repr = None;
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("repr")) {
+            for new in attr.parse_args_with(Reprs::parse_terminated)? {
+                repr = Some(match (repr, new) {
+                    (Some(AllowedRepr::Align(a)), AllowedRepr::Align(b)) => {
+                        AllowedRepr::Align(a.max(b))
+                    }
+                    (Some(AllowedRepr::Align(a)), _) => AllowedRepr::Align(a),
+                    (_, new) => new,
+                })
+            }
+        }
+        Ok(repr)
+    }
+}
+/// The type-level number for an alignment.
+pub(crate) fn alignment(mut n: usize) -> proc_macro2::TokenStream {
+    let st = crate::tl_mod();
+    let mut align = quote!(#st::U1);
+    while n > 1 {
+        n /= 2;
+        align = quote!(#st::UInt<#align, #st::B0>);
+    }
+    align
+}
 impl syn::parse::Parse for AllowedRepr {
     fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
         let ident: Ident = input.parse()?;
@@ -118,25 +147,10 @@ pub fn stabby(
     let clauses = where_clause.as_ref().map(|w| &w.predicates);
     let mut layout = None;
     let mut report = crate::Report::r#struct(ident.to_string(), version, module);
-    // Of all the representations, the largest alignment is the one that shapes the layout.
-    let mut repr = None;
-    for attr in attrs.iter().filter(|attr| attr.path.is_ident("repr")) {
-        type Reprs = syn::punctuated::Punctuated<AllowedRepr, syn::Token!(,)>;
-        match attr.parse_args_with(Reprs::parse_terminated) {
-            Ok(reprs) => {
-                for new in reprs {
-                    repr = Some(match (repr, new) {
-                        (Some(AllowedRepr::Align(a)), AllowedRepr::Align(b)) => {
-                            AllowedRepr::Align(a.max(b))
-                        }
-                        (Some(AllowedRepr::Align(a)), _) => AllowedRepr::Align(a),
-                        (_, new) => new,
-                    })
-                }
-            }
-            Err(e) => return e.to_compile_error(),
-        }
-    }
+    let repr = match AllowedRepr::of(&attrs) {
+        Ok(repr) => repr,
+        Err(e) => return e.to_compile_error(),
+    };
     // Without `C`, Rust is free to reorder the fields of over-aligned structures too.
     let repr_attr =
         matches!(repr, None | Some(AllowedRepr::Align(_))).then(|| quote! {#[repr(C)]});
@@ -188,21 +202,15 @@ pub fn stabby(
         let n = n as u64;
         report.add_field("repr align".to_string(), quote!(#n));
     }
-    let layout = layout.map_or_else(
-        || quote!(()),
-        |layout| {
-            if let Some(AllowedRepr::Align(mut n)) = repr {
-                let mut align = quote!(#st::U1);
-                while n > 1 {
-                    n /= 2;
-                    align = quote!(#st::UInt<#align, #st::B0>);
-                }
-                quote!(#st::AlignedStruct<#layout, #align>)
-            } else {
-                quote!(#st::Struct<#layout>)
-            }
-        },
-    );
+    let layout = match (layout, &repr) {
+        (layout, Some(AllowedRepr::Align(n))) => {
+            let layout = layout.unwrap_or_else(|| quote!(()));
+            let align = alignment(*n);
+            quote!(#st::AlignedStruct<#layout, #align>)
+        }
+        (Some(layout), _) => quote!(#st::Struct<#layout>),
+        (None, _) => quote!(()),
+    };
     let opt_id = quote::format_ident!("OptimizedLayoutFor{ident}");
     let size_bug = format!(
         "{ident}'s size was mis-evaluated by stabby, this is definitely a bug and may cause UB, please file an issue"
diff --git a/stabby-macros/src/unions.rs b/stabby-macros/src/unions.rs
index 776cb3c..744244d 100644
--- a/stabby-macros/src/unions.rs
+++ b/stabby-macros/src/unions.rs
@@ -74,9 +74,21 @@ pub fn stabby(
         layout = quote!(#st::Union<#layout, #ty>);
         report.add_field(field.ident.as_ref().unwrap().to_string(), ty);
     }
+    let mut ctype = quote!(<#layout as #st::IStable>::CType);
+    match crate::structs::AllowedRepr::of(&attrs) {
+        Ok(Some(crate::structs::AllowedRepr::Align(n))) => {
+            ctype = quote!(Self);
+            let align = crate::structs::alignment(n);
+            layout = quote!(#st::AlignedStruct<#layout, #align>);
+            let n = n as u64;
+            report.add_field("repr align".to_string(), quote!(#n));
+        }
+        Ok(_) => {}
+        Err(e) => return e.to_compile_error(),
+    }
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
-        quote! {type CType = <#layout as #st::IStable>::CType;}
+        quote! {type CType = #ctype;}
     });
     quote! {
         #(#attrs)*
-- 
2.43.0

