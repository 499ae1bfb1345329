From 4a166d14a08995d494a26fa2165a3f31c0a4a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 01/17] fix: zero-sized allocations from unsync bump panicked

---
 static-alloc/src/unsync/bump.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 0bd0def..fa404b5 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -318,6 +318,10 @@ impl MemBump {
     ///
     /// FIXME(breaking): this could well be a `Result<_, Failure>`.
     pub fn get<V>(&self) -> Option<Allocation<V>> {
+        if mem::size_of::<V>() == 0 {
+            return Some(Allocation::for_zst(self.level()));
+        }
+
         let alloc = self.try_alloc(Layout::new::<V>())?;
         Some(Allocation {
             lifetime: alloc.lifetime,
@@ -333,6 +337,14 @@ impl MemBump {
     ///
     /// [`get`]: #method.get
     pub fn get_at<V>(&self, level: Level) -> Result<Allocation<V>, Failure> {
+        if mem::size_of::<V>() == 0 {
+            let observed = self.level();
+            if observed != level {
+                return Err(Failure::Mismatch { observed });
+            }
+            return Ok(Allocation::for_zst(observed));
+        }
+
         let alloc = self.try_alloc_at(Layout::new::<V>(), level.0)?;
         Ok(Allocation {
             lifetime: alloc.lifetime,
@@ -456,7 +468,12 @@ impl MemBump {
         n: usize,
     ) -> Result<LeakBox<'bump, [MaybeUninit<T>]>, Failure> {
         let layout = Layout::array::<T>(n).map_err(|_| Failure::Exhausted)?;
-        let raw = self.alloc(layout).ok_or(Failure::Exhausted)?;
+        // An empty layout can not be requested from the allocator, and does not need to be.
+        let raw = if layout.size() == 0 {
+            NonNull::<T>::dangling().cast()
+        } else {
+            self.alloc(layout).ok_or(Failure::Exhausted)?
+        };
         let slice = ptr::slice_from_raw_parts_mut(raw.cast().as_ptr(), n);
         let uninit = unsafe { &mut *slice };
         Ok(uninit.into())
-- 
2.43.0


From 0cfd78e3d6d9e0d0eeb76b34eda1c61531e48a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 02/17] fix: view of unsync Bump<T> as MemBump for over-aligned
 T

---
 static-alloc/src/unsync/bump.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index fa404b5..57ec4bd 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -578,33 +578,42 @@ impl MemBump {
     }
 }
 
+impl<T> Bump<T> {
+    /// The length of the data when viewed as a `MemBump`, which starts right behind its header.
+    ///
+    /// Includes the padding which `_data` has in front if `T` has a higher alignment than the index.
+    fn data_len(&self) -> usize {
+        let start = self._data.get() as usize - self as *const Self as usize;
+        start - MemBump::header_layout().size() + mem::size_of::<T>()
+    }
+}
+
 impl<T> ops::Deref for Bump<T> {
     type Target = MemBump;
     fn deref(&self) -> &MemBump {
-        let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
+        let from_size = mem::size_of::<Self>();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *const Self as *const MaybeUninit<u8>;
-        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, data_layout.size());
+        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, self.data_len());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &*(mem as *const MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_size, mem::size_of_val(bump));
         bump
     }
 }
 
 impl<T> ops::DerefMut for Bump<T> {
     fn deref_mut(&mut self) -> &mut MemBump {
-        let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
+        let from_size = mem::size_of::<Self>();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
+        let data_len = self.data_len();
         let ptr = self as *mut Self as *mut MaybeUninit<u8>;
-        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_layout.size());
+        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_len);
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &mut *(mem as *mut MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_size, mem::size_of_val(bump));
         bump
     }
 }
-- 
2.43.0


From 221bd1bb7b4a301a1c74ee9f481b7137467a5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 03/17] fix: initialize the level of a heap allocated MemBump

---
 static-alloc/src/unsync/bump.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 57ec4bd..ec861bb 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -128,6 +128,8 @@ impl MemBump {
         let layout = Self::layout_from_size(capacity).expect("Bad layout");
         let ptr = NonNull::new(unsafe { alloc::alloc::alloc(layout) })
             .unwrap_or_else(|| alloc::alloc::handle_alloc_error(layout));
+        // SAFETY: the layout starts with the header, i.e. the index of the next free byte.
+        unsafe { ptr.cast::<Cell<usize>>().as_ptr().write(Cell::new(0)) };
         let ptr = ptr::slice_from_raw_parts_mut(ptr.as_ptr(), capacity);
         unsafe { alloc::boxed::Box::from_raw(ptr as *mut MemBump) }
     }
-- 
2.43.0


From 02d0e78a1a8a22da3dd425f29912ccf0260549fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 04/17] fix: MemBump::get_unchecked ignored the alignment of
 the value

---
 static-alloc/src/unsync/bump.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index ec861bb..cbe0258 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -406,8 +406,10 @@ impl MemBump {
     pub unsafe fn get_unchecked<V>(&self, level: Level) -> Allocation<V> {
         debug_assert!(level.0 < self.capacity());
         let ptr = self.data_ptr().as_ptr();
+        // The allocation starts at the first address, from that level on, which is aligned for `V`.
+        let offset = ptr.wrapping_add(level.0).align_offset(mem::align_of::<V>());
         // Safety: guaranteed by the caller.
-        let alloc = ptr.offset(level.0 as isize) as *mut V;
+        let alloc = ptr.add(level.0 + offset) as *mut V;
 
         Allocation {
             level,
-- 
2.43.0


From b43e9c7aa97cd799d409f6d3b25a3bb628fd6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 05/17] fix: Alloca::new overflowed for the maximum length

---
 static-alloc/src/leaked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index 91ded7a..d492c36 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -30,7 +30,7 @@ impl<T> Alloca<T> {
     pub fn new(len: usize) -> Option<Self> {
         // Check that it's okay to create the padded layout. This is pure so it will again work
         // when we try during `run`.
-        let _padded_layout = Layout::array::<T>(len + 1).ok()?;
+        let _padded_layout = Layout::array::<T>(len.checked_add(1)?).ok()?;
         Some(Alloca {
             marker: PhantomData,
             len,
-- 
2.43.0


From 9f60e998d4f6ac0c675d3ea2bba2d7b2ef7abd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 06/17] fix: remaining ExitStack values were leaked when a
 destructor panicked

---
 exit-stack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index 63de5c3..c20746c 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -205,9 +205,10 @@ impl<Mem> ExitStack<Mem> {
         while let Some(exit_handle) = flag.chain.take() {
             // SAFETY: we only store pointers to the same stack here, which is still valid.
             let slot = unsafe { &mut *exit_handle.as_ptr() };
+            // Own the remaining values first, such that they are dropped even when this one panics.
+            flag.chain = slot.link;
             // This is also uniquely dropped as it was owned by `flag.chain` before.
             unsafe { core::ptr::drop_in_place(&mut slot.value) };
-            flag.chain = slot.link;
         }
 
         // No more values are present, feel free to move anything.
-- 
2.43.0


From 62d25e71d23c294ac41085f3fec8e0c0bfd6ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 07/17] fix: ExitStack was Unpin and could be moved with values
 pinned in it

---
 exit-stack/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index c20746c..b4f8a2a 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -46,6 +46,7 @@
 //! ```
 #![no_std]
 use core::cell::Cell;
+use core::marker::PhantomPinned;
 use core::mem::MaybeUninit;
 use core::pin::Pin;
 use core::ptr::NonNull;
@@ -64,6 +65,8 @@ pub struct ExitStack<Mem> {
     memory: Bump<PinSlot<Mem>>,
     /// The exit handler to the last filled slot of the exit stack.
     top: Cell<Option<ExitHandle>>,
+    /// Pinned values live within `memory`, so that the stack itself must never be `Unpin`.
+    _pinned: PhantomPinned,
 }
 
 type ExitHandle = NonNull<PinSlot<dyn Drop>>;
@@ -99,6 +102,7 @@ impl<Mem> ExitStack<Mem> {
         ExitStack {
             memory: Bump::uninit(),
             top: Cell::new(None),
+            _pinned: PhantomPinned,
         }
     }
 
-- 
2.43.0


From 88f2d7c4b6bcadf055faed6f206e624747eade72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 08/17] fix: UninitView::split_at_byte counted in elements
 instead of bytes

---
 without-alloc/src/uninit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 1b01549..560059b 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -626,7 +626,7 @@ impl<'a, T> UninitView<'a, T> {
             return None;
         }
 
-        let base = self.ptr.as_ptr();
+        let base = self.ptr.as_ptr() as *mut u8;
         // SAFETY: by `from_memory`, all offsets `< len` are within the allocation.
         // In particular, no pointer within or one-past-the-end is null.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(at)) };
@@ -634,7 +634,7 @@ impl<'a, T> UninitView<'a, T> {
         self.len = at;
 
         // SAFETY: within one allocation, namely the one we are in.
-        let other = unsafe { UninitView::from_memory(next_base.cast(), next_len) };
+        let other = unsafe { UninitView::from_memory(next_base, next_len) };
         Some(other)
     }
 
-- 
2.43.0


From 33c95ab71ce58eba165d30d8cb9c77a50864ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 09/17] fix: UninitView::split_layout never skipped padding

---
 without-alloc/src/uninit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 560059b..e5d6ff9 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -559,7 +559,7 @@ impl UninitView<'_, ()> {
     ///
     /// [`Uninit::split_layout`]: ./struct.Uninit.html#method.split_layout
     pub fn split_layout(&mut self, layout: Layout) -> Option<Self> {
-        let align = self.ptr.as_ptr()
+        let align = self.ptr.as_ptr().cast::<u8>()
             .align_offset(layout.align());
         let aligned_len = self.len
             .checked_sub(align)
-- 
2.43.0


From adf346bd1cda271430321a4cfba1194bbd5e0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 10/17] fix: UninitView::split_at left the length of the slice
 pointer unchanged

---
 without-alloc/src/uninit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index e5d6ff9..7169da5 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -833,6 +833,11 @@ impl<'a, T> UninitView<'a, [T]> {
         // SAFETY: was previously in bounds.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(bytes)) };
 
+        // Shorten the slice that we point to along with its memory.
+        let slice = ptr::slice_from_raw_parts_mut(base as *mut T, self.capacity());
+        // SAFETY: same address as the previous, non-null pointer.
+        self.ptr = unsafe { ptr::NonNull::new_unchecked(slice) };
+
         // SAFETY: total allocation length at least `self.len + next_len`.
         let other = unsafe { UninitView::from_memory(next_base, next_len) };
         Some(other.cast_slice().unwrap())
-- 
2.43.0


From a84f9c2bd1c6aec86a2017aff16ba9e965606c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 11/17] fix: FixedVec::drain accepted ranges with an
 overflowing bound

---
 without-alloc/src/fixed_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/fixed_vec.rs b/without-alloc/src/fixed_vec.rs
index 13349c4..b16b4e0 100644
--- a/without-alloc/src/fixed_vec.rs
+++ b/without-alloc/src/fixed_vec.rs
@@ -372,11 +372,11 @@ impl<T> FixedVec<'_, T> {
         let len = self.len();
         let start = match range.start_bound() {
             ops::Bound::Included(&n) => n,
-            ops::Bound::Excluded(&n) => n + 1,
+            ops::Bound::Excluded(&n) => n.checked_add(1).expect("range start out of bounds"),
             ops::Bound::Unbounded    => 0,
         };
         let end = match range.end_bound() {
-            ops::Bound::Included(&n) => n + 1,
+            ops::Bound::Included(&n) => n.checked_add(1).expect("range end out of bounds"),
             ops::Bound::Excluded(&n) => n,
             ops::Bound::Unbounded    => len,
         };
-- 
2.43.0


From 74a5ad32afec8a12e41e61f043d8a9302c6c54e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 12/17] fix: FixedVec::extend asked for more elements after the
 end of the iterator

---
 without-alloc/src/fixed_vec.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/fixed_vec.rs b/without-alloc/src/fixed_vec.rs
index b16b4e0..c2f2684 100644
--- a/without-alloc/src/fixed_vec.rs
+++ b/without-alloc/src/fixed_vec.rs
@@ -721,7 +721,14 @@ impl<T> iter::Extend<T> for FixedVec<'_, T> {
     fn extend<I>(&mut self, iter: I)
         where I: IntoIterator<Item=T>,
     {
-        for _spill in self.fill(iter) {
+        let spill = self.fill(iter);
+
+        // The iterator already ended, do not ask one that is not fused for another element.
+        if self.len() < self.capacity() {
+            return;
+        }
+
+        for _spill in spill {
             panic!("FixedVec memory exhausted");
         }
     }
-- 
2.43.0


From 818d3147ff5a1b19eea71dcc2bebe7cc973776ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 13/17] fix: Rc handed its memory back while the value was
 being dropped

The weak count of the strong handles was released before the destructor of the
value ran. A weak handle used by that destructor could then be unwrapped to the
memory of the value which is still being dropped.
---
 without-alloc/src/rc.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/without-alloc/src/rc.rs b/without-alloc/src/rc.rs
index a64887a..69200fe 100644
--- a/without-alloc/src/rc.rs
+++ b/without-alloc/src/rc.rs
@@ -340,11 +340,6 @@ impl<T> Rc<'_, T> {
         let val = Self::weak_count(self) + 1;
         self.inner().weak.set(val);
     }
-
-    fn dec_weak(&self) {
-        let val = Self::weak_count(self) - 1;
-        self.inner().weak.set(val);
-    }
 }
 
 impl<'a, T> Weak<'a, T> {
@@ -521,7 +516,9 @@ impl<T> Drop for Rc<'_, T> {
         self.dec_strong();
         // weak count doesn't actually do anything.
         if Rc::strong_count(self) == 0 {
-            self.dec_weak();
+            // The weak handle shared by all strong ones. It must keep the memory reserved until
+            // the value was dropped, its destructor may use other weak handles.
+            let _weak = Weak { inner: self.inner };
 
             unsafe {
                 ptr::drop_in_place(self.as_mut_ptr())
-- 
2.43.0


From cdb5d988cfa3a15a779dd1f78381155a7dbe0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 14/17] fix: copy_dst returned a misaligned reference to
 zero-sized values

The substitute for an allocation was only aligned for `()`.
---
 without-alloc/src/alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 8187a86..6be09b1 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -224,7 +224,11 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
     unsafe fn copy_dst<T: ?Sized>(&'alloc self, val: &core::mem::ManuallyDrop<T>) -> Option<&'alloc mut T> {
         let layout = alloc::Layout::for_value(val);
         let uninit = match NonZeroLayout::from_layout(layout.into()) {
-            None => Uninit::invent_for_zst(),
+            // A zero-sized value still requires its alignment.
+            None => unsafe {
+                let ptr = core::ptr::NonNull::new_unchecked(layout.align() as *mut u8);
+                Uninit::from_memory(ptr, 0)
+            },
             Some(layout) => self.alloc_layout(layout)?.uninit,
         };
 
-- 
2.43.0


From 12a99bc740e290ae38aaeb1663d24db7baf088fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 15/17] fix: copy_slice returned a slice as long as the memory
 instead of the source

Too long if the allocator returned a larger block (exposing uninitialized
elements), and empty for zero-sized elements.
---
 without-alloc/src/alloc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 6be09b1..a3a639d 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -155,8 +155,9 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
         }
 
         Some(unsafe {
-            // SAFETY: this is a copy of `slice` which is initialized.
-            uninit.into_mut()
+            // SAFETY: this is a copy of `slice` which is initialized. The memory may be larger, or
+            // empty for zero-sized elements, so this must use the original length.
+            core::slice::from_raw_parts_mut(uninit.as_begin_ptr(), slice.len())
         })
     }
 
-- 
2.43.0


From 60f768b66322fcde951020f524d814795f8639ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 16/17] fix: filling a Result discarded items once its
 container was full

Every item was taken from the iterator and passed to the container separately. Once
it was full the items were lost, and an infinite iterator never returned.
---
 fill/src/fill.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/fill/src/fill.rs b/fill/src/fill.rs
index fe69adb..bd27262 100644
--- a/fill/src/fill.rs
+++ b/fill/src/fill.rs
@@ -179,17 +179,25 @@ impl<C, E, T> Fill<Result<T, E>> for Result<C, E>
             Err(_) => return,
         };
 
-        let err = loop {
-            match iter.next() {
-                None => return,
-                Some(Err(err)) => break err,
-                Some(Ok(ok)) => {
-                    container.fill(core::iter::once(ok));
-                },
-            };
-        };
+        // The container decides how many items are taken, up to the first error.
+        let mut error = None;
+        container.fill(core::iter::from_fn(|| {
+            if error.is_some() {
+                return None;
+            }
 
-        *self = Err(err);
+            match iter.next()? {
+                Ok(item) => Some(item),
+                Err(err) => {
+                    error = Some(err);
+                    None
+                }
+            }
+        }));
+
+        if let Some(err) = error {
+            *self = Err(err);
+        }
     }
 }
 
-- 
2.43.0


From 4f8447f18565c9185b1dc07434b55b4fde21daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 17/17] hook: optional instrumented core for static-alloc (cfg
 static_alloc_mc)

---
 static-alloc/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/static-alloc/src/lib.rs b/static-alloc/src/lib.rs
index 8db13c2..113e1b3 100644
--- a/static-alloc/src/lib.rs
+++ b/static-alloc/src/lib.rs
@@ -47,6 +47,10 @@
 #[cfg(feature = "alloc")]
 extern crate alloc;
 
+// Verification hook: a stand-in for `core` whose atomics report to a scheduler.
+#[cfg(static_alloc_mc)]
+extern crate static_alloc_mc_core as core;
+
 pub mod bump;
 pub use bump::Bump;
 pub mod leaked;
-- 
2.43.0

