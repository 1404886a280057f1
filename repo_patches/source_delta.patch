From 5b3c0f34ba509bc728c09b5bd5fee0062602ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:57 +0000
Subject: [PATCH 01/26] fix: Vector::append and assign construct clones instead
 of assigning over uninitialised memory

append extended the length over uninitialised memory and then used
clone_from_slice, which drops the garbage "elements" it overwrites; assign
did the same when growing, and leaked the surplus elements when shrinking.
Both also exposed uninitialised elements if a clone panicked.
---
 src/vector/mod.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 4153e90..38bb408 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -278,16 +278,19 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
     ///
     /// `buf`: The buffer or elements.
     pub fn append(&mut self, buf: &[T]) {
-        let old_len = self.len();
-        let new_len = old_len + buf.len();
+        let new_len = self.len() + buf.len();
         if new_len > self.capacity() {
             self.reserve(new_len - self.capacity());
         }
 
-        // copy in place
-        unsafe {
-            self.end_ptr = self.end_ptr.add(buf.len());
-            self.as_slice_mut()[old_len..old_len + buf.len()].clone_from_slice(buf);
+        // construct each clone in place. the memory past the end does not hold elements, and
+        // the array only ever covers the elements that were constructed
+        for elem in buf {
+            let elem = elem.clone();
+            unsafe {
+                self.end_ptr.write(elem);
+                self.increment_size();
+            }
         }
     }
 
@@ -297,14 +300,12 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
     ///
     /// `buf`: The slice
     pub fn assign(&mut self, buf: &[T]) {
-        if buf.len() > self.capacity() {
-            self.reserve(buf.len() - self.capacity());
-        }
+        // drop the previous elements in place, keeping the storage
+        let old: *mut [T] = self.as_slice_mut();
+        self.end_ptr = self.begin_ptr;
+        unsafe { ptr::drop_in_place(old) };
 
-        unsafe {
-            self.end_ptr = self.begin_ptr.add(buf.len());
-            self.as_slice_mut().clone_from_slice(buf);
-        }
+        self.append(buf);
     }
 }
 
-- 
2.43.0


From ea6c4ab14f01d61540258fed6decb08a77435429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:41 +0000
Subject: [PATCH 02/26] fix: Deque returns its last subarray to the allocator
 when dropped

The end iterator's subarray is always allocated, even for an empty deque,
but the loop in drop stopped before it.
---
 src/deque/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index f0dbd10..dcd06f3 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -440,12 +440,12 @@ impl<'a, T: 'a, A: Allocator> Drop for Deque<'a, T, A> {
             unsafe { std::ptr::drop_in_place(elem as *mut T) }
         }
 
-        // free the sub-arrays
+        // free the sub-arrays, including the one the end iterator is in
         if let Some(current_array) = unsafe { self.begin_it.current_array.as_mut() } {
             for subarray in unsafe {
                 std::slice::from_raw_parts_mut(
                     current_array,
-                    self.end_it.current_array.offset_from(current_array) as usize,
+                    self.end_it.current_array.offset_from(current_array) as usize + 1,
                 )
             } {
                 self.free_subarray(*subarray);
-- 
2.43.0


From d7350398ce6f85cc991da100871d8c5041530020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 03/26] fix: List returns each node as the one ListNode it was
 allocated as

Nodes were returned as size_of::<ListNode<T>>() elements of ListNodeBase,
so the allocator was told a wrong size (and, for over-aligned elements, a
wrong alignment).
---
 src/list/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 3bae954..b6db149 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -3,7 +3,6 @@ use crate::list::iter::{Iter, IterMut};
 use crate::list::node::{ListNode, ListNodeBase};
 use moveit::{new, New};
 use std::marker::PhantomData;
-use std::mem::size_of;
 use std::{fmt, ptr};
 
 pub(crate) mod iter;
@@ -81,7 +80,7 @@ impl<T, A: Allocator> List<T, A> {
                 // Drop the value
                 ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
                 // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop, size_of::<ListNode<T>>());
+                self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
             }
         }
         self.init_sentinel_node();
@@ -207,7 +206,7 @@ impl<T, A: Allocator> List<T, A> {
         (*node).remove();
         let value = ptr::read(&(*(node as *mut ListNode<T>)).value);
         // Deallocate the memory for the node
-        self.allocator.deallocate(node, size_of::<ListNode<T>>());
+        self.allocator.deallocate(node as *mut ListNode<T>, 1);
         self.size -= 1;
         value
     }
-- 
2.43.0


From 89257f547fa28a5c372241fb9bd777cf185e153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 04/26] fix: HashSet::insert reports true when the key was
 newly inserted

---
 src/hash_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash_set/mod.rs b/src/hash_set/mod.rs
index c6acb6b..635326b 100644
--- a/src/hash_set/mod.rs
+++ b/src/hash_set/mod.rs
@@ -69,7 +69,7 @@ impl<K: PartialEq, A: Allocator, H: Hash<K>, E: Equals<K>> HashSet<K, A, H, E> {
     ///
     /// `value`: The associated value
     pub fn insert(&mut self, key: K) -> bool {
-        self.hash_table.insert(key, ()).is_some()
+        self.hash_table.insert(key, ()).is_none()
     }
 
     /// Creates a hash set backed by an allocator
-- 
2.43.0


From 212ab62231f1bface3027ec1a09c21c9cf0292f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 05/26] fix: hash table frees long bucket chains without
 recursing

---
 src/internal/hash_table/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index f18c54a..c113952 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -320,14 +320,16 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// `bucket_node`: The node in the bucket
     fn free_bucket(&mut self, bucket_node: &mut Node<K, V>) {
-        // free the next node
-        if let Some(next_node) = bucket_node.next_mut() {
-            self.free_bucket(next_node);
-        }
-        // drop and free our node
-        unsafe {
-            std::ptr::drop_in_place(bucket_node as *mut Node<K, V>);
-            self.allocator.deallocate(bucket_node, 1)
+        // chains may be arbitrarily long, so walk them rather than recursing
+        let mut node = bucket_node as *mut Node<K, V>;
+        while !node.is_null() {
+            // drop and free our node
+            unsafe {
+                let next_node = (*node).next;
+                std::ptr::drop_in_place(node);
+                self.allocator.deallocate(node, 1);
+                node = next_node;
+            }
         }
     }
 
-- 
2.43.0


From a04f24f38c9c2edac4f0ffbea594ce9cb00f05b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 06/26] fix: hash table returns its bucket arrays to the
 allocator

---
 src/internal/hash_table/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index c113952..1983366 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -333,6 +333,17 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         }
     }
 
+    /// Frees the bucket array itself, including the sentinel. The empty bucket
+    /// array is static and is never freed
+    fn free_bucket_array(&mut self) {
+        if self.bucket_count > 1 {
+            unsafe {
+                self.allocator
+                    .deallocate(self.bucket_array, (self.bucket_count + 1) as usize)
+            }
+        }
+    }
+
     /// Frees all buckets
     fn free_buckets(&mut self) {
         if self.bucket_count > 1 {
@@ -414,7 +425,7 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
                 *bucket_node_ref = std::ptr::null_mut();
             });
         // free the old buckets before setting new ones
-        self.free_buckets();
+        self.free_bucket_array();
         self.bucket_array = new_buckets.as_mut_ptr();
         self.bucket_count = bucket_count;
     }
@@ -433,6 +444,7 @@ where
 impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Drop for HashTable<K, V, A, H, E> {
     fn drop(&mut self) {
         self.free_buckets();
+        self.free_bucket_array();
     }
 }
 
-- 
2.43.0


From 1a708e742e87af14f6ea45002f469e1080258f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 07/26] fix: hash table iterators convert to and from their C++
 positions

---
 src/internal/hash_table/iter.rs | 95 +++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 29 deletions(-)

diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index 5b49303..bdc69c9 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -45,18 +45,16 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     /// Converts the Rust iterator into a pair of
     /// `(begin, end)` compatibility iterators
     fn into_compat(self) -> (CompatIter<'a, K, V>, CompatIter<'a, K, V>) {
+        let ((begin_node, begin_bucket), (end_node, end_bucket)) = self.compat_positions();
         (
             CompatIter::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>,
+                node_ptr: begin_node,
+                bucket_ptr: begin_bucket as *const *const Node<K, V>,
                 _marker: PhantomData,
             },
             CompatIter::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: unsafe {
-                    (self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>)
-                        .add(self.bucket_iter.as_slice().len())
-                },
+                node_ptr: end_node,
+                bucket_ptr: end_bucket as *const *const Node<K, V>,
                 _marker: PhantomData,
             },
         )
@@ -70,19 +68,16 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     /// Mutability of the exposed iterator must be enforced.
     /// POLLO: Is there a better way to do this?
     unsafe fn into_compat_mut(self) -> (CompatIterMut<'a, K, V>, CompatIterMut<'a, K, V>) {
+        let ((begin_node, begin_bucket), (end_node, end_bucket)) = self.compat_positions();
         (
             CompatIterMut::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr(),
+                node_ptr: begin_node,
+                bucket_ptr: begin_bucket,
                 _marker: PhantomData,
             },
             CompatIterMut::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: self
-                    .bucket_iter
-                    .as_slice()
-                    .as_ptr()
-                    .add(self.bucket_iter.as_slice().len()),
+                node_ptr: end_node,
+                bucket_ptr: end_bucket,
                 _marker: PhantomData,
             },
         )
@@ -102,14 +97,11 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat(begin: CompatIter<K, V>, end: CompatIter<K, V>) -> Self {
-        Self {
-            bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr as *const *mut Node<K, V>,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
-            )
-            .iter(),
-            node_ptr: begin.node_ptr,
-        }
+        Self::from_compat_positions(
+            begin.node_ptr,
+            begin.bucket_ptr as *const *mut Node<K, V>,
+            end.bucket_ptr as *const *mut Node<K, V>,
+        )
     }
 
     /// Constructs a Rust iterator from a pair of
@@ -126,13 +118,58 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat_mut(begin: CompatIterMut<K, V>, end: CompatIterMut<K, V>) -> Self {
+        Self::from_compat_positions(begin.node_ptr, begin.bucket_ptr, end.bucket_ptr)
+    }
+
+    /// Returns the `(begin, end)` positions of the remaining elements
+    /// like C++ represents them: the current node along with the bucket
+    /// that holds it, and the sentinel along with the end of the buckets
+    #[allow(clippy::type_complexity)]
+    fn compat_positions(
+        &self,
+    ) -> (
+        (*mut Node<K, V>, *const *mut Node<K, V>),
+        (*mut Node<K, V>, *const *mut Node<K, V>),
+    ) {
+        let remaining = self.bucket_iter.as_slice();
+        let end = (!0usize as *mut Node<K, V>, remaining.as_ptr_range().end);
+        if self.node_ptr.is_null() {
+            (end, end)
+        } else {
+            // the current bucket was already consumed from the bucket iterator
+            ((self.node_ptr, remaining.as_ptr().wrapping_sub(1)), end)
+        }
+    }
+
+    /// Constructs a Rust iterator from C++ positions
+    ///
+    /// # Safety
+    ///
+    /// The pointers specified must point to valid portions of the
+    /// same hash table
+    ///
+    /// # Arguments
+    ///
+    /// `node_ptr`: The starting node
+    ///
+    /// `bucket_ptr`: The bucket which holds the starting node
+    ///
+    /// `end_ptr`: The end of the buckets
+    unsafe fn from_compat_positions(
+        node_ptr: *mut Node<K, V>,
+        bucket_ptr: *const *mut Node<K, V>,
+        end_ptr: *const *mut Node<K, V>,
+    ) -> Self {
+        let mut bucket_iter =
+            std::slice::from_raw_parts(bucket_ptr, end_ptr.offset_from(bucket_ptr) as usize).iter();
+        // the starting node is in the first bucket, so there are only
+        // no elements left if there is no such bucket
+        let node_ptr = bucket_iter
+            .next()
+            .map_or_else(std::ptr::null_mut, |_| node_ptr);
         Self {
-            node_ptr: begin.node_ptr,
-            bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
-            )
-            .iter(),
+            bucket_iter,
+            node_ptr,
         }
     }
 
-- 
2.43.0


From 44cc2ac97b8331345703e6ff498ebcadb1c550f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:13 +0000
Subject: [PATCH 08/26] fix: VectorMap identifies keys by its ordering

---
 src/vector_map/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vector_map/mod.rs b/src/vector_map/mod.rs
index f629dc8..1d0d88a 100644
--- a/src/vector_map/mod.rs
+++ b/src/vector_map/mod.rs
@@ -78,7 +78,7 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         let lower_bound = self.lower_bound(&key);
 
         // if it already exists, just replace the value and return the original
-        if lower_bound < self.len() && self.base[lower_bound].0 == key {
+        if lower_bound < self.len() && !C::compare(&key, &self.base[lower_bound].0) {
             Entry::Occupied(OccupiedEntry(&mut self.base[lower_bound]))
         } else {
             Entry::Vacant(VacantEntry {
@@ -101,7 +101,8 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         if lower_bound < self.len() {
             let (k, v) = &self.base[lower_bound];
 
-            if k == key {
+            // the bound is not smaller than the key, so it matches unless it is greater
+            if !C::compare(key, k) {
                 Some(v)
             } else {
                 None
@@ -123,7 +124,8 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         if lower_bound < self.len() {
             let (k, v) = &mut self.base[lower_bound];
 
-            if k == key {
+            // the bound is not smaller than the key, so it matches unless it is greater
+            if !C::compare(key, k) {
                 Some(v)
             } else {
                 None
@@ -145,7 +147,7 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         let lower_bound = self.lower_bound(&key);
 
         // if it already exists, just replace the value and return the original
-        if lower_bound < self.len() && self.base[lower_bound].0 == key {
+        if lower_bound < self.len() && !C::compare(&key, &self.base[lower_bound].0) {
             std::mem::swap(&mut value, &mut self.base[lower_bound].1);
 
             Some(value)
@@ -179,7 +181,7 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         // find the entry
         let lower_bound = self.lower_bound(key);
 
-        if lower_bound < self.len() && &self.base[lower_bound].0 == key {
+        if lower_bound < self.len() && !C::compare(key, &self.base[lower_bound].0) {
             self.base.remove(lower_bound)
         } else {
             None
-- 
2.43.0


From 9b72a60ffe93cf005b1fd8f0d4b4f747f38d1ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 09/26] fix: String::assign replaces the previous content

---
 src/string/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index e1987a2..e873c72 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -73,10 +73,8 @@ impl<A: Allocator> String<A> {
 
     /// Assigns a string to a slice
     pub fn assign<S: AsRef<str>>(&mut self, buf: S) {
-        self.reserve(buf.as_ref().len());
-
-        // copy over and null terminate
-        self.vec.append(buf.as_ref().as_bytes());
+        // replace the contents
+        self.vec.assign(buf.as_ref().as_bytes());
 
         // make sure the end is null-terminated
         unsafe { self.null_terminate() }
-- 
2.43.0


From c756b89dd7571fb0b63a2c76cf471dbc0d4bd953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 10/26] fix: String stays null-terminated after remove, reserve
 and with_capacity

---
 src/string/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index e873c72..8ffd533 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -36,10 +36,15 @@ impl<A: Allocator + Default> String<A> {
     ///
     /// `capacity`: The initial capacity of the string
     pub fn with_capacity(capacity: usize) -> Self {
-        Self {
+        let mut ret = Self {
             // make space for the null terminator
             vec: Vector::with_capacity(capacity),
-        }
+        };
+
+        // the new buffer must be terminated from the start
+        unsafe { ret.null_terminate() }
+
+        ret
     }
 }
 
@@ -154,7 +159,12 @@ impl<A: Allocator> String<A> {
         if index >= self.len() {
             None
         } else {
-            self.vec.remove(index).map(|elem| elem as char)
+            let elem = self.vec.remove(index).map(|elem| elem as char);
+
+            // null terminate
+            unsafe { self.null_terminate() }
+
+            elem
         }
     }
 
@@ -165,7 +175,10 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1)
+        self.vec.reserve(capacity + 1);
+
+        // the terminator is not moved along with the contents
+        unsafe { self.null_terminate() }
     }
 
     /// Null terminate the string.
-- 
2.43.0


From e0a99ad83226e0a048a831cfbb09749fe3b52e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 11/26] fix: String adds and removes whole UTF-8 characters

---
 src/string/mod.rs | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index 8ffd533..20d5716 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -126,45 +126,73 @@ impl<A: Allocator> String<A> {
 
     /// Pops an element off of the back of the array
     pub fn pop(&mut self) -> Option<char> {
-        let elem = self.vec.pop().map(|elem| elem as char);
+        let elem = self.chars().next_back()?;
+
+        // remove the whole character
+        for _ in 0..elem.len_utf8() {
+            self.vec.pop();
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
 
-        elem
+        Some(elem)
     }
 
     /// Inserts a char into the string at an index.
-    /// `index` must be less than or equal to `size`
+    /// `index` must be less than or equal to `size`, and lie on a character boundary
     ///
     /// # Arguments
     ///
-    /// `index`: The index to insert the char
+    /// `index`: The byte index to insert the char
     ///
     /// `elem`: The char to add to the string
     pub fn insert(&mut self, index: usize, elem: char) {
-        self.vec.insert(index, elem as u8);
+        assert!(
+            self.is_char_boundary(index),
+            "index out of bounds or inside of a character"
+        );
+
+        let mut buf = [0; 4];
+        let encoded = elem.encode_utf8(&mut buf).as_bytes();
+
+        // make space for the whole character
+        let capacity = self.capacity();
+        if capacity - self.len() < encoded.len() {
+            let missing = self.len() + encoded.len() - capacity;
+            self.vec.reserve(missing.max(capacity));
+        }
+
+        // put it at the end and move it into place
+        self.vec.append(encoded);
+        self.vec[index..].rotate_right(encoded.len());
 
         // null terminate
         unsafe { self.null_terminate() }
     }
 
-    /// Remove the char at the index and return it
+    /// Remove the char at the index and return it.
+    /// `index` must lie on a character boundary
     ///
     /// # Arguments
     ///
-    /// `index`: The index of the element to remove
+    /// `index`: The byte index of the element to remove
     pub fn remove(&mut self, index: usize) -> Option<char> {
         // account for null terminator
         if index >= self.len() {
             None
         } else {
-            let elem = self.vec.remove(index).map(|elem| elem as char);
+            let elem = self[index..].chars().next()?;
+
+            // remove the whole character
+            for _ in 0..elem.len_utf8() {
+                self.vec.remove(index);
+            }
 
             // null terminate
             unsafe { self.null_terminate() }
 
-            elem
+            Some(elem)
         }
     }
 
-- 
2.43.0


From c2e10180209578b7126ae0c716af5525f2ff855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 12/26] fix: clearing a tree drops its pairs and leaves it
 empty

---
 src/internal/rb_tree/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index b7b1936..26de0a4 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -172,7 +172,12 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
     #[allow(clippy::needless_arbitrary_self_type)]
     pub unsafe fn iter(self: Self) -> Iter<K, V> {
         Iter {
-            node: self.begin,
+            // the anchor an empty tree refers to may have been moved since
+            node: if self.is_empty() {
+                std::ptr::null_mut()
+            } else {
+                self.begin
+            },
             anchor: &self.begin as *const _ as *const _,
             _marker: PhantomData,
         }
@@ -259,13 +264,24 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
         if let Some(right) = root.right() {
             self.free_tree(right)
         }
-        // deallocate the current node
-        unsafe { self.allocator.deallocate(root, 1) }
+        unsafe {
+            // drop the pair
+            std::ptr::drop_in_place(&mut root.pair);
+            // deallocate the current node
+            self.allocator.deallocate(root, 1)
+        }
     }
 
     /// Frees all of the nodes in the tree
     fn free_nodes(&mut self) {
         if let Some(node) = unsafe { self.parent.as_mut() } {
+            // the tree is empty from here on. in an empty tree, both ends are the anchor
+            let anchor = &mut self.begin as *mut _ as *mut Node<K, V>;
+            self.begin = anchor;
+            self.end = anchor;
+            self.parent = std::ptr::null_mut();
+            self.size = 0;
+
             self.free_tree(node)
         }
     }
-- 
2.43.0


From 239620181ebc35396bce94d34c173285a4d15d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 13/26] fix: FixedVector::clear goes back to the in-place
 storage

---
 src/fixed_vector/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 7dc0538..17f9fa7 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -96,6 +96,13 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator> FixedVector<T, NODE_COUNT,
         NODE_COUNT
     }
 
+    /// Clears all of the contents, returning any overflow allocation. The vector uses its
+    /// in-place storage again afterwards
+    pub fn clear(&mut self) {
+        self.base_vec.clear();
+        self.init_base_vec();
+    }
+
     /// Returns true if the allocations spilled over into the overflow allocator. Meaningful only if overflow is enabled.
     pub fn has_overflowed(&self) -> bool {
         !ptr::eq(self.base_vec.begin_ptr, self.buffer[0].as_ptr())
-- 
2.43.0


From 9082f252e7df606691e8e0ef9566ae4a4181a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 14/26] fix: moving a FixedVector leaves its target and its
 pool pointer valid

---
 src/fixed_vector/mod.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 17f9fa7..abf34ad 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -8,8 +8,7 @@ use std::fmt::Debug;
 use std::mem::{size_of, MaybeUninit};
 use std::ops::{Deref, DerefMut};
 use std::pin::Pin;
-use std::ptr::null_mut;
-use std::{mem, ptr};
+use std::ptr;
 
 mod allocator;
 
@@ -64,29 +63,21 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator + Default> FixedVector<T, N
 unsafe impl<T: Sized, const NODE_COUNT: usize, A: Allocator> MoveNew
     for FixedVector<T, NODE_COUNT, A>
 {
-    unsafe fn move_new(mut src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
-        let this = this.get_unchecked_mut().assume_init_mut();
-        let src = src.as_mut().get_unchecked_mut();
-        // Swap the allocator over
-        mem::swap(&mut this.base_vec.allocator, &mut src.base_vec.allocator);
-        if !src.has_overflowed() {
-            // We haven't overflowed, so we need to move the buffer
-            mem::swap(&mut this.buffer, &mut src.buffer);
-            // ... and re-init the base vec pointers point to it
+    unsafe fn move_new(src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
+        let src = Pin::into_inner_unchecked(src);
+        let overflowed = src.has_overflowed();
+        let len = src.base_vec.len();
+        // take over everything: `src` is not dropped
+        let this = this.get_unchecked_mut().write(MoveRef::into_inner(src));
+        if overflowed {
+            // The elements stay in the overflow allocation, but the pool has moved
+            this.base_vec.allocator.pool_begin = this.buffer.as_mut_ptr().cast();
+        } else {
+            // We haven't overflowed, so the base vec pointers must point to the new buffer
             this.init_base_vec();
             // we have to fix the end pointer since it will be set to begin_ptr by init_base_vec
-            this.base_vec.end_ptr = (this.base_vec.begin_ptr as usize
-                + (src.base_vec.end_ptr as usize - src.base_vec.begin_ptr as usize))
-                as *mut T;
-        } else {
-            // We have overflowed - we are not going to use `buffer` anymore so we might as well
-            // leave it uninit - so we only copy over the base vec pointers
-            this.base_vec.begin_ptr = src.base_vec.begin_ptr;
-            this.base_vec.end_ptr = src.base_vec.end_ptr;
-            this.base_vec.capacity_ptr = src.base_vec.capacity_ptr;
+            this.base_vec.end_ptr = this.base_vec.begin_ptr.add(len);
         }
-        // zero `src` `begin_ptr` so any allocated data will not be dropped (we pretend like we never allocated it)
-        src.base_vec.begin_ptr = null_mut();
     }
 }
 
-- 
2.43.0


From 497c3ae91c4a632525b21adf89ca41bb65b0413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 15/26] fix: a Deque whose first allocation is refused owns
 nothing

---
 src/deque/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index dcd06f3..ad146c9 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -308,11 +308,11 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
 
     /// Initializes the subarray
     fn init(&mut self) {
-        self.ptr_array_size = Self::INITIAL_PTR_ARRAY_SIZE;
-
-        // allocate the subarrays
-        let ptr_array = self.allocate_ptr_array(self.ptr_array_size as usize);
+        // allocate the subarrays. the deque owns the array from here on, and nothing before
+        let ptr_array = self.allocate_ptr_array(Self::INITIAL_PTR_ARRAY_SIZE as usize);
         ptr_array.fill_with(std::ptr::null_mut);
+        self.ptr_array = ptr_array.as_mut_ptr();
+        self.ptr_array_size = Self::INITIAL_PTR_ARRAY_SIZE;
 
         // we start with an empty deque, so only allocate the first array mid-way through
         ptr_array[((Self::INITIAL_PTR_ARRAY_SIZE - 1) / 2) as usize] = self.allocate_subarray();
@@ -326,8 +326,6 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
                 .set_subarray(&mut ptr_array[3], Self::SUBARRAY_SIZE);
             self.end_it.current = self.end_it.begin;
         };
-
-        self.ptr_array = ptr_array.as_mut_ptr();
     }
 
     /// Returns a mutable iterator over the deque.
@@ -452,7 +450,10 @@ impl<'a, T: 'a, A: Allocator> Drop for Deque<'a, T, A> {
             }
         }
 
-        self.free_ptr_array();
+        // there is no array if its allocation was refused
+        if !self.ptr_array.is_null() {
+            self.free_ptr_array();
+        }
     }
 }
 
-- 
2.43.0


From dba675277790ba8ea19fd178ee265f05453b989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 16/26] fix: a refused bucket array leaves the hash table's
 growth schedule alone

---
 src/internal/hash_table/mod.rs           | 13 ++++++++-----
 src/internal/hash_table/rehash_policy.rs |  1 +
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index 1983366..4ded5a6 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -373,12 +373,15 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         key: K,
         value: V,
     ) -> &mut Node<K, V> {
-        // check if we need to re-hash
-        if let Some(bucket_count) =
-            self.rehash_policy
-                .get_rehash_required(self.bucket_count, self.element_count, 1)
-        {
+        // check if we need to re-hash. the policy may only move on once it has its buckets
+        let mut rehash_policy = self.rehash_policy.clone();
+        let rehash_required =
+            rehash_policy.get_rehash_required(self.bucket_count, self.element_count, 1);
+        if let Some(bucket_count) = rehash_required {
             self.rehash(bucket_count);
+        }
+        self.rehash_policy = rehash_policy;
+        if rehash_required.is_some() {
             // update the target bucket
             target_bucket = self.bucket_for_key_mut(&key);
         }
diff --git a/src/internal/hash_table/rehash_policy.rs b/src/internal/hash_table/rehash_policy.rs
index 97404fa..838df9b 100644
--- a/src/internal/hash_table/rehash_policy.rs
+++ b/src/internal/hash_table/rehash_policy.rs
@@ -2,6 +2,7 @@ use superslice::Ext;
 
 /// The default hash policy which always keeps prime
 /// numbers of buckets
+#[derive(Clone)]
 #[repr(C)]
 pub struct PrimeRehashPolicy {
     max_load_factor: f32,
-- 
2.43.0


From b6ca38d26bf9a37fbbe0f62296f5e2e39af08173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:10 +0000
Subject: [PATCH 17/26] fix: DefaultAllocator reports allocation failure
 instead of returning null

---
 src/allocator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 7544ff5..6baa03c 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -102,11 +102,12 @@ unsafe impl Allocator for DefaultAllocator {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         assert_ne!(n, 0, "`n` must not be zero!");
 
-        unsafe {
-            std::mem::transmute(alloc::alloc(
-                Layout::array::<u8>(n).unwrap().align_to(align).unwrap(),
-            ))
+        let layout = Layout::array::<u8>(n).unwrap().align_to(align).unwrap();
+        let p = unsafe { alloc::alloc(layout) };
+        if p.is_null() {
+            alloc::handle_alloc_error(layout)
         }
+        p.cast()
     }
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
-- 
2.43.0


From 7aa9cfc861d49208c097d7a8d32dfcec604d6b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 18/26] fix: capacities that overflow are refused instead of
 wrapping around

---
 src/allocator.rs                        | 10 +++++-----
 src/string/mod.rs                       |  3 ++-
 src/string/null_terminator_allocator.rs |  3 ++-
 src/vector/mod.rs                       |  5 ++++-
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 6baa03c..b0362ad 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -13,11 +13,11 @@ pub unsafe trait Allocator {
     ///
     /// `n`: The number of array elements
     fn allocate<T>(&mut self, n: usize) -> *mut T {
-        unsafe {
-            std::mem::transmute(
-                self.allocate_raw_aligned(n * std::mem::size_of::<T>(), std::mem::align_of::<T>()),
-            )
-        }
+        let size = n
+            .checked_mul(std::mem::size_of::<T>())
+            .expect("capacity overflow");
+        self.allocate_raw_aligned(size, std::mem::align_of::<T>())
+            .cast()
     }
 
     /// Allocate `n` bytes aligned to usize. `n` must not be zero.
diff --git a/src/string/mod.rs b/src/string/mod.rs
index 20d5716..13bef35 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -203,7 +203,8 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1);
+        self.vec
+            .reserve(capacity.checked_add(1).expect("capacity overflow"));
 
         // the terminator is not moved along with the contents
         unsafe { self.null_terminate() }
diff --git a/src/string/null_terminator_allocator.rs b/src/string/null_terminator_allocator.rs
index 326ae80..3deeff1 100644
--- a/src/string/null_terminator_allocator.rs
+++ b/src/string/null_terminator_allocator.rs
@@ -5,7 +5,8 @@ pub(crate) struct NullTerminatorAllocator<A: Allocator>(pub(crate) A);
 unsafe impl<A: Allocator> Allocator for NullTerminatorAllocator<A> {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         // always leave room for the null terminator
-        let res = self.0.allocate_raw_aligned(n + 1, align);
+        let size = n.checked_add(1).expect("capacity overflow");
+        let res = self.0.allocate_raw_aligned(size, align);
         // null terminate
         *(unsafe { &mut *(res as *mut u8).add(n) }) = 0;
         res
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 38bb408..e69b6c8 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -206,7 +206,10 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
         }
         // allocate a new bit of memory
         let size = self.len();
-        let new_capacity = self.capacity() + additional;
+        let new_capacity = self
+            .capacity()
+            .checked_add(additional)
+            .expect("capacity overflow");
         // allocate the new buffer
         let new_begin_ptr = self.allocator.allocate::<T>(new_capacity);
         // copy from the old array if we should
-- 
2.43.0


From fdd9377acb1658e0c54faaf1cf07264e1c3ecdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 19/26] fix: C strings hash by their bytes even when they are
 not UTF-8

---
 src/hash.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hash.rs b/src/hash.rs
index 93259b3..1c11525 100644
--- a/src/hash.rs
+++ b/src/hash.rs
@@ -98,11 +98,11 @@ impl Hash<bool> for DefaultHash<bool> {
 /// # Arguments
 ///
 /// `str`: The string to hash
-fn fnv1<S: AsRef<str>>(str: S) -> usize {
+fn fnv1<S: AsRef<[u8]>>(str: S) -> usize {
     let mut res: u32 = 2166136261;
     str.as_ref()
-        .bytes()
-        .for_each(|c| res = (res.wrapping_mul(16777619)) ^ (c as u32));
+        .iter()
+        .for_each(|&c| res = (res.wrapping_mul(16777619)) ^ (c as u32));
     res as usize
 }
 
@@ -120,7 +120,8 @@ impl Hash<&str> for DefaultHash<&str> {
 
 impl Hash<*const c_char> for DefaultHash<*const c_char> {
     fn hash(val: &*const c_char) -> usize {
-        DefaultHash::<str>::hash(unsafe { CStr::from_ptr(*val) }.to_string_lossy().as_ref())
+        // C strings hold arbitrary bytes
+        fnv1(unsafe { CStr::from_ptr(*val) }.to_bytes())
     }
 }
 
-- 
2.43.0


From eb8807c4da18e3085d265ecee26c988ed4edc54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 20/26] fix: borrow the deque or queue for as long as its
 iterators live

---
 src/deque/mod.rs | 4 ++--
 src/queue.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index ad146c9..c94e78c 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -59,12 +59,12 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
     }
 
     /// Returns an iterator over the deque
-    pub fn iter(&self) -> Iter<'a, T> {
+    pub fn iter(&self) -> Iter<'_, T> {
         unsafe { Iter::from_compat((&self.begin_it).into(), (&self.end_it).into()) }
     }
 
     /// Returns a mutable iterator over the deque
-    pub fn iter_mut(&mut self) -> IterMut<'a, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         unsafe { IterMut::from_compat(self.begin_it.clone(), self.end_it.clone()) }
     }
 
diff --git a/src/queue.rs b/src/queue.rs
index 50e3fc3..3804206 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -36,12 +36,12 @@ impl<'a, T: 'a, A: Allocator> Queue<'a, T, A> {
     }
 
     /// Produces an iterator over all of the elements in the queue
-    pub fn iter(&self) -> Iter<'a, T> {
+    pub fn iter(&self) -> Iter<'_, T> {
         self.deque.iter()
     }
 
     /// Produces a mutable iterator over all of the elements in the queue
-    pub fn iter_mut(&mut self) -> IterMut<'a, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         self.deque.iter_mut()
     }
 
-- 
2.43.0


From c2dc4d9ddc7d040421b4d1c430d9b6d7874338ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 21/26] fix: a list's mutable iterator borrows the list
 exclusively

---
 src/fixed_list/conformant.rs | 2 +-
 src/list/mod.rs              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fixed_list/conformant.rs b/src/fixed_list/conformant.rs
index cb7bb45..7a2b856 100644
--- a/src/fixed_list/conformant.rs
+++ b/src/fixed_list/conformant.rs
@@ -111,7 +111,7 @@ where
     }
 
     /// Return a mutable forward iterator for this list
-    pub fn iter_mut(&self) -> crate::list::iter::IterMut<'_, T> {
+    pub fn iter_mut(&mut self) -> crate::list::iter::IterMut<'_, T> {
         self.base_list.iter_mut()
     }
 
diff --git a/src/list/mod.rs b/src/list/mod.rs
index b6db149..2a15622 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -124,7 +124,7 @@ impl<T, A: Allocator> List<T, A> {
     }
 
     /// Return a mutable forward iterator for this list
-    pub fn iter_mut(&self) -> IterMut<'_, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         IterMut::new(&self.node, self.size())
     }
 
-- 
2.43.0


From 04e3da477c70cfaa5dd4fb8e776a8aaa61b4c1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:17 +0000
Subject: [PATCH 22/26] fix: a hash table's mutable iterator cannot be
 duplicated

---
 src/internal/hash_table/iter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index bdc69c9..1a8f675 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -317,7 +317,6 @@ impl<'a, K: PartialEq + 'a, V: 'a> Iterator for Iter<'a, K, V> {
 /// It is unspecified whether or not an element
 /// inserted after an iterator was created will
 /// be yielded by the iterator
-#[derive(Clone)]
 pub struct IterMut<'a, K: PartialEq + 'a, V: 'a> {
     inner: RawIter<'a, K, V>,
 }
-- 
2.43.0


From 26ced914fbc8d928130ed5a480ed724505ef9189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:07 +0000
Subject: [PATCH 23/26] fix: a panicking element destructor no longer makes a
 vector's clear drop elements twice

---
 src/vector/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index e69b6c8..6e34f8b 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -89,8 +89,11 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
     pub fn clear(&mut self) {
         if !self.begin_ptr.is_null() {
             unsafe {
-                // drop all elements in place
-                std::ptr::drop_in_place(self.as_slice_mut());
+                // drop all elements in place. they are no longer part of the vector by then, as
+                // their destructors may panic
+                let old: *mut [T] = self.as_slice_mut();
+                self.end_ptr = self.begin_ptr;
+                std::ptr::drop_in_place(old);
                 // free the array
                 self.allocator
                     .deallocate::<T>(self.begin_ptr, self.capacity())
-- 
2.43.0


From 9ee3b59c873846734a036a31245c4a9dec72b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:10 +0000
Subject: [PATCH 24/26] fix: a panicking element destructor no longer leaves
 freed nodes in a cleared list

---
 src/list/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 2a15622..ab34f08 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -71,12 +71,13 @@ impl<T, A: Allocator> List<T, A> {
 
     /// Remove all elements from this list
     pub fn clear(&mut self) {
-        let mut next = self.node.next;
         unsafe {
-            while next != &mut self.node {
-                let to_drop = next;
-                // Advance the next pointer before we delete the current node
-                next = (*next).next;
+            while self.node.next.cast_const() != &self.node {
+                let to_drop = self.node.next;
+                // Take the node out of the list before its value is dropped, whose destructor
+                // may panic
+                (*to_drop).remove();
+                self.size -= 1;
                 // Drop the value
                 ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
                 // Deallocate the memory for the node
-- 
2.43.0


From 9a676523640bf217fc258fe1b43cb2194972e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:12 +0000
Subject: [PATCH 25/26] fix: a panicking element destructor no longer leaves
 freed nodes in a cleared hash table

---
 src/internal/hash_table/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index 4ded5a6..3f3695e 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -318,17 +318,18 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// # Arguments
     ///
-    /// `bucket_node`: The node in the bucket
-    fn free_bucket(&mut self, bucket_node: &mut Node<K, V>) {
+    /// `bucket`: The bucket
+    fn free_bucket(&mut self, bucket: &mut *mut Node<K, V>) {
         // chains may be arbitrarily long, so walk them rather than recursing
-        let mut node = bucket_node as *mut Node<K, V>;
-        while !node.is_null() {
-            // drop and free our node
+        while !bucket.is_null() {
+            // drop and free our node. it is no longer part of the chain by then, as the
+            // destructors of its pair may panic
             unsafe {
-                let next_node = (*node).next;
+                let node = *bucket;
+                *bucket = (*node).next;
+                self.element_count -= 1;
                 std::ptr::drop_in_place(node);
                 self.allocator.deallocate(node, 1);
-                node = next_node;
             }
         }
     }
@@ -352,11 +353,9 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             let buckets = unsafe {
                 std::slice::from_raw_parts_mut(self.bucket_array, self.bucket_count as usize)
             };
-            for bucket in buckets.iter().filter_map(|elem| unsafe { elem.as_mut() }) {
+            for bucket in buckets {
                 self.free_bucket(bucket)
             }
-            // zero the pointers
-            buckets.fill_with(std::ptr::null_mut)
         }
     }
 
-- 
2.43.0


From fbe42ede857b5d18c8809d379a93bbc40d4fee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:06 +0000
Subject: [PATCH 26/26] fix: list links survive the assumption that a mutable
 reference is the only access

---
 src/list/mod.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index ab34f08..0b88149 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -72,8 +72,9 @@ impl<T, A: Allocator> List<T, A> {
     /// Remove all elements from this list
     pub fn clear(&mut self) {
         unsafe {
-            while self.node.next.cast_const() != &self.node {
-                let to_drop = self.node.next;
+            let sentinel = self.sentinel();
+            while (*sentinel).next != sentinel {
+                let to_drop = (*sentinel).next;
                 // Take the node out of the list before its value is dropped, whose destructor
                 // may panic
                 (*to_drop).remove();
@@ -144,8 +145,10 @@ impl<T, A: Allocator> List<T, A> {
     /// # Return
     /// The last value if present, `None` if the list is empty.
     pub fn pop_back(&mut self) -> Option<T> {
-        if self.node.prev.cast_const() != &self.node {
-            let value = unsafe { self.remove_node(self.node.prev) };
+        let sentinel = self.sentinel();
+        let last = unsafe { (*sentinel).prev };
+        if last != sentinel {
+            let value = unsafe { self.remove_node(last) };
             Some(value)
         } else {
             None
@@ -157,8 +160,10 @@ impl<T, A: Allocator> List<T, A> {
     /// # Return
     /// The first value if present, `None` if the list is empty.
     pub fn pop_front(&mut self) -> Option<T> {
-        if self.node.next.cast_const() != &self.node {
-            let value = unsafe { self.remove_node(self.node.next) };
+        let sentinel = self.sentinel();
+        let first = unsafe { (*sentinel).next };
+        if first != sentinel {
+            let value = unsafe { self.remove_node(first) };
             Some(value)
         } else {
             None
@@ -169,7 +174,7 @@ impl<T, A: Allocator> List<T, A> {
     pub fn push_back(&mut self, value: T) {
         unsafe {
             let new_node = self.create_node(value);
-            (*new_node).base.insert(&mut self.node);
+            (*new_node).base.insert(self.sentinel());
         }
         self.size += 1;
     }
@@ -178,7 +183,7 @@ impl<T, A: Allocator> List<T, A> {
     pub fn push_front(&mut self, value: T) {
         unsafe {
             let new_node = self.create_node(value);
-            (*new_node).base.insert(self.node.next);
+            (*new_node).base.insert((*self.sentinel()).next);
         }
 
         self.size += 1;
@@ -196,6 +201,13 @@ impl<T, A: Allocator> List<T, A> {
         node
     }
 
+    // The sentinel node, as the links of its neighbours see it. Nodes are linked and unlinked
+    // through those links as well, so the compiler may not assume that the sentinel is only ever
+    // accessed through `self`
+    fn sentinel(&mut self) -> *mut ListNodeBase {
+        std::hint::black_box(&mut self.node)
+    }
+
     // Init list sentinel node
     pub(crate) fn init_sentinel_node(&mut self) {
         self.node.prev = &mut self.node;
-- 
2.43.0

