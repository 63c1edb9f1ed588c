From b03d559283b85d21ef99f47b95ff1aa532fc3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 1/6] fix: swapping a row or column with itself must not call
 swap_nonoverlapping on overlapping ranges

---
 src/swap.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/swap.rs b/src/swap.rs
index 8ff529e..ce651f9 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -97,6 +97,10 @@ impl<T> Matrix<T> {
         if m >= self.major() || n >= self.major() {
             return Err(Error::IndexOutOfBounds);
         }
+        if m == n {
+            // `ptr::swap_nonoverlapping` requires disjoint ranges
+            return Ok(self);
+        }
         let base = self.data.as_mut_ptr();
         let index = m * self.major_stride();
         let jndex = n * self.major_stride();
-- 
2.43.0


From c68eb25e1d0afd4a9b542956329f8b9a4b32f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 2/6] fix: a panic in T::default during resize must not leave
 shape and data out of sync

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4d4ce65..f641639 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,8 +491,15 @@ impl<T> Matrix<T> {
     {
         let shape = shape.into().try_to_axis_shape(self.order)?;
         let size = Self::check_size(shape.size())?;
+        if size > self.size() {
+            // filled separately, so that a panic in `T::default` leaves
+            // the matrix untouched
+            let mut tail = Vec::new();
+            tail.resize_with(size - self.size(), T::default);
+            self.data.append(&mut tail);
+        }
         self.shape = shape;
-        self.data.resize_with(size, T::default);
+        self.data.truncate(size);
         Ok(self)
     }
 
-- 
2.43.0


From 901b9515da2e0d541b6be319b0d2b537c3779e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 3/6] fix: mutable row/column iterators over zero-sized
 elements must not overflow the address counter

---
 src/iter/iter_mut.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 1c3bf0f..831f633 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -124,7 +124,12 @@ impl<'a, T> IterVectorsMut<'a, T> {
         vector_stride: NonZero<usize>,
         vector_length: NonZero<usize>,
     ) -> Self {
-        let lower = buffer;
+        let lower = if size_of::<T>() == 0 {
+            // counts from 1, so that no address can overflow
+            NonNull::<u8>::dangling().cast()
+        } else {
+            buffer
+        };
         let offset = axis_stride.get() * (axis_length.get() - 1);
         let upper = if size_of::<T>() == 0 {
             let addr = lower.addr().get() + offset;
@@ -329,6 +334,12 @@ impl<'a, T> IterNthVectorMut<'a, T> {
     /// any matrix. The returned iterator is valid only if the matrix
     /// remains in scope.
     unsafe fn assemble(lower: NonNull<T>, stride: NonZero<usize>, length: NonZero<usize>) -> Self {
+        let lower = if size_of::<T>() == 0 {
+            // counts from 1, so that no address can overflow
+            NonNull::<u8>::dangling().cast()
+        } else {
+            lower
+        };
         let offset = (length.get() - 1) * stride.get();
         let upper = if size_of::<T>() == 0 {
             let addr = lower.addr().get() + offset;
-- 
2.43.0


From 45fdbdbac69becb519485301601a2b636f47cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 4/6] fix: mutable row/column iterators must yield the empty
 rows/columns of a matrix without elements

---
 src/iter/iter_mut.rs | 65 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 831f633..2cd10b3 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -28,7 +28,19 @@ pub(crate) struct IterVectorsMut<'a, T> {
 struct Layout {
     axis_stride: NonZero<usize>,
     vector_stride: NonZero<usize>,
-    vector_length: NonZero<usize>,
+    vector_length: usize,
+}
+
+impl Layout {
+    /// Returns the size of the elements to point to, which is `0` if
+    /// there are none. In that case, `lower` and `upper` only count.
+    fn elem_size<T>(&self) -> usize {
+        if self.vector_length == 0 {
+            0
+        } else {
+            size_of::<T>()
+        }
+    }
 }
 
 unsafe impl<T: Send> Send for IterVectorsMut<'_, T> {}
@@ -37,7 +49,7 @@ unsafe impl<T: Sync> Sync for IterVectorsMut<'_, T> {}
 impl<'a, T> IterVectorsMut<'a, T> {
     pub(crate) fn over_major_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::over_empty_vectors(matrix.major());
         }
 
         unsafe {
@@ -59,7 +71,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
 
     pub(crate) fn over_minor_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::over_empty_vectors(matrix.minor());
         }
 
         unsafe {
@@ -79,15 +91,32 @@ impl<'a, T> IterVectorsMut<'a, T> {
         }
     }
 
+    /// Iterates over `length` vectors, each of which has no elements.
+    ///
     /// # Safety
     ///
     /// This returns a detached iterator whose lifetime is not bound to
     /// any matrix. However, it is safe.
-    fn empty() -> Self {
+    fn over_empty_vectors(length: usize) -> Self {
+        let lower = NonNull::<u8>::dangling().cast();
+        let (upper, layout) = match NonZero::new(length) {
+            None => (lower, None),
+            Some(length) => {
+                let ptr = without_provenance_mut(length.get());
+                let upper = unsafe { NonNull::new_unchecked(ptr) };
+                let layout = Layout {
+                    axis_stride: NonZero::<usize>::MIN,
+                    vector_stride: NonZero::<usize>::MIN,
+                    vector_length: 0,
+                };
+                (upper, Some(layout))
+            }
+        };
+
         Self {
-            lower: NonNull::dangling(),
-            upper: NonNull::dangling(),
-            layout: None,
+            lower,
+            upper,
+            layout,
             marker: PhantomData,
         }
     }
@@ -141,7 +170,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
         let layout = Some(Layout {
             axis_stride,
             vector_stride,
-            vector_length,
+            vector_length: vector_length.get(),
         });
 
         Self {
@@ -159,15 +188,18 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
     fn next(&mut self) -> Option<Self::Item> {
         let layout = self.layout?;
 
-        let result = unsafe {
-            IterNthVectorMut::assemble(self.lower, layout.vector_stride, layout.vector_length)
+        let result = match NonZero::new(layout.vector_length) {
+            None => IterNthVectorMut::empty(),
+            Some(length) => unsafe {
+                IterNthVectorMut::assemble(self.lower, layout.vector_stride, length)
+            },
         };
 
         if self.lower == self.upper {
             self.layout = None;
         } else {
             let stride = layout.axis_stride.get();
-            self.lower = if size_of::<T>() == 0 {
+            self.lower = if layout.elem_size::<T>() == 0 {
                 let addr = self.lower.addr().get() + stride;
                 let ptr = without_provenance_mut(addr);
                 unsafe { NonNull::new_unchecked(ptr) }
@@ -184,7 +216,7 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
             None => 0,
             Some(strides) => {
                 let stride = strides.axis_stride.get();
-                let elem_size = size_of::<T>();
+                let elem_size = strides.elem_size::<T>();
                 1 + (self.upper.addr().get() - self.lower.addr().get())
                     / (stride * if elem_size == 0 { 1 } else { elem_size })
             }
@@ -203,15 +235,18 @@ impl<T> DoubleEndedIterator for IterVectorsMut<'_, T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let layout = self.layout?;
 
-        let result = unsafe {
-            IterNthVectorMut::assemble(self.upper, layout.vector_stride, layout.vector_length)
+        let result = match NonZero::new(layout.vector_length) {
+            None => IterNthVectorMut::empty(),
+            Some(length) => unsafe {
+                IterNthVectorMut::assemble(self.upper, layout.vector_stride, length)
+            },
         };
 
         if self.lower == self.upper {
             self.layout = None;
         } else {
             let stride = layout.axis_stride.get();
-            self.upper = if size_of::<T>() == 0 {
+            self.upper = if layout.elem_size::<T>() == 0 {
                 let addr = self.upper.addr().get() - stride;
                 let ptr = without_provenance_mut(addr);
                 unsafe { NonNull::new_unchecked(ptr) }
-- 
2.43.0


From 142039c9fc93c3db2385ffbdc565aed219b52672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 5/6] fix: swapping rows or columns across the minor axis must
 not overflow after the last exchange

---
 src/swap.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/swap.rs b/src/swap.rs
index ce651f9..74f797f 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -118,16 +118,16 @@ impl<T> Matrix<T> {
             return Err(Error::IndexOutOfBounds);
         }
         let base = self.data.as_mut_ptr();
-        let mut index = m * self.minor_stride();
-        let mut jndex = n * self.minor_stride();
-        for _ in 0..self.major() {
+        let index = m * self.minor_stride();
+        let jndex = n * self.minor_stride();
+        for major in 0..self.major() {
+            // stepping past the last vector could overflow for zero-sized types
+            let offset = major * self.major_stride();
             unsafe {
-                let x = base.add(index);
-                let y = base.add(jndex);
+                let x = base.add(offset + index);
+                let y = base.add(offset + jndex);
                 ptr::swap(x, y);
             }
-            index += self.major_stride();
-            jndex += self.major_stride();
         }
         Ok(self)
     }
-- 
2.43.0


From 9df520ccfd2dbf0a7097ba0a6632a7804cd3ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 6/6] fix: elements wider than u16::MAX characters must not
 make formatting panic

---
 src/fmt.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index be14246..6f6cec5 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -72,7 +72,7 @@ where
             }
             write_index!(f, "{col:>index_width$}")?;
             write!(f, "{SPACE:INNER_GAP$}")?;
-            write!(f, "{SPACE:element_width$}")?;
+            write!(f, "{}", Padded(SPACE, element_width))?;
         }
         writeln!(f)?;
 
@@ -92,8 +92,8 @@ where
                 write_index!(f, "{index:>index_width$}")?;
                 write!(f, "{SPACE:INNER_GAP$}")?;
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write!(f, "{}", Padded(SPACE, element_width))?,
+                    Some(line) => write!(f, "{}", Padded(&line, element_width))?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -112,8 +112,8 @@ where
                     write!(f, "{SPACE:index_width$}")?;
                     write!(f, "{SPACE:INNER_GAP$}")?;
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write!(f, "{}", Padded(SPACE, element_width))?,
+                        Some(line) => write!(f, "{}", Padded(&line, element_width))?,
                     }
                 }
                 writeln!(f)?;
@@ -164,8 +164,8 @@ where
                 }
                 let index = Index::new(row, col).to_flattened(self.order, self.shape);
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write!(f, "{}", Padded(SPACE, element_width))?,
+                    Some(line) => write!(f, "{}", Padded(&line, element_width))?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -180,8 +180,8 @@ where
                     }
                     let index = Index::new(row, col).to_flattened(self.order, self.shape);
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write!(f, "{}", Padded(SPACE, element_width))?,
+                        Some(line) => write!(f, "{}", Padded(&line, element_width))?,
                     }
                 }
                 writeln!(f)?;
@@ -192,6 +192,20 @@ where
     }
 }
 
+/// Pads text with trailing spaces, up to a width that may exceed the limit
+/// of the formatting macros ([`u16::MAX`]).
+struct Padded<'a>(&'a str, usize);
+
+impl fmt::Display for Padded<'_> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str(self.0)?;
+        for _ in self.0.chars().count()..self.1 {
+            f.write_str(SPACE)?;
+        }
+        Ok(())
+    }
+}
+
 struct Lines(VecDeque<String>);
 
 impl Lines {
-- 
2.43.0

