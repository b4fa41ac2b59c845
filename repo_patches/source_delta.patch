From 1dd741cb2fbde11705af9b978da3be9e5ae0ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 1/5] fix: swap_rows/swap_cols of a vector with itself along
 the contiguous axis is a no-op

---
 src/swap.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/swap.rs b/src/swap.rs
index 8ff529e..b4cebef 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -97,6 +97,10 @@ impl<T> Matrix<T> {
         if m >= self.major() || n >= self.major() {
             return Err(Error::IndexOutOfBounds);
         }
+        if m == n {
+            // `swap_nonoverlapping` must not be given the same region twice
+            return Ok(self);
+        }
         let base = self.data.as_mut_ptr();
         let index = m * self.major_stride();
         let jndex = n * self.major_stride();
-- 
2.43.0


From 13fefec69d59c05a084e854a2414739988e541a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 2/5] fix: a panicking Default or Drop during resize leaves the
 matrix coherent

---
 src/lib.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4d4ce65..c9d534f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,8 +491,31 @@ impl<T> Matrix<T> {
     {
         let shape = shape.into().try_to_axis_shape(self.order)?;
         let size = Self::check_size(shape.size())?;
-        self.shape = shape;
-        self.data.resize_with(size, T::default);
+
+        let len = self.data.len();
+        if size > len {
+            // `T::default` may panic, so the new shape must not be in
+            // effect, nor any surplus element remain, until all elements
+            // exist.
+            struct Rollback<'a, T>(&'a mut Vec<T>, usize);
+
+            impl<T> Drop for Rollback<'_, T> {
+                fn drop(&mut self) {
+                    self.0.truncate(self.1);
+                }
+            }
+
+            let mut guard = Rollback(&mut self.data, len);
+            guard.0.resize_with(size, T::default);
+            guard.1 = size;
+            drop(guard);
+            self.shape = shape;
+        } else {
+            // `truncate` sets the length before dropping any element, so
+            // that the shape is already right should a drop panic.
+            self.shape = shape;
+            self.data.truncate(size);
+        }
         Ok(self)
     }
 
-- 
2.43.0


From 89587ffa9ec31de952d556c1ca79a51e88502f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 3/5] fix: iter_rows_mut/iter_cols_mut yield every row/column
 of a matrix without elements

---
 src/iter/iter_mut.rs | 67 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 1c3bf0f..72c22f8 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -28,7 +28,17 @@ pub(crate) struct IterVectorsMut<'a, T> {
 struct Layout {
     axis_stride: NonZero<usize>,
     vector_stride: NonZero<usize>,
-    vector_length: NonZero<usize>,
+    /// Zero for an axis of vectors without elements, in which case
+    /// `lower` and `upper` merely count.
+    vector_length: usize,
+}
+
+impl Layout {
+    /// Whether `lower` and `upper` are counters rather than pointers
+    /// to elements.
+    fn is_counting<T>(&self) -> bool {
+        size_of::<T>() == 0 || self.vector_length == 0
+    }
 }
 
 unsafe impl<T: Send> Send for IterVectorsMut<'_, T> {}
@@ -37,7 +47,7 @@ unsafe impl<T: Sync> Sync for IterVectorsMut<'_, T> {}
 impl<'a, T> IterVectorsMut<'a, T> {
     pub(crate) fn over_major_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::over_empty_vectors(matrix.major());
         }
 
         unsafe {
@@ -59,7 +69,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
 
     pub(crate) fn over_minor_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::over_empty_vectors(matrix.minor());
         }
 
         unsafe {
@@ -92,6 +102,24 @@ impl<'a, T> IterVectorsMut<'a, T> {
         }
     }
 
+    /// Iterates over `axis_length` vectors without elements.
+    fn over_empty_vectors(axis_length: usize) -> Self {
+        let Some(upper) = NonZero::new(axis_length) else {
+            return Self::empty();
+        };
+
+        Self {
+            lower: NonNull::without_provenance(NonZero::<usize>::MIN),
+            upper: NonNull::without_provenance(upper),
+            layout: Some(Layout {
+                axis_stride: NonZero::<usize>::MIN,
+                vector_stride: NonZero::<usize>::MIN,
+                vector_length: 0,
+            }),
+            marker: PhantomData,
+        }
+    }
+
     /// This is a helper function that abstracts some repetitive code,
     /// while exposing certain `unsafe` operations that were perviously
     /// well-encapsulated.
@@ -136,7 +164,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
         let layout = Some(Layout {
             axis_stride,
             vector_stride,
-            vector_length,
+            vector_length: vector_length.get(),
         });
 
         Self {
@@ -154,15 +182,18 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
     fn next(&mut self) -> Option<Self::Item> {
         let layout = self.layout?;
 
-        let result = unsafe {
-            IterNthVectorMut::assemble(self.lower, layout.vector_stride, layout.vector_length)
+        let result = match NonZero::new(layout.vector_length) {
+            None => IterNthVectorMut::empty(),
+            Some(vector_length) => unsafe {
+                IterNthVectorMut::assemble(self.lower, layout.vector_stride, vector_length)
+            },
         };
 
         if self.lower == self.upper {
             self.layout = None;
         } else {
             let stride = layout.axis_stride.get();
-            self.lower = if size_of::<T>() == 0 {
+            self.lower = if layout.is_counting::<T>() {
                 let addr = self.lower.addr().get() + stride;
                 let ptr = without_provenance_mut(addr);
                 unsafe { NonNull::new_unchecked(ptr) }
@@ -177,11 +208,14 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         let len = match self.layout {
             None => 0,
-            Some(strides) => {
-                let stride = strides.axis_stride.get();
-                let elem_size = size_of::<T>();
-                1 + (self.upper.addr().get() - self.lower.addr().get())
-                    / (stride * if elem_size == 0 { 1 } else { elem_size })
+            Some(layout) => {
+                let stride = layout.axis_stride.get();
+                let elem_size = if layout.is_counting::<T>() {
+                    1
+                } else {
+                    size_of::<T>()
+                };
+                1 + (self.upper.addr().get() - self.lower.addr().get()) / (stride * elem_size)
             }
         };
         (len, Some(len))
@@ -198,15 +232,18 @@ impl<T> DoubleEndedIterator for IterVectorsMut<'_, T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let layout = self.layout?;
 
-        let result = unsafe {
-            IterNthVectorMut::assemble(self.upper, layout.vector_stride, layout.vector_length)
+        let result = match NonZero::new(layout.vector_length) {
+            None => IterNthVectorMut::empty(),
+            Some(vector_length) => unsafe {
+                IterNthVectorMut::assemble(self.upper, layout.vector_stride, vector_length)
+            },
         };
 
         if self.lower == self.upper {
             self.layout = None;
         } else {
             let stride = layout.axis_stride.get();
-            self.upper = if size_of::<T>() == 0 {
+            self.upper = if layout.is_counting::<T>() {
                 let addr = self.upper.addr().get() - stride;
                 let ptr = without_provenance_mut(addr);
                 unsafe { NonNull::new_unchecked(ptr) }
-- 
2.43.0


From 0ec0a5451377ebdaf5316eb9d9d4f3a9789eccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 4/5] fix: mutable row/column iterators over zero-sized
 elements cannot overflow their position

---
 src/iter/iter_mut.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 72c22f8..24036c8 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -152,7 +152,12 @@ impl<'a, T> IterVectorsMut<'a, T> {
         vector_stride: NonZero<usize>,
         vector_length: NonZero<usize>,
     ) -> Self {
-        let lower = buffer;
+        let lower = if size_of::<T>() == 0 {
+            // count from 1, the only start from which no position overflows
+            NonNull::without_provenance(NonZero::<usize>::MIN)
+        } else {
+            buffer
+        };
         let offset = axis_stride.get() * (axis_length.get() - 1);
         let upper = if size_of::<T>() == 0 {
             let addr = lower.addr().get() + offset;
@@ -293,8 +298,8 @@ impl<'a, T> IterNthVectorMut<'a, T> {
 
         let buffer = unsafe { NonNull::new_unchecked(matrix.data.as_mut_ptr()) };
         let lower = if size_of::<T>() == 0 {
-            // would work, trust me
-            buffer
+            // count from 1, the only start from which no position overflows
+            NonNull::without_provenance(NonZero::<usize>::MIN)
         } else {
             let offset = n * matrix.major_stride();
             unsafe { buffer.add(offset) }
@@ -319,8 +324,8 @@ impl<'a, T> IterNthVectorMut<'a, T> {
 
         let buffer = unsafe { NonNull::new_unchecked(matrix.data.as_mut_ptr()) };
         let lower = if size_of::<T>() == 0 {
-            // would work, trust me
-            buffer
+            // count from 1, the only start from which no position overflows
+            NonNull::without_provenance(NonZero::<usize>::MIN)
         } else {
             let offset = n * matrix.minor_stride();
             unsafe { buffer.add(offset) }
-- 
2.43.0


From 697e0cee9a7d781d1492d673a6790e6d32177bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:17 +0000
Subject: [PATCH 5/5] fix: format elements wider than 65535 characters without
 panicking

---
 src/fmt.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index be14246..f399152 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -72,7 +72,7 @@ where
             }
             write_index!(f, "{col:>index_width$}")?;
             write!(f, "{SPACE:INNER_GAP$}")?;
-            write!(f, "{SPACE:element_width$}")?;
+            write_element(f, SPACE, element_width)?;
         }
         writeln!(f)?;
 
@@ -92,8 +92,8 @@ where
                 write_index!(f, "{index:>index_width$}")?;
                 write!(f, "{SPACE:INNER_GAP$}")?;
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_element(f, SPACE, element_width)?,
+                    Some(line) => write_element(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -112,8 +112,8 @@ where
                     write!(f, "{SPACE:index_width$}")?;
                     write!(f, "{SPACE:INNER_GAP$}")?;
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_element(f, SPACE, element_width)?,
+                        Some(line) => write_element(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -164,8 +164,8 @@ where
                 }
                 let index = Index::new(row, col).to_flattened(self.order, self.shape);
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_element(f, SPACE, element_width)?,
+                    Some(line) => write_element(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -180,8 +180,8 @@ where
                     }
                     let index = Index::new(row, col).to_flattened(self.order, self.shape);
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_element(f, SPACE, element_width)?,
+                        Some(line) => write_element(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -192,6 +192,18 @@ where
     }
 }
 
+/// Writes `text` left-aligned.
+///
+/// Unlike the width of a format string, which is limited to [`u16::MAX`]
+/// and panics beyond, `width` can be arbitrary.
+fn write_element(f: &mut fmt::Formatter<'_>, text: &str, width: usize) -> fmt::Result {
+    f.write_str(text)?;
+    for _ in text.chars().count()..width {
+        f.write_str(SPACE)?;
+    }
+    Ok(())
+}
+
 struct Lines(VecDeque<String>);
 
 impl Lines {
-- 
2.43.0

