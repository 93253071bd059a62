From 25ff8793b4aae28be48f7293015121217481674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:28 +0000
Subject: [PATCH 1/9] fix: an empty interval contains no value

contains_val() relied on the comparison operators, which are all false
for an empty interval, so that it claimed to contain every value.
---
 src/interval/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index adf8f6d..81fbaf8 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -509,7 +509,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn contains_val(&self, val: &T) -> bool {
-        !(self > val || self < val)
+        !self.is_empty() && !(self > val || self < val)
     }
 
     /**
-- 
2.43.0


From 0119d4c959f75978e32bae8162d313f0c2d38f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:28 +0000
Subject: [PATCH 2/9] fix: an empty interval does not intersect anything

intersects() relied on the comparison operators, which are all false when
one of the intervals is empty.
---
 src/interval/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index 81fbaf8..e717cbd 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -658,7 +658,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn intersects(&self, other: &Self) -> bool {
-        !(self > other || self < other)
+        !self.is_empty() && !other.is_empty() && !(self > other || self < other)
     }
 
     /**
-- 
2.43.0


From da1337a7186836de7c834fb9edba6335b95fc1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:28 +0000
Subject: [PATCH 3/9] fix: lower and upper bounds that are not == are !=

The ne() overrides returned false for every pair, contradicting eq().
---
 src/interval/bounds.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/interval/bounds.rs b/src/interval/bounds.rs
index 8d1e315..583e090 100644
--- a/src/interval/bounds.rs
+++ b/src/interval/bounds.rs
@@ -343,10 +343,6 @@ impl <T> PartialEq<UpperBound<T>> for LowerBound<T> where T: Ord {
     fn eq(&self, _other: &UpperBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &UpperBound<T>) -> bool {
-        false
-    }
 }
 
 
@@ -664,10 +660,6 @@ impl <T> PartialEq<LowerBound<T>> for UpperBound<T> where T: Ord {
     fn eq(&self, _other: &LowerBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &LowerBound<T>) -> bool {
-        false
-    }
 }
 
 impl <T> PartialOrd<T> for UpperBound<T> where T: Ord {
-- 
2.43.0


From eb394a787b44bc7a6138776e5ad1d507643ae4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:28 +0000
Subject: [PATCH 4/9] fix: do not clone uninitialized slots of CircularBuffer

The derived Clone called T::clone() on every slot of the internal buffer,
also on those that hold no element (undefined behavior, a crash for
example for a not full buffer of Strings).
---
 src/circular_buffer/circular.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index e2e8d09..87b5483 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -46,7 +46,6 @@ fn main(){
 }
 ```
 */
-#[derive(Clone)]
 pub struct CircularBuffer<T> {
     buffer: Box<[ManuallyDrop<T>]>,
     start: usize,
@@ -753,6 +752,15 @@ impl<T> CircularBuffer<T> {
     }
 }
 
+impl<T> Clone for CircularBuffer<T> where T: Clone {
+    fn clone(&self) -> Self {
+        //only the stored elements can be cloned, remaining slots are uninitialized
+        let mut result = Self::with_capacity(self.capacity());
+        result.extend(self.iter());
+        result
+    }
+}
+
 impl<T> Drop for CircularBuffer<T> {
     fn drop(&mut self) {
         self.clear();
-- 
2.43.0


From d80b7e4260e2d8877c0af52d9c55d91f67f195ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 5/9] fix: keep unused slots of CircularBuffer in MaybeUninit

mem::uninitialized() aborts the program for element types that cannot hold
an arbitrary bit pattern (references, Box, char, ...), so a CircularBuffer
of them could not be created, and it is undefined behavior for most others.
---
 src/circular_buffer/circular.rs | 53 ++++++++++++++-------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 87b5483..c2510ae 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -1,4 +1,4 @@
-use std::mem::{ManuallyDrop, uninitialized, swap, drop, transmute};
+use std::mem::{MaybeUninit, swap, drop, transmute};
 use std::ops::{Index, IndexMut};
 use std::iter::{Extend, FromIterator, IntoIterator};
 use std::cmp::{Ord, PartialEq, Eq, PartialOrd, Ordering};
@@ -47,7 +47,7 @@ fn main(){
 ```
 */
 pub struct CircularBuffer<T> {
-    buffer: Box<[ManuallyDrop<T>]>,
+    buffer: Box<[MaybeUninit<T>]>,
     start: usize,
     end:usize
 }
@@ -89,7 +89,7 @@ impl<T> CircularBuffer<T> {
 
         let mut buffer = Vec::with_capacity(capacity+1);
         for _ in 0..capacity+1 {
-            buffer.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            buffer.push(MaybeUninit::uninit());
         }
         Self {
             buffer: buffer.into_boxed_slice(),
@@ -168,10 +168,10 @@ impl<T> CircularBuffer<T> {
         } else {
             0
         };
-        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| ManuallyDrop::new(x)));
+        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| MaybeUninit::new(x)));
         let elem_num = new_buf.len();
         for _ in 0..capacity -new_buf.len() + 1{
-            new_buf.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            new_buf.push(MaybeUninit::uninit());
         }
         new_buf.shrink_to_fit();
         self.buffer = new_buf.into_boxed_slice();
@@ -477,7 +477,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(0)])
+            Some(unsafe{&*self.buffer[self.internal_index(0)].as_ptr()})
         }
     }
 
@@ -502,7 +502,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut *self.buffer[self.internal_index(0)])
+            Some(unsafe{&mut *self.buffer[self.internal_index(0)].as_mut_ptr()})
         }
     }
 
@@ -526,7 +526,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(self.len()-1)])
+            Some(unsafe{&*self.buffer[self.internal_index(self.len()-1)].as_ptr()})
         }
     }
 
@@ -551,7 +551,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut * self.buffer[self.internal_index(self.len()-1)])
+            Some(unsafe{&mut *self.buffer[self.internal_index(self.len()-1)].as_mut_ptr()})
         }
     }
 
@@ -582,7 +582,7 @@ impl<T> CircularBuffer<T> {
             (&self.buffer[self.start..], &self.buffer[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper, the initialized part can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -619,7 +619,7 @@ impl<T> CircularBuffer<T> {
             (y,  &mut x[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper, the initialized part can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -644,7 +644,7 @@ impl<T> CircularBuffer<T> {
         self.buffer.rotate_left(self.start);
         self.end = self.len();
         self.start = 0;
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper, the initialized part can be safely converted into slice of T
         unsafe{transmute(&mut self.buffer[..self.end])}
     }
 
@@ -741,14 +741,14 @@ impl<T> CircularBuffer<T> {
 
     fn pop_at(&mut self, index: usize) -> T {
         //replace place in the array with uninitialized object
-        let mut tmp = ManuallyDrop::new(unsafe{uninitialized()});
+        let mut tmp = MaybeUninit::uninit();
         swap(&mut self.buffer[index], &mut tmp);
-        ManuallyDrop::into_inner(tmp)
+        unsafe{tmp.assume_init()}
     }
 
     fn push_at(&mut self, val: T, index: usize) {
         //the replaced value is unitialized, so it should not be dropped
-        self.buffer[index] = ManuallyDrop::new(val);
+        self.buffer[index] = MaybeUninit::new(val);
     }
 }
 
@@ -771,13 +771,13 @@ impl <T> Index<usize> for CircularBuffer<T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &<Self as Index<usize>>::Output {
-        &*self.buffer[self.internal_index(index)]
+        unsafe{&*self.buffer[self.internal_index(index)].as_ptr()}
     }
 }
 
 impl <T> IndexMut<usize> for CircularBuffer<T> {
     fn index_mut(&mut self, index: usize) -> &mut <Self as Index<usize>>::Output {
-        &mut *self.buffer[self.internal_index(index)]
+        unsafe{&mut *self.buffer[self.internal_index(index)].as_mut_ptr()}
     }
 }
 
@@ -789,8 +789,8 @@ impl <T> fmt::Debug for CircularBuffer<T> {
 
 impl <T> FromIterator<T> for CircularBuffer<T>{
     fn from_iter<I: IntoIterator<Item=T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x)));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x)));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
 
         let end = buf.len() -1;
@@ -804,8 +804,8 @@ impl <T> FromIterator<T> for CircularBuffer<T>{
 
 impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
     fn from_iter<I: IntoIterator<Item=&'a T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x.clone())));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x.clone())));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
         let end = buf.len() -1;
         Self {
@@ -817,15 +817,8 @@ impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
 }
 
 impl<T> From<Vec<T>> for CircularBuffer<T>{
-    fn from(mut v : Vec<T>) -> Self {
-        let buf_len = v.len();
-        v.push(unsafe{uninitialized()});
-        v.shrink_to_fit();
-        Self{
-            buffer: unsafe{transmute(v.into_boxed_slice())},
-            start: 0,
-            end: buf_len
-        }
+    fn from(v : Vec<T>) -> Self {
+        Self::from_iter(v)
     }
 }
 
-- 
2.43.0


From 736c30373d7f8046d565a76640256273558605f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 6/9] fix: refuse circular buffer capacities that overflow

---
 src/circular_buffer/circular.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index c2510ae..2cfae7d 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -87,8 +87,10 @@ impl<T> CircularBuffer<T> {
     */
     pub fn with_capacity(capacity: usize) -> Self {
 
-        let mut buffer = Vec::with_capacity(capacity+1);
-        for _ in 0..capacity+1 {
+        //one slot always remains unused, the largest capacity cannot have it
+        let slots = capacity.checked_add(1).expect("CircularBuffer capacity overflow");
+        let mut buffer = Vec::with_capacity(slots);
+        for _ in 0..slots {
             buffer.push(MaybeUninit::uninit());
         }
         Self {
@@ -162,7 +164,8 @@ impl<T> CircularBuffer<T> {
     ```
     */
     pub fn resize (&mut self, capacity: usize) {
-        let mut new_buf = Vec::with_capacity(capacity+1);
+        let slots = capacity.checked_add(1).expect("CircularBuffer capacity overflow");
+        let mut new_buf = Vec::with_capacity(slots);
         let to_be_skipped = if self.len()>capacity{
             self.len() - capacity
         } else {
@@ -170,7 +173,7 @@ impl<T> CircularBuffer<T> {
         };
         new_buf.extend(self.drain().skip(to_be_skipped).map(|x| MaybeUninit::new(x)));
         let elem_num = new_buf.len();
-        for _ in 0..capacity -new_buf.len() + 1{
+        for _ in 0..slots - new_buf.len() {
             new_buf.push(MaybeUninit::uninit());
         }
         new_buf.shrink_to_fit();
-- 
2.43.0


From 3894f680badc23733e8d16c7f10ed70ee079869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 7/9] fix: leave intervals well-formed when in-place arithmetic
 panics

---
 src/interval/interval_math.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/interval/interval_math.rs b/src/interval/interval_math.rs
index 6855391..2713a29 100644
--- a/src/interval/interval_math.rs
+++ b/src/interval/interval_math.rs
@@ -21,11 +21,14 @@ impl<T, U> Add<U> for Interval<T> where T:Ord+Add<U, Output=T>, U:Clone {
 
 impl<T> AddAssign<T> for Interval<T> where T:Ord+AddAssign + Clone {
     fn add_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //the operation may panic in between, self must remain correct then
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo += rhs.clone();
             a.up += rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
@@ -48,11 +51,14 @@ impl<T, U> Sub<U> for Interval<T> where T:Ord+Sub<U, Output=T>, U:Clone {
 
 impl<T> SubAssign<T> for Interval<T> where T:Ord + SubAssign + Clone {
     fn sub_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //the operation may panic in between, self must remain correct then
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo -= rhs.clone();
             a.up -= rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
@@ -76,11 +82,14 @@ impl<T, U> Mul<U> for Interval<T> where T:Ord+Mul<U, Output=T>, U: Clone {
 
 impl<T> MulAssign<T> for Interval<T> where T:Ord+MulAssign+Clone {
     fn mul_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //the operation may panic in between, self must remain correct then
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo *= rhs.clone();
             a.up *= rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
@@ -106,11 +115,14 @@ impl<T, U> Div<U> for Interval<T> where T:Ord+Div<U, Output=T>, U:Clone {
 
 impl<T> DivAssign<T> for Interval<T> where T: Ord+DivAssign + Clone {
     fn div_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //the operation may panic in between, self must remain correct then
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo /= rhs.clone();
             a.up /= rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
-- 
2.43.0


From b15c233e0b8144a71c13110bf377eeff3a0d2827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 8/9] fix: a disjoint set forgets its connections even if a
 destructor panics while it is cleared

---
 src/disjoint_set/disjoint_set.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disjoint_set/disjoint_set.rs b/src/disjoint_set/disjoint_set.rs
index 65794d2..ce3ac37 100644
--- a/src/disjoint_set/disjoint_set.rs
+++ b/src/disjoint_set/disjoint_set.rs
@@ -230,8 +230,9 @@ impl<T, S> DisjointSet<T, S> where T:Eq + Hash , S:BuildHasher{
     }
 
     pub fn clear(&mut self) {
-        self.ids.clear();
-        self.data_by_id.clear()
+        //must precede: a destructor of an element may panic below
+        self.data_by_id.clear();
+        self.ids.clear()
     }
 
     pub fn reserve(&mut self, additional: usize) {
-- 
2.43.0


From 100e1636a511eaaecd2ca2f451d6d9b4612b9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:34 +0000
Subject: [PATCH 9/9] fix: no overflow when a ring of zero-sized elements with
 a huge capacity wraps around

---
 src/circular_buffer/circular.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 2cfae7d..282fb81 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -121,7 +121,8 @@ impl<T> CircularBuffer<T> {
         if self.start <= self.end {
             self.end - self.start
         } else {
-            self.buffer.len() + self.end - self.start
+            //must not be added first: the sum may overflow for zero-sized elements
+            self.buffer.len() - self.start + self.end
         }
     }
 
@@ -700,10 +701,12 @@ impl<T> CircularBuffer<T> {
         if index >= self.len() {
             panic!("Index outside of bound of CircularBuffer");
         }
-        if self.start + index < self.buffer.len(){
+        //start and index must not be added first: the sum may overflow for zero-sized elements
+        let to_wrap = self.buffer.len() - self.start;
+        if index < to_wrap {
             self.start + index
         } else {
-            index + self.start - self.buffer.len()
+            index - to_wrap
         }
 
     }
-- 
2.43.0

