From 7aabe148e046883e948220b8b8e5f4aca6455e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 01/11] fix: split gradient arrays into segments from the front

SplitArrayWriter cut its array with rchunks_mut while the senders address
segment i as elements i*32..(i+1)*32, so an array of more than 32 elements
got its gradients rotated or an index panic.
---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3056080..dfb369e 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -152,7 +152,7 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
         let bit_width = 5;
         let width = 1 << bit_width;
         let splits = slice.len() / width;
-        let segments: Vec<_> = slice.rchunks_mut(width).collect();
+        let segments: Vec<_> = slice.chunks_mut(width).collect();
         let (senders, receivers) = iter::repeat_with(unbounded).take(segments.len()).unzip();
         SplitArrayWriter {
             segments,
-- 
2.43.0


From a94aa119e01fd29b3d2430ebe6551cfecbd00cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 02/11] fix: do not wait on pool threads for queued senders in
 bmm_jvp

The receivers of the gradient contributions were spawned into the same pool
as the tasks that send them and block until the last sender is dropped.  With
a pool thread calling backward, or with as many receivers as threads, every
thread ended up waiting for a queued task.  Run the senders to completion
first; the channels are unbounded.
---
 src/tensor/functional/misc.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index dfb369e..dbf5e42 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -255,11 +255,11 @@ pub(crate) fn bmm_jvp<T: Numeric>(
     // currently: loop through all the non-zero values:
     // J_A[ø[i,j], ø[i,k]] = B[k,j]
     // Consider seeing if there is a way to get this to work such that we also build the array as
+    let left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
+    let right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
     rayon::in_place_scope(|s| {
-        let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
-        let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
-        let left_split_writer_ref = &mut left_split_writer;
-        let right_split_writer_ref = &mut right_split_writer;
+        let left_split_writer_ref = &left_split_writer;
+        let right_split_writer_ref = &right_split_writer;
         for i in 0..inputs[0].shape()[0] {
             for k in 0..inputs[0].shape()[1] {
                 for j in 0..inputs[1].shape()[1] {
@@ -321,6 +321,10 @@ pub(crate) fn bmm_jvp<T: Numeric>(
                 }
             }
         }
+    });
+    // Receiving blocks until every sender is gone, so only start once all the senders are done:
+    // a receiver that waits on a pool thread for a sender that is still queued there never ends.
+    rayon::in_place_scope(|s| {
         right_split_writer.start_then_join(s);
         left_split_writer.start_then_join(s);
     });
-- 
2.43.0


From 81337c7223bad5c772d42d46b3b9c7c002f9ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 03/11] fix: do not lose gradient contributions made at the
 same time

update_grad read the old gradient, released the lock and then overwrote it,
so of two threads contributing to one tensor one contribution could vanish.
---
 src/tensor/raw_tensor.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 87f8c6f..7d27469 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -2,7 +2,7 @@ use std::cmp::PartialEq;
 use std::convert::From;
 use std::{
     ops::{Add, Deref, Index, Mul, Neg, Sub},
-    sync::RwLock,
+    sync::{Arc, RwLock},
 };
 
 use super::autograd::Derivative;
@@ -305,11 +305,25 @@ where
     }
 
     fn update_grad(&self, grad: Self::GradType) {
-        let new_grad = match self.grad.read().unwrap().as_ref() {
-            None => Some(grad),
-            Some(other_grad) => Some(other_grad + &grad),
-        };
-        *self.grad.write().unwrap() = new_grad;
+        // Add without holding the lock (so that a panic cannot poison it), then publish the sum
+        // unless another thread changed the gradient in the meantime.
+        loop {
+            let old_grad = self.grad.read().unwrap().clone();
+            let new_grad = match old_grad.as_ref() {
+                None => grad.clone(),
+                Some(other_grad) => other_grad + &grad,
+            };
+            let mut current = self.grad.write().unwrap();
+            let unchanged = match (current.as_ref(), old_grad.as_ref()) {
+                (None, None) => true,
+                (Some(now), Some(then)) => Arc::ptr_eq(&now.0, &then.0),
+                _ => false,
+            };
+            if unchanged {
+                *current = Some(new_grad);
+                return;
+            }
+        }
     }
     fn shape(&self) -> Self::ShapeReturn<'_> {
         &self.shape
-- 
2.43.0


From bb9467ec60ba52dbf566f0f7de21eeed6643f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 04/11] fix: do not keep the history of accumulated gradients

Each accumulated gradient was a differentiable sum whose Derivative kept the
previous gradient, so memory grew with every contribution and dropping a long
chain overflowed the stack.
---
 src/tensor/raw_tensor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 7d27469..9463894 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -311,7 +311,8 @@ where
             let old_grad = self.grad.read().unwrap().clone();
             let new_grad = match old_grad.as_ref() {
                 None => grad.clone(),
-                Some(other_grad) => other_grad + &grad,
+                // not `other_grad + &grad`, which would keep every earlier gradient alive
+                Some(other_grad) => RcTensor::from_raw(functional::add_raw(other_grad, &grad)),
             };
             let mut current = self.grad.write().unwrap();
             let unchanged = match (current.as_ref(), old_grad.as_ref()) {
-- 
2.43.0


From 723634558544b017d29cdb118dda03d4edfbbcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 05/11] fix: detach the parameters made by sgd_step

The new parameters kept the subtraction as their derivative, so every step
made backward differentiate through all earlier steps, kept all old parameters
alive and finally overflowed the stack.
---
 src/optim/sgd.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/optim/sgd.rs b/src/optim/sgd.rs
index 0ba9465..140d632 100644
--- a/src/optim/sgd.rs
+++ b/src/optim/sgd.rs
@@ -33,9 +33,8 @@ pub fn sgd_step<T: Numeric + Real, U: Module<T>>(module: &mut U, step_size: Scal
         .params()
         .iter()
         .map(|p| {
-            let new = p.clone() - &step_size * p.grad();
-            new.zero_grad();
-            new
+            // detached: the new parameters must not remember the step that made them
+            (p.clone() - &step_size * p.grad()).deep_clone()
         })
         .collect();
     module.update_params(new_params);
-- 
2.43.0


From 726b6c85fb4344e4371825bfbb46b6b2d8e8bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 06/11] fix: pass the upstream gradient through sum

The derivative of sum ignored the gradient it was given and always answered
ones, so anything applied to a sum (negation, tanh, addition) had no effect
on the gradients below it.
---
 src/tensor/autograd/jvp.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 74c9ffc..7c31f59 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -1,6 +1,6 @@
 use crate::tensor::numeric::*;
 
-use crate::tensor::{RawTensor, RcTensor, TensorLike, TensorList};
+use crate::tensor::{RcTensor, TensorLike, TensorList};
 
 #[derive(Debug, PartialEq, Clone)]
 pub(in crate::tensor) struct Derivative<T: Numeric> {
@@ -74,6 +74,9 @@ pub fn ones<T: Numeric>(tensors: Vec<RcTensor<T>>, grads: Vec<RcTensor<T>>) -> V
     assert!(grads.len() == 1);
     let length_1 = tensors[0].shape().iter().product::<usize>();
     let length_2 = grads[0].shape().iter().product::<usize>();
-    let raw_tensor = RawTensor::new_with_filler(vec![length_2, length_1], T::one());
-    vec![RcTensor::from_raw(raw_tensor)]
+    // every input element contributes to the sum with factor one
+    let array = (grads[0].0.array.iter())
+        .flat_map(|&grad| std::iter::repeat(grad).take(length_1))
+        .collect();
+    vec![RcTensor::new(array, vec![length_2, length_1])]
 }
-- 
2.43.0


From 4a3408297e84a99bc7c87c82bc774857f38acbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 07/11] fix: make dot differentiable with any upstream gradient

dot_jvp multiplied the incoming jacobian elementwise with the operand, which
only works while that jacobian is a shapeless scalar: a dot product whose
operands are results, or whose result is used further, panicked.
---
 src/tensor/functional/misc.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index dbf5e42..34204c0 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -1,7 +1,7 @@
 use super::super::numeric::*;
 use crate::tensor::autograd::Derivative;
 use crate::tensor::utils::{global_index, ElementIterator};
-use crate::tensor::{autograd, RawTensor, RcTensor, TensorLike};
+use crate::tensor::{RawTensor, RcTensor, TensorLike};
 
 use crossbeam::channel::{unbounded, Receiver, Sender};
 use std::{iter, ops::Deref, sync::Arc};
@@ -371,10 +371,14 @@ fn dot_jvp<T: Numeric>(inputs: Vec<RcTensor<T>>, jacobians: Vec<RcTensor<T>>) ->
         jacobians.len()
     );
     let (left, right) = (inputs[0].clone(), inputs[1].clone());
-    let jacobian = jacobians[0].clone();
-    let left_jvp = autograd::jvp_from_full_jacobians(jacobian.clone(), right);
-    let right_jvp = autograd::jvp_from_full_jacobians(jacobian, left);
-    vec![left_jvp, right_jvp]
+    // one row per row of the incoming jacobian: the outer product with the other operand
+    let outer = |other: &RcTensor<T>| {
+        let array = (jacobians[0].0.array.iter())
+            .flat_map(|&grad| other.0.array.iter().map(move |&x| grad * x))
+            .collect();
+        RcTensor::new(array, vec![jacobians[0].count(), other.count()])
+    };
+    vec![outer(&right), outer(&left)]
 }
 
 #[test]
-- 
2.43.0


From 5a8bb1e23e85e98d87ec64f488b9931b34d496ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 08/11] fix: start backward with a 1x1 jacobian

bmm_jvp and abs_jvp index the incoming jacobian as a matrix, so calling
backward directly on a one-element product or absolute value panicked.
---
 src/tensor/rc_tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cab1716..cb0df9a 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -56,7 +56,7 @@ impl<T: Numeric> RcTensor<T> {
         self.grad_fn
             .as_ref()
             .unwrap()
-            .compute_jvp(vec![RcTensor::scalar(T::one())])
+            .compute_jvp(vec![RcTensor::new(vec![T::one()], vec![1, 1])])
     }
     pub fn is_scalar(&self) -> bool {
         self.0.array.len() == 1 && self.0.shape.is_empty()
-- 
2.43.0


From 72eb2b085291c3963ae1888093409291ec159c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 09/11] fix: iterate over an empty view without panicking

ElementIterator read a first element even when there is none, so multiplying
by a view with an empty dimension panicked where the same product of plain
tensors gives zeros.
---
 src/tensor/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 53d9f17..cfac03a 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -38,6 +38,9 @@ where
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
+        if self.tensor_like.shape().contains(&0) {
+            return None; // no elements at all
+        }
         if self.first {
             self.first = false;
             let &elem = self.tensor_like.get(&self.index).unwrap();
-- 
2.43.0


From 2937b72bf721c20b33f8bd6fc9003502095aa6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 10/11] fix: do not give the result of sum a gradient

Nothing has contributed to it yet, and its shape was that of the input.
---
 src/tensor/raw_tensor.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 9463894..e2efa38 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -335,12 +335,7 @@ where
             .array
             .iter()
             .fold(Self::Elem::zero(), |acc, x| acc + *x);
-        let scalar = RawTensor::from(v);
-        scalar.update_grad(RcTensor::new_with_filler(
-            self.shape.clone(),
-            Self::Elem::one(),
-        ));
-        scalar
+        RawTensor::from(v)
     }
 
     fn tensor(&self) -> Self::TensorRef<'_> {
-- 
2.43.0


From 09fa953008c2e3422815307c5360597de62d6d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 11/11] fix: refuse left operands of bmm with more than three
 dimensions

---
 src/tensor/functional/misc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 34204c0..2e6f9f8 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -57,6 +57,7 @@ where
     //    dbg!(left.shape(), right.shape());
     assert!(2 <= left.shape().len()); // For now we can only do Batch matrix
     assert!(right.shape().len() == 2); // rhs must be a matrix
+    assert!(left.shape().len() <= 3); // more dimensions would be truncated
                                        //
     assert!(left.shape()[left.shape().len() - 1] == right.shape()[right.shape().len() - 2]);
     let new_shape: Vec<usize> = if left.shape().len() == 2 {
-- 
2.43.0

