From 9ccb6aee5722ae28a3b273e68911029606d480a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:31 +0000
Subject: [PATCH 01/39] fix: use int instead of np.int, which numpy removed

---
 t3f/initializers.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 4d7cb71..0a84c82 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -84,7 +84,7 @@ def tensor_ones(shape, dtype=tf.float32, name='t3f_tensor_ones'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -110,7 +110,7 @@ def tensor_zeros(shape, dtype=tf.float32, name='t3f_tensor_zeros'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
   tt_cores = num_dims * [None]
   with tf.name_scope(name):
     for i in range(num_dims):
@@ -138,7 +138,7 @@ def eye(shape, dtype=tf.float32, name='t3f_eye'):
   _validate_input_parameters(is_tensor=True, shape=shape)
 
   num_dims = shape.size
-  tt_ranks = np.ones(num_dims + 1, dtype=np.int)
+  tt_ranks = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -182,7 +182,7 @@ def matrix_ones(shape, dtype=tf.float32, name='t3f_matrix_ones'):
   _validate_input_parameters(is_tensor=False, shape=shape)
 
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -224,7 +224,7 @@ def matrix_zeros(shape, dtype=tf.float32, name='t3f_matrix_zeros'):
 
   _validate_input_parameters(is_tensor=False, shape=shape)
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -261,7 +261,7 @@ def tensor_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
   _validate_input_parameters(is_tensor=True, shape=shape, tt_rank=tt_rank)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -304,7 +304,7 @@ def tensor_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -359,7 +359,7 @@ def matrix_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -417,7 +417,7 @@ def matrix_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
   shape = shape.astype(int)
   tt_rank = tt_rank.astype(int)
@@ -522,7 +522,7 @@ def random_tensor(shape, tt_rank=2, mean=0., stddev=1., dtype=tf.float32,
 
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -580,7 +580,7 @@ def random_tensor_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -647,7 +647,7 @@ def random_matrix(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -718,7 +718,7 @@ def random_matrix_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   shape = shape.astype(int)
-- 
2.43.0


From 86c4456e45d0ad48a238804d33601942e186e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:11 +0000
Subject: [PATCH 02/39] fix: bilinear_form took the batch kind of c from b

A batch as only one of the two vectors failed or gave an einsum error.
---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 86be42e..a6b2a28 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1083,7 +1083,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     raise ValueError('The arguments should be a TT-matrix.')
 
   b_is_batch = isinstance(b, TensorTrainBatch)
-  c_is_batch = isinstance(b, TensorTrainBatch)
+  c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
   c_bs_str = 'p' if c_is_batch else ''
   out_bs_str = 'p' if b_is_batch or c_is_batch else ''
-- 
2.43.0


From db335938dc6c9d61a591f1ea6ff90fa60cdc70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:11 +0000
Subject: [PATCH 03/39] fix: bilinear_form_two_mat mixed up batch and mode axes

The batch letter was also used for a mode and the batch kind of y was taken
from x, so batches of vectors did not work.
---
 t3f/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index a6b2a28..702ba70 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1148,10 +1148,10 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
       raise ValueError('The arguments should be a TT-matrix.')
 
   x_is_batch = isinstance(x, TensorTrainBatch)
-  y_is_batch = isinstance(x, TensorTrainBatch)
-  x_bs_str = 'p' if x_is_batch else ''
-  y_bs_str = 'p' if y_is_batch else ''
-  out_bs_str = 'p' if x_is_batch or y_is_batch else ''
+  y_is_batch = isinstance(y, TensorTrainBatch)
+  x_bs_str = 'q' if x_is_batch else ''
+  y_bs_str = 'q' if y_is_batch else ''
+  out_bs_str = 'q' if x_is_batch or y_is_batch else ''
   all_cores = x.tt_cores + A.tt_cores + B.tt_cores + y.tt_cores
   with tf.name_scope(name):
     ndims = A.ndims()
-- 
2.43.0


From d190c87d041353a39c20395a45d916250d768ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:11 +0000
Subject: [PATCH 04/39] fix: allow a single TT as the first argument of add
 with a batch

---
 t3f/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 702ba70..d6a89a7 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -579,7 +579,7 @@ def _add_batch_tensor_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  if not isinstance(tt_a, TensorTrainBatch) or tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
@@ -651,7 +651,7 @@ def _add_batch_matrix_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  if not isinstance(tt_a, TensorTrainBatch) or tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
-- 
2.43.0


From 626af3d299d49b3b190626269c946667b2cb171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:11 +0000
Subject: [PATCH 05/39] fix: add TT objects that consist of one core

---
 t3f/ops.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index d6a89a7..1773764 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -553,7 +553,9 @@ def _add_tensor_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=2)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -595,7 +597,9 @@ def _add_batch_tensor_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
@@ -625,7 +629,9 @@ def _add_matrix_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -667,7 +673,9 @@ def _add_batch_matrix_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=4)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
-- 
2.43.0


From efda2661798fb7b4242ed41ecc7ec392320854bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:11 +0000
Subject: [PATCH 06/39] fix: gather_nd with indices of more than two dimensions

---
 t3f/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 1773764..67f07b1 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1265,7 +1265,9 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         raise ValueError('The last dimension of indices (%d) should have '
                          'the same size as the number of dimensions in the tt '
                          'object (%d).' % (indices.get_shape()[-1], tt.ndims()))
-    tt_elements = tf.ones(tf.shape(indices)[:-1], dtype=tt.dtype)
+    result_shape = tf.shape(indices)[:-1]
+    indices = tf.reshape(indices, (-1, indices.get_shape()[-1]))
+    tt_elements = tf.ones(result_shape, dtype=tt.dtype)
     tt_elements = tf.reshape(tt_elements, (-1, 1, 1))
     for core_idx in range(tt.ndims()):
       curr_core = tt.tt_cores[core_idx]
@@ -1277,7 +1279,7 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         curr_core = tf.transpose(curr_core, (1, 0, 2))
         core_slices = tf.gather(curr_core, indices[:, core_idx])
       tt_elements = tf.matmul(tt_elements, core_slices)
-    tt_elements = tf.reshape(tt_elements, tf.shape(indices)[:-1])
+    tt_elements = tf.reshape(tt_elements, result_shape)
     return tt_elements
 
 
-- 
2.43.0


From 238f13aa75401357642948ab44cc413f11394d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:11 +0000
Subject: [PATCH 07/39] fix: bilinear forms of a batch of one keep the batch
 axis

---
 t3f/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 67f07b1..232997d 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1123,7 +1123,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-1, -2, -3])
 
 
 def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
@@ -1192,7 +1192,7 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-1, -2, -3, -4])
 
 
 def cast(tt, dtype, name='t3f_cast'):
-- 
2.43.0


From b82dea3da5c6db5c74d1ab7fe9ec761d1e261dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:11 +0000
Subject: [PATCH 08/39] fix: flat_inner of a batch of one keeps the batch axis

---
 t3f/ops.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 232997d..e0cc019 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -368,6 +368,8 @@ def tt_tt_flat_inner(tt_a, tt_b):
                      'got %d and %d instead.' % (ndims, tt_b.ndims()))
 
   axes_str = 'ij' if are_both_matrices else 'i'
+  is_any_batch = (isinstance(tt_a, TensorTrainBatch) or
+                  isinstance(tt_b, TensorTrainBatch))
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_a = shapes.squeeze_batch_dim(tt_a)
   tt_b = shapes.squeeze_batch_dim(tt_b)
@@ -397,7 +399,10 @@ def tt_tt_flat_inner(tt_a, tt_b):
     # if both arguments are TT-tensors, then it is
     # res = tf.einsum('ac,aib,cid->bd', res, a_core, b_core)
     res = tf.einsum(einsum_str, res, a_core, b_core)
-  return tf.squeeze(res)
+  res = tf.squeeze(res, [-1, -2])
+  if is_any_batch and not is_res_batch:
+    res = tf.expand_dims(res, 0)
+  return res
 
 
 def tt_dense_flat_inner(tt_a, dense_b):
-- 
2.43.0


From 452614d3d05b2bf5c9654ab2a0f85699e759616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:11 +0000
Subject: [PATCH 09/39] fix: matmul with a batch of one returns a batch, as
 documented

---
 t3f/ops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index e0cc019..55cda21 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -137,6 +137,8 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_matrix_b.ndims()))
 
+  is_any_batch = (isinstance(tt_matrix_a, TensorTrainBatch) or
+                  isinstance(tt_matrix_b, TensorTrainBatch))
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_matrix_a = shapes.squeeze_batch_dim(tt_matrix_a)
   tt_matrix_b = shapes.squeeze_batch_dim(tt_matrix_b)
@@ -182,7 +184,8 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
   if is_res_batch:
     return TensorTrainBatch(result_cores, res_shape, out_ranks, batch_size)
   else:
-    return TensorTrain(result_cores, res_shape, out_ranks)
+    res = TensorTrain(result_cores, res_shape, out_ranks)
+    return shapes.expand_batch_dim(res) if is_any_batch else res
 
 
 def tt_dense_matmul(tt_matrix_a, matrix_b):
-- 
2.43.0


From 52fce1d471862524172556b71e588e65bc3061cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:11 +0000
Subject: [PATCH 10/39] fix: report misaligned shapes in tt_dense_matmul with
 ValueError

---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 55cda21..266cc27 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -206,7 +206,7 @@ def tt_dense_matmul(tt_matrix_a, matrix_b):
   b_rows = matrix_b.get_shape().as_list()[0]
   if a_columns is not None and b_rows is not None:
     if a_columns != b_rows:
-      raise ValueError('Arguments shapes should align got %d and %d instead.' %
+      raise ValueError('Arguments shapes should align got %s and %s instead.' %
                        (tt_matrix_a.get_shape(), matrix_b.get_shape()))
 
   a_shape = shapes.lazy_shape(tt_matrix_a)
-- 
2.43.0


From 5b636c7658fb6f3c87e8a8501ce562481ab335be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:11 +0000
Subject: [PATCH 11/39] fix: clean_raw_shape for objects with one core

Squeezing turned a one-element shape into a scalar and a one-core matrix
shape into a two-dimensional tensor shape.
---
 t3f/shapes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index de13d94..ec99153 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -220,7 +220,6 @@ def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
     else:
       np_shape = np.array(shape)
       # Make sure that the shape is 2-d array both for tensors and TT-matrices.
-      np_shape = np.squeeze(np_shape)
       if len(np_shape.shape) == 1:
         # A tensor.
         np_shape = [np_shape]
-- 
2.43.0


From 285b437f2b3046d80d82a974e32d6110784f2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:11 +0000
Subject: [PATCH 12/39] fix: unlimited rank caps and cap lists in round and
 to_tt_tensor

round without a cap, np.inf as the documented way to ask for no cap, and a
list of caps for a batch all raised.
---
 t3f/decompositions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index 4d6b026..1a75bed 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -6,6 +6,13 @@ from t3f.tensor_train_batch import TensorTrainBatch
 from t3f import shapes
 
 
+def _clean_max_tt_rank(max_tt_rank):
+  """Returns an integer array, None and np.inf mean no restriction."""
+  if max_tt_rank is None:
+    max_tt_rank = np.inf
+  return np.minimum(max_tt_rank, np.iinfo(np.int32).max).astype(np.int32)
+
+
 def to_tt_matrix(mat, shape, max_tt_rank=10, epsilon=None,
                  name='t3f_to_tt_matrix'):
   """Converts a given matrix or vector to a TT-matrix.
@@ -143,7 +150,7 @@ def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
     dynamic_shape = tf.shape(tens)
     # Raises ValueError if ndims is not defined.
     d = static_shape.__len__()
-    max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+    max_tt_rank = _clean_max_tt_rank(max_tt_rank)
     if np.any(max_tt_rank < 1):
       raise ValueError('Maximum TT-rank should be greater or equal to 1.')
     if epsilon is not None and epsilon < 0:
@@ -247,7 +254,7 @@ def _round_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = _clean_max_tt_rank(max_tt_rank)
   if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
@@ -322,8 +329,8 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
-  if max_tt_rank < 1:
+  max_tt_rank = _clean_max_tt_rank(max_tt_rank)
+  if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
     raise ValueError('Epsilon should be non-negative.')
-- 
2.43.0


From 8ff0c3f945a7b086f806aeb717180e6a4a82ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:11 +0000
Subject: [PATCH 13/39] fix: project_matmul for a single TT object

---
 t3f/riemannian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 649d353..6b6d295 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -423,7 +423,6 @@ def project_matmul(what, where, matrix):
   ndims = where.ndims()
   dtype = where.dtype
   raw_shape = shapes.lazy_raw_shape(where)
-  batch_size = shapes.lazy_batch_size(what)
   right_tangent_tt_ranks = shapes.lazy_tt_ranks(right_tangent_space_tens)
   left_tangent_tt_ranks = shapes.lazy_tt_ranks(left_tangent_space_tens)
 
@@ -436,6 +435,7 @@ def project_matmul(what, where, matrix):
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
+  batch_size = shapes.lazy_batch_size(what)
 
   # Prepare rhs vectors.
   # rhs[core_idx] is of size
@@ -493,6 +493,7 @@ def project_matmul(what, where, matrix):
       extended_right_tang_core = tf.tile(extended_right_tang_core,
                                          [output_batch_size, 1, 1, 1, 1])
     else:
+      proj_core = proj_core[0]
       extended_left_tang_core = left_tang_core
       extended_right_tang_core = right_tang_core
 
-- 
2.43.0


From 609bcd69fa72de58e4d85910ce0f5e5b0bab98bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:11 +0000
Subject: [PATCH 14/39] fix: take right ranks from the right-orthogonal TT in
 deltas_to_tangent_space

---
 t3f/riemannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 6b6d295..cdcaa75 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -839,7 +839,7 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
     if right is None:
       right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
     left_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
-    right_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
+    right_tangent_tt_ranks = shapes.lazy_tt_ranks(right)
     raw_shape = shapes.lazy_raw_shape(left)
     right_rank_dim = left.right_tt_rank_dim
     left_rank_dim = left.left_tt_rank_dim
-- 
2.43.0


From b84e34f9c309bd2697aed43e37e386db88025796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:11 +0000
Subject: [PATCH 15/39] fix: project_sum with a single column of weights

---
 t3f/riemannian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index cdcaa75..cf2798d 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -80,6 +80,8 @@ def project_sum(what, where, weights=None):
   if weights is not None:
     weights_shape = weights.get_shape()
     output_is_batch = len(weights_shape) > 1 and weights_shape[1] > 1
+    if not output_is_batch:
+      weights = tf.reshape(weights, [-1])
   else:
     output_is_batch = False
   output_batch_str = 'o' if output_is_batch else ''
-- 
2.43.0


From fa2764dfbc6392d59f40ca5525d4e32b7e1c4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:11 +0000
Subject: [PATCH 16/39] fix: gram matrices of batches of one keep both axes

---
 t3f/batch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index f062e0e..7a62d7c 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -232,4 +232,4 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
 
     # Squeeze to make the result of size batch_size x batch_size instead of
     # batch_size x batch_size x 1 x 1.
-    return tf.squeeze(res)
+    return tf.squeeze(res, list(range(2, len(res.shape))))
-- 
2.43.0


From b338162d6c51b560449951344542d062162fe73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:11 +0000
Subject: [PATCH 17/39] fix: reduce_sum_batch for TT objects with one core

---
 t3f/approximate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t3f/approximate.py b/t3f/approximate.py
index cafbee0..e7f86d2 100644
--- a/t3f/approximate.py
+++ b/t3f/approximate.py
@@ -160,7 +160,9 @@ def reduce_sum_batch(tt_batch, max_tt_rank, coef=None,
           b_core_shape = np.delete(b_core_shape, 1)
           b_core = tf.reshape(b_core, b_core_shape)
 
-        if core_idx == 0:
+        if ndims == 1:
+          curr_sum_core = a_core + b_core
+        elif core_idx == 0:
           curr_sum_core = tf.concat((a_core, b_core), axis=right_tt_rank_dim)
         elif core_idx == ndims - 1:
           curr_sum_core = tf.concat((a_core, b_core), axis=left_tt_rank_dim)
-- 
2.43.0


From 897983b83c0709d33819d1f586ab13ff6fe0d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:11 +0000
Subject: [PATCH 18/39] fix: regularizers used name_scope and logging calls
 absent in TF 2

---
 t3f/regularizers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/t3f/regularizers.py b/t3f/regularizers.py
index 6bfd87c..75fbc25 100644
--- a/t3f/regularizers.py
+++ b/t3f/regularizers.py
@@ -1,3 +1,4 @@
+import logging
 import numbers
 
 import tensorflow as tf
@@ -25,12 +26,12 @@ def l2_regularizer(scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      logging.info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def l2(tt):
     """Applies l2 regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       return tf.multiply(my_scale, ops.frobenius_norm_squared(tt), name=name)
 
@@ -60,12 +61,12 @@ def cores_regularizer(core_regularizer, scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      logging.info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def regularizer(tt):
     """Applies the regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       penalty = 0.0
       for i in range(tt.ndims()):
-- 
2.43.0


From cde1e9ba5ee7f97c1941672911f1a3f2b9bd1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:11 +0000
Subject: [PATCH 19/39] fix: run-time check of Riemannian autodiff failed on
 functions equal to zero

---
 t3f/autodiff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 4e2ee30..658f1ea 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -58,12 +58,12 @@ def _is_invariant_to_input_transforms(f_value_1, f_value_2,
         'makes things a bit slower. It is advisable to keep runtime_check=True '
         'untill actuall production usage, since runtime check does help to '
         'catch bugs.')
-  rel_diff = tf.abs((f_value_1 - f_value_2) / f_value_1)
+  abs_diff = tf.abs(f_value_1 - f_value_2)
   err_msg = "The function passed to Riemannian autodiff returns different " \
             "values for two different versions of the same tensor. " \
             "The function values are"
-  assert_op = tf.Assert(rel_diff < 1e-5, [err_msg, f_value_1, f_value_2],
-                        name=name)
+  assert_op = tf.Assert(abs_diff <= 1e-5 * tf.abs(f_value_1),
+                        [err_msg, f_value_1, f_value_2], name=name)
   return assert_op
 
 
-- 
2.43.0


From b5260cc7c1e8232439370e1e486ae41589b5420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:11 +0000
Subject: [PATCH 20/39] fix: multiply a float64 TT by a Python number in
 float64

The number went through float32, which lost half of the digits.
---
 t3f/ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 266cc27..d17c98e 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -798,6 +798,8 @@ def multiply(tt_left, right, name='t3f_multiply'):
       # To squash right uniformly across TT-cores we pull its absolute value
       # and raise to the power 1/ndims. First TT-core is multiplied by the sign
       # of right.
+      if not tf.is_tensor(right):
+        right = tf.convert_to_tensor(right, dtype=tt_left.dtype)
       tt_cores = list(tt_left.tt_cores)
       fact = tf.pow(tf.cast(tf.abs(right), tt_left.dtype), 1.0 / ndims)
       sign = tf.cast(tf.sign(right), tt_left.dtype)
-- 
2.43.0


From 8e6873ed7b6ca96c528ed18b774a2bcc9a173862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:08 +0000
Subject: [PATCH 21/39] fix: Kronecker routines referred to a missing helper
 for unknown shapes

---
 t3f/kronecker.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index e1f4e2d..ceef404 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -2,7 +2,7 @@ import tensorflow as tf
 
 from t3f.tensor_train import TensorTrain
 from t3f.tensor_train_batch import TensorTrainBatch
-from t3f import ops
+from t3f import shapes
 
 
 def determinant(kron_a, name='t3f_kronecker_determinant'):
@@ -33,8 +33,8 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
   else:
-    i_shapes = ops.raw_shape(kron_a)[0].as_list()
-    j_shapes = ops.raw_shape(kron_a)[1].as_list()
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -52,7 +52,7 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
         core_det = tf.linalg.det(core[:, 0, :, :, 0])
       else:
         core_det = tf.linalg.det(core[0, :, :, 0])
-      core_pow = pows / i_shapes[core_idx]
+      core_pow = pows / tf.cast(i_shapes[core_idx], kron_a.dtype)
 
       det *= tf.pow(core_det, core_pow)
     return det
@@ -86,8 +86,8 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
   else:
-    i_shapes = ops.raw_shape(kron_a)[0].as_list()
-    j_shapes = ops.raw_shape(kron_a)[1].as_list()
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -108,7 +108,7 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
         core_det = tf.linalg.det(core[0, :, :, 0])
       core_abs_det = tf.abs(core_det)
       core_det_sign = tf.sign(core_det)
-      core_pow = pows / i_shapes[core_idx]
+      core_pow = pows / tf.cast(i_shapes[core_idx], kron_a.dtype)
       logdet += tf.math.log(core_abs_det) * core_pow
       det_sign *= core_det_sign**(core_pow)
     return det_sign, logdet
@@ -142,8 +142,8 @@ def inv(kron_a, name='t3f_kronecker_inv'):
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
   else:
-    i_shapes = ops.raw_shape(kron_a)[0]
-    j_shapes = ops.raw_shape(kron_a)[1]
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -200,8 +200,8 @@ def cholesky(kron_a, name='t3f_kronecker_cholesky'):
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
   else:
-    i_shapes = ops.raw_shape(kron_a)[0]
-    j_shapes = ops.raw_shape(kron_a)[1]
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
-- 
2.43.0


From 392810d3ef675f1e1a5d5cbb560df5078ca95e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:08 +0000
Subject: [PATCH 22/39] fix: TensorTrain accepted cores and shapes of a wrong
 length

---
 t3f/tensor_train.py       | 11 +++++++++++
 t3f/tensor_train_batch.py | 13 +++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 7980700..b21c5e0 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -161,6 +161,17 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
   try:
+    num_core_dims = len(tt_cores[0].get_shape()) if num_dims > 0 else 0
+    if num_core_dims not in (3, 4):
+      # There are no cores or they are neither of a TT-tensor nor a TT-matrix.
+      return False
+    if shape is not None:
+      if len(shape) != num_core_dims - 2:
+        return False
+      if any(len(curr_shape) != num_dims for curr_shape in shape):
+        return False
+    if tt_ranks is not None and len(tt_ranks) < num_dims + 1:
+      return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].get_shape()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 976582a..fb3ad49 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -294,6 +294,19 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
   try:
+    num_core_dims = len(tt_cores[0].get_shape()) if num_dims > 0 else 0
+    if num_core_dims not in (4, 5):
+      # There are no cores or they are neither of TT-tensors nor TT-matrices.
+      return False
+    if shape is not None:
+      if len(shape) != num_core_dims - 3:
+        return False
+      if any(len(curr_shape) != num_dims for curr_shape in shape):
+        return False
+    if tt_ranks is not None and len(tt_ranks) < num_dims + 1:
+      return False
+    if batch_size is None:
+      batch_size = tt_cores[0].shape.as_list()[0]
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].shape.as_list()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
-- 
2.43.0


From cf921e2a305b1b38496ba9a6a820a353fa5bd55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:11:25 +0000
Subject: [PATCH 23/39] fix: add a single TT object to a batch of one

---
 t3f/ops.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index d17c98e..2c6adfb 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -589,14 +589,14 @@ def _add_batch_tensor_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if not isinstance(tt_a, TensorTrainBatch) or tt_a.batch_size == 1:
+  tt_a = shapes.expand_batch_dim(tt_a)
+  tt_b = shapes.expand_batch_dim(tt_b)
+  if tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
     batch_size = shapes.lazy_batch_size(tt_a)
-  tt_a = shapes.expand_batch_dim(tt_a)
-  tt_b = shapes.expand_batch_dim(tt_b)
   tt_cores = []
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
@@ -665,14 +665,14 @@ def _add_batch_matrix_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if not isinstance(tt_a, TensorTrainBatch) or tt_a.batch_size == 1:
+  tt_a = shapes.expand_batch_dim(tt_a)
+  tt_b = shapes.expand_batch_dim(tt_b)
+  if tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
     batch_size = shapes.lazy_batch_size(tt_a)
-  tt_a = shapes.expand_batch_dim(tt_a)
-  tt_b = shapes.expand_batch_dim(tt_b)
   tt_cores = []
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
-- 
2.43.0


From ab6decb09516da29d794e7f055f06ce96bd6297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:24:52 +0000
Subject: [PATCH 24/39] fix: TT constructors rejected cores with partly unknown
 sizes

A size of None was treated as different from any known size, so inside a
graph function orthogonalization, rounding and other operations failed for
TT objects whose ranks or mode sizes are only known at run time.
---
 t3f/shapes.py             | 13 +++++++++++++
 t3f/tensor_train.py       | 13 ++++++++-----
 t3f/tensor_train_batch.py | 10 ++++++----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index ec99153..298ba4e 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -230,6 +230,19 @@ def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
     return shape
 
 
+def are_dims_different(dim_a, dim_b):
+  """Check that both dimensions are known and differ from each other.
+
+  Args:
+    dim_a: a number or None (if the dimension is unknown)
+    dim_b: a number or None (if the dimension is unknown)
+
+  Returns:
+    Bool
+  """
+  return dim_a is not None and dim_b is not None and dim_a != dim_b
+
+
 def is_batch_broadcasting_possible(tt_a, tt_b):
   """Check that the batch broadcasting possible for the given batch sizes.
 
diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index b21c5e0..5256b12 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -179,22 +179,25 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
         return False
       if shape is not None:
         for i in range(len(shape)):
-          if curr_core_shape[i + 1] != shape[i][core_idx]:
+          if shapes.are_dims_different(curr_core_shape[i + 1],
+                                       shape[i][core_idx]):
             # The TT-cores are not aligned with the given shape.
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[0] != prev_core_shape[-1]:
+        if shapes.are_dims_different(curr_core_shape[0], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
-        if curr_core_shape[0] != tt_ranks[core_idx]:
+        if shapes.are_dims_different(curr_core_shape[0], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if shapes.are_dims_different(curr_core_shape[-1],
+                                     tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[0] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (shapes.are_dims_different(tt_cores[0].get_shape()[0], 1) or
+        shapes.are_dims_different(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index fb3ad49..77f7700 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -324,17 +324,19 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[1] != prev_core_shape[-1]:
+        if shapes.are_dims_different(curr_core_shape[1], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
-        if curr_core_shape[1] != tt_ranks[core_idx]:
+        if shapes.are_dims_different(curr_core_shape[1], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if shapes.are_dims_different(curr_core_shape[-1],
+                                     tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[1] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (shapes.are_dims_different(tt_cores[0].get_shape()[1], 1) or
+        shapes.are_dims_different(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
-- 
2.43.0


From 1f52d4b845c60d0aaad32afca4596e58d0010d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:24:52 +0000
Subject: [PATCH 25/39] fix: get_shape of TT-matrices with unknown mode sizes

---
 t3f/tensor_train_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/tensor_train_base.py b/t3f/tensor_train_base.py
index f4c25b7..736d144 100644
--- a/t3f/tensor_train_base.py
+++ b/t3f/tensor_train_base.py
@@ -32,8 +32,8 @@ class TensorTrainBase(object):
     raw_shape = self.get_raw_shape()
     if self.is_tt_matrix():
       # Use python prod instead of np.prod to avoid overflows.
-      prod_f = lambda arr: reduce(lambda x, y: x*y, arr)
-      # TODO: as list is not available if shape is partly known.
+      # The product is unknown if any of the sizes is unknown.
+      prod_f = lambda arr: None if None in arr else reduce(lambda x, y: x*y, arr)
       m = prod_f(raw_shape[0].as_list())
       n = prod_f(raw_shape[1].as_list())
       return tf.TensorShape((m, n))
-- 
2.43.0


From 76a5bd1f451fc1d2c731515031c0f313bb9fb6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:24:52 +0000
Subject: [PATCH 26/39] fix: orthogonalized batch of unknown size reported a
 tensor as batch_size

---
 t3f/decompositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index 1a75bed..47bee8a 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -555,7 +555,8 @@ def _orthogonalize_batch_tt_cores_left_to_right(tt):
     last_core_shape = (batch_size, next_rank, raw_shape[0][-1], 1)
   tt_cores[-1] = tf.reshape(tt_cores[-1], last_core_shape)
   # TODO: infer the tt_ranks.
-  return TensorTrainBatch(tt_cores, tt.get_raw_shape(), batch_size=batch_size)
+  return TensorTrainBatch(tt_cores, tt.get_raw_shape(),
+                          batch_size=tt.batch_size)
 
 
 def _orthogonalize_tt_cores_right_to_left(tt):
-- 
2.43.0


From c47d090bb2f52edc07bde5b997a4d72f95c44385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:59:57 +0000
Subject: [PATCH 27/39] fix: reject empty shapes in initializers with
 ValueError

---
 t3f/initializers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 0a84c82..b78fd1c 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -20,8 +20,8 @@ def _validate_input_parameters(is_tensor, shape, **params):
   """
 
   if is_tensor:
-    if len(shape.shape) != 1:
-      raise ValueError('shape should be 1d array, got %a' % shape)
+    if len(shape.shape) != 1 or shape.size == 0:
+      raise ValueError('shape should be non-empty 1d array, got %a' % shape)
     if np.any(shape < 1):
       raise ValueError('all elements in `shape` should be positive, got %a' %
                        shape)
@@ -29,8 +29,8 @@ def _validate_input_parameters(is_tensor, shape, **params):
       raise ValueError('all elements in `shape` should be integers, got %a' %
                        shape)
   else:
-    if len(shape.shape) != 2:
-      raise ValueError('shape should be 2d array, got %a' % shape)
+    if len(shape.shape) != 2 or shape.size == 0:
+      raise ValueError('shape should be non-empty 2d array, got %a' % shape)
     if shape[0].size != shape[1].size:
       raise ValueError('shape[0] should have the same length as shape[1], but'
                        'got %d and %d' % (shape[0].size, shape[1].size))
-- 
2.43.0


From 5be15650b4a45ac65b513f8583468e5977341e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:00:03 +0000
Subject: [PATCH 28/39] fix: avoid integer overflow of matrix sizes in glorot,
 he and lecun initializers

---
 t3f/initializers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index b78fd1c..0e5567f 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -772,8 +772,8 @@ def glorot_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
-  n_out = np.prod(shape[1])
+  n_in = np.prod(shape[0], dtype=float)
+  n_out = np.prod(shape[1], dtype=float)
   lamb = 2.0 / (n_in + n_out)
 
   with tf.name_scope(name):
@@ -814,7 +814,7 @@ def he_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=float)
   lamb = 2.0 / n_in
 
   with tf.name_scope(name):
@@ -855,7 +855,7 @@ def lecun_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=float)
   lamb = 1.0 / n_in
   with tf.name_scope(name):
     return random_matrix(shape, tt_rank=tt_rank, stddev=np.sqrt(lamb),
-- 
2.43.0


From c3312f31ea8c5bf3bf910b38c8fd859ff31c32ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:50:05 +0000
Subject: [PATCH 29/39] fix: register the variables of KerasDense so that Keras
 trains them

---
 t3f/nn.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/t3f/nn.py b/t3f/nn.py
index fa45eaf..575380e 100644
--- a/t3f/nn.py
+++ b/t3f/nn.py
@@ -58,12 +58,25 @@ class KerasDense(Layer):
       raise ValueError('Unknown kernel_initializer "%s", only "glorot",'
                        '"he", and "lecun"  are supported'
                        % self.kernel_initializer)
-    self.matrix = t3f.get_variable('matrix', initializer=initializer)
-    self._tt_cores = self.matrix.tt_cores
+    super(KerasDense, self).__init__(name=name, **kwargs)
+    # Create the variables with add_weight, otherwise Keras does not track (and
+    # hence does not train) them.
+    self._tt_cores = [self._add_variable('core_%d' % i, core)
+                      for i, core in enumerate(initializer.tt_cores)]
+    self.matrix = t3f.TensorTrain(self._tt_cores, initializer.get_raw_shape(),
+                                  initializer.get_tt_ranks(),
+                                  convert_to_tensors=False)
     self.b = None
     if self.use_bias:
-      self.b = tf.Variable(self.bias_initializer * tf.ones((self.output_dim,)))
-    super(KerasDense, self).__init__(name=name, **kwargs)
+      bias = self.bias_initializer * tf.ones((self.output_dim,))
+      self.b = self._add_variable('bias', bias)
+
+  def _add_variable(self, name, value):
+    """Creates a trainable tf.Variable with the given initial value."""
+    weight = self.add_weight(name=name, shape=value.shape, dtype='float32',
+                             initializer=lambda shape, dtype=None: value)
+    # In Keras 3 add_weight returns a wrapper around tf.Variable.
+    return weight if isinstance(weight, tf.Variable) else weight.value
 
   def call(self, x):
     res = t3f.matmul(x, self.matrix)
-- 
2.43.0


From 678aa132eef5c38164f31cfc73db2404e415df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:56:53 +0000
Subject: [PATCH 30/39] fix: reject given boundary TT-ranks other than 1 when
 the rank of the core is unknown

---
 t3f/tensor_train.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 5256b12..bc27f44 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -170,8 +170,13 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
         return False
       if any(len(curr_shape) != num_dims for curr_shape in shape):
         return False
-    if tt_ranks is not None and len(tt_ranks) < num_dims + 1:
-      return False
+    if tt_ranks is not None:
+      if len(tt_ranks) < num_dims + 1:
+        return False
+      if (shapes.are_dims_different(tt_ranks[0], 1) or
+          shapes.are_dims_different(tt_ranks[num_dims], 1)):
+        # The first or the last of the given ranks is not 1.
+        return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].get_shape()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
-- 
2.43.0


From 06a0c64623cc118601d1e7911292aeb9a7c150d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:03 +0000
Subject: [PATCH 31/39] fix: reject inconsistent batch sizes and boundary ranks
 of batches with partly unknown shapes

---
 t3f/tensor_train_batch.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 77f7700..23aadf1 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -303,19 +303,23 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
         return False
       if any(len(curr_shape) != num_dims for curr_shape in shape):
         return False
-    if tt_ranks is not None and len(tt_ranks) < num_dims + 1:
-      return False
-    if batch_size is None:
-      batch_size = tt_cores[0].shape.as_list()[0]
+    if tt_ranks is not None:
+      if len(tt_ranks) < num_dims + 1:
+        return False
+      if (shapes.are_dims_different(tt_ranks[0], 1) or
+          shapes.are_dims_different(tt_ranks[num_dims], 1)):
+        # The first or the last of the given ranks is not 1.
+        return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].shape.as_list()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
         # Shapes are inconsistent.
         return False
-      if batch_size is not None and curr_core_shape[0] is not None:
-        if curr_core_shape[0] != batch_size:
-          # The TT-cores are not aligned with the given batch_size.
-          return False
+      if batch_size is None:
+        batch_size = curr_core_shape[0]
+      if shapes.are_dims_different(curr_core_shape[0], batch_size):
+        # The TT-cores are not aligned with the given batch_size.
+        return False
       if shape is not None:
         for i in range(len(shape)):
           dim_a, dim_b = curr_core_shape[i + 2], shape[i][core_idx]
-- 
2.43.0


From 0964b01c9caf50f3d9cb209cd26a7a790e92bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:13:21 +0000
Subject: [PATCH 32/39] fix: support unknown TT-ranks in add, multiply and
 matmul

---
 t3f/ops.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 2c6adfb..22d593e 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -178,8 +178,9 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
     result_cores.append(curr_res_core)
 
   res_shape = (tt_matrix_a.get_raw_shape()[0], tt_matrix_b.get_raw_shape()[1])
-  static_a_ranks = tt_matrix_a.get_tt_ranks()
-  static_b_ranks = tt_matrix_b.get_tt_ranks()
+  # Dimension objects, unlike numbers, support arithmetic with unknown values.
+  static_a_ranks = tt_matrix_a.get_tt_ranks().dims
+  static_b_ranks = tt_matrix_b.get_tt_ranks().dims
   out_ranks = [a_r * b_r for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
   if is_res_batch:
     return TensorTrainBatch(result_cores, res_shape, out_ranks, batch_size)
@@ -750,8 +751,9 @@ def add(tt_a, tt_b, name='t3f_add'):
         tt_cores = _add_tensor_cores(tt_a, tt_b)
 
     out_ranks = [1]
-    static_a_ranks = tt_a.get_tt_ranks()
-    static_b_ranks = tt_b.get_tt_ranks()
+    # Dimension objects, unlike numbers, support arithmetic with unknown values.
+    static_a_ranks = tt_a.get_tt_ranks().dims
+    static_b_ranks = tt_b.get_tt_ranks().dims
     for core_idx in range(1, ndims):
       out_ranks.append(static_a_ranks[core_idx] + static_b_ranks[core_idx])
     out_ranks.append(1)
@@ -928,7 +930,9 @@ def multiply(tt_left, right, name='t3f_multiply'):
 
         tt_cores.append(curr_core)
 
-      combined_ranks = zip(tt_left.get_tt_ranks(), right.get_tt_ranks())
+      # Dimension objects, unlike numbers, support arithmetic with unknown values.
+      combined_ranks = zip(tt_left.get_tt_ranks().dims,
+                           right.get_tt_ranks().dims)
       out_ranks = [a * b for a, b in combined_ranks]
 
   if not is_batch_case:
-- 
2.43.0


From 0c56af0a27c3106fe656d5d1c783f370317f8f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:20:19 +0000
Subject: [PATCH 33/39] fix: keep the batch size of a batch unknown when it is
 computed in the graph

---
 t3f/tensor_train_batch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 23aadf1..1e03fbd 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -47,6 +47,10 @@ class TensorTrainBatch(TensorTrainBase):
           name = "core%d" % i
           tt_cores[i] = tf.convert_to_tensor(tt_cores[i], name=name)
 
+    if tf.is_tensor(batch_size):
+      # The batch size is computed in the graph, its value may be unknown.
+      batch_size = tf.get_static_value(batch_size)
+
     if not _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
       raise ValueError('The tt_cores provided to TensorTrainBatch constructor '
                        'are not valid, have different dtypes, or are '
-- 
2.43.0


From f16d5ce2ff191599de5ff19349145225f6aa079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:54:10 +0000
Subject: [PATCH 34/39] fix: reject arguments with different numbers of
 TT-cores

bilinear_form, bilinear_form_two_mat, pairwise_flat_inner and
project_matmul loop over the cores of one argument only. Extra cores
of the other arguments were silently ignored when the rank at the cut
was 1.
---
 t3f/batch_ops.py  | 3 +++
 t3f/ops.py        | 8 ++++++++
 t3f/riemannian.py | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index 7a62d7c..542b436 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -163,6 +163,9 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
     all_cores += matrix.tt_cores
   with tf.name_scope(name):
     ndims = tt_1.ndims()
+    if tt_2.ndims() != ndims:
+      raise ValueError('The arguments should have the same number of TT-cores, '
+                       'got %d and %d.' % (ndims, tt_2.ndims()))
     if matrix is None:
       curr_core_1 = tt_1.tt_cores[0]
       curr_core_2 = tt_2.tt_cores[0]
diff --git a/t3f/ops.py b/t3f/ops.py
index 22d593e..0f8826e 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1103,6 +1103,9 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     raise ValueError('The arguments should be a TT-matrix.')
   if not isinstance(c, TensorTrainBase) or not c.is_tt_matrix():
     raise ValueError('The arguments should be a TT-matrix.')
+  if not A.ndims() == b.ndims() == c.ndims():
+    raise ValueError('The arguments should have the same number of TT-cores, '
+                     'got %d, %d, and %d.' % (A.ndims(), b.ndims(), c.ndims()))
 
   b_is_batch = isinstance(b, TensorTrainBatch)
   c_is_batch = isinstance(c, TensorTrainBatch)
@@ -1169,6 +1172,11 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
     if not isinstance(vec, TensorTrainBase) or not vec.is_tt_matrix():
       raise ValueError('The arguments should be a TT-matrix.')
 
+  if not x.ndims() == A.ndims() == B.ndims() == y.ndims():
+    raise ValueError('The arguments should have the same number of TT-cores, '
+                     'got %d, %d, %d, and %d.' % (x.ndims(), A.ndims(),
+                                                  B.ndims(), y.ndims()))
+
   x_is_batch = isinstance(x, TensorTrainBatch)
   y_is_batch = isinstance(y, TensorTrainBatch)
   x_bs_str = 'q' if x_is_batch else ''
diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index cf2798d..a1574e5 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -410,6 +410,11 @@ def project_matmul(what, where, matrix):
                      (where.get_raw_shape(),
                       what.get_raw_shape()))
 
+  if matrix.ndims() != where.ndims():
+    raise ValueError('The matrix should have the same number of TT-cores as '
+                     'the tensor we want to project, got %d and %d.' %
+                     (matrix.ndims(), where.ndims()))
+
   dtypes_compatible = (where.dtype.is_compatible_with(what.dtype) or
                        what.dtype.is_compatible_with(where.dtype))
   if not dtypes_compatible:
-- 
2.43.0


From e855b5d04e40c148319be8243fb2a2869471b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:54:15 +0000
Subject: [PATCH 35/39] fix: reject a sparse tensor of a different shape in
 flat_inner

---
 t3f/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 0f8826e..49fb83c 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -438,6 +438,9 @@ def tt_sparse_flat_inner(tt_a, sparse_b):
     a number
     sum of products of all the elements of tt_a and sparse_b
   """
+  if not tt_a.get_shape().is_compatible_with(sparse_b.get_shape()):
+    raise ValueError('The shapes of the arguments should coincide, got %s and '
+                     '%s.' % (tt_a.get_shape(), sparse_b.get_shape()))
   if sparse_b.indices.get_shape().is_fully_defined():
     num_elements = sparse_b.indices.get_shape()[0]
   else:
-- 
2.43.0


From 22c39eed09d06af2ebec82e225ec0a7f0b302a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:54:19 +0000
Subject: [PATCH 36/39] fix: reject a wrong number of weights

multiply_along_batch_dim used a single weight for the whole batch, and
add_n_projected ignored extra coefficients.
---
 t3f/batch_ops.py  | 4 ++++
 t3f/riemannian.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index 542b436..19a19d8 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -70,6 +70,10 @@ def multiply_along_batch_dim(batch_tt, weights,
   with tf.name_scope(name):
     weights = tf.convert_to_tensor(weights, dtype=batch_tt.dtype)
     tt_cores = list(batch_tt.tt_cores)
+    if not weights.shape.is_compatible_with([batch_tt.batch_size]):
+      raise ValueError('The number of weights should equal the batch size %s, '
+                       'got weights of shape %s.' % (batch_tt.batch_size,
+                                                     weights.shape))
     if batch_tt.is_tt_matrix():
       weights = weights[:, tf.newaxis, tf.newaxis, tf.newaxis, tf.newaxis]
     else:
diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index a1574e5..ddcf04c 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -670,6 +670,10 @@ def add_n_projected(tt_objects, coef=None):
                                                               projection_on))
   if coef is not None:
     coef = tf.convert_to_tensor(coef, dtype=tt_objects[0].dtype)
+    if coef.get_shape().as_list()[0] not in (None, len(tt_objects)):
+      raise ValueError('The number of coefficients should equal the number of '
+                       'objects %d, got coef of shape %s.' %
+                       (len(tt_objects), coef.get_shape()))
     if coef.get_shape().ndims > 1:
       # In batch case we will need to multiply each core by this coefficients
       # along the first axis. To do it need to reshape the coefs to match
-- 
2.43.0


From 4d106b776b733bbdb2665165407fbb6bb0afcbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:57:48 +0000
Subject: [PATCH 37/39] fix: do not broadcast modes of unknown size when adding
 one-core objects

---
 t3f/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 49fb83c..2901e52 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -566,7 +566,7 @@ def _add_tensor_cores(tt_a, tt_b):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
     if ndims == 1:
-      curr_core = a_core + b_core
+      curr_core = tf.add_n((a_core, b_core))
     elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=2)
     elif core_idx == ndims - 1:
@@ -610,7 +610,7 @@ def _add_batch_tensor_cores(tt_a, tt_b):
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1))
     if ndims == 1:
-      curr_core = a_core + b_core
+      curr_core = tf.add_n((a_core, b_core))
     elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
@@ -642,7 +642,7 @@ def _add_matrix_cores(tt_a, tt_b):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
     if ndims == 1:
-      curr_core = a_core + b_core
+      curr_core = tf.add_n((a_core, b_core))
     elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
@@ -686,7 +686,7 @@ def _add_batch_matrix_cores(tt_a, tt_b):
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1, 1))
     if ndims == 1:
-      curr_core = a_core + b_core
+      curr_core = tf.add_n((a_core, b_core))
     elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=4)
     elif core_idx == ndims - 1:
-- 
2.43.0


From 58399dee407969dd1f5ed1a7291a71671aaf34f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:03:59 +0000
Subject: [PATCH 38/39] fix: reject a batch of tensors and a batch of matrices
 in pairwise_flat_inner

---
 t3f/batch_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index 19a19d8..3716375 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -170,6 +170,9 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
     if tt_2.ndims() != ndims:
       raise ValueError('The arguments should have the same number of TT-cores, '
                        'got %d and %d.' % (ndims, tt_2.ndims()))
+    if tt_1.is_tt_matrix() != tt_2.is_tt_matrix():
+      raise ValueError('The arguments should be both TT-tensors or both '
+                       'TT-matrices')
     if matrix is None:
       curr_core_1 = tt_1.tt_cores[0]
       curr_core_2 = tt_2.tt_cores[0]
-- 
2.43.0


From 44fa5121f42d711f53d014161ba8de5dd02f946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:25 +0000
Subject: [PATCH 39/39] fix: l2_regularizer has finite gradients for
 rank-deficient TT objects

The penalty was computed from a QR decomposition, whose gradient is not
defined when a TT-core does not have full rank, so training steps got NaN.
---
 t3f/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t3f/regularizers.py b/t3f/regularizers.py
index 75fbc25..19f0f83 100644
--- a/t3f/regularizers.py
+++ b/t3f/regularizers.py
@@ -33,7 +33,8 @@ def l2_regularizer(scale, scope=None):
     """Applies l2 regularization to TensorTrain object."""
     with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
-      return tf.multiply(my_scale, ops.frobenius_norm_squared(tt), name=name)
+      penalty = ops.frobenius_norm_squared(tt, differentiable=True)
+      return tf.multiply(my_scale, penalty, name=name)
 
   return l2
 
-- 
2.43.0

