From b15ae741a1585d49f255706c529ab5e46f8afd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 01/59] fix: Toeplitz matrix of Conv2D for non-square kernels
 and for channels_first

---
 src/decomon/backward_layers/utils_conv.py | 49 ++++++++++++++---------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index ae0faf8..8eb9ca8 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -58,38 +58,39 @@ def get_toeplitz_channels_last(conv_layer: Conv2D, flatten: bool = True) -> Back
     _, w_out, h_out, c_out = output_shape
 
     kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
+    filter_size_w, filter_size_h = kernel_filter.shape[:2]
+    filter_size = filter_size_w * filter_size_h
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
     diag_patches = extract_patches(
         diag,
-        size=[filter_size, filter_size],
+        size=[filter_size_w, filter_size_h],
         strides=list(conv_layer.strides),
         dilation_rate=list(conv_layer.dilation_rate),
         padding=conv_layer.padding,
     )
 
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
+    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size, c_in))
 
     shape = list(range(len(diag_patches_.shape)))
     shape[-1] -= 1
     shape[-2] += 1
     diag_patches_ = K.transpose(diag_patches_, shape)
-    kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
+    kernel = conv_layer.kernel  # (filter_size_w, filter_size_h, c_in, c_out)
 
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
+    kernel = K.transpose(K.reshape(kernel, (filter_size, c_in, c_out)), (1, 2, 0))[
         None, None, None, None, None
-    ]  # (1,1,c_in, c_out, filter_size^2)
+    ]  # (1,1,c_in, c_out, filter_size)
 
     # element-wise multiplication is only compatible with float32
     diag_patches_ = K.cast(diag_patches_, "float32")
     kernel = K.cast(kernel, "float32")
 
     w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
-    # kernel shape: (1,1,1,1,1,c_in, c_out, filter_size^2)
-    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
-    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
+    # kernel shape: (1,1,1,1,1,c_in, c_out, filter_size)
+    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size)
+    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter_size)
 
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
@@ -127,32 +128,44 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
         output_shape = output[-1].shape
     _, c_out, w_out, h_out = output_shape
     kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
+    filter_size_w, filter_size_h = kernel_filter.shape[:2]
+    filter_size = filter_size_w * filter_size_h
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
-    diag_patches = extract_patches(diag, [filter_size, filter_size], [1, 1], [1, 1], padding=conv_layer.padding)
+    # the patches are extracted with channels last, the axes are reordered at the end
+    diag_patches = extract_patches(
+        diag,
+        size=[filter_size_w, filter_size_h],
+        strides=list(conv_layer.strides),
+        dilation_rate=list(conv_layer.dilation_rate),
+        padding=conv_layer.padding,
+        data_format="channels_last",
+    )
 
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
+    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size, c_in))
 
     shape = list(range(len(diag_patches_.shape)))
     shape[-1] -= 1
     shape[-2] += 1
     diag_patches_ = K.transpose(diag_patches_, shape)
-    kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
+    kernel = conv_layer.kernel  # (filter_size_w, filter_size_h, c_in, c_out)
 
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
+    kernel = K.transpose(K.reshape(kernel, (filter_size, c_in, c_out)), (1, 2, 0))[
         None, None, None, None, None
-    ]  # (1,1,c_in, c_out, filter_size^2)
+    ]  # (1,1,c_in, c_out, filter_size)
 
     w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
-    # kernel shape: (1,      1,     1,   1,    1,    c_in, c_out, filter_size^2)
-    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
-    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
+    # kernel shape: (1,      1,     1,   1,    1,    c_in, c_out, filter_size)
+    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size)
+    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter_size)
 
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
 
+    # (w_in, h_in, c_in, w_out, h_out, c_out) -> (c_in, w_in, h_in, c_out, w_out, h_out)
+    w = K.transpose(w, (2, 0, 1, 5, 3, 4))
+
     if flatten:
         return K.reshape(w, (w_in * h_in * c_in, w_out * h_out * c_out))
     else:
-- 
2.43.0


From b98db68fce6603b58405b8289c30902b3f8e7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 02/59] fix: weights of affine bounds through Flatten with
 channels_first

---
 src/decomon/backward_layers/backward_layers.py | 11 ++++++++++-
 src/decomon/layers/decomon_layers.py           |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 76619e6..0d85d95 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -453,7 +453,16 @@ class BackwardFlatten(BackwardLayer):
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        return get_identity_lirpa(inputs)
+        w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
+        y = inputs[-1]
+        if self.layer.data_format == "channels_first" and len(y.shape) > 2:
+            # Flatten switches to channels-last format: the input weights must stay in channels-first format
+            n_out = w_u_out.shape[-1]
+            shape = list(y.shape[2:]) + [y.shape[1]]
+            axes = (0, len(shape), *range(1, len(shape)), len(shape) + 1)
+            w_u_out = K.reshape(K.transpose(K.reshape(w_u_out, [-1] + shape + [n_out]), axes), (-1, n_out, n_out))
+            w_l_out = K.reshape(K.transpose(K.reshape(w_l_out, [-1] + shape + [n_out]), axes), (-1, n_out, n_out))
+        return [w_u_out, b_u_out, w_l_out, b_l_out]
 
 
 class BackwardReshape(BackwardLayer):
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index d6eced0..60f68ea 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -745,6 +745,10 @@ class DecomonFlatten(DecomonLayer, Flatten):
             b_l_out = op(b_l)
             input_dim = x.shape[-1]
             output_shape = int(np.prod(b_u_out.shape[1:]))
+            if self.data_format == "channels_first" and len(w_u.shape) > len(b_u.shape):
+                # same switch to channels-last format as done by Flatten on the biases
+                axes = (0, 1, *range(3, len(w_u.shape)), 2)
+                w_u, w_l = K.transpose(w_u, axes), K.transpose(w_l, axes)
             w_u_out = K.reshape(w_u, (-1, input_dim, output_shape))
             w_l_out = K.reshape(w_l, (-1, input_dim, output_shape))
         else:
-- 
2.43.0


From f9bc53940c3196211539f3d33ba0566bf8d124e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 03/59] fix: BackwardPermute on axes of different sizes

---
 src/decomon/backward_layers/backward_layers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 0d85d95..38fbcb3 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -520,7 +520,8 @@ class BackwardPermute(BackwardLayer):
         y = inputs[-1]
         n_dim = w_u_out.shape[1]
         n_out = w_u_out.shape[-1]
-        shape = list(y.shape[1:])
+        # weights are the identity on the permuted activations: rows to be permuted back
+        shape = [y.shape[dim] for dim in self.dims]
 
         w_u_out = K.reshape(w_u_out, [-1] + shape + [n_out])
         w_l_out = K.reshape(w_l_out, [-1] + shape + [n_out])
-- 
2.43.0


From 08a5d7d1153df67d3a1ce1da1002a9772d8c8bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 04/59] fix: BackwardAverage drops an input when merging three
 inputs or more

---
 src/decomon/backward_layers/backward_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_merge.py b/src/decomon/backward_layers/backward_merge.py
index 0a9028a..6a87a1a 100644
--- a/src/decomon/backward_layers/backward_merge.py
+++ b/src/decomon/backward_layers/backward_merge.py
@@ -228,7 +228,7 @@ class BackwardAverage(BackwardMerge):
                 if j == 1:
                     inputs_0 = inputs_list[0]
                 else:
-                    inputs_0 = self.op(list(chain(*inputs_list[: (j - 1)])))  # merge (j-1) first inputs
+                    inputs_0 = self.op(list(chain(*inputs_list[:j])))  # merge j first inputs
                 bounds_0, bounds_1 = backward_add(
                     inputs_0,
                     inputs_1,
-- 
2.43.0


From ba8e35642fafde4929dc76fb7482cfa721c42ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 05/59] fix: backward_minimum must propagate through the
 maximum of the negated inputs

---
 src/decomon/backward_layers/utils.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 1b6094e..7b95b59 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -379,13 +379,15 @@ def backward_minimum(
 
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
-    w_u_out, b_u_out, w_l_out, b_l_out = backward_minus(w_u_out, b_u_out, w_l_out, b_l_out)
+    # minimum(x, y) = - maximum(-x, -y)
+    inputs_0 = minus(inputs_0, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain)
+    inputs_1 = minus(inputs_1, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain)
     bounds_0, bounds_1 = backward_maximum(
         inputs_0,
         inputs_1,
-        w_u_out,
+        -w_u_out,
         b_u_out,
-        w_l_out,
+        -w_l_out,
         b_l_out,
         perturbation_domain=perturbation_domain,
         mode=mode,
@@ -393,11 +395,8 @@ def backward_minimum(
         **kwargs,
     )
 
-    w_u_out_0, b_u_out_0, w_l_out_0, b_l_out_0 = bounds_0
-    w_u_out_1, b_u_out_1, w_l_out_1, b_l_out_1 = bounds_1
-
-    bounds_0 = backward_minus(w_u_out_0, b_u_out_0, w_l_out_0, b_l_out_0)
-    bounds_1 = backward_minus(w_u_out_1, b_u_out_1, w_l_out_1, b_l_out_1)
+    bounds_0 = [-bounds_0[0], bounds_0[1], -bounds_0[2], bounds_0[3]]
+    bounds_1 = [-bounds_1[0], bounds_1[1], -bounds_1[2], bounds_1[3]]
 
     return [bounds_0, bounds_1]
 
-- 
2.43.0


From 2e1f80ecfb03e18262f18d558198713fe691c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 06/59] fix: shape of the weights computed by backward_multiply

---
 src/decomon/backward_layers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 7b95b59..56ab342 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -540,7 +540,7 @@ def backward_multiply(
     n = int(np.prod(u_c_0.shape[1:]))
     n_shape = [-1, n]
     # broadcast dimensions if needed
-    n_out = len(w_u_out.shape[1:])
+    n_out = len(w_u_out.shape[2:])
     for _ in range(n_out):
         n_shape += [1]
     a_u_0 = K.reshape(u_c_1, n_shape)
-- 
2.43.0


From c5314fdfb82fd8b205602d74344670f10464a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 07/59] fix: permute_dimensions weights permutation and
 DecomonDot on vectors

---
 src/decomon/layers/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 7bb09d6..63ef3aa 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -562,7 +562,9 @@ def permute_dimensions(
     index_np = np.arange(len(input_shape))
     index = tuple(np.insert(np.delete(index_np, axis), axis_perm, axis))
     index_w_np = np.arange(len(input_shape) + 1)
-    index_w = tuple(np.insert(np.delete(index_w_np, axis), axis_perm + 1, axis))
+    # same permutation, shifted by the additional axis of the weights (model input dimension)
+    axis_w = axis + 1 if axis >= 0 else axis
+    index_w = tuple(np.insert(np.delete(index_w_np, axis_w), axis_perm + 1, axis_w))
 
     if ibp:
         u_c_out = K.transpose(u_c, index)
-- 
2.43.0


From af09d8e1a43dbb07b3eae20d99a22b059c9d8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 08/59] fix: DecomonConcatenate on negative axes other than -1

---
 src/decomon/layers/decomon_merge_layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 8838cdb..cf5aae4 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -432,7 +432,7 @@ class DecomonConcatenate(DecomonMerge, Concatenate):
             return Concatenate.call(self, inputs)
 
         self.op = func
-        if self.axis == -1:
+        if self.axis < 0:
             self.op_w = self.op
         else:
             self.op_w = Concatenate(axis=self.axis + 1)
-- 
2.43.0


From 72e7beb124251b6b23900c0d90e6c8147eb1271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 09/59] fix: DecomonDot on vectors keeps the last axis as keras
 does, and uses its perturbation domain

---
 src/decomon/layers/decomon_merge_layers.py | 31 ++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index cf5aae4..1247cd0 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -591,8 +591,20 @@ class DecomonDot(DecomonMerge, Dot):
         n_0 = len(input_shape_0) - 2
         n_1 = len(input_shape_1) - 2
 
-        inputs_0 = permute_dimensions(inputs_0, self.axes[0], mode=self.mode, dc_decomp=self.dc_decomp)
-        inputs_1 = permute_dimensions(inputs_1, self.axes[1], mode=self.mode, dc_decomp=self.dc_decomp)
+        inputs_0 = permute_dimensions(
+            inputs_0,
+            self.axes[0],
+            mode=self.mode,
+            dc_decomp=self.dc_decomp,
+            perturbation_domain=self.perturbation_domain,
+        )
+        inputs_1 = permute_dimensions(
+            inputs_1,
+            self.axes[1],
+            mode=self.mode,
+            dc_decomp=self.dc_decomp,
+            perturbation_domain=self.perturbation_domain,
+        )
         inputs_0 = broadcast(
             inputs_0, n_1, -1, mode=self.mode, dc_decomp=self.dc_decomp, perturbation_domain=self.perturbation_domain
         )
@@ -609,17 +621,20 @@ class DecomonDot(DecomonMerge, Dot):
         dtype = x.dtype
         empty_tensor = self.inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
+        # as for keras Dot layer, the dot product of two vectors has still a last axis
+        keepdims = n_0 == 0 and n_1 == 0
+
         if self.ibp:
-            u_c_out = K.sum(u_c, 1)
-            l_c_out = K.sum(l_c, 1)
+            u_c_out = K.sum(u_c, 1, keepdims=keepdims)
+            l_c_out = K.sum(l_c, 1, keepdims=keepdims)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
         if self.affine:
-            w_u_out = K.sum(w_u, 2)
-            b_u_out = K.sum(b_u, 1)
-            w_l_out = K.sum(w_l, 2)
-            b_l_out = K.sum(b_l, 1)
+            w_u_out = K.sum(w_u, 2, keepdims=keepdims)
+            b_u_out = K.sum(b_u, 1, keepdims=keepdims)
+            w_l_out = K.sum(w_l, 2, keepdims=keepdims)
+            b_l_out = K.sum(b_l, 1, keepdims=keepdims)
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From bee6ea9e949961574c66f03b2b23a002f4a4e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:21 +0000
Subject: [PATCH 10/59] fix: affine bounds of frac_pos (1/x)

---
 src/decomon/layers/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 63ef3aa..47ec9a6 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -218,17 +218,18 @@ def frac_pos(
     l_c_out = K.cast(1.0, dtype=u_c.dtype) / u_c
 
     if affine:
-        w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
-        b_u_0 = l_c_out - w_u_0 * l_c
+        # x -> 1/x is convex and decreasing: chord from (l_c, 1/l_c) to (u_c, 1/u_c)
+        w_u_0 = (l_c_out - u_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        b_u_0 = u_c_out - w_u_0 * l_c
 
         y = (u_c + l_c) / 2.0
         b_l_0 = K.cast(2.0, dtype=y.dtype) / y
         w_l_0 = -K.cast(1.0, dtype=y.dtype) / y**2
 
         w_u_out = w_u_0[:, None] * w_l
-        b_u_out = b_u_0 * b_l + b_u_0
+        b_u_out = w_u_0 * b_l + b_u_0
         w_l_out = w_l_0[:, None] * w_u
-        b_l_out = b_l_0 * b_u + b_l_0
+        b_l_out = w_l_0 * b_u + b_l_0
     else:
         w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From f37d62bc03882e2d7d7ad6b735be37ca5c9326e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:21 +0000
Subject: [PATCH 11/59] fix: softmax activation exponentiated the opposite of
 its input

---
 src/decomon/layers/activations.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/decomon/layers/activations.py b/src/decomon/layers/activations.py
index e773a14..7dafdda 100644
--- a/src/decomon/layers/activations.py
+++ b/src/decomon/layers/activations.py
@@ -19,7 +19,6 @@ from decomon.layers.utils import exp, expand_dims, frac_pos, multiply, softplus_
 from decomon.types import Tensor
 from decomon.utils import (
     get_linear_hull_s_shape,
-    minus,
     relu_,
     sigmoid_prime,
     softsign_prime,
@@ -471,7 +470,7 @@ def softmax(
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     outputs_exp = exponential(
-        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        inputs,
         dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
         mode=mode,
-- 
2.43.0


From e9aab67ebd9ddc0f6cc64e3fe5ebbf75d81ca7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 12/59] fix: softplus relaxation used softsign, was not above
 softplus, and rejected the adaptative slope

---
 src/decomon/utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index a4d7944..6fc0dce 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -213,10 +213,9 @@ def get_linear_hull_tanh(upper: Tensor, lower: Tensor, slope: Union[str, Slope],
 
 def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slope], **kwargs: Any) -> list[Tensor]:
     slope = Slope(slope)
-    # in case upper=lower, this cases are
-    # considered with index_dead and index_linear
-    u_c = K.softsign(upper)
-    l_c = K.softsign(lower)
+    # upper bound: chord of the (convex) softplus
+    u_c = K.softplus(upper)
+    l_c = K.softplus(lower)
     alpha = (u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower))
     w_u = alpha
     b_u = -alpha * lower + l_c
@@ -224,6 +223,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     z_value = K.cast(0.0, dtype=upper.dtype)
     o_value = K.cast(1.0, dtype=upper.dtype)
 
+    # lower bound: same as relu, which is always below softplus
     if slope == Slope.V_SLOPE:
         # 1 if upper<=-lower else 0
         index_a = -K.clip(K.sign(upper + lower) - o_value, -o_value, z_value)
@@ -231,6 +231,9 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         index_b = o_value - index_a
         w_l = index_b
         b_l = z_value * b_u
+    elif slope == Slope.A_SLOPE:
+        w_l = K.clip(K.sign(w_u - 0.5), 0, 1)
+        b_l = z_value * b_u
     elif slope == Slope.Z_SLOPE:
         w_l = z_value * w_u
         b_l = z_value * b_u
@@ -245,9 +248,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
 
     index_dead = -K.clip(K.sign(upper) - o_value, -o_value, z_value)
 
-    w_u = (o_value - index_dead) * w_u
     w_l = (o_value - index_dead) * w_l
-    b_u = (o_value - index_dead) * b_u
     b_l = (o_value - index_dead) * b_l
 
     if "finetune" in kwargs:
@@ -257,7 +258,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         alpha_l = alpha_l[None]
 
         w_u = alpha_u * w_u
-        b_u = alpha_u * b_u + (o_value - alpha_u) * K.maximum(upper, z_value)
+        b_u = alpha_u * b_u + (o_value - alpha_u) * u_c
 
         w_l = alpha_l * w_l
         b_l = alpha_l * b_l + (o_value - alpha_l) * K.maximum(lower, z_value)
-- 
2.43.0


From b07a7d0666165059d96a912cbd47153e1d76a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 13/59] fix: abs computed relu(x) - relu(-x), i.e. x

---
 src/decomon/layers/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 47ec9a6..c22ca9b 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -902,15 +902,11 @@ def abs(
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
     inputs_0 = relu_(inputs, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-    inputs_1 = minus(
-        relu_(
-            minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
-            dc_decomp=dc_decomp,
-            perturbation_domain=perturbation_domain,
-            mode=mode,
-        ),
-        mode=mode,
+    inputs_1 = relu_(
+        minus(inputs, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain),
+        dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
+        mode=mode,
     )
 
     return add(inputs_0, inputs_1, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-- 
2.43.0


From c9d2ec1df73b5326829effe8d11a07e481e1f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 14/59] fix: split called keras.ops.split with an unknown
 keyword

---
 src/decomon/layers/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index c22ca9b..d061827 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -686,19 +686,19 @@ def split(
     empty_tensor_list = [empty_tensor] * n
 
     if ibp:
-        u_c_list = K.split(u_c, num_or_size_splits=n, axis=axis)
-        l_c_list = K.split(l_c, num_or_size_splits=n, axis=axis)
+        u_c_list = K.split(u_c, n, axis=axis)
+        l_c_list = K.split(l_c, n, axis=axis)
     else:
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        b_u_list = K.split(b_u, num_or_size_splits=n, axis=axis)
-        b_l_list = K.split(b_l, num_or_size_splits=n, axis=axis)
+        b_u_list = K.split(b_u, n, axis=axis)
+        b_l_list = K.split(b_l, n, axis=axis)
 
         if axis != -1:
             axis += 1
-        w_u_list = K.split(w_u, num_or_size_splits=n, axis=axis)
-        w_l_list = K.split(w_l, num_or_size_splits=n, axis=axis)
+        w_u_list = K.split(w_u, n, axis=axis)
+        w_l_list = K.split(w_l, n, axis=axis)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
             empty_tensor_list,
-- 
2.43.0


From 71153a3efc58fedd99cb97681c6ffbec0c34eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 15/59] fix: constant bounds of inputs to merge were aliased in
 affine mode

---
 src/decomon/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/core.py b/src/decomon/core.py
index 74790f4..5f03f13 100644
--- a/src/decomon/core.py
+++ b/src/decomon/core.py
@@ -391,7 +391,7 @@ class InputsOutputsSpec:
             inputs_b_u = inputsformode[2::nb_tensors_by_input]
             inputs_w_l = inputsformode[3::nb_tensors_by_input]
             inputs_b_l = inputsformode[4::nb_tensors_by_input]
-            inputs_u_c, inputs_l_c = nonelike_tensor_list, nonelike_tensor_list
+            inputs_u_c, inputs_l_c = [nonelike_tensor] * nb_inputs, [nonelike_tensor] * nb_inputs
         else:
             raise ValueError(f"Unknown mode {self.mode}")
 
-- 
2.43.0


From 9f174e525be8ee5930fe3160da3be6b0ae784dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 16/59] fix: patch filters of max pooling with non-square pool
 sizes

---
 src/decomon/layers/maxpooling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index c6998c2..11a0b23 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -87,7 +87,7 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         )
         for i in range(self.pool_size[0]):
             for j in range(self.pool_size[1]):
-                self.filters[i, j, 0, i * self.pool_size[0] + j] = 1
+                self.filters[i, j, 0, i * self.pool_size[1] + j] = 1
 
         self.filters_w = self.filters[None]
         self.strides_w = (1,) + self.strides
-- 
2.43.0


From 6d4b83e355ea0f04a76e3097ded15acb319d5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 17/59] fix: backward activations on tensors that are not flat

---
 src/decomon/backward_layers/activations.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decomon/backward_layers/activations.py b/src/decomon/backward_layers/activations.py
index 153f1cd..b5d5d46 100644
--- a/src/decomon/backward_layers/activations.py
+++ b/src/decomon/backward_layers/activations.py
@@ -80,9 +80,9 @@ def backward_relu(
         inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
         x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
         input_shape = inputs_outputs_spec.get_kerasinputshape(inputs)
-        bounds = get_linear_hull_relu(upper=u_c, lower=l_c, slope=slope, **kwargs)
         dim = int(np.prod(input_shape[1:]))  # type: ignore
-        return [K.reshape(elem, (-1, dim)) for elem in bounds]
+        u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
+        return get_linear_hull_relu(upper=u_c, lower=l_c, slope=slope, **kwargs)
 
     raise NotImplementedError()
 
@@ -115,6 +115,8 @@ def backward_sigmoid(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+    dim = int(np.prod(inputs_outputs_spec.get_kerasinputshape(inputs)[1:]))  # type: ignore
+    u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
     return get_linear_hull_sigmoid(u_c, l_c, slope=slope, **kwargs)
 
 
@@ -146,6 +148,8 @@ def backward_tanh(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+    dim = int(np.prod(inputs_outputs_spec.get_kerasinputshape(inputs)[1:]))  # type: ignore
+    u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
     return get_linear_hull_tanh(u_c, l_c, slope=slope, **kwargs)
 
 
@@ -322,6 +326,8 @@ def backward_softplus(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+    dim = int(np.prod(inputs_outputs_spec.get_kerasinputshape(inputs)[1:]))  # type: ignore
+    u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
     return get_linear_softplus_hull(u_c, l_c, slope=slope, **kwargs)
 
 
-- 
2.43.0


From 4ecea3ab22decc3716f92be0a287b335c631e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:37 +0000
Subject: [PATCH 18/59] fix: crown in constant mode with ball domains
 concretised a box with the ball

---
 src/decomon/models/crown.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decomon/models/crown.py b/src/decomon/models/crown.py
index 6abbd7d..3e2a8d5 100644
--- a/src/decomon/models/crown.py
+++ b/src/decomon/models/crown.py
@@ -5,7 +5,7 @@ import keras.ops as K
 from keras.layers import InputSpec, Layer
 from keras.src.layers.merging.dot import batch_dot
 
-from decomon.core import ForwardMode, PerturbationDomain
+from decomon.core import BoxDomain, ForwardMode, PerturbationDomain
 from decomon.keras_utils import BatchedDiagLike
 from decomon.types import BackendTensor
 
@@ -69,15 +69,19 @@ class Convert2BackwardMode(Layer):
         w_u_out, b_u_out, w_l_out, b_l_out = backward_bounds
         empty_tensor = K.convert_to_tensor([])
 
+        perturbation_domain = self.perturbation_domain
         if self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
             x_0 = inputs_wo_backward_bounds[0]
         else:
             u_c, l_c = inputs_wo_backward_bounds
             x_0 = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
+            if not isinstance(perturbation_domain, BoxDomain):
+                # the model input is only known by its constant bounds
+                perturbation_domain = BoxDomain()
 
         if self.mode in [ForwardMode.IBP, ForwardMode.HYBRID]:
-            u_c_out = self.perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
-            l_c_out = self.perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
+            u_c_out = perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
+            l_c_out = perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
-- 
2.43.0


From 6940f486f7590c8640ada170bdb50e15b29249c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:37 +0000
Subject: [PATCH 19/59] fix: affine bounds deduced from constant ones are
 expressed w.r.t. the model input

---
 src/decomon/models/convert.py | 4 ++++
 src/decomon/models/utils.py   | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 2fc6644..37b7910 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -242,6 +242,10 @@ def clone(
         final_affine=final_affine,
     )
 
+    if final_affine and not affine:
+        # affine bounds deduced from constant ones are expressed w.r.t. the model input
+        output[0] = z_tensor
+
     back_bounds_from_inputs = [elem for elem in back_bounds if isinstance(elem._keras_history.operation, InputLayer)]
 
     return DecomonModel(
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index f0ecd6a..d730c7d 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -321,7 +321,11 @@ class Convert2Mode(Layer):
 
         if compute_dummy_affine:
             x = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
-            w = K.zeros_like(BatchedIdentityLike()(l_c))
+            if self.input_dim > 0:
+                # weights w.r.t. the model input
+                w = K.repeat(K.zeros_like(K.expand_dims(l_c, 1)), self.input_dim, axis=1)
+            else:
+                w = K.zeros_like(BatchedIdentityLike()(l_c))
             w_u = w
             b_u = u_c
             w_l = w
-- 
2.43.0


From c94c3f52bfa4d66038d40ee2ea704e4b9c786b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 20/59] fix: backward layers on flattened inputs (crown) use
 the input shape of the layer

---
 .../backward_layers/backward_layers.py        | 16 +++++++-------
 src/decomon/backward_layers/core.py           | 21 +++++++++++++++++++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 38fbcb3..90e5a6b 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -70,7 +70,7 @@ class BackwardDense(BackwardLayer):
             inputs = self.layer.input
 
         y = inputs[-1]
-        flatten_inputdim_wo_last_dim = int(np.prod(y.shape[1:-1]))
+        flatten_inputdim_wo_last_dim = int(np.prod(self.get_keras_input_shape_wo_batchsize(y)[:-1]))
         flatten_outputdim = flatten_inputdim_wo_last_dim * self.layer.units
         batchsize = y.shape[0]
 
@@ -454,11 +454,11 @@ class BackwardFlatten(BackwardLayer):
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
-        y = inputs[-1]
-        if self.layer.data_format == "channels_first" and len(y.shape) > 2:
+        input_shape = self.get_keras_input_shape_wo_batchsize(inputs[-1])
+        if self.layer.data_format == "channels_first" and len(input_shape) > 1:
             # Flatten switches to channels-last format: the input weights must stay in channels-first format
             n_out = w_u_out.shape[-1]
-            shape = list(y.shape[2:]) + [y.shape[1]]
+            shape = list(input_shape[1:]) + [input_shape[0]]
             axes = (0, len(shape), *range(1, len(shape)), len(shape) + 1)
             w_u_out = K.reshape(K.transpose(K.reshape(w_u_out, [-1] + shape + [n_out]), axes), (-1, n_out, n_out))
             w_l_out = K.reshape(K.transpose(K.reshape(w_l_out, [-1] + shape + [n_out]), axes), (-1, n_out, n_out))
@@ -517,16 +517,16 @@ class BackwardPermute(BackwardLayer):
         w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
 
         # w_u_out (None, n_in, n_out)
-        y = inputs[-1]
+        input_shape = self.get_keras_input_shape_wo_batchsize(inputs[-1])
         n_dim = w_u_out.shape[1]
         n_out = w_u_out.shape[-1]
         # weights are the identity on the permuted activations: rows to be permuted back
-        shape = [y.shape[dim] for dim in self.dims]
+        shape = [input_shape[dim - 1] for dim in self.dims]
 
         w_u_out = K.reshape(w_u_out, [-1] + shape + [n_out])
         w_l_out = K.reshape(w_l_out, [-1] + shape + [n_out])
 
-        dims = [0] + list(self.dims) + [len(y.shape)]
+        dims = [0] + list(self.dims) + [len(input_shape) + 1]
         dims = list(np.argsort(dims))
         w_u_out = K.reshape(K.transpose(w_u_out, dims), (-1, n_dim, n_out))
         w_l_out = K.reshape(K.transpose(w_l_out, dims), (-1, n_dim, n_out))
@@ -584,7 +584,7 @@ class BackwardBatchNormalization(BackwardLayer):
         self.op_flat = Flatten()
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        y = inputs[-1]
+        y = K.reshape(inputs[-1], (-1,) + self.get_keras_input_shape_wo_batchsize(inputs[-1]))
         n_out = int(np.prod(y.shape[1:]))
 
         n_dim = len(y.shape)
diff --git a/src/decomon/backward_layers/core.py b/src/decomon/backward_layers/core.py
index 99baf27..917b3d9 100644
--- a/src/decomon/backward_layers/core.py
+++ b/src/decomon/backward_layers/core.py
@@ -70,6 +70,27 @@ class BackwardLayer(ABC, Wrapper):
         )
         return config
 
+    def get_keras_input_shape_wo_batchsize(self, y: BackendTensor) -> tuple[int, ...]:
+        """Get the shape of the input of the original layer, without batchsize.
+
+        In crown, the bounds on the activations are flattened, so that the shape has to be retrieved from the layer.
+
+        Args:
+            y: tensor representing the input of the original layer, potentially flattened
+
+        Returns:
+
+        """
+        if len(y.shape) > 2 or not self.layer._inbound_nodes:
+            return tuple(y.shape[1:])
+        if isinstance(self.layer, DecomonLayer):
+            keras_input_shape = self.inputs_outputs_spec.get_kerasinputshape_from_inputshapesformode(
+                [inp.shape for inp in self.layer.input]
+            )
+        else:
+            keras_input_shape = self.layer.input.shape
+        return tuple(keras_input_shape[1:])
+
     @abstractmethod
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         """
-- 
2.43.0


From 617f4f8a5aa8a5b1303316e7636639fda6858c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 21/59] fix: bounds of every output of the network, not only
 the first one

---
 src/decomon/models/backward_cloning.py | 63 +++++++++++++-------------
 src/decomon/models/convert.py          | 17 +++++--
 src/decomon/models/forward_cloning.py  | 11 ++---
 src/decomon/models/utils.py            | 37 +++++++++++++++
 4 files changed, 83 insertions(+), 45 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 89137c7..23f072d 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -27,10 +27,11 @@ from decomon.layers.utils import softmax_to_linear as softmax_2_linear
 from decomon.models.crown import Convert2BackwardMode, Fuse, MergeWithPrevious
 from decomon.models.forward_cloning import OutputMapDict
 from decomon.models.utils import (
-    Convert2Mode,
+    convert_outputs_to_mode,
     ensure_functional_model,
     get_depth_dict,
     get_input_dim,
+    get_output_nodes,
 )
 from decomon.types import BackendTensor, Tensor
 
@@ -366,35 +367,30 @@ def crown_model(
     # print('step1', time_1-zero_time)
     # retrieve output nodes
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
     fuse_layer = None
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                # compute with crown
-                output_crown, fuse_layer = crown_(
-                    node=node,
-                    ibp=ibp,
-                    affine=affine,
-                    input_map=input_map,
-                    layer_fn=layer_fn,
-                    backward_bounds=back_bounds,
-                    backward_map=backward_map,
-                    joint=joint,
-                    fuse=fuse,
-                    perturbation_domain=perturbation_domain,
-                    output_map=crown_map,
-                    fuse_layer=fuse_layer,
-                )
-                # time_2 = time.process_time()
-                # print('step2', time_2-time_1)
-                if fuse:
-                    # import pdb; pdb.set_trace()
-                    output += to_list(set_mode_layer(input_tensors + output_crown))
-                else:
-                    output = output_crown
+    for node in get_output_nodes(model):
+        # compute with crown
+        output_crown, fuse_layer = crown_(
+            node=node,
+            ibp=ibp,
+            affine=affine,
+            input_map=input_map,
+            layer_fn=layer_fn,
+            backward_bounds=back_bounds,
+            backward_map=backward_map,
+            joint=joint,
+            fuse=fuse,
+            perturbation_domain=perturbation_domain,
+            output_map=crown_map,
+            fuse_layer=fuse_layer,
+        )
+        # time_2 = time.process_time()
+        # print('step2', time_2-time_1)
+        if fuse:
+            # import pdb; pdb.set_trace()
+            output += to_list(set_mode_layer(input_tensors + output_crown))
+        else:
+            output = output_crown
 
     return input_tensors, output, backward_map, None
 
@@ -451,13 +447,16 @@ def convert_backward(
     input_tensors, output, backward_map, toto = result
     mode_from = get_mode(ibp, affine)
     mode_to = get_mode(final_ibp, final_affine)
-    output = Convert2Mode(
+    outputs = convert_outputs_to_mode(
+        output,
         mode_from=mode_from,
         mode_to=mode_to,
         perturbation_domain=perturbation_domain,
         input_dim=input_dim,
-    )(output)
+    )
     if mode_to != mode_from and mode_from == ForwardMode.IBP:
         f_input = Lambda(lambda z: Concatenate(1)([z[0][:, None], z[1][:, None]]))
-        output[0] = f_input([input_tensors[1], input_tensors[0]])
+        for output in outputs:
+            output[0] = f_input([input_tensors[1], input_tensors[0]])
+    output = [tensor for output in outputs for tensor in output]
     return input_tensors, output, backward_map, toto
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 37b7910..b8f341e 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -17,10 +17,10 @@ from decomon.models.forward_cloning import (
 )
 from decomon.models.models import DecomonModel
 from decomon.models.utils import (
-    Convert2Mode,
     ConvertMethod,
     FeedDirection,
     check_model2convert_inputs,
+    convert_outputs_to_mode,
     ensure_functional_model,
     get_direction,
     get_ibp_affine_from_method,
@@ -159,9 +159,14 @@ def convert(
         # check final_ibp and final_affine
         mode_from = get_mode(ibp, affine)
         mode_to = get_mode(final_ibp, final_affine)
-        output = Convert2Mode(
-            mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
-        )(output)
+        outputs = convert_outputs_to_mode(
+            output,
+            mode_from=mode_from,
+            mode_to=mode_to,
+            perturbation_domain=perturbation_domain,
+            input_dim=input_dim,
+        )
+        output = [tensor for output in outputs for tensor in output]
 
     # build decomon model
     return input_tensors, output, layer_map, forward_map
@@ -244,7 +249,9 @@ def clone(
 
     if final_affine and not affine:
         # affine bounds deduced from constant ones are expressed w.r.t. the model input
-        output[0] = z_tensor
+        nb_tensors = len(output) // len(model.outputs)
+        for i in range(0, len(output), nb_tensors):
+            output[i] = z_tensor
 
     back_bounds_from_inputs = [elem for elem in back_bounds if isinstance(elem._keras_history.operation, InputLayer)]
 
diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index 2c12946..a62d916 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -11,7 +11,6 @@ from typing import Any, Optional, Union
 import keras
 from keras.layers import InputLayer, Layer
 from keras.models import Model
-from keras.src.utils.python_utils import to_list
 
 from decomon.core import BoxDomain, PerturbationDomain, Slope
 from decomon.layers.convert import to_decomon
@@ -22,6 +21,7 @@ from decomon.models.utils import (
     get_depth_dict,
     get_inner_layers,
     get_input_dim,
+    get_output_nodes,
     prepare_inputs_for_layer,
     wrap_outputs_from_layer_in_list,
 )
@@ -217,12 +217,7 @@ def convert_forward_functional_model(
             output_map[id(node)] = wrap_outputs_from_layer_in_list(output)
 
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                output += output_map[id(node)]
+    for node in get_output_nodes(model):
+        output += output_map[id(node)]
 
     return input_tensors, output, layer_map, output_map, layer2layer_map
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index d730c7d..f527e8f 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -17,6 +17,7 @@ from keras.layers import (
 )
 from keras.src import Functional
 from keras.src.ops.node import Node
+from keras.src.utils.python_utils import to_list
 
 from decomon.core import (
     BallDomain,
@@ -272,6 +273,12 @@ def get_depth_dict(model: Model) -> dict[int, list[Node]]:
     return dico_nodes
 
 
+def get_output_nodes(model: Model) -> list[Node]:
+    """Get the nodes producing the outputs of the model, in the order of the outputs."""
+    histories = [tensor._keras_history for tensor in to_list(model.output)]
+    return [history.operation._inbound_nodes[history.node_index] for history in histories]
+
+
 def get_inner_layers(model: Model) -> int:
     count = 0
     for layer in model.layers:
@@ -359,6 +366,36 @@ class Convert2Mode(Layer):
         return config
 
 
+def convert_outputs_to_mode(
+    outputs: list[keras.KerasTensor],
+    mode_from: Union[str, ForwardMode],
+    mode_to: Union[str, ForwardMode],
+    perturbation_domain: PerturbationDomain,
+    input_dim: int = -1,
+) -> list[list[keras.KerasTensor]]:
+    """Convert the bounds of each output of the model from one mode to another.
+
+    Args:
+        outputs: concatenated bounds of the outputs of the model, in mode `mode_from`
+        mode_from:
+        mode_to:
+        perturbation_domain:
+        input_dim:
+
+    Returns:
+        bounds in mode `mode_to`, for each output of the model
+
+    """
+    convert_layer = Convert2Mode(
+        mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
+    )
+    nb_tensors = convert_layer.inputs_outputs_spec_from.nb_tensors
+    return [
+        wrap_outputs_from_layer_in_list(convert_layer(outputs[i : i + nb_tensors]))
+        for i in range(0, len(outputs), nb_tensors)
+    ]
+
+
 def ensure_functional_model(model: Model) -> Functional:
     if isinstance(model, Functional):
         return model
-- 
2.43.0


From fd93492d211e258a5567b21e915ad770825cb8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 22/59] fix: crown on networks with layers shared by several
 nodes

---
 src/decomon/models/backward_cloning.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 23f072d..11397a1 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -71,12 +71,14 @@ def retrieve_layer(
     backward_map: dict[int, BackwardLayer],
     joint: bool = True,
 ) -> BackwardLayer:
-    if id(node) in backward_map:
-        backward_layer = backward_map[id(node)]
+    # a layer shared by several nodes is converted only once
+    layer = node.operation
+    if id(layer) in backward_map:
+        backward_layer = backward_map[id(layer)]
     else:
-        backward_layer = layer_fn(node.operation)
+        backward_layer = layer_fn(layer)
         if joint:
-            backward_map[id(node)] = backward_layer
+            backward_map[id(layer)] = backward_layer
     return backward_layer
 
 
-- 
2.43.0


From 426f85c59162e5f3973724525eb77371d55be4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:30 +0000
Subject: [PATCH 23/59] fix: BatchNormalization weights were not shared with
 the converted layer

---
 src/decomon/layers/decomon_layers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 60f68ea..63e85b7 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -813,9 +813,21 @@ class DecomonBatchNormalization(DecomonLayer, BatchNormalization):
         )
 
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
+        shared_weights = {name: getattr(self, name) for name in self.keras_weights_names if hasattr(self, name)}
         super().build(input_shape)
+        # overwrite the newly generated weights by the shared ones and untrack them
+        for name, weight in shared_weights.items():
+            w_to_drop = getattr(self, name)
+            setattr(self, name, weight)
+            self._tracker.untrack(w_to_drop)
         self.input_spec = [InputSpec(min_ndim=len(elem)) for elem in input_shape]
 
+    def share_weights(self, layer: Layer) -> None:
+        if not self.shared:
+            return
+        for name in self.keras_weights_names:
+            setattr(self, name, getattr(layer, name))
+
     def call(self, inputs: list[BackendTensor], training: bool = False, **kwargs: Any) -> list[BackendTensor]:
         z_value = K.cast(0.0, self.dtype)
 
-- 
2.43.0


From a7d5d34a0be0ecd5c1a89b529a67736f2f377908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 24/59] fix: conversion renamed the layers of the user's
 network and linearized its last softmax

---
 src/decomon/models/convert.py | 17 +++++++++++++++++
 src/decomon/models/utils.py   |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index b8f341e..3746ef4 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -1,3 +1,4 @@
+import functools
 from collections.abc import Callable
 from typing import Any, Optional, Union
 
@@ -77,7 +78,23 @@ def preprocess_keras_model(
     return _clone_keras_model(model=model, layer_fn=preprocess_layer)
 
 
+def preserve_layers_names(convert_fn: Callable[..., Any]) -> Callable[..., Any]:
+    """Restore after conversion the names of the layers of the model, since some are renamed when preprocessing it."""
+
+    @functools.wraps(convert_fn)
+    def wrapper(model: Model, *args: Any, **kwargs: Any) -> Any:
+        names = [(layer, layer.name) for layer in model._flatten_layers()]
+        try:
+            return convert_fn(model, *args, **kwargs)
+        finally:
+            for layer, name in names:
+                layer.name = name
+
+    return wrapper
+
+
 # create status
+@preserve_layers_names
 def convert(
     model: Model,
     input_tensors: list[keras.KerasTensor],
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index f527e8f..0858907 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -220,6 +220,9 @@ def split_activation(layer: Layer) -> list[Layer]:
 
 
 def preprocess_layer(layer: Layer) -> list[Layer]:
+    if isinstance(layer, Activation) and layer.get_config()["activation"] == "softmax":
+        # could be linearized during the conversion: work on a copy
+        return [layer.__class__.from_config(layer.get_config())]
     return split_activation(layer)
 
 
-- 
2.43.0


From 0971eaa0673ac5325f1ffe168f7ee47cfb17011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 25/59] fix: refine_boxes lost the upper corner of boxes with
 more than one dimension

---
 src/decomon/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 2a5129b..38d6ae1 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -763,7 +763,7 @@ def refine_boxes(
     output_dim = np.prod(shape)
     if len(shape) > 1:
         x_min = np.reshape(x_min, (-1, output_dim))
-        x_max = np.reshape(x_min, (-1, output_dim))
+        x_max = np.reshape(x_max, (-1, output_dim))
     # x_min (None, n)
     # x_max (None, n)
     n = x_min.shape[-1]
-- 
2.43.0


From 9260c6c7ecdff580b2a9309e56327fe12f48335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 26/59] fix: get_range_box mixed the outputs of the network
 when splitting boxes

---
 src/decomon/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 38d6ae1..df2b91a 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -589,8 +589,8 @@ def get_range_box(
             l_out = np.reshape(l_out, [-1] + shape)
 
     if n_split > 1:
-        u_out = np.max(np.reshape(u_out, (-1, n_split)), -1)
-        l_out = np.min(np.reshape(l_out, (-1, n_split)), -1)
+        u_out = np.max(np.reshape(u_out, (-1, n_split) + u_out.shape[1:]), 1)
+        l_out = np.min(np.reshape(l_out, (-1, n_split) + l_out.shape[1:]), 1)
     return u_out, l_out
 
 
-- 
2.43.0


From a098057cedb86d717aa272663ba2e495d7ceb489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 27/59] fix: check_adv_box ignored the target labels

---
 src/decomon/wrapper.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index df2b91a..49b8e41 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -341,11 +341,7 @@ def check_adv_box(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
@@ -415,7 +411,7 @@ def check_adv_box(
         else:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
 
-        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels)
+        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels, target_labels)
 
 
 #### FORMAL BOUNDS ######
-- 
2.43.0


From fbb3daeea88b65da4bd1989e904ca8146c7d31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 28/59] fix: get_range_noise used a negative radius instead of
 the domain of the model

---
 src/decomon/wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 49b8e41..acbf695 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -679,6 +679,9 @@ def get_range_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
+    eps = decomon_model.perturbation_domain.eps
+    p = decomon_model.perturbation_domain.p
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
     input_dim = np.prod(input_shape)
-- 
2.43.0


From e5b21089ed77799be736fde93f6d64e9210740ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 29/59] fix: get_adv_noise failed on keras and affine models,
 and was unsound in 2-norm

---
 src/decomon/wrapper.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index acbf695..6726407 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -946,7 +946,8 @@ def get_adv_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
-    eps = model.perturbation_domain.eps
+    eps = decomon_model.perturbation_domain.eps
+    p = decomon_model.perturbation_domain.p
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
@@ -965,7 +966,7 @@ def get_adv_noise(
 
     if target_labels is not None:
         if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
+            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + target_labels
         target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
 
     if batch_size > 0:
@@ -978,11 +979,7 @@ def get_adv_noise(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
@@ -1066,7 +1063,7 @@ def get_adv_noise(
             upper_0 = np.sum(w_u_f * z_tensor[:, :, None, None], 1) + b_u_f
             # compute dual norm
             if p == 2:
-                upper_1 = eps * np.sum(w_u_f**2, 1)
+                upper_1 = eps * np.sqrt(np.sum(w_u_f**2, 1))
             elif p == 1:
                 upper_1 = eps * np.max(np.abs(w_u_f), 1)
             elif p == np.inf:
@@ -1084,9 +1081,9 @@ def get_adv_noise(
 
         if ibp and affine:
             z, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
-        if not ibp and affine:
+        elif not ibp and affine:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
-        if ibp and not affine:
+        elif ibp and not affine:
             u_c, l_c = output[:2]
         else:
             raise NotImplementedError("not ibp and not affine not implemented")
-- 
2.43.0


From 7917edcc3d13c33c7217e89dc330203ff73645c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 30/59] fix: refine_box on several boxes, random splits, or
 ranges

---
 src/decomon/wrapper.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 6726407..4b2ae4f 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -858,6 +858,9 @@ def refine_box(
             if func.__name__ == get_lower_box.__name__:
                 return results.reshape((n_x, n_split, -1))
 
+            if func.__name__ == get_range_box.__name__:
+                return [result.reshape((n_x, n_split, -1)) for result in results]
+
         if func.__name__ in [elem.__name__ for elem in [get_adv_box, check_adv_box]]:
             results = func(
                 decomon_model,
@@ -880,7 +883,7 @@ def refine_box(
                 i = int(np.argmax(np.max(index_max[n_i, :count], -1)))
                 j = int(np.argmax(index_max[n_i, i]))
             else:
-                i = np.random.randint(count - 1)
+                i = np.random.randint(count)
                 j = np.random.randint(input_dim)
 
             z_min = x_min_split[n_i, i] + 0.0
@@ -900,7 +903,15 @@ def refine_box(
     x_min_split = x_min_split.reshape((-1, input_dim))
     x_max_split = x_max_split.reshape((-1, input_dim))
 
+    # labels of the sub-boxes
+    if source_labels is not None:
+        source_labels = np.repeat(prepare_labels(source_labels, n_x), n_split, axis=0)
+    if target_labels is not None:
+        target_labels = np.repeat(prepare_labels(target_labels, n_x), n_split, axis=0)
+
     results = priv_func(x_min_split, x_max_split)
+    if func.__name__ == get_range_box.__name__:
+        return np.max(results[0], 1), np.min(results[1], 1)
     if maximize:
         return np.max(results, 1)
     else:
-- 
2.43.0


From f2b9835d1a4dd7f441b843e3db6eb6e91ed21dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 31/59] fix: labels given as integers were read as masks

---
 src/decomon/wrapper.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 4b2ae4f..82c9fc5 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -27,14 +27,18 @@ def _get_dual_ord(p: float) -> float:
         raise ValueError(f"p must be equal to 1, 2, or np.inf, unknown value {p}.")
 
 
-def prepare_labels(labels: LabelType, n_batch: int) -> np.typing.NDArray[np.int_]:
+def prepare_labels(labels: LabelType, n_batch: int, n_out: Optional[int] = None) -> np.typing.NDArray[np.int_]:
     if isinstance(labels, (int, np.int_)):
         labels = np.zeros((n_batch, 1), dtype=np.int_) + labels
     elif not isinstance(labels, np.ndarray):
         labels = np.array(labels).reshape((n_batch, -1))
     else:
         labels = labels.reshape((n_batch, -1))
-    return labels.astype("int_")
+    labels = labels.astype("int_")
+    if n_out is not None and labels.shape[-1] != n_out:
+        # indices of the labels => mask on the outputs of the network
+        labels = np.max(np.eye(n_out, dtype="int_")[labels], axis=1)
+    return labels
 
 
 ##### ADVERSARIAL ROBUSTTNESS #####
@@ -101,9 +105,10 @@ def get_adv_box(
 
     z = np.concatenate([x_min, x_max], 1)
 
-    source_labels = prepare_labels(source_labels, n_batch)
+    n_out = int(np.prod(decomon_model.outputs[-1].shape[1:]))
+    source_labels = prepare_labels(source_labels, n_batch, n_out)
     if target_labels is not None:
-        target_labels = prepare_labels(target_labels, n_batch)
+        target_labels = prepare_labels(target_labels, n_batch, n_out)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -311,18 +316,11 @@ def check_adv_box(
     x_max = x_max.reshape((-1, 1, input_dim))
 
     z = np.concatenate([x_min, x_max], 1)
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1)) + source_labels
-
-    if isinstance(source_labels, list):
-        source_labels = np.array(source_labels).reshape((n_batch, -1))
-
-    source_labels = source_labels.reshape((n_batch, -1))
-    source_labels = source_labels.astype(np.int_)
 
+    n_out = int(np.prod(decomon_model.outputs[-1].shape[1:]))
+    source_labels = prepare_labels(source_labels, n_batch, n_out)
     if target_labels is not None:
-        target_labels = target_labels.reshape((n_batch, -1))
-        target_labels = target_labels.astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, n_out)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -971,14 +969,10 @@ def get_adv_noise(
     x_reshaped = x + 0 * x
     x_reshaped = x_reshaped.reshape([-1] + input_shape)
 
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
-    source_labels = np.array(source_labels).reshape((n_batch, -1)).astype(np.int_)
-
+    n_out = int(np.prod(decomon_model.outputs[-1].shape[1:]))
+    source_labels = prepare_labels(source_labels, n_batch, n_out)
     if target_labels is not None:
-        if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + target_labels
-        target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, n_out)
 
     if batch_size > 0:
         # split
-- 
2.43.0


From 48ce7a8f27434fd384df6444c38c9acadffdffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 32/59] fix: adversarial scores of networks whose outputs are
 matrices

---
 src/decomon/wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 82c9fc5..ea42ace 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -178,7 +178,7 @@ def get_adv_box(
             if backward:
                 return np.max(u_c, -1)
             else:
-                upper = u_c[:, :, None] - l_c[:, None]
+                upper = np.reshape(u_c, (-1, shape, 1)) - np.reshape(l_c, (-1, 1, shape))
             const = upper.max() - upper.min()
             discard_mask_s = t_tensor_reshaped[:, :, None] * s_tensor_reshaped[:, None, :]
 
@@ -360,9 +360,9 @@ def check_adv_box(
 
         if not affine:
             # translate  into affine information
-            u_c = output[0]
+            u_c, l_c = (np.reshape(out, (len(z), -1)) for out in output[:2])
             w_u = 0 * u_c[:, None] + np.zeros((1, input_dim, 1))
-            output = [z, w_u, u_c, w_u, output[-1]]
+            output = [z, w_u, u_c, w_u, l_c]
             ibp = False
             affine = True
 
@@ -1025,7 +1025,7 @@ def get_adv_noise(
             s_tensor_reshaped = np.reshape(source_tensor, (-1, shape))
 
             # add penalties on biases
-            upper = u_c[:, :, None] - l_c[:, None]
+            upper = np.reshape(u_c, (-1, shape, 1)) - np.reshape(l_c, (-1, 1, shape))
             const = upper.max() - upper.min()
             discard_mask_s = t_tensor_reshaped[:, :, None] * s_tensor_reshaped[:, None, :]
 
-- 
2.43.0


From 0c9eacc1294bf9a5ff9f0102db2616ee038e8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 33/59] fix: get_adv_loss applied a softmax to hybrid models
 without being asked

---
 src/decomon/metrics/loss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fce6797..2458bc8 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -309,9 +309,10 @@ def get_adv_loss(
             u_c = y_pred[:, -1, n_comp : n_comp + n_out]
             l_c = y_pred[:, -1, n_comp + n_out :]
 
-            _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
-                [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
-            )
+            if softmax:
+                _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
+                    [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
+                )
 
         else:
             raise ValueError(f"Unknown mode {mode}")
-- 
2.43.0


From 528fb30c3b146ea3815baf035eedbc5b5ccc3c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 34/59] fix: crossentropy models ignored the perturbation
 domain of the converted model

---
 src/decomon/metrics/loss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index 2458bc8..9286736 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -603,7 +603,9 @@ def build_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, backward=model.backward_bounds)
+    layer_fusion = DecomonLossFusion(
+        mode=mode, perturbation_domain=perturbation_domain, backward=model.backward_bounds
+    )
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
@@ -627,7 +629,7 @@ def build_asymptotic_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, asymptotic=True)
+    layer_fusion = DecomonLossFusion(mode=mode, perturbation_domain=perturbation_domain, asymptotic=True)
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
-- 
2.43.0


From 4b1af3ebda096d4c138178a9b779d2e32067447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 35/59] fix: the formal metrics could not be built on converted
 models

---
 src/decomon/metrics/metric.py | 41 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index 45b600d..4cdf2fe 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -239,6 +239,15 @@ class AdversarialScore(AdversarialCheck):
         return adv_score
 
 
+def _get_metric_inputs(decomon_model: DecomonModel, y_out: keras.KerasTensor) -> list[keras.KerasTensor]:
+    """Inputs expected by the metric layers: labels, input of the model, bounds, labels"""
+    bounds = list(decomon_model.outputs)
+    if decomon_model.affine:
+        # the affine bounds come with the input they are expressed with
+        bounds = bounds[1:]
+    return [y_out, decomon_model.inputs[0]] + bounds + [y_out]
+
+
 def build_formal_adv_check_model(decomon_model: DecomonModel) -> keras.Model:
     """automatic design on a Keras  model which predicts a certificate of adversarial robustness
 
@@ -251,13 +260,11 @@ def build_formal_adv_check_model(decomon_model: DecomonModel) -> keras.Model:
     # check type and that backward pass is available
 
     perturbation_domain = decomon_model.perturbation_domain
-    layer = AdversarialCheck(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
-    y_out = Input(n_out)
+    layer = AdversarialCheck(decomon_model.ibp, decomon_model.affine, MetricMode.FORWARD, perturbation_domain)
+    input = list(decomon_model.inputs)
+    y_out = Input(decomon_model.outputs[-1].shape[1:])
 
-    adv_score = layer(output + [y_out])
+    adv_score = layer(_get_metric_inputs(decomon_model, y_out))
     adv_model = Model(input + [y_out], adv_score)
     return adv_model
 
@@ -274,13 +281,11 @@ def build_formal_adv_model(decomon_model: DecomonModel) -> keras.Model:
     # check type and that backward pass is available
 
     perturbation_domain = decomon_model.perturbation_domain
-    layer = AdversarialScore(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
-    y_out = Input(n_out)
+    layer = AdversarialScore(decomon_model.ibp, decomon_model.affine, MetricMode.FORWARD, perturbation_domain)
+    input = list(decomon_model.inputs)
+    y_out = Input(decomon_model.outputs[-1].shape[1:])
 
-    adv_score = layer(output + [y_out])
+    adv_score = layer(_get_metric_inputs(decomon_model, y_out))
     adv_model = Model(input + [y_out], adv_score)
     return adv_model
 
@@ -338,7 +343,7 @@ class UpperScore(MetricLayer):
             upper_affine = self.linear_upper(z_tensor, y_tensor, w_u_f, b_u_f)
             upper_score = K.minimum(upper_ibp, upper_affine)
         elif not self.ibp and self.affine:
-            _, _, w_u_f, b_u_f = inputs[:6]
+            _, _, w_u_f, b_u_f = inputs[:4]
             upper_score = self.linear_upper(z_tensor, y_tensor, w_u_f, b_u_f)
         elif self.ibp and not self.affine:
             _, _, u_c, l_c = inputs[:4]
@@ -366,13 +371,11 @@ def build_formal_upper_model(decomon_model: DecomonModel) -> keras.Model:
     # check type and that backward pass is available
 
     perturbation_domain = decomon_model.perturbation_domain
-    layer = UpperScore(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
-    y_out = Input(n_out)
+    layer = UpperScore(decomon_model.ibp, decomon_model.affine, MetricMode.FORWARD, perturbation_domain)
+    input = list(decomon_model.inputs)
+    y_out = Input(decomon_model.outputs[-1].shape[1:])
 
-    upper_score = layer(output + [y_out])
+    upper_score = layer(_get_metric_inputs(decomon_model, y_out))
     upper_model = Model(input + [y_out], upper_score)
     return upper_model
 
-- 
2.43.0


From 8eb9992fc0130d78cfa9f2582c73b7c2f1db5ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 36/59] fix: adversarial scores of constant bounds counted a
 null source for the outputs which are not sources

---
 src/decomon/metrics/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index 4cdf2fe..f4458ea 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -395,7 +395,7 @@ def _get_ibp_score(
 
     score_u = (
         l_c_reshaped * target_tensor
-        - K.expand_dims(K.min(u_c_reshaped * source_tensor, -1), -1)
+        - K.expand_dims(K.min(u_c_reshaped * source_tensor + 1e6 * (1 - source_tensor), -1), -1)
         - 1e6 * (1 - target_tensor)
     )
 
-- 
2.43.0


From 014002892ea093b66c92b21ce25494bf900dee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 37/59] fix: losses on models whose perturbation domain is a
 ball

---
 src/decomon/metrics/loss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index 9286736..a7f2ddf 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -121,7 +121,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             u_c = y_pred[:, :, 0]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -130,7 +130,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_u = y_pred[:, -1, n_comp : n_comp + n_out]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -183,7 +183,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             l_c = y_pred[:, :, 1]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -192,7 +192,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_l = y_pred[:, -1, n_comp + n_out :]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -281,7 +281,7 @@ def get_adv_loss(
                 u_c, l_c = softmax_([u_c, l_c], mode=mode, perturbation_domain=perturbation_domain, clip=False)
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -297,7 +297,7 @@ def get_adv_loss(
                 )
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
-- 
2.43.0


From aa77a7ebf25d254578ad137b0be8cbb09743b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 38/59] fix: shapes declared when affine bounds are deduced
 from constant ones

---
 src/decomon/models/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 0858907..396afc8 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -357,6 +357,16 @@ class Convert2Mode(Layer):
             h_shape,
             g_shape,
         ) = self.inputs_outputs_spec_from.get_fullinputshapes_from_inputshapesformode(input_shape)
+        if self.mode_from == ForwardMode.IBP and self.mode_to != ForwardMode.IBP:
+            # affine bounds deduced from constant ones
+            batch_size, *y_shape = l_c_shape
+            x_shape = (batch_size, 2, *y_shape)
+            if self.input_dim > 0:
+                w_u_shape = (batch_size, self.input_dim, *y_shape)
+            else:
+                w_u_shape = (batch_size, *y_shape, y_shape[-1])
+            w_l_shape = w_u_shape
+            b_u_shape, b_l_shape = u_c_shape, l_c_shape
         return self.inputs_outputs_spec_to.extract_inputshapesformode_from_fullinputshapes(
             [x_shape, u_c_shape, w_u_shape, b_u_shape, l_c_shape, w_l_shape, b_l_shape, h_shape, g_shape]
         )
-- 
2.43.0


From a18a0c8eb8c4c97e9b521cb6e890db12244dde80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 39/59] fix: slope missing from the configuration of
 DecomonActivation

---
 src/decomon/layers/decomon_layers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 63e85b7..e01ed96 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -570,6 +570,11 @@ class DecomonActivation(DecomonLayer, Activation):
         self.activation = activations.get(activation)
         self.activation_name = activation
 
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"slope": self.slope})
+        return config
+
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
         if self.finetune and self.mode in [ForwardMode.HYBRID, ForwardMode.AFFINE]:
             shape = input_shape[-1][1:]
-- 
2.43.0


From 04df9c234c9e6cf6549312cadd265e8a9b078129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 40/59] fix: input_dim missing from the configuration of
 Convert2Mode

---
 src/decomon/models/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 396afc8..1b0565c 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -374,7 +374,12 @@ class Convert2Mode(Layer):
     def get_config(self) -> dict[str, Any]:
         config = super().get_config()
         config.update(
-            {"mode_from": self.mode_from, "mode_to": self.mode_to, "perturbation_domain": self.perturbation_domain}
+            {
+                "mode_from": self.mode_from,
+                "mode_to": self.mode_to,
+                "perturbation_domain": self.perturbation_domain,
+                "input_dim": self.input_dim,
+            }
         )
         return config
 
-- 
2.43.0


From 3da3b39ae042d589e39141eadb2a889792dd9188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 41/59] fix: clone refused methods whose name is not in lower
 case

---
 src/decomon/models/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 3746ef4..27a8aef 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -215,15 +215,15 @@ def clone(
     if not isinstance(model, Model):
         raise ValueError("Expected `model` argument " "to be a `Model` instance, got ", model)
 
+    if isinstance(method, str):
+        method = ConvertMethod(method.lower())
+
     ibp, affine = get_ibp_affine_from_method(method)
     if final_ibp is None:
         final_ibp = ibp
     if final_affine is None:
         final_affine = affine
 
-    if isinstance(method, str):
-        method = ConvertMethod(method.lower())
-
     if not to_keras:
         raise NotImplementedError("Only convert to Keras for now.")
 
-- 
2.43.0


From b6026e0858e3f5557e25e59e67b97f5a9626eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 42/59] fix: kinds of bounds reported by a converted model when
 no final bound is requested

---
 src/decomon/models/convert.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 27a8aef..369fd3e 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -7,7 +7,14 @@ from keras.layers import InputLayer, Layer
 from keras.models import Model
 
 from decomon.backward_layers.core import BackwardLayer
-from decomon.core import BoxDomain, PerturbationDomain, Slope, get_mode
+from decomon.core import (
+    BoxDomain,
+    PerturbationDomain,
+    Slope,
+    get_affine,
+    get_ibp,
+    get_mode,
+)
 from decomon.layers.convert import to_decomon
 from decomon.models.backward_cloning import convert_backward
 from decomon.models.forward_cloning import (
@@ -223,6 +230,9 @@ def clone(
         final_ibp = ibp
     if final_affine is None:
         final_affine = affine
+    # bounds actually returned: affine ones if no kind is requested
+    final_mode = get_mode(ibp=final_ibp, affine=final_affine)
+    final_ibp, final_affine = get_ibp(final_mode), get_affine(final_mode)
 
     if not to_keras:
         raise NotImplementedError("Only convert to Keras for now.")
-- 
2.43.0


From baa442a1019eeecf395bec57d08ac2b1ebcc3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 43/59] fix: softmax bounds were unsound in affine mode when
 the exponentials have a negative affine lower bound

---
 src/decomon/layers/activations.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/decomon/layers/activations.py b/src/decomon/layers/activations.py
index 7dafdda..81da138 100644
--- a/src/decomon/layers/activations.py
+++ b/src/decomon/layers/activations.py
@@ -469,6 +469,28 @@ def softmax(
     ibp = get_ibp(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
+    if mode == ForwardMode.AFFINE:
+        # The affine lower bound of the exponentials can be negative on the domain: 1/x needs their (positive) constant
+        # lower bound, so we propagate both kinds of bounds.
+        inputs_outputs_spec_hybrid = InputsOutputsSpec(
+            dc_decomp=dc_decomp, mode=ForwardMode.HYBRID, perturbation_domain=perturbation_domain
+        )
+        outputs = softmax(
+            inputs_outputs_spec_hybrid.extract_inputsformode_from_fullinputs(
+                inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+            ),
+            dc_decomp=dc_decomp,
+            perturbation_domain=perturbation_domain,
+            mode=ForwardMode.HYBRID,
+            axis=axis,
+            clip=clip,
+            slope=slope,
+            **kwargs,
+        )
+        return inputs_outputs_spec.extract_outputsformode_from_fulloutputs(
+            inputs_outputs_spec_hybrid.get_fullinputs_from_inputsformode(outputs, compute_ibp_from_affine=False)
+        )
+
     outputs_exp = exponential(
         inputs,
         dc_decomp=dc_decomp,
-- 
2.43.0


From dcc52976d670105945f5b826ec78d663db72f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 44/59] fix: Dot with normalize=True was bounded as without
 normalization

---
 src/decomon/layers/decomon_merge_layers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 1247cd0..2256422 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -566,6 +566,8 @@ class DecomonDot(DecomonMerge, Dot):
             fast=fast,
             **kwargs,
         )
+        if self.normalize:
+            raise NotImplementedError("DecomonDot is not implemented with normalize=True.")
         if isinstance(axes, int):
             self.axes = (axes, axes)
         else:
-- 
2.43.0


From 879ed418108fdacf60071052e3e92e7013348235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 45/59] fix: max pooling with channels_first split the width
 instead of the channels when fast is False

---
 src/decomon/layers/maxpooling.py | 115 +++++++++++++------------------
 1 file changed, 47 insertions(+), 68 deletions(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index 11a0b23..2af43ba 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -92,65 +92,43 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         self.filters_w = self.filters[None]
         self.strides_w = (1,) + self.strides
 
+        # axes of the channels (and then of the patches' channels) for the inputs, and for the weights of affine bounds
+        if self.data_format in [None, "channels_last"]:
+            self.channel_axis, self.patch_channel_axis = -1, -2
+            self.channel_axis_w, self.patch_channel_axis_w = -1, -2
+        else:
+            self.channel_axis, self.patch_channel_axis = 1, 1
+            self.channel_axis_w, self.patch_channel_axis_w = 2, 2
+
         def conv_(x: BackendTensor) -> BackendTensor:
-            if self.data_format in [None, "channels_last"]:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters,
-                            strides=list(self.strides),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        -2,
-                    ),
-                    self.dtype,
-                )
-            else:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters,
-                            strides=list(self.strides),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        1,
+            return K.cast(
+                K.expand_dims(
+                    K.conv(
+                        K.moveaxis(x, self.channel_axis, -1),
+                        self.filters,
+                        strides=list(self.strides),
+                        padding=self.padding,
+                        data_format="channels_last",
                     ),
-                    self.dtype,
-                )
+                    self.patch_channel_axis,
+                ),
+                self.dtype,
+            )
 
         def conv_w_(x: BackendTensor) -> BackendTensor:
-            if self.data_format in [None, "channels_last"]:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters_w,
-                            strides=list(self.strides_w),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        -2,
-                    ),
-                    self.dtype,
-                )
-            else:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters_w,
-                            strides=list(self.strides_w),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        1,
+            return K.cast(
+                K.expand_dims(
+                    K.conv(
+                        K.moveaxis(x, self.channel_axis_w, -1),
+                        self.filters_w,
+                        strides=list(self.strides_w),
+                        padding=self.padding,
+                        data_format="channels_last",
                     ),
-                    self.dtype,
-                )
+                    self.patch_channel_axis_w,
+                ),
+                self.dtype,
+            )
 
         self.internal_op = conv_
         self.internal_op_w = conv_w_
@@ -194,31 +172,32 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         dtype = x.dtype
         empty_tensor = self.inputs_outputs_spec.get_empty_tensor(dtype=dtype)
         input_shape = self.inputs_outputs_spec.get_kerasinputshape(inputs)
-        n_split = input_shape[-1]
+        n_split = input_shape[self.channel_axis]
 
-        if self.dc_decomp:
-            h_out = K.concatenate(
-                [self.internal_op(elem) for elem in K.split(h, n_split, -1)],
-                -2,
+        def get_patches(y: BackendTensor) -> BackendTensor:
+            return K.concatenate(
+                [self.internal_op(elem) for elem in K.split(y, n_split, self.channel_axis)], self.patch_channel_axis
             )
-            g_out = K.concatenate(
-                [self.internal_op(elem) for elem in K.split(g, n_split, -1)],
-                -2,
+
+        def get_patches_w(w: BackendTensor) -> BackendTensor:
+            return K.concatenate(
+                [self.internal_op_w(elem) for elem in K.split(w, n_split, self.channel_axis_w)],
+                self.patch_channel_axis_w,
             )
+
+        if self.dc_decomp:
+            h_out, g_out = get_patches(h), get_patches(g)
         else:
             h_out, g_out = empty_tensor, empty_tensor
 
         if self.ibp:
-            u_c_out = K.concatenate([self.internal_op(elem) for elem in K.split(u_c, n_split, -1)], -2)
-            l_c_out = K.concatenate([self.internal_op(elem) for elem in K.split(l_c, n_split, -1)], -2)
+            u_c_out, l_c_out = get_patches(u_c), get_patches(l_c)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
         if self.affine:
-            b_u_out = K.concatenate([self.internal_op(elem) for elem in K.split(b_u, n_split, -1)], -2)
-            b_l_out = K.concatenate([self.internal_op(elem) for elem in K.split(b_l, n_split, -1)], -2)
-            w_u_out = K.concatenate([self.internal_op_w(elem) for elem in K.split(w_u, n_split, -1)], -2)
-            w_l_out = K.concatenate([self.internal_op_w(elem) for elem in K.split(w_l, n_split, -1)], -2)
+            b_u_out, b_l_out = get_patches(b_u), get_patches(b_l)
+            w_u_out, w_l_out = get_patches_w(w_u), get_patches_w(w_l)
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 71501c43f69c93c48cdf80a5717f186c080d218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 46/59] fix: max pooling with padding same let the padded zeros
 win when fast is False

---
 src/decomon/layers/maxpooling.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index 2af43ba..ef571d1 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -100,14 +100,24 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
             self.channel_axis, self.patch_channel_axis = 1, 1
             self.channel_axis_w, self.patch_channel_axis_w = 2, 2
 
+        def pad_(x: BackendTensor, axes: tuple[int, int]) -> BackendTensor:
+            # padded positions must never win the maximum: each one repeats the closest position, which is in the same patch
+            if self.padding == "same":
+                for axis, size, stride in zip(axes, self.pool_size, self.strides):
+                    dim = x.shape[axis]
+                    n_pad = max((-(-dim // stride) - 1) * stride + size - dim, 0)
+                    indices = np.clip(np.arange(-(n_pad // 2), dim + n_pad - n_pad // 2), 0, dim - 1)
+                    x = K.take(x, indices, axis=axis)
+            return x
+
         def conv_(x: BackendTensor) -> BackendTensor:
             return K.cast(
                 K.expand_dims(
                     K.conv(
-                        K.moveaxis(x, self.channel_axis, -1),
+                        pad_(K.moveaxis(x, self.channel_axis, -1), axes=(1, 2)),
                         self.filters,
                         strides=list(self.strides),
-                        padding=self.padding,
+                        padding="valid",
                         data_format="channels_last",
                     ),
                     self.patch_channel_axis,
@@ -119,10 +129,10 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
             return K.cast(
                 K.expand_dims(
                     K.conv(
-                        K.moveaxis(x, self.channel_axis_w, -1),
+                        pad_(K.moveaxis(x, self.channel_axis_w, -1), axes=(2, 3)),
                         self.filters_w,
                         strides=list(self.strides_w),
-                        padding=self.padding,
+                        padding="valid",
                         data_format="channels_last",
                     ),
                     self.patch_channel_axis_w,
-- 
2.43.0


From 1f9cac6d26ad334ed6abeadba4fecc94ca97a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 47/59] fix: set_domain had no effect on the bounds of the
 input nor on the layers' specifications

---
 src/decomon/models/models.py | 14 ++++++++++--
 src/decomon/models/utils.py  | 44 +++++++++++++++++++++++-------------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index 572ac07..441be44 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -67,8 +67,7 @@ class DecomonModel(keras.Model):
         perturbation_domain = _check_domain(self.perturbation_domain, perturbation_domain)
         self.perturbation_domain = perturbation_domain
         for layer in self.layers:
-            if hasattr(layer, "perturbation_domain"):
-                layer.perturbation_domain = self.perturbation_domain
+            _set_layer_domain(layer, perturbation_domain)
 
     def freeze_weights(self) -> None:
         for layer in self.layers:
@@ -128,6 +127,17 @@ def _check_domain(
     return perturbation_domain
 
 
+def _set_layer_domain(layer: keras.layers.Layer, perturbation_domain: PerturbationDomain) -> None:
+    if hasattr(layer, "perturbation_domain"):
+        layer.perturbation_domain = perturbation_domain
+    for spec_name in ("inputs_outputs_spec", "inputs_outputs_spec_from", "inputs_outputs_spec_to"):
+        if hasattr(layer, spec_name):
+            getattr(layer, spec_name).perturbation_domain = perturbation_domain
+    # layer wrapped by a backward layer
+    if hasattr(layer, "layer"):
+        _set_layer_domain(layer.layer, perturbation_domain)
+
+
 def get_AB(model: DecomonModel) -> dict[str, list[keras.Variable]]:
     dico_AB: dict[str, list[keras.Variable]] = {}
     perturbation_domain = model.perturbation_domain
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 1b0565c..e93ad3f 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -86,6 +86,31 @@ def check_model2convert_inputs(model: Model) -> None:
         raise ValueError("The model must have a flattened input to be converted.")
 
 
+class BallInputBounds(Layer):
+    """Constant bounds (upper, lower) of the model input over a ball.
+
+    For any p-norm, each component of the input lies within a distance eps of the center.
+    The domain is read when called as it can be updated by `DecomonModel.set_domain()`.
+
+    """
+
+    def __init__(self, perturbation_domain: BallDomain, **kwargs: Any):
+        super().__init__(**kwargs)
+        self.perturbation_domain = perturbation_domain
+
+    def call(self, inputs: BackendTensor, **kwargs: Any) -> list[BackendTensor]:
+        radius = K.cast(self.perturbation_domain.eps, dtype=inputs.dtype)
+        return [inputs + radius, inputs - radius]
+
+    def compute_output_shape(self, input_shape: tuple[Optional[int], ...]) -> list[tuple[Optional[int], ...]]:
+        return [input_shape, input_shape]
+
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"perturbation_domain": self.perturbation_domain})
+        return config
+
+
 def get_input_tensors(
     model: Model,
     perturbation_domain: PerturbationDomain,
@@ -119,25 +144,12 @@ def get_input_tensors(
             b = K.zeros_like(z_tensor[:, 0])
 
     elif isinstance(perturbation_domain, BallDomain):
-        if perturbation_domain.p == np.inf:
-            radius = perturbation_domain.eps
-            u_c_tensor = Lambda(
-                lambda var: var + K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-            )(z_tensor)
-            if ibp:
-                l_c_tensor = Lambda(
-                    lambda var: var - K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-                )(z_tensor)
-            if affine:
-                W = BatchedIdentityLike()(u_c_tensor)
-                b = K.zeros_like(u_c_tensor)
+        if ibp:
+            u_c_tensor, l_c_tensor = BallInputBounds(perturbation_domain, dtype=model.layers[0].dtype)(z_tensor)
 
-        else:
+        if affine:
             W = BatchedIdentityLike()(z_tensor)
             b = K.zeros_like(z_tensor)
-            if ibp:
-                u_c_tensor = perturbation_domain.get_upper(z_tensor, W, b)
-                l_c_tensor = perturbation_domain.get_lower(z_tensor, W, b)
 
     else:
         raise NotImplementedError(f"Not implemented for perturbation domain type {type(perturbation_domain)}")
-- 
2.43.0


From cacf886bf7ac0253b0ab96932320bc1e0c01a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 48/59] fix: freezing, unfreezing and resetting the parameters
 of a converted model had no effect or raised

---
 .../backward_layers/backward_layers.py        | 52 ++-----------------
 src/decomon/backward_layers/core.py           | 32 ++++++++++--
 src/decomon/keras_utils.py                    | 31 +++++++++++
 src/decomon/layers/core.py                    | 37 ++++++++++---
 src/decomon/layers/decomon_layers.py          | 50 +-----------------
 5 files changed, 95 insertions(+), 107 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 90e5a6b..ece79f3 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -63,7 +63,6 @@ class BackwardDense(BackwardLayer):
                 shared=True,
                 fast=False,
             )
-        self.frozen_weights = False
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         if len(inputs) == 0:
@@ -115,19 +114,6 @@ class BackwardDense(BackwardLayer):
             self._trainable_weights.append(self.bias)
         self.built = True
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            if getattr(self.layer, "freeze_weights"):
-                self.layer.freeze_weights()
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if getattr(self.layer, "unfreeze_weights"):
-                self.layer.unfreeze_weights()
-            self.frozen_weights = False
-
 
 class BackwardConv2D(BackwardLayer):
     """Backward  LiRPA of Conv2D"""
@@ -164,7 +150,6 @@ class BackwardConv2D(BackwardLayer):
                 shared=True,
                 fast=False,
             )
-        self.frozen_weights = False
 
     def get_affine_components(self, inputs: list[BackendTensor]) -> tuple[BackendTensor, BackendTensor]:
         """Express the implicit affine matrix of the convolution layer.
@@ -214,19 +199,6 @@ class BackwardConv2D(BackwardLayer):
         weight_, bias_ = self.get_affine_components(inputs)
         return [weight_, bias_] * 2
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            if getattr(self.layer, "freeze_weights"):
-                self.layer.freeze_weights()
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if getattr(self.layer, "unfreeze_weights"):
-                self.layer.unfreeze_weights()
-            self.frozen_weights = False
-
 
 class BackwardActivation(BackwardLayer):
     def __init__(
@@ -253,8 +225,6 @@ class BackwardActivation(BackwardLayer):
         self.slope = Slope(slope)
         self.finetune = finetune
         self.finetune_param: list[keras.Variable] = []
-        if self.finetune:
-            self.frozen_alpha = False
         self.grid_finetune: list[keras.Variable] = []
         self.frozen_grid = False
 
@@ -401,24 +371,10 @@ class BackwardActivation(BackwardLayer):
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
-    def freeze_alpha(self) -> None:
-        if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if len(self.grid_finetune):
-                    self._trainable_weights = self._trainable_weights[:2]
-                else:
-                    self._trainable_weights = []
-                self.frozen_alpha = True
-
-    def unfreeze_alpha(self) -> None:
-        if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.alpha_b_u, self.alpha_b_l]
-                    else:
-                        self._trainable_weights += [self.alpha_b_l]
-            self.frozen_alpha = False
+    def get_finetuning_variables(self) -> list[keras.Variable]:
+        return super().get_finetuning_variables() + [
+            getattr(self, name) for name in ("alpha_b_u", "alpha_b_l") if hasattr(self, name)
+        ]
 
     def freeze_grid(self) -> None:
         if len(self.grid_finetune) and not self.frozen_grid:
diff --git a/src/decomon/backward_layers/core.py b/src/decomon/backward_layers/core.py
index 917b3d9..0dc25cb 100644
--- a/src/decomon/backward_layers/core.py
+++ b/src/decomon/backward_layers/core.py
@@ -14,6 +14,7 @@ from decomon.core import (
     get_affine,
     get_ibp,
 )
+from decomon.keras_utils import freeze_variables, unfreeze_variables
 from decomon.layers.core import DecomonLayer
 from decomon.types import BackendTensor
 
@@ -49,6 +50,8 @@ class BackwardLayer(ABC, Wrapper):
         self.inputs_outputs_spec = InputsOutputsSpec(
             dc_decomp=self.dc_decomp, mode=self.mode, perturbation_domain=self.perturbation_domain
         )
+        self.frozen_weights = False
+        self.frozen_alpha = False
 
     @property
     def ibp(self) -> bool:
@@ -149,17 +152,36 @@ class BackwardLayer(ABC, Wrapper):
 
         return [w_shape, b_shape, w_shape, b_shape]
 
+    def get_finetuning_variables(self) -> list[keras.Variable]:
+        """Get the variables tuning the relaxation performed by the layer."""
+        return self.layer.get_finetuning_variables() if isinstance(self.layer, DecomonLayer) else []
+
+    def get_network_variables(self) -> list[keras.Variable]:
+        """Get the variables coming from the converted network."""
+        finetuning_ids = {id(v) for v in self.get_finetuning_variables()}
+        return [v for v in self.variables if id(v) not in finetuning_ids]
+
     def freeze_weights(self) -> None:
-        pass
+        if not self.frozen_weights:
+            self.trainable_before_freezing_weights = freeze_variables(self.get_network_variables())
+            self.frozen_weights = True
 
     def unfreeze_weights(self) -> None:
-        pass
+        if self.frozen_weights:
+            unfreeze_variables(self.get_network_variables(), self.trainable_before_freezing_weights)
+            self.frozen_weights = False
 
     def freeze_alpha(self) -> None:
-        pass
+        if not self.frozen_alpha:
+            self.trainable_before_freezing_alpha = freeze_variables(self.get_finetuning_variables())
+            self.frozen_alpha = True
 
     def unfreeze_alpha(self) -> None:
-        pass
+        if self.frozen_alpha:
+            unfreeze_variables(self.get_finetuning_variables(), self.trainable_before_freezing_alpha)
+            self.frozen_alpha = False
 
     def reset_finetuning(self) -> None:
-        pass
+        # fine-tuning parameters are initialized to 1
+        for v in self.get_finetuning_variables():
+            v.assign(np.ones(v.shape))
diff --git a/src/decomon/keras_utils.py b/src/decomon/keras_utils.py
index 681f359..ee233b7 100644
--- a/src/decomon/keras_utils.py
+++ b/src/decomon/keras_utils.py
@@ -238,3 +238,34 @@ def check_if_single_shape(shape: Any) -> bool:
         shape = tuple(shape)
 
     return isinstance(shape, tuple) and len(shape) > 0 and isinstance(shape[0], (int, type(None)))
+
+
+def freeze_variables(variables: list[keras.Variable]) -> list[bool]:
+    """Make variables not trainable.
+
+    Args:
+        variables:
+
+    Returns:
+        for each variable, whether it was trainable before. To be used by `unfreeze_variables()`
+
+    """
+    were_trainable = [v.trainable for v in variables]
+    for v in variables:
+        v.trainable = False
+    return were_trainable
+
+
+def unfreeze_variables(variables: list[keras.Variable], were_trainable: list[bool]) -> None:
+    """Make variables frozen by `freeze_variables()` trainable again, if they were.
+
+    Args:
+        variables: the frozen variables
+        were_trainable: the output of `freeze_variables()`
+
+    Returns:
+
+    """
+    for v, was_trainable in zip(variables, were_trainable):
+        if was_trainable:
+            v.trainable = True
diff --git a/src/decomon/layers/core.py b/src/decomon/layers/core.py
index 86ef87c..8ce8739 100644
--- a/src/decomon/layers/core.py
+++ b/src/decomon/layers/core.py
@@ -2,6 +2,7 @@ from abc import ABC, abstractmethod
 from typing import Any, Optional, Union
 
 import keras
+import numpy as np
 from keras.layers import Layer
 
 from decomon.core import (
@@ -12,7 +13,12 @@ from decomon.core import (
     get_affine,
     get_ibp,
 )
-from decomon.keras_utils import check_if_single_shape, reset_layer
+from decomon.keras_utils import (
+    check_if_single_shape,
+    freeze_variables,
+    reset_layer,
+    unfreeze_variables,
+)
 from decomon.types import BackendTensor
 
 
@@ -221,20 +227,39 @@ class DecomonLayer(ABC, Layer):
         """
         raise NotImplementedError()
 
+    def get_finetuning_variables(self) -> list[keras.Variable]:
+        """Get the variables tuning the relaxation performed by the layer."""
+        return []
+
+    def get_network_variables(self) -> list[keras.Variable]:
+        """Get the variables coming from the converted network."""
+        finetuning_ids = {id(v) for v in self.get_finetuning_variables()}
+        return [v for v in self.variables if id(v) not in finetuning_ids]
+
     def freeze_weights(self) -> None:
-        pass
+        if not self.frozen_weights:
+            self.trainable_before_freezing_weights = freeze_variables(self.get_network_variables())
+            self.frozen_weights = True
 
     def unfreeze_weights(self) -> None:
-        pass
+        if self.frozen_weights:
+            unfreeze_variables(self.get_network_variables(), self.trainable_before_freezing_weights)
+            self.frozen_weights = False
 
     def freeze_alpha(self) -> None:
-        pass
+        if not self.frozen_alpha:
+            self.trainable_before_freezing_alpha = freeze_variables(self.get_finetuning_variables())
+            self.frozen_alpha = True
 
     def unfreeze_alpha(self) -> None:
-        pass
+        if self.frozen_alpha:
+            unfreeze_variables(self.get_finetuning_variables(), self.trainable_before_freezing_alpha)
+            self.frozen_alpha = False
 
     def reset_finetuning(self) -> None:
-        pass
+        # fine-tuning parameters are initialized to 1
+        for v in self.get_finetuning_variables():
+            v.assign(np.ones(v.shape))
 
     def share_weights(self, layer: Layer) -> None:
         pass
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index e01ed96..e61b9fd 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -272,18 +272,6 @@ class DecomonConv2D(DecomonLayer, Conv2D):
             weight_names.append("bias")
         return weight_names
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if self.use_bias:
-                self._trainable_weights = [self.bias] + self._trainable_weights
-            self._trainable_weights = [self.kernel] + self._trainable_weights
-            self.frozen_weights = False
-
 
 class DecomonDense(DecomonLayer, Dense):
     """Forward LiRPA implementation of Dense layers.
@@ -522,18 +510,6 @@ class DecomonDense(DecomonLayer, Dense):
             weight_names.append("bias")
         return weight_names
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if self.use_bias:
-                self._trainable_weights = [self.bias] + self._trainable_weights
-            self._trainable_weights = [self.kernel] + self._trainable_weights
-            self.frozen_weights = False
-
 
 class DecomonActivation(DecomonLayer, Activation):
     """Forward LiRPA implementation of Activation layers.
@@ -626,30 +602,8 @@ class DecomonActivation(DecomonLayer, Activation):
             )
             return output
 
-    def reset_finetuning(self) -> None:
-        if self.finetune and self.mode != ForwardMode.IBP:
-            if self.activation_name != "linear":
-                if self.activation_name[:4] == "relu":
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
-                else:
-                    self.beta_u_f.assign(np.ones_like(self.beta_u_f.value()))
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
-
-    def freeze_alpha(self) -> None:
-        if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                self._trainable_weights = []
-            self.frozen_alpha = True
-
-    def unfreeze_alpha(self) -> None:
-        if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.beta_u_f, self.beta_l_f]
-                    else:
-                        self._trainable_weights += [self.beta_l_f]
-            self.frozen_alpha = False
+    def get_finetuning_variables(self) -> list[keras.Variable]:
+        return [getattr(self, name) for name in ("beta_u_f", "beta_l_f") if hasattr(self, name)]
 
 
 class DecomonFlatten(DecomonLayer, Flatten):
-- 
2.43.0


From 7727e915b36acb51d1842b6a1fd8a5fc60b7e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 49/59] fix: min_ raised with dc_decomp=True

---
 src/decomon/layers/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index d061827..bea562b 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -977,7 +977,7 @@ def min_(
         perturbation_domain = BoxDomain()
     return minus(
         max_(
-            minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+            minus(inputs, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain),
             dc_decomp=dc_decomp,
             perturbation_domain=perturbation_domain,
             mode=mode,
@@ -986,6 +986,7 @@ def min_(
             **kwargs,
         ),
         mode=mode,
+        dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
     )
 
-- 
2.43.0


From 1d5706195d07b925f94d6ad74fcbf566eb5c15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 50/59] fix: predict and fit on a converted model raised when
 the batch size was unknown

---
 src/decomon/backward_layers/backward_layers.py | 13 ++++++-------
 src/decomon/keras_utils.py                     | 10 ++++------
 src/decomon/metrics/loss.py                    |  5 ++---
 3 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index ece79f3..6440b1c 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -71,7 +71,8 @@ class BackwardDense(BackwardLayer):
         y = inputs[-1]
         flatten_inputdim_wo_last_dim = int(np.prod(self.get_keras_input_shape_wo_batchsize(y)[:-1]))
         flatten_outputdim = flatten_inputdim_wo_last_dim * self.layer.units
-        batchsize = y.shape[0]
+        # zeros of shape (batchsize, 1), as the batchsize may be unknown when the layer is traced
+        zeros_by_batch = K.zeros_like(K.reshape(y, (-1, int(np.prod(y.shape[1:]))))[:, :1])
 
         # kernel reshaped: diagonal by blocks, with original kernel on the diagonal, `flatten_inputdim_wo_last_dim` times
         #                  repeated batchsize times
@@ -85,13 +86,11 @@ class BackwardDense(BackwardLayer):
             ],
             axis=-2,
         )
-        w = K.repeat(kernel_diag_by_block[None], batchsize, axis=0)
+        w = kernel_diag_by_block[None] + zeros_by_batch[:, None]
         if self.use_bias:
-            b = K.repeat(
-                K.reshape(K.repeat(self.bias[None], flatten_inputdim_wo_last_dim, axis=0), (1, -1)), batchsize, axis=0
-            )
+            b = K.reshape(K.repeat(self.bias[None], flatten_inputdim_wo_last_dim, axis=0), (1, -1)) + zeros_by_batch
         else:
-            b = K.zeros((batchsize, flatten_outputdim), dtype=self.dtype)
+            b = K.repeat(zeros_by_batch, flatten_outputdim, axis=-1)
 
         return [w, b, w, b]
 
@@ -561,7 +560,7 @@ class BackwardBatchNormalization(BackwardLayer):
 
         # reshape w
         w_b = K.reshape(
-            K.reshape(BatchedIdentityLike()(K.reshape(y, (-1, n_out))), tuple(y.shape) + (-1,))
+            K.reshape(BatchedIdentityLike()(K.reshape(y, (-1, n_out))), (-1,) + tuple(y.shape[1:]) + (n_out,))
             * K.reshape(w, shape + [1]),
             (-1, n_out, n_out),
         )
diff --git a/src/decomon/keras_utils.py b/src/decomon/keras_utils.py
index ee233b7..5892181 100644
--- a/src/decomon/keras_utils.py
+++ b/src/decomon/keras_utils.py
@@ -2,7 +2,6 @@ from typing import Any
 
 import keras
 import keras.ops as K
-import numpy as np
 from keras.layers import Layer
 
 from decomon.types import BackendTensor, Tensor
@@ -22,10 +21,8 @@ class BatchedIdentityLike(keras.Operation):
     """
 
     def call(self, x: BackendTensor) -> Tensor:
-        input_shape = x.shape
-        identity_tensor = K.identity(input_shape[-1], dtype=x.dtype)
-        n_repeat = int(np.prod(input_shape[:-1]))
-        return K.reshape(K.repeat(identity_tensor[None], n_repeat, axis=0), tuple(input_shape) + (-1,))
+        # NB: the batch size may be unknown when the operation is traced
+        return K.expand_dims(K.zeros_like(x), -1) + K.identity(x.shape[-1], dtype=x.dtype)
 
     def compute_output_spec(self, x: Tensor) -> keras.KerasTensor:
         x_shape = x.shape
@@ -50,7 +47,8 @@ class BatchedDiagLike(keras.Operation):
     """
 
     def call(self, x: BackendTensor) -> Tensor:
-        return K.concatenate([K.diag(K.ravel(w_part))[None] for w_part in K.split(x, len(x), axis=0)], axis=0)
+        # NB: the batch size may be unknown when the operation is traced
+        return K.where(K.identity(x.shape[-1], dtype="bool"), K.expand_dims(x, -1), K.zeros_like(K.expand_dims(x, -1)))
 
     def compute_output_spec(self, x: Tensor) -> keras.KerasTensor:
         x_shape = x.shape
diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index a7f2ddf..d02bcbb 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -348,9 +348,8 @@ def get_adv_loss(
 
 
 def _create_identity_tensor_like(x: Tensor) -> BackendTensor:
-    identity_tensor = K.identity(x.shape[-1])
-    n_repeat = int(np.prod(x.shape[:-1]))
-    return K.reshape(K.repeat(identity_tensor[None], n_repeat, axis=0), tuple(x.shape) + (-1,))
+    # NB: the batch size may be unknown when the layers are traced
+    return K.expand_dims(K.zeros_like(x), -1) + K.identity(x.shape[-1], dtype=x.dtype)
 
 
 # create a layer
-- 
2.43.0


From 0c3ff16384796133a86783fed9ae5e9a14376062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 51/59] fix: tuned queries raised as the optimizer has no
 argument lr

---
 src/decomon/wrapper_with_tuning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index c7af68a..81ee4ea 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -84,7 +84,7 @@ def get_upper_box_tuning(
 
         # create loss
         loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(lr=lr), loss_upper)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_upper)
 
         decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
 
@@ -171,7 +171,7 @@ def get_lower_box_tuning(
 
         # create loss
         loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(lr=lr), loss_upper)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_upper)
 
         decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
 
-- 
2.43.0


From 571004efbb06fe77cc2fa06257f88d0dcede3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 52/59] fix: get_lower_box_tuning tuned the upper bounds and
 kept the loosest lower bounds

---
 src/decomon/wrapper_with_tuning.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index 81ee4ea..27deb8b 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -5,7 +5,7 @@ import numpy as np
 import numpy.typing as npt
 from keras.optimizers import Adam
 
-from decomon.metrics.loss import get_upper_loss
+from decomon.metrics.loss import get_lower_loss, get_upper_loss
 from decomon.models.models import DecomonModel
 from decomon.wrapper import get_lower_box, get_upper_box, refine_boxes
 
@@ -128,7 +128,7 @@ def get_lower_box_tuning(
     # check that the model is a DecomonModel, else do the conversion
     decomon_model = model
 
-    baseline_upper = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+    baseline_lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
 
     if n_sub_boxes > 1:
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
@@ -170,14 +170,14 @@ def get_lower_box_tuning(
         model.freeze_weights()
 
         # create loss
-        loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(learning_rate=lr), loss_upper)
+        loss_lower = get_lower_loss(model)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_lower)
 
-        decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
+        decomon_model_concat.fit(z, baseline_lower, epochs=epochs, verbose=0)
 
-        upper = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+        lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
 
         # reset alpha
         model.reset_finetuning()
 
-        return np.minimum(baseline_upper, upper)
+        return np.maximum(baseline_lower, lower)
-- 
2.43.0


From 25ba5b136fc4c3600d9952ee599115dfa400e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 53/59] fix: tuned queries raised when the boxes were refined
 into sub-boxes

---
 src/decomon/wrapper_with_tuning.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index 27deb8b..dd9285c 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -42,14 +42,19 @@ def get_upper_box_tuning(
     # check that the model is a DecomonModel, else do the conversion
     decomon_model = model
 
-    baseline_upper = get_upper_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
-
     if n_sub_boxes > 1:
+        # tune the bounds of each sub-box, then gather them by box
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
-        # reshape
+        n_split = x_min.shape[1]
         shape = list(x_min.shape[2:])
         x_min = np.reshape(x_min, [-1] + shape)
         x_max = np.reshape(x_max, [-1] + shape)
+        upper = get_upper_box_tuning(
+            model, decomon_model_concat, x_min, x_max, batch_size=batch_size, lr=lr, epochs=epochs
+        )
+        return np.max(np.reshape(upper, (-1, n_split) + upper.shape[1:]), 1)
+
+    baseline_upper = get_upper_box(model, x_min, x_max, batch_size=batch_size)
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[2:])
@@ -88,7 +93,7 @@ def get_upper_box_tuning(
 
         decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
 
-        upper = get_upper_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+        upper = get_upper_box(model, x_min, x_max, batch_size=batch_size)
 
         # reset alpha
         model.reset_finetuning()
@@ -128,14 +133,19 @@ def get_lower_box_tuning(
     # check that the model is a DecomonModel, else do the conversion
     decomon_model = model
 
-    baseline_lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
-
     if n_sub_boxes > 1:
+        # tune the bounds of each sub-box, then gather them by box
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
-        # reshape
+        n_split = x_min.shape[1]
         shape = list(x_min.shape[2:])
         x_min = np.reshape(x_min, [-1] + shape)
         x_max = np.reshape(x_max, [-1] + shape)
+        lower = get_lower_box_tuning(
+            model, decomon_model_concat, x_min, x_max, batch_size=batch_size, lr=lr, epochs=epochs
+        )
+        return np.min(np.reshape(lower, (-1, n_split) + lower.shape[1:]), 1)
+
+    baseline_lower = get_lower_box(model, x_min, x_max, batch_size=batch_size)
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[2:])
@@ -175,7 +185,7 @@ def get_lower_box_tuning(
 
         decomon_model_concat.fit(z, baseline_lower, epochs=epochs, verbose=0)
 
-        lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+        lower = get_lower_box(model, x_min, x_max, batch_size=batch_size)
 
         # reset alpha
         model.reset_finetuning()
-- 
2.43.0


From 3224757715eb6a75e19b0e318dfec339f11d085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 54/59] fix: affine relaxations of sigmoid, tanh and softsign
 were unsound on wide intervals and on intervals starting or ending in 0

---
 src/decomon/utils.py | 70 ++++++++++----------------------------------
 1 file changed, 16 insertions(+), 54 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index 6fc0dce..b5558fe 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -629,39 +629,20 @@ def get_t_upper(
         the upper affine bounds in this subcase
     """
 
-    o_value = K.cast(1.0, dtype=u_c_flat.dtype)
-    z_value = K.cast(0.0, dtype=u_c_flat.dtype)
-
-    # step1: find t
+    # step1: find the smallest t such that the tangent at t is above func at l_c
+    # (it is then above func on [l_c, 0], where func is convex, and on [0, u_c], where func is concave)
     u_c_reshaped = K.expand_dims(u_c_flat, -1)  # (None, n , 1)
     l_c_reshaped = K.expand_dims(l_c_flat, -1)  # (None, n,  1)
     t = K.cast(np.linspace(0, 1, 100)[None, None, :], dtype=u_c_flat.dtype) * u_c_reshaped  # (None, n , 100)
 
-    s_p_t = f_prime(t)  # (None, n, 100)
-    s_t = func(t)  # (None, n, 100)
-
-    score = K.abs(s_p_t - (s_t - K.expand_dims(s_l, -1)) / (t - l_c_reshaped))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-    threshold = K.min(score, -1)  # (None, n)
-
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index - 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
+    s_l_tangent = func(t) + f_prime(t) * (l_c_reshaped - t)  # (None, n, 100)
+    t_value = K.min(
+        K.where(K.greater_equal(s_l_tangent, K.expand_dims(s_l, -1)), t, u_c_reshaped + K.zeros_like(t)), -1
     )  # (None, n)
 
-    s_t = func(t_value)  # (None, n)
-    w_u = (s_t - s_l) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), t_value - l_c_flat)  # (None, n)
-    b_u = -w_u * l_c_flat + s_l  # + func(l_c_flat)
+    # step2: tangent at t
+    w_u = f_prime(t_value)  # (None, n)
+    b_u = func(t_value) - w_u * t_value
 
     return [w_u, b_u]
 
@@ -686,38 +667,19 @@ def get_t_lower(
     Returns:
         the lower affine bounds in this subcase
     """
-    z_value = K.cast(0.0, dtype=u_c_flat.dtype)
-    o_value = K.cast(1.0, dtype=u_c_flat.dtype)
-
-    # step1: find t
+    # step1: find the largest t such that the tangent at t is below func at u_c
+    # (it is then below func on [l_c, 0], where func is convex, and on [0, u_c], where func is concave)
     u_c_reshaped = K.expand_dims(u_c_flat, -1)  # (None, n , 1)
     l_c_reshaped = K.expand_dims(l_c_flat, -1)  # (None, n,  1)
     t = K.cast(np.linspace(0, 1.0, 100)[None, None, :], dtype=u_c_flat.dtype) * l_c_reshaped  # (None, n , 100)
 
-    s_p_t = f_prime(t)  # (None, n, 100)
-    s_t = func(t)  # (None, n, 100)
-
-    score = K.abs(s_p_t - (K.expand_dims(s_u, -1) - s_t) / (u_c_reshaped - t))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-
-    threshold = K.min(score, -1)
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index + 1, 0, 100)), dtype=u_c_flat.dtype
+    s_u_tangent = func(t) + f_prime(t) * (u_c_reshaped - t)  # (None, n, 100)
+    t_value = K.max(
+        K.where(K.less_equal(s_u_tangent, K.expand_dims(s_u, -1)), t, l_c_reshaped + K.zeros_like(t)), -1
     )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )
 
-    s_t = func(t_value)  # (None, n)
-    w_l = (s_u - s_t) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_flat - t_value)  # (None, n)
-    b_l = -w_l * u_c_flat + s_u  # func(u_c_flat)
+    # step2: tangent at t
+    w_l = f_prime(t_value)  # (None, n)
+    b_l = func(t_value) - w_l * t_value
 
     return [w_l, b_l]
-- 
2.43.0


From 7f395cd0b85e9ded8c77bccd8be638c6bd468b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 55/59] fix: conversion raised for a network ending with a
 Softmax layer

---
 src/decomon/layers/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index bea562b..fd597b7 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -409,7 +409,14 @@ def softmax_to_linear(model: keras.Model) -> tuple[keras.Model, bool]:
     layer = model.layers[-1]
     # check that layer is not an instance of the object Softmax
     if isinstance(layer, keras.layers.Softmax):
-        model_normalize = keras.models.Model(model.get_input_at(0), keras.layers.Activation("linear")(layer.input))
+        # NB: the layer may have been called in other models before
+        outputs = []
+        for output in model.outputs:
+            operation, node_index, _ = output._keras_history
+            if operation is layer:
+                output = keras.layers.Activation("linear")(layer._inbound_nodes[node_index].input_tensors[0])
+            outputs.append(output)
+        model_normalize = keras.models.Model(model.inputs, outputs)
 
         return model_normalize, True
 
-- 
2.43.0


From 7339ba9bad7b11d8be6d432e1a64ee1864c6ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 56/59] fix: operations on bounds along a negative axis other
 than -1 were wrong or raised with affine bounds

---
 src/decomon/layers/utils.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index fd597b7..6e1dd65 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -174,8 +174,8 @@ def sum(
         u_c_out, l_c_out = empty_tensor, empty_tensor
 
     if affine:
-        if axis == -1:
-            axis_w = -1
+        if axis < 0:
+            axis_w = axis
         else:
             axis_w = axis + 1
         w_u_out = K.sum(w_u, axis=axis_w)
@@ -306,7 +306,7 @@ def max_(
         b_u_tmp = b_u_list[0] + 0 * (b_u_list[0])
         b_l_tmp = b_l_list[0] + 0 * (b_l_list[0])
 
-        if axis == -1:
+        if axis < 0:
             w_u_list = K.split(w_u, max_dim, axis)
             w_l_list = K.split(w_l, max_dim, axis)
         else:
@@ -379,7 +379,7 @@ def max_(
     if mode in [ForwardMode.HYBRID, ForwardMode.AFFINE]:
         b_u_out = K.squeeze(b_u_out, axis)
         b_l_out = K.squeeze(b_l_out, axis)
-        if axis == -1:
+        if axis < 0:
             w_u_out = K.squeeze(w_u_out, axis)
             w_l_out = K.squeeze(w_l_out, axis)
         else:
@@ -634,10 +634,10 @@ def broadcast(
             u_c = K.expand_dims(u_c, axis)
             l_c = K.expand_dims(l_c, axis)
 
-    if axis != -1:
+    if axis >= 0:
         axis_w = axis + 1
     else:
-        axis_w = -1
+        axis_w = axis
 
     if affine:
         for _ in range(n):
@@ -677,11 +677,9 @@ def split(
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     input_shape = inputs_outputs_spec.get_kerasinputshape(inputs)
-    if axis == -1:
-        n = input_shape[-1]
-        axis = len(input_shape) - 1
-    else:
-        n = input_shape[axis]
+    if axis < 0:
+        axis += len(input_shape)
+    n = input_shape[axis]
     if n is None:
         raise ValueError(f"Dimension {axis} corresponding to `axis` cannot be None")
 
@@ -702,8 +700,7 @@ def split(
         b_u_list = K.split(b_u, n, axis=axis)
         b_l_list = K.split(b_l, n, axis=axis)
 
-        if axis != -1:
-            axis += 1
+        axis += 1
         w_u_list = K.split(w_u, n, axis=axis)
         w_l_list = K.split(w_l, n, axis=axis)
     else:
@@ -762,11 +759,9 @@ def sort(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
-    if axis == -1:
-        n = input_shape[-1]
-        axis = len(input_shape) - 1
-    else:
-        n = input_shape[axis]
+    if axis < 0:
+        axis += len(input_shape)
+    n = input_shape[axis]
     if n is None:
         raise ValueError(f"Dimension {axis} corresponding to `axis` cannot be None")
 
@@ -1019,7 +1014,7 @@ def expand_dims(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
-    if axis == -1:
+    if axis < 0:
         axis_w = axis
     else:
         axis_w = axis + 1
-- 
2.43.0


From 6cb5cabc2f6fe26744f39e5063355520bb975ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 57/59] fix: back_bounds were ignored by forward conversion
 methods

---
 src/decomon/models/convert.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 369fd3e..3076d84 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -3,6 +3,7 @@ from collections.abc import Callable
 from typing import Any, Optional, Union
 
 import keras
+import keras.ops as K
 from keras.layers import InputLayer, Layer
 from keras.models import Model
 
@@ -17,6 +18,7 @@ from decomon.core import (
 )
 from decomon.layers.convert import to_decomon
 from decomon.models.backward_cloning import convert_backward
+from decomon.models.crown import Convert2BackwardMode, Fuse
 from decomon.models.forward_cloning import (
     LayerMapDict,
     OutputMapDict,
@@ -183,6 +185,15 @@ def convert(
         # check final_ibp and final_affine
         mode_from = get_mode(ibp, affine)
         mode_to = get_mode(final_ibp, final_affine)
+        if len(back_bounds):
+            # compose the bounds on the output with the functions to bound
+            if len(model.outputs) > 1 or len(model.outputs[0].shape) > 2:
+                raise NotImplementedError()
+            if len(back_bounds) == 1:
+                C = back_bounds[0]
+                back_bounds = [C, K.zeros_like(C[:, 0])] * 2
+            output_fused = Fuse(mode_from)(output + back_bounds)
+            output = Convert2BackwardMode(mode_from, perturbation_domain)(output + output_fused)
         outputs = convert_outputs_to_mode(
             output,
             mode_from=mode_from,
-- 
2.43.0


From 3fc6fcd74bb07bd49b3880ac9890b4b02acc7611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 58/59] fix: get_adv_box ignored target labels and mixed
 several source labels on models converted with back_bounds

---
 src/decomon/wrapper.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index ea42ace..a446b13 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -146,6 +146,15 @@ def get_adv_box(
                 ]
             )
 
+    elif decomon_model.backward_bounds and np.max(np.sum(source_labels, -1)) > 1:
+        # the model bounds the differences with a single source label
+        if target_labels is None:
+            target_labels = 1 - source_labels
+        scores = np.array(
+            [get_adv_box(decomon_model, x_min, x_max, i, target_labels, -1) for i in range(n_out)]
+        )
+        adv_score = np.max(np.where(source_labels.T > 0, scores, scores.min()), 0)
+
     else:
         ibp = decomon_model.ibp
         affine = decomon_model.affine
@@ -176,7 +185,10 @@ def get_adv_box(
 
             # add penalties on biases
             if backward:
-                return np.max(u_c, -1)
+                # upper bounds of the differences with the source label
+                upper = np.reshape(u_c, (-1, shape))
+                const = upper.max() - upper.min()
+                return np.max(upper - (1 - t_tensor_reshaped) * (const + 0.1), -1)
             else:
                 upper = np.reshape(u_c, (-1, shape, 1)) - np.reshape(l_c, (-1, 1, shape))
             const = upper.max() - upper.min()
@@ -218,8 +230,8 @@ def get_adv_box(
                     + (np.minimum(w_u, 0.0) * z_tensor[:, 0][:, :, None]).sum(1)
                     + b_u
                 )
-
-                return upper.max(-1)
+                const = upper.max() - upper.min()
+                return np.max(upper - (1 - t_tensor_reshaped) * (const + 0.1), -1)
 
             # add penalties on biases
             upper = (
-- 
2.43.0


From fad3bfd2c2bf0c606ae4ca564ae465efb92132a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 59/59] fix: adversarial scores given backward bounds exchanged
 upper and lower bounds

---
 src/decomon/metrics/metric.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index f4458ea..09b28e8 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -232,7 +232,13 @@ class AdversarialScore(AdversarialCheck):
         if self.mode == MetricMode.BACKWARD:
             w_u_b, b_u_b, w_l_b, b_l_b, _ = inputs[-5:]
             adv_b = _get_backward_score(
-                z, w_u_b, b_u_b, w_l_b, b_l_b, y_tensor, perturbation_domain=self.perturbation_domain
+                z,
+                w_u=w_l_b,
+                b_u=b_l_b,
+                w_l=w_u_b,
+                b_l=b_u_b,
+                source_tensor=y_tensor,
+                perturbation_domain=self.perturbation_domain,
             )
             adv_score = K.minimum(adv_score, adv_b)
 
-- 
2.43.0

