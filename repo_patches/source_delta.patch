From 87aaf6e2f776d0b8b6986267185670b9a4aee960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 01/36] fix: same_equiv without a solution raised
 AttributeError instead of its ValueError

configuration_string referred to a method that does not exist.
---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 80716c9..c6b49fb 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -178,6 +178,6 @@ class EquivariantPadding(Layer):
             f"strides: {tuple(self.strides)},\n"
         )
         if self.padding_option == "SAME_EQUIV":
-            same_padding = self.compute_same_padding(spatial_shape)
+            same_padding = self.compute_built_in_padding(spatial_shape)
             message += f"built-in same padding: {tuple(same_padding)}"
         return message
-- 
2.43.0


From 5485929ccc8fa8aa56ecd26e01599abfd790584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 02/36] fix: pass data_format on to the padding inside the
 layers

The padding of channels_first layers was computed from, and applied to, the
wrong axes.
---
 groco/layers/group_transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index d4d231c..d2d5685 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -54,6 +54,7 @@ class GroupTransforms:
             kernel_size=kernel_size,
             dimensions=dimensions,
             transpose=transpose,
+            data_format=data_format,
             **kwargs,
         )
         self.built_in_padding_option = self.equivariant_padding.built_in_padding_option
-- 
2.43.0


From 8a447ddb547f41f706bde976331260254ae3b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 03/36] fix: an unspecified data_format follows the Keras image
 data format

The underlying Keras layers follow it, the group transformations assumed
channels_last.
---
 groco/layers/group_transforms.py | 4 +++-
 groco/layers/pooling.py          | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index d2d5685..9b30c6b 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,4 +1,5 @@
 from keras import ops
+from keras.config import image_data_format
 from keras.layers import Layer
 
 from groco import utils
@@ -30,7 +31,7 @@ class GroupTransforms:
         group,
         kernel_size,
         dimensions: int,
-        data_format="channels_last",
+        data_format=None,
         allow_non_equivariance: bool = False,
         subgroup="",
         transpose=False,
@@ -39,6 +40,7 @@ class GroupTransforms:
     ):
         super().__init__()
 
+        data_format = data_format or image_data_format()
         self.dimensions = dimensions
         self.transpose = transpose
         self.separable = separable
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 94bdcc4..6bfd7d8 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -91,7 +91,7 @@ class GlobalGroupPooling(Layer):
             pool_layer = GlobalMaxPooling3D if self.pool_type == "max" else GlobalAveragePooling3D
         self.pooling = pool_layer(**kwargs)
 
-        if "data_format" in kwargs and kwargs["data_format"] == "channels_first":
+        if self.pooling.data_format == "channels_first":
             self.group_axis = self.dimensions + 2
             self.channels_axis = 1
         else:
-- 
2.43.0


From 5294273e8bc7b7b30d1844a1a0f1d74115eb4ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 04/36] fix: group pooling without strides checked equivariance
 for stride 1

Keras pools with strides equal to the pool size by default, so the default
layer silently dropped the last row and column on misaligned grids.
---
 groco/layers/pooling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 6bfd7d8..53c715e 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -32,11 +32,13 @@ class GroupPooling(Layer):
         allow_non_equivariance: bool = False,
         subgroup="",
         pool_size=2,
+        strides=None,
         **kwargs
     ):
         super().__init__()
 
         self.dimensions = dimensions
+        strides = pool_size if strides is None else strides
         self.group_transforms = GroupTransforms(
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=pool_size,
@@ -44,6 +46,7 @@ class GroupPooling(Layer):
             group=group,
             subgroup=subgroup,
             pooling=True,
+            strides=strides,
             **kwargs
         )
         kwargs["padding"] = self.group_transforms.built_in_padding_option
@@ -55,7 +58,7 @@ class GroupPooling(Layer):
             pool_layer = MaxPooling2D if self.pool_type == "max" else AveragePooling2D
         else:
             pool_layer = MaxPooling3D if self.pool_type == "max" else AveragePooling3D
-        self.pooling = pool_layer(pool_size=pool_size, **kwargs)
+        self.pooling = pool_layer(pool_size=pool_size, strides=strides, **kwargs)
 
     def call(self, inputs):
         inputs = self.group_transforms.subgroup_pooling(inputs, self.pool_type)
-- 
2.43.0


From 740412250883fc9b0c0290990b51b32d34b8336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 05/36] fix: accept lists for kernel size and strides in the
 equivariant padding

As Keras does; a list was treated as a single number per axis.
---
 groco/layers/padding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index c6b49fb..1196c64 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -47,13 +47,13 @@ class EquivariantPadding(Layer):
         self.dimensions = dimensions
         self.strides = ops.cast(
             strides
-            if isinstance(strides, tuple)
+            if isinstance(strides, (tuple, list))
             else tuple(strides for _ in range(self.dimensions)),
             "int32",
         )
         self.kernel_sizes = ops.cast(
             kernel_size
-            if isinstance(kernel_size, tuple)
+            if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
-- 
2.43.0


From 6d8c7c216744bd03a6426cef326b500c88cc05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 06/36] fix: accept padding options in any letter case
 throughout

They were validated case-insensitively, but SAME_EQUIV and VALID_EQUIV were
then passed on to Keras unchanged.
---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 1196c64..6344bcb 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -41,7 +41,7 @@ class EquivariantPadding(Layer):
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
-        self.built_in_padding_option = padding[:-6] if padding.endswith("_equiv") else padding
+        self.built_in_padding_option = self.padding_option.removesuffix("_EQUIV").lower()
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
-- 
2.43.0


From a56dc6402732fd94a914902703d4da800a909975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 07/36] fix: transposed convolutions padded the wrong side or
 refused image sizes

---
 groco/layers/padding.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 6344bcb..22cd1d7 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -109,7 +109,11 @@ class EquivariantPadding(Layer):
                 return ops.zeros_like(self.kernel_sizes)
 
     def compute_extra_padding(self, spatial_shape, built_in_padding):
-        extra_padding = (-(spatial_shape + built_in_padding - self.kernel_sizes)) % self.strides
+        if self.transpose:
+            # the strides of a transposed convolution upsample, no part of the image is skipped
+            extra_padding = ops.zeros_like(self.kernel_sizes)
+        else:
+            extra_padding = (-(spatial_shape + built_in_padding - self.kernel_sizes)) % self.strides
         # add stride where necessary to make total padding even
         total_padding = extra_padding + built_in_padding
         extra_padding = extra_padding + (total_padding % 2) * self.strides
@@ -127,6 +131,9 @@ class EquivariantPadding(Layer):
         # to make the total padding the same on both sides
         pads_after = paddings // 2
         pads_before = paddings - pads_after
+        if self.transpose:
+            # here the 'same' padding crops the output, so the opposite side is the other one
+            pads_before, pads_after = pads_after, pads_before
 
         return ops.concatenate(
             [ops.expand_dims(pads_before, axis=1), ops.expand_dims(pads_after, axis=1)], axis=1
-- 
2.43.0


From 99cbbbc61a72a4f9c274147d73f93960e2dc676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 08/36] fix: the equivariant padding ignored the dilation rate

---
 groco/layers/padding.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 22cd1d7..ae7b9d0 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -27,6 +27,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance: bool, whether to allow non-equivariant padding.
         data_format: string, one of 'channels_last', 'channels_first'.
         transpose: bool, whether the layer is a transposed convolution.
+        dilation_rate: int or tuple of int, the dilation rate of the convolution.
     """
 
     def __init__(
@@ -38,6 +39,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance=False,
         data_format="channels_last",
         transpose=False,
+        dilation_rate=1,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -57,6 +59,14 @@ class EquivariantPadding(Layer):
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
+        # what matters is the part of the image the kernel covers, including any dilation
+        dilation_rates = ops.cast(
+            dilation_rate
+            if isinstance(dilation_rate, (tuple, list))
+            else tuple(dilation_rate for _ in range(self.dimensions)),
+            "int32",
+        )
+        self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
         self.data_format = data_format
         self.transpose = transpose
         # set during build
-- 
2.43.0


From d32946b3441e82bbe28ca7c99c364255a47e80c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 09/36] fix: the padding of a layer was fixed by the first
 image size it saw

---
 groco/layers/padding.py | 57 ++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index ae7b9d0..6e0e82e 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -1,3 +1,4 @@
+import numpy as np
 from keras import ops
 from keras.layers import Layer
 
@@ -47,20 +48,21 @@ class EquivariantPadding(Layer):
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
-        self.strides = ops.cast(
+        # all numpy, so the padding can also be computed inside a compiled function
+        self.strides = np.array(
             strides
             if isinstance(strides, (tuple, list))
             else tuple(strides for _ in range(self.dimensions)),
             "int32",
         )
-        self.kernel_sizes = ops.cast(
+        self.kernel_sizes = np.array(
             kernel_size
             if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
         # what matters is the part of the image the kernel covers, including any dilation
-        dilation_rates = ops.cast(
+        dilation_rates = np.array(
             dilation_rate
             if isinstance(dilation_rate, (tuple, list))
             else tuple(dilation_rate for _ in range(self.dimensions)),
@@ -69,40 +71,41 @@ class EquivariantPadding(Layer):
         self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
         self.data_format = data_format
         self.transpose = transpose
-        # set during build
-        self.equivariant_padding = None
-        self.needs_padding = None
-
         super().__init__()
 
     def call(self, inputs):
-        if self.needs_padding:
-            return ops.pad(inputs, self.equivariant_padding)
+        # the padding depends on the size of the image, which may differ from the one during build
+        equivariant_padding = self.find_padding(inputs.shape)
+        if equivariant_padding is not None:
+            return ops.pad(inputs, equivariant_padding)
         else:
             return inputs
 
     def build(self, input_shape):
+        self.find_padding(input_shape)
+
+    def find_padding(self, input_shape):
+        """The padding on both sides of all axes, or None if no padding is needed."""
         if self.padding_option in ["SAME", "VALID"] and self.allow_non_equivariance:
-            self.needs_padding = False
-            return
+            return None
 
         if self.data_format == "channels_last":
-            spatial_shape = ops.cast(input_shape[1 : 1 + self.dimensions], "int32")
+            spatial_shape = np.array(input_shape[1 : 1 + self.dimensions], "int32")
         else:
-            spatial_shape = ops.cast(input_shape[2:], "int32")
+            spatial_shape = np.array(input_shape[2:], "int32")
         extra_padding, total_padding = self.compute_equivariant_padding(spatial_shape)
 
-        self.needs_padding = ops.any(extra_padding != 0)
-        if not self.needs_padding:
-            return
+        needs_padding = np.any(extra_padding != 0)
+        if not needs_padding:
+            return None
         elif self.padding_option in ["SAME", "VALID"]:
             raise self.non_equivariant_error(spatial_shape)
 
         # if the stride is even the padding can still be odd, no padding will maintain equivariance
-        if ops.any(total_padding % 2 != 0):
+        if np.any(total_padding % 2 != 0):
             raise self.padding_parity_error(spatial_shape)
 
-        self.equivariant_padding = self.split_padding(extra_padding)
+        return self.split_padding(extra_padding)
 
     def compute_equivariant_padding(self, spatial_shape):
         built_in_padding = self.compute_built_in_padding(spatial_shape)
@@ -111,17 +114,19 @@ class EquivariantPadding(Layer):
 
     def compute_built_in_padding(self, spatial_shape):
         if self.padding_option in ["SAME", "SAME_EQUIV"]:
-            return ops.relu(self.kernel_sizes - self.strides + (-spatial_shape % self.strides))
+            return np.maximum(
+                self.kernel_sizes - self.strides + (-spatial_shape % self.strides), 0
+            )
         else:
             if self.transpose:
-                return ops.relu(self.strides - self.kernel_sizes)
+                return np.maximum(self.strides - self.kernel_sizes, 0)
             else:
-                return ops.zeros_like(self.kernel_sizes)
+                return np.zeros_like(self.kernel_sizes)
 
     def compute_extra_padding(self, spatial_shape, built_in_padding):
         if self.transpose:
             # the strides of a transposed convolution upsample, no part of the image is skipped
-            extra_padding = ops.zeros_like(self.kernel_sizes)
+            extra_padding = np.zeros_like(self.kernel_sizes)
         else:
             extra_padding = (-(spatial_shape + built_in_padding - self.kernel_sizes)) % self.strides
         # add stride where necessary to make total padding even
@@ -133,9 +138,9 @@ class EquivariantPadding(Layer):
     def split_padding(self, paddings):
         # add 0 at both ends, not to pad the batch and channel axes
         if self.data_format == "channels_last":
-            paddings = ops.pad(paddings, [[1, 1]])
+            paddings = np.pad(paddings, [[1, 1]])
         else:
-            paddings = ops.pad(paddings, [[2, 0]])
+            paddings = np.pad(paddings, [[2, 0]])
 
         # paddings may be odd if the 'same' paddings are too, must make sure to do this opposite to 'same' padding
         # to make the total padding the same on both sides
@@ -145,9 +150,7 @@ class EquivariantPadding(Layer):
             # here the 'same' padding crops the output, so the opposite side is the other one
             pads_before, pads_after = pads_after, pads_before
 
-        return ops.concatenate(
-            [ops.expand_dims(pads_before, axis=1), ops.expand_dims(pads_after, axis=1)], axis=1
-        )
+        return np.stack([pads_before, pads_after], axis=1)
 
     def get_config(self):
         return {
-- 
2.43.0


From d557146b0ce7790553fd48b6b8f98a13219e8b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 10/36] fix: pooling with an odd same_equiv padding was not
 equivariant

---
 groco/layers/padding.py | 8 ++++++--
 groco/layers/pooling.py | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 6e0e82e..b79028f 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -29,6 +29,8 @@ class EquivariantPadding(Layer):
         data_format: string, one of 'channels_last', 'channels_first'.
         transpose: bool, whether the layer is a transposed convolution.
         dilation_rate: int or tuple of int, the dilation rate of the convolution.
+        pooling: bool, whether the layer is a pooling layer. If so all padding is done here where
+            any is needed, as pooling does not treat its own padding as zeros.
     """
 
     def __init__(
@@ -41,6 +43,7 @@ class EquivariantPadding(Layer):
         data_format="channels_last",
         transpose=False,
         dilation_rate=1,
+        pooling=False,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -71,6 +74,7 @@ class EquivariantPadding(Layer):
         self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
         self.data_format = data_format
         self.transpose = transpose
+        self.pooling = pooling
         super().__init__()
 
     def call(self, inputs):
@@ -92,7 +96,7 @@ class EquivariantPadding(Layer):
         if self.data_format == "channels_last":
             spatial_shape = np.array(input_shape[1 : 1 + self.dimensions], "int32")
         else:
-            spatial_shape = np.array(input_shape[2:], "int32")
+            spatial_shape = np.array(input_shape[2 : 2 + self.dimensions], "int32")
         extra_padding, total_padding = self.compute_equivariant_padding(spatial_shape)
 
         needs_padding = np.any(extra_padding != 0)
@@ -105,7 +109,7 @@ class EquivariantPadding(Layer):
         if np.any(total_padding % 2 != 0):
             raise self.padding_parity_error(spatial_shape)
 
-        return self.split_padding(extra_padding)
+        return self.split_padding(total_padding if self.pooling else extra_padding)
 
     def compute_equivariant_padding(self, spatial_shape):
         built_in_padding = self.compute_built_in_padding(spatial_shape)
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 53c715e..8430704 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -59,11 +59,15 @@ class GroupPooling(Layer):
         else:
             pool_layer = MaxPooling3D if self.pool_type == "max" else AveragePooling3D
         self.pooling = pool_layer(pool_size=pool_size, strides=strides, **kwargs)
+        # for inputs that need extra padding, which then includes the built-in padding
+        kwargs["padding"] = "valid"
+        self.padded_pooling = pool_layer(pool_size=pool_size, strides=strides, **kwargs)
 
     def call(self, inputs):
         inputs = self.group_transforms.subgroup_pooling(inputs, self.pool_type)
+        padding = self.group_transforms.equivariant_padding.find_padding(inputs.shape)
         inputs = self.group_transforms.merge_group_axis_and_pad(inputs)
-        outputs = self.pooling(inputs)
+        outputs = self.pooling(inputs) if padding is None else self.padded_pooling(inputs)
         return self.group_transforms.restore_group_axis(outputs)
 
     def build(self, input_shape):
-- 
2.43.0


From ef9dec9b9868b763b718427b7454961ff9e442d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 11/36] fix: a failing call left the layer with its transformed
 kernel

---
 groco/utils/misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 992e9e1..0e318fe 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -6,9 +6,11 @@ def backup_and_restore(attribute_names):
     def decorator(function):
         def wrapper(self, inputs):
             backup = {name: getattr(self, name) for name in attribute_names}
-            result = function(self, inputs)
-            for name in attribute_names:
-                setattr(self, name, backup[name])
+            try:
+                result = function(self, inputs)
+            finally:
+                for name in attribute_names:
+                    setattr(self, name, backup[name])
             return result
 
         return wrapper
-- 
2.43.0


From 46617e2699c29cced4c5b7401e308fdf45ec661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 12/36] fix: layers with another dtype failed on the float32 of
 their padding

---
 groco/layers/padding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index b79028f..5b55953 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -75,7 +75,8 @@ class EquivariantPadding(Layer):
         self.data_format = data_format
         self.transpose = transpose
         self.pooling = pooling
-        super().__init__()
+        # keep the inputs in the dtype of the layer this is used in
+        super().__init__(autocast=False)
 
     def call(self, inputs):
         # the padding depends on the size of the image, which may differ from the one during build
-- 
2.43.0


From 7498139dadb2063f723fe5bc1180189a8620c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 13/36] fix: pooling layers ignored their name, dtype and
 trainable options

---
 groco/layers/pooling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 8430704..4465858 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -35,7 +35,8 @@ class GroupPooling(Layer):
         strides=None,
         **kwargs
     ):
-        super().__init__()
+        layer_kwargs = {k: kwargs[k] for k in ("name", "dtype", "trainable") if k in kwargs}
+        super().__init__(**layer_kwargs)
 
         self.dimensions = dimensions
         strides = pool_size if strides is None else strides
@@ -87,7 +88,8 @@ class GlobalGroupPooling(Layer):
     """
 
     def __init__(self, dimensions: int, pool_type: str, **kwargs):
-        super().__init__()
+        layer_kwargs = {k: kwargs[k] for k in ("name", "dtype", "trainable") if k in kwargs}
+        super().__init__(**layer_kwargs)
         self.dimensions = dimensions
         self.pool_type = pool_type
         if self.dimensions == 1:
-- 
2.43.0


From 5cce241509c2c83a7b9d3e2f92446b0b380308ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 14/36] fix: layer configurations could not be read back

---
 groco/layers/group_transforms.py |  9 ++++++---
 groco/layers/padding.py          | 10 ++++++++--
 groco/layers/pooling.py          |  2 ++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 9b30c6b..a73601d 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -225,9 +225,12 @@ class GroupTransforms:
         )
 
     def get_config(self):
-        config = {"group": self.group, "subgroup": self.subgroup.name}
-        config.update(self.equivariant_padding.get_config())
-        return config
+        return {
+            "group": self.group.name,
+            "subgroup": self.subgroup.name,
+            "padding": self.equivariant_padding.padding_option.lower(),
+            "allow_non_equivariance": self.equivariant_padding.allow_non_equivariance,
+        }
 
     def prepare_call(self, kernel, bias, filters, inputs, use_bias):
         inputs = self.merge_group_axis_and_pad(inputs)
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 5b55953..6dbf4ad 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -75,6 +75,8 @@ class EquivariantPadding(Layer):
         self.data_format = data_format
         self.transpose = transpose
         self.pooling = pooling
+        self.kernel_size = kernel_size
+        self.dilation_rate = dilation_rate
         # keep the inputs in the dtype of the layer this is used in
         super().__init__(autocast=False)
 
@@ -160,10 +162,14 @@ class EquivariantPadding(Layer):
     def get_config(self):
         return {
             "kernel_size": self.kernel_size,
-            "strides": self.strides,
-            "padding": self.padding,
+            "strides": self.strides.tolist(),
+            "padding": self.padding_option.lower(),
             "allow_non_equivariance": self.allow_non_equivariance,
             "dimensions": self.dimensions,
+            "data_format": self.data_format,
+            "transpose": self.transpose,
+            "dilation_rate": self.dilation_rate,
+            "pooling": self.pooling,
         }
 
     @staticmethod
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 4465858..5c4a8d9 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -78,6 +78,7 @@ class GroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         config.update(self.group_transforms.get_config())
         return config
 
@@ -135,6 +136,7 @@ class GlobalGroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         return config
 
 
-- 
2.43.0


From 1b88c23594858f8eb100d8a045f15ea5591c69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 15/36] fix: predicted output shapes ignored the subgroup, the
 padding and the input shape

---
 groco/layers/conv2d.py           |  4 ++--
 groco/layers/conv2d_transpose.py |  4 ++--
 groco/layers/conv3d.py           |  4 ++--
 groco/layers/conv3d_transpose.py |  4 ++--
 groco/layers/group_transforms.py | 23 +++++++++++++++++++----
 5 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 60dc8b9..b88dda9 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -81,8 +81,8 @@ class GroupConv2D(Conv2D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.prepare_input_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
 
 
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index b5c12e6..e265877 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -79,6 +79,6 @@ class GroupConv2DTranspose(Conv2DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.prepare_input_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index edb1485..df84e4f 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -81,8 +81,8 @@ class GroupConv3D(Conv3D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.prepare_input_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
 
 
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 2445d47..7b9393a 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -85,6 +85,6 @@ class GroupConv3DTranspose(Conv3DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.prepare_input_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index a73601d..111feac 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -217,12 +217,27 @@ class GroupTransforms:
 
         return indices
 
+    def prepare_input_shape(self, input_shape):
+        """The shape of the input after merging the group axis, if present, and padding."""
+        if len(input_shape) == self.dimensions + 3:
+            input_shape = utils.merge_shapes(
+                input_shape,
+                merged_axis=self.group_axis,
+                target_axis=1 if self.data_format == "channels_first" else -1,
+            )
+        padding = self.equivariant_padding.find_padding(input_shape)
+        if padding is not None:
+            input_shape = [
+                size if size is None else size + int(before + after)
+                for size, (before, after) in zip(input_shape, padding)
+            ]
+        return tuple(input_shape)
+
     def correct_output_shape(self, output_shape):
         """Insert the group axis in the correct place."""
-        output_shape = list(output_shape)
-        return (
-            output_shape[: self.group_axis] + [self.group.order] + output_shape[self.group_axis :]
-        )
+        order = len(self.group.subgroup[self.acting_group])
+        output_shape = tuple(output_shape)
+        return output_shape[: self.group_axis] + (order,) + output_shape[self.group_axis :]
 
     def get_config(self):
         return {
-- 
2.43.0


From 4e1c394c00cf3c3efa14f61277ecda15c302d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 16/36] fix: signals with another group axis were accepted
 after the first call, or by pooling

---
 groco/layers/conv2d.py           | 7 ++++++-
 groco/layers/conv2d_transpose.py | 7 ++++++-
 groco/layers/conv3d.py           | 7 ++++++-
 groco/layers/conv3d_transpose.py | 7 ++++++-
 groco/layers/pooling.py          | 7 +++++++
 5 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index b88dda9..dd40c32 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -73,7 +73,12 @@ class GroupConv2D(Conv2D):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                group_axis: input_shape[group_axis],
+            }
+        self.input_spec.ndim = len(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index e265877..61be6a5 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -71,7 +71,12 @@ class GroupConv2DTranspose(Conv2DTranspose):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                group_axis: input_shape[group_axis],
+            }
+        self.input_spec.ndim = len(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index df84e4f..4435694 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -73,7 +73,12 @@ class GroupConv3D(Conv3D):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                group_axis: input_shape[group_axis],
+            }
+        self.input_spec.ndim = len(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 7b9393a..360bdb5 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -77,7 +77,12 @@ class GroupConv3DTranspose(Conv3DTranspose):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                group_axis: input_shape[group_axis],
+            }
+        self.input_spec.ndim = len(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 5c4a8d9..9efa936 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -9,6 +9,7 @@ from keras.layers import (
     GlobalMaxPooling1D,
     GlobalMaxPooling2D,
     GlobalMaxPooling3D,
+    InputSpec,
     Layer,
     MaxPooling1D,
     MaxPooling2D,
@@ -72,7 +73,13 @@ class GroupPooling(Layer):
         return self.group_transforms.restore_group_axis(outputs)
 
     def build(self, input_shape):
+        if len(input_shape) != self.dimensions + 3:
+            raise ValueError(f"Group pooling needs a signal on the group, got shape {input_shape}.")
         self.group_transforms.build(input_shape)
+        group_axis = self.group_transforms.group_axis
+        self.input_spec = InputSpec(
+            ndim=len(input_shape), axes={group_axis: input_shape[group_axis]}
+        )
         self.pooling.build(self.group_transforms.reshaped_input)
         self.group_transforms.build_pool()
 
-- 
2.43.0


From dfc0ee55fb21384d443db6165d4f225175d37ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 17/36] fix: a refused first input made a layer refuse or
 mishandle later ones

---
 groco/layers/group_transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 111feac..9ba16cb 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -136,11 +136,13 @@ class GroupTransforms:
     def build(self, input_shape):
         # apart from the spatial dimensions, there are feature and batch axes
         # if there is a third axis, it is the group axis and the input is a signal on the group
+        # (set everything from scratch, an earlier attempt to build may have been refused)
         self.group_valued_input = len(input_shape) == self.dimensions + 3
+        self.domain_group = (self.subgroup if self.transpose else self.group).name
         if not self.group_valued_input:
             self.domain_group = None
-        if self.data_format == "channels_last" and self.group_valued_input:
-            self.channels_axis += 1
+        if self.data_format == "channels_last":
+            self.channels_axis = self.dimensions + 1 + self.group_valued_input
 
         if self.group_valued_input:
             order = len(self.group.subgroup[self.domain_group])
-- 
2.43.0


From f9535061e77c8fda047299d677cf6cfcc099168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 18/36] fix: P2MM lacked its subgroup P2

---
 groco/groups/wallpaper_groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groco/groups/wallpaper_groups.py b/groco/groups/wallpaper_groups.py
index f209b73..e41c8fe 100644
--- a/groco/groups/wallpaper_groups.py
+++ b/groco/groups/wallpaper_groups.py
@@ -148,8 +148,8 @@ P2MM = Group(
     order=4,
     inverses=[0, 1, 2, 3],
     composition=[[0, 1, 2, 3], [1, 0, 3, 2], [2, 3, 0, 1], [3, 2, 1, 0]],
-    subgroup={"P2MM": [0, 1, 2, 3], "PMh": [0, 2], "PMw": [0, 1], "P1": [0]},
-    cosets={"P2MM": [0], "PMh": [0, 1], "PMw": [0, 2], "P1": [0, 1, 2, 3]},
+    subgroup={"P2MM": [0, 1, 2, 3], "PMh": [0, 2], "PMw": [0, 1], "P2": [0, 3], "P1": [0]},
+    cosets={"P2MM": [0], "PMh": [0, 1], "PMw": [0, 2], "P2": [0, 1], "P1": [0, 1, 2, 3]},
     action=P2MM_action,
 )
 PMh = Group(
-- 
2.43.0


From 83135b4eb219e8a0a125fb252ebac709fefda5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 19/36] fix: space group actions assumed adjacent spatial axes

---
 groco/groups/space_groups.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index 7748923..cef3184 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -10,13 +10,12 @@ Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
 def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
-    offset = spatial_axes[0]
-    prefix = tuple(range(offset))
-    suffix = tuple(range(offset + 3, ops.ndim(signal)))
-    Oh_params = [
-        (prefix + tuple(p + offset for p in perm) + suffix, [f + offset for f in flip])
-        for (perm, flip) in Oh_parameters
-    ]
+    Oh_params = []
+    for perm, flip in Oh_parameters:
+        axes = list(range(ops.ndim(signal)))
+        for axis, p in zip(spatial_axes, perm):
+            axes[axis] = spatial_axes[p]
+        Oh_params.append((tuple(axes), [spatial_axes[f] for f in flip]))
     transformed_signals = []
     for perm, flip in Oh_params:
         transformed_signal = signal
-- 
2.43.0


From a5b269ba69118bd6226f3e51e0fe6fea6a271e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 20/36] fix: models built while being traced kept tensors of
 the trace

---
 groco/layers/group_transforms.py | 18 ++++++++++--------
 groco/utils/misc.py              | 22 ++++++++++++++++++++++
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 9ba16cb..0fa9ce8 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -160,16 +160,18 @@ class GroupTransforms:
         self.equivariant_padding.build(reshaped_input)
 
     def build_conv(self, kernel, bias, use_bias):
-        if use_bias:
-            self._repeated_bias_indices = self._compute_repeated_bias_indices(bias)
-        self._transformed_kernel_indices = self._compute_transformed_kernel_indices(kernel)
+        with utils.eager_scope():
+            if use_bias:
+                self._repeated_bias_indices = self._compute_repeated_bias_indices(bias)
+            self._transformed_kernel_indices = self._compute_transformed_kernel_indices(kernel)
 
     def build_pool(self):
-        indices = ops.take(
-            self.group.composition, axis=1, indices=self.group.cosets[self.subgroup.name]
-        )
-        subgroup_indices = self.group.subgroup[self.subgroup.name]
-        self._pooling_indices = ops.take(indices, axis=0, indices=subgroup_indices)
+        with utils.eager_scope():
+            indices = ops.take(
+                self.group.composition, axis=1, indices=self.group.cosets[self.subgroup.name]
+            )
+            subgroup_indices = self.group.subgroup[self.subgroup.name]
+            self._pooling_indices = ops.take(indices, axis=0, indices=subgroup_indices)
 
     def _compute_repeated_bias_indices(self, bias):
         """Compute a 1D tensor of indices used to gather from the bias in order to repeat it across the group axis."""
diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 0e318fe..77c4220 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -1,3 +1,25 @@
+from contextlib import nullcontext
+
+from keras import backend
+
+
+def eager_scope():
+    """
+    Context in which tensors are computed right away, even while a model is being traced.
+
+    Needed for tensors that are kept, as those computed during tracing are only valid there.
+    """
+    if backend.backend() == "jax":
+        import jax
+
+        return jax.ensure_compile_time_eval()
+    if backend.backend() == "tensorflow":
+        import tensorflow as tf
+
+        return tf.init_scope()
+    return nullcontext()
+
+
 def backup_and_restore(attribute_names):
     """
     Decorator that backs up given attributes, runs the function, and then restores the backed up values.
-- 
2.43.0


From 50dfda9fe539b74496ee45d9eb1a667699f1a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 21/36] fix: kernels on a subgroup were not zero outside of it

---
 groco/layers/group_transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 0fa9ce8..84a9233 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -103,7 +103,9 @@ class GroupTransforms:
         (height, width, domain_group.order * channels_in, channels_out) ->
         (height, width, domain_group.order * channels_in, acting_group.order * channels_out)
         """
-        return ops.take(ops.reshape(kernel, [-1]), indices=self._transformed_kernel_indices, axis=0)
+        # index 0 is for the zeros that the group action fills in outside of the domain group
+        kernel = ops.pad(ops.reshape(kernel, [-1]), [[1, 0]])
+        return ops.take(kernel, indices=self._transformed_kernel_indices, axis=0)
 
     def restore_group_axis(self, outputs):
         """
@@ -187,7 +189,7 @@ class GroupTransforms:
         if self.transpose:
             kernel = ops.swapaxes(kernel, -1, -2)
 
-        indices = utils.get_index_tensor(kernel)
+        indices = utils.get_index_tensor(kernel) + 1
 
         kwargs = {
             "new_group_axis": self.dimensions,
-- 
2.43.0


From 66820ad1eacc29510030e8ac75442502b319a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:34 +0000
Subject: [PATCH 22/36] fix: D4 and D4h refused images and kernels that only
 they leave unchanged

---
 groco/groups/space_groups.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index cef3184..d316bbf 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -1,4 +1,5 @@
 import itertools
+from functools import partial
 
 from keras import ops
 
@@ -9,9 +10,9 @@ Oh_permutation_tuples = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0),
 Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
-def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
+def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3, elements=range(48)):
     Oh_params = []
-    for perm, flip in Oh_parameters:
+    for perm, flip in [Oh_parameters[element] for element in elements]:
         axes = list(range(ops.ndim(signal)))
         for axis, p in zip(spatial_axes, perm):
             axes[axis] = spatial_axes[p]
@@ -2486,8 +2487,14 @@ Oh = Group(
 )
 
 O = Group(name="O", order=24, parent=Oh)
-D4h = Group(name="D4h", order=16, parent=Oh)
-D4 = Group(name="D4", order=8, parent=Oh)
+# these act with only their own elements, so that the third spatial axis can have its own size
+D4h = Group(
+    name="D4h",
+    order=16,
+    parent=Oh,
+    action=partial(Oh_action, elements=Oh.subgroup["D4h"]),
+)
+D4 = Group(name="D4", order=8, parent=Oh, action=partial(Oh_action, elements=Oh.subgroup["D4"]))
 
 
 space_group_dict = {"Oh": Oh, "O": O, "D4h": D4h, "D4": D4}
-- 
2.43.0


From 64dbc4b4595e8cfb15076f0ce8c0e2b431da0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 23/36] fix: transposed convolutions gathered their kernel with
 its channels and filters mixed up

The indices numbered the kernel with its last axes swapped, while they gather from the kernel as it is stored.
---
 groco/layers/group_transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 84a9233..b97e08a 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -186,10 +186,10 @@ class GroupTransforms:
         """
         Compute a tensor of indices used to gather from the kernel to produce the group action on it.
         """
-        if self.transpose:
-            kernel = ops.swapaxes(kernel, -1, -2)
-
+        # these index the kernel as it is stored, so only then move its filters to the end
         indices = utils.get_index_tensor(kernel) + 1
+        if self.transpose:
+            indices = ops.swapaxes(indices, -1, -2)
 
         kwargs = {
             "new_group_axis": self.dimensions,
-- 
2.43.0


From 72f6abfd110f26eef4c0752096be1c49d2c220dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:10 +0000
Subject: [PATCH 24/36] fix: a first input of another rank was taken for a grid
 signal

It built the layer for that rank, so that all later signals were refused.
---
 groco/layers/group_transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index b97e08a..138b7b1 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -139,6 +139,8 @@ class GroupTransforms:
         # apart from the spatial dimensions, there are feature and batch axes
         # if there is a third axis, it is the group axis and the input is a signal on the group
         # (set everything from scratch, an earlier attempt to build may have been refused)
+        if len(input_shape) not in (self.dimensions + 2, self.dimensions + 3):
+            raise ValueError(f"Got an input of shape {input_shape}, no signal on the grid or group.")
         self.group_valued_input = len(input_shape) == self.dimensions + 3
         self.domain_group = (self.subgroup if self.transpose else self.group).name
         if not self.group_valued_input:
-- 
2.43.0


From 8c9ef5c774fd66d351769a2ed15827855394aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 25/36] fix: accept the data format in any letter case, as
 Keras does

---
 groco/layers/group_transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 138b7b1..ac27930 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -40,7 +40,7 @@ class GroupTransforms:
     ):
         super().__init__()
 
-        data_format = data_format or image_data_format()
+        data_format = (data_format or image_data_format()).lower()
         self.dimensions = dimensions
         self.transpose = transpose
         self.separable = separable
-- 
2.43.0


From b276be42bfd9ae801146e4a273eab65391d6e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:10 +0000
Subject: [PATCH 26/36] fix: transposed convolutions of grid signals accepted
 subgroups the group does not contain

---
 groco/layers/group_transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index ac27930..4fa3c5d 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -46,7 +46,10 @@ class GroupTransforms:
         self.separable = separable
 
         self.group = group if isinstance(group, Group) else group_dict[group]
-        self.subgroup = group_dict[self.group.parse_subgroup(subgroup)]
+        subgroup = self.group.parse_subgroup(subgroup)
+        if subgroup not in self.group.subgroup:
+            raise ValueError(f"{subgroup} is not a subgroup of {self.group.name}.")
+        self.subgroup = group_dict[subgroup]
         self.domain_group, self.acting_group = self.group.name, self.subgroup.name
         if transpose:
             self.domain_group, self.acting_group = self.acting_group, self.domain_group
-- 
2.43.0


From 3b96ec528d42756a3be4f13a298c203574108975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:22 +0000
Subject: [PATCH 27/36] fix: subgroup=None was refused, though documented to
 mean the whole group

---
 groco/layers/group_transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 4fa3c5d..786a235 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -46,7 +46,7 @@ class GroupTransforms:
         self.separable = separable
 
         self.group = group if isinstance(group, Group) else group_dict[group]
-        subgroup = self.group.parse_subgroup(subgroup)
+        subgroup = self.group.parse_subgroup(subgroup or "")
         if subgroup not in self.group.subgroup:
             raise ValueError(f"{subgroup} is not a subgroup of {self.group.name}.")
         self.subgroup = group_dict[subgroup]
-- 
2.43.0


From 3a3af383fe4c7d4290e53274135642191343a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 28/36] fix: negative axes gave wrong values or errors when
 acting with a group

---
 groco/groups/group.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index 8a6e856..4d866a7 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -73,6 +73,11 @@ class Group:
             Tensor of the signal acted on by the group.
         """
         acting_group, domain_group = self.parse_subgroups(acting_group, domain_group)
+        # negative axes count from the end, as everywhere else
+        rank = len(signal.shape)
+        spatial_axes = tuple(axis % rank for axis in spatial_axes)
+        new_group_axis %= rank + 1
+        group_axis = group_axis if group_axis is None else group_axis % rank
         action = self._action_on_group if domain_group else self._action_on_grid
         signal = action(
             signal,
@@ -136,6 +141,7 @@ class Group:
 
     def upsample(self, signal, group_axis, domain_group):
         domain_group_indices = self.subgroup[domain_group]
+        group_axis %= len(signal.shape)
         zeros = ops.zeros(
             shape=signal.shape[:group_axis] + (1,) + signal.shape[group_axis + 1 :],
             dtype=signal.dtype,
-- 
2.43.0


From 2b6ba8f8933282c74d63d107361e50f93b5cacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 29/36] fix: the option groups put group elements instead of
 channels in separate groups

---
 groco/layers/group_transforms.py | 46 +++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 786a235..045d292 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -36,6 +36,7 @@ class GroupTransforms:
         subgroup="",
         transpose=False,
         separable=False,
+        groups=1,
         **kwargs,
     ):
         super().__init__()
@@ -44,6 +45,7 @@ class GroupTransforms:
         self.dimensions = dimensions
         self.transpose = transpose
         self.separable = separable
+        self.groups = groups
 
         self.group = group if isinstance(group, Group) else group_dict[group]
         subgroup = self.group.parse_subgroup(subgroup or "")
@@ -91,6 +93,8 @@ class GroupTransforms:
             inputs = utils.merge_axes(
                 inputs, merged_axis=self.group_axis, target_axis=self.channels_axis
             )
+            if self.groups > 1:
+                inputs = ops.take(inputs, axis=self._merged_channels_axis, indices=self._input_indices)
         inputs = self.equivariant_padding(inputs)
         return inputs
 
@@ -118,14 +122,19 @@ class GroupTransforms:
         (batch, height, width, acting_group.order * channels) ->
         (batch, height, width, acting_group.order, channels)
         """
-        group_channels_axis = self.channels_axis
-        if self.group_valued_input and self.data_format == "channels_last":
-            group_channels_axis -= 1
+        group_channels_axis = self._merged_channels_axis
+        if self.groups > 1:
+            outputs = ops.take(outputs, axis=group_channels_axis, indices=self._output_indices)
         factor = len(self.group.subgroup[self.acting_group])
         out = utils.split_axes(outputs, left_size=factor, right_axis=group_channels_axis)
         out = ops.moveaxis(out, group_channels_axis, self.group_axis)
         return out
 
+    @property
+    def _merged_channels_axis(self):
+        """Axis of the channels in signals without a group axis."""
+        return 1 if self.data_format == "channels_first" else self.dimensions + 1
+
     def subgroup_pooling(self, inputs, pool_type: str):
         """
         Pool in the group direction, over a set of coset representatives, keeping the subgroup.
@@ -158,6 +167,11 @@ class GroupTransforms:
                 f"expected {order}."
             )
 
+            if input_shape[self.channels_axis] % self.groups:
+                raise ValueError(
+                    f"The {input_shape[self.channels_axis]} input channels should be divisible by "
+                    f"the number of groups, {self.groups}."
+                )
             reshaped_input = utils.merge_shapes(
                 input_shape, merged_axis=self.group_axis, target_axis=self.channels_axis
             )
@@ -171,6 +185,32 @@ class GroupTransforms:
             if use_bias:
                 self._repeated_bias_indices = self._compute_repeated_bias_indices(bias)
             self._transformed_kernel_indices = self._compute_transformed_kernel_indices(kernel)
+            if self.groups > 1:
+                self._split_channels(kernel, use_bias)
+
+    def _split_channels(self, kernel, use_bias):
+        """
+        Keras splits the channels into `groups` consecutive parts, so make the parts the slowest index,
+        with the group elements within each part.
+        """
+        if self.group_valued_input:
+            factor = len(self.group.subgroup[self.domain_group])
+            channels = self.reshaped_input[self._merged_channels_axis] // factor
+            self._input_indices = self._swap_slowest(factor, self.groups, factor * channels)
+        factor = len(self.group.subgroup[self.acting_group])
+        size = factor * kernel.shape[-1]
+        indices = self._swap_slowest(factor, self.groups, size)
+        self._output_indices = self._swap_slowest(self.groups, factor, size)
+        self._transformed_kernel_indices = ops.take(
+            self._transformed_kernel_indices, axis=-1, indices=indices
+        )
+        if use_bias:
+            self._repeated_bias_indices = ops.take(self._repeated_bias_indices, indices=indices)
+
+    def _swap_slowest(self, first, second, size):
+        """Indices that reorder an axis of shape (first, second, rest) into (second, first, rest)."""
+        indices = ops.reshape(ops.arange(size), (first, second, -1))
+        return ops.reshape(ops.swapaxes(indices, 0, 1), [-1])
 
     def build_pool(self):
         with utils.eager_scope():
-- 
2.43.0


From 56f90317b381f64d8842258dd7354e7abd16c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 30/36] fix: pooling layers did not predict their output shape

---
 groco/layers/pooling.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 9efa936..4ff899f 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -83,6 +83,16 @@ class GroupPooling(Layer):
         self.pooling.build(self.group_transforms.reshaped_input)
         self.group_transforms.build_pool()
 
+    def compute_output_shape(self, input_shape):
+        padding = self.group_transforms.equivariant_padding.find_padding(input_shape)
+        # the group axis is pooled separately
+        signal_shape = list(input_shape)
+        signal_shape.pop(self.group_transforms.group_axis)
+        signal_shape = self.group_transforms.prepare_input_shape(signal_shape)
+        pooling = self.pooling if padding is None else self.padded_pooling
+        output_shape = pooling.compute_output_shape(signal_shape)
+        return self.group_transforms.correct_output_shape(output_shape)
+
     def get_config(self):
         config = self.pooling.get_config()
         config.update(super().get_config())
@@ -141,6 +151,14 @@ class GlobalGroupPooling(Layer):
             )
         self.pooling.build(reshaped_input)
 
+    def compute_output_shape(self, input_shape):
+        signal_shape = list(input_shape)
+        signal_shape.pop(self.group_axis)
+        output_shape = tuple(self.pooling.compute_output_shape(signal_shape))
+        if self.pooling.keepdims:
+            output_shape = output_shape[: self.group_axis] + (1,) + output_shape[self.group_axis :]
+        return output_shape
+
     def get_config(self):
         config = self.pooling.get_config()
         config.update(super().get_config())
-- 
2.43.0


From ea7dc9703524c99ef58d1b15305f869f6287c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 31/36] fix: calling a layer in several threads mixed up its
 weights for good

---
 groco/utils/misc.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 77c4220..b72329b 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -1,7 +1,11 @@
+import threading
 from contextlib import nullcontext
 
 from keras import backend
 
+# attributes that are replaced during a call must not be seen by another thread
+_lock = threading.RLock()
+
 
 def eager_scope():
     """
@@ -27,12 +31,13 @@ def backup_and_restore(attribute_names):
 
     def decorator(function):
         def wrapper(self, inputs):
-            backup = {name: getattr(self, name) for name in attribute_names}
-            try:
-                result = function(self, inputs)
-            finally:
-                for name in attribute_names:
-                    setattr(self, name, backup[name])
+            with _lock:
+                backup = {name: getattr(self, name) for name in attribute_names}
+                try:
+                    result = function(self, inputs)
+                finally:
+                    for name in attribute_names:
+                        setattr(self, name, backup[name])
             return result
 
         return wrapper
-- 
2.43.0


From 38ca824d4454a3347f7b2b84efe5d285bc1ef02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 32/36] fix: deep copies of layers could not be called

---
 groco/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index b72329b..3e757ff 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -36,8 +36,9 @@ def backup_and_restore(attribute_names):
                 try:
                     result = function(self, inputs)
                 finally:
+                    # they were there before, so Keras should not track them as new ones
                     for name in attribute_names:
-                        setattr(self, name, backup[name])
+                        object.__setattr__(self, name, backup[name])
             return result
 
         return wrapper
-- 
2.43.0


From 613a301a2a447b59fd96f955703fed7a128d5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 33/36] fix: configurations and shapes read while another
 thread calls a layer were wrong

---
 groco/layers/conv2d.py           |  4 +++-
 groco/layers/conv2d_transpose.py |  4 +++-
 groco/layers/conv3d.py           |  4 +++-
 groco/layers/conv3d_transpose.py |  4 +++-
 groco/utils/misc.py              | 12 ++++++++++++
 5 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index dd40c32..9ee9a0a 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -4,7 +4,7 @@ from keras.layers import Conv2D
 
 from groco.groups import wallpaper_groups
 from groco.layers.group_transforms import GroupTransforms
-from groco.utils import backup_and_restore
+from groco.utils import backup_and_restore, exclusive
 
 
 class GroupConv2D(Conv2D):
@@ -80,11 +80,13 @@ class GroupConv2D(Conv2D):
             }
         self.input_spec.ndim = len(input_shape)
 
+    @exclusive
     def get_config(self):
         config = super().get_config()
         config.update(self.group_transforms.get_config())
         return config
 
+    @exclusive
     def compute_output_shape(self, input_shape):
         input_shape = self.group_transforms.prepare_input_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape)
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index 61be6a5..f085dcc 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -1,7 +1,7 @@
 from keras.layers import Conv2DTranspose
 
 from groco.layers.group_transforms import GroupTransforms
-from groco.utils import backup_and_restore
+from groco.utils import backup_and_restore, exclusive
 
 
 class GroupConv2DTranspose(Conv2DTranspose):
@@ -78,11 +78,13 @@ class GroupConv2DTranspose(Conv2DTranspose):
             }
         self.input_spec.ndim = len(input_shape)
 
+    @exclusive
     def get_config(self):
         config = super().get_config()
         config.update(self.group_transforms.get_config())
         return config
 
+    @exclusive
     def compute_output_shape(self, input_shape):
         input_shape = self.group_transforms.prepare_input_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape)
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index 4435694..0ad329b 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -4,7 +4,7 @@ from keras.layers import Conv3D
 
 from groco.groups import space_groups
 from groco.layers.group_transforms import GroupTransforms
-from groco.utils import backup_and_restore
+from groco.utils import backup_and_restore, exclusive
 
 
 class GroupConv3D(Conv3D):
@@ -80,11 +80,13 @@ class GroupConv3D(Conv3D):
             }
         self.input_spec.ndim = len(input_shape)
 
+    @exclusive
     def get_config(self):
         config = super().get_config()
         config.update(self.group_transforms.get_config())
         return config
 
+    @exclusive
     def compute_output_shape(self, input_shape):
         input_shape = self.group_transforms.prepare_input_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape)
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 360bdb5..36d74ea 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -1,7 +1,7 @@
 from keras.layers import Conv3DTranspose
 
 from groco.layers.group_transforms import GroupTransforms
-from groco.utils import backup_and_restore
+from groco.utils import backup_and_restore, exclusive
 
 
 class GroupConv3DTranspose(Conv3DTranspose):
@@ -84,11 +84,13 @@ class GroupConv3DTranspose(Conv3DTranspose):
             }
         self.input_spec.ndim = len(input_shape)
 
+    @exclusive
     def get_config(self):
         config = super().get_config()
         config.update(self.group_transforms.get_config())
         return config
 
+    @exclusive
     def compute_output_shape(self, input_shape):
         input_shape = self.group_transforms.prepare_input_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape)
diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 3e757ff..0ae816d 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -1,3 +1,4 @@
+import functools
 import threading
 from contextlib import nullcontext
 
@@ -44,3 +45,14 @@ def backup_and_restore(attribute_names):
         return wrapper
 
     return decorator
+
+
+def exclusive(function):
+    """Decorator for functions that should not run while another thread has replaced attributes."""
+
+    @functools.wraps(function)
+    def wrapper(self, *args, **kwargs):
+        with _lock:
+            return function(self, *args, **kwargs)
+
+    return wrapper
-- 
2.43.0


From bc5d119e72375f7eaf61714b99973d9f709df506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 34/36] fix: layers refused a user's own group

---
 groco/layers/group_transforms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 045d292..b83b7f2 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -51,8 +51,8 @@ class GroupTransforms:
         subgroup = self.group.parse_subgroup(subgroup or "")
         if subgroup not in self.group.subgroup:
             raise ValueError(f"{subgroup} is not a subgroup of {self.group.name}.")
-        self.subgroup = group_dict[subgroup]
-        self.domain_group, self.acting_group = self.group.name, self.subgroup.name
+        self.subgroup = subgroup
+        self.domain_group, self.acting_group = self.group.name, self.subgroup
         if transpose:
             self.domain_group, self.acting_group = self.acting_group, self.domain_group
 
@@ -154,7 +154,7 @@ class GroupTransforms:
         if len(input_shape) not in (self.dimensions + 2, self.dimensions + 3):
             raise ValueError(f"Got an input of shape {input_shape}, no signal on the grid or group.")
         self.group_valued_input = len(input_shape) == self.dimensions + 3
-        self.domain_group = (self.subgroup if self.transpose else self.group).name
+        self.domain_group = self.subgroup if self.transpose else self.group.name
         if not self.group_valued_input:
             self.domain_group = None
         if self.data_format == "channels_last":
@@ -215,9 +215,9 @@ class GroupTransforms:
     def build_pool(self):
         with utils.eager_scope():
             indices = ops.take(
-                self.group.composition, axis=1, indices=self.group.cosets[self.subgroup.name]
+                self.group.composition, axis=1, indices=self.group.cosets[self.subgroup]
             )
-            subgroup_indices = self.group.subgroup[self.subgroup.name]
+            subgroup_indices = self.group.subgroup[self.subgroup]
             self._pooling_indices = ops.take(indices, axis=0, indices=subgroup_indices)
 
     def _compute_repeated_bias_indices(self, bias):
@@ -293,7 +293,7 @@ class GroupTransforms:
     def get_config(self):
         return {
             "group": self.group.name,
-            "subgroup": self.subgroup.name,
+            "subgroup": self.subgroup,
             "padding": self.equivariant_padding.padding_option.lower(),
             "allow_non_equivariance": self.equivariant_padding.allow_non_equivariance,
         }
-- 
2.43.0


From b2a0ec7ecbf4f3ac4144fd718233cf9969945854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 35/36] fix: inverses of groups whose identity is not their
 first element

---
 groco/groups/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index 4d866a7..00e9787 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -171,8 +171,10 @@ class Group:
     def _compute_inverses(self, inverses):
         if inverses is not None:
             return ops.cast(inverses, dtype="int32")
+        # the only element that is its own square
+        identity = [i for i in range(self.order) if self.composition[i][i] == i][0]
         return [
-            [c for c in range(self.order) if self.composition[r][c] == 0][0]
+            [c for c in range(self.order) if self.composition[r][c] == identity][0]
             for r in range(self.order)
         ]
 
-- 
2.43.0


From 97137c82cb894d0208a043ff5207ec99679b5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 36/36] fix: the documented order of Group.composition was not
 the one used

---
 groco/groups/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index 00e9787..1f17068 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -12,7 +12,7 @@ class Group:
         order: int, the number of elements in the group.
         inverses: 1d tensor indicating the inverse of element i at position i.
         composition: 2d tensor with entry composition[r][c] the index of the group element
-            obtained by composing the inverse of the rth element with the cth element.
+            obtained by composing the rth element with the cth element (which acts first).
         subgroup: dictionary from subgroup strings to indices representing the elements in
             the subgroup.
         cosets: dictionary from subgroup strings to indices representing the elementary coset
-- 
2.43.0

