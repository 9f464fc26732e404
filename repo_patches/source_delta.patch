From 3ffcfee9ecf61d7e8e5dce804833818a0e5effb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:36 +0000
Subject: [PATCH 01/13] fix: resolve Config defaults at call time instead of
 import time

Default arguments and dataclass fields captured the values of Config when the
modules were imported, so e3x.Config.set_* had no effect on later calls.
---
 e3x/nn/modules.py    | 24 +++++++++++++++++------
 e3x/nn/wrappers.py   |  6 +++++-
 e3x/so3/irreps.py    | 45 +++++++++++++++++++++++++++++++++++---------
 e3x/so3/rotations.py |  8 ++++++--
 4 files changed, 65 insertions(+), 18 deletions(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 937a089..9e01938 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -409,7 +409,9 @@ class Tensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -740,7 +742,9 @@ class FusedTensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1142,8 +1146,12 @@ class TensorDense(nn.Module):
   max_degree: Optional[int] = None
   use_bias: bool = True
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1239,8 +1247,12 @@ class _Conv(nn.Module):
   max_degree: Optional[int] = None
   use_basis_bias: bool = False
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
diff --git a/e3x/nn/wrappers.py b/e3x/nn/wrappers.py
index af7c204..4a862ec 100644
--- a/e3x/nn/wrappers.py
+++ b/e3x/nn/wrappers.py
@@ -58,7 +58,7 @@ def basis(
     damping_fn: Optional[
         Callable[[Float[Array, '...']], Float[Array, '...']]
     ] = None,
-    cartesian_order: bool = config.Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Union[
     Float[Array, '... 1 (max_degree+1)**2 num'],
     Tuple[Float[Array, '... 1 (max_degree+1)**2 num'], Float[Array, '...']],
@@ -178,6 +178,10 @@ def basis(
   if return_cutoff and cutoff_fn is None:
     raise ValueError('return_cutoff is True, but no cutoff_fn was specified')
 
+  # Use the current global setting if no order is specified.
+  if cartesian_order is None:
+    cartesian_order = config.Config.cartesian_order
+
   # Normalize input vectors.
   norm = ops.norm(r, axis=-1, keepdims=True)  # (..., 1)
   u = r / jnp.where(norm > 0, norm, 1)
diff --git a/e3x/so3/irreps.py b/e3x/so3/irreps.py
index a7079b7..cf34147 100755
--- a/e3x/so3/irreps.py
+++ b/e3x/so3/irreps.py
@@ -15,6 +15,7 @@
 r"""Functions related to irreducible representations of rotations."""
 
 import itertools
+from typing import Optional
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -42,8 +43,8 @@ def spherical_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
     r_is_normalized: bool = False,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian spherical harmonics :math:`Y_\ell^m(\vec{r})`.
 
@@ -137,6 +138,12 @@ def spherical_harmonics(
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
   _check_degree_is_positive_or_zero(max_degree)
 
+  # Use the current global settings for unspecified options.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   with jax.ensure_compile_time_eval():
     # Load/Generate lookup table and convert to jax array.
     lookup_table = _generate_spherical_harmonics_lookup_table(max_degree)
@@ -173,7 +180,7 @@ def spherical_harmonics(
 def solid_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian (regular) solid harmonics :math:`R_\ell^m(\vec{r})`.
 
@@ -221,7 +228,7 @@ def clebsch_gordan(
     max_degree1: int,
     max_degree2: int,
     max_degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '(max_degree1+1)**2 (max_degree2+1)**2 (max_degree3+1)**2']:
   r"""Clebsch-Gordan coefficients for coupling all degrees at once.
 
@@ -248,6 +255,10 @@ def clebsch_gordan(
   _check_degree_is_positive_or_zero(max_degree2)
   _check_degree_is_positive_or_zero(max_degree3)
 
+  # Use the current global setting if no order is specified.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   with jax.ensure_compile_time_eval():
     # Load/Generate lookup table with Clebsch-Gordan coefficients.
     max_degree = max(max_degree1, max_degree2, max_degree3)
@@ -274,7 +285,7 @@ def clebsch_gordan_for_degrees(
     degree1: int,
     degree2: int,
     degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '2*degree1+1 2*degree2+1 2*degree3+1']:
   r"""Clebsch-Gordan coefficients for coupling only specific degrees.
 
@@ -300,6 +311,10 @@ def clebsch_gordan_for_degrees(
   _check_degree_is_positive_or_zero(degree2)
   _check_degree_is_positive_or_zero(degree3)
 
+  # Use the current global setting if no order is specified.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   with jax.ensure_compile_time_eval():
     # Load/Generate lookup table with Clebsch-Gordan coefficients.
     max_degree = max(degree1, degree2, degree3)
@@ -423,8 +438,8 @@ def _tensor_compression_indices(
 def tensor_to_irreps(
     x: Float[Array, '...'],  # Last degree dimensions must all have size 3.
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts a traceless symmetric tensor to irreducible representations.
 
@@ -453,6 +468,12 @@ def tensor_to_irreps(
   _check_degree_is_positive_or_zero(degree)
   _check_tensor_shape(x, degree)
 
+  # Use the current global settings for unspecified options.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   with jax.ensure_compile_time_eval():
     # Load/Generate lookup table and convert to jax array.
     lookup_table = _generate_tensor_conversion_lookup_table(degree)
@@ -509,8 +530,8 @@ def _tensor_expansion_indices(degree) -> Integer[Array, '...']:
 def irreps_to_tensor(
     x: Float[Array, '... 2*degree+1'],
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts irreducible representations to a traceless symmetric tensor.
 
@@ -537,6 +558,12 @@ def irreps_to_tensor(
         f' shape (..., {2*degree + 1}), received shape {x.shape}'
     )
 
+  # Use the current global settings for unspecified options.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   with jax.ensure_compile_time_eval():
     # Load/Generate lookup table and convert to jax array.
     lookup_table = _generate_tensor_conversion_lookup_table(degree)
diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 267bfd2..041498a 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -15,7 +15,7 @@
 """Functions for generating rotation matrices."""
 
 import functools
-from typing import Tuple, Union
+from typing import Optional, Tuple, Union
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -373,7 +373,7 @@ def _wigner_d_euler(
 def wigner_d(
     rot: Float[Array, '... 3 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2 (max_degree+1)**2']:
   r"""Wigner-D matrix corresponding to a given :math:`3\times3` rotation matrix.
 
@@ -411,6 +411,10 @@ def wigner_d(
   """
   _check_rotation_matrix_shape(rot)  # Raise if shape is not (..., 3, 3).
 
+  # Use the current global setting if no order is specified.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   with jax.ensure_compile_time_eval():
     # Load/Generate lookup table and convert to jax arrays.
     lookup_table = _generate_wigner_d_lookup_table(max_degree)
-- 
2.43.0


From 502c8e248e74cda26c01c99b8ec7ad5ea9c10063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:09 +0000
Subject: [PATCH 02/13] fix: scale norm by the maximum of each reduced slice

The global maximum of the whole array was used, so a large value in one batch
entry made the norm of small vectors in other entries underflow to zero. Norms
in the subnormal range are now handled by the derivative rule instead.
---
 e3x/ops/safe.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/e3x/ops/safe.py b/e3x/ops/safe.py
index 61ab0f7..bea23df 100644
--- a/e3x/ops/safe.py
+++ b/e3x/ops/safe.py
@@ -57,9 +57,12 @@ def norm(
     specified axis removed. If x is a 0-d array, or if axis is None, a scalar is
     returned.
   """
-  a = jnp.maximum(jnp.max(jnp.abs(x)), jnp.finfo(x.dtype).tiny)
+  a = jnp.maximum(
+      jnp.max(jnp.abs(x), axis=axis, keepdims=True), jnp.finfo(x.dtype).tiny
+  )
   b = x / a
-  return a * jnp.sqrt(jnp.sum(b * b, axis=axis, keepdims=keepdims))
+  n = a * jnp.sqrt(jnp.sum(b * b, axis=axis, keepdims=True))
+  return n if keepdims else jnp.squeeze(n, axis=axis)
 
 
 @norm.defjvp
@@ -73,7 +76,8 @@ def _norm_jvp_impl(
   (x,) = primals
   (x_dot,) = tangents
   primal_out = norm(x, axis=axis, keepdims=keepdims)
-  masked_primal_out = jnp.where(primal_out > 0, primal_out, 1)
+  not_tiny = primal_out > jnp.finfo(primal_out.dtype).tiny
+  masked_primal_out = jnp.where(not_tiny, primal_out, 1)
   if not keepdims and axis is not None:
     masked_primal_out = jnp.expand_dims(masked_primal_out, axis=axis)
   tangent_out = jnp.sum(
-- 
2.43.0


From 19e9572f36593580fb9f5073c47c8a8f80024636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:09 +0000
Subject: [PATCH 03/13] fix: prevent overflow in fast mish for negative inputs

exp(-x) squared overflowed for x < -44 and gave NaN for x < -88.
---
 e3x/nn/activations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index 4ff81e5..2b44972 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -551,9 +551,11 @@ def mish(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
     if fast:  # Faster, but requires extra memory.
-      y = jnp.exp(-x)
-      z = 2 * y + 1
-      return z / (z + 2 * y * y)
+      # The exponent is never positive to prevent overflow.
+      negative = x < 0
+      y = jnp.exp(jnp.where(negative, x, -x))
+      z = jnp.where(negative, y * (y + 2), 2 * y + 1)
+      return z / (z + jnp.where(negative, 2, 2 * y * y))
     else:
       return jnp.tanh(jax.nn.softplus(x))
 
-- 
2.43.0


From e7af75785e3b69dea6f0c42cf2f0f59893a835bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:09 +0000
Subject: [PATCH 04/13] fix: finite indexed_softmax for masked entries and
 empty rows

Rows without any valid entry were divided by zero, and masked entries could
overflow, which produced NaN values and gradients.
---
 e3x/ops/indexed.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 1611aa6..3a72a1f 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -800,7 +800,9 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
-  numerator = jnp.exp(inputs - lax.stop_gradient(maximum))
+  shifted = inputs - lax.stop_gradient(maximum)
+  # Only entries that are masked or padded can exceed the maximum.
+  numerator = jnp.exp(jnp.where(shifted > 0, 0, shifted))
   if multiplicative_mask is not None:
     numerator *= multiplicative_mask
   denominator = indexed_sum(
@@ -812,4 +814,5 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
-  return numerator / denominator
+  # Prevent division by zero when all entries are masked.
+  return numerator / jnp.where(denominator != 0, denominator, 1)
-- 
2.43.0


From 1e1ad8fe00b650396e04ecc197184d20bb9de42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:09 +0000
Subject: [PATCH 05/13] fix: alignment_rotation for antiparallel vectors along
 (1, 1, 1)

The auxiliary vector was parallel to u in this case, which resulted in the
identity matrix.
---
 e3x/so3/rotations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 041498a..2b67ded 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -136,7 +136,8 @@ def alignment_rotation(
   rot = skew + skew @ skew * (1 / safe_div)[..., None, None] + jnp.eye(3)
 
   # Handle antiparallel case.
-  w = ops.normalize(u + jnp.roll(u, shift=1, axis=-1))
+  # Note: The coordinate axis with the smallest overlap is never parallel to u.
+  w = jax.nn.one_hot(jnp.argmin(jnp.abs(u), axis=-1), 3, dtype=u.dtype)
   axis = jnp.cross(u, w)
   rot = jnp.where(mask[..., None, None], rot, rotation(axis, jnp.pi))
 
-- 
2.43.0


From 553787eb520e1af3a1533054edc7f37f6947af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:09 +0000
Subject: [PATCH 06/13] fix: survive unreadable or corrupted lookup table
 caches

An unreadable, truncated or corrupted file at the configured cache path raised
an exception instead of falling back to the packaged table or regeneration.
---
 e3x/so3/_lookup_table_generation_utility.py | 48 +++++++++++++++------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/e3x/so3/_lookup_table_generation_utility.py b/e3x/so3/_lookup_table_generation_utility.py
index 44dd3f9..9887b80 100644
--- a/e3x/so3/_lookup_table_generation_utility.py
+++ b/e3x/so3/_lookup_table_generation_utility.py
@@ -18,10 +18,22 @@ import io
 import pkgutil
 from typing import Any, Callable, Dict, IO, Optional, Tuple
 import zipfile
+import zlib
 from absl import logging
 from etils import epath
 import numpy as np
 
+# Errors that can occur when a cached lookup table is unreadable or corrupted.
+_LOAD_ERRORS = (
+    zipfile.BadZipFile,
+    zlib.error,
+    EOFError,
+    OSError,
+    IndexError,
+    KeyError,
+    ValueError,
+)
+
 
 def _load_lookup_table_from_disk(
     max_degree: int,
@@ -55,24 +67,36 @@ def _load_lookup_table_from_disk(
     and the loaded lookup table itself.
   """
   # Load cached lookup table from path specified in Config.
-  if config_cache_path is not None and config_cache_path.exists():
-    with config_cache_path.open('rb') as f:
-      return load_from_cache(f)
-  else:  # Load pre-computed lookup table included with package.
+  if config_cache_path is not None:
     try:
-      f = io.BytesIO(pkgutil.get_data(__name__, package_cache_path))
-      return load_from_cache(f)
-    except (zipfile.BadZipFile, OSError, IOError, KeyError, ValueError):
+      if config_cache_path.exists():
+        with config_cache_path.open('rb') as f:
+          return load_from_cache(f)
+    except _LOAD_ERRORS:
       logging.exception(
           (
-              'Failed to load pre-computed %s lookup table included with the %s'
-              ' package (data may be corrupted). Consider re-installing the'
-              ' package to fix this problem.'
+              "Failed to load %s lookup table from '%s' (data may be"
+              ' corrupted). Continuing without it...'
           ),
           lookup_table_name,
-          __name__,
+          config_cache_path,
       )
-      return -1, init_empty_lookup_table(max_degree)
+
+  # Load pre-computed lookup table included with package.
+  try:
+    f = io.BytesIO(pkgutil.get_data(__name__, package_cache_path))
+    return load_from_cache(f)
+  except _LOAD_ERRORS:
+    logging.exception(
+        (
+            'Failed to load pre-computed %s lookup table included with the %s'
+            ' package (data may be corrupted). Consider re-installing the'
+            ' package to fix this problem.'
+        ),
+        lookup_table_name,
+        __name__,
+    )
+    return -1, init_empty_lookup_table(max_degree)
 
 
 def _print_cache_usage_information(
-- 
2.43.0


From 51f11d4549e0a4928787a0c85cf0d4ce09406307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 07/13] fix: lookup table caches with damaged zip headers are
 skipped

A flipped bit in the headers of a cached table makes zipfile raise
NotImplementedError (unknown compression method or version) or RuntimeError
("file is encrypted"), and a cache holding a plain array raises TypeError.
Such caches are now ignored like other corrupted ones.
---
 e3x/so3/_lookup_table_generation_utility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e3x/so3/_lookup_table_generation_utility.py b/e3x/so3/_lookup_table_generation_utility.py
index 9887b80..8b2b024 100644
--- a/e3x/so3/_lookup_table_generation_utility.py
+++ b/e3x/so3/_lookup_table_generation_utility.py
@@ -31,6 +31,8 @@ _LOAD_ERRORS = (
     OSError,
     IndexError,
     KeyError,
+    RuntimeError,
+    TypeError,
     ValueError,
 )
 
-- 
2.43.0


From b5906d9e85ffa00d83aa8e4d85948065d30d4fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 08/13] fix: zero-dimensional inputs are rejected with
 ValueError

Indexing the empty shape raised IndexError instead of the documented
ValueError.
---
 e3x/nn/wrappers.py | 2 +-
 e3x/so3/irreps.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/e3x/nn/wrappers.py b/e3x/nn/wrappers.py
index 4a862ec..c7c4f58 100644
--- a/e3x/nn/wrappers.py
+++ b/e3x/nn/wrappers.py
@@ -171,7 +171,7 @@ def basis(
     returned).
   """
   # Check that r is a collection of 3-vectors.
-  if r.shape[-1] != 3:
+  if r.shape[-1:] != (3,):
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
 
   # Check that cutoff_fn is specified when cutoff values are requested.
diff --git a/e3x/so3/irreps.py b/e3x/so3/irreps.py
index cf34147..4c25f3f 100755
--- a/e3x/so3/irreps.py
+++ b/e3x/so3/irreps.py
@@ -134,7 +134,7 @@ def spherical_harmonics(
     is not positive or zero, or ``normalization`` has an invalid value.
   """
   # Perform checks.
-  if r.shape[-1] != 3:
+  if r.shape[-1:] != (3,):
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
   _check_degree_is_positive_or_zero(max_degree)
 
@@ -552,7 +552,7 @@ def irreps_to_tensor(
   """
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
-  if x.shape[-1] != 2 * degree + 1:
+  if x.shape[-1:] != (2 * degree + 1,):
     raise ValueError(
         f'input (assumed to correspond to irreps of degree {degree}) must have'
         f' shape (..., {2*degree + 1}), received shape {x.shape}'
-- 
2.43.0


From a2452a141f8dedada691f8d50394c8e5c8926f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 09/13] fix: features with an empty degree axis have an invalid
 shape

A degree axis of size 0 was accepted and treated as max_degree=-1.
---
 e3x/nn/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e3x/nn/features.py b/e3x/nn/features.py
index 9780946..08db41f 100644
--- a/e3x/nn/features.py
+++ b/e3x/nn/features.py
@@ -56,7 +56,7 @@ def _extract_max_degree_and_check_shape(shape: Shape) -> int:
     )
 
   # Extract max_degree from size of axis -2 (degree channel).
-  max_degree = round(math.sqrt(shape[-2]) - 1)
+  max_degree = max(round(math.sqrt(shape[-2]) - 1), 0)
 
   # Check that axis -2 (degree channel) has a valid size.
   expected_size = (max_degree + 1) ** 2
-- 
2.43.0


From f3f0978309997c3cdfd30788f68fff99cbb12321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:44 +0000
Subject: [PATCH 10/13] fix: wigner_d accepts an empty batch of rotations

An inferred dimension (-1) cannot be determined for arrays of size zero.
---
 e3x/so3/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 2b67ded..d15bc68 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -429,7 +429,7 @@ def wigner_d(
   # Note: This is done via integer powers and indexing on purpose! Using
   # jnp.power or the "**"-operator for this operation leads to NaNs in the
   # gradients for some inputs (jnp.power is not NaN-safe).
-  rot_powers = _integer_powers(rot.reshape(*rot.shape[:-2], 1, -1), max_degree)
+  rot_powers = _integer_powers(rot.reshape(*rot.shape[:-2], 1, 9), max_degree)
   monomials = (
       rot_powers[..., 0][..., ls[:, 0]]  #   R_00**l_00.
       * rot_powers[..., 1][..., ls[:, 1]]  # R_01**l_01.
-- 
2.43.0


From 3a0c65ee59c25e7c4234d37b4437f00d1aa7385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:59 +0000
Subject: [PATCH 11/13] fix: report unreadable quadrature grids as RuntimeError

---
 e3x/so3/quadrature.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/e3x/so3/quadrature.py b/e3x/so3/quadrature.py
index 2daad00..9ad242c 100644
--- a/e3x/so3/quadrature.py
+++ b/e3x/so3/quadrature.py
@@ -18,6 +18,7 @@ import io
 import pkgutil
 from typing import Literal, Optional
 import zipfile
+import zlib
 from absl import logging
 import jax.numpy as jnp
 import jaxtyping
@@ -87,7 +88,16 @@ def _load_grid(
           jnp.asarray(quadrature_grids[f'r{i}']),
           jnp.asarray(quadrature_grids[f'w{i}']),
       )
-  except (zipfile.BadZipFile, OSError, IOError, KeyError, ValueError) as exc:
+  except (
+      zipfile.BadZipFile,
+      zlib.error,
+      EOFError,
+      OSError,
+      KeyError,
+      NotImplementedError,
+      TypeError,
+      ValueError,
+  ) as exc:
     raise RuntimeError(
         f'failed to load {kind} quadrature grids included with the  {__name__}'
         ' package (data may be corrupted), consider re-installing the package'
-- 
2.43.0


From ecb9961e122f71eb4028f2cd347a934a9b915c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:41 +0000
Subject: [PATCH 12/13] fix: alignment_rotation for nearly antiparallel vectors

---
 e3x/so3/rotations.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index d15bc68..d1a3624 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -121,25 +121,33 @@ def alignment_rotation(
   u = ops.normalize(u, axis=-1)
   v = ops.normalize(v, axis=-1)
 
+  # The formula below is ill-conditioned for (almost) antiparallel vectors. When
+  # the angle is obtuse, it is applied to -u, after rotating u to -u.
+  obtuse = jnp.expand_dims(jnp.sum(u * v, axis=-1) < 0, axis=-1)
+  w = jnp.where(obtuse, -u, u)
+
   # Create the skew-symmetric cross product matrix.
-  x = jnp.cross(u, v)  # Cross product vector.
+  x = jnp.cross(w, v)  # Cross product vector.
   zeros = jnp.zeros_like(x[..., 0:1])
   col1 = jnp.concatenate((zeros, -x[..., 2:3], x[..., 1:2]), axis=-1)
   col2 = jnp.concatenate((x[..., 2:3], zeros, -x[..., 0:1]), axis=-1)
   col3 = jnp.concatenate((-x[..., 1:2], x[..., 0:1], zeros), axis=-1)
   skew = jnp.stack((col1, col2, col3), axis=-1)
 
-  # Calculate rotation matrix (does not handle antiparallel case correctly).
-  div = 1 + jnp.sum(u * v, axis=-1)
-  mask = div > 0
-  safe_div = jnp.where(mask, div, 1)
-  rot = skew + skew @ skew * (1 / safe_div)[..., None, None] + jnp.eye(3)
-
-  # Handle antiparallel case.
-  # Note: The coordinate axis with the smallest overlap is never parallel to u.
-  w = jax.nn.one_hot(jnp.argmin(jnp.abs(u), axis=-1), 3, dtype=u.dtype)
-  axis = jnp.cross(u, w)
-  rot = jnp.where(mask[..., None, None], rot, rotation(axis, jnp.pi))
+  # Calculate rotation matrix that aligns w with v.
+  div = 1 + jnp.sum(w * v, axis=-1)
+  rot = skew + skew @ skew * (1 / div)[..., None, None] + jnp.eye(3)
+
+  # Rotate by 180 degrees about the normal of the plane spanned by u and v.
+  # Note: When u and v are antiparallel, any axis orthogonal to u can be used
+  # (the coordinate axis with the smallest overlap is never parallel to u).
+  e = jax.nn.one_hot(jnp.argmin(jnp.abs(u), axis=-1), 3, dtype=u.dtype)
+  axis = jnp.cross(u, v)
+  tiny = (4 * jnp.finfo(u.dtype).eps) ** 2
+  antiparallel = jnp.sum(axis * axis, axis=-1, keepdims=True) <= tiny
+  axis = ops.normalize(jnp.where(antiparallel, jnp.cross(u, e), axis), axis=-1)
+  axis = axis - u * jnp.sum(u * axis, axis=-1, keepdims=True)
+  rot = jnp.where(obtuse[..., None], rotation(axis, jnp.pi) @ rot, rot)
 
   return rot
 
-- 
2.43.0


From b32efdcd2e09b307c4d29d671eaec86ab013e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:17 +0000
Subject: [PATCH 13/13] fix: smooth_switch second derivatives were nan close to
 x0

The reverse-mode derivative of the value recomputed inside the JVP rule, and
of the masked tangent, multiplied an infinite derivative by zero where the
exponential overflows. Compute the value by calling the function itself and
replace masked inputs before the tangent is formed.
---
 e3x/nn/functions/switch.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/e3x/nn/functions/switch.py b/e3x/nn/functions/switch.py
index 36a3c78..8761296 100644
--- a/e3x/nn/functions/switch.py
+++ b/e3x/nn/functions/switch.py
@@ -128,24 +128,27 @@ def _smooth_switch_jvp_impl(
   small_or_large = jnp.logical_or(small, large)
   safe_x = jnp.where(small_or_large, 0.5, x)
 
-  # Compute primal output.
+  # Compute primal output. Calling the function itself (instead of repeating its
+  # definition) ensures that its derivatives are masked as well.
+  primal_out = smooth_switch(x, 0.0, 1.0)
+
+  # Mask values for which the tangent is zero because one of its factors under-
+  # or overflows. Without replacing such values, higher order derivatives can
+  # lead to nans, even though they should be zero.
   exp = _smooth_switch_exp(safe_x)
-  primal_out = jnp.where(
-      small,
-      0,
-      jnp.where(large, 1, 1 / (1 + exp)),
-  )
+  switch = 1 / (1 + exp)
+  zero_factors = jnp.logical_or(switch * switch == 0, exp == 0)
+  mask = jnp.logical_or(small_or_large, zero_factors)
+  safe_x = jnp.where(mask, 0.5, safe_x)
 
-  # Compute (appropriately masked) tangent output. Without masking, higher order
-  # derivatives can lead to nans, even though they should be zero.
-  primal_out2 = primal_out * primal_out
+  # Compute (appropriately masked) tangent output.
+  exp = _smooth_switch_exp(safe_x)
+  switch = 1 / (1 + exp)
   raw_tangent = (  # Raw tangent without masking.
       -_SMOOTH_SWITCH_SLOPE
       * (-1 / safe_x**2 - 1 / (1 - safe_x) ** 2)
       * exp
-      * primal_out2
+      * (switch * switch)
   )
-  zero_factors = jnp.logical_or(primal_out2 == 0, exp == 0)
-  mask = jnp.logical_or(small_or_large, zero_factors)
   tangent_out = jnp.where(mask, 0, raw_tangent) * x_dot
   return primal_out, tangent_out
-- 
2.43.0

