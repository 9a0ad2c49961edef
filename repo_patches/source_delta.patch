From 9ba9daeae909c707aff15b49a330d392e095b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 01/10] fix: ignore non-polygon GeoJSON geometries instead of
 crashing

Scene.from_geojson read geometry["coordinates"][0] and its length before
looking at the geometry type, so a feature holding a Point, a
GeometryCollection or an empty Polygon raised TypeError, KeyError or
IndexError instead of being ignored.
---
 differt2d/scene.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 90769dc..511bcd8 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -638,12 +638,9 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
 
         for feature in features:
             if geometry := feature.get("geometry", None):
-                _type = geometry["type"]
-                coordinates = geometry["coordinates"][0]
-                n = len(coordinates)
-
-                if _type == "Polygon":
-                    for i in range(n):
+                if geometry["type"] == "Polygon" and geometry["coordinates"]:
+                    coordinates = geometry["coordinates"][0]
+                    for i in range(len(coordinates)):
                         xys = jnp.array(
                             [coordinates[i - 1], coordinates[i]],
                             dtype=float,
-- 
2.43.0


From 10f0993a6c4f47c48c55d40ccc081adf26bc9e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 02/10] fix: return the loss of the returned iterate in
 minimize

minimize returned the objective's value before the last update, hence
not the value at the returned point, so that the best of many trials was
also chosen on stale values.
---
 differt2d/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index 91c1c9d..fe140af 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -93,8 +93,8 @@ def minimize(
         carry = (x, opt_state)
         return carry, loss
 
-    (x, _), losses = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
-    return x, losses[-1]
+    (x, _), _ = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
+    return x, fun(x, *args)
 
 
 @eqx.filter_jit
-- 
2.43.0


From d7036ace43e72cf57afffa611c19af7322c2ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 03/10] fix: save the approximation state after taking the lock

enable_approx read the state to restore before acquiring the lock, so
that a thread waiting for another thread to leave its context would
restore that context's state on exit, leaking it.
---
 differt2d/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 2cc0ac3..703ad0c 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -187,8 +187,8 @@ def enable_approx(enable: bool = True):
         0.0
     """
     global ENABLE_APPROX
-    state = ENABLE_APPROX
     with _LOCK:
+        state = ENABLE_APPROX
         try:
             ENABLE_APPROX = enable
             yield
-- 
2.43.0


From 19c4b79e0c02f616f0ef92a0bc0f9d916228dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 04/10] fix: make the derivative of normalize finite at the
 null vector

The norm was computed before the null vector was replaced, hence its
derivative was NaN there, e.g., for nodes placed on walls.
---
 differt2d/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index d65e811..55347ce 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -224,8 +224,11 @@ def normalize(vector: Float[Array, "2"]) -> tuple[Float[Array, "2"], Float[Array
     >>> normalize(zero)  # Special behavior at 0.
     (Array([0., 0.], dtype=float32), Array(1., dtype=float32))
     """
-    length = jnp.linalg.norm(vector)
-    length: Float[Array, " "] = jnp.where(length == 0.0, jnp.ones_like(length), length)
+    squared_length = jnp.sum(vector * vector)
+    # Avoid division by zero, here and in the derivatives
+    length: Float[Array, " "] = jnp.sqrt(
+        jnp.where(squared_length == 0.0, 1.0, squared_length)
+    )
 
     return vector / length, length
 
-- 
2.43.0


From 5652ce269423489d6167998e6c8601bf0219adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 05/10] fix: make the derivative of image paths finite in
 parallel configurations

When the line from the image to the point is parallel to the wall, the
division by zero was only masked in the value, and the derivative of the
path was NaN.
---
 differt2d/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 55347ce..0254d89 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -1104,8 +1104,10 @@ class ImagePath(Path):
             v = p - point
             un = jnp.dot(u, n)
             vn = jnp.dot(v, n)
-            # Avoid division by zero
-            inc = jnp.where(un == 0.0, 0.0, vn * u / un)
+            # Avoid division by zero, here and in the derivatives
+            un_is_zero = un == 0.0
+            un = jnp.where(un_is_zero, 1.0, un)
+            inc = jnp.where(un_is_zero, 0.0, vn * u / un)
             point = point + inc
             return point, point
 
-- 
2.43.0


From 69fbff9f9a3a9f276ba6501ad3d232b81c4bad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 06/10] fix: yield all pairs in accumulate_over_paths without
 path candidates

When no path candidate exists, e.g., when requesting reflections in an
empty scene, no result was returned for any of the pairs.
---
 differt2d/scene.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 511bcd8..68fd56c 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1300,13 +1300,18 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             fun_kwargs = {}
 
         def results() -> Iterator[tuple[str, str, Float[Array, " "]]]:
-            for (tx_key, rx_key), paths_group in groupby(
+            paths_groups = groupby(
                 self.all_paths(**kwargs),
                 operator.itemgetter(slice(2)),
-            ):
+            )
+
+            for (tx_key, transmitter), (
+                rx_key,
+                receiver,
+            ) in self.all_transmitter_receiver_pairs():
                 acc = jnp.array(0.0)
-                transmitter = self.transmitters[tx_key]
-                receiver = self.receivers[rx_key]
+                # There is no group when there is no path candidate
+                _, paths_group = next(paths_groups, (None, ()))
 
                 for _, _, valid, path, path_candidate in paths_group:
                     interacting_objects = self.get_interacting_objects(path_candidate)
-- 
2.43.0


From d742ca407ed08e2a13e737b3aade7d243bbf06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 07/10] fix: make the derivative of path_length finite for any
 segment

The epsilon added to each segment only moved the singularity from the
null segment to the segment equal to minus epsilon along both axes, at
which the derivative was NaN, and biased every length.
---
 differt2d/geometry.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 0254d89..551a9fd 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -181,9 +181,8 @@ def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
 
     .. note::
 
-        Currently, some epsilon value is added to each path segment to avoid
-        division by zero in the gradient of this function. Hopefully, this
-        should not be perceived by the user.
+        The gradient with respect to the end points of a segment of zero
+        length is zero, to avoid a division by zero.
 
     :param points: An array of points.
     :return: The path length.
@@ -197,10 +196,12 @@ def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
     Array(3.4142137, dtype=float32)
     """
     vectors = jnp.diff(points, axis=0)
-    vectors = vectors + jnp.finfo(points.dtype).eps
-    lengths = jnp.linalg.norm(vectors, axis=1)
+    squared_lengths = jnp.sum(vectors * vectors, axis=1)
+    # Avoid division by zero in the derivatives
+    is_zero = squared_lengths == 0.0
+    lengths = jnp.sqrt(jnp.where(is_zero, 1.0, squared_lengths))
 
-    return jnp.sum(lengths)
+    return jnp.sum(jnp.where(is_zero, 0.0, lengths))
 
 
 @partial(jax.jit, inline=True)
-- 
2.43.0


From 782b10325001a91cec11d47aa2f8afecc7da8e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 08/10] fix: let logical_all and logical_any reduce non-scalar
 arrays

The return annotation required the shape of the (un-reduced) arguments, so
that any reduction of non-scalar arrays, in particular the documented
default over the flattened input, raised a type-checking error.
---
 differt2d/logic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 703ad0c..a47c8f7 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -493,7 +493,7 @@ def logical_all(
     *x: Union[Truthy, float, bool],
     axis: Optional[Union[int, tuple[int, ...]]] = None,
     approx: Optional[bool] = None,
-) -> Truthy:
+) -> Union[Bool[Array, " *reduced_batch"], Float[Array, " *reduced_batch"]]:
     """
     Returns whether all values in ``x`` are true.
 
@@ -518,7 +518,7 @@ def logical_any(
     *x: Union[Truthy, float, bool],
     axis: Optional[Union[int, tuple[int, ...]]] = None,
     approx: Optional[bool] = None,
-) -> Truthy:
+) -> Union[Bool[Array, " *reduced_batch"], Float[Array, " *reduced_batch"]]:
     """
     Returns whether any value in ``x`` is true.
 
-- 
2.43.0


From 5c1c5e5c30cb0fb7df6915ac6f1c2a41ab0ac025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 09/10] fix: keep the derivatives of logical_all and
 logical_any in compiled code

---
 differt2d/logic.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index a47c8f7..3bfd6ff 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -43,7 +43,7 @@ __all__ = (
 
 import os
 from contextlib import contextmanager
-from functools import partial
+from functools import partial, reduce
 from threading import RLock
 from typing import Any, Callable, Optional, Union
 
@@ -508,6 +508,10 @@ def logical_all(
     """
     if approx is None:
         approx = ENABLE_APPROX
+    if approx and axis is None and x:
+        # In compiled code, XLA may evaluate twice, with a different rounding,
+        # the values compared in the derivative of a reduction, which then drops it
+        return jnp.min(reduce(jnp.minimum, x))
     arr = jnp.asarray(x)
     return jnp.min(arr, axis=axis) if approx else jnp.all(arr, axis=axis)
 
@@ -533,6 +537,10 @@ def logical_any(
     """
     if approx is None:
         approx = ENABLE_APPROX
+    if approx and axis is None and x:
+        # In compiled code, XLA may evaluate twice, with a different rounding,
+        # the values compared in the derivative of a reduction, which then drops it
+        return jnp.max(reduce(jnp.maximum, x))
     arr = jnp.asarray(x)
     return jnp.max(arr, axis=axis) if approx else jnp.any(arr, axis=axis)
 
-- 
2.43.0


From 3c42553924365724e749898450637524623493dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:53 +0000
Subject: [PATCH 10/10] fix: take the minimum and maximum of truth values
 without comparing them to the result

In compiled code, forward-mode derivatives of logical_and, logical_or, logical_all and
logical_any could be dropped, because XLA may evaluate the compared values twice.
---
 differt2d/logic.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 3bfd6ff..cea6881 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -312,6 +312,18 @@ def activation(
     return function(x, alpha)
 
 
+def _minimum(x, y):
+    # Like jnp.minimum, but its derivative does not compare x and y with the result:
+    # in compiled code, XLA may evaluate them twice, with a different rounding,
+    # in which case neither is equal to the result and the derivative is dropped.
+    return jnp.where((x <= y) | (x != x), x, y)
+
+
+def _maximum(x, y):
+    # See _minimum.
+    return jnp.where((x >= y) | (x != x), x, y)
+
+
 @partial(jax.jit, inline=True, static_argnames=("approx",))
 @jaxtyped(typechecker=typechecker)
 def logical_or(
@@ -332,7 +344,7 @@ def logical_or(
     """
     if approx is None:
         approx = ENABLE_APPROX
-    return jnp.maximum(x, y) if approx else jnp.logical_or(x, y)
+    return _maximum(x, y) if approx else jnp.logical_or(x, y)
 
 
 @partial(jax.jit, inline=True, static_argnames=("approx",))
@@ -355,7 +367,7 @@ def logical_and(
     """
     if approx is None:
         approx = ENABLE_APPROX
-    return jnp.minimum(x, y) if approx else jnp.logical_and(x, y)
+    return _minimum(x, y) if approx else jnp.logical_and(x, y)
 
 
 @partial(jax.jit, inline=True, static_argnames=("approx",))
@@ -509,9 +521,8 @@ def logical_all(
     if approx is None:
         approx = ENABLE_APPROX
     if approx and axis is None and x:
-        # In compiled code, XLA may evaluate twice, with a different rounding,
-        # the values compared in the derivative of a reduction, which then drops it
-        return jnp.min(reduce(jnp.minimum, x))
+        out = reduce(_minimum, x)
+        return jnp.min(out) if jnp.ndim(out) > 0 else jnp.asarray(out)
     arr = jnp.asarray(x)
     return jnp.min(arr, axis=axis) if approx else jnp.all(arr, axis=axis)
 
@@ -538,9 +549,8 @@ def logical_any(
     if approx is None:
         approx = ENABLE_APPROX
     if approx and axis is None and x:
-        # In compiled code, XLA may evaluate twice, with a different rounding,
-        # the values compared in the derivative of a reduction, which then drops it
-        return jnp.max(reduce(jnp.maximum, x))
+        out = reduce(_maximum, x)
+        return jnp.max(out) if jnp.ndim(out) > 0 else jnp.asarray(out)
     arr = jnp.asarray(x)
     return jnp.max(arr, axis=axis) if approx else jnp.any(arr, axis=axis)
 
-- 
2.43.0

