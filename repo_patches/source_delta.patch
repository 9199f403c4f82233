From 1ae85a4b42de13d09d9d82171f6b9d1f501ebfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 01/11] fix: read the previous approx mode under the lock in
 enable_approx

Reading it before acquiring the lock lets another thread change the mode in
between, in which case leaving the context restores a stale value.
---
 differt2d/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 2cc0ac3..703ad0c 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -187,8 +187,8 @@ def enable_approx(enable: bool = True):
         0.0
     """
     global ENABLE_APPROX
-    state = ENABLE_APPROX
     with _LOCK:
+        state = ENABLE_APPROX
         try:
             ENABLE_APPROX = enable
             yield
-- 
2.43.0


From e2eb0e54d01243b3d7d4359c44e6f1c8e729e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 02/11] fix: raise ValueError in unstack_leaves when leaves
 have different sizes

The docstring promises a ValueError, but zip silently dropped the trailing
entries of the longest leaves.
---
 differt2d/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index d65e811..f0b1a75 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -76,7 +76,7 @@ def unstack_leaves(pytrees) -> list[PyTree]:
     :raise ValueError: If the input is not the result of stacked PyTrees.
     """
     leaves, treedef = jax.tree_util.tree_flatten(pytrees)
-    return [treedef.unflatten(leaf) for leaf in zip(*leaves)]
+    return [treedef.unflatten(leaf) for leaf in zip(*leaves, strict=True)]
 
 
 @eqx.filter_jit
-- 
2.43.0


From 810e8a3b1e49a157d269fa30d6efdb1832f62764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 03/11] fix: avoid nan gradients when normalizing a zero vector

The norm of a zero vector was replaced by one only after being computed, so
its (nan) gradient was still propagated, e.g., with walls of zero length.
---
 differt2d/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index f0b1a75..c076989 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -224,8 +224,11 @@ def normalize(vector: Float[Array, "2"]) -> tuple[Float[Array, "2"], Float[Array
     >>> normalize(zero)  # Special behavior at 0.
     (Array([0., 0.], dtype=float32), Array(1., dtype=float32))
     """
-    length = jnp.linalg.norm(vector)
-    length: Float[Array, " "] = jnp.where(length == 0.0, jnp.ones_like(length), length)
+    squared_length = jnp.dot(vector, vector)
+    # Sanitize before the square root, to avoid nan gradients at 0.
+    length: Float[Array, " "] = jnp.sqrt(
+        jnp.where(squared_length == 0.0, jnp.ones_like(squared_length), squared_length)
+    )
 
     return vector / length, length
 
-- 
2.43.0


From 1ce77bb167af7fc562e9ed646872709339f2103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 04/11] fix: avoid nan gradients in the image method when a ray
 is parallel to a wall

The division was performed on the zero denominator, and only its result was
replaced, so the gradient of the discarded branch was nan.
---
 differt2d/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index c076989..9f8ec02 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -1104,8 +1104,10 @@ class ImagePath(Path):
             v = p - point
             un = jnp.dot(u, n)
             vn = jnp.dot(v, n)
-            # Avoid division by zero
-            inc = jnp.where(un == 0.0, 0.0, vn * u / un)
+            # Avoid division by zero (and nan gradients)
+            un_is_zero = un == 0.0
+            un = jnp.where(un_is_zero, 1.0, un)
+            inc = jnp.where(un_is_zero, 0.0, vn * u / un)
             point = point + inc
             return point, point
 
-- 
2.43.0


From 8ff6141df75ad0f02446bf81dc54022a2e90b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 05/11] fix: avoid nan gradients and the bias of an epsilon in
 path_length

Shifting each segment by epsilon only moved the singularity of the norm to
segments equal to minus epsilon, and made the length direction dependent.
---
 differt2d/geometry.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 9f8ec02..48abdc4 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -179,12 +179,6 @@ def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
     """
     Returns the length of the given path, with N points.
 
-    .. note::
-
-        Currently, some epsilon value is added to each path segment to avoid
-        division by zero in the gradient of this function. Hopefully, this
-        should not be perceived by the user.
-
     :param points: An array of points.
     :return: The path length.
 
@@ -197,8 +191,12 @@ def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
     Array(3.4142137, dtype=float32)
     """
     vectors = jnp.diff(points, axis=0)
-    vectors = vectors + jnp.finfo(points.dtype).eps
-    lengths = jnp.linalg.norm(vectors, axis=1)
+    squared_lengths = jnp.sum(vectors * vectors, axis=1)
+    # Sanitize before the square root, to avoid nan gradients at 0.
+    is_zero = squared_lengths == 0.0
+    lengths = jnp.where(
+        is_zero, 0.0, jnp.sqrt(jnp.where(is_zero, 1.0, squared_lengths))
+    )
 
     return jnp.sum(lengths)
 
-- 
2.43.0


From 573d539812570dc2dd5fd38d15acd085bd6cda30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 06/11] fix: ignore non-polygon and empty geometries in
 from_geojson

Point features, geometry collections and empty polygons are valid GeoJSON, but
reading their (nonexistent) first ring raised an error.
---
 differt2d/scene.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 90769dc..15cc18b 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -639,10 +639,11 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         for feature in features:
             if geometry := feature.get("geometry", None):
                 _type = geometry["type"]
-                coordinates = geometry["coordinates"][0]
-                n = len(coordinates)
 
-                if _type == "Polygon":
+                if _type == "Polygon" and geometry["coordinates"]:
+                    coordinates = geometry["coordinates"][0]
+                    n = len(coordinates)
+
                     for i in range(n):
                         xys = jnp.array(
                             [coordinates[i - 1], coordinates[i]],
-- 
2.43.0


From c3d30f8ea9035ee0b81ecc95e365744c6c60a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 07/11] fix: return the loss of the returned solution in
 minimize

The returned loss was evaluated before the last update, so it did not
correspond to the returned solution (and no step at all raised an error).
---
 differt2d/optimize.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index 91c1c9d..d20229c 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -82,19 +82,19 @@ def minimize(
     """
     optimizer = optimizer or optax.adam(learning_rate=0.1)
 
-    f_and_df = jax.value_and_grad(fun)
+    df = jax.grad(fun)
     opt_state = optimizer.init(x0)
 
     def f(carry, _):
         x, opt_state = carry
-        loss, grads = f_and_df(x, *args)
+        grads = df(x, *args)
         updates, opt_state = optimizer.update(grads, opt_state)
         x = x + updates
         carry = (x, opt_state)
-        return carry, loss
+        return carry, None
 
-    (x, _), losses = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
-    return x, losses[-1]
+    (x, _), _ = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
+    return x, fun(x, *args)
 
 
 @eqx.filter_jit
-- 
2.43.0


From 33ed96e5304dee16998c0c11bb28c65ba9018f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 08/11] fix: avoid nan gradients when differentiating through
 minimize

Adam takes the square root of the accumulated squared gradients, whose
derivative is infinite at zero unless eps_root is set.
---
 differt2d/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index d20229c..e3c7f91 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -80,7 +80,8 @@ def minimize(
     >>> chex.assert_trees_all_close(x, 2.0 * jnp.ones(10), rtol=1e-2)
     >>> chex.assert_trees_all_close(y, 0.0, atol=1e-3)
     """
-    optimizer = optimizer or optax.adam(learning_rate=0.1)
+    # A nonzero eps_root avoids nan when differentiating through null gradients.
+    optimizer = optimizer or optax.adam(learning_rate=0.1, eps_root=1e-16)
 
     df = jax.grad(fun)
     opt_state = optimizer.init(x0)
-- 
2.43.0


From 7a3fc1daee29152b107df65c00281563aa3de9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 09/11] fix: yield every pair from accumulate_over_paths, even
 without path candidates

When no path candidate exists (e.g., no object at the requested order), pairs
were skipped, whereas the grid variants accumulate to zero.
---
 differt2d/scene.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 15cc18b..04c9dab 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1304,24 +1304,33 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             fun_kwargs = {}
 
         def results() -> Iterator[tuple[str, str, Float[Array, " "]]]:
-            for (tx_key, rx_key), paths_group in groupby(
+            paths_groups = groupby(
                 self.all_paths(**kwargs),
                 operator.itemgetter(slice(2)),
-            ):
+            )
+            keys, paths_group = next(paths_groups, (None, ()))
+
+            for (
+                (tx_key, transmitter),
+                (rx_key, receiver),
+            ) in self.all_transmitter_receiver_pairs():
                 acc = jnp.array(0.0)
-                transmitter = self.transmitters[tx_key]
-                receiver = self.receivers[rx_key]
-
-                for _, _, valid, path, path_candidate in paths_group:
-                    interacting_objects = self.get_interacting_objects(path_candidate)
-                    acc = acc + valid * fun(
-                        transmitter,
-                        receiver,
-                        path,
-                        interacting_objects,  # type: ignore[arg-type]
-                        *fun_args,
-                        **fun_kwargs,
-                    )
+
+                if keys == (tx_key, rx_key):  # False if there are no path candidates
+                    for _, _, valid, path, path_candidate in paths_group:
+                        interacting_objects = self.get_interacting_objects(
+                            path_candidate
+                        )
+                        acc = acc + valid * fun(
+                            transmitter,
+                            receiver,
+                            path,
+                            interacting_objects,  # type: ignore[arg-type]
+                            *fun_args,
+                            **fun_kwargs,
+                        )
+
+                    keys, paths_group = next(paths_groups, (None, ()))
 
                 yield tx_key, rx_key, acc
 
-- 
2.43.0


From 96803238ad919411b69031134a71e253a1de11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 10/11] fix: let caller options override the default colors in
 Scene.plot

---
 differt2d/scene.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 04c9dab..e108307 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -982,8 +982,9 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         if transmitters_kwargs is None:
             transmitters_kwargs = {}
 
-        transmitters_kwargs = {"color": "blue", **transmitters_kwargs}
-        receivers_kwargs = {"color": "green", **receivers_kwargs}
+        transmitters_kwargs = {"color": "blue", **kwargs, **transmitters_kwargs}
+        objects_kwargs = {**kwargs, **objects_kwargs}
+        receivers_kwargs = {"color": "green", **kwargs, **receivers_kwargs}
 
         artists = []
 
@@ -996,14 +997,13 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
                         *args,
                         annotate=tx_key if annotate else None,
                         **transmitters_kwargs,
-                        **kwargs,
                     ),
                 )
 
         if objects:
             for obj in self.objects:
                 artists.extend(
-                    obj.plot(ax, *objects_args, *args, **objects_kwargs, **kwargs),  # type: ignore[union-attr]
+                    obj.plot(ax, *objects_args, *args, **objects_kwargs),  # type: ignore[union-attr]
                 )
 
         if receivers:
@@ -1015,7 +1015,6 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
                         *args,
                         annotate=rx_key if annotate else None,
                         **receivers_kwargs,
-                        **kwargs,
                     ),
                 )
 
-- 
2.43.0


From 55d93e17a63024e0ebf2f9e59f28347db92cfc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 11/11] fix: avoid nan gradients in closest_point when the
 target is one of the points

---
 differt2d/geometry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 48abdc4..65a8ee1 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -262,7 +262,13 @@ def closest_point(
     >>> points[closest_point(points, target)[0]]
     Array([1., 0.], dtype=float32)
     """
-    distances = jnp.linalg.norm(points - target.reshape(-1, 2), axis=1)
+    vectors = points - target.reshape(-1, 2)
+    squared_distances = jnp.sum(vectors * vectors, axis=1)
+    # Sanitize before the square root, to avoid nan gradients at 0.
+    is_zero = squared_distances == 0.0
+    distances = jnp.where(
+        is_zero, 0.0, jnp.sqrt(jnp.where(is_zero, 1.0, squared_distances))
+    )
     i_min = jnp.argmin(distances)
 
     return i_min, distances[i_min]
-- 
2.43.0

