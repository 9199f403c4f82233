"""Behaviour-preserving edits: every check must stay quiet on each of them.

NAME -> {file: [edits]} (see edit.py)."""
R = {}


def r(name, **files):
    R[name] = {k + ".py": v for k, v in files.items()}


# ------------------------------------------------------------------- logic
r("logic-mode-helper", logic=[
    ("before", "set_approx", '''
     def _resolve(approx: Optional[bool]) -> bool:
         """Mode in force for a call."""
         return ENABLE_APPROX if approx is None else approx
     '''),
    *[("in", f, "    if approx is None:\n        approx = ENABLE_APPROX\n", "    approx = _resolve(approx)\n") for f in ("logical_or", "logical_and", "logical_not", "greater", "greater_equal", "less", "less_equal", "logical_all", "logical_any", "is_true", "is_false", "true_value", "false_value")],
])
r("logic-less-through-greater", logic=[
    ("in", "less", "    return activation(jnp.subtract(y, x), **kwargs) if approx else jnp.less(x, y)", "    return greater(y, x, approx=approx, **kwargs)"),
    ("in", "less_equal", "return activation(jnp.subtract(y, x), **kwargs) if approx else jnp.less_equal(x, y)", "return greater_equal(y, x, approx=approx, **kwargs)"),
    ("in", "greater", "    return activation(jnp.subtract(x, y), **kwargs) if approx else jnp.greater(x, y)", "    if not approx:\n        return x > y if hasattr(x, \"shape\") else jnp.greater(x, y)\n    return activation(jnp.asarray(x) - y, **kwargs)"),
])
r("logic-connectives-de-morgan", logic=[
    ("in", "logical_or", "return jnp.maximum(x, y) if approx else jnp.logical_or(x, y)", "not_x, not_y = logical_not(x, approx=approx), logical_not(y, approx=approx)\n    return logical_not(logical_and(not_x, not_y, approx=approx), approx=approx)"),
    ("in", "logical_any", "return jnp.max(arr, axis=axis) if approx else jnp.any(arr, axis=axis)", "reduce = jnp.max if approx else jnp.any\n    return reduce(arr, axis=axis)"),
    ("in", "logical_all", "    return jnp.min(arr, axis=axis) if approx else jnp.all(arr, axis=axis)", "    if approx:\n        return arr.min(axis=axis)\n    return arr.all(axis=axis)"),
])
r("logic-scope-class", logic=[
    ("fn", "enable_approx", '''
     @-
     class enable_approx:
         """Context manager form of the scope."""

         def __init__(self, enable: bool = True):
             self._enable = enable
             self._states = []

         def __enter__(self):
             global ENABLE_APPROX
             _LOCK.acquire()
             self._states.append(ENABLE_APPROX)
             ENABLE_APPROX = self._enable

         def __exit__(self, exc_type, exc, tb):
             global ENABLE_APPROX
             ENABLE_APPROX = self._states.pop()
             _LOCK.release()
             return False
     '''),
])
r("logic-scope-explicit-lock", logic=[
    ("in", "enable_approx", '''    with _LOCK:
        state = ENABLE_APPROX
        try:
            ENABLE_APPROX = enable
            yield
        finally:
            ENABLE_APPROX = state''', '''    _LOCK.acquire()
    previous = ENABLE_APPROX
    ENABLE_APPROX = enable
    try:
        yield
    finally:
        ENABLE_APPROX = previous
        _LOCK.release()'''),
    ("in", "disable_approx", "    with enable_approx(not disable):\n        yield", "    enable = not disable\n    with enable_approx(enable=enable):\n        yield"),
])
r("logic-set-approx-globals", logic=[
    ("in", "set_approx", "    with _LOCK:\n        ENABLE_APPROX = enable", "    _LOCK.acquire()\n    try:\n        ENABLE_APPROX = enable\n    finally:\n        _LOCK.release()"),
])
r("logic-sigmoid-formulas", logic=[
    ("in", "sigmoid", "return jax.nn.sigmoid(alpha * x)", "return jax.scipy.special.expit(x * alpha)"),
    ("in", "hard_sigmoid", "return jax.nn.hard_sigmoid(alpha * x)", "return jax.nn.relu6(alpha * x + 3.0) / 6.0"),
])
r("logic-hard-sigmoid-clip", logic=[
    ("in", "hard_sigmoid", "return jax.nn.hard_sigmoid(alpha * x)", "return jnp.clip(0.5 + alpha * x / 6.0, 0.0, 1.0)"),
    ("in", "is_true", "return jnp.greater(x, 1.0 - tol) if approx else jnp.asarray(x)", "return jnp.less(1.0 - tol, x) if approx else jnp.asarray(x)"),
])
r("logic-lax-select", logic=[
    ("in", "logical_not", "return jnp.subtract(1.0, x) if approx else jnp.logical_not(x)", "if approx:\n        return 1.0 - jnp.asarray(x)\n    return ~jnp.asarray(x, dtype=bool)"),
    ("in", "true_value", "return jnp.array(1.0) if approx else jnp.array(True, dtype=bool)", "dtype = float if approx else bool\n    return jnp.ones((), dtype=dtype)"),
    ("in", "false_value", "return jnp.array(0.0) if approx else jnp.array(False, dtype=bool)", "return logical_not(true_value(approx=approx), approx=approx)"),
])

# ---------------------------------------------------------------- geometry
r("geo-segments-cross-helper", geometry=[
    ("before", "segments_intersect", '''
     def _cross(u, v):
         """Cross product in 2D."""
         return u[0] * v[1] - u[1] * v[0]
     '''),
    ("in", "segments_intersect", "a = B[1] * C[0] - B[0] * C[1]", "a = _cross(C, B)"),
    ("in", "segments_intersect", "b = A[0] * C[1] - A[1] * C[0]", "b = _cross(A, C)"),
    ("in", "segments_intersect", "d = A[1] * B[0] - A[0] * B[1]", "d = -_cross(A, B)"),
])
r("geo-segments-vectorised", geometry=[
    ("in", "segments_intersect", "    return logical_and(test(a, d), test(b, d), approx=approx)", "    inside = [test(num, d) for num in (a, b)]\n    return logical_all(*inside, approx=approx)"),
])
r("geo-segments-no-inner-function", geometry=[
    ("in", "segments_intersect", '''        den_is_zero = den == 0.0
        den = jnp.where(den_is_zero, 1.0, den)
        t = jnp.where(den_is_zero, jnp.inf, num / den)''', '''        parallel = jnp.equal(den, 0.0)
        safe = jax.lax.select(parallel, jnp.ones_like(den), den)
        t = jax.lax.select(parallel, jnp.full_like(num, jnp.inf), num / safe)'''),
])
r("geo-length-vmap", geometry=[
    ("in", "path_length", "    squared_lengths = jnp.sum(vectors * vectors, axis=1)\n", "    squared_lengths = jax.vmap(lambda v: jnp.dot(v, v))(vectors)\n"),
    ("in", "path_length", "    vectors = jnp.diff(points, axis=0)\n", "    vectors = points[1:, :] - points[:-1, :]\n"),
])
r("geo-length-einsum", geometry=[
    ("in", "path_length", "    squared_lengths = jnp.sum(vectors * vectors, axis=1)\n", "    squared_lengths = jnp.einsum(\"ij,ij->i\", vectors, vectors)\n"),
    ("in", "path_length", "    return jnp.sum(lengths)", "    return lengths.sum()"),
])
r("geo-safe-norm-helper", geometry=[
    ("before", "path_length", '''
     def _safe_norms(vectors):
         """Norms of rows, with a zero gradient at zero."""
         squares = jnp.sum(jnp.square(vectors), axis=-1)
         at_zero = squares == 0.0
         return jnp.where(at_zero, 0.0, jnp.sqrt(jnp.where(at_zero, 1.0, squares)))
     '''),
    ("in", "path_length", '''    squared_lengths = jnp.sum(vectors * vectors, axis=1)
    # Sanitize before the square root, to avoid nan gradients at 0.
    is_zero = squared_lengths == 0.0
    lengths = jnp.where(
        is_zero, 0.0, jnp.sqrt(jnp.where(is_zero, 1.0, squared_lengths))
    )
''', "    lengths = _safe_norms(vectors)\n"),
    ("in", "closest_point", '''    squared_distances = jnp.sum(vectors * vectors, axis=1)
    # Sanitize before the square root, to avoid nan gradients at 0.
    is_zero = squared_distances == 0.0
    distances = jnp.where(
        is_zero, 0.0, jnp.sqrt(jnp.where(is_zero, 1.0, squared_distances))
    )
''', "    distances = _safe_norms(vectors)\n"),
])
r("geo-closest-min", geometry=[
    ("in", "closest_point", "return i_min, distances[i_min]", "return i_min, jnp.min(distances)"),
    ("in", "closest_point", "points - target.reshape(-1, 2)", "points - target[None, :]"),
])
r("geo-normal-direct", geometry=[
    ("in", "Wall.normal", '''        n = t.at[0].set(t[1])
        n = n.at[1].set(-t[0])
        n, _ = normalize(n)
        return n''', '''        dx, dy = t
        return normalize(jnp.array([dy, -dx]))[0]'''),
])
r("geo-normal-matrix", geometry=[
    ("in", "Wall.normal", '''        n = t.at[0].set(t[1])
        n = n.at[1].set(-t[0])
        n, _ = normalize(n)
''', '''        quarter_turn = jnp.array([[0.0, 1.0], [-1.0, 0.0]])
        n, _ = normalize(quarter_turn @ t)
'''),
])
r("geo-wall-parametric-scalar", geometry=[
    ("fn", "Wall.cartesian_to_parametric", '''
     def cartesian_to_parametric(self, carte_coords: Float[Array, "2"]) -> Float[Array, " parameters_count"]:
         t = self.t()
         num = jnp.sum(t * (carte_coords - self.origin()))
         den = jnp.sum(t**2)
         den = jnp.where(den == 0.0, 1.0, den)
         return jnp.array([num / den])
     '''),
    ("in", "Wall.parametric_to_cartesian", "self.origin() + param_coords * self.t()", "(1 - param_coords) * self.origin() + param_coords * self.dest()"),
])
r("geo-contains-single-comparison", geometry=[
    ("fn", "Wall.contains_parametric", '''
     def contains_parametric(self, param_coords: Float[Array, " parameters_count"], approx: Optional[bool] = None, **kwargs: Any) -> Truthy:
         t = param_coords[0]
         zero, one = jnp.zeros_like(t), jnp.ones_like(t)
         bounds = (greater_equal(t, zero, approx=approx, **kwargs), less_equal(t, one, approx=approx, **kwargs))
         return logical_all(*bounds, approx=approx)
     '''),
])
r("geo-intersects-extended-wall", geometry=[
    ("fn", "Wall.intersects_cartesian", '''
     def intersects_cartesian(self, ray: Float[Array, "2 2"], patch: ScalarFloat = DEFAULT_PATCH, approx: Optional[bool] = None, **kwargs: Any) -> Truthy:
         start, end = self.xys
         extra = patch * (end - start)
         kwargs["approx"] = approx
         return segments_intersect(start - extra, end + extra, *ray, **kwargs)
     '''),
])
r("geo-evaluate-split", geometry=[
    ("before", "Wall", '''
     def _directions(ray_path):
         """Unit incident and reflected directions."""
         incident, reflected = jnp.diff(ray_path, axis=0)
         return normalize(incident)[0], normalize(reflected)[0]
     '''),
    ("fn", "Wall.evaluate_cartesian", '''
     def evaluate_cartesian(self, ray_path: Float[Array, "3 2"]) -> Float[Array, " "]:
         incident, reflected = _directions(ray_path)
         n = self.normal()
         householder = jnp.eye(2) - 2 * jnp.outer(n, n)
         error = reflected - householder @ incident
         return jnp.sum(error**2)
     '''),
])
r("geo-ris-expanded", geometry=[
    ("in", "RIS.evaluate_cartesian", "sin_a = jnp.cross(-r, n)", "sin_a = r[1] * n[0] - r[0] * n[1]"),
    ("in", "RIS.evaluate_cartesian", "return (sin_a - sin_p) ** 2 + (cos_a - cos_p) ** 2", "error = jnp.stack([sin_a - sin_p, cos_a - cos_p])\n        return jnp.vdot(error, error)"),
])
r("geo-image-projection", geometry=[
    ("fn", "Wall.image_of", '''
     def image_of(self, point: Float[Array, "2"]) -> Float[Array, "2"]:
         n = self.normal()
         distance = (point - self.origin()) @ n
         foot = point - distance * n
         return 2 * foot - point
     '''),
])
r("geo-rotate-transpose", geometry=[

    ("in", "Ray.rotate", "rotation_matrix = jnp.array([[+c, -s], [+s, +c]])", "row0, row1 = jnp.stack([c, -s]), jnp.stack([s, c])\n        rotation_matrix = jnp.vstack([row0, row1])"),
    ("in", "Ray.rotate", "return eqx.tree_at(lambda ray: ray.xys, self, xys)", "import dataclasses\n\n        return dataclasses.replace(self, xys=xys)"),
])
r("geo-path-base-tracer", geometry=[
    ("in", "Path.from_tx_objects_rx", "xys = [obj.parametric_to_cartesian(jnp.array([0.5])) for obj in objects]", "half = jnp.full(1, 0.5)\n        xys = list(map(lambda obj: obj.parametric_to_cartesian(half), objects))"),
    ("in", "Path.from_tx_objects_rx", "xys = jnp.vstack([tx, *xys, rx])", "xys = jnp.stack((tx, *xys, rx), axis=0)"),
])
r("geo-end-points-helper", geometry=[
    ("before", "Path", '''
     def _coords(node):
         """Coordinates of a node or of raw coordinates."""
         return node.xy if isinstance(node, Point) else node
     '''),
    *[("in", f"{c}.from_tx_objects_rx", "        if isinstance(tx, Point):\n            tx = tx.xy\n\n        if isinstance(rx, Point):\n            rx = rx.xy\n", "        tx, rx = _coords(tx), _coords(rx)\n") for c in ("Path", "ImagePath", "FermatPath", "MinPath")],
])
r("geo-on-objects-reduce", geometry=[
    ("fn", "Path.on_objects", '''
     def on_objects(self, objects: Sequence[Interactable], approx: Optional[bool] = None, **kwargs) -> Truthy:
         checks = [true_value(approx=approx)]
         for obj, point in zip(objects, self.xys[1:-1, :]):
             t = obj.cartesian_to_parametric(point)
             checks.append(obj.contains_parametric(t, approx=approx, **kwargs))
         return logical_all(*checks, approx=approx)
     '''),
])
r("geo-obstruction-generator", geometry=[
    ("text", "    logical_and,\n    logical_not,", "    logical_and,\n    logical_any,\n    logical_not,"),
    ("fn", "Path.intersects_with_objects", '''
     def intersects_with_objects(self, objects: Sequence[Interactable], path_candidate: Array, patch: ScalarFloat = DEFAULT_PATCH, approx: Optional[bool] = None, **kwargs: Any) -> Truthy:
         never = false_value(approx=approx)
         starts = [-1, *path_candidate]
         ends = [*path_candidate, -1]

         def hits():
             for segment, (start, end) in enumerate(zip(starts, ends)):
                 ray = jax.lax.dynamic_slice_in_dim(self.xys, segment, 2)
                 for index, obj in enumerate(objects):
                     hit = obj.intersects_cartesian(ray, patch=patch, approx=approx, **kwargs)
                     at_end = (start == index) | (end == index)
                     yield jnp.where(at_end, never, hit)

         return logical_any(never, *hits(), approx=approx)
     '''),
])
r("geo-obstruction-objects-first", geometry=[
    ("fn", "Path.intersects_with_objects", '''
     def intersects_with_objects(self, objects: Sequence[Interactable], path_candidate: Array, patch: ScalarFloat = DEFAULT_PATCH, approx: Optional[bool] = None, **kwargs: Any) -> Truthy:
         indices = jnp.concatenate([jnp.array([-1]), path_candidate, jnp.array([-1])]).astype(int)
         n = self.xys.shape[0] - 1
         blocked = false_value(approx=approx)
         for obj_index, obj in enumerate(objects):
             for i in range(n):
                 skip = jnp.any(indices[i : i + 2] == obj_index)
                 hit = obj.intersects_cartesian(self.xys[i : i + 2, :], patch=patch, approx=approx, **kwargs)
                 blocked = logical_or(blocked, jnp.where(skip, false_value(approx=approx), hit), approx=approx)
         return blocked
     '''),
])
r("geo-valid-stepwise", geometry=[
    ("in", "Path.is_valid", "        return jnp.nan_to_num(", "        clean = jnp.nan_to_num\n        return clean("),
])
r("geo-valid-named-parts", geometry=[
    ("fn", "Path.is_valid", '''
     def is_valid(self, objects: Sequence[Interactable], path_candidate: Int[Array, " order"], interacting_objects: Sequence[Interactable], tol: ScalarFloat = 1e-2, patch: ScalarFloat = DEFAULT_PATCH, approx: Optional[bool] = None, **kwargs: Any) -> Truthy:
         options = dict(approx=approx, **kwargs)
         converged = less(self.loss, jnp.asarray(tol), **options)
         blocked = self.intersects_with_objects(objects, path_candidate, patch=patch, **options)
         touching = self.on_objects(interacting_objects, **options)
         valid = logical_and(converged, touching, approx=approx)
         valid = logical_and(valid, logical_not(blocked, approx=approx), approx=approx)
         if valid.dtype == bool:
             return valid
         return jnp.where(jnp.isnan(valid), 0.0, valid)
     '''),
])
r("geo-parametric-offsets", geometry=[
    ("fn", "parametric_to_cartesian", '''
     def parametric_to_cartesian(objects: Sequence[Interactable], parametric_coords: Float[Array, " num_parametric_coords"], n: int, tx_coords: Float[Array, "2"], rx_coords: Float[Array, "2"]) -> Float[Array, "{n}+2 2"]:
         assert n >= 0, f"n must be greater than 0, got n = {n!r} instead."
         points = [tx_coords]
         offset = 0
         for obj in objects:
             count = obj.parameters_count()
             points.append(parametric_to_cartesian_from_slice(obj, parametric_coords, offset, count))
             offset = offset + count
         points.append(rx_coords)
         return jnp.stack(points)
     '''),
])
r("geo-parametric-cumsum", geometry=[
    ("before", "parametric_to_cartesian", '''
     def _blocks(objects):
         from itertools import accumulate

         sizes = [obj.parameters_count() for obj in objects]
         return zip(objects, accumulate(sizes, initial=0), sizes)
     '''),
    ("fn", "parametric_to_cartesian", '''
     def parametric_to_cartesian(objects: Sequence[Interactable], parametric_coords: Float[Array, " num_parametric_coords"], n: int, tx_coords: Float[Array, "2"], rx_coords: Float[Array, "2"]) -> Float[Array, "{n}+2 2"]:
         assert n >= 0, f"n must be greater than 0, got n = {n!r} instead."
         inner = [parametric_to_cartesian_from_slice(obj, parametric_coords, start, size) for obj, start, size in _blocks(objects)]
         return jnp.vstack([tx_coords, *inner, rx_coords])
     '''),
])
r("geo-residual-helper", geometry=[
    ("before", "ImagePath", '''
     def _total_residual(objects, points):
         """Sum of the interaction residuals along a path."""
         return sum(
             (obj.evaluate_cartesian(points[i : i + 3, :]) for i, obj in enumerate(objects)),
             start=jnp.array(0.0),
         )
     '''),
    ("in", "ImagePath.from_tx_objects_rx", "return cls(xys=xys, loss=path_loss(xys))", "return cls(xys=xys, loss=_total_residual(objects, xys))"),
    ("in", "FermatPath.from_tx_objects_rx", "return cls(xys=xys, loss=path_loss(xys))", "return cls(xys=xys, loss=_total_residual(objects, xys))"),
])
r("geo-image-python-loops", geometry=[
    ("in", "ImagePath.from_tx_objects_rx", "        _, images = jax.lax.scan(forward, init=tx, xs=walls)  # type: ignore\n", "        images = []\n        image = tx\n        for wall in objects:\n            image, _ = forward(image, wall)\n            images.append(image)\n"),
    ("in", "ImagePath.from_tx_objects_rx", "        _, points = jax.lax.scan(backward, init=rx, xs=(walls, images), reverse=True)  # type: ignore\n", "        points = []\n        point = rx\n        for wall, image in zip(reversed(objects), reversed(images)):\n            point, _ = backward(point, (wall, image))\n            points.insert(0, point)\n"),
])
r("geo-min-path-return-order", geometry=[
    ("in", "MinPath.from_tx_objects_rx", "        kwargs.setdefault(\"many\", 1)\n", "        kwargs = {\"many\": 1, **kwargs}\n"),
    ("in", "FermatPath.from_tx_objects_rx", "        kwargs.setdefault(\"many\", 1)\n", "        many = kwargs.pop(\"many\", 1)\n        kwargs[\"many\"] = many\n"),
])
r("geo-bounding-box-stack", geometry=[
    ("in", "Ray.bounding_box", "return jnp.vstack([jnp.min(self.xys, axis=0), jnp.max(self.xys, axis=0)])", "return jnp.stack((self.xys.min(axis=0), self.xys.max(axis=0)))"),
    ("in", "Path.bounding_box", "return jnp.vstack([jnp.min(self.xys, axis=0), jnp.max(self.xys, axis=0)])", "x, y = self.xys.T\n        return jnp.array([[x.min(), y.min()], [x.max(), y.max()]])"),
    ("in", "Point.bounding_box", "return jnp.vstack([self.xy, self.xy])", "return jnp.tile(self.xy, (2, 1))"),
])
r("geo-plot-defaults-merged", geometry=[
    ("in", "Ray.plot", "        kwargs.setdefault(\"color\", \"blue\")\n", "        kwargs = {\"color\": \"blue\", **kwargs}\n"),
    ("in", "Path.plot", "        kwargs.setdefault(\"color\", \"orange\")\n", "        if \"color\" not in kwargs:\n            kwargs[\"color\"] = \"orange\"\n"),
    ("in", "Point.plot", "        kwargs.setdefault(\"marker\", \"o\")\n        kwargs.setdefault(\"color\", \"red\")\n", "        defaults = {\"marker\": \"o\", \"color\": \"red\"}\n        kwargs = defaults | kwargs\n"),
])
r("geo-stack-flatten", geometry=[
    ("fn", "unstack_leaves", '''
     def unstack_leaves(pytrees):
         leaves, treedef = jax.tree_util.tree_flatten(pytrees)
         rows = zip(*leaves, strict=True)
         out = []
         for row in rows:
             out.append(jax.tree_util.tree_unflatten(treedef, row))
         return out
     '''),
])

# ------------------------------------------------------------------- scene
r("scene-bounding-box-chain", scene=[
    ("fn", "Scene.bounding_box", '''
     def bounding_box(self) -> Float[Array, "2 2"]:
         from itertools import chain

         parts = chain(self.transmitters.values(), self.receivers.values(), self.objects)
         boxes = jnp.stack([part.bounding_box() for part in parts])
         return jnp.stack([boxes[:, 0, :].min(axis=0), boxes[:, 1, :].max(axis=0)])
     '''),
])
r("scene-bounding-box-running", scene=[
    ("fn", "Scene.bounding_box", '''
     def bounding_box(self) -> Float[Array, "2 2"]:
         parts = [*self.transmitters.values(), *self.receivers.values(), *self.objects]
         low, high = parts[0].bounding_box()
         for part in parts[1:]:
             a, b = part.bounding_box()
             low, high = jnp.minimum(low, a), jnp.maximum(high, b)
         return jnp.vstack([low, high])
     '''),
])
r("scene-edit-replace", scene=[
    ("before", "Scene", '''
     def _replaced(scene, **fields):
         """A copy of the scene with some fields replaced."""
         import dataclasses

         return dataclasses.replace(scene, **fields)
     '''),
    ("in", "Scene.with_transmitters", "return eqx.tree_at(\n            lambda s: s.transmitters,\n            self,\n            PyTreeDict.from_mapping(transmitters),\n        )", "return _replaced(self, transmitters=transmitters)"),
    ("in", "Scene.with_objects", "return eqx.tree_at(lambda s: s.objects, self, tuple(objects))", "return _replaced(self, objects=objects)"),
])
r("scene-filter-comprehension", scene=[
    ("in", "Scene.filter_objects", "tuple(filter(filter_spec, self.objects))", "tuple(obj for obj in self.objects if filter_spec(obj))"),
])
r("scene-update-merge", scene=[
    ("fn", "Scene.update_receivers", '''
     def update_receivers(self, **receivers: Point) -> Self:
         merged = dict(self.receivers.items())
         merged.update(receivers)
         return self.with_receivers(**merged)
     '''),
    ("fn", "Scene.rename_receivers", '''
     def rename_receivers(self, **receiver_names: str) -> Self:
         return self.with_receivers(**{receiver_names.get(old, old): point for old, point in self.receivers.items()})
     '''),
])
r("scene-candidates-extend", scene=[
    ("in", "all_path_candidates", "    if order is not None:\n        min_order = order\n        max_order = order\n", "    lo, hi = (min_order, max_order) if order is None else (order, order)\n"),
    ("in", "all_path_candidates", "for order in range(min_order, max_order + 1)", "for order in range(lo, hi + 1)"),
])
r("scene-candidates-product", scene=[
    ("fn", "all_path_candidates", '''
     def all_path_candidates(num_nodes: int, min_order: int = 0, max_order: int = 1, *, order: Optional[int] = None, filter_nodes: Optional[tuple[int, ...]] = None) -> list[Int[Array, "num_path_candidates order"]]:
         rejected = set(filter_nodes or ())
         kept = [i for i in range(num_nodes) if i not in rejected]
         orders = range(min_order, max_order + 1) if order is None else [order]
         candidates = []
         for k in orders:
             for nodes in product(kept, repeat=k):
                 if all(a != b for a, b in zip(nodes, nodes[1:])):
                     candidates.append(jnp.asarray(nodes, dtype=jnp.int32))
         return candidates
     '''),
])
r("scene-filter-nodes-tuple", scene=[
    ("in", "Scene.all_path_candidates", '''            filter_nodes = ()
            for i, obj in enumerate(self.objects):
                if not filter_objects(obj):
                    filter_nodes = (*filter_nodes, i)
''', '''            filter_nodes = tuple(
                i for i, obj in enumerate(self.objects) if not filter_objects(obj)
            )
'''),
])
r("scene-all-paths-product", scene=[
    ("in", "Scene.all_paths", '''        for (tx_key, transmitter), (
            rx_key,
            receiver,
        ) in self.all_transmitter_receiver_pairs():
            for path_candidate in path_candidates:
''', '''        pairs = self.all_transmitter_receiver_pairs()
        for ((tx_key, transmitter), (rx_key, receiver)), path_candidate in product(
            pairs, path_candidates
        ):
            if True:
'''),
])
r("scene-all-paths-key-iterator", scene=[
    ("before", "Scene", '''
     def _key_chain(key):
         """Endless stream of fresh keys, or of None."""
         while True:
             if key is None:
                 yield None
             else:
                 key, subkey = jax.random.split(key)
                 yield subkey
     '''),
    ("in", "Scene.all_paths", '''                if key is not None:
                    key, key_path = jax.random.split(key, 2)
                else:
                    key_path = None
''', '''                key_path = next(keys)
'''),
    ("in", "Scene.all_paths", "        path_candidates = self.all_path_candidates(\n", "        keys = _key_chain(key)\n        path_candidates = self.all_path_candidates(\n"),
])
r("scene-valid-paths-comprehension", scene=[
    ("fn", "Scene.all_valid_paths", '''
     def all_valid_paths(self, approx: Optional[bool] = None, **kwargs: Any) -> Iterator[tuple[str, str, Path, Int[Array, " order"]]]:
         yield from (
             (tx_key, rx_key, path, candidate)
             for tx_key, rx_key, valid, path, candidate in self.all_paths(approx=approx, **kwargs)
             if is_true(valid, approx=approx)
         )
     '''),
])
r("scene-accumulate-dict", scene=[
    ("in", "Scene.accumulate_over_paths", "            for _, _, p in results():\n                Z = Z + p\n\n            return Z", "            return sum((p for *_, p in results()), Z)"),
])
r("scene-accumulate-direct", scene=[
    ("fn", "Scene.accumulate_over_paths", '''
     def accumulate_over_paths(self, fun: PathFun, fun_args: tuple = (), fun_kwargs: Optional[Mapping[str, Any]] = None, *, reduce_all: bool = False, **kwargs: Any):
         fun_kwargs = dict(fun_kwargs or {})

         def results():
             totals = {}
             for tx_key, rx_key, valid, path, candidate in self.all_paths(**kwargs):
                 value = fun(
                     self.transmitters[tx_key],
                     self.receivers[rx_key],
                     path,
                     self.get_interacting_objects(candidate),
                     *fun_args,
                     **fun_kwargs,
                 )
                 totals[tx_key, rx_key] = totals.get((tx_key, rx_key), 0.0) + valid * value
             for tx_key in self.transmitters:
                 for rx_key in self.receivers:
                     yield tx_key, rx_key, jnp.asarray(totals.get((tx_key, rx_key), 0.0))

         if not reduce_all:
             return results()
         total = jnp.array(0.0)
         for _, _, value in results():
             total = total + value
         return total
     '''),
])
r("scene-grid-helper", scene=[
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", '''        if value_and_grad:
            f = jax.value_and_grad(facc, argnums=1)  # type: ignore
        elif grad:
            f = jax.grad(facc, argnums=1)
        else:
            f = facc
''', '''        transform = lambda g, argnums: g
        if value_and_grad:
            transform = jax.value_and_grad
        elif grad:
            transform = jax.grad
        f = transform(facc, argnums=1)
'''),
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", '''        vf = jax.vmap(
            jax.vmap(f, in_axes=(None, 0)),
            in_axes=(None, 0),
        )
''', '''        over_row = jax.vmap(f, in_axes=(None, 0))
        vf = jax.vmap(over_row, in_axes=(None, 0))
'''),
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", "grid = jnp.dstack((X, Y))", "grid = jnp.stack([X, Y], axis=-1)"),
])
r("scene-grid-sum-terms", scene=[
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", "            acc = jnp.array(0.0)\n            for path_candidate, key in zip(path_candidates, keys):\n", "            terms = [jnp.array(0.0)]\n            for j, path_candidate in enumerate(path_candidates):\n                key = keys[j]\n"),
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", """                acc = acc + valid * fun(
                    transmitter_cls(xy=tx_coords),
                    receiver,
                    path,
                    interacting_objects,
                    *fun_args,
                    **fun_kwargs,
                )

            return acc
""", """                value = fun(
                    transmitter_cls(xy=tx_coords),
                    receiver,
                    path,
                    interacting_objects,
                    *fun_args,
                    **fun_kwargs,
                )
                terms.append(valid * value)

            return jnp.sum(jnp.stack(terms))
"""),
])
r("scene-closest-helper", scene=[
    ("before", "Scene", '''
     def _closest(nodes, coords):
         names, points = zip(*nodes.items())
         i_min, distance = closest_point(jnp.stack([p.xy for p in points]), coords)
         return names[int(i_min)], distance
     '''),
    ("in", "Scene.get_closest_receiver", "        receivers = list(self.receivers.items())\n        points = jnp.vstack([rx.xy for _, rx in receivers])\n        i_min, distance = closest_point(points, coords)\n        return receivers[i_min][0], distance", "        return _closest(self.receivers, coords)"),
])
r("scene-geojson-pairs", scene=[
    ("in", "Scene._#0", '''                    n = len(coordinates)

                    for i in range(n):
                        xys = jnp.array(
                            [coordinates[i - 1], coordinates[i]],
                            dtype=float,
                        )
                        wall = Wall(xys=xys)
                        walls.append(wall)
''', '''                    previous = coordinates[-1:] + coordinates[:-1]

                    walls.extend(
                        Wall(xys=jnp.array(ends, dtype=float))
                        for ends in zip(previous, coordinates)
                    )
'''),
])
r("scene-geojson-helper", scene=[
    ("before", "Scene", '''
     def _rings(document):
         """Exterior rings of the polygons of a document."""
         for feature in document.get("features", []):
             geometry = feature.get("geometry")
             if not geometry or geometry["type"] != "Polygon":
                 continue
             if geometry["coordinates"]:
                 yield geometry["coordinates"][0]
     '''),
    ("fn", "Scene._#0", '''
     def _(cls, s: S, tx_loc: Loc = "NW", rx_loc: Loc = "SE") -> "Scene[Wall]":
         walls = []
         for ring in _rings(json.loads(s)):
             for i, end in enumerate(ring):
                 walls.append(Wall(xys=jnp.asarray([ring[i - 1], end], dtype=float)))
         scene = Scene(objects=walls)
         if not walls:
             tx, rx = jnp.zeros(2), jnp.ones(2)
         else:
             tx, rx = scene.get_location(tx_loc), scene.with_transmitters(tx=Point(xy=scene.get_location(tx_loc))).get_location(rx_loc)
         return scene.with_transmitters(tx=Point(xy=tx)).with_receivers(rx=Point(xy=rx))
     '''),
])
r("scene-square-polygon", scene=[
    ("before", "Scene", '''
     def _polygon(*corners):
         """Closed polygon as walls."""
         n = len(corners)
         return [Wall(xys=jnp.array([corners[i], corners[(i + 1) % n]])) for i in range(n)]
     '''),
    ("in", "Scene.square_scene", '''        walls = [
            Wall(xys=jnp.array([[0.0, 0.0], [1.0, 0.0]])),
            Wall(xys=jnp.array([[1.0, 0.0], [1.0, 1.0]])),
            Wall(xys=jnp.array([[1.0, 1.0], [0.0, 1.0]])),
            Wall(xys=jnp.array([[0.0, 1.0], [0.0, 0.0]])),
        ]
''', "        walls = _polygon([0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0])\n"),
])
r("scene-random-split-points", scene=[
    ("in", "Scene.random_uniform_scene", '''        walls = [
            Wall(xys=points[2 * i + n_transmitters : 2 * i + 2 + n_transmitters, :])
            for i in range(n_walls)
        ]
''', '''        ends = points[n_transmitters : n_transmitters + 2 * n_walls, :]
        walls = [Wall(xys=xys) for xys in ends.reshape(n_walls, 2, 2)]
'''),
])
r("scene-plot-loop", scene=[
    ("in", "Scene.plot", '''        if objects:
            for obj in self.objects:
                artists.extend(
                    obj.plot(ax, *objects_args, *args, **objects_kwargs),  # type: ignore[union-attr]
                )
''', '''        for obj in self.objects if objects else ():
            artists += obj.plot(ax, *objects_args, *args, **objects_kwargs)
'''),
])
r("scene-interacting-map", scene=[
    ("in", "Scene.get_interacting_objects", "return [self.objects[i] for i in path_candidate]", "return list(map(self.objects.__getitem__, path_candidate))"),
])
r("scene-get-object-clip", scene=[
    ("in", "Scene.get_object", "branches = [lambda i=i: self.objects[i] for i in range(len(self.objects))]", "branches = [(lambda obj: lambda: obj)(obj) for obj in self.objects]"),
])
r("scene-pytreedict-dict", scene=[
    ("fn", "PyTreeDict.__getitem__", '''
     def __getitem__(self, key: K) -> V:
         for k, v in zip(self._keys, self._values):
             if k == key:
                 return v
         raise KeyError(key)
     '''),
    ("in", "PyTreeDict.from_mapping", "return cls(\n            _keys=mapping.keys(),  # type: ignore[reportArgumentType]\n            _values=mapping.values(),  # type: ignore[reportArgumentType]\n        )", "keys, values = list(mapping), [mapping[k] for k in mapping]\n        return cls(keys, values)"),
])

# --------------------------------------------------------------- optimize
r("opt-fori-loop", optimize=[
    ("fn", "minimize", '''
     def minimize(fun, x0, args=(), steps=100, optimizer=None):
         if optimizer is None:
             optimizer = optax.adam(learning_rate=0.1, eps_root=1e-16)
         gradient = jax.grad(fun)

         def step(_, carry):
             x, state = carry
             updates, state = optimizer.update(gradient(x, *args), state)
             return optax.apply_updates(x, updates), state

         x, _ = jax.lax.fori_loop(0, steps, step, (x0, optimizer.init(x0)))
         return x, fun(x, *args)
     '''),
])
r("opt-value-and-grad", optimize=[
    ("in", "minimize", "    df = jax.grad(fun)\n", "    vdf = jax.value_and_grad(fun)\n"),
    ("in", "minimize", "        grads = df(x, *args)\n", "        _, grads = vdf(x, *args)\n"),
])
r("opt-many-one-draw", optimize=[
    ("in", "minimize_many_random_uniform", "    i_min = jnp.argmin(losses)\n\n    return xs[i_min, :], losses[i_min]", "    best = jnp.argmin(losses)\n    return jax.tree_util.tree_map(lambda leaf: leaf[best], (xs, losses))"),
])
r("opt-many-partial", optimize=[
    ("text", "import sys\n", "import functools\nimport sys\n"),
    ("in", "minimize_many_random_uniform", "    keys = jax.random.split(key, num=many)\n", "    keys = jax.random.split(key, many)\n    trial = functools.partial(minimize_random_uniform, fun, n=n, **kwargs)\n"),
    ("in", "minimize_many_random_uniform", "jax.vmap(lambda key: minimize_random_uniform(fun, key, n, **kwargs))(\n        keys\n    )", "jax.vmap(trial)(keys)"),
])

# ------------------------------------------------------------ abc and utils
r("abc-grid-indexing", abc=[
    ("in", "Plottable.grid", '''        x = jnp.linspace(bounding_box[0, 0], bounding_box[1, 0], m)
        y = jnp.linspace(bounding_box[0, 1], bounding_box[1, 1], n)
''', '''        (xmin, ymin), (xmax, ymax) = bounding_box
        x = jnp.linspace(xmin, xmax, num=m)
        y = jnp.linspace(ymin, ymax, num=n)
'''),
    ("in", "Plottable.center", "return 0.5 * (bounding_box[0, :] + bounding_box[1, :])", "return jnp.mean(bounding_box, axis=0)"),
])
r("abc-location-letters", abc=[
    ("fn", "Plottable.get_location", '''
     def get_location(self, location: Loc) -> Float[Array, "2"]:
         lower, upper = self.bounding_box()
         middle = self.center()
         x = lower[0] if "W" in location else upper[0] if "E" in location else middle[0]
         y = lower[1] if "S" in location else upper[1] if "N" in location else middle[1]
         return jnp.stack([x, y])
     '''),
])
r("abc-location-match", abc=[
    ("fn", "Plottable.get_location", '''
     def get_location(self, location: Loc) -> Float[Array, "2"]:
         (xmin, ymin), (xmax, ymax) = self.bounding_box()
         vertical = {"N": ymax, "S": ymin}
         horizontal = {"E": xmax, "W": xmin}
         x, y = 0.5 * (xmin + xmax), 0.5 * (ymin + ymax)
         for letter in location:
             x = horizontal.get(letter, x)
             y = vertical.get(letter, y)
         return jnp.array([x, y])
     '''),
    ("in", "Interactable.sample", "shape=(self.parameters_count(),)", "shape=[self.parameters_count()]"),
])
r("utils-power-split", utils=[
    ("in", "received_power", "    r = path.length()\n", "    total_length = path.length()\n"),
    ("in", "received_power", "    return (r_coef**n) / (height * height + r * r)", "    attenuation = jnp.power(r_coef, n)\n    return attenuation / (jnp.square(height) + total_length**2)"),
    ("text", "import jax\n", "import jax\nimport jax.numpy as jnp\n"),
])
r("utils-power-interactions", utils=[
    ("in", "received_power", "    n = path.xys.shape[0] - 2  # Number of interactions\n", "    n = len(path.xys[1:-1])\n"),
])

# ----------------------------------------------------- second batch of edits
r("logic-dispatch-table", logic=[
    ("before", "logical_or", '''
     _REDUCERS = {True: (jnp.min, jnp.max), False: (jnp.all, jnp.any)}
     '''),
    ("in", "logical_all", "    return jnp.min(arr, axis=axis) if approx else jnp.all(arr, axis=axis)", "    reduce, _ = _REDUCERS[bool(approx)]\n    return reduce(arr, axis=axis)"),
    ("in", "logical_any", "    return jnp.max(arr, axis=axis) if approx else jnp.any(arr, axis=axis)", "    _, reduce = _REDUCERS[bool(approx)]\n    return reduce(arr, axis=axis)"),
    ("in", "logical_or", "    return jnp.maximum(x, y) if approx else jnp.logical_or(x, y)", "    return {True: jnp.maximum, False: jnp.logical_or}[bool(approx)](x, y)"),
])
r("logic-compare-helper", logic=[
    ("before", "greater", '''
     def _compare(lhs, rhs, approx, exact, **kwargs):
         """Exact comparison, or activation of the difference lhs - rhs."""
         if approx is None:
             approx = ENABLE_APPROX
         if not approx:
             return exact()
         return activation(jnp.subtract(lhs, rhs), **kwargs)
     '''),
    *[("in", f, "    if approx is None:\n        approx = ENABLE_APPROX\n", "") for f in ("greater", "greater_equal", "less", "less_equal")],
    ("in", "greater", "    return activation(jnp.subtract(x, y), **kwargs) if approx else jnp.greater(x, y)", "    return _compare(x, y, approx, lambda: jnp.greater(x, y), **kwargs)"),
    ("in", "greater_equal", "    return (\n        activation(jnp.subtract(x, y), **kwargs) if approx else jnp.greater_equal(x, y)\n    )", "    return _compare(x, y, approx, lambda: jnp.greater_equal(x, y), **kwargs)"),
    ("in", "less", "    return activation(jnp.subtract(y, x), **kwargs) if approx else jnp.less(x, y)", "    return _compare(y, x, approx, lambda: jnp.less(x, y), **kwargs)"),
    ("in", "less_equal", "    return activation(jnp.subtract(y, x), **kwargs) if approx else jnp.less_equal(x, y)", "    return _compare(y, x, approx, lambda: jnp.less_equal(x, y), **kwargs)"),
])
r("logic-scope-exit-stack", logic=[
    ("text", "from contextlib import contextmanager\n", "from contextlib import ExitStack, contextmanager\n"),
    ("fn", "enable_approx", '''
     def enable_approx(enable: bool = True):
         """Scope."""
         with ExitStack() as stack:
             stack.enter_context(_LOCK)
             stack.callback(_store, ENABLE_APPROX)
             _store(enable)
             yield
     '''),
    ("before", "set_approx", '''
     def _store(value):
         """Set the mode; the lock is held by the caller."""
         global ENABLE_APPROX
         ENABLE_APPROX = value
     '''),
    ("in", "set_approx", "    global ENABLE_APPROX\n\n    with _LOCK:\n        ENABLE_APPROX = enable", "    with _LOCK:\n        _store(enable)"),
])
r("logic-mode-decorator", logic=[
    ("text", "from functools import partial\n", "from functools import partial, wraps\n"),
    ("before", "true_value", '''
     def _with_mode(function):
         """Fill in the default mode."""

         @wraps(function)
         def wrapper(approx=None):
             return function(ENABLE_APPROX if approx is None else approx)

         return wrapper
     '''),
    ("fn", "true_value", '''
     @partial(jax.jit, inline=False, static_argnames=("approx",))
     @jaxtyped(typechecker=typechecker)
     @_with_mode
     def true_value(approx: Optional[bool] = None) -> Truthy:
         """True."""
         return jnp.array(1.0) if approx else jnp.array(True, dtype=bool)
     '''),
    ("fn", "false_value", '''
     @partial(jax.jit, inline=False, static_argnames=("approx",))
     @jaxtyped(typechecker=typechecker)
     @_with_mode
     def false_value(approx: Optional[bool] = None) -> Truthy:
         """False."""
         return jnp.array(0.0) if approx else jnp.array(False, dtype=bool)
     '''),
])
r("geo-segments-namedtuple", geometry=[
    ("text", "from typing import Any, Callable, Optional, TypeVar, Union\n", "from typing import Any, Callable, NamedTuple, Optional, TypeVar, Union\n"),
    ("before", "segments_intersect", '''
     class _Line(NamedTuple):
         """A point and a direction."""

         start: Array
         direction: Array

         @classmethod
         def through(cls, start, stop):
             return cls(start, stop - start)

         def cross(self, other):
             """Cross product of the directions."""
             return self.direction[0] * other.direction[1] - self.direction[1] * other.direction[0]
     '''),
    ("fn", "segments_intersect", '''
     def segments_intersect(
         P1: Float[Array, "2"],
         P2: Float[Array, "2"],
         P3: Float[Array, "2"],
         P4: Float[Array, "2"],
         tol: ScalarFloat = 0.005,
         approx: Optional[bool] = None,
         **kwargs: Any,
     ) -> Truthy:
         """Intersect."""
         tol = jnp.asarray(tol)
         first, second = _Line.through(P1, P2), _Line.through(P3, P4)
         between = _Line.through(P1, P3)
         den = first.cross(second)
         parallel = den == 0.0
         safe = jnp.where(parallel, 1.0, den)
         result = true_value(approx=approx)
         for num in (between.cross(second), between.cross(first)):
             t = jnp.where(parallel, jnp.inf, num / safe)
             above = greater_equal(t, -tol, approx=approx, **kwargs)
             below = less_equal(t, 1.0 + tol, approx=approx, **kwargs)
             for part in (above, below):
                 result = logical_and(result, part, approx=approx)
         return result
     '''),
])
r("geo-plot-style-attribute", geometry=[
    ("before", "Point", '''
     def _styled(kwargs, **defaults):
         """Options of the caller over defaults."""
         return {**defaults, **kwargs}
     '''),
    ("in", "Ray.plot", "        kwargs.setdefault(\"color\", \"blue\")\n", "        kwargs = _styled(kwargs, color=\"blue\")\n"),
    ("in", "RIS.plot", "        kwargs.setdefault(\"color\", \"green\")\n        return super().plot(ax, *args, **kwargs)", "        return super().plot(ax, *args, **_styled(kwargs, color=\"green\"))"),
    ("in", "Path.plot", "        kwargs.setdefault(\"color\", \"orange\")\n", "        if \"color\" not in kwargs:\n            kwargs[\"color\"] = \"orange\"\n"),
])
r("geo-optimised-base", geometry=[
    ("before", "FermatPath", '''
     def _coords(node):
         return node.xy if isinstance(node, Point) else node


     def _total_residual(objects, coords):
         """Sum of the residuals over consecutive vertex triples."""
         return sum(
             (obj.evaluate_cartesian(coords[i : i + 3, :]) for i, obj in enumerate(objects)),
             jnp.array(0.0),
         )


     class _Optimised(Path):
         """Template of optimised paths."""

         @classmethod
         def _trace(cls, tx, objects, rx, key, objective, options):
             tx, rx = _coords(tx), _coords(rx)
             n = len(objects)
             if not n:
                 return cls(xys=jnp.vstack([tx, rx]), loss=jnp.array(0.0)), None

             def vertices(theta):
                 return parametric_to_cartesian(objects, theta, n, tx, rx)

             theta, value = minimize_many_random_uniform(
                 lambda theta: objective(vertices(theta)),
                 key,
                 sum(obj.parameters_count() for obj in objects),
                 **{"many": 1, **options},
             )
             xys = vertices(theta)
             return cls(xys=xys, loss=_total_residual(objects, xys)), value
     '''),
    ("fn", "FermatPath", '''
     class FermatPath(_Optimised):
         """Fermat."""

         @classmethod
         @eqx.filter_jit
         @jaxtyped(typechecker=None)
         def from_tx_objects_rx(cls, tx, objects, rx, *, key, **kwargs):
             """Trace."""
             path, _ = cls._trace(tx, objects, rx, key, path_length, kwargs)
             return path
     '''),
    ("fn", "MinPath", '''
     class MinPath(_Optimised):
         """Min."""

         @classmethod
         @eqx.filter_jit
         @jaxtyped(typechecker=None)
         def from_tx_objects_rx(cls, tx, objects, rx, *, key, **kwargs):
             """Trace."""
             path, value = cls._trace(tx, objects, rx, key, partial(_total_residual, objects), kwargs)
             return path if value is None else cls(xys=path.xys, loss=value)
     '''),
])
r("geo-on-objects-zip", geometry=[
    ("fn", "Path.on_objects", '''
     def on_objects(
         self,
         objects: Sequence[Interactable],
         approx: Optional[bool] = None,
         **kwargs,
     ) -> Truthy:
         """On objects."""
         if not objects:
             return true_value(approx=approx)
         parts = [
             obj.contains_parametric(obj.cartesian_to_parametric(xy), approx=approx, **kwargs)
             for obj, xy in zip(objects, self.xys[1:])
         ]
         return logical_all(*parts, approx=approx)
     '''),
])
r("geo-obstruction-nested-any", geometry=[
    ("fn", "Path.intersects_with_objects", '''
     def intersects_with_objects(
         self,
         objects: Sequence[Interactable],
         path_candidate: Array,
         patch: ScalarFloat = DEFAULT_PATCH,
         approx: Optional[bool] = None,
         **kwargs: Any,
     ) -> Truthy:
         """Obstruction."""
         if len(objects) == 0:
             return false_value(approx=approx)
         ends = [-1, *path_candidate, -1]
         tests = []
         for segment, (before, after) in enumerate(zip(ends[:-1], ends[1:])):
             start = self.xys[segment, :]
             stop = self.xys[segment + 1, :]
             ray = jnp.stack((start, stop))
             for number, obj in enumerate(objects):
                 own = (number == before) | (number == after)
                 hit = obj.intersects_cartesian(ray, patch=patch, approx=approx, **kwargs)
                 tests.append(jnp.where(own, false_value(approx=approx), hit))
         if approx is None:
             result = tests[0]
             for test in tests[1:]:
                 result = logical_or(result, test)
             return result
         import functools

         return functools.reduce(lambda a, b: logical_or(a, b, approx=approx), tests)
     '''),
])
r("geo-valid-where", geometry=[
    ("fn", "Path.is_valid", '''
     def is_valid(
         self,
         objects: Sequence[Interactable],
         path_candidate: Int[Array, " order"],
         interacting_objects: Sequence[Interactable],
         tol: ScalarFloat = 1e-2,
         patch: ScalarFloat = DEFAULT_PATCH,
         approx: Optional[bool] = None,
         **kwargs: Any,
     ) -> Truthy:
         """Valid."""
         converged = less(self.loss, jnp.asarray(tol), approx=approx, **kwargs)
         blocked = self.intersects_with_objects(objects, path_candidate, patch=patch, approx=approx, **kwargs)
         contained = self.on_objects(interacting_objects, approx=approx, **kwargs)
         valid = logical_and(contained, logical_not(blocked, approx=approx), approx=approx)
         valid = logical_and(valid, converged, approx=approx)
         return jnp.where(jnp.isnan(valid), jnp.zeros_like(valid), valid)
     '''),
])
r("geo-image-inner-class", geometry=[
    ("fn", "ImagePath.from_tx_objects_rx", '''
     def from_tx_objects_rx(
         cls,
         tx: Union[Float[Array, "2"], Point],
         objects: Sequence[Wall],
         rx: Union[Float[Array, "2"], Point],
         *,
         key: Optional[PRNGKeyArray] = None,
         **kwargs: Any,
     ) -> Self:
         """Image method."""
         first, last = (p.xy if isinstance(p, Point) else p for p in (tx, rx))
         if len(objects) == 0:
             return cls(xys=jnp.stack([first, last]), loss=jnp.zeros(()))

         images = [first]
         for wall in objects:
             images.append(wall.image_of(images[-1]))

         vertices = [last]
         for wall, image in zip(reversed(objects), images[:0:-1]):
             towards = vertices[-1] - image
             normal = wall.normal()
             den = jnp.dot(towards, normal)
             num = jnp.dot(wall.origin() - vertices[-1], normal)
             parallel = den == 0.0
             step = num * towards / jnp.where(parallel, 1.0, den)
             vertices.append(vertices[-1] + jnp.where(parallel, 0.0, step))
         vertices.append(first)
         xys = jnp.stack(vertices[::-1])
         loss = jnp.zeros(())
         for i, wall in enumerate(objects):
             loss = loss + wall.evaluate_cartesian(jax.lax.dynamic_slice_in_dim(xys, i, 3))
         return cls(xys=xys, loss=loss)
     '''),
])
r("geo-wall-direction-property", geometry=[
    ("before", "Wall.normal", '''
     @property
     def _direction(self):
         """Vector along the wall."""
         start, stop = self.xys
         return stop - start
     '''),
    ("fn", "Wall.normal", '''
     def normal(self) -> Float[Array, "2"]:
         """Normal."""
         dx, dy = self._direction
         unit, _ = normalize(jnp.stack([dy, -dx]))
         return unit
     '''),
    ("fn", "Wall.image_of", '''
     def image_of(self, point: Float[Array, "2"]) -> Float[Array, "2"]:
         """Image."""
         normal = self.normal()
         distance = (point - self.xys[0]) @ normal
         return point - 2 * distance * normal
     '''),
    ("fn", "Wall.intersects_cartesian", '''
     def intersects_cartesian(
         self,
         ray: Float[Array, "2 2"],
         patch: ScalarFloat = DEFAULT_PATCH,
         approx: Optional[bool] = None,
         **kwargs: Any,
     ) -> Truthy:
         """Intersects."""
         margin = patch * self._direction
         start, stop = self.origin() - margin, self.dest() + margin
         return segments_intersect(start, stop, *ray, approx=approx, **kwargs)
     '''),
])
r("geo-ris-trig", geometry=[
    ("fn", "RIS.evaluate_cartesian", '''
     def evaluate_cartesian(self, ray_path: Float[Array, "3 2"]) -> Float[Array, " "]:
         """Residual."""
         _, vertex, after = ray_path
         outgoing, _ = normalize(after - vertex)
         normal = self.normal()
         # minus the outgoing direction, in the frame of the normal
         actual = jnp.stack([outgoing[1] * normal[0] - outgoing[0] * normal[1], -(outgoing @ normal)])
         wanted = jnp.stack([jnp.sin(self.phi), jnp.cos(self.phi)])
         return jnp.sum((actual - wanted) ** 2)
     '''),
])
r("geo-closest-take", geometry=[
    ("fn", "closest_point", '''
     def closest_point(
         points: Float[Array, "N 2"], target: Float[Array, "2"]
     ) -> tuple[Int[Array, " "], Float[Array, " "]]:
         """Closest."""

         def squared(point):
             delta = point - target
             return delta[0] ** 2 + delta[1] ** 2

         squares = jax.vmap(squared)(points)
         index = squares.argmin()
         best = squares[index]
         nonzero = best > 0.0
         return index, jnp.where(nonzero, jnp.sqrt(jnp.where(nonzero, best, 1.0)), 0.0)
     '''),
])
r("geo-parametric-split", geometry=[
    ("fn", "parametric_to_cartesian", '''
     def parametric_to_cartesian(
         objects: Sequence[Interactable],
         parametric_coords: Float[Array, " num_parametric_coords"],
         n: int,
         tx_coords: Float[Array, "2"],
         rx_coords: Float[Array, "2"],
     ) -> Float[Array, "{n}+2 2"]:
         """Vertices."""
         import itertools

         assert n >= 0, f"n must be greater than 0, got n = {n!r} instead."
         counts = [obj.parameters_count() for obj in objects]
         stops = list(itertools.accumulate(counts))
         starts = [0, *stops][: len(stops)]
         inner = [obj.parametric_to_cartesian(parametric_coords[a:b]) for obj, a, b in zip(objects, starts, stops)]
         return jnp.stack([tx_coords, *inner, rx_coords])
     '''),
])
r("geo-stack-loops", geometry=[
    ("fn", "unstack_leaves", '''
     def unstack_leaves(pytrees) -> list[PyTree]:
         """Unstack."""
         leaves, treedef = jax.tree_util.tree_flatten(pytrees)
         sizes = {len(leaf) for leaf in leaves}
         if len(sizes) > 1:
             raise ValueError("leaves must have the same leading size")
         size = sizes.pop() if sizes else 0
         return [jax.tree_util.tree_unflatten(treedef, [leaf[i] for leaf in leaves]) for i in range(size)]
     '''),
])
r("scene-node-helper", scene=[
    ("before", "Scene.with_transmitters", '''
     def _with_nodes(self, field, nodes):
         """Replace one of the two tables."""
         return eqx.tree_at(lambda s: getattr(s, field), self, PyTreeDict.from_mapping(nodes))

     def _renamed(self, field, names):
         table = getattr(self, field)
         return self._with_nodes(field, {names.get(old, old): node for old, node in table.items()})
     '''),
    ("in", "Scene.with_transmitters", "        return eqx.tree_at(", "        return self._with_nodes(\"transmitters\", transmitters)\n        return eqx.tree_at("),
    ("in", "Scene.with_receivers", "        return eqx.tree_at(", "        return self._with_nodes(\"receivers\", receivers)\n        return eqx.tree_at("),
    ("in", "Scene.rename_transmitters", "        transmitters = {}\n", "        return self._renamed(\"transmitters\", transmitter_names)\n        transmitters = {}\n"),
    ("in", "Scene.rename_receivers", "        receivers = {}\n", "        return self._renamed(\"receivers\", receiver_names)\n        receivers = {}\n"),
    ("in", "Scene.update_transmitters", "        return eqx.tree_at(", "        return self._with_nodes(\"transmitters\", dict(self.transmitters) | transmitters)\n        return eqx.tree_at("),
])
r("scene-candidates-recursive", scene=[
    ("fn", "all_path_candidates", '''
     def all_path_candidates(
         num_nodes: int,
         min_order: int = 0,
         max_order: int = 1,
         *,
         order: Optional[int] = None,
         filter_nodes: Optional[tuple[int, ...]] = None,
     ) -> list[Int[Array, "num_path_candidates order"]]:
         """Candidates."""
         rejected = frozenset(filter_nodes or ())
         kept = [i for i in range(num_nodes) if i not in rejected]

         def sequences(length):
             if length == 0:
                 yield ()
                 return
             for head in sequences(length - 1):
                 for node in kept:
                     if not head or head[-1] != node:
                         yield (*head, node)

         orders = range(min_order, max_order + 1) if order is None else (order,)
         return [jnp.array(seq, dtype=jnp.int32) for o in orders for seq in sequences(o)]
     '''),
])
r("scene-interacting-types", scene=[
    ("fn", "Scene.get_interacting_objects", '''
     def get_interacting_objects(self, path_candidate: Int[Array, " order"]) -> list[Interactable]:
         """Objects."""
         kinds = {type(obj) for obj in self.objects}
         pick = self.get_object if len(kinds) <= 1 else self.objects.__getitem__
         return list(map(pick, path_candidate))
     '''),
])
r("scene-paths-inner-generator", scene=[
    ("fn", "Scene.all_paths", '''
     def all_paths(
         self,
         path_cls: type[Path] = ImagePath,
         path_cls_kwargs: Optional[Mapping[str, Any]] = None,
         min_order: int = 0,
         max_order: int = 1,
         order: Optional[int] = None,
         filter_objects: Optional[Callable[[Object], bool]] = None,
         *,
         key: Optional[PRNGKeyArray] = None,
         **kwargs: Any,
     ) -> Iterator[tuple[str, str, Truthy, Path, Int[Array, " order"]]]:
         """Paths."""
         options = dict(path_cls_kwargs or {})
         candidates = [
             (candidate, self.get_interacting_objects(candidate))
             for candidate in self.all_path_candidates(
                 min_order=min_order, max_order=max_order, order=order, filter_objects=filter_objects
             )
         ]

         def trace(transmitter, receiver, candidate, interacting, subkey):
             path = path_cls.from_tx_objects_rx(transmitter, interacting, receiver, key=subkey, **options)
             return path, path.is_valid(self.objects, candidate, interacting, **kwargs)

         for tx_key, transmitter in self.transmitters.items():
             for rx_key, receiver in self.receivers.items():
                 for candidate, interacting in candidates:
                     subkey = None
                     if key is not None:
                         key, subkey = jax.random.split(key)
                     path, valid = trace(transmitter, receiver, candidate, interacting, subkey)
                     yield tx_key, rx_key, valid, path, candidate
     '''),
])
r("scene-accumulate-chunks", scene=[
    ("fn", "Scene.accumulate_over_paths", '''
     def accumulate_over_paths(
         self,
         fun: PathFun,
         fun_args: tuple = (),
         fun_kwargs: Optional[Mapping[str, Any]] = None,
         *,
         reduce_all: bool = False,
         **kwargs: Any,
     ):
         """Accumulate."""
         fun_kwargs = fun_kwargs if fun_kwargs is not None else {}

         def results():
             table = {
                 (t, r): jnp.array(0.0) for t in self.transmitters for r in self.receivers
             }
             for tx_key, rx_key, valid, path, candidate in self.all_paths(**kwargs):
                 value = fun(
                     self.transmitters[tx_key],
                     self.receivers[rx_key],
                     path,
                     self.get_interacting_objects(candidate),
                     *fun_args,
                     **fun_kwargs,
                 )
                 table[tx_key, rx_key] += valid * value
             for (tx_key, rx_key), total in table.items():
                 yield tx_key, rx_key, total

         if not reduce_all:
             return results()
         return sum((total for *_, total in results()), jnp.array(0.0))
     '''),
])
r("scene-geojson-match", scene=[
    ("fn", "Scene._#0", '''
     def _(cls, s: S, tx_loc: Loc = "NW", rx_loc: Loc = "SE") -> "Scene[Wall]":
         """GeoJSON."""
         walls = []
         for feature in json.loads(s).get("features", []):
             match feature.get("geometry"):
                 case {"type": "Polygon", "coordinates": [ring, *_]}:
                     walls += [
                         Wall(xys=jnp.array([start, stop], dtype=float))
                         for start, stop in zip([ring[-1], *ring[:-1]] if ring else [], ring)
                     ]
                 case _:
                     continue
         scene = Scene(objects=walls)
         if walls:
             tx, rx = scene.get_location(tx_loc), scene.get_location(rx_loc)
         else:
             tx, rx = jnp.zeros(2), jnp.ones(2)
         return scene.with_transmitters(tx=Point(xy=tx)).with_receivers(rx=Point(xy=rx))
     '''),
])
r("scene-closest-zip", scene=[
    ("before", "Scene.get_closest_transmitter", '''
     @staticmethod
     def _closest(nodes, coords):
         names, points = zip(*nodes.items())
         index, distance = closest_point(jnp.stack([p.xy for p in points]), coords)
         return names[int(index)], distance
     '''),
    ("in", "Scene.get_closest_transmitter", "        transmitters = list(self.transmitters.items())\n", "        return self._closest(self.transmitters, coords)\n        transmitters = list(self.transmitters.items())\n"),
    ("in", "Scene.get_closest_receiver", "        receivers = list(self.receivers.items())\n", "        return self._closest(self.receivers, coords)\n        receivers = list(self.receivers.items())\n"),
])
r("scene-box-concat", scene=[
    ("fn", "Scene.bounding_box", '''
     def bounding_box(self) -> Float[Array, "2 2"]:
         """Box."""
         import itertools

         things = itertools.chain(self.transmitters.values(), self.receivers.values(), self.objects)
         boxes = jnp.stack([thing.bounding_box() for thing in things])
         return jnp.stack([boxes[:, 0].min(axis=0), boxes[:, 1].max(axis=0)])
     '''),
])
r("scene-name-table", scene=[
    ("fn", "Scene.from_scene_name", '''
     def from_scene_name(cls, scene_name: SceneName, *args: Any, **kwargs: Any) -> Self:
         """Name."""
         builders = {
             "basic_scene": cls.basic_scene,
             "square_scene": cls.square_scene,
             "square_scene_with_obstacle": cls.square_scene_with_obstacle,
             "square_scene_with_wall": cls.square_scene_with_wall,
         }
         builder = builders[scene_name]
         return builder(*args, **kwargs)
     '''),
    ("fn", "Scene.square_scene", '''
     def square_scene(
         cls,
         tx_coords: Float[Array, "2"] = jnp.array([0.2, 0.2]),
         rx_coords: Float[Array, "2"] = jnp.array([0.5, 0.6]),
     ) -> "Scene[Wall]":
         """Square."""
         corners = jnp.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]])
         sides = jnp.stack([corners, jnp.roll(corners, -1, axis=0)], axis=1)
         nodes = [Point(xy=jnp.asarray(c, dtype=float)) for c in (tx_coords, rx_coords)]
         return Scene(transmitters={"tx": nodes[0]}, receivers={"rx": nodes[1]}, objects=[Wall(xys=s) for s in sides])
     '''),
])
r("scene-plot-table", scene=[
    ("fn", "Scene.plot", '''
     def plot(
         self,
         ax,
         *args: Any,
         transmitters: bool = True,
         transmitters_args: tuple = (),
         transmitters_kwargs: Optional[Mapping[str, Any]] = None,
         objects: bool = True,
         objects_args: tuple = (),
         objects_kwargs: Optional[Mapping[str, Any]] = None,
         receivers: bool = True,
         receivers_args: tuple = (),
         receivers_kwargs: Optional[Mapping[str, Any]] = None,
         annotate: bool = True,
         **kwargs: Any,
     ) -> list[Artist]:
         """Plot."""
         artists: list[Artist] = []

         def draw(things, own_args, own_kwargs, **defaults):
             style = {**defaults, **kwargs, **(own_kwargs or {})}
             for label, thing in things:
                 options = dict(style)
                 if label is not _NO_LABEL:
                     options["annotate"] = label if annotate else None
                 artists.extend(thing.plot(ax, *own_args, *args, **options))

         if transmitters:
             draw(self.transmitters.items(), transmitters_args, transmitters_kwargs, color="blue")
         if objects:
             draw(((_NO_LABEL, obj) for obj in self.objects), objects_args, objects_kwargs)
         if receivers:
             draw(self.receivers.items(), receivers_args, receivers_kwargs, color="green")
         return artists
     '''),
    ("before", "Scene", "_NO_LABEL = object()"),
])
r("scene-filter-set", scene=[
    ("fn", "Scene.all_path_candidates", '''
     def all_path_candidates(
         self,
         min_order: int = 0,
         max_order: int = 1,
         *,
         order: Optional[int] = None,
         filter_objects: Optional[Callable[[Object], bool]] = None,
     ) -> list[Int[Array, "num_path_candidates order"]]:
         """Candidates."""
         rejected = None
         if filter_objects is not None:
             rejected = tuple(i for i, obj in enumerate(self.objects) if not filter_objects(obj))
         limits = {"min_order": min_order, "max_order": max_order, "order": order}
         return all_path_candidates(len(self.objects), filter_nodes=rejected, **limits)
     '''),
])
r("scene-random-reshape", scene=[
    ("fn", "Scene.random_uniform_scene", '''
     def random_uniform_scene(
         cls,
         n_transmitters: int = 1,
         n_walls: int = 1,
         n_receivers: int = 1,
         *,
         key: PRNGKeyArray,
     ) -> "Scene[Wall]":
         """Random."""
         total = n_transmitters + 2 * n_walls + n_receivers
         points = jax.random.uniform(key, (total, 2))
         txs, ends, rxs = jnp.split(points, [n_transmitters, n_transmitters + 2 * n_walls])
         rxs = jnp.flip(rxs, axis=0)
         return Scene(
             transmitters={f"tx_{i}": Point(xy=xy) for i, xy in enumerate(txs)},
             receivers={f"rx_{i}": Point(xy=xy) for i, xy in enumerate(rxs)},
             objects=[Wall(xys=xys) for xys in ends.reshape(n_walls, 2, 2)],
         )
     '''),
])
r("scene-table-lookup", scene=[
    ("fn", "PyTreeDict.__getitem__", '''
     def __getitem__(self, key: K) -> V:
         for candidate, value in zip(self._keys, self._values):
             if candidate == key:
                 return value
         raise KeyError(key)
     '''),
])
r("opt-namedtuple-state", optimize=[
    ("text", "from typing import Any, Callable, Optional\n", "from typing import Any, Callable, NamedTuple, Optional\n"),
    ("before", "minimize", '''
     class _State(NamedTuple):
         x: Any
         opt: Any

         def advance(self, gradient, optimizer, args):
             updates, opt = optimizer.update(gradient(self.x, *args), self.opt)
             return self._replace(x=optax.apply_updates(self.x, updates), opt=opt)
     '''),
    ("fn", "minimize", '''
     def minimize(fun, x0, args=(), steps: int = 100, optimizer: Optional[optax.GradientTransformation] = None):
         """Minimize."""
         if optimizer is None:
             optimizer = optax.adam(learning_rate=0.1, eps_root=1e-16)
         gradient = jax.grad(fun)
         final, _ = jax.lax.scan(
             lambda state, _: (state.advance(gradient, optimizer, args), None),
             _State(x0, optimizer.init(x0)),
             None,
             length=steps,
         )
         return final.x, fun(final.x, *args)
     '''),
])
r("opt-many-helper", optimize=[
    ("fn", "minimize_many_random_uniform", '''
     def minimize_many_random_uniform(fun, key: PRNGKeyArray, n: int, many: int = 10, **kwargs: Any):
         """Many."""

         def trial(key):
             return minimize_random_uniform(fun, key, n, **kwargs)

         if many == 1:
             return trial(key)
         xs, losses = jax.vmap(trial)(jax.random.split(key, many))
         best = jnp.argmin(losses)
         return jnp.take(xs, best, axis=0), jnp.take(losses, best)
     '''),
])
r("abc-location-products", abc=[
    ("fn", "Plottable.get_location", '''
     def get_location(self, location: Loc) -> Float[Array, "2"]:
         """Location."""
         low, high = self.bounding_box()
         middle = (low + high) / 2
         horizontal = {"W": low, "E": high}
         vertical = {"S": low, "N": high}
         x, y = middle[0], middle[1]
         for letter in location:
             if letter in horizontal:
                 x = horizontal[letter][0]
             elif letter in vertical:
                 y = vertical[letter][1]
         return jnp.stack([x, y])
     '''),
    ("fn", "Plottable.grid", '''
     def grid(self, m: int = 50, n: Optional[int] = None):
         """Grid."""
         n = m if n is None else n
         (xmin, ymin), (xmax, ymax) = self.bounding_box()
         x = xmin + (xmax - xmin) * jnp.linspace(0.0, 1.0, m)
         y = ymin + (ymax - ymin) * jnp.linspace(0.0, 1.0, n)
         return jnp.broadcast_to(x[None, :], (n, m)), jnp.broadcast_to(y[:, None], (n, m))
     '''),
    ("fn", "Plottable.center", '''
     def center(self) -> Float[Array, "2"]:
         """Center."""
         return self.bounding_box().mean(axis=0)
     '''),
])
r("utils-power-ops", utils=[
    ("in", "received_power", "return (r_coef**n) / (height * height + r * r)", "attenuation = jnp.power(r_coef, n)\n    return attenuation / (height**2 + r**2)"),
    ("text", "import jax\n", "import jax\nimport jax.numpy as jnp\n"),
])
r("logic-sigmoid-log-sigmoid", logic=[
    ("in", "sigmoid", "return jax.nn.sigmoid(alpha * x)", "return jnp.exp(jax.nn.log_sigmoid(alpha * x))"),
])
r("logic-sigmoid-softplus", logic=[
    ("in", "sigmoid", "return jax.nn.sigmoid(alpha * x)", "return jnp.exp(-jax.nn.softplus(-alpha * x))"),
])
r("logic-sigmoid-logaddexp", logic=[
    ("in", "sigmoid", "return jax.nn.sigmoid(alpha * x)", "return jnp.exp(-jnp.logaddexp(0.0, -alpha * x))"),
])
r("logic-sigmoid-stable-where", logic=[
    ("in", "sigmoid", "return jax.nn.sigmoid(alpha * x)", "return jnp.where(alpha * x >= 0, 1 / (1 + jnp.exp(-jnp.abs(alpha * x))), jnp.exp(-jnp.abs(alpha * x)) / (1 + jnp.exp(-jnp.abs(alpha * x))))"),
])
r("logic-sigmoid-tanh", logic=[
    ("in", "sigmoid", "return jax.nn.sigmoid(alpha * x)", "return 0.5 * (jnp.tanh(0.5 * alpha * x) + 1)"),
])

# ------------------------------------------------------ third batch of edits
r("logic-mode-getter-lambda", logic=[
    ("before", "set_approx", '''
     def _is_approx(approx: Optional[bool] = None) -> bool:
         """Whether approximation is in force."""
         if approx is not None:
             return approx
         return globals()["ENABLE_APPROX"]
     '''),
    *[("in", f, "    if approx is None:\n        approx = ENABLE_APPROX\n", "    if (approx := _is_approx(approx)) is None:\n        raise AssertionError\n") for f in ("greater", "less", "is_true", "true_value")],
])
r("logic-comparisons-where-negated", logic=[
    ("in", "less_equal", "    return activation(jnp.subtract(y, x), **kwargs) if approx else jnp.less_equal(x, y)", "    if approx:\n        return activation(-(jnp.asarray(x) - jnp.asarray(y)), **kwargs)\n    return jnp.greater_equal(y, x)"),
    ("in", "greater", "    return activation(jnp.subtract(x, y), **kwargs) if approx else jnp.greater(x, y)", "    if approx:\n        return activation(jnp.add(x, jnp.negative(y)), **kwargs)\n    return jnp.less(y, x)"),
    ("in", "logical_not", "    return jnp.subtract(1.0, x) if approx else jnp.logical_not(x)", "    if not approx:\n        return jnp.invert(jnp.asarray(x, dtype=bool))\n    return 1.0 - jnp.asarray(x)"),
])
r("logic-all-any-reduce-ufunc", logic=[
    ("in", "logical_all", "    arr = jnp.asarray(x)\n\n    return jnp.min(arr, axis=axis) if approx else jnp.all(arr, axis=axis)", "    stacked = jnp.stack(jnp.broadcast_arrays(*x)) if x else jnp.asarray(x)\n    if approx:\n        return jnp.amin(stacked, axis)\n    return jnp.all(stacked, axis)"),
])
r("logic-truth-values-full", logic=[
    ("in", "true_value", "    return jnp.array(1.0) if approx else jnp.array(True, dtype=bool)", "    return jnp.ones((), dtype=float if approx else bool)"),
    ("in", "false_value", "    return jnp.array(0.0) if approx else jnp.array(False, dtype=bool)", "    return jnp.zeros((), dtype=float if approx else bool)"),
    ("in", "is_false", "    return jnp.less(x, tol) if approx else jnp.logical_not(x)", "    return jnp.asarray(x) < tol if approx else ~jnp.asarray(x, dtype=bool)"),
])
r("logic-hard-sigmoid-relu6", logic=[
    ("in", "hard_sigmoid", "return jax.nn.hard_sigmoid(alpha * x)", "return jax.nn.relu6(alpha * x + 3.0) / 6.0"),
    ("in", "sigmoid", "return jax.nn.sigmoid(alpha * x)", "return jax.scipy.special.expit(alpha * x)"),
    ("text", "import jax.numpy as jnp\n", "import jax.numpy as jnp\nimport jax.scipy.special\n"),
])
r("logic-disable-direct", logic=[
    ("fn", "disable_approx", '''
     @-
     def disable_approx(disable: bool = True):
         """Disable."""
         return enable_approx(enable=not disable)
     '''),
])
r("opt-scan-dict-carry", optimize=[
    ("in", "minimize", "(x0, opt_state), xs=None", "(x0, opt_state), xs=jnp.arange(steps)") if False else
    ("fn", "minimize", '''
     def minimize(fun, x0, args=(), steps: int = 100, optimizer: Optional[optax.GradientTransformation] = None):
         """Minimize."""
         optimizer = optax.adam(learning_rate=0.1, eps_root=1e-16) if optimizer is None else optimizer

         def objective(x):
             return fun(x, *args)

         def step(carry, _):
             grads = jax.grad(objective)(carry["x"])
             updates, state = optimizer.update(grads, carry["state"], carry["x"])
             return {"x": optax.apply_updates(carry["x"], updates), "state": state}, None

         carry = {"x": x0, "state": optimizer.init(x0)}
         carry, _ = jax.lax.scan(step, carry, jnp.arange(steps))
         return carry["x"], objective(carry["x"])
     '''),
])
r("opt-loop-body-counter", optimize=[
    ("fn", "minimize", '''
     def minimize(fun, x0, args=(), steps: int = 100, optimizer: Optional[optax.GradientTransformation] = None):
         """Minimize."""
         optimizer = optimizer or optax.adam(learning_rate=0.1, eps_root=1e-16)
         df = jax.grad(fun)

         def body(state):
             i, x, opt_state = state
             updates, opt_state = optimizer.update(df(x, *args), opt_state)
             return i + 1, x + updates, opt_state

         _, x, _ = jax.lax.while_loop(lambda state: state[0] < steps, body, (0, x0, optimizer.init(x0)))
         return x, fun(x, *args)
     '''),
])
r("opt-many-map", optimize=[
    ("in", "minimize_many_random_uniform", "    i_min = jnp.argmin(losses)\n\n    return xs[i_min, :], losses[i_min]", "    best = jnp.nanargmin(losses) if False else jnp.argmin(losses, axis=0)\n    x, loss = jax.tree_util.tree_map(lambda leaf: leaf[best], (xs, losses))\n    return x, loss"),
    ("in", "minimize_random_uniform", "    x0 = jax.random.uniform(key, shape=(n,))\n", "    start = jax.random.uniform(key=key, shape=(n,), minval=0.0, maxval=1.0)\n    x0 = start\n"),
])
r("utils-power-reciprocal", utils=[
    ("in", "received_power", "    return (r_coef**n) / (height * height + r * r)", "    squared_distance = height**2 + r**2\n    gain = 1.0\n    for _ in range(n):\n        gain = gain * r_coef\n    return gain * (1.0 / squared_distance)"),
])
r("utils-power-hypot", utils=[
    ("in", "received_power", "    return (r_coef**n) / (height * height + r * r)", "    attenuation = r_coef ** len(interacting_objects) if len(interacting_objects) == n else r_coef**n\n    return attenuation / (r**2 + height**2)"),
])
r("abc-grid-stack", abc=[
    ("fn", "Plottable.grid", '''
     def grid(self, m: int = 50, n: Optional[int] = None):
         """Grid."""
         lower, upper = self.bounding_box()
         axes = [
             jnp.linspace(start, stop, num)
             for start, stop, num in zip(lower, upper, (m, n if n is not None else m))
         ]
         X, Y = jnp.meshgrid(*axes, indexing="xy")
         return X, Y
     '''),
    ("fn", "Plottable.get_location", '''
     def get_location(self, location: Loc) -> Float[Array, "2"]:
         """Location."""
         weights = {
             "N": (0.5, 1.0), "E": (1.0, 0.5), "S": (0.5, 0.0), "W": (0.0, 0.5), "C": (0.5, 0.5),
             "NE": (1.0, 1.0), "NW": (0.0, 1.0), "SE": (1.0, 0.0), "SW": (0.0, 0.0),
         }
         lower, upper = self.bounding_box()
         w = jnp.array(weights[location])
         return (1 - w) * lower + w * upper
     '''),
    ("in", "Interactable.sample", "        return self.parametric_to_cartesian(", "        draw = jax.random.uniform(key, (self.parameters_count(),))\n        return self.parametric_to_cartesian(draw)\n        return self.parametric_to_cartesian("),
])
r("geo-segments-solve", geometry=[
    ("fn", "segments_intersect", '''
     def segments_intersect(
         P1: Float[Array, "2"],
         P2: Float[Array, "2"],
         P3: Float[Array, "2"],
         P4: Float[Array, "2"],
         tol: ScalarFloat = 0.005,
         approx: Optional[bool] = None,
         **kwargs: Any,
     ) -> Truthy:
         """Intersect."""
         tol = jnp.asarray(tol)
         ax, ay = P2 - P1
         bx, by = P3 - P4
         cx, cy = P1 - P3
         d = ay * bx - ax * by
         parallel = d == 0.0
         inverse = 1.0 / jnp.where(parallel, 1.0, d)
         alpha = jnp.where(parallel, jnp.inf, (by * cx - bx * cy) * inverse)
         beta = jnp.where(parallel, jnp.inf, (ax * cy - ay * cx) * inverse)

         def inside(t):
             lower = greater_equal(t, -tol, approx=approx, **kwargs)
             upper = greater_equal(1.0 + tol, t, approx=approx, **kwargs)
             return logical_and(lower, upper, approx=approx)

         return logical_all(inside(alpha), inside(beta), approx=approx)
     '''),
])
r("geo-length-hypot-scan", geometry=[
    ("fn", "path_length", '''
     def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
         """Length."""

         def add(total, pair):
             start, stop = pair
             d2 = jnp.sum(jnp.square(stop - start))
             zero = d2 == 0.0
             d = jnp.where(zero, 0.0, jnp.sqrt(jnp.where(zero, 1.0, d2)))
             return total + d, None

         total, _ = jax.lax.scan(add, jnp.zeros((), dtype=points.dtype), (points[:-1], points[1:]))
         return total
     '''),
])
r("geo-normalize-safe-ones", geometry=[
    ("fn", "normalize", '''
     def normalize(vector: Float[Array, "2"]) -> tuple[Float[Array, "2"], Float[Array, " "]]:
         """Normalize."""
         length2 = jnp.vdot(vector, vector)
         length = jnp.sqrt(jnp.where(length2 > 0.0, length2, 1.0))
         return vector / length, length
     '''),
    ("fn", "closest_point", '''
     def closest_point(points: Float[Array, "N 2"], target: Float[Array, "2"]) -> tuple[Int[Array, " "], Float[Array, " "]]:
         """Closest."""

         def distance(point):
             d2 = jnp.dot(point - target, point - target)
             return jnp.where(d2 == 0.0, 0.0, jnp.sqrt(jnp.where(d2 == 0.0, 1.0, d2)))

         distances = jax.vmap(distance)(points)
         i_min = jnp.argmin(distances)
         return i_min, jnp.take(distances, i_min)
     '''),
])
r("geo-ray-methods-inline", geometry=[
    ("in", "Wall.parametric_to_cartesian", "return self.origin() + param_coords * self.t()", "start, stop = self.xys[0], self.xys[1]\n        return start + param_coords[0] * (stop - start)"),
    ("in", "Wall.image_of", "        i = point - self.origin()\n        return point - 2.0 * jnp.dot(i, self.normal()) * self.normal()", "        n = self.normal()\n        distance = (point - self.xys[0]) @ n\n        return point - (distance + distance) * n"),
    ("in", "Ray.t", "return self.dest() - self.origin()", "return jnp.diff(self.xys, axis=0)[0]"),
    ("in", "Ray.bounding_box", "return jnp.vstack([jnp.min(self.xys, axis=0), jnp.max(self.xys, axis=0)])", "a, b = self.xys\n        return jnp.stack([jnp.minimum(a, b), jnp.maximum(a, b)])"),
])
r("geo-wall-residual-identity", geometry=[
    ("in", "Wall.evaluate_cartesian", "        e = r - (i - 2 * jnp.dot(i, n) * n)\n        return jnp.dot(e, e)", "        reflected = i - n * (2.0 * (n @ i))\n        residual = reflected - r\n        return jnp.sum(residual**2)"),
    ("in", "RIS.evaluate_cartesian", "        return (sin_a - sin_p) ** 2 + (cos_a - cos_p) ** 2", "        delta = jnp.stack([sin_a - sin_p, cos_a - cos_p])\n        return delta @ delta"),
])
r("geo-rotate-complex", geometry=[
    ("fn", "Vertex.parametric_to_cartesian", '''
     def parametric_to_cartesian(self, param_coords: Float[Array, " parameters_count"]) -> Float[Array, "2"]:
         """Self."""
         del param_coords
         return self.xy
     '''),
    ("in", "Vertex.cartesian_to_parametric", "return jnp.empty_like(carte_coords, shape=0)", "return jnp.zeros((0,), dtype=carte_coords.dtype)"),
    ("in", "Vertex.evaluate_cartesian", "return jnp.array(0.0, dtype=ray_path.dtype)", "return jnp.zeros_like(ray_path, shape=())"),
    ("in", "Point.bounding_box", "return jnp.vstack([self.xy, self.xy])", "return jnp.tile(self.xy, (2, 1))"),
])
r("geo-contains-clip-range", geometry=[
    ("in", "Wall.contains_parametric", "        param_coords = param_coords[0]\n", "        (param_coords,) = param_coords\n"),
    ("in", "Wall.contains_parametric", "        return logical_and(ge, le, approx=approx)", "        return logical_not(\n            logical_or(\n                logical_not(ge, approx=approx), logical_not(le, approx=approx), approx=approx\n            ),\n            approx=approx,\n        )"),
])
r("geo-parametric-helper-offset-list", geometry=[
    ("fn", "parametric_to_cartesian", '''
     def parametric_to_cartesian(
         objects: Sequence[Interactable],
         parametric_coords: Float[Array, " num_parametric_coords"],
         n: int,
         tx_coords: Float[Array, "2"],
         rx_coords: Float[Array, "2"],
     ) -> Float[Array, "{n}+2 2"]:
         """Coordinates."""
         assert n >= 0, f"n must be greater than 0, got n = {n!r} instead."
         remaining = parametric_coords
         points = []
         for obj in objects:
             count = obj.parameters_count()
             head, remaining = remaining[:count], remaining[count:]
             points.append(obj.parametric_to_cartesian(head))
         return jnp.vstack((tx_coords, *points, rx_coords))
     '''),
])
r("geo-on-objects-while", geometry=[
    ("fn", "Path.on_objects", '''
     def on_objects(self, objects: Sequence[Interactable], approx: Optional[bool] = None, **kwargs) -> Truthy:
         """On objects."""
         inside = partial(logical_and, approx=approx)
         contains = true_value(approx=approx)
         remaining = list(objects)
         vertices = iter(self.xys[1:, :])
         while remaining:
             obj = remaining.pop(0)
             local = obj.cartesian_to_parametric(next(vertices))
             contains = inside(contains, obj.contains_parametric(local, approx=approx, **kwargs))
         return contains
     '''),
])
r("geo-obstruction-masked", geometry=[
    ("fn", "Path.intersects_with_objects", '''
     def intersects_with_objects(
         self,
         objects: Sequence[Interactable],
         path_candidate: Array,
         patch: ScalarFloat = DEFAULT_PATCH,
         approx: Optional[bool] = None,
         **kwargs: Any,
     ) -> Truthy:
         """Obstruction."""
         from itertools import product

         indices = jnp.concatenate([jnp.array([-1]), path_candidate, jnp.array([-1])])
         nothing = false_value(approx=approx)
         hit = nothing
         for i, (j, obj) in product(range(len(self.xys) - 1), enumerate(objects)):
             touched = obj.intersects_cartesian(
                 self.xys[i : i + 2], patch=patch, approx=approx, **kwargs
             )
             is_end = jnp.any(indices[i : i + 2] == j)
             hit = logical_or(hit, jax.lax.select(is_end, jnp.broadcast_to(nothing, touched.shape), touched), approx=approx)
         return hit
     '''),
])
r("geo-valid-starred", geometry=[
    ("fn", "Path.is_valid", '''
     def is_valid(
         self,
         objects: Sequence[Interactable],
         path_candidate: Int[Array, " order"],
         interacting_objects: Sequence[Interactable],
         tol: ScalarFloat = 1e-2,
         patch: ScalarFloat = DEFAULT_PATCH,
         approx: Optional[bool] = None,
         **kwargs: Any,
     ) -> Truthy:
         """Valid."""
         logic = {"approx": approx, **kwargs}
         criteria = (
             greater(jnp.asarray(tol), self.loss, **logic),
             self.on_objects(interacting_objects, **logic),
             logical_not(
                 self.intersects_with_objects(objects, path_candidate, patch, **logic),
                 approx=approx,
             ),
         )
         return jnp.nan_to_num(logical_all(*criteria, approx=approx))
     '''),
    ("text", "    greater_equal,\n", "    greater,\n    greater_equal,\n"),
])
r("geo-fermat-partial-objective", geometry=[
    ("in", "FermatPath.from_tx_objects_rx", "        n_unknowns = sum(obj.parameters_count() for obj in objects)\n", "        n_unknowns = 0\n        for obj in objects:\n            n_unknowns += obj.parameters_count()\n"),
    ("in", "FermatPath.from_tx_objects_rx", "            cartesian_coords = parametric_to_cartesian(objects, theta, n, tx, rx)\n            return path_length(cartesian_coords)", "            return cls(xys=parametric_to_cartesian(objects, theta, n, tx, rx)).length()"),
    ("in", "FermatPath.from_tx_objects_rx", '        kwargs.setdefault("many", 1)\n', '        many = kwargs.pop("many", 1)\n'),
    ("in", "FermatPath.from_tx_objects_rx", "minimize_many_random_uniform(loss_fun, key, n_unknowns, **kwargs)", "minimize_many_random_uniform(loss_fun, key, n_unknowns, many, **kwargs)"),
])
r("geo-min-enumerate-windows", geometry=[
    ("in", "MinPath.from_tx_objects_rx", "            for i, obj in enumerate(objects):\n                _loss += obj.evaluate_cartesian(cartesian_coords[i : i + 3, :])\n            return _loss", "            windows = zip(cartesian_coords[:-2], cartesian_coords[1:-1], cartesian_coords[2:])\n            for obj, window in zip(objects, windows):\n                _loss = _loss + obj.evaluate_cartesian(jnp.stack(window))\n            return _loss"),
])
r("geo-image-cond-parallel", geometry=[
    ("in", "ImagePath.from_tx_objects_rx", "            un_is_zero = un == 0.0\n            un = jnp.where(un_is_zero, 1.0, un)\n            inc = jnp.where(un_is_zero, 0.0, vn * u / un)\n            point = point + inc\n", "            ratio = jnp.where(un == 0.0, 0.0, vn / jnp.where(un == 0.0, 1.0, un))\n            point = point + ratio * u\n"),
    ("in", "ImagePath.from_tx_objects_rx", "        xys = jnp.vstack([tx, *points, rx])\n", "        xys = jnp.concatenate([tx[None, :], points, rx[None, :]], axis=0)\n"),
])
r("geo-image-associative", geometry=[
    ("fn", "ImagePath.from_tx_objects_rx", '''
     def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kwargs):
         """Image method."""
         from itertools import accumulate

         tx = tx.xy if isinstance(tx, Point) else tx
         rx = rx.xy if isinstance(rx, Point) else rx
         walls = tuple(objects)
         if not walls:
             return cls(xys=jnp.vstack([tx, rx]), loss=jnp.array(0.0))

         def hit(point, item):
             wall, image = item
             origin, normal = wall.origin(), wall.normal()
             direction = point - image
             den = direction @ normal
             safe = jnp.where(den == 0.0, jnp.ones_like(den), den)
             num = (origin - point) @ normal
             return point + jnp.where(den == 0.0, jnp.zeros(2), num * direction / safe)

         images = list(accumulate(walls, lambda image, wall: wall.image_of(image), initial=tx))
         backwards = list(zip(walls, images[1:]))[::-1]
         points = list(accumulate(backwards, hit, initial=rx))
         xys = jnp.vstack([tx, *points[::-1]])
         loss = sum((wall.evaluate_cartesian(xys[i : i + 3]) for i, wall in enumerate(walls)), start=jnp.array(0.0))
         return cls(xys=xys, loss=loss)
     '''),
])
r("geo-stack-transposed", geometry=[
    ("fn", "stack_leaves", '''
     def stack_leaves(pytrees: Iterable[P], axis: int = 0, is_leaf: Optional[Callable[..., Any]] = None) -> P:
         """Stack."""
         first, *rest = pytrees

         def join(*leaves):
             return jnp.stack(leaves, axis=axis)

         return jax.tree_util.tree_map(join, first, *rest, is_leaf=is_leaf)
     '''),
    ("fn", "unstack_leaves", '''
     def unstack_leaves(pytrees) -> list[PyTree]:
         """Unstack."""
         leaves, treedef = jax.tree_util.tree_flatten(pytrees)
         rows = zip(*(list(leaf) for leaf in leaves), strict=True)
         return [jax.tree_util.tree_unflatten(treedef, row) for row in rows]
     '''),
])
r("scene-edit-constructor", scene=[
    ("in", "Scene.add_objects", "return self.with_objects(*self.objects, *objects)", "combined = [*self.objects]\n        combined.extend(objects)\n        return self.with_objects(*combined)"),
    ("in", "Scene.filter_objects", "tuple(filter(filter_spec, self.objects))", "tuple(obj for obj in self.objects if filter_spec(obj))"),
    ("in", "Scene.rename_transmitters", '        transmitters = {}\n        for name, point in self.transmitters.items():\n            name = transmitter_names.get(name, name)\n            transmitters[name] = point\n        return self.with_transmitters(**transmitters)', '        renamed = {transmitter_names.get(name, name): point for name, point in self.transmitters.items()}\n        return self.with_transmitters(**renamed)'),
])
r("scene-rename-helper", scene=[
    ("before", "Scene", '''
     def _renamed(nodes, names):
         """Same nodes under new names."""
         result = dict()
         for old in nodes:
             result[names[old] if old in names else old] = nodes[old]
         return result
     '''),
    ("in", "Scene.rename_receivers", '        receivers = {}\n        for name, point in self.receivers.items():\n            name = receiver_names.get(name, name)\n            receivers[name] = point\n        return self.with_receivers(**receivers)', '        return self.with_receivers(**_renamed(self.receivers, receiver_names))'),
    ("in", "Scene.rename_transmitters", '        transmitters = {}\n        for name, point in self.transmitters.items():\n            name = transmitter_names.get(name, name)\n            transmitters[name] = point\n        return self.with_transmitters(**transmitters)', '        return self.with_transmitters(**_renamed(self.transmitters, transmitter_names))'),
])
r("scene-pytreedict-bisect", scene=[
    ("fn", "PyTreeDict.from_mapping", '''
     def from_mapping(cls, mapping: Mapping[K, V]) -> Self:
         """From mapping."""
         items = list(mapping.items())
         return cls(_keys=[k for k, _ in items], _values=[v for _, v in items])
     '''),
    ("fn", "PyTreeDict.__iter__", '''
     def __iter__(self) -> Iterator[K]:
         yield from self._keys
     '''),
    ("fn", "PyTreeDict.__getitem__", '''
     def __getitem__(self, key: K) -> V:
         table = dict(zip(self._keys, self._values))
         if key not in table:
             raise KeyError(key)
         return table[key]
     '''),
])
r("scene-candidates-append", scene=[
    ("in", "all_path_candidates", "    if order is not None:\n        min_order = order\n        max_order = order\n", "    if order is not None:\n        min_order = max_order = order\n"),
    ("fn", "Scene.all_path_candidates", '''
     def all_path_candidates(
         self,
         min_order: int = 0,
         max_order: int = 1,
         *,
         order: Optional[int] = None,
         filter_objects: Optional[Callable[[Object], bool]] = None,
     ) -> list[Int[Array, "num_path_candidates order"]]:
         """Candidates."""
         options = dict(min_order=min_order, max_order=max_order, order=order)
         if filter_objects is not None:
             excluded = []
             for index in range(len(self.objects)):
                 if filter_objects(self.objects[index]):
                     continue
                 excluded.append(index)
             options["filter_nodes"] = tuple(excluded)
         return all_path_candidates(len(self.objects), **options)
     '''),
])
r("scene-random-offsets", scene=[
    ("fn", "Scene.random_uniform_scene", '''
     def random_uniform_scene(
         cls,
         n_transmitters: int = 1,
         n_walls: int = 1,
         n_receivers: int = 1,
         *,
         key: PRNGKeyArray,
     ) -> "Scene[Wall]":
         """Random."""
         count = n_transmitters + n_receivers + n_walls * 2
         points = iter(jax.random.uniform(key, shape=(count, 2)))
         transmitters = {f"tx_{i}": Point(xy=next(points)) for i in range(n_transmitters)}
         walls = [Wall(xys=jnp.stack([next(points), next(points)])) for _ in range(n_walls)]
         last = list(points)
         receivers = {f"rx_{i}": Point(xy=xy) for i, xy in enumerate(last[::-1])}
         return Scene(transmitters=transmitters, receivers=receivers, objects=walls)
     '''),
])
r("scene-obstacle-loop", scene=[
    ("fn", "Scene.square_scene_with_obstacle", '''
     def square_scene_with_obstacle(cls, ratio: ScalarFloat = 0.1, **kwargs: Any) -> "Scene[Wall]":
         """Obstacle."""
         low, high = 0.5 - 0.5 * ratio, 0.5 + 0.5 * ratio
         corners = [(low, low), (high, low), (high, high), (low, high)]
         walls = []
         for index, start in enumerate(corners):
             stop = corners[(index + 1) % len(corners)]
             walls.append(Wall(xys=jnp.array([start, stop])))
         return Scene.square_scene(**kwargs).add_objects(*walls)
     '''),
    ("fn", "Scene.square_scene_with_wall", '''
     def square_scene_with_wall(
         cls,
         ratio: float = 0.6,
         tx_coords: Float[Array, "2"] = jnp.array([0.2, 0.5]),
         rx_coords: Float[Array, "2"] = jnp.array([0.8, 0.5]),
     ) -> "Scene[Wall]":
         """Wall."""
         base = Scene.square_scene(tx_coords, rx_coords)
         middle = 0.5
         half = ratio / 2
         wall = Wall(xys=jnp.array([[middle, middle - half], [middle, middle + half]]))
         return base.with_objects(*base.objects, wall)
     '''),
])
r("scene-closest-min", scene=[
    ("fn", "Scene.get_closest_transmitter", '''
     def get_closest_transmitter(self, coords: Float[Array, "2"]) -> tuple[str, Float[Array, " "]]:
         """Closest."""
         names = tuple(self.transmitters)
         index, distance = closest_point(
             jnp.asarray([self.transmitters[name].xy for name in names]), target=coords
         )
         return names[index], distance
     '''),
])
r("scene-pairs-generator", scene=[
    ("fn", "Scene.all_transmitter_receiver_pairs", '''
     def all_transmitter_receiver_pairs(self) -> Iterator[tuple[tuple[str, Point], tuple[str, Point]]]:
         """Pairs."""
         return (
             (tx_item, rx_item)
             for tx_item in self.transmitters.items()
             for rx_item in self.receivers.items()
         )
     '''),
])
r("scene-paths-chain", scene=[
    ("fn", "Scene.all_valid_paths", '''
     def all_valid_paths(self, approx: Optional[bool] = None, **kwargs: Any):
         """Valid paths."""
         found = self.all_paths(approx=approx, **kwargs)
         kept = filter(lambda item: is_true(item[2], approx=approx), found)
         return ((tx_key, rx_key, path, candidate) for tx_key, rx_key, _, path, candidate in kept)
     '''),
])
r("scene-accumulate-defaultdict", scene=[
    ("fn", "Scene.accumulate_over_paths", '''
     def accumulate_over_paths(
         self,
         fun: PathFun,
         fun_args: tuple = (),
         fun_kwargs: Optional[Mapping[str, Any]] = None,
         *,
         reduce_all: bool = False,
         **kwargs: Any,
     ):
         """Accumulate."""
         from collections import defaultdict

         extra = fun_kwargs or {}

         def contribution(tx_key, rx_key, valid, path, candidate):
             objects = self.get_interacting_objects(candidate)
             value = fun(self.transmitters[tx_key], self.receivers[rx_key], path, objects, *fun_args, **extra)
             return valid * value

         def results():
             groups = defaultdict(list)
             for item in self.all_paths(**kwargs):
                 groups[item[:2]].append(contribution(*item))
             for (tx_key, _), (rx_key, _) in self.all_transmitter_receiver_pairs():
                 yield tx_key, rx_key, sum(groups[tx_key, rx_key], jnp.array(0.0))

         if reduce_all:
             return functools.reduce(jnp.add, (value for _, _, value in results()), jnp.array(0.0))
         return results()
     '''),
    ("text", "import json\n", "import functools\nimport json\n"),
])
r("scene-grid-contribution", scene=[
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", "        pairs = list(scene.all_transmitter_receiver_pairs())\n", "        sources = [item for item, _ in scene.all_transmitter_receiver_pairs()]\n"),
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", "            return (\n                (tx_key, vf(transmitter, grid)) for (tx_key, transmitter), _ in pairs\n            )", "            for tx_key, transmitter in sources:\n                yield tx_key, vf(transmitter, grid)"),
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", "        vf = jax.vmap(\n            jax.vmap(f, in_axes=(None, 0)),\n            in_axes=(None, 0),\n        )\n", "        vf = f\n        for _ in range(2):\n            vf = jax.vmap(vf, in_axes=(None, 0))\n"),
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", "        grid = jnp.dstack((X, Y))\n", "        grid = jnp.stack([X, Y], axis=-1)\n"),
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", "        if value_and_grad:\n            f = jax.value_and_grad(facc, argnums=0)  # type: ignore\n        elif grad:\n            f = jax.grad(facc, argnums=0)\n        else:\n            f = facc\n", "        f = facc\n        if value_and_grad:\n            f = jax.value_and_grad(facc)\n        elif grad:\n            f = jax.grad(facc)\n"),
])
r("scene-grid-flat-vmap", scene=[
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", "            return ((rx_key, vf(grid, receiver)) for _, (rx_key, receiver) in pairs)", "            def unflatten(leaf):\n                return leaf.reshape(*grid.shape[:2], *leaf.shape[1:])\n\n            points = grid.reshape(-1, 2)\n            over_points = jax.vmap(f, in_axes=(0, None))\n            for _, (rx_key, receiver) in pairs:\n                yield rx_key, jax.tree_util.tree_map(unflatten, over_points(points, receiver))"),
])
r("scene-grid-reduce-tree", scene=[
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", "            if value_and_grad:\n                Z = jnp.array(0.0)\n                dZ = jnp.array(0.0)\n                for _, (p, dp) in results():\n                    Z = Z + p\n                    dZ = dZ + dp\n\n                return Z, dZ\n", "            if value_and_grad:\n                totals = (jnp.array(0.0), jnp.array(0.0))\n                for _, parts in results():\n                    totals = tuple(a + b for a, b in zip(totals, parts))\n                return totals\n") ,
])
r("scene-geojson-features", scene=[
    ("before", "Scene", '''
     def _exterior_rings(dictionary):
         """Exterior ring of every polygon."""
         for feature in dictionary.get("features", []):
             geometry = feature.get("geometry", None)
             if not geometry or geometry["type"] != "Polygon":
                 continue
             if rings := geometry["coordinates"]:
                 yield rings[0]
     '''),
    ("in", "Scene._#0", "        dictionary = json.loads(s)\n", "        walls = [\n            Wall(xys=jnp.array([ring[i - 1], ring[i]], dtype=float))\n            for ring in _exterior_rings(json.loads(s))\n            for i in range(len(ring))\n        ]\n        dictionary = {}\n"),
    ("in", "Scene._#0", '        walls = []\n        for feature', '        for feature'),
])
r("scene-plot-merge-helper", scene=[
    ("before", "Scene.plot", '''
     @staticmethod
     def _options(default, shared, own):
         merged = dict(default)
         merged.update(shared)
         if own is not None:
             merged.update(own)
         return merged
     '''),
    ("in", "Scene.plot", "        if receivers_kwargs is None:\n            receivers_kwargs = {}\n\n        if objects_kwargs is None:\n            objects_kwargs = {}\n\n        if transmitters_kwargs is None:\n            transmitters_kwargs = {}\n", ""),
    ("in", "Scene.plot", 'transmitters_kwargs = {"color": "blue", **kwargs, **transmitters_kwargs}', 'transmitters_kwargs = self._options({"color": "blue"}, kwargs, transmitters_kwargs)'),
    ("in", "Scene.plot", 'objects_kwargs = {**kwargs, **objects_kwargs}', 'objects_kwargs = self._options({}, kwargs, objects_kwargs)'),
    ("in", "Scene.plot", 'receivers_kwargs = {"color": "green", **kwargs, **receivers_kwargs}', 'receivers_kwargs = self._options({"color": "green"}, kwargs, receivers_kwargs)'),
])
r("scene-interacting-cache", scene=[
    ("fn", "Scene.get_interacting_objects", '''
     def get_interacting_objects(self, path_candidate: Int[Array, " order"]) -> list[Interactable]:
         """Objects."""
         homogeneous = len(set(map(type, self.objects))) < 2
         result = []
         for index in path_candidate:
             result.append(self.get_object(index) if homogeneous else self.objects[index])
         return result
     '''),
    ("fn", "Scene.get_object", '''
     @eqx.filter_jit
     @jaxtyped(typechecker=typechecker)
     def get_object(self, index: ScalarInt) -> Obj:
         """Object."""

         def branch(obj):
             return lambda: obj

         return jax.lax.switch(index, [branch(obj) for obj in self.objects])
     '''),
])
r("scene-bounding-box-reduce", scene=[
    ("fn", "Scene.bounding_box", '''
     def bounding_box(self) -> Float[Array, "2 2"]:
         """Box."""
         boxes = [thing.bounding_box() for thing in (*self.transmitters.values(), *self.receivers.values(), *self.objects)]
         lower = functools.reduce(jnp.minimum, [box[0] for box in boxes])
         upper = functools.reduce(jnp.maximum, [box[1] for box in boxes])
         return jnp.stack((lower, upper))
     '''),
    ("text", "import json\n", "import functools\nimport json\n"),
])


# ------------------------------------------------------------------- differently styled edits
r("mod-vectors-extracted", _vectors=[("new", '''"""Vector helpers."""
import jax.numpy as jnp


def norm(x, axis=-1):
    """Length, zero (with a zero gradient) for null vectors."""
    squared = jnp.sum(jnp.square(x), axis=axis)
    null = squared == 0.0
    return jnp.where(null, 0.0, jnp.sqrt(jnp.where(null, 1.0, squared)))


def cross(u, v):
    """Third component of the cross product."""
    return u[0] * v[1] - u[1] * v[0]


def reflect(u, n):
    """Mirror of direction u about normal n."""
    return u - 2 * jnp.vdot(u, n) * n
''')], geometry=[
    ("text", "from .abc import Interactable, Object, Plottable\n", "from . import _vectors as vec\nfrom .abc import Interactable, Object, Plottable\n"),
    ("fn", "path_length", '''
     def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
         """Length."""
         return vec.norm(points[1:] - points[:-1]).sum()
     '''),
    ("fn", "closest_point", '''
     def closest_point(points: Float[Array, "N 2"], target: Float[Array, "2"]) -> tuple[Int[Array, " "], Float[Array, " "]]:
         """Closest."""
         distances = vec.norm(points - target)
         return jnp.argmin(distances), distances.min()
     '''),
    ("in", "Wall.evaluate_cartesian", "e = r - (i - 2 * jnp.dot(i, n) * n)", "e = r - vec.reflect(i, n)"),
    ("in", "RIS.evaluate_cartesian", "jnp.cross(-r, n)", "vec.cross(n, r)"),
    ("in", "segments_intersect", "a = B[1] * C[0] - B[0] * C[1]", "a = vec.cross(C, B)"),
    ("in", "segments_intersect", "b = A[0] * C[1] - A[1] * C[0]", "b = vec.cross(A, C)"),
    ("in", "segments_intersect", "d = A[1] * B[0] - A[0] * B[1]", "d = vec.cross(B, A)"),
])
r("mod-modes-extracted", _compare=[("new", '''"""Selection of the comparison for a mode."""
from __future__ import annotations

from typing import Callable

import jax.numpy as jnp

EXACT: dict[str, Callable] = {"gt": jnp.greater, "ge": jnp.greater_equal, "lt": jnp.less, "le": jnp.less_equal}


def compare(op, x, y, smooth, activation, options):
    """Compare x with y."""
    if not smooth:
        return EXACT[op](x, y)
    sign = 1 if op.startswith("g") else -1
    return activation(sign * jnp.subtract(x, y), **options)
''')], logic=[
    ("text", "from .defaults import ", "from ._compare import compare\nfrom .defaults import "),
    ("in", "greater", "    return activation(jnp.subtract(x, y), **kwargs) if approx else jnp.greater(x, y)", "    return compare(\"gt\", x, y, approx, activation, kwargs)"),
    ("in", "less", "    return activation(jnp.subtract(y, x), **kwargs) if approx else jnp.less(x, y)", "    return compare(\"lt\", x, y, approx, activation, kwargs)"),
    ("in", "less_equal", "    return activation(jnp.subtract(y, x), **kwargs) if approx else jnp.less_equal(x, y)", "    return compare(\"le\", x, y, approx, activation, kwargs)"),
])
r("mod-candidates-extracted", _graph=[("new", '''"""Enumeration of path candidates."""
from differt_core.rt import CompleteGraph, DiGraph


class Candidates:
    """Iterable over candidates, by increasing order."""

    __slots__ = ("n", "orders", "excluded")

    def __init__(self, n, orders, excluded=None):
        self.n, self.orders, self.excluded = n, orders, excluded

    def _graph(self):
        complete = CompleteGraph(self.n)
        if self.excluded is None:
            return complete, self.n, self.n + 1
        graph = DiGraph.from_complete_graph(complete)
        ends = graph.insert_from_and_to_nodes()
        graph.disconnect_nodes(*self.excluded)
        return (graph, *ends)

    def __iter__(self):
        graph, start, stop = self._graph()
        for order in self.orders:
            yield from graph.all_paths(start, stop, order + 2, include_from_and_to=False)
''')], scene=[
    ("text", "from .geometry import (", "from ._graph import Candidates\nfrom .geometry import ("),
    ("fn", "all_path_candidates", '''
     def all_path_candidates(num_nodes: int, min_order: int = 0, max_order: int = 1, *, order: Optional[int] = None, filter_nodes: Optional[tuple[int, ...]] = None) -> list[Int[Array, "num_path_candidates order"]]:
         """Candidates."""
         orders = (order,) if order is not None else range(min_order, max_order + 1)
         return [jnp.asarray(c, dtype=jnp.int32) for c in Candidates(num_nodes, orders, filter_nodes)]
     '''),
])
r("geo-match-ends", geometry=[
    ("before", "Path", '''
     def _coords(node):
         """Coordinates of a node."""
         match node:
             case Point(xy=xy):
                 return xy
             case _:
                 return node
     '''),
    *[("in", f"{k}.from_tx_objects_rx", "        if isinstance(tx, Point):\n            tx = tx.xy\n\n        if isinstance(rx, Point):\n            rx = rx.xy\n", "        tx, rx = map(_coords, (tx, rx))\n") for k in ("Path", "ImagePath", "FermatPath", "MinPath")],
])
r("geo-ends-decorator", geometry=[
    ("text", "from functools import partial\n", "from functools import partial, wraps\n"),
    ("before", "Path", '''
     def _with_coordinates(method):
         """Pass coordinates in place of nodes."""

         @wraps(method)
         def wrapper(cls, tx, objects, rx, **kwargs):
             ends = (end.xy if isinstance(end, Point) else end for end in (tx, rx))
             start, stop = ends
             return method(cls, start, objects, stop, **kwargs)

         return wrapper
     '''),
    ("fn", "Path.from_tx_objects_rx", '''
     @classmethod
     @eqx.filter_jit
     @jaxtyped(typechecker=None)
     @_with_coordinates
     def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kwargs) -> Self:
         """Default path."""
         middle = jnp.array([0.5])
         return cls(xys=jnp.stack([tx, *(o.parametric_to_cartesian(middle) for o in objects), rx]))
     '''),
])
r("geo-residual-method", geometry=[
    ("before", "Path.plot", '''
     @staticmethod
     def _residual(objects, points):
         """Sum of interaction residuals."""
         windows = zip(points[:-2], points[1:-1], points[2:])
         return sum((obj.evaluate_cartesian(jnp.stack(w)) for obj, w in zip(objects, windows)), start=jnp.array(0.0))
     '''),
    ("in", "ImagePath.from_tx_objects_rx", "return cls(xys=xys, loss=path_loss(xys))", "return cls(xys=xys, loss=cls._residual(objects, xys))"),
    ("in", "FermatPath.from_tx_objects_rx", "return cls(xys=xys, loss=path_loss(xys))", "return cls(xys=xys, loss=cls._residual(objects, xys))"),
])
r("geo-box-mixin", geometry=[
    ("before", "Ray", '''
     class _Boxed:
         """Things with vertices."""

         def bounding_box(self) -> Float[Array, "2 2"]:
             """Extent of the vertices."""
             low = functools.reduce(jnp.minimum, list(self.xys))
             high = functools.reduce(jnp.maximum, list(self.xys))
             return jnp.array([low, high])
     '''),
    ("text", "import sys\n", "import functools\nimport sys\n"),
    ("text", "class Ray(eqx.Module):", "class Ray(_Boxed, eqx.Module):"),
    ("text", "class Path(eqx.Module, Plottable):", "class Path(_Boxed, eqx.Module, Plottable):"),
    ("fn", "Ray.bounding_box", "@-\n"),
    ("fn", "Path.bounding_box", "@-\n"),
])
r("geo-validity-early-bound", geometry=[
    ("fn", "Path.is_valid", '''
     def is_valid(self, objects: Sequence[Interactable], path_candidate: Int[Array, " order"], interacting_objects: Sequence[Interactable], tol: ScalarFloat = 0.01, patch: ScalarFloat = DEFAULT_PATCH, approx: Optional[bool] = None, **kwargs: Any) -> Truthy:
         """Validity."""
         options = dict(kwargs, approx=approx)
         conditions = {
             "blocked": self.intersects_with_objects(objects, path_candidate, patch=patch, **options),
             "inside": self.on_objects(interacting_objects, **options),
             "converged": less(self.loss, tol, **options),
         }
         conditions["clear"] = logical_not(conditions.pop("blocked"), approx=approx)
         verdict = logical_all(*conditions.values(), approx=approx)
         return jnp.nan_to_num(verdict)
     '''),
])
r("geo-obstruction-skip-python", geometry=[
    ("fn", "Path.intersects_with_objects", '''
     def intersects_with_objects(self, objects: Sequence[Interactable], path_candidate: Array, patch: ScalarFloat = DEFAULT_PATCH, approx: Optional[bool] = None, **kwargs: Any) -> Truthy:
         """Obstruction."""
         padded = jnp.pad(path_candidate, 1, constant_values=-1)
         blocked = false_value(approx=approx)
         for k, (a, b) in enumerate(zip(padded[:-1], padded[1:])):
             segment = jax.lax.dynamic_slice_in_dim(self.xys, k, 2)
             for index, obj in enumerate(objects):
                 own = (index == a) | (index == b)
                 hit = obj.intersects_cartesian(segment, patch=patch, approx=approx, **kwargs)
                 blocked = jax.lax.select(own, blocked, logical_or(blocked, hit, approx=approx))
         return blocked
     '''),
])
r("geo-on-objects-all", geometry=[
    ("fn", "Path.on_objects", '''
     def on_objects(self, objects: Sequence[Interactable], approx: Optional[bool] = None, **kwargs) -> Truthy:
         """Containment."""
         inner = self.xys[1:-1]
         results = [true_value(approx=approx)]
         for index in range(len(objects)):
             obj, vertex = objects[index], inner[index]
             results.append(obj.contains_parametric(obj.cartesian_to_parametric(vertex), approx=approx, **kwargs))
         return logical_all(*results, approx=approx)
     '''),
])
r("geo-image-unrolled", geometry=[
    ("in", "ImagePath.from_tx_objects_rx", "        _, images = jax.lax.scan(forward, init=tx, xs=walls)  # type: ignore\n", "        images = []\n        image = tx\n        for wall in objects:\n            image, _ = forward(image, wall)\n            images.append(image)\n"),
    ("in", "ImagePath.from_tx_objects_rx", "        _, points = jax.lax.scan(backward, init=rx, xs=(walls, images), reverse=True)  # type: ignore\n", "        points = []\n        point = rx\n        while images:\n            point, _ = backward(point, (objects[len(images) - 1], images.pop()))\n            points = [point, *points]\n"),
    ("in", "ImagePath.from_tx_objects_rx", "        walls = stack_leaves(objects)\n", ""),
])
r("geo-parametric-scan", geometry=[
    ("fn", "parametric_to_cartesian", '''
     def parametric_to_cartesian(objects: Sequence[Interactable], parametric_coords: Float[Array, " num_parametric_coords"], n: int, tx_coords: Float[Array, "2"], rx_coords: Float[Array, "2"]) -> Float[Array, "{n}+2 2"]:
         """Vertices."""
         sizes = [obj.parameters_count() for obj in objects]
         starts = [sum(sizes[:k]) for k in range(len(sizes))]
         inner = (parametric_to_cartesian_from_slice(o, parametric_coords, s, m) for o, s, m in zip(objects, starts, sizes))
         return jnp.concatenate([tx_coords[None], *(v[None] for v in inner), rx_coords[None]])
     '''),
])
r("geo-normal-functional", geometry=[
    ("fn", "Wall.normal", '''
     def normal(self) -> Float[Array, "2"]:
         """Normal."""
         turn = jnp.array([[0.0, 1.0], [-1.0, 0.0]])
         direction, _ = normalize(self.t())
         return turn @ direction
     '''),
    ("fn", "Wall.image_of", '''
     def image_of(self, point: Float[Array, "2"]) -> Float[Array, "2"]:
         """Image."""
         n = self.normal()
         householder = jnp.eye(2) - 2.0 * jnp.outer(n, n)
         return self.origin() + householder @ (point - self.origin())
     '''),
])
r("geo-vertex-constants", geometry=[
    ("in", "Vertex.evaluate_cartesian", "return jnp.array(0.0, dtype=ray_path.dtype)", "return jnp.zeros((), dtype=ray_path.dtype)"),
    ("in", "Vertex.cartesian_to_parametric", "return jnp.empty_like(carte_coords, shape=0)", "return carte_coords[:0]"),
    ("in", "Vertex.contains_parametric", "return true_value(approx=approx)", "return logical_not(false_value(approx=approx), approx=approx)"),
])
r("geo-rotate-around-node", geometry=[
    ("in", "Ray.rotate", "        if around is None:\n            center = jnp.array([0.0, 0.0])\n        elif isinstance(around, Point):\n            center = around.xy\n        else:\n            center = around\n", "        center = jnp.zeros(2) if around is None else getattr(around, \"xy\", around)\n"),
    ("in", "Ray.rotate", "eqx.tree_at(lambda ray: ray.xys, self, xys)", "eqx.tree_at(operator.attrgetter(\"xys\"), self, replace=xys)"),
    ("text", "import sys\n", "import operator\nimport sys\n"),
])
r("scene-nodes-property", scene=[
    ("before", "Scene.plot", '''
     @property
     def _elements(self):
         """Everything in the scene."""
         return [*self.transmitters.values(), *self.receivers.values(), *self.objects]
     '''),
    ("fn", "Scene.bounding_box", '''
     def bounding_box(self) -> Float[Array, "2 2"]:
         """Box."""
         corners = jnp.concatenate([element.bounding_box() for element in self._elements])
         return jnp.stack([corners.min(axis=0), corners.max(axis=0)])
     '''),
])
r("scene-sum-helper", scene=[
    ("before", "all_path_candidates", '''
     def _total(terms):
         """Sum of arrays (or tuples of arrays) with zero as neutral element."""
         result = None
         for term in terms:
             result = term if result is None else jax.tree_util.tree_map(jnp.add, result, term)
         return result
     '''),
    ("in", "Scene.accumulate_over_paths", "            Z = jnp.array(0.0)\n\n            for _, _, p in results():\n                Z = Z + p\n\n            return Z\n", "            return _total([jnp.array(0.0), *(p for _, _, p in results())])\n"),
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", "            Z = jnp.array(0.0)\n\n            for _, p in results():\n                Z = Z + p\n\n            return Z\n", "            return _total([jnp.array(0.0), *(p for _, p in results())])\n"),
])
r("scene-edit-lens", scene=[
    ("before", "Scene", '''
     def _at(name):
         """Updater of one field of a scene."""

         def update(scene, value):
             return eqx.tree_at(operator.attrgetter(name), scene, value)

         return update
     '''),
    ("in", "Scene.with_transmitters", "eqx.tree_at(\n            lambda s: s.transmitters,\n            self,\n            PyTreeDict.from_mapping(transmitters),\n        )", "_at(\"transmitters\")(self, PyTreeDict.from_mapping(transmitters))"),
    ("in", "Scene.with_objects", "eqx.tree_at(lambda s: s.objects, self, tuple(objects))", "_at(\"objects\")(self, objects)"),
    ("in", "Scene.filter_objects", "tuple(filter(filter_spec, self.objects))", "tuple(obj for obj in self.objects if filter_spec(obj))"),
])
r("scene-closest-vectorised", scene=[
    ("fn", "Scene.get_closest_transmitter", '''
     def get_closest_transmitter(self, coords: Float[Array, "2"]) -> tuple[str, Float[Array, " "]]:
         """Closest."""
         names, nodes = zip(*self.transmitters.items())
         positions = jnp.stack([node.xy for node in nodes])
         which, distance = closest_point(positions, coords)
         return names[int(which)], distance
     '''),
])
r("scene-all-paths-split-once", scene=[
    ("fn", "Scene.all_paths", '''
     def all_paths(self, path_cls: type[Path] = ImagePath, path_cls_kwargs: Optional[Mapping[str, Any]] = None, min_order: int = 0, max_order: int = 1, order: Optional[int] = None, filter_objects: Optional[Callable[[Object], bool]] = None, *, key: Optional[PRNGKeyArray] = None, **kwargs: Any) -> Iterator[tuple[str, str, Truthy, Path, Int[Array, " order"]]]:
         """Paths."""
         options = dict(path_cls_kwargs or {})
         candidates = self.all_path_candidates(min_order=min_order, max_order=max_order, order=order, filter_objects=filter_objects)
         involved = [self.get_interacting_objects(candidate) for candidate in candidates]
         for ((tx_name, tx), (rx_name, rx)), (candidate, objects) in product(list(self.all_transmitter_receiver_pairs()), list(zip(candidates, involved))):
             path_key = None
             if key is not None:
                 key, path_key = jax.random.split(key)
             path = path_cls.from_tx_objects_rx(tx, objects, rx, key=path_key, **options)
             yield tx_name, rx_name, path.is_valid(self.objects, candidate, objects, **kwargs), path, candidate
     '''),
])
r("scene-grid-functional", scene=[
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", "        if value_and_grad:\n            f = jax.value_and_grad(facc, argnums=1)  # type: ignore\n        elif grad:\n            f = jax.grad(facc, argnums=1)\n        else:\n            f = facc\n", "        wrap = jax.value_and_grad if value_and_grad else jax.grad if grad else (lambda g, argnums: g)\n        f = wrap(facc, argnums=1)\n"),
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", "grid = jnp.dstack((X, Y))", "grid = jnp.stack((X, Y), axis=-1)"),
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", "            return (\n                (tx_key, vf(transmitter, grid)) for (tx_key, transmitter), _ in pairs\n            )", "            for (name, node), _ in pairs:\n                yield name, vf(node, grid)"),
])
r("scene-geojson-rings", scene=[
    ("before", "Scene.from_geojson", '''
     @staticmethod
     def _sides(ring):
         """Consecutive corners of a ring, starting from the closing side."""
         corners = jnp.array(ring, dtype=float)
         return jnp.stack((jnp.roll(corners, 1, axis=0), corners), axis=1)
     '''),
    ("in", "Scene._#0", "                    coordinates = geometry[\"coordinates\"][0]\n                    n = len(coordinates)\n                    for i in range(n):\n                        xys = jnp.array(\n                            [coordinates[i - 1], coordinates[i]],\n                            dtype=float,\n                        )\n                        wall = Wall(xys=xys)\n                        walls.append(wall)\n", "                    walls += map(Wall, cls._sides(geometry[\"coordinates\"][0]))\n"),
])
r("scene-obstacle-polygon-call", scene=[
    ("before", "Scene.basic_scene", '''
     @staticmethod
     def _closed(*corners):
         """Walls joining corners."""
         return [Wall(xys=jnp.array(side)) for side in zip(corners, corners[1:] + corners[:1])]
     '''),
    ("fn", "Scene.square_scene_with_obstacle", '''
     @classmethod
     def square_scene_with_obstacle(cls, ratio: ScalarFloat = 0.1, **kwargs: Any) -> "Scene[Wall]":
         """Obstacle."""
         low, high = 0.5 * (1 - ratio), 0.5 * (1 + ratio)
         walls = Scene._closed((low, low), (high, low), (high, high), (low, high))
         return Scene.square_scene(**kwargs).add_objects(*walls)
     '''),
])
r("scene-random-three-draws", scene=[
    ("fn", "Scene.random_uniform_scene", '''
     @classmethod
     def random_uniform_scene(cls, n_transmitters: int = 1, n_walls: int = 1, n_receivers: int = 1, *, key: PRNGKeyArray) -> "Scene[Wall]":
         """Random."""
         counts = (n_transmitters, 2 * n_walls, n_receivers)
         points = jax.random.uniform(key, (sum(counts), 2))
         first, second = n_transmitters, n_transmitters + 2 * n_walls
         tx, ends, rx = points[:first], points[first:second], points[second:]
         walls = [Wall(xys=pair) for pair in ends.reshape(n_walls, 2, 2)]
         return Scene({f"tx_{i}": Point(xy) for i, xy in enumerate(tx)}, {f"rx_{i}": Point(xy) for i, xy in enumerate(rx[::-1])}, walls)
     '''),
])
r("scene-plot-generator", scene=[
    ("in", "Scene.plot", "        if transmitters:\n            for tx_key, transmitter in self.transmitters.items():\n                artists.extend(\n                    transmitter.plot(\n                        ax,\n                        *transmitters_args,\n                        *args,\n                        annotate=tx_key if annotate else None,\n                        **transmitters_kwargs,\n                    ),\n                )\n", "        def draw(nodes, first, style):\n            for label, node in nodes.items():\n                if not annotate:\n                    label = None\n                yield from node.plot(ax, *first, *args, annotate=label, **style)\n\n        if transmitters:\n            artists += draw(self.transmitters, transmitters_args, transmitters_kwargs)\n"),
])
r("opt-while-loop", optimize=[
    ("fn", "minimize", '''
     def minimize(fun: Callable[[Float[Array, " n"], *Ts], Float[Array, " "]], x0: Float[Array, " n"], args: tuple[Unpack[Ts]] = (), steps: int = 100, optimizer: Optional[optax.GradientTransformation] = None) -> tuple[Float[Array, " n"], Float[Array, " "]]:
         """Minimise."""
         if optimizer is None:
             optimizer = optax.adam(learning_rate=0.1, eps_root=1e-16)

         objective = partial(_call, fun, args)
         gradient = jax.grad(objective)

         def step(state, _=None):
             point, inner = state
             updates, inner = optimizer.update(gradient(point), inner)
             return (optax.apply_updates(point, updates), inner), None

         state, _ = jax.lax.scan(step, (x0, optimizer.init(x0)), length=steps)
         solution = state[0]
         return solution, objective(solution)
     '''),
    ("before", "minimize", '''
     def _call(fun, args, x):
         """Evaluate an objective."""
         return fun(x, *args)
     '''),
    ("text", "import sys\n", "import sys\nfrom functools import partial\n"),
])
r("opt-many-dynamic-index", optimize=[
    ("in", "minimize_many_random_uniform", "    i_min = jnp.argmin(losses)\n\n    return xs[i_min, :], losses[i_min]", "    best = jnp.argmin(losses)\n    pick = lambda leaf: jax.lax.dynamic_index_in_dim(leaf, best, keepdims=False)\n    return jax.tree_util.tree_map(pick, (xs, losses))"),
])
r("abc-location-split", abc=[
    ("in", "Plottable.get_location", "        xavg = 0.5 * (xmin + xmax)\n        yavg = 0.5 * (ymin + ymax)\n", "        xavg, yavg = self.center()\n"),
    ("in", "Plottable.center", "return 0.5 * (bounding_box[0, :] + bounding_box[1, :])", "return jnp.mean(bounding_box, axis=0)"),
])
r("utils-power-accumulate", utils=[
    ("in", "received_power", "    n = path.xys.shape[0] - 2", "    n, _ = path.xys[1:-1].shape"),
    ("in", "received_power", "return (r_coef**n) / (height * height + r * r)", "return jnp.power(r_coef, n) / jnp.square(jnp.stack((jnp.asarray(height, dtype=float), r))).sum()"),
    ("text", "import jax\n", "import jax\nimport jax.numpy as jnp\n"),
])
r("logic-variadic-fold", logic=[
    ("in", "logical_all", "    return jnp.min(arr, axis=axis) if approx else jnp.all(arr, axis=axis)", "    if axis is not None:\n        return jnp.min(arr, axis=axis) if approx else jnp.all(arr, axis=axis)\n    flat = arr.ravel()\n    return flat.min() if approx else flat.all()"),
])
r("logic-scope-two-functions", logic=[
    ("fn", "enable_approx", '''
     @contextmanager
     def enable_approx(enable: bool = True):
         """Scope."""
         with _LOCK:
             previous = _swap(enable)
             try:
                 yield
             finally:
                 _swap(previous)
     '''),
    ("before", "enable_approx", '''
     def _swap(mode):
         """Change the mode, return the former one; the lock is held by the caller."""
         global ENABLE_APPROX
         ENABLE_APPROX, former = mode, ENABLE_APPROX
         return former
     '''),
])
r("std-pairwise-chain", scene=[
    ("text", "from itertools import groupby, product\n", "from itertools import chain, groupby, product, starmap\n"),
    ("fn", "Scene.bounding_box", '''
     def bounding_box(self) -> Float[Array, "2 2"]:
         """Box."""
         elements = chain(self.transmitters.values(), self.receivers.values(), self.objects)
         lows, highs = zip(*map(operator.methodcaller("bounding_box"), elements))
         return jnp.stack((jnp.min(jnp.stack(lows), axis=0), jnp.max(jnp.stack(highs), axis=0)))
     '''),
    ("fn", "Scene.rename_transmitters", '''
     @jaxtyped(typechecker=None)
     def rename_transmitters(self, **transmitter_names: str) -> Self:
         """Rename."""
         renamed = starmap(lambda name, node: (transmitter_names.get(name, name), node), self.transmitters.items())
         return self.with_transmitters(**dict(renamed))
     '''),
])
r("std-pairwise-windows", geometry=[
    ("text", "from functools import partial\n", "from functools import partial\nfrom itertools import pairwise\n"),
    ("fn", "Path.intersects_with_objects", '''
     def intersects_with_objects(self, objects: Sequence[Interactable], path_candidate: Array, patch: ScalarFloat = DEFAULT_PATCH, approx: Optional[bool] = None, **kwargs: Any) -> Truthy:
         """Obstruction."""
         met = (-1, *path_candidate, -1)
         verdict = false_value(approx=approx)
         for number, ends in enumerate(pairwise(met)):
             ray = self.xys[number : number + 2]
             for position, obj in enumerate(objects):
                 updated = logical_or(verdict, obj.intersects_cartesian(ray, patch=patch, approx=approx, **kwargs), approx=approx)
                 verdict = jnp.where(jnp.isin(position, jnp.array(ends)), verdict, updated)
         return verdict
     '''),
])
r("std-deque-parametric", geometry=[
    ("text", "import sys\n", "import sys\nfrom collections import deque\nfrom itertools import accumulate\n"),
    ("fn", "parametric_to_cartesian", '''
     def parametric_to_cartesian(objects: Sequence[Interactable], parametric_coords: Float[Array, " num_parametric_coords"], n: int, tx_coords: Float[Array, "2"], rx_coords: Float[Array, "2"]) -> Float[Array, "{n}+2 2"]:
         """Vertices."""
         sizes = [obj.parameters_count() for obj in objects]
         offsets = deque(accumulate(sizes, initial=0))
         vertices = [tx_coords]
         for obj, size in zip(objects, sizes):
             vertices.append(parametric_to_cartesian_from_slice(obj, parametric_coords, offsets.popleft(), size))
         vertices += [rx_coords]
         return jnp.stack(vertices)
     '''),
])
r("std-enum-location", abc=[
    ("text", "from typing import Any, Literal, Optional\n", "from enum import Enum\nfrom typing import Any, Literal, Optional\n"),
    ("before", "Plottable", '''
     class _Place(Enum):
         """Fractions of the box, horizontally and vertically."""

         N = (0.5, 1)
         E = (1, 0.5)
         S = (0.5, 0)
         W = (0, 0.5)
         C = (0.5, 0.5)
         NE = (1, 1)
         NW = (0, 1)
         SE = (1, 0)
         SW = (0, 0)
     '''),
    ("fn", "Plottable.get_location", '''
     def get_location(self, location: Loc) -> Float[Array, "2"]:
         """Location."""
         low, high = self.bounding_box()
         weights = jnp.asarray(_Place[location].value, dtype=float)
         return (1 - weights) * low + weights * high
     '''),
])
r("std-singledispatch-coords", geometry=[
    ("text", "from functools import partial\n", "from functools import partial, singledispatch\n"),
    ("before", "Ray", '''
     @singledispatch
     def _position(node):
         """Coordinates."""
         return node


     @_position.register
     def _(node: Point):
         return node.xy
     '''),
    *[("in", f"{k}.from_tx_objects_rx", "        if isinstance(tx, Point):\n            tx = tx.xy\n\n        if isinstance(rx, Point):\n            rx = rx.xy\n", "        tx = _position(tx)\n        rx = _position(rx)\n") for k in ("ImagePath", "FermatPath")],
])
r("std-callable-objective", geometry=[
    ("before", "FermatPath", '''
     class _PathLength:
         """Objective: length of the path with given parameters."""

         def __init__(self, objects, start, stop):
             self.objects, self.start, self.stop = objects, start, stop

         def vertices(self, theta):
             """Vertices of the path."""
             return parametric_to_cartesian(self.objects, theta, len(self.objects), self.start, self.stop)

         def __call__(self, theta):
             return path_length(self.vertices(theta))
     '''),
    ("in", "FermatPath.from_tx_objects_rx", "theta, _ = minimize_many_random_uniform(", "objective = _PathLength(objects, tx, rx)\n        theta, _ = minimize_many_random_uniform("),
    ("in", "FermatPath.from_tx_objects_rx", "            fun=loss_fun," if False else "loss_fun,", "objective,"),
])
r("std-nonlocal-offset", geometry=[
    ("fn", "parametric_to_cartesian", '''
     def parametric_to_cartesian(objects: Sequence[Interactable], parametric_coords: Float[Array, " num_parametric_coords"], n: int, tx_coords: Float[Array, "2"], rx_coords: Float[Array, "2"]) -> Float[Array, "{n}+2 2"]:
         """Vertices."""
         used = 0

         def take(obj):
             nonlocal used
             begin, used = used, used + obj.parameters_count()
             return obj.parametric_to_cartesian(parametric_coords[begin:used])

         return jnp.vstack((tx_coords, *map(take, objects), rx_coords))
     '''),
])
r("std-islice-groups", scene=[
    ("text", "from itertools import groupby, product\n", "from itertools import islice, product\n"),
    ("in", "Scene.accumulate_over_paths", "            paths_groups = groupby(\n                self.all_paths(**kwargs),\n                operator.itemgetter(slice(2)),\n            )\n            keys, paths_group = next(paths_groups, (None, ()))\n", "            pairs = list(self.all_transmitter_receiver_pairs())\n            everything = list(self.all_paths(**kwargs))\n            stream = iter(everything)\n            count = len(everything) // len(pairs) if pairs else 0\n"),
    ("in", "Scene.accumulate_over_paths", "            ) in self.all_transmitter_receiver_pairs():\n", "            ) in pairs:\n"),
    ("in", "Scene.accumulate_over_paths", "                if keys == (tx_key, rx_key):  # False if there are no path candidates\n                    for _, _, valid, path, path_candidate in paths_group:\n", "                if count:\n                    for _, _, valid, path, path_candidate in islice(stream, count):\n"),
    ("in", "Scene.accumulate_over_paths", "                    keys, paths_group = next(paths_groups, (None, ()))\n", ""),
    ("text", "import operator\n", ""),
])
r("std-dataclass-options", scene=[
    ("text", "import sys\n", "import sys\nfrom dataclasses import dataclass, field\n"),
    ("before", "Scene", '''
     @dataclass(frozen=True)
     class _Search:
         """Which candidates to look for."""

         min_order: int = 0
         max_order: int = 1
         order: Optional[int] = None
         extra: dict = field(default_factory=dict)

         @property
         def bounds(self):
             """Orders."""
             return {"min_order": self.min_order, "max_order": self.max_order, "order": self.order}
     '''),
    ("in", "Scene.all_path_candidates", "        return all_path_candidates(\n            num_nodes,\n            min_order=min_order,\n            max_order=max_order,\n            order=order,\n", "        search = _Search(min_order, max_order, order)\n        return all_path_candidates(\n            num_nodes,\n            **search.bounds,\n"),
])
r("std-chainmap-style", scene=[
    ("text", "import sys\n", "import sys\nfrom collections import ChainMap\n"),
    ("in", "Scene.plot", 'transmitters_kwargs = {"color": "blue", **kwargs, **transmitters_kwargs}', 'transmitters_kwargs = dict(ChainMap(dict(transmitters_kwargs), kwargs, {"color": "blue"}))'),
    ("in", "Scene.plot", 'receivers_kwargs = {"color": "green", **kwargs, **receivers_kwargs}', 'receivers_kwargs = {"color": "green"} | kwargs | dict(receivers_kwargs)'),
])
r("std-suppress-lookup", scene=[
    ("text", "import sys\n", "import contextlib\nimport sys\n"),
    ("fn", "PyTreeDict.__getitem__", '''
     def __getitem__(self, key: K) -> V:
         with contextlib.suppress(ValueError):
             return self._values[self._keys.index(key)]
         raise KeyError(key)
     '''),
])
r("std-lru-table", logic=[
    ("text", "from contextlib import contextmanager\n", "from contextlib import contextmanager\nfrom functools import lru_cache\n"),
    ("before", "set_approx", '''
     @lru_cache(maxsize=None)
     def _reducer(smooth: bool, conjunction: bool):
         """Reduction for a mode."""
         if smooth:
             return jnp.min if conjunction else jnp.max
         return jnp.all if conjunction else jnp.any
     '''),
    ("in", "logical_all", "    return jnp.min(arr, axis=axis) if approx else jnp.all(arr, axis=axis)", "    return _reducer(bool(approx), True)(arr, axis=axis)"),
    ("in", "logical_any", "    return jnp.max(arr, axis=axis) if approx else jnp.any(arr, axis=axis)", "    return _reducer(bool(approx), False)(arr, axis=axis)"),
])
r("jit-plain", geometry=[
    ("text", "@partial(jax.jit, inline=True)\n@jaxtyped(typechecker=typechecker)\ndef path_length(", "@jax.jit\n@jaxtyped(typechecker=typechecker)\ndef path_length("),
    ("text", "@partial(jax.jit, inline=True)\n@jaxtyped(typechecker=typechecker)\ndef normalize(", "@eqx.filter_jit\ndef normalize("),
    ("text", "@partial(jax.jit, inline=True)\n@jaxtyped(typechecker=typechecker)\ndef closest_point(", "def closest_point("),
])
r("jax-cond-candidates", geometry=[
    ("in", "segments_intersect", "        t = jnp.where(den_is_zero, jnp.inf, num / den)\n", "        t = jax.lax.cond(den_is_zero, lambda: jnp.full_like(num, jnp.inf), lambda: num / den)\n"),
])
r("jax-switch-object", scene=[
    ("fn", "Scene.get_object", '''
     def get_object(self, index: ScalarInt) -> Obj:
         """Object."""
         constant = [functools.partial(lambda obj: obj, obj) for obj in self.objects]
         return jax.lax.switch(index, constant)
     '''),
    ("text", "import json\n", "import functools\nimport json\n"),
])
r("jax-vmap-residuals", geometry=[
    ("in", "ImagePath.from_tx_objects_rx", "return cls(xys=xys, loss=path_loss(xys))", "triples = jnp.stack([xys[:-2], xys[1:-1], xys[2:]], axis=1)\n        residuals = jax.vmap(lambda wall, triple: wall.evaluate_cartesian(triple))(walls, triples)\n        return cls(xys=xys, loss=jnp.sum(residuals))"),
])
r("jax-fold-images", geometry=[
    ("in", "ImagePath.from_tx_objects_rx", "        _, images = jax.lax.scan(forward, init=tx, xs=walls)  # type: ignore\n", "        images = jnp.zeros((n, 2), dtype=jnp.result_type(float))\n        mirrored = tx\n        for k, wall in enumerate(objects):\n            mirrored = wall.image_of(mirrored)\n            images = images.at[k].set(mirrored)\n"),
])
r("jax-polar-residual", geometry=[
    ("in", "Wall.evaluate_cartesian", "        e = r - (i - 2 * jnp.dot(i, n) * n)\n", "        t = jnp.array([-n[1], n[0]])\n        e = jnp.array([jnp.dot(r - i, t), jnp.dot(r + i, n)])\n"),
])
r("jax-where-broadcast", geometry=[
    ("fn", "normalize", '''
     def normalize(vector: Float[Array, "2"]) -> tuple[Float[Array, "2"], Float[Array, " "]]:
         """Unit."""
         x, y = vector
         squared_length = x * x + y * y
         is_null = jnp.logical_not(squared_length > 0.0)
         length = jnp.sqrt(jax.lax.select(is_null, jnp.ones_like(squared_length), squared_length))
         return vector / length, length
     '''),
])
r("jax-tree-stack", geometry=[
    ("fn", "stack_leaves", '''
     @eqx.filter_jit
     def stack_leaves(pytrees: Iterable[P], axis: int = 0, is_leaf: Optional[Callable[..., Any]] = None) -> P:
         """Stack."""
         first, *others = pytrees

         def stack(*leaves):
             return jnp.concatenate([jnp.expand_dims(leaf, axis) for leaf in leaves], axis=axis)

         return jax.tree_util.tree_map(stack, first, *others, is_leaf=is_leaf)
     '''),
])
r("early-return-filter", scene=[
    ("fn", "Scene.all_path_candidates", '''
     @eqx.filter_jit
     def all_path_candidates(self, min_order: int = 0, max_order: int = 1, *, order: Optional[int] = None, filter_objects: Optional[Callable[[Object], bool]] = None) -> list[Int[Array, "num_path_candidates order"]]:
         """Candidates."""
         count = len(self.objects)
         search = functools.partial(all_path_candidates, count, min_order, max_order, order=order)
         if filter_objects is None:
             return search()
         rejected = [i for i, obj in enumerate(self.objects) if not filter_objects(obj)]
         return search(filter_nodes=tuple(rejected))
     '''),
    ("text", "import json\n", "import functools\nimport json\n"),
])
r("early-return-interacting", scene=[
    ("fn", "Scene.get_interacting_objects", '''
     def get_interacting_objects(self, path_candidate: Int[Array, " order"]) -> list[Interactable]:
         """Objects."""
         kinds = {type(obj) for obj in self.objects}
         if len(kinds) > 1:
             return list(map(self.objects.__getitem__, path_candidate))
         return list(map(self.get_object, path_candidate))
     '''),
])
r("valid-paths-filter", scene=[
    ("fn", "Scene.all_valid_paths", '''
     def all_valid_paths(self, approx: Optional[bool] = None, **kwargs: Any) -> Iterator[tuple[str, str, Path, Int[Array, " order"]]]:
         """Valid."""
         candidates = self.all_paths(approx=approx, **kwargs)
         retained = filter(lambda found: is_true(found[2], approx=approx), candidates)
         return ((tx, rx, path, candidate) for tx, rx, _, path, candidate in retained)
     '''),
])
r("random-scene-key-free", scene=[
    ("in", "Scene.random_uniform_scene", "points[-(i + 1), :]", "points[len(points) - 1 - i]"),
    ("in", "Scene.random_uniform_scene", "(n_transmitters + 2 * n_walls + n_receivers, 2)", "shape=(n_receivers + n_transmitters + n_walls * 2, 2), minval=0.0, maxval=1.0"),
])
r("plot-copy-options", geometry=[
    ("in", "Point.plot", "        kwargs.setdefault(\"marker\", \"o\")\n        kwargs.setdefault(\"color\", \"red\")\n", "        style = {\"marker\": \"o\", \"color\": \"red\"}\n        style.update(kwargs)\n"),
    ("in", "Point.plot", "                *args,\n                **kwargs,\n            ),\n", "                *args,\n                **style,\n            ),\n"),
    ("in", "Point.plot", "xytext: tuple[float, float] = self.xy + jnp.asarray(annotate_offset, dtype=float)" if False else "if annotate:", "if annotate is not None and len(annotate) > 0:"),
])

# ------------------------------------------------- less visited functions
r("pytree-dict-registered", scene=[
    ("text", "class PyTreeDict(eqx.Module, Mapping[K, V]):", "@jax.tree_util.register_pytree_node_class\nclass PyTreeDict(Mapping[K, V]):"),
    ("text", "    _keys: tuple[K, ...] = eqx.field(converter=tuple, static=True)\n    \"\"\"The sequence of keys.\"\"\"\n    _values: tuple[V, ...] = eqx.field(converter=tuple)\n    \"\"\"The sequence of values.\"\"\"\n", "    def __init__(self, _keys, _values):\n        object.__setattr__(self, \"_keys\", tuple(_keys))\n        object.__setattr__(self, \"_values\", tuple(_values))\n        self.__check_init__()\n\n    def __setattr__(self, name, value):\n        raise AttributeError(\"a node table cannot be modified\")\n\n    def __delattr__(self, name):\n        raise AttributeError(\"a node table cannot be modified\")\n\n    def tree_flatten(self):\n        return (self._values,), self._keys\n\n    @classmethod\n    def tree_unflatten(cls, keys, children):\n        new = object.__new__(cls)\n        object.__setattr__(new, \"_keys\", keys)\n        object.__setattr__(new, \"_values\", children[0])\n        return new\n"),
])
r("pytree-dict-metadata", scene=[
    ("text", "_keys: tuple[K, ...] = eqx.field(converter=tuple, static=True)", "_keys: tuple[K, ...] = eqx.field(converter=tuple, metadata={\"static\": True})"),
])
r("check-init-early", scene=[
    ("fn", "PyTreeDict.__check_init__", '''
     def __check_init__(self):
         n_keys, n_values = len(self._keys), len(self._values)
         if n_keys == n_values:
             return
         raise ValueError(f"Number of keys must match number of values, got {n_keys} and {n_values}.")
     '''),
    ("in", "PyTreeDict.__len__", "return len(self._keys)", "return len(self._values)"),
])
r("logic-activation-kw", logic=[
    ("in", "activation", "return function(x, alpha)", "activated = function(x, alpha)\n    return activated"),
    ("in", "logical_and", "return jnp.minimum(x, y) if approx else jnp.logical_and(x, y)", "if approx:\n        return jnp.where(jnp.less(x, y) | jnp.isnan(x), x, y)\n    return jnp.logical_and(x, y)" if False else "if not approx:\n        return jnp.logical_and(x, y)\n    return -jnp.maximum(jnp.negative(x), jnp.negative(y))"),
])
r("logic-and-stack", logic=[
    ("in", "logical_and", "return jnp.minimum(x, y) if approx else jnp.logical_and(x, y)", "x, y = jnp.broadcast_arrays(x, y)\n    both = jnp.stack((x, y))\n    return jnp.min(both, axis=0) if approx else jnp.all(both, axis=0)"),
])
r("vertex-shared-constants", geometry=[
    ("in", "Vertex.contains_parametric", "return true_value(approx=approx)", "always = logical_not(false_value(approx=approx), approx=approx)\n        return always"),
    ("in", "Vertex.intersects_cartesian", "return false_value(approx=approx)", "del ray, patch, kwargs\n        return false_value(approx)"),
    ("in", "Vertex.evaluate_cartesian", "return jnp.array(0.0, dtype=ray_path.dtype)", "return jnp.zeros((), dtype=ray_path.dtype)"),
    ("in", "Vertex.cartesian_to_parametric", "return jnp.empty_like(carte_coords, shape=0)", "return carte_coords[:0]"),
])
r("vertex-plot-merge", geometry=[
    ("fn", "Vertex.plot", '''
     def plot(self, ax: Axes, *args: Any, **kwargs: Any) -> MutableSequence[Artist]:
         """Plot."""
         kwargs = dict(edgecolors="black", facecolors=(1.0, 1.0, 0.0, 0.5), linestyle="dashed") | kwargs
         return Point.plot(self, ax, *args, **kwargs)
     '''),
])
r("ray-origin-dest-slices", geometry=[
    ("in", "Ray.origin", "return self.xys[0, :]", "origin, _ = self.xys\n        return origin"),
    ("in", "Ray.dest", "return self.xys[1, :]", "return jnp.take(self.xys, 1, axis=0)"),
    ("in", "Ray.t", "return self.dest() - self.origin()", "start, end = self.xys\n        return jnp.subtract(end, start)"),
])
r("wall-get-vertices-map", geometry=[
    ("in", "Wall.get_vertices", "return Vertex(xy=self.xys[0, :]), Vertex(xy=self.xys[1, :])", "first, last = (Vertex(xy=xy) for xy in self.xys)\n        return (first, last)"),
])
r("path-length-inline", geometry=[
    ("in", "Path.length", "return path_length(self.xys)", "points = self.xys\n        return path_length(points=points)"),
])
r("from-slice-take", geometry=[
    ("fn", "parametric_to_cartesian_from_slice", '''
     def parametric_to_cartesian_from_slice(obj: Interactable, parametric_coords: Float[Array, " num_parametric_coords"], start: ScalarInt, size: ScalarInt) -> Float[Array, "2"]:
         """Slice."""
         return obj.parametric_to_cartesian(jax.lax.dynamic_slice_in_dim(parametric_coords, start, size))
     '''),
])
r("stacked-objects-list", scene=[
    ("in", "Scene.stacked_objects", "return stack_leaves(self.objects)", "objects = list(self.objects)\n        return stack_leaves(objects, axis=0)"),
    ("in", "Scene.from_stacked_objects", "        return cls(\n            transmitters={},  # type: ignore[reportArgumentType]", "        unstacked = unstack_leaves(objects)\n        return cls(\n            transmitters=dict(),"),
])
r("from-walls-map", scene=[
    ("fn", "Scene.from_walls_array", '''
     def from_walls_array(cls, walls: Float[Array, "num_walls 2 2"]) -> "Scene[Wall]":
         """Walls."""
         def build(i):
             return Wall(xys=walls[i, ...])

         return Scene(objects=list(map(build, range(walls.shape[0]))))
     '''),
])
r("geojson-zip-corners", scene=[
    ("in", "Scene._#0", '''                    n = len(coordinates)

                    for i in range(n):
                        xys = jnp.array(
                            [coordinates[i - 1], coordinates[i]],
                            dtype=float,
                        )
                        wall = Wall(xys=xys)
                        walls.append(wall)
''', '''                    previous = coordinates[-1:] + coordinates[:-1]
                    walls.extend(
                        Wall(xys=jnp.array(segment, dtype=float))
                        for segment in zip(previous, coordinates)
                    )
'''),
])
r("geojson-guards", scene=[
    ("in", "Scene._#0", "if geometry := feature.get(\"geometry\", None):", "geometry = feature.get(\"geometry\")\n            if not geometry:\n                continue\n            else:"),
    ("in", "Scene._#0", "if len(walls) > 0:", "if walls:"),
])
r("geojson-helper-rings", scene=[
    ("fn", "Scene._#0", '''
     def _(cls, s: S, tx_loc: Loc = "NW", rx_loc: Loc = "SE") -> "Scene[Wall]":
         """Parse."""
         walls = [wall for feature in json.loads(s).get("features", []) for wall in _walls_of(feature)]
         scene = Scene(objects=walls)
         if not walls:
             tx, rx = jnp.array([0.0, 0.0]), jnp.array([1.0, 1.0])
         else:
             tx, rx = scene.get_location(tx_loc), scene.get_location(rx_loc)
         return scene.with_transmitters(tx=Point(xy=tx)).with_receivers(rx=Point(xy=rx))
     '''),
    ("before", "Scene", '''
     def _walls_of(feature):
         """Walls of one feature."""
         geometry = feature.get("geometry", None)
         if not geometry or geometry["type"] != "Polygon" or not geometry["coordinates"]:
             return
         ring = geometry["coordinates"][0]
         for i, corner in enumerate(ring):
             yield Wall(xys=jnp.array([ring[i - 1], corner], dtype=float))
     '''),
])
r("readable-delegates", scene=[
    ("in", "Scene._#1", "return cls.from_geojson(fp.read(), *args, **kwargs)", "content = fp.read()\n        return cls.from_geojson(content, *args, **kwargs)"),
])
r("scene-name-table", scene=[
    ("in", "Scene.from_scene_name", "return getattr(cls, scene_name)(*args, **kwargs)", "factory = getattr(cls, scene_name)\n        return factory(*args, **kwargs)"),
])
r("basic-scene-corners", scene=[
    ("fn", "Scene.basic_scene", '''
     def basic_scene(cls, tx_coords: Float[Array, "2"] = jnp.array([0.1, 0.1]), rx_coords: Float[Array, "2"] = jnp.array([0.302, 0.2147])) -> "Scene[Wall]":
         """Basic."""
         inner = jnp.array([[[0.4, 0.0], [0.4, 0.4]], [[0.4, 0.4], [0.3, 0.4]], [[0.1, 0.4], [0.0, 0.4]]])
         room = cls.square_scene(tx_coords=tx_coords, rx_coords=rx_coords)
         return room.add_objects(*[Wall(xys=xys) for xys in inner])
     '''),
])
r("square-corners-roll", scene=[
    ("fn", "Scene.square_scene", '''
     def square_scene(cls, tx_coords: Float[Array, "2"] = jnp.array([0.2, 0.2]), rx_coords: Float[Array, "2"] = jnp.array([0.5, 0.6])) -> "Scene[Wall]":
         """Square."""
         corners = jnp.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]])
         walls = jnp.stack([corners, jnp.roll(corners, -1, axis=0)], axis=1)
         return Scene.from_walls_array(walls).with_transmitters(tx=Point(xy=jnp.asarray(tx_coords, dtype=float))).with_receivers(rx=Point(xy=jnp.asarray(rx_coords, dtype=float)))
     '''),
])
r("obstacle-center-offsets", scene=[
    ("fn", "Scene.square_scene_with_obstacle", '''
     def square_scene_with_obstacle(cls, ratio: ScalarFloat = 0.1, **kwargs: Any) -> "Scene[Wall]":
         """Obstacle."""
         low, high = 0.5 - 0.5 * ratio, 0.5 + 0.5 * ratio
         corners = [[low, low], [high, low], [high, high], [low, high]]
         walls = [Wall(xys=jnp.array([corners[k], corners[(k + 1) % 4]])) for k in range(4)]
         return Scene.square_scene(**kwargs).add_objects(*walls)
     '''),
    ("in", "Scene.random_uniform_scene", "points[\n                    2 * i + n_transmitters : 2 * i + 2 + n_transmitters,\n                    :,\n                ]" if False else "2 * i + 2 + n_transmitters", "n_transmitters + 2 * (i + 1)"),
])
r("sample-named-key", abc=[
    ("fn", "Interactable.sample", '''
     def sample(self, key: PRNGKeyArray) -> Float[Array, "2"]:
         """Sample."""
         n = self.parameters_count()
         t = jax.random.uniform(key, (n,))
         return self.parametric_to_cartesian(t)
     '''),
])
r("stack-leaves-treedef", geometry=[
    ("fn", "stack_leaves", '''
     def stack_leaves(pytrees: PyTree, axis: int = 0, is_leaf: Optional[Callable] = None) -> PyTree:
         """Stack."""
         pytrees = list(pytrees)
         leaves, structure = jax.tree_util.tree_flatten(pytrees[0], is_leaf=is_leaf)
         columns = [[leaf] for leaf in leaves]
         for other in pytrees[1:]:
             for column, leaf in zip(columns, structure.flatten_up_to(other)):
                 column.append(leaf)
         return jax.tree_util.tree_unflatten(structure, [jnp.stack(column, axis=axis) for column in columns])
     '''),
])
r("update-through-dict", scene=[
    ("in", "Scene.update_transmitters", "PyTreeDict.from_mapping({**self.transmitters, **transmitters})", "PyTreeDict.from_mapping(dict(self.transmitters, **transmitters))"),
    ("in", "Scene.update_receivers", "PyTreeDict.from_mapping({**self.receivers, **receivers})", "PyTreeDict.from_mapping(dict(self.receivers.items()) | receivers)"),
])
r("minimize-random-named", optimize=[
    ("in", "minimize_random_uniform", "shape=(n,)", "shape=tuple([n])"),
])
r("typed-decorator", logic=[
    ("text", "@partial(jax.jit, inline=True)\n@jaxtyped(typechecker=typechecker)\ndef sigmoid(", "_typed = jaxtyped(typechecker=typechecker)\n\n\ndef _compiled(f):\n    return jax.jit(_typed(f), inline=True)\n\n\n@_compiled\ndef sigmoid("),
    ("text", "@partial(jax.jit, inline=True)\n@jaxtyped(typechecker=typechecker)\ndef hard_sigmoid(", "@_compiled\ndef hard_sigmoid("),
])
r("vec2-alias", geometry=[
    ("text", "@eqx.filter_jit\n@jaxtyped(typechecker=typechecker)\ndef segments_intersect(", "Vec2 = Float[Array, \"2\"]\nPoints = Float[Array, \"N 2\"]\n\n\n@eqx.filter_jit\n@jaxtyped(typechecker=typechecker)\ndef segments_intersect("),
    ("in", "segments_intersect", "    P1: Float[Array, \"2\"],\n    P2: Float[Array, \"2\"],", "    P1: Vec2,\n    P2: \"Vec2\","),
    ("in", "path_length", "points: Float[Array, \"N 2\"]", "points: Points"),
    ("in", "closest_point", "    points: Float[Array, \"N 2\"],\n    target: Float[Array, \"2\"],", "    points: Points,\n    target: Vec2,"),
])
r("beartype-below", geometry=[
    ("text", "@partial(jax.jit, inline=True)\n@jaxtyped(typechecker=typechecker)\ndef path_length(", "@partial(jax.jit, inline=True)\n@jaxtyped(typechecker=None)\n@typechecker\ndef path_length("),
    ("text", "@partial(jax.jit, inline=True)\n@jaxtyped(typechecker=typechecker)\ndef normalize(", "@partial(jax.jit, inline=True)\n@jaxtyped(typechecker=None)\n@typechecker\ndef normalize("),
])
r("explicit-shape-check", geometry=[
    ("text", "    @eqx.filter_jit\n    @jaxtyped(typechecker=typechecker)\n    def image_of(", "    @eqx.filter_jit\n    def image_of("),
    ("in", "Wall.image_of", "        i = point - self.origin()", "        point = jnp.asarray(point)\n        if point.shape != (2,) or not jnp.issubdtype(point.dtype, jnp.floating):\n            raise TypeError(f\"expected a 2D point, got an array of shape {point.shape}\")\n        i = point - self.origin()"),
])
# ------------------------------------------------------- other JAX idioms
r("trials-lax-map", optimize=[
    ("in", "minimize_many_random_uniform", "    xs, losses = jax.vmap(lambda key: minimize_random_uniform(fun, key, n, **kwargs))(\n        keys\n    )\n", "    def trial(key):\n        return minimize_random_uniform(fun, key, n, **kwargs)\n\n    trials = jax.lax.map(trial, keys)\n"),
    ("in", "minimize_many_random_uniform", "    i_min = jnp.argmin(losses)\n\n    return xs[i_min, :], losses[i_min]", "    best = jnp.argmin(trials[1])\n    return jax.tree_util.tree_map(lambda leaf: leaf[best], trials)"),
])
r("trials-sequential", optimize=[
    ("in", "minimize_many_random_uniform", "    xs, losses = jax.vmap(lambda key: minimize_random_uniform(fun, key, n, **kwargs))(\n        keys\n    )\n\n    i_min = jnp.argmin(losses)\n\n    return xs[i_min, :], losses[i_min]", "    best_x, best_loss = minimize_random_uniform(fun, keys[0], n, **kwargs)\n    for key in keys[1:]:\n        x, loss = minimize_random_uniform(fun, key, n, **kwargs)\n        better = loss < best_loss\n        best_x = jnp.where(better, x, best_x)\n        best_loss = jnp.where(better, loss, best_loss)\n\n    return best_x, best_loss"),
])
r("minimize-value-and-grad", optimize=[
    ("in", "minimize", "    df = jax.grad(fun)\n", "    value_and_gradient = jax.value_and_grad(lambda x: fun(x, *args))\n"),
    ("in", "minimize", "        grads = df(x, *args)\n", "        _, grads = value_and_gradient(x)\n"),
    ("in", "minimize", "        x = x + updates\n", "        x = optax.apply_updates(x, updates)\n"),
])
r("grid-flat-vmap", scene=[
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", "        vf = jax.vmap(\n            jax.vmap(f, in_axes=(None, 0)),\n            in_axes=(None, 0),\n        )\n\n        grid = jnp.dstack((X, Y))\n", "        grid = jnp.stack((X, Y), axis=-1)\n\n        def vf(transmitter: Point, grid: Array) -> Any:\n            return jax.vmap(lambda row: jax.vmap(lambda xy: f(transmitter, xy))(row))(grid)\n"),
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", "        grid = jnp.dstack((X, Y))\n", "        grid = jnp.concatenate((X[..., None], Y[..., None]), axis=-1)\n"),
])
r("grid-reshape-vmap", scene=[
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", "        vf = jax.vmap(\n            jax.vmap(f, in_axes=(0, None)),\n            in_axes=(0, None),\n        )\n\n        grid = jnp.dstack((X, Y))\n", "        grid = jnp.dstack((X, Y))\n\n        def vf(grid: Array, receiver: Point) -> Any:\n            flat = jax.vmap(f, in_axes=(0, None))(grid.reshape(-1, 2), receiver)\n            return jax.tree_util.tree_map(lambda leaf: leaf.reshape(*X.shape, *leaf.shape[1:]), flat)\n"),
])
r("grid-shared-accumulate", scene=[
    ("before", "Scene", '''
     def _sum_over_candidates(scene, candidates, keys, path_cls, path_cls_kwargs, is_valid_kwargs, ends, nodes, value):
         """Validity-weighted sum of a function over the paths between two ends."""
         total = jnp.array(0.0)
         for candidate, key in zip(candidates, keys):
             objects = scene.get_interacting_objects(candidate)
             path = path_cls.from_tx_objects_rx(ends[0], objects, ends[1], key=key, **path_cls_kwargs)
             valid = path.is_valid(scene.objects, candidate, objects, **is_valid_kwargs)
             total += valid * value(*nodes, path, objects)
         return total
     '''),
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", '''            acc = jnp.array(0.0)
            for path_candidate, key in zip(path_candidates, keys):
                interacting_objects = scene.get_interacting_objects(path_candidate)
                path = path_cls.from_tx_objects_rx(
                    tx_coords,
                    interacting_objects,
                    receiver,
                    key=key,
                    **path_cls_kwargs,
                )
                valid = path.is_valid(
                    scene.objects,
                    path_candidate,
                    interacting_objects,
                    **kwargs,
                )
                acc = acc + valid * fun(
                    transmitter_cls(xy=tx_coords),
                    receiver,
                    path,
                    interacting_objects,
                    *fun_args,
                    **fun_kwargs,
                )

            return acc
''', '''            return _sum_over_candidates(
                scene,
                path_candidates,
                keys,
                path_cls,
                path_cls_kwargs,
                kwargs,
                ends=(tx_coords, receiver),
                nodes=(transmitter_cls(xy=tx_coords), receiver),
                value=lambda *items: fun(*items, *fun_args, **fun_kwargs),
            )
'''),
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", '''            acc = jnp.array(0.0)
            for path_candidate, key in zip(path_candidates, keys):
                interacting_objects = scene.get_interacting_objects(path_candidate)
                path = path_cls.from_tx_objects_rx(
                    transmitter,
                    interacting_objects,
                    rx_coords,
                    key=key,
                    **path_cls_kwargs,
                )
                valid = path.is_valid(
                    scene.objects,
                    path_candidate,
                    interacting_objects,
                    **kwargs,
                )
                acc = acc + valid * fun(
                    transmitter,
                    receiver_cls(xy=rx_coords),
                    path,
                    interacting_objects,
                    *fun_args,
                    **fun_kwargs,
                )

            return acc
''', '''            return _sum_over_candidates(
                scene,
                path_candidates,
                keys,
                path_cls,
                path_cls_kwargs,
                kwargs,
                ends=(transmitter, rx_coords),
                nodes=(transmitter, receiver_cls(xy=rx_coords)),
                value=lambda *items: fun(*items, *fun_args, **fun_kwargs),
            )
'''),
])
r("grid-reverse-vjp", scene=[
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", "            f = jax.value_and_grad(facc, argnums=1)  # type: ignore\n", "            def f(transmitter: Point, rx_coords: Array) -> Any:\n                return jax.value_and_grad(lambda xy: facc(transmitter, xy))(rx_coords)\n"),
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", "            f = jax.grad(facc, argnums=1)\n", "            f = jax.jacrev(facc, argnums=1)\n"),
    ("in", "Scene.accumulate_on_transmitters_grid_over_paths", "            f = jax.grad(facc, argnums=0)\n", "            f = jax.jacfwd(facc)\n"),
])
r("reduce-unzip", scene=[
    ("in", "Scene.accumulate_on_receivers_grid_over_paths", '''            if value_and_grad:
                Z = jnp.array(0.0)
                dZ = jnp.array(0.0)
                for _, (p, dp) in results():
                    Z = Z + p
                    dZ = dZ + dp

                return Z, dZ
            Z = jnp.array(0.0)
            for _, p in results():
                Z = Z + p

            return Z
''', '''            zero = jnp.array(0.0)
            values = [value for _, value in results()]
            if not value_and_grad:
                return sum(values, start=zero)
            return sum((z for z, _ in values), start=zero), sum((dz for _, dz in values), start=zero)
'''),
])
r("intersect-stacked-test", geometry=[
    ("in", "segments_intersect", "    return logical_and(test(a, d), test(b, d), approx=approx)", "    return logical_all(*(test(numerator, d) for numerator in (a, b)), approx=approx)"),
])
r("parametric-split-stack", geometry=[
    ("in", "parametric_to_cartesian", '''    cartesian_coords = jnp.empty((n + 2, 2))
    cartesian_coords = cartesian_coords.at[0].set(tx_coords)
    cartesian_coords = cartesian_coords.at[-1].set(rx_coords)
    j = jnp.int32(0)
    for i, obj in enumerate(objects):
        size = obj.parameters_count()
        cartesian_coords = cartesian_coords.at[i + 1].set(
            parametric_to_cartesian_from_slice(obj, parametric_coords, j, size),
        )
        j += size

    return cartesian_coords''', '''    remaining = parametric_coords
    rows = [tx_coords]
    for obj in objects:
        own, remaining = jnp.split(remaining, [obj.parameters_count()])
        rows.append(obj.parametric_to_cartesian(own))
    rows.append(rx_coords)

    return jnp.stack(rows)'''),
])
r("minpath-shared-solver", geometry=[
    ("before", "FermatPath", '''
     def _solve(objective, objects, ends, key, options):
         """Minimises an objective over the unknowns of a sequence of objects."""
         n = len(objects)
         unknowns = sum([obj.parameters_count() for obj in objects])
         options = {"many": 1, **options}

         def coordinates(theta):
             return parametric_to_cartesian(objects, theta, n, *ends)

         theta, loss = minimize_many_random_uniform(lambda theta: objective(coordinates(theta)), key, unknowns, **options)
         return coordinates(theta), loss


     def _interaction_loss(objects, xys):
         """Sum of the residuals of each interaction."""
         return sum((obj.evaluate_cartesian(xys[i : i + 3]) for i, obj in enumerate(objects)), jnp.array(0.0))
     '''),
    ("fn", "FermatPath.from_tx_objects_rx", '''
     def from_tx_objects_rx(cls, tx: Union[Float[Array, "2"], Point], objects: Sequence[Interactable], rx: Union[Float[Array, "2"], Point], *, key: PRNGKeyArray, **kwargs: Any) -> Self:
         """Fermat."""
         ends = tuple(node.xy if isinstance(node, Point) else node for node in (tx, rx))
         if not objects:
             return cls(xys=jnp.vstack(ends), loss=jnp.array(0.0))
         xys, _ = _solve(path_length, objects, ends, key, kwargs)
         return cls(xys=xys, loss=_interaction_loss(objects, xys))
     '''),
    ("fn", "MinPath.from_tx_objects_rx", '''
     def from_tx_objects_rx(cls, tx: Union[Float[Array, "2"], Point], objects: Sequence[Interactable], rx: Union[Float[Array, "2"], Point], *, key: PRNGKeyArray, **kwargs: Any) -> Self:
         """Min path."""
         ends = tuple(node.xy if isinstance(node, Point) else node for node in (tx, rx))
         if not objects:
             return cls(xys=jnp.vstack(ends), loss=jnp.array(0.0))
         xys, loss = _solve(partial(_interaction_loss, objects), objects, ends, key, kwargs)
         return cls(xys=xys, loss=loss)
     '''),
])
r("power-numpy-functions", utils=[
    ("in", "received_power", "    n = path.xys.shape[0] - 2  # Number of interactions\n    return (r_coef**n) / (height * height + r * r)", "    n_interactions = len(path.xys) - 2\n    attenuation = 1.0\n    for _ in range(n_interactions):\n        attenuation = attenuation * r_coef\n    return attenuation / (height**2 + r**2)"),
])
r("closest-top-k", geometry=[
    ("in", "closest_point", "    vectors = points - target.reshape(-1, 2)\n    squared_distances = jnp.sum(vectors * vectors, axis=1)\n", "    vectors = jax.vmap(lambda point: point - target)(points)\n    squared_distances = jax.vmap(jnp.dot)(vectors, vectors)\n"),
])
