"""Abstract models of the third-party API the package is written against.

Every function maps abstract arrays to abstract arrays following the documented
semantics; anything absent raises Unsupported, never a guess.
"""
from __future__ import annotations

import copy
import itertools
import math
from fractions import Fraction

from . import arr as A
from . import nodes as N
from .arr import Arr, asarray, ew
from .errors import ProgError, Unsupported


class Namespace:
    def __init__(self, name, **kw):
        self.__dict__["_name"] = name
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__") or k == "_abs_skip":
            raise AttributeError(k)
        return Missing(f"{self._name}.{k}")

    def __repr__(self):
        return f"<model {self._name}>"


class Ambient:
    """A setting of the surroundings (platform, configuration, environment): either
    outcome of a test on it is possible, the same one each time."""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __bool__(self):
        from .interp import Interp

        if Interp.current is None:
            raise Unsupported(f"truth of {self._name}")
        return Interp.current.decide(Arr((), [N.var(f"surroundings:{self._name}", "b")], "b"))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Ambient(f"{self._name}.{k}")

    def __call__(self, *a, **k):
        return Ambient(f"{self._name}({', '.join(map(repr, a))})")

    def __eq__(self, o):
        return True if isinstance(o, Ambient) and o._name == self._name else Ambient(f"{self._name} == {o!r}")

    def __ne__(self, o):
        return not (self == o)

    def __lt__(self, o):
        return Ambient(f"{self._name} < {o!r}")

    def __ge__(self, o):
        return not (self < o)

    def __gt__(self, o):
        return Ambient(f"{self._name} > {o!r}")

    def __le__(self, o):
        return not (self > o)

    def __contains__(self, o):
        return bool(Ambient(f"{o!r} in {self._name}"))

    def __hash__(self):
        return hash(self._name)

    def __repr__(self):
        return f"<{self._name}>"


class AmbientNS(Namespace):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Ambient(f"{self._name}.{k}")


class TracerM:
    """jax.core.Tracer: any caller may trace, so an array may always be one."""


class Missing:
    """A library name with no model: fine to import or annotate with, not to use."""

    def __init__(self, name):
        self.name = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing(f"{self.name}.{k}")

    def __getitem__(self, k):
        return self

    def __call__(self, *a, **k):
        raise Unsupported(f"call of unmodelled {self.name}")

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __repr__(self):
        return f"<unmodelled {self.name}>"

    def __mro_entries__(self, bases):
        return ()


# ------------------------------------------------------------------ events
class Events:
    """Side table of security-relevant facts met while interpreting."""

    keys: list = []  # (function, key node, loc, uid)
    impure: list = []
    concretize: list = []
    ax: list = []
    casts: list = []

    @classmethod
    def reset(cls):
        cls.keys, cls.impure, cls.concretize, cls.ax, cls.casts = [], [], [], [], []


# ----------------------------------------------------------------- pytrees
def is_inst(x):
    from .interp import Inst

    return isinstance(x, Inst)


LEAF = object()


def children(x):
    """(kind, static, [children]) or None for a leaf."""
    from .interp import Inst, Opaque

    if x is None:
        return ("none", None, [])
    if isinstance(x, tuple):
        if hasattr(x, "_fields"):
            return ("namedtuple", type(x), list(x))
        return ("tuple", None, list(x))
    if isinstance(x, list):
        return ("list", None, list(x))
    if isinstance(x, dict):
        ks = sorted(x)
        return ("dict", (type(x), tuple(ks)), [x[k] for k in ks])
    if isinstance(x, Inst) and x.cls.__dict__.get("pytree_node"):
        ch, aux = x.cls.pytree_node[0](x)
        return ("node", (x.cls, aux), list(ch))
    if isinstance(x, Inst) and x.cls.is_module:
        fs = [f for f in x.cls.all_fields() if not f.static]
        st = tuple((f.name, x.fields.get(f.name)) for f in x.cls.all_fields() if f.static)
        names = tuple(f.name for f in fs if f.name in x.fields)
        return ("module", (x.cls, names, st), [x.fields[n] for n in names])
    if isinstance(x, Opaque) and x.tree is not None:
        return ("opaque", x, list(x.tree))
    return None


def rebuild(kind, st, ch):
    from .interp import Inst

    if kind == "none":
        return None
    if kind == "tuple":
        return tuple(ch)
    if kind == "namedtuple":
        return st(*ch)
    if kind == "list":
        return list(ch)
    if kind == "dict":
        return st[0](zip(st[1], ch)) if st[0] is dict else dict(zip(st[1], ch))
    if kind == "module":
        cls, names, stat = st
        f = dict(stat)
        f.update(zip(names, ch))
        return Inst(cls, {fl.name: f[fl.name] for fl in cls.all_fields() if fl.name in f})
    if kind == "opaque":
        return st.with_tree(ch)
    if kind == "node":
        return st[0].pytree_node[1](st[1], tuple(ch))
    raise AssertionError(kind)


def same_struct(a, b):
    return a[0] == b[0] and (a[1] is b[1] or st_eq(a[0], a[1], b[1])) and len(a[2]) == len(b[2])


def st_eq(kind, a, b):
    if kind == "module":
        return a[0] is b[0] and a[1] == b[1] and all(_static_eq(p, q) for p, q in zip(a[2], b[2]))
    if kind == "opaque":
        return True
    return a == b


def _static_eq(p, q):
    try:
        return bool(p == q)
    except Exception:
        return p is q


def tree_map(f, tree, *rest, is_leaf=None):
    if is_leaf is not None and bool(is_leaf(tree)):
        return f(tree, *rest)
    c = children(tree)
    if c is None:
        return f(tree, *rest)
    cs = [children(r) for r in rest]
    for r in cs:
        if r is None or not same_struct(c, r):
            raise ProgError(ValueError("pytree structures differ"))
    return rebuild(c[0], c[1], [tree_map(f, x, *[r[2][i] for r in cs], is_leaf=is_leaf) for i, x in enumerate(c[2])])


def tree_leaves(tree, is_leaf=None):
    out = []
    tree_map(lambda x: out.append(x), tree, is_leaf=is_leaf)
    return out


class TreeDef:
    def __init__(self, tree, is_leaf=None):
        self.tree, self.is_leaf = tree, is_leaf
        self.num_leaves = len(tree_leaves(tree, is_leaf))

    def unflatten(self, leaves):
        ls = list(leaves)
        if len(ls) != self.num_leaves:
            raise ProgError(ValueError("Too many/few leaves for PyTreeDef"))
        it = iter(ls)
        return tree_map(lambda _: next(it), self.tree, is_leaf=self.is_leaf)

    def flatten_up_to(self, tree):
        out = []
        tree_map(lambda _, x: out.append(x), self.tree, tree, is_leaf=self.is_leaf)
        return out

    @property
    def num_nodes(self):
        raise Unsupported("PyTreeDef.num_nodes")

    def __eq__(self, o):
        try:
            tree_map(lambda *a: 0, self.tree, o.tree)
            return True
        except ProgError:
            return False

    def __hash__(self):
        return 0


def tree_flatten(tree, is_leaf=None):
    return tree_leaves(tree, is_leaf), TreeDef(tree, is_leaf)


def arrleaf(x):
    return isinstance(x, (Arr, int, float, bool)) and not isinstance(x, str)


# --------------------------------------------------------------------- jnp
def u(f, kind="f"):
    def g(x, **kw):
        x = asarray(x)
        return ew(f, x.cast("f") if kind == "f" else x, kind=kind if kind else x.kind)

    return g


def f1(name):
    return u(lambda e: N.fun1(name, e))


def keep(f):
    def g(x, **kw):
        x = asarray(x)
        x = x.cast("i") if x.kind == "b" else x
        return ew(f, x, kind=x.kind)

    return g


def b1(name):
    def g(x, **kw):
        x = asarray(x).cast("f")

        def h(e):
            if e.op == "const":
                return N.bconst(name == "isfinite")
            if e.op in ("inf", "ninf"):
                return N.bconst(name == "isinf")
            if e.op == "nan":
                return N.bconst(name == "isnan")
            return N.Node(name, (e,), None, "b")

        return ew(h, x, kind="b")

    return g


def lat2(op):
    def g(x, y):
        x, y = asarray(x), asarray(y)
        k = A.promote(x.kind, y.kind)
        if k == "b":
            return A.a_and(x, y) if op == "min" else A.a_or(x, y)
        return ew(lambda a, b: N.lat(op, [a, b]), x.cast(k), y.cast(k), kind=k)

    return g


def red(op):
    def g(a, axis=None, **kw):
        return A.reduce_(a, op, axis, **kw)

    return g


minimum, maximum = lat2("min"), lat2("max")


def _hypot(a, b):
    r = N.sqrt(N.add(N.mul(a, a), N.mul(b, b)))
    if r.op == "sqrt":
        r.attr = "hypot"  # its derivative is defined at the origin
    return r


def norm(x, ord=None, axis=None, keepdims=False, **kw):
    x = asarray(x).cast("f")
    if x.ndim == 1 or isinstance(axis, int):
        if ord == 1:
            return A.reduce_(abs(x), "sum", axis, keepdims=keepdims)
        if isinstance(ord, (float, Arr)) and ord == math.inf:
            return A.reduce_(abs(x), "max", axis, keepdims=keepdims)
    if ord not in (None, 2, "fro"):
        raise Unsupported(f"norm ord={ord}")
    if ord == 2 and axis is None and x.ndim == 2:
        raise Unsupported("spectral norm")
    s = A.reduce_(A.a_mul(x, x), "sum", axis, keepdims=keepdims)
    return ew(N.sqrt, s, kind="f")


def cross(a, b, axis=-1, **kw):
    a, b = asarray(a), asarray(b)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    if a.shape[-1] == 3 and b.shape[-1] == 3:
        return stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2], a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)
    raise Unsupported("cross")


stack = A.stack


def clip(x, min=None, max=None, **kw):
    lo = kw.get("a_min", min)
    hi = kw.get("a_max", max)
    r = asarray(x)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def shp(s):
    if isinstance(s, (int, Arr)):
        return (A.as_static_int(s),)
    return tuple(A.as_static_int(x) for x in s)


def full(shape, v, dtype=None, **kw):
    v = asarray(v)
    if dtype is not None:
        v = v.astype(dtype)
    return A.bcast(v, shp(shape))


def zeros(shape, dtype=None, **kw):
    return full(shape, 0.0, dtype)


def ones(shape, dtype=None, **kw):
    return full(shape, 1.0, dtype)


_undef = itertools.count()


def empty(shape, dtype=None, **kw):
    # the content of an uninitialised array must not be relied upon
    sh = shp(shape)
    kind = A.asarray(0.0).astype(dtype).kind if dtype is not None else "f"
    return Arr(sh, [N.var(f"UNINIT{next(_undef)}") for _ in range(A.size(sh))], kind if kind in "fil" else "f")


def like(f):
    def g(x, dtype=None, shape=None, **kw):
        x = asarray(x)
        r = f(x.shape if shape is None else shape)
        return r.cast(x.kind) if x.kind in "ib" and f is not empty else r

    return g


def full_like(x, v, dtype=None, shape=None, **kw):
    return full(asarray(x).shape if shape is None else shape, v)


def arange(start, stop=None, step=1, dtype=None, **kw):
    if stop is None:
        start, stop = 0, start
    vals = [start, stop, step]
    vals = [v if isinstance(v, (int, float)) else (N.cval(asarray(v).data[0]) if asarray(v).size == 1 else None) for v in vals]
    if any(v is None for v in vals):
        raise Unsupported("arange of unknown values")
    if any(isinstance(v, float) or (isinstance(v, Fraction) and v.denominator != 1) for v in vals) or (stop is not None and isinstance(start, Arr) and start.kind == "f"):
        a, b, st = [Fraction(v).limit_denominator(10**9) if isinstance(v, float) else Fraction(v) for v in vals]
        return Arr((max(0, math.ceil((b - a) / st)),), [N.const(a + k * st) for k in range(max(0, math.ceil((b - a) / st)))], "f")
    vals = [int(v) for v in vals]
    r = asarray(list(range(*[A.as_static_int(v) for v in vals])))
    r = Arr(r.shape, r.data, "i")
    return r.astype(dtype) if dtype is not None else r


def linspace(a, b, num=50, endpoint=True, axis=0, dtype=None, retstep=False, **kw):
    num = A.as_static_int(num)
    a, b = asarray(a).cast("f"), asarray(b).cast("f")
    den = (num - 1) if endpoint else num
    outs = []
    for i in range(num):
        if den == 0:
            outs.append(a)
        else:
            t = Fraction(i, den)
            outs.append(a * (1 - t) + b * t)
    if not outs:
        return Arr((0,), [], "f")
    r = stack(outs, axis=axis)
    return (r, (b - a) * (1.0 / den) if den else a * float("nan")) if retstep else r


def meshgrid(*xs, indexing="xy", sparse=False, copy=True, **kw):
    xs = [asarray(x) for x in xs]
    if sparse:
        raise Unsupported("sparse meshgrid")
    if len(xs) != 2:
        raise Unsupported("meshgrid of != 2 arrays")
    x, y = xs
    m, n = x.shape[0], y.shape[0]
    if indexing == "xy":
        return [A.bcast(x[None, :], (n, m)), A.bcast(y[:, None], (n, m))]
    return [A.bcast(x[:, None], (m, n)), A.bcast(y[None, :], (m, n))]


def atleast(n):
    def g(*xs):
        rs = []
        for x in xs:
            x = asarray(x)
            if n == 1:
                r = x if x.ndim else x.reshape(1)
            elif n == 2:
                r = x.reshape(1, 1) if x.ndim == 0 else x[None, :] if x.ndim == 1 else x
            else:
                r = x.reshape(1, 1, 1) if x.ndim == 0 else x[None, :, None] if x.ndim == 1 else x[:, :, None] if x.ndim == 2 else x
            rs.append(r)
        return rs[0] if len(rs) == 1 else rs

    return g


def vstack(xs, **kw):
    return A.concatenate([atleast(2)(x) for x in xs], 0)


def hstack(xs, **kw):
    xs = [atleast(1)(x) for x in xs]
    return A.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def dstack(xs, **kw):
    return A.concatenate([atleast(3)(x) for x in xs], 2)


def column_stack(xs, **kw):
    return A.concatenate([x[:, None] if asarray(x).ndim == 1 else x for x in map(asarray, xs)], 1)


def diff(a, n=1, axis=-1, prepend=None, append=None, **kw):
    a = asarray(a)
    ax = A.normax(axis, a.ndim)
    parts = []
    if prepend is not None:
        p = asarray(prepend)
        parts.append(p if p.ndim else full(tuple(1 if i == ax else s for i, s in enumerate(a.shape)), p))
    parts.append(a)
    if append is not None:
        p = asarray(append)
        parts.append(p if p.ndim else full(tuple(1 if i == ax else s for i, s in enumerate(a.shape)), p))
    if len(parts) > 1:
        a = A.concatenate(parts, ax)
    for _ in range(n):
        pre = (slice(None),) * ax
        a = a[pre + (slice(1, None),)] - a[pre + (slice(None, -1),)]
    return a


def roll(a, shift, axis=None):
    a = asarray(a)
    s = A.as_static_int(shift) if not isinstance(shift, (tuple, list)) else None
    if s is None:
        raise Unsupported("tuple roll")
    if axis is None:
        d = a.data
        n = len(d)
        return Arr(a.shape, [d[(i - s) % n] for i in range(n)] if n else d, a.kind)
    ax = A.normax(axis, a.ndim)
    n = a.shape[ax]
    idx = asarray([(i - s) % n for i in range(n)])
    return a[(slice(None),) * ax + (Arr(idx.shape, idx.data, "i"),)]


def flip(a, axis=None):
    a = asarray(a)
    axs = range(a.ndim) if axis is None else A._axes(a, axis)
    return a[tuple(slice(None, None, -1) if i in axs else slice(None) for i in range(a.ndim))]


def take(a, idx, axis=None, mode=None, **kw):
    a = asarray(a)
    idx = asarray(idx)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    ax = A.normax(axis, a.ndim)
    if ax:
        p = list(range(a.ndim))
        p.insert(0, p.pop(ax))
        r = take(A.transpose(a, p), idx, 0)
        if idx.ndim == 0:
            return r
        q = list(range(1, a.ndim))
        q.insert(ax, 0)
        return A.transpose(r, q)
    return a[idx]


def repeat(a, n, axis=None, total_repeat_length=None):
    a = asarray(a)
    n = A.as_static_int(n)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    ax = A.normax(axis, a.ndim)
    idx = [i for i in range(a.shape[ax]) for _ in range(n)]
    if not idx:
        return Arr(tuple(0 if i == ax else s for i, s in enumerate(a.shape)), [], a.kind)
    return a[(slice(None),) * ax + (asarray(idx),)]


def tile(a, reps):
    a = asarray(a)
    reps = shp(reps)
    while len(reps) < a.ndim:
        reps = (1,) + reps
    while a.ndim < len(reps):
        a = a[None]
    for ax, r in enumerate(reps):
        a = A.concatenate([a] * r, ax) if r else a[(slice(None),) * ax + (slice(0, 0),)]
    return a


def cumsum(a, axis=None, **kw):
    return _scan_op(a, axis, A.a_add)


def _scan_op(a, axis, f):
    a = asarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    ax = A.normax(axis, a.ndim)
    pre = (slice(None),) * ax
    outs = []
    for i in range(a.shape[ax]):
        x = a[pre + (i,)]
        outs.append(x if not outs else f(outs[-1], x))
    return stack(outs, axis=ax) if outs else a


def expand_dims(a, axis):
    a = asarray(a)
    axs = sorted(x % (a.ndim + (len(axis) if isinstance(axis, (tuple, list)) else 1)) for x in (axis if isinstance(axis, (tuple, list)) else [axis]))
    sh = list(a.shape)
    for x in axs:
        sh.insert(x, 1)
    return Arr(sh, a.data, a.kind)


def moveaxis(a, s, d):
    a = asarray(a)
    s, d = A.normax(s, a.ndim), A.normax(d, a.ndim)
    p = list(range(a.ndim))
    p.insert(d, p.pop(s))
    return A.transpose(a, p)


def array_equal(a, b, **kw):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return asarray(False)
    return A.reduce_(A.a_eq(a, b), "all")


def select(conds, choices, default=0):
    r = asarray(default)
    for c, x in reversed(list(zip(conds, choices))):
        r = A.where(c, x, r)
    return r


def _block(bs):
    def go(x, depth):
        return A.concatenate([go(y, depth - 1) for y in x], axis=-depth) if isinstance(x, list) else atleast(x)

    def atleast(x):
        x = asarray(x)
        return x.reshape((1,) * (dep - x.ndim) + x.shape) if x.ndim < dep else x

    dep, t = 0, bs
    while isinstance(t, list):
        dep, t = dep + 1, t[0]
    return go(bs, dep)


def split_arr(a, n, axis=0):
    a = asarray(a)
    ax = A.normax(axis, a.ndim)
    d = a.shape[ax]
    pre = (slice(None),) * ax
    if isinstance(n, (int,)):
        if d % n:
            raise ProgError(ValueError("array split does not result in an equal division"))
        c = d // n
        return [a[pre + (slice(i * c, (i + 1) * c),)] for i in range(n)]
    pts = [0, *[x + d if x < 0 else min(x, d) for x in shp(n)], d]
    return [a[pre + (slice(x, y),)] for x, y in zip(pts, pts[1:])]


def array_split(a, n, axis=0):
    if isinstance(n, int):
        d = asarray(a).shape[A.normax(axis, asarray(a).ndim)]
        q, r = divmod(d, n)
        return split_arr(a, [sum(q + (j < r) for j in range(k)) for k in range(1, n)], axis)
    return split_arr(a, n, axis)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarray(x)
    if x.kind in "bi":
        return x
    if not (nan == 0.0 and not isinstance(nan, Arr)):
        return A.where(b1("isnan")(x), asarray(nan).cast("f"), x)
    return ew(lambda e: N.fun1("nan2num", e), x, kind="f")


class finfo:
    def __init__(self, dt=None):
        pass

    @property
    def eps(self):
        return Arr((), [N.var("EPS", lo=Fraction(1, 1 << 60), hi=Fraction(1, 1 << 10))], "f")

    @property
    def tiny(self):
        return self.eps

    smallest_normal = tiny

    @property
    def max(self):
        return Arr((), [N.var("FMAX", lo=10 ** 30, hi=10 ** 40)], "f")


def outer(a, b, **kw):
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    return a[:, None] * b[None, :]


def append(a, v, axis=None):
    a, v = asarray(a), asarray(v)
    if axis is None:
        return A.concatenate([a.reshape(-1), v.reshape(-1)])
    return A.concatenate([a, v], axis)


def insert(a, i, v, axis=None):
    raise Unsupported("jnp.insert")


def eye(n, m=None, **kw):
    m = n if m is None else m
    return asarray([[1.0 if i == j else 0.0 for j in range(m)] for i in range(n)])


def vecdot(a, b, axis=-1, **kw):
    return A.reduce_(asarray(a) * asarray(b), "sum", axis)


def jnp_array(x, dtype=None, copy=True, ndmin=0, **kw):
    r = asarray(x, dtype=dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def det(a):
    a = asarray(a)
    if a.shape == (2, 2):
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    raise Unsupported("det")


def _isclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    a, b = asarray(a), asarray(b)
    if kw.get("equal_nan"):
        return A.a_or(_isclose(a, b, rtol, atol), A.a_and(_isnan(a), _isnan(b)))
    return A.a_le(abs(a - b), asarray(atol) + asarray(rtol) * abs(b))


def _angle(*a, **k):
    raise Unsupported("angle")


jnp = Namespace(
    "jax.numpy",
    array=jnp_array, asarray=jnp_array, ndarray=Arr, float32=A.F32, float64=A.F32, int32=A.I32, int64=A.I32, bool_=A.BOOL,
    float16=A.LOWF, bfloat16=A.LOWF, int8=A.NARROW["int8"], int16=A.NARROW["int16"], uint8=A.NARROW["uint8"], uint16=A.NARROW["uint16"], uint32=A.I32, floating=A.F32, integer=A.I32,
    inf=float("inf"), nan=float("nan"), pi=Arr((), [N.const(3.141592653589793)], "f"), e=2.718281828459045, newaxis=None,
    where=A.where, add=A.a_add, subtract=A.a_sub, multiply=A.a_mul, divide=A.a_div, true_divide=A.a_div,
    floor_divide=A.a_floordiv, mod=A.a_mod, remainder=A.a_mod, power=A.a_pow, float_power=A.a_pow, pow=A.a_pow,
    negative=lambda x: -asarray(x), positive=lambda x: asarray(x), abs=lambda x: abs(asarray(x)), absolute=lambda x: abs(asarray(x)), fabs=lambda x: abs(asarray(x)),
    minimum=minimum, maximum=maximum, fmin=minimum, fmax=maximum, clip=clip,
    less=A.a_lt, less_equal=A.a_le, greater=A.a_gt, greater_equal=A.a_ge, equal=A.a_eq, not_equal=A.a_ne,
    logical_and=lambda x, y: A.a_and(asarray(x).cast("b"), asarray(y).cast("b")),
    logical_or=lambda x, y: A.a_or(asarray(x).cast("b"), asarray(y).cast("b")),
    logical_xor=lambda x, y: A.a_xor(asarray(x).cast("b"), asarray(y).cast("b")),
    logical_not=A.a_not, bitwise_and=A.a_and, bitwise_or=A.a_or, bitwise_not=lambda x: ~asarray(x), invert=lambda x: ~asarray(x),
    sum=red("sum"), prod=red("prod"), product=red("prod"), min=red("min"), max=red("max"), amin=red("min"), amax=red("max"),
    mean=red("mean"), all=red("all"), any=red("any"), nansum=red("sum"), nanmin=red("min"), nanmax=red("max"), average=red("mean"),
    argmin=lambda a, axis=None, **k: A.argm("argmin", a, axis), argmax=lambda a, axis=None, **k: A.argm("argmax", a, axis),
    nanargmin=lambda a, axis=None, **k: A.argm("argmin", A.where(b1("isnan")(a), float("inf"), a), axis),
    sqrt=u(N.sqrt), square=keep(lambda e: N.mul(e, e)), reciprocal=u(N.inv), hypot=lambda x, y: ew(_hypot, asarray(x).cast("f"), asarray(y).cast("f"), kind="f"),
    cbrt=f1("cbrt"), exp=f1("exp"), log=f1("log"), log2=f1("log2"), log10=f1("log10"), expm1=f1("expm1"), log1p=f1("log1p"),
    exp2=lambda x: A.a_pow(2.0, x),
    sin=f1("sin"), cos=f1("cos"), tan=f1("tan"), tanh=f1("tanh"), sinh=f1("sinh"), cosh=f1("cosh"), arctan=f1("arctan"), arcsin=f1("arcsin"), arccos=f1("arccos"),
    arctan2=lambda y, x: ew(lambda a, b: N.Node("atan2", (a, b)), asarray(y).cast("f"), asarray(x).cast("f"), kind="f"),
    deg2rad=lambda x: asarray(x) * (3.141592653589793 / 180), radians=lambda x: asarray(x) * (3.141592653589793 / 180),
    floor=f1("floor"), ceil=f1("ceil"), round=lambda x, decimals=0, **k: ew(lambda e: N.fun1("round", e), asarray(x), kind="f"), rint=f1("round"), trunc=f1("trunc"), fix=f1("trunc"), around=lambda x, decimals=0, **k: ew(lambda e: N.fun1("round", e), asarray(x), kind="f"),
    sign=keep(lambda e: N.fun1("sign", e)), 
    isnan=b1("isnan"), isinf=b1("isinf"), isfinite=b1("isfinite"), isclose=_isclose,
    allclose=lambda a, b, **k: A.reduce_(_isclose(a, b, **k), "all"),
    dot=A.dot, vdot=lambda a, b, **k: A.dot(asarray(a).reshape(-1), asarray(b).reshape(-1)), inner=lambda a, b, **k: A.tensordot_last(asarray(a), asarray(b), asarray(a).ndim - 1, asarray(b).ndim - 1), matmul=A.matmul,
    vecdot=vecdot, einsum=A.einsum, outer=outer, cross=cross,
    stack=stack, concatenate=A.concatenate, concat=A.concatenate, vstack=vstack, row_stack=vstack, hstack=hstack, dstack=dstack, column_stack=column_stack, append=append,
    reshape=lambda a, s=None, shape=None, **k: asarray(a).reshape(s if shape is None else shape), ravel=lambda a, **k: asarray(a).reshape(-1), transpose=lambda a, axes=None: A.transpose(a, axes), swapaxes=lambda a, x, y: asarray(a).swapaxes(x, y), moveaxis=moveaxis,
    squeeze=lambda a, axis=None: asarray(a).squeeze(axis), expand_dims=expand_dims, broadcast_to=lambda a, s: A.bcast(asarray(a), shp(s)),
    broadcast_arrays=lambda *xs: [A.bcast(asarray(x), A.bshape(*[asarray(y).shape for y in xs])) for x in xs],
    atleast_1d=atleast(1), atleast_2d=atleast(2), atleast_3d=atleast(3),
    zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=like(zeros), ones_like=like(ones), empty_like=like(empty), full_like=full_like,
    arange=arange, linspace=linspace, meshgrid=meshgrid, eye=eye, identity=eye, diff=diff, roll=roll, flip=flip, flipud=lambda a: flip(a, 0), fliplr=lambda a: flip(a, 1),
    take=take, repeat=repeat, tile=tile, cumsum=cumsum, cumprod=lambda a, axis=None, **k: _scan_op(a, axis, A.a_mul), split=split_arr, array_split=array_split, hsplit=lambda a, n: split_arr(a, n, 1 if asarray(a).ndim > 1 else 0), vsplit=lambda a, n: split_arr(a, n, 0), tri=lambda n, m=None, k=0, **kw: asarray([[1.0 if j <= i + k else 0.0 for j in range(n if m is None else m)] for i in range(n)]), block=_block, logaddexp=lambda a, b: _logaddexp(a, b),
    unstack=lambda a, axis=0: tuple(moveaxis(a, axis, 0)), array_equal=array_equal, select=select, nan_to_num=nan_to_num, finfo=finfo,
    size=lambda a, axis=None: asarray(a).size if axis is None else asarray(a).shape[axis], shape=lambda a: asarray(a).shape, ndim=lambda a: asarray(a).ndim,
    copy=lambda a, **k: asarray(a), isscalar=lambda a: A.is_scalar(a), result_type=lambda *a: A.F32, issubdtype=lambda a, b: A.dtype_of(a).kind == A.dtype_of(b).kind,
    linalg=Namespace("jax.numpy.linalg", norm=norm, vector_norm=lambda x, axis=None, keepdims=False, ord=2: norm(x, None, axis, keepdims), det=det, vecdot=vecdot, matmul=A.matmul, cross=cross),
    real=lambda x: asarray(x), conj=lambda x: asarray(x), conjugate=lambda x: asarray(x),
    frombuffer=Missing("frombuffer"), dtype=A.dtype_of, astype=lambda x, d: asarray(x).astype(d),
)


# ----------------------------------------------------------------- jax.nn
def _sigmoid(x):
    def f(e):
        if e.op == "inf":
            return N.const(1)
        if e.op == "ninf":
            return N.const(0)
        if e.op == "const" and e.attr == 0:
            return N.const(Fraction(1, 2))
        return N.Node("sigmoid", (e,))

    return ew(f, asarray(x).cast("f"), kind="f")


def relu(x):
    return maximum(asarray(x), 0)


def relu6(x):
    return minimum(maximum(asarray(x), 0), 6.0)


def hard_sigmoid(x):
    return ew(lambda e: N.clip01(N.add(N.mul(N.const(Fraction(1, 6)), e), N.const(Fraction(1, 2)))), asarray(x).cast("f"), kind="f")


nn = Namespace("jax.nn", sigmoid=_sigmoid, hard_sigmoid=hard_sigmoid, relu=relu, relu6=relu6, tanh=f1("tanh"), softplus=f1("softplus"),
               hard_tanh=lambda x: clip(x, -1.0, 1.0))


# --------------------------------------------------------------------- lax
def _slice0(t, i):
    return tree_map(lambda x: x[i] if isinstance(x, Arr) else x, t)


def _len0(t):
    ls = [x for x in tree_leaves(t)]
    n = None
    for x in ls:
        if not isinstance(x, Arr):
            raise ProgError(ValueError("scan/vmap over a non-array leaf"))
        if x.ndim == 0:
            raise ProgError(ValueError("scan/vmap over a 0-d array"))
        if n is None:
            n = x.shape[0]
        elif n != x.shape[0]:
            raise ProgError(ValueError("inconsistent leading axis sizes"))
    return n


def _arrify(t):
    return tree_map(lambda x: asarray(x) if arrleaf(x) else x, t)


def _stack_tree(ts):
    return tree_map(lambda *xs: stack(xs), *ts)


def scan(f, init, xs=None, length=None, reverse=False, unroll=1, **kw):
    n = _len0(xs) if xs is not None else None
    if n is None:
        if length is None:
            raise ProgError(ValueError("scan got no values to scan over and `length` not provided"))
        n = A.as_static_int(length)
    elif length is not None and A.as_static_int(length) != n:
        raise ProgError(ValueError("scan length disagrees with leading axis sizes"))
    if n > 2200:
        raise Unsupported("scan too long")
    carry = _arrify(init)
    ys = [None] * n
    for i in (reversed(range(n)) if reverse else range(n)):
        x = _slice0(xs, i) if xs is not None else None
        r = f(carry, x)
        if not (isinstance(r, tuple) and len(r) == 2):
            raise ProgError(TypeError("scan body must return a pair"))
        carry, y = r
        carry = _arrify(carry)
        ys[i] = _arrify(y)
    if n == 0:
        # shapes of the stacked outputs come from one abstract evaluation
        try:
            x = tree_map(lambda a: Arr(a.shape[1:], [N.const(0)] * A.size(a.shape[1:]), a.kind), xs) if xs is not None else None
            _, y = f(carry, x)
            return carry, tree_map(lambda a: Arr((0,) + asarray(a).shape, [], asarray(a).kind), _arrify(y))
        except Exception as e:
            raise Unsupported(f"empty scan ({e})")
    return carry, _stack_tree(ys)


def fori_loop(lo, hi, body, init, **kw):
    v = _arrify(init)
    for i in range(A.known_int(lo), A.known_int(hi)):
        v = _arrify(body(Arr((), [N.const(i)], "i"), v))
    return v


def while_loop(cond, body, init):
    v = _arrify(init)
    for _ in range(600):
        c = asarray(cond(v))
        k = N.cval(c.data[0])
        if k is None:
            raise Unsupported("while_loop with a dynamic condition")
        if not k:
            return v
        v = _arrify(body(v))
    raise Unsupported("while_loop too long")


def lcond(pred, tf, ff, *ops, **kw):
    if not callable(tf):
        raise Unsupported("old-style cond")
    p = asarray(pred).cast("b")
    c = N.cval(p.data[0])
    if c is not None:
        return _agree([lambda: _arrify(tf(*ops)), lambda: _arrify(ff(*ops))], 0 if c else 1)
    a, b = _agree([lambda: _arrify(tf(*ops)), lambda: _arrify(ff(*ops))])
    return tree_map(lambda x, y: A.where(p, x, y), a, b)


def _agree(thunks, pick=None):
    """Every branch is traced: they must agree in structure and shapes."""
    outs = []
    for i, t in enumerate(thunks):
        try:
            outs.append(t())
        except Unsupported:
            if pick is None or i == pick:
                raise
            outs.append(None)
    for o in outs:
        if o is None or outs[0] is None or o is outs[0]:
            continue
        try:
            tree_map(lambda x, y: None, outs[0], o)
        except ProgError as e:
            raise ProgError(TypeError(f"branches must have the same type structure: {e.exc}"))
        for x, y in zip(tree_leaves(outs[0]), tree_leaves(o)):
            if isinstance(x, Arr) and isinstance(y, Arr) and x.shape != y.shape:
                raise ProgError(TypeError(f"branches must have equal types, got shapes {x.shape} and {y.shape}"))
    return outs if pick is None else outs[pick]


def switch(index, branches, *ops, **kw):
    branches = list(branches)
    if not branches:
        raise ProgError(ValueError("Empty branch sequence"))
    i = asarray(index)
    try:
        k = A.known_int(i)
    except Unsupported:
        k = None
    n = len(branches)
    if k is not None:
        return _agree([lambda b=b: _arrify_obj(b(*ops)) for b in branches], min(max(k, 0), n - 1))
    outs = _agree([lambda b=b: _arrify_obj(b(*ops)) for b in branches])
    e = i.data[0]
    lo, hi = N.interval(e)
    if not (lo is not None and lo >= 0 and hi is not None and hi <= n - 1):
        e = N.Node("clampidx", (e, N.const(n)))
    return tree_map(lambda *xs: A.gather(e, list(xs)), *outs)


def _arrify_obj(t):
    return tree_map(lambda x: asarray(x) if arrleaf(x) else x, t)


def dynamic_slice(a, starts, sizes):
    a = asarray(a)
    starts = list(starts) if not isinstance(starts, Arr) else list(starts)
    sizes = shp(sizes)
    idx = []
    for s, n, d in zip(starts, sizes, a.shape):
        if n > d:
            raise ProgError(TypeError(f"slice_sizes {n} must be less than or equal to operand shape {d}"))
        s = A.known_int(s)
        if s < 0:
            s += d
        s = min(max(s, 0), d - n)
        idx.append(slice(s, s + n))
    return a[tuple(idx)]


def dynamic_slice_in_dim(a, start, sz, axis=0):
    a = asarray(a)
    st = [0] * a.ndim
    ss = list(a.shape)
    st[axis], ss[axis] = start, A.as_static_int(sz)
    return dynamic_slice(a, st, ss)


def dynamic_index_in_dim(a, i, axis=0, keepdims=True):
    a = asarray(a)
    i = asarray(i)
    try:
        k = A.known_int(i)
        k = k + a.shape[axis] if k < 0 else k
        k = min(max(k, 0), a.shape[axis] - 1)
        r = a[(slice(None),) * axis + (k,)]
    except Unsupported:
        r = a[(slice(None),) * axis + (i,)]
    return expand_dims(r, axis) if keepdims else r


def dynamic_update_slice(a, upd, starts):
    a, upd = asarray(a), asarray(upd)
    idx = []
    for s, n, d in zip(list(starts) if not isinstance(starts, Arr) else list(starts), upd.shape, a.shape):
        s = A.known_int(s)
        s = s + d if s < 0 else s
        s = min(max(s, 0), d - n)
        idx.append(slice(s, s + n))
    return a.at[tuple(idx)].set(upd)


def dynamic_update_slice_in_dim(a, upd, start, axis):
    a = asarray(a)
    st = [0] * a.ndim
    st[axis] = start
    return dynamic_update_slice(a, upd, st)


def lmap(f, xs, **kw):
    n = _len0(xs)
    return _stack_tree([_arrify(f(_slice0(xs, i))) for i in range(n)])


def assoc_scan(f, xs, reverse=False, axis=0):
    n = _len0(xs)
    outs = [None] * n
    acc = None
    for i in (reversed(range(n)) if reverse else range(n)):
        x = _slice0(xs, i)
        acc = x if acc is None else f(acc, x)
        outs[i] = acc
    return _stack_tree(outs)


def stop_gradient(t):
    return tree_map(lambda x: ew(lambda e: N.fun1("sg", e) if e.sort == "r" else e, x, kind=x.kind) if isinstance(x, Arr) else x, t)


lax = Namespace(
    "jax.lax", scan=scan, fori_loop=fori_loop, while_loop=while_loop, cond=lcond, switch=switch, select=A.where, map=lmap,
    associative_scan=assoc_scan, stop_gradient=stop_gradient, dynamic_slice=dynamic_slice, dynamic_slice_in_dim=dynamic_slice_in_dim,
    dynamic_index_in_dim=dynamic_index_in_dim, dynamic_update_slice=dynamic_update_slice, dynamic_update_slice_in_dim=dynamic_update_slice_in_dim,
    index_in_dim=dynamic_index_in_dim, slice_in_dim=lambda a, s, e, stride=1, axis=0: asarray(a)[(slice(None),) * axis + (slice(s, e, stride),)],
    add=A.a_add, sub=A.a_sub, mul=A.a_mul, div=A.a_div, min=minimum, max=maximum, neg=lambda x: -asarray(x), sqrt=u(N.sqrt),
    rsqrt=u(lambda e: N.inv(N.sqrt(e))), clamp=lambda lo, x, hi: clip(x, lo, hi), integer_pow=A.a_pow, square=lambda x: asarray(x) * asarray(x),
    concatenate=lambda xs, dimension: A.concatenate(xs, dimension), expand_dims=expand_dims, reciprocal=u(N.inv), lt=A.a_lt, le=A.a_le, gt=A.a_gt, ge=A.a_ge, eq=A.a_eq,
    select_n=lambda w, *c: A.where(w, c[1], c[0]) if len(c) == 2 else (_ for _ in ()).throw(Unsupported("select_n")),
    abs=lambda x: abs(asarray(x)), logistic=_sigmoid, dot=A.dot, exp=f1("exp"), sin=f1("sin"), cos=f1("cos"), stack=stack,
)


# ------------------------------------------------------------ transforms
def vmap(f, in_axes=0, out_axes=0, axis_name=None, **kw):
    def g(*args, **kwargs):
        axes = in_axes
        if isinstance(axes, list):
            axes = tuple(axes)
        if not isinstance(axes, tuple):
            axes = (axes,) * len(args)
        if len(axes) != len(args):
            raise ProgError(ValueError("vmap in_axes must match the number of positional arguments"))
        n = None
        specs = []

        def note(x, ax):
            nonlocal n
            if ax is None:
                return
            if not isinstance(x, Arr):
                x = asarray(x)
            if x.ndim == 0:
                raise ProgError(ValueError("vmap over a 0-d array"))
            d = x.shape[A.normax(ax, x.ndim)]
            if n is None:
                n = d
            elif n != d:
                raise ProgError(ValueError("vmap got inconsistent sizes for array axes to be mapped"))

        def walk_axes(t, ax, cb):
            """Map cb(leaf, axis) over a tree with a prefix axis tree."""
            if ax is None or isinstance(ax, int):
                return tree_map(lambda x: cb(x, ax), t)
            ct = children(t)
            ca = children(ax)
            if ct is None or ca is None or len(ct[2]) != len(ca[2]):
                raise Unsupported("vmap in_axes pytree")
            return rebuild(ct[0], ct[1], [walk_axes(x, y, cb) for x, y in zip(ct[2], ca[2])])

        for a, ax in zip(args, axes):
            walk_axes(a, ax, lambda x, q: note(x, q))
        for a in kwargs.values():
            walk_axes(a, 0, lambda x, q: note(x, q))
        if n is None:
            raise ProgError(ValueError("vmap must have at least one non-None value in in_axes"))

        def pick(x, ax, i):
            if ax is None:
                return x
            x = asarray(x)
            ax = A.normax(ax, x.ndim)
            return x[(slice(None),) * ax + (i,)]

        outs = []
        for i in range(n):
            ai = [walk_axes(a, ax, lambda x, q: pick(x, q, i)) for a, ax in zip(args, axes)]
            ki = {k: walk_axes(a, 0, lambda x, q: pick(x, q, i)) for k, a in kwargs.items()}
            outs.append(_arrify(f(*ai, **ki)))
        if n == 0:
            raise Unsupported("vmap over an empty axis")
        if isinstance(out_axes, int):
            return tree_map(lambda *xs: stack(xs, axis=out_axes), *outs)
        if isinstance(out_axes, tuple):
            return tuple(
                tree_map(lambda *xs: stack(xs, axis=ax), *[o[k] for o in outs]) if ax is not None else outs[0][k]
                for k, ax in enumerate(out_axes)
            )
        raise Unsupported("vmap out_axes")

    return g


# differentiation on the value graph
class _Deriv:
    def __init__(self, aliases):
        self.al = aliases
        self.ids = {a.uid: i for i, a in enumerate(aliases)}
        self.dep = {}

    def depends(self, n):
        r = self.dep.get(n.uid)
        if r is None:
            r = any(x.uid in self.ids for x in N.walk([n])) or self._inner_dep(n)
            self.dep[n.uid] = r
        return r

    def _inner_dep(self, n):
        return False

    def d(self, n, i, memo):
        r = memo.get(n.uid)
        if r is not None:
            return r
        r = self._d(n, i, memo)
        memo[n.uid] = r
        return r

    def _d(self, n, i, memo):
        if n.uid in self.ids:
            return N.const(1 if self.ids[n.uid] == i else 0)
        if n.sort == "b" or n.is_const or not self.depends(n):
            return N.const(0)
        o, a = n.op, n.args
        if o == "alias":
            return self.d(a[0], i, memo)
        if o == "sg":
            return N.const(0)
        if o == "custom":
            k = len(a) // 2
            r = N.const(0)
            for x, p in zip(a[1 : 1 + k], a[1 + k :]):
                r = N.add(r, N.mul(p, self.d(x, i, memo)))
            return r
        D = lambda x: self.d(x, i, memo)
        if o == "add":
            return N.add(D(a[0]), D(a[1]))
        if o == "mul":
            return N.add(N.mul(D(a[0]), a[1]), N.mul(a[0], D(a[1])))
        if o == "inv":
            return N.neg(N.mul(D(a[0]), N.mul(n, n)))
        if o == "sqrt":
            return N.div(N.mul(N.const(Fraction(1, 2)), D(a[0])), n)
        if o == "ite":
            return N.ite(a[0], D(a[1]), D(a[2]))
        if o == "sin":
            return N.mul(N.fun1("cos", a[0]), D(a[0]))
        if o == "cos":
            return N.neg(N.mul(N.fun1("sin", a[0]), D(a[0])))
        if o == "exp":
            return N.mul(n, D(a[0]))
        if o in ("floor", "ceil", "round", "icast", "trunc"):
            return N.const(0)
        return N.Node("D", (), (n, tuple(self.al), i))


def value_and_grad(fun, argnums=0, has_aux=False, **kw):
    def g(*args, **kwargs):
        nums = argnums if isinstance(argnums, tuple) else (argnums,)
        args = list(args)
        aliases, structs = [], []
        for k in nums:
            if not -len(args) <= k < len(args):
                raise ProgError(ValueError("argnums out of range"))

            def al(x):
                x = asarray(x)
                if x.kind != "f":
                    raise ProgError(TypeError("grad requires real-valued inputs"))
                es = [N.Node("alias", (e,)) for e in x.data]
                aliases.extend(es)
                return Arr(x.shape, es, x.kind)

            args[k] = tree_map(al, args[k])
            structs.append(args[k])
        out = fun(*args, **kwargs)
        aux = None
        if has_aux:
            out, aux = out
        out = asarray(out)
        if out.size != 1 or out.ndim != 0:
            raise ProgError(TypeError("Gradient only defined for scalar-output functions"))
        if out.kind != "f":
            raise ProgError(TypeError("grad requires real-valued outputs"))
        dv = _Deriv(aliases)
        memos = [dict() for _ in aliases]
        it = iter(range(len(aliases)))

        def one(x):
            return Arr(x.shape, [(lambda i: dv.d(out.data[0], i, memos[i]))(next(it)) for _ in x.data], "f")

        grads = tuple(tree_map(one, s) for s in structs)
        grads = grads if isinstance(argnums, tuple) else grads[0]
        return ((out, aux), grads) if has_aux else (out, grads)

    return g


class CustomRule:
    """jax.custom_jvp and jax.custom_vjp: the primal gives the values, the rule
    gives the partial derivatives. A result is a node `custom` over the primal
    value, the operands and the partial derivative with respect to each."""

    def __init__(self, kind, fun, nondiff=()):
        self.kind, self.fun, self.nondiff, self.rule = kind, fun, tuple(nondiff or ()), None
        self.__name__ = getattr(fun, "__name__", "custom")
        self.busy = False

    def __get__(self, o, cls=None):
        return self

    def defjvp(self, f, symbolic_zeros=False):
        self.rule = f
        return f

    def defjvps(self, *fs):
        def rule(*a):
            (primals, tangents), ans = a[-2:], self.fun(*a[-2])
            out = None
            for f, t in zip(fs, tangents):
                if f is not None:
                    d = f(t, ans, *primals)
                    out = d if out is None else tree_map(lambda x, y: asarray(x) + asarray(y), out, d)
            return ans, tree_map(lambda x: zeros_like(x), ans) if out is None else out

        self.rule = rule

    def defvjp(self, fwd, bwd, symbolic_zeros=False, optimize_remat=False):
        self.rule = (fwd, bwd)

    def __call__(self, *args, **kwargs):
        if self.busy:
            return self.fun(*args, **kwargs)  # the rule uses the function itself
        self.busy = True
        try:
            return self.apply(args, kwargs)
        finally:
            self.busy = False

    def apply(self, args, kwargs):
        if self.rule is None:
            raise ProgError(AttributeError(f"No differentiation rule defined for {self.__name__}"))
        if kwargs:
            raise Unsupported("keyword arguments of a function with a custom derivative")
        pos = [i for i in range(len(args)) if i not in self.nondiff]
        nd = [args[i] for i in self.nondiff]
        al = [tree_map(lambda x: self.inputs(x), args[i]) for i in pos]
        ins = [e for a in al for x in tree_leaves(a) if isinstance(x, Arr) and x.kind == "f" for e in x.data]
        full = list(args)
        for i, a in zip(pos, al):
            full[i] = a
        if self.kind == "jvp":
            tangent = lambda hot: [tree_map(lambda x: self.unit(x, hot), a) for a in al]
            out = self.fun(*full)
            parts = [[e for x in tree_leaves(self.rule(*nd, tuple(al), tuple(tangent(h)))[1]) for e in asarray(x).cast("f").data] for h in ins]
            cols = list(zip(*parts)) if parts else None
        else:
            fwd, bwd = self.rule
            out, res = fwd(*full)
            outs = [e for x in tree_leaves(out) for e in asarray(x).data]
            cols = []
            for h in range(len(outs)):
                it = iter(range(len(outs)))
                ct = tree_map(lambda x: Arr(asarray(x).shape, [N.const(1 if next(it) == h else 0) for _ in asarray(x).data], "f"), out)
                back = bwd(*nd, res, ct)
                if not isinstance(back, tuple) or len(back) != len(al):
                    raise ProgError(TypeError("Custom VJP bwd rule must produce one cotangent per argument"))
                col = []
                for a, b in zip(al, back):
                    ls = [x for x in tree_leaves(a) if isinstance(x, Arr) and x.kind == "f"]
                    if b is None:
                        col += [N.const(0) for x in ls for _ in x.data]
                        continue
                    bs = [asarray(x).cast("f") for x in tree_leaves(b)]
                    if [x.shape for x in bs] != [x.shape for x in ls]:
                        raise Unsupported("cotangents of another structure")
                    col += [e for x in bs for e in x.data]
                cols.append(col)
        it = iter(range(10**9))

        def one(x):
            x = asarray(x)
            if x.kind != "f":
                [next(it) for _ in x.data]
                return x
            return Arr(x.shape, [N.Node("custom", (e, *ins, *(cols[k] if cols else ()))) for e in x.data for k in (next(it),)], "f")

        return tree_map(one, out)

    def inputs(self, x):
        if isinstance(x, (float, Fraction)):
            x = asarray(x)
        if not (isinstance(x, Arr) and x.kind == "f"):
            return x
        return Arr(x.shape, [N.Node("alias", (e,)) for e in x.data], "f")

    def unit(self, x, hot):
        if not isinstance(x, Arr):
            return asarray(0.0)
        return Arr(x.shape, [N.const(1 if e is hot else 0) for e in x.data], "f")


def _custom(kind):
    def deco(fun=None, nondiff_argnums=()):
        if fun is None:
            return lambda f: CustomRule(kind, f, nondiff_argnums)
        return CustomRule(kind, fun, nondiff_argnums)

    return deco


def grad(fun, argnums=0, has_aux=False, **kw):
    vg = value_and_grad(fun, argnums, has_aux)

    def g(*a, **k):
        v, d = vg(*a, **k)
        return (d, v[1]) if has_aux else d

    return g


# ------------------------------------------------------------------ random
def _keynode(k):
    if isinstance(k, Arr) and k.kind == "k" and k.size == 1:
        return k.data[0]
    if isinstance(k, (int, float, tuple, list, str, dict)) or isinstance(k, Arr) and (k.kind in "fb" or k.kind == "i" and k.shape[-1:] != (2,)):
        raise ProgError(TypeError("unexpected PRNG key type"))
    raise Unsupported(f"random key {k!r}")


def _use(fn, k):
    e = _keynode(k)
    Events.keys.append((fn, e, N.Loc.cur(), [f.where() for f in N.Loc.stack]))
    return e


def knode(*parts):
    return N.Node("app", (), ("key", parts), "k")


def r_key(seed, **kw):
    s = asarray(seed)
    return Arr((), [knode("seed", s.data[0])], "k")


def r_split(key, num=2):
    e = _use("split", key)
    sh = shp(num)
    n = A.size(sh)
    return Arr(sh, [knode("split", e, n, i) for i in range(n)], "k")


def r_fold_in(key, data):
    # distinct data on one key give independent keys: a use only per data value
    e = _keynode(key)
    d = asarray(data).data[0]
    return Arr((), [knode("fold", e, d)], "k")


def r_draw(dist):
    def g(key, shape=(), dtype=None, *extra, **kw):
        e = _use(dist, key)
        sh = shp(shape) if shape is not None else ()
        return Arr(sh, [N.app("draw", (dist, e, sh, i), rng=(0, 1) if dist == "uniform" else None) for i in range(A.size(sh))], "f")

    return g


def r_uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0, **kw):
    x = r_draw("uniform")(key, shape)
    x = asarray(minval) + x * (asarray(maxval) - asarray(minval))
    return x.astype(dtype) if dtype is not None else x


random = Namespace("jax.random", PRNGKey=r_key, key=r_key, split=r_split, fold_in=r_fold_in, uniform=r_uniform, normal=r_draw("normal"),
                   bernoulli=Missing("jax.random.bernoulli"), randint=r_draw("randint"), permutation=r_draw("permutation"), clone=lambda k: k,
                   key_data=lambda k: k, wrap_key_data=lambda k: k)


# ------------------------------------------------- less common array functions
def _isnan(x):
    return b1("isnan")(x)


def nanred(op):
    neutral = {"sum": 0.0, "prod": 1.0, "min": float("inf"), "max": float("-inf")}

    def g(a, axis=None, **kw):
        a = asarray(a)
        if a.kind in ("i", "b"):
            return A.reduce_(a, op, axis, **kw)
        m = _isnan(a)
        if op == "mean":
            return A.a_div(A.reduce_(A.where(m, 0.0, a), "sum", axis, **kw), A.reduce_(A.where(m, 0.0, 1.0), "sum", axis, **kw))
        r = A.reduce_(A.where(m, neutral[op], a), op, axis, **kw)
        if op in ("min", "max"):
            r = A.where(A.reduce_(m, "all", axis, **kw), float("nan"), r)
        return r

    return g


def fextremum(op):
    f = lat2(op)

    def g(x, y):
        x, y = asarray(x).cast("f"), asarray(y).cast("f")
        return A.where(_isnan(x), y, A.where(_isnan(y), x, f(x, y)))

    return g


def _consts(a):
    """Python values of an array of constants, else None."""
    out = []
    for e in asarray(a).data:
        v = N.cval(e)
        if v is None:
            return None
        out.append(v)
    return out


def _need(a, what, sized=False):
    v = _consts(a)
    if v is None:
        if not sized and what != "delete":
            # the shape of the result depends on the values
            A.Tracing.refuse(A.ConcretizationTypeError, f"the operand of {what}, whose result has no static shape")
        raise Unsupported(f"{what} of unknown values")
    return v


def _ints(xs):
    return Arr((len(xs),), [N.const(int(x)) for x in xs], "i")


def _like(a, xs):
    mk = N.bconst if a.kind == "b" else N.const
    return Arr((len(xs),), [mk(x) for x in xs], a.kind)


def sort(a, axis=-1, descending=False, **kw):
    """Sorting network of minima and maxima."""
    a = asarray(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    ax = A.normax(axis, a.ndim)
    if a.ndim > 1:
        p = [i for i in range(a.ndim) if i != ax] + [ax]
        t = A.transpose(a, p)
        m = t.shape[-1]
        rows = t.reshape(-1, m)
        r = stack([sort(rows[i], descending=descending) for i in range(rows.shape[0])]).reshape(*t.shape)
        q = [p.index(i) for i in range(a.ndim)]
        return A.transpose(r, q)
    v = list(a.data)
    c = _consts(a)
    if c is not None:
        r = _like(a, sorted(c))
        return flip(r) if descending else r
    if len(v) > 6:
        raise Unsupported("sort of more than 6 unknown values")
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            v[j], v[j + 1] = N.lat("min", [v[j], v[j + 1]]), N.lat("max", [v[j], v[j + 1]])
    r = Arr(a.shape, v, a.kind)
    return flip(r) if descending else r


def argsort(a, axis=-1, descending=False, **kw):
    a = asarray(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    if a.ndim != 1:
        return apply_along_axis(lambda r: argsort(r, descending=descending), axis, a)
    c = _consts(a)
    if c is not None:
        r = sorted(range(len(c)), key=lambda i: c[i])
        if descending:
            r = sorted(range(len(c)), key=lambda i: -c[i])
        return _ints(r)
    if descending:
        a = -a
    out = [N.app("argmin", tuple(a.data), rng=(0, a.size - 1)) if a.size > 1 else N.const(0)]
    out += [N.app("argsort", (i,) + tuple(a.data)) for i in range(1, a.size)]
    return Arr((a.size,), out, "i")


def unique(a, size=None, axis=None, return_index=False, return_inverse=False, return_counts=False, **kw):
    a = asarray(a)
    if size is None and _consts(a) is None:
        A.Tracing.refuse(A.ConcretizationTypeError, "the operand of unique, whose result has no static shape")
    if size is not None or axis not in (None, 0) or kw:
        raise Unsupported("unique with options")
    v = _need(a, "unique")
    if axis is None:
        rows, shape = [(x,) for x in v], ()
    else:
        shape = a.shape[1:]
        k = math.prod(shape)
        rows = [tuple(v[i * k : i * k + k]) for i in range(a.shape[0])]
    uniq = sorted(set(rows))
    flat = [x for r in uniq for x in r]
    out = [_like(a, flat).reshape((len(uniq), *shape))]
    if return_index:
        out.append(_ints([rows.index(u) for u in uniq]))
    if return_inverse:
        inv = _ints([uniq.index(r) for r in rows])
        out.append(inv.reshape(a.shape) if axis is None else inv)
    if return_counts:
        out.append(_ints([rows.count(u) for u in uniq]))
    return out[0] if len(out) == 1 else tuple(out)


def nonzero(a, size=None, fill_value=0, **kw):
    a = asarray(a)
    if a.ndim != 1:
        if size is not None:
            raise Unsupported("n-d nonzero")
        hits = [p for p, x in zip(itertools.product(*[range(d) for d in a.shape]), _need(a, "nonzero")) if x]
        return tuple(_ints([p[k] for p in hits]) for k in range(a.ndim))
    r = [i for i, x in enumerate(_need(a, "nonzero", size is not None)) if x]
    if size is not None:
        r = (r + [fill_value] * size)[:size]
    return (_ints(r),)


def searchsorted(a, v, side="left", **kw):
    a, v = asarray(a), asarray(v)
    cmp = A.a_lt if side == "left" else A.a_le
    return Arr(v.shape, [A.reduce_(cmp(a, Arr((), [e], v.kind)), "sum").data[0] for e in v.data], "i")


def isin(x, test, invert=False, **kw):
    x, test = asarray(x), asarray(test).reshape(-1)
    r = A.reduce_(A.a_eq(x.reshape(*x.shape, 1), test), "any", -1)
    return ~r if invert else r


def _median(a, axis=None, keepdims=False, **kw):
    a = asarray(a).cast("f")
    if axis is None:
        s = sort(a.reshape(-1))
        m = s.shape[0]
        return s[m // 2] if m % 2 else (s[m // 2 - 1] + s[m // 2]) * 0.5
    s = sort(a, axis)
    m = a.shape[axis]
    s = moveaxis(s, axis, 0)
    return s[m // 2] if m % 2 else (s[m // 2 - 1] + s[m // 2]) * 0.5


def _var(a, axis=None, ddof=0, keepdims=False, **kw):
    a = asarray(a).cast("f")
    d = a - A.reduce_(a, "mean", axis, keepdims=True)
    n = a.size if axis is None else A.size([a.shape[i] for i in A._axes(a, axis)])
    return A.reduce_(d * d, "sum", axis, keepdims=keepdims) * (1.0 / (n - ddof))


def _std(a, **kw):
    return ew(N.sqrt, _var(a, **kw), kind="f")


def average(a, axis=None, weights=None, **kw):
    a = asarray(a)
    if weights is None:
        return A.reduce_(a, "mean", axis)
    w = asarray(weights)
    if w.ndim != a.ndim:
        if axis is None:
            raise Unsupported("average of different shapes")
        ax = A.normax(axis, a.ndim)
        w = w.reshape(*[w.shape[0] if i == ax else 1 for i in range(a.ndim)])
    w = A.bcast(w, a.shape)
    return A.reduce_(a * w, "sum", axis) / A.reduce_(w, "sum", axis)


def trace(a, offset=0, **kw):
    return A.reduce_(diagonal(a, offset), "sum")


def diagonal(a, offset=0, **kw):
    a = asarray(a)
    if a.ndim != 2:
        raise Unsupported("n-d diagonal")
    d = [a[i, i + offset] for i in range(a.shape[0]) if 0 <= i + offset < a.shape[1]]
    return stack(d)


def diag(a, k=0):
    a = asarray(a)
    if a.ndim == 2:
        return diagonal(a, k)
    n = a.shape[0] + abs(k)
    z = N.const(0)
    return Arr((n, n), [a.data[i if k >= 0 else j] if j - i == k else z for i in range(n) for j in range(n)], a.kind)


def tri_(lower):
    def g(a, k=0):
        a = asarray(a)
        n, m = a.shape[-2:]
        if a.ndim != 2:
            raise Unsupported("n-d triangle")
        z = N.const(0)
        return Arr(a.shape, [a.data[i * m + j] if (j - i <= k if lower else j - i >= k) else z for i in range(n) for j in range(m)], a.kind)

    return g


def kron(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim or a.ndim > 2:
        raise Unsupported("kron")
    r = outer(a, b)
    if a.ndim == 1:
        return r.reshape(-1)
    r = A.transpose(r.reshape(*a.shape, *b.shape), (0, 2, 1, 3))
    return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def tensordot(a, b, axes=2, **kw):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, int):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = ([x] if isinstance(x, int) else list(x) for x in axes)
    aa, bb = [A.normax(x, a.ndim) for x in aa], [A.normax(x, b.ndim) for x in bb]
    la = "abcdefgh"[: a.ndim]
    lb = list("mnopqrst"[: b.ndim])
    for x, y in zip(aa, bb):
        lb[y] = la[x]
    lb = "".join(lb)
    out = "".join(c for i, c in enumerate(la) if i not in aa) + "".join(c for i, c in enumerate(lb) if i not in bb)
    return A.einsum(f"{la},{lb}->{out}", a, b)


def pad(a, width, mode="constant", constant_values=0, **kw):
    a = asarray(a)
    if mode not in ("constant", "edge"):
        raise Unsupported(f"pad mode {mode}")
    w = width
    if isinstance(w, int):
        w = (w, w)
    w = list(w)
    if not isinstance(w[0], (tuple, list)):
        w = [tuple(w) if len(w) == 2 else (w[0], w[0])] * a.ndim
    if len(w) == 1:
        w = w * a.ndim
    for ax, (lo, hi) in enumerate(w):
        sh = lambda n: tuple(n if i == ax else s for i, s in enumerate(a.shape))
        pre = (slice(None),) * ax
        if mode == "edge":
            parts = [a[pre + (slice(0, 1),)]] * lo + [a] + [a[pre + (slice(-1, None),)]] * hi
        else:
            cv = constant_values
            c0, c1 = cv if isinstance(cv, (tuple, list)) else (cv, cv)
            parts = [full(sh(lo), c0).cast(a.kind), a, full(sh(hi), c1).cast(a.kind)]
        a = A.concatenate([p for p in parts if p.shape[ax]], ax)
    return a


def insert_(a, i, v, axis=None):
    a = asarray(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    ax = A.normax(axis, a.ndim)
    i = A.known_int(i)
    i = i + a.shape[ax] if i < 0 else i
    pre = (slice(None),) * ax
    sh = tuple(1 if k == ax else s for k, s in enumerate(a.shape))
    v = asarray(v)
    if v.ndim == a.ndim:
        sh = tuple(v.shape[k] if k == ax else s for k, s in enumerate(a.shape))
    v = A.bcast(v, sh)
    return A.concatenate([p for p in (a[pre + (slice(0, i),)], v, a[pre + (slice(i, None),)]) if p.shape[ax]], ax)


def delete(a, i, axis=None, **kw):
    a = asarray(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    ax = A.normax(axis, a.ndim)
    d = a.shape[ax]
    if isinstance(i, slice):
        gone = set(range(d)[i])
    elif isinstance(i, int):
        gone = {i % d}
    else:
        gone = {int(x) % d for x in _need(i, "delete")}
    return take(a, _ints([k for k in range(d) if k not in gone]), ax)


def take_along_axis(a, idx, axis=-1, **kw):
    a, idx = asarray(a), asarray(idx)
    ax = A.normax(axis, a.ndim)
    if idx.ndim != a.ndim:
        raise ProgError(ValueError("take_along_axis indices and arr must have the same number of dimensions"))
    p = [i for i in range(a.ndim) if i != ax] + [ax]
    ta, ti = A.transpose(a, p), A.transpose(idx, p)
    n, m = ta.shape[-1], ti.shape[-1]
    ra, ri = ta.reshape(-1, n), ti.reshape(-1, m)
    if ri.shape[0] == 1 and ra.shape[0] > 1:
        ri = A.bcast(ri, (ra.shape[0], m))
    if ra.shape[0] != ri.shape[0]:
        raise Unsupported("take_along_axis broadcasting")
    r = stack([ra[k][ri[k]] for k in range(ra.shape[0])])
    r = r.reshape(*ta.shape[:-1], m)
    return A.transpose(r, [p.index(i) for i in range(a.ndim)])


def choose(a, choices, **kw):
    a = asarray(a)
    cs = [A.bcast(asarray(c), a.shape) for c in choices]
    out = [A.gather(e, [Arr((), [c.data[k]], c.kind) for c in cs]).data[0] for k, e in enumerate(a.data)]
    return Arr(a.shape, out, cs[0].kind)


def ptp(a, axis=None, **kw):
    return A.reduce_(a, "max", axis) - A.reduce_(a, "min", axis)


def polyval(p, x, **kw):
    r = asarray(0.0)
    for c in asarray(p):
        r = r * x + c
    return r


def _round(x, decimals=0, **kw):
    x = asarray(x)
    f = lambda y: ew(lambda e: N.fun1("round", e), y, kind="f")
    if x.kind == "i" and decimals >= 0:
        return x
    return f(x) if not decimals else f(x * 10.0**decimals) * 10.0**-decimals


def inv_(a, **kw):
    a = asarray(a).cast("f")
    if a.shape == (1, 1):
        return 1.0 / a
    if a.shape != (2, 2):
        raise Unsupported("inverse of a large matrix")
    (p, q), (r, s) = a
    d = p * s - q * r
    return stack([stack([s, -q]), stack([-r, p])]) / d


def solve_(a, b, **kw):
    a, b = asarray(a).cast("f"), asarray(b).cast("f")
    if a.shape != (2, 2):
        raise Unsupported("linear system")
    (p, q), (r, s) = a
    d = p * s - q * r
    cols = [b] if b.ndim == 1 else [b[:, j] for j in range(b.shape[1])]
    out = [stack([(s * c[0] - q * c[1]) / d, (p * c[1] - r * c[0]) / d]) for c in cols]
    return out[0] if b.ndim == 1 else stack(out, axis=1)


def apply_along_axis(f, axis, a, *args, **kw):
    a = asarray(a)
    ax = A.normax(axis, a.ndim)
    t = moveaxis(a, ax, a.ndim - 1)
    rows = t.reshape(-1, t.shape[-1])
    outs = stack([asarray(f(rows[i], *args, **kw)) for i in range(rows.shape[0])])
    outs = outs.reshape(*t.shape[:-1], *outs.shape[1:])
    return moveaxis(outs, outs.ndim - 1, ax) if outs.ndim == a.ndim else outs


def vectorize(f=None, signature=None, excluded=(), **kw):
    if f is None:
        return lambda h: vectorize(h, signature=signature, excluded=excluded)
    if excluded:
        raise Unsupported("vectorize with excluded arguments")
    cores = None
    if signature is not None:
        import re

        cores = [len([d for d in c.split(",") if d.strip()]) for c in re.findall(r"\(([^)]*)\)", signature.split("->")[0])]

    def g(*xs):
        xs = [asarray(x) for x in xs]
        nc = cores if cores is not None else [0] * len(xs)
        if len(nc) != len(xs):
            raise ProgError(TypeError("wrong number of positional arguments"))
        if any(x.ndim < c for x, c in zip(xs, nc)):
            raise ProgError(ValueError("input has too few dimensions for the signature"))
        sh = A.bshape(*[x.shape[: x.ndim - c] for x, c in zip(xs, nc)])
        xs = [A.bcast(x, sh + x.shape[x.ndim - c :]).reshape(A.size(sh), *x.shape[x.ndim - c :]) for x, c in zip(xs, nc)]
        outs = [f(*[x[i] for x in xs]) for i in range(A.size(sh))]
        if not outs:
            raise Unsupported("vectorize over nothing")
        if isinstance(outs[0], tuple):
            return tuple(stack([asarray(o[k]) for o in outs]).reshape(*sh, *asarray(outs[0][k]).shape) for k in range(len(outs[0])))
        outs = [asarray(o) for o in outs]
        return stack(outs).reshape(*sh, *outs[0].shape) if sh else outs[0]

    return g


def heaviside(x, h):
    x = asarray(x)
    return A.where(A.a_lt(x, 0.0), 0.0, A.where(A.a_gt(x, 0.0), 1.0, h))


def copysign(x, y):
    x = abs(asarray(x).cast("f"))
    return A.where(A.a_lt(y, 0.0), -x, x)


def fmod(x, y):
    x, y = asarray(x), asarray(y)
    return x - y * ew(lambda e: N.fun1("trunc", e), A.a_div(x, y), kind="f")


def piecewise(x, conds, funcs, *a, **k):
    x = asarray(x)
    conds, funcs = list(conds), list(funcs)
    ev = lambda f: f(x) if callable(f) else asarray(f)
    r = ev(funcs[-1]) if len(funcs) > len(conds) else zeros(x.shape)
    for c, f in reversed(list(zip(conds, funcs))):
        r = A.where(c, ev(f), r)
    return r


def interp(x, xp, fp, **kw):
    x, xp, fp = asarray(x), asarray(xp), asarray(fp)
    n = xp.shape[0]
    r = fp[n - 1]
    for i in reversed(range(n - 1)):
        t = (x - xp[i]) / (xp[i + 1] - xp[i])
        r = A.where(A.a_le(x, xp[i + 1]), fp[i] + t * (fp[i + 1] - fp[i]), r)
    return A.where(A.a_le(x, xp[0]), fp[0], r)


def rot90(a, k=1, **kw):
    a = asarray(a)
    for _ in range(k % 4):
        a = flip(A.transpose(a), 0)
    return a


def lreduce(op):
    return lambda x, axes: A.reduce_(x, op, tuple(axes))


def softmax(x, axis=-1, **kw):
    x = asarray(x).cast("f")
    e = f1("exp")(x - A.reduce_(x, "max", axis, keepdims=True))
    return e / A.reduce_(e, "sum", axis, keepdims=True)


def _logaddexp(a, b):
    a, b = asarray(a).cast("f"), asarray(b).cast("f")
    return a + f1("softplus")(b - a)


def logsumexp(x, axis=None, keepdims=False, **kw):
    return f1("log")(A.reduce_(f1("exp")(asarray(x)), "sum", axis, keepdims=keepdims))


def one_hot(x, n, **kw):
    x = asarray(x)
    return A.a_eq(x.reshape(*x.shape, 1), arange(n)).cast("f")


def _jac(f, argnums=0, **kw):
    """Jacobian of an array function, one gradient per output entry."""
    if not isinstance(argnums, int):
        raise Unsupported("jacobian of several arguments")

    def g(*a, **k):
        out = f(*a, **k)
        if not isinstance(out, Arr):
            raise Unsupported("jacobian of a structure")
        if out.ndim == 0:
            return grad(f, argnums)(*a, **k)
        rows = [grad(lambda *b, i=i, **q: f(*b, **q).reshape(-1)[i], argnums)(*a, **k) for i in range(out.size)]
        r = stack(rows)
        return r.reshape(*out.shape, *r.shape[1:])

    return g


_sgn = keep(lambda e: N.fun1("sign", e))
jnp.__dict__.update(
    nansum=nanred("sum"), nanprod=nanred("prod"), nanmin=nanred("min"), nanmax=nanred("max"), nanmean=nanred("mean"), fmin=fextremum("min"), fmax=fextremum("max"),
    nanargmax=lambda a, axis=None, **k: A.argm("argmax", A.where(b1("isnan")(a), -float("inf"), a), axis),
    sort=sort, argsort=argsort, unique=unique, nonzero=nonzero, flatnonzero=lambda a, **k: nonzero(asarray(a).reshape(-1), **k)[0],
    argwhere=lambda a, **k: stack(nonzero(a, **k), axis=1), count_nonzero=lambda a, axis=None, **k: A.reduce_(A.a_ne(a, 0), "sum", axis),
    searchsorted=searchsorted, isin=isin, in1d=lambda a, b, **k: isin(asarray(a).reshape(-1), b, **k),
    intersect1d=lambda a, b, **k: _like(asarray(a), sorted(set(_need(a, "intersect1d")) & set(_need(b, "intersect1d")))),
    setdiff1d=lambda a, b, **k: _like(asarray(a), sorted(set(_need(a, "setdiff1d")) - set(_need(b, "setdiff1d")))),
    union1d=lambda a, b, **k: _like(asarray(a), sorted(set(_need(a, "union1d")) | set(_need(b, "union1d")))),
    median=_median, var=_var, std=lambda a, axis=None, **k: _std(a, axis=axis, **k), average=average, ptp=ptp,
    trace=trace, diag=diag, diagonal=diagonal, tril=tri_(True), triu=tri_(False), kron=kron, tensordot=tensordot, pad=pad, insert=insert_, delete=delete,
    take_along_axis=take_along_axis, choose=choose, polyval=polyval, round=_round, around=_round, degrees=lambda x: asarray(x) * (180 / 3.141592653589793), rad2deg=lambda x: asarray(x) * (180 / 3.141592653589793),
    apply_along_axis=apply_along_axis, vectorize=vectorize, heaviside=heaviside, copysign=copysign, signbit=lambda x: A.a_lt(x, 0.0), fmod=fmod, piecewise=piecewise, interp=interp,
    divmod=lambda a, b: (A.a_floordiv(a, b), A.a_mod(a, b)), rot90=rot90, permute_dims=lambda a, axes: A.transpose(a, axes), matrix_transpose=lambda a: asarray(a).swapaxes(-1, -2),
    ediff1d=lambda a, **k: diff(asarray(a).reshape(-1)), extract=lambda c, a, **k: take(asarray(a).reshape(-1), nonzero(asarray(c).reshape(-1))[0]), compress=lambda c, a, axis=None, **k: take(a, nonzero(c)[0], axis),
    trapezoid=lambda y, x=None, dx=1.0, axis=-1: A.reduce_((asarray(y)[1:] + asarray(y)[:-1]) * 0.5 * (dx if x is None else diff(x)), "sum"),
    sinc=lambda x: A.where(A.a_eq(x, 0.0), 1.0, f1("sin")(asarray(x) * 3.141592653589793) / A.where(A.a_eq(x, 0.0), 1.0, asarray(x) * 3.141592653589793)),
    promote_types=lambda a, b: A.F32 if "f" in (A.dtype_of(a).kind, A.dtype_of(b).kind) else A.dtype_of(a), r_=Missing("jnp.r_"), c_=Missing("jnp.c_"),
)
jnp.linalg.__dict__.update(inv=inv_, solve=solve_, trace=trace, outer=outer, tensordot=tensordot, diagonal=diagonal, matrix_transpose=jnp.matrix_transpose)
lax.__dict__.update(
    ne=A.a_ne, log=f1("log"), sign=_sgn, floor=f1("floor"), ceil=f1("ceil"), round=_round, pow=A.a_pow, tan=f1("tan"), tanh=f1("tanh"), log1p=f1("log1p"), expm1=f1("expm1"), atan2=jnp.arctan2,
    reshape=lambda x, s, *a, **k: asarray(x).reshape(s), broadcast=lambda x, s: A.bcast(asarray(x), (*s, *asarray(x).shape)), broadcast_in_dim=lambda x, s, d: A.bcast(asarray(x).reshape(tuple(asarray(x).shape[d.index(k)] if k in d else 1 for k in range(len(s)))), s),
    squeeze=lambda x, d: asarray(x).squeeze(tuple(d)), rev=lambda x, d: flip(x, tuple(d)), slice=lambda x, s, e, st=None: asarray(x)[tuple(slice(a, b, c) for a, b, c in zip(s, e, st or [1] * len(s)))],
    convert_element_type=lambda x, d: asarray(x).astype(d), is_finite=b1("isfinite"), full=full, full_like=full_like, cumsum=lambda x, axis=0, reverse=False: flip(cumsum(flip(x, axis), axis), axis) if reverse else cumsum(x, axis),
    cumprod=lambda x, axis=0, **k: _scan_op(asarray(x), axis, A.a_mul), reduce_max=lreduce("max"), reduce_min=lreduce("min"), reduce_sum=lreduce("sum"), reduce_and=lreduce("all"), reduce_or=lreduce("any"),
    dynamic_update_index_in_dim=lambda a, u_, i, axis: dynamic_update_slice_in_dim(a, expand_dims(u_, axis) if asarray(u_).ndim < asarray(a).ndim else u_, i, axis),
    sort=lambda x, dimension=-1, **k: sort(x, dimension), iota=lambda d, n: arange(n), bitwise_and=A.a_and, bitwise_or=A.a_or, bitwise_not=lambda x: ~asarray(x), bitwise_xor=A.a_xor,
    batch_matmul=A.matmul, transpose=lambda x, p: A.transpose(x, p), rem=fmod, cbrt=f1("cbrt"), erf=f1("erf"), argmin=lambda x, axis, d=None: A.argm("argmin", x, axis), argmax=lambda x, axis, d=None: A.argm("argmax", x, axis),
)
nn.__dict__.update(
    softmax=softmax, logsumexp=logsumexp, silu=lambda x: asarray(x) * _sigmoid(x), swish=lambda x: asarray(x) * _sigmoid(x), log_sigmoid=lambda x: -f1("softplus")(-asarray(x)),
    leaky_relu=lambda x, s=0.01: A.where(A.a_ge(x, 0.0), x, asarray(x) * s), elu=lambda x, alpha=1.0: A.where(A.a_gt(x, 0.0), x, asarray(alpha) * f1("expm1")(A.where(A.a_gt(x, 0.0), 0.0, x))), one_hot=one_hot,
)
special = Namespace("jax.scipy.special", expit=_sigmoid, logit=lambda x: f1("log")(asarray(x) / (1.0 - asarray(x))), logsumexp=logsumexp, erf=f1("erf"))
scipy = Namespace("jax.scipy", special=special)

random.__dict__.update(exponential=r_draw("exponential"), truncated_normal=r_draw("truncated_normal"), laplace=r_draw("laplace"), gumbel=r_draw("gumbel"))


# -------------------------------------------------------------------- jit
def jit(f=None, *, static_argnames=None, static_argnums=None, inline=False, **kw):
    if f is None:
        return lambda g: jit(g, static_argnames=static_argnames, static_argnums=static_argnums)
    return jitted(f, "jax", static_argnames, static_argnums)


def jitted(f, kind, names=None, nums=None):
    from .interp import IFunc

    if not isinstance(f, IFunc):
        return f
    g = copy.copy(f)
    one = lambda x, t: (x,) if isinstance(x, t) else tuple(x or ())
    g.jit = (kind, one(names, str), one(nums, int))
    return g


def trace_args(f, args, kwargs):
    """Arguments as the body of a compiled function sees them, when tracing:
    numbers and arrays have no known value, static ones must be hashable."""
    kind, names, nums = f.jit
    ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    static = set(names) | {ps[i] for i in nums if -len(ps) <= i < len(ps)}

    def leaf(x):
        if isinstance(x, Arr):
            # integers (indices, counts) keep their value: they only select
            return Arr(x.shape, [fresh(x.kind) if e.is_const else e for e in x.data], x.kind) if x.kind in "fb" else x
        if kind == "eqx":
            return x
        if isinstance(x, bool):
            return Arr((), [fresh("b")], "b")
        if isinstance(x, int):
            return asarray(x)
        if isinstance(x, (float, Fraction)):
            return Arr((), [fresh("f")], "f")
        if isinstance(x, (str, bytes)) or callable(x):
            raise ProgError(TypeError(f"Cannot interpret value of type {type(x).__name__} as an abstract array; it does not have a dtype attribute"))
        return x

    def fresh(k):
        return N.var(f"traced{next(_ntraced)}", sort="b" if k == "b" else "r")

    def go(name, x):
        if name in static:
            if isinstance(x, (list, dict, set, Arr)):
                raise ProgError(ValueError(f"Non-hashable static arguments are used in a jit function: {name}"))
            return x
        return tree_map(leaf, x)

    args = [go(ps[i] if i < len(ps) else "*", x) for i, x in enumerate(args)]
    return args, {k: go(k, x) for k, x in kwargs.items()}


_ntraced = itertools.count()


def passthrough(f=None, *a, **kw):
    if f is None or not callable(f):
        return lambda g: g
    return f


class _Ctx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


tree_util = Namespace("jax.tree_util", tree_map=tree_map, tree_flatten=tree_flatten, tree_leaves=tree_leaves, tree_structure=lambda t, is_leaf=None: TreeDef(t, is_leaf), tree_unflatten=lambda d, l: d.unflatten(l),
                      tree_all=lambda t: all(bool(x) for x in tree_leaves(t)), tree_reduce=lambda f, t, *i, **k: __import__("functools").reduce(f, tree_leaves(t), *i), register_pytree_node_class=passthrough, Partial=__import__("functools").partial,
                      tree_transpose=Missing("tree_transpose"))
tree = Namespace("jax.tree", map=tree_map, flatten=tree_flatten, leaves=tree_leaves, structure=lambda t, is_leaf=None: TreeDef(t, is_leaf), unflatten=lambda d, l: d.unflatten(l), all=tree_util.tree_all, reduce=tree_util.tree_reduce)


def _nograd(*a, **k):
    raise Unsupported("forward-mode / jacobian transform")


jax = Namespace(
    "jax", numpy=jnp, nn=nn, lax=lax, random=random, tree_util=tree_util, tree=tree, jit=jit, vmap=vmap, grad=grad, value_and_grad=value_and_grad,
    jacrev=_jac, jacfwd=_jac, jacobian=_jac, jvp=_nograd, vjp=_nograd, hessian=_nograd,
    Array=Arr, checkpoint=passthrough, remat=passthrough, named_call=passthrough, named_scope=_Ctx, ensure_compile_time_eval=_Ctx, disable_jit=_Ctx,
    debug=Namespace("jax.debug", print=lambda *a, **k: None, callback=lambda *a, **k: None), block_until_ready=lambda x: x, device_put=lambda x, *a, **k: x, device_get=lambda x: x,
    errors=Namespace("jax.errors", **{k: getattr(A, k) for k in ("ConcretizationTypeError", "TracerBoolConversionError", "TracerIntegerConversionError", "TracerArrayConversionError")}), core=Namespace("jax.core", Tracer=TracerM), config=AmbientNS("jax.config", update=lambda *a: None, read=lambda k: Ambient(f"jax.config.{k}")), typing=Namespace("jax.typing", ArrayLike=Missing("ArrayLike")),
    ShapeDtypeStruct=Missing("ShapeDtypeStruct"), eval_shape=Missing("eval_shape"), custom_jvp=_custom("jvp"), custom_vjp=_custom("vjp"), default_backend=lambda: Ambient("jax.default_backend()"), __version__=Ambient("jax.__version__"), device_count=lambda *a: Ambient("jax.device_count()"), local_device_count=lambda *a: Ambient("jax.local_device_count()"), make_jaxpr=Missing("make_jaxpr"),
    pure_callback=Missing("jax.pure_callback"), closure_convert=Missing("closure_convert"), linearize=_nograd, named_shape=Missing("x"),
    dtypes=Missing("jax.dtypes"), experimental=Missing("jax.experimental"), scipy=scipy, tree_map=tree_map, pmap=Missing("pmap"), linear_util=Missing("x"),
)


def tree_equal(*trees, **kw):
    """equinox.tree_equal: structure, shapes, dtypes and values."""
    a = trees[0]
    out = True
    for b in trees[1:]:
        if not (TreeDef(a) == TreeDef(b)):
            return False
        for x, y in zip(tree_leaves(a), tree_leaves(b)):
            if isinstance(x, Arr) or isinstance(y, Arr):
                if not (isinstance(x, Arr) and isinstance(y, Arr)):
                    return False
                if x.shape != y.shape or x.kind != y.kind:
                    return False
                e = array_equal(x, y)
                out = e if out is True else (out & e)
            elif not (x is y or x == y):
                return False
    if isinstance(out, Arr) and out.data[0].op == "const":
        return bool(out.data[0].attr)
    return out
