"""Less common corners of the array library: aliases, index helpers, transforms
derived from the gradient, registered pytree nodes.  Same contract as jaxmodel:
documented semantics, or Unsupported."""
from __future__ import annotations

import itertools

from . import arr as A
from . import jaxmodel as J
from . import nodes as N
from .arr import Arr, asarray
from .errors import ProgError, Unsupported
from .jaxmodel import Missing, Namespace, f1, jnp, lax, nn, random


def _dims(s):
    return J.shp(s) if not isinstance(s, int) else (s,)


def unravel_index(i, shape):
    i = asarray(i)
    out = []
    rest = i
    for n in reversed(_dims(shape)):
        out.append(A.a_mod(rest, n))
        rest = A.a_floordiv(rest, n)
    return tuple(reversed(out))


def ravel_multi_index(idx, dims, **kw):
    r = asarray(0)
    for i, n in zip(idx, _dims(dims)):
        r = r * n + asarray(i)
    return r


def _itri(keep_):
    def g(n, k=0, m=None, **kw):
        ij = [(i, j) for i in range(n) for j in range(n if m is None else m) if keep_(i, j, k)]
        return tuple(_iarr([p[a] for p in ij]) for a in (0, 1))

    return g


def _iarr(xs):
    return Arr((len(xs),), [N.const(int(x)) for x in xs], "i")


tril_indices, triu_indices = _itri(lambda i, j, k: j - i <= k), _itri(lambda i, j, k: j - i >= k)


def diag_indices(n, ndim=2):
    return (J.arange(n),) * ndim


def indices(dims, dtype=None, sparse=False, **kw):
    g = J.meshgrid(*[J.arange(n) for n in _dims(dims)], indexing="ij", sparse=sparse)
    return tuple(g) if sparse else J.stack(list(g))


def ix_(*xs):
    xs = [asarray(x) for x in xs]
    return tuple(x.reshape(*(1,) * i, -1, *(1,) * (len(xs) - 1 - i)) for i, x in enumerate(xs))


def array_equiv(a, b):
    a, b = asarray(a), asarray(b)
    try:
        s = A.bshape(a.shape, b.shape)
    except ProgError:
        return asarray(False)
    return A.reduce_(A.a_eq(A.bcast(a, s), A.bcast(b, s)), "all")


def digitize(x, bins, right=False, **kw):
    x, b = asarray(x), asarray(bins)
    c = b.reshape(*(1,) * x.ndim, -1)
    x = x.reshape(*x.shape, 1)
    return A.reduce_((A.a_lt(c, x) if right else A.a_le(c, x)), "sum", -1)


def bincount(x, weights=None, minlength=0, length=None):
    if length is None:
        raise Unsupported("bincount without a length")
    hit = A.a_eq(asarray(x).reshape(-1, 1), J.arange(length))
    if weights is not None:
        hit = A.where(hit, asarray(weights).reshape(-1, 1), 0.0)
    return A.reduce_(hit, "sum", 0)


def fromfunction(f, shape, dtype=None, **kw):
    return f(*J.meshgrid(*[J.arange(n).cast("f") if dtype is None or A.dtype_of(dtype).kind == "f" else J.arange(n) for n in _dims(shape)], indexing="ij"))


def modf(x):
    w = jnp.trunc(x)
    return (asarray(x).cast("f") - w, w)


def diagflat(v, k=0):
    return J.diag(asarray(v).reshape(-1), k)


def matvec(a, v, **kw):
    return A.reduce_(asarray(a) * J.expand_dims(v, -2), "sum", -1)


def vecmat(v, a, **kw):
    return A.reduce_(J.expand_dims(v, -1) * asarray(a), "sum", -2)


def fill_diagonal(a, v, wrap=False, *, inplace=True):
    if inplace:
        raise ProgError(NotImplementedError("JAX arrays are immutable, must use inplace=False"))
    a = asarray(a)
    i = J.arange(min(a.shape))
    return a.at[(i,) * a.ndim].set(v)


def logspace(a, b, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    return A.a_pow(asarray(float(base)), J.linspace(a, b, num, endpoint, axis))


class _Joiner:
    """jnp.r_ / jnp.c_ of arrays and ranges."""

    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, k):
        xs = []
        for x in k if isinstance(k, tuple) else (k,):
            if isinstance(x, str):
                raise Unsupported("r_ with directives")
            if isinstance(x, slice):
                lo, st = x.start or 0, 1 if x.step is None else x.step
                x = J.linspace(lo, x.stop, int(st.imag)) if isinstance(st, complex) else J.arange(lo, x.stop, st)
            x = asarray(x)
            xs.append(x.reshape(-1) if x.ndim == 0 else x)
        if self.axis == -1:
            xs = [x.reshape(-1, 1) if x.ndim == 1 else x for x in xs]
        return A.concatenate(xs, self.axis)


def gradient(f, *dx, axis=None, edge_order=None):
    f = asarray(f).cast("f")
    if f.ndim != 1 or len(dx) > 1:
        raise Unsupported("gradient of an n-d array")
    h = asarray(dx[0] if dx else 1.0)
    if h.ndim:
        raise Unsupported("gradient on uneven samples")
    return A.concatenate([(f[1:2] - f[:1]), (f[2:] - f[:-2]) * 0.5, (f[-1:] - f[-2:-1])]) / h


jnp.__dict__.update(
    acos=jnp.arccos, asin=jnp.arcsin, atan=jnp.arctan, atan2=jnp.arctan2, unravel_index=unravel_index, ravel_multi_index=ravel_multi_index,
    tril_indices=tril_indices, triu_indices=triu_indices, diag_indices=diag_indices, diag_indices_from=lambda a: diag_indices(a.shape[0], a.ndim),
    tril_indices_from=lambda a, k=0: tril_indices(a.shape[-2], k, a.shape[-1]), triu_indices_from=lambda a, k=0: triu_indices(a.shape[-2], k, a.shape[-1]), indices=indices, ix_=ix_,
    isneginf=lambda x: A.a_eq(x, -float("inf")), isposinf=lambda x: A.a_eq(x, float("inf")), array_equiv=array_equiv,
    broadcast_shapes=lambda *s: A.bshape(*[_dims(x) for x in s]), digitize=digitize, bincount=bincount,
    fromfunction=fromfunction, modf=modf, imag=lambda x: jnp.zeros_like(x), diagflat=diagflat, matvec=matvec, vecmat=vecmat, fill_diagonal=fill_diagonal,
    bitwise_xor=A.a_xor, bitwise_invert=lambda x: ~asarray(x), invert=lambda x: ~asarray(x), bitwise_count=Missing("jnp.bitwise_count"),
    cumulative_sum=lambda x, axis=None, include_initial=False, **k: J.cumsum(x, axis if axis is not None else 0) if not include_initial else A.concatenate([jnp.zeros_like(asarray(x)[:1]), J.cumsum(x, 0)]),
    cumulative_prod=lambda x, axis=None, **k: J._scan_op(asarray(x), axis if axis is not None else 0, A.a_mul),
    logspace=logspace, geomspace=lambda a, b, num=50, endpoint=True, **k: jnp.exp(J.linspace(jnp.log(asarray(a)), jnp.log(asarray(b)), num, endpoint)), gradient=gradient,
    r_=_Joiner(0), c_=_Joiner(-1), lexsort=Missing("jnp.lexsort"),
    unstack=lambda x, axis=0: tuple(J.moveaxis(asarray(x), axis, 0)),
)


# ----------------------------------------------------------------- lax, nn
def _lax_split(x, sizes, axis=0):
    x = asarray(x)
    if sum(sizes) != x.shape[axis]:
        raise ProgError(ValueError("Sizes passed to split must sum to the size of the axis"))
    ends = list(itertools.accumulate(sizes))
    pre = (slice(None),) * (axis % x.ndim)
    return [x[pre + (slice(e - s, e),)] for s, e in zip(sizes, ends)]


def _lax_pad(x, v, conf):
    if any(c or l < 0 or h < 0 for l, h, c in conf):
        raise Unsupported("negative or interior padding")
    return J.pad(x, [(l, h) for l, h, _ in conf], constant_values=v)


def _top_k(x, k, **kw):
    x = asarray(x)
    i = J.argsort(-x, axis=-1)[..., :k]
    return [J.take_along_axis(x, i, -1), i]


def _collapse(x, start, stop=None):
    x = asarray(x)
    stop = x.ndim if stop is None else stop
    return x.reshape(*x.shape[:start], A.size(x.shape[start:stop]), *x.shape[stop:])


def _biota(dtype, shape, dimension, **kw):
    s = [1] * len(shape)
    s[dimension] = shape[dimension]
    return A.bcast(J.arange(shape[dimension]).reshape(tuple(s)), tuple(shape))


def _dot_general(a, b, dims, *args, **kw):
    (ca, cb), (ba, bb) = dims
    if ba or bb:
        raise Unsupported("batched dot_general")
    return J.tensordot(a, b, (tuple(ca), tuple(cb)))


def _cumx(op):
    f = J.lat2(op)

    def g(x, axis=0, reverse=False):
        x = asarray(x)
        r = J._scan_op(J.flip(x, axis) if reverse else x, axis, f)
        return J.flip(r, axis) if reverse else r

    return g


lax.__dict__.update(
    acos=jnp.arccos, asin=jnp.arcsin, atan=jnp.arctan, sinh=f1("sinh"), cosh=f1("cosh"), exp2=jnp.exp2, cummax=_cumx("max"), cummin=_cumx("min"), split=_lax_split, pad=_lax_pad, top_k=_top_k,
    collapse=_collapse, broadcasted_iota=_biota, reduce_prod=J.lreduce("prod"), optimization_barrier=lambda x: x, real=lambda x: x, dot_general=_dot_general, erfc=lambda x: 1.0 - f1("erf")(x),
    zeros_like_array=lambda x: asarray(x) * 0, square=jnp.square, reciprocal=jnp.reciprocal, clamp=lambda lo, x, hi: J.clip(x, lo, hi), expand_dims=lambda x, d: J.expand_dims(x, tuple(d)), logistic=J._sigmoid, nextafter=Missing("lax.nextafter"),
    stop_gradient=J.stop_gradient,
)
nn.__dict__.update(
    log_softmax=lambda x, axis=-1, **k: asarray(x) - J.logsumexp(x, axis, keepdims=True), hard_silu=lambda x: asarray(x) * J.hard_sigmoid(x), hard_swish=lambda x: asarray(x) * J.hard_sigmoid(x),
    soft_sign=lambda x: asarray(x) / (1.0 + abs(asarray(x))), squareplus=lambda x, b=4: (asarray(x) + jnp.sqrt(asarray(x) * asarray(x) + b)) * 0.5, hard_tanh=lambda x: J.clip(asarray(x).cast("f"), -1.0, 1.0),
    logsumexp=J.logsumexp,
)
J.special.__dict__.update(softmax=J.softmax, log_softmax=nn.log_softmax)


# ------------------------------------------------------------------ random
def bernoulli(key, p=0.5, shape=None, **kw):
    p = asarray(p)
    return A.a_lt(J.r_draw("uniform")(key, p.shape if shape is None else shape), p)


def randint(key, shape, minval, maxval, dtype=None):
    lo, hi = asarray(minval), asarray(maxval)
    x = J.r_draw("uniform")(key, shape)
    r = J.f1("floor")(x * (hi - lo).cast("f")) + lo.cast("f")
    return Arr(r.shape, r.data, "i")


def choice(key, a, shape=(), replace=True, p=None, axis=0):
    if p is not None or not replace and shape not in ((), (1,)):
        raise Unsupported("random choice without replacement or with weights")
    a = J.arange(a) if isinstance(a, int) else asarray(a)
    i = randint(key, shape, 0, a.shape[axis])
    return J.take(a, i, axis)


def permutation(key, x, axis=0, independent=False):
    raise Unsupported("random permutation")


random.__dict__.update(bernoulli=bernoulli, randint=randint, choice=choice, permutation=permutation, rademacher=lambda k, shape=(), dtype=None: randint(k, shape, 0, 2) * 2 - 1,
                       bits=Missing("jax.random.bits"), cauchy=J.r_draw("cauchy"), logistic=J.r_draw("logistic"), key_impl=lambda k: "fry", KeyArray=Arr)


# -------------------------------------------------------------- transforms
def vjp(f, *primals, has_aux=False):
    """Reverse mode through the gradient of the paired output."""
    if has_aux:
        raise Unsupported("vjp with auxiliary output")
    out = f(*primals)
    J.children(out)
    if not isinstance(out, Arr):
        raise Unsupported("vjp of a structure")

    def pull(ct):
        g = J.grad(lambda *a: A.reduce_(asarray(f(*a)) * J.stop_gradient(asarray(ct)), "sum"), tuple(range(len(primals))))
        return g(*primals)

    return out, pull


def jvp(f, primals, tangents, has_aux=False):
    """Forward mode: directional derivative assembled from the gradients."""
    if has_aux:
        raise Unsupported("jvp with auxiliary output")
    out = f(*primals)
    if not isinstance(out, Arr):
        raise Unsupported("jvp of a structure")
    rows = []
    for i in range(out.size):
        g = J.grad(lambda *a, i=i: asarray(f(*a)).reshape(-1)[i], tuple(range(len(primals))))(*primals)
        parts = []
        J.tree_map(lambda d, t: parts.append(A.reduce_(asarray(d) * asarray(t), "sum")), tuple(g), tuple(tangents))
        rows.append(sum(parts[1:], parts[0]))
    return out, (J.stack(rows).reshape(*out.shape) if out.ndim else rows[0])


def hessian(f, argnums=0, **kw):
    return J._jac(J.grad(f, argnums), argnums)


class ShapeDtypeStruct:
    def __init__(self, shape, dtype, **kw):
        self.shape, self.dtype = tuple(shape), dtype
        self.ndim, self.size = len(self.shape), A.size(self.shape)


def eval_shape(f, *a, **k):
    return J.tree_map(lambda x: ShapeDtypeStruct(asarray(x).shape, asarray(x).dtype) if J.arrleaf(x) else x, f(*a, **k))


# ------------------------------------------------------- registered nodes
def _reg(cls, flat, unflat):
    cls.pytree_node = (flat, unflat)
    return cls


def register_pytree_node(cls, flatten, unflatten, *a, **k):
    _reg(cls, flatten, unflatten)


def register_pytree_with_keys(cls, flatten_with_keys, unflatten, flatten_func=None):
    def flat(x):
        if flatten_func is not None:
            return flatten_func(x)
        ch, aux = flatten_with_keys(x)
        return [c[1] for c in ch], aux

    _reg(cls, flat, unflatten)


def register_pytree_node_class(cls):
    return _reg(cls, lambda x: x.tree_flatten(), lambda aux, ch: cls.tree_unflatten(aux, ch))


def register_pytree_with_keys_class(cls):
    def flat(x):
        ch, aux = x.tree_flatten_with_keys()
        return [c[1] for c in ch], aux

    return _reg(cls, flat, lambda aux, ch: cls.tree_unflatten(aux, ch))


def register_dataclass(cls=None, data_fields=None, meta_fields=None, drop_fields=()):
    if cls is None:
        return lambda c: register_dataclass(c, data_fields, meta_fields)
    if data_fields is None:
        names = [f.name for f in cls.all_fields()]
        static = {f.name for f in cls.all_fields() if f.static}
        data_fields = [n for n in names if n not in static]
        meta_fields = [n for n in names if n in static]
    data, meta = tuple(data_fields), tuple(meta_fields or ())

    def unflat(aux, ch):
        from .interp import Inst

        return Inst(cls, {**dict(zip(data, ch)), **dict(zip(meta, aux))})

    return _reg(cls, lambda x: (tuple(getattr(x, n) for n in data), tuple(getattr(x, n) for n in meta)), unflat)


def register_static(cls):
    return _reg(cls, lambda x: ((), x), lambda aux, ch: aux)


# ------------------------------------------------------- trees with paths
class SequenceKey:
    def __init__(self, idx):
        self.idx = self.key = idx

    def _t(self):
        return type(self).__name__, self.key

    def __eq__(self, o):
        return isinstance(o, SequenceKey) and self._t() == o._t()

    def __hash__(self):
        return hash(self._t())

    def __str__(self):
        return f"[{self.key!r}]"


class DictKey(SequenceKey):
    pass


class GetAttrKey(SequenceKey):
    def __init__(self, name):
        self.name = self.key = name

    def __str__(self):
        return f".{self.name}"


def leaves_with_path(tree, is_leaf=None, path=()):
    c = None if is_leaf is not None and bool(is_leaf(tree)) else J.children(tree)
    if c is None:
        return [(path, tree)]
    kind, st, ch = c
    if kind == "dict":
        ks = [DictKey(k) for k in st[1]]
    elif kind == "module":
        ks = [GetAttrKey(n) for n in st[1]]
    elif kind == "namedtuple":
        ks = [GetAttrKey(n) for n in st._fields]
    elif kind in ("tuple", "list", "none"):
        ks = [SequenceKey(i) for i in range(len(ch))]
    else:
        raise Unsupported("paths through a registered node")
    return [q for k, x in zip(ks, ch) for q in leaves_with_path(x, is_leaf, path + (k,))]


def map_with_path(f, tree, *rest, is_leaf=None):
    ps = iter([p for p, _ in leaves_with_path(tree, is_leaf)])
    return J.tree_map(lambda x, *r: f(next(ps), x, *r), tree, *rest, is_leaf=is_leaf)


def flatten_with_path(tree, is_leaf=None):
    return leaves_with_path(tree, is_leaf), J.TreeDef(tree, is_leaf)


def _transpose(outer, inner, tree):
    n = inner.num_leaves if inner is not None else None
    rows = J.TreeDef(outer.tree).num_leaves
    leaves = J.tree_leaves(tree)
    n = n if n is not None else len(leaves) // rows
    cols = [outer.unflatten([leaves[r * n + c] for r in range(rows)]) for c in range(n)]
    it = iter(cols)
    return J.tree_map(lambda _: next(it), inner.tree)


J.tree_util.__dict__.update(
    register_pytree_node=register_pytree_node, register_pytree_node_class=register_pytree_node_class, register_pytree_with_keys=register_pytree_with_keys,
    register_pytree_with_keys_class=register_pytree_with_keys_class, register_dataclass=register_dataclass, register_static=register_static, tree_map_with_path=map_with_path,
    tree_leaves_with_path=leaves_with_path, tree_flatten_with_path=flatten_with_path, keystr=lambda p: "".join(str(k) for k in p), SequenceKey=SequenceKey, DictKey=DictKey, GetAttrKey=GetAttrKey,
    tree_transpose=_transpose, all_leaves=lambda xs, is_leaf=None: all(J.children(x) is None for x in xs),
)
J.tree.__dict__.update(map_with_path=map_with_path, leaves_with_path=leaves_with_path, flatten_with_path=flatten_with_path, transpose=_transpose)
J.jax.__dict__.update(vjp=vjp, jvp=jvp, hessian=hessian, ShapeDtypeStruct=ShapeDtypeStruct, eval_shape=eval_shape, debug_nans=J._Ctx, debug_infs=J._Ctx, transfer_guard=J._Ctx, default_matmul_precision=J._Ctx,
                      log_compiles=J._Ctx, default_device=J._Ctx, enable_checks=J._Ctx, clear_caches=lambda: None)
