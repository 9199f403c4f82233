"""Abstract arrays: concrete shape, one value-graph node per element."""
from __future__ import annotations

import itertools
import math
import operator
from fractions import Fraction

from . import nodes as N
from .errors import ProgError, Unsupported


class DType:
    def __init__(self, kind, name, lo=None, hi=None):
        self.kind, self.name, self.lo, self.hi = kind, name, lo, hi

    def __repr__(self):
        return f"dtype({self.name})"

    def __eq__(self, o):
        return dtype_of(o).kind == self.kind if o is not None and _dt(o) else NotImplemented

    def __hash__(self):
        return hash(self.kind)

    def __call__(self, x=0):
        return asarray(x, dtype=self)


def _dt(o):
    try:
        return dtype_of(o)
    except Exception:
        return None


F32 = DType("f", "float32")
LOWF = DType("l", "float16")
I32 = DType("i", "int32")
# narrow integers: constants out of range wrap, as JAX does
NARROW = {n: DType("i", n, lo, hi) for n, lo, hi in (("int8", -128, 127), ("int16", -(1 << 15), (1 << 15) - 1), ("uint8", 0, 255), ("uint16", 0, (1 << 16) - 1))}
BOOL = DType("b", "bool")
KEY = DType("k", "key")


def dtype_of(d):
    if isinstance(d, DType):
        return d
    if d is float or d in ("float", "float32", "float64"):
        return F32
    if d is int or d in ("int", "int32", "int64"):
        return I32
    if d is bool or d == "bool":
        return BOOL
    if d in ("float16", "bfloat16"):
        return LOWF
    if isinstance(d, str) and d in NARROW:
        return NARROW[d]
    raise Unsupported(f"dtype {d!r}")


_RANK = {"b": 0, "i": 1, "f": 2, "l": 2, "k": 9}


def promote(*ks):
    r = max(ks, key=lambda k: _RANK[k])
    return r


def is_scalar(x):
    return isinstance(x, (bool, int, float, Fraction)) and not isinstance(x, Arr)


def _unset():
    from .interp import UNSET

    return UNSET


def asarray(x, dtype=None, copy=None, **kw):
    if isinstance(x, Arr):
        a = x
    elif isinstance(x, bool):
        a = Arr((), [N.bconst(x)], "b")
    elif isinstance(x, int):
        a = Arr((), [N.const(x)], "i")
    elif isinstance(x, (float, Fraction)):
        a = Arr((), [N.const(x)], "f")
    elif isinstance(x, N.Node):
        a = Arr((), [x], {"r": "f", "b": "b", "k": "k"}[x.sort])
    elif isinstance(x, (list, tuple)):
        parts = [asarray(y) for y in x]
        if not parts:
            a = Arr((0,), [], "f")
        else:
            if any(p.shape != parts[0].shape for p in parts):
                raise ProgError(ValueError("inhomogeneous array"))
            k = promote(*[p.kind for p in parts])
            parts = [p.cast(k) for p in parts]
            a = Arr((len(parts),) + parts[0].shape, [e for p in parts for e in p.data], k)
    elif hasattr(x, "__abs_array__"):
        a = x.__abs_array__()
    elif isinstance(x, range):
        return asarray(list(x), dtype=dtype)
    elif type(x).__name__ == "Inst" and not any(x.cls.lookup(m) is not _unset() for m in ("__jax_array__", "__array__", "__len__", "__getitem__", "__float__", "__int__")):
        raise ProgError(TypeError(f"Value of type {x.cls.__name__} is not a valid JAX array type"))
    elif type(x) in (str, dict, set) or type(x).__name__ in ("IFunc", "function", "builtin_function_or_method"):
        raise ProgError(TypeError(f"Value {type(x).__name__} is not a valid JAX array type"))
    else:
        raise Unsupported(f"asarray({type(x).__name__})")
    if dtype is not None:
        a = a.astype(dtype)
    return a


def size(shape):
    r = 1
    for s in shape:
        r *= s
    return r


def strides(shape):
    st = []
    acc = 1
    for s in reversed(shape):
        st.append(acc)
        acc *= s
    return list(reversed(st))


def bshape(*shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - n + len(s)
            if j >= 0 and s[j] != 1:
                if d != 1 and d != s[j]:
                    raise ProgError(TypeError(f"incompatible shapes for broadcasting: {shapes}"))
                d = s[j]
        out.append(d)
    # a dimension of size 0 broadcasts against 1
    for i in range(n):
        for s in shapes:
            j = i - n + len(s)
            if j >= 0 and s[j] == 0:
                out[i] = 0
    return tuple(out)


def bcast(a, shape):
    shape = tuple(shape)
    if a.shape == shape:
        return a
    if bshape(a.shape, shape) != shape:
        raise ProgError(ValueError(f"cannot broadcast {a.shape} to {shape}"))
    st = strides(a.shape)
    off = len(shape) - len(a.shape)
    out = []
    for idx in itertools.product(*[range(s) for s in shape]):
        k = 0
        for j, s in enumerate(a.shape):
            if s != 1:
                k += idx[off + j] * st[j]
        out.append(a.data[k])
    return Arr(shape, out, a.kind)


def normax(ax, nd):
    ax = as_static_int(ax)
    if not -nd <= ax < nd:
        raise ProgError(ValueError(f"axis {ax} is out of bounds for array of dimension {nd}"))
    return ax % nd


class ConcretizationTypeError(TypeError):
    pass


class TracerBoolConversionError(ConcretizationTypeError):
    pass


class TracerIntegerConversionError(TypeError):
    pass


class TracerArrayConversionError(TypeError):
    pass


class NonConcreteBooleanIndexError(IndexError):
    pass


class Tracing:
    """While on, symbolic array values stand for JAX tracers: the program may
    not turn them into Python numbers, truth values, indices or NumPy arrays."""

    on = False

    @classmethod
    def refuse(cls, exc, what):
        if cls.on:
            raise ProgError(exc(f"attempt to use a traced value as {what}"))


def known_int(x):
    """The value of an integer JAX takes traced as well."""
    return as_static_int(x, True)


def as_static_int(x, traced=False):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Arr) and x.size == 1:
        c = N.cval(x.data[0])
        if c is not None:
            if isinstance(c, bool):
                return int(c)
            if c.denominator == 1:
                return int(c)
    if isinstance(x, Arr) and not traced:
        Tracing.refuse(TracerIntegerConversionError, "a Python integer")
    raise Unsupported(f"dynamic integer {x!r}")


def ew(f, *xs, kind=None):
    """Element-wise application with broadcasting."""
    xs = [asarray(x) for x in xs]
    sh = bshape(*[x.shape for x in xs])
    xs = [bcast(x, sh) for x in xs]
    return Arr(sh, [f(*e) for e in zip(*[x.data for x in xs])], kind)


def num2(f):
    def g(x, y):
        x, y = asarray(x), asarray(y)
        k = promote(x.kind, y.kind)
        if k == "k":
            raise ProgError(TypeError("arithmetic on keys"))
        if k == "b":
            k = "i"
        return ew(f, x.cast(k), y.cast(k), kind=k)

    return g


def fl2(f):
    def g(x, y):
        return ew(f, asarray(x).cast("f"), asarray(y).cast("f"), kind="f")

    return g


a_add = num2(N.add)
a_sub = num2(N.sub)
a_mul = num2(N.mul)
a_div = fl2(N.div)


def _floordiv(x, y):
    if x.op == "const" and y.op == "const" and y.attr != 0:
        return N.const(x.attr // y.attr)
    return N.fun1("floor", N.div(x, y))


def _mod(x, y):
    if x.op == "const" and y.op == "const" and y.attr != 0:
        return N.const(x.attr % y.attr)
    if y.op == "const" and x.op in ("var", "app") and getattr(x, "_mod", None) == y.attr:
        return x
    return N.Node("mod", (x, y))


a_floordiv = num2(_floordiv)
a_mod = num2(_mod)


def _pow(x, y):
    c = N.cval(y)
    if c is not None and c.denominator == 1 and abs(c) <= 64:
        return N.ipow(x, int(c))
    if c == Fraction(1, 2):
        return N.sqrt(x)
    if c == Fraction(-1, 2):
        return N.inv(N.sqrt(x))
    if c is not None and (2 * c).denominator == 1 and abs(c) < 32:
        return N.ipow(N.sqrt(x), int(2 * c))
    return N.Node("pow", (x, y))


def a_pow(x, y):
    x, y = asarray(x), asarray(y)
    k = promote(x.kind, y.kind)
    if k == "b":
        k = "i"
    return ew(_pow, x.cast(k), y.cast(k), kind=k)


def _cmpk(f):
    def g(x, y):
        x, y = asarray(x), asarray(y)
        k = promote(x.kind, y.kind)
        return ew(f, x.cast(k), y.cast(k), kind="b")

    return g


def _c(op):
    def f(x, y):
        if x.sort == "b":
            if op == "eq":
                return N.bor(N.band(x, y), N.band(N.bnot(x), N.bnot(y)))
            x, y = N.b2r(x), N.b2r(y)
        return N.cmp(op, x, y)

    return f


a_lt = _cmpk(_c("lt"))
a_le = _cmpk(_c("le"))
a_eq = _cmpk(_c("eq"))


def a_gt(x, y):
    return a_lt(y, x)


def a_ge(x, y):
    return a_le(y, x)


def a_not(x):
    return ew(N.bnot, asarray(x).cast("b"), kind="b")


def a_ne(x, y):
    return a_not(a_eq(x, y))


def _bitop(fb, name):
    def g(x, y):
        x, y = asarray(x), asarray(y)
        if x.kind == "b" and y.kind == "b":
            return ew(fb, x, y, kind="b")
        if all(e.is_const for e in x.data + y.data):
            pf = {"and": operator.and_, "or": operator.or_, "xor": operator.xor}[name]
            return ew(lambda p, q: N.const(pf(int(p.attr), int(q.attr))), x, y, kind="i")
        return ew(lambda p, q: N.Node("bit" + name, (p, q)), x.cast("i"), y.cast("i"), kind="i")

    return g


def nxor(a, b):
    return N.bor(N.band(a, N.bnot(b)), N.band(N.bnot(a), b))


a_and = _bitop(N.band, "and")
a_or = _bitop(N.bor, "or")
a_xor = _bitop(nxor, "xor")


def where(c, a=None, b=None, **kw):
    if a is None:
        from .jaxmodel import jnp

        return jnp.nonzero(c, **kw)
    if b is None:
        raise ProgError(ValueError("Either both or neither of the x and y arguments should be provided to jnp.where"))
    c = asarray(c).cast("b")
    a, b = asarray(a), asarray(b)
    k = promote(a.kind, b.kind)
    return ew(N.ite, c, a.cast(k), b.cast(k), kind=k)


class At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, idx):
        return AtIdx(self.a, idx)


class AtIdx:
    def __init__(self, a, idx):
        self.a, self.idx = a, idx

    def _upd(self, f, v):
        a = self.a
        pos = a.index_positions(self.idx)
        v = asarray(v).cast(promote(a.kind, a.kind))
        v = bcast(v, pos[0]) if v.shape != pos[0] else v
        data = list(a.data)
        for p, x in zip(pos[1], v.data):
            data[p] = f(data[p], x)
        return Arr(a.shape, data, a.kind)

    def set(self, v, **kw):
        v = asarray(v)
        if v.kind != self.a.kind:
            v = v.cast(self.a.kind)
        try:
            self.a.index_positions(self.idx)
        except Unsupported:
            return self._dynset(v)
        return self._upd(lambda o, n: n, v)

    def _dynset(self, v):
        idx = self.idx if isinstance(self.idx, tuple) else (self.idx,)
        i = idx[0]
        if len(idx) == 1 and isinstance(i, Arr) and i.kind == "b" and v.ndim == 0 and i.shape == self.a.shape[: i.ndim]:
            m = i.reshape(i.shape + (1,) * (self.a.ndim - i.ndim))
            return where(m, v, self.a)
        if not isinstance(i, Arr) or i.shape != () or any(isinstance(j, Arr) for j in idx[1:]):
            raise Unsupported("scatter with dynamic index")
        out = []
        for k in range(self.a.shape[0]):
            row = self.a[k]
            new = AtIdx(row, idx[1:]).set(v) if idx[1:] else bcast(v, row.shape)
            out.append(where(a_eq(i, k), new, row))
        from .arr import stack

        return stack(out)

    def add(self, v, **kw):
        return self._upd(N.add, v)

    def subtract(self, v, **kw):
        return self._upd(N.sub, v)

    def mul(self, v, **kw):
        return self._upd(N.mul, v)

    multiply = mul

    def divide(self, v, **kw):
        return self._upd(N.div, v)

    def min(self, v, **kw):
        return self._upd(lambda a, b: N.lat("min", [a, b]), v)

    def max(self, v, **kw):
        return self._upd(lambda a, b: N.lat("max", [a, b]), v)

    def get(self, **kw):
        return self.a[self.idx]

    def apply(self, f):
        r = f(self.a[self.idx])
        return self.set(r)


class Arr:
    __slots__ = ("shape", "data", "kind")
    __array_priority__ = 100

    def __init__(self, shape, data, kind):
        self.shape = tuple(shape)
        self.data = list(data)
        self.kind = kind
        assert len(self.data) == size(self.shape), (self.shape, len(self.data))

    # ------------------------------------------------------------- basics
    @property
    def size(self):
        return len(self.data)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return {"f": F32, "i": I32, "b": BOOL, "k": KEY, "l": LOWF}[self.kind]

    @property
    def weak_type(self):
        return False

    @property
    def T(self):
        return transpose(self)

    mT = T

    @property
    def at(self):
        return At(self)

    @property
    def real(self):
        return self

    @property
    def aval(self):
        return self

    def __repr__(self):
        if self.shape == ():
            return f"Arr({self.data[0]!r})"
        return f"Arr{self.shape}{self.data!r}"

    def cast(self, k):
        if k == self.kind:
            return self
        d = self.data
        if k in ("f", "i"):
            if self.kind == "b":
                d = [N.b2r(x) for x in d]
            elif k == "i" and self.kind in ("f", "l"):
                d = [N.const(math.trunc(x.attr)) if x.op == "const" else N.fun1("icast", x) if not (x.op == "const" and x.attr.denominator == 1) else x for x in d]
        elif k == "b":
            if self.kind in ("f", "i", "l"):
                d = [N.r2b(x) for x in d]
        elif k == "l":
            d = [N.fun1("lowp", x if x.sort == "r" else N.b2r(x)) for x in d]
        if self.kind == "k" or k == "k":
            raise Unsupported("cast of keys")
        return Arr(self.shape, d, k)

    def astype(self, dt, **kw):
        dt = dtype_of(dt)
        a = self.cast(dt.kind)
        if dt.lo is not None:
            w = dt.hi - dt.lo + 1
            a = Arr(a.shape, [N.const((int(x.attr) - dt.lo) % w + dt.lo) if x.op == "const" and not dt.lo <= x.attr <= dt.hi else x for x in a.data], "i")
        return a

    def item(self, *a):
        if a:
            return self.reshape(-1)[a[0]].item()
        if self.size != 1:
            raise ProgError(TypeError("only size-1 arrays can be converted"))
        c = N.cval(self.data[0])
        if c is None:
            Tracing.refuse(ConcretizationTypeError, "a Python number")
            return Arr((), self.data, self.kind)
        if isinstance(c, bool):
            return c
        return int(c) if c.denominator == 1 and self.kind == "i" else float(c)

    def tolist(self):
        if self.shape == ():
            return self.item()
        return [x.tolist() for x in self]

    def __len__(self):
        if not self.shape:
            raise ProgError(TypeError("len() of unsized object"))
        return self.shape[0]

    def __iter__(self):
        if not self.shape:
            raise ProgError(TypeError("iteration over a 0-d array"))
        return iter([self[i] for i in range(self.shape[0])])

    def __bool__(self):
        if self.size == 1:
            e = self.data[0]
            c = N.cval(e)
            if c is not None:
                return bool(c)
            Tracing.refuse(TracerBoolConversionError, "a Python truth value")
            from .interp import Interp

            if Interp.current is not None:
                return Interp.current.decide(self)
        raise Unsupported("truth value of a symbolic array")

    def __index__(self):
        return as_static_int(self)

    def __int__(self):
        c = N.cval(self.data[0]) if self.size == 1 else None
        return math.trunc(c) if isinstance(c, Fraction) else as_static_int(self)

    def __float__(self):
        c = N.cval(self.data[0]) if self.size == 1 else None
        if c is None:
            Tracing.refuse(ConcretizationTypeError, "a Python float")
            raise Unsupported("float() of a symbolic array")
        return float(c)

    def __hash__(self):
        return id(self)

    # --------------------------------------------------------- arithmetic
    def __add__(self, o):
        return NI(a_add, self, o)

    def __radd__(self, o):
        return NI(a_add, o, self)

    def __sub__(self, o):
        return NI(a_sub, self, o)

    def __rsub__(self, o):
        return NI(a_sub, o, self)

    def __mul__(self, o):
        return NI(a_mul, self, o)

    def __rmul__(self, o):
        return NI(a_mul, o, self)

    def __truediv__(self, o):
        return NI(a_div, self, o)

    def __rtruediv__(self, o):
        return NI(a_div, o, self)

    def __floordiv__(self, o):
        return NI(a_floordiv, self, o)

    def __rfloordiv__(self, o):
        return NI(a_floordiv, o, self)

    def __mod__(self, o):
        return NI(a_mod, self, o)

    def __rmod__(self, o):
        return NI(a_mod, o, self)

    def __pow__(self, o):
        return NI(a_pow, self, o)

    def __rpow__(self, o):
        return NI(a_pow, o, self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __neg__(self):
        return ew(N.neg, self.cast("i") if self.kind == "b" else self, kind=self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return ew(N.fabs, self, kind=self.kind)

    def __lt__(self, o):
        return NI(a_lt, self, o)

    def __le__(self, o):
        return NI(a_le, self, o)

    def __gt__(self, o):
        return NI(a_gt, self, o)

    def __ge__(self, o):
        return NI(a_ge, self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, dict)):
            return False
        return NI(a_eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, dict)):
            return True
        return NI(a_ne, self, o)

    def __and__(self, o):
        return NI(a_and, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return NI(a_or, self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return NI(a_xor, self, o)

    __rxor__ = __xor__

    def __invert__(self):
        if self.kind == "b":
            return a_not(self)
        raise Unsupported("bitwise not of integers")

    def __divmod__(self, o):
        return (self // o, self % o)

    # ----------------------------------------------------------- indexing
    def _expand_index(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = tuple(asarray(i) if isinstance(i, list) else i for i in idx)
        n = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if any(isinstance(i, Arr) and i.kind == "b" for i in idx):
            exp = []
            for i in idx:
                if isinstance(i, Arr) and i.kind == "b":
                    if i.ndim == 0 or not all(e.is_const for e in i.data):
                        Tracing.refuse(NonConcreteBooleanIndexError, "a boolean mask index")
                        raise Unsupported("boolean mask indexing")
                    hits = [p for p, e in zip(itertools.product(*[range(d) for d in i.shape]), i.data) if e.attr]
                    exp.extend(Arr((len(hits),), [N.const(p[k]) for p in hits], "i") for k in range(i.ndim))
                else:
                    exp.append(i)
            idx = tuple(exp)
            n = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if sum(1 for i in idx if i is Ellipsis) == 0:
            idx = idx + (Ellipsis,)
        out = []
        for i in idx:
            if i is Ellipsis:
                out.extend([slice(None)] * (self.ndim - n))
            else:
                out.append(i)
        if n > self.ndim:
            raise ProgError(IndexError("too many indices for array"))
        return out

    def index_positions(self, idx):
        """(result shape, flat positions); Unsupported for dynamic indices."""
        idx = self._expand_index(idx)
        st = strides(self.shape)
        arrs = [i for i in idx if isinstance(i, Arr) and i.ndim > 0]
        if len(arrs) > 1 or any(i.ndim > 1 for i in arrs):
            return self._adv_positions(idx, st)
        dims = []  # (size, list of offsets) per result dim or None
        base = 0
        ax = 0
        adv = []
        for i in idx:
            if i is None:
                dims.append([0])
                continue
            d = self.shape[ax]
            if isinstance(i, slice):
                s = slice(*[None if v is None else as_static_int(v) for v in (i.start, i.stop, i.step)])
                dims.append([k * st[ax] for k in range(*s.indices(d))])
            elif isinstance(i, Arr) and i.ndim > 0:
                adv.append(len(dims))
                if i.ndim != 1:
                    raise Unsupported("n-d integer indexing")
                offs = []
                for e in i.data:
                    k = known_int(Arr((), [e], i.kind))
                    k = k % d if k < 0 else k
                    offs.append(min(max(k, 0), d - 1) * st[ax])
                dims.append(offs)
            else:
                dyn = isinstance(i, Arr)
                k = known_int(i)
                if k < 0:
                    k += d
                if dyn:
                    k = min(max(k, 0), d - 1) if d else k
                if not 0 <= k < d:
                    raise ProgError(IndexError(f"index {k} is out of bounds for axis {ax} with size {d}"))
                base += k * st[ax]
            ax += 1
        if len(adv) > 1:
            raise Unsupported("several integer-array indices")
        shape = tuple(len(x) for x in dims)
        pos = [base + sum(c) for c in itertools.product(*dims)]
        return shape, pos

    def _adv_positions(self, idx, st):
        """Indexing with several integer arrays (all known)."""
        isadv = [isinstance(i, (Arr, int)) and not isinstance(i, bool) for i in idx]
        where_ = [k for k, f in enumerate(isadv) if f]
        adjacent = where_ == list(range(where_[0], where_[-1] + 1))
        sh = bshape(*[asarray(i).shape for i, f in zip(idx, isadv) if f])
        offs = [0] * size(sh)
        dims, at = [], None
        ax = 0
        for i, f in zip(idx, isadv):
            if i is None:
                dims.append([0])
                continue
            d = self.shape[ax]
            if f:
                if at is None:
                    at = len(dims)
                for q, e in enumerate(bcast(asarray(i), sh).data):
                    k = known_int(Arr((), [e], "i"))
                    k = k + d if k < 0 else k
                    offs[q] += min(max(k, 0), d - 1) * st[ax]
            else:
                s = slice(*[None if v is None else as_static_int(v) for v in (i.start, i.stop, i.step)])
                dims.append([k * st[ax] for k in range(*s.indices(d))])
            ax += 1
        at = at if adjacent else 0
        pre, post = dims[:at], dims[at:]
        shape = tuple(len(x) for x in pre) + tuple(sh) + tuple(len(x) for x in post)
        return shape, [sum(c) for c in itertools.product(*pre, offs, *post)]

    def __getitem__(self, idx):
        tup = idx if isinstance(idx, tuple) else (idx,)
        for j, i in enumerate(tup):
            if isinstance(i, Arr) and not all(e.is_const for e in i.data):
                return self._dyn_get(tup, j)
        shape, pos = self.index_positions(idx)
        return Arr(shape, [self.data[p] for p in pos], self.kind)

    def _dyn_get(self, tup, j):
        i = tup[j]
        if i.kind == "b":
            if i.ndim:
                Tracing.refuse(NonConcreteBooleanIndexError, "a boolean mask index")
            raise Unsupported("boolean mask indexing")
        if any(t is None or t is Ellipsis for t in tup[:j]):
            raise Unsupported("dynamic index after None/Ellipsis")
        ax = j
        d = self.shape[ax]
        opts = []
        for k in range(d):
            opts.append(self[tup[:j] + (k,) + tup[j + 1:]])
        if i.ndim == 0:
            return gather(i.data[0], opts)
        if i.ndim == 1 and j == 0:
            return stack([gather(e, opts) for e in i.data])
        raise Unsupported("n-d dynamic indexing")

    # ------------------------------------------------------------ methods
    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [as_static_int(s) for s in shape]
        if -1 in shape:
            k = 1
            for s in shape:
                if s != -1:
                    k *= s
            shape[shape.index(-1)] = self.size // k if k else 0
        if size(shape) != self.size:
            raise ProgError(TypeError(f"cannot reshape array of size {self.size} into {shape}"))
        return Arr(shape, self.data, self.kind)

    def flatten(self, *a):
        return self.reshape(-1)

    ravel = flatten

    def squeeze(self, axis=None):
        if axis is None:
            return Arr([s for s in self.shape if s != 1], self.data, self.kind)
        axs = axis if isinstance(axis, tuple) else (axis,)
        axs = {normax(a, self.ndim) for a in axs}
        return Arr([s for k, s in enumerate(self.shape) if k not in axs], self.data, self.kind)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes or None)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        a, b = normax(a, self.ndim), normax(b, self.ndim)
        p[a], p[b] = p[b], p[a]
        return transpose(self, p)

    def sum(self, axis=None, **kw):
        return reduce_(self, "sum", axis, **kw)

    def prod(self, axis=None, **kw):
        return reduce_(self, "prod", axis, **kw)

    def min(self, axis=None, **kw):
        return reduce_(self, "min", axis, **kw)

    def max(self, axis=None, **kw):
        return reduce_(self, "max", axis, **kw)

    def mean(self, axis=None, **kw):
        return reduce_(self, "mean", axis, **kw)

    def all(self, axis=None, **kw):
        return reduce_(self, "all", axis, **kw)

    def any(self, axis=None, **kw):
        return reduce_(self, "any", axis, **kw)

    def dot(self, o, **kw):
        return dot(self, o)

    def argmin(self, axis=None, **kw):
        return argm("argmin", self, axis)

    def argmax(self, axis=None, **kw):
        return argm("argmax", self, axis)

    def copy(self):
        return self

    def block_until_ready(self):
        return self

    def conj(self):
        return self

    conjugate = conj

    def clip(self, min=None, max=None):
        from .jaxmodel import jnp

        return jnp.clip(self, min, max)

    def repeat(self, n, axis=None, **kw):
        from .jaxmodel import jnp

        return jnp.repeat(self, n, axis=axis)

    def take(self, i, axis=None, **kw):
        from .jaxmodel import jnp

        return jnp.take(self, i, axis=axis)

    def round(self, d=0):
        return ew(lambda e: N.fun1("round", e), self, kind=self.kind)

    def __getattr__(self, k):
        if k not in _METHODS:
            raise AttributeError(k)
        from .jaxmodel import jnp

        f = getattr(jnp, k)
        return lambda *a, **kw: f(self, *a, **kw)


_METHODS = frozenset("cumsum cumprod std var sort argsort diagonal trace searchsorted nonzero ptp choose compress".split())


def NI(f, a, b):
    for o in (a, b):
        if not isinstance(o, (Arr, bool, int, float, Fraction, list)):
            if isinstance(o, (tuple,)) or hasattr(o, "__abs_array__"):
                continue
            return NotImplemented
    return f(a, b)


def gather(idx, opts):
    shape, kind = opts[0].shape, opts[0].kind
    out = []
    for es in zip(*[o.data for o in opts]):
        if len(es) == 1 or all(e is es[0] for e in es):
            out.append(es[0])
        else:
            out.append(N.Node("gather", (idx,) + tuple(es), None, es[0].sort))
    return Arr(shape, out, kind)


def transpose(a, axes=None):
    a = asarray(a)
    axes = list(axes) if axes is not None else list(reversed(range(a.ndim)))
    axes = [normax(x, a.ndim) for x in axes]
    sh = [a.shape[x] for x in axes]
    st = strides(a.shape)
    out = []
    for idx in itertools.product(*[range(s) for s in sh]):
        out.append(a.data[sum(i * st[x] for i, x in zip(idx, axes))])
    return Arr(sh, out, a.kind)


def stack(xs, axis=0, **kw):
    xs = [asarray(x) for x in (list(xs) if not isinstance(xs, Arr) else list(xs))]
    if not xs:
        raise ProgError(ValueError("need at least one array to stack"))
    if any(x.shape != xs[0].shape for x in xs):
        raise ProgError(ValueError("all input arrays must have the same shape"))
    k = promote(*[x.kind for x in xs])
    r = Arr((len(xs),) + xs[0].shape, [e for x in xs for e in x.cast(k).data], k)
    ax = normax(axis, r.ndim)
    if ax:
        p = list(range(1, r.ndim))
        p.insert(ax, 0)
        r = transpose(r, p)
    return r


def concatenate(xs, axis=0, **kw):
    xs = [asarray(x) for x in xs]
    if not xs:
        raise ProgError(ValueError("need at least one array to concatenate"))
    if axis is None:
        xs = [x.reshape(-1) for x in xs]
        axis = 0
    nd = xs[0].ndim
    if nd == 0:
        raise ProgError(ValueError("zero-dimensional arrays cannot be concatenated"))
    ax = normax(axis, nd)
    k = promote(*[x.kind for x in xs])
    xs = [x.cast(k) for x in xs]
    for x in xs:
        if x.ndim != nd or any(x.shape[i] != xs[0].shape[i] for i in range(nd) if i != ax):
            raise ProgError(TypeError(f"cannot concatenate shapes {[y.shape for y in xs]}"))
    if ax == 0:
        return Arr((sum(x.shape[0] for x in xs),) + xs[0].shape[1:], [e for x in xs for e in x.data], k)
    p = list(range(nd))
    p[0], p[ax] = p[ax], p[0]
    return transpose(concatenate([transpose(x, p) for x in xs], 0), p)


def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return sorted({normax(x, a.ndim) for x in axis})
    return [normax(axis, a.ndim)]


def reduce_(a, op, axis=None, keepdims=False, initial=None, where=None, dtype=None, out=None, **kw):
    a = asarray(a)
    if where is not None and where is not True:
        m = asarray(where)
        from . import arr as A

        idv = {"sum": 0, "prod": 1, "all": True, "any": False}.get(op)
        if idv is None:
            raise Unsupported("reduction with where")
        a = A.where(m, a, idv)
    axs = _axes(a, axis)
    keep = [i for i in range(a.ndim) if i not in axs]
    t = transpose(a, keep + axs) if a.ndim else a
    m = size([a.shape[i] for i in axs])
    nout = size([a.shape[i] for i in keep])
    rows = [t.data[i * m:(i + 1) * m] for i in range(nout)]
    kind = a.kind
    if op in ("sum", "prod", "mean"):
        if kind == "b":
            rows = [[N.b2r(e) for e in r] for r in rows]
            kind = "i"
        f = N.mul if op == "prod" else N.add
        z = N.const(1 if op == "prod" else 0)
        res = []
        for r in rows:
            acc = z
            for e in r:
                acc = f(acc, e)
            if op == "mean":
                acc = N.div(acc, N.const(m))
            res.append(acc)
        if op == "mean":
            kind = "f"
    elif op in ("min", "max"):
        if m == 0 and initial is None:
            raise ProgError(ValueError("zero-size array to reduction operation"))
        if kind == "b":
            f = N.band if op == "min" else N.bor
            if initial is not None:
                rows = [r + [asarray(initial).cast("b").data[0]] for r in rows]
                initial = None
            res = []
            for r in rows:
                acc = r[0]
                for e in r[1:]:
                    acc = f(acc, e)
                res.append(acc)
        else:
            res = [N.lat(op, r + ([asarray(initial).data[0]] if initial is not None else [])) for r in rows]
            initial = None
    elif op in ("all", "any"):
        f = N.band if op == "all" else N.bor
        rows = [[e if e.sort == "b" else N.r2b(e) for e in r] for r in rows]
        res = []
        for r in rows:
            acc = N.bconst(op == "all")
            for e in r:
                acc = f(acc, e)
            res.append(acc)
        kind = "b"
    else:
        raise Unsupported(f"reduction {op}")
    if initial is not None:
        z = asarray(initial).data[0]
        res = [(N.mul if op == "prod" else N.add)(z, e) for e in res]
    sh = tuple(1 if i in axs else a.shape[i] for i in range(a.ndim)) if keepdims else tuple(a.shape[i] for i in keep)
    r = Arr(sh, res, kind)
    return r.astype(dtype) if dtype is not None else r


def argm(name, a, axis=None):
    a = asarray(a)
    if axis is None:
        es = a.data
        if not es:
            raise ProgError(ValueError("attempt to get argmin of an empty sequence"))
        if len(es) == 1:
            return Arr((), [N.const(0)], "i")
        c = [N.cval(e) for e in es]
        if all(isinstance(x, (bool, int, Fraction)) for x in c):
            return Arr((), [N.const(c.index((min if name == "argmin" else max)(c)))], "i")
        return Arr((), [N.app(name, tuple(es), rng=(0, len(es) - 1))], "i")
    ax = normax(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i != ax]
    t = transpose(a, keep + [ax])
    m = a.shape[ax]
    out = []
    for i in range(size([a.shape[k] for k in keep])):
        out.append(argm(name, Arr((m,), t.data[i * m:(i + 1) * m], a.kind)).data[0])
    return Arr([a.shape[k] for k in keep], out, "i")


def dot(a, b, **kw):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a_mul(a, b)
    return tensordot_last(a, b, a.ndim - 1, max(b.ndim - 2, 0))


def tensordot_last(a, b, ax, bx):
    k = promote(a.kind, b.kind)
    if k == "b":
        k = "i"
    a, b = a.cast(k), b.cast(k)
    if a.shape[ax] != b.shape[bx]:
        raise ProgError(TypeError(f"dot: incompatible shapes {a.shape} {b.shape}"))
    ka = [i for i in range(a.ndim) if i != ax]
    kb = [i for i in range(b.ndim) if i != bx]
    ta, tb = transpose(a, ka + [ax]), transpose(b, kb + [bx])
    m = a.shape[ax]
    ra = [ta.data[i * m:(i + 1) * m] for i in range(size([a.shape[i] for i in ka]))]
    rb = [tb.data[i * m:(i + 1) * m] for i in range(size([b.shape[i] for i in kb]))]
    out = []
    for r in ra:
        for s in rb:
            acc = N.const(0)
            for x, y in zip(r, s):
                acc = N.add(acc, N.mul(x, y))
            out.append(acc)
    return Arr([a.shape[i] for i in ka] + [b.shape[i] for i in kb], out, k)


def matmul(a, b, **kw):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ProgError(TypeError("matmul of a scalar"))
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    sa = a.shape[:-2] if a.ndim > 2 else ()
    sb = b.shape[:-2] if b.ndim > 2 else ()
    sh = bshape(sa, sb)
    a2 = bcast(a, sh + a.shape[-2:]) if a.ndim >= 2 else a
    b2 = bcast(b, sh + b.shape[-2:]) if b.ndim >= 2 else b
    outs = []
    for idx in itertools.product(*[range(s) for s in sh]):
        outs.append(dot(a2[idx] if a2.ndim > 2 else a2, b2[idx] if b2.ndim > 2 else b2))
    r = stack(outs)
    return r.reshape(*(tuple(sh) + outs[0].shape))


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported("einsum operand form")
    ops = [asarray(o) for o in ops]
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = ins.replace(",", "")
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ProgError(ValueError("einsum dimension mismatch"))
        for c, d in zip(s, o.shape):
            if dims.setdefault(c, d) != d:
                raise ProgError(ValueError("einsum size mismatch"))
    con = [c for c in dims if c not in out]
    res = []
    k = promote(*[o.kind for o in ops])
    ops = [o.cast("i" if k == "b" else k) for o in ops]
    sts = [strides(o.shape) for o in ops]
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        acc = N.const(0)
        for ci in itertools.product(*[range(dims[c]) for c in con]):
            env.update(zip(con, ci))
            t = N.const(1)
            for s, o, st in zip(ins, ops, sts):
                t = N.mul(t, o.data[sum(env[c] * q for c, q in zip(s, st))])
            acc = N.add(acc, t)
        res.append(acc)
    return Arr([dims[c] for c in out], res, "i" if k == "b" else k)
