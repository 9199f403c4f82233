"""Abstract interpreter for the package under analysis (front end).

Static-stage values (Python objects) are propagated as constants, dynamic-stage
values (array elements) become value-graph nodes.  The package is never
imported: modules are read from /repo and walked as syntax trees.
"""
from __future__ import annotations

import ast
import builtins as hostb
import collections
import collections.abc as cabc
import contextlib
import copy as hostcopy
import functools
import itertools
import json as hostjson
import math
import operator
import os
import sys
import types
import typing as hosttyping
from fractions import Fraction

from . import contracts
from . import nodes as N
from .contracts import Contracts
from .arr import Arr, ConcretizationTypeError, Tracing, TracerIntegerConversionError, asarray, as_static_int, gather, DType
from .errors import AnchorMissing, Mismatch, ProgError, Undecided, Unsupported

sys.setrecursionlimit(100000)
REPO = os.environ.get("SA_REPO", "/repo")
PKG = "differt2d"


# ------------------------------------------------------------------ values
class XF(float):
    """A float constant with its exact decimal value."""

    __slots__ = ("fr",)

    def __new__(cls, fr):
        o = float.__new__(cls, float(fr))
        o.fr = Fraction(fr)
        return o

    def __repr__(self):
        return float.__repr__(self)

    def __hash__(self):
        return float.__hash__(self)


def _frac(o):
    if isinstance(o, XF):
        return o.fr
    if isinstance(o, bool) or isinstance(o, int):
        return Fraction(o)
    if isinstance(o, float):
        if o != o or o in (math.inf, -math.inf):
            return None
        return Fraction(repr(o))
    return NotImplemented


def _xop(name, f):
    fop = getattr(float, name)

    def g(self, o, *r):
        if isinstance(o, Arr):
            return NotImplemented
        b = _frac(o)
        if b is NotImplemented:
            return NotImplemented
        if b is None:
            return fop(float(self), float(o))
        try:
            v = f(self.fr, b)
        except ZeroDivisionError:
            raise
        if isinstance(v, (Fraction, int)) and not isinstance(v, bool):
            return XF(v)
        return v

    return g


def _fpow(a, b):
    if b.denominator == 1 and abs(b) < 64:
        return a ** int(b)
    return float(a) ** float(b)


for _n, _f in dict(
    __add__=operator.add, __radd__=lambda a, b: b + a, __sub__=operator.sub, __rsub__=lambda a, b: b - a,
    __mul__=operator.mul, __rmul__=lambda a, b: b * a, __truediv__=operator.truediv, __rtruediv__=lambda a, b: b / a,
    __pow__=_fpow, __rpow__=lambda a, b: _fpow(b, a),
).items():
    setattr(XF, _n, _xop(_n, _f))
XF.__neg__ = lambda self: XF(-self.fr)
XF.__pos__ = lambda self: self
XF.__abs__ = lambda self: XF(abs(self.fr))


class Frame:
    __slots__ = ("name", "file", "line")

    def __init__(self, name, file, line):
        self.name, self.file, self.line = name, file, line

    def where(self):
        return f"{self.file}:{self.line} in {self.name}"


class Scope:
    __slots__ = ("vars", "locals_", "parent", "module", "globals_", "nonlocals", "kind", "cls")

    def __init__(self, parent, module, locals_=None, kind="func", globals_=(), nonlocals=(), cls=None):
        self.vars = {}
        self.locals_ = locals_
        self.parent = parent
        self.module = module
        self.kind = kind
        self.globals_ = globals_
        self.nonlocals = nonlocals
        self.cls = cls


class _Unset:
    def __repr__(self):
        return "<unset>"


UNSET = _Unset()


class IFunc:
    """A function of the analysed program, closed over its scope."""

    def __init__(self, interp, node, scope, module, name, defaults, kwdefaults, cls=None):
        self.interp, self.node, self.scope, self.module = interp, node, scope, module
        self.__name__ = name.rsplit(".", 1)[-1]
        self.__qualname__ = name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls = cls
        self.__doc__ = ast.get_docstring(node, clean=False) if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else None
        self.__module__ = module.name
        self.__dict__.setdefault("__wrapped__", None)
        del self.__dict__["__wrapped__"]
        info = interp.fninfo(node)
        self.locals_, self.globals_, self.nonlocals, self.is_gen = info

    def __call__(self, *a, **k):
        return self.interp.call_ifunc(self, a, k)

    def clear_cache(self):
        return None

    def __repr__(self):
        return f"<function {self.__qualname__}>"


class BoundMethod:
    def __init__(self, func, self_):
        self.__func__, self.__self__ = func, self_
        self.__name__ = getattr(func, "__name__", "?")

    def __call__(self, *a, **k):
        return Interp.current.call(self.__func__, (self.__self__, *a), k)

    def __eq__(self, o):
        return isinstance(o, BoundMethod) and o.__func__ is self.__func__ and o.__self__ is self.__self__

    def __hash__(self):
        return hash((id(self.__func__), id(self.__self__)))

    def clear_cache(self):
        return None


class Field:
    def __init__(self, name, default=UNSET, default_factory=UNSET, converter=None, static=False, init=True, kw_only=False, compare=True):
        self.compare = compare
        self.name, self.default, self.default_factory, self.converter = name, default, default_factory, converter
        self.static, self.init, self.kw_only = static, init, kw_only


class FieldSpec:
    def __init__(self, **kw):
        self.kw = kw


class IClass:
    def __init__(self, name, bases=(), ns=None, module=None, is_module=False, kind=None):
        self.__name__ = name
        self.__qualname__ = name
        self.bases = tuple(bases)
        self.ns = ns if ns is not None else {}
        self.module = module
        self.own_fields = []
        self.kind = kind
        self.mro = self._c3()
        self.is_module = is_module or any(getattr(c, "is_module", False) for c in self.mro[1:])
        self.is_dataclass = False
        self.no_eq = False
        self.frozen = self.is_module
        self.protocol = kind == "protocol"
        self.metaclass = None

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise ProgError(TypeError("Cannot create a consistent MRO"))
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    s.pop(0)

    @property
    def host_exc(self):
        for c in self.mro:
            if c.kind == "exc":
                return c.ns["__host__"]
        return None

    def lookup(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.ns:
                return c.ns[name]
        return UNSET

    def all_fields(self):
        out = {}
        for c in reversed(self.mro):
            for f in c.own_fields:
                out[f.name] = f
        return list(out.values())

    def issub(self, o):
        return o in self.mro

    def __call__(self, *a, **k):
        return Interp.current.instantiate(self, a, k)

    def enum_members(self):
        return self.ns.get("__members__", {})

    def __iter__(self):
        if self.kind == "enum":
            return iter([m for k, m in self.enum_members().items() if m.fields["_name_"] == k])
        raise ProgError(TypeError(f"'type' object is not iterable"))

    def __len__(self):
        if self.kind == "enum":
            return len(list(iter(self)))
        raise ProgError(TypeError("object of type 'type' has no len()"))

    def __bool__(self):
        return True

    def __contains__(self, x):
        if self.kind == "enum":
            return isinstance(x, Inst) and x.cls is self or any(_eq(m.fields["_value_"], x) for m in self)
        raise ProgError(TypeError("argument of type 'type' is not iterable"))

    def __reversed__(self):
        return reversed(list(iter(self)))

    def __getattr__(self, k):
        if k.startswith("__") and k not in ("__members__",):
            raise AttributeError(k)
        if "ns" not in self.__dict__:
            raise AttributeError(k)
        return Interp.current.getattr(self, k)

    def __getitem__(self, k):
        if self.kind == "enum" and self.enum_members():
            m = self.enum_members()
            if k not in m:
                raise ProgError(KeyError(k))
            return m[k]
        return self

    def __or__(self, o):
        return TypeForm("union", (self, o))

    def __ror__(self, o):
        return TypeForm("union", (o, self))

    def __repr__(self):
        return f"<class {self.__name__}>"


def _dunder(name, default=None):
    def g(self, *a, **k):
        m = self.cls.lookup(name)
        if m is UNSET:
            if default is None:
                raise ProgError(TypeError(f"'{self.cls.__name__}' object does not support {name}"))
            return default(self, *a, **k)
        it = Interp.current
        return it.call(it.bind(m, self, self.cls), a, k)

    return g


def _ni(name):
    def g(self, o):
        m = self.cls.lookup(name)
        if m is UNSET:
            return NotImplemented
        it = Interp.current
        return it.call(it.bind(m, self, self.cls), (o,), {})

    return g


class Inst:
    """An instance of a class of the analysed program."""

    def __init__(self, cls, fields=None):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "fields", fields if fields is not None else {})
        object.__setattr__(self, "initing", False)

    def __getattr__(self, k):
        if k.startswith("__") and k not in ("__name__",):
            raise AttributeError(k)
        try:
            return Interp.current.getattr(self, k)
        except ProgError as e:
            if isinstance(e.exc, AttributeError):
                raise AttributeError(k)
            raise

    def __setattr__(self, k, v):
        Interp.current.setattr(self, k, v)

    __getitem__ = _dunder("__getitem__")
    __setitem__ = _dunder("__setitem__")
    __call__ = _dunder("__call__")
    __len__ = _dunder("__len__")
    __delitem__ = _dunder("__delitem__")
    __pos__ = _dunder("__pos__")
    __invert__ = _dunder("__invert__")
    __index__ = _dunder("__index__")
    __int__ = _dunder("__int__")
    __float__ = _dunder("__float__")
    __reversed__ = _dunder("__reversed__")
    __contains__ = _dunder("__contains__", lambda self, x: any(_eq(x, y) for y in iter(self)))
    __enter__ = _dunder("__enter__")
    __exit__ = _dunder("__exit__")
    __next__ = _dunder("__next__")
    __neg__ = _dunder("__neg__")
    __abs__ = _dunder("__abs__")
    for _n in ("add", "sub", "mul", "truediv", "matmul", "floordiv", "mod", "pow", "and", "or", "xor", "lt", "le", "gt", "ge"):
        locals()[f"__{_n}__"] = _ni(f"__{_n}__")
        if _n not in ("lt", "le", "gt", "ge"):
            locals()[f"__r{_n}__"] = _ni(f"__r{_n}__")
    del _n

    def __iter__(self):
        m = self.cls.lookup("__iter__")
        it = Interp.current
        if m is UNSET:
            if self.cls.lookup("__getitem__") is not UNSET:
                def g():
                    i = 0
                    while True:
                        try:
                            v = self[i]
                        except ProgError as e:
                            if isinstance(e.exc, IndexError):
                                return
                            raise
                        yield v
                        i += 1
                return g()
            raise ProgError(TypeError(f"'{self.cls.__name__}' object is not iterable"))
        r = it.call(it.bind(m, self, self.cls), (), {})
        if isinstance(r, Inst):
            if r.cls.lookup("__next__") is UNSET:
                if r is self or r.cls.lookup("__iter__") is UNSET:
                    raise ProgError(TypeError(f"iter() returned non-iterator of type '{r.cls.__name__}'"))
                return iter(r)

            def nx():
                while True:
                    try:
                        v = it.call(it.getattr(r, "__next__"), (), {})
                    except ProgError as e:
                        if isinstance(e.exc, StopIteration):
                            return
                        raise
                    yield v

            return nx()
        return iter(r)

    def __bool__(self):
        m = self.cls.lookup("__bool__")
        it = Interp.current
        if m is not UNSET:
            return bool(it.call(it.bind(m, self, self.cls), (), {}))
        if self.cls.lookup("__len__") is not UNSET:
            return len(self) > 0
        return True

    def __eq__(self, o):
        m = self.cls.lookup("__eq__")
        if m is not UNSET:
            it = Interp.current
            return it.call(it.bind(m, self, self.cls), (o,), {})
        if self is o:
            return True
        if isinstance(o, Inst) and o.cls is self.cls and any(c.is_dataclass and not c.no_eq for c in self.cls.mro):
            fs = [f.name for f in self.cls.all_fields() if f.compare]
            return all(Interp.current.truth(_eq(self.fields.get(n), o.fields.get(n))) for n in fs)
        if self.cls.kind == "enum" and "_value_" in self.fields and self.cls.ns.get("__mixin__") is not None:
            return self.fields["_value_"] == (o.fields.get("_value_") if isinstance(o, Inst) else o)
        if self.cls.is_module and isinstance(o, Inst):
            from .jaxmodel import tree_equal

            return tree_equal(self, o)
        return False

    def __ne__(self, o):
        m = self.cls.lookup("__ne__")
        if m is not UNSET:
            it = Interp.current
            return it.call(it.bind(m, self, self.cls), (o,), {})
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, Arr) else not r

    def __hash__(self):
        it = Interp.current
        for c in self.cls.mro:
            if "__hash__" in c.ns:
                if c.ns["__hash__"] is None:
                    raise ProgError(TypeError(f"unhashable type: '{self.cls.__name__}'"))
                return it.call(it.bind(c.ns["__hash__"], self, self.cls), (), {})
            if "__eq__" in c.ns and c.module is not None or c.is_dataclass and not c.no_eq and not c.frozen:
                raise ProgError(TypeError(f"unhashable type: '{self.cls.__name__}'"))
            if c.is_dataclass and c.frozen and not c.no_eq:
                return hash(tuple(self.fields.get(f.name) for f in self.cls.all_fields()))
            if c.kind == "enum" and "_value_" in self.fields:
                return hash(self.fields["_value_"])
        return id(self) // 16

    def __repr__(self):
        it = Interp.current
        m = self.cls.lookup("__repr__")
        if m is not UNSET and it is not None:
            return it.call(it.bind(m, self, self.cls), (), {})
        n = self.cls.__name__
        if self.cls.kind == "enum" and "_name_" in self.fields:
            return f"<{n}.{self.fields['_name_']}: {self.fields['_value_']!r}>"
        if self.cls.host_exc is not None:
            a = self.fields.get("args", ())
            return f"{n}({', '.join(map(repr, a))})"
        if any(c.is_dataclass for c in self.cls.mro):
            return f"{n}({', '.join(f'{f.name}={self.fields.get(f.name)!r}' for f in self.cls.all_fields())})"
        return f"<{n}>"

    def __str__(self):
        it = Interp.current
        m = self.cls.lookup("__str__")
        if m is not UNSET and it is not None:
            return it.call(it.bind(m, self, self.cls), (), {})
        if self.cls.host_exc is not None:
            a = self.fields.get("args", ())
            return "" if not a else str(a[0]) if len(a) == 1 else str(a)
        if self.cls.kind == "enum" and "_name_" in self.fields:
            if self.cls.ns.get("__mixin__") is not None:
                return str(self.fields["_value_"])
            return f"{self.cls.__name__}.{self.fields['_name_']}"
        return repr(self)

    def __format__(self, spec):
        m = self.cls.lookup("__format__")
        if m is not UNSET:
            it = Interp.current
            return it.call(it.bind(m, self, self.cls), (spec,), {})
        return format(str(self), spec)


class Opaque:
    """An uninterpreted object supplied by a check (leaf knowledge only)."""

    cls = None
    tree = None

    def with_tree(self, leaves):
        return self


class TypeForm:
    """A typing construct; only useful as an annotation or a base class."""

    def __init__(self, name, args=(), base=None, check=None):
        self.__dict__.update(_name=name, args=args, base=base, check=check)

    def __getitem__(self, k):
        return TypeForm(self._name, k if isinstance(k, tuple) else (k,), self.base, self.check)

    def __call__(self, *a, **k):
        if self._name == "TypeVar":
            return TypeForm(a[0] if a else "T")
        if self.check is not None and isinstance(self.check, type):
            return self.check(*a, **k)
        return TypeForm(self._name)

    def __or__(self, o):
        return TypeForm("union", (self, o))

    def __ror__(self, o):
        return TypeForm("union", (o, self))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return TypeForm(f"{self._name}.{k}")

    def __iter__(self):
        # unpacking *Ts inside a subscript
        return iter((self,))

    def __repr__(self):
        return f"<type {self._name}>"


class Choice:
    """A static-stage value selected by a dynamic index."""

    def __init__(self, idx, opts):
        self.idx, self.opts = idx, list(opts)

    def map(self, f):
        vs = [f(o) for o in self.opts]
        if vs and all(isinstance(v, Arr) for v in vs) and all(v.shape == vs[0].shape for v in vs):
            return gather(self.idx, vs)
        return Choice(self.idx, vs)

    def __getitem__(self, k):
        return self.map(lambda o: o[k])

    def __iter__(self):
        n = {len(o) for o in self.opts}
        if len(n) != 1:
            raise Unsupported("iteration over values of different lengths")
        return iter([self.map(lambda o, i=i: o[i]) for i in range(n.pop())])

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self.map(lambda o: Interp.current.getattr(o, k))

    def __bool__(self):
        raise Unsupported("truth value of a dynamically chosen object")

    def __repr__(self):
        return f"Choice({self.idx!r}, {self.opts!r})"


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Prop:
    def __init__(self, fget, fset=None, fdel=None, *a):
        self.fget, self.fset, self.fdel = fget, fset, fdel

    def setter(self, f):
        return Prop(self.fget, f, self.fdel)

    def getter(self, f):
        return Prop(f, self.fset, self.fdel)

    def deleter(self, f):
        return Prop(self.fget, self.fset, f)


class CMeth:
    def __init__(self, f):
        self.f = f


def is_abstract(v):
    for _ in range(4):
        if getattr(v, "_sa_abstract", False):
            return True
        v = getattr(v, "f", None) or getattr(v, "fget", None)
        if v is None:
            return False
    return False


def enforces_abstract(cls):
    """abc's metaclass is in force (abc.ABC, equinox modules, the abstract containers, or given explicitly)"""
    return any(c.is_module or c.metaclass is not None or c.kind in ("mapping", "sequence", "protocol") or (not c.bases and c.__name__ in ("ABC", "Protocol")) for c in cls.mro)


class SMeth:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return Interp.current.call(self.f, a, k)


class EnumAuto:
    pass


class CachedFn:
    """functools.lru_cache: one result per distinct arguments, for good."""

    def __init__(self, f, maxsize=None, typed=False):
        self.f, self.maxsize, self.typed, self.memo = f, maxsize, typed, {}
        self.hits = self.misses = 0
        self.__name__ = getattr(f, "__name__", "?")
        self.__doc__ = getattr(f, "__doc__", None)
        self.__wrapped__ = f
        Interp.current.caches.append(self)

    def __call__(self, *a, **k):
        it = Interp.current
        key = (tuple(self.key(x) for x in a), tuple((n, self.key(x)) for n, x in k.items()))
        if self.typed:
            key += (tuple(id(it.type_of(x)) for x in a),)
        if key in self.memo:
            self.hits += 1
            return self.memo[key]
        self.misses += 1
        v = it.call(self.f, a, k)
        self.memo[key] = v
        if self.maxsize is not None and len(self.memo) > self.maxsize:
            self.memo.pop(next(iter(self.memo)), None)
        return v

    def key(self, x):
        it = Interp.current
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        it.hashable(x)
        if isinstance(x, Inst) and x.cls.is_module:
            from .jaxmodel import tree_leaves

            for y in tree_leaves(x):
                it.hashable(y)
        return x

    def cache_clear(self):
        self.memo.clear()

    def cache_info(self):
        return (self.hits, self.misses, self.maxsize, len(self.memo))


class CachedProp:
    def __init__(self, f):
        self.f = f


class SDM:
    """functools.singledispatchmethod / singledispatch."""

    def __init__(self, f, method=True):
        self.default, self.reg, self.method = f, [], method

    def register(self, cls, func=None):
        it = Interp.current
        if func is None and isinstance(cls, (IFunc, CMeth, SMeth)):
            f = cls
            inner = f.f if isinstance(f, (CMeth, SMeth)) else f
            args = inner.node.args
            alla = args.posonlyargs + args.args
            k = 1 if self.method and not isinstance(f, SMeth) else 0
            if len(alla) <= k or alla[k].annotation is None:
                raise ProgError(TypeError("Invalid first argument to `register()`"))
            t = it.eval(alla[k].annotation, inner.scope)
            for tt in (t.args if isinstance(t, TypeForm) and t._name in ("union", "Union") else (t,)):
                self.reg.append((tt, f))
            return f
        if func is None:
            return lambda f: self.register(cls, f)
        for tt in (cls.args if isinstance(cls, TypeForm) and cls._name in ("union", "Union") else (cls,)):
            self.reg.append((tt, func))
        return func

    def pick(self, x):
        it = Interp.current
        t = it.type_of(x)
        for c, f in reversed(self.reg):
            if c is t:
                return f
        for c, f in reversed(self.reg):
            if it.isinst(x, c):
                return f
        return self.default

    def __call__(self, *a, **k):
        return Interp.current.call(self.pick(a[0]), a, k)


class IModule:
    def __init__(self, name, file):
        self.name, self.file = name, file
        self.vars = {}
        self.watch = None
        self.tree = None

    def __repr__(self):
        return f"<module {self.name}>"


def _eq(a, b):
    r = a == b
    return bool(r)


class JsonDoc(str):
    """A text whose parsed content is given (json.loads returns the payload)."""

    def __new__(cls, payload, text="{}"):
        o = str.__new__(cls, text)
        o.payload = payload
        return o


class JsonBytes(bytes):
    def __new__(cls, payload):
        o = bytes.__new__(cls, b"{}")
        o.payload = payload
        return o

    def decode(self, *a, **k):
        return JsonDoc(self.payload)


class JsonByteArray(bytearray):
    def __init__(self, payload):
        bytearray.__init__(self, b"{}")
        self.payload = payload

    def decode(self, *a, **k):
        return JsonDoc(self.payload)


# ------------------------------------------------------- control signals
class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


PASS = (ProgError, Unsupported, Mismatch, Undecided, AnchorMissing, _Return, _Break, _Continue, GeneratorExit, KeyboardInterrupt, SystemExit)

BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
    ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
}
INPLACE = {
    ast.Add: "__iadd__", ast.Sub: "__isub__", ast.Mult: "__imul__", ast.Div: "__itruediv__", ast.FloorDiv: "__ifloordiv__", ast.Mod: "__imod__",
    ast.Pow: "__ipow__", ast.MatMult: "__imatmul__", ast.BitAnd: "__iand__", ast.BitOr: "__ior__", ast.BitXor: "__ixor__", ast.LShift: "__ilshift__", ast.RShift: "__irshift__",
}
CMPS = {
    ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne,
}
# public attributes of NumPy arrays, JAX arrays and JAX tracers
ARRAY_ATTRS = frozenset((
    "T addressable_data addressable_shards all any argmax argmin argpartition argsort astype at aval base block_until_ready byteswap "
    "choose clip clone committed compress conj conjugate copy copy_to_host_async ctypes cumprod cumsum data delete device device_buffer "
    "device_buffers devices diagonal dot dtype dump dumps fill flags flat flatten full_lower get_referent getfield global_shards imag "
    "is_deleted is_fully_addressable is_fully_replicated is_ready item itemset itemsize layout mT max mean min nbytes ndim newbyteorder "
    "nonzero on_device_size_in_bytes partition platform prod ptp put ravel real repeat reshape resize round searchsorted setfield "
    "setflags shape sharding size sort squeeze std strides sum swapaxes take to_concrete_value to_device tobytes tofile tolist tostring "
    "trace traceback transpose unsafe_buffer_pointer var view weak_type "
).split())
HOST_OK = (bool, int, float, str, bytes, bytearray, tuple, list, dict, set, frozenset, type(None), slice, range, type(Ellipsis))


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.locals, self.globals, self.nonlocals, self.gen = set(), set(), set(), False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)

    def visit_FunctionDef(self, n):
        self.locals.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.locals.add(n.name)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def _comp(self, n):
        # only walrus targets leak out of a comprehension
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.locals.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.locals.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.locals.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, n):
        if n.name:
            self.locals.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.locals.add(n.name)


class Interp:
    current: "Interp" = None
    entry = None  # last function of the package entered from a check

    def __init__(self, repo=None):
        Interp.current = self
        self.repo = repo or REPO
        self.modules = {}
        self._fninfo = {}
        self.reached = {}
        self.calls = 0
        self.decider = None
        self.on_global = None  # callback(kind, module, name, value)
        self.steps = 0
        self.max_steps = 40_000_000
        self.caches = []  # functools caches of the analysed program
        self.effects = []  # writes to objects after construction
        self.protected = {}  # id -> name of a container the caller still holds
        N.Loc.stack = [Frame("<check>", "<check>", 0)]
        from . import libs

        self.libs = libs.build(self)
        self.builtins = libs.build_builtins(self)

    # ------------------------------------------------------------- modules
    PARSED: dict = {}

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        parts = name.split(".")
        assert parts[0] == PKG
        base = os.path.join(self.repo, *parts)
        file = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(file):
            raise ProgError(ModuleNotFoundError(name))
        if len(parts) > 1:
            self.load(".".join(parts[:-1]))
        with open(file) as f:
            src = f.read()
        return self.load_source(name, src, file, parts)

    def load_source(self, name, src, file, parts):
        m = IModule(name, os.path.relpath(file, self.repo) if os.path.isabs(file) else file)
        m.vars.update(__name__=name, __file__=file, __doc__=None, __package__=name if file.endswith("__init__.py") else ".".join(parts[:-1]))
        self.modules[name] = m
        m.tree = self.PARSED.setdefault((name, src), None) or ast.parse(src)
        self.PARSED[(name, src)] = m.tree
        fr = Frame("<module>", m.file, 1)
        N.Loc.stack.append(fr)
        try:
            sc = Scope(None, m, kind="module")
            sc.vars = m.vars
            self.drive(self.block(m.tree.body, sc))
        finally:
            N.Loc.stack.pop()
        if len(parts) > 1 and ".".join(parts[:-1]) in self.modules:
            self.modules[".".join(parts[:-1])].vars[parts[-1]] = m
        return m

    def drive(self, g):
        for _ in g:
            raise Unsupported("yield outside a generator")

    def mod(self, short):
        return self.load(f"{PKG}.{short}")

    def get(self, short, *names):
        """Resolve a public anchor such as get('scene', 'Scene')."""
        m = self.mod(short)
        v = m.vars.get(names[0], UNSET)
        if v is UNSET:
            raise AnchorMissing(f"{PKG}.{short}.{names[0]}")
        for n in names[1:]:
            try:
                v = self.getattr(v, n)
            except ProgError:
                raise AnchorMissing(f"{PKG}.{short}.{'.'.join(names)}")
        return v

    def import_(self, name):
        if name == PKG or name.startswith(PKG + "."):
            return self.load(name)
        if name in self.libs:
            return self.libs[name]
        from .jaxmodel import Missing

        return Missing(name)

    # ------------------------------------------------------------ decisions
    def decide(self, a):
        if self.decider is None:
            from .chk import Auto

            return Auto.decide(a)
        return self.decider(a)

    # ------------------------------------------------------------ functions
    def fninfo(self, node):
        r = self._fninfo.get(node)
        if r is None:
            v = _Names()
            if isinstance(node, ast.Lambda):
                v.visit(node.body)
            else:
                for s in node.body:
                    v.visit(s)
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                v.locals.add(x.arg)
            v.locals -= v.globals | v.nonlocals
            r = (frozenset(v.locals), frozenset(v.globals), frozenset(v.nonlocals), v.gen)
            self._fninfo[node] = r
        return r

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npo = len(a.posonlyargs)
        vals = {}
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            raise ProgError(TypeError(f"{f.__qualname__}() takes {len(pos)} positional arguments but {len(args)} were given"))
        for n, v in zip(pos, args):
            vals[n] = v
        extra = args[len(pos):]
        kw = {}
        kwn = {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if (k in pos and pos.index(k) >= npo) or k in kwn:
                if k in vals:
                    raise ProgError(TypeError(f"{f.__qualname__}() got multiple values for argument '{k}'"))
                vals[k] = v
            elif a.kwarg is not None:
                kw[k] = v
            else:
                raise ProgError(TypeError(f"{f.__qualname__}() got an unexpected keyword argument '{k}'"))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise ProgError(TypeError(f"{f.__qualname__}() missing required argument: '{n}'"))
                vals[n] = f.defaults[j]
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vals:
                if d is UNSET:
                    raise ProgError(TypeError(f"{f.__qualname__}() missing required keyword-only argument: '{x.arg}'"))
                vals[x.arg] = d
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kw
        return vals

    def call_ifunc(self, f, args, kwargs):
        prev, Interp.current = Interp.current, self
        try:
            return self._call_ifunc(f, args, kwargs)
        finally:
            Interp.current = prev

    def _call_ifunc(self, f, args, kwargs):
        if Contracts.on and ("contract" in f.__dict__ or "jit" in f.__dict__):
            N.Loc.stack.append(Frame(f.__qualname__, f.module.file, f.node.lineno))
            try:
                args, kwargs, memo = contracts.enter(self, f, args, kwargs)
                if "contract" in f.__dict__:
                    r = self._run_ifunc(f, args, kwargs)
                    contracts.check_result(self, f, r, memo)
                    return r
            finally:
                N.Loc.stack.pop()
        return self._run_ifunc(f, args, kwargs)

    def _run_ifunc(self, f, args, kwargs):
        if Tracing.on and "jit" in f.__dict__:
            from .jaxmodel import trace_args

            N.Loc.stack.append(Frame(f.__qualname__, f.module.file, f.node.lineno))
            try:
                args, kwargs = trace_args(f, args, kwargs)
            finally:
                N.Loc.stack.pop()
        vals = self.bind_args(f, args, kwargs)
        sc = Scope(f.scope, f.module, f.locals_, "func", f.globals_, f.nonlocals, f.cls)
        sc.vars.update(vals)
        fr = Frame(f.__qualname__, f.module.file, f.node.lineno)
        key = (f.module.file, f.__qualname__)
        self.reached[key] = self.reached.get(key, 0) + 1
        if f.module.name.startswith(PKG) and (len(N.Loc.stack) <= 1 or N.Loc.stack[-1].where().startswith("<client")):
            Interp.entry = fr.where()
        if len(N.Loc.stack) > 400:
            raise Unsupported("recursion too deep")
        if isinstance(f.node, ast.Lambda):
            N.Loc.stack.append(fr)
            try:
                return self.eval(f.node.body, sc)
            finally:
                N.Loc.stack.pop()
        if f.is_gen:
            return self.make_gen(self.body(f.node.body, sc), fr)
        N.Loc.stack.append(fr)
        try:
            self.drive(self.block(f.node.body, sc))
            return None
        except _Return as r:
            return r.v
        finally:
            N.Loc.stack.pop()

    def body(self, stmts, sc):
        try:
            yield from self.block(stmts, sc)
        except _Return as r:
            return r.v

    def make_gen(self, g, fr):
        send = None
        thrown = None
        while True:
            N.Loc.stack.append(fr)
            depth = len(N.Loc.stack)
            try:
                v = g.throw(thrown) if thrown is not None else g.send(send)
            except StopIteration as s:
                return s.value
            finally:
                del N.Loc.stack[depth - 1:]
            thrown = None
            try:
                send = yield v
            except GeneratorExit:
                N.Loc.stack.append(fr)
                try:
                    g.close()
                finally:
                    N.Loc.stack.pop()
                raise
            except BaseException as e:
                thrown = e
                send = None

    # -------------------------------------------------------------- calling
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, IFunc):
            return self._call_ifunc(f, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.__func__, (f.__self__, *args), kwargs)
        if isinstance(f, IClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, CachedFn):
            return f(*args, **kwargs)
        if isinstance(f, Choice):
            return f.map(lambda g: self.call(g, args, kwargs))
        if isinstance(f, CMeth):
            raise ProgError(TypeError("'classmethod' object is not callable"))
        if not callable(f):
            raise ProgError(TypeError(f"'{type(f).__name__}' object is not callable"))
        return self.hostcall(f, args, kwargs)

    def hostcall(self, f, args, kwargs):
        try:
            if isinstance(f, type) and f in self.ctors:
                return self.ctors[f](*args, **kwargs)
            if isinstance(f, functools.partial):
                return self.call(f.func, (*f.args, *args), {**f.keywords, **kwargs})
            if self.protected:
                self.note_mutation(f)
            return f(*args, **kwargs)
        except PASS:
            raise
        except (RecursionError, MemoryError):
            raise Unsupported("recursion")
        except StopIteration as e:
            raise ProgError(e)
        except Exception as e:
            if self.is_pyhost(f):
                raise ProgError(e)
            raise Unsupported(f"model of {getattr(f, '__name__', f)}: {type(e).__name__}: {e}")

    PYHOST = {
        "builtins", "itertools", "functools", "operator", "math", "_operator", "_functools", "collections", "contextlib", "copy", "json", "string", "typing", "_collections_abc", "collections.abc", "re", "enum"}

    MUTATORS = {"pop", "popitem", "update", "setdefault", "clear", "append", "extend", "insert", "remove", "sort", "reverse", "add", "discard", "__setitem__", "__delitem__", "__ior__", "__iadd__"}

    def note_mutation(self, f, o=None, name=None):
        """A mutating call on a container the caller still holds, even one
        that changes nothing for the values at hand."""
        if o is None:
            o, name = getattr(f, "__self__", None), getattr(f, "__name__", "")
        if o is not None and id(o) in self.protected and name in self.MUTATORS:
            self.effects.append(("mutation", self.protected[id(o)], name, N.Loc.cur()))

    def is_pyhost(self, f):
        if getattr(f, "_sa_py", False):
            return True
        s = getattr(f, "__self__", None)
        if s is not None and (type(s) in HOST_OK or getattr(type(s), "_sa_dyn", False)) and not isinstance(s, types.ModuleType):
            return True
        if isinstance(f, type) and (f.__module__ in self.PYHOST):
            return True
        if isinstance(f, functools.partial):
            return self.is_pyhost(f.func)
        return getattr(f, "__module__", None) in self.PYHOST

    # ------------------------------------------------------------- classes
    def instantiate(self, cls, args, kwargs):
        new = cls.lookup("__new__")
        if cls.kind == "enum":
            if len(args) == 1 and cls.enum_members() and not kwargs:
                for m in cls:
                    if m is args[0] or self.truth(_eq(m.fields["_value_"], args[0])):
                        return m
                miss = cls.lookup("_missing_")
                if miss is not UNSET:
                    r = self.call(self.bind(miss, cls, cls), (args[0],))
                    if r is not None:
                        return r
                raise ProgError(ValueError(f"{args[0]!r} is not a valid {cls.__name__}"))
            raise Unsupported("functional Enum")
        if cls.host_exc is not None:
            o = Inst(cls, {"args": tuple(args)})
            init = cls.lookup("__init__")
            if init is not UNSET:
                self.call(init, (o, *args), kwargs)
            return o
        if enforces_abstract(cls):
            for c in cls.mro:
                for k, v in c.ns.items():
                    if is_abstract(v) and cls.lookup(k) is v:
                        raise ProgError(TypeError(f"Can't instantiate abstract class {cls.__name__} without an implementation for abstract method '{k}'"))
        if cls.protocol:
            raise ProgError(TypeError("Protocols cannot be instantiated"))
        if new is not UNSET:
            o = self.call(new.f if isinstance(new, SMeth) else new, (cls, *args), kwargs)
            if not isinstance(o, Inst):
                return o
        else:
            o = Inst(cls)
        object.__setattr__(o, "initing", True)
        try:
            init = cls.lookup("__init__")
            fs = cls.all_fields()
            if init is not UNSET and not getattr(init, "_sa_objinit", False):
                self.call(self.bind(init, o, cls), args, kwargs)
                for f in fs:
                    if cls.is_module and f.converter is not None and f.name in o.fields:
                        o.fields[f.name] = self.call(f.converter, (o.fields[f.name],))
            elif cls.is_module or any(c.is_dataclass for c in cls.mro):
                self.dataclass_init(o, cls, fs, args, kwargs)
                pi = cls.lookup("__post_init__")
                if pi is not UNSET:
                    self.call(pi, (o,))
            elif args or kwargs:
                raise ProgError(TypeError(f"{cls.__name__}() takes no arguments"))
            if cls.is_module:
                for f in fs:
                    if f.name not in o.fields:
                        raise ProgError(ValueError(f"field {f.name} was not initialised"))
                for c in cls.mro:
                    if "__check_init__" in c.ns:
                        self.call(c.ns["__check_init__"], (o,))
            if Contracts.on and cls.__dict__.get("contract"):
                contracts.check_fields(self, o)
        finally:
            object.__setattr__(o, "initing", False)
        return o

    def dataclass_init(self, o, cls, fs, args, kwargs):
        names = [f.name for f in fs if f.init and not f.kw_only]
        if len(args) > len(names):
            raise ProgError(TypeError(f"{cls.__name__}.__init__() takes {len(names) + 1} positional arguments"))
        vals = dict(zip(names, args))
        allowed = {f.name for f in fs if f.init}
        for k, v in kwargs.items():
            if k not in allowed:
                raise ProgError(TypeError(f"{cls.__name__}.__init__() got an unexpected keyword argument '{k}'"))
            if k in vals:
                raise ProgError(TypeError(f"{cls.__name__}.__init__() got multiple values for argument '{k}'"))
            vals[k] = v
        for f in fs:
            if f.name in vals:
                v = vals[f.name]
            elif f.default is not UNSET:
                v = f.default
            elif f.default_factory is not UNSET:
                v = self.call(f.default_factory)
            elif not f.init:
                continue
            else:
                raise ProgError(TypeError(f"{cls.__name__}.__init__() missing required argument: '{f.name}'"))
            if f.converter is not None:
                v = self.call(f.converter, (v,))
            o.fields[f.name] = v

    def bind(self, m, obj, cls):
        if isinstance(m, (IFunc, CachedFn)):
            return BoundMethod(m, obj)
        if isinstance(m, SMeth):
            return m.f
        if isinstance(m, CMeth):
            return self.bind(m.f, cls, cls)
        if isinstance(m, Prop):
            return self.call(m.fget, (obj,))
        if isinstance(m, CachedProp):
            v = self.call(m.f, (obj,))
            if obj.cls.frozen and not obj.initing:
                # functools.cached_property writes the instance dict directly
                pass
            obj.fields[m.__dict__.get("name") or m.f.__name__] = v
            return v
        if isinstance(m, Inst) and m.cls.lookup("__get__") is not UNSET:
            return self.call(self.getattr(m, "__get__"), (obj, cls))
        if isinstance(m, SDM):
            def disp(*a, **k):
                if not a:
                    raise ProgError(TypeError("singledispatchmethod requires at least 1 positional argument"))
                g = self.bind(m.pick(a[0]), obj, cls)
                return self.call(g, a, k)

            disp._sa_py = True
            return disp
        if isinstance(m, types.FunctionType):
            return functools.partial(m, obj) if not getattr(m, "_sa_raw", False) else m
        if isinstance(m, functools.partialmethod):
            return functools.partial(BoundMethod(m.func, obj), *m.args, **m.keywords)
        return m

    def getattr(self, o, name):
        if o is object and name in ("__new__", "__setattr__", "__delattr__"):
            return {"__new__": lambda c, *a, **k: Inst(c), "__setattr__": lambda ob, k, v: self.raw_set(ob, k, v), "__delattr__": lambda ob, k: ob.fields.pop(k)}[name]
        if isinstance(o, Inst):
            d = o.cls.lookup(name)
            if isinstance(d, Prop):
                return self.bind(d, o, o.cls)
            if isinstance(d, Inst) and d.cls.lookup("__get__") is not UNSET and d.cls.lookup("__set__") is not UNSET:
                return self.bind(d, o, o.cls)
            if name in o.fields:
                return o.fields[name]
            if d is not UNSET:
                return self.bind(d, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.fields
            ga = o.cls.lookup("__getattr__")
            if ga is not UNSET:
                return self.call(ga, (o, name))
            if o.cls.host_exc is not None:
                if name in ("with_traceback", "add_note"):
                    return lambda *a: o
                if name in ("__cause__", "__context__", "__traceback__", "__notes__"):
                    return None
            if name in ("__setattr__", "__getattribute__"):
                return functools.partial({"__setattr__": lambda o, k, v: o.fields.__setitem__(k, v), "__getattribute__": self.getattr}[name], o)
            raise ProgError(AttributeError(f"'{o.cls.__name__}' object has no attribute '{name}'"))
        if isinstance(o, IClass):
            d = o.lookup(name)
            if d is not UNSET:
                if isinstance(d, CMeth):
                    return self.bind(d.f, o, o)
                if isinstance(d, SMeth):
                    return d.f
                if isinstance(d, SDM):
                    return self.bind(d, o, o)
                if isinstance(d, Inst) and d.cls.lookup("__get__") is not UNSET:
                    return self.call(self.getattr(d, "__get__"), (None, o))
                return d
            for f in o.all_fields():
                if f.name == name and f.default is not UNSET:
                    return f.default
            if name in ("__name__", "__qualname__"):
                return o.__name__
            if name == "__mro__":
                return tuple(o.mro) + (object,)
            if name == "__module__":
                return o.module.name if o.module else "builtins"
            if name == "__doc__":
                return None
            if name == "__bases__":
                return tuple(o.bases) or (object,)
            if name == "__dict__":
                return types.MappingProxyType(o.ns)
            if o.kind == "enum" and name == "__members__":
                return types.MappingProxyType(o.enum_members())
            if name == "__setattr__":
                return lambda ob, k, v: self.raw_set(ob, k, v)
            if name in ("__annotations__", "__dataclass_fields__"):
                return {f.name: f for f in o.all_fields()}
            if name == "mro":
                return lambda: list(o.mro)
            if name == "__new__":
                return lambda c, *a, **k: Inst(c)
            raise ProgError(AttributeError(f"type object '{o.__name__}' has no attribute '{name}'"))
        if isinstance(o, IModule):
            if self.on_global:
                self.on_global("read", o, name, None)
            if name in o.vars:
                return o.vars[name]
            sub = f"{o.name}.{name}"
            if sub in self.modules:
                return self.modules[sub]
            if name == "__dict__":
                return o.vars
            raise ProgError(AttributeError(f"module '{o.name}' has no attribute '{name}'"))
        if isinstance(o, Super) and isinstance(o.cls, IClass) and "host_type" in o.cls.__dict__ and not isinstance(o.obj, Inst):
            f = getattr(super(o.cls.host_type, o.obj), name)
            if name == "__init_subclass__":
                return f
            return f
        if isinstance(o, Super):
            start = o.obj if isinstance(o.obj, IClass) else o.obj.cls
            if name == "__init__":
                d = start.lookup(name, o.cls)
                if d is UNSET:
                    if isinstance(o.obj, Inst) and (o.obj.cls.is_module or any(c.is_dataclass for c in o.obj.cls.mro)):
                        # dataclass __init__ of the base class
                        base = start.mro[start.mro.index(o.cls) + 1]
                        return lambda *a, **k: self.dataclass_init(o.obj, base, base.all_fields(), a, k)
                    if isinstance(o.obj, Inst) and o.obj.cls.host_exc is not None:
                        return lambda *a, **k: o.obj.fields.__setitem__("args", tuple(a))
                    return lambda *a, **k: None
            d = start.lookup(name, o.cls)
            if d is UNSET:
                if name in ("__setattr__",):
                    return lambda k, v: o.obj.fields.__setitem__(k, v)
                if name == "__new__":
                    return lambda c, *a, **k: Inst(c)
                raise ProgError(AttributeError(f"'super' object has no attribute '{name}'"))
            if isinstance(o.obj, IClass):
                if isinstance(d, CMeth):
                    return self.bind(d.f, o.obj, o.obj)
                if isinstance(d, SMeth):
                    return d.f
                if isinstance(d, SDM):
                    return self.bind(d, o.obj, o.obj)
                return d
            return self.bind(d, o.obj, o.obj.cls)
        if isinstance(o, Choice):
            return getattr(o, name)
        if isinstance(o, SDM):
            return getattr(o, name)
        if isinstance(o, CachedFn):
            if name in ("cache_clear", "cache_info", "__wrapped__", "__name__", "__doc__"):
                return getattr(o, name)
            return self.getattr(o.f, name)
        if isinstance(o, (CMeth, SMeth)) and name in ("__func__", "__wrapped__"):
            return o.f
        if isinstance(o, Prop):
            return getattr(o, name)
        if isinstance(o, IFunc):
            if name == "__defaults__":
                return tuple(o.defaults)
            if name == "__wrapped__":
                if "__wrapped__" in o.__dict__:
                    return o.__dict__["__wrapped__"]
                return o
            if name == "func":
                return o
            if name == "__get__":
                return lambda obj, cls=None: BoundMethod(o, obj) if obj is not None else o
        if isinstance(o, Opaque):
            try:
                return getattr(o, name)
            except AttributeError:
                raise Unsupported(f"attribute {name} of an opaque object")
        if isinstance(o, types.GeneratorType) and name == "throw":
            def throw(e, *a):
                if isinstance(e, (IClass, type)):
                    e = self.call(e, a[:1] if a and a[0] is not None else ())
                try:
                    return o.throw(e if isinstance(e, (ProgError, GeneratorExit)) else ProgError(e))
                except StopIteration as x:
                    raise ProgError(x)

            return throw
        try:
            return getattr(o, name)
        except PASS:
            raise
        except AttributeError as e:
            if isinstance(o, HOST_OK):
                raise ProgError(e)
            if isinstance(o, Arr) and name not in ARRAY_ATTRS:
                raise ProgError(AttributeError(f"array has no attribute {name!r}"))
            if type(o).__module__ in self.PYHOST or isinstance(o, types.GeneratorType):
                raise ProgError(e)
            raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def raw_set(self, o, k, v):
        """object.__setattr__"""
        if isinstance(o, Inst):
            o.fields[k] = v
        else:
            self.setattr(o, k, v)

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            d = o.cls.lookup(name)
            if isinstance(d, Prop):
                if d.fset is None:
                    raise ProgError(AttributeError("can't set attribute"))
                self.call(d.fset, (o, v))
                return
            if isinstance(d, Inst) and d.cls.lookup("__set__") is not UNSET:
                self.call(self.getattr(d, "__set__"), (o, v))
                return
            sa_ = o.cls.lookup("__setattr__")
            if sa_ is not UNSET:
                self.call(self.bind(sa_, o, o.cls), (name, v))
                return
            if o.cls.kind == "enum" and "_name_" in o.fields and name in ("name", "value"):
                raise ProgError(AttributeError(f"<enum '{o.cls.__name__}'> cannot set attribute '{name}'"))
            if o.cls.frozen and not o.initing:
                import dataclasses

                raise ProgError(dataclasses.FrozenInstanceError(f"cannot assign to field '{name}'"))
            o.fields[name] = v
            return
        if isinstance(o, IModule):
            o.vars[name] = v
            if self.on_global:
                self.on_global("write", o, name, v)
            return
        if isinstance(o, IClass):
            o.ns[name] = v
            self.effects.append(("classattr", o, name, N.Loc.cur()))
            return
        if isinstance(o, IFunc):
            setattr(o, name, v)
            self.effects.append(("funcattr", o, name, N.Loc.cur()))
            return
        if isinstance(o, (Super, SDM)):
            raise Unsupported("setattr")
        if isinstance(o, HOST_OK) and not getattr(type(o), "_sa_dyn", False):
            raise ProgError(AttributeError(f"'{type(o).__name__}' object has no attribute '{name}'"))
        if isinstance(o, Arr):
            raise ProgError(AttributeError("cannot set attribute of an array"))
        try:
            setattr(o, name, v)
        except Exception as e:
            raise Unsupported(f"setattr on {type(o).__name__}: {e}")

    def delattr(self, o, name):
        if isinstance(o, Inst):
            d = o.cls.lookup(name)
            if isinstance(d, Inst) and d.cls.lookup("__delete__") is not UNSET:
                self.call(self.getattr(d, "__delete__"), (o,))
                return
            if isinstance(d, Prop):
                if d.fdel is None:
                    raise ProgError(AttributeError(f"property '{name}' has no deleter"))
                self.call(d.fdel, (o,))
                return
            if o.cls.frozen and not o.initing:
                import dataclasses

                raise ProgError(dataclasses.FrozenInstanceError(f"cannot delete field '{name}'"))
            if name not in o.fields:
                raise ProgError(AttributeError(name))
            del o.fields[name]
            return
        if isinstance(o, IModule):
            if name not in o.vars:
                raise ProgError(AttributeError(name))
            del o.vars[name]
            if self.on_global:
                self.on_global("write", o, name, UNSET)
            return
        raise Unsupported(f"del attribute of {type(o).__name__}")

    # --------------------------------------------------------------- types
    def type_of(self, x):
        if isinstance(x, Inst):
            return x.cls
        if isinstance(x, Opaque) and x.cls is not None:
            return x.cls
        if isinstance(x, XF):
            return float
        if isinstance(x, JsonDoc):
            return str
        if isinstance(x, JsonBytes):
            return bytes
        if isinstance(x, JsonByteArray):
            return bytearray
        if isinstance(x, Choice):
            ts = {id(self.type_of(o)): self.type_of(o) for o in x.opts}
            if len(ts) == 1:
                return next(iter(ts.values()))
            raise Unsupported("type of a dynamically chosen object")
        if isinstance(x, IClass):
            return type
        return type(x)

    def isinst(self, x, c):
        if isinstance(c, tuple):
            return any(self.isinst(x, y) for y in c)
        if isinstance(x, Choice):
            rs = {self.isinst(o, c) for o in x.opts}
            if len(rs) == 1:
                return rs.pop()
            raise Unsupported("isinstance of a dynamically chosen object")
        if isinstance(c, IClass):
            if c.protocol:
                for k in c.ns:
                    if k.startswith("__") or k in c.ns.get("__nonproto__", ()):
                        continue
                    try:
                        self.getattr(x, k)
                    except (ProgError, Unsupported):
                        return False
                return True
            if isinstance(x, (Inst, Opaque)) and x.cls is not None:
                if x.cls.issub(c):
                    return True
                return False
            if c.kind == "mapping":
                return isinstance(x, cabc.Mapping)
            if c.kind == "sequence":
                return isinstance(x, cabc.Sequence)
            return False
        if isinstance(c, TypeForm):
            if c._name in ("union", "Union", "Optional"):
                r = any(self.isinst(x, y) for y in c.args)
                return r or (c._name == "Optional" and x is None)
            if c.base is not None:
                return self.isinst(x, c.base)
            if isinstance(c.check, type):
                return self.isinst(x, c.check)
            if callable(c.check):
                return c.check(x, c.args)
            raise Unsupported(f"isinstance with {c!r}")
        if c is type(None) or c is None:
            return x is None
        if c is self.builtins.get("type"):
            return isinstance(x, (IClass, type)) or x is c
        if isinstance(c, types.UnionType):
            return any(self.isinst(x, y) for y in c.__args__)
        if isinstance(c, type):
            if c is object:
                return True
            if c.__name__ == "TracerM" and isinstance(x, Arr):
                from .jaxmodel import Ambient

                return bool(Tracing.on) or bool(Ambient("calls are traced"))
            if isinstance(x, Arr):
                return issubclass(Arr, c)
            if isinstance(x, Inst):
                if c in (cabc.Mapping, cabc.MutableMapping):
                    return any(k.kind == "mapping" for k in x.cls.mro)
                if c in (cabc.Iterable, cabc.Sized, cabc.Callable, cabc.Container, cabc.Iterator):
                    need = {cabc.Iterable: "__iter__", cabc.Sized: "__len__", cabc.Callable: "__call__", cabc.Container: "__contains__", cabc.Iterator: "__next__"}[c]
                    return x.cls.lookup(need) is not UNSET
                if x.cls.host_exc is not None:
                    return issubclass(x.cls.host_exc, c)
                return False
            if c is type:
                return isinstance(x, (IClass, type)) or x is self.builtins.get("type")
            if c in (types.FunctionType,):
                return isinstance(x, (IFunc, types.FunctionType))
            if isinstance(x, (IFunc, BoundMethod, IClass)):
                return c is cabc.Callable
            return isinstance(x, c)
        raise Unsupported(f"isinstance with {c!r}")

    def issubclass(self, a, c):
        if isinstance(c, tuple):
            return any(self.issubclass(a, y) for y in c)
        if isinstance(a, IClass) and isinstance(c, IClass):
            return a.issub(c)
        if isinstance(a, type) and isinstance(c, type):
            return issubclass(a, c)
        if isinstance(a, IClass) and a.host_exc is not None and isinstance(c, type):
            return issubclass(a.host_exc, c)
        if isinstance(c, TypeForm) and c.base is not None:
            return self.issubclass(a, c.base)
        return False

    def truth(self, v):
        if isinstance(v, (bool, int, float, str, type(None), Arr, Inst, tuple, list, dict, set)):
            return bool(v)
        if isinstance(v, (IFunc, IClass, BoundMethod, IModule, SDM, CachedFn)):
            return True
        try:
            return bool(v)
        except PASS:
            raise
        except Exception as e:
            raise Unsupported(f"truth value of {type(v).__name__}: {e}")

    def iterate(self, v):
        """Iterator over a program value; host errors become program errors."""
        try:
            it = iter(v)
        except PASS:
            raise
        except TypeError as e:
            if isinstance(v, HOST_OK + (IFunc, IClass, BoundMethod)):
                raise ProgError(e)
            raise Unsupported(f"iteration over {type(v).__name__}")
        while True:
            try:
                x = next(it)
            except StopIteration:
                return
            except PASS:
                raise
            except Exception as e:
                if type(it).__module__ in self.PYHOST:
                    raise ProgError(e)
                raise Unsupported(f"iteration: {type(e).__name__}: {e}")
            yield x

    # -------------------------------------------------------------- scopes
    def lookup(self, name, sc):
        s = sc
        while s is not None:
            if s.kind == "module":
                break
            if name in s.globals_:
                break
            if s.kind == "class":
                if s is sc and name in s.vars:
                    return s.vars[name]
            elif name in s.vars:
                return s.vars[name]
            elif s.locals_ is not None and name in s.locals_:
                if s is sc or s.kind == "comp":
                    pass
                raise ProgError(UnboundLocalError(f"cannot access local variable '{name}'"))
            s = s.parent
        m = sc.module
        if self.on_global:
            self.on_global("read", m, name, None)
        if name in m.vars:
            return m.vars[name]
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(hostb, name):
            raise Unsupported(f"builtin {name}")
        raise ProgError(NameError(f"name '{name}' is not defined"))

    def store(self, name, v, sc, walrus=False):
        s = sc
        if walrus:
            while s.kind == "comp":
                s = s.parent
        if s.kind == "module" or name in s.globals_:
            s.module.vars[name] = v
            if self.on_global:
                self.on_global("write", s.module, name, v)
            return
        if name in s.nonlocals:
            p = s.parent
            while p is not None:
                if p.kind in ("func", "comp") and name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
            raise ProgError(SyntaxError(f"no binding for nonlocal '{name}'"))
        s.vars[name] = v

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Choice):
                v = list(v)
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ProgError(ValueError("not enough values to unpack"))
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, sc)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], sc)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, sc)
                return
            if len(vals) != len(t.elts):
                raise ProgError(ValueError(f"expected {len(t.elts)} values to unpack, got {len(vals)}"))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.eval(t.slice, sc)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            raise ProgError(TypeError("JAX arrays are immutable"))
        if isinstance(o, list) and isinstance(k, Arr):
            k = as_static_int(k)
        if self.protected:
            self.note_mutation(None, o, "__setitem__")
        try:
            o[k] = v
        except PASS:
            raise
        except Exception as e:
            if isinstance(o, HOST_OK):
                raise ProgError(e)
            raise Unsupported(f"item assignment on {type(o).__name__}")

    # ---------------------------------------------------------- statements
    def block(self, stmts, sc):
        for s in stmts:
            N.Loc.stack[-1].line = s.lineno
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("analysis budget exhausted")
            r = self.STMT[type(s)](self, s, sc) if type(s) in self.STMT else self._nostmt(s)
            if r is not None:
                yield from r

    def _nostmt(self, s):
        raise Unsupported(f"statement {type(s).__name__}")

    def s_expr(self, s, sc):
        v = s.value
        if isinstance(v, ast.Constant):
            return None
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            return self.g_yield(v, sc, None)
        self.eval(v, sc)

    def g_yield(self, v, sc, cb):
        if isinstance(v, ast.Yield):
            x = self.eval(v.value, sc) if v.value is not None else None
            r = yield x
        else:
            src = self.eval(v.value, sc)
            r = yield from (src if isinstance(src, types.GeneratorType) else self.iterate(src))
        if cb:
            cb(r)

    def s_assign(self, s, sc):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.g_yield(s.value, sc, lambda r: [self.assign(t, r, sc) for t in s.targets])
        v = self.eval(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_annassign(self, s, sc):
        if s.value is not None:
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                return self.g_yield(s.value, sc, lambda r: self.assign(s.target, r, sc))
            self.assign(s.target, self.eval(s.value, sc), sc)

    def s_aug(self, s, sc):
        t = s.target
        v = self.eval(s.value, sc)
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), sc)
            self.assign(t, self.inplace(s.op, cur, v), sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            self.setattr(o, t.attr, self.inplace(s.op, self.getattr(o, t.attr), v))
        else:
            o = self.eval(t.value, sc)
            k = self.eval(t.slice, sc)
            self.setitem(o, k, self.inplace(s.op, self.getitem(o, k), v))

    def inplace(self, op, a, b):
        if isinstance(a, list) and isinstance(op, ast.Add):
            a.extend(self.iterate(b))
            return a
        if isinstance(a, (dict, set)) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            try:
                return {ast.BitOr: operator.ior, ast.BitAnd: operator.iand, ast.Sub: operator.isub, ast.BitXor: operator.ixor}[type(op)](a, b)
            except TypeError as e:
                raise ProgError(e)
        if isinstance(a, list) and isinstance(op, ast.Mult):
            a *= as_static_int(b)
            return a
        if isinstance(a, Inst):
            m = a.cls.lookup(INPLACE.get(type(op), "?"))
            if m is not UNSET:
                r = self.call(self.bind(m, a, a.cls), (b,), {})
                if r is not NotImplemented:
                    return r
        return self.binop(op, a, b)

    def s_return(self, s, sc):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            box = []

            def g():
                yield from self.g_yield(s.value, sc, box.append)
                raise _Return(box[0])

            return g()
        raise _Return(self.eval(s.value, sc) if s.value is not None else None)

    def s_if(self, s, sc):
        return self.block(s.body if self.truth(self.eval(s.test, sc)) else s.orelse, sc)

    def s_for(self, s, sc):
        it = self.eval(s.iter, sc)
        if isinstance(it, Choice):
            it = list(it)
        broke = False
        for x in self.iterate(it):
            N.Loc.stack[-1].line = s.lineno
            self.assign(s.target, x, sc)
            try:
                yield from self.block(s.body, sc)
            except _Continue:
                continue
            except _Break:
                broke = True
                break
        if not broke:
            yield from self.block(s.orelse, sc)

    def s_while(self, s, sc):
        k = 0
        while True:
            if not self.truth(self.eval(s.test, sc)):
                yield from self.block(s.orelse, sc)
                return
            k += 1
            if k > 100000:
                raise Unsupported("loop bound exceeded")
            try:
                yield from self.block(s.body, sc)
            except _Continue:
                continue
            except _Break:
                return

    def s_break(self, s, sc):
        raise _Break()

    def s_continue(self, s, sc):
        raise _Continue()

    def s_pass(self, s, sc):
        return None

    def s_import(self, s, sc):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname:
                self.store(a.asname, m, sc)
            else:
                self.store(a.name.split(".")[0], self.import_(a.name.split(".")[0]), sc)

    def s_importfrom(self, s, sc):
        if s.level:
            pkg = sc.module.vars["__package__"].split(".")
            pkg = pkg[: len(pkg) - (s.level - 1)]
            name = ".".join(pkg + ([s.module] if s.module else []))
        else:
            name = s.module
        if name == "__future__":
            return
        m = self.import_(name)
        for a in s.names:
            if a.name == "*":
                if not isinstance(m, IModule):
                    raise Unsupported("star import")
                names = m.vars.get("__all__") or [k for k in m.vars if not k.startswith("_")]
                for k in names:
                    self.store(k, m.vars[k], sc)
                continue
            if isinstance(m, IModule):
                if a.name in m.vars:
                    v = m.vars[a.name]
                else:
                    try:
                        v = self.load(f"{name}.{a.name}")
                    except (ProgError, FileNotFoundError):
                        raise ProgError(ImportError(f"cannot import name '{a.name}' from '{name}'"))
            else:
                v = getattr(m, a.name)
            self.store(a.asname or a.name, v, sc)

    def s_global(self, s, sc):
        return None

    def s_funcdef(self, s, sc):
        f = self.mkfunc(s, sc)
        for d in reversed(s.decorator_list):
            N.Loc.stack[-1].line = d.lineno
            f = self.call(self.eval(d, sc), (f,))
        self.store(s.name, f, sc)

    def mkfunc(self, s, sc, name=None):
        a = s.args
        defaults = [self.eval(d, sc) for d in a.defaults]
        kwd = [self.eval(d, sc) if d is not None else UNSET for d in a.kw_defaults]
        nm = name or s.name
        cls = sc.cls
        q = nm
        st = sc
        while st is not None and st.kind != "module":
            if st.kind == "class":
                q = f"{st.vars.get('__qualname__', '?')}.{q}"
                break
            st = st.parent
        # functions close over the enclosing function scopes, not class bodies
        par = sc
        return IFunc(self, s, par, sc.module, q, defaults, kwd, cls)

    def s_classdef(self, s, sc):
        bases, hosts = [], []
        for b in s.bases:
            v = self.eval(b, sc)
            if isinstance(v, type) and v in (dict, list, tuple, set, frozenset, int, str, float, bytes, collections.OrderedDict, collections.defaultdict, collections.deque, collections.Counter, collections.ChainMap) or isinstance(v, type) and getattr(v, "_sa_dyn", False):
                hosts.append(v)
                continue
            c = self.as_base(v)
            if c is not None and c not in bases:
                bases.append(c)
        kws = {k.arg: self.eval(k.value, sc) for k in s.keywords}
        ns_scope = Scope(sc, sc.module, None, "class")
        ns_scope.vars["__qualname__"] = s.name
        cell = IClass.__new__(IClass)
        ns_scope.cls = cell
        self.drive(self.block(s.body, ns_scope))
        ns = dict(ns_scope.vars)
        ns.pop("__qualname__", None)
        # Generic goes last so the real bases come first
        c = cell
        c.__init__(s.name, bases, ns, sc.module)
        c.loc = f"{sc.module.file if hasattr(sc.module, 'file') else sc.module.name}:{s.lineno} in {s.name}"
        if any(b.kind == "protocol" for b in bases) and any(getattr(b, "_isproto", False) for b in bases):
            c.protocol = True
            c.kind = "protocol"
        named = [b for b in bases if b.kind == "NamedTuple"]
        if any(b.kind == "enum" for b in bases):
            self.make_enum(c, hosts)
            v = c
            for d in reversed(s.decorator_list):
                v = self.call(self.eval(d, sc), (v,))
            self.store(s.name, v, sc)
            return
        if hosts:
            if len(hosts) > 1 or any(b.kind not in ("protocol",) and b.__name__ not in ("Generic", "ABC") for b in bases):
                raise Unsupported("class with a builtin and another base")
            v = self.host_subclass(c, hosts[0], ns)
            for d in reversed(s.decorator_list):
                v = self.call(self.eval(d, sc), (v,))
            self.store(s.name, v, sc)
            return
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                an = ast.unparse(st.annotation)
                if "ClassVar" in an:
                    continue
                nm = st.target.id
                f = Field(nm)
                anno = f.anno = (st.annotation, sc)
                if st.value is not None:
                    v = ns.get(nm)
                    if isinstance(v, FieldSpec):
                        f = Field(nm, **{k: x for k, x in v.kw.items() if k in ("default", "default_factory", "converter", "static", "init", "kw_only", "compare")})
                        f.anno = anno
                        md = v.kw.get("metadata") or {}
                        if md.get("static"):
                            f.static = True
                        if md.get("converter") is not None and f.converter is None:
                            f.converter = md["converter"]
                        c.ns.pop(nm, None)
                        if f.default is not UNSET:
                            c.ns[nm] = f.default
                    else:
                        f.default = v
                f.loc = f"{sc.module.file if hasattr(sc.module, 'file') else c.module}:{st.lineno} in {s.name}.{nm}"
                c.own_fields.append(f)
        if named:
            nt = collections.namedtuple(s.name, [f.name for f in c.own_fields], defaults=[f.default for f in c.own_fields if f.default is not UNSET])
            meth = {k: x for k, x in ns.items() if k not in nt._fields}
            if meth:
                nt = self.host_subclass(c, nt, meth)
            v = nt
            for d in reversed(s.decorator_list):
                v = self.call(self.eval(d, sc), (v,))
            self.store(s.name, v, sc)
            return
        if not (c.is_module):
            # plain annotations are not fields unless a dataclass decorator says so
            c.anno_fields, c.own_fields = c.own_fields, []
            for f in c.anno_fields:
                if f.default is not UNSET:
                    c.ns.setdefault(f.name, f.default)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, sc), (v,))
        c.metaclass = kws.get("metaclass")
        sub = c.lookup("__init_subclass__", c) if len(c.mro) > 1 else UNSET
        if sub is not UNSET:
            g = sub.f if isinstance(sub, CMeth) else sub
            self.call(g, (c,), {k: x for k, x in kws.items() if k not in ("metaclass", "strict")})
        for k, x in ns.items():
            sn = getattr(x, "__set_name__", None)
            if isinstance(x, Inst) and x.cls.lookup("__set_name__") is not UNSET:
                self.call(self.getattr(x, "__set_name__"), (c, k))
        self.store(s.name, v, sc)

    def host_subclass(self, c, host, ns):
        """A subclass of a built-in container as a Python type whose methods
        are interpreted."""
        it = self

        def wrap(x):
            if isinstance(x, (IFunc, CachedFn)):
                def g(*a, **k):
                    return it.call(x, a, k)

                g.__name__ = getattr(x, "__name__", "f")
                g._sa_py = True
                return g
            if isinstance(x, CMeth):
                return classmethod(wrap(x.f))
            if isinstance(x, SMeth):
                return staticmethod(wrap(x.f))
            if isinstance(x, Prop):
                return property(*[None if f is None else wrap(f) for f in (x.fget, x.fset, x.fdel)])
            if isinstance(x, CachedProp):
                return functools.cached_property(wrap(x.f))
            return x

        d = {k: wrap(x) for k, x in ns.items()}
        d.update(_sa_dyn=True, _sa_cls=c)
        t = type(host)(c.__name__, (host,), d)
        t.__module__ = "builtins"
        c.host_type = t
        return t

    def make_enum(self, c, hosts):
        c.kind = "enum"
        mixin = hosts[0] if hosts else next((b.ns["__mixin__"] for b in c.bases if b.kind == "enum" and b.ns.get("__mixin__")), None)
        c.ns["__mixin__"] = mixin
        members, last = {}, 0
        for k, x in list(c.ns.items()):
            if k.startswith("_") or isinstance(x, (IFunc, CMeth, SMeth, Prop, CachedProp, IClass, types.FunctionType)):
                continue
            if isinstance(x, Inst) and x.cls.lookup("__get__") is not UNSET:
                continue
            if isinstance(x, EnumAuto):
                x = k.lower() if mixin is str else last + 1
            if isinstance(x, int) and not isinstance(x, bool):
                last = x
            m = next((m for m in members.values() if _eq(m.fields["_value_"], x) is True), None)
            if m is None:
                m = Inst(c, {"_name_": k, "_value_": x})
                init = c.lookup("__init__")
                if init is not UNSET:
                    self.call(self.bind(init, m, c), x if isinstance(x, tuple) else (x,), {})
            members[k] = m
            c.ns[k] = m
        if members:
            c.ns["__members__"] = members

    def as_base(self, v):
        if isinstance(v, IClass):
            return v
        if isinstance(v, TypeForm):
            return v.base
        if isinstance(v, type) and issubclass(v, BaseException):
            return IClass(v.__name__, (), {"__host__": v}, kind="exc")
        if v is object:
            return None
        if isinstance(v, type) and v in (cabc.Mapping, cabc.MutableMapping):
            return self.libs["collections.abc"].Mapping.base
        from .jaxmodel import Missing

        if isinstance(v, Missing):
            raise Unsupported(f"base class {v!r}")
        raise Unsupported(f"base class {v!r}")

    def s_raise(self, s, sc):
        if s.exc is None:
            cur = self.exc_stack[-1] if self.exc_stack else None
            if cur is None:
                raise ProgError(RuntimeError("No active exception to reraise"))
            raise cur
        e = self.eval(s.exc, sc)
        cause = self.eval(s.cause, sc) if s.cause is not None else UNSET
        if isinstance(e, IClass) or isinstance(e, type):
            e = self.call(e)
        if cause is not UNSET:
            if isinstance(cause, (IClass, type)):
                cause = self.call(cause)
            if isinstance(e, Inst):
                e.fields["__cause__"] = cause
            elif isinstance(e, BaseException) and (cause is None or isinstance(cause, BaseException)) and not isinstance(e, ProgError):
                e.__cause__ = cause
        if isinstance(e, ProgError):
            raise e
        if isinstance(e, BaseException) or isinstance(e, Inst):
            raise ProgError(e)
        raise ProgError(TypeError("exceptions must derive from BaseException"))

    exc_stack: list = []

    def match_exc(self, e, t):
        if isinstance(t, tuple):
            return any(self.match_exc(e, x) for x in t)
        exc = e.exc
        if isinstance(t, IClass):
            return isinstance(exc, Inst) and exc.cls.issub(t)
        if isinstance(t, type):
            if isinstance(exc, Inst):
                return exc.cls.host_exc is not None and issubclass(exc.cls.host_exc, t)
            return isinstance(exc, t)
        raise Unsupported(f"except {t!r}")

    def s_try(self, s, sc):
        try:
            try:
                yield from self.block(s.body, sc)
            except ProgError as e:
                for h in s.handlers:
                    if h.type is None or self.match_exc(e, self.eval(h.type, sc)):
                        if h.name:
                            self.store(h.name, e.exc, sc)
                        self.exc_stack.append(e)
                        try:
                            yield from self.block(h.body, sc)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            except GeneratorExit as e:
                for h in s.handlers:
                    t = self.eval(h.type, sc) if h.type is not None else BaseException
                    if t in (BaseException, GeneratorExit):
                        self.exc_stack.append(e)
                        try:
                            yield from self.block(h.body, sc)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                yield from self.block(s.orelse, sc)
        finally:
            if s.finalbody:
                et = sys.exc_info()[0]
                if et is None or not issubclass(et, Unsupported):
                    yield from self.block(s.finalbody, sc)

    def s_with(self, s, sc):
        yield from self._with(s.items, s.body, sc)

    def _with(self, items, body, sc):
        if not items:
            yield from self.block(body, sc)
            return
        it = items[0]
        cm = self.eval(it.context_expr, sc)
        ent = self.getattr(cm, "__enter__")
        ext = self.getattr(cm, "__exit__")
        v = self.call(ent)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, sc)
        try:
            yield from self._with(items[1:], body, sc)
        except Unsupported:
            raise
        except ProgError as e:
            exc = e.exc
            r = self.call(ext, (self.type_of(exc), e if not isinstance(cm, Inst) else exc, None))
            if not self.truth(r):
                raise
        except BaseException as e:
            # return / break / continue / generator close leave the block normally
            if isinstance(e, GeneratorExit):
                self.call(ext, (GeneratorExit, e, None))
            else:
                self.call(ext, (None, None, None))
            raise
        else:
            self.call(ext, (None, None, None))

    def s_assert(self, s, sc):
        v = self.eval(s.test, sc)
        if isinstance(v, Arr) and not all(x.is_const for x in v.data):
            return None
        if not self.truth(v):
            raise ProgError(AssertionError(self.eval(s.msg, sc) if s.msg else ""))

    def s_delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = sc.vars if t.id not in sc.globals_ else sc.module.vars
                if t.id not in d:
                    raise ProgError(NameError(t.id))
                del d[t.id]
            elif isinstance(t, ast.Subscript):
                o, k = self.eval(t.value, sc), self.eval(t.slice, sc)
                try:
                    del o[k]
                except PASS:
                    raise
                except Exception as e:
                    raise ProgError(e) if isinstance(o, HOST_OK) else Unsupported("del")
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.s_delete(ast.Delete(t.elts), sc)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, sc), t.attr)
            else:
                raise Unsupported("del target")

    def s_match(self, s, sc):
        v = self.eval(s.subject, sc)
        for c in s.cases:
            if self.pat(c.pattern, v, sc) and (c.guard is None or self.truth(self.eval(c.guard, sc))):
                return self.block(c.body, sc)
        return None

    def pat(self, p, v, sc):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.eval(p.value, sc)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pat(p.pattern, v, sc):
                return False
            if p.name:
                self.store(p.name, v, sc)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pat(q, v, sc) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            st = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not st:
                return len(v) == len(p.patterns) and all(self.pat(q, x, sc) for q, x in zip(p.patterns, v))
            i = st[0]
            aft = len(p.patterns) - i - 1
            if len(v) < len(p.patterns) - 1:
                return False
            ok = all(self.pat(q, x, sc) for q, x in zip(p.patterns[:i], v[:i])) and all(
                self.pat(q, x, sc) for q, x in zip(p.patterns[i + 1:], v[len(v) - aft:]))
            if ok and p.patterns[i].name:
                self.store(p.patterns[i].name, list(v[i:len(v) - aft]), sc)
            return ok
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, sc)
            if not self.isinst(v, c):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and c in (int, float, str, bool, bytes, tuple, list, dict):
                    if not self.pat(p.patterns[0], v, sc):
                        return False
                else:
                    ma = self.match_args(c)
                    if len(ma) < len(p.patterns):
                        raise ProgError(TypeError("too many positional sub-patterns"))
                    for k, q in zip(ma, p.patterns):
                        if not self.has(v, k) or not self.pat(q, self.getattr(v, k), sc):
                            return False
            return all(self.has(v, k) and self.pat(q, self.getattr(v, k), sc) for k, q in zip(p.kwd_attrs, p.kwd_patterns))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, cabc.Mapping) and not (isinstance(v, Inst) and any(c.kind == "mapping" for c in v.cls.mro)):
                return False
            seen = []
            for k, q in zip(p.keys, p.patterns):
                kv = self.eval(k, sc)
                seen.append(kv)
                if not self.contains(v, kv) or not self.pat(q, self.getitem(v, kv), sc):
                    return False
            if p.rest:
                d = {}
                self.dict_update(d, v)
                self.store(p.rest, {k: x for k, x in d.items() if k not in seen}, sc)
            return True
        raise Unsupported(f"pattern {type(p).__name__}")

    def has(self, o, k):
        try:
            self.getattr(o, k)
            return True
        except ProgError as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    def match_args(self, c):
        if isinstance(c, IClass):
            m = c.lookup("__match_args__")
            if m is not UNSET:
                return tuple(m)
            if c.is_module or any(k.is_dataclass for k in c.mro):
                return tuple(f.name for f in c.all_fields() if f.init and not f.kw_only)
        return tuple(getattr(c, "__match_args__", ()))

    STMT = {}

    # --------------------------------------------------------- expressions
    def eval(self, e, sc):
        m = self.EXPR.get(type(e))
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(self, e, sc)

    def e_const(self, e, sc):
        v = e.value
        if isinstance(v, float):
            return XF(Fraction(repr(v))) if v == v and abs(v) != math.inf else v
        return v

    def e_name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_attr(self, e, sc):
        o = self.eval(e.value, sc)
        return self.getattr(o, e.attr)

    def e_tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_list(self, e, sc):
        return list(self.elts(e.elts, sc))

    def e_set(self, e, sc):
        return set(self.elts(e.elts, sc))

    def elts(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, sc)))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, sc))
            else:
                kk = self.eval(k, sc)
                d[self.hashable(kk)] = self.eval(v, sc)
        return d

    def hashable(self, k):
        if isinstance(k, Arr):
            raise ProgError(TypeError("unhashable type: array"))
        if isinstance(k, (list, dict, set)):
            raise ProgError(TypeError(f"unhashable type: '{type(k).__name__}'"))
        return k

    def dict_update(self, d, o):
        if isinstance(o, dict):
            d.update(o)
        elif isinstance(o, Inst):
            if not any(c.kind == "mapping" for c in o.cls.mro) and o.cls.lookup("keys") is UNSET:
                raise ProgError(TypeError("object is not a mapping"))
            for k in self.iterate(self.call(self.getattr(o, "keys"))):
                d[k] = self.getitem(o, k)
        elif hasattr(o, "keys"):
            for k in o.keys():
                d[k] = o[k]
        else:
            raise ProgError(TypeError(f"'{type(o).__name__}' object is not a mapping"))

    def binop(self, op, a, b):
        f = BINOPS[type(op)]
        try:
            return f(a, b)
        except PASS:
            raise
        except Exception as ex:
            if isinstance(a, HOST_OK + (Arr, Inst, IFunc)) and isinstance(b, HOST_OK + (Arr, Inst, IFunc)):
                if isinstance(a, Arr) and not isinstance(b, (Arr,) + HOST_OK[:3]) or isinstance(b, Arr) and not isinstance(a, (Arr,) + HOST_OK[:3]):
                    if not isinstance(ex, TypeError):
                        raise Unsupported(f"operator on arrays: {ex}")
                if isinstance(ex, (AssertionError, AttributeError)):
                    raise Unsupported(f"operator: {ex}")
                raise ProgError(ex)
            raise Unsupported(f"operator {type(op).__name__} on {type(a).__name__}, {type(b).__name__}: {ex}")

    def e_bin(self, e, sc):
        return self.binop(e.op, self.eval(e.left, sc), self.eval(e.right, sc))

    def e_unary(self, e, sc):
        v = self.eval(e.operand, sc)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        f = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)]
        try:
            return f(v)
        except PASS:
            raise
        except Exception as ex:
            raise ProgError(ex) if isinstance(v, HOST_OK) else Unsupported(f"unary operator: {ex}")

    def e_bool(self, e, sc):
        v = None
        for x in e.values:
            v = self.eval(x, sc)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b or (isinstance(a, XF) and isinstance(b, XF) and False)
        if isinstance(op, ast.IsNot):
            return a is not b
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return ~r if isinstance(r, Arr) else not r
            return r
        try:
            return CMPS[type(op)](a, b)
        except PASS:
            raise
        except Exception as ex:
            if isinstance(a, HOST_OK) and isinstance(b, HOST_OK):
                raise ProgError(ex)
            raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}: {ex}")

    def contains(self, c, x):
        if isinstance(c, Arr):
            return self.libs["jax.numpy"].any(c == x)
        if isinstance(c, Inst):
            return c.__contains__(x)
        if isinstance(x, Arr) and isinstance(c, (list, tuple, set, range)):
            if all(e.is_const for e in x.data) and x.ndim == 0:
                x = x.item()
            elif isinstance(c, (list, tuple)):
                r = asarray(False)
                for y in c:
                    if y is not None:
                        r = r | (x == y)
                return r
        try:
            return x in c
        except PASS:
            raise
        except Exception as ex:
            raise ProgError(ex) if isinstance(c, HOST_OK) else Unsupported(f"membership in {type(c).__name__}")

    def e_compare(self, e, sc):
        left = self.eval(e.left, sc)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, sc)
            res = self.compare(op, left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return res
            left = right
        return res

    def e_call(self, e, sc):
        line = N.Loc.stack[-1].line
        f = self.eval(e.func, sc) if not (isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args) else None
        if f is None:
            return self.zero_super(sc)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, sc)))
            else:
                args.append(self.eval(a, sc))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, sc)
            if k.arg is None:
                d = {}
                self.dict_update(d, v)
                for kk in d:
                    if not isinstance(kk, str):
                        raise ProgError(TypeError("keywords must be strings"))
                    if kk in kw:
                        raise ProgError(TypeError(f"got multiple values for keyword argument '{kk}'"))
                kw.update(d)
            else:
                if k.arg in kw:
                    raise ProgError(TypeError(f"got multiple values for keyword argument '{k.arg}'"))
                kw[k.arg] = v
        N.Loc.stack[-1].line = e.lineno
        if f is self.builtins.get("locals"):
            return dict(sc.vars)
        if f is self.builtins.get("globals"):
            return sc.module.vars
        r = self.call(f, args, kw)
        N.Loc.stack[-1].line = line
        return r

    def zero_super(self, sc):
        s = sc
        while s is not None and not (s.kind == "func" and s.cls is not None):
            s = s.parent
        if s is None:
            raise ProgError(RuntimeError("super(): no arguments"))
        # first parameter of the method
        first = next(iter(s.vars.values()))
        return Super(s.cls, first)

    def e_lambda(self, e, sc):
        return self.mkfunc(e, sc, "<lambda>")

    def e_ifexp(self, e, sc):
        return self.eval(e.body if self.truth(self.eval(e.test, sc)) else e.orelse, sc)

    def getitem(self, o, k):
        if isinstance(o, Arr):
            return o[k]
        if isinstance(o, (list, tuple, range, str)) and isinstance(k, Arr):
            if k.size == 1 and k.kind in "ib" and not k.data[0].is_const:
                if not o:
                    raise ProgError(IndexError("index out of range"))
                Tracing.refuse(TracerIntegerConversionError, "a Python index")
                return Choice(k.data[0], o).map(lambda x: x)
            if k.kind == "f":
                raise ProgError(TypeError("indices must be integers"))
            k = as_static_int(k)
        if isinstance(o, dict) and isinstance(k, Choice):
            return k.map(lambda x: self.getitem(o, x))
        if isinstance(k, Choice) and isinstance(o, Inst):
            return k.map(lambda x: self.getitem(o, x))
        if isinstance(o, (list, tuple)) and isinstance(k, slice):
            k = slice(*[None if v is None else as_static_int(v) for v in (k.start, k.stop, k.step)])
        if isinstance(o, IClass):
            cg = o.lookup("__class_getitem__")
            if cg is not UNSET:
                return self.call(cg.f if isinstance(cg, CMeth) else cg, (o, k))
            return o[k] if o.kind == "enum" else o
        try:
            return o[k]
        except PASS:
            raise
        except Exception as ex:
            if isinstance(o, HOST_OK) or type(o).__module__ in self.PYHOST:
                raise ProgError(ex)
            raise Unsupported(f"subscript of {type(o).__name__}: {ex}")

    def e_subscript(self, e, sc):
        o = self.eval(e.value, sc)
        if isinstance(o, TypeForm):
            try:
                k = self.eval(e.slice, sc)
            except (Unsupported, ProgError):
                return o
            return o[k]
        return self.getitem(o, self.eval(e.slice, sc))

    def e_slice(self, e, sc):
        f = lambda x: self.eval(x, sc) if x is not None else None
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_fstring(self, e, sc):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                out.append(self.e_fmt(v, sc))
        return "".join(out)

    def e_fmt(self, v, sc):
        x = self.eval(v.value, sc)
        spec = self.e_fstring(v.format_spec, sc) if v.format_spec else ""
        if isinstance(x, Arr) and all(e.is_const for e in x.data) and x.size == 1:
            x = x.item()
        if v.conversion == 114:
            x = repr(x)
        try:
            return format(x, spec)
        except Exception:
            return str(type(x).__name__)

    def e_named(self, e, sc):
        v = self.eval(e.value, sc)
        self.store(e.target.id, v, sc, walrus=True)
        return v

    def e_starred(self, e, sc):
        raise Unsupported("starred expression")

    # comprehensions
    def comp(self, gens, i, sc, emit):
        g = gens[i]
        it = self._first if i == 0 else self.eval(g.iter, sc)
        raise AssertionError

    def _comp_iter(self, e, sc, produce):
        """Generator of produce(scope) over the comprehension's iteration space."""
        first = self.eval(e.generators[0].iter, sc)
        names = set()
        for g in e.generators:
            if g.is_async:
                raise Unsupported("async comprehension")
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        inner = Scope(sc, sc.module, frozenset(names), "comp", sc.globals_ if sc.kind == "comp" else (), (), None)
        fr = N.Loc.stack[-1]

        def rec(i):
            if i == len(e.generators):
                yield produce(inner)
                return
            g = e.generators[i]
            src = first if i == 0 else self.eval(g.iter, inner)
            if isinstance(src, Choice):
                src = list(src)
            for x in self.iterate(src):
                self.assign(g.target, x, inner)
                if all(self.truth(self.eval(c, inner)) for c in g.ifs):
                    yield from rec(i + 1)

        return rec(0)

    def e_listcomp(self, e, sc):
        return list(self._comp_iter(e, sc, lambda s: self.eval(e.elt, s)))

    def e_setcomp(self, e, sc):
        return set(self._comp_iter(e, sc, lambda s: self.eval(e.elt, s)))

    def e_dictcomp(self, e, sc):
        return dict(self._comp_iter(e, sc, lambda s: (self.hashable(self.eval(e.key, s)), self.eval(e.value, s))))

    def e_genexp(self, e, sc):
        fr = N.Loc.stack[-1]
        return self.make_gen(self._comp_iter(e, sc, lambda s: self.eval(e.elt, s)), Frame(fr.name, fr.file, e.lineno))

    EXPR = {}


Interp.STMT = {
    ast.Expr: Interp.s_expr, ast.Assign: Interp.s_assign, ast.AnnAssign: Interp.s_annassign, ast.AugAssign: Interp.s_aug,
    ast.Return: Interp.s_return, ast.If: Interp.s_if, ast.For: Interp.s_for, ast.While: Interp.s_while, ast.Break: Interp.s_break,
    ast.Continue: Interp.s_continue, ast.Pass: Interp.s_pass, ast.Import: Interp.s_import, ast.ImportFrom: Interp.s_importfrom,
    ast.Global: Interp.s_global, ast.Nonlocal: Interp.s_global, ast.FunctionDef: Interp.s_funcdef, ast.ClassDef: Interp.s_classdef,
    ast.Raise: Interp.s_raise, ast.Try: Interp.s_try, ast.With: Interp.s_with, ast.Assert: Interp.s_assert, ast.Delete: Interp.s_delete,
    ast.Match: Interp.s_match,
}
Interp.EXPR = {
    ast.Constant: Interp.e_const, ast.Name: Interp.e_name, ast.Attribute: Interp.e_attr, ast.Tuple: Interp.e_tuple, ast.List: Interp.e_list,
    ast.Set: Interp.e_set, ast.Dict: Interp.e_dict, ast.BinOp: Interp.e_bin, ast.UnaryOp: Interp.e_unary, ast.BoolOp: Interp.e_bool,
    ast.Compare: Interp.e_compare, ast.Call: Interp.e_call, ast.Lambda: Interp.e_lambda, ast.IfExp: Interp.e_ifexp,
    ast.Subscript: Interp.e_subscript, ast.Slice: Interp.e_slice, ast.JoinedStr: Interp.e_fstring, ast.FormattedValue: Interp.e_fmt,
    ast.NamedExpr: Interp.e_named, ast.ListComp: Interp.e_listcomp, ast.SetComp: Interp.e_setcomp, ast.DictComp: Interp.e_dictcomp,
    ast.GeneratorExp: Interp.e_genexp, ast.Starred: Interp.e_starred,
}
