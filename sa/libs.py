"""Models of the Python standard library pieces and third-party modules."""
from __future__ import annotations

import collections
import collections.abc as cabc
import contextlib
import copy as hostcopy
import functools
import itertools
import json as hostjson
import math
import operator
import types
import typing as hosttyping
from fractions import Fraction

from . import arr as A
from . import contracts
from . import jaxmodel as J
from . import jaxmore  # noqa: F401  (adds to the models)
from . import nodes as N
from .arr import Arr, asarray, as_static_int
from .errors import ProgError, Unsupported
from .interp import (
    UNSET, BoundMethod, CachedFn, CachedProp, EnumAuto, Choice, CMeth, Field, FieldSpec, IClass, IFunc, IModule, Inst, Interp, JsonBytes, JsonByteArray, JsonDoc, Opaque, Prop, SDM, SMeth, Super, TypeForm, XF)
from .jaxmodel import Events, Missing, Namespace


def py(f):
    import types

    if isinstance(f, types.MethodType):
        g = f
        f = lambda *a, **k: g(*a, **k)  # noqa: E731
    f._sa_py = True
    return f


def raiser(exc):
    raise ProgError(exc)


# ------------------------------------------------------------- lock model
class RLockModel(Opaque):
    """threading.RLock / Lock with an event trace and a typestate."""

    def __init__(self, log, reentrant=True):
        self.count, self.log, self.reentrant = 0, log, reentrant
        self.try_ok = True  # outcome of bounded acquisition attempts

    def acquire(self, blocking=True, timeout=-1):
        if (not blocking or timeout != -1) and not self.try_ok:
            self.log.append(("failed", self, N.Loc.cur()))
            return False
        if self.count and not self.reentrant:
            self.log.append(("deadlock", self, N.Loc.cur()))
            raise ProgError(RuntimeError("deadlock: non-reentrant lock acquired twice"))
        self.count += 1
        self.log.append(("acquire", self, N.Loc.cur()))
        return True

    def release(self):
        if self.count <= 0:
            raise ProgError(RuntimeError("cannot release un-acquired lock"))
        self.count -= 1
        self.log.append(("release", self, N.Loc.cur()))

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()
        return False

    def locked(self):
        return self.count > 0


# ----------------------------------------------------------- differt_core
class CompleteGraphModel(Opaque):
    def __init__(self, num_nodes):
        self.n = as_static_int(num_nodes)
        if self.n < 0:
            raise ProgError(OverflowError("can't convert negative int to unsigned"))

    @property
    def num_nodes(self):
        return self.n

    def all_paths(self, from_, to, depth, *, include_from_and_to=True):
        n = self.n
        adj = {i: [j for j in range(n) if j != i] for i in range(n)}
        f, t, d = as_static_int(from_), as_static_int(to), as_static_int(depth)
        if min(f, t, d) < 0:
            raise ProgError(OverflowError("can't convert negative int to unsigned"))
        if f < n or t < n:
            raise Unsupported("complete-graph paths from or to an inner node")
        if f == t and d == 2:  # the library adds no edge from a node to itself
            return iter(())
        adj[f] = list(range(n)) + [t]
        for i in range(n):
            adj[i] = adj[i] + [t]
        return iter(_paths(adj, f, t, d, include_from_and_to))


class DiGraphModel(Opaque):
    def __init__(self, adj):
        self.adj = adj

    @staticmethod
    def from_complete_graph(g):
        return DiGraphModel({i: [j for j in range(g.n) if j != i] for i in range(g.n)})

    @staticmethod
    def empty(n):
        return DiGraphModel({i: [] for i in range(as_static_int(n))})

    @staticmethod
    def from_adjacency_matrix(m):
        raise Unsupported("DiGraph.from_adjacency_matrix")

    @property
    def num_nodes(self):
        return len(self.adj)

    def insert_from_and_to_nodes(self, *, direct_path=True, from_adjacency=None, to_adjacency=None):
        if from_adjacency is not None or to_adjacency is not None:
            raise Unsupported("explicit adjacency")
        n = len(self.adj)
        for i in range(n):
            self.adj[i].append(n + 1)
        self.adj[n] = list(range(n)) + ([n + 1] if direct_path else [])
        self.adj[n + 1] = []
        return n, n + 1

    def disconnect_nodes(self, *nodes, fast_mode=True):
        for x in nodes:
            x = as_static_int(x)
            if x not in self.adj:
                raise ProgError(IndexError("node index out of range"))
            self.adj[x] = []
            if not fast_mode:
                for k in self.adj:
                    self.adj[k] = [j for j in self.adj[k] if j != x]

    def all_paths(self, from_, to, depth, *, include_from_and_to=True):
        return iter(_paths(self.adj, as_static_int(from_), as_static_int(to), as_static_int(depth), include_from_and_to))


def _paths(adj, f, t, d, inc):
    out = []
    if d < 2:
        if d == 1 and f == t:
            raise Unsupported("paths of one node")
        return out

    def rec(path):
        if len(path) == d:
            if path[-1] == t:
                out.append(list(path))
            return
        for j in adj.get(path[-1], []):
            if j == t and len(path) != d - 1:
                continue
            rec(path + [j])

    rec([f])
    res = []
    for p in out:
        q = p if inc else p[1:-1]
        res.append(Arr((len(q),), [N.const(i) for i in q], "i"))
    return res


# ------------------------------------------------------------------ optax
class OptModel(Opaque):
    """An uninterpreted gradient transformation, identified by its settings."""

    def __init__(self, key, stable=True):
        self.key = key
        self.stable = stable

    def init(self, x):
        es = _flat(x)
        return Arr((1,), [N.app("opt_init", self.key, es)], "f")

    def update(self, grads, state, params=None):
        g = _flat(grads)
        s = _flat(state)
        if params is not None and self.key[0] not in ("adam", "sgd", "rmsprop", "adagrad", "yogi"):
            s = s + _flat(params)
        upd = iter([N.app("opt_upd", (self.key, i, len(g)), g + s) for i in range(len(g))])
        new = Arr((1,), [N.app("opt_state", (self.key, len(g)), g + s)], "f")
        return J.tree_map(lambda a: Arr(asarray(a).shape, [next(upd) for _ in asarray(a).data], "f"), grads), new

    def __iter__(self):
        return iter((self.init, self.update))


def _flat(t):
    return [e for a in J.tree_leaves(t) for e in asarray(a).cast("f").data]


def _keyof(v):
    if isinstance(v, Arr):
        return tuple(v.data) if v.shape else v.data[0]
    if isinstance(v, OptModel):
        return v.key
    if isinstance(v, (tuple, list)):
        return tuple(_keyof(x) for x in v)
    if isinstance(v, float):
        return N.const(v) if v == v else "nan"
    if isinstance(v, (bool, str, type(None), int)):
        return v
    return ("obj", id(v))


class Optax(Namespace):
    def __getattr__(self, k):
        if k.startswith("__") or k == "_abs_skip":
            raise AttributeError(k)
        if k == "apply_updates":
            return lambda params, updates: J.tree_map(lambda p, u: asarray(p) + asarray(u), params, updates)
        if k in ("global_norm", "tree_utils", "losses", "safe_norm", "incremental_update", "apply_if_finite"):
            raise Unsupported(f"optax.{k}")
        if k[0].isupper():
            return TypeForm(f"optax.{k}", check=OptModel if k.startswith("GradientTransformation") else None)

        def mk(*a, **kw):
            dflt = {"adam": ["learning_rate", "b1", "b2", "eps", "eps_root"], "sgd": ["learning_rate", "momentum"]}.get(k, [])
            d = dict(zip(dflt, a)) if dflt else {str(i): x for i, x in enumerate(a)}
            d.update(kw)
            o = OptModel((k, tuple(sorted((x, _keyof(y)) for x, y in d.items()))))
            o.settings = (k, d)
            return o

        mk.__name__ = f"optax.{k}"
        return mk


# ---------------------------------------------------------------- equinox
class PathProxy:
    def __init__(self, path, real):
        self.__dict__["_p"], self.__dict__["_r"] = path, real

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return PathProxy(self._p + (("attr", k),), Interp.current.getattr(self._r, k))

    def __getitem__(self, k):
        return PathProxy(self._p + (("item", k),), Interp.current.getitem(self._r, k))

    def __iter__(self):
        if isinstance(self._r, (list, tuple)):
            return iter([self[i] for i in range(len(self._r))])
        raise Unsupported("iteration in tree_at")

    def __len__(self):
        return len(self._r)

    def __call__(self, *a, **k):
        raise Unsupported("call in tree_at selector")


def _setpath(o, path, v):
    if not path:
        return v
    (kind, k), rest = path[0], path[1:]
    if kind == "attr":
        if not isinstance(o, Inst) or k not in o.fields:
            raise Unsupported("tree_at path")
        f = dict(o.fields)
        f[k] = _setpath(f[k], rest, v)
        return Inst(o.cls, f)
    if isinstance(o, tuple):
        i = as_static_int(k)
        lst = list(o)
        lst[i] = _setpath(lst[i], rest, v)
        return tuple(lst)
    if isinstance(o, list):
        lst = list(o)
        lst[as_static_int(k)] = _setpath(lst[as_static_int(k)], rest, v)
        return lst
    if isinstance(o, dict):
        d = dict(o)
        d[k] = _setpath(d[k], rest, v)
        return d
    raise Unsupported("tree_at path")


def tree_at(where, pytree, replace=UNSET, replace_fn=None, is_leaf=None):
    it = Interp.current
    sel = it.call(where, (PathProxy((), pytree),))
    multi = isinstance(sel, (tuple, list))
    sels = list(sel) if multi else [sel]
    if any(not isinstance(s, PathProxy) for s in sels):
        raise Unsupported("tree_at selector")
    if replace_fn is not None:
        reps = [it.call(replace_fn, (s._r,)) for s in sels]
    else:
        if replace is UNSET:
            raise ProgError(TypeError("tree_at requires replace or replace_fn"))
        reps = list(it.iterate(replace)) if multi else [replace]
        if len(reps) != len(sels):
            raise ProgError(ValueError("tree_at: mismatched replacement"))
    for s, r in zip(sels, reps):
        if s._r is None and is_leaf is None:
            raise ProgError(ValueError("tree_at: None is not a leaf"))
        pytree = _setpath(pytree, s._p, r)
    return pytree


def filter_jit(f=None, **kw):
    if f is None:
        return lambda g: filter_jit(g, **kw)
    return J.jitted(f, "eqx")


def eqx_field(**kw):
    return FieldSpec(**kw)


def is_array(x):
    return isinstance(x, Arr)


def is_array_like(x):
    return isinstance(x, (Arr, bool, int, float))


def is_inexact(x):
    return isinstance(x, Arr) and x.kind in "fl"


def partition(tree, spec, is_leaf=None):
    f = (lambda x: Interp.current.truth(spec(x))) if callable(spec) else None
    if f is None:
        raise Unsupported("partition with a tree spec")
    return J.tree_map(lambda x: x if f(x) else None, tree), J.tree_map(lambda x: None if f(x) else x, tree)


def filter_vmap(f=None, *, in_axes=UNSET, out_axes=0, axis_size=None, **kw):
    if f is None:
        return lambda g: filter_vmap(g, in_axes=in_axes, out_axes=out_axes)
    if in_axes is UNSET:
        raise Unsupported("filter_vmap default axes")
    return J.vmap(f, in_axes=in_axes, out_axes=out_axes)


def eqx_combine(*trees):
    raise Unsupported("eqx.combine")


# ---------------------------------------------------------- impure models
_imp = [0]


def impure(name, kind="f"):
    def g(*a, **k):
        Events.impure.append((name, N.Loc.cur()))
        _imp[0] += 1
        return Arr((), [N.var(f"IMPURE:{name}:{_imp[0]}")], kind)

    g.__name__ = name
    g._sa_py = True
    return g


class ImpureNS(Namespace):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return impure(f"{self._name}.{k}")


def build(interp: Interp):
    E = IClass
    MODULE = IClass("Module", (), {}, is_module=True)
    ABCb = IClass("ABC")
    PROTO = IClass("Protocol", kind="protocol")
    PROTO._isproto = True
    GENERIC = IClass("Generic")
    NT = IClass("NamedTuple", kind="NamedTuple")
    MUTMAP = None

    @py
    def m_get(self, key, default=None):
        try:
            return interp.getitem(self, key)
        except ProgError as e:
            if isinstance(e.exc, KeyError):
                return default
            raise

    @py
    def m_contains(self, key):
        try:
            interp.getitem(self, key)
            return True
        except ProgError as e:
            if isinstance(e.exc, KeyError):
                return False
            raise

    class View:
        def __init__(self, m, f, name):
            self.m, self.f, self.name = m, f, name

        def __iter__(self):
            return iter([self.f(self.m, k) for k in iter(self.m)])

        def __len__(self):
            return len(self.m)

        def __contains__(self, x):
            return any(bool(x == y) for y in self)

    @py
    def m_keys(self):
        return View(self, lambda m, k: k, "keys")

    @py
    def m_values(self):
        return View(self, lambda m, k: interp.getitem(m, k), "values")

    @py
    def m_items(self):
        return View(self, lambda m, k: (k, interp.getitem(m, k)), "items")

    @py
    def m_eq(self, o):
        if isinstance(o, Inst) and any(c.kind == "mapping" for c in o.cls.mro):
            return dict(m_items(self)) == dict(m_items(o))
        if isinstance(o, cabc.Mapping):
            return dict(m_items(self)) == dict(o)
        return NotImplemented

    MAPPING = IClass("Mapping", (), {"get": m_get, "__contains__": m_contains, "keys": m_keys, "values": m_values, "items": m_items, "__eq__": m_eq}, kind="mapping")

    @py
    def s_contains(self, x):
        return any(bool(x == y) for y in iter(self))

    SEQ = IClass("Sequence", (), {"__contains__": s_contains}, kind="sequence")

    # ---- typing
    tf = lambda n, base=None, check=None: TypeForm(n, base=base, check=check)
    typing_ = Namespace(
        "typing", Any=tf("Any", check=lambda x, a: True), Callable=tf("Callable", check=cabc.Callable), Optional=tf("Optional"), Union=tf("Union"), TypeVar=tf("TypeVar"), TypeVarTuple=tf("TypeVar"), ParamSpec=tf("TypeVar"),
        Unpack=tf("Unpack"), Generic=tf("Generic", base=GENERIC), Protocol=tf("Protocol", base=PROTO), Self=tf("Self"), Literal=hosttyping.Literal, get_args=hosttyping.get_args,
        overload=py(lambda f: py(lambda *a, **k: raiser(NotImplementedError("overload")))), runtime_checkable=py(lambda c: c), TYPE_CHECKING=False, cast=py(lambda t, v: v), NamedTuple=NT, ClassVar=tf("ClassVar"), Final=tf("Final"), final=py(lambda x: x), override=py(lambda x: x),
        no_type_check=py(lambda x: x), NewType=py(lambda n, t: (lambda x: x)), Annotated=tf("Annotated"), Iterable=tf("Iterable", check=cabc.Iterable), Iterator=tf("Iterator", check=cabc.Iterator), Generator=tf("Generator"),
        Sequence=tf("Sequence", base=SEQ), Mapping=tf("Mapping", base=MAPPING), MutableMapping=tf("MutableMapping", check=cabc.MutableMapping), List=tf("List", check=list), Dict=tf("Dict", check=dict), Tuple=tf("Tuple", check=tuple), Set=tf("Set", check=set), Type=tf("Type"), TypeAlias=tf("TypeAlias"), Concatenate=tf("Concatenate"), Hashable=tf("Hashable", check=cabc.Hashable), TypedDict=tf("TypedDict"), assert_never=py(lambda x: raiser(AssertionError())), Text=str, NoReturn=tf("NoReturn"), Never=tf("Never"), ContextManager=tf("ContextManager"), Collection=tf("Collection", check=cabc.Collection), Reversible=tf("Reversible"), Required=tf("Required"), TypeGuard=tf("TypeGuard"),
    )
    cabcm = Namespace(
        "collections.abc", Iterable=tf("Iterable", check=cabc.Iterable), Iterator=tf("Iterator", check=cabc.Iterator), Mapping=tf("Mapping", base=MAPPING), MutableMapping=tf("MutableMapping", check=cabc.MutableMapping), Sequence=tf("Sequence", base=SEQ),
        MutableSequence=tf("MutableSequence", check=cabc.MutableSequence), Callable=tf("Callable", check=cabc.Callable), Generator=tf("Generator", check=cabc.Generator), Collection=tf("Collection", check=cabc.Collection), Hashable=tf("Hashable", check=cabc.Hashable), Sized=tf("Sized", check=cabc.Sized), Set=tf("Set", check=cabc.Set), Container=tf("Container", check=cabc.Container), KeysView=tf("KeysView"), ValuesView=tf("ValuesView"), ItemsView=tf("ItemsView"), Reversible=tf("Reversible"),
    )

    # ---- abc
    def abstractmethod(f):
        g = f.f if isinstance(f, (CMeth, SMeth)) else f
        try:
            g._sa_abstract = True
        except Exception:
            pass
        return f

    abc_ = Namespace("abc", ABC=ABCb, ABCMeta=tf("ABCMeta"), abstractmethod=py(abstractmethod), abstractproperty=Prop)

    # ---- functools
    class Partial(functools.partial):
        pass

    def update_wrapper(w, f, *a, **k):
        if isinstance(w, IFunc):
            for n in ("__name__", "__qualname__", "__doc__", "__module__"):
                v = getattr(f, n, None)
                if v is not None:
                    setattr(w, n, v)
            w.__dict__["__wrapped__"] = f
        elif isinstance(w, Inst):
            w.fields.update(__name__=getattr(f, "__name__", None), __doc__=getattr(f, "__doc__", None), __wrapped__=f)
        return w

    def wraps(f, *a, **k):
        return py(lambda w: update_wrapper(w, f))

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize):
            return CachedFn(maxsize, 128)
        return py(lambda f: CachedFn(f, maxsize, typed))

    def total_ordering(c):
        import ast

        def has(n):
            return any(n in k.ns for k in c.mro)

        def lt(s, o):
            return interp.truth(interp.compare(ast.Lt(), s, o))

        def eq(s, o):
            return interp.truth(interp.compare(ast.Eq(), s, o))

        # every ordering from the one the class defines and equality
        if has("__lt__"):
            less = lambda s, o: lt(s, o)  # noqa: E731
        elif has("__gt__"):
            less = lambda s, o: interp.truth(interp.compare(ast.Gt(), o, s))  # noqa: E731
        elif has("__le__"):
            less = lambda s, o: interp.truth(interp.compare(ast.LtE(), s, o)) and not eq(s, o)  # noqa: E731
        elif has("__ge__"):
            less = lambda s, o: not interp.truth(interp.compare(ast.GtE(), s, o))  # noqa: E731
        else:
            raise ProgError(ValueError("must define at least one ordering operation: < > <= >="))
        d = {"__lt__": less, "__le__": lambda s, o: less(s, o) or eq(s, o), "__gt__": lambda s, o: not less(s, o) and not eq(s, o), "__ge__": lambda s, o: not less(s, o)}
        for k, f in d.items():
            if not has(k):
                f.__name__ = k
                c.ns[k] = py(f)
        return c

    def freduce(f, xs, *init):
        it = iter(interp.iterate(xs))
        if init:
            acc = init[0]
        else:
            try:
                acc = next(it)
            except StopIteration:
                raise ProgError(TypeError("reduce() of empty iterable with no initial value"))
        for x in it:
            acc = interp.call(f, (acc, x))
        return acc

    functools_ = Namespace(
        "functools", partial=functools.partial, wraps=py(wraps), reduce=py(freduce), lru_cache=py(lru_cache), cache=py(lambda f: CachedFn(f)), singledispatchmethod=py(lambda f: SDM(f)), singledispatch=py(lambda f: SDM(f, False)),
        cached_property=py(lambda f: CachedProp(f)), partialmethod=functools.partialmethod, update_wrapper=py(update_wrapper), total_ordering=py(total_ordering), WRAPPER_ASSIGNMENTS=("__module__", "__name__", "__qualname__", "__doc__"), cmp_to_key=functools.cmp_to_key,
    )

    # ---- operator: tolerate abstract indices
    def itemgetter(*ks):
        def g(o):
            r = tuple(interp.getitem(o, k) for k in ks)
            return r[0] if len(ks) == 1 else r

        return py(g)

    def attrgetter(*ks):
        def one(o, k):
            for p in k.split("."):
                o = interp.getattr(o, p)
            return o

        def g(o):
            r = tuple(one(o, k) for k in ks)
            return r[0] if len(ks) == 1 else r

        return py(g)

    def methodcaller(nm, *a, **k):
        return py(lambda o: interp.call(interp.getattr(o, nm), a, k))

    op = {k: getattr(operator, k) for k in dir(operator) if not k.startswith("_")}
    op.update(itemgetter=py(itemgetter), attrgetter=py(attrgetter), methodcaller=py(methodcaller), getitem=py(lambda o, k: interp.getitem(o, k)), contains=py(lambda c, x: interp.contains(c, x)), truth=py(interp.truth), not_=py(lambda x: not interp.truth(x)), index=py(as_static_int))
    operator_ = Namespace("operator", **op)

    # ---- json
    def jloads(s, **kw):
        if hasattr(s, "payload"):
            return hostcopy.deepcopy(s.payload) if not _has_arr(s.payload) else _copyjson(s.payload)
        try:
            return _xfjson(hostjson.loads(s))
        except ValueError as e:
            raise ProgError(e)
        except TypeError as e:
            raise ProgError(e)

    def jload(fp, **kw):
        return jloads(interp.call(interp.getattr(fp, "read")))

    json_ = Namespace("json", loads=py(jloads), load=py(jload), dumps=Missing("json.dumps"), JSONDecodeError=hostjson.JSONDecodeError, decoder=Namespace("json.decoder", JSONDecodeError=hostjson.JSONDecodeError))

    # ---- contextlib
    class GenCM:
        def __init__(self, gen, again=None):
            self.gen, self.again = gen, again

        def __enter__(self):
            try:
                return next(self.gen)
            except StopIteration:
                raise ProgError(RuntimeError("generator didn't yield"))

        def __exit__(self, t, v, tb):
            if t is None:
                try:
                    next(self.gen)
                except StopIteration:
                    return False
                raise ProgError(RuntimeError("generator didn't stop"))
            if t is GeneratorExit:
                v = GeneratorExit()
            if not isinstance(v, BaseException):
                v = ProgError(v)
            try:
                self.gen.throw(v)
            except StopIteration:
                return True
            except BaseException as e:
                if e is v:
                    return False
                raise
            raise ProgError(RuntimeError("generator didn't stop after throw()"))

        def __call__(self, f):
            return run_inside(f, self.again)

    def run_inside(f, make):
        """f, every call of which happens inside a fresh context."""
        def g(*a, **k):
            cm = make()
            interp.call(interp.getattr(cm, "__enter__"))
            ext = interp.getattr(cm, "__exit__")
            try:
                v = interp.call(f, a, k)
            except ProgError as e:
                if not interp.truth(interp.call(ext, (interp.type_of(e.exc), e if not isinstance(cm, Inst) else e.exc, None))):
                    raise
                return None
            interp.call(ext, (None, None, None))
            return v

        g.__name__ = getattr(f, "__name__", "g")
        g.__wrapped__ = f
        return py(g)

    def contextmanager(f):
        def helper(*a, **k):
            return GenCM(interp.call(f, a, k), lambda: GenCM(interp.call(f, a, k)))

        helper.__name__ = getattr(f, "__name__", "cm")
        helper._sa_cm = f
        return py(helper)

    class Suppress:
        def __init__(self, *t):
            self.t = t

        def __enter__(self):
            return None

        def __exit__(self, t, v, tb):
            return isinstance(v, ProgError) and interp.match_exc(v, self.t)

    class NullCM:
        def __init__(self, v=None):
            self.v = v

        def __enter__(self):
            return self.v

        def __exit__(self, *a):
            return False

    class Closing:
        def __init__(self, v):
            self.v = v

        def __enter__(self):
            return self.v

        def __exit__(self, *a):
            interp.call(interp.getattr(self.v, "close"))
            return False

    class ExitStackM:
        def __init__(self):
            self.cbs = []

        def __enter__(self):
            return self

        def enter_context(self, cm):
            v = interp.call(interp.getattr(cm, "__enter__"))
            ext = interp.getattr(cm, "__exit__")
            inst = isinstance(cm, Inst)
            self.cbs.append(lambda t, e, tb: interp.call(ext, (t, e.exc if inst and isinstance(e, ProgError) else e, tb)))
            return v

        def callback(self, f, *a, **k):
            self.cbs.append(lambda *e: (interp.call(f, a, k), False)[1])
            return f

        def push(self, cm):
            try:
                ext = interp.getattr(cm, "__exit__")
            except ProgError:
                ext = cm
            self.cbs.append(lambda t, e, tb: interp.call(ext, (t, e.exc if isinstance(e, ProgError) else e, tb)))
            return cm

        def pop_all(self):
            o = ExitStackM()
            o.cbs, self.cbs = self.cbs, []
            return o

        def __exit__(self, t, v, tb):
            sup = False
            while self.cbs:
                cb = self.cbs.pop()
                if interp.truth(interp.call(cb, (t, v, tb) if not sup else (None, None, None))):
                    sup = True
            return sup

        close = lambda self: self.__exit__(None, None, None)

    contextlib_ = Namespace("contextlib", contextmanager=py(contextmanager), suppress=Suppress, nullcontext=NullCM, ExitStack=ExitStackM, closing=Closing, AbstractContextManager=ABCb, ContextDecorator=IClass("ContextDecorator", (), {"_recreate_cm": py(lambda self: self), "__call__": py(lambda self, f: run_inside(f, lambda: interp.call(interp.getattr(self, "_recreate_cm"))))}))

    # ---- threading
    interp.lock_log = []
    locks = interp.locks = []

    def mklock(re):
        def g():
            l = RLockModel(interp.lock_log, re)
            locks.append(l)
            return l

        return py(g)

    threading_ = Namespace("threading", RLock=mklock(True), Lock=mklock(False), local=IClass("local"), current_thread=Missing("threading.current_thread"), Thread=Missing("threading.Thread"), get_ident=impure("threading.get_ident"))

    # ---- os / sys
    class Environ(dict):
        def _set(self, k):
            return dict.__contains__(self, k) or bool(k not in ("ENABLE_APPROX", "DISABLE_APPROX") and J.Ambient(f"os.environ[{k!r}]"))

        __contains__ = _set

        def get(self, k, d=None):
            return dict.get(self, k, "1") if self._set(k) else d

        def __getitem__(self, k):
            if not self._set(k):
                raise KeyError(k)
            return dict.get(self, k, "1")

    env = Environ()
    interp.environ = env
    os_ = Namespace("os", cpu_count=lambda: J.Ambient("os.cpu_count()"), environ=env, getenv=py(lambda k, d=None: env.get(k, d)), urandom=impure("os.urandom"), getpid=impure("os.getpid"), path=Missing("os.path"))
    os_.__dict__["name"] = J.Ambient("os.name")
    sys_ = Namespace("sys", platform=J.Ambient("sys.platform"), flags=J.Ambient("sys.flags"), version_info=(3, 12, 0, "final", 0), modules={}, maxsize=2 ** 63 - 1, float_info=Namespace("float_info", epsilon=2.220446049250313e-16))

    # ---- math
    def mfun(name):
        hf = getattr(math, name, None)

        def g(*a):
            if any(isinstance(x, Arr) for x in a):
                jf = {"pow": J.jnp.power, "fabs": J.jnp.abs, "hypot": J.jnp.hypot, "atan2": J.jnp.arctan2}.get(name)
                if all(isinstance(x, Arr) and all(e.is_const for e in x.data) or not isinstance(x, Arr) for x in a):
                    if name in ("sqrt", "sin", "cos", "floor", "ceil"):
                        return getattr(J.jnp, name)(*a)
                A.Tracing.refuse(A.ConcretizationTypeError, "a Python float")
                raise Unsupported(f"math.{name} of an array")
            try:
                v = hf(*a)
            except (ValueError, TypeError, OverflowError) as e:
                raise ProgError(e)
            if name == "sqrt":
                from .interp import _frac

                r = N._fsqrt(_frac(a[0]))
                if r is not None:
                    return XF(r)
            return v

        g.__name__ = name
        return py(g)

    math_ = Namespace("math", pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, tau=math.tau, **{k: mfun(k) for k in ("sqrt", "sin", "cos", "tan", "floor", "ceil", "hypot", "atan2", "exp", "log", "fabs", "pow", "prod", "comb", "perm", "isnan", "isinf", "isfinite", "radians", "degrees", "factorial", "isclose", "copysign", "trunc", "gcd", "fsum", "asin", "acos", "atan", "log2", "log10", "tanh")})

    def it_product(*a, repeat=1):
        return itertools.product(*[list(interp.iterate(x)) for x in a], repeat=repeat)

    def chainf(xs):
        for x in interp.iterate(xs):
            yield from interp.iterate(x)

    def groupby(xs, key=None):
        return itertools.groupby(interp.iterate(xs), (lambda x: interp.call(key, (x,))) if key is not None else None)

    def wrapit(name):
        f = getattr(itertools, name)

        def g(*a, **k):
            return f(*a, **k)

        g.__name__ = name
        return py(g)

    it = {k: wrapit(k) for k in ("accumulate", "combinations", "permutations", "combinations_with_replacement", "compress", "count", "cycle", "dropwhile", "filterfalse", "islice", "repeat", "starmap", "takewhile", "tee", "zip_longest", "pairwise") if hasattr(itertools, k)}
    chain = py(lambda *a: chainf(a))
    chain.from_iterable = py(lambda xs: chainf(xs))
    itertools_ = Namespace("itertools", product=py(it_product), chain=chain, groupby=py(groupby), batched=Missing("batched"), **it)

    # ---- copy
    def cp(x):
        if isinstance(x, (dict, list, set)):
            return hostcopy.copy(x)
        if isinstance(x, Inst):
            return Inst(x.cls, dict(x.fields))
        return x

    def dcp(x):
        if isinstance(x, dict):
            return {k: dcp(v) for k, v in x.items()}
        if isinstance(x, (list, set, tuple)):
            return type(x)(dcp(v) for v in x)
        if isinstance(x, Inst):
            return Inst(x.cls, {k: dcp(v) for k, v in x.fields.items()})
        return x

    copy_ = Namespace("copy", copy=py(cp), deepcopy=py(dcp), replace=py(lambda o, **k: dc_replace(o, **k)))

    # ---- dataclasses
    def dc_replace(o, **kw):
        if not isinstance(o, Inst):
            raise Unsupported("replace")
        d = {f.name: o.fields[f.name] for f in o.cls.all_fields() if f.init and f.name in o.fields}
        d.update(kw)
        return interp.instantiate(o.cls, (), d)

    def asdict(o):
        def conv(v):
            if isinstance(v, Inst) and any(c.is_dataclass or c.is_module for c in v.cls.mro):
                return asdict(v)
            if isinstance(v, (list, tuple)):
                return type(v)(conv(x) for x in v) if not hasattr(v, "_fields") else type(v)(*map(conv, v))
            if isinstance(v, dict):
                return {k: conv(x) for k, x in v.items()}
            return dcp(v)

        return {f.name: conv(o.fields[f.name]) for f in o.cls.all_fields() if f.name in o.fields}

    def dataclass(c=None, frozen=False, **kw):
        def deco(c):
            c.is_dataclass = True
            c.frozen = frozen or c.frozen
            c.no_eq = kw.get("eq") is False
            if kw.get("kw_only"):
                for f in getattr(c, "anno_fields", c.own_fields):
                    f.kw_only = True
            if kw.get("order"):
                def order(n, op):
                    def g(s, o):
                        if not isinstance(o, Inst) or o.cls is not s.cls:
                            return NotImplemented
                        fs = [f.name for f in c.all_fields() if f.compare]
                        return op(tuple(s.fields[f] for f in fs), tuple(o.fields[f] for f in fs))

                    c.ns.setdefault(n, py(g))

                for n, op in (("__lt__", operator.lt), ("__le__", operator.le), ("__gt__", operator.gt), ("__ge__", operator.ge)):
                    order(n, op)
            c.own_fields = getattr(c, "anno_fields", c.own_fields)
            for f in c.own_fields:
                if isinstance(f.default, FieldSpec):
                    raise Unsupported("dataclass field")
            return c

        return deco(c) if c is not None else deco

    dataclasses_ = Namespace("dataclasses", replace=py(dc_replace), dataclass=py(dataclass), field=py(eqx_field), fields=py(lambda o: tuple(o.cls.all_fields() if isinstance(o, Inst) else o.all_fields())), is_dataclass=py(lambda o: any(c.is_dataclass or c.is_module for c in (o.cls if isinstance(o, Inst) else o).mro) if isinstance(o, (Inst, IClass)) else False), asdict=py(asdict), astuple=py(lambda o: tuple(asdict(o).values())), KW_ONLY=TypeForm("KW_ONLY"), MISSING=UNSET, FrozenInstanceError=__import__("dataclasses").FrozenInstanceError)

    import re as hostre
    import enum as hostenum

    class ArrType(TypeForm):
        pass

    def jx(name, kinds):
        def chk(x, args):
            if not isinstance(x, Arr) or x.kind not in kinds:
                return False
            if len(args) == 2 and isinstance(args[1], str):
                return _shape_ok(x, args[1])
            return True

        return TypeForm(f"jaxtyping.{name}", check=chk)

    jaxtyping_ = Namespace(
        "jaxtyping", Array=Arr, Float=jx("Float", "fl"), Int=jx("Int", "i"), Bool=jx("Bool", "b"), Integer=jx("Integer", "i"), Num=jx("Num", "fil"), Shaped=jx("Shaped", "fiblk"), Inexact=jx("Inexact", "fl"), Real=jx("Real", "fil"), UInt=jx("UInt", "i"), PRNGKeyArray=TypeForm("PRNGKeyArray", check=lambda x, a: isinstance(x, Arr) and x.kind == "k"), Key=jx("Key", "k"), PyTree=TypeForm("PyTree"), ArrayLike=TypeForm("ArrayLike", check=lambda x, a: isinstance(x, (Arr, int, float, bool))), ScalarLike=TypeForm("ScalarLike"), Scalar=TypeForm("Scalar"),
        jaxtyped=py(contracts.jaxtyped), config=Namespace("jaxtyping.config"),
    )

    eqx = Namespace(
        "equinox", Module=MODULE, field=eqx_field, static_field=lambda **k: FieldSpec(static=True, **k), filter_jit=filter_jit, tree_at=tree_at, is_array=is_array, is_array_like=is_array_like, is_inexact_array=is_inexact, is_inexact_array_like=is_array_like, partition=partition, combine=eqx_combine, filter=lambda t, s, **k: partition(t, s)[0], filter_vmap=filter_vmap, filter_grad=J.grad, filter_value_and_grad=J.value_and_grad, AbstractVar=TypeForm("AbstractVar"), AbstractClassVar=TypeForm("ClassVar"), tree_equal=lambda *t: J.tree_equal(*t),
        tree_pformat=lambda *a, **k: "tree", error_if=lambda x, *a, **k: x, internal=Missing("equinox.internal"), nn=Missing("equinox.nn"), filter_eval_shape=Missing("filter_eval_shape"), filter_closure_convert=Missing("x"), tree_inference=Missing("x"), Partial=functools.partial,
    )

    def ident(f=None, *a, **k):
        return f if callable(f) and not a else (lambda g: g)

    rnd = ImpureNS("random")
    nprandom = ImpureNS("numpy.random")
    np_ns = Namespace("numpy", **{k: v for k, v in J.jnp.__dict__.items() if k != "_name"})

    def numpy_fn(k, f):
        if isinstance(f, type) or not callable(f) or k in ("shape", "ndim", "size", "result_type", "dtype", "isscalar", "issubdtype", "finfo", "iinfo") or isinstance(f, (Namespace, Missing)) or not hasattr(f, "__code__"):
            return f

        @functools.wraps(f)
        def g(*a, **kw):
            if A.Tracing.on and any(isinstance(x, Arr) and not all(e.is_const or e.sort == "k" for e in x.data) for x in J.tree_leaves([*a, *kw.values()])):
                A.Tracing.refuse(A.TracerArrayConversionError, "a NumPy array")
            return f(*a, **kw)

        return g

    for k, f in list(np_ns.__dict__.items()):
        np_ns.__dict__[k] = numpy_fn(k, f)
    np_ns.__dict__["random"] = nprandom
    np_ns.__dict__["pi"] = math.pi
    ens = {"name": Prop(py(lambda self: self.fields["_name_"])), "value": Prop(py(lambda self: self.fields["_value_"]))}
    ENUM = IClass("Enum", (), dict(ens), kind="enum")

    def unique(c):
        if len(list(iter(c))) != len(c.enum_members()):
            raise ProgError(ValueError(f"duplicate values found in <enum '{c.__name__}'>"))
        return c

    enum_ = Namespace("enum", Enum=ENUM, auto=py(lambda: EnumAuto()), unique=py(unique), StrEnum=IClass("StrEnum", (), {**ens, "__mixin__": str}, kind="enum"), IntEnum=IClass("IntEnum", (), {**ens, "__mixin__": int}, kind="enum"))

    @py
    def sns_init(self, **k):
        self.fields.update(k)

    @py
    def sns_eq(self, o):
        return isinstance(o, Inst) and o.cls.issub(SNS) and self.fields == o.fields

    SNS = IClass("SimpleNamespace", (), {"__init__": sns_init, "__eq__": sns_eq, "__hash__": None, "__repr__": py(lambda self: "namespace(" + ", ".join(f"{k}={v!r}" for k, v in self.fields.items()) + ")")})
    types_ = Namespace("types", MappingProxyType=types.MappingProxyType, SimpleNamespace=SNS, FunctionType=types.FunctionType, MethodType=py(lambda f, o: BoundMethod(f, o)), GenericAlias=tf("GenericAlias"), ModuleType=IModule, TracebackType=tf("TracebackType"), NoneType=type(None), UnionType=types.UnionType)
    def lazy(n):
        return interp.load_source("_sa_prelude", PRELUDE, "<prelude>", ["_sa_prelude"]).vars[n]

    interp.libs = {"collections.abc": cabcm, "__future__": Namespace("__future__"), "typing": typing_}
    interp.builtins = build_builtins(interp)
    coll = Namespace("collections", OrderedDict=collections.OrderedDict, defaultdict=collections.defaultdict, deque=collections.deque, Counter=collections.Counter, namedtuple=collections.namedtuple, ChainMap=collections.ChainMap, abc=cabcm, UserDict=lazy("UserDict"), UserList=lazy("UserList"))
    from .interp import PKG

    class CtxToken:
        def __init__(self, var, old):
            self.var, self.old_value = var, old

    class CtxVar:
        """contextvars.ContextVar within one context."""

        def __init__(self, name, *, default=UNSET):
            self.name, self._d, self._v = name, default, UNSET

        def get(self, *d):
            if self._v is not UNSET:
                return self._v
            if d:
                return d[0]
            if self._d is not UNSET:
                return self._d
            raise ProgError(LookupError(self.name))

        def set(self, v):
            t = CtxToken(self, self._v)
            self._v = v
            return t

        def reset(self, t):
            if t.var is not self:
                raise ProgError(ValueError("token of another variable"))
            if getattr(t, "used", False):
                raise ProgError(RuntimeError("token has already been used once"))
            t.used = True
            self._v = t.old_value

    mods = {
        "contextvars": Namespace("contextvars", ContextVar=CtxVar, Token=CtxToken, copy_context=Missing("copy_context")),
        "typing": typing_, "typing_extensions": typing_, "collections.abc": cabcm, "collections": coll, "abc": abc_, "functools": functools_, "operator": operator_, "json": json_, "contextlib": contextlib_, "threading": threading_, "os": os_, "sys": sys_, "math": math_,
        "itertools": itertools_, "copy": copy_, "dataclasses": dataclasses_, "re": hostre, "enum": enum_, "types": types_, "warnings": Namespace("warnings", warn=py(lambda *a, **k: None), catch_warnings=NullCM, simplefilter=py(lambda *a, **k: None)),
        "logging": Namespace("logging", getLogger=py(lambda *a: Namespace("logger", **{k: py(lambda *a, **k: None) for k in ("debug", "info", "warning", "error", "exception")}))),
        "random": rnd, "secrets": ImpureNS("secrets"), "uuid": ImpureNS("uuid"), "time": ImpureNS("time"), "datetime": ImpureNS("datetime"), "string": __import__("string"), "inspect": Missing("inspect"), "textwrap": __import__("textwrap"), "numbers": Namespace("numbers", Number=TypeForm("Number", check=lambda x, a: isinstance(x, (int, float))), Real=TypeForm("Real", check=lambda x, a: isinstance(x, (int, float))), Integral=TypeForm("Integral", check=lambda x, a: isinstance(x, int))),
        "jax": J.jax, "jax.numpy": J.jnp, "jax.lax": J.lax, "jax.random": J.random, "jax.nn": J.nn, "jax.tree_util": J.tree_util, "jax.tree": J.tree, "jax.numpy.linalg": J.jnp.linalg, "jax.scipy": J.scipy, "jax.scipy.special": J.special, "jax.typing": J.jax.typing, "jax.core": J.jax.core,
        "numpy": np_ns, "numpy.random": nprandom, "equinox": eqx, "optax": Optax("optax"), "jaxtyping": jaxtyping_, "beartype": Namespace("beartype", beartype=py(contracts.beartype), typing=typing_), "differt_core": Namespace("differt_core", rt=None),
        "differt_core.rt": Namespace("differt_core.rt", CompleteGraph=CompleteGraphModel, DiGraph=DiGraphModel), "matplotlib": Namespace("matplotlib", artist=Namespace("artist", Artist=TypeForm("Artist")), axes=Namespace("axes", Axes=TypeForm("Axes"))), "matplotlib.artist": Namespace("matplotlib.artist", Artist=TypeForm("Artist")), "matplotlib.axes": Namespace("matplotlib.axes", Axes=TypeForm("Axes")),
        "__future__": Namespace("__future__"),
    }
    mods["differt_core"].__dict__["rt"] = mods["differt_core.rt"]
    mods["collections"].__dict__["abc"] = cabcm
    return mods


PRELUDE = """
from collections.abc import Mapping
class UserDict(Mapping):
    def __init__(self, dict=None, /, **kwargs):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kwargs:
            self.update(kwargs)
    def __len__(self): return len(self.data)
    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if hasattr(type(self), "__missing__"):
            return type(self).__missing__(self, key)
        raise KeyError(key)
    def __setitem__(self, key, item): self.data[key] = item
    def __delitem__(self, key): del self.data[key]
    def __iter__(self): return iter(self.data)
    def __contains__(self, key): return key in self.data
    def __repr__(self): return repr(self.data)
    def update(self, other=(), /, **kwds):
        if hasattr(other, "keys"):
            for k in other.keys():
                self[k] = other[k]
        else:
            for k, v in other:
                self[k] = v
        for k, v in kwds.items():
            self[k] = v
    def pop(self, key, *default):
        try:
            v = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        del self[key]
        return v
    def setdefault(self, key, default=None):
        if key not in self:
            self[key] = default
        return self[key]
    def clear(self): self.data.clear()
    def copy(self): return type(self)(self.data)
    def __or__(self, o): return type(self)({**self.data, **dict(o)})
    def __ior__(self, o):
        self.update(o)
        return self
class UserList:
    def __init__(self, initlist=None):
        self.data = [] if initlist is None else list(initlist)
    def __len__(self): return len(self.data)
    def __getitem__(self, i): return type(self)(self.data[i]) if isinstance(i, slice) else self.data[i]
    def __setitem__(self, i, v): self.data[i] = v
    def __delitem__(self, i): del self.data[i]
    def __iter__(self): return iter(self.data)
    def __contains__(self, x): return x in self.data
    def __eq__(self, o): return self.data == (o.data if isinstance(o, UserList) else o)
    def __repr__(self): return repr(self.data)
    def __add__(self, o): return type(self)(self.data + list(o))
    def append(self, x): self.data.append(x)
    def extend(self, x): self.data.extend(x)
    def insert(self, i, x): self.data.insert(i, x)
    def pop(self, i=-1): return self.data.pop(i)
    def remove(self, x): self.data.remove(x)
    def index(self, x): return self.data.index(x)
    def count(self, x): return self.data.count(x)
    def sort(self, **k): self.data.sort(**k)
    def reverse(self): self.data.reverse()
"""


def _shape_ok(x, spec):
    toks = spec.split()
    if any(t.startswith("*") or t == "..." for t in toks):
        return True
    if len(toks) != x.ndim:
        return False
    for t, d in zip(toks, x.shape):
        if t.isdigit() and int(t) != d:
            return False
    return True


def _has_arr(x):
    if isinstance(x, dict):
        return any(_has_arr(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(_has_arr(v) for v in x)
    return isinstance(x, Arr)


def _copyjson(x):
    if isinstance(x, dict):
        return {k: _copyjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_copyjson(v) for v in x]
    return x


def _xfjson(x):
    if isinstance(x, dict):
        return {k: _xfjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_xfjson(v) for v in x]
    if isinstance(x, float):
        return XF(Fraction(repr(x)))
    return x


# --------------------------------------------------------------- builtins
def build_builtins(interp: Interp):
    def b_type(*a):
        if len(a) == 3:
            c = IClass(a[0], [b for b in map(interp.as_base, a[1]) if b is not None], dict(a[2]), None)
            if c.is_module or c.kind or any(b.kind for b in c.mro):
                raise Unsupported("type() with three arguments")
            return c
        if len(a) != 1:
            raise ProgError(TypeError("type() takes 1 or 3 arguments"))
        return interp.type_of(a[0])

    class TypeBuiltin:
        """type, callable and usable in annotations / isinstance."""

    def b_getattr(o, n, *d):
        try:
            return interp.getattr(o, n)
        except ProgError as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    def b_hasattr(o, n):
        try:
            interp.getattr(o, n)
            return True
        except ProgError as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    def b_next(g, *d):
        try:
            if isinstance(g, Inst):
                return interp.call(interp.getattr(g, "__next__"))
            return next(g)
        except StopIteration as e:
            if d:
                return d[0]
            raise ProgError(e)
        except ProgError as e:
            if d and isinstance(e.exc, StopIteration):
                return d[0]
            raise
        except TypeError as e:
            raise ProgError(e)

    def b_int(x=0, *a):
        if isinstance(x, Arr):
            if x.size != 1:
                raise ProgError(TypeError("only length-1 arrays can be converted"))
            if not x.data[0].is_const:
                A.Tracing.refuse(A.ConcretizationTypeError, "a Python integer")
                Events.concretize.append(("int", N.Loc.cur()))
                return x if x.kind == "i" else x.astype(int)
            return as_static_int(x.astype(int))
        try:
            return int(x, *a)
        except (ValueError, TypeError) as e:
            raise ProgError(e)

    def b_float(x=0.0):
        if isinstance(x, Arr):
            if x.size != 1:
                raise ProgError(TypeError("only length-1 arrays can be converted"))
            if not x.data[0].is_const:
                A.Tracing.refuse(A.ConcretizationTypeError, "a Python float")
            Events.concretize.append(("float", N.Loc.cur()))
            c = N.cval(x.data[0])
            if c is not None and not isinstance(c, bool):
                return XF(c)
            return x.reshape(()).cast("f")
        if isinstance(x, int):
            return XF(Fraction(x))
        if isinstance(x, float):
            return x
        try:
            v = float(x)
            return XF(Fraction(x.strip())) if v == v and abs(v) != math.inf else v
        except (ValueError, TypeError) as e:
            raise ProgError(e)

    def b_bool(x=False):
        if isinstance(x, Arr) and x.size == 1 and not x.data[0].is_const:
            return bool(x)
        return interp.truth(x)

    def b_len(x):
        if isinstance(x, Choice):
            n = {len(o) for o in x.opts}
            if len(n) == 1:
                return n.pop()
            raise Unsupported("len of a dynamically chosen object")
        try:
            return len(x)
        except (ProgError, Unsupported):
            raise
        except TypeError as e:
            raise ProgError(e)

    def b_sum(xs, start=0):
        acc = start
        import ast

        for x in interp.iterate(xs):
            acc = interp.binop(ast.Add(), acc, x)
        return acc

    def mm(name):
        hf = getattr(__import__("builtins"), name)

        def g(*a, **k):
            xs = list(interp.iterate(a[0])) if len(a) == 1 else list(a)
            key = k.get("key")
            if not xs:
                if "default" in k:
                    return k["default"]
                raise ProgError(ValueError(f"{name}() arg is an empty sequence"))
            ks = [interp.call(key, (x,)) for x in xs] if key else xs
            best = 0
            for i in range(1, len(xs)):
                c = ks[i] < ks[best] if name == "min" else ks[best] < ks[i]
                if interp.truth(c):
                    best = i
            return xs[best]

        return py(g)

    def b_sorted(xs, key=None, reverse=False):
        xs = list(interp.iterate(xs))
        import functools as ft

        ks = [interp.call(key, (x,)) for x in xs] if key else xs
        idx = list(range(len(xs)))

        def c(i, j):
            a, b = ks[i], ks[j]
            return -1 if interp.truth(a < b) else 1 if interp.truth(b < a) else 0

        try:
            idx.sort(key=ft.cmp_to_key(c), reverse=bool(reverse))
        except TypeError as e:
            raise ProgError(e)
        return [xs[i] for i in idx]

    def b_enumerate(xs, start=0):
        i = start
        for x in interp.iterate(xs):
            yield (i, x)
            i += 1

    def b_zip(*xs, strict=False):
        its = [interp.iterate(x) for x in xs]
        if not its:
            return
        while True:
            out = []
            for j, i in enumerate(its):
                try:
                    out.append(next(i))
                except StopIteration:
                    if strict:
                        if j > 0:
                            raise ProgError(ValueError(f"zip() argument {j + 1} is shorter"))
                        for i2 in its[1:]:
                            for _ in i2:
                                raise ProgError(ValueError("zip() argument 2 is longer"))
                    return
            yield tuple(out)

    def b_map(f, *xs):
        for t in b_zip(*xs):
            yield interp.call(f, t)

    def b_filter(f, xs):
        for x in interp.iterate(xs):
            if interp.truth(x if f is None else interp.call(f, (x,))):
                yield x

    def b_reversed(x):
        if isinstance(x, (list, tuple, str, range)):
            return reversed(x)
        if isinstance(x, dict):
            return reversed(x)
        if isinstance(x, Arr):
            return iter([x[i] for i in range(len(x) - 1, -1, -1)])
        if isinstance(x, Inst) and x.cls.lookup("__len__") is not UNSET:
            return iter([interp.getitem(x, i) for i in range(len(x) - 1, -1, -1)])
        raise ProgError(TypeError(f"'{type(x).__name__}' object is not reversible"))

    def b_any(xs):
        for x in interp.iterate(xs):
            if interp.truth(x):
                return True
        return False

    def b_all(xs):
        for x in interp.iterate(xs):
            if not interp.truth(x):
                return False
        return True

    def b_print(*a, **k):
        return None

    def b_range(*a):
        return range(*[as_static_int(x) for x in a])

    def b_abs(x):
        return abs(x)

    def b_round(x, n=None):
        if isinstance(x, Arr):
            return x.round()
        return round(x) if n is None else round(x, n)

    def b_pow(a, b, *m):
        import ast

        if m:
            try:
                return pow(a, b, *m)
            except (TypeError, ValueError) as e:
                raise ProgError(e)
        return interp.binop(ast.Pow(), a, b)

    def b_iter(x, *s):
        if s:
            def g():
                while True:
                    v = interp.call(x)
                    import ast

                    if interp.truth(interp.compare(ast.Eq(), v, s[0])):
                        return
                    yield v

            return g()
        if isinstance(x, types.GeneratorType):
            return x
        return interp.iterate(x)

    def b_id(x):
        return id(x)

    def b_hash(x):
        if isinstance(x, (list, dict, set, Arr)):
            raise ProgError(TypeError("unhashable type"))
        return hash(x)

    def b_callable(x):
        if isinstance(x, Inst):
            return x.cls.lookup("__call__") is not UNSET
        return callable(x)

    def b_delattr(o, n):
        interp.delattr(o, n)

    def b_setattr(o, n, v):
        interp.setattr(o, n, v)

    def b_repr(x):
        return repr(x)

    def b_vars(x):
        if isinstance(x, Inst):
            return x.fields
        if isinstance(x, IModule):
            return x.vars
        raise Unsupported("vars()")

    def b_super(*a):
        if len(a) == 2:
            return Super(a[0], a[1])
        raise ProgError(RuntimeError("super(): no arguments"))

    class TypeCaller(type):
        pass

    def ctor(host, f):
        """A builtin type: callable like the host type, usable in isinstance."""
        return host

    import builtins as hb

    out = {}
    for k in ("True", "False", "None", "NotImplemented", "Ellipsis"):
        out[k] = getattr(hb, k)
    for k in dir(hb):
        v = getattr(hb, k)
        if isinstance(v, type) and issubclass(v, BaseException):
            out[k] = v
    for k in ("str", "bytes", "bytearray", "frozenset", "slice", "complex", "memoryview", "divmod", "chr", "ord", "format", "bin", "hex", "ascii"):
        out[k] = getattr(hb, k)
    out["object"] = object
    out["__debug__"] = J.Ambient("__debug__")
    out.update(
        getattr=py(b_getattr), hasattr=py(b_hasattr), setattr=py(b_setattr), delattr=py(b_delattr), isinstance=py(interp.isinst), issubclass=py(interp.issubclass), next=py(b_next), len=py(b_len), sum=py(b_sum), min=mm("min"), max=mm("max"), sorted=py(b_sorted),
        enumerate=py(b_enumerate), zip=py(b_zip), map=py(b_map), filter=py(b_filter), reversed=py(b_reversed), any=py(b_any), all=py(b_all), print=py(b_print), range=py(b_range), abs=py(b_abs), round=py(b_round), pow=py(b_pow), iter=py(b_iter), id=py(b_id), hash=py(b_hash), callable=py(b_callable), repr=py(b_repr), vars=py(b_vars), super=py(b_super), type=py(b_type), property=Prop, classmethod=CMeth, staticmethod=SMeth, locals=py(lambda: {}), globals=py(lambda: {}), open=Missing("open"), input=Missing("input"), exec=Missing("exec"), eval=Missing("eval"), __import__=Missing("__import__"), dir=Missing("dir"), __name__="differt2d",
    )
    # container constructors must iterate through the interpreter and stay types
    conv = {"int": (int, b_int), "float": (float, b_float), "bool": (bool, b_bool), "list": (list, None), "tuple": (tuple, None), "dict": (dict, None), "set": (set, None), "range": (range, b_range)}
    for k, (host, f) in conv.items():
        out[k] = host
    interp.ctors = {
        int: b_int, float: b_float, bool: b_bool, range: b_range,
        list: lambda *a: list(interp.iterate(a[0])) if a else [], tuple: lambda *a: tuple(interp.iterate(a[0])) if a else (), set: lambda *a: set(interp.iterate(a[0])) if a else set(), frozenset: lambda *a: frozenset(interp.iterate(a[0])) if a else frozenset(),
    }

    def b_dict(*a, **k):
        d = {}
        if a:
            o = a[0]
            if isinstance(o, (dict,)) or hasattr(o, "keys") or isinstance(o, Inst):
                interp.dict_update(d, o)
            else:
                for kv in interp.iterate(o):
                    kk, v = interp.iterate(kv)
                    d[interp.hashable(kk)] = v
        d.update(k)
        return d

    interp.ctors[dict] = b_dict
    out["range"] = range
    return out
