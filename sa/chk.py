"""Obligation runner: abstract worlds, comparison, partitioning, reporting."""
from __future__ import annotations

import ast
import contextlib
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import canon as CN
from . import jaxmodel as J
from . import nodes as N
from .arr import Arr, asarray
from .canon import Canon, TooBig, explain
from .errors import AnchorMissing, Mismatch, ProgError, Timeout, Undecided, Unsupported
from .interp import PKG, REPO, BoundMethod, Choice, Frame, IClass, IFunc, IModule, Inst, Interp, Opaque, Scope, UNSET
from .libs import OptModel, py

jnp = J.jnp
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------ value keys
def keyof(v):
    """Structural key of any abstract value (nodes stay nodes)."""
    if isinstance(v, Arr):
        return ("A", v.shape, tuple(v.data))
    if isinstance(v, bool):
        return ("A", (), (N.const(v),))
    if isinstance(v, (int, float, Fraction)):
        return ("A", (), (N.const(v),))
    if v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, N.Node):
        return v
    if isinstance(v, (tuple, list)):
        return ("seq",) + tuple(keyof(x) for x in v)
    if isinstance(v, dict):
        return ("map",) + tuple((k if isinstance(k, str) else repr(k), keyof(v[k])) for k in sorted(v, key=str))
    if isinstance(v, Inst):
        return ("obj", v.cls.__name__) + tuple((k, keyof(x)) for k, x in v.fields.items())
    if isinstance(v, OptModel):
        return ("opt", v.key)
    if isinstance(v, IClass):
        return ("class", v.__name__)
    if isinstance(v, IFunc):
        return ("func", v.__name__)
    if isinstance(v, Choice):
        return ("choice", keyof(v.idx), tuple(keyof(x) for x in v.opts))
    if callable(v):
        return ("host", getattr(v, "__name__", "?"), id(v))
    return ("x", type(v).__name__, id(v))


def shallow(v):
    """Identity-sensitive fingerprint of a caller-visible value (for mutation)."""
    if isinstance(v, Arr):
        return ("A", id(v), v.shape, tuple(x.uid for x in v.data))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, id(v), tuple(shallow(x) for x in v))
    if isinstance(v, dict):
        return ("dict", id(v), tuple((k, shallow(x)) for k, x in v.items()))
    if isinstance(v, Inst):
        return ("inst", id(v), v.cls.__name__, tuple((k, shallow(x)) for k, x in v.fields.items()))
    if isinstance(v, set):
        return ("set", id(v), tuple(sorted(map(repr, v))))
    if v is None or isinstance(v, (str, int, float, bool, bytes)):
        return v
    return ("id", id(v))


# -------------------------------------------------- reference interpretation
class _Unreliable(Exception):
    pass


class Ref:
    """Interpretation of two value graphs in the ordered field at a point.

    Used only to confirm a value-number disagreement (algebraic laws the
    numbering does not know must not raise alarms)."""

    def __init__(self, env, canon, generic=False):
        self.env, self.canon, self.generic = env, canon, generic
        self.memo = {}
        self.inexact = False

    def hash(self, key, lo=-2, hi=2):
        h = int.from_bytes(hashlib.sha256(repr((self.env.get("#salt"), key)).encode()).digest()[:4], "big")
        return lo + (hi - lo) * (h / 2**32)

    def k(self, x):
        if isinstance(x, N.Node):
            v = self.ev(x)
            return round(float(v), 7) if isinstance(v, (Fraction, float)) and not isinstance(v, bool) else v
        if isinstance(x, (tuple, list)):
            return tuple(self.k(y) for y in x)
        return repr(x) if not isinstance(x, (str, int, float, bool, type(None))) else x

    def ev(self, n):
        r = self.memo.get(n.uid)
        if r is None:
            todo = [n]
            while todo:
                t = todo[-1]
                if t.uid in self.memo:
                    todo.pop()
                    continue
                pend = [x for x in t.args if isinstance(x, N.Node) and x.uid not in self.memo] if t.op != "D" else []
                if pend:
                    todo.extend(pend)
                    continue
                todo.pop()
                self.memo[t.uid] = self._ev(t)
            r = self.memo[n.uid]
        return r

    def cmp(self, op, a, b):
        if a != a or b != b:
            return False
        ex = isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int))
        if not ex and abs(a) != math.inf and abs(b) != math.inf and abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b)):
            raise _Unreliable
        if op == "eq":
            r = a == b
            if r and self.generic:
                raise _Unreliable
            return r
        return a < b if op == "lt" else a <= b

    def _ev(self, n):
        o, a = n.op, n.args
        if o == "const":
            return n.attr
        if o in ("inf", "ninf", "nan"):
            return {"inf": math.inf, "ninf": -math.inf, "nan": math.nan}[o]
        if o == "var":
            nm = n.attr
            if nm == "EPS":
                return Fraction(0)
            if nm not in self.env:
                lo, hi = n._iv if n._iv else (-math.inf, math.inf)
                v = _sample(self.env["#rng"], lo, hi, self.env["#grid"], n.sort, self.env["#pool"])
                s = self.env.get("#scale", 1)
                if s != 1 and not isinstance(v, bool) and lo <= v * s <= hi:
                    v = v * s
                self.env[nm] = v
            return self.env[nm]
        if o == "app" and n.attr[0] in ("argmin", "argmax"):
            vs = [self.ev(x) for x in n.attr[1]]
            if any(x != x for x in vs):
                raise _Unreliable
            m = (min if n.attr[0] == "argmin" else max)(vs)
            i = vs.index(m)
            for j, x in enumerate(vs):
                if j != i and not (isinstance(x, (int, Fraction)) and isinstance(m, (int, Fraction))):
                    self.cmp("lt", m, x)
            return Fraction(vs.index(m))
        if o == "app" and n.sort != "k":
            key, (lo, hi) = ("app", n.attr[0], self.k(n.attr[1]), tuple(self.k(x) for x in a)), _rng(n)
            v = self.hash(key, lo, hi)
            if n.sort != "b" and self.env.get("#near") and self.hash(("near", n.attr[0]), 0, 1) < 0.5:
                # values of this function close to each other
                v = Fraction((lo + hi) / 2).limit_denominator(1000) + Fraction(int(self.hash(key, 0, 10**4)), 10**9)
            elif n.sort != "b" and self.env.get("#scale", 1) > 1 and not (n._iv and (n._iv[0] != -math.inf or n._iv[1] != math.inf)) and self.hash(("scale", n.attr[0]), 0, 1) < 0.5:
                v = v * float(self.env["#scale"])
            return v > 0 if n.sort == "b" else v
        if o in ("app", "D", "gather", "argmin", "argmax", "alias", "custom") or n.sort == "k":
            if o in ("alias", "custom"):
                return self.ev(a[0])
            if o == "D" and not any(m.op == "app" for m in N.walk([n.attr[0]])):
                raise _Unreliable
            if o == "gather" and len(a) > 1:
                i = self.ev(a[0])
                return self.ev(a[1 + max(0, min(int(i), len(a) - 2))])
            if o in ("argmin", "argmax"):
                vs = [self.ev(x) for x in a]
                m = (min if o == "argmin" else max)(vs)
                return Fraction(vs.index(m))
            return self.hash(("key", self.canon.key(n)))
        v = [self.ev(x) for x in a]
        f = lambda x: float(x)
        try:
            if o == "add":
                return v[0] + v[1]
            if o == "mul":
                return v[0] * v[1]
            if o == "inv":
                if v[0] == 0:
                    raise _Unreliable
                return 1 / v[0] if isinstance(v[0], Fraction) else (0.0 if abs(v[0]) == math.inf else 1 / v[0])
            if o == "sqrt":
                if v[0] < 0:
                    if v[0] > -1e-9:
                        return 0.0
                    return math.nan
                if isinstance(v[0], Fraction):
                    r = N._fsqrt(v[0])
                    if r is not None:
                        return r
                return math.sqrt(v[0])
            if o == "abs":
                return abs(v[0])
            if o in ("min", "max"):
                if any(x != x for x in v):
                    return math.nan
                return (min if o == "min" else max)(v)
            if o == "eq" and self.generic and v[0] == v[1]:
                m = self.canon.b(n)
                if m.v is not None:
                    raise _Unreliable
                return m.leaf
            if o in ("lt", "le", "eq"):
                return self.cmp(o, v[0], v[1])
            if o == "and":
                return v[0] and v[1]
            if o == "or":
                return v[0] or v[1]
            if o == "not":
                return not v[0]
            if o == "xor":
                return v[0] != v[1]
            if o in ("ite", "bite"):
                return v[1] if v[0] else v[2]
            if o in ("log", "log2", "log10") and v[0] < -1e-9 or o == "log1p" and v[0] < -1 - 1e-9 or o in ("arccos", "arcsin", "arctanh") and abs(v[0]) > 1 + 1e-6 or o in ("acosh", "arccosh") and v[0] < 1 - 1e-6:
                return math.nan
            if o in ("sin", "cos", "tan", "exp", "tanh", "log", "sinh", "cosh", "expm1", "log1p"):
                return getattr(math, o)(f(v[0]))
            if o in ("arctan", "arcsin", "arccos"):
                return getattr(math, "a" + o[3:])(f(v[0]))
            if o in ("arctan2", "atan2"):
                return math.atan2(v[0], v[1])
            if o == "sigmoid":
                return 1 / (1 + math.exp(-f(v[0])))
            if o == "softplus":
                x = f(v[0])
                return max(x, 0.0) + math.log1p(math.exp(-abs(x)))
            if o in ("log2", "log10", "erf", "erfc", "lgamma", "exp2", "asinh", "acosh", "atanh"):
                return getattr(math, o)(f(v[0]))
            if o in ("arcsinh", "arccosh", "arctanh"):
                return getattr(math, "a" + o[3:])(f(v[0]))
            if o == "cbrt":
                return math.copysign(abs(f(v[0])) ** (1 / 3), f(v[0]))
            if o == "pow":
                if v[0] < -1e-9 and isinstance(v[1], (int, Fraction)):
                    return math.nan if v[1] != int(v[1]) else v[0] ** int(v[1])
                if v[0] <= 0:
                    raise _Unreliable
                return math.pow(f(v[0]), f(v[1]))
            if o == "mod":
                if v[1] == 0 or not all(isinstance(x, (int, Fraction)) for x in v):
                    raise _Unreliable
                return v[0] % v[1]
            if o == "clampidx":
                k = int(v[1])
                return Fraction(min(max(int(v[0]) + (k if v[0] < 0 else 0), 0), k - 1))
            if o == "icast":
                if v[0] != v[0] or abs(v[0]) == math.inf or (isinstance(v[0], float) and abs(v[0] - round(v[0])) < 1e-6):
                    raise _Unreliable
                return Fraction(math.trunc(v[0]))
            if o == "lowp":
                # eleven significant bits at best
                m, e = math.frexp(v[0])
                return Fraction(round(math.ldexp(m, 11))) * Fraction(2) ** (e - 11)
            if o == "sg":
                return v[0]
            if o == "nan2num":
                return 0 if v[0] != v[0] else v[0]
            if o == "isnan":
                return v[0] != v[0]
            if o == "isinf":
                return v[0] in (math.inf, -math.inf)
            if o == "isfinite":
                return v[0] == v[0] and v[0] not in (math.inf, -math.inf)
            if o in ("floor", "ceil", "trunc"):
                return Fraction(getattr(math, o)(v[0]))
            if o in ("round", "rint"):
                return Fraction(round(v[0]))
        except (OverflowError, ValueError, ZeroDivisionError):
            raise _Unreliable
        raise _Unreliable  # a function without a model here


class Float(Ref):
    """Evaluation at a point in extended arithmetic (1/0 is infinite)."""

    def _ev(self, n):
        if n.op == "inv":
            v = self.ev(n.args[0])
            if v == 0:
                return math.inf
        if n.op == "exp":
            v = float(self.ev(n.args[0]))
            if v > 88.8:
                return math.inf
        if n.op == "mul":
            a, b = (self.ev(x) for x in n.args)
            if (isinstance(a, float) and not math.isfinite(a)) or (isinstance(b, float) and not math.isfinite(b)):
                return float(a) * float(b)
        if n.op in ("min", "max"):
            v = [self.ev(x) for x in n.args]
            if any(x != x for x in v):
                return math.nan
        if n.op == "sigmoid":
            v = float(self.ev(n.args[0]))
            if abs(v) > 500:
                return 0.0 if v < 0 else 1.0
        return super()._ev(n)


def _rng(n):
    if n._iv:
        lo, hi = n._iv
        if lo != -math.inf and hi != math.inf:
            return (float(lo), float(hi))
        if lo != -math.inf:
            return (float(lo), float(lo) + 4)
        if hi != math.inf:
            return (float(hi) - 4, float(hi))
    return (-2, 2)


_GRID = [Fraction(x) for x in (0, 1, -1, 2, 3)] + [Fraction(1, 2)]


def _sample(rng, lo, hi, grid, sort, pool):
    if sort == "b":
        return rng.random() < 0.5
    if grid == 2 and pool and rng.random() < 0.4:
        c = rng.choice(pool)
        if lo <= c <= hi:
            return c
    if grid:
        c = [x for x in _GRID if lo <= x <= hi and not (lo == 0 and x == 0 and hi == math.inf and False)]
        if c:
            return rng.choice(c)
    a = -3.0 if lo == -math.inf else float(lo)
    b = max(a + 1, 3.0) if hi == math.inf else float(hi)
    if hi == math.inf and lo != -math.inf and rng.random() < 0.3:
        b = a + 200
    return Fraction(rng.uniform(a, b)).limit_denominator(10**6)


def _consts(roots):
    out = set()
    for n in N.walk(roots):
        if n.op == "const" and not isinstance(n.attr, bool) and abs(n.attr) > 5 and abs(n.attr) < 10**12:
            out.add(n.attr)
            out.add(n.attr * 2)
    return sorted(out)[:12]


def refute(a, b, canon, generic, assume, tries=160):
    """A point where both graphs are defined and differ, or None."""
    rng = random.Random(12345 + int(os.environ.get("VERIF_SEED", "1")))
    usable = 0
    pool = _consts([a, b])
    for i in range(tries):
        env = {"#rng": rng, "#grid": i % 3, "#pool": pool, "#salt": i}
        if i % 4 == 3:
            # thresholds on magnitudes: everything small, or everything large
            env["#scale"] = Fraction(10) ** rng.choice((-7, -6, -5, -4, -3, -2, -1, 1, 2, 3))
        if i % 8 == 5:
            env["#near"] = True
        try:
            ref = Ref(env, canon, generic)
            for n, val in assume:
                if ref.ev(n) != val:
                    raise _Unreliable
            x, y = ref.ev(a), ref.ev(b)
        except (_Unreliable, OverflowError):
            continue
        usable += 1
        if isinstance(x, bool) and isinstance(y, bool):
            d = x != y
        else:
            x, y = float(x), float(y)
            if x != x or y != y:
                d = (x != x) != (y != y)
            elif abs(x) == math.inf or abs(y) == math.inf:
                d = x != y
            else:
                d = abs(x - y) > 1e-5 * (1 + max(abs(x), abs(y)))
        if d:
            w = {k: (float(v) if not isinstance(v, bool) else v) for k, v in env.items() if not k.startswith("#")}
            return (w, x, y)
    return None


# ----------------------------------------------------------------- worlds
def sym(name, *shape, lo=None, hi=None, kind="f"):
    n = 1
    for s in shape:
        n *= s
    return Arr(shape, [N.var(f"{name}{i}" if shape else name, lo=lo, hi=hi) for i in range(n)], kind)


def first_loc(n, canon_want=None):
    """Repository location of a value-graph node (closest to its root)."""
    q = [n]
    seen = set()
    while q:
        t = q.pop(0)
        if t.uid in seen:
            continue
        seen.add(t.uid)
        if t.loc and "differt2d" in str(t.loc):
            return t.loc
        q.extend(x for x in t.args if isinstance(x, N.Node))
    return None


CLIENT = '''
import equinox as eqx
import jax
import jax.numpy as jnp
from differt2d.abc import Object, Plottable
from differt2d.geometry import Point, Path

class Blob(eqx.Module, Object):
    tag: object
    @staticmethod
    def parameters_count():
        return 1
    def parametric_to_cartesian(self, param_coords):
        return PROBE_P2C(self, param_coords)
    def cartesian_to_parametric(self, carte_coords):
        return PROBE_C2P(self, carte_coords)
    def contains_parametric(self, param_coords, approx=None, **kwargs):
        return PROBE_TRUTH("contains", self, (param_coords,), approx, kwargs)
    def intersects_cartesian(self, ray, patch=DEFAULT_PATCH, approx=None, **kwargs):
        return PROBE_TRUTH("intersects", self, (ray, patch), approx, kwargs)
    def evaluate_cartesian(self, ray_path):
        return PROBE_EVAL(self, ray_path)
    def plot(self, ax, *args, **kwargs):
        return ax.draw(self, *args, **kwargs)
    def bounding_box(self):
        return PROBE_BOX(self)

class BlobB(Blob):
    pass

class BlobZ(Blob):
    """No parameter."""
    @staticmethod
    def parameters_count():
        return 0

class Blob2(Blob):
    """Two parameters."""
    @staticmethod
    def parameters_count():
        return 2

class Node(Point):
    pass

class ProbePath(Path):
    @classmethod
    def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kwargs):
        if isinstance(tx, Point):
            tx = tx.xy
        if isinstance(rx, Point):
            rx = rx.xy
        return cls(xys=PROBE_TRACE(cls, tx, objects, rx, key, kwargs))
    def is_valid(self, objects, path_candidate, interacting_objects, *args, **kwargs):
        return PROBE_VALID(self, objects, path_candidate, interacting_objects, args, kwargs)

class ProbePathB(ProbePath):
    pass
'''


class World:
    """A fresh abstract interpreter over the current repository sources."""

    def __init__(self, glob=None, client=True, repo=None):
        CN_reset = None  # value numbers are global and monotone
        self.I = I = Interp(repo)
        J.Events.reset()
        self.calls = []
        self.logic = I.mod("logic")
        self.glob = glob
        if client:
            self.client = self.source(CLIENT)
        if glob is not None:
            # after every module is loaded: a copy of the default taken at
            # import time must not stand for the current one
            if client:
                for m in ("scene", "utils"):
                    self.mod(m)
            self.set_global(glob)

    # ---- anchors
    def get(self, *a):
        return self.I.get(*a)

    def mod(self, short):
        return self.I.mod(short)

    def set_global(self, v):
        if "ENABLE_APPROX" not in self.logic.vars:
            raise AnchorMissing("logic.ENABLE_APPROX")
        self.I.call(self.get("logic", "set_approx"), [v])
        self.glob = v

    def eff(self, approx):
        """Effective mode of an approx argument under the current default."""
        if approx is None:
            return self.I.call(self.get("logic", "true_value"), []).kind != "b"
        return bool(approx)

    def source(self, text, name="<client>", **extra):
        m = IModule(name, name)
        m.vars.update(__name__=name, __file__=name, __package__=PKG)
        m.vars.update(extra)
        m.vars.update(DEFAULT_PATCH=self.I.get("defaults", "DEFAULT_PATCH"))
        for k in ("P2C", "C2P", "TRUTH", "EVAL", "BOX", "TRACE", "VALID"):
            m.vars["PROBE_" + k] = getattr(self, "probe_" + k.lower())
        N.Loc.stack.append(Frame("<module>", name, 1))
        try:
            sc = Scope(None, m, kind="module")
            sc.vars = m.vars
            self.I.drive(self.I.block(ast.parse(text).body, sc))
        finally:
            N.Loc.stack.pop()
        return m

    # ---- probes: uninterpreted behaviour of client-supplied objects
    def _vec(self, name, key, n, **kw):
        return Arr((n,), [N.app(name, (key, i), rng=kw.get("rng")) for i in range(n)], "f")

    def okey(self, o):
        return (o.cls.__name__, keyof(o.fields["tag"]))

    def probe_p2c(self, o, t):
        n = self.I.call(self.I.getattr(o, "parameters_count"))
        if n == 0:
            t = None
        return self._vec("p2c", (self.okey(o), keyof(t)), 2)

    def probe_c2p(self, o, p):
        n = self.I.call(self.I.getattr(o, "parameters_count"))
        return self._vec("c2p", (self.okey(o), keyof(p)), n)

    def probe_truth(self, what, o, args, approx, kwargs):
        smooth = self.eff(approx)
        if isinstance(approx, Arr):
            raise Unsupported("approx passed as an array")
        key = (what, self.okey(o), tuple(keyof(a) for a in args), keyof(dict(kwargs)))
        if smooth:
            return Arr((), [N.app("truth", key, rng=(0, 1))], "f")
        return Arr((), [N.app("truth", key, sort="b")], "b")

    def probe_eval(self, o, rp):
        e = N.app("residual", (self.okey(o), keyof(rp)), rng=(0, N.INFV))
        return Arr((), [e], "f")

    def probe_box(self, o):
        k = self.okey(o)
        lo = [N.app("boxlo", (k, i)) for i in range(2)]
        # a box: its upper corner is not below its lower one
        hi = [N.lat("max", [lo[i], N.app("boxhi", (k, i))]) for i in range(2)]
        return Arr((2, 2), lo + hi, "f")

    def probe_trace(self, cls, tx, objects, rx, key, kwargs):
        n = len(objects)
        k = (cls.__name__, keyof(tx), tuple(self.okey(o) for o in objects), keyof(rx), None if key is None else keyof(key), keyof(dict(kwargs)))
        return Arr((n + 2, 2), [N.app("trace", (k, i)) for i in range(2 * n + 4)], "f")

    def probe_valid(self, path, objects, cand, inter, args, kwargs):
        kw = dict(kwargs)
        if args:
            names = ["tol", "patch", "approx"]
            kw.update(zip(names, args))
        smooth = self.eff(kw.pop("approx", None))
        cand = tuple(int(asarray(c).data[0].attr) for c in list(self.I.iterate(cand)))
        key = (keyof(path.fields["xys"]), tuple(self.okey(o) for o in objects), cand, tuple(self.okey(o) for o in inter), keyof(kw))
        if smooth:
            return Arr((), [N.app("valid", key, rng=(0, 1))], "f")
        return Arr((), [N.app("valid", key, sort="b")], "b")

    def blob(self, name, cls="Blob"):
        return self.client.vars[cls](sym(name))

    def probe_fun(self, name="fun", pure=True):
        """An uninterpreted user function of (tx, rx, path, objects, ...)."""

        def fun(tx, rx, path, objs, *a, **k):
            pt = lambda p: (p.cls.__name__, keyof(p.fields["xy"])) if isinstance(p, Inst) else ("raw", keyof(p))
            key = (pt(tx), pt(rx), path.cls.__name__, keyof(path.fields["xys"]), tuple(self.okey(o) for o in objs), keyof(tuple(a)), keyof(dict(k)))
            return Arr((), [N.app(name, key)], "f")

        fun.__name__ = name
        return fun

    # ---- calling
    def call(self, f, *a, **k):
        return self.I.call(f, list(a), k)

    def m(self, o, name, *a, **k):
        """Call a method of an abstract object."""
        try:
            f = self.I.getattr(o, name)
        except ProgError as e:
            raise AnchorMissing(f"{getattr(o, 'cls', o)}.{name}: {e}")
        return self.I.call(f, list(a), k)

    def at(self, o, name):
        return self.I.getattr(o, name)

    def list(self, it, n=None):
        """Elements of an iterable of the program; n of them where a structure is documented."""
        out = list(self.I.iterate(it))
        if n is not None and len(out) != n:
            raise Mismatch(f"a result has {len(out)} parts where {n} are documented")
        return out

    # ---- partitioning on symbolic truth tests
    def partition(self, fn, limit=64):
        """Run fn under every combination of outcomes of symbolic truth tests."""
        out = []
        todo = [()]
        while todo:
            script = todo.pop()
            path = []

            def dec(a):
                e = asarray(a)
                if e.size != 1:
                    raise ProgError(ValueError("truth value of an array with more than one element is ambiguous"))
                n = e.cast("b").data[0] if e.kind != "b" else e.data[0]
                if n.op == "const":
                    return n.attr
                for m, val in path:
                    if m is n or Canon().eq(m, n):
                        return val
                    if Canon().eq(m, N.bnot(n)):
                        return not val
                i = len(path)
                v = script[i] if i < len(script) else False
                path.append((n, v))
                return v

            old, self.I.decider = self.I.decider, dec
            memos = [(c, dict(c.memo)) for c in self.I.caches]
            try:
                r = fn()
            finally:
                self.I.decider = old
                for c, m in memos:
                    c.memo.clear()
                    c.memo.update(m)
            out.append((tuple(path), r))
            if len(out) > limit:
                raise Unsupported("too many partitions")
            for i in range(len(script), len(path)):
                todo.append(tuple(v for _, v in path[:i]) + (not path[i][1],))
        return out


# ------------------------------------------------------------- comparison
def tree(v, path=()):
    """Flatten an abstract value to {path: leaf}."""
    if isinstance(v, Inst):
        out = {path + ("#cls",): v.cls.__name__}
        for k, x in v.fields.items():
            out.update(tree(x, path + (k,)))
        return out
    if isinstance(v, (list, tuple)):
        out = {path + ("#len",): len(v)}
        for i, x in enumerate(v):
            out.update(tree(x, path + (i,)))
        return out
    if isinstance(v, dict):
        out = {path + ("#keys",): tuple(v)}
        for k, x in v.items():
            out.update(tree(x, path + (k,)))
        return out
    return {path: v}


def show(n, canon):
    try:
        m = canon.b(n) if n.sort == "b" else canon.r(n)
        s = explain(m)
    except Exception:
        s = "?"
    t = N.show(n, 4)
    return t if len(t) < 200 else t[:200] + "…"


def eq(got, want, what, generic=False, assume=(), kinds=True, canon=None, sig=None):
    """Raise Mismatch if two abstract values differ (definitely), Undecided if
    they could not be proved equal nor shown different."""
    if Auto.path:
        assume = tuple(assume) + tuple(Auto.path)
    c = canon or Canon(generic=generic, assume=assume)
    g, w = tree(got), tree(want)
    if set(g) != set(w):
        d = sorted(map(str, set(g) ^ set(w)))[:4]
        raise Mismatch(f"{what}: structure differs ({', '.join(d)})", sig=sig)
    for p, a in g.items():
        b = w[p]
        where = f"{what}{''.join('[' + str(x) + ']' for x in p)}"
        num = (Arr, int, float, Fraction)
        if isinstance(a, num) and isinstance(b, num):
            a, b = asarray(a), asarray(b)
            if a.shape != b.shape:
                raise Mismatch(f"{where}: shape {a.shape}, expected {b.shape}", first_loc(a.data[0]) if a.data else None, sig)
            if kinds and (a.kind == "b") != (b.kind == "b"):
                raise Mismatch(f"{where}: {'boolean' if a.kind == 'b' else 'real'} where {'boolean' if b.kind == 'b' else 'real'} is expected", first_loc(a.data[0]) if a.data else None, sig)
            und = None
            for i, (x, y) in enumerate(zip(a.data, b.data)):
                if x.sort == "k" or y.sort == "k":
                    if not c.eq(x, y):
                        raise Mismatch(f"{where}: different random key", first_loc(x), sig)
                    continue
                if c.eq(x, y):
                    continue
                r = refute(x, y, c, c.generic, assume)
                el = f"[{i}]" if a.size > 1 else ""
                if r is None:
                    und = f"{where}{el}: value numbers differ but no distinguishing point found: {show(x, c)} vs {show(y, c)}"
                    continue
                w_ = ", ".join(f"{k}={v:.4g}" if not isinstance(v, bool) else f"{k}={v}" for k, v in sorted(r[0].items())[:14])
                raise Mismatch(f"{where}{el}: computes {show(x, c)}, expected {show(y, c)}; they differ e.g. for {w_ or 'every input'} ({r[1]} vs {r[2]})", first_loc(x), sig)
            if und:
                if Soft.on is not None:
                    Soft.on.append(und)
                    continue
                raise Undecided(und)
        elif isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
            raise Mismatch(f"{where}: {type(a).__name__} {str(a)[:80]}, expected {str(b)[:80]}", None, sig)
        else:
            ka, kb = c.ckey(keyof(a)), c.ckey(keyof(b))
            if ka != kb:
                raise Mismatch(f"{where}: {str(a)[:120]!r}, expected {str(b)[:120]!r}", None, sig)


def req(cond, what, loc=None, sig=None):
    if not cond:
        raise Mismatch(what, loc, sig)


def same(a, b, generic=False):
    try:
        with strict():
            eq(a, b, "", generic=generic)
        return True
    except (Mismatch, Undecided):
        return False


class Soft:
    """Undecided comparisons of the running obligation (it goes on after one)."""

    on = None


class strict:
    """Within it an undecided comparison raises."""

    def __enter__(self):
        self.old, Soft.on = Soft.on, None

    def __exit__(self, *a):
        Soft.on = self.old


class Auto:
    """Trace partitioning of an obligation on the symbolic truth tests of the
    analysed code: each run fixes the outcome of every test met, and the
    comparisons of that run are made under these assumptions."""

    script, path = (), []
    canon = None

    @classmethod
    def start(cls, script):
        cls.script, cls.path = tuple(script), []
        cls.canon = Canon()

    @classmethod
    def stop(cls):
        cls.script, cls.path = (), []

    @classmethod
    def decide(cls, a):
        e = asarray(a)
        n = e.cast("b").data[0] if e.kind != "b" else e.data[0]
        for m, val in cls.path:
            if m is n or cls.canon.eq(m, n):
                return val
            if cls.canon.eq(m, N.bnot(n)):
                return not val
        i = len(cls.path)
        if i >= 12:
            raise Unsupported("too many symbolic truth tests")
        v = cls.script[i] if i < len(cls.script) else False
        cls.path.append((n, v))
        return v

    @classmethod
    def feasible(cls, tries=400):
        """A point at which every test of this run has its assumed outcome."""
        if not cls.path:
            return True
        rng = random.Random(7)
        pool = _consts([n for n, _ in cls.path])
        for i in range(tries):
            env = {"#rng": rng, "#grid": i % 3, "#pool": pool, "#salt": i}
            if i % 4 == 3:
                env["#scale"] = Fraction(10) ** rng.choice((-6, -4, -2, 1, 2, 3))
            try:
                ref = Ref(env, cls.canon)
                if all(ref.ev(n) == v for n, v in cls.path):
                    return True
            except (_Unreliable, OverflowError):
                pass
        return False


def partitioned(f, ctx, limit=40):
    """Run an obligation under every outcome of the symbolic tests it meets."""
    todo, runs, base = [()], 0, ctx.cases
    while todo:
        if runs >= limit:
            raise Undecided(f"more than {limit} partitions of symbolic truth tests")
        Auto.start(todo.pop())
        ctx.cases = base
        runs += 1
        try:
            try:
                f(ctx)
            except (Mismatch, ProgError):
                if Auto.feasible():
                    raise
                Soft.on.append("an alarm under assumptions that no point was found to satisfy")
            path = Auto.path
            for i in range(len(Auto.script), len(path)):
                todo.append(tuple(v for _, v in path[:i]) + (not path[i][1],))
        finally:
            Auto.stop()


# --------------------------------------------------------------- runner
_checks: dict = {}


def ob(pid, name, rule=""):
    def deco(f):
        _checks.setdefault(pid, []).append((name, rule or (f.__doc__ or "").strip(), f))
        return f

    return deco


def _alarm(*a):
    raise Timeout()


def int_guards(repo=None):
    """Integer constants the sources compare against, slice or count with."""
    out = {}
    root = os.path.join(repo or REPO, PKG)
    for fn in sorted(os.listdir(root)):
        if not fn.endswith(".py"):
            continue
        with open(os.path.join(root, fn)) as f:
            t = ast.parse(f.read())
        for n in ast.walk(t):
            if isinstance(n, (ast.Compare, ast.BinOp)):
                if isinstance(n, ast.BinOp) and not isinstance(n.op, (ast.Mod, ast.FloorDiv)):
                    continue
                for c in ast.walk(n):
                    if isinstance(c, ast.Constant) and isinstance(c.value, int) and not isinstance(c.value, bool):
                        out.setdefault(abs(c.value), f"{fn}:{c.lineno}")
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                c = n.value
                if isinstance(c, ast.Constant) and type(c.value) is int:
                    out.setdefault(abs(c.value), f"{fn}:{c.lineno}")
            elif isinstance(n, ast.Slice):
                for c in (n.lower, n.upper, n.step):
                    if isinstance(c, ast.UnaryOp):
                        c = c.operand
                    if isinstance(c, ast.Constant) and isinstance(c.value, int):
                        out.setdefault(abs(c.value), f"{fn}:{c.lineno}")
            elif isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("islice", "range", "minimum", "min", "maximum", "max", "clip"):
                for c in n.args:
                    if isinstance(c, ast.Constant) and isinstance(c.value, int):
                        out.setdefault(abs(c.value), f"{fn}:{c.lineno}")
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.worlds = []
        self.notes = []
        self.cases = 0
        self._guards = None

    def world(self, **kw):
        w = World(**kw)
        self.worlds.append(w)
        return w

    def case(self, n=1):
        self.cases += n

    @contextlib.contextmanager
    def soft(self, what):
        """One case among many: the others go on if it cannot be decided."""
        stack = list(N.Loc.stack)
        try:
            yield
        except (Unsupported, Undecided, TooBig, RecursionError) as e:
            if Soft.on is None:
                raise
            N.Loc.stack = stack
            Soft.on.append(f"{what}: {type(e).__name__}: {e}")

    def sizes(self, base, cap):
        """Base sizes plus those on both sides of every integer the source guards on."""
        if self._guards is None:
            self._guards = int_guards()
        s = set(base)
        for c in self._guards:
            for d in (c, c + 1):
                if d <= cap and d >= min(base):
                    s.add(d)
        return sorted(s)


def run(pid, tier="quick"):
    t0 = time.time()
    known = load_known()
    ctx = Ctx(pid, tier)
    obs = _checks.get(pid, [])
    res = []
    funcs = {}
    signal.signal(signal.SIGALRM, _alarm)
    budget = 600 if tier == "quick" else 840
    vio, und, kn, missing = [], [], [], []
    for name, rule, f in obs:
        left = budget - (time.time() - t0)
        st, detail, loc = "discharged", "", None
        ctx.cases = 0
        try:
            if left < 5:
                raise Undecided("time budget exhausted")
            signal.alarm(int(min(left, 150 if tier == "quick" else 300)))
            Soft.on = []
            try:
                partitioned(f, ctx)
                if Soft.on:
                    raise Undecided("; ".join(Soft.on[:3]))
            finally:
                Soft.on = None
                signal.alarm(0)
        except Mismatch as e:
            k = known_match(known, pid, name, e)
            st, detail, loc = ("known" if k else "violated"), str(e), e.loc or Interp.entry
        except AnchorMissing as e:
            st, detail = "missing", f"anchor not found: {e}"
        except ProgError as e:
            if "differt2d" in str(e.loc) or "<client>" in str(e.loc):
                st, detail, loc = "violated", f"raises {type(e.exc).__name__ if isinstance(e.exc, BaseException) else e.exc} on a valid input: {e.exc}", e.loc
            elif isinstance(e.exc, (TypeError, ValueError, IndexError)) and "<check>" in str(e.loc) and Interp.entry is not None:
                # the result cannot be used as documented (shape, structure)
                st, detail, loc = "violated", f"the result cannot be used as documented: {type(e.exc).__name__}: {e.exc}", Interp.entry
            else:
                st, detail, loc = "undecided", f"check raised {e}", e.loc
        except (Unsupported, Undecided, TooBig, RecursionError, Timeout, MemoryError) as e:
            st, detail = "undecided", f"{type(e).__name__}: {e}"
        except Exception as e:
            st, detail = "undecided", f"internal {type(e).__name__}: {e} at {N.Loc.cur()}"
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        N.Loc.stack = [Frame("<check>", "<check>", 0)]
        for w in ctx.worlds:
            for k, v in w.I.reached.items():
                funcs[str(k)] = funcs.get(str(k), 0) + v
        ctx.worlds = []
        res.append(dict(obligation=name, rule=rule, status=st, cases=ctx.cases, detail=detail[:1500], location=str(loc) if loc else None))
        {"violated": vio, "known": kn, "undecided": und, "missing": missing}.get(st, []).append(res[-1])
    wall = time.time() - t0
    dis = sum(r["status"] == "discharged" for r in res)
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", wall_s=round(wall, 3),
        coverage=dict(
            explanation=EXPLAIN, obligations=len(res), discharged=dis, undecided=len(und), known_findings=len(kn), violated=len(vio),
            cases=sum(r["cases"] for r in res), functions_analysed=sorted(k for k in funcs if "<client>" not in k), abstract_calls=sum(funcs.values()),
            samples=[{k: r[k] for k in ("obligation", "rule", "status", "cases", "detail", "location")} for r in res],
            notes=ctx.notes[:20],
        ),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in und:
        print(f"UNDECIDED: property={pid} {r['obligation']}: {r['detail'][:300]}")
    for r in kn:
        print(f"KNOWN-FINDING: property={pid} {r['obligation']}: {r['detail'][:400]}")
    if vio:
        rp = os.path.join(VERIF, "evidence", f"{pid}.violation.json")
        with open(rp, "w") as f:
            json.dump(vio, f, indent=1)
        for r in vio:
            print(f"  violated: {r['obligation']} [{r['rule']}] at {r['location']}: {r['detail'][:700]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    for r in missing:
        print(f"ERROR: property={pid} {r['obligation']}: {r['detail']}")
    print(f"{pid}: {dis}/{len(res)} obligations discharged, {len(kn)} known, {len(und)} undecided, {sum(r['cases'] for r in res)} cases, {wall:.1f}s")
    # nothing at all was decided: no answer
    if missing or not res or (dis + len(kn) == 0 and not any(r["cases"] for r in res)):
        return 2
    return 0


EXPLAIN = (
    "Static analysis of the current sources: an abstract interpreter partially evaluates Python control flow and array shapes and maps every numeric "
    "array element to a node of a value graph over symbolic inputs; obligations compare value numbers of that graph with a specification, or run "
    "dataflow/typestate queries over it. Each listed obligation names its rule; 'cases' counts the abstract configurations (shape x mode x option) decided for it. "
    "functions_analysed lists the functions of the analysed package whose bodies were interpreted."
)


# -------------------------------------------------------- known findings
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def known_match(known, pid, name, e):
    for k in known:
        if k.get("property") == pid and k.get("obligation") == name and e.sig is not None and k.get("signature") == e.sig:
            return k
    return None
