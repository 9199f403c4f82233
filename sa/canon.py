"""Canonical value numbers for value-graph nodes.

Two nodes get the same number iff they are equal as functions of the free
variables modulo: the axioms of a commutative field, sqrt(x)**2 == x,
sin**2 + cos**2 == 1, Boolean algebra, distributive-lattice laws of min/max and
congruence of every other operator.  Polynomial identities are hashed modulo a
61-bit prime (Gulwani & Necula's random-interpretation value numbering: a wrong
merge has probability < 2**-40), Boolean structure is kept exactly in a
reduced ordered decision diagram, so joins never lose information.
"""
from __future__ import annotations

import hashlib
from fractions import Fraction

from . import nodes as N

P = (1 << 61) - 1

import sys

sys.setrecursionlimit(100000)


def _h(s: str) -> int:
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], "big") % (P - 1) + 1


# ------------------------------------------------------------------ elements
class Elem:
    """Element of GF(P)(square roots): {frozenset-of-root-ids -> coefficient}."""

    __slots__ = ("d", "id")

    def __init__(self, d):
        self.d = d


_elems: dict = {}
_elist: list = []


def elem(d) -> Elem:
    d = {k: v for k, v in d.items() if v}
    k = tuple(sorted(d.items()))
    e = _elems.get(k)
    if e is None:
        e = Elem(d)
        e.id = len(_elist)
        _elems[k] = e
        _elist.append(e)
    return e


def econst(f: Fraction) -> Elem:
    f = Fraction(f)
    return elem({(): f.numerator % P * pow(f.denominator, -1, P) % P})


ZERO, ONE = econst(Fraction(0)), econst(Fraction(1))


class Special:
    def __init__(self, name, i):
        self.name, self.id = name, i


INF, NINF, NAN = Special("inf", "inf"), Special("-inf", "-inf"), Special("nan", "nan")

_roots: list = []  # root id -> (kind, arg Elem)
_rootidx: dict = {}
desc: dict = {}  # elem id -> human description of atoms


def ratrec(a: int):
    """Rational reconstruction of a small rational, or None."""
    if a <= 1 << 16:
        return Fraction(a)
    if P - a <= 1 << 16:
        return Fraction(-(P - a))
    r0, r1, s0, s1 = P, a, 0, 1
    bound = 1 << 20
    while r1 > bound:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        s0, s1 = s1, s0 - q * s1
    if s1 == 0 or abs(s1) > bound or r1 * abs(s1) > (1 << 34):
        return None
    return Fraction(r1, s1)


def erat(e):
    """The rational constant an element denotes, or None."""
    if isinstance(e, Special):
        return None
    if not e.d:
        return Fraction(0)
    if len(e.d) == 1 and () in e.d:
        return ratrec(e.d[()])
    return None


def eadd(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        if a is NAN or b is NAN:
            return NAN
        if isinstance(a, Special) and isinstance(b, Special):
            return a if a is b else NAN
        return a if isinstance(a, Special) else b
    d = dict(a.d)
    for k, v in b.d.items():
        d[k] = (d.get(k, 0) + v) % P
    return elem(d)


_mulmemo: dict = {}


def emul(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        if a is NAN or b is NAN:
            return NAN
        if isinstance(a, Special) and isinstance(b, Special):
            return INF if a is b else NINF
        s, o = (a, b) if isinstance(a, Special) else (b, a)
        r = erat(o)
        if r is None:
            return atom(("infmul", s.name, o.id))
        if r == 0:
            return NAN
        return s if r > 0 else (NINF if s is INF else INF)
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulmemo.get(k)
    if r is not None:
        return r
    if len(a.d) == 1 and () in a.d:
        c = a.d[()]
        r = elem({k2: v * c % P for k2, v in b.d.items()})
    elif len(b.d) == 1 and () in b.d:
        c = b.d[()]
        r = elem({k2: v * c % P for k2, v in a.d.items()})
    else:
        acc = ZERO
        for ka, va in a.d.items():
            sa = set(ka)
            for kb, vb in b.d.items():
                sb = set(kb)
                common = sa & sb
                idem = {c for c in common if _roots[c][0] == "bool"}
                common -= idem
                key = tuple(sorted((sa ^ sb) | idem))
                t = elem({key: va * vb % P})
                for c in common:
                    t = emul(t, _roots[c][1])
                acc = eadd(acc, t)
        r = acc
    _mulmemo[k] = r
    return r


def esub(a, b):
    return eadd(a, emul(econst(-1), b))


_invmemo: dict = {}


def einv(a):
    if isinstance(a, Special):
        return NAN if a is NAN else ZERO
    if not a.d:
        return atom(("inv0",))
    r = _invmemo.get(a.id)
    if r is not None:
        return r
    if len(a.d) == 1 and () in a.d:
        r = elem({(): pow(a.d[()], -1, P)})
    else:
        rs = {i for k in a.d for i in k}
        if len(rs) > 3 and len(a.d) > 1:
            r = atom(("inv", a.id))  # congruence only
            _invmemo[a.id] = r
            return r
        s = max(rs)
        p, q = {}, {}
        for k, v in a.d.items():
            if s in k:
                q[tuple(x for x in k if x != s)] = v
            else:
                p[k] = v
        p, q = elem(p), elem(q)
        rs = elem({(s,): 1})
        if _roots[s][0] == "bool":
            ip = einv(p)
            r = eadd(ip, emul(rs, esub(einv(eadd(p, q)), ip)))
            _invmemo[a.id] = r
            return r
        den = esub(emul(p, p), emul(emul(q, q), _roots[s][1]))
        if not den.d:
            r = atom(("inv", a.id))
        else:
            r = emul(esub(p, emul(q, rs)), einv(den))
    _invmemo[a.id] = r
    return r


def atom(key) -> Elem:
    e = elem({(): _h(repr(key))})
    desc.setdefault(e.id, key)
    return e


def _root(kind, arg: Elem, key) -> Elem:
    i = _rootidx.get(key)
    if i is None:
        i = len(_roots)
        _rootidx[key] = i
        _roots.append((kind, arg))
    e = elem({(i,): 1})
    desc.setdefault(e.id, (kind, arg.id))
    return e


_nonneg_roots: dict = {}  # elem id of a*a -> elem a known nonnegative


def esqrt(a):
    if isinstance(a, Special):
        return a
    if not a.d:
        return ZERO
    r = erat(a)
    if r is not None:
        s = N._fsqrt(r)
        if s is not None:
            return econst(s)
    if a.id in _nonneg_roots:
        return _nonneg_roots[a.id]
    # rational multiple of the square of an already known root argument
    if r is None:
        ai = einv(a)
        for i, (kind, arg) in enumerate(_roots):
            if kind != "sqrt":
                continue
            q = erat(emul(arg, ai))
            if q is not None and q > 0:
                s = N._fsqrt(q)
                if s is not None:
                    return emul(elem({(i,): 1}), econst(1 / s))
            # a == arg * k**2 with a, arg in the base field only
    return _root("sqrt", a, ("sqrt", a.id))


def esin(a):
    if isinstance(a, Special):
        return atom(("sin", a.name))
    na = emul(econst(-1), a)
    if min(a.d.items()) > min(na.d.items()) if a.d else False:
        return emul(econst(-1), esin(na))
    c = ecos(a)
    return _root("sin", esub(ONE, emul(c, c)), ("sin", a.id))


def ecos(a):
    if isinstance(a, Special):
        return atom(("cos", a.name))
    if not a.d:
        return ONE
    na = emul(econst(-1), a)
    if min(a.d.items()) > min(na.d.items()):
        a = na
    return atom(("cos", a.id))


def eexp(a):
    if isinstance(a, Special):
        return {"inf": INF, "-inf": ZERO}.get(a.name, NAN)
    if not a.d:
        return ONE
    na = emul(econst(-1), a)
    if min(a.d.items()) > min(na.d.items()):
        return einv(atom(("exp", na.id)))
    return atom(("exp", a.id))


_explog: dict = {}  # id of exp(a) -> a
_logarg: dict = {}  # id of log(a) -> a


def elog(a):
    if isinstance(a, Special):
        return {"inf": INF}.get(a.name, NAN)
    if not a.d:
        return NINF
    if a is ONE:
        return ZERO
    r = _explog.get(a.id)
    if r is not None:
        return r
    ia = einv(a)
    flip = min(a.d.items()) > min(ia.d.items())
    b = ia if flip else a
    r = atom(("log", b.id))
    m = emul(econst(-1), r)
    _logarg[r.id], _logarg[m.id] = b, einv(b)
    return m if flip else r


# ------------------------------------------------------- decision diagrams
class MT:
    __slots__ = ("v", "hi", "lo", "leaf", "id")


_mts: dict = {}
_mtn = 0


def leaf(x) -> MT:
    global _mtn
    k = ("L", x if isinstance(x, bool) else ("e", x.id))
    m = _mts.get(k)
    if m is None:
        m = MT()
        m.v = None
        m.leaf = x
        m.id = _mtn
        _mtn += 1
        _mts[k] = m
    return m


def mtnode(v, hi, lo) -> MT:
    global _mtn
    if hi is lo:
        return hi
    k = (v, hi.id, lo.id)
    m = _mts.get(k)
    if m is None:
        m = MT()
        m.v, m.hi, m.lo, m.leaf = v, hi, lo, None
        m.id = _mtn
        _mtn += 1
        _mts[k] = m
    return m


BT, BF = leaf(True), leaf(False)
_vars: list = []
_varidx: dict = {}


def bvar(key) -> MT:
    i = _varidx.get(key)
    if i is None:
        i = len(_vars)
        _vars.append(key)
        _varidx[key] = i
    return mtnode(i, BT, BF)


_itememo: dict = {}


def _cof(m, v, side):
    if m.v == v:
        return m.hi if side else m.lo
    return m


def mite(c, a, b) -> MT:
    if c is BT:
        return a
    if c is BF:
        return b
    if a is b:
        return a
    k = (c.id, a.id, b.id)
    r = _itememo.get(k)
    if r is None:
        v = min(x.v for x in (c, a, b) if x.v is not None)
        r = mtnode(
            v,
            mite(_cof(c, v, 1), _cof(a, v, 1), _cof(b, v, 1)),
            mite(_cof(c, v, 0), _cof(a, v, 0), _cof(b, v, 0)),
        )
        _itememo[k] = r
    return r


def mnot(a):
    return mite(a, BF, BT)


def mand(a, b):
    return mite(a, b, BF)


def mor(a, b):
    return mite(a, BT, b)


def mapply(f, *ms, memo):
    """Apply f to the leaves; f returns an MT."""
    k = tuple(m.id for m in ms)
    r = memo.get(k)
    if r is None:
        vs = [m.v for m in ms if m.v is not None]
        if not vs:
            r = f(*[m.leaf for m in ms])
        else:
            v = min(vs)
            hi = mapply(f, *[_cof(m, v, 1) for m in ms], memo=memo)
            lo = mapply(f, *[_cof(m, v, 0) for m in ms], memo=memo)
            r = mite(mtnode(v, BT, BF), hi, lo)
        memo[k] = r
    return r


def leaves(m, acc=None, seen=None):
    seen = set() if seen is None else seen
    acc = [] if acc is None else acc
    if m.id in seen:
        return acc
    seen.add(m.id)
    if m.v is None:
        acc.append(m.leaf)
    else:
        leaves(m.hi, acc, seen)
        leaves(m.lo, acc, seen)
    return acc


class TooBig(Exception):
    pass


_support: dict = {}
_msize: dict = {}


def support(m):
    """(set of variables, number of distinct nodes capped) of a diagram."""
    r = _support.get(m.id)
    if r is None:
        if m.v is None:
            r = frozenset()
        else:
            r = support(m.hi) | support(m.lo) | {m.v}
        _support[m.id] = r
    return r


def nleaves(m):
    r = _msize.get(m.id)
    if r is None:
        r = _msize[m.id] = len(leaves(m))
    return r


_embedmemo: dict = {}


def embed(m):
    """The diagram as one element over idempotent indicators of its conditions."""
    r = _embedmemo.get(m.id)
    if r is None:
        if m.v is None:
            r = m.leaf
        else:
            hi, lo = embed(m.hi), embed(m.lo)
            if isinstance(hi, Special) or isinstance(lo, Special):
                r = NAN if hi is lo is NAN else atom(("mixed", m.id))
            else:
                i = _rootidx.get(("bool", m.v))
                if i is None:
                    i = len(_roots)
                    _rootidx[("bool", m.v)] = i
                    _roots.append(("bool", ONE))
                r = eadd(lo, emul(elem({(i,): 1}), esub(hi, lo)))
        _embedmemo[m.id] = r
    return r


# sign facts about elements (shared)
_sign: dict = {}  # elem id -> '>=0' | '>0'
_bounds: dict = {}
_zseen: list = []
_latforms: dict = {}
_zsets: dict = {}  # elem id -> elements whose common zero is its zero set


def _bnd(e, lo, hi):
    if isinstance(e, Elem) and erat(e) is None:
        a, b = _bounds.get(e.id, (-N.INFV, N.INFV))
        _bounds[e.id] = (max(a, lo), min(b, hi))
        if lo >= 0:
            _sign.setdefault(e.id, ">=0")
        if lo > 0:
            _sign[e.id] = ">0"
    return e


def bexp(a):
    if isinstance(a, Elem):
        y = _logarg.get(a.id)
        if y is not None and _sign.get(y.id) == ">0":
            return y
    r = eexp(a)
    if isinstance(r, Elem) and erat(r) is None:
        ir = einv(r)
        _explog.setdefault(r.id, a)
        _explog.setdefault(ir.id, emul(econst(-1), a))
        for x in (r, ir):
            _bnd(x, 0, N.INFV)
            _sign[x.id] = ">0"
            y = einv(badd(ONE, x))
            _bnd(y, 0, 1)
            _sign[y.id] = ">0"
            y = emul(x, y)
            _bnd(y, 0, 1)
            _sign[y.id] = ">0"
    return r


def badd(a, b):
    r = eadd(a, b)
    for x, y in ((a, b), (b, a)):
        c = erat(x)
        if c is not None and isinstance(y, Elem) and y.id in _bounds:
            lo, hi = _bounds[y.id]
            _bnd(r, lo + c, hi + c)
    return r


def binv(a):
    r = einv(a)
    if isinstance(a, Elem) and a.id in _bounds:
        lo, hi = _bounds[a.id]
        if lo > 0:
            _bnd(r, 0 if hi == N.INFV else 1 / Fraction(hi), 1 / Fraction(lo))
    return r


class Canon:
    """A numbering context.

    generic: equalities between values that are not identically equal are taken
    to be false (the non-degenerate configurations).
    """

    def __init__(self, generic=False, assume=(), alias=None):
        self.generic = generic
        self.split, self._sub = False, None
        self.alias = alias or {}
        self.memo = {}
        self.keep = []
        self.am = {}
        self._assume_nodes = tuple(assume)
        self.assumed = {}
        for n, val in assume:
            # n must be a comparison / boolean node evaluating to one variable
            m = self.b(n)
            try:
                self.assumed_add(m, val)
            except ValueError:
                pass  # not a literal: not used (sound)
        if assume:
            self.memo = {}

    def assumed_add(self, m, val):
        if m.v is None:
            return
        if m.hi is BT and m.lo is BF:
            self.assumed[m.v] = val
        elif m.hi is BF and m.lo is BT:
            self.assumed[m.v] = not val
        else:
            raise ValueError("assumption is not a literal")

    # ---- public
    def key(self, n):
        """Value number of a node."""
        m = self.b(n) if n.sort == "b" else self.r(n)
        return m.id

    def eq(self, a, b):
        if a is b:
            return True
        if a.sort == "k" or b.sort == "k":
            return self.r(a) is self.r(b)
        if a.sort == "b" and b.sort == "b":
            x, y = self.b(a), self.b(b)
        else:
            x, y = self.r(a), self.r(b)
        if x is y:
            return True
        if not (a.sort == "b" and b.sort == "b") and max(len(support(x)), len(support(y))) <= 40:
            try:
                if embed(x) is embed(y) and not isinstance(embed(x), Special):
                    return True
            except TooBig:
                pass
        return self._eqmod(x, y, {}, {}) or self._eqsplit(a, b)

    def _eqsplit(self, a, b):
        """Compare again, with absolute values taken by sign cases."""
        if self.split or not 0 < len({t.uid for t in N.walk([a, b]) if t.op == "abs"}) <= 3:
            return False
        if self._sub is None:
            self._sub = Canon(self.generic, alias=self.alias)
            self._sub.assumed, self._sub.split = self.assumed, True
        try:
            return self._sub.eq(a, b)
        except TooBig:
            return False

    def _feasible(self, asg):
        for v, val in asg.items():
            k = _vars[v]
            if val and k[0] == "P":
                z = _varidx.get(("Z", k[1]))
                if z is not None and asg.get(z):
                    return False
        return True

    def _eqmod(self, x, y, asg, memo):
        if x is y:
            return True
        if not self._feasible(asg):
            return True
        vs = [m.v for m in (x, y) if m.v is not None]
        if not vs:
            return False
        v = min(vs)
        for val in (1, 0):
            if v in self.assumed and self.assumed[v] != bool(val):
                continue
            if not self._eqmod(_cof(x, v, val), _cof(y, v, val), {**asg, v: val}, memo):
                return False
        return True

    # ---- reals
    def _memo(self, name):
        return self.am.setdefault(name, {})

    def r(self, n) -> MT:
        if n.sort == "b":
            return mite(self.b(n), leaf(ONE), leaf(ZERO))
        m = self.memo.get(n.uid)
        if m is not None:
            return m
        # evaluate operands first, iteratively, to bound recursion depth
        todo = [n]
        while todo:
            t = todo[-1]
            if t.uid in self.memo:
                todo.pop()
                continue
            pend = [x for x in (t.args[:1] if t.op == "custom" else t.args) if isinstance(x, N.Node) and x.uid not in self.memo and x.op not in ("const",)]
            if pend and t.op not in ("alias",):
                todo.extend(pend)
                # guard against pathological loops
                if len(todo) > 200000:
                    raise TooBig()
                continue
            todo.pop()
            v = self._b1(t) if t.sort == "b" else self._r1(t)
            self._facts(t, v)
            self.memo[t.uid] = v
            self.keep.append(t)
        return self.memo[n.uid]

    def b(self, n) -> MT:
        if n.sort != "b":
            # a real used as a truth value
            return mnot(self._zero(self.r(n)))
        m = self.memo.get(n.uid)
        if m is None:
            for x in n.args:
                if isinstance(x, N.Node) and x.uid not in self.memo:
                    (self.b if x.sort == "b" else self.r)(x)
            m = self._b1(n)
            self.memo[n.uid] = m
            self.keep.append(n)
        return m

    def _facts(self, n, v):
        if n.sort == "r" and v.v is None and isinstance(v.leaf, Elem):
            if n.op in ("add", "mul") and v.leaf.id not in _zsets and erat(v.leaf) is None:
                ps = self._sumsq(n)
                if ps:
                    _zsets[v.leaf.id] = ps
            lo, hi = N.interval(n)
            if lo > 0:
                _sign[v.leaf.id] = ">0"
            elif lo >= 0:
                _sign.setdefault(v.leaf.id, ">=0")
            if lo >= 0 and n.op not in ("const",) and erat(v.leaf) is None:
                sq = emul(v.leaf, v.leaf)
                if sq.id not in _nonneg_roots and ("sqrt", sq.id) not in _rootidx:
                    _nonneg_roots[sq.id] = v.leaf
            if lo != -N.INFV or hi != N.INFV:
                a, b = _bounds.get(v.leaf.id, (-N.INFV, N.INFV))
                _bounds[v.leaf.id] = (max(a, lo), min(b, hi))

    def _map(self, name, f, *ms):
        return mapply(lambda *ls: leaf(f(*ls)), *ms, memo=self._memo(name))

    def ckey(self, k):
        """Canonical form of nested static key parts."""
        if isinstance(k, N.Node):
            return ("n", self.key(k))
        if isinstance(k, (tuple, list)):
            return tuple(self.ckey(x) for x in k)
        if isinstance(k, (str, int, float, bool, type(None), Fraction)):
            return k
        return repr(k)

    def _r1(self, n) -> MT:
        o = n.op
        a = n.args
        if o == "const":
            return leaf(econst(n.attr))
        if o == "inf":
            return leaf(INF)
        if o == "ninf":
            return leaf(NINF)
        if o == "nan":
            return leaf(NAN)
        if o == "var":
            if n.attr == "EPS":
                return leaf(ZERO)
            return leaf(atom(("var", n.attr)))
        if o == "alias":
            if n.uid in self.alias:
                return leaf(atom(("var", self.alias[n.uid])))
            return self.r(a[0])
        if o == "custom":
            return self.r(a[0])  # the value; gradient rules look at the node
        ms = [self.r(x) if x.sort != "b" else self.b(x) for x in a]
        if o == "add":
            x, y = ms
            if x.v is not None and y.v is not None and nleaves(x) * nleaves(y) > 24 and not any(isinstance(l, (Special, bool)) for m in ms for l in leaves(m)):
                return leaf(eadd(embed(x), embed(y)))
            for x, y in (ms, ms[::-1]):
                k, q = self._const_lat(x, y)
                if q is not None:
                    return leaf(self._distribute(q, lambda e: eadd(econst(k), e), False))
            return self._map("add", badd, *ms)
        if o == "mul":
            for x, y in (ms, ms[::-1]):
                k, q = self._const_lat(x, y)
                if q is not None and k:
                    return leaf(self._distribute(q, lambda e: emul(econst(k), e), k < 0))
            return self._map("mul", emul, *ms)
        if o == "inv":
            return self._map("inv", binv, *ms)
        if o == "sqrt":
            return self._map("sqrt", self._sqrt, *ms)
        if o == "abs" and self.split:
            return mite(self.b(N.cmp("le", N.const(0), a[0])), ms[0], self._map("mul", emul, leaf(econst(-1)), ms[0]))
        if o == "abs":
            def fa(e):
                if isinstance(e, Special):
                    return NAN if e is NAN else INF
                r = erat(e)
                if r is not None:
                    return econst(abs(r))
                if _sign.get(e.id):
                    return e
                return esqrt(emul(e, e))
            return self._map("abs", fa, *ms)
        if o == "sin":
            return self._map("sin", esin, *ms)
        if o == "cos":
            return self._map("cos", ecos, *ms)
        if o == "tan":
            return self._map("tan", lambda e: emul(esin(e), einv(ecos(e))), *ms)
        if o == "exp":
            return self._map("exp", bexp, *ms)
        if o == "log":
            return self._map("log", elog, *ms)
        if o == "softplus":
            return self._map("softplus", lambda e: elog(badd(ONE, bexp(e))), *ms)
        if o == "log1p":
            return self._map("log1p", lambda e: elog(badd(ONE, e)), *ms)
        if o == "expm1":
            return self._map("expm1", lambda e: esub(bexp(e), ONE), *ms)
        if o == "sigmoid":
            return self._map("sigmoid", lambda e: binv(badd(ONE, bexp(emul(econst(-1), e)))) if not isinstance(e, Special) else {"inf": ONE, "-inf": ZERO}.get(e.name, NAN), *ms)
        if o == "tanh":
            def th(e):
                if isinstance(e, Special):
                    return {"inf": ONE, "-inf": econst(-1)}.get(e.name, NAN)
                q = eexp(emul(econst(2), e))
                return emul(esub(q, ONE), einv(eadd(q, ONE)))
            return self._map("tanh", th, *ms)
        if o in ("min", "max"):
            r = ms[0]
            for m in ms[1:]:
                r = self._map(o, (lambda x, y, o=o: self._lat(o, x, y)), r, m)
            return r
        if o == "ite":
            q = n.args[0]
            if q.op in ("lt", "le") and q.args[0].sort == "r" and q.args[1].sort == "r":
                # a if a < b else b
                x, y = self.r(q.args[0]), self.r(q.args[1])
                if x.v is None and y.v is None and isinstance(x.leaf, Elem) and isinstance(y.leaf, Elem) and x is not y:
                    if ms[1] is x and ms[2] is y:
                        return leaf(self._lat("min", x.leaf, y.leaf))
                    if ms[1] is y and ms[2] is x:
                        return leaf(self._lat("max", x.leaf, y.leaf))
            return self._collapse(mite(ms[0], ms[1], ms[2]))
        if o == "nan2num":
            x = ms[0]
            return self._collapse(mite(self._isnan(x), leaf(ZERO), self._map("nan2num0", lambda e: ZERO if e is NAN else e, x)))
        if o == "sg":
            return ms[0]  # value-transparent; gradient rules look at the node
        if o == "gather":
            return self._gather(n, ms)
        if o == "D":
            tn, al, i = n.attr
            names = {x.uid: f"%d{j}" for j, x in enumerate(al)}
            sub = Canon(self.generic, alias={**self.alias, **names})
            sub.assumed = self.assumed
            k = ("D", sub.key(tn), i, tuple(self.key(x.args[0]) for x in al))
            self.keep.append(sub)
            return leaf(atom(k))
        if o == "app" and n.attr[0] in ("argmin", "argmax"):
            return leaf(atom((n.attr[0],) + tuple(self._unroot([self.r(x) for x in n.attr[1]]))))
        if o == "app":
            return leaf(atom(("app", n.attr[0], self.ckey(n.attr[1]), tuple(self.key(x) for x in a))))
        # any other unary / n-ary function: congruence only
        return self._map(o, lambda *ls: atom((o,) + tuple(x.id for x in ls)), *ms)

    def _const_lat(self, x, y):
        """(constant, minimum or maximum) or (None, None)"""
        if x.v is None and y.v is None and isinstance(x.leaf, Elem) and isinstance(y.leaf, Elem) and y.leaf.id in _latforms:
            k = erat(x.leaf)
            if k is not None:
                return k, _latforms[y.leaf.id]
        return None, None

    def _distribute(self, form, f, flip):
        """Affine maps of a minimum or maximum go inside."""
        hi = None
        a, b = ("max", "min") if flip else ("min", "max")
        for c in form:
            lo = None
            for i in c:
                q = f(_elist[i])
                lo = q if lo is None else self._lat(a, lo, q)
            hi = lo if hi is None else self._lat(b, hi, lo)
        return hi

    def _sqrt(self, e):
        """Square roots go inside minima and maxima."""
        f = _latforms.get(e.id) if isinstance(e, Elem) else None
        if f is None:
            return esqrt(e)
        hi = None
        for c in f:
            lo = None
            for i in c:
                q = esqrt(_elist[i])
                lo = q if lo is None else self._lat("min", lo, q)
            hi = lo if hi is None else self._lat("max", hi, lo)
        return hi

    def _collapse(self, m):
        """ite(x == 0, 0, sqrt(x)) is sqrt(x)."""
        if m.v is None:
            return m
        ls = leaves(m)
        if len(ls) != 2 or ZERO not in ls:
            return m
        (l,) = [x for x in ls if x is not ZERO]
        if not isinstance(l, Elem) or not l.d:
            return m
        if l.id in _latforms:
            where0 = mapply(lambda e: BT if e is ZERO else BF, m, memo={})
            if mand(where0, mnot(self._eq(l, ZERO))) is BF:
                return leaf(l)
            return m
        common = None
        for k in l.d:
            common = set(k) if common is None else common & set(k)
        for i in common or ():
            if _roots[i][0] != "sqrt":
                continue
            z = self._eq(_roots[i][1], ZERO)
            where0 = mapply(lambda e: BT if e is ZERO else BF, m, memo={})
            if mand(where0, mnot(z)) is BF:
                return leaf(l)
        return m

    def _unroot(self, ms):
        """Ids of values, or of their radicands (same order) if all are plain square roots."""
        out = []
        for m in ms:
            if m.v is None and isinstance(m.leaf, Elem) and len(m.leaf.d) == 1:
                ((k, v),) = m.leaf.d.items()
                if v == 1 and len(k) == 1 and _roots[k[0]][0] == "sqrt":
                    out.append(leaf(_roots[k[0]][1]).id)
                    continue
            if m.v is None and isinstance(m.leaf, Elem) and m.leaf is ZERO:
                out.append(m.id)
                continue
            return [x.id for x in ms]
        return out

    def _gather(self, n, ms):
        idx = n.args[0]
        if len(ms) == 2:
            return ms[1]
        i = n.args[0]
        if i.op == "app" and i.attr[0] in ("argmin", "argmax"):
            keys = self._unroot([self.r(x) for x in i.attr[1]])
            if keys == self._unroot(ms[1:]):
                o = "min" if i.attr[0] == "argmin" else "max"
                r = ms[1]
                for m in ms[2:]:
                    r = self._map(o, (lambda x, y, o=o: self._lat(o, x, y)), r, m)
                return r
        if all(m is ms[1] for m in ms[1:]):
            return ms[1]
        return leaf(atom(("gather", ms[0].id) + tuple(m.id for m in ms[1:])))

    # ---- lattice normal form: max of mins
    def _form(self, e):
        f = _latforms.get(e.id)
        return f if f is not None else frozenset([frozenset([e.id])])

    def _lat(self, o, x, y):
        if x is y:
            return x
        for p, q in ((x, y), (y, x)):
            if p is NAN:
                return NAN
            if p is INF:
                return q if o == "min" else INF
            if p is NINF:
                return NINF if o == "min" else q
        fx, fy = self._form(x), self._form(y)
        if o == "max":
            f = set(fx | fy)
        else:
            f = {a | b for a in fx for b in fy}
        if len(f) > 4000:
            raise TooBig()
        f = self._absorb(f)
        if len(f) == 1:
            (c,) = f
            if len(c) == 1:
                (i,) = c
                return _elist[i]
        e = atom(("lat", tuple(sorted(tuple(sorted(c)) for c in f))))
        _latforms[e.id] = frozenset(f)
        return e

    def _lohi(self, i):
        r = erat(_elist[i])
        if r is not None:
            return (r, r)
        return _bounds.get(i, (-N.INFV, N.INFV))

    def _absorb(self, f):
        out = set()
        for c in f:
            # within a min-clause drop elements that are >= another one
            c = set(c)
            for i in list(c):
                for j in list(c):
                    if i != j and i in c and j in c and self._lohi(j)[1] <= self._lohi(i)[0]:
                        c.discard(i)
                        break
            out.add(frozenset(c))
        # drop clauses dominated by another clause
        res = set(out)
        for c in out:
            for d in out:
                if c is d or c not in res or d not in res or c == d:
                    continue
                if d < c:
                    res.discard(c)
                    break
                # clause value <= hi(any member); other clause >= min lo
                hi = min(self._lohi(i)[1] for i in c)
                lo = min(self._lohi(i)[0] for i in d)
                if hi <= lo and not (c < d):
                    res.discard(c)
                    break
        return res

    # ---- booleans
    def _b1(self, n) -> MT:
        o, a = n.op, n.args
        if o == "const":
            return BT if n.attr else BF
        if o == "var":
            return bvar(("B", n.attr))
        if o == "not":
            return mnot(self.b(a[0]))
        if o == "and":
            return mand(self.b(a[0]), self.b(a[1]))
        if o == "or":
            return mor(self.b(a[0]), self.b(a[1]))
        if o == "bite":
            return mite(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        if o in ("lt", "le", "eq"):
            x, y = a
            if x.sort == "b" and y.sort == "b" and o == "eq":
                p, q = self.b(x), self.b(y)
                return mite(p, q, mnot(q))
            if o == "eq":
                z = self._zero_node(x, y)
                if z is not None:
                    return z
            f = {"lt": self._lt, "le": self._le, "eq": self._eq}[o]
            return mapply(f, self.r(x), self.r(y), memo=self._memo(o))
        if o == "isnan":
            return self._isnan(self.r(a[0]))
        if o == "isinf":
            return self._isinf(self.r(a[0]))
        if o == "isfinite":
            m = self.r(a[0])
            return mand(mnot(self._isnan(m)), mnot(self._isinf(m)))
        if o == "app":
            return bvar(("app", n.attr[0], self.ckey(n.attr[1]), tuple(self.key(x) for x in a)))
        if o == "gather":
            if len(a) == 2:
                return self.b(a[1])
            return bvar(("gather",) + tuple(self.key(x) for x in a))
        return bvar((o,) + tuple(self.key(x) for x in a))

    def _cls(self, o, m, spec):
        def f(e):
            if isinstance(e, Special):
                return BT if spec(e) else BF
            if erat(e) is not None:
                return BF
            return bvar((o, e.id))

        return mapply(f, m, memo=self._memo(o))

    def _isnan(self, m):
        return self._cls("isnan", m, lambda e: e is NAN)

    def _isinf(self, m):
        return self._cls("isinf", m, lambda e: e is not NAN)

    def _sumsq(self, n):
        """Elements whose common zero is the zero of a (weighted) sum of squares."""
        parts = []

        def strip(t):
            if t.op == "mul":
                p, q = t.args
                if p.op == "const" and p.attr > 0:
                    return strip(q)
                if q.op == "const" and q.attr > 0:
                    return strip(p)
                m = self.r(p)
                if m is self.r(q) and m.v is None and isinstance(m.leaf, Elem):
                    parts.append(m.leaf)
                    return True
                return False
            if t.op == "add":
                return strip(t.args[0]) and strip(t.args[1])
            return t.op == "const" and t.attr == 0

        if strip(n) and parts:
            return tuple(dict.fromkeys(parts))
        return None

    def _zero_node(self, x, y):
        """x == y where y is 0 and x has an obvious zero set."""
        if y.op == "const" and y.attr == 0:
            pass
        elif x.op == "const" and x.attr == 0:
            x, y = y, x
        else:
            return None
        parts = []

        def strip(t):
            if t.op in ("sqrt", "abs", "sg"):
                return strip(t.args[0])
            if t.op == "mul":
                p, q = t.args
                if p.op == "const" and p.attr > 0:
                    return strip(q)
                if q.op == "const" and q.attr > 0:
                    return strip(p)
                if self.r(p) is self.r(q):
                    parts.append(p)
                    return True
                return False
            if t.op == "add":
                return strip(t.args[0]) and strip(t.args[1])
            if t.op == "const":
                return t.attr == 0
            return False

        r = BT
        if x.op in ("sqrt", "abs"):
            inner = x.args[0]
            return self.b(N.cmp("eq", inner, N.const(0))) if inner.sort != "b" else None
        if x.op in ("add", "mul") and strip(x) and parts:
            for p in parts:
                r = mand(r, self._zero(self.r(p)))
            return r
        return None

    def _zero(self, m):
        return mapply(lambda e: self._eq(e, ZERO), m, memo=self._memo("zero"))

    def _orient(self, d):
        """(representative, positive?) of d up to a rational factor."""
        for e in _zseen:
            q = erat(emul(d, einv(e))) if e.d else None
            if q is not None and q != 0:
                return e, q > 0
        _zseen.append(d)
        return d, True

    def _var(self, key):
        m = bvar(key)
        v = m.v
        if v in self.assumed:
            return BT if self.assumed[v] else BF
        return m

    def _eq(self, x, y) -> MT:
        if isinstance(x, Special) or isinstance(y, Special):
            return BT if (x is y and x is not NAN) else BF
        d = esub(x, y)
        if not d.d:
            return BT
        if erat(d) is not None:
            return BF
        if _sign.get(d.id) == ">0":
            return BF
        if self.generic:
            return BF
        for p, q in ((x, y), (y, x)):
            if p.id in _latforms and erat(q) is not None:
                return mand(self._latcmp(self._le, p, q), self._latcmp(self._le, q, p))
        ps = _zsets.get(d.id)
        if ps:
            r = BT
            for p in ps:
                r = mand(r, self._eq(p, ZERO))
            return r
        if len(d.d) == 1:
            ((k, v),) = d.d.items()
            if k and all(_roots[i][0] == "sqrt" for i in k):
                r = BF
                for i in k:
                    r = mor(r, self._eq(_roots[i][1], ZERO))
                return r if ratrec(v) is not None else mor(r, BF)
        rep, _ = self._orient(d)
        return self._var(("Z", rep.id))

    def _pos(self, d) -> MT:
        """d > 0"""
        r = erat(d)
        if r is not None:
            return BT if r > 0 else BF
        s = _sign.get(d.id)
        if s == ">0":
            return BT
        nd = emul(econst(-1), d)
        if _sign.get(nd.id):
            return BF
        if s == ">=0":
            return mnot(self._eq(d, ZERO))
        lo, hi = _bounds.get(d.id, (-N.INFV, N.INFV))
        if lo > 0:
            return BT
        if hi <= 0:
            return BF
        # c*sqrt(x): sign of c
        if len(d.d) == 1:
            ((k, v),) = d.d.items()
            q = ratrec(v)
            if k and q is not None and all(_roots[i][0] == "sqrt" for i in k):
                if q < 0:
                    return BF
                return mnot(self._eq(d, ZERO))
        rep, pos = self._orient(d)
        p = self._var(("P", rep.id))
        if pos:
            return mand(p, mnot(self._eq(rep, ZERO))) if False else p
        return mand(mnot(p), mnot(self._eq(rep, ZERO)))

    def _lt(self, x, y) -> MT:
        if isinstance(x, Special) or isinstance(y, Special):
            if x is NAN or y is NAN:
                return BF
            if x is y:
                return BF
            if y is INF or x is NINF:
                return BT
            return BF
        r = self._latcmp(self._lt, x, y)
        return r if r is not None else self._pos(esub(y, x))

    def _latcmp(self, f, x, y):
        """A lattice form against a constant: comparison of its members."""
        fx, fy = _latforms.get(x.id), _latforms.get(y.id)
        if fx is not None and erat(y) is not None:
            form, g = fx, lambda i: f(_elist[i], y)
            dual = True
        elif fy is not None and erat(x) is not None:
            form, g = fy, lambda i: f(x, _elist[i])
            dual = False
        else:
            return None
        # x = max of mins: x < c iff every clause has a member < c; c < x iff a clause has all members > c
        outer, o0, inner, i0 = (mand, BT, mor, BF) if dual else (mor, BF, mand, BT)
        r = o0
        for c in sorted(tuple(sorted(c)) for c in form):
            t = i0
            for i in c:
                t = inner(t, g(i))
            r = outer(r, t)
        return r

    def _le(self, x, y) -> MT:
        if isinstance(x, Special) or isinstance(y, Special):
            if x is NAN or y is NAN:
                return BF
            if y is INF or x is NINF:
                return BT
            return BF
        r = self._latcmp(self._le, x, y)
        return r if r is not None else mor(self._pos(esub(y, x)), self._eq(x, y))


def explain(m: MT, depth=0) -> str:
    """Short rendering of a value number for reports."""
    if m.v is None:
        l = m.leaf
        if isinstance(l, bool):
            return str(l)
        if isinstance(l, Special):
            return l.name
        r = erat(l)
        if r is not None:
            return str(r)
        d = desc.get(l.id)
        return f"<{d[0]} {d[1]}>" if d else f"<poly #{l.id}>"
    k = _vars[m.v]
    if depth > 3:
        return "..."
    return f"if {k[0]}{k[1:2]}: {explain(m.hi, depth + 1)} else {explain(m.lo, depth + 1)}"
