"""Reference semantics of the documented behaviour, over value-graph arrays.

Written from the documentation; shares no code with the analysed sources."""
from __future__ import annotations

from . import nodes as N
from .arr import Arr, asarray
from .chk import jnp

TOL = 0.005
ALPHA = 100


def hard_sigmoid(x, alpha):
    """clip(alpha*x/6 + 1/2, 0, 1)."""
    z = asarray(alpha) * asarray(x)
    return jnp.minimum(jnp.maximum(z * N_(1, 6) + N_(1, 2), 0.0), 1.0)


def sigmoid(x, alpha):
    z = asarray(alpha) * asarray(x)
    return 1.0 / (1.0 + jnp.exp(-z))


def N_(a, b=1):
    from fractions import Fraction

    return Arr((), [N.const(Fraction(a, b))], "f")


def opaque_act():
    """An activation nobody knows anything about, except its range."""

    def act(x, alpha):
        x, alpha = asarray(x), asarray(alpha)
        al = alpha.data[0] if alpha.size == 1 else None
        assert al is not None
        return Arr(x.shape, [N.app("act", (), (e, al), rng=(0, 1)) for e in x.cast("f").data], "f")

    act.__name__ = "act"
    return act


class Logic:
    def __init__(self, smooth, act=None, alpha=None):
        self.smooth = bool(smooth)
        self.act = act or hard_sigmoid
        self.alpha = ALPHA if alpha is None else alpha

    def greater(self, x, y):
        x, y = asarray(x), asarray(y)
        return self.act(x - y, self.alpha) if self.smooth else x > y

    def greater_equal(self, x, y):
        x, y = asarray(x), asarray(y)
        return self.act(x - y, self.alpha) if self.smooth else x >= y

    def less(self, x, y):
        x, y = asarray(x), asarray(y)
        return self.act(y - x, self.alpha) if self.smooth else x < y

    def less_equal(self, x, y):
        x, y = asarray(x), asarray(y)
        return self.act(y - x, self.alpha) if self.smooth else x <= y

    def and_(self, x, y):
        return jnp.minimum(x, y) if self.smooth else asarray(x).cast("b") & asarray(y).cast("b")

    def or_(self, x, y):
        return jnp.maximum(x, y) if self.smooth else asarray(x).cast("b") | asarray(y).cast("b")

    def not_(self, x):
        return 1.0 - asarray(x) if self.smooth else ~asarray(x).cast("b")

    def true(self):
        return asarray(1.0) if self.smooth else Arr((), [N.T], "b")

    def false(self):
        return asarray(0.0) if self.smooth else Arr((), [N.F], "b")

    def all(self, *xs):
        r = self.true()
        for x in xs:
            r = self.and_(r, x)
        return r

    def any(self, *xs):
        r = self.false()
        for x in xs:
            r = self.or_(r, x)
        return r


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    s = asarray(0.0)
    for i in range(a.shape[0]):
        s = s + a[i] * b[i]
    return s


def ratio_or_inf(num, den):
    z = den == 0.0
    return jnp.where(z, jnp.inf, num / jnp.where(z, 1.0, den))


def segments_intersect(L, P1, P2, P3, P4, tol=TOL):
    """Solve P1 + s (P2-P1) = P3 + t (P4-P3); both in [-tol, 1+tol]."""
    d1, d2, w = P2 - P1, P4 - P3, P3 - P1
    den = cross(d1, d2)
    s, t = ratio_or_inf(cross(w, d2), den), ratio_or_inf(cross(w, d1), den)
    tol = asarray(tol)
    return L.all(*[L.all(L.greater_equal(q, -tol), L.less_equal(q, 1.0 + tol)) for q in (s, t)])


def wall_obstructs(L, wall, ray, patch):
    a, b = wall[0], wall[1]
    t = b - a
    return segments_intersect(L, a - patch * t, b + patch * t, ray[0], ray[1])


def contains(L, t):
    return L.and_(L.greater_equal(t, 0.0), L.less_equal(t, 1.0))


def length(xys):
    s = asarray(0.0)
    for i in range(xys.shape[0] - 1):
        d = xys[i + 1] - xys[i]
        s = s + jnp.sqrt(dot(d, d))
    return s


def unit(v):
    """v/|v|, and 0 for the zero vector."""
    q = dot(v, v)
    return v / jnp.where(q == 0.0, 1.0, jnp.sqrt(q))


def wall_normal(w):
    t = w[1] - w[0]
    return unit(jnp.array([t[1], -t[0]]))


def mirror(w, p):
    n = wall_normal(w)
    return p - 2.0 * dot(p - w[0], n) * n


def wall_residual(w, rp):
    n = wall_normal(w)
    i, r = unit(rp[1] - rp[0]), unit(rp[2] - rp[1])
    e = r - (i - 2.0 * dot(i, n) * n)
    return dot(e, e)


def ris_residual(w, phi, rp):
    n = wall_normal(w)
    r = unit(rp[2] - rp[1])
    m = -r
    return (cross(m, n) - jnp.sin(phi)) ** 2 + (dot(m, n) - jnp.cos(phi)) ** 2


def candidates(n, lo, hi, excluded=()):
    """Index sequences without immediate repetition, by increasing order."""
    out = []
    for k in range(lo, hi + 1):
        seqs = [()]
        for _ in range(k):
            seqs = [s + (i,) for s in seqs for i in range(n) if i not in excluded and (not s or s[-1] != i)]
        out.append(sorted(seqs))
    return out
