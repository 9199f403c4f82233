"""Value-graph nodes.

The abstract interpreter (interp.py) maps every scalar array element of the
analysed program to a node of a value graph (gated SSA / global value
numbering).  A node carries the operator, its operands and the source location
that created it.  Nothing here evaluates the program on data: constants fold,
everything else stays symbolic and is later numbered by canon.py.
"""
from __future__ import annotations

from fractions import Fraction
import itertools

_counter = itertools.count()


class Loc:
    """Current source location, maintained by the interpreter."""

    stack: list = []

    @classmethod
    def cur(cls):
        return cls.stack[-1].where() if cls.stack else None


class Node:
    __slots__ = ("op", "args", "attr", "loc", "sort", "uid", "_iv", "__weakref__")

    def __init__(self, op, args=(), attr=None, sort="r"):
        self.op = op
        self.args = args
        self.attr = attr
        self.sort = sort
        self.loc = Loc.cur()
        self.uid = next(_counter)
        self._iv = None

    def __repr__(self):
        return show(self)

    @property
    def is_const(self):
        return self.op == "const" or self.op in ("inf", "ninf", "nan")


def show(n, depth=6):
    if not isinstance(n, Node):
        return repr(n)
    o = n.op
    if o == "const":
        f = n.attr
        if isinstance(f, bool):
            return str(f)
        return str(f.numerator) if f.denominator == 1 else str(float(f))
    if o == "var":
        return n.attr
    if o in ("inf", "ninf", "nan"):
        return o
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) for x in n.args]
    if o == "add":
        return "(" + " + ".join(a) + ")"
    if o == "mul":
        return "*".join(a)
    if o == "inv":
        return f"1/{a[0]}"
    if o in ("lt", "le", "eq"):
        return f"({a[0]} {'<' if o == 'lt' else '<=' if o == 'le' else '=='} {a[1]})"
    if o == "app":
        return f"{n.attr[0]}(" + ", ".join(a + [str(x)[:40] for x in n.attr[1:2] if x]) + ")"
    return f"{o}(" + ", ".join(a) + ")"


# ---------------------------------------------------------------- constants
def const(x):
    if isinstance(x, bool):
        return Node("const", (), x, "b")
    if isinstance(x, Fraction):
        return Node("const", (), x)
    if isinstance(x, int):
        return Node("const", (), Fraction(x))
    if isinstance(x, float):
        if x != x:
            return Node("nan")
        if x == float("inf"):
            return Node("inf")
        if x == float("-inf"):
            return Node("ninf")
        return Node("const", (), Fraction(repr(x)))
    raise TypeError(f"const {x!r}")


def var(name, sort="r", lo=None, hi=None, nonzero=False):
    n = Node("var", (), name, sort)
    if lo is not None or hi is not None:
        n._iv = (-INFV if lo is None else lo, INFV if hi is None else hi)
    return n


def cval(n):
    """Static value of a node or None."""
    return n.attr if n.op == "const" else None


def isc(n, v):
    return n.op == "const" and n.attr == v and isinstance(n.attr, bool) == isinstance(v, bool)


# ---------------------------------------------------------------- real ops
def add(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.attr + b.attr)
    if isc(a, 0):
        return b
    if isc(b, 0):
        return a
    for x, y in ((a, b), (b, a)):
        if x.op in ("inf", "ninf") and y.op == "const":
            return x
        if x.op == "const" and y.op in ("min", "max"):
            return lat(y.op, [add(x, z) for z in y.args])
    return Node("add", (a, b))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.attr * b.attr)
    for x, y in ((a, b), (b, a)):
        if x.op == "const":
            if x.attr == 1:
                return y
            if x.attr == 0 and y.op not in ("inf", "ninf", "nan"):
                return const(0)
            if y.op in ("inf", "ninf"):
                if x.attr > 0:
                    return y
                if x.attr < 0:
                    return Node("ninf" if y.op == "inf" else "inf")
                return Node("nan")
            if y.op in ("min", "max"):
                o = y.op if x.attr > 0 else ("max" if y.op == "min" else "min")
                return lat(o, [mul(x, z) for z in y.args])
            if y.op == "add" and any(z.op in ("min", "max") for z in y.args):
                return add(*(mul(x, z) for z in y.args))
    return Node("mul", (a, b))


def inv(a):
    if a.op == "const" and a.attr != 0:
        return const(1 / a.attr)
    if a.op in ("inf", "ninf"):
        return const(0)
    return Node("inv", (a,))


def div(a, b):
    if b.op == "const" and b.attr != 0:
        return mul(const(1 / b.attr), a)
    if b.op == "const" and a.op == "const":
        return Node("nan") if a.attr == 0 else Node("inf" if a.attr > 0 else "ninf")
    return mul(a, inv(b))


def ipow(a, n):
    if n == 0:
        return const(1)
    if n < 0:
        return inv(ipow(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def _fsqrt(f):
    import math

    if f < 0:
        return None
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)
    return None


def sqrt(a):
    if a.op == "const":
        r = _fsqrt(a.attr)
        if r is not None:
            return const(r)
    if a.op == "inf":
        return a
    return Node("sqrt", (a,))


def fabs(a):
    if a.op == "const":
        return const(abs(a.attr))
    if a.op in ("inf", "ninf"):
        return Node("inf")
    return Node("abs", (a,))


def lat(op, args):
    """n-ary min / max."""
    flat = []
    for x in args:
        if x.op == op:
            flat.extend(x.args)
        else:
            flat.append(x)
    cs = [x.attr for x in flat if x.op == "const"]
    rest = [x for x in flat if x.op != "const"]
    f = min if op == "min" else max
    if cs:
        rest.append(const(f(cs)))
    out = []
    for x in rest:
        if x.op == ("inf" if op == "min" else "ninf") and len(rest) > 1:
            continue
        if x not in out:
            out.append(x)
    if not out:
        out = rest[:1]
    if len(out) == 1:
        return out[0]
    return Node(op, tuple(out))


def clip01(e):
    return lat("min", [lat("max", [e, const(0)]), const(1)])


def fun1(name, a):
    """Unary transcendental / rounding / marker function."""
    import math

    if a.op == "const":
        if name in ("sin", "tan", "tanh", "arctan", "arcsin", "sinh", "expm1", "log1p") and a.attr == 0:
            return const(0)
        if name in ("cos", "exp", "cosh") and a.attr == 0:
            return const(1)
        if name == "log" and a.attr == 1:
            return const(0)
        if name == "floor":
            return const(math.floor(a.attr))
        if name == "ceil":
            return const(math.ceil(a.attr))
        if name == "trunc":
            return const(math.trunc(a.attr))
        if name in ("round", "rint"):
            return const(round(a.attr))
        if name in ("nan2num", "sg", "icast", "lowp"):
            return a
        if name == "sign":
            return const((a.attr > 0) - (a.attr < 0))
    if name == "sign":
        return ite(cmp("lt", const(0), a), const(1), ite(cmp("lt", a, const(0)), const(-1), const(0)))
    if name == "exp" and a.op == "ninf":
        return const(0)
    return Node(name, (a,))


def app(name, keyparts, args=(), sort="r", rng=None):
    """Opaque application; keyparts are static/hashable, args are nodes."""
    n = Node("app", tuple(args), (name, keyparts), sort)
    if rng:
        n._iv = rng
    return n


# ---------------------------------------------------------------- bool ops
T = const(True)
F = const(False)


def bconst(b):
    return const(bool(b))


def cmp(op, a, b):
    """op in lt, le, eq (a op b)."""
    if a.op == "const" and b.op == "const":
        return bconst({"lt": a.attr < b.attr, "le": a.attr <= b.attr, "eq": a.attr == b.attr}[op])
    if a.op == "nan" or b.op == "nan":
        return bconst(False)
    if a is b:
        return bconst(op != "lt")
    return Node(op, (a, b), None, "b")


def band(a, b):
    if a.op == "const":
        return b if a.attr else a
    if b.op == "const":
        return a if b.attr else b
    return Node("and", (a, b), None, "b")


def bor(a, b):
    if a.op == "const":
        return a if a.attr else b
    if b.op == "const":
        return b if b.attr else a
    return Node("or", (a, b), None, "b")


def bnot(a):
    if a.op == "const":
        return bconst(not a.attr)
    if a.op == "not":
        return a.args[0]
    return Node("not", (a,), None, "b")


def b2r(a):
    if a.op == "const":
        return const(1 if a.attr else 0)
    return Node("ite", (a, const(1), const(0)))


def r2b(a):
    if a.op == "const":
        return bconst(a.attr != 0)
    if a.op in ("inf", "ninf", "nan"):
        return T
    return bnot(cmp("eq", a, const(0)))


def ite(c, a, b):
    if c.op == "const":
        return a if c.attr else b
    if a is b:
        return a
    if a.sort == "b" and b.sort == "b":
        return Node("bite", (c, a, b), None, "b")
    return Node("ite", (c, a, b))


# ---------------------------------------------------------------- traversal
def walk(roots):
    seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.uid in seen:
            continue
        seen.add(n.uid)
        yield n
        stack.extend(x for x in n.args if isinstance(x, Node))
        if n.op == "app":
            stack.extend(_nodes_in(n.attr[1]))
        elif n.op == "D":
            stack.extend(_nodes_in(n.attr))


def _nodes_in(x):
    if isinstance(x, Node):
        return [x]
    if isinstance(x, (tuple, list)):
        r = []
        for y in x:
            r += _nodes_in(y)
        return r
    return []


# ---------------------------------------------------------------- intervals
INFV = float("inf")


def _m(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def interval(n):
    """Interval (lo, hi) of a real node (classical interval domain)."""
    if n._iv is not None:
        return n._iv
    # iterative post-order to avoid deep recursion
    stack = [(n, False)]
    while stack:
        m, done = stack.pop()
        if m._iv is not None:
            continue
        if not done:
            stack.append((m, True))
            stack.extend((x, False) for x in m.args if isinstance(x, Node) and x._iv is None)
        else:
            m._iv = _iv1(m)
    return n._iv


def _same(a, b):
    return a is b


def _iv1(n):
    o = n.op
    if n.sort == "b":
        return (0, 1)
    if o == "const":
        return (n.attr, n.attr)
    if o == "inf":
        return (INFV, INFV)
    if o == "ninf":
        return (-INFV, -INFV)
    if o in ("var", "app", "nan", "D"):
        return (-INFV, INFV)
    iv = [interval(x) for x in n.args]
    if o == "add":
        lo, hi = iv[0][0] + iv[1][0], iv[0][1] + iv[1][1]
        if lo != lo:
            lo = -INFV
        if hi != hi:
            hi = INFV
        return (lo, hi)
    if o == "mul":
        (a, b), (c, d) = iv
        ps = [_m(x, y) for x in (a, b) for y in (c, d)]
        r = (min(ps), max(ps))
        if _struct_eq(n.args[0], n.args[1]):
            r = (max(0, r[0]), r[1])
            if a > 0 or b < 0:
                r = (min(a * a, b * b), r[1])
        return r
    if o == "inv":
        a, b = iv[0]
        if a > 0:
            return (0 if b == INFV else 1 / b, 1 / a if a != INFV else 0)
        if b < 0:
            return (1 / b if b != -INFV else 0, 0 if a == -INFV else 1 / a)
        if a == 0:
            return (0, INFV)
        return (-INFV, INFV)
    if o == "sqrt":
        a, b = iv[0]
        import math

        return (math.sqrt(a) if a > 0 and a != INFV else 0, math.sqrt(b) if 0 <= b < INFV else INFV)
    if o == "abs":
        a, b = iv[0]
        if a >= 0:
            return (a, b)
        if b <= 0:
            return (-b, -a)
        return (0, max(-a, b))
    if o == "min":
        return (min(x[0] for x in iv), min(x[1] for x in iv))
    if o == "max":
        return (max(x[0] for x in iv), max(x[1] for x in iv))
    if o == "ite":
        return (min(iv[1][0], iv[2][0]), max(iv[1][1], iv[2][1]))
    if o in ("sin", "cos", "tanh"):
        return (-1, 1)
    if o in ("exp", "exp2"):
        return (1 if iv[0][0] >= 0 else 0, 1 if iv[0][1] <= 0 else INFV)
    if o == "cosh":
        return (1, INFV)
    if o in ("softplus", "arccosh"):
        return (0, INFV)
    if o in ("log", "log2", "log10", "log1p", "expm1", "cbrt", "arcsinh", "sinh", "erf"):
        k = 1 if o in ("log", "log2", "log10") else 0
        return (0 if iv[0][0] >= k else -1 if o in ("expm1", "erf") else -INFV, 0 if iv[0][1] <= k else 1 if o == "erf" else INFV)
    if o in ("arctan", "arcsin"):
        return (0 if iv[0][0] >= 0 else -2, 0 if iv[0][1] <= 0 else 2)
    if o in ("arccos", "atan2"):
        return (-4 if o == "atan2" else 0, 4)
    if o == "sigmoid":
        return (0, 1)
    if o in ("sg", "lowp", "alias", "custom"):
        return iv[0]
    if o == "nan2num":
        return (min(0, iv[0][0]), max(0, iv[0][1]))
    if o in ("floor", "icast", "trunc", "round", "rint", "ceil"):
        return (iv[0][0] - 1, iv[0][1] + 1)
    if o == "gather":
        iv = iv[1:]
        return (min(x[0] for x in iv), max(x[1] for x in iv))
    return (-INFV, INFV)


def _struct_eq(a, b, depth=6):
    if a is b:
        return True
    if depth == 0 or a.op != b.op or a.attr != b.attr or len(a.args) != len(b.args):
        return False
    return all(_struct_eq(x, y, depth - 1) for x, y in zip(a.args, b.args))
