"""C15: finite and exact gradients."""
from __future__ import annotations

import math
import os
import random
from fractions import Fraction

from .. import jaxmodel as J
from .. import nodes as N
from ..arr import Arr, asarray
from ..canon import Canon, TooBig
from ..chk import Float, Mismatch, ProgError, Ref, Undecided, Unsupported, _Unreliable, eq, jnp, ob, req, sym
from .scene import default_opt, opaque_opt, supplied

# Inputs that are settings rather than coordinates.
SETTINGS = ("tol", "alpha", "patch", "h", "rc")
ROUND = ("floor", "ceil", "trunc", "round", "rint")
CUT = {"sg": "stops the gradient", "icast": "casts to integers", "lowp": "reduces the precision", **{k: "rounds a differentiated quantity" for k in ROUND}}


def is_input(n):
    return n.op == "var" and n.sort == "r" and n.attr not in SETTINGS and n.attr != "EPS"


def inner(n):
    """Nodes through which a derivative of n flows."""
    o = n.op
    if n.sort != "r":
        return []
    if o == "ite":
        return list(n.args[1:])
    if o == "gather":
        return list(n.args[1:])
    if o in ("argmin", "argmax", "clampidx", "const", "inf", "ninf", "nan", "var"):
        return []
    if o == "app":
        if n.attr[0] in ("argmin", "argmax", "uniform", "randint"):
            return []
        return [x for x in (*n.args, *N._nodes_in(n.attr[1])) if x.sort == "r"]
    if o == "D":
        return [x for x in N._nodes_in(n.attr) if x.sort == "r"]
    if o == "custom":
        k = len(n.args) // 2
        return [x for x, p in zip(n.args[1 : 1 + k], n.args[1 + k :]) if not N.isc(p, 0)]
    return [x for x in n.args if isinstance(x, N.Node) and x.sort == "r"]


def on_path(roots):
    """Nodes carrying a derivative from an input to a root."""
    order, seen, todo = [], set(), [(r, False) for r in roots]
    while todo:
        n, done = todo.pop()
        if done:
            order.append(n)
            continue
        if n.uid in seen:
            continue
        seen.add(n.uid)
        todo.append((n, True))
        todo.extend((x, False) for x in inner(n) if x.uid not in seen)
    dep = {}
    for n in order:
        dep[n.uid] = is_input(n) or any(dep[x.uid] for x in inner(n))
    return [n for n in order if dep[n.uid]], dep


POOLS = ([Fraction(0), Fraction(1)], [Fraction(0), Fraction(1), Fraction(-1), Fraction(2)], [Fraction(0), Fraction(3), Fraction(4), Fraction(-2), Fraction(1, 2)])


def witness(bad, roots, tries=400):
    """A point where bad(value) holds for a value while the roots are finite."""
    n, test = bad
    rng = random.Random(4321 + int(os.environ.get("VERIF_SEED", "1")))
    cn = Canon()
    vs = sorted({m.attr: m for r in (n, *roots) for m in N.walk([r]) if m.op == "var" and m.sort == "r"}.items())
    for i in range(tries):
        pool = POOLS[i % 3]
        env = {"#rng": rng, "#grid": 1, "#pool": ()}
        for nm, v in vs:
            lo, hi = v._iv if v._iv else (-math.inf, math.inf)
            if nm in SETTINGS:
                env[nm] = {"tol": Fraction(1, 128), "alpha": Fraction(64), "patch": Fraction(0), "h": Fraction(1, 8), "rc": Fraction(1, 2)}[nm]
            else:
                c = [x for x in pool if lo <= x <= hi]
                env[nm] = rng.choice(c) if c else Fraction(lo if lo != -math.inf else 0)
        ref = Float(env, cn)
        try:
            v = ref.ev(n)
            if not test(v):
                continue
            rs = [float(ref.ev(r)) for r in roots]
        except (_Unreliable, OverflowError, ValueError, ZeroDivisionError):
            continue
        if all(math.isfinite(x) for x in rs):
            return {k: float(v) for k, v in env.items() if not k.startswith("#") and k not in SETTINGS}
    return None


SCALES = (1, 1, Fraction(1, 100), 1, Fraction(1, 10**5), 1000)


def wrong_slope(root, tries=90):
    """Does holding the values behind a cut constant change a derivative?"""
    rng = random.Random(77 + int(os.environ.get("VERIF_SEED", "1")))
    cn, hits = Canon(), 0
    ns = list(N.walk([root]))
    vs = sorted({m.attr for m in ns if is_input(m)})
    cuts = [m for m in ns if m.op in ("sg", "icast", *ROUND)]
    # rounding is a staircase: its slope shows over steps of many treads
    hs = (Fraction(1, 10**3), Fraction(1, 2 * 10**3)) if any(m.op in ROUND for m in cuts) else (Fraction(1, 10**6), Fraction(1, 10**7))
    opaque = [m for m in ns if m.op in ("app", "D", "argmin", "argmax")]
    free = [m for m in ns if is_input(m) and m.op == "var" and m.sort == "r" and m._iv in (None, (-math.inf, math.inf))]
    for i in range(tries):
        env = {"#rng": rng, "#grid": 0, "#pool": (), "#salt": i}
        sc = SCALES[i % len(SCALES)]
        if sc != 1:
            # tiny and huge scenes
            env.update((m.attr, Fraction(rng.uniform(-3, 3)).limit_denominator(10**6) * sc) for m in free)
        try:
            base = Float(env, cn)
            f0 = float(base.ev(root))
            for v in rng.sample(vs, min(3, len(vs))):
                if v not in env:
                    continue
                ds = []
                for h in (sc * hs[0], sc * hs[1]):
                    for held in (False, True):
                        r = Float({**env, v: env[v] + h}, cn)
                        r.memo.update((m.uid, base.ev(m)) for m in opaque)
                        if held:
                            r.memo.update((m.uid, base.ev(m)) for m in cuts)
                        ds.append((float(r.ev(root)) - f0) / float(h))
                big = 1e-2 * (1 + abs(ds[0])) + 1e-6 * abs(f0)
                if abs(ds[0] - ds[1]) > big and abs(ds[0] - ds[2]) < big / 4 and abs(ds[1] - ds[3]) < big / 4:
                    hits += 1
                    if hits >= 2:
                        return True
        except (_Unreliable, OverflowError, ValueError, ZeroDivisionError):
            continue
    return False


def wrong_rule(n, root, tries=60):
    """A point where the rule of a custom derivative is not the derivative of
    the function: differences of the primal against the given partials."""
    rng = random.Random(99 + int(os.environ.get("VERIF_SEED", "1")))
    cn, k = Canon(), len(n.args) // 2
    primal, ins, parts = n.args[0], n.args[1 : 1 + k], n.args[1 + k :]
    opaque = [m for m in N.walk([root]) if m.op in ("app", "D", "argmin", "argmax")]
    hits = 0
    for t in range(tries):
        env = {"#rng": rng, "#grid": 0, "#pool": (), "#salt": t}
        try:
            base = Float(env, cn)
            f0, r0 = float(base.ev(primal)), float(base.ev(root))
            if not math.isfinite(r0):
                continue
            for x, p in zip(ins, parts):
                at, given = base.ev(x), float(base.ev(p))
                ds = []
                for h in (Fraction(1, 10**6), Fraction(-1, 10**6), Fraction(1, 10**7)):
                    r = Float(dict(env), cn)
                    r.memo.update((m.uid, base.ev(m)) for m in opaque)
                    r.memo[x.uid] = at + h
                    ds.append((float(r.ev(primal)) - f0) / float(h))
                big = 1e-2 * max(abs(ds[0]), abs(given)) + 1e-8 * abs(f0) + 1e-12
                if all(abs(d - given) > big or not math.isfinite(given) for d in ds) and max(ds) - min(ds) < big / 4:
                    hits += 1
                    if hits >= 2:
                        return True
        except (_Unreliable, OverflowError, ValueError, ZeroDivisionError):
            continue
    return False


def exact0(v):
    return not isinstance(v, bool) and isinstance(v, (int, Fraction)) and v == 0


def risks(nodes, dep):
    """(node, operand, kind of singularity, test on the operand's value)."""
    for n in nodes:
        a = [x for x in n.args if isinstance(x, N.Node)]
        if n.op in ("inv", "log", "cbrt", "log2", "log10") and dep[a[0].uid]:
            yield n, a[0], {"inv": "division by zero"}.get(n.op, f"{n.op} of zero"), exact0
        elif n.op == "sqrt" and n.attr != "hypot" and dep[a[0].uid]:
            yield n, a[0], "square root of zero or a negative value", (lambda v: exact0(v) or v < 0)
        elif n.op == "pow" and dep.get(a[0].uid):
            yield n, a[0], "power of zero", exact0
        elif n.op == "atan2":
            yield n, N.add(N.mul(a[0], a[0]), N.mul(a[1], a[1])), "angle of a zero vector", exact0
        elif n.op in ("arccos", "arcsin", "arctanh"):
            yield n, N.sub(N.const(1), N.mul(a[0], a[0])), f"{n.op} of one", exact0
        elif n.op in ("exp", "expm1", "sinh", "cosh"):
            yield n, a[0], f"overflow of {n.op}", lambda v: float(v) > 90
        elif n.op == "mul":
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if dep[x.uid] and any(m.op in ("inf", "ninf") for m in N.walk([y])):
                    yield n, y, "product with an infinite value", lambda v: isinstance(v, float) and math.isinf(v)


def _tests0(c, x):
    """(x is not zero where c fails, x is not zero where c holds), syntactically."""
    if c.op == "not":
        return _tests0(c.args[0], x)[::-1]
    if c.op in ("and", "or"):
        t = [_tests0(a, x) for a in c.args]
        k = c.op == "and"
        return (not k and any(z for z, _ in t)), (k and any(nz for _, nz in t))
    if c.op == "eq":
        return any(a is x and N.isc(b, 0) for a, b in (c.args, c.args[::-1])), False
    if c.op in ("lt", "le") and len(c.args) == 2:
        a, b = c.args
        strict = c.op == "lt"
        if b is x and a.op == "const":  # a < x: x > a where it holds
            return False, a.attr > 0 or strict and a.attr == 0
        if a is x and b.op == "const":  # x < b: x >= b where it fails
            return b.attr > 0 or not strict and b.attr == 0, False
    return False, False


def nonzero(x, pos=False):
    """x is a constant other than zero (positive), or replaced where it is zero."""
    if x.op == "const":
        return x.attr > 0 if pos else x.attr != 0
    if x.op == "ite":
        c, a, b = x.args
        return (nonzero(a, pos) or _tests0(c, a)[1]) and (nonzero(b, pos) or _tests0(c, b)[0])
    if x.op in ("sqrt", "abs") and nonzero(x.args[0]) or x.op in ("inv", "mul") and all(nonzero(y, pos) for y in x.args):
        return True
    lo, hi = N.interval(x)
    return lo > 0 or hi < 0


def excluded(cn, n, op, kind):
    """The singularity is impossible."""
    lo, hi = N.interval(op)
    if kind.startswith("overflow"):
        return hi <= 88
    if kind.startswith("product"):
        from ..canon import Special, leaves

        return not any(isinstance(l, Special) for l in leaves(cn.r(op)))
    if lo > 0 or hi < 0:
        return True
    if nonzero(op, n.op in ("sqrt", "log", "log2", "log10", "pow")):
        return True
    z = cn.b(N.cmp("eq", op, N.const(0)))
    from ..canon import BF

    return z is BF


def grad_safe(c, what, *outs):
    """No singular derivative on any differentiable data path of the outputs."""
    roots = [e for o in outs for e in asarray(o).data if e.sort == "r" and not e.is_const]
    req(roots, f"{what}: does not depend on its inputs")
    nodes, dep = on_path(roots)
    cn = Canon()
    open_ = None
    for n in nodes:
        if n.op in CUT:
            mine = [r for r in roots if n in set(N.walk([r]))] or roots
            if n.op == "lowp" or wrong_slope(mine[0]):
                raise Mismatch(f"{what}: an intermediate step {CUT[n.op]}", n.loc)
            open_ = open_ or f"{what}: an intermediate step {CUT[n.op]} at {n.loc}, no input found where the slope is wrong"
    for n in nodes:
        if n.op == "custom":
            mine = [r for r in roots if n in set(N.walk([r]))] or roots
            if wrong_rule(n, mine[0]):
                raise Mismatch(f"{what}: the custom derivative of an intermediate step is not its derivative", n.loc)
            c.case()
    for r in roots:
        if not dep[r.uid]:
            raise Mismatch(f"{what}: a result carries no derivative of the inputs", r.loc)
    seen = set()
    for n, op, kind, test in risks(nodes, dep):
        if (op.uid, kind) in seen:
            continue
        seen.add((op.uid, kind))
        try:
            ok = excluded(cn, n, op, kind)
        except TooBig:
            ok = False
        if ok:
            c.case()
            continue
        mine = [r for r in roots if n in set(N.walk([r]))] or roots
        wt = witness((op, test), mine[:1])
        if wt is not None:
            pt = ", ".join(f"{k}={v:g}" for k, v in list(wt.items())[:8])
            raise Mismatch(f"{what}: the value is finite but its gradient is not, {kind} on the differentiated path e.g. for {pt}", n.loc)
        open_ = open_ or f"{what}: {kind} at {n.loc} neither excluded nor reached"
    return open_


def sweep(c, cases):
    bad = []
    for what, outs in cases:
        u = grad_safe(c, what, *outs)
        if u:
            bad.append(u)
    if bad:
        raise Undecided("; ".join(bad[:3]))


def library(w):
    return [w.get("geometry", n) for n in ("Point", "Wall", "RIS", "Vertex", "Ray", "Path")]


@ob("C15", "geometric quantities", "dataflow over the value graph: no division, root or logarithm of a possible zero on a differentiated path, both branches of every selection included")
def _(c):
    w = c.world()
    Point, Wall, RIS, Vertex, Ray, Path = library(w)
    G = lambda n: w.get("geometry", n)
    wl = w.call(Wall, xys=sym("w", 2, 2))
    ris = w.call(RIS, xys=sym("w", 2, 2), phi=sym("phi"))
    vx = w.call(Vertex, xy=sym("v", 2))

    def cases():
        for n in (2, 3, 4):
            yield f"path_length of {n} points", [w.call(G("path_length"), sym("q", n, 2))]
            yield f"Path.length of {n} points", [w.m(w.call(Path, xys=sym("q", n, 2)), "length")]
        n, l = w.list(w.call(G("normalize"), sym("u", 2)), 2)
        yield "normalize (vector)", [n]
        yield "normalize (length)", [l]
        for k in (1, 2, 3):
            i, d = w.list(w.call(G("closest_point"), sym("q", k, 2), sym("c", 2)), 2)
            yield f"closest_point of {k} (distance)", [d]
        for o, nm in ((wl, "Wall"), (ris, "RIS")):
            yield f"{nm}.normal", [w.m(o, "normal")]
            yield f"{nm}.image_of", [w.m(o, "image_of", sym("c", 2))]
            yield f"{nm}.parametric_to_cartesian", [w.m(o, "parametric_to_cartesian", sym("s", 1))]
            yield f"{nm}.cartesian_to_parametric", [w.m(o, "cartesian_to_parametric", sym("c", 2))]
            yield f"{nm}.evaluate_cartesian", [w.m(o, "evaluate_cartesian", sym("q", 3, 2))]
            yield f"{nm}.rotate", [w.at(w.m(o, "rotate", sym("ang"), around=sym("c", 2)), "xys")]
            yield f"{nm}.t", [w.m(o, "t")]
            yield f"{nm}.bounding_box", [w.m(o, "bounding_box")]
        yield "Vertex.parametric_to_cartesian", [w.m(vx, "parametric_to_cartesian", sym("s", 0))]
        yield "Wall.center", [w.m(wl, "center")]
        yield "Wall.get_location", [w.m(wl, "get_location", l) for l in ("N", "SW", "C")]
        for n in (0, 1, 2, 3):
            p = w.call(Path, xys=sym("q", n + 2, 2))
            a, b = w.call(Point, xy=sym("q", n + 2, 2)[0]), w.call(Point, xy=sym("q", n + 2, 2)[n + 1])
            yield f"received_power, {n} interactions", [w.call(w.get("utils", "received_power"), a, b, p, [wl] * n)]

    sweep(c, cases())


def acts(w):
    yield "default activation", {}
    yield "default activation, any slope", {"alpha": sym("alpha", lo=1)}
    yield "sigmoid", {"alpha": sym("alpha", lo=1), "function": w.get("logic", "sigmoid")}
    yield "hard_sigmoid", {"alpha": sym("alpha", lo=1), "function": w.get("logic", "hard_sigmoid")}


@ob("C15", "smooth predicates", "same dataflow analysis on containment, intersection, obstruction and validity in smooth mode")
def _(c):
    w = c.world()
    Point, Wall, RIS, Vertex, Ray, Path = library(w)
    w0, w1 = (w.call(Wall, xys=sym(f"w{i}_", 2, 2)) for i in range(2))

    def cases():
        for an, kw in acts(w):
            for f in ("activation",):
                k2 = dict(kw)
                yield f"{f} ({an})", [w.call(w.get("logic", f), sym("x"), **k2)]
            for f in ("greater", "less_equal"):
                yield f"{f} ({an})", [w.call(w.get("logic", f), sym("x"), sym("y"), approx=True, **kw)]
            yield f"segments_intersect ({an})", [w.call(w.get("geometry", "segments_intersect"), *[sym(f"p{i}", 2) for i in range(4)], approx=True, **kw)]
            yield f"Wall.contains_parametric ({an})", [w.m(w0, "contains_parametric", w.m(w0, "cartesian_to_parametric", sym("c", 2)), approx=True, **kw)]
            yield f"Wall.intersects_cartesian ({an})", [w.m(w0, "intersects_cartesian", sym("r", 2, 2), patch=sym("patch"), approx=True, **kw)]
            for cand in ((), (0,), (1, 0)):
                p = w.call(Path, xys=sym("q", len(cand) + 2, 2), loss=sym("loss"))
                pc = jnp.array(list(cand), dtype=int)
                inter = [(w0, w1)[i] for i in cand]
                yield f"Path.intersects_with_objects, order {len(cand)} ({an})", [w.m(p, "intersects_with_objects", [w0, w1], pc, approx=True, **kw)] if len(cand) < 2 else [sym("zz")]
                if cand:
                    yield f"Path.on_objects, order {len(cand)} ({an})", [w.m(p, "on_objects", inter, approx=True, **kw)]
                if len(cand) < 2:
                    yield f"Path.is_valid, order {len(cand)} ({an})", [w.m(p, "is_valid", [w0, w1], pc, inter, approx=True, **kw)]

    sweep(c, cases())


@ob("C15", "paths", "same dataflow analysis on the vertices, losses, lengths and powers of image-method paths")
def _(c):
    w = c.world()
    Point, Wall, RIS, Vertex, Ray, Path = library(w)
    f = w.at(w.get("geometry", "ImagePath"), "from_tx_objects_rx")
    tx, rx = sym("tx", 2), sym("rx", 2)

    def cases():
        for n in (1, 2) if c.tier == "quick" else (1, 2, 3):
            ws = [w.call(Wall, xys=sym(f"w{i}_", 2, 2)) for i in range(n)]
            p = w.call(f, tx, ws, rx)
            yield f"ImagePath vertices, order {n}", [w.at(p, "xys")[1:-1]]
            if n == 1:
                yield f"ImagePath loss, order {n}", [w.at(p, "loss")]
                yield f"ImagePath length, order {n}", [w.m(p, "length")]
                yield f"received_power of an ImagePath, order {n}", [w.call(w.get("utils", "received_power"), w.call(Point, xy=tx), w.call(Point, xy=rx), p, ws)]
        for nm, ws in (("a surface", ["s"]), ("two surfaces", ["s", "s"]))[: 1 if c.tier == "quick" else 2]:
            ws = [w.call(RIS, xys=sym(f"w{i}_", 2, 2), phi=sym("phi")) if k == "s" else w.call(Wall, xys=sym(f"w{i}_", 2, 2)) for i, k in enumerate(ws)]
            yield f"ImagePath loss, {nm}", [w.at(w.call(f, tx, ws, rx), "loss")]
        p = w.call(f, tx, [], rx)
        yield "ImagePath length, order 0", [w.m(p, "length")]
        p = w.call(w.at(Path, "from_tx_objects_rx"), tx, [w.call(Wall, xys=sym("w0_", 2, 2))], rx)
        yield "Path length, order 1", [w.m(p, "length")]

    sweep(c, cases())


@ob("C15", "accumulated powers", "same dataflow analysis on the accumulation of smooth validity times power over a scene of walls, pairwise and on grids")
def _(c):
    w = c.world()
    Point, Wall, RIS, Vertex, Ray, Path = library(w)
    Scene = w.get("scene", "Scene")
    rp = w.get("utils", "received_power")
    P = lambda n: w.call(Point, xy=sym(n, 2))

    def cases():
        for nm, objs in (("walls", [w.call(Wall, xys=sym(f"w{i}_", 2, 2)) for i in range(2)]), ("a wall and a surface", [w.call(Wall, xys=sym("w0_", 2, 2)), w.call(RIS, xys=sym("w1_", 2, 2), phi=sym("phi"))])):
            sc = w.call(Scene, transmitters={"t": P("tx")}, receivers={"r": P("rx")}, objects=objs)
            for an, kw in acts(w):
                yield f"accumulate_over_paths ({nm}, {an})", [w.m(sc, "accumulate_over_paths", rp, reduce_all=True, max_order=1, approx=True, **kw)]
            for side in ("transmitters", "receivers"):
                for red in (True, False):
                    r = w.m(sc, f"accumulate_on_{side}_grid_over_paths", sym("X", 1, 1), sym("Y", 1, 1), rp, reduce_all=red, order=1, approx=True)
                    yield f"grid of {side} ({nm})", [r] if red else [w.list(x, 2)[1] for x in w.list(r)]

    sweep(c, cases())


@ob("C15", "optimised paths", "same dataflow analysis through the unrolled optimisation (objective and its gradient) of the Fermat and minimisation paths")
def _(c):
    w = c.world()
    Point, Wall, RIS, Vertex, Ray, Path = library(w)
    tx, rx = sym("tx", 2), sym("rx", 2)
    kw = {"optimizer": opaque_opt(), "steps": 1}

    def cases():
        for cn in ("FermatPath", "MinPath"):
            f = w.at(w.get("geometry", cn), "from_tx_objects_rx")
            for n in (1, 2):
                ws = [w.call(Wall, xys=sym(f"w{i}_", 2, 2)) for i in range(n)]
                for many in (1, 2):
                    p = w.call(f, tx, ws, rx, key=supplied(), many=many, **kw)
                    yield f"{cn} vertices, order {n}, {many} trials", [w.at(p, "xys")[1:-1]]
                    yield f"{cn} loss, order {n}, {many} trials", [w.at(p, "loss")]

    sweep(c, cases())


def descent():
    """A transparent optimiser: a fixed fraction of the gradient."""
    from ..libs import OptModel

    class Descent(OptModel):
        def init(self, x):
            return Arr((1,), [N.const(0)], "f")

        def update(self, grads, state, params=None):
            return J.tree_map(lambda a: asarray(a).cast("f") * Fraction(-1, 8), grads), state

    o = Descent(("descent", 0))
    o.settings = ("descent", {})
    return o


@ob("C15", "optimised paths, gradient descent", "the same with a transparent descent step: a derivative lost between the steps shows as a wrong slope")
def _(c):
    w = c.world()
    Point, Wall, RIS, Vertex, Ray, Path = library(w)
    tx, rx = sym("tx", 2), sym("rx", 2)

    def cases():
        mini = w.get("optimize", "minimize")
        for steps in (1, 2):
            for nm, f in (("a quadratic", lambda x, a: (x[0] - a) ** 2 + (x[1] - 2.0) ** 2 * (1.0 + a * a)),):
                x, l = w.list(w.call(mini, f, sym("x", 2), (sym("a"),), optimizer=descent(), steps=steps), 2)
                yield f"minimize ({nm}), {steps} steps, solution", [x]
                yield f"minimize ({nm}), {steps} steps, loss", [l]
        for cn in ("FermatPath", "MinPath"):
            f = w.at(w.get("geometry", cn), "from_tx_objects_rx")
            p = w.call(f, tx, [w.call(Wall, xys=sym("w0_", 2, 2))], rx, key=supplied(), optimizer=descent(), steps=1)
            yield f"{cn} vertices", [w.at(p, "xys")[1:-1]]
            yield f"{cn} loss", [w.at(p, "loss")]

    sweep(c, cases())


SQRT_FREE = ("sgd", "rmsprop", "adagrad", "noisy_sgd", "sign_sgd", "lion", "polyak_sgd")


@ob("C15", "default optimiser", "settings of the optimiser reaching the iteration: no square root of a possible zero second moment")
def _(c):
    w = c.world()
    o = default_opt(w)
    name, st = o.settings
    c.case()
    if name in SQRT_FREE:
        return
    if name in ("adam", "adamw", "nadam", "nadamw", "amsgrad", "adabelief", "radam", "yogi"):
        e = st.get("eps_root", None)
        v = None if e is None else N.cval(asarray(e).data[0])
        default = {"adabelief": Fraction(1, 10**16), "yogi": Fraction(1)}.get(name, Fraction(0))
        if e is None:
            v = default
        if v is None:
            raise Undecided("eps_root is not static")
        req(v > 0, f"minimize: the default optimiser ({name}) takes the square root of a second moment that is zero when the gradient vanishes (eps_root = {float(v):g}): differentiating the result gives NaN")
        return
    raise Undecided(f"default optimiser {name}")
