"""C01-C04: approximation mode and three-valued logic."""
from __future__ import annotations

import itertools
import math
import os
import random
from fractions import Fraction

from .. import nodes as N
from .. import spec as S
from ..arr import Arr, asarray
from ..canon import Canon, Elem, TooBig, _bounds, erat, leaves
from ..chk import AnchorMissing, Float, Mismatch, ProgError, Undecided, Unsupported, _Unreliable, eq, first_loc, jnp, keyof, ob, req, sym

MODES = [(a, g) for a in (None, True, False) for g in (True, False)]


def logic_of(approx, g, act=None, alpha=None):
    return S.Logic(g if approx is None else approx, act, alpha)


# ------------------------------------------------ table of logical operations
def cmp_ops():
    for nm in ("greater", "greater_equal", "less", "less_equal"):
        yield nm, (lambda w, nm, x, y, **k: w.call(w.get("logic", nm), x, y, **k)), nm


def truth_inputs(smooth, n=2, shape=()):
    if smooth:
        return [sym(f"t{i}_", *shape, lo=0, hi=1) for i in range(n)]
    k = 1
    for s in shape:
        k *= s
    return [Arr(shape, [N.var(f"b{i}_{j}", "b") for j in range(k)], "b") for i in range(n)]


@ob("C04", "comparisons", "each comparison is the activation of the correctly oriented difference / the exact comparison")
def _(c):
    shapes = [((), ()), ((2,), (2,)), ((2, 1), (3,)), ((), (2,))]
    for smooth in (True, False):
        for act, kw in ((None, {}), ("al", {}), ("op", {})):
            w = c.world()
            a = sym("alpha")
            o = S.opaque_act()
            kw = {} if act is None else {"alpha": a} if act == "al" else {"alpha": a, "function": o}
            L = S.Logic(smooth, o if act == "op" else None, None if act is None else a)
            for nm in ("greater", "greater_equal", "less", "less_equal"):
                f = w.get("logic", nm)
                for s1, s2 in shapes:
                    x, y = sym("x", *s1), sym("y", *s2)
                    eq(w.call(f, x, y, approx=smooth, **kw), getattr(L, nm)(x, y), f"logic.{nm}(approx={smooth})")
                    c.case()
                if not smooth and act is None:
                    nan = Arr((), [N.Node("nan")], "f")
                    for x, y in ((nan, sym("y")), (sym("x"), nan), (nan, nan)):
                        eq(w.call(f, x, y, approx=False), Arr((), [N.F], "b"), f"logic.{nm} with an undefined operand (approx=False)")
                        c.case()


@ob("C04", "connectives", "minimum/maximum/complement in smooth mode, Boolean operations in exact mode")
def _(c):
    w = c.world()
    for smooth in (True, False):
        L = S.Logic(smooth)
        for sh in ((), (3,)):
            x, y = truth_inputs(smooth, 2, sh)
            eq(w.call(w.get("logic", "logical_and"), x, y, approx=smooth), L.and_(x, y), "logical_and")
            eq(w.call(w.get("logic", "logical_or"), x, y, approx=smooth), L.or_(x, y), "logical_or")
            eq(w.call(w.get("logic", "logical_not"), x, approx=smooth), L.not_(x), "logical_not")
            c.case(3)
        eq(w.call(w.get("logic", "true_value"), approx=smooth), L.true(), "true_value")
        eq(w.call(w.get("logic", "false_value"), approx=smooth), L.false(), "false_value")
        c.case(2)


@ob("C04", "smooth connectives on 0/1", "smooth connectives restricted to 0 and 1 are the Boolean ones; idempotence; De Morgan")
def _(c):
    w = c.world()
    A, O, NOT = (w.get("logic", n) for n in ("logical_and", "logical_or", "logical_not"))
    for p, q in itertools.product((0.0, 1.0), repeat=2):
        x, y = jnp.array(p), jnp.array(q)
        eq(w.call(A, x, y, approx=True), asarray(float(bool(p) and bool(q))), f"logical_and({p},{q})")
        eq(w.call(O, x, y, approx=True), asarray(float(bool(p) or bool(q))), f"logical_or({p},{q})")
        eq(w.call(NOT, x, approx=True), asarray(1.0 - p), f"logical_not({p})")
        c.case(3)
    for smooth in (True, False):
        x, y = truth_inputs(smooth)
        n = lambda v: w.call(NOT, v, approx=smooth)
        eq(n(w.call(A, x, y, approx=smooth)), w.call(O, n(x), n(y), approx=smooth), "De Morgan (and)")
        eq(n(w.call(O, x, y, approx=smooth)), w.call(A, n(x), n(y), approx=smooth), "De Morgan (or)")
        eq(w.call(A, x, x, approx=smooth), x, "idempotence (and)")
        eq(w.call(O, x, x, approx=smooth), x, "idempotence (or)")
        eq(n(n(x)), x, "double negation")
        c.case(5)


@ob("C04", "n-ary connectives", "logical_all/logical_any reduce every operand along the requested axes")
def _(c):
    w = c.world()
    for smooth in (True, False):
        red = {"logical_all": (jnp.min, jnp.all), "logical_any": (jnp.max, jnp.any)}
        for nm, fs in red.items():
            f, r = w.get("logic", nm), fs[0 if smooth else 1]
            for n in c.sizes([1, 2, 3], 40):
                xs = truth_inputs(smooth, n)
                eq(w.call(f, *xs, approx=smooth), r(jnp.stack(xs)), f"{nm} of {n} scalars")
                c.case()
            for sh, n in (((2,), 2), ((2, 3), 2), ((3,), 1)):
                xs = truth_inputs(smooth, n, sh)
                st = jnp.stack(xs)
                axes = [None] + list(range(-st.ndim, st.ndim)) + [(0, 1)] + ([(0, 2), (1, 2), (0, 1, 2)] if st.ndim == 3 else [])
                for ax in axes:
                    eq(w.call(f, *xs, axis=ax, approx=smooth), r(st, axis=ax), f"{nm}(axis={ax}) of {n} arrays of shape {sh}")
                    c.case()


@ob("C04", "conversion to booleans", "is_true selects values > 1-tol, is_false values < tol; exact values are kept")
def _(c):
    w = c.world()
    tol = sym("tol", lo=0, hi=1)
    for sh in ((), (2,)):
        (x,) = truth_inputs(True, 1, sh)
        (b,) = truth_inputs(False, 1, sh)
        T, F = w.get("logic", "is_true"), w.get("logic", "is_false")
        eq(w.call(T, x, tol=tol, approx=True), x > 1.0 - tol, "is_true")
        eq(w.call(F, x, tol=tol, approx=True), x < tol, "is_false")
        eq(w.call(T, x, approx=True), x > S.N_(1, 2), "is_true, default tolerance")
        eq(w.call(F, x, approx=True), x < S.N_(1, 2), "is_false, default tolerance")
        nan = Arr((), [N.Node("nan")], "f")
        for f, nm in ((T, "is_true"), (F, "is_false")):
            eq(w.call(f, nan, approx=True), Arr((), [N.F], "b"), f"{nm} of an undefined value")
        eq(w.call(T, x, 0.25, True), x > 1.0 - S.N_(1, 4), "is_true (options by position)")
        eq(w.call(F, x, 0.25, True), x < S.N_(1, 4), "is_false (options by position)")
        eq(w.call(T, b, approx=False), b, "is_true (exact)")
        eq(w.call(F, b, approx=False), ~b, "is_false (exact)")
        eq(w.call(T, b, tol=tol, approx=False), b, "is_true (exact, tol)")
        eq(w.call(F, b, tol=tol, approx=False), ~b, "is_false (exact, tol)")
        c.case(8)


@ob("C04", "activation formulas", "sigmoid = 1/(1+exp(-ax)), hard_sigmoid = clip(ax/6+1/2, 0, 1), documented defaults")
def _(c):
    w = c.world()
    a = sym("alpha")
    for sh in ((), (2,)):
        x = sym("x", *sh)
        eq(w.call(w.get("logic", "sigmoid"), x, a), S.sigmoid(x, a), "sigmoid")
        eq(w.call(w.get("logic", "hard_sigmoid"), x, a), S.hard_sigmoid(x, a), "hard_sigmoid")
        act = w.get("logic", "activation")
        eq(w.call(act, x), S.hard_sigmoid(x, S.ALPHA), "activation (defaults)")
        eq(w.call(act, x, alpha=a), S.hard_sigmoid(x, a), "activation (alpha)")
        o = S.opaque_act()
        eq(w.call(act, x, alpha=a, function=o), o(x, a), "activation (function)")
        eq(w.call(act, x, 0.5, o), o(x, asarray(0.5)), "activation (options by position)")
        eq(w.call(act, x, function=w.get("logic", "sigmoid")), S.sigmoid(x, S.ALPHA), "activation (sigmoid, default alpha)")
        eq(w.call(w.get("logic", "sigmoid"), jnp.array(0.0), a), S.N_(1, 2), "sigmoid at equality")
        eq(w.call(w.get("logic", "hard_sigmoid"), jnp.array(0.0), a), S.N_(1, 2), "hard_sigmoid at equality")
        c.case(8)


# ---------------------------------------------------------------- C03
def outside(e, tries=240):
    """A point where the value leaves [0, 1] (or is not a number), or None."""
    rng, cn = random.Random(97 + int(os.environ.get("VERIF_SEED", "1"))), Canon()
    for i in range(tries):
        env = {"#rng": rng, "#grid": 0, "#pool": (), "#salt": i}
        if i % 3:
            env["#scale"] = Fraction(10) ** rng.choice((-3, -1, 1, 2, 3))
        try:
            v = float(Float(env, cn).ev(e))
        except (_Unreliable, OverflowError, ValueError, ZeroDivisionError):
            continue
        if not -1e-6 <= v <= 1 + 1e-6:
            return v, {k: float(x) for k, x in env.items() if not k.startswith("#")}
    return None


def tighten(e):
    """Interval of a value, using the canonical form of every sub-expression."""
    cn = Canon()
    for n in sorted(N.walk([e]), key=lambda z: z.uid):
        if n.sort != "r" or n.op in ("var", "app"):
            continue
        for x in n.args:
            if isinstance(x, N.Node):
                N.interval(x)
        lo, hi = N._iv1(n)
        if n.op in ("mul", "add", "inv", "exp", "sub"):
            try:
                ls = leaves(cn.r(n))
            except TooBig:
                ls = [None]
            iv = []
            for l in ls:
                q = erat(l) if isinstance(l, Elem) else None
                iv.append((q, q) if q is not None else _bounds.get(l.id) if isinstance(l, Elem) else None)
            if iv and all(iv):
                lo, hi = max(lo, min(x[0] for x in iv)), min(hi, max(x[1] for x in iv))
        n._iv = (lo, hi)
    return e._iv


def in01(v, what):
    v = asarray(v)
    req(v.kind != "b", f"{what}: boolean result with approximation on", first_loc(v.data[0]))
    for e in v.data:
        lo, hi = N.interval(e)
        if not (lo >= 0 and hi <= 1):
            lo, hi = tighten(e)
        if not (lo >= 0 and hi <= 1):
            p = outside(e)
            if p is None:
                raise Undecided(f"{what}: range [{lo}, {hi}] not shown to be within [0, 1] ({N.show(e, 3)})")
            w_ = ", ".join(f"{k}={x:.4g}" for k, x in sorted(p[1].items())[:12])
            raise Mismatch(f"{what}: range [{lo}, {hi}] is not within [0, 1] ({N.show(e, 3)}), {p[0]:.4g} e.g. for {w_}", first_loc(e))


def isbool(v, what):
    v = asarray(v)
    req(v.kind == "b", f"{what}: non-boolean result with approximation off", first_loc(v.data[0]))


def notnan(c, pos):
    """Uids of values that cannot be NaN when c is true (pos) or false."""
    if c.op == "not":
        return notnan(c.args[0], not pos)
    if c.op == ("and" if pos else "or"):
        return notnan(c.args[0], pos) | notnan(c.args[1], pos)
    if c.op == ("or" if pos else "and"):
        return notnan(c.args[0], pos) & notnan(c.args[1], pos)
    if c.op == "isnan":
        return set() if pos else {c.args[0].uid}
    if not pos:
        return set()
    if c.op in ("isfinite", "isinf"):
        return {c.args[0].uid}
    if c.op in ("lt", "le", "eq"):
        return {x.uid for x in c.args if x.sort != "b"}
    return set()


def maynan(n, memo):
    """May this value be NaN, when every free real may be NaN or infinite?"""
    order = []
    seen = set()
    st = [n]
    while st:
        t = st.pop()
        if t.uid in seen:
            continue
        seen.add(t.uid)
        order.append(t)
        st.extend(x for x in t.args if isinstance(x, N.Node))
    for t in reversed(sorted(order, key=lambda z: -z.uid)):
        if t.sort == "b" or t.op in ("const", "inf", "ninf", "nan2num"):
            memo[t.uid] = False
        elif t.op == "ite":
            memo[t.uid] = any(memo.get(x.uid, True) and x.uid not in notnan(t.args[0], pos) for x, pos in ((t.args[1], True), (t.args[2], False)))
        elif t.op in ("min", "max", "sg", "lowp", "abs"):
            memo[t.uid] = any(memo.get(x.uid, True) for x in t.args)
        else:
            memo[t.uid] = True
    return memo[n.uid]


def never_nan(v, what):
    for e in asarray(v).data:
        if not maynan(e, {}):
            continue
        rng, cn = random.Random(31 + int(os.environ.get("VERIF_SEED", "1"))), Canon()
        vs = sorted({m.attr for m in N.walk([e]) if m.op == "var" and m.sort == "r"})
        for i in range(200):
            bad = [x for x in vs if i == 0 or rng.random() < 0.3]
            env = {"#rng": rng, "#grid": i % 2, "#pool": (), "#salt": i}
            env.update((x, rng.choice((math.nan, math.nan, math.inf, -math.inf))) for x in bad)
            try:
                if math.isnan(float(Float(env, cn).ev(e))):
                    raise Mismatch(f"{what} may be NaN, e.g. when {bad[0] if bad else 'a value'} is {env[bad[0]] if bad else ''}", first_loc(e))
            except (_Unreliable, OverflowError, ValueError, ZeroDivisionError):
                continue
        raise Undecided(f"{what}: not shown never to be NaN")


def acts(w):
    a = sym("alpha")
    yield "default", {}
    yield "hard_sigmoid", {"alpha": a, "function": w.get("logic", "hard_sigmoid")}
    yield "sigmoid", {"alpha": a, "function": w.get("logic", "sigmoid")}


def geometry_truths(w, approx, kw):
    """(name, truth value) for every geometric predicate with client objects."""
    Wall, RIS, Vertex, Path = (w.get("geometry", n) for n in ("Wall", "RIS", "Vertex", "Path"))
    ray = sym("r", 2, 2)
    yield "segments_intersect", w.call(w.get("geometry", "segments_intersect"), *[sym(f"p{i}", 2) for i in range(4)], tol=sym("tol"), approx=approx, **kw)
    for nm, o in (("Wall", w.call(Wall, xys=sym("w", 2, 2))), ("RIS", w.call(RIS, xys=sym("w", 2, 2), phi=sym("phi")))):
        yield nm + ".contains_parametric", w.m(o, "contains_parametric", sym("s", 1), approx=approx, **kw)
        yield nm + ".intersects_cartesian", w.m(o, "intersects_cartesian", ray, patch=sym("patch"), approx=approx, **kw)
    v = w.call(Vertex, xy=sym("v", 2))
    yield "Vertex.contains_parametric", w.m(v, "contains_parametric", sym("z", 0), approx=approx, **kw)
    yield "Vertex.intersects_cartesian", w.m(v, "intersects_cartesian", ray, patch=sym("patch"), approx=approx, **kw)
    bl = [w.blob(n) for n in ("o0", "o1", "o2")]
    for cand in ((), (1,), (2, 0)):
        p = w.call(Path, xys=sym("q", len(cand) + 2, 2), loss=sym("loss"))
        inter = [bl[i] for i in cand]
        pc = jnp.array(list(cand), dtype=int)
        yield f"Path.on_objects order {len(cand)}", w.m(p, "on_objects", inter, approx=approx, **kw)
        yield f"Path.intersects_with_objects order {len(cand)}", w.m(p, "intersects_with_objects", bl, pc, patch=sym("patch"), approx=approx, **kw)
        yield f"Path.is_valid order {len(cand)}", w.m(p, "is_valid", bl, pc, inter, tol=sym("tol"), patch=sym("patch"), approx=approx, **kw)


@ob("C03", "activations", "interval analysis: activation functions supplied by the library stay within [0, 1]")
def _(c):
    w = c.world()
    for f in ("sigmoid", "hard_sigmoid"):
        for sh in ((), (2,)):
            in01(w.call(w.get("logic", f), sym("x", *sh), sym("alpha")), f)
            c.case()
    in01(w.call(w.get("logic", "activation"), sym("x")), "activation")
    c.case()


@ob("C03", "comparisons and connectives", "interval analysis: smooth results lie in [0, 1]; typing: exact results are boolean")
def _(c):
    w = c.world()
    for nm in ("greater", "greater_equal", "less", "less_equal"):
        f = w.get("logic", nm)
        for an, kw in acts(w):
            in01(w.call(f, sym("x"), sym("y"), approx=True, **kw), f"{nm} ({an})")
            isbool(w.call(f, sym("x"), sym("y"), approx=False, **kw), f"{nm} ({an})")
            c.case(2)
    for smooth in (True, False):
        x, y = truth_inputs(smooth)
        ck = in01 if smooth else isbool
        for nm, args in (("logical_and", (x, y)), ("logical_or", (x, y)), ("logical_not", (x,)), ("logical_all", (x, y)), ("logical_any", (x, y)), ("true_value", ()), ("false_value", ())):
            ck(w.call(w.get("logic", nm), *args, approx=smooth), nm)
            c.case()
        for nm in ("is_true", "is_false"):
            isbool(w.call(w.get("logic", nm), x, approx=smooth), nm)
            isbool(w.call(w.get("logic", nm), x, tol=sym("tol"), approx=smooth), nm)
            c.case(2)


@ob("C03", "geometric predicates", "interval analysis over every geometric predicate, for both activations")
def _(c):
    w = c.world()
    for an, kw in acts(w):
        for nm, v in geometry_truths(w, True, kw):
            in01(v, f"{nm} ({an})")
            c.case()
        for nm, v in geometry_truths(w, False, kw):
            isbool(v, f"{nm} ({an})")
            c.case()


@ob("C03", "validity is never NaN", "NaN-taint analysis: no NaN source reaches the result of is_valid")
def _(c):
    w = c.world()
    for an, kw in acts(w):
        for nm, v in geometry_truths(w, True, kw):
            if "is_valid" in nm:
                never_nan(v, nm)
                c.case()


@ob("C03", "scene-level validity", "paths of a scene carry a boolean (exact) or [0, 1] (smooth) validity, for mixed real objects")
def _(c):
    w = c.world()
    Scene, Point, Wall, RIS, Vertex = w.get("scene", "Scene"), *(w.get("geometry", n) for n in ("Point", "Wall", "RIS", "Vertex"))
    objs = [w.call(Wall, xys=sym("w", 2, 2)), w.call(RIS, xys=sym("ris", 2, 2), phi=sym("phi"))]
    sc = w.call(Scene, transmitters={"a": w.call(Point, xy=sym("tx", 2))}, receivers={"b": w.call(Point, xy=sym("rx", 2))}, objects=objs)
    for ap in (True, False):
        for r in w.list(w.m(sc, "all_paths", max_order=1, approx=ap)):
            v = w.list(r, 5)[2]
            if ap:
                in01(v, "all_paths validity")
                never_nan(v, "all_paths validity")
            else:
                isbool(v, "all_paths validity")
            c.case()


# ---------------------------------------------------------------- C01
def logical_results(w, approx, kw):
    for nm in ("greater", "greater_equal", "less", "less_equal"):
        yield nm, w.call(w.get("logic", nm), sym("x"), sym("y"), approx=approx, **kw), (lambda L, nm=nm: getattr(L, nm)(sym("x"), sym("y")))


def geo_spec(w, L):
    """Specification counterpart of geometry_truths."""
    P = [sym(f"p{i}", 2) for i in range(4)]
    ray, W_ = sym("r", 2, 2), sym("w", 2, 2)
    out = [("segments_intersect", S.segments_intersect(L, *P, tol=sym("tol")))]
    for nm in ("Wall", "RIS"):
        out.append((nm + ".contains_parametric", S.contains(L, sym("s", 1)[0])))
        out.append((nm + ".intersects_cartesian", S.wall_obstructs(L, W_, ray, sym("patch"))))
    out += [("Vertex.contains_parametric", L.true()), ("Vertex.intersects_cartesian", L.false())]
    return out


def with_default_kwargs(approx):
    return {} if approx is None else {"approx": approx}


def path_truth_spec(w, L, p, bl, cand, kw, patch, tol, approx):
    """on_objects, obstruction and validity of a path over client objects."""
    xys, loss = w.at(p, "xys"), w.at(p, "loss")
    inter = [bl[i] for i in cand]
    kwk = dict(kw)
    on = L.true()
    real = {"approx": approx, **kwk} if approx is not None else kwk
    for k, o in enumerate(inter):
        if "tag" in o.fields:
            here = w.probe_truth("contains", o, (w.probe_c2p(o, xys[k + 1]),), approx, kwk)
        else:
            here = w.m(o, "contains_parametric", w.m(o, "cartesian_to_parametric", xys[k + 1]), **real)
        on = L.and_(on, here)
    ix = [-1, *cand, -1]
    hit = L.false()
    for s in range(len(cand) + 1):
        for j, o in enumerate(bl):
            if j not in (ix[s], ix[s + 1]):
                if "tag" in o.fields:
                    here = w.probe_truth("intersects", o, (xys[s:s + 2, :], patch), approx, kwk)
                else:
                    here = w.m(o, "intersects_cartesian", xys[s:s + 2, :], patch=patch, **real)
                hit = L.or_(hit, here)
    ok = L.all(on, L.not_(hit), L.less(loss, tol))
    if L.smooth:
        ok = jnp.nan_to_num(ok)
    return on, hit, ok


@ob("C01", "logic, all modes", "mode partition: result with (choice, default) is the exact/smooth semantics selected by the choice")
def _(c):
    a, act = sym("alpha"), S.opaque_act()
    kw = {"alpha": a, "function": act}
    for ap, g in MODES:
        w = c.world(glob=g)
        L = logic_of(ap, g, act, a)
        opt = [with_default_kwargs(ap)] + ([{"approx": None}] if ap is None else [])
        for o in opt:
            for nm in ("greater", "greater_equal", "less", "less_equal"):
                eq(w.call(w.get("logic", nm), sym("x"), sym("y"), **o, **kw), getattr(L, nm)(sym("x"), sym("y")), f"{nm} with approx={ap}, default {g}")
            x, y = truth_inputs(L.smooth)
            for nm, args, sp in (("logical_and", (x, y), L.and_(x, y)), ("logical_or", (x, y), L.or_(x, y)), ("logical_not", (x,), L.not_(x)), ("logical_all", (x, y), L.and_(x, y)), ("logical_any", (x, y), L.or_(x, y)), ("true_value", (), L.true()), ("false_value", (), L.false())):
                eq(w.call(w.get("logic", nm), *args, **o), sp, f"{nm} with approx={ap}, default {g}")
            eq(w.call(w.get("logic", "is_true"), x, **o), (x > S.N_(1, 2)) if L.smooth else x, f"is_true with approx={ap}, default {g}")
            eq(w.call(w.get("logic", "is_false"), x, **o), (x < S.N_(1, 2)) if L.smooth else ~x, f"is_false with approx={ap}, default {g}")
            c.case(13)


@ob("C01", "an explicit choice ignores the default", "equal value numbers under both defaults, for truth values of either kind")
def _(c):
    for ap in (True, False):
        for smooth in (True, False):
            x, y = truth_inputs(smooth)
            for nm, args in (("logical_and", (x, y)), ("logical_or", (x, y)), ("logical_not", (x,)), ("logical_all", (x, y)), ("logical_any", (x, y)), ("is_true", (x,)), ("is_false", (x,)), ("true_value", ()), ("false_value", ())):
                got = []
                for g in (True, False):
                    w = c.world(glob=g)
                    try:
                        got.append(w.call(w.get("logic", nm), *args, approx=ap))
                    except ProgError:
                        pass
                req(len(got) != 1, f"{nm} with approx={ap} of {'smooth' if smooth else 'exact'} truth values fails under one default only")
                if got:
                    eq(got[0], got[1], f"{nm} with approx={ap} of {'smooth' if smooth else 'exact'} truth values, default True against default False")
                c.case()


@ob("C01", "geometry, all modes", "mode partition: every comparison under a geometric predicate uses the choice, slope and activation given")
def _(c):
    a, act = sym("alpha"), S.opaque_act()
    for kw in ({"alpha": a, "function": act}, {"alpha": a}):
        for ap, g in MODES:
            w = c.world(glob=g)
            L = logic_of(ap, g, kw.get("function"), a)
            want = dict(geo_spec(w, L))
            for nm, v in geometry_truths(w, ap, kw):
                if nm in want:
                    eq(v, want[nm], f"{nm} with approx={ap}, default {g}")
                    c.case()


def library_object(w, kind, i):
    """An object of the library with coordinates of its own, or a client's."""
    if kind.startswith("Blob"):
        return w.blob(f"o{i}", kind)
    K = w.get("geometry", kind)
    kw = {"xy": sym(f"o{i}_", 2)} if kind == "Vertex" else {"xys": sym(f"o{i}_", 2, 2)}
    return w.call(K, **kw, **({"phi": sym(f"phi{i}")} if kind == "RIS" else {}))


def _path_case(c, w, L, cand, nobj, ap, kw, label, defaults=False, kinds=None, seq=list, positional=False):
    Path = w.get("geometry", "Path")
    bl = [library_object(w, (kinds or ["Blob", "BlobZ", "Blob2"])[i % len(kinds or "123")], i) for i in range(nobj)]
    p = w.call(Path, xys=sym("q", len(cand) + 2, 2), loss=sym("loss"))
    inter = [bl[i] for i in cand]
    pc = jnp.array(list(cand), dtype=int)
    patch, tol = (asarray(0.0), S.N_(1, 100)) if defaults else (0.0625, 0.03125) if positional else (sym("patch"), sym("tol"))
    o = {} if ap is None else {"approx": ap}
    pk = {} if defaults else {"patch": patch}
    tk = {} if defaults else {"tol": tol}
    on, hit, ok = path_truth_spec(w, L, p, bl, cand, kw, asarray(patch), asarray(tol), ap)
    inter, bl = seq(inter), seq(bl)
    if positional:
        return [
            ("on_objects", lambda: w.m(p, "on_objects", inter, ap, **kw), on),
            ("intersects_with_objects", lambda: w.m(p, "intersects_with_objects", bl, pc, patch, ap, **kw), hit),
            ("is_valid", lambda: w.m(p, "is_valid", bl, pc, inter, tol, patch, ap, **kw), ok),
        ]
    return [
        ("on_objects", lambda: w.m(p, "on_objects", inter, **o, **kw), on),
        ("intersects_with_objects", lambda: w.m(p, "intersects_with_objects", bl, pc, **pk, **o, **kw), hit),
        ("is_valid", lambda: w.m(p, "is_valid", bl, pc, inter, **tk, **pk, **o, **kw), ok),
    ]


@ob("C01", "path predicates, all modes", "mode partition over on_objects / obstruction / validity with uninterpreted objects")
def _(c):
    a, act = sym("alpha"), S.opaque_act()
    kw = {"alpha": a, "function": act}
    for ap, g in MODES:
        w = c.world(glob=g)
        L = logic_of(ap, g, act, a)
        for cand in ((), (1,), (0, 2)):
            for nm, f, want in _path_case(c, w, L, cand, 3, ap, kw, ""):
                eq(f(), want, f"Path.{nm} (order {len(cand)}) with approx={ap}, default {g}")
                c.case()


def probe_scene(w, ntx=2, nrx=2, kinds=("Blob", "Blob", "Blob"), names=None):
    Scene, Point = w.get("scene", "Scene"), w.get("geometry", "Point")
    # receivers share names with transmitters, in another order
    tn, rn = names or ([f"m{i ^ 1}" for i in range(ntx)], [f"m{i}" for i in range(nrx)])
    txs = {k: w.call(Point, xy=sym(f"tx{i}_", 2)) for i, k in enumerate(tn)}
    rxs = {k: w.call(Point, xy=sym(f"rx{i}_", 2)) for i, k in enumerate(rn)}
    objs = [w.blob(f"o{i}", k) for i, k in enumerate(kinds)]
    return w.call(Scene, transmitters=txs, receivers=rxs, objects=objs), txs, rxs, objs


@ob("C01", "scene operations, all modes", "mode partition: all_paths, accumulation and grids hand the choice and options to every validity test")
def _(c):
    a, act = sym("alpha"), S.opaque_act()
    kw = {"alpha": a, "function": act, "tol": sym("tol"), "patch": sym("patch")}
    for ap, g in MODES:
        w = c.world(glob=g)
        L = logic_of(ap, g, act, a)
        sc, txs, rxs, objs = probe_scene(w, 1, 2)
        PP = w.client.vars["ProbePath"]
        o = {} if ap is None else {"approx": ap}
        fun = w.probe_fun()

        def valid(t, r, cand):
            pth = w.call(w.at(PP, "from_tx_objects_rx"), t, [objs[i] for i in cand], r)
            return pth, w.probe_valid(pth, objs, cand, [objs[i] for i in cand], (), {"approx": ap, **kw})

        cands = [(), (0,), (1,), (2,)]
        got = w.list(w.m(sc, "all_paths", path_cls=PP, **o, **kw))
        req(len(got) == 2 * len(cands), f"all_paths yields {len(got)} paths instead of {2 * len(cands)}")
        for r in got:
            t, rr, v, p, cand = list(r)
            ci = tuple(int(x.attr) for x in asarray(cand).data)
            eq(v, valid(txs[t], rxs[rr], ci)[1], f"all_paths validity with approx={ap}, default {g}")
            c.case()
        parts = w.partition(lambda: [list(r)[:2] + [tuple(int(x.attr) for x in asarray(list(r)[3]).data)] for r in w.list(w.m(sc, "all_valid_paths", path_cls=PP, order=0, **o, **kw))])
        for asg, rs in parts:
            for (n, val), rr in zip(asg, sorted(rxs)):
                v = valid(txs["m1"], rxs[rr], ())[1]
                eq(Arr((), [n], "b"), (v > S.N_(1, 2)) if L.smooth else v, f"all_valid_paths test with approx={ap}, default {g}")
                req((["m1", rr, ()] in rs) == val, f"all_valid_paths selection with approx={ap}, default {g}")
                c.case()
        acc = w.list(w.m(sc, "accumulate_over_paths", fun, path_cls=PP, **o, **kw))
        for r in acc:
            t, rr, z = list(r)
            want = asarray(0.0)
            for cand in cands:
                p, v = valid(txs[t], rxs[rr], cand)
                want = want + v * fun(txs[t], rxs[rr], p, [objs[i] for i in cand])
            eq(z, want, f"accumulate_over_paths with approx={ap}, default {g}")
            c.case()
        for side in ("transmitters", "receivers"):
            X, Y = sym("X", 1, 1), sym("Y", 1, 1)
            Point = w.get("geometry", "Point")
            moved = w.call(Point, xy=jnp.stack([X[0, 0], Y[0, 0]]))
            for r in w.list(w.m(sc, f"accumulate_on_{side}_grid_over_paths", X, Y, fun, path_cls=PP, **o, **kw)):
                name, z = w.list(r, 2)
                t, rr = (moved, rxs[name]) if side == "transmitters" else (txs[name], moved)
                want = asarray(0.0)
                for cand in cands:
                    p, v = valid(t, rr, cand)
                    want = want + v * fun(t, rr, p, [objs[i] for i in cand])
                eq(z[0, 0], want, f"accumulate_on_{side}_grid_over_paths with approx={ap}, default {g}")
                c.case()


# ---------------------------------------------------------------- C02
SCOPES = '''
def normal(cm, body):
    with cm:
        body()
    return "done"

def returns(cm, body):
    with cm:
        body()
        return "returned"

def breaks(cm, body):
    for i in range(3):
        with cm:
            body()
            break
    return "broke"

def continues(cm, body):
    for i in range(1):
        with cm:
            body()
            continue
    return "continued"

def raises(cm, body, exc):
    with cm:
        body()
        raise exc

def gen(cm, body):
    with cm:
        body()
        yield 1

def abandon(cm, body):
    g = gen(cm, body)
    next(g)
    g.close()
    return "closed"
'''


class Modes:
    """A world with the mode variable and every lock under observation."""

    def __init__(self, c, start):
        self.w = w = c.world(client=False)
        self.src = w.source(SCOPES)
        if "ENABLE_APPROX" not in w.logic.vars:
            raise AnchorMissing("logic.ENABLE_APPROX")
        self.log = w.I.lock_log
        w.set_global(start)
        self.log.clear()
        w.I.on_global = self.on

    def on(self, kind, m, name, v):
        if name == "ENABLE_APPROX" and getattr(m, "name", "").endswith("differt2d.logic"):
            self.log.append((kind, frozenset(id(l) for l in self.w.I.locks if l.count > 0), N.Loc.cur(), v))

    @property
    def mode(self):
        return self.w.logic.vars["ENABLE_APPROX"]

    def held(self):
        return {id(l): l.count for l in self.w.I.locks if l.count}

    def cm(self, kind, arg):
        f = self.w.get("logic", kind)
        return self.w.call(f) if arg is None else self.w.call(f, arg)


def want_mode(kind, arg):
    if kind == "enable_approx":
        return True if arg is None else arg
    return False if arg is None else not arg


EXITS = ["normal", "returns", "breaks", "continues", "abandon", "ValueError", "KeyboardInterrupt", "StopIteration", "RuntimeError", "GeneratorExit"]


@ob("C02", "every exit restores the mode", "typestate over all exits of a scope x requested mode x mode at entry")
def _(c):
    import builtins

    for start in (True, False):
        for kind, arg in itertools.product(("enable_approx", "disable_approx"), (None, True, False)):
            for ex in EXITS:
                M = Modes(c, start)
                seen = []
                body = (lambda: seen.append((M.mode, M.held())))
                f = M.src.vars.get(ex, M.src.vars["raises"])
                label = f"{kind}({'' if arg is None else arg}) entered with mode {start}, left by {ex}"
                exc = None
                if f is M.src.vars["raises"]:
                    exc = getattr(builtins, ex)("x")
                    try:
                        M.w.call(f, M.cm(kind, arg), body, exc)
                        raise Mismatch(f"{label}: the exception is swallowed")
                    except ProgError as e:
                        req(e.exc is exc, f"{label}: raises {e.exc!r} instead of the exception of the body", e.loc)
                else:
                    try:
                        M.w.call(f, M.cm(kind, arg), body)
                    except ProgError as e:
                        raise Mismatch(f"{label}: raises {e.exc!r}", e.loc)
                loc = next((e[2] for e in reversed(M.log) if e[0] == "write"), None)
                req(bool(seen) and all(s[0] == want_mode(kind, arg) for s in seen), f"{label}: mode inside the scope is {[s[0] for s in seen]}", loc)
                req(M.mode is start or M.mode == start, f"{label}: mode after the scope is {M.mode}", loc)
                req(not M.held(), f"{label}: lock still held after the scope", loc)
                c.case()


@ob("C02", "the mode restored is the one at entry", "typestate: set or re-scoped modes inside the body do not change what is restored; any value")
def _(c):
    acts_ = [("set", True), ("set", False)] + [(k, a) for k in ("enable_approx", "disable_approx") for a in (True, False)]

    def run(M, prog):
        for op, v, sub in prog:
            before, held = M.mode, M.held()
            if op == "set":
                M.w.call(M.w.get("logic", "set_approx"), v)
                req(M.mode == v, f"set_approx({v}) leaves mode {M.mode}")
                req(M.held() == held, "set_approx leaks the lock")
            elif op == "raise":
                raise ProgError(ValueError("body"))
            else:
                cm = M.cm(op, v)

                def body():
                    req(M.mode == want_mode(op, v), f"{op}({v}): mode inside is {M.mode}")
                    run(M, sub)

                try:
                    M.w.call(M.src.vars["normal"], cm, (body))
                except ProgError as e:
                    if not (isinstance(e.exc, ValueError) and e.exc.args == ("body",)):
                        raise Mismatch(f"nested scopes {prog}: raises {e.exc!r}", e.loc)
                loc = next((e[2] for e in reversed(M.log) if e[0] == "write"), None)
                req(M.mode == before, f"{op}({v}) entered with mode {before} and body {sub}: restores {M.mode}", loc)
                req(M.held() == held, f"{op}({v}): lock depth not restored", loc)

    leafs = [()] + [((o, v, ()),) for o, v in acts_] + [(("raise", 0, ()),)]
    mid = [((o, v, s),) for o, v in acts_ if o != "set" for s in leafs] + [((o, v, ()), ("raise", 0, ())) for o, v in acts_] + [((o, v, ()), (o2, v2, ())) for o, v in acts_ for o2, v2 in acts_]
    for start in (True, False):
        M = Modes(c, start)
        for o, v in acts_:
            if o == "set":
                continue
            for s in leafs + mid:
                M.w.set_global(start)
                run(M, ((o, v, s),))
                c.case()


DECORATED = '''
def build(cm, see):
    @cm
    def f(n):
        see(("in", n))
        if n > 0:
            f(n - 1)
        see(("out", n))
        return n
    return f
'''


@ob("C02", "scopes used as decorators", "typestate: every call of a decorated function, also a repeated or a recursive one, runs in the mode asked for and restores the mode at that call")
def _(c):
    for start in (True, False):
        for kind, arg in itertools.product(("enable_approx", "disable_approx"), (None, True, False)):
            M = Modes(c, start)
            src = M.w.source(DECORATED)
            seen = []
            try:
                f = M.w.call(src.vars["build"], M.cm(kind, arg), lambda t: seen.append((t, M.mode)))
            except ProgError:
                continue  # not offered as a decorator
            label = f"a function decorated with {kind}({'' if arg is None else arg})"
            for depth, before in ((0, start), (0, not start), (1, start), (2, not start), (2, start)):
                M.w.set_global(before)
                seen.clear()
                try:
                    r = M.w.call(f, depth)
                except ProgError as e:
                    raise Mismatch(f"{label}, calling itself {depth} times: raises {e.exc!r}", e.loc)
                loc = next((e[2] for e in reversed(M.log) if e[0] == "write"), None)
                req(r == depth, f"{label} returns {r!r} instead of {depth}", loc)
                req(all(m == want_mode(kind, arg) for _, m in seen) and len(seen) == 2 * depth + 2, f"{label}, calling itself {depth} times: modes seen {seen}", loc)
                req(M.mode == before, f"{label} called in mode {before} and calling itself {depth} times: mode {M.mode} afterwards", loc)
                req(not M.held(), f"{label}: lock still held afterwards", loc)
                c.case()


@ob("C02", "lock discipline", "lockset + typestate: one lock held from before the mode is read until after it is restored, at every write")
def _(c):
    for start in (True, False):
        for ex in ("normal", "returns", "abandon", "ValueError"):
            for kind, arg in (("enable_approx", True), ("disable_approx", True), ("enable_approx", False)):
                M = Modes(c, start)
                f = M.src.vars.get(ex, M.src.vars["raises"])
                mark = []

                def body():
                    mark.append(len(M.log))
                    M.log.append(("body", frozenset(M.held()), None, None))

                try:
                    M.w.call(f, M.cm(kind, arg), (body), *([ValueError("x")] if f is M.src.vars["raises"] else []))
                except ProgError:
                    pass
                label = f"{kind}({arg}) left by {ex}"
                ev = M.log
                acc = [e for e in ev if e[0] in ("read", "write", "body")]
                writes = [e for e in acc if e[0] == "write"]
                req(len(writes) >= 1, f"{label}: the mode is never written")
                common = None
                for e in acc:
                    if e[0] == "read" and not _near_write(acc, e):
                        continue
                    common = e[1] if common is None else (common & e[1])
                    req(common, f"{label}: mode {e[0]} without the lock that guards the scope", e[2])
                lk = next(iter(common))
                lo = min(i for i, e in enumerate(ev) if e[0] in ("read", "write"))
                hi = max(i for i, e in enumerate(ev) if e[0] == "write")
                n = 0
                for i, e in enumerate(ev[: hi + 1]):
                    if e[0] == "acquire" and id(e[1]) == lk:
                        n += 1
                    elif e[0] == "release" and id(e[1]) == lk:
                        n -= 1
                        req(not (lo <= i and n == 0), f"{label}: lock released before the mode is restored", e[2])
                c.case()
    # direct sets, also to the mode already set: another thread's scope may be about to restore a different one
    for start, v in itertools.product((True, False), repeat=2):
        M = Modes(c, start)
        M.w.call(M.w.get("logic", "set_approx"), v)
        acc = [e for e in M.log if e[0] in ("read", "write")]
        req(any(e[0] == "write" for e in acc) or v == start, "set_approx does not write the mode")
        for e in acc:
            req(e[1] or e[0] == "read", f"set_approx({v}) in mode {start}: mode {e[0]} without a lock", e[2])
        req(any(e[1] for e in acc), f"set_approx({v}) in mode {start} does not wait for the scopes of other threads, which may restore another mode", acc[-1][2] if acc else None)
        req(M.mode == v, f"set_approx({v}) leaves {M.mode}")
        req(not M.held(), "set_approx keeps the lock")
        c.case()


def _near_write(acc, e):
    return True


@ob("C02", "one re-entrant lock guards scopes and sets", "lockset: the locks held at writes by scopes and by direct sets intersect; the owner may nest")
def _(c):
    M = Modes(c, False)
    inner = []

    def body():
        M.w.call(M.w.get("logic", "set_approx"), True)
        M.w.call(M.src.vars["normal"], M.cm("disable_approx", None), (lambda: inner.append(M.mode)))

    try:
        M.w.call(M.src.vars["normal"], M.cm("enable_approx", None), (body))
    except ProgError as e:
        raise Mismatch(f"nesting inside a scope on the owning thread: {e.exc!r}", e.loc)
    req(inner == [False], f"nested scope sees mode {inner}")
    sets = [e for e in M.log if e[0] == "write"]
    common = None
    for e in sets:
        common = e[1] if common is None else common & e[1]
    req(common, "no single lock guards every write of the mode", sets[-1][2] if sets else None)
    c.case()
    # a bounded acquisition that fails must not let the write happen
    M = Modes(c, False)
    for l in M.w.I.locks:
        l.try_ok = False
    for k in ("enable_approx", "disable_approx"):
        M.log.clear()
        try:
            M.w.call(M.src.vars["normal"], M.cm(k, None), (lambda: None))
        except ProgError:
            pass
        for e in M.log:
            if e[0] == "write":
                req(e[1], f"{k}: writes the mode although the lock was not obtained", e[2])
        c.case()
    M.log.clear()
    try:
        M.w.call(M.w.get("logic", "set_approx"), True)
    except ProgError:
        pass
    for e in M.log:
        if e[0] == "write":
            req(e[1], "set_approx: writes the mode although the lock was not obtained", e[2])
    c.case()


@ob("C02", "no other writer", "who-may-write query over the syntax trees of the package: the mode is assigned only by guarded functions")
def _(c):
    import ast
    import os

    from ..chk import PKG, REPO

    M = Modes(c, False)
    root = os.path.join(M.w.I.repo, PKG)
    n = 0
    for fn in sorted(os.listdir(root)):
        if not fn.endswith(".py"):
            continue
        with open(os.path.join(root, fn)) as f:
            t = ast.parse(f.read())
        stack = [(t, None)]
        while stack:
            node, fun = stack.pop()
            for ch in ast.iter_child_nodes(node):
                stack.append((ch, ch if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)) else fun))
            tg = []
            if isinstance(node, ast.Assign):
                tg = node.targets
            elif isinstance(node, (ast.AugAssign, ast.AnnAssign)):
                tg = [node.target]
            for x in tg:
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and y.attr == "ENABLE_APPROX":
                        raise Mismatch(f"{fn}:{node.lineno}: the mode is assigned from outside logic.py", f"differt2d/{fn}:{node.lineno}")
                    if isinstance(y, ast.Name) and y.id == "ENABLE_APPROX" and fun is not None and fn == "logic.py":
                        n += 1
                        if not _guarded(t, fun, node, M):
                            raise Mismatch(f"{fn}:{node.lineno}: assignment of the mode outside any lock region", f"differt2d/{fn}:{node.lineno} in {fun.name}")
    c.case(n)


def _guarded(tree, fun, node, M):
    """The assignment is inside a with-statement, or follows an acquire() call in its function."""
    import ast

    def inside(n):
        if n is node:
            return True
        return any(inside(ch) for ch in ast.iter_child_nodes(n))

    glob = any(isinstance(x, ast.Global) and "ENABLE_APPROX" in x.names for x in ast.walk(fun))
    if not glob:
        return True  # a local variable
    for x in ast.walk(fun):
        if isinstance(x, ast.With) and inside(x):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("acquire", "enter_context"):
            return True
    # helper called with the lock held by its callers: decided by the lockset obligation
    for cl in ast.walk(tree):
        if isinstance(cl, ast.ClassDef) and fun in cl.body:
            # a scope object: one of its methods takes the lock, another one releases it
            names = {x.func.attr for x in ast.walk(cl) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
            if names & {"acquire", "__enter__", "enter_context"} and names & {"release", "__exit__", "close", "pop_all"}:
                return True
            fun_names = {cl.name}
            break
    else:
        fun_names = set()
    called = [f for f in ast.walk(tree) if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == fun.name]
    called += [f for f in ast.walk(tree) if isinstance(f, ast.Call) and isinstance(f.func, ast.Attribute) and f.func.attr == fun.name and not fun_names]
    return bool(called)
