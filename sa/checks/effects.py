"""C26, C28: effects on arguments and shared state; plots."""
from __future__ import annotations

import itertools
import types
from fractions import Fraction

from .. import jaxmodel as J
from .. import nodes as N
from ..arr import Tracing, Arr, asarray
from ..canon import Canon
from ..chk import Mismatch, ProgError, Undecided, Unsupported, World, eq, jnp, keyof, ob, req, shallow, strict, sym
from ..errors import AnchorMissing
from ..interp import IClass, IFunc, IModule, Inst, JsonByteArray, JsonDoc, Opaque, Scope
from .logic import probe_scene
from .scene import READER, KeyLog, opaque_opt, probe_obj, supplied


# ---------------------------------------------------------------- C28
class Artist(Opaque):
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<artist {self.what}>"


class Axes(Opaque):
    """Records what is drawn on it."""

    def __init__(self):
        self.log = []

    def _new(self, kind, args, kw):
        a = Artist(f"{kind} #{len(self.log)}")
        self.log.append((kind, tuple(args), dict(kw), a, N.Loc.cur()))
        return a

    def plot(self, *a, **k):
        return [self._new("plot", a, k)]

    def scatter(self, *a, **k):
        return self._new("scatter", a, k)

    def annotate(self, *a, **k):
        return self._new("annotate", a, k)

    def draw(self, *a, **k):
        """Drawing of client objects: two artists."""
        return [self._new("draw", a, k), self._new("draw2", a[:1], {})]


def flat(a):
    """Coordinates of one recorded coordinate sequence."""
    if isinstance(a, (list, tuple)):
        return jnp.stack([asarray(x).reshape(()) for x in a]) if a else jnp.zeros((0,))
    return asarray(a).reshape((-1,))


def norm(rec):
    """(kind, coordinates, extra positional, options) of a recorded call."""
    kind, a, k, _, loc = rec
    k = dict(k)
    a = list(a)
    if kind in ("plot", "scatter"):
        for nm in ("x", "y"):
            if nm in k and kind == "scatter":
                a.append(k.pop(nm))
        req(len(a) >= 2, f"{kind} is called with {len(a)} coordinates")
        return kind, jnp.stack([flat(a[0]), flat(a[1])], axis=1), tuple(a[2:]), k, loc
    if kind == "annotate":
        names = ["text", "xy", "xytext"]
        for nm, v in zip(names, a):
            k[nm] = v
        rest = tuple(a[3:])
        t, xy = k.pop("text"), flat(k.pop("xy"))
        at = k.pop("xytext", None)
        return kind, jnp.stack([xy, xy if at is None else flat(at)]), (t, *rest), k, loc
    return kind, None, tuple(a), k, loc


def vkey(*vs):
    c = Canon()
    return [c.ckey(keyof(v)) for v in vs]


def same_opts(got, want):
    if set(got) != set(want):
        return False
    ks = sorted(want)
    return vkey(*[got[k] for k in ks]) == vkey(*[want[k] for k in ks])


def draws(ax, lab, want):
    """The calls recorded on ax are exactly those wanted, in any order.

    want: [(kind, coords, extra, options, options that must be there)]"""
    got = [norm(r) for r in ax.log if r[0] != "draw2"]
    kinds = lambda l: sorted(x[0] for x in l)
    req(kinds(got) == kinds(want), f"{lab}: draws {', '.join(kinds(got)) or 'nothing'} instead of {', '.join(kinds(want)) or 'nothing'}")
    left = list(got)
    for wnt in want:
        best = None
        for g in left:
            try:
                with strict():
                    match(g, wnt, lab)
                best = g
                break
            except (Mismatch, Undecided) as e:
                err = e
        if best is None:
            # report against the closest record of the kind, in order
            for g in left:
                if g[0] == wnt[0]:
                    match(g, wnt, lab)
            raise err
        left = [g for g in left if g is not best]


def match(g, wnt, lab):
    kind, co, ex, op = wnt
    req(g[0] == kind, f"{lab}: {g[0]} instead of {kind}", g[4])
    if co is not None:
        eq(g[1], co, f"{lab}: coordinates of {kind}", kinds=False)
    if kind == "draw":
        req(len(g[2]) >= 1 and g[2][0] is ex[0], f"{lab}: another object is drawn", g[4])
        gx, wx = g[2][1:], ex[1:]
    else:
        gx, wx = g[2], ex
    req(vkey(*gx) == vkey(*wx), f"{lab}: {kind} gets {gx!r} instead of {wx!r}", g[4])
    req(same_opts(g[3], op), f"{lab}: {kind} gets the options {pretty(g[3])} instead of {pretty(op)}", g[4])


def pretty(d):
    return "{" + ", ".join(f"{k}: {v!r:.40}" for k, v in sorted(d.items())) + "}"


def returned(w, ax, r, lab):
    got = w.list(r)
    made = [x[3] for x in ax.log]
    req(all(isinstance(x, Artist) for x in got), f"{lab}: returns something that is not an artist")
    for a in made:
        k = sum(x is a for x in got)
        req(k == 1, f"{lab}: the {a.what} artist is returned {k} times")
    req(len(got) == len(made), f"{lab}: returns {len(got)} artists for {len(made)} created")


def defaults_of(w, o, **kw):
    """Options used when the caller gives none."""
    ax = Axes()
    w.m(o, "plot", ax, **kw)
    return norm(ax.log[0])[3]


STYLES = (
    {},
    {"color": "c1"},
    {"marker": "m1", "zorder": -1},
    {"linestyle": "--", "color": "c2", "label": "l"},
    {"alpha": 0, "zorder": 0, "label": "", "color": (0, 0, 0)},
    {"edgecolors": "e", "facecolors": "f", "linestyle": ":", "color": "c3", "marker": "x"},
)


def plottables(w):
    G = lambda n: w.get("geometry", n)
    yield "Point", w.call(G("Point"), xy=sym("p", 2))
    yield "client point", w.client.vars["Node"](xy=sym("p", 2))
    yield "Vertex", w.call(G("Vertex"), xy=sym("v", 2))
    yield "Ray", w.call(G("Ray"), xys=sym("r", 2, 2))
    yield "Wall", w.call(G("Wall"), xys=sym("w", 2, 2))
    yield "RIS", w.call(G("RIS"), xys=sym("s", 2, 2), phi=sym("phi"))
    for n in (2, 3, 5):
        yield f"Path of {n}", w.call(G("Path"), xys=sym("q", n, 2))
    for cn in ("ImagePath", "FermatPath", "MinPath"):
        yield cn, w.call(G(cn), xys=sym("q", 3, 2), loss=sym("l"))


def coords(w, o):
    f = o.fields
    return f["xys"] if "xys" in f else f["xy"].reshape((1, 2))


@ob("C28", "single elements", "recording of the calls on an uninterpreted axes: coordinates, caller style over defaults, artists returned")
def _(c):
    w = c.world()
    for nm, o in plottables(w):
        base = defaults_of(w, o)
        kind = "scatter" if "xy" in o.fields else "plot"
        for st in STYLES:
            for pos in ((), ("pos",)):
                ax = Axes()
                kw = dict(st)
                r = w.m(o, "plot", ax, *pos, **kw)
                lab = f"{nm}.plot({', '.join([*map(repr, pos), *st])})"
                draws(ax, lab, [(kind, coords(w, o), pos, {**base, **st})])
                returned(w, ax, r, lab)
                c.case()


@ob("C28", "labels of points", "recording: one annotation with the text, at the point, displaced by the offset, with its own options")
def _(c):
    w = c.world()
    for nm, o in plottables(w):
        if "xy" not in o.fields:
            continue
        base = defaults_of(w, o)
        xy = o.fields["xy"]
        dx, dy = sym("dx"), sym("dy")
        for txt in ("A", "$x_1$", " ", "0", "base station " * 6, "Antenne n°1 – été", " tx"):
            for off, d in ((None, jnp.zeros((2,))), ((dx, dy), jnp.stack([dx, dy])), ((0.5, -1), jnp.array([0.5, -1.0]))):
                for ak in (None, {}, {"color": "ac", "fontsize": 3}):
                    for st in STYLES[:4]:
                        kw = dict(st, annotate=txt)
                        if off is not None:
                            kw["annotate_offset"] = off
                        if ak is not None:
                            kw["annotate_kwargs"] = ak
                        ax = Axes()
                        r = w.m(o, "plot", ax, **kw)
                        lab = f"{nm}.plot(annotate={txt!r}, {', '.join(k for k in kw if k != 'annotate')})"
                        draws(ax, lab, [("scatter", coords(w, o), (), {**base, **st}), ("annotate", jnp.stack([xy, xy + d]), (txt,), dict(ak or {}))])
                        returned(w, ax, r, lab)
                        c.case()
        ax = Axes()
        r = w.m(o, "plot", ax, annotate=None, annotate_offset=(1.0, 2.0), annotate_kwargs={"color": "k"})
        draws(ax, f"{nm}.plot(annotate=None)", [("scatter", coords(w, o), (), base)])
        c.case()


def plot_scenes(w):
    Scene, Point, Wall, RIS, Vertex = w.get("scene", "Scene"), *(w.get("geometry", n) for n in ("Point", "Wall", "RIS", "Vertex"))
    mk = lambda t, r, o: w.call(Scene, transmitters=t, receivers=r, objects=o)
    P = lambda n: w.call(Point, xy=sym(n, 2))
    bl = [w.blob("o0"), w.blob("o1", "BlobB")]
    V = w.call(Vertex, xy=sym("v", 2))
    wl = [w.call(Wall, xys=sym("w", 2, 2)), w.call(RIS, xys=sym("s", 2, 2), phi=sym("phi")), V]
    yield "client objects", mk({"t0": P("t0"), "t1": P("t1")}, {"r0": P("r0"), "r1": P("r1"), "r2": P("r2")}, bl)
    yield "mixed objects", mk({"a": P("t0"), "b": w.client.vars["Node"](xy=sym("t1", 2))}, {"a": P("r0"), "c": w.call(Vertex, xy=sym("r1", 2))}, [*wl, bl[0]])
    yield "an object drawn twice", mk({"a": P("t0")}, {"a": P("t0")}, [bl[0], bl[0]])
    N0 = P("n0")
    yield "one node in both roles", mk({"a": N0, "b": P("t1")}, {"a": N0, "c": N0}, [bl[0]])
    yield "odd names", mk({"Tx": P("t0"), " tx": P("t1"), "base station " * 6: P("t2")}, {"antenne n°1 – été": P("r0"), "0": P("r1"), "__x__": P("r2")}, [bl[0]])
    yield "no transmitter", mk({}, {"r": P("r0")}, bl)
    yield "no receiver", mk({"t": P("t0")}, {}, bl)
    yield "no object", mk({"t": P("t0")}, {"r": P("r0")}, [])
    yield "nothing", mk({}, {}, [])


def elements(w, sc):
    out = []
    for kind in ("transmitters", "receivers"):
        for k, p in [tuple(w.list(kv, 2)) for kv in w.list(w.m(w.at(sc, kind), "items"))]:
            out.append((kind, k, p))
    return out + [("objects", None, o) for o in w.list(w.at(sc, "objects"))]


def scene_want(w, sc, base, on, annotate, whole, per, pos=(), ppos=None):
    """Expected draws; base gives the default options per kind and class."""
    want = []
    ppos = ppos or {}
    for kind, name, o in elements(w, sc):
        if not on[kind]:
            continue
        op = {**base[kind, o.cls.__name__], **whole, **per.get(kind, {})}
        p = (*ppos.get(kind, ()), *pos)
        ak, off = op.pop("annotate_kwargs", {}), op.pop("annotate_offset", None)
        if "tag" in o.fields:
            want.append(("draw", None, (o, *p), op))
            continue
        want.append(("scatter" if "xy" in o.fields else "plot", coords(w, o), p, op))
        if name is not None and annotate:
            xy = o.fields["xy"]
            want.append(("annotate", jnp.stack([xy, xy if off is None else xy + jnp.array(list(off))]), (name,), ak))
    return want


def scene_base(w, sc):
    """Default options of each kind of element, observed without any style."""
    Scene = w.get("scene", "Scene")
    base = {}
    for kind, name, o in elements(w, sc):
        if (kind, o.cls.__name__) in base:
            continue
        if kind == "objects":
            base[kind, o.cls.__name__] = {} if "tag" in o.fields else defaults_of(w, o)
            continue
        one = w.call(Scene, **{"transmitters": {}, "receivers": {}, "objects": [], kind: {name: o}})
        ax = Axes()
        w.m(one, "plot", ax, annotate=False)
        req(len(ax.log) == 1, f"Scene.plot draws {len(ax.log)} things for one of {kind}")
        base[kind, o.cls.__name__] = norm(ax.log[0])[3]
        d = defaults_of(w, o)
        req(set(d) <= set(base[kind, o.cls.__name__]), f"Scene.plot drops default options of {kind}")
    return base


KINDS = ("transmitters", "objects", "receivers")


@ob("C28", "enabled elements", "partition over the enabling flags: each enabled element once at its coordinates with its name, nothing else, all artists returned")
def _(c):
    w = c.world()
    for nm, sc in plot_scenes(w):
        base = scene_base(w, sc)
        for flags in itertools.product((True, False), repeat=3):
            on = dict(zip(KINDS, flags))
            for ann in (True, False):
                ax = Axes()
                r = w.m(sc, "plot", ax, annotate=ann, **on)
                lab = f"Scene.plot ({nm}, {', '.join(k for k in KINDS if on[k]) or 'nothing enabled'}{', annotated' if ann else ''})"
                draws(ax, lab, scene_want(w, sc, base, on, ann, {}, {}))
                returned(w, ax, r, lab)
                c.case()
        ax = Axes()
        r = w.m(sc, "plot", ax)
        draws(ax, f"Scene.plot ({nm}, defaults)", scene_want(w, sc, base, dict.fromkeys(KINDS, True), True, {}, {}))
        returned(w, ax, r, f"Scene.plot ({nm}, defaults)")
        c.case()


@ob("C28", "style options", "value numbering of the options reaching each element: whole-plot style over defaults, per-kind style over both, nowhere else")
def _(c):
    w = c.world()
    on = dict.fromkeys(KINDS, True)
    whole = ({}, {"color": "W"}, {"alpha": sym("alpha"), "zorder": 3}, {"alpha": 0, "label": "", "color": None})
    mine = {"transmitters": ({}, {"color": "T"}, {"marker": "t", "zorder": 1}), "objects": ({}, {"color": "O", "zorder": None}), "receivers": ({}, {"color": "R"}, {"marker": "r", "s": 4})}
    for nm, sc in plot_scenes(w):
        base = scene_base(w, sc)
        for wh in whole:
            for combo in itertools.product(*[mine[k] for k in KINDS]):
                per = dict(zip(KINDS, combo))
                for ann in (True, False):
                    ax = Axes()
                    kw = {k + "_kwargs": dict(v) for k, v in per.items() if v}
                    r = w.m(sc, "plot", ax, annotate=ann, **kw, **wh)
                    lab = f"Scene.plot ({nm}, style {pretty({**wh, **kw})})"
                    draws(ax, lab, scene_want(w, sc, base, on, ann, wh, per))
                    returned(w, ax, r, lab)
                    c.case()
        # options of the labels, and explicit empty options
        ak, ak2 = {"color": "lab"}, {"fontsize": 9}
        per = {"transmitters": {"annotate_kwargs": ak, "annotate_offset": (0.5, 1.0)}, "receivers": {"annotate_kwargs": ak2}}
        ax = Axes()
        r = w.m(sc, "plot", ax, transmitters_kwargs=per["transmitters"], receivers_kwargs=per["receivers"], objects_kwargs={})
        lab = f"Scene.plot ({nm}, label options)"
        draws(ax, lab, scene_want(w, sc, base, on, True, {}, per))
        returned(w, ax, r, lab)
        c.case()
        # positional options
        for pos, ppos in (((), {"transmitters": ("T",)}), ((), {"objects": ("O",), "receivers": ("R", 1)}), (("all",), {}), (("all",), {"transmitters": ("T",), "objects": ("O",), "receivers": ("R",)})):
            ax = Axes()
            r = w.m(sc, "plot", ax, *pos, **{k + "_args": v for k, v in ppos.items()})
            lab = f"Scene.plot ({nm}, positional options {pos}, {ppos})"
            draws(ax, lab, scene_want(w, sc, base, on, True, {}, {}, pos, ppos))
            returned(w, ax, r, lab)
            c.case()


@ob("C28", "repeated plots", "typestate: options of one plot do not leak into another one")
def _(c):
    w = c.world()
    on = dict.fromkeys(KINDS, True)
    for nm, sc in plot_scenes(w):
        base = scene_base(w, sc)
        w.m(sc, "plot", Axes(), transmitters_kwargs={"color": "T", "s": 1}, objects_kwargs={"color": "O"}, receivers_kwargs={"color": "R"}, transmitters=False, annotate=False, zorder=7)
        a, b = Axes(), Axes()
        w.m(sc, "plot", a)
        w.m(sc, "plot", b)
        for ax in (a, b):
            draws(ax, f"Scene.plot ({nm}) after a styled plot", scene_want(w, sc, base, on, True, {}, {}))
            c.case()


# ---------------------------------------------------------------- C26
def state(w):
    """Content of everything that outlives a call: module variables, class
    attributes, default arguments and captured variables."""
    out = {}
    seen = set()

    def go(path, v, depth=0):
        if v is None or isinstance(v, (str, bytes, int, float, bool)):
            out[path] = v
            return
        if isinstance(v, Arr):
            out[path] = ("A", v.shape, tuple(x.uid for x in v.data))
            return
        if id(v) in seen:
            out[path] = ("seen", id(v))
            return
        seen.add(id(v))
        if isinstance(v, (list, tuple, set, frozenset)):
            out[path] = (type(v).__name__, len(v), tuple(id(x) for x in v) if not isinstance(v, (set, frozenset)) else tuple(sorted(map(repr, v))))
            if isinstance(v, (list, tuple)):
                for i, x in enumerate(v):
                    go(f"{path}[{i}]", x)
        elif isinstance(v, dict):
            out[path] = ("dict", tuple(map(repr, v)))
            for k, x in v.items():
                go(f"{path}[{k!r}]", x)
        elif isinstance(v, IFunc):
            go(path + ".defaults", v.defaults)
            go(path + ".kwdefaults", v.kwdefaults)
            s = v.scope
            while s is not None and getattr(s, "kind", None) == "func":
                for k, x in s.vars.items():
                    go(f"{path} captured {k}", x)
                s = s.parent
            for k, x in vars(v).items():
                if k not in FN_ATTRS and not k.startswith("__"):
                    go(f"{path}.{k}", x)
            if getattr(v, "__wrapped__", None) is not None:
                go(path + " wrapped", v.__wrapped__)
        elif isinstance(v, IClass):
            for k, x in list(v.ns.items()):
                go(f"{path}.{k}", x)
        elif isinstance(v, Inst):
            for k, x in v.fields.items():
                go(f"{path}.{k}", x)
        elif isinstance(v, IModule):
            pass
        elif isinstance(v, types.FunctionType):
            if v.__closure__:
                for cc in v.__closure__:
                    try:
                        x = cc.cell_contents
                    except ValueError:
                        continue
                    if isinstance(x, (IFunc, IClass)):
                        go(path + "~", x)
        elif type(v).__module__.startswith("sa.") and hasattr(v, "__dict__"):
            for k, x in list(vars(v).items()):
                if isinstance(x, (IFunc, IClass)):
                    go(f"{path}~{k}", x)

    for mn, m in sorted(w.I.modules.items()):
        for k, v in list(m.vars.items()):
            if not k.startswith("__"):
                go(f"{mn}.{k}", v)
    return out


FN_ATTRS = {"interp", "node", "scope", "module", "defaults", "kwdefaults", "cls", "locals_", "globals_", "nonlocals", "is_gen"}


def deep(v, memo=None):
    """Fingerprint of an argument through objects, containers and callables."""
    return shallow(v)


class Call:
    """One public call on abstract arguments; args are built once."""

    def __init__(self, name, f, *a, **k):
        self.name, self.f, self.a, self.k = name, f, list(a), dict(k)

    def held(self):
        """What the caller can observe of what it passed in."""
        r = [shallow(x) for x in self.a] + [(k, shallow(x)) for k, x in self.k.items()]
        s = getattr(self.f, "__self__", None)
        return r + [shallow(s)]

    def containers(self):
        """Mutable containers the caller still holds, by identity."""
        out, seen = {}, set()

        def go(name, v):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, (dict, list, set)):
                out[id(v)] = name
                for k, x in (v.items() if isinstance(v, dict) else enumerate(v)):
                    go(f"{name}[{k!r}]", x)
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    go(f"{name}[{i}]", x)
            elif isinstance(v, Inst):
                for k, x in v.fields.items():
                    go(f"{name}.{k}", x)

        for i, x in enumerate(self.a):
            if not isinstance(x, (Axes, JsonDoc, JsonByteArray)):
                go(f"argument {i}", x)
        for k, x in self.k.items():
            go(f"argument {k}", x)
        go("the object", getattr(self.f, "__self__", None))
        return out

    def run(self, w):
        for x in (*self.a, *self.k.values()):
            if isinstance(x, Axes):
                x.log.clear()
        r = w.I.call(self.f, list(self.a), dict(self.k))
        r = settle(w, r)
        for x in (*self.a, *self.k.values()):
            if isinstance(x, Axes):
                return [("draw", n[0], n[1], n[2], n[3]) for n in map(norm, x.log)], len(r)
        return r


def settle(w, r):
    """Exhaust iterators, keep everything else."""
    if isinstance(r, types.GeneratorType) or (hasattr(r, "__next__") and not isinstance(r, Inst)):
        return [settle(w, x) for x in w.list(r)]
    if isinstance(r, itertools.product):
        return [settle(w, x) for x in r]
    return r


def catalogue(w):
    """Public entry points on generic arguments: (name, call)."""
    L = lambda n: w.get("logic", n)
    G = lambda n: w.get("geometry", n)
    Scene, Point, Wall, RIS, Vertex, Ray, Path = w.get("scene", "Scene"), *(G(n) for n in ("Point", "Wall", "RIS", "Vertex", "Ray", "Path"))
    C = Call
    PP = w.client.vars["ProbePath"]
    at = w.at

    # logic
    a2, b2 = sym("a", 2), sym("b", 2)
    t2, u2 = sym("t", 2, lo=0, hi=1), sym("u", 2, lo=0, hi=1)
    for f in ("sigmoid", "hard_sigmoid"):
        yield C(f, L(f), a2, sym("alpha"))
    yield C("activation", L("activation"), a2)
    yield C("activation (other)", L("activation"), a2, alpha=sym("alpha"), function=L("sigmoid"))
    for ap in (True, False, None):
        for f in ("greater", "greater_equal", "less", "less_equal"):
            yield C(f"{f} approx={ap}", L(f), a2, b2, approx=ap)
        yield C(f"less alpha approx={ap}", L("less"), a2, b2, approx=ap, **({} if ap is False else {"alpha": sym("alpha")}))
    for ap in (True, False):
        x, y = (t2, u2) if ap else (a2 > b2, b2 > a2)
        for f in ("logical_and", "logical_or"):
            yield C(f"{f} approx={ap}", L(f), x, y, approx=ap)
        yield C(f"logical_not approx={ap}", L("logical_not"), x, approx=ap)
        for f in ("logical_all", "logical_any"):
            yield C(f"{f} approx={ap}", L(f), x, y, approx=ap)
            yield C(f"{f} of 1 approx={ap}", L(f), x, axis=0, approx=ap)
        for f in ("is_true", "is_false"):
            yield C(f"{f} approx={ap}", L(f), x, approx=ap)
            yield C(f"{f} tol approx={ap}", L(f), x, tol=sym("tol"), approx=ap)
        for f in ("true_value", "false_value"):
            yield C(f"{f} approx={ap}", L(f), approx=ap)

    # geometry
    P = [sym(f"p{i}", 2) for i in range(4)]
    for ap in (True, False):
        kw = {"alpha": sym("alpha")} if ap else {}
        yield C(f"segments_intersect approx={ap}", G("segments_intersect"), *P, tol=sym("tol"), approx=ap, **kw)
        yield C(f"segments_intersect defaults approx={ap}", G("segments_intersect"), *P, approx=ap)
    yield C("path_length", G("path_length"), sym("q", 3, 2))
    yield C("path_length 2", G("path_length"), sym("q", 2, 2))
    yield C("normalize", G("normalize"), sym("v", 2))
    yield C("closest_point", G("closest_point"), sym("q", 3, 2), sym("c", 2))
    walls = [w.call(Wall, xys=sym(f"w{i}_", 2, 2)) for i in range(3)]
    yield C("stack_leaves", G("stack_leaves"), walls)
    yield C("stack_leaves axis", G("stack_leaves"), list(walls), axis=1)
    yield C("unstack_leaves", G("unstack_leaves"), {"a": sym("a", 2, 2), "b": [sym("b", 2)]})
    lst = [1.0, 2.0]
    yield C("Point(list)", Point, xy=lst)
    yield C("Wall(list)", Wall, xys=[[0.0, 1.0], [2.0, 3.0]])
    yield C("Path(list)", Path, xys=[[0.0, 1.0], [2.0, 3.0], [4.0, 5.0]])
    for cl in (Point, Wall, RIS, Vertex, Ray):
        yield C(f"{cl.__name__}()", cl)
    objs = [("Point", w.call(Point, xy=sym("p", 2))), ("Vertex", w.call(Vertex, xy=sym("v", 2))), ("Ray", w.call(Ray, xys=sym("r", 2, 2))), ("Wall", walls[0]), ("RIS", w.call(RIS, xys=sym("s", 2, 2), phi=sym("phi"))), ("Path", w.call(Path, xys=sym("q", 4, 2)))]
    for nm, o in objs:
        yield C(f"{nm}.bounding_box", at(o, "bounding_box"))
        yield C(f"{nm}.plot", at(o, "plot"), Axes())
        yield C(f"{nm}.plot styled", at(o, "plot"), Axes(), color="c", zorder=2, **({"annotate": "A", "annotate_kwargs": {"color": "x"}} if "xy" in o.fields else {}))
        if nm not in ("Ray",):
            yield C(f"{nm}.center", at(o, "center"))
            yield C(f"{nm}.grid", at(o, "grid"), 2, 3)
            yield C(f"{nm}.grid square", at(o, "grid"), 3)
            for l in ("N", "SE", "C"):
                yield C(f"{nm}.get_location {l}", at(o, "get_location"), l)
        if nm in ("Ray", "Wall", "RIS"):
            for m in ("origin", "dest", "t"):
                yield C(f"{nm}.{m}", at(o, m))
            yield C(f"{nm}.rotate", at(o, "rotate"), sym("ang"))
            yield C(f"{nm}.rotate around point", at(o, "rotate"), sym("ang"), around=sym("c", 2))
            yield C(f"{nm}.rotate around a Point", at(o, "rotate"), sym("ang"), objs[0][1])
        if nm in ("Wall", "RIS", "Vertex"):
            n = 0 if nm == "Vertex" else 1
            yield C(f"{nm}.parametric_to_cartesian", at(o, "parametric_to_cartesian"), sym("s", n))
            yield C(f"{nm}.cartesian_to_parametric", at(o, "cartesian_to_parametric"), sym("c", 2))
            yield C(f"{nm}.sample", at(o, "sample"), supplied())
            yield C(f"{nm}.evaluate_cartesian", at(o, "evaluate_cartesian"), sym("q", 3, 2))
            for ap in (True, False):
                kw = {"alpha": sym("alpha")} if ap else {}
                yield C(f"{nm}.contains_parametric approx={ap}", at(o, "contains_parametric"), sym("s", n), approx=ap, **kw)
                yield C(f"{nm}.intersects_cartesian approx={ap}", at(o, "intersects_cartesian"), sym("r", 2, 2), patch=sym("patch"), approx=ap, **kw)
                yield C(f"{nm}.intersects_cartesian defaults approx={ap}", at(o, "intersects_cartesian"), sym("r", 2, 2), approx=ap)
        if nm in ("Wall", "RIS"):
            yield C(f"{nm}.image_of", at(o, "image_of"), sym("c", 2))
            yield C(f"{nm}.normal", at(o, "normal"))
            yield C(f"{nm}.get_vertices", at(o, "get_vertices"))

    # paths
    bl = [w.blob("o0"), w.blob("o1", "BlobB"), w.blob("o2")]
    pt = {"tx": w.call(Point, xy=sym("tx", 2)), "rx": w.call(Point, xy=sym("rx", 2))}
    op = {"optimizer": opaque_opt(), "steps": 1}
    for cn, ob_ in (("Path", bl), ("ImagePath", walls[:2]), ("FermatPath", bl[:2]), ("MinPath", bl[:2])):
        f = at(G(cn), "from_tx_objects_rx")
        kw = {"key": supplied(), **op} if cn in ("FermatPath", "MinPath") else {}
        yield C(f"{cn}.from_tx_objects_rx", f, sym("tx", 2), list(ob_), sym("rx", 2), **kw)
        yield C(f"{cn}.from_tx_objects_rx no object", f, pt["tx"], [], pt["rx"], **kw)
        if kw:
            yield C(f"{cn}.from_tx_objects_rx many", f, pt["tx"], list(ob_[:1]), pt["rx"], many=2, **kw)
    for n in (0, 1, 2):
        p = w.call(Path, xys=sym("q", n + 2, 2), loss=sym("loss"))
        inter = bl[:n]
        yield C(f"Path.length {n}", at(p, "length"))
        for ap in (True, False):
            kw = {"alpha": sym("alpha")} if ap else {}
            yield C(f"Path.on_objects {n} approx={ap}", at(p, "on_objects"), list(inter), approx=ap, **kw)
            yield C(f"Path.intersects_with_objects {n} approx={ap}", at(p, "intersects_with_objects"), list(bl), jnp.array(list(range(n)), dtype=int), patch=sym("patch"), approx=ap, **kw)
            yield C(f"Path.is_valid {n} approx={ap}", at(p, "is_valid"), list(bl), jnp.array(list(range(n)), dtype=int), list(inter), approx=ap, **kw)
            yield C(f"Path.is_valid {n} limits approx={ap}", at(p, "is_valid"), list(bl), jnp.array(list(range(n)), dtype=int), list(inter), tol=sym("tol"), patch=sym("patch"), approx=ap)
            if n:
                tc = Arr((n,), [N.var(f"cand{i}", sort="i", lo=0, hi=2) for i in range(n)], "i")
                yield C(f"Path.intersects_with_objects {n} traced candidate approx={ap}", at(p, "intersects_with_objects"), list(bl), tc, patch=sym("patch"), approx=ap, **kw)
                yield C(f"Path.is_valid {n} traced candidate approx={ap}", at(p, "is_valid"), list(bl), tc, list(inter), approx=ap, **kw)
            yield C(f"received_power {n} {ap}", w.get("utils", "received_power"), pt["tx"], pt["rx"], p, list(inter), **({"r_coef": sym("r"), "height": sym("h")} if ap else {}))

    # optimisers
    fun = probe_obj()
    yield C("minimize", w.get("optimize", "minimize"), fun, sym("x", 2), (sym("arg"),), **op)
    yield C("minimize default optimiser", w.get("optimize", "minimize"), fun, sym("x", 2), steps=1)
    yield C("minimize_random_uniform", w.get("optimize", "minimize_random_uniform"), fun, supplied(), 2, **op)
    yield C("minimize_random_uniform extra", w.get("optimize", "minimize_random_uniform"), fun, supplied(), 2, args=(sym("arg"),), **op)
    yield C("minimize_many_random_uniform", w.get("optimize", "minimize_many_random_uniform"), fun, supplied(), 2, many=2, **op)

    # scenes
    D = w.get("scene", "PyTreeDict")
    yield C("PyTreeDict.from_mapping", at(D, "from_mapping"), {"b": pt["tx"], "a": pt["rx"]})
    cand = w.get("scene", "all_path_candidates")
    yield C("all_path_candidates", cand, 3)
    yield C("all_path_candidates order", cand, 3, order=2)
    yield C("all_path_candidates filtered", cand, 3, max_order=2, filter_nodes=(1,))
    sc, txs, rxs, sob = probe_scene(w, 2, 2)
    yield C("Scene()", Scene)
    yield C("Scene(...)", Scene, transmitters={"b": pt["tx"], "a": pt["rx"]}, receivers={"z": pt["rx"]}, objects=list(bl))
    keep = lambda o: True
    tn, rn = list(txs), list(rxs)
    for side, names in (("transmitters", tn), ("receivers", rn)):
        yield C(f"with_{side}", at(sc, f"with_{side}"), n1=pt["tx"], n2=pt["rx"])
        yield C(f"update_{side}", at(sc, f"update_{side}"), **{names[0]: pt["tx"], "n2": pt["rx"]})
        yield C(f"rename_{side}", at(sc, f"rename_{side}"), **{names[0]: "other"})
    yield C("with_objects", at(sc, "with_objects"), *bl[:2])
    yield C("add_objects", at(sc, "add_objects"), *bl[:1])
    yield C("filter_objects", at(sc, "filter_objects"), keep)
    same = w.call(Scene, transmitters={"a": pt["tx"]}, receivers={"b": pt["rx"]}, objects=[w.blob("o0"), w.blob("o1")])
    yield C("stacked_objects", at(same, "stacked_objects"))
    yield C("get_object", at(same, "get_object"), 1)
    yield C("get_object 0", at(same, "get_object"), 0)
    one = w.call(Scene, transmitters={"a": pt["tx"]}, receivers={"b": pt["rx"]}, objects=[w.blob("o0")])
    for k, s_ in ((1, one), (2, same)):
        yield C(f"get_object traced, {k}", at(s_, "get_object"), Arr((), [N.var("index", sort="i", lo=0, hi=k - 1)], "i"))
    yield C("from_stacked_objects", at(Scene, "from_stacked_objects"), w.call(Wall, xys=sym("ws", 2, 2, 2)))
    yield C("from_walls_array", at(Scene, "from_walls_array"), sym("ws", 3, 2, 2))
    q = [[Arr((), [N.var(f"g{i}{x}")], "f") for x in "xy"] for i in range(3)]
    doc = {"features": [{"geometry": {"type": "Polygon", "coordinates": [q + [q[0]]]}}, {"geometry": {"type": "Point", "coordinates": q[0]}}]}
    yield C("from_geojson str", at(Scene, "from_geojson"), JsonDoc(doc))
    yield C("from_geojson bytearray", at(Scene, "from_geojson"), JsonByteArray(doc), tx_loc="C")
    for nm in ("basic_scene", "square_scene", "square_scene_with_wall", "square_scene_with_obstacle"):
        yield C(nm, at(Scene, nm))
        yield C(nm + " moved", at(Scene, nm), tx_coords=sym("tx", 2), rx_coords=sym("rx", 2), **({"ratio": 0.25} if "with" in nm else {}))
        yield C("from_scene_name " + nm, at(Scene, "from_scene_name"), nm)
        yield C("from_scene_name moved " + nm, at(Scene, "from_scene_name"), nm, tx_coords=sym("tx", 2))
    yield C("random_uniform_scene", at(Scene, "random_uniform_scene"), 2, 1, 1, key=supplied())
    yield C("random_uniform_scene defaults", at(Scene, "random_uniform_scene"), key=supplied())
    yield C("Scene.bounding_box", at(sc, "bounding_box"))
    yield C("Scene.grid", at(sc, "grid"), 2, 3)
    yield C("Scene.center", at(sc, "center"))
    yield C("Scene.get_location", at(sc, "get_location"), "NE")
    yield C("Scene.plot", at(sc, "plot"), Axes())
    yield C("Scene.plot styled", at(sc, "plot"), Axes(), transmitters_kwargs={"color": "t", "annotate_kwargs": {"color": "x"}}, objects_kwargs={"color": "o"}, receivers_kwargs={"marker": "r"}, zorder=3)
    yield C("Scene.plot styles empty", at(sc, "plot"), Axes(), transmitters_kwargs={}, objects_kwargs={}, receivers_kwargs={}, annotate=False)
    yield C("Scene.plot positional", at(sc, "plot"), Axes(), "p", transmitters_args=("t",), receivers_args=("r",), receivers=False)
    yield C("all_transmitter_receiver_pairs", at(sc, "all_transmitter_receiver_pairs"))
    yield C("Scene.all_path_candidates", at(sc, "all_path_candidates"), 0, 2)
    yield C("Scene.all_path_candidates filtered", at(sc, "all_path_candidates"), order=1, filter_objects=keep)
    for n in (0, 1, 2):
        yield C(f"get_interacting_objects {n}", at(sc, "get_interacting_objects"), jnp.array(list(range(n)), dtype=int))
    pf = w.probe_fun()
    cfg = lambda: dict(path_cls=PP, path_cls_kwargs={"opt": sym("popt")})
    for ap in (True, False):
        kw = {"alpha": sym("alpha")} if ap else {}
        yield C(f"all_paths approx={ap}", at(sc, "all_paths"), **cfg(), approx=ap, **kw)
        yield C(f"all_paths empty options approx={ap}", at(sc, "all_paths"), path_cls=PP, path_cls_kwargs={}, order=1, approx=ap)
        yield C(f"all_paths keyed approx={ap}", at(sc, "all_paths"), **cfg(), filter_objects=keep, key=supplied(), approx=ap)
        fk = lambda: {"gain": sym("gain")}
        for red in (True, False):
            yield C(f"accumulate_over_paths approx={ap} reduce={red}", at(sc, "accumulate_over_paths"), pf, (sym("fa"),), fk(), reduce_all=red, **cfg(), approx=ap, **kw)
            yield C(f"accumulate_over_paths empty options approx={ap} reduce={red}", at(sc, "accumulate_over_paths"), pf, fun_kwargs={}, reduce_all=red, path_cls=PP, path_cls_kwargs={}, approx=ap)
            for side in ("transmitters", "receivers"):
                f = at(sc, f"accumulate_on_{side}_grid_over_paths")
                X, Y = sym("X", 1, 2), sym("Y", 1, 2)
                yield C(f"grid of {side} approx={ap} reduce={red}", f, X, Y, pf, (sym("fa"),), fk(), reduce_all=red, **cfg(), approx=ap, **kw)
                yield C(f"grid of {side}, gradients, approx={ap} reduce={red}", f, X, Y, pf, fun_kwargs={}, reduce_all=red, grad=True, order=1, path_cls=PP, path_cls_kwargs={}, key=supplied(), approx=ap)
                yield C(f"grid of {side}, values and gradients, approx={ap} reduce={red}", f, X, Y, pf, reduce_all=red, value_and_grad=True, order=0, path_cls=PP, approx=ap)


def state_diff(a, b):
    return [k for k in {**a, **b} if a.get(k, "absent") != b.get(k, "absent")]


def effect_check(c, w, call, before):
    """One call: arguments, receiver, module state as they were."""
    h0, n0 = call.held(), len(w.I.effects)
    w.I.protected = call.containers()
    try:
        r = call.run(w)
    finally:
        w.I.protected = {}
    h1 = call.held()
    if h0 != h1:
        what = [k for k, (x, y) in zip([*map(str, range(len(call.a))), *call.k, "the object"], zip(h0, h1)) if x != y]
        raise Mismatch(f"{call.name}: modifies what the caller passed in (argument {', '.join(what)})", None)
    if len(w.I.effects) > n0:
        kind, o, nm, loc = w.I.effects[n0]
        if kind == "mutation":
            raise Mismatch(f"{call.name}: calls {nm!r} on {o}, which belongs to the caller", loc)
        raise Mismatch(f"{call.name}: sets the attribute {nm!r} of {getattr(o, '__name__', o)}", loc)
    after = state(w)
    d = state_diff(before, after)
    req(not d, f"{call.name}: changes {', '.join(d[:4])}")
    return r


@ob("C26", "arguments and shared state", "effect analysis: fingerprints of arguments, receiver, module variables, class attributes, defaults and captured variables around every public call")
def _(c):
    for g in (False, True):
        w = c.world(glob=g)
        before = state(w)
        for call in catalogue(w):
            # the arguments may themselves be built through the library
            before = state(w)
            with c.soft(call.name):
                effect_check(c, w, call, before)
                c.case()


@ob("C26", "repeated calls", "value numbering: the same call gives the same result again, and after every other call")
def _(c):
    w = c.world()
    first, calls = [], []
    for call in catalogue(w):
        with c.soft(call.name):
            r = call.run(w)
            eq2(call.run(w), r, f"{call.name}, second call")
            calls.append(call)
            first.append(r)
            c.case()
    for call, r in zip(calls, first):
        with c.soft(call.name):
            eq2(call.run(w), r, f"{call.name}, after other calls")
            c.case()


@ob("C26", "independence of history", "value numbering: a call after all others gives the result of a fresh interpreter")
def _(c):
    used = c.world()
    calls = list(catalogue(used))
    for x in calls:
        with c.soft(x.name):
            x.run(used)
    n = len(calls)
    step = 1 if c.tier == "thorough" else 4
    for k in range(0, n, step):
        fresh = c.world()
        alone = list(catalogue(fresh))
        for j in range(k, min(k + step, n)):
            with c.soft(calls[j].name):
                eq2(calls[j].run(used), alone[j].run(fresh), f"{calls[j].name}, compared with a fresh start")
                c.case()


def eq2(a, b, what):
    """Equality of results, by value."""
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], list) and a[0] and isinstance(a[0][0], tuple) and a[0][0][:1] == ("draw",):
        req(len(a[0]) == len(b[0]) and a[1] == b[1], f"{what}: draws {len(a[0])} things instead of {len(b[0])}")
        for x, y in zip(a[0], b[0]):
            req(x[1] == y[1] and same_opts(x[4], y[4]) and len(x[3]) == len(y[3]), f"{what}: draws with {pretty(x[4])} instead of {pretty(y[4])}")
            if x[2] is not None:
                eq(x[2], y[2], what)
        return
    if not alike(a, b, {}):
        eq(a, b, what)


def alike(a, b, memo):
    """Identical structure, node by node (sufficient for equality)."""
    if a is b:
        return True
    if isinstance(a, N.Node):
        if not isinstance(b, N.Node):
            return False
        k = (a.uid, b.uid)
        if k not in memo:
            memo[k] = True  # graphs are acyclic
            memo[k] = a.op == b.op and a.sort == b.sort and len(a.args) == len(b.args) and alike(a.attr, b.attr, memo) and all(alike(x, y, memo) for x, y in zip(a.args, b.args))
        return memo[k]
    if isinstance(a, Arr):
        return isinstance(b, Arr) and a.shape == b.shape and a.kind == b.kind and all(alike(x, y, memo) for x, y in zip(a.data, b.data))
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, memo) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(alike(a[x], b[x], memo) for x in a)
    if isinstance(a, Inst):
        return a.cls.__name__ == b.cls.__name__ and alike(a.fields, b.fields, memo)
    if isinstance(a, (str, bytes, int, float, bool, Fraction)):
        return a == b
    return False


# ---------------------------------------------------------------- C32
@ob("C32", "traceable operations", "concretisation analysis: no symbolic coordinate reaches a Python truth test, number conversion, index or NumPy call; static arguments are hashable")
def _(c):
    for g in (False, True):
        w = c.world(glob=g)
        for call in catalogue(w):
            if ".plot" in call.name or "geojson" in call.name:
                continue
            with c.soft(call.name):
                Tracing.on = True
                try:
                    call.run(w)
                finally:
                    Tracing.on = False
                c.case()
