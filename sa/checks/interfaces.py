"""C35: the abstract interfaces bind client classes, and are all they need."""
from __future__ import annotations

from ..arr import Arr
from ..chk import Mismatch, ProgError, eq, jnp, ob, req, sym
from .. import jaxmodel as J
from .geometry import Draws

PLOT = {
    "plot": "def plot(self, ax, *args, **kwargs): return []",
    "bounding_box": "def bounding_box(self): return jnp.stack([LO, HI])",
}
INTERACT = {
    "parameters_count": "@staticmethod\n    def parameters_count(): return COUNT",
    "parametric_to_cartesian": "def parametric_to_cartesian(self, param_coords):\n        assert param_coords.shape == (COUNT,), f'an element of {COUNT} parameters is evaluated at {param_coords.shape[0]}'\n        return ORG + jnp.sum(param_coords * WEIGHTS) * DIR",
    "cartesian_to_parametric": "def cartesian_to_parametric(self, carte_coords): return WEIGHTS * carte_coords[0]",
    "contains_parametric": "def contains_parametric(self, param_coords, approx=None, **kwargs): return L.true_value(approx=approx)",
    "intersects_cartesian": "def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs): return L.false_value(approx=approx)",
    "evaluate_cartesian": "def evaluate_cartesian(self, ray_path): return jnp.sum(ray_path)",
}
BASES = {"Plottable": PLOT, "Interactable": INTERACT, "Object": {**PLOT, **INTERACT}}
HEAD = "import abc\nimport equinox as eqx\nimport jax.numpy as jnp\nimport differt2d.logic as L\nimport differt2d.abc as AB\nimport differt2d.geometry as G\nimport differt2d.scene as S\n"
# ways a client derives from the interface
STYLES = {"plain": "AB.{b}", "module": "eqx.Module, AB.{b}"}


def cls(name, bases, methods):
    return f"class {name}({bases}):\n    pass\n" + "".join(f"    {m}\n" for m in methods)


def client(w, text, n=1):
    return w.source(HEAD + text, "<client>", COUNT=n, WEIGHTS=sym("weight", n), ORG=sym("org", 2), DIR=sym("dir", 2), LO=sym("lo", 2), HI=sym("hi", 2))


@ob("C35", "incomplete elements are refused", "type system: a class that leaves out a required method of the interface it derives from has no instances")
def _(c):
    w = c.world()
    for b, ms in BASES.items():
        m = client(w, f"def make():\n    return AB.{b}()\n")
        refused(w, m, b, f"the interface {b} itself")
        c.case()
        for st, bases in STYLES.items():
            bs = bases.format(b=b)
            for k in ms:
                left = [x for q, x in ms.items() if q != k]
                m = client(w, cls("K", bs, left) + "def make():\n    return K()\n")
                refused(w, m, b, f"a class ({st}) deriving from {b} without {k}")
                # completed by a further class, or by another base
                m = client(w, cls("K", bs, left) + cls("Rest", "K", [ms[k]]) + f"class Mix:\n    {ms[k]}\nclass Both(Mix, K):\n    pass\ndef make():\n    return Rest(), Both()\n")
                w.call(m.vars["make"])
                c.case(2)


def refused(w, m, b, what):
    try:
        w.call(m.vars["make"])
    except ProgError as e:
        req(isinstance(e.exc, TypeError), f"{what} is refused with {type(e.exc).__name__}")
    else:
        raise Mismatch(f"{what} can be instantiated", getattr(w.get("abc", b), "loc", None))


@ob("C35", "complete elements inherit the rest", "value numbering: centre, locations, grid and samples of client elements that define the required methods only")
def _(c):
    w = c.world()
    lo, hi = sym("lo", 2), sym("hi", 2)
    mid = 0.5 * (lo + hi)
    for b, ms in BASES.items():
        for st, bases in STYLES.items():
            for n in c.sizes([0, 1, 2, 3], 12) if b != "Plottable" else [1]:
                m = client(w, cls("K", bases.format(b=b), ms.values()) + "K_ = K\ndef make():\n    return K_()\n", n)
                o = w.call(m.vars["make"])
                what = f"a client {b} ({st})"
                if "bounding_box" in ms:
                    eq(w.m(o, "center"), mid, f"{what}: center")
                    xs, ys = {"W": lo[0], "E": hi[0]}, {"S": lo[1], "N": hi[1]}
                    for k in ("N", "S", "E", "W", "C", "NE", "NW", "SE", "SW"):
                        x = next((xs[q] for q in k if q in xs), mid[0])
                        y = next((ys[q] for q in k if q in ys), mid[1])
                        eq(w.m(o, "get_location", k), jnp.stack([x, y]), f"{what}: get_location({k!r})")
                    X, Y = w.list(w.m(o, "grid", 3, 2), 2)
                    req(X.shape == Y.shape == (2, 3), f"{what}: grid(3, 2) has shapes {X.shape} and {Y.shape}")
                    for i in range(2):
                        for j in range(3):
                            eq(X[i, j], lo[0] + (hi[0] - lo[0]) * j / 2, f"{what}: grid(3, 2) X[{i}, {j}]")
                            eq(Y[i, j], lo[1] + (hi[1] - lo[1]) * i, f"{what}: grid(3, 2) Y[{i}, {j}]")
                if "parameters_count" in ms:
                    s = w.m(o, "sample", J.r_key(sym("seed")))
                    u = w.list(Draws(s))
                    req(len(u) == n, f"{what} of {n} parameters: a sample uses {len(u)} draws")
                    req(all(x.attr[1][0] == "uniform" for x in u), f"{what}: the parameters of a sample are not uniform")
                    u = sorted(u, key=lambda x: x.attr[1][-1])
                    eq(s, w.m(o, "parametric_to_cartesian", Arr((n,), u, "f")), f"{what} of {n} parameters: sample")
                c.case()


KINDS = """
XYS = jnp.array([[0.0, 0.0], [1.0, 0.5]])
E = {"Point": G.Point(), "Vertex": G.Vertex(), "Wall": G.Wall(), "RIS": G.RIS(), "Path": G.Path(xys=XYS), "ImagePath": G.ImagePath(xys=XYS), "FermatPath": G.FermatPath(xys=XYS), "MinPath": G.MinPath(xys=XYS), "Scene": S.Scene()}
def kinds(n):
    return [isinstance(E[n], x) for x in (AB.Plottable, AB.Interactable, AB.Object)]
def family(n):
    return [isinstance(E[n], x) for x in (G.Point, G.Ray, G.Wall, G.Path)]
"""
IS = {"Point": (1, 0, 0), "Vertex": (1, 1, 1), "Wall": (1, 1, 1), "RIS": (1, 1, 1), **{p: (1, 0, 0) for p in ("Path", "ImagePath", "FermatPath", "MinPath", "Scene")}}
FAMILY = {"Point": (1, 0, 0, 0), "Vertex": (1, 0, 0, 0), "Wall": (0, 1, 1, 0), "RIS": (0, 1, 1, 0), **{p: (0, 0, 0, 1) for p in ("Path", "ImagePath", "FermatPath", "MinPath")}, "Scene": (0, 0, 0, 0)}


@ob("C35", "library elements implement the interfaces", "class hierarchy analysis: every documented element is an instance of the interfaces and families it documents")
def _(c):
    w = c.world()
    m = client(w, KINDS)
    mod = {"Scene": "scene"}
    for n, want in IS.items():
        at = getattr(w.get(mod.get(n, "geometry"), n), "loc", None)
        got = w.list(w.call(m.vars["kinds"], n))
        for k, g, x in zip(("Plottable", "Interactable", "Object"), got, want):
            req(bool(g) or not x, f"a {n} is not an instance of {k}", at)
        got = w.list(w.call(m.vars["family"], n))
        for k, g, x in zip(("Point", "Ray", "Wall", "Path"), got, FAMILY[n]):
            req(bool(g) or not x, f"a {n} is not an instance of {k}", at)
        c.case()
