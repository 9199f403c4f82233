"""C34: documented kinds and dimensions are enforced where the library is used."""
from __future__ import annotations

from ..chk import Mismatch, ProgError, Unsupported, jnp, ob, sym
from ..contracts import Contracts
from ..interp import Interp

# name -> (how it is used, kind and shape of each argument in the documentation)
PRE = """
import jax
import jax.numpy as jnp
import differt2d.logic as L
import differt2d.geometry as G
import differt2d.scene as S
import differt2d.utils as U
import differt2d.optimize as O
KEY = jax.random.PRNGKey(1)
XYS = jnp.array([[0.0, 0.0], [1.0, 0.5]])
W = G.Wall(xys=XYS)
OBJ = {"Wall": W, "RIS": G.RIS(xys=XYS), "Vertex": G.Vertex(xy=jnp.array([0.3, 0.4])), "Ray": G.Ray(xys=XYS), "Point": G.Point(xy=jnp.array([0.3, 0.4]))}
SC = S.Scene.square_scene()
"""
F, I, B, K = "f", "i", "b", "k"
OPS = {}
for _n in ("sigmoid", "hard_sigmoid"):
    OPS[_n] = (f"lambda x, a: L.{_n}(x, a)", [(F, (3,)), (F, ())])
for _n in ("greater", "greater_equal", "less", "less_equal"):
    for _a in (True, False):
        OPS[f"{_n} (approx={_a})"] = (f"lambda x, y: L.{_n}(x, y, approx={_a})", [(F, (3,)), (F, (3,))])
for _n in ("logical_or", "logical_and"):
    OPS[f"{_n} (approx=True)"] = (f"lambda x, y: L.{_n}(x, y, approx=True)", [(F, (3,)), (F, (3,))])
    OPS[f"{_n} (approx=False)"] = (f"lambda x, y: L.{_n}(x, y, approx=False)", [(B, (3,)), (B, (3,))])
OPS["logical_not (approx=True)"] = ("lambda x: L.logical_not(x, approx=True)", [(F, (3,))])
OPS["logical_not (approx=False)"] = ("lambda x: L.logical_not(x, approx=False)", [(B, (3,))])
for _n in ("logical_all", "logical_any"):
    OPS[f"{_n} (approx=True)"] = (f"lambda x, y: L.{_n}(x, y, approx=True)", [(F, ()), (F, ())])
for _n in ("is_true", "is_false"):
    OPS[f"{_n} (approx=True)"] = (f"lambda x: L.{_n}(x, approx=True)", [(F, ())])
    OPS[f"{_n} (approx=False)"] = (f"lambda x: L.{_n}(x, approx=False)", [(B, ())])
OPS["segments_intersect"] = ("lambda p, q, r, s, t: G.segments_intersect(p, q, r, s, tol=t)", [(F, (2,))] * 4 + [(F, ())])
OPS["path_length"] = ("lambda p: G.path_length(p)", [(F, (3, 2))])
OPS["normalize"] = ("lambda v: G.normalize(v)", [(F, (2,))])
OPS["closest_point"] = ("lambda p, q: G.closest_point(p, q)", [(F, (3, 2)), (F, (2,))])
for _n in ("Point", "Vertex"):
    OPS[_n] = (f"lambda x: G.{_n}(xy=x)", [(F, (2,))])
for _n in ("Ray", "Wall"):
    OPS[_n] = (f"lambda x: G.{_n}(xys=x)", [(F, (2, 2))])
OPS["RIS"] = ("lambda x, p: G.RIS(xys=x, phi=p)", [(F, (2, 2)), (F, ())])
for _n in ("Path", "ImagePath", "FermatPath", "MinPath"):
    OPS[_n] = (f"lambda x, l: G.{_n}(xys=x, loss=l)", [(F, (3, 2)), (F, ())])
for _n, _p in (("Wall", 1), ("RIS", 1), ("Vertex", 0)):
    OPS[f"{_n}.parametric_to_cartesian"] = (f"lambda x: OBJ['{_n}'].parametric_to_cartesian(x)", [(F, (_p,))])
    OPS[f"{_n}.cartesian_to_parametric"] = (f"lambda x: OBJ['{_n}'].cartesian_to_parametric(x)", [(F, (2,))])
    OPS[f"{_n}.contains_parametric"] = (f"lambda x: OBJ['{_n}'].contains_parametric(x)", [(F, (_p,))])
    OPS[f"{_n}.intersects_cartesian"] = (f"lambda x, p: OBJ['{_n}'].intersects_cartesian(x, patch=p)", [(F, (2, 2)), (F, ())])
    OPS[f"{_n}.evaluate_cartesian"] = (f"lambda x: OBJ['{_n}'].evaluate_cartesian(x)", [(F, (3, 2))])
    OPS[f"{_n}.sample"] = (f"lambda k: OBJ['{_n}'].sample(k)", [(K, (2,))])
for _n in ("Wall", "RIS"):
    OPS[f"{_n}.image_of"] = (f"lambda x: OBJ['{_n}'].image_of(x)", [(F, (2,))])
for _n in ("ImagePath", "FermatPath", "MinPath"):
    OPS[f"{_n}.from_tx_objects_rx"] = (f"lambda t, r, k: G.{_n}.from_tx_objects_rx(t, [W], r, key=k)", [(F, (2,)), (F, (2,)), (K, (2,))])
_P = "G.Path(xys=jnp.array([[0.0, 1.0], [0.5, 0.25], [1.0, 1.0]]))"
OPS["Path.intersects_with_objects"] = (f"lambda c, p: {_P}.intersects_with_objects([W, W], c, patch=p)", [(I, (1,)), (F, ())])
OPS["Path.is_valid"] = (f"lambda c, t, p: {_P}.is_valid([W, W], c, [W], tol=t, patch=p)", [(I, (1,)), (F, ()), (F, ())])
OPS["parametric_to_cartesian"] = ("lambda q, t, r: G.parametric_to_cartesian([W, W], q, 2, t, r)", [(F, (2,)), (F, (2,)), (F, (2,))])
OPS["parametric_to_cartesian_from_slice"] = ("lambda q, s: G.parametric_to_cartesian_from_slice(W, q, s, 1)", [(F, (2,)), (I, ())])
for _n in ("transmitter", "receiver"):
    OPS[f"get_closest_{_n}"] = (f"lambda x: SC.get_closest_{_n}(x)", [(F, (2,))])
OPS["get_object"] = ("lambda i: SC.get_object(i)", [(I, ())])
OPS["from_walls_array"] = ("lambda x: S.Scene.from_walls_array(x)", [(F, (3, 2, 2))])
for _n in ("basic_scene", "square_scene", "square_scene_with_wall"):
    OPS[_n] = (f"lambda t, r: S.Scene.{_n}(tx_coords=t, rx_coords=r)", [(F, (2,)), (F, (2,))])
OPS["square_scene_with_obstacle"] = ("lambda r, t: S.Scene.square_scene_with_obstacle(r, tx_coords=t)", [(F, ()), (F, (2,))])
OPS["random_uniform_scene"] = ("lambda k: S.Scene.random_uniform_scene(2, 2, 2, key=k)", [(K, (2,))])


def variants(kind, shape):
    """(what is wrong, kind, shape) for one documented argument."""
    if kind == K:
        yield "an array of numbers", F, (2,)
        yield "an array of whole numbers of another size", I, (3,)
        return
    for k, nm in ((F, "real numbers"), (I, "whole numbers"), (B, "truth values")):
        if k != kind:
            yield nm, k, shape
    yield "a leading dimension more", kind, (3, *shape)
    if shape:
        yield "a dimension less", kind, shape[1:]
        yield "one entry more", kind, (*shape[:-1], shape[-1] + 1)
        yield "a trailing dimension more", kind, (*shape, 2)
    if shape and shape[-1] > 1:
        yield "a single entry", kind, (*shape[:-1], 1)
    if len(shape) > 1:
        yield "one row more", kind, (shape[0] + 1, *shape[1:])
    if len(shape) > 1 and shape[0] == 2:
        yield "a single row", kind, (1, *shape[1:])


def cases():
    """Every (operation, arguments, index of the wrong one or None, what is wrong)."""
    for n, (src, args) in OPS.items():
        yield n, src, args, None, "as documented"
        for i, (k, s) in enumerate(args):
            for what, vk, vs in variants(k, s):
                yield n, src, [*args[:i], (vk, vs), *args[i + 1 :]], i, what


ROWS = {(n, 0) for n in ("path_length", "closest_point", "Path", "ImagePath", "FermatPath", "MinPath", "from_walls_array")}

# accepted all the same: any number of entries, one kind taken for the other, numbers converted on the way
ACCEPTED = {
    ("sigmoid", 0): {"a single entry", "one entry more", "a leading dimension more", "a trailing dimension more", "a dimension less"},
    ("hard_sigmoid", 0): {"a single entry", "one entry more", "a leading dimension more", "a trailing dimension more", "a dimension less"},
    ("logical_or (approx=True)", 0): {"truth values"},
    ("logical_or (approx=True)", 1): {"truth values"},
    ("logical_or (approx=False)", 0): {"real numbers"},
    ("logical_or (approx=False)", 1): {"real numbers"},
    ("logical_and (approx=True)", 0): {"truth values"},
    ("logical_and (approx=True)", 1): {"truth values"},
    ("logical_and (approx=False)", 0): {"real numbers"},
    ("logical_and (approx=False)", 1): {"real numbers"},
    ("logical_not (approx=True)", 0): {"a single entry", "one entry more", "a leading dimension more", "a trailing dimension more", "a dimension less", "truth values"},
    ("logical_not (approx=False)", 0): {"a single entry", "one entry more", "real numbers", "a leading dimension more", "a trailing dimension more", "a dimension less"},
    ("logical_all (approx=True)", 0): {"truth values"},
    ("logical_all (approx=True)", 1): {"truth values"},
    ("logical_any (approx=True)", 0): {"truth values"},
    ("logical_any (approx=True)", 1): {"truth values"},
    ("is_true (approx=True)", 0): {"a leading dimension more", "truth values"},
    ("is_true (approx=False)", 0): {"a leading dimension more", "real numbers"},
    ("is_false (approx=True)", 0): {"a leading dimension more", "truth values"},
    ("is_false (approx=False)", 0): {"a leading dimension more", "real numbers"},
    ("Wall.parametric_to_cartesian", 0): {"one entry more"},
    ("Wall.contains_parametric", 0): {"one entry more"},
    ("RIS.parametric_to_cartesian", 0): {"one entry more"},
    ("RIS.contains_parametric", 0): {"one entry more"},
    ("Vertex.parametric_to_cartesian", 0): {"one entry more"},
    ("Vertex.contains_parametric", 0): {"one entry more"},
    ("ImagePath.from_tx_objects_rx", 1): {"a trailing dimension more"},
    ("ImagePath.from_tx_objects_rx", 2): {"an array of whole numbers of another size", "an array of numbers"},
    ("Path.intersects_with_objects", 0): {"one entry more", "real numbers", "truth values"},
    ("Path.is_valid", 0): {"one entry more"},
    ("parametric_to_cartesian", 0): {"one entry more", "a single entry"},
    ("parametric_to_cartesian_from_slice", 0): {"one entry more", "a single entry"},
    ("basic_scene", 0): {"whole numbers", "truth values"},
    ("basic_scene", 1): {"whole numbers", "truth values"},
    ("square_scene", 0): {"whole numbers", "truth values"},
    ("square_scene", 1): {"whole numbers", "truth values"},
    ("square_scene_with_wall", 0): {"whole numbers", "truth values"},
    ("square_scene_with_wall", 1): {"whole numbers", "truth values"},
    ("square_scene_with_obstacle", 0): {"whole numbers", "truth values"},
    ("square_scene_with_obstacle", 1): {"whole numbers", "truth values"},
}


# other documented ways of use: numbers for arrays of one, several leading dimensions, optional arguments
FORMS = """
lambda: L.sigmoid(0.5, 1.5)
lambda: L.sigmoid(jnp.ones((2, 3)), 1.5)
lambda: L.hard_sigmoid(0.5, 6.0)
lambda: L.activation(jnp.ones((4, 2)))
lambda: L.activation(jnp.ones(3), 2.0, function=L.sigmoid)
lambda: L.greater(1.0, 2.0)
lambda: L.greater(1.0, 2.0, approx=True)
lambda: L.greater_equal(jnp.ones((2, 3)), jnp.zeros((2, 3)))
lambda: L.less_equal(jnp.ones((2, 3)), jnp.zeros((2, 3)), approx=True, alpha=2.0, function=L.sigmoid)
lambda: L.logical_or(True, False)
lambda: L.logical_or(True, jnp.array(False), approx=False)
lambda: L.logical_and(0.5, jnp.array(0.25), approx=True)
lambda: L.logical_not(0.5, approx=True)
lambda: L.logical_not(True, approx=False)
lambda: L.logical_all(approx=False)
lambda: L.logical_any(jnp.array(True), jnp.array(False), approx=False)
lambda: L.is_true(jnp.array(0.7), approx=True)
lambda: L.is_true(jnp.array(0.7), 0.1, True)
lambda: L.is_false(jnp.array(True), approx=False)
lambda: L.true_value()
lambda: L.true_value(approx=True)
lambda: L.false_value(approx=False)
lambda: L.false_value(approx=True)
lambda: G.segments_intersect(XYS[0], XYS[1], XYS[1], XYS[0])
lambda: G.segments_intersect(XYS[0], XYS[1], XYS[1], XYS[0], 0.1, True)
lambda: G.segments_intersect(XYS[0], XYS[1], XYS[1], XYS[0], approx=False)
lambda: G.path_length(jnp.ones((1, 2)))
lambda: G.path_length(jnp.ones((7, 2)))
lambda: G.normalize(jnp.zeros(2))
lambda: G.closest_point(jnp.ones((1, 2)), jnp.zeros(2))
lambda: G.Point()
lambda: G.Vertex()
lambda: G.Ray()
lambda: G.RIS()
lambda: G.Point(xy=[1.0, 2.0])
lambda: G.Point(xy=(1.0, 2))
lambda: G.RIS(phi=0.5)
lambda: G.Path(xys=[[1.0, 2.0], [0.0, 1.0]], loss=0.5)
lambda: G.Path(xys=jnp.ones((2, 2))).length()
lambda: G.Path(xys=jnp.ones((5, 2))).bounding_box()
lambda: OBJ["Point"].bounding_box()
lambda: OBJ["Point"].center()
lambda: OBJ["Point"].grid()
lambda: OBJ["Wall"].center()
lambda: [OBJ["RIS"].get_location(x) for x in ("N", "E", "S", "W", "C", "NE", "NW", "SE", "SW")]
lambda: [f(OBJ["RIS"]) for f in (G.Ray.origin, G.Ray.dest, G.Ray.t, G.Wall.normal, G.Wall.get_vertices)]
lambda: [o.parameters_count() for o in (OBJ["Wall"], OBJ["RIS"], OBJ["Vertex"])]
lambda: [OBJ["Wall"].rotate(a, around=c) for a in (0.5, jnp.array(0.5)) for c in (None, jnp.ones(2), G.Point(xy=[1.0, 0.5]))]
lambda: [OBJ["Wall"].contains_parametric(jnp.ones(1), approx=a) for a in (None, True, False)]
lambda: [OBJ["Wall"].intersects_cartesian(XYS, approx=a) for a in (None, True, False)]
lambda: [OBJ["Vertex"].intersects_cartesian(XYS, 0.0, a) for a in (None, True, False)]
lambda: [OBJ["Vertex"].contains_parametric(jnp.ones(0), approx=a) for a in (None, True, False)]
lambda: [p.from_tx_objects_rx(t, o, r, key=KEY) for p in (G.ImagePath, G.FermatPath, G.MinPath) for o in ([], [W], (OBJ["RIS"],)) for t in (jnp.zeros(2), G.Point(xy=[0.5, 0.25])) for r in (jnp.ones(2),)]
lambda: G.Path.from_tx_objects_rx(jnp.zeros(2), [], G.Point())
lambda: G.ImagePath.from_tx_objects_rx(jnp.zeros(2), [W], G.Point())
lambda: [G.FermatPath.from_tx_objects_rx(G.Point(), [OBJ["Vertex"], W], jnp.ones(2), key=KEY).on_objects([OBJ["Vertex"], W], approx=a) for a in (None, True, False)]
lambda: [G.Path(xys=jnp.ones((3, 2))).on_objects([W], approx=a) for a in (None, True, False)]
lambda: [G.Path(xys=jnp.ones((2, 2))).on_objects([], approx=a) for a in (True, False)]
lambda: [G.Path(xys=jnp.ones((2, 2))).intersects_with_objects([W], jnp.zeros((0,), int), approx=a) for a in (None, True, False)]
lambda: [G.Path(xys=jnp.ones((2, 2))).is_valid([], jnp.zeros((0,), int), [], approx=a) for a in (None, True, False)]
lambda: [G.Path(xys=jnp.ones((3, 2))).is_valid([W, OBJ["RIS"]], jnp.array([1]), [OBJ["RIS"]], 0.5, patch=0.0, approx=a) for a in (True, False)]
lambda: G.parametric_to_cartesian([], jnp.zeros(0), 0, jnp.zeros(2), jnp.ones(2))
lambda: G.parametric_to_cartesian([W, OBJ["Vertex"], W], jnp.zeros(2), 3, jnp.zeros(2), jnp.ones(2))
lambda: G.parametric_to_cartesian_from_slice(W, jnp.ones(3), 2, 1)
lambda: [SC.get_object(i) for i in (0, 1, jnp.array(2))]
lambda: [SC.get_closest_transmitter(jnp.ones(2)), SC.get_closest_receiver(jnp.ones(2))]
lambda: SC.stacked_objects()
lambda: S.Scene.from_stacked_objects(SC.stacked_objects())
lambda: S.Scene.from_walls_array(jnp.ones((1, 2, 2))).bounding_box()
lambda: [S.Scene.square_scene_with_wall(), S.Scene.square_scene_with_wall(0.25), S.Scene.basic_scene(), S.Scene.square_scene_with_obstacle(), S.Scene.square_scene_with_obstacle(0.5)]
lambda: [S.Scene.random_uniform_scene(key=KEY), S.Scene.random_uniform_scene(0, 1, 2, key=KEY)]
lambda: S.Scene().bounding_box() if False else SC.grid(2, 3)
lambda: SC.with_transmitters(a=G.Point()).with_receivers().with_objects(W, OBJ["Vertex"]).filter_objects(lambda o: isinstance(o, G.Wall))
lambda: SC.add_objects(W).update_transmitters(b=G.Point()).update_receivers(c=G.Vertex())
lambda: SC.rename_transmitters(tx="a").rename_receivers(rx="b").get_closest_receiver(jnp.zeros(2))
lambda: [list(SC.all_paths(order=k, approx=a)) for k in (0, 1) for a in (True, False)]
lambda: list(SC.all_valid_paths(order=0, approx=True))
lambda: [list(SC.all_paths(p, order=1, key=KEY)) for p in (G.FermatPath, G.MinPath)]
lambda: SC.accumulate_over_paths(U.received_power, reduce_all=True, order=0)
lambda: list(SC.accumulate_over_paths(U.received_power, (0.25,), {"height": 0.5}, order=1))
lambda: [list(getattr(SC, "accumulate_on_" + n + "_grid_over_paths")(*SC.grid(2, 3), U.received_power, order=0, grad=g, value_and_grad=v)) for n in ("transmitters", "receivers") for g, v in ((False, False), (True, False), (False, True))]
lambda: [getattr(SC, "accumulate_on_" + n + "_grid_over_paths")(*SC.grid(2, 3), U.received_power, order=0, reduce_all=True, grad=g) for n in ("transmitters", "receivers") for g in (False, True)]
lambda: [OBJ[n].sample(KEY) for n in ("Wall", "RIS", "Vertex")]
lambda: U.received_power(G.Point(), G.Vertex(), G.Path(xys=jnp.ones((2, 2))), [])
lambda: U.received_power(G.Point(), G.Vertex(), G.ImagePath(xys=jnp.ones((3, 2))), (W,), 0.25, height=2.0)
lambda: [O.minimize(lambda x: jnp.sum(x**2), jnp.ones(n), steps=1) for n in (1, 3)]
lambda: O.minimize(lambda x, y: jnp.sum((x - y)**2), jnp.ones(2), args=(jnp.zeros(2),), steps=1)
lambda: O.minimize_random_uniform(lambda x: jnp.sum(x**2), KEY, 2, steps=1)
lambda: O.minimize_many_random_uniform(lambda x: jnp.sum(x**2), KEY, n=2, many=2, steps=1)
"""


def argument(k, s, name):
    if k == F:
        return sym(name, *s)
    return jnp.zeros(s, int) if k == I else jnp.ones(s, bool)


def world(c):
    w = c.world()
    return w, w.source(PRE + "OPS = {\n" + "".join(f"    {n!r}: {src},\n" for n, (src, _) in OPS.items()) + "}\nFORMS = [\n" + ",\n".join(FORMS.strip().split("\n")) + "\n]\n", "<client>")


@ob("C34", "ill-formed arguments are refused", "type system: every argument of the documented kind and dimensions replaced by one that is not; the call must not produce a value")
def _(c):
    w, m = world(c)
    bad, unknown, loc = [], [], None
    with Contracts():
        for n, src, args, i, what in cases():
            if i is None or what == "one row more" and (n, i) in ROWS or what in ACCEPTED.get((n, i), ()) or "from_tx" in n and args[i][0] in (I, B):
                continue
            vs = [m.vars["KEY"] if k == K else argument(k, s, f"a{j}") for j, (k, s) in enumerate(args)]
            try:
                w.call(m.vars["OPS"][n], *vs)
            except ProgError:
                c.case()
                continue
            except Unsupported as e:
                unknown.append(f"{n}, argument {i + 1}, {what}: {e}")
                continue
            loc = loc or Interp.entry
            bad.append(f"{n} accepts {what} as argument {i + 1} ({args[i][0]}{list(args[i][1])})")
    if bad:
        raise Mismatch("; ".join(bad[:4]) + (f" and {len(bad) - 4} more" if len(bad) > 4 else ""), loc)
    if unknown:
        raise Unsupported("; ".join(unknown[:4]))


@ob("C34", "documented uses are accepted", "type system: documented arguments, and the results they give, conform to the annotations in force")
def _(c):
    w, m = world(c)
    with Contracts():
        for n, src, args, i, what in cases():
            if i is None:
                w.call(m.vars["OPS"][n], *[m.vars["KEY"] if k == K else argument(k, s, f"a{j}") for j, (k, s) in enumerate(args)])
                c.case()
        for f in m.vars["FORMS"]:
            w.call(f)
            c.case()
