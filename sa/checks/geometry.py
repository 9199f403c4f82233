"""C05-C15, C22, C25, C27: objects, paths, gradients, boxes, power."""
from __future__ import annotations

import itertools

from .. import jaxmodel as J
from .. import nodes as N
from .. import spec as S
from ..arr import Arr, asarray
from ..canon import Canon, Elem, Special
from ..chk import Mismatch, ProgError, Ref, Undecided, Unsupported, _Unreliable, eq, first_loc, jnp, keyof, ob, refute, req, same, strict, sym
from ..contracts import Contracts
from ..interp import Choice, Inst
from .logic import _path_case, probe_scene


def walls(w, name="w"):
    """Every kind of wall the library offers."""
    Wall, RIS = w.get("geometry", "Wall"), w.get("geometry", "RIS")
    yield "Wall", w.call(Wall, xys=sym(name, 2, 2))
    yield "RIS", w.call(RIS, xys=sym(name, 2, 2), phi=sym("phi"))


# ---------------------------------------------------------------- C05
@ob("C05", "parametric to cartesian", "value numbering: p2c(s) = a + s(b-a); ends at 0 and 1")
def _(c):
    w = c.world()
    W = sym("w", 2, 2)
    for nm, o in walls(w):
        s = sym("s", 1)
        eq(w.m(o, "parametric_to_cartesian", s), W[0] + s[0] * (W[1] - W[0]), f"{nm}.parametric_to_cartesian")
        eq(w.m(o, "parametric_to_cartesian", jnp.array([0.0])), W[0], f"{nm}: parameter 0")
        eq(w.m(o, "parametric_to_cartesian", jnp.array([1.0])), W[1], f"{nm}: parameter 1")
        eq(w.m(o, "origin"), W[0], f"{nm}.origin")
        eq(w.m(o, "dest"), W[1], f"{nm}.dest")
        eq(w.m(o, "t"), W[1] - W[0], f"{nm}.t")
        eq(asarray(w.m(o, "parameters_count")), asarray(1), f"{nm}.parameters_count", kinds=False)
        vs = list(w.m(o, "get_vertices"))
        req(len(vs) == 2 and all(isinstance(v, Inst) for v in vs), f"{nm}.get_vertices: not two vertices")
        for i, v in enumerate(vs):
            req(w.I.isinst(v, w.get("geometry", "Vertex")), f"{nm}.get_vertices: not a Vertex")
            eq(w.at(v, "xy"), W[i], f"{nm}.get_vertices[{i}]")
        c.case(9)


@ob("C05", "cartesian to parametric", "value numbering: orthogonal projection; round trip is the identity on non-degenerate walls")
def _(c):
    w = c.world()
    W = sym("w", 2, 2)
    t = W[1] - W[0]
    for nm, o in walls(w):
        s, p, k = sym("s", 1), sym("p", 2), sym("k")
        eq(w.m(o, "cartesian_to_parametric", p), (S.dot(p - W[0], t) / S.dot(t, t)).reshape(1), f"{nm}.cartesian_to_parametric", generic=True)
        eq(w.m(o, "cartesian_to_parametric", w.m(o, "parametric_to_cartesian", s)), s, f"{nm}: round trip", generic=True)
        off = W[0] + s[0] * t + k * jnp.array([t[1], -t[0]])
        eq(w.m(o, "cartesian_to_parametric", off), s, f"{nm}: projection of an off-wall point", generic=True)
        c.case(3)


@ob("C05", "containment", "value numbering in both modes: contained iff 0 <= t <= 1, ends included")
def _(c):
    w = c.world()
    for nm, o in walls(w):
        s = sym("s", 1)
        for smooth in (True, False):
            L = S.Logic(smooth)
            eq(w.m(o, "contains_parametric", s, approx=smooth), S.contains(L, s[0]), f"{nm}.contains_parametric(approx={smooth})")
        for v, want in ((0.0, True), (1.0, True), (0.5, True), (-1e-6, False), (1.000001, False), (float("nan"), False), (float("inf"), False)):
            eq(w.m(o, "contains_parametric", jnp.array([v]), approx=False), Arr((), [N.const(want)], "b"), f"{nm}.contains_parametric({v})")
        c.case(9)


@ob("C05", "vertices", "a vertex has no parameter, contains everything and maps to its own location")
def _(c):
    w = c.world()
    V = w.get("geometry", "Vertex")
    v = w.call(V, xy=sym("v", 2))
    eq(asarray(w.m(v, "parameters_count")), asarray(0), "Vertex.parameters_count", kinds=False)
    eq(w.m(v, "parametric_to_cartesian", sym("z", 0)), sym("v", 2), "Vertex.parametric_to_cartesian")
    eq(w.m(v, "cartesian_to_parametric", sym("p", 2)), sym("z", 0), "Vertex.cartesian_to_parametric")
    for smooth in (True, False):
        eq(w.m(v, "contains_parametric", sym("z", 0), approx=smooth), S.Logic(smooth).true(), "Vertex.contains_parametric")
    c.case(5)


@ob("C05", "sampled points lie on the object", "a sample is the point of a uniform parameter in [0, 1]")
def _(c):
    w = c.world()
    key = J.r_key(sym("seed"))
    for nm, o in walls(w):
        s = w.m(o, "sample", key)
        t = w.m(o, "cartesian_to_parametric", s)
        cn = Canon(generic=True)
        u = w.list(Draws(s))
        req(len(u) == 1, f"{nm}.sample uses {len(u)} draws instead of one per parameter", first_loc(s.data[0]))
        eq(t, Arr((1,), [u[0]], "f"), f"{nm}.sample parameter", generic=True)
        req(u[0].attr[1][0] == "uniform", f"{nm}.sample: parameter is not uniform on [0, 1]")
        c.case()
    V = w.call(w.get("geometry", "Vertex"), xy=sym("v", 2))
    eq(w.m(V, "sample", key), sym("v", 2), "Vertex.sample")
    # any object: one draw per parameter
    for k, n in (("Blob", 1), ("BlobZ", 0), ("Blob2", 2)):
        o = w.blob("o0", k)
        s = w.m(o, "sample", key)
        u = w.list(Draws(s))
        req(len(u) == n, f"sample of an object of {n} parameters uses {len(u)} draws", first_loc(s.data[0]))
        req(all(x.attr[1][0] == "uniform" for x in u), f"sample of an object of {n} parameters: not uniform on [0, 1]")
        us = sorted(u, key=lambda x: repr(x.attr))
        eq(s, w.m(o, "parametric_to_cartesian", Arr((n,), us, "f")), f"sample of an object of {n} parameters", generic=True)
        c.case()
    c.case()


def Draws(a):
    out, seen = [], []
    cn = Canon()
    for n in N.walk(list(asarray(a).data)):
        if n.op == "app" and n.attr[0] == "draw":
            k = cn.key(n)
            if k not in seen:
                seen.append(k)
                out.append(n)
    return out


# ---------------------------------------------------------------- C06
@ob("C06", "mirror image", "value numbering: mirror formula, involution, fixed line, isometry, orientation and length independence")
def _(c):
    w = c.world()
    W, p, q, s, k = sym("w", 2, 2), sym("p", 2), sym("q", 2), sym("s"), sym("k")
    t = W[1] - W[0]
    for nm, o in walls(w):
        im = lambda x, o=o: w.m(o, "image_of", x)
        a = im(p)
        eq(a, S.mirror(W, p), f"{nm}.image_of", generic=True)
        eq(im(a), p, f"{nm}: image of the image", generic=True)
        eq(im(W[0] + s * t), W[0] + s * t, f"{nm}: image of a wall point", generic=True)
        d = a - im(q)
        eq(S.dot(d, d), S.dot(p - q, p - q), f"{nm}: distances", generic=True)
        mid = 0.5 * (a + p) - W[0]
        eq(S.cross(mid, t), asarray(0.0), f"{nm}: midpoint on the wall line", generic=True)
        eq(S.dot(a - p, t), asarray(0.0), f"{nm}: displacement orthogonal to the wall", generic=True)
        Wall = w.get("geometry", "Wall")
        for lab, xs in (("reversed", jnp.stack([W[1], W[0]])), ("lengthened", jnp.stack([W[0], W[0] + k * t])), ("slid", jnp.stack([W[0] + s * t, W[1] + s * t]))):
            eq(w.m(w.call(Wall, xys=xs), "image_of", p), a, f"{nm}: {lab} wall", generic=True)
        c.case(9)


@ob("C06", "normal", "unit vector orthogonal to the wall")
def _(c):
    w = c.world()
    W = sym("w", 2, 2)
    t = W[1] - W[0]
    for nm, o in walls(w):
        n = w.m(o, "normal")
        eq(S.dot(n, n), asarray(1.0), f"{nm}.normal length", generic=True)
        eq(S.dot(n, t), asarray(0.0), f"{nm}.normal direction", generic=True)
        c.case(2)
    v = sym("v", 2)
    u, l = w.list(w.call(w.get("geometry", "normalize"), v), 2)
    eq(l, jnp.sqrt(S.dot(v, v)), "normalize length", generic=True)
    eq(u * l, v, "normalize direction", generic=True)
    c.case(2)


@ob("C06", "specular residual of a wall", "value numbering: square of the violation of the reflection law; zero on every specular path; non-negative")
def _(c):
    w = c.world()
    Wall = w.get("geometry", "Wall")
    W, rp = sym("w", 2, 2), sym("r", 3, 2)
    o = w.call(Wall, xys=W)
    e = w.m(o, "evaluate_cartesian", rp)
    eq(e, S.wall_residual(W, rp), "Wall.evaluate_cartesian", generic=True)
    lo, _ = N.interval(e.data[0])
    if lo < 0:
        c.notes.append("residual not syntactically a square")
    # specular continuation of an arbitrary incoming ray
    n = S.wall_normal(W)
    i = rp[1] - rp[0]
    r = i - 2.0 * S.dot(i, n) * n
    k = N.var("k", lo=0)
    sp = jnp.stack([rp[0], rp[1], rp[1] + r])
    eq(w.m(o, "evaluate_cartesian", sp), asarray(0.0), "Wall residual of a specular path", generic=True)
    sc = sym("sc", lo=0.0)
    # straight transmission and back-scattering are not specular
    for lab, out in (("transmission", i), ("back-scattering", -i)):
        g = w.m(o, "evaluate_cartesian", jnp.stack([rp[0], rp[1], rp[1] + out]))
        req(not same(g, asarray(0.0), generic=True), f"Wall residual vanishes for {lab}", first_loc(g.data[0]))
    c.case(5)


@ob("C06", "residual of a reconfigurable surface", "value numbering: angle condition on the outgoing ray; no dependence on the incoming ray")
def _(c):
    w = c.world()
    RIS = w.get("geometry", "RIS")
    W, rp = sym("w", 2, 2), sym("r", 3, 2)
    o = w.call(RIS, xys=W, phi=sym("phi"))
    e = w.m(o, "evaluate_cartesian", rp)
    eq(e, S.ris_residual(W, sym("phi"), rp), "RIS.evaluate_cartesian", generic=True)
    rp2 = jnp.stack([sym("other", 2), rp[1], rp[2]])
    eq(w.m(o, "evaluate_cartesian", rp2), e, "RIS residual for another incoming ray", generic=True)
    c.case(2)


@ob("C06", "residual of a vertex", "constant zero")
def _(c):
    w = c.world()
    v = w.call(w.get("geometry", "Vertex"), xy=sym("v", 2))
    eq(w.m(v, "evaluate_cartesian", sym("r", 3, 2)), asarray(0.0), "Vertex.evaluate_cartesian")
    c.case()


# ---------------------------------------------------------------- C07
def seg(w, *P, **k):
    return w.call(w.get("geometry", "segments_intersect"), *P, **k)


@ob("C07", "exact intersection test", "value numbering over all cases incl. den = 0: both parameters in [-tol, 1+tol]")
def _(c):
    w = c.world()
    P = [sym(f"p{i}", 2) for i in range(4)]
    L = S.Logic(False)
    eq(seg(w, *P, approx=False), S.segments_intersect(L, *P), "segments_intersect (default tolerance)")
    eq(seg(w, *P, tol=sym("tol"), approx=False), S.segments_intersect(L, *P, tol=sym("tol")), "segments_intersect")
    c.case(2)


@ob("C07", "smooth intersection test", "value numbering: smooth counterpart for an unknown activation and for both library activations")
def _(c):
    w = c.world()
    P = [sym(f"p{i}", 2) for i in range(4)]
    a, act = sym("alpha", lo=0), S.opaque_act()
    eq(seg(w, *P, tol=sym("tol"), approx=True, alpha=a, function=act), S.segments_intersect(S.Logic(True, act, a), *P, tol=sym("tol")), "segments_intersect (activation)", generic=True)
    eq(seg(w, *P, approx=True), S.segments_intersect(S.Logic(True), *P), "segments_intersect (smooth)")
    eq(seg(w, *P, approx=True, function=w.get("logic", "sigmoid")), S.segments_intersect(S.Logic(True, S.sigmoid), *P), "segments_intersect (smooth, sigmoid)")
    c.case(3)


@ob("C07", "parallel and degenerate segments", "substitution of every parallel/degenerate family: constant false")
def _(c):
    w = c.world()
    p = [sym(f"p{i}", 2) for i in range(4)]
    k = sym("k")
    fam = {
        "parallel": (p[0], p[1], p[2], p[2] + k * (p[1] - p[0])),
        "collinear": (p[0], p[1], p[0] + sym("m") * (p[1] - p[0]), p[0] + k * (p[1] - p[0])),
        "identical": (p[0], p[1], p[0], p[1]),
        "reversed": (p[0], p[1], p[1], p[0]),
        "first degenerate": (p[0], p[0], p[2], p[3]),
        "second degenerate": (p[0], p[1], p[2], p[2]),
        "both degenerate": (p[0], p[0], p[0], p[0]),
    }
    for nm, P in fam.items():
        eq(seg(w, *P, approx=False), Arr((), [N.F], "b"), f"{nm} segments")
        eq(seg(w, *P, approx=True), asarray(0.0), f"{nm} segments (smooth)")
        eq(seg(w, *P, approx=True, function=w.get("logic", "sigmoid")), asarray(0.0), f"{nm} segments (smooth, sigmoid)")
        c.case(3)


@ob("C07", "symmetries", "value numbering of the implementation against itself under exchange of segments and ends")
def _(c):
    w = c.world()
    P = [sym(f"p{i}", 2) for i in range(4)]
    for smooth in (False, True):
        ref = seg(w, *P, approx=smooth)
        for nm, ix in (("exchanged segments", (2, 3, 0, 1)), ("first segment reversed", (1, 0, 2, 3)), ("second segment reversed", (0, 1, 3, 2)), ("both reversed", (1, 0, 3, 2))):
            eq(seg(w, *[P[i] for i in ix], approx=smooth), ref, f"{nm} (approx={smooth})")
            c.case()


@ob("C07", "walls obstruct with patch, vertices never", "value numbering in both modes")
def _(c):
    w = c.world()
    W, ray = sym("w", 2, 2), sym("r", 2, 2)
    for nm, o in walls(w):
        for smooth in (True, False):
            L = S.Logic(smooth)
            eq(w.m(o, "intersects_cartesian", ray, approx=smooth), S.wall_obstructs(L, W, ray, 0.0), f"{nm}.intersects_cartesian (default patch, approx={smooth})")
            eq(w.m(o, "intersects_cartesian", ray, patch=sym("patch"), approx=smooth), S.wall_obstructs(L, W, ray, sym("patch")), f"{nm}.intersects_cartesian (patch, approx={smooth})")
            eq(w.m(o, "intersects_cartesian", ray, 0.25, smooth), S.wall_obstructs(L, W, ray, S.N_(1, 4)), f"{nm}.intersects_cartesian (options by position, approx={smooth})")
            c.case(3)
    v = w.call(w.get("geometry", "Vertex"), xy=sym("v", 2))
    for smooth in (True, False):
        eq(w.m(v, "intersects_cartesian", ray, 0.25, smooth), S.Logic(smooth).false(), "Vertex.intersects_cartesian (options by position)")
        eq(w.m(v, "intersects_cartesian", ray, patch=sym("patch"), approx=smooth), S.Logic(smooth).false(), "Vertex.intersects_cartesian")
        c.case()


# ---------------------------------------------------------------- C08
def rays(w):
    Ray = w.get("geometry", "Ray")
    yield "Ray", w.call(Ray, xys=sym("w", 2, 2))
    yield from walls(w)


def centres(w):
    ce = sym("c", 2)
    yield "default", {}, jnp.array([0.0, 0.0])
    yield "None", {"around": None}, jnp.array([0.0, 0.0])
    yield "coordinates", {"around": ce}, ce
    for nm in ("Point", "Vertex"):
        yield nm, {"around": w.call(w.get("geometry", nm), xy=ce)}, ce
    yield "Node", {"around": w.call(w.client.vars["Node"], xy=ce)}, ce


def rot(a):
    c_, s_ = jnp.cos(a), jnp.sin(a)
    return jnp.stack([jnp.stack([c_, -s_]), jnp.stack([s_, c_])])


@ob("C08", "both points rotate about the centre", "value numbering: each end is R(p - c) + c")
def _(c):
    w = c.world()
    W, a = sym("w", 2, 2), sym("angle")
    R = rot(a)
    bad = None
    for nm, o in rays(w):
        for cn, kw, ce in centres(w):
            got = w.at(w.m(o, "rotate", a, **kw), "xys")
            pts = jnp.stack([jnp.matmul(R, W[i] - ce) + ce for i in range(2)])
            c.case()
            try:
                eq(got, pts, f"{nm}.rotate(around={cn})")
            except Mismatch as e:
                left = jnp.matmul(R, W - ce[None, :]) + ce[None, :]
                if same(got, left):
                    bad = Mismatch(f"{nm}.rotate(around={cn}): the rotation matrix multiplies the 2x2 array of points from the left, mixing the two points instead of rotating each: {e}", e.loc or "differt2d/geometry.py in Ray.rotate", sig="left-matmul")
                else:
                    raise
    if bad:
        raise bad


@ob("C08", "everything else is kept", "class and other fields unchanged, original untouched, zero angle is the identity, rotations compose")
def _(c):
    w = c.world()
    W, a, b = sym("w", 2, 2), sym("angle"), sym("beta")
    for nm, o in rays(w):
        for cn, kw, ce in centres(w):
            r = w.m(o, "rotate", a, **kw)
            req(isinstance(r, Inst) and r.cls is o.cls, f"{nm}.rotate returns {getattr(getattr(r, 'cls', None), '__name__', type(r).__name__)}")
            req(r is not o, f"{nm}.rotate returns the object itself")
            eq(w.at(o, "xys"), W, f"{nm}.rotate: original object")
            req(set(r.fields) == set(o.fields), f"{nm}.rotate: fields differ")
            for k, v in o.fields.items():
                if k != "xys":
                    eq(r.fields[k], v, f"{nm}.rotate: field {k}")
            eq(w.at(w.m(o, "rotate", asarray(0.0), **kw), "xys"), W, f"{nm}.rotate by 0 around {cn}")
            two = w.at(w.m(w.m(o, "rotate", a, **kw), "rotate", b, **kw), "xys")
            ca, sa, cb, sb = jnp.cos(a), jnp.sin(a), jnp.cos(b), jnp.sin(b)
            Rab = jnp.stack([jnp.stack([ca * cb - sa * sb, -(sa * cb + ca * sb)]), jnp.stack([sa * cb + ca * sb, ca * cb - sa * sb])])
            per = jnp.stack([jnp.matmul(Rab, W[i] - ce) + ce for i in range(2)])
            left = jnp.matmul(Rab, W - ce[None, :]) + ce[None, :]
            if not same(two, left):
                eq(two, per, f"{nm}.rotate twice around {cn}")
            c.case(4)


# ---------------------------------------------------------------- C09
PATHS = ("Path", "ImagePath", "FermatPath", "MinPath")


def ends(w, name):
    xy = sym(name, 2)
    yield "coordinates", xy
    yield "Point", w.call(w.get("geometry", "Point"), xy=xy)
    yield "Vertex", w.call(w.get("geometry", "Vertex"), xy=xy)
    yield "Node", w.call(w.client.vars["Node"], xy=xy)


def opt_kw(w, **kw):
    from ..libs import OptModel

    o = OptModel(("caller", 0))
    o.settings = ("caller", {})
    return {"key": J.r_key(sym("seed")), "optimizer": o, "steps": 2, **kw}


def path_objects(w, cls, n, kinds=None):
    if cls == "ImagePath":
        W, R = w.get("geometry", "Wall"), w.get("geometry", "RIS")
        return [w.call(W, xys=sym(f"w{i}_", 2, 2)) for i in range(n)]
    kinds = kinds or ["Blob", "BlobB", "BlobZ"]
    return [w.blob(f"o{i}", kinds[i % len(kinds)]) for i in range(n)]


@ob("C09", "end points and vertex count", "partition over path class x order x kind of end points: shape (n+2, 2), first = tx, last = rx")
def _(c):
    for cls in PATHS:
        for n in range(0, 4 if c.thorough else 3):
            w = c.world()
            P = w.get("geometry", cls)
            objs = path_objects(w, cls, n)
            kw = opt_kw(w) if cls in ("FermatPath", "MinPath") else {}
            for (tn, tx), (rn, rx) in itertools.product(ends(w, "tx"), ends(w, "rx")):
                if n == 2 and tn != rn:
                    continue
                for seq in (list, tuple):
                    if seq is tuple and (tn != "Point" or rn != "Point"):
                        continue
                    p = w.call(w.at(P, "from_tx_objects_rx"), tx, seq(objs), rx, **kw)
                    lab = f"{cls}, order {n}, ends {tn}/{rn}"
                    req(isinstance(p, Inst) and p.cls is P, f"{lab}: result is not a {cls}")
                    xys = w.at(p, "xys")
                    req(xys.shape == (n + 2, 2), f"{lab}: vertices of shape {xys.shape} instead of {(n + 2, 2)}", first_loc(xys.data[0]) if xys.data else None)
                    eq(xys[0], sym("tx", 2), f"{lab}: first vertex")
                    eq(xys[n + 1], sym("rx", 2), f"{lab}: last vertex")
                    if n == 0:
                        eq(w.at(p, "loss"), asarray(0.0), f"{lab}: loss")
                    c.case()
    # the same object visited several times, or standing at an end point
    for cls in PATHS:
        for pat in ((0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1), (0, 0, 0)):
            if cls in ("ImagePath",) and len(pat) > 2 and not c.thorough and pat != (0, 0, 1):
                continue
            w = c.world()
            base = path_objects(w, cls, max(pat) + 1)
            kw = opt_kw(w) if cls in ("FermatPath", "MinPath") else {}
            lab = f"{cls} over objects {list(pat)} (one object several times)"
            with c.soft(lab):
                p = w.call(w.at(w.get("geometry", cls), "from_tx_objects_rx"), sym("tx", 2), [base[i] for i in pat], sym("rx", 2), **kw)
                xys = w.at(p, "xys")
                req(xys.shape == (len(pat) + 2, 2), f"{lab}: vertices of shape {xys.shape} instead of {(len(pat) + 2, 2)}", first_loc(xys.data[0]) if xys.data else None)
                eq(xys[0], sym("tx", 2), f"{lab}: first vertex")
                eq(xys[len(pat) + 1], sym("rx", 2), f"{lab}: last vertex")
                if cls == "Path":
                    eq(xys[1:-1], jnp.stack([w.probe_p2c(base[i], jnp.array([0.5])) for i in pat]), f"{lab}: vertices")
                c.case()


@ob("C09", "default path visits the middle of each object in order", "value numbering with uninterpreted objects")
def _(c):
    w = c.world()
    P = w.get("geometry", "Path")
    for n in c.sizes([0, 1, 2, 3], 70):
        objs = path_objects(w, "Path", n, ["Blob", "BlobB"])
        p = w.call(w.at(P, "from_tx_objects_rx"), sym("tx", 2), objs, sym("rx", 2))
        want = [sym("tx", 2)] + [w.probe_p2c(o, jnp.array([0.5])) for o in objs] + [sym("rx", 2)]
        eq(w.at(p, "xys"), jnp.stack(want), f"Path.from_tx_objects_rx order {n}")
        c.case()


@ob("C09", "optimised paths visit each object in order", "identities: the vertex of a wall is on its line, the vertex of a corner is the corner, whatever the optimiser returns")
def _(c):
    w = c.world()
    Wall, RIS, Vertex = (w.get("geometry", n) for n in ("Wall", "RIS", "Vertex"))
    mk = {"W": lambda i: w.call(Wall, xys=sym(f"w{i}_", 2, 2)), "R": lambda i: w.call(RIS, xys=sym(f"w{i}_", 2, 2), phi=sym(f"phi{i}_")), "V": lambda i: w.call(Vertex, xy=sym(f"v{i}_", 2))}
    mixes = ["W", "V", "WV", "VW", "VV", "RV", "WW", "VWW", "WVW", "VVW"] + (["WVWV", "VVWW", "WWVW", "RVWV"] if c.thorough else [])
    for cls in ("FermatPath", "MinPath"):
        P = w.get("geometry", cls)
        for mix in mixes:
            objs = [mk[k](i) for i, k in enumerate(mix)]
            p = w.call(w.at(P, "from_tx_objects_rx"), sym("tx", 2), objs, sym("rx", 2), **opt_kw(w))
            xys = w.at(p, "xys")
            req(xys.shape == (len(mix) + 2, 2), f"{cls} over {mix}: vertices of shape {xys.shape}")
            for i, k in enumerate(mix):
                v = xys[i + 1]
                if k == "V":
                    eq(v, sym(f"v{i}_", 2), f"{cls} over {mix}: vertex {i + 1} (a corner)")
                else:
                    W = sym(f"w{i}_", 2, 2)
                    t, d = W[1] - W[0], v - W[0]
                    eq(t[0] * d[1] - t[1] * d[0], asarray(0.0), f"{cls} over {mix}: offset of vertex {i + 1} from the line of its wall")
                c.case()
            eq(xys[0], sym("tx", 2), f"{cls} over {mix}: first vertex")
            eq(xys[len(mix) + 1], sym("rx", 2), f"{cls} over {mix}: last vertex")


@ob("C09", "subclasses trace their own kind", "class of the result is the class asked for, for client subclasses")
def _(c):
    w = c.world()
    m = w.source("from differt2d.geometry import *\nfrom differt2d.geometry import Path, ImagePath, FermatPath, MinPath\nclass A(Path): pass\nclass B(ImagePath): pass\nclass C(FermatPath): pass\nclass D(MinPath): pass\n")
    for nm, base in zip("ABCD", PATHS):
        for n in (0, 1):
            objs = path_objects(w, base, n)
            kw = opt_kw(w) if base in ("FermatPath", "MinPath") else {}
            p = w.call(w.at(m.vars[nm], "from_tx_objects_rx"), sym("tx", 2), objs, sym("rx", 2), **kw)
            req(p.cls is m.vars[nm], f"subclass of {base}: result is a {p.cls.__name__}")
            c.case()


# ---------------------------------------------------------------- C10
def theta_split(objs, w, theta):
    out, j = [], 0
    for o in objs:
        n = w.I.call(w.I.getattr(o, "parameters_count"))
        n = int(asarray(n).data[0].attr)
        out.append(theta[j:j + n])
        j += n
    return out, j


def spec_xys(w, objs, theta, tx, rx):
    parts, _ = theta_split(objs, w, theta)
    return jnp.stack([tx] + [w.probe_p2c(o, t) for o, t in zip(objs, parts)] + [rx])


def spec_residual(w, objs, xys):
    s = asarray(0.0)
    for i, o in enumerate(objs):
        s = s + w.probe_eval(o, xys[i:i + 3, :])
    return s


def opt_configs(thorough):
    yield {"many": 1, "steps": 1}
    yield {"steps": 1}
    yield {"many": 2, "steps": 1}
    yield {"many": 1, "steps": 0}
    if thorough:
        yield {"many": 3, "steps": 2}


@ob("C10", "objective, unknowns and options", "value numbering against the optimiser applied to the documented objective, with uninterpreted objects and optimiser")
def _(c):
    combos = [("Blob",), ("BlobZ",), ("Blob2",), ("Blob", "BlobB"), ("BlobZ", "Blob"), ("Blob", "BlobZ"), ("Blob2", "Blob"), ("Blob", "BlobZ", "Blob2")]
    combos += [(("BlobZ", "Blob2", "Blob", "BlobB") * n)[:n] for n in c.sizes([4, 5], 8)]
    for cls in ("FermatPath", "MinPath"):
        for kinds in combos:
            for cfg in opt_configs(c.thorough):
                if len(kinds) > 2 and cfg != {"many": 1, "steps": 1} and not (c.thorough and len(kinds) == 3):
                    continue
                w = c.world()
                objs = [w.blob(f"o{i}", k) for i, k in enumerate(kinds)]
                tx, rx = sym("tx", 2), sym("rx", 2)
                kw = opt_kw(w, **cfg)
                p = w.call(w.at(w.get("geometry", cls), "from_tx_objects_rx"), tx, objs, rx, **kw)
                key = kw.pop("key")
                kw.setdefault("many", 1)  # documented
                n = sum(int(asarray(w.I.call(w.I.getattr(o, "parameters_count"))).data[0].attr) for o in objs)

                def obj_fun(theta):
                    xys = spec_xys(w, objs, theta, tx, rx)
                    return S_len(xys) if cls == "FermatPath" else spec_residual(w, objs, xys)

                theta, loss = w.list(w.call(w.get("optimize", "minimize_many_random_uniform"), obj_fun, key, n, **kw), 2)
                lab = f"{cls} over {'+'.join(kinds)}, {cfg}"
                xys = spec_xys(w, objs, theta, tx, rx)
                eq(w.at(p, "xys"), xys, f"{lab}: vertices", generic=True)
                try:
                    with strict():
                        eq(w.at(p, "loss"), spec_residual(w, objs, xys), f"{lab}: loss", generic=True)
                except (Undecided, Mismatch):
                    if cls != "MinPath":
                        raise
                    # the minimised value is the residual at the solution
                    eq(w.at(p, "loss"), loss, f"{lab}: loss", generic=True)
                c.case()


@ob("C10", "default options", "counting the optimiser updates and the starts when the caller gives no option")
def _(c):
    for cls in ("FermatPath", "MinPath"):
        for kinds in (("Blob",), ("Blob2",), ("Blob", "BlobB"), ("Blob", "BlobZ", "Blob2")):
            w = c.world()
            objs = [w.blob(f"o{i}", k) for i, k in enumerate(kinds)]
            kw = opt_kw(w)
            kw.pop("steps")
            p = w.call(w.at(w.get("geometry", cls), "from_tx_objects_rx"), sym("tx", 2), objs, sym("rx", 2), **kw)
            starts, steps = set(), set()
            for m in N.walk(w.at(p, "xys").data):
                if m.op == "app" and m.attr[0] == "draw":
                    starts.add(m.uid)
                if m.op == "app" and m.attr[0] == "opt_upd":
                    steps.add(m.uid)
            n = sum({"Blob": 1, "BlobB": 1, "BlobZ": 0, "Blob2": 2}[k] for k in kinds)
            lab = f"{cls} over {'+'.join(kinds)}, no option"
            req(len(starts) == n, f"{lab}: {len(starts)} random starting values instead of {n} (a single trial)")
            req(len(steps) == 100 * n, f"{lab}: {len(steps)} updates instead of the default 100 steps for {n} unknowns")
            c.case()


def S_len(xys):
    """Sum of distances, with the zero-safe square root (same value)."""
    s = asarray(0.0)
    for i in range(xys.shape[0] - 1):
        d = xys[i + 1] - xys[i]
        q = S.dot(d, d)
        z = q == 0.0
        s = s + jnp.where(z, 0.0, jnp.sqrt(jnp.where(z, 1.0, q)))
    return s


@ob("C10", "parametric vertices", "value numbering: one separate block of unknowns per object, in order")
def _(c):
    w = c.world()
    f = w.get("geometry", "parametric_to_cartesian")
    for kinds in itertools.chain.from_iterable(itertools.product(("Blob", "BlobZ", "Blob2"), repeat=k) for k in ((0, 1, 2, 3, 4) if c.thorough else (0, 1, 2, 3))):
        objs = [w.blob(f"o{i}", k) for i, k in enumerate(kinds)]
        n = sum({"Blob": 1, "BlobZ": 0, "Blob2": 2}[k] for k in kinds)
        th = sym("th", n)
        got = w.call(f, objs, th, len(objs), sym("tx", 2), sym("rx", 2))
        eq(got, spec_xys(w, objs, th, sym("tx", 2), sym("rx", 2)), f"parametric_to_cartesian over {kinds}")
        c.case()


# ---------------------------------------------------------------- C11
def image_spec(ws, tx, rx):
    ims, p = [], tx
    for W in ws:
        p = S.mirror(W, p)
        ims.append(p)
    out, p = [], rx
    for W, m in zip(reversed(ws), reversed(ims)):
        d, t = m - p, W[1] - W[0]
        p = p + S.cross(W[0] - p, t) / S.cross(d, t) * d
        out.append(p)
    return jnp.stack([tx] + out[::-1] + [rx])


@ob("C11", "vertices", "value numbering: unfolded straight line cut by each wall line, in order")
def _(c):
    for n in range(1, 4 if c.thorough else 3):
        w = c.world()
        P = w.get("geometry", "ImagePath")
        for kinds in itertools.product(("Wall", "RIS"), repeat=n):
            if len(set(kinds)) > 1:
                continue
            ws = [sym(f"w{i}_", 2, 2) for i in range(n)]
            objs = [w.call(w.get("geometry", k), xys=W, **({"phi": sym(f"phi{i}")} if k == "RIS" else {})) for i, (k, W) in enumerate(zip(kinds, ws))]
            for en, (tx, rx) in (("coordinates", (sym("tx", 2), sym("rx", 2))), ("points", tuple(w.call(w.get("geometry", "Point"), xy=sym(x, 2)) for x in ("tx", "rx")))):
                p = w.call(w.at(P, "from_tx_objects_rx"), tx, objs, rx)
                eq(w.at(p, "xys"), image_spec(ws, sym("tx", 2), sym("rx", 2)), f"ImagePath over {kinds}, ends given as {en}", generic=True)
                c.case()


def axis_wall(i):
    """Walls of a corridor: symbolic place, fixed direction."""
    h, z, o = sym(f"h{i}"), asarray(0.0), asarray(1.0)
    return jnp.stack([jnp.stack([z, h]), jnp.stack([o, h])]) if i % 3 != 1 else jnp.stack([jnp.stack([h, z]), jnp.stack([h, o])])


@ob("C11", "vertices of longer paths", "value numbering over axis-aligned walls at symbolic places")
def _(c):
    for n in c.sizes([3, 4, 5], 8):
        w = c.world()
        ws = [axis_wall(i) for i in range(n)]
        objs = [w.call(w.get("geometry", "Wall"), xys=W) for W in ws]
        p = w.call(w.at(w.get("geometry", "ImagePath"), "from_tx_objects_rx"), sym("tx", 2), objs, sym("rx", 2))
        eq(w.at(p, "xys"), image_spec(ws, sym("tx", 2), sym("rx", 2)), f"ImagePath over {n} walls", generic=True)
        c.case()


@ob("C11", "coinciding inputs", "value numbering when the two ends coincide, walls repeat or share corners, or an end is a corner")
def _(c):
    w = c.world()
    a, b, d, tx, rx = (sym(x, 2) for x in ("a", "b", "d", "tx", "rx"))
    A_, B_, C_ = jnp.stack([a, b]), jnp.stack([b, d]), jnp.stack([b, a])
    h0, h1 = axis_wall(0), axis_wall(1)
    for nm, ws, s, e in (
        ("coinciding ends", [A_], tx, tx),
        ("coinciding ends, two walls", [A_, sym("z", 2, 2)], tx, tx),
        ("the same wall twice", [A_, A_], tx, rx),
        ("the same wall in both directions", [A_, C_], tx, rx),
        ("walls sharing a corner", [A_, B_], tx, rx),
        ("a wall met again after another one", [h0, h1, h0], tx, rx),
        ("the same wall three times", [h0, h0, h0], tx, rx),
        ("transmitter at a corner of another wall", [A_, B_], d, rx),
        ("receiver at a corner of another wall", [A_, B_], tx, a),
        ("parallel walls, coinciding ends", [h0, axis_wall(2)], tx, tx),
        ("no wall, coinciding ends", [], tx, tx),
    ):
        one = {}
        for objs in ([w.call(w.get("geometry", "Wall"), xys=W) for W in ws], [one.setdefault(id(W), w.call(w.get("geometry", "Wall"), xys=W)) for W in ws]):
            p = w.call(w.at(w.get("geometry", "ImagePath"), "from_tx_objects_rx"), s, objs, e)
            eq(w.at(p, "xys"), image_spec(ws, s, e), f"ImagePath, {nm}", generic=True)
            c.case()


@ob("C11", "on the wall lines and specular", "each vertex on its own line; images of successive walls aligned (self-certifying identities on the result)")
def _(c):
    for n in (1, 2):
        w = c.world()
        ws = [sym(f"w{i}_", 2, 2) for i in range(n)]
        objs = [w.call(w.get("geometry", "Wall"), xys=W) for W in ws]
        p = w.call(w.at(w.get("geometry", "ImagePath"), "from_tx_objects_rx"), sym("tx", 2), objs, sym("rx", 2))
        xys = w.at(p, "xys")
        for i, W in enumerate(ws):
            eq(S.cross(xys[i + 1] - W[0], W[1] - W[0]), asarray(0.0), f"vertex {i + 1} on the line of wall {i}", generic=True)
            # reflection law without square roots: mirror of the previous vertex is aligned with the outgoing ray
            m = S.mirror(W, xys[i])
            eq(S.cross(xys[i + 1] - m, xys[i + 2] - xys[i + 1]), asarray(0.0), f"reflection law at vertex {i + 1}", generic=True)
            c.case(2)


@ob("C11", "loss", "value numbering: sum of the residuals of the objects at consecutive vertex triples")
def _(c):
    for n in c.sizes([1, 2, 3], 6):
        w = c.world()
        # symbolic walls for short paths, axis-aligned ones for longer paths
        ws = [sym(f"w{i}_", 2, 2) if n < 3 else axis_wall(i) for i in range(n)]
        for kind in ("Wall", "RIS"):
            objs = [w.call(w.get("geometry", kind), xys=W, **({"phi": sym(f"phi{i}")} if kind == "RIS" else {})) for i, W in enumerate(ws)]
            p = w.call(w.at(w.get("geometry", "ImagePath"), "from_tx_objects_rx"), sym("tx", 2), objs, sym("rx", 2))
            xys = w.at(p, "xys")
            want = asarray(0.0)
            for i, o in enumerate(objs):
                want = want + w.m(o, "evaluate_cartesian", xys[i:i + 3, :])
            eq(w.at(p, "loss"), want, f"ImagePath.loss over {n} {kind}", generic=True)
            c.case()


def finite(a, what):
    cn = Canon()
    for e in asarray(a).data:
        for l in _leaves(cn.r(e)):
            if isinstance(l, Special):
                raise Mismatch(f"{what}: may be {l.name}", first_loc(e))
        for n in N.walk([e]):
            if n.op == "inv":
                z = cn.r(n.args[0])
                if z.v is None and isinstance(z.leaf, Elem) and not z.leaf.d:
                    raise Mismatch(f"{what}: division by zero", n.loc)


def _leaves(m):
    from ..canon import leaves

    return [x for x in leaves(m)]


@ob("C11", "ray parallel to a wall", "substitution of the parallel families: no division by zero reaches a vertex")
def _(c):
    w = c.world()
    Wall = w.get("geometry", "Wall")
    a = sym("a", 2)
    b = sym("b")
    horiz = jnp.stack([jnp.array([0.0, 0.0]), jnp.array([1.0, 0.0])])
    fams = {
        "image at the height of the receiver": (horiz, jnp.stack([a[0], -b]), jnp.stack([a[1], b])),
        "image at the receiver": (horiz, jnp.stack([a[0], -b]), jnp.stack([a[0], b])),
        "zero-length wall": (jnp.stack([a, a]), sym("tx", 2), sym("rx", 2)),
        "both ends on the wall": (horiz, jnp.stack([a[0], asarray(0.0)]), jnp.stack([a[1], asarray(0.0)])),
        "coinciding ends on the wall": (horiz, jnp.stack([a[0], asarray(0.0)]), jnp.stack([a[0], asarray(0.0)])),
    }
    for nm, (W, tx, rx) in fams.items():
        p = w.call(w.at(w.get("geometry", "ImagePath"), "from_tx_objects_rx"), tx, [w.call(Wall, xys=W)], rx)
        finite(w.at(p, "xys"), f"{nm}: vertices")
        finite(w.at(p, "loss"), f"{nm}: loss")
        c.case(2)
    for nm, (W, tx, rx) in fams.items():
        p = w.call(w.at(w.get("geometry", "ImagePath"), "from_tx_objects_rx"), tx, [w.call(Wall, xys=W), w.call(Wall, xys=sym("z", 2, 2))], rx)
        finite(w.at(p, "xys"), f"{nm}, then another wall: vertices")
        c.case()


# ---------------------------------------------------------------- C12
@ob("C12", "length", "value numbering in all configurations: sum of Euclidean distances")
def _(c):
    w = c.world()
    for n in c.sizes([2, 3, 4, 5], 34):
        x = sym("x", n, 2)
        eq(w.call(w.get("geometry", "path_length"), x), S.length(x), f"path_length of {n} points")
        for cls in PATHS:
            p = w.call(w.get("geometry", cls), xys=x)
            eq(w.m(p, "length"), S.length(x), f"{cls}.length of {n} points")
            c.case()
        c.case()


@ob("C12", "coinciding vertices", "substitution: coinciding vertices contribute exactly zero")
def _(c):
    w = c.world()
    a, b = sym("a", 2), sym("b", 2)
    for nm, pts, want in (("all equal", [a, a, a], asarray(0.0)), ("repeat first", [a, a, b], S.length(jnp.stack([a, b]))), ("repeat last", [a, b, b], S.length(jnp.stack([a, b]))), ("there and back", [a, b, a], 2.0 * S.length(jnp.stack([a, b])))):
        eq(w.call(w.get("geometry", "path_length"), jnp.stack(pts)), want, f"path_length, {nm}")
        c.case()


# ---------------------------------------------------------------- C13, C14
def cands(nobj, hi):
    for seqs in S.candidates(nobj, 0, hi):
        yield from seqs


def _validity(c, which):
    a, act = sym("alpha"), S.opaque_act()
    for smooth in (True, False):
        w = c.world()
        for nobj in (1, 2, 3):
            for cand in cands(nobj, 3 if c.thorough or nobj < 3 else 2):
                for kw in ({}, {"alpha": a, "function": act}):
                    L = S.Logic(smooth, kw.get("function"), kw.get("alpha"))
                    for d in (True, False):
                        if kw == {} and not d:
                            continue
                        for nm, f, want in _path_case(c, w, L, cand, nobj, smooth, kw, "", d):
                            if nm in which:
                                eq(f(), want, f"Path.{nm}, candidate {list(cand)} of {nobj} objects, approx={smooth}")
                                c.case()


@ob("C13", "validity is the conjunction", "value numbering with uninterpreted objects: on-objects, unobstructed, converged, with the options given")
def _(c):
    _validity(c, ("on_objects", "is_valid"))


@ob("C13", "guarded sizes", "same, for object counts and orders on both sides of every integer the sources compare with")
def _(c):
    for smooth in (True, False):
        w = c.world()
        L = S.Logic(smooth)
        for n in c.sizes([4], 24):
            cand = tuple(i % n for i in range(n))
            for nm, f, want in _path_case(c, w, L, cand if smooth is False else cand[:4], n, smooth, {}, "", True):
                eq(f(), want, f"Path.{nm}, order {len(cand)}, {n} objects")
                c.case()


def _call_forms(c, which):
    """Objects in lists and tuples, options by keyword and by position."""
    for smooth in (True, False):
        w = c.world()
        L = S.Logic(smooth)
        for seq in (list, tuple):
            for pos in (False, True):
                for cand in ((), (1,), (0, 2), (2, 0, 1)):
                    for nm, f, want in _path_case(c, w, L, cand, 3, smooth, {}, "", False, None, seq, pos):
                        if nm in which:
                            eq(f(), want, f"Path.{nm}, candidate {list(cand)} of a {seq.__name__} of 3 objects{', options by position' * pos}, approx={smooth}")
                            c.case()


@ob("C13", "forms of calls", "same, for objects in lists and tuples and options given by position")
def _(c):
    _call_forms(c, ("on_objects", "is_valid"))


@ob("C14", "forms of calls", "same, for objects in lists and tuples and options given by position")
def _(c):
    _call_forms(c, ("intersects_with_objects",))


@ob("C14", "many objects", "same, for indices that do not fit in a byte")
def _(c):
    w = c.world()
    for smooth in (True, False):
        # corners never obstruct: only the objects about these indices matter
        for n, cand in ((131, (129,)), (131, (130, 1)), (260, (257, 128)), (260, (1, 258, 127))):
            near = {x + d for x in (1, 128, 257) for d in (-1, 0, 1, 2)}
            kinds = ["Blob" if i in near else "Vertex" for i in range(n)]
            for nm, f, want in _path_case(c, w, S.Logic(smooth), cand, n, smooth, {}, "", True, kinds):
                if nm == "intersects_with_objects":
                    eq(f(), want, f"Path.{nm}, candidate {list(cand)} of {n} objects, approx={smooth}")
                    c.case()


def _library_kinds(c, which):
    """Objects of the library at every position of the path and of the scene."""
    for smooth in (True, False):
        w = c.world()
        L = S.Logic(smooth)
        one = [("Blob",) * k + (x,) + ("Blob",) * (n - 1 - k) for n in ((1, 2, 3, 4) if c.thorough else (1, 2, 3)) for k in range(n) for x in ("RIS", "Vertex", "Wall")]
        for kinds in one + [("RIS", "Wall"), ("Vertex", "RIS"), ("Wall", "Vertex"), ("Vertex", "Wall", "Vertex")]:
            n = len(kinds)
            for cand in {tuple(range(n)), tuple(range(n))[::-1], (n - 1,)}:
                if len(cand) > 2 and cand[0] and not c.thorough:
                    continue
                for nm, f, want in _path_case(c, w, L, cand, n, smooth, {}, "", True, kinds):
                    if nm in which:
                        with c.soft(f"{nm} over {'+'.join(kinds)}"):
                            eq(f(), want, f"Path.{nm}, candidate {list(cand)} of {'+'.join(kinds)}, approx={smooth}", generic=True)
                        c.case()


@ob("C13", "library objects", "same with walls, surfaces and vertices at every position, against their own containment and obstruction")
def _(c):
    _library_kinds(c, ("on_objects", "is_valid"))


@ob("C14", "library objects", "same with walls, surfaces and vertices at every position, against their own obstruction")
def _(c):
    _library_kinds(c, ("intersects_with_objects",))


@ob("C13", "undefined counts as invalid", "substitution of NaN losses: constant zero / false")
def _(c):
    w = c.world()
    Path, Wall = w.get("geometry", "Path"), w.get("geometry", "Wall")
    o = w.call(Wall, xys=sym("w", 2, 2))
    pc = jnp.array([0], dtype=int)
    p = w.call(Path, xys=sym("q", 3, 2), loss=jnp.array(float("nan")))
    eq(w.m(p, "is_valid", [o], pc, [o], approx=False), Arr((), [N.F], "b"), "is_valid with NaN loss")
    eq(w.m(p, "is_valid", [o], pc, [o], approx=True), asarray(0.0), "is_valid with NaN loss (smooth)")
    q = w.call(Path, xys=Arr((3, 2), [N.Node("nan")] * 6, "f"), loss=jnp.array(0.0))
    eq(w.m(q, "is_valid", [o], pc, [o], approx=False), Arr((), [N.F], "b"), "is_valid with NaN vertices")
    eq(w.m(q, "is_valid", [o], pc, [o], approx=True), asarray(0.0), "is_valid with NaN vertices (smooth)")
    c.case(4)
    nan = N.Node("nan")
    bl = [w.blob(f"o{i}") for i in range(3)]
    for cls in PATHS:
        for k in range(4):
            cand = jnp.array(list(range(k)), dtype=int)
            for nm, p in (("loss", w.call(w.get("geometry", cls), xys=sym("q", k + 2, 2), loss=Arr((), [nan], "f"))),):
                for objs in ([], bl[:k]) if k == 0 else (bl[:k], bl):
                    for smooth in (True, False):
                        got = w.m(p, "is_valid", objs, cand, bl[:k], approx=smooth)
                        eq(got, asarray(0.0) if smooth else Arr((), [N.F], "b"), f"{cls}.is_valid, {k} interactions, {len(objs)} objects, NaN {nm}, approx={smooth}")
                        c.case()
    # one undefined vertex among defined ones
    for cls in PATHS:
        for kinds in (("Wall",), ("Wall", "Wall"), ("RIS", "Wall"), ("Wall", "Vertex"), ("Vertex", "RIS"), ("Wall", "RIS", "Wall"), ("Vertex", "Wall", "Vertex")):
            n = len(kinds)
            objs = [w.call(w.get("geometry", k), **({"xy": sym(f"w{i}_", 2)} if k == "Vertex" else {"xys": sym(f"w{i}_", 2, 2)} | ({"phi": sym(f"phi{i}")} if k == "RIS" else {}))) for i, k in enumerate(kinds)]
            cand = jnp.array(list(range(n)), dtype=int)
            for j in range(n):
                if kinds[j] == "Vertex":
                    continue  # contains every point
                for bad in ((0,), (1,), (0, 1)):
                    x = sym("q", n + 2, 2)
                    for b in bad:
                        x.data[2 * (j + 1) + b] = nan
                    p = w.call(w.get("geometry", cls), xys=x, loss=jnp.array(0.0))
                    for smooth in (True, False):
                        lab = f"{cls}.is_valid over {'+'.join(kinds)}, vertex {j + 1} undefined ({'xy'[bad[0]] if len(bad) == 1 else 'x and y'}), approx={smooth}"
                        with c.soft(lab):
                            eq(w.m(p, "is_valid", objs, cand, objs, approx=smooth), asarray(0.0) if smooth else Arr((), [N.F], "b"), lab)
                            c.case()


@ob("C13", "line of sight", "value numbering: with nothing to interact with, only obstruction and convergence decide")
def _(c):
    w = c.world()
    none = jnp.array([], dtype=int)
    for smooth in (True, False):
        L = S.Logic(smooth)
        for cls in PATHS:
            x, loss = sym("q", 2, 2), sym("loss")
            p = w.call(w.get("geometry", cls), xys=x, loss=loss)
            for tol in (None, sym("tol")):
                kw = {} if tol is None else {"tol": tol}
                conv = L.less(loss, S.N_(1, 100) if tol is None else tol)
                for objs in ([], (), [w.blob("o0")]):
                    want = L.all(conv, *[L.not_(w.probe_truth("intersects", o, (x, asarray(0.0)), smooth, {})) for o in objs])
                    eq(w.m(p, "is_valid", objs, none, [], approx=smooth, **kw), jnp.nan_to_num(want) if smooth else want, f"{cls}.is_valid, line of sight, {len(objs)} objects, approx={smooth}{', tol' if kw else ''}")
                    c.case()


@ob("C13", "path classes share the validity test", "every path class and library object kind")
def _(c):
    for smooth in (True, False):
        w = c.world()
        L = S.Logic(smooth)
        W = sym("w", 2, 2)
        for cls in PATHS:
            x, loss = sym("q", 3, 2), sym("loss")
            p = w.call(w.get("geometry", cls), xys=x, loss=loss)
            for nm, o in walls(w):
                other = w.call(w.get("geometry", "Wall"), xys=sym("z", 2, 2))
                v = w.call(w.get("geometry", "Vertex"), xy=sym("v", 2))
                objs = [o, other, v]
                t = W[1] - W[0]
                q = S.dot(t, t)
                par = S.dot(x[1] - W[0], t) / jnp.where(q == 0.0, 1.0, q)
                hit = L.any(*[S.wall_obstructs(L, sym("z", 2, 2), x[i:i + 2, :], 0.0) for i in range(2)])
                want = L.all(S.contains(L, par), L.not_(hit), L.less(loss, S.N_(1, 100)))
                got = w.m(p, "is_valid", objs, jnp.array([0], dtype=int), [o], approx=smooth)
                if smooth:
                    want = jnp.nan_to_num(want)
                eq(got, want, f"{cls}.is_valid on a {nm} (approx={smooth})", generic=True)
                c.case()


@ob("C14", "every segment against every non-adjacent object", "value numbering with uninterpreted objects, for every candidate")
def _(c):
    _validity(c, ("intersects_with_objects",))


@ob("C14", "guarded sizes", "same, for object counts and orders on both sides of every integer the sources compare with")
def _(c):
    for smooth in (True, False):
        w = c.world()
        L = S.Logic(smooth)
        for n in c.sizes([4, 5], 130):
            for cand in {(0,), (n - 1,), (1, 0, n - 1), tuple(i % n for i in range(min(n, 12)))} if n < 41 else {(), (0,), (n - 1,)}:
                for nm, f, want in _path_case(c, w, L, cand, n, smooth, {}, "", True):
                    if nm == "intersects_with_objects":
                        eq(f(), want, f"Path.{nm}, candidate {list(cand)} of {n} objects, approx={smooth}")
                        c.case()


@ob("C14", "an object listed twice", "value numbering: objects are designated by their index in the list, not by what they are")
def _(c):
    for smooth in (True, False):
        w = c.world()
        L = S.Logic(smooth)
        Path = w.get("geometry", "Path")
        a, b = w.blob("o0"), w.blob("o1")
        wall = w.call(w.get("geometry", "Wall"), xys=sym("w", 2, 2))
        for objs, cands in (([a, a], [(), (0,), (1,), (0, 1)]), ([a, b, a], [(0,), (2, 1), (0, 1, 2)]), ([wall, wall], [(), (0,), (1,)])):
            for ci in cands:
                q = sym("q", len(ci) + 2, 2)
                p = w.call(Path, xys=q)
                near = lambda i: {ci[k] for k in (i - 1, i) if 0 <= k < len(ci)}
                tst = lambda o, sg: S.wall_obstructs(L, sym("w", 2, 2), sg, 0.0) if o is wall else w.probe_truth("intersects", o, (sg, asarray(0.0)), smooth, {})
                hits = [tst(o, q[i : i + 2, :]) for i in range(len(ci) + 1) for j, o in enumerate(objs) if j not in near(i)]
                got = w.m(p, "intersects_with_objects", objs, jnp.array(list(ci), dtype=int), approx=smooth)
                eq(got, L.any(*hits) if hits else L.false(), f"Path.intersects_with_objects, {len(objs)} objects, the first of them listed twice, candidate {list(ci)}, approx={smooth}")
                c.case()


@ob("C14", "paths longer than the candidate list of objects", "objects not interacting are tested on all segments; no object at all never obstructs")
def _(c):
    for smooth in (True, False):
        w = c.world()
        L = S.Logic(smooth)
        Path = w.get("geometry", "Path")
        p = w.call(Path, xys=sym("q", 2, 2))
        eq(w.m(p, "intersects_with_objects", [], jnp.array([], dtype=int), approx=smooth), L.false(), "no object")
        o = w.blob("o0")
        eq(w.m(p, "intersects_with_objects", [o], jnp.array([], dtype=int), approx=smooth), w.probe_truth("intersects", o, (sym("q", 2, 2), asarray(0.0)), smooth, {}), "line of sight, one object")
        eq(w.m(p, "intersects_with_objects", (o,), jnp.array([], dtype=int), approx=smooth), w.probe_truth("intersects", o, (sym("q", 2, 2), asarray(0.0)), smooth, {}), "objects as tuple")
        c.case(3)


# ---------------------------------------------------------------- C22
@ob("C22", "boxes of points, rays and paths", "value numbering: componentwise minimum and maximum")
def _(c):
    w = c.world()
    g = lambda n: w.get("geometry", n)
    for nm in ("Point", "Vertex"):
        o = w.call(g(nm), xy=sym("v", 2))
        eq(w.m(o, "bounding_box"), jnp.stack([sym("v", 2), sym("v", 2)]), f"{nm}.bounding_box")
        c.case()
    box = lambda x: jnp.stack([jnp.min(x, axis=0), jnp.max(x, axis=0)])
    for nm, o in rays(w):
        eq(w.m(o, "bounding_box"), box(sym("w", 2, 2)), f"{nm}.bounding_box")
        c.case()
    for cls in PATHS:
        for n in c.sizes([2, 3, 4], 30):
            eq(w.m(w.call(g(cls), xys=sym("x", n, 2)), "bounding_box"), box(sym("x", n, 2)), f"{cls}.bounding_box of {n} points")
            c.case()


@ob("C22", "scene box", "value numbering: box around all nodes and objects, for every population")
def _(c):
    w = c.world()
    for nt, nr, no in itertools.product((0, 1, 2), repeat=3):
        if nt + nr + no == 0:
            continue
        sc, txs, rxs, objs = probe_scene(w, nt, nr, ("Blob", "BlobB")[:no])
        lo = [w.at(p, "xy") for p in (*txs.values(), *rxs.values())] + [w.probe_box(o)[0] for o in objs]
        hi = [w.at(p, "xy") for p in (*txs.values(), *rxs.values())] + [w.probe_box(o)[1] for o in objs]
        want = jnp.stack([jnp.min(jnp.stack(lo), axis=0), jnp.max(jnp.stack(hi), axis=0)])
        eq(w.m(sc, "bounding_box"), want, f"Scene.bounding_box ({nt} tx, {nr} rx, {no} objects)")
        c.case()
    for n in c.sizes([3], 24):
        sc, txs, rxs, objs = probe_scene(w, n, n, ("Blob",) * n)
        lo = [w.at(p, "xy") for p in (*txs.values(), *rxs.values())] + [w.probe_box(o)[0] for o in objs]
        hi = [w.at(p, "xy") for p in (*txs.values(), *rxs.values())] + [w.probe_box(o)[1] for o in objs]
        eq(w.m(sc, "bounding_box"), jnp.stack([jnp.min(jnp.stack(lo), axis=0), jnp.max(jnp.stack(hi), axis=0)]), f"Scene.bounding_box ({n} of each)")
        c.case()


@ob("C22", "locations and centre", "value numbering: all nine locations of an arbitrary box")
def _(c):
    w = c.world()
    b = w.blob("o0")
    B = w.probe_box(b)
    x0, y0, x1, y1 = B[0, 0], B[0, 1], B[1, 0], B[1, 1]
    xm, ym = 0.5 * (x0 + x1), 0.5 * (y0 + y1)
    loc = {"N": (xm, y1), "E": (x1, ym), "S": (xm, y0), "W": (x0, ym), "C": (xm, ym), "NE": (x1, y1), "NW": (x0, y1), "SE": (x1, y0), "SW": (x0, y0)}
    for k, (x, y) in loc.items():
        eq(w.m(b, "get_location", k), jnp.stack([x, y]), f"get_location({k!r})")
        c.case()
    eq(w.m(b, "center"), jnp.stack([xm, ym]), "center")
    Wall = w.call(w.get("geometry", "Wall"), xys=sym("w", 2, 2))
    W = sym("w", 2, 2)
    eq(w.m(Wall, "center"), 0.5 * (jnp.min(W, axis=0) + jnp.max(W, axis=0)), "Wall.center")
    eq(w.m(Wall, "get_location", "NW"), jnp.stack([jnp.min(W, axis=0)[0], jnp.max(W, axis=0)[1]]), "Wall.get_location('NW')")
    c.case(3)


@ob("C22", "grids", "value numbering: m columns and n rows spanning the box inclusively")
def _(c):
    w = c.world()
    b = w.blob("o0")
    B = w.probe_box(b)

    def want(m, n):
        X = [[B[0, 0] + S.N_(i, max(m - 1, 1)) * (B[1, 0] - B[0, 0]) for i in range(m)] for _ in range(n)]
        Y = [[B[0, 1] + S.N_(j, max(n - 1, 1)) * (B[1, 1] - B[0, 1]) for _ in range(m)] for j in range(n)]
        st = lambda Z: jnp.stack([jnp.stack(r) for r in Z])
        return st(X), st(Y)

    for m in c.sizes([1, 2, 3, 5], 60):
        for n in (None, 1, 2, 4):
            X, Y = w.list(w.m(b, "grid", m) if n is None else w.m(b, "grid", m=m, n=n), 2)
            wx, wy = want(m, n or m)
            eq(X, wx, f"grid({m}, {n}) X")
            eq(Y, wy, f"grid({m}, {n}) Y")
            c.case()
    # no row or no column is an empty grid, not a missing choice
    for m, n in ((3, 0), (0, 3), (0, 0)):
        X, Y = w.list(w.m(b, "grid", m, n), 2)
        req(asarray(X).shape == asarray(Y).shape == (n, m), f"grid({m}, {n}) has shape {asarray(X).shape}")
        c.case()
    X, Y = w.list(w.m(b, "grid"), 2)
    wx, wy = want(50, 50)
    eq(X, wx, "grid() X")
    eq(Y, wy, "grid() Y")
    c.case()


# ---------------------------------------------------------------- C25
@ob("C25", "power law", "value numbering: r_coef**n / (height**2 + length**2)")
def _(c):
    w = c.world()
    f = w.get("utils", "received_power")
    Pt = w.get("geometry", "Point")
    for cls in PATHS:
        for n in c.sizes([0, 1, 2, 3], 24):
            # long paths go around three symbolic points
            x = sym("x", n + 2, 2) if n < 6 else jnp.stack([sym("x", 3, 2)[i % 3] for i in range(n + 2)])
            p = w.call(w.get("geometry", cls), xys=x)
            objs = [w.blob(f"o{i}") for i in range(n)]
            tx, rx = w.call(Pt, xy=x[0]), w.call(Pt, xy=x[n + 1])
            r, h = sym("r_coef"), sym("height")
            l = S.length(x)
            rn = asarray(1.0)
            rd = asarray(1.0)
            for _ in range(n):
                rn, rd = rn * r, rd * S.N_(1, 2)
            eq(w.call(f, tx, rx, p, objs, r_coef=r, height=h), rn / (h * h + l * l), f"received_power, order {n}")
            eq(w.call(f, tx, rx, p, objs), rd / (S.N_(1, 100) + l * l), f"received_power, order {n}, defaults")
            eq(w.call(f, tx, rx, p, objs, r_coef=r), rn / (S.N_(1, 100) + l * l), f"received_power, order {n}, default height")
            eq(w.call(f, tx, rx, p, objs, height=h), rd / (h * h + l * l), f"received_power, order {n}, default coefficient")
            eq(w.call(f, tx, rx, p, objs, r, h), rn / (h * h + l * l), f"received_power, order {n}, positional options")
            # documented as ignored: nodes and list of objects
            eq(w.call(f, w.call(Pt, xy=sym("u", 2)), w.call(Pt, xy=sym("v", 2)), p, objs, r_coef=r, height=h), rn / (h * h + l * l), f"received_power, order {n}, other nodes")
            eq(w.call(f, tx, rx, p, [], r_coef=r, height=h), rn / (h * h + l * l), f"received_power, order {n}, no list of objects")
            more = [w.blob(f"e{i}") for i in range(2)]
            eq(w.call(f, tx, rx, p, objs + more, r_coef=r, height=h), rn / (h * h + l * l), f"received_power, order {n}, a longer list of objects")
            if n == 3:
                eq(w.call(f, tx, rx, p, [objs[0], objs[1], objs[0]], r_coef=r, height=h), rn / (h * h + l * l), "received_power, the same object twice")
            c.case(5)


@ob("C25", "reference power", "P0 equals the power at zero distance with default values")
def _(c):
    w = c.world()
    a = sym("a", 2)
    Pt = w.get("geometry", "Point")
    p = w.call(w.get("geometry", "Path"), xys=jnp.stack([a, a]))
    got = w.call(w.get("utils", "received_power"), w.call(Pt, xy=a), w.call(Pt, xy=a), p, [])
    eq(got, asarray(w.get("utils", "P0")), "received_power at zero distance vs P0")
    eq(asarray(w.get("utils", "P0")), asarray(100.0), "P0")
    c.case(2)


# ---------------------------------------------------------------- C27
@ob("C27", "closest point", "value numbering: index of the smallest distance and that distance")
def _(c):
    w = c.world()
    for n in c.sizes([1, 2, 3], 70):
        P, t = sym("p", n, 2), sym("t", 2)
        d = jnp.sqrt(jnp.sum((P - t[None, :]) ** 2, axis=1))
        i, dist = w.list(w.call(w.get("geometry", "closest_point"), P, t), 2)
        eq(i, jnp.argmin(d), f"closest_point index among {n}", kinds=False)
        eq(dist, jnp.min(d), f"closest_point distance among {n}")
        c.case()


@ob("C27", "closest node of a scene", "value numbering: name and distance belong to the same, nearest node of the right kind")
def _(c):
    w = c.world()
    Scene, Pt = w.get("scene", "Scene"), w.get("geometry", "Point")
    t = sym("t", 2)
    for n, m in ((1, 2), (2, 1), (3, 2), (2, 4)) + tuple(p for k in c.sizes([3], 40) for p in ((k, 2), (2, k))):
        names = [f"n{(i * 7 + 3) % 11}_{i}" for i in range(max(n, m))]
        txs = {names[i]: w.call(Pt, xy=sym(f"tx{i}_", 2)) for i in range(n)}
        rxs = {names[-1 - i] + "r" * (i % 2): w.call(Pt, xy=sym(f"rx{i}_", 2)) for i in range(m)}
        if n == 3:
            txs = dict(zip(("Tx", "antenne n°1 – été " * 4, "tx"), txs.values()))
            rxs = dict(zip(("0", " tx"), rxs.values()))
        sc = w.call(Scene, transmitters=txs, receivers=rxs, objects=[])
        for meth, tab in (("get_closest_transmitter", txs), ("get_closest_receiver", rxs)):
            d = jnp.stack([jnp.sqrt(S.dot(w.at(p, "xy") - t, w.at(p, "xy") - t)) for p in tab.values()])
            parts = w.partition(lambda: w.m(sc, meth, t))
            for asg, r in parts:
                name, dist = w.list(r, 2)
                lab = f"{meth} among {len(tab)}"
                nm = list(tab)
                if isinstance(name, Choice):
                    req(len(name.opts) == len(nm) and list(name.opts) == nm, f"{lab}: names {name.opts} instead of {nm}")
                    eq(Arr((), [name.idx], "i"), jnp.argmin(d), f"{lab}: index", kinds=False)
                    eq(dist, jnp.min(d), f"{lab}: distance")
                elif isinstance(name, str):
                    req(name in nm, f"{lab}: unknown name {name}")
                    k = nm.index(name)
                    if len(nm) == 1:
                        eq(dist, d[0], f"{lab}: distance")
                        continue
                    # under these outcomes node k must be nearest
                    for j in range(len(nm)):
                        r_ = refute(N.cmp("le", d.data[k], d.data[j]), N.T, Canon(), False, list(asg))
                        req(r_ is None, f"{lab}: reports {name} although {nm[j]} is nearer, e.g. {r_ and r_[0]}")
                    try:
                        eq(dist, d[k], f"{lab}: distance", assume=list(asg))
                    except ValueError:
                        eq(dist, d[k], f"{lab}: distance")
                else:
                    raise Mismatch(f"{lab}: {str(name)[:60]} is given as the name of the node")
                c.case()


PLACES = (
    [(3, 4), (0, 0), (6, 8)],
    [(6, 8), (0, 5), (3, 4), (0, 5), (-3, -4)],
    [(0, 10), (10, 0), (-10, 0), (0, -10), (0, 9)],
    [(0, 0), (0, 0), (0, 0)],
    [(-30, 40), (8, 6), (-8, -6)],
    [(5, 12)],
)


@ob("C27", "given coordinates", "constant propagation: unsorted, coincident and equidistant nodes")
def _(c):
    w = c.world()
    Scene, Pt = w.get("scene", "Scene"), w.get("geometry", "Point")
    for pts in PLACES:
        d2 = [x * x + y * y for x, y in pts]
        for at in ((0, 0), (100, -7)):
            t = jnp.array([float(a) for a in at])
            xy = [jnp.array([float(x + at[0]), float(y + at[1])]) for x, y in pts]
            i, dist = w.list(w.call(w.get("geometry", "closest_point"), jnp.stack(xy), t), 2)
            k = int(asarray(i).data[0].attr)
            req(0 <= k < len(pts) and d2[k] == min(d2), f"closest_point among {pts} gives index {k}")
            eq(dist * dist, asarray(float(min(d2))), f"closest_point among {pts}: distance")
            names = [f"n{(j * 7 + 3) % 11}" for j in range(len(pts))]
            nodes = {n: w.call(Pt, xy=p) for n, p in zip(names, xy)}
            other = {"o": w.call(Pt, xy=t)}
            for meth, sc in (("get_closest_transmitter", w.call(Scene, transmitters=nodes, receivers=other, objects=[])), ("get_closest_receiver", w.call(Scene, transmitters=other, receivers=nodes, objects=[]))):
                name, dist = w.list(w.m(sc, meth, t), 2)
                lab = f"{meth} among {dict(zip(names, pts))} (relative to the point)"
                req(name in names and d2[names.index(name)] == min(d2), f"{lab}: reports {name!s:.40}")
                eq(dist * dist, asarray(float(min(d2))), f"{lab}: distance")
                c.case()


# ---------------------------------------------------------------- C31
MUTATE = """
def put(o, k, v):
    setattr(o, k, v)
def write(o, k, v):
    getattr(o, k)[0] = v
def drop(o, k):
    delattr(o, k)
"""


def element_fields(w):
    """(class, arrays by field, whether the field may be left out)"""
    G = lambda n: w.get("geometry", n)
    yield "Point", G("Point"), {"xy": (2,)}
    yield "Vertex", G("Vertex"), {"xy": (2,)}
    yield "Ray", G("Ray"), {"xys": (2, 2)}
    yield "Wall", G("Wall"), {"xys": (2, 2)}
    yield "RIS", G("RIS"), {"xys": (2, 2), "phi": ()}
    for p in PATHS:
        for n in (2, 4):
            yield f"{p} ({n} vertices)", G(p), {"xys": (n, 2), "loss": ()}


def nested(a, how):
    """A Python sequence of numbers with the entries of an array."""
    if not a.shape:
        return a
    return how(nested(a[i], how) for i in range(a.shape[0]))


@ob("C31", "plain numbers", "value numbering: fields hold the array of the numbers given, and operations agree with those on arrays")
def _(c):
    w = c.world()
    for nm, cls, fs in element_fields(w):
        arr = {k: sym(k[:1], *s) for k, s in fs.items()}
        ref = w.call(cls, **arr)
        for how in (list, tuple, lambda g: list(tuple(x) if isinstance(x, list) else x for x in g)):
            for pos in (False, True):
                vs = {k: nested(a, how) for k, a in arr.items()}
                o = w.call(cls, *vs.values()) if pos else w.call(cls, **vs)
                for k, a in arr.items():
                    got = w.at(o, k)
                    req(isinstance(got, Arr), f"{nm}: {k} given as a sequence of numbers is kept as {type(got).__name__}")
                    eq(got, a, f"{nm}: {k} given as a sequence of numbers", kinds=False)
                eq(w.m(o, "bounding_box"), w.m(ref, "bounding_box"), f"{nm}.bounding_box built from numbers")
                c.case()
        for k, v in (("phi", 0.5), ("loss", 0.25)):
            if k in fs:
                o = w.call(cls, **{**arr, k: v})
                req(isinstance(w.at(o, k), Arr), f"{nm}: {k} given as a number is kept as {type(w.at(o, k)).__name__}")
                eq(w.at(o, k), asarray(v), f"{nm}: {k} given as a number", kinds=False)
                c.case()
        num = lambda i: i if i % 2 else i + 0.5  # whole numbers among others
        mixed = {k: [[num(i + 3 * j) for j in range(s[1])] for i in range(s[0])] if len(s) == 2 else [num(i) for i in range(s[0])] if s else 1.5 for k, s in fs.items()}
        with Contracts():
            o = w.call(cls, **mixed)
        for k, s in fs.items():
            eq(w.at(o, k), jnp.array(mixed[k]), f"{nm}: {k} given as numbers, some of them whole", kinds=False)
        c.case()


@ob("C31", "defaults", "value numbering: unspecified fields")
def _(c):
    w = c.world()
    G = lambda n: w.get("geometry", n)
    for n in ("Point", "Vertex"):
        eq(w.at(w.call(G(n)), "xy"), jnp.zeros(2), f"{n}() is at the origin")
    for n in ("Ray", "Wall", "RIS"):
        eq(w.at(w.call(G(n)), "xys"), jnp.array([[0.0, 0.0], [1.0, 1.0]]), f"{n}() goes from (0, 0) to (1, 1)")
    eq(w.at(w.call(G("RIS"), xys=sym("w", 2, 2)), "phi"), asarray(jnp.pi / 4), "default angle of a RIS")
    for p in PATHS:
        q = w.call(G(p), xys=sym("x", 3, 2))
        eq(w.at(q, "loss"), asarray(0.0), f"{p}: default loss")
        try:
            w.call(G(p))
        except ProgError as e:
            req(isinstance(e.exc, TypeError), f"{p}() raises {type(e.exc).__name__}")
        else:
            raise Mismatch(f"{p}() without vertices is accepted")
    c.case(10)


@ob("C31", "immutability", "effect analysis: every write to a field of an element is refused and changes nothing")
def _(c):
    w = c.world()
    m = w.source(MUTATE, "<client6>")
    els = [(nm, w.call(cls, **{k: sym(k[:1], *s) for k, s in fs.items()}), list(fs)) for nm, cls, fs in element_fields(w)]
    els.append(("Scene", probe_scene(w, 1, 1)[0], ["transmitters", "receivers", "objects"]))
    for nm, o, fs in els:
        for k in [*fs, "brand_new"]:
            old = w.at(o, k) if k in fs else None
            for how in ("put", "drop", "write"):
                if how != "put" and (k not in fs or nm == "Scene" and how == "write"):
                    continue
                try:
                    w.call(m.vars[how], o, k, *([sym("v", 2)] if how != "drop" else []))
                except ProgError as e:
                    req(isinstance(e.exc, (AttributeError, TypeError)) or how == "write", f"{nm}: {how} on {k} raises {type(e.exc).__name__}")
                else:
                    raise Mismatch(f"{nm}: field {k} can be modified in place ({how})")
                if k in fs:
                    req(w.at(o, k) is old, f"{nm}: field {k} changed although the write was refused")
                c.case()
