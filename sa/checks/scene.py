"""C15-C21, C23, C24, C26, C28: scenes, optimiser, randomness, effects, plots."""
from __future__ import annotations

import itertools
import math

from .. import jaxmodel as J
from .. import nodes as N
from .. import spec as S
from ..arr import Arr, asarray
from ..canon import Canon
from ..chk import Mismatch, ProgError, Undecided, Unsupported, World, eq, first_loc, jnp, keyof, ob, req, same, shallow, strict, sym
from ..errors import AnchorMissing
from ..interp import Choice, Inst, JsonByteArray, JsonBytes, JsonDoc, Opaque
from .logic import probe_scene

MIX = {
    "same": ("Blob", "Blob", "Blob"),
    "subclasses": ("Blob", "BlobB", "BlobZ"),
    "last differs": ("Blob", "Blob", "BlobB"),
    "first differs": ("BlobB", "Blob", "Blob"),
}


# ------------------------------------------------------------------ helpers
def items(w, table):
    """[(name, node)] of a node table."""
    return [tuple(w.list(kv, 2)) for kv in w.list(w.m(table, "items"))]


def snap(w, sc):
    """Comparable content of a scene."""
    node = lambda p: (p.cls.__name__, w.at(p, "xy"))
    return {
        "class": sc.cls.__name__,
        "transmitters": [(k, node(p)) for k, p in items(w, w.at(sc, "transmitters"))],
        "receivers": [(k, node(p)) for k, p in items(w, w.at(sc, "receivers"))],
        "objects": [w.okey(o) for o in w.list(w.at(sc, "objects"))],
        **{k: v for k, v in sc.fields.items() if k not in ("transmitters", "receivers", "objects")},
    }


def ints(a):
    """Static integer tuple of a candidate."""
    a = asarray(a)
    req(a.ndim == 1, f"a path candidate has shape {a.shape}")
    req(a.kind == "i", f"a path candidate has kind {a.kind!r} instead of integers")
    out = []
    for x in a.data:
        m = Canon().r(x)
        if x.op != "const":
            raise Undecided("candidate entries are not static")
        out.append(int(x.attr))
    return tuple(out)


def tagpred(w, names):
    """A predicate selecting objects by tag (host function)."""
    want = {w.okey(w.blob(n))[1] for n in names}
    c = Canon()
    want = {c.ckey(k) for k in want}

    def pred(o):
        return c.ckey(keyof(o.fields["tag"])) in want

    return pred


def tag_of(w, o):
    return o.fields["tag"].data[0].attr


def points(w, *names, cls="Point"):
    Pt = w.client.vars[cls] if cls != "Point" else w.get("geometry", "Point")
    return {n: w.call(Pt, xy=sym(f"{n}_", 2)) for n in names}


# names any mapping of strings may have: case, blanks, length, alphabet, digits, words of the language
ODD = ("Tx", "tx", "TX", " tx", "tx ", "base station " * 6, "antenne n°1 – été", "a.b", "class", "0", "__x__", "tx_10", "tx_2", "-", "\n", "basestation-" * 5)


SUBSCENE = '''
from differt2d.scene import Scene
class MyScene(Scene):
    extra: object = None
'''


def edit_scene(w, kind="Scene", kinds=("Blob", "BlobB", "BlobZ", "Blob")):
    txs = {**points(w, "a", "b"), **points(w, "c", cls="Node")}
    rxs = {**points(w, "p", cls="Node"), **points(w, "b", "r")}
    objs = [w.blob(f"o{i}", k) for i, k in enumerate(kinds)]
    if kind == "Scene":
        cls, kw = w.get("scene", "Scene"), {}
    else:
        cls, kw = w.source(SUBSCENE, "<client2>").vars["MyScene"], {"extra": sym("extra")}
    return w.call(cls, transmitters=txs, receivers=rxs, objects=objs, **kw), txs, rxs, objs


def nodekey(p):
    return (p.cls.__name__, p.fields["xy"])


def edit_check(c, w, sc, what, got, **change):
    """got must be sc with exactly the given parts changed; sc untouched."""
    want = {**snap(w, sc), **change}
    g = snap(w, got)
    for k in want:
        req(k in g, f"{what}: {k} is missing from the result")
        if isinstance(want[k], dict):
            req(len(g[k]) == len(want[k]) and sorted(x for x, _ in g[k]) == sorted(want[k]), f"{what}: {k} has names {[x for x, _ in g[k]]} instead of {list(want[k])}")
            for n, v in g[k]:
                req(n in want[k], f"{what}: unexpected name {n}")
                eq(v, want[k][n], f"{what}: node {n}")
        else:
            eq(g[k], want[k], f"{what}: {k}")
    c.case()


# ---------------------------------------------------------------- C16
@ob("C16", "replacing nodes and objects", "value numbering of the whole resulting scene; the original's content before and after")
def _(c):
    for kind in ("Scene", "MyScene"):
        w = c.world()
        sc, txs, rxs, objs = edit_scene(w, kind)
        before = shallow(sc)
        for new in ({}, points(w, "n"), {**points(w, "z", "n"), **points(w, "b", cls="Node")}, points(w, "c", "b", "a")):
            want = [(k, nodekey(p)) for k, p in new.items()]
            edit_check(c, w, sc, f"{kind}.with_transmitters({', '.join(new)})", w.m(sc, "with_transmitters", **new), transmitters=want)
            edit_check(c, w, sc, f"{kind}.with_receivers({', '.join(new)})", w.m(sc, "with_receivers", **new), receivers=want)
        for new in ([], [w.blob("n0")], [w.blob("n0"), w.blob("n1", "BlobB"), objs[0], objs[0], w.blob("n2"), w.blob("n3")]):
            edit_check(c, w, sc, f"{kind}.with_objects({len(new)} objects)", w.m(sc, "with_objects", *new), objects=[w.okey(o) for o in new])
        req(shallow(sc) == before, f"{kind}: replacing nodes or objects modifies the original scene")


@ob("C16", "updating nodes", "value numbering: other nodes kept in place, the new value wins, new names follow")
def _(c):
    for kind in ("Scene", "MyScene"):
        w = c.world()
        sc, txs, rxs, objs = edit_scene(w, kind)
        before = shallow(sc)
        for new in ({}, points(w, "n"), points(w, "a", cls="Node"), {**points(w, "n"), **points(w, "c", "p", "m")}):
            # same names, different coordinates
            upd = {k: w.call(p.cls, xy=p.fields["xy"] + sym(f"shift_{k}", 2)) for k, p in new.items()}
            for part, tab in (("transmitters", txs), ("receivers", rxs)):
                want = [(k, nodekey(p)) for k, p in {**tab, **upd}.items()]
                edit_check(c, w, sc, f"{kind}.update_{part}({', '.join(new)})", w.m(sc, f"update_{part}", **upd), **{part: want})
        req(shallow(sc) == before, f"{kind}: updating nodes modifies the original scene")


@ob("C16", "any names", "value numbering of every edit over tables whose names differ in case, blanks, length, alphabet and form")
def _(c):
    w = c.world()
    Pt = w.get("geometry", "Point")
    tab = {n: w.call(Pt, xy=sym(f"node{i}_", 2)) for i, n in enumerate(ODD)}
    new = {n: w.call(Pt, xy=sym(f"new{i}_", 2)) for i, n in enumerate(reversed(ODD))}
    objs = [w.blob("o0"), w.blob("o1", "BlobB")]
    table = lambda d: [(k, nodekey(p)) for k, p in d.items()]
    for part, other in (("transmitters", "receivers"), ("receivers", "transmitters")):
        mk = lambda t: w.call(w.get("scene", "Scene"), **{part: t, other: points(w, "tx", "TX")}, objects=objs)
        half = dict(list(tab.items())[:8])
        sc, s0 = mk(tab), mk(half)
        edit_check(c, w, sc, f"with_{part}(odd names)", w.m(sc, f"with_{part}", **new), **{part: table(new)})
        edit_check(c, w, s0, f"update_{part}(odd names)", w.m(s0, f"update_{part}", **new), **{part: table({**half, **new})})
        for n in ODD:
            edit_check(c, w, sc, f"update_{part}({n!r})", w.m(sc, f"update_{part}", **{n: new[n]}), **{part: table({**tab, n: new[n]})})
            edit_check(c, w, sc, f"rename_{part}({n!r})", w.m(sc, f"rename_{part}", **{n: "other name"}), **{part: [("other name" if k == n else k, p) for k, p in table(tab)]})
            if n not in half:
                edit_check(c, w, s0, f"rename_{part}(to {n!r})", w.m(s0, f"rename_{part}", Tx=n), **{part: [(n if k == "Tx" else k, p) for k, p in table(half)]})
        rot = dict(zip(ODD, ODD[1:] + ODD[:1]))
        edit_check(c, w, sc, f"rename_{part}(all names in turn)", w.m(sc, f"rename_{part}", **rot), **{part: [(rot[k], p) for k, p in table(tab)]})
        edit_check(c, w, sc, f"{part} kept by add_objects", w.m(sc, "add_objects", objs[0]), objects=[w.okey(o) for o in [*objs, objs[0]]])


@ob("C16", "renaming nodes", "value numbering: positions and order kept under every renaming")
def _(c):
    for kind in ("Scene", "MyScene"):
        w = c.world()
        sc, txs, rxs, objs = edit_scene(w, kind)
        before = shallow(sc)
        tn, rn = list(txs), list(rxs)
        for part, tab, (x, y, z) in (("transmitters", txs, tn), ("receivers", rxs, rn)):
            for ren in ({}, {x: "n"}, {x: y, y: x}, {z: "n"}, {x: y, y: z, z: x}, {y: "n", x: "m"}, {"unknown": "n"}, {x: x}, {y: "n", "unknown": "m"}, {x: y, y: "n"}, {y: ""}, {x: " "}, {z: "None"}):
                want = [(ren.get(k, k), nodekey(p)) for k, p in tab.items()]
                edit_check(c, w, sc, f"{kind}.rename_{part}({ren})", w.m(sc, f"rename_{part}", **ren), **{part: want})
        req(shallow(sc) == before, f"{kind}: renaming nodes modifies the original scene")


@ob("C16", "adding and filtering objects", "value numbering of the object sequence")
def _(c):
    for kind in ("Scene", "MyScene"):
        w = c.world()
        sc, txs, rxs, objs = edit_scene(w, kind)
        before = shallow(sc)
        for new in ([], [w.blob("n0")], [w.blob("n0"), w.blob("n1", "BlobB"), objs[0]]):
            edit_check(c, w, sc, f"{kind}.add_objects({len(new)} objects)", w.m(sc, "add_objects", *new), objects=[w.okey(o) for o in objs + new])
        names = [f"o{i}" for i in range(len(objs))]
        for r in range(len(names) + 1):
            for sel in itertools.combinations(names, r):
                got = w.m(sc, "filter_objects", tagpred(w, sel))
                edit_check(c, w, sc, f"{kind}.filter_objects(keeping {sel})", got, objects=[w.okey(o) for n, o in zip(names, objs) if n in sel])
        B = w.client.vars["BlobB"]
        got = w.m(sc, "filter_objects", lambda o: w.I.isinst(o, B))
        edit_check(c, w, sc, f"{kind}.filter_objects(by class)", got, objects=[w.okey(objs[1])])
        got = w.m(sc, "filter_objects", lambda o: 0 if w.I.isinst(o, B) else 2)
        edit_check(c, w, sc, f"{kind}.filter_objects(integer predicate)", got, objects=[w.okey(o) for o in objs if o is not objs[1]])
        req(shallow(sc) == before, f"{kind}: adding or filtering objects modifies the original scene")


@ob("C16", "chains of edits", "value numbering of the composition of edits, each intermediate scene unchanged")
def _(c):
    w = c.world()
    sc, txs, rxs, objs = edit_scene(w, "MyScene")
    n0, e = w.blob("n0"), points(w, "e")
    s1 = w.m(sc, "update_transmitters", **e)
    s2 = w.m(s1, "add_objects", n0)
    s3 = w.m(s2, "rename_receivers", p="k")
    s4 = w.m(s3, "filter_objects", tagpred(w, ("o1", "n0")))
    s5 = w.m(s4, "with_receivers", **points(w, "z"))
    T = [(k, nodekey(p)) for k, p in {**txs, **e}.items()]
    R = [("k" if k == "p" else k, nodekey(p)) for k, p in rxs.items()]
    edit_check(c, w, s1, "update then add", s2, transmitters=T, objects=[w.okey(o) for o in objs + [n0]])
    edit_check(c, w, s2, "then rename", s3, receivers=R)
    edit_check(c, w, s3, "then filter", s4, objects=[w.okey(objs[1]), w.okey(n0)])
    edit_check(c, w, s4, "then replace", s5, receivers=[("z", nodekey(points(w, "z")["z"]))])
    edit_check(c, w, sc, "all edits", s5, transmitters=T, objects=[w.okey(objs[1]), w.okey(n0)], receivers=[("z", nodekey(points(w, "z")["z"]))])
    empty = w.call(w.get("scene", "Scene"))
    edit_check(c, w, empty, "add to an empty scene", w.m(empty, "add_objects", n0), objects=[w.okey(n0)])
    edit_check(c, w, empty, "update an empty scene", w.m(empty, "update_receivers", **e), receivers=[(k, nodekey(p)) for k, p in e.items()])


# ---------------------------------------------------------------- C17
def cand_check(c, got, n, lo, hi, excl, what):
    got = [ints(a) for a in got]
    want = S.candidates(n, lo, hi, excl)
    req(all(len(a) <= len(b) for a, b in zip(got, got[1:])), f"{what}: candidates are not by increasing order: {got}")
    flat = [x for k in want for x in k]
    req(len(set(got)) == len(got), f"{what}: a candidate is repeated: {got}")
    miss, more = sorted(set(flat) - set(got)), sorted(set(got) - set(flat))
    req(not miss and not more, f"{what}: missing candidates {miss[:6]}, unexpected candidates {more[:6]}")
    c.case()


def orders(thorough):
    top = 4 if thorough else 3
    out = [{}, {"max_order": 0}, {"max_order": 2}, {"min_order": 1}]
    out += [{"min_order": a, "max_order": b} for a in range(top + 1) for b in range(a, top + 1)]
    out += [{"min_order": 2, "max_order": 1}]
    out += [{"order": k} for k in range(top + 1)]
    out += [{"order": 0, "min_order": 1, "max_order": 2}, {"order": 2, "min_order": 0, "max_order": 1}, {"order": 1, "max_order": 3}]
    return out


def lohi(o):
    lo, hi = o.get("min_order", 0), o.get("max_order", 1)
    if o.get("order") is not None:
        lo = hi = o["order"]
    return lo, hi


@ob("C17", "all sequences without repetition", "partial evaluation of the enumeration (graph library modelled) against the definition, per size and order option")
def _(c):
    w = c.world()
    f = w.get("scene", "all_path_candidates")
    for n in c.sizes([0, 1, 2, 3, 4], 6):
        for o in orders(c.thorough):
            if lohi(o)[1] > 3 and n > 4:
                continue
            cand_check(c, w.list(w.call(f, n, **o)), n, *lohi(o), (), f"all_path_candidates({n}, {o})")
            objs = [w.blob(f"o{i}", ("Blob", "BlobB", "BlobZ")[i % 3]) for i in range(n)]
            sc = w.call(w.get("scene", "Scene"), objects=objs)
            cand_check(c, w.list(w.m(sc, "all_path_candidates", **o)), n, *lohi(o), (), f"Scene.all_path_candidates({n} objects, {o})")
    # many objects: every index is still its own
    for n in c.sizes([300], 1100):
        if n > 6:
            cand_check(c, w.list(w.call(f, n)), n, 0, 1, (), f"all_path_candidates({n})")
    # few objects, any order: beyond the number of objects there is nothing
    g = w.get("scene", "Scene")
    sc = w.call(g, objects=[w.blob("o0"), w.blob("o1", "BlobB")])
    for k in c.sizes([5], 60):
        for o in ({"order": k}, {"max_order": k}, {"min_order": 1, "max_order": k}, {"min_order": k, "max_order": k + 1}):
            cand_check(c, w.list(w.call(f, 2, **o)), 2, *lohi(o), (), f"all_path_candidates(2, {o})")
            cand_check(c, w.list(w.m(sc, "all_path_candidates", **o)), 2, *lohi(o), (), f"Scene.all_path_candidates(2 objects, {o})")
    for pos in ((1, 2), (0,), (2,), (0, 2)):
        o = dict(zip(("min_order", "max_order"), pos))
        cand_check(c, w.list(w.call(f, 3, *pos)), 3, *lohi(o), (), f"all_path_candidates(3, {pos})")
        cand_check(c, w.list(w.m(w.call(g, objects=[w.blob(f"o{i}") for i in range(3)]), "all_path_candidates", *pos)), 3, *lohi(o), (), f"Scene.all_path_candidates{pos} of 3 objects")


@ob("C17", "filtering keeps original indices", "partial evaluation for every subset of rejected objects")
def _(c):
    w = c.world()
    f = w.get("scene", "all_path_candidates")
    for n in (1, 2, 3, 4):
        names = [f"o{i}" for i in range(n)]
        objs = [w.blob(x, ("Blob", "BlobB", "BlobZ")[i % 3]) for i, x in enumerate(names)]
        sc = w.call(w.get("scene", "Scene"), objects=objs)
        for r in range(n + 1):
            for keep in itertools.combinations(range(n), r):
                excl = tuple(i for i in range(n) if i not in keep)
                for o in ({"max_order": 3}, {"order": 2}, {"order": 0}, {}) if n < 4 or c.thorough else ({"max_order": 2},):
                    cand_check(c, w.list(w.call(f, n, filter_nodes=excl, **o)), n, *lohi(o), excl, f"all_path_candidates({n}, filter_nodes={excl}, {o})")
                    got = w.m(sc, "all_path_candidates", filter_objects=tagpred(w, [names[i] for i in keep]), **o)
                    cand_check(c, w.list(got), n, *lohi(o), excl, f"Scene.all_path_candidates(keeping {keep} of {n}, {o})")
    for n in c.sizes([5, 7], 14):
        if n < 5:
            continue
        names = [f"o{i}" for i in range(n)]
        sc = w.call(w.get("scene", "Scene"), objects=[w.blob(x, ("Blob", "BlobB", "BlobZ")[i % 3]) for i, x in enumerate(names)])
        for excl in ((n - 1,), tuple(range(n // 2, n)), tuple(range(1, n)), tuple(range(n - 1)), tuple(range(0, n, 2)), tuple(range(n))):
            keep = [i for i in range(n) if i not in excl]
            cand_check(c, w.list(w.call(f, n, filter_nodes=excl)), n, 0, 1, excl, f"all_path_candidates({n}, filter_nodes={excl})")
            got = w.m(sc, "all_path_candidates", filter_objects=tagpred(w, [names[i] for i in keep]))
            cand_check(c, w.list(got), n, 0, 1, excl, f"Scene.all_path_candidates(keeping {keep} of {n})")
    # the predicate is applied to the objects themselves, whatever truth type it returns
    sc, _, _, objs = probe_scene(w, 1, 1, ("Blob", "BlobB", "Blob"))
    B = w.client.vars["BlobB"]
    cand_check(c, w.list(w.m(sc, "all_path_candidates", filter_objects=lambda o: not w.I.isinst(o, B), max_order=2)), 3, 0, 2, (1,), "filter by class")
    cand_check(c, w.list(w.m(sc, "all_path_candidates", filter_objects=lambda o: 0 if w.I.isinst(o, B) else 1, max_order=2)), 3, 0, 2, (1,), "filter with an integer predicate")


# ---------------------------------------------------------------- C18
def expect_path(w, PP, tx, objs, cand, rx, key=None, pkw=None):
    return w.call(w.at(PP, "from_tx_objects_rx"), tx, [objs[i] for i in cand], rx, key=key, **(pkw or {}))


def enum_check(c, w, sc, txs, rxs, objs, what, o=None, pkw=None, vkw=None, PP=None, excl=(), positional=False):
    o, vkw = dict(o or {}), dict(vkw or {})
    PP = PP or w.client.vars["ProbePath"]
    kw = {**o, **vkw}
    if pkw is not None:
        kw["path_cls_kwargs"] = pkw
    by_pos = lambda: (PP, pkw, *lohi(o)) if o.get("order") is None and "filter_objects" not in o else (PP, pkw, 0, 1, o.get("order"), o.get("filter_objects"))
    got = w.list(w.m(sc, "all_paths", *by_pos(), **vkw) if positional == "all" else w.m(sc, "all_paths", PP, **kw) if positional else w.m(sc, "all_paths", path_cls=PP, **kw))
    lo, hi = lohi(o)
    want = [x for k in S.candidates(len(objs), lo, hi, excl) for x in k]
    seen = []
    for r in got:
        r = w.list(r)
        req(len(r) == 5, f"{what}: results have {len(r)} entries")
        t, rr, valid, path, cand = r
        ci = ints(cand)
        lab = f"{what}: {t}->{rr} via {ci}"
        req(t in txs and rr in rxs, f"{lab}: unknown names")
        seen.append((t, rr, ci))
        p = expect_path(w, PP, txs[t], objs, ci, rxs[rr], None, pkw)
        req(path.cls is p.cls, f"{lab}: path of class {path.cls.__name__}")
        eq(w.at(path, "xys"), w.at(p, "xys"), f"{lab}: vertices")
        eq(valid, w.probe_valid(p, objs, ci, [objs[i] for i in ci], (), dict(vkw)), f"{lab}: validity")
    exp = [(t, r, k) for t in txs for r in rxs for k in want]
    req(len(set(seen)) == len(seen), f"{what}: a pair/candidate is enumerated twice")
    req(set(seen) == set(exp), f"{what}: missing {sorted(set(exp) - set(seen))[:4]}, unexpected {sorted(set(seen) - set(exp))[:4]}")
    c.case(max(1, len(got)))


@ob("C18", "every pair and candidate once", "partial evaluation of the enumeration with uninterpreted objects and paths, value numbering of each result")
def _(c):
    for nm, kinds in MIX.items():
        w = c.world()
        sc, txs, rxs, objs = probe_scene(w, 2, 3, kinds)
        enum_check(c, w, sc, txs, rxs, objs, f"all_paths ({nm})")
        enum_check(c, w, sc, txs, rxs, objs, f"all_paths ({nm}, order 2)", {"order": 2})
        enum_check(c, w, sc, txs, rxs, objs, f"all_paths ({nm}, 1..2)", {"min_order": 1, "max_order": 2})
    for ntx, nrx, kinds in ((0, 2, ("Blob",)), (2, 0, ("Blob",)), (1, 1, ()), (3, 2, ("Blob",)), (1, 1, ("BlobZ", "Blob2"))) + tuple((n, 1, ("Blob",)) for n in c.sizes([2], 30)):
        w = c.world()
        sc, txs, rxs, objs = probe_scene(w, ntx, nrx, kinds)
        enum_check(c, w, sc, txs, rxs, objs, f"all_paths ({ntx} transmitters, {nrx} receivers, {len(kinds)} objects)", {"max_order": 2})
    for n in c.sizes([4], 24):
        w = c.world()
        for kinds in (("Blob",) * n, ("Blob", "BlobB") * (n // 2) + ("Blob",) * (n % 2)):
            sc, txs, rxs, objs = probe_scene(w, 1, 1, kinds)
            enum_check(c, w, sc, txs, rxs, objs, f"all_paths ({n} objects)", {"max_order": 2 if n < 7 else 1})


# names that run into each other when joined, empty names, unsorted names
NAMES = ((list(ODD[:6]), ["x"]), (["x"], list(ODD[6:])), (["Tx", "TX"], ["tx", " tx"]), (["a", "ab"], ["c", "bc"]), (["", "a"], ["", "a"]), (["z", "y", "x"], ["b"]), (["t"], ["r2", "r10", "r1"]), (["n", "m"], ["n"]), (["n"], ["m", "n"]), (["a", "a,b"], ["c", "b,c"]), (["(0, 1)", "0"], ["0", "None"]), (["tx"], ["rx"]), (["rx", "tx"], ["tx"]), (["tx", "a"], ["rx", "b"]))


@ob("C18", "node names and counts", "the same, with names that collide when joined, are empty or unsorted, and unequal node counts")
def _(c):
    for names in NAMES:
        w = c.world()
        sc, txs, rxs, objs = probe_scene(w, kinds=("Blob", "BlobB"), names=names)
        enum_check(c, w, sc, txs, rxs, objs, f"all_paths (transmitters {names[0]}, receivers {names[1]})")
        got = {}
        for r in w.list(w.call(w.at(sc, "all_transmitter_receiver_pairs"))):
            (t, tx), (k, rx) = (w.list(x, 2) for x in w.list(r, 2))
            req((t, k) not in got, f"the pair {(t, k)} is enumerated twice")
            got[(t, k)] = 1
            eq(w.at(tx, "xy"), w.at(txs[t], "xy"), f"pair {(t, k)}: transmitter")
            eq(w.at(rx, "xy"), w.at(rxs[k], "xy"), f"pair {(t, k)}: receiver")
        req(set(got) == {(t, k) for t in txs for k in rxs}, f"all_transmitter_receiver_pairs gives {sorted(got)}")
        c.case()


@ob("C18", "one node in both roles", "the same, when one Point object is a transmitter and a receiver")
def _(c):
    for kinds in (("Blob", "BlobB"), ()):
        w = c.world()
        P = w.get("geometry", "Point")
        a, b = w.call(P, xy=sym("a", 2)), w.call(P, xy=sym("b", 2))
        txs, rxs = {"a": a, "b": b}, {"b": b, "a2": a}
        objs = [w.blob(f"o{i}", k) for i, k in enumerate(kinds)]
        sc = w.call(w.get("scene", "Scene"), transmitters=txs, receivers=rxs, objects=objs)
        enum_check(c, w, sc, txs, rxs, objs, "all_paths (shared node objects)", {"max_order": 2})
        PP, fun = w.client.vars["ProbePath"], w.probe_fun()
        want = {(t, r): acc_spec(w, PP, txs[t], objs, flat_cands(len(kinds), {}), rxs[r], fun) for t in txs for r in rxs}
        pairs_check(w, w.list(w.m(sc, "accumulate_over_paths", fun, path_cls=PP)), want, "accumulate_over_paths (shared node objects)")
        c.case()


@ob("C18", "options", "value numbering: path and validity options and filters reach the calls concerned")
def _(c):
    w = c.world()
    pkw = {"steps": 7, "many": sym("many")}
    vkw = {"tol": sym("tol"), "patch": sym("patch"), "alpha": sym("alpha"), "function": S.opaque_act()}
    for kinds in MIX.values():
        for ap in (None, True, False):
            sc, txs, rxs, objs = probe_scene(w, 1, 2, kinds)
            a = {} if ap is None else {"approx": ap}
            enum_check(c, w, sc, txs, rxs, objs, f"all_paths with options, approx={ap}", {"max_order": 2}, pkw, {**vkw, **a}, PP=w.client.vars["ProbePathB"], positional=True)
            enum_check(c, w, sc, txs, rxs, objs, f"all_paths with options by position, approx={ap}", {"min_order": 1, "max_order": 2}, pkw, {**vkw, **a}, PP=w.client.vars["ProbePathB"], positional="all")
            enum_check(c, w, sc, txs, rxs, objs, f"all_paths with options by position, one order, approx={ap}", {"order": 2}, pkw, {**vkw, **a}, PP=w.client.vars["ProbePathB"], positional="all")
    sc, txs, rxs, objs = probe_scene(w, 2, 1, ("Blob", "BlobB", "Blob"))
    enum_check(c, w, sc, txs, rxs, objs, "all_paths, filter by position", {"order": 1, "filter_objects": tagpred(w, ["o1"])}, excl=(0, 2), positional="all")
    for keep in ((0, 2), (1,), (), (0, 1)):
        excl = tuple(i for i in range(3) if i not in keep)
        enum_check(c, w, sc, txs, rxs, objs, f"all_paths keeping {keep}", {"max_order": 2, "filter_objects": tagpred(w, [f"o{i}" for i in keep])}, excl=excl)
    # default path class
    got = w.list(w.m(sc, "all_paths", max_order=0))
    req(len(got) == 2 and all(w.list(g)[3].cls.__name__ == "ImagePath" for g in got), "all_paths: the default path class is not ImagePath")


@ob("C18", "interacting objects", "value numbering: the objects designated by a candidate, in order")
def _(c):
    for nm, kinds in list(MIX.items()) + [("one", ("Blob",)), ("two same", ("Blob2", "Blob2")), ("two", ("Blob", "BlobB"))]:
        w = c.world()
        sc, _, _, objs = probe_scene(w, 1, 1, kinds)
        for ci in [x for k in S.candidates(len(kinds), 0, 3) for x in k]:
            got = w.list(w.m(sc, "get_interacting_objects", jnp.array(list(ci), dtype=int)))
            req(len(got) == len(ci), f"get_interacting_objects({ci}) returns {len(got)} objects")
            for k, (g, i) in enumerate(zip(got, ci)):
                req(isinstance(g, Inst) and g.cls is objs[i].cls, f"get_interacting_objects({ci}) ({nm}): object {k} is {g!r:.60}")
                eq(w.at(g, "tag"), w.at(objs[i], "tag"), f"get_interacting_objects({ci}) ({nm}): object {k}")
            c.case()


@ob("C18", "valid paths only", "partition on validity outcomes: yielded exactly when the validity is true in the requested mode")
def _(c):
    tol = sym("tol")
    for g in (False, True):
        for ap in (None, True, False):
            for kinds, o, vkw, pkw in (
                (("Blob",), {}, {}, {}),
                (("Blob", "BlobB"), {}, {}, {}),
                (("Blob", "BlobB"), {"order": 3}, {}, {}),
                (("Blob", "BlobB"), {"order": 2}, {}, {}),
                (("Blob",), {"max_order": 1}, {"patch": sym("patch"), "alpha": sym("alpha"), "function": S.opaque_act()}, {"steps": 7, "many": sym("many")}),
                (("Blob", "BlobB", "Blob"), {"order": 1, "filter_objects": None}, {"patch": sym("patch")}, {}),
                ((), {}, {}, {}),
            ):
                w = c.world(glob=g)
                sc, txs, rxs, objs = probe_scene(w, 1, 1 if len(kinds) > 1 else 2, kinds)
                excl = ()
                if "filter_objects" in o:
                    o, excl = {**o, "filter_objects": tagpred(w, ["o0", "o2"])}, (1,)
                if not kinds:
                    sc, txs, rxs, objs = probe_scene(w, 2, 2, ())
                PP = w.client.vars["ProbePath"]
                a = {} if ap is None else {"approx": ap}
                parts = w.partition(lambda: w.list(w.m(sc, "all_valid_paths", path_cls=PP, tol=tol, **a, **o, **vkw, **({"path_cls_kwargs": pkw} if pkw else {}))))
                is_true = w.get("logic", "is_true")
                for asg, res in parts:
                    got = {}
                    for r in res:
                        t, rr, path, cand = w.list(r, 4)
                        ci = ints(cand)
                        req((t, rr, ci) not in got, f"all_valid_paths yields {(t, rr, ci)} twice")
                        got[(t, rr, ci)] = path
                    for t in txs:
                        for rr in rxs:
                            for ci in [x for k in S.candidates(len(objs), *lohi(o), excl) for x in k]:
                                p = expect_path(w, PP, txs[t], objs, ci, rxs[rr], None, pkw)
                                v = w.probe_valid(p, objs, ci, [objs[i] for i in ci], (), {"tol": tol, **a, **vkw})
                                tv = asarray(w.call(is_true, v, **a))
                                want = None
                                for n, val in asg:
                                    if Canon().eq(n, tv.data[0]):
                                        want = val
                                    elif Canon().eq(n, N.bnot(tv.data[0])):
                                        want = not val
                                lab = f"all_valid_paths (approx={ap}, default {g}): {t}->{rr} via {ci}"
                                if tv.data[0].op == "const":
                                    want = tv.data[0].attr
                                req(want is not None, f"{lab}: its validity is never tested in the requested mode")
                                req(((t, rr, ci) in got) == want, f"{lab}: {'yielded although not valid' if not want else 'valid but not yielded'}")
                                if want:
                                    eq(w.at(got[(t, rr, ci)], "xys"), w.at(p, "xys"), f"{lab}: vertices")
                c.case(len(parts))


# ---------------------------------------------------------------- C19
def acc_spec(w, PP, tx, objs, cands, rx, fun, fa=(), fk=None, vkw=None, pkw=None, txobj=None, rxobj=None, keys=None):
    s = asarray(0.0)
    for j, ci in enumerate(cands):
        p = expect_path(w, PP, tx, objs, ci, rx, keys[j] if keys else None, pkw)
        inter = [objs[i] for i in ci]
        v = w.probe_valid(p, objs, ci, inter, (), dict(vkw or {}))
        s = s + asarray(v).cast("f") * fun(txobj or tx, rxobj or rx, p, inter, *fa, **(fk or {}))
    return s


def flat_cands(n, o, excl=()):
    return [x for k in S.candidates(n, *lohi(o), excl) for x in k]


@ob("C19", "accumulation over pairs", "value numbering: sum of validity times the uninterpreted user function, per pair, and reduced")
def _(c):
    fa, fk = (sym("fa"), 3), {"r_coef": sym("fk"), "opt": "x"}
    for nm, kinds in MIX.items():
        for ap, g in ((None, False), (True, False), (False, True), (None, True)):
            w = c.world(glob=g)
            sc, txs, rxs, objs = probe_scene(w, 2, 2, kinds)
            PP = w.client.vars["ProbePath"]
            fun = w.probe_fun()
            a = {} if ap is None else {"approx": ap}
            vkw = {"tol": sym("tol"), "patch": sym("patch"), **a}
            for o in ({}, {"max_order": 2}, {"order": 1}, {"order": 0}):
                if o.get("max_order") == 2 and (nm != "same" and not c.thorough):
                    continue
                cands = flat_cands(3, o)
                want = {(t, r): acc_spec(w, PP, txs[t], objs, cands, rxs[r], fun, fa, fk, vkw, {"steps": 3}) for t in txs for r in rxs}
                got = w.list(w.m(sc, "accumulate_over_paths", fun, fa, fk, path_cls=PP, path_cls_kwargs={"steps": 3}, **o, **vkw))
                lab = f"accumulate_over_paths ({nm}, {o}, approx={ap}, default {g})"
                pairs_check(w, got, want, lab)
                tot = w.m(sc, "accumulate_over_paths", fun, fun_args=fa, fun_kwargs=fk, reduce_all=True, path_cls=PP, path_cls_kwargs={"steps": 3}, **o, **vkw)
                s = asarray(0.0)
                for v in want.values():
                    s = s + v
                eq(tot, s, f"{lab}, reduced")
                c.case(2)


def pairs_check(w, got, want, lab):
    seen = {}
    for r in got:
        t, rr, v = w.list(r, 3)
        req((t, rr) not in seen, f"{lab}: pair {(t, rr)} appears twice")
        req((t, rr) in want, f"{lab}: unexpected pair {(t, rr)}")
        seen[(t, rr)] = v
        eq(v, want[(t, rr)], f"{lab}: {t}->{rr}")
    req(len(seen) == len(want), f"{lab}: pairs {sorted(set(want) - set(seen))} are missing")


@ob("C19", "no path, no node, filters", "value numbering: zero contributions, empty sums, rejected objects")
def _(c):
    w = c.world()
    PP, fun = w.client.vars["ProbePath"], w.probe_fun()
    sc, txs, rxs, objs = probe_scene(w, 2, 1, ("Blob",))
    for n in c.sizes([0, 1, 4], 12):
        fa, fk = tuple(sym(f"fa{i}_") for i in range(n)), {f"k{i}": sym(f"fk{i}_") for i in range(4 - min(n, 4))}
        want = {(t, r): acc_spec(w, PP, txs[t], objs, flat_cands(1, {}), rxs[r], fun, fa, fk) for t in txs for r in rxs}
        pairs_check(w, w.list(w.m(sc, "accumulate_over_paths", fun, fa, fk, path_cls=PP)), want, f"accumulate_over_paths ({n} extra arguments)")
        c.case()
    for ntx, nrx, kinds, o in ((2, 2, (), {"order": 1}), (1, 2, ("Blob",), {"order": 2}), (2, 2, ("Blob",), {"min_order": 2, "max_order": 1}), (0, 2, ("Blob",), {}), (2, 0, ("Blob",), {}), (1, 1, (), {}), (2, 3, ("Blob", "BlobB"), {})):
        sc, txs, rxs, objs = probe_scene(w, ntx, nrx, kinds)
        want = {(t, r): acc_spec(w, PP, txs[t], objs, flat_cands(len(kinds), o), rxs[r], fun) for t in txs for r in rxs}
        lab = f"accumulate_over_paths ({ntx}x{nrx} nodes, {len(kinds)} objects, {o})"
        pairs_check(w, w.list(w.m(sc, "accumulate_over_paths", fun, path_cls=PP, **o)), want, lab)
        s = asarray(0.0)
        for v in want.values():
            s = s + v
        eq(w.m(sc, "accumulate_over_paths", fun, reduce_all=True, path_cls=PP, **o), s, f"{lab}, reduced")
        c.case(2)
    sc, txs, rxs, objs = probe_scene(w, 1, 2, ("Blob", "BlobB", "Blob"))
    for keep in ((0, 2), (1,), ()):
        excl = tuple(i for i in range(3) if i not in keep)
        cands = flat_cands(3, {"max_order": 2}, excl)
        want = {(t, r): acc_spec(w, PP, txs[t], objs, cands, rxs[r], fun) for t in txs for r in rxs}
        pairs_check(w, w.list(w.m(sc, "accumulate_over_paths", fun, path_cls=PP, max_order=2, filter_objects=tagpred(w, [f"o{i}" for i in keep]))), want, f"accumulate_over_paths keeping {keep}")
        c.case()


@ob("C19", "node names and counts", "value numbering: one sum per pair whatever the names and counts of the nodes")
def _(c):
    for names in NAMES:
        w = c.world()
        PP, fun = w.client.vars["ProbePath"], w.probe_fun()
        sc, txs, rxs, objs = probe_scene(w, kinds=("Blob",), names=names)
        want = {(t, r): acc_spec(w, PP, txs[t], objs, flat_cands(1, {}), rxs[r], fun) for t in txs for r in rxs}
        lab = f"accumulate_over_paths (transmitters {names[0]}, receivers {names[1]})"
        pairs_check(w, w.list(w.m(sc, "accumulate_over_paths", fun, path_cls=PP)), want, lab)
        s = asarray(0.0)
        for v in want.values():
            s = s + v
        eq(w.m(sc, "accumulate_over_paths", fun, reduce_all=True, path_cls=PP), s, f"{lab}, reduced")
        for side in ("transmitter", "receiver"):
            grid_case(c, w, side, sc, txs, rxs, objs, f"accumulate_on_{side}s_grid_over_paths (transmitters {names[0]}, receivers {names[1]})", (1, 2))
        c.case(2)


def grid_case(c, w, side, sc, txs, rxs, objs, lab, shape=(2, 3), o=None, excl=(), mode=None, red=False, ncls=None, fa=(), fk=None, vkw=None, pkw=None, extra=None, pos_args=None):
    """One grid accumulation against the scene with that node moved there."""
    o = dict(o or {})
    PP, fun = w.client.vars["ProbePath"], w.probe_fun()
    X, Y = sym("X", *shape), sym("Y", *shape)
    kw = {"path_cls": PP, **o, **(vkw or {}), **(extra or {})}
    if pkw is not None:
        kw["path_cls_kwargs"] = pkw
    if fk is not None:
        kw["fun_kwargs"] = fk
    if mode:
        kw[mode] = True
    if red:
        kw["reduce_all"] = True
    if ncls is not None:
        kw[f"{side}_cls"] = ncls
    cls = ncls or w.get("geometry", "Point")
    if fa:
        kw["fun_args"] = fa
    by_pos = [] if pos_args is None else [kw.pop("fun_args", ()), kw.pop("fun_kwargs", None)]
    got = w.m(sc, f"accumulate_on_{side}s_grid_over_paths", X, Y, fun, *by_pos, **kw)
    cands = flat_cands(len(objs), o, excl)
    others = rxs if side == "transmitter" else txs
    want = {}
    for k, other in others.items():
        def facc(xy, other=other):
            mv = w.call(cls, xy=xy)
            t, r = (mv, other) if side == "transmitter" else (other, mv)
            return acc_spec(w, PP, t, objs, cands, r, fun, fa, fk, vkw, pkw)

        vals, grads = [], []
        for i in range(shape[0]):
            for j in range(shape[1]):
                xy = jnp.stack([X[i, j], Y[i, j]])
                if mode:
                    v, g = J.value_and_grad(facc)(xy)
                    grads.append(g)
                else:
                    v = facc(xy)
                vals.append(v)
        V = jnp.stack(vals).reshape(*shape)
        G = jnp.stack(grads).reshape(*shape, 2) if mode else None
        want[k] = V if not mode else G if mode == "grad" else (V, G)
    if red:
        if mode == "value_and_grad":
            s = (asarray(0.0), asarray(0.0))
            for v in want.values():
                s = (s[0] + v[0], s[1] + v[1])
        else:
            s = asarray(0.0)
            for v in want.values():
                s = s + v
        eq(tuple(w.list(got, 2)) if mode == "value_and_grad" else got, s, lab)
    else:
        seen = []
        for r in w.list(got):
            k, v = w.list(r, 2)
            req(k in want and k not in seen, f"{lab}: unexpected or repeated name {k}")
            seen.append(k)
            if mode == "value_and_grad":
                v = tuple(w.list(v, 2))
            eq(v, want[k], f"{lab}: {k}")
        req(len(seen) == len(want), f"{lab}: {sorted(set(want) - set(seen))} missing")
    c.case()


GRID_MODES = [(m, r) for m in (None, "grad", "value_and_grad") for r in (False, True)]


def _grid_ob(side):
    @ob("C19", f"{side} grids", "value numbering against moving that node to each grid point; gradients by differentiation of the value graph")
    def _(c):
        fa, fk = (sym("fa"), 3), {"r_coef": sym("fk")}
        for nm, kinds in MIX.items():
            for mode, red in GRID_MODES:
                w = c.world()
                sc, txs, rxs, objs = probe_scene(w, 2, 3, kinds)
                grid_case(c, w, side, sc, txs, rxs, objs, f"accumulate_on_{side}s_grid_over_paths ({nm}, {mode or 'value'}{', reduced' if red else ''})", mode=mode, red=red)
                if nm == "subclasses" or c.thorough:
                    grid_case(c, w, side, sc, txs, rxs, objs, f"accumulate_on_{side}s_grid_over_paths ({nm}, {mode or 'value'}{', reduced' if red else ''}, options)", (3, 2), {"max_order": 2, "min_order": 1}, mode=mode, red=red,
                              ncls=w.client.vars["Node"], fa=fa, fk=fk, vkw={"tol": sym("tol"), "patch": sym("patch")}, pkw={"steps": 3})
        for ap, g in ((None, True), (True, False), (False, True), (None, False)):
            w = c.world(glob=g)
            sc, txs, rxs, objs = probe_scene(w, 1, 1, ("Blob",))
            grid_case(c, w, side, sc, txs, rxs, objs, f"accumulate_on_{side}s_grid_over_paths (approx={ap}, default {g})", (1, 2), vkw={} if ap is None else {"approx": ap}, fa=fa)
        w = c.world()
        for ntx, nrx, kinds, o in ((1, 0, ("Blob",), {}), (0, 1, ("Blob",), {}), (0, 2, ("Blob",), {"order": 0}), (2, 0, ("Blob",), {"order": 0}), (1, 1, (), {}), (1, 1, ("Blob",), {"order": 1})):
            sc, txs, rxs, objs = probe_scene(w, ntx, nrx, kinds)
            grid_case(c, w, side, sc, txs, rxs, objs, f"accumulate_on_{side}s_grid_over_paths ({ntx}x{nrx} nodes, {len(kinds)} objects, {o})", o=o)
        sc, txs, rxs, objs = probe_scene(w, 2, 2, ("Blob", "BlobB", "Blob"))
        for keep in ((0, 2), (1,)):
            grid_case(c, w, side, sc, txs, rxs, objs, f"accumulate_on_{side}s_grid_over_paths keeping {keep}", o={"max_order": 2, "filter_objects": tagpred(w, [f"o{i}" for i in keep])}, excl=tuple(i for i in range(3) if i not in keep))
        sc, txs, rxs, objs = probe_scene(w, 2, 2, ("Blob", "BlobB"))
        for n in c.sizes([0, 1, 4], 12):
            grid_case(c, w, side, sc, txs, rxs, objs, f"accumulate_on_{side}s_grid_over_paths ({n} extra arguments)", (1, 2), fa=tuple(sym(f"fa{i}_") for i in range(n)), fk={f"k{i}": sym(f"fk{i}_") for i in range(4 - min(n, 4))}, pos_args=True)
        for red in (False, True):
            grid_case(c, w, side, sc, txs, rxs, objs, f"accumulate_on_{side}s_grid_over_paths (value_and_grad over grad{', reduced' * red})", (1, 2), mode="value_and_grad", red=red, extra={"grad": True})
        for sh in ((1, 1), (3, 1), (1, 3), (2, 2)):
            sc, txs, rxs, objs = probe_scene(w, 1, 2, ("Blob",))
            grid_case(c, w, side, sc, txs, rxs, objs, f"accumulate_on_{side}s_grid_over_paths on a {sh} grid", sh)


for _s in ("transmitter", "receiver"):
    _grid_ob(_s)


# ---------------------------------------------------------------- C20
class KeyLog:
    """Random-key uses of one abstract run (key typestate)."""

    def __init__(self, w, what, given=True):
        self.w, self.what, self.given = w, what, given

    def __enter__(self):
        J.Events.reset()
        return self

    def __exit__(self, et, ev, tb):
        if et is not None:
            return False
        c = self.c = Canon()
        self.uses = {}
        self.draws = []
        for fn, node, loc, frames in J.Events.keys:
            k = c.r(node).id
            if k in self.uses:
                f0, l0 = self.uses[k]
                raise Mismatch(f"{self.what}: the same random key is consumed twice, by {f0} at {l0} and by {fn} at {loc}", loc)
            self.uses[k] = (fn, loc)
            if fn != "split":
                self.draws.append(node)
            self.origin(node, loc)
        if J.Events.impure:
            nm, loc = J.Events.impure[0]
            raise Mismatch(f"{self.what}: result depends on {nm}, a hidden source of change", loc)
        if not self.given and self.uses:
            fn, loc = next(iter(self.uses.values()))
            raise Mismatch(f"{self.what}: {fn} draws randomness although no key is given", loc)
        return False

    def origin(self, node, loc=None):
        """A key must derive from the caller's."""
        n = node
        while n.op == "app" and n.attr[1][0] in ("split", "fold"):
            n = n.attr[1][1]
        good = n.op == "app" and n.attr[1][0] == "seed" and isinstance(n.attr[1][1], N.Node) and n.attr[1][1].op == "var"
        if not good:
            raise Mismatch(f"{self.what}: a random key does not derive from the one supplied by the caller", loc or n.loc)

    def distinct(self, keys, labels, unused=True):
        """Keys handed to clients are pairwise distinct and not consumed elsewhere."""
        seen = {}
        for k, lab in zip(keys, labels):
            if k is None:
                raise Mismatch(f"{self.what}: no random key reaches {lab}")
            self.origin(k)
            i = self.c.r(k).id
            if i in seen:
                raise Mismatch(f"{self.what}: {lab} and {seen[i]} receive the same random key", k.loc)
            if unused and i in self.uses:
                raise Mismatch(f"{self.what}: the key given to {lab} is also consumed by {self.uses[i][0]} at {self.uses[i][1]}", self.uses[i][1])
            seen[i] = lab


def trace_keys(*vals):
    """{(tx, objects, rx) -> key node} of the uninterpreted paths in a value graph."""
    out = {}
    for n in N.walk([e for v in vals for e in asarray(v).data]):
        for m in ([n] if n.op == "app" and n.attr[0] == "trace" else []):
            k = m.attr[1][0]
            key = k[4][2][0] if k[4] is not None else None
            out.setdefault((repr(k[1]), repr(k[2]), repr(k[3])), []).append(key)
    return out


def supplied():
    return J.r_key(sym("seed"))


@ob("C20", "paths and candidates", "key linearity: each traced path gets its own key derived from the caller's")
def _(c):
    for kinds in (MIX["same"], MIX["last differs"]):
        for ntx, nrx, o in ((1, 1, {"max_order": 2}), (2, 2, {}), (2, 1, {"order": 1}), (1, 2, {"order": 0})):
            w = c.world()
            sc, txs, rxs, objs = probe_scene(w, ntx, nrx, kinds)
            PP = w.client.vars["ProbePath"]
            what = f"all_paths ({ntx}x{nrx} nodes, {o})"
            with KeyLog(w, what) as log:
                got = [w.list(r, 5) for r in w.list(w.m(sc, "all_paths", path_cls=PP, key=supplied(), **o))]
            ks, labs = [], []
            for t, r, _, p, ci in got:
                k = w.at(p, "xys").data[0].attr[1][0][4]
                ks.append(None if k is None else k[2][0])
                labs.append(f"{t}->{r} via {ints(ci)}")
            log.distinct(ks, labs)
            with KeyLog(w, what, given=False):
                got = [w.list(r, 5) for r in w.list(w.m(sc, "all_paths", path_cls=PP, **o))]
            for t, r, _, p, ci in got:
                req(w.at(p, "xys").data[0].attr[1][0][4] is None, f"{what}: a random key is made up when none is given")
            c.case(2)
            fun = w.probe_fun()
            what = f"accumulate_over_paths ({ntx}x{nrx} nodes, {o})"
            with KeyLog(w, what) as log:
                got = [w.list(r, 3) for r in w.list(w.m(sc, "accumulate_over_paths", fun, path_cls=PP, key=supplied(), **o))]
            ks, labs = [], []
            for k, v in trace_keys(*[r[2] for r in got]).items():
                for x in {log.c.r(y).id if y is not None else None: y for y in v}.values():
                    ks.append(x)
                    labs.append(f"path {k[1]:.80}")
            req(len(ks) == ntx * nrx * len(flat_cands(3, o)), f"{what}: {len(ks)} keys for {ntx * nrx * len(flat_cands(3, o))} paths")
            log.distinct(ks, labs)
            with KeyLog(w, what):
                w.m(sc, "accumulate_over_paths", fun, reduce_all=True, path_cls=PP, key=supplied(), **o)
            c.case(2)


@ob("C20", "grids", "key linearity: each candidate gets its own key, shared by the grid points")
def _(c):
    for side in ("transmitter", "receiver"):
        for mode in (None, "grad", "value_and_grad"):
            for kinds in (MIX["same"], MIX["last differs"]):
                w = c.world()
                sc, txs, rxs, objs = probe_scene(w, 2, 2, kinds)
                PP, fun = w.client.vars["ProbePath"], w.probe_fun()
                kw = {mode: True} if mode else {}
                what = f"accumulate_on_{side}s_grid_over_paths ({mode or 'value'})"
                with KeyLog(w, what) as log:
                    got = [w.list(r, 2) for r in w.list(w.m(sc, f"accumulate_on_{side}s_grid_over_paths", sym("X", 2, 2), sym("Y", 2, 2), fun, path_cls=PP, key=supplied(), max_order=1, **kw))]
                vals = []
                for _, v in got:
                    vals += w.list(v) if mode == "value_and_grad" else [v]
                per = {}
                for (t, ob_, r), ks in trace_keys(*vals).items():
                    for k in ks:
                        req(k is not None, f"{what}: no random key reaches a path")
                        per.setdefault(ob_, {})[log.c.r(k).id] = k
                if mode == "grad" and len(per) < 4:
                    raise Undecided(f"{what}: {len(per)} candidates visible")
                req(len(per) == 4, f"{what}: {len(per)} candidates traced instead of 4")
                for ob_, ks in per.items():
                    req(len(ks) == 1, f"{what}: one candidate is traced with {len(ks)} different keys")
                log.distinct([next(iter(k.values())) for k in per.values()], [f"candidate {o_:.60}" for o_ in per])
                with KeyLog(w, what, given=False):
                    got = w.list(w.m(sc, f"accumulate_on_{side}s_grid_over_paths", sym("X", 1, 1), sym("Y", 1, 1), fun, path_cls=PP, **kw))
                c.case(2)


@ob("C20", "many candidates", "key linearity: keys stay pairwise distinct over large candidate sets")
def _(c):
    for n, o in [(12, {"max_order": 2}), (4, {"max_order": 4}), (3, {"order": 5})] + [(k, {"max_order": 1}) for k in c.sizes([5], 40) if k > 12]:
        w = c.world()
        sc, txs, rxs, objs = probe_scene(w, 1, 1, ("Blob",) * n)
        PP, fun = w.client.vars["ProbePath"], w.probe_fun()
        cands = flat_cands(n, o)
        what = f"all_paths ({n} objects, {o})"
        with KeyLog(w, what) as log:
            got = [w.list(r, 5) for r in w.list(w.m(sc, "all_paths", path_cls=PP, key=supplied(), **o))]
        ks = [w.at(p, "xys").data[0].attr[1][0][4] for _, _, _, p, _ in got]
        log.distinct([None if k is None else k[2][0] for k in ks], [f"candidate {ints(r[4])}" for r in got])
        for side in ("transmitter", "receiver"):
            what = f"accumulate_on_{side}s_grid_over_paths ({n} objects, {o})"
            with KeyLog(w, what) as log:
                got = [w.list(r, 2) for r in w.list(w.m(sc, f"accumulate_on_{side}s_grid_over_paths", sym("X", 1, 1), sym("Y", 1, 1), fun, path_cls=PP, key=supplied(), **o))]
            per = {}
            for (_, ob_, _), kk in trace_keys(*[v for _, v in got]).items():
                for k in kk:
                    req(k is not None, f"{what}: no random key reaches a path")
                    per.setdefault(ob_, {})[log.c.r(k).id] = k
            req(len(per) == len(cands), f"{what}: {len(per)} candidates traced instead of {len(cands)}")
            for ks in per.values():
                req(len(ks) == 1, f"{what}: one candidate is traced with {len(ks)} different keys")
            log.distinct([next(iter(k.values())) for k in per.values()], [f"candidate {o_:.60}" for o_ in per])
        c.case(3)


@ob("C20", "optimisers and optimised paths", "key linearity: one draw per trial, from distinct keys")
def _(c):
    w = c.world()
    fun = probe_obj()
    kw = {"optimizer": opaque_opt(), "steps": 1}
    draws_of = lambda v: {n.uid: n for a in J.tree_leaves(v) for n in N.walk(asarray(a).data) if n.op == "app" and n.attr[0] == "draw"}
    for n in c.sizes([1, 2, 3], 40):
        with KeyLog(w, "minimize_random_uniform") as log:
            r = w.call(w.get("optimize", "minimize_random_uniform"), fun, supplied(), n, **kw)
        req(log.draws, "minimize_random_uniform: the start does not depend on the key")
        draw_shape(w, log, r, n, 1, "minimize_random_uniform")
        for many in (1, 2, 3, 5) if n > 1 else sorted({1, 2, 3, 5, *c.sizes([6], 66)}):
            what = f"minimize_many_random_uniform (many={many})"
            with KeyLog(w, what) as log:
                r = w.call(w.get("optimize", "minimize_many_random_uniform"), fun, supplied(), n, many=many, **kw)
            draw_shape(w, log, r, n, many, what)
            c.case()
    for cls in ("FermatPath", "MinPath"):
        for kinds in (("Blob",), ("Blob2", "BlobZ", "Blob")):
            for many in (1, 3):
                objs = [w.blob(f"o{i}", k) for i, k in enumerate(kinds)]
                what = f"{cls} over {'+'.join(kinds)} (many={many})"
                with KeyLog(w, what) as log:
                    p = w.call(w.at(w.get("geometry", cls), "from_tx_objects_rx"), sym("tx", 2), objs, sym("rx", 2), key=supplied(), many=many, **kw)
                draw_shape(w, log, (w.at(p, "xys"), w.at(p, "loss")), {1: 1, 3: 3}[len(kinds)], many, what)
                c.case()


def draw_shape(w, log, r, n, many, what):
    """Every trial starts from n draws of its own."""
    ds = {}
    for v in J.tree_leaves(r if not isinstance(r, Inst) else (r,)):
        for m in N.walk(asarray(v).data):
            if m.op == "app" and m.attr[0] == "draw":
                ds[log.c.key(m)] = m
    want = n * many
    req(len(ds) == want, f"{what}: {len(ds)} distinct random numbers for {many} trials of {n} unknowns")
    req(all(m.attr[1][0] == "uniform" for m in ds.values()), f"{what}: starts are not uniform draws")


@ob("C20", "random scenes", "key linearity: every coordinate is a draw of its own")
def _(c):
    w = c.world()
    cls = w.get("scene", "Scene")
    for a, b, d in ((1, 1, 1), (2, 3, 2), (3, 1, 2), (1, 4, 3), (0, 2, 1), (2, 0, 2), (1, 1, 0)) + tuple((n, 1, 1) for n in c.sizes([4], 40)):
        what = f"random_uniform_scene({a}, {b}, {d})"
        with KeyLog(w, what) as log:
            sc = w.call(w.at(cls, "random_uniform_scene"), n_transmitters=a, n_walls=b, n_receivers=d, key=supplied())
        scene_draws(w, sc, a, b, d, what)
        c.case()


def scene_draws(w, sc, a, b, d, what):
    T, R, O = items(w, w.at(sc, "transmitters")), items(w, w.at(sc, "receivers")), w.list(w.at(sc, "objects"))
    req((len(T), len(O), len(R)) == (a, b, d), f"{what}: has {len(T)} transmitters, {len(O)} walls and {len(R)} receivers")
    cs = [(f"transmitter {k}", x) for k, p in T for x in w.at(p, "xy").data] + [(f"receiver {k}", x) for k, p in R for x in w.at(p, "xy").data]
    cs += [(f"wall {i}", x) for i, o in enumerate(O) for x in w.at(o, "xys").data]
    req(all(w.at(x, "xy").shape == (2,) for _, x in T + R), f"{what}: a node without two coordinates")
    req(all(w.at(o, "xys").shape == (2, 2) for o in O), f"{what}: the shapes of the walls are {[w.at(o, 'xys').shape for o in O]}")
    c, seen = Canon(), {}
    for lab, x in cs:
        req(x.op == "app" and x.attr[0] == "draw", f"{what}: a coordinate of {lab} is not a random draw", x.loc)
        req(x.attr[1][0] == "uniform", f"{what}: a coordinate of {lab} is a {x.attr[1][0]} draw", x.loc)
        k = c.key(x)
        req(k not in seen, f"{what}: {lab} and {seen.get(k)} share a coordinate", x.loc)
        seen[k] = lab


@ob("C20", "no hidden randomness", "purity: no clock, entropy source or made-up key anywhere; equal value numbers for two runs with the same key")
def _(c):
    w = c.world()
    cls = w.get("scene", "Scene")
    with KeyLog(w, "keyless operations", given=False):
        for nm in ("basic_scene", "square_scene", "square_scene_with_wall", "square_scene_with_obstacle"):
            w.call(w.at(cls, nm))
        sc = w.call(w.at(cls, "square_scene"))
        w.list(w.m(sc, "all_paths", order=1))
        sc, txs, rxs, objs = probe_scene(w, 1, 1)
        w.m(sc, "bounding_box")
        p = w.call(w.get("geometry", "Path"), xys=sym("q", 3, 2))
        w.m(p, "is_valid", objs, jnp.array([0], dtype=int), objs[:1])
        w.call(w.get("optimize", "minimize"), probe_obj(), sym("x", 2), steps=2)
    c.case(6)
    kw = {"optimizer": opaque_opt(), "steps": 1}
    for nm, f in (
        ("random_uniform_scene", lambda: snap_any(w, w.call(w.at(cls, "random_uniform_scene"), 2, 2, 2, key=supplied()))),
        ("minimize_many_random_uniform", lambda: tuple(w.list(w.call(w.get("optimize", "minimize_many_random_uniform"), probe_obj(), supplied(), 2, many=2, **kw)))),
        ("FermatPath", lambda: w.at(w.call(w.at(w.get("geometry", "FermatPath"), "from_tx_objects_rx"), sym("tx", 2), [w.blob("o0")], sym("rx", 2), key=supplied(), **kw), "xys")),
        ("all_paths", lambda: [w.at(w.list(r, 5)[3], "xys") for r in w.list(w.m(sc, "all_paths", path_cls=w.client.vars["ProbePath"], key=supplied()))]),
    ):
        a = f()
        b = f()
        eq(b, a, f"{nm}, second run with the same key")
        c.case()


def snap_any(w, sc):
    f = lambda t: [(k, w.at(p, "xy")) for k, p in items(w, t)]
    return [f(w.at(sc, "transmitters")), f(w.at(sc, "receivers")), [w.at(o, "xys") for o in w.list(w.at(sc, "objects"))]]


# ---------------------------------------------------------------- C21
def probe_obj(name="objective"):
    """An uninterpreted differentiable objective."""

    def fun(x, *args):
        x = asarray(x)
        return Arr((), [N.app(name, ("args", keyof(tuple(args))), tuple(x.data))], "f")

    fun.__name__ = name
    return fun


def opaque_opt(name="caller"):
    from ..libs import OptModel

    o = OptModel((name, 0))
    o.settings = (name, {})
    return o


def spec_minimize(fun, x0, args, steps, opt, params=False):
    x, st = x0, opt.init(x0)
    df = J.grad(fun)
    for _ in range(steps):
        u, st = opt.update(df(x, *args), st, x if params else None)
        x = x + u
    return x, fun(x, *args)


def eq_minimize(got, fun, x0, args, steps, opt, what):
    """The iteration, whether or not the current point is shown to the optimiser."""
    try:
        eq(got, spec_minimize(fun, x0, args, steps, opt), what)
    except Mismatch:
        if not same(got, spec_minimize(fun, x0, args, steps, opt, True)):
            raise


def pair(w, r):
    r = w.list(r)
    req(len(r) == 2, f"the optimiser returns {len(r)} values")
    return tuple(r)


@ob("C21", "minimize", "value numbering against the documented iteration with an uninterpreted objective and optimiser")
def _(c):
    w = c.world()
    f = w.get("optimize", "minimize")
    opt, fun = opaque_opt(), probe_obj()
    for n in (1, 2, 3):
        x0 = sym("x0_", n)
        for steps in c.sizes([0, 1, 2, 3], 12 if c.thorough else 5):
            for args in ((), (sym("a"),), (sym("a"), sym("b", 2)), tuple(sym(f"a{i}") for i in range(4))):
                eq_minimize(pair(w, w.call(f, fun, x0, args=args, steps=steps, optimizer=opt)), fun, x0, args, steps, opt, f"minimize ({n} unknowns, {steps} steps, {len(args)} arguments)")
                c.case()
    for n in c.sizes([4], 40):
        for steps in (0, 1):
            x0 = sym("x0_", n)
            eq_minimize(pair(w, w.call(f, fun, x0, steps=steps, optimizer=opt)), fun, x0, (), steps, opt, f"minimize ({n} unknowns, {steps} steps)")
            c.case()
    eq_minimize(pair(w, w.call(f, fun, sym("x0_", 2), (sym("a"),), 2, opt)), fun, sym("x0_", 2), (sym("a"),), 2, opt, "minimize (positional options)")
    c.case()
    for steps in c.sizes([6], 2100):
        x0 = sym("x0_", 1)
        eq_minimize(pair(w, w.call(f, fun, x0, steps=steps, optimizer=opt)), fun, x0, (), steps, opt, f"minimize ({steps} steps)")
        c.case()


@ob("C21", "default optimiser and steps", "structure of the optimiser reaching the iteration; number of steps")
def _(c):
    w = c.world()
    f = w.get("optimize", "minimize")
    fun, x0 = probe_obj(), sym("x0_", 1)
    o = default_opt(w)
    kind, st = o.settings
    req(kind == "adam", f"the default optimiser is {kind}, not Adam")
    eq(asarray(st.get("learning_rate")), S.N_(1, 10), "default learning rate")
    for steps in (1, 3):
        eq(pair(w, w.call(f, fun, x0, steps=steps)), spec_minimize(fun, x0, (), steps, o), f"minimize, default optimiser, {steps} steps")
        c.case()
    x, loss = pair(w, w.call(f, fun, x0))
    n = len({m.uid for m in N.walk(x.data) if m.op == "app" and m.attr[0] == "opt_upd"})
    req(n == 100, f"minimize runs {n} steps by default instead of 100")
    c.case()


def default_opt(w):
    """The optimiser minimize uses by default."""
    from ..libs import Optax

    made = []
    ox = w.I.modules_lib("optax") if hasattr(w.I, "modules_lib") else None
    x, _ = pair(w, w.call(w.get("optimize", "minimize"), probe_obj(), sym("x0_", 1), steps=1))
    from ..libs import OptModel

    for m in N.walk(x.data):
        if m.op == "app" and m.attr[0] == "opt_init":
            key = m.attr[1]
            o = OptModel(key)
            o.settings = (key[0], dict(key[1]))
            o.settings = (key[0], {k: (Arr((), [v], "f") if isinstance(v, N.Node) else v) for k, v in dict(key[1]).items()})
            return o
    raise Undecided("no optimiser state found in the default minimisation")


@ob("C21", "random start", "value numbering: one uniform draw of the requested size, options forwarded")
def _(c):
    w = c.world()
    f = w.get("optimize", "minimize_random_uniform")
    opt, fun = opaque_opt(), probe_obj()
    for n in (1, 2, 3):
        for kw in ({"steps": 2, "optimizer": opt}, {"steps": 0, "optimizer": opt}, {"steps": 1, "optimizer": opt, "args": (sym("a"), sym("b"))}):
            key = supplied()
            x0 = J.r_uniform(key, (n,))
            want = (fun, x0, kw.get("args", ()), kw["steps"], opt)
            eq_minimize(pair(w, w.call(f, fun, key, n, **kw)), *want, f"minimize_random_uniform ({n} unknowns, {sorted(kw)})")
            eq_minimize(pair(w, w.call(f, fun=fun, key=key, n=n, **kw)), *want, f"minimize_random_uniform ({n} unknowns, by keyword)")
            c.case(2)
    for n in c.sizes([4], 40):
        for steps in (0, 1):
            key = supplied()
            eq_minimize(pair(w, w.call(f, fun, key, n, steps=steps, optimizer=opt)), fun, J.r_uniform(key, (n,)), (), steps, opt, f"minimize_random_uniform ({n} unknowns, {steps} steps)")
            c.case()


@ob("C21", "best of all trials", "value numbering: the point and loss of the trial with the smallest loss")
def _(c):
    w = c.world()
    f = w.get("optimize", "minimize_many_random_uniform")
    opt, fun = opaque_opt(), probe_obj()
    for n in (1, 2):
        for many in c.sizes([1, 2, 3, 4], 8 if c.thorough else 5):
            for kw in ({"steps": 1, "optimizer": opt}, {"steps": 2, "optimizer": opt, "args": (sym("a"),)}):
                x, loss = pair(w, w.call(f, fun, supplied(), n, many=many, **kw))
                lab = f"minimize_many_random_uniform ({n} unknowns, many={many})"
                trials_check(w, x, loss, fun, n, many, kw, opt, lab)
                c.case()
    x, loss = pair(w, w.call(f, fun, supplied(), 1, steps=1, optimizer=opt))
    trials_check(w, x, loss, fun, 1, 10, {"steps": 1}, opt, "minimize_many_random_uniform (default number of trials)")
    c.case()


@ob("C21", "numbers of trials", "same without any step, for numbers of trials on both sides of every integer the sources compare or divide with")
def _(c):
    w = c.world()
    f = w.get("optimize", "minimize_many_random_uniform")
    opt, fun = opaque_opt(), probe_obj()
    for many in c.sizes([6], 66):
        kw = {"steps": 0, "optimizer": opt}
        x, loss = pair(w, w.call(f, fun, supplied(), 1, many=many, **kw))
        trials_check(w, x, loss, fun, 1, many, kw, opt, f"minimize_many_random_uniform (many={many})")
        c.case()
    for n in c.sizes([3], 40):
        for many in (1, 2):
            for steps in (0, 1):
                kw = {"steps": steps, "optimizer": opt}
                x, loss = pair(w, w.call(f, fun, supplied(), n, many=many, **kw))
                trials_check(w, x, loss, fun, n, many, kw, opt, f"minimize_many_random_uniform ({n} unknowns, many={many}, {steps} steps)")
                c.case()


def trials_check(w, x, loss, fun, n, many, kw, opt, lab):
    """x, loss are those of the best of `many` runs from their own uniform draws."""
    try:
        _trials_check(w, x, loss, fun, n, many, kw, opt, lab)
    except Mismatch as e:
        try:
            _trials_check(w, x, loss, fun, n, many, kw, opt, lab, True)
        except Mismatch:
            raise e from None


def _trials_check(w, x, loss, fun, n, many, kw, opt, lab, params=False):
    req(asarray(x).shape == (n,), f"{lab}: the solution has shape {asarray(x).shape}")
    draws = {}
    for m in N.walk(list(x.data) + list(loss.data)):
        if m.op == "app" and m.attr[0] == "draw":
            draws.setdefault(Canon().r(m.attr[1][1]).id, m)
    req(len(draws) == many, f"{lab}: {len(draws)} starts instead of {many}")
    runs = []
    for m in draws.values():
        req(m.attr[1][0] == "uniform", f"{lab}: a start is a {m.attr[1][0]} draw", m.loc)
        x0 = Arr((n,), [N.app("draw", ("uniform", m.attr[1][1], m.attr[1][2], i), rng=(0, 1)) for i in range(n)], "f")
        runs.append((m.uid, spec_minimize(fun, x0, kw.get("args", ()), kw["steps"], opt, params)))
    runs = [r for _, r in sorted(runs, key=lambda t: t[0])]
    c = Canon()
    if many == 1:
        eq((x, loss), runs[0], lab)
        return
    # order of the trials as the sources enumerate them
    L = jnp.stack([r[1] for r in runs])
    X = jnp.stack([r[0] for r in runs])
    for perm in itertools.permutations(range(many)) if many <= 3 else (tuple(range(many)), tuple(reversed(range(many)))):
        Lp, Xp = L[jnp.array(list(perm), dtype=int)], X[jnp.array(list(perm), dtype=int)]
        i = jnp.argmin(Lp)
        if same((x, loss), (Xp[i], Lp[i])):
            return
    eq((x, loss), (X[jnp.argmin(L)], L[jnp.argmin(L)]), lab)


# ---------------------------------------------------------------- C23
def edges(w, objs, c, drop=True):
    """Undirected segments of walls as a multiset of value numbers."""
    out = []
    for o in objs:
        req(o.cls.__name__ == "Wall", f"an object is a {o.cls.__name__}")
        d = w.at(o, "xys")
        req(d.shape == (2, 2), f"a wall has shape {d.shape}")
        a, b = tuple(c.key(x) for x in d.data[:2]), tuple(c.key(x) for x in d.data[2:])
        if drop and a == b:
            continue
        out.append((min(a, b), max(a, b)))
    return sorted(out)


def walls_eq(w, objs, want, what):
    """want: list of ((x, y), (x, y)) with symbolic or rational coordinates."""
    c = Canon()
    W = w.get("geometry", "Wall")
    exp = [w.call(W, xys=jnp.stack([jnp.stack([asarray(v).cast("f") for v in p]) for p in s])) for s in want]
    g, e = edges(w, objs, c), edges(w, exp, c)
    if g == e:
        return
    gs, es = list(g), list(e)
    for x in e:
        if x in gs:
            gs.remove(x)
            es.remove(x)
    show = lambda k: [tuple(N.show(v, 3) for v in w.at(o, "xys").data) for o in list(objs) + exp if edges(w, [o], c) == [k]][:1]
    raise Mismatch(f"{what}: {len(g)} walls instead of {len(e)}; unexpected {[show(k) for k in gs[:3]]}, missing {[show(k) for k in es[:3]]}", first_loc(w.at(objs[0], "xys").data[0]) if objs else None)


def ring(*pts):
    return [(pts[i], pts[(i + 1) % len(pts)]) for i in range(len(pts))]


def q(a, b=1):
    return S.N_(a, b)


def node_is(w, sc, part, name, xy, what, cls=None):
    it = items(w, w.at(sc, part))
    req([k for k, _ in it] == [name], f"{what}: {part} are named {[k for k, _ in it]} instead of [{name!r}]")
    eq(w.at(it[0][1], "xy"), xy, f"{what}: {name}")


ROOM = ring((q(0), q(0)), (q(1), q(0)), (q(1), q(1)), (q(0), q(1)))
BASIC = ROOM + [((q(2, 5), q(0)), (q(2, 5), q(2, 5))), ((q(2, 5), q(2, 5)), (q(3, 10), q(2, 5))), ((q(1, 10), q(2, 5)), (q(0), q(2, 5)))]


def vec(a, b):
    return jnp.stack([asarray(a).cast("f"), asarray(b).cast("f")])


@ob("C23", "built-in scenes", "value numbering of walls (as unordered segments) and nodes, options through every entry point")
def _(c):
    w = c.world()
    cls = w.get("scene", "Scene")

    def calls(name, *a, **k):
        yield f"{name}", w.call(w.at(cls, name), *a, **k)
        yield f"from_scene_name({name!r})", w.call(w.at(cls, "from_scene_name"), name, *a, **k)

    t, r, ra = sym("t", 2), sym("r", 2), sym("ratio")
    half = q(1, 2)
    lo, hi = half * (q(1) - ra), half * (q(1) + ra)
    h = half * ra
    wall = lambda l, u: [((half, l), (half, u))]
    obst = lambda h: ring((half - h, half - h), (half + h, half - h), (half + h, half + h), (half - h, half + h))
    table = {
        "basic_scene": (vec(q(1, 10), q(1, 10)), vec(q(302, 1000), q(2147, 10000)), BASIC),
        "square_scene": (vec(q(1, 5), q(1, 5)), vec(half, q(3, 5)), ROOM),
        "square_scene_with_wall": (vec(q(1, 5), half), vec(q(4, 5), half), ROOM + wall(q(1, 5), q(4, 5))),
        "square_scene_with_obstacle": (vec(q(1, 5), q(1, 5)), vec(half, q(3, 5)), ROOM + obst(q(1, 20))),
    }
    for name, (tx, rx, ws) in table.items():
        for lab, sc in calls(name):
            walls_eq(w, w.list(w.at(sc, "objects")), ws, lab)
            node_is(w, sc, "transmitters", "tx", tx, lab)
            node_is(w, sc, "receivers", "rx", rx, lab)
            c.case()
        for opt, wt, wr in (({"tx_coords": t, "rx_coords": r}, t, r), ({"tx_coords": t}, t, rx), ({"rx_coords": r}, tx, r)):
            for lab, sc in calls(name, **opt):
                lab += f" with {sorted(opt)}"
                walls_eq(w, w.list(w.at(sc, "objects")), ws, lab)
                node_is(w, sc, "transmitters", "tx", wt, lab)
                node_is(w, sc, "receivers", "rx", wr, lab)
                c.case()
        if name in ("basic_scene", "square_scene"):
            for lab, sc in calls(name, t, r):
                node_is(w, sc, "transmitters", "tx", t, lab + " (positional)")
                node_is(w, sc, "receivers", "rx", r, lab + " (positional)")
        else:
            ws2 = ROOM + (wall(lo, hi) if name.endswith("wall") else obst(h))
            for kw in ({"ratio": ra}, {"ratio": ra, "tx_coords": t, "rx_coords": r}):
                for lab, sc in calls(name, **kw):
                    walls_eq(w, w.list(w.at(sc, "objects")), ws2, lab + f" with {sorted(kw)}")
                    node_is(w, sc, "transmitters", "tx", t if "tx_coords" in kw else tx, lab)
                    node_is(w, sc, "receivers", "rx", r if "rx_coords" in kw else rx, lab)
                    c.case()
            for lab, sc in calls(name, ra):
                walls_eq(w, w.list(w.at(sc, "objects")), ws2, lab + " (positional ratio)")
            for lab, sc in calls(name, ra, t, r) if name.endswith("wall") else ():
                walls_eq(w, w.list(w.at(sc, "objects")), ws2, lab + " (positional)")
                node_is(w, sc, "transmitters", "tx", t, lab + " (positional)")
                node_is(w, sc, "receivers", "rx", r, lab + " (positional)")


@ob("C23", "wall arrays and random scenes", "value numbering: one wall per row; every point its own draw")
def _(c):
    w = c.world()
    cls = w.get("scene", "Scene")
    for n in c.sizes([1, 2, 3, 4], 70):
        W = sym("w", n, 2, 2)
        sc = w.call(w.at(cls, "from_walls_array"), W)
        O = w.list(w.at(sc, "objects"))
        req(len(O) == n and all(o.cls.__name__ == "Wall" for o in O), f"from_walls_array: {len(O)} objects for {n} rows")
        for i, o in enumerate(O):
            eq(w.at(o, "xys"), W[i], f"from_walls_array: wall {i}")
        req(not items(w, w.at(sc, "transmitters")) and not items(w, w.at(sc, "receivers")), "from_walls_array: the scene has nodes")
        c.case()
    for a, b, d in ((1, 1, 1), (2, 3, 2), (3, 1, 2), (1, 4, 3), (0, 2, 1), (2, 0, 2), (1, 1, 0), (4, 2, 1)):
        what = f"random_uniform_scene({a}, {b}, {d})"
        for sc in (w.call(w.at(cls, "random_uniform_scene"), a, b, d, key=supplied()), w.call(w.at(cls, "random_uniform_scene"), n_transmitters=a, n_walls=b, n_receivers=d, key=supplied())):
            scene_draws(w, sc, a, b, d, what)
            tn, rn = [k for k, _ in items(w, w.at(sc, "transmitters"))], [k for k, _ in items(w, w.at(sc, "receivers"))]
            req(sorted(tn) == sorted(f"tx_{i}" for i in range(a)), f"{what}: transmitters are named {tn}")
            req(sorted(rn) == sorted(f"rx_{i}" for i in range(d)), f"{what}: receivers are named {rn}")
        c.case()
    scene_draws(w, w.call(w.at(cls, "random_uniform_scene"), key=supplied()), 1, 1, 1, "random_uniform_scene()")


READER = '''
class Reader:
    def __init__(self, s):
        self.s = s
    def read(self):
        return self.s
'''


@ob("C23", "GeoJSON", "value numbering: one wall per exterior-ring edge with symbolic coordinates, corners of the walls, everything else ignored")
def _(c):
    w = c.world()
    cls = w.get("scene", "Scene")
    Reader = w.source(READER, "<client3>").vars["Reader"]
    P = lambda n, k: [[Arr((), [N.var(f"{n}{i}{a}")], "f") for a in "xy"] for i in range(k)]
    closed = lambda r: r + [r[0]]
    feat = lambda t, co: {"type": "Feature", "properties": {}, "geometry": {"type": t, "coordinates": co}}
    a, b, h = P("a", 4), P("b", 3), P("h", 3)
    docs = {
        "one polygon": ([feat("Polygon", [closed(a)])], ring(*a)),
        "two polygons": ([feat("Polygon", [closed(a)]), feat("Polygon", [closed(b)])], ring(*a) + ring(*b)),
        "a polygon with a hole": ([feat("Polygon", [closed(a), closed(h)])], ring(*a)),
        "an open ring": ([feat("Polygon", [b])], ring(*b)),
        "other geometries": ([feat("Point", a[0]), feat("Polygon", [closed(b)]), feat("LineString", a), feat("MultiPolygon", [[closed(a)]])], ring(*b)),
        "lines in rings": ([feat("MultiLineString", [closed(a)]), feat("Polygon", [closed(b)]), feat("MultiPoint", a)], ring(*b)),
        "unknown geometries": ([feat("Curve", [closed(a)]), feat("Polygon", [closed(b)]), feat("polygon", [closed(h)]), feat("", [closed(a)])], ring(*b)),
        "a geometry collection": ([{"type": "Feature", "properties": {}, "geometry": {"type": "GeometryCollection", "geometries": [{"type": "Polygon", "coordinates": [closed(a)]}]}}, feat("Polygon", [closed(b)])], ring(*b)),
        "features without geometry": ([{"type": "Feature", "properties": {}, "geometry": None}, {"type": "Feature", "properties": {}}, feat("Polygon", [closed(a)])], ring(*a)),
        "an empty polygon": ([feat("Polygon", []), feat("Polygon", [closed(b)])], ring(*b)),
        "an empty polygon last": ([feat("Polygon", [closed(b)]), feat("Polygon", [])], ring(*b)),
    }
    forms = {"str": JsonDoc, "bytes": JsonBytes, "bytearray": JsonByteArray, "file": lambda d: w.call(Reader, JsonDoc(d)), "binary file": lambda d: w.call(Reader, JsonBytes(d))}
    f = w.at(cls, "from_geojson")
    for nm, (feats, ws) in docs.items():
        doc = {"type": "FeatureCollection", "features": feats}
        pts = [p for s in ws for p in s]
        X, Y = jnp.stack([p[0] for p in pts]), jnp.stack([p[1] for p in pts])
        x0, x1, y0, y1 = jnp.min(X), jnp.max(X), jnp.min(Y), jnp.max(Y)
        xm, ym = q(1, 2) * (x0 + x1), q(1, 2) * (y0 + y1)
        loc = {"N": (xm, y1), "E": (x1, ym), "S": (xm, y0), "W": (x0, ym), "C": (xm, ym), "NE": (x1, y1), "NW": (x0, y1), "SE": (x1, y0), "SW": (x0, y0)}
        for fn, mk in forms.items():
            opts = [({}, (), "NW", "SE")]
            if nm == "two polygons" or fn == "str":
                opts += [({"tx_loc": x, "rx_loc": y}, (), x, y) for x in loc for y in loc] if (nm, fn) == ("one polygon", "str") else []
                opts += [({"tx_loc": "C", "rx_loc": "N"}, (), "C", "N"), ({"rx_loc": "SW"}, (), "NW", "SW"), ({"tx_loc": "E"}, (), "E", "SE"), ({}, ("S", "W"), "S", "W")]
            for kw, pos, tl, rl in opts:
                sc = w.call(f, mk(doc), *pos, **kw)
                lab = f"from_geojson ({nm}, {fn}, {kw or pos or 'defaults'})"
                walls_eq(w, w.list(w.at(sc, "objects")), ws, lab)
                node_is(w, sc, "transmitters", "tx", vec(*loc[tl]), lab)
                # the center lies in the box: including it or not in the box
                # used for the receiver gives the same point
                c1 = lambda lo, hi, m: (jnp.minimum(lo, m), jnp.maximum(hi, m))
                (x2, x3), (y2, y3) = c1(x0, x1, loc[tl][0]), c1(y0, y1, loc[tl][1])
                xn, yn = q(1, 2) * (x2 + x3), q(1, 2) * (y2 + y3)
                loc2 = {"N": (xn, y3), "C": (xn, yn), "S": (xn, y2), "W": (x2, yn), "E": (x3, yn), "NE": (x3, y3), "NW": (x2, y3), "SE": (x3, y2), "SW": (x2, y2)}
                try:
                    with strict():
                        node_is(w, sc, "receivers", "rx", vec(*loc[rl]), lab)
                except Undecided:
                    node_is(w, sc, "receivers", "rx", vec(*loc2.get(rl, loc[rl])), lab)
                c.case()
    for nm, doc in (("no feature", {"type": "FeatureCollection", "features": []}), ("no features entry", {}), ("only points", {"features": [feat("Point", a[0])]})):
        for fn, mk in forms.items():
            sc = w.call(f, mk(doc))
            req(not w.list(w.at(sc, "objects")), f"from_geojson ({nm}): the scene has objects")
            c.case()


# ---------------------------------------------------------------- C24
def tree_insts(w):
    """Lists of same-structure objects to stack."""
    W, R, Pt, V = (w.get("geometry", n) for n in ("Wall", "RIS", "Point", "Vertex"))
    n3 = range(3)
    yield "walls", [w.call(W, xys=sym(f"w{i}_", 2, 2)) for i in n3]
    yield "surfaces", [w.call(R, xys=sym(f"w{i}_", 2, 2), phi=sym(f"phi{i}")) for i in n3]
    yield "points", [w.call(Pt, xy=sym(f"p{i}_", 2)) for i in n3]
    yield "vertices", [w.call(V, xy=sym(f"v{i}_", 2)) for i in n3]
    yield "user objects", [w.blob(f"o{i}") for i in n3]
    yield "lists", [[sym(f"a{i}_", 2), {"k": sym(f"b{i}")}] for i in n3]


@ob("C24", "stacking", "value numbering: unstack after stack and stack after unstack are identities")
def _(c):
    w = c.world()
    st, un = w.get("geometry", "stack_leaves"), w.get("geometry", "unstack_leaves")
    for nm, objs in tree_insts(w):
        for n in (1, 2, 3):
            s = w.call(st, objs[:n])
            back = w.list(w.call(un, s))
            req(len(back) == n, f"unstack_leaves: {len(back)} of {n} {nm}")
            eq(list(back), list(objs[:n]), f"unstack_leaves(stack_leaves({n} {nm}))")
            eq(w.call(st, back), s, f"stack_leaves(unstack_leaves(stack_leaves({n} {nm})))")
            for x, y in zip(J.tree_leaves(s), zip(*[J.tree_leaves(o) for o in objs[:n]])):
                eq(x, jnp.stack(list(y)), f"stack_leaves({n} {nm})")
            c.case(3)
        ls = [J.tree_leaves(o) for o in objs]
        if all(asarray(x).ndim for x in ls[0]):
            s = w.call(st, objs, axis=1)
            for x, y in zip(J.tree_leaves(s), zip(*ls)):
                eq(x, jnp.stack(list(y), axis=1), f"stack_leaves({nm}, axis=1)")
            c.case()
    # leaves keep their kind and their dimensions
    whole = lambda t, *sh: Arr(sh, [N.var(f"{t}{i}") for i in range(math.prod(sh))], "i")
    truth = lambda t, *sh: Arr(sh, [N.var(f"{t}{i}", "b") for i in range(math.prod(sh))], "b")
    for n in (1, 2, 4):
        objs = [{"id": whole(f"n{i}"), "none": None, "on": truth(f"b{i}_", 2), "xy": sym(f"x{i}_", 2, 3, 2)} for i in range(n)]
        s = w.call(st, objs)
        for k in ("id", "on", "xy"):
            want = jnp.stack([o[k] for o in objs])
            req(isinstance(s[k], Arr) and s[k].kind == want.kind, f"stack_leaves turns {'integers' if k == 'id' else 'truths' if k == 'on' else 'numbers'} into kind {getattr(s[k], 'kind', None)!r}")
            eq(s[k], want, f"stack_leaves of {n} dictionaries, entry {k}")
        back = w.list(w.call(un, s))
        eq(list(back), objs, f"unstack_leaves(stack_leaves({n} dictionaries))")
        req(all(b[k].kind == objs[0][k].kind for b in back for k in ("id", "on", "xy")), "unstack_leaves changes the kind of a leaf")
        c.case(3)
    for ax in (1, 2, -1, -2, 3, -4):
        objs = [{"a": sym(f"x{i}_", 2, 3, 2), "b": sym(f"y{i}_", 2, 1, 3)} for i in range(3)]
        for s in (w.call(st, objs, axis=ax), w.call(st, objs, ax)):
            for k in "ab":
                eq(s[k], jnp.stack([o[k] for o in objs], axis=ax), f"stack_leaves(axis={ax}), entry {k}")
            c.case()
    # any iterable of elements
    for nm, objs in tree_insts(w):
        for how in (tuple, iter, lambda l: (x for x in l)):
            eq(w.call(st, how(objs)), w.call(st, objs), f"stack_leaves of an iterable of {nm}")
            c.case()
    # inconsistent leading sizes are refused, whichever leaf is longer
    for a, b in ((2, 3), (3, 2), (1, 2), (2, 1)):
        for t in ([sym("a", a, 2), sym("b", b)], {"x": sym("a", a), "y": sym("b", b, 2)}):
            try:
                r = w.list(w.call(un, t))
            except ProgError as e:
                req(isinstance(e.exc, ValueError), f"unstack_leaves of leaves of sizes {a} and {b} raises {type(e.exc).__name__}")
            else:
                raise Mismatch(f"unstack_leaves: leaves of sizes {a} and {b} give {len(r)} objects instead of a ValueError", None)
            c.case()
    # whatever the number of leaves and the one that disagrees
    for n in c.sizes([1, 2, 3, 4, 5], 34):
        t = [sym(f"l{i}_", 3, *((2,) if i % 2 else ())) for i in range(n)]
        got = w.list(w.call(un, tuple(t)))
        req(len(got) == 3, f"unstack_leaves of {n} leaves of size 3 gives {len(got)} objects")
        for k, g in enumerate(got):
            eq(list(w.list(g, n)), [x[k] for x in t], f"unstack_leaves of {n} leaves, object {k}")
        for bad in range(n) if n > 1 else ():
            for m in (2, 4):
                u = list(t)
                u[bad] = sym("odd", m)
                try:
                    r = w.list(w.call(un, u))
                except ProgError as e:
                    req(isinstance(e.exc, ValueError), f"unstack_leaves of {n} leaves, leaf {bad} of size {m}: raises {type(e.exc).__name__}")
                else:
                    raise Mismatch(f"unstack_leaves: {n} leaves, leaf {bad} of size {m} instead of 3: gives {len(r)} objects instead of a ValueError", None)
                c.case()
    W, R = w.get("geometry", "Wall"), w.get("geometry", "RIS")
    for mix in ([w.call(W, xys=sym("w", 2, 2)), w.call(R, xys=sym("v", 2, 2), phi=sym("phi"))], [w.call(R, xys=sym("v", 2, 2), phi=sym("phi")), w.call(W, xys=sym("w", 2, 2))]):
        try:
            w.call(st, mix)
        except ProgError as e:
            req(isinstance(e.exc, ValueError), f"stack_leaves of different types raises {type(e.exc).__name__}")
        else:
            raise Mismatch("stack_leaves: objects of different types are stacked instead of refused")
        c.case()


@ob("C24", "stacked scenes and dynamic indexing", "value numbering: object i, in order, for static and symbolic indices")
def _(c):
    w = c.world()
    Scene = w.get("scene", "Scene")
    for nm, objs in tree_insts(w):
        if nm in ("lists", "points"):
            continue
        for n in (1, 2, 3):
            sc = w.call(Scene, objects=objs[:n])
            s = w.m(sc, "stacked_objects")
            eq(s, w.call(w.get("geometry", "stack_leaves"), objs[:n]), f"stacked_objects ({n} {nm})")
            back = w.call(w.at(Scene, "from_stacked_objects"), s)
            eq(w.list(w.at(back, "objects")), list(objs[:n]), f"from_stacked_objects(stacked_objects ({n} {nm}))")
            for i in range(n):
                eq(w.m(sc, "get_object", i), objs[i], f"get_object({i}) of {n} {nm}")
                eq(w.m(sc, "get_object", jnp.array(i, dtype=int)), objs[i], f"get_object(array({i})) of {n} {nm}")
                c.case(2)
            for i in (-5, -1, n, n + 3):
                j = min(max(i, 0), n - 1)
                eq(w.m(sc, "get_object", i), objs[j], f"get_object({i}) of {n} {nm}: clamped index")
                eq(w.m(sc, "get_object", jnp.array(i, dtype=int)), objs[j], f"get_object(array({i})) of {n} {nm}: clamped index")
                c.case()
            k = Arr((), [N.var("k", lo=0, hi=n - 1)], "i")
            g = w.m(sc, "get_object", k)
            req(isinstance(g, Inst) and g.cls is objs[0].cls, f"get_object(k) of {n} {nm}: {g!r:.60}")
            for x, y in zip(J.tree_leaves(g), zip(*[J.tree_leaves(o) for o in objs[:n]])):
                eq(x, jnp.stack(list(y))[k], f"get_object(k) of {n} {nm}")
            c.case(3)
    W, R = w.get("geometry", "Wall"), w.get("geometry", "RIS")
    for mix in ([w.call(W, xys=sym("w", 2, 2)), w.call(R, xys=sym("v", 2, 2), phi=sym("phi"))], [w.blob("o0"), w.call(W, xys=sym("w", 2, 2))]):
        sc = w.call(Scene, objects=mix)
        for i in (jnp.array(0, dtype=int), Arr((), [N.var("k", lo=0, hi=1)], "i")):
            try:
                w.m(sc, "get_object", i)
            except ProgError as e:
                req(isinstance(e.exc, TypeError), f"get_object among objects of different types raises {type(e.exc).__name__} instead of TypeError")
            else:
                raise Mismatch("get_object: objects of different types are accepted instead of a TypeError")
            c.case()
    for n in c.sizes([4], 40):
        objs = [w.blob(f"o{i}") for i in range(n)]
        sc = w.call(Scene, objects=objs)
        for i in range(n):
            eq(w.m(sc, "get_object", jnp.array(i, dtype=int)), objs[i], f"get_object({i}) of {n}")
        c.case()


def table_check(w, d, src, lab):
    """d is the ordered immutable mapping with the items of src."""
    names = tuple(src)
    req(int(I_len(w, d)) == len(names), f"{lab}: wrong length")
    req(tuple(w.list(d)) == names, f"{lab}: iterates as {tuple(w.list(d))}")
    req(tuple(w.list(w.m(d, "keys"))) == names, f"{lab}: keys are {tuple(w.list(w.m(d, 'keys')))}")
    vals = w.list(w.m(d, "values"))
    req(len(vals) == len(names), f"{lab}: {len(vals)} values")
    for k, v in zip(names, vals):
        eq(v, src[k], f"{lab}: value of {k}")
    for (k, v), k2 in zip(items(w, d), names):
        req(k == k2, f"{lab}: items are out of order")
        eq(v, src[k2], f"{lab}: item {k2}")
    for k in names:
        eq(w.I.getitem(d, k), src[k], f"{lab}[{k!r}]")
        # an equal name that is another object
        k = "".join(list(k)) if isinstance(k, str) else tuple(list(k)) if isinstance(k, tuple) else int(str(k))
        eq(w.I.getitem(d, k), src[k], f"{lab}[a copy of {k!r}]")
        eq(w.m(d, "get", k), src[k], f"{lab}.get({k!r})")
        req(contains(w, d, k) is True, f"{k!r} in {lab} is false")
    req(contains(w, d, "missing") is False, f"'missing' in {lab} is true")
    req(w.m(d, "get", "missing") is None and w.m(d, "get", "missing", 3) == 3, f"{lab}.get('missing')")
    try:
        w.I.getitem(d, "missing")
    except ProgError as e:
        req(isinstance(e.exc, KeyError), f"{lab}['missing'] raises {type(e.exc).__name__}")
    else:
        raise Mismatch(f"{lab}['missing'] does not raise")
    m = w.source(WRITES, "<client5>")
    for how in ("put", "drop", "swap"):
        try:
            w.call(m.vars[how], d)
        except ProgError as e:
            req(isinstance(e.exc, (TypeError, AttributeError)), f"{lab}: {how} raises {type(e.exc).__name__}")
        else:
            raise Mismatch(f"{lab} can be modified in place ({how})")
    leaves, td = J.tree_flatten(d)
    back = td.unflatten(leaves)
    req(tuple(w.list(back)) == names, f"{lab}: names {tuple(w.list(back))} after flattening")
    flat = [x for k in names for x in J.tree_leaves(src[k])]
    req(len(leaves) == len(flat), f"{lab}: {len(leaves)} leaves")
    for x, y in zip(leaves, flat):
        eq(x, y, f"{lab}: leaves in order")
    for k in names:
        eq(w.I.getitem(back, k), src[k], f"{lab} after flattening: {k}")
    dbl = J.tree_map(lambda x: x + x, d)
    for k in names:
        eq(w.at(w.I.getitem(dbl, k), "xy"), 2.0 * src[k].fields["xy"], f"{lab} mapped: {k}")


WRITES = """
def put(d):
    d["new"] = 1
def drop(d):
    del d["a"]
def swap(d):
    d._keys = ("other",)
"""


@ob("C24", "node tables", "partial evaluation of the mapping protocol; flatten/unflatten round trip; writes refused")
def _(c):
    w = c.world()
    D = w.get("scene", "PyTreeDict")
    for names in ((), ("a",), ("b", "a", "c"), ("z", "y", "x", "w"), ("", "a"), (3, 1), ((0, 1), "a", 0), ("first node", "second node"), (10**6 + 1, "first"), ODD):
        src = {k: w.call(w.get("geometry", "Point"), xy=sym(f"{k}_", 2)) for k in names}
        before = shallow(src)
        d = w.call(w.at(D, "from_mapping"), src)
        lab = f"node table {names}"
        table_check(w, d, src, lab)
        table_check(w, w.call(w.at(D, "from_mapping"), d), src, f"copy of {lab}")
        req(shallow(src) == before, f"{lab}: building it modifies the source mapping")
        kept = dict(src)
        src["later"] = w.call(w.get("geometry", "Point"), xy=sym("later", 2))
        table_check(w, d, kept, f"{lab}, source mapping changed afterwards")
        c.case()
    Scene, Pt, W = w.get("scene", "Scene"), w.get("geometry", "Point"), w.get("geometry", "Wall")
    for kind, other in (("transmitters", "receivers"), ("receivers", "transmitters")):
        for names in ((), ("a",), ("b", "a", "c"), ("q", "", "a"), ODD[:7], ODD[7:]):
            src = {k: w.call(Pt, xy=sym(f"{k}_", 2)) for k in names}
            oth = {"z": w.call(Pt, xy=sym("z", 2)), "y": w.call(Pt, xy=sym("y", 2))}
            wall = w.call(W, xys=sym("wall", 2, 2))
            kept = dict(src)
            sc = w.call(Scene, **{kind: src, other: oth}, objects=[wall])
            src["later"] = w.call(Pt, xy=sym("later", 2))
            table_check(w, w.at(sc, kind), kept, f"scene.{kind} {names}")
            e = w.call(Scene)
            extra = {"n": w.call(Pt, xy=sym("n_", 2)), "a": w.call(Pt, xy=sym("new", 2))}
            for nm, got, want in (
                ("default", e, {}),
                ("after with_", w.m(e, f"with_{kind}", **kept), kept),
                ("after update_", w.m(sc, f"update_{kind}", **extra), {**kept, **extra}),
                ("after update_ of the other nodes", w.m(sc, f"update_{other}", **extra), kept),
                ("after add_objects", w.m(sc, "add_objects", [wall]), kept),
                ("after flattening", J.tree_map(lambda x: x, sc), kept),
            ):
                table_check(w, w.at(got, kind), want, f"scene.{kind} {names} {nm}")
                c.case()
    for nk, nv in ((2, 1), (1, 2), (0, 1)):
        try:
            w.call(D, _keys=tuple("abc"[:nk]), _values=tuple(sym(x, 2) for x in "xyz"[:nv]))
        except ProgError as e:
            req(isinstance(e.exc, ValueError), f"{nk} names for {nv} values raises {type(e.exc).__name__}")
        else:
            raise Mismatch(f"a node table with {nk} names for {nv} values is accepted")
        c.case()


def I_len(w, d):
    m = w.source("def f(d):\n    return len(d)\n", "<client4>")
    return w.call(m.vars["f"], d)


def contains(w, d, k):
    m = w.source("def f(d, k):\n    return k in d\n", "<client4>")
    return w.call(m.vars["f"], d, k)


# ---------------------------------------------------------------- C33
def tree_elements(w):
    """(name, element, its arrays, the same with other arrays)"""
    from .geometry import element_fields

    for nm, cls, fs in element_fields(w):
        mk = lambda t, cls=cls, fs=fs: (w.call(cls, **(v := {k: sym(f"{t}{k}", *s) for k, s in fs.items()})), list(v.values()))
        yield nm, cls, mk
    objs = {"no object": (), "a wall": ("Wall",), "walls": ("Wall", "Wall", "Wall"), "surfaces and walls": ("RIS", "Wall", "Vertex", "RIS")}
    names = {"no node": ((), ()), "one node": (("tx",), ("rx",)), "nodes": (("b", "a", ""), ("2", "b", "tx", "1")), "no receiver": (("z", "y"), ())}
    Sc = w.get("scene", "Scene")

    def scene(t, tn, rn, ks):
        ar = []

        def new(a):
            ar.append(a)
            return a

        G = lambda n: w.get("geometry", n)
        pt = lambda n, i: w.call(G("Vertex") if i == 1 else G("Point"), xy=new(sym(f"{t}{n}", 2)))
        tx = {n: pt("t" + n, i) for i, n in enumerate(tn)}
        rx = {n: pt("r" + n, i) for i, n in enumerate(rn)}
        ob = []
        for i, k in enumerate(ks):
            if k == "Vertex":
                ob.append(w.call(G(k), xy=new(sym(f"{t}o{i}", 2))))
            else:
                ob.append(w.call(G(k), xys=new(sym(f"{t}o{i}", 2, 2)), **({"phi": new(sym(f"{t}f{i}"))} if k == "RIS" else {})))
        return w.call(Sc, transmitters=tx, receivers=rx, objects=ob), ar

    for no, ks in objs.items():
        for nn, (tn, rn) in names.items():
            yield f"Scene with {nn} and {no}", Sc, lambda t, tn=tn, rn=rn, ks=ks: scene(t, tn, rn, ks)


def once(x, arrays, nm):
    """The leaves of x are these arrays, each exactly once."""
    lv = J.tree_leaves(x)
    where = lambda v: next((getattr(f, "loc", None) for o in (x, *x.fields.values(), *(w for q in x.fields.values() if isinstance(q, (list, tuple)) for w in q)) if isinstance(o, Inst) for f in o.cls.all_fields() if f.static == v and (not v or J.tree_leaves(o.fields.get(f.name)) and isinstance(J.tree_leaves(o.fields.get(f.name))[0], (Arr, Inst)))), None)
    left = list(arrays)
    for v in lv:
        req(isinstance(v, Arr), f"{nm}: {v!r:.60} is among the leaves" + ("" if not isinstance(v, str) else " (names are not arrays)"), where(False))
        for i, a in enumerate(left):
            if a.shape == v.shape and all(p is q for p, q in zip(a.data, v.data)):
                del left[i]
                break
        else:
            for i, a in enumerate(left):
                if a.shape == v.shape:
                    try:
                        eq(v, a, nm, kinds=False)
                    except (Mismatch, Undecided):
                        continue
                    del left[i]
                    break
            else:
                raise Mismatch(f"{nm}: a leaf of shape {v.shape} is none of its arrays", first_loc(v.data[0]) if v.data else None)
    req(not left, f"{nm}: {len(left)} of its {len(arrays)} arrays (shape {left[0].shape if left else ''}) are not leaves: JAX transformations treat them as constants", where(True))


def parts(w, x):
    """What is observable of an element: class, names in order, arrays."""
    if x.cls is w.get("scene", "Scene"):
        return (x.cls.__name__, [(k, parts(w, v)) for k, v in items(w, w.at(x, "transmitters"))], [(k, parts(w, v)) for k, v in items(w, w.at(x, "receivers"))], [parts(w, o) for o in w.list(w.at(x, "objects"))])
    return (x.cls.__name__, *[w.at(x, k) for k in ("xy", "xys", "phi", "loss") if k in x.fields])


@ob("C33", "leaves", "structure analysis of field declarations: the leaves are exactly the arrays; names and classes are structure")
def _(c):
    w = c.world()
    for nm, cls, mk in tree_elements(w):
        with c.soft(nm):
            x, ar = mk("a")
            once(x, ar, nm)
            lv, td = J.tree_flatten(x)
            eq(parts(w, td.unflatten(lv)), parts(w, x), f"{nm}: flattened and rebuilt")
            y, br = mk("b")
            req(td == J.tree_flatten(y)[1], f"{nm}: two of them with other coordinates have different tree structures")
            new = td.unflatten(J.tree_leaves(y))
            eq(parts(w, new), parts(w, y), f"{nm}: rebuilt with the leaves of another")
            eq(parts(w, J.tree_map(lambda a: a * 2 + 1, x)), parts(w, td.unflatten([a * 2 + 1 for a in lv])), f"{nm}: mapped")
            eq(parts(w, x), parts(w, mk("a")[0]), f"{nm} after being mapped")
            c.case(5)


@ob("C33", "structure", "tree structures differ as soon as classes, names, their order or the number of objects differ")
def _(c):
    w = c.world()
    seen = []
    for nm, cls, mk in tree_elements(w):
        if "(4 vertices)" in nm:
            continue  # same structure, other shapes
        td = J.tree_flatten(mk("a")[0])[1]
        for other, t in seen:
            req(not (td == t), f"{nm} and {other} have the same tree structure")
            c.case()
        seen.append((nm, td))
    Sc, Pt = w.get("scene", "Scene"), w.get("geometry", "Point")
    pts = [w.call(Pt, xy=sym(f"p{i}", 2)) for i in range(3)]
    mk = lambda *ns: J.tree_flatten(w.call(Sc, transmitters=dict(zip(ns, pts))))[1]
    base = mk("a", "b", "c")
    for other in (("a", "b"), ("a", "c", "b"), ("c", "b", "a"), ("a", "b", "d"), ("x", "b", "c"), ()):
        req(not (base == mk(*other)), f"transmitters named {other} and ('a', 'b', 'c') have the same tree structure: names are lost when they are mapped")
        c.case()
    req(base == mk("a", "b", "c"), "two scenes with the same names and classes have different tree structures")


@ob("C33", "transformed elements", "value numbering: vectorised, differentiated and edited elements against the same on their arrays")
def _(c):
    w = c.world()
    G = lambda n: w.get("geometry", n)
    st = G("stack_leaves")
    p = sym("p", 2)
    meths = {"Ray": [("origin", ()), ("t", ())], "Wall": [("normal", ()), ("image_of", (p,)), ("bounding_box", ())], "RIS": [("normal", ()), ("evaluate_cartesian", (sym("r", 3, 2),)), ("cartesian_to_parametric", (p,))], "Point": [("bounding_box", ())], "Vertex": [("parametric_to_cartesian", (sym("q", 0),))]}
    from .geometry import element_fields

    for nm, cls, fs in element_fields(w):
        ms = meths.get(nm, [("length", ())] if "vertices" in nm else [])
        xs = [w.call(cls, **{k: sym(f"{t}{k}", *s) for k, s in fs.items()}) for t in "abc"]
        for m, a in ms:
            with c.soft(f"{nm}.{m}"):
                got = J.vmap(lambda o: w.m(o, m, *a))(w.call(st, xs))
                each = [w.m(o, m, *a) for o in xs]
                eq(got, J.tree_map(lambda *v: jnp.stack(list(v)), *each), f"{nm}.{m} vectorised over three elements")
                c.case()
        # gradients with respect to an element are elements holding the derivatives
        with c.soft(f"{nm}: gradient"):
            x = xs[0]
            f = lambda o: sum((jnp.sum(w.at(o, k) * w.at(o, k) * sym(f"m{k}", *s)) for k, s in fs.items()), jnp.array(0.0))
            g = J.grad(f)(x)
            req(isinstance(g, Inst) and g.cls is cls, f"{nm}: the gradient with respect to it is a {g!r:.40}")
            for k, s in fs.items():
                eq(w.at(g, k), w.at(x, k) * 2 * sym(f"m{k}", *s), f"{nm}: gradient with respect to {k}")
                c.case()
    # scenes of random layout: mapping moves every coordinate and keeps the rest
    for nm, cls, mk in tree_elements(w):
        if cls is not w.get("scene", "Scene"):
            continue
        with c.soft(nm):
            x, ar = mk("a")
            if not ar:
                continue
            g = J.grad(lambda s: sum((jnp.sum(a * a) for a in J.tree_leaves(s)), jnp.array(0.0)))(x)
            eq(parts(w, g), parts(w, J.tree_map(lambda a: a * 2, x)), f"{nm}: gradient with respect to the scene")
            c.case()


@ob("C33", "derived elements", "structure of traced paths, edited and generated scenes")
def _(c):
    from .geometry import PATHS, opt_kw, path_objects

    w = c.world()
    for cls in PATHS:
        for n in (0, 1, 2):
            with c.soft(f"{cls}, order {n}"):
                kw = opt_kw(w) if cls in ("FermatPath", "MinPath") else {}
                p = w.call(w.at(w.get("geometry", cls), "from_tx_objects_rx"), sym("tx", 2), path_objects(w, cls, n), sym("rx", 2), **kw)
                lv = J.tree_leaves(p)
                req(len(lv) == 2 and {asarray(x).shape for x in lv} == {(), (n + 2, 2)}, f"{cls} traced over {n} objects: leaves of shapes {[asarray(x).shape for x in lv]} instead of its vertices and loss")
                new = {id(a): sym(f"m{i}_", *asarray(a).shape) for i, a in enumerate(lv)}
                q = J.tree_map(lambda a: new[id(a)], p)
                eq((w.at(q, "xys"), w.at(q, "loss")), (new[id(w.at(p, "xys"))], new[id(w.at(p, "loss"))]), f"{cls} traced over {n} objects, mapped")
                c.case()
    Sc, Pt, Wall = w.get("scene", "Scene"), w.get("geometry", "Point"), w.get("geometry", "Wall")
    pt = lambda t: w.call(Pt, xy=sym(t, 2))
    wl = lambda t: w.call(Wall, xys=sym(t, 2, 2))
    for txs, rxs in ((("z", "a", "m"), ("k", "b")), (("a",), ("rx",)), ((), ("y", "x"))):
        sc = w.call(Sc, transmitters={n: pt(f"t{n}") for n in txs}, receivers={n: pt(f"r{n}") for n in rxs}, objects=[wl("w0"), wl("w1"), wl("w2")])
        edits = {
            "with_transmitters": lambda: w.m(sc, "with_transmitters", z2=pt("n0"), b2=pt("n1")),
            "with_receivers": lambda: w.m(sc, "with_receivers", z2=pt("n0"), b2=pt("n1")),
            "update_transmitters": lambda: w.m(sc, "update_transmitters", new=pt("n0"), **{n: pt("n1") for n in txs[:1]}),
            "update_receivers": lambda: w.m(sc, "update_receivers", new=pt("n0"), **{n: pt("n1") for n in rxs[:1]}),
            "rename_transmitters": lambda: w.m(sc, "rename_transmitters", **{n: "zz" for n in txs[:1]}),
            "rename_receivers": lambda: w.m(sc, "rename_receivers", **{n: "zz" for n in rxs[:1]}),
            "with_objects": lambda: w.m(sc, "with_objects", wl("n0")),
            "add_objects": lambda: w.m(sc, "add_objects", wl("n0")),
            "filter_objects": lambda: w.m(sc, "filter_objects", lambda o: o is not w.list(w.at(sc, "objects"))[1]),
            "from_stacked_objects": lambda: w.call(w.at(Sc, "from_stacked_objects"), w.m(sc, "stacked_objects")),
            "basic_scene": lambda: w.call(w.at(Sc, "basic_scene")),
            "square_scene": lambda: w.call(w.at(Sc, "square_scene")),
            "square_scene_with_wall": lambda: w.call(w.at(Sc, "square_scene_with_wall")),
            "square_scene_with_obstacle": lambda: w.call(w.at(Sc, "square_scene_with_obstacle")),
            "random_uniform_scene": lambda: w.call(w.at(Sc, "random_uniform_scene"), 2, 2, 3, key=J.r_key(sym("seed"))),
        }
        for nm, f in edits.items():
            with c.soft(nm):
                got = f()
                req(isinstance(got, Inst) and got.cls is Sc, f"{nm}: result is not a scene")
                xs = [w.at(v, "xy") for part in ("transmitters", "receivers") for _, v in items(w, w.at(got, part))] + [w.at(o, "xys") for o in w.list(w.at(got, "objects"))]
                once(got, xs, f"the scene returned by {nm}")
                td = J.tree_flatten(got)[1]
                plain = w.call(Sc, transmitters=dict(items(w, w.at(got, "transmitters"))), receivers=dict(items(w, w.at(got, "receivers"))), objects=w.at(got, "objects"))
                req(td == J.tree_flatten(plain)[1], f"the scene returned by {nm} has another tree structure than the scene built from its nodes and objects")
                a, b = parts(w, J.tree_map(lambda a: a * 2 + 1, got)), parts(w, got)
                twice = lambda v: v * 2 + 1 if isinstance(v, Arr) else type(v)(twice(x) for x in v) if isinstance(v, (list, tuple)) else v
                eq(a, twice(b), f"the scene returned by {nm}, mapped")
                c.case()
