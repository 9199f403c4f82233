"""Runtime type contracts: `@jaxtyped(typechecker=...)`, read from the source.

While `Contracts.on`, a call of a function under a contract checks its
arguments and its result against the annotations (kinds, sizes, dimension
names bound per call), the way the type checker does at run time.
Annotations without a rule accept anything."""
from __future__ import annotations

import ast
import collections.abc as cabc
import copy
import re
from fractions import Fraction

from .arr import Arr, asarray
from .errors import ProgError, Unsupported


class TypeCheckError(TypeError):
    pass


class Contracts:
    on = False
    checked = 0

    def __enter__(self):
        self.prev, Contracts.on = Contracts.on, True
        return self

    def __exit__(self, *a):
        Contracts.on = self.prev


def under_contract(f):
    from .interp import CMeth, IClass, IFunc, Prop, SMeth

    if isinstance(f, IFunc):
        g = copy.copy(f)
        # a contract put on a compiled function sees the arguments as given
        g.contract = "outside" if "jit" in f.__dict__ else "inside"
        return g
    if isinstance(f, (CMeth, SMeth)):
        return type(f)(under_contract(f.f))
    if isinstance(f, Prop):
        return Prop(under_contract(f.fget) if f.fget is not None else None, f.fset, f.fdel)
    if isinstance(f, IClass):
        f.contract = True
    return f


def jaxtyped(f=None, *, typechecker=None):
    if f is None:
        return lambda g: jaxtyped(g, typechecker=typechecker)
    return f if typechecker is None else under_contract(f)


def beartype(f=None, **conf):
    return under_contract if f is None else under_contract(f)


def compiled_args(f, args, kwargs):
    """Python numbers become arrays on entry of a compiled function."""
    from .jaxmodel import tree_map

    kind, names, nums = f.jit
    if kind != "jax":
        return args, kwargs
    ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    static = set(names) | {ps[i] for i in nums if -len(ps) <= i < len(ps)}

    def leaf(x):
        if isinstance(x, str) or callable(x):
            raise ProgError(TypeError(f"Cannot interpret value of type {type(x).__name__} as an abstract array"))
        return asarray(x) if isinstance(x, (bool, int, float, Fraction)) else x

    go = lambda n, x: x if n in static else tree_map(leaf, x)
    return [go(ps[i] if i < len(ps) else "*", x) for i, x in enumerate(args)], {k: go(k, x) for k, x in kwargs.items()}


def enter(interp, f, args, kwargs):
    """(arguments, memo) after conversion and checks."""
    c = f.__dict__.get("contract")
    memo = {}
    if c == "outside":
        check_params(interp, f, args, kwargs, memo)
    if "jit" in f.__dict__:
        args, kwargs = compiled_args(f, args, kwargs)
    if c == "inside":
        check_params(interp, f, args, kwargs, memo)
    return args, kwargs, memo


def check_params(interp, f, args, kwargs, memo):
    vals = interp.bind_args(f, args, kwargs)
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None and not conforms(interp, annotation(interp, f, x.annotation), vals[x.arg], memo, vals):
            refuse(f"argument '{x.arg}' of {f.__qualname__}", vals[x.arg])
    if a.vararg is not None and a.vararg.annotation is not None:
        t = annotation(interp, f, a.vararg.annotation)
        for v in vals[a.vararg.arg]:
            if not conforms(interp, t, v, memo, vals):
                refuse(f"argument '*{a.vararg.arg}' of {f.__qualname__}", v)
    memo["#vals"] = vals
    Contracts.checked += 1


def check_result(interp, f, r, memo):
    if f.node.returns is not None and not conforms(interp, annotation(interp, f, f.node.returns), r, memo, memo.get("#vals", {})):
        refuse(f"result of {f.__qualname__}", r)


def check_fields(interp, o):
    cls = o.cls
    memo = {}
    for f in cls.all_fields():
        a = getattr(f, "anno", None)
        if a is None or f.name not in o.fields:
            continue
        try:
            t = interp.eval(a[0], a[1])
        except (ProgError, Unsupported):
            continue
        if not conforms(interp, t, o.fields[f.name], memo, {}):
            refuse(f"field '{f.name}' of {cls.__name__}", o.fields[f.name])
    Contracts.checked += 1


def refuse(what, v):
    d = f"{v.kind}{list(v.shape)}" if isinstance(v, Arr) else type(v).__name__
    raise ProgError(TypeCheckError(f"{what} got {d}"))


def annotation(interp, f, node):
    cache = f.__dict__.setdefault("_annos", {})
    if node not in cache:
        try:
            t = interp.eval(node, f.scope)
            cache[node] = interp.eval(ast.parse(t, mode="eval").body, f.scope) if isinstance(t, str) else t
        except (ProgError, Unsupported, SyntaxError):
            cache[node] = None
    return cache[node]


def conforms(interp, t, v, memo, vals):
    from .interp import IClass, IFunc, Inst, Opaque, TypeForm

    if t is None:
        return True
    if isinstance(v, Opaque):
        return True
    if isinstance(t, TypeForm):
        nm = t._name.rsplit(".", 1)[-1]
        if nm in ("Union", "union", "Optional"):
            arms = list(t.args) + ([None.__class__] if nm == "Optional" else [])
            for a in arms:
                m = dict(memo)
                if conforms(interp, type(None) if a is None else a, v, m, vals):
                    memo.clear()
                    memo.update(m)
                    return True
            return not arms
        kinds = {"Float": "fl", "Int": "i", "Bool": "b", "Integer": "i", "Num": "fil", "Inexact": "fl", "Real": "fil", "Shaped": "fiblk", "Key": "k"}.get(nm)
        if kinds is not None and t._name.startswith("jaxtyping"):
            if not isinstance(v, Arr) or v.kind not in kinds:
                return False
            return len(t.args) < 2 or not isinstance(t.args[1], str) or shape_ok(v.shape, t.args[1], memo, vals)
        if nm == "PRNGKeyArray":
            return isinstance(v, Arr) and v.kind == "k"
        if nm in ("Sequence", "List", "Tuple", "MutableSequence"):
            if not isinstance(v, (list, tuple) if nm in ("Sequence", "MutableSequence") else list if nm == "List" else tuple):
                return isinstance(v, (range, str)) and nm == "Sequence" or not isinstance(v, (Arr, Inst, int, float, dict, set, type(None), cabc.Iterator))
            if nm == "Sequence" and t.args:
                return all(conforms(interp, t.args[0], x, memo, vals) for x in v)
            return True
        if nm == "Callable":
            return callable(v) or isinstance(v, IFunc)
        if nm in ("Mapping", "Dict"):
            return not isinstance(v, (Arr, int, float, str, list, tuple, set, type(None)))
        return True
    if isinstance(t, IClass):
        if t.protocol or t.kind == "enum":
            return True
        return isinstance(v, Inst) and t in v.cls.mro
    if t in (int, str, bytes, bool, dict, list, tuple, set):
        return isinstance(v, t)
    if t is float:
        return isinstance(v, (float, Fraction)) and not isinstance(v, int)
    if t is type(None):
        return v is None
    if t is Arr:
        return isinstance(v, Arr)
    import typing

    if typing.get_origin(t) is typing.Literal:
        return any(type(v) is type(x) and v == x for x in typing.get_args(t))
    o = typing.get_origin(t)
    if o in (list, tuple):
        if not isinstance(v, o):
            return False
        a = typing.get_args(t)
        if o is tuple and a and a[-1] is not Ellipsis:
            return len(a) == len(v) and all(conforms(interp, p, x, memo, vals) for p, x in zip(a, v))
        return not a or all(conforms(interp, a[0], x, memo, vals) for x in v)
    return True


def shape_ok(shape, spec, memo, vals):
    toks = re.sub(r"\{(\w+)\}", lambda m: str(vals.get(m.group(1), m.group(0))), spec).split()
    star = [i for i, t in enumerate(toks) if t == "..." or t.lstrip("#_?").startswith("*")]
    if len(star) > 1:
        return True
    if star:
        i = star[0]
        if len(shape) < len(toks) - 1:
            return False
        k = len(shape) - (len(toks) - 1)
        mid, t = tuple(shape[i : i + k]), toks[i]
        shape = tuple(shape[:i]) + tuple(shape[i + k :])
        toks = toks[:i] + toks[i + 1 :]
        if t != "..." and "_" not in t[:2] and "#" not in t:
            if memo.setdefault(t, mid) != mid:
                return False
    elif len(toks) != len(shape):
        return False
    later = []
    for t, d in zip(toks, shape):
        if "=" in t:
            t = t.split("=", 1)[1]
        if re.fullmatch(r"\d+", t):
            if int(t) != d:
                return False
        elif t.startswith(("_", "#", "?")):
            continue
        elif t.isidentifier():
            if memo.setdefault(t, d) != d:
                return False
        else:
            later.append((t, d))
    for t, d in later:
        if not re.fullmatch(r"[\w\s+*/()-]+", t):
            continue
        try:
            want = eval(t, {"__builtins__": {}}, {k: x for k, x in {**memo, **vals}.items() if isinstance(x, int)})
        except Exception:
            continue
        if want != d:
            return False
    return True
