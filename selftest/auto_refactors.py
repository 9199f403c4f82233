"""Behaviour-preserving rewrites applied mechanically to every function of the
package at once; the checks must stay quiet on each result.

usage: auto_refactors.py [--tests] [name...]   (J, CHECKS as in run_refactors.py)"""
import ast
import concurrent.futures as cf
import copy
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import run_refactors as RR  # noqa: E402

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
T = {}


def t(f):
    T[f.__name__.replace("_", "-")] = f
    return f


def is_overload(f):
    return any(isinstance(d, ast.Name) and d.id == "overload" for d in f.decorator_list)


def funcs(tree, nested=False):
    """(function, enclosing class or None) of every non-overload function"""
    out = []

    def go(node, cls):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, FN):
                if not is_overload(ch):
                    out.append((ch, cls))
                if nested:
                    go(ch, None)
            elif isinstance(ch, ast.ClassDef):
                go(ch, ch)
            elif not isinstance(ch, ast.Lambda):
                go(ch, cls)

    go(tree, None)
    return out


def uses_super(f):
    return any(isinstance(n, ast.Name) and n.id in ("super", "__class__") for n in ast.walk(f))


def doc(body):
    return (body[:1], body[1:]) if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else ([], body)


class Bodies(ast.NodeTransformer):
    """maps every statement of a function body through `stmt` -> list"""

    def __init__(self, stmt):
        self.stmt, self.n = stmt, 0

    def fresh(self, base="v"):
        self.n += 1
        return f"_{base}{self.n}"

    def block(self, l):
        out = []
        for s in l:
            s = self.visit(s)
            r = self.stmt(self, s)
            out += r if isinstance(r, list) else [r]
        return out

    def generic_visit(self, node):
        if isinstance(node, ast.ClassDef) or isinstance(node, ast.Lambda):
            return node
        for k in ("body", "orelse", "finalbody"):
            v = getattr(node, k, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, k, self.block(v))
        for h in getattr(node, "handlers", []):
            h.body = self.block(h.body)
        return node


def statements(tree, fn):
    for f, _ in funcs(tree):
        b = Bodies(fn)
        d, rest = doc(f.body)
        f.body = d + b.block(rest)
    return tree


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def assign(x, v):
    return ast.Assign([name(x, ast.Store())], v)


@t
def named_results(tree):
    """return E -> r = E; return r"""
    def f(b, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
            v = b.fresh("res")
            return [assign(v, s.value), ast.Return(name(v))]
        return s
    return statements(tree, f)


@t
def branches_swapped(tree):
    def f(b, s):
        if isinstance(s, ast.If) and s.orelse:
            s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
        return s

    class E(ast.NodeTransformer):
        def visit_IfExp(self, n):
            self.generic_visit(n)
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

    statements(tree, f)
    for g, _ in funcs(tree):
        g.body = [E().visit(s) for s in g.body]
    return tree


@t
def while_loops(tree):
    """for x in it: body -> explicit iterator"""
    def f(b, s):
        if isinstance(s, ast.For) and not s.orelse:
            it = b.fresh("it")
            nxt = ast.Try([ast.Assign([s.target], ast.Call(name("next"), [name(it)], []))], [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])
            return [assign(it, ast.Call(name("iter"), [s.iter], [])), ast.While(ast.Constant(True), [nxt, *s.body], [])]
        return s
    return statements(tree, f)


@t
def loops_for_comprehensions(tree):
    """x = [e for ... if ...] and return [..] -> loops"""
    def f(b, s):
        v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
        if isinstance(v, (ast.ListComp, ast.DictComp)) and not any(g.is_async for g in v.generators):
            # keep the target names local to the loop
            names = {n.id for g in v.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            lam = any(isinstance(n, ast.Lambda) for n in ast.walk(v))
            first = {n.id for n in ast.walk(v.generators[0].iter) if isinstance(n, ast.Name)}
            if lam or names & first:
                return s
            m = {x: b.fresh(x) for x in names}

            class Ren(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.Name(m.get(n.id, n.id), n.ctx)

            v = Ren().visit(v)
            acc = b.fresh("acc")
            if isinstance(v, ast.ListComp):
                init, inner = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(acc), "append", ast.Load()), [v.elt], []))
            else:
                init, inner = ast.Dict([], []), ast.Assign([ast.Subscript(name(acc), v.key, ast.Store())], v.value)
            st = inner
            for g in reversed(v.generators):
                for c in reversed(g.ifs):
                    st = ast.If(c, [st], [])
                st = ast.For(g.target, g.iter, [st], [])
            s.value = name(acc)
            return [assign(acc, init), st, s]
        return s
    return statements(tree, f)


@t
def named_arguments_values(tree):
    """f(g(x), h(y)) -> a = g(x); b = h(y); f(a, b) in plain statements"""
    def f(b, s):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and isinstance(s.value, ast.Call):
            c, pre = s.value, []
            # only when every argument is evaluated before the call and nothing else is
            if not isinstance(c.func, (ast.Name, ast.Attribute)) or (isinstance(c.func, ast.Attribute) and any(isinstance(n, ast.Call) for n in ast.walk(c.func))):
                return s
            for i, a in enumerate(c.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.Compare)):
                    v = b.fresh("arg")
                    pre.append(assign(v, a))
                    c.args[i] = name(v)
            for k in c.keywords:
                if k.arg and isinstance(k.value, (ast.Call, ast.BinOp, ast.Subscript, ast.Compare)):
                    v = b.fresh("kw")
                    pre.append(assign(v, k.value))
                    k.value = name(v)
            return [*pre, s]
        return s
    return statements(tree, f)


@t
def plain_assignments(tree):
    """x += y -> x = x + y"""
    def f(b, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            return ast.Assign([s.target], ast.BinOp(name(s.target.id), s.op, s.value))
        return s
    return statements(tree, f)


@t
def indexed_unpacking(tree):
    """a, b = e -> t = e; a = t[0]; b = t[1]"""
    def un(b, tg, v):
        x = b.fresh("t")
        out = [assign(x, v)]
        for i, e in enumerate(tg.elts):
            w = ast.Subscript(name(x), ast.Constant(i), ast.Load())
            out += un(b, e, w) if isinstance(e, ast.Tuple) else [ast.Assign([e], w)]
        return out

    def f(b, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
            return un(b, s.targets[0], s.value)
        return s
    return statements(tree, f)


@t
def guarded_bodies(tree):
    """every function body inside try/finally, with idle statements"""
    for f, _ in funcs(tree):
        d, rest = doc(f.body)
        if not rest:
            continue
        f.body = d + ast.parse("_idle = 0\nassert _idle == 0").body + [ast.Try(rest, [], [], ast.parse("_idle = None").body)]
    return tree


@t
def operands_swapped(tree):
    """a + b -> b + a, a * b -> b * a, a < b -> b > a (not for sequences)"""
    seq = (ast.List, ast.ListComp, ast.Tuple, ast.JoinedStr)
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class E(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, (ast.Add, ast.Mult)) and not any(isinstance(x, seq) or (isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in (n.left, n.right)):
                n.left, n.right = n.right, n.left
            return n

        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in flip:
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [flip[type(n.ops[0])]()]
            return n

    for f, _ in funcs(tree):
        f.body = [E().visit(s) for s in f.body]
    return tree


@t
def library_aliases(tree):
    """jnp.f(...) -> _jnp_f(...), bound once per module"""
    used = set()

    class E(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == "jnp" and isinstance(n.ctx, ast.Load):
                used.add(n.attr)
                return name(f"_jnp_{n.attr}")
            return n

    tree.body = [E().visit(s) for s in tree.body]
    if used:
        last = max(i for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom)))
        tree.body[last + 1:last + 1] = ast.parse("\n".join(f"_jnp_{u} = jnp.{u}" for u in sorted(used))).body
    return tree


@t
def library_import_style(tree):
    """import jax.numpy as jnp -> from jax import numpy as jnp; jax.lax.f -> lax.f"""
    lax = False

    class E(ast.NodeTransformer):
        def visit_Attribute(self, n):
            nonlocal lax
            self.generic_visit(n)
            if n.attr == "lax" and isinstance(n.value, ast.Name) and n.value.id == "jax":
                lax = True
                return name("_lax")
            return n

    tree = E().visit(tree)
    out = []
    for s in tree.body:
        if isinstance(s, ast.Import) and s.names[0].name == "jax.numpy":
            out += ast.parse("from jax import numpy as jnp" + ("\nfrom jax import lax as _lax" if lax else "")).body
        else:
            out.append(s)
    tree.body = out
    return tree


@t
def decorators_by_hand(tree):
    """@d def f -> def f; f = d(f)"""
    skip = ("overload", "abstractmethod", "singledispatchmethod")

    def go(body):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                s.body = go(s.body)
            names = {n.id if isinstance(n, ast.Name) else n.attr for d in getattr(s, "decorator_list", []) for n in ast.walk(d) if isinstance(n, (ast.Name, ast.Attribute))}
            if isinstance(s, FN) and s.decorator_list and not names & {*skip, "register"}:
                ds, s.decorator_list = s.decorator_list, []
                out += [s] + [assign(s.name, ast.Call(d, [name(s.name)], [])) for d in reversed(ds)]
            else:
                out.append(s)
        return out

    tree.body = go(tree.body)
    return tree


def call_of(f, target):
    a = f.args
    return ast.Call(target, [name(x.arg) for x in (*a.posonlyargs, *a.args)] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                    [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))


def bare(args):
    a = copy.deepcopy(args)
    for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg):
        if x is not None:
            x.annotation = None
    a.defaults, a.kw_defaults = [], [None] * len(a.kwonlyargs)
    return a


@t
def inner_implementations(tree):
    """def f(args): body -> def f(args): def run(): body; return run()"""
    for f, _ in funcs(tree):
        if uses_super(f) or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            continue
        params = {x.arg for x in (*f.args.posonlyargs, *f.args.args, *f.args.kwonlyargs, f.args.vararg, f.args.kwarg) if x is not None}
        d, rest = doc(f.body)
        if not rest:
            continue
        if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in params for s in rest for n in ast.walk(s)):
            inner = ast.FunctionDef("_run", bare(f.args), rest, [], lineno=1, type_params=[])
            call = call_of(f, name("_run"))
        else:
            inner = ast.FunctionDef("_run", ast.arguments([], [], None, [], [], None, []), rest, [], lineno=1, type_params=[])
            call = ast.Call(name("_run"), [], [])
        f.body = d + [inner, ast.Return(call)]
    return tree


@t
def outlined_functions(tree):
    """bodies of functions and methods as module-level helpers"""
    new = {}
    for f, cls in funcs(tree):
        if uses_super(f) or f.name == "__check_init__":
            continue
        h = f"_{cls.name if cls else 'mod'}_{f.name}_impl"
        while h in new:
            h += "_"
        d, rest = doc(f.body)
        if all(isinstance(s, ast.Pass) for s in rest):
            continue
        new[h] = ast.FunctionDef(h, bare(f.args), rest, [], lineno=1, type_params=[])
        f.body = d + [ast.Return(call_of(f, name(h)))]
    if not new:
        return tree
    tree.body += list(new.values())
    # decorators and defaults may call functions while the module loads: keep helpers first when possible
    first = next(i for i, s in enumerate(tree.body) if isinstance(s, (*FN, ast.ClassDef)))
    helpers = tree.body[-len(new):] if new else []
    if new:
        tree.body = tree.body[:first] + helpers + tree.body[first:-len(new)]
    return tree


@t
def locals_renamed(tree):
    for f, _ in funcs(tree):
        params = {x.arg for x in ast.walk(f) if isinstance(x, ast.arg)}
        decl = {n for g in ast.walk(f) if isinstance(g, (ast.Global, ast.Nonlocal)) for n in g.names}
        inner = {n.id for g in ast.walk(f) if g is not f and isinstance(g, (*FN, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for n in ast.walk(g) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        loc = {n.id for s in f.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - decl - inner
        loc |= {n.name for s in f.body for n in ast.walk(s) if isinstance(n, FN)} - params - decl
        m = {x: f"{x}_value" for x in loc}

        class Ren(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.Name(m.get(n.id, n.id), n.ctx)

            def visit_FunctionDef(self, n):
                self.generic_visit(n)
                n.name = m.get(n.name, n.name)
                return n

        f.body = [Ren().visit(s) for s in f.body]
    return tree


SIGS = {}


@t
def keyword_calls(tree):
    """positional arguments of the package's own module-level functions given by name"""
    if not SIGS:
        for p in sorted((pathlib.Path(RR.REPO) / "differt2d").glob("*.py")):
            for s in ast.parse(p.read_text()).body:
                if isinstance(s, ast.FunctionDef) and not s.args.vararg and not s.args.posonlyargs:
                    SIGS[s.name] = [x.arg for x in s.args.args]

    class E(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in SIGS and n.args and not any(isinstance(x, ast.Starred) for x in n.args) and len(n.args) <= len(SIGS[n.func.id]):
                n.keywords = [ast.keyword(k, v) for k, v in zip(SIGS[n.func.id], n.args)] + n.keywords
                n.args = []
            return n

    for f, _ in funcs(tree):
        loc = {n.name for s in f.body for n in ast.walk(s) if isinstance(n, FN)}
        if loc & set(SIGS):
            continue
        f.body = [E().visit(s) for s in f.body]
    return tree


@t
def lambdas_as_functions(tree):
    """x = f(lambda ...) -> def g(...): return ...; x = f(g) in plain statements"""
    def f(b, s):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call):
            pre = []
            for i, a in enumerate(s.value.args):
                if isinstance(a, ast.Lambda):
                    g = b.fresh("fun")
                    pre.append(ast.FunctionDef(g, a.args, [ast.Return(a.body)], [], lineno=1, type_params=[]))
                    s.value.args[i] = name(g)
            return [*pre, s]
        return s
    return statements(tree, f)


@t
def methods_attached(tree):
    """methods without super() defined at module level and attached after the class"""
    out = []
    for s in tree.body:
        if isinstance(s, ast.ClassDef):
            keep, moved = [], []
            for m in s.body:
                if isinstance(m, FN) and not m.decorator_list and not uses_super(m) and not (m.name.startswith("__")) and not any(isinstance(n, ast.Attribute) and n.attr.startswith("__") for n in ast.walk(m)):
                    h = f"_{s.name}_{m.name}"
                    moved.append(copy.deepcopy(m))
                    moved[-1].name = h
                    keep.append(assign(m.name, name(h)))
                else:
                    keep.append(m)
            for x in moved:  # the class itself is not defined yet: annotations as strings
                for n in ast.walk(x):
                    if isinstance(n, ast.arg) and n.annotation is not None:
                        n.annotation = ast.Constant(ast.unparse(n.annotation))
                if x.returns is not None:
                    x.returns = ast.Constant(ast.unparse(x.returns))
            s.body = keep
            out += [*moved, s]
        else:
            out.append(s)
    tree.body = out
    return tree


def build(nm, top):
    d = pathlib.Path(top) / nm
    shutil.copytree(f"{RR.REPO}/differt2d", d / "differt2d", ignore=shutil.ignore_patterns("__pycache__"))
    fs = [T[x] for x in (nm.split("+") if nm != "everything" else T)]
    for p in sorted((d / "differt2d").glob("*.py")):
        tree = ast.parse(p.read_text())
        for f in fs:
            tree = ast.parse(ast.unparse(ast.fix_missing_locations(f(tree))))
        src = ast.unparse(tree)
        compile(src, str(p), "exec")
        p.write_text(src + "\n")
    return d


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or list(T)
    bad = und = 0
    with tempfile.TemporaryDirectory() as top, cf.ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        jobs = {}
        for n in names:
            d = build(n, top)
            if "--tests" in sys.argv:
                for x in ("tests", "pyproject.toml", "README.md", "docs"):
                    src = pathlib.Path(RR.REPO) / x
                    (shutil.copytree if src.is_dir() else shutil.copy)(src, d / x)
                r = subprocess.run("MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov -n 6 2>&1 | grep -v '^$' | tail -8", shell=True, cwd=d, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True)
                print(n, "TESTS", "\n".join(r.stdout.strip().splitlines()[-6:]), flush=True)
            jobs[n] = [(c, ex.submit(RR.one, d, c, top)) for c in RR.CHECKS]
        for n, l in jobs.items():
            res = [(c, *j.result()) for c, j in l]
            al = [(c, rc, m) for c, rc, m in res if rc != 0]
            un = [(c, m) for c, rc, m in res if rc == 0 and m]
            bad += bool(al)
            und += bool(un)
            print(n, "ALARM" if al else "undecided" if un else "quiet", flush=True)
            for c, rc, m in al:
                print("   ", c, rc, *[x[:400] for x in m[:2]], flush=True)
            for c, m in un:
                print("   ", c, *[x[:300] for x in m[:1]], flush=True)
    print(f"{len(names)} rewrites: {bad} alarms, {und} undecided")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
