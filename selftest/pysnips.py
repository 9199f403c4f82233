"""Differential test of the interpreter's Python subset against CPython."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SN = r'''
def f(a, b=2, *c, d, e=5, **g): return (a, b, c, d, e, g)
out = [f(1, d=4), f(1, 2, 3, 4, d=5, z=6), f(*[1, 2], **{'d': 3})]
---
def f(a, /, b, *, c=3): return a, b, c
out = f(1, b=2), f(1, 2, c=4)
---
def g():
    x = yield 1
    yield x
    return 3
it = g(); out = [next(it), it.send(7)]
try: next(it)
except StopIteration as e: out.append(e.value)
---
def g():
    r = yield from h()
    yield r
def h():
    yield 1
    return 2
out = list(g())
---
def g():
    try:
        yield 1
        yield 2
    finally:
        log.append('closed')
log = []
it = g(); next(it); it.close(); out = log
---
out = [x * y for x in range(3) if x for y in range(x)]
---
out = {k: v for k, v in zip('abc', range(3))}, {x % 2 for x in range(5)}, tuple(x for x in range(3))
---
def f():
    fs = [lambda i=i: i for i in range(3)] + [lambda: j]
    j = 9
    return [h() for h in fs]
out = f()
---
def f():
    fs = []
    for i in range(3):
        fs.append(lambda: i)
    return [h() for h in fs]
out = f()
---
def c():
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    return inc
i = c(); out = [i(), i()]
---
x = 1
def f():
    global x
    x += 1
f(); out = x
---
def f():
    try:
        return 1
    finally:
        log.append(2)
log = []; out = f(), log
---
def f():
    for i in range(3):
        try:
            continue
        finally:
            log.append(i)
    else:
        log.append('else')
log = []; f(); out = log
---
def f():
    for i in range(5):
        try:
            if i == 2: break
        finally:
            log.append(i)
    else:
        log.append('else')
log = []; f(); out = log
---
log = []
try:
    try:
        raise ValueError('a')
    except TypeError:
        log.append('t')
    except (KeyError, ValueError) as e:
        log.append(str(e))
        raise KeyError('b') from e
    else:
        log.append('n')
    finally:
        log.append('f')
except KeyError as e:
    log.append(type(e.__cause__).__name__)
out = log
---
class CM:
    def __init__(s, sw): s.sw = sw
    def __enter__(s): log.append('in'); return s
    def __exit__(s, t, v, tb): log.append(t.__name__ if t else None); return s.sw
log = []
with CM(True) as a, CM(False):
    raise ValueError
with CM(False): pass
out = log
---
from contextlib import contextmanager
@contextmanager
def cm(x):
    log.append(('in', x))
    try:
        yield x + 1
    finally:
        log.append('out')
log = []
with cm(1) as y: log.append(y)
try:
    with cm(2): raise KeyError('k')
except KeyError: log.append('caught')
out = log
---
from contextlib import ExitStack, nullcontext, suppress
log = []
with ExitStack() as st:
    st.callback(log.append, 1)
    st.callback(log.append, 2)
with suppress(KeyError):
    {}['a']
with nullcontext(3) as z: log.append(z)
out = log
---
class A:
    n = 0
    def __init__(self, x): self.x = x; A.n += 1
    @property
    def y(self): return self.x * 2
    @y.setter
    def y(self, v): self.x = v // 2
    @classmethod
    def mk(cls, x): return cls(x)
    @staticmethod
    def st(x): return x + 1
    def __repr__(self): return f"A({self.x})"
    def __eq__(self, o): return isinstance(o, A) and self.x == o.x
    def __hash__(self): return hash(self.x)
    def __len__(self): return self.x
    def __getitem__(self, i): return i
    def __contains__(self, i): return i == self.x
    def __call__(self, *a): return a
    def __iter__(self): return iter([self.x])
    def __bool__(self): return self.x > 1
    def __add__(self, o): return A(self.x + o)
    def __radd__(self, o): return A(o + self.x)
    def __lt__(self, o): return self.x < o.x
    def __neg__(self): return A(-self.x)
a = A.mk(3); a.y = 10
out = repr(a), a.y, A.st(1), a == A(5), len(a), a[1:2], 5 in a, a(1, 2), list(a), bool(A(1)), repr(a + 1), repr(2 + a), sorted([A(3), A(1)])[0].x, repr(-a), A.n, len({A(1), A(1)})
---
class A:
    def f(self): return 'A'
    def g(self): return self.f()
class B(A):
    def f(self): return 'B' + super().f()
class C(A):
    def f(self): return 'C' + super().f()
class D(B, C):
    def f(self): return 'D' + super().f()
out = D().g(), [k.__name__ for k in D.__mro__], issubclass(D, A), isinstance(D(), (int, C))
---
from dataclasses import dataclass, field, replace
@dataclass
class P:
    x: int
    y: int = 2
    z: list = field(default_factory=list)
    def s(self): return self.x + self.y
p = P(1); q = replace(p, x=5)
out = p.s(), q.s(), p == P(1), p.z is not P(1).z, repr(p)
---
from dataclasses import dataclass
@dataclass(frozen=True)
class P:
    x: int
    def __post_init__(self):
        if self.x < 0: raise ValueError("neg")
try: P(-1)
except ValueError as e: out = [str(e)]
try: P(1).x = 3
except Exception as e: out.append(type(e).__name__)
---
from typing import NamedTuple
class T(NamedTuple):
    a: int
    b: str = 'x'
t = T(1); a, b = t
out = t.a, b, t[0], t._replace(a=4), len(t), t == (1, 'x')
---
from collections import namedtuple, defaultdict, OrderedDict, deque, Counter, ChainMap
T = namedtuple('T', 'a b')
d = defaultdict(list); d['x'].append(1)
q = deque([1, 2]); q.appendleft(0); q.pop()
out = T(1, 2).b, dict(d), list(q), Counter('aab')['a'], ChainMap({'a': 1}, {'a': 2, 'b': 3})['b']
---
from enum import Enum
class E(Enum):
    A = 1
    B = 'b'
out = E.A.name, E('b').name, E['A'].value, [e.name for e in E], E.A == E.A, E.A is E.B
---
def m(x):
    match x:
        case 0 | 1: return 'small'
        case int(n) if n > 10: return 'big'
        case [a, *r]: return ('list', a, r)
        case {'k': v, **rest}: return ('dict', v, rest)
        case str(): return 'str'
        case None: return 'none'
        case _: return 'other'
out = [m(x) for x in (0, 11, 5, [1, 2, 3], {'k': 1, 'j': 2}, 'a', None)]
---
class P:
    __match_args__ = ('x', 'y')
    def __init__(s, x, y): s.x, s.y = x, y
def m(p):
    match p:
        case P(0, y): return y
        case P(x=a, y=0): return a
        case P() as q: return q.x + q.y
out = [m(P(0, 5)), m(P(6, 0)), m(P(1, 2))]
---
a, (b, *c), d = 1, (2, 3, 4), 5
out = a, b, c, d
---
*a, b = range(4); x = y = []; x.append(1); out = a, b, y
---
d = {'a': 1, **{'b': 2}}; l = [*range(2), 5]; d |= {'c': 3}
out = d, l, {**d, 'a': 9}, d.get('z', 0), d.pop('a'), d.setdefault('q', 4), list(d.items()), d
---
out = [i for i, x in enumerate('abc', 1)], list(zip('ab', 'cd', strict=True)), list(map(lambda x, y: x + y, [1], [2])), list(filter(None, [0, 1])), sorted([3, 1, 2], reverse=True, key=lambda x: -x), max([1, 5], key=lambda x: -x), min([], default=3), sum([[1], [2]], []), any(x > 1 for x in [1, 2]), all([]), list(reversed([1, 2])), divmod(7, 2), abs(-3), round(2.5), pow(2, 3, 5)
---
out = 'a,b'.split(','), '-'.join(['x', 'y']), ' x '.strip(), 'abc'.upper(), 'abc'[::-1], 'a' in 'abc', f"{3.14159:.2f} {'x':>3} {5!r} {10=}", 'abc'.startswith(('a', 'z')), 'a{}b{k}'.format(1, k=2), '%s-%d' % ('a', 3), 'aXbX'.replace('X', ''), 'abc'.find('c'), 'x'.isdigit(), list('ab'), 'Ab'.lower().title(), 'a b'.partition(' '), 'abc'.removeprefix('a')
---
import itertools, functools, operator
out = list(itertools.product([1, 2], repeat=2)), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.accumulate([1, 2, 3])), list(itertools.combinations(range(3), 2)), list(itertools.permutations([1, 2])), list(itertools.islice(itertools.count(), 2, 5)), list(itertools.takewhile(lambda x: x < 2, range(5))), list(itertools.pairwise('abc')), [list(g) for k, g in itertools.groupby([1, 1, 2])], functools.reduce(operator.add, [1, 2, 3]), functools.partial(pow, 2)(3), list(itertools.starmap(pow, [(2, 3)])), list(itertools.zip_longest([1], [2, 3], fillvalue=0)), list(itertools.dropwhile(lambda x: x < 2, range(4))), list(itertools.compress('abc', [1, 0, 1])), list(itertools.repeat(1, 2)), operator.itemgetter(1)([4, 5]), operator.attrgetter('real')(3)
---
import functools
def deco(n):
    def w(f):
        @functools.wraps(f)
        def g(*a, **k):
            return [n, f(*a, **k)]
        return g
    return w
@deco(1)
@deco(2)
def f(x):
    "doc"
    return x
out = f(3), f.__name__, f.__doc__
---
import functools
calls = []
@functools.lru_cache(maxsize=None)
def f(x):
    calls.append(x)
    return x * 2
out = f(1), f(1), f(2), calls
---
import functools
@functools.singledispatch
def f(x): return 'obj'
@f.register
def _(x: int): return 'int'
@f.register(list)
def _(x): return 'list'
out = f(1), f([]), f('a'), f(True)
---
from functools import cached_property
class A:
    def __init__(s): s.n = 0
    @cached_property
    def v(s): s.n += 1; return s.n
a = A(); out = a.v, a.v, a.n
---
x = 5
out = 'a' if x > 3 else 'b', 1 < x < 10, not x, x and 0 or 7, (y := 3) + y, x is None, [] or 'e', x // 2, x % 3, -x // 2, 2 ** -1, x & 4, x | 8, x ^ 1, ~x, x << 2, x >> 1, True + 1, 7.5 // 2
---
i = 0
while True:
    i += 1
    if i == 3: continue
    if i > 5: break
else:
    i = -1
out = i
---
i = 3
while i: i -= 1
else: i = 'done'
out = i
---
l = [1, 2, 3, 4]; del l[1]; l[0:1] = [9, 9]; l += [5]; l[-1] *= 2
l.insert(0, 7); l.extend((1,)); l.sort(); l.reverse(); l.remove(1)
out = l, l.index(9), l.count(9), l[::2], l.copy() is l, l * 2
---
s = {1, 2} | {3}; s.add(4); s.discard(9); out = s - {1}, s & {1, 7}, s ^ {1, 9}, 2 in s, s <= {1, 2, 3, 4}, frozenset([1]) | {2}
---
def f(n): return 1 if n < 2 else n * f(n - 1)
out = f(6)
---
class It:
    def __init__(s): s.i = 0
    def __iter__(s): return s
    def __next__(s):
        s.i += 1
        if s.i > 3: raise StopIteration
        return s.i
out = list(It()), [x for x in It()], sum(It())
---
class A:
    def __getattr__(self, k):
        if k.startswith('q'): return k
        raise AttributeError(k)
out = A().qq, hasattr(A(), 'z'), getattr(A(), 'z', 4)
---
class A:
    __slots__ = ('x',)
    def __init__(self): self.x = 1
a = A(); setattr(a, 'x', 4); out = getattr(a, 'x'), vars if False else 0
---
class A: pass
a = A(); a.b = 1; a.__dict__['c'] = 2; delattr(a, 'b')
out = vars(a), hasattr(a, 'b'), type(a).__name__, callable(a), callable(A)
---
from abc import ABC, abstractmethod
class A(ABC):
    @abstractmethod
    def f(self): ...
class B(A):
    def f(self): return 1
try: A(); out = [0]
except TypeError: out = [1]
out.append(B().f())
---
try:
    assert 1 == 2, "msg"
except AssertionError as e:
    out = str(e)
---
def f(*args, **kw): return args, kw
k = {'a': 1}
a, b = f(*(1, 2), 3, **k, z=2)
b['a'] = 9
out = a, b, k
---
def f(x, acc=[]):
    acc.append(x); return acc
f(1); out = f(2)
---
class Meta:
    def __init_subclass__(cls, **kw): reg.append((cls.__name__, kw))
reg = []
class X(Meta, tag=1): pass
out = reg
---
class D:
    def __set_name__(s, o, n): s.n = n
    def __get__(s, o, t=None): return (s.n, o is None)
class A: v = D()
out = A().v, A.v
---
class A:
    class B:
        x = 3
    y = B.x + 1
    z = [i for i in range(y)]
out = A.B.x, A.y, A.z
---
try:
    raise ExceptionGroup('g', [ValueError(1)]) if False else RuntimeError('x')
except Exception as e:
    out = type(e).__name__, e.args
---
def f():
    try:
        raise ValueError
    except ValueError:
        return 'h'
    else:
        return 'e'
    finally:
        log.append(1)
log = []; out = f(), log
---
try:
    try: 1 / 0
    finally: log = ['f']
except ZeroDivisionError: log.append('z')
out = log
---
x = [1, 2, 3]
match x:
    case [1, *_, 3]: out = 'ok'
    case _: out = 'no'
---
def gen():
    while True:
        got = yield
        if got is None: break
        acc.append(got)
acc = []; g = gen(); next(g); g.send(1); g.send(2); out = acc
---
out = [*(x for x in range(2)), *'ab'], (*[1], 2), {*[1, 1]}
---
print_ = []
def f(a, *, key): print_.append((a, key))
for a, key in zip([1, 2], 'xy'): f(a, key=key)
out = print_
---
nested = {'a': [{'b': (1, 2)}]}
out = nested['a'][0]['b'][-1]
nested['a'][0]['b'] += (3,)
out = out, nested
---
lst = [3, 1, 2]
out = sorted(lst), sorted(enumerate(lst), key=lambda t: t[1]), list(zip(*[(1, 2), (3, 4)])), dict(zip('ab', [1, 2])), list(dict.fromkeys('aba'))
---
import math
out = math.floor(2.5), math.sqrt(4), math.isclose(1, 1.0), math.inf > 1, math.hypot(3, 4), math.prod([2, 3]), math.comb(4, 2)
---
class A:
    def __init__(self): self._x = []
    def __enter__(self): self._x.append(1); return self
    def __exit__(self, *exc): self._x.append(2)
a = A()
with a as b: pass
out = a._x, a is b
---
import contextlib
class C(contextlib.ContextDecorator):
    def __enter__(self): log.append('i')
    def __exit__(self, *a): log.append('o')
log = []
@C()
def f(): log.append('b')
f(); out = log
---
from types import SimpleNamespace, MappingProxyType
n = SimpleNamespace(a=1); n.b = 2
out = n.a + n.b, MappingProxyType({'q': 1})['q']
---
import threading
lk = threading.RLock(); tl = threading.local(); tl.x = 1
with lk:
    with lk: out = tl.x, hasattr(tl, 'y')
---
import weakref, copy
out = copy.copy([1, [2]]), copy.deepcopy({'a': [1]})
---
from contextvars import ContextVar
v = ContextVar('v', default=1)
t = v.set(2); a = v.get(); v.reset(t); out = a, v.get()
---
def outer():
    x = 1
    class A:
        y = x
        def f(self): return x
    return A
A = outer(); out = A.y, A().f()
---
f = lambda *a, k=1, **kw: (a, k, kw)
out = f(1, 2, k=3, z=4)
---
out = int('12'), float('1.5'), str(3), bool([]), list((1,)), tuple([2]), set([1]), dict(a=1), dict([('b', 2)]), complex if False else 0, bytes([65]), chr(65), ord('B'), hex(255), bin(5), repr('a'), type(1) is int, isinstance(True, int), id if False else 0
---
a = b = 0
a, b = 1, a
out = a, b
---
l = [[0] * 2 for _ in range(2)]; l[0][1] = 5; out = l
---
d = {}
for k, v in [('a', 1), ('b', 2), ('a', 3)]:
    d.setdefault(k, []).append(v)
out = d
---
from operator import methodcaller, mul, add, getitem
out = methodcaller('upper')('a'), mul(2, 3), getitem([1, 2], 1)
---
def f(x: "int", y: list[int] | None = None) -> dict[str, int]: return {}
out = f(1)
---
from typing import Generic, TypeVar, Protocol, ClassVar, Final, overload, cast, Literal, Callable, Any
T = TypeVar('T')
class Box(Generic[T]):
    K: ClassVar[int] = 3
    def __init__(self, v: T): self.v = v
out = Box[int](3).v, cast(int, 'x'), Box.K
---
class Base:
    registry = {}
    def __init_subclass__(cls): Base.registry[cls.__name__] = cls
class K1(Base): pass
out = list(Base.registry)
---
def check(x):
    if isinstance(x, (list, tuple)) and len(x) == 2: return 'pair'
    elif x in (None, ...): return 'nothing'
    raise TypeError(f"bad {x!r}")
try: check(3)
except TypeError as e: out = check((1, 2)), check(...), str(e)
---
out = (lambda s: s and s[0] + sum(s[1:]))([1, 2, 3]), [(i, j) for i in range(2) for j in range(2) if i != j]
---
xs = iter([1, 2, 3]); first = next(xs); rest = list(xs); out = first, rest, next(xs, 'end'), list(iter(lambda: rest.pop() if rest else None, None))
---
class V:
    def __init__(s, *v): s.v = v
    def __matmul__(s, o): return sum(a * b for a, b in zip(s.v, o.v))
    def __mul__(s, k): return V(*(a * k for a in s.v))
    __rmul__ = __mul__
    def __iadd__(s, o): s.v = tuple(a + b for a, b in zip(s.v, o.v)); return s
    def __eq__(s, o): return s.v == o.v
    def __ne__(s, o): return not s == o
    def __sub__(s, o): return V(*(a - b for a, b in zip(s.v, o.v)))
a = V(1, 2); b = a; a += V(1, 1)
out = a @ V(1, 1), (2 * a).v, b.v, a == V(2, 3), a != b, (a - b).v
---
def f(a, b): return a - b
out = f(b=1, a=5), f(**{'a': 1, 'b': 2}), (lambda: 0)(), [*map(f, [3], [1])]
---
try:
    f = lambda x: x
    f()
except TypeError: out = 'te'
---
try: {}['k']
except LookupError as e: out = type(e).__name__
---
class E1(Exception):
    def __init__(self, a): super().__init__(f'm{a}'); self.a = a
try: raise E1(3)
except E1 as e: out = str(e), e.a, isinstance(e, Exception)
---
out = []
for i in range(3):
    for j in range(3):
        if j == 2: break
        if (i + j) % 2: continue
        out.append((i, j))
---
s = slice(1, None, 2); out = [0, 1, 2, 3][s], s.start, s.stop, range(10)[2:8:3], len(range(0, 10, 3)), 4 in range(0, 10, 2)
---
out = ''.join(sorted('hello')), 'a' * 3, 'abc' < 'abd', (1, 2) < (1, 3), [1] + [2], (1,) * 2, None == 0, 'x'.zfill(3), 'a-b'.split('-', 1), '\n'.join('ab').splitlines()
---
def f(**kw):
    kw.setdefault('a', 1); x = kw.pop('b', None); return kw, x
d = {'b': 3}; out = f(**d), d
---
class Lazy:
    def __class_getitem__(cls, k): return (cls.__name__, k)
out = Lazy[3]
---
def f():
    if False: yield
out = list(f())
---
def f(n):
    if n: yield n; yield from f(n - 1)
out = list(f(3))
---
def f():
    x = 1
    del x
    try: return x
    except UnboundLocalError: return 'ub'
out = f()
---
x = 10
def f():
    try: return x
    except NameError: return 'ne'
    x = 2
out = f()
---
class A:
    x = 1
    def get(self): return self.x
    def set(self): self.x = 2
a = A(); b = A(); a.set(); out = a.get(), b.get(), A.x
---
class A(dict):
    def __missing__(self, k): return k * 2
    def extra(self): return len(self)
a = A(x=1); out = a['x'], a['q'], a.extra(), dict(a), isinstance(a, dict), a == {'x': 1}
---
class L(list):
    def second(self): return self[1]
l = L([1, 2]); l.append(3); out = l.second(), len(l), l[:2], sorted(l, reverse=True)
---
class Tup(tuple):
    def __new__(cls, a, b): return super().__new__(cls, (a, b))
    @property
    def first(self): return self[0]
t = Tup(1, 2); out = t.first, t == (1, 2), len(t)
---
class S:
    _i = None
    def __new__(cls):
        if cls._i is None: cls._i = super().__new__(cls)
        return cls._i
out = S() is S()
---
import functools
@functools.total_ordering
class A:
    def __init__(s, x): s.x = x
    def __eq__(s, o): return s.x == o.x
    def __lt__(s, o): return s.x < o.x
out = A(1) <= A(1), A(2) > A(1)
---
def a():
    def b():
        def c():
            nonlocal v
            v = 5
        v = 1
        c()
        return v
    return b()
out = a()
---
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    warnings.warn('x')
out = 1
---
out = [(lambda x: (yield_ := x) + yield_)(2)], [y for x in [1, 2] if (y := x * 2) > 2]
---
i = 5
out = [i for i in range(2)], i
---
def f(a=1, *, b): return a + b
import functools, inspect
g = functools.partial(f, b=2)
out = g(), g(3), g(a=4, b=1), g.func is f, g.keywords
---
out = getattr('abc', 'upper')(), hasattr([], 'append'), callable(len), isinstance(len, type), isinstance(3, (str, int))
---
from collections.abc import Mapping, Iterable, Sequence, Callable
out = isinstance({}, Mapping), isinstance([], Iterable), isinstance((), Sequence), isinstance(len, Callable), isinstance('a', Sequence), isinstance(3, Iterable)
---
class M(__import__('collections').abc.Mapping if False else object): pass
from collections.abc import Mapping
class FD(Mapping):
    def __init__(s, d): s.d = d
    def __getitem__(s, k): return s.d[k]
    def __iter__(s): return iter(s.d)
    def __len__(s): return len(s.d)
f = FD({'a': 1}); out = f.get('b', 2), 'a' in f, list(f.items()), dict(f), {**f}, f.get('a')
---
from collections import UserDict
class U(UserDict):
    def __setitem__(s, k, v): super().__setitem__(k, v * 2)
u = U(a=1); u['b'] = 2; out = u['a'], dict(u), len(u)
---
def fib():
    a, b = 0, 1
    while True:
        yield a
        a, b = b, a + b
import itertools
out = list(itertools.islice(fib(), 6)), [x for _, x in zip(range(3), fib())]
---
t = 1, ; out = t, (), ((1, 2), 3)
---
x = 3
out = x.__class__.__name__, (3).bit_length(), 3 .real, 2.0.is_integer(), -7 % 3, 7 // -2, 1e3, 0x10, 1_000
---
def f(x):
    return {'a': lambda: x + 1, 'b': lambda: x * 2}[('b' if x > 2 else 'a')]()
out = f(1), f(3)
---
try:
    x, y = [1]
except ValueError as e: out = 'unpack'
---
try:
    list(zip([1], [1, 2], strict=True))
except ValueError: out = 'strict'
---
def g():
    try:
        yield 1
    except KeyError:
        yield 'k'
it = g(); next(it); out = it.throw(KeyError('x'))
---
log = []
class C:
    def __init__(s, n): s.n = n
    def __enter__(s): log.append(s.n); return s
    def __exit__(s, *a): log.append(-s.n)
with (C(1) as a, C(2) as b):
    log.append(a.n + b.n)
def f():
    with C(5):
        return 'r'
r = f()
for i in range(2):
    with C(7):
        if i == 0: continue
        break
out = log, r
---
type_ = type('Dyn', (), {'x': 3, 'f': lambda self: self.x})
out = type_().f()
---
d = dict(b=1, a=2)
out = sorted(d), sorted(d.items(), key=lambda kv: kv[1]), max(d, key=d.get), {v: k for k, v in d.items()}, list(reversed(d)), d.keys() & {'a'}, d.keys() - {'a'}, list(d.values()), d | {'c': 1}
---
a = [1, 2, 3]
b, *_ = a
a[1], a[2] = a[2], a[1]
for a[0] in range(3): pass
out = a, b
---
import string, textwrap, re, os.path
out = bool(re.match(r'a+', 'aab')), re.sub('a', 'b', 'aa')
---
def f(x, /, **kw): return x, kw
out = f(1, x=2)
---
class P:
    def __init__(self, x): self.x = x
    def __getstate__(self): return self.x
    @staticmethod
    def of(*xs): return [P(x) for x in xs]
    @classmethod
    def both(cls, *a): return [p.x for p in cls.of(*a)]
out = P.both(1, 2)
---
def f(): 
    """doc"""
f.attr = 3
out = f.attr, f.__name__, f.__doc__, f.__module__ is not None
---
x = [1,2,3]
y = x[:]
y[0] = 9
out = x, y, x is y, x == [1,2,3]
---
def memo(f):
    cache = {}
    def g(n):
        if n not in cache:
            cache[n] = f(n)
        return cache[n]
    return g
@memo
def fib(n): return n if n < 2 else fib(n-1) + fib(n-2)
out = fib(20)
---
r = []
for x in (y for y in range(10) if y % 2):
    if x > 6: break
    r.append(x)
out = r
---
def f(a, b, c=0): return (a, b, c)
args = (1,)
out = f(*args, 2), f(*args, *[3, 4]), f(1, **dict(b=2), c=3)
---
s = 'abc'
out = [s[i:i+2] for i in range(len(s) - 1)], s[-2:], s[::2], list(enumerate(s)), s.index('b'), s.count('a')
---
from string import ascii_lowercase
out = ascii_lowercase[:3]
---
assert (lambda: True)()
out = not None, None or 1, 0 or [] or 'x', 1 and 2, [1][0] if [1] else 0
'''


def conv(x):
    return repr(x)


def main():
    from sa.chk import World
    from sa.interp import Inst

    w = World(client=False)

    def plain(x):
        if isinstance(x, Inst):
            if hasattr(x, "listval"):
                return x.listval
            try:
                return eval(w.I.call(w.I.getattr(x, "__repr__"), []))
            except Exception:
                return ("inst", x.cls.__name__)
        if isinstance(x, tuple) and hasattr(x, "_fields"):
            return tuple(plain(y) for y in x)
        if isinstance(x, (list, tuple)):
            return type(x)(plain(y) for y in x)
        if isinstance(x, dict):
            return {k: plain(v) for k, v in x.items()}
        return x

    bad = 0
    parts = [s.strip("\n") for s in SN.split("\n---\n")]
    for s in parts:
        env = {"__name__": "m"}
        try:
            exec(compile(s, "<s>", "exec", dont_inherit=True), env)
            want = env["out"]
        except Exception as e:
            print("CPYTHON", e, s)
            continue
        try:
            m = w.source(s, name="<client>")
            got = m.vars["out"]
            g, x = conv(plain(got)), conv(plain(want) if not isinstance(want, (list, tuple)) else type(want)(tuple(y) if hasattr(y, "_fields") else y for y in want))
            if g != x:
                try:
                    ok = plain(got) == want
                except Exception:
                    ok = False
                if not ok:
                    print("DIFF\n" + s + f"\n  got  {g}\n  want {x}\n")
                    bad += 1
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            print("FAIL\n" + s + f"\n  {type(e).__name__}: {e}\n")
            if os.environ.get("TB"):
                traceback.print_exc()
            bad += 1
    print(len(parts), "snippets,", bad, "differences")


main()
