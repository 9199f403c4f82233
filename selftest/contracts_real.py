"""Which ill-formed arguments the library refuses, by running it (table of sa/checks/types.py)."""
import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
import jax, jax.numpy as jnp, numpy as np
from sa.checks import types as T
env = {}
exec(T.PRE, env)
rng = np.random.default_rng(0)
def mk(k, s):
    if k == "k": return jax.random.PRNGKey(3)
    if k == "f": return jnp.asarray(rng.uniform(0.1, 0.9, s), dtype=float)
    if k == "i": return jnp.asarray(rng.integers(0, 2, s), dtype=int)
    return jnp.asarray(rng.integers(0, 2, s), dtype=bool)
bad = []
for n, src, args, i, what in T.cases():
    try:
        r = eval(src, env)(*[mk(*a) for a in args])
        ok = True
    except Exception as e:
        ok = False
        if i is None: print("REFUSED", n, type(e).__name__, str(e)[:150])
    if ok and i is not None and not (what == "one row more" and (n, i) in T.ROWS) and what not in T.ACCEPTED.get((n, i), ()): bad.append((n, i, what))
for b in bad: print(b)
for l in T.FORMS.strip().split("\n"):
    try: eval(l, env)()
    except Exception as e: print("FORM REFUSED", l[:100], type(e).__name__, str(e)[:200])
