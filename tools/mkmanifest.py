"""Write MANIFEST.json from the registered obligations."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import chk
for m in ("logic", "geometry", "scene", "effects", "gradients", "types", "interfaces"):
    try:
        importlib.import_module(f"sa.checks.{m}")
    except ModuleNotFoundError:
        pass
GVN = "abstract interpretation of the sources to a value graph + global value numbering against a specification"
TECH = {
    "C01": GVN + "; mode/option flow (every truth of the result depends on the requested mode)",
    "C02": "typestate analysis of the mode variable and its lock over all exits (abstract interpretation)",
    "C03": "interval and kind (boolean/real/NaN) analysis on the value graph",
    "C15": "dataflow: operand-domain (non-zero) analysis of every singular operator on differentiable paths; gradient-cut detection",
    "C20": "key-linearity (typestate) and purity analysis of random keys on the value graph",
    "C26": "effect analysis: writes to caller-visible objects and module state under abstract interpretation",
    "C31": GVN + "; effect analysis of attribute writes",
    "C32": "taint analysis: concretisation of traced values under abstract interpretation",
    "C33": "structure analysis of the field declarations of element classes (abstract pytrees); value numbering of mapped and differentiated elements",
    "C34": "type system: dependent shape-and-kind contracts read from the annotations, checked at every call under abstract interpretation",
    "C35": "type system: abstract-method resolution for client classes, class hierarchy analysis, value numbering of inherited methods",
    "C28": "abstract interpretation with an event-recording drawing sink; option-flow comparison",
}
NOTE = ("Sound for the listed abstract configurations (array shapes, numbers of nodes/objects, modes, options) with symbolic coordinates, over real "
        "arithmetic: value numbers are equal only modulo field/lattice/Boolean laws (random-interpretation hash, error < 2^-40). Trusted: the Python "
        "front end, the models of jax/equinox/differt_core/optax primitives, the written specification. Constructs outside the models are reported "
        "UNDECIDED, never as violations. Sizes are bounded (2..5 typical; both sides of every integer the source guards on).")
checks = []
for pid in sorted(chk._checks):
    checks.append(dict(property=pid, quick_cmd=f"python3 -m sa.run {pid}", thorough_cmd=f"python3 -m sa.run {pid} --thorough", technique=TECH.get(pid, GVN), level="other",
                       level_note=f"{len(chk._checks[pid])} obligations. " + NOTE))
na = [
    dict(property="C29", reason="Convergence of random-restart gradient descent to the global optimum is a statistical run-time property of numerical iterations; no sound static argument in reach bounds it."),
    dict(property="C30", reason="A stated floating-point error needs a rounding-error analysis of XLA-compiled float32 kernels, which reassociate and fuse; the analyser works over real arithmetic."),
]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(chk.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
