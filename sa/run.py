"""python3 -m sa.run C05 [--thorough]"""
import importlib
import os
import sys

sys.setrecursionlimit(200000)


def main():
    import threading

    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else os.environ.get("VERIF_TIER", "quick")
    rc = []

    for m in ("logic", "geometry", "scene", "effects", "gradients", "types", "interfaces"):
        try:
            importlib.import_module(f"sa.checks.{m}")
        except ModuleNotFoundError as e:
            if f"sa.checks.{m}" not in str(e):
                raise
    from .chk import run

    sys.exit(run(pid, tier))


if __name__ == "__main__":
    main()
