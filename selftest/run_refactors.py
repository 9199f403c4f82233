"""Apply each behaviour-preserving edit to a copy of the package and run the
checks on it: anything but exit 0 is a false alarm (or a missing answer).

usage: run_refactors.py [--tests] [--keep] [name...]"""
import concurrent.futures as cf
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from edit import apply  # noqa: E402
from refactors import R  # noqa: E402

REPO = os.environ.get("SA_REPO", "/repo")
CHECKS = os.environ.get("CHECKS", "").split() or [f"C{i:02d}" for i in (*range(1, 29), 31, 32, 33, 34, 35)]


def build(name, top):
    d = pathlib.Path(top) / name
    shutil.copytree(f"{REPO}/differt2d", d / "differt2d", ignore=shutil.ignore_patterns("__pycache__"))
    for f, edits in R[name].items():
        p = d / "differt2d" / f
        p.write_text(edits[0][1] if edits[0][0] == "new" else apply(p.read_text(), edits))
    return d


def one(d, c, top):
    e = pathlib.Path(top) / f"ev-{d.name}-{c}"
    r = subprocess.run([sys.executable, "-m", "sa.run", c], cwd=HERE.parent, env={**os.environ, "SA_REPO": str(d), "SA_EVIDENCE": str(e)}, capture_output=True, text=True)
    return r.returncode, [x for x in (r.stdout + r.stderr).splitlines() if "UNDECIDED" in x or "violated:" in x or (r.returncode not in (0, 1))]


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or list(R)
    bad = und = 0
    with tempfile.TemporaryDirectory() as top, cf.ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        jobs = {}
        for n in names:
            try:
                d = build(n, top)
            except AssertionError as e:
                print(f"{n}: NOT APPLIED: {e}")
                bad += 1
                continue
            if "--tests" in sys.argv:
                # from the copy: the working directory comes before the installed package
                for x in ("tests", "pyproject.toml", "README.md", "docs"):
                    src = pathlib.Path(REPO) / x
                    if src.is_dir():
                        shutil.copytree(src, d / x)
                    elif src.exists():
                        shutil.copy(src, d / x)
                r = subprocess.run("MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov -n 6 2>&1 | grep -v '^$' | tail -8", shell=True, cwd=d, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True)
                print(n, "TESTS", "\n".join(r.stdout.strip().splitlines()[-6:]), flush=True)
            jobs[n] = [(c, ex.submit(one, d, c, top)) for c in CHECKS]
        for n, l in jobs.items():
            out = []
            for c, f in l:
                rc, msgs = f.result()
                if rc:
                    bad += 1
                und += rc == 0 and bool(msgs)
                if rc or msgs:
                    out.append(f"  {c} exit {rc}: " + " | ".join(m[:400] for m in msgs[:3]))
            print(f"{n}: " + ("quiet" if not out else "\n" + "\n".join(out)), flush=True)
    print(f"{len(names)} edits, {bad} alarms or missing answers, {und} checks with undecided obligations")
    return bad > 0


if __name__ == "__main__":
    sys.exit(main())
