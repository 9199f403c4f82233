"""Which checks catch which planted bug: rewrites the table of DESIGN.md."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [c["property"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]]


def one(d):
    tmp = tempfile.mkdtemp(prefix="st", dir="/tmp")
    try:
        shutil.copytree("/repo/differt2d", f"{tmp}/differt2d")
        subprocess.run(["git", "apply", "--include=differt2d/*", f"{d}/patch.diff"], cwd=tmp, check=True)
        hit = []
        for c in IDS:
            r = subprocess.run(["/usr/bin/python3", "-m", "sa.run", c], cwd=V, env={**os.environ, "SA_REPO": tmp, "SA_EVIDENCE": tmp + "/ev"}, capture_output=True, text=True)
            if r.returncode == 1:
                hit.append(c)
        return hit
    finally:
        shutil.rmtree(tmp)


def main():
    ds = sorted(glob.glob(f"{V}/seeded/*"))
    t = open(f"{V}/DESIGN.md").read()
    # --new: only the planted bugs the table does not have yet
    old = dict(re.findall(r"^\| ([^|]+?) \|.*\| ([C\d, ]+) \|$", t, flags=re.M)) if "--new" in sys.argv else {}
    with cf.ThreadPoolExecutor(int(os.environ.get("J", 7))) as ex:
        res = list(ex.map(lambda d: old[os.path.basename(d)].split(", ") if os.path.basename(d) in old else one(d), ds))
    rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    for d, h in zip(ds, res):
        m = json.load(open(f"{d}/meta.json"))
        rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) | {', '.join(h) or 'MISSED'} |")
        if m["property"] not in h:
            print("MISSED by its own check:", d, h)
    t = open(f"{V}/DESIGN.md").read()  # read again: it may have been edited meanwhile
    new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
    t = t.replace("@@SEEDS@@", new) if "@@SEEDS@@" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: new, t, flags=re.S)
    open(f"{V}/DESIGN.md", "w").write(t)


sys.exit(main())
