"""Run the checks against scratch copies of /repo with each planted bug applied.

usage: runseeds.py [-a] [id ...]     -a: every claimed check, not only the bug's own
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allp = "-a" in sys.argv
ids = [a for a in sys.argv[1:] if a != "-a"] or sorted(os.listdir(VERIF + "/seeded"))
claimed = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]


def one(i):
    d = VERIF + "/seeded/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="rs.")
    out = []
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + t, shell=True, check=True)
        subprocess.run("git init -q . && git apply --whitespace=nowarn %s/patch.diff" % d, shell=True, check=True, cwd=t)
        for q in ([p] + [x for x in claimed if x != p] if allp else [p]):
            r = subprocess.run(["python3", VERIF + "/check.py", q, "--repo", t, "--evidence", t],
                               capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "iolation" in x]
            w = "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else "BROKEN"
            if q == p or r.returncode:
                first = [x for x in r.stdout.splitlines() if not x.startswith("VIOLATION")]
                out.append("%-24s %s%s %s  %s" % (i, "" if q == p else "   +", q, w, (first or [""])[0][:170] + (r.stderr[-200:] if w == "BROKEN" else "")))
    finally:
        shutil.rmtree(t)
    return "\n".join(out)


with ThreadPoolExecutor(4) as ex:
    for o in ex.map(one, ids):
        print(o, flush=True)
