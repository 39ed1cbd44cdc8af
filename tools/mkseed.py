"""Build /verif/seeded/<id>/ from tools/seeds.py, confirming each in a scratch copy.

usage: mkseed.py [id ...]      (no id: every seed that has no directory yet)
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds  # noqa: E402

REPO = "/repo"
SCR = "/tmp/mkseed.scratch"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def edit(path, old, new):
    s = open(path, newline="").read()
    if "\r\n" in s:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == 1, (path, s.count(old), old)
    open(path, "w", newline="").write(s.replace(old, new))


def build(d):
    # the project's own Makefile, in a scratch copy
    return sh("rm -f gaia; make -B gaia CC=gcc", d)


def tests_ok():
    """run the project's tests against the working tree in /repo"""
    sh("bash /opt/vp/test.sh /tmp/mkseed.out.json", "/")
    o = json.load(open("/tmp/mkseed.out.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    base = set(b.get("stable", b.get("passed", [])) if isinstance(b, dict) else b)
    return base <= set(o["passed"]), sorted(base - set(o["passed"]))


def main():
    ids = sys.argv[1:] or [i for i in seeds.SEEDS if not os.path.exists(VERIF + "/seeded/" + i + "/meta.json")]
    for i in ids:
        s = seeds.SEEDS[i]
        d = VERIF + "/seeded/" + i
        assert not sh("git status --porcelain", REPO).stdout.strip(), "repo not clean"
        try:
            for f, old, new in s["edits"]:
                edit(REPO + "/" + f, old, new)
            diff = subprocess.run("git diff --binary", cwd=REPO, shell=True, capture_output=True).stdout
            demo = "#!/bin/bash\n" + seeds.PRELUDE + s["demo"].strip("\n") + "\n"
            os.makedirs("/tmp/mkseed.d", exist_ok=True)
            dp = "/tmp/mkseed.d/demo.sh"
            open(dp, "w").write(demo)
            ok, miss = tests_ok()
            b = sh("bash /opt/vp/build.sh", "/")
            r1 = sh("bash " + dp, REPO, timeout=300)
        finally:
            sh("git checkout -- .", REPO)
        sh("bash /opt/vp/build.sh", "/")
        r0 = sh("bash " + dp, REPO, timeout=300)
        good = ok and b.returncode == 0 and r1.returncode != 0 and r0.returncode == 0
        print(i, "OK" if good else "BAD", "tests", ok, miss, "build", b.returncode, "demo", r0.returncode, r1.returncode)
        if not good:
            print(r0.stdout[-400:], r0.stderr[-400:], "----", r1.stdout[-400:], r1.stderr[-400:])
            continue
        print("   ", (r1.stdout + r1.stderr).strip().replace("\n", " | ")[:200])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.sh", "w").write(demo)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
                  open(d + "/meta.json", "w"), indent=1)


main()
