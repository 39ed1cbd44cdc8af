#!/usr/bin/env python3
"""Decide one property of gaia from its current sources (static analysis).

usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--units a,b]

exit 0: every obligation of the property is discharged
exit 1: a VIOLATION line names the property and a report
exit 2: the analysis could not be carried out"""
import argparse
import gc
import json
import multiprocessing
import os
import re
import sys
import time
import traceback

LIMIT = 700         # seconds for one unit
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from gaiasa import ir, base, units          # noqa: E402


def run_unit(name, repo, q):
    """one unit in its own process: (status, findings, obligations, stats)"""
    gc.disable()
    sys.setrecursionlimit(20000)
    t = time.time()
    c = None

    def rows(l):
        return [dict(kind=f.kind, loc=f.loc, fn=f.fn, msg=f.msg, facts=str(f.facts),
                     trail=[str(x) for x in f.trail], props=sorted(set(f.props)), unit=name)
                for f in l]
    try:
        m = ir.build_ir(repo)
        c = base.Ctx(repo, m)
        c.deadline = t + LIMIT
        units.UNITS[name].run(c)
        q.put((name, "ok", rows(c.findings), c.obl, dict(
            stats=c.stats, funcs=sorted(c.funcs), notes=c.notes,
            loops={"%s:%s" % k if isinstance(k, tuple) else str(k): v
                   for k, v in c.loops.items()},
            wall=round(time.time() - t, 2))))
    except ir.Broken as e:
        # what was already found stands
        fs = rows(c.findings + list(c.partial.values())) if c else []
        q.put((name, "broken", str(e), fs, {}))
    except BaseException:
        fs = rows(c.findings + list(c.partial.values())) if c else []
        q.put((name, "broken", traceback.format_exc(), fs, {}))


def known(path):
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) unit=(\S+) fn=(\S+) kind=(\S+) msg=(.*)$", l.rstrip("\n"))
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--units")
    ap.add_argument("--evidence", default=os.path.join(HERE, "evidence"))
    a = ap.parse_args()
    pid, t0 = a.property, time.time()
    if pid not in units.PROPS:
        print("unknown property", pid)
        return 2
    names = a.units.split(",") if a.units else \
        list(units.PROPS[pid]) if a.tier == "quick" else list(units.UNITS)
    q = multiprocessing.Queue()
    procs = {}
    for n in names:
        procs[n] = multiprocessing.Process(target=run_unit, args=(n, a.repo, q))
        procs[n].start()
    res, broken = {}, []
    while len(res) < len(names):
        try:
            r = q.get(timeout=2)
            res[r[0]] = r
            continue
        except Exception:
            pass
        for n in names:
            if n not in res and not procs[n].is_alive():
                time.sleep(0.5)
                try:
                    while True:
                        r = q.get(timeout=0.5)
                        res[r[0]] = r
                except Exception:
                    pass
                if n not in res:
                    res[n] = (n, "broken", "the unit's process ended (status %s)"
                              % procs[n].exitcode, {}, {})
        if time.time() - t0 > 840:
            for n in names:
                if n not in res:
                    procs[n].kill()
                    res[n] = (n, "broken", "time limit", {}, {})
    for p in procs.values():
        p.join()
    finds, obl, stats, funcs, loops, notes = [], {}, {}, set(), {}, []
    for n in names:
        _, status, fs, ob, inf = res[n]
        if status != "ok":
            broken.append("%s: %s" % (n, fs))
            finds += ob or []
            continue
        finds += fs
        for (p, rule), k in ob.items():
            if p == pid:
                obl["%s: %s" % (n, rule)] = obl.get("%s: %s" % (n, rule), 0) + k
        for k, v in inf["stats"].items():
            stats[k] = stats.get(k, 0) + v
        funcs |= set(inf["funcs"])
        notes += inf["notes"]
        for k, v in inf["loops"].items():
            loops["%s %s" % (n, k)] = v
    mine = [f for f in finds if pid in f["props"]]
    kn = [k for k in known(os.path.join(HERE, "known_findings.txt")) if k[0] == pid]
    viol, kf = [], []
    for f in mine:
        for k in kn:
            if k[1:] == (f["unit"], f["fn"], f["kind"], f["msg"]):
                kf.append((k, f))
                break
        else:
            viol.append(f)
    ev = a.evidence
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, "replay-%s.txt" % pid)
    if os.path.exists(rep):
        os.remove(rep)
    level, note = units.LEVEL[pid]
    n_ob = sum(obl.values())
    if pid == "C15":
        n_ob += stats.get("accesses", 0)
    if pid == "C23":
        # every loop met was run through to its end or has a falling measure
        obl["loops that end"] = len(loops)
        n_ob += len(loops)
    cov = dict(
        obligations=n_ob + len(mine), discharged=n_ob,
        checker_cmd="python3 /verif/check.py %s --tier %s" % (pid, a.tier),
        trusted_base=units.TRUSTED,
        explanation=note, rules=dict(sorted(obl.items())),
        functions_analysed=sorted(funcs), units=names,
        abstract_states=stats, loops=loops, notes=sorted(set(notes)))
    doc = dict(property=pid, tier="thorough" if a.tier == "thorough" else "quick",
               seed=int(os.environ.get("VERIF_SEED") or 1), level=level, coverage=cov,
               assumptions=units.ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
               violations=len(viol))
    if broken:
        doc["coverage"]["incomplete"] = broken
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    for k, f in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, f["loc"], f["msg"]))
    if viol:
        with open(rep, "w") as f:
            for v in viol:
                f.write("%s in %s [%s, unit %s]\n  %s\n  states: %s\n  path: %s\n\n" % (
                    v["loc"], v["fn"], v["kind"], v["unit"], v["msg"], v["facts"],
                    " ".join(v["trail"][-40:])))
        for v in viol[:20]:
            print("  %s %s: %s" % (v["loc"], v["fn"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if broken:
        for b in broken:
            print("NO ANSWER", b)
        return 2
    if not n_ob:
        print("NO ANSWER no obligation of %s was met" % pid)
        return 2
    print("%s holds: %d obligations discharged over %s (%.1f s)" % (
        pid, n_ob, ", ".join(names), time.time() - t0))
    return 0


if __name__ == "__main__":
    gc.disable()
    sys.exit(main())
