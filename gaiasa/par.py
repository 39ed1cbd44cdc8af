"""Running one loop body in several processes.

The body's paths are divided at one place (a contract that returns many
abstract results): process i keeps the results i, i+n, i+2n, ... and returns
its abstract states, findings and counters.  Nothing else differs from a
serial run."""
import gc
import io
import os
import pickle
import struct
from .dom import Lin
from .ir import Broken, Func, Block, Instr
from .engine import Outs

TASKS = 16
STEP = 1 << 22
MAP = {}


def mk_lin(c, t):
    if MAP:
        d = {}
        for a, k in t:
            a = MAP.get(a, a)
            d[a] = d.get(a, 0) + k
        t = tuple(sorted((a, k) for a, k in d.items() if k))
    return Lin(c, t)


Lin.__reduce__ = lambda self: (mk_lin, (self.c, self.t))


class Reg:
    """objects shared by all processes"""

    def __init__(self, eng):
        self.by = {}
        self.key = {}

        def reg(o, *k):
            self.key[id(o)] = k
            self.by[k] = o
        for f in eng.m.funcs.values():
            reg(f, "F", f.name)
            for b in f.blocks:
                reg(b, "B", f.name, b.name)
                for i in b.ins:
                    reg(i, "I", i.id)
        reg(eng, "eng")
        reg(eng.m, "mod")
        reg(eng.h, "h")
        reg(eng.h.c, "ctx")


def registry(eng):
    r = getattr(eng, "parreg", None)
    if r is None:
        r = eng.parreg = Reg(eng)
        for n in eng.m.globals:
            if n not in eng.gobj:
                eng.noid += 1
                eng.gobj[n] = eng.noid
    return r


SHARED = (Func, Block, Instr)


def dumps(reg, x):
    f = io.BytesIO()
    p = pickle.Pickler(f, 4)
    key = reg.key

    def pid(o):
        return key.get(id(o)) if not isinstance(o, (int, str, tuple)) else None
    p.persistent_id = pid
    p.dump(x)
    return f.getvalue()


def loads(reg, b):
    u = pickle.Unpickler(io.BytesIO(b))
    u.persistent_load = lambda k: reg.by[k]
    return u.load()


SETS = ("funcs_seen", "callsites", "access_sites", "branch_sites", "gen_cache")


def run(eng, body):
    """body() -> Outs, divided over processes"""
    reg = registry(eng)
    h = eng.h
    base = dict(na=eng.na, nf=eng.nf, noid=eng.noid)
    stats0 = dict(eng.stats)
    obl0 = dict(h.c.obl)
    info0 = {k: dict(v) for k, v in eng.loops.info.items()}
    ncpu = max(1, min(8, os.cpu_count() or 1))
    todo = list(range(TASKS))
    live, done = {}, {}
    gc.collect()
    gc.freeze()
    while todo or live:
        while todo and len(live) < ncpu:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for _, (fd, _) in live.items():
                        os.close(fd)
                    b = child(eng, reg, i, base, stats0, obl0, info0, body)
                    with os.fdopen(w, "wb") as f:
                        f.write(b)
                    code = 0
                except BaseException as x:      # reported by the parent
                    try:
                        if not isinstance(x, Broken):
                            import traceback
                            traceback.print_exc()
                        with os.fdopen(w, "wb") as f:
                            f.write(b"E" + dumps(reg, (str(x), list(h.c.partial.values()))))
                    except Exception:
                        pass
                os._exit(code)
            os.close(w)
            live[pid] = (r, i)
        import select
        ready, _, _ = select.select([fd for fd, _ in live.values()], [], [])
        for pid, (fd, i) in list(live.items()):
            if fd in ready:
                d = os.read(fd, 1 << 20)
                if d:
                    done.setdefault(i, []).append(d)
                    continue
                os.close(fd)
                _, stw = os.waitpid(pid, 0)
                del live[pid]
                b = b"".join(done.get(i, []))
                if stw or not b or b[:1] == b"E":
                    for p2, (fd2, _) in live.items():
                        os.close(fd2)
                        try:
                            os.kill(p2, 9)
                        except OSError:
                            pass
                        os.waitpid(p2, 0)
                    why, part = loads(reg, b[1:]) if b[:1] == b"E" else ("", [])
                    for f in part:
                        h.c.partial[f.key()] = f
                    raise Broken(why or "an analysis process died")
                done[i] = b
    eng.na = base["na"] + (TASKS + 1) * STEP
    eng.nf = base["nf"] + (TASKS + 1) * STEP
    eng.noid = base["noid"] + (TASKS + 1) * STEP
    outs = Outs()
    for i in range(TASKS):
        gather(eng, reg, done[i], outs)
    return outs


def child(eng, reg, i, base, stats0, obl0, info0, body):
    h = eng.h
    gc.disable()
    off = (i + 1) * STEP
    eng.na += off
    eng.nf += off
    eng.noid += off
    na, nf = eng.na, eng.nf
    nd = len(eng.dkey)
    eng.slice = (i, TASKS)
    term0 = len(eng.terminals)
    find0 = set(eng.findings)
    outs = body()
    if i:
        outs.back = [s for s in outs.back if s.g.get("sliced")]
        outs.exit = [s for s in outs.exit if s.g.get("sliced")]
        outs.ret = [(s, v) for s, v in outs.ret if s.g.get("sliced")]
    term = [t for t in eng.terminals[term0:] if not i or t[2].g.get("sliced")]
    for s in outs.back + outs.exit + [s for s, _ in outs.ret] + [t[2] for t in term]:
        for o in s.objs.values():
            o.ck = None
    der = list(eng.dkey.items())[nd:]
    info = {k: v for k, v in eng.loops.info.items() if info0.get(k) != v}
    head = {
        "na": [(a, eng.aname[a], eng.adom[a]) for a in range(na + 1, eng.na + 1)],
        "nf": [(a, eng.fvn[a], eng.fvname[a]) for a in range(nf + 1, eng.nf + 1)],
        "stats": {k: v - stats0.get(k, 0) for k, v in eng.stats.items()},
        "obl": {k: v - obl0.get(k, 0) for k, v in h.c.obl.items() if v != obl0.get(k, 0)},
        "info": [(k, {x: (y - info0.get(k, {}).get(x, 0) if x in ("summarised", "ranked") else y)
                      for x, y in v.items()}) for k, v in info.items()],
        "sets": {k: getattr(eng, k) for k in SETS},
        "find": [f for k, f in eng.findings.items()],
        "h": h.par_state() if hasattr(h, "par_state") else None,
    }
    if eng.na >= base["na"] + off + STEP or eng.noid >= base["noid"] + off + STEP:
        raise Broken("too many symbols in one analysis process")
    parts = [dumps(reg, head)]
    parts += [dumps(reg, d) for d in der]
    parts.append(dumps(reg, (outs.back, outs.exit, outs.ret, term)))
    out = [struct.pack("<I", len(parts))]
    for p in parts:
        out.append(struct.pack("<Q", len(p)))
        out.append(p)
    return b"P" + b"".join(out)


def gather(eng, reg, b, outs):
    h = eng.h
    n = struct.unpack_from("<I", b, 1)[0]
    p = 5
    parts = []
    for _ in range(n):
        l = struct.unpack_from("<Q", b, p)[0]
        parts.append(b[p + 8:p + 8 + l])
        p += 8 + l
    MAP.clear()
    head = loads(reg, parts[0])
    for a, nm, d in head["na"]:
        eng.aname[a], eng.adom[a] = nm, d
    for a, k, nm in head["nf"]:
        eng.fvn[a], eng.fvname[a] = k, nm
    try:
        for x in parts[1:-1]:
            key, a = loads(reg, x)
            old = eng.dkey.get(key)
            if old is None:
                eng.dkey[key] = a
                eng.derived[a] = key
            else:
                MAP[a] = old
        back, exit_, ret, term = loads(reg, parts[-1])
    finally:
        mp = dict(MAP)
        MAP.clear()
    if mp:
        seen = set()
        for s in back + exit_ + [s for s, _ in ret] + [t[2] for t in term]:
            if id(s) in seen:
                continue
            seen.add(id(s))
            if any(a in mp for a in s.iv):
                iv = {}
                for a, (lo, hi) in s.iv.items():
                    a = mp.get(a, a)
                    if a in iv:
                        lo, hi = max(lo, iv[a][0]), min(hi, iv[a][1])
                    iv[a] = (lo, hi)
                s.iv = iv
    for s in back + exit_ + [s for s, _ in ret] + [t[2] for t in term]:
        s.g.pop("sliced", None)
        s.owned, s.sowned = set(), set()
    outs.back += back
    outs.exit += exit_
    outs.ret += ret
    eng.terminals += term
    for k, v in head["stats"].items():
        eng.stats[k] = eng.stats.get(k, 0) + v
    for k, v in head["obl"].items():
        h.c.obl[k] = h.c.obl.get(k, 0) + v
    for k, v in head["info"]:
        o = eng.loops.info.get(k)
        if o is None:
            eng.loops.info[k] = v
        else:
            o["unrolled"] = max(o["unrolled"], v["unrolled"])
            o["summarised"] += v["summarised"]
            o["ranked"] += v["ranked"]
            if "measure" in v:
                o["measure"] = v["measure"]
    for k, v in head["sets"].items():
        getattr(eng, k).update(v)
    for f in head["find"]:
        k = f.key()
        if k in eng.findings:
            o = eng.findings[k]
            o.props = sorted(set(o.props) | set(f.props))
        else:
            eng.findings[k] = f
    if head["h"] is not None:
        h.par_merge(head["h"])


def slices(eng, results):
    """this process's share of the results of a contract"""
    sl = getattr(eng, "slice", None)
    if sl is None:
        return results
    out = [r for j, r in enumerate(results) if j % sl[1] == sl[0]]
    for r in out:
        r[0].g["sliced"] = True
    return out
