"""Shared parts of the harnesses (entry conditions, contracts, obligations)."""
import re
import subprocess
import os
from .ir import Broken, PTR, tool
from .dom import (Lin, FV, Ptr, NULL, UNDEF, INF, add, sub, scale, neg)
from .engine import Engine, State, Finding

I8, I32, I64 = ("i", 8), ("i", 32), ("i", 64)
MAXSRC = (1 << 28) - 1

KIND_PROPS = {
    "oob": ["C15"], "null": ["C15"], "undef": ["C15", "C19"], "uaf": ["C15", "C16"],
    "mem": ["C15", "C16"], "stale": ["C15", "C19"], "leak": ["C16"],
    "overflow": ["C15"], "div0": ["C15"], "abort": ["C12"], "effect": ["C20"],
    "ambient": ["C19"], "control": ["C12"], "nonterm": ["C23"]}


def macros(repo):
    """integer macros of the error header (names are part of the tested API)"""
    out = {}
    src = os.path.join(repo, "src")
    for h in sorted(os.listdir(src)):
        if not h.endswith(".h"):
            continue
        r = subprocess.run([tool("clang"), "-E", "-dM", "-x", "c", "-I", src,
                            os.path.join(src, h)], capture_output=True, text=True)
        if r.returncode:
            raise Broken("cannot preprocess " + h)
        for m in re.finditer(r"^#define (\w+)\s+\(?(-?\d+|0x[0-9a-fA-F]+|0b[01]+)\)?\s*$",
                             r.stdout, re.M):
            out[m.group(1)] = int(m.group(2), 0)
    return out


class Ctx:
    """one analysis session: the module, spec names, obligations"""

    def __init__(self, repo, mod):
        self.repo, self.m = repo, mod
        self.mac = macros(repo)
        self.mn = mod.enum("Mnemonic")
        self.tt = mod.enum("TokenType")
        self.obl = {}          # (property, rule) -> count of discharged
        self.findings = []
        self.stats = {}
        self.funcs, self.loops = set(), {}
        self.notes = []
        self.cache = {}
        self.partial = {}      # every finding so far, for runs that do not end
        self.deadline = None

    def err(self, name):
        k = "ERROR_" + name
        if k not in self.mac:
            raise Broken("error code %s is gone" % k)
        return self.mac[k]

    def ob(self, props, rule, n=1):
        for p in props if isinstance(props, (list, tuple)) else [props]:
            self.obl[(p, rule)] = self.obl.get((p, rule), 0) + n

    def absorb(self, eng, unit):
        for f in eng.findings.values():
            f.unit = unit
            self.findings.append(f)
        for k, v in eng.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.stats["sites"] = self.stats.get("sites", 0) + len(eng.access_sites)
        self.stats["units"] = self.stats.get("units", 0) + 1
        self.funcs |= eng.funcs_seen
        for k, v in eng.loops.info.items():
            o = self.loops.get(k)
            if o is None:
                self.loops[k] = dict(v)
            else:
                o["unrolled"] = max(o["unrolled"], v["unrolled"])
                o["summarised"] += v["summarised"]
                o["ranked"] += v["ranked"]
                if "measure" in v:
                    o["measure"] = v["measure"]


class Harness:
    unit = "?"
    joins = False        # do paths meet again at every join?
    bytemerge = False    # do states that differ in single characters meet?
    textcopy = True      # are characters copied one by one recognised as a copy?
    whole = False        # is the program followed from its start?

    def __init__(self, ctx):
        self.c = ctx
        self.m = ctx.m
        self.domnames = {}
        nt = max(ctx.tt.values()) + 1
        nm = max(ctx.mn.values()) + 1
        tn = {v: k for k, v in ctx.tt.items()}
        mn = {v: k for k, v in ctx.mn.items()}
        self.domnames[nt] = [tn.get(i, "?")[6:] for i in range(nt)]
        self.domnames[nm] = [mn.get(i, "?") for i in range(nm)]
        self.nt, self.nm = nt, nm
        self.calls_getline = {}

    def props_of(self, kind, st):
        p = list(KIND_PROPS.get(kind, ["C15"]))
        if st is not None and st.g.get("oom") and kind in ("null", "leak", "uaf", "mem", "undef", "oob"):
            p.append("C17")
        return p

    def overflow_ok(self, eng, st, e, ins):
        return False

    def on_char(self, eng, st, o, off, v):
        """the program reads a character of a text"""
        return [(st, v)]

    def ext_global(self, eng, st, name):
        return None

    def engine(self):
        return Engine(self.m, self)

    # ---- helpers
    def sfind(self, eng, st, props, msg, loc=None, fn=None):
        """a broken obligation"""
        eng.find(st, "spec", loc or self.lastloc(st), msg,
                 props=props if isinstance(props, list) else [props], fn=fn or self.unit)

    def lastloc(self, st):
        for t in reversed(st.trail):
            if "(" not in t and t.split():
                return t.split()[0]
        return self.unit

    def off(self, struct, field):
        f = self.m.struct_fields(struct)
        if field not in f:
            raise Broken("struct %s has no member %s" % (struct, field))
        return f[field][0]

    def ssize(self, struct):
        return self.m.struct_fields(struct)["__size__"][1]

    def put(self, st, oid, struct, field, v):
        o, s = self.m.struct_fields(struct)[field]
        st.w(oid).cells[o] = (s, v)

    def get(self, st, oid, struct, field):
        o, s = self.m.struct_fields(struct)[field]
        c = st.objs[oid].cells.get(o)
        if c is None:
            return UNDEF
        return c[1]

    def eq(self, eng, st, a, b):
        """certainly equal integers?"""
        if a is UNDEF or b is UNDEF:
            return False
        if isinstance(a, FV) and isinstance(b, FV) and a.a == b.a:
            m = eng.mask(st, a.a)
            return all(x == y for i, (x, y) in enumerate(zip(a.t, b.t)) if m >> i & 1)
        if not isinstance(a, (int, Lin, FV)) or not isinstance(b, (int, Lin, FV)):
            return False
        a, b = eng.tolin(st, eng.nrm(st, a)), eng.tolin(st, eng.nrm(st, b))
        return eng.decide_eq(st, sub(a, b)) is True

    def names(self, eng, st, fv):
        if isinstance(fv, int):
            return [self.domnames[self.nm][fv]]
        m = eng.mask(st, fv.a)
        return sorted({self.domnames[self.nm][fv.t[i]] for i in range(len(fv.t)) if m >> i & 1})

    # ---- invariant candidates around the one character known of a text
    def pin_hints(self, eng, st):
        out = []
        for sid, q in st.g.get("pins", ()):
            objs = {o.id for o in st.objs.values() if o.sv == sid}
            vals = [c[1] for o in st.objs.values() if not o.freed and o.kind == "stack"
                    for c in o.cells.values()]
            vals += list(st.fr.regs.values()) if st.frames else []
            for v in vals:
                x = v.off if isinstance(v, Ptr) and v.o in objs else v
                if isinstance(x, Lin):
                    for k in (0, 1):
                        for r in (sub(sub(x, q), k), sub(sub(q, x), k)):
                            if r not in out:
                                out.append(r)
        return out

    # ---- call graph queries
    def reaches(self, fname, target, seen=None):
        k = (fname, target)
        if k in self.calls_getline:
            return self.calls_getline[k]
        self.calls_getline[k] = False
        r = False
        f = self.m.funcs.get(fname)
        if f is not None:
            for b in f.blocks:
                for i in b.ins:
                    if i.op == "call" and i.a[0][0] == "g":
                        n = i.a[0][1][1:].strip('"')
                        if n in target or self.reaches(n, target):
                            r = True
        self.calls_getline[k] = r
        return r
