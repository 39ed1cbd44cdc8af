"""Loops: unrolled when a constant bounds them, otherwise summarised by
inductive head states (templates with parameters, interval and linear
constraints), checked to be closed under one iteration.  Every summarised loop
also needs a ranking measure (termination)."""
from math import gcd
from .dom import (Lin, FV, Ptr, PtrInt, Fn, Flt, NULL, UNDEF, INF, L, simp, add,
                  sub, scale, neg, atoms_of, subst)
from .ir import Broken

UNROLL = 300
SMALL = 10
BYTES_S = tuple(range(-128, 128))
BYTES_U = tuple(range(256))


def isnum(v):
    return isinstance(v, (int, Lin, FV))


def exdiv(x, d):
    """x / d if that is a whole number"""
    if isinstance(x, int):
        return x // d if x % d == 0 else None
    if isinstance(x, Lin) and x.c % d == 0 and all(k % d == 0 for _, k in x.t):
        return Lin(x.c // d, tuple((a, k // d) for a, k in x.t))
    return None


class Head:
    def __init__(self):
        self.tmpl = None
        self.base = {}        # slot -> first value
        self.dropped = set()  # rows that held and no longer do
        self.lead = {}        # slot -> atom of its parameter
        self.link = {}        # slot -> (leader slot, num, den)
        self.fvp = {}         # slot -> fv atom
        self.fvtab = {}
        self.growth = {}
        self.cons = []        # invariant rows over params and outer atoms
        self.black = set()
        self.kin = {}         # coefficients -> number of rows kept
        self.seen = []        # arrivals: (state, slots, from-head)
        self.outs = None
        self.find = {}
        self.term = []
        self.dirty = True
        self.runs = 0
        self.segc = []        # string segment facts
        self.segblack = set()
        self.nostride = set()
        self.restored = {}
        self.newobjs = []


class Loops:
    def __init__(self, eng):
        self.e = eng
        self.live = {}
        self.tmpls = {}
        self.info = {}
        self.depth = 0

    # ------------------------------------------------------------ liveness
    def scalars(self, fn):
        """allocas that are only loaded and stored directly"""
        k = ("scal", fn.name)
        if k in self.live:
            return self.live[k]
        al = {i.dst for b in fn.blocks for i in b.ins if i.op == "alloca"}
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "load" or i.op == "alloca":
                    continue
                if i.op == "store":
                    esc = i.a[0]
                    if esc[0] == "r":
                        al.discard(esc[1])
                    continue
                if i.op == "call" and i.a[0][0] == "g" and i.a[0][1].startswith("@llvm.dbg"):
                    continue

                def walk(v):
                    if isinstance(v, tuple):
                        if len(v) == 2 and v[0] == "r":
                            al.discard(v[1])
                            return
                        for x in v:
                            walk(x)
                    elif isinstance(v, list):
                        for x in v:
                            walk(x)
                walk(i.a)
        self.live[k] = al
        return al

    def livein(self, fn):
        """block -> set of scalar allocas live at its start"""
        k = ("live", fn.name)
        if k in self.live:
            return self.live[k]
        al = self.scalars(fn)
        gen, kill = {}, {}
        for b in fn.blocks:
            g, kl = set(), set()
            for i in b.ins:
                if i.op == "load" and i.a[0][0] == "r" and i.a[0][1] in al:
                    if i.a[0][1] not in kl:
                        g.add(i.a[0][1])
                elif i.op == "store" and i.a[1][0] == "r" and i.a[1][1] in al:
                    kl.add(i.a[1][1])
            gen[b.name], kill[b.name] = g, kl
        live = {b.name: set() for b in fn.blocks}
        succ = {b.name: self.succ(b) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set()
                for s in succ[b.name]:
                    out |= live[s]
                n = gen[b.name] | (out - kill[b.name])
                if n != live[b.name]:
                    live[b.name] = n
                    ch = True
        self.live[k] = live
        return live

    @staticmethod
    def succ(b):
        t = b.ins[-1]
        if t.op in ("br", "jmp"):
            return list(t.x)
        if t.op == "switch":
            return [t.x[0]] + [l for _, l in t.x[1]]
        return []

    def trim(self, st, fn, header, keep):
        """forget what is dead at the loop head"""
        fr = st.fr
        phis = {i.dst for i in fn.bmap[header].ins if i.op == "phi"}
        if keep is not None:
            fr.regs = {r: v for r, v in fr.regs.items() if r in keep or r in phis}
        al = self.scalars(fn)
        lv = self.livein(fn)[header]
        for r in al - lv:
            p = fr.regs.get(r)
            if isinstance(p, Ptr) and p.o in st.objs:
                o = st.objs[p.o]
                if o.cells:
                    o = st.w(p.o)
                    o.cells = {}
                    o.sv = None
        fr.prev = None

    # ------------------------------------------------------------ driver
    def note(self, fn, header, **kw):
        d = self.info.setdefault((fn.name, header), {"fn": fn.name, "header": header,
                                                     "unrolled": 0, "summarised": 0,
                                                     "ranked": 0, "loc": self.loc(fn, header)})
        for k, v in kw.items():
            d[k] = max(d[k], v) if k == "unrolled" else d[k] + v

    def loc(self, fn, header):
        for i in fn.bmap[header].ins:
            if i.dbg:
                return self.e.m.loc(i.dbg)
        for n in fn.loops[header]:
            for i in fn.bmap[n].ins:
                if i.dbg:
                    return self.e.m.loc(i.dbg)
        return "?"

    def handle(self, st, header):
        from .engine import Region, Outs
        e = self.e
        fn = st.fr.fn
        key = (fn.name, header)
        body = fn.loops[header]
        depth = len(st.frames)
        pol = None
        if e.h is not None and hasattr(e.h, "loop_policy"):
            pol = e.h.loop_policy(e, st, fn, header)
        if pol == "gen":
            return self.general(st, fn, header)
        entry = st.copy()
        saved_f, saved_t = e.findings, e.terminals
        e.findings, e.terminals = {}, []
        total = Outs()
        cur = [st]
        n = 0
        last = {}
        ok = False
        while True:
            reg = Region(depth, header, body)
            o = e.run(cur, reg)
            total.exit += o.exit
            total.ret += o.ret
            if not o.back:
                ok = pol != "det" or n > 0
                break
            n += 1
            counted = False
            for ins, ops in reg.log:
                if ops is not None and all(isinstance(x, int) for x in ops):
                    if ops not in last.setdefault(ins.id, set()):
                        counted = True
                    last[ins.id].add(ops)
            lim = UNROLL if counted or pol == "unroll" else SMALL
            if key in e.gen_cache and not counted and pol != "unroll":
                lim = 1
            if pol == "det" and (total.exit or total.ret or len(o.back) > 1):
                break               # not decided by constants alone
            if n >= lim or len(o.back) > (80 if pol != "unroll" else 3000):
                break
            keep = set(entry.fr.regs)
            for s in o.back:
                self.trim(s, fn, header, keep)
            back = o.back
            if e.h is not None and hasattr(e.h, "on_back") and pol != "det":
                back = [x for s in back for x in e.h.on_back(e, s, fn, header)]
            cur = self.thin(back)
        if ok:
            new_f, new_t = e.findings, e.terminals
            e.findings, e.terminals = saved_f, saved_t
            self.join_findings(new_f)
            e.terminals += new_t
            e.stats["loops_unrolled"] += 1
            self.note(fn, header, unrolled=n)
            return total
        e.findings, e.terminals = saved_f, saved_t
        if pol == "unroll":
            raise Broken("the loop at %s does not end within %d rounds (%d situations)" % (
                self.loc(fn, header), n, len(o.back)))
        e.gen_cache.add(key)
        return self.general(entry, fn, header)

    def thin(self, states):
        """merge equal states"""
        if len(states) < 2:
            return states
        return [s for s, _ in self.e.merge([(s, None) for s in states])]

    def join_findings(self, new):
        e = self.e
        for k, f in new.items():
            if k in e.findings:
                e.findings[k].props = sorted(set(e.findings[k].props) | set(f.props))
            else:
                e.findings[k] = f

    # ------------------------------------------------------------ slots
    def order_new(self, st, outer):
        return [o for o in self.e.reach(st) if o not in outer and o in st.objs]

    def slots(self, st, flags):
        """{slot: value} of everything that may change"""
        out = {}
        fr = st.fr
        for r, v in fr.regs.items():
            out[("r", r)] = v
        for oid, o in st.objs.items():
            if o.kind in ("ctype",) or o.tag == "const":
                continue
            if o.freed:
                continue
            for off, (sz, v) in o.cells.items():
                out[("c", oid, off, sz)] = v
            out[("z", oid)] = o.size
            if o.segs is not None:
                for i, (end, kind) in enumerate(o.segs):
                    out[("e", oid, i)] = end
                    if not callable(kind):
                        out[("k", oid, i)] = kind
            if o.sv is not None:
                out[("N", oid)] = st.svs[o.sv].N
        for k, v in st.g.items():
            if k in flags:
                continue
            out[("g", k)] = v
        return out

    def shape(self, st, sl, rank, flagslots, extra):
        """hashable shape of an arrival"""
        k = [extra]
        for oid, o in st.objs.items():
            if o.kind == "ctype" or o.kind == "global" and o.tag == "const":
                continue
            k.append(("o", rank(oid), o.kind, o.freed, o.sv is not None,
                      None if o.segs is None else tuple(
                          id(x) if callable(x) else 0 for _, x in o.segs), o.tag,
                      None if o.freed else (o.default if not callable(o.default) else 1)))
        for s, v in sl.items():
            s2 = self.rslot(s, rank)
            if s in flagslots and isinstance(v, int):
                k.append((s2, "flag", v))
            elif isnum(v) and not isinstance(v, bool):
                k.append((s2, "n"))
            elif isinstance(v, Ptr):
                k.append((s2, "P", rank(v.o)))
            elif isinstance(v, PtrInt):
                k.append((s2, "PI", rank(v.p.o)))
            elif v is NULL:
                k.append((s2, "0"))
            elif v is UNDEF:
                k.append((s2, "U"))
            elif isinstance(v, Flt):
                k.append((s2, "F"))
            else:
                k.append((s2, v))
        return frozenset(k)

    @staticmethod
    def rslot(s, rank):
        if s[0] in ("c", "z", "e", "k", "N"):
            return (s[0], rank(s[1])) + s[2:]
        return s

    def flagslots(self, st, fn, header):
        """slots whose only values inside the loop are small constants
        assigned directly (flags): kept apart by value"""
        k = ("flag", fn.name, header)
        if k not in self.live:
            al = self.scalars(fn)
            cand = {}
            body = fn.loops[header]
            for b in fn.blocks:
                for i in b.ins:
                    if i.op == "store" and i.a[1][0] == "r" and i.a[1][1] in al:
                        r = i.a[1][1]
                        c = i.a[0]
                        if c[0] == "c" and i.ty[0] == "i" and -2 <= c[1] <= 2:
                            cand.setdefault(r, set()).add((c[1], b.name in body))
                        else:
                            cand[r] = None
                            cand.setdefault(r)
                            al = al - {r}
            res = set()
            for r in al:
                v = cand.get(r)
                if v and any(inb for _, inb in v):
                    res.add(r)
            self.live[k] = res
        out = set()
        for r in self.live[k]:
            p = st.fr.regs.get(r)
            if isinstance(p, Ptr):
                o = st.objs.get(p.o)
                if o is not None:
                    for off, (sz, v) in o.cells.items():
                        out.add(("c", p.o, off, sz))
        return out

    # ------------------------------------------------------------ renaming
    def rename(self, st, m):
        """apply an object id map to the whole state"""
        def rv(v):
            if isinstance(v, Ptr) and v.o in m:
                return Ptr(m[v.o], v.off)
            if isinstance(v, PtrInt) and v.p.o in m:
                return PtrInt(Ptr(m[v.p.o], v.p.off))
            return v
        for f in st.frames:
            f.regs = {r: rv(v) for r, v in f.regs.items()}
            f.allocas = [m.get(a, a) for a in f.allocas]
        objs = {}
        for oid, o in st.objs.items():
            o2 = o.clone()
            o2.id = m.get(oid, oid)
            o2.cells = {k: (z, rv(v)) for k, (z, v) in o.cells.items()}
            if o.segs is not None:
                o2.segs = [(x, v if callable(v) else rv(v)) for x, v in o.segs]
            objs[o2.id] = o2
        st.objs = objs
        st.owned = set(objs)
        st.g = {k: rv(v) for k, v in st.g.items()}

    # ------------------------------------------------------------ general
    def general(self, st, fn, header):
        from .engine import Region, Outs
        e = self.e
        h = e.h
        self.depth += 1
        e.stats["loops_generalised"] += 1
        body = fn.loops[header]
        depth = len(st.frames)
        keep = set(st.fr.regs)
        entry_ev, entry_trail = st.ev, st.trail
        self.trim(st, fn, header, keep)
        outer = set(st.objs)
        outer_sv = set(st.svs)
        heads = {}
        order = []
        arrivals = [(st, None)]
        rounds = made = 0
        thr = self.thresholds(fn, body)

        def rank_of(s):
            new = self.order_new(s, outer)
            rk = {o: ("new", i) for i, o in enumerate(new)}
            return lambda o: rk.get(o, o), new

        while True:
            rounds += 1
            e.stats["rounds"] += 1
            made = max(made, len(order))
            if rounds > 40 + 12 * made:
                raise Broken("no invariant found for the loop at %s in %s" % (
                    self.loc(fn, header), fn.name))
            for a, src in arrivals:
                for a in self.arrive(a, fn, header, keep, True) if src is None else [a]:
                    if src is None:
                        entry_ev = a.ev
                    else:
                        if a.ev != entry_ev:
                            raise Broken("effects inside the loop at %s in %s are not modelled: %r" % (
                                self.loc(fn, header), fn.name, a.ev[len(entry_ev):][:2]))
                        a.trail = entry_trail + ("(loop at %s)" % self.loc(fn, header),)
                    rk, new = rank_of(a)
                    sl = self.slots(a, ())
                    flags = self.flagslots(a, fn, header)
                    extra = None
                    if h is not None and hasattr(h, "head_key"):
                        extra = h.head_key(e, a, fn, header)
                    key = self.shape(a, sl, rk, flags, extra)
                    hd = heads.get(key)
                    if hd is None:
                        if len(heads) > getattr(h, "max_shapes", 60):
                            raise Broken("too many loop shapes at %s in %s" % (
                                self.loc(fn, header), fn.name))
                        hd = Head()
                        hd.key = key
                        hd.tmpl = a.copy()
                        hd.base = dict(sl)
                        hd.newobjs = new
                        hd.first = a
                        heads[key] = hd
                        order.append(hd)
                        hd.seen.append((a, sl, src))
                        self.trace("new head %d at %s" % (len(order), self.loc(fn, header)))
                    else:
                        m = {o: n for o, n in zip(new, hd.newobjs) if o != n}
                        if m:
                            self.rename(a, m)
                            sl = self.slots(a, ())
                        hd.seen.append((a, sl, src))
                        self.absorb(hd, a, sl, src, thr)
            # heads that only outdated runs arrived at do not count any more
            live = [hd for hd in order if any(x[2] is None for x in hd.seen)]
            for hd in live:
                live += [h2 for h2 in order if h2 not in live and any(x[2] is hd for x in h2.seen)]
            if len(live) < len(order):
                for hd in [x for x in order if x not in live]:
                    order.remove(hd)
                    del heads[hd.key]
                    self.trace("head not reached any more")
                for hd in order:
                    hd.seen = [x for x in hd.seen if x[2] is None or x[2] in live]
            dirty = [hd for hd in order if hd.dirty]
            if not dirty:
                # candidates for stronger invariants
                if rounds > 25 + 8 * made or not (
                        self.strengthen(order, outer) or self.lemmas(order, fn, header)
                        or self.restore(order) or self.jointly(order)):
                    break
                dirty = [hd for hd in order if hd.dirty]
            arrivals = []
            for hd in dirty[:1] if len(order) > 1 else dirty:
                for h2 in order:
                    h2.seen = [x for x in h2.seen if x[2] is not hd]
                self.run_head(hd, depth, header, body, keep)
                arrivals += [(s, hd) for s in hd.outs.back]
        total = Outs()
        for hd in order:
            total.exit += hd.outs.exit
            total.ret += hd.outs.ret
            self.join_findings(hd.find)
            e.terminals += hd.term
        self.rankloop(order, fn, header)
        self.depth -= 1
        if h is not None and hasattr(h, "loop_done"):
            h.loop_done(e, fn, header, order, total)
        return total

    TRACE = False

    def trace(self, s):
        if self.TRACE:
            print("  " * self.depth + s, flush=True)

    def thresholds(self, fn, body):
        t = {0, 1, -1}
        for n in body:
            for i in fn.bmap[n].ins:
                if i.op == "icmp":
                    for v in i.a:
                        if v[0] == "c" and abs(v[1]) < 1 << 17:
                            t |= {v[1] - 1, v[1], v[1] + 1}
        return sorted(t)

    def arrive(self, a, fn, header, keep, entry):
        """states as they appear at the loop head"""
        e, h = self.e, self.e.h
        res = None
        if h is not None and hasattr(h, "at_head"):
            res = h.at_head(e, a, fn, header, entry)
        out = []
        for a in [a] if res is None else res:
            if a.dead:
                continue
            if not entry:
                self.trim(a, fn, header, keep)
                e.collect(a)
            out.append(a)
        return out

    def run_head(self, hd, depth, header, body, keep):
        from .engine import Region
        e = self.e
        sf, stt = e.findings, e.terminals
        e.findings, e.terminals = {}, []
        st = hd.tmpl.copy()
        if hasattr(e.h, "ghost"):
            e.h.ghost(e, st)
        hd.dirty = False
        hd.runs += 1
        self.trace("run head (run %d) %s" % (hd.runs, [
            (s, e.show(v)) for s, v in list(self.slots(st, ()).items()) if s in hd.lead or s in hd.link]))
        if hd.cons:
            self.trace("   with " + "; ".join(e.show(c) for c in hd.cons))
        fn = st.fr.fn
        if not hasattr(hd, "no"):
            hd.no = len(self.tmpls)
        self.tmpls[hd.no] = hd.tmpl
        if hasattr(e.h, "on_run_head"):
            e.h.on_run_head(e, hd, fn, header, self)

        def once():
            o = e.run([st], Region(depth, header, body))
            o.exit = [x for x in o.exit if e.deduce(x)]
            o.back = self.thin([x for a in o.back for x in self.arrive(a, fn, header, keep, False)])
            if hasattr(e.h, "loop_exit"):
                for x in o.exit:
                    e.h.loop_exit(e, x, fn, header, hd.no)
                o.exit = self.thin(o.exit)
            return o
        if e.slice is None and hasattr(e.h, "par_loop") and e.h.par_loop(e, fn, header):
            from . import par
            hd.outs = par.run(e, once)
            hd.outs.back = self.thin(hd.outs.back)
            hd.outs.exit = self.thin(hd.outs.exit)
        else:
            hd.outs = once()
        hd.find, hd.term = e.findings, e.terminals
        e.findings, e.terminals = sf, stt

    # ---- parameters
    def setslot(self, st, s, v):
        if s[0] == "r":
            old = st.fr.regs[s[1]]
            st.fr.regs[s[1]] = self.reoff(old, v)
        elif s[0] == "c":
            o = st.w(s[1])
            sz, old = o.cells[s[2]]
            o.cells[s[2]] = (sz, self.reoff(old, v))
        elif s[0] == "v":
            return
        elif s[0] == "z":
            st.w(s[1]).size = v
        elif s[0] == "e":
            o = st.w(s[1])
            o.segs = list(o.segs)
            o.segs[s[2]] = (v, o.segs[s[2]][1])
        elif s[0] == "k":
            o = st.w(s[1])
            o.segs = list(o.segs)
            o.segs[s[2]] = (o.segs[s[2]][0], v)
        elif s[0] == "N":
            sv = st.wsv(st.objs[s[1]].sv)
            sv.N = v
        elif s[0] == "g":
            st.g[s[1]] = self.reoff(st.g[s[1]], v)

    @staticmethod
    def reoff(old, v):
        if isinstance(old, Ptr):
            return Ptr(old.o, v)
        if isinstance(old, PtrInt):
            return PtrInt(Ptr(old.p.o, v))
        return v

    @staticmethod
    def num(v):
        """numeric part of a slot value"""
        if isinstance(v, Ptr):
            return v.off
        if isinstance(v, PtrInt):
            return v.p.off
        return v

    def sval(self, sl, s):
        """value of a slot; ("v", slot, base, stride) is the slot counted in strides"""
        if s[0] == "v":
            y = self.num(sl[s[1]]) if s[1] in sl else None
            return exdiv(sub(y, s[2]), s[3]) if isinstance(y, (int, Lin)) else None
        return self.num(sl[s])

    def absorb(self, hd, a, sl, src, thr):
        """make the head cover arrival a"""
        e = self.e
        t = hd.tmpl
        ts = self.slots(t, ())
        changed = False
        # string identities
        for oid, o in list(t.objs.items()):
            if o.freed or o.sv is None:
                continue
            osv = a.objs[oid].sv
            if osv != o.sv:
                sva, svt = a.svs[osv], t.svs[o.sv]
                if getattr(hd, "varsv", None) is None:
                    hd.varsv = {}
                if oid not in hd.varsv:
                    nsv = e.new_sv(t, "text@%d" % oid, N=svt.N)
                    nsv.excl = svt.excl
                    t.w(oid).sv = nsv.id
                    hd.varsv[oid] = nsv.id
                    changed = True
                svt = t.wsv(t.objs[oid].sv)
                if svt.excl & ~sva.excl:
                    svt.excl &= sva.excl
                    changed = True
        # content facts
        for sid, sv in list(t.svs.items()):
            o = a.svs.get(sid)
            if o is None:
                if any(x.sv == sid for x in t.objs.values()):
                    continue       # variable text: no facts kept
                del t.svs[sid]
                continue
            bad = [k for k, v in sv.cells.items() if o.cells.get(k) != v]
            bads = [x for x in sv.sym if x not in o.sym]
            if bad or bads:
                w = t.wsv(sid)
                for k in bad:
                    del w.cells[k]
                for x in bads:
                    w.sym.remove(x)
                changed = True
            for sg in list(sv.segs):
                if not self.seg_holds(hd, a, sl, sid, sg):
                    w = t.wsv(sid)
                    w.segs.remove(sg)
                    hd.segblack.add((sid, sg))
                    changed = True
        diffs = {}
        for s, tv in ts.items():
            av = sl.get(s)
            if av is None and s not in sl:
                raise Broken("loop slot mismatch " + repr(s))
            x, y = self.num(tv), self.num(av)
            if s in hd.lead or s in hd.link or s in hd.fvp:
                continue
            if x == y or x is y:
                continue
            if isinstance(x, Flt) or isinstance(y, Flt):
                if isinstance(x, Flt) and x.k == ("top",):
                    continue
                self.setslot(t, s, Flt("top"))
                changed = True
                continue
            if not isnum(x) or not isnum(y) or isinstance(x, bool):
                raise Broken("loop head values %r and %r of %r do not unify in %s" % (
                    x, y, s, t.fr.fn.name))
            if isinstance(x, FV) or isinstance(y, FV):
                if not (isinstance(x, FV) and isinstance(y, FV) and x.a == y.a and x.t == y.t):
                    if not self.tracked(hd, a, s, y, t, sl) and self.fv_merge(hd, a, s, x, y, t):
                        changed = True
                        continue
                    x, y = e.tolin(t, x), e.tolin(a, y)
            if e.decide_eq(a, sub(x, y)) is True:
                continue
            diffs[s] = (x, y)
        # masks of finite parameters
        for s, atom in list(hd.fvp.items()):
            y = self.num(sl[s])
            vals = {y} if isinstance(y, int) else e.fvals(a, y.a, y.t) if isinstance(y, FV) else None
            tab = hd.fvtab[s]
            if vals is None or not vals <= set(tab):
                # not a byte after all: a number
                del hd.fvp[s]
                t.masks.pop(atom, None)
                y = e.tolin(a, y) if isinstance(y, FV) else y
                self.new_leader(hd, t, s, a, self.numbase(hd, s, t), y, thr)
                changed = True
                continue
            m = 0
            for v in vals:
                m |= 1 << tab.index(v)
            cur = e.mask(t, atom)
            if m & ~cur:
                t.masks[atom] = cur | m
                changed = True
        # new varying slots: leaders first, smallest step leads
        if diffs:
            changed = True
            delta = {s: sub(y, self.numbase(hd, s, t)) for s, (x, y) in diffs.items()}
            leaders = []

            def size(s):
                d = delta[s]
                return (0, abs(d), 0) if isinstance(d, int) else \
                    (1, len(d.t), max(abs(n) for _, n in d.t))
            for s in sorted(diffs, key=size):
                for l in leaders:
                    r = self.ratio(delta[s], delta[l])
                    if r is not None:
                        hd.link[s] = (l, r[0], r[1])
                        if l in hd.link:
                            hd.link[s] = (hd.link[l][0], r[0] * hd.link[l][1], 1)
                        break
                else:
                    leaders.append(s)
                    self.new_leader(hd, t, s, a, diffs[s][0], diffs[s][1], thr)
            for s in diffs:
                if s in hd.link:
                    self.setslot(t, s, self.linked(hd, s))
        # slots that do not keep their stride
        for s in [s for s in hd.lead if s[0] == "v" and self.sval(sl, s) is None]:
            atom = hd.lead.pop(s)
            hd.base.pop(s)
            hd.nostride.add(s[1])
            own = [c for c in hd.cons if atom in atoms_of(c)]
            for c in own:
                hd.cons.remove(c)
                t.cons.pop(c, None)
            for l in [l for l, k in hd.link.items() if k[0] == s]:
                hd.link.pop(l)
                self.new_leader(hd, t, l, a, self.numbase(hd, l, t), self.num(sl[l]), thr)
            changed = True
        # linked slots that do not fit
        sigma = self.sigma(hd, sl)
        broken = []
        for s, (l, n, d) in list(hd.link.items()):
            y = self.num(sl[s])
            want = subst(self.linked(hd, s), sigma) if d == 1 else None
            if s in diffs:
                continue
            y = e.tolin(a, y) if isinstance(y, FV) else y
            if e.decide_eq(a, sub(y, want)) is not True:
                broken.append(s)
        if broken:
            changed = True
            prev = {s: hd.link.pop(s) for s in broken}
            leaders = []
            for s in sorted(broken, key=lambda s: abs(prev[s][1]) / prev[s][2]):
                y = self.num(sl[s])
                for l in leaders:
                    if prev[l][0] == prev[s][0]:
                        n, d = prev[s][1] * prev[l][2], prev[s][2] * prev[l][1]
                        if d < 0:
                            n, d = -n, -d
                        g = gcd(n, d) or 1
                        n, d = n // g, d // g
                        if d == 1:
                            dl = sub(self.num(sl[l]), self.numbase(hd, l, t))
                            ds = sub(y, self.numbase(hd, s, t))
                            if e.decide_eq(a, sub(ds, scale(dl, n))) is True:
                                hd.link[s] = (l, n, 1)
                                if l in hd.link:
                                    hd.link[s] = (hd.link[l][0], n * hd.link[l][1], 1)
                                self.setslot(t, s, self.linked(hd, s))
                                break
                else:
                    leaders.append(s)
                    self.new_leader(hd, t, s, a, self.numbase(hd, s, t), y, thr)
            sigma = self.sigma(hd, sl)
        # intervals of parameters
        for s, atom in hd.lead.items():
            y = self.sval(sl, s)
            y = e.tolin(a, y) if isinstance(y, FV) else y
            lo, hi = e.bounds(a, y)
            tlo, thi = t.iv.get(atom) or e.adom[atom]
            nlo, nhi = tlo, thi
            if lo < tlo and not e.entails(a, sub(y, int(tlo))) if tlo != -INF else False:
                nlo = self.widen(hd, (s, "lo"), lo, [-x for x in reversed(thr)], -1)
            if thi != INF and hi > thi and not e.entails(a, sub(int(thi), y)):
                nhi = self.widen(hd, (s, "hi"), hi, thr, 1)
            if (nlo, nhi) != (tlo, thi):
                self.trace("  widen %s %s [%s,%s] -> [%s,%s]" % (s, e.aname[atom], tlo, thi, nlo, nhi))
                t.iv[atom] = (nlo, nhi)
                changed = True
        # invariant rows
        for c in list(hd.cons):
            if not e.entails(a, subst(c, sigma)):
                self.trace("  drop " + e.show(c))
                hd.cons.remove(c)
                hd.black.add(c)
                hd.dropped.add(c)
                t.cons.pop(c, None)
                changed = True
        # facts about outer values
        own = set(hd.lead.values())
        for atom, (lo, hi) in list(t.iv.items()):
            if atom in own:
                continue
            alo, ahi = e.aiv(a, atom)
            if alo < lo or ahi > hi:
                t.iv[atom] = (min(lo, alo), max(hi, ahi))
                changed = True
        for atom, m in list(t.masks.items()):
            if atom in hd.fvp.values():
                continue
            am = e.mask(a, atom)
            if am & ~m:
                t.masks[atom] = m | am
                changed = True
        for c in list(t.cons):
            if c in hd.cons:
                continue
            if any(x in own for x in atoms_of(c)):
                continue
            if not e.entails(a, c):
                del t.cons[c]
                changed = True
        for c in list(t.neq):
            if any(x in own for x in atoms_of(c)):
                continue
            if c not in a.neq and e.decide_eq(a, c) is not False:
                del t.neq[c]
                changed = True
        if changed:
            self.trace("changed: diffs %s broken %s" % (list(diffs), broken))
            hd.dirty = True

    def widen(self, hd, k, v, thr, sign):
        n = hd.growth.get(k, 0)
        hd.growth[k] = n + 1
        if n >= 5 or v in (INF, -INF):
            return sign * INF
        if n == 0:
            return v
        v2 = v * sign
        for x in (thr if sign > 0 else thr):
            if x >= v2:
                return sign * x
        return sign * INF

    def numbase(self, hd, s, t):
        v = self.num(hd.base[s])
        return self.e.tolin(hd.first, v) if isinstance(v, FV) else v

    @staticmethod
    def ratio(d, dl):
        """d = n/m * dl ?  only integral multiples are used"""
        if isinstance(d, int) and isinstance(dl, int):
            if dl and d % dl == 0:
                return d // dl, 1
            return None
        if d == dl:
            return 1, 1
        if isinstance(d, Lin) and isinstance(dl, Lin) and len(d.t) == len(dl.t):
            n, r = divmod(d.t[0][1], dl.t[0][1])
            if r == 0 and abs(n) <= 64 and scale(dl, n) == d:
                return n, 1
        return None

    def linked(self, hd, s):
        l, n, d = hd.link[s]
        p = Lin(0, ((hd.lead[l], 1),))
        return add(self.numbase(hd, s, None), sub(p, self.numbase(hd, l, None)), n)

    def sigma(self, hd, sl):
        m = {}
        for s, atom in hd.lead.items():
            y = self.sval(sl, s)
            if isinstance(y, FV):
                y = self.e.tolin(hd.tmpl, y)
            m[atom] = y
        return m

    def new_leader(self, hd, t, s, a, x, y, thr):
        e = self.e
        b = self.numbase(hd, s, t)
        if isinstance(y, FV):
            y = e.tolin(a, y)
        d = sub(y, b)
        k = abs(d) if isinstance(d, int) else gcd(d.c, *(n for _, n in d.t)) if isinstance(d, Lin) else 0
        if k and k % 8 == 0 and s not in hd.nostride and s[0] != "v":
            # count in strides
            v = ("v", s, b, k)
            if v not in hd.lead:
                hd.base[v] = 0
                self.new_leader(hd, t, v, a, 0, exdiv(d, k), thr)
            hd.link[s] = (v, k, 1)
            self.setslot(t, s, self.linked(hd, s))
            return
        atom = e.atom(self.slotname(t, s))
        hd.lead[s] = atom
        l1, h1 = e.bounds(hd.first, b)
        l2, h2 = e.bounds(a, y)
        lo, hi = min(l1, l2), max(h1, h2)
        # a steady step in one direction: no bound on that side
        if isinstance(d, int):
            if d > 0:
                hi = INF
                lo = l1
            elif d < 0:
                lo = -INF
                hi = h1
        if lo != -INF or hi != INF:
            t.iv[atom] = (lo, hi)
        if isinstance(d, int) and d and isinstance(b, Lin):
            # nor is the starting value passed on the other (dropped if it is)
            c = sub(Lin(0, ((atom, 1),)), b) if d > 0 else sub(b, Lin(0, ((atom, 1),)))
            if c not in hd.black and c not in hd.cons:
                hd.cons.append(c)
                t.cons[c] = True
        self.setslot(t, s, Lin(0, ((atom, 1),)))

    def slotname(self, st, s):
        if s[0] == "v":
            return "steps of " + self.slotname(st, s[1])
        if s[0] == "c":
            o = st.objs.get(s[1])
            if o is not None:
                n = o.name
                if n.startswith("local "):
                    n = n[6:].split(" of ")[0]
                return n + ("+%s" % s[2] if s[2] else "")
        return "_".join(map(str, s[1:])) or "p"

    def tracked(self, hd, a, s, y, t, sl):
        """does this slot move together with a quantity of the specification?"""
        if s[0] == "g" or s[0] == "c" and s[3] == 1 or not isinstance(y, FV):
            return False
        d = sub(self.e.tolin(a, y), self.numbase(hd, s, t))
        for s2, v in sl.items():
            if s2[0] == "g" and isinstance(v, Lin) and s2 in hd.base and isnum(hd.base[s2]) and \
                    sub(v, self.numbase(hd, s2, t)) == d:
                return True
        return False

    def fv_merge(self, hd, a, s, x, y, t):
        e = self.e
        vals = set()
        for st, v in ((t, x), (a, y)):
            if isinstance(v, int):
                vals.add(v)
            elif isinstance(v, FV):
                vals |= e.fvals(st, v.a, v.t)
            else:
                return False
        if min(vals) >= -128 and max(vals) <= 127:
            tab = BYTES_S
        elif min(vals) >= 0 and max(vals) <= 255:
            tab = BYTES_U
        else:
            return False
        atom = e.fvar(self.slotname(t, s), 256)
        m = 0
        for v in vals:
            m |= 1 << tab.index(v)
        t.masks[atom] = m
        hd.fvp[s] = atom
        hd.fvtab[s] = tab
        self.setslot(t, s, FV(atom, tab))
        return True

    # ---- stronger invariants
    def strengthen(self, order, outer):
        e = self.e
        any_new = False
        for hd in order:
            if not hd.lead:
                continue
            cand = []
            segc = []
            for a, sl, src in hd.seen:
                if src is not hd:
                    # facts of other arrivals that are about their values
                    inv = {}
                    for s, atom in hd.lead.items():
                        y = self.sval(sl, s)
                        if isinstance(y, Lin):
                            # y = k*q + rest  =>  q = ...
                            for q, k in y.t:
                                if k in (1, -1) and q not in inv:
                                    inv[q] = scale(sub(Lin(0, ((atom, 1),)),
                                                       sub(y, Lin(0, ((q, k),)))), k)
                                    break
                    if src is not None:
                        for c in a.cons:
                            if any(q in inv for q in atoms_of(c)):
                                cand.append(subst(c, inv))
                    continue
                # own back edge: new = old + step  =>  old = new - step
                inv, ok = {}, True
                for s, atom in hd.lead.items():
                    y = self.sval(sl, s)
                    if isinstance(y, FV):
                        continue
                    d = sub(y, Lin(0, ((atom, 1),)))
                    if isinstance(d, int):
                        inv[atom] = sub(Lin(0, ((atom, 1),)), d)
                    elif atom not in atoms_of(d):
                        inv[atom] = sub(Lin(0, ((atom, 1),)), d)
                    elif isinstance(y, Lin) and False:
                        pass
                own = set(hd.lead.values())
                for c in a.cons:
                    if c in hd.tmpl.cons:
                        cand_ok = False
                    at = [x for x in atoms_of(c) if x in own]
                    if at and all(x in inv for x in at):
                        cand.append(subst(c, inv))
                for atom in own:
                    if atom in inv:
                        lo, hi = a.iv.get(atom) or (-INF, INF)
                        if lo != -INF:
                            cand.append(subst(Lin(-lo, ((atom, 1),)), inv))
                        if hi != INF:
                            cand.append(subst(Lin(hi, ((atom, -1),)), inv))
                segc += self.seg_cands(hd, a, sl, inv)
            if hasattr(e.h, "hints"):
                for c in self.hrows(hd):
                    if isinstance(c, Lin) and any(x in hd.lead.values() for x in atoms_of(c)):
                        cand.append(c)
            # relations to the starting value
            for s, atom in hd.lead.items():
                b = self.numbase(hd, s, None)
                if isinstance(b, Lin):
                    cand.append(sub(Lin(0, ((atom, 1),)), b))
                    cand.append(sub(b, Lin(0, ((atom, 1),))))
            new = []
            for c in cand:
                if isinstance(c, int) or c in hd.black or c in hd.cons or c in new:
                    continue
                # no endless chains x >= 1, x >= 2, ...
                if hd.kin.get(c.t, 0) >= 3:
                    continue
                if e.entails(hd.tmpl, c):
                    continue
                good = True
                for a, sl, src in hd.seen:
                    if not e.entails(a, subst(c, self.sigma(hd, sl))):
                        # a self arrival may only fit once the row is assumed
                        if src is hd:
                            a2 = a.copy()
                            if not e.assume_ge(a2, c) or e.entails(a2, subst(c, self.sigma(hd, sl))):
                                continue
                        good = False
                        break
                if good:
                    new.append(c)
                    hd.kin[c.t] = hd.kin.get(c.t, 0) + 1
                else:
                    hd.black.add(c)
            if new:
                any_new = True
                hd.dirty = True
                for c in new:
                    hd.cons.append(c)
                    if len(c.t) == 1:
                        e.assume_ge(hd.tmpl, c)
                    else:
                        hd.tmpl.cons[c] = True
            for sid, sg in segc:
                if (sid, sg) in hd.segblack or sid not in hd.tmpl.svs or sg in hd.tmpl.svs[sid].segs:
                    continue
                good = all(self.seg_holds(hd, a, sl, sid, sg, assume=src is hd)
                           for a, sl, src in hd.seen)
                if good:
                    hd.tmpl.wsv(sid).segs.append(sg)
                    hd.dirty = True
                    any_new = True
                    self.trace("segment %s..%s" % (e.show(sg[0]), e.show(sg[1])))
                elif not new:
                    hd.segblack.add((sid, sg))
        return any_new

    def seg_cands(self, hd, a, sl, inv):
        """text positions inspected in this iteration with a known class"""
        e = self.e
        out = []
        for sid, sv in a.svs.items():
            if sid not in hd.tmpl.svs:
                continue
            old = hd.tmpl.svs[sid].sym
            for off, v in sv.sym:
                if (off, v) in old or not isinstance(off, Lin) or not isinstance(v, FV):
                    continue
                for s, atom in hd.lead.items():
                    k = dict(off.t).get(atom)
                    if k != 1 or atom not in inv:
                        continue
                    step = sub(Lin(0, ((atom, 1),)), inv[atom])
                    if step not in (1, -1):
                        continue
                    d = sub(off, Lin(0, ((atom, 1),)))
                    b = self.numbase(hd, s, None)
                    p = Lin(0, ((atom, 1),))
                    m = 0
                    fm = e.mask(a, v.a)
                    for i in range(e.fvn[v.a]):
                        if fm >> i & 1:
                            m |= 1 << (v.t[i] & 255)
                    if step == 1:
                        sg = (add(b, d), add(p, d), m)
                    else:
                        sg = (add(add(p, d), 1), add(add(b, d), 1), m)
                    out.append((sid, sg))
        # union over the paths of this head
        res = {}
        for sid, (lo, hi, m) in out:
            res[(sid, lo, hi)] = res.get((sid, lo, hi), 0) | m
        prev = getattr(hd, "segacc", None)
        if prev is None:
            prev = hd.segacc = {}
        fin = []
        for k, m in res.items():
            prev[k] = prev.get(k, 0) | m
            fin.append((k[0], (k[1], k[2], prev[k])))
        return fin

    def seg_holds(self, hd, a, sl, sid, sg, assume=False):
        """does text segment sg (in terms of the head) hold for arrival a"""
        e = self.e
        lo, hi, m = sg
        sg_old = sg
        sigma = self.sigma(hd, sl)
        lo2, hi2 = subst(lo, sigma), subst(hi, sigma)
        sv = a.svs.get(sid)
        if sv is None:
            return False
        return self.seg_cover(a, sid, lo2, hi2, m, list(sv.segs) + ([sg_old] if assume else []))

    def seg_cover(self, a, sid, lo2, hi2, m, known=None):
        """are all characters of the text in [lo2, hi2) in class m?"""
        e = self.e
        sv = a.svs[sid]
        if known is None:
            known = list(sv.segs)
        if e.entails(a, sub(lo2, hi2)):
            return True
        # grow from the low end
        for _ in range(6):
            if e.entails(a, sub(lo2, hi2)):
                return True
            step = False
            for l, h, mm in known:
                if mm & ~m:
                    continue
                if e.entails(a, sub(lo2, l)) and e.entails(a, sub(h, lo2)):
                    if e.entails(a, sub(sub(h, lo2), 1)):
                        lo2 = h
                        step = True
                        break
                    # segment may be empty here but lo2 == h or not: skip whole
                if e.decide_eq(a, sub(lo2, l)) is True and e.entails(a, sub(h, l)):
                    lo2 = h
                    step = True
                    known = [x for x in known if x != (l, h, mm)]
                    break
            if step:
                continue
            for off, v in list(sv.sym) + list(sv.cells.items()):
                if e.decide_eq(a, sub(off, lo2)) is True:
                    vm = 0
                    if isinstance(v, FV):
                        fm = e.mask(a, v.a)
                        for i in range(e.fvn[v.a]):
                            if fm >> i & 1:
                                vm |= 1 << (v.t[i] & 255)
                    else:
                        vm = 1 << (v & 255)
                    if vm & ~m == 0:
                        lo2 = add(lo2, 1)
                        step = True
                    break
            if not step:
                return False
        return e.entails(a, sub(lo2, hi2))

    def restore(self, order):
        """slots given a parameter for an arrival that later turned out impossible:
        keep the first value where every remaining arrival has it (or passes it on)"""
        e = self.e
        own = {x for hd in order for x in hd.lead.values()}
        for s in sorted({s for hd in order for s in hd.lead if s[0] != "v"}, key=repr):
            groups = {}
            for hd in order:
                b = self.numbase(hd, s, None) if s in hd.lead else None
                if isinstance(b, (int, Lin)) and not any(x in own for x in (atoms_of(b) if isinstance(b, Lin) else ())):
                    if hd.restored.get(s, 0) < 2:
                        groups.setdefault(b, []).append(hd)
            for b, hs in groups.items():
                cur = set(hs)
                again = True
                while again and cur:
                    again = False
                    for hd in list(cur):
                        for a, sl, src in hd.seen:
                            y = self.sval(sl, s)
                            y = e.tolin(a, y) if isinstance(y, FV) else y
                            if src in cur and y == Lin(0, ((src.lead[s], 1),)):
                                continue
                            if not isinstance(y, (int, Lin)) or e.decide_eq(a, sub(y, b)) is not True:
                                cur.discard(hd)
                                again = True
                                break
                for hd in cur:
                    self.trace("restored %s to %s" % (s, e.show(b)))
                    hd.restored[s] = hd.restored.get(s, 0) + 1
                    atom = hd.lead.pop(s)
                    t = hd.tmpl
                    self.setslot(t, s, b)
                    for l in [l for l, k in hd.link.items() if k[0] == s]:
                        hd.link.pop(l)
                        self.setslot(t, l, self.numbase(hd, l, t))
                    m = {atom: b}
                    old = [c for c in t.cons if atom in atoms_of(c)]
                    for c in old:
                        del t.cons[c]
                    hd.cons = [c for c in hd.cons if atom not in atoms_of(c)]
                    for c in [c for c in t.neq if atom in atoms_of(c)]:
                        t.neq.pop(c)
                    t.iv.pop(atom, None)
                    for c in old:
                        c = subst(c, m)
                        if isinstance(c, Lin) and any(x in hd.lead.values() for x in atoms_of(c)) and c not in hd.cons:
                            hd.cons.append(c)
                            if len(c.t) == 1:
                                e.assume_ge(t, c)
                            else:
                                t.cons[c] = True
                    hd.dirty = True
                if cur:
                    return True
        return False

    def hrows(self, hd):
        """rows worth trying: those of the harness, and every integer the loop
        changes against the quantities that the harness knows to be bounded"""
        e = self.e
        rows = list(e.h.hints(e, hd.tmpl))
        ms = e.h.totals(e, hd.tmpl) if hasattr(e.h, "totals") else ()
        if ms:
            for s, atom in hd.lead.items():
                if s[0] == "c" and s[3] in (4, 8) and e.aiv(hd.tmpl, atom)[1] == INF:
                    x = Lin(0, ((atom, 1),))
                    rows += [x] + [sub(m, x) for m in ms]
        return rows

    def jointly(self, order):
        """rows of the harness that hold at all heads if they held at all heads before"""
        e = self.e
        if len(order) < 2 or not hasattr(e.h, "hints"):
            return False
        rows = {}
        for hd in order:
            rows[hd] = [c for c in dict.fromkeys(self.hrows(hd)) if isinstance(c, Lin) and
                        c not in hd.dropped]
        if not any(c not in hd.cons and not e.entails(hd.tmpl, c) for hd in order for c in rows[hd]):
            return False
        again = True
        while again:
            again = False
            for hd in order:
                for a, sl, src in hd.seen:
                    if not rows[hd]:
                        break
                    a2 = a.copy()
                    live = True
                    if src is not None:
                        for r in rows[src]:
                            if not e.assume_ge(a2, r):
                                live = False
                                break
                    if not live:
                        continue
                    sg = self.sigma(hd, sl)
                    bad = [c for c in rows[hd] if not e.entails(a2, subst(c, sg))]
                    if bad:
                        again = True
                        rows[hd] = [c for c in rows[hd] if c not in bad]
        new = False
        for hd in order:
            for c in rows[hd]:
                if c in hd.cons or e.entails(hd.tmpl, c):
                    continue
                self.trace("jointly " + e.show(c))
                if any(x in hd.lead.values() for x in atoms_of(c)):
                    hd.cons.append(c)
                if len(c.t) == 1:
                    e.assume_ge(hd.tmpl, c)
                else:
                    hd.tmpl.cons[c] = True
                hd.dirty = new = True
        return new

    def lemmas(self, order, fn, header):
        """rows the harness derives from a verified pattern of all transitions"""
        h = self.e.h
        if not hasattr(h, "lemma"):
            return False
        new = False
        for hd, row in h.lemma(self.e, order, fn, header):
            if row in hd.tmpl.cons or isinstance(row, int) or self.e.entails(hd.tmpl, row):
                continue
            if len(row.t) == 1:
                self.e.assume_ge(hd.tmpl, row)
            hd.tmpl.cons[row] = True
            hd.dirty = new = True
        return new

    # ---- termination
    def rankloop(self, order, fn, header):
        e = self.e
        trans = []
        for hd in order:
            for a, sl, src in hd.seen:
                if src is None:
                    continue
                trans.append((src, self.slots(src.tmpl, ()), a, sl, hd))
        left = list(trans)
        measures = []
        while left:
            found = None
            for cand in self.measures(left):
                res = [self.decrease(cand, t) for t in left]
                if any(r is None for r in res):
                    continue
                if any(r == 1 for r in res):
                    found = (cand, [t for t, r in zip(left, res) if r != 1])
                    break
            if found is None:
                break
            measures.append(found[0])
            left = found[1]
        self.note(fn, header, summarised=1, ranked=0 if left else 1)
        d = self.info[(fn.name, header)]
        if measures:
            d["measure"] = "; ".join(self.mshow(m) for m in measures)
        if left:
            a = left[0][2]
            e.find(a, "nonterm", self.loc(fn, header),
                   "no bound on the number of iterations of this loop", fn=fn.name)

    def mshow(self, m):
        if callable(m):
            return m.__doc__
        c, sl, at = m
        return " + ".join(["%d*%s" % (k, "/".join(map(str, s[1:]))) for s, k in sl] +
                          ["%d*%s" % (k, self.e.aname[x]) for x, k in at] + [str(c)])

    def measures(self, left):
        e = self.e
        seen = set()
        if hasattr(e.h, "measures"):
            yield from e.h.measures()
        for src, tsl, a, sl, hd in left:
            inv = {atom: s for s, atom in src.lead.items()}
            rows = []
            for s, atom in src.lead.items():
                rows.append(Lin(0, ((atom, 1),)))
                rows.append(Lin(0, ((atom, -1),)))
            for c in a.cons:
                if any(x in inv for x in atoms_of(c)):
                    rows.append(c)
            # differences of parameters
            for s, v in tsl.items():
                if s[0] == "g" and isinstance(v, int):
                    pass
            for r in rows:
                m = (r.c, tuple((inv[x], k) for x, k in r.t if x in inv),
                     tuple((x, k) for x, k in r.t if x not in inv))
                if m not in seen:
                    seen.add(m)
                    yield m
            # slots that are constants in one head and something else in another
            for s, v in sl.items():
                if s in tsl and isinstance(self.num(v), int) and isinstance(self.num(tsl[s]), int) \
                        and self.num(v) != self.num(tsl[s]) and not isinstance(v, bool):
                    for k in (1, -1):
                        m = (0, ((s, k),), ())
                        if m not in seen:
                            seen.add(m)
                            yield m

    def meval(self, m, sl):
        if callable(m):
            return m(sl)
        c, ss, at = m
        r = c
        for s, k in ss:
            if s not in sl and s[0] != "v":
                return None
            v = self.sval(sl, s)
            if isinstance(v, FV) or not isnum(v):
                return None
            r = add(r, v, k)
        for x, k in at:
            r = add(r, Lin(0, ((x, 1),)), k)
        return r

    def decrease(self, m, t):
        """1 strictly decreasing and bounded, 0 not increasing, None neither"""
        e = self.e
        src, tsl, a, sl, hd = t
        old, new = self.meval(m, tsl), self.meval(m, sl)
        if old is None or new is None:
            return None
        d = sub(old, new)
        if e.entails(a, sub(d, 1)):
            lo = e.bounds(a, old)[0]
            if lo != -INF or e.entails(a, old):
                return 1
            return 0
        if e.entails(a, d):
            return 0
        return None
