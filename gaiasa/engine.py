"""Abstract interpreter over the program's LLVM IR.

Trace-partitioned: paths are kept apart and only merged when their abstract
states coincide (or differ in one finite atom); loops are either unrolled
(when a constant bounds them) or replaced by an inductive head state found by
generalising successive arrivals (see loops.py).
"""
import time
from .ir import Broken, PTR
from math import gcd
from .dom import (Lin, FV, Ptr, PtrInt, Fn, Flt, NULL, UNDEF, INF, L, simp, add,
                  sub, scale, neg, atoms_of, subst, infeasible)

I32 = (-(1 << 31), (1 << 31) - 1)


def srange(bits):
    return -(1 << (bits - 1)), (1 << (bits - 1)) - 1


def wrapc(v, bits):
    v &= (1 << bits) - 1
    if bits > 1 and v >> (bits - 1):
        v -= 1 << bits
    return v


class Obj:
    __slots__ = ("id", "kind", "size", "cells", "default", "freed", "sv", "name",
                 "segs", "hook", "site", "bytes", "meta", "tag", "ck")

    def info(self, loose=False):
        """(comparable content without object identities, pointed-to objects);
        loose: bytes and tables count as equal"""
        k = self.ck
        if k is None or loose:
            tg = []

            def cv(v):
                if v.__class__ is Ptr:
                    tg.append(v.o)
                    return ("P", v.off)
                if v.__class__ is PtrInt:
                    tg.append(v.p.o)
                    return ("PI", v.p.off)
                return v
            cells = None
            segs = None
            if not self.freed:
                c = self.cells
                if loose:
                    c = {x: (z, "B" if v.__class__ is FV or z == 1 and v.__class__ is int else v)
                         for x, (z, v) in c.items()}
                if len(c) == 1:
                    for x, (z, v) in c.items():
                        cells = ((x, z, cv(v)),)
                elif c:
                    cells = tuple([(x, c[x][0], cv(c[x][1])) for x in sorted(c)])
                if self.segs:
                    segs = tuple([(e, cv(v) if not callable(v) else id(v))
                                  for e, v in self.segs])
            d = self.default
            k = ((self.kind, self.freed, self.size, self.sv,
                  id(d) if callable(d) else d, cells, segs), tuple(tg))
            if not loose:
                self.ck = k
        return k

    def __reduce__(self):
        return mk_obj, (self.id, self.kind, self.size, self.cells, self.default, self.freed,
                        self.sv, self.name, self.segs, self.hook, self.site, self.bytes,
                        self.meta, self.tag)

    def clone(self):
        o = Obj.__new__(Obj)
        o.id, o.kind, o.size, o.cells = self.id, self.kind, self.size, dict(self.cells)
        o.default, o.freed, o.sv, o.name = self.default, self.freed, self.sv, self.name
        o.segs, o.hook, o.site, o.bytes = self.segs, self.hook, self.site, self.bytes
        o.meta = self.meta
        o.tag = self.tag
        o.ck = None
        return o


def mk_obj(*a):
    o = Obj.__new__(Obj)
    (o.id, o.kind, o.size, o.cells, o.default, o.freed, o.sv, o.name, o.segs, o.hook,
     o.site, o.bytes, o.meta, o.tag) = a
    o.ck = None
    return o


class SV:
    """content of a NUL-terminated string: N bytes 1..255, then 0"""
    __slots__ = ("id", "N", "cells", "sym", "segs", "parent", "ident", "excl")

    def clone(self):
        s = SV.__new__(SV)
        s.id, s.N, s.cells, s.sym = self.id, self.N, dict(self.cells), list(self.sym)
        s.segs, s.parent, s.ident, s.excl = list(self.segs), self.parent, self.ident, self.excl
        return s


class Frame:
    __slots__ = ("fn", "regs", "allocas", "blk", "idx", "prev", "va", "call")

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.allocas = self.fn, dict(self.regs), list(self.allocas)
        f.blk, f.idx, f.prev, f.va, f.call = self.blk, self.idx, self.prev, self.va, self.call
        return f


class State:
    def __init__(self):
        self.frames = []
        self.objs = {}
        self.svs = {}
        self.iv = {}
        self.cons = {}
        self.masks = {}
        self.neq = {}
        self.ev = ()
        self.trail = ()
        self.g = {}
        self.owned = set()
        self.sowned = set()
        self.dead = False

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.svs = dict(self.svs)
        s.iv = dict(self.iv)
        s.cons = dict(self.cons)
        s.masks = dict(self.masks)
        s.neq = dict(self.neq)
        s.ev, s.trail, s.g = self.ev, self.trail, dict(self.g)
        self.owned = set()
        self.sowned = set()
        s.owned, s.sowned = set(), set()
        s.dead = False
        return s

    def w(self, oid):
        o = self.objs[oid]
        if oid not in self.owned:
            o = o.clone()
            self.objs[oid] = o
            self.owned.add(oid)
        o.ck = None
        return o

    def wsv(self, sid):
        s = self.svs[sid]
        if sid not in self.sowned:
            s = s.clone()
            self.svs[sid] = s
            self.sowned.add(sid)
        return s

    def emit(self, *e):
        self.ev = self.ev + (e,)

    @property
    def fr(self):
        return self.frames[-1]


class Region:
    __slots__ = ("depth", "header", "body", "log")

    def __init__(self, depth, header=None, body=None):
        self.depth, self.header, self.body = depth, header, body
        self.log = []


class Outs:
    def __init__(self):
        self.back, self.exit, self.ret = [], [], []
        self.pending = {}


class Finding:
    def __init__(self, kind, loc, fn, msg, trail, facts, props=()):
        self.kind, self.loc, self.fn, self.msg = kind, loc, fn, msg
        self.trail, self.facts, self.props = trail, facts, list(props)

    def key(self):
        return (self.kind, self.loc, self.fn, self.msg)


def decide_same(a, b):
    return isinstance(a, Lin) and a == b


class Engine:
    def __init__(self, mod, harness=None):
        self.m = mod
        self.h = harness
        self.deadline = harness.c.deadline if harness else None
        self.aname, self.adom = {}, {}
        self.fvn, self.fvname = {}, {}
        self.na = 0
        self.nf = 0
        self.noid = 0
        self.fvder = {}
        self.copies = False
        self.exits = {}
        self.derived = {}      # atom -> ('div',E,m) | ('fv',a,tab) | ('rem',E,M) | ('uf',..)
        self.dkey = {}
        self.findings = {}
        self.terminals = []    # (kind, state)
        self.contracts = {}    # internal function name -> handler
        self.ext = {}          # external name -> handler
        self.gobj = {}
        self.stats = {"instructions": 0, "paths": 0, "calls": 0, "loops_unrolled": 0,
                      "loops_generalised": 0, "rounds": 0, "accesses": 0,
                      "merged": 0}
        self.funcs_seen = set()
        self.callsites = set()
        self.access_sites = set()
        self.branch_sites = set()
        self.summaries = {}    # (fn, header) -> list of LoopSummary
        self.gen_cache = set()
        self.pw_memo = {}
        self.events_in_loop_ok = set()
        self.limit = 60_000_000
        self.slice = None
        from . import libc
        libc.install(self)
        from . import loops
        self.loops = loops.Loops(self)

    # ------------------------------------------------------------ atoms
    def atom(self, name, lo=-INF, hi=INF):
        self.na += 1
        self.aname[self.na] = name
        self.adom[self.na] = (lo, hi)
        return self.na

    def var(self, name, lo=-INF, hi=INF):
        return Lin(0, ((self.atom(name, lo, hi), 1),))

    def fvar(self, name, n):
        self.nf += 1
        self.fvn[self.nf] = n
        self.fvname[self.nf] = name
        return self.nf

    def dvar(self, kind, *key, name=None, dom=(-INF, INF)):
        k = (kind,) + key
        a = self.dkey.get(k)
        if a is None:
            a = self.atom(name or kind, *dom)
            self.dkey[k] = a
            self.derived[a] = k
        return Lin(0, ((a, 1),))

    # ------------------------------------------------------------ bounds
    def aiv(self, st, a):
        lo, hi = st.iv.get(a) or self.adom[a]
        d = self.derived.get(a)
        if d is not None:
            if d[0] == "fv":
                vals = self.fvals(st, d[1], d[2])
                return min(vals), max(vals)
            if d[0] == "div":
                l, h = self.interval(st, d[1])
                if l != -INF:
                    lo = max(lo, l // d[2])
                if h != INF:
                    hi = min(hi, h // d[2])
            elif d[0] == "isqrt":
                from math import isqrt
                l, h = self.interval(st, d[1])
                if l != -INF and l >= 0:
                    lo = max(lo, isqrt(int(l)))
                if h != INF and h >= 0:
                    hi = min(hi, isqrt(int(h)))
            elif d[0] == "sq":
                l, h = self.interval(st, d[1])
                if l != -INF and l >= 0:
                    lo = max(lo, l * l)
                    if h != INF:
                        hi = min(hi, h * h)
            elif d[0] == "rem":
                h = self.interval(st, d[2])[1]
                lo = max(lo, 0)
                if h != INF:
                    hi = min(hi, h - 1)
        return lo, hi

    def interval(self, st, e):
        if isinstance(e, int):
            return e, e
        lo = hi = e.c
        for a, k in e.t:
            l, h = self.aiv(st, a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def rows(self, st, e):
        """constraint rows relevant to the atoms of e"""
        seen, wl, rows, used = set(), list(atoms_of(e)), [], set()
        while wl:
            a = wl.pop()
            if a in seen:
                continue
            seen.add(a)
            if len(seen) > 40:
                break
            d = self.derived.get(a)
            if d is not None:
                if d[0] == "div":
                    # 0 <= E - m*a <= m-1
                    r = add(d[1], Lin(0, ((a, 1),)), -d[2])
                    rows.append(r)
                    rows.append(sub(d[2] - 1, r))
                    wl += atoms_of(d[1])
                elif d[0] == "rem":
                    rows.append(add(d[2], Lin(0, ((a, 1),)), -1))
                    rows[-1] = sub(rows[-1], 1)
                    wl += atoms_of(d[2])
                elif d[0] == "quot":
                    # lo*y <= x < (hi+1)*y
                    lo, hi = self.aiv(st, a)
                    rows.append(sub(d[1], scale(d[2], max(lo, 0))))
                    if hi != INF:
                        rows.append(sub(sub(scale(d[2], hi + 1), 1), d[1]))
                    wl += atoms_of(d[1]) + atoms_of(d[2])
                elif d[0] == "sq":
                    x = d[1]
                    lo, hi = self.interval(st, x)
                    y = Lin(0, ((a, 1),))
                    rows.append(add(sub(y, scale(x, 2)), 1))
                    if lo != -INF:
                        rows.append(sub(y, scale(x, lo)))
                    if hi != INF:
                        rows.append(sub(scale(x, hi), y))
                    wl += atoms_of(x)
                elif d[0] == "isqrt":
                    x = d[1]
                    if self.interval(st, x)[0] >= 4:
                        rows.append(add(x, Lin(0, ((a, 1),)), -2))
                    rows.append(sub(x, Lin(0, ((a, 1),))))
                    wl += atoms_of(x)
            lo, hi = self.aiv(st, a)
            if lo != -INF:
                rows.append(Lin(-lo, ((a, 1),)))
            if hi != INF:
                rows.append(Lin(hi, ((a, -1),)))
            for c in st.cons:
                if c not in used and any(x == a for x, _ in c.t):
                    used.add(c)
                    rows.append(c)
                    wl += [x for x, _ in c.t]
        return [(dict(r.t), r.c) for r in rows if isinstance(r, Lin)]

    def entails(self, st, e):
        """e >= 0 certainly?"""
        if isinstance(e, int):
            return e >= 0
        lo, hi = self.interval(st, e)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if not st.cons and not any(a in self.derived for a, _ in e.t):
            return False
        rows = self.rows(st, e)
        rows.append(({a: -k for a, k in e.t}, -e.c - 1))
        return infeasible(rows)

    def feasible(self, st, e):
        """can the state's constraints around e be met at all"""
        return not infeasible(self.rows(st, e))

    def nrm(self, st, v):
        """substitute atoms fixed to one value; collapse constant tables"""
        if isinstance(v, Lin):
            for a, k in v.t:
                lo, hi = self.aiv(st, a)
                if lo == hi:
                    m = {}
                    for b, _ in v.t:
                        l, h = self.aiv(st, b)
                        if l == h:
                            m[b] = l
                    return subst(v, m)
            return v
        if isinstance(v, FV):
            s = self.fvals(st, v.a, v.t)
            if len(s) == 1:
                return next(iter(s))
        return v

    def mask(self, st, a):
        m = st.masks.get(a)
        return (1 << self.fvn[a]) - 1 if m is None else m

    def fvals(self, st, a, tab):
        m = self.mask(st, a)
        out = set()
        i = 0
        while m:
            if m & 1:
                out.add(tab[i])
            m >>= 1
            i += 1
        return out

    def decide_ge(self, st, e):
        if self.entails(st, e):
            return True
        if self.entails(st, sub(neg(e), 1)):
            return False
        return None

    def decide_eq(self, st, e):
        """e == 0 ?"""
        e = self.nrm(st, e)
        if isinstance(e, int):
            return e == 0
        e = self.fvreduce(st, e)
        if isinstance(e, int):
            return e == 0
        lo, hi = self.interval(st, e)
        if lo > 0 or hi < 0:
            return False
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if g > 1 and e.c % g:
            return False
        if e in st.neq or neg(e) in st.neq:
            return False
        p, q = self.entails(st, e), self.entails(st, neg(e))
        if p and q:
            return True
        if self.entails(st, sub(e, 1)) or self.entails(st, sub(neg(e), 1)):
            return False
        return None

    def fvreduce(self, st, e):
        """combine derived table atoms over one base atom"""
        by = {}
        for a, k in e.t:
            d = self.derived.get(a)
            if d is not None and d[0] == "fv":
                by.setdefault(d[1], []).append((a, k, d[2]))
        if not by:
            return e
        m = {}
        for base, l in by.items():
            msk = self.mask(st, base)
            vals = {sum(k * t[i] for _, k, t in l)
                    for i in range(self.fvn[base]) if msk >> i & 1}
            if len(vals) == 1:
                for j, (a, k, t) in enumerate(l):
                    m[a] = 0
                e = add(e, vals.pop())
        return subst(e, m) if m else e

    def assume_ge(self, st, e):
        """add e >= 0; False if that is impossible"""
        e = self.nrm(st, e)
        if isinstance(e, int):
            if e < 0:
                st.dead = True
                return False
            return True
        if len(e.t) == 1 and (e.t[0][0] not in self.derived or
                              self.derived[e.t[0][0]][0] not in ("fv",)):
            a, k = e.t[0]
            lo, hi = st.iv.get(a) or self.adom[a]
            if k > 0:
                lo = max(lo, -(e.c // k))     # a >= ceil(-c/k)
            else:
                hi = min(hi, e.c // -k)
            if lo > hi:
                st.dead = True
                return False
            st.iv[a] = (lo, hi)
            d = self.derived.get(a)
            if d is not None and d[0] == "div":
                # a bound of floor(E / m) is a bound of E
                ok = self.assume_ge(st, sub(d[1], lo * d[2])) if k > 0 else \
                    self.assume_ge(st, sub((hi + 1) * d[2] - 1, d[1]))
                if not ok:
                    return False
        elif len(e.t) == 1:
            a, k = e.t[0]
            d = self.derived[a]
            m, i, nm = self.mask(st, d[1]), 0, 0
            for i in range(self.fvn[d[1]]):
                if m >> i & 1 and k * d[2][i] + e.c >= 0:
                    nm |= 1 << i
            if not nm:
                st.dead = True
                return False
            st.masks[d[1]] = nm
            return True
        else:
            st.cons[e] = True
        if st.neq:
            self._neqs(st, e)
        return not st.dead

    def _neqs(self, st, e):
        for q in list(st.neq):
            if q not in st.neq:
                continue
            if any(a in atoms_of(e) for a in atoms_of(q)):
                qq = self.nrm(st, q)
                if isinstance(qq, int):
                    st.neq.pop(q, None)
                    if qq == 0:
                        st.dead = True
                        return
                    continue
                if self.entails(st, qq):
                    st.neq.pop(q, None)
                    self.assume_ge(st, sub(qq, 1))
                elif self.entails(st, neg(qq)):
                    st.neq.pop(q, None)
                    self.assume_ge(st, sub(neg(qq), 1))

    def assume_eq(self, st, e):
        e = self.nrm(st, e)
        if isinstance(e, int):
            if e:
                st.dead = True
            return e == 0
        return self.assume_ge(st, e) and self.assume_ge(st, neg(e)) and \
            self.feasible(st, e)

    def assume_ne(self, st, e):
        e = self.nrm(st, e)
        if isinstance(e, int):
            if not e:
                st.dead = True
            return e != 0
        if self.entails(st, e):
            return self.assume_ge(st, sub(e, 1)) and self.feasible(st, e)
        if self.entails(st, neg(e)):
            return self.assume_ge(st, sub(neg(e), 1)) and self.feasible(st, e)
        st.neq[e] = True
        return True

    def split_ge(self, st, e):
        """[(state, truth of e >= 0)]"""
        d = self.decide_ge(st, e)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        out = []
        if self.assume_ge(st, e) and self.squares(st, e):
            out.append((st, True))
        if self.assume_ge(s2, sub(neg(e), 1)) and self.squares(s2, sub(neg(e), 1)):
            out.append((s2, False))
        return out

    def squares(self, st, e):
        """i*i <= x means i <= isqrt(x)"""
        if isinstance(e, int):
            return True
        for a, k in e.t:
            d = self.derived.get(a)
            if d is not None and d[0] == "quot" and isinstance(d[1], Lin) and k in (1, -1):
                # x / i >= i  <=>  i <= isqrt(x)
                y = sub(e, Lin(0, ((a, k),)))
                if k == 1 and y == neg(d[2]):
                    return self.assume_ge(st, sub(self.isqrt(st, d[1]), d[2]))
                if k == -1 and y == sub(d[2], 1):
                    return self.assume_ge(st, sub(sub(d[2], self.isqrt(st, d[1])), 1))
            if d is None or d[0] != "sq" or k not in (1, -1):
                continue
            x = sub(e, Lin(0, ((a, k),)))
            if k == 1:                       # sq >= -x  <=>  i > isqrt(-x - 1)
                x = sub(neg(x), 1)
            if self.entails(st, x):
                r = self.isqrt(st, x)
                return self.assume_ge(st, sub(r, d[1]) if k == -1 else sub(sub(d[1], r), 1))
        return True

    def split_eq(self, st, e):
        d = self.decide_eq(st, e)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        out = []
        if self.assume_eq(st, e):
            out.append((st, True))
        if self.assume_ne(s2, e):
            out.append((s2, False))
        return out

    def split_mask(self, st, a, m):
        """[(state, atom in m)]"""
        cur = self.mask(st, a)
        i, o = cur & m, cur & ~m
        if not o:
            return [(st, True)]
        if not i:
            return [(st, False)]
        s2 = st.copy()
        st.masks[a] = i
        s2.masks[a] = o
        return [(st, True), (s2, False)]

    def split_vals(self, st, v, maxn=64):
        """split on the concrete values of an FV or narrow Lin"""
        v = self.nrm(st, v)
        if isinstance(v, int):
            return [(st, v)]
        out = []
        if isinstance(v, FV):
            m = self.mask(st, v.a)
            by = {}
            for i in range(self.fvn[v.a]):
                if m >> i & 1:
                    by[v.t[i]] = by.get(v.t[i], 0) | 1 << i
            for val, mm in sorted(by.items()):
                s = st.copy()
                s.masks[v.a] = mm
                out.append((s, val))
            return out
        lo, hi = self.interval(st, v)
        if hi - lo >= maxn:
            return None
        for k in range(lo, hi + 1):
            if self.decide_eq(st, sub(v, k)) is False:
                continue
            s = st.copy()
            if self.assume_eq(s, sub(v, k)):
                out.append((s, k))
        return out

    def tolin(self, st, v):
        if isinstance(v, (int, Lin)):
            return v
        if isinstance(v, FV):
            vv = self.nrm(st, v)
            if isinstance(vv, int):
                return vv
            if ("fv", v.a, v.t) not in self.dkey:
                # a number already derived from the same finite value, up to a constant
                m = self.mask(st, v.a)
                idx = [i for i in range(len(v.t)) if m >> i & 1]
                i0 = idx[0]
                for t, x in self.fvder.get(v.a, ()):
                    k = 1
                    for i in idx:
                        if t[i] != t[i0]:
                            k = (v.t[i] - v.t[i0]) // (t[i] - t[i0]) or 1
                            break
                    d = v.t[i0] - k * t[i0]
                    if all(v.t[i] - k * t[i] == d for i in idx):
                        return add(scale(x, k), d)
                g = gcd(*v.t)
                t = tuple(x // g for x in v.t) if g > 1 else v.t
                x = self.dvar("fv", v.a, t, name="tab(%s)" % self.fvname[v.a])
                self.fvder.setdefault(v.a, []).append((t, x))
                return x if g <= 1 else scale(x, g)
            return self.dvar("fv", v.a, v.t, name="tab(%s)" % self.fvname[v.a])
        raise Broken("not an integer value: %r" % (v,))

    def div(self, st, e, m):
        """floor(e / m), m a positive constant"""
        e = self.nrm(st, e)
        if isinstance(e, int):
            return e // m
        if m == 1:
            return e
        q = [(a, k // m) for a, k in e.t if k // m]
        r = tuple((a, k % m) for a, k in e.t if k % m)
        out = simp(Lin(e.c // m, tuple(q)))
        rest = simp(Lin(e.c % m, r))
        if isinstance(rest, int):
            return add(out, rest // m)
        lo, hi = self.bounds(st, rest)
        if lo != -INF and hi != INF and lo // m == hi // m:
            return add(out, int(lo // m))
        # div(div(E,a),b) = div(E,a*b)
        if len(rest.t) == 1 and rest.t[0][1] == 1 and rest.c == 0:
            d = self.derived.get(rest.t[0][0])
            if d is not None and d[0] == "div":
                return add(out, self.div(st, d[1], d[2] * m))
        return add(out, self.dvar("div", rest, m, name="div%d" % m))

    def mod(self, st, e, m):
        return add(e, self.div(st, e, m), -m)

    def bounds(self, st, e):
        """interval, refined to a few useful thresholds by the constraints"""
        lo, hi = self.interval(st, e)
        if isinstance(e, int) or (not st.cons and not any(
                a in self.derived for a, _ in e.t)):
            return lo, hi
        if lo < 0:
            for t in (0, -128, -(1 << 31)):
                if t > lo and self.entails(st, sub(e, t)):
                    lo = t
                    break
        if hi > 1:
            for t in (1, 127, 255, 0xFFFF, (1 << 31) - 1, (1 << 32) - 1):
                if t < hi and self.entails(st, sub(t, e)):
                    hi = t
                    break
        return lo, hi

    def fit(self, st, e, bits, nsw=False, ins=None):
        """bring a mathematical integer into the signed range of the type"""
        if isinstance(e, int):
            lo, hi = srange(bits)
            if bits == 1:
                return e & 1
            if lo <= e <= hi:
                return e
            if nsw:
                self.find(st, "overflow", ins, "signed integer overflow")
            return wrapc(e, bits)
        lo, hi = srange(bits)
        l, h = self.interval(st, e)
        if l >= lo and h <= hi:
            return e
        ok_lo = l >= lo or self.entails(st, sub(e, lo))
        ok_hi = h <= hi or self.entails(st, sub(hi, e))
        if ok_lo and ok_hi:
            return e
        if nsw:
            if self.h is None or not self.h.overflow_ok(self, st, e, ins):
                self.find(st, "overflow", ins,
                          "signed integer overflow not excluded")
            self.assume_ge(st, sub(e, lo))
            self.assume_ge(st, sub(hi, e))
            return e
        return add(e, self.div(st, add(e, 1 << (bits - 1)), 1 << bits), -(1 << bits))

    def unsigned(self, st, v, bits):
        """[(state, value in 0..2^bits-1)]"""
        if isinstance(v, FV):
            return [(st, FV(v.a, tuple(x % (1 << bits) for x in v.t)))]
        if isinstance(v, int):
            return [(st, v % (1 << bits))]
        d = self.decide_ge(st, v)
        if d is True:
            return [(st, v)]
        if d is False:
            return [(st, add(v, 1 << bits))]
        return [(s, v if t else add(v, 1 << bits)) for s, t in self.split_ge(st, v)]

    # ------------------------------------------------------------ findings
    def where(self, ins):
        return self.m.loc(ins.dbg) if ins is not None else "?"

    def find(self, st, kind, ins, msg, props=None, fn=None):
        loc = self.where(ins) if not isinstance(ins, str) else ins
        f = fn or (st.frames[-1].fn.name if st.frames else "?")
        if props is None:
            props = self.h.props_of(kind, st) if self.h else []
        fd = Finding(kind, loc, f, msg, list(st.trail), self.describe(st), props)
        k = fd.key()
        if self.h:
            self.h.c.partial[k] = fd
        if k in self.findings:
            o = self.findings[k]
            o.props = sorted(set(o.props) | set(props))
        else:
            self.findings[k] = fd

    def describe(self, st):
        out = []
        for a, m in st.masks.items():
            n = self.fvn[a]
            if m != (1 << n) - 1:
                idx = [i for i in range(n) if m >> i & 1]
                if self.h and n in self.h.domnames:
                    s = ",".join(self.h.domnames[n][i] for i in idx[:12])
                elif n == 256:
                    s = "".join(chr(i) if 32 < i < 127 else "\\x%02x" % i for i in idx[:40])
                else:
                    s = ",".join(map(str, idx[:12]))
                out.append("%s in {%s%s}" % (self.fvname[a], s, "..." if len(idx) > 40 else ""))
        for a, (lo, hi) in st.iv.items():
            if (lo, hi) != self.adom[a]:
                out.append("%s in [%s,%s]" % (self.aname[a], lo, hi))
        for c in st.cons:
            out.append("%s >= 0" % self.show(c))
        return out[:60]

    def show(self, e):
        if isinstance(e, int):
            return str(e)
        if isinstance(e, Lin):
            s = []
            for a, k in e.t:
                s.append(("%d*" % k if k != 1 else "") + self.aname[a])
            if e.c or not s:
                s.append(str(e.c))
            return "+".join(s)
        if isinstance(e, FV):
            return "table(%s)" % self.fvname[e.a]
        return repr(e)

    # ------------------------------------------------------------ objects
    def new_obj(self, st, kind, size, default="undef", name="", site=None):
        self.noid += 1
        o = Obj.__new__(Obj)
        o.id, o.kind, o.size, o.cells = self.noid, kind, size, {}
        o.default, o.freed, o.sv, o.name = default, False, None, name
        o.segs, o.hook, o.site, o.bytes, o.meta = None, None, site, None, None
        o.tag = o.ck = None
        st.objs[o.id] = o
        st.owned.add(o.id)
        return o

    def bytemask(self, st, v):
        """the bytes a character can be"""
        if isinstance(v, int):
            return 1 << (v & 255)
        if isinstance(v, FV):
            fm, m = self.mask(st, v.a), 0
            for i in range(self.fvn[v.a]):
                if fm >> i & 1:
                    m |= 1 << (v.t[i] & 255)
            return m
        return (1 << 256) - 1

    def deduce(self, st):
        """places of characters that cannot be of the same kind are apart;
        False: the state is impossible"""
        for sid in list(st.svs):
            sv = st.svs[sid]
            for at, v in list(sv.sym):
                if not isinstance(at, Lin):
                    continue
                m = self.bytemask(st, v)
                apart = [(lo, hi) for lo, hi, sm in sv.segs if not sm & m]
                apart += [(o, add(o, 1)) for o, x in list(sv.cells.items()) + list(sv.sym)
                          if o != at and not self.bytemask(st, x) & m]
                apart.sort(key=lambda x: (not isinstance(x[0], int), x[0] if isinstance(x[0], int) else 0))
                for lo, hi in apart:
                    if self.entails(st, sub(at, lo)):
                        if not self.assume_ge(st, sub(at, hi)):
                            return False
                    elif self.entails(st, sub(sub(hi, 1), at)):
                        if not self.assume_ge(st, sub(sub(lo, 1), at)):
                            return False
        return True

    def new_sv(self, st, name, lo=0, hi=1 << 29, N=None, ident=None):
        self.noid += 1
        s = SV.__new__(SV)
        s.id = self.noid
        s.N = self.var("len(%s)" % name, lo, hi) if N is None else N
        s.cells, s.sym, s.segs, s.parent = {}, [], [], None
        s.ident = ident if ident is not None else name
        s.excl = 0
        st.svs[s.id] = s
        st.sowned.add(s.id)
        return s

    def new_str(self, st, kind, name, lo=0, hi=1 << 29, cap=None):
        s = self.new_sv(st, name, lo, hi)
        o = self.new_obj(st, kind, add(s.N, 1) if cap is None else cap, name=name)
        o.sv = s.id
        return o, s

    def global_ptr(self, st, name):
        if name in self.m.funcs or (name in self.m.decls and name not in self.m.globals):
            return Fn(name)
        if name not in self.m.globals:
            raise Broken("unknown global @" + name)
        oid = self.gobj.get(name)
        if oid is None:
            ty, init, const, ext = self.m.globals[name]
            o = self.new_obj(st, "global", self.m.size(ty) if not ext else 8,
                             name="@" + name)
            oid = o.id
            self.gobj[name] = oid
            del st.objs[oid]
            st.owned.discard(oid)
        if oid not in st.objs:
            ty, init, const, ext = self.m.globals[name]
            o = Obj.__new__(Obj)
            o.id, o.kind, o.size, o.cells = oid, "global", \
                self.m.size(ty) if not ext else 8, {}
            o.default, o.freed, o.sv, o.name = "undef", False, None, "@" + name
            o.segs, o.hook, o.site, o.bytes, o.meta = None, None, None, None, None
            o.tag = "const" if const else None
            o.ck = None
            st.objs[oid] = o
            st.owned.add(oid)
            if ext:
                v = self.h.ext_global(self, st, name) if self.h else None
                if v is None:
                    from .libc import ext_global
                    v = ext_global(self, st, name)
                if v is None:
                    raise Broken("external object @%s is not modelled" % name)
                o.cells[0] = (8, v)
            elif init is not None:
                self.init_cells(st, o, 0, ty, init)
        return Ptr(oid, 0)

    def init_cells(self, st, o, off, ty, v):
        t = self.m.resolve(ty)
        if v[0] == "zero" or (v[0] == "null" and t[0] == "p"):
            if t[0] == "p":
                o.cells[off] = (8, NULL)
            elif off == 0 and o.size == self.m.size(t):
                o.default = "zero"
            else:
                n = self.m.size(t)
                for i in range(n):
                    o.cells[off + i] = (1, 0)
            return
        if v[0] == "undef":
            return
        if v[0] == "str":
            if off == 0 and o.size == len(v[1]):
                o.bytes = v[1]
            else:
                for i, b in enumerate(v[1]):
                    o.cells[off + i] = (1, wrapc(b, 8))
            return
        if v[0] == "agg":
            if t[0] == "a":
                n = self.m.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(st, o, off + i * n, et, ev)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(st, o, off + self.m.field(t, i)[0], et, ev)
            return
        o.cells[off] = (self.m.size(t), self.const(st, t, v))

    def const(self, st, ty, v):
        k = v[0]
        if k == "c":
            return wrapc(v[1], ty[1]) if ty[0] == "i" else v[1]
        if k == "null":
            return NULL
        if k == "zero":
            t = self.m.resolve(ty)
            return NULL if t[0] == "p" else 0
        if k == "undef":
            return UNDEF
        if k == "g":
            return self.global_ptr(st, v[1][1:].strip('"'))
        if k == "gep":
            base = self.const(st, PTR, v[2])
            return Ptr(base.o, add(base.off, self.gep_off(
                st, v[1], [(t, self.const(st, t, x)) for t, x in v[3]])))
        if k == "fp":
            s = v[1]
            if s.startswith("0x"):
                import struct
                try:
                    f = struct.unpack(">d", bytes.fromhex(s[2:].zfill(16)))[0]
                except Exception:
                    return Flt("top")
            else:
                f = float(s)
            return Flt("int", int(f)) if f == int(f) else Flt("const", f)
        if k == "cast":
            x = self.const(st, v[2], v[3])
            if v[1] in ("bitcast",):
                return x
            if v[1] == "inttoptr" and x == 0:
                return NULL
            raise Broken("constant cast " + v[1])
        if k == "meta":
            return UNDEF
        raise Broken("constant %r" % (v,))

    def val(self, st, ty, v):
        if v[0] == "r":
            try:
                x = st.frames[-1].regs[v[1]]
            except KeyError:
                raise Broken("register %s undefined in %s" % (v[1], st.fr.fn.name))
            if isinstance(x, (Lin, FV)):
                return self.nrm(st, x)
            return x
        return self.const(st, ty, v)

    def gep_off(self, st, sty, idx):
        off = 0
        t = sty
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                sz = self.m.size(t)
            else:
                r = self.m.resolve(t)
                if r[0] == "s":
                    o, t = self.m.field(r, iv)
                    off = add(off, o)
                    continue
                t = r[2]
                sz = self.m.size(t)
            if isinstance(iv, FV):
                if isinstance(off, int):
                    off = FV(iv.a, tuple(x * sz + off for x in iv.t))
                else:
                    off = add(off, scale(self.tolin(st, iv), sz))
            elif iv is UNDEF:
                return UNDEF
            elif isinstance(iv, PtrInt):
                raise Broken("pointer used as index")
            else:
                if isinstance(off, FV):
                    off = self.tolin(st, off)
                off = add(off, scale(iv, sz))
        return off

    # ------------------------------------------------------------ strings
    def sv_byte(self, st, sid, off):
        """[(state, FV/int byte value 0..255)] of string content at off, where
        0 <= off <= N is already known"""
        sv = st.svs[sid]
        off = self.nrm(st, off)
        if sv.parent is not None:
            p, shift = sv.parent
            out = []
            for s, e in self.split_eq(st, sub(sv.N, off)):
                if e:
                    out.append((s, 0))
                else:
                    out += self.sv_byte(s, p, add(off, shift))
            return out
        if isinstance(off, int) and off in sv.cells:
            return [(st, sv.cells[off])]
        for o, v in sv.sym:
            if o == off or self.decide_eq(st, sub(o, off)) is True:
                return [(st, v)]
        if not isinstance(off, int):
            for o, v in sv.cells.items():
                if self.decide_eq(st, sub(o, off)) is True:
                    return [(st, v)]
        out = []
        for s, e in self.split_eq(st, sub(sv.N, off)):
            if e:
                out.append((s, 0))
                continue
            w = s.wsv(sid)
            pend = [s]
            # a pinned cell may be this one
            pins = [x for x in w.sym if len(x) == 2 and (sid, x[0]) in
                    s.g.get("pins", ())] if s.g.get("pins") else []
            if s.g.get("pins"):
                pins += [(o, v) for o, v in w.cells.items() if (sid, o) in s.g["pins"]]
            for o, v in pins:
                nxt = []
                for q in pend:
                    for q2, same in self.split_eq(q, sub(o, off)):
                        if same:
                            out.append((q2, v))
                        else:
                            nxt.append(q2)
                pend = nxt
            for q in pend:
                a = self.fvar("%s[%s]" % (w.ident, self.show(off)), 256)
                m = ((1 << 256) - 1) & ~1 & ~w.excl
                ww = q.wsv(sid)
                for lo, hi, sm in ww.segs:
                    if self.entails(q, sub(off, lo)) and self.entails(q, sub(sub(hi, 1), off)):
                        m &= sm
                if not m:
                    continue
                q.masks[a] = m
                v = FV(a, tuple(range(256)))
                if isinstance(off, int):
                    ww.cells[off] = v
                else:
                    ww.sym.append((off, v))
                out.append((q, v))
        return out

    @staticmethod
    def to_i8(v):
        if isinstance(v, int):
            return wrapc(v, 8)
        return FV(v.a, tuple(wrapc(x, 8) for x in v.t))

    # ------------------------------------------------------------ memory
    def ptr_ok(self, st, p, ins, what):
        if isinstance(p, Ptr):
            o = st.objs.get(p.o)
            if o is None:
                self.find(st, "mem", ins, "%s through a dangling pointer" % what)
                return None
            if o.freed:
                self.find(st, "uaf", ins, "%s of %s after it was freed" % (what, o.name))
                return None
            return o
        if p is NULL:
            self.find(st, "null", ins, "%s through a null pointer" % what)
            return None
        if p is UNDEF:
            self.find(st, "undef", ins, "%s through an uninitialised pointer" % what)
            return None
        if isinstance(p, Fn):
            self.find(st, "mem", ins, "%s of a function" % what)
            return None
        raise Broken("%s through %r at %s" % (what, p, self.where(ins)))

    def inb(self, st, o, off, n, ins, what):
        """check the access; [state] or [] (path ends)"""
        self.access_sites.add((ins.id if ins is not None else 0))
        self.stats["accesses"] += 1
        if isinstance(off, FV):
            off = self.tolin(st, off)
        lo_ok = self.entails(st, off)
        e = sub(sub(o.size, n), off)
        hi_ok = self.entails(st, e)
        if lo_ok and hi_ok:
            return True
        self.find(st, "oob", ins, "%s of %d byte%s outside %s (offset %s, size %s)" % (
            what, n, "s" if n > 1 else "", o.name or o.kind, self.generic(off), self.generic(o.size)))
        if not self.assume_ge(st, off) or not self.assume_ge(st, e) or \
                (isinstance(e, Lin) and not self.feasible(st, e)):
            return False
        return True

    def generic(self, e):
        return self.show(e)

    def load(self, st, p, ty, ins):
        o = self.ptr_ok(st, p, ins, "read")
        if o is None:
            return []
        n = self.m.size(ty)
        off = p.off
        if off is UNDEF:
            self.find(st, "undef", ins, "read at an uninitialised offset")
            return []
        if o.kind == "ctype":
            return [(st, self.ctype_load(st, o, off, ty, ins))]
        if not isinstance(off, FV):
            off = self.nrm(st, off)
        if o.hook is not None and getattr(o.hook, "unbounded", False):
            return o.hook.read(self, st, o, off, n, ty, ins)
        if not self.inb(st, o, off, n, ins, "read"):
            return []
        if o.hook is not None:
            return o.hook.read(self, st, o, off, n, ty, ins)
        if isinstance(off, int) and off in o.cells:
            sz, v = o.cells[off]
            if sz == n:
                return [(st, self.retype(st, v, ty, ins))]
        if isinstance(off, FV):
            if o.bytes is not None and n == 1:
                m = self.mask(st, off.a)
                return [(st, FV(off.a, tuple(
                    wrapc(o.bytes[x], 8) if m >> i & 1 else 0
                    for i, x in enumerate(off.t))))]
            out = []
            for s, k in self.split_vals(st, off):
                out += self.load(s, Ptr(p.o, k), ty, ins)
            return out
        if isinstance(off, int):
            return [(st, v) for st, v in self.load_c(st, o, off, n, ty, ins)]
        # symbolic offset
        if o.sv is not None and n == 1:
            return self.load_sv(st, o, off, ins)
        if o.segs is not None:
            return self.seg_read(st, o, off, n, ty, ins)
        if not o.cells and o.default == "zero" and o.bytes is None:
            return [(st, NULL if ty == PTR else 0)]
        al = self.split_vals(st, off, 300)
        if al is None:
            raise Broken("read at symbolic offset %s of %s at %s" %
                         (self.show(off), o.name, self.where(ins)))
        out = []
        for s, k in al:
            out += self.load(s, Ptr(p.o, k), ty, ins)
        return out

    def load_sv(self, st, o, off, ins):
        sv = st.svs[o.sv]
        out = []
        if o.cells:
            # cells written over the string content
            for k, (sz, v) in o.cells.items():
                d = self.decide_eq(st, sub(off, k))
                if d is True and sz == 1:
                    return [(st, v)]
                if d is not False:
                    raise Broken("mixed string content at " + self.where(ins))
        for s, inside in self.split_ge(st, sub(sv.N, off)):
            if inside:
                for s2, v in self.sv_byte(s, o.sv, off):
                    for s3, v in self.h.on_char(self, s2, o, off, v):
                        out.append((s3, self.to_i8(v)))
            else:
                # beyond the terminator: stale storage
                self.find(s, "stale", ins, "read past the terminator of %s" % o.name)
                a = self.fvar("stale", 256)
                out.append((s, FV(a, tuple(wrapc(x, 8) for x in range(256)))))
        return out

    def retype(self, st, v, ty, ins):
        if ty[0] == "i" and ty[1] == 1 and isinstance(v, int):
            return v & 1
        if ty == PTR and isinstance(v, int):
            if v == 0:
                return NULL
            raise Broken("integer read as pointer at " + self.where(ins))
        if ty[0] == "i":
            if v is NULL:
                return 0
            if isinstance(v, Ptr):
                return PtrInt(v)
        return v

    def load_c(self, st, o, off, n, ty, ins):
        if o.bytes is not None:
            if all(off + i not in o.cells for i in range(n)):
                v = int.from_bytes(bytes(b & 255 for b in o.bytes[off:off + n]), "little")
                return [(st, wrapc(v, 8 * n))]
        # overlapping cells?
        over = [k for k, (s, _) in o.cells.items() if k < off + n and off < k + s]
        if not over:
            if o.sv is not None and n == 1:
                return self.load_sv(st, o, off, ins)
            if o.segs is not None:
                return self.seg_read(st, o, off, n, ty, ins)
            if o.default == "zero":
                return [(st, NULL if ty == PTR else 0)]
            if callable(o.default):
                return o.default(self, st, o, off, n, ty, ins)
            return [(st, UNDEF)]
        # assemble from bytes / split wider cells when constant
        bs = []
        for i in range(n):
            c = None
            for k in over:
                s, v = o.cells[k]
                if k <= off + i < k + s:
                    if isinstance(v, int):
                        c = (v >> (8 * (off + i - k))) & 255
                    elif v is NULL:
                        c = 0
                    elif v is UNDEF:
                        return [(st, UNDEF)]
                    else:
                        raise Broken("partial read of a value at " + self.where(ins))
            if c is None:
                if o.default == "zero":
                    c = 0
                else:
                    return [(st, UNDEF)]
            bs.append(c)
        v = wrapc(int.from_bytes(bytes(bs), "little"), 8 * n)
        if ty == PTR:
            return [(st, NULL if v == 0 else UNDEF)]
        return [(st, v)]

    def gwrite(self, st, o, ins):
        """static state is changed: of no concern where the whole program is
        followed, but no function described by a contract may do so"""
        if not self.h.whole:
            self.find(st, "ambient", ins, "state kept between calls is changed: " + o.name)

    def store(self, st, p, v, n, ins):
        """-> list of states"""
        o = self.ptr_ok(st, p, ins, "write")
        if o is None:
            return []
        if o.kind == "ctype" or o.tag == "const" or o.kind == "const":
            self.find(st, "mem", ins, "write to constant object " + o.name)
            return []
        off = self.nrm(st, p.off) if not isinstance(p.off, FV) else p.off
        if off is UNDEF:
            self.find(st, "undef", ins, "write at an uninitialised offset")
            return []
        if not self.inb(st, o, off, n, ins, "write"):
            return []
        if o.kind == "global":
            self.gwrite(st, o, ins)
        if o.hook is not None:
            return o.hook.write(self, st, o, off, v, n, ins)
        if isinstance(off, FV):
            off = self.tolin(st, off)
        if n == 1 and o.sv is not None and not o.cells and self.h.textcopy and \
                self.entails(st, sub(sub(off, st.svs[o.sv].N), 1)):
            return [st]             # behind the terminator, which nobody reads
        if n == 1 and v == 0 and o.sv is not None and not o.cells and not isinstance(v, (Ptr, PtrInt)) \
                and self.h.textcopy:
            sv = st.svs[o.sv]
            if self.decide_eq(st, sub(sv.N, off)) is True:
                return [st]
            if isinstance(off, Lin) and self.entails(st, sub(sv.N, off)):
                # the text is cut off here
                s2 = self.new_sv(st, "part of " + str(sv.ident), N=off, ident=("part", sv.ident, 0, off))
                s2.parent = (o.sv, 0) if sv.parent is None else sv.parent
                st.w(o.id).sv = s2.id
                return [st]
        if n == 1 and (o.meta == "text" or o.segs is None and self.h.textcopy):
            r = self.text_write(st, o, off, v, ins)
            if r is not None:
                return r
        if not isinstance(off, int):
            if o.segs is not None or self.as_array(st, o, n):
                return self.seg_write(st, st.objs[o.id], off, v, n, ins)
            al = self.split_vals(st, off, 80)
            if al is None:
                raise Broken("write at symbolic offset %s of %s at %s" %
                             (self.show(off), o.name, self.where(ins)))
            out = []
            for s, k in al:
                out += self.store(s, Ptr(p.o, k), v, n, ins)
            return out
        if o.segs is not None:
            return self.seg_write(st, o, off, v, n, ins)
        o = st.w(p.o)
        c = o.cells
        if off in c and c[off][0] == n:
            c[off] = (n, v)
            return [st]
        for k in [k for k, (s, _) in c.items() if k < off + n and off < k + s]:
            s, x = c.pop(k)
            if isinstance(x, int):
                for i in range(s):
                    if not off <= k + i < off + n:
                        c[k + i] = (1, wrapc(x >> (8 * i), 8))
            elif x is NULL:
                for i in range(s):
                    if not off <= k + i < off + n:
                        c[k + i] = (1, 0)
            elif k < off or k + s > off + n:
                for i in range(s):
                    if not off <= k + i < off + n:
                        c[k + i] = (1, UNDEF)
        c[off] = (n, v)
        return [st]

    # pointer-array segments: segs = [(end offset, kind)...], kinds are values
    def seg_find(self, st, o, off):
        """[(state, index)] of the segment containing off"""
        out, pend = [], [st]
        for i, (end, kind) in enumerate(o.segs):
            nxt = []
            for s in pend:
                for s2, t in self.split_ge(s, sub(sub(end, 1), off)):
                    if t:
                        out.append((s2, i))
                    else:
                        nxt.append(s2)
            pend = nxt
        return out

    def seg_read(self, st, o, off, n, ty, ins):
        out = []
        for s, i in self.seg_find(st, o, off):
            k = s.objs[o.id].segs[i][1]
            if callable(k):
                out += k(self, s, o, off, n, ty, ins)
            elif k.__class__ is tuple:
                if n != 1:
                    raise Broken("characters read as a number at " + self.where(ins))
                for s2, v in self.sv_byte(s, k[1], add(off, k[2])):
                    out.append((s2, self.to_i8(v)))
            elif k == "any" and k.__class__ is str:
                out.append((s, FV(self.fvar("byte", 256), tuple(wrapc(x, 8) for x in range(256)))))
            else:
                out.append((s, k))
        return out

    def seg_write(self, st, o, off, v, n, ins):
        """writes extend the neighbouring segment when at its boundary"""
        out = []
        for s, i in self.seg_find(st, o, off):
            segs = list(s.objs[o.id].segs)
            start = segs[i - 1][0] if i else 0
            end, kind = segs[i]
            if kind == v and not callable(kind):
                out.append(s)
                continue
            nb = add(off, n)
            if n == 8 and self.decide_eq(s, sub(end, nb)) is True and \
                    self.decide_eq(s, sub(start, off)) is not True:
                # from the top down: the part below shrinks (it may get empty)
                new = segs[:i] + [(off, kind)]
                if i + 1 < len(segs) and segs[i + 1][1] == v and not callable(v):
                    new += segs[i + 1:]
                else:
                    new += [(nb, v)] + segs[i + 1:]
                s.w(o.id).segs = new
                out.append(s)
                continue
            for s1, at in self.split_eq(s, sub(start, off)):
                new = segs[:i]
                if not at:
                    if not self.entails(s1, sub(sub(off, start), 1)) or n != 8:
                        raise Broken("array write not at a segment boundary at " + self.where(ins))
                    new.append((off, kind))
                if new and new[-1][1] == v:
                    new[-1] = (nb, v)
                else:
                    new.append((nb, v))
                if self.decide_eq(s1, sub(end, nb)) is not True:
                    new.append((end, kind))
                new += segs[i + 1:]
                s1.w(o.id).segs = new
                out.append(s1)
        return out

    # byte-by-byte copies of a text: segs = [(end offset, kind)...] with kinds
    # ("cp", text, shift) - the characters of the text, shifted -, 0 and UNDEF
    def text_source(self, st, v):
        """places of a text that hold the character v"""
        out = []
        if not isinstance(v, FV):
            return out
        m = self.mask(st, v.a)
        ix = [i for i in range(self.fvn[v.a]) if m >> i & 1]
        for sid, sv in st.svs.items():
            if sv.parent is not None:
                continue
            for x in list(sv.sym) + list(sv.cells.items()):
                y = x[1]
                if isinstance(y, FV) and y.a == v.a and all(
                        wrapc(y.t[i], 8) == wrapc(v.t[i], 8) for i in ix):
                    out.append((sid, x[0]))
        return out

    def text_value(self, st, sid, at):
        """the character at a place of a text, as far as it was looked at"""
        sv = st.svs[sid]
        if self.decide_eq(st, sub(sv.N, at)) is True:
            return 0
        for o, v in list(sv.sym) + list(sv.cells.items()):
            if o == at or self.decide_eq(st, sub(o, at)) is True:
                return self.nrm(st, self.to_i8(v))
        return None

    def text_write(self, st, o, off, v, ins):
        if v is UNDEF or isinstance(v, (Ptr, PtrInt)):
            return None
        if o.meta != "text":
            if o.kind not in ("heap", "stack", "root") or o.cells or o.bytes is not None or \
                    o.default not in ("zero", "undef"):
                return None
            if (off != 0 or not self.text_source(st, v)) and not (
                    v == 0 and isinstance(off, Lin) and o.sv is None):
                return None
            w = st.w(o.id)
            w.segs = [(o.size, 0 if o.default == "zero" and o.sv is None else UNDEF)]
            w.meta, w.sv = "text", None
            self.copies = True
            o = w
        v = self.nrm(st, v)
        sv = self.nrm(st, self.to_i8(v)) if isinstance(v, (int, FV)) else v
        if isinstance(sv, int):
            sv = wrapc(sv, 8)
        out = []
        for s, i in self.seg_find(st, o, off):
            segs = list(s.objs[o.id].segs)
            start = segs[i - 1][0] if i else 0
            end, kind = segs[i]
            nb = add(off, 1)
            for s1, at in self.split_eq(s, sub(start, off)):
                new = segs[:i]
                k = None
                if sv != 0:
                    for q in [x[1] for x in segs[max(i - 1, 0):i + 1]]:
                        if isinstance(q, tuple):
                            y = self.text_value(s1, q[1], add(off, q[2]))
                            if y is not None and (y == sv or wrapc(y, 8) == sv if isinstance(y, int) else y == sv):
                                k = q
                                break
                    else:
                        src = self.text_source(s1, v)
                        if src:
                            k = ("cp", src[0][0], sub(src[0][1], off))
                else:
                    k = 0
                if k is None:
                    k = "any"
                if not at:
                    if k == kind:
                        out.append(s1)
                        continue
                    if not self.entails(s1, sub(sub(off, start), 1)):
                        raise Broken("text written at an unknown place at " + self.where(ins))
                    new.append((off, kind))
                if new and new[-1][1] == k:
                    new[-1] = (nb, k)
                else:
                    new.append((nb, k))
                if self.decide_eq(s1, sub(end, nb)) is not True:
                    new.append((end, kind))
                new += segs[i + 1:]
                s1.w(o.id).segs = new
                if k == 0:
                    self.as_text(s1, o.id)
                out.append(s1)
        return out

    def as_text(self, st, oid, part=True):
        """a finished copy becomes a string"""
        o = st.objs.get(oid)
        if o is None or o.meta != "text" or not o.segs or o.freed:
            return
        e0, k = o.segs[0]
        if not isinstance(k, tuple):
            return
        N = st.svs[k[1]].N
        d = sub(sub(N, e0), k[2])       # characters of the text not copied
        if self.decide_eq(st, add(d, 1)) is True:
            n = sub(e0, 1)              # with its terminator
        elif len(o.segs) > 1 and o.segs[1][1] == 0 and self.entails(st, sub(sub(o.segs[1][0], e0), 1)):
            n = e0
        else:
            return
        whole = self.decide_eq(st, sub(sub(N, n), k[2])) is True
        if not whole and not (part and self.entails(st, d)):
            return
        w = st.w(oid)
        if whole and k[2] == 0:
            w.sv = k[1]
        else:
            s2 = self.new_sv(st, "part of " + str(st.svs[k[1]].ident), N=n, ident=("part", st.svs[k[1]].ident, k[2], n))
            s2.parent = (k[1], k[2])
            w.sv = s2.id
        w.segs, w.meta, w.cells = None, None, {}

    def texts(self, st):
        for oid in [i for i, o in st.objs.items() if o.meta == "text"]:
            self.as_text(st, oid, False)

    def seg_fill(self, st, o, lo, hi, v, ins):
        """elements lo..hi set to v: whole segments or the end of one"""
        if isinstance(lo, Lin) and self.decide_eq(st, sub(hi, lo)) is True:
            return [st]
        out = []
        for s, i in self.seg_find(st, o, lo):
            segs = list(s.objs[o.id].segs)
            start = segs[i - 1][0] if i else 0
            new = segs[:i]
            if self.decide_eq(s, sub(start, lo)) is not True:
                if not self.entails(s, sub(sub(lo, start), 1)):
                    raise Broken("array filled at an unknown place at " + self.where(ins))
                new.append((lo, segs[i][1]))
            if new and new[-1][1] == v:
                new[-1] = (hi, v)
            else:
                new.append((hi, v))
            for end, kind in segs[i:]:
                if self.entails(s, sub(hi, end)):
                    continue
                if not self.entails(s, sub(sub(end, hi), 1)):
                    raise Broken("array filled to an unknown place at " + self.where(ins))
                new.append((end, kind))
            s.w(o.id).segs = new
            out.append(s)
        return out

    def as_array(self, st, o, n):
        """a block that nothing was written to becomes an array of pointers"""
        if n != 8 or o.kind != "heap" or o.cells or o.sv is not None or o.hook is not None or \
                o.bytes is not None or o.default not in ("zero", "undef") or isinstance(o.size, int):
            return False
        if o.size.c % 8 or any(k % 8 for _, k in o.size.t):
            return False
        st.w(o.id).segs = [(o.size, NULL if o.default == "zero" else UNDEF)]
        return True

    def ctype_load(self, st, o, off, ty, ins):
        """off is a byte offset into a <ctype.h> table; entries per class"""
        from .libc import ctype_entry
        unit = self.m.size(ty)

        def ent(x):
            if x % unit:
                raise Broken("misaligned ctype table access")
            x //= unit
            if not -128 <= x <= 255:
                return None
            return ctype_entry(o.name, x, unit)
        if isinstance(off, int):
            r = ent(off)
            if r is None:
                self.find(st, "oob", ins, "character class table index out of range")
                return UNDEF
            return r
        if isinstance(off, FV):
            m = self.mask(st, off.a)
            t = []
            for i, x in enumerate(off.t):
                r = ent(x) if m >> i & 1 else 0
                if r is None:
                    self.find(st, "oob", ins, "character class table index out of range")
                    r = 0
                t.append(r)
            return FV(off.a, tuple(t))
        raise Broken("ctype table at symbolic offset at " + self.where(ins))

    # ------------------------------------------------------------ running
    def run(self, states, region):
        outs = Outs()
        work = list(states)
        outs.pending = pending = {}
        while True:
            while work:
                s = work.pop()
                if s.dead:
                    continue
                if self.deadline and time.time() > self.deadline:
                    raise Broken("time limit")
                self.path(s, region, work, outs)
            if not pending:
                return outs
            # states waiting before a loop: equal ones continue as one
            t = min(pending, key=self.blockno)
            l = pending.pop(t)
            if len(l) > 1:
                keep = self.crossregs(l[0].fr.fn)
                for s in l:
                    s.fr.regs = {r: v for r, v in s.fr.regs.items() if r in keep}
                l = [s for s, _ in self.merge([(s, None) for s in l])]
            for s in l:
                if len(t) == 3:
                    work.append(s)
                else:
                    self.enter(s, t[1], region, work, outs)

    def crossregs(self, f):
        """registers used outside the block that defines them"""
        k = ("cross", f.name)
        r = self.pw_memo.get(k)
        if r is not None:
            return r
        r = {n for _, n in f.params}

        def walk(v, mine):
            if isinstance(v, (tuple, list)):
                if len(v) == 2 and v[0] == "r":
                    if v[1] not in mine:
                        r.add(v[1])
                    return
                for x in v:
                    walk(x, mine)
        for b in f.blocks:
            mine = set()
            for i in b.ins:
                walk(i.a, mine if i.op != "phi" else ())
                if i.dst is not None:
                    mine.add(i.dst)
                if i.op == "phi":
                    r.add(i.dst)
        self.pw_memo[k] = r
        return r

    def dropregs(self, st):
        """forget the registers that are not used any more"""
        for f in st.frames:
            keep = self.crossregs(f.fn)
            k = ("later", f.fn.name, f.blk.name, f.idx)
            later = self.pw_memo.get(k)
            if later is None:
                later = self.pw_memo[k] = set()

                def walk(v):
                    if isinstance(v, (tuple, list)):
                        if len(v) == 2 and v[0] == "r":
                            later.add(v[1])
                            return
                        for x in v:
                            walk(x)
                for i in f.blk.ins[f.idx:]:
                    walk(i.a)
            f.regs = {r: v for r, v in f.regs.items() if r in keep or r in later}

    def blockno(self, k):
        f = self.m.funcs[k[0]]
        d = self.pw_memo.get(("no", k[0]))
        if d is None:
            d = self.pw_memo[("no", k[0])] = {b.name: i for i, b in enumerate(f.blocks)}
        return d[k[1]]

    def goto(self, st, target, region, work, outs):
        """transfer control inside the current frame"""
        fr = st.fr
        fn = fr.fn
        cur = fr.blk.name
        if region.body is not None and len(st.frames) == region.depth:
            if target not in region.body:
                fr.prev = cur
                fr.blk, fr.idx = fn.bmap[target], 0
                outs.exit.append(st)
                return False
            if target == region.header:
                fr.prev = cur
                fr.blk, fr.idx = fn.bmap[target], 0
                self.phis(st)
                outs.back.append(st)
                return False
        fr.prev = cur
        fr.blk, fr.idx = fn.bmap[target], 0
        if target in fn.loops and cur not in fn.loops[target]:
            outs.pending.setdefault((fn.name, target), []).append(st)
            return False
        self.phis(st)
        if ("failed" in st.g or self.h.joins) and self.preds(fn, target) > 1:
            # nothing but the clean-up is left: meet again at joins
            outs.pending.setdefault((fn.name, target, 1), []).append(st)
            return False
        return True

    def preds(self, fn, target):
        k = ("preds", fn.name)
        d = self.pw_memo.get(k)
        if d is None:
            d = self.pw_memo[k] = {}
            for b in fn.blocks:
                for t in set(self.loops.succ(b)):
                    d[t] = d.get(t, 0) + 1
        return d.get(target, 0)

    def enter(self, st, t, region, work, outs):
        self.phis(st)
        o = self.loops.handle(st, t)
        outs.ret += o.ret
        fn = st.fr.fn if st.frames else None
        for s in o.exit:
            t2 = s.fr.blk.name
            if region.body is not None and len(s.frames) == region.depth:
                if t2 not in region.body:
                    outs.exit.append(s)
                    continue
                if t2 == region.header:
                    self.phis(s)
                    outs.back.append(s)
                    continue
            if t2 in s.fr.fn.loops and s.fr.prev not in s.fr.fn.loops[t2]:
                outs.pending.setdefault((s.fr.fn.name, t2), []).append(s)
                continue
            self.phis(s)
            work.append(s)

    def phis(self, st):
        fr = st.fr
        new = []
        for ins in fr.blk.ins:
            if ins.op != "phi":
                break
            for v, lab in zip(ins.a, ins.x):
                if lab == fr.prev or (fr.prev == "%entry0" and lab not in fr.fn.bmap):
                    new.append((ins.dst, self.val(st, ins.ty, v)))
                    break
            else:
                raise Broken("phi without edge")
        for d, v in new:
            fr.regs[d] = v
        fr.idx = len(new)

    def path(self, st, region, work, outs):
        while True:
            if st.dead:
                return
            fr = st.fr
            ins = fr.blk.ins[fr.idx]
            self.stats["instructions"] += 1
            if self.stats["instructions"] > self.limit:
                raise Broken("analysis budget exceeded")
            op = ins.op
            if op == "jmp":
                if not self.goto(st, ins.x[0], region, work, outs):
                    return
                continue
            if op == "br":
                res = self.branch(st, ins)
                if region.body is not None and len(st.frames) == region.depth and \
                        ins.id in self.exit_brs(fr.fn, region):
                    region.log.append((ins, self.cmp_ops(st, ins)))
                if not res:
                    return
                if len(res) > 1:
                    loc = self.where(ins)
                    for s, t in res:
                        s.trail = s.trail + ("%s %s" % (loc, "T" if t == ins.x[0] else "F"),)
                        if len(s.trail) > 60:
                            s.trail = s.trail[-50:]
                    self.stats["paths"] += len(res) - 1
                for s, t in res[1:]:
                    if self.goto(s, t, region, work, outs):
                        work.append(s)
                st, t = res[0]
                if not self.goto(st, t, region, work, outs):
                    return
                continue
            if op == "switch":
                res = self.switch(st, ins)
                if not res:
                    return
                self.stats["paths"] += len(res) - 1
                for s, t in res[1:]:
                    if self.goto(s, t, region, work, outs):
                        work.append(s)
                st, t = res[0]
                if not self.goto(st, t, region, work, outs):
                    return
                continue
            if op == "ret":
                v = self.val(st, ins.ty, ins.a[0]) if ins.a else None
                if self.copies:
                    self.texts(st)
                outs.ret.append((st, v))
                return
            if op == "unreachable":
                return
            res = self.step(st, ins)
            # res: list of (state, value)
            if not res:
                return
            for s, v in res:
                if ins.dst is not None:
                    s.fr.regs[ins.dst] = v
                s.fr.idx += 1
            for s, _ in res[1:]:
                work.append(s)
            st = res[0][0]

    def exit_brs(self, fn, region):
        """branches that decide whether a loop is left, also through && and ||"""
        k = (fn.name, region.header)
        r = self.exits.get(k)
        if r is None:
            r = self.exits[k] = set()
            todo = []
            for n in region.body:
                t = fn.bmap[n].ins[-1]
                if t.op == "br" and (t.x[0] not in region.body or t.x[1] not in region.body):
                    r.add(t.id)
                    todo.append((fn.bmap[n], t.a[0]))
            while todo:
                b, c = todo.pop()
                for i in b.ins:
                    if i.op == "phi" and c == ("r", i.dst):
                        for v, lab in zip(i.a, i.x):
                            q = fn.bmap.get(lab)
                            if q is None or lab not in region.body:
                                continue
                            if v[0] == "c" and q.ins[-1].op == "br":
                                r.add(q.ins[-1].id)
                            elif v[0] == "r":
                                todo.append((q, v))
        return r

    def cmp_ops(self, st, ins):
        """operands of the comparison feeding a branch (for loop policy)"""
        v = ins.a[0]
        if v[0] != "r":
            return None
        for b in (ins.blk,):
            for i in b.ins:
                if i.dst == v[1] and i.op == "icmp":
                    try:
                        x, y = self.val(st, i.x[1], i.a[0]), self.val(st, i.x[1], i.a[1])
                        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o:
                            return (x.off, y.off)
                        return (x, y)
                    except Broken:
                        return None
        return None

    def branch(self, st, ins):
        self.branch_sites.add(ins.id)
        c = self.val(st, ("i", 1), ins.a[0])
        if c is UNDEF:
            self.find(st, "undef", ins, "branch on an uninitialised value")
            s2 = st.copy()
            return [(st, ins.x[0]), (s2, ins.x[1])]
        if isinstance(c, int):
            return [(st, ins.x[0] if c & 1 else ins.x[1])]
        if isinstance(c, FV):
            m = 0
            for i, x in enumerate(c.t):
                if x & 1:
                    m |= 1 << i
            return [(s, ins.x[0] if t else ins.x[1])
                    for s, t in self.split_mask(st, c.a, m)]
        if isinstance(c, Lin):
            return [(s, ins.x[1] if t else ins.x[0])
                    for s, t in self.split_eq(st, c)]
        raise Broken("branch on %r" % (c,))

    def switch(self, st, ins):
        self.branch_sites.add(ins.id)
        d, cases, ty = ins.x
        v = self.val(st, ty, ins.a[0])
        if v is UNDEF:
            self.find(st, "undef", ins, "switch on an uninitialised value")
            return []
        cm = {wrapc(c, ty[1]): l for c, l in cases}
        if isinstance(v, int):
            return [(st, cm.get(v, d))]
        if isinstance(v, FV):
            m = self.mask(st, v.a)
            by = {}
            for i in range(self.fvn[v.a]):
                if m >> i & 1:
                    # one successor per switch value keeps the values apart
                    # only where the targets differ
                    by.setdefault(cm.get(v.t[i], d), 0)
                    by[cm.get(v.t[i], d)] |= 1 << i
            out = []
            items = list(by.items())
            for l, mm in items[1:]:
                s = st.copy()
                s.masks[v.a] = mm
                out.append((s, l))
            l, mm = items[0]
            st.masks[v.a] = mm
            out.append((st, l))
            for s, l in out:
                if len(items) > 1:
                    s.trail = s.trail + ("%s switch" % self.where(ins),)
            return out
        out, pend = [], [st]
        for c, l in cm.items():
            nxt = []
            for s in pend:
                for s2, t in self.split_eq(s, sub(v, c)):
                    if t:
                        out.append((s2, l))
                    else:
                        nxt.append(s2)
            pend = nxt
        return out + [(s, d) for s in pend]

    # ------------------------------------------------------------ calls
    def call_fn(self, st, name, args, ins):
        """inline an internal function -> [(state, value)]"""
        f = self.m.funcs[name]
        self.funcs_seen.add(name)
        self.stats["calls"] += 1
        if len(st.frames) > 40:
            raise Broken("call depth (recursion?) at " + name)
        pw = self.pointwise(st, f, args)
        if pw is not None:
            return [(st, pw)]
        fr = Frame.__new__(Frame)
        fr.fn, fr.regs, fr.allocas = f, {}, []
        fr.blk, fr.idx, fr.prev, fr.va, fr.call = f.blocks[0], 0, None, None, ins
        for (t, n), a in zip(f.params, args):
            fr.regs[n] = a
        st.frames.append(fr)
        depth = len(st.frames)
        region = Region(depth)
        work_state = st
        if f.blocks[0].name in f.loops:
            raise Broken("entry block is a loop head")
        outs = self.run([work_state], region)
        res = []
        for s, v in outs.ret:
            if len(s.frames) != depth:
                raise Broken("frame mismatch")
            for a in s.frames[-1].allocas:
                s.objs.pop(a, None)
            s.frames.pop()
            res.append((s, v))
        return self.merge(res)

    def pointwise(self, st, f, args):
        """int-only functions on one finite-domain argument"""
        if not args or any(t[0] != "i" for t, _ in f.params):
            return None
        if f.ret[0] != "i":
            return None
        fv = None
        for a in args:
            if isinstance(a, FV):
                if fv is not None and fv != a.a:
                    return None
                fv = a.a
            elif not isinstance(a, int):
                return None
        if not self.pure_scalar(f):
            return None
        if fv is None:
            return self.pw_eval(f, tuple(args))
        m = self.mask(st, fv)
        tab = []
        for i in range(self.fvn[fv]):
            if m >> i & 1:
                r = self.pw_eval(f, tuple(a.t[i] if isinstance(a, FV) else a for a in args))
                if r is None:
                    return None
                tab.append(r)
            else:
                tab.append(0)
        v = FV(fv, tuple(tab))
        return self.nrm(st, v)

    def pure_scalar(self, f, seen=None):
        """touches no memory but its own locals"""
        k = ("pure", f.name)
        if k in self.pw_memo:
            return self.pw_memo[k]
        self.pw_memo[k] = False
        ok = True
        loc = {i.dst for b in f.blocks for i in b.ins if i.op == "alloca"}
        for b in f.blocks:
            for i in b.ins:
                if i.op == "store":
                    if i.a[1][0] != "r" or i.a[1][1] not in loc or \
                            (i.a[0][0] == "r" and i.a[0][1] in loc):
                        ok = False
                elif i.op == "load":
                    if not (i.a[0][0] == "r" and i.a[0][1] in loc):
                        # ctype tables and constant globals are fine
                        if i.a[0][0] == "g":
                            g = self.m.globals.get(i.a[0][1][1:])
                            if not (g and g[2]):
                                ok = False
                elif i.op == "getelementptr":
                    if i.a[0][0] == "g":
                        g = self.m.globals.get(i.a[0][1][1:])
                        if not (g and g[2]):
                            ok = False
                    elif i.a[0][0] == "gep":
                        ok = False
                elif i.op == "call":
                    c = i.a[0]
                    if c[0] != "g":
                        ok = False
                    elif c[1][1:] in self.m.funcs:
                        if not self.pure_scalar(self.m.funcs[c[1][1:]]):
                            ok = False
                    elif c[1][1:] not in self.pure_ext:
                        ok = False
        self.pw_memo[k] = ok
        return ok

    def pw_eval(self, f, args):
        k = (f.name, args)
        if k in self.pw_memo:
            return self.pw_memo[k]
        s = State()
        fr = Frame.__new__(Frame)
        fr.fn, fr.regs, fr.allocas = f, {}, []
        fr.blk, fr.idx, fr.prev, fr.va, fr.call = f.blocks[0], 0, None, None, None
        for (t, n), a in zip(f.params, args):
            fr.regs[n] = a
        s.frames.append(fr)
        h, self.h_save = self.h, self.h
        nfind = len(self.findings)
        outs = self.run([s], Region(1))
        r = None
        if len(outs.ret) == 1 and isinstance(outs.ret[0][1], int) and \
                not outs.ret[0][0].ev and len(self.findings) == nfind:
            r = outs.ret[0][1]
        self.pw_memo[k] = r
        self.funcs_seen.add(f.name)
        return r

    # ------------------------------------------------------------ merging
    def reach(self, st, extra=()):
        """objects reachable from the frames (in discovery order)"""
        order, seen, wl = [], set(), []

        def push(v):
            if isinstance(v, Ptr):
                if v.o not in seen:
                    seen.add(v.o)
                    wl.append(v.o)
            elif isinstance(v, PtrInt):
                push(v.p)
        for f in st.frames:
            for _, r in sorted(f.regs.items()):
                push(r)
            for a in f.allocas:
                if a not in seen:
                    seen.add(a)
                    wl.append(a)
        for v in extra:
            push(v)
        for k in sorted(st.g):
            push(st.g[k])
        for oid, o in st.objs.items():
            if o.kind in ("global", "root") and oid not in seen:
                seen.add(oid)
                wl.append(oid)
        i = 0
        while i < len(wl):
            o = st.objs.get(wl[i])
            i += 1
            if o is None or o.freed:
                continue
            for t in (o.ck or o.info())[1]:
                if t not in seen:
                    seen.add(t)
                    wl.append(t)
        return wl

    def collect(self, st, extra=(), ins=None):
        """drop unreachable objects; unreachable live heap objects are leaks"""
        order = self.reach(st, extra)
        live = set(order)
        for oid in list(st.objs):
            if oid in live:
                continue
            o = st.objs[oid]
            if o.kind == "heap" and not o.freed:
                self.find(st, "leak", o.site, "memory allocated here (%s) is lost" % o.name)
            if o.kind in ("file",) and not o.freed:
                self.find(st, "leak", o.site, "file %s is never closed" % o.name)
            if o.kind in ("heap", "stack", "str", "file"):
                del st.objs[oid]
        return order

    def canon(self, st, order, loose=False):
        # constants are the same everywhere
        full = order
        order = [o for o in order if o not in st.objs or st.objs[o].tag != "const"]
        rank = {o: i for i, o in enumerate(order)}

        def cv(v):
            if isinstance(v, Ptr):
                r = rank.get(v.o)
                if r is None:
                    r = ("const", v.o) if v.o in st.objs else -1
                return ("P", r, v.off)
            if isinstance(v, PtrInt):
                return ("PI",) + cv(v.p)
            return v
        k = []
        for f in st.frames:
            k.append((f.fn.name, f.blk.name, f.idx,
                      tuple((n, cv(v)) for n, v in sorted(f.regs.items()))))
        svs = []
        for oid in order:
            o = st.objs.get(oid)
            if o is None:
                k.append(None)
                continue
            a, tg = o.info(True) if loose else o.ck or o.info()
            k.append(a)
            if tg:
                k.append(tuple([rank[t] if t in rank else ("const", t) if t in st.objs else -1 for t in tg]))
        for oid in full:
            o = st.objs.get(oid)
            if o is not None and o.sv is not None:
                svs.append(o.sv)
        k.append(tuple((n, cv(v)) for n, v in sorted(st.g.items())))
        k.append(st.ev)
        for s in svs:
            q = st.svs.get(s)
            if q is not None:
                k.append((s, q.N, tuple(sorted(q.cells.items(), key=lambda x: x[0])),
                          tuple(q.sym), tuple(q.segs), q.parent))
        return tuple(k)

    def merge(self, res):
        """merge states after a call: equal states, and states that differ in
        the mask of one finite atom (return values become a table)"""
        if len(res) < 2:
            return res
        pre = {}
        for s, v in res:
            rk = v if not isinstance(v, (int, FV)) else "int"
            k = (s.ev, rk if not isinstance(rk, Ptr) else "ptr",
                 frozenset(s.iv.items()), frozenset(s.cons), frozenset(s.neq))
            pre.setdefault(k, []).append((s, v))
        out = []
        groups = {}
        for k, l in pre.items():
            if len(l) < 2:
                out += l
                continue
            for s, v in l:
                groups.setdefault((k, self.canon(s, self.collect(s, (v,)))), []).append((s, v))
        for k, l in groups.items():
            while l:
                s, v = l.pop()
                rest = []
                for s2, v2 in l:
                    m = self.merge2(s, v, s2, v2)
                    if m is None:
                        rest.append((s2, v2))
                    else:
                        v = m[0]
                        self.stats["merged"] += 1
                l = rest
                out.append((s, v))
        if self.h.bytemerge and len(out) > 1:
            out = self.merge_loose(out)
        return out

    def merge_loose(self, res):
        """states that differ in the mask of one finite atom and in bytes that
        are tables over it: one state with the tables joined (exact)"""
        groups, out = {}, []
        for s, v in res:
            order = self.reach(s, (v,))
            k = (s.ev, frozenset(s.iv.items()), frozenset(s.cons), frozenset(s.neq),
                 "int" if isinstance(v, (int, FV)) else v if not isinstance(v, Ptr) else "ptr",
                 self.canon(s, order, True))
            groups.setdefault(k, []).append((s, v, order))
        for l in groups.values():
            while l:
                s, v, order = l.pop()
                rest = []
                for s2, v2, order2 in l:
                    m = self.merge3(s, v, order, s2, v2, order2)
                    if m is None:
                        rest.append((s2, v2, order2))
                    else:
                        v = m[0]
                        self.stats["merged"] += 1
                l = rest
                out.append((s, v))
        return out

    def merge3(self, s, v, order, s2, v2, order2):
        diff = [a for a in set(s.masks) | set(s2.masks)
                if self.mask(s, a) != self.mask(s2, a)]
        if len(diff) != 1 or len(order) != len(order2):
            return None
        a = diff[0]
        m1, m2 = self.mask(s, a), self.mask(s2, a)
        if m1 & m2:
            return None

        def tab(x):
            if isinstance(x, int):
                return (x,) * self.fvn[a]
            if isinstance(x, FV) and x.a == a:
                return x.t
            return None

        def join(x, y):
            t1, t2 = tab(x), tab(y)
            if t1 is None or t2 is None:
                return None
            return FV(a, tuple(p if m1 >> i & 1 else q for i, (p, q) in enumerate(zip(t1, t2))))
        new = []
        for i, j in zip(order, order2):
            o, o2 = s.objs.get(i), s2.objs.get(j)
            if o is None or o2 is None or o is o2 or o.tag == "const":
                continue
            for x, (z, y) in o.cells.items():
                y2 = o2.cells[x][1]
                if isinstance(y, (int, FV)) and y != y2:
                    f = join(y, y2)
                    if f is None:
                        return None
                    new.append((i, x, z, f))
        if v != v2:
            v = join(v, v2)
            if v is None:
                return None
        s.masks[a] = m1 | m2
        for i, x, z, f in new:
            s.w(i).cells[x] = (z, f)
        return (v,)

    def merge2(self, s, v, s2, v2):
        diff = [a for a in set(s.masks) | set(s2.masks)
                if self.mask(s, a) != self.mask(s2, a)]
        if not diff:
            if v == v2:
                return (v,)
            return None
        if len(diff) > 1:
            return None
        a = diff[0]
        m1, m2 = self.mask(s, a), self.mask(s2, a)
        if m1 & m2 and v != v2:
            return None
        if v == v2 and not isinstance(v, FV):
            s.masks[a] = m1 | m2
            return (v,)

        def tab(x):
            if isinstance(x, int):
                return (x,) * self.fvn[a]
            if isinstance(x, FV) and x.a == a:
                return x.t
            return None
        t1, t2 = tab(v), tab(v2)
        if t1 is None or t2 is None or m1 & m2:
            return None
        s.masks[a] = m1 | m2
        return (FV(a, tuple(x if m1 >> i & 1 else y
                            for i, (x, y) in enumerate(zip(t1, t2)))),)

    # ------------------------------------------------------------ steps
    def step(self, st, ins):
        op = ins.op
        if op == "alloca":
            o = self.new_obj(st, "stack", self.m.size(ins.x), name=self.local_name(st, ins))
            if ins.a[0] is not None:
                n = self.val(st, ("i", 64), ins.a[0])
                if isinstance(n, FV):
                    n = self.tolin(st, n)
                if n is UNDEF or isinstance(n, PtrInt):
                    raise Broken("variable length array")
                o.size = scale(n, self.m.size(ins.x))
            o.site = ins
            st.fr.allocas.append(o.id)
            return [(st, Ptr(o.id, 0))]
        if op == "load":
            p = self.val(st, PTR, ins.a[0])
            return [(s, self.nrm(s, v) if isinstance(v, (Lin, FV)) else v)
                    for s, v in self.load(st, p, ins.ty, ins)]
        if op == "store":
            v = self.val(st, ins.ty, ins.a[0])
            p = self.val(st, PTR, ins.a[1])
            return [(s, None) for s in self.store(st, p, v, self.m.size(ins.ty), ins)]
        if op == "getelementptr":
            b = self.val(st, PTR, ins.a[0])
            off = self.gep_off(st, ins.x, [(t, self.val(st, t, v)) for t, v in ins.a[1]])
            if b is NULL:
                if off == 0:
                    return [(st, NULL)]
                return [(st, Ptr(-1, off))] if False else [(st, NULL)]
            if b is UNDEF:
                return [(st, UNDEF)]
            if off is UNDEF:
                return [(st, Ptr(b.o, UNDEF))]
            if isinstance(b, Fn):
                raise Broken("arithmetic on a function pointer")
            if isinstance(off, FV) or isinstance(b.off, FV):
                if b.off == 0:
                    return [(st, Ptr(b.o, off))]
                if isinstance(b.off, FV) and isinstance(off, int):
                    return [(st, Ptr(b.o, FV(b.off.a, tuple(x + off for x in b.off.t))))]
                if isinstance(b.off, int):
                    return [(st, Ptr(b.o, FV(off.a, tuple(x + b.off for x in off.t))))]
                return [(st, Ptr(b.o, add(self.tolin(st, b.off), self.tolin(st, off))))]
            return [(st, Ptr(b.o, add(b.off, off)))]
        if op == "icmp":
            return self.icmp(st, ins)
        if op == "fcmp":
            return self.fcmp(st, ins)
        if op in ("sext", "zext", "trunc"):
            return self.cast(st, ins)
        if op in ("bitcast", "freeze"):
            return [(st, self.val(st, ins.x or ins.ty, ins.a[0]))]
        if op == "ptrtoint":
            v = self.val(st, PTR, ins.a[0])
            return [(st, 0 if v is NULL else v if v is UNDEF else PtrInt(v))]
        if op == "inttoptr":
            v = self.val(st, ins.x, ins.a[0])
            if isinstance(v, PtrInt):
                return [(st, v.p)]
            if v == 0:
                return [(st, NULL)]
            raise Broken("integer turned into a pointer at " + self.where(ins))
        if op == "select":
            c = self.val(st, ("i", 1), ins.a[0])
            out = []
            if isinstance(c, int):
                cs = [(st, bool(c & 1))]
            elif isinstance(c, FV):
                a = self.val(st, ins.ty, ins.a[1])
                b = self.val(st, ins.ty, ins.a[2])
                if isinstance(a, int) and isinstance(b, int):
                    return [(st, FV(c.a, tuple(a if x & 1 else b for x in c.t)))]
                m = sum(1 << i for i, x in enumerate(c.t) if x & 1)
                cs = self.split_mask(st, c.a, m)
            else:
                raise Broken("select on %r" % (c,))
            for s, t in cs:
                out.append((s, self.val(s, ins.ty, ins.a[1] if t else ins.a[2])))
            return out
        if op == "call":
            return self.call(st, ins)
        if op in ("sitofp", "uitofp"):
            v = self.val(st, ins.x, ins.a[0])
            if isinstance(v, FV):
                v = self.tolin(st, v)
            return [(st, Flt("int", v) if v is not UNDEF else UNDEF)]
        if op in ("fptosi", "fptoui"):
            v = self.val(st, ins.x, ins.a[0])
            if isinstance(v, Flt) and v.k[0] == "int":
                return [(st, self.fit(st, v.k[1], ins.ty[1], True, ins))]
            if isinstance(v, Flt) and v.k[0] == "sqrt":
                return [(st, self.isqrt(st, v.k[1]))]
            return [(st, self.var("float", *srange(ins.ty[1])))]
        if op in ("fpext", "fptrunc", "fneg"):
            v = self.val(st, ins.ty, ins.a[0])
            return [(st, v if op != "fneg" else Flt("top"))]
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = (self.val(st, ins.ty, x) for x in ins.a)
            if op in ("fadd", "fsub", "fmul") and isinstance(a, Flt) and isinstance(b, Flt) \
                    and a.k[0] == "int" and b.k[0] == "int":
                if op == "fmul":
                    if isinstance(b.k[1], int):
                        return [(st, Flt("int", scale(a.k[1], b.k[1])))]
                    if isinstance(a.k[1], int):
                        return [(st, Flt("int", scale(b.k[1], a.k[1])))]
                    return [(st, Flt("top"))]
                return [(st, Flt("int", add(a.k[1], b.k[1], 1 if op == "fadd" else -1)))]
            return [(st, Flt("top"))]
        if ins.ty is not None and ins.ty[0] == "i":
            return self.arith(st, ins)
        raise Broken("instruction %s at %s" % (op, self.where(ins)))

    def local_name(self, st, ins):
        return "local %s of %s" % (ins.dst[1:], st.fr.fn.name)

    def isqrt(self, st, x):
        if isinstance(x, int):
            from math import isqrt
            return isqrt(x) if x >= 0 else 0
        return self.dvar("isqrt", x, name="isqrt", dom=(0, INF))

    def fcmp(self, st, ins):
        a, b = (self.val(st, ins.x[1], x) for x in ins.a)
        pred = ins.x[0]

        def asint(f):
            if isinstance(f, Flt):
                if f.k[0] == "int":
                    return f.k[1]
                if f.k[0] == "floor":
                    return self.isqrt(st, f.k[1])
            return None
        x, y = asint(a), asint(b)
        if isinstance(a, Flt) and isinstance(b, Flt):
            # comparing an integer with a square root: same as with its floor
            # for <=, > (i <= sqrt(x) iff i <= floor(sqrt(x)))
            if y is None and b.k[0] == "sqrt" and x is not None and pred in ("ole", "ule", "ogt", "ugt"):
                y = self.isqrt(st, b.k[1])
            if x is None and a.k[0] == "sqrt" and y is not None and pred in ("oge", "uge", "olt", "ult"):
                x = self.isqrt(st, a.k[1])
        if x is not None and y is not None:
            p = pred[1:]
            return self.cmp_lin(st, {"le": "sle", "lt": "slt", "ge": "sge", "gt": "sgt",
                                     "eq": "eq", "ne": "ne"}[p], x, y)
        s2 = st.copy()
        return [(st, 1), (s2, 0)]

    def cmp_lin(self, st, pred, a, b):
        if pred in ("eq", "ne"):
            return [(s, int(t == (pred == "eq"))) for s, t in self.split_eq(st, sub(a, b))]
        e = {"sgt": sub(sub(a, b), 1), "sge": sub(a, b),
             "slt": sub(sub(b, a), 1), "sle": sub(b, a)}[pred]
        out = []
        for s, t in self.split_ge(st, e):
            if isinstance(e, int) or self.feasible(s, e):
                out.append((s, int(t)))
        return out

    def icmp(self, st, ins):
        pred, ty = ins.x
        a = self.val(st, ty, ins.a[0])
        b = self.val(st, ty, ins.a[1])
        if a is UNDEF or b is UNDEF:
            self.find(st, "undef", ins, "comparison of an uninitialised value")
            s2 = st.copy()
            return [(st, 1), (s2, 0)]
        if ty == PTR or isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.icmp_ptr(st, pred, a, b, ins)
        bits = ty[1]
        if pred[0] == "u":
            out = []
            for s, x in self.unsigned(st, a, bits):
                for s2, y in self.unsigned(s, b, bits):
                    out += self.icmp2(s2, "s" + pred[1:], x, y)
            return out
        return self.icmp2(st, pred, a, b)

    OPS = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y,
           "sgt": lambda x, y: x > y, "sge": lambda x, y: x >= y,
           "slt": lambda x, y: x < y, "sle": lambda x, y: x <= y}

    def icmp2(self, st, pred, a, b):
        f = self.OPS[pred]
        if isinstance(a, int) and isinstance(b, int):
            return [(st, int(f(a, b)))]
        if isinstance(a, FV) and isinstance(b, int):
            return [(st, self.nrm(st, FV(a.a, tuple(int(f(x, b)) for x in a.t))))]
        if isinstance(b, FV) and isinstance(a, int):
            return [(st, self.nrm(st, FV(b.a, tuple(int(f(a, x)) for x in b.t))))]
        if isinstance(a, FV) and isinstance(b, FV):
            if a.a == b.a:
                return [(st, self.nrm(st, FV(a.a, tuple(int(f(x, y)) for x, y in zip(a.t, b.t)))))]
            va, vb = self.fvals(st, a.a, a.t), self.fvals(st, b.a, b.t)
            rs = {bool(f(x, y)) for x in va for y in vb}
            if len(rs) == 1:
                return [(st, int(rs.pop()))]
            out = []
            small, other, sw = (a, b, False) if len(va) <= len(vb) else (b, a, True)
            for s, k in self.split_vals(st, small):
                out += self.icmp2(s, pred, other, k) if sw else self.icmp2(s, pred, k, other)
            return out
        if not isinstance(a, (int, Lin, FV)) or not isinstance(b, (int, Lin, FV)):
            raise Broken("comparison of %r and %r" % (a, b))
        return self.cmp_lin(st, pred, self.tolin(st, a), self.tolin(st, b))

    def icmp_ptr(self, st, pred, a, b, ins):
        if isinstance(a, PtrInt):
            a = a.p
        if isinstance(b, PtrInt):
            b = b.p
        a = NULL if a == 0 and isinstance(a, int) else a
        b = NULL if b == 0 and isinstance(b, int) else b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            p = pred if pred in ("eq", "ne") else "s" + pred[1:]
            return self.icmp2(st, p, a.off, b.off)
        if pred in ("eq", "ne"):
            same = a == b if not (isinstance(a, Ptr) and isinstance(b, Ptr)) else False
            return [(st, int(same == (pred == "eq")))]
        if a is NULL and b is NULL:
            return [(st, int(pred[1:] in ("ge", "le")))]
        self.find(st, "mem", ins, "ordering comparison of unrelated pointers")
        s2 = st.copy()
        return [(st, 1), (s2, 0)]

    def cast(self, st, ins):
        v = self.val(st, ins.x, ins.a[0])
        fb, tb = ins.x[1], ins.ty[1]
        if v is UNDEF or isinstance(v, PtrInt):
            if isinstance(v, PtrInt) and ins.op == "trunc":
                raise Broken("pointer truncated")
            return [(st, v)]
        if ins.op == "sext":
            if fb == 1:
                if isinstance(v, int):
                    return [(st, -v)]
                return [(st, FV(v.a, tuple(-x for x in v.t)))]
            return [(st, v)]
        if ins.op == "zext":
            if fb == 1:
                return [(st, v)]
            if isinstance(v, int):
                return [(st, v % (1 << fb))]
            if isinstance(v, FV):
                return [(st, FV(v.a, tuple(x % (1 << fb) for x in v.t)))]
            if self.entails(st, v):
                return [(st, v)]
            return [(st, self.mod(st, v, 1 << fb))]
        # trunc
        if tb == 1:
            if isinstance(v, int):
                return [(st, v & 1)]
            if isinstance(v, FV):
                return [(st, FV(v.a, tuple(x & 1 for x in v.t)))]
            return [(st, self.mod(st, v, 2))]
        if isinstance(v, int):
            return [(st, wrapc(v, tb))]
        if isinstance(v, FV):
            return [(st, FV(v.a, tuple(wrapc(x, tb) for x in v.t)))]
        return [(st, self.fit(st, v, tb))]

    def arith(self, st, ins):
        op, bits = ins.op, ins.ty[1]
        a = self.val(st, ins.ty, ins.a[0])
        b = self.val(st, ins.ty, ins.a[1])
        nsw = "nsw" in ins.x
        if a is UNDEF or b is UNDEF:
            self.find(st, "undef", ins, "arithmetic on an uninitialised value")
            return [(st, self.var("undef", *srange(bits)))]
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                if a.p.o == b.p.o:
                    return [(st, sub(self.tolin(st, a.p.off), self.tolin(st, b.p.off)))]
                self.find(st, "mem", ins, "difference of pointers into different objects")
                return [(st, self.var("ptrdiff", *srange(64)))]
            if op in ("add", "sub") and isinstance(a, PtrInt) and isinstance(b, (int, Lin)):
                return [(st, PtrInt(Ptr(a.p.o, add(a.p.off, b, 1 if op == "add" else -1))))]
            raise Broken("pointer arithmetic via integers at " + self.where(ins))
        if op == "xor" and bits == 1:
            if isinstance(a, int) and isinstance(b, int):
                return [(st, a ^ b)]
            if isinstance(b, int) and isinstance(a, FV):
                return [(st, FV(a.a, tuple((x ^ b) & 1 for x in a.t)))]
            if isinstance(a, int) and isinstance(b, FV):
                return [(st, FV(b.a, tuple((x ^ a) & 1 for x in b.t)))]
        # pointwise on finite atoms
        if isinstance(a, (int, FV)) and isinstance(b, (int, FV)):
            if isinstance(a, FV) and isinstance(b, FV) and a.a != b.a:
                va, vb = self.fvals(st, a.a, a.t), self.fvals(st, b.a, b.t)
                if op in ("add", "sub"):
                    return [(st, self.fit(st, add(self.tolin(st, a), self.tolin(st, b),
                                                  1 if op == "add" else -1), bits, nsw, ins))]
                out = []
                for s, k in self.split_vals(st, a if len(va) <= len(vb) else b):
                    x, y = (k, b) if len(va) <= len(vb) else (a, k)
                    out += self.arith_pw(s, ins, op, bits, x, y, nsw)
                return out
            return self.arith_pw(st, ins, op, bits, a, b, nsw)
        a0, b0 = a, b
        a, b = self.tolin(st, a), self.tolin(st, b)
        if op in ("add", "sub"):
            return [(st, self.fit(st, add(a, b, 1 if op == "add" else -1), bits, nsw, ins))]
        if op == "mul":
            if isinstance(a, int) or isinstance(b, int):
                e = scale(b, a) if isinstance(a, int) else scale(a, b)
                return [(st, self.fit(st, e, bits, nsw, ins))]
            for x, y, y0 in ((a, b, b0), (b, a, a0)):
                al = self.split_vals(st, y0 if isinstance(y0, FV) else y, 20)
                if al is not None:
                    return [(s, self.fit(s, scale(x, k), bits, nsw, ins)) for s, k in al]
            if decide_same(a, b) and self.entails(st, a):
                q = self.dvar("sq", a, name="sq", dom=(0, INF))
                h = self.bounds(st, a)[1]
                if h != INF:
                    l = 0
                    while h - l > 1 and h * h >= 1 << (bits - 1):
                        k = int(l + h) // 2
                        if self.entails(st, sub(k, a)):
                            h = k
                        else:
                            l = k
                    self.assume_ge(st, sub(int(h) ** 2, q))
                return [(st, self.fit(st, q, bits, nsw, ins))]
            if nsw:
                (l1, h1), (l2, h2) = self.bounds(st, a), self.bounds(st, b)
                l, h = srange(bits)
                if any(x in (INF, -INF) or y in (INF, -INF) or not l <= x * y <= h
                       for x in (l1, h1) for y in (l2, h2)):
                    self.find(st, "overflow", ins, "signed integer overflow")
            return [(st, self.topint(st, a, b, op, bits))]
        if op == "shl":
            if isinstance(b, int):
                return [(st, self.fit(st, scale(a, 1 << b), bits, nsw, ins))]
            raise Broken("shift by a variable at " + self.where(ins))
        if op in ("ashr", "lshr"):
            if not isinstance(b, int):
                raise Broken("shift by a variable at " + self.where(ins))
            if op == "ashr" or self.entails(st, a):
                return [(st, self.div(st, a, 1 << b))]
            return [(s, self.div(s, x, 1 << b)) for s, x in self.unsigned(st, a, bits)]
        if op in ("sdiv", "udiv", "srem", "urem"):
            return self.divrem(st, ins, op, bits, a, b)
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    r = self.andc(st, x, y, bits)
                    if r is not None:
                        return [(st, r)]
            return [(st, self.topint(st, a, b, op, bits))]
        if op in ("or", "xor"):
            for x, y in ((a, b), (b, a)):
                if y == 0:
                    return [(st, x)]
                if y == -1 and op == "xor":
                    return [(st, sub(-1, x))]
                if op == "or" and self.disjoint(st, x, y):
                    return [(st, self.fit(st, add(x, y), bits))]
            return [(st, self.topint(st, a, b, op, bits))]
        raise Broken("arithmetic " + op)

    def topint(self, st, a, b, op, bits):
        lo, hi = srange(bits)
        if op == "and":
            for x in (a, b):
                l, h = self.interval(st, x)
                if l >= 0:
                    lo, hi = 0, min(hi, h)
        elif op in ("or", "xor") and self.interval(st, a)[0] >= 0 and \
                self.interval(st, b)[0] >= 0:
            h = max(self.interval(st, a)[1], self.interval(st, b)[1])
            lo = 0
            if h != INF:
                hi = min(hi, (1 << int(h).bit_length()) - 1)
        return self.dvar(op, a, b, bits, name=op, dom=(lo, hi))

    def disjoint(self, st, x, y):
        """x a multiple of 2^k and 0 <= y < 2^k (either way round)"""
        for p, q in ((x, y), (y, x)):
            l, h = self.bounds(st, q)
            if l < 0 or h == INF:
                continue
            k = 1 << int(h).bit_length()
            if isinstance(p, int):
                if p % k == 0:
                    return True
            elif p.c % k == 0 and all(c % k == 0 for _, c in p.t):
                return True
        return False

    def andc(self, st, x, m, bits):
        """x & constant"""
        mu = m % (1 << bits)
        if mu == 0:
            return 0
        # contiguous low mask
        if mu & (mu + 1) == 0:
            k = mu + 1
            if k == 1 << bits:
                return x
            return self.mod(st, x, k)
        low = mu & -mu
        if (mu // low) & (mu // low + 1) == 0:
            # contiguous field
            top = mu + low
            hi = self.mod(st, x, top) if top < (1 << bits) else x
            return scale(self.div(st, hi, low), low)
        return None

    def divrem(self, st, ins, op, bits, a, b):
        d = self.decide_eq(st, b)
        if d is not False:
            self.find(st, "div0", ins, "division by zero not excluded")
            if not self.assume_ne(st, b):
                return []
        out = []
        if op[0] == "u":
            al = [(s2, x, y) for s, x in self.unsigned(st, a, bits)
                  for s2, y in self.unsigned(s, b, bits)]
        else:
            al = [(st, a, b)]
        for s, x, y in al:
            if isinstance(y, Lin):
                y2 = self.nrm(s, y)
                y = y2
            if isinstance(y, Lin):
                # symbolic modulus
                if not self.feasible(s, y):
                    continue                # contradictory state
                if op in ("urem", "srem") and self.entails(s, sub(y, 1)) and \
                        (op == "urem" or self.entails(s, x)):
                    if self.entails(s, x) and self.entails(s, sub(sub(y, 1), x)):
                        out.append((s, x))
                    elif self.entails(s, x) and self.entails(s, sub(sub(scale(y, 2), 1), x)):
                        for s2, t in self.split_ge(s, sub(sub(y, 1), x)):
                            out.append((s2, x if t else sub(x, y)))
                    else:
                        out.append((s, self.dvar("rem", L(x), y, name="rem")))
                    continue
                if op in ("srem",):
                    h = self.interval(s, y)[1]
                    lo, hi = srange(bits)
                    r = self.dvar("srem", L(x), y, name="srem", dom=(lo, hi))
                    out.append((s, r))
                    continue
                if op in ("sdiv", "udiv") and isinstance(x, (int, Lin)):
                    # q with  q*y <= x < (q+1)*y  (x >= 0, y >= 1)
                    if self.entails(s, x) and self.entails(s, sub(y, 1)):
                        r = self.dvar("quot", L(x), y, name="quot", dom=(0, INF))
                        self.assume_ge(s, sub(x, r))
                        out.append((s, r))
                        continue
                out.append((s, self.var("quot", *srange(bits))))
                continue
            if y < 0:
                raise Broken("division by a negative constant")
            for s2, t in self.split_ge(s, x) if op[0] == "s" else [(s, True)]:
                if op in ("sdiv", "udiv"):
                    r = self.div(s2, x, y) if t else neg(self.div(s2, neg(x), y))
                else:
                    r = self.mod(s2, x, y) if t else neg(self.mod(s2, neg(x), y))
                out.append((s2, r))
        return out

    def arith_two(self, st, x, y):
        """x - y for byte values -> [(state, int or FV)]"""
        if isinstance(x, int) and isinstance(y, int):
            return [(st, x - y)]
        if isinstance(x, FV) and isinstance(y, FV) and x.a != y.a:
            out = []
            for s, k in self.split_vals(st, y):
                out.append((s, self.nrm(s, FV(x.a, tuple(v - k for v in x.t)))))
            return out
        a = x.a if isinstance(x, FV) else y.a
        n = self.fvn[a]
        tx = x.t if isinstance(x, FV) else (x,) * n
        ty = y.t if isinstance(y, FV) else (y,) * n
        return [(st, self.nrm(st, FV(a, tuple(p - q for p, q in zip(tx, ty)))))]

    def arith_pw(self, st, ins, op, bits, a, b, nsw):
        at = a.a if isinstance(a, FV) else b.a if isinstance(b, FV) else None
        m = self.mask(st, at) if at else 1
        n = self.fvn[at] if at else 1
        tab = []
        for i in range(n):
            if not m >> i & 1:
                tab.append(0)
                continue
            x = a.t[i] if isinstance(a, FV) else a
            y = b.t[i] if isinstance(b, FV) else b
            tab.append(self.op_c(st, ins, op, bits, x, y, nsw))
        if at is None:
            return [(st, tab[0])]
        return [(st, self.nrm(st, FV(at, tuple(tab))))]

    def op_c(self, st, ins, op, bits, x, y, nsw):
        ux, uy = x % (1 << bits), y % (1 << bits)
        if op in ("add", "sub", "mul"):
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            if nsw and not srange(bits)[0] <= r <= srange(bits)[1]:
                self.find(st, "overflow", ins, "signed integer overflow")
        elif op in ("sdiv", "srem", "udiv", "urem"):
            if y == 0:
                self.find(st, "div0", ins, "division by zero")
                return 0
            if op == "sdiv":
                r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            elif op == "srem":
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            else:
                r = ux // uy if op == "udiv" else ux % uy
        elif op == "and":
            r = ux & uy
        elif op == "or":
            r = ux | uy
        elif op == "xor":
            r = ux ^ uy
        elif op in ("shl", "lshr", "ashr"):
            if uy >= bits:
                self.find(st, "overflow", ins, "shift by the width of the type or more")
                return 0
            r = ux << uy if op == "shl" else ux >> uy if op == "lshr" else x >> uy
        else:
            raise Broken("arithmetic " + op)
        if bits == 1:
            return r & 1
        return wrapc(r, bits)

    def call(self, st, ins):
        c, args = ins.a
        if c[0] == "g":
            name = c[1][1:].strip('"')
        else:
            f = self.val(st, PTR, c)
            if f is UNDEF or f is NULL:
                self.find(st, "null" if f is NULL else "undef", ins, "call through a bad function pointer")
                return []
            if isinstance(f, Ptr):
                raise Broken("call of an object at " + self.where(ins))
            name = f.n
        vals = []
        self.callsites.add((ins.id, name))
        vals = [self.val(st, t, v) for t, v in args]
        if name in self.contracts:
            self.funcs_seen.add(name)
            return self.contracts[name](self, st, vals, ins)
        if name in self.m.funcs:
            return self.call_fn(st, name, vals, ins)
        if name in self.ext:
            return self.ext[name](self, st, vals, ins)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return [(s, None) for s, _ in self.ext["memcpy"](self, st, vals, ins)]
        if name.startswith("llvm.memset"):
            return [(s, None) for s, _ in self.ext["memset"](self, st, vals, ins)]
        if name.startswith("llvm."):
            return [(st, None)]
        raise Broken("call of unmodelled function %s at %s" % (name, self.where(ins)))

    # convenience for harnesses -------------------------------------------
    def start(self, st, fname, args):
        """run a function from a harness -> [(state, value)]"""
        if fname not in self.m.funcs:
            raise Broken("function %s not found in the program" % fname)
        f = self.m.funcs[fname]
        if len(args) != len(f.params):
            raise Broken("%s: parameter list changed" % fname)
        base = Frame.__new__(Frame)
        base.fn, base.regs, base.allocas = f, {}, []
        base.blk, base.idx, base.prev, base.va, base.call = f.blocks[0], 0, None, None, None
        for i, a in enumerate(args):
            base.regs["arg%d" % i] = a
        st.frames.append(base)
        return self.call_fn(st, fname, list(args), None)
