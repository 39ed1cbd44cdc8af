"""The symbol table: insert, search, growth, construction and destruction, over
an arbitrary table.

The array of slots is opaque; reading a slot yields "empty" or an arbitrary
stored symbol.  A ghost record of the run of neighbouring slots visited so far
(cyclic, from its first slot on) carries what the proof needs:

* a symbol is only stored into the slot that was just seen to be empty, at the
  end of an unbroken run of occupied slots that begins at the name's home;
* "not found" is only answered at the end of such a run, each name in it having
  been compared;
* a new array receives, in the same way, every symbol of the old one.

With distinct names these are exactly the conditions under which an open
addressing table is a map.  The home of a name must be the same function of name
and table size wherever it is computed."""
from .base import Harness, MAXSRC, I8, PTR
from .dom import (Lin, FV, Ptr, PtrInt, NULL, UNDEF, L, add, sub, scale, neg, atoms_of)
from .engine import State
from .ir import Broken

MAXSYM = 1 << 27      # distinct names in 2^29 bytes: below 37+..+37^4 + 2^29/6
ROLES = ("A", "B")


def div8(x):
    if isinstance(x, int):
        return x // 8 if x % 8 == 0 else None
    if x.c % 8 or any(k % 8 for _, k in x.t):
        return None
    return Lin(x.c // 8, tuple((a, k // 8) for a, k in x.t))


# ------------------------------------------------------------ pure functions
PURE_EXT = ("strlen", "toupper", "tolower", "llvm.dbg.declare", "llvm.dbg.value",
            "__ctype_b_loc", "__ctype_toupper_loc", "__ctype_tolower_loc")


def pure_reader(mod, name, seen=()):
    """does the function compute an integer from its parameters and the memory
    they point to, and do nothing else?"""
    f = mod.funcs.get(name)
    if f is None or name in seen:
        return False
    al = set()
    for b in f.blocks:
        for i in b.ins:
            if i.op == "alloca":
                al.add(i.dst)
            elif i.op == "getelementptr" and i.a[0][0] == "r" and i.a[0][1] in al:
                al.add(i.dst)
    for b in f.blocks:
        for i in b.ins:
            if i.op == "store":
                if i.a[1][0] != "r" or i.a[1][1] not in al:
                    return False
            elif i.op == "load":
                if i.a[0][0] == "g":
                    return False
            elif i.op == "call":
                if i.a[0][0] != "g":
                    return False
                n = i.a[0][1][1:].strip('"')
                if n not in PURE_EXT and not n.startswith("llvm.") and \
                        not pure_reader(mod, n, tuple(seen) + (name,)):
                    return False
    return True


def hash_functions(mod):
    """pure functions from one string to an integer, with a loop"""
    out = []
    for n, f in mod.funcs.items():
        if len(f.params) == 1 and f.params[0][0] == PTR and f.ret[0] == "i" and f.loops and \
                pure_reader(mod, n):
            out.append(n)
    return out


class TableHook:
    def __init__(self, h):
        self.h = h

    def read(self, eng, st, o, off, n, ty, ins):
        return self.h.rd(eng, st, o, off, n, ins)

    def write(self, eng, st, o, off, v, n, ins):
        return self.h.wr(eng, st, o, off, v, n, ins)


class TabHarness(Harness):
    unit = "symtab"
    main = ["C11"]

    def __init__(self, ctx, mode):
        super().__init__(ctx)
        self.mode = mode
        self.homes = {}

    # ---- set-up
    def begin(self):
        eng = self.eng = self.engine()
        self.hook = TableHook(self)
        self.uf = {}
        for n in hash_functions(self.m):
            if n not in ("init_symbol_table",):
                eng.contracts[n] = self.c_hash(n)
        if "next_prime" in self.m.funcs:
            eng.contracts["next_prime"] = self.c_next_prime
        for n in ("strcmp", "strcasecmp", "strncmp", "strncasecmp"):
            eng.ext[n] = self.x_cmp(n, eng.ext.get(n))
        self.x_memset0 = eng.ext["memset"]
        return eng

    def table(self, eng, st):
        self.size0 = eng.var("table size", 1, 1 << 30)
        self.cnt0 = eng.var("number of symbols", 0, MAXSYM)
        eng.assume_ge(st, sub(sub(self.size0, self.cnt0), 1))
        o = eng.new_obj(st, "heap", self.ssize("SymbolTable"), "undef", "symbol table")
        a = eng.new_obj(st, "heap", scale(self.size0, 8), "undef", "array of symbols")
        o.site = a.site = None
        a.hook, a.meta = self.hook, "A"
        self.put(st, o.id, "SymbolTable", "symbols", Ptr(a.id, 0))
        self.put(st, o.id, "SymbolTable", "size", self.size0)
        self.put(st, o.id, "SymbolTable", "count", self.cnt0)
        self.tab, self.arr = o.id, a.id
        for r in ROLES:
            self.reset(st, r)
            st.g.update({r + ".cnt": 0, r + ".nulls": "0"})
        st.g["A.cnt"] = self.cnt0
        st.g["tab"] = Ptr(o.id, 0)
        st.g["placed"] = None
        return o

    def reset(self, st, r):
        st.g.update({r + ".s": None, r + ".i": None, r + ".nn": 0, r + ".gap": "0", r + ".w": "0",
                     r + ".last": "none", r + ".mat": None, r + ".cmp": "", r + ".skip": "0",
                     r + ".left": "0", r + ".unb": "0"})

    # ---- hash functions: uninterpreted, but analysed on their own
    def c_hash(self, name):
        f = self.m.funcs[name]

        def run(eng, st, vals, ins):
            o = eng.ptr_ok(st, vals[0], ins, "hash")
            if o is None:
                return []
            if o.sv is None or o.cells or vals[0].off != 0:
                self.sfind(eng, st, self.main + ["C15"], "a hash is computed of something that is not a name", eng.where(ins))
                return []
            i = str(st.svs[o.sv].ident)
            lo, hi = -(1 << (f.ret[1] - 1)), (1 << (f.ret[1] - 1)) - 1
            x = eng.dvar("uf", name, i, name="%s(%s)" % (name, i), dom=(lo, hi))
            return [(st, x)]
        return run

    def c_next_prime(self, eng, st, vals, ins):
        x = vals[0]
        if isinstance(x, FV):
            x = eng.tolin(st, x)
        if x is UNDEF:
            eng.find(st, "undef", ins, "next_prime of an uninitialised number")
            return []
        if not (eng.entails(st, sub(x, 1)) and eng.entails(st, sub(1 << 30, x))):
            self.sfind(eng, st, ["C15", "C11"], "the size of the grown table may overflow (%s)" % eng.show(x), eng.where(ins))
            return []
        p = eng.var("prime", 2, (1 << 31) - 1)
        eng.assume_ge(st, sub(sub(p, x), 1))
        eng.assume_ge(st, sub(scale(x, 2), p))
        return [(st, p)]

    def on_alloc(self, eng, res, size, ins):
        """a zeroed array of slots becomes the new table"""
        for s, v in res:
            if isinstance(v, Ptr) and s.g.get("tab") is not None:
                o = s.objs[v.o]
                if not isinstance(size, int) and div8(size) is not None and \
                        all(x.meta != "B" for x in s.objs.values()):
                    o.hook, o.meta = self.hook, "B"
                    if o.default != "zero":
                        s.g["B.nulls"] = "?"
        return res

    # ---- comparisons
    def ident(self, st, p):
        if not isinstance(p, Ptr) or p.off != 0:
            return None
        self.eng.as_text(st, p.o)
        o = st.objs.get(p.o)
        if o is None or o.freed:
            return None
        if o.sv is None and o.kind == "heap" and o.bytes is None and (
                o.meta == "text" and o.segs and o.segs[0][1] == 0 and self.eng.entails(st, sub(o.segs[0][0], 1)) or
                o.segs is None and o.cells == {0: (1, 0)} or o.segs is None and not o.cells and o.default == "zero" and
                self.eng.entails(st, sub(o.size, 1))):
            # the empty text
            for v in st.svs.values():
                if v.ident == "label" and self.eng.nrm(st, v.N) == 0:
                    return "label"
        if o.sv is None or o.cells:
            return None
        return str(st.svs[o.sv].ident)

    def x_cmp(self, name, old):
        def run(eng, st, vals, ins):
            a, b = self.ident(st, vals[0]), self.ident(st, vals[1])
            if a is None or b is None or a == b:
                return old(eng, st, vals, ins)
            for r in ROLES:
                m = st.g.get(r + ".mat")
                if m is None:
                    continue
                o = st.objs.get(m.o)
                if o is None or o.freed:
                    continue
                i = self.ident(st, self.get(st, m.o, "Symbol", "label"))
                if i is None or {a, b} != {i, "label"}:
                    continue
                if name.endswith("casecmp"):
                    pass                      # names are upper case
                out = []
                n = vals[2] if len(vals) > 2 else None
                s = st.copy()
                s.g[r + ".cmp"] = "eq"
                out.append((s, 0))
                if n is not None and not eng.entails(st, sub(L(n) if not isinstance(n, FV) else eng.tolin(st, n), 64)):
                    s = st.copy()             # same beginning only
                    out.append((s, 0))
                st.g[r + ".cmp"] = "ne"
                x = eng.fvar("order", 2)
                out.append((st, FV(x, (-1, 1))))
                return out
            return old(eng, st, vals, ins)
        return run

    # ---- ghost record
    def settle(self, eng, st, r, ins):
        """the run goes past its last slot"""
        g = st.g
        last = g[r + ".last"]
        if last in ("null", "done0"):
            g[r + ".gap"] = "1"
        if last == "sym":
            if self.mode == "destroy":
                m = g[r + ".mat"]
                o = st.objs.get(m.o)
                if o is not None and not o.freed:
                    self.sfind(eng, st, ["C16"], "a symbol is not released with its table", ins if isinstance(ins, str) else eng.where(ins))
                    return False
            else:
                g[r + ".left"] = "1"
            if g[r + ".cmp"] != "ne":
                g[r + ".skip"] = "1"
        g[r + ".mat"] = None
        g[r + ".cmp"] = ""
        return True

    def rd(self, eng, st, o, off, n, ins):
        g = st.g
        r = o.meta
        loc = eng.where(ins)
        if n != 8:
            raise Broken("partial read of the symbol array at " + loc)
        if isinstance(off, FV):
            off = eng.tolin(st, off)
        i, size = div8(off), div8(o.size)
        if i is None or size is None:
            raise Broken("unaligned read of the symbol array at %s (%s of %s)" % (loc, off, o.size))
        if r == "B" and g["B.nulls"] == "?":
            self.sfind(eng, st, ["C15", "C11"], "slots of the new table are read uninitialised", loc)
            return []
        cur = g[r + ".i"]
        if cur is not None:
            if eng.decide_eq(st, sub(i, cur)) is True:
                last = g[r + ".last"]
                if last in ("null", "done0"):
                    return [(st, NULL)]
                if last == "sym":
                    return [(st, g[r + ".mat"])]
                raise Broken("a finished slot is read again at " + loc)
            if not self.settle(eng, st, r, ins):
                return []
            if g[r + ".w"] != "d" and eng.decide_eq(st, sub(i, add(cur, 1))) is True:
                pass
            elif eng.decide_eq(st, sub(i, sub(cur, 1))) is True and (g[r + ".w"] == "d" or \
                    g[r + ".w"] == "0" and eng.decide_eq(st, sub(cur, g[r + ".s"])) is True):
                g[r + ".w"] = "d"
            elif g[r + ".w"] == "0" and eng.decide_eq(st, L(i)) is True and \
                    eng.decide_eq(st, sub(add(cur, 1), size)) is True:
                g[r + ".w"] = "1"
            else:
                self.reset(st, r)
                cur = None
        if cur is None:
            g[r + ".s"] = i
        g[r + ".i"] = i
        out = []
        s = st.copy()
        s.g[r + ".last"] = "null"
        if s.g[r + ".gap"] == "1":
            s.g[r + ".last"] = "done0"
        out.append((s, NULL))
        # occupied: one more of the symbols there are.  An upward run never visits a
        # slot twice; nor does an unbroken run of occupied slots, for there are
        # fewer symbols than slots
        nn = add(g[r + ".nn"], 1)
        if g[r + ".unb"] == "0" and (g[r + ".w"] in "0d" or g[r + ".gap"] == "0" and
                                     eng.entails(st, sub(sub(size, 1), g[r + ".cnt"]))):
            if not eng.assume_ge(st, sub(g[r + ".cnt"], nn)) or not eng.feasible(st, sub(g[r + ".cnt"], nn)):
                return out
        else:
            g[r + ".unb"] = "1"
        g[r + ".nn"] = nn
        g[r + ".last"] = "sym"
        kind = "heap" if self.mode == "destroy" else "str"
        so = eng.new_obj(st, kind, self.ssize("Symbol"), "undef", "stored symbol", site=ins)
        lo, sv = eng.new_str(st, kind, "stored name", 0, 63)
        lo.site = ins
        sv.ident = "stored%d" % lo.id
        v = eng.var("stored value", 0, 0xFFFF)
        self.put(st, so.id, "Symbol", "label", Ptr(lo.id, 0))
        self.put(st, so.id, "Symbol", "value", v)
        g[r + ".mat"] = Ptr(so.id, 0)
        g[r + ".val"] = v
        out.append((st, Ptr(so.id, 0)))
        return out

    def term(self, eng, st, x, size, ident, deep=0):
        """the value as a function of name and table size, or None"""
        if isinstance(x, int):
            return x
        parts = []
        if eng.decide_eq(st, sub(x, size)) is True:
            return "size"
        for a, k in x.t:
            d = eng.derived.get(a)
            if eng.decide_eq(st, sub(Lin(0, ((a, 1),)), size)) is True:
                parts.append(("size", k))
            elif d is None or deep > 8:
                return None
            elif d[0] == "uf":
                if d[2] != ident:
                    return None
                sg = "+" if eng.entails(st, Lin(0, ((a, 1),))) else \
                    "-" if eng.entails(st, Lin(-1, ((a, -1),))) else "?"
                parts.append((("hash", d[1], sg), k))
            else:
                sub_ = []
                for y in d[1:]:
                    if isinstance(y, (int, Lin)):
                        t = self.term(eng, st, y, size, ident, deep + 1)
                        if t is None:
                            return None
                        sub_.append(t)
                    else:
                        sub_.append(y)
                parts.append(((d[0],) + tuple(sub_), k))
        return (x.c, tuple(sorted(parts, key=repr)))

    def at_home(self, eng, st, r, o, ident, loc, what):
        g = st.g
        if g[r + ".w"] == "d":
            raise Broken("slots are tried downwards at " + loc)
        x = g[r + ".s"]
        t = self.term(eng, st, x, div8(o.size), ident) if x is not None else None
        if t is None:
            self.sfind(eng, st, self.main, "%s: the first slot tried is not a function of the name and the "
                       "table's size" % what, loc)
            return False
        self.homes.setdefault(what, {}).setdefault(repr(t), (loc, st))
        return True

    def wr(self, eng, st, o, off, v, n, ins):
        g = st.g
        r = o.meta
        loc = eng.where(ins)
        if isinstance(off, FV):
            off = eng.tolin(st, off)
        i, size = div8(off), div8(o.size)
        if n != 8 or i is None or size is None:
            raise Broken("unaligned write of the symbol array at " + loc)
        if v is NULL:
            if r == "B" and g["B.nulls"] == "?":
                raise Broken("slots set to empty one by one at " + loc)
            self.sfind(eng, st, self.main, "a slot of the table is emptied", loc)
            return []
        if not isinstance(v, Ptr) or v.off != 0:
            self.sfind(eng, st, self.main + ["C15"], "something that is not a symbol is stored in the table", loc)
            return []
        vo = eng.ptr_ok(st, v, ins, "symbol")
        if vo is None:
            return []
        lab = self.get(st, v.o, "Symbol", "label")
        ident = self.ident(st, lab)
        if ident is None:
            self.sfind(eng, st, self.main + ["C15"], "a symbol without a complete name is stored", loc)
            return []
        cur = g[r + ".i"]
        if cur is None or eng.decide_eq(st, sub(i, cur)) is not True:
            self.sfind(eng, st, self.main, "a symbol is stored in a slot that was not seen to be empty", loc)
            return []
        if g[r + ".last"] not in ("null", "done0"):
            self.sfind(eng, st, self.main, "a symbol is stored over another one", loc)
            return []
        if g[r + ".gap"] == "1":
            self.sfind(eng, st, self.main, "a symbol is stored behind an empty slot where lookups end", loc)
            return []
        moved = None
        for q in ROLES:
            if g.get(q + ".mat") == v and q != r:
                moved = q
        what = "growth" if moved else "insertion"
        if not self.at_home(eng, st, r, o, ident, loc, what):
            return []
        self.reset(st, r)
        g[r + ".cnt"] = add(g[r + ".cnt"], 1)
        if moved:
            lo = st.objs[lab.o]
            if g[moved + ".val"] is None or not self.eq(eng, st, self.get(st, v.o, "Symbol", "value"), g[moved + ".val"]) \
                    or not ident.startswith("stored") or lo.cells:
                self.sfind(eng, st, self.main, "a symbol is altered while the table grows", loc)
                return []
            g[moved + ".last"] = "done"
            g[moved + ".mat"] = None
            g[moved + ".val"] = None
            self.c.ob("C11", "a symbol moved to its probe position in the new array")
        else:
            if g["placed"] is not None:
                self.sfind(eng, st, self.main, "a symbol is stored twice", loc)
                return []
            g["placed"] = v
            g["placedin"] = r
            self.c.ob("C11", "a new symbol stored at the end of its probe run")
        return [st]

    def at_head(self, eng, st, fn, header, entry):
        for r in ROLES:
            if st.g.get(r + ".last") == "sym" and self.mode == "destroy":
                m = st.g[r + ".mat"]
                o = st.objs.get(m.o)
                if o is None or o.freed:
                    st.g[r + ".last"] = "done"
                    st.g[r + ".mat"] = None
            if st.g.get(r + ".last") != "sym" and r + ".val" in st.g:
                st.g[r + ".val"] = None
        return [st]

    def on_back(self, eng, st, fn, header):
        return self.at_head(eng, st, fn, header, False)

    def head_key(self, eng, st, fn, header):
        """a run at the last slot, about to wrap around, is kept apart"""
        g = st.g
        out = []
        for r in ROLES:
            o = [o for o in st.objs.values() if o.meta == r and not o.freed]
            if g.get(r + ".i") is not None and o and g[r + ".last"] != "none":
                size = div8(o[0].size)
                out.append(size is not None and eng.decide_eq(st, sub(add(g[r + ".i"], 1), size)) is True)
            else:
                out.append(None)
        return tuple(out)

    def ghost(self, eng, st):
        """what holds of the record by its construction"""
        g = st.g
        for r in ROLES:
            if g.get(r + ".s") is None:
                continue
            o = [o for o in st.objs.values() if o.meta == r and not o.freed]
            if not o:
                continue
            self.fact(eng, st, L(g[r + ".nn"]))
            if g[r + ".unb"] == "0":
                self.fact(eng, st, sub(g[r + ".cnt"], g[r + ".nn"]))
            for x in (g[r + ".s"], g[r + ".i"]):
                self.fact(eng, st, L(x))
                self.fact(eng, st, sub(sub(div8(o[0].size), 1), x))
            if g[r + ".gap"] == "0" and g[r + ".unb"] == "0":
                # an unbroken run: its symbols are the slots it went over
                k = 0 if g[r + ".last"] == "null" else 1
                n = sub(add(g[r + ".i"], k), g[r + ".s"])
                if g[r + ".w"] == "d":
                    n = sub(add(g[r + ".s"], k), g[r + ".i"])
                if g[r + ".w"] == "1":
                    n = add(n, div8(o[0].size))
                for x in (sub(n, g[r + ".nn"]), sub(g[r + ".nn"], n)):
                    self.fact(eng, st, x)

    def fact(self, eng, st, x):
        if not isinstance(x, int) and not eng.entails(st, x):
            eng.assume_ge(st, x)

    def measures(self):
        """what may shrink in a probing loop"""
        for r in ROLES:
            def left(sl, r=r):
                "symbols not yet seen"
                if sl.get(("g", r + ".s")) is None:
                    return None
                return sub(sl["g", r + ".cnt"], sl["g", r + ".nn"])

            def more(sl, r=r):
                "an empty slot is met"
                return 0 if sl.get(("g", r + ".last")) in ("null", "done0") else 1
            yield left
            yield more

    # ---- results
    def scanned(self, eng, st, r, size):
        """every slot of the array was visited"""
        g = st.g
        if g[r + ".s"] is not None and g[r + ".w"] == "d":
            return eng.decide_eq(st, L(g[r + ".i"])) is True and \
                eng.decide_eq(st, sub(add(g[r + ".s"], 1), size)) is True
        return g[r + ".s"] is not None and eng.decide_eq(st, L(g[r + ".s"])) is True and \
            g[r + ".w"] == "0" and eng.decide_eq(st, sub(add(g[r + ".i"], 1), size)) is True

    def on_free(self, eng, st, w, o, ins):
        """the old array is given up: all its symbols must have been moved"""
        if o.meta not in ROLES:
            return
        loc = eng.where(ins)
        if self.mode == "destroy":
            if not self.settle(eng, st, o.meta, ins):
                return
            if not self.scanned(eng, st, o.meta, div8(o.size)):
                self.sfind(eng, st, ["C16"], "the table is released without visiting all its symbols", loc)
            return
        if o.meta == "A":
            self.settle(eng, st, "A", ins)
            if not self.scanned(eng, st, "A", div8(o.size)):
                self.sfind(eng, st, self.main, "the table grows without visiting all its symbols", loc)
            elif st.g["A.left"] == "1":
                self.sfind(eng, st, self.main, "a symbol is lost when the table grows", loc)
            else:
                # all of them were seen
                eng.assume_eq(st, sub(st.g["A.nn"], st.g["A.cnt"]))
                self.c.ob("C11", "growth moves every symbol of the old array")
            st.g["Agone"] = True

    def state_ok(self, eng, st, loc, grown):
        """the table is a valid one of cnt0 + grown symbols"""
        p = self.get(st, self.tab, "SymbolTable", "symbols")
        o = st.objs.get(p.o) if isinstance(p, Ptr) else None
        if o is None or o.freed or p.off != 0 or o.meta not in ROLES:
            self.sfind(eng, st, self.main + ["C15", "C17"], "the table is left without a valid array", loc)
            return False
        r = o.meta
        if not self.eq(eng, st, self.get(st, self.tab, "SymbolTable", "size"), div8(o.size)):
            self.sfind(eng, st, self.main + ["C15"], "the recorded size of the table is not that of its array", loc)
            return False
        c = self.get(st, self.tab, "SymbolTable", "count")
        if not self.eq(eng, st, c, add(self.cnt0, grown)):
            self.sfind(eng, st, self.main, "the number of symbols recorded is wrong", loc)
            return False
        if not self.eq(eng, st, st.g[r + ".cnt"], add(self.cnt0, grown)):
            self.sfind(eng, st, self.main, "the table does not hold the symbols it held before", loc)
            return False
        if not eng.entails(st, sub(sub(div8(o.size), 1), add(self.cnt0, grown))):
            self.sfind(eng, st, self.main + ["C23"], "the table may become full (lookups of unknown names would not end)", loc)
            return False
        for x in list(st.objs.values()):
            if x.kind == "heap" and not x.freed and x.id not in (self.tab, p.o):
                if grown and (x.id == st.g["placed"].o or
                              self.get(st, st.g["placed"].o, "Symbol", "label") == Ptr(x.id, 0)):
                    continue
                self.sfind(eng, st, ["C16"] + (["C17"] if st.g.get("oom") else []),
                           "memory is lost: %s" % x.name, eng.where(x.site) if x.site is not None else loc)
                return False
        return True

    def run(self):
        r = getattr(self, "run_" + self.mode)()
        self.c.absorb(self.eng, "symtab")
        return r

    def results(self, eng, res, fn):
        for kind, v, s, loc in eng.terminals:
            self.sfind(eng, s, ["C12"], "the program ends inside the symbol table", loc, fn)
        for s, v in res:
            for e in s.ev:
                if e[0] != "segwrite":
                    self.sfind(eng, s, ["C19", "C20"], "%s has an effect outside the table: %s" % (fn, e[0]), self.lastloc(s), fn)
                    break
            else:
                for s2, k in (eng.split_vals(s, v) if isinstance(v, FV) else [(s, v)]):
                    yield s2, k

    def run_insert(self):
        eng = self.begin()
        st = State()
        self.table(eng, st)
        lab, sv = eng.new_str(st, "root", "label", 0, 63)
        lab.tag = "const"
        sv.ident = "label"
        val = eng.var("value", 0, 0xFFFF)
        res = eng.start(st, "insert_symbol", [Ptr(self.tab, 0), Ptr(lab.id, 0), val])
        ok, oom = self.c.mac["SYMBOL_INSERTION_SUCCESS"], self.c.err("MEMORY_ALLOCATION_FAIL")
        for s, v in self.results(eng, res, "insert_symbol"):
            loc = self.lastloc(s)
            if v == oom:
                if not s.g.get("oom"):
                    self.sfind(eng, s, self.main + ["C17"], "an insertion fails although there is memory", loc)
                    continue
                if s.g["placed"] is not None:
                    self.sfind(eng, s, self.main + ["C17"], "a failed insertion leaves a symbol behind", loc)
                    continue
                if self.state_ok(eng, s, loc, 0):
                    self.c.ob(["C17", "C16", "C11"], "a failed insertion leaves the table valid and unchanged")
                continue
            if v != ok:
                self.sfind(eng, s, self.main, "insert_symbol returns %s" % eng.show(v), loc)
                continue
            p = s.g["placed"]
            if p is None:
                self.sfind(eng, s, self.main, "an insertion succeeds without storing the symbol", loc)
                continue
            lp = self.get(s, p.o, "Symbol", "label")
            lo = s.objs.get(lp.o) if isinstance(lp, Ptr) else None
            if lo is None or lo.freed or self.ident(s, lp) != "label":
                self.sfind(eng, s, self.main, "the stored symbol does not keep its name", loc)
                continue
            if lo.kind != "heap":
                self.sfind(eng, s, self.main + ["C16", "C10"], "the stored symbol refers to the caller's text", loc)
                continue
            if not self.eq(eng, s, self.get(s, p.o, "Symbol", "value"), val):
                self.sfind(eng, s, self.main + ["C10"], "the stored symbol has another value", loc)
                continue
            q = self.get(s, self.tab, "SymbolTable", "symbols")
            if not isinstance(q, Ptr) or s.objs[q.o].meta != s.g["placedin"]:
                self.sfind(eng, s, self.main, "the symbol is stored in an array that is no longer used", loc)
                continue
            if self.state_ok(eng, s, loc, 1):
                self.c.ob(["C11", "C16"], "insertion: name and value copied, count and size right, an empty slot remains")

    def run_search(self):
        eng = self.begin()
        st = State()
        self.table(eng, st)
        lab, sv = eng.new_str(st, "root", "label", 0, 63)
        lab.tag = "const"
        sv.ident = "label"
        res = eng.start(st, "search_symbol", [Ptr(self.tab, 0), Ptr(lab.id, 0)])
        nf = self.c.err("SYMBOL_NOT_FOUND")
        for s, v in self.results(eng, res, "search_symbol"):
            loc = self.lastloc(s)
            g = s.g
            if v is UNDEF:
                self.sfind(eng, s, self.main + ["C15"], "search_symbol returns an uninitialised value", loc)
                continue
            o = s.objs[self.arr]
            if v == nf:
                if g["A.last"] not in ("null", "done0"):
                    self.sfind(eng, s, self.main, "a name is reported missing before an empty slot is met", loc)
                elif g["A.gap"] == "1":
                    self.sfind(eng, s, self.main, "the slots looked at for a name are interrupted", loc)
                elif g["A.skip"] == "1":
                    self.sfind(eng, s, self.main, "a stored name is passed over without being compared", loc)
                elif self.at_home(eng, s, "A", o, "label", loc, "lookup") and self.state_ok(eng, s, loc, 0):
                    self.c.ob("C11", "'not found' only at the end of the name's probe run, every name compared")
                continue
            if isinstance(v, int) or g["A.last"] != "sym" or g["A.cmp"] != "eq":
                self.sfind(eng, s, self.main, "a value is returned for a name that was not found equal", loc)
                continue
            if not self.eq(eng, s, v, g["A.val"]):
                self.sfind(eng, s, self.main, "the value returned is not the one stored with the name", loc)
                continue
            if self.state_ok(eng, s, loc, 0):
                self.c.ob("C11", "the value returned is that of an equal name")

    def run_destroy(self):
        eng = self.begin()
        # nothing to destroy
        st = State()
        st.g.update({"placed": None})
        for s, _ in eng.start(st, "destroy_symbol_table", [NULL]):
            self.c.ob(["C15", "C16"], "destroying no table does nothing")
        st = State()
        self.table(eng, st)
        res = eng.start(st, "destroy_symbol_table", [Ptr(self.tab, 0)])
        for s, v in self.results(eng, res, "destroy_symbol_table"):
            loc = self.lastloc(s)
            bad = [x for x in (self.tab, self.arr) if x in s.objs and not s.objs[x].freed]
            if bad:
                self.sfind(eng, s, ["C16"], "%s is not released" % s.objs[bad[0]].name, loc)
                continue
            for x in s.objs.values():
                if x.kind == "heap" and not x.freed:
                    self.sfind(eng, s, ["C16"], "%s is not released" % x.name, loc)
                    break
            else:
                self.c.ob("C16", "every symbol, its name, the array and the table released once")

    def run_init(self):
        eng = self.begin()
        st = State()
        res = eng.start(st, "init_symbol_table", [])
        for s, v in self.results(eng, res, "init_symbol_table"):
            loc = self.lastloc(s)
            live = [x for x in s.objs.values() if x.kind == "heap" and not x.freed]
            if v is NULL:
                if not s.g.get("oom"):
                    self.sfind(eng, s, self.main + ["C17"], "no table is made although there is memory", loc)
                elif live:
                    self.sfind(eng, s, ["C16", "C17"], "memory is lost: %s" % live[0].name, loc)
                else:
                    self.c.ob(["C17", "C16"], "failed construction releases everything")
                continue
            if not isinstance(v, Ptr) or v.off != 0:
                self.sfind(eng, s, self.main + ["C15"], "init_symbol_table returns no table", loc)
                continue
            p = self.get(s, v.o, "SymbolTable", "symbols")
            size = self.get(s, v.o, "SymbolTable", "size")
            cnt = self.get(s, v.o, "SymbolTable", "count")
            o = s.objs.get(p.o) if isinstance(p, Ptr) else None
            if cnt != 0 or o is None or p.off != 0 or not isinstance(size, int) or size < 1 or o.size != 8 * size:
                self.sfind(eng, s, self.main + ["C15"], "a new table is not empty or its size is wrong", loc)
                continue
            good = True
            for i in range(size):
                r = eng.load(s, Ptr(p.o, 8 * i), PTR, None) if s.objs[p.o].default != "undef" or 8 * i in o.cells else []
                if [x for _, x in r] != [NULL]:
                    good = False
            if not good:
                self.sfind(eng, s, self.main + ["C15"], "slots of a new table are not empty", loc)
                continue
            if len(live) != 2:
                self.sfind(eng, s, ["C16"], "memory is lost at construction", loc)
                continue
            self.c.ob(["C11", "C15"], "a new table is empty")


class HashHarness(Harness):
    """a hash function on every name"""
    unit = "symtab"

    def __init__(self, ctx, fn):
        super().__init__(ctx)
        self.fn = fn

    def run(self):
        eng = self.eng = self.engine()
        st = State()
        o, sv = eng.new_str(st, "root", "name", 0, 63)
        o.tag = "const"
        for s, v in eng.start(st, self.fn, [Ptr(o.id, 0)]):
            if v is UNDEF:
                self.sfind(eng, s, ["C15", "C11"], "a hash is uninitialised", self.lastloc(s), self.fn)
            if s.ev:
                self.sfind(eng, s, ["C11", "C19"], "a hash function has effects", self.lastloc(s), self.fn)
        self.c.ob(["C11", "C15"], "the hash of a name depends on its characters only")
        self.c.absorb(eng, "symtab")


class PrimeHarness(Harness):
    """next_prime(x): ends, with x < p <= 2x.

    A candidate is passed over only when a divisor of it is at hand, so every
    number skipped is composite; a prime lies in (x, 2x] (Bertrand) and, from 25
    on, in (x, 6x/5] (Nagura), so the search ends there at the latest."""
    unit = "symtab"
    TOP = (1 << 30) * 6 // 5

    def run(self):
        eng = self.eng = self.engine()
        st = State()
        self.x = eng.var("x", 1, 1 << 30)
        self.used, self.broken = {}, set()
        n = 0
        for s, v in eng.start(st, "next_prime", [self.x]):
            n += 1
            loc = self.lastloc(s)
            if v is UNDEF or s.ev:
                self.sfind(eng, s, ["C11", "C15"], "next_prime has an effect or no result", loc, "next_prime")
                continue
            if not (isinstance(v, (int, Lin)) and eng.entails(s, sub(sub(v, self.x), 1))
                    and eng.entails(s, sub(scale(self.x, 2), v))):
                self.sfind(eng, s, ["C11", "C15"], "the next size may not lie above the old one and within twice "
                           "of it", loc, "next_prime")
                continue
            self.c.ob("C11", "next_prime(x) lies in (x, 2x]")
        for kind, v, s, loc in eng.terminals:
            self.sfind(eng, s, ["C12"], "the program ends inside next_prime", loc, "next_prime")
        for k in self.used:
            if k in self.broken:
                self.sfind(eng, st, ["C11", "C23"], "the search for the next prime may pass one over", k[0], "next_prime")
            else:
                self.c.ob(["C23", "C11"], "every number passed over by next_prime has a divisor")
        if not n:
            self.sfind(eng, st, ["C11", "C23"], "next_prime never returns", "next_prime", "next_prime")
        self.c.absorb(eng, "symtab")

    def composite(self, eng, st, v):
        """does the state show a proper divisor of v (or that v < 2)?"""
        if isinstance(v, FV):
            v = eng.tolin(st, v)
        if eng.entails(st, sub(1, v)):
            return True
        for a, d in eng.derived.items():
            if d[0] in ("rem", "srem") and eng.decide_eq(st, Lin(0, ((a, 1),))) is True:
                if eng.decide_eq(st, sub(d[1], v)) is True and eng.entails(st, sub(d[2], 2)) and \
                        eng.entails(st, sub(sub(v, 1), d[2])):
                    return True
            elif d[0] == "div":
                if eng.decide_eq(st, sub(d[1], v)) is True and d[2] >= 2 and \
                        eng.decide_eq(st, sub(v, Lin(0, ((a, d[2]),)))) is True and \
                        eng.entails(st, sub(v, d[2] + 1)):
                    return True
        return False

    def lemma(self, eng, order, fn, header):
        """The loop over candidates: +1 each time (or +2 over the odd ones), every one
        shown composite, from x on.  Then the candidate does not pass the next prime."""
        trans = [(src, eng.loops.slots(src.tmpl, ()), a, sl, hd)
                 for hd in order for a, sl, src in hd.seen if src is not None]
        r = self.pattern(eng, order, trans)
        k = (fn.name, header)
        if r is None:
            if k in self.used:
                self.broken.add(k)
            return
        self.used[k] = r
        s, w = r
        d = 1 if w == "new" else 0
        for hd in order:
            if s in hd.lead:
                c = Lin(0, ((hd.lead[s], 1),))
                yield hd, sub(sub(scale(self.x, 2), d), c)
                yield hd, sub(self.TOP - d, c)

    def pattern(self, eng, order, trans):
        slots = None
        for src, tsl, a, sl, hd in trans:
            good = set()
            for s, v in sl.items():
                if s not in tsl:
                    continue
                o, n = eng.loops.num(tsl[s]), eng.loops.num(v)
                if isinstance(o, FV) or isinstance(n, FV) or not isinstance(o, (int, Lin)) or \
                        not isinstance(n, (int, Lin)):
                    continue
                step = [k for k in (1, 2) if eng.decide_eq(a, sub(sub(n, o), k)) is True]
                if not step:
                    continue
                if self.composite(eng, a, n):
                    good.add((s, "new", step[0]))
                if self.composite(eng, a, o):
                    good.add((s, "old", step[0]))
            slots = good if slots is None else slots & good
        for s, w, step in slots or ():
            ok = True
            for hd in order:
                for a, sl, src in hd.seen:
                    if src is None:
                        o = eng.loops.num(sl.get(s))
                        # the first number examined is x + 1 or less; when only
                        # odd numbers are, the even one in front of it is skipped too
                        if not isinstance(o, (int, Lin)) or not eng.entails(
                                a, sub(add(self.x, 0 if w == "new" else step), o)):
                            ok = False
                        elif step == 2 and not (eng.entails(a, sub(o, 3)) and
                                                (eng.decide_eq(a, sub(eng.mod(a, o, 2), 1)) is True or
                                                 eng.decide_eq(a, eng.mod(a, sub(o, 1), 2)) is True) and
                                                (w == "new" or eng.entails(a, sub(add(self.x, 1), o)) or
                                                 eng.entails(a, sub(o, 5)))):
                            ok = False
            if ok:
                return s, w
        return None

    def overflow_ok(self, eng, st, e, ins):
        return False


def run(c):
    homes = {}
    used = set()
    for mode in ("init", "insert", "search", "destroy"):
        h = TabHarness(c, mode)
        h.run()
        used |= h.eng.funcs_seen
        for w, d in h.homes.items():
            homes.setdefault(w, {}).update(d)
    if not c.findings and len(homes) == 3:
        ref = homes["lookup"]
        for w in ("insertion", "growth"):
            if set(homes[w]) != set(ref):
                loc, st = next(iter(homes[w].values()))
                h = TabHarness(c, "search")
                h.eng = eng = h.begin()
                h.sfind(eng, st, ["C11"], "%s and lookup begin at different slots: %s / %s" % (
                    w, sorted(homes[w]), sorted(ref)), loc)
                c.absorb(eng, "symtab")
            else:
                c.ob("C11", "%s and lookup begin at the same slot" % w)
    elif not c.findings and "growth" not in homes:
        c.notes.append("the table never grows")
    for n in hash_functions(c.m):
        if n in used:
            HashHarness(c, n).run()
    if "next_prime" in used or "next_prime" in c.m.funcs:
        PrimeHarness(c).run()
