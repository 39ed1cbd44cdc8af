"""The list of forward references: construction, storing, growth, destruction,
over a list of any length and a source line of any text."""
from .base import Harness, MAXSRC
from .dom import Lin, FV, Ptr, NULL, UNDEF, L, add, sub, scale
from .engine import State
from .ir import Broken, PTR
from .h_tab import div8

MAXREF = 1 << 27
SPACE = sum(1 << c for c in (9, 10, 11, 12, 13, 32))
WORD = sum(1 << c for c in range(128) if chr(c).isalnum() or chr(c) == "_")
BLOCKS = ("label", "source_line", "instr")


class FrefHarness(Harness):
    unit = "fref"

    def results(self, eng, res, fn):
        for kind, v, s, loc in eng.terminals:
            self.sfind(eng, s, ["C12"], "the program ends inside %s" % fn, loc, fn)
        for s, v in res:
            if eng.copies:
                for i in list(s.objs):
                    eng.as_text(s, i)
            bad = [e for e in s.ev if e[0] != "segwrite"]
            if bad:
                self.sfind(eng, s, ["C19", "C20"], "%s has an effect outside its list: %s" % (fn, bad[0][0]),
                           self.lastloc(s), fn)
                continue
            for s2, k in (eng.split_vals(s, v) if isinstance(v, FV) else [(s, v)]):
                yield s2, k

    def finish(self, eng):
        self.c.absorb(eng, "fref")

    def live(self, st, but=()):
        return [o for o in st.objs.values() if o.kind == "heap" and not o.freed and o.id not in but]

    def leak(self, eng, s, o, loc, props=("C16",)):
        p = list(props)
        if s.g.get("oom") and "C17" not in p:
            p.append("C17")
        self.sfind(eng, s, p, "memory is lost: %s" % o.name,
                   eng.where(o.site) if o.site is not None else loc)

    def hints(self, eng, st):
        return self.pin_hints(eng, st)

    # ---- the list
    def unres(self, eng, st):
        self.curr0 = eng.var("number of references", 0, MAXREF)
        self.size0 = eng.var("size of the list", 2, 1 << 30)
        eng.assume_ge(st, sub(sub(self.size0, self.curr0), 1))
        eng.assume_ge(st, sub(add(scale(self.curr0, 4), 4096), self.size0))
        u = eng.new_obj(st, "heap", self.ssize("Unresolved"), "undef", "list of references")
        a = eng.new_obj(st, "heap", scale(self.size0, 8), "undef", "array of references")
        u.site = a.site = None
        a.segs = [(scale(self.curr0, 8), self.REFS), (scale(self.size0, 8), NULL)]
        self.put(st, u.id, "Unresolved", "refs", Ptr(a.id, 0))
        self.put(st, u.id, "Unresolved", "curr", self.curr0)
        self.put(st, u.id, "Unresolved", "size", self.size0)
        self.un, self.arr = u.id, a.id
        st.g.update(lo=None, hi=None, ref=None)

    def new_ref(self, eng, st, site=None):
        mk = lambda sz, nm: eng.new_obj(st, "heap", sz, "undef", nm, site=site)
        r = mk(self.ssize("ForwardRef"), "stored reference")
        lab, lv = eng.new_str(st, "heap", "name of a reference", 0, 63)
        src, sv = eng.new_str(st, "heap", "line of a reference", 1, MAXSRC)
        ni = mk(self.ssize("Instruction"), "instruction of a reference")
        lab.site = src.site = site
        for f in ("mnemonic", "addr_bitfield", "addr_bitflag", "opcode"):
            self.put(st, ni.id, "Instruction", f, eng.var(f, 0, 0xFFFF))
        at = eng.var("operand position", 0, MAXSRC)
        eng.assume_ge(st, sub(sub(sv.N, at), 1))
        p = lambda f, v: self.put(st, r.id, "ForwardRef", f, v)
        p("label", Ptr(lab.id, 0))
        p("source_line", Ptr(src.id, 0))
        p("instr", Ptr(ni.id, 0))
        p("operand_location", Ptr(src.id, at))
        for f in ("pc", "line_num", "operand_status"):
            p(f, eng.var(f, 0, 1 << 29))
        return r

    def parts(self, st, rid):
        out = [rid]
        for f in BLOCKS:
            v = self.get(st, rid, "ForwardRef", f)
            if isinstance(v, Ptr):
                out.append(v.o)
        return out

    def REFS(self, eng, st, o, off, n, ty, ins):
        """an element of the stored part of the array is read"""
        loc = eng.where(ins)
        g = st.g
        if isinstance(off, FV):
            off = eng.tolin(st, off)
        i = div8(off)
        if n != 8 or i is None:
            raise Broken("unaligned read of the reference list at " + loc)
        if g["ref"] is not None:
            if eng.decide_eq(st, sub(i, g["at"])) is True:
                return [(st, Ptr(g["ref"][0], 0))]
            if not self.settle(eng, st, loc):
                return []
        if g["lo"] is None:
            g["lo"], g["hi"] = i, add(i, 1)
        elif eng.decide_eq(st, sub(i, g["hi"])) is True:
            g["hi"] = add(i, 1)
        elif eng.decide_eq(st, sub(add(i, 1), g["lo"])) is True:
            g["lo"] = i
        elif eng.decide_ge(st, sub(i, g["lo"])) is True and \
                eng.decide_ge(st, sub(sub(g["hi"], 1), i)) is True:
            self.sfind(eng, st, ["C16"], "a released reference is read again", loc)
            return []
        else:
            self.sfind(eng, st, ["C16"], "references are skipped", loc)
            return []
        r = self.new_ref(eng, st, ins)
        g["at"] = i
        g["ref"] = tuple(self.parts(st, r.id))
        return [(st, Ptr(r.id, 0))]

    def settle(self, eng, st, loc):
        g = st.g
        if g.get("ref"):
            for x in g["ref"]:
                o = st.objs.get(x)
                if o is not None and not o.freed:
                    self.sfind(eng, st, ["C16"], "%s is not released with the list" % o.name, loc)
                    return False
        g["ref"] = None
        return True

    def at_head(self, eng, st, fn, header, entry):
        g = st.g
        if g.get("ref") and all(x not in st.objs or st.objs[x].freed for x in g["ref"]):
            g["ref"] = None
            g.pop("at", None)
        return [st]

    # ---- modes
    def run_init(self):
        self.eng = eng = self.engine()
        st = State()
        for s, v in self.results(eng, eng.start(st, "init_unresolved", []), "init_unresolved"):
            loc = self.lastloc(s)
            live = self.live(s)
            if v is NULL:
                if not s.g.get("oom"):
                    self.sfind(eng, s, ["C06", "C17"], "no list is made although there is memory", loc)
                elif live:
                    self.leak(eng, s, live[0], loc)
                else:
                    self.c.ob(["C17", "C16"], "failed construction of the list releases everything")
                continue
            if not isinstance(v, Ptr) or v.off != 0:
                self.sfind(eng, s, ["C06", "C15"], "init_unresolved returns no list", loc)
                continue
            p = self.get(s, v.o, "Unresolved", "refs")
            size = self.get(s, v.o, "Unresolved", "size")
            cur = self.get(s, v.o, "Unresolved", "curr")
            o = s.objs.get(p.o) if isinstance(p, Ptr) else None
            if cur != 0 or o is None or o.freed or p.off != 0 or not isinstance(size, int) or \
                    not 2 <= size <= 4096 or o.size != 8 * size:
                self.sfind(eng, s, ["C06", "C15"], "a new list is not empty or its size is wrong", loc)
                continue
            if o.default != "zero" and any(o.cells.get(8 * i) != (8, NULL) for i in range(size)):
                self.sfind(eng, s, ["C06", "C15"], "elements of a new list are not set", loc)
                continue
            if any(c[1] is not NULL and c[1] != 0 for c in o.cells.values()):
                self.sfind(eng, s, ["C06", "C15"], "elements of a new list are set", loc)
                continue
            if len(live) != 2:
                self.leak(eng, s, [x for x in live if x.id not in (v.o, p.o)][0], loc)
                continue
            self.c.ob(["C06", "C15"], "a new list is empty")
        self.finish(eng)

    def run_destroy(self):
        self.eng = eng = self.engine()
        st = State()
        st.g.update(lo=None, hi=None, ref=None)
        for s, _ in self.results(eng, eng.start(st, "destroy_unresolved", [NULL]), "destroy_unresolved"):
            self.c.ob(["C15", "C16"], "destroying no list does nothing")
        eng.terminals.clear() if hasattr(eng.terminals, "clear") else None
        st = State()
        self.unres(eng, st)
        for s, _ in self.results(eng, eng.start(st, "destroy_unresolved", [Ptr(self.un, 0)]), "destroy_unresolved"):
            loc = self.lastloc(s)
            g = s.g
            if not self.settle(eng, s, loc):
                continue
            none = eng.decide_eq(s, L(self.curr0)) is True
            if not none and (g["lo"] is None or eng.decide_eq(s, L(g["lo"])) is not True or
                             eng.decide_eq(s, sub(g["hi"], self.curr0)) is not True):
                self.sfind(eng, s, ["C16"], "not every stored reference is released", loc)
                continue
            live = self.live(s)
            if live:
                self.leak(eng, s, live[0], loc)
                continue
            self.c.ob("C16", "every reference with its parts, the array and the list released once")
        self.finish(eng)

    def run_add(self):
        self.eng = eng = self.engine()
        st = State()
        self.unres(eng, st)
        r = self.new_ref(eng, st)
        r.name = "new reference"
        parts = self.parts(st, r.id)
        before = {x: (dict(st.objs[x].cells), st.objs[x].sv) for x in parts}
        ok, oom = self.c.mac["FORWARD_REFERENCE_INSERTION_SUCCESS"], self.c.err("MEMORY_ALLOCATION_FAIL")
        res = eng.start(st, "add_forward_ref", [Ptr(self.un, 0), Ptr(r.id, 0)])
        for s, v in self.results(eng, res, "add_forward_ref"):
            loc = self.lastloc(s)
            if v == oom and not s.g.get("oom"):
                self.sfind(eng, s, ["C06", "C17"], "storing a reference fails although there is memory", loc)
                continue
            if v not in (ok, oom):
                self.sfind(eng, s, ["C06", "C12"], "add_forward_ref returns %s" % (eng.show(v) if v is not UNDEF else "an uninitialised value"), loc)
                continue
            bad = [x for x in parts if s.objs[x].freed or (dict(s.objs[x].cells), s.objs[x].sv) != before[x]]
            if bad:
                self.sfind(eng, s, ["C06", "C16"], "storing a reference alters it", loc)
                continue
            if s.objs[self.un].freed:
                self.sfind(eng, s, ["C06", "C16", "C17"], "storing a reference releases the list", loc)
                continue
            G = lambda f: self.get(s, self.un, "Unresolved", f)
            p, curr, size = G("refs"), G("curr"), G("size")
            o = s.objs.get(p.o) if isinstance(p, Ptr) else None
            pr = ["C06", "C15"] + (["C17"] if v == oom else [])
            if o is None or o.freed or p.off != 0:
                self.sfind(eng, s, pr, "the list is left without a valid array", loc)
                continue
            live = self.live(s, parts + [self.un, p.o])
            if live:
                self.leak(eng, s, live[0], loc)
                continue
            want = add(self.curr0, 1) if v == ok else self.curr0
            if not self.eq(eng, s, curr, want):
                self.sfind(eng, s, pr, "the number of stored references is wrong", loc)
                continue
            if size is UNDEF or not eng.entails(s, sub(o.size, scale(self.lin(eng, s, size), 8))):
                self.sfind(eng, s, pr, "the recorded size of the list is not that of its array", loc)
                continue
            size = self.lin(eng, s, size)
            if not (eng.entails(s, sub(sub(size, 1), want)) and
                    eng.entails(s, sub(add(scale(want, 4), 4096), size))):
                self.sfind(eng, s, pr, "no room is left for the end of the list", loc)
                continue
            # content: the old references, the new one, null to the end
            exp = [(scale(self.curr0, 8), self.REFS)]
            if v == ok:
                exp.append((scale(add(self.curr0, 1), 8), Ptr(r.id, 0)))
            if not self.content(eng, s, o, exp, scale(size, 8)):
                self.sfind(eng, s, pr, "the stored references are not what was stored, ended by null", loc)
                continue
            self.c.ob(["C06", "C15", "C16"] + (["C17"] if v == oom else []),
                      "reference stored behind the others, the end marked" if v == ok else
                      "a failed growth leaves the list valid and unchanged")
        self.finish(eng)

    def lin(self, eng, s, v):
        return eng.tolin(s, v) if isinstance(v, FV) else v

    def content(self, eng, s, o, exp, end):
        """do the segments of the array say: exp, then null at the next element at least"""
        if o.segs is None:
            return False
        pos, k = 0, 0
        segs = [(e, v) for e, v in o.segs]
        last = 0
        for e, v in segs:
            if eng.decide_eq(s, sub(e, last)) is True:
                continue                  # empty
            if k < len(exp):
                while k < len(exp) and eng.decide_eq(s, sub(exp[k][0], last)) is True:
                    k += 1
            if k < len(exp):
                if v != exp[k][1] or eng.decide_eq(s, sub(e, exp[k][0])) is not True:
                    return False
                k += 1
                last = e
                continue
            # the rest, up to the recorded size
            if v is not NULL and not eng.entails(s, sub(last, end)):
                return False
            last = e
        return k >= len(exp) and eng.entails(s, sub(last, end))

    def run_create(self):
        self.eng = eng = self.engine()
        st = State()
        b, sv = eng.new_str(st, "root", "line", 1, MAXSRC)
        b.tag = "const"
        q = eng.var("operand position", 0, MAXSRC)
        eng.assume_ge(st, sub(sub(sv.N, q), 1))
        a = eng.fvar("first character of the operand", 256)
        st.masks[a] = WORD
        # a line break can only be the last character
        st.wsv(sv.id).segs.append((0, sub(sv.N, 1), ((1 << 256) - 1) & ~(1 << 10)))
        st.wsv(sv.id).sym.append((q, FV(a, tuple(range(256)))))
        st.g["pins"] = ((sv.id, q),)
        ni = eng.new_obj(st, "root", self.ssize("Instruction"), "undef", "instruction")
        fields = {}
        for f in ("mnemonic", "addr_bitfield", "addr_bitflag", "opcode"):
            fields[f] = eng.var(f, -1, 0xFFFF)
            self.put(st, ni.id, "Instruction", f, fields[f])
        tok = eng.new_obj(st, "root", self.ssize("Token"), "undef", "operand")
        lab, lv = eng.new_str(st, "root", "label", 1, 63)
        lv.ident = "label"
        lab.tag = "const"
        self.put(st, tok.id, "Token", "str", Ptr(lab.id, 0))
        self.put(st, tok.id, "Token", "type", self.c.tt["TOKEN_LABEL"])
        self.put(st, tok.id, "Token", "buffer_location", Ptr(b.id, q))
        ni.tag = tok.tag = "const"
        status = eng.var("status", -64, 1 << 20)
        pc = eng.var("pc", 0, 0xFFFF)
        num = eng.var("line number", 1, MAXSRC)
        res = eng.start(st, "create_forward_ref",
                        [Ptr(b.id, 0), Ptr(ni.id, 0), Ptr(tok.id, 0), status, pc, num])
        for s, v in self.results(eng, res, "create_forward_ref"):
            loc = self.lastloc(s)
            live = self.live(s)
            if v is NULL:
                if not s.g.get("oom"):
                    self.sfind(eng, s, ["C06", "C17"], "no reference is made although there is memory", loc)
                elif live:
                    self.leak(eng, s, live[0], loc)
                else:
                    self.c.ob(["C17", "C16"], "failed construction of a reference releases everything")
                continue
            if not isinstance(v, Ptr) or v.off != 0 or s.objs[v.o].freed:
                self.sfind(eng, s, ["C06", "C15"], "create_forward_ref returns no reference", loc)
                continue
            G = lambda f: self.get(s, v.o, "ForwardRef", f)
            bad = False
            for f, x, p in (("pc", pc, ["C06", "C04"]), ("line_num", num, ["C13"]),
                            ("operand_status", status, ["C06"])):
                if not self.eq(eng, s, G(f), x):
                    self.sfind(eng, s, p, "a stored reference does not keep its %s" % f, loc)
                    bad = True
            obj = {}
            for f in BLOCKS:
                x = G(f)
                o = s.objs.get(x.o) if isinstance(x, Ptr) else None
                if o is None or o.freed or x.off != 0 or o.kind != "heap":
                    self.sfind(eng, s, ["C06", "C15", "C16"], "a stored reference has no %s of its own" % f, loc)
                    bad = True
                obj[f] = o
            if bad:
                continue
            if len({o.id for o in obj.values()} | {v.o}) != 4:
                self.sfind(eng, s, ["C16"], "parts of a stored reference share their memory", loc)
                continue
            live = self.live(s, [o.id for o in obj.values()] + [v.o])
            if live:
                self.leak(eng, s, live[0], loc)
                continue
            o = obj["label"]
            if o.sv is None or o.cells or str(s.svs[o.sv].ident) != "label" or \
                    not eng.entails(s, sub(o.size, add(s.svs[o.sv].N, 1))):
                self.sfind(eng, s, ["C06", "C08"] + (["C15"] if o.sv is None else []),
                           "a stored reference does not keep its label", loc)
                continue
            for f, x in fields.items():
                if not self.eq(eng, s, self.get(s, obj["instr"].id, "Instruction", f), x):
                    self.sfind(eng, s, ["C06"], "a stored reference does not keep its instruction's %s" % f, loc)
                    bad = True
            if bad:
                continue
            x = G("operand_location")
            if not isinstance(x, Ptr) or x.o != obj["source_line"].id or not self.eq(eng, s, x.off, q):
                self.sfind(eng, s, ["C14", "C06"], "the operand's position in the stored line is wrong", loc)
                continue
            if not self.text(eng, s, obj["source_line"], sv.id, q, loc):
                continue
            self.c.ob(["C06", "C13", "C14"], "reference created: line, label, instruction, address copied")
        self.finish(eng)

    def text(self, eng, s, o, sid, q, loc):
        """a copy of the line without white space at its end"""
        v = s.svs.get(o.sv) if o.sv is not None else None
        if v is None or o.cells:
            self.sfind(eng, s, ["C13", "C15"], "a stored reference does not keep its line", loc)
            return False
        if o.sv != sid:
            if v.parent is None or v.parent[0] != sid or eng.decide_eq(s, L(v.parent[1])) is not True:
                self.sfind(eng, s, ["C13"], "a stored reference does not keep its line", loc)
                return False
            if not eng.entails(s, sub(v.N, add(q, 1))):
                self.sfind(eng, s, ["C13", "C14", "C15"], "the stored line ends before its operand", loc)
                return False
            if not eng.loops.seg_cover(s, sid, v.N, s.svs[sid].N, SPACE):
                self.sfind(eng, s, ["C13"], "the stored line lacks characters of the source line", loc)
                return False
        if not eng.entails(s, sub(o.size, add(v.N, 1))):
            self.sfind(eng, s, ["C15"], "the stored line is not terminated", loc)
            return False
        return True


def run(c):
    for mode in ("init", "destroy", "add", "create"):
        getattr(FrefHarness(c), "run_" + mode)()
