"""print_error(): what is printed for every error code, every text and every
position.  The output is followed by an automaton (message line, echoed line,
arrow line) whose counters are compared with the display column, kept as
8 * k + m alongside the characters the program reads in order."""
from .base import Harness, MAXSRC
from .dom import Lin, FV, Ptr, NULL, UNDEF, add, sub, scale
from .engine import State
from .ir import Broken
from .libc import cstr

ALL = (1 << 256) - 1
# characters that may be cut from the end of the echoed line
SPACE = sum(1 << c for c in (9, 10, 11, 12, 13, 32, 255))
# characters that no token (and no illegal character) is
NOTOKEN = sum(1 << c for c in (0, 9, 10, 13, 32, 255))
# characters that must be
BLANK = sum(1 << c for c in (9, 10, 32))

INTERNAL = ("SYMBOL_NOT_FOUND", "INSTRUCTION_NOT_FOUND", "BITFIELD_NOT_FOUND", "ILLEGAL_MNEMONIC")


# words of which a message has one, so that it says what failed
WORDS = {
    "MEMORY_ALLOCATION_FAIL": ("memory",),
    "ILLEGAL_CHAR": ("char",),
    "TOO_BIG_LITERAL": ("literal", "value", "number"),
    "TOO_LONG_LABEL": ("label",),
    "TOO_MANY_TOKENS": ("sequence", "token", "syntax", "many"),
    "ILLEGAL_SEQUENCE": ("sequence", "syntax"),
    "LABEL_REDEFINITION": ("redefin", "already", "duplicate", "twice"),
    "ILLEGAL_FORWARD_REFERENCE": ("forward",),
    "ILLEGAL_ADDRESSING_MODE": ("mode",),
    "TOO_BIG_OFFSET": ("offset", "branch", "far"),
    "FILE_OPEN_FAIL": ("open",),
    "BINARY_FILE_CREATION_FAIL": ("creat",),
    "MISSING_LABEL_DEFINITION": ("not found", "undefined", "missing", "not defined", "never"),
    "ILLEGAL_DIRECTIVE": ("directive",),
    "ILLEGAL_BASE": ("base",),
    "FILE_READ_FAIL": ("read",),
    "BINARY_FILE_WRITE_FAIL": ("writ",),
    "TOO_BIG_ADDRESS": ("address",),
}


def codes(c):
    """error code -> is it one that users see"""
    return {v: k[6:] not in INTERNAL for k, v in c.mac.items() if k.startswith("ERROR_")}


class ErrHarness(Harness):
    unit = "err"
    joins = True

    def __init__(self, ctx, mode, always=False, keyed=True):
        super().__init__(ctx)
        self.keyed = keyed
        self.always = always    # follow the column before the line was shown, too
        self.mode = mode
        self.counters = {}
        self.names = {v: k[6:] for k, v in ctx.mac.items() if k.startswith("ERROR_")}

    def hints(self, eng, st):
        g = st.g
        out = self.pin_hints(eng, st)
        out.append(sub(scale(g["x"], 8), self.col(st)))
        if self.mode == "arrow":
            # nothing behind the position is looked at for its column
            out.append(sub(self.q, g["x"]))
            for v in [c[1] for o in st.objs.values() if o.kind == "stack" and not o.freed
                      for c in o.cells.values()]:
                x = v.off if isinstance(v, Ptr) and st.objs[v.o].sv == self.sid else v
                if isinstance(x, Lin):
                    out.append(sub(self.q, x))
        return out

    def col(self, st):
        return add(scale(st.g["k"], 8), int(st.g["m"][1:]))

    def head_key(self, eng, st, fn, header):
        """counters that the loop compares with a small constant are kept apart by value"""
        if self.mode != "arrow" or not self.keyed:
            return None
        k = (fn.name, header)
        if k not in self.counters:
            al = eng.loops.scalars(fn)
            ld, top = {}, {}
            for b in fn.blocks:
                for i in b.ins:
                    if i.op == "load" and i.a[0][0] == "r" and i.a[0][1] in al:
                        ld[i.dst] = i.a[0][1]
            for n in fn.loops[header]:
                for i in fn.bmap[n].ins:
                    if i.op == "icmp":
                        for x, y in (i.a, i.a[::-1]):
                            if x[0] == "r" and x[1] in ld and y[0] == "c" and 1 < y[1] <= 16:
                                r = ld[x[1]]
                                top[r] = max(top.get(r, 0), y[1])
            self.counters[k] = top
        out = []
        for r, m in sorted(self.counters[k].items()):
            p = st.fr.regs.get(r)
            if isinstance(p, Ptr) and p.o in st.objs:
                v = [c[1] for c in st.objs[p.o].cells.values()]
                out.append((r, v[0] if len(v) == 1 and isinstance(v[0], int) and -1 <= v[0] <= m + 1 else None))
        return tuple(out)

    # ---- the column of the characters read so far
    def on_char(self, eng, st, o, off, v):
        g = st.g
        if self.mode != "arrow" or o.sv != self.sid or not (self.always or g["ph"] == "pad"):
            return [(st, v)]
        if eng.decide_eq(st, sub(off, g["x"])) is not True:
            if eng.decide_eq(st, sub(off, 0)) is not True:
                return [(st, v)]
            g.update(x=0, k=0, m="m0")
        if isinstance(v, int):
            self.step(st, v & 255 == 9)
            return [(st, v)]
        out = []
        m = eng.mask(st, v.a)
        tab = sum(1 << i for i, c in enumerate(v.t) if m >> i & 1 and c & 255 == 9)
        for mm, t in ((tab, True), (m & ~tab, False)):
            if mm:
                s = st.copy()
                s.masks[v.a] = mm
                self.step(s, t)
                out.append((s, v))
        return out

    @staticmethod
    def step(st, tab):
        g = st.g
        m = int(g["m"][1:])
        g["x"] = add(g["x"], 1)
        if tab or m == 7:
            g["k"], g["m"] = add(g["k"], 1), "m0"
        else:
            g["m"] = "m%d" % (m + 1)

    # ---- the output
    def output(self, eng, st, dest, items, ins):
        sts = [st]
        for it in items:
            nxt = []
            for s in sts:
                nxt += self.item(eng, s, it, eng.where(ins))
            sts = nxt
        return sts

    def item(self, eng, st, it, loc):
        g = st.g
        if it[0] == "lit":
            b = it[1]
            i = 0
            while i < len(b):
                ph = g["ph"]
                if ph == "head":
                    j = b.find(b"\n", i)
                    part = b[i:] if j < 0 else b[i:j]
                    if any(chr(c).isalpha() for c in part):
                        self.seen(st, "t")
                    g["msg"] += part.decode("latin1").lower()
                    if j < 0:
                        return [st]
                    i = j + 1
                    if g["has"]:
                        if not self.headline(eng, st, loc):
                            return []
                        g["ph"] = "tail" if self.mode == "none" else "echo"
                elif ph == "echo":
                    if not self.byte(eng, st, b[i], loc):
                        return []
                    i += 1
                elif ph == "pad":
                    c = b[i]
                    if c == 32:
                        g["pad"] = add(g["pad"], 1)
                    elif c == 9:
                        g["pad"] = add(g["pad"], sub(8, eng.mod(st, g["pad"], 8)))
                    elif c == 10:
                        g["ph"] = "tail"
                    elif not self.arrow(eng, st, loc):
                        return []
                    i += 1
                else:
                    return [st]
            return [st]
        ph = g["ph"]
        if ph == "tail":
            return [st]
        if it[0] == "S" and it[3] is not None:
            return self.wide(eng, st, it, loc)
        if ph == "head":
            if it[0] == "s" and not it[1] and it[2] == self.fname:
                self.seen(st, "f")
                return [st]
            if it[0] in "diu" and not it[1]:
                if self.eq(eng, st, it[2], self.num):
                    self.seen(st, "n")
                return [st]
            if it[0] in "sS":
                b = cstr(eng, st, it[2], None) if it[0] == "s" else None
                if b is not None:
                    return self.item(eng, st, ("lit", b), loc)
            if it[0] in "cdiux":
                return [st]
            raise Broken("output of %r at %s" % (it, loc))
        if it[0] == "c":
            if ph == "echo":
                return [st] if self.char(eng, st, it[2], loc) else []
            v = it[2]
            if not isinstance(v, (int, FV)):
                raise Broken("unknown character printed at " + loc)
            out = []
            for s, k in eng.split_vals(st, v, 256):
                out += self.item(eng, s, ("lit", bytes([k & 255])), loc)
            return out
        if it[0] in "sSB" and isinstance(it[2], Ptr):
            if ph == "echo":
                return self.piece(eng, st, it, loc)
            b = cstr(eng, st, it[2], None)
            if b is not None and it[0] == "s" and not it[1]:
                return self.item(eng, st, ("lit", b), loc)
        raise Broken("output of %r at %s" % (it, loc))

    def seen(self, st, x):
        if x not in st.g["has"]:
            st.g["has"] = "".join(sorted(st.g["has"] + x))

    def wide(self, eng, st, it, loc):
        """a text padded to a width"""
        _, fl, p, w, pr = it
        b = cstr(eng, st, p, None)
        if b is None or pr is not None or fl.strip("-"):
            raise Broken("padded output at " + loc)
        out = []
        w = eng.tolin(st, w) if isinstance(w, FV) else w
        for s, neg_ in eng.split_ge(st, sub(-1, w)):
            left = "-" in fl or neg_
            ww = sub(0, w) if neg_ else w
            for s2, more in eng.split_ge(s, sub(ww, len(b))):
                n = sub(ww, len(b)) if more else 0
                if s2.g["ph"] != "pad":
                    raise Broken("padded output at " + loc)
                if left:
                    for s3 in self.item(eng, s2, ("lit", b), loc):
                        if s3.g["ph"] == "pad":
                            s3.g["pad"] = add(s3.g["pad"], n)
                        out.append(s3)
                else:
                    s2.g["pad"] = add(s2.g["pad"], n)
                    out += self.item(eng, s2, ("lit", b), loc)
        return out

    # ---- message line
    def headline(self, eng, st, loc):
        has, msg = st.g["has"], st.g["msg"]
        st.g["msg"] = ""
        if "t" not in has:
            self.sfind(eng, st, ["C13"], "error %s is printed without a message" % self.name(st), loc, "print_error")
            return False
        for k in self.these(st):
            w = WORDS.get(self.names.get(k))
            if w is not None and not any(x in msg for x in w):
                self.sfind(eng, st, ["C13"], "the message of error %s does not say what failed: %r" % (
                    self.names[k], msg), loc, "print_error")
                return False
        if self.mode != "none":
            for x, w in (("f", "the file name"), ("n", "the line number")):
                if x not in has:
                    self.sfind(eng, st, ["C13"], "the message of error %s lacks %s" % (self.name(st), w), loc, "print_error")
                    return False
        return True

    def name(self, st):
        return "/".join(self.names.get(k, str(k)) for k in sorted(self.these(st), reverse=True)[:4])

    def these(self, st):
        return [self.code] if isinstance(self.code, int) else self.eng.fvals(st, self.code.a, self.code.t)

    # ---- echoed line
    def at(self, eng, st, off):
        """what is known to be the character at this position"""
        sv = st.svs[self.sid]
        for o, v in list(sv.sym) + list(sv.cells.items()):
            if eng.decide_eq(st, sub(o, off)) is True:
                return v
        return None

    def bytes_of(self, eng, st, v):
        if isinstance(v, int):
            return 1 << (v & 255)
        m = eng.mask(st, v.a)
        return sum({1 << (c & 255) for i, c in enumerate(v.t) if m >> i & 1})

    def char(self, eng, st, v, loc):
        e = st.g["e"]
        if v is UNDEF:
            eng.find(st, "undef", loc, "an uninitialised character is printed")
            return False
        k = self.at(eng, st, e)
        ok = False
        if isinstance(k, FV) and isinstance(v, FV) and k.a == v.a:
            m = eng.mask(st, k.a)
            ok = all((x - y) % 256 == 0 for i, (x, y) in enumerate(zip(k.t, v.t)) if m >> i & 1)
        elif k is not None and isinstance(v, (int, FV)):
            a, b = self.bytes_of(eng, st, k), self.bytes_of(eng, st, v)
            ok = a == b and a & (a - 1) == 0
        if not ok:
            b = self.bytes_of(eng, st, v) if isinstance(v, (int, FV)) else 0
            if b == 1 << 10:
                return self.echoed(eng, st, loc)
            self.sfind(eng, st, ["C14", "C13"], "the line shown is not the source line", loc, "print_error")
            return False
        st.g["e"] = add(e, 1)
        return True

    def byte(self, eng, st, c, loc):
        if c == 10:
            return self.echoed(eng, st, loc)
        return self.char(eng, st, c, loc)

    def piece(self, eng, st, it, loc):
        g = st.g
        p = it[2]
        o = st.objs.get(p.o)
        sv = st.svs.get(o.sv) if o is not None and o.sv is not None else None
        if it[1] or sv is None or o.cells:
            b = cstr(eng, st, p, None)
            if b is not None and it[0] == "s" and not it[1]:
                return self.item(eng, st, ("lit", b), loc)
            raise Broken("output of %r at %s" % (it, loc))
        at = p.off
        if o.sv != self.sid:
            if sv.parent is None or sv.parent[0] != self.sid:
                self.sfind(eng, st, ["C14", "C13"], "the text shown is not the source line", loc, "print_error")
                return []
            at = add(at, sv.parent[1])
        if eng.decide_eq(st, sub(at, g["e"])) is not True:
            self.sfind(eng, st, ["C14", "C13"], "the line shown is not the source line from its start", loc, "print_error")
            return []
        rest = sub(sv.N, p.off)
        if it[0] == "s":
            g["e"] = add(g["e"], rest)
            return [st]
        n = it[4]
        n = eng.tolin(st, n) if isinstance(n, FV) else n
        out = []
        for s, neg_ in eng.split_ge(st, sub(-1, n)):
            if neg_ and it[0] == "S":
                s.g["e"] = add(s.g["e"], rest)
                out.append(s)
                continue
            for s2, over in eng.split_ge(s, sub(sub(n, rest), 1)):
                if over and it[0] == "B":
                    self.sfind(eng, s2, ["C14", "C13"], "more than the source line is shown", loc, "print_error")
                    continue
                s2.g["e"] = add(s2.g["e"], rest if over else n)
                out.append(s2)
        return out

    def echoed(self, eng, st, loc):
        g = st.g
        N = st.svs[self.sid].N
        if not eng.loops.seg_cover(st, self.sid, g["e"], N, SPACE):
            self.sfind(eng, st, ["C14", "C13"], "the source line is not shown completely", loc, "print_error")
            return False
        k = self.at(eng, st, sub(g["e"], 1))
        if k is None or self.bytes_of(eng, st, k) & BLANK:
            self.sfind(eng, st, ["C14"], "white space at the end of the source line is shown", loc, "print_error")
            return False
        g["ph"] = "pad"
        return True

    # ---- arrow line
    def arrow(self, eng, st, loc):
        g = st.g
        g["ph"] = "tail"
        if self.mode != "arrow":
            self.sfind(eng, st, ["C14"], "an arrow is printed although there is no position", loc, "print_error")
            return False
        if eng.decide_eq(st, sub(g["x"], self.q)) is not True:
            self.sfind(eng, st, ["C14"], "the arrow's column is not computed from the text before the position", loc, "print_error")
            return False
        if eng.decide_eq(st, sub(g["pad"], self.col(st))) is not True:
            self.sfind(eng, st, ["C14"], "the arrow is not below the position: column %s instead of %s" % (
                eng.show(g["pad"]), eng.show(self.col(st))), loc, "print_error")
            return False
        g["arrow"] = "1"
        return True

    # ---- driver
    def run(self, code):
        self.eng = eng = self.engine()
        st = State()
        if not isinstance(code, int):
            code = FV(eng.fvar("error code", len(code)), tuple(code))
        self.code = code
        fn, _ = eng.new_str(st, "root", "file name", 0, 1 << 20)
        fn.tag = "const"
        self.fname = Ptr(fn.id, 0)
        st.g.update(ph="head", has="", msg="", e=0, pad=0, x=0, k=0, m="m0", arrow="")
        line = bad = NULL
        self.num = 0
        self.sid = None
        if self.mode != "none":
            b, sv = eng.new_str(st, "root", "line", 1, MAXSRC)
            b.tag = "const"
            self.sid = sv.id
            self.num = eng.var("line number", 1, MAXSRC)
            # something that is not white space, not behind the position
            p = eng.var("first character", 0, MAXSRC)
            eng.assume_ge(st, sub(sub(sv.N, p), 1))
            a = eng.fvar("a character", 256)
            st.masks[a] = ALL & ~NOTOKEN
            st.wsv(sv.id).sym.append((p, FV(a, tuple(range(256)))))
            st.g["pins"] = ((sv.id, p),)
            line = Ptr(b.id, 0)
            if self.mode == "arrow":
                self.q = eng.var("position", 0, MAXSRC)
                eng.assume_ge(st, sub(self.q, p))
                eng.assume_ge(st, sub(sv.N, self.q))
                bad = Ptr(b.id, self.q)
        res = eng.start(st, "print_error", [line, code, bad, self.fname, self.num])
        for kind, v, s, loc in eng.terminals:
            self.sfind(eng, s, ["C12"], "the program ends inside print_error", loc, "print_error")
        for s, _ in res:
            loc = self.lastloc(s)
            if s.ev:
                self.sfind(eng, s, ["C19", "C20"], "print_error has an effect other than its message: %s" % s.ev[0][0],
                           loc, "print_error")
                continue
            live = [o for o in s.objs.values() if o.kind == "heap" and not o.freed]
            if live:
                self.sfind(eng, s, ["C16"], "memory is lost: %s" % live[0].name, loc, "print_error")
                continue
            ph = s.g["ph"]
            if ph == "head":
                self.sfind(eng, s, ["C13"], "error %s has no message" % self.name(s), loc, "print_error")
                continue
            if self.mode == "none":
                self.c.ob("C13", "every error code has a message")
                continue
            if ph == "echo":
                self.sfind(eng, s, ["C13", "C14"], "the message of error %s does not show the line" % self.name(s),
                           loc, "print_error")
                continue
            self.c.ob(["C13", "C14"], "message with file name, line number and the line without white space at its end")
            if s.g["arrow"]:
                self.c.ob("C14", "arrow in the display column of the position, tabs to multiples of 8")
        self.c.absorb(eng, "err")


def run(c):
    cs = sorted(k for k, user in codes(c).items() if user)
    for mode in ("none", "echo", "arrow"):
        keep = (list(c.findings), dict(c.obl))
        first = None
        for always, keyed in ((False, True), (True, True), (True, False))[:1 if mode != "arrow" else 3]:
            c.findings, c.obl = list(keep[0]), dict(keep[1])
            c.partial.clear()
            try:
                ErrHarness(c, mode, always, keyed).run(cs)
                if len(c.findings) == len(keep[0]):
                    break
                if first is None or isinstance(first, Broken):
                    first = (c.findings, c.obl)
            except Broken as e:
                if first is None:
                    first = e
        else:
            # neither way of following the column decides it
            if isinstance(first, Broken):
                raise first
            c.findings, c.obl = first
