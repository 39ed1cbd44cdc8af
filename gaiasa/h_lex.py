"""The lexer: lex() for every text of one token, and lex_line() over a
contract for lex().  Together they justify the lex_line contract that the
whole-program harness uses."""
from .base import Harness, I8, I32, I64, MAXSRC
from .ir import Broken, PTR
from .dom import (Lin, FV, Ptr, PtrInt, Fn, Flt, NULL, UNDEF, INF, add, sub, scale, neg, L,
                  atoms_of, subst)
from .engine import State
from .libc import upper
from . import spec

WS = b" \t"
END = b"\r\n;\0\xff"
TERM = b" \t\r\n\0,();\xff"
DIG = b"0123456789"
ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
PUNCT = {"#": "TOKEN_IMMEDIATE", "(": "TOKEN_OPEN_PARENTHESIS", ")": "TOKEN_CLOSE_PARENTHESIS",
         ",": "TOKEN_COMMA", "=": "TOKEN_EQUAL_SIGN", "*": "TOKEN_BASE"}
REGS = {"X": "TOKEN_X_REGISTER", "Y": "TOKEN_Y_REGISTER", "A": "TOKEN_ACCUMULATOR"}
DIRS = {".DEFINE": "TOKEN_DEFINE_DIRECTIVE", ".EQU": "TOKEN_EQU_DIRECTIVE",
        ".ORG": "TOKEN_ORG_DIRECTIVE", ".END": "TOKEN_END_DIRECTIVE"}
BASES = {16: b"0123456789ABCDEFabcdef", 2: b"01", 10: DIG}
ALL = (1 << 256) - 1


def bm(s):
    m = 0
    for c in s:
        m |= 1 << c
    return m


def digit(c):
    return int(chr(c), 16)


class TextHarness(Harness):
    """facts about the characters of a text"""
    bytemerge = True

    def charmask(self, eng, st, sid, off):
        """possible byte values of the text at offset off (0: the terminator)"""
        sv = st.svs[sid]
        d = sub(sv.N, off)
        e = eng.decide_eq(st, d)
        if e is True:
            return 1
        m = ALL & ~1
        v = None
        if isinstance(off, int) and off in sv.cells:
            v = sv.cells[off]
        else:
            for o, x in list(sv.sym) + list(sv.cells.items()):
                if o == off or eng.decide_eq(st, sub(o, off)) is True:
                    v = x
                    break
        known = v is not None
        if known:
            if isinstance(v, int):
                m = 1 << (v & 255)
            else:
                fm, m = eng.mask(st, v.a), 0
                for i in range(eng.fvn[v.a]):
                    if fm >> i & 1:
                        m |= 1 << (v.t[i] & 255)
            return m
        m &= ~sv.excl
        for lo, hi, sm in sv.segs:
            if eng.entails(st, sub(off, lo)) and eng.entails(st, sub(sub(hi, 1), off)):
                m &= sm
                known = True
        if not eng.entails(st, sub(d, 1)):
            m |= 1
        return m

    def span(self, eng, st, sid, lo, hi, m):
        """all characters in [lo, hi) in class m?"""
        if eng.entails(st, sub(lo, hi)):
            return True
        if isinstance(lo, int) and isinstance(hi, int):
            return all(self.charmask(eng, st, sid, i) & ~m == 0 for i in range(lo, hi))
        return eng.loops.seg_cover(st, sid, lo, hi, m)

    def string_ok(self, eng, st, p, cap=64):
        """a NUL-terminated string inside a token buffer?"""
        if isinstance(p, Ptr):
            eng.as_text(st, p.o)
        o = st.objs.get(p.o) if isinstance(p, Ptr) else None
        if o is None or p.off != 0:
            return False
        if o.sv is not None and not o.cells:
            return eng.entails(st, sub(cap - 1, st.svs[o.sv].N))
        for i in range(cap):
            c = o.cells.get(i)
            if c is None:
                if o.sv is not None:
                    sv = st.svs[o.sv]
                    # old text below the new characters
                    if eng.decide_eq(st, sub(sv.N, i)) is True:
                        return True
                    if not eng.entails(st, sub(sv.N, i + 1)):
                        return False
                    continue
                return o.default == "zero"
            if c[0] != 1 or c[1] is UNDEF:
                return False
            if c[1] == 0:
                return True
        return False

    def token(self, eng, st, name, text=None):
        """a token object; text: string SV or None for an uninitialised buffer"""
        t = eng.new_obj(st, "root", self.ssize("Token"), "undef", name)
        s = eng.new_obj(st, "root", 64, "undef", name + " text")
        if text is not None:
            s.sv = text.id
        self.put(st, t.id, "Token", "str", Ptr(s.id, 0))
        return t

    def tv(self, name):
        if name not in self.c.tt:
            raise Broken("token type %s is gone" % name)
        return self.c.tt[name]

    def on_write(self, eng, st, o, vals, ins):
        return [st]

    def output(self, eng, st, dest, items, ins):
        st.emit("out", dest, eng.where(ins))
        return [st]

    def bitfields(self, eng):
        from .h_main import MainHarness
        return MainHarness.bitfields(self, eng)


class LexHarness(TextHarness):
    """lex(): one token at the start of an arbitrary text"""
    unit = "lex"
    textcopy = False

    CLASSES = ("word", "dir", "hex", "bin", "dec", "punct", "other")

    def __init__(self, ctx, cls, eager=False):
        super().__init__(ctx)
        self.cls = cls
        self.eager = eager          # read the digits known before a loop at once
        self.base = {"hex": 16, "bin": 2, "dec": 10}.get(cls)
        self.start0 = 1 if cls in ("hex", "bin") else 0

    def run(self):
        eng = self.eng = self.engine()
        eng.contracts["print_error"] = lambda e, st, v, i: [(self.emit(st, "err"), None)]
        st = State()
        c0 = {"word": bm(ALPHA), "dir": bm(b"."), "hex": bm(b"$"), "bin": bm(b"%"), "dec": bm(DIG),
              "punct": bm(b"#(),=*")}
        c0["other"] = ALL & ~(bm(WS) | bm(END)) & ~sum(c0.values())
        buf, sv = eng.new_str(st, "root", "text", 1, MAXSRC)
        buf.tag = "const"
        a = eng.fvar("text[0]", 256)
        st.masks[a] = c0[self.cls]
        sv.cells[0] = FV(a, tuple(range(256)))
        old = eng.new_sv(st, "old token text", 0, 63)
        tk = self.token(eng, st, "running token", old)
        ta = eng.fvar("old type", self.nt)
        self.put(st, tk.id, "Token", "type", FV(ta, tuple(range(self.nt))))
        self.oldv = eng.var("old value", 0, 0xFFFF)
        self.put(st, tk.id, "Token", "value", self.oldv)
        self.put(st, tk.id, "Token", "error_char", NULL)
        io = eng.new_obj(st, "root", self.ssize("Instruction"), "undef", "instruction")
        self.buf, self.sv, self.tk, self.io = buf.id, sv.id, tk.id, io.id
        self.old = old.id
        if self.base:
            st.g["pins"] = ((sv.id, 0),)
            st.g.update(mode="lit", V=0, cur=self.start0, over=False)
        res = eng.start(st, "lex", [Ptr(buf.id, 0), Ptr(tk.id, 0), Ptr(io.id, 0)])
        for kind, v, s, loc in eng.terminals:
            self.sfind(eng, s, ["C12"], "the program ends inside the lexer", loc, "lex")
        seen = {}
        for s, v in res:
            if isinstance(v, FV):
                vs = eng.split_vals(s, v)
            elif isinstance(v, Lin):
                v = eng.nrm(s, v)
                vs = [(s, v)]
            else:
                vs = [(s, v)]
            for s2, k in vs:
                self.check(eng, s2, k)
        self.c.absorb(eng, "lex")
        return eng

    def emit(self, st, *e):
        st.emit(*e)
        return st

    # ---- the digit machine
    def loop_policy(self, eng, st, fn, header):
        return "det" if st.g.get("mode") == "lit" and self.base and not self.counted(fn, header) else None

    def counted(self, fn, header):
        return False

    def hints(self, eng, st):
        v = st.g.get("V")
        return [sub(0xFFFF, v), v] if isinstance(v, Lin) else []

    def at_head(self, eng, st, fn, header, entry):
        if st.g.get("mode") != "lit":
            return [st]
        if entry:
            return self.restart(eng, st)
        return self.consume(eng, st, 1)

    def on_back(self, eng, st, fn, header):
        return self.at_head(eng, st, fn, header, False)

    def restart(self, eng, st):
        """a new pass over the digits begins when the last one met their end"""
        if st.g["cur"] != self.start0 and \
                self.charmask(eng, st, self.sv, st.g["cur"]) & bm(BASES[self.base]) == 0:
            st.g.update(V=0, cur=self.start0, over=False)
        return self.consume(eng, st, 400) if self.eager else [st]

    def consume(self, eng, st, limit):
        """advance the reference reading of the digits over characters that
        the program has looked at"""
        out, pend = [], [st]
        dm = bm(BASES[self.base])
        for _ in range(limit):
            nxt = []
            for s in pend:
                cur = s.g["cur"]
                sv = s.svs[self.sv]
                v = None
                for o, x in list(sv.cells.items()) + list(sv.sym):
                    if o == cur or eng.decide_eq(s, sub(o, cur)) is True:
                        v = x
                        break
                if v is None or self.charmask(eng, s, self.sv, cur) & ~dm:
                    out.append(s)
                    continue
                if isinstance(v, int):
                    d = digit(v & 255)
                else:
                    d = FV(v.a, tuple(digit(x & 255) if dm >> (x & 255) & 1 else 0 for x in v.t))
                    d = eng.tolin(s, eng.nrm(s, d))
                s.g["cur"] = add(cur, 1)
                if s.g["over"]:
                    nxt.append(s)
                    continue
                w = add(scale(s.g["V"], self.base), d)
                for s2, big in eng.split_ge(s, sub(w, 0x10000)):
                    if big:
                        s2.g["over"], s2.g["V"] = True, 0
                    else:
                        s2.g["V"] = eng.nrm(s2, w)
                    nxt.append(s2)
            pend = nxt
            if not pend:
                break
        return out + pend

    # ---- results
    def check(self, eng, st, ret):
        c = self.c
        loc = self.lastloc(st)
        if ret is UNDEF:
            self.sfind(eng, st, ["C15", "C19"], "lex returns an uninitialised value", loc, "lex")
            return
        for e in st.ev:
            self.sfind(eng, st, ["C19", "C20"], "lex has an effect other than on the token: %s" % (e[0],),
                       e[-1] if isinstance(e[-1], str) else loc, "lex")
            return
        if isinstance(ret, Lin):
            r = eng.split_ge(st, sub(ret, 1))
            if any(not k for _, k in r):
                self.sfind(eng, st, self.main_prop(), "lex returns %s, neither a length nor an error" % eng.show(ret), loc, "lex")
                return
        if self.get(st, self.tk, "Token", "buffer_location") != Ptr(self.buf, 0) and \
                not (isinstance(ret, int) and ret < 0):
            self.sfind(eng, st, ["C14"], "the token does not record its position", loc, "lex")
        p = self.get(st, self.tk, "Token", "str")
        if not self.string_ok(eng, st, p):
            self.sfind(eng, st, ["C15"], "the token text is not a terminated string", loc, "lex")
        c.ob("C15", "token text stays a terminated string of at most 63 characters")
        err = {self.mac(k): k for k in ("ILLEGAL_CHAR", "TOO_BIG_LITERAL", "TOO_LONG_LABEL", "ILLEGAL_DIRECTIVE")}
        if isinstance(ret, int) and ret <= 0:
            if ret not in err:
                self.sfind(eng, st, self.main_prop(), "lex returns %d, neither a length nor a lexical error" % ret, loc, "lex")
                return
            self.rejected(eng, st, err[ret], loc)
            return
        t = self.get(st, self.tk, "Token", "type")
        v = self.get(st, self.tk, "Token", "value")
        if v is UNDEF or isinstance(v, (Ptr, PtrInt)) or t is UNDEF:
            self.sfind(eng, st, ["C19", "C15"], "an accepted token has no value or type", loc, "lex")
            return
        lv = eng.tolin(st, v)
        if not (eng.entails(st, lv) and eng.entails(st, sub(0xFFFF, lv))):
            self.sfind(eng, st, ["C09"], "the value of an accepted token may exceed $FFFF", loc, "lex")
            return
        sv = st.svs[self.sv]
        if not eng.entails(st, sub(sv.N, ret)):
            self.sfind(eng, st, ["C15", "C07"], "the token length passes the end of the line", loc, "lex")
            return
        getattr(self, "ok_" + ("lit" if self.base else self.cls))(eng, st, ret, t, lv, loc)

    def mac(self, name):
        return self.c.err(name)

    def main_prop(self):
        return ["C09"] if self.base else ["C08"] if self.cls in ("word", "dir") else ["C07"]

    def errpos(self, eng, st, e, loc):
        if not isinstance(e, Ptr) or e.o != self.buf:
            self.sfind(eng, st, ["C14", "C13"], "a lexical error has no position in the line", loc, "lex")
            return None
        off = e.off if not isinstance(e.off, FV) else eng.tolin(st, e.off)
        if not (eng.entails(st, off) and eng.entails(st, sub(st.svs[self.sv].N, off))):
            self.sfind(eng, st, ["C14", "C15"], "the position of a lexical error is outside the line", loc, "lex")
            return None
        return eng.nrm(st, off)

    def same_type(self, eng, st, t, name):
        w = self.tv(name)
        if isinstance(t, FV):
            return eng.fvals(st, t.a, t.t) == {w}
        return t == w

    def kindname(self, eng, st, t):
        tn = {v: k for k, v in self.c.tt.items()}
        if isinstance(t, FV):
            return "/".join(sorted(tn.get(x, str(x)) for x in eng.fvals(st, t.a, t.t)))
        return tn.get(t, str(t)) if isinstance(t, int) else "unknown"

    def instr_same(self, eng, st, loc, but=()):
        f = self.m.struct_fields("Instruction")
        for k in f:
            if k == "__size__" or k in but:
                continue
            if self.get(st, self.io, "Instruction", k) is not UNDEF:
                self.sfind(eng, st, ["C19", "C08"], "a token that is no mnemonic changes the instruction (%s)" % k, loc, "lex")
                return False
        return True

    # punctuation
    def ok_punct(self, eng, st, ret, t, v, loc):
        sv = st.svs[self.sv]
        for s, k in eng.split_vals(st, sv.cells[0]):
            name = PUNCT[chr(k)]
            if ret != 1 or not self.same_type(eng, s, t, name):
                self.sfind(eng, s, ["C07"], "'%s' is read as %s of length %s" % (
                    chr(k), self.kindname(eng, s, t), eng.show(ret)), loc, "lex")
                return
            self.c.ob("C07", "punctuation token recognised")
        self.instr_same(eng, st, loc)

    def ok_other(self, eng, st, ret, t, v, loc):
        self.sfind(eng, st, ["C08", "C07"], "a character that starts no token is accepted as %s" % (
            self.kindname(eng, st, t)), loc, "lex")

    # literals
    def settle(self, eng, st):
        """reference reading completed on this path"""
        out = self.consume(eng, st, 400)
        for s in out:
            s.g["cur"] = eng.nrm(s, s.g["cur"])
            if eng.decide_eq(s, sub(s.g["cur"], self.start0)) is True:
                s.g["cur"] = self.start0
        return out

    def ok_lit(self, eng, st, ret, t, v, loc):
        for s in self.settle(eng, st):
            cur = s.g["cur"]
            m = self.charmask(eng, s, self.sv, cur)
            if eng.decide_eq(s, sub(ret, cur)) is not True:
                self.sfind(eng, s, ["C09"], "an accepted literal is not read to its end (length %s, its digits end at %s)" % (
                    eng.show(ret), eng.show(cur)), loc, "lex")
                return
            if m & ~bm(TERM):
                self.sfind(eng, s, ["C09"], "a literal is accepted although a character follows that is not a digit of its base", loc, "lex")
                return
            if not eng.entails(s, sub(sub(cur, self.start0), 1)):
                self.sfind(eng, s, ["C09"], "a literal without digits is accepted", loc, "lex")
                return
            if s.g["over"]:
                self.sfind(eng, s, ["C09"], "a literal over $FFFF is accepted", loc, "lex")
                return
            if eng.decide_eq(s, sub(v, s.g["V"])) is not True:
                self.sfind(eng, s, ["C09"], "the value of an accepted literal is %s instead of %s" % (
                    eng.show(v), eng.show(s.g["V"])), loc, "lex")
                return
            if not self.same_type(eng, s, t, "TOKEN_LITERAL"):
                self.sfind(eng, s, ["C09", "C07"], "a literal is read as " + self.kindname(eng, s, t), loc, "lex")
                return
            if not self.instr_same(eng, s, loc):
                return
            self.c.ob("C09", "accepted base-%d literal has its exact value" % self.base)

    # words and directives
    def text(self, eng, st, n, loc, check=True):
        """the token text equals the upper-cased n characters read"""
        sv = st.svs[self.sv]
        p = self.get(st, self.tk, "Token", "str")
        for i in range(n + 1):
            r = eng.load(st, Ptr(p.o, i), I8, None)
            if len(r) != 1:
                return False
            x = r[0][1]
            if i == n:
                return x == 0
            c = sv.cells.get(i)
            if c is None:
                return False
            if isinstance(c, int):
                if x != upper(c):
                    return False
                continue
            fm = eng.mask(st, c.a)
            for j in range(eng.fvn[c.a]):
                if fm >> j & 1:
                    b = c.t[j] & 255
                    w = b - 32 if 97 <= b <= 122 else b
                    if isinstance(x, FV) and x.a == c.a:
                        if x.t[j] & 255 != w:
                            return False
                    elif isinstance(x, int):
                        if x & 255 != w:
                            return False
                    else:
                        return False
        return True

    def decide_word(self, eng, st, n, words):
        """[(state, keyword or None)]: the n characters as a keyword"""
        sv = st.svs[self.sv]
        out, pend = [], [st]
        while pend:
            s = pend.pop()
            masks = [self.charmask(eng, s, self.sv, i) for i in range(n)]
            split = None
            res = None
            for w in words:
                if len(w) != n:
                    continue
                want = [bm((w[i] + w[i].lower()).encode()) for i in range(n)]
                if all(a & b for a, b in zip(masks, want)):
                    if all(a & ~b == 0 for a, b in zip(masks, want)):
                        res = w
                    else:
                        for i in range(n):
                            if masks[i] & ~want[i]:
                                split = (i, want[i])
                                break
                    break
            if split is None:
                out.append((s, res))
                continue
            i, want = split
            v = s.svs[self.sv].cells.get(i)
            if not isinstance(v, FV):
                # not looked at: make it known
                r = eng.load(s, Ptr(self.buf, i), I8, None)
                pend += [x for x, _ in r]
                continue
            m = sum(1 << j for j in range(eng.fvn[v.a]) if want >> (v.t[j] & 255) & 1)
            pend += [x for x, _ in eng.split_mask(s, v.a, m)]
        return out

    def lengths(self, eng, st, ret):
        if isinstance(ret, int):
            return [(st, ret)]
        return eng.split_vals(st, ret, 70)

    def ok_word(self, eng, st, ret, t, v, loc):
        word = bm(ALPHA + DIG + b"_")
        r = self.lengths(eng, st, ret)
        if r is None:
            self.sfind(eng, st, ["C08"], "a word of more than 63 characters is accepted", loc, "lex")
            return
        bf = self.bitfields(eng)
        words = list(REGS) + list(spec.MNEMONICS)
        for s, n in r:
            if n > 63:
                self.sfind(eng, s, ["C08"], "a word of more than 63 characters is accepted", loc, "lex")
                return
            if not self.span(eng, s, self.sv, 0, n, word):
                self.sfind(eng, s, ["C08"], "a word with a character other than letters, digits and underscores is accepted", loc, "lex")
                return
            if self.charmask(eng, s, self.sv, n) & ~bm(TERM + b":"):
                self.sfind(eng, s, ["C08"], "an accepted word does not end where it is read to", loc, "lex")
                return
            if not self.text(eng, s, n, loc):
                self.sfind(eng, s, ["C08"], "the text kept for a word is not the upper-cased word", loc, "lex")
                return
            for s2, w in self.decide_word(eng, s, n, words):
                name = "TOKEN_LABEL" if w is None else REGS.get(w, "TOKEN_INSTRUCTION")
                t2 = t
                if not self.same_type(eng, s2, t2, name):
                    self.sfind(eng, s2, ["C08"], "the word %s is read as %s" % (
                        w or self.sample(eng, s2, n), self.kindname(eng, s2, t2)), loc, "lex")
                    return
                if name == "TOKEN_INSTRUCTION":
                    mn = self.get(s2, self.io, "Instruction", "mnemonic")
                    b = self.get(s2, self.io, "Instruction", "addr_bitfield")
                    if isinstance(mn, FV):
                        mn = eng.nrm(s2, mn)
                    if isinstance(b, FV):
                        b = eng.nrm(s2, b)
                    if mn != self.c.mn[w]:
                        self.sfind(eng, s2, ["C08", "C01"], "the word %s is read as another mnemonic" % w, loc, "lex")
                        return
                    if b != bf[self.c.mn[w]]:
                        self.sfind(eng, s2, ["C02", "C01"], "the mnemonic %s gets the addressing modes of another" % w, loc, "lex")
                        return
                    if not self.instr_same(eng, s2, loc, ("mnemonic", "addr_bitfield")):
                        return
                    self.c.ob(["C08", "C01"], "mnemonic %s recognised in any case" % w)
                else:
                    if not self.instr_same(eng, s2, loc):
                        return
                    self.c.ob("C08", "register %s recognised" % w if w else
                              "any other word is a label, kept in full in upper case")

    def sample(self, eng, st, n):
        out = ""
        for i in range(n):
            m = self.charmask(eng, st, self.sv, i)
            for c in range(255, 0, -1):
                if m >> c & 1:
                    out += chr(c)
                    break
        return repr(out)

    def ok_dir(self, eng, st, ret, t, v, loc):
        r = self.lengths(eng, st, ret)
        if r is None:
            self.sfind(eng, st, ["C08"], "a directive of any length is accepted", loc, "lex")
            return
        for s, n in r:
            if self.charmask(eng, s, self.sv, n) & ~bm(TERM):
                self.sfind(eng, s, ["C08"], "an accepted directive does not end where it is read to", loc, "lex")
                return
            for s2, w in self.decide_word(eng, s, n, list(DIRS)):
                if w is None:
                    self.sfind(eng, s2, ["C08"], "a word other than .DEFINE, .EQU, .ORG and .END is accepted as a directive", loc, "lex")
                    return
                if not self.same_type(eng, s2, t, DIRS[w]):
                    self.sfind(eng, s2, ["C08"], "%s is read as %s" % (w, self.kindname(eng, s2, t)), loc, "lex")
                    return
                if not self.instr_same(eng, s2, loc):
                    return
                self.c.ob("C08", "directive %s recognised in any case" % w)

    # rejections
    def rejected(self, eng, st, name, loc):
        e = self.errpos(eng, st, self.get(st, self.tk, "Token", "error_char"), loc)
        if e is None:
            return
        fails = self.why_not(eng, st, name, e)
        if fails:
            self.sfind(eng, st, fails[0], fails[1], loc, "lex")
            return
        self.c.ob(self.main_prop(), "rejected only when it is not a token (%s, %s)" % (self.cls, name))
        self.c.ob("C14", "lexical error position is the offending character")

    def why_not(self, eng, st, name, e):
        sid = self.sv
        end = self.charmask(eng, st, sid, e) if e is not None else ALL
        if self.cls == "punct":
            return ["C07"], "a punctuation character is rejected"
        if self.cls == "other":
            if name != "ILLEGAL_CHAR":
                return ["C13"], "a character that starts no token is reported as " + name
            if e != 0:
                return ["C14"], "the position reported is not that of the illegal character"
            return None
        if self.base:
            dm = bm(BASES[self.base])
            for s in self.settle(eng, st):
                cur = s.g["cur"]
                if name == "TOO_BIG_LITERAL":
                    if not s.g["over"]:
                        return ["C09"], "a literal of at most $FFFF is rejected as too big"
                    if e != 0:
                        return ["C14"], "the position of an oversized literal is not its start"
                    continue
                if name != "ILLEGAL_CHAR":
                    return ["C13"], "a malformed literal is reported as " + name
                m = self.charmask(eng, s, sid, cur)
                if m & dm:
                    return ["C09"], "a literal is rejected although its digits are valid"
                if m & bm(TERM):
                    # no digits at all
                    if cur != self.start0:
                        return ["C09"], "a complete literal is rejected"
                if eng.decide_eq(s, sub(e, cur)) is not True:
                    return ["C14"], "the position reported is not that of the character that is no digit"
            return None
        word = bm(ALPHA + DIG + b"_") if self.cls == "word" else bm(ALPHA)
        term = bm(TERM + b":") if self.cls == "word" else bm(TERM)
        first = 0 if self.cls == "word" else 1
        if name == "ILLEGAL_CHAR":
            if end & (word | term):
                return ["C08"], "a valid word is rejected"
            if eng.bounds(st, e)[0] < first or not self.span(eng, st, sid, first, e, word):
                return ["C14", "C08"], "the position reported is not the first illegal character of the word"
            return None
        if self.cls == "word":
            if name != "TOO_LONG_LABEL":
                return ["C13"], "a malformed word is reported as " + name
            if not self.span(eng, st, sid, 0, 64, word):
                return ["C08"], "a word of at most 63 characters is rejected as too long"
            if e != 0:
                return ["C14"], "the position of an overlong word is not its start"
            return None
        if name != "ILLEGAL_DIRECTIVE":
            return ["C13"], "an unknown directive is reported as " + name
        if e != 0:
            return ["C14"], "the position of an unknown directive is not its start"
        # certainly none of the four?
        for s, w in [x for k in DIRS for x in [(st, k)]]:
            n = len(w)
            ok = True
            for i in range(n):
                if not self.charmask(eng, s, sid, i) & bm((w[i] + w[i].lower()).encode()):
                    ok = False
                    break
            if ok and self.charmask(eng, s, sid, n) & term:
                return ["C08"], "the directive %s is rejected" % w
        return None


class LineHarness(TextHarness):
    """lex_line() over the contract of lex()"""
    unit = "lexline"
    NONEXT = object()

    def run(self):
        eng = self.eng = self.engine()
        c = eng.contracts
        for n in ("lex", "lex_line", "print_error"):
            if n not in self.m.funcs:
                raise Broken("function %s not found in the program" % n)
        c["lex"] = self.c_lex
        c["print_error"] = self.c_print_error
        st = State()
        buf, sv = eng.new_str(st, "root", "line", 0, MAXSRC)
        buf.tag = "const"
        self.buf, self.sv, self.N = buf.id, sv.id, sv.N
        toks = []
        arr = eng.new_obj(st, "root", 64, "undef", "sequence")
        for i in range(8):
            t = self.token(eng, st, "token %d" % i)
            toks.append(t.id)
            arr.cells[8 * i] = (8, Ptr(t.id, 0))
        tk = self.token(eng, st, "running token")
        lx = eng.new_obj(st, "root", self.ssize("Lexer"), "undef", "lexer")
        self.put(st, lx.id, "Lexer", "sequence", Ptr(arr.id, 0))
        fn, _ = eng.new_str(st, "root", "file name")
        self.fname = Ptr(fn.id, 0)
        self.put(st, lx.id, "Lexer", "file_name", self.fname)
        io = eng.new_obj(st, "root", self.ssize("Instruction"), "undef", "instruction")
        self.num = eng.var("line number", 1, MAXSRC)
        self.toks, self.tk, self.lx, self.io, self.arr = toks, tk.id, lx.id, io.id, arr.id
        # one set of symbols per token index, so that equal situations merge
        self.q = [eng.var("at%d" % i, 0, MAXSRC) for i in range(10)]
        self.n = [eng.var("len%d" % i, 1, MAXSRC) for i in range(10)]
        self.ta = [eng.fvar("type%d" % i, self.nt) for i in range(10)]
        self.va = [eng.var("value%d" % i, 0, 0xFFFF) for i in range(10)]
        self.ma = eng.fvar("mnemonic", self.nm)
        self.lab = [eng.new_sv(st, "text of token %d" % i, 0, 63) for i in range(10)]
        self.tab = tuple(range(self.nt))
        self.keep = set()
        for l in (self.q, self.n, self.va):
            for x in l:
                self.keep |= set(atoms_of(x))
        for s in self.lab:
            self.keep |= set(atoms_of(s.N))
        self.keep |= set(atoms_of(self.N)) | set(atoms_of(self.num))
        self.keepf = set(self.ta) | {self.ma}
        self.memo = set()
        st.g.update(k=0, next=0, mn=None)
        res = eng.start(st, "lex_line", [Ptr(buf.id, 0), Ptr(lx.id, 0), Ptr(tk.id, 0),
                                         Ptr(io.id, 0), self.num])
        for kind, v, s, loc in eng.terminals:
            self.sfind(eng, s, ["C12"], "the program ends inside the lexer", loc, "lex_line")
        for s, v in res:
            vs = eng.split_vals(s, v) if isinstance(v, FV) else [(s, v)]
            for s2, k in vs:
                self.check(eng, s2, k)
        self.c.absorb(eng, "lexline")
        return eng

    def loop_policy(self, eng, st, fn, header):
        k = ("lex", fn.name, header)
        if k not in self.calls_getline:
            r = False
            for n in fn.loops[header]:
                for i in fn.bmap[n].ins:
                    if i.op == "call" and i.a[0][0] == "g":
                        c = i.a[0][1][1:].strip('"')
                        if c == "lex" or self.reaches(c, ("lex",)):
                            r = True
            self.calls_getline[k] = r
        return "unroll" if self.calls_getline[k] else None

    # ---- what lies between the tokens
    def skipped(self, eng, st, p, loc, what):
        """only white space between the last token and position p?"""
        g = st.g
        lo = g["next"]
        if not (eng.entails(st, sub(p, lo)) and eng.entails(st, sub(self.N, p))):
            self.sfind(eng, st, ["C07", "C21"], "%s does not go on behind the last token" % what, loc, "lex_line")
            return False
        if self.span(eng, st, self.sv, lo, p, bm(WS)):
            return True
        if g["k"] == 1 and self.only(eng, st, self.typeof(st, 0), "TOKEN_LABEL") and \
                self.charmask(eng, st, self.sv, lo) == bm(b":") and \
                eng.entails(st, sub(sub(p, lo), 1)) and \
                self.span(eng, st, self.sv, add(lo, 1), p, bm(WS)):
            return True
        self.sfind(eng, st, ["C07", "C21"], "%s passes over characters that belong to no token" % what, loc, "lex_line")
        return False

    def typeof(self, st, k):
        return st.g["types"][k]

    def only(self, eng, st, t, name):
        w = self.tv(name)
        return (t == w) if isinstance(t, int) else eng.fvals(st, t.a, t.t) == {w}

    def stored(self, eng, st, loc, final=False):
        """the tokens recorded so far are exactly those read"""
        g = st.g
        k = g["k"]
        if not (isinstance(self.get(st, self.lx, "Lexer", "curr"), int) and
                self.get(st, self.lx, "Lexer", "curr") == k):
            self.sfind(eng, st, ["C07", "C19"], "the number of tokens recorded is %s instead of %d" % (
                eng.show(self.get(st, self.lx, "Lexer", "curr")), k), loc, "lex_line")
            return False
        for j in range(8):
            t = self.toks[j]
            if st.objs[self.arr].cells.get(8 * j) != (8, Ptr(t, 0)):
                self.sfind(eng, st, ["C15", "C19"], "the token sequence is rearranged", loc, "lex_line")
                return False
            ty = self.get(st, t, "Token", "type")
            v = self.get(st, t, "Token", "value")
            at = self.get(st, t, "Token", "buffer_location")
            sp = self.get(st, t, "Token", "str")
            if j >= k:
                if not final:
                    continue
                if ty != self.c.tt["TOKEN_NULL"]:
                    self.sfind(eng, st, ["C19", "C07"], "a token slot not used by this line keeps a type", loc, "lex_line")
                    return False
                if v != 0 or at is not NULL:
                    self.sfind(eng, st, ["C19"], "a token slot not used by this line keeps its old %s" % (
                        "value" if v != 0 else "position"), loc, "lex_line")
                    return False
                if not self.string_ok(eng, st, sp):
                    self.sfind(eng, st, ["C19", "C15"], "a token slot not used by this line has no valid text", loc, "lex_line")
                    return False
                continue
            want = g["types"][j]
            if not self.eq(eng, st, ty, want):
                self.sfind(eng, st, ["C07"], "token %d is recorded with another type than it was read with" % j, loc, "lex_line")
                return False
            if not self.eq(eng, st, v, self.va[j]):
                self.sfind(eng, st, ["C03", "C09"], "token %d is recorded with another value than it was read with" % j, loc, "lex_line")
                return False
            if not isinstance(at, Ptr) or at.o != self.buf or not self.eq(eng, st, at.off, self.q[j]):
                self.sfind(eng, st, ["C14"], "token %d is recorded at another position than it was read at" % j, loc, "lex_line")
                return False
            o = st.objs.get(sp.o) if isinstance(sp, Ptr) else None
            mayl = self.tv("TOKEN_LABEL") in ({want} if isinstance(want, int) else eng.fvals(st, want.a, want.t))
            good = o is not None and sp.off == 0 and o.sv == self.lab[j].id and not o.cells
            if mayl and not good:
                self.sfind(eng, st, ["C08", "C10"], "the name of a label is not kept in full with its token", loc, "lex_line")
                return False
            if not good and not self.string_ok(eng, st, sp):
                self.sfind(eng, st, ["C15", "C19"], "a token is recorded without a valid text", loc, "lex_line")
                return False
        return True

    def c_lex(self, eng, st, vals, ins):
        loc = eng.where(ins)
        p, tk, io = vals
        if not (isinstance(p, Ptr) and p.o == self.buf):
            eng.find(st, "oob", ins, "the lexer is sent outside the line")
            return []
        if tk != Ptr(self.tk, 0) or io != Ptr(self.io, 0):
            self.sfind(eng, st, ["C19"], "the tokeniser is not given the running token and instruction", loc, "lex_line")
            return []
        g = st.g
        if any(e[0] == "err" for e in st.ev):
            self.sfind(eng, st, ["C12"], "lexing goes on after an error was printed", loc, "lex_line")
            return []
        k = g["k"]
        off = p.off if not isinstance(p.off, FV) else eng.tolin(st, p.off)
        if not self.skipped(eng, st, off, loc, "the next token"):
            return []
        m = self.charmask(eng, st, self.sv, off)
        if m & bm(END):
            self.sfind(eng, st, ["C21", "C15"], "lexing goes on at the end of the line or in a comment", loc, "lex_line")
            return []
        if m & bm(WS):
            self.sfind(eng, st, ["C07"], "white space is read as a token", loc, "lex_line")
            return []
        if k > 8:
            raise Broken("more than nine tokens are read at " + loc)
        if not self.stored(eng, st, loc):
            return []
        # the running token and the instruction
        if k == 0:
            if not self.clean(eng, st, loc):
                return []
        self.c.ob(["C07", "C21"], "only white space (and a label's colon) skipped before a token")
        self.normalise(eng, st, off, k)
        eng.dropregs(st)
        key = (st.ev, frozenset(st.iv.items()), frozenset(st.cons), frozenset(st.neq),
               frozenset(st.masks.items()), eng.canon(st, eng.collect(st, ())))
        if key in self.memo:
            return []
        self.memo.add(key)
        out = []
        for code in ("ILLEGAL_CHAR", "TOO_BIG_LITERAL", "TOO_LONG_LABEL", "ILLEGAL_DIRECTIVE"):
            s = st.copy()
            e = eng.var("error at", 0, MAXSRC)
            eng.assume_ge(s, sub(e, self.q[k]))
            eng.assume_ge(s, sub(self.N, e))
            self.put(s, self.tk, "Token", "error_char", Ptr(self.buf, e))
            s.emit("lexerr", code, e)
            out.append((s, self.c.err(code)))
        T = self.tv
        allm = ((1 << self.nt) - 1) & ~(1 << T("TOKEN_NULL"))
        for what, mask in (("label", 1 << T("TOKEN_LABEL")), ("instr", 1 << T("TOKEN_INSTRUCTION")),
                           ("rest", allm & ~(1 << T("TOKEN_LABEL")) & ~(1 << T("TOKEN_INSTRUCTION")))):
            s = st.copy()
            s.masks[self.ta[k]] = mask
            ty = FV(self.ta[k], self.tab)
            self.put(s, self.tk, "Token", "type", ty)
            self.put(s, self.tk, "Token", "value", self.va[k])
            self.put(s, self.tk, "Token", "buffer_location", Ptr(self.buf, self.q[k]))
            sp = self.get(s, self.tk, "Token", "str")
            o = s.w(sp.o)
            o.cells, o.sv, o.default = {}, self.lab[k].id, "undef"
            nn = self.lab[k].N
            if what != "rest":
                eng.assume_ge(s, sub(nn, 1))
            eng.assume_ge(s, sub(sub(self.N, self.q[k]), self.n[k]))
            s.g["types"] = tuple(s.g["types"]) + (ty,)
            s.g["k"] = k + 1
            s.g["next"] = add(self.q[k], self.n[k])
            if what == "instr":
                s.masks[self.ma] = sum(1 << self.c.mn[x] for x in spec.MNEMONICS)
                mn = FV(self.ma, tuple(range(self.nm)))
                self.put(s, self.io, "Instruction", "mnemonic", mn)
                self.put(s, self.io, "Instruction", "addr_bitfield",
                         eng.nrm(s, FV(self.ma, self.bitfields(eng))))
                s.g["mn"] = True
            out.append((s, self.n[k]))
        return out

    def clean(self, eng, st, loc):
        """before the first token: instruction and token slots reset"""
        f = self.m.struct_fields("Instruction")
        for x in f:
            if x == "__size__":
                continue
            v = self.get(st, self.io, "Instruction", x)
            if v != (self.c.mn["NULL_MNEMONIC"] if x == "mnemonic" else 0):
                self.sfind(eng, st, ["C19"], "the instruction left from the line before is not reset (%s)" % x, loc, "lex_line")
                return False
        for j in range(8):
            t = self.toks[j]
            if self.get(st, t, "Token", "type") != self.c.tt["TOKEN_NULL"]:
                self.sfind(eng, st, ["C19"], "a token of the line before is not reset", loc, "lex_line")
                return False
        if self.get(st, self.tk, "Token", "error_char") is UNDEF:
            pass
        return True

    def normalise(self, eng, st, off, k):
        """forget how position k was reached; it is q[k] from now on"""
        qk = self.q[k]
        same = None
        if isinstance(off, Lin) and len(off.t) == 1 and off.c == 0 and off.t[0][1] == 1:
            same = off.t[0][0]

        def known(v):
            for a in atoms_of(v):
                d = eng.derived.get(a)
                if a not in self.keep and not (d and d[0] == "fv" and d[1] in self.keepf):
                    return False
            return True

        def fix(v):
            if isinstance(v, Ptr):
                if v.o == self.buf and not isinstance(v.off, int):
                    return Ptr(v.o, fix(v.off if not isinstance(v.off, FV) else eng.tolin(st, v.off)))
                return v
            if isinstance(v, PtrInt):
                return PtrInt(fix(v.p))
            if isinstance(v, FV):
                if v.a in self.keepf:
                    return v
                vals = eng.fvals(st, v.a, v.t)
                if len(vals) == 1:
                    return min(vals)
                x = eng.var("forgotten", min(vals), max(vals))
                return x
            if isinstance(v, Lin):
                d = sub(v, off)
                if isinstance(d, int) or known(d) and not known(v):
                    return add(qk, d)
                if known(v):
                    return v
                lo, hi = eng.bounds(st, v)
                return eng.var("forgotten", lo, hi)
            return v
        if off != qk:
            for f in st.frames:
                f.regs = {r: fix(v) for r, v in f.regs.items()}
            for oid in list(st.objs):
                o = st.objs[oid]
                if o.tag == "const" or not o.cells:
                    continue
                w = st.w(oid)
                w.cells = {a: (z, fix(v)) for a, (z, v) in w.cells.items()}
            st.g = {x: fix(v) if isinstance(v, (Lin, FV, Ptr)) else v for x, v in st.g.items()}
        sv = st.wsv(self.sv)
        sv.cells, sv.sym, sv.segs = {}, [], []
        old = {a for j in range(k) for x in (self.q[j], self.n[j]) for a in atoms_of(x)}
        st.iv = {a: v for a, v in st.iv.items() if a in self.keep and a not in old}
        st.masks = {a: v for a, v in st.masks.items() if a in self.keepf}
        # of the places of the tokens read only their order is kept
        rows = [sub(sub(self.q[j + 1], self.q[j]), self.n[j]) for j in range(k)]
        rows += [sub(sub(self.N, self.q[j]), self.n[j]) for j in range(k)]
        st.cons, st.neq = {}, {}
        for r in rows:
            eng.assume_ge(st, r)
        # recorded texts that are no label names are of no further interest
        for j in range(8):
            sp = self.get(st, self.toks[j], "Token", "str")
            o = st.w(sp.o)
            if j < k:
                o.cells, o.default, o.sv = {}, "undef", self.lab[j].id
            elif o.sv is None and all(c[1] == 0 for c in o.cells.values()) and \
                    (len(o.cells) == 64 or o.default == "zero"):
                o.cells, o.default = {}, "zero"
        # any type will do for the tokens that are recorded
        allm = ((1 << self.nt) - 1) & ~(1 << self.tv("TOKEN_NULL"))
        for j in range(k):
            st.masks[self.ta[j]] = allm
            ty = FV(self.ta[j], self.tab)
            self.put(st, self.toks[j], "Token", "type", ty)
        st.g["types"] = tuple(FV(self.ta[j], self.tab) for j in range(k))
        if k:
            self.put(st, self.tk, "Token", "type", FV(self.ta[k - 1], self.tab))
        st.masks.pop(self.ta[k], None)
        eng.assume_ge(st, sub(sub(self.N, qk), 1))
        eng.assume_ge(st, sub(qk, st.g["next"]))
        if isinstance(off, int):
            eng.assume_ge(st, sub(qk, off))
            eng.assume_ge(st, sub(off, qk))
        for j in range(k + 1):
            lab = st.wsv(self.lab[j].id)
            lab.cells, lab.sym, lab.segs = {}, [], []
            for a in atoms_of(lab.N):
                st.iv.pop(a, None)

    def c_print_error(self, eng, st, vals, ins):
        st.emit("err", *vals, eng.where(ins))
        return [(st, None)]

    # ---- results
    def check(self, eng, st, ret):
        loc = self.lastloc(st)
        g, c = st.g, self.c
        errs = [e for e in st.ev if e[0] == "err"]
        lerr = [e for e in st.ev if e[0] == "lexerr"]
        for e in st.ev:
            if e[0] not in ("err", "lexerr", "segwrite"):
                self.sfind(eng, st, ["C19", "C20"], "lex_line has an effect other than on the tokens: %s" % (e[0],), loc, "lex_line")
                return
        for f, w in (("line", Ptr(self.buf, 0)), ("line_num", self.num), ("file_name", self.fname),
                     ("sequence", Ptr(self.arr, 0))):
            v = self.get(st, self.lx, "Lexer", f)
            if v != w:
                self.sfind(eng, st, ["C13"] if f != "sequence" else ["C15"], "the lexer's %s is not that of this line" % f, loc, "lex_line")
                return
        ok = self.c.mac["LEXER_SUCCESS"]
        names = {self.c.err(n): n for n in ("ILLEGAL_CHAR", "TOO_BIG_LITERAL", "TOO_LONG_LABEL", "ILLEGAL_DIRECTIVE")}
        if ret == ok:
            if lerr or errs:
                self.sfind(eng, st, ["C12"], "a line with a lexical error is reported as good", loc, "lex_line")
                return
            if g["k"] > 8:
                self.sfind(eng, st, ["C07", "C13"], "a ninth token is dropped silently", loc, "lex_line")
                return
            end = self.ending(eng, st, loc)
            if end and self.stored(eng, st, loc, True) and self.instr(eng, st, loc):
                for j in range(8):
                    if self.get(st, self.toks[j], "Token", "error_char") is UNDEF:
                        self.sfind(eng, st, ["C19"], "an error position left from the line before is kept", loc, "lex_line")
                        return
                if self.get(st, self.lx, "Lexer", "error_tk") is not NULL:
                    self.sfind(eng, st, ["C19", "C13"], "the error token of the line before is kept", loc, "lex_line")
                    return
                c.ob(["C07", "C21", "C19"], "line of %d tokens read completely" % g["k"])
                c.ob(["C19"], "every part of the lexer and instruction state is set anew")
                c.ob(["C14"], "positions of the tokens recorded")
            return
        if ret == self.c.err("TOO_MANY_TOKENS"):
            if g["k"] != 9 or lerr:
                self.sfind(eng, st, ["C07"], "a line of %d tokens is rejected as too long" % g["k"], loc, "lex_line")
                return
            g["k"] = 8
            if errs:
                self.sfind(eng, st, ["C13"], "an overlong line is reported by the lexer", loc, "lex_line")
                return
            if self.stored(eng, st, loc) and self.instr(eng, st, loc):
                c.ob("C07", "ninth token rejected")
            return
        if not isinstance(ret, int) or ret not in names:
            self.sfind(eng, st, ["C12"], "lex_line returns %s" % eng.show(ret), loc, "lex_line")
            return
        # a lexical error
        if lerr:
            code, at = self.c.err(lerr[-1][1]), lerr[-1][2]
        else:
            # a colon that follows something other than a leading label
            code, at = self.c.err("ILLEGAL_CHAR"), g["next"]
            m = self.charmask(eng, st, self.sv, at)
            if g["k"] == 0 or m != bm(b":"):
                self.sfind(eng, st, ["C07"], "a line is rejected by the lexer without an illegal character", loc, "lex_line")
                return
            if g["k"] == 1 and self.tv("TOKEN_LABEL") in eng.fvals(st, self.ta[0], self.tab):
                self.sfind(eng, st, ["C07"], "the colon after a label is rejected", loc, "lex_line")
                return
        if ret != code:
            self.sfind(eng, st, ["C13"], "the lexer returns another error than it found", loc, "lex_line")
            return
        if len(errs) != 1:
            self.sfind(eng, st, ["C13"], "a lexical error is printed %d times" % len(errs), loc, "lex_line")
            return
        _, line, pc, bad, fname, num, eloc = errs[0]
        if line != Ptr(self.buf, 0) or pc != code or fname != self.fname or not self.eq(eng, st, num, self.num):
            self.sfind(eng, st, ["C13"], "the message for a lexical error has the wrong line, code, file or number", eloc, "lex_line")
            return
        if not isinstance(bad, Ptr) or bad.o != self.buf or not self.eq(eng, st, bad.off, at):
            self.sfind(eng, st, ["C14"], "the position shown for a lexical error is not that of the illegal character", eloc, "lex_line")
            return
        c.ob(["C12", "C13", "C14"], "lexical error printed once with its position, and returned")

    def ending(self, eng, st, loc):
        """the text behind the last token: white space, then an end character"""
        g = st.g
        lo = g["next"]
        # the scan stopped at some position the program has looked at
        sv = st.svs[self.sv]
        cands = [self.N] + [o for o, _ in sv.sym] + list(sv.cells)
        colon = g["k"] == 1 and self.only(eng, st, self.typeof(st, 0), "TOKEN_LABEL") and \
            self.charmask(eng, st, self.sv, lo) == bm(b":")
        for q in cands:
            if not eng.entails(st, sub(q, lo)):
                continue
            if self.charmask(eng, st, self.sv, q) & ~bm(END):
                continue
            if self.span(eng, st, self.sv, lo, q, bm(WS)):
                return True
            if colon and self.span(eng, st, self.sv, add(lo, 1), q, bm(WS)):
                return True
        self.sfind(eng, st, ["C07", "C21"], "the rest of a line is dropped without being looked at", loc, "lex_line")
        return False

    def instr(self, eng, st, loc):
        mn = self.get(st, self.io, "Instruction", "mnemonic")
        k = st.g["mn"]
        f = self.m.struct_fields("Instruction")
        if k is None:
            for x in f:
                if x == "__size__":
                    continue
                if self.get(st, self.io, "Instruction", x) != (self.c.mn["NULL_MNEMONIC"] if x == "mnemonic" else 0):
                    self.sfind(eng, st, ["C19"], "a line without an instruction keeps one (%s)" % x, loc, "lex_line")
                    return False
            return True
        want = {"mnemonic": FV(self.ma, tuple(range(self.nm))),
                "addr_bitfield": eng.nrm(st, FV(self.ma, self.bitfields(eng)))}
        for x in f:
            if x == "__size__":
                continue
            v = self.get(st, self.io, "Instruction", x)
            if x in want and not self.eq(eng, st, v, want[x]) or x not in want and v != 0:
                self.sfind(eng, st, ["C19"], "the instruction of a line is not the one read (%s)" % x, loc, "lex_line")
                return False
        return True
