"""Front end: compiles /repo/src/*.c to LLVM IR (clang -O0 -g) and parses it.

Everything the analysis knows about gaia comes from here, on every run.
"""
import glob
import os
import re
import shutil
import subprocess
import tempfile


class Broken(Exception):
    """The analysis cannot be carried out (anchor vanished, construct not
    supported): an error of the check, neither a pass nor a violation."""


REPO = os.environ.get("GAIA_REPO", "/repo")


def tool(*names):
    for n in names:
        for d in ("/usr/bin", "/usr/lib/llvm-18/bin"):
            p = os.path.join(d, n)
            if os.path.exists(p):
                return p
        p = shutil.which(n)
        if p:
            return p
    raise Broken("tool not found: " + names[0])


def build_ir(repo=REPO):
    clang = tool("clang-18", "clang")
    link = tool("llvm-link-18", "llvm-link")
    srcs = sorted(glob.glob(os.path.join(repo, "src", "*.c")))
    if not srcs:
        raise Broken("no C sources under %s/src" % repo)
    tmp = tempfile.mkdtemp(prefix="gaiasa.")
    try:
        outs, procs = [], []
        for s in srcs:
            o = os.path.join(tmp, os.path.basename(s)[:-2] + ".ll")
            outs.append(o)
            procs.append((s, subprocess.Popen(
                [clang, "-std=c11", "-I" + os.path.join(repo, "src"), "-O0",
                 "-g", "-fno-builtin", "-Xclang", "-disable-O0-optnone", "-S",
                 "-emit-llvm", s, "-o", o], stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT)))
        for s, p in procs:
            out = p.communicate()[0].decode(errors="replace")
            if p.returncode:
                raise Broken("clang cannot compile %s:\n%s" % (s, out))
        allf = os.path.join(tmp, "all.ll")
        r = subprocess.run([link, "-S", "-o", allf] + outs,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Broken("llvm-link failed:\n" + r.stdout.decode(errors="replace"))
        with open(allf, encoding="latin-1") as f:
            text = f.read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return Module(text, srcs)


# ---------------------------------------------------------------- types
VOID = ("v",)
PTR = ("p",)


def I(n):
    return ("i", n)


TOK = re.compile(r'''\s*(?:(?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f\\]{1,2})*")|
 (?P<str>"(?:[^"\\]|\\.)*")|
 (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<meta>![-a-zA-Z$._0-9]*)|
 (?P<attr>\#[0-9]+)|
 (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[0-9A-Fa-f]+)|
 (?P<word>[a-zA-Z_.][-a-zA-Z$._0-9]*)|
 (?P<punct>\.\.\.|[][(){}<>=,*:|]))''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Broken("cannot tokenize IR: " + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


PARAM_ATTRS = {"noundef", "nocapture", "readonly", "writeonly", "noalias",
               "nonnull", "signext", "zeroext", "immarg", "returned", "inreg",
               "readnone", "allocptr", "nofree", "noreturn", "dso_local",
               "internal", "private", "unnamed_addr", "local_unnamed_addr",
               "weak", "linkonce_odr", "external", "constant", "global",
               "common", "hidden", "protected", "fastcc", "tail", "musttail",
               "notail", "nsw", "nuw", "exact", "inbounds", "volatile",
               "disjoint", "nneg", "ccc", "allocsize", "dead_on_unwind",
               "writable", "fast", "nnan", "ninf", "nsz", "arcp", "contract",
               "afn", "reassoc", "inrange", "allocalign", "mustprogress",
               "samesign", "trunc"}


class P:
    """token stream"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise Broken("IR parse: expected %r at %r" % (v, self.t[self.i:self.i + 6]))

    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "ptr":
                t = PTR
                while self.peek()[1] == "addrspace":
                    self.next(); self.need("("); self.next(); self.need(")")
            elif v == "void":
                t = VOID
            elif re.fullmatch(r"i\d+", v):
                t = I(int(v[1:]))
            elif v == "float":
                t = ("f", 32)
            elif v in ("double",):
                t = ("f", 64)
            elif v == "x86_fp80":
                t = ("f", 80)
            elif v in ("label", "metadata", "token"):
                t = (v,)
            else:
                raise Broken("IR type " + v)
        elif k == "loc":
            t = ("n", v)
        elif v == "[":
            n = int(self.next()[1]); self.need("x")
            e = self.type(); self.need("]")
            t = ("a", n, e)
        elif v == "{":
            t = ("s", tuple(self.types("}")), False)
        elif v == "<":
            if self.peek()[1] == "{":
                self.next()
                t = ("s", tuple(self.types("}")), True)
                self.need(">")
            else:
                raise Broken("vector types are not supported")
        else:
            raise Broken("IR type token %r" % (v,))
        # function type suffix:  T (args...)
        if self.peek()[1] == "(" and self._functype_ahead():
            self.next()
            depth = 1
            while depth:
                v = self.next()[1]
                depth += (v == "(") - (v == ")")
        return t

    def _functype_ahead(self):
        # only "i32 (ptr, ...) @printf(" style: "(" then type list
        j = self.i + 1
        k, v = self.t[j]
        return (k == "word" and (v in ("ptr", "void", "double", "float") or
                                 re.fullmatch(r"i\d+", v))) and \
            self.t[j + 1][1] in (",", ")") or v in ("...", ")")

    def types(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            out.append(self.type())
            if self.eat(end):
                return out
            self.need(",")

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in PARAM_ATTRS:
                self.next()
            elif k == "word" and v in ("align",):
                self.next(); self.next()
            elif k == "word" and v in ("dereferenceable", "dereferenceable_or_null",
                                       "byval", "sret", "memory", "range",
                                       "captures", "initializes", "elementtype"):
                self.next()
                if self.peek()[1] == "(":
                    d = 0
                    while True:
                        x = self.next()[1]
                        d += (x == "(") - (x == ")")
                        if d == 0:
                            break
            elif k == "attr":
                self.next()
            else:
                return

    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return ("r", v)
        if k == "glob":
            return ("g", v)
        if k == "num":
            if ty[0] == "f" or v.startswith("0x"):
                return ("fp", v)
            return ("c", int(v))
        if k == "word":
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "true":
                return ("c", 1)
            if v == "false":
                return ("c", 0)
            if v == "zeroinitializer":
                return ("zero",)
            if v == "getelementptr":
                self.skip_attrs()
                self.need("(")
                sty = self.type(); self.need(",")
                pty = self.type(); base = self.value(pty)
                idx = []
                while self.eat(","):
                    self.skip_attrs()
                    it = self.type(); idx.append((it, self.value(it)))
                self.need(")")
                return ("gep", sty, base, idx)
            if v in ("inttoptr", "ptrtoint", "bitcast", "trunc", "sext", "zext"):
                self.need("(")
                t = self.type(); x = self.value(t)
                self.need("to"); t2 = self.type(); self.need(")")
                return ("cast", v, t, x, t2)
            raise Broken("IR constant " + v)
        if k == "cstr":
            b, s, i = [], v[2:-1], 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\":
                        b.append(92); i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(s[i])); i += 1
            return ("str", b)
        if v in ("[", "{", "<"):
            if v == "<":
                self.need("{"); v = "{"
                end = "}"
                packed = True
            else:
                end = {"[": "]", "{": "}"}[v]
                packed = False
            el = []
            if not self.eat(end):
                while True:
                    t = self.type(); el.append((t, self.value(t)))
                    if self.eat(end):
                        break
                    self.need(",")
            if packed:
                self.need(">")
            return ("agg", el)
        if k == "meta":
            return ("meta", v)
        raise Broken("IR value %r" % (v,))


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "dbg", "blk", "id", "x")

    def __init__(self, op, dst=None, ty=None, a=(), x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x
        self.dbg = None
        self.blk = None
        self.id = 0


class Block:
    __slots__ = ("name", "ins", "idx", "succ", "pred")

    def __init__(self, name):
        self.name, self.ins, self.succ, self.pred = name, [], [], []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = []
        self.bmap = {}
        self.ret = VOID
        self.internal = False
        self.dbg = None
        self.vararg = False
        self.loops = {}
        self.pdbg = []


DBG = re.compile(r",?\s*!dbg (![0-9]+)")
TRAIL = re.compile(r"(,\s*![a-zA-Z_.]+ ![0-9]+)+\s*$")


class Module:
    def __init__(self, text, srcs):
        self.srcs = srcs
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, set()
        self.acache, self.scache = {}, {}
        self.meta = {}
        self._iid = 0
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                self._func(lines[i:j])
                i = j + 1
                continue
            if l.startswith("%"):
                name, rest = l.split(" = type ", 1)
                if rest.strip() == "opaque":
                    self.types[name.strip()] = None
                else:
                    self.types[name.strip()] = P(tokenize(rest), self).type()
            elif l.startswith("@"):
                self._global(l)
            elif l.startswith("declare"):
                m = re.search(r"@([-a-zA-Z$._0-9]+)\(", l)
                self.decls.add(m.group(1))
            elif l.startswith("!"):
                m = re.match(r"(![0-9]+) = (?:distinct )?(.*)$", l)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1
        self._locs = {}
        self._structs = None
        for f in self.funcs.values():
            self._cfg(f)

    # ---- globals
    def _global(self, l):
        name, rest = l.split(" = ", 1)
        rest = DBG.sub("", rest)
        p = P(tokenize(rest), self)
        const, ext = False, False
        while True:
            k, v = p.peek()
            if v in ("constant", "global"):
                const = v == "constant"
                p.next()
                break
            if v == "external":
                ext = True
            if v == "alias":
                raise Broken("IR alias " + name)
            p.next()
            if v == "addrspace" or v == "thread_local":
                raise Broken("IR global form " + l[:80])
        ty = p.type()
        init = None
        if not ext and p.peek()[0] is not None and p.peek()[1] != ",":
            init = p.value(ty)
        self.globals[name[1:]] = (ty, init, const, ext)

    # ---- functions
    def _func(self, lines):
        head = lines[0]
        m = re.search(r"!dbg (![0-9]+)", head)
        dbg = m.group(1) if m else None
        h = re.sub(r"!dbg ![0-9]+", "", head)
        p = P(tokenize(h[len("define"):]), self)
        internal = " internal " in head
        p.skip_attrs()
        ret = p.type()
        p.skip_attrs()
        name = p.next()[1][1:]
        f = Func(name)
        f.ret, f.internal, f.dbg = ret, internal, dbg
        p.need("(")
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    f.vararg = True
                else:
                    t = p.type(); p.skip_attrs()
                    f.params.append((t, p.next()[1]))
                if p.eat(")"):
                    break
                p.need(",")
        self.funcs[name] = f
        cur = None
        i = 1
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s.startswith(";"):
                continue
            mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if mm and not l.startswith(" "):
                cur = Block("%" + mm.group(1))
                f.blocks.append(cur); f.bmap[cur.name] = cur
                continue
            if cur is None:
                cur = Block("%entry0")
                f.blocks.append(cur); f.bmap[cur.name] = cur
            if s.startswith("switch"):
                while "]" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            ins = self._instr(s)
            if ins is not None:
                self._iid += 1
                ins.id = self._iid
                ins.blk = cur
                cur.ins.append(ins)

    def _instr(self, s):
        if "@llvm.dbg." in s or "@llvm.lifetime" in s:
            return None
        dm = DBG.search(s)
        dbg = dm.group(1) if dm else None
        s = DBG.sub("", s)
        s = re.sub(r",\s*!(llvm\.loop|srcloc|tbaa|heapallocsite|prof|range|annotation) ![0-9]+", "", s)
        p = P(tokenize(s), self)
        dst = None
        if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
            dst = p.next()[1]; p.next()
        op = p.next()[1]
        r = None
        if op in ("tail", "musttail", "notail"):
            op = p.next()[1]
        if op == "alloca":
            ty = p.type()
            cnt = None
            while p.eat(","):
                if p.eat("align"):
                    p.next()
                else:
                    ct = p.type(); cnt = p.value(ct)
            r = Instr(op, dst, PTR, (cnt,), ty)
        elif op == "load":
            p.skip_attrs()
            ty = p.type(); p.need(","); p.type()
            r = Instr(op, dst, ty, (p.value(PTR),))
        elif op == "store":
            p.skip_attrs()
            ty = p.type(); v = p.value(ty); p.need(","); p.type()
            r = Instr(op, None, ty, (v, p.value(PTR)))
        elif op == "getelementptr":
            p.skip_attrs()
            sty = p.type(); p.need(","); p.type(); base = p.value(PTR)
            idx = []
            while p.eat(","):
                it = p.type(); idx.append((it, p.value(it)))
            r = Instr(op, dst, PTR, (base, idx), sty)
        elif op in ("icmp", "fcmp"):
            p.skip_attrs()
            pred = p.next()[1]
            p.skip_attrs()
            ty = p.type(); a = p.value(ty); p.need(","); b = p.value(ty)
            r = Instr(op, dst, I(1), (a, b), (pred, ty))
        elif op == "br":
            if p.peek()[1] == "label":
                p.next()
                r = Instr("jmp", None, VOID, (), (p.next()[1],))
            else:
                p.type(); c = p.value(I(1)); p.need(",")
                p.need("label"); t = p.next()[1]; p.need(",")
                p.need("label"); e = p.next()[1]
                r = Instr("br", None, VOID, (c,), (t, e))
        elif op == "switch":
            ty = p.type(); v = p.value(ty); p.need(",")
            p.need("label"); d = p.next()[1]
            p.need("[")
            cases = []
            while not p.eat("]"):
                t = p.type(); c = p.value(t); p.need(",")
                p.need("label"); cases.append((c[1], p.next()[1]))
            r = Instr("switch", None, VOID, (v,), (d, cases, ty))
        elif op == "ret":
            ty = p.type()
            r = Instr("ret", None, ty, () if ty == VOID else (p.value(ty),))
        elif op == "unreachable":
            r = Instr(op)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and",
                    "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul",
                    "fdiv", "frem"):
            fl = set()
            while p.peek()[1] in PARAM_ATTRS:
                fl.add(p.next()[1])
            ty = p.type(); a = p.value(ty); p.need(","); b = p.value(ty)
            r = Instr(op, dst, ty, (a, b), fl)
        elif op == "fneg":
            p.skip_attrs()
            ty = p.type()
            r = Instr(op, dst, ty, (p.value(ty),))
        elif op in ("sext", "zext", "trunc", "bitcast", "inttoptr", "ptrtoint",
                    "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            p.skip_attrs()
            ty = p.type(); v = p.value(ty); p.need("to"); t2 = p.type()
            r = Instr(op, dst, t2, (v,), ty)
        elif op == "freeze":
            ty = p.type()
            r = Instr("freeze", dst, ty, (p.value(ty),))
        elif op == "select":
            p.skip_attrs()
            p.type(); c = p.value(I(1)); p.need(",")
            ty = p.type(); a = p.value(ty); p.need(",")
            p.type(); b = p.value(ty)
            r = Instr(op, dst, ty, (c, a, b))
        elif op == "phi":
            p.skip_attrs()
            ty = p.type()
            inc = []
            while True:
                p.need("["); v = p.value(ty); p.need(","); lab = p.next()[1]
                p.need("]")
                inc.append((v, lab))
                if not p.eat(","):
                    break
            r = Instr(op, dst, ty, tuple(v for v, _ in inc), [l for _, l in inc])
        elif op == "call":
            p.skip_attrs()
            ty = p.type()
            p.skip_attrs()
            k, v = p.next()
            callee = ("g", v) if k == "glob" else ("r", v)
            if k == "word" and v == "asm":
                raise Broken("inline asm")
            p.need("(")
            args = []
            if not p.eat(")"):
                while True:
                    t = p.type(); p.skip_attrs()
                    if t[0] == "metadata":
                        while p.peek()[1] not in (",", ")"):
                            p.next()
                        args.append((t, ("meta",)))
                    else:
                        args.append((t, p.value(t)))
                    if p.eat(")"):
                        break
                    p.need(",")
            r = Instr(op, dst, ty, (callee, args))
        elif op in ("extractvalue", "insertvalue", "va_arg", "invoke", "atomicrmw",
                    "cmpxchg", "fence"):
            raise Broken("IR instruction not supported: " + op)
        else:
            raise Broken("IR instruction not supported: " + op)
        r.dbg = dbg
        return r

    # ---- cfg, loops
    def _cfg(self, f):
        for i, b in enumerate(f.blocks):
            b.idx = i
            t = b.ins[-1]
            if t.op == "jmp":
                b.succ = [t.x[0]]
            elif t.op == "br":
                b.succ = list(t.x)
            elif t.op == "switch":
                b.succ = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
        seen, order = set(), []

        def dfs(n):
            st = [(n, iter(f.bmap[n].succ))]
            seen.add(n)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(f.bmap[s].succ)))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(f.blocks[0].name)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        f.rpo, f.num = rpo, num
        for b in rpo:
            for s in f.bmap[b].succ:
                f.bmap[s].pred.append(b)
        # dominators (simple iterative)
        entry = rpo[0]
        dom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = None
                for p in f.bmap[b].pred:
                    if p in dom:
                        nd = p if nd is None else self._inter(dom, num, p, nd)
                if nd is not None and dom.get(b) != nd:
                    dom[b] = nd
                    ch = True
        f.idom = dom
        # natural loops
        for b in rpo:
            for s in f.bmap[b].succ:
                x = b
                while x != s and x != entry:
                    x = dom[x]
                if x == s:
                    body = f.loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        y = wl.pop()
                        if y not in body:
                            body.add(y)
                            wl += f.bmap[y].pred
                elif num[s] <= num[b]:
                    raise Broken("irreducible control flow in " + f.name)

    @staticmethod
    def _inter(dom, num, a, b):
        while a != b:
            while num[a] > num[b]:
                a = dom[a]
            while num[b] > num[a]:
                b = dom[b]
        return a

    # ---- layout
    def resolve(self, t):
        while t[0] == "n":
            t = self.types[t[1]]
            if t is None:
                raise Broken("opaque struct used by value")
        return t

    def align(self, t):
        r = self.acache.get(t)
        if r is None:
            r = self.acache[t] = self.align0(t)
        return r

    def size(self, t):
        r = self.scache.get(t)
        if r is None:
            r = self.scache[t] = self.size0(t)
        return r

    def align0(self, t):
        t = self.resolve(t)
        if t[0] == "i":
            return max(1, min(16, (t[1] + 7) // 8))
        if t[0] == "p":
            return 8
        if t[0] == "f":
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if t[0] == "a":
            return self.align(t[2])
        if t[0] == "s":
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        raise Broken("align of %r" % (t,))

    def size0(self, t):
        t = self.resolve(t)
        if t[0] == "i":
            return (t[1] + 7) // 8
        if t[0] == "p":
            return 8
        if t[0] == "f":
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if t[0] == "a":
            return t[1] * self.size(t[2])
        if t[0] == "s":
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            if not t[2]:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        raise Broken("size of %r" % (t,))

    def field(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += self.size(x)
        raise Broken("field index")

    # ---- debug info
    def loc(self, dbg):
        """'src/file.c:line' of a !dbg reference"""
        if dbg is None:
            return "?"
        r = self._locs.get(dbg)
        if r is None:
            m = self.meta.get(dbg, "")
            ln = re.search(r"line: (\d+)", m)
            sc = re.search(r"scope: (![0-9]+)", m)
            r = "%s:%s" % (self._file(sc.group(1)) if sc else self._file(dbg),
                           ln.group(1) if ln else "?")
            self._locs[dbg] = r
        return r

    def _file(self, sc):
        for _ in range(50):
            m = self.meta.get(sc, "")
            f = re.search(r"file: (![0-9]+)", m)
            if f:
                fm = self.meta[f.group(1)]
                name = re.search(r'filename: "([^"]*)"', fm).group(1)
                return "src/" + os.path.basename(name)
            s = re.search(r"scope: (![0-9]+)", m)
            if not s:
                return "?"
            sc = s.group(1)
        return "?"

    def struct_fields(self, name):
        """{member: (byte offset, byte size)} of 'struct name' (debug info)"""
        if self._structs is None:
            self._structs = {}
            for k, m in self.meta.items():
                if m.startswith("!DICompositeType(tag: DW_TAG_structure_type") \
                        and "elements:" in m:
                    nm = re.search(r'name: "([^"]*)"', m)
                    if not nm:
                        td = None
                        continue
                    els = re.search(r"elements: (![0-9]+)", m).group(1)
                    d = {}
                    for e in re.findall(r"![0-9]+", self.meta[els]):
                        em = self.meta[e]
                        if "DW_TAG_member" not in em:
                            continue
                        off = re.search(r"offset: (\d+)", em)
                        sz = re.search(r"size: (\d+)", em)
                        mn = re.search(r'name: "([^"]*)"', em)
                        if mn:
                            d[mn.group(1)] = (int(off.group(1)) // 8 if off else 0,
                                              int(sz.group(1)) // 8)
                    d["__size__"] = (0, int(re.search(r"size: (\d+)", m).group(1)) // 8)
                    self._structs[nm.group(1)] = d
        if name not in self._structs:
            raise Broken("struct %s not found in the program" % name)
        return self._structs[name]

    def enum(self, name):
        """{enumerator: value} of 'enum name'"""
        for k, m in self.meta.items():
            if m.startswith("!DICompositeType(tag: DW_TAG_enumeration_type") and \
                    ('name: "%s"' % name) in m:
                els = re.search(r"elements: (![0-9]+)", m).group(1)
                d = {}
                for e in re.findall(r"![0-9]+", self.meta[els]):
                    em = self.meta[e]
                    d[re.search(r'name: "([^"]*)"', em).group(1)] = \
                        int(re.search(r"value: (-?\d+)", em).group(1))
                return d
        raise Broken("enum %s not found in the program" % name)


_LOOP = None
