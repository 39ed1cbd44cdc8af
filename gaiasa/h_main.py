"""Whole-program harness: main() with the lexer, the symbol table and the
forward reference list replaced by contracts (verified in the other units).
Every line iteration and every reference iteration is compared with the
specification, for all abstract lines at once."""
from .base import Harness, I8, I32, I64, MAXSRC
from .ir import Broken, PTR
from .dom import (Lin, FV, Ptr, Fn, NULL, UNDEF, INF, add, sub, scale, neg, L, atoms_of)
from .engine import State
from . import par, spec

NUMG = ("pc", "lines", "bytes", "nsyms", "nrefs", "left", "fpos", "done", "rline")


class ListHook:
    """array of stored forward references: reading slot i yields an arbitrary
    stored reference"""

    unbounded = True        # read_ref checks the index itself

    def __init__(self, h):
        self.h = h

    def read(self, eng, st, o, off, n, ty, ins):
        return self.h.read_ref(eng, st, o, off, n, ins)

    def write(self, eng, st, o, off, v, n, ins):
        raise Broken("the reference list is written outside its module at " + eng.where(ins))


class OpaqueHook:
    def __init__(self, what):
        self.what = what

    def read(self, eng, st, o, off, n, ty, ins):
        raise Broken("%s is read outside its module at %s" % (self.what, eng.where(ins)))

    def write(self, eng, st, o, off, v, n, ins):
        raise Broken("%s is written outside its module at %s" % (self.what, eng.where(ins)))


class MainHarness(Harness):
    unit = "main"
    whole = True

    def __init__(self, ctx, msgs):
        super().__init__(ctx)
        self.msgs = msgs                    # code -> prints a message
        self.classes = {}                   # stored reference classes
        self.tc = {}                        # token type value -> class letter
        for k, v in ctx.tt.items():
            if k not in spec.TOKCLASS:
                raise Broken("unknown token type " + k)
            self.tc[v] = spec.TOKCLASS[k]
        self.null = ctx.tt["TOKEN_NULL"]
        self.inv = {v: k for k, v in self.tc.items()}
        for m in spec.MNEMONICS:
            if m not in ctx.mn:
                raise Broken("mnemonic %s is gone" % m)
        self.mname = {v: k for k, v in ctx.mn.items()}
        self.inref = {}
        self.iter_done = 0
        self.ends = 0
        self.paths = 0

    # -------------------------------------------------- call graph queries
    READERS = ("getline", "getdelim", "fgets", "fgetc", "getc", "fread", "_IO_getc")

    def reads_line(self, fn, header):
        k = (fn.name, header, "rl")
        if k not in self.calls_getline:
            r = False
            for n in fn.loops[header]:
                for i in fn.bmap[n].ins:
                    if i.op == "call" and i.a[0][0] == "g":
                        c = i.a[0][1][1:].strip('"')
                        if c in self.READERS or self.reaches(c, self.READERS):
                            r = True
            self.calls_getline[k] = r
        return self.calls_getline[k]

    # -------------------------------------------------- engine callbacks
    def loop_policy(self, eng, st, fn, header):
        if self.reads_line(fn, header):
            return "gen"
        return None

    def at_head(self, eng, st, fn, header, entry):
        key = (fn.name, header, len(st.frames))
        if entry:
            if st.g["st"] == "busy" and self.is_end(eng, st):
                return self.close(eng, st)
            self.inref[key] = any(e[0] == "useref" for e in st.ev)
            return [st]
        if self.reads_line(fn, header):
            return self.close(eng, st)
        if st.g.get("mode") == "ref" and not self.inref.get(key):
            return self.close_ref(eng, st)
        return [st]

    # ---- what is kept from the lines before
    carried = ()

    def on_run_head(self, eng, hd, fn, header, loops):
        if not self.reads_line(fn, header):
            return
        t = hd.tmpl
        known = set()
        for v in t.g.values():
            if isinstance(v, Lin):
                known |= set(atoms_of(v))
        local = {t.fr.regs[r].o for r in loops.scalars(fn) if isinstance(t.fr.regs.get(r), Ptr)}
        out = []
        for oid, o in t.objs.items():
            if oid not in local and (o.kind != "global" or o.tag == "const"):
                continue
            for off, (sz, v) in o.cells.items():
                if isinstance(v, FV):
                    out.append(("f", v.a, eng.mask(t, v.a)))
                elif isinstance(v, Lin):
                    out += [("n", a, t.iv.get(a)) for a in atoms_of(v) if a not in known]
        self.carried = out

    def from_before(self, eng, st):
        """does this path rest on a value that an earlier line left behind?"""
        for k, a, v in self.carried:
            if k == "f" and eng.mask(st, a) != v or k == "n" and st.iv.get(a) != v:
                return True
        return False

    def sfind(self, eng, st, props, msg, loc=None, fn=None):
        if st.g.get("st") == "busy" and self.carried and self.from_before(eng, st):
            props = sorted(set(props) | {"C19"})
        super().sfind(eng, st, props, msg, loc, fn)

    def hints(self, eng, st):
        g = st.g
        out = []
        if "lines" in g and "bytes" in g:
            out.append(sub(scale(g["lines"], 3), g["bytes"]))
            out.append(sub(g["lines"], g["nsyms"]))
            out.append(sub(g["lines"], g["nrefs"]))
            out.append(g["nsyms"])
            out.append(g["nrefs"])
            out.append(g["bytes"])
            out.append(g["left"])
            out.append(sub(g["nrefs"], g["done"]))
        return out

    def totals(self, eng, st):
        """quantities that bound whatever the program may count"""
        g = st.g
        return [g["lines"], scale(g["lines"], 3)] if "lines" in g else []

    # ---- output file
    def on_seek(self, eng, st, o, off, wh, ins):
        if o.tag != "w":
            st.emit("rseek", eng.where(ins))
            return [st]
        if wh == 0:
            st.g["fpos"] = off
        elif wh == 1:
            st.g["fpos"] = add(st.g["fpos"], off)
        else:
            self.sfind(eng, st, ["C04"], "output positioned relative to its end", eng.where(ins))
            st.g["fpos"] = eng.var("pos", 0, INF)
        return [st]

    def on_write(self, eng, st, o, vals, ins):
        for v in vals:
            st.emit("w", st.g["fpos"], v, eng.where(ins), o.id)
            st.g["fpos"] = add(st.g["fpos"], 1)
        return [st]

    def output(self, eng, st, dest, items, ins):
        st.emit("out", dest, tuple(items), eng.where(ins))
        return [st]

    # -------------------------------------------------- contracts
    def install(self, eng):
        c = eng.contracts
        c["lex_line"] = self.c_lex_line
        c["print_error"] = self.c_print_error
        c["search_symbol"] = self.c_search
        c["insert_symbol"] = self.c_insert
        c["init_symbol_table"] = self.c_init_symtab
        c["destroy_symbol_table"] = self.c_destroy_symtab
        c["init_unresolved"] = self.c_init_unres
        c["destroy_unresolved"] = self.c_destroy_unres
        c["create_forward_ref"] = self.c_create_ref
        c["add_forward_ref"] = self.c_add_ref
        for n in ("lex_line", "print_error", "search_symbol", "insert_symbol",
                  "init_symbol_table", "destroy_symbol_table", "init_unresolved",
                  "destroy_unresolved", "create_forward_ref", "add_forward_ref", "main"):
            if n not in self.m.funcs:
                raise Broken("function %s not found in the program" % n)
        self.fopen0 = lambda e, st, v, i, f=eng.ext["fopen"]: f(e, st, v, i)
        eng.ext["fopen"] = self.x_fopen
        eng.ext["getline"] = self.x_getline
        eng.ext["argp_parse"] = self.x_argp_parse
        eng.ext["argp_usage"] = self.x_usage
        eng.ext["argp_error"] = self.x_usage
        eng.ext["argp_failure"] = self.x_usage
        eng.ext["argp_state_help"] = self.x_usage

    def heap(self, eng, st, size, name, default="undef"):
        o = eng.new_obj(st, "heap", size, default, name)
        return o

    def c_init_symtab(self, eng, st, vals, ins):
        s0 = st.copy()
        s0.g["oom"] = True
        o = self.heap(eng, st, self.ssize("SymbolTable"), "symbol table")
        o.site = ins
        a = self.heap(eng, st, 8 * 17, "symbol array")
        a.site = ins
        a.hook = OpaqueHook("the symbol array")
        self.put(st, o.id, "SymbolTable", "symbols", Ptr(a.id, 0))
        self.put(st, o.id, "SymbolTable", "size", 17)
        self.put(st, o.id, "SymbolTable", "count", 0)
        st.g["symtab"] = Ptr(o.id, 0)
        return [(st, Ptr(o.id, 0)), (s0, NULL)]

    def destroy2(self, eng, st, p, ins, struct, field, what):
        if p is NULL:
            return [(st, None)]
        o = eng.ptr_ok(st, p, ins, "destroy")
        if o is None:
            return []
        a = self.get(st, o.id, struct, field)
        out = []
        for s, _ in eng.ext["free"](eng, st, [a], ins):
            out += eng.ext["free"](eng, s, [p], ins)
        return out

    def c_destroy_symtab(self, eng, st, vals, ins):
        return self.destroy2(eng, st, vals[0], ins, "SymbolTable", "symbols", "symbol table")

    def c_init_unres(self, eng, st, vals, ins):
        s0 = st.copy()
        s0.g["oom"] = True
        o = self.heap(eng, st, self.ssize("Unresolved"), "reference list")
        o.site = ins
        a = self.heap(eng, st, 64, "reference array")
        a.site = ins
        a.hook = ListHook(self)
        self.put(st, o.id, "Unresolved", "refs", Ptr(a.id, 0))
        self.put(st, o.id, "Unresolved", "curr", 0)
        self.put(st, o.id, "Unresolved", "size", 8)
        st.g["unres"] = Ptr(o.id, 0)
        return [(st, Ptr(o.id, 0)), (s0, NULL)]

    def c_destroy_unres(self, eng, st, vals, ins):
        return self.destroy2(eng, st, vals[0], ins, "Unresolved", "refs", "reference list")

    # ---- getline
    def x_getline(self, eng, st, vals, ins):
        if eng.fil(eng, st, vals[2], ins, "getline") is None:
            return []
        out = []
        for s in self.close(eng, st):
            out += self.getline1(eng, s, vals, ins)
        return out

    def getline1(self, eng, st, vals, ins):
        f = st.objs[vals[2].o]
        if f.tag != "r":
            self.sfind(eng, st, ["C20", "C21"], "a line is read from something that is not the source", eng.where(ins))
        g = st.g
        if g.get("st") == "fresh":
            self.sfind(eng, st, ["C21"], "a source line is skipped without being processed", eng.where(ins))
        if g.get("ended"):
            self.sfind(eng, st, ["C21"], "reading goes on after a .END line", eng.where(ins))
            return []
        if g.get("rdstate"):
            self.sfind(eng, st, ["C21", "C18"], "reading goes on after the end of the source or a read failure", eng.where(ins))
            return []
        r = eng.load(st, vals[0], PTR, ins)
        if not r:
            return []
        st, buf = r[0]
        r = eng.load(st, vals[1], I64, ins)
        if not r:
            return []
        st, cap = r[0]
        if buf is UNDEF or cap is UNDEF:
            eng.find(st, "undef", ins, "getline with an uninitialised buffer")
            return []
        if isinstance(buf, Ptr):
            o = eng.ptr_ok(st, buf, ins, "getline")
            if o is None:
                return []
            if o.kind != "heap" or buf.off != 0:
                eng.find(st, "mem", ins, "getline needs a buffer from malloc")
                return []
        out = []
        # ---- end of file and failures
        for kind in ("eof", "err", "mem"):
            s = st.copy()
            if kind != "mem" and buf is NULL:
                o = self.heap(eng, s, eng.var("cap", 1, MAXSRC * 2), "line buffer")
                o.site = ins
                eng.store(s, vals[0], Ptr(o.id, 0), 8, ins)
                eng.store(s, vals[1], o.size, 8, ins)
            if kind == "mem":
                s.g["oom"] = True
                s.g["iofail"] = True
            if kind == "err":
                s.g["iofail"] = True
            s.g["rdstate"] = kind
            if kind == "eof":
                s.g["left"] = 0
            out.append((s, -1))
        # ---- a line
        s = st
        if not eng.assume_ge(s, sub(g["left"], 1)):
            return out
        s.g["left"] = sub(g["left"], 1)
        s.g["lines"] = add(g["lines"], 1)
        sv = eng.new_sv(s, "line", 0, MAXSRC)
        if buf is NULL:
            o = self.heap(eng, s, 0, "line buffer")
            o.site = ins
            eng.store(s, vals[0], Ptr(o.id, 0), 8, ins)
        else:
            o = s.w(buf.o)
        n = eng.var("line bytes", 1, MAXSRC)
        eng.assume_ge(s, sub(n, sv.N))
        size = eng.var("cap", 2, 2 * MAXSRC)
        eng.assume_ge(s, sub(sub(size, n), 1))
        o = s.w(o.id)
        o.size, o.cells, o.sv, o.default = size, {}, sv.id, "undef"
        sv.segs.append((0, sub(sv.N, 1), ((1 << 256) - 1) & ~(1 << 10)))
        eng.store(s, vals[1], size, 8, ins)
        s.g["line"] = Ptr(o.id, 0)
        s.g["st"] = "fresh"
        s.g["ev0"] = len(s.ev)
        return out + [(s, n)]

    # ---- command line
    def x_usage(self, eng, st, vals, ins):
        st.emit("usage", eng.where(ins))
        eng.terminals.append(("usage", 64, st, eng.where(ins)))
        return []

    KINIT, KEND, KNOARGS, KSUCC, KFINI, KARGS = (0x1000003, 0x1000001, 0x1000002,
                                                 0x1000004, 0x1000007, 0x1000006)

    def x_argp_parse(self, eng, st, vals, ins):
        """the documented protocol of argp_parse(): option table, then the
        parser callback for options and arguments in any number and order"""
        if st.g.get("argp"):
            raise Broken("argp_parse called twice")
        st.g["argp"] = True
        loc = eng.where(ins)
        ap, argc, argv, flags, idx, inp = vals
        if flags != 0 or idx is not NULL:
            raise Broken("argp_parse with flags at " + loc)
        if argc != st.g.get("argc") or argv != st.g.get("argv"):
            self.sfind(eng, st, ["C20"], "argp_parse is not given the command line", loc)
        r = eng.load(st, ap, PTR, ins)
        if not r:
            return []
        opts = r[0][1]
        r = eng.load(st, Ptr(ap.o, add(ap.off, 8)), PTR, ins)
        parser = r[0][1]
        r = eng.load(st, Ptr(ap.o, add(ap.off, 32)), PTR, ins)
        if r[0][1] is not NULL:
            raise Broken("argp children")
        if not isinstance(parser, Fn):
            self.sfind(eng, st, ["C20"], "no argument parser callback", loc)
            return []
        # option table
        keys = self.options(eng, st, opts, ins)
        okeys = sorted(k for k, (n, a) in keys.items())
        names = {n: k for k, (n, a) in keys.items() if n}
        k = names.get(b"output")
        if k != ord("o") or not keys.get(k, (0, 0))[1]:
            self.sfind(eng, st, ["C20"], "the option table does not declare -o/--output with an argument", loc)
        else:
            self.c.ob("C20", "option table declares -o/--output FILE and is terminated")
        if isinstance(inp, Ptr):
            io = inp.o
        else:
            io = None
        size = 104
        so = eng.new_obj(st, "root", size, "zero", "argp state")
        so.cells[40] = (8, inp)
        so.cells[0] = (8, ap)
        so.cells[8] = (4, argc)
        so.cells[16] = (8, argv)
        so.cells[32] = (4, 0)
        so.cells[24] = (4, eng.var("next", 1, 1 << 20))
        so.cells[28] = (4, 0)
        for f in (72, 80):
            so.cells[f] = (8, UNDEF)
        sp = Ptr(so.id, 0)

        def cb(s, key, arg):
            fr = s.frames[-1]
            return eng.call_fn(s, parser.n, [key, arg, sp], ins)

        def snap(s, cls):
            o = s.objs[io]
            return tuple((k, z, cls.get(v.o, v.o) if isinstance(v, Ptr) and v.o in cls else
                          (v.o, v.off) if isinstance(v, Ptr) else v)
                         for k, (z, v) in sorted(o.cells.items()))
        ok = (0,)
        UNKNOWN = 7
        cur = []
        for s, r in cb(st, self.KINIT, NULL):
            if r not in (0, UNKNOWN):
                self.sfind(eng, s, ["C20"], "the callback rejects ARGP_KEY_INIT", loc)
                continue
            cur.append((s, 0, None, None))      # state, narg, arg obj, last o obj
        seen, fin = {}, []
        steps = 0
        while cur:
            s, narg, ao, oo = cur.pop()
            cls = {}
            if ao:
                cls[ao] = "ARG"
            if oo:
                cls[oo] = "OUT"
            key = (narg, oo is not None, snap(s, cls))
            if key in seen:
                continue
            if len(seen) > 40:
                raise Broken("the argument callback keeps too much state")
            seen[key] = True
            fin.append((s.copy(), narg, ao, oo))
            # an option
            for kk in okeys:
                s2 = s.copy()
                na = NULL
                no = oo
                if keys[kk][1]:
                    a, _ = eng.new_str(s2, "root", "option argument")
                    na = Ptr(a.id, 0)
                    if kk == ord("o"):
                        no = a.id
                for s3, r in cb(s2, kk, na):
                    steps += 1
                    if r == 0:
                        cur.append((s3, narg, ao, no))
                    elif kk == ord("o"):
                        self.sfind(eng, s3, ["C20"], "-o FILE is rejected by the callback", loc)
            # an argument
            s2 = s.copy()
            a, _ = eng.new_str(s2, "root", "source argument")
            s2.w(so.id).cells[32] = (4, narg if narg < 2 else eng.var("arg_num", 2, 1 << 20))
            before = len(eng.terminals)
            for s3, r in cb(s2, 0, Ptr(a.id, 0)):
                steps += 1
                if r == 0:
                    if narg >= 1:
                        self.sfind(eng, s3, ["C20"], "a second source file is accepted", loc)
                        continue
                    cur.append((s3, min(narg + 1, 2), a.id, oo))
                elif narg == 0:
                    self.sfind(eng, s3, ["C20"], "the source file argument is rejected", loc)
            # unknown option: the callback is not called by argp for it
        out = []
        for s, narg, ao, oo in fin:
            s.w(so.id).cells[32] = (4, narg)
            todo = [(s, ())]
            keysq = ([self.KNOARGS] if narg == 0 else []) + [self.KEND, self.KSUCC, self.KFINI]
            for kk in keysq:
                nxt = []
                for s2, _ in todo:
                    for s3, r in cb(s2, kk, NULL):
                        if r in (0, UNKNOWN):
                            nxt.append((s3, ()))
                        elif narg >= 1:
                            self.sfind(eng, s3, ["C20"], "a legal command line is rejected", loc)
                todo = nxt
            if narg == 0 and todo:
                self.sfind(eng, todo[0][0], ["C20"], "a command line without a source file is accepted", loc)
                continue
            for s2, _ in todo:
                s2.g["src"] = Ptr(ao, 0)
                s2.g["out"] = Ptr(oo, 0) if oo else "default"
                s2.objs.pop(so.id, None)
                out.append((s2, 0))
        self.c.ob("C20", "argument callback transitions", steps)
        if not out:
            self.sfind(eng, st, ["C20"], "no legal command line is accepted", loc)
        return out

    def options(self, eng, st, p, ins):
        keys = {}
        if p is NULL:
            return keys
        for i in range(64):
            def rd(off, ty):
                r = eng.load(st, Ptr(p.o, add(p.off, i * 48 + off)), ty, ins)
                return r[0][1] if r else None
            o = st.objs[p.o]
            if not isinstance(p.off, int) or p.off + i * 48 + 48 > o.size:
                eng.find(st, "oob", ins, "the option table is not terminated",
                         props=["C15", "C20"])
                return keys
            name, key, arg, fl, doc, grp = (rd(0, PTR), rd(8, I32), rd(16, PTR), rd(24, I32),
                                            rd(32, PTR), rd(40, I32))
            if name is NULL and key == 0 and doc is NULL and grp == 0:
                return keys
            nm = None
            if isinstance(name, Ptr):
                b = st.objs[name.o].bytes
                nm = bytes(b).split(b"\0")[0] if b else None
            if fl not in (0,):
                raise Broken("option flags are not modelled")
            keys[key] = (nm, arg is not NULL)
        raise Broken("option table too long")

    # ---- lexer contract
    def c_lex_line(self, eng, st, vals, ins):
        buf, lx, tk, instr, num = vals
        loc = eng.where(ins)
        g = st.g
        if buf != g.get("line") or g.get("st") not in ("fresh",):
            self.sfind(eng, st, ["C21"] if isinstance(buf, Ptr) else ["C15"],
                       "the line given to the lexer is not the line just read", loc)
            return []
        g["st"] = "busy"
        g["lx"], g["tk"], g["io"] = lx, tk, instr
        if not self.eq(eng, st, num, g["lines"]):
            self.sfind(eng, st, ["C13", "C21"], "the line number given to the lexer is not the number of the line", loc)
        lo = eng.ptr_ok(st, lx, ins, "lex_line")
        to = eng.ptr_ok(st, tk, ins, "lex_line")
        io = eng.ptr_ok(st, instr, ins, "lex_line")
        if lo is None or to is None or io is None:
            return []
        seq = self.get(st, lo.id, "Lexer", "sequence")
        so = eng.ptr_ok(st, seq, ins, "lex_line")
        if so is None:
            return []
        toks = []
        for i in range(8):
            r = eng.load(st, Ptr(seq.o, add(seq.off, 8 * i)), PTR, ins)
            if not r:
                return []
            o = eng.ptr_ok(st, r[0][1], ins, "lex_line")
            if o is None:
                return []
            toks.append(o.id)
        if len(set(toks)) != 8 or to.id in toks:
            self.sfind(eng, st, ["C15", "C19"], "tokens of the sequence are shared", loc)
            return []
        for t in toks + [to.id]:
            p = self.get(st, t, "Token", "str")
            so2 = eng.ptr_ok(st, p, ins, "lex_line")
            if so2 is None:
                return []
            if p.off != 0 or not isinstance(so2.size, int) or so2.size < 64:
                eng.find(st, "oob", ins, "a token buffer is smaller than 64 bytes")
                return []
        fname = self.get(st, lo.id, "Lexer", "file_name")
        if fname != g["src"]:
            self.sfind(eng, st, ["C13"], "the lexer is not given the source file name", loc)
        self.put(st, lo.id, "Lexer", "line", buf)
        self.put(st, lo.id, "Lexer", "line_num", num)
        self.put(st, lo.id, "Lexer", "error_tk", NULL)
        out = []
        # the running token afterwards: anything
        sv = st.svs[st.objs[buf.o].sv]

        def junk_token(s, t):
            for f in ("type", "value", "error_char", "buffer_location"):
                self.put(s, t, "Token", f, UNDEF)

        def setstr(s, t, name, lo=0):
            p = self.get(s, t, "Token", "str")
            x = eng.new_sv(s, name, lo, 63, ident=name)
            o = s.w(p.o)
            o.cells, o.sv = {}, x.id

        def setinstr(s, mn):
            fields = self.m.struct_fields("Instruction")
            for f in fields:
                if f != "__size__":
                    self.put(s, io.id, "Instruction", f, 0)
            self.put(s, io.id, "Instruction", "mnemonic", mn)

        def fresh_mn(s):
            a = eng.fvar("mnemonic", self.nm)
            s.masks[a] = sum(1 << self.c.mn[x] for x in spec.MNEMONICS)
            return FV(a, tuple(range(self.nm)))

        bitf = self.bitfields(eng)

        def setmn(s, has):
            if has:
                mn = fresh_mn(s)
                setinstr(s, mn)
                self.put(s, io.id, "Instruction", "addr_bitfield",
                         eng.nrm(s, FV(mn.a, bitf)))
                return mn
            setinstr(s, self.c.mn["NULL_MNEMONIC"])
            return None
        # 1. lexical errors, reported by the lexer
        for code in ("ILLEGAL_CHAR", "TOO_BIG_LITERAL", "TOO_LONG_LABEL", "ILLEGAL_DIRECTIVE"):
            s = st.copy()
            for t in toks:
                junk_token(s, t)
                setstr(s, t, "junk")
            junk_token(s, to.id)
            setstr(s, to.id, "junk")
            setinstr(s, UNDEF)
            for f in self.m.struct_fields("Instruction"):
                if f != "__size__":
                    self.put(s, io.id, "Instruction", f, UNDEF)
            self.put(s, lo.id, "Lexer", "curr", eng.var("curr", 0, 7))
            s.g["lexerr"] = True
            s.emit("lexerr", code)
            out.append((s, self.c.err(code)))
        # 2. n tokens; instruction tokens: none, the first, the second, later
        for n in range(0, 10):
            many = n == 9
            k = min(n, 8)
            for has in [None, 0, 1, 2][:k + 1 if k < 3 else 4]:
                s = st.copy()
                types, vals_, locs, ids = [], [], [], []
                for i in range(8):
                    t = toks[i]
                    self.put(s, t, "Token", "error_char", NULL)
                    if i < k:
                        a = eng.fvar("token%d" % i, self.nt)
                        s.masks[a] = ((1 << self.nt) - 1) & ~(1 << self.null)
                        ii = 1 << self.inv["I"]
                        if has is None or i < has:
                            s.masks[a] &= ~ii
                        elif i == has and (has < 2 or k == 3):
                            s.masks[a] = ii
                        ty = FV(a, tuple(range(self.nt)))
                        v = eng.var("value%d" % i, 0, 0xFFFF)
                        p = eng.var("at%d" % i, 0, MAXSRC)
                        eng.assume_ge(s, sub(sub(sv.N, p), 1))
                        self.put(s, t, "Token", "type", ty)
                        self.put(s, t, "Token", "value", v)
                        self.put(s, t, "Token", "buffer_location", Ptr(buf.o, p))
                        setstr(s, t, "name%d" % i)
                        types.append(ty)
                        vals_.append(v)
                        locs.append(p)
                        ids.append("name%d" % i)
                    else:
                        self.put(s, t, "Token", "type", self.null)
                        self.put(s, t, "Token", "value", 0)
                        self.put(s, t, "Token", "buffer_location", NULL)
                        setstr(s, t, "empty")
                junk_token(s, to.id)
                setstr(s, to.id, "junk")
                mn = setmn(s, has is not None)
                self.put(s, lo.id, "Lexer", "curr", k)
                s.g["ink"] = n > 0
                s.emit("lex", tuple(types), tuple(vals_), tuple(locs), tuple(ids), mn, many, has)
                out.append((s, self.c.err("TOO_MANY_TOKENS") if many else self.c.mac["LEXER_SUCCESS"]))
        return par.slices(eng, out)

    def bitfields(self, eng):
        """the addressing-mode sets gaia attaches to mnemonics"""
        if not hasattr(self, "_bitf"):
            f = self.m.funcs.get("get_addr_bitfield")
            if f is None:
                raise Broken("get_addr_bitfield is gone")
            st = State()
            a = eng.fvar("mnemonic", self.nm)
            st.masks[a] = sum(1 << self.c.mn[x] for x in spec.MNEMONICS)
            r = eng.start(st, "get_addr_bitfield", [FV(a, tuple(range(self.nm)))])
            if len(r) != 1 or not isinstance(r[0][1], FV):
                raise Broken("get_addr_bitfield is not a function of the mnemonic")
            self._bitf = r[0][1].t
        return self._bitf

    # ---- errors
    def c_print_error(self, eng, st, vals, ins):
        line, code, bad, fname, num = vals
        loc = eng.where(ins)
        if isinstance(code, FV):
            return [r for s, k in eng.split_vals(st, code)
                    for r in self.c_print_error(eng, s, [line, k, bad, fname, num], ins)]
        if isinstance(code, Lin):
            code = eng.nrm(st, code)
        for v, w in ((line, "line"), (bad, "position"), (fname, "file name")):
            if v is UNDEF:
                eng.find(st, "undef", ins, "print_error with an uninitialised " + w)
                return []
        if isinstance(line, Ptr):
            o = eng.ptr_ok(st, line, ins, "print_error")
            if o is None:
                return []
            i = self.pending_ref(st)
            lx = [e for e in st.ev if e[0] == "lex"]
            if i is not None and line == Ptr(st.ev[i][3], 0):
                at = [st.ev[i][6]]
            elif line == st.g.get("line") and (st.g.get("ink") or st.g.get("lexerr")):
                at = lx[-1][3] if lx else []
            else:
                # the end of a line without any token is looked for before its start
                self.sfind(eng, st, ["C15", "C13"], "the line shown is not one with a statement", loc)
                return []
            if bad is not NULL and not (isinstance(bad, Ptr) and bad.o == line.o and any(
                    self.eq(eng, st, bad.off, x) for x in at)):
                self.sfind(eng, st, ["C14", "C15"], "the error position is not a token of the line shown", loc)
                bad = NULL
        elif line is not NULL:
            raise Broken("print_error with line %r at %s" % (line, loc))
        elif bad is not NULL:
            bad = NULL      # not looked at
        if not isinstance(fname, Ptr) or eng.ptr_ok(st, fname, ins, "print_error") is None:
            self.sfind(eng, st, ["C13", "C15"], "print_error without a file name", loc)
            return []
        st.emit("err", line, code, bad, fname, num, loc)
        if "leftloop" in st.g and st.g["st"] == "busy":
            self.failed(eng, st, [st.ev[-1]], st.g["leftloop"])
        return [(st, None)]

    # ---- symbols
    def ident(self, eng, st, p, ins):
        o = eng.ptr_ok(st, p, ins, "symbol name")
        if o is None:
            return None
        if o.sv is None or p.off != 0 or o.cells:
            return "?%d" % o.id
        return st.svs[o.sv].ident

    def symchk(self, eng, st, p, ins):
        o = eng.ptr_ok(st, p, ins, "symbol table")
        if o is None:
            return None
        if p != st.g.get("symtab"):
            self.sfind(eng, st, ["C11"], "not the symbol table", eng.where(ins))
            return None
        return o

    def c_search(self, eng, st, vals, ins):
        if self.symchk(eng, st, vals[0], ins) is None:
            return []
        i = self.ident(eng, st, vals[1], ins)
        if i is None:
            return []
        known = {}
        for e in st.ev:
            if e[0] == "sym":
                known[e[1]] = (e[2], e[3])
        nf = self.c.err("SYMBOL_NOT_FOUND")
        if i in known:
            k, v = known[i]
            return [(st, v if k else nf)]
        out = []
        if not i.startswith(("empty", "junk", "?")):
            # may be the same name as another one of this line
            for j, (k, v) in known.items():
                if j.startswith(("empty", "junk", "?")):
                    continue
                s = st.copy()
                s.emit("sym", i, k, v)
                s.emit("same", i, j)
                out.append((s, v if k else nf))
        s = st.copy()
        v = eng.var("value of symbol", 0, 0xFFFF)
        s.emit("sym", i, True, v)
        out.append((s, v))
        st.emit("sym", i, False, None)
        out.append((st, nf))
        return out

    def c_insert(self, eng, st, vals, ins):
        if self.symchk(eng, st, vals[0], ins) is None:
            return []
        i = self.ident(eng, st, vals[1], ins)
        if i is None:
            return []
        v = vals[2]
        if v is UNDEF:
            eng.find(st, "undef", ins, "symbol with an uninitialised value")
            return []
        if isinstance(v, FV):
            v = eng.tolin(st, v)
        loc = eng.where(ins)
        known = {e[1]: (e[2], e[3]) for e in st.ev if e[0] == "sym"}
        same = {i} | {e[1] for e in st.ev if e[0] == "same" and e[2] == i} | \
            {e[2] for e in st.ev if e[0] == "same" and e[1] == i}
        s0 = st.copy()
        s0.g["oom"] = True
        if known.get(i, (True, 0))[0]:
            self.sfind(eng, st, ["C10"], "a label is defined without checking that it is new", loc)
        if not (eng.entails(st, L(v)) if isinstance(v, Lin) else v >= 0) or \
                not eng.entails(st, sub(0xFFFF, v)):
            self.sfind(eng, st, ["C24", "C10"], "a label gets a value outside $0000-$FFFF", loc)
        for n in same:
            st.emit("sym", n, True, v)
        st.emit("ins", i, v, loc)
        o = st.g["symtab"].o
        self.put(st, o, "SymbolTable", "count", add(self.get(st, o, "SymbolTable", "count"), 1))
        self.put(st, o, "SymbolTable", "size", eng.var("table size", 17, 1 << 30))
        return [(st, self.c.mac["SYMBOL_INSERTION_SUCCESS"]),
                (s0, self.c.err("MEMORY_ALLOCATION_FAIL"))]

    # ---- forward references
    def c_create_ref(self, eng, st, vals, ins):
        buf, instr, operand, status, pc, num = vals
        loc = eng.where(ins)
        io = eng.ptr_ok(st, instr, ins, "create_forward_ref")
        oo = eng.ptr_ok(st, operand, ins, "create_forward_ref")
        bo = eng.ptr_ok(st, buf, ins, "create_forward_ref")
        if io is None or oo is None or bo is None:
            return []
        if not st.g.get("ink") or buf != st.g.get("line"):
            self.sfind(eng, st, ["C15", "C13"], "a reference is stored with something that is not its source line", loc)
            return []
        at = self.get(st, oo.id, "Token", "buffer_location")
        if not isinstance(at, Ptr) or at.o != buf.o:
            self.sfind(eng, st, ["C15", "C14"], "the operand of a stored reference is not in its line", loc)
            return []
        for v, w in ((status, "status"), (pc, "address"), (num, "line number")):
            if v is UNDEF:
                eng.find(st, "undef", ins, "forward reference with an uninitialised " + w)
                return []
        s0 = st.copy()
        s0.g["oom"] = True
        ident = self.ident(eng, st, self.get(st, oo.id, "Token", "str"), ins)
        names = ("status", status), ("pc", pc), ("num", num)
        ref = self.heap(eng, st, self.ssize("ForwardRef"), "forward reference", "zero")
        ref.site = ins
        src = self.heap(eng, st, eng.var("copy size", 1, MAXSRC), "copy of a line")
        src.site = ins
        lab = self.heap(eng, st, eng.var("name size", 1, 64), "copy of a label")
        lab.site = ins
        sv = eng.new_sv(st, "refname", 0, 63, ident=ident)
        lab.sv = sv.id
        ni = self.heap(eng, st, self.ssize("Instruction"), "copy of an instruction")
        ni.site = ins
        for k, c in list(st.objs[io.id].cells.items()):
            st.w(ni.id).cells[k] = c
        p = self.put
        p(st, ref.id, "ForwardRef", "label", Ptr(lab.id, 0))
        p(st, ref.id, "ForwardRef", "source_line", Ptr(src.id, 0))
        p(st, ref.id, "ForwardRef", "instr", Ptr(ni.id, 0))
        p(st, ref.id, "ForwardRef", "pc", pc)
        p(st, ref.id, "ForwardRef", "line_num", num)
        p(st, ref.id, "ForwardRef", "operand_status", status)
        p(st, ref.id, "ForwardRef", "operand_location", Ptr(src.id, at.off))
        return [(st, Ptr(ref.id, 0)), (s0, NULL)]

    def c_add_ref(self, eng, st, vals, ins):
        un, rp = vals
        loc = eng.where(ins)
        uo = eng.ptr_ok(st, un, ins, "add_forward_ref")
        ro = eng.ptr_ok(st, rp, ins, "add_forward_ref")
        if uo is None or ro is None:
            return []
        if un != st.g.get("unres"):
            self.sfind(eng, st, ["C06"], "not the list of forward references", loc)
            return []
        s0 = st.copy()
        s0.g["oom"] = True
        G = lambda f: self.get(st, ro.id, "ForwardRef", f)
        lab, src, ip = G("label"), G("source_line"), G("instr")
        ident = self.ident(eng, st, lab, ins)
        if not isinstance(ip, Ptr) or not isinstance(src, Ptr):
            raise Broken("incomplete forward reference at " + loc)
        at = G("operand_location")
        fields = {}
        for f in ("mnemonic", "addr_bitfield", "addr_bitflag", "opcode"):
            fields[f] = self.get(st, ip.o, "Instruction", f)
        if st.g["st"] != "busy":
            self.sfind(eng, st, ["C06"], "a forward reference is stored while no line is processed", loc)
            return []
        st.emit("ref", ident, G("operand_status"), G("pc"), G("line_num"),
                at.off if isinstance(at, Ptr) and at.o == src.o else None,
                tuple(sorted(fields.items())), loc)
        for v in (lab, src, ip, rp):
            st.w(v.o).kind = "str"
        self.put(st, uo.id, "Unresolved", "curr",
                 add(self.get(st, uo.id, "Unresolved", "curr"), 1))
        self.put(st, uo.id, "Unresolved", "size", eng.var("list size", 8, 1 << 30))
        return [(st, self.c.mac["FORWARD_REFERENCE_INSERTION_SUCCESS"]),
                (s0, self.c.err("MEMORY_ALLOCATION_FAIL"))]

    def read_ref(self, eng, st, o, off, n, ins):
        loc = eng.where(ins)
        g = st.g
        if n != 8:
            raise Broken("partial read of the reference list")
        if g["st"] != "idle":
            return [r for s in self.close(eng, st) for r in self.read_ref(eng, s, s.objs[o.id], off, n, ins)]
        g["mode"] = "ref"
        for e in st.ev:
            if e[0] == "useref" and self.eq(eng, st, e[1], off):
                return [(st, Ptr(e[2], 0))]
        # null terminator of the list
        out = []
        for s, past in eng.split_ge(st, sub(off, scale(g["nrefs"], 8))):
            if past:
                if self.eq(eng, s, off, scale(s.g["nrefs"], 8)):
                    s.emit("endref")
                    out.append((s, NULL))
                else:
                    self.sfind(eng, s, ["C15"], "the reference list is read past its end", loc)
                continue
            if any(e[0] == "useref" for e in s.ev):
                # the next reference: the previous one must be complete
                for s2 in self.close_ref(eng, s):
                    out += self.gen_ref(eng, s2, o, off, ins)
                continue
            out += self.gen_ref(eng, s, o, off, ins)
        return out

    def gen_ref(self, eng, st, o, off, ins):
        out = []
        for k in sorted(self.classes):
            status, flag, bitf, opc, form = k
            m = self.classes[k]
            s = st.copy()
            mk = lambda sz, nm: eng.new_obj(s, "str", sz, "zero", nm)
            ref = mk(self.ssize("ForwardRef"), "stored reference")
            src, sv = eng.new_str(s, "str", "stored line", 1, MAXSRC)
            lab, sv2 = eng.new_str(s, "str", "refname", 0, 63)
            sv2.ident = "refname"
            ni = mk(self.ssize("Instruction"), "stored instruction")
            a = eng.fvar("mnemonic", self.nm)
            s.masks[a] = m
            mn = eng.nrm(s, FV(a, tuple(range(self.nm))))
            p = self.put
            p(s, ni.id, "Instruction", "mnemonic", mn)
            p(s, ni.id, "Instruction", "addr_bitflag", flag)
            p(s, ni.id, "Instruction", "opcode", opc)
            p(s, ni.id, "Instruction", "addr_bitfield",
              eng.nrm(s, FV(a, bitf)) if isinstance(bitf, tuple) else bitf)
            ln = 2 if form == "rel" else 3
            pc = eng.var("ref pc", 0, 0x10000 - ln)
            num = eng.var("ref line", 1, MAXSRC)
            at = eng.var("ref at", 0, MAXSRC)
            eng.assume_ge(s, sub(sub(sv.N, at), 1))
            p(s, ref.id, "ForwardRef", "label", Ptr(lab.id, 0))
            p(s, ref.id, "ForwardRef", "source_line", Ptr(src.id, 0))
            p(s, ref.id, "ForwardRef", "instr", Ptr(ni.id, 0))
            p(s, ref.id, "ForwardRef", "pc", pc)
            p(s, ref.id, "ForwardRef", "line_num", num)
            p(s, ref.id, "ForwardRef", "operand_status", status)
            p(s, ref.id, "ForwardRef", "operand_location", Ptr(src.id, at))
            s.emit("useref", off, ref.id, src.id, pc, num, at, mn, form, eng.where(ins))
            out.append((s, Ptr(ref.id, 0)))
        return out

    # -------------------------------------------------- the specification
    def is_end(self, eng, st):
        for e in st.ev[st.g["ev0"]:]:
            if e[0] == "lex":
                return not e[6] and verdicts_of(self, eng, st, e) == {("ok", "Q")}
        return False

    def sets(self, eng, st, types):
        return [{self.tc[v] for v in ([t] if isinstance(t, int) else eng.fvals(st, t.a, t.t))}
                for t in types]

    def restrict(self, st, types, form):
        """state copy in which the tokens have exactly this form"""
        s = st.copy()
        for t, c in zip(types, form):
            k = self.inv[c]
            if isinstance(t, int):
                if t != k:
                    return None
                continue
            m = sum(1 << i for i, x in enumerate(t.t) if x == k)
            m &= s.masks.get(t.a, -1)
            if not m:
                return None
            s.masks[t.a] = m
        return s

    def groups(self, eng, st, mn, f):
        """[(state, one mnemonic, key)]: split by f(mnemonic name)"""
        if isinstance(mn, int):
            return [(st, self.mname[mn], f(self.mname[mn]))]
        by = {}
        m = eng.mask(st, mn.a)
        for i, v in enumerate(mn.t):
            if m >> i & 1:
                by.setdefault(f(self.mname[v]), []).append((i, self.mname[v]))
        out = []
        for k, l in by.items():
            s = st.copy()
            s.masks[mn.a] = sum(1 << i for i, _ in l)
            out.append((s, l[0][1], k))
        return out

    def opcode(self, mn, mode):
        t = lambda v: spec.OPCODE.get((self.mname.get(v), mode), -1)
        if isinstance(mn, int):
            return t(mn)
        return FV(mn.a, tuple(t(v) for v in mn.t))

    def find_sym(self, ev, ident, first=False):
        r = None
        for e in ev:
            if e[0] == "sym" and e[1] == ident:
                r = e
                if first:
                    break
        return r

    def spec_line(self, eng, st, ev, lexev):
        """what the specification says about the line: list of
        (state, form, dict)"""
        _, types, vals, locs, ids, mn, many, has = lexev
        out = []
        if many:
            for v in verdicts_of(self, eng, st, lexev):
                out.append((st.copy(), None, {"why": ["syntax"], "at": v[1] if v[0] == "bad" else None}))
            return out
        for v in verdicts_of(self, eng, st, lexev):
            if v[0] == "bad":
                out.append((st.copy(), None, {"why": ["syntax"], "at": v[1]}))
                continue
            form = v[1]
            if has is not None and "I" not in form:
                continue
            s = self.restrict(st, types, form)
            if s is None:
                continue
            out += self.spec_form(eng, s, ev, lexev, form)
        return out

    def spec_form(self, eng, st, ev, lexev, form):
        _, types, vals, locs, ids, mn, many, has = lexev
        kind, opf = spec.FORMS[form]
        g = st.g
        d = {"why": [], "label": None, "len": 0, "bytes": [], "fwd": None, "pc": None, "end": False,
             "lab_at": None, "op_at": None, "mn_at": None, "kind": kind}
        cur = [(st, d)]
        if kind in ("label", "const", "define", "linstr"):
            li = 1 if kind == "define" else 0
            val = g["pc"] if kind in ("label", "linstr") else vals[form.index("N")]
            d["label"] = (ids[li], val)
            d["lab_at"] = locs[li]
            f = self.find_sym(ev, ids[li], True)
            if f is None:
                d["nolookup"] = True
            elif f[2]:
                d["why"].append("redef")
            if kind in ("label", "linstr"):
                nxt = []
                for s, dd in cur:
                    for s2, ok in eng.split_ge(s, sub(0xFFFF, val)):
                        d2 = dict(dd, why=list(dd["why"]))
                        if not ok:
                            d2["why"].append("address")
                        nxt.append((s2, d2))
                cur = nxt
        if kind == "org":
            d["pc"] = vals[form.index("N")]
        if kind == "end":
            d["end"] = True
        if kind in ("instr", "linstr"):
            nxt = []
            for s, dd in cur:
                nxt += self.spec_instr(eng, s, dd, ev, lexev, form, opf)
            cur = nxt
        return [(s, form, dd) for s, dd in cur]

    def spec_instr(self, eng, st, d, ev, lexev, form, opf):
        _, types, vals, locs, ids, mn, many, has = lexev
        ii = form.index("I")
        oi = None
        for k in range(ii + 1, len(form)):
            if form[k] in "LN":
                oi = k
        out = []
        d = dict(d, why=list(d["why"]), mn_at=locs[ii], op_at=locs[oi] if oi is not None else None)
        lit = oi is not None and form[oi] == "N"
        if oi is None:
            cases = [(st, None, True)]
        elif lit:
            v = vals[oi]
            cases = [(s, v, sm) for s, sm in eng.split_ge(st, sub(255, v))]
        else:
            f = self.find_sym(ev, ids[oi])
            if f is None:
                d["nolookup_op"] = True
                cases = [(st, "fwd", None)]
            elif f[2]:
                v = f[3]
                cases = [(s, v, sm) for s, sm in eng.split_ge(st, sub(255, v))]
            else:
                cases = [(st, "fwd", None)]
            d["op_id"] = ids[oi]

        for s, v, small in cases:
            def key(name):
                why = ()
                if v == "fwd" and isinstance(v, str):
                    m = None
                    if name in spec.BRANCHES or name in spec.JUMPS:
                        m = spec.addr_mode(name, opf, False) if opf in ("plain", "ind") else None
                        if m is None:
                            why = ("mode",)
                    else:
                        why = ("fwd",)
                        if spec.addr_mode(name, opf, True) is None and spec.addr_mode(name, opf, False) is None:
                            why = ("fwd", "mode")
                    return m, why
                m = spec.addr_mode(name, opf, small)
                if m == "rel" and lit and not small:
                    return None, ("mode", "offset")
                if m is None:
                    return None, ("mode",)
                return m, why
            for s2, name, (m, why) in self.groups(eng, s, mn, key):
                dd = dict(d, why=d["why"] + list(why), mode=m, mn=mn, opf=opf, some=name)
                if m is None:
                    dd["len"] = 0
                    out.append((s2, dd))
                    continue
                n = spec.LENGTH[m]
                dd["len"] = n
                op = (self.opcode(mn, m), ["C01"], "opcode")
                pc = s2.g["pc"]
                subs = [(s2, dd)]
                if isinstance(v, str):
                    dd["fwd"] = (ids[oi], m)
                elif m == "rel" and not lit:
                    dist = sub(sub(v, pc), 2)
                    subs = []
                    for s3, ok1 in eng.split_ge(s2, add(dist, 128)):
                        for s4, ok2 in (eng.split_ge(s3, sub(127, dist)) if ok1 else [(s3, True)]):
                            d4 = dict(dd, why=list(dd["why"]))
                            if not (ok1 and ok2):
                                d4["why"].append("offset")
                            else:
                                d4["bytes"] = [op, (eng.mod(s4, dist, 256), ["C05"], "displacement")]
                            subs.append((s4, d4))
                elif n == 1:
                    dd["bytes"] = [op]
                elif n == 2:
                    dd["bytes"] = [op, (v, ["C03"], "operand")]
                else:
                    dd["bytes"] = [op, (eng.mod(s2, v, 256), ["C03"], "low operand byte"),
                                   (eng.div(s2, v, 256), ["C03"], "high operand byte")]
                for s3, d3 in subs:
                    for s4, ok in eng.split_ge(s3, sub(0x10000 - n, pc)):
                        d4 = dict(d3, why=list(d3["why"]))
                        if not ok:
                            d4["why"].append("address")
                        out.append((s4, d4))
        return out

    # -------------------------------------------------- comparing
    REASON = {"syntax": ("ILLEGAL_SEQUENCE", "ILLEGAL_BASE", "TOO_MANY_TOKENS"),
              "mode": ("ILLEGAL_ADDRESSING_MODE",), "fwd": ("ILLEGAL_FORWARD_REFERENCE",),
              "offset": ("TOO_BIG_OFFSET",), "redef": ("LABEL_REDEFINITION",),
              "address": ("TOO_BIG_ADDRESS",)}
    REJ = {"syntax": ["C07"], "fwd": ["C06"], "offset": ["C05"], "redef": ["C10"],
           "address": ["C24"]}

    def text(self, eng, st, lexev, form=None):
        types, mn = lexev[1], lexev[5]
        o = []
        for i, t in enumerate(types):
            vs = [t] if isinstance(t, int) else sorted(eng.fvals(st, t.a, t.t))
            if form is not None and i < len(form):
                vs = [self.inv[form[i]]]
            n = [self.domnames[self.nt][v] for v in vs]
            if n == ["INSTRUCTION"] and mn is not None:
                n = self.names(eng, st, mn)
                o.append("/".join(n[:4]) + ("/..." if len(n) > 4 else ""))
            else:
                o.append("/".join(n) if len(n) < 4 else "(any of %d)" % len(n))
        return " ".join(o) or "(blank line)"

    def matchbytes(self, eng, st, base, exp, ev, what, loc, free=0):
        """the writes of this statement leave exactly exp at base; free: any
        bytes within that many positions (to be overwritten later)"""
        n = max(len(exp), free)
        last = {}
        ok = True
        for e in ev:
            if e[0] != "w":
                continue
            for i in range(n):
                if self.eq(eng, st, e[1], add(base, i)):
                    last[i] = e
                    break
            else:
                p = ["C04"]
                if exp and any(self.eq(eng, st, e[1], add(base, n + j)) for j in range(3)):
                    p = ["C04", "C02"]
                self.sfind(eng, st, p, "%s: a byte is written outside the %d bytes of the "
                           "statement at the location counter" % (what, n), e[3])
                ok = False
        if free:
            return ok
        for i, (v, props, nm) in enumerate(exp):
            if i not in last:
                self.sfind(eng, st, ["C04"] if i == 0 else ["C04", "C02"],
                           "%s: the %s is not written" % (what, nm), loc)
                ok = False
            elif not self.eq(eng, st, last[i][2], v):
                self.sfind(eng, st, props, "%s: wrong %s: %s is written, %s expected" % (
                    what, nm, eng.show(last[i][2]), eng.show(v)), last[i][3])
                ok = False
        return ok

    def close(self, eng, st):
        g = st.g
        if g["st"] == "idle":
            return [st]
        if g["st"] == "fresh":
            self.sfind(eng, st, ["C21"], "a source line is not processed")
            return []
        ev = st.ev[g["ev0"]:]
        loc = self.lastloc(st)
        err = [e for e in ev if e[0] == "err"]
        if err:
            self.sfind(eng, st, ["C12"], "the run goes on after a line was rejected", err[0][6])
            return []
        if any(e[0] == "lexerr" for e in ev):
            self.sfind(eng, st, ["C12"], "the run goes on after the lexer rejected a line", loc)
            return []
        lx = [e for e in ev if e[0] == "lex"]
        if len(lx) != 1:
            raise Broken("a line is lexed %d times" % len(lx))
        lx = lx[0]
        out = []
        for s, form, d in self.spec_line(eng, st, ev, lx):
            r = self.close1(eng, s, ev, lx, form, d, loc)
            if r is not None:
                out.append(r)
        return out

    def close1(self, eng, st, ev, lx, form, d, loc):
        g = st.g
        what = "line [%s]" % self.text(eng, st, lx, form)
        if "syntax" in d["why"]:
            self.sfind(eng, st, ["C07"], "%s is accepted" % what, loc)
            return None
        if d["why"]:
            for w in d["why"]:
                msg = {"mode": "no such addressing mode", "fwd": "illegal forward reference",
                       "offset": "branch offset out of range", "redef": "label defined twice",
                       "address": "address over $FFFF"}[w]
                props = self.REJ.get(w)
                if props is None:
                    nm = d.get("some")
                    any_ = [spec.addr_mode(nm, d["opf"], x) for x in (True, False)]
                    props = ["C01"] if any_ == [None, None] else ["C02"]
                    if "offset" in d["why"]:
                        props = ["C02", "C05"]
                self.sfind(eng, st, props, "%s is accepted: %s" % (what, msg), loc)
            return None
        ins = [e for e in ev if e[0] == "ins"]
        ok = True
        if d["label"] is None:
            if ins:
                self.sfind(eng, st, ["C10"], "%s defines a label" % what, ins[0][3])
                ok = False
        else:
            i, v = d["label"]
            if len(ins) != 1:
                self.sfind(eng, st, ["C10"], "%s: %s" % (
                    what, "its label is not defined" if not ins else "several labels are defined"), loc)
                ok = False
            else:
                same = [i] + [e[2] for e in ev if e[0] == "same" and e[1] == i] + \
                    [e[1] for e in ev if e[0] == "same" and e[2] == i]
                if ins[0][1] not in same:
                    self.sfind(eng, st, ["C10"], "%s: not its label is defined" % what, ins[0][3])
                    ok = False
                elif not self.eq(eng, st, ins[0][2], v):
                    self.sfind(eng, st, ["C10"], "%s: the label gets the value %s, not %s" % (
                        what, eng.show(ins[0][2]), eng.show(v)), ins[0][3])
                    ok = False
                if d.get("nolookup"):
                    ok = False
        if d.get("nolookup_op"):
            self.sfind(eng, st, ["C06", "C03"], "%s: the operand label is not looked up" % what, loc)
            return None
        refs = [e for e in ev if e[0] == "ref"]
        if d["fwd"] is None:
            if refs:
                self.sfind(eng, st, ["C06"], "%s stores a forward reference" % what, refs[0][7])
                ok = False
            if not self.matchbytes(eng, st, g["pc"], d["bytes"], ev, what, loc):
                ok = False
        else:
            ok &= self.matchbytes(eng, st, g["pc"], [], ev, what, loc, free=d["len"])
            ok &= self.match_ref(eng, st, d, refs, what, loc)
        if not ok:
            return None
        self.c.ob(["C04"], "statement bytes at the location counter")
        if d["bytes"]:
            self.c.ob(["C01"], "opcode of an accepted statement", 1 if isinstance(d["mn"], int) else
                      bin(eng.mask(st, d["mn"].a)).count("1"))
            self.c.ob(["C02"], "mode and length chosen by operand form and value")
            self.c.ob(["C05" if d["mode"] == "rel" else "C03"], "operand bytes of an accepted statement")
        if d["label"]:
            self.c.ob(["C10"], "label defined once with its value")
        self.c.ob(["C07"], "accepted statement form %s" % (form or "blank"))
        self.c.ob(["C24"], "location counter stays within $0000-$10000")
        self.c.ob(["C21"], "line processed once")
        # the next line
        if d["pc"] is not None:
            g["pc"] = d["pc"]
        g["pc"] = add(g["pc"], d["len"])
        g["bytes"] = add(g["bytes"], d["len"])
        if d["label"]:
            g["nsyms"] = add(g["nsyms"], 1)
        if d["fwd"]:
            g["nrefs"] = add(g["nrefs"], 1)
        if d["end"]:
            g["ended"] = True
        return self.idle(eng, st)

    def idle(self, eng, st):
        """forget the line"""
        g = st.g
        st.ev = st.ev[:g["ev0"]] + tuple(
            e for e in st.ev[g["ev0"]:] if e[0] in ("out", "fopen"))
        g["st"] = "idle"
        if g.get("lx") and all(g[k].o in st.objs and not st.objs[g[k].o].freed for k in ("lx", "tk", "io")):
            lo, to, io = g["lx"].o, g["tk"].o, g["io"].o
            seq = self.get(st, lo, "Lexer", "sequence")
            toks = [to]
            for i in range(8):
                c = st.objs[seq.o].cells.get(8 * i) if isinstance(seq, Ptr) else None
                if c is not None and isinstance(c[1], Ptr):
                    toks.append(c[1].o)
            for t in toks:
                for f in ("type", "value", "error_char", "buffer_location"):
                    self.put(st, t, "Token", f, UNDEF)
                p = self.get(st, t, "Token", "str")
                if isinstance(p, Ptr) and p.o in st.objs:
                    o = st.w(p.o)
                    o.cells, o.sv, o.default = {}, None, "undef"
            for f in self.m.struct_fields("Instruction"):
                if f != "__size__":
                    self.put(st, io, "Instruction", f, UNDEF)
            for f in ("curr", "error_tk", "line", "line_num"):
                self.put(st, lo, "Lexer", f, UNDEF)
        for k in ("lx", "tk", "io", "lexerr", "ink"):
            g.pop(k, None)
        lp = g.get("line")
        if lp is not None and lp.o in st.objs and not st.objs[lp.o].freed:
            o = st.w(lp.o)
            o.sv, o.cells, o.default = None, {}, "undef"
        return st

    def match_ref(self, eng, st, d, refs, what, loc):
        if len(refs) != 1:
            self.sfind(eng, st, ["C06"], "%s: %d references are stored for its operand" % (
                what, len(refs)), loc)
            return False
        _, ident, status, pc, num, at, fields, rloc = refs[0]
        g = st.g
        ok = True
        if ident != d["op_id"]:
            self.sfind(eng, st, ["C06"], "%s: the stored reference is not to its operand" % what, rloc)
            ok = False
        if not self.eq(eng, st, pc, g["pc"]):
            self.sfind(eng, st, ["C06", "C04"], "%s: the reference is not stored with the address of its "
                       "statement" % what, rloc)
            ok = False
        if not self.eq(eng, st, num, g["lines"]):
            self.sfind(eng, st, ["C13"], "%s: the reference is not stored with its line number" % what, rloc)
            ok = False
        if at is None or not self.eq(eng, st, at, d["op_at"]):
            self.sfind(eng, st, ["C14"], "%s: the position of the operand is not stored" % what, rloc)
            ok = False
        if not ok:
            return False
        f = dict(fields)
        mn = f["mnemonic"]
        if not self.eq(eng, st, mn, d["mn"]):
            self.sfind(eng, st, ["C06", "C01"], "%s: the stored mnemonic is wrong" % what, rloc)
            return False
        if isinstance(mn, int):
            mask = 1 << mn
        else:
            mask = 0
            mm = eng.mask(st, mn.a)
            for i, v in enumerate(mn.t):
                if mm >> i & 1:
                    mask |= 1 << v

        def norm(v):
            v = eng.nrm(st, v) if isinstance(v, (Lin, FV)) else v
            if isinstance(v, int) or v is UNDEF:
                return v
            if isinstance(v, FV) and isinstance(mn, FV) and v.a == mn.a:
                t = [0] * self.nm
                for i, x in enumerate(mn.t):
                    t[x] = v.t[i] if mm >> i & 1 else 0
                return tuple(t)
            raise Broken("reference field %r at %s" % (v, rloc))
        vals = tuple(norm(f[k]) for k in ("addr_bitflag", "addr_bitfield", "opcode"))
        k = (norm(status),) + vals + (d["mode"],)
        self.addclass(k, mask)
        self.c.ob(["C06"], "forward reference stored with label, address, line and mode")
        return True

    def addclass(self, k, mask):
        # per-mnemonic tables join into one class
        for k2 in list(self.classes):
            if k2 != k and k2[0] == k[0] and k2[4] == k[4]:
                j = self.joinclass(k2, self.classes[k2], k, mask)
                if j is not None:
                    m2 = self.classes.pop(k2)
                    mask |= m2
                    k = j
        self.classes[k] = self.classes.get(k, 0) | mask

    # ---- several processes
    def par_loop(self, eng, fn, header):
        return self.reads_line(fn, header)

    def par_state(self):
        return self.classes

    def par_merge(self, d):
        for k, m in d.items():
            self.addclass(k, m)

    def joinclass(self, k1, m1, k2, m2):
        out = [k1[0]]
        for a, b in zip(k1[1:4], k2[1:4]):
            if a == b:
                out.append(a)
                continue
            t = [0] * self.nm
            for v in range(self.nm):
                x = (a[v] if isinstance(a, tuple) else a) if m1 >> v & 1 else None
                y = (b[v] if isinstance(b, tuple) else b) if m2 >> v & 1 else None
                if x is UNDEF or y is UNDEF:
                    return None
                if x is not None and y is not None and x != y:
                    return None
                t[v] = x if x is not None else y if y is not None else 0
            out.append(tuple(t))
        return tuple(out) + (k1[4],)

    # ---- references
    def pending_ref(self, st):
        for i, e in enumerate(st.ev):
            if e[0] == "useref":
                return i
        return None

    def ref_spec(self, eng, st, ev):
        """[(state, expected bytes or None, why)]"""
        _, off, rid, sid, pc, num, at, mn, form, loc = ev[0]
        f = self.find_sym(ev, "refname")
        if f is None:
            return None
        if not f[2]:
            return [(st, None, "missing")]
        v = f[3]
        op = (self.opcode(mn, form), ["C06", "C01"], "opcode")
        if form == "rel":
            d = sub(sub(v, pc), 2)
            out = []
            for s, ok1 in eng.split_ge(st, add(d, 128)):
                for s2, ok2 in (eng.split_ge(s, sub(127, d)) if ok1 else [(s, True)]):
                    if ok1 and ok2:
                        out.append((s2, [op, (eng.mod(s2, d, 256), ["C05", "C06"], "displacement")], None))
                    else:
                        out.append((s2, None, "offset"))
            return out
        return [(st, [op, (eng.mod(st, v, 256), ["C03", "C06"], "low operand byte"),
                      (eng.div(st, v, 256), ["C03", "C06"], "high operand byte")], None)]

    def close_ref(self, eng, st):
        i = self.pending_ref(st)
        if i is None:
            if any(e[0] == "endref" for e in st.ev):
                st.ev = tuple(e for e in st.ev if e[0] != "endref")
            return [st]
        ev = st.ev[i:]
        loc = ev[0][9]
        err = [e for e in ev if e[0] == "err"]
        if err:
            self.sfind(eng, st, ["C12"], "the run goes on after a reference was rejected", err[0][6])
            return []
        if not self.eq(eng, st, ev[0][1], scale(st.g["done"], 8)):
            self.sfind(eng, st, ["C06"], "the stored references are not completed one after the other", loc)
            # the loop is followed on, to see whether it ends
            st.g["done"] = add(st.g["done"], 1)
            st.ev = st.ev[:i]
            return [st]
        sp = self.ref_spec(eng, st, ev)
        if sp is None:
            self.sfind(eng, st, ["C06"], "the label of a stored reference is not looked up", loc)
            return []
        out = []
        for s, exp, why in sp:
            if why == "missing":
                self.sfind(eng, s, ["C06", "C12"], "a reference to a label that is never defined is accepted", loc)
                continue
            if why == "offset":
                self.sfind(eng, s, ["C05"], "a forward branch out of range is accepted", loc)
                continue
            nm = self.names(eng, s, ev[0][7])
            if not self.matchbytes(eng, s, ev[0][4], exp, ev,
                                   "forward reference of %s" % "/".join(nm[:3]), loc):
                continue
            self.c.ob(["C06", "C03" if ev[0][8] != "rel" else "C05"], "reference completed at its address")
            s.g["done"] = add(s.g["done"], 1)
            s.ev = s.ev[:i]
            out.append(s)
        return out

    # ---- the end of a run
    CODES = None

    def errname(self, code):
        for k, v in self.c.mac.items():
            if k.startswith("ERROR_") and v == code:
                return k[6:]
        return str(code)

    def outs(self, st):
        """text printed: [(dest, items, loc)]"""
        return [e[1:] for e in st.ev if e[0] == "out"]

    def words(self, outs):
        return b"".join(x[1] if x[0] == "lit" else b"?" for o in outs for x in o[1]).lower()

    def end(self, eng, st, kind, v, loc):
        self.ends += 1
        g = st.g
        if kind == "abort":
            return
        if v is UNDEF:
            eng.find(st, "undef", loc, "undefined exit status")
            return
        if kind == "usage":
            self.c.ob("C20", "usage error ends the run")
            if any(e[0] == "fopen" for e in st.ev):
                self.sfind(eng, st, ["C20"], "files are opened before the command line is checked", loc)
            return
        if isinstance(v, (Lin, FV)):
            r = eng.split_vals(st, v)
            if r is None:
                self.sfind(eng, st, ["C12"], "the exit status is not determined", loc)
                return
            for s, k in r:
                self.end(eng, s, kind, k, loc)
            return
        v &= 255
        # everything released
        for o in list(st.objs.values()):
            if o.freed or o.kind not in ("heap", "file"):
                continue
            eng.find(st, "leak", loc, "%s %s when the run ends" % (
                o.name or "memory", "is not closed" if o.kind == "file" else "is not freed"),
                props=["C16"] + (["C17"] if g.get("oom") else []))
        if kind == "exit":
            self.c.ob("C16", "exit")
        self.c.ob("C16", "everything released when the run ends")
        if v:
            self.fail_end(eng, st, loc)
        else:
            self.good_end(eng, st, loc)

    def x_fopen(self, eng, st, vals, ins):
        """the name is checked here; afterwards it is any string, so that runs
        with and without -o continue as one"""
        out = []
        for s, v in self.fopen0(eng, st, vals, ins):
            e = s.ev[-1]
            self.check_fopen(eng, s, e)
            s.ev = s.ev[:-1] + (("fopen", None) + e[2:],)
            if e[2][0] == "w" and s.g.get("out") is not None:
                s.g["out"] = None
                p = vals[0]
                if isinstance(p, Ptr) and p.o in s.objs and (
                        s.objs[p.o].kind == "root" or s.objs[p.o].tag == "const"):
                    self.anyname(s, p.o)
            out.append((s, v))
        return out

    def anyname(self, st, oid):
        new = st.g["anyname"].o

        def rv(v):
            if isinstance(v, Ptr) and v.o == oid:
                return Ptr(new, v.off)
            return v
        for f in st.frames:
            f.regs = {r: rv(v) for r, v in f.regs.items()}
        for o in list(st.objs.values()):
            if o.tag == "const" or o.freed:
                continue
            if any(v.__class__ is Ptr and v.o == oid for _, v in o.cells.values()):
                o = st.w(o.id)
                o.cells = {k: (z, rv(v)) for k, (z, v) in o.cells.items()}
        if st.objs[oid].kind == "root":
            del st.objs[oid]

    def check_fopen(self, eng, st, e):
        _, p, mode, loc = e
        m = mode.replace("b", "")
        if m == "r":
            if p != st.g["src"]:
                self.sfind(eng, st, ["C20"], "a file other than the source is opened", loc)
        elif m in ("w", "w+"):
            want = st.g.get("out")
            if want == "default":
                b = None
                if isinstance(p, Ptr) and p.o in st.objs and st.objs[p.o].bytes and isinstance(p.off, int):
                    b = bytes(st.objs[p.o].bytes[p.off:]).split(b"\0")[0]
                if b != b"a.out":
                    self.sfind(eng, st, ["C20"], "without -o the output is not a.out", loc)
            elif p != want:
                self.sfind(eng, st, ["C20"], "the output is not the file given with -o", loc)
        else:
            self.sfind(eng, st, ["C20", "C04"], "a file is opened in mode \"%s\"" % mode, loc)
        self.c.ob("C20", "opened files are the source (read) and the output (write)")

    def good_end(self, eng, st, loc):
        g = st.g
        if g.get("oom"):
            self.sfind(eng, st, ["C17", "C12"], "success is reported although an allocation failed", loc)
            return
        if g.get("iofail"):
            self.sfind(eng, st, ["C18", "C12"], "success is reported although input or output failed", loc)
            return
        for e in st.ev:
            if e[0] in ("err", "lexerr"):
                self.sfind(eng, st, ["C12"], "the run succeeds although %s" % (
                    "a line was rejected by the lexer" if e[0] == "lexerr" else
                    "error %s was reported" % self.errname(e[2])), loc)
                return
        if g["st"] != "idle":
            for s in self.close(eng, st):
                self.good_end(eng, s, loc)
            return
        if self.pending_ref(st) is not None:
            for s in self.close_ref(eng, st):
                self.good_end(eng, s, loc)
            return
        if g.get("rdstate") != "eof" and not g.get("ended"):
            self.sfind(eng, st, ["C21"], "the run succeeds without having read the whole source", loc)
            return
        if not self.eq(eng, st, g["done"], g["nrefs"]):
            self.sfind(eng, st, ["C06"], "the run succeeds without having completed every reference", loc)
        n = {"r": 0, "w": 0}
        for e in st.ev:
            if e[0] == "fopen":
                n["r" if e[2][0] == "r" else "w"] += 1
        if n != {"r": 1, "w": 1}:
            self.sfind(eng, st, ["C20"], "not exactly one source and one output are opened", loc)
        c = g.get("closed")
        if c is None and g.get("flushed") and not g.get("wunk"):
            c = "ok"
        if c != "ok" or g.get("wunk") or g.get("lost"):
            self.sfind(eng, st, ["C18"], "success is reported without checking that the output was %s" % (
                "written" if c == "ok" else "closed"), loc)
        if g.get("seekunk"):
            self.sfind(eng, st, ["C18"], "success is reported although no positioning of the output was checked", loc)
        outs = self.outs(st)
        if not outs or b"success" not in self.words(outs):
            self.sfind(eng, st, ["C12"], "a successful run does not report success", loc)
        items = [x for o in outs for x in o[1]]
        got = set()
        for i, x in enumerate(items):
            if x[0] not in ("d", "i", "u", "x", "X"):
                continue
            t = b""
            for y in items[i + 1:]:
                if y[0] == "lit":
                    t += y[1]
                    if b"\n" in t:
                        break
            t = t.split(b"\n")[0].lower()
            kb, ks = t.find(b"byte"), t.find(b"symbol")
            if kb < 0 and ks < 0:
                continue
            w, val = ("bytes", g["bytes"]) if ks < 0 or 0 <= kb < ks else ("symbols", g["nsyms"])
            got.add(w)
            if not self.eq(eng, st, x[2], val):
                self.sfind(eng, st, ["C22"], "the number of %s reported is %s, not %s" % (
                    w, eng.show(x[2]), eng.show(val)), loc)
        if got != {"bytes", "symbols"}:
            self.sfind(eng, st, ["C22"], "the numbers of bytes and symbols are not reported", loc)
        self.c.ob(["C12", "C18", "C17"], "successful end: no failed step before it")
        self.c.ob("C22", "totals printed equal the totals assembled", 2)
        self.c.ob("C06", "every stored reference is completed before success")
        self.c.ob("C21", "whole source read before success")

    def loop_exit(self, eng, st, fn, header, no):
        """a line was rejected: judge the report here, then forget the line"""
        g = st.g
        if not self.reads_line(fn, header) or g["st"] != "busy":
            return
        errs = [e for e in st.ev if e[0] == "err"]
        if errs or any(e[0] == "lexerr" for e in st.ev):
            self.failed(eng, st, errs, no)
        else:
            g["leftloop"] = no

    def failed(self, eng, st, errs, no):
        g = st.g
        self.fail_why(eng, st, "?")
        g["failed"] = True
        g.pop("leftloop", None)
        st.ev = tuple(e for e in st.ev[:g["ev0"]] if e[0] not in ("err", "lexerr")) + (
            ("err", None, errs[0][2] if errs else 0),)
        self.idle(eng, st)
        tmpl = eng.loops.tmpls[no]
        st.iv, st.cons = dict(tmpl.iv), dict(tmpl.cons)
        st.masks, st.neq = dict(tmpl.masks), dict(tmpl.neq)
        st.trail = st.trail[-30:]

    def fail_end(self, eng, st, loc):
        g = st.g
        if b"success" in self.words(self.outs(st)):
            self.sfind(eng, st, ["C12", "C18"], "a failing run reports success", loc)
        if g.get("failed"):
            self.c.ob("C12", "a rejected line ends the run with a failure status")
            return
        self.fail_why(eng, st, loc)

    def fail_why(self, eng, st, loc):
        g = st.g
        errs = [e for e in st.ev if e[0] == "err"]
        lexerr = [e for e in st.ev if e[0] == "lexerr"]
        if lexerr and not errs:
            self.c.ob("C12", "lexer rejection ends the run")
            self.c.ob("C13", "failing run reported")
            return
        why = "oom" if g.get("oom") else "iofail" if g.get("iofail") else None
        if not errs:
            p = {"oom": ["C17", "C13"], "iofail": ["C18", "C13"]}.get(why, ["C13", "C12"])
            self.sfind(eng, st, p, "the run fails without an error message%s" % (
                {"oom": " after a failed allocation", "iofail": " after an input or output failure"}.get(why, "")), loc)
            return
        e = errs[0]
        _, line, code, bad, fname, num, eloc = e
        if not isinstance(code, int) or not self.msgs.get(code):
            self.sfind(eng, st, ["C13"], "error code %s has no message" % (
                code if isinstance(code, int) else "?"), eloc)
            return
        name = self.errname(code)
        if fname != g.get("src"):
            self.sfind(eng, st, ["C13"], "the message does not carry the source file name", eloc)
        if lexerr:
            self.c.ob("C12", "lexer rejection ends the run")
            return
        if why == "oom":
            if name not in ("MEMORY_ALLOCATION_FAIL", "FILE_READ_FAIL"):
                self.sfind(eng, st, ["C17"], "a failed allocation is reported as %s" % name, eloc)
            self.c.ob(["C17", "C13"], "failed allocation reported")
            return
        if why == "iofail":
            if not name.startswith(("FILE_", "BINARY_FILE_")):
                self.sfind(eng, st, ["C18", "C13"], "an input or output failure is reported as %s" % name, eloc)
            self.c.ob(["C18", "C13"], "input or output failure reported")
            return
        i = self.pending_ref(st)
        if i is not None:
            self.fail_ref(eng, st, st.ev[i:], e, name)
            return
        if g["st"] == "busy":
            self.fail_line(eng, st, st.ev[g["ev0"]:], e, name)
            return
        self.sfind(eng, st, ["C12"], "the run fails with %s although nothing failed" % name, eloc)

    def fail_ref(self, eng, st, ev, e, name):
        _, line, code, bad, fname, num, eloc = e
        _, off, rid, sid, pc, rnum, at, mn, form, loc = ev[0]
        ok = True
        if not self.eq(eng, st, ev[0][1], scale(st.g["done"], 8)):
            self.sfind(eng, st, ["C06"], "the stored references are not completed one after the other", loc)
            return
        if line != Ptr(sid, 0):
            self.sfind(eng, st, ["C13"], "an unresolved reference is not reported with its own line", eloc)
            ok = False
        elif bad is not NULL and bad != Ptr(sid, at):
            self.sfind(eng, st, ["C14"], "the error position is not the operand of the reference", eloc)
            ok = False
        if not self.eq(eng, st, num, rnum):
            self.sfind(eng, st, ["C13"], "an unresolved reference is not reported with its own line number", eloc)
            ok = False
        sp = self.ref_spec(eng, st, ev)
        if sp is None:
            self.sfind(eng, st, ["C06"], "a reference is rejected without looking up its label", eloc)
            return
        for s, exp, why in sp:
            want = {"missing": "MISSING_LABEL_DEFINITION", "offset": "TOO_BIG_OFFSET"}.get(why)
            if want is None:
                self.sfind(eng, s, ["C06", "C05" if form == "rel" else "C12"],
                           "a resolvable reference is rejected with %s" % name, eloc)
            elif want != name:
                self.sfind(eng, s, ["C13"], "a rejected reference is reported as %s" % name, eloc)
            elif ok:
                self.c.ob(["C06", "C13"] if why == "missing" else ["C05", "C13"],
                          "reference rejected for a reason, reported with its line")

    LEGAL = {"ILLEGAL_SEQUENCE": "C07", "ILLEGAL_BASE": "C07", "TOO_MANY_TOKENS": "C07",
             "ILLEGAL_ADDRESSING_MODE": "C02", "TOO_BIG_OFFSET": "C05",
             "ILLEGAL_FORWARD_REFERENCE": "C06", "LABEL_REDEFINITION": "C10",
             "TOO_BIG_ADDRESS": "C24"}

    def fail_line(self, eng, st, ev, e, name):
        _, line, code, bad, fname, num, eloc = e
        g = st.g
        lx = [x for x in ev if x[0] == "lex"]
        if not lx:
            self.sfind(eng, st, ["C12", "C13"], "a line is rejected before it is analysed", eloc)
            return
        lx = lx[0]
        ok = True
        if line != g["line"]:
            self.sfind(eng, st, ["C13"], "the message does not show the offending line", eloc)
            ok = False
        if not self.eq(eng, st, num, g["lines"]):
            self.sfind(eng, st, ["C13"], "the message does not carry the number of the offending line", eloc)
            ok = False
        locs = lx[3]
        for s, form, d in self.spec_line(eng, st, ev, lx):
            what = "line [%s]" % self.text(eng, s, lx, form)
            if not d["why"]:
                p = self.LEGAL.get(name, "C12")
                props = [p]
                if name == "ILLEGAL_ADDRESSING_MODE":
                    props = ["C02", "C01"]
                self.sfind(eng, s, props, "legal %s is rejected with %s" % (what, name), eloc)
                continue
            codes = [c for w in d["why"] for c in self.REASON[w]]
            if name not in codes:
                self.sfind(eng, s, ["C13"], "%s is reported as %s instead of %s" % (what, name, codes[0]), eloc)
                continue
            if bad is not NULL and ok:
                at = []
                if "syntax" in d["why"]:
                    k = d["at"]
                    if k is not None and k < len(locs):
                        at = [locs[k]]
                elif name == "LABEL_REDEFINITION":
                    at = [d["lab_at"]]
                elif name == "ILLEGAL_ADDRESSING_MODE":
                    at = [x for x in (d["mn_at"], d["op_at"]) if x is not None]
                elif name == "TOO_BIG_ADDRESS":
                    at = [x for x in (d["mn_at"], d["lab_at"]) if x is not None]
                elif d["op_at"] is not None:
                    at = [d["op_at"]]
                if not (isinstance(bad, Ptr) and bad.o == g["line"].o and
                        any(self.eq(eng, s, bad.off, x) for x in at)):
                    self.sfind(eng, s, ["C14"], "%s: the error position is not the offending token" % what, eloc)
                    continue
                self.c.ob("C14", "error position is the offending token")
            self.c.ob(["C13"], "rejected line reported with its number and text")
            self.c.ob([self.LEGAL.get(name, "C12")], "rejected only when the rule is broken (%s)" % name)

    # -------------------------------------------------- driver
    def run(self):
        eng = self.engine()
        self.eng = eng
        self.install(eng)
        st = State()
        left = eng.var("source lines", 0, MAXSRC)
        st.g.update(pc=0, lines=0, bytes=0, nsyms=0, nrefs=0, left=left, fpos=0, done=0,
                    st="idle", ev0=0)
        argc = eng.var("argc", 1, 1 << 20)
        av = eng.new_obj(st, "root", 8 << 20, "undef", "argv")
        st.g["argc"], st.g["argv"] = argc, Ptr(av.id, 0)
        an, _ = eng.new_str(st, "root", "output name")
        st.g["anyname"] = Ptr(an.id, 0)
        res = eng.start(st, "main", [argc, Ptr(av.id, 0)])
        for s, v in res:
            self.end(eng, s, "return", v, self.endloc())
        for kind, v, s, loc in eng.terminals:
            self.end(eng, s, kind, v, loc)
        if not any(k[0] == "C12" for k in self.c.obl):
            pass
        self.c.absorb(eng, "main")
        return eng

    def endloc(self):
        f = self.m.funcs["main"]
        last = "main"
        for b in f.blocks:
            for i in b.ins:
                if i.op == "ret" and i.dbg:
                    last = self.m.loc(i.dbg)
        return last


def verdicts_of(h, eng, st, e):
    return spec.verdicts(h.sets(eng, st, e[1]))
