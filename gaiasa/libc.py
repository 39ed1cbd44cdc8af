"""Models of the C library as the analysis sees it: what each function may
return, which faults it may have, and what it does to memory and files."""
from .dom import (Lin, FV, Ptr, PtrInt, Fn, Flt, NULL, UNDEF, INF, sub, add, scale)
from .ir import Broken, PTR

# ---------------------------------------------------------------- <ctype.h>
BITS = {"upper": 0x100, "lower": 0x200, "alpha": 0x400, "digit": 0x800,
        "xdigit": 0x1000, "space": 0x2000, "print": 0x4000, "graph": 0x8000,
        "blank": 0x1, "cntrl": 0x2, "punct": 0x4, "alnum": 0x8}


def isclass(cls, c):
    if not 0 <= c < 128:
        return False
    ch = chr(c)
    if cls == "upper":
        return "A" <= ch <= "Z"
    if cls == "lower":
        return "a" <= ch <= "z"
    if cls == "alpha":
        return ch.isalpha()
    if cls == "digit":
        return "0" <= ch <= "9"
    if cls == "xdigit":
        return ch in "0123456789abcdefABCDEF"
    if cls == "space":
        return ch in " \t\n\v\f\r"
    if cls == "print":
        return 32 <= c < 127
    if cls == "graph":
        return 33 <= c < 127
    if cls == "blank":
        return ch in " \t"
    if cls == "cntrl":
        return c < 32 or c == 127
    if cls == "punct":
        return 33 <= c < 127 and not ch.isalnum()
    if cls == "alnum":
        return ch.isalnum()
    raise KeyError(cls)


def upper(c):
    return c - 32 if 97 <= c <= 122 else c


def lower(c):
    return c + 32 if 65 <= c <= 90 else c


def ctype_entry(objname, x, unit):
    if x < -1:
        c = x + 256          # glibc mirrors the upper half
    else:
        c = x
    if objname == "__ctype_b":
        v = 0
        for k, b in BITS.items():
            if isclass(k, c):
                v |= b
        return v - 65536 if v >= 32768 and unit == 2 else v
    if objname == "__ctype_toupper":
        return upper(x)
    return lower(x)


# ---------------------------------------------------------------- helpers
def cstr(eng, st, p, ins):
    """bytes of a constant string, or None"""
    if not isinstance(p, Ptr) or not isinstance(p.off, int):
        return None
    o = st.objs.get(p.o)
    if o is None or o.cells:
        return None
    if o.bytes is None:
        # "" is a zero-initialised object
        return b"" if o.default == "zero" and o.kind == "global" and o.tag == "const" and p.off == 0 else None
    b = o.bytes[p.off:]
    return bytes(x & 255 for x in b[:b.index(0)]) if 0 in b else None


def need_int(eng, st, v, ins):
    if v is UNDEF:
        eng.find(st, "undef", ins, "uninitialised argument")
        return eng.var("undef", -(1 << 31), (1 << 31) - 1)
    if isinstance(v, FV):
        return eng.tolin(st, v)
    return v


def scan(eng, st, p, stop, ins, what):
    """[(state, k)]: k characters from p on that are not in the set of bytes
    'stop' (which the terminator always is), then one that is"""
    stop = stop | 1
    full = strings(eng, st, p, ins, what)
    out = []
    for s, n in full:
        o = s.objs[p.o]
        sym = o.sv is not None and not o.cells
        pend, i = [s], 0
        while pend:
            nxt = []
            for s1 in pend:
                for s2, v in eng.load(s1, Ptr(p.o, add(p.off, i)), ("i", 8), ins):
                    if isinstance(v, int):
                        (out.append((s2, i)) if stop >> (v & 255) & 1 else nxt.append(s2))
                    elif isinstance(v, FV):
                        m = sum(1 << k for k in range(eng.fvn[v.a]) if stop >> (v.t[k] & 255) & 1)
                        for s3, z in eng.split_mask(s2, v.a, m):
                            (out.append((s3, i)) if z else nxt.append(s3))
                    else:
                        raise Broken("%s of unknown bytes at %s" % (what, eng.where(ins)))
            pend, i = nxt, i + 1
            if sym and pend:
                break
        for s1 in pend:
            # at least one of them
            k = eng.var("run", 1, MAXRUN)
            if not eng.assume_ge(s1, sub(n, k)):
                continue
            s1.wsv(s1.objs[p.o].sv).segs.append((p.off, add(p.off, k), ~stop & ((1 << 256) - 1)))
            for s2, v in eng.load(s1, Ptr(p.o, add(p.off, k)), ("i", 8), ins):
                if isinstance(v, int):
                    if stop >> (v & 255) & 1:
                        out.append((s2, k))
                elif isinstance(v, FV):
                    m = sum(1 << j for j in range(eng.fvn[v.a]) if stop >> (v.t[j] & 255) & 1)
                    out += [(s3, k) for s3, z in eng.split_mask(s2, v.a, m) if z]
                else:
                    raise Broken("%s of unknown bytes at %s" % (what, eng.where(ins)))
    return [(s, k) for s, k in out if not isinstance(k, Lin) or eng.deduce(s)]


MAXRUN = 1 << 29


def strings(eng, st, p, ins, what):
    """[(state, length)] of the NUL-terminated string at p"""
    o = eng.ptr_ok(st, p, ins, what)
    if o is None:
        return []
    off = p.off
    if isinstance(off, FV):
        out = []
        for s, k in eng.split_vals(st, off):
            out += strings(eng, s, Ptr(p.o, k), ins, what)
        return out
    if o.meta == "text":
        eng.as_text(st, p.o)
        o = st.objs[p.o]
        if o.meta == "text":
            eng.find(st, "undef" if len(o.segs) > 1 else "oob", ins,
                     "%s reads past the end of an unterminated copy, %s" % (what, o.name))
            return []
    if o.sv is not None and not o.cells:
        sv = st.svs[o.sv]
        n = sub(sv.N, off)
        out = []
        for s, ok in eng.split_ge(st, n):
            if ok:
                if not eng.entails(s, off):
                    eng.find(s, "oob", ins, "%s: string starts before %s" % (what, o.name))
                    continue
                out.append((s, n))
            else:
                eng.find(s, "stale", ins, "%s reads past the terminator of %s" % (what, o.name))
        return out
    if o.hook is not None and hasattr(o.hook, "strlen"):
        return o.hook.strlen(eng, st, o, off, ins)
    out, pend = [], [st]
    i = 0
    while pend:
        if i > 5000:
            raise Broken("unbounded string at " + eng.where(ins))
        nxt = []
        for s in pend:
            for s2, v in eng.load(s, Ptr(p.o, add(off, i)), ("i", 8), ins):
                if v is UNDEF:
                    eng.find(s2, "undef", ins, "%s reads uninitialised memory of %s" % (what, o.name))
                    out.append((s2, i))
                    continue
                if isinstance(v, int):
                    (out.append((s2, i)) if v == 0 else nxt.append(s2))
                elif isinstance(v, FV):
                    m = sum(1 << k for k in range(eng.fvn[v.a]) if v.t[k] == 0)
                    for s3, z in eng.split_mask(s2, v.a, m):
                        (out.append((s3, i)) if z else nxt.append(s3))
                else:
                    raise Broken("string of unknown bytes at " + eng.where(ins))
        pend = nxt
        i += 1
    return out


def ubyte(v):
    if isinstance(v, int):
        return v & 255
    return FV(v.a, tuple(x & 255 for x in v.t))


def nonzero(eng, st, o, i):
    """is the byte at offset i certainly not the terminator? (None: unknown)"""
    c = o.cells.get(i)
    if c is None:
        if o.bytes is not None:
            return o.bytes[i] != 0 if i < len(o.bytes) else None
        if o.sv is not None:
            sv = st.svs[o.sv]
            if isinstance(sv.N, int):
                return i < sv.N if i <= sv.N else None
            return True if eng.entails(st, sub(sv.N, i + 1)) else None
        return False if o.default == "zero" else None
    if c[0] != 1:
        return None
    v = c[1]
    if isinstance(v, int):
        return v != 0
    if isinstance(v, FV):
        return True if 0 not in eng.fvals(st, v.a, v.t) else None
    return None


def same_length(eng, st, p, q):
    """False when two strings certainly have different lengths"""
    if not (isinstance(p.off, int) and isinstance(q.off, int)):
        return None
    a, b = st.objs[p.o], st.objs[q.o]
    for i in range(300):
        x, y = nonzero(eng, st, a, p.off + i), nonzero(eng, st, b, q.off + i)
        if x is None or y is None:
            return None
        if x != y:
            return False
        if not x:
            return True
    return None


def cmp_bytes(eng, st, p, q, n, ins, stopnul, fold=False):
    """strcmp/strncmp/memcmp -> [(state, int value)]"""
    if stopnul and n is None and same_length(eng, st, p, q) is False:
        a = eng.fvar("sign", 2)
        return [(st, FV(a, (-1, 1)))]
    out, pend = [], [st]
    i = 0
    while pend:
        if n is not None and i >= n:
            out += [(s, 0) for s in pend]
            break
        if i > 5000:
            raise Broken("unbounded comparison at " + eng.where(ins))
        nxt = []
        for s in pend:
            for s1, a in eng.load(s, Ptr(p.o, eng_add(eng, s, p.off, i)), ("i", 8), ins):
                for s2, b in eng.load(s1, Ptr(q.o, eng_add(eng, s1, q.off, i)), ("i", 8), ins):
                    if a is UNDEF or b is UNDEF:
                        eng.find(s2, "undef", ins, "comparison of uninitialised memory")
                        out.append((s2, eng.var("undef", -255, 255)))
                        continue
                    if isinstance(a, (Lin, PtrInt)) or isinstance(b, (Lin, PtrInt)):
                        raise Broken("comparison of unknown bytes at " + eng.where(ins))
                    x, y = ubyte(a), ubyte(b)
                    if fold:
                        x, y = (lower(v) if isinstance(v, int) else
                                FV(v.a, tuple(lower(k) for k in v.t)) for v in (x, y))
                    for s3, d in eng.arith_two(s2, x, y):
                        # d: difference as int or FV
                        if isinstance(d, int):
                            if d:
                                out.append((s3, d))
                                continue
                            same = [s3]
                        else:
                            m = sum(1 << k for k in range(eng.fvn[d.a]) if d.t[k] == 0)
                            same = []
                            for s4, z in eng.split_mask(s3, d.a, m):
                                if z:
                                    same.append(s4)
                                else:
                                    out.append((s4, eng.nrm(s4, d)))
                        for s4 in same:
                            if not stopnul:
                                nxt.append(s4)
                                continue
                            xx = eng.nrm(s4, x)
                            if isinstance(xx, int):
                                (out.append((s4, 0)) if xx == 0 else nxt.append(s4))
                            else:
                                m = sum(1 << k for k in range(eng.fvn[xx.a]) if xx.t[k] == 0)
                                for s5, z in eng.split_mask(s4, xx.a, m):
                                    (out.append((s5, 0)) if z else nxt.append(s5))
        pend = nxt
        i += 1
    return out


def eng_add(eng, st, off, i):
    if isinstance(off, FV):
        return add(eng.tolin(st, off), i)
    return add(off, i)


def copy(eng, st, dst, src, n, ins):
    """memcpy -> [states]"""
    if isinstance(n, FV):
        n = eng.tolin(st, n)
    n = eng.nrm(st, n) if isinstance(n, Lin) else n
    if n == 0:
        return [st]
    do = eng.ptr_ok(st, dst, ins, "write")
    so = eng.ptr_ok(st, src, ins, "read")
    if do is None or so is None:
        return []
    if n is UNDEF:
        eng.find(st, "undef", ins, "copy of an uninitialised number of bytes")
        return []
    so_off, do_off = src.off, dst.off
    if isinstance(so_off, FV):
        so_off = eng.tolin(st, so_off)
    if isinstance(do_off, FV):
        do_off = eng.tolin(st, do_off)
    if do.kind == "const" or do.tag == "const":
        eng.find(st, "mem", ins, "write to constant object " + do.name)
        return []
    for o, off, what in ((so, so_off, "read"), (do, do_off, "write")):
        eng.access_sites.add(ins.id if ins is not None else 0)
        eng.stats["accesses"] += 1
        if not (eng.entails(st, off) and eng.entails(st, sub(sub(o.size, n), off))
                and eng.entails(st, n)):
            eng.find(st, "oob", ins, "copy: %s of %s bytes outside %s (offset %s, size %s)" % (
                what, eng.show(n), o.name or o.kind, eng.show(off), eng.show(o.size)))
            if not (eng.assume_ge(st, off) and eng.assume_ge(st, sub(sub(o.size, n), off))
                    and eng.assume_ge(st, n)):
                return []
    if do.kind == "global":
        eng.gwrite(st, do, ins)
    n = eng.nrm(st, n)
    if not isinstance(n, int):
        return copy_sym(eng, st, do, do_off, so, so_off, n, ins)
    if not isinstance(do_off, int):
        d2 = eng.nrm(st, do_off)
        if not isinstance(d2, int):
            raise Broken("copy to a symbolic offset at " + eng.where(ins))
        do_off = d2
    if n > 1 << 16:
        raise Broken("huge copy")
    if not isinstance(so_off, int) or so.sv is not None or so.segs or so.hook:
        sts = [st]
        for i in range(n):
            nx = []
            for s in sts:
                for s2, v in eng.load(s, Ptr(so.id, add(so_off, i)), ("i", 8), ins):
                    nx += eng.store(s2, Ptr(do.id, do_off + i), v, 1, ins)
            sts = nx
        return sts
    cells = []
    covered = set()
    for k, (sz, v) in so.cells.items():
        if k >= so_off and k + sz <= so_off + n:
            cells.append((k - so_off, sz, v))
            covered.update(range(k - so_off, k - so_off + sz))
        elif k < so_off + n and k + sz > so_off:
            for i in range(max(k, so_off), min(k + sz, so_off + n)):
                for s2, v2 in eng.load(st, Ptr(so.id, i), ("i", 8), ins)[:1]:
                    cells.append((i - so_off, 1, v2))
                    covered.add(i - so_off)
    for i in range(n):
        if i not in covered:
            if so.bytes is not None:
                b = so.bytes[so_off + i]
                cells.append((i, 1, b - 256 if b > 127 else b))
            elif so.default == "zero":
                cells.append((i, 1, 0))
            else:
                cells.append((i, 1, UNDEF))
    sts = [st]
    for k, sz, v in sorted(cells, key=lambda c: c[0]):
        nx = []
        for s in sts:
            nx += eng.store(s, Ptr(do.id, do_off + k), v, sz, ins)
        sts = nx
    return sts


def copy_sym(eng, st, do, doff, so, soff, n, ins):
    if so.segs is not None and doff == 0 and soff == 0 and \
            (do.segs is not None and len(do.segs) == 1 or eng.as_array(st, do, 8)):
        end0, kind0 = st.objs[do.id].segs[0]
        segs = []
        for end, kind in so.segs:
            if eng.entails(st, sub(n, end)):
                segs.append((end, kind))
            elif eng.entails(st, sub(end, n)):
                segs.append((n, kind))
                break
            else:
                raise Broken("copy of unknown length at " + eng.where(ins))
        if eng.decide_eq(st, sub(end0, n)) is not True:
            if not eng.entails(st, sub(end0, n)):
                raise Broken("copy of unknown length at " + eng.where(ins))
            segs.append((end0, kind0))
        st.w(do.id).segs = segs
        return [st]
    if do.meta == "text" and so.sv is not None and not so.cells:
        sv = st.svs[so.sv]
        if eng.decide_ge(st, sub(sub(add(sv.N, 1), soff), n)) is not True:
            raise Broken("copy past the end of the text at " + eng.where(ins))
        top = sv.parent or (so.sv, 0)
        if sv.parent and eng.decide_ge(st, sub(sub(sv.N, soff), n)) is not True:
            raise Broken("copy of a part of a text at " + eng.where(ins))
        out = eng.seg_fill(st, do, doff, add(doff, n), ("cp", top[0], sub(add(soff, top[1]), doff)), ins)
        for s in out:
            eng.as_text(s, do.id)
        return out
    if doff != 0 or do.hook or do.segs:
        raise Broken("copy of unknown length into the middle of an object at " + eng.where(ins))
    if so.sv is None or so.cells:
        # a byte string held in cells: bounded, enumerate the length
        al = eng.split_vals(st, n, 260)
        if al is None:
            raise Broken("copy of unknown length at " + eng.where(ins))
        out = []
        for s, k in al:
            out += copy(eng, s, Ptr(do.id, doff), Ptr(so.id, soff), k, ins)
        return out
    sv = st.svs[so.sv]
    if so.cells:
        raise Broken("copy of modified text")
    whole = sub(sub(sv.N, soff), n)      # N - off - n
    w = st.w(do.id)
    d = eng.decide_eq(st, add(whole, 1))
    if d is True:                        # includes the terminator
        pass
    elif eng.decide_ge(st, whole) is not True:
        raise Broken("copy past the end of the text at " + eng.where(ins))
    elif do.default != "zero" or do.cells or do.sv is not None or not eng.entails(st, sub(sub(do.size, n), 1)):
        # no terminator (yet): the copy is not a string
        top = sv.parent or (so.sv, 0)
        w.segs = [(n, ("cp", top[0], add(soff, top[1])))]
        if eng.decide_eq(st, sub(do.size, n)) is not True:
            w.segs.append((do.size, 0 if do.default == "zero" and not do.cells and do.sv is None else UNDEF))
        w.cells, w.sv, w.hook, w.meta = {}, None, None, "text"
        eng.copies = True
        return [st]
    if d is True and soff == 0:
        w.sv = so.sv
    elif d is not True and soff == 0 and eng.decide_eq(st, whole) is True:
        w.sv = so.sv
    else:
        N = sub(n, 1) if d is True else n
        s2 = eng.new_sv(st, "part of " + str(sv.ident), N=N, ident=("part", sv.ident, soff, N))
        s2.parent = (so.sv, soff)
        w.sv = s2.id
    w.cells = {}
    return [st]


def fmt_items(eng, st, f, args, ins):
    """split a printf format -> list of items or None"""
    items, i, lit = [], 0, b""
    args = list(args)
    while i < len(f):
        c = f[i:i + 1]
        if c != b"%":
            lit += c
            i += 1
            continue
        j = i + 1
        while j < len(f) and chr(f[j]) in "-+ #0123456789.*":
            j += 1
        flags = f[i + 1:j].decode()
        star = None
        if "*" in flags:
            # width and precision from the arguments
            star = [None, None]
            w, _, pr = flags.partition(".")
            for n, part in ((0, w), (1, pr)):
                if "*" in part:
                    if not args:
                        eng.find(st, "mem", ins, "printf with too few arguments")
                        return None
                    star[n] = args.pop(0)
                    if star[n] is UNDEF:
                        eng.find(st, "undef", ins, "uninitialised field width")
                        return None
                elif part.strip("-+ #0"):
                    raise Broken("format at " + eng.where(ins))
            flags = w.replace("*", "")
        mod = ""
        while j < len(f) and chr(f[j]) in "hlzjt":
            mod += chr(f[j])
            j += 1
        if j >= len(f):
            raise Broken("format at " + eng.where(ins))
        conv = chr(f[j])
        i = j + 1
        if conv == "%":
            lit += b"%"
            continue
        if lit:
            items.append(("lit", lit))
            lit = b""
        if not args:
            eng.find(st, "mem", ins, "printf with too few arguments")
            return None
        a = args.pop(0)
        if a is UNDEF:
            eng.find(st, "undef", ins, "uninitialised value printed")
        if conv == "s":
            if not isinstance(a, Ptr):
                eng.find(st, "null", ins, "%s printed from a bad pointer")
                return None
            if eng.ptr_ok(st, a, ins, "read") is None:
                return None
            items.append(("s", flags, a) if star is None else ("S", flags, a, star[0], star[1]))
        elif star is not None:
            raise Broken("format at " + eng.where(ins))
        elif conv in "diuxXc":
            if isinstance(a, (Ptr, PtrInt)) or a is NULL or isinstance(a, Flt):
                eng.find(st, "mem", ins, "printf argument does not match its format")
                return None
            items.append((conv, flags, a))
        elif conv in "p":
            items.append((conv, flags, a))
        else:
            raise Broken("printf conversion %" + conv + " at " + eng.where(ins))
    if lit:
        items.append(("lit", lit))
    return items


def output(eng, st, dest, items, ins):
    if eng.h is not None and hasattr(eng.h, "output"):
        r = eng.h.output(eng, st, dest, items, ins)
        if r is not None:
            return r
    st.emit("out", dest, tuple(items), eng.where(ins))
    return [st]


def dest_of(eng, st, p, ins):
    if isinstance(p, Ptr) and p.o in st.objs:
        o = st.objs[p.o]
        if o.kind == "root" and o.name in ("stdout", "stderr"):
            return o.name
    return None


def put_items(eng, st, p, items, ins):
    """output to a FILE*"""
    d = dest_of(eng, st, p, ins)
    if d:
        return output(eng, st, d, items, ins)
    o = eng.fil(eng, st, p, ins, "output")
    if o is None:
        return []
    vals = []
    for it in items:
        if it[0] == "lit":
            vals += list(it[1])
        elif it[0] == "c":
            v = it[2]
            vals.append(v & 255 if isinstance(v, int) else FV(v.a, tuple(x & 255 for x in v.t))
                        if isinstance(v, FV) else eng.mod(st, v, 256) if isinstance(v, Lin) else v)
        else:
            raise Broken("formatted output to a file at " + eng.where(ins))
    out = []
    for s in eng.filewrites(eng, st, o, vals, ins):
        if used(eng, s, ins):
            raise Broken("result of formatted output to a file used at " + eng.where(ins))
        s.g["wunk"] = True
        out.append(s)
    return out


def outval(eng, st, ins, name, lo, hi):
    """what a function that prints returns"""
    return eng.var(name, lo, hi) if used(eng, st, ins) else 0


def used(eng, st, ins):
    """is the result of this call looked at"""
    if ins is None or ins.dst is None:
        return False
    k = ("used", id(ins))
    r = eng.pw_memo.get(k)
    if r is None:
        f = st.fr.fn
        r = any(uses(i, ins.dst) for b in f.blocks for i in b.ins)
        eng.pw_memo[k] = r
    return r


def uses(i, r):
    def chk(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "r" and v[1] == r:
                return True
            return any(chk(x) for x in v)
        if isinstance(v, list):
            return any(chk(x) for x in v)
        return False
    return chk(i.a)


# ---------------------------------------------------------------- install
def install(eng):
    E = eng.ext
    eng.pure_ext = {"toupper", "tolower", "__ctype_b_loc", "__ctype_toupper_loc",
                    "__ctype_tolower_loc", "abs", "sqrt", "floor", "labs",
                    "llvm.dbg.declare", "llvm.dbg.value", "llvm.dbg.label"} | \
                   {"is" + k for k in BITS}

    def reg(*names):
        def d(f):
            for n in names:
                E[n] = f
            return f
        return d

    # ---- fixed library objects
    libobj = {}

    def fixed(st, kind, name, size=8):
        oid = libobj.get(name)
        if oid is None:
            o = eng.new_obj(st, kind, size, name=name)
            libobj[name] = o.id
            return o
        if oid not in st.objs:
            o = eng.new_obj(st, kind, size, name=name)
            del st.objs[o.id]
            o.id = oid
            st.objs[oid] = o
            st.owned.add(oid)
        return st.objs[oid]

    eng.fixed = fixed

    for nm in ("__ctype_b", "__ctype_toupper", "__ctype_tolower"):
        def loc(e, st, vals, ins, nm=nm):
            t = fixed(st, "ctype", nm, 1 << 12)
            h = fixed(st, "root", nm + "_loc")
            h.cells[0] = (8, Ptr(t.id, 0))
            return [(st, Ptr(h.id, 0))]
        E[nm + "_loc"] = loc

    def pointwise(f, lo=-128, hi=255):
        def g(e, st, vals, ins):
            v = vals[0]
            if v is UNDEF:
                e.find(st, "undef", ins, "uninitialised argument")
                return [(st, e.var("undef", -1, 255))]
            if isinstance(v, Lin):
                al = e.split_vals(st, v, 600)
                if al is None:
                    raise Broken("character function on an unknown integer at " + e.where(ins))
                return [r for s, k in al for r in g(e, s, [k], ins)]
            if isinstance(v, int):
                if not lo <= v <= hi:
                    e.find(st, "oob", ins, "character function argument out of range")
                    return [(st, 0)]
                return [(st, f(v))]
            m = e.mask(st, v.a)
            for i in range(e.fvn[v.a]):
                if m >> i & 1 and not lo <= v.t[i] <= hi:
                    e.find(st, "oob", ins, "character function argument out of range")
                    break
            return [(st, e.nrm(st, FV(v.a, tuple(
                f(x) if m >> i & 1 and lo <= x <= hi else 0 for i, x in enumerate(v.t)))))]
        return g
    E["toupper"] = pointwise(upper)
    E["tolower"] = pointwise(lower)
    for k in BITS:
        E["is" + k] = pointwise(lambda c, k=k: int(isclass(k, c)))

    @reg("abs", "labs")
    def f_abs(e, st, vals, ins):
        v = need_int(e, st, vals[0], ins)
        return [(s, v if t else sub(0, v)) for s, t in e.split_ge(st, v)]

    @reg("sqrt")
    def f_sqrt(e, st, vals, ins):
        v = vals[0]
        if isinstance(v, Flt) and v.k[0] == "int":
            if isinstance(v.k[1], int):
                from math import isqrt
                r = isqrt(v.k[1]) if v.k[1] >= 0 else -1
                if r >= 0 and r * r == v.k[1]:
                    return [(st, Flt("int", r))]
            return [(st, Flt("sqrt", v.k[1]))]
        return [(st, Flt("top"))]

    @reg("floor", "trunc")
    def f_floor(e, st, vals, ins):
        v = vals[0]
        if isinstance(v, Flt):
            if v.k[0] == "int":
                return [(st, v)]
            if v.k[0] == "sqrt":
                return [(st, Flt("int", e.isqrt(st, v.k[1])))]
        return [(st, Flt("top"))]

    # ---- memory
    def alloc(e, st, size, default, ins, name):
        if isinstance(size, FV):
            size = e.tolin(st, size)
        if size is UNDEF:
            e.find(st, "undef", ins, "allocation of an uninitialised size")
            size = e.var("size", 0, 1 << 31)
        out = []
        s0 = st.copy()
        s0.g["oom"] = True
        out.append((s0, NULL))
        for s, ok in e.split_ge(st, size):
            if not ok:
                continue          # a huge request fails
            o = e.new_obj(s, "heap", size, default, name=name, site=ins)
            s.g["allocs"] = True
            out.append((s, Ptr(o.id, 0)))
        if e.h is not None and hasattr(e.h, "on_alloc"):
            return e.h.on_alloc(e, out, size, ins)
        return out

    def label(e, st, ins, what):
        return "%s block from %s" % (what, e.where(ins))

    @reg("malloc")
    def f_malloc(e, st, vals, ins):
        return alloc(e, st, vals[0], "undef", ins, label(e, st, ins, "malloc"))

    @reg("calloc")
    def f_calloc(e, st, vals, ins):
        a, b = (need_int(e, st, v, ins) for v in vals)
        if isinstance(a, int):
            n = scale(b, a)
        elif isinstance(b, int):
            n = scale(a, b)
        else:
            raise Broken("calloc of unknown size")
        out = []
        for s, ok in e.split_ge(st, n):
            if ok:
                out += alloc(e, s, n, "zero", ins, label(e, st, ins, "calloc"))
            else:
                s.g["oom"] = True
                out.append((s, NULL))
        return out

    def release(e, st, p, ins, what="free"):
        if p is NULL:
            return True
        if p is UNDEF:
            e.find(st, "undef", ins, "%s of an uninitialised pointer" % what)
            return False
        if isinstance(p, Fn):
            e.find(st, "mem", ins, "%s of a function" % what)
            return False
        o = st.objs.get(p.o)
        if o is None:
            e.find(st, "uaf", ins, "%s of a dangling pointer" % what)
            return False
        if o.freed:
            e.find(st, "uaf", ins, "%s of %s a second time" % (what, o.name))
            return False
        if o.kind != "heap" or e.decide_eq(st, p.off if not isinstance(p.off, FV) else 0) is not True:
            e.find(st, "mem", ins, "%s of a pointer that was not allocated (%s)" % (what, o.name))
            return False
        w = st.w(p.o)
        w.freed = True
        w.cells = {}
        w.segs = None
        w.sv = None
        if e.h is not None and hasattr(e.h, "on_free"):
            e.h.on_free(e, st, w, o, ins)
        return True

    eng.release = release

    @reg("free")
    def f_free(e, st, vals, ins):
        p = vals[0]
        if isinstance(p, Ptr):
            o = st.objs.get(p.o)
            if o is not None and o.hook is not None and hasattr(o.hook, "free"):
                return [(s, None) for s in o.hook.free(e, st, o, p.off, ins)]
        if not release(e, st, p, ins):
            return []
        return [(st, None)]

    @reg("realloc")
    def f_realloc(e, st, vals, ins):
        p, n = vals
        if p is NULL:
            return f_malloc(e, st, [n], ins)
        o = e.ptr_ok(st, p, ins, "realloc")
        if o is None:
            return []
        out = []
        for s, v in alloc(e, st, n, "undef", ins, label(e, st, ins, "realloc")):
            if v is NULL:
                out.append((s, v))
                continue
            src = s.objs[p.o]
            dst = s.objs[v.o]
            if src.segs is not None:
                segs = []
                for end, kind in src.segs:
                    segs.append((end, kind))
                if e.decide_eq(s, sub(n, src.size)) is not True:
                    if not e.entails(s, sub(n, src.size)):
                        raise Broken("realloc shrinks an array")
                    segs.append((n, UNDEF))
                dst.segs = segs
                dst.meta = src.meta
                dst.hook = src.hook
            elif src.hook is not None:
                r = src.hook.realloc(e, s, src, dst, ins)
            else:
                if not e.entails(s, sub(n, src.size)):
                    raise Broken("realloc shrinks an object")
                dst.cells = dict(src.cells)
                dst.sv, dst.bytes = src.sv, src.bytes
                if src.default == "zero" and isinstance(src.size, int):
                    cov = {k + i for k, (z, _) in src.cells.items() for i in range(z)}
                    for i in range(src.size):
                        if i not in cov:
                            dst.cells[i] = (1, 0)
            if not release(e, s, p, ins, "realloc"):
                continue
            out.append((s, v))
        return out

    @reg("memcpy", "memmove", "__memcpy_chk")
    def f_memcpy(e, st, vals, ins):
        return [(s, vals[0]) for s in copy(e, st, vals[0], vals[1], vals[2], ins)]

    @reg("memset")
    def f_memset(e, st, vals, ins):
        p, c, n = vals[:3]
        if isinstance(n, FV):
            n = e.tolin(st, n)
        if n == 0:
            return [(st, p)]
        o = e.ptr_ok(st, p, ins, "write")
        if o is None:
            return []
        off = p.off if not isinstance(p.off, FV) else e.tolin(st, p.off)
        if not (e.entails(st, off) and e.entails(st, sub(sub(o.size, n), off))):
            e.find(st, "oob", ins, "memset of %s bytes outside %s (size %s)" % (
                e.show(n), o.name, e.show(o.size)))
            return []
        if not isinstance(c, int):
            raise Broken("memset with a variable byte")
        b = c & 255
        if off == 0 and e.decide_eq(st, sub(o.size, n)) is True and o.hook is None:
            w = st.w(p.o)
            if o.segs is not None:
                if b:
                    raise Broken("memset of an array")
                w.segs = [(o.size, NULL)]
                return [(st, p)]
            if b == 0:
                w.cells, w.sv, w.bytes, w.default = {}, None, None, "zero"
                return [(st, p)]
        if o.segs is not None and b == 0:
            return [(s, p) for s in e.seg_fill(st, o, off, add(off, n), NULL, ins)]
        if not isinstance(n, int) or not isinstance(off, int):
            raise Broken("memset of unknown extent at " + e.where(ins))
        sts = [st]
        for i in range(n):
            sts = [s2 for s in sts for s2 in e.store(s, Ptr(p.o, off + i), b - 256 if b > 127 else b, 1, ins)]
        return [(s, p) for s in sts]

    @reg("strlen")
    def f_strlen(e, st, vals, ins):
        return strings(e, st, vals[0], ins, "strlen")

    @reg("strnlen")
    def f_strnlen(e, st, vals, ins):
        raise Broken("strnlen")

    @reg("strcmp")
    def f_strcmp(e, st, vals, ins):
        for p in vals:
            if e.ptr_ok(st, p, ins, "read") is None:
                return []
        a, b = vals
        oa, ob = st.objs[a.o], st.objs[b.o]
        if a == b:
            return [(st, 0)]
        if oa.sv is not None and oa.sv == ob.sv and a.off == 0 and b.off == 0 and not oa.cells and not ob.cells:
            return [(st, 0)]
        return cmp_bytes(e, st, a, b, None, ins, True)

    @reg("strcasecmp")
    def f_strcasecmp(e, st, vals, ins):
        return cmp_bytes(e, st, vals[0], vals[1], None, ins, True, True)

    @reg("strncmp")
    def f_strncmp(e, st, vals, ins):
        if not isinstance(vals[2], int):
            raise Broken("strncmp of unknown length")
        for p in vals[:2]:
            if e.ptr_ok(st, p, ins, "read") is None:
                return []
        return cmp_bytes(e, st, vals[0], vals[1], vals[2], ins, True)

    @reg("memcmp")
    def f_memcmp(e, st, vals, ins):
        if not isinstance(vals[2], int):
            raise Broken("memcmp of unknown length")
        for p in vals[:2]:
            if e.ptr_ok(st, p, ins, "read") is None:
                return []
        return cmp_bytes(e, st, vals[0], vals[1], vals[2], ins, False)

    @reg("strcpy", "stpcpy")
    def f_strcpy(e, st, vals, ins):
        out = []
        for s, n in strings(e, st, vals[1], ins, "strcpy"):
            out += [(s2, vals[0]) for s2 in copy(e, s, vals[0], vals[1], add(n, 1), ins)]
        return out

    def bounded(e, st, p, n, ins, what):
        """[(state, length, fits)] of the string at p against the number n:
        length is the smaller of the two"""
        m = n if isinstance(n, int) else need_lin(e, st, n, ins)
        out = []
        for s, k in strings(e, st, p, ins, what):
            for s2, t in e.split_ge(s, sub(m, k)):
                out.append((s2, k if t else m, t))
        return out

    def need_lin(e, st, n, ins):
        if n is UNDEF:
            raise Broken("uninitialised number at " + e.where(ins))
        n = e.tolin(st, n) if isinstance(n, FV) else e.nrm(st, n)
        if not isinstance(n, (int, Lin)):
            raise Broken("number of characters at " + e.where(ins))
        return n

    @reg("snprintf", "__snprintf_chk")
    def f_snprintf(e, st, vals, ins):
        a = list(vals)
        f = cstr(e, st, a[2], ins)
        p = a[-1]
        if f == b"%s" and len(a) == 4:
            lim = None
        elif f == b"%.*s" and len(a) == 5:
            lim = a[3]
        else:
            raise Broken("snprintf with another format at " + e.where(ins))
        size = need_lin(e, st, a[1], ins)
        if lim is None:
            src = strings(e, st, p, ins, "snprintf")
        else:
            src = [(s, k) for s, k, _ in bounded(e, st, p, lim, ins, "snprintf")]
        out = []
        for s, k in src:
            for s2, fits in e.split_ge(s, sub(sub(size, k), 1)):
                m = k if fits else sub(size, 1)
                if not fits:
                    # no room at all: nothing is written
                    parts = e.split_ge(s2, m)
                    out += [(s4, k) for s4, ok in parts if not ok]
                    if not any(ok for _, ok in parts):
                        continue
                    s2, = [s4 for s4, ok in parts if ok]
                for s3 in copy(e, s2, a[0], p, m, ins):
                    for s4 in e.store(s3, Ptr(a[0].o, add_off(a[0].off, m)), 0, 1, ins):
                        out.append((s4, k))
        return out

    @reg("strncpy")
    def f_strncpy(e, st, vals, ins):
        out = []
        if not isinstance(vals[2], int) or st.objs[vals[1].o].sv is not None and \
                st.objs[vals[0].o].meta == "text" or st.objs[vals[1].o].sv is not None and \
                not isinstance(st.svs[st.objs[vals[1].o].sv].N, int) and not st.objs[vals[1].o].cells:
            lim = need_lin(e, st, vals[2], ins)
            for s, k, _ in bounded(e, st, vals[1], lim, ins, "strncpy"):
                for s1, full in e.split_eq(s, sub(lim, k)):
                    for s2 in copy(e, s1, vals[0], vals[1], k if full else add(k, 1), ins):
                        o = e.ptr_ok(s2, vals[0], ins, "write")
                        if not full and not e.entails(s2, sub(o.size, add(vals[0].off, lim))):
                            e.find(s2, "oob", ins, "strncpy fills %s bytes of %s (size %s)" % (
                                e.show(lim), o.name, e.show(o.size)))
                            continue
                        out.append((s2, vals[0]))
            return out
        for s, n in strings(e, st, vals[1], ins, "strncpy"):
            al = e.split_vals(s, n, 300)
            if al is None:
                raise Broken("strncpy of unknown text")
            for s2, k in al:
                k2 = min(k, vals[2])
                for s3 in copy(e, s2, vals[0], vals[1], k2, ins):
                    sts = [s3]
                    for i in range(k2, vals[2]):
                        sts = [y for x in sts for y in
                               e.store(x, Ptr(vals[0].o, add(vals[0].off, i)), 0, 1, ins)]
                    out += [(x, vals[0]) for x in sts]
        return out

    @reg("strdup", "strndup")
    def f_strdup(e, st, vals, ins):
        out = []
        for s, n in strings(e, st, vals[0], ins, "strdup"):
            k = n
            if len(vals) > 1:
                m = need_int(e, s, vals[1], ins)
                pairs = [(s2, n if not t else m) for s2, t in e.split_ge(s, sub(n, m))]
            else:
                pairs = [(s, n)]
            for s2, k in pairs:
                for s3, p in alloc(e, s2, add(k, 1), "zero", ins, label(e, s2, ins, "strdup")):
                    if p is NULL:
                        out.append((s3, p))
                    else:
                        out += [(s4, p) for s4 in copy(e, s3, p, vals[0], k, ins)]
        return out

    @reg("strchr")
    def f_strchr(e, st, vals, ins):
        p, c = vals
        if not isinstance(c, int):
            # membership test of a byte in a constant string
            b = cstr(e, st, p, ins)
            if b is None or not isinstance(c, FV):
                raise Broken("strchr at " + e.where(ins))
            b = b + b"\0"
            m = sum(1 << i for i in range(e.fvn[c.a]) if (c.t[i] & 255) in b)
            out = []
            for s, t in e.split_mask(st, c.a, m):
                if not t:
                    out.append((s, NULL))
                else:
                    tab = tuple(b.index(x & 255) if (x & 255) in b else 0 for x in c.t)
                    out.append((s, Ptr(p.o, add_off(p.off, e.nrm(s, FV(c.a, tab))))))
            return out
        b = cstr(e, st, p, ins) if st.objs[p.o].sv is None else None
        if b is None:
            out = []
            for s, k in scan(e, st, p, 1 << (c & 255), ins, "strchr"):
                q = Ptr(p.o, add(p.off, k))
                if c & 255 == 0:
                    out.append((s, q))
                    continue
                for s2, v in e.load(s, q, ("i", 8), ins):
                    if isinstance(v, FV):
                        m = sum(1 << i for i in range(e.fvn[v.a]) if v.t[i] == 0)
                        out += [(s3, NULL if z else q) for s3, z in e.split_mask(s2, v.a, m)]
                    else:
                        out.append((s2, NULL if v == 0 else q))
            return out
        k = (b + b"\0").find(bytes([c & 255]))
        return [(st, NULL if k < 0 else Ptr(p.o, add_off(p.off, k)))]

    def byteset(e, st, p, ins, what):
        b = cstr(e, st, p, ins)
        if b is None:
            raise Broken("%s at %s" % (what, e.where(ins)))
        return sum(1 << x for x in set(b))

    @reg("strspn")
    def f_strspn(e, st, vals, ins):
        m = byteset(e, st, vals[1], ins, "strspn")
        return scan(e, st, vals[0], ~m & ((1 << 256) - 1), ins, "strspn")

    @reg("strcspn")
    def f_strcspn(e, st, vals, ins):
        return scan(e, st, vals[0], byteset(e, st, vals[1], ins, "strcspn"), ins, "strcspn")

    @reg("strpbrk")
    def f_strpbrk(e, st, vals, ins):
        out = []
        p = vals[0]
        for s, k in scan(e, st, p, byteset(e, st, vals[1], ins, "strpbrk"), ins, "strpbrk"):
            q = Ptr(p.o, add(p.off, k))
            for s2, v in e.load(s, q, ("i", 8), ins):
                if isinstance(v, FV):
                    m = sum(1 << i for i in range(e.fvn[v.a]) if v.t[i] == 0)
                    out += [(s3, NULL if z else q) for s3, z in e.split_mask(s2, v.a, m)]
                else:
                    out.append((s2, NULL if v == 0 else q))
        return out

    def add_off(off, k):
        if isinstance(k, FV):
            return FV(k.a, tuple(x + off for x in k.t))
        return add(off, k)

    # ---- output to the user
    @reg("printf")
    def f_printf(e, st, vals, ins):
        f = cstr(e, st, vals[0], ins)
        if f is None:
            e.find(st, "mem", ins, "printf with a format that is not a constant string")
            return [(st, outval(e, st, ins, "printf", -1, 1 << 30))]
        it = fmt_items(e, st, f, vals[1:], ins)
        if it is None:
            return []
        return [(s, outval(e, s, ins, "printf", -1, 1 << 30)) for s in output(e, st, "stdout", it, ins)]

    @reg("fprintf")
    def f_fprintf(e, st, vals, ins):
        f = cstr(e, st, vals[1], ins)
        if f is None:
            e.find(st, "mem", ins, "fprintf with a format that is not a constant string")
            return [(st, outval(e, st, ins, "printf", -1, 1 << 30))]
        it = fmt_items(e, st, f, vals[2:], ins)
        if it is None:
            return []
        return [(s, outval(e, s, ins, "printf", -1, 1 << 30)) for s in put_items(e, st, vals[0], it, ins)]

    @reg("puts")
    def f_puts(e, st, vals, ins):
        b = cstr(e, st, vals[0], ins)
        it = [("lit", b + b"\n")] if b is not None else [("s", "", vals[0]), ("lit", b"\n")]
        if b is None and e.ptr_ok(st, vals[0], ins, "read") is None:
            return []
        return [(s, outval(e, s, ins, "puts", -1, 1 << 30)) for s in output(e, st, "stdout", it, ins)]

    @reg("fputs")
    def f_fputs(e, st, vals, ins):
        b = cstr(e, st, vals[0], ins)
        it = [("lit", b)] if b is not None else [("s", "", vals[0])]
        if b is None and e.ptr_ok(st, vals[0], ins, "read") is None:
            return []
        return [(s, outval(e, s, ins, "fputs", -1, 1 << 30)) for s in put_items(e, st, vals[1], it, ins)]

    @reg("putchar")
    def f_putchar(e, st, vals, ins):
        v = vals[0]
        it = [("lit", bytes([v & 255]))] if isinstance(v, int) else [("c", "", v)]
        return [(s, outval(e, s, ins, "putchar", -1, 255)) for s in output(e, st, "stdout", it, ins)]

    # ---- files
    @reg("fopen")
    def f_fopen(e, st, vals, ins):
        mode = cstr(e, st, vals[1], ins)
        if mode is None:
            raise Broken("fopen with an unknown mode at " + e.where(ins))
        p = vals[0]
        if p is NULL or p is UNDEF:
            e.find(st, "null", ins, "fopen of a null file name")
            return []
        s0 = st.copy()
        s0.g["iofail"] = True
        o = e.new_obj(st, "file", 8, name="file opened in mode \"%s\" at %s" % (
            mode.decode("latin1"), e.where(ins)), site=ins)
        kind = "r" if mode[:1] == b"r" and b"+" not in mode else "w"
        o.tag = kind
        for s in (s0, st):
            s.emit("fopen", p, mode.decode("latin1"), e.where(ins))
        if kind == "w":
            st.g["opened"] = True
        return [(s0, NULL), (st, Ptr(o.id, 0))]

    def fil(e, st, p, ins, what):
        if isinstance(p, Ptr):
            o = st.objs.get(p.o)
            if o is not None and o.freed:
                e.find(st, "uaf", ins, "%s on a closed file" % what)
                return None
            if o is not None and o.kind == "file":
                return o
            if o is not None and o.kind == "root":
                return o
        if p is NULL:
            e.find(st, "null", ins, "%s on a null file" % what)
            return None
        if p is UNDEF:
            e.find(st, "undef", ins, "%s on an uninitialised file" % what)
            return None
        e.find(st, "mem", ins, "%s on something that is not an open file" % what)
        return None

    eng.fil = fil

    @reg("fclose")
    def f_fclose(e, st, vals, ins):
        o = fil(e, st, vals[0], ins, "fclose")
        if o is None:
            return []
        w = st.w(o.id)
        w.freed = True
        if o.tag != "w":
            return [(st, 0)] if not used(e, st, ins) else [(st, 0), fork(st, -1)]
        if not used(e, st, ins):
            st.g["closed"] = "unchecked"
            return [(st, 0)]
        s2 = st.copy()
        s2.g["iofail"] = True
        s2.g["closed"] = "failed"
        st.g["closed"] = "ok"
        return [(st, 0), (s2, -1)]

    def fork(st, v):
        return (st.copy(), v)

    @reg("fflush")
    def f_fflush(e, st, vals, ins):
        if vals[0] is NULL or dest_of(e, st, vals[0], ins):
            return [(st, 0)]
        o = fil(e, st, vals[0], ins, "fflush")
        if o is None:
            return []
        if not used(e, st, ins):
            st.g["wunk"] = True
            return [(st, 0)]
        s2 = st.copy()
        s2.g["iofail"] = True
        st.g["flushed"] = True
        return [(st, 0), (s2, -1)]

    def writes(e, st, o, vals, ins):
        """bytes go to the file at its position"""
        for v in vals:
            if v is UNDEF:
                e.find(st, "undef", ins, "uninitialised byte written to the output")
        if o.tag != "w":
            e.find(st, "mem", ins, "write to a file opened for reading", fn=None)
        st.g.pop("flushed", None)
        if e.h is not None and hasattr(e.h, "on_write"):
            return e.h.on_write(e, st, o, vals, ins)
        for v in vals:
            st.emit("w", v, e.where(ins))
        return [st]

    eng.filewrites = writes

    def wr_result(e, sts, ins, okv, failv):
        out = []
        for s in sts:
            if not used(e, s, ins):
                s.g["wunk"] = True
                out.append((s, okv))
            else:
                s2 = s.copy()
                s2.g["iofail"] = True
                out += [(s, okv), (s2, failv)]
        return out

    @reg("fputc", "putc", "_IO_putc")
    def f_fputc(e, st, vals, ins):
        d = dest_of(e, st, vals[1], ins)
        if d:
            v = vals[0]
            it = [("lit", bytes([v & 255]))] if isinstance(v, int) else [("c", "", v)]
            return [(s, outval(e, s, ins, "fputc", -1, 255)) for s in output(e, st, d, it, ins)]
        o = fil(e, st, vals[1], ins, "fputc")
        if o is None:
            return []
        v = vals[0]
        if isinstance(v, int):
            v &= 255
        elif isinstance(v, FV):
            v = FV(v.a, tuple(x & 255 for x in v.t))
        elif isinstance(v, Lin):
            v = e.mod(st, v, 256)
        return wr_result(e, writes(e, st, o, [v], ins), ins, 0, -1)

    @reg("fwrite")
    def f_fwrite(e, st, vals, ins):
        p, sz, n, f = vals
        d = dest_of(e, st, f, ins)
        if d:
            k = scale(n, sz) if isinstance(sz, int) else scale(sz, n) if isinstance(n, int) else None
            if k is None:
                raise Broken("fwrite of unknown size at " + e.where(ins))
            o = e.ptr_ok(st, p, ins, "read")
            if o is None:
                return []
            if not (e.entails(st, p.off) and e.entails(st, k) and
                    e.entails(st, sub(sub(o.size, p.off), k))):
                e.find(st, "oob", ins, "%s bytes written from %s (offset %s, size %s)" % (
                    e.show(k), o.name, e.show(p.off), e.show(o.size)))
                return []
            return [(s, n) for s in output(e, st, d, [("B", "", p, None, k)], ins)]
        o = fil(e, st, f, ins, "fwrite")
        if o is None:
            return []
        al = e.split_vals(st, n, 64) if not isinstance(n, int) else [(st, n)]
        if al is None or not isinstance(sz, int):
            raise Broken("fwrite of unknown size at " + e.where(ins))
        out = []
        for s, k in al:
            sts = [(s, [])]
            for i in range(k * sz):
                sts = [(s3, l + [ubyte(v) if isinstance(v, (int, FV)) else
                                 (e.mod(s3, v, 256) if isinstance(v, Lin) else v)])
                       for s2, l in sts
                       for s3, v in e.load(s2, Ptr(p.o, eng_add(e, s2, p.off, i)), ("i", 8), ins)]
            for s2, l in sts:
                out += wr_result(e, writes(e, s2, s2.objs[o.id], l, ins), ins, k, 0)
        return out

    @reg("fseek", "fseeko")
    def f_fseek(e, st, vals, ins):
        o = fil(e, st, vals[0], ins, "fseek")
        if o is None:
            return []
        off, wh = vals[1], vals[2]
        if off is UNDEF:
            e.find(st, "undef", ins, "seek to an uninitialised offset")
            return []
        if isinstance(off, FV):
            off = e.tolin(st, off)
        sts = [st]
        if e.h is not None and hasattr(e.h, "on_seek"):
            sts = e.h.on_seek(e, st, o, off, wh, ins)
        else:
            st.emit("seek", off, wh, e.where(ins))
        out = []
        for s in sts:
            if used(e, s, ins):
                s2 = s.copy()
                s2.g["iofail"] = True
                s.g["seekok"] = True
                out += [(s, 0), (s2, -1)]
            else:
                s.g["wunk"] = True
                if not s.g.get("seekok"):
                    s.g["seekunk"] = True
                out.append((s, 0))
        return out

    @reg("ftell", "ftello")
    def f_ftell(e, st, vals, ins):
        o = fil(e, st, vals[0], ins, "ftell")
        if o is None:
            return []
        if o.tag != "w" or "fpos" not in st.g:
            raise Broken("ftell at " + e.where(ins))
        return [(st, st.g["fpos"]), (st.copy(), -1)]

    @reg("rewind")
    def f_rewind(e, st, vals, ins):
        # clears the error indicator
        if st.g.pop("wunk", None):
            st.g["lost"] = True
        return [(s, None) for s, _ in f_fseek(e, st, [vals[0], 0, 0], ins)]

    @reg("clearerr")
    def f_clearerr(e, st, vals, ins):
        if st.g.pop("wunk", None):
            st.g["lost"] = True
        return [(st, None)]

    @reg("ferror")
    def f_ferror(e, st, vals, ins):
        o = fil(e, st, vals[0], ins, "ferror")
        if o is None:
            return []
        if o.tag == "r":
            r = st.g.get("rdstate")
            if r == "eof":
                return [(st, 0)]
            if r == "err":
                return [(st, 1)]
            if r == "mem":
                return [(st, 0)]
            return [(st, 0)]
        if not used(e, st, ins):
            return [(st, 0)]
        if not st.g.get("wunk"):
            return [(st, 0)]
        s2 = st.copy()
        s2.g["iofail"] = True
        st.g.pop("wunk", None)
        return [(st, 0), (s2, 1)]

    @reg("feof")
    def f_feof(e, st, vals, ins):
        o = fil(e, st, vals[0], ins, "feof")
        if o is None:
            return []
        r = st.g.get("rdstate")
        return [(st, 1 if r == "eof" else 0)] if r is not None else \
            [(st, 0), (st.copy(), 1)] if False else [(st, 0)]

    # ---- process
    @reg("exit", "_exit", "_Exit")
    def f_exit(e, st, vals, ins):
        e.terminals.append(("exit", vals[0], st, e.where(ins)))
        return []

    @reg("abort", "__assert_fail")
    def f_abort(e, st, vals, ins):
        e.terminals.append(("abort", 134, st, e.where(ins)))
        e.find(st, "abort", ins, "the program aborts here")
        return []

    def deny(kind, why):
        def f(e, st, vals, ins):
            e.find(st, kind, ins, why)
            return []
        return f
    for n in ("remove", "unlink", "rename", "system", "popen", "creat", "open", "openat",
              "mkstemp", "tmpfile", "freopen", "truncate", "ftruncate", "mkdir", "rmdir",
              "execl", "execv", "execvp", "fork", "kill", "chmod", "symlink", "link"):
        E[n] = deny("effect", "%s() touches files or processes other than the output" % n)
    for n in ("rand", "srand", "random", "time", "clock", "getenv", "setlocale",
              "localtime", "gettimeofday", "getpid", "clock_gettime", "getcwd", "secure_getenv"):
        E[n] = deny("ambient", "%s() makes the result depend on the environment" % n)
    for n in ("longjmp", "_longjmp", "setjmp", "_setjmp", "signal"):
        E[n] = deny("control", "%s() is outside the analysed control flow" % n)


def ext_global(eng, st, name):
    if name in ("stdout", "stderr", "stdin"):
        o = eng.fixed(st, "root", name)
        return Ptr(o.id, 0)
    if name in ("program_invocation_name", "program_invocation_short_name"):
        return None
    return None
