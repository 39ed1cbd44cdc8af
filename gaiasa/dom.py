"""Numeric domain: linear expressions over atoms, finite tables, constraint
entailment by variable elimination (the usual polyhedral-domain operation)."""
from math import gcd

INF = float("inf")


class Lin:
    """c + sum(coef * atom), a mathematical integer"""
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c, self.t = c, t
        self.h = None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.c, self.t))
        return self.h

    def __repr__(self):
        return "Lin(%s)" % " + ".join([str(self.c)] + ["%s*a%d" % (k, a) for a, k in self.t])


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


def simp(l):
    """Lin without terms -> int"""
    if isinstance(l, Lin) and not l.t:
        return l.c
    return l


def add(a, b, k=1):
    """a + k*b"""
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    a, b = L(a), L(b)
    if not b.t:
        return simp(Lin(a.c + k * b.c, a.t))
    d = dict(a.t)
    for x, c in b.t:
        v = d.get(x, 0) + k * c
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return simp(Lin(a.c + k * b.c, tuple(sorted(d.items()))))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return simp(Lin(a.c * k, tuple((x, c * k) for x, c in a.t)))


def neg(a):
    return scale(a, -1)


def atoms_of(x):
    return [a for a, _ in x.t] if isinstance(x, Lin) else []


def subst(l, m):
    """replace atoms by expressions"""
    if isinstance(l, int):
        return l
    r = l.c
    for a, k in l.t:
        r = add(r, m[a] if a in m else Lin(0, ((a, 1),)), k)
    return r


class FV:
    """value that is a table over a finite-domain atom"""
    __slots__ = ("a", "t", "h")

    def __init__(self, a, t):
        self.a, self.t = a, t
        self.h = None

    def __eq__(self, o):
        return isinstance(o, FV) and self.a == o.a and self.t == o.t

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.a, self.t))
        return self.h

    def __repr__(self):
        return "FV(f%d)" % self.a


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.o == x.o and self.off == x.off

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return "Ptr(%s,%r)" % (self.o, self.off)


class PtrInt:
    """a pointer converted to an integer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, x):
        return isinstance(x, PtrInt) and self.p == x.p

    def __hash__(self):
        return hash(("pi", self.p))


class Fn:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, x):
        return isinstance(x, Fn) and self.n == x.n

    def __hash__(self):
        return hash(("fn", self.n))

    def __repr__(self):
        return "Fn(%s)" % self.n


class Special:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n

    def __reduce__(self):
        return self.n


NULL = Special("NULL")
UNDEF = Special("UNDEF")


class Flt:
    """double value: ('int', Lin) | ('sqrt', Lin) | ('top',)"""
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, x):
        return isinstance(x, Flt) and self.k == x.k

    def __hash__(self):
        return hash(self.k)


# ------------------------------------------------------------ elimination
def _norm(d, c):
    """integer row sum(d)+c >= 0, divided by gcd with floor"""
    if not d:
        return None if c >= 0 else False
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g
    return d, c


def infeasible(rows):
    """True if the integer rows (dict, const) >= 0 have no solution (decided
    over the rationals with gcd tightening; False = unknown)."""
    cur = {}
    for d, c in rows:
        r = _norm(dict(d), c)
        if r is None:
            continue
        if r is False:
            return True
        k = tuple(sorted(r[0].items()))
        if k not in cur or r[1] < cur[k]:
            cur[k] = r[1]
    while True:
        # contradiction between opposite rows
        for k, c in cur.items():
            o = tuple((a, -v) for a, v in k)
            if o in cur and cur[o] + c < 0:
                return True
        occ = {}
        for k in cur:
            for a, v in k:
                p = occ.setdefault(a, [0, 0])
                p[v > 0] += 1
        if not occ:
            return False
        # drop variables bounded on one side only
        best, bc = None, None
        for a, (n, p) in occ.items():
            cost = n * p - n - p
            if bc is None or cost < bc:
                best, bc = a, cost
        pos, neg_, rest = [], [], {}
        for k, c in cur.items():
            v = dict(k).get(best, 0)
            if v > 0:
                pos.append((dict(k), c, v))
            elif v < 0:
                neg_.append((dict(k), c, -v))
            else:
                rest[k] = c
        if len(pos) * len(neg_) > 600:
            return False
        for d1, c1, v1 in pos:
            for d2, c2, v2 in neg_:
                g = gcd(v1, v2)
                m1, m2 = v2 // g, v1 // g
                d = {}
                for a, v in d1.items():
                    if a != best:
                        d[a] = v * m1
                for a, v in d2.items():
                    if a != best:
                        w = d.get(a, 0) + v * m2
                        if w:
                            d[a] = w
                        else:
                            d.pop(a, None)
                r = _norm(d, c1 * m1 + c2 * m2)
                if r is None:
                    continue
                if r is False:
                    return True
                k = tuple(sorted(r[0].items()))
                if k not in rest or r[1] < rest[k]:
                    rest[k] = r[1]
        if len(rest) > 400:
            return False
        cur = rest
