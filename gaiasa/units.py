"""Which unit of the analysis decides which property."""
from . import h_main, h_lex, h_tab, h_fref, h_err
from .ir import Broken


class Main:
    @staticmethod
    def run(c):
        h_main.MainHarness(c, h_err.codes(c)).run()


class Lex:
    """lex() on every text, by the class of its first character"""
    @staticmethod
    def run(c):
        for cls in h_lex.LexHarness.CLASSES:
            keep = (list(c.findings), dict(c.obl))
            res = []
            for eager in (False, True):
                c.findings, c.obl = list(keep[0]), dict(keep[1])
                c.partial.clear()
                try:
                    h_lex.LexHarness(c, cls, eager).run()
                    res.append((c.findings, c.obl))
                    if len(c.findings) == len(keep[0]):
                        break
                except Broken as e:
                    broken = e
            else:
                # neither way of reading the digits decides the class
                if not res:
                    raise broken
                c.findings, c.obl = res[0]


class LexLine:
    """lex_line() over the contract of lex()"""
    @staticmethod
    def run(c):
        h_lex.LineHarness(c).run()


class SymTab:
    """the symbol table: any contents, any capacity, any chain of entries"""
    @staticmethod
    def run(c):
        h_tab.run(c)


class Fref:
    """the list of forward references: any length, any text"""
    @staticmethod
    def run(c):
        h_fref.run(c)


class Err:
    """print_error() for every code, line and position"""
    @staticmethod
    def run(c):
        h_err.run(c)


UNITS = {"main": Main, "lex": Lex, "lexline": LexLine, "symtab": SymTab, "fref": Fref, "err": Err}
ALL = list(UNITS)

PROPS = {"C%02d" % i: ["main"] for i in range(1, 25)}
for _p in ("C03", "C07", "C21"):
    PROPS[_p] = ["main", "lex", "lexline"]
PROPS["C01"] = PROPS["C02"] = ["main", "lex"]
PROPS["C04"] = ["main", "fref"]
PROPS["C06"] = ["main", "fref"]
PROPS["C08"] = ["lex", "lexline", "fref"]
PROPS["C09"] = ["lex", "lexline", "main"]
PROPS["C10"] = ["main", "lexline", "symtab"]
PROPS["C11"] = ["symtab"]
PROPS["C13"] = ["main", "lex", "lexline", "fref", "err"]
PROPS["C14"] = ["main", "lex", "lexline", "fref", "err"]
for _p in ("C12", "C15", "C16", "C17", "C19", "C20", "C23"):
    PROPS[_p] = ALL

LEVEL = {p: ("proof", "sound abstract interpretation of every path of the program's IR") for p in PROPS}

TRUSTED = [
    "clang 18 -O0 lowering of the sources to LLVM IR (two's complement, LP64)",
    "the models of the C library functions in gaiasa/libc.py and of argp/getline in gaiasa/h_main.py",
    "the specification tables in gaiasa/spec.py",
    "the abstract interpreter itself (gaiasa/engine.py, loops.py, dom.py)"]

ASSUMPTIONS = ["sources are at most 2^28 - 1 bytes long (int counters)"]

TECHNIQUE = "abstract interpretation of the LLVM IR with verified function contracts (static, no solver)"

NOT_APPLICABLE = [
    dict(property="C25", reason="compares complete outputs of independent programs; nothing in "
         "gaia's source decides it (C01-C05 decide gaia's own side against the documented encoding)"),
    dict(property="C26", reason="a quantitative average-case claim over the hash values of arbitrary "
         "names; no sound static bound in reach"),
]
