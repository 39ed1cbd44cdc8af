"""The oracle: NMOS 6502 and gaia's documented language, written down
independently of gaia's sources."""

MODES = ["imp", "acc", "imm", "rel", "zp", "zpx", "zpy", "abs", "absx", "absy",
         "ind", "indx", "indy"]

# mode order of the rows below; '--' = the processor has no such mode
_T = """
     imp acc imm rel zp  zpx zpy abs absx absy ind indx indy
ADC  --  --  69  --  65  75  --  6D  7D   79   --  61   71
AND  --  --  29  --  25  35  --  2D  3D   39   --  21   31
ASL  --  0A  --  --  06  16  --  0E  1E   --   --  --   --
BCC  --  --  --  90  --  --  --  --  --   --   --  --   --
BCS  --  --  --  B0  --  --  --  --  --   --   --  --   --
BEQ  --  --  --  F0  --  --  --  --  --   --   --  --   --
BIT  --  --  --  --  24  --  --  2C  --   --   --  --   --
BMI  --  --  --  30  --  --  --  --  --   --   --  --   --
BNE  --  --  --  D0  --  --  --  --  --   --   --  --   --
BPL  --  --  --  10  --  --  --  --  --   --   --  --   --
BRK  00  --  --  --  --  --  --  --  --   --   --  --   --
BVC  --  --  --  50  --  --  --  --  --   --   --  --   --
BVS  --  --  --  70  --  --  --  --  --   --   --  --   --
CLC  18  --  --  --  --  --  --  --  --   --   --  --   --
CLD  D8  --  --  --  --  --  --  --  --   --   --  --   --
CLI  58  --  --  --  --  --  --  --  --   --   --  --   --
CLV  B8  --  --  --  --  --  --  --  --   --   --  --   --
CMP  --  --  C9  --  C5  D5  --  CD  DD   D9   --  C1   D1
CPX  --  --  E0  --  E4  --  --  EC  --   --   --  --   --
CPY  --  --  C0  --  C4  --  --  CC  --   --   --  --   --
DEC  --  --  --  --  C6  D6  --  CE  DE   --   --  --   --
DEX  CA  --  --  --  --  --  --  --  --   --   --  --   --
DEY  88  --  --  --  --  --  --  --  --   --   --  --   --
EOR  --  --  49  --  45  55  --  4D  5D   59   --  41   51
INC  --  --  --  --  E6  F6  --  EE  FE   --   --  --   --
INX  E8  --  --  --  --  --  --  --  --   --   --  --   --
INY  C8  --  --  --  --  --  --  --  --   --   --  --   --
JMP  --  --  --  --  --  --  --  4C  --   --   6C  --   --
JSR  --  --  --  --  --  --  --  20  --   --   --  --   --
LDA  --  --  A9  --  A5  B5  --  AD  BD   B9   --  A1   B1
LDX  --  --  A2  --  A6  --  B6  AE  --   BE   --  --   --
LDY  --  --  A0  --  A4  B4  --  AC  BC   --   --  --   --
LSR  --  4A  --  --  46  56  --  4E  5E   --   --  --   --
NOP  EA  --  --  --  --  --  --  --  --   --   --  --   --
ORA  --  --  09  --  05  15  --  0D  1D   19   --  01   11
PHA  48  --  --  --  --  --  --  --  --   --   --  --   --
PHP  08  --  --  --  --  --  --  --  --   --   --  --   --
PLA  68  --  --  --  --  --  --  --  --   --   --  --   --
PLP  28  --  --  --  --  --  --  --  --   --   --  --   --
ROL  --  2A  --  --  26  36  --  2E  3E   --   --  --   --
ROR  --  6A  --  --  66  76  --  6E  7E   --   --  --   --
RTI  40  --  --  --  --  --  --  --  --   --   --  --   --
RTS  60  --  --  --  --  --  --  --  --   --   --  --   --
SBC  --  --  E9  --  E5  F5  --  ED  FD   F9   --  E1   F1
SEC  38  --  --  --  --  --  --  --  --   --   --  --   --
SED  F8  --  --  --  --  --  --  --  --   --   --  --   --
SEI  78  --  --  --  --  --  --  --  --   --   --  --   --
STA  --  --  --  --  85  95  --  8D  9D   99   --  81   91
STX  --  --  --  --  86  --  96  8E  --   --   --  --   --
STY  --  --  --  --  84  94  --  8C  --   --   --  --   --
TAX  AA  --  --  --  --  --  --  --  --   --   --  --   --
TAY  A8  --  --  --  --  --  --  --  --   --   --  --   --
TSX  BA  --  --  --  --  --  --  --  --   --   --  --   --
TXA  8A  --  --  --  --  --  --  --  --   --   --  --   --
TXS  9A  --  --  --  --  --  --  --  --   --   --  --   --
TYA  98  --  --  --  --  --  --  --  --   --   --  --   --
"""


def _parse():
    op, rows = {}, _T.strip().splitlines()
    cols = rows[0].split()
    for r in rows[1:]:
        f = r.split()
        for c, v in zip(cols, f[1:]):
            if v != "--":
                op[(f[0], c)] = int(v, 16)
    return op


OPCODE = _parse()
MNEMONICS = sorted({m for m, _ in OPCODE})
assert len(MNEMONICS) == 56 and len(OPCODE) == 151 and len(set(OPCODE.values())) == 151

LENGTH = {"imp": 1, "acc": 1, "imm": 2, "rel": 2, "zp": 2, "zpx": 2, "zpy": 2,
          "abs": 3, "absx": 3, "absy": 3, "ind": 3, "indx": 2, "indy": 2}
BRANCHES = {m for m, k in OPCODE if k == "rel"}
JUMPS = {"JMP", "JSR"}
SHIFTS = {"ASL", "LSR", "ROL", "ROR"}

# ---- statement grammar over token classes
# L label, N literal, I instruction, # ( ) , = X Y * E(.equ) D(.define) O(.org)
# Q(.end) A(accumulator)
_OPERANDS = {
    "": "none", "A": "acc", "#v": "imm", "v": "plain", "v,X": "x", "v,Y": "y",
    "(v)": "ind", "(v,X)": "indx", "(v),Y": "indy",
}


def _forms():
    f = {}
    for o, name in _OPERANDS.items():
        for v in "LN":
            s = o.replace("v", v)
            f["I" + s] = ("instr", name)
            f["LI" + s] = ("linstr", name)
    f[""] = ("blank", None)
    f["L"] = ("label", None)
    f["L=N"] = ("const", None)
    f["LEN"] = ("const", None)
    f["DLN"] = ("define", None)
    f["ON"] = ("org", None)
    f["*=N"] = ("org", None)
    f["Q"] = ("end", None)
    return f


FORMS = _forms()
PREFIX = {s[:i] for s in FORMS for i in range(len(s) + 1)}
MAXLEN = max(map(len, FORMS))

TOKCLASS = {
    "TOKEN_LABEL": "L", "TOKEN_LITERAL": "N", "TOKEN_INSTRUCTION": "I",
    "TOKEN_IMMEDIATE": "#", "TOKEN_OPEN_PARENTHESIS": "(",
    "TOKEN_CLOSE_PARENTHESIS": ")", "TOKEN_COMMA": ",", "TOKEN_EQUAL_SIGN": "=",
    "TOKEN_X_REGISTER": "X", "TOKEN_Y_REGISTER": "Y", "TOKEN_BASE": "*",
    "TOKEN_EQU_DIRECTIVE": "E", "TOKEN_DEFINE_DIRECTIVE": "D",
    "TOKEN_ORG_DIRECTIVE": "O", "TOKEN_END_DIRECTIVE": "Q",
    "TOKEN_ACCUMULATOR": "A", "TOKEN_NULL": "$"}


def verdicts(sets):
    """sets: list of sets of token classes, one per token of the line
    -> {("ok", form string)} | {("bad", index of first impossible token)}"""
    out = set()
    cur = {""}
    for i, s in enumerate(sets):
        nxt = set()
        for p in cur:
            for c in s:
                if p + c in PREFIX:
                    nxt.add(p + c)
                else:
                    out.add(("bad", i))
        cur = nxt
    for p in cur:
        out.add(("ok", p) if p in FORMS else ("bad", len(sets)))
    return out


def addr_mode(mn, form, small):
    """addressing mode for an instruction with this operand form; small: the
    operand's value fits one byte (None: not known yet, a forward
    reference).  None: no such mode."""
    if form == "none":
        m = "acc" if mn in SHIFTS else "imp"
    elif form == "acc":
        m = "acc"
    elif form == "imm":
        m = "imm" if small else None
    elif form == "plain":
        if mn in BRANCHES:
            m = "rel"
        elif mn in JUMPS:
            m = "abs"
        else:
            m = "zp" if small else "abs"
    elif form in ("x", "y"):
        m = ("zp" if small else "abs") + form
        if mn in JUMPS:
            m = "abs" + form
    elif form == "ind":
        m = "ind"
    else:
        m = form if small else None
    return m if m is not None and (mn, m) in OPCODE else None
