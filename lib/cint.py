"""Integer types of LP64 C and a value-tracked, UB-free expression generator."""

class IT:
    __slots__ = ("name", "bits", "signed", "rank")
    def __init__(self, name, bits, signed, rank):
        self.name, self.bits, self.signed, self.rank = name, bits, signed, rank
    @property
    def min(self):
        return -(1 << (self.bits - 1)) if self.signed else 0
    @property
    def max(self):
        if self.name == "_Bool":
            return 1
        return (1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1
    def conv(self, v):
        if self.name == "_Bool":
            return 1 if v else 0
        v &= (1 << self.bits) - 1
        if self.signed and v >> (self.bits - 1):
            v -= 1 << self.bits
        return v
    def fits(self, v):
        return self.min <= v <= self.max
    def __repr__(self):
        return self.name

BOOL = IT("_Bool", 8, False, 0)
CHAR = IT("char", 8, True, 1)
SCHAR = IT("signed char", 8, True, 1)
UCHAR = IT("unsigned char", 8, False, 1)
SHORT = IT("short", 16, True, 2)
USHORT = IT("unsigned short", 16, False, 2)
INT = IT("int", 32, True, 3)
UINT = IT("unsigned int", 32, False, 3)
LONG = IT("long", 64, True, 4)
ULONG = IT("unsigned long", 64, False, 4)
LLONG = IT("long long", 64, True, 5)
ULLONG = IT("unsigned long long", 64, False, 5)
ALL = [INT, UINT, LONG, ULONG, CHAR, UCHAR, SHORT, USHORT, SCHAR, BOOL, LLONG, ULLONG]
SPELL = {
    "int": ["int", "signed int", "signed"], "unsigned int": ["unsigned int", "unsigned"],
    "long": ["long", "long int", "signed long"], "unsigned long": ["unsigned long", "unsigned long int", "long unsigned"],
    "long long": ["long long", "long long int"], "unsigned long long": ["unsigned long long", "long unsigned long"],
    "short": ["short", "short int"], "unsigned short": ["unsigned short", "short unsigned int"],
}

def spell(s, t):
    l = SPELL.get(t.name)
    return s.choice(l) if l else t.name

def promote(t):
    return INT if t.rank < 3 else t

def uac(a, b):
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank >= b.rank else b
    u, s = (a, b) if not a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.bits > u.bits:
        return s
    return {LONG: ULONG, LLONG: ULLONG, INT: UINT}[s]

def interesting(s, t):
    k = s.draw(10)
    if k < 3:
        v = s.draw(20)
    elif k < 5:
        v = s.choice([t.min, t.max, t.max - 1, t.min + 1, -1, t.max // 2 + 1, t.max // 2])
    elif k < 8:
        b = s.draw(t.bits)
        v = (1 << b) + s.range(-1, 1)
        if s.draw(2):
            v = -v
    else:
        v = 0
        for _ in range(4):
            v = (v << 16) | s.draw(65536)
    return t.conv(v)

def literal(s, v, t=None):
    """(text, type, value) of a literal with value v (non-negative) and, if possible, type t."""
    base = s.weighted([(6, 10), (3, 16), (2, 8)])
    if base == 10:
        d = str(v)
    elif base == 16:
        d = s.choice(["0x", "0X"]) + (("%x" if s.draw(2) else "%X") % v)
    else:
        d = "0" + ("%o" % v) if v else "0"
    suf = s.choice(["", "u", "l", "ul", "ll", "ull"]) if t is None else \
        {INT: "", UINT: "u", LONG: "l", ULONG: "ul", LLONG: "ll", ULLONG: "ull"}.get(t, "")
    rt = lit_type(v, base, suf)
    if rt is None:
        suf = "ull"
        rt = ULLONG
    txt = suf
    if suf and s.draw(2):
        txt = "".join({"u": "U", "l": "L"}[c] for c in suf) if s.draw(2) else suf
        if "u" in suf.lower() and len(suf) > 1 and s.draw(2):
            txt = txt[1:] + txt[0]
    return d + txt, rt, v

def lit_type(v, base, suf):
    cand = {"": [INT, LONG, LLONG] if base == 10 else [INT, UINT, LONG, ULONG, LLONG, ULLONG],
            "u": [UINT, ULONG, ULLONG],
            "l": [LONG, LLONG] if base == 10 else [LONG, ULONG, LLONG, ULLONG],
            "ul": [ULONG, ULLONG],
            "ll": [LLONG] if base == 10 else [LLONG, ULLONG], "ull": [ULLONG]}[suf]
    for t in cand:
        if v <= t.max:
            return t
    return None

# precedence levels (higher binds tighter)
P_COMMA, P_ASSIGN, P_COND, P_OR, P_AND, P_BOR, P_XOR, P_BAND, P_EQ, P_REL, P_SHIFT, P_ADD, P_MUL, P_CAST, P_UN, P_POST, P_PRIM = range(17)
BINOPS = {"+": P_ADD, "-": P_ADD, "*": P_MUL, "/": P_MUL, "%": P_MUL, "<<": P_SHIFT, ">>": P_SHIFT, "&": P_BAND, "|": P_BOR,
          "^": P_XOR, "<": P_REL, ">": P_REL, "<=": P_REL, ">=": P_REL, "==": P_EQ, "!=": P_EQ, "&&": P_AND, "||": P_OR}

class E:
    __slots__ = ("text", "type", "val", "prec", "reads", "writes", "nops", "convs")
    def __init__(self, text, type, val, prec, reads=frozenset(), writes=frozenset(), nops=0, convs=0):
        self.text, self.type, self.val, self.prec = text, type, val, prec
        self.reads, self.writes, self.nops, self.convs = reads, writes, nops, convs

def par(s, e, minprec):
    if e.prec < minprec or s.chance(10):
        return "(" + e.text + ")"
    return e.text

def arith(op, a, b, at, bt):
    """value and type of a op b per C17; None when undefined (strictly)."""
    if op in ("<<", ">>"):
        t = promote(at)
        x, n = a, b
        if n < 0 or n >= t.bits:
            return None
        if op == ">>":
            return x >> n, t
        if t.signed:
            if x < 0 or not t.fits(x << n):
                return None
            return x << n, t
        return t.conv(x << n), t
    t = uac(at, bt)
    x, y = t.conv(a), t.conv(b)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        return int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]), INT
    if op in ("/", "%"):
        if y == 0:
            return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        r = x - q * y
        if not t.fits(q):
            return None
        return (q if op == "/" else r), t
    v = {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[op]
    if t.signed:
        if not t.fits(v):
            return None
        return v, t
    return t.conv(v), t
