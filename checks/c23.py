"""C23: declarations and expressions have the types C17 gives them; compatible types are accepted, incompatible ones rejected."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck, cc
from lib.pbt import OK, fail, discard

SPECS = {
    "char": ["char"], "signed char": ["signed", "char"], "unsigned char": ["unsigned", "char"], "short": ["short"], "unsigned short": ["unsigned", "short"],
    "int": ["int"], "unsigned int": ["unsigned"], "long": ["long"], "unsigned long": ["unsigned", "long"], "long long": ["long", "long"],
    "unsigned long long": ["unsigned", "long", "long"], "_Bool": ["_Bool"], "float": ["float"], "double": ["double"], "long double": ["long", "double"],
}
ARITH = list(SPECS)
QUALS = ["const", "volatile", "restrict"]


# types are tuples: ('b', quals, name) base | ('p', quals, to) | ('a', el, n or None) | ('f', ret, params or None, va)
def B(name, *q):
    return ("b", frozenset(q), name)


def P(to, *q):
    return ("p", frozenset(q), to)


def A(el, n):
    return ("a", el, n)


def unq(t):
    return (t[0], frozenset(), t[2]) if t[0] in "bp" else t


def addq(t, q):
    """qualify a type; of an array the elements are qualified"""
    if t[0] in "bp":
        return (t[0], t[1] | q, t[2])
    if t[0] == "a":
        return ("a", addq(t[1], q), t[2])
    return t


def adjust(t):
    """type of a parameter declared with type t"""
    if t[0] == "a":
        return P(t[1])
    if t[0] == "f":
        return P(t)
    return unq(t)


def decay(t):
    if t[0] == "a":
        return P(t[1])
    if t[0] == "f":
        return P(t)
    return unq(t)


def complete(t):
    return t[0] == "p" or (t[0] == "b" and t[2] != "void" and not t[2].endswith("Inc")) or (t[0] == "a" and t[2] is not None)


class World:
    """struct/union/enum tags and typedef names of one case"""
    def __init__(self, s):
        self.s = s
        self.labels = set()
        self.typedefs = []
        self.tags = ["struct $KS", "struct $KT", "union $KU", "enum $KE", "struct $KInc"]
        self.lines = ["struct $KS { int a; const char b; int arr[3]; struct $KS *next; unsigned bf : 5; long lbf : 20; double m[2][2]; int (*fn)(int, char *); };",
                      "struct $KT { int a; }; union $KU { long l; const float f; struct $KT t; }; enum $KE { $KE0, $KE1 = 5 }; struct $KInc;"]

    # --- types
    def base(self, void=False):
        s = self.s
        n = s.weighted([(70, ARITH), (25, self.tags[:4]), (12, ["void"] if void else ARITH)])
        return B(s.choice(n))

    def quals(self, ptr=False):
        s = self.s
        q = set()
        if s.chance(25):
            q.add(s.choice(QUALS[:2]))
            if s.chance(20):
                q.add(s.choice(QUALS[:2]))
        return frozenset(q)

    def type(self, depth, obj=True, void=False, el=False):
        """obj: complete object type wanted"""
        s = self.s
        k = s.weighted([(40, "b"), (30, "p"), (18, "a")] + ([] if obj else [(25, "f")])) if depth else "b"
        if k == "b":
            return addq(self.base(void), self.quals())
        if k == "p":
            to = self.type(depth - 1, False, True)
            q = set(self.quals())
            if s.chance(6) and to[0] != "f" and not (to[0] == "b" and to[2] == "void" and False):
                q.add("restrict")
            return addq(P(to), frozenset(q))
        if k == "a":
            return A(self.type(depth - 1, True), s.range(1, 5) if obj or el or s.chance(80) else None)
        return self.func(depth)

    def func(self, depth):
        s = self.s
        ret = self.type(depth - 1)
        while ret[0] == "a":
            ret = ret[1]
        ret = unq(ret)
        if s.chance(15):
            ret = B("void")
        if s.chance(10):
            return ("f", ret, None, False)
        ps = tuple(adjust(self.type(max(depth - 1, 0), s.chance(70))) if True else None for _ in range(s.range(0, 3)))
        return ("f", ret, ps, bool(ps) and s.chance(20))

    def mutate(self, t, depth=0):
        """a type that differs in one place (usually incompatible; the references decide)"""
        s = self.s
        down = s.chance(65)
        if t[0] == "b":
            if s.chance(45):
                q = frozenset([s.choice(QUALS[:2])])
                return ("b", t[1] ^ q, t[2])
            # which integer type an enumerated type is compatible with is implementation-defined
            if t[2].startswith("enum"):
                return ("b", t[1], "struct $KT")
            o = s.choice([n for n in ARITH + self.tags[:3] if n != t[2]])
            return ("b", t[1], o)
        if t[0] == "p":
            if down:
                return ("p", t[1], self.mutate(t[2], depth + 1))
            if s.chance(60):
                return ("p", t[1] ^ frozenset([s.choice(QUALS[:2] + (["restrict"] if t[2][0] != "f" else []))]), t[2])
            return ("p", t[1], P(t[2]))
        if t[0] == "a":
            if down:
                return ("a", self.mutate(t[1], depth + 1), t[2])
            if depth and s.chance(40):
                return ("a", t[1], None)
            return ("a", t[1], (t[2] or 2) + s.range(1, 3))
        ret, ps, va = t[1:]
        k = s.draw(5)
        if k == 0:
            r = self.mutate(ret, depth + 1)
            return ("f", unq(r) if r[0] in "bp" else ret, ps, va)
        if ps is None:
            return ("f", ret, tuple(adjust(self.type(1)) for _ in range(s.range(1, 3))), s.chance(30))
        if k == 1 and ps:
            i = s.draw(len(ps))
            return ("f", ret, ps[:i] + (adjust(self.mutate(ps[i], depth + 1)),) + ps[i + 1:], va)
        if k == 2 and ps:
            return ("f", ret, ps, not va)
        if k == 3:
            return ("f", ret, None, False)
        return ("f", ret, ps + (adjust(self.type(1)),), va)

    def relax(self, t, top=True):
        """a compatible type that knows less: unknown array length or parameters"""
        s = self.s
        if t[0] == "p":
            return ("p", t[1], self.relax(t[2], False))
        if t[0] == "a":
            if s.chance(60):
                return ("a", t[1], None)
            el = self.relax(t[1], False)
            return ("a", t[1] if el[0] == "a" and el[2] is None else el, t[2])
        if t[0] == "f" and t[2] is not None and not t[3]:
            ok = all(not (p[0] == "b" and (p[2] in ("char", "signed char", "unsigned char", "short", "unsigned short", "_Bool", "float") or p[2].startswith("enum"))) for p in t[2])
            if ok and s.chance(70):
                return ("f", t[1], None, False)
            return ("f", t[1], tuple(adjust(self.relax(p, False)) for p in t[2]), False)
        return t

    # --- spelling
    def specs(self, t):
        s = self.s
        name = t[2]
        if name in SPECS:
            w = list(SPECS[name])
            if w and w[-1] not in ("char", "int", "double", "float", "_Bool") and s.chance(40):
                w.append("int")
            if name in ("int", "short", "long", "long long") and s.chance(20):
                w.append("signed")
                if name == "int" and s.chance(40) and "int" in w:
                    w.remove("int")
            self.labels.add("specifier-order") if len(w) > 1 else None
        else:
            w = [name]
        for q in sorted(t[1]):
            w.append(q)
            if s.chance(6):
                w.append(q)
        return " ".join(s.shuffle(w))

    def size(self, n):
        s = self.s
        if n is None:
            return ""
        return s.weighted([(60, str(n)), (10, "%d + %d" % (n - 1, 1)), (6, "(char) %d" % n), (6, "sizeof(char[%d])" % n), (6, "%d == 1 ? 9 : %d" % (n + 1, n)), (6, "%dul" % n), (6, "0x%x" % n), (5, "1 ? %d : -1" % n)])

    def spell(self, t, d="", td=True):
        """declaration text of type t for declarator d"""
        s = self.s
        if td and self.typedefs and s.chance(45):
            # a typedef name for this very type, or for its unqualified version
            c = []
            for n, tt in self.typedefs:
                if tt == t:
                    c.append((n, frozenset()))
                elif t[0] in "bpa":
                    q = self.topq(t)
                    if q and any(addq(tt, sub) == t for sub in [q]):
                        c.append((n, q))
            if c:
                n, q = s.choice(c)
                self.labels.add("typedef")
                if q and t[0] == "a":
                    self.labels.add("qualified-array-typedef")
                return (" ".join(s.shuffle([n] + sorted(q))) + " " + d).rstrip()
        if s.chance(8) and d:
            d = "(%s)" % d
        if t[0] == "b":
            return (self.specs(t) + " " + d).rstrip()
        if t[0] == "p":
            q = " ".join(s.shuffle(sorted(t[1])))
            d = "*" + (q + " " if q else "") + d
            if t[2][0] in "af":
                if td and self.typedefs and s.chance(30):
                    c = [n for n, tt in self.typedefs if tt == t[2]]
                    if c:
                        self.labels.add("typedef")
                        return s.choice(c) + " " + d
                d = "(%s)" % d
            return self.spell(t[2], d, td)
        if t[0] == "a":
            return self.spell(t[1], "%s[%s]" % (d, self.size(t[2])), td)
        ret, ps, va = t[1:]
        if ps is None:
            return self.spell(ret, d + "()", td)
        return self.spell(ret, "%s(%s)" % (d, self.params(ps, va, td)), td)

    def params(self, ps, va, td=True):
        s = self.s
        out = []
        for i, p in enumerate(ps):
            name = s.choice(["", "p%d" % i, "p%d" % i])
            q = frozenset([s.choice(QUALS[:2])]) if s.chance(15) else frozenset()
            if p[0] == "p" and p[2][0] != "f" and complete(p[2]) and s.chance(35) and not p[1]:
                self.labels.add("array-parameter")
                k = s.draw(5)
                inner = {0: "", 1: self.size(s.range(1, 4)), 2: "static %s" % self.size(s.range(1, 4)), 3: s.choice(["const", "restrict volatile"]), 4: ("static const 2" if s.chance(50) else "const static 2") if name else "3"}[k]
                if not name and k in (2, 3, 4):
                    inner = "3"   # qualifiers in abstract array declarators: kept to named parameters
                out.append(self.spell(p[2], "%s[%s]" % (name, inner), td))
            elif p[0] == "p" and p[2][0] == "f" and name and s.chance(35) and not p[1]:
                self.labels.add("function-parameter")
                out.append(self.spell(p[2], name, td))
            else:
                out.append(self.spell(addq(p, q), name, td))
            if q:
                self.labels.add("qualified-parameter")
        if va:
            out.append("...")
        return ", ".join(out) or "void"

    def topq(self, t):
        if t[0] in "bp":
            return t[1]
        if t[0] == "a":
            return self.topq(t[1])
        return frozenset()

    def subtypes(self, t):
        yield t
        if t[0] in "bp" and t[1]:
            yield unq(t)
        if t[0] == "a" and self.topq(t):
            yield self.unqa(t)
        if t[0] == "p":
            yield from self.subtypes(t[2])
        elif t[0] == "a":
            yield from self.subtypes(t[1])
        elif t[0] == "f":
            yield from self.subtypes(t[1])
            for p in t[2] or ():
                yield from self.subtypes(p)

    def unqa(self, t):
        return ("a", self.unqa(t[1]), t[2]) if t[0] == "a" else unq(t)

    def add_typedefs(self, t, n):
        s = self.s
        subs = list(self.subtypes(t))
        for _ in range(n):
            tt = s.choice(subs)
            name = "$Kt%d" % len(self.typedefs)
            self.lines.append("%s;" % self.storage("typedef", self.spell(tt, name)))
            self.typedefs.append((name, tt))

    def storage(self, sc, text):
        """storage-class specifier first, or (old style) among the specifiers"""
        w = text.split(" ", 1)
        if self.s.chance(20) and w[0] in ("int", "char", "unsigned", "long", "short", "double", "float", "const", "volatile", "signed", "_Bool") and len(w) > 1:
            self.labels.add("specifier-order")
            return "%s %s %s" % (w[0], sc, w[1])
        return "%s %s" % (sc, text)


# --- expressions: (text, type, lvalue, bitfield)
class Expr:
    def __init__(self, w, s, vars):
        self.w, self.s, self.vars = w, s, vars
        self.labels = set()

    def of(self, pred, depth):
        """an expression whose decayed type satisfies pred, by rejection; falls back to a variable"""
        for _ in range(6):
            e = self.expr(depth)
            if pred(decay(e[1])):
                return e
        c = [v for v in self.vars if pred(decay(v[1]))]
        return self.s.choice(c) if c else None

    def cast_to(self, t):
        return "(%s) %s" % (self.w.spell(t), self.s.choice(["0", "1"]))

    def arith(self, depth):
        return self.of(lambda t: t[0] == "b" and (t[2] in SPECS or t[2] == "enum $KE"), depth) or ("1", B("int"), False)

    def integer(self, depth):
        return self.of(lambda t: t[0] == "b" and (t[2] in SPECS and t[2] not in ("float", "double", "long double") or t[2] == "enum $KE"), depth) or ("1", B("int"), False)

    def pointer(self, depth, want=lambda t: True):
        return self.of(lambda t: t[0] == "p" and want(t[2]), depth)

    @staticmethod
    def is_arith(t):
        return t[0] == "b" and (t[2] in SPECS or t[2].startswith("enum"))

    @staticmethod
    def is_int(t):
        return Expr.is_arith(t) and t[2] not in ("float", "double", "long double")

    def usual(self, a, b):
        return B("int")   # only kept as "some arithmetic type": the references decide the real one

    def expr(self, depth):
        s = self.s
        if depth <= 0 or s.chance(12):
            if s.chance(25):
                return s.choice([("1", B("int"), False), ("1u", B("unsigned int"), False), ("2l", B("long"), False), ("0x80000000", B("unsigned int"), False), ("'c'", B("int"), False), ("1.0f", B("float"), False),
                                 ("2.5", B("double"), False), ("1.0L", B("long double"), False), ("3ull", B("unsigned long long"), False), ('"str"', A(B("char"), 4), True), ("$KE1", B("int"), False),
                                 ("2147483648", B("long"), False), ("0xffffffffffffffff", B("unsigned long"), False), ("L'x'", B("int"), False), ("u'x'", B("unsigned short"), False), ('u8"q"', A(B("char"), 2), True),
                                 ('L"w"', A(B("int"), 2), True), ('U"w"', A(B("unsigned int"), 2), True), ("$Ks.bf + 0", B("int"), False), ("+$Ks.bf", B("int"), False), ("$Ks.lbf + 0u", B("unsigned int"), False)])
            return s.choice(self.vars)
        k = s.draw(16)
        d = depth - 1
        if k == 0:   # unary arithmetic
            e = self.arith(d)
            op = s.choice(["+", "-", "~", "!"] if self.is_int(decay(e[1])) else ["+", "-", "!"])
            t = unq(e[1])
            if t[2] in ("_Bool", "char", "signed char", "unsigned char", "short", "unsigned short") or op == "!":
                t = B("int")
            return ("%s(%s)" % (op, e[0]), t, False)
        if k in (1, 2):   # binary arithmetic
            op = s.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "==", "&&", "||"])
            f = self.integer if op in ("%", "&", "|", "^", "<<", ">>") else self.arith
            a, b = f(d), f(d)
            self.labels.add("arithmetic-conversion")
            t = B("int") if op in ("<", "==", "&&", "||") or self.is_int(unq(a[1])) and self.is_int(unq(b[1])) else B("double")
            return ("((%s) %s (%s))" % (a[0], op, b[0]), t, False)
        if k == 3:   # pointer arithmetic, also subtraction
            p = self.pointer(d, complete)
            if not p:
                return self.expr(d)
            self.labels.add("pointer-arithmetic")
            i = self.integer(d)
            if s.chance(30):
                return ("((%s) - (%s))" % (p[0], p[0]), B("long"), False)
            return (s.choice(["((%s) + (%s))" % (p[0], i[0]), "((%s) + (%s))" % (i[0], p[0]), "((%s) - (%s))" % (p[0], i[0])]), decay(p[1]), False)
        if k == 4:   # address
            e = self.of(lambda t: True, d)
            if not e[2]:
                return e
            self.labels.add("address")
            return ("(&(%s))" % e[0], P(e[1]), False)
        if k in (5, 6):   # indirection, subscript
            p = self.pointer(d, lambda t: complete(t) or t[0] == "f")
            if not p:
                return self.expr(d)
            to = decay(p[1])[2]
            self.labels.add("indirection")
            if complete(to) and s.chance(50):
                i = self.integer(d)
                return (s.choice(["(%s)[%s]" % (p[0], i[0]), "(%s)[%s]" % (i[0], p[0])]), to, True)
            return ("(*(%s))" % p[0], to, True)
        if k in (7, 8):   # member
            arrow = s.chance(50)
            agg = lambda t: t[0] == "b" and t[2] in ("struct $KS", "struct $KT", "union $KU")
            e = self.pointer(d, agg) if arrow else self.of(agg, d)
            if not e:
                return self.expr(d)
            st = decay(e[1])[2] if arrow else e[1]
            ms = {"struct $KS": [("a", B("int")), ("b", B("char", "const")), ("arr", A(B("int"), 3)), ("next", P(B("struct $KS"))), ("m", A(A(B("double"), 2), 2)), ("fn", P(("f", B("int"), (B("int"), P(B("char"))), False)))],
                  "struct $KT": [("a", B("int"))], "union $KU": [("l", B("long")), ("f", B("float", "const")), ("t", B("struct $KT"))]}[st[2]]
            n, mt = s.choice(ms)
            lv = True if arrow else e[2]
            if mt[0] == "a" and not lv:
                return e
            self.labels.add("member")
            if st[1]:
                self.labels.add("qualified-member")
            return ("(%s)%s%s" % (e[0], "->" if arrow else ".", n), addq(mt, st[1]), lv)
        if k == 9:   # call
            e = self.of(lambda t: t[0] == "p" and t[2][0] == "f" and t[2][2] is not None and t[2][1] != B("void"), d)
            if not e:
                return self.expr(d)
            ft = decay(e[1])[2]
            args = ["*(%s) 1" % self.w.spell(P(p)) for p in ft[2]]
            self.labels.add("call")
            return ("(%s)(%s)" % (e[0], ", ".join(args)), unq(ft[1]), False)
        if k == 10:   # conditional
            self.labels.add("conditional")
            if s.chance(40):
                a, b = self.arith(d), self.arith(d)
                return ("(1 ? %s : %s)" % ("(%s)" % a[0], "(%s)" % b[0]), B("int") if self.is_int(unq(a[1])) and self.is_int(unq(b[1])) else B("double"), False)
            p = self.pointer(d)
            if not p:
                return self.expr(d)
            t = decay(p[1])
            self.labels.add("conditional-pointer")
            m = s.draw(4)
            if m == 0:
                o, rt = s.choice(["0", "(void *) 0", "0u", "(0 * 3)"]), t
            elif m == 1 and t[2][0] != "f":
                q = self.w.quals()
                o, rt = "(%s) 1" % self.w.spell(P(addq(B("void"), q))), P(addq(B("void"), q | self.w.topq(t[2])))
            elif t[2][0] in "bp":
                q = self.w.quals()
                tt = P(addq(unq(t[2]), q))
                o, rt = "(%s) 1" % self.w.spell(tt), P(addq(t[2], q))
            else:
                o, rt = "(%s) 1" % self.w.spell(P(t[2])), t
            a = "(%s)" % p[0]
            if s.chance(50):
                a, o = o, a
            return ("(%s ? %s : %s)" % (s.choice(["1", "$Ks.a"]), a, o), rt, False)
        if k == 11:   # assignment
            e = self.of(lambda t: True, d)
            if not e[2] or e[1][0] not in "bp" or e[1][2] == "void" or "const" in e[1][1] or e[1][2] in ("struct $KS", "union $KU"):
                return e
            self.labels.add("assignment")
            t = unq(e[1])
            if self.is_arith(t):
                if s.chance(40) and t[2] in SPECS:
                    return (s.choice(["(%s)++", "--(%s)", "(%s)--", "++(%s)"]) % e[0], t, False)
                a = self.arith(d)
                op = s.choice(["=", "+=", "*=", "-=", "/="] if t[2] in SPECS else ["="])
                return ("((%s) %s (%s))" % (e[0], op, a[0]), t, False)
            if t[0] == "p":
                if complete(t[2]) and s.chance(50):
                    return (s.choice(["(%s)++", "--(%s)", "(%s) += 1"]) % e[0], t, False) if True else None
                return ("((%s) = 0)" % e[0], t, False)
            return ("((%s) = *(%s) 1)" % (e[0], self.w.spell(P(t))), t, False)
        if k == 12:   # comma
            a, b = self.expr(d), self.expr(d)
            if b[1][0] == "f":
                return b
            self.labels.add("comma")
            return ("((%s), (%s))" % (a[0], b[0]), decay(b[1]), False)
        if k == 13:   # cast
            t = s.choice([v[1] for v in self.vars])
            t = decay(t)
            if t[0] == "p":
                e = self.of(lambda u: u[0] == "p" or self.is_int(u) and u[2] in ("long", "unsigned long"), d)
                if not e:
                    return self.expr(d)
            elif self.is_arith(t):
                e = self.arith(d)
            else:
                return self.expr(d)
            self.labels.add("cast")
            return ("((%s) (%s))" % (self.w.spell(addq(t, self.w.quals())), e[0]), t, False)
        if k == 14:   # compound literal
            t = self.w.type(2)
            if t[0] == "b" and t[2] == "void":
                return self.expr(d)
            self.labels.add("compound-literal")
            return ("((%s){ 0 })" % self.w.spell(t), t, True)
        a = self.expr(d)
        if a[1][0] == "f" or a[1][0] == "b" and not self.is_arith(a[1]):
            return a
        self.labels.add("generic")
        return ("_Generic(1, default: (%s), char: 2)" % a[0], a[1], a[2])


class C23(diffcheck.DiffCheck):
    id = "C23"
    rule = ("a case is (a) 2-4 declarations of generated types in varied spelling probed by _Generic on their addresses against equal and nearly equal types and by sizeof, "
            "(b) generated expressions whose type is identified by _Generic, or (c) a pair of declarations, assignment or comparison whose acceptance must match; non-trivial: (a) and (c) with a derived type, (b) with an operator")
    gcc_opts = ("-std=c17",)
    quick = (600, 8)
    thorough = (4000, 8)

    def gen(self, s):
        k = s.weighted([(35, "decl"), (40, "expr"), (25, "compat")])
        return getattr(self, "gen_" + k)(s)

    def gen_decl(self, s):
        w = World(s)
        body, n, labels = [], 0, {"declarations"}
        derived = False
        for i in range(s.range(1, 3)):
            t = w.type(s.range(0, 4), s.chance(70))
            if t[0] == "b" and t[2] == "void":
                continue
            derived |= t[0] != "b"
            if s.chance(60):
                w.add_typedefs(t, s.range(1, 3))
            name = "$Kv%d" % i
            labels.add({"b": "object", "p": "pointer", "a": "array", "f": "function"}[t[0]])
            form = s.weighted([(5, "extern"), (2, "member"), (2, "local"), (2, "param"), (2, "multi")])
            addr = "&" + name
            if form == "extern" or t[0] == "f":
                w.lines.append("%s;" % w.storage("extern", w.spell(t, name)))
            elif t[0] == "a" and t[2] is None:
                continue
            elif form == "member":
                w.lines.append("struct $Km%d { char first; %s; } %s;" % (i, w.spell(t, "mem"), name))
                addr = "&%s.mem" % name
            elif form == "local":
                body.append("    static %s;" % w.spell(t, name) if s.chance(50) else "    extern %s;" % w.spell(t, name))
            elif form == "param":
                # the parameter's type is seen inside the function
                pt = adjust(t) if t[0] in "af" else t
                eq = w.spell(P(pt))
                w.lines.append("static int $Kf%d(%s) { return _Generic(&%s, %s: 1, default: 0); }" % (i, w.spell(t, name), name, eq))
                w.lines.append("static int (*$Kg%d)(%s) = $Kf%d;" % (i, w.spell(unq(pt)), i))
                continue
            else:
                # several declarators after the same specifiers
                nt = t
                base = t
                while base[0] != "b":
                    base = base[2] if base[0] == "p" else base[1]
                if base[2] not in SPECS and s.chance(50):
                    pass
                d0 = self.declarator(w, t, name)
                d1 = self.declarator(w, ("p", frozenset(), base), name + "b")
                order = [d0, d1] if s.chance(50) else [d1, d0]
                labels.add("several-declarators")
                w.lines.append("extern %s %s;" % (w.specs(base), ", ".join(order)))
                body.append("    o_x(_Generic(&%sb, %s: 1, default: 0));" % (name, w.spell(P(P(base)))))
            if form == "extern" and s.chance(60):
                r = w.relax(t)
                if r != t:
                    labels.add("composite")
                w.lines.append("extern %s;" % w.spell(r, name))
                labels.add("redeclaration")
                if s.chance(30):
                    body.append("    { extern %s; }" % w.spell(w.relax(t), name))
            body.append("    o_x(_Generic(%s, %s: 1, default: 0));" % (addr, w.spell(P(t))))
            for _ in range(s.range(1, 4)):
                m = w.mutate(t)
                if m[0] == "a" and t[0] == "f" or m[0] == "f" and m[1][0] == "a":
                    continue
                body.append("    o_x(_Generic(%s, %s: 1, default: 0));" % (addr, w.spell(P(m))))
            if complete(t):
                body.append("    o_u((unsigned long) sizeof(%s)); o_u((unsigned long) sizeof %s);" % (w.spell(t), addr[1:]))
            n += 1
        code = "\n".join(w.lines) + "\nvoid $Kmain(void) {\n" + "\n".join(body) + "\n}\n"
        return pbt.Case(code, derived and n > 0, sorted(labels | w.labels), data={"code": code})

    def declarator(self, w, t, d):
        """declarator of a type without its specifiers"""
        if t[0] == "b":
            return d
        if t[0] == "p":
            q = " ".join(sorted(t[1]))
            d = "*" + (q + " " if q else "") + d
            return self.declarator(w, t[2], "(%s)" % d if t[2][0] in "af" else d)
        if t[0] == "a":
            return self.declarator(w, t[1], "%s[%s]" % (d, w.size(t[2])))
        return self.declarator(w, t[1], "%s(%s)" % (d, "" if t[2] is None else w.params(t[2], t[3])))

    def gen_expr(self, s):
        w = World(s)
        vars = [("$Ks", B("struct $KS"), True), ("$Kcs", B("struct $KS", "const"), True)]
        w.lines.append("extern struct $KS $Ks; extern const struct $KS $Kcs;")
        for i in range(s.range(2, 5)):
            t = w.type(s.range(0, 3))
            if t[0] == "b" and t[2] == "void":
                continue
            if s.chance(30):
                w.add_typedefs(t, 1)
            w.lines.append("extern %s;" % w.spell(t, "$Kv%d" % i))
            vars.append(("$Kv%d" % i, t, True))
        if s.chance(60):
            f = w.func(2)
            if f[2] is None:
                f = ("f", f[1], (), False)
            w.lines.append("%s;" % w.spell(f, "$Kf"))
            vars.append(("$Kf", f, True))
        g = Expr(w, s, vars)
        known = [B(n) for n in ARITH]
        body = []
        for _ in range(s.range(2, 6)):
            e = g.expr(s.range(1, 4))
            t = e[1]
            if t[0] == "b" and t[2] in ("void",) or len(e[0]) > 1500:
                continue
            cands = list(known)
            dt = decay(t)
            if dt not in cands:
                cands.append(dt)
            for _ in range(2):
                if dt[0] == "p":
                    m = w.mutate(dt)
                    m = unq(m) if m[0] in "bp" else m
                    if m[0] in "bp" and m not in cands and all(self.distinct(m, c) for c in cands):
                        cands.append(m)
            body.append("    o_x(_Generic((%s), %s, default: 99));" % (e[0], ", ".join("%s: %d" % (w.spell(c), i + 1) for i, c in enumerate(s.shuffle(cands)))))
            if dt[0] == "p" and s.chance(30) and complete(t) and t[0] == "a":
                body.append("    o_u((unsigned long) sizeof(%s));" % e[0])
        code = "\n".join(w.lines) + "\nvoid $Kmain(void) {\n" + "\n".join(body) + "\n}\n"
        return pbt.Case(code, bool(g.labels), sorted({"expressions"} | g.labels | w.labels), data={"code": code})

    def distinct(self, a, b):
        """surely incompatible: no incomplete arrays, unprototyped functions or enums involved unless the outermost kinds differ"""
        if a[0] != b[0]:
            return not (str(a) + str(b)).count("enum")
        def vague(t):
            return t[0] == "f" and t[2] is None or t[0] == "a" and t[2] is None or t[0] == "b" and t[2].startswith("enum") or (
                t[0] == "p" and vague(t[2])) or (t[0] == "a" and vague(t[1])) or (t[0] == "f" and (vague(t[1]) or any(vague(p) for p in t[2] or ())))
        return not vague(a) and not vague(b)

    def gen_compat(self, s):
        """one translation unit whose acceptance is in question"""
        w = World(s)
        t = w.type(s.range(1, 3), s.chance(65))
        m = w.mutate(t) if s.chance(70) else t
        if s.chance(50):
            t, m = m, t
        if s.chance(40):
            w.add_typedefs(t, 1)
        k = s.weighted([(4, "redecl"), (4, "assign"), (2, "compare"), (2, "call"), (1, "return"), (1, "init"), (1, "subtract")])
        if k == "redecl":
            w.lines.append("extern %s; extern %s;" % (w.spell(t, "$Kv"), w.spell(m, "$Kv")))
        else:
            if t[0] == "f" or t[0] == "a":
                t, m = P(t), P(m)
            t = unq(t)
            if m[0] in "bp":
                m = unq(m)
            else:
                m = t
            if t == B("void") or m == B("void"):
                t = m = P(t)
            w.lines.append("extern %s; extern %s;" % (w.spell(t, "$Kl"), w.spell(m, "$Kr")))
            w.lines.append({
                "assign": "void $Kuse(void) { $Kl = $Kr; }",
                "compare": "int $Kuse(void) { return $Kl %s $Kr; }" % s.choice(["==", "!="]),
                "subtract": "long $Kuse(void) { return $Kl - $Kr; }",
                "call": "void $Kcallee(%s); void $Kuse(void) { $Kcallee($Kr); }" % w.spell(t, "p"),
                "return": "%s { return $Kr; }" % w.spell(("f", t, (), False), "$Kuse"),
                "init": "void $Kuse(void) { %s = $Kr; }" % w.spell(t, "v")}[k])
        code = "\n".join(w.lines) + "\n"
        return pbt.Case(code, t[0] != "b", sorted({"acceptance", "acceptance-" + k} | w.labels), data={"code": code, "accept": True})

    def run(self, cases, wd):
        res = [None] * len(cases)
        d = [i for i, c in enumerate(cases) if not c.data.get("accept")]
        if d:
            for i, r in zip(d, super().run([cases[i] for i in d], wd)):
                res[i] = r
        for i, c in enumerate(cases):
            if c.data.get("accept"):
                res[i] = self.accept(c, wd)
        return res

    def accept(self, c, wd):
        src = c.data["code"].replace("$K", "k_")
        with open(os.path.join(wd, "a.c"), "w") as f:
            f.write(src)
        g = cc.run(["gcc", "-std=c17", "-pedantic-errors", "-fsyntax-only", "a.c"], cwd=wd)
        l = cc.run(["clang", "-std=c17", "-pedantic-errors", "-Wno-deprecated-non-prototype", "-Wno-strict-prototypes", "-fsyntax-only", "a.c"], cwd=wd)
        if (g.rc == 0) != (l.rc == 0):
            return discard("references disagree on acceptance")
        r = cc.run([self.tc.kefir, "-o", "a.s", "a.c"], cwd=wd, cpu=20)
        if r.rc not in (0, 1):
            return fail("compiler ended with status %d" % r.rc)
        if (r.rc == 0) != (g.rc == 0):
            return fail("kefir %s a declaration or conversion that C17 %s: %s" % (("accepts", "forbids") if r.rc == 0 else ("rejects", "allows") , diffcheck.short(r.err or g.err, 300))) if False else fail(
                "kefir %s what gcc and clang %s: %s" % ("accepts" if r.rc == 0 else "rejects", "reject" if r.rc == 0 else "accept", diffcheck.short(r.err or g.err, 300)))
        return OK


if __name__ == "__main__":
    sys.exit(pbt.main(C23()))
