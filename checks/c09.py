"""C09: objects with static storage duration start with the value C17 prescribes, differential against gcc (clang as second opinion)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck
from lib.ctg import *
from lib.initgen import InitGen

FNP = Ptr(Fn(Sc("int"), [Sc("int")]))


class IT(TypeGen):
    def __init__(self, s, **kw):
        super().__init__(s, bitfields=True, ptrs=True, enums=True, **kw)
        self.pointees = set()
        self.max_run = 64     # known finding bit-field-run

    def typ(self, d):
        s = self.s
        if s.chance(6):
            return FNP
        if s.chance(6):
            return Ptr(Sc("char"))
        if s.chance(8):
            return Arr(Sc(s.choice(["char", "char", "unsigned char", "signed char", "int", "unsigned short", "unsigned int"])), s.range(1, 6))
        t = super().typ(d)
        if isinstance(t, Ptr) and isinstance(t.to, Sc):
            t = Ptr(Sc(t.to.name if not isinstance(t.to, En) and t.to.name != "char" else "short"))
        return t


def mangle(n):
    return n.replace(" ", "_")


def report(t, e, bits=None):
    """statement reporting the value of a leaf; pointers as offsets, strings as text, functions by calling them"""
    if isinstance(t, Ptr):
        if isinstance(t.to, Fn):
            return "o_i(%s ? %s(3) : -1);" % (e, e)
        if t.to.name == "char":
            return "o_s(%s ? %s : \"(null)\");" % (e, e)
        return "o_i(%s ? (char *) %s - (char *) $Kobj_%s : -99);" % (e, e, mangle(t.to.name))
    return out_stmt(t, e)


class Static(InitGen):
    """constant initialisers"""
    def __init__(self, s, g, **kw):
        super().__init__(s, **kw)
        self.g = g
        self.scalar_expr = self.const
        self.agg_override = False

    def const(self, t, bits=None):
        s = self.s
        if isinstance(t, Ptr):
            return self.address(t)
        if t.isf:
            k = s.draw(8)
            v = value(s, t)
            if k < 4:
                return v
            if k == 4:
                return str(s.range(0, 1000)) if s.draw(2) else "-%d" % s.range(1, 100)
            if k == 5:
                return s.choice(["0.1", "1.0f", "3.25L", "-7.5f", "1e-3", "0x1.8p3"])
            if k == 6:
                return s.choice(["1.0 / 4", "(float) 0.1", "(2.5 + 1)", "-(1.5)", "'a'", "1 ? 2.5 : 3.5", "3 * 1.25", "(double) 7 / 2"])
            return "(%s)" % v
        if t.name == "_Bool":
            return s.choice(["0", "1", "2", "256", "-1", "'a'", "!5", "3 > 2"])
        if isinstance(t, En):
            return s.choice(["0", "1", "2", "3", "(enum %s) 2" % t.name.split()[1]])
        v = value(s, t, bits)
        k = s.draw(9)
        w = bits or BITS[t.name]
        if k < 5:
            return v
        if k == 5:
            return s.choice(["'x'", "'\\n'", "'\\377'", "sizeof(int)", "sizeof(long) * 2", "_Alignof(double)"]) if w > 5 else "1"
        if k == 6:
            return "(%s) %d" % (s.choice(INTS[1:11]), s.range(0, 40000)) if w >= 17 else "(int) 1"
        if k == 7:
            return s.choice(["1 + 2", "(5 - 3) * 2", "~0", "1 << 3", "7 & 5", "1 ? 4 : 5", "-1", "!0", "3 == 3", "100 / 7", "-7 % 3"]) if w >= 8 else "-1"
        return "(int) %s" % s.choice(["2.75", "3.0f", "-1.5", "100.9l"]) if w >= 8 else "0"

    def address(self, t):
        s = self.s
        if s.chance(12):
            return s.choice(["0", "(void *) 0", "(%s) 0" % t.decl("")])
        if isinstance(t.to, Fn):
            self.g.pointees.add("fn")
            return s.choice(["$Kf0", "$Kf1", "&$Kf2", "$Kf2"])
        n = t.to.name
        if n == "char":
            if self.nostr:
                return s.choice(['"hello" + 1', '(char *) "cast"', '"a\\0b" + 2'])
            return s.choice(['"abc"', '"hello" + 1', '""', '"x\\ty\\\\"', '"con" "cat"', '(char *) "cast"', '"a\\0b" + 2', '(char *) ("zz" + 1)', '"\\303\\251"'])
        self.g.pointees.add(n)
        o = "$Kobj_%s" % mangle(n)
        i = s.draw(6)
        return s.choice([o, "&%s[%d]" % (o, i), "%s + %d" % (o, i), "&%s[5] - %d" % (o, i), "(%s) ((char *) %s + %d)" % (t.decl(""), o, 8 * i), "%d + %s" % (i, o),
                         "(%s) (void *) &%s[%d]" % (t.decl(""), o, i), "1 ? %s + 1 : 0" % o if False else "&(%s)[%d]" % (o, i)])


def helpers(g):
    out = []
    if "fn" in g.pointees:
        out += ["static int $Kf%d(int x) { return x * 10 + %d; }" % (i, i) for i in range(3)]
    for n in sorted(g.pointees - {"fn"}):
        out.append("static %s $Kobj_%s[8];" % (n, mangle(n)))
    return out


def all_pointees(t, acc):
    if isinstance(t, Ptr):
        if isinstance(t.to, Fn):
            pass
        elif t.to.name != "char":
            acc.add(t.to.name)
    elif isinstance(t, Arr):
        all_pointees(t.el, acc)
    elif isinstance(t, Agg):
        for _, ft, _ in t.fields:
            all_pointees(ft, acc)


class C09(diffcheck.DiffCheck):
    id = "C09"
    rule = ("a case declares 1-4 objects of static storage duration (file scope, block scope, compound literals, thread-local) with generated initialisers "
            "(designators, elided braces, overrides, strings, addresses, constant expressions) and reports every prescribed leaf; non-trivial: an object with at least two leaves")
    quick = (1200, 10)
    thorough = (10000, 10)

    def gen(self, s):
        g = IT(s)
        glob, body, kinds, nl = [], [], set(), 0
        rep2 = []
        for i in range(s.range(1, 3)):
            t = g.typ(2) if s.chance(25) else g.agg(2)
            unk = False
            if s.chance(30):
                t = Arr(t, s.range(1, 4) if s.draw(2) else "")
                unk = t.n == ""
            elif s.chance(8):
                t = Arr(t, s.range(20, 300))
            all_pointees(t, g.pointees)
            name = "$Kx%d" % i
            ig = Static(s, g)
            where = s.weighted([(4, "file"), (3, "file-extern"), (3, "block"), (2, "literal"), (2, "tls"), (2, "zero"), (1, "block-literal")])
            if unk and where in ("zero",):
                where = "file"
            txt = ig.init(t, name, top=True) if where != "zero" else None
            kinds |= ig.kinds
            kinds.add(where)
            const = "const " if s.chance(20) else ""
            rd = []
            acc = name
            if where in ("file", "tls", "zero"):
                pre = s.choice(["static ", ""]) + ("_Thread_local " if where == "tls" else "")
                glob.append("%s%s%s;" % (pre if const == "" else pre, const, t.decl(name) + (" = " + txt if txt else "")))
            elif where == "file-extern":
                d = Arr(t.el, "") if unk else t
                glob.append("extern %s%s;\n%s%s = %s;" % (const, d.decl(name), const, (Arr(t.el, "") if unk else t).decl(name), txt))
            elif where == "block":
                acc = name
            elif where in ("literal", "block-literal"):
                d = "%s%s = &(%s) %s;" % ("static " if where == "block-literal" or s.draw(2) else "", Ptr(t).decl(name), t.decl(""), txt if txt.startswith("{") else "{%s}" % txt)
                acc = "(*%s)" % name
                glob.append(d)
            lv = list(ig.leaves(t, name, acc))
            if len(lv) > 80:
                touched = {d.replace(name, acc, 1) for d in ig.done}
                first = [x for x in lv if x[0] in touched]
                lv = first[:60] + s.sample([x for x in lv if x[0] not in touched], 40)
            nl = max(nl, len(lv))
            rd += [report(lt, la, lb) for la, lt, lb in lv]
            if where not in ("literal", "block-literal"):
                rd.append("o_u(sizeof %s);" % name)
            if where == "block":
                # the initialiser takes effect once: the second call sees what the first one stored
                lt = [x for x in lv if not isinstance(x[1], Ptr)]
                ch = ""
                if lt and not const:
                    la, l0, lb = s.choice(lt)
                    ch = "%s = 1;" % la
                glob.append("static void $Kb%d(void) { static %s%s = %s; %s %s }" % (i, const, (Arr(t.el, "") if unk else t).decl(name), txt, " ".join(rd), ch))
                body.append("$Kb%d();" % i)
                if s.draw(2):
                    body.append("$Kb%d();" % i)
            else:
                body += rd
        code = "\n".join(g.defs + helpers(g) + glob) + "\nvoid $Kmain(void) {\n    " + "\n    ".join(body) + "\n}\n"
        return pbt.Case(code, nl >= 2, sorted(kinds), {"code": code})


if __name__ == "__main__":
    sys.exit(pbt.main(C09()))
