#!/usr/bin/env python3
"""C11: constant expressions have the value C17 prescribes wherever a constant is required, and the value they have at run time."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck
from lib.cint import *
from checks.c01 import G, const_text

M64 = 0xffffffffffffffff
FT = ["float", "double", "long double"]
SZ = [("int[3]", 12, 4), ("char *", 8, 8), ("struct { char a; long b; }", 16, 8), ("double", 8, 8), ("long double", 16, 16), ("float", 4, 4),
      ("union { short s; char c[5]; }", 6, 2), ("int (*)(int)", 8, 8), ("char[7][2]", 14, 1), ("_Bool", 1, 1)]


class CG(G):
    """constant integer expressions: no objects, but sizeof/_Alignof, enumerators, casts of floating constants, _Generic"""
    def __init__(self, s):
        super().__init__(s, side=False)

    def leaf(self, nr):
        s = self.s
        k = s.draw(10)
        if k == 0:
            t, n, a = s.choice(SZ)
            self.ops.add("sizeof")
            if s.draw(2):
                return E("(unsigned long) sizeof(%s)" % t, ULONG, n, P_CAST)
            return E("(unsigned long) _Alignof(%s)" % t, ULONG, a, P_CAST)
        if k == 1:
            self.ops.add("float-cast")
            f, v = s.choice([("2.5", 2), ("-7.75", -7), ("1e3", 1000), ("0.999f", 0), ("-0.5L", 0), ("65536.0", 65536), ("0x1p20", 1 << 20), ("123456.789f", 123456)])
            t = s.choice([INT, LONG, SHORT, UINT, ULONG, LLONG])
            if not t.fits(v):
                t = LONG
            return E("(%s) %s" % (t.name, f if f[0] != "-" else "(%s)" % f), t, v, P_CAST)
        if k == 2:
            self.ops.add("sizeof-expr")
            e = self.expr(1)
            return E("(unsigned long) sizeof(%s)" % e.text, ULONG, promote(e.type).bits // 8 if False else e.type.bits // 8, P_CAST)
        if k == 3:
            self.ops.add("generic")
            e = self.expr(1)
            c = s.choice([INT, UINT, LONG, ULONG, LLONG])
            a, b = s.draw(100), s.draw(100)
            return E("_Generic(%s, %s: %d, default: %d)" % (par(s, e, P_ASSIGN), c.name, a, b), INT, a if e.type is c else b, P_PRIM)
        return super().leaf(nr)


class FG:
    """constant floating expressions; values tracked approximately, only to keep conversions defined"""
    def __init__(self, s, ig):
        self.s, self.ig = s, ig
        self.ops = set()
        self.mixed = self.risky = False

    def leaf(self):
        s = self.s
        if s.chance(25):
            e = self.ig.expr(1)
            if abs(e.val) < 1 << 40:
                return "(" + e.text + ")", e.type.name if e.type.rank >= 3 else "int", float(e.val), P_PRIM
        t = s.choice(FT)
        suf = {"float": s.choice(["f", "F"]), "double": "", "long double": s.choice(["l", "L"])}[t]
        n = s.draw(100000)
        x = s.choice(["%d.%d" % (n % 1000, n // 1000), "%d.5" % n, "0.1", "3.14159265358979323846", "1e%d" % s.range(-6, 9), "%d." % n, ".25", "0x%xp-%d" % (n, s.draw(20)), "0x1.8p3", "16777217.0", "9007199254740993.0"])
        v = float.fromhex(x) if x.startswith("0x") else float(x)
        return x + suf, t, v, P_PRIM

    def expr(self, d):
        s = self.s
        if d <= 0 or s.chance(10):
            return self.leaf()
        k = s.weighted([(10, "bin"), (2, "neg"), (4, "cast"), (2, "cond"), (2, "cmp")])
        if k == "bin":
            a, b = self.expr(d - 1), self.expr(d - 1)
            if a[1] not in FT and b[1] not in FT:
                a = ("(double) " + self.p(a, P_CAST), "double", a[2], P_CAST)
            op = s.choice("+-*/")
            if op == "/" and abs(b[2]) < 1e-9 or op == "*" and abs(a[2] * b[2]) > 1e14:
                op = "+"
            self.ops.add("f" + op)
            self.risky |= op == "/"
            t = max([x for x in (a[1], b[1]) if x in FT], key=FT.index)
            v = {"+": lambda: a[2] + b[2], "-": lambda: a[2] - b[2], "*": lambda: a[2] * b[2], "/": lambda: a[2] / b[2]}[op]()
            pr = BINOPS[op]
            return "%s %s %s" % (self.p(a, pr), op, self.p(b, pr + 1)), t, v, pr
        if k == "neg":
            a = self.expr(d - 1)
            if a[1] not in FT:
                return a
            self.ops.add("fneg")
            x = self.p(a, P_CAST)
            return "-" + (" " if x[0] in "-+" else "") + x, a[1], -a[2], P_UN
        if k == "cast":
            a = self.expr(d - 1)
            if s.chance(30) and abs(a[2]) < 1e9 and not self.risky:
                t = s.choice([INT, LONG, LLONG]) if a[2] < 0 else s.choice([INT, UINT, LONG, ULONG, LLONG, ULLONG])
                self.ops.add("f-to-int")
                return "(%s) %s" % (t.name, self.p(a, P_CAST)), t.name, float(int(a[2])), P_CAST
            t = s.choice(FT)
            self.ops.add("fcast")
            return "(%s) %s" % (t, self.p(a, P_CAST)), t, a[2], P_CAST
        a, b = self.expr(d - 1), self.expr(d - 1)
        if k == "cmp":
            op = s.choice(["<", ">", "<=", ">=", "==", "!="])
            self.ops.add("fcmp")
            self.risky = True
            return "(%s %s %s)" % (self.p(a, P_SHIFT), op, self.p(b, P_SHIFT)), "int", 1.0, P_PRIM
        if a[1] not in FT or b[1] not in FT:
            return a
        c = self.ig.expr(1)
        t = max([x for x in (a[1], b[1]) if x in FT], key=FT.index)
        self.ops.add("f?:")
        self.mixed |= a[1] != b[1]
        return "(%s ? %s : %s)" % (par(s, c, P_OR), self.p(a, P_OR), self.p(b, P_OR)), t, a[2] if c.val else b[2], P_PRIM

    def p(self, e, pr):
        return "(" + e[0] + ")" if e[3] < pr or self.s.chance(8) else e[0]


class C11(diffcheck.DiffCheck):
    id = "C11"
    rule = ("a case places 2-7 generated constant expressions (value-tracked integer, floating, address) where C17 requires constants (enumerator, array bound, case label, bit-field width, "
            "_Static_assert, _Alignas, designator, static initialiser) and evaluates some again at run time; non-trivial: at least 4 operators in all")
    quick = (1300, 16)
    thorough = (12000, 16)

    def gen(self, s):
        g = CG(s)
        f = FG(s, g)
        glob, body, expect, nops, kinds = [], [], [], 0, set()
        exp_ok = True
        for i in range(s.range(2, 7)):
            ctx = s.weighted([(3, "enum"), (3, "bound"), (3, "case"), (2, "width"), (3, "assert"), (1, "alignas"), (2, "designator"), (5, "static"), (4, "fstatic"), (2, "address"), (1, "local-static"), (2, "runtime")])
            kinds.add(ctx)
            if ctx == "fstatic":
                f.mixed = f.risky = False
                e = f.expr(s.range(1, 4))
                nops += 1 + e[0].count(" ") // 2
                t = s.choice(FT + ["int", "long"]) if abs(e[2]) < 1e9 and not f.risky else s.choice(FT)
                glob.append("%s%s $Kf%d = %s;" % (s.choice(["static ", ""]), t, i, e[0]))
                rep = {"float": "o_f", "double": "o_d", "long double": "o_ld"}.get(t, "o_i")
                body.append("%s($Kf%d);" % (rep, i))
                if not f.mixed and s.draw(2):      # known finding C02 conditional-conversion
                    body.append("{ %s r = %s; %s(r); }" % (t, e[0], rep))
                exp_ok = False
                continue
            e = g.expr(s.range(1, 4))
            nops += e.nops
            v = e.val
            if ctx == "enum":
                if INT.fits(v) and v < INT.max:
                    glob.append("enum $Ken%d { $Kz%d = %s, $Ky%d };" % (i, i, par(s, e, P_COND), i))
                    body.append("o_i($Kz%d); o_i($Ky%d);" % (i, i))
                    expect += ["i%x" % (v & M64), "i%x" % ((v + 1) & M64)]
                    g.enums.append(("$Kz%d" % i, v))
                    g.enums.append(("$Ky%d" % i, v + 1))
            elif ctx == "bound":
                if 1 <= v <= 5000 and s.draw(2):
                    txt, n = e.text if e.prec >= P_COND else "(%s)" % e.text, v
                else:
                    txt, n = "((%s) & 31) + 1" % e.text, (v & 31) + 1
                form = s.draw(3)
                if form == 0:
                    glob.append("static char $Ka%d[%s];" % (i, txt))
                    body.append("o_u((unsigned long) sizeof $Ka%d);" % i)
                elif form == 1:
                    body.append("{ short a[%s][2]; o_u((unsigned long) sizeof a / 4); }" % txt)
                else:
                    glob.append("typedef char $Kt%d[%s];" % (i, txt))
                    body.append("o_u((unsigned long) sizeof($Kt%d));" % i)
                expect.append("u%x" % n)
            elif ctx == "case":
                t = promote(s.choice([e.type, INT, LONG, UINT, ULONG]))
                w = t.conv(v)
                other = t.conv(w ^ (1 << s.draw(t.bits)))
                glob.append("static int $Ks%d(%s x) { switch (x) { case %s: return 1; case %s: return 2; default: return 0; } }" % (
                    i, t.name, par(s, e, P_COND), const_text(t, other)))
                body.append("o_i($Ks%d(%s)); o_i($Ks%d(%s));" % (i, const_text(t, w), i, const_text(t, other)))
                expect += ["i1", "i2"]
            elif ctx == "width":
                n = (v & 15) + 1
                glob.append("static struct { unsigned a : ((%s) & 15) + 1; unsigned b : 3; } $Kb%d;" % (e.text, i))
                body.append("$Kb%d.a = 0xffff; o_u($Kb%d.a);" % (i, i))
                expect.append("u%x" % ((1 << n) - 1))
            elif ctx == "assert":
                if s.draw(2):
                    glob.append('_Static_assert(%s == %s, "value");' % (par(s, e, P_REL), const_text(e.type, v)))
                else:
                    body.append('_Static_assert(!(%s != %s), "value");' % (par(s, e, P_REL), const_text(e.type, v)))
            elif ctx == "alignas":
                n = 1 << (v & 3)
                glob.append("struct $Kal%d { char c; _Alignas(1 << ((%s) & 3)) char d; };" % (i, e.text))
                body.append("{ struct $Kal%d x; o_u((unsigned long) ((char *) &x.d - (char *) &x)); }" % i)
                expect.append("u%x" % n)
            elif ctx == "designator":
                n = v & 15
                glob.append("static const int $Kd%d[] = {[(%s) & 15] = 5, 6};" % (i, e.text))
                body.append("o_i($Kd%d[%d]); o_i($Kd%d[%d]); o_u((unsigned long) sizeof $Kd%d);" % (i, n, i, n + 1, i))
                expect += ["i5", "i6", "u%x" % ((n + 2) * 4)]
            elif ctx in ("static", "local-static"):
                t = s.choice(ALL)
                d = "static %s $Kv%d = %s;" % (t.name, i, par(s, e, P_ASSIGN))
                (glob if ctx == "static" else body).append(d)
                body.append("o_i($Kv%d);" % i)
                expect.append("i%x" % (t.conv(v) & M64))
                if s.chance(30):
                    t = s.choice(FT)
                    glob.append("static %s $Kw%d = %s;" % (t, i, par(s, e, P_ASSIGN)))
                    body.append("%s($Kw%d);" % ({"float": "o_f", "double": "o_d", "long double": "o_ld"}[t], i))
                    exp_ok = False
            elif ctx == "address":
                glob.append("static int $Kq%d[8][2]; static int (*$Kp%d)[2] = %s; static int *$Kr%d = &$Kq%d[(%s) & 7][1];" % (
                    i, i, s.choice(["$Kq%d + ((%s) & 7)", "&$Kq%d[(%s) & 7]", "((%s) & 7) + $Kq%d", "$Kq%d + 8 - ((%s) & 7)"]).replace("%d", str(i)).replace("%s", e.text), i, i, e.text))
                body.append("o_i($Kp%d - $Kq%d); o_i($Kr%d - &$Kq%d[0][0]);" % (i, i, i, i))
                exp_ok = False
            else:
                body.append("o_i(%s);" % par(s, e, P_ASSIGN))
                expect.append("i%x" % (v & M64))
        code = "\n".join(glob) + "\nvoid $Kmain(void) {\n    " + "\n    ".join(body) + "\n}\n"
        return pbt.Case(code, nops >= 4, sorted(kinds | g.ops | f.ops), {"code": code, "expect": expect if exp_ok else None})


if __name__ == "__main__":
    sys.exit(pbt.main(C11()))
