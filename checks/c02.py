"""C02: floating arithmetic, comparisons, conversions - differential against gcc (IEEE / x87), NaN payloads ignored."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck
from lib.cint import ALL, INT, UINT, LONG, ULONG, CHAR, UCHAR, SHORT, USHORT, BOOL, LLONG, ULLONG, interesting, promote, uac, spell

F, D, L = "float", "double", "long double"
FT = [D, F, L]
SUF = {F: ["f", "F"], D: [""], L: ["l", "L"]}
RANK = {F: 1, D: 2, L: 3}
OUT = {F: "o_f", D: "o_d", L: "o_ld"}
# ranges (exclusive bounds, exactly representable in all three types) inside which fp -> integer conversion is defined
BOUND = {"char": ("-129", "128"), "signed char": ("-129", "128"), "unsigned char": ("-1", "256"), "short": ("-32769", "32768"),
         "unsigned short": ("-1", "65536"), "int": ("-2147483648", "2147483648"), "unsigned int": ("-1", "4294967296"),
         "long": ("-9223372036854775808", "9223372036854775808"), "unsigned long": ("-1", "18446744073709551616"),
         "long long": ("-9223372036854775808", "9223372036854775808"), "unsigned long long": ("-1", "18446744073709551616")}


def isf(t):
    return isinstance(t, str)


def tname(t):
    return t if isf(t) else t.name


def common(a, b):
    fs = [x for x in (a, b) if isf(x)]
    if fs:
        return max(fs, key=lambda x: RANK[x])
    return uac(a, b)


DEC = ["0.0", "1.0", "0.5", "1.5", "2.0", "3.0", "0.1", "0.25", "10.0", "100.5", "1e10", "1e-10", "123456.789", "1e20", "3.402823e38", "1e300", "1e-300",
       "0x1p0", "0x1.8p3", "0x1.fffffep127", "0x1p-149", "0x1.0p-1074", "0x1.fffffffffffffp1023", "0x.8p1", "9007199254740993.0", "16777217.0",
       "9223372036854775808.0", "18446744073709549568.0", "4294967295.0", "2147483648.0", "2147483647.0", "65535.9", "255.99", "127.5", ".5", "5.", "1.e3", "9.3e18",
       "1.7976931348623157e308", "0.000000000000000001", "3.14159265358979323846"]


class G:
    def __init__(self, s):
        self.s = s
        self.vars = []   # (text, type)
        self.decl_g, self.decl_l = [], []
        self.helpers = {}
        self.ops = set()
        self.n = 0
        self.conv = 0

    def lit(self, t):
        s = self.s
        if isf(t):
            k = s.draw(10)
            if k < 7:
                d = s.choice(DEC)
            elif k < 9:
                d = "%d.%d" % (s.draw(100000), s.draw(100000))
            else:
                d = "%d.%de%s%d" % (s.draw(10), s.draw(1000), s.choice(["", "+", "-"]), s.draw(36))
            if t == F and d in ("1e300", "0x1.fffffffffffffp1023", "1.7976931348623157e308", "1e-300", "0x1.0p-1074"):
                d = "1e30"
            return d + s.choice(SUF[t])
        v = interesting(s, t)
        if v < 0:
            return "((%s)(-%dll - 1))" % (t.name, -(v + 1))
        return "((%s)%d%s)" % (t.name, v, "ull" if v > 2 ** 63 - 1 else "ll" if v > 2 ** 31 - 1 else "")

    def anytype(self):
        s = self.s
        return s.choice(FT) if s.chance(75) else s.choice(ALL)

    def add_vars(self):
        s = self.s
        for i in range(s.range(2, 6)):
            t = self.anytype()
            n = "$Kv%d" % i
            k = s.draw(5)
            lit = self.lit(t)
            if isf(t) and s.chance(35):
                lit = "-" + lit
            q = s.choice(["", "", "", "const ", "volatile "])
            if k == 0:
                self.decl_g.append("static %s %s;" % (tname(t), n))
                self.decl_l.append("%s = %s;" % (n, lit))
                txt = n
            elif k == 1:
                self.decl_l.append("struct { char pad; %s f; } %s; %s.f = %s;" % (tname(t), n, n, lit))
                txt = n + ".f"
            elif k == 2:
                self.decl_l.append("%s %sa[3]; %sa[1] = %s; %s *%s = &%sa[1];" % (tname(t), n, n, lit, tname(t), n, n))
                txt = "(*%s)" % n
            else:
                if q == "const ":
                    self.decl_l.append("%s %s%s = %s;" % (tname(t), n, "w", lit))
                    n = n + "w"
                else:
                    self.decl_l.append("%s%s %s = %s;" % (q, tname(t), n, lit))
                txt = n
            self.vars.append((txt, t))

    def cast_int(self, e, et, t):
        """conversion of a floating value to integer type t, guarded into the defined range"""
        if t is BOOL:
            # known finding C02-fp-to-bool: the conversion goes through a 64-bit integer, so 0 < |x| < 1 gives 0
            h = "$Kcb_%s" % et.replace(" ", "")
            self.helpers.setdefault(h, "static _Bool %s(%s x) { if ((x >= 1 || x <= -1) && x < 9.0e18L && x > -9.0e18L) return x; return x != 0; }" % (h, et))
            return "%s(%s)" % (h, e)
        lo, hi = BOUND[t.name]
        # bounds as literals of the floating type
        h = "$Kci_%s_%s" % (et.replace(" ", ""), t.name.replace(" ", ""))
        if h not in self.helpers:
            form = self.s.draw(3)
            body = {0: "return x;", 1: "return (%s)x;" % t.name, 2: "%s r = x; return r;" % t.name}[form]
            self.helpers[h] = "static %s %s(%s x) { if (x > (%s)%s.0L && x < (%s)%s.0L) { %s } return 77; }" % (t.name, h, et, et, lo, et, hi, body)
        return "%s(%s)" % (h, e)

    def conv_to(self, e, et, t):
        s = self.s
        self.conv += 1
        if isf(et) and not isf(t):
            self.ops.add("f->i")
            return self.cast_int(e, et, t)
        self.ops.add("%s->%s" % (et if isf(et) else "i", t if isf(t) else "i"))
        if s.chance(30):
            h = "$Kcv_%s_%s" % (tname(et).replace(" ", ""), tname(t).replace(" ", ""))
            self.helpers.setdefault(h, "static %s %s(%s x) { return x; }" % (tname(t), h, tname(et)))
            return "%s(%s)" % (h, e)
        return "((%s)(%s))" % (tname(t), e)

    def expr(self, d):
        s = self.s
        self.n += 1
        if d <= 0 or s.chance(10):
            if s.chance(65) and self.vars:
                return s.choice(self.vars)
            t = self.anytype()
            return self.lit(t), t
        k = s.weighted([(32, "bin"), (6, "neg"), (14, "cast"), (12, "cmp"), (4, "not"), (5, "logic"), (6, "cond"), (3, "call")])
        self.n += 1
        if k == "bin":
            (a, ta), (b, tb) = self.expr(d - 1), self.expr(d - 1)
            if not isf(ta) and not isf(tb):
                t = s.choice(FT)
                a, ta = self.conv_to(a, ta, t), t
            op = s.choice(["+", "-", "*", "/"])
            self.ops.add("%s %s" % (common(ta, tb), op))
            if ta != tb:
                self.conv += 1
            return "(%s %s %s)" % (a, op, b), common(ta, tb)
        if k == "neg":
            a, t = self.expr(d - 1)
            if not isf(t):
                a, t = self.conv_to(a, t, D), D
            op = s.choice(["-", "-", "+"])
            self.ops.add("%s u%s" % (t, op))
            return "(%s%s)" % (op, a) if not a.startswith(("-", "+")) else "(%s(%s))" % (op, a), t
        if k == "cast":
            a, ta = self.expr(d - 1)
            t = self.anytype()
            return self.conv_to(a, ta, t), t
        if k == "cmp":
            (a, ta), (b, tb) = self.expr(d - 1), self.expr(d - 1)
            if not isf(ta) and not isf(tb):
                t = s.choice(FT)
                a, ta = self.conv_to(a, ta, t), t
            if s.chance(20):
                b, tb = a, ta
            op = s.choice(["<", ">", "<=", ">=", "==", "!="])
            self.ops.add("%s %s" % (common(ta, tb), op))
            return "(%s %s %s)" % (a, op, b), INT
        if k == "not":
            a, t = self.expr(d - 1)
            self.ops.add("%s !" % tname(t) if isf(t) else "i !")
            return "(!%s)" % self.cond(a, t), INT
        if k == "logic":
            (a, ta), (b, tb) = self.expr(d - 1), self.expr(d - 1)
            op = s.choice(["&&", "||"])
            self.ops.add("fp " + op)
            return "(%s %s %s)" % (self.cond(a, ta), op, self.cond(b, tb)), INT
        if k == "cond":
            (c, tc), (a, ta), (b, tb) = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            self.ops.add("?:")
            # known finding C02-conditional-conversion: operands of different arithmetic types are not converted
            if ta is not tb:
                b, tb = self.conv_to(b, tb, ta), ta
            return "(%s ? %s : %s)" % (self.cond(c, tc), a, b), ta if isf(ta) else promote(ta)
        # call: arguments of mixed types, returned converted
        na = s.range(1, 4)
        ps = [self.anytype() for _ in range(na)]
        rt = s.choice(FT)
        h = "$Kfn%d" % len(self.helpers)
        acc = " + ".join("p%d" % i for i in range(na))
        self.helpers[h] = "static %s %s(%s) { return %s; }" % (rt, h, ", ".join("%s p%d" % (tname(p), i) for i, p in enumerate(ps)),
                                                            "(double)p0" if all(not isf(p) for p in ps) else "p%d" % s.choice([i for i, p in enumerate(ps) if isf(p)]) + " - " + "p%d * 2.0f" % s.draw(na))
        args = []
        for p in ps:
            e, t = self.expr(d - 2)
            if isf(t) and not isf(p):
                e = self.cast_int(e, t, p)
            args.append(e)
        self.ops.add("call")
        return "%s(%s)" % (h, ", ".join(args)), rt

    def cond(self, e, t):
        """known finding C02-negative-zero-condition: float/double -0.0 counts as true; x + 0 keeps every other value and turns -0.0 into +0.0"""
        if t in (F, D):
            self.ops.add("fp condition " + t)
            return "(%s + 0%s)" % (e, self.s.choice(["", ".0f"]))
        return e

    def out(self, e, t):
        if isf(t):
            return "%s(%s);" % (OUT[t], e)
        return "o_u(%s);" % e


class C02(diffcheck.DiffCheck):
    id = "C02"
    rule = ("a case evaluates 1-5 floating expressions over float/double/long double and integer variables and reports bit patterns; "
            "non-trivial: at least 3 operators/conversions with at least one between different types")
    quick = (1300, 20)
    thorough = (15000, 20)
    assumptions = ["gcc -O0 with SSE2 float/double and x87 long double is the reference", "NaN payloads and signs are not compared", "rounding mode is to-nearest"]

    def gen(self, s):
        g = G(s)
        g.add_vars()
        body = []
        for i in range(s.range(1, 5)):
            k = s.weighted([(10, "out"), (3, "if"), (4, "assign"), (4, "compound"), (4, "incdec"), (2, "while"), (2, "init")])
            e, t = g.expr(s.range(1, 4))
            wr = [v for v in g.vars if "const" not in v[0]]
            if k == "out":
                body.append(g.out(e, t))
            elif k == "if":
                body.append(s.choice(["if (%s) o_x(1); else o_x(0);", "o_x(%s ? 4 : 5);", "for (int i = 0; %s && i < 2; i++) o_x(i);"]) % g.cond(e, t))
                g.ops.add("fp condition")
            elif k == "while":
                body.append(s.choice(["while (%s) { o_x(7); break; }", "{ int n = 0; do { n++; } while (%s && n < 3); o_x(n); }"]) % g.cond(e, t))
            elif k == "init":
                t2 = g.anytype()
                if isf(t) and not isf(t2):
                    e = g.cast_int(e, t, t2)
                body.append("{ %s t = %s; %s }" % (tname(t2), e, g.out("t", t2)))
            elif k == "assign":
                v, vt = s.choice(wr)
                if isf(t) and not isf(vt):
                    e = g.cast_int(e, t, vt)
                body.append(g.out("(%s = %s)" % (v, e), vt))
                g.ops.add("assign")
            elif k == "compound":
                v, vt = s.choice(wr)
                op = s.choice(["+", "-", "*", "/"])
                if not isf(vt):
                    v2 = [x for x in wr if isf(x[1])]
                    if not v2:
                        body.append(g.out(e, t))
                        continue
                    v, vt = s.choice(v2)
                body.append(g.out("(%s %s= %s)" % (v, op, e), vt))
                g.ops.add("%s %s=" % (vt, op))
            else:
                v2 = [x for x in wr if isf(x[1])]
                if not v2:
                    body.append(g.out(e, t))
                    continue
                v, vt = s.choice(v2)
                op = s.choice(["++", "--"])
                body.append(g.out(v + op if s.draw(2) else op + v, vt))
                g.ops.add("%s %s" % (vt, op))
        for v, t in g.vars:
            body.append(g.out(v, t))
        code = "\n".join(g.decl_g + list(g.helpers.values())) + "\nvoid $Kmain(void) {\n    " + "\n    ".join(g.decl_l + body) + "\n}\n"
        return pbt.Case(code, g.n >= 3 and g.conv >= 1, sorted(g.ops), {"code": code})


if __name__ == "__main__":
    sys.exit(pbt.main(C02()))
