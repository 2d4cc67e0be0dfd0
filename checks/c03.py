"""C03: control flow. Random statement trees with bounded execution; the trace of executed markers is compared with gcc's."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck

SWT = ["int", "unsigned", "long", "unsigned long", "char", "unsigned char", "short", "signed char", "unsigned short", "long long", "_Bool"]
LIM = {"int": (-2147483648, 2147483647), "unsigned": (0, 4294967295), "long": (-2 ** 63, 2 ** 63 - 1), "unsigned long": (0, 2 ** 64 - 1), "char": (-128, 127), "unsigned char": (0, 255),
       "short": (-32768, 32767), "signed char": (-128, 127), "unsigned short": (0, 65535), "long long": (-2 ** 63, 2 ** 63 - 1), "_Bool": (0, 1)}


def cst(v):
    if v == -2 ** 63:
        return "(-9223372036854775807l - 1)"
    if v < 0:
        return "(-%d%s)" % (-v, "l" if v < -2 ** 31 + 1 else "")
    return "%d%s" % (v, "ul" if v >= 2 ** 63 else "l" if v >= 2 ** 31 else "")


class G:
    def __init__(self, s):
        self.s = s
        self.mark = 0
        self.labels = []      # names of all labels of the function under construction
        self.wanted = 0
        self.kinds = set()
        self.n = 0
        self.budget = 60
        self.lab_n = 0
        self.tmp = 0

    def v(self):
        return self.s.choice(["a", "b", "c", "d"])

    def iexpr(self, d=2, pure=False):
        """pure: no side effects (used where evaluation order is unspecified)"""
        s = self.s
        k = s.draw(8)
        if pure and k in (5, 6):
            k = 3
        if d <= 0 or k < 2:
            return self.v()
        if k == 2:
            return "%d" % s.draw(10)
        if k == 3:
            return "(%s %s %s)" % (self.iexpr(d - 1, True), s.choice(["+", "-", "*", "^", "&", "|"]), self.iexpr(d - 1, True))
        if k == 4:
            return "(%s %% %du)" % (self.iexpr(d - 1, pure), s.range(2, 7))
        if k == 5:
            return "(%s, %s)" % (self.sidefx(), self.iexpr(d - 1))
        if k == 6:
            return "(%s ? %s : %s)" % (self.cond(d - 1), self.iexpr(d - 1), self.iexpr(d - 1))
        return "$Kh%d(%s, %s)" % (s.draw(2), self.iexpr(d - 1, True), self.v())

    def sidefx(self):
        s = self.s
        v = self.v()
        return s.choice(["%s++", "%s += 3", "%s ^= 5", "--%s", "tr(%s)"]) % v

    def cond(self, d=2):
        s = self.s
        k = s.draw(9)
        if d <= 0 or k < 3:
            return "%s %% %du %s %d" % (self.v(), s.range(2, 6), s.choice(["==", "!=", "<", ">"]), s.draw(4))
        if k == 3:
            self.kinds.add("&&")
            return "(%s && %s)" % (self.cond(d - 1), self.cond(d - 1))
        if k == 4:
            self.kinds.add("||")
            return "(%s || %s)" % (self.cond(d - 1), self.cond(d - 1))
        if k == 5:
            return "!(%s)" % self.cond(d - 1)
        if k == 6:
            return "(%s)" % self.iexpr(d - 1)
        if k == 7:
            self.kinds.add("ptr cond")
            return s.choice(["p", "!p", "(p && *p)", "(p = %s %% 3u ? &a : 0)" % self.v()])
        return "tr(%d) == %d" % (s.draw(5), s.draw(5))

    def marker(self):
        self.mark += 1
        return "o_x(%d);" % self.mark

    def simple(self):
        s = self.s
        k = s.draw(6)
        if k < 3:
            return self.marker()
        if k == 3:
            return self.sidefx() + ";"
        if k == 4:
            return ";"
        return "%s = %s;" % (self.v(), self.iexpr(2, True))

    def block(self, d, loop, sw, ret):
        s = self.s
        n = s.range(1, 4)
        out = []
        for _ in range(n):
            if s.chance(12):
                self.tmp += 1
                t = s.choice(["int", "unsigned char", "long", "static int"])
                if t == "static int":
                    out.append("{ static int t%d = %d; t%d += 2; o_x(t%d); }" % (self.tmp, s.draw(9), self.tmp, self.tmp))
                else:
                    out.append("{ %s t%d = %s; o_i(t%d); }" % (t, self.tmp, self.iexpr(1), self.tmp))
                self.kinds.add("block local")
            out.append(self.stmt(d, loop, sw, ret))
        return "{\n" + "\n".join(out) + "\n}"

    def body(self, d, loop, sw, ret):
        return self.block(d, loop, sw, ret) if self.s.chance(70) else self.stmt(d, loop, sw, ret)

    def label(self):
        self.lab_n += 1
        n = "L%d" % self.lab_n
        self.labels.append(n)
        return n

    def stmt(self, d, loop, sw, ret):
        """loop: inside a loop (continue ok); sw: break ok"""
        s = self.s
        self.n += 1
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.simple()
        k = s.weighted([(10, "simple"), (12, "if"), (7, "while"), (6, "do"), (9, "for"), (10, "switch"), (8, "goto"), (5, "break"), (5, "continue"), (2, "return"), (3, "label"), (3, "block")])
        if k in ("break",) and not sw or k == "continue" and not loop:
            k = "if"
        self.kinds.add(k)
        if k == "simple":
            return self.simple()
        if k == "block":
            return self.block(d - 1, loop, sw, ret)
        if k == "label":
            return "%s: %s" % (self.label(), self.stmt(d - 1, loop, sw, ret))
        if k == "if":
            c = self.cond()
            if s.chance(55):
                self.kinds.add("else")
                return "if (%s) %s else %s" % (c, self.block(d - 1, loop, sw, ret) if s.chance(80) else self.simple(), self.body(d - 1, loop, sw, ret))
            return "if (%s) %s" % (c, self.block(d - 1, loop, sw, ret) if s.chance(80) else self.simple())
        if k == "while":
            return "while (fuel-- > 0 && %s) %s" % (self.cond(), self.body(d - 1, True, True, ret))
        if k == "do":
            return "do %s while (%s && fuel-- > 0);" % (self.body(d - 1, True, True, ret), self.cond())
        if k == "for":
            f = s.draw(6)
            b = self.body(d - 1, True, True, ret)
            if f == 0:
                return "for (;;) { if (fuel-- <= 0) break; %s if (%s) break; %s }" % (self.simple(), self.cond(1), b)
            self.tmp += 1
            i = "i%d" % self.tmp
            if "L" in b and f in (1, 3, 4):
                # a goto may enter the loop: the counter lives outside
                self.hoist.append("int %s = 1;" % i)
                return "for (%s = %d; %s < 4 && fuel-- > 0; %s++) { o_i(%s); %s }" % (i, s.draw(3), i, i, i, b)
            if f == 1:
                return "for (int %s = 0, e%s = %d; %s < e%s && fuel-- > 0; %s++) %s" % (i, i, s.draw(5), i, i, i, b)
            if f == 2:
                return "for (%s; %s && fuel-- > 0; %s) %s" % (self.sidefx(), self.cond(), self.sidefx(), b)
            if f == 3:
                return "for (unsigned char %s = 253; %s != 2 && fuel-- > 0; %s++, %s) %s" % (i, i, i, self.sidefx(), b)
            if f == 4:
                return "for (long %s = %d; fuel-- > 0 && %s > -2; %s -= 2) { o_i(%s); %s }" % (i, s.draw(6), i, i, i, b)
            return "for (; %s && fuel-- > 0;) %s" % (self.cond(), b)
        if k == "break":
            return "if (%s) break;" % self.cond(1) if s.chance(60) else "{ %s break; }" % self.marker()
        if k == "continue":
            return "if (%s) continue;" % self.cond(1) if s.chance(60) else "{ %s continue; }" % self.marker()
        if k == "goto":
            self.wanted += 1
            return "if (fuel-- > 0 && %s) goto @%d@;" % (self.cond(1), s.draw(1 << 16))
        if k == "return":
            return "if (%s) { %s return %s; }" % (self.cond(1), self.marker(), self.iexpr(1))
        # switch
        t = s.choice(SWT)
        lo, hi = LIM[t]
        nc = s.range(1, 5)
        vals = []
        mode = s.draw(4)
        base = s.choice([0, 0, lo, hi - 6, 250, -3, hi // 2])
        for i in range(nc):
            v = [base + i, s.draw(6), s.choice([lo, hi, lo + 1, hi - 1, 0, 1, -1, (hi >> 1) + 1, (1 << 31), (1 << 32), (1 << 32) + 1]), s.draw(300)][mode]
            v = max(lo, min(hi, v))
            if v not in vals:
                vals.append(v)
        if mode == 0 or mode == 2:
            sel = "(%s)(%s %% %du == 0 ? %s : %s %% 3u == 1 ? %s : %s)" % (t, self.v(), s.range(2, 4), cst(s.choice(vals)), self.v(), cst(s.choice(vals)), self.iexpr(1))
        else:
            sel = "(%s)(%s)" % (t, self.iexpr(2) if s.chance(50) else "%s %% 7u" % self.iexpr(1))
        if s.chance(20):
            sel = "(%s)" % sel.replace("(%s)" % t, "(%s)" % t, 1)
        self.kinds.add("switch " + t)
        items = [("case %s:" % (cst(v) if not s.chance(15) else "%s + 0" % cst(v))) for v in vals]
        if s.chance(70):
            items.insert(s.draw(len(items) + 1), "default:")
        out = []
        if s.chance(15):
            out.append("%s" % self.simple())   # never executed unless jumped to
        duff = s.chance(12)
        if duff:
            self.kinds.add("case inside loop")
            inner = []
            for it in items:
                inner.append("%s %s" % (it, self.stmt(d - 2, True, True, ret)))
            return "switch (%s) { do { %s } while (fuel-- > 0 && %s); }" % (sel, "\n".join(inner), self.cond(1))
        for it in items:
            if s.chance(15):
                self.kinds.add("case inside block")
                out.append("{ %s %s }" % (it, self.stmt(d - 1, loop, True, ret)))
            else:
                out.append("%s %s" % (it, self.stmt(d - 1, loop, True, ret)))
            if s.chance(30):
                out.append(self.stmt(d - 2, loop, True, ret))
            if s.chance(55):
                out.append("break;")
            else:
                self.kinds.add("fallthrough")
        return "switch (%s) {\n%s\n}" % (sel, "\n".join(out))

    def function(self, name, depth):
        self.labels, self.wanted, self.hoist = [], 0, []
        b = [self.stmt(depth, False, False, True) for _ in range(self.s.range(1, 4))]
        if self.wanted and (not self.labels or self.s.chance(50)):
            b.insert(self.s.draw(len(b) + 1), "%s: %s" % (self.label(), self.marker()))
        if self.wanted and self.s.chance(40):
            b.append("%s: ;" % self.label())
        t = "\n".join(b)
        out, i = [], 0
        parts = t.split("@")
        for j, p in enumerate(parts):
            out.append(self.labels[int(p) % len(self.labels)] if j % 2 else p)
        return "static unsigned %s(unsigned a, unsigned b) {\nunsigned c = a + 1, d = b * 3, *p = &b; %s\n%s\no_x(c); o_x(d);\nreturn a ^ b;\n}\n" % (name, " ".join(self.hoist), "".join(out))


class C03(diffcheck.DiffCheck):
    id = "C03"
    rule = ("a case is 1-3 functions with random statement trees (if/while/do/for/switch/goto/break/continue/return, labels, case inside blocks and loops), executed with bounded fuel; "
            "non-trivial: at least 8 statements and 3 kinds of control statement")
    quick = (900, 12)
    thorough = (15000, 12)
    assumptions = ["execution is bounded by a fuel counter that is part of the program"]

    def gen(self, s):
        g = G(s)
        pre = ("static int $Kfuel_; static unsigned $Ktr_(unsigned x) { o_x(x); return x; }\n"
               "static unsigned $Kh0(unsigned x, unsigned y) { if (x & 1) return y; return x + 1; }\n"
               "static unsigned $Kh1(unsigned x, unsigned y) { while (x > 9) { x /= 3; if (x == 4) return 1; } return x ^ y; }\n")
        nf = s.range(1, 3)
        fs = "".join(g.function("$Kf%d" % i, s.range(2, 4)) for i in range(nf))
        main = "void $Kmain(void) { $Kfuel_ = %d; %s }\n" % (s.choice([20, 60, 150]), " ".join("o_x($Kf%d(%du, %du));" % (i, s.draw(20), s.draw(20)) for i in range(nf) for _ in range(2)))
        import re
        fs = re.sub(r"\bfuel\b", "$Kfuel_", fs)
        fs = re.sub(r"\btr\(", "$Ktr_(", fs)
        code = pre + fs + main
        ctl = g.kinds & {"if", "while", "do", "for", "switch", "goto", "break", "continue", "return"}
        return pbt.Case(code, g.n >= 8 and len(ctl) >= 3, sorted(g.kinds), {"code": code})


if __name__ == "__main__":
    sys.exit(pbt.main(C03()))
