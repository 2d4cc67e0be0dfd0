"""C21: variable-length arrays, variably modified types and alloca."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck

ELEMS = ["char", "unsigned char", "short", "int", "unsigned", "long", "double", "float", "long double", "$KS", "$KP"]


class Arr:
    __slots__ = ("name", "elem", "bounds", "total", "kind", "fixed")

    def __init__(self, name, elem, bounds, total, kind, fixed):
        self.name, self.elem, self.bounds, self.total, self.kind, self.fixed = name, elem, bounds, total, kind, fixed


class Gen:
    """one function; `n`, `m` never change (bounds of variably modified types other than whole objects use only them:
    kefir evaluates those bounds where the type is used, which is a known finding), `k` does"""

    def __init__(self, s):
        self.s = s
        self.labels = set()
        self.uid = 0
        self.scopes = []
        self.depth = 0
        self.loops = 0
        self.nvla = 0
        self.gotos = []
        self.fn_end_label = False
        self.inswitch = 0

    def id(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def bound(self):
        return self.s.choice(["n", "m", "n + 1", "m + 2", "n * 2", "n + m", "(n ? m : 3)", "n * m", "(char) n", "(unsigned long) m"])

    def live(self):
        return [a for sc in self.scopes for a in sc]

    def fill(self, a, v):
        """give every element a value that depends on its position"""
        i = self.id("i")
        self.labels.add("elem-" + a.elem.replace("$K", ""))
        e = a.name
        if a.kind == "vla" and len(a.bounds) == 1 or a.kind == "alloca":
            tgt = "%s[%s]" % (e, i)
            tot = a.total
            return "for (int %s = 0; %s < (int) (%s); %s++) %s" % (i, i, tot, i, self.setv(a, tgt, "%d + %s" % (v, i)))
        idx = [self.id("i") for _ in a.bounds]
        out = ""
        for x, b in zip(idx, a.bounds):
            out += "for (int %s = 0; %s < (int) (%s); %s++) " % (x, x, b, x)
        tgt = e + "".join("[%s]" % x for x in idx)
        return out + self.setv(a, tgt, "%d + %s" % (v, " * 3 + ".join(idx)))

    def setv(self, a, tgt, val):
        if a.elem == "$KS":
            return "{ %s.a = %s; %s.b = 7; }" % (tgt, val, tgt)
        if a.elem == "$KP":
            return "%s = $Kbuf + ((%s) & 31);" % (tgt, val)
        return "%s = (%s) & 63;" % (tgt, val)

    def getv(self, a, tgt):
        if a.elem == "$KS":
            return "%s.a + %s.b" % (tgt, tgt)
        if a.elem == "$KP":
            return "(long) (%s - $Kbuf)" % tgt
        return "(long) %s" % tgt

    def read(self, a):
        """report a checksum over all elements"""
        t = self.id("t")
        out = "{ long %s = %d; " % (t, self.s.range(1, 5))
        if len(a.bounds) == 1:
            i = self.id("i")
            out += "for (int %s = 0; %s < (int) (%s); %s++) %s = %s * 3 + %s;" % (i, i, a.total, i, t, t, self.getv(a, "%s[%s]" % (a.name, i)))
        else:
            idx = [self.id("i") for _ in a.bounds]
            for x, b in zip(idx, a.bounds):
                out += "for (int %s = 0; %s < (int) (%s); %s++) " % (x, x, b, x)
            out += "%s = %s * 3 + %s;" % (t, t, self.getv(a, a.name + "".join("[%s]" % x for x in idx)))
        return out + " o_i(%s); }" % t

    def misc(self, a):
        s = self.s
        k = s.draw(8)
        if k == 0 and a.kind == "vla":
            return "o_u((unsigned long) sizeof %s);" % a.name
        if k == 1 and a.kind == "vla":
            self.labels.add("sizeof-element")
            return "o_u((unsigned long) sizeof %s[0]);" % a.name
        if k == 2:
            return "o_u((unsigned long) &%s[0] %% _Alignof(%s));" % (a.name, a.elem)
        if k == 3 and len(a.bounds) > 1:
            self.labels.add("row-address")
            return "o_i((long) ((char *) &%s[1] - (char *) &%s[0])); o_i((long) (&%s[1] - &%s[0])); o_i((long) ((char *) (%s + %s) - (char *) %s));" % (
                a.name, a.name, a.name, a.name, a.name, s.choice(["1", "2", "(long) n", "(short) 1"]), a.name)
        if k == 4 and len(a.bounds) > 1:
            # a pointer to a row, moved along
            self.labels.add("pointer-to-vla")
            p = self.id("p")
            rest = "".join("[%s]" % b for b in a.bounds[1:])
            mv = s.choice(["%s++;", "++%s;", "%s += 1;", "%s = %s + 1;", "%s += 2; %s -= 1;", "%s += 2; %s--;"])
            mv = mv.replace("%s", p)
            return "{ %s (*%s)%s; %s = %s; %s o_i((long) ((char *) %s - (char *) %s)); o_u((unsigned long) sizeof *%s); o_i((long) (%s - %s)); }" % (
                a.elem, p, rest, p, a.name, mv, p, a.name, p, p, a.name)
        if k == 5 and len(a.bounds) == 2 and a.elem in ("int", "char", "double"):
            self.labels.add("vla-parameter")
            return "o_i($Ksum2_%s(%s, %s, %s));" % (a.elem, a.bounds[0], a.bounds[1], a.name)
        if k == 6 and len(a.bounds) == 1 and a.elem in ("int", "char", "double"):
            self.labels.add("vla-argument")
            return "o_i($Ksum1_%s(%s, %s) + $Ksum1_%s(1, %s));" % (a.elem, a.total, a.name, a.elem, a.name)
        return self.read(a)

    def declare(self):
        s = self.s
        k = s.draw(20)
        elem = s.choice(ELEMS)
        name = self.id("v")
        self.nvla += 1
        if k < 3:
            # alloca: lives until the function returns
            self.labels.add("alloca")
            tot = self.id("z")
            b = self.bound()
            algn = s.choice(["", "", "16", "32", "8"])
            call = "__builtin_alloca(%s * sizeof(%s))" % (tot, elem) if not algn or elem == "long double" and algn == "8" else "__builtin_alloca_with_align(%s * sizeof(%s), %d)" % (tot, elem, 8 * max(int(algn), 16 if elem == "long double" else 8))
            a = Arr(name, elem, [tot], tot, "alloca", True)
            self.scopes[-1].append(a)
            chk = "o_u((unsigned long) %s %% _Alignof(%s));" % (name, elem)
            return "int %s = (int) (%s); %s *%s = %s; %s %s" % (tot, b, elem, name, call, self.fill(a, s.range(1, 40)), chk)
        if k < 11:
            tot = self.id("z")
            b = self.bound()
            mode = s.draw(6)
            if mode == 0:
                self.labels.add("bound-with-effect")
                a = Arr(name, elem, [tot], tot, "vla", False)
                self.scopes[-1].append(a)
                return "int %s = k + 1; %s %s[++k]; %s o_i(k);" % (tot, elem, name, self.fill(a, s.range(1, 40)))
            if mode == 1:
                self.labels.add("bound-changed-later")
                a = Arr(name, elem, [tot], tot, "vla", False)
                self.scopes[-1].append(a)
                q = self.id("q")
                return "int %s = (int) (%s), %s = %s; %s %s[%s]; %s += %d; %s o_u((unsigned long) sizeof %s);" % (
                    tot, b, q, tot, elem, name, q, q, s.range(1, 9), self.fill(a, s.range(1, 40)), name)
            a = Arr(name, elem, [tot], tot, "vla", True)
            self.scopes[-1].append(a)
            if mode == 2:
                self.labels.add("vla-typedef")
                t = self.id("T")
                return "int %s = (int) (%s); typedef %s %s[%s]; %s %s; %s" % (tot, b, elem, t, b, t, name, self.fill(a, s.range(1, 40)))
            return "int %s = (int) (%s); %s %s[%s]; %s" % (tot, b, elem, name, b, self.fill(a, s.range(1, 40)))
        if k < 17:
            self.labels.add("multi-dimensional")
            nd = s.weighted([(5, 2), (2, 3)])
            bs = [s.choice(["n", "m", "n + 1", "m + 1", "2", "3"]) for _ in range(nd)]
            if all(b.isdigit() for b in bs):
                bs[s.draw(nd)] = "n"
            if s.chance(25):
                bs[0] = "3"
                self.labels.add("constant-outer-bound")
            if all(b.isdigit() for b in bs):
                bs[-1] = "m"
            # two rows at least: the row expressions index row 1
            if bs[0] == "n":
                bs[0] = "n + 1"
            a = Arr(name, elem, bs, None, "vla", True)
            self.scopes[-1].append(a)
            return "%s %s%s; %s" % (elem, name, "".join("[%s]" % b for b in bs), self.fill(a, s.range(1, 40)))
        if k < 18:
            self.nvla -= 1
            self.labels.add("sizeof-vla-type")
            return "o_u((unsigned long) sizeof(%s[%s][%s]));" % (elem, self.bound(), self.bound())
        # an ordinary object between the arrays
        self.nvla -= 1
        a = Arr(name, elem, ["3"], "3", "plain", True)
        self.scopes[-1].append(a)
        return "%s %s[3]; %s" % (elem, name, self.fill(a, s.range(1, 40)))

    def stmts(self, fuel):
        s = self.s
        out = []
        self.scopes.append([])
        for _ in range(s.range(1, 4)):
            out.append(self.stmt(fuel))
        live = self.live()
        for a in s.sample(live, min(len(live), 3)):
            out.append(self.read(a))
        self.scopes.pop()
        return out

    def leave(self):
        """a jump out of the current block, taken on some condition"""
        s = self.s
        ch = []
        if self.loops:
            ch += ["continue", "break"]
        elif self.inswitch:
            ch += ["break"]
        ch += ["goto", "return"]
        w = s.choice(ch)
        self.labels.add("leave-by-" + w)
        cond = s.choice(["k % 3 == 1", "n > m", "k > 4", "(k + n) % 2", "m == 2", "n == 3"])
        if w == "goto":
            if self.gotos and s.chance(70):
                lab = s.choice(self.gotos)
                return "if (%s && $Kfuel-- > 0) goto %s;" % (cond, lab)
            self.fn_end_label = True
            return "if (%s) goto out;" % cond
        if w == "return":
            live = self.live()
            if live:
                a = s.choice(live)
                if len(a.bounds) == 1:
                    return "if (%s) return (int) (%s) + k;" % (cond, self.getv(a, "%s[0]" % a.name))
            return "if (%s) return k;" % cond
        if w == "continue":
            return "if (%s) { k++; continue; }" % cond
        return "if (%s) %s;" % (cond, w)

    def stmt(self, fuel):
        s = self.s
        k = s.draw(20)
        if k < 7 or fuel <= 0 and k < 12:
            return self.declare()
        live = self.live()
        if k < 10 and live:
            return self.misc(s.choice(live))
        if k < 12:
            self.depth += 1
            r = self.leave() if self.depth > 1 else "k += %d;" % s.range(1, 3)
            self.depth -= 1
            return r
        if fuel <= 0:
            return "k++;"
        self.depth += 1
        if k < 14:
            b = self.stmts(fuel - 1)
            lab = None
            r = "{ %s }" % "\n".join(b)
        elif k < 16:
            # a label before the block, so that a jump leaves and re-enters it
            lab = self.id("L")
            self.gotos.append(lab)
            b = self.stmts(fuel - 1)
            self.gotos.pop()
            r = "%s: ; { %s }" % (lab, "\n".join(b))
            # labels name a point that must not be inside the scope of an array that the jump enters: only used from within
        elif k < 19:
            i = self.id("i")
            self.loops += 1
            sw = self.inswitch
            self.inswitch = 0
            saved = self.gotos
            b = self.stmts(fuel - 1)
            if s.chance(50):
                b.insert(s.range(1, len(b)), self.leave())
            self.gotos = saved
            self.loops -= 1
            self.inswitch = sw
            kind = s.draw(3)
            n = s.range(2, 4)
            if kind == 0:
                r = "for (int %s = 0; %s < %d; %s++) { %s }" % (i, i, n, i, "\n".join(b))
            elif kind == 1:
                r = "int %s = 0; while (%s++ < %d) { %s }" % (i, i, n, "\n".join(b))
            else:
                r = "int %s = 0; do { %s } while (++%s < %d);" % (i, "\n".join(b), i, n)
            self.labels.add("loop")
        else:
            lp = self.loops
            self.loops = 0
            self.inswitch += 1
            b1 = self.stmts(fuel - 1)
            b2 = self.stmts(fuel - 1)
            self.inswitch -= 1
            self.loops = lp
            self.labels.add("switch")
            r = "switch (k %% 2) { case 0: { %s } %s default: { %s } }" % ("\n".join(b1), s.choice(["break;", "", "k++;"]), "\n".join(b2))
        self.depth -= 1
        return r


def stress(s, labels):
    """a loop whose arrays fit the stack only when every way out of the block releases them"""
    labels.add("bounded-stack")
    out = s.choice(["", "if (i & 1) continue;", "if (i %% 7 == 3) goto next%d;" % 0, "{ char y[n * 100]; y[n * 99] = 2; if (i & 1) continue; x[1] = y[n * 99]; }",
                    "switch (i % 3) { case 0: { char y[n * 50]; y[3] = 1; break; } case 1: { short y[n * 50]; y[2] = 3; if (i & 4) goto next0; } default: x[2] = 1; }",
                    "for (int j = 0; j < 2; j++) { char y[n * 64 + j]; y[j] = 1; if (j == 1) break; if (i & 2) goto next0; }"])
    kind = s.draw(5)
    reps = s.choice([6000, 9000])
    size = s.choice(["n * 1000", "n * 1500 + i % 16"])
    body = "char x[%s]; x[0] = (char) i; x[(%s) - 1] = 1; %s r += x[0]; next0: ;" % (size, size, out)
    if kind == 0:
        lp = "for (int i = 0; i < %d; i++) { %s }" % (reps, body)
    elif kind >= 3:
        # jumps back inside one block, over some of its arrays
        labels.add("back-over-declaration")
        decl = lambda v: "char %s[%s]; %s[0] = (char) i; %s[(%s) - 1] = 1;" % (v, s.choice([size, "n * 20", "n"]), v, v, "n")
        before = [decl("b%d" % j) for j in range(s.range(0, 2))]
        mid = [decl("m%d" % j) for j in range(s.range(0, 2))]
        jump = "if (++i < %d) { %s goto again; }" % (reps, s.choice(["", decl("in"), "{ " + decl("in") + " if (i & 1) goto again; }"]))
        lp = "int i = 0; %s again: ; %s char x[%s]; x[0] = (char) i; x[(%s) - 1] = 1; r += x[0]; %s" % (" ".join(before), " ".join(mid), size, size, jump)
        if s.chance(50):
            lp = "for (int q = 0; q < 2; q++) { %s }" % lp
    elif kind == 1:
        lp = "int i = 0; again: ; { char x[%s]; x[0] = (char) i; x[(%s) - 1] = 1; r += x[0]; if (++i < %d) goto again; }" % (size, size, reps)
    else:
        lp = "int i = -1; while (++i < %d) { %s }" % (reps, body)
    return "static int $Kstress(int n) { int r = 0; %s return r; }\n" % lp, "o_i($Kstress(4));"


HEAD = """struct $Ks { int a; double b; char c; };
typedef struct $Ks $KS;
typedef char *$KP;
static char $Kbuf[64];
static int $Kfuel;
"""


class C21(diffcheck.DiffCheck):
    id = "C21"
    rule = ("a case has 1-3 functions with nested blocks, loops, switches and jumps that declare one- to three-dimensional variable-length arrays of nine element types, alloca blocks, pointers to and typedefs of "
            "variable-length arrays, fill every live object with its own pattern and check all of them at several points; non-trivial: at least two variable-length or alloca objects")
    quick = (300, 8)
    thorough = (9000, 8)

    def gen(self, s):
        code = [HEAD]
        for t in ("int", "char", "double"):
            code.append("static int $Ksum1_%s(int n, %s a[n]) { int r = 0; for (int i = 0; i < n; i++) r = r * 3 + (int) a[i]; return r; }" % (t, t))
            code.append("static int $Ksum2_%s(int n, int m, %s a[%s][m]) { int r = (int) sizeof a[0]; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r = r * 3 + (int) a[i][j]; return r; }" % (t, t, s.choice(["n", "static n", "", "*" if False else "const n"])))
        main = []
        labels = set()
        nvla = 0
        nf = s.weighted([(3, 1), (3, 2), (1, 3)])
        for f in range(nf):
            g = Gen(s)
            g.scopes.append([])
            body = []
            if f and s.chance(50):
                body.append("o_i($Kf%d(m, n));" % (f - 1))
            for _ in range(s.range(2, 5)):
                body.append(g.stmt(3))
                if f and s.chance(30):
                    body.append("o_i($Kf%d(n, m) + $Kf%d(m, 1));" % (f - 1, f - 1))
            if s.chance(25):
                body.append("if ($Kfuel-- > 0) o_i($Kf%d(n + 1, m));" % f)
                labels.add("recursion")
            for a in g.live():
                body.append(g.read(a))
            labels |= g.labels
            nvla += g.nvla
            text = "\n".join(body)
            # jumps out of every block lead to a label placed after an inner block holding everything
            code.append("static int $Kf%d(int n, int m);\nstatic int $Kf%d(int n, int m) {\nint k = %d;\n{\n%s\n}\nout: o_i(k);\nreturn k;\n}" % (f, f, s.range(0, 3), text))
        for f in range(nf):
            for _ in range(2):
                main.append("$Kfuel = 3; o_i($Kf%d(%d, %d));" % (f, s.range(1, 4), s.range(1, 4)))
        if s.chance(20):
            c, m = stress(s, labels)
            code.append(c)
            main.append(m)
        text = "\n".join(code) + "\nvoid $Kmain(void) {\n    " + "\n    ".join(main) + "\n}\n"
        return pbt.Case(text, nvla >= 2, sorted(labels), {"code": text, "gcc_only": "back-over-declaration" in labels})    # clang itself does not release there


if __name__ == "__main__":
    sys.exit(pbt.main(C21()))
