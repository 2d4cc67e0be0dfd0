"""C10: automatic objects and compound literals start with the value C17 prescribes, evaluated where control reaches the declaration."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck
from lib.ctg import *
from lib.initgen import InitGen
from checks.c09 import IT, Static, report, mangle, helpers, all_pointees


class Auto(Static):
    """run-time initialisers: parameters, calls, aggregates copied whole, next to the constant ones"""
    def __init__(self, s, g, aggvars):
        super().__init__(s, g)
        self.agg_override = False   # known finding aggregate-override
        self.scalar_expr = self.dyn
        self.aggvars = aggvars
        self.agg_expr = self.aggregate
        self.calls = 0

    def blocked(self, chain, m):
        if super().blocked(chain, m):
            return True
        # known finding aggregate-override: an anonymous aggregate initialised again
        return m[0] is None and any(p == m[3] or p.startswith((m[3] + ".", m[3] + "[")) for p in self.done)

    def dyn(self, t, bits=None):
        s = self.s
        if isinstance(t, Ptr) or isinstance(t, En) or s.chance(40):
            return self.const(t, bits)
        w = bits or BITS.get(t.name, 64)
        k = s.draw(6)
        if t.name == "_Bool":
            return s.choice(["p", "q", "p > 2", "$Kt(2)", "!q"])
        if t.isf:
            return s.choice(["p", "q", "d", "d * 2", "p + 0.5", "f", "-d", "(float) d"])
        self.kinds.add("runtime")
        if k == 0:
            self.calls += 1
            self.kinds.add("call")
            return "$Kt(%d)" % s.range(0, 60)
        if k == 1 and w >= 8:
            return s.choice(["(char) p", "(unsigned char) q", "p & 127", "q % 100"])
        if k == 2 and w >= 32:
            return s.choice(["d", "f", "p * 3", "q << 2", "p - q"]) if not t.name.startswith("unsigned") else s.choice(["p * 3", "q << 2", "p - q"])
        if k == 3:
            return s.choice(["p", "q", "-p", "~q", "p + q"]) if not (t.name in SIGNED and w < 8) else "p & 1"
        return s.choice(["p", "q", "p + 1", "(q, p)"]) if w > 8 else "p & 1"

    def aggregate(self, t):
        c = [n for n, vt in self.aggvars if vt is t]
        if not c:
            return None
        n = self.s.choice(c)
        return self.s.choice([n, "(%s)" % n, "*&%s" % n, "p ? %s : %s" % (n, self.s.choice(c)), "(q, %s)" % n])


class C10(diffcheck.DiffCheck):
    id = "C10"
    rule = ("a case runs 1-3 automatic initialisations (block-scope objects, compound literals, loop bodies, reached by jumps over other code) on a stack dirtied beforehand and "
            "reports every prescribed leaf; non-trivial: an object with at least two leaves")
    quick = (1200, 10)
    thorough = (12000, 10)

    def gen(self, s):
        g = IT(s)
        g.max_run = 0
        glob, pre, body, kinds, nl = [], [], [], set(), 0
        aggvars = []
        # source objects for whole-aggregate initialisers
        for i in range(s.draw(3)):
            t = g.agg(2)
            all_pointees(t, g.pointees)
            st = Static(s, g)
            IT_run = g.max_run
            pre.append("%s = %s;" % (t.decl("v%d" % i), "{0}" if run_too_long(t) else st.braced(t, "v%d" % i)))
            aggvars.append(("v%d" % i, t))
        for i in range(s.range(1, 3)):
            if aggvars and s.chance(35):
                t = s.choice(aggvars)[1]
            else:
                t = g.typ(2) if s.chance(25) else g.agg(2)
            unk = False
            if s.chance(30):
                t = Arr(t, s.range(1, 4) if s.draw(2) else "")
                unk = t.n == ""
            elif s.chance(4):
                t = Arr(t, s.range(20, 100))
            all_pointees(t, g.pointees)
            name = "x%d" % i
            ig = Auto(s, g, aggvars)
            where = s.weighted([(5, "block"), (3, "literal"), (2, "loop"), (2, "goto"), (2, "literal-value"), (1, "for"), (1, "argument"), (1, "register")])
            if where in ("argument", "literal-value") and not isinstance(t, Agg):
                where = "literal"
            txt = ig.init(t, name, top=where not in ("block", "register", "for"))
            lv = list(ig.leaves(t, name, "@"))
            if len(lv) > 60:
                touched = {d.replace(name, "@", 1) for d in ig.done}
                lv = [x for x in lv if x[0] in touched][:40] + s.sample([x for x in lv if x[0] not in touched], 20)
            if ig.calls > 1:
                # calls in one list are indeterminately sequenced: the counter may not be observed in between, only its effects (t is pure)
                kinds.add("calls")
            kinds |= ig.kinds
            kinds.add(where)
            nl = max(nl, len(lv))
            cv = s.choice(["", "", "", "const ", "volatile "])
            el = t
            while isinstance(el, Arr):
                el = el.el
            if isinstance(el, Ptr):
                cv = ""
            dt = Arr(t.el, "") if unk else t
            btxt = txt if txt.startswith("{") else "{%s}" % txt
            lit = "(%s)%s" % (dt.decl(""), btxt)

            def rep(acc):
                return " ".join(report(lt, la.replace("@", acc, 1), lb) for la, lt, lb in lv)
            if where in ("block", "register"):
                if where == "register":
                    cv = "register " + cv
                    if any("[" in la for la, _, _ in lv) or isinstance(t, Arr):
                        cv = "auto "
                body.append("{ %s%s = %s; %s }" % (cv, dt.decl(name), txt, rep(name)))
            elif where == "literal":
                body.append("{ %s = &%s; %s }" % (Ptr(dt).decl(name), lit, rep("(*%s)" % name)))
            elif where == "literal-value":
                body.append("{ %s; %s = %s; %s }" % (t.decl(name), name, lit, rep(name)))
            elif where == "argument":
                glob.append("static void $Kg%d(%s) { %s }" % (i, t.decl(name), rep(name)))
                body.append("$Kg%d(%s);" % (i, lit))
            elif where == "loop":
                # every entry to the block initialises anew
                ch = [x for x in lv if not isinstance(x[1], Ptr)]
                mod = "%s = 1;" % s.choice(ch)[0].replace("@", name, 1) if ch else ""
                body.append("for (int k%d = 0; k%d < 2; k%d++, p += 3) { %s = %s; %s %s }" % (i, i, i, dt.decl(name), txt, rep(name), mod))
            elif where == "goto":
                body.append("{ int n%d = 0; again%d: ; %s%s = %s; %s if (n%d++ < 1) { q += 2; goto again%d; } }" % (i, i, "", dt.decl(name), txt, rep(name), i, i))
            else:
                body.append("for (%s = %s; ; ) { %s break; }" % (dt.decl(name), txt, rep(name)))
        code = "\n".join(g.defs + helpers(g)) + "\nstatic int $Kt(int x) { return x; }\n"
        code += "\n".join(glob)
        code += "\nstatic void $Krun(int p, unsigned q, double d, float f) {\n    %s\n}\n" % "\n    ".join(pre + body)
        code += "void $Kmain(void) {\n    dirty_stack(7); $Krun(%d, %du, %s, %s);\n    dirty_stack(7); $Krun(0, 1u, 0.5, 2.0f);\n}\n" % (
            s.range(1, 60), s.range(0, 60), s.choice(["1.5", "20.25", "0.75"]), s.choice(["2.5f", "9.0f"]))
        return pbt.Case(code, nl >= 2, sorted(kinds), {"code": code})


def run_too_long(t):
    return False


if __name__ == "__main__":
    sys.exit(pbt.main(C10()))
