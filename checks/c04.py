"""C04: pointers, arrays, structures, unions: random object graphs and access paths, differential against gcc."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck
from lib.ctg import *


class NoLv(Exception):
    pass


class G:
    def __init__(self, s):
        self.s = s
        self.tg = TypeGen(s, unions=False)
        self.objs = []       # (text, type)
        self.glob, self.loc, self.body = [], [], []
        self.kinds = set()
        self.nv = 0
        self.n = 0

    def fresh(self, p="v"):
        self.nv += 1
        return "$K%s%d" % (p, self.nv)

    def obj(self, t):
        s = self.s
        n = self.fresh()
        if s.draw(2):
            self.glob.append("static " + t.decl(n) + ";")
        else:
            self.loc.append(t.decl(n) + ";")
        self.objs.append((n, t))
        return n, t

    # a path from an lvalue text to a subobject; returns (text, type, containing array info or None)
    def step(self, e, t, depth):
        s = self.s
        arr = None
        while depth > 0:
            if isinstance(t, Arr):
                if s.chance(20):
                    break
                i = s.draw(t.n)
                arr = (e, t, i)
                e = self.index(e, t, i)
                t = t.el
            elif isinstance(t, Agg):
                if s.chance(15):
                    break
                ms = [m for m in t.members() if not isinstance(m[1], Pad)]
                n, ft, _ = s.choice(ms)
                if s.chance(25):
                    e = "(&%s)->%s" % (e, n)
                    self.kinds.add("(&x)->")
                else:
                    e = "%s.%s" % (e, n)
                arr = None
                t = ft
            else:
                break
            depth -= 1
        return e, t, arr

    def ix(self, i):
        """an expression with value i (0..3)"""
        s = self.s
        k = s.draw(6)
        if k < 2:
            return str(i)
        if k == 2:
            return "ix%d" % i
        if k == 3:
            return s.choice(["(unsigned char)%d", "%dul", "(short)%d", "(char)%d", "%dll"]) % i
        if k == 4:
            return "(ix3 - %d)" % (3 - i)
        return "$Kid(%d)" % i

    def index(self, e, t, i):
        s = self.s
        k = s.draw(9)
        x = self.ix(i)
        if k < 4:
            return "%s[%s]" % (e, x)
        if k == 4:
            self.kinds.add("*(a+i)")
            return "(*(%s + %s))" % (e, x)
        if k == 5:
            self.kinds.add("i[a]")
            return "%s[%s]" % (x if x.isalnum() else "(%s)" % x, e)
        if k == 6:
            self.kinds.add("(*&a)[i]")
            return "(*&%s)[%s]" % (e, x)
        if k == 7:
            self.kinds.add("*(i+a)")
            return "(*(%s + %s))" % (x, e)
        self.kinds.add("(&a[n]-k)")
        return "(*(&%s[%d] - %s))" % (e, t.n, "%d" % (t.n - i) if s.draw(2) else "(ix3 + %d)" % (t.n - i - 3))

    def lvalue(self, want=None):
        """random subobject; want: predicate on type"""
        s = self.s
        for _ in range(6):
            e, t = s.choice(self.objs)
            e, t, arr = self.step(e, t, s.range(1, 6))
            if want is None or want(t):
                return e, t, arr
            while not want(t):
                if isinstance(t, Arr):
                    arr = (e, t, 0)
                    e, t = "%s[0]" % e, t.el
                elif isinstance(t, Agg):
                    n, ft, _ = [m for m in t.members() if not isinstance(m[1], Pad)][0]
                    e, t, arr = "%s.%s" % (e, n), ft, None
                else:
                    break
            if want(t):
                return e, t, arr
        return None

    def need(self, want):
        x = self.lvalue(want)
        if x is None:
            raise NoLv
        return x

    def scalar_lv(self):
        return self.need(lambda t: isinstance(t, Sc))

    def stmt(self):
        try:
            return self.stmt1()
        except NoLv:
            return ";"

    def sval(self, t):
        """an expression assignable to scalar type t without undefined conversions"""
        s = self.s
        if s.chance(50):
            x = self.lvalue(lambda u: isinstance(u, Sc) and (not u.isf or t.isf))
            if x:
                e = x[0]
                if t.isf or s.chance(50):
                    return e
                return "(%s ^ %s)" % (e, value(s, Sc("int")))
        return value(s, t)

    def stmt1(self):
        s = self.s
        k = s.weighted([(8, "assign"), (6, "copy"), (8, "ptr"), (6, "parith"), (5, "pdiff"), (4, "pcmp"), (4, "walk"), (4, "p2agg"), (3, "p2p"), (3, "p2arr"), (3, "condagg"), (3, "complit"), (3, "fnptr"), (3, "str"), (2, "cast"), (2, "incmem"), (3, "union")])
        self.n += 1
        self.kinds.add(k)
        if k == "assign":
            e, t, _ = self.scalar_lv()
            op = "=" if t.isf or t.name == "_Bool" else s.choice(["=", "=", "^=", "|=", "&="])
            v = self.sval(t)
            return "%s %s %s;%s" % (e, op, v, out_stmt(t, e))
        if k == "incmem":
            x = self.lvalue(lambda u: isinstance(u, Sc) and not u.isf and u.name.startswith("unsigned"))
            if not x:
                return ";"
            return "o_i(%s);" % s.choice(["%s++", "++%s", "%s--", "--%s"]) % x[0]
        if k == "copy":
            x = self.lvalue(lambda u: isinstance(u, Agg))
            if not x:
                return ";"
            y = self.lvalue(lambda u: u is x[1])
            if not y:
                n, t = self.obj(x[1])
                y = (n, t, None)
                if s.chance(30):
                    return "%s = %s; %s = %s;" % (n, x[0], x[0], n)
            if s.chance(25):
                z = self.lvalue(lambda u: u is x[1])
                if z:
                    # assignment through possibly identical objects is well defined
                    return "%s = %s = %s;" % (x[0], y[0], z[0])
            ms = [m for m in x[1].members() if isinstance(m[1], Sc)]
            if ms and s.chance(30):
                m = s.choice(ms)
                return out_stmt(m[1], "(%s = %s).%s" % (x[0], y[0], m[0]))
            return "%s = %s;" % (x[0], y[0])
        if k == "ptr":
            e, t, _ = self.scalar_lv()
            p = self.fresh("p")
            q = s.choice(["", "", "const ", "volatile "])
            st = "%s = &%s; " % (Ptr(t, s.choice(["", "", "const"])).decl(p) if not q else q + Ptr(t).decl(p), e)
            if q != "const ":
                st += "*%s = %s; " % (p, self.sval(t))
            st += out_stmt(t, s.choice(["*%s", "%s[0]", "*&*%s", "(&%s[0])[0]"]) % p)
            return "{ %s }" % st
        if k in ("parith", "pdiff", "pcmp", "walk"):
            x = self.lvalue(lambda u: isinstance(u, Arr))
            if not x:
                return ";"
            e, t, _ = x
            p, q = self.fresh("p"), self.fresh("q")
            i, j = s.draw(t.n), s.draw(t.n)
            pt = Ptr(t.el)
            if k == "pdiff":
                return "{ %s = %s + %s; %s = &%s[%s]; o_i(%s - %s); o_i((%s - %s) * 10 + 1); o_x(_Generic(%s - %s, long: 1, default: 0)); }" % (
                    pt.decl(p), e, self.ix(i), pt.decl(q), e, self.ix(j), p, q, q, p, p, q)
            if k == "pcmp":
                return "{ %s = %s + %s; %s = &%s[%s]; o_x(%s %s %s); o_x(%s == %s); o_x(%s != %s + 0); o_x(!%s); o_x(%s && %s); }" % (
                    pt.decl(p), e, self.ix(i), pt.decl(q), e, self.ix(j), p, s.choice(["<", ">", "<=", ">="]), q, p, q, p, q, p, p, q)
            lv = list(leaves(t.el, "(*%s)" % p))
            l = s.choice(lv)
            if k == "walk":
                if s.draw(2):
                    return "for (%s = %s; %s < %s + %d; %s) { %s }" % (pt.decl(p), e, p, e, t.n, s.choice(["%s++", "++%s", "%s += 1", "%s = %s + 1" % (p, "%s")]) % p, out_stmt(l[1], l[0]))
                return "{ %s = &%s[%d]; while (%s-- > %s) { %s } }" % (pt.decl(p), e, t.n, p, e, out_stmt(l[1], l[0]))
            if t.n == 1:
                return ";"
            ops = []
            cur = i
            ops.append("%s = %s + %d;" % (pt.decl(p), e, i))
            for _ in range(s.range(1, 4)):
                nx = s.draw(t.n)
                dlt = nx - cur
                if dlt == 1 and s.draw(2):
                    ops.append("%s++;" % p if s.draw(2) else "++%s;" % p)
                elif dlt == -1 and s.draw(2):
                    ops.append("%s--;" % p if s.draw(2) else "--%s;" % p)
                elif dlt >= 0:
                    ops.append(s.choice(["%s += %s;", "%s -= -%s;", "{p} = {p} + {d};", "{p} = {d} + {p};"]).replace("{p}", p).replace("{d}", str(dlt)).replace("%s", p, 1).replace("%s", str(dlt), 1))
                else:
                    ops.append(s.choice(["%s -= %s;", "{p} = {p} - {d};", "%s += -%s;"]).replace("{p}", p).replace("{d}", str(-dlt)).replace("%s", p, 1).replace("%s", str(-dlt), 1))
                cur = nx
                ops.append(out_stmt(l[1], l[0]))
            if isinstance(t.el, Sc) and cur + 1 < t.n:
                ops.append(out_stmt(t.el, s.choice(["*%s++", "*++%s", "(*%s)"]) % p))
                ops.append("o_i(%s - %s);" % (p, e))
            return "{ %s }" % " ".join(ops)
        if k == "p2agg":
            x = self.lvalue(lambda u: isinstance(u, Agg))
            if not x:
                return ";"
            p = self.fresh("p")
            e, t, arr = self.step("(*%s)" % p, x[1], s.range(1, 4))
            e2 = e.replace("(*%s)." % p, "%s->" % p)
            while not isinstance(t, Sc):
                if isinstance(t, Arr):
                    e2, t = "%s[%d]" % (e2, t.n - 1), t.el
                else:
                    n, ft, _ = s.choice([m for m in t.members() if not isinstance(m[1], Pad)])
                    e2, t = "%s.%s" % (e2, n), ft
            return "{ %s = &%s; %s = %s; %s }" % (Ptr(x[1]).decl(p), x[0], e2, self.sval(t), out_stmt(t, e2))
        if k == "p2p":
            e, t, _ = self.scalar_lv()
            e2, t2, _ = self.need(lambda u: u is t or isinstance(u, Sc) and u.name == t.name)
            p, q = self.fresh("p"), self.fresh("q")
            return "{ %s = &%s; %s = &%s; %s *%s = &%s; %s **%s = &%s; o_x(%s == *%s); %s }" % (
                Ptr(t).decl(p), e, Ptr(Ptr(t)).decl(q), p, "void", p + "v", e, Ptr(Ptr(t)).to.to.decl(""), q + "r", p, p, q,
                "*%s = &%s; %s **%s = %s; %s" % (q, e2, out_stmt(t, "*" + p), q, self.sval(t), out_stmt(t, e2)))
        if k == "p2arr":
            x = self.lvalue(lambda u: isinstance(u, Arr))
            if not x:
                return ";"
            p = self.fresh("p")
            e, t, _ = self.step("(*%s)" % p, x[1], 5)
            while not isinstance(t, Sc):
                if isinstance(t, Arr):
                    e, t = "%s[0]" % e, t.el
                else:
                    n, ft, _ = [m for m in t.members() if not isinstance(m[1], Pad)][-1]
                    e, t = "%s.%s" % (e, n), ft
            return "{ %s = &%s; %s = %s; %s o_u(sizeof(*%s) / sizeof((*%s)[0])); o_x((void *) %s == (void *) *%s); }" % (
                Ptr(x[1]).decl(p), x[0], e, self.sval(t), out_stmt(t, e), p, p, p, p)
        if k == "condagg":
            x = self.lvalue(lambda u: isinstance(u, Agg))
            if not x:
                return ";"
            y = self.lvalue(lambda u: u is x[1]) or x
            ls = list(leaves(x[1], ""))
            l = s.choice(ls)
            return out_stmt(l[1], "(ix%d ? %s : %s)%s" % (s.draw(3), x[0], y[0], l[0]))
        if k == "complit":
            x = self.need(lambda u: isinstance(u, (Agg, Sc)))
            if isinstance(x[1], Agg):
                ls = [l for l in leaves(x[1], "")]
                l = s.choice(ls)
                return "%s = (%s){%s = %s};" % (x[0], x[1].decl(""), l[0], self.sval(l[1]))
            p = self.fresh("p")
            return "{ %s = (%s){%s, %s}; %s %s = %s[1]; }" % (Ptr(x[1]).decl(p), Arr(x[1], s.range(2, 3)).decl(""), value(s, x[1]), self.sval(x[1]), out_stmt(x[1], p + "[1]"), x[0], p)
        if k == "fnptr":
            f = self.fresh("fp")
            return "{ int (*%s)(int) = %s$Kid; int (*%sa[2])(int) = {$Kid, &$Kneg}; o_x(%s(3)); o_x((*%s)(4)); o_x(%sa[ix1](5)); o_x((**%sa[0])(6)); o_x(%s == %sa[0]); %s = %sa[1]; o_x(%s(7)); }" % (
                f, s.choice(["", "&", "*"]), f, f, f, f, f, f, f, f, f, f)
        if k == "str":
            p = self.fresh("p")
            lit = s.choice(['"hello"', '"a\\0b"', '"\\x41\\102c"', '"x" "yz"', '"\\xff\\n"'])
            return '{ const char *%s = %s; o_i(%s[ix1]); o_u(sizeof(%s)); char %sa[] = %s; o_u(sizeof %sa); o_i(%sa[ix2]); o_i(*(%s + 1)); o_i(%s[0]); }' % (p, lit, p, lit, p, lit, p, p, lit, lit)
        if k == "union":
            u = self.fresh("u")
            pool = [("i", "int m_i", "o_i", 4), ("l", "long m_l", "o_i", 8), ("d", "double m_d", "o_d", 8), ("f", "float m_f", "o_f", 4), ("c", "signed char m_c", "o_i", 1),
                    ("s[1]", "short m_s[4]", "o_i", 8), ("a[5]", "unsigned char m_a[8]", "o_i", 8), ("t.y", "struct { short x; int y; } m_t", "o_i", 8), ("u", "unsigned m_u", "o_i", 4)]
            ms = s.sample(pool, s.range(2, 5))
            tdef = "union { %s; }" % "; ".join(m[1] for m in ms)
            if s.draw(2):
                tdef = "struct { char pad; %s; }" % tdef
            st = "%s %s, *%sp = &%s; for (int i = 0; i < sizeof %s; i++) ((unsigned char *) %sp)[i] = i * 37 + %d; " % (tdef, u, u, u, u, u, s.draw(256))
            for _ in range(s.range(1, 3)):
                w = s.choice(ms)
                st += "%s%sm_%s = %s; " % (u, s.choice([".", "p->"]), w[0], s.choice(["5", "-1", "123", "-70000"]) if w[2] == "o_i" else s.choice(["1.5", "-2.0", "0.1"]))
                for m in ms:
                    st += "%s(%s%sm_%s); " % (m[2], u, s.choice([".", "p->"]), m[0])
            return "{ %s o_u(sizeof %s); }" % (st, u)
        # cast: byte access through char pointers, void* round trips
        e, t, _ = self.need(lambda u: isinstance(u, Sc) and not u.name == "long double")
        p = self.fresh("p")
        return "{ unsigned char *%s = (unsigned char *) &%s; o_m(%s, sizeof(%s)); void *%sv = %s; %s = %sv; %s o_x((unsigned long) %sv == (unsigned long) %s); }" % (
            p, e, p, e, p, p, Ptr(t).decl(p + "t"), p, out_stmt(t, "*%st" % p), p, p)


class C04(diffcheck.DiffCheck):
    id = "C04"
    rule = ("a case builds 2-5 objects of random nested array/structure types and performs 3-14 pointer and aggregate operations on random access paths, "
            "reporting every scalar leaf at the end; non-trivial: at least 4 operations of at least 3 kinds")
    quick = (600, 12)
    thorough = (15000, 12)
    assumptions = ["all objects are fully initialised before use", "out-of-bounds and cross-object pointer arithmetic is not generated"]

    def gen(self, s):
        g = G(s)
        for _ in range(s.range(2, 4)):
            k = s.draw(4)
            t = g.tg.agg(2) if k < 2 else Arr(g.tg.typ(2), s.range(1, 4)) if k == 2 else g.tg.typ(2)
            if s.chance(15):
                t = s.choice([g.tg.big_agg(), Arr(g.tg.big_agg(), s.range(2, 4))])
            g.obj(t)
            if s.chance(40):
                g.obj(t)
        st = [g.stmt() for _ in range(s.range(3, 14))]
        init, fin = [], []
        for n, t in g.objs:
            for p, lt, b in leaves(t, n):
                init.append("%s = %s;" % (p, value(s, lt)))
                fin.append(out_stmt(lt, p))
        code = ("static int $Kid(int x) { return x; }\nstatic int $Kneg(int x) { return -x; }\n" + "\n".join(g.tg.defs + g.glob) +
                "\nvoid $Kmain(void) {\n    int ix0 = 0, ix1 = 1, ix2 = 2, ix3 = 3;\n    " + "\n    ".join(g.loc + init + st + fin) + "\n}\n")
        return pbt.Case(code, g.n >= 4 and len(g.kinds) >= 3, sorted(g.kinds), {"code": code})


if __name__ == "__main__":
    sys.exit(pbt.main(C04()))
