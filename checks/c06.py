"""C06: sizes, alignments, member offsets and object placement, differential against gcc."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck
from lib.ctg import *
from lib.pbt import OK


class LG(TypeGen):
    """type generator with _Alignas members, flexible array members, pointers to everything, zero-length trickery left out"""
    def __init__(self, s):
        super().__init__(s, bitfields=True, ptrs=True, enums=True)
        self.kinds = set()

    def typ(self, d):
        s = self.s
        if s.chance(8):
            self.kinds.add("ptr")
            k = s.draw(4)
            if k == 0:
                return Ptr(Fn(self.scalar(), [self.scalar()]))
            if k == 1:
                return Ptr(Arr(self.scalar(), s.range(1, 5)))
            if k == 2:
                return Ptr(Ptr(Sc("void")))
            return Arr(Ptr(self.scalar()), s.range(1, 3))
        return super().typ(d)


class AAgg(Agg):
    """fields may carry an _Alignas prefix: stored in .aligns {name: text}; flexible last member"""
    aligns = {}
    flex = None

    def body(self):
        out = []
        for n, t, b in self.fields:
            if n is None and isinstance(t, Agg):
                out.append("%s;" % t.body())
            else:
                out.append("%s%s%s;" % (self.aligns.get(n, ""), t.decl(n or ""), " : %d" % b if b is not None else ""))
        if self.flex:
            out.append("%s %s[];" % self.flex)
        return "%s %s{ %s }" % (self.kind, self.tag + " " if self.tag else "", " ".join(out))


ALIGN = ["_Alignas(16) ", "_Alignas(8) ", "_Alignas(double) ", "_Alignas(4) ", "_Alignas(long double) ", "_Alignas(0) ", "_Alignas(int) ", "_Alignas(32) ", "_Alignas(64) ", "_Alignas(2) "]
AVAL = {"_Alignas(16) ": 16, "_Alignas(8) ": 8, "_Alignas(double) ": 8, "_Alignas(4) ": 4, "_Alignas(long double) ": 16, "_Alignas(0) ": 99, "_Alignas(int) ": 4, "_Alignas(32) ": 32, "_Alignas(64) ": 64, "_Alignas(2) ": 2}


def al(t):
    """alignment of a type (for choosing valid _Alignas specifiers only)"""
    if isinstance(t, Arr):
        return al(t.el)
    if isinstance(t, Agg):
        return 16
    if isinstance(t, Ptr):
        # the specifier is compared with the alignment of the base type of the declaration: known finding alignas-base
        b = t
        while not isinstance(b, (Sc, Agg)):
            b = b.to if isinstance(b, Ptr) else b.el if isinstance(b, Arr) else b.ret
        return 8 if isinstance(b, Sc) and b.name == "void" else max(8, al(b))
    if isinstance(t, En):
        return 4
    if t.isf:
        return {"float": 4, "double": 8, "long double": 16}[t.name]
    return BITS[t.name] // 8


def member_paths(t, path=""):
    """every member designator usable in offsetof (no bit-fields), with its type"""
    if isinstance(t, Agg):
        for n, ft, b in t.members():
            if b is not None:
                continue
            p = path + "." + n if path else n
            yield p, ft
            yield from member_paths(ft, p)
    elif isinstance(t, Arr):
        for i in {0, t.n - 1}:
            yield from member_paths(t.el, "%s[%d]" % (path, i))


class C06(diffcheck.DiffCheck):
    id = "C06"
    rule = ("a case defines 1-4 random (nested, anonymous, bit-field, _Alignas, flexible) types and reports sizeof, _Alignof, every member offset (in compiled code, in "
            "constant expressions and in gcc-compiled code) and the alignment of objects of the type in static, automatic and array storage; non-trivial: at least one aggregate with two members")
    quick = (900, 12)
    thorough = (12000, 12)
    assumptions = ["zero-width bit-fields wider than char are a known finding of C05 and not generated here"]
    prelude = diffcheck.DiffCheck.prelude + "#define OFF(t, m) ((unsigned long) &((t *) 0)->m)\n"

    def gen(self, s):
        g = LG(s)
        types = []
        for _ in range(s.range(1, 3)):
            if s.chance(75):
                t = self.agg(g, s)
            else:
                t = g.typ(2)
                if s.chance(30):
                    t = Arr(t, s.range(1, 4))
            types.append(t)
        body, host, glob = [], [], []
        for i, t in enumerate(types):
            glob.append("typedef %s;" % t.decl("$Kt%d" % i))
            T = "$Kt%d" % i
            body.append("o_u(sizeof(%s)); o_u(_Alignof(%s));" % (T, T))
            mp = list(member_paths(t)) if isinstance(t, Agg) else []
            if len(mp) > 24:
                mp = s.sample(mp, 24)
            hb = ["o_u(sizeof(%s)); o_u(_Alignof(%s));" % (T, T)]
            for p, ft in mp:
                body.append("o_u(OFF(%s, %s)); o_u(sizeof(((%s *) 0)->%s)); o_i((char *) &((%s *) 0)->%s - (char *) 0);" % (T, p, T, p, T, p))
            if mp:
                p, ft = s.choice(mp)
                # used as constants
                glob.append("static unsigned long $Ka%d = OFF(%s, %s) + 1; enum { $Ke%d = sizeof(%s) * 2 + _Alignof(%s) };" % (i, T, p, i, T, T))
                body.append("o_u($Ka%d); o_i($Ke%d);" % (i, i))
                glob.append("_Static_assert(sizeof(%s) %% _Alignof(%s) == 0, \"\");" % (T, T))
                # addresses of members as the other compiler sees them
                host.append("void $Kh%d(void *p, void **m) { %s *q = p; %s }" % (i, T, " ".join("o_x((void *) &q->%s == m[%d]);" % (pp, j) for j, (pp, _) in enumerate(mp))))
                body.append("{ static %s x; void *m[] = {%s}; $Kh%d(&x, m); }" % (T, ", ".join("&x.%s" % pp for pp, _ in mp), i))
                glob.append("void $Kh%d(void *, void **);" % i)
            if isinstance(t, AAgg) and t.flex:
                continue  # not as array element or member
            # placement of objects: in static storage, automatic (several, with odd neighbours), array elements, compound literals
            glob.append("static char $Kpad%d[%d]; %s $Kg%d; static char $Kpae%d[1]; static %s $Kl%d[2];" % (i, s.range(1, 3), T, i, i, T, i))
            body.append("$Kpad%d[0] = 1; $Kpae%d[0] = 2; o_x((unsigned long) &$Kg%d %% _Alignof(%s)); o_x((unsigned long) &$Kl%d[1] %% _Alignof(%s)); o_i((char *) &$Kl%d[1] - (char *) $Kl%d);" % (i, i, i, T, i, T, i, i))
            if any(x in d for d in g.defs for x in ("_Alignas(32)", "_Alignas(64)")):
                # automatic objects aligned beyond 16: known finding overaligned-auto
                continue
            body.append("{ char c1 = 1; %s a; char c2 = 2; %s b[2]; short c3; o_x((unsigned long) &a %% _Alignof(%s)); o_x((unsigned long) &b %% _Alignof(%s)); o_x((unsigned long) &b[1] %% _Alignof(%s)); o_u(sizeof b);"
                        " { char c4; %s d; static char c5; static %s e; o_x((unsigned long) &d %% _Alignof(%s)); o_x((unsigned long) &e %% _Alignof(%s)); } o_x(c1 + c2); }" % ((T,) * 9))
        # objects with their own alignment specifier
        for i in range(s.draw(3)):
            a = s.choice(ALIGN)
            if a == "_Alignas(0) ":
                continue
            sc = Sc(s.choice(["char", "int", "short", "long"]))
            if AVAL[a] < al(sc) or AVAL[a] > 16:
                continue
            g.kinds.add("alignas-object")
            glob.append("static char $Kx%d; static %s%s;" % (i, a, sc.decl("$Ky%d" % i)))
            body.append("{ char z; %s%s; char w; o_x((unsigned long) &$Ky%d %% %d); o_x((unsigned long) &v %% %d); o_u(sizeof v); }" % (a, sc.decl("v"), i, AVAL[a], AVAL[a]))
        code = "\n".join(g.defs + glob) + "\nvoid $Kmain(void) {\n    " + "\n    ".join(body) + "\n}\n"
        h = "\n".join(g.defs + [x for x in glob if x.startswith("typedef")] + host) + "\n" if host else None
        for d in g.defs:
            for k in ("_Alignas", " : ", "union", "[];", "enum"):
                if k in d:
                    g.kinds.add(k.strip())
        return pbt.Case(code, any(isinstance(t, Agg) and len(list(t.members())) > 1 for t in types), sorted(g.kinds), {"code": code, "host": h})

    def agg(self, g, s):
        t = g.agg(2)
        if s.chance(35):
            # rewrite the definition with alignment specifiers and possibly a flexible array member
            i = g.defs.index(t.define())
            a = AAgg(t.kind, t.tag, t.fields)
            a.aligns = {}
            for n, ft, b in t.fields:
                if n and b is None and s.chance(40):
                    x = s.choice(ALIGN)
                    if AVAL[x] >= al(ft):
                        a.aligns[n] = x
            if t.kind == "struct" and s.chance(40) and any(n for n, _, _ in t.fields):
                a.flex = (s.choice(["char", "int", "double", "long double", "short"]), "fl")
            g.defs[i] = a.define()
            g.aggs[g.aggs.index(t)] = a if not a.flex else g.aggs[0]
            if a.flex:
                g.aggs.remove(t) if t in g.aggs else None
            return a
        return t


if __name__ == "__main__":
    sys.exit(pbt.main(C06()))
