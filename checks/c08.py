"""C08: variadic calls and va_list traversal, between code under test and gcc-compiled code, in both directions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck
from lib.ctg import *
from checks.c07 import set_leaves, dump_leaves, x87_union_inside, bits_and_floats

PROMOTED = ["int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"]
NARROW = {"int": ["int", "char", "short", "signed char", "unsigned char", "unsigned short", "_Bool"], "double": ["double", "float"]}


class C08(diffcheck.DiffCheck):
    id = "C08"
    rule = ("a case defines a variadic signature (1-9 named parameters, 0-16 variable arguments of promoted integer, pointer, floating, structure and union types), implements it on both sides, "
            "reads the arguments with va_arg, in part through va_copy, a second pass or a helper on the other side that receives the va_list; non-trivial: at least two variable arguments")
    quick = (700, 8)
    thorough = (12000, 8)
    host_opts = ("-O2",)

    def gen(self, s):
        g = TypeGen(s, bitfields=False, ptrs=True, enums=False, anon=True)
        code, host, main, kinds = [], [], [], set()
        n_va = 0
        for i in range(s.range(1, 2)):
            bias = s.draw(4)
            named = [self.ptype(g, s, bias) for _ in range(s.weighted([(4, 1), (2, 2), (2, 4), (2, 6), (1, 9)]))]
            var = [self.vtype(g, s, bias) for _ in range(s.weighted([(1, 0), (3, 1), (4, 2), (4, 4), (4, 7), (3, 10), (1, 16)]))]
            if s.chance(30):
                # variable arguments around the point where registers run out
                bp = g.boundary()
                cut = s.range(1, len(bp) - 1)
                promoted = {"short": "int", "_Bool": "int", "float": "double", "char": "int"}
                named, var = bp[:cut], [Sc(promoted[t.name]) if isinstance(t, Sc) and t.name in promoted else t for t in bp[cut:]]
                if isinstance(named[-1], Sc) and named[-1].name in promoted:
                    named[-1] = Sc(promoted[named[-1].name])
            n_va = max(n_va, len(var))
            ret = s.choice([Sc("int"), Sc("double"), Sc("void"), Sc("long double")] + [t for t in named + var if isinstance(t, Agg)][:2])
            for t in var:
                kinds.add("agg" if isinstance(t, Agg) else "ptr" if isinstance(t, Ptr) else t.name)
            pd = ", ".join(t.decl("a%d" % k) for k, t in enumerate(named)) + ", ..."
            last = "a%d" % (len(named) - 1)

            def read(ap, t, k):
                """read one argument and report it"""
                if isinstance(t, Agg):
                    return "{ %s = __builtin_va_arg(%s, %s); %s }" % (t.decl("t"), ap, t.decl(""), dump_leaves(t, "t"))
                e = "__builtin_va_arg(%s, %s)" % (ap, t.decl(""))
                if isinstance(t, Ptr):
                    return "o_u((unsigned long) %s);" % e
                if k == 0:
                    return out_stmt(t, e)
                return "{ %s = %s; %s }" % (t.decl("t"), e, out_stmt(t, "t"))

            def body(hosted):
                o = ["" if hosted else "dirty_stack(3);"]
                o += [dump_leaves(t, "a%d" % k) for k, t in enumerate(named)]
                o.append("__builtin_va_list ap; __builtin_va_start(ap, %s);" % last)
                mode = s.draw(6)
                cut = s.draw(len(var) + 1)
                rd = [read("ap", t, s.draw(2)) for t in var]
                if mode == 1 and var:
                    kinds.add("va_copy")
                    o += rd[:cut] + ["__builtin_va_list aq; __builtin_va_copy(aq, ap);"] + [read("aq", t, 1) for t in var[cut:]] + ["__builtin_va_end(aq);"] + rd[cut:]
                elif mode == 2 and var:
                    kinds.add("restart")
                    o += rd[:cut] + ["__builtin_va_end(ap); __builtin_va_start(ap, %s);" % last] + rd
                elif mode == 3 and var:
                    kinds.add("va_list to other side")
                    h = "$K%sv%d" % ("k" if hosted else "h", i)
                    # gcc hands over to code under test and vice versa
                    tgt, own = (code, host) if hosted else (host, code)
                    tgt.append("void %s(__builtin_va_list ap) { %s }" % (h, " ".join(read("ap", t, 1) for t in var[cut:])))
                    own.append("void %s(__builtin_va_list);" % h)
                    o += rd[:cut] + ["%s(ap);" % h]
                elif mode == 4 and var:
                    kinds.add("va_list to same side")
                    h = "$K%sw%d" % ("h" if hosted else "k", i)
                    own = host if hosted else code
                    own.append("static void %s(%s__builtin_va_list ap) { %s }" % (h, "int q, " if s.draw(2) else "", " ".join(read("ap", t, 1) for t in var[cut:])))
                    q = "1, " if "int q" in own[-1] else ""
                    o += rd[:cut] + ["%s(%sap);" % (h, q)]
                    if s.draw(2):
                        c2 = s.draw(2)
                        o += ["__builtin_va_end(ap); __builtin_va_start(ap, %s);" % last] + rd[:cut] + ["%s(%sap);" % (h, q)] * 1
                elif mode == 5 and var:
                    kinds.add("loop")
                    t = var[0]
                    m = 1
                    while m < len(var) and var[m] is t or m < len(var) and isinstance(t, Sc) and isinstance(var[m], Sc) and var[m].name == t.name:
                        m += 1
                    o += ["for (int q = 0; q < %d; q++) { %s }" % (m, read("ap", t, 1))] + rd[m:]
                else:
                    o += rd
                o.append("__builtin_va_end(ap);")
                if ret.decl("") != "void":
                    o.append("%s; %s return r;" % (ret.decl("r"), set_leaves(s, ret, "r")))
                return " ".join(o)
            kb = body(False)
            hb = body(True)
            P = Fn(ret, named, True)
            code.append("%s;" % P.decl("$Khf%d" % i))
            code.append("%s { %s }" % (ret.decl("$Kkf%d(%s)" % (i, pd)), kb))
            host.append("%s;" % P.decl("$Kkf%d" % i))
            host.append("%s { o_x((unsigned long) __builtin_frame_address(0) %% 16); %s }" % (ret.decl("$Khf%d(%s)" % (i, pd)), hb))

            def call(fn):
                pre, args = [], []
                for k, t in enumerate(named + var):
                    v = "v%d" % k
                    if k >= len(named) and isinstance(t, Sc) and t.name in NARROW:
                        t = Sc(s.choice(NARROW[t.name]))
                        if s.draw(3) == 0 and t.name in ("int", "double"):
                            args.append(value(s, t))
                            continue
                    pre.append("%s; %s" % (t.decl(v), set_leaves(s, t, v)))
                    args.append(v)
                f = fn
                if s.draw(3) == 0:
                    pre.append("%s = %s;" % (Ptr(P).decl("fp"), fn))
                    f = s.choice(["fp", "(*fp)"])
                e = "%s(%s)" % (f, ", ".join(args))
                if ret.decl("") == "void":
                    return " ".join(pre) + " " + e + ";"
                return "%s %s = %s; %s" % (" ".join(pre), ret.decl("r"), e, dump_leaves(ret, "r"))
            code.append("static void $Kc%d(void) { %s }" % (i, call("$Khf%d" % i)))
            code.append("static void $Kn%d(void) { %s }" % (i, call("$Kkf%d" % i)))
            host.append("void $Khc%d(void) { %s }" % (i, call("$Kkf%d" % i)))
            code.append("void $Khc%d(void);" % i)
            main += ["o_preserved($Kc%d);" % i, "$Khc%d();" % i]
            if s.draw(2):
                main.append("$Kn%d();" % i)
            if s.draw(2):
                main.append("o_preserved($Khc%d);" % i)
        text = "\n".join(g.defs + code) + "\nvoid $Kmain(void) {\n    " + "\n    ".join(main) + "\n}\n"
        h = "\n".join(g.defs + host) + "\n"
        return pbt.Case(text + "/* gcc part */\n" + h, n_va >= 2, sorted(kinds), {"code": text, "host": h})

    def agg(self, g, s):
        t = s.choice(g.aggs) if g.aggs and s.chance(50) else g.agg(2, maxf=4)
        return Sc("long double") if x87_union_inside(t) else Sc("long") if bits_and_floats(t) else t

    def ptype(self, g, s, bias):
        k = s.draw(12)
        if bias == 1:
            k //= 2
        if bias == 2:
            k = 6 + k // 2
        if k < 4:
            return Sc(s.choice(g.ints))
        if k < 6:
            return Ptr(Sc(s.choice(["int", "char", "void"])))
        if k < 10:
            return Sc(s.choice(FLTS))
        return self.agg(g, s)

    def vtype(self, g, s, bias):
        k = s.draw(12)
        if bias == 1:
            k //= 2
        if bias == 2:
            k = 6 + k // 2
        if k < 4:
            return Sc(s.choice(PROMOTED))
        if k < 5:
            return Ptr(Sc(s.choice(["int", "char", "void"])))
        if k < 9:
            return Sc(s.choice(["double", "double", "long double"]))
        return self.agg(g, s)


if __name__ == "__main__":
    sys.exit(pbt.main(C08()))
