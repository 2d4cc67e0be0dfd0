"""C07: non-variadic calls between code under test and gcc-compiled code, in both directions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck
from lib.ctg import *


def set_leaves(s, t, path):
    return " ".join("%s = %s;" % (p, value(s, lt, b) if not isinstance(lt, Ptr) else "(void *) %s" % num(s.draw(1 << 40))) for p, lt, b in leaves(t, path))


def dump_leaves(t, path):
    return " ".join(out_stmt(lt, p) if not isinstance(lt, Ptr) else "o_u((unsigned long) %s);" % p for p, lt, b in leaves(t, path))


def elem(t):
    return elem(t.el) if isinstance(t, Arr) else t


def x87_union_inside(t, top=True):
    """a union of a long double and something else, with another aggregate inside or around it (known finding x87-union)"""
    if isinstance(t, Arr):
        return x87_union_inside(t.el, False)
    if not isinstance(t, Agg):
        return False
    if t.kind == "union" and (not top or any(isinstance(elem(ft), Agg) for _, ft, _ in t.fields)):
        ls = [lt for _, lt, _ in leaves(t, "", True)]
        if len(ls) > 1 and any(isinstance(x, Sc) and x.name == "long double" for x in ls):
            return True
    return any(x87_union_inside(ft, False) for _, ft, _ in t.fields)


def bits_and_floats(t):
    """bit-fields next to floating members, or unnamed bit-fields (known finding bit-field-eightbyte)"""
    ls = list(leaves(t, "", True))
    named = any(b is not None for _, _, b in ls)
    return named and any(lt.isf for _, lt, _ in ls) or unnamed_bits(t)


def unnamed_bits(t):
    if isinstance(t, Arr):
        return unnamed_bits(t.el)
    return isinstance(t, Agg) and any((n is None and b is not None) or unnamed_bits(ft) for n, ft, b in t.fields)


class Sig:
    def __init__(self, g, s, n):
        self.n = n
        self.params = []
        self.np = s.weighted([(2, 0), (3, 1), (4, 2), (4, 3), (4, 5), (4, 7), (4, 9), (3, 12), (1, 20)])
        bias = s.draw(4)
        if s.chance(30):
            self.params = g.boundary()
            self.np = len(self.params)
        else:
            for _ in range(self.np):
                self.params.append(self.ptype(g, s, bias))
        self.ret = None if s.chance(15) else self.ptype(g, s, 0)

    def ptype(self, g, s, bias):
        k = s.draw(10)
        if bias == 1:
            k = k // 2
        elif bias == 2:
            k = 5 + k // 2
        elif bias == 3 and k < 7:
            return g.scalar()
        if k < 4:
            return Sc(s.choice(g.ints))
        if k == 4:
            return Ptr(Sc(s.choice(["int", "char", "void"])))
        if k < 7:
            return Sc(s.choice(FLTS))
        t = s.choice(g.aggs) if g.aggs and s.chance(50) else g.agg(2, maxf=4)
        if x87_union_inside(t):
            return Sc("long double")
        return t if not bits_and_floats(t) else Sc("long")


class C07(diffcheck.DiffCheck):
    id = "C07"
    rule = ("a case defines 1-3 random signatures (0-20 parameters: integers, pointers, all floating types, structures and unions of random content), implements and calls each on both sides "
            "(code under test and gcc -O2), reports every scalar leaf of arguments and results, callee-saved state, stack alignment at entry; non-trivial: at least three parameters or an aggregate")
    quick = (900, 8)
    thorough = (12000, 8)
    host_opts = ("-O2",)
    assumptions = ["the upper half of a register carrying int may hold anything, as the ABI allows; narrower arguments arrive extended to 32 bits, as gcc and clang pass them"]

    def gen(self, s):
        g = TypeGen(s, bitfields=s.chance(20), ptrs=True, enums=True, anon=True)
        sigs = [Sig(g, s, i) for i in range(s.range(1, 3))]
        code, host, main = [], [], []
        kinds = set()
        for sg in sigs:
            i = sg.n
            pd = ", ".join(t.decl("a%d" % k) for k, t in enumerate(sg.params)) or "void"
            rd = sg.ret if sg.ret else Sc("void")
            P = Fn(rd, sg.params)
            # garbage mode: the gcc side sees long where the signature has int
            garbage = s.chance(30) and any(isinstance(t, Sc) and t.name in ("int", "unsigned int") for t in sg.params + [rd])

            def hide(t):
                return Sc("long") if garbage and isinstance(t, Sc) and t.name in ("int", "unsigned int") else t
            hp = [hide(t) for t in sg.params]
            hr = hide(rd)
            if garbage:
                kinds.add("garbage")
            for t in sg.params + [rd]:
                kinds.add("agg" if isinstance(t, Agg) else "ptr" if isinstance(t, Ptr) else "enum" if isinstance(t, En) else t.name)
            align = "o_x((unsigned long) __builtin_frame_address(0) % 16);"

            def dump_params(hosted):
                o = []
                for k, t in enumerate(sg.params):
                    e = "a%d" % k
                    if hosted and hp[k] is not t:
                        o.append("o_i((%s) a%d);" % (t.name, k))
                    else:
                        o.append(dump_leaves(t, e))
                return " ".join(o)

            def result(hosted):
                if rd.decl("") == "void":
                    return ""
                init = "%s; %s" % (rd.decl("r"), set_leaves(s, rd, "r"))
                if hosted and hr is not rd:
                    return "%s return (unsigned int) r | %dL << 32;" % (init, s.draw(1 << 31))
                if isinstance(rd, Sc) and not isinstance(rd, En) and s.chance(30):
                    # value returned through a conversion
                    same = [k for k, t in enumerate(sg.params) if isinstance(t, Sc) and not t.isf and not isinstance(t, En)]
                    if same and not rd.isf and rd.name != "_Bool":
                        k = s.choice(same)
                        return "return a%d;" % k if not (hosted and hp[k] is not sg.params[k]) else "return (%s) a%d;" % (sg.params[k].name, k)
                return init + " return r;"
            code.append("%s;" % P.decl("$Khf%d" % i))
            code.append("%s { dirty_stack(3); %s %s }" % (rd.decl("$Kkf%d(%s)" % (i, pd)), dump_params(False), result(False)))
            host.append("%s;" % Fn(hr, hp).decl("$Kkf%d" % i))
            hpd = ", ".join(t.decl("a%d" % k) for k, t in enumerate(hp)) or "void"
            host.append("%s { %s %s %s }" % (hr.decl("$Khf%d(%s)" % (i, hpd)), align, dump_params(True), result(True)))

            def call(fn, hosted, via):
                pre, args = [], []
                for k, t in enumerate(sg.params):
                    v = "v%d" % k
                    if hosted and hp[k] is not t:
                        args.append("(long) ((unsigned) %s | 0x%xUL << 32)" % (value(s, t), s.draw(1 << 31)))
                        continue
                    c = s.draw(6)
                    if isinstance(t, Sc) and not isinstance(t, En) and c == 0 and not hosted:
                        args.append(value(s, t) if t.isf or t.name == "_Bool" else value(s, Sc("int")) if t.name in ("long", "int", "long long") else value(s, t))
                        continue
                    if isinstance(t, Ptr) and c == 0:
                        args.append("0")
                        continue
                    pre.append("%s; %s" % (t.decl(v), set_leaves(s, t, v)))
                    if isinstance(t, Agg) and c == 1 and not hosted:
                        args.append("*&" + v)
                    elif isinstance(t, Agg) and c == 2 and not hosted:
                        args.append("(one ? %s : %s)" % (v, v))
                    else:
                        args.append(v)
                f = fn
                if via == 1:
                    pre.append("%s = %s;" % (Ptr(Fn(hr if hosted else rd, hp if hosted else sg.params)).decl("fp"), fn))
                    f = s.choice(["fp", "(*fp)", "(**fp)"])
                e = "%s(%s)" % (f, ", ".join(args))
                if rd.decl("") == "void":
                    return "%s %s;" % (" ".join(pre), e)
                if hosted and hr is not rd:
                    return "%s o_i((%s) %s);" % (" ".join(pre), rd.name, e)
                if isinstance(rd, Agg):
                    ls = list(leaves(rd, ""))
                    if s.draw(2):
                        return "%s %s = %s; %s" % (" ".join(pre), rd.decl("r"), e, dump_leaves(rd, "r"))
                    kinds.add("ret-member")
                    l = s.choice(ls)
                    if not l[0].startswith("["):
                        x = e + l[0]
                        return "%s %s" % (" ".join(pre), "o_u((unsigned long) %s);" % x if isinstance(l[1], Ptr) else out_stmt(l[1], x))
                if isinstance(rd, Ptr):
                    return "%s o_u((unsigned long) %s);" % (" ".join(pre), e)
                c = s.draw(3)
                if c == 0:
                    return "%s %s = %s; %s" % (" ".join(pre), rd.decl("r"), e, dump_leaves(rd, "r"))
                if c == 1 and not rd.isf and not isinstance(rd, En):
                    return "%s o_i(1 + (long) %s);" % (" ".join(pre), e)
                return "%s %s" % (" ".join(pre), out_stmt(rd, e))
            code.append("static void $Kc%d(void) { int one = 1; %s }" % (i, call("$Khf%d" % i, False, s.draw(2))))
            if s.chance(30):
                kinds.add("nested")
                code.append("static void $Kn%d(void) { int one = 1; %s }" % (i, call("$Kkf%d" % i, False, s.draw(2))))
                main.append("$Kn%d();" % i)
            host.append("void $Khc%d(void) { %s }" % (i, call("$Kkf%d" % i, True, s.draw(2))))
            code.append("void $Khc%d(void);" % i)
            main.append("o_preserved($Kc%d);" % i)
            main.append("$Khc%d();" % i)
            if s.chance(50):
                main.append("o_preserved($Khc%d);" % i)
        text = "\n".join(g.defs + code) + "\nvoid $Kmain(void) {\n    " + "\n    ".join(main) + "\n}\n"
        h = "\n".join(g.defs + host) + "\n"
        nt = any(len(sg.params) >= 3 or any(isinstance(t, Agg) for t in sg.params + [sg.ret]) for sg in sigs)
        return pbt.Case(text + "/* gcc part */\n" + h, nt, sorted(kinds), {"code": text, "host": h})


if __name__ == "__main__":
    sys.exit(pbt.main(C07()))
