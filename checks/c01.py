#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck
from lib.cint import *

class Var:
    """an lvalue with a tracked value"""
    __slots__ = ("text", "type", "val", "id", "prec")
    def __init__(self, text, type, val, id, prec=P_PRIM):
        self.text, self.type, self.val, self.id, self.prec = text, type, val, id, prec

class G:
    def __init__(self, s, side=True):
        self.s = s
        self.vars = []
        self.enums = []
        self.funcs = []
        self.side = side
        self.ops = set()
        self.pre = []

    def add_vars(self):
        s = self.s
        decl_g, decl_l, init = [], [], []
        n = s.range(2, 7)
        # enumerations: one possibly signed, one unsigned
        ens = []
        for j in range(s.range(0, 2)):
            neg = s.draw(2)
            v0 = s.choice([-1, -5, -2147483648, -128]) if neg else s.choice([0, 1, 7, 255])
            v1 = s.choice([3, 100, 2147483647, 65535])
            decl_g.append("enum $Ken%d { $KE%d_0 = %s, $KE%d_1 = %d, $KE%d_2 = 1 };" % (
                j, j, "-2147483647-1" if v0 == -2147483648 else v0, j, v1, j))
            ens.append((IT("enum $Ken%d" % j, 32, bool(neg), 3), INT if neg else UINT, [v0, v1, 1], j))
            for k, v in enumerate((v0, v1, 1)):
                self.enums.append(("$KE%d_%d" % (j, k), v))
        for i in range(n):
            t = s.choice(ALL)
            name = t.name
            if ens and s.chance(12):
                et, under, vals, j = s.choice(ens)
                t, name = under, "enum $Ken%d" % j
                v = s.choice(vals)
            else:
                v = interesting(s, t)
                name = spell(s, t)
            lit = const_text(t, v)
            q = s.weighted([(8, ""), (1, "volatile ")])
            kind = s.weighted([(5, "local"), (2, "global"), (1, "static"), (1, "array"), (1, "struct"), (1, "ptr"), (1, "param")])
            if kind == "param":
                kind = "local"
            if kind == "local":
                decl_l.append("%s%s v%d = %s;" % (q, name, i, lit))
                self.vars.append(Var("v%d" % i, t, v, i))
            elif kind == "global":
                decl_g.append("%s%s $Kg%d = %s;" % (q, name, i, lit))
                self.vars.append(Var("$Kg%d" % i, t, v, i))
            elif kind == "static":
                decl_l.append("static %s%s v%d = %s;" % (q, name, i, lit))
                self.vars.append(Var("v%d" % i, t, v, i))
            elif kind == "array":
                decl_l.append("%s v%d[3]; v%d[%d] = %s;" % (name, i, i, i % 3, lit))
                self.vars.append(Var("v%d[%d]" % (i, i % 3), t, v, i, P_POST))
            elif kind == "struct":
                decl_l.append("struct { char pad; %s m; } v%d; v%d.m = %s;" % (name, i, i, lit))
                self.vars.append(Var("v%d.m" % i, t, v, i, P_POST))
            else:
                decl_l.append("%s w%d = %s; %s *v%d = &w%d;" % (name, i, lit, name, i, i))
                self.vars.append(Var("*v%d" % i, t, v, i, P_UN))
        self.decl_g, self.decl_l = decl_g, decl_l

    # ---- expressions. nr: variables that must not be read, nw: must not be written (unsequenced siblings)
    def leaf(self, nr):
        s = self.s
        cand = [v for v in self.vars if v.id not in nr]
        k = s.draw(10)
        if cand and k < 6:
            v = s.choice(cand)
            return E(v.text, v.type, v.val, v.prec, frozenset([v.id]))
        if k == 9 and self.enums:
            n, v = s.choice(self.enums)
            return E(n, INT, v, P_PRIM)
        if k == 8:
            t = s.choice(ALL)
            if s.draw(2):
                return E("(unsigned long)sizeof(%s)" % t.name, ULONG, t.bits // 8, P_CAST)
            c = s.choice([("'a'", 97), ("'\\0'", 0), ("'\\xff'", -1), ("'\\n'", 10), ("' '", 32), ("'\\177'", 127)])
            return E(c[0], INT, c[1], P_PRIM)
        txt, t, v = literal(s, abs(interesting(s, s.choice([INT, UINT, LONG, ULONG]))))
        return E(txt, t, v, P_PRIM)

    def expr(self, d, nr=frozenset(), nw=frozenset(), live=True):
        s = self.s
        if d <= 0 or s.chance(12):
            return self.leaf(nr)
        k = s.weighted([(30, "bin"), (8, "un"), (8, "cast"), (6, "logic"), (6, "cond"), (3, "comma"), (10, "assign"), (6, "incdec")])
        if k in ("assign", "incdec", "comma") and not self.side:
            k = "bin"
        if k == "bin":
            for _ in range(4):
                snap = [v.val for v in self.vars]
                op = s.choice(["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!="])
                a = self.expr(d - 1, nr, nw, live)
                if op in ("<<", ">>"):
                    t = promote(a.type)
                    n = s.choice([0, 1, t.bits - 1, t.bits // 2, s.draw(t.bits)])
                    if op == "<<" and t.signed:
                        if a.val < 0:
                            op = ">>"
                        else:
                            while n and not t.fits(a.val << n):
                                n = n // 2
                    c = [v for v in self.vars if v.val == n and v.id not in nr and v.id not in a.writes]
                    if c and s.draw(2):
                        v = s.choice(c)
                        b = E(v.text, v.type, v.val, v.prec, frozenset([v.id]))
                    else:
                        x = literal(s, n)
                        b = E(x[0], x[1], x[2], P_PRIM)
                else:
                    b = self.expr(d - 1, nr | a.writes, nw | a.reads | a.writes, live)
                    if op in ("==", "!=", "<", ">=") and s.chance(15) and not b.writes:
                        b = E(a.text, a.type, a.val, a.prec, a.reads, frozenset(), a.nops, a.convs) if not a.writes else b
                r = arith(op, a.val, b.val, a.type, b.type)
                if r is None:
                    for alt in ("-", "+", "^", "<"):
                        if op in ("<<", ">>"):
                            break
                        r = arith(alt, a.val, b.val, a.type, b.type)
                        if r is not None:
                            op = alt
                            break
                if r is not None:
                    break
                for v, x in zip(self.vars, snap):
                    v.val = x
            if r is None:
                return self.leaf(nr)
            self.ops.add(op)
            p = BINOPS[op]
            l, rr = par(s, a, p), par(s, b, p + 1)
            sp = s.choice([" ", " ", ""])
            if sp == "" and (rr[0] in "+-&*" or l[-1] in "+-"):
                sp = " "
            return E(l + sp + op + sp + rr, r[1], r[0], p, a.reads | b.reads, a.writes | b.writes,
                     a.nops + b.nops + 1, a.convs + b.convs + (a.type is not b.type) + (promote(a.type) is not a.type))
        if k == "un":
            a = self.expr(d - 1, nr, nw, live)
            op = s.choice(["-", "~", "!", "+"])
            t = promote(a.type)
            if op == "-":
                v = -a.val
                if t.signed and not t.fits(v):
                    op, v = "~", ~a.val
                v = t.conv(v)
            elif op == "~":
                v = t.conv(~a.val)
            elif op == "+":
                v = a.val
            else:
                v, t = int(not a.val), INT
            self.ops.add("u" + op)
            x = par(s, a, P_CAST)
            return E(op + (" " if x[0] in "+-&~!" else "") + x, t, v, P_UN, a.reads, a.writes, a.nops + 1, a.convs + (t is not a.type))
        if k == "cast":
            a = self.expr(d - 1, nr, nw, live)
            t = s.choice(ALL)
            self.ops.add("cast")
            return E("(%s)%s" % (spell(s, t), par(s, a, P_CAST)), t, t.conv(a.val), P_CAST, a.reads, a.writes, a.nops + 1, a.convs + 1)
        if k == "logic":
            op = s.choice(["&&", "||"])
            a = self.expr(d - 1, nr, nw, live)
            taken = (a.val != 0) == (op == "&&")
            b = self.guarded(d - 1, nr, nw, live and taken)
            v = int(bool(a.val) and bool(b.val)) if op == "&&" else int(bool(a.val) or bool(b.val))
            self.ops.add(op)
            p = BINOPS[op]
            return E("%s %s %s" % (par(s, a, p), op, par(s, b, p + 1)), INT, v, p, a.reads | b.reads, a.writes | b.writes, a.nops + b.nops + 1, a.convs + b.convs)
        if k == "cond":
            a = self.expr(d - 1, nr, nw, live)
            b = self.guarded(d - 1, nr, nw, live and a.val != 0)
            c = self.guarded(d - 1, nr, nw, live and a.val == 0)
            t = uac(b.type, c.type)
            self.ops.add("?:")
            return E("%s ? %s : %s" % (par(s, a, P_OR), par(s, b, P_COMMA), par(s, c, P_COND)), t, t.conv(b.val if a.val else c.val), P_COND,
                     a.reads | b.reads | c.reads, a.writes | b.writes | c.writes, a.nops + b.nops + c.nops + 1, a.convs + b.convs + c.convs + (b.type is not c.type))
        if k == "comma":
            a = self.expr(d - 1, nr, nw, live)
            b = self.expr(d - 1, nr, nw, live)
            self.ops.add(",")
            return E("%s, %s" % (par(s, a, P_COMMA), par(s, b, P_ASSIGN)), b.type, b.val, P_COMMA, a.reads | b.reads, a.writes | b.writes, a.nops + b.nops + 1, a.convs + b.convs)
        cand = [v for v in self.vars if v.id not in nw and v.id not in nr]
        if not cand:
            return self.leaf(nr)
        v = s.choice(cand)
        if k == "assign":
            op = s.choice(["", "+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"])
            ro = frozenset([v.id]) if True else frozenset()
            b = self.expr(d - 1, nr, nw | ro, live) if op not in ("<<", ">>") else None
            if op == "":
                nv = v.type.conv(b.val)
            else:
                if op in ("<<", ">>"):
                    t = promote(v.type)
                    n = s.choice([0, 1, s.draw(t.bits), t.bits - 1])
                    if op == "<<" and t.signed:
                        if v.val < 0:
                            op = ">>"
                        else:
                            while n and not t.fits(v.val << n):
                                n //= 2
                    x = literal(s, n)
                    b = E(x[0], x[1], x[2], P_PRIM)
                r = arith(op, v.val, b.val, v.type, b.type)
                # known finding C01-compound-signedness: '>>=' and '%=' take the signedness of the right operand
                if op == ">>" and b.type.signed != promote(v.type).signed or op == "%" and b.type.signed != uac(v.type, b.type).signed:
                    ct = promote(v.type) if op == ">>" else uac(v.type, b.type)
                    ct = ct if op == "%" else INT if ct.signed else UINT
                    b = E("(%s)%s" % (ct.name, par(s, b, P_CAST)), ct, ct.conv(b.val), P_CAST, b.reads, b.writes, b.nops, b.convs)
                if r is None:
                    for op in ("-", "+", "^", "&"):
                        r = arith(op, v.val, b.val, v.type, b.type)
                        if r is not None:
                            break
                if r is None:
                    return b
                nv = v.type.conv(r[0])
            if live:
                v.val = nv
            self.ops.add(op + "=")
            return E("%s %s= %s" % (v.text, op, par(s, b, P_ASSIGN)), v.type, nv, P_ASSIGN, b.reads | {v.id}, b.writes | {v.id}, b.nops + 1, b.convs + (b.type is not v.type))
        op = s.choice(["++", "--"])
        post = s.draw(2)
        r = arith(op[0], v.val, 1, v.type, INT)
        if r is None:
            op = "--" if op == "++" else "++"
            r = arith(op[0], v.val, 1, v.type, INT)
        if r is None:
            return self.leaf(nr)
        old, nv = v.val, v.type.conv(r[0])
        if live:
            v.val = nv
        self.ops.add("post" + op if post else "pre" + op)
        vt = v.text if v.prec >= (P_POST if post else P_UN) else "(%s)" % v.text
        return E(vt + op if post else op + vt, v.type, old if post else nv, P_POST if post else P_UN, frozenset([v.id]), frozenset([v.id]), 1, int(v.type is not INT))

    def guarded(self, d, nr, nw, live):
        if live:
            return self.expr(d, nr, nw, True)
        snap = [v.val for v in self.vars]
        e = self.expr(d, nr, nw, True)
        for v, x in zip(self.vars, snap):
            v.val = x
        return e

def const_text(t, v):
    if v < 0:
        if v == -(1 << 63):
            return "(-9223372036854775807LL - 1)"
        if v == -(1 << 31):
            return "(-2147483647 - 1)"
        return "(-%d%s)" % (-v, "LL" if v < -(1 << 31) else "")
    return "%d%s" % (v, "ULL" if v >= 1 << 63 else "LL" if v >= 1 << 31 else "")

class C01(diffcheck.DiffCheck):
    id = "C01"
    rule = ("a case is one function evaluating 1-6 value-tracked integer expressions over variables of random integer types; "
            "non-trivial: at least 3 operators and 2 implicit/explicit conversions that change the type")
    quick = (1500, 24)
    thorough = (12000, 24)
    assumptions = ["gcc 13 and the Python LP64 model agree on each kept case", "left shifts of negative values, signed overflow, division by zero are not generated"]

    def gen(self, s):
        g = G(s)
        g.add_vars()
        body, expect = [], []
        nops = convs = 0
        helper = []
        for i in range(s.range(1, 6)):
            e = g.expr(s.range(1, 4))
            nops += e.nops
            convs += e.convs
            m = 0xffffffffffffffff
            ctx = s.weighted([(10, "out"), (3, "if"), (2, "init"), (2, "ret"), (2, "switch"), (1, "while"), (1, "index")])
            if ctx == "out":
                body.append("o_u(%s);" % par(s, e, P_ASSIGN))
                expect.append("u%x" % (e.val & m))
            elif ctx == "if":
                body.append("if (%s) o_x(1); else o_x(0);" % e.text)
                expect.append("x%x" % int(e.val != 0))
            elif ctx == "init":
                t = s.choice(ALL)
                body.append("{ %s t = %s; o_i(t); }" % (t.name, par(s, e, P_ASSIGN)))
                expect.append("i%x" % (t.conv(e.val) & m))
            elif ctx == "ret":
                t, pt = s.choice(ALL), s.choice(ALL)
                helper.append("static %s $Kf%d(%s p) { return p; }" % (t.name, i, pt.name))
                body.append("o_i($Kf%d(%s));" % (i, par(s, e, P_ASSIGN)))
                expect.append("i%x" % (t.conv(pt.conv(e.val)) & m))
            elif ctx == "switch":
                t = promote(e.type)
                other = t.conv(e.val ^ (1 << s.draw(t.bits)))
                body.append("switch (%s) { case %s: o_x(2); break; case %s: o_x(1); break; default: o_x(0); }" % (e.text, const_text(t, other), const_text(t, e.val)))
                expect.append("x1")
            elif ctx == "while":
                body.append("while (%s) { o_x(1); break; }" % e.text)
                if e.val:
                    expect.append("x1")
            else:
                body.append("{ static const unsigned short tab[4] = {11, 222, 3333, 44444}; o_x(tab[(%s) & 3]); }" % e.text)
                expect.append("x%x" % [11, 222, 3333, 44444][e.val & 3])
        for v in g.vars:
            body.append("o_i(%s);" % v.text)
            expect.append("i%x" % (v.val & 0xffffffffffffffff))
        code = "\n".join(g.decl_g + helper) + "\nvoid $Kmain(void) {\n    " + "\n    ".join(g.decl_l + body) + "\n}\n"
        return pbt.Case(code, nops >= 3 and convs >= 2, ["op " + o for o in sorted(g.ops)], {"code": code, "expect": expect})

if __name__ == "__main__":
    sys.exit(pbt.main(C01()))
