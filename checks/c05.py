"""C05: bit-fields: random structures and update histories, differential against gcc, objects exchanged with gcc-compiled code."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck
from lib.ctg import *

BT = ["int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char", "_Bool", "long long", "unsigned long long"]


class G:
    def __init__(self, s):
        self.s = s
        self.defs = []
        self.kinds = set()
        self.n = 0
        self.nt = 0
        self.big = False

    def width(self, bt):
        s = self.s
        if bt == "_Bool":
            return 1
        B = BITS[bt]
        k = s.draw(10)
        if k < 5:
            return s.range(1, min(B, 9))
        if k < 9:
            return s.range(1, B)
        return B

    def fields(self, kind, depth, nb):
        s = self.s
        BT, INTS = (globals()["BT"], globals()["INTS"]) if not nb else ([t for t in globals()["BT"] if t != "_Bool"], [t for t in globals()["INTS"] if t != "_Bool"])
        fs = []
        me = self.nt
        big = self.nt == 1 and s.chance(8)
        if big:
            depth = 0
            self.big = True
        for i in range(s.range(1, 8) if not big else s.range(9, 45)):
            k = s.draw(20)
            n = "f%d_%d" % (me, i)
            if k < 13:
                bt = s.choice(BT)
                fs.append((n, Sc(bt), self.width(bt)))
            elif k == 13:
                bt = s.choice(["int", "unsigned int", "char", "short", "long", "unsigned long"])
                if s.draw(2):
                    fs.append((None, Sc(bt), self.width(bt)))
                else:
                    # wider zero-width bit-fields in structures: known finding zero-width
                    fs.append((None, Sc(bt if kind == "union" else s.choice(["char", "signed char", "unsigned char"])), 0))
                self.kinds.add("unnamed")
            elif k < 17:
                fs.append((n, Sc(s.choice(INTS)), None))
            elif k == 17:
                fs.append((n, Arr(Sc(s.choice(["char", "short", "int"])), s.range(1, 3)), None))
            elif depth > 0 and k == 18:
                fs.append((n, self.agg(depth - 1, nb=nb), None))
            elif depth > 0:
                fs.append((None, self.agg(depth - 1, tag=False, nb=nb), None))
                self.kinds.add("anon")
            else:
                fs.append((n, Sc("double"), None))
        if not any(b for n, _, b in fs if n):
            bt = s.choice(BT)
            fs.append(("f%d_z" % me, Sc(bt), self.width(bt)))
        return fs

    def agg(self, depth, tag=True, nb=False):
        s = self.s
        self.nt += 1
        name = "$Ks%d" % self.nt if tag else ""
        kind = "union" if s.chance(12) else "struct"
        if kind == "union":
            self.kinds.add("union")
        a = Agg(kind, name, None)
        # a _Bool sharing storage with other members could be read with a trap representation
        a.fields = self.fields(kind, depth, nb or kind == "union")
        if tag:
            self.defs.append(a.define())
        return a


def all_leaves(t, p):
    return list(leaves(t, p, True))


class C05(diffcheck.DiffCheck):
    id = "C05"
    rule = ("a case defines 1-3 structures/unions mixing bit-fields of random types and widths with other members and applies 4-24 updates to them "
            "in code under test and in gcc-compiled code, reporting all members after the steps; non-trivial: at least two bit-fields and four updates")
    quick = (900, 12)
    thorough = (12000, 12)
    assumptions = ["padding bits are not compared", "bit-fields of plain int are signed, as the platform compiler makes them"]

    def gen(self, s):
        g = G(s)
        t = g.agg(2)
        objs = []
        decl = []
        n = 1 if g.big else s.range(1, 2)
        for i in range(n):
            k = s.draw(4)
            nm = "$Ko%d" % i
            if k == 0 and not g.big:
                ty = Arr(t, s.range(1, 3))
            else:
                ty = t
            if s.draw(2):
                decl.append((True, "static " + ty.decl(nm) + ";"))
            else:
                decl.append((False, ty.decl(nm) + ";"))
            objs.append((nm, ty))
        L = []
        for nm, ty in objs:
            L += all_leaves(ty, nm)
        bl = [l for l in L if l[2] is not None and l[1].name != "double"]
        nbf = len({l[0].split(".", 1)[1] for l in bl})
        body = []
        sz = "".join("fill(&%s, sizeof(%s), %d);" % (nm, nm, s.choice([0, 255, 0x5a, s.draw(256)])) for nm, _ in objs)
        # give _Bool members and doubles defined values
        for p, lt, b in L:
            if lt.name in ("_Bool", "double", "float", "long double"):
                body.append("%s = 0;" % p)
        unions = any(d.find("union") >= 0 for d in g.defs)

        def dump(last=False):
            if not last and len(L) > 40:
                return ""
            # members of unions share storage: reading a _Bool over other bits is undefined, so those are skipped
            return " ".join(out_stmt(lt, p) for p, lt, b in L if not (unions and (lt.name == "_Bool" or lt.isf)))
        nup = s.range(4, 16)
        for _ in range(nup):
            p, lt, b = s.choice(bl) if s.chance(85) or not L else s.choice(L)
            k = s.weighted([(8, "="), (4, "opeq"), (3, "incdec"), (2, "ptr"), (2, "copy"), (2, "cross"), (2, "expr"), (1, "cond"), (1, "dump")])
            if lt.isf:
                k = "="
            g.kinds.add(k)
            bits = b if b is not None else (BITS[lt.name] if not lt.isf else 0)
            v = value(s, lt, b)
            if not lt.isf and lt.name != "_Bool" and s.chance(35):
                v = num(s.draw(1 << 62) - (1 << 61))
            if k == "=":
                if s.draw(2) and not lt.isf:
                    body.append("o_i(%s = %s);" % (p, v))
                else:
                    body.append("%s = %s;" % (p, v))
            elif k == "opeq":
                if lt.name == "_Bool":
                    body.append("%s %s %d;" % (p, s.choice(["|=", "&=", "^="]), s.draw(2)))
                else:
                    op = s.choice(["+=", "-=", "*=", "|=", "&=", "^=", "<<=", ">>=", "/=", "%="])
                    if op in ("<<=", ">>="):
                        r = str(s.draw(min(bits, 31)))
                        if op == "<<=":
                            r = str(s.draw(min(max(1, 31 - bits), 8))) if bits < 31 else "0"
                    elif op in ("/=", "%="):
                        r = str(s.range(1, 9))
                    else:
                        r = str(s.draw(100) - 30) if bits <= 24 else "%dl" % (s.draw(1 << 30) - (1 << 29))
                        if bits <= 32 and op in ("+=", "-=", "*="):
                            r = "%dl" % (s.draw(1 << 20))
                    if op in (">>=", "/=", "%=") and lt.name not in SIGNED and bits >= 32:
                        r = "%sul" % r
                    st = "%s %s %s" % (p, op, r)
                    body.append("o_i(%s);" % st if s.draw(2) else st + ";")
            elif k == "incdec":
                if lt.name == "_Bool":
                    body.append("o_i(%s++);" % p)
                else:
                    body.append(s.choice(["%s++;", "++%s;", "%s--;", "--%s;", "o_i(%s++);", "o_i(++%s);", "o_i(%s--);", "o_i(--%s);"]) % p)
            elif k == "ptr":
                o, rest = p.split(".", 1)
                body.append("{ %s = &%s; pp->%s = %s; o_i(pp->%s); }" % (Ptr(t).decl("pp"), o, rest, v, rest))
            elif k == "copy":
                o, rest = p.split(".", 1)
                body.append("{ %s = %s; %s = %s; tt.%s = %s; o_i(tt.%s); o_i(%s); %s }" % (t.decl("tt"), o, p, value(s, lt, b), rest, v, rest, p, "%s = tt;" % o if s.draw(2) else ""))
            elif k == "cross":
                p2, lt2, b2 = s.choice(bl)
                body.append("%s = %s;" % (p, p2))
            elif k == "expr":
                p2, lt2, b2 = s.choice(bl)
                body.append("o_i((long) %s * 3 + (int) %s - (unsigned char) %s); o_x(!%s); o_x(%s && %s);" % (p, p2, p, p, p, p2))
            elif k == "cond":
                p2, lt2, b2 = s.choice(bl)
                body.append("if (%s) %s = %s; else %s = 1; o_x((long) %s > (long) %s);" % (p, p2, value(s, lt2, b2), p2, p, p2))
            else:
                body.append(dump())
            if s.chance(30):
                body.append(dump())
        # exchange with the other compiler
        host = ""
        hcalls = ""
        if s.draw(2):
            hb = []
            for _ in range(s.range(1, 6)):
                p, lt, b = s.choice(all_leaves(t, "$Q"))
                if not lt.isf:
                    hb.append("%s = %s;" % (p.replace("$Q.", "p->"), value(s, lt, b)))
            hd = " ".join(out_stmt(lt, p.replace("$Q.", "p->")) for p, lt, b in all_leaves(t, "$Q") if not (unions and (lt.name == "_Bool" or lt.isf)))
            host = "\n".join(g.defs) + "\nvoid $Khost(%s) { %s %s }\n" % (Ptr(t).decl("p"), hd, " ".join(hb))
            for nm, ty in objs:
                hcalls += "$Khost(%s%s); " % ("" if isinstance(ty, Arr) else "&", nm)
            g.kinds.add("host")
            body.insert(s.draw(len(body) + 1), hcalls)
            body.append(hcalls)
        code = ("\n".join(g.defs) + "\n" + ("void $Khost(%s);\n" % Ptr(t).decl("") if host else "") + "\n".join(d for gl, d in decl if gl) +
                "\nvoid $Kmain(void) {\n    " + "\n    ".join([d for gl, d in decl if not gl] + [sz] + body + [dump(True)]) + "\n}\n")
        return pbt.Case(code + ("/* gcc part */\n" + host if host else ""), nbf >= 2 and nup >= 4, sorted(g.kinds), {"code": code, "host": host or None})

    prelude = diffcheck.DiffCheck.prelude + "static void fill(void *p, unsigned long n, int c) { for (unsigned long i = 0; i < n; i++) ((unsigned char *) p)[i] = c; }\n"


if __name__ == "__main__":
    sys.exit(pbt.main(C05()))
