"""C type trees, declarators and leaf enumeration shared by the generators."""

INTS = ["int", "char", "unsigned char", "short", "unsigned short", "unsigned int", "long", "unsigned long", "signed char", "long long", "unsigned long long", "_Bool"]
BITS = {"_Bool": 8, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
        "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}
SIGNED = {"char", "signed char", "short", "int", "long", "long long"}
FLTS = ["double", "float", "long double"]


class T:
    def is_scalar(self):
        return False


class Sc(T):
    def __init__(self, name):
        self.name = name

    def is_scalar(self):
        return True

    @property
    def isf(self):
        return self.name in FLTS

    def decl(self, d):
        return ("%s %s" % (self.name, d)).rstrip()

    def __repr__(self):
        return self.name


class En(Sc):
    """enumerated type; name is 'enum tag'"""
    isf = False


class Ptr(T):
    def __init__(self, to, q=""):
        self.to, self.q = to, q

    def is_scalar(self):
        return True
    isf = False

    def decl(self, d):
        d = "*" + (self.q + " " if self.q else "") + d
        if isinstance(self.to, (Arr, Fn)):
            d = "(%s)" % d
        return self.to.decl(d)

    def __repr__(self):
        return "%r*" % self.to


class Arr(T):
    def __init__(self, el, n):
        self.el, self.n = el, n

    def decl(self, d):
        return self.el.decl("%s[%s]" % (d, self.n))

    def __repr__(self):
        return "%r[%s]" % (self.el, self.n)


class Fn(T):
    def __init__(self, ret, params, va=False):
        self.ret, self.params, self.va = ret, params, va

    def decl(self, d):
        return self.ret.decl("%s(%s)" % (d, (", ".join(p.decl("") for p in self.params) + (", ..." if self.va else "")) or "void"))


class Agg(T):
    """fields: (name or None, type, bits or None)"""
    def __init__(self, kind, tag, fields):
        self.kind, self.tag, self.fields = kind, tag, fields

    def decl(self, d):
        return ("%s %s %s" % (self.kind, self.tag, d)).rstrip() if self.tag else ("%s %s" % (self.body(), d)).rstrip()

    def body(self):
        out = []
        for n, t, b in self.fields:
            if n is None and isinstance(t, Agg):
                out.append("%s;" % t.body())
            else:
                out.append("%s%s;" % (t.decl(n or ""), " : %d" % b if b is not None else ""))
        return "%s %s{ %s }" % (self.kind, self.tag + " " if self.tag else "", " ".join(out))

    def define(self):
        return self.body() + ";"

    def members(self):
        """named members including those of anonymous aggregates: (name, type, bits)"""
        for n, t, b in self.fields:
            if n is None:
                if isinstance(t, Agg):
                    yield from t.members()
            else:
                yield n, t, b

    def __repr__(self):
        return "%s %s" % (self.kind, self.tag)


class Pad(Arr):
    """filler bytes that make an object large; never accessed on its own"""


def leaves(t, path, all_union=False):
    """(access text, scalar type, bits) of every scalar leaf; of a union only the first named member unless all_union"""
    if isinstance(t, Pad):
        return
    if isinstance(t, Arr):
        for i in range(t.n):
            yield from leaves(t.el, "%s[%d]" % (path, i), all_union)
    elif isinstance(t, Agg):
        done = False
        for n, ft, b in t.fields:
            if n is None:
                if isinstance(ft, Agg):
                    yield from leaves(ft, path, all_union)
                    done = True
            else:
                if isinstance(ft, (Arr, Agg)):
                    yield from leaves(ft, "%s.%s" % (path, n), all_union)
                else:
                    yield "%s.%s" % (path, n), ft, b
                done = True
            if t.kind == "union" and done and not all_union:
                break
    else:
        yield path, t, None


def out_stmt(t, e):
    if isinstance(t, Sc) and t.isf:
        return {"float": "o_f(%s);", "double": "o_d(%s);", "long double": "o_ld(%s);"}[t.name] % e
    if isinstance(t, Ptr):
        return "o_x(!(%s));" % e
    return "o_i(%s);" % e


def value(s, t, bits=None):
    """text of a random constant for a scalar type"""
    if isinstance(t, Sc) and t.isf:
        v = s.choice(["0.0", "1.5", "-2.25", "100.0", "1e10", "-0.5", "3.0e-5", "12345.678"])
        return v + {"float": "f", "double": "", "long double": "l"}[t.name]
    if isinstance(t, Ptr):
        return "0"
    if t.name == "_Bool":
        return str(s.draw(2))
    if isinstance(t, En):
        return str(s.draw(4))
    w = bits or BITS[t.name]
    k = s.draw(4)
    v = s.draw(100) if k < 2 else s.draw(1 << min(w, 62)) if k == 2 else (1 << (w - 1)) - s.draw(2)
    sg = t.name in SIGNED
    v &= (1 << w) - 1
    if sg and v >> (w - 1):
        v -= 1 << w
    return num(v)


def num(v):
    if v == -2 ** 63:
        return "(-9223372036854775807l - 1)"
    if v < 0:
        return "(-%d%s)" % (-v, "l" if v <= -2 ** 31 else "")
    return "%d%s" % (v, "ul" if v >= 2 ** 63 else "l" if v >= 2 ** 31 else "")


def run_bits(fs):
    """extent in bits of the bit-field run at the end of fs, for the worst starting position within an 8-byte unit"""
    run = []
    for n, t, b in reversed(fs):
        if b is None:
            break
        run.insert(0, (BITS[t.name] if t.name != "_Bool" else 8, b))
    worst = 0
    for start in range(0, 64, 8):
        o = start
        for unit, b in run:
            if o % unit + b > unit:
                o += unit - o % unit
            o += b
        worst = max(worst, o - start if len(run) == 1 else (o + 7) // 8 * 8 - start)
    return worst


class TypeGen:
    def __init__(self, s, prefix="$K", ints=INTS, flts=FLTS, bitfields=False, ptrs=False, enums=False, unions=True, anon=True):
        self.s, self.prefix = s, prefix
        self.ints, self.flts, self.bitfields, self.ptrs, self.enums, self.unions, self.anon = ints, flts, bitfields, ptrs, enums, unions, anon
        self.max_run = 0     # longest run of bit-fields allowed, in bits (0: any)
        self.defs = []
        self.aggs = []
        self.enum_types = []
        self.n = 0

    def scalar(self):
        s = self.s
        k = s.draw(10)
        if k < 7 or not self.flts:
            if self.enums and k == 6:
                if not self.enum_types or s.chance(30):
                    self.n += 1
                    tag = "%se%d" % (self.prefix, self.n)
                    self.defs.append("enum %s { %s };" % (tag, ", ".join("%sE%d_%d = %d" % (self.prefix, self.n, i, i) for i in range(4))))
                    self.enum_types.append(En("enum " + tag))
                return s.choice(self.enum_types)
            return Sc(s.choice(self.ints))
        return Sc(s.choice(self.flts))

    def typ(self, d):
        s = self.s
        k = s.draw(10)
        if d <= 0 or k < 5:
            if self.ptrs and k == 0:
                return Ptr(self.scalar())
            return self.scalar()
        if k < 7:
            return Arr(self.typ(d - 1), s.range(1, 4))
        if self.aggs and k == 7:
            return s.choice(self.aggs)
        return self.agg(d - 1)

    def agg(self, d, kind=None, tag=True, maxf=5):
        s = self.s
        self.n += 1
        name = "%ss%d" % (self.prefix, self.n) if tag else ""
        kind = kind or ("union" if self.unions and s.chance(20) else "struct")
        me = self.n
        fs = []
        nf = s.range(1, maxf)
        for i in range(nf):
            fn = "m%d_%d" % (me, i)
            if self.bitfields and s.chance(35):
                bt = s.choice(["int", "unsigned int", "int", "unsigned int", "_Bool", "long", "unsigned long", "short", "unsigned char", "unsigned short", "char", "signed char", "long long"])
                w = 1 if bt == "_Bool" else s.range(1, BITS[bt])
                if self.max_run and kind == "struct" and run_bits(fs + [(fn, Sc(bt), w)]) > self.max_run:
                    w = None
                fs.append((fn, Sc(bt), w))
            elif self.anon and d > 0 and s.chance(10):
                fs.append((None, self.agg(d - 1, tag=False, maxf=3), None))
            else:
                fs.append((fn, self.typ(d), None))
        a = Agg(kind, name, fs)
        if tag:
            self.defs.append(a.define())
            self.aggs.append(a)
        return a

    SMALL = [("double", "double"), ("long", "long"), ("long", "double"), ("double", "int"), ("float", "float", "float"), ("float", "float"), ("char *", "int"),
             ("int", "int", "int"), ("char", "double"), ("float", "int", "double"), ("short", "char"), ("double",), ("long",), ("float",), ("char", "char", "char"),
             ("double", "float"), ("float", "float", "long"), ("long", "long", "char"), ("int", "float"), ("long double",), ("unsigned char", "long")]

    def small_agg(self):
        """a structure of at most three eightbytes with plain members: what decides register passing"""
        s = self.s
        fl = s.choice(self.SMALL)
        self.n += 1
        fs = []
        for i, n in enumerate(fl):
            t = Ptr(Sc(n[:-2])) if n.endswith(" *") else Sc(n)
            if len(fl) > 1 and i == len(fl) - 1 and fl[-1] == fl[-2] and s.chance(20):
                t = Arr(t, 1)
            fs.append(("m%d_%d" % (self.n, i), t, None))
        a = Agg("struct", "%ss%d" % (self.prefix, self.n), fs)
        self.defs.append(a.define())
        return a

    def big_agg(self, d=1):
        """a structure made large by filler members"""
        s = self.s
        self.n += 1
        me = self.n
        fs = []
        for i in range(s.range(1, 3)):
            if s.chance(60) or i == 0:
                fs.append(("f%d_%d" % (me, i), Pad(Sc(s.choice(["char", "char", "int", "long"])), s.choice([17, 32, 100, 128, 250, 300, 1000, 4100])), None))
            fs.append(("m%d_%d" % (me, i), self.typ(d), None))
        a = Agg("struct", "%ss%d" % (self.prefix, me), fs)
        self.defs.append(a.define())
        self.aggs.append(a)
        return a

    def boundary(self, n=None):
        """parameter types that leave few registers of one class and then pass values needing several"""
        s = self.s
        out = []
        cls = s.draw(3)
        for _ in range(s.range(3, 6)) if cls != 1 else ():
            out.append(s.choice([Sc("int"), Sc("long"), Ptr(Sc("char")), Sc("short"), Sc("_Bool")]))
        for _ in range(s.range(5, 8)) if cls != 0 else ():
            out.append(s.choice([Sc("double"), Sc("float"), Sc("double")]))
        if cls == 2 and s.draw(2):
            out = s.sample(out, len(out))
        for _ in range(s.range(1, 3)):
            out.append(self.small_agg())
            if s.draw(2):
                out.append(s.choice([Sc("long"), Sc("double"), Sc("int"), Sc("float"), Sc("long double")]))
        return out
