"""C19: token, AST and IR dumps are well-formed JSON and describe the program."""
import json, os, re, sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import cc, pbt, pplex, progs, unparse
from lib.pbt import OK, fail, discard
from checks import c14

KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union
unsigned void volatile while _Alignas _Alignof _Atomic _Bool _Complex _Generic _Imaginary _Noreturn _Static_assert _Thread_local""".split())


def strict(text):
    def pairs(p):
        d = {}
        for k, v in p:
            if k in d:
                raise ValueError("duplicate key %r" % k)
            d[k] = v
        return d

    def const(c):
        raise ValueError("not JSON: " + c)
    # known finding c-escapes-in-strings: the C escapes \a, \v and \? inside strings (existing tests assert them)
    text = re.sub(r'\\(.)', lambda m: {"a": "\\u0007", "v": "\\u000b", "?": "?"}.get(m.group(1), m.group(0)), text, flags=re.S)
    return json.loads(text, object_pairs_hook=pairs, parse_constant=const, parse_float=unparse.Num)


# --- values of literals, computed independently
def round_to(fr, bits, emin):
    """nearest-even rounding of a positive fraction to `bits` significant bits, exponents of the last place >= emin"""
    if fr == 0:
        return fr
    e = fr.numerator.bit_length() - fr.denominator.bit_length()
    if fr < Fraction(2) ** e:
        e -= 1
    q = max(e - bits + 1, emin)
    n = fr / Fraction(2) ** q
    r = n.numerator // n.denominator
    d = n - r
    if d > Fraction(1, 2) or d == Fraction(1, 2) and r & 1:
        r += 1
    return r * Fraction(2) ** q


FP = {"float": (24, -149), "double": (53, -1074), "long_double": (64, -16445)}


def number(t):
    """-> (type name, value)"""
    hexa = t[:2].lower() == "0x"
    if (not hexa and re.search(r"[.eE]", t)) or (hexa and re.search(r"[pP.]", t)):
        ty, body = "double", t
        if t[-1] in "fF":
            ty, body = "float", t[:-1]
        elif t[-1] in "lL":
            ty, body = "long_double", t[:-1]
        if hexa:
            m, e = re.split("[pP]", body[2:])
            i, _, f = m.partition(".")
            v = Fraction(int((i + f) or "0", 16)) * Fraction(2) ** (int(e) - 4 * len(f))
        else:
            m, e = (re.split("[eE]", body) + ["0"])[:2]
            i, _, f = m.partition(".")
            v = Fraction(int((i + f) or "0")) * Fraction(10) ** (int(e) - len(f))
        return ty, round_to(v, *FP[ty])
    m = re.match(r"(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)([uUlL]*)$", t)
    d, suf = m.group(1), m.group(2).lower()
    v = int(d, 16) if hexa else int(d, 8) if d[0] == "0" else int(d)
    u = "u" in suf
    l = suf.count("l")
    cand = []
    for rank in (0, 1, 2):
        if rank < l:
            continue
        if not u:
            cand.append((["integer", "long_integer", "long_long_integer"][rank], (1 << (31 if rank == 0 else 63)) - 1))
        if u or d[0] == "0":
            cand.append((["unsigned", "long_unsigned", "long_long_unsigned"][rank], (1 << (32 if rank == 0 else 64)) - 1))
    for ty, mx in cand:
        if v <= mx:
            return ty, v
    return None, v


def elements(body):
    """[(is_code_point, value)] of a literal's body"""
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            out.append((True, ord(c)))
            i += 1
            continue
        d = body[i + 1]
        if d in pplex._esc:
            out.append((True, pplex._esc[d]))
            i += 2
        elif d in "01234567":
            m = re.match(r"[0-7]{1,3}", body[i + 1:])
            out.append((False, int(m.group(), 8)))
            i += 1 + m.end()
        elif d == "x":
            m = re.match(r"[0-9a-fA-F]+", body[i + 2:])
            out.append((False, int(m.group(), 16)))
            i += 2 + m.end()
        else:
            n = 4 if d == "u" else 8
            out.append((True, int(body[i + 2:i + 2 + n], 16)))
            i += 2 + n
    return out


def encode(pre, els):
    out = []
    for cp, v in els:
        if not cp:
            out.append(v)
        elif pre in ("", "u8"):
            out += list(chr(v).encode("utf-8"))
        elif pre == "u" and v > 0xffff:
            out += [0xd800 + ((v - 0x10000) >> 10), 0xdc00 + ((v - 0x10000) & 0x3ff)]
        else:
            out.append(v)
    return out


STR = {"": "multibyte", "u8": "unicode8", "u": "unicode16", "U": "unicode32", "L": "wide"}
CHR = {"": "char", "u": "unicode16_char", "U": "unicode32_char", "L": "wide_char"}


def split(t, q):
    i = t.index(q)
    return t[:i], t[i + 1:-1]


def expected(text):
    """[(class, detail)] for comment-free text without directives"""
    out, run = [], []

    def flush():
        if run:
            pre = next((p for p, _ in run if p), "")
            out.append(("string_literal", (STR[pre], [x for _, b in run for x in encode(pre, elements(b))] + [0])))
            run.clear()
    for k, t in pplex.lex(text):
        if k == "str":
            run.append(split(t, '"'))
            continue
        flush()
        if k == "id":
            out.append(("keyword", t.lstrip("_").lower()) if t in KEYWORDS else ("identifier", t))
        elif k == "num":
            out.append(("constant", number(t)))
        elif k == "chr":
            pre, b = split(t, "'")
            els = elements(b)
            v = els[0][1] if len(els) == 1 and (pre or els[0][1] < 128 or not els[0][0]) else None
            if v is not None and not pre and v > 127:
                v -= 256
            if v is not None and pre == "L" and v > 0x7fffffff:
                v -= 1 << 32
            out.append(("constant", (CHR[pre], v)))
        elif k == "p":
            out.append(("punctuator", pplex.DIGRAPH.get(t, t)))
        else:
            return None
    flush()
    out.append(("sentinel", None))
    return out


def hexfloat(t):
    m = re.match(r"(-?)0x([0-9a-f]+)\.?([0-9a-f]*)p([+-]\d+)$", t)
    if not m:
        return t
    v = Fraction(int(m.group(2) + m.group(3), 16)) * Fraction(2) ** (int(m.group(4)) - 4 * len(m.group(3)))
    return -v if m.group(1) else v


def actual(dump):
    out = []
    for t in dump:
        c = t["class"]
        if t.get("preprocessor"):
            out.append(("pp", t))
        elif c == "keyword":
            out.append((c, t[c].lstrip("_").lower()))
        elif c == "identifier":
            out.append((c, t[c]))
        elif c == "punctuator":
            out.append((c, pplex.DIGRAPH.get(t[c], t[c])))
        elif c == "constant":
            v = t["value"]
            out.append((c, (t["type"], hexfloat(v) if isinstance(v, str) else v)))
        elif c == "string_literal":
            v = t["content"]
            v = list(v.encode("utf-8", "surrogateescape")) if isinstance(v, str) else v
            if len(v) != t["length"]:
                return "length of literal %r is not the number of its elements" % (t,)
            out.append((c, (t["type"], v)))
        else:
            out.append((c, None))
    return out


def same(e, a):
    if e[0] != a[0]:
        return False
    if e[0] == "constant":
        return (e[1][0] is None or e[1][0] == a[1][0]) and (e[1][1] is None or e[1][1] == a[1][1])
    return e[1] == a[1]


def declared(d):
    """name and kind of a declarator"""
    kind, first = "object", None
    while d is not None and "declarator" in d:
        inner = d["declarator"]
        first = d["class"]
        d = inner
    return d.get("identifier") if d else None, first


def ast_lists(ast):
    """names of function definitions (in order), of file-scope objects defined, of block-scope static objects"""
    fun, obj, loc = [], set(), []

    def storage(n):
        return [x["storage"] for x in n["specifiers"] if x.get("class") == "storage_class"]

    typedefs_fun = set()
    for n in ast["external_declarations"]:
        if n["class"] == "function_definition":
            fun.append(declared(n["declarator"])[0])
            walk(n["body"], loc, storage)
        elif n["class"] == "declaration":
            st = storage(n)
            for i in n.get("init_declarators", []):
                name, inner = declared(i["declarator"])
                if name is None or "typedef" in st:
                    continue
                if inner == "function":
                    continue
                if "extern" in st and i["initializer"] is None:
                    continue
                obj.add(name)
    return fun, obj, loc


def walk(n, loc, storage):
    if isinstance(n, list):
        for x in n:
            walk(x, loc, storage)
    elif isinstance(n, dict):
        if n.get("class") == "declaration" and "specifiers" in n and "static" in storage(n):
            for i in n.get("init_declarators", []):
                name, inner = declared(i["declarator"])
                if name not in (None, "__func__") and inner != "function":
                    loc.append(name)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, loc, storage)


TYPES = ["int", "char", "short", "long", "double", "float", "unsigned char", "long double", "const int", "volatile long", "_Bool"]


def decls(s, lab):
    """a unit of definitions and declarations with difficult names and literals"""
    L = []
    names = ["a", "b_1", "Z", "_x", "value", "int_", "f0", "longname_" + "x" * s.range(1, 60), "inf", "nan", "null", "true_", "class", "content", "name"]
    s.shuffle(names)
    objs = []
    for _ in range(s.range(1, 8)):
        if not names:
            break
        n = names.pop()
        ty = s.choice(TYPES)
        k = s.weighted([(3, "def"), (2, "tent"), (2, "static"), (2, "extern"), (2, "fun"), (2, "sfun"), (1, "proto"), (2, "str"), (1, "tls"), (1, "type"), (1, "extdef"), (1, "array"), (2, "flt"), (1, "multi")])
        lab.add("decl-" + k)
        lit = lambda: s.choice(["1", "0x7fffffff", "010", "'a'", "'\\''", "2.5", "1e-3", "'\"'", "0"])
        if k == "def":
            L.append("%s %s = %s;" % (ty, n, lit()))
        elif k == "tent":
            L.append("%s %s;" % (ty, n))
            if s.chance(40):
                L.append("%s %s;" % (ty, n))
            if s.chance(30):
                L.append("extern %s %s;" % (ty, n))
        elif k == "static":
            L.append("static %s %s%s;" % (ty, n, s.choice(["", " = 1"])))
        elif k == "extern":
            L.append("extern %s %s;" % (ty, n))
            objs.append(n)
        elif k == "extdef":
            L.append("extern %s %s;" % (ty, n))
            L.append("%s %s = 1;" % (ty, n))
        elif k == "proto":
            L.append("%s %s(%s);" % (ty, n, s.choice(["void", "int", "char *p, ...", ""])))
        elif k == "array":
            L.append("%s %s[%s] = {%s};" % (ty, n, s.choice(["", "5"]), ", ".join(lit() for _ in range(s.range(1, 4)))))
        elif k == "tls":
            L.append("%s_Thread_local int %s%s;" % (s.choice(["", "static "]), n, s.choice(["", " = 3"])))
        elif k == "type":
            L.append(s.choice(["typedef %s %s;" % (ty, n), "struct %s { int %s; };" % (n, n), "enum %s { E_%s = 3 };" % (n, n), "union %s;" % n]))
        elif k == "flt":
            L.append("%s %s = %s;" % (s.choice(["double", "float", "long double"]), n, s.choice([c14.flt_lit(s, lab), "1e-320", "1.0 / 0.0", "-1.0f / 0.0f", "0.0 / 0.0", "1e4000L", "1e300 * 1e300"])))
            lab.add("non-finite")
        elif k == "multi":
            L.append("int %s, *p_%s, q_%s[2] = {1, 2}, (*fp_%s)(int), fn_%s(void);" % (n, n, n, n, n))
        elif k == "str":
            pre, t = c14.str_lit(s, lab)
            et = {"": "char", "u8": "char", "L": "int", "u": "unsigned short", "U": "unsigned int"}[pre]
            lab.add("string")
            L.append(s.choice(["const %s *%s =\n%s;", "static const %s %s[] =\n%s;", "%s %s[] =\n%s;"]) % (et, n, t))
        else:
            st = "static " if k == "sfun" else ""
            body = []
            for i in range(s.range(0, 3)):
                w = s.draw(6)
                if w == 0:
                    lab.add("static-local")
                    body.append("static int %s%s; %s++;" % ("sl%d" % i, s.choice(["", " = 7"]), "sl%d" % i))
                elif w == 1:
                    lab.add("string")
                    body.append("{ const void *p =\n%s; (void) p; }" % c14.str_lit(s, lab)[1])
                elif w == 2:
                    body.append("{ double d = %s; (void) d; }" % s.choice([c14.flt_lit(s, lab), "1e300 * 1e300", "1e-310"]))
                elif w == 3:
                    body.append("{ int c = (int) %s; (void) c; }" % c14.chr_lit(s, lab))
                elif w == 4 and objs:
                    body.append("(void) %s;" % s.choice(objs))
                else:
                    body.append("{ unsigned long u = %s; (void) u; }" % c14.int_lit(s, lab))
            if s.chance(15):
                k2 = s.choice([30, 120])
                lab.add("deep")
                body.append("{ int z = 0; " + "{" * k2 + "z += 1;" + "}" * k2 + " z = " + "(" * k2 + "z" + ")" * k2 + "; }")
            L.append("%svoid %s(%s) { %s }" % (st, n, s.choice(["void", "int arg", "int x, ...", "char **v"]), "\n".join(body)))
    return "\n".join(L) + "\n"


class R:
    def __init__(self, r):
        self.rc, self.out, self.err = r.rc, r.out.decode("utf-8", "surrogateescape"), r.err.decode("utf-8", "replace")


def run(*a, **k):
    return R(cc.run(*a, **k))


class C19(pbt.Check):
    id = "C19"
    rule = ("a case is a program (from the generators of the other properties, or a unit of definitions with all literal forms, control characters, invalid UTF-8 and non-finite constants) whose token, AST and IR dumps, "
            "plain or detailed, are parsed strictly and compared with an independent lexer and with the symbol table of gcc's object; non-trivial: at least 3 external definitions or literals")
    quick = (320, 8)
    thorough = (30000, 8)
    assumptions = ["gcc -O0 emits every defined function and object into the symbol table", "kefir runs in a UTF-8 locale"]

    def setup(self):
        self.tc = cc.Toolchain()

    def gen(self, s):
        lab = set()
        if s.chance(60):
            text = decls(s, lab)
            lab.add("decls")
            nt = len(lab) > 4
        else:
            text, m = progs.program(s)
            lab.add("program-" + m)
            nt = True
        det = s.chance(35)
        if det:
            lab.add("detailed")
        return pbt.Case(text, nt, sorted(lab), {"text": text, "detailed": det})

    def run(self, cases, wd):
        return [self.judge(c, wd) for c in cases]

    def judge(self, c, wd):
        text = c.data["text"]
        with open(os.path.join(wd, "t.c"), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(text)
        g = run(["gcc", "-std=c17", "-w", "-O0", "-fno-builtin", "-fno-common", "-c", "-o", "t.o", "t.c"], cwd=wd)
        if g.rc != 0:
            return discard("gcc rejects: " + g.err[-200:])
        k = self.kefir(["-o", "t.s", "t.c"], wd)
        if k.rc != 0:
            return discard("kefir rejects the program")     # whether it should is the other properties' business
        d = {}
        for a in ("tokens", "ast", "ir"):
            r = self.kefir(["--dump-" + a] + (["--detailed-output"] if c.data["detailed"] else []) + ["t.c"], wd)
            if r.rc != 0:
                return fail("--dump-%s fails (status %d) on a program that is compiled: %s" % (a, r.rc, r.err[:300]))
            try:
                d[a] = strict(r.out)
            except (ValueError, RecursionError) as e:
                at = getattr(e, "pos", 0)
                return fail("--dump-%s is not a JSON document: %s near %r" % (a, e, r.out[max(0, at - 60):at + 20]))
        m = self.tokens(text, d["tokens"], wd) or self.lists(d, wd) or self.roundtrip(d["ast"], d["tokens"], wd)
        return fail(m) if m else OK

    def kefir(self, args, wd):
        return run([self.tc.kefir] + args, cwd=wd, cpu=30, env=cc.CLEAN_ENV)

    def probe_finding(self, e):
        r = run([self.tc.kefir, "--dump-tokens", os.path.join(pbt.VERIF, e["input"])], env=cc.CLEAN_ENV)
        if r.rc != 0:
            return False
        try:
            json.loads(r.out)
            return False
        except ValueError:
            strict(r.out)
            return True

    def tokens(self, text, dump, wd):
        t = progs.strip_comments(text.replace("\\\n", ""))
        if re.search(r"^[ \t]*(#|%:)", t, re.M):
            g = run(["gcc", "-E", "-P", "-std=c17", "-w", "t.c"], cwd=wd)
            if g.rc != 0:
                return None
            t = g.out
        exp = expected(t)
        if exp is None:
            return None
        act = actual(dump)
        if isinstance(act, str):
            return act
        for i in range(max(len(exp), len(act))):
            e = exp[i] if i < len(exp) else None
            a = act[i] if i < len(act) else None
            if e is None or a is None or not same(e, a):
                return "token %d of the dump is %s, the program has %s" % (i, str(a)[:300], str(e)[:300])
        return None

    def roundtrip(self, ast, tokens, wd):
        """the program written out from the AST dump compiles to the same code"""
        fl = [(t["type"], hexfloat(t["value"])) for t in tokens if t["class"] == "constant" and isinstance(t["value"], str)]
        unparse.floats([(ty, v) for ty, v in fl if not isinstance(v, str)])
        try:
            text = unparse.unit(ast)
        except unparse.Ambiguous:
            return None
        except (unparse.Unknown, KeyError) as e:
            return "the AST dump does not describe a program: %s" % e
        with open(os.path.join(wd, "u.c"), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(text)
        r = self.kefir(["-o", "u.s", "u.c"], wd)
        if r.rc != 0:
            return "the program written out from the AST dump is rejected: %s" % r.err[:600]
        a, b = (open(os.path.join(wd, n), "rb").read() for n in ("t.s", "u.s"))
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a.split(b"\n"), b.split(b"\n"))) if x != y), -1)
            return "the program written out from the AST dump compiles to different code at line %d: %r instead of %r" % (i + 1, b.split(b"\n")[i][:100], a.split(b"\n")[i][:100])
        return None

    def lists(self, d, wd):
        r = run(["nm", "t.o"], cwd=wd)
        fun, obj, und, ext, loc = set(), set(), set(), set(), []
        for l in r.out.splitlines():
            p = l.split()
            n, ty = p[-1], p[-2]
            if n.startswith(".L") or n.startswith("__func__") or n.startswith("__compound_literal") or n == "_TLS_MODULE_BASE_":
                continue
            if ty == "U":
                und.add(n)
                continue
            if ty in "tT":
                fun.add(n)
            elif "." in n:
                loc.append(n.split(".")[0])
                continue
            else:
                obj.add(n)
            if ty.isupper():
                ext.add(n)
        ir, ast = d["ir"], d["ast"]
        names = [f["name"] for f in ir["functions"]]
        if sorted(names) != sorted(fun):
            return "functions of the IR dump are %s, the program defines %s" % (sorted(names), sorted(fun))
        data = [x["identifier"] for x in ir["data"] if not x["identifier"].startswith("__kefirrt")]
        if sorted(data) != sorted(ext - fun):
            return "data of the IR dump is %s, the program defines the external objects %s" % (sorted(data), sorted(ext - fun))
        if set(ir["globals"]) != ext or len(ir["globals"]) != len(ext):
            return "globals of the IR dump are %s, the program defines %s" % (sorted(ir["globals"]), sorted(ext))
        und -= {"_GLOBAL_OFFSET_TABLE_", "__tls_get_addr", "memcpy", "memset", "__stack_chk_fail"}
        if und - set(ir["externals"]) or set(ir["externals"]) & ext:
            return "externals of the IR dump are %s, the program refers to %s" % (sorted(ir["externals"]), sorted(und))
        f2, o2, l2 = ast_lists(ast)
        if sorted(f2) != sorted(fun):
            return "function definitions of the AST dump are %s, the program defines %s" % (sorted(f2), sorted(fun))
        if o2 != obj:
            return "file-scope objects of the AST dump are %s, the program defines %s" % (sorted(o2), sorted(obj))
        if sorted(l2) != sorted(loc):
            # gcc gives constant const automatics static storage: ask it again without const
            g = run(["gcc", "-std=c17", "-w", "-O0", "-fno-builtin", "-fno-common", "-Dconst=", "-c", "-o", "n.o", "t.c"], cwd=wd)
            if g.rc != 0:
                return None
            loc = [l.split()[-1].split(".")[0] for l in run(["nm", "n.o"], cwd=wd).out.splitlines()
                   if "." in l.split()[-1].lstrip(".") and l.split()[-2] not in "tTU" and not re.match(r"\.L|__func__|__compound_literal|_TLS", l.split()[-1])]
        if sorted(l2) != sorted(loc):
            return "block-scope static objects of the AST dump are %s, the program defines %s" % (sorted(l2), sorted(loc))
        return None


if __name__ == "__main__":
    sys.exit(pbt.main(C19()))
