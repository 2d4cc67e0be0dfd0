"""C14: tokens and literals: values, types and boundaries, differential against gcc with clang as second opinion."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import cc, pbt, diffcheck, pplex
from lib.pbt import OK

INT_T = "_Generic((%s), int: 1, unsigned int: 2, long: 3, unsigned long: 4, long long: 5, unsigned long long: 6, default: 7)"
FLT_T = "_Generic((%s), float: 1, double: 2, long double: 3, default: 7)"
EDGE = [0, 1, 7, 8, 9, 10, 255, 2**15, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1]
USUF = ["u", "U"]
LSUF = ["l", "L", "ll", "LL"]
NAMES = ["int_", "iff", "_Bool1", "elsee", "L", "u8", "u", "U", "LL", "e1", "x1p2", "_", "__x", "do_", "dofor", "A9", "sizeof1", "returns", "f", "static0", "ifelse", "_Generi", "u8x", "p2", "goto_", "inlin"]
UNI = ["\u00e9", "\u00df", "\u03bb", "\u4e2d", "\uffee", "\U0001f600", "\U00010348", "\u0416"]
ESC = ["\\n", "\\t", "\\a", "\\b", "\\f", "\\r", "\\v", "\\\\", "\\'", "\\\"", "\\?"]


def int_lit(s, lab):
    v = s.choice(EDGE) + s.choice([0, 0, 1, -1]) if s.chance(70) else s.draw(1 << s.range(1, 64))
    v = max(0, min(v, 2**64 - 1))
    base = s.weighted([(4, "d"), (4, "x"), (3, "o")])
    un = s.chance(40)
    suf = ([s.choice(USUF)] if un else []) + ([s.choice(LSUF)] if s.chance(50) else [])
    s.shuffle(suf)
    if base == "d" and not un:
        v = min(v, 2**63 - 1)
    t = {"d": "%d" % v, "o": "0%s%o" % ("0" * s.draw(3), v) if v else s.choice(["0", "00", "000"]), "x": s.choice(["0x", "0X"]) + "0" * s.draw(2) + "%x" % v}[base]
    if base == "x":
        t = t[:2] + "".join(c.upper() if s.chance(50) else c for c in t[2:])
    lab.add("int-" + base)
    return t + "".join(suf)


def near_midpoint(s, suf):
    """decimal spelling of a value at, just above or just below the middle between two neighbouring values of the type"""
    bits = 24 if suf in ("f", "F") else 64 if suf in ("l", "L") else 53
    m = (1 << (bits - 1)) | s.draw(1 << min(bits - 1, 20)) | (s.draw(1 << 20) << (bits - 21))
    e = s.range(-40, 20)
    num, k = (2 * m + 1), e - bits      # (2m + 1) * 2^k
    if k >= 0:
        digits, frac = str(num << k), ""
    else:
        n = str(num * 5 ** -k).rjust(-k + 1, "0")     # times 10^k
        digits, frac = n[:k], n[k:]
    w = s.draw(3)
    if w == 1:
        frac += "0" * s.range(0, 8) + "1"
    elif w == 2:
        x = str(int(digits + frac) - 1).rjust(len(digits + frac), "0")
        digits, frac = x[:len(digits)], x[len(digits):] + "9" * s.range(1, 8)
    return digits + "." + frac


def flt_lit(s, lab):
    suf = s.weighted([(4, ""), (3, s.choice("fF")), (2, s.choice("lL"))])
    if s.chance(40):
        n = s.range(1, 20)
        d = "".join(s.choice("0123456789abcdefABCDEF") for _ in range(n))
        k = s.draw(n + 1)
        m = d[:k] + ("." if s.chance(80) or k < n else "") + (d[k:] if k < n else "")
        if m in (".", ""):
            m = "1."
        e = s.range(-150, 60) if suf in ("f", "F") else s.range(-1080, 900)
        if s.chance(60):
            e = s.range(-10, 10)
        lab.add("hexfloat")
        return "0" + s.choice("xX") + m + s.choice("pP") + s.choice(["", "+"] if e >= 0 else [""]) + str(e) + suf
    if s.chance(20):
        lab.add("near-midpoint")
        return near_midpoint(s, suf) + suf
    n = s.range(1, 25)
    d = "".join(s.choice("0123456789") for _ in range(n))
    k = s.draw(n + 1)
    m = d[:k] + "." + d[k:] if s.chance(80) else d
    if s.chance(50) or "." not in m:
        e = s.range(-50, 12) if suf in ("f", "F") else s.range(-330, 280)
        if s.chance(50):
            e = s.range(-6, 6)
        m += s.choice("eE") + s.choice(["", "+"] if e >= 0 else [""]) + str(e)
    lab.add("float")
    return m + suf


def piece(s, pre, lab, q):
    """one character of a literal"""
    k = s.weighted([(6, "plain"), (3, "esc"), (2, "oct"), (2, "hex"), (2, "uni"), (1, "ucn")])
    if k == "plain":
        c = s.choice([chr(c) for c in range(32, 127) if chr(c) not in "\\?" + q])
        return c
    if k == "esc":
        return s.choice(ESC)
    if k == "oct":
        lab.add("octal-escape")
        return "\\" + s.choice(["0", "1", "12", "377", "101", "07", "008"[:2], "200"])
    if k == "hex":
        lab.add("hex-escape")
        return "\\x" + s.choice({"": ["0", "1", "7f", "80", "ff", "0041"], "u8": ["1", "41", "ff"], "u": ["ffff", "0", "ff", "d7f"], "U": ["ffffffff", "41", "10ffff"], "L": ["7fffffff", "ff", "1234"]}[pre])
    if k == "uni":
        lab.add("non-ascii")
        return s.choice(UNI)
    lab.add("ucn")
    return s.choice(["\\u00e9", "\\u0401", "\\u4e2d", "\\U0001f600", "\\U000000b5", "\\u00A7"])


def chr_lit(s, lab):
    pre = s.weighted([(5, ""), (2, "L"), (2, "u"), (2, "U")])
    lab.add("char" + pre)
    while True:
        c = piece(s, pre, lab, "'")
        if pre == "" and (ord(c[0]) > 127 or c[:2] in ("\\u", "\\U")):
            c = "\\%03o" % s.range(0, 255)
        if pre == "u" and (ord(c[0]) > 0xffff or c[:2] == "\\U"):
            c = "x"
        break
    if pre == "" and not c[1:2].isdigit() and not c.startswith("\\x") and s.chance(12):   # with bytes above 127 the value is implementation-defined

        lab.add("multi-char")
        c = c + "".join(s.choice("abcXYZ019 +") if not c.startswith("\\x") else "\\n" for _ in range(s.range(1, 3)))
    return pre + "'" + c + "'"


def str_lit(s, lab):
    """-> (prefix, source text)"""
    pre = s.weighted([(5, ""), (2, "L"), (2, "u"), (2, "U"), (2, "u8")])
    lab.add("string" + pre)
    n = s.weighted([(4, 1), (3, 2), (2, 3), (1, 4)])
    if n > 1:
        lab.add("concatenation")
    out = []
    for i in range(n):
        p = pre if i == 0 or s.chance(50) else ""
        last = ""
        if pre and i and not p:
            lab.add("mixed-prefix")
        body = ""
        for _ in range(s.weighted([(1, 0), (5, s.range(1, 6)), (1, 40)])):
            x = piece(s, pre, lab, '"')
            if last.startswith("\\x") and x[0] in "0123456789abcdefABCDEF" or last[1:2].isdigit() and x[0] in "01234567":
                x = "g"             # would continue the escape sequence
            if n > 1 and pre not in ("", "u8") and p == "" and (x[1:2].isdigit() or x[:2] == "\\x"):
                x = "\\n"           # known finding: such an escape in an unprefixed part of a prefixed literal
            if last == "$" and x[0] == "K":
                x = "k"             # $K is the harness's placeholder
            body += x
            last = x
        out.append((p, body))
    if n > 1 and s.chance(30):
        a = list(out)
        s.shuffle(a)
        out = a
    r = ""
    for i, (p, b) in enumerate(out):
        if i:
            r += s.choice([" ", "", "\n", " /* \" */ ", "\t", " // '\n"])
            if r[-1:].isalnum():
                r += " "
        r += p + '"' + b + '"'
    return pre, r


def expr(s, depth, leaves):
    """-> token list; every variable occurs once, so that side effects are sequenced enough"""
    if depth <= 0 or s.chance(15):
        k = s.weighted([(3, "var"), (2, "num"), (2, "inc"), (1, "chr"), (1, "idx")])
        if k == "num":
            return [s.choice(["1", "2u", "0x1E", "07", "3L", "1", "0xe", "10"])]
        if k == "chr":
            return [s.choice(["'a'", "'\\''", "'\"'", "'\\\\'", "'/'"])]
        v = leaves.pop() if leaves else "1"
        if v == "1" or k == "var":
            return [v]
        if k == "idx":
            return ["arr", "[", v, "&", "3", "]"]
        return [v, s.choice(["++", "--"])] if s.chance(50) else [s.choice(["++", "--"]), v]
    k = s.weighted([(6, "bin"), (4, "un"), (1, "cond"), (1, "par"), (1, "asg"), (1, "arrow")])
    if k == "bin":
        return ["("] + expr(s, depth - 1, leaves) + [s.choice(["+", "-", "*", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "+", "-", "&"])] + expr(s, depth - 1, leaves) + [")"] if s.chance(30) else \
            expr(s, depth - 1, leaves) + [s.choice(["+", "-", "+", "-", "&", "*"])] + expr(s, 0, leaves)
    if k == "un":
        return [s.choice(["+", "-", "~", "!", "-", "+"])] + expr(s, depth - 1, leaves)
    if k == "cond":
        return ["("] + expr(s, depth - 1, leaves) + ["?"] + expr(s, depth - 1, leaves) + [":"] + expr(s, depth - 1, leaves) + [")"]
    if k == "asg" and leaves:
        return ["(", leaves.pop(), s.choice(["=", "+=", "-=", "&=", "|=", "^=", "<<=", ">>=", "*="])] + (["1"] if s.chance(50) else ["3"]) + [")"]
    if k == "arrow":
        return [s.choice(["ps", "st"]), "", s.choice(["m", "e1"])]
    return ["("] + expr(s, depth - 1, leaves) + [")"]


def join(s, toks, lab):
    """writes tokens with as little or as much between them as tokenisation allows"""
    out, prev = "", None
    mode = s.choice(["tight", "mix", "mix", "wild"])
    for t in toks:
        if t in ("[", "]", "{", "}") and s.chance(25):
            lab.add("digraph")
            t = {"[": "<:", "]": ":>", "{": "<%", "}": "%>"}[t]
        spell = t
        if mode == "wild" and len(t) > 1 and s.chance(15):
            lab.add("splice-in-token")
            k = s.range(1, len(t) - 1)
            spell = t[:k] + "\\\n" + t[k:]
        if prev is not None:
            need = [x for _, x in pplex.lex(prev + t)] != [prev, t] or (prev[-1:] == "/" and t[0] in "/*")
            sep = s.choice(["", " "]) if mode == "mix" else "" if mode == "tight" else s.choice(["", " ", "/**/", "/* '\"// */", " // x\n", "\t", "\n", "\\\n", " // y \\\n z\n", "/*\n*/"])
            if sep.strip():
                lab.add("comment")
            if need and not sep.replace("\\\n", ""):
                sep = sep + s.choice([" ", "/**/", "\n"])
            if prev[-1:] == "/" and sep[:1] == "/":
                sep = " " + sep
            out += sep
        out += spell
        prev = t
    return out


class C14(diffcheck.DiffCheck):
    id = "C14"
    rule = ("a case evaluates 1-6 integer, floating, character and string literals (value of every element and the type selected by _Generic) and expressions whose tokens are written with minimal separation, "
            "comments, splices and digraphs; non-trivial: at least two kinds of token features")
    quick = (260, 30)
    thorough = (9000, 30)
    assumptions = ["kefir runs in a UTF-8 locale (it decodes its input in the locale of the environment)", "gcc and clang agree on the value"]

    def gen(self, s):
        lab, body = set(), []
        for i in range(s.range(1, 6)):
            k = s.weighted([(3, "int"), (3, "flt"), (3, "chr"), (4, "str"), (4, "tok")])
            if k == "int":
                t = int_lit(s, lab)
                body.append("o_i(%s); o_u((unsigned long) %s);" % (INT_T % t, t))
            elif k == "flt":
                t = flt_lit(s, lab)
                body.append("o_i(%s); o_ld(%s);" % (FLT_T % t, t))
            elif k == "chr":
                t = chr_lit(s, lab)
                body.append("o_i(_Generic((%s), int: 1, unsigned short: 2, unsigned int: 3, default: 7)); o_i((long) %s);" % (t, t))
            elif k == "str":
                pre, t = str_lit(s, lab)
                ty = {"": "char", "u8": "char", "L": "int", "u": "unsigned short", "U": "unsigned int"}[pre]
                body.append("{ o_i(_Generic((%s), char *: 1, int *: 2, unsigned short *: 3, unsigned int *: 4, default: 7)); static const %s a[] =\n%s;\nconst %s *p =\n%s;\n"
                            "o_u((unsigned long) sizeof(a)); o_u((unsigned long) sizeof(%s)); for (int i = 0; i < (int) (sizeof(a) / sizeof(a[0])); i++) { o_x((unsigned long) a[i]); o_i(a[i] == p[i]); } }" % (t, ty, t, ty, t, t))
            else:
                names = s.sample(NAMES, 6)
                leaves = list(names)
                toks = [x for x in expr(s, s.range(1, 4), leaves)]
                toks = fill_arrow(toks)
                lab.add("tokens")
                decl = ", ".join("%s = %d" % (n, s.range(0, 9)) for n in names)
                body.append("{ int arr[4] = {11, 12, 13, 14}; struct { int m, e1; } st = {5, 6}, *ps = &st; int %s; o_i((long)(\n%s\n)); %s o_i(arr[0] + ps->m); }" % (
                    decl, join(s, toks, lab), " ".join("o_i(%s);" % n for n in names)))
        code = "void $Kmain(void) {\n%s\n}\n" % "\n".join(body)
        return pbt.Case(code, len(lab) >= 2, sorted(lab), {"code": code})

    def run(self, cases, wd):
        """each case through the preprocessor's tokeniser and, when it has no directives to lose, through the lexer alone"""
        a = super().run(cases, wd)
        if self.kefir_opts:
            return a
        self.kefir_opts = ("-P",)
        try:
            b = super().run(cases, wd)
        finally:
            self.kefir_opts = ()
        return [x if x[0] != "ok" else y if y[0] != "fail" else pbt.fail("with --skip-preprocessor: " + y[1]) for x, y in zip(a, b)]


def fill_arrow(toks):
    out = []
    for i, t in enumerate(toks):
        out.append(("->" if toks[i - 1] == "ps" else ".") if t == "" else t)
    return out


if __name__ == "__main__":
    sys.exit(pbt.main(C14()))
