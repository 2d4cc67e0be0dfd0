"""C13: conditional inclusion, #include, #line and predefined macros, against gcc -E and clang -E, compared as token sequences."""
import os, re, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import cc, pbt, pplex
from lib.pbt import OK, fail, discard

OBJ = ["A", "B", "C", "D", "E_"]
FUN = ["F", "G"]
NUM = ["0", "1", "2", "3", "7", "0x10", "010", "1u", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "0x7fffffffffffffff", "18446744073709551615u", "0xffffffffffffffff",
       "1L", "5ll", "3UL", "0u", "'a'", "'\\0'", "'\\n'", "L'x'", "'\\x7f'", "63", "31", "32"]
BIN = ["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"]
JUNK = ["#error skipped", "#include <nope.h>", "#include \"nope.h\"", "#if 1 +", "#foo bar", "#define", "#if", "#ifdef", "#line x", "# 12", "#undef 3", "@ $ `", "#ifndef 3", "#define 1 2", "#pragma whatever",
        "#if defined", "x ## y # z", "#if 1/0", "#define A(", "# /* */", "%: error", "#elif_x", "#endif_x", "#else_ x", "#ifx"]
DIRS = ["", "a", "b", "a/sub"]
REJECT = re.compile(r"""#error|(/\*.*?\*/|\s)*("do" )?stop|/\* x$|nope|.*No such file|no include path|.*file not found|.*skipped""")
STAMP = 1700000000


def sp(s):
    """white space inside a directive"""
    return s.weighted([(6, " "), (2, "  "), (1, "\t"), (2, "/**/"), (1, " /* c */ "), (1, " \\\n "), (1, "/* x\n*/")])


def osp(s):
    return s.weighted([(7, ""), (2, " "), (1, "\t"), (1, "/**/"), (1, "\\\n")])


class G:
    def __init__(self, s):
        self.s, self.lab, self.n = s, set(), 0
        self.files = {}
        self.budget = 40
        self.reject = False

    def d(self, name, rest="", tail=True):
        s = self.s
        h = s.weighted([(30, "#"), (2, "%:")])
        if h != "#":
            self.lab.add("digraph-hash")
        pre = s.weighted([(12, ""), (2, " "), (1, "/* c */"), (1, "\t/**/ ")])
        if "/" in pre:
            self.lab.add("comment-before-hash")
        t = s.weighted([(8, ""), (1, " "), (1, " // tail"), (1, " /* tail */"), (1, " /* tail\n */")]) if tail else ""
        r = rest
        if r:
            r = sp(s) + r
        return pre + h + osp(s) + name + r + t

    def expr(self, depth):
        s = self.s
        if depth <= 0 or s.chance(15):
            k = s.weighted([(5, "num"), (3, "name"), (2, "unk"), (3, "def"), (1, "fun"), (1, "pre")])
            if k == "num":
                return s.choice(NUM)
            if k == "name":
                return s.choice(OBJ[:3])
            if k == "unk":
                return s.choice(["unknown", "int", "if", "true", "sizeof", "x1", "_Bool", "while"])
            if k == "def":
                n = s.choice(OBJ + FUN + ["unknown", "__LINE__", "__FILE__", "__STDC__"])
                self.lab.add("defined")
                return "defined%s%s" % (s.choice([" ", "  ", "/**/"]), n) if s.chance(50) else "defined%s(%s%s%s)" % (osp(s), osp(s), n, osp(s))
            if k == "fun":
                self.lab.add("macro-call-in-if")
                return "%s(%s)" % (s.choice(["ID", "NEG", "PICK"]), s.choice(NUM + OBJ[:3]))
            return s.choice(["__LINE__", "__STDC_VERSION__", "__STDC__", "__STDC_HOSTED__", "__LP64__"])
        k = s.weighted([(8, "bin"), (3, "un"), (2, "cond"), (2, "par")])
        if k == "bin":
            op = s.choice(BIN)
            r = self.expr(depth - 1)
            if op in ("<<", ">>"):       # other counts are undefined
                r = s.choice(["0", "1", "31", "32", "33", "40", "62", "63", "2u"])
            a = self.expr(depth - 1)
            if s.chance(60):
                a = "(%s)" % a
            if s.chance(60):
                r = "(%s)" % r
            if op == "<<":
                a = "(0 + (%s))" % a      # known finding: comparisons yield int
            self.lab.add("op")
            if op in ("<<", ">>"):      # parenthesised, so that no other operand joins the count
                if s.chance(30):
                    return "(0 + %s %s %s %s %s %s)" % (s.choice(NUM), s.choice("+-*"), s.choice(NUM), op, s.choice(["1", "3", "31"]), s.choice(["< 7", "== 8", "& 12", "| 1", "!= 0", ">= 64", "&& 1"]))
                return "(%s %s %s)" % (a, op, r)
            return "%s %s %s" % (a, op, r)
        if k == "un":
            return "%s(%s)" % (s.choice(["!", "-", "~", "+", "!"]), self.expr(depth - 1)) if s.chance(60) else "%s %s" % (s.choice("!-~+"), self.expr(0))
        if k == "cond":
            self.lab.add("cond-op")
            return "(%s ? %s : %s)" % (self.expr(depth - 1), self.expr(depth - 1), self.expr(depth - 1))
        return "(%s)" % self.expr(depth - 1)

    def text(self):
        s = self.s
        self.n += 1
        t = ["T%d" % self.n]
        for _ in range(s.range(0, 4)):
            t.append(s.choice(OBJ + OBJ + ["F(1)", "G", "__LINE__", "__LINE__", "__FILE__", "x", "\"s\"", "F", "'#'", "__STDC_VERSION__", "__DATE__", "__TIME__", "__STDC__", "G(2)", "/* c */", "F(A)"]))
        r = " ".join(t)
        if s.chance(12):
            self.lab.add("multi-line-comment")
            r += " /* start\n%s\n*/ U%d" % (s.choice(["#endif", "#else", "#if 0", "text", "#error x"]), self.n)
        elif s.chance(8):
            self.lab.add("line-comment")
            r += s.choice([" // #endif", " // foo \\\n#endif", " // '", " // \""])
        elif s.chance(8):
            r += " \\\n W%d __LINE__" % self.n
        elif s.chance(5):
            r += " \\\n#endif_not"
        return r

    def define(self):
        s = self.s
        n = s.choice(OBJ + FUN)
        body = s.choice(["1", "0", "2", "-1", "B", "A", "C", "(1)", "10u", "__LINE__", "0x7f", "unknown", "(A + 1)", "'a'", "ID(3)", "4294967295"] if n in OBJ[:3] else ["", "1", "0", "2", "-1", "B", "A", "C", "(1)", "x y", "defined_x", "10u", "1 +", "__LINE__", "F(2)", "0x7f", "unknown"])
        un = self.d("undef", n)
        if n in FUN:
            return un + "\n" + self.d("define", n + s.choice(["(x)", "(x)", "(...)"]) + s.choice([" x", " (x + 1)", " A x", " defined_x", " 1", " __LINE__"]), False)
        return un + "\n" + self.d("define", n + (" " + body if body else ""), False)

    def cond(self, depth, live):
        """an if-section; live: may its groups be processed at all (False inside groups that are certainly skipped)"""
        s = self.s
        out = []
        k = s.weighted([(6, "if"), (2, "ifdef"), (2, "ifndef")])
        junk = s.chance(12)
        self.lab.add("if-section")
        if junk:
            c = s.choice(["0", "defined unknown", "0 && A", "!1", "unknown"])
            out.append(self.d("if", c))
            self.lab.add("junk-in-skipped")
        elif k == "if":
            out.append(self.d("if", self.expr(s.range(0, 3))))
        else:
            out.append(self.d(k, s.choice(OBJ + FUN + ["unknown", "__FILE__", "__STDC__", "__LINE__"])))
        out += self.group(depth + 1, junk)
        for _ in range(s.weighted([(5, 0), (3, 1), (2, 2)])):
            out.append(self.d("elif", self.expr(s.range(0, 2))))
            self.lab.add("elif")
            out += self.group(depth + 1, False)
        if s.chance(50):
            out.append(self.d("else"))
            out += self.group(depth + 1, False)
        out.append(self.d("endif"))
        return out

    def group(self, depth, junk):
        s = self.s
        out = []
        for _ in range(s.weighted([(1, 0), (4, 1), (4, 2), (2, 4), (1, 7)])):
            if self.budget <= 0:
                break
            self.budget -= 1
            if junk and s.chance(50):
                j = s.choice(JUNK)
                out.append(j)
                if re.match(r"#if(def|ndef)?\b", j):
                    out.append(s.choice(["", "text ' ' here", "#else x y", "#elif 1 +", "# elif"]))
                    out.append("#endif")
                continue
            k = s.weighted([(7, "text"), (4, "define"), (2, "undef"), (4, "cond"), (3, "include"), (2, "line"), (1, "empty"), (1, "pragma"), (1, "error")])
            if k == "text":
                out.append(self.text())
            elif k == "define":
                out.append(self.define())
            elif k == "undef":
                out.append(self.d("undef", s.choice(OBJ + FUN + ["unknown"])))
            elif k == "cond" and depth < 4:
                out += self.cond(depth, True)
            elif k == "include" and depth < 4:
                out += self.include(depth)
            elif k == "line":
                self.lab.add("line")
                n = str(s.choice([1, 7, 100, 65, 32767, 2147483647 - 1000, 12345]))
                w = s.weighted([(5, "n"), (3, "file"), (2, "macro")])
                if w == "macro":
                    out += [self.d("undef", "LN"), self.d("define", "LN %s%s" % (n, s.choice(["", " \"m.c\""])), False), self.d("line", "LN")]
                else:
                    out.append(self.d("line", n + (" \"%s\"" % s.choice(["x.c", "dir/y.c", "z\\\\w.c", "sp ace.c"]) if w == "file" else "")))
                out.append("__LINE__ __FILE__")
            elif k == "empty":
                out.append(self.d(""))
            elif k == "pragma":
                out.append(self.d("pragma", s.choice(["foo", "bar 1", "kefir \"x\""]), False))
            elif k == "error":
                if s.chance(15):
                    self.lab.add("error")
                    out.append(self.d("error", s.choice(["stop", "\"do\" stop", ""]), False))
        return out

    def include(self, depth):
        s = self.s
        self.lab.add("include")
        name = s.choice(["h1.h", "h2.h", "sub/h1.h", "sub/h3.h", "../h1.h", "h4"])
        form = s.weighted([(5, "q"), (4, "b"), (2, "mq"), (2, "mb")])
        where = s.sample(DIRS, s.range(1, 3))
        for w in where:
            p = os.path.normpath(os.path.join(w, name))
            if p.startswith("..") or p in self.files:
                continue
            self.files[p] = None
            body = self.group(depth + 1, False)
            g = "GUARD_%s" % re.sub(r"\W", "_", p)
            mark = "FILE_%s __FILE__ __LINE__" % re.sub(r"\W", "_", p)
            guard = s.weighted([(6, "guard"), (2, "once-macro")])
            if guard == "guard":
                body = [self.d("ifndef", g), self.d("define", g, False), mark] + body + [self.d("endif")]
            else:
                body = [self.d("if", "!defined(%s)" % g), mark, self.d("define", g + " 1", False)] + body + [self.d("endif")]
            t = "\n".join(body)
            if s.chance(75) or t.endswith("\\"):
                t += "\n"
            self.files[p] = t
        if form == "q":
            return [self.d("include", '"%s"' % name)]
        if form == "b":
            return [self.d("include", "<%s>" % name)]
        self.lab.add("macro-include")
        return [self.d("undef", "INC"), self.d("define", "INC " + ('"%s"' % name if form == "mq" else "<%s>" % name), False), self.d("include", "INC")]


class C13(pbt.Check):
    id = "C13"
    rule = ("a case is a main file with up to 40 nested if-sections, definitions, includes over four directories with shuffled -I options, #line and text lines; "
            "non-trivial: gcc and clang agree and at least two kinds of directive features occur")
    quick = (330, 8)
    thorough = (12000, 8)
    assumptions = ["gcc -E and clang -E agree on the case", "file names compare by the file they denote"]

    def setup(self):
        self.tc = cc.Toolchain()

    def gen(self, s):
        g = G(s)
        body = []
        for _ in range(s.range(1, 4)):
            body += g.group(0, False)
            if s.chance(70):
                body += g.cond(0, True)
        body.append("END " + " ".join(OBJ) + " F(9) G __LINE__")
        main = "#define ID(x) (x)\n#define NEG(x) -(x)\n#define PICK(...) (__VA_ARGS__)\n" + "\n".join(body) + "\n"
        inc = s.sample(["a", "b", "a/sub"], s.range(0, 3))
        args = []
        for d in inc:
            args.append(("I", d))
        for n in s.sample(OBJ, s.range(0, 2)):
            args.append(("D", n + s.choice(["=1", "=2", "=B", "=-1"] if n in OBJ[:3] else ["=", "=x y", "=1"])))
        if s.chance(20) and g.files:
            args.append(("include", s.choice(sorted(g.files))))
            g.lab.add("include-option")
        files = {k: v or "" for k, v in g.files.items()}
        text = "/* options: %s */\n%s%s" % (args, main, "".join("\n/* ==== %s ==== */\n%s" % kv for kv in sorted(files.items())))
        return pbt.Case(text, len(g.lab) >= 2, sorted(g.lab), {"main": main, "files": files, "args": args})

    def norm_tokens(self, text, wd):
        text = "\n".join(l for l in text.split("\n") if not re.match(r"\s*#\s*pragma", l))
        out = []
        for k in pplex.tokens(text, False):
            if len(k) == 3 and k[0] != "c":
                t = "".join(map(chr, k[2]))
                p = os.path.join(wd, "x", "y", t)
                if "\0" not in t and t and os.path.exists(p) and os.path.isfile(p):
                    k = (k[0], k[1], os.path.relpath(os.path.realpath(p), os.path.realpath(wd)))
            out.append(k)
        return out

    def run(self, cases, wd):
        return [self.one_case(c, os.path.join(wd, "c%d" % i)) for i, c in enumerate(cases)]

    def one_case(self, c, wd):
        shutil.rmtree(wd, ignore_errors=True)
        for p, t in list(c.data["files"].items()) + [("main.c", c.data["main"])]:
            os.makedirs(os.path.dirname(os.path.join(wd, p)), exist_ok=True)
            with open(os.path.join(wd, p), "w") as f:
                f.write(t)
        for d in DIRS:
            os.makedirs(os.path.join(wd, d), exist_ok=True)
        cwd = os.path.join(wd, "x", "y")        # nothing can be found relative to the working directory
        os.makedirs(cwd)
        ga, ka = [], []
        for o, v in c.data["args"]:
            v = os.path.join("../..", v) if o == "I" else os.path.join(wd, v) if o == "include" else v
            ga += {"I": ["-I", v], "D": ["-D", v], "include": ["-include", v]}[o]
            ka += {"I": ["-I", v], "D": ["-D", v], "include": ["--include", v]}[o]
        env = dict(cc.CLEAN_ENV, SOURCE_DATE_EPOCH=str(STAMP), TZ="UTC")
        refs = []
        for tool in ("gcc", "clang"):
            r = cc.run([tool, "-E", "-P", "-std=c17", "-pedantic-errors", "-nostdinc", "-w" if tool == "clang" else "-Wno-all", *ga, "../../main.c"], cwd=cwd, cpu=6, mem=4 << 30, env=env)
            if r.timeout:
                return discard("reference takes too long")
            err = r.err.decode("utf-8", "replace")
            errs = re.findall(r"(?:fatal )?error: (.*)", err)
            if r.rc != 0:
                if errs and all(REJECT.match(e) or e.strip() == "" for e in errs):
                    refs.append("reject")
                else:
                    return discard("%s: %s" % (tool, errs[0][:60] if errs else err[-100:]))
            else:
                refs.append(self.norm_tokens(r.out.decode("utf-8", "replace"), wd))
        if refs[0] != refs[1]:
            return discard("gcc and clang differ")
        r = cc.run([self.tc.kefir, "-p", "--pp-timestamp", str(STAMP), *ka, "../../main.c"], cwd=cwd, cpu=6, mem=1 << 30, env=env)
        if r.timeout:
            return fail("kefir -p does not terminate")
        if refs[0] == "reject":
            return OK if r.rc == 1 else fail("kefir accepts (exit %d) an active #error or an include that cannot be found" % r.rc)
        if r.rc != 0:
            return fail("kefir -p fails (exit %d) on what gcc and clang preprocess: %s" % (r.rc, r.err.decode("utf-8", "replace")[-300:]))
        mine, ref = self.norm_tokens(r.out.decode("utf-8", "replace"), wd), refs[0]
        if mine == ref:
            return OK
        i = 0
        while i < min(len(ref), len(mine)) and ref[i] == mine[i]:
            i += 1
        return fail("token %d: expected %s, kefir gives %s" % (i, show(ref[max(0, i - 2):i + 5]), show(mine[max(0, i - 2):i + 5])))

    def probe_finding(self, e):
        p = os.path.join(pbt.VERIF, e["input"])
        wd = pbt.scratch(self.id)
        try:
            return self.one_case(pbt.Case(e["id"], data={"main": open(p).read(), "files": {}, "args": []}), os.path.join(wd, "f"))[0] == "fail"
        finally:
            shutil.rmtree(wd, ignore_errors=True)


def show(ts):
    return (" ".join(t[1] if len(t) == 2 else "%s%r" % (t[1], t[2] if isinstance(t[2], str) else "".join(map(chr, t[2]))) for t in ts) or "<end>")[:200]


if __name__ == "__main__":
    sys.exit(pbt.main(C13()))
