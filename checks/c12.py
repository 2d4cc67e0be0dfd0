"""C12: macro expansion, against gcc -E and clang -E, compared as token sequences."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import cc, pbt, pplex
from lib.pbt import OK, fail, discard

PLAIN = ["x", "y", "foo", "L", "e1", "u8", "if", "int", "_a"]
NUMS = ["0", "1", "42", "0x1f", "1e", "1.", ".5", "3e+", "2u", "007"]
PUN = ["<:", "%>", "%:", "+", "-", "<", ">", "=", "&", "|", "*", ".", "->", "<<", "[", "]", ";", "?", ":", "!", "%", "~", "==", "++", "^", "...", "{", "}", "/"]
LITS = ['"s"', "'c'", '"a\\n"', '"q\\"q"', "'\\''", 'L"w"', "'\\\\'", '"it\'s"', "L'x'", 'u8"z"', '"\\\\"', '"?"', "'\"'"]
PASTE = [("<", "<"), ("<", "="), ("-", ">"), ("+", "+"), ("=", "="), ("&", "&"), ("<", "<="), (">", ">"), ("|", "="), ("#", "#"), ("%", "="), ("x", "1"), ("x", "y"), ("1", "x"), ("1", "."), (".", "5"),
         ("1e", "+"), ("L", '"w"'), ("L", "'w'"), ("u8", '"w"'), ("1", "2"), ("_a", "foo"), ("<", ":"), ("%:", "%:")]


class G:
    def __init__(self, s):
        self.s, self.lab = s, set()
        n = s.range(1, 6)
        self.sig = {}
        for i in range(n):
            name = "M%d_$K" % i
            if s.chance(40):
                self.sig[name] = (None, False)
            else:
                np = s.weighted([(3, 1), (3, 2), (1, 0), (2, 3)])
                self.sig[name] = (["abcd"[j] for j in range(np)], s.chance(20))
        self.names = list(self.sig)

    def atom(self, params, depth):
        s = self.s
        k = s.weighted([(4, "plain"), (4, "param"), (5, "macro"), (3, "num"), (4, "pun"), (2, "lit"), (2, "paren"), (3, "call"), (1, "comma")])
        if k == "param" and params:
            return s.choice(params)
        if k == "macro":
            return s.choice(self.names)
        if k == "num":
            return s.choice(NUMS)
        if k == "pun":
            return s.choice(PUN)
        if k == "lit":
            return s.choice(LITS)
        if k == "paren":
            return "(%s)" % self.seq(params, depth + 1, 0, 3)
        if k == "comma":
            return ","
        if k == "call" and depth < 4:
            return self.call(params, depth)
        return s.choice(PLAIN)

    def call(self, params, depth):
        s = self.s
        m = s.choice(self.names)
        ps, va = self.sig[m]
        if ps is None:
            if s.chance(50):
                return "%s(%s)" % (m, self.seq(params, depth + 1, 0, 2))
            return m
        n = len(ps)
        args = [self.arg(params, depth) for _ in range(n)]
        if va:
            args += [self.arg(params, depth) for _ in range(s.range(1, 3))]
        sp = s.weighted([(8, ""), (2, " "), (1, "\n") if params is None else (1, " "), (1, " /* c */ ")])
        self.lab.add("call%d" % depth)
        return "%s%s(%s)" % (m, sp, ("," + s.choice(["", " ", " ", "  "])).join(args))

    def arg(self, params, depth):
        s = self.s
        if s.chance(12):
            self.lab.add("empty-arg")
            return s.choice(["", " "])
        t = self.seq(params, depth + 1, 1, 3)
        out, d = "", 0
        for k, x in pplex.lex(t, True):          # a comma at depth 0 would change the number of arguments
            if k == "p" and x in "()":
                d += 1 if x == "(" else -1
            out += ";" if (k == "p" and x == "," and d <= 0) else x
        if params is None and s.chance(8):
            self.lab.add("multi-line")
            out = out.replace(" ", "\n", 1)
        return out

    def seq(self, params, depth, lo, hi):
        s = self.s
        out = []
        for _ in range(s.range(lo, hi)):
            out.append(self.atom(params, depth))
            out.append(s.weighted([(6, " "), (3, ""), (1, "  ")]))
        r = ""
        for p in out:                              # "" between words and numbers would only build other words
            if p and r and (r[-1].isalnum() or r[-1] in "_.") and (p[0].isalnum() or p[0] in "_\"'."):
                r += " "
            elif p and r and r[-1] in "+-<>=&|*.%:!/^#" and p[0] in "+-<>=&|*.%:!/^#0123456789":
                r += " "
            r += p
        return r.strip() if self.s.chance(70) else r

    def body(self, name):
        s = self.s
        ps, va = self.sig[name]
        names = (ps or []) + (["__VA_ARGS__"] if va else [])
        if s.chance(8):
            self.lab.add("empty-body")
            return ""
        parts = []
        for _ in range(s.range(1, 4)):
            k = s.weighted([(5, "seq"), (3, "cat"), (3, "str")])
            if k == "str" and names:
                self.lab.add("#")
                parts.append(s.choice(["#", "# ", "%:"]) + s.choice(names))
            elif k == "cat":
                self.lab.add("##")
                op = s.choice([" ## ", "##", " ##", "## ", " %:%: "])
                a, b = s.choice(PASTE)
                if a == "#":
                    if ps is not None:
                        a, b = "<", "<"
                if names and s.chance(60):
                    a = s.choice(names)
                if names and s.chance(60):
                    b = s.choice(names)
                if b == "__VA_ARGS__" and a == ",":
                    a = "x"
                t = a + op + b
                if s.chance(20):
                    t += op + (s.choice(names) if names and s.chance(70) else s.choice(["x", "1"]))
                parts.append(t)
            else:
                t = self.seq(names or [], 0, 1, 4)
                parts.append(t)
        return " ".join(parts)

    def program(self):
        s = self.s
        lines = []
        self.defs = {}
        for m in self.names:
            ps, va = self.sig[m]
            b = self.body(m).replace("\n", " ")
            h = m
            if ps is not None:
                h += "(%s)" % ", ".join(ps + (["..."] if va else []))
            lines.append("#define %s %s" % (h, b))
        text = []
        for _ in range(s.range(1, 4)):
            text.append(self.call(None, 0) if s.chance(75) else self.seq(None, 0, 1, 4))
        body = s.choice([" ", "\n", " "]).join(text)
        lines.append(re.sub(r"(?m)^\s*(#|%:)", r";\1", body))
        return "\n".join(lines) + "\n"


def parse_model(text):
    """-> (macros, token list of the text lines) for pplex.Model"""
    ms, rest = {}, []
    text = re.sub(r"(?s)/\*.*?\*/", " ", text)
    for line in text.split("\n"):
        m = re.match(r"#define (\w+)(\(([^)]*)\))? ?(.*)$", line)
        if m:
            ps = None
            va = False
            if m.group(2):
                ps = [p.strip() for p in m.group(3).split(",") if p.strip()]
                va = "..." in ps
                ps = [p for p in ps if p != "..."]
            toks = pplex.lex(m.group(4).strip(), True)
            ms[m.group(1)] = (ps, va, [list(t) for t in toks])
        else:
            rest.append(line)
    return ms, [[k, " " if k == "ws" else t, False] for k, t in pplex.lex("\n".join(rest), True)]


class C12(pbt.Check):
    id = "C12"
    rule = ("a case is 1-6 macro definitions (object-like, function-like, variadic, with # and ##, mutually recursive) and up to 4 lines that invoke them; "
            "non-trivial: the text has at least 2 macro definitions, and the expansion differs from the text")
    quick = (350, 24)
    thorough = (8000, 24)
    max_discard = 0.85
    assumptions = ["gcc -E and clang -E agree on the token sequence (cases on which they disagree, or which either rejects, are discarded)",
                   "runs of white space inside a stringified argument count as one space (known finding)"]
    def setup(self):
        self.tc = cc.Toolchain("fast")

    def gen(self, s):
        g = G(s)
        t = g.program()
        nt = len(g.names) >= 2
        return pbt.Case(t, nt, sorted(g.lab), {"code": t})

    def replay_files(self, case):
        return {"c": case.data["code"].replace("$K", "0")}

    def source(self, cases):
        out, spans, line = [], [], 1
        for k, c in cases:
            t = c.data["code"].replace("$K", str(k))
            t = "BEGIN_%d_ ;\n%s\n; END_%d_\n" % (k, t, k)
            n = t.count("\n")
            spans.append((line, line + n))
            line += n
            out.append(t)
        return "".join(out), spans

    @staticmethod
    def cut(text, k):
        a, b = "BEGIN_%d_ ;" % k, "; END_%d_" % k
        i = text.find(a)
        j = text.find(b, i + 1)
        if i < 0 or j < 0:
            return None
        return text[i + len(a):j]

    def reference(self, src, spans, cases, wd):
        """-> per case: token list or None"""
        res = []
        for cmd in (["gcc", "-E", "-P", "-std=c17", "-pedantic-errors", src], ["clang", "-E", "-P", "-std=c17", "-pedantic-errors", src]):
            r = cc.run(cmd, cpu=6, mem=1 << 30)
            if r.timeout:
                return None
            out = r.out.decode("utf-8", "replace")
            err = r.err.decode("utf-8", "replace")
            bad = set()
            for m in re.finditer(r"(?m)^[^\n]*?t\.c:(\d+):\d+: (?:fatal )?error", err):
                l = int(m.group(1))
                bad |= {k for k, (a, b) in enumerate(spans) if a <= l < b}
            toks = []
            for k in range(len(cases)):
                x = self.cut(out, k)
                toks.append(None if k in bad or x is None or len(x) > 200000 else pplex.tokens(x))
            if r.rc != 0 and not bad:
                return None
            res.append(toks)
        return [a if a is not None and a == b else None for a, b in zip(*res)]

    def run(self, cases, wd):
        src = os.path.join(wd, "t.c")
        text, spans = self.source(list(enumerate(cases)))
        with open(src, "w") as f:
            f.write(text)
        ref = self.reference(src, spans, cases, wd)
        if ref is None:
            if len(cases) == 1:
                return [discard("reference preprocessors reject or take too long")]
            return [self.run([c], wd)[0] for c in cases]
        keep = [k for k in range(len(cases)) if ref[k] is not None]
        res = [discard("gcc or clang rejects, or they differ")] * len(cases)
        if not keep:
            return res
        got = self.kefir([(k, cases[k]) for k in keep], wd)
        for k, g in zip(keep, got):
            res[k] = self.judge(cases[k], ref[k], g)
        return res

    def kefir(self, cases, wd):
        src = os.path.join(wd, "k.c")
        text, _ = self.source(cases)
        with open(src, "w") as f:
            f.write(text)
        r = cc.run([self.tc.kefir, "-p", src], cpu=6, mem=1 << 30)
        if r.rc == 0 and not r.timeout:
            out = r.out.decode("utf-8", "replace")
            return [(self.cut(out, k), "") for k, _ in cases]
        if len(cases) == 1:
            why = "does not terminate within 6 s of CPU time" if r.timeout or r.rc in (-9, -24) else "exit %s: %s" % (r.rc, r.err.decode("utf-8", "replace")[-300:])
            return [(None, why)]
        h = len(cases) // 2
        return self.kefir(cases[:h], wd) + self.kefir(cases[h:], wd)

    def judge(self, case, ref, got):
        text, why = got
        mine = pplex.tokens(text) if text is not None else None
        if mine == ref:
            return OK
        q = self.quirk(case, ref, mine)
        if q:
            return discard("known finding operand-expansion") if q == "known" else discard(q)
        if mine is None:
            return fail("kefir -p fails on what gcc and clang preprocess: %s" % why)
        i = 0
        while i < min(len(ref), len(mine)) and ref[i] == mine[i]:
            i += 1
        return fail("token %d: expected %s, kefir gives %s" % (i, show(ref[i:i + 6]), show(mine[i:i + 6])))

    def probe_finding(self, e):
        """the program in the finding's file: do its tokens still differ from those of gcc (white space in strings counts)?"""
        p = os.path.join(pbt.VERIF, e["input"])
        r = [cc.run(c + [p], cpu=6, mem=1 << 30) for c in (["gcc", "-E", "-P", "-std=c17"], [self.tc.kefir, "-p"])]
        t = [pplex.tokens(x.out.decode("utf-8", "replace"), False) for x in r]
        return r[1].rc != 0 or t[0] != t[1]

    def quirk(self, case, ref, mine):
        """is the difference exactly that every argument is macro-replaced first, even operands of # and ## and unused ones?"""
        ms, toks = parse_model(case.data["code"].replace("$K", "0"))
        def run(q):
            try:
                t = pplex.Model(ms, q).expand(toks)
                return [pplex.norm((k, x)) for k, x, _ in t if k != "ws"]
            except pplex.Unspecified as e:
                if str(e) == "fuel":
                    raise
                return "rejects"
        def z(ts):
            return ts if ts is None or ts == "rejects" else [tuple(re.sub(r"(M\d_)\d+", r"\g<1>", x) if isinstance(x, str) else strip(x) for x in t) for t in ts]
        def strip(v):
            return tuple(re.sub(r"(M\d_)\d+", r"\g<1>", "".join(map(chr, v))))
        try:
            c17, mod = z(run(False)), z(run(True))
        except (pplex.Unspecified, RecursionError):
            return "expansion too large for the model"
        if mod != "rejects" and sum(len(x[-1]) for x in mod) > 20000 and mine is None:
            return "expansion too large for the model"
        if c17 != z(ref) or mod == c17:
            return None
        return "known" if mod == (z(mine) if mine is not None else "rejects") else None


def show(ts):
    return (" ".join(t[1] if len(t) == 2 else "%s%r" % (t[1], "".join(map(chr, t[2]))) for t in ts) or "<end>")[:200]


if __name__ == "__main__":
    sys.exit(pbt.main(C12()))
