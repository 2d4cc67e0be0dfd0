"""C18: the output depends on the tokens and the options, on nothing else."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import cc, pbt, pplex, progs
from lib.pbt import OK, fail, discard

DIG = {v: k for k, v in pplex.DIGRAPH.items()}
COMMENTS = ["/**/", "/* c */", "/* \" */", "/* ' */", "/*/*/", "/***/", "/* // */", "/* a\n b */", "/* é */", "/*\\*/", "/* #define x */", "/*\n#if 0\n*/"]
LINE_COMMENTS = ["//\n", "// c\n", "// \"\n", "// '\n", "// /*\n", "// a \\\n continued\n", "/////\n", "// é */\n"]


def macroise(s, text, labels):
    """replace some tokens by macros that stand for them"""
    out, defs, n = [], [], 0
    for d, l in progs.lines(text):
        if d:
            out.append(l)
            continue
        toks = pplex.lex(l, ws=True)
        for i, (k, t) in enumerate(toks):
            if k in ("id", "num", "str", "chr") and s.chance(6) and n < 12:
                m = "MC%d" % n
                n += 1
                how = s.draw(4)
                if how == 0:
                    defs.append("#define %s %s" % (m, t))
                    toks[i] = (k, m)
                elif how == 1:
                    defs.append("#define %s(a) a" % m)
                    toks[i] = (k, "%s%s(%s)" % (m, s.choice(["", " "]), t))
                elif how == 2:
                    defs.append("#define %sx %s\n#define %s() %sx" % (m, t, m, m))
                    toks[i] = (k, m + "()")
                elif k in ("id", "num") and len(t) > 1:
                    defs.append("#define %s(a, b) a ## b" % m)
                    if t[0].isdigit() and t[1] in "eEpP+-.":
                        toks[i] = (k, t)
                    else:
                        toks[i] = (k, "%s(%s, %s)" % (m, t[0], t[1:])) if re.match(r"^[A-Za-z_0-9]+$", t[1:]) else (k, t)
        out.append("".join(t for _, t in toks))
    if n:
        labels.add("macros")
    return "\n".join(defs + out) + "\n"


def conditional(s, text, labels):
    """wrap groups that are skipped around the program"""
    labels.add("skipped-groups")
    return "#if 0\nint nothing = ;\n#elif 1\n" + text + "#else\n#error no\n#endif\n"


class Layout:
    """re-spells a program without changing its tokens"""

    def __init__(self, s, kinds):
        self.s, self.kinds = s, kinds

    def blank(self, must):
        s = self.s
        ch = []
        if "ws" in self.kinds:
            ch += [" ", "\t", "  ", " \v", "\f", "\n", "\n\n", " \n\t", "\r\n" if False else " "]
        if "comments" in self.kinds:
            ch += [s.choice(COMMENTS), s.choice(LINE_COMMENTS), s.choice(COMMENTS)]
        if not ch:
            ch = [" "]
        if not must and s.chance(55):
            return ""
        return s.choice(ch)

    def tok(self, t, kind):
        s = self.s
        if "digraphs" in self.kinds and t in DIG and s.chance(70):
            t = DIG[t]
        return t

    def splice(self, text):
        """backslash-newline anywhere, also inside tokens"""
        s = self.s
        out = []
        for ch in text:
            if s.draw(28) == 0 and not (ch == "\n" and out and out[-1] == "\\"):
                out.append("\\\n")
            out.append(ch)
        return "".join(out)

    def render(self, text):
        s = self.s
        out = []
        pending_nl = True
        for d, l in progs.lines(text):
            if d:
                if out and not out[-1].endswith("\n"):
                    out.append("\n")
                line = l
                if "comments" in self.kinds and s.chance(40):
                    line += " " + s.choice(["/* c */", "// c", "/* a\n b */", "/**/"])
                out.append(line + "\n")
                prev = None
                continue
            prev = None
            for k, t in pplex.lex(l):
                t = self.tok(t, k)
                if prev is None:
                    b = self.blank(False)
                else:
                    b = self.blank(not progs.glue_ok(prev, t))
                # a '#' must not become the first token of a line
                if t in ("#", "%:"):
                    b = b.replace("\n", " ") if "//" not in b else " "
                # do not create '//' or '/*' with what a blank begins with
                if prev and b[:1] == "/" and prev[-1:] in "/<%":
                    b = " " + b
                out.append(b + t)
                prev = t
            out.append("\n")
        r = "".join(out)
        if "splices" in self.kinds:
            r = self.splice(r)
        return r


ENVS = [{}, {"A": "x" * 5000}, {"LC_ALL": "C", "LANG": "C"}, {"TZ": "Asia/Tokyo"}, {"MALLOC_PERTURB_": "85"}, {"MALLOC_ARENA_TEST": "1", "MALLOC_TOP_PAD_": "1"},
        {"LC_NUMERIC": "de_DE.UTF-8"}, {"HOME": "/", "TMPDIR": "/nonexistent"}, {"CPATH": "/nonexistent", "C_INCLUDE_PATH": "/nonexistent"}, {"KEFIR_RTINC": "/nonexistent"}]


class C18(pbt.Check):
    id = "C18"
    rule = ("a case is a program from the generators of C01-C23 (or the same with macros and skipped groups added), compiled once as written and then under 3-5 variations: repeated, other addresses and "
            "environment, standard input/output, other file names and directories, the compiler's own preprocessed output, and re-spelled with other white space, comments, line splices and digraphs; "
            "non-trivial: the program has at least 40 tokens and one variation re-spells it")
    quick = (230, 8)
    thorough = (8000, 8)
    assumptions = ("sources with non-ASCII characters are compiled in a UTF-8 locale",)

    def setup(self):
        self.tc = cc.Toolchain("fast")

    def gen(self, s):
        labels = set()
        text, lab = progs.program(s)
        labels.add("program-" + lab)
        if s.chance(40):
            text = macroise(s, text, labels)
        if s.chance(10):
            text = conditional(s, text, labels)
        steps = []
        for _ in range(s.range(1, 2)):
            kinds = [k for k in ("ws", "comments", "splices", "digraphs") if s.chance(50)] or [s.choice(["ws", "comments", "splices", "digraphs"])]
            for k in kinds:
                labels.add("respell-" + k)
            steps.append(("respell", "+".join(kinds), Layout(s, kinds).render(text)))
        for k in s.sample(["repeat", "stdin", "stdout", "stdin-stdout", "env", "aslr", "dir", "preprocessed", "preprocessed-skip", "options"], s.range(1, 3)):
            labels.add(k)
            steps.append((k, s.draw(1000), None))
        ntok = len(pplex.lex(text))
        view = text + "".join("/* ---- %s %s ---- */\n%s" % (a, b, c or "\n") for a, b, c in steps)
        return pbt.Case(view, ntok >= 40, sorted(labels), {"text": text, "steps": steps})

    def replay_files(self, case):
        f = {"c": case.data["text"]}
        for i, (a, b, c) in enumerate(case.data["steps"]):
            if c:
                f["respelled%d.c" % i] = c
        return f

    def run(self, cases, wd):
        out = []
        for i, c in enumerate(cases):
            d = os.path.join(wd, "k%d" % i)
            os.makedirs(d, exist_ok=True)
            out.append(self.one_case(c, d))
        return out

    def one_case(self, c, d):
        k = self.tc.kefir

        def put(name, text):
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            with open(os.path.join(d, name), "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))

        def get(name):
            try:
                with open(os.path.join(d, name), "rb") as f:
                    return f.read()
            except OSError:
                return None
        text = c.data["text"].encode("utf-8", "surrogateescape")
        put("t.c", text)
        r = cc.run([k, "-o", "base.s", "t.c"], cwd=d)
        base = get("base.s") if r.rc == 0 else None
        if r.timeout:
            return discard("compiler ran out of time")
        if base is None and r.rc == 0:
            return fail("exit status 0 but no output file")
        if base is not None and not base:
            return fail("exit status 0 but the output is empty")
        n = 0
        for kind, arg, alt in c.data["steps"]:
            n += 1
            name = "v%d" % n
            what = "%s %s" % (kind, arg)
            res = None
            env = None
            if kind == "respell":
                put(name + ".c", alt)
                cmd, outp, inp = [k, "-o", name + ".s", name + ".c"], name + ".s", None
            elif kind == "repeat":
                cmd, outp, inp = [k, "-o", name + ".s", "t.c"], name + ".s", None
            elif kind == "stdin":
                cmd, outp, inp = [k, "-o", name + ".s"], name + ".s", text
            elif kind == "stdout":
                cmd, outp, inp = [k, "t.c"], None, None
            elif kind == "stdin-stdout":
                cmd, outp, inp = [k], None, text
            elif kind == "env":
                cmd, outp, inp = [k, "-o", name + ".s", "t.c"], name + ".s", None
                env = dict(cc.CLEAN_ENV)
                for j in range(3):
                    env.update(ENVS[(arg >> (3 * j)) % len(ENVS)])
                if not text.isascii():
                    env["LC_ALL"] = "C.UTF-8"
            elif kind == "aslr":
                cmd, outp, inp = ["setarch", "x86_64", "-R", k, "-o", name + ".s", "t.c"], name + ".s", None
                if cc.run(["setarch", "x86_64", "-R", "true"]).rc != 0:
                    cmd = cmd[3:]
            elif kind == "dir":
                put("sub dir/ünusual name.c", text)
                cmd, outp, inp = [k, "-o", os.path.join(d, name + ".s"), os.path.join(d, "sub dir/ünusual name.c")], name + ".s", None
            elif kind in ("preprocessed", "preprocessed-skip"):
                p = cc.run([k, "-p", "-o", name + ".i", "t.c"], cwd=d)
                if p.rc != 0:
                    if base is None:
                        continue
                    return fail("the program compiles but -p fails (rc %d): %s" % (p.rc, p.err.decode("utf-8", "replace")[:300]))
                cmd, outp, inp = [k] + (["-P"] if kind.endswith("skip") else []) + ["-o", name + ".s", name + ".i"], name + ".s", None
            else:
                # options without effect on the generated code
                opts = [["--source-id", "other name"], ["--json-errors"], ["--tabular-errors"], ["--pp-timestamp", "12345"], ["-I", "."], ["-D", "UNUSED_MACRO=1"],
                        ["--source-id", "x", "--json-errors"], ["--detailed-output"]][arg % 8]
                what = "option " + " ".join(opts)
                cmd, outp, inp = [k] + opts + ["-o", name + ".s", "t.c"], name + ".s", None
            ref = base
            if kind in ("repeat", "aslr", "env") and base is not None:
                act = [None, None, "--dump-ir", "--dump-ast", "--dump-tokens", "--dump-runtime-code", "-p"][arg % 7]
                if act:
                    what += " " + act
                    i = cmd.index("-o")
                    cmd = cmd[:i] + [act] + cmd[i:]
                    rr = cc.run([k, act, "-o", "ref.out", "t.c"], cwd=d)
                    if rr.rc != 0:
                        return fail("the program compiles but %s fails (rc %d): %s" % (act, rr.rc, rr.err.decode("utf-8", "replace")[:300]))
                    ref = get("ref.out")
            r2 = cc.run(cmd, cwd=d, stdin=inp, env=env)
            if r2.timeout:
                return discard("compiler ran out of time")
            got = (r2.out if outp is None else get(outp)) if r2.rc == 0 else None
            if (got is None) != (base is None):
                return fail("variation '%s': rc %d instead of %d: %s" % (what, r2.rc, 0 if base is not None else r.rc, (r2.err or r.err).decode("utf-8", "replace")[:300]))
            if got != ref:
                la, lb = ref.split(b"\n"), got.split(b"\n")
                j = next((x for x in range(min(len(la), len(lb))) if la[x] != lb[x]), min(len(la), len(lb)))
                return fail("variation '%s': output differs at line %d: %r instead of %r" % (what, j + 1, lb[j:j + 1], la[j:j + 1]))
        if base is None:
            return discard("program not accepted: " + r.err.decode("utf-8", "replace")[:160])
        return OK


if __name__ == "__main__":
    sys.exit(pbt.main(C18()))
