"""C26: command-line options take effect as documented."""
import json, os, re, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import cc, pbt, pplex
from lib.pbt import OK, fail, discard

ACTIONS = {"asm": "--dump-asm", "ir": "--dump-ir", "ast": "--dump-ast", "tokens": "--dump-tokens", "runtime": "--dump-runtime-code", "pp": "-p", "help": "-h", "version": "-v"}
# construct each feature permits: text of a declaration that is accepted exactly when the feature is on
FEATURES = {
    "missing-function-return-type": "ff(void) { return 1; }",
    "designated-init-colons": "struct fs { int a, b; } fv = { a: 1, b: 2 };",
    "labels-as-values": "int ff(void) { void *p = &&l; goto *p; l: return 1; }",
    "non-strict-qualifiers": "int *ff(const int *p) { int *q = p; return q; }",
    "implicit-function-decl": "int ff(void) { return gg(1); }",
    "empty-structs": "struct fe {}; struct fe ff;",
    "ext-pointer-arithmetics": "void *ff(void *p) { return p + 1; }",
    "statement-expressions": "int ff(void) { return ({ int i = 1; i; }); }",
    "omitted-conditional-operand": "int ff(int a) { return a ?: 2; }",
    "int-to-pointer": "int *ff(int a) { int *p = a; return p; }",
}
NEGATIVE = {"fail-on-attributes": "int ff(int) __attribute__((unused));"}
VALUES = ["(1==1)", "(2!=3)", "'='", "(1>=1?4:5)", "(7<=6)", "1", "42", "0x1f", "7u", "(3)", "1 + 2", "sizeof(int)", "'a'"]
NAMES = ["AA", "BB", "CC", "main_value", "x1"]


class Cl:
    """one command line and what it means"""

    def __init__(self, s):
        self.s = s
        self.args = []
        self.action = "asm"
        self.out = None
        self.source_id = None
        self.dirs = []
        self.incs = []
        self.defs = {}
        self.skip = False
        self.json = False
        self.detailed = False
        self.stamp = None
        self.features = {}
        self.error = None
        self.labels = set()
        self.bad_target = False

    def opt(self, short, long, arg=None):
        s = self.s
        form = s.draw(4)
        if arg is None:
            self.args.append("-" + short if short and (form < 2 or not long) else "--" + long)
            return
        if short and (form < 2 or not long):
            if form == 0 and arg:
                self.labels.add("short-attached")
                self.args.append("-" + short + arg)
            else:
                self.args += ["-" + short, arg]
        elif form % 2:
            self.labels.add("long-equals")
            self.args.append("--%s=%s" % (long, arg))
        else:
            self.args += ["--" + long, arg]

    def set_action(self, a):
        if a == "pp" and self.skip or False:
            self.fail("-p together with -P")
        self.action = a

    def fail(self, why):
        if self.error is None:
            self.error = why

    def step(self, kind):
        s = self.s
        self.labels.add("opt-" + kind)
        if kind == "action":
            a = s.weighted([(3, "asm"), (2, "ir"), (2, "ast"), (2, "tokens"), (5, "pp"), (1, "runtime"), (1, "help"), (1, "version")])
            if a == "pp" and self.skip:
                self.fail("-p after -P")
            short = {"pp": "p", "help": "h", "version": "v"}.get(a)
            long = {"asm": "dump-asm", "ir": "dump-ir", "ast": "dump-ast", "tokens": "dump-tokens", "runtime": "dump-runtime-code", "pp": "preprocess", "help": "help", "version": "version"}[a]
            self.opt(short, long)
            self.action = a
        elif kind == "skip":
            if self.action == "pp":
                self.fail("-P after -p")
            self.opt("P", "skip-preprocessor")
            self.skip = True
        elif kind == "out":
            self.out = s.choice(["o1", "o2", "out put.s", "sub/o3"])
            self.opt("o", "output", self.out)
        elif kind == "define":
            n = s.choice(NAMES)
            if s.chance(20):
                self.defs[n] = ""
                self.opt("D", "define", n + "=")
            else:
                v = s.choice(VALUES)
                self.defs[n] = v
                self.opt("D", "define", n + "=" + v)
        elif kind == "dir":
            d = s.choice(["d1", "d2", "d3", "./d2", "nodir"])
            self.dirs.append(d)
            self.opt("I", "include-path", d)
        elif kind == "include":
            f = s.choice(["inc1.h", "inc2.h"])
            self.incs.append(f)
            self.opt(None, "include", f)
        elif kind == "stamp":
            self.stamp = s.choice([0, 1, 86399, 86400, 951782400, 1000000000, 1700000000, 2147483647, 4102444800])
            self.opt(None, "pp-timestamp", str(self.stamp))
        elif kind == "errors":
            self.json = s.chance(50)
            self.opt(None, "json-errors" if self.json else "tabular-errors")
        elif kind == "source-id":
            self.source_id = s.choice(["other.c", "a b", "e+f", "dir/name.c", "quo\"te"])
            self.opt(None, "source-id", self.source_id)
        elif kind == "detailed":
            self.detailed = True
            self.opt(None, "detailed-output")
        elif kind == "target":
            self.opt(None, "target-profile", "amd64-sysv-gas")
            self.bad_target = False
        elif kind == "feature":
            f = s.choice(list(FEATURES) + list(NEGATIVE))
            on = s.chance(60)
            self.features[f] = on
            self.args.append("--%sfeature-%s" % ("" if on else "no-", f))
        elif kind == "bad":
            k = s.draw(8)
            self.labels.add("bad-%d" % k)
            if k == 0:
                self.args.append(s.choice(["--no-such-option", "-z", "--feature-nothing", "--no-feature-", "-q", "--output-file=x", "--dump"]))
                self.fail("unknown option")
            elif k == 1:
                # must be last: its argument is missing
                self.missing = s.choice(["-o", "--output", "-D", "--include", "--source-id", "-I", "--pp-timestamp", "--target-profile"])
                self.fail("missing argument")
            elif k == 2:
                self.args.append(s.choice(["--dump-ir=x", "--json-errors=1", "--feature-empty-structs=1", "--detailed-output=yes"]))
                self.fail("argument to an option that takes none")
            elif k == 3:
                self.bad_target = True
                self.opt(None, "target-profile", s.choice(["", "x86", "amd64-sysv", "amd64-sysv-gas2"]))
            elif k == 4:
                self.out = s.choice(["nodir/o", "adir", "/dev/full", "nodir/../o"])
                self.opt("o", "output", self.out)
            elif k == 5:
                self.incs.append("nofile.h")
                self.opt(None, "include", "nofile.h")
            elif k == 6:
                self.input_override = s.choice(["nofile.c", "adir", "nodir/t.c", ""])
            else:
                self.second = s.choice(["other.c", "-p", "-o", "--dump-ir"])
                self.labels.add("bad-second-input")

    input_override = None
    second = None
    missing = None


HQ = {"d1": "101", "d2": "202", "d3": "303", "./d2": "202"}


class C26(pbt.Check):
    id = "C26"
    rule = ("a case is a random command line of 1-8 options (short, attached, long and --long=value forms, repeated and contradicting ones, malformed ones in a quarter of the cases) with an input whose text depends on "
            "macros, headers, --include files, time stamp, source name and features; a model of the documented options predicts status, destination and content, the content by running the predicted action on a source "
            "with every option's effect written out; non-trivial: at least three options")
    quick = (600, 10)
    thorough = (9000, 10)

    def setup(self):
        self.tc = cc.Toolchain("fast")

    def gen(self, s):
        c = Cl(s)
        n = s.range(1, 8)
        bad = s.chance(25)
        for i in range(n):
            k = s.weighted([(4, "action"), (1, "skip"), (3, "out"), (4, "define"), (3, "dir"), (2, "include"), (2, "stamp"), (2, "errors"), (2, "source-id"), (1, "detailed"), (1, "target"), (3, "feature")])
            c.step(k)
        if bad:
            c.step("bad")
        stdin = s.chance(25)
        construct = s.choice(list(FEATURES) + list(NEGATIVE)) if s.chance(60) else None
        if c.features and s.chance(75):
            construct = s.choice(sorted(c.features))
        syntax = s.chance(12)
        if s.chance(10) and not c.missing:
            c.args.append("--")
        text = json.dumps({"args": c.args, "stdin": stdin, "construct": construct, "syntax-error": syntax, "missing": c.missing, "second": c.second, "input": c.input_override}, indent=1)
        return pbt.Case(text, n >= 3, sorted(c.labels), {"c": c, "stdin": stdin, "construct": construct, "syntax": syntax})

    def source(self, c, construct, syntax):
        """(text as given, same with the effect of all options written out; None where not expressible)"""
        given, plain = [], []
        defs = {} if c.skip else c.defs
        if not c.skip:
            given += ["#include <hq.h>"]
            given += ["int hq = HQ;"]
            given += ["#ifdef %s\nint def_%s = %s + 0;\n#endif" % (n, n, n) for n in NAMES]
            given += ["#ifdef INC1\nint inc1 = INC1;\n#endif", "#ifdef INC2\nint inc2 = INC2;\n#endif"]
            given += ["const char *file = __FILE__;", "const char *date = __DATE__ \" \" __TIME__;"] if c.stamp is not None else ["const char *file = __FILE__;"]
        given += ["int base = 5;"]
        if construct:
            given.append(FEATURES.get(construct) or NEGATIVE[construct])
        if syntax:
            given.append("int broken = ;")
        return "\n".join(given) + "\n"

    def plain(self, c, construct, fname):
        out = []
        incs = []
        for f in c.incs:
            out.append("int from_%s;" % f[:4])
        if not c.skip:
            hq = next((HQ[d] for d in c.dirs if d in HQ), None)
            out.append("int hq = %s;" % hq)
            for n in NAMES:
                if n in c.defs:
                    out.append("int def_%s = %s + 0;" % (n, c.defs[n]))
            # the order of --include files and of later definitions is not at issue: each defines its own macro
            if "inc1.h" in c.incs:
                out.append("int inc1 = 11;")
            if "inc2.h" in c.incs:
                out.append("int inc2 = %d;" % 22)
            out.append('const char *file = "%s";' % fname.replace("\\", "\\\\").replace('"', '\\"'))
            if c.stamp is not None:
                t = time.gmtime(c.stamp)
                mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][t.tm_mon - 1]
                out.append('const char *date = "%s %2d %d" " " "%02d:%02d:%02d";' % (mon, t.tm_mday, t.tm_year, t.tm_hour, t.tm_min, t.tm_sec))
        out.append("int base = 5;")
        if construct:
            out.append(FEATURES.get(construct) or NEGATIVE[construct])
        return "\n".join(out) + "\n"

    def run(self, cases, wd):
        out = []
        for i, c in enumerate(cases):
            d = os.path.join(wd, "k%d" % i)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            out.append(self.one_case(c, d))
        return out

    def one_case(self, case, d):
        c, construct, syntax, stdin = case.data["c"], case.data["construct"], case.data["syntax"], case.data["stdin"]
        k = self.tc.kefir
        env = dict(cc.CLEAN_ENV, TZ="UTC")

        def put(name, text):
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        for x in ("d1", "d2", "d3", "sub", "adir"):
            os.makedirs(os.path.join(d, x))
        for x in ("d1", "d2", "d3"):
            put(x + "/hq.h", "#define HQ %s\n" % HQ[x])
        put("inc1.h", "int from_inc1;\n#define INC1 11\n")
        put("inc2.h", "int from_inc2;\n#define INC2 22\n")
        text = self.source(c, construct, syntax)
        put("t.c", text)
        put("other.c", "int other;\n")
        args = list(c.args)
        inp = None
        infile = "t.c"
        if c.input_override is not None:
            infile = c.input_override
            args.append(infile)
        elif c.missing:
            args.append(c.missing)
            inp = text.encode()
        elif stdin:
            inp = text.encode()
            infile = None
        else:
            args.append("t.c")
        if c.second is not None and not c.missing:
            args += [c.second] if infile else ["t.c", c.second]
        fname = c.source_id if c.source_id is not None else infile if infile else "<stdin>"
        # what is expected
        err = c.error
        needs_input = c.action not in ("help", "version", "runtime")
        if err is None and c.second is not None and not c.missing:
            err = "two input files"
        if err is None and c.bad_target and c.action not in ("help", "version"):
            err = "unknown target"
        badout = c.out in ("nodir/o", "adir", "/dev/full", "nodir/../o")
        if err is None and badout and c.action not in ("help", "version"):
            err = "output cannot be written"
        if err is None and needs_input:
            if c.input_override is not None:
                err = "input cannot be read"
            elif not c.skip and "nofile.h" in c.incs:
                err = "--include file not found"
            elif not c.skip and not any(x in HQ for x in c.dirs):
                err = "header not found"
            elif c.action in ("ir", "ast", "asm"):
                if syntax:
                    err = "syntax error"
                elif c.action == "ast" and construct == "empty-structs":
                    err = "?"
                elif construct in FEATURES and not c.features.get(construct):
                    err = "construct without its feature"
                elif construct in NEGATIVE and c.features.get(construct):
                    err = "construct excluded by a feature"
        r = cc.run([k] + args, cwd=d, stdin=inp, env=env)
        if r.crashed:
            return fail("compiler died with status %d" % r.rc)
        outp = None
        if c.out is not None and not badout and c.missing not in ("-o", "--output"):
            try:
                outp = open(os.path.join(d, c.out), "rb").read()
            except OSError:
                outp = None
        if err == "?":
            return OK
        if err:
            if r.rc == 0:
                return fail("%s: exit status 0" % err)
            if not r.err:
                return fail("%s: no diagnostic" % err)
            if c.action == "asm" and (r.out or outp):
                return fail("%s: output produced" % err)
            if c.error is None and c.second is None:
                if c.json:
                    try:
                        j = json.loads(r.err.decode())
                    except ValueError:
                        return fail("%s: --json-errors given but the diagnostic is not JSON: %r" % (err, r.err[:200]))
                    if err == "syntax error" and not any(e.get("source_location", {}).get("source") == fname for e in j):
                        return fail("diagnostic does not name source %r: %s" % (fname, j))
                else:
                    if r.err.lstrip()[:1] in (b"[", b"{"):
                        return fail("%s: JSON diagnostic without --json-errors" % err)
                    if err == "syntax error" and fname not in r.err.decode("utf-8", "replace"):
                        return fail("diagnostic does not name source %r" % fname)
            return OK
        if r.rc != 0:
            return fail("valid command line rejected (rc %d): %s" % (r.rc, r.err.decode("utf-8", "replace")[:300]))
        if c.action in ("help", "version"):
            if c.action == "help" and b"Usage: kefir" not in r.out:
                return fail("help text not printed")
            if c.action == "version" and not re.match(rb"^\d+\.\d+\.\d+\n$", r.out):
                return fail("version not printed: %r" % r.out[:100])
            return OK
        if c.out is not None:
            if outp is None:
                return fail("output file '%s' not written" % c.out)
            if r.out:
                return fail("output on stdout although -o is given")
            for o in ("o1", "o2", "out put.s", "sub/o3"):
                if o != c.out and os.path.exists(os.path.join(d, o)):
                    return fail("an overridden output file '%s' was written" % o)
            got = outp
        else:
            got = r.out
        if c.action == "runtime":
            ref = cc.run([k, "--dump-runtime-code"], cwd=d, env=env)
            if got != ref.out or b"__kefirrt" not in got:
                return fail("runtime code differs")
            return OK
        # the same action on a source with all effects written out
        plain = self.plain(c, construct, fname)
        if c.skip:
            plain = text
        os.makedirs(os.path.join(d, "ref"))
        put("ref/p.c", plain)
        if c.action == "pp":
            a = pplex.tokens(got.decode("utf-8", "replace"), False)
            b = pplex.tokens(plain if not syntax else plain + "int broken = ;\n", False)
            if a != b:
                j = next((x for x in range(min(len(a), len(b))) if a[x] != b[x]), min(len(a), len(b)))
                return fail("preprocessed output differs at token %d: %s, expected %s" % (j, a[max(0, j - 3):j + 4], b[max(0, j - 3):j + 4]))
            return OK
        if c.action == "tokens" and syntax:
            put("ref/p.c", plain + ("int broken = ;\n" if not c.skip else ""))
        fl = ["--feature-" + f for f, on in c.features.items() if on]
        ref = cc.run([k, ACTIONS[c.action]] + fl + (["--detailed-output"] if c.detailed else []) + ["ref/p.c"], cwd=d, env=env)
        if ref.rc != 0:
            return discard("reference rejected: " + ref.err.decode("utf-8", "replace")[:200])
        if c.action in ("tokens", "ast"):
            try:
                ja, jb = json.loads(got.decode()), json.loads(ref.out.decode())
            except ValueError as e:
                return fail("dump is not JSON: %s" % e)
            locs = set()
            ja, jb = strip(ja, locs), strip(jb, set())
            if bool(locs) != c.detailed:
                return fail("source locations %s although --detailed-output was %s" % ("printed" if locs else "missing", "given" if c.detailed else "not given"))
            if c.detailed and fname not in locs:
                return fail("no location names the source %r: %s" % (fname, sorted(locs)))
            if ja != jb:
                return fail("%s dump differs from that of the program with the options' effects written out" % c.action)
            return OK
        if got != ref.out:
            la, lb = ref.out.split(b"\n"), got.split(b"\n")
            j = next((x for x in range(min(len(la), len(lb))) if la[x] != lb[x]), min(len(la), len(lb)))
            return fail("%s output differs at line %d: %r instead of %r" % (c.action, j + 1, lb[j:j + 1], la[j:j + 1]))
        return OK


def strip(j, locs):
    if isinstance(j, dict):
        if "source_location" in j and isinstance(j["source_location"], dict):
            locs.add(j["source_location"].get("source"))
        return {a: strip(b, locs) for a, b in j.items() if a != "source_location"}
    if isinstance(j, list):
        return [strip(x, locs) for x in j]
    return j


if __name__ == "__main__":
    sys.exit(pbt.main(C26()))
