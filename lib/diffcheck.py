"""Differential checks: the same generated cases compiled by kefir and by gcc, run under the same driver."""
import os
from . import cc, pbt
from .pbt import OK, fail, discard


def short(b, n=600):
    return b.decode("utf-8", "replace").strip()[:n]


class DiffCheck(pbt.Check):
    """case.data: {'code': C text defining void $Kmain(void), names prefixed with $K; 'expect': optional list of lines;
    'host': optional C text compiled by gcc in both builds; 'opts': extra kefir options; 'gopts'}"""
    variant = "fast"
    includes = ()
    prelude = cc.PROTOS
    host_prelude = cc.PROTOS
    kefir_opts = ()
    gcc_opts = ()
    host_opts = ()
    clang_opts = ()

    def setup(self):
        self.tc = cc.Toolchain(self.variant)

    def source(self, cases, key="code"):
        out = [self.prelude if key == "code" else self.host_prelude]
        for k, c in enumerate(cases):
            t = c.data.get(key)
            if t:
                out.append(t.replace("$K", "c%d_" % k))
        if key == "code":
            for k, c in enumerate(cases):
                out.append("void c%d_main(void);" % k)
            out.append("void (*const cases[])(void) = {%s};" % ", ".join("c%d_main" % k for k in range(len(cases))))
            out.append("const int ncases = %d;" % len(cases))
        return "\n".join(out) + "\n"

    def replay_files(self, case):
        f = {"c": self.source([case])}
        if case.data.get("host"):
            f["host.c"] = self.source([case], "host")
        return f

    def split(self, cases, wd):
        res = []
        h = len(cases) // 2
        for i, part in enumerate((cases[:h], cases[h:])):
            d = os.path.join(wd, "s%d" % i)
            os.makedirs(d, exist_ok=True)
            res += self.run(part, d)
        return res

    def run(self, cases, wd):
        tc = self.tc
        src = os.path.join(wd, "t.c")
        with open(src, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(self.source(cases))
        host = []
        if any(c.data.get("host") for c in cases):
            with open(os.path.join(wd, "h.c"), "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(self.source(cases, "host"))
            r = tc.gcc_obj(wd, "h.c", "h.o", self.gcc_opts + self.host_opts)
            if r.rc != 0:
                if len(cases) == 1:
                    return [discard("gcc rejects host part: " + short(r.err, 200))]
                return self.split(cases, wd)
            host = ["h.o"]
        r = tc.gcc_obj(wd, "t.c", "g.o", self.gcc_opts)
        if r.rc != 0:
            if len(cases) == 1:
                return [discard("gcc rejects: " + short(r.err, 200))]
            return self.split(cases, wd)
        stage, r = tc.kefir_obj(wd, "t.c", "k.o", self.kefir_opts)
        if stage != "ok":
            if len(cases) == 1:
                what = "compiler" if stage == "kefir" else "assembler on kefir's output"
                if r.timeout:
                    return [fail("%s did not terminate within its CPU limit on a valid program" % what)]
                return [fail("%s failed (rc %d) on a program gcc accepts: %s" % (what, r.rc, short(r.err or r.out)))]
            return self.split(cases, wd)
        outs = []
        for tag in ("g", "k"):
            r = tc.link(wd, [tag + ".o"] + host, tag + ".exe")
            if r.rc != 0:
                if len(cases) == 1:
                    if tag == "k":
                        return [fail("object file does not link: " + short(r.err))]
                    return [discard("reference does not link: " + short(r.err, 200))]
                return self.split(cases, wd)
            r = cc.run([os.path.join(wd, tag + ".exe")], cwd=wd, cpu=60)
            outs.append(cc.split_cases(r.out, len(cases)))
        res = []
        for i, c in enumerate(cases):
            g, k = outs[0][i], outs[1][i]
            res.append(self.compare(c, k, g))
            if res[-1][0] == "fail" and k is not None and not c.data.get("gcc_only") and self.second_opinion(c, g, wd):
                res[-1] = discard("references disagree")
        return res

    def second_opinion(self, c, g, wd):
        """True when clang disagrees with gcc: a mismatch counts only where both references agree (neither is always right)."""
        d = os.path.join(wd, "clang")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "t.c"), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(self.source([c]))
        objs = ["t.o"]
        if c.data.get("host"):
            with open(os.path.join(d, "h.c"), "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(self.source([c], "host"))
            if self.tc.gcc_obj(d, "h.c", "h.o", self.gcc_opts + self.host_opts).rc != 0:
                return False
            objs.append("h.o")
        if self.tc.clang_obj(d, "t.c", "t.o", self.clang_opts).rc != 0 or self.tc.link(d, objs, "t.exe").rc != 0:
            return False
        r = cc.run([os.path.join(d, "t.exe")], cwd=d, cpu=60)
        return cc.split_cases(r.out, 1)[0] != g

    def compare(self, c, k, g):
        if g is None or any(l.startswith(("sig ", "rc ")) for l in g):
            return discard("reference run abnormal")
        exp = c.data.get("expect")
        if exp is not None and exp != g:
            return discard("model disagrees with gcc")
        if k is None:
            return fail("case did not run in the kefir-built program")
        if k != g:
            n = min(len(k), len(g))
            d = next((i for i in range(n) if k[i] != g[i]), n)
            return fail("output differs at item %d: kefir %s, expected %s (kefir %d items, expected %d)" % (
                d, k[d:d + 3], g[d:d + 3], len(k), len(g)))
        return OK

    def probe_finding(self, e):
        """finding 'input' is a case code (with $K names) kept in findings/: still failing?"""
        import shutil
        p = os.path.join(pbt.VERIF, e["input"])
        code, _, host = open(p).read().partition("/* gcc part */\n")
        c = pbt.Case(e["id"], data={"code": code, "host": host or None})
        wd = pbt.scratch(self.id)
        try:
            return self.run([c], wd)[0][0] == "fail"
        finally:
            shutil.rmtree(wd, ignore_errors=True)
