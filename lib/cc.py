"""Compile/assemble/link/run helpers. Everything happens in a scratch directory given by the caller."""
import os, resource, signal, subprocess
from . import kbuild

MUSL = "/usr/lib/x86_64-linux-musl"
MUSL_INC = "/usr/include/x86_64-linux-musl"
CLEAN_ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "HOME": "/nonexistent"}

PROTOS = """\
void o_u(unsigned long long); void o_i(long long); void o_x(int); void o_f(float); void o_d(double); void o_ld(long double);
void o_s(const char *); void o_m(const void *, unsigned long); void dirty_stack(int); void o_preserved(void (*)(void));
"""


class Res:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        return self.rc < 0 or self.rc >= 128


def run(cmd, cwd=None, stdin=None, cpu=60, wall=None, mem=None, env=None, out_limit=64 << 20):
    """CPU-time limit (not wall time) decides timeouts; the wall limit is a distant backstop."""
    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if out_limit:
            resource.setrlimit(resource.RLIMIT_FSIZE, (out_limit, out_limit))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or CLEAN_ENV, preexec_fn=pre)
    try:
        out, err = p.communicate(stdin, timeout=wall or cpu * 6 + 30)
        to = p.returncode in (-signal.SIGXCPU, -signal.SIGKILL)
        return Res(p.returncode, out, err, to)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return Res(-9, out, err, True)


class Toolchain:
    def __init__(self, variant="fast"):
        self.kefir = kbuild.build(variant)
        self.rt = kbuild.runtime_obj()
        self.driver = kbuild.support_obj("driver.c")

    def kefir_asm(self, wd, src, out, opts=(), cpu=60):
        return run([self.kefir, *opts, "-o", out, src], cwd=wd, cpu=cpu)

    def assemble(self, wd, s, o):
        return run(["as", "-o", o, s], cwd=wd)

    def kefir_obj(self, wd, src, o, opts=(), cpu=60):
        """returns (stage, Res): stage is 'ok', 'kefir' or 'as'"""
        s = o + ".s"
        r = self.kefir_asm(wd, src, s, opts, cpu)
        if r.rc != 0:
            return "kefir", r
        r = self.assemble(wd, s, o)
        if r.rc != 0:
            return "as", r
        return "ok", r

    def gcc_obj(self, wd, src, o, opts=()):
        return run(["gcc", "-std=gnu17", "-w", "-O0", "-fno-pie", "-fno-stack-protector", "-fwrapv", "-ffp-contract=off", "-fno-strict-aliasing", *opts, "-c", src, "-o", o], cwd=wd)

    def clang_obj(self, wd, src, o, opts=()):
        return run(["clang", "-std=gnu17", "-w", "-O0", "-fno-pie", "-fno-stack-protector", "-fwrapv", "-ffp-contract=off", "-fno-strict-aliasing", *opts, "-c", src, "-o", o], cwd=wd)

    def link(self, wd, objs, exe, driver=True):
        o = ([self.driver] if driver else []) + list(objs) + [self.rt]
        return run(["ld", "--no-warn-execstack", "--no-warn-rwx-segments", "-static", "-o", exe, MUSL + "/crt1.o", MUSL + "/crti.o", *o, "--start-group", MUSL + "/libc.a", LIBGCC, "--end-group", MUSL + "/crtn.o"], cwd=wd)


def _libgcc():
    return subprocess.run(["gcc", "-print-libgcc-file-name"], stdout=subprocess.PIPE).stdout.decode().strip()


LIBGCC = _libgcc()


def split_cases(out, n):
    """driver output -> per case list of lines, or None when the case did not start"""
    res = [None] * n
    cur = None
    for l in out.decode("latin-1").split("\n"):
        if l.startswith("#"):
            cur = int(l[1:])
            res[cur] = []
        elif l.startswith("!"):
            k = int(l[1:].split()[0])
            if res[k] is None:
                res[k] = []
            res[k].append(l.split(" ", 1)[1] if " " in l else l)
        elif l and cur is not None:
            res[cur].append(l)
    return res
