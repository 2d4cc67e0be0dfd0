"""Builds kefir (and harnesses) from /repo's working tree into /verif/build, with content-hashed objects."""
import fcntl, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KEFIR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = os.cpu_count() or 8

VARIANTS = {
    "fast": ("gcc", ["-O1", "-w"], []),
    "asan": ("gcc", ["-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all"], ["-fsanitize=address,undefined"]),
    "fuzz": ("clang", ["-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,fuzzer-no-link",
                       "-fno-sanitize-recover=all", "-fno-sanitize=pointer-overflow"],
             ["-fsanitize=address,undefined"]),
}
LIBDIRS_EXCLUDE = ("source/tests/",)


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "source")):
        ds.sort()
        rel = os.path.relpath(d, REPO)
        if (rel + "/").startswith(LIBDIRS_EXCLUDE):
            ds[:] = []
            continue
        for f in sorted(fs):
            if f.endswith(".c"):
                out.append(os.path.join(rel, f))
    return out


def headers_hash():
    m = hashlib.sha256()
    for top in ("headers",):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                m.update(p.encode())
                m.update(_read(p))
    return m.hexdigest()


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _objects(variant, extra=()):
    cc, cflags, _ = VARIANTS[variant]
    hh = headers_hash()
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    jobs, objs = [], []
    flags = ["-std=c11", "-I", os.path.join(REPO, "headers")] + cflags
    for s in sources():
        p = os.path.join(REPO, s)
        text = _read(p)
        k = _h(cc, " ".join(flags), hh, s, text)
        o = os.path.join(odir, k + ".o")
        objs.append((s, o))
        if not os.path.exists(o):
            jobs.append(([cc] + flags + ["-c", p, "-o", o + ".tmp"], o))
    for s in ("source/codegen/amd64/amd64-sysv-runtime-code.s", "source/main/help.s"):
        p = os.path.join(REPO, s)
        inc = "source/runtime/amd64_sysv.s" if "runtime" in s else "source/main/help.txt"
        k = _h("as", s, _read(p), _read(os.path.join(REPO, inc)))
        o = os.path.join(odir, k + ".o")
        objs.append((s, o))
        if not os.path.exists(o):
            jobs.append((["as", "-o", o + ".tmp", s], o))

    def one(j):
        _run(j[0], cwd=REPO)
        os.replace(j[1] + ".tmp", j[1])

    if jobs:
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, jobs))
    return objs


def build(variant="fast"):
    """Returns the path of the kefir executable of that variant."""
    with Lock():
        objs = _objects(variant)
        return _link(variant, "kefir", [o for _, o in objs])


def build_harness(variant, name, srcs, extra_flags=(), link_flags=(), cxx=False):
    """Links harness sources (absolute paths) with all library objects (without main)."""
    with Lock():
        cc, cflags, _ = VARIANTS[variant]
        if cxx:
            cc = {"gcc": "g++", "clang": "clang++"}[cc]
        objs = [o for s, o in _objects(variant) if not s.startswith("source/main/")]
        hh = headers_hash()
        mine = []
        for s in srcs:
            flags = ["-std=c++17" if cxx else "-std=c11", "-D_GNU_SOURCE", "-I", os.path.join(REPO, "headers"), "-I", os.path.join(VERIF, "harness")] + cflags + list(extra_flags)
            k = _h(cc, " ".join(flags), hh, s, _read(s))
            o = os.path.join(BUILD, "obj", k + ".o")
            if not os.path.exists(o):
                _run([cc] + flags + ["-c", s, "-o", o + ".tmp"], cwd=REPO)
                os.replace(o + ".tmp", o)
            mine.append(o)
        return _link(variant, name, mine + objs, link_flags, cc)


def _link(variant, name, objs, link_flags=(), cc=None):
    c, _, ld = VARIANTS[variant]
    cc = cc or c
    k = _h(cc, " ".join(ld), " ".join(link_flags), *objs)
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s-%s" % (name, variant, k))
    if not os.path.exists(out):
        rsp = out + ".rsp"
        with open(rsp, "w") as f:
            f.write("\n".join(objs))
        _run([cc, "-o", out + ".tmp", "@" + rsp] + ld + list(link_flags) + ["-Wl,--no-warn-execstack"])
        os.replace(out + ".tmp", out)
        os.unlink(rsp)
    return out


def runtime_obj():
    """The runtime library users link with, assembled from the working tree."""
    with Lock():
        p = os.path.join(REPO, "source/runtime/amd64_sysv.s")
        o = os.path.join(BUILD, "obj", _h("rt", _read(p)) + ".rt.o")
        os.makedirs(os.path.dirname(o), exist_ok=True)
        if not os.path.exists(o):
            _run(["as", "-o", o + ".tmp", p])
            os.replace(o + ".tmp", o)
        return o


def support_obj(name, flags=()):
    """A gcc-compiled support file of /verif/harness."""
    with Lock():
        p = os.path.join(VERIF, "harness", name)
        o = os.path.join(BUILD, "obj", _h("sup2", " ".join(flags), _read(p)) + ".sup.o")
        os.makedirs(os.path.dirname(o), exist_ok=True)
        if not os.path.exists(o):
            _run(["gcc", "-w", "-O1", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-nostdinc", "-isystem", "/usr/include/x86_64-linux-musl", "-isystem", "/usr/lib/gcc/x86_64-linux-gnu/13/include", *flags, "-c", p, "-o", o + ".tmp"])
            os.replace(o + ".tmp", o)
        return o


if __name__ == "__main__":
    for v in sys.argv[1:] or ["fast"]:
        print(build(v))
