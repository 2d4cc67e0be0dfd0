"""A small property-based-testing engine: choice sequences, batched parallel search, confirmation, shrinking, evidence."""
import hashlib, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Src:
    """Source of all random choices of a case. Recorded, so that a case is a pure function of its choice sequence."""
    __slots__ = ("rng", "pre", "rec", "size")

    def __init__(self, rng=None, pre=None, size=1.0):
        self.rng, self.pre, self.rec, self.size = rng, pre, [], size

    def draw(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.pre is not None:
            i = len(self.rec)
            v = self.pre[i] % n if i < len(self.pre) else 0
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def range(self, lo, hi):
        """inclusive; lo is the simplest"""
        return lo + self.draw(hi - lo + 1)

    def choice(self, xs):
        return xs[self.draw(len(xs))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], first is the simplest"""
        t = sum(w for w, _ in pairs)
        v = self.draw(t)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def chance(self, num, den=100):
        """True with probability num/den; 0 -> False"""
        return self.draw(den) >= den - num

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.draw(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def sample(self, xs, k):
        return self.shuffle(xs)[:k]


class Case:
    """text: what identifies/represents the case; nontrivial by the check's rule; labels for the distribution; data for run()"""
    __slots__ = ("text", "nontrivial", "labels", "data", "choices")

    def __init__(self, text, nontrivial=True, labels=(), data=None):
        self.text, self.nontrivial, self.labels, self.data, self.choices = text, nontrivial, tuple(labels), data, None


OK = ("ok", None)


def fail(msg):
    return ("fail", msg)


def discard(reason):
    return ("discard", reason)


class Check:
    id = "?"
    level = "exploration"
    rule = ""
    assumptions = []
    quick = (40, 20)      # batches, cases per batch
    thorough = (400, 20)
    wall_cap = {"quick": 600, "thorough": 6 * 3600}
    max_discard = 0.5
    shrink_s = 60
    shrink_tries = 20000
    shrink_batch = 24

    def setup(self):
        """once, in the master, before forking"""

    def gen(self, s):
        raise NotImplementedError

    def run(self, cases, wd):
        """-> list of OK / fail(msg) / discard(reason)"""
        raise NotImplementedError

    def replay_files(self, case):
        """extra files for the replay directory: {name: text/bytes}"""
        return {}

    def fixed_cases(self):
        """choice-free regression cases run first (list of Case)"""
        return []

    def extra_coverage(self):
        return {}

    # ---- helpers
    def one(self, choices, wd):
        s = Src(pre=list(choices))
        c = self.gen(s)
        c.choices = s.rec
        return c, self.run([c], wd)[0]


def scratch(tag):
    base = os.environ.get("VERIF_TMP") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="kverif-%s-" % tag, dir=base)


_check = None
_seed = 0
_tier = "quick"


def _case_seed(pid, seed, idx):
    return random.Random("%s/%d/%d" % (pid, seed, idx))


def _worker(job):
    kind, b, size = job
    chk = _check
    wd = scratch(chk.id)
    try:
        cases = []
        if kind == "fixed":
            cases = chk.fixed_cases()[b:b + size]
        else:
            for i in range(size):
                s = Src(rng=_case_seed(chk.id, _seed, b * size + i))
                c = chk.gen(s)
                c.choices = s.rec
                cases.append(c)
        res = chk.run(cases, wd)
        stats = []
        failures = []
        for c, r in zip(cases, res):
            h = hashlib.sha1(c.text.encode("utf-8", "surrogateescape")).hexdigest()[:16]
            stats.append((h, c.nontrivial, c.labels, r[0], r[1] if r[0] == "discard" else None))
            if r[0] == "fail":
                # confirm: three replays of the case alone; all have to fail
                msgs = []
                for k in range(3):
                    d = os.path.join(wd, "confirm%d" % k)
                    os.makedirs(d, exist_ok=True)
                    rr = chk.run([c], d)[0]
                    shutil.rmtree(d, ignore_errors=True)
                    msgs.append(rr)
                    if rr[0] != "fail":
                        break
                if all(m[0] == "fail" for m in msgs):
                    failures.append((kind, c.choices, c.text, msgs[0][1], c.data if kind == "fixed" else None))
                    break
                else:
                    stats[-1] = (h, c.nontrivial, c.labels, "unconfirmed", "%s / then %s" % (str(r[1])[:300], str(msgs[-1])[:300]))
        sample = None
        for c, r in zip(cases, res):
            if r[0] == "ok" and c.nontrivial and kind != "fixed":
                sample = c.text[:3000]
                break
        return (b, stats, failures, sample, None)
    except Exception:
        return (b, [], [], None, traceback.format_exc())
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def shrink(chk, choices, log=lambda *_: None):
    """Greedy minimisation of a failing choice sequence; candidates are tried in batches. Returns (choices, case, msg, tries)."""
    t0 = time.time()
    wd = scratch(chk.id + "-shrink")
    tries = [0]
    rounds = [0]
    best = [list(choices), None, None]
    bs = chk.shrink_batch

    def over():
        return tries[0] >= chk.shrink_tries or time.time() - t0 > chk.shrink_s

    def attempt(cands):
        """cands: list of choice sequences; keeps the smallest failing one. True if improved."""
        if over():
            return False
        d = os.path.join(wd, "t%d" % rounds[0])
        rounds[0] += 1
        os.makedirs(d)
        cases = []
        seen = set()
        for ch in cands:
            try:
                s = Src(pre=list(ch))
                c = chk.gen(s)
                c.choices = s.rec
            except Exception:
                continue
            key = tuple(c.choices)
            if key in seen or (len(key), list(key)) >= (len(best[0]), best[0]) and best[1] is not None:
                continue
            seen.add(key)
            cases.append(c)
        tries[0] += len(cases)
        try:
            res = chk.run(cases, d) if cases else []
        except Exception:
            return False
        finally:
            shutil.rmtree(d, ignore_errors=True)
        got = [(len(c.choices), c.choices, c, r[1]) for c, r in zip(cases, res) if r[0] == "fail"]
        if not got:
            return False
        _, ch, c, m = min(got, key=lambda x: (x[0], x[1]))
        if best[1] is None or (len(ch), ch) < (len(best[0]), best[0]):
            best[:] = [list(ch), c, m]
            return True
        return False

    def sweep(make):
        """make(cur) -> list of candidates; restarts from the same position after an improvement"""
        any_ = False
        pos = 0
        while not over():
            cands = make(best[0])
            if pos >= len(cands):
                return any_
            if attempt(cands[pos:pos + bs]):
                any_ = True
            else:
                pos += bs
        return any_

    attempt([choices])
    improved = best[1] is not None
    while improved and not over():
        improved = False
        size = max(1, len(best[0]) // 2)
        while size >= 1:
            improved |= sweep(lambda cur: [cur[:i] + cur[i + size:] for i in range(0, len(cur), max(1, size // 2))])
            size //= 2
        # replace a choice by a smaller one while deleting some of what follows (drops optional parts with their content)
        for dl in (1, 2, 4, 8):
            improved |= sweep(lambda cur: [cur[:i] + [0] + cur[i + 1 + dl:] for i in range(len(cur)) if cur[i]])
        for size in (8, 2, 1):
            improved |= sweep(lambda cur: [cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:] for i in range(0, len(cur), size) if any(cur[i:i + size])])
        improved |= sweep(lambda cur: [cur[:i] + [cur[i] // 2] + cur[i + 1:] for i in range(len(cur)) if cur[i] > 1])
        improved |= sweep(lambda cur: [cur[:i] + [cur[i] - 1] + cur[i + 1:] for i in range(len(cur)) if cur[i] > 0])
    shutil.rmtree(wd, ignore_errors=True)
    return best[0], best[1], best[2], tries[0]


def load_findings(pid):
    """known_findings.txt: 'KNOWN-FINDING: property=<id> <name> input=<file> <what>' / 'fixed: property=<id> <commit> <what>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            w = l.strip().split(None, 4)
            if len(w) == 5 and w[0] == "KNOWN-FINDING:" and w[1] == "property=" + pid and w[3].startswith("input="):
                out.append({"property": pid, "id": w[2], "input": w[3][6:], "what": w[4]})
    return out


def report_known(chk):
    """Each listed known finding is re-run; while it still fails it is reported as known (and only it)."""
    n = 0
    for e in load_findings(chk.id):
        try:
            still = chk.probe_finding(e)
        except Exception as ex:
            print("note: probe of known finding %s failed to run: %s" % (e.get("id"), ex))
            continue
        if still:
            n += 1
            print("KNOWN-FINDING: property=%s %s: %s" % (chk.id, e.get("id"), e["what"]))
    return n


def write_evidence(chk, tier, seed, cov, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": chk.id, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov,
          "assumptions": list(chk.assumptions), "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", chk.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def write_replay(chk, kind, choices, case_text, msg, files):
    d = os.path.join(OUT, "replay", chk.id)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((case_text + str(msg)).encode("utf-8", "surrogateescape")).hexdigest()[:12]
    p = os.path.join(d, h + ".json")
    with open(p, "w") as f:
        json.dump({"property": chk.id, "kind": kind, "choices": choices, "message": msg, "case": case_text}, f, indent=1)
    for n, t in files.items():
        with open(os.path.join(d, h + "." + n), "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape"))
    return p


def main(chk):
    sys.exit(_main(chk))


def _main(chk):
    global _check, _seed, _tier
    args = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    chk.tier = tier
    _check, _seed, _tier = chk, seed, tier
    if "--gen" in args:  # print generated cases
        k = int(args[args.index("--gen") + 1])
        for i in range(k):
            s = Src(rng=_case_seed(chk.id, seed, i))
            c = chk.gen(s)
            print("---- case", i, c.labels, c.nontrivial, len(s.rec))
            print(c.text)
        return 0
    chk.setup()
    if "--replay" in args:
        j = json.load(open(args[args.index("--replay") + 1]))
        wd = scratch(chk.id)
        try:
            if j["kind"] == "fixed":
                c = [x for x in chk.fixed_cases() if x.text == j["case"]][0]
                r = chk.run([c], wd)[0]
            else:
                c, r = chk.one(j["choices"], wd)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        print(c.text)
        print(r)
        return 1 if r[0] == "fail" else 0
    t0 = time.time()
    nb, bs = chk.quick if tier == "quick" else chk.thorough
    if "--batches" in args:
        nb = int(args[args.index("--batches") + 1])
    keep = "--keep-going" in args
    fixed = chk.fixed_cases()
    jobs = [("fixed", b, bs) for b in range(0, len(fixed), bs)] + [("gen", b, bs) for b in range(nb)]
    ev = 0
    seen = set()
    labels = Counter()
    disc = Counter()
    unconf = []
    samples = []
    failures = []
    errors = []
    batches = 0
    capped = False
    ctx = mp.get_context("fork")
    pool = ctx.Pool(WORKERS)
    try:
        for b, stats, fl, sample, err in pool.imap_unordered(_worker, jobs):
            batches += 1
            if err:
                errors.append(err)
                if len(errors) >= 3:
                    break
                continue
            for h, nt, lb, st, why in stats:
                ev += 1
                if st == "discard":
                    disc[why] += 1
                    continue
                if st == "unconfirmed":
                    unconf.append(why)
                labels.update(lb)
                if nt:
                    seen.add(h)
            if sample and len(samples) < 3:
                samples.append(sample)
            if fl:
                failures += fl
                if not keep:
                    break
                for f in fl:
                    print("FAIL", f[3])
                    if os.environ.get("PBT_SHOW"):
                        print(f[2])
            if time.time() - t0 > chk.wall_cap[tier]:
                capped = True
                break
    finally:
        pool.terminate()
        pool.join()
    if errors:
        sys.stderr.write("internal error in the check:\n" + errors[0] + "\n")
        if not failures:
            return 3
    if not failures and ev and sum(disc.values()) > chk.max_discard * ev:
        sys.stderr.write("check is vacuous: %d of %d cases discarded: %s\n" % (sum(disc.values()), ev, disc.most_common(3)))
        return 3
    known = report_known(chk)
    rc = 0
    if failures and not keep:
        kind, choices, text, msg, data = failures[0]
        files = {}
        if kind != "fixed":
            ch, c, m, tries = shrink(chk, choices)
            if c is not None:
                choices, text, msg = ch, c.text, m
                files = chk.replay_files(c)
        print("property %s violated: %s" % (chk.id, msg))
        print(text[:6000])
        p = write_replay(chk, kind, choices, text, msg, files)
        print("VIOLATION property=%s replay=%s" % (chk.id, p))
        rc = 1
    elif failures:
        rc = 1
    cov = {"evaluations": ev, "distinct_nontrivial": len(seen), "rule": chk.rule, "samples": samples,
           "batches": batches, "labels": dict(labels.most_common(80)), "discarded": dict(disc.most_common(20)),
           "unconfirmed": len(unconf), "known_findings_reproduced": known, "stopped_by_wall_cap": capped}
    if unconf:
        cov["unconfirmed_samples"] = unconf[:3]
    cov.update(chk.extra_coverage())
    write_evidence(chk, tier, seed, cov, time.time() - t0, len(failures))
    print("%s %s: %d cases, %d distinct non-trivial, %d discarded, %d batches, %.1fs, rc=%d" % (
        chk.id, tier, ev, len(seen), sum(disc.values()), batches, time.time() - t0, rc))
    if "-v" in args:
        for k, v in labels.most_common(100):
            print("  %-40s %d" % (k, v))
        print("  discards:", dict(disc))
        print("  unconfirmed:", unconf[:3])
    return rc
