"""C24: core containers, stateful model-based testing with injected allocation failures."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import cc, kbuild, pbt
from lib.pbt import OK, fail, discard

STR = ["Aa", "BB", "AaAa", "AaBB", "BBAa", "BBBB", "a", "b", "x", "xy", "zz", "C#Aa", "BBAaBB", "AaAaBB", "AaBBBB", "BBBBBB", "BBBBAa", "AaBBAa", "BBAaAa", "AaAaAa", "foo", "_", "longer_identifier_name"]
CH = [0, 1, 65, 97, 127, 128, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff]


def shash(s):
    h = 7
    for c in s:
        h = (h * 31 + ord(c)) & (2**64 - 1)
    return h


class Mismatch(Exception):
    pass


def eq(got, want, what):
    if got != want:
        raise Mismatch("%s: expected %s, container gives %s" % (what, want, got))


class M:
    """models: apply(op words, rest of the output line, removed callbacks, failed by fault)"""
    def __init__(self, a, b):
        pass


class Hash(M):
    def __init__(self, a, b):
        self.k, self.d = a, {}

    def h(self, k):
        return shash(k) if self.k == 1 else int(k) % 4 if self.k == 2 else int(k)

    def items(self, ts):
        r = [tuple(t.split("=")) for t in ts]
        hs = [self.h(k) for k, _ in r]
        return sorted(r), hs == sorted(hs)

    def want(self):
        return sorted((k, str(v)) for k, v in self.d.items())

    def op(self, w, rest, rem, faulted):
        o = w[0]
        if o == "ins":
            eq(rem, [], "removal callbacks of an insertion")
            if faulted and rest[0] != "ok":
                return
            eq(rest, ["exists"] if w[1] in self.d else ["ok"], "insert %s" % w[1])
            self.d.setdefault(w[1], int(w[2]))
        elif o == "del":
            if w[1] in self.d:
                eq(rem, ["%s=%d" % (w[1], self.d.pop(w[1]))], "removal callbacks of delete %s" % w[1])
                eq(rest, ["ok"], "delete %s" % w[1])
            else:
                eq((rem, rest), ([], ["not-found"]), "delete of absent %s" % w[1])
        elif o == "has":
            eq(rest, ["1" if w[1] in self.d else "0"], "has %s" % w[1])
        elif o == "at":
            eq(rest, ["ok", str(self.d[w[1]])] if w[1] in self.d else ["not-found"], "at %s" % w[1])
        elif o == "iter":
            r, ordered = self.items(rest)
            eq(r, self.want(), "elements visited by iteration")
            eq(ordered, True, "iteration in ascending order of hash")
        elif o == "clean":
            eq(sorted(tuple(x.split("=")) for x in rem), self.want(), "removal callbacks of clean")
            eq(rest, ["ok"], "clean")
            self.d = {}
        elif o == "empty":
            eq(rest, ["0" if self.d else "1"], "empty")

    def free(self, rest, rem):
        eq(sorted(tuple(x.split("=")) for x in rem), self.want(), "removal callbacks of free")


class List(M):
    def __init__(self, a, b):
        self.l = [[], [], []]

    def show(self, l):
        return ["["] + list(map(str, l)) + ["]", str(len(l))]

    def op(self, w, rest, rem, faulted):
        o, l = w[0], self.l[int(w[1])]
        pre, gone = None, []
        if o in ("ins", "push"):
            if faulted and rest[0] != "ok":
                pre = [rest[0]]
            else:
                if o == "push":
                    l.append(int(w[2]))
                else:
                    l.insert(int(w[2]) + 1, int(w[3]))
                pre = ["ok"]
        elif o == "pop":
            gone = [str(l.pop(int(w[2])))]
            pre = ["ok"]
        elif o == "clear":
            gone = list(map(str, l))
            l.clear()
            pre = ["ok"]
        elif o == "move":
            s = self.l[int(w[2])]
            l.extend(s)
            s.clear()
            pre = ["ok"] + self.show(s)
        elif o == "top":
            pre = ["ok", str(l[-1] if l else 0)]
        elif o == "spop":
            v = l.pop() if l else 0
            gone = [str(v)] if rem or v else []
            pre = ["ok", str(v)]
        elif o == "at":
            pre = [str(l[int(w[2])]) if int(w[2]) < len(l) else "none"]
        eq(rem, gone, "removal callbacks of %s" % " ".join(w))
        eq(rest, pre + self.show(l), " ".join(w))

    def free(self, rest, rem):
        eq(sorted(rem), sorted(str(x) for l in self.l for x in l), "removal callbacks of free")


class Vec(M):
    def __init__(self, a, b):
        self.v, self.cap = [], b

    def op(self, w, rest, rem, faulted):
        o, a = w[0], int(w[1])
        b = int(w[2]) if len(w) > 2 else 0
        pre = ["ok"]
        if o == "app":
            if len(self.v) < self.cap:
                self.v.append(a & 255)
            else:
                pre = ["bounds"]
        elif o == "copy":
            if len(self.v) + b <= self.cap:
                self.v += [(a + i) & 255 for i in range(b)]
            else:
                pre = ["bounds"]
        elif o == "ext":
            if len(self.v) + a <= self.cap:
                self.v += [b & 255] * a
            else:
                pre = ["bounds"]
        elif o == "realloc":
            if faulted and rest[0] != "ok":
                pre = [rest[0]]
            elif a < len(self.v):
                pre = ["bounds"]
            else:
                self.cap = a
        eq(rest, pre + ["%d+%d:" % (len(self.v), self.cap - len(self.v))] + list(map(str, self.v)) + ["1"], " ".join(w))

    def free(self, rest, rem):
        pass


class Tree(M):
    def __init__(self, a, b):
        self.n = [(0, [])]

    def op(self, w, rest, rem, faulted):
        o, a = w[0], int(w[1])
        eq(rem, [], "removal callbacks of %s" % " ".join(w))
        if a >= len(self.n):
            a = 0
        if o == "add":
            if faulted and rest[0] != "ok":
                return
            eq(rest, ["ok"], " ".join(w))
            self.n.append((int(w[2]), []))
            self.n[a][1].append(len(self.n) - 1)
        elif o == "kids":
            eq(rest, [str(self.n[k][0]) for k in self.n[a][1]], "children")
        elif o == "iter":
            q, out = [a], []
            while q:
                k = q.pop(0)
                out.append(str(self.n[k][0]))
                q += self.n[k][1]
            if faulted and rest[-1] != "end":
                eq(rest[:-1], out[:len(rest) - 1], "iteration cut short by an allocation failure")
            else:
                eq(rest, out + ["end"], "iteration")

    def free(self, rest, rem):
        eq(sorted(rem), sorted(str(v) for v, _ in self.n), "removal callbacks of free")


class Trie(M):
    def __init__(self, a, b):
        self.n = [{}]

    def op(self, w, rest, rem, faulted):
        o, a, b = w[0], int(w[1]), int(w[2])
        if o == "add":
            if faulted and rest[0] != "ok":
                return
            if b in self.n[a]:
                eq(rest, ["exists"], " ".join(w))
            else:
                eq(rest, ["ok"], " ".join(w))
                self.n[a][b] = (int(w[3]), len(self.n))
                self.n.append({})
        else:
            eq(rest, ["ok", "%d=%d" % (b, self.n[a][b][0])] if b in self.n[a] else ["not-found"], " ".join(w))

    def free(self, rest, rem):
        pass


class Block(M):
    def __init__(self, a, b):
        self.s, self.d = a, set()

    @staticmethod
    def byte(i):
        return (i * 7 + 1) & 255

    def op(self, w, rest, rem, faulted):
        o = w[0]
        a = int(w[1]) if len(w) > 1 else 0
        init = [rest[i + 1] for i, t in enumerate(rest[:-1]) if t == "init"]
        if o == "block":
            if faulted and "ok" not in rest:
                eq(rem, [x + "=1" for x in init], "callbacks of a failed block creation")
                return
            eq(rem, [], "removal callbacks")
            eq(rest, ([] if a in self.d else ["init", str(a)]) + ["ok", str(self.byte(a))], " ".join(w))
            self.d.add(a)
        elif o == "get":
            eq(rest, ["ok", str(self.byte(a))] if a in self.d else ["not-found"], " ".join(w))
        elif o == "off":
            eq(rest, ["ok", str(a // self.s), str(a % self.s)], " ".join(w))
        elif o in ("iter", "skip"):
            want = [i for i in sorted(self.d) if o == "iter" or (i + 1) * self.s > a]
            eq(rest, ["%d=%d" % (i, self.byte(i)) for i in want], " ".join(w))

    def free(self, rest, rem):
        eq(sorted(rem), sorted("%d=1" % i for i in self.d), "removal callbacks of free (with block contents)")


class Str(M):
    def __init__(self, a, b):
        self.m = [a, b]
        self.v = [[], []]
        self.taint = [False, False]

    @staticmethod
    def enc(m, c):
        if m < 2:
            return list(chr(c).encode("utf-8"))
        if m == 2 and c > 0xffff:
            c -= 0x10000
            return [0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff)]
        return [c]

    @staticmethod
    def dec(m, v):
        if m < 2:
            return [ord(c) for c in bytes(v).decode("utf-8")]
        if m == 2:
            return [ord(c) for c in b"".join(x.to_bytes(2, "little") for x in v).decode("utf-16-le")]
        if any(x > 0x10ffff or 0xd800 <= x < 0xe000 for x in v):
            raise UnicodeError
        return list(v)

    def op(self, w, rest, rem, faulted):
        o, a = w[0], int(w[1])
        b = int(w[2]) if len(w) > 2 else 0
        if self.taint[a] or (o == "merge" and self.taint[1 - a]):
            self.taint[a] = True
            return
        pre = "ok"
        if faulted and rest[0] != "ok":
            if o == "merge":
                self.taint[a] = True
            return
        if o == "put":
            self.v[a] += self.enc(self.m[a], b)
        elif o == "raw":
            if b > [255, 255, 65535, 0xffffffff, 0x7fffffff][self.m[a]]:
                pre = "bounds"
            else:
                self.v[a].append(b)
        elif o == "conv":
            if self.m[a] != 0:
                pre = "error"
            else:
                try:
                    cs = self.dec(0, self.v[a]) if b > 1 else None
                except UnicodeError:
                    pre, b, cs = "error", 0, None
                if cs is not None:
                    self.v[a] = [x for c in cs for x in self.enc(b, c)]
                self.m[a] = b
        elif o == "merge" and (self.m[a] == self.m[1 - a] or (self.m[a] == 1 and self.m[1 - a] == 0)):
            self.v[a] += self.v[1 - a]
        elif o == "merge":
            try:
                cs = self.dec(self.m[1 - a], self.v[1 - a])
            except UnicodeError:
                self.taint[a] = True
                return
            self.v[a] += [x for c in cs for x in self.enc(self.m[a], c)]
        eq(rest, [pre, "m%d" % self.m[a], "%d:" % (len(self.v[a]) + 1)] + ["%x" % x for x in self.v[a]] + ["0"], " ".join(w))

    def free(self, rest, rem):
        pass


class Sym(M):
    def __init__(self, a, b):
        self.s, self.ids = {}, {}

    def op(self, w, rest, rem, faulted):
        if w[0] == "ins":
            if faulted and rest == ["null"]:
                return
            s = w[1]
            if len(rest) != 3 or rest[0] != s:
                raise Mismatch("insert %s gives %s" % (s, rest))
            if s in self.s:
                eq(rest[1:], self.s[s], "address and identifier of symbol %s inserted again" % s)
            else:
                if rest[2] in self.ids:
                    raise Mismatch("two symbols with the same identifier")
                eq(rest[1], "#%d" % len(self.s), "address of a new symbol")
                self.s[s] = rest[1:]
                self.ids[rest[2]] = s
        else:
            eq(rest, [self.ids.get("id" + w[1], "null")], " ".join(w))

    def free(self, rest, rem):
        pass


class Tok(M):
    def __init__(self, a, b):
        self.b = [[], [], []]
        self.taint = [False] * 3

    def op(self, w, rest, rem, faulted):
        o, a = w[0], int(w[1])
        if o in ("int", "lit", "punct", "pop"):
            if self.taint[a]:
                return
            pre = "ok"
            if o == "pop":
                if self.b[a]:
                    self.b[a].pop()
                else:
                    pre = "bounds"
            elif faulted and rest[0] != "ok":
                pre = rest[0]
            else:
                self.b[a].append({"int": "%s", "lit": '"%s"', "punct": "p%s"}[o] % w[2])
            eq(rest, [pre, "["] + self.b[a] + ["]"], " ".join(w))
        else:
            b = int(w[2])
            if self.taint[a] or self.taint[b] or (faulted and rest[0] != "ok"):
                self.taint[a] = True
                if o == "app":
                    self.taint[b] = True
                return
            self.b[a] = self.b[a] + self.b[b]
            if o == "app":
                self.b[b] = []
            eq(rest, ["ok", "["] + self.b[a] + ["]", "["] + self.b[b] + ["]"], " ".join(w))

    def free(self, rest, rem):
        pass


KINDS = {"hash": Hash, "list": List, "vec": Vec, "tree": Tree, "trie": Trie, "block": Block, "str": Str, "sym": Sym, "tok": Tok}


def gen_ops(s, kind, lab):
    """-> (header arguments, operations)"""
    ops = []
    faults = s.chance(35)
    n = s.weighted([(30, 8), (30, 25), (10, 70), (1, 300)])
    n = s.range(1, n)
    if kind == "hash":
        a, b = s.range(0, 2), 0
        pool = s.choice([4, 8, 30])
        def key():
            if a == 1:
                return STR[s.range(0, min(pool, len(STR)) - 1)]
            return str(s.range(0, pool)) if s.chance(95) else str(s.choice([2**64 - 1, 2**63, 2**32]))
        for _ in range(n):
            k = s.weighted([(8, "ins"), (5, "del"), (2, "has"), (2, "at"), (3, "iter"), (1, "empty")] + ([(1, "clean")] if n > 20 else []))
            ops.append("%s %s %d" % (k, key(), s.range(0, 99)) if k == "ins" else "%s %s" % (k, key()) if k in ("del", "has", "at") else k)
        ops.append("iter")
    elif kind == "list":
        a = b = 0
        ln = [0, 0, 0]
        for i in range(n):
            l = s.range(0, 2)
            k = s.weighted([(6, "ins"), (4, "pop"), (3, "push"), (3, "spop"), (1, "top"), (1, "clear"), (2, "move"), (2, "at")])
            if k == "ins":
                p = s.range(-1, ln[l] - 1)
                ops.append("ins %d %d %d" % (l, p, i + 1))
                ln[l] += 1
            elif k == "pop" and ln[l]:
                ops.append("pop %d %d" % (l, s.range(0, ln[l] - 1)))
                ln[l] -= 1
            elif k == "push":
                ops.append("push %d %d" % (l, i + 1))
                ln[l] += 1
            elif k == "spop":
                ops.append("spop %d" % l)
                ln[l] = max(0, ln[l] - 1)
            elif k == "clear":
                ops.append("clear %d" % l)
                ln[l] = 0
            elif k == "move":
                o = (l + s.range(1, 2)) % 3
                ops.append("move %d %d" % (l, o))
                ln[l] += ln[o]
                ln[o] = 0
            elif k == "at":
                ops.append("at %d %d" % (l, s.range(0, ln[l] + 1)))
            else:
                ops.append("top %d" % l)
        faults = False          # the indices above assume that insertions succeed; failures are added at the end
        if s.chance(40):
            lab.add("fault")
            ops.append("!0 ins 0 -1 777")
            ops.append("!0 push 1 778")
            ops.append("at 0 0")
    elif kind == "vec":
        a, b = s.choice([1, 2, 3, 4, 7, 8, 16, 24]), s.range(0, 12)
        ln, cap = 0, b
        for i in range(n):
            k = s.weighted([(6, "app"), (3, "copy"), (3, "ext"), (3, "realloc")])
            if k == "app":
                ops.append("app %d" % s.range(0, 255))
                ln += ln < cap
            elif k == "copy":
                c = s.range(0, 5)
                ops.append("copy %d %d" % (s.range(0, 255), c))
                ln += c if ln + c <= cap else 0
            elif k == "ext":
                c = s.range(0, 5)
                ops.append("ext %d %d" % (c, s.range(0, 255)))
                ln += c if ln + c <= cap else 0
            elif ln or cap == 0:
                c = s.range(1, 40)
                if s.chance(15) and faults:
                    ops.append("!0 realloc %d" % c)
                    lab.add("fault")
                    continue
                ops.append("realloc %d" % c)
                if c >= ln:
                    cap = c
        faults = False
    elif kind == "tree":
        a = b = 0
        cnt = 1
        for i in range(n):
            k = s.weighted([(6, "add"), (2, "kids"), (2, "iter")])
            if k == "add" and cnt < 900:
                if faults and s.chance(20):
                    lab.add("fault")
                    ops.append("!%d add %d %d" % (s.range(0, 1), s.range(0, cnt - 1), i + 1))
                    continue
                ops.append("add %d %d" % (s.range(0, cnt - 1), i + 1))
                cnt += 1
            else:
                ops.append("%s %d" % (k if k != "add" else "iter", s.range(0, cnt - 1)))
        ops.append("iter 0")
        if s.chance(30):
            ops.append("!%d iter 0" % s.range(0, 5))
        faults = False
    elif kind == "trie":
        a = b = 0
        have = [set()]
        for i in range(n):
            t = s.range(0, len(have) - 1)
            k = s.range(-2, 6)
            if s.chance(60):
                if faults and s.chance(20):
                    lab.add("fault")
                    ops.append("!%d add %d %d %d" % (s.range(0, 1), t, 1000 + i, i))
                    continue
                ops.append("add %d %d %d" % (t, k, i))
                if k not in have[t]:
                    have[t].add(k)
                    have.append(set())
            else:
                ops.append("at %d %d" % (t, k))
        faults = False
    elif kind == "block":
        a, b = s.choice([1, 2, 3, 8, 64]), 0
        for i in range(n):
            k = s.weighted([(5, "block"), (3, "get"), (2, "off"), (2, "iter"), (3, "skip")])
            ops.append(k if k == "iter" else "%s %d" % (k, s.range(0, 12) if k in ("block", "get") else s.range(0, 14 * a)))
    elif kind == "str":
        a, b = s.range(0, 4), s.range(0, 4)
        size = [0, 0]
        m = [a, b]
        for i in range(n):
            l = s.range(0, 1)
            k = s.weighted([(8, "put"), (3, "raw"), (1, "conv"), (2, "merge")])
            if k == "put":
                ops.append("put %d %d" % (l, s.choice(CH) if s.chance(60) else s.range(1, 126)))
                size[l] += 4
            elif k == "raw":
                ops.append("raw %d %d" % (l, s.choice([0, 1, 65, 127, 200, 255, 256, 0xd7ff, 0xffff, 0x10000, 0x10ffff, 2**32])))
                size[l] += 1
            elif k == "conv":
                ops.append("conv %d %d" % (l, s.range(0, 4)))
            elif size[l] + size[1 - l] < 600:
                ops.append("merge %d" % l)
                size[l] += 2 * size[1 - l]
    elif kind == "sym":
        a = b = 0
        pool = s.choice([4, 12, len(STR)])
        for i in range(n):
            ops.append("ins %s" % STR[s.range(0, pool - 1)] if s.chance(65) else "get %d" % s.range(0, 12))
    elif kind == "tok":
        a = b = 0
        ln = [0, 0, 0]
        for i in range(n):
            l = s.range(0, 2)
            k = s.weighted([(4, "int"), (3, "lit"), (1, "punct"), (3, "pop"), (2, "app"), (3, "copy"), (1, "fill")])
            if k in ("int", "punct"):
                ops.append("%s %d %d" % (k, l, s.range(0, 40)))
                ln[l] += 1
            elif k == "lit":
                ops.append("lit %d %s" % (l, "s%d" % i))
                ln[l] += 1
            elif k == "pop":
                ops.append("pop %d" % l)
                ln[l] = max(0, ln[l] - 1)
            elif k == "fill":
                o = (l + 1) % 3
                while 0 < ln[l] + ln[o] < 150 and len(ops) < 120:
                    ops.append("copy %d %d" % (l, o))
                    ops.append("copy %d %d" % (o, l))
                    ln[l] += ln[o]
                    ln[o] += ln[l]
            else:
                o = (l + s.range(1, 2)) % 3
                if ln[l] + ln[o] > 900:
                    continue
                ops.append("%s %d %d" % (k, l, o))
                ln[l] += ln[o]
                if k == "app":
                    ln[o] = 0
    if faults:
        for i in range(len(ops)):
            if s.chance(12):
                lab.add("fault")
                ops[i] = "!%d %s" % (s.range(0, 2), ops[i])
    return (a, b), ops


class C24(pbt.Check):
    id = "C24"
    rule = ("a case is a history of 1-70 operations on one container (hash tree with weak, string or integer hashes, lists and stacks, vector, tree, trie, block tree, "
            "string buffers, symbol table, token buffers), some with an injected allocation failure; non-trivial: at least 4 operations")
    quick = (1200, 60)
    thorough = (30000, 60)
    assumptions = ["the containers are driven through their public headers, linked with AddressSanitizer and UBSan",
                   "after an operation on two containers (merge, append, copy, convert) fails for lack of memory only memory safety and release are judged"]

    def setup(self):
        self.exe = kbuild.build_harness("asan", "containers", [os.path.join(kbuild.VERIF, "harness", "containers.c")])

    def gen(self, s):
        kind = s.choice(sorted(KINDS))
        lab = {kind}
        (a, b), ops = gen_ops(s, kind, lab)
        return pbt.Case("%s %d %d\n%s" % (kind, a, b, "\n".join(ops)), len(ops) >= 4, sorted(lab), {"kind": kind, "a": a, "b": b, "ops": ops})

    def replay_files(self, case):
        d = case.data
        return {"ops": "CASE 0 %s %d %d\n%s\n" % (d["kind"], d["a"], d["b"], "\n".join(d["ops"]))}

    def run(self, cases, wd):
        text = "".join("CASE %d %s %d %d\n%s\n" % (k, c.data["kind"], c.data["a"], c.data["b"], "\n".join(c.data["ops"])) for k, c in enumerate(cases))
        r = cc.run([self.exe], stdin=text.encode(), cpu=20, env={"ASAN_OPTIONS": "detect_leaks=0"})
        out = r.out.decode("latin-1")
        parts = {}
        for m in re.finditer(r"(?ms)^CASE (\d+)\n(.*?)(?=^CASE |\Z)", out):
            parts[int(m.group(1))] = m.group(2)
        if r.rc != 0 or r.timeout:
            if len(cases) > 1:
                return [self.run([c], wd)[0] for c in cases]
            e = r.err.decode("latin-1")
            m = re.search(r"ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*", e)
            return [fail("the container code crashes (%s): %s" % ("timeout" if r.timeout else r.rc, m.group() if m else e[-200:]))]
        return [self.judge(c, parts.get(k)) for k, c in enumerate(cases)]

    def judge(self, case, out):
        if out is None:
            return fail("no output")
        d = case.data
        lines = out.split("\n")
        if "BAD-FREE" in out or "BROKEN" in out:
            return fail("bad free or broken links: %s" % next(l for l in lines if "BAD-FREE" in l or "BROKEN" in l)[:200])
        m = KINDS[d["kind"]](d["a"], d["b"])
        try:
            i = -1
            for i, o in enumerate(d["ops"]):
                w = [x for x in o.split() if not x.startswith("!")]
                g = lines[i].split()
                eq(g[0], w[0], "operation")
                faulted = g[-1] == "*fault"
                if faulted:
                    g = g[:-1]
                rem, rest = split(g[1:])
                m.op(w, rest, rem, faulted)
            i += 1
            g = lines[i].split()
            eq(g[0], "free", "operation")
            rem, rest = split(g[1:])
            eq(set(rest), {"ok"}, "free")
            m.free(rest, rem)
            eq(lines[i + 1], "leak 0", "blocks outstanding after free")
        except Mismatch as e:
            return fail("operation %d: %s" % (i, str(e)[:400]))
        return OK


def split(ts):
    rem, rest = [], []
    i = 0
    while i < len(ts):
        if ts[i] == "removed":
            rem.append(ts[i + 1])
            i += 2
        else:
            rest.append(ts[i])
            i += 1
    return rem, rest


if __name__ == "__main__":
    sys.exit(pbt.main(C24()))
