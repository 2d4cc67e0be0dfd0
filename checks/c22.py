"""C22: identifiers denote the entity scoping and linkage select, with its storage duration, across translation units."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pbt, diffcheck, cc
from lib.pbt import OK, fail, discard

TYPES = ["int", "char", "short", "long", "unsigned char", "unsigned", "long long", "unsigned short"]
NAMES = ["$Ka", "$Kb", "$Kc", "$Kd", "$Ke"]
TAGS = ["$Ka", "$Kb", "$Kt"]


class Unit:
    """one translation unit: text plus what its functions do when called"""
    def __init__(self, g, no):
        self.g, self.s, self.no = g, g.s, no
        self.out = []
        self.scopes = [{}]
        self.tags = [{}]
        self.n = 0
        self.labels = g.labels
        self.depth = 0
        self.budget = 0

    def uid(self):
        self.g.counter += 1
        return self.g.counter

    def val(self):
        return self.uid() % 120 + 1

    def look(self, name):
        for sc in reversed(self.scopes):
            if name in sc:
                return sc[name]
        return None

    def looktag(self, name):
        for sc in reversed(self.tags):
            if name in sc:
                return sc[name]
        return None

    # --- statements reporting what a name denotes
    def use(self, ind):
        s = self.s
        vis = {}
        for sc in self.scopes:
            vis.update(sc)
        names = sorted(n for n in vis if vis[n][0] != "hidden")
        tvis = {}
        for sc in self.tags:
            tvis.update(sc)
        out = []
        k = s.draw(10)
        if k < 7 and names:
            n = s.choice(names)
            e = vis[n]
            if e[0] == "obj":
                self.labels.add("object")
                t = e[1]
                if e[2] and s.chance(40):
                    out.append("%s = %s;" % (n, "%d" % self.val()) if s.chance(50) else "%s += %d;" % (n, s.range(1, 5)))
                if s.chance(25):
                    out.append("o_u((unsigned long) sizeof %s);" % n)
                out.append("o_i(%s);" % n)
            elif e[0] == "arr":
                out.append("o_i(%s[%d]);" % (n, s.draw(e[2])))
                if e[3]:
                    out.append("o_u((unsigned long) sizeof %s);" % n)
                if s.chance(30):
                    out.append("%s[%d]++;" % (n, s.draw(e[2])))
            elif e[0] == "typedef":
                self.labels.add("typedef")
                v = "v%d" % self.uid()
                out.append(s.choice(["o_u((unsigned long) sizeof(%s));" % n, "{ %s %s = %d; o_i(%s); }" % (n, v, self.val(), v), "o_i((%s) 300);" % n, "o_u((unsigned long) sizeof(%s[3]));" % n]))
            elif e[0] == "enum":
                self.labels.add("enumerator")
                out.append("o_i(%s);" % n)
            elif e[0] == "fn":
                if self.budget > 0 and e[1]:
                    self.labels.add("call")
                    self.budget -= 1
                    out.append("if ($Kfuel-- > 0) o_i(%s(%s));" % (n, "%d" % s.range(0, 3)))
                else:
                    out.append("o_x(%s == &%s);" % (n, n))
            elif e[0] == "struct":
                out.append("o_i(%s.%s);" % (n, s.choice(e[1])))
        elif tvis:
            n = s.choice(sorted(tvis))
            kind, size, members = tvis[n]
            self.labels.add("tag")
            if kind == "enum":
                out.append("o_u((unsigned long) sizeof(enum %s));" % n)
            elif size is None:
                out.append("{ %s %s *v%d = 0; o_x(!v%d); }" % (kind, n, self.n, self.n))
            else:
                v = "v%d" % self.uid()
                m = s.choice(members)
                out.append(s.choice(["o_u((unsigned long) sizeof(%s %s));" % (kind, n), "{ %s %s %s = { .%s = %d }; o_i(%s.%s); o_u((unsigned long) sizeof %s.%s); }" % (kind, n, v, m, self.val(), v, m, v, m)]))
        return [" " * ind + x for x in out]

    # --- declarations in a block (or file) scope
    def fresh(self, block):
        """names that may still be declared in the current scope"""
        return [n for n in NAMES if n not in self.scopes[-1]]

    def members(self):
        """member list whose names repeat ordinary names, tags and labels"""
        s = self.s
        names = s.sample(NAMES + ["$Kt"], s.range(1, 3))
        ts = [s.choice(TYPES) for _ in names]
        return "".join(" %s %s;" % (t, n) for t, n in zip(ts, names)), names

    def tagdecl(self, ind):
        s = self.s
        n = s.choice(TAGS)
        cur = self.tags[-1].get(n)
        kind = s.choice(["struct", "union", "struct"])
        if cur is None:
            if s.chance(20) and len(self.tags) > 1:
                # a tag declaration alone declares a new, incomplete type here
                self.tags[-1][n] = (kind, None, [])
                self.labels.add("tag-forward")
                return ["%s%s %s;" % (" " * ind, kind, n)]
            if s.chance(15) and len(self.tags) > 1:
                free = self.fresh(True)
                if free:
                    e = s.choice(free)
                    self.tags[-1][n] = ("enum", 4, [])
                    return [" " * ind + self.enumdecl(n, [e])]
            b, names = self.members()
            self.tags[-1][n] = (kind, 1, names)
            if len(self.tags) > 1 and any(n in t for t in self.tags[:-1]):
                self.labels.add("tag-shadowing")
            return ["%s%s %s {%s };" % (" " * ind, kind, n, b)]
        if cur[1] is None:
            b, names = self.members()
            self.tags[-1][n] = (cur[0], 1, names)
            return ["%s%s %s {%s };" % (" " * ind, cur[0], n, b)]
        return []

    def enumdecl(self, tag, names):
        s = self.s
        es = []
        for e in names:
            old = self.look(e)
            # the enumerator's scope begins after its own value
            if old and old[0] == "enum" and s.chance(50):
                es.append("%s = %s + %d" % (e, e, s.range(1, 9)))
                self.labels.add("enumerator-self")
            else:
                es.append("%s = %d" % (e, self.val()) if s.chance(80) else e)
            self.scopes[-1][e] = ("enum",)
        return "enum %s{ %s };" % (tag + " " if tag else "", ", ".join(es))

    def localdecl(self, ind, first=False):
        """declarations at block scope"""
        s = self.s
        p = " " * ind
        if s.chance(18):
            return self.tagdecl(ind)
        free = self.fresh(True)
        if not free:
            return []
        n = s.choice(free)
        if self.look(n):
            self.labels.add("shadowing")
        k = s.draw(12)
        t = s.choice(TYPES)
        if k < 4:
            old = self.look(n)
            if old and old[0] == "typedef" and s.chance(50):
                # a typedef name used in the declaration that hides it
                self.labels.add("typedef-hidden")
                self.scopes[-1][n] = ("obj", t, True)
                return [p + "%s %s = %d;" % (n, n, self.val())]
            self.scopes[-1][n] = ("obj", t, True)
            init = str(self.val())
            if s.chance(15):
                init = "sizeof %s" % n          # the new object's own size
                self.labels.add("self-reference")
            elif old and old[0] in ("obj", "enum") and s.chance(25):
                pass
            return [p + "%s%s %s = %s;" % (s.choice(["", "", "auto ", "register "]) if True else "", t, n, init)]
        if k < 6:
            self.labels.add("static-local")
            tl = s.chance(15)
            if tl:
                self.labels.add("thread-local")
            self.scopes[-1][n] = ("obj", t, True)
            return [p + "static %s%s %s%s;" % ("_Thread_local " if tl else "", t, n, " = %d" % self.val() if s.chance(70) else "")]
        if k == 6:
            self.scopes[-1][n] = ("typedef", t)
            self.labels.add("typedef-local")
            return [p + "typedef %s %s;" % (t, n)]
        if k == 7:
            return [p + self.enumdecl(s.choice(["", ""]), [n])]
        if k in (8, 9):
            # block-scope extern: denotes the file-scope (or another unit's) entity
            e = self.g.external(self.no, n)
            prev = self.scopes[0].get(n)
            vis = self.look(n)
            if prev and prev[0] in ("obj", "arr", "fn") and vis is prev:
                self.labels.add("block-extern")
                self.scopes[-1][n] = prev
                return [p + self.externdecl(n, prev)]
            if prev is None and vis is None and e:
                self.labels.add("block-extern")
                self.scopes[-1][n] = e
                self.g.used.add(n)
                return [p + self.externdecl(n, e)]
            if prev and prev[0] in ("obj", "arr", "fn") and prev == e and not prev[-1] == "internal":
                # hidden by an inner declaration, but of external linkage anyway
                self.labels.add("block-extern-hidden")
                self.scopes[-1][n] = prev
                return [p + self.externdecl(n, prev)]
            return []
        if k == 10:
            b, names = self.members()
            self.scopes[-1][n] = ("struct", names)
            return [p + "struct {%s } %s = { %d };" % (b, n, self.val())]
        self.scopes[-1][n] = ("arr", t, 3, True)
        self.labels.add("array")
        return [p + "%s%s %s[3] = { %d, %d, %d };" % (s.choice(["", "static "]), t, n, self.val(), self.val(), self.val())]

    def externdecl(self, n, e):
        tl = "_Thread_local " if "tls" in e else ""
        if e[0] == "obj":
            return "extern %s%s %s;" % (tl, e[1], n)
        if e[0] == "arr":
            return "extern %s%s %s[%s];" % (tl, e[1], n, e[2] if self.s.chance(50) or e[3] else "")
        return self.s.choice(["extern int %s(int);", "int %s(int);"]) % n

    def block(self, ind, header=None):
        """statements of a block whose scope has been opened by the caller"""
        s = self.s
        out = []
        for _ in range(s.range(2, 5)):
            k = s.weighted([(40, "use"), (35, "decl"), (15 if self.depth < 3 else 0, "nest"), (6, "label")])
            if k == "use":
                out += self.use(ind)
            elif k == "decl":
                out += self.localdecl(ind)
                out += self.use(ind)
            elif k == "label":
                n = s.choice(NAMES + ["$Kt"])
                if n not in self.fnlabels and s.chance(60):
                    self.fnlabels.add(n)
                    self.labels.add("label")
                    u = "g%d" % self.uid()
                    out.append("%sint %s = 0;" % (" " * ind, u))
                    out.append("%s%s: o_i(%d); if (%s++ < 1) goto %s;" % (" " * ind, n, self.val(), u, n))
            else:
                out += self.nest(ind)
        return out

    def nest(self, ind):
        s = self.s
        p = " " * ind
        self.depth += 1
        self.scopes.append({})
        self.tags.append({})
        form = s.draw(6)
        self.labels.add("nested")
        if form == 1:
            free = self.fresh(True)
            n = s.choice(free)
            self.labels.add("for-scope")
            head = "for (int %s = %d, l%d = 0; l%d < 2; l%d++) {" % (n, self.val(), self.depth, self.depth, self.depth)
            self.scopes[-1][n] = ("obj", "int", True)
            self.scopes.append({})
            self.tags.append({})
            body = self.block(ind + 2)
            self.scopes.pop()
            self.tags.pop()
            out = [p + head] + body + [p + "}"]
        elif form == 2:
            v = "w%d" % self.uid()
            out = [p + "int %s = 0;" % v, p + "do {"] + self.block(ind + 2) + [p + "} while (%s++ < 1);" % v]
        elif form == 3:
            # an iteration or selection statement without braces is a block of its own
            n = s.choice(TAGS)
            b, names = self.members()
            self.labels.add("selection-scope")
            out = [p + "if (sizeof(struct %s {%s }) > 1) o_i(%d); else o_i(%d);" % (n, b, self.val(), self.val())]
        elif form == 4:
            out = [p + "switch (%d) { default: {" % self.val()] + self.block(ind + 2) + [p + "} }"]
        else:
            out = [p + "{"] + self.block(ind + 2) + [p + "}"]
        self.scopes.pop()
        self.tags.pop()
        self.depth -= 1
        return out

    def function(self, n, static, proto_first):
        """int n(int) with a generated body"""
        s = self.s
        self.fnlabels = set()
        self.budget = 2
        e = ("fn", True, "internal" if static else "external")
        out = []
        if proto_first or n in self.scopes[0]:
            pass
        self.scopes[0][n] = e
        self.scopes.append({})
        self.tags.append({})
        pn = s.choice(NAMES)
        pt = "int"
        if pn in self.scopes[0] and self.scopes[0][pn][0] == "typedef":
            self.labels.add("typedef-hidden")
        elif pn in self.scopes[0]:
            self.labels.add("shadowing")
        out.append("%sint %s(%s %s) {" % ("static " if static and not (proto_first and s.chance(50)) else "", n, pt, pn))
        self.scopes[-1][pn] = ("obj", pt, True)
        body = []
        if s.chance(35):
            # automatic objects are per activation: the value survives a recursive call
            self.labels.add("recursion")
            rv = "r%d" % self.uid()
            body.append("  int %s = %s * 3; if (%s > 0) { $Kfuel--; if ($Kfuel > 0) %s(%s - 1); } o_i(%s); o_i(%s);" % (rv, pn, pn, n, pn, rv, pn) if n != pn else "  int %s = %s * 3; o_i(%s);" % (rv, pn, rv))
        body += self.block(2)
        body.append("  return %s;" % pn if self.look(pn)[0] == "obj" else "  return 0;")
        out += body + ["}"]
        self.scopes.pop()
        self.tags.pop()
        return out


class Prog:
    def __init__(self, s):
        self.s = s
        self.counter = 0
        self.labels = set()
        self.used = set()
        nu = s.range(1, 3)
        # external entities: name -> (entity, defining unit); thread-local ones are marked
        self.ext = {}
        self.units = [Unit(self, i) for i in range(nu)]
        for n in NAMES:
            if s.chance(45):
                k = s.weighted([(5, "obj"), (2, "arr"), (3, "fn")])
                t = s.choice(TYPES)
                tls = s.chance(12) and k != "fn"
                self.ext[n] = ({"obj": ("obj", t, True), "arr": ("arr", t, 3, False), "fn": ("fn", True)}[k] + (("tls",) if tls else ()) + ("external",), s.draw(nu))
        self.texts = []
        self.entries = []
        for i, u in enumerate(self.units):
            self.unit(u, i)

    def external(self, unit, name):
        """entity declared by 'extern' in this unit when nothing there gives it internal linkage"""
        u = self.units[unit]
        if name in self.ext and name not in u.internal:
            return self.ext[name][0]
        return None

    def unit(self, u, i):
        s = self.s
        u.internal = set()
        out = ["extern int $Kfuel;"]
        if i == 0:
            out.append("int $Kfuel = 12;")
        plan = []
        todo_defs = []
        late = []
        for n in s.shuffle(NAMES):
            e = self.ext.get(n)
            if e and e[1] == i:
                plan.append(("def", n, e[0]))
            elif e and s.chance(60):
                plan.append(("ext", n, e[0]))
            else:
                k = s.draw(7)
                if k == 0:
                    plan.append(("typedef", n, None))
                    u.internal.add(n)
                elif k == 1:
                    plan.append(("enum", n, None))
                    u.internal.add(n)
                elif k in (2, 3):
                    t = s.choice(TYPES)
                    tls = s.chance(12)
                    plan.append(("static", n, ("obj", t, True) + (("tls",) if tls else ()) + ("internal",)))
                    u.internal.add(n)
                elif k == 4:
                    plan.append(("static", n, ("fn", True, "internal")))
                    u.internal.add(n)
        nf = 0

        def worker():
            nonlocal nf
            n = "$Kw%d_%d" % (i, nf)
            nf += 1
            self.entries.append((i, n))
            return u.function(n, False, False)
        if s.chance(60):
            out += u.tagdecl(0)
        out += worker()
        for what, n, e in plan:
            if s.chance(35):
                out += u.tagdecl(0)
            if what == "typedef":
                t = s.choice(TYPES)
                out.append("typedef %s %s;" % (t, n))
                if s.chance(25):
                    out.append("typedef %s %s;" % (t, n))
                u.scopes[0][n] = ("typedef", t)
            elif what == "enum":
                out.append(u.enumdecl("", [n]))
            elif what == "ext":
                u.scopes[0][n] = e
                out.append(u.externdecl(n, e))
            else:
                st = what == "static"
                sc = "static " if st else ""
                tl = "_Thread_local " if "tls" in e else ""
                if tl:
                    self.labels.add("thread-local")
                if e[0] == "fn":
                    if s.chance(50):
                        # declared first, used, defined later
                        u.scopes[0][n] = e
                        out.append("%sint %s(int);" % (sc, n))
                        self.labels.add("forward-function")
                        if s.chance(50):
                            out += worker()
                        if st and s.chance(40):
                            out.append("extern int %s(int);" % n)
                            self.labels.add("static-then-extern")
                        late.append((n, st, True))
                    else:
                        out += u.function(n, st, False)
                else:
                    u.scopes[0][n] = e
                    full = e if e[0] == "obj" else ("arr", e[1], e[2], True) + e[4:]
                    dims = "[3]" if e[0] == "arr" else ""
                    init = " = { %d, %d, %d }" % (u.val(), u.val(), u.val()) if e[0] == "arr" else " = %d" % u.val()
                    form = s.draw(6)
                    if form == 1 and not tl:
                        self.labels.add("tentative")
                        out.append("%s%s %s%s;" % (sc, e[1], n, dims))
                        if s.chance(50):
                            out += worker()
                        if s.chance(50):
                            out.append("%s%s %s%s;" % (sc, e[1], n, dims))
                        if s.chance(60):
                            late.append("%s%s %s%s%s;" % (sc, e[1], n, dims, init))
                    elif form == 2:
                        self.labels.add("static-then-extern" if st else "extern-then-definition")
                        if st:
                            out.append("%s%s%s %s%s%s;" % (sc, tl, e[1], n, dims, init))
                            out.append("extern %s%s %s%s;" % (tl, e[1], n, dims))
                        else:
                            out.append("extern %s%s %s%s;" % (tl, e[1], n, "[]" if e[0] == "arr" else ""))
                            if s.chance(50):
                                out += worker()
                            out.append("%s%s %s%s%s;" % (tl, e[1], n, dims, init))
                    elif form == 3 and not st:
                        out.append("extern %s%s %s%s%s;" % (tl, e[1], n, dims, init))
                        self.labels.add("extern-initialised")
                    elif form == 4 and e[0] == "obj":
                        out.append("%s%s%s %s;" % (sc, tl, e[1], n))
                    else:
                        out.append("%s%s%s %s%s%s;" % (sc, tl, e[1], n, dims, init))
            if s.chance(30):
                out += worker()
        out += worker()
        for l in late:
            if isinstance(l, tuple):
                out += u.function(*l)
            else:
                out.append(l)
        if s.chance(40):
            out += worker()
        self.texts.append("\n".join(out) + "\n")


class C22(diffcheck.DiffCheck):
    id = "C22"
    rule = ("a case is 1-3 translation units whose names are drawn from a pool of five and are declared in every way at file, function, block, for, prototype scope with every linkage; all functions are called "
            "several times, partly in another thread, each use reports what the name denotes; kefir compiles the first two units, gcc the third. Non-trivial: a name declared in more than one scope or unit")
    gcc_opts = ("-std=c17", "-fno-common")
    clang_opts = ("-std=c17",)
    quick = (200, 8)
    thorough = (4000, 8)

    def gen(self, s):
        p = Prog(s)
        if len(p.texts) > 1:
            p.labels.add("units-%d" % len(p.texts))
        main = ["int $Kfuel_reset(void);"]
        calls = []
        for i, n in p.entries:
            main.append("int %s(int);" % n)
            for a in s.choice([[1], [0, 2], [2, 1], [3]]):
                calls.append("  $Kfuel = 12; o_i(%s(%d));" % (n, a))
        thread = s.chance(25)
        order = s.shuffle(calls) if s.chance(30) else calls
        main = ["extern int $Kfuel;"] + main[1:]
        host = ""
        if thread:
            p.labels.add("thread")
            k = s.range(1, min(4, len(order)))
            main.append("static void $Kbody(void) {\n%s\n}" % "\n".join(order[:k]))
            main.append("void $Kthread(void (*)(void));")
            main.append("void $Kmain(void) {\n%s\n  $Kthread($Kbody);\n%s\n}" % ("\n".join(order[:2]), "\n".join(order)))
            host = ("#include <pthread.h>\nstatic void *$Ktramp(void *p) { ((void (*)(void)) p)(); return 0; }\n"
                    "void $Kthread(void (*f)(void)) { pthread_t t; pthread_create(&t, 0, $Ktramp, (void *) f); pthread_join(t, 0); }\n")
        else:
            main.append("void $Kmain(void) {\n%s\n}" % "\n".join(order))
        units = list(p.texts)
        code = units[0]
        data = {"code": code + "\n".join(l for l in main if not l.startswith("extern int $Kfuel")) + "\n", "unit1": None, "host": None}
        # the first unit gets the calls; the others are kefir's second unit and gcc's
        rest = units[1:]
        if len(rest) == 1:
            if s.chance(50):
                data["unit1"] = rest[0]
            else:
                data["host"] = rest[0]
        elif len(rest) == 2:
            data["unit1"], data["host"] = rest
        data["host2"] = host or None
        text = data["code"] + ("\n/* second unit (kefir) */\n" + data["unit1"] if data["unit1"] else "") + ("\n/* unit compiled by gcc */\n" + data["host"] if data["host"] else "")
        nt = len(units) > 1 or bool(p.labels & {"shadowing", "tag-shadowing", "typedef-hidden", "block-extern", "block-extern-hidden", "tentative", "static-then-extern"})
        return pbt.Case(text, nt, sorted(p.labels), data=data)

    def write(self, cases, wd):
        """per case a set of files: units of different cases must not share file-scope text"""
        files = {"u0": [], "u1": [], "h": []}
        return files

    def one_case(self, c, k, wd, kefir):
        """objects of one case; None and a result when something is rejected"""
        pre = "%s%d_" % ("k" if kefir else "g", k)
        objs = []
        names = [("code", "u0"), ("unit1", "u1"), ("host", "h"), ("host2", "h2")]
        for key, f in names:
            t = c.data.get(key)
            if not t:
                continue
            src, obj = "%s_%d.c" % (f, k), pre + f + ".o"
            if not os.path.exists(os.path.join(wd, src)):
                with open(os.path.join(wd, src), "w") as fh:
                    fh.write((cc.PROTOS if key != "host2" else "") + t.replace("$K", "c%d_" % k))
            if kefir and key in ("code", "unit1"):
                stage, r = self.tc.kefir_obj(wd, src, obj)
                if stage != "ok":
                    return None, fail("%s failed (rc %d) on a unit gcc accepts: %s" % ("compiler" if stage == "kefir" else "assembler", r.rc, diffcheck.short(r.err or r.out)))
            elif kefir and key.startswith("host"):
                obj = "g%d_%s.o" % (k, f)
            else:
                r = self.compile(wd, src, obj)
                if r.rc != 0:
                    return None, discard("gcc rejects: " + diffcheck.short(r.err, 200))
            objs.append(obj)
        return objs, None

    compiler = "gcc"

    def compile(self, wd, src, obj):
        opts = self.gcc_opts + ("-I" + cc.MUSL_INC,)
        return self.tc.clang_obj(wd, src, obj, opts) if self.compiler == "clang" else self.tc.gcc_obj(wd, src, obj, opts)

    def table(self, ks):
        t = "".join("void c%d_main(void);\n" % k for k in ks)
        n = max(ks) + 1 if ks else 0
        return t + "static void none(void) {}\nvoid (*const cases[])(void) = {%s};\nconst int ncases = %d;\n" % (", ".join("c%d_main" % k if k in ks else "none" for k in range(n)), n)

    def run(self, cases, wd):
        res = [None] * len(cases)
        objs = {"g": {}, "k": {}}
        for k, c in enumerate(cases):
            for tag in "gk":
                o, r = self.one_case(c, k, wd, tag == "k")
                if o is None:
                    res[k] = r
                    break
                objs[tag][k] = o
        live = [k for k in range(len(cases)) if res[k] is None]
        if not live:
            return res
        with open(os.path.join(wd, "tab.c"), "w") as f:
            f.write(self.table(live))
        self.tc.gcc_obj(wd, "tab.c", "tab.o")
        outs = {}
        for tag in "gk":
            r = self.tc.link(wd, ["tab.o"] + [o for k in live for o in objs[tag][k]], tag + ".exe")
            if r.rc != 0:
                if len(live) == 1:
                    res[live[0]] = fail("object files do not link: " + diffcheck.short(r.err)) if tag == "k" else discard("reference does not link: " + diffcheck.short(r.err, 200))
                    return res
                for k in live:
                    d = os.path.join(wd, "s%d" % k)
                    os.makedirs(d, exist_ok=True)
                    res[k] = self.run([cases[k]], d)[0]
                return res
            r = cc.run([os.path.join(wd, tag + ".exe")], cwd=wd, cpu=60)
            outs[tag] = cc.split_cases(r.out, len(cases))
        for k in live:
            res[k] = self.compare(cases[k], outs["k"][k], outs["g"][k])
            if res[k][0] == "fail" and self.second_opinion(cases[k], outs["g"][k], wd):
                res[k] = discard("references disagree")
        return res

    def second_opinion(self, c, g, wd):
        d = os.path.join(wd, "clang")
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        self.compiler = "clang"
        try:
            o, r = self.one_case(c, 0, d, False)
        finally:
            self.compiler = "gcc"
        if o is None:
            return False
        with open(os.path.join(d, "tab.c"), "w") as f:
            f.write(self.table([0]))
        self.tc.gcc_obj(d, "tab.c", "tab.o")
        if self.tc.link(d, ["tab.o"] + o, "t.exe").rc != 0:
            return False
        r = cc.run([os.path.join(d, "t.exe")], cwd=d, cpu=60)
        return cc.split_cases(r.out, 1)[0] != g

    def replay_files(self, case):
        f = {"c": (cc.PROTOS + case.data["code"]).replace("$K", "c0_")}
        for k in ("unit1", "host", "host2"):
            if case.data.get(k):
                f[k + ".c"] = (cc.PROTOS + case.data[k]).replace("$K", "c0_")
        return f


if __name__ == "__main__":
    sys.exit(pbt.main(C22()))
