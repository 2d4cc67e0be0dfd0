"""Initialiser generator: walks the C17 6.7.9 rules (current object, designators, brace elision, overrides) while writing the text."""
from .ctg import *


class Stop(Exception):
    """the brace list ends (or continues with a designator)"""


class InitGen:
    """subclasses supply scalar_expr(t, bits); active: union path -> name/index of the member holding the value"""
    def __init__(self, s, allow_agg_expr=None, max_items=60, bitfield_ok=True):
        self.s = s
        self.active = {}
        self.frozen = []     # paths initialised as a whole (expression or string): not partially overridden
        self.after_nested = False
        self.done = []       # paths initialised so far
        self.kinds = set()
        self.budget = max_items
        self.agg_expr = allow_agg_expr
        self.scalar_expr = None

    # ---- structure helpers: a member is (key, type, bits, path); key is None for an anonymous aggregate
    def subs(self, t, path):
        if isinstance(t, Arr):
            return [("[%d]" % i, t.el, None, "%s[%d]" % (path, i)) for i in range(t.n)]
        out = []
        for n, ft, b in t.fields:
            if n is None:
                if isinstance(ft, Agg):
                    out.append((None, ft, None, "%s.<%d>" % (path, len(out))))
                continue
            out.append(("." + n, ft, b, "%s.%s" % (path, n)))
        return out

    def forget(self, path):
        """the object at path is initialised anew"""
        self.active = {k: v for k, v in self.active.items() if not (k == path or k.startswith((path + ".", path + "[")))}
        self.frozen = [p for p in self.frozen if not (p == path or p.startswith((path + ".", path + "[")))]

    def is_frozen(self, path):
        return any(path == p or path.startswith((p + ".", p + "[")) for p in self.frozen)

    nostr = False
    agg_override = True      # may an aggregate be initialised again as a whole

    def choose(self, t, path, m):
        if isinstance(t, Agg) and t.kind == "union":
            self.active[path] = m[3]

    def blocked(self, chain, m):
        """known findings: another member of a union already initialised; (static data) an aggregate initialised again"""
        for t, path, k in chain:
            if isinstance(t, Agg) and t.kind == "union" and self.active.get(path, k[3]) != k[3]:
                return True
        if not self.agg_override and not m[1].is_scalar() and any(p == m[3] or p.startswith((m[3] + ".", m[3] + "[")) for p in self.done):
            return True
        return False

    # ---- initialisers
    def init(self, t, path, bits=None, top=False, nostring=False):
        """a complete initialiser for the object (braced unless scalar / string / aggregate expression)"""
        s = self.s
        self.forget(path)
        self.done.append(path)
        if t.is_scalar():
            self.budget -= 1
            self.nostr = nostring
            e = self.scalar_expr(t, bits)
            self.nostr = False
            if s.chance(8):
                self.kinds.add("scalar-braces")
                return "{%s%s}" % (e, s.choice(["", ","]))
            return e
        if isinstance(t, Arr) and self.charlike(t.el) and s.chance(45) and not nostring:
            return self.string(t, path)
        if isinstance(t, Agg) and self.agg_expr and not top and s.chance(15):
            e = self.agg_expr(t)
            if e:
                self.kinds.add("aggregate-expr")
                self.freeze(t, path)
                return e
        return self.braced(t, path)

    def freeze(self, t, path):
        self.frozen.append(path)

    def charlike(self, el):
        return isinstance(el, Sc) and el.name in ("char", "signed char", "unsigned char", "int", "unsigned short", "unsigned int")

    def string(self, t, path):
        s = self.s
        self.kinds.add("string")
        self.frozen.append(path)
        pre = {"int": "L", "unsigned short": "u", "unsigned int": "U"}.get(t.el.name) or s.choice(["", "", "u8"])
        n = t.n if isinstance(t.n, int) else s.range(1, 6)
        k = s.weighted([(3, s.draw(n) if n else 0), (2, n - 1), (2 if isinstance(t.n, int) else 0, n)])
        self.budget -= 1
        parts, cnt = [], 0
        while cnt < k:
            parts.append(s.choice(["a", "b", "Z", "\\n", "\\0", "\\x41", "\\101", "\\\"", "?", " "]))
            if parts[-1] == "\\0" or parts[-1] == "\\x41":
                parts[-1] = {"\\0": "\\000", "\\x41": "\\x7e\" %s\"" % ("" if pre == "u8" else pre)}[parts[-1]]
            cnt += 1
        txt = pre + '"' + "".join(parts) + '"'
        if not isinstance(t.n, int):
            t.n = k + 1
        if s.chance(20):
            self.kinds.add("braced-string")
            return "{%s}" % txt
        return txt

    def braced(self, t, path):
        s = self.s
        items = []
        unknown = isinstance(t, Arr) and not isinstance(t.n, int)
        n_unknown = 0
        if unknown:
            t.n = s.range(1, 7)      # upper bound while generating
        members = self.subs(t, path)
        isunion = isinstance(t, Agg) and t.kind == "union"
        pos = 0
        high = 0
        self.after_nested = False
        while True:
            if items and (self.budget <= 0 or s.chance(12)):
                break
            if pos is not None and pos >= (1 if isunion else len(members)) or pos is None or s.chance(22):
                # a designator, or the end
                if not items and not members:
                    break
                if items and not s.chance(45) or self.budget <= 0:
                    if items:
                        break
                pos, high = self.designated(t, path, items, high)
                self.after_nested = True
                continue
            m = members[pos]
            if items and self.blocked([(t, path, m)], m):
                pos = None
                continue
            high = max(high, pos + 1)
            self.choose(t, path, m)
            try:
                self.element(m, items, nostring=self.after_nested)
            except Stop:
                pos = None
                continue
            pos += 1
        if unknown:
            t.n = max(high, 1)
        if s.chance(10):
            items.append("")
        return "{%s}" % ", ".join(items)

    def element(self, m, items, prefix="", nostring=False):
        """the initialiser(s) of one subobject: its own, or elided braces; nostring: no string literal right after a nested designator (gcc and clang both misplace it)"""
        s = self.s
        key, t, bits, path = m
        if t.is_scalar() or not s.chance(30) or any(p.startswith((path + '.', path + '[')) for p in self.done):
            items.append(prefix + self.init(t, path, bits, nostring=nostring))
            return
        self.kinds.add("elision")
        self.elided(t, path, items, prefix, nostring)

    def elided(self, t, path, items, prefix="", nostring=False):
        s = self.s
        members = self.subs(t, path)
        if isinstance(t, Agg) and t.kind == "union":
            members = members[:1]
        self.forget(path)
        for i, m in enumerate(members):
            if i and (s.chance(10) or self.budget <= 0) or i and self.blocked([(t, path, m)], m):
                raise Stop
            self.choose(t, path, m)
            # the first initialiser must not be mistaken for one of the whole aggregate: braces or strings there start the subobject itself
            if i == 0:
                if m[1].is_scalar():
                    self.budget -= 1
                    self.done.append(m[3])
                    self.nostr = nostring
                    items.append(prefix + self.scalar_expr(m[1], m[2]))
                    self.nostr = False
                else:
                    self.elided(m[1], m[3], items, prefix, nostring)
            else:
                self.element(m, items, nostring=nostring)
            prefix = ""

    def designated(self, t, path, items, high):
        """a designator list for the aggregate t; returns (next position, highest index used)"""
        s = self.s
        self.kinds.add("designator")
        chain = []
        txt = ""
        ct, cp = t, path
        first = None
        while True:
            ms = self.subs(ct, cp)
            i = s.draw(len(ms))
            m = ms[i]
            if not chain:
                first = i
            inside = self.is_frozen(m[3]) or any(self.is_frozen(x) for x in [m[3]])
            chain.append((ct, cp, i, ms))
            if m[0] is None:
                ct, cp = m[1], m[3]   # through an anonymous member: the designator names its member
                continue
            txt += m[0]
            if m[1].is_scalar() or not s.chance(40) or self.is_frozen(m[3]):
                break
            ct, cp = m[1], m[3]
            self.kinds.add("nested-designator")
        if self.blocked([(ct, cp, ms[i]) for ct, cp, i, ms in chain], m):
            self.budget -= 1
            return None, high
        for ct, cp, i, ms in chain:
            self.choose(ct, cp, ms[i])
        high = max(high, first + 1)
        if m[3] in self.done:
            self.kinds.add("override")
        # parents replaced as a whole by an expression are not partially overridden
        for f in self.frozen:
            if m[3] != f and m[3].startswith((f + ".", f + "[")):
                # give up the partial override: initialise the frozen object itself again is not expressible here, end the list
                items.append(self.redo(chain, f))
                return None, high
        try:
            self.element(m, items, txt + s.choice([" = ", "="]))
            # positions after the designated one, innermost aggregate first
            for ct, cp, i, ms in reversed(chain[1:]):
                isu = isinstance(ct, Agg) and ct.kind == "union"
                j = i + 1
                while not isu and j < len(ms):
                    if self.budget <= 0 or s.chance(50):
                        raise Stop
                    self.kinds.add("continue-after-designator")
                    if self.is_frozen(ms[j][3]) or self.blocked([(ct, cp, ms[j])], ms[j]):
                        raise Stop
                    self.choose(ct, cp, ms[j])
                    self.element(ms[j], items, nostring=True)
                    j += 1
        except Stop:
            return None, high
        isu = isinstance(t, Agg) and t.kind == "union"
        return (None if isu else first + 1), high

    def redo(self, chain, f):
        """initialise the frozen object f (a prefix of the designated path) again as a whole"""
        txt = ""
        for ct, cp, i, ms in chain:
            m = ms[i]
            if m[0]:
                txt += m[0]
            if m[3] == f:
                return "%s = %s" % (txt, self.init(m[1], m[3], m[2]))
        # f lies at or above the object being initialised: cannot happen, the list would not have been opened
        raise AssertionError

    # ---- what to read back
    def leaves(self, t, path, acc):
        """(access text, type, bits) of every leaf that carries the prescribed value"""
        if isinstance(t, Arr):
            for i in range(t.n):
                yield from self.leaves(t.el, "%s[%d]" % (path, i), "%s[%d]" % (acc, i))
        elif isinstance(t, Agg):
            ms = self.subs(t, path)
            if t.kind == "union":
                a = self.active.get(path, ms[0][3])
                ms = [m for m in ms if m[3] == a]
            for key, ft, b, p in ms:
                yield from self.leaves_b(ft, p, acc + (key or ""), b)
        else:
            yield acc, t, None

    def leaves_b(self, t, path, acc, b):
        if t.is_scalar():
            yield acc, t, b
        else:
            yield from self.leaves(t, path, acc)
