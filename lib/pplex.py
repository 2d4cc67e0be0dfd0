"""Preprocessing-token lexer for the text printed by preprocessors, and a model of macro expansion."""
import re

PUNCT = ["%:%:", "...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=",
         "&=", "^=", "|=", "##", "<:", ":>", "<%", "%>", "%:"] + list("[](){}.&*+-~!/%<>^|?:;=,#")
DIGRAPH = {"<:": "[", ":>": "]", "<%": "{", "%>": "}", "%:": "#", "%:%:": "##"}
_rx = re.compile(
    r"(?P<ws>[ \t\v\f\r\n]+)"
    r"|(?P<str>(?:u8|u|U|L)?\"(?:[^\"\\\n]|\\.)*\")"
    r"|(?P<chr>(?:u|U|L)?'(?:[^'\\\n]|\\.)*')"
    r"|(?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])*)"
    r"|(?P<id>[A-Za-z_$][A-Za-z_0-9$]*)"
    r"|(?P<p>" + "|".join(re.escape(p) for p in PUNCT) + r")"
    r"|(?P<other>.)", re.S)


def lex(text, ws=False):
    """-> [(kind, spelling)]"""
    out = []
    for m in _rx.finditer(text):
        k = m.lastgroup
        if k == "ws" and not ws:
            continue
        out.append((k, m.group()))
    return out


_esc = {"n": 10, "t": 9, "a": 7, "b": 8, "f": 12, "r": 13, "v": 11, "\\": 92, "'": 39, '"': 34, "?": 63}


def decode(body):
    """values of the characters of a literal's body; non-ASCII kept as code points"""
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            out.append(ord(c))
            i += 1
            continue
        d = body[i + 1]
        if d in _esc:
            out.append(_esc[d])
            i += 2
        elif d in "01234567":
            m = re.match(r"[0-7]{1,3}", body[i + 1:])
            out.append(int(m.group(), 8))
            i += 1 + m.end()
        elif d == "x":
            m = re.match(r"[0-9a-fA-F]+", body[i + 2:])
            if not m:
                out += [92, ord("x")]
                i += 2
                continue
            out.append(int(m.group(), 16))
            i += 2 + m.end()
        elif d in "uU":
            n = 4 if d == "u" else 8
            try:
                out.append(int(body[i + 2:i + 2 + n], 16))
            except ValueError:
                out += [92, ord(d)]
                i += 2
                continue
            i += 2 + n
        else:
            out += [92, ord(d)]
            i += 2
    return out


def norm(tok, squeeze=True):
    """a form in which two spellings of the same token compare equal"""
    k, t = tok
    if k == "p":
        return (k, DIGRAPH.get(t, t))
    if k in ("str", "chr"):
        q = '"' if k == "str" else "'"
        pre, body = t[:t.index(q)], t[t.index(q) + 1:-1]
        v = decode(body)
        if squeeze and k == "str":
            w = []
            for x in v:
                if x == 32 and w and w[-1] == 32:
                    continue
                w.append(x)
            v = w
        return (k, pre, tuple(v))
    return (k, t)


def tokens(text, squeeze=True):
    return [norm(t, squeeze) for t in lex(text)]


class Unspecified(Exception):
    pass


class Model:
    """C17 6.10.3 on token lists [kind, spelling, noexpand]; quirk: all arguments are macro-replaced first, even operands of # and ##"""

    def __init__(self, macros, quirk, fuel=20000):
        self.m, self.quirk, self.fuel = macros, quirk, fuel

    def expand(self, toks, disabled=()):
        stack = [[list(map(list, toks)), 0, None]]
        out = []
        dis = set(disabled)

        def cur():
            while stack and stack[-1][1] == len(stack[-1][0]):
                stack.pop()
            return stack[-1][0][stack[-1][1]] if stack else None

        def nxt():
            t = cur()
            if t is None:
                return None
            self.fuel -= 1
            if self.fuel < 0:
                raise Unspecified("fuel")
            active = dis | {f[2] for f in stack if f[2]}
            stack[-1][1] += 1
            if t[0] == "id" and t[1] in active:
                t = [t[0], t[1], True]
            return t

        while True:
            t = nxt()
            if t is None:
                break
            if t[0] != "id" or t[2] or t[1] not in self.m:
                out.append(t)
                continue
            params, va, body = self.m[t[1]]
            if params is None:
                stack.append([self.subst(body, None, None, ()), 0, t[1]])
                continue
            ws = []
            while cur() is not None and cur()[0] == "ws":
                ws.append(nxt())
            if cur() is None or cur()[1] != "(" or cur()[0] != "p":
                out.append(t)
                if ws:
                    stack.append([ws, 0, None])
                continue
            nxt()
            args, depth = [[]], 0
            while True:
                a = nxt()
                if a is None:
                    raise Unspecified("unterminated")
                if a[0] == "p" and a[1] == ")" and depth == 0:
                    break
                if a[0] == "p" and a[1] == "," and depth == 0 and not (va and len(args) == len(params) + 1):
                    args.append([])
                    continue
                if a[0] == "p" and a[1] in "()":
                    depth += 1 if a[1] == "(" else -1
                args[-1].append(a)
            args = [self.trim(a) for a in args]
            want = len(params) + (1 if va else 0)
            if args == [[]] and want == 0:
                args = []
            if len(args) != want:
                raise Unspecified("argument count")
            active = dis | {f[2] for f in stack if f[2]}
            names = list(params) + (["__VA_ARGS__"] if va else [])
            stack.append([self.subst(body, dict(zip(names, args)), active, ()), 0, t[1]])
        return out

    @staticmethod
    def trim(a):
        while a and a[0][0] == "ws":
            a = a[1:]
        while a and a[-1][0] == "ws":
            a = a[:-1]
        return a

    def subst(self, body, args, active, _):
        out, i, n = [], 0, len(body)
        cache = {}

        def expanded(p):
            if p not in cache:
                e = self.expand(args[p], active)
                k = next((i for i, t in enumerate(e) if t[0] != "ws"), len(e)) if self.quirk else 0
                cache[p] = [e[0]] * (1 if k else 0) + self.trim(e) if k < len(e) else []
            return [list(x) for x in cache[p]]

        def raw(p):
            return expanded(p) if self.quirk else [list(x) for x in args[p]]

        if self.quirk and args:
            for p in args:
                expanded(p)

        def skip(j):
            while j < n and body[j][0] == "ws":
                j += 1
            return j

        def is_cat(j):
            return j < n and body[j][0] == "p" and body[j][1] in ("##", "%:%:")

        while i < n:
            j = skip(i)
            cat = False
            if is_cat(j):
                i = skip(j + 1)
                cat = True
            elif j != i:
                out += [["ws", " ", False]]
                i = j
                continue
            t = body[i]
            if args is not None and t[0] == "p" and t[1] in ("#", "%:"):
                k = skip(i + 1)
                piece = [["str", self.stringify(raw(body[k][1])), False]]
                i = k + 1
            else:
                i += 1
                if args is not None and t[0] == "id" and t[1] in args:
                    if cat or is_cat(skip(i)):
                        piece = raw(t[1]) or [["pm", "", False]]
                    else:
                        piece = expanded(t[1])
                else:
                    piece = [[t[0], t[1], False]]
            if cat:
                left = out.pop()
                out.append(self.paste(left, piece[0]))
                out += piece[1:]
            else:
                out += piece
        return [t for t in out if t[0] != "pm"]

    @staticmethod
    def stringify(toks):
        s = "".join(" " if t[0] == "ws" else (t[1].replace("\\", "\\\\").replace('"', '\\"') if t[0] in ("str", "chr") else t[1]) for t in toks)
        return '"%s"' % s

    @staticmethod
    def paste(a, b):
        if a[0] == "pm":
            return b
        if b[0] == "pm":
            return a
        r = lex(a[1] + b[1], ws=True)
        if len(r) != 1 or r[0][0] in ("ws", "other"):
            raise Unspecified("paste")
        return [r[0][0], r[0][1], False]
