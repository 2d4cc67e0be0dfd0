"""Whole programs for checks that need 'any valid program': drawn from the generators of the other checks."""
import importlib, re
from . import cc, pplex

_MODS = [("c01", "C01", 3), ("c02", "C02", 2), ("c03", "C03", 4), ("c04", "C04", 4), ("c05", "C05", 3), ("c07", "C07", 2), ("c08", "C08", 2),
         ("c09", "C09", 4), ("c10", "C10", 4), ("c11", "C11", 3), ("c14", "C14", 3), ("c21", "C21", 3), ("c23", "C23", 4)]
_cache = {}


def _gen(mod, cls):
    if mod not in _cache:
        _cache[mod] = getattr(importlib.import_module("checks." + mod), cls)()
    return _cache[mod]


def program(s, only=None, prefix="c0_"):
    """-> (text, label): a complete translation unit kefir accepts"""
    mods = [m for m in _MODS if not only or m[0] in only]
    mod, cls, _ = s.weighted([(w, (m, c, w)) for m, c, w in mods])
    g = _gen(mod, cls)
    case = g.gen(s)
    text = g.prelude + case.data["code"].replace("$K", prefix)
    return text, mod


def lines(text):
    """physical lines with splices joined; block comments replaced by a blank; -> [(is_directive, text)]"""
    text = text.replace("\\\n", "")
    out = []
    for l in strip_comments(text).split("\n"):
        out.append((bool(re.match(r"[ \t]*(#|%:)", l)), l))
    return out


_c = re.compile(r"(?P<s>(?:u8|u|U|L)?\"(?:[^\"\\\n]|\\.)*\"|(?:u|U|L)?'(?:[^'\\\n]|\\.)*')|(?P<b>/\*.*?\*/)|(?P<l>//[^\n]*)", re.S)


def strip_comments(text):
    return _c.sub(lambda m: m.group() if m.group("s") else " ", text)


def glue_ok(a, b):
    """may b follow a without white space? exactly when the two still lex as themselves"""
    if a[-1:] + b[:1] in ("//", "/*"):
        return False
    return [t for _, t in pplex.lex(a + b)] == [a, b]
