"""C text from an AST dump: an independent reading of what the dump says."""
UN = {"plus": "+", "negate": "-", "invert": "~", "logical_negate": "!", "prefix_increment": "++", "prefix_decrement": "--", "address": "&", "indirection": "*", "sizeof": "sizeof ", "alignof": "_Alignof"}
BIN = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "modulo": "%", "shift_left": "<<", "shift_right": ">>", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=",
       "equal": "==", "not_equal": "!=", "bitwise_and": "&", "bitwise_or": "|", "bitwise_xor": "^", "logical_and": "&&", "logical_or": "||"}
BUILTIN = {"va_start": "__builtin_va_start", "va_end": "__builtin_va_end", "va_copy": "__builtin_va_copy", "va_args": "__builtin_va_arg", "alloca": "__builtin_alloca",
           "alloca_with_align": "__builtin_alloca_with_align", "alloca_with_align_and_max": "__builtin_alloca_with_align_and_max"}
SPEC = {"bool": "_Bool", "complex": "_Complex", "atomic": "_Atomic", "va_list": "__builtin_va_list", "thread_local": "_Thread_local", "noreturn": "_Noreturn"}
INT = {"integer": "", "unsigned_integer": "u", "long": "l", "unsigned_long": "ul", "long_long": "ll", "unsigned_long_long": "ull"}
FLT = {"float": "f", "double": "", "long_double": "l"}
CHR = {"character": ("", 1), "wide_character": ("L", 4), "unicode16_character": ("u", 2), "unicode32_character": ("U", 4)}
STR = {"multibyte": ("", 1), "unicode8": ("u8", 1), "unicode16": ("u", 2), "unicode32": ("U", 4), "wide": ("L", 4)}


class Num(str):
    """a JSON number with a fraction or an exponent, as spelled"""


class Ambiguous(Exception):
    """the dump rounds floating constants to six decimals, and two of the program's constants fall together"""


FLOATS = {}


def six(v):
    """%Lf of an exact non-negative value"""
    n = round(v * 1000000)          # Fraction: half to even, as printf
    return "%d.%06d" % divmod(n, 1000000)


def hexa(v):
    """hexadecimal spelling of an exact dyadic value"""
    d = v.denominator
    return "0x%xp-%d" % (v.numerator, d.bit_length() - 1)


def floats(pairs):
    """pairs: (token type, exact value) of the program's floating constants"""
    FLOATS.clear()
    for ty, v in pairs:
        FLOATS.setdefault((ty, six(v)), set()).add(hexa(v) + FLT[ty])


class Unknown(Exception):
    """the dump has a shape this reader does not know: no verdict"""


def constant(n):
    t, v = n["type"], n["value"]
    if t in INT:
        return "%d%s" % (v, INT[t])
    if t in CHR:
        p, w = CHR[t]
        if t == "character" and not -128 <= v < 128:        # a multi-character constant
            b = (v % (1 << 32)).to_bytes(4, "big").lstrip(b"\0")
            return "'" + "".join("\\%03o" % x for x in b) + "'"
        return "%s'\\x%x'" % (p, v % (1 << 8 * w))
    if t in FLT:
        if v == "inf":
            return {"float": "1e999f", "double": "1e999", "long_double": "1e9999l"}[t]
        if not isinstance(v, Num):
            raise Unknown("float " + str(v))
        L = FLOATS.get((t, str(v)), set())
        if not L:
            raise Unknown("%s constant %s is not in the program" % (t, v))
        if len(L) > 1:
            raise Ambiguous()
        return next(iter(L))
    raise Unknown("constant " + t)


def content(n):
    c = n["content"]
    p, w = STR[n["type"]]
    if isinstance(c, str):
        b = c.encode("utf-8", "surrogateescape")
        if len(b) % w:
            raise Unknown("string content of %d bytes" % len(b))
        c = [int.from_bytes(b[i:i + w], "little") for i in range(0, len(b), w)]
    return p, w, c


def string(n):
    p, w, c = content(n)
    if not c or c[-1] != 0:
        raise Unknown("string without terminator")
    return p + '"' + "".join("\\%03o" % x if x < 512 and w == 1 else "\\x%x\"%s\"" % (x, p) for x in c[:-1]) + '"'


def E(n):
    c = n["class"]
    if c == "identifier":
        return n["identifier"]
    if c == "constant":
        return constant(n)
    if c == "string_literal":
        return string(n)
    if c == "array_subscript":
        return "(%s)[%s]" % (E(n["array"]), E(n["subscript"]))
    if c == "function_call":
        return "%s(%s)" % (P(n["function"]), ", ".join(P(a) for a in n["arguments"]))
    if c == "builtin":
        return "%s(%s)" % (BUILTIN[n["builtin"]], ", ".join(P(a) for a in n["arguments"]))
    if c == "struct_member":
        return "%s.%s" % (P(n["structure"]), n["member"])
    if c == "indirect_struct_member":
        return "%s->%s" % (P(n["structure"]), n["member"])
    if c == "unary_operation":
        t, a = n["type"], n["argument"]
        if t == "postfix_increment":
            return P(a) + "++"
        if t == "postfix_decrement":
            return P(a) + "--"
        if a["class"] == "type_name":
            return "%s(%s)" % (UN[t].strip(), E(a))
        return UN[t] + " " + P(a)
    if c == "cast_operator":
        return "(%s) %s" % (E(n["type_name"]), P(n["expression"]))
    if c == "binary_operation":
        return "%s %s %s" % (P(n["left"]), BIN[n["type"]], P(n["right"]))
    if c == "conditional_operator":
        return "%s ? %s : %s" % (P(n["condition"]), P(n["thenBranch"]) if n["thenBranch"] is not None else "", P(n["elseBranch"]))
    if c == "assignment_operator":
        return "%s %s= %s" % (P(n["target"]), "" if n["type"] == "simple" else BIN[n["type"]], P(n["value"]))
    if c == "comma_operator":
        return ", ".join(P(x) for x in n["expressions"])
    if c == "type_name":
        return (specs(n["specifiers"]) + " " + D(n["declarator"])).strip()
    if c == "generic_selection":
        a = ["%s: %s" % (E(x["type_name"]), P(x["expression"])) for x in n["associations"]]
        if n["default_association"] is not None:
            a.append("default: " + P(n["default_association"]))
        return "_Generic(%s, %s)" % (P(n["control_expression"]), ", ".join(a))
    if c == "compound_literal":
        return "(%s) %s" % (E(n["type"]), init(n["initializer"]))
    if c == "label_address":
        return "&&" + n["label"]
    if c == "statement_expression":
        return "({ %s %s })" % (" ".join(S(x) for x in n["items"]), S(n["result"]) if n["result"] is not None else "")
    raise Unknown("class " + c)


def P(n):
    """operand: parenthesised unless it cannot matter (or must not be: a string literal initialising an array, a type name)"""
    t = E(n)
    return t if n["class"] in ("identifier", "constant", "string_literal", "type_name") else "(" + t + ")"


def init(i):
    if i["type"] == "expression":
        return P(i["expression"])
    L = []
    for x in i["list"]:
        L.append((desig(x["designation"]) + " = " if x["designation"] is not None else "") + init(x["initializer"]))
    return "{" + ", ".join(L) + "}"


def desig(d):
    """the chain is linked from the last designator to the first"""
    t = "[%s]" % P(d["index"]) if d["type"] == "index" else "." + d["member"]
    return (desig(d["next"]) if d["next"] is not None else "") + t


def specs(L):
    out = []
    for x in L:
        c = x["class"]
        if c == "type_specifier":
            s = x["specifier"]
            if s in ("struct", "union"):
                t = s + " " + (x["identifier"] or "")
                if x["members"] is not None:
                    t += " { " + " ".join(member(m) for m in x["members"]) + " }"
                out.append(t)
            elif s == "enum":
                t = "enum " + (x["identifier"] or "")
                if x["members"] is not None:
                    t += " { " + ", ".join(m["identifier"] + (" = " + P(m["value"]) if m["value"] is not None else "") for m in x["members"]) + " }"
                out.append(t)
            elif s == "typedef":
                out.append(x["identifier"])
            elif s == "atomic":
                out.append("_Atomic(%s)" % E(x["atomic"]))
            else:
                out.append(SPEC.get(s, s))
        elif c == "type_qualifier":
            out.append(SPEC.get(x["qualifier"], x["qualifier"]))
        elif c == "storage_class":
            out.append(SPEC.get(x["storage"], x["storage"]))
        elif c == "function_specifier":
            out.append(SPEC.get(x["specifier"], x["specifier"]))
        elif c == "alignment_specifier":
            out.append("_Alignas(%s)" % E(x["alignment"]))
        else:
            raise Unknown("specifier " + c)
    return " ".join(out)


def member(m):
    if m["type"] == "static_assert":
        return S(m["assertion"])
    L = []
    for d in m["declarators"]:
        L.append(D(d["declarator"]) + (" : " + P(d["bitwidth"]) if d["bitwidth"] is not None else ""))
    return specs(m["specifiers"]) + " " + ", ".join(L) + ";"


def D(d):
    """the outer node is the one applied last: a pointer to (inner) ... reads inside out"""
    if d is None:
        return ""
    c = d["class"]
    if c == "identifier":
        return d["identifier"]
    if c == "abstract":
        return ""
    q = " ".join(SPEC.get(x, x) for x in d.get("type_qualifiers", []))
    i = d["declarator"]
    if c == "pointer":
        t = "*" + (q + " " if q else "") + D(i)
        return t
    t = D(i)
    if i is not None and i["class"] == "pointer":
        t = "(" + t + ")"
    if c == "array":
        body = {"unbounded": lambda: "", "vla_unspecified": lambda: "*", "bounded": lambda: P(d["length"])}[d["type"]]()
        return "%s[%s]" % (t, " ".join(x for x in ("static" if d["static"] else "", q, body) if x))
    if c == "function":
        ps = [E(p) if p["class"] in ("identifier", "type_name") else declaration(p)[:-1] for p in d["parameters"]]
        if d["ellipsis"]:
            ps.append("...")
        return "%s(%s)" % (t, ", ".join(ps))
    raise Unknown("declarator " + c)


def declaration(n):
    L = []
    for i in n["init_declarators"]:
        t = D(i["declarator"])
        if i["initializer"] is not None:
            t += " = " + init(i["initializer"])
        L.append(t)
    return (specs(n["specifiers"]) + " " + ", ".join(L)).rstrip() + ";"


def O(n):
    return P(n) if n is not None else ""


def S(n):
    c = n["class"]
    if c == "declaration":
        if any(i["declarator"] is not None and D(i["declarator"]) == "__func__[]" for i in n["init_declarators"]):
            return ""
        return declaration(n)
    if c == "static_assertion":
        return "_Static_assert(%s, %s);" % (P(n["assertion"]), E(n["string_literal"]))
    if c == "expression_statement":
        return O(n["expression"]) + ";"
    if c == "compound_statement":
        return "{\n" + "\n".join(S(x) for x in n["items"]) + "\n}"
    if c == "labeled_statement":
        return "%s: %s" % (n["label"], S(n["statement"]))
    if c == "case_statement":
        return ("case %s: " % P(n["expression"]) if n["expression"] is not None else "default: ") + S(n["statement"])
    if c == "if_statement":
        e = n["elseBranch"]
        return "if (%s) %s%s" % (E(n["expression"]), body(n["thenBranch"], e is not None), " else " + S(e) if e is not None else "")
    if c == "switch_statement":
        return "switch (%s) %s" % (E(n["expression"]), S(n["statement"]))
    if c == "while_statement":
        return "while (%s) %s" % (E(n["controlling_expression"]), S(n["body"]))
    if c == "do_while_statement":
        return "do %s while (%s);" % (S(n["body"]), E(n["controlling_expression"]))
    if c == "for_statement":
        i = n["init"]
        return "for (%s %s; %s) %s" % (declaration(i) if i is not None and i["class"] == "declaration" else O(i) + ";", O(n["controlling_expression"]), O(n["tail"]), S(n["body"]))
    if c == "return_statement":
        return "return %s;" % O(n["expression"])
    if c == "goto_statement":
        return "goto %s;" % n["identifier"]
    if c == "goto_address_statement":
        return "goto *%s;" % P(n["target"])
    if c == "continue_statement":
        return "continue;"
    if c == "break_statement":
        return "break;"
    if c == "function_definition":
        return specs(n["specifiers"]) + " " + D(n["declarator"]) + "\n" + "\n".join(declaration(x) for x in n["declarations"]) + S(n["body"])
    raise Unknown("statement " + c)


def ends_in_if(n):
    while n is not None:
        c = n["class"]
        if c == "if_statement":
            if n["elseBranch"] is None:
                return True
            n = n["elseBranch"]
        elif c in ("for_statement", "while_statement"):
            n = n["body"]
        elif c in ("labeled_statement", "case_statement", "switch_statement"):
            n = n["statement"]
        else:
            return False
    return False


def body(n, has_else):
    """a dangling else can only have come from braces, which the dump then shows"""
    if has_else and ends_in_if(n):
        raise Unknown("else after an unbraced if without else")
    return S(n)


def unit(ast):
    return "\n".join(S(x) for x in ast["external_declarations"]) + "\n"
