"""C30: the published interfaces say what the library exports, and the wrappers use it that way."""
import json
import os
import re
import subprocess

from .. import abi
from .. import facts as F
from ..check import check

HEADER = "platforms/c/libsnips_nlu.h"
KOTLIN = "platforms/kotlin/src/main/kotlin/ai/snips/nlu/NluEngine.kt"
SWIFT = "platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift"
PRE = "snips_nlu_engine_"
PRIM = {"i8": "char", "u8": "unsigned char", "i16": "short", "u16": "unsigned short", "i32": "int", "u32": "unsigned int", "i64": "int64_t",
        "u64": "uint64_t", "f32": "float", "f64": "double", "usize": "size_t", "bool": "bool"}
ALIAS = {"signed char": "char", "unsigned": "unsigned int", "uint8_t": "unsigned char", "uint32_t": "unsigned int", "int32_t": "int", "int8_t": "char",
         "long": "int64_t", "long long": "int64_t", "unsigned long": "uint64_t", "unsigned long long": "uint64_t"}
RELEASE = {"run_parse": "destroy_result", "run_get_slots": "destroy_slots", "run_get_intents": "destroy_intent_classifier_results"}
FAILS = ("run_", "create_", "get_model_version")
R_HDR = "the C header declares the exported functions"
R_LAY = "the C header lays a value out as the library does"
R_DECL = "a wrapper declares a function as it is exported"
R_ARGS = "a wrapper passes each argument on in its own place"
R_CHK = "the outcome of a call that can fail is looked at"
R_REL = "an answer is released once, as what it is, after it was read"
R_FLD = "a value is read from the field it is stored in"
R_KIND = "a value is read as the type it is stored under"


def release_of(fn):
    """The function that releases what another one gives."""
    if fn.endswith("_into_json") or fn in ("get_last_error", "get_model_version"):
        return "destroy_string"
    if fn.startswith("create_"):
        return "destroy_client"
    return RELEASE.get(fn.replace("_with_alternatives", ""))


# ---------------------------------------------------------------- the header and the library

def c_type(s):
    """(base, number of pointers)"""
    n = s.count("*")
    b = " ".join(w for w in s.replace("*", " ").split() if w not in ("const", "struct", "enum", "restrict"))
    return ALIAS.get(b, b), n


def rust_type(t):
    n = 0
    while t["k"] in ("ptr", "ptrmut"):
        n += 1
        t = t["a"][0]
    if t["k"] == "prim":
        return PRIM.get(t["d"], t["d"]), n
    return t.get("d", t["s"] if "s" in t else "?").split("::")[-1], n


class Header:
    def __init__(self, path):
        self.fns, self.structs, self.enums, self.typedefs, self.values = {}, {}, {}, {}, {}
        r = subprocess.run(["clang", "-x", "c", "-fsyntax-only", "-Xclang", "-ast-dump=json", path], capture_output=True, text=True, timeout=120)
        if r.returncode != 0:
            raise ValueError(r.stderr[:300])
        top = json.loads(r.stdout)["inner"]
        anon = {}
        for d in top:
            k = d["kind"]
            if k == "FunctionDecl":
                ps = [p for p in d.get("inner", ()) if p["kind"] == "ParmVarDecl"]
                q = d["type"]["qualType"]
                self.fns[d["name"]] = (c_type(q[:q.index("(")]), [(p.get("name", ""), c_type(p["type"]["qualType"])) for p in ps])
            elif k == "RecordDecl":
                anon[d["id"]] = [(f["name"], c_type(f["type"]["qualType"])) for f in d.get("inner", ()) if f["kind"] == "FieldDecl"]
                if d.get("name"):
                    self.structs[d["name"]] = anon[d["id"]]
            elif k == "EnumDecl":
                anon[d["id"]], at = [], -1
                for e in d.get("inner", ()):
                    if e["kind"] == "EnumConstantDecl":
                        v = next((int(x["value"], 0) for x in e.get("inner", ()) if "value" in x), None)
                        at = at + 1 if v is None else v
                        anon[d["id"]].append(e["name"])
                        self.values[e["name"]] = at
                if d.get("name"):
                    self.enums[d["name"]] = anon[d["id"]]
            elif k == "TypedefDecl":
                i = owned(d)
                if i in anon:
                    (self.structs if anon[i] and isinstance(anon[i][0], tuple) else self.enums)[d["name"]] = anon[i]
                else:
                    self.typedefs[d["name"]] = c_type(d["type"]["qualType"])


def owned(d):
    """The declaration a typedef names."""
    for x in d.get("inner", ()):
        for k in ("ownedTagDecl", "decl"):
            if k in x and "id" in x[k]:
                return x[k]["id"]
        r = owned(x)
        if r:
            return r
    return None


def exported(ctx):
    out = {}
    for b in ctx.prog.bodies.values():
        if b["crate"] is ctx.prog.ffi and b.get("nomangle") and b["kind"] == "Fn" and "promoted[" not in b["id"]:
            ty = b["crate"].types
            names = {v[1]: v[0] for v in reversed(b["vars"]) if isinstance(v[1], int)}
            out[b["name"]] = (rust_type(ty[b["locals"][0]]), [(names.get(i, ""), rust_type(ty[b["locals"][i]])) for i in range(1, b["argc"] + 1)], b)
    return out


def header_part(ctx, hd, ex):
    for n in sorted(ex):
        ret, ps, b = ex[n]
        w = "%s:%s" % (b["span"]["f"], b["span"]["l"])
        ctx.ob(R_HDR, n + ": calling convention", b["abi"].startswith("C"), b["abi"], w)
        if n not in hd.fns:
            ctx.ob(R_HDR, n, False, "not declared in the header", w)
            continue
        hr, hp = hd.fns[n]
        ctx.ob(R_HDR, n + ": result", ret == hr, "%s / %s" % (ret, hr), w)
        ctx.ob(R_HDR, n + ": number of arguments", len(ps) == len(hp), "%d / %d" % (len(ps), len(hp)), w)
        for i, ((a, t), (c, u)) in enumerate(zip(ps, hp)):
            ctx.ob(R_HDR, "%s: argument %d" % (n, i), t == u or t[1] == u[1] and t[1] > 0 and "void" in (t[0], u[0]), "%s %s / %s %s" % (a, t, c, u), w)
        names = [a for a, _ in ps]
        hn = [c for c, _ in hp]
        if all(names) and all(hn) and len(names) == len(hn):
            ctx.ob(R_HDR, n + ": order of arguments", sorted(names) != sorted(hn) or names == hn, "%s / %s" % (names, hn), w)
    for n in sorted(hd.fns):
        if n.startswith(PRE):
            ctx.ob(R_HDR, n + ": exported", n in ex, "declared, not exported", HEADER)


def layout_part(ctx, hd):
    """The structures, codes and names of the header against those of the pinned crates they come from."""
    pin = re.search(r'^%s\s*=.*tag\s*=\s*"([^"]*)"' % re.escape(abi.PINNED[0]), open(os.path.join(F.REPO, "ffi/Cargo.toml")).read(), re.M)
    if not pin or pin.group(1) != abi.PINNED[1]:
        ctx.ob(R_LAY, "versions", None, "%s is not the version whose layout is known" % abi.PINNED[0], "ffi/Cargo.toml")
        return

    def plain(t, seen=()):
        """The type a name stands for."""
        b, n = t
        while n == 0 and b in hd.typedefs and b not in seen and b not in ALIAS.values():
            seen += (b,)
            b, n = hd.typedefs[b]
        return b + "*" * n
    def shape(b):
        return "enumerated" if b in hd.enums or b == "int" or b == "unsigned int" else "long" if b in ("int64_t", "uint64_t") else b
    for s, want in sorted(abi.STRUCTS.items()):
        got = hd.structs.get(s)
        if got is None:
            ctx.ob(R_LAY, s, None, "not in the header", HEADER)
            continue
        ctx.ob(R_LAY, s + ": number of fields", len(got) == len(want), "%d / %d" % (len(got), len(want)), HEADER)
        for i, ((a, t), (c, u)) in enumerate(zip(got, want)):
            g = plain(t)
            if g == u or g.count("*") == u.count("*") > 0 and "void" in (g.rstrip("*"), u.rstrip("*")):
                st = True
            elif "*" in g or "*" in u:
                st = False
            else:
                st = None if shape(g) == shape(u) else False
            ctx.ob(R_LAY, "%s: field %d" % (s, i), st, "%s %s / %s %s" % (g, a, u, c), HEADER)
        names, own = [a for a, _ in got], [c for c, _ in want]
        ctx.ob(R_LAY, s + ": order of fields", not any(a in own and own.index(a) != i for i, a in enumerate(names)), "%s / %s" % (names, own), HEADER)
    for c, v in sorted(abi.CODES.items()):
        ctx.ob(R_LAY, c, None if c not in hd.values else hd.values[c] == v, "%s / %s" % (hd.values.get(c), v), HEADER)
    for n, u in sorted(abi.NAMES.items()):
        ctx.ob(R_LAY, n, None if n not in hd.typedefs else plain((n, 0)) == u, "%s / %s" % (plain((n, 0)), u), HEADER)


# ---------------------------------------------------------------- source text of the wrappers

TOK = re.compile(r'''"(?:\\.|[^"\\])*"|[A-Za-z_$][A-Za-z_0-9]*|`[^`]*`|\$\d+|\d+(?:\.\d+)?|\n|\?\.|\?:|!!|->|==|!=|<=|>=|&&|\|\||\.\.<|\.\.\.|[^\sA-Za-z_0-9]''')
OPEN = {"(": ")", "[": "]", "{": "}"}


class Source:
    """Tokens of a Kotlin or Swift file, without comments, with matched brackets and the functions they are in."""

    def __init__(self, path):
        s = open(path, encoding="utf8").read()
        s = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), s, flags=re.S)
        s = re.sub(r'("(?:\\.|[^"\\\n])*")|//[^\n]*', lambda m: m.group(1) or "", s)
        self.t, self.line, ln = [], [], 1
        for m in TOK.finditer(s):
            x = m.group(0)
            if x == "\n":
                ln += 1
                self.t.append(x)
                self.line.append(ln)
                continue
            self.t.append(x)
            self.line.append(ln)
        self.mate = {}
        st = []
        for i, x in enumerate(self.t):
            if x in OPEN:
                st.append(i)
            elif x in OPEN.values():
                if not st or OPEN[self.t[st[-1]]] != x:
                    raise ValueError("unbalanced %s at line %d" % (x, self.line[i]))
                j = st.pop()
                self.mate[j], self.mate[i] = i, j
        if st:
            raise ValueError("unbalanced bracket")
        self.path = path

    def skip(self, i, d=1):
        i += d
        while 0 <= i < len(self.t) and self.t[i] == "\n":
            i += d
        return i

    def at(self, i):
        return self.t[i] if 0 <= i < len(self.t) else ""

    def args(self, i):
        """Token ranges of the arguments in the brackets opened at i."""
        out, a, j = [], i + 1, i + 1
        end = self.mate[i]
        while j < end:
            if self.t[j] in OPEN:
                j = self.mate[j]
            elif self.t[j] == ",":
                out.append((a, j))
                a = j + 1
            j += 1
        if any(x != "\n" for x in self.t[a:end]):
            out.append((a, end))
        return out

    def names(self, a, b):
        """Identifiers in a range that are not members of something, labels, or called functions."""
        out = []
        for i in range(a, b):
            if re.match(r"[A-Za-z_]", self.t[i]) and self.at(self.skip(i, -1)) not in (".", "?.") and self.at(self.skip(i)) != ":" :
                out.append(self.t[i])
        return out

    def calls(self, name=None, prefix=None):
        """(position, function, opening bracket) of calls."""
        for i, x in enumerate(self.t):
            if (x == name or prefix and x.startswith(prefix)) and self.at(i + 1) == "(" and self.at(self.skip(i, -1)) not in ("fun", "func"):
                yield i, x, i + 1

    def where(self, i):
        return "%s:%d" % (os.path.relpath(self.path, F.REPO), self.line[i])

    def enclosing(self, i):
        """Opening brackets around a place, innermost first."""
        out = []
        for a, b in self.mate.items():
            if a < b and a < i < b:
                out.append(a)
        return sorted(out, reverse=True)


class Fn:
    def __init__(self, name, at, ps, a, b):
        self.name, self.at, self.ps, self.a, self.b = name, at, ps, a, b


def functions(src, words):
    """Functions, constructors and computed properties, with their parameters and the range of their body."""
    out = []
    t = src.t
    for i, x in enumerate(t):
        if x not in words or x == "constructor" and not src.enclosing(i):
            continue        # (a constructor in the heading of a class has no body)
        j = src.skip(i)
        name = x
        if x in ("fun", "func"):
            name = src.at(j)
            j = src.skip(j)
        if x == "var":
            # a computed property:  var name: T { ... }
            n = src.at(j)
            k = src.skip(j)
            if src.at(k) != ":":
                continue
            k = src.skip(k)
            while re.match(r"[A-Za-z_?<>.!]", src.at(k)):
                k += 1
            if src.at(k) == "{":
                out.append(Fn(n, i, [], k, src.mate[k]))
            continue
        if x == "deinit" and src.at(j) == "{":
            out.append(Fn(x, i, [], j, src.mate[j]))
            continue
        if src.at(j) != "(":
            continue
        ps = []
        for a, b in src.args(j):
            ids = []
            for k in range(a, b):
                if t[k] == ":":
                    break
                if re.match(r"[A-Za-z_]", t[k]):
                    ids.append(t[k])
            if ids:
                ps.append(ids[-1])
        k = src.mate[j] + 1
        # up to the body or the expression that is the body
        while k < len(t) and t[k] not in ("{", "="):
            if t[k] == "\n" and x in ("fun", "constructor") and src.at(src.skip(k)) not in ("{", "=", ":"):
                break
            if t[k] in ("(", "["):
                k = src.mate[k]
            if t[k] in words and k > j or t[k] == "}":
                break
            k += 1
        if src.at(k) == "{":
            out.append(Fn(name, i, ps, k, src.mate[k]))
        elif src.at(k) == "=":
            out.append(Fn(name, i, ps, k, expression_end(src, k)))
        elif x == "constructor":
            pass
    if "constructor" in words:
        # constructor(...) : this(...)
        for i, x in enumerate(t):
            if x == "constructor":
                j = src.skip(i)
                if src.at(j) == "(":
                    k = src.skip(src.mate[j])
                    if src.at(k) == ":" and src.at(src.skip(k)) == "this":
                        o = src.skip(src.skip(k))
                        ps = [next((t[q] for q in range(a, b) if re.match(r"[A-Za-z_]", t[q])), "") for a, b in src.args(j)]
                        out.append(Fn("constructor", i, ps, o, src.mate[o]))
    return out


def expression_end(src, k):
    """The end of an expression that begins after k: the line it ends on does not go on on the next one."""
    i = src.skip(k)
    while i < len(src.t):
        if src.t[i] in OPEN:
            i = src.mate[i] + 1
            continue
        if src.t[i] in OPEN.values():
            return i
        if src.t[i] == "\n":
            n = src.at(src.skip(i))
            p = src.at(src.skip(i, -1))
            if n not in (".", "?.", "?:", "(", "+", "&&", "||") and p not in ("=", "->", "+", "?:"):
                return i
        i += 1
    return i


def inner(fns, i):
    """The innermost function a place is in."""
    c = [f for f in fns if f.a <= i < f.b]
    return min(c, key=lambda f: f.b - f.a) if c else None


def origins(src, f):
    """Local name -> parameters (or members of a parameter, as 'p.member') its value is made of."""
    org = {p: {p} for p in f.ps}
    t = src.t
    for _ in range(4):
        for i in range(f.a, f.b):
            if t[i] != "=" or src.at(i - 1) in ("=", "!", "<", ">") or src.at(i + 1) == "=":
                continue
            j = src.skip(i, -1)
            while re.match(r"[A-Za-z_?<>.\]!\[:]", t[j]) and src.at(src.skip(j, -1)) in (":", "<", ".", "?", "[", "]", ">") and not (t[src.skip(j, -1)] == "." and True):
                j = src.skip(j, -1)
            # the name on the left:  let x: T = ...
            k = i - 1
            seen_colon = None
            while k > f.a and t[k] not in ("\n", "{", ";", ",", "("):
                if t[k] == ":":
                    seen_colon = k
                k -= 1
            left = [q for q in range(k + 1, seen_colon if seen_colon else i) if re.match(r"[A-Za-z_]", t[q]) and t[q] not in ("let", "var", "val", "if", "guard", "while")]
            if not left or src.at(left[-1] - 1) == ".":
                continue
            b = i + 1
            while b < f.b and t[b] not in ("\n", ";", ","):
                if t[b] == "{" and any(q in t[k + 1:i] for q in ("if", "guard", "while")):
                    break
                if t[b] == "else":
                    break
                b = src.mate[b] + 1 if t[b] in OPEN else b + 1
            o = found(src, org, i + 1, b)
            if o and t[left[-1]] not in f.ps:
                org.setdefault(t[left[-1]], set()).update(o)
    return org


def found(src, org, a, b):
    """Parameters an expression is made of."""
    out = set()
    for i in range(a, b):
        x = src.t[i]
        if x in org and src.at(src.skip(i, -1)) not in (".", "?.") and not (src.at(src.skip(i)) == ":" and src.at(src.skip(i, -1)) in ("(", ",")):
            out |= org[x]
    return out


def camel(s):
    w = s.split("_")
    return w[0] + "".join(x[:1].upper() + x[1:] for x in w[1:])


def snake(s):
    return re.sub(r"([A-Z])", lambda m: "_" + m.group(1).lower(), s)


SAME = {"string": "input", "query": "input", "text": "input"}


def argument_part(ctx, src, lang, fns, ex, prefix):
    """The arguments of every call of the library."""
    n = 0
    for i, x, o in src.calls(prefix=PRE):
        if prefix is not None and src.at(src.skip(i, -1)) != prefix:
            continue
        n += 1
        fn = x[len(PRE):]
        f = inner(fns, i)
        con = "%s: %s: %s" % (lang, f.name if f else "?", fn)
        w = src.where(i)
        if x not in ex:
            ctx.ob(R_ARGS, con, False, "no such function is exported", w)
            continue
        ps = ex[x][1]
        args = src.args(o)
        ctx.ob(R_ARGS, con + ": number", len(args) == len(ps), "%d / %d" % (len(args), len(ps)), w)
        if f is None or len(args) != len(ps):
            continue
        org = origins(src, f)
        known = {SAME.get(p, snake(p)): p for p in f.ps}
        lists = {p for p in f.ps if p in org}
        for k, ((name, ty), (a, b)) in enumerate(zip(ps, args)):
            got = found(src, org, a, b) & lists
            if not name:
                continue
            own = known.get(name)
            others = {known[q] for q, _ in ps if q != name and q in known}
            if own is None:
                ctx.ob(R_ARGS, "%s: %s" % (con, name), not (got & others), "is given %s" % sorted(got), w)
            elif got:
                ctx.ob(R_ARGS, "%s: %s" % (con, name), got == {own}, "is given %s" % sorted(got), w)
            else:
                text = "".join(src.t[a:b]).strip()
                ctx.ob(R_ARGS, "%s: %s" % (con, name), False if re.fullmatch(r"null|nil|\d+|UInt32\(\d+\)|\"[^\"]*\"", text) else None, "is given " + text[:80], w)
    ctx.ob(R_ARGS, lang + ": calls", n >= 6 or None, "%d calls" % n)


def checked_part(ctx, src, lang, fns, prefix):
    """Calls that can fail: their outcome goes to somewhere."""
    for i, x, o in src.calls(prefix=PRE):
        if prefix is not None and src.at(src.skip(i, -1)) != prefix:
            continue
        fn = x[len(PRE):]
        if not fn.startswith(FAILS):
            continue
        f = inner(fns, i)
        con = "%s: %s: %s" % (lang, f.name if f else "?", fn)
        h = i
        while src.at(src.skip(h, -1)) in (".", "?.") or re.match(r"[A-Za-z]", src.at(src.skip(h, -1))) and src.at(h) == "." or src.at(h) == ".":
            h = src.skip(h, -1)
        if prefix is not None:
            h = src.skip(src.skip(i, -1), -1)       # LIB . f
        end = src.mate[o]
        after, before = src.at(end + 1), src.at(src.skip(h, -1))
        nl = src.at(h - 1) == "\n"
        if before == "=" and src.at(src.skip(src.skip(h, -1), -1)) == "_":
            ctx.ob(R_CHK, con, False, "the outcome is dropped", src.where(i))
        elif before in ("guard", "if", "(", "=", "return", ",", "!", "while", "when", "switch", "+", "&&", "||") or after in ("==", "!=", ".", "?") or \
                src.at(src.skip(end)) in (".", "==", "!="):
            st = True
            if lang == "Swift" and before in ("guard", "if"):
                op, val = src.at(src.skip(end)), src.at(src.skip(src.skip(end)))
                if op in ("==", "!=") and val in ("SNIPS_RESULT_OK", "SNIPS_RESULT_KO"):
                    good = (op == "==") == (val == "SNIPS_RESULT_OK")
                    st = good if before == "guard" else (True if not good else None)
            ctx.ob(R_CHK, con, st, "%s … %s" % (before, after), src.where(i))
        elif (nl or before in ("{", ";")) and after in ("\n", ";") and src.at(src.skip(end)) != "}":
            ctx.ob(R_CHK, con, False, "the outcome is dropped", src.where(i))
        else:
            ctx.ob(R_CHK, con, None, "%s … %s" % (before, after), src.where(i))


R_SAME = "a wrapper hands on what it is given, whole and unchanged"
# what makes another text, another list or another number of what a caller gave
OTHER = {"toLowerCase", "lowercase", "lowercased", "toUpperCase", "uppercase", "uppercased", "capitalize", "capitalized", "decapitalize", "trim", "trimEnd",
         "trimStart", "trimmingCharacters", "trimIndent", "substring", "replace", "replacingOccurrences", "take", "takeLast", "drop", "dropLast", "dropFirst",
         "prefix", "suffix", "filter", "filterNot", "distinct", "distinctBy", "toSet", "sorted", "sortedBy", "sortedDescending", "reversed", "shuffled",
         "takeIf", "takeUnless", "ifEmpty", "isEmpty", "isNotEmpty", "isNullOrEmpty", "min", "max", "minOf", "maxOf", "coerceAtMost", "coerceAtLeast", "coerceIn",
         "toByte", "toShort", "subList", "slice", "lastPathComponent", "name", "nameWithoutExtension", "parent", "parentFile", "compactMap"}


def changed(src, a, b):
    """What in an expression makes something else of what it is made of."""
    t = src.t
    out = []
    for i in range(a, b):
        if t[i] in OTHER and (src.at(src.skip(i, -1)) in (".", "?.") or t[i] in ("min", "max", "minOf", "maxOf") and src.at(i + 1) == "("):
            out.append(t[i])
        if t[i] in ("-", "+", "*", "/", "%", "shr", "shl") and src.at(src.skip(i, -1)) not in ("(", ",", "=", "return", "{") and \
                not {"Pointer", "POINTER_SIZE"} & {t[q] for q in range(max(a, i - 4), min(b, i + 5))}:
            out.append(t[i])
    return out


def whole_part(ctx, src, lang, fns, ex, prefix):
    """Texts, lists and numbers reach the library as the caller gave them."""
    t = src.t
    for i, x, o in src.calls(prefix=PRE):
        if prefix is not None and src.at(src.skip(i, -1)) != prefix or x not in ex:
            continue
        f = inner(fns, i)
        if f is None:
            continue
        con = "%s: %s: %s" % (lang, f.name, x[len(PRE):])
        org = origins(src, f)
        for k, (a, b) in enumerate(src.args(o)):
            c = changed(src, a, b)
            if c or found(src, org, a, b):
                ctx.ob(R_SAME, "%s: argument %d" % (con, k), not c, "%s in %s" % (c, "".join(t[a:b]).strip()[:80]), src.where(i))
    for f in fns:
        org = origins(src, f)
        for i in range(f.a, f.b):
            # an optional list is handed on whenever it is there:  if let x = list, ... {
            if t[i] == "let" and src.at(src.skip(i, -1)) in ("if", "guard") and src.at(i + 2) == "=" and src.at(i + 3) in f.ps and inner(fns, i) is f:
                k = src.skip(i + 3)
                if src.at(k) == "{" or src.at(k) == "," and src.at(src.skip(i, -1)) == "if":
                    ctx.ob(R_SAME, "%s: %s: %s" % (lang, f.name, t[i + 3]), src.at(k) == "{", "only in some cases", src.where(i))
                for q in range(i, min(len(t), i + 4)):
                    pass
            # the number of elements and the memory for them
            if t[i] == "size" and src.at(i + 1) not in (".", "(") and src.at(src.skip(i)) == "=" and f.ps:
                q = src.skip(i)
                e = expression_end(src, q)
                if found(src, org, q + 1, e):
                    c = changed(src, q + 1, e)
                    ctx.ob(R_SAME, "%s: %s: number of elements" % (lang, f.name), not c, "%s in %s" % (c, "".join(t[q + 1:e]).strip()[:80]), src.where(i))
            if t[i] in ("allocate", "Memory") and src.at(i + 1) == "(" and f.ps and inner(fns, i) is f:
                a, b = i + 2, src.mate[i + 1]
                own = found(src, org, a, b)
                bytes_ = t[i] == "Memory"
                ok = bool(own) and any(q in ("size", "count") for q in t[a:b]) and not changed(src, a, b) and \
                    (not bytes_ or bool({"Pointer", "POINTER_SIZE"} & set(t[a:b])))
                ctx.ob(R_SAME, "%s: %s: memory of a list" % (lang, f.name), ok if own or all(re.match(r"\d|capacity|:", q) for q in t[a:b]) else None,
                       "".join(t[a:b])[:80], src.where(i))
            if t[i] in ("setPointer", "setLong", "setInt") and src.at(i + 1) == "(" and src.args(i + 1):
                a, b = src.args(i + 1)[0]
                step = {"Pointer", "POINTER_SIZE"} & set(t[a:b])
                ctx.ob(R_SAME, "%s: %s: place of an element" % (lang, f.name), True if step and "*" in t[a:b] else (False if any(q.isdigit() for q in t[a:b]) else None),
                       "".join(t[a:b])[:80], src.where(i))
            # memory is given up only when there is nothing to store
            if t[i] == "if" and src.at(i + 1) == "(" and src.at(src.skip(i, -1)) == "=" and f.ps and src.at(src.skip(src.skip(i, -1), -1)) == "data":
                a, b = i + 2, src.mate[i + 1]
                c = [q for q in t[a:b] if q != "\n"]
                if len(c) == 3 and c[0] == "size" and c[2].isdigit() and c[1] in CMP:
                    ctx.ob(R_SAME, "%s: %s: elements of a list" % (lang, f.name), CMP[c[1]](1, int(c[2])), "".join(c), src.where(i))


CMP = {">": lambda x, y: x > y, "<": lambda x, y: x < y, ">=": lambda x, y: x >= y, "<=": lambda x, y: x <= y, "==": lambda x, y: x == y,
       "!=": lambda x, y: x != y}

READS = ("getString", "readString", "pointee")


def release_part(ctx, src, lang, fns, prefix):
    """Answers of the library and what gives them back, function by function (through functions of the file)."""
    direct = {}
    for i, x, o in src.calls(prefix=PRE):
        f = inner(fns, i)
        if f is not None:
            direct.setdefault(f.at, []).append((i, x[len(PRE):]))
    by = {}
    for f in fns:
        by.setdefault(f.name, []).append(f)

    def reach(f, seen):
        """Releases made by a function and those it calls, but for those that report errors."""
        out = []
        if f.at in seen:
            return out
        seen.add(f.at)
        here = direct.get(f.at, ())
        out += [(i, x) for i, x in here if x.startswith("destroy_")]
        for i in range(f.a, f.b):
            g = by.get(src.t[i])
            if g and src.at(i + 1) in ("(", "{") and src.t[i] not in ("init", "constructor"):
                for h in g:
                    if h.at != f.at and not any(x == "get_last_error" for _, x in direct.get(h.at, ())):
                        out += [(i, x) for _, x in reach(h, seen)]
        return out
    whole = {x for v in direct.values() for _, x in v}
    n = 0
    for f in fns:
        got = [(i, x) for i, x in direct.get(f.at, ()) if not x.startswith("destroy_")]
        for i, x in got:
            want = release_of(x)
            con = "%s: %s: %s" % (lang, f.name, x)
            w = src.where(i)
            if want is None:
                ctx.ob(R_REL, con, None, "", w)
                continue
            n += 1
            if want == "destroy_client":
                ctx.ob(R_REL, con, want in whole, "nothing calls " + want, w)
                continue
            rel = [(j, y) for j, y in reach(f, set()) if not any(h is not f and h.a <= j < h.b and f.a <= h.a and h.b <= f.b for h in fns)]
            kinds = {release_of(y) for _, y in got}
            right = [j for j, y in rel if y == want]
            wrong = {y for _, y in rel} - kinds
            ctx.ob(R_REL, con, bool(right) and not wrong, "released with %s" % sorted({y for _, y in rel}) if rel else "never released", w)
            once = len([j for j, y in rel if y == want]) <= len([1 for _, y in got if release_of(y) == want])
            if right and not once:
                ctx.ob(R_REL, con + ": once", None, "%d times" % len(right), w)
            if right:
                late = [k for k in range(f.a, f.b) if (src.t[k] in READS or re.match(r"to[A-Z]\w*(List|Result)$", src.t[k])) and k > i]
                deferred = any(src.at(src.skip(a, -1)) in ("defer", "finally") for a in src.enclosing(right[0]))
                if late:
                    ctx.ob(R_REL, con + ": after it was read", deferred or min(late) < right[0], "read at line %d, released at line %d" %
                           (src.line[min(late)], src.line[right[0]]), w)
                if lang == "Kotlin" and want != "destroy_string":
                    off = [k for k in range(f.a, f.b) if src.t[k] == "autoRead" and src.at(src.skip(src.skip(k))) == "false"]
                    ctx.ob(R_REL, con + ": not synchronised afterwards", bool(off) and off[0] < right[0] or (None if "autoRead" in src.t and not off and
                           len([k for k in src.t if k == "autoRead"]) == 1 else False), "autoRead stays on", w)
    ctx.ob(R_REL, lang + ": answers", n >= 4 or None, "%d" % n)


# ---------------------------------------------------------------- Kotlin

def kotlin_part(ctx, ex, hd):
    src = read(ctx, KOTLIN, R_DECL)
    if src is None:
        return
    fns = functions(src, ("fun", "constructor"))
    t = src.t
    n = 0
    for i, x in enumerate(t):
        if x != "fun" or not src.at(src.skip(i)).startswith(PRE):
            continue
        j = src.skip(i)
        name, o = t[j], src.skip(j)
        con, w = "Kotlin: " + name[len(PRE):], src.where(j)
        n += 1
        if name not in ex:
            ctx.ob(R_DECL, con, False, "no such function is exported", w)
            continue
        ps = ex[name][1]
        args = src.args(o)
        ctx.ob(R_DECL, con + ": number of arguments", len(args) == len(ps), "%d / %d" % (len(args), len(ps)), w)
        k = src.skip(src.mate[o])
        ctx.ob(R_DECL, con + ": result", src.at(src.skip(k)) == "Int" if src.at(k) == ":" else None, src.at(src.skip(k)), w)
        if len(args) != len(ps):
            continue
        names = []
        for (pn, ty), (a, b) in zip(ps, args):
            toks = [q for q in t[a:b] if q != "\n"]
            kn, kt = toks[0], "".join(toks[2:])
            names.append(kn)
            ctx.ob(R_DECL, "%s: %s" % (con, pn), kotlin_type(kt, ty, name), "%s: %s for %s%s" % (kn, kt, ty[0], "*" * ty[1]), w)
        mine = [q for q, _ in ps]
        ctx.ob(R_DECL, con + ": order of arguments", sorted(names) != sorted(mine) or names == mine, "%s / %s" % (names, mine), w)
    ctx.ob(R_DECL, "Kotlin: declarations", n >= 6 or None, "%d" % n)
    argument_part(ctx, src, "Kotlin", [f for f in fns if not f.name.startswith(PRE)], ex, ".")
    checked_part(ctx, src, "Kotlin", fns, ".")
    release_part(ctx, src, "Kotlin", fns, ".")
    whole_part(ctx, src, "Kotlin", [f for f in fns if not f.name.startswith(PRE)], ex, ".")
    # who turns an outcome into an exception
    for f in fns:
        if any(x == PRE + "get_last_error" for x in t[f.a:f.b]) and f.name not in (PRE + "get_last_error",) and f.ps:
            st = None
            for i in range(f.a, f.b):
                if t[i] in ("<", ">", "<=", ">=") and src.at(i - 1) in f.ps and src.at(i + 1).isdigit() and \
                        src.at(src.skip(src.skip(i - 1, -1), -1)) == "if" and {"SNIPS_RESULT_OK", "SNIPS_RESULT_KO"} <= set(hd.values):
                    st = CMP[t[i]](hd.values["SNIPS_RESULT_KO"], int(t[i + 1])) and not CMP[t[i]](hd.values["SNIPS_RESULT_OK"], int(t[i + 1]))
                if t[i] in ("==", "!=") and {src.at(i - 1), src.at(i + 1)} & set(f.ps) and "0" in (src.at(i - 1), src.at(i + 1)) and \
                        src.at(src.skip(src.skip(i - 1, -1), -1)) == "if":
                    st = t[i] == "!="
            ctx.ob(R_CHK, "Kotlin: " + f.name, st, "any outcome but success is an error", src.where(f.at))
            ctx.ob(R_CHK, "Kotlin: %s: reported" % f.name, True if "throw" in t[f.a:f.b] else None, "", src.where(f.at))
    # the list of strings
    for i, x in enumerate(t):
        if x == "getFieldOrder":
            c = next((k for k in range(i, i + 12) if t[k] == "listOf"), None)
            got = [q.strip('"') for q in t[c:src.mate[c + 1]] if q.startswith('"')] if c else None
            want = [q for q, _ in hd.structs.get("CStringArray", ())]
            ctx.ob(R_FLD, "Kotlin: CStringArray: order of fields", got == want if got and want else None, "%s / %s" % (got, want), src.where(i))


ELSEWHERE = {"CSlots": "CSlotList"}        # what the classes of the published ontology library are called there


def kotlin_type(kt, ty, fn):
    base, n = ty
    b = kt.rstrip("?")
    if n == 0:
        want = {"unsigned int": ("Int",), "int": ("Int",), "int64_t": ("Long",), "float": ("Float",), "double": ("Double",)}.get(base)
        return None if want is None else b in want
    if b in ("Int", "Long", "Short", "Byte", "Float", "Double", "Boolean"):
        return False
    if n == 2:
        return b == "PointerByReference" or (None if b in ("Pointer",) else False)
    if b == "PointerByReference":
        return False
    if b == "Pointer":
        return True
    if b == "ByteArray":
        return base in ("unsigned char", "char")
    if b == "String":
        return base == "char"
    return b == base or ELSEWHERE.get(b) == base or (None if b.startswith("C") and base.startswith("C") else False)


# ---------------------------------------------------------------- Swift

BOUND = {"CChar": ("char", 0), "CDouble": ("double", 0), "CFloat": ("float", 0), "CInt": ("int", 0), "Int32": ("int", 0), "Int64": ("int64_t", 0), "Double": ("double", 0),
         "Float": ("float", 0), "CLongLong": ("int64_t", 0), "Int8": ("char", 0), "UInt8": ("unsigned char", 0), "UInt32": ("unsigned int", 0), "CUnsignedInt": ("unsigned int", 0)}


def swift_part(ctx, ex, hd):
    src = read(ctx, SWIFT, R_DECL)
    if src is None:
        return
    fns = functions(src, ("func", "init", "deinit", "var"))
    argument_part(ctx, src, "Swift", fns, ex, None)
    checked_part(ctx, src, "Swift", fns, None)
    release_part(ctx, src, "Swift", fns, None)
    whole_part(ctx, src, "Swift", fns, ex, None)
    t = src.t
    # every enumerated value has its own case
    n = 0
    for i, x in enumerate(t):
        if x != "switch":
            continue
        j = i
        while t[j] != "{":
            j = src.mate[j] + 1 if t[j] in ("(", "[") else j + 1
        cases = [k for k in range(j + 1, src.mate[j]) if t[k] in ("case", "default") and src.enclosing(k)[0] == j]
        labels = [t[k + 1] if t[k] == "case" else None for k in cases]
        named = [q for q in labels if q]
        en = [e for e, cs in hd.enums.items() if named and named[0] in cs]
        if len(en) != 1:
            continue
        n += 1
        e = en[0]
        w = src.where(i)
        for c in hd.enums[e]:
            ctx.ob(R_KIND, "Swift: %s" % c, c in named, "is not read", w)
        for k, nx in zip(cases, cases[1:] + [src.mate[j]]):
            if t[k] != "case":
                continue
            c = t[k + 1]
            if any(q == "," for q in t[k:nx]) and c not in hd.enums[e]:
                continue
            kind = c[len(e) + 1:].replace("_", "").lower()
            made = next((t[q + 3] for q in range(k, nx) if t[q:q + 3] == ["self", "=", "."]), None)
            ctx.ob(R_KIND, "Swift: %s: case" % c, made.lower() == kind if made else None, made or "", w)
            b = next((q for q in range(k, nx) if t[q] == "assumingMemoryBound"), None)
            if b is not None:
                ids = [q for q in t[b + 1:src.mate[b + 1]] if re.match(r"[A-Z]", q)]
                if len(ids) == 1:
                    bound = BOUND.get(ids[0], (ids[0], 0))
                    want = next((s for s in list(hd.structs) + list(hd.typedefs) if s.lower() == "c" + kind + "value"), None)
                    want = hd.typedefs.get(want, (want, 0)) if want else ("char", 0)
                    ctx.ob(R_KIND, "Swift: %s: type" % c, bound == want or hd.typedefs.get(ids[0]) == want, "%s / %s" % (bound, want), w)
    ctx.ob(R_KIND, "Swift: kinds", n >= 3 or None, "%d" % n)
    # fields
    n = 0
    for f in fns:
        if f.name != "init" or len(f.ps) != 1:
            continue
        a = src.skip(src.skip(f.at))
        ty = [q for q in t[a:f.a] if re.match(r"C[A-Z]", q)]
        if not ty or ty[0] not in hd.structs:
            continue
        fields = [q for q, _ in hd.structs[ty[0]]]
        p = f.ps[0]
        org = {}

        def members(a, b):
            out = []
            for q in range(a, b):
                if t[q] == p and src.at(q + 1) == "." and src.at(q - 1) != ".":
                    out.append(t[q + 2])
                elif t[q] in org and src.at(q - 1) != "." and src.at(q + 1) != ":":
                    out += org[t[q]]
            return out
        for q in range(f.a, f.b):
            if t[q] == "let" and src.at(q + 2) == "=":
                e = q + 3
                while e < f.b and t[e] not in ("\n", "{", ","):
                    e = src.mate[e] + 1 if t[e] in ("(", "[") else e + 1
                m = members(q + 3, e)
                if m:
                    org[t[q + 1]] = m
        for q in range(f.a, f.b):
            if t[q] == "self" and t[q + 1] == "." and t[q + 3] == "=":
                e = q + 4
                while e < f.b and t[e] != "\n":
                    e = src.mate[e] + 1 if t[e] in OPEN else e + 1
                m = []
                for x in members(q + 4, e):
                    if x not in m or True:
                        m.append(x)
                if not m:
                    continue
                if any(x == "?" for x in t[q + 4:e]) and ":" in t[q + 4:e]:
                    m = list(dict.fromkeys(m))
                n += 1
                own = snake(t[q + 2])
                con = "Swift: %s: %s" % (ty[0], t[q + 2])
                c = changed(src, q + 4, e)
                ctx.ob(R_FLD, con + ": whole", not c, "%s in %s" % (c, "".join(t[q + 4:e]).strip()[:80]), src.where(q))
                for z in range(q + 4, e):
                    # what is optional is there from zero on
                    if t[z] in (">", ">=", "<", "<=") and src.at(z + 1) == "0" and "?" in t[z:e] and "nil" in t[z:e]:
                        ctx.ob(R_FLD, con + ": zero is a value", t[z] in (">=", "<"), "".join(t[q + 4:e]).strip()[:80], src.where(q))
                if own in fields:
                    ctx.ob(R_FLD, con, set(m) == {own}, "read from %s" % sorted(set(m)), src.where(q))
                else:
                    want = [x for x in fields if x.startswith(own + "_")]
                    ctx.ob(R_FLD, con, list(dict.fromkeys(m)) == want if want else None, "read from %s" % m, src.where(q))
        for q in range(f.a, f.b):
            counts(ctx, src, q, f)
    for f in fns:
        if f.name != "init":
            for q in range(f.a, f.b):
                counts(ctx, src, q, f)
    ctx.ob(R_FLD, "Swift: fields", n >= 10 or None, "%d" % n)


def counts(ctx, src, q, f):
    """A list is read from its own first element, for its own size."""
    t = src.t
    if t[q] != "UnsafeBufferPointer" or t[q + 1] != "(":
        return
    args = src.args(q + 1)
    if len(args) != 2:
        return
    ms = [[(t[i], t[i + 2]) for i in range(a, b) if src.at(i + 1) == "." and re.match(r"[a-z]", t[i]) and src.at(i - 1) != "."] for a, b in args]
    if all(len(m) == 1 for m in ms):
        plain = not any(x in ("-", "+", "*", "/", "min", "max") for x in t[args[1][0]:args[1][1]])
        ctx.ob(R_FLD, "Swift: %s: %s: size" % (f.name, ms[0][0][1]), ms[0][0][0] == ms[1][0][0] and ms[1][0][1] == "size" and plain,
               "%s / %s" % (ms[0][0], ms[1][0]), src.where(q))


def read(ctx, rel, rule):
    p = os.path.join(F.REPO, rel)
    if not os.path.exists(p):
        ctx.ob(rule, rel, None, "no such file")
        return None
    try:
        return Source(p)
    except ValueError as x:
        ctx.ob(rule, rel, None, str(x))
        return None


@check("C30")
def c30(ctx):
    """The exported functions are taken from the type-checked crate, the C header from clang's syntax tree, and the declarations, calls,
    assignments and case distinctions of the Kotlin and Swift wrappers from their token trees (names are followed through assignments)."""
    ex = exported(ctx)
    ctx.floor("exported functions", len(ex), 10)
    p = os.path.join(F.REPO, HEADER)
    try:
        hd = Header(p)
    except (OSError, ValueError, KeyError, subprocess.SubprocessError) as x:
        ctx.ob(R_HDR, "header", None, "%s" % x)
        return
    ctx.count("exported_functions", len(ex))
    ctx.count("declared_functions", len([x for x in hd.fns if x.startswith(PRE)]))
    header_part(ctx, hd, ex)
    layout_part(ctx, hd)
    kotlin_part(ctx, ex, hd)
    swift_part(ctx, ex, hd)
