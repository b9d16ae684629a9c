"""C26: the Python wrapper asks the library for what its caller asked for, hands back what the library answered, and gives back what it was given."""
import os

from .. import facts as F
from ..check import check
from ..pysym import NONE, Budget, Program, St, parts
from .ffi import ALIASED, CALLS

PKG = "snips_nlu_rust"
ROOT = "platforms/python/snips_nlu_rust"
MOD, CLS = "nlu_engine", "NLUEngine"
MAIN = {"parse": ("run_parse_with_alternatives_into_json", {"input": "query", "only": "intents_whitelist", "not": "intents_blacklist",
                                                            "intents": "intents_alternatives", "slots": "slots_alternatives"}),
        "get_slots": ("run_get_slots_with_alternatives_into_json", {"input": "query", "intent": "intent", "slots": "slots_alternatives"}),
        "get_intents": ("run_get_intents_into_json", {"input": "query"})}
UTF8 = ("utf8", "utf-8", "UTF8", "UTF-8", "utf_8")
ALTER = ("strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "swapcase", "replace", "normalize", "expandtabs", "split",
         "join", "translate", "format", "center", "zfill", "removeprefix", "removesuffix", "splitlines", "sub", "partition", "pop", "get", "abs", "max",
         "min", "hash", "id", "repr", "ascii", "bool", "reversed", "filter", "quote", "unquote", "hex")
STRINGS = ("get_last_error", "get_model_version", "into_json")


def base(name):
    """What an exported function does, whatever prefix it is exported under."""
    for p in ("ffi_snips_nlu_engine_", "snips_nlu_engine_"):
        if name.startswith(p):
            return name[len(p):]
    return None


def gives_text(name):
    return name is not None and (name.endswith("_into_json") or name in ("get_last_error", "get_model_version"))


def count(args):
    """How many arguments, or -1 when some come unpacked from an unknown place."""
    return -1 if any(a[0] == "star" for a in args) else len(args)


def called(v):
    """(name, receiver or None, args) of a call of a global function or of a method."""
    if v[0] == "call":
        if v[1][0] == "g":
            return v[1][1], None, v[2]
        if v[1][0] == "attr":
            return v[1][2], v[1][1], v[2]
    return None, None, ()


def altered(v):
    """Something in the value that is known to change what it says."""
    for x in parts(v):
        if x and x[0] in ("bin", "idx", "un"):
            return "%s" % (x[0] if x[0] != "bin" else "operator %s" % x[1])
        if x and x[0] == "call":
            n = called(x)[0]
            if n and n.split(".")[-1] in ALTER:
                return n
    return None


class Case:
    """Abstract arguments of one call and what its conditions come to."""

    def __init__(self, vals, exits=0):
        self.vals, self.exits = vals, exits

    def value(self, t, st):
        """A Python-like constant standing for a value: None, a bool, a number, or "?" when unknown."""
        k = t[0]
        if k == "k":
            return t[1]
        if k == "p":
            v = self.vals.get(t[1], "?")
            return None if v == "none" else [] if v == "empty" else ["x"] if v == "some" else "?"
        if k == "exit":
            return self.exits.get(t[1], "?") if isinstance(self.exits, dict) else self.exits
        if k == "not":
            v = self.value(t[1], st)
            return "?" if v == "?" else not v
        if k == "tuple":
            return [] if not t[1] else ["x"]
        if k == "comp" and not t[4]:
            return self.value(t[3], st)
        if k == "every":
            return True if self.holds(t[2]) else "?"
        if k == "engine":
            return ["engine"]
        if k == "call":
            n, r, a = called(t)
            if n in ("len", "bool", "list", "tuple", "iter", "sorted", "set", "frozenset") and a:
                v = self.value(a[0], st)
                if n == "len":
                    return len(v) if isinstance(v, list) and not v else "len" if isinstance(v, list) else "?"
                return "?" if v == "?" else bool(v) if n == "bool" else v
            if n in ("all", "any") and a and a[0][0] == "comp":
                v = self.value(a[0][3], st)
                if v == []:
                    return n == "all"
                c = a[0][1]
                h = self.holds(c)
                return "?" if h is None or v == "?" else h
            if n == "isinstance" and len(a) == 2:
                h = self.holds(t)
                if h is not None:
                    return h
        if k == "cmp":
            a, b = self.value(t[2], st), self.value(t[3], st)
            if t[1] in ("is", "=="):
                if "?" in (a, b) if not isinstance(a, list) and not isinstance(b, list) else "?" in [x for x in (a, b) if isinstance(x, str)]:
                    return "?"
                if a == "len" or b == "len":
                    return False if 0 in (a, b) else "?"
                return a == b and type(a) is type(b)
            if "len" in (a, b) and t[1] in (">", "<"):
                if t[1] == ">" and b == 0 or t[1] == "<" and a == 0:
                    return True
                if t[1] == "<" and b in (0, 1) and b is not True or t[1] == ">" and a in (0, 1):
                    return False
                return "?"
            if isinstance(a, int) and isinstance(b, int):
                return a > b if t[1] == ">" else a < b if t[1] == "<" else "?"
        return "?"

    def holds(self, c):
        """Whether a condition on an element holds, given that the elements are strings."""
        q = True
        while c[0] == "not":
            c, q = c[1], not q
        n, r, a = called(c)
        if n == "isinstance" and len(a) == 2:
            ts = a[1][1] if a[1][0] == "tuple" else (a[1],)
            names = [x[1].split(".")[-1] for x in ts if x[0] == "g"]
            if a[0][0] == "elem":
                return ("str" in names or "basestring" in names or "text_type" in names) is q if names else None
            if a[0][0] == "p" and self.vals.get(a[0][1]) in ("empty", "some"):
                return True if q and any(x in names for x in ("list", "tuple", "Iterable", "Sequence", "object")) else None
        if c[0] == "k":
            return bool(c[1]) is q
        return None

    def feasible(self, st):
        for c, q in st.facts:
            v = self.value(c, st)
            if v == "?" or v == "len":
                continue
            if bool(v) is not q:
                return False
        return True


class Wrapper:
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = os.path.join(F.REPO, ROOT)
        self.prog = Program(self.root, PKG)
        self.where = "%s/%s.py (%s)" % (ROOT, MOD, CLS)
        self.exported = {}
        for b in ctx.prog.bodies.values():
            if b.get("nomangle"):
                self.exported.setdefault(b["path"].split("::")[-1], b)

    def ob(self, rule, what, status, msg=""):
        self.ctx.ob(rule, what, status, msg, self.where)

    def paths(self, name, heap):
        fn = self.prog.method(MOD, CLS, name)
        if fn is None:
            self.ob("the method is there", "%s.%s" % (CLS, name), False, "no such method in %s" % self.where)
            return None
        s = St()
        s.heap["self"] = dict(heap, **{"@cls": (MOD, CLS)})
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args][1:] + [a.arg for a in fn.args.kwonlyargs]
        if fn.decorator_list:
            self.ob("the method is analysed", name, None, "decorated")
        rs = self.prog.run(MOD, fn, [("obj", "self")] + [("p", a) for a in names[:len(fn.args.posonlyargs + fn.args.args) - 1]], s)
        for s2, o in rs:
            s2.mod = names
        self.ctx.paths += len(rs)
        self.ctx.functions |= {"%s.%s" % m for m in self.prog.inlined}
        return names, rs

    # ------------------------------------------------------------ what an argument says
    def text(self, v, want):
        """Whether a value is the bytes of a text: True, (False, why) or None."""
        if v[0] == "call" and v[1] == ("g", "ctypes.c_char_p") and len(v[2]) == 1:
            v = v[2][0]
        n, r, a = called(v)
        if n == "os.fsencode":
            return self.plain(a[0], want)
        if n == "encode" and r is not None:
            enc = a[0] if a else dict(v[3]).get("encoding", ("k", "utf8"))
            mode = a[1] if len(a) > 1 else dict(v[3]).get("errors", ("k", "strict"))
            if enc[0] != "k" or mode[0] != "k":
                return None
            if enc[1] not in UTF8:
                return False, "encoded as %r where the library reads UTF-8" % (enc[1],)
            if mode[1] != "strict":
                return False, "what cannot be encoded is left out (%r) and another text is asked for" % (mode[1],)
            return self.plain(r, want)
        return self.wrong(v, want, "a text is handed over as bytes")

    def plain(self, v, want):
        while v != want:
            n, r, a = called(v)
            if n and n.split(".")[-1] in ("str", "Path", "PurePath", "text_type", "fspath", "unicode") and len(a) == 1 and r is None:
                v = a[0]
            else:
                return self.wrong(v, want, "")
        return True

    def wrong(self, v, want, why):
        x = altered(v)
        if x:
            return False, "what is handed over was changed by %s" % x
        if want not in set(parts(v)):
            if any(p and p[0] == "opaque" for p in parts(v)):
                return None
            return False, "%s is not what is handed over" % (want[1],)
        if v == want and why:
            return False, "it is handed over as it is; %s" % why
        return None

    def number(self, v, want):
        while v[0] == "call" and v[1][0] == "g" and v[1][1].split(".")[-1] in ("c_int", "c_uint", "c_int32", "c_uint32", "int") and len(v[2]) == 1:
            v = v[2][0]
        return True if v == want else self.wrong(v, want, "")

    def length(self, v):
        """What a value counts, or None."""
        while v[0] == "call" and v[1][0] == "g" and v[1][1].split(".")[-1] in ("c_int", "c_uint", "c_int32", "c_uint32", "int") and len(v[2]) == 1:
            v = v[2][0]
        n, r, a = called(v)
        return a[0] if n == "len" and len(a) == 1 else ("none",) if v == ("k", 0) else None

    def source(self, v):
        """A list, under one-for-one mappings."""
        while True:
            if v[0] == "comp" and not v[4]:
                v = v[3]
            elif v[0] == "call" and v[1] in (("g", "list"), ("g", "tuple")) and len(v[2]) == 1:
                v = v[2][0]
            else:
                return v

    def listed(self, v, want, case, st, heap):
        """Whether a value is the list of the caller, for the library."""
        held = case.vals[want[1]]
        if v == NONE or v == want and held == "none":
            return True if held == "none" else (False, "no list is handed over when %s is given as %s" % (want[1], "an empty list" if held == "empty" else "a list"))
        if v[0] == "byref":
            v = v[1]
        if v[0] != "obj" or v[1] not in heap:
            return self.wrong(v, want, "a list is handed over as a pointer to a CStringArray")
        if held == "none":
            return False, "a list is handed over when %s is not given" % want[1]
        o = heap[v[1]]
        data, size = o.get("data"), o.get("size")
        if data is None or size is None:
            return False, "the list has no %s" % ("data" if data is None else "size")
        if data[0] == "call" and data[1] == ("g", "ctypes.cast") and data[2]:
            data = data[2][0]
        n = data[1] if data[0] == "call" else None
        if n is None or n[0] != "bin" or n[1] != "*" or ("g", "ctypes.c_char_p") not in n[2:]:
            return self.wrong(data, want, "")
        room = n[3] if n[2] == ("g", "ctypes.c_char_p") else n[2]
        items = data[2]
        if len(items) == 1 and items[0][0] == "star":
            comp = items[0][1]
        elif not items and held == "empty":
            comp = ("tuple", ())
        else:
            return self.wrong(data, want, "")
        if comp == ("tuple", ()):
            return True if held == "empty" else (False, "an empty list is handed over")
        while comp[0] == "call" and comp[1] in (("g", "list"), ("g", "tuple")):
            comp = comp[2][0]
        if comp[0] != "comp":
            return self.wrong(comp, want, "the texts are handed over as bytes")
        if comp[4]:
            return False, "only some elements of %s are handed over" % want[1]
        r = self.text(comp[1], comp[2])
        if r is not True:
            return r
        src = self.source(comp)
        if src != want:
            k = called(src)[0]
            return None if k in ("set", "sorted", "frozenset") and called(src)[2] == (want,) else self.wrong(src, want, "")
        for what, x in (("size", self.length(size)), ("array", self.length(room))):
            if x is None:
                return self.wrong(size if what == "size" else room, want, "") if altered(size if what == "size" else room) else None
            if x == ("none",):
                if held != "empty":
                    return False, "the list is said to be empty"
            elif self.source(x) != src:
                return False, "the %s counts another list than the one handed over" % what
        return True

    def arg(self, role, v, want, case, st, heap):
        if role in ("input", "intent", "path"):
            return self.text(v, want)
        if role in ("only", "not"):
            return self.listed(v, want, case, st, heap)
        if role == "engine":
            if v == want:
                return True
            if want in set(parts(v)):
                return False, "the engine's pointer is handed over as something else (%s)" % (v[0] if v[0] != "attr" else "." + v[2])
            return False, "it is not this engine"
        if role in ("intents", "slots"):
            return self.number(v, want)
        if role == "size":
            x = self.length(v)
            return True if x == want else self.wrong(v, want, "") if x is None else (False, "it counts something else than %s" % want[1])
        if role == "data":
            return self.buffer(v, want)
        return None

    def buffer(self, v, want):
        while v != want:
            n, r, a = called(v)
            if n in ("from_buffer", "from_buffer_copy") and r is not None and len(a) == 1 and r[0] == "bin" and r[1] == "*":
                room = r[3] if r[2][0] == "g" else r[2]
                x = self.length(room)
                if x is None:
                    return self.wrong(room, want, "") or None
                if x != want:
                    return False, "the buffer has room for something else than %s" % want[1]
                v = a[0]
            elif n and n.split(".")[-1] in ("bytes", "bytearray", "c_char_p", "create_string_buffer", "memoryview") and a:
                v = a[0]
            else:
                return self.wrong(v, want, "")
        return True

    # ------------------------------------------------------------ calls
    def signature(self, seen):
        """Every function called is exported, and takes as many arguments."""
        for name, n in sorted(seen):
            b = base(name)
            here = [x for x in (name, "snips_nlu_engine_%s" % b) if x in self.exported]
            if b is None or not here or name.startswith("ffi_") and b not in ALIASED:
                self.ob("functions called are exported", name, False, "the library exports no function of that name")
                continue
            want = self.exported[here[0]]["argc"]
            self.ob("functions called are exported", name, None if n < 0 else n == want, "%d arguments are given where the function takes %d" % (n, want))

    def ended(self, s, name, o, case, owner=None):
        """Texts given by the library: read only when given, given back once, after the last reading."""
        out = {}
        destroyed = {}
        problems = []
        for e in s.ev:
            if e[0] == "lib":
                b = base(e[1])
                if gives_text(b):
                    cells = [a[1][1] for a in e[2] if a[0] == "byref" and a[1][0] == "obj"]
                    for c in cells[-1:]:
                        prev = [k for k in out if k[0] == c and k not in destroyed]
                        if prev and any(out[k] for k in prev):
                            problems.append("the text given by one call is lost when the next one writes over it")
                        out[(c, e[4])] = case.exits.get(e[4], 0) == 0
                elif b == "destroy_string":
                    a = e[2][0] if e[2] else ("none",)
                    if a[0] == "obj":
                        ks = [k for k in out if k[0] == a[1]]
                        for k in ks[-1:]:
                            destroyed[k] = destroyed.get(k, 0) + 1
                            if destroyed[k] > 1 and out[k]:
                                problems.append("a text is given back twice")
                    elif a[0] == "byref":
                        problems.append("the address of the wrapper's own variable is given back in place of the text's")
                    elif a[0] == "read" or a[0] == "attr" and a[2] in ("value", "raw", "contents"):
                        problems.append("what is given back is the wrapper's own copy of the text")
                    else:
                        problems.append(None)
            elif e[0] == "read":
                k = (e[1], e[2])
                if e[2] is None:
                    problems.append("a text is read before the library has given it")
                elif k in destroyed:
                    problems.append("a text is read after it was given back")
                elif k in out and not out[k]:
                    problems.append("a text is read although the call that gives it failed")
            elif e[0] == "loop":
                problems.append(None)
        for k, good in out.items():
            if good and not destroyed.get(k):
                problems.append("a text given by the library is never given back")
        for p in problems or [True]:
            self.ob("texts given by the library are given back once, after their last reading", name, p if p is None or p is True else False, "" if p is True or p is None else p)

    def cases(self, s, case):
        """The case with each outcome of the calls made on a path that its conditions allow."""
        n = [e[4] for e in s.ev if e[0] == "lib"]
        seen = [k for k in n if any(("exit", k) in set(parts(c)) for c, q in s.facts)]
        out = []
        for bits in range(1 << len(n)):
            ex = {k: (bits >> i) & 1 for i, k in enumerate(n)}
            names = {e[4]: base(e[1]) for e in s.ev if e[0] == "lib"}
            if any(ex[k] and names[k] in ("destroy_string", "destroy_client") for k in n):
                continue
            c = Case(case.vals, ex)
            if c.feasible(s):
                out.append(c)
        return out

    def failure(self, s, o, c, what, n):
        """What a failing call leads to."""
        rule = "a failure of the library is raised, with its own message"
        if o[0] != "raise":
            self.ob(rule, what, False, "the call fails and the method returns all the same")
            return
        later = [e for e in s.ev if e[0] == "lib" and e[4] > n]
        asked = [e for e in later if base(e[1]) == "get_last_error"]
        if not asked:
            self.ob(rule, what, False, "the message of the library is not asked for")
            return
        if later[0] is not asked[0]:
            self.ob(rule, what, False, "%s is called before the message is asked for and replaces it" % later[0][1])
            return
        if c.exits.get(asked[0][4]) == 0:
            cell = asked[0][2][0][1][1] if asked[0][2] and asked[0][2][0][0] == "byref" and asked[0][2][0][1][0] == "obj" else None
            v = ("read", cell, asked[0][4])
            if cell is None:
                self.ob(rule, what, None if asked[0][2] and asked[0][2][0][0] == "opaque" else False, "the message is written nowhere")
            else:
                self.ob(rule, what, v in set(parts(o[1])), "the exception does not carry the message of the library")
        else:
            self.ob(rule, what, True)

    def methods(self, attr):
        seen = set()
        for name, (fn, roles) in MAIN.items():
            r = self.paths(name, {attr: ("engine",)})
            if r is None:
                continue
            names, rs = r
            missing = [p for p in roles.values() if p not in names]
            self.ob("methods take what they document", name, not missing, "no parameter %s" % missing)
            if missing:
                continue
            lists = [roles[x] for x in ("only", "not") if x in roles]
            combos = [{}]
            for l in lists:
                combos = [dict(c, **{l: v}) for c in combos for v in ("none", "empty", "some")]
            pos = CALLS[fn][0]
            for combo in combos:
                label = name + ("" if not combo else " with " + ", ".join("%s %s" % (k, {"none": "not given", "empty": "empty", "some": "given"}[v]) for k, v in sorted(combo.items())))
                returns = 0
                for s, o in rs:
                    for c in self.cases(s, Case(combo)):
                        calls = [e for e in s.ev if e[0] == "lib"]
                        seen |= {(e[1], count(e[2])) for e in calls}
                        mains = [e for e in calls if base(e[1]) not in ("get_last_error", "destroy_string")]
                        if not mains:
                            if any(p and p[0] == "opaque" for cond, q in s.facts for p in parts(cond)):
                                self.ob("the library is asked once", label, None, "a condition is not understood")
                                continue
                            unsure = [cond for cond, q in s.facts if c.value(cond, s) == "?"]
                            if o[0] == "raise" and unsure:
                                continue        # refuses some arguments, on a condition of its own
                            self.ob("the library is asked once", label, False, "the library is not asked: %s" % (o[0],))
                            continue
                        self.ob("the library is asked once", label, len(mains) == 1, "%d calls" % len(mains))
                        m = mains[0]
                        b = base(m[1])
                        if b != fn:
                            self.ob("the library is asked what the method documents", label, False, "%s is called, which does not take all that the method takes" % m[1])
                            continue
                        if len(m[2]) != len(pos) or count(m[2]) < 0:
                            continue            # reported with the signatures
                        for i, role in enumerate(pos):
                            v = m[2][i]
                            if role == "out":
                                good = v[0] == "byref" and v[1][0] == "obj" and m[6].get(v[1][1], {}).get("@cell")
                                self.ob("arguments are what the caller gave", "%s: %s" % (label, role), True if good else None if v[0] == "opaque" else False,
                                        "the place for the answer is not handed over by reference")
                                continue
                            want = ("engine",) if role == "engine" else ("p", roles[role])
                            a = self.arg(role, v, want, c, s, m[6])
                            self.ob("arguments are what the caller gave", "%s: %s" % (label, role if role == "engine" else roles[role]),
                                    a if a is None or a is True else False, a[1] if isinstance(a, tuple) else "")
                        failed = c.exits[m[4]] == 1
                        if failed:
                            self.failure(s, o, c, label, m[4])
                        else:
                            rule = "what the library answered is returned"
                            cell = m[2][-1][1][1] if m[2][-1][0] == "byref" and m[2][-1][1][0] == "obj" else None
                            if o[0] != "return":
                                unsure = [cond for cond, q in s.facts[m[7]:] if c.value(cond, s) == "?"]
                                self.ob(rule, label, None if unsure else False, "the call succeeds and the method raises")
                            else:
                                returns += 1
                                self.answer(rule, label, o[1], ("read", cell, m[4]))
                        self.ended(s, label, o, c)
                self.ob("every documented use is served", label, returns > 0 or None, "no path returns")
        return seen

    def answer(self, rule, what, v, want):
        n, r, a = called(v)
        if n == "json.loads" and a:
            x = a[0]
            k, r2, a2 = called(x)
            if k == "decode" and r2 == want:
                enc = a2[0] if a2 else dict(x[3]).get("encoding", ("k", "utf8"))
                mode = a2[1] if len(a2) > 1 else dict(x[3]).get("errors", ("k", "strict"))
                good = enc[0] == "k" and enc[1] in UTF8 and mode[0] == "k"
                self.ob(rule, what, good and mode[1] == "strict", "the answer is UTF-8 and is decoded as %r, %r" % (enc[1], mode[1]))
                return
            if x == want:
                self.ob(rule, what, True)
                return
        if want not in set(parts(v)):
            self.ob(rule, what, None if any(p and p[0] == "opaque" for p in parts(v)) else False, "the method returns something else than the answer of the library")
            return
        x = altered(v)
        self.ob(rule, what, False if x else None, "the answer is changed by %s" % x if x else "not understood: %s" % (str(v)[:200],))

    def creation(self):
        """The constructor; the attribute that holds the engine."""
        r = self.paths("__init__", {})
        if r is None:
            return None, set()
        names, rs = r
        seen, attrs = set(), set()
        want = {"engine_dir": "create_from_dir", "engine_bytes": "create_from_zip"}
        missing = [p for p in want if p not in names]
        self.ob("methods take what they document", "__init__", not missing, "no parameter %s" % missing)
        if missing:
            return None, seen
        for d in ("none", "some"):
            for z in ("none", "some"):
                case = {"engine_dir": d, "engine_bytes": z}
                label = "the constructor with " + (" and ".join(k for k in sorted(case) if case[k] == "some") or "no argument")
                served = 0
                for s, o in rs:
                    for c in self.cases(s, Case(case)):
                        calls = [e for e in s.ev if e[0] == "lib"]
                        seen |= {(e[1], count(e[2])) for e in calls}
                        mains = [e for e in calls if base(e[1]) not in ("get_last_error", "destroy_string", "destroy_client")]
                        if d == z == "none":
                            self.ob("an engine is made from what was given", label, not mains and o[0] == "raise", "nothing was given and an engine is asked for")
                            served += 1
                            continue
                        if len(mains) != 1:
                            self.ob("an engine is made from what was given", label, None if any(p and p[0] == "opaque" for cond, q in s.facts for p in parts(cond)) else False,
                                    "%d engines are asked for" % len(mains))
                            continue
                        m = mains[0]
                        param = [p for p, f in want.items() if f == base(m[1])]
                        if not param or case[param[0]] == "none":
                            self.ob("an engine is made from what was given", label, False, "%s is called" % m[1])
                            continue
                        pos = CALLS[base(m[1])][0]
                        if len(pos) != len(m[2]):
                            continue
                        for i, role in enumerate(pos):
                            if role == "out":
                                v = m[2][i]
                                good = v[0] == "byref" and v[1][0] == "obj" and m[6].get(v[1][1], {}).get("@cell") == "ctypes.c_void_p"
                                self.ob("arguments are what the caller gave", "%s: %s" % (label, role), True if good else None if v[0] == "opaque" else False,
                                        "the place for the engine is not a pointer handed over by reference")
                                if good:
                                    held = {k for k, x in s.heap.get("self", {}).items() if x == v[1]}
                                    if c.exits[m[4]] == 0:
                                        attrs |= held
                                        self.ob("the engine is kept by the object that made it", label, bool(held) or o[0] == "raise" or False, "the engine is lost")
                                continue
                            a = self.arg(role, m[2][i], ("p", param[0]), c, s, m[6])
                            self.ob("arguments are what the caller gave", "%s: %s" % (label, param[0] + (" (size)" if role == "size" else "")), a if a is None or a is True else False,
                                    a[1] if isinstance(a, tuple) else "")
                        if c.exits[m[4]] == 1:
                            self.failure(s, o, c, label, m[4])
                        else:
                            served += o[0] == "return"
                            self.ob("an engine is made from what was given", label, o[0] == "return", "the engine is made and the constructor raises")
                            gone = [e for e in calls if base(e[1]) == "destroy_client"]
                            self.ob("the engine is given back once, when the object goes", label, not gone, "the constructor gives the engine back")
                        self.ended(s, label, o, c)
                self.ob("every documented use is served", label, served > 0 or None, "no path makes an engine")
        if len(attrs) != 1:
            self.ob("the engine is kept by the object that made it", "__init__", None if attrs else False, "kept in %s" % sorted(attrs))
        return (sorted(attrs) or [None])[0], seen

    def end(self, attr):
        seen = set()
        fn = self.prog.method(MOD, CLS, "__del__")
        rule = "the engine is given back once, when the object goes"
        if fn is None:
            self.ob(rule, "__del__", False, "no method gives the engine back")
            return seen
        names, rs = self.paths("__del__", {attr: ("engine",)})
        n = 0
        for s, o in rs:
            if not Case({}, {e[4]: 0 for e in s.ev if e[0] == "lib"}).feasible(s):
                continue
            unsure = [c for c, q in s.facts if Case({}, 0).value(c, s) == "?" and ("engine",) not in set(parts(c))]
            calls = [e for e in s.ev if e[0] == "lib"]
            seen |= {(e[1], count(e[2])) for e in calls}
            gone = [e for e in calls if base(e[1]) == "destroy_client"]
            if not gone and unsure:
                continue
            n += len(gone)
            good = len(gone) == 1 and gone[0][2][:1] == (("engine",),)
            self.ob(rule, "__del__", good, "%d engines given back" % len(gone) if len(gone) != 1 else "what is given back is not the engine's pointer")
        self.ob(rule, "__del__", n > 0 or False, "the engine is never given back")
        c = self.prog.names[MOD].get(CLS)
        for m in [x.name for x in c.body if hasattr(x, "name") and not getattr(x, "decorator_list", None) and x.name not in ("__del__", "__init__", "close", "__exit__", "destroy")]:
            r = self.paths(m, {attr: ("engine",)})
            if r is None:
                continue
            bad = [e for s, o in r[1] for e in s.ev if e[0] == "lib" and base(e[1]) == "destroy_client"]
            self.ob(rule, m, not bad, "%s gives the engine back while the object lives" % m)
        return seen

    def layout(self):
        """The array type is laid out as the library's."""
        found = 0
        for mod, names in self.prog.names.items():
            for n, d in names.items():
                if hasattr(d, "bases") and n == "CStringArray":
                    found += 1
                    f = self.prog.fields(mod, n)
                    if f is None:
                        self.ob("the array type is laid out as the library's", n, None, "its fields are not understood")
                        continue
                    got = [(a[1], str(t)) for a, t in [x[:2] for x in f]]
                    order = [a for a, t in got] == ["data", "size"]
                    num = len(f) == 2 and f[1][1] in [("g", "ctypes." + x) for x in ("c_int", "c_int32")]
                    ptr = len(f) == 2 and ("g", "ctypes.c_char_p") in set(parts(f[0][1])) or len(f) == 2 and f[0][1] == ("g", "ctypes.c_void_p")
                    self.ob("the array type is laid out as the library's", n, order and num and ptr, "fields %s" % got)
        self.ob("the array type is laid out as the library's", "CStringArray", found > 0 or None, "not found")


@check("C26")
def c26(ctx):
    """The methods of the Python wrapper are run symbolically, path by path, on their own source: lists not given, empty and given, calls that succeed and
    that fail.  On every path the arguments of the library's function, the answer handed back, the exception raised and what is given back are compared
    with what the method documents; function names and arities with those the Rust sources export."""
    w = Wrapper(ctx)
    try:
        attr, seen = w.creation()
        if attr is None:
            attr = "_engine"
        seen |= w.methods(attr)
        seen |= w.end(attr)
    except Budget:
        ctx.ob("analysis completes", "wrapper", None, "budget exceeded")
        return
    w.signature(seen)
    w.layout()
    ctx.count("foreign_calls", len(seen))
    ctx.count("python_functions", len(w.prog.inlined))
    ctx.floor("functions of the library called", len({n for n, k in seen}), 5)
