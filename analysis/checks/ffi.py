"""C24: what the C functions ask of the engine and hand back; C25: who owns what crosses the C interface, and what a failure does."""
import json

from ..check import check, where
from ..engine import decide
from ..graph import Graph, leaf
from ..lib import *
from ..models import err, ok
from ..terms import *
from .loading import last

CR = "snips_nlu_ffi"
P = "snips_nlu_engine_"
# parameters by position: what each one carries, then what is asked of the engine, then what is handed back
CALLS = {
    "create_from_dir": (("path", "out"), "from_path", "engine"),
    "create_from_zip": (("data", "size", "out"), "from_zip", "engine"),
    "run_parse": (("engine", "input", "only", "not", "out"), "parse", "answer"),
    "run_parse_with_alternatives": (("engine", "input", "only", "not", "intents", "slots", "out"), "parse", "answer"),
    "run_get_slots": (("engine", "input", "intent", "out"), "slots", "answer"),
    "run_get_slots_with_alternatives": (("engine", "input", "intent", "slots", "out"), "slots", "answer"),
    "run_get_intents": (("engine", "input", "out"), "intents", "answer"),
    "run_parse_into_json": (("engine", "input", "only", "not", "out"), "parse", "json"),
    "run_parse_with_alternatives_into_json": (("engine", "input", "only", "not", "intents", "slots", "out"), "parse", "json"),
    "run_get_slots_into_json": (("engine", "input", "intent", "out"), "slots", "json"),
    "run_get_slots_with_alternatives_into_json": (("engine", "input", "intent", "slots", "out"), "slots", "json"),
    "run_get_intents_into_json": (("engine", "input", "out"), "intents", "json"),
    "get_model_version": (("out",), "version", "text"),
}
ALIASED = ("create_from_dir", "create_from_zip", "run_parse_into_json", "run_parse_with_alternatives_into_json", "run_get_slots_into_json",
           "run_get_slots_with_alternatives_into_json", "run_get_intents_into_json", "get_last_error", "destroy_string", "destroy_client",
           "get_model_version")
RELEASES = ("destroy_string", "destroy_client", "destroy_result", "destroy_slots", "destroy_intent_classifier_results")
GIVES = ("into_raw_pointer", "into_raw_pointer_mut", "into_raw")
TAKES = ("from_raw_pointer", "from_raw_pointer_mut", "drop_raw_pointer", "drop_raw_pointer_mut", "from_raw")
KEEPS = ("forget", "leak", "ManuallyDrop::<T>::new") + GIVES
FALLIBLE = ("raw_borrow", "to_str", "point_to_string", "to_string", "c_repr_of", "from_utf8", "lock") + TAKES
METHODS = ("parse", "parse_with_alternatives", "get_slots", "get_slots_with_alternatives", "get_intents", "from_path", "from_zip")
ALTERS = ("trim", "trim_start", "trim_end", "trim_matches", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace",
          "replacen", "nfc", "nfd", "nfkc", "nfkd", "idx", "slice", "split_at", "truncate", "concat")
SAME = ("from", "into", "c_repr_of", "new", "into_owned", "to_owned", "clone", "to_string", "to_vec", "deref", "as_ref", "into_boxed_slice",
        "into_boxed_str", "into_string")


def peel(t, names=SAME):
    """A value under conversions that keep what it says."""
    while True:
        if t.op == "vf" and t.a[1] in ("Ok", "Some"):
            t = t.a[0]
        elif t.op == "app" and last(t.a[0]) in names and len(t.a) == 2 and "serde_json" not in t.a[0]:
            t = t.a[1]
        elif t.op == "en" and t.a[1] in ("Ok", "Some") and len(t.a[3]) == 1:
            t = t.a[3][0]
        else:
            return t


def mentions(t, xs):
    return any(y in xs for y in subterms(t))


def can_be(facts, x, n):
    """May x be n under these facts (as far as they say)?"""
    v = C("int", n)
    return not any(mentions(c, [x]) and decide(frozenset(), subst(c, {x: v})) is (not q) for c, q in facts)


def pointer_ref(e, st, args, site, fn):
    p = e.deep(st, args[0])
    nul = app("std::ptr::const_ptr::<impl *const T>::is_null", p)
    out = []
    for q, r in ((False, some(args[0])), (True, NONE)):
        s = e.assume(st, nul, q)
        if s is not None:
            out.append((s, r))
    return out


BASE = {"std::ptr::%s_ptr::<impl *%s T>::%s" % (m, k, n): pointer_ref for m, k in (("const", "const"), ("mut", "mut")) for n in ("as_ref", "as_mut")}


def wide(t):
    """A number under conversions that cannot change it."""
    while t.op == "app" and t.a[0] in ("cast:usize", "cast:u64", "cast:isize", "cast:i64", "cast:u128", "cast:i128"):
        t = t.a[1]
    return t


class Function:
    """One exported function: its results, with the out-parameter followed as a cell."""

    def __init__(self, ctx, body, hooks=None, facts=frozenset()):
        self.ctx, self.body = ctx, body
        self.ps = params(body)
        args = list(self.ps)
        self.outs = [i for i in range(body["argc"]) if body["crate"].types[body["locals"][i + 1]].get("s", "").startswith("*mut *")]
        for i in self.outs:
            args[i] = mk("ptr", ("h", self.ps[i]), ())
        self.e, self.rs = ctx.run(body, args, facts, opaque={b["id"] for b in ctx.prog.lib.bodies.values()}, hooks=dict(BASE, **(hooks or {})))

    def ends(self):
        """(state, "OK" / "KO" / None)"""
        for s, r in self.rs:
            for v in alts(r):
                n = v.a[1] if v.op == "en" else ""
                yield s, "OK" if n.endswith("_OK") else "KO" if n.endswith("_KO") else None

    def written(self, s, p):
        """What the out-parameter holds: (how, value): None when it was not written."""
        v = s.mem.get(("h", p))
        if v is None:
            return None
        if v.op == "app" and v.a[0] == "after":
            c = v.a[1]
            return ("call", c) if c.op == "app" else ("?", v)
        return ("value", v)


def succeed(e, st, args, site, fn):
    n = fn["d"]
    return [(st, ok(vfld(app(n, *[e.deep(st, a) for a in args]), "Ok", "0")))]


def steps(ctx):
    """Every step that can fail, by the names hooks are found under."""
    out = {}
    for b in ctx.prog.ffi.bodies.values():
        for bb in b["bbs"]:
            t = bb["t"]
            f = (t.get("f") or {}).get("fn") if t.get("k") == "call" and isinstance(t.get("f"), dict) else None
            if f and f["nm"] == "new" and "CString" in f["d"]:
                out[f["d"]] = f["nm"]
            elif f and (f["nm"] in FALLIBLE and f["nm"] != "lock" or f["nm"] in METHODS and f["d"].startswith("snips_nlu_lib")):
                if f["nm"] == "to_string" and "serde_json" not in f["d"]:
                    continue
                out[f["d"]] = f["nm"]
                if f.get("u"):
                    out[f["u"]] = f["nm"]
    return out


class Calls:
    def __init__(self, ctx):
        self.ctx = ctx
        self.version = None
        for b in ctx.prog.lib.bodies.values():
            if b["path"] == "MODEL_VERSION":
                e, rs = ctx.run(b, [])
                self.version = rs[0][1] if len(rs) == 1 else None
        self.failing = steps(ctx)

    # ------------------------------------------------------------ parameters
    def given(self, base, p, facts):
        """Is `base` the memory behind the pointer p, shown not to be null?"""
        if base.op == "vf" and base.a[1] in ("Ok", "Some") and base.a[0].op == "app" and last(base.a[0].a[0]) in ("raw_borrow", "as_ref"):
            return True if base.a[0].a[1] is p else False if base.a[0].a[1].op in ("s", "elem") else None
        if base.op == "app" and last(base.a[0]) in ("from_ptr", "deref") and len(base.a) == 2:
            base = base.a[1]
        if base is p or base.op == "s":
            if base is not p:
                return False
            nul = [c for c, q in facts if not q and c.op == "app" and last(c.a[0]) == "is_null" and c.a[1] is p]
            return True if nul else "unchecked"
        return None

    def text(self, t, p, facts, elem=False):
        """Is t the text behind p (or behind an element of a list), refused unless it is UTF-8?"""
        while t.op == "app" and last(t.a[0]) in ("to_owned", "to_string", "clone", "into", "from", "deref", "as_ref", "new", "as_str", "borrow", "into_owned") and len(t.a) == 2:
            t = t.a[1]
        if t.op == "app" and last(t.a[0]) in ("to_string_lossy", "from_utf8_lossy"):
            return "altered: text that is not UTF-8 is repaired silently"
        if t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "app" and last(t.a[0].a[0]) in ("to_str", "from_utf8", "into_string"):
            b = t.a[0].a[1]
            while b.op == "app" and last(b.a[0]) in ("to_bytes", "to_owned", "to_vec"):
                b = b.a[1]
            if elem:
                if b.op == "app" and last(b.a[0]) == "from_ptr":
                    b = b.a[1]
                elif b.op == "vf" and b.a[1] in ("Ok", "Some") and b.a[0].op == "app" and last(b.a[0].a[0]) in ("raw_borrow", "as_ref"):
                    b = b.a[0].a[1]
                return b
            return self.given(b, p, facts)
        if t.op in ("s", "str", "c"):
            return "not the text given"
        if t.op == "app" and len(t.a) >= 2 and last(t.a[0]) in ALTERS and self.text(t.a[1], p, facts) is True:
            return "altered by %s" % last(t.a[0])
        if mentions(t, [x for x in self.ps if x is not p]) and not mentions(t, [p]):
            return "another parameter"
        return None

    def engine(self, t, p, facts):
        if t.op == "f" and t.a[1] == "0":
            t = t.a[0]
        return self.given(t, p, facts)

    def number(self, t, p):
        t = wide(t)
        if p is None:
            return True if t is C("int", 0) else False if t.op in ("c", "s") else None
        if t is p:
            return True
        return False if t.op in ("c", "s") or mentions(t, self.ps) else None

    def listed(self, t, p, e, facts):
        """Is t the list behind p: none when null, every element otherwise?"""
        null = None
        for c, q in facts:
            if c.op == "app" and last(c.a[0]) == "is_null" and c.a[1] is p:
                null = q
            if c.op == "is" and c.a[0].op == "app" and last(c.a[0].a[0]) in ("as_ref", "raw_borrow") and c.a[0].a[1] is p:
                null = (not q) if c.a[1] in ("Some", "Ok") else q
        others = [x for x in self.ps if x is not p]
        if t.op == "u":
            rs = [self.listed(x, p, e, facts) for x in t.a[0]]
            return next((r for r in rs if r not in (True, None)), None if None in rs else True)
        if t.op != "en":
            return "another list" if mentions(t, others) and not mentions(t, [p]) else None
        if t.a[1] == "None":
            return True if null is True else "no restriction although a list is given" if null is False else None
        if null is True:
            return "a list although none is given"
        v = strip_list(t.a[3][0])
        if mentions(v, others) and not mentions(v, [p]):
            return "another list"
        gs = gens_of(v)
        if gs is None:
            return None
        size, data = fld(p, "size"), fld(p, "data")
        if not gs:
            none = not any(can_be(facts, size, n) for n in (1, 2, 7, 1000)) or any(
                c.op == "app" and last(c.a[0]) == "is_null" and c.a[1] is data and q for c, q in facts)
            return True if none else "an empty list whatever was given"
        if len(gs) != 1:
            return None
        val, conds, _ = gs[0]
        el = self.text(val, p, facts, elem=True)
        if not hasattr(el, "op"):
            return el if el is not True else None
        if el.op == "app" and last(el.a[0]) in ("offset", "add", "wrapping_add", "wrapping_offset") and len(el.a) == 3:
            if el.a[1] is not data:
                return "elements of something else" if el.a[1].op in ("f", "s") else None
            el = wide(el.a[2])
            if el.op != "elem" or el.a[0].op != "app" or el.a[0].a[0] != "range":
                return None
            src, n = el.a[0], wide(el.a[0].a[2])
            if src.a[1] is not C("int", 0):
                return "not from the first element"
        else:
            if el.op != "elem" or el.a[0].op != "app" or last(el.a[0].a[0]) != "from_raw_parts":
                return None
            src = el.a[0]
            n = wide(src.a[2])
            if src.a[1] is not data:
                return "elements of something else" if src.a[1].op in ("f", "s") else None
        if n is not size:
            return "not as many elements as given" if mentions(n, [size]) or n.op == "c" else None
        for o in subterms(v.a[2]) if v.op == "coll" else ():
            if o.op == "app" and o.a[0] in ("o_take", "o_skip", "o_step"):
                return "only some of the elements"
        for c, q in conds:
            if (c, q) in facts or c.op == "app" and c.a[0] == "contains" and c.a[1] is src:
                continue
            if c.op == "ge0" and src.a[0] == "range" and mentions(c, [el]):
                continue
            if c.op == "is" and mentions(c, [el]) and c.a[1] == "Ok" and q:
                continue
            return "only some of the elements" if not unknown_names(c, e) else None
        safe = src.a[0] == "range" or not can_be(facts, size, 0) or any(
            c.op == "app" and last(c.a[0]) == "is_null" and c.a[1] is data and not q for c, q in facts)
        return True if safe else "an empty list with null data is read as a slice"

    # ------------------------------------------------------------ one function
    def asked(self, call, roles, kind, e, facts):
        """[(what, verdict)] for a call of the engine."""
        n = last(call.a[0])
        at = dict(zip(roles, self.ps))
        args = list(call.a[1:])
        out = []
        if kind in ("parse", "slots", "intents"):
            fns = {"parse": ("parse", "parse_with_alternatives"), "slots": ("get_slots", "get_slots_with_alternatives"), "intents": ("get_intents",)}[kind]
            if n not in fns or "snips_nlu_lib" not in call.a[0]:
                return [("what is asked", ("%s is asked" % n) if n in METHODS else None)]
            out.append(("what is asked", True))
            out.append(("engine", self.engine(args[0], at["engine"], facts)))
            out.append(("input", self.text(args[1], at["input"], facts)))
            rest = args[2:]
            if kind == "parse":
                out.append(("intents to keep", self.listed(rest[0], at["only"], e, facts)))
                out.append(("intents to leave out", self.listed(rest[1], at["not"], e, facts)))
                rest = rest[2:] or [C("int", 0), C("int", 0)]
                out.append(("intents alternatives", self.number(rest[0], at.get("intents"))))
                out.append(("slots alternatives", self.number(rest[1], at.get("slots"))))
            elif kind == "slots":
                out.append(("intent", self.text(rest[0], at["intent"], facts)))
                rest = rest[1:] or [C("int", 0)]
                out.append(("slots alternatives", self.number(rest[0], at.get("slots"))))
        elif kind == "from_path":
            out.append(("what is asked", n == "from_path" or None))
            out.append(("path", self.text(args[0], at["path"], facts)))
        elif kind == "from_zip":
            out.append(("what is asked", n == "from_zip" or None))
            t = peel(args[0], SAME + ("from_raw_parts_mut",))
            cut = None
            while t.op == "app" and t.a[0] == "slice" and len(t.a) == 3:
                whole = self.whole_range(t.a[2], t.a[1])
                cut = cut or (None if whole is True else whole or "unknown")
                t = peel(t.a[1], SAME + ("from_raw_parts_mut",))
            if cut:
                out.append(("archive", None if cut == "unknown" else cut))
            elif t.op == "app" and last(t.a[0]) == "from_raw_parts":
                m = wide(t.a[2])
                out.append(("archive", True if t.a[1] is at["data"] and m is at["size"] else
                            "not the bytes given" if m.op in ("c", "s") or mentions(m, self.ps) else None))
            else:
                out.append(("archive", None))
        return out

    @staticmethod
    def whole_range(r, t):
        """True: a range taking all of t; text: one that leaves some of it out; None: not known."""
        if r.op == "en" or r.op == "st":
            name = last(r.a[0])
        else:
            return None
        size = [x.a[2] for x in [peel(t)] if x.op == "app" and last(x.a[0]) == "from_raw_parts"]
        full = [app("len", t), app("len", peel(t))] + size + [wide(x) for x in size]
        start, end = fld(r, "start"), fld(r, "end")
        if name == "RangeFull":
            return True
        bad = None
        if name in ("RangeFrom", "Range", "RangeInclusive") and start is not C("int", 0):
            if start.op == "c":
                return "only a part of the bytes given"
            bad = "unknown"
        if name in ("RangeTo", "Range") and not any(end is x or wide(end) is wide(x) for x in full):
            return "only a part of the bytes given" if end.op in ("c", "lin") else None
        if name not in ("RangeTo", "Range", "RangeFrom"):
            return None
        return None if bad else True

    def handed(self, how, kind, asked):
        """(verdict, the engine call) behind what the out-parameter holds."""
        tag, v = how
        if tag == "call":
            if last(v.a[0]) != "point_to_string":
                return None, None
            v = app("into_raw_pointer", v.a[2])
        if v.op == "ptr" or v.op == "app" and last(v.a[0]) in ("as_ptr", "as_mut_ptr"):
            return "a pointer to memory that is released on return", None
        if v.op == "app" and last(v.a[0]) in ("null", "null_mut"):
            return "no answer at all", None
        if v.op != "app" or last(v.a[0]) not in GIVES:
            return None, None
        t = peel(v.a[1])
        if kind == "text":
            return (True if t is self.version else "another text" if t.op in ("c", "str") else None), None
        if kind == "json":
            if t.op != "app" or "serde_json" not in t.a[0] or last(t.a[0]) not in ("to_string", "to_vec"):
                return None, None
            t = peel(t.a[1])
        if kind == "engine":
            if t.op != "st" or not t.a[0].endswith("CSnipsNluEngine"):
                return None, None
            t = peel(fld(t, "0"))
        if t.op == "app" and last(t.a[0]) in METHODS:
            return True, t
        part = [x for x in subterms(t) if x.op == "app" and last(x.a[0]) in METHODS]
        if t.op in ("c", "str", "s") or t.op == "en" and not t.a[3]:
            return "something else than the answer", None
        if part and (t.op in ("f", "vf") or t.op == "app" and t.a[0] in ("idx", "len", "slice", "first", "last")):
            return "only a part of the answer", None
        if part and t.op == "coll":
            gs = gens_of(t) or []
            if len(gs) == 1 and gs[0][0].op == "elem" and any(not (c.op == "app" and c.a[0] == "contains" or mentions(c, part) and c.op == "is") for c, q in gs[0][1]):
                return "only a part of the answer", None
        return None, None

    def run(self, name):
        ctx = self.ctx
        roles, kind, gives = CALLS[name]
        body = ctx.anchor(P + name, CR)
        if body is None:
            return
        w = where(body)
        c = P + name
        ctx.ob("every function is exported under its C name", c, body["nomangle"] and body["abi"].startswith("C"),
               "no_mangle %s, abi %s" % (body["nomangle"], body["abi"]), w)
        if body["argc"] != len(roles):
            ctx.ob("the parameters of the C interface", c, None, "%d parameters" % body["argc"], w)
            return
        f = Function(ctx, body)
        self.ps = f.ps
        n = {"OK": 0, "KO": 0}
        for s, end in f.ends():
            if end is None:
                ctx.ob("a function reports success or failure", c, None, "", w)
                continue
            n[end] += 1
            if end != "OK":
                continue
            how = f.written(s, f.ps[-1])
            if how is None:
                ctx.ob("success hands back the answer", c, False, "a path reports success without writing the result", w)
                continue
            v, call = self.handed(how, gives, kind)
            ctx.ob("success hands back the answer", c, v if v in (True, None) else False, v if isinstance(v, str) else show(how[1], 4)[:200], w)
            if call is None or kind == "version":
                continue
            ctx.ob("an answer is handed back only when the engine gave one", c, decide(s.facts, isv(call, "Ok")) is True or None,
                   show(call, 3)[:200], w)
            for what, r in self.asked(call, roles, kind, f.e, s.facts):
                if r == "unchecked":
                    r = "the pointer is read without a check that it is not null"
                ctx.ob("the engine is asked what the caller asked: %s" % what, c, r if r in (True, None) else False,
                       r if isinstance(r, str) else show(call, 4)[:300], w)
        for ev in f.e.events.values():
            if ev.kind == "lock" and last(ev.name).startswith("try_"):
                ctx.ob("an engine in use is waited for", c, False, ev.name, w)
        ctx.ob("a function can succeed", c, n["OK"] > 0 or None, "", w)
        self.refusals(name, body, roles, w, c)

    def refusals(self, name, body, roles, w, c):
        ctx = self.ctx
        # every step succeeds: only a null pointer is refused
        hooks = {k: succeed for k in self.failing}
        f = Function(ctx, body, hooks)
        for s, end in f.ends():
            if end != "KO":
                continue
            why = [x for x, q in s.facts if q and x.op == "app" and last(x.a[0]) == "is_null" or x.op == "is" and x.a[0].op == "app" and
                   last(x.a[0].a[0]) == "as_ref" and (q is (x.a[1] == "None")) or
                   x.op == "is" and x.a[1] == "Ok" and not q and x.a[0].op == "app" and last(x.a[0].a[0]) == "lock"]
            odd = any(mentions(x, [fld(p, "size")]) for p in f.ps for x, q in s.facts) and any(
                not any(can_be(s.facts, fld(p, "size"), n) for n in (0, 1, 2, 7, 1000)) for p in f.ps)
            unk = [x for x, q in s.facts if opaque_parts(x)]
            ctx.ob("nothing valid is refused", c, True if why else None if odd or unk else False,
                   "a path reports failure although every step succeeded: %s" % ", ".join(show(x, 3) + ("" if q else " is false") for x, q in s.facts)[:250], w)
        else:
            ctx.ob("nothing valid is refused", c, True, "", w)
        # a list with text that is not UTF-8 is refused
        for role in ("only", "not"):
            if role not in roles:
                continue
            p = f.ps[roles.index(role)]

            hit = []

            def text(e, st, args, site, fn, p=p, hit=hit):
                a = e.deep(st, args[0])
                if mentions(a, [p]) and any(x.op == "elem" for x in subterms(a)):
                    hit.append(a)
                    return [(st, err(sym("not-utf8")))]
                return succeed(e, st, args, site, fn)
            hooks = {k: (text if nm in ("to_str", "from_utf8") else succeed) for k, nm in self.failing.items()}
            isnull = [x for s, _ in f.ends() for x, q in s.facts if x.op == "app" and last(x.a[0]) == "is_null" and x.a[1] is p]
            g = Function(ctx, body, hooks, frozenset({(x, False) for x in isnull}))
            bad = [s for s, end in g.ends() if end == "KO" and not any(
                q and x.op == "app" and last(x.a[0]) == "is_null" or not q and x.op == "is" and x.a[0].op == "app" and last(x.a[0].a[0]) == "lock"
                for x, q in s.facts)]
            ctx.ob("a list with text that is not UTF-8 is refused", "%s: %s" % (c, "intents to keep" if role == "only" else "intents to leave out"),
                   True if bad else False if hit else None, "no path reports the failure", w)


def unknown_names(t, e):
    return bool(opaque_parts(t, e))


@check("C24")
def c24(ctx):
    """Every exported C function is evaluated with its out-parameter as a memory cell; what it asks of the engine and what it writes are
    compared, parameter by parameter, with what its C signature promises.  The Python aliases must call the function they are named after."""
    calls = Calls(ctx)
    for name in CALLS:
        calls.run(name)
    ctx.count("exported_functions", len(CALLS))
    aliases(ctx)


def aliases(ctx):
    py = ctx.prog.pyffi
    fs = {b["path"]: b for b in ctx.prog.ffi.bodies.values() if b.get("nomangle")}
    n = 0
    for name in ALIASED:
        ctx.anchor("ffi_" + P + name, py.name)
    for b in py.bodies.values():
        if not b.get("nomangle"):
            continue
        n += 1
        c, w = b["path"], where(b)
        if not c.startswith("ffi_") or c[4:] not in fs:
            ctx.ob("an alias calls the function it is named after", c, None, "no function of that name", w)
            continue
        ps = params(b)
        e, rs = ctx.run(b, ps, opaque={x["id"] for x in ctx.prog.ffi.bodies.values()} | {x["id"] for x in ctx.prog.lib.bodies.values()})
        for s, r in rs:
            r = peel(r, ())
            good = r.op == "app" and last(r.a[0]) == c[4:]
            if not good:
                other = r.op == "app" and last(r.a[0]) in fs or r.op == "en"
                ctx.ob("an alias calls the function it is named after", c, False if other else None, show(r, 3)[:200], w)
                continue
            ctx.ob("an alias calls the function it is named after", c, True, "", w)
            same = all(strip_cast(x) is p for x, p in zip(r.a[1:], ps)) and len(r.a) - 1 == len(ps)
            ctx.ob("an alias passes its arguments on in order", c, True if same else False if all(strip_cast(x).op in ("s", "c") for x in r.a[1:]) else None,
                   show(r, 3)[:200], w)
        ctx.ob("an alias is a C function", c, b["abi"].startswith("C"), b["abi"], w)
    ctx.floor("aliases for Python", n, 10)


def strip_cast(t):
    while t.op == "app" and t.a[0].startswith("cast"):
        t = t.a[1]
    return t


# ------------------------------------------------------------------ C25
def pointee(s):
    s = s.strip()
    for p in ("*mut ", "*const "):
        if s.startswith(p):
            return s[len(p):].strip()
    return None


def self_types(ctx, g, body, names):
    """The types whose functions of these names a body reaches: [(type, name)]."""
    out = []
    for i in g.reach([body["id"]]):
        b = ctx.prog.bodies[i]
        if b["crate"].name != CR:
            continue
        for bb in b["bbs"]:
            t = bb["t"]
            f = (t.get("f") or {}).get("fn") if t.get("k") == "call" and isinstance(t.get("f"), dict) else None
            if f and f["nm"] in names and f.get("a"):
                ty = b["crate"].types[f["a"][0]]
                s = ty["s"]
                if f["nm"] in ("into_raw", "from_raw") and "CString" in f["d"]:
                    s = "std::ffi::CString"
                out.append((s, f["nm"]))
            elif f and f["nm"] in names and "CString" in f["d"]:
                out.append(("std::ffi::CString", f["nm"]))
            elif f and f["nm"] == "point_to_string" and "into_raw_pointer" in names:
                out.append(("std::ffi::CString", "point_to_string"))
    return out


def short(t):
    return leaf(t.split("<")[0])


@check("C25")
def c25(ctx):
    """Ownership across the C interface: every type an exported function gives away (by the resolved types of the conversions it reaches)
    has a release function, which takes back exactly that type from its own parameter, once, on every path, and lets it go.  A failing
    call records its error, leaves the out-parameter alone and does not panic."""
    g = Graph(ctx.prog)
    released = {}
    for name in RELEASES:
        b = ctx.anchor(P + name, CR)
        if b is None:
            continue
        w, c = where(b), P + name
        ctx.ob("a release function is exported under its C name", c, b["nomangle"] and b["abi"].startswith("C"), "", w)
        pt = pointee(b["crate"].types[b["locals"][1]]["s"]) if b["argc"] == 1 else None
        if pt is None:
            ctx.ob("a release function takes the pointer", c, None, "", w)
            continue
        want = "CString" if pt in ("i8", "u8", "libc::c_char") else short(pt)
        ts = self_types(ctx, g, b, TAKES)
        for t, n in ts:
            ctx.ob("what is taken back is what the pointer was made from", c, True if short(t) == want else False if short(t)[:1].isupper() and len(short(t)) > 2 else None,
                   "a pointer to %s is taken back as %s" % (pt, t), w)
        released.setdefault(want, []).append(c)
        f = Function(ctx, b)
        p = f.ps[0]
        takes = [ev for ev in f.e.events.values() if last(ev.name) in TAKES and ev.args and strip_cast(ev.args[0]) is p]
        for s, end in f.ends():
            if end != "OK":
                continue
            did = [h for h in s.hist if h.op == "did" and last(h.a[1]) in TAKES and any(strip_cast(x) is p for x in h.a[2])]
            null = any(q and x.op == "app" and last(x.a[0]) == "is_null" and x.a[1] is p for x, q in s.facts)
            freed = any(h.op == "did" and last(h.a[1]) in ("drop_in_place", "free", "dealloc") for h in s.hist)
            ctx.ob("success means the memory was taken back", c, True if did or null else None if freed else False,
                   "a path reports success without taking the pointer back", w)
        for ev in takes:
            again = [h for h in ev.hist if h.op == "did" and last(h.a[1]) in TAKES and any(strip_cast(x) is p for x in h.a[2])]
            ctx.ob("memory is taken back once", c, not again, "taken back a second time by %s" % ev.name, w)
        for ev in f.e.events.values():
            own = [x for a in ev.args for x in subterms(a) if x.op == "app" and last(x.a[0]) in TAKES]
            if own and (last(ev.name) in ("forget", "leak") or last(ev.name) in GIVES or "ManuallyDrop" in ev.name):
                ctx.ob("what was taken back is let go", c, False, "it is kept alive by %s" % ev.name, w)
        else:
            ctx.ob("what was taken back is let go", c, True, "", w)
        for i in g.reach([b["id"]]):
            body = ctx.prog.bodies[i]
            names = [n for n in ('"nm": "forget"', '"nm": "leak"', "ManuallyDrop") if body["crate"].name == CR and n in json.dumps(body["bbs"])]
            if names:
                ctx.ob("what was taken back is let go", c, False, "%s is used" % names[0].split('"')[-2 if '"' in names[0] else 0], w)
        failures(ctx, f, c, w, ())
    for t, cs in released.items():
        ctx.ob("one release function per type", t, len(cs) == 1, ", ".join(cs), "")
    # what is given away
    gives = 0
    for b in sorted(ctx.prog.ffi.bodies.values(), key=lambda b: b["path"]):
        if not b.get("nomangle") or b["path"] in [P + r for r in RELEASES]:
            continue
        c, w = b["path"], where(b)
        for t, n in sorted(set(self_types(ctx, g, b, GIVES))):
            gives += 1
            ctx.ob("what is given away can be released", "%s gives %s" % (c, short(t)),
                   True if short(t) in released else False if len(short(t)) > 2 else None, "no function releases a %s" % t, w)
        if c[len(P):] in CALLS:
            f = Function(ctx, b)
            failures(ctx, f, c, w, [f.ps[i] for i in f.outs])
    ctx.floor("values given away", gives, 13)


def failures(ctx, f, c, w, outs):
    for s, end in f.ends():
        if end != "KO":
            continue
        rec = any(h.op == "did" and (last(h.a[1]) in ("with", "with_borrow_mut", "replace", "set") and any("LAST_ERROR" in show(x, 3) for x in h.a[2]) or
                                     last(h.a[1]) in ("update_last_error", "set_last_error")) for h in s.hist)
        ctx.ob("a failure is recorded as the last error", c, rec or None if any(h.op == "did" and h.a[0] == "opaque" for h in s.hist) else rec,
               "a path reports failure without recording why", w)
        for p in outs:
            how = f.written(s, p)
            if how is None:
                v = True
            elif how[0] == "call":
                v = True if decide(s.facts, isv(how[1], "Ok")) is False else False if decide(s.facts, isv(how[1], "Ok")) is True else None
            else:
                v = None if how[1].op in ("top", "phi", "u") or how[0] == "?" else False
            ctx.ob("a failure hands nothing back", c, v, "a path reports failure after the result was written", w)
    for ev in f.e.events.values():
        if ev.kind != "panic":
            continue
        bad = [x for a in ev.args for x in subterms(a) if x.op == "app" and (last(x.a[0]) in FALLIBLE or last(x.a[0]) in METHODS)]
        ctx.ob("a failure does not abort the caller", c, False if bad and "unwrap" in ev.name else None,
               "%s on %s" % (ev.name, ", ".join(show(a, 3) for a in ev.args)[:200]), w)
    else:
        ctx.ob("a failure does not abort the caller", c, True, "", w)
