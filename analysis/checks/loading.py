"""C11: a saved assistant is rebuilt from its own files; C12: the resources a model asks for are there and its own."""
import glob
import json
import os

from ..check import check, where
from ..engine import decide
from ..facts import REPO
from ..lib import *
from ..models import cut_of
from ..terms import *
from .chain import verdict
from .wire import wires, Wire

SUBLOADERS = ["load_shared_resources", "build_intent_parser", "build_slot_filler", "build_intent_classifier",
              "TfidfVectorizer::from_path", "CooccurrenceVectorizer::from_path", "Featurizer::from_path",
              "LookupIntentParser::from_path", "DeterministicIntentParser::from_path", "ProbabilisticIntentParser::from_path",
              "CRFSlotFiller::from_path", "LogRegIntentClassifier::from_path", "CachingBuiltinEntityParser::from_path",
              "CachingCustomEntityParser::from_path", "HashMapStemmer::from_reader", "HashSetGazetteer::from_reader",
              "HashMapWordClusterer::from_reader", "ProbabilisticFeatureProcessor::new"]
FILE_OPS = ("from_reader", "std::fs::read", "std::fs::read_to_string", "std::fs::File::open")


def last(n):
    return n.split("::")[-1]


def comps(p):
    """(root, components) of a path term; None when its shape is not understood."""
    if p.op == "app" and p.a[0] == "join" and len(p.a) == 3:
        r = comps(p.a[1])
        if r is None:
            return None
        c = p.a[2]
        if c.op == "c" and c.a[0] == "str":
            return r[0], r[1] + tuple(C("str", x) for x in c.a[1].split("/") if x)
        return r[0], r[1] + (c,)
    if p.op == "app" and p.a[0] in ("with_extension",):
        r = comps(p.a[1])
        if r is None or not r[1]:
            return None
        return r[0], r[1][:-1] + (app("ext", r[1][-1], p.a[2]),)
    if p.op in ("s", "f", "vf", "elem"):
        return p, ()
    if p.op == "app" and last(p.a[0]) in ("path",):
        return p, ()
    return None


def text(c):
    return c.a[1] if c.op == "c" and c.a[0] == "str" else None


def read_of(t):
    """(path term, structure read) when the term is what was read from a file."""
    if t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "app" and t.a[0].a[0] == "from_reader":
        a = t.a[0]
        for y in subterms(a.a[1]):      # the outermost one
            if y.op == "app" and (y.a[0].endswith("File::open") or y.a[0] in ("std::fs::read_to_string", "std::fs::read")):
                return y.a[1], a.a[2].a[1]
    return None


def model_field(t):
    """(path of the model file, names below its root) of a chain of projections of a model read from a file."""
    names = []
    while t.op in ("f", "vf"):
        r = read_of(t)
        if r is not None:
            return r[0], tuple(reversed(names))
        if t.op == "f":
            names.append(t.a[1])
        elif t.a[1] not in ("Some", "Ok"):
            return None
        t = t.a[0]
    return None


class Loader:
    """The normal results of a loading function, its parts being loaded by their own functions."""

    def __init__(self, ctx, path, root=0, own=(), crate="snips_nlu_lib"):
        self.ctx, self.name = ctx, path
        self.body = ctx.anchor(path, crate, "loading function is present")
        self.ok, self.err = [], []
        if self.body is None:
            return
        ops = set()
        for o in SUBLOADERS:
            b = ctx.prog.find(o, optional=True)
            if b is not None and b is not self.body and o not in own:
                ops.add(b["id"])
        self.ps = params(self.body)
        self.root = self.ps[root] if self.ps else None
        self.e, rs = ctx.run(self.body, self.ps, opaque=ops)
        self.w = where(self.body)
        for s, r in rs:
            for v in alts(r):
                if v.op == "en" and v.a[1] == "Ok":
                    self.ok.append((s, v.a[3][0] if v.a[3] else UNIT))
                elif v.op == "en":
                    self.err.append((s, v))
                else:
                    self.ok.append((s, v))
        ctx.count("loading_functions")

    def at(self, p, *want):
        """Is a path the given components below the directory the function was given?  True / False / None"""
        r = comps(p)
        if r is None:
            return None
        root, cs = r
        if root is not self.root:
            return None if opaque_parts(root, self.e) else False
        if len(cs) != len(want):
            return False
        out = True
        for c, w in zip(cs, want):
            x = w(c) if callable(w) else (text(c) == w if text(c) is not None else (None if opaque_parts(c, self.e) else False))
            if x is False:
                return False
            if x is None:
                out = None
        return out

    def field(self, *names, file=None, el=None):
        """A predicate: the term is this field of the model file."""
        def f(t):
            r = model_field(t)
            if r is None:
                return None if opaque_parts(t, self.e) else False
            ok = tuple(last_name(x) for x in r[1]) == names
            if not ok:
                return False
            return self.at(r[0], file) if file else True
        return f

    def nothing_ignored(self, rule="a part that cannot be read is an error"):
        for i, (s, v) in enumerate(self.ok):
            bad = []
            for t, p in s.facts:
                if not p and t.op == "is" and t.a[1] == "Ok" and t.a[0].op == "app" and loads(t.a[0]):
                    bad.append(t)
            for x in subterms(v):
                if x.op == "coll":
                    for gv, conds, b in x.a[1]:
                        for t, p in selecting(self.e, s.facts, conds):
                            if t.op == "is" and t.a[1] == "Ok" and t.a[0].op == "app" and loads(t.a[0]):
                                bad.append(t)
            self.ctx.ob(rule, self.name, not bad, "; ".join(show(t, 4) for t in bad[:3]), self.w)


def last_name(x):
    return x


def loads(a):
    n = a.a[0]
    return n in FILE_OPS or last(n) in ("from_path", "from_reader", "create_from_file", "load_shared_resources",
                                         "build_intent_parser", "build_slot_filler", "build_intent_classifier", "open")


def both(*xs):
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


def loaded(t, fn):
    """Arguments of the loading call a term is the success of."""
    if t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "app":
        a = t.a[0]
        if a.a[0] == fn or a.a[0].endswith("::" + fn) or a.a[0].endswith("<" + fn):
            return a.a[1:]
    return None


def sub(v, name, pred, n=1):
    """Field of a structure by name, else the only field that satisfies the predicate."""
    if v.op == "st":
        if name in v.a[1]:
            return fld(v, name)
        xs = [x for x in v.a[2] if pred(x) is True]
        if len(xs) == n:
            return xs[0]
    elif v.op in ("app", "vf", "f", "s"):
        return None
    return None


def part(L, rule, v, name, pred, what=""):
    x = sub(v, name, pred)
    st = None if x is None else pred(x)
    L.ctx.ob(rule, "%s: %s" % (L.name, name), st, "%s%s" % (what + " <- " if what else "", show(x, 5) if x is not None else "no field"),
             L.w)


def language(L, file, *names):
    pred = L.field(*names, file=file)

    def f(t):
        if t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "app" and t.a[0].a[0] == "from_str":
            return pred(t.a[0].a[1])
        return None if opaque_parts(t, L.e) or t.op not in ("vf", "c", "f") else False
    return f


def same(p):
    return lambda t: True if t is p else False


def single_gen(L, rule, con, x, s, allow=None):
    """The only generator of a collection, nothing having been left out."""
    gs = gens_of(x)
    if gs is None or len(gs) != 1:
        L.ctx.ob(rule, con, None, show(x, 4), L.w)
        return None
    v, conds, b = gs[0]
    sel = [(t, p) for t, p in selecting(L.e, s.facts, conds) if not (t.op == "app" and t.a[0] == "contains")]
    sel = [(t, p) for t, p in sel if not (allow and allow(t))]
    cut = cut_of(x.a[2]) if x.op == "coll" else None
    if cut is not None and not (allow and allow(cut)):
        sel.append((cut, True))
    L.ctx.ob(rule, con, not sel, "left out unless " + " & ".join("%s%s" % ("" if p else "!", show(t, 5)) for t, p in sel), L.w)
    return v, conds


def source_is(pred, el):
    """Is the term an element of (or a field chain below an element of) the sequence the predicate accepts?"""
    if el.op == "elem":
        return pred(el.a[0])
    return False


def below(t, names, pred):
    """t is a chain of the given fields below an element of the sequence the predicate accepts."""
    for n in reversed(names):
        if t.op != "f" or t.a[1] != n:
            return None if opaque_parts(t) else False
        t = t.a[0]
    if t.op == "app" and t.a[0] == "idx":
        return pred(t.a[1])
    return source_is(pred, t)


def in_keys(t, pred):
    return t.op == "elem" and t.a[0].op == "app" and t.a[0].a[0] == "keys" and pred(t.a[0].a[1])


def shipped_versions():
    out = set()
    for f in glob.glob(os.path.join(REPO, "data", "tests", "models", "*", "nlu_engine.json")):
        try:
            out.add(json.load(open(f))["model_version"])
        except (ValueError, KeyError, OSError):
            pass
    return out


def version_fact(L, facts):
    """The comparison of the saved version with a constant: (model side, constant, outcome)."""
    for t, p in facts:
        if t.op == "eq":
            for a, b in (t.a, t.a[::-1]):
                r = model_field(a)
                if r is not None and r[1] == ("model_version",) and b.op == "c":
                    return a, b, p
    return None


def engine_part(ctx):
    L = Loader(ctx, "SnipsNluEngine::from_path")
    if L.body is None:
        return
    ctx.floor("successful ways to load an assistant", len(L.ok), 1)
    ships = shipped_versions()
    for s, v in L.ok:
        vf_ = version_fact(L, s.facts)
        con = L.name
        rule = "only an assistant of this library's model version is loaded"
        if vf_ is None:
            ctx.ob(rule, con, False if not L.e.incomplete else None, "no comparison of model_version on a successful path", L.w)
        else:
            a, b, p = vf_
            ctx.ob(rule, con, both(p, L.at(model_field(a)[0], "nlu_engine.json")), "%s == %s is %s" % (show(a, 4), show(b), p), L.w)
            ctx.ob("the version asked for is the one of the shipped assistants", con,
                   True if not ships or b.a[1] in ships else False, "%s, shipped %s" % (b.a[1], ", ".join(sorted(ships))), L.w)
        part(L, "the dataset metadata is the saved one", v, "dataset_metadata", L.field("dataset_metadata", file="nlu_engine.json"))
        sr = sub(v, "shared_resources", lambda t: loaded(t, "load_shared_resources") is not None)
        a = loaded(sr, "load_shared_resources") if sr is not None else None
        rule = "resources come from the assistant's own directory and language"
        if a is None or len(a) != 3:
            ctx.ob(rule, con, None, show(sr, 4) if sr is not None else "no field", L.w)
        else:
            lang = L.field("dataset_metadata", "language_code", file="nlu_engine.json")

            def is_lang(c):
                if any(y.op == "app" and last(y.a[0]) in ("to_uppercase", "to_ascii_uppercase", "replace") for y in subterms(c)):
                    return False
                for y in subterms(c):
                    if y.op == "f" and lang(y) is True:
                        return True
                return None if opaque_parts(c, L.e) else False
            ctx.ob(rule, con + ": resources", L.at(a[0], "resources", is_lang), show(a[0], 6), L.w)
            ctx.ob("each entity parser comes from the directory saved for it", con + ": builtin",
                   L.at(a[1], L.field("builtin_entity_parser", file="nlu_engine.json")), show(a[1], 6), L.w)
            ctx.ob("each entity parser comes from the directory saved for it", con + ": custom",
                   L.at(a[2], L.field("custom_entity_parser", file="nlu_engine.json")), show(a[2], 6), L.w)
        ip = sub(v, "intent_parsers", lambda t: True if gens_of(t) is not None else False)
        rule = "every saved parser is loaded, in the saved order"
        g = single_gen(L, rule, con, ip, s) if ip is not None else ctx.ob(rule, con, None, "no field", L.w)
        if g:
            x, conds = g
            a = loaded(x, "build_intent_parser")
            saved = L.field("intent_parsers", file="nlu_engine.json")
            o = order_of_coll(ip)
            ctx.ob(rule, con + ": order", (True if o is not None and o.op == "app" and o.a[0] == "o_src" and saved(o.a[1]) is True
                                           else (False if o is not None and o.op == "app" and o.a[0] in ("o_rev", "o_hash", "o_none") else None)),
                   show(o, 4) if o is not None else "", L.w)
            if a is None:
                ctx.ob("a parser is built from its own directory", con, None, show(x, 4), L.w)
            else:
                name = lambda c: source_is(saved, c)
                ctx.ob("a parser is built from its own directory", con, L.at(a[1], name), show(a[1], 6), L.w)
                r = read_of(a[0])
                st = L.at(r[0], name, "metadata.json") if r else (None if opaque_parts(a[0], L.e) else False)
                if st and comps(r[0])[1][0] is not comps(a[1])[1][-1]:
                    st = False
                ctx.ob("the kind of a parser is read from its own metadata", con, st, show(a[0], 7), L.w)
                ctx.ob("parsers share the assistant's resources", con, a[2] is sr if sr is not None else None, show(a[2], 3), L.w)
    L.nothing_ignored()
    # errors: the version comes first
    ML = Loader(ctx, "SnipsNluEngine::load_model") if ctx.prog.find("SnipsNluEngine::load_model", optional=True) else None
    for X in [ML] if ML else []:
        n = 0
        for s, v in X.err:
            vv = version_fact(X, s.facts)
            if vv is not None and vv[2] is False:
                n += 1
                ens = [y for y in subterms(v) if y.op == "en" and y.a[1] == "WrongModelVersion"]
                ok = any(vv[0] in y.a[3] and vv[1] in y.a[3] for y in ens)
                st = True if ok else (None if opaque_parts(v, X.e) else False)
                if ens and ok:
                    d = dict(zip(ens[0].a[2], ens[0].a[3]))
                    if "model" in d and "runner" in d:
                        st = d["model"] is vv[0] and d["runner"] is vv[1]
                ctx.ob("another version is reported with both versions", X.name, st, show(v, 7), X.w)
            elif vv is None:
                rd = [read_of(vfld(t.a[0], "Ok", "0")) for t, p in s.facts
                      if t.op == "is" and t.a[0].op == "app" and t.a[0].a[0] == "from_reader" and not p]
                full = [r for r in rd if r and reads_more_than_version(ctx, r[1])]
                ctx.ob("the version is looked at before the rest of the model", X.name, not full,
                       "fails with the model unread for its version: %s" % show(v, 5), X.w)
        ctx.ob("another version is reported with both versions", X.name + ": present", True if n else None, "%d results" % n, X.w)


def reads_more_than_version(ctx, ty):
    ws = wires(ctx)
    for p, bs in ws.items():
        if p == ty and "visit_map" in bs:
            return len(Wire(ctx, p, bs).missing) > 1
    return False


def order_of_coll(x):
    if x.op == "coll":
        return x.a[2] if len(x.a) > 2 else None
    return None


DISPATCH = {
    "build_intent_parser": {"LookupIntentParser": "LookupIntentParser", "DeterministicIntentParser": "DeterministicIntentParser",
                            "ProbabilisticIntentParser": "ProbabilisticIntentParser"},
    "build_slot_filler": {"CrfSlotFiller": "CRFSlotFiller"},
    "build_intent_classifier": {"LogRegIntentClassifier": "LogRegIntentClassifier"},
}
ALL_KINDS = {k for m in DISPATCH.values() for k in m}


def dispatch_part(ctx):
    for fn, table in DISPATCH.items():
        b = ctx.prog.find(fn, optional=True)
        if b is None:
            ctx.ob("the saved kind decides which implementation is built", fn, None, "no such function")
            continue
        byname = {p.a[0]: p for p in params(b)}
        root = [i for i, p in enumerate(params(b)) if p.a[0] == "path"]
        L = Loader(ctx, fn, root=root[0] if root else 0)
        res = [p for p in L.ps if p is not L.root and p.a[0] != "metadata"]
        built = set()
        for s, v in L.ok:
            kinds = [t.a[1] for t, p in s.facts if p and t.op == "is" and t.a[1] in ALL_KINDS]
            con = "%s: %s" % (fn, ",".join(kinds) or "?")
            call = v.a[0] if v.op == "vf" and v.a[0].op == "app" else None
            impl = call.a[0].split("::")[-2] if call is not None and "::" in call.a[0] else None
            impl = impl.strip("<>") if impl else impl
            if len(kinds) != 1 or impl is None:
                st = False if impl is not None and not kinds else None
                ctx.ob("the saved kind decides which implementation is built", con, st, show(v, 4), L.w)
                continue
            built.add(kinds[0])
            ctx.ob("the saved kind decides which implementation is built", con, table.get(kinds[0]) == impl,
                   "%s built for %s" % (impl, kinds[0]), L.w)
            ctx.ob("an implementation is loaded from the unit's directory", con, call.a[1] is L.root and call.a[2] in res,
                   show(call, 4), L.w)
            src = [t.a[0] for t, p in s.facts if p and t.op == "is" and t.a[1] == kinds[0]][0]
            r = read_of(src)
            if "metadata" in byname:
                ctx.ob("the kind is the saved one", con, True if src is byname["metadata"] else (None if opaque_parts(src, L.e) else False),
                       show(src, 4), L.w)
            else:
                ctx.ob("the kind is the saved one", con, L.at(r[0], "metadata.json") if r else None, show(src, 5), L.w)
        for k in table:
            ctx.ob("every kind of unit can be built", "%s: %s" % (fn, k), k in built or (None if not L.ok else False), "", L.w)
        L.nothing_ignored()


def probabilistic_part(ctx):
    L = Loader(ctx, "ProbabilisticIntentParser::from_path")
    f = "intent_parser.json"
    for s, v in L.ok:
        def ic(t):
            a = loaded(t, "build_intent_classifier")
            if a is None:
                return None if opaque_parts(t, L.e) or t.op == "st" else False
            return both(L.at(a[0], "intent_classifier"), a[1] is L.ps[1])
        part(L, "the classifier is loaded from the parser's own directory", v, "intent_classifier", ic)
        sf = sub(v, "slot_fillers", lambda t: True if gens_of(t) is not None else False)
        rule = "every saved slot filler is loaded for its own intent"
        g = single_gen(L, rule, L.name, sf, s) if sf is not None else ctx.ob(rule, L.name, None, "no field", L.w)
        if g:
            x, conds = g
            saved = L.field("slot_fillers", file=f)
            k, val = fld(x, "0"), fld(x, "1")
            a = loaded(val, "build_slot_filler")
            if a is None:
                ctx.ob(rule, L.name + ": filler", None, show(val, 4), L.w)
                continue
            ctx.ob(rule, L.name + ": intent", below(k, ("intent",), saved), show(k, 5), L.w)
            d = []
            st = L.at(a[0], lambda c: (d.append(c), below(c, ("slot_filler_name",), saved))[1])
            if st and k.op == "f" and d[0].op == "f" and d[0].a[0] is not k.a[0]:
                st = False
            ctx.ob(rule, L.name + ": directory", both(st, a[1] is L.ps[1]), show(a[0], 6), L.w)
    L.nothing_ignored()


def optional(L, s, name, file):
    """The optional field of the model on this path: True (present), False (absent), None (not looked at)."""
    for t, p in s.facts:
        if t.op == "is" and t.a[1] in ("Some", "None"):
            r = model_field(t.a[0])
            if r is not None and r[1] == (name,):
                return p if t.a[1] == "Some" else not p
    return None


def some_of(t):
    """The payload of Some, False for None, None when unknown."""
    if t.op == "en":
        return t.a[3][0] if t.a[1] == "Some" else False
    return None


def crf_part(ctx):
    L = Loader(ctx, "CRFSlotFiller::from_path")
    f = "slot_filler.json"
    codes = {0: "IO", 1: "BIO", 2: "BILOU"}
    seen = set()
    for s, v in L.ok:
        part(L, "a slot filler works in the saved language", v, "language", language(L, f, "language_code"))
        part(L, "slots are those of the saved mapping", v, "slot_name_mapping", L.field("slot_name_mapping", file=f))
        sch = sub(v, "tagging_scheme", lambda t: t.op == "en" and t.a[1] in codes.values())
        code = [y.a[1] for t, p in s.facts if p and t.op == "eq" for x, y in (t.a, t.a[::-1])
                if y.op == "c" and model_field(x) and model_field(x)[1] == ("config", "tagging_scheme")]
        rule = "tags are read in the saved scheme"
        if sch is None or sch.op != "en":
            ctx.ob(rule, L.name, None, show(sch, 3) if sch is not None else "no field", L.w)
        elif not code:
            ctx.ob(rule, "%s: %s" % (L.name, sch.a[1]), False, "whatever the saved code", L.w)
        else:
            seen.add(code[0])
            ctx.ob(rule, "%s: %s" % (L.name, code[0]), codes.get(code[0]) == sch.a[1], "%s is %s" % (code[0], sch.a[1]), L.w)
        has = optional(L, s, "crf_model_file", f)
        tg = sub(v, "tagger", lambda t: t.op == "en")
        fp = sub(v, "feature_processor", lambda t: t.op == "en")
        rule = "the tagger is the saved one, there iff it was saved"
        if tg is None or has is None or some_of(tg) is None:
            ctx.ob(rule, L.name, None, show(tg, 4) if tg is not None else "no field", L.w)
        elif has:
            x = some_of(tg)
            y = [z for z in subterms(x) if z.op == "app" and z.a[0].endswith("create_from_file")] if x else []
            st = L.at(y[0].a[1], L.field("crf_model_file", file=f)) if y else (False if x is False else None)
            ctx.ob(rule, L.name + ": present", st, show(tg, 6), L.w)
            z = some_of(fp) if fp is not None else None
            st = None
            if z is False:
                st = False
            elif z is not None:
                src = L.field("config", "feature_factory_configs", file=f)
                hit = [q for q in subterms(z) if q.op == "f" and src(q) is True]
                st = True if hit else None
                if hit and z.op == "vf" and z.a[0].op == "app":
                    st = both(True, z.a[0].a[1] in hit)
            ctx.ob("features are computed as saved", L.name, st, show(fp, 5) if fp is not None else "", L.w)
        else:
            ctx.ob(rule, L.name + ": absent", some_of(tg) is False, show(tg, 4), L.w)
    for k in codes:
        ctx.ob("every saved scheme is known", "%s: %s" % (L.name, k), k in seen or (None if not seen else False), "", L.w)
    L.nothing_ignored()


def classifier_part(ctx):
    L = Loader(ctx, "LogRegIntentClassifier::from_path")
    f = "intent_classifier.json"
    for s, v in L.ok:
        part(L, "the classes are the saved intents, in the saved order", v, "intent_list", L.field("intent_list", file=f))
        has = optional(L, s, "featurizer", f)
        fz = sub(v, "featurizer", lambda t: t.op == "en" and t.a[1] == "Some" and loaded(t.a[3][0], "Featurizer::from_path") is not None)
        rule = "the featurizer is the saved one, there iff it was saved"
        if fz is None or has is None or some_of(fz) is None:
            ctx.ob(rule, L.name, None, show(fz, 4) if fz is not None else "no field", L.w)
        elif has:
            x = some_of(fz)
            a = loaded(x, "Featurizer::from_path") if x else None
            st = both(L.at(a[0], L.field("featurizer", file=f)), a[1] is L.ps[1]) if a else (False if x is False else None)
            ctx.ob(rule, L.name + ": present", st, show(fz, 6), L.w)
        else:
            ctx.ob(rule, L.name + ": absent", some_of(fz) is False, show(fz, 4), L.w)
        lr = sub(v, "logreg", lambda t: t.op == "en")
        hi, hc = optional(L, s, "intercept", f), optional(L, s, "coeffs", f)
        rule = "the regression has the saved coefficients, there iff they were saved"
        x = some_of(lr) if lr is not None else None
        if x is None:
            ctx.ob(rule, L.name, None, "", L.w)
        elif x is False:
            ctx.ob(rule, L.name + ": absent", True if hi is False or hc is False else (None if hi is None or hc is None else False),
                   "intercept %s, coeffs %s" % (hi, hc), L.w)
        else:
            got = {model_field(q)[1][0] for q in subterms(x) if q.op == "f" and model_field(q) and model_field(q)[1]}
            ctx.ob(rule, L.name + ": present", True if {"intercept", "coeffs"} <= got else (None if opaque_parts(x, L.e) and not L.e.unknown_names else False),
                   "made of %s" % ", ".join(sorted(got)), L.w)
            weights(ctx, L, s, x, f)
    L.nothing_ignored()


def weights(ctx, L, s, x, f):
    """The matrix of weights: the intercepts first, then one row per feature (the saved rows are per class)."""
    st_ = [y for y in subterms(x) if y.op == "app" and last(y.a[0]) in ("stack", "concatenate")]
    rule = "the weights are the intercepts followed by the transposed coefficients"
    if len(st_) != 1:
        ctx.ob(rule, L.name, None, show(x, 6), L.w)
        return
    parts = st_[0].a[2]
    parts = parts.a[1] if parts.op == "list" else (parts.a[2] if parts.op == "st" else None)
    if not parts or len(parts) != 2:
        ctx.ob(rule, L.name, None, show(st_[0], 5), L.w)
        return

    def names(t):
        return {model_field(q)[1][0] for q in subterms(t) if q.op == "f" and model_field(q) and model_field(q)[1]}
    first = [q for q in subterms(parts[0]) if q.op == "elem" and "intercept" in names(q.a[0])] or \
        [q for q in subterms(parts[0]) if q.op == "vf" and model_field(q) and model_field(q)[1] == ("intercept",)]
    ax = st_[0].a[1]
    ctx.ob(rule, L.name + ": axis", (fld(ax, "0") is C("int", 0) or show(fld(ax, "0")) == "0") if ax.op == "st" else None, show(ax), L.w)
    a, b = bool(first), any(q.op == "vf" and model_field(q) and model_field(q)[1] == ("coeffs",) for q in subterms(parts[1]))
    swapped = not first and any(q.op == "vf" and model_field(q) and model_field(q)[1] == ("intercept",) for q in subterms(parts[1]))
    ctx.ob(rule, L.name + ": order", True if a and b else (False if swapped else None), show(st_[0], 5), L.w)
    tb = [y for y in subterms(parts[1]) if y.op == "app" and last(y.a[0]) in ("tabulate",)]
    if len(tb) == 1:
        # coeffs[j][i] for the cell (i, j)
        v = tb[0].a[-1]
        outer = [y for y in subterms(v) if y.op == "app" and y.a[0] == "idx" and y.a[1].op == "app" and y.a[1].a[0] == "idx"]
        st = None
        if len(outer) == 1:
            i, j = outer[0].a[2], outer[0].a[1].a[2]
            if i.op == "s" and j.op == "s" and {i.a[0], j.a[0]} == {"#0", "#1"}:
                st = i.a[0] == "#0"
        ctx.ob(rule, L.name + ": transposition", st, show(v, 6), L.w)


def featurizer_part(ctx):
    L = Loader(ctx, "Featurizer::from_path")
    f = "featurizer.json"
    for s, v in L.ok:
        def tf(t):
            a = loaded(t, "TfidfVectorizer::from_path")
            return both(L.at(a[0], L.field("tfidf_vectorizer", file=f)), a[1] is L.ps[1]) if a else None
        part(L, "the tf-idf features are the saved ones", v, "tfidf_vectorizer", tf)
        has = optional(L, s, "cooccurrence_vectorizer", f)
        cv = sub(v, "cooccurrence_vectorizer", lambda t: t.op == "en")
        rule = "the co-occurrence features are the saved ones, there iff they were saved"
        x = some_of(cv) if cv is not None else None
        if x is None or has is None:
            ctx.ob(rule, L.name, None, "", L.w)
        elif has:
            a = loaded(x, "CooccurrenceVectorizer::from_path") if x else None
            st = both(L.at(a[0], L.field("cooccurrence_vectorizer", file=f)), a[1] is L.ps[1]) if a else (False if x is False else None)
            ctx.ob(rule, L.name + ": present", st, show(cv, 6), L.w)
        else:
            ctx.ob(rule, L.name + ": absent", x is False, show(cv, 4), L.w)
    L.nothing_ignored()


def scope(L, file):
    """Predicate: the builtin kinds named by the saved scope, all of them, in order."""
    pred = L.field("builtin_entity_scope", file=file)

    def f(t):
        gs = gens_of(t)
        if gs is None or len(gs) != 1:
            return None
        v = gs[0][0]
        src = [q.a[0] for q in subterms(v) if q.op == "elem"]
        if v.op == "vf" and v.a[0].op == "app" and last(v.a[0].a[0]) in ("from_identifier", "from_str"):
            return pred(src[0]) if src else False
        return None
    return f


def whole(L, s, v, name, pred, rule):
    x = sub(v, name, pred)
    if x is None:
        L.ctx.ob(rule, "%s: %s" % (L.name, name), None, "no field", L.w)
        return
    L.ctx.ob(rule, "%s: %s" % (L.name, name), pred(x), show(x, 5), L.w)
    gs = gens_of(x)
    if gs and len(gs) == 1:
        single_gen(L, rule, "%s: %s: all" % (L.name, name), x, s)


def vectorizers_part(ctx):
    f = "vectorizer.json"
    L = Loader(ctx, "TfidfVectorizer::from_path")
    for s, v in L.ok:
        for n, wire in (("vocabulary", ("vectorizer", "vocab")), ("idf_diag", ("vectorizer", "idf_diag"))):
            part(L, "vocabulary and weights are the saved ones", v, n, L.field(*wire, file=f))
        part(L, "a vectorizer works in the saved language", v, "language", lang_conv(L, f))
        whole(L, s, v, "builtin_entity_scope", scope(L, f), "the entities looked for are the saved ones")
    L.nothing_ignored()
    L = Loader(ctx, "CooccurrenceVectorizer::from_path")
    for s, v in L.ok:
        for n in ("filter_stop_words", "window_size", "keep_order", "unknown_words_replacement_string"):
            part(L, "the options are the saved ones", v, n, L.field("config", n, file=f))
        part(L, "a vectorizer works in the saved language", v, "language", lang_conv(L, f))
        whole(L, s, v, "builtin_entity_scope", scope(L, f), "the entities looked for are the saved ones")
        wp = sub(v, "word_pairs", lambda t: gens_of(t) is not None)
        rule = "every saved pair of words has its saved column"
        if wp is None:
            ctx.ob(rule, L.name, None, "", L.w)
            continue
        g = single_gen(L, rule, L.name, wp, s)
        if g:
            x, conds = g
            k, val = fld(x, "0"), fld(x, "1")
            src = L.field("word_pairs", file=f)
            kk = in_keys(val, src)
            ok = k.op == "app" and k.a[0].startswith("get") and src(k.a[1]) is True and k.a[2] is val
            two = None
            if k.op == "st" and len(k.a[2]) == 2:
                two = [q.op == "f" and q.a[0].op == "app" and q.a[0].a[0].startswith("get") and src(q.a[0].a[1]) is True
                       and q.a[0].a[2] is val and q.a[1] == str(i) for i, q in enumerate(k.a[2])]
            st = True if kk and (ok or two and all(two)) else (None if opaque_parts(x, L.e) else False)
            ctx.ob(rule, L.name + ": pair", st, show(x, 6), L.w)
    L.nothing_ignored()


def lang_conv(L, f):
    """The language, possibly converted between the two libraries' enumerations."""
    pred = L.field("language_code", file=f)

    def g(t):
        hit = [q for q in subterms(t) if q.op == "f" and pred(q) is True]
        if hit:
            return True
        if t.op == "top" or t.op == "u" or t.op == "en":
            return True if L.e is not None and any(
                t2.op == "is" and t2.a[0].op == "app" and t2.a[0].a[0] == "from_str" and pred(t2.a[0].a[1]) is True
                for s, v in L.ok for t2, p in s.facts) else None
        return None
    return g


PLAIN = {"multi_line": False, "dot_matches_new_line": False, "swap_greed": False, "ignore_whitespace": False, "unicode": True, "octal": False,
         "case_insensitive": True}


def patterns_part(ctx, L, s, v, f):
    """The patterns of each intent are compiled as they were saved, without regard to case and in no other way."""
    rx = sub(v, "regexes_per_intent", lambda t: gens_of(t) is not None and any(
        q.op == "app" and q.a[0].endswith("build") for q in subterms(t)))
    rule = "every saved pattern is used, for its own intent"
    if rx is None:
        ctx.ob(rule, L.name, None, "", L.w)
    else:
        g = single_gen(L, rule, L.name, rx, s)
        if g:
            src = L.field("patterns", file=f)
            k, val = fld(g[0], "0"), fld(g[0], "1")
            ctx.ob(rule, L.name + ": intent", True if in_keys(k, src) is True else (None if opaque_parts(k, L.e) else False), show(k, 5), L.w)
            g2 = single_gen(L, rule, L.name + ": patterns", val, s)
            if g2:
                y = g2[0]
                ps = [q for q in subterms(y) if q.op == "elem" and q.a[0].op == "app" and q.a[0].a[0].startswith("get")]
                st = any(src(q.a[0].a[1]) is True and q.a[0].a[2] is k for q in ps)
                ctx.ob(rule, L.name + ": own patterns", st or (None if opaque_parts(y, L.e) else False), show(y, 6), L.w)
                ci = [q for q in subterms(y) if q.op == "app" and q.a[0].endswith("case_insensitive")]
                ctx.ob("patterns ignore case", L.name, (ci[0].a[2] is TRUE) if len(ci) == 1 else
                       (False if not ci and any(q.op == "app" and "Regex" in q.a[0] for q in subterms(y)) else None), show(y, 5), L.w)
                new = [q for q in subterms(y) if q.op == "app" and q.a[0].endswith("new")]
                for q in subterms(y):
                    n = q.a[0].split("::")[-1] if q.op == "app" else ""
                    if n in PLAIN and len(q.a) == 3 and "RegexBuilder" in q.a[0]:
                        ctx.ob("patterns mean what they say", "%s: %s" % (L.name, n), q.a[2] is (TRUE if PLAIN[n] else FALSE) if q.a[2] in (TRUE, FALSE) else None,
                               show(q, 3), L.w)
                    elif n == "size_limit" and "RegexBuilder" in q.a[0] and len(q.a) == 3 and q.a[2].op == "c":
                        ctx.ob("patterns of any size are accepted", "%s: %s" % (L.name, n), q.a[2].a[1] >= 10 << 20, show(q, 3), L.w)
                    elif q.op == "app" and "RegexBuilder" in q.a[0] and n not in ("new", "build", "dfa_size_limit"):
                        ctx.ob("patterns mean what they say", "%s: %s" % (L.name, n), None, show(q, 3), L.w)
                ctx.ob("patterns are compiled as saved", L.name, (new[0].a[1] in ps) if len(new) == 1 and len(new[0].a) == 2 else None,
                       show(y, 6), L.w)


def deterministic_part(ctx, *parts):
    """What the deterministic parser works with, for the properties that speak of its use."""
    L = Loader(ctx, "DeterministicIntentParser::from_path")
    for s, v in L.ok:
        for q in parts:
            if q == "patterns":
                patterns_part(ctx, L, s, v, "intent_parser.json")
            elif q == "stop words":
                stop_words(L, s, v, "intent_parser.json", ctx)
            elif q == "scopes":
                slot_scopes(L, s, v, "intent_parser.json", ctx)
            else:
                for n in ("group_names_to_slot_names", "slot_names_to_entities"):
                    part(L, "slots are those of the saved tables", v, n, L.field(n, file="intent_parser.json"))


def lookup_part(ctx):
    L = Loader(ctx, "LookupIntentParser::from_path")
    for s, v in L.ok:
        for n in ("slots_names", "intents_names", "map", "entity_scopes"):
            part(L, "the lookup tables are the saved ones", v, n, L.field(n, file="intent_parser.json"))
        stop_words(L, s, v, "intent_parser.json", ctx)


def parsers_part(ctx):
    f = "intent_parser.json"
    L = Loader(ctx, "DeterministicIntentParser::from_path")
    for s, v in L.ok:
        part(L, "a parser works in the saved language", v, "language", language(L, f, "language_code"))
        for n in ("group_names_to_slot_names", "slot_names_to_entities"):
            part(L, "slots are those of the saved tables", v, n, L.field(n, file=f))
        patterns_part(ctx, L, s, v, f)
        stop_words(L, s, v, f, ctx)
        slot_scopes(L, s, v, f, ctx)
    L.nothing_ignored()
    L = Loader(ctx, "LookupIntentParser::from_path")
    for s, v in L.ok:
        part(L, "a parser works in the saved language", v, "language", language(L, f, "language_code"))
        for n in ("slots_names", "intents_names", "map", "entity_scopes"):
            part(L, "the lookup tables are the saved ones", v, n, L.field(n, file=f))
        stop_words(L, s, v, f, ctx)
    L.nothing_ignored()


OTHER_TEXT = ("to_lowercase", "to_uppercase", "trim", "trim_start", "trim_end", "to_ascii_lowercase", "to_ascii_uppercase", "normalize", "replace")


def slot_scopes(L, s, v, f, ctx):
    """Per intent: the builtin kinds, then the other entities, of its own slots."""
    rule = "an intent's entities are those of its own slots"
    x = sub(v, "entity_scopes", lambda t: None)
    if x is None:
        ctx.ob(rule, L.name, None, "no field", L.w)
        return
    g = single_gen(L, rule, L.name, x, s)
    if not g:
        return
    src = L.field("slot_names_to_entities", file=f)
    k, val = fld(g[0], "0"), fld(g[0], "1")
    other = k.op == "app" and last(k.a[0]) in OTHER_TEXT and in_keys(k.a[1], src) is True
    ctx.ob(rule, L.name + ": intent", True if in_keys(k, src) is True else (False if other else None if opaque_parts(k, L.e) else False), show(k, 5), L.w)

    def slot_entity(t):
        """The entity of one of the intent's slots: m[k][name]."""
        if t.op != "app" or not t.a[0].startswith("get"):
            return False
        m = t.a[1]
        if m.op != "app" or not m.a[0].startswith("get") or m.a[2] is not k or src(m.a[1]) is not True:
            return False
        n = t.a[2]
        return n.op == "elem" and n.a[0].op == "app" and n.a[0].a[0] == "keys" and n.a[0].a[1] is m

    for n, what in (("0", "builtin"), ("1", "custom")):
        c = fld(val, n)
        gs = gens_of(c)
        con = "%s: %s" % (L.name, what)
        if not gs:
            ctx.ob(rule, con, None if gs is None else False, show(c, 4), L.w)
            continue
        part = cut_of(c.a[2]) if c.op == "coll" and c.a[2] is not None else None
        if part is not None and part.a[0] not in ("o_unique_by", "o_dedup"):
            ctx.ob(rule, con, False, show(c.a[2], 6), L.w)
        for y, conds, b in gs:
            sel = [(t, p) for t, p in selecting(L.e, s.facts, conds) if not (t.op == "app" and t.a[0] == "contains")]
            read = [t for t in subterms(y) if t.op == "app" and last(t.a[0]) == "from_identifier"]
            tests = [(t, p) for t, p in sel if t.op == "is" and t.a[0].op == "app" and last(t.a[0].a[0]) == "from_identifier"]
            if len(tests) != 1 or len(sel) != 1:
                loose = [t for t, p in sel if t.op == "app" and last(t.a[0]) in ("starts_with", "ends_with", "eq_ignore_ascii_case") and slot_entity(t.a[1])]
                ctx.ob(rule, con, False if not sel and what == "custom" and slot_entity(y) or loose else
                       (None if any(opaque_parts(t, L.e) for t, p in sel) or not sel else False),
                       "if " + " & ".join("%s%s" % ("" if p else "!", show(t, 4)) for t, p in sel), L.w)
                continue
            t, p = tests[0]
            isok = p if t.a[1] == "Ok" else (not p)
            arg = t.a[0].a[1]
            if what == "builtin":
                st = isok and y.op == "vf" and y.a[1] == "Ok" and y.a[0] is t.a[0] and slot_entity(arg)
            else:
                st = (not isok) and y is arg and slot_entity(y)
            shape = slot_entity(arg) and (y is arg or (y.op == "vf" and y.a[0] is t.a[0]))
            ctx.ob(rule, con, True if st else (False if shape or not opaque_parts(y, L.e) else None), show(y, 6), L.w)


def stop_words(L, s, v, f, ctx):
    flag = None
    for t, p in s.facts:
        r = model_field(t)
        if r is not None and r[1] == ("config", "ignore_stop_words"):
            flag = p
    sw = sub(v, "stop_words", lambda t: None)
    rule = "stop words are ignored iff the saved option says so"
    shared = fld(L.ps[1], "stop_words")
    if sw is None or flag is None:
        # the words, or none of them, whatever the option says
        all_ = sw is not None and (strip_list(sw) is shared or gens_of(sw) is not None and not gens_of(sw))
        st = False if all_ and not any(last(q.a[0]) != "open" for t, p in s.facts for q in opaque_parts(t, L.e) if q.op == "app") else None
        ctx.ob(rule, L.name, st, "option not looked at: %s" % show(sw, 4) if sw is not None else "no field", L.w)
        flag = None
    elif flag:
        st = True if strip_list(sw) is shared else (None if opaque_parts(sw, L.e) else False)
        gs = gens_of(sw)
        if gs is not None and len(gs) == 1 and gs[0][0].op == "elem" and gs[0][0].a[0] is shared:
            x = gs[0][0]        # some of the shared words
            st = not any(any(q is x for q in subterms(t)) and not (t.op == "app" and t.a[0] == "contains" and t.a[1] is shared)
                         for t, p in selecting(L.e, s.facts, gs[0][1]))
        ctx.ob(rule, L.name + ": on", st, show(sw, 4), L.w)
    else:
        gs = gens_of(sw)
        ctx.ob(rule, L.name + ": off", True if gs is not None and not gs else (False if sw is shared else None), show(sw, 4), L.w)
    sp = sub(v, "specific_stop_words", lambda t: None)
    rule = "an intent's whitelisted words are not stop words for it"
    if sp is None or flag is not True:
        return
    g = single_gen(L, rule, L.name, sp, s)
    if not g:
        return
    src = L.field("stop_words_whitelist", file=f)
    k, val = fld(g[0], "0"), fld(g[0], "1")
    ctx.ob(rule, L.name + ": intent", True if in_keys(k, src) is True else (None if opaque_parts(k, L.e) else False), show(k, 5), L.w)
    gs = gens_of(val)
    if gs is not None and len(gs) == 1 and any(t.op == "app" and t.a[0] == "contains" and t.a[1] is sw for t, p in gs[0][1]):
        gs = [(gs[0][0], [(t, p) for t, p in gs[0][1] if not (t.op == "app" and t.a[0] == "contains" and t.a[1] is sw)], gs[0][2])]
    if gs is None or len(gs) != 1:
        ctx.ob(rule, L.name + ": words", None, show(val, 5), L.w)
        return
    x, conds, b = gs[0]
    own = x.op == "elem" and x.a[0] is shared
    sel = [(t, p) for t, p in conds if (t, p) not in s.facts and not (t.op == "app" and t.a[0] == "contains" and t.a[1] is shared)]
    # what keeps a word out of all stop words is a matter of the rule above
    common = [c for g_ in (gens_of(sw) or ()) if g_[0] is x for c in g_[1]]
    sel = [c for c in sel if c not in common]
    neg = [t for t, p in sel if not p and t.op == "app" and t.a[0] == "contains" and t.a[2] is x]
    listed = [t for t in neg if any(q.op == "app" and q.a[0].startswith("get") and src(q.a[1]) is True and q.a[2] is k
                                    for q in subterms(t.a[1]))]
    pos = [t for t, p in sel if p and t.op == "app" and t.a[0] == "contains" and t.a[2] is x]
    st = None
    if own and len(sel) == 1 and listed:
        st = True
    elif own and (not sel or pos):
        st = False
    elif own and neg and not listed and not opaque_parts(neg[0], L.e):
        st = False
    elif own and listed and any(t not in listed and any(q is x for q in subterms(t)) for t, p in sel):
        st = False
    ctx.ob(rule, L.name + ": words", st, show(val, 6), L.w)


@check("C11")
def c11(ctx):
    """All paths of every loading function, parts being loaded by their own functions: each part of the loaded object must be
    the term read from its own field of its own file below the directory given; conditions under which a part is left
    out or the version of the assistant is not compared are violations."""
    engine_part(ctx)
    dispatch_part(ctx)
    probabilistic_part(ctx)
    crf_part(ctx)
    classifier_part(ctx)
    featurizer_part(ctx)
    vectorizers_part(ctx)
    parsers_part(ctx)
