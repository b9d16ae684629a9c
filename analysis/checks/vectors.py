"""C19: the vector a text is classified by."""
from ..check import check, where
from ..engine import decide
from ..lib import *
from ..terms import *
from .api import fl
from .loading import last
from ..models import cut_of
from .replace import parts

MOD = "intent_classifier::featurizer::"
TFIDF, COOC, BOTH = MOD + "TfidfVectorizer::transform", MOD + "CooccurrenceVectorizer::transform", MOD + "Featurizer::transform"
KNOWN = ("tokenize_light", "normalize", "stem", "extract_entities", "identifier", "to_lowercase", "to_uppercase", "join", "concat",
         "get_cluster", "compute_all_ngrams", "get!", "idx", "cells", "keys", "contains", "len", "count", "max_of", "sqrt", "fadd",
         "fmul", "mul", "fdiv", "flt", "fle", "slice", "range", "min", "max", "pos", "replace_entities", "cmp:Lt", "cmp:Gt", "cmp:Le",
         "cmp:Ge", "transform", "lt", "le", "trim", "eq", "to_string", "is_empty")


def unknowns(t, e, names):
    return [q for q in opaque_parts(t, e) if not (q.op == "app" and last(q.a[0]) in names)]


class Cells:
    """Runs a function with the vectors it makes kept as named cells, noting what is written where."""

    def __init__(self, ctx, body, **kw):
        self.body, self.ps, self.writes = body, params(body), []

        def made(e, st, args, site, fn):
            return [(st, app("cells", args[0], args[1], C("int", 0)))]

        def written(e, st, v, i, val):
            v0 = self.cells(v, e)
            if not v0:
                return None
            k = self.kind(val, i, e)
            self.writes.append((v0, i, k, val, st))
            n = max(c.a[3].a[1] for c in v0)
            return app("cells", v0[0].a[1], v0[0].a[2], C("int", max(n, {"count": 0, "set": 0, "weigh": 1}.get(k[0], 2))))
        hooks = dict({"vec::from_elem": made, "[]=": written}, **kw.pop("hooks", {}))
        self.e, self.rs = ctx.run(body, self.ps, hooks=hooks, **kw)

    def cells(self, v, e=None, depth=0):
        """The stages a vector may be in: fresh or counted (0), weighted (1), anything else (2)"""
        e = e or self.e
        if v.op == "app" and v.a[0] == "cells":
            return [v]
        if v.op in ("phi", "u") and depth < 6:
            out = []
            for x, f in e.candidates(v) or ():
                if x is not v:
                    out += [c for c in self.cells(x, e, depth + 1) if c not in out]
            return out
        return []

    def kind(self, val, i, e):
        f = fl(val)
        if f is not None:
            return ("set", f)
        if val.op == "app" and val.a[0] in ("fadd", "add", "mul", "fmul") and len(val.a) == 3:
            old = [y for y in val.a[1:] if y.op == "app" and y.a[0] == "idx" and y.a[2] is i and self.cells(y.a[1], e)]
            if len(old) == 1:
                o = val.a[1] if val.a[2] is old[0] else val.a[2]
                if val.a[0] in ("fadd", "add"):
                    return ("count", o)
                return ("weigh", o)
        return ("?", val)


def text_elem(t, lang, inp):
    """Is it a token of the text?"""
    if t.op != "elem":
        return False
    src = strip_list(t.a[0])
    return src.op == "app" and last(src.a[0]) == "tokenize_light" and src.a[1] is inp and src.a[2] is lang


def whole(c):
    """What a collection is an unchanged copy of."""
    c = strip_list(c)
    gs = gens_of(c)
    if gs is not None and c.op == "coll" and len(gs) == 1:
        x, conds, b = gs[0]
        if x.op == "elem" and all(p and t.op == "app" and t.a[0] == "contains" and t.a[2] is x for t, p in conds) and \
                (c.a[2] is None or c.a[2].op == "app" and c.a[2].a[0] == "o_src"):
            return whole(x.a[0])
    return c


def name_of(t, prefix, lang):
    """x, when the term is the feature name made of a prefix and the tokens of x in lower case."""
    P = parts(t)
    if len(P) != 2 or P[0] is not S(prefix):
        return None
    t = P[1]
    if t.op == "app" and last(t.a[0]) in ("join", "concat_all") and (len(t.a) == 2 or t.a[2] is S("")) and t.a[1].op == "app" and \
            last(t.a[1].a[0]) == "tokenize_light" and t.a[1].a[2] is lang and t.a[1].a[1].op == "app" and last(t.a[1].a[1].a[0]) == "to_lowercase":
        return t.a[1].a[1].a[1]
    return None


def entities(t, parser, args):
    """Is it an entity the parser found?"""
    if t.op != "elem":
        return False
    c = strip_list(t.a[0])
    if not (c.op == "vf" and c.a[1] == "Ok"):
        return False
    c = c.a[0]
    return c.op == "app" and last(c.a[0]) == "extract_entities" and c.a[1] is parser and len(c.a) == len(args) + 2 and \
        all(f(a) for f, a in zip(args, c.a[2:]))


def is_(x):
    return lambda a: a is x


def is_int(n):
    return lambda a: a is C("int", n)


def some_of(x):
    return lambda a: a.op == "en" and a.a[1] == "Some" and strip_list(a.a[3][0]) is x


def is_none(a):
    return a.op == "en" and a.a[1] == "None"


@check("C19")
def c19(ctx):
    joined(ctx)
    weighted(ctx)
    pairs(ctx)


def joined(ctx):
    b = ctx.anchor(BOTH)
    if b is None:
        return
    con, w = "Featurizer::transform", where(b)
    vs = [ctx.prog.find(n, optional=True) for n in (TFIDF, COOC)]
    ps = params(b)
    me, inp = ps[:2]
    e, rs = ctx.run(b, ps, opaque={x["id"] for x in vs if x is not None})
    pv = fld(me, "cooccurrence_vectorizer")

    def vec(v, c):
        """Is c the vector of a vectorizer for the text?"""
        return c.op == "vf" and c.a[1] == "Ok" and c.a[0].op == "app" and last(c.a[0].a[0]) == "transform" and c.a[0].a[1] is v and \
            c.a[0].a[2] is inp
    seen = set()
    for s, r in rs:
        if r.op == "en" and r.a[1] == "Err":
            x = r.a[3][0]
            ok = x.op == "vf" and x.a[1] == "Err" and x.a[0].op == "app" and last(x.a[0].a[0]) == "transform"
            ctx.ob("a vectorizer that fails is the answer", con, True if ok else (None if unknowns(x, e, KNOWN) else False), show(r, 4), w)
            continue
        if not (r.op == "en" and r.a[1] == "Ok"):
            ctx.ob("the vector is that of the vectorizers", con, None, show(r, 3), w)
            continue
        v = r.a[3][0]
        has = decide(s.facts, isv(pv, "Some"))
        src = sequence(v)
        if src is None or has is None:
            ctx.ob("the weights come first, then the pairs", con, None, show(v, 6), w)
            continue
        seen.add(has)
        want = [fld(me, "tfidf_vectorizer")] + ([vfld(pv, "Some", "0")] if has else [])
        ok = len(src) == len(want) and all(vec(a, c) for a, c in zip(want, src))
        ctx.ob("the weights come first, then the pairs", con, True if ok else (None if any(unknowns(c, e, KNOWN) for c in src) else False),
               " ++ ".join(show(c, 4) for c in src), w)
    ctx.ob("both with and without word pairs are followed", con, True if seen == {True, False} else None, str(seen), w)


def sequence(v):
    """The collections a collection is put together from, in order, each of them whole."""
    v = strip_list(v)
    gs = gens_of(v)
    if gs is None:
        return [v]
    if v.op != "coll" or v.a[2] is None:
        return None
    srcs = order_sources(v.a[2])
    if srcs is None:
        return None
    have = []
    for x, conds, b in gs:
        if x.op != "elem":
            return None
        have.append(strip_list(x.a[0]))
        if any(x in set(subterms(t)) and not (p and t.op == "app" and t.a[0] == "contains" and t.a[2] is x) for t, p in conds):
            return None
    return srcs if set(have) == set(srcs) else None


def order_sources(o):
    if o.op == "app" and o.a[0] == "o_src":
        return [strip_list(o.a[1])]
    if o.op == "app" and o.a[0] == "o_chain":
        a, b = order_sources(o.a[1]), order_sources(o.a[2])
        return a + b if a is not None and b is not None else None
    return None


class Words:
    """What a counted word may be."""

    def __init__(self, p):
        self.p = p
        self.me, self.inp = p.ps[:2]
        f = lambda n: fld(self.me, n)
        self.lang, self.stemmer, self.clusterer, self.scope = f("language"), f("stemmer"), f("word_clusterer"), f("builtin_entity_scope")
        self.builtin, self.custom = (fld(f("shared_resources"), n) for n in ("builtin_entity_parser", "custom_entity_parser"))

    def stem(self, t, facts):
        """The token, when the term is its normalised form, stemmed iff there is a stemmer."""
        has = decide(facts, isv(self.stemmer, "Some"))
        if t.op == "app" and last(t.a[0]) == "stem":
            if t.a[1] is not vfld(self.stemmer, "Some", "0") or has is False:
                return None
            t = t.a[2]
        elif has is not False:
            return None
        if t.op == "app" and last(t.a[0]) == "normalize" and text_elem(t.a[1], self.lang, self.inp):
            return t.a[1]
        return None

    def stems(self, c, facts):
        """Is it the text of all stems, in order?"""
        if not (c.op == "app" and last(c.a[0]) in ("join", "concat_all") and c.a[2] is S(" ")):
            return False
        c = strip_list(c.a[1])
        gs = gens_of(c)
        if gs is None or c.op != "coll":
            return False
        has, own = decide(facts, isv(self.stemmer, "Some")), set()
        for x, conds, b in gs:
            if any(decide(facts, q) is (not p) for q, p in conds):
                continue
            t = self.stem(x, facts | conds)
            if t is None:
                return False
            for q, p in conds:
                if q is isv(self.stemmer, "Some"):
                    continue
                if not (p and q.op == "app" and q.a[0] == "contains" and q.a[2] is t or decide(facts, q) is p):
                    return False
            own.add(decide(facts | conds, isv(self.stemmer, "Some")))
        return (own == {has} or own == {True, False}) and (c.a[2] is None or c.a[2].op == "app" and c.a[2].a[0] in ("o_src", "o_push"))

    def of(self, t, facts):
        """(what kind of word it is, the element it comes from)"""
        x = self.stem(t, facts)
        if x is not None:
            return "stem", x
        x = name_of(t, "builtinentityfeature", self.lang)
        if x is not None and x.op == "app" and last(x.a[0]) == "identifier" and x.a[1].op == "f" and x.a[1].a[1] == "entity_kind" and \
                entities(x.a[1].a[0], self.builtin, (is_(self.inp), some_of(self.scope), lambda a: True, is_int(0))):
            return "builtin entity", x.a[1].a[0]
        x = name_of(t, "entityfeature", self.lang)
        if x is not None and x.op == "f" and x.a[1] == "entity_identifier" and \
                entities(x.a[0], self.custom, (lambda a: self.stems(a, facts), is_none, is_int(0))):
            return "custom entity", x.a[0]
        if t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "app" and last(t.a[0].a[0]) == "get_cluster" and \
                t.a[0].a[1] is vfld(self.clusterer, "Some", "0"):
            y = t.a[0].a[2]
            if y.op == "app" and last(y.a[0]) == "to_lowercase" and y.a[1].op == "f" and y.a[1].a[1] == "0" and y.a[1].a[0].op == "elem":
                g = y.a[1].a[0]
                c = strip_list(g.a[0])
                if c.op == "app" and last(c.a[0]) == "compute_all_ngrams" and len(c.a) == 3:
                    ts = whole(c.a[1])
                    n = c.a[2]
                    if ts.op == "app" and last(ts.a[0]) == "tokenize_light" and ts.a[1] is self.inp and ts.a[2] is self.lang and \
                            n.op == "app" and n.a[0] in ("len", "count") and whole(n.a[1]) is ts:
                        return "word cluster", g
        return None


def weighted(ctx):
    b = ctx.anchor(TFIDF)
    if b is None:
        return
    con, w = "TfidfVectorizer::transform", where(b)
    p = Cells(ctx, b)
    e = p.e
    W = Words(p)
    vocab, idf = fld(W.me, "vocabulary"), fld(W.me, "idf_diag")
    keys = app("keys", vocab)
    counted, weighed = {}, []
    for cells, i, kind, val, st in p.writes:
        if kind[0] == "weigh":
            weighed.append((i, kind[1], st))
            continue
        if kind[0] != "count":
            ctx.ob("every occurrence counts one", con, None if unknowns(val, e, KNOWN) else False, "%s := %s" % (show(i, 3), show(val, 5)), w)
            continue
        if not (i.op == "app" and i.a[0] == "get!" and i.a[1] is vocab):
            ctx.ob("what is counted is at its place in the vocabulary", con, None if unknowns(i, e, KNOWN) else False, show(i, 4), w)
            continue
        k = W.of(i.a[2], st.facts)
        if k is None:
            ctx.ob("stems, entities and clusters of the text are counted, nothing else", con,
                   None if unknowns(i.a[2], e, KNOWN) else False, show(i.a[2], 6), w)
            continue
        ctx.ob("stems, entities and clusters of the text are counted, nothing else", con, True, k[0], w)
        ctx.ob("every occurrence counts one", con, True if fl(kind[1]) == 1.0 else (None if unknowns(val, e, KNOWN) else False),
               show(val, 4), w)
        ctx.ob("all is counted before it is weighted", con, all(c.a[3].a[1] == 0 for c in cells), k[0], w)
        every(ctx, e, k, i.a[2], st, keys, con, w)
        g = (decide(st.facts, isv(W.stemmer, "Some")), k[0])
        counted.setdefault(g, {}).setdefault(untagged(i), []).append((k[1], st))
    for (has, name), by in counted.items():
        els = [(el, st) for xs in by.values() for el, st in xs]
        twice = [1 for el, st in els for el2, _ in els if el2 is not el and el2.a[1] != el.a[1] and
                 any(q and t.op == "app" and t.a[0] == "exhausted" and t.a[2].op == "elem" and t.a[2].a[1].rstrip("~") == el2.a[1].rstrip("~")
                     for t, q in st.facts)]
        ctx.ob("no occurrence is counted twice", con, not twice, name, w)
    for has in (True, False):
        for name in ("stem", "builtin entity", "custom entity", "word cluster"):
            if counted:
                ok = any(n == name and h in (has, None) for h, n in counted)
                ctx.ob("stems, builtin entities, custom entities and clusters are all counted", con,
                       ok or (None if any(o.status == "unk" for o in ctx.obs) else False), "%s, stemmer %s" % (name, has), w)
    ctx.ob("the counting can be followed", con, bool(counted) or None, "", w)
    left_early(ctx, p, con, w)
    weights(ctx, p, W, idf, counted, weighed, con, w)
    answered(ctx, p, W, vocab, con, w)
    failures(ctx, p, con, w)


def every(ctx, e, k, word, st, keys, con, w):
    """Nothing but being in the vocabulary decides whether an occurrence counts."""
    name, el = k
    for t, q in st.facts:
        if not any(y is el for y in subterms(t)) or t.op == "app" and t.a[0] in ("exhausted", "forall"):
            continue
        if t.op == "app" and t.a[0] == "contains" and q and (t.a[2] is el or t.a[1] is keys and t.a[2] is word):
            continue
        if t.op == "is" and name == "word cluster" and q and t.a[0] is word.a[0] or range_bound(t):
            continue
        if (untagged(t), q) in {(untagged(x), y) for x, y in e.survived}:
            continue
        ctx.ob("every occurrence of a word of the vocabulary counts", con, None if unknowns(t, e, KNOWN) else False,
               "only if %s%s" % ("" if q else "not ", show(t, 5)), w)
        return
    o = cuts(e, el)
    h = [x for x in lineage(e, el) if x.op == "app" and any(y.op == "app" and y.a[0] in ("o_hash", "o_unique", "o_unique_by", "o_dedup")
                                                          for y in subterms(x))]
    ctx.ob("every occurrence of a word of the vocabulary counts", con, o is None and not h,
           "%s: %s" % (name, show(o if o is not None else h[0], 4)) if o is not None or h else name, w)


def lineage(e, el):
    """The orders of the collections an element went through."""
    inv = {v: k[0] for k, v in e.freshtab.items()}
    t, seen = el.a[1].rstrip("~"), set()
    while t is not None and t not in seen:
        seen.add(t)
        o = e.orders.get(t)
        if o is not None:
            yield o
        t = inv.get(t)
        t = t.rstrip("~") if t is not None else None


def left_early(ctx, p, con, w):
    its = {it for s, r in results(p.rs) for it in early(p.e, s)}
    ctx.ob("no word is passed over by leaving a loop early", con, not its, "; ".join(show(i, 4) for i in its)[:200], w)


def weights(ctx, p, W, idf, counted, weighed, con, w):
    e = p.e
    done = set()
    for i, o, st in weighed:
        own = o.op == "app" and o.a[0] == "idx" and o.a[1] is idf and o.a[2] is i
        ctx.ob("a count is weighted by the weight of its own word", con, True if own else (None if unknowns(o, e, KNOWN) else False),
               "%s at %s" % (show(o, 4), show(i, 3)), w)
        r = i.op == "elem" and i.a[0].op == "app" and i.a[0].a[0] == "range"
        if r:
            done = None
            continue
        els = [x for x in subterms(i) if x.op == "elem" and not x.a[1].endswith("~") and e.orders.get(x.a[1]) is not None]
        once = [x for x in els if e.orders[x.a[1]].op == "app" and e.orders[x.a[1]].a[0] in ("o_hash", "o_unique")]
        ctx.ob("a count is weighted once", con, True if once else (None if unknowns(i, e, KNOWN) else False), show(i, 4), w)
        if done is not None:
            done.add(untagged(i))
        for t, q in selecting(e, next((s.facts for s, r in results(p.rs)), frozenset()), [(t, q) for t, q in st.facts if any(x in els for x in subterms(t))]):
            if q and t.op == "app" and t.a[0] == "contains" or t.op == "is" or t.op == "app" and t.a[0] in ("exhausted", "forall"):
                continue
            if t.op in ("eq", "ge0", "not") or t.op == "app":
                ctx.ob("every count is weighted", con, None if unknowns(t, e, KNOWN) else False, "only if %s%s" % ("" if q else "not ", show(t, 4)), w)
    want = {u for by in counted.values() for u in by}
    if done is not None and counted:
        miss = want - done
        ctx.ob("every count is weighted", con, True if not miss else (None if not weighed and not followed(p) else False),
               "; ".join(show(x, 5) for x in miss)[:300], w)


def followed(p):
    """Is the answer made from the cells and nothing else?"""
    gs = [g for s, r in results(p.rs) for v in alts(r) for g in gens_of(strip_list(v)) or ((v, (), ()),)]
    return all(not unknowns(x, p.e, KNOWN + ("acc",)) or all(q.op == "phi" for q in unknowns(x, p.e, KNOWN)) for x, c, b in gs)


def answered(ctx, p, W, vocab, con, w):
    e = p.e
    seen, stages = set(), set()
    for s, r in results(p.rs):
        for v in alts(r):
            v = strip_list(v)
            gs = gens_of(v)
            if gs is None or v.op != "coll" or not gs:
                ctx.ob("the answer is the scaled vector", con, None, show(v, 4), w)
                continue
            for x, conds, b in gs:
                num_, den = (x.a[1], x.a[2]) if x.op == "app" and x.a[0] == "fdiv" else (x, None)
                cs = p.cells(num_.a[0]) if num_.op == "elem" else []
                if not cs:
                    ctx.ob("the answer is the scaled vector", con, None if unknowns(x, e, KNOWN) else False, show(x, 5), w)
                    continue
                o = v.a[2]
                ctx.ob("the answer is the scaled vector", con, True if o is not None and o.op == "app" and o.a[0] == "o_src" and cuts(e, num_) is None
                       else (None if o is None else False), show(o, 3) if o is not None else "", w)
                sel = [t for t, q in selecting(e, s.facts, conds) if not (q and t.op == "app" and t.a[0] == "contains")]
                ctx.ob("no number is left out", con, not sel or (None if any(unknowns(t, e, KNOWN) for t in sel) else False),
                       "; ".join(show(t, 4) for t in sel), w)
                stages |= {c.a[3].a[1] for c in cs}
                for c in cs:
                    size(ctx, e, s, c, vocab, con, w)
                    ctx.ob("counting starts at nought", con, fl(c.a[1]) == 0.0, show(c.a[1], 3), w)
                scaled(ctx, p, s, den, cs, con, w, seen)
    ctx.ob("the numbers are the weighted counts", con, None if not stages or max(stages) > 1 else 1 in stages, str(sorted(stages)), w)
    ctx.ob("vectors of some length and of none are both followed", con, True if seen == {True, False} else None, str(seen), w)


def size(ctx, e, s, c, vocab, con, w):
    """One more than the greatest place in the vocabulary"""
    n = c.a[2]
    g = sub(n, C("int", 1))
    ok = any(q and t.op == "app" and t.a[0] == "max_of" and t.a[2] is g for t, q in s.facts) and g.op == "app" and g.a[0] == "get!" and g.a[1] is vocab
    big = n.op == "app" and n.a[0] == "len" and n.a[1] is fld_of(vocab, "idf_diag")
    ctx.ob("there is a place for every word of the vocabulary", con, True if ok or big else (None if unknowns(n, e, KNOWN) else False), show(n, 4), w)


def fld_of(v, name):
    return fld(v.a[0], name) if v.op == "f" else None


def scaled(ctx, p, s, den, cs, con, w, seen):
    """Divided by the root of the sum of squares, or by one when that is nought."""
    e = p.e
    norms = {}
    for t, q in s.facts:
        if t.op == "app" and t.a[0] in ("flt", "fle", "feq", "eq") or t.op == "eq":
            for y in subterms(t):
                n = sum_of_squares(p, y)
                if n is not None:
                    norms[y] = n
    if den is None or fl(den) == 1.0:
        roots = [t for t, q in s.facts if zero_norm(t, q, norms)]
        ctx.ob("only a vector of noughts is not scaled", con, True if roots else (None if any(unknowns(t, e, KNOWN) for t, q in s.facts) and not norms else False),
               "; ".join(show(t, 4) for t, q in s.facts if any(y in norms for y in subterms(t)))[:200], w)
        seen.add(False)
        return
    n = sum_of_squares(p, den)
    good = n == "root"
    ctx.ob("the vector is scaled to unit length", con, True if good else (None if unknowns(den, e, KNOWN + ("phi",)) and n is None and
                                                                           not understood(p, den) else False), show(den, 5), w)
    if good:
        st = {c.a[3].a[1] for c in square_cells(p, den)}
        ctx.ob("the length is that of the weighted counts", con, None if max(st) > 1 else 1 in st, show(den, 4), w)
        seen.add(True)


def zero_norm(t, q, norms):
    """Does the fact say that the norm is not positive?"""
    if t.op == "app" and t.a[0] in ("flt", "fle"):
        a, b = t.a[1], t.a[2]
        if fl(a) == 0.0 and b in norms and t.a[0] == "flt":
            return not q
        if fl(b) == 0.0 and a in norms and t.a[0] == "fle":
            return q
    if t.op == "eq" or t.op == "app" and t.a[0] == "feq":
        a, b = t.a[-2:]
        return q and (fl(a) == 0.0 and b in norms or fl(b) == 0.0 and a in norms)
    return False


def sum_of_squares(p, t):
    """"root" for the root of the sum of the squares of the cells, "sum" for that sum, else None"""
    if t.op == "app" and last(t.a[0]) == "sqrt":
        return "root" if sum_of_squares(p, t.a[1]) == "sum" else None
    return "sum" if square_cells(p, t) else None


def understood(p, t):
    """Is the accumulator of a fold one whose every step is understood?"""
    for q in subterms(t):
        if q.op == "phi":
            for x, f in p.e.candidates(q) or ():
                if any(y.op in ("top",) or y.op == "app" and y.a[0] in p.e.unknown_names for y in subterms(x)):
                    return False
    return True


def square_cells(p, t):
    if t.op == "app" and last(t.a[0]) == "sqrt":
        t = t.a[1]
    if t.op == "app" and t.a[0] in ("sum", "fsum"):
        gs = gens_of(strip_list(t.a[1]))
        vals = [(x, None) for x, c, b in gs or ()]
        acc = None
    elif t.op == "phi":
        acc = t
        vals = [(x, f) for x, f in p.e.candidates(t) or ()] + [(x, f) for x, f in p.e.steps_of(t)]
    else:
        return set()
    out, n = set(), 0
    for x, f in vals:
        if fl(x) == 0.0:
            continue
        ts = plus(x)
        sq = []
        for y in ts:
            if y.op == "phi" and acc is not None and y.a[0].rstrip("~") == acc.a[0].rstrip("~") and y.a[1] == acc.a[1] or fl(y) == 0.0:
                continue
            sq.append(y)
        if len(sq) != 1:
            return set()
        y = sq[0]
        if y.op == "app" and last(y.a[0]) in ("powi", "powf") and (fl(y.a[2]) == 2.0 or y.a[2] is C("int", 2)):
            a = b = y.a[1]
        elif y.op == "app" and y.a[0] in ("fmul", "mul") and len(y.a) == 3:
            a, b = y.a[1:]
        else:
            return set()
        if a is not b or a.op != "elem" or not p.cells(a.a[0]) or cuts(p.e, a) is not None:
            return set()
        n += 1
        out |= set(p.cells(a.a[0]))
    return out


def plus(t):
    if t.op == "app" and t.a[0] in ("fadd", "add"):
        return [y for x in t.a[1:] for y in plus(x)]
    return [t]


def failures(ctx, p, con, w):
    """A failing entity parser is the answer."""
    n = 0
    for s, r in p.rs:
        if r.op == "en" and r.a[1] == "Err":
            x = r.a[3][0]
            ok = x.op == "vf" and x.a[1] == "Err" and x.a[0].op == "app" and last(x.a[0].a[0]) == "extract_entities"
            n += 1
            ctx.ob("a failing entity parser is the answer", con, True if ok else (None if unknowns(x, p.e, KNOWN) else False), show(r, 3), w)
        else:
            bad = [t for t, q in s.facts if t.op == "is" and t.a[1] == "Ok" and not q and t.a[0].op == "app" and last(t.a[0].a[0]) == "extract_entities"]
            ctx.ob("a failing entity parser is the answer", con, not bad, "; ".join(show(t, 3) for t in bad), w)


# ------------------------------------------------------------------ pairs of words

def pairs(ctx):
    b = ctx.prog.find(COOC, optional=True)
    rep = ctx.prog.find("utils::replace_entities", optional=True)
    if b is None or rep is None:
        ctx.ob("the numbers of word pairs can be followed", "CooccurrenceVectorizer", None, "transform or replace_entities not found")
        return
    con, w = "CooccurrenceVectorizer::transform", where(b)
    label = sym("label")
    named = []

    def replace(e, st, args, site, fn):
        if len(args) == 3:
            named.append((e, [r for s, r in e.call_value(st, args[2], [label], site)]))
        return None
    p = Cells(ctx, b, opaque={rep["id"]}, hooks={rep["id"]: replace, rep["path"]: replace})
    e = p.e
    me, inp = p.ps[:2]
    f = lambda n: fld(me, n)
    lang, wp = f("language"), f("word_pairs")
    ready = set()
    texts = set()
    got = []
    for cells, i, kind, val, st in p.writes:
        if kind != ("set", 1.0):
            ctx.ob("a pair that occurs counts one", con, None if unknowns(val, e, KNOWN) else False, show(val, 4), w)
            continue
        ctx.ob("a pair that occurs counts one", con, True, "", w)
        if not (i.op == "app" and i.a[0] == "get!" and i.a[1] is wp and i.a[2].op == "st" and len(i.a[2].a[2]) == 2):
            ctx.ob("a pair counts at its own place", con, None if unknowns(i, e, KNOWN) else False, show(i, 4), w)
            continue
        ctx.ob("a pair counts at its own place", con, True, "", w)
        got.append((i.a[2].a[2], st))
    ctx.ob("the pairs can be followed", con, bool(got) or None, "", w)
    ok = True
    for (a, c), st in got:
        if not pair(ctx, p, a, c, st, lang, texts, con, w):
            ok = False
    if ok and got:
        window(ctx, p, got, con, w)
        ordered(ctx, p, got, con, w)
        kept(ctx, p, got, con, w)
    for t in texts:
        replaced(ctx, p, t, inp, con, w)
    for en, rs in named:
        for v in rs:
            good = v.op == "app" and last(v.a[0]) in ("to_uppercase", "uppercase") and v.a[1].op == "app" and last(v.a[1].a[0]) in ("join", "concat_all") \
                and (len(v.a[1].a) == 2 or v.a[1].a[2] is S("")) and v.a[1].a[1].op == "app" and last(v.a[1].a[1].a[0]) == "tokenize_light" and \
                v.a[1].a[1].a[1] is label and v.a[1].a[1].a[2] is lang
            ctx.ob("an entity stands in the text as its name in capitals", con, True if good else (None if unknowns(v, e, KNOWN) else False),
                   show(v, 5), w)
    for s, r in results(p.rs):
        for v in alts(r):
            cs = p.cells(v)
            ctx.ob("the answer has one number per pair", con, True if cs and all(c.a[2].op == "app" and c.a[2].a[0] == "len" and c.a[2].a[1] is wp
                   for c in cs) else (None if unknowns(v, e, KNOWN) or not cs else False), show(v, 4), w)
            for c in cs:
                ctx.ob("a pair that does not occur counts nought", con, fl(c.a[1]) == 0.0, show(c.a[1], 3), w)
    left_early(ctx, p, con, w)
    failures(ctx, p, con, w)


def tokens_of(t, lang):
    """The text, when the term is one of its tokens."""
    if t.op != "elem":
        return None
    c = strip_list(t.a[0])
    return c.a[1] if c.op == "app" and last(c.a[0]) == "tokenize_light" and c.a[2] is lang else None


def sides(p, a, c):
    """(the word nearer the start, the range its partner is taken from, the list that range is of) for the two words of a
    pair, whichever comes first in it"""
    for x, y in ((a, c), (c, a)):
        if y.op == "elem" and y.a[0].op == "app" and y.a[0].a[0] == "slice" and len(y.a[0].a) == 3 and y.a[0].a[2].op == "app" and \
                y.a[0].a[2].a[0] == "range" and x.op == "elem":
            return x, y
    return None


def pair(ctx, p, a, c, st, lang, texts, con, w):
    k = sides(p, a, c)
    t = tokens_of(k[0], lang) if k is not None else None
    if t is None:
        ctx.ob("a pair is two words of the text with its entities replaced", con,
               None if k is None or unknowns(tup(a, c), p.e, KNOWN) else False, "%s, %s" % (show(a, 4), show(c, 4)), w)
        return False
    ws = k[1].a[0].a[1]
    gs = gens_of(strip_list(ws))
    ok = gs and all(x.op == "elem" and tokens_of(x, lang) is t for x, cs, b in gs)
    o = strip_list(ws).a[2] if strip_list(ws).op == "coll" else None
    cut = o is not None and (cut_of(o) is not None or o.op == "app" and o.a[0] in ("o_rev", "o_sorted", "o_hash", "o_insert"))
    ctx.ob("a pair is two words of the text with its entities replaced", con,
           False if cut or cuts(p.e, k[0]) is not None else (True if ok else (None if unknowns(ws, p.e, KNOWN) else False)), show(ws, 5), w)
    texts.add(t)
    own(ctx, p, a, c, k, st, con, w)
    return bool(ok)


def own(ctx, p, a, c, k, st, con, w):
    """Nothing but being saved decides whether a pair counts (what leaves words out is looked at apart)."""
    me = p.ps[0]
    filt, unk = fld(me, "filter_stop_words"), fld(me, "unknown_words_replacement_string")
    surv = {(untagged(x), q) for x, q in p.e.survived}
    for t, q in st.facts:
        x = t.a[0] if t.op == "not" else t
        if not any(y in k for y in subterms(t)) or x.op == "app" and x.a[0] in ("exhausted", "forall") or (untagged(t), q) in surv:
            continue
        if x.op == "app" and (x.a[0] == "contains" and (x.a[2] in k or x.a[2] is tup(a, c) and x.a[1] is app("keys", fld(me, "word_pairs"))) or
                              compares(x, True, k[0], k[1], 0) is not None):
            continue
        if x.op == "ge0" and not any(y in k for y in outside(x, ("pos",))) or x.op == "eq" and (unk in x.a or vfld(unk, "Some", "0") in x.a) or compares(x, True, k[0], k[1], 0) is not None:
            continue
        ctx.ob("every saved pair of the text counts", con, None if unknowns(t, p.e, KNOWN) else False, "only if %s%s" % ("" if q else "not ", show(t, 5)), w)
        return
    ctx.ob("every saved pair of the text counts", con, True, "", w)


def conditions(p, st, els):
    return [(t, q) for t, q in st.facts if any(y in els for y in subterms(t)) and not (t.op == "app" and t.a[0] in ("exhausted", "forall", "contains"))]


def position(t, x):
    return t.op == "app" and t.a[0] == "pos" and t.a[2] is x


def window(ctx, p, got, con, w):
    """The partners of the word at i are those at i+1 .. i+window, within the text."""
    me = p.ps[0]
    ws = fld(me, "window_size")
    size_ = vfld(ws, "Some", "0")
    for (a, c), st in got:
        x, y = sides(p, a, c)
        lo, hi = y.a[0].a[2].a[1:3]
        F = y.a[0].a[1]
        has = decide(st.facts, isv(ws, "Some"))
        ok, bad = True, None
        for n in (1, 2, 3, 4, 9, 40):
            for i in range(n):
                for k in range(0, 4):
                    def leaf(t):
                        if position(t, x):
                            return i
                        if t.op == "app" and t.a[0] in ("len", "count") and t.a[1].op == "coll":
                            return n
                        if t is size_:
                            return k
                        return None
                    env = Env(leaf)
                    l, h = num(lo, env.get), num(hi, env.get)
                    if l is None or h is None:
                        ok = None
                        continue
                    for hs in ((True, False) if has is None else (has,)):
                        want = range(i + 1, min(i + 1 + k, n) if hs else n)
                        if set(range(int(l), int(h))) != set(want):
                            bad = "word %d of %d, window %s: %d..%d" % (i, n, k if hs else "none", l, h)
        ctx.ob("a word is paired with those within the window after it", con, False if bad else ok, bad or "%s .. %s" % (show(lo, 4), show(hi, 4)), w)


class Env:
    def __init__(self, f):
        self.f = f

    def get(self, t, d=None):
        v = self.f(t)
        return d if v is None else v


def ordered(ctx, p, got, con, w):
    """In the order of the text when it is kept, else the smaller word first."""
    keep = fld(p.ps[0], "keep_order")
    for kp in (True, False):
        for rel in (-1, 0, 1):
            for wn in (True, False):
                seen = set()
                for (a, c), st in got:
                    x, y = sides(p, a, c)
                    if decide(st.facts, keep) is (not kp) or decide(st.facts, isv(fld(p.ps[0], "window_size"), "Some")) is (not wn):
                        continue
                    if all(compares(t, q, x, y, rel) is not False for t, q in st.facts):
                        seen.add((a, c) == (x, y))
                want = {True} if kp or rel < 0 else ({False} if rel > 0 else None)
                ok = bool(seen) if want is None else seen == want
                ctx.ob("a pair is in the order of the text when that is kept, else in alphabetical order", con, ok,
                       "keep_order %s, first word %s second: pair as in the text %s" % (kp, "<=>"[rel + 1], sorted(seen)), w)


def compares(t, q, x, y, rel):
    """Does a fact hold of two words compared as given?  (None: it is not about that)"""
    if t.op == "not":
        r = compares(t.a[0], not q, x, y, rel)
        return r
    if t.op == "eq" and {t.a[0], t.a[1]} == {x, y}:
        return (rel == 0) is q
    if t.op == "app" and t.a[0].startswith("cmp:") and len(t.a) == 3:
        if t.a[1] is x and t.a[2] is y:
            r = rel
        elif t.a[1] is y and t.a[2] is x:
            r = -rel
        else:
            return None
        v = {"Lt": r < 0, "Le": r <= 0, "Gt": r > 0, "Ge": r >= 0}.get(t.a[0][4:])
        return None if v is None else v is q
    return None


def kept(ctx, p, got, con, w):
    """A word is left out iff it is a stop word (when these are filtered) or stands for unknown words."""
    me = p.ps[0]
    filt, unk = fld(me, "filter_stop_words"), fld(me, "unknown_words_replacement_string")
    stop = fld(fld(me, "shared_resources"), "stop_words")
    done = set()
    for (a, c), st in got:
        x, y = sides(p, a, c)
        F = strip_list(y.a[0].a[1])
        if F in done:
            continue
        done.add(F)
        for fs in (True, False):
            for is_stop in (True, False):
                for u in (True, False):
                    def val(t, el):
                        if t.op == "not":
                            v = val(t.a[0], el)
                            return None if v is None else not v
                        if t is filt:
                            return fs
                        if t.op == "app" and t.a[0] == "contains" and t.a[2] is el:
                            return is_stop if t.a[1] is stop else True
                        if t.op == "eq" and unk in t.a and any(z is el for z in subterms(t)):
                            return u
                        if t.op == "eq" and vfld(unk, "Some", "0") in t.a and el in t.a:
                            return u
                        if t.op == "is" and t.a[0] is unk:
                            return True if u else "either"
                        return None
                    res = []
                    for el, conds, b in gens_of(F):
                        vs = [(val(t, el), q) for t, q in conds if any(z is el or z is unk for z in subterms(t)) or t is filt]
                        vs = [(v, q) for v, q in vs if v != "either"]
                        res.append(False if any(v is (not q) for v, q in vs) else (None if any(v is None for v, q in vs) else True))
                    got_ = True if True in res else (None if None in res else False)
                    want = not (fs and is_stop) and not u
                    ctx.ob("stop words and unknown words are left out, and no other", con, got_ if got_ is None else got_ is want,
                           "filter %s, stop word %s, unknown %s: kept %s" % (fs, is_stop, u, got_), w)


def replaced(ctx, p, t, inp, con, w):
    """The text the words are of is the input with all its entities replaced."""
    e = p.e
    me = p.ps[0]
    sr = fld(me, "shared_resources")
    if not (t.op == "f" and t.a[1] == "1" and t.a[0].op == "app" and last(t.a[0].a[0]) == "replace_entities" and len(t.a[0].a) == 4):
        ctx.ob("the words are those of the text with its entities replaced", con, None if unknowns(t, e, KNOWN) else False, show(t, 4), w)
        return
    txt, ents = t.a[0].a[1:3]
    ctx.ob("the words are those of the text with its entities replaced", con, txt is inp, show(txt, 3), w)
    gs = gens_of(strip_list(ents))
    if gs is None:
        ctx.ob("all builtin and custom entities are replaced", con, None, show(ents, 4), w)
        return
    seen = set()
    for x, conds, b in gs:
        els = [y for y in subterms(x) if y.op == "elem"]
        el = els[0] if len(set(els)) == 1 else None
        k = None
        if el is not None and entities(el, fld(sr, "builtin_entity_parser"), (is_(inp), some_of(fld(me, "builtin_entity_scope")), lambda a: True, is_int(0))):
            k, n = "builtin", lambda q: q.op == "app" and last(q.a[0]) == "identifier" and q.a[1] is fld(el, "entity_kind")
        elif el is not None and entities(el, fld(sr, "custom_entity_parser"), (is_(inp), is_none, is_int(0))):
            k, n = "custom", lambda q: q is fld(el, "entity_identifier")
        if k is None:
            ctx.ob("all builtin and custom entities are replaced", con, None if unknowns(x, e, KNOWN) else False, show(x, 5), w)
            continue
        good = n(bare_text(fld(x, "entity_name"))) and fld(x, "range") is fld(el, "range")
        sel = [c for c, q in conds if any(y is el for y in subterms(c)) and not (q and c.op == "app" and c.a[0] == "contains")]
        ctx.ob("all builtin and custom entities are replaced", con, (None if unknowns(x, e, KNOWN) else False) if not good or sel or cuts(e, el) is not None else True,
               "%s: %s %s" % (k, show(x, 4), "; ".join(show(c, 3) for c in sel)), w)
        seen.add(k)
    o = strip_list(ents).a[2] if strip_list(ents).op == "coll" else None
    ctx.ob("all builtin and custom entities are replaced", con, True if seen == {"builtin", "custom"} and (o is None or cut_of(o) is None) else
           (None if any(unknowns(x, e, KNOWN) for x, c, b in gs) else False), str(sorted(seen)), w)


def bare_text(t):
    while t.op == "app" and last(t.a[0]) in ("to_string", "into", "to_owned", "clone") and len(t.a) == 2:
        t = t.a[1]
    return t
