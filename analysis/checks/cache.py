"""C20: what the caching entity parsers answer, and where in the text."""
from itertools import product

from ..check import check, where
from ..engine import decide
from ..lib import *
from ..models import cut_of
from ..terms import *
from .features import debare
from .loading import last
from .patterns import unknowns
from .replace import narrow

LOOKUPS, SHIFTS = ("get_mut", "get", "peek"), "compute_char_shifts"
KNOWN = LOOKUPS + ("extract_entities", SHIFTS, "to_lowercase", "tokenize", "join", "idx")


def under(facts, t):
    """A term in which an optional parameter whose presence is known is written out."""
    m = {}
    for c, p in facts:
        if c.op == "is" and c.a[1] == "Some" and c.a[0].op == "s":
            m[c.a[0]] = enum(OPT, "Some", ("0",), (vfld(c.a[0], "Some", "0"),)) if p else enum(OPT, "None", (), ())
    return subst(t, m) if m else t


def pieces(key):
    """The terms a key tells apart."""
    out = []

    def walk(t):
        out.append(t)
        out.append(copied(t))
        if t.op == "st":
            for y in t.a[2]:
                walk(y)
        elif t.op == "en" and t.a[1] in ("Some", "None"):
            for y in t.a[3]:
                walk(y)
        elif t.op == "list":
            for y in t.a[1]:
                walk(y)
    walk(key)
    return out


def copied(t):
    """The sequence a collection is an element by element copy of."""
    t = strip_list(t)
    if t.op == "coll" and len(t.a[1]) == 1:
        x, conds, bnd = t.a[1][0]
        if x.op == "elem" and x.a[1] in bnd and t.a[2].op == "app" and t.a[2].a[0] == "o_src" and t.a[2].a[1] is x.a[0] and \
                all(p and c.op == "app" and c.a[0] == "contains" and c.a[1] is x.a[0] for c, p in conds):
            return x.a[0]
    return t


def left_over(v, key, ps):
    """Parameters a value depends on other than through the key."""
    m = {k: sym("·key") for k in pieces(key) if k.op != "c"}
    x = subst(v, m)
    return [p for p in ps if any(y is p for y in subterms(x))]


class Parser:
    def __init__(self, ctx, trait, names):
        self.ctx, self.trait = ctx, trait
        impls = ctx.prog.trait_impls(trait, "extract_entities")
        ctx.floor("implementations of %s" % trait, len(impls), 1)
        self.impls = []
        for ty, b in impls:
            ps = params(b)
            if len(ps) != len(names) + 1:
                ctx.ob("the signature is known", "%s for %s" % (trait, ty), None, "%d parameters" % len(ps), where(b))
                continue
            self.impls.append((ty, b, ps))


def asked(v):
    """The call of the parser behind: (application, its arguments)."""
    return v if v.op == "app" and last(v.a[0]) == "extract_entities" and len(v.a) == 5 else None


def field_type(ctx, ty, name):
    a = ctx.prog.adts.get(ty.split("<")[0])
    for f in (a["variants"][0]["fields"] if a else ()):
        if f["name"] == name:
            return str(f.get("ty") or "")
    return ""


def implementation(ctx, ty, b, ps, custom):
    con, w = "extract_entities of %s" % ty.split("::")[-1], where(b)
    sh = ctx.prog.find(SHIFTS, optional=True) if custom else None
    lookups, inserts = [], []

    def look(e, st, args, site, fn):
        lookups.append((e.deep(st, args[0]), e.deep(st, args[1])))
        return None

    def put(e, st, args, site, fn):
        inserts.append((e.deep(st, args[0]), e.deep(st, args[1]), e.deep(st, args[2]), st.facts))
        return None
    hooks = {"LruCache::%s" % n: look for n in LOOKUPS}
    hooks["LruCache::insert"] = put
    e, rs = ctx.run(b, ps, hooks=hooks, opaque={sh["id"]} if sh is not None else ())
    if custom:
        me, text, kinds, top = ps
    else:
        me, text, kinds, _, top = ps
    lowered = app("to_lowercase", text)
    fresh = 0
    remembered = 0

    def call(t, st):
        """Is it what the parser behind finds in the text, for the kinds and the number of alternatives asked for?"""
        f, x, k, n = t.a[1:]
        ctx.ob("the loaded parser is asked", con, f.op == "f" and f.a[0] is me or None, show(f, 4), w)
        if custom:
            good = cleaned(ctx, e, con, w, x, lowered)
        else:
            good = x is lowered
            if not good:
                ctx.ob("entities are searched in the lower-cased text", con, None if unknowns(x, e, KNOWN) else False, show(x, 5), w)
        if good:
            ctx.ob("entities are searched in the lower-cased text", con, True, "", w)
        a, z = under(st.facts, k), under(st.facts, kinds)
        ctx.ob("only the kinds asked for are searched", con, a is z or (None if unknowns(a, e, KNOWN) else False), show(k, 5), w)
        ctx.ob("as many alternatives are resolved as asked for", con, n is top or (None if unknowns(n, e, KNOWN) else False), show(n, 5), w)

    def found(v, st):
        """Is it the Ok payload of such a call, with its ranges put back?  (call, seen) or None"""
        if v.op in ("vf", "pay") and v.op == "vf" and v.a[1] == "Ok" and asked(v.a[0]) is not None:
            if custom:
                ctx.ob("ranges are put back into the text", con, False, "unchanged ranges", w)
            return v.a[0]
        if not custom:
            return None
        return mapped(ctx, e, con, w, v, sh)

    for s, r in rs:
        for v in alts(r):
            if asked(v) is not None and not custom:
                call(v, s)
                fresh += 1
                continue
            if v.op != "en":
                ctx.ob("the answer can be followed", con, None, show(v, 6), w)
                continue
            if v.a[1] == "Err":
                x = v.a[3][0]
                c = [y for y in subterms(x) if y.op == "vf" and y.a[1] == "Err" and asked(y.a[0]) is not None]
                ctx.ob("a failure of the parser is the answer", con, bool(c) or (None if unknowns(x, e, KNOWN) else False), show(x, 5), w)
                continue
            bad = [t for t, p in s.facts if t.op == "is" and t.a[1] in ("Ok", "Err") and asked(t.a[0]) is not None and p is (t.a[1] == "Err")]
            if bad:
                ctx.ob("a failure of the parser is the answer", con, False, "%s is answered" % show(v, 5), w)
                continue
            x = v.a[3][0]
            if x.op == "vf" and x.a[1] == "Some" and x.a[0].op == "app" and last(x.a[0].a[0]) in LOOKUPS:
                remembered += 1
                ctx.ob("what was remembered is answered as it is", con, True, "", w)
                continue
            if x.op == "list" and not x.a[1] or x.op == "coll" and not x.a[1]:
                # nothing found: there is no token to search in
                ok = x.op == "coll" and any(asked(y) is not None for y in subterms(x))
                ctx.ob("nothing is answered only when nothing is found", con, ok or (True if no_tokens(s.facts) else False), show(x, 5), w)
                continue
            kept = [y for y in subterms(x) if y.op == "elem" and y.a[0].op == "app" and last(y.a[0].a[0]) in ("iter", "iter_mut", "values", "into_iter")
                    and any(z.op == "f" and z.a[0] is me and "Cache" in field_type(ctx, ty, z.a[1]) for z in subterms(y.a[0]))]
            if kept and any(p and t.op == "eq" and any(y in subterms(q) for y in kept for q in t.a) for t, p in s.facts):
                ctx.ob("what was remembered is looked up by its key", con, None, show(x, 5), w)      # one whose key is said to be some key
                continue
            if kept:
                ctx.ob("what was remembered is looked up by its key", con, False, show(x, 5), w)
                continue
            c = found(x, s)
            if c is None:
                sees = any(y.op == "app" and last(y.a[0]) in LOOKUPS for y in subterms(x))
                ctx.ob("what was remembered is answered as it is" if sees else "what the parser finds is answered", con,
                       None if unknowns(x, e, KNOWN) else False, show(x, 6), w)
                continue
            ctx.ob("what the parser finds is answered", con, True, "", w)
            fresh += 1
            call(c, s)
    ctx.ob("answers of the parser can be followed", con, fresh > 0 or None, "%d" % fresh, w)
    # the cache
    kt = set()
    for c, k, v, facts in inserts:
        if k.op == "st" and k.a[0] != "()":
            kt.add(k.a[0])
        if k.op == "app" or k.op == "top":
            ctx.ob("the key of a remembered answer can be followed", con, None, show(k, 5), w)
            continue
        vs = v.a[0] if v.op == "vf" and v.a[1] == "Ok" else None
        calls = [y for y in subterms(v) if asked(y) is not None]
        if not calls and (v.op == "list" and not v.a[1] or v.op == "coll" and not v.a[1]) and no_tokens(facts):
            ctx.ob("only what the parser found is remembered", con, True, "nothing, where there is nothing to search in", w)
            continue
        if not calls:
            ctx.ob("only what the parser found is remembered", con, None if unknowns(v, e, KNOWN) else False, show(v, 5), w)
            continue
        ctx.ob("only what the parser found is remembered", con, True, "", w)
        fact_bad = [t for t, p in facts if t.op == "is" and asked(t.a[0]) is not None and p is (t.a[1] == "Err")]
        ctx.ob("a failure is not remembered", con, not fact_bad, show(v, 4), w)
        rest = left_over(under(facts, v), under(facts, k), ps[1:])
        ctx.ob("the key of a remembered answer holds all it depends on", con, not rest, "besides the key %s, the answer depends on %s" %
               (show(k, 4), ", ".join(show(p) for p in rest)), w)
        same = [(c2, k2) for c2, k2 in lookups if root(c2) is root(c)]
        ctx.ob("answers are looked up by the key they are remembered by", con,
               all(any(shape(k2) == shape(k3) for _, k3, _, _ in inserts) for c2, k2 in same) if same else True,
               show(k, 4), w)
    for c, k in lookups:
        ctx.ob("an answer is looked up only where answers are remembered", con,
               any(root(c) is root(c2) for c2, _, _, _ in inserts) or (None if not inserts else False), show(c, 4), w)
    for t in sorted(kt):
        equality(ctx, t)
    return fresh, remembered


def shape(k):
    """The key, whichever kinds were asked for."""
    m = {}
    for y in subterms(k):
        if y.op == "en" and y.a[1] == "None":
            m[y] = sym("·opt")
        elif y.op == "en" and y.a[1] == "Some":
            z = y.a[3][0]
            m[y] = sym("·opt")
        elif y.op == "s":
            pass
    return subst(k, m)


def root(c):
    while c.op == "app" and c.a[0] == "after" or c.op == "f":
        c = c.a[1] if c.op == "app" else c.a[0]
        if c.op == "app" and last(c.a[0]) in LOOKUPS + ("insert",):
            c = c.a[1]
    return c


def no_tokens(facts):
    return any(p and t.op == "eq" and any(y.op == "app" and y.a[0] == "len" and any(last(q.a[0]) == "tokenize" for q in subterms(y) if q.op == "app")
                                          for y in t.a) for t, p in facts)


def equality(ctx, t):
    """Keys that compare equal are equal in every field."""
    name = t.split("<")[0]
    for ty, b in ctx.prog.trait_impls("PartialEq", "eq"):
        if ty.split("<")[0] != name:
            continue
        con, w = "equality of %s" % name.split("::", 1)[-1], where(b)
        ps = params(b)
        a = ctx.prog.adts.get(name)
        fields = [f["name"] for f in a["variants"][0]["fields"]] if a else None
        if not fields:
            ctx.ob("the fields of a key are known", con, None, name, w)
            return
        e, rs = ctx.run(b, ps)
        n = 0
        for s, r in rs:
            for v in alts(r):
                if v is FALSE:
                    continue
                n += 1
                fs = set(s.facts) | ({(v, True)} if v is not TRUE else set())
                for f in fields:
                    x, y = fld(ps[0], f), fld(ps[1], f)
                    g = eq(x, y)
                    ok = any(t2 is g and p for t2, p in fs) or decide(frozenset(fs), g) is True
                    seen = [t2 for t2, p in fs if any(q is x for q in subterms(t2)) and unknowns(t2, e, KNOWN)]
                    ctx.ob("equal keys are equal in every field", con, ok or (None if seen else False), f, w)
        ctx.ob("equality of keys can be followed", con, n > 0 or None, "%d" % n, w)
        return


# ------------------------------------------------------------------ the text of custom entities

CHARS = ("is_alphanumeric", "is_alphabetic", "is_numeric", "is_ascii_punctuation", "is_ascii_alphanumeric", "is_ascii_digit", "is_ascii_alphabetic",
         "is_ascii", "is_digit", "is_lowercase", "is_uppercase", "is_control")


def cleaned(ctx, e, con, w, x, lowered):
    """Is it the tokens of the lower-cased text, joined by single blanks?"""
    rule = "entities are searched in the tokens, joined by blanks"
    if not (x.op == "app" and last(x.a[0]) == "join" and len(x.a) == 3):
        ctx.ob(rule, con, None if unknowns(x, e, KNOWN) else False, show(x, 6), w)
        return False
    ctx.ob(rule, con, x.a[2] is C("str", " ") or x.a[2] is C("char", " ") or show(x.a[2]) in ("' '", '" "'), show(x.a[2]), w)
    gs = gens_of(x.a[1])
    if not gs or len(gs) != 1:
        ctx.ob(rule, con, None, show(x, 6), w)
        return False
    v, conds, bnd = gs[0]
    el = v.a[0] if v.op == "f" else v
    toks = tokens_of(el.a[0], lowered) if el.op == "elem" else None
    if toks is None or v.op != "f" or v.a[1] != "value":
        ctx.ob(rule, con, None if unknowns(v, e, KNOWN) else False, show(v, 6), w)
        return False
    more = selecting(e, frozenset(), [c for c in conds if not (c[0].op == "app" and c[0].a[0] == "contains")])
    ctx.ob(rule, con, (None if more and any(unknowns(t, e, KNOWN + CHARS) for t, p in more) else not more), "; ".join(show(t, 4) for t, p in more or ()), w)
    o = x.a[1].a[2] if x.a[1].op == "coll" else None
    ctx.ob(rule, con, True if o is not None and o.op == "app" and o.a[0] == "o_src" and strip_list(o.a[1]) is el.a[0] else
           (False if o is not None and (cut_of(o) or o.op == "app" and o.a[0] == "o_rev") else None), show(o, 5) if o is not None else "", w)
    return True


def tokens_of(t, lowered=None):
    """The text whose tokens the term is."""
    if t.op == "app" and last(t.a[0]) in ("tokenize", "tokenize_light") and len(t.a) >= 2 and (lowered is None or t.a[1] is lowered):
        return t
    return None


def mapped(ctx, e, con, w, v, sh):
    """The entities found, with ranges put back: the call they come from."""
    gs = gens_of(v)
    if not gs:
        return None
    calls = set()
    for x, conds, bnd in gs:
        els = [y for y in subterms(x) if y.op == "elem" and y.a[0].op == "vf" and y.a[0].a[1] == "Ok" and asked(y.a[0].a[0]) is not None]
        if len(set(els)) != 1:
            return None
        el = els[0]
        calls.add(el.a[0].a[0])
        for f in ("value", "raw_value", "entity_identifier", "entity_kind", "resolved_value", "alternatives", "alternative_resolved_values"):
            y = fld(x, f)
            if y is not fld(el, f):
                ctx.ob("what is found stays as it is but for its range", con, None if unknowns(y, e, KNOWN) else False, "%s: %s" % (f, show(y, 4)), w)
        more = selecting(e, frozenset(), [c for c in conds if not (c[0].op == "app" and c[0].a[0] == "contains")])
        more = [c for c in more or () if any(y is el for y in subterms(c[0]))]
        ctx.ob("every entity found is answered", con, None if any(unknowns(t, e, KNOWN) for t, p in more) else not more, "; ".join(show(t, 4) for t, p in more), w)
        rng = fld(x, "range")
        nw = narrow(rng)
        ctx.ob("positions fit the integers they are computed in", con, not nw, ", ".join(nw), w)
        if rng is fld(el, "range"):
            ctx.ob("ranges are put back into the text", con, False, "unchanged ranges", w)
            continue
        rng = debare(rng)
        lo, hi = fld(rng, "start"), fld(rng, "end")
        st, en = fld(fld(el, "range"), "start"), fld(fld(el, "range"), "end")
        tab = {y.a[1] for y in subterms(rng) if y.op == "app" and y.a[0] == "idx" and y.a[1].op == "app" and last(y.a[1].a[0]) == SHIFTS}
        if len(tab) != 1:
            ctx.ob("ranges are put back into the text", con, None if unknowns(rng, e, KNOWN) or not tab else False, show(rng, 6), w)
            continue
        tab = tab.pop()
        text = el.a[0].a[0].a[2]
        toks = {y for y in subterms(text) if y.op == "app" and last(y.a[0]) == "tokenize"}
        ctx.ob("the shifts are those of the tokens searched in", con, toks == {strip_list(tab.a[1])} or
               (None if unknowns(tab.a[1], e, KNOWN) else False), show(tab.a[1], 5), w)
        for got, pos, at, what in ((lo, st, st, "start"), (hi, en, sub(en, C("int", 1)), "end")):
            want = sub(pos, app("idx", tab, at))
            ctx.ob("a range %ss where the entity does in the text" % what, con, got is want or
                   (None if unknowns(got, e, KNOWN) else False), show(got, 6), w)
    o = v.a[2] if v.op == "coll" else None
    if o is not None and cut_of(o):
        ctx.ob("every entity found is answered", con, False, show(o, 5), w)
    return calls.pop() if len(calls) == 1 else None


# ------------------------------------------------------------------ the shifts

def layouts():
    """Tokens as (start, end) in characters: up to three tokens with gaps and lengths of up to two."""
    for n in range(1, 4):
        for gaps in product(range(3), repeat=n):
            for lens in product((1, 2), repeat=n):
                at, out = 0, []
                for g, l in zip(gaps, lens):
                    at += g
                    out.append((at, at + l))
                    at += l
                yield tuple(out)


def wanted(lay):
    out, pos = [], 0
    for k, (a, z) in enumerate(lay):
        if k:
            pos += 1
        out += [pos - a] * (z - a + (1 if k else 0))
        pos += z - a
    return out


def shifts(ctx, b):
    con, w = SHIFTS, where(b)
    rule = "the shift of every character of the joined tokens is known"
    ps = params(b)
    e, rs = ctx.run(b, ps)
    n = 0
    bad = None
    for lay in layouts():
        try:
            got = evaluate(e, rs, ps[0], lay)
        except (NoValue, TypeError, KeyError, IndexError) as x:
            ctx.ob(rule, con, None, "%s: %s" % (type(x).__name__, show(x.args[0], 6) if x.args and isinstance(x.args[0], V) else x), w)
            return
        n += 1
        if got != wanted(lay) and bad is None:
            bad = "tokens at %s: %s instead of %s" % (lay, got, wanted(lay))
    ctx.ob(rule, con, bad is None, bad or "", w)
    ctx.count("layouts of tokens evaluated", n)


def evaluate(e, rs, toks, lay):
    """The numbers a function that walks over tokens puts one after another."""
    def leafs(k, env):
        def token(t):
            if t.op == "elem" and t.a[0] is toks:
                return k
            if t.op == "app" and t.a[0] in ("idx", "get!") and t.a[1] is toks:
                i = num(t.a[2], leaf)
                if not 0 <= i < len(lay):
                    raise NoValue(t)
                return i
            if t.op in ("vf", "pay") and t.a[0].op == "app" and t.a[0].a[0] in ("get", "first", "last") and t.a[0].a[1] is toks:
                g = t.a[0]
                i = num(g.a[2], leaf) if g.a[0] == "get" else 0 if g.a[0] == "first" else len(lay) - 1
                if not 0 <= i < len(lay):
                    raise NoValue(t)
                return i
            return None

        def leaf(t):
            if t in env:
                return env[t]
            if t.op == "phi":
                raise NoValue(t)
            if t.op == "elem" and t.a[0].op == "app" and t.a[0].a[0] == "range":
                lo, hi = num(t.a[0].a[1], leaf), num(t.a[0].a[2], leaf)
                if k is not None and (lo, hi) in ((0, len(lay)), (1, len(lay))) and any(y is toks for y in subterms(t.a[0])):
                    return k
                raise NoValue(t)
            if t.op == "app" and t.a[0] == "len":
                if t.a[1] is toks:
                    return len(lay)
                r = t.a[1]
                if r.op == "f" and r.a[1] in ("char_range", "range"):
                    i = token(r.a[0])
                    if i is not None:
                        return (lay[i][1] - lay[i][0]) * (1 if r.a[1] == "char_range" else 2)
            if t.op == "app" and t.a[0] == "len" and t.a[1].op == "f" and t.a[1].a[1] == "value":
                i = token(t.a[1].a[0])
                if i is not None:
                    return (lay[i][1] - lay[i][0]) * 2
            if t.op == "app" and t.a[0] in ("charlen", "count") and t.a[1].op == "f" and t.a[1].a[1] == "value":
                i = token(t.a[1].a[0])
                if i is not None:
                    return lay[i][1] - lay[i][0]
            if t.op == "app" and t.a[0] == "pos" and t.a[1] is toks:
                return token(t.a[2])
            if t.op == "f" and t.a[1] in ("start", "end") and t.a[0].op == "f" and t.a[0].a[1] in ("char_range", "range"):
                i = token(t.a[0].a[0])
                if i is not None:
                    return lay[i][t.a[1] == "end"] * (1 if t.a[0].a[1] == "char_range" else 2)
            return None
        return leaf

    def truth(t, leaf):
        if t is TRUE or t is FALSE:
            return t is TRUE
        if t.op == "ge0":
            return num(t.a[0], leaf) >= 0
        if t.op == "eq":
            return num(t.a[0], leaf) == num(t.a[1], leaf)
        if t.op == "is" and t.a[1] == "Some" and t.a[0].op == "app" and t.a[0].a[0] in ("get", "first", "last") and t.a[0].a[1] is toks:
            g = t.a[0]
            i = num(g.a[2], leaf) if g.a[0] == "get" else 0
            return 0 <= i < len(lay)
        raise NoValue(t)

    def ask(facts, leaf, skip=()):
        open_ = None
        for t, p in facts:
            if t.op == "app" and t.a[0] in ("contains", "exhausted") or t.op == "forall" or t in skip:
                continue
            try:
                if truth(t, leaf) is not p:
                    return False
            except NoValue as x:
                open_ = x
        if open_ is not None:
            raise open_
        return True
    outs = []
    for s, r in rs:
        if not ask([f for f in s.facts if f[0] is eq(app("len", toks), C("int", 0))], leafs(None, {})):
            continue
        outs += alts(r)
    if len(outs) != 1:
        raise NoValue(outs[0] if outs else toks)
    r = outs[0]
    if r.op == "list":
        return [num(x, leafs(None, {})) for x in r.a[1]]
    gs = gens_of(r)
    if gs is None:
        raise NoValue(r)
    phis = {q for x, c, bd in gs for v in [x] + [t for t, p in c] for q in subterms(v) if q.op == "phi"}
    more = True
    while more:
        more = False
        for q in list(phis):
            for x, f in e.steps_of(q):
                for z in (z for y in [x] + [t for t, p in f] for z in subterms(y)):
                    if z.op == "phi" and z not in phis:
                        phis.add(z)
                        more = True
    first = {}
    for q in phis:
        en = e.entry_of(q)
        if en is None:
            raise NoValue(q)
        first[q] = num(en, leafs(None, {}))
    # pushes of an earlier pass over the loop, which say the same of its first round only
    ent = {q: e.entry_of(q) for q in phis}
    keep = []
    for g in gs:
        stale = any(h is not g and any(y in phis for v in [h[0]] + [t for t, p in h[1]] for y in subterms(v)) and subst(h[0], ent) is g[0] for h in gs) \
            and not any(y in phis for v in [g[0]] + [t for t, p in g[1]] for y in subterms(v))
        if not stale:
            keep.append(g)
    out = []
    env = first
    for k in range(len(lay)):
        leaf = leafs(k, env)
        here = []
        for x, conds, bd in keep:
            inner = [y for v in [x] + [t for t, p in conds] for y in subterms(v) if y.op == "elem" and y.a[0].op == "app" and
                     y.a[0].a[0] == "range" and y.a[1] in bd and not any(z is toks and z is not None for z in (y.a[0].a[2],)) and not whole(y, toks)]
            inner = set(inner)
            if len(inner) > 1:
                raise NoValue(x)
            skip = [t for t, p in conds if any(y in inner for y in subterms(t))]
            if not ask(conds, leaf, skip):
                continue
            times = 1
            if inner:
                el = next(iter(inner))
                times = max(0, num(el.a[0].a[2], leaf) - num(el.a[0].a[1], leaf))
                if any(y is el for y in subterms(x)):
                    raise NoValue(x)
            here.append((num(x, leaf), times))
        if len({v for v, t in here}) > 1:
            raise NoValue(r)
        for v, t in here:
            out += [v] * t
        new = {}
        for q in phis:
            vals = {num(v, leaf) for v, f in e.steps_of(q) if ask(f, leaf)}
            if not vals:
                vals = {env[q]}
            if len(vals) > 1:
                raise NoValue(q)
            new[q] = vals.pop()
        env = new
    return out


def whole(el, toks):
    """Does the loop variable count the tokens?"""
    hi = el.a[0].a[2]
    return hi is app("len", toks)


@check("C20")
def cache(ctx):
    """The caching entity parsers are summarised with the parser behind them and the cache left as calls: every answer
    is what the parser behind finds or what was remembered under the key, the key holds all a remembered answer depends
    on, failures are passed on; ranges of custom entities are put back by the shifts, which are evaluated on small layouts."""
    for trait, names, custom in (("BuiltinEntityParser", ("text", "kinds", "cached", "top"), False), ("CustomEntityParser", ("text", "kinds", "top"), True)):
        p = Parser(ctx, trait, names)
        for ty, b, ps in p.impls:
            implementation(ctx, ty, b, ps, custom)
    b = ctx.prog.find(SHIFTS, optional=True)
    if b is None:
        ctx.ob("the shift of every character of the joined tokens is known", SHIFTS, None, "no such function")
    else:
        shifts(ctx, b)
