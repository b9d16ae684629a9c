"""Contracts of the public entry points of the engine."""

from ..check import check, where
from ..lib import *
from .filters import engine_run

TRAINED = "slot_name_mappings"


def trained(self_):
    return app("keys", fld(fld(self_, "dataset_metadata"), TRAINED))


def combos(ps):
    wl, bl = ps[2], ps[3]
    for w in (True, False):
        for b in (True, False):
            yield w, b, {(isv(wl, "Some"), w), (isv(bl, "Some"), b)}


@check("C02")
def c02(ctx):
    """Every success path of a query that names intents is shown to have established, for each name given by the
    caller, membership in the trained intents (universally quantified facts of the validation loop), and no parser
    is queried before that.  Every implementation of the parser interface's slot query is shown to establish the
    membership of the intent in its own trained set on each success path; slot extraction likewise for the slot
    name."""
    b = ctx.anchor("SnipsNluEngine::parse_with_alternatives")
    if b is not None:
        op = {x["id"] for x in (ctx.prog.find("SnipsNluEngine::" + n, optional=True)
                                for n in ("get_intents", "get_slots_with_alternatives", "resolve_slots")) if x}
        ps = params(b)
        for w, bl, facts in combos(ps):
            if not w and not bl:
                continue
            e, rs = ctx.run(b, ps, facts=facts, opaque=op, focus=ps[2:4])
            con = "parse(%s%s)" % ("whitelist" if w else "", " blacklist" if bl else "")
            n = 0
            sts = [(s.facts, "result") for s, _ in results(rs)]
            sts += [(ev.facts, "parser query") for ev in e.events.values()
                    if ev.kind == "virt" and ev.name.endswith("IntentParser::parse")]
            for f, what in sts:
                for lst, given in ((ps[2], w), (ps[3], bl)):
                    if not given:
                        continue
                    n += 1
                    x = sym("any")
                    f2 = set(f) | {(app("contains", vfld(lst, "Some", "0"), x), True)}
                    ok = holds(e, f2, app("contains", trained(ps[0]), x))
                    if ok is not True and has_opaque_facts(e, f, lst):
                        ok = None
                    ctx.ob("every intent named by the caller is a trained intent before the %s" % what, con,
                           True if ok else (False if ok is None and not has_opaque_facts(e, f, lst) else None),
                           "member of %s" % show(lst, 2), where(b))
            ctx.ob("there are success paths to check", con, n > 0 or None, "%d" % n)
    n = 0
    for selfty, body in ctx.prog.trait_impls("IntentParser", "get_slots"):
        n += 1
        ps = params(body)
        e, rs = ctx.run(body, ps, focus=[ps[-1]], slice_on=True)
        con = "%s::get_slots" % selfty.split("::")[-1]
        membership(ctx, e, rs, ps[0], ps[-1], con, body)
    ctx.floor("parsers that answer slot queries", n, 3)
    for nm, idx in (("extract_slot_with_alternatives", (2, 3)), ("extract_slot", (2, 3))):
        b = ctx.anchor("SnipsNluEngine::" + nm)
        if b is None:
            continue
        ps = params(b)
        e, rs = ctx.run(b, ps, focus=[ps[i] for i in idx], slice_on=True)
        for i in idx:
            membership(ctx, e, rs, ps[0], ps[i], "%s(%s)" % (nm, show(ps[i])), b)


def has_opaque_facts(e, facts, lst):
    """Was the list handed to something the analysis could not follow?"""
    for t, p in facts:
        for x in subterms(t):
            if x.op == "app" and x.a[0] in e.unknown_names and any(y is lst for y in subterms(x)):
                return True
    return bool(e.incomplete)


def membership(ctx, e, rs, self_, x, con, body):
    """On every success path, x is a member of (or a key of) something that belongs to the component."""
    n = 0
    for s, r in results(rs):
        n += 1
        ok = None
        for t, p in s.facts:
            if p and t.op == "app" and t.a[0] == "contains" and t.a[2] in equals_of(s.facts, x):
                if any(y is self_ for y in subterms(t.a[1])):
                    ok = True
        if not ok:
            # through a callee under the same contract
            if r.op == "vf" or any(y.op == "app" and y.a[0].endswith("IntentParser::get_slots") and y.a[-1] is x
                                   for y in subterms(r)):
                ok = None
            opq = [y for y in subterms(r) if y.op == "app" and y.a[0] in e.unknown_names]
            if ok is None:
                d = callee_contract(ctx, e, s, self_, x)
                if d is True:
                    ok = True
                elif opq or e.incomplete:
                    ok = None
                else:
                    ok = False
        ctx.ob("success implies the name given is a trained one", con, ok, show(r, 4), where(body))
    ctx.ob("there are success paths to check", con, n > 0 or None, "%d" % n)


def callee_contract(ctx, e, s, self_, x):
    """A local call that received x succeeded, and its own success implies membership."""
    for t, p in s.facts:
        if t.op == "is" and (t.a[1] == "Ok") == p:
            c = callee(ctx, t.a[0])
            if c is None or not any(a is x for a in c[1]) or not any(a is self_ for a in c[1]):
                continue
            b, args = c
            ps = params(b)
            xi = [p_ for p_, a in zip(ps, args) if a is x]
            si = [p_ for p_, a in zip(ps, args) if a is self_]
            e2, rs2 = ctx.run(b, ps, focus=xi, slice_on=True)
            good = []
            for s2, r2 in results(rs2):
                good.append(any(p2 and t2.op == "app" and t2.a[0] == "contains" and t2.a[2] is xi[0]
                                and any(y is si[0] for y in subterms(t2.a[1])) for t2, p2 in s2.facts))
            if good and all(good):
                return True
    return None


@check("C03")
def c03(ctx):
    """The simple entry points are shown to return exactly what the general entry points return with the number of
    alternatives set to zero (argument-by-argument, on the compiled code).  For the general entry point the term of
    the returned alternatives is derived: its source, its order, its bound, the condition of each element and the
    slots attached to it are each compared with the contract."""
    Z = I(0)
    for nm, tgt, extra in (("parse", "parse_with_alternatives", 2), ("get_slots", "get_slots_with_alternatives", 1),
                           ("extract_slot", "extract_slot_with_alternatives", 1)):
        b = ctx.anchor("SnipsNluEngine::" + nm)
        t = ctx.anchor("SnipsNluEngine::" + tgt)
        if b is None or t is None:
            continue
        delegates(ctx, b, t, lambda ps: list(ps) + [Z] * extra, "SnipsNluEngine::" + nm,
                  "the simple entry point is the general one without alternatives")
    alternatives(ctx)


def order_chain(o):
    out = []
    while o is not None and o.op == "app":
        out.append(o)
        o = o.a[1] if len(o.a) > 1 and hasattr(o.a[1], "op") and o.a[1].op == "app" and \
            str(o.a[1].a[0]).startswith("o_") else None
    return out


def alternatives(ctx):
    b = ctx.anchor("SnipsNluEngine::parse_with_alternatives")
    if b is None:
        return
    ids = {n: ctx.anchor("SnipsNluEngine::" + n) for n in ("get_intents", "get_slots_with_alternatives")}
    rsv = ctx.prog.find("SnipsNluEngine::resolve_slots", optional=True)
    op = {x["id"] for x in list(ids.values()) + [rsv] if x}
    if len(op) < 2:
        return
    ps = params(b)
    self_, inp, wl, bl, na, ns = ps
    gi = app(ids["get_intents"]["path"], self_, inp)
    src = vfld(gi, "Ok", "0")
    w = where(b)
    n = 0
    for hw, hb, facts in combos(ps):
        e, rs = ctx.run(b, ps, facts=facts, opaque=op, focus=ps[2:4])
        con = "parse(%s%s)" % ("whitelist " if hw else "", "blacklist" if hb else "")
        for s, r in results(rs):
            zero = decide(s.facts, eq(na, I(0)))
            topn = fld(fld(r, "intent"), "intent_name")
            ctx.ob("the result repeats the query it answers", con,
                   True if fld(r, "input") is inp else (None if opaque_parts(fld(r, "input"), e) else False),
                   show(fld(r, "input"), 4), w)
            for al in alts(fld(r, "alternatives")):
                n += 1
                gs = gens_of(al)
                if gs is None:
                    ctx.ob("alternatives can be followed", con, None, show(al, 3), w)
                    continue
                if not gs:
                    # an empty list of alternatives is only right when none is asked for
                    ctx.ob("an empty list of alternatives means none was asked for", con,
                           True if zero else (False if zero is None or not any(gi in subterms(t) and not (t.op == "is" and t.a[0] is gi)
                                                                               for t, p in s.facts) else None), "", w)
                    continue
                o = al.a[2] if al.op == "coll" else None
                ch = order_chain(o) if o is not None else []
                names = [x.a[0] for x in ch]
                takes = [x for x in ch if x.a[0] == "o_take" and x.a[-1] is na]
                for i, x in enumerate(ch):
                    between = [y for q in ch[:i] if q.a[0] == "o_filt" for y in q.a[2:]]
                    if x.a[0] != "o_take" or not between:
                        continue
                    listed = [y for y in between if wl in subterms(y) or bl in subterms(y)]
                    more = ge0(sub(sub(x.a[-1], na), I(1)))
                    ctx.ob("as many alternatives as asked for are returned, when there are", con,
                           False if listed or x.a[-1] is na else (True if more is TRUE else None), show(o, 5), w)
                if any(x not in ("o_take", "o_src", "o_skip", "o_rev", "o_sorted", "o_filt") for x in names) or not names:
                    bound = None
                else:
                    bound = bool(takes)
                ctx.ob("at most the number of alternatives asked for is returned", con, bound, show(o, 5) if o else "",
                       w)
                best = None
                if names and names[-1] == "o_src" and ch[-1].a[-1] is src:
                    if all(x in ("o_take", "o_filt") for x in names[:-1]):
                        best = True
                    elif any(x in ("o_rev", "o_skip") for x in names[:-1]):
                        best = False
                ctx.ob("alternatives keep the order of the ranked intents and start at its head", con, best,
                       show(o, 5) if o else "", w)
                met, followed = set(), True
                for v, conds, bound_ in gs:
                    it = fld(v, "intent")
                    el = it.op == "elem" and it.a[0] is src
                    if it.op == "st":
                        el = all(fld(it, f).op == "f" and fld(it, f).a[0].op == "elem" and fld(it, f).a[0].a[0] is src
                                 for f in ("intent_name", "confidence_score"))
                        it0 = fld(it, "intent_name").a[0] if el else it
                    else:
                        it0 = it
                    ctx.ob("an alternative is one of the ranked intents of the same query", con,
                           True if el else (None if opaque_parts(it, e) else False), show(it, 4), w)
                    if not el:
                        followed = False
                        continue
                    f2 = s.facts | conds
                    nm = fld(it0, "intent_name")
                    met |= {True, False} if decide(f2, isv(nm, "Some")) is None else {decide(f2, isv(nm, "Some"))}
                    ne = decide(f2, eq(nm, topn))
                    if ne is None and decide(f2, isv(nm, "Some")) is not None and \
                            decide(f2, isv(topn, "Some")) is not None and \
                            decide(f2, isv(nm, "Some")) is not decide(f2, isv(topn, "Some")):
                        ne = False
                    if ne is None and holds(e, f2, eq(nm, topn), False):
                        ne = False
                    ctx.ob("the top intent is not repeated among the alternatives", con,
                           ne is False, show(topn, 4), w)
                    sl = fld(v, "slots")
                    some_ = decide(f2, isv(nm, "Some"))
                    exp = vfld(app(ids["get_slots_with_alternatives"]["path"], self_, inp, vfld(nm, "Some", "0"), ns),
                               "Ok", "0")
                    for x in alts(sl):
                        empty = gens_of(x) is not None and not gens_of(x)
                        good = (x is exp) if some_ is not False else empty
                        ctx.ob("an alternative carries the slots of its own intent", con,
                               True if good else (None if some_ is None or opaque_parts(x, e) else False),
                               show(x, 4), w)
                    for t, p in conds:
                        if known_cond(t, nm, it0, wl, bl, topn, src):
                            continue
                        ctx.ob("no other ranked intent is left out", con,
                               None if opaque_parts(t, e) else False,
                               "extra condition %s%s" % ("" if p else "not ", show(t, 6)), w)
                top_ = decide(s.facts, isv(topn, "Some"))
                for k, what in ((True, "an intent"), (False, "no intent")):
                    if not k and top_ is not True:
                        continue            # it is, or may be, the result itself
                    ctx.ob("intents and the absence of an intent both occur among the alternatives", con,
                           True if k in met else (False if followed and not e.incomplete else None), what, w)
    ctx.ob("there are results to check", "alternatives", n > 0 or None, "%d" % n)


def known_cond(t, nm, el, wl, bl, topn, src):
    if t.op == "is" and (t.a[0] is nm or t.a[0] is topn):
        return True
    if t.op == "eq" and any(x is nm or x is topn or x is vfld(nm, "Some", "0") for x in t.a):
        return True
    if t.op == "app" and t.a[0] == "contains":
        return t.a[2] is el or t.a[2] is nm or t.a[2] is vfld(nm, "Some", "0") or t.a[2].op == "elem"
    if t.op == "is" and t.a[1] in ("Ok", "Err"):
        return True
    if not any(x is el for x in subterms(t)):
        return True
    return t.op == "forall"


SCORE, NAME = "confidence_score", "intent_name"


def fl(x):
    """Value of a float constant, or None."""
    if x.op == "c":
        try:
            return float(str(x.a[1]).strip("f32 "))
        except ValueError:
            return None
    return None


def is_descending(o):
    """Does the order term say 'sorted by decreasing score'?  True / False / None"""
    if o is None or o.op != "app":
        return None
    if o.a[0] in ("o_src", "o_none", "o_hash", "o_push", "o_zip"):
        return None if o.a[0] == "o_push" else False
    if o.a[0] == "o_take":
        return is_descending(o.a[1])
    if o.a[0] == "o_rev":
        d = is_ascending(o.a[1])
        return d
    if o.a[0] == "o_sorted":
        return cmp_dir(o.a[1], -1)
    return None


def is_ascending(o):
    if o is not None and o.op == "app" and o.a[0] == "o_sorted":
        return cmp_dir(o.a[1], 1)
    return None


def cmp_dir(c, want):
    """Direction of a comparator on the score: the first comparison made decides."""
    if c.op == "app" and c.a[0] in ("bycmp",):
        res = []
        for x in c.a[1:]:
            d = first_cmp(x)
            res.append(None if d is None else d == want)
        if all(r is True for r in res):
            return True
        if any(r is False for r in res):
            return False
    return None


def first_cmp(x):
    """1: ascending on the score, -1: descending, 0: on something else, None: unknown."""
    if x.op == "vf":
        return first_cmp(x.a[0])
    if x.op == "app" and x.a[0] in ("pcmp", "cmp", "fcmp", "total_cmp") and len(x.a) == 3:
        a, b = x.a[1], x.a[2]
        if a.op == "f" and b.op == "f" and a.a[1] == SCORE and b.a[1] == SCORE:
            ra, rb = root(a), root(b)
            if ra is not rb and {show(ra), show(rb)} == {"cmp·a", "cmp·b"} or show(ra) != show(rb):
                return 1 if "a" in (show(ra)[-1:],) or "cmpA" in show(ra) else -1
        return 0
    if x.op == "app" and x.a[0] == "ord_rev":
        d = first_cmp(x.a[1])
        return -d if d else d
    if x.op == "app" and x.a[0] in ("ord_then", "ord_then_with"):
        return first_cmp(x.a[1])
    return None


def root(x):
    while x.op in ("f", "vf"):
        x = x.a[0]
    return x


@check("C04")
def c04(ctx):
    """For each implementation of the 'rank all intents' query the returned collection is derived as a term
    (generators, their conditions, and the order).  Rules: the order is by decreasing score; the parsers built on a
    table list each matched intent, each trained intent that did not match, and the absence of intent; the
    classifier lists its whole trained list; the engine merges the parsers in a map keyed by the intent itself and
    raises a score only to a greater one."""
    n = 0
    for trait in ("IntentParser", "IntentClassifier"):
        for selfty, body in ctx.prog.trait_impls(trait, "get_intents"):
            n += 1
            ranked_impl(ctx, selfty.split("::")[-1] + "::get_intents", body)
    ctx.floor("components that rank intents", n, 4)
    ranked_engine(ctx)


def ranked_impl(ctx, con, body):
    ps = params(body)
    self_ = ps[0]
    e, rs = ctx.run(body, ps, slice_on=True)
    n = 0
    w = where(body)
    for s, r in results(rs):
        for v in alts(r):
            n += 1
            gs = gens_of(v)
            if gs is None:
                x = v
                while x.op in ("f", "vf"):
                    x = x.a[0]
                if x.op == "app" and x.a[0].endswith("IntentClassifier::get_intents"):
                    ok = x.a[-1] is ps[-1] and any(y is self_ for y in subterms(x.a[1]))
                    ctx.ob("delegates to a component under the same contract", con, ok, show(v, 4), w)
                    continue
                c = callee(ctx, x)
                if c is not None:
                    b2, args = c
                    classifier(ctx, con, b2, args, w)
                    continue
                ctx.ob("the ranked intents can be followed", con, None, show(v, 4), w)
                continue
            table_parser(ctx, con, e, s, v, gs, self_, ps, w)
    ctx.ob("there are results to check", con, n > 0 or None, "%d" % n)


def table_parser(ctx, con, e, s, v, gs, self_, ps, w):
    matched = none_ = rest = None
    src = None
    for x, conds, b in gs:
        nm = fld(x, NAME)
        if x.op == "f" and x.a[0].op == "elem":
            matched = (x, conds)
            src = x.a[0].a[0]
        elif nm.op == "en" and nm.a[1] == "None":
            none_ = (x, conds)
        elif nm.op == "en" and nm.a[1] == "Some" and nm.a[3][0].op == "elem":
            rest = (x, conds, nm.a[3][0])
        else:
            if nm.op == "en" and nm.a[1] == "Some" and nm.a[3][0].op == "c":
                ctx.ob("only trained intents are listed", con, False, show(nm, 4), w)
                return
            ctx.ob("the ranked intents can be followed", con, None, show(x, 4), w)
            return
    ctx.ob("matched intents are listed", con, matched is not None, show(src, 4) if src else "", w)
    ctx.ob("the absence of intent is listed", con, none_ is not None, "", w)
    ctx.ob("trained intents that did not match are listed", con, rest is not None, "", w)
    if matched:
        c = callee(ctx, strip_proj(src))
        if c is None:
            ctx.ob("matched intents come from an unfiltered match", con, None, show(src, 4), w)
        else:
            b2, args = c
            ps2 = params(b2)
            for p, a in zip(ps2, args):
                if a.op == "en" and a.a[1] == "None":
                    ctx.ob("matched intents come from an unfiltered match", con, True, show(src, 5), w)
                elif a.op == "en" and a.a[1] == "Some":
                    ctx.ob("matched intents come from an unfiltered match", con, False, show(src, 5), w)
            ns = [a for a in args if a.op == "app" and a.a[0] in ("len", "count")]
            cs = [a for a in args if a.op == "c" and isinstance(a.a[1], int) and not isinstance(a.a[1], bool)]
            if cs:
                ctx.ob("as many matches as trained intents are asked for", con, False, show(src, 5), w)
            elif ns and rest is not None:
                trained_ = ns[0].a[1]
                same = strip_keys(trained_) is strip_keys(rest[2].a[0])
                ctx.ob("as many matches as trained intents are asked for", con, same or None, show(ns[0], 4), w)
            elif rest is not None:
                for many in (5, 1000):
                    def trained(t):
                        # what is counted is a part of the intents at most
                        if t.op == "app" and t.a[0] in ("len", "count"):
                            x = t.a[1]
                            if strip_keys(x) is strip_keys(rest[2].a[0]):
                                return many
                            of = gens_of(x) or ()
                            if len(of) == 1 and any(q.op == "app" and q.a[0] == "contains" and p and
                                                    strip_keys(q.a[1]) is strip_keys(rest[2].a[0]) for q, p in of[0][1]):
                                return many
                    for a in args:
                        try:
                            k = num(a, trained)
                        except NoValue:
                            continue
                        ctx.ob("as many matches as trained intents are asked for", con, k >= many, show(a, 4), w)
    if rest:
        x, conds, el = rest
        ctx.ob("the trained intents of the component are enumerated", con,
               any(y is self_ for y in subterms(el.a[0])) or None, show(el, 4), w)
        dup = [t for t, p in conds if not p and t.op == "app" and t.a[0] == "contains" and t.a[2] is el]
        dup += [t for t, p in conds if not p and t.op == "app" and t.a[0] in ("any", "exists")]
        ctx.ob("an intent that matched is not listed a second time", con,
               True if dup else (None if any(opaque_parts(t, e) for t, p in conds) else False),
               "conditions: %s" % "; ".join(("" if p else "not ") + show(t, 4) for t, p in conds)[:400], w)
        for t in dup:
            gs2 = gens_of(t.a[1])
            ok = None
            if gs2 is not None and matched:
                ok = bool(gs2)
                for y, c2, b2 in gs2:
                    if y.op != "vf" or y.a[0].op != "f" or y.a[0].a[1] != NAME or src not in list(subterms(y)):
                        ok = None
            ctx.ob("an intent counts as matched exactly when the match lists it", con, ok, show(t, 5), w)
        extra = [(t, p) for t, p in conds
                 if any(y is el for y in subterms(t)) and t not in dup
                 and not (t.op == "app" and t.a[0] == "contains" and t.a[2] is el and p)]
        for t, p in extra:
            ctx.ob("no trained intent is left out", con, None if opaque_parts(t, e) else False, show(t, 5), w)
    for nm_, g in (("none", none_), ("unmatched", rest)):
        if g:
            f = fl(fld(g[0], SCORE))
            ctx.ob("intents that did not match score zero", con, True if f == 0.0 else (None if f is None else False),
                   nm_ + " " + show(fld(g[0], SCORE)), w)


def strip_proj(x):
    while x.op in ("f", "vf"):
        x = x.a[0]
    return x


def strip_keys(x):
    while x.op == "app" and x.a[0] in ("keys", "values", "iter", "slice"):
        x = x.a[1]
    return x


def classifier(ctx, con, b2, args, w):
    ps2 = params(b2)
    op = {x["id"] for x in (ctx.prog.find("Featurizer::transform", optional=True),
                            ctx.prog.find("MulticlassLogisticRegression::run", optional=True)) if x}
    e, rs = ctx.run(b2, args, opaque=op)
    self_ = args[0]
    n = 0
    for a in args[1:]:
        if a.op == "en" and a.a[1] == "Some":
            ctx.ob("the ranking is not restricted by a filter", con, False, show(a, 4), w)
    for s, r in results(rs):
        for v in alts(r):
            n += 1
            gs = gens_of(v)
            if gs is None:
                ctx.ob("the ranked intents can be followed", con, None, show(v, 4), w)
                continue
            small = any(t.op in ("ge0", "ge", "cmp") or "len(" in show(t, 3) for t, p in s.facts)
            o = v.a[2] if v.op == "coll" else None
            if o is not None and any(x.op == "app" and x.a[0] == "o_list" and len(x.a) <= 2 for x in subterms(o)):
                ctx.ob("the ranking is by decreasing score", con, True, "at most one", w)
            elif v.op == "list" and len(v.a[1]) <= 1:
                ctx.ob("the ranking is by decreasing score", con, True, "at most one", w)
            elif len_at_most_one(v, gs):
                ctx.ob("the ranking is by decreasing score", con, True, "at most one", w)
            else:
                ctx.ob("the ranking is by decreasing score", con, is_descending(o), show(o, 7) if o else "no order", w)
            for x, conds, bnd in gs:
                nm = fld(x, NAME)
                el = [y for y in subterms(nm) if y.op == "elem" and any(z is self_ for z in subterms(y.a[0]))]
                if not el:
                    continue
                sc = fld(x, SCORE)
                for t, p in conds:
                    if t.op == "app" and t.a[0] == "contains" and p:
                        continue
                    if sc.op not in ("c", "en") and t.op == "app" and t.a[0] in ("flt", "fle", "eq") and any(y is sc for y in subterms(t)):
                        ctx.ob("no trained intent is left out", con, False, show(t, 5), w)
                    elif any(y in el for y in subterms(t)) and t.op != "is":
                        ctx.ob("no trained intent is left out", con, None if opaque_parts(t, e) else False,
                               show(t, 5), w)
    ctx.ob("there are results to check", con, n > 0 or None, "%d" % n)


def is_empty_fact(t):
    return t.op == "eq" and any(x.op == "c" and x.a[1] == 0 for x in t.a) and \
        any(x.op == "app" and x.a[0] == "len" for x in t.a)


def holds_with_one(t, p):
    """Can a fact about the length of a collection hold when there is one element in it?  (0 is all it may allow)"""
    l = t.a[0]
    if l.op != "lin" or len(l.a[1]) != 1:
        return False
    x, k = l.a[1][0]
    if not (x.op == "app" and x.a[0] == "len" and k < 0):
        return False
    return ((l.a[0] + k) >= 0) == p and (l.a[0] >= 0) == p


def len_at_most_one(v, gs):
    return len(gs) == 1 and not gs[0][2]


def positive(x):
    try:
        return float(x) > 0
    except (TypeError, ValueError):
        return False


def ranked_engine(ctx):
    b = ctx.anchor("SnipsNluEngine::get_intents")
    if b is None:
        return
    ps = params(b)
    con = "SnipsNluEngine::get_intents"
    w = where(b)
    ins = []

    def hook(kind):
        def f(e, st, args, site, fn):
            ins.append((kind, args, st))
            return None
        return f

    hooks = {k: hook(k) for k in ("HashMap::insert", "Entry::or_insert_with", "Entry::or_insert", "Entry::and_modify",
                                  "BTreeMap::insert")}
    e, rs = ctx.run(b, ps, hooks=hooks)
    for kind, args, st in ins:
        if kind.endswith("::insert"):
            k, v = args[1], args[2]
        elif args[0].op == "app" and args[0].a[0] == "entry":
            k, v = args[0].a[2], None
        else:
            continue
        if v is not None and (k.op != "f" or k.a[1] != NAME):
            good = decide(st.facts, eq(fld(v, NAME), k)) is True
            ctx.ob("merged results are keyed by the intent they are about", con,
                   True if good else (None if opaque_parts(v, e) or opaque_parts(k, e) else False), show(k, 4), w)
        if k.op == "f" and k.a[1] == NAME:
            owner = k.a[0]
            good = v is None or v is owner or decide(st.facts, eq(fld(v, NAME), k)) is True
            ctx.ob("merged results are keyed by the intent they are about", con,
                   True if good else (None if opaque_parts(v, e) else False), show(k, 4), w)
            new = fld(owner, SCORE)
            cmp_ = [(t, p) for t, p in st.facts if t.op == "app" and t.a[0] in ("flt", "fle") and
                    any(y is new for y in subterms(t))]
            m = e.deref(st, args[0]) if kind.endswith("::insert") else None
            empty = any(p and is_empty_fact(t) for t, p in st.facts) or \
                (kind.endswith("::insert") and not any(not p and is_empty_fact(t) for t, p in st.facts))
            up = [1 for t, p in cmp_ if (p and t.a[2] is new) or (not p and t.a[1] is new)]
            down = [1 for t, p in cmp_ if (p and t.a[1] is new) or (not p and t.a[2] is new)]
            one = [t for t, p in st.facts if t.op == "ge0" and holds_with_one(t, p)]
            if up:
                ok = True
                for t, p in cmp_:
                    other = t.a[1] if t.a[2] is new else t.a[2]
                    bent = (other.op == "app" and other.a[0] in ("fadd", "fsub", "fmul", "fdiv")) or \
                        (other.op == "c" and positive(other.a[1]))
                    if p is (t.a[2] is new):
                        ctx.ob("any greater score replaces the one known", con, not bent, show(t, 5), w)
            elif down:
                ok = False
            elif one and kind.endswith("::insert") and not cmp_:
                ok = False
            elif empty or any(not p and t.op == "app" and t.a[0] == "contains" and t.a[2] is k for t, p in st.facts):
                ok = True       # nothing is known of the intent
            else:
                ok = False if not cmp_ else None
            ctx.ob("a score already known is only replaced by a greater one", con, ok,
                   "; ".join(("" if p else "not ") + show(t, 5) for t, p in cmp_)[:300], w)
    n = 0
    fresh = any((k.startswith("Entry::or_insert")) or (k.endswith("::insert") and (
        any(t.op == "app" and t.a[0] in ("flt", "fle") for t, _ in st.facts) or
        any(t.op == "contains" and not p and "~" not in show(t.a[0], 1) for t, p in st.facts)))
        for k, args, st in ins)
    held = any(k == "Entry::and_modify" for k, args, st in ins)
    always = any(k.endswith("::insert") and not any(is_empty_fact(t) for t, p in st.facts) and
                 len(st.facts) and not held for k, args, st in ins)
    ctx.ob("an intent not ranked yet joins the ranking with what a parser says of it", con,
           True if fresh or always else (False if held else None), "%d" % len(ins), w)
    overwrites = any(k.endswith("::insert") and any(
        t.op == "app" and t.a[0] in ("flt", "fle") and args[1].op == "f" and
        any(y is fld(args[1].a[0], SCORE) for y in subterms(t)) for t, _ in st.facts) for k, args, st in ins)
    keeps = any(k.startswith("Entry::or_insert") for k, args, st in ins)
    for s, r in results(rs):
        for v in alts(r):
            n += 1
            gs = gens_of(v)
            if gs is None:
                ctx.ob("the ranked intents can be followed", con, None, show(v, 4), w)
                continue
            better = overwrites or any(y.op == "upd" for x, _, _ in gs for y in subterms(x))
            ctx.ob("a greater score replaces the one already known", con,
                   True if better else False if keeps and not opaque_parts(v, e) else None, show(v, 5), w)
            o = v.a[2] if v.op == "coll" else None
            ctx.ob("the ranking is by decreasing score", con, is_descending(o), show(o, 7) if o else "no order", w)
            gone = [x for x in early(e, s) if x.op == "f" and x.a[1].endswith("intent_parsers")]
            ctx.ob("every parser has its say in the ranking", con, not gone, "; ".join(show(x, 4) for x in gone), w)
            whole = False
            for x, conds, bnd in gs:
                for y in alts(x):
                    z = y
                    while z.op == "upd":
                        if z.a[1] == SCORE:
                            sc = z.a[2]
                            good = sc.op == "f" and sc.a[1] == SCORE and sc.a[0].op == "elem"
                            made = sc.op in ("c", "lin") or (sc.op == "app" and sc.a[0] in ("fadd", "fsub", "fmul", "fdiv", "fneg"))
                            ctx.ob("a replaced score is another component's score of the same intent", con,
                                   True if good else (False if made and not opaque_parts(sc, e) else None), show(sc, 5), w)
                        else:
                            ctx.ob("only the score of a merged result changes", con, False, show(y, 5), w)
                        z = z.a[0]
                    if z.op == "elem" and strip_proj(z.a[0]).op == "app" and \
                            strip_proj(z.a[0]).a[0].endswith("IntentParser::get_intents"):
                        q = strip_proj(z.a[0])
                        ctx.ob("every result comes from a parser asked for the same input", con,
                               q.a[-1] is ps[1] or (None if opaque_parts(q.a[-1], e) else False), show(z, 5), w)
                        if z is y and all(t.op == "app" and t.a[0] == "contains" or t.op == "is" for t, p in conds):
                            whole = True
                    else:
                        ctx.ob("every result comes from a parser asked for the same input", con, None, show(z, 4), w)
            ctx.ob("every intent listed by a parser can be in the ranking", con, whole or None, "", w)
    ctx.ob("there are results to check", con, n > 0 or None, "%d" % n)
