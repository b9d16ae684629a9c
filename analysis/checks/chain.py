"""C05: the chain of parsers; C06: what a single parser returns."""
from ..check import check, where
from ..engine import decide
from ..lib import *
from ..terms import *

NAME = "intent_name"
SCORE = "confidence_score"


def calls_of(v, suffix):
    return [x for x in subterms(v) if x.op == "app" and x.a[0].endswith(suffix)]


def ok_of(v, suffix):
    """The call (of a function ending with suffix) whose Ok payload v is."""
    if v.op == "vf" and v.a[1] == "Ok" and v.a[0].op == "app" and v.a[0].a[0].endswith(suffix):
        return v.a[0]
    return None


def verdict(good, v, e):
    """ok when shown, bad when the value is fully known and different, else undecided."""
    if good:
        return True
    vs = v if isinstance(v, (list, tuple)) else [v]
    return None if any(opaque_parts(x, e) for x in vs) else False


def in_order(e, el, src):
    """Is the element taken while walking `src` from its head, in its own order?"""
    o = e.orders.get(el.a[1])
    if o is None:
        return None
    ok_ = o.op == "app" and o.a[0] == "o_src" and o.a[1] is src
    if ok_:
        return True
    if o.op == "app" and o.a[0] in ("o_rev", "o_skip", "o_sorted", "o_step_by", "o_hash", "o_skip_while"):
        return False
    return None


def foralls(facts):
    return [(t.a[0], t.a[1], bool(t.a[2])) for t, p in facts if p and t.op == "forall"]


def is_empty_list(v):
    g = gens_of(v)
    return g is not None and not g


@check("C05")
def c05(ctx):
    """Every successful result of the general entry point is traced to the parser call it comes from: a result with an
    intent takes intent and slots from one call on one element of the parser list, walked in its own order and left as
    soon as an intent is found; a result without intent is only built after the list is exhausted with every parser
    having answered without intent.  The same for the first non-empty slots of a given intent, and for the way the
    list itself is loaded."""
    chain(ctx)
    slots_chain(ctx)
    loading(ctx)


def chain(ctx):
    b = ctx.anchor("SnipsNluEngine::parse_with_alternatives")
    if b is None:
        return
    gi = ctx.anchor("SnipsNluEngine::get_intents")
    gs = ctx.anchor("SnipsNluEngine::get_slots_with_alternatives")
    rsv = ctx.prog.find("SnipsNluEngine::resolve_slots", optional=True)
    ps = params(b)
    self_, inp, wl, bl, na, ns = ps
    con = "SnipsNluEngine::parse_with_alternatives"
    w = where(b)
    op = {x["id"] for x in (gi, gs, rsv) if x}
    parsers = None
    found = none = 0
    for asked in (True, False):
        e, rs = ctx.run(b, ps, facts=frozenset({(eq(na, I(0)), asked)}), opaque=op)
        for s, r in results(rs):
            it = fld(r, "intent")
            sl = fld(r, "slots")
            # ---- which case is it?
            for v in alts(it):
                pc = ok_of(v.a[0], "IntentParser::parse") if v.op == "f" and v.a[1] == "intent" else None
                nm = fld(v, NAME)
                has = decide(s.facts, isv(nm, "Some"))
                if pc is not None and has is not False:
                    found += 1
                    el = pc.a[1]
                    ctx.ob("a result with an intent comes from a parser that found one", con, True if has else False,
                           show(v, 5), w)
                    ok_el = el.op == "elem" and el.a[0].op == "f" and el.a[0].a[0] is self_
                    ctx.ob("the parser is one of the assistant's", con, verdict(ok_el, el, e), show(el, 4), w)
                    if not ok_el:
                        continue
                    parsers = el.a[0]
                    ctx.ob("the parser is asked for the input of the caller", con, verdict(pc.a[2] is inp, pc.a[2], e),
                           show(pc.a[2], 4), w)
                    ctx.ob("parsers are tried from the first to the last", con, in_order(e, el, parsers),
                           str(e.orders.get(el.a[1])), w)
                    late = any(p and t.op == "app" and t.a[0] == "exhausted" and t.a[1] is parsers for t, p in s.facts)
                    ctx.ob("no other parser is tried once an intent is found", con, not late,
                           "the remaining parsers are still consulted" if late else "", w)
                    own = app(rsv["path"], self_, inp, fld(pc and vfld(pc, "Ok", "0"), "slots"), ns) if rsv else None
                    for x in alts(sl):
                        good = own is not None and x is vfld(own, "Ok", "0")
                        if good:
                            ctx.ob("the slots are the resolved slots of the same parser's answer", con, True, "", w)
                        elif rsv:
                            ctx.ob("the slots are the resolved slots of the same parser's answer", con,
                                   verdict(False, x, e), show(x, 5), w)
                        else:
                            src = [y for y in subterms(x) if y is vfld(pc, "Ok", "0")]
                            ctx.ob("the slots are the resolved slots of the same parser's answer", con,
                                   True if src else None, show(x, 4), w)
                elif has is False or nm.op == "en" and nm.a[1] == "None":
                    none += 1
                    ctx.ob("a result without intent carries no slots", con, verdict(is_empty_list(sl), sl, e),
                           show(sl, 4), w)
                    done = [t.a[1] for t, p in s.facts if p and t.op == "app" and t.a[0] == "exhausted" and
                            t.a[1].op == "f" and t.a[1].a[0] is self_]
                    ctx.ob("no intent is answered only after every parser was tried", con,
                           True if done else verdict(False, [t for t, p in s.facts], e), "", w)
                    if done:
                        good = any(not pol and t.op == "is" and t.a[1] == "Some" and t.a[0].op == "f" and
                                   t.a[0].a[1] == NAME and calls_of(t, "IntentParser::parse")
                                   for tag, t, pol in foralls(s.facts))
                        other = [t for tag, t, pol in foralls(s.facts)]
                        ctx.ob("no intent is answered only when no parser found one", con,
                               verdict(good, other, e), "; ".join(show(t, 5) for t in other)[:300], w)
                    sc = fld(v, SCORE)
                    cand = [x for x, _ in e.candidates(sc)] if sc.op in ("phi", "u") else [sc]
                    for x in cand or []:
                        good = x.op == "c" or (x.op == "f" and x.a[1] == SCORE and calls_of(x, "IntentParser::parse"))
                        made = x.op == "app" and x.a[0] in ("max", "min", "fadd", "fsub", "fmul", "fdiv", "fneg")
                        ctx.ob("the confidence of no intent is a parser's", con, True if good else False if made else None, show(x, 4), w)
                    for x, facts in e.steps_of(sc) if sc.op == "phi" else ():
                        ctx.ob("the confidence of no intent is that of the last parser asked", con,
                               False if x is sc or x.op == "c" else True if x.op == "f" and x.a[1] == SCORE and calls_of(x, "IntentParser::parse") else None,
                               show(x, 4), w)
                else:
                    ctx.ob("the result can be followed to a parser", con, verdict(False, [it] + [
                        c for x in subterms(it) if x.op == "phi" for c, _ in (e.candidates(x) or [])], e)
                        if pc is None and not opaque_parts(it, e) else None, show(it, 5), w)
    ctx.ob("results with an intent exist", con, found > 0 or None, "%d" % found, w)
    ctx.ob("results without intent exist", con, none > 0 or None, "%d" % none, w)


def slots_chain(ctx):
    b = ctx.anchor("SnipsNluEngine::get_slots_with_alternatives")
    if b is None:
        return
    rsv = ctx.prog.find("SnipsNluEngine::resolve_slots", optional=True)
    ps = params(b)
    self_, inp, intent, ns = ps
    con = "SnipsNluEngine::get_slots_with_alternatives"
    w = where(b)
    e, rs = ctx.run(b, ps, opaque={rsv["id"]} if rsv else set())
    n = 0
    for s, v in results(rs):
        n += 1
        cs = calls_of(v, "IntentParser::get_slots")
        if is_empty_list(v) and not cs:
            done = any(p and t.op == "app" and t.a[0] == "exhausted" and t.a[1].op == "f" and t.a[1].a[0] is self_
                       for t, p in s.facts)
            allempty = any(calls_of(t, "IntentParser::get_slots") and not t.op == "is" and pol and t.op == "eq"
                           for tag, t, pol in foralls(s.facts))
            if done and allempty:
                ctx.ob("no slots are answered only when every parser found none", con, True, "", w)
            else:
                own = [t for t, p in s.facts if p and t.op == "eq" and calls_of(t, "IntentParser::get_slots")]
                ctx.ob("no slots are answered only when every parser found none", con,
                       None if own and not rsv else verdict(False, [t for t, p in s.facts], e), "", w)
            continue
        for c in cs:
            el = c.a[1]
            if el.op != "elem" or el.a[0].op != "f" or el.a[0].a[0] is not self_:
                ctx.ob("the parser is one of the assistant's", con, verdict(False, el, e), show(el, 4), w)
                continue
            ctx.ob("parsers are tried from the first to the last", con, in_order(e, el, el.a[0]),
                   str(e.orders.get(el.a[1])), w)
            ctx.ob("the parser is asked for the given input and intent", con,
                   verdict(c.a[2] is inp and c.a[3] is intent, list(c.a[2:4]), e), show(c, 4), w)
            late = any(p and t.op == "app" and t.a[0] == "exhausted" and t.a[1] is el.a[0] for t, p in s.facts)
            ctx.ob("no other parser is tried once slots are found", con, not late, "", w)
            raw = vfld(c, "Ok", "0")
            ne = decide(s.facts, eq(app("len", raw), I(0)))
            ctx.ob("the answer of a parser is used when it has slots", con,
                   True if ne is False else (False if not late else None), "", w)
        if rsv and cs:
            good = v.op == "vf" and v.a[0].op == "app" and v.a[0].a[0] == rsv["path"] and \
                v.a[0].a[1] is self_ and v.a[0].a[2] is inp and v.a[0].a[3] is vfld(cs[0], "Ok", "0") and v.a[0].a[4] is ns
            ctx.ob("the answer is resolved as a whole against the input", con, verdict(good, v, e), show(v, 5), w)
    ctx.ob("there are results to check", con, n > 0 or None, "%d" % n, w)


def loading(ctx):
    """The loaded list: one parser per listed name, in the listed order, from the directory of that name."""
    b = ctx.prog.find("SnipsNluEngine::load_intent_parsers", optional=True)
    bip = ctx.anchor("intent_parser::build_intent_parser")
    fp = ctx.anchor("SnipsNluEngine::from_path")
    if bip is None or fp is None:
        return
    con = "loading the parsers"
    op = {bip["id"]}
    for nm in ("load_shared_resources", "SnipsNluEngine::load_model"):
        x = ctx.prog.find(nm, optional=True)
        if x:
            op.add(x["id"])
    ps = params(fp)
    e, rs = ctx.run(fp, ps, opaque=op)
    w = where(fp)
    n = 0
    for s, r in results(rs):
        for v in alts(fld(r, "intent_parsers")):
            n += 1
            gs = gens_of(v)
            if gs is None:
                ctx.ob("the list of parsers can be followed", con, None, show(v, 4), w)
                continue
            o = v.a[2] if v.op == "coll" else None
            names = None
            if o is not None and o.op == "app" and o.a[0] == "o_src":
                names = o.a[1]
            good = names is not None and names.op == "f" and names.a[1] == "intent_parsers"
            ctx.ob("the parsers are loaded in the order of the model", con,
                   True if good else verdict(False, o, e) if o is not None and o.a[0] in
                   ("o_rev", "o_sorted", "o_hash", "o_skip", "o_take") else None, show(o, 5) if o else "", w)
            for x, conds, bnd in gs:
                c = ok_of(x, "build_intent_parser")
                if c is None or not good:
                    ctx.ob("each listed parser is loaded", con, None, show(x, 5), w)
                    continue
                els = [y for y in subterms(c.a[2]) if y.op == "elem" and y.a[0] is names]
                dirs = [y for y in subterms(c.a[2]) if y is ps[0]]
                ctx.ob("each listed parser is loaded from its own directory", con,
                       verdict(bool(els and dirs), c.a[2], e), show(c.a[2], 5), w)
                skip = [(t, p) for t, p in conds if not (t.op == "is" and t.a[1] in ("Ok", "Err"))
                        and not (t.op == "app" and t.a[0] == "contains")]
                ctx.ob("no listed parser is left out", con, True if not skip else
                       verdict(False, [t for t, p in skip], e), "; ".join(show(t, 4) for t, p in skip), w)
                meta = c.a[1]
                els = [y for y in subterms(meta) if y.op == "elem" and y.a[0] is names]
                ctx.ob("the kind of a parser is read from its own directory", con, verdict(bool(els), meta, e),
                       show(meta, 5), w)
    ctx.ob("there are results to check", con, n > 0 or None, "%d" % n, w)


# ---------------------------------------------------------------------------------------------- C06

@check("C06")
def c06(ctx):
    """What one parser answers.  Table parsers: each successful result is either an entry of the ranked matches under
    the fact that its score exceeds one half, or no intent with confidence one and no slots; the ranked matches carry,
    as score, a weight that strictly decreases with the number of slots, divided by the sum of these weights.  The
    probabilistic parser: the classifier's answer with the slots that the filler registered for that very intent
    finds in the same input."""
    impls = [(t, b) for t, b in ctx.prog.trait_impls("IntentParser", "parse") if not t.endswith("MockedIntentParser")]
    ctx.floor("parsers", len(impls), 3)
    tables = 0
    for t, b in impls:
        con = t.split("::")[-1]
        ps = params(b)
        tops = ctx.prog.find(con + "::parse_top_intents", optional=True)
        if tops is not None:
            tables += 1
            table_parse(ctx, con, b, ps, tops)
            table_scores(ctx, con, tops)
            own_slots(ctx, t, con, tops)
        else:
            prob_parse(ctx, con, b, ps)
    ctx.floor("parsers with ranked matches", tables, 0)


def table_parse(ctx, con, b, ps, tops):
    w = where(b)
    e, rs = ctx.run(b, ps, opaque={tops["id"]})
    n = {True: 0, False: 0}
    for s, r in results(rs):
        for v in alts(r):
            x = v
            if x.op == "st":
                # rebuilt from its parts
                it = fld(x, "intent")
                if it.op == "f" and it.a[1] == "intent" and fld(x, "slots") is fld(it.a[0], "slots"):
                    x = it.a[0]
            if x.op == "elem" and calls_of(x, "::parse_top_intents"):
                n[True] += 1
                sc = fld(fld(x, "intent"), SCORE)
                ctx.ob("an intent is answered only when its score exceeds one half", con,
                       exceeds_half(s.facts, sc, e), "; ".join(("" if p else "not ") + show(t, 4) for t, p in s.facts
                                                               if any(y is sc for y in subterms(t)))[:300], w)
                c = calls_of(x, "::parse_top_intents")[0]
                ctx.ob("the matches are those of the same input and filter", con,
                       verdict(list(c.a[2:]).count(ps[1]) == 1 and ps[2] in c.a[2:], list(c.a[2:]), e), show(c, 4), w)
                for a in c.a[2:]:
                    if a.op == "c" and isinstance(a.a[1], int) and not isinstance(a.a[1], bool):
                        ctx.ob("a match is asked for", con, a.a[1] >= 1, show(c, 4), w)
                o = e.orders.get(x.a[1])
                if o is not None and o.op == "app":
                    ctx.ob("the best ranked match is answered", con, True if o.a[0] == "o_src" else
                           False if o.a[0] in ("o_rev", "o_skip") else None, show(o, 3), w)
                n_ = [a for a in c.a[2:] if a.op == "c" and isinstance(a.a[1], int) and not isinstance(a.a[1], bool)]
                if any(p and t.op == "app" and t.a[0] == "last_of" and t.a[2] is x for t, p in s.facts):
                    ctx.ob("the best ranked match is answered", con, True if n_ and n_[0].a[1] == 1 else False if n_ else None,
                           "the last of those asked for", w)
            else:
                nm = fld(fld(v, "intent"), NAME)
                d = decide(s.facts, isv(nm, "Some"))
                n[False] += 1
                ctx.ob("without an unambiguous match no intent is answered", con,
                       True if d is False else verdict(False, v, e), show(v, 5), w)
                sl = fld(v, "slots")
                ctx.ob("no slots are answered without an intent", con, verdict(is_empty_list(sl), sl, e), show(sl, 4), w)
                sc = fld(fld(v, "intent"), SCORE)
                one_ = sc.op == "c" and float(sc.a[1]) == 1.0
                ctx.ob("no intent is answered with confidence one", con, verdict(one_, sc, e), show(sc, 4), w)
                # must not drop an unambiguous match
                got = [t for t, p in s.facts if p and t.op == "app" and t.a[0] == "contains" and
                       t.a[2].op == "elem" and calls_of(t.a[2], "::parse_top_intents")]
                for t in got:
                    sc2 = fld(fld(t.a[2], "intent"), SCORE)
                    if any(p and u.op == "app" and u.a[0] == "exhausted" for u, p in s.facts):
                        continue
                    ctx.ob("an unambiguous match is not dropped", con, not_above_half(s.facts, sc2, e), show(sc2, 4), w)
    ctx.ob("results with and without intent exist", con, (n[True] > 0 and n[False] > 0) or
           (False if n[False] > 0 and not e.incomplete and not opaque_results(rs, e) else None), str(n), w)


def cmp_half(facts, sc):
    """Truth of `sc > c` style facts: [(op, const, truth)] with op in gt (sc > c), ge."""
    out = []
    for t, p in facts:
        if t.op != "app" or t.a[0] not in ("flt", "fle"):
            continue
        a, b = t.a[1], t.a[2]
        if a is sc and b.op == "c":
            c = float(b.a[1])
            out.append(("ge" if t.a[0] == "flt" else "gt", c, not p))
        elif b is sc and a.op == "c":
            c = float(a.a[1])
            out.append(("gt" if t.a[0] == "flt" else "ge", c, p))
    return out


def exceeds_half(facts, sc, e):
    cs = cmp_half(facts, sc)
    if any(v and ((op == "gt" and c >= 0.5) or (op == "ge" and c > 0.5)) for op, c, v in cs):
        return True
    if any(opaque_parts(t, e) for t, p in facts if any(y is sc for y in subterms(t))):
        return None
    return False


def not_above_half(facts, sc, e):
    """On this path the score is known to be at most one half."""
    cs = cmp_half(facts, sc)
    if any(not v and ((op == "gt" and c <= 0.5) or (op == "ge" and c <= 0.5)) for op, c, v in cs):
        return True
    if any(not v for op, c, v in cs):
        return False
    return None


def slots_len_leaf(t):
    """len(X.slots) with X a match"""
    return t.op == "app" and t.a[0] in ("len", "count") and t.a[1].op == "f" and t.a[1].a[1] == "slots"


def table_scores(ctx, con, tops):
    from .replace import path_of, sorts
    ps = params(tops)
    op = set()
    for n in ("get_matching_result", "parse_map_output", "get_candidates", "preprocess_text"):
        x = ctx.prog.find(con + "::" + n, optional=True)
        if x:
            op.add(x["id"])
    for n in ("utils::replace_entities", "utils::deduplicate_overlapping_entities"):
        x = ctx.prog.find(n, optional=True)
        if x:
            op.add(x["id"])
    w = where(tops)
    e, rs = ctx.run(tops, ps, opaque=op)
    n = 0
    for s, r in results(rs):
        for v in alts(r):
            gs = gens_of(v)
            if gs is None:
                ctx.ob("the ranked matches can be followed", con, None, show(v, 4), w)
                continue
            core = v.a[2] if v.op == "coll" else None
            while core is not None and core.op == "app" and core.a[0] == "o_take":
                core = core.a[1]
            conf = lambda t, els: els[path_of(t)[0].a[0]] if path_of(t)[0].op == "s" and path_of(t)[1][-1:] == (SCORE,) \
                and path_of(t)[0].a[0] in els else None
            if gs:
                ctx.ob("the surest match is ranked first", con, sorts(core, lambda a, c: a > c, [0.1, 0.3, 0.5, 0.9], conf),
                       show(core, 6) if core is not None else "", w)
            for x, conds, bnd in gs:
                n += 1
                sc = fld(fld(x, "intent"), SCORE)
                if not (sc.op == "app" and sc.a[0] == "fdiv"):
                    ctx.ob("the score of a match is its share of the weights", con,
                           verdict(False, sc, e) if not sc.op == "app" else None, show(sc, 5), w)
                    continue
                wt, tot = sc.a[1], sc.a[2]
                off = displaced(e, wt)
                ctx.ob("the score of a match is its share of the weights", con, not off, "the weight at %s" % show(off[0], 3) if off else "", w)
                ctx.ob("the weight of a match strictly decreases with its number of slots", con, decreasing(wt, e),
                       show(wt, 8), w)
                if not (tot.op == "app" and tot.a[0] == "sum"):
                    core = tot
                    while core.op == "app" and core.a[0].startswith("cast:"):
                        core = core.a[1]
                    number = core.op == "app" and core.a[0] == "len" and gens_of(core.a[1]) is not None
                    ctx.ob("the weights are divided by their sum", con, False if number else verdict(False, tot, e)
                           if tot.op == "c" else None, show(tot, 4), w)
                    continue
                g2 = gens_of(tot.a[1])
                ctx.ob("the weights are divided by their sum", con, True if g2 else None, show(tot, 4), w)
                for y, c2, b2 in g2 or ():
                    ctx.ob("the summed weights are the weights of the matches", con,
                           same_weight(y, wt), show(y, 6), w)
    ctx.ob("there are matches to check", con, n > 0 or None, "%d" % n, w)


def displaced(e, t):
    """Positions, other than that of a match itself, from which a part of a term was taken."""
    inv, out = {v: k[0] for k, v in e.freshtab.items()}, []
    for tag in t.tags:
        seen = set()
        while tag is not None and tag not in seen:
            seen.add(tag)
            i = e.indexed.get(tag)
            if i is not None and i.op == "lin" and any(y.op == "app" and y.a[0] == "pos" for y, k in i.a[1]):
                out.append(i)
            tag = inv.get(tag)
    return out


def opaque_results(rs, e):
    """Is there an answer, which is not known to be an error, whose parts cannot be followed?"""
    return any(opaque_parts(v, e) for _, r in results(rs) for v in alts(r))


def weights(t, upto=12):
    out = []
    for k in range(upto):
        out.append(num(t, lambda u: k if slots_len_leaf(u) else None))
    return out


def decreasing(t, e):
    from ..models import PARTIAL
    from .patterns import opaque_only
    try:
        ws = weights(t)
    except NoValue:
        # (a number of different ones, or of a part, of the slots can be the same for more of them)
        some = [y for y in subterms(t) if y.op == "app" and y.a[0] in ("len", "count") and y.a[1].op == "coll" and y.a[1].a[2] is not None and
                any(z.op == "app" and z.a[0] in PARTIAL + ("o_unique",) for z in subterms(y.a[1].a[2]))]
        return False if some and not opaque_only(list(subterms(t)), e) else None
    return all(a > b > 0 for a, b in zip(ws, ws[1:]))


def same_weight(a, b):
    try:
        return weights(a) == weights(b)
    except NoValue:
        return None


def prob_parse(ctx, con, b, ps):
    w = where(b)
    self_, inp, wl = ps
    e, rs = ctx.run(b, ps)
    n = {True: 0, False: 0}
    for s, r in results(rs):
        for v in alts(r):
            it = fld(v, "intent")
            c = ok_of(it, "IntentClassifier::get_intent")
            ctx.ob("the intent is the classifier's answer", con, verdict(c is not None, it, e), show(it, 4), w)
            if c is None:
                continue
            ctx.ob("the classifier is asked for the same input and filter", con,
                   verdict(c.a[2] is inp and c.a[3] is wl, list(c.a[2:4]), e), show(c, 4), w)
            nm = fld(it, NAME)
            d = decide(s.facts, isv(nm, "Some"))
            for sl in alts(fld(v, "slots")):
                if d is False:
                    n[False] += 1
                    ctx.ob("no slots are answered without an intent", con, verdict(is_empty_list(sl), sl, e),
                           show(sl, 4), w)
                    continue
                n[True] += 1
                f = ok_of(sl, "SlotFiller::get_slots")
                if f is None:
                    ctx.ob("the slots are found by the filler of the answered intent", con,
                           False if d and is_empty_list(sl) else verdict(False, sl, e), show(sl, 4), w)
                    continue
                filler = f.a[1]
                good = filler.op == "app" and filler.a[0] == "get!" and filler.a[2] is vfld(nm, "Some", "0") and \
                    any(y is self_ for y in subterms(filler.a[1]))
                ctx.ob("the slots are found by the filler of the answered intent", con, verdict(good, filler, e),
                       show(filler, 4), w)
                ctx.ob("the filler reads the same input", con, verdict(f.a[2] is inp, f.a[2], e), show(f.a[2], 4), w)
    ctx.ob("results with and without intent exist", con, (n[True] > 0 and n[False] > 0) or None, str(n), w)
    # slots of a given intent
    g = [x for t, x in ctx.prog.trait_impls("IntentParser", "get_slots") if t.split("::")[-1] == con]
    for x in g:
        p2 = params(x)
        e, rs = ctx.run(x, p2)
        for s, r in results(rs):
            f = ok_of(r, "SlotFiller::get_slots")
            good = f is not None and f.a[1].op == "app" and f.a[1].a[0] == "get!" and f.a[1].a[2] is p2[2] and f.a[2] is p2[1]
            ctx.ob("the slots of an intent are found by its own filler", con, verdict(good, r, e), show(r, 5), where(x))
    loaded_fillers(ctx, con)


def own_slots(ctx, t, con, tops):
    """Asked for the slots of an intent, a table parser gives those of the same text's match of that very intent, or none."""
    rule = "the slots of an intent are those of its own match"
    for t2, x in ctx.prog.trait_impls("IntentParser", "get_slots"):
        if t2 != t:
            continue
        ps, w = params(x), where(x)
        own = {b["id"] for tt, b in ctx.prog.trait_impls("IntentParser", "parse") if tt == t} | {tops["id"]}
        e, rs = ctx.run(x, ps, opaque=own)
        for s, r in results(rs):
            for v in alts(r):
                if is_empty_list(v):
                    continue
                cs = [y for y in subterms(v) if y.op == "app" and len(y.a) > 1 and y.a[1] is ps[0] and y.a[0].split("::")[-1] in ("parse", "parse_top_intents")]
                if not cs:
                    ctx.ob(rule, con, None, show(v, 5), w)
                for c in cs:
                    fl = c.a[-1]
                    ctx.ob("the slots of an intent are looked for in the text given", con, True if c.a[2] is ps[1] else
                           (None if opaque_parts(c.a[2], e) else False), show(c, 5), w)
                    lst = vfld(fl, "Some", "0") if not (fl.op == "en") else fl.a[3][0] if fl.a[1] == "Some" else None
                    tied = [q for q, p in s.facts if any(y is ps[2] for y in subterms(q)) and any(y is c for y in subterms(q))]
                    if lst is not None:
                        els = [g[0] for g in gens_of(lst) or ()] if lst.op != "list" else list(lst.a[1])
                        good = bool(els) and all(y is ps[2] for y in els)
                        st = True if good else None if not els or tied or any(opaque_parts(y, e) for y in els) else False
                    else:
                        # (the one match of all intents may be another intent's, or be dropped as ambiguous)
                        st = None if tied and (fl.op != "en" or c.a[0].split("::")[-1] != "parse") else False
                    ctx.ob(rule, con, st, show(c, 6), w)


def loaded_fillers(ctx, con):
    """Each filler is registered under the intent it was trained for."""
    b = ctx.prog.find(con + "::from_path", optional=True)
    bsf = ctx.prog.find("slot_filler::build_slot_filler", optional=True)
    bic = ctx.prog.find("intent_classifier::build_intent_classifier", optional=True)
    if not (b and bsf and bic):
        return
    e, rs = ctx.run(b, params(b), opaque={bsf["id"], bic["id"]})
    w = where(b)
    for s, r in results(rs):
        for m in alts(fld(r, "slot_fillers")):
            gs = gens_of(m)
            if gs is None:
                ctx.ob("the registered fillers can be followed", con, None, show(m, 4), w)
                continue
            for x, conds, bnd in gs:
                k, f = fld(x, "0"), fld(x, "1")
                c = ok_of(f, "build_slot_filler")
                if k.op == "f" and k.a[0].op == "elem" and c is not None:
                    el = [y for y in subterms(c.a[1]) if y.op == "elem"]
                    ctx.ob("a filler is registered under its own intent", con,
                           True if el and all(y is k.a[0] for y in el) and k.a[1] == "intent" else
                           False if k.a[1] != "intent" and len(el) == 1 and el[0] is k.a[0] else None,
                           show(x, 5), w)
                else:
                    ctx.ob("a filler is registered under its own intent", con, None, show(x, 5), w)
                skip = [(t, p) for t, p in conds if not (t.op == "is" and t.a[1] in ("Ok", "Err"))
                        and not (t.op == "app" and t.a[0] == "contains")]
                ctx.ob("no filler is left out", con, True if not skip else verdict(False, [t for t, _ in skip], e),
                       "; ".join(show(t, 4) for t, p in skip), w)
