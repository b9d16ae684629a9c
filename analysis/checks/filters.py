"""Intent filters."""

import re

from ..check import check, where
from ..lib import *
from ..models import cut_of

NAME = "intent_name"
CONTRACTS = ("IntentParser::parse", "IntentClassifier::get_intent")


def member_or_none(ctx, e, s, filt, name, depth=2):
    """Is the (optional) intent name None, or a member of the filter (Option<list>) whenever there is one?"""
    facts = s.facts
    d = decide(facts, isv(filt, "Some"))
    if d is False:
        return True, "no filter on this path"
    if name.op == "u":
        rs = [member_or_none(ctx, e, s, filt, x, depth) for x in name.a[0]]
        for r in rs:
            if r[0] is not True:
                return r
        return True, ""
    if decide(facts, isv(name, "Some")) is False or name.op == "en" and name.a[1] == "None":
        return True, "no intent"
    inner = vfld(name, "Some", "0")
    # an implementation of one of the interfaces under the same contract, given the same filter
    x = name
    while x.op in ("f", "vf"):
        x = x.a[0]
    if x.op == "app" and x.a[-1] is filt and any(x.a[0].endswith(c) for c in CONTRACTS) and x is not name:
        return True, "by the contract of the callee"
    for f in (alts(filt) if filt.op == "u" else [filt]):
        if f.op == "en" and f.a[1] == "None":
            continue
        F = vfld(f, "Some", "0")
        if holds(e, facts, app("contains", F, inner)) is not True:
            break
    else:
        return True, "membership in the filter is established"
    if depth:
        us = unfold(ctx, name)
        if us is not None and us != [name]:
            for u in us:
                r = member_or_none(ctx, e, s, filt, u, depth - 1)
                if r[0] is not True:
                    return r
            return True, "through the callee"
    bad = opaque_parts(inner, e)
    if bad:
        return None, "cannot follow %s" % show(bad[0], 3)
    return False, "the intent %s is returned without a membership test against the filter %s" % (
        show(name, 6), show(filt, 4))


def filter_param(body):
    """The parameter that carries the filter: Option<&[&str]>."""
    return [i for i in range(body["argc"])][-1]


def shapes(e, rs, get):
    """The forms of the answers that name an intent."""
    out = set()
    for s, res in results(rs):
        for x in alts(get(res)):
            if decide(s.facts, isv(x, "Some")) is not False and not (x.op == "en" and x.a[1] == "None"):
                out.add(re.sub("<[^<>]*>", "", show(x, 6)))
    return out


def unrestricted(ctx, body, ps, filt, con, within):
    """Without a filter, every answer that a filter allows is given too."""
    e, rs = ctx.run(body, ps, facts={(isv(filt, "Some"), False)}, focus=[filt], slice_on=True)
    free = shapes(e, rs, get_of(body))
    lost = within - free
    ctx.ob("an absent filter allows every intent", con, True if within and not lost else
           (False if within and free < within and not e.incomplete else None), "; ".join(sorted(lost))[:300], where(body))


def get_of(body):
    if body["path"].endswith("get_intent"):
        return lambda r: fld(r, NAME)
    return lambda r: fld(fld(r, "intent"), NAME)


def impl_contract(ctx, trait, method, get):
    impls = ctx.prog.trait_impls(trait, method)
    for selfty, body in impls:
        ps = params(body)
        filt = ps[-1]
        e, rs = ctx.run(body, ps, facts={(isv(filt, "Some"), True)}, focus=[filt], slice_on=True)
        n = 0
        con = "%s::%s" % (selfty.split("::")[-1], method)
        status, msg = True, ""
        for s, res in results(rs):
            n += 1
            st, m = member_or_none(ctx, e, s, filt, get(res))
            if st is not True and status is not False:
                status, msg = st, m
        if e.incomplete and status is True:
            status, msg = None, str(e.incomplete)
        ctx.ob("result of an implementation is within the filter it is given", con, status,
               msg or "%d results" % n, where(body))
        ctx.ob("an implementation has results to check", con, n > 0 or None, "%d" % n, where(body))
        unrestricted(ctx, body, ps, filt, con, shapes(e, rs, get))
    return len(impls)


@check("C01")
def c01(ctx):
    """For every implementation of the parser and classifier interfaces, every returned intent is shown to be
    absent or a member of the filter argument (path conditions over the compiled code; calls that do not see the
    filter are left opaque).  For the engine, the filter handed to the parsers and applied to the alternatives is
    shown to be exactly the caller's whitelist minus the caller's blacklist."""
    n = impl_contract(ctx, "IntentParser", "parse", lambda r: fld(fld(r, "intent"), NAME))
    ctx.floor("intent parsers", n, 3)
    n = impl_contract(ctx, "IntentClassifier", "get_intent", lambda r: fld(r, NAME))
    ctx.floor("intent classifiers", n, 1)
    engine_filter(ctx)


def engine_run(ctx):
    b = ctx.anchor("SnipsNluEngine::parse_with_alternatives")
    if b is None:
        return None
    op = set()
    for nm in ("get_intents", "get_slots_with_alternatives"):
        x = ctx.prog.find("SnipsNluEngine::" + nm, optional=True)
        if x is not None:
            op.add(x["id"])
    ps = params(b)
    e, rs = ctx.run(b, ps, opaque=op, focus=ps[2:4])
    return b, ps, e, rs


def effective(e, s, x, wl, bl):
    """Is x within the caller's filter under the facts?  (True, None) / (False, reason) / (None, reason)"""
    f = s.facts
    for lst, pol, nm in ((wl, True, "whitelist"), (bl, False, "blacklist")):
        if decide(f, isv(lst, "Some")) is not False:
            if decide(f, isv(lst, "Some")) is None:
                return None, "filter state unknown"
            if holds(e, f, app("contains", vfld(lst, "Some", "0"), x), pol) is not True:
                return False, "not shown %s the %s" % ("inside" if pol else "outside", nm)
    return True, ""


def restrictive(e, s, F, wl, bl, conds, v):
    """Facts on the members of the filter that the caller's lists do not imply."""
    out = []
    for t, p in conds:
        fs = set(s.facts)
        keys = [x for x in subterms(t) if x.op == "f" and x.a[1] == "slot_name_mappings"]
        fs.add((app("contains", vfld(wl, "Some", "0"), v), True)) if decide(s.facts, isv(wl, "Some")) else None
        fs.add((app("contains", vfld(bl, "Some", "0"), v), False)) if decide(s.facts, isv(bl, "Some")) else None
        if holds(e, fs, t, p) is True:
            continue
        if t.op == "app" and t.a[0] == "contains" and keys and p:
            continue            # membership in the trained intents: implied by the validation (C02)
        if t.op == "eq" and p:
            continue            # instance of another list's element
        if t.op == "app" and t.a[0] == "contains" and p and any(
                x.op == "elem" for x in subterms(t.a[2])) and decide(s.facts, isv(wl, "Some")):
            if t.a[1] is vfld(wl, "Some", "0"):
                continue
        out.append((t, p))
    return out


def check_filter_value(ctx, e, s, filt, wl, bl, con, w):
    """The filter passed on is exactly whitelist minus blacklist."""
    w0, b0 = decide(s.facts, isv(wl, "Some")), decide(s.facts, isv(bl, "Some"))
    if w0 is None or b0 is None:
        ctx.ob("filter passed on is the caller's", con, None, "whitelist/blacklist presence undecided", w)
        return
    for f in alts(filt):
        d = decide(s.facts, isv(f, "Some"))
        if not w0 and not b0:
            ctx.ob("no filter when the caller gives none", con, (d is False) or (None if d is None else False),
                   show(f, 4), w)
            continue
        if d is not True:
            ctx.ob("a filter is passed on when the caller gives one", con, False if d is False else None, show(f, 4), w)
            continue
        F = vfld(f, "Some", "0")
        W = vfld(wl, "Some", "0")
        if F is W and w0 and not b0:
            ctx.ob("filter passed on is the caller's", con, True, "the whitelist itself", w)
            continue
        gs = gens_of(F)
        if gs is None:
            bad = opaque_parts(F, e)
            st = False if F in (W, vfld(bl, "Some", "0")) else None
            ctx.ob("filter passed on is the caller's", con, st, "filter is %s" % show(F, 5), w)
            continue
        for v, conds, bound in gs:
            s2 = State({}, s.facts | conds, frozenset())
            r, m = effective(e, s2, v, wl, bl)
            ctx.ob("filter passed on is within the caller's", con, r, "%s: %s" % (show(v, 5), m), w)
            cut = [o for o in [cut_of(F.a[2]) if F.op == "coll" else None] + [cuts(e, q) for q in subterms(v) if q.op == "elem"] if o is not None]
            ctx.ob("filter passed on keeps every intent the caller allows", con, not cut, show(cut[0], 4) if cut else "", w)
            ex = restrictive(e, s, F, wl, bl, conds, v)
            if ex:
                ctx.ob("filter passed on keeps every intent the caller allows", con, None if opaque_parts(ex[0][0], e) or e.incomplete else False,
                       "extra condition %s" % show(ex[0][0], 6), w)
            else:
                ctx.ob("filter passed on keeps every intent the caller allows", con, True, "", w)
        if not gs:
            ctx.ob("filter passed on keeps every intent the caller allows", con, False, "empty filter", w)


def engine_filter(ctx):
    r = engine_run(ctx)
    if r is None:
        return
    b, ps, e, rs = r
    wl, bl = ps[2], ps[3]
    ncalls = 0
    for ev in e.events.values():
        if ev.kind == "virt" and ev.name.endswith("IntentParser::parse"):
            ncalls += 1
            st = State({}, ev.facts, frozenset())
            check_filter_value(ctx, e, st, ev.args[2], wl, bl, "SnipsNluEngine::parse_with_alternatives -> parser",
                               where(b, ev.line))
    ctx.ob("the engine queries its parsers", "SnipsNluEngine::parse_with_alternatives", ncalls > 0 or None,
           "%d call contexts" % ncalls, where(b))
    ctx.count("parser_call_contexts", ncalls)
    # top-level intent: that of a parser queried with the filter, or none
    for s, res in results(rs):
        for r_ in alts(res):
            name = fld(fld(r_, "intent"), NAME)
            for nm in alts(name):
                if nm.op == "en" and nm.a[1] == "None":
                    ctx.ob("top intent comes from a filtered parser", "no intent", True)
                    continue
                calls = [x for x in subterms(nm) if x.op == "app" and x.a[0].endswith("IntentParser::parse")]
                if calls:
                    ctx.ob("top intent comes from a filtered parser", "parsed", True, show(nm, 5))
                elif opaque_parts(nm, e):
                    ctx.ob("top intent comes from a filtered parser", show(nm, 3), None)
                else:
                    r2, m = effective(e, s, vfld(nm, "Some", "0"), wl, bl)
                    ctx.ob("top intent comes from a filtered parser", show(nm, 3), r2, m, where(b))
            for al in alts(fld(r_, "alternatives")):
                gs = gens_of(al)
                if gs is None:
                    ctx.ob("alternatives are within the filter", show(al, 3), None)
                    continue
                for v, conds, bound in gs:
                    s2 = State({}, s.facts | conds, frozenset())
                    nm = fld(fld(v, "intent"), NAME)
                    if decide(s2.facts, isv(nm, "Some")) is False:
                        ctx.ob("alternatives are within the filter", "no intent", True)
                        continue
                    if opaque_parts(nm, e):
                        ctx.ob("alternatives are within the filter", show(nm, 3), None, "cannot follow", where(b))
                        continue
                    r2, m = effective(e, s2, vfld(nm, "Some", "0"), wl, bl)
                    ctx.ob("alternatives are within the filter",
                           "alternatives of SnipsNluEngine::parse_with_alternatives", r2,
                           "%s %s" % (show(nm, 5), m), where(b))
