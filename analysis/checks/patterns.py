"""C16: which texts the deterministic parser matches which patterns against; C17: the slots a match yields."""
from itertools import permutations, product

from ..check import check, where
from ..engine import decide
from ..lib import *
from ..models import cut_of
from ..terms import *
from .loading import deterministic_part, last
from .replace import (Other, chars, cut, marks_pushes, parts, path_of, PUSHED, range_leaf, reduction, same, sorts, span, truth,
                      value, NoValue, before, SPANS, overlap)
from .features import debare

PARSER = "DeterministicIntentParser"
HELPERS = ("%s::preprocess_text" % PARSER, "utils::replace_entities", "deterministic_intent_parser::deduplicate_overlapping_slots",
           "deterministic_intent_parser::get_range_shift")


class Parser:
    """The parser, with the steps it is made of left as they are called."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.body = ctx.prog.find(PARSER + "::parse_top_intents", optional=True) or ctx.anchor(PARSER + "::parse_top_intents")
        if self.body is None:
            return
        self.h = {h.split("::")[-1]: ctx.prog.find(h, optional=True) for h in HELPERS}
        self.ps = params(self.body)
        self.me, self.input = self.ps[0], self.ps[1]
        ev = []
        self.e, self.rs = ctx.run(self.body, self.ps, hooks={"Vec::push": marks_pushes(ev)},
                                  opaque={b["id"] for b in self.h.values() if b is not None})
        seen, self.results = set(), []
        for l, x, f in ev:
            if is_result(x) and (l.op != "list" or l.a[1] or not any(is_result(y) and (m.op != "list" or m.a[1]) for m, y, g in ev)):
                k = (x, f)
                if k not in seen:
                    seen.add(k)
                    self.results.append((x, f))

    def intent(self, x):
        n = fld(fld(x, "intent"), "intent_name")
        return vfld(n, "Some", "0") if n.op == "en" else pay(n)

    def regexes(self, i):
        return app("get!", fld(self.me, "regexes_per_intent"), i)

    def scope(self, i):
        return app("get!", fld(self.me, "entity_scopes"), i)

    def text_of(self, t, i):
        """'raw', 'replaced' or None: which text it is, cleaned of the stop words of intent i."""
        if t.op == "app" and last(t.a[0]) == "preprocess_text" and len(t.a) == 4 and t.a[1] is self.me:
            if t.a[3] is not i:
                return None
            if t.a[2] is self.input:
                return "raw"
            q = t.a[2]
            if q.op == "f" and q.a[1] == "1" and q.a[0].op == "app" and last(q.a[0].a[0]) == "replace_entities":
                return "replaced"
        return None


def is_result(x):
    return x.op == "st" and x.a[0].split("<")[0].endswith("InternalParsingResult")


def unknowns(t, e, names):
    """What is not understood in a term, apart from calls whose meaning is taken as known (and what they are given)."""
    return [q for q in opaque_only(outside(t, names), e) if not (q.op == "app" and last(q.a[0]) in names)] + \
        [q for q in subterms(t) if q in e.guarded]


def opaque_only(qs, e):
    return [x for x in qs if x.op in ("top", "phi") or x.op == "app" and (x.a[0] in ("apply", "callconst", "rec-closure", "after") or x.a[0] in e.unknown_names)]


WORDS = ("tokenize", "normalized_value", "normalize", "charlen", "tokenize_light")


def matched(facts, r, kind, p, i):
    """Did the pattern match the text of a kind, on a path?  True / False / None (not asked)"""
    out = None
    for t, pol in facts:
        if t.op == "app" and last(t.a[0]) == "is_match" and t.a[1] is r and p.text_of(t.a[2], i) == kind:
            if not pol:
                return False
            out = True
        if t.op == "app" and t.a[0] == "exhausted" and pol and t.a[1].op == "app" and last(t.a[1].a[0]) in ("captures_iter", "find_iter") \
                and t.a[1].a[1] is r and p.text_of(t.a[1].a[2], i) == kind:
            return False
        if t.op == "is" and t.a[0].op == "app" and last(t.a[0].a[0]) in ("captures", "find") and t.a[0].a[1] is r and \
                p.text_of(t.a[0].a[2], i) == kind:
            some = (t.a[1] == "Some") is pol
            if not some:
                return False
            out = True
    return out


@check("C16")
def c16(ctx):
    """The deterministic parser's entry point is summarised with its steps left opaque: the patterns searched, the texts
    they are matched against and the paths on which a pattern is passed over are read off the summary; the loop that
    removes stop words is checked by induction over sums of character positions."""
    p = Parser(ctx)
    if p.body is None:
        return
    w = where(p.body)
    con = PARSER + "::parse_top_intents"
    e = p.e
    n = 0
    for x, facts in p.results:
        i = p.intent(x)
        caps = captured(p, x, facts)
        if not caps:
            ctx.ob("a result comes from a match", con, None, show(x, 4), w)
            continue
        for c, r, t in caps:
            n += 1
            own = r.op == "elem" and r.a[0] is p.regexes(i)
            ctx.ob("the patterns matched are those of the intent", con, True if own else
                   (None if opaque_parts(r, e) else False), show(r, 5), w)
            if own:
                o = e.orders.get(r.a[1].rstrip("~"))
                if o is not None and o.op == "app":
                    ctx.ob("patterns are tried in the trained order", con, not cut(o) and last(o.a[0]) in ("o_src",), show(o, 4), w)
            kind = p.text_of(t, i)
            ctx.ob("a pattern is matched against the text, or the text with its entities replaced, without the intent's stop words", con,
                   True if kind else (None if [q for q in opaque_parts(t, e) if not (q.op == "app" and last(q.a[0]) in
                                      ("preprocess_text", "replace_entities", "extract_entities", "to_lowercase", "get_entity_placeholder"))] else False),
                   show(t, 5), w)
            if kind == "replaced":
                ctx.ob("a match in the text as it is comes first", con, True if matched(facts, r, "raw", p, i) is False else
                       (None if other_text(p, facts, r, i) else False), "", w)
                entities(ctx, p, t.a[2].a[0], i, w)
        kinds = {p.text_of(t, i) for c, r, t in caps}
        ctx.ob("one match gives the result", con, len({c for c, r, t in caps}) == 1 or None, "%d" % len(caps), w)
    both = {p.text_of(t, p.intent(x)) for x, f in p.results for c, r, t in captured(p, x, f)}
    if None not in both:
        for k in ("raw", "replaced"):
            ctx.ob("patterns are matched against both texts", con, k in both, k, w)
    passed(ctx, p, con, w)
    once(ctx, p, con, w)
    partakes(ctx, p, con, w)
    cleaned(ctx)
    deterministic_part(ctx, "patterns", "stop words", "scopes")
    ctx.floor("matches", n, 2)


def captured(p, x, facts):
    """(captures, pattern, text) the result speaks about."""
    out = []
    for q in subterms(x):
        if q.op == "elem" and q.a[0].op == "app" and last(q.a[0].a[0]) == "captures_iter" and len(q.a[0].a) == 3:
            k = (q, q.a[0].a[1], q.a[0].a[2])
        elif q.op == "pay" and q.a[0].op == "app" and last(q.a[0].a[0]) == "captures" and len(q.a[0].a) == 3:
            k = (q, q.a[0].a[1], q.a[0].a[2])
        elif q.op == "vf" and q.a[1] == "Some" and q.a[0].op == "app" and last(q.a[0].a[0]) == "captures" and len(q.a[0].a) == 3:
            k = (q, q.a[0].a[1], q.a[0].a[2])
        else:
            continue
        if k not in out:
            out.append(k)
    return out


def entities(ctx, p, call, i, w):
    """The entities replaced in the text: those of the intent's own slots, found in the input."""
    con = PARSER + "::parse_top_intents"
    e = p.e
    ctx.ob("entities are replaced in the input", con, call.a[1] is p.input, show(call.a[1], 3), w)
    gs = gens_of(call.a[2])
    if gs is None:
        ctx.ob("the replaced entities can be followed", con, None, show(call.a[2], 4), w)
        return
    found = set()
    for x, conds, b in gs:
        rg, name = fld(x, "range"), fld(x, "entity_name")
        el, fs = path_of(rg)
        src = el.a[0] if el.op == "elem" else None
        while src is not None and src.op in ("vf", "pay"):
            src = src.a[0]
        ok = src is not None and src.op == "app" and last(src.a[0]) == "extract_entities" and fs == ("range",)
        if not ok:
            ctx.ob("the entities replaced are those found in the input", con, None if opaque_parts(x, e) else False, show(x, 5), w)
            continue
        kind = "builtin" if "builtin" in show(src.a[1], 6) else "custom"
        found.add(kind)
        good = src.a[2] is p.input
        ctx.ob("the entities replaced are those found in the input", con, good, show(src, 5), w)
        f = src.a[3]
        want = fld(p.scope(i), "0" if kind == "builtin" else "1")
        got = f.a[3][0] if f.op == "en" and f.a[1] == "Some" else None
        ctx.ob("the entities looked for are those of the intent's slots", con,
               True if got is want else (None if got is None and opaque_parts(f, e) or got is not None and [q for q in opaque_parts(got, e)] and got.op != "f" else False),
               show(f, 5), w)
        if kind == "builtin":
            okn = name.op == "app" and last(name.a[0]) == "identifier" and name.a[1] is fld(el, "entity_kind")
        else:
            okn = name is fld(el, "entity_identifier")
        ctx.ob("an entity is replaced under its own name", con, True if okn else
               (None if [q for q in opaque_parts(name, e) if not (q.op == "app" and last(q.a[0]) == "identifier")] else False), show(name, 5), w)
        sel = [(c, q) for c, q in selecting(e, frozenset(), conds) if any(y is el for y in subterms(c)) and
               not (c.op == "app" and c.a[0] == "contains")]
        ctx.ob("every entity of the intent's slots is replaced", con, True if not sel else
               (None if any(opaque_parts(c, e) for c, q in sel) else False), "; ".join(show(c, 4) for c, q in sel)[:200], w)
        part = cuts(e, el)
        ctx.ob("every entity of the intent's slots is replaced", con, part is None, show(part, 4) if part is not None else "", w)
    o = call.a[2].a[2] if call.a[2].op == "coll" else None
    part = cut_of(o) if o is not None else None
    ctx.ob("every entity of the intent's slots is replaced", con, part is None or None, show(o, 5) if o is not None else "", w)
    for k in ("builtin", "custom"):
        ctx.ob("builtin and custom entities are both replaced", con, k in found, k, w)


def passed(ctx, p, con, w):
    """The paths on which a pattern is passed over: only after it matched neither text."""
    e = p.e
    n = 0
    todo = []
    for v, base, miss, hit in e.searches:
        if v.op == "elem" and v.a[0].op == "app" and v.a[0].a[0] == "get!" and v.a[0].a[1] is fld(p.me, "regexes_per_intent"):
            todo += [(v, f) for f in miss]
    for tag, backs in e.rounds.items():
        for s in backs:
            for t, pol in s.facts:
                if pol and t.op == "app" and t.a[0] == "contains" and t.a[2].op == "elem" and t.a[2].a[0] is t.a[1] and t.a[1].op == "app" \
                        and t.a[1].a[0] == "get!" and t.a[1].a[1] is fld(p.me, "regexes_per_intent") and (PUSHED, True) not in s.facts \
                        and current(e, t.a[2], tag):
                    todo.append((t.a[2], s.facts))
    for r, facts in todo:
        i = r.a[0].a[2]
        n += 1
        for kind in ("raw", "replaced"):
            m = matched(facts, r, kind, p, i)
            ctx.ob("a pattern is passed over only if it matches neither text", con,
                   True if m is False else (None if other_text(p, facts, r, i) else False),
                   "%s: %s" % (kind, "; ".join(("" if q else "not ") + show(t, 4) for t, q in sorted(facts, key=lambda f: f[0].id) if any(y is r for y in subterms(t)))[:400]), w)
    ctx.ob("the patterns passed over can be followed", con, n > 0 or None, "%d" % n, w)
    # a match is passed over only when it is empty of groups
    for tag, backs in e.rounds.items():
        for s in backs:
            if (PUSHED, True) in s.facts:
                continue
            for t, pol in s.facts:
                if pol and t.op == "app" and t.a[0] == "contains" and t.a[1].op == "app" and last(t.a[1].a[0]) == "captures_iter" and \
                        t.a[2].op == "elem" and current(e, t.a[2], tag):
                    c = t.a[2]
                    d = decide(s.facts, eq(app("len", c), C("int", 0)))
                    if not d and allows(s.facts, c):
                        d = None
                        ctx.ob("a match is passed over only when it has no groups", con, False, "a match of the whole pattern alone", w)
                        continue
                    ctx.ob("a match is passed over only when it has no groups", con, True if d else
                           (None if [q for q, z in s.facts if any(y is c for y in subterms(q)) and unknowns(q, e, ("captures_iter",)) and
                                     not (q.op == "app" and q.a[0] == "contains")] else False), "; ".join(("" if z else "not ") + show(q, 4) for q, z in s.facts if any(y is c for y in subterms(q)))[:300], w)


def allows(facts, c):
    """Everything asked about the match is about its number of groups, and holds when there is one, the match itself."""
    for t, p in facts:
        if not any(y is c for y in subterms(t)) or t.op == "app" and t.a[0] == "contains":
            continue
        try:
            if t.op == "eq":
                z = num(t.a[0], lambda y: 1 if y is app("len", c) else None) == num(t.a[1], lambda y: 1 if y is app("len", c) else None)
            elif t.op == "ge0":
                z = num(t.a[0], lambda y: 1 if y is app("len", c) else None) >= 0
            else:
                return False
        except NoValue:
            return False
        if z != p:
            return False
    return True


def other_text(p, facts, r, i):
    """The path asks something about the pattern that is not understood."""
    out = []
    for t, pol in facts:
        if not any(y is r for y in subterms(t)):
            continue
        for q in subterms(t):
            if q.op == "app" and q.a[0] in p.e.unknown_names and last(q.a[0]) not in (
                    "is_match", "captures_iter", "captures", "find_iter", "preprocess_text", "replace_entities", "extract_entities", "capture_names",
                    "deduplicate_overlapping_slots", "start", "end", "identifier", "get_entity_placeholder", "iter"):
                out.append(q)
            if q.op == "top":
                out.append(q)
    return out


def current(e, el, loop):
    """Is it the element the round of the loop is about?"""
    ls = e.tag_loops.get(el.a[1])
    return ls is not None and ls == e.tag_loops.get(loop)


def once(ctx, p, con, w):
    """At most one result per intent: results are pushed in the rounds over the intents."""
    for x, facts in p.results:
        i = p.intent(x)
        sc = app("keys", fld(p.me, "entity_scopes"))
        own = i.op == "elem"
        ctx.ob("results bear the intent whose patterns matched", con, True if own else (None if opaque_parts(i, p.e) else False), show(i, 4), w)


def partakes(ctx, p, con, w):
    """Every intent allowed takes part: the intents gone through are all those of the model, or those asked for."""
    rule = "every intent that is allowed takes part"
    e = p.e
    maps = [app("keys", fld(p.me, n)) for n in ("entity_scopes", "slot_names_to_entities", "regexes_per_intent")]
    maps += [m.a[1] for m in maps]
    own = lambda t: any(y is p.me for y in subterms(t))
    steps = ("captures_iter", "captures", "is_match", "find_iter", "extract_entities", "preprocess_text", "replace_entities")
    for s, r in results(p.rs):
        for it in early(e, s):
            over = [x for x, f, b in gens_of(it) or ()] or [it]
            over = [y for x in over for y in alts(x)]
            if any(strip(y) in maps or y in maps for x in over for z in subterms(x) for y in [z.a[0] if z.op == "elem" else z]):
                ctx.ob(rule, con, False, "the intents are left before their end", w)
    seen, always = set(), None
    for x, facts in p.results:
        i = p.intent(x)
        if i.op != "elem":
            continue
        o = e.orders.get(i.a[1].rstrip("~"))
        if o is not None:
            ctx.ob(rule, con, cut_of(o) is None, show(o, 4), w)
        about = {(subst(t, {i: S("intent")}), q) for t, q in facts if any(y is i for y in subterms(t)) and
                 not any(y.op == "app" and last(y.a[0]) in steps for y in subterms(t))}
        always = about if always is None else always & about
        for t, q in facts:
            if not (q and t.op == "app" and t.a[0] == "contains" and t.a[2] is i and t.a[1].op == "coll") or t.a[1] in seen:
                continue
            seen.add(t.a[1])
            ctx.ob(rule, con, cut_of(t.a[1].a[2]) is None, show(t.a[1].a[2], 4) if t.a[1].a[2] is not None else "", w)
            for v, conds, b in gens_of(t.a[1]) or ():
                if v.op != "elem":
                    ctx.ob(rule, con, None, show(v, 4), w)
                    continue
                if v.a[0] in maps or not own(v.a[0]):
                    more = [c for c, z in conds if any(y is v for y in subterms(c)) and not (z and c.op == "app" and c.a[0] == "contains" and
                                                                                             (c.a[1] in maps or not own(c.a[1])))]
                    ctx.ob(rule, con, not more or (None if any(unknowns(c, e, ()) for c in more) else False), "; ".join(show(c, 4) for c in more), w)
    for t, q in always or ():
        if q and t.op == "app" and t.a[0] == "contains" and t.a[2] is S("intent") or t.op == "is":
            continue
        if not any(y.op == "app" and y.a[0] == "get!" and y.a[1] is fld(p.me, "regexes_per_intent") for y in subterms(t)):
            ctx.ob(rule, con, None if unknowns(t, e, ()) else False, ("" if q else "not ") + show(t, 4), w)


def strip(t):
    while t.op == "app" and t.a[0] in ("iter", "keys") and len(t.a) == 2:
        t = t.a[1]
    return t


# ------------------------------------------------------------------ removal of stop words

BLANKS = (S(" "), C("char", " "), C("int", 32))


def blank(t):
    """The number of blanks a text consists of, or None."""
    if t.op == "c" and t.a[0] in ("str", "char"):
        return C("int", len(t.a[1])) if set(t.a[1]) <= {" "} else None
    if t.op == "app" and last(t.a[0]) == "repeat" and len(t.a) == 3 and t.a[1] in BLANKS:
        return t.a[2]
    if t.op == "app" and t.a[0] in ("string_of", "join") and (len(t.a) == 2 or t.a[2] is S("")):
        c = t.a[1]
        gs = gens_of(c)
        if gs and len(gs) == 1 and gs[0][0] in BLANKS:
            o = c.a[2] if c.op == "coll" else None
            if o is not None and o.op == "app" and o.a[0] == "o_src":
                s = o.a[1]
                if s.op == "app" and s.a[0] == "range" and all(range_bound(q) or not z for q, z in gs[0][1]):
                    return sub(s.a[2], s.a[1])
                if s.op == "app" and s.a[0] == "chars":
                    return app("charlen", s.a[1])
                if s.op == "app" and s.a[0] == "repeat_n":
                    return s.a[2]
            if o is not None and o.op == "app" and o.a[0] == "o_take" and o.a[1].op == "app" and len(o.a) == 3:
                return o.a[2] if o.a[2].op != "app" or o.a[2].a[0] != "o_src" else o.a[1]
    return None


def dimly(y, acc):
    """Is it a part of a text that is not understood?"""
    return not (y is acc or blank(y) is not None or y.op == "f" and y.a[1] == "value" and y.a[0].op == "elem")


def cleaned(ctx):
    b = ctx.prog.find(PARSER + "::preprocess_text", optional=True)
    if b is None:
        ctx.ob("the removal of stop words can be followed", PARSER, None, "preprocess_text not found")
        return
    con, w = PARSER + "::preprocess_text", where(b)
    ps = params(b)
    e, rs = ctx.run(b, ps)
    me, txt, intent = ps[:3]
    total = app("charlen", txt)
    for s, r in rs:
        for v in alts(r):
            Q = parts(v)
            acc = [q for q in Q if q.op == "phi"]
            if not acc and Q and all(blank(q) is not None or q is S("") for q in Q) and not e.incomplete:
                ctx.ob("words that are kept stay where they are", con, False, "no word is put: " + show(v, 4), w)
                continue
            if len(acc) != 1 or Q[0] is not acc[0]:
                ctx.ob("the removal of stop words can be followed", con, None, show(v, 5), w)
                continue
            acc = acc[0]
            e0 = e.entry_of(acc)
            ctx.ob("the cleaned text starts empty", con, None if e0 is None else e0 is S("") or e0.op == "app" and e0.a == ("concat",), "", w)
            steps = e.steps_of(acc)
            nums = {q for x, f in steps for y in parts(x) for q in subterms(y) if q.op == "phi" and q is not acc}
            nums |= {q for y in Q for q in subterms(y) if q.op == "phi" and q is not acc}
            cur = next(iter(nums)) if len(nums) == 1 else None
            moves = e.steps_of(cur) if cur is not None else None
            if not nums and steps:
                # no count is kept: the place of a word is the length of what is there before it
                cur = app("charlen", acc)
                moves = [(app("charlen", x), f) for x, f in steps]
            if cur is None or len(moves) != len(steps) or not steps:
                ctx.ob("the removal of stop words can be followed", con, None, "%d variables" % len(nums), w)
                continue
            c0 = e.entry_of(cur) if nums else C("int", 0)
            ctx.ob("the first character is the first of the text", con, c0 is C("int", 0) if c0 is not None and not opaque_parts(c0, e) else None, "", w)
            length = lambda y: blank(y) if blank(y) is not None else None
            for (x, facts), (c, _) in zip(steps, moves):
                P = parts(x)
                toks = {q for y in P for q in subterms(y) if q.op == "elem" and q.a[0].op == "app" and last(q.a[0].a[0]) == "tokenize"} | \
                       {q for q in subterms(c) if q.op == "elem" and q.a[0].op == "app" and last(q.a[0].a[0]) == "tokenize"}
                if x is acc and c is cur:
                    # nothing is put yet: the next word is put at its own place
                    toks = {q.a[2] for q, z in facts if z and q.op == "app" and q.a[0] == "contains" and q.a[2].op == "elem" and
                            q.a[1].op == "app" and last(q.a[1].a[0]) == "tokenize"}
                if len(toks) == 1 and acc in P[1:] and not any(dimly(y, acc) for y in P):
                    ctx.ob("words that are kept stay where they are", con, False, show(x, 5), w)
                    continue
                if P[0] is not acc or len(toks) != 1:
                    ctx.ob("the removal of stop words can be followed", con, None, show(x, 5), w)
                    continue
                tok = toks.pop()
                cr = fld(tok, "char_range")
                st, en = fld(cr, "start"), fld(cr, "end")
                ctx.ob("the words are those of the text", con, tok.a[0].a[1] is txt, show(tok, 3), w)
                val = fld(tok, "value")
                axiom = {} if x is acc and c is cur else {app("charlen", val): sub(en, st), app("charlen", acc): cur}
                at, kept, dark, bad = cur, 0, None, None
                for y in P[1:]:
                    k = blank(y)
                    if y is val:
                        kept += 1
                        d = sub(at, st)
                        if d is not C("int", 0):
                            bad = "a word is moved by " + show(debare(d), 5)
                        at = add(at, sub(en, st))
                    elif k is not None:
                        at = add(at, subst(debare(k), axiom))
                    else:
                        dark = y
                stop = is_stop(e, facts, tok, me, intent)
                if dark is not None:
                    ctx.ob("words that are kept stay where they are", con, None if [q for q in opaque_parts(dark, e)] else False, show(dark, 5), w)
                    continue
                at = subst(debare(at), axiom)
                ctx.ob("words that are kept stay where they are", con, bad is None and kept <= 1, bad or "", w)
                nxt = subst(debare(c), axiom) if nums else at
                d = debare(sub(at, nxt))
                ctx.ob("removing a word leaves the characters behind it in place", con,
                       True if d is C("int", 0) else (None if [q for q in unknowns(d, e, WORDS) if q not in (acc, cur)] else False),
                       "off by " + show(d, 5), w)
                ctx.ob("stop words are removed and other words are kept", con,
                       None if stop is None else (stop is (kept == 0)),
                       "; ".join(("" if z else "not ") + show(q, 4) for q, z in facts)[:300], w)
                ctx.ob("stop words are those of the intent, or the general ones for an intent without its own", con, chosen(e, facts, tok, me, intent),
                       "; ".join(("" if z else "not ") + show(q, 4) for q, z in facts)[:300], w)
            # the end of the text
            tail = C("int", 0)
            good = True
            for y in Q[1:]:
                k = blank(y)
                if k is None:
                    good = None
                    break
                tail = add(tail, debare(k))
            if good:
                d = debare(sub(add(cur, subst(tail, {app("charlen", acc): cur})), total))
                ctx.ob("the cleaned text is as long as the text", con, True if d is C("int", 0) else
                       True if len(Q) == 1 else (None if [q for q in unknowns(d, e, WORDS) if q not in (acc, cur)] else False), show(d, 5), w)
            else:
                ctx.ob("the cleaned text is as long as the text", con, None, show(v, 5), w)


def stop_question(facts, tok):
    for t, pol in facts:
        if t.op == "app" and t.a[0] == "contains" and len(t.a) == 3 and any(q is tok for q in subterms(t.a[2])) and t.a[2] is not tok:
            yield t, pol


def is_stop(e, facts, tok, me, intent):
    """Is the word a stop word on this path?  None: cannot tell"""
    for t, pol in stop_question(facts, tok):
        x = t.a[2]
        if x.op == "app" and last(x.a[0]) in ("normalized_value",) and x.a[1] is tok:
            return pol
        if x.op == "app" and last(x.a[0]) == "normalize" and x.a[1] is fld(tok, "value"):
            return pol
    qs = list(stop_question(facts, tok))
    if qs and not any(unknowns(t, e, WORDS + ("to_lowercase", "to_uppercase", "trim", "lowercase")) for t, pol in qs):
        return "other"          # compared in another form than the trained one
    if not any(any(q is tok for q in subterms(t)) and unknowns(t, e, WORDS) and not (t.op == "app" and t.a[0] == "contains" and t.a[2] is tok)
               for t, pol in facts):
        return "unasked"
    return None


def chosen(e, facts, tok, me, intent):
    own = fld(me, "specific_stop_words")
    has = decide(facts, app("contains", app("keys", own), intent))
    for t, pol in stop_question(facts, tok):
        l = strip_list(t.a[1])
        want = app("get!", own, intent) if has else fld(me, "stop_words") if has is False else None
        if want is None:
            return None if opaque_parts(l, e) and not (l.op == "f") else False
        if l is want:
            return True
        return None if [q for q in opaque_parts(l, e)] and l.op not in ("f",) and not (l.op == "app" and l.a[0] == "get!") else False
    return None


# ------------------------------------------------------------------ C17

@check("C17")
def c17(ctx):
    """The slots of a result are read off the summary of the parser's entry point: for every named group of the match its
    slot, entity, characters and text as terms over the match and the model; the shift of characters behind replaced
    entities is evaluated on all small mappings in every order, and the reduction of overlapping slots on all pairs of
    small ranges."""
    p = Parser(ctx)
    if p.body is None:
        return
    w, con, e = where(p.body), PARSER + "::parse_top_intents", p.e
    n = 0
    for x, facts in p.results:
        i = p.intent(x)
        sl = fld(x, "slots")
        if sl.op == "app" and last(sl.a[0]) == "deduplicate_overlapping_slots":
            ctx.ob("overlapping slots are reduced", con, True, "", w)
            sl = sl.a[1]
        else:
            gs = gens_of(sl)
            ctx.ob("overlapping slots are reduced", con, True if gs is not None and not gs else None if gs is None or
                   any(q.op == "forall" for g, conds, bnd in gs for q, z in conds) else False, show(sl, 3), w)
        gs = gens_of(sl)
        if gs is None:
            ctx.ob("the slots can be followed", con, None, show(sl, 4), w)
            continue
        if not gs:
            continue
        for g, conds, bnd in gs:
            n += 1
            slot(ctx, p, g, conds, i, con, w, sl.a[2] if sl.op == "coll" else None)
    ctx.floor("slots of a match", n, 2)
    deterministic_part(ctx, "tables")
    sh = p.h["get_range_shift"]
    if sh is not None:
        shift(ctx, sh)
    dd = p.h["deduplicate_overlapping_slots"]
    if dd is not None:
        reduced(ctx, dd)
    else:
        ctx.ob("the reduction of slots can be followed", con, None, "deduplicate_overlapping_slots not found", w)


def slot(ctx, p, g, conds, i, con, w, order):
    e = p.e
    name, ent, cr, val = fld(g, "slot_name"), fld(g, "entity"), fld(g, "char_range"), fld(g, "value")
    names = [q for q in subterms(name) if q.op == "elem" and q.a[0].op == "app" and last(q.a[0].a[0]) == "capture_names"]
    if len(set(names)) != 1:
        ctx.ob("the slot's name can be followed", con, None if opaque_parts(name, e) else False, show(name, 6), w)
        return
    nm = names[0]
    r = nm.a[0].a[1]
    group = vfld(nm, "Some", "0")
    good = name.op == "app" and name.a[0] == "get!" and name.a[1] is fld(p.me, "group_names_to_slot_names")
    if not good:
        ctx.ob("a slot is the one its group's name is mapped to", con, None if [q for q in opaque_parts(name, e) if not splitter(q)] else False, show(name, 6), w)
    else:
        k = base_name(name.a[2], group)
        ctx.ob("a slot is the one its group's name is mapped to", con, k if k is not None else
               (None if [q for q in opaque_parts(name.a[2], e)] else False), show(name, 8), w)
    we = app("get!", app("get!", fld(p.me, "slot_names_to_entities"), i), name)
    ctx.ob("a slot has the entity its intent's slot is mapped to", con, True if ent is we else
           (None if [q for q in opaque_parts(ent, e) if not splitter(q) and not (q.op == "app" and last(q.a[0]) == "capture_names")] else False), show(ent, 8), w)
    ctx.ob("group names are those of the pattern of the intent", con, r.op == "elem" and r.a[0] is p.regexes(i) or None, show(r, 5), w)
    # the match
    ms = {q for q in subterms(cr) if q.op == "elem" and q.a[0].op == "app" and last(q.a[0].a[0]) == "iter"}
    caps = {(q.a[0].a[1]) for q in ms}
    byname = {q for q in subterms(cr) if q.op == "app" and last(q.a[0]) in ("name",)}
    if len(ms) != 1:
        ctx.ob("the group's match can be followed", con, None if byname or opaque_parts(cr, e) else False, show(cr, 6), w)
        return
    m = ms.pop()
    c = caps.pop()
    ci = c.a[0] if c.op in ("elem", "pay", "vf") else None
    if ci is None or ci.op != "app" or last(ci.a[0]) not in ("captures_iter", "captures"):
        ctx.ob("the group's match can be followed", con, None, show(c, 5), w)
        return
    ctx.ob("groups are named by the pattern that matched", con, ci.a[1] is r, show(ci, 4), w)
    om, on = e.orders.get(m.a[1].rstrip("~")), e.orders.get(nm.a[1].rstrip("~"))
    if order is not None and any(q.op == "app" and q.a[0] == "o_zip" for q in subterms(order)):
        om = on = order
    al = aligned(om, on)
    ctx.ob("a group's name goes with its own match", con, al, "%s / %s" % (show(om, 4) if om is not None else None, show(on, 4) if on is not None else None), w)
    t = ci.a[2]
    kind = p.text_of(t, i)
    mm = vfld(m, "Some", "0")
    own = None
    for q in subterms(cr):
        if q.op == "app" and last(q.a[0]) == "convert_to_char_range":
            own = q
            ok = q.a[1] is t and is_range_of(q.a[2], mm)
            ctx.ob("characters are those of the bytes matched, in the text matched", con, True if ok else
                   (None if [y for y in opaque_parts(q, e) if not lib_call(y)] else False), show(q, 6), w)
    if own is None:
        ctx.ob("the characters of a match can be followed", con, None if [y for y in opaque_parts(cr, e) if not lib_call(y)] else False, show(cr, 6), w)
        return
    if kind == "raw":
        ctx.ob("a match in the text as it is stays where it is", con, same_range(cr, own), show(cr, 5), w)
    elif kind == "replaced":
        mapping = fld(t.a[2].a[0], "0")
        has = decide(frozenset(conds), app("contains", app("keys", mapping), own))
        if cr.op == "app" and cr.a[0] == "get!" and cr.a[1] is mapping:
            ctx.ob("a placeholder stands for the characters of the entity it replaced", con, cr.a[2] is own, show(cr, 5), w)
        elif cr is own:
            ctx.ob("characters behind a replaced entity are moved back", con, False, show(cr, 5), w)
        else:
            sp = span(cr)
            if sp is None:
                ctx.ob("characters behind a replaced entity are moved back", con, None, show(cr, 6), w)
            else:
                ctx.ob("a placeholder stands for the characters of the entity it replaced", con,
                       True if has is False else (None if has is None and any(opaque_parts(q, e) for q, z in conds) else False), "moved although it may be a placeholder", w)
                d = [debare(strip_cast(x)) for x in sp]
                s0, s1 = fld(own, "start"), fld(own, "end")
                sh = [sub(d[0], s0), sub(d[1], s1)]
                ok = sh[0] is sh[1] and sh[0].op == "app" and last(sh[0].a[0]) == "get_range_shift" and sh[0].a[1] is own and sh[0].a[2] is mapping
                ctx.ob("characters behind a replaced entity are moved back", con, True if ok else
                       False if sh[0] is not sh[1] and all(known_shift(x, own, mapping) for x in sh) else
                       False if sh[0] is sh[1] and known_shift(sh[0], own, mapping) else None, "%s, %s" % (show(sh[0], 5), show(sh[1], 5)), w)
    sv = val.op == "app" and last(val.a[0]) == "substring_with_char_range"
    ctx.ob("a slot's text is the input at its characters", con, True if sv and val.a[1] is p.input and same_range(val.a[2], cr) else
           False if sv else (None if [q for q in opaque_parts(val, e) if not lib_call(q)] else False), show(val, 5), w)
    # every named group that took part
    sel = []
    for q, z in selecting(e, frozenset(), conds):
        if not any(y is m or y is nm for y in subterms(q)):
            continue
        if q.op == "is" and q.a[0] in (m, nm):
            continue
        if q.op == "app" and q.a[0] == "contains":
            continue
        sel.append((q, z))
    bad = [(q, z) for q, z in sel if not fine(q, own, p)]
    ctx.ob("every named group that took part in the match gives a slot", con, True if not bad else
           (None if any([y for y in opaque_parts(q, e) if not lib_call(y)] for q, z in bad) else False), "; ".join(show(q, 5) for q, z in bad)[:300], w)


def lib_call(y):
    return y.op == "app" and last(y.a[0]) in ("capture_names", "captures_iter", "captures", "is_match", "start", "end", "iter", "convert_to_char_range", "split",
                                             "substring_with_char_range", "preprocess_text", "replace_entities", "get_range_shift",
                                             "extract_entities", "identifier", "deduplicate_overlapping_slots", "name", "get!", "range")


def splitter(q):
    return q.op == "app" and last(q.a[0]) in ("split", "capture_names", "splitn", "rsplit")


def fine(q, own, p):
    """Conditions on a group that choose how its characters are computed, or that hold of every name."""
    return q.op == "ge0" and not [y for y, k in (q.a[0].a[1] if q.a[0].op == "lin" else ((q.a[0], 1),))
                                  if not (y.op == "app" and last(y.a[0]) in ("len", "count") and splitter(y.a[1]))]


def base_name(k, group):
    """Is it the part of the group's name before the first underscore?"""
    u = (C("int", 95), C("char", "_"), S("_"))
    if k.op == "app" and k.a[0] == "idx" and k.a[1].op == "app":
        s = k.a[1]
        if last(s.a[0]) == "split" and s.a[1] is group and s.a[2] in u:
            return True if k.a[2] is C("int", 0) else False
        if last(s.a[0]) == "splitn":
            return (s.a[1] is group and k.a[2] is C("int", 0)) or None
        if last(s.a[0]) in ("rsplit", "rsplitn"):
            return False
    if k.op == "elem" or k.op == "app" and k.a[0] in ("first", "pos"):
        return None
    if k is group:
        return False
    return None


def order_steps(o):
    """(skips outside the zip, the zip's own order) of an iterator's order"""
    out = 0
    while o is not None and o.op == "app":
        if o.a[0] == "o_zip":
            return out, o
        if o.a[0] == "o_skip":
            k = o.a[2] if len(o.a) > 2 else None
            if k is None or k.op != "c":
                return None
            out += k.a[1]
            o = o.a[1]
            continue
        if o.a[0] in ("o_src",):
            return out, o
        return None
    return None


def aligned(om, on):
    """Do the matches and the names go in step, leaving out at most the match of the whole pattern?"""
    if om is None or on is None:
        return None
    a, b = order_steps(om), order_steps(on)
    if a is None or b is None:
        return False if any(q.op == "app" and q.a[0] == "o_rev" for o in (om, on) for q in subterms(o)) else None
    if a[1].a[0] == "o_zip" and b[1] is a[1]:
        if a[0] > 1:
            return False
        sides = [order_steps(x) for x in a[1].a[1:]]
        if len(sides) != 2 or None in sides:
            return None
        return sides[0][0] == sides[1][0] and sides[0][0] + a[0] <= 1
    return None


def is_range_of(t, mm):
    sp = span(t)
    if sp is not None and sp[0].op == "app" and last(sp[0].a[0]) == "start" and sp[0].a[1] is mm and sp[1].op == "app" and \
            last(sp[1].a[0]) == "end" and sp[1].a[1] is mm:
        return True
    return t.op == "app" and last(t.a[0]) == "range" and len(t.a) == 2 and t.a[1] is mm


def same_range(a, b):
    if a is b:
        return True
    x, y = span(a), span(b)
    return x is not None and y is not None and same(x[0], y[0]) and same(x[1], y[1])


def strip_cast(t):
    while t.op == "app" and t.a[0].startswith("cast:"):
        t = t.a[1]
    return t


def known_shift(t, own, mapping):
    """A shift that is understood: a sum of the shift of the match, its ends and numbers."""
    for y, k in (t.a[1] if t.op == "lin" else ((t, 1),)):
        if y.op == "c":
            continue
        if y.op == "app" and last(y.a[0]) == "get_range_shift":
            continue
        if y.op == "f" and y.a[0] is own:
            continue
        return False
    return True


# ------------------------------------------------------------------ the shift of characters behind replaced entities

ENTRIES = [((0, 3), (0, 2)), ((4, 6), (3, 8)), ((8, 12), (10, 11)), ((13, 14), (12, 15))]


def shift(ctx, b):
    con, w = b["path"].split("::", 1)[-1], where(b)
    ps = params(b)
    e, rs = ctx.run(b, ps)
    rng = next((q for q in ps if "mapping" not in q.a[0]), ps[0])
    mp = next((q for q in ps if q is not rng), ps[-1])
    bad = None
    n = 0
    for k in range(len(ENTRIES) + 1):
        for perm in permutations(ENTRIES, k):
            for at in (0, 3, 5, 6, 7, 12, 13, 20):
                before_ = [x for x in perm if x[0][1] <= at]
                best = max(before_, key=lambda x: x[0][1]) if before_ else None
                want = best[1][1] - best[0][1] if best else 0
                try:
                    got = evaluate(e, rs, rng, mp, perm, (at, at + 2))
                except (NoValue, Other, TypeError, KeyError) as x:
                    ctx.ob("characters move as the last entity replaced before them", con, None, "%s: %s" % (type(x).__name__, show(x.args[0], 5) if x.args and isinstance(x.args[0], V) else x), w)
                    return
                n += 1
                if got != want and bad is None:
                    bad = "entries %s, at %d: %s for %s" % (perm, at, got, want)
    ctx.ob("characters move as the last entity replaced before them", con, bad is None, bad or "", w)
    ctx.count("mappings evaluated", n)


def evaluate(e, rs, rng, mp, entries, at):
    """The value of a function of a range and a mapping, whose loop walks over the entries of the mapping."""
    keys = app("keys", mp)

    def env_leaf(env, cur):
        def leaf(t):
            if t in env:
                return env[t]
            if t.op == "f" and t.a[1] in ("start", "end"):
                j = 0 if t.a[1] == "start" else 1
                q = t.a[0]
                if q is rng:
                    return at[j]
                if cur is not None and q.op == "elem" and q.a[0] is keys:
                    return cur[0][j]
                if cur is not None and q.op == "app" and q.a[0] == "get!" and q.a[1] is mp and q.a[2].op == "elem":
                    return cur[1][j]
            if t.op == "phi" and t not in env:
                raise NoValue(t)
            if t.op == "app" and last(t.a[0]) in ("len", "count") and len(t.a) == 2:
                a, z = leaf(mk("f", t.a[1], "start")), leaf(mk("f", t.a[1], "end"))
                return None if a is None or z is None else max(z - a, 0)
            return None
        return leaf

    def ask(facts, env, cur):
        """Do the conditions that can be evaluated hold?"""
        for t, pol in facts:
            if t.op == "app" and t.a[0] in ("contains", "exhausted") or t.op == "forall":
                continue
            if truth(t, env_leaf(env, cur)) is not pol:
                return False
        return True
    phis = {q for s, r in rs for v in [r] + [t for t, p in s.facts] for q in subterms(v) if q.op == "phi"}
    more = True
    while more:
        more = False
        for q in list(phis):
            for x, f in e.steps_of(q):
                for y in [x] + [t for t, p in f]:
                    for z in subterms(y):
                        if z.op == "phi" and z not in phis:
                            phis.add(z)
                            more = True
    env = {}
    for q in phis:
        en = e.entry_of(q)
        if en is None:
            raise NoValue(q)
        env[q] = value(en, env_leaf({}, None))
    for x in entries:
        new = {}
        for q in phis:
            st = [(v, f) for v, f in e.steps_of(q) if ask(f, env, x)]
            vals = {value(v, env_leaf(env, x)) for v, f in st}
            if not vals:
                vals = {env[q]}
            if len(vals) > 1:
                raise NoValue(q)
            new[q] = vals.pop()
        env = new
    outs = set()
    for s, r in rs:
        for v in alts(r):
            mentions = any(q.op == "elem" and q.a[0] is keys for q in subterms(v))
            if mentions:
                raise NoValue(v)
            if ask([f for f in s.facts if any(q is rng or q in phis for q in subterms(f[0]))], env, None):
                outs.add(value(v, env_leaf(env, None)))
    if len(outs) != 1:
        raise NoValue(rng)
    return outs.pop()


# ------------------------------------------------------------------ reduction of overlapping slots

SLOTS = [{"start": a, "end": b, "tokens": k, "bytes": (b - a) * z} for a in range(4) for b in range(a + 1, 6) for k in (1, 2) if k <= b - a for z in (1, 3)]


def bigger(a, b):
    return a["end"] - a["start"] > b["end"] - b["start"] and a["tokens"] >= b["tokens"]


def reduced(ctx, b):
    con = "deduplicate_overlapping_slots"
    w = where(b)
    ps = params(b)
    ev = []
    e, rs = ctx.run(b, ps, hooks={"Vec::push": marks_pushes(ev)})
    k = reduction(ctx, con, b, ps, ps[0], "char_range", e, rs, ev, bigger, SLOTS)
    ctx.ob("the reduction can be followed", con, k > 0 or None, "%d" % k, w)
    for s, r in rs:
        for v in alts(r):
            gs = gens_of(v)
            if gs is None:
                ctx.ob("the kept slots are answered", con, None, show(v, 4), w)
                continue
            for x, conds, bnd in gs:
                ctx.ob("the kept slots are answered unchanged", con,
                       True if x.op == "elem" and x.a[0] is ps[0] else (None if opaque_parts(x, e) else False), show(x, 4), w)
            o = v.a[2] if v.op == "coll" else None
            if o is not None and o.op == "app" and o.a[0] == "o_push" and len(o.a) == 1 and len(getattr(e, "tried", ())) == 1:
                o = next(iter(e.tried))
            ctx.ob("slots are in the order of their positions", con, sorts(o, before, SPANS, range_leaf("char_range")), show(o, 5) if o is not None else "", w)
            if cut(o):
                ctx.ob("no kept slot is left out", con, False, show(o, 5), w)
