"""C15: overlapping entities are reduced to the longest ones, and replacing entities keeps text and positions in step."""
from itertools import product

from ..check import check, where
from ..engine import decide
from ..lib import *
from ..terms import *
from .features import debare, bare
from .loading import last, text

PUSHED = app("·pushed")


def marks_pushes(out):
    """A hook for Vec::push: notes the call and leaves a mark on the path."""
    def f(e, st, args, site, fn):
        l, x = e.deep(st, args[0]), e.deep(st, args[1])
        out.append((l, x, st.facts))
        st.facts = st.facts | {(PUSHED, True)}
        return None
    return f


# ------------------------------------------------------------------ orders and comparisons, evaluated

def value(t, leaf):
    """The value of a key or a comparison when leaf(t) gives the values of its parts; raises NoValue."""
    x = leaf(t)
    if x is not None:
        return x
    if t.op in ("vf", "pay") and t.a[1] == "Some" if t.op == "vf" else t.op == "pay":
        return value(t.a[0], leaf)
    if t.op == "st":
        vs = tuple(value(y, leaf) for y in t.a[2])
        if "Reverse" in t.a[0]:
            return Rev(vs[0])
        return vs
    if t.op == "app":
        n = last(t.a[0])
        if n in ("cmp", "pcmp", "fcmp", "total_cmp") and len(t.a) == 3:
            a, b = value(t.a[1], leaf), value(t.a[2], leaf)
            return (a > b) - (a < b)
        if n == "ord_rev":
            return -value(t.a[1], leaf)
        if n in ("ord_then", "ord_then_with"):
            return value(t.a[1], leaf) or value(t.a[2], leaf)
        if n.startswith("cast:") or n in ("cast",):
            return value(t.a[1], leaf)
    if t.op == "lin":
        return t.a[0] + sum(k * value(y, leaf) for y, k in t.a[1])
    if t.op == "en" and t.a[1] == "Some" and t.a[3]:
        return value(t.a[3][0], leaf)
    if t.op == "c" and isinstance(t.a[1], int):
        return t.a[1]
    raise NoValue(t)


class Other(Exception):
    """The order depends on another part of the elements."""


class Rev:
    def __init__(self, x):
        self.x = x

    def __lt__(self, o):
        return o.x < self.x

    def __gt__(self, o):
        return o.x > self.x

    def __eq__(self, o):
        return o.x == self.x

    def __hash__(self):
        return hash(self.x)


def sorts(o, want, models, leaf):
    """Does the order put a before b (strictly) whenever want(a, b)?  True / False / None.

    `models` are sample elements; leaf(term, root, element) gives the value of a part of an element."""
    if o is None or o.op != "app":
        return None
    if o.a[0] == "o_rev":
        return sorts(o.a[1], lambda a, b: want(b, a), models, leaf)
    if o.a[0] != "o_sorted":
        return False if o.a[0] in ("o_src", "o_none", "o_hash") else None
    c = o.a[1]
    if c.op != "app" or len(c.a) != 2:
        return None
    for a, b in product(models, models):
        if not want(a, b):
            continue
        try:
            if c.a[0] == "bykey":
                ka = value(c.a[1], lambda t: leaf(t, {"cmp·a": a}))
                kb = value(c.a[1], lambda t: leaf(t, {"cmp·a": b}))
                if not ka < kb:
                    return False
            elif c.a[0] == "bycmp":
                if not value(c.a[1], lambda t: leaf(t, {"cmp·a": a, "cmp·b": b})) < 0:
                    return False
            else:
                return None
        except Other:
            return False
        except (NoValue, TypeError):
            return None
    return True


def path_of(t):
    """(root, fields) of a chain of projections."""
    fs = []
    while t.op == "f":
        fs.append(t.a[1])
        t = t.a[0]
    return t, tuple(reversed(fs))


def range_leaf(field):
    """Values of the parts of an element that has a range in `field`; elements are dicts with start and end."""
    def leaf(t, els):
        if t.op == "app" and t.a[0] in ("len", "count", "charlen") and len(t.a) == 2:
            r, fs = path_of(t.a[1])
            el = find(r, els)
            if el is not None and fs == (field,):
                return max(el["end"] - el["start"], 0)
            if el is not None and fs == ("value",):
                return el.get("bytes", max(el["end"] - el["start"], 0)) if t.a[0] == "len" else max(el["end"] - el["start"], 0)
            if el is not None and last(t.a[0]) == "len" and t.a[1].op == "app" and last(t.a[1].a[0]) in ("tokenize", "tokenize_light"):
                return el.get("tokens")
        if t.op == "app" and t.a[0] in ("len", "count") and t.a[1].op == "app" and last(t.a[1].a[0]) in ("tokenize", "tokenize_light"):
            r, fs = path_of(t.a[1].a[1])
            el = find(r, els)
            if el is not None and fs == ("value",):
                return el.get("tokens")
        if t.op == "f":
            r, fs = path_of(t)
            el = find(r, els)
            if el is not None and fs == (field,):
                return (el["start"], el["end"])
            if el is not None and len(fs) == 2 and fs[0] == field and fs[1] in ("start", "end"):
                return el[fs[1]]
            if el is not None:
                raise Other(t)
        return None
    return leaf


def find(r, els):
    if r in els:
        return els[r]
    if r.op == "s":
        return els.get(r.a[0])
    return None


SPANS = [{"start": a, "end": b, "tokens": 1} for a in range(5) for b in range(a + 1, 6)]


def overlap(a, b):
    return a["start"] < b["end"] and a["end"] > b["start"]


ORACLE = []


def truth(t, leaf):
    """Truth of a condition on positions."""
    if t.op == "ge0":
        return value(t.a[0], leaf) >= 0
    if t.op == "eq":
        try:
            return value(t.a[0], leaf) == value(t.a[1], leaf)
        except Other:
            if not ORACLE:
                raise
            return ORACLE[-1]
    if t.op == "not":
        return not truth(t.a[0], leaf)
    if t.op == "app" and t.a[0] in ("and", "or", "not", "flt", "fle"):
        xs = t.a[1:]
        if t.a[0] == "and":
            return all(truth(x, leaf) for x in xs)
        if t.a[0] == "or":
            return any(truth(x, leaf) for x in xs)
        if t.a[0] == "not":
            return not truth(xs[0], leaf)
    if t.op in ("and", "or"):
        xs = t.a[0] if isinstance(t.a[0], (tuple, frozenset)) else t.a
        return (all if t.op == "and" else any)(truth(x, leaf) for x in xs)
    if t.op == "c" and isinstance(t.a[1], bool):
        return t.a[1]
    raise NoValue(t)


def elems_of_range(t, field):
    """The elements whose range a condition speaks about."""
    out = set()
    for q in subterms(t):
        if q.op == "f" and q.a[1] == field:
            out.add(q.a[0])
        if q.op == "f" and q.a[1] == "value" and field == "char_range":
            out.add(q.a[0])
    return out


def pairs_condition(conds, x, field):
    """Conditions [(term, polarity)] on the ranges of x and one other element, as a predicate; None if there is none."""
    leaf = range_leaf(field)
    rel = []
    others = set()
    for t, p in conds:
        es = elems_of_range(t, field)
        if x in es and len(es) == 2:
            rel.append((t, p))
            others |= es - {x}
    if not rel or len(others) != 1:
        return None
    y = others.pop()

    def pred(a, b):
        els = {x: a, y: b}
        return all(truth(t, lambda q: leaf(q, els)) is p for t, p in rel)
    return pred


def universal(facts, x, field):
    """What is known of x and every kept element: a predicate, or None."""
    conds = []
    for t, p in facts:
        if t.op == "forall" and p:
            body, pol = t.a[1], t.a[2]
            es = elems_of_range(body, field)
            if x in es and len(es) == 2:
                conds.append((body, bool(pol) if not isinstance(pol, V) else pol.a[1]))
    if not conds:
        return None
    return pairs_condition(conds, x, field)


def agree(pred, want):
    """True / 'less' (pred holds where want does not) / 'more' / None"""
    if pred is None:
        return None
    try:
        return verdicts(pred, want)
    except Other:
        pass
    except (NoValue, TypeError):
        return None
    # it also depends on other parts of the elements, which say nothing about their ranges
    out = set()
    for o in (True, False):
        ORACLE.append(o)
        try:
            out |= verdicts(pred, want)
        except (NoValue, TypeError, Other):
            return None
        finally:
            ORACLE.pop()
    return out


def verdicts(pred, want):
    out = set()
    for a, b in product(SPANS, SPANS):
        p, w = pred(a, b), want(a, b)
        if p and not w:
            out.add("too often")
        if w and not p:
            out.add("not always")
    return out


def reduction(ctx, con, body, ps, src, field, e, rs, events, longest, models=None):
    """The greedy reduction of the elements of `src` to ones that do not overlap."""
    w = where(body)
    ev = [(l, x, f) for l, x, f in events if x.op == "elem" and x.a[0] is src]
    later = [(l, x, f) for l, x, f in ev if not (l.op == "list" and not l.a[1] or l.op == "coll" and not l.a[1])]
    ev = later or ev
    n = 0
    tags = set()
    for l, x, facts in ev:
        n += 1
        tags.add(x.a[1])
        pred = universal(facts, x, field)
        got = agree(pred, lambda a, b: not overlap(a, b))
        if pred is None:
            ctx.ob("an entity is kept only if it overlaps none that is kept", con,
                   None if [q for t, p in facts if x in subterms(t) for q in opaque_parts(t, e)] or any(t.op == "forall" for t, p in facts)
                   else False, "kept under " + "; ".join(show(t, 4) for t, p in facts)[:300], w)
        else:
            ctx.ob("an entity is kept only if it overlaps none that is kept", con,
                   None if got is None else "too often" not in got, str(got), w)
            ctx.ob("an entity that overlaps none that is kept is kept", con,
                   None if got is None else "not always" not in got, str(got), w)
            # what else is asked of it and of every one that is kept
            for t, p in facts:
                if t.op == "forall" and p:
                    es = {q for q in subterms(t.a[1]) if q.op == "elem" and q.a[0] is src}
                    if x in es and len(es) == 2 and len(elems_of_range(t.a[1], field)) != 2:
                        ctx.ob("an entity that overlaps none that is kept is kept", con, None if opaque_parts(t.a[1], e) else False, show(t, 5), w)
    # the rounds that keep nothing
    for tag, backs in e.rounds.items():
        for s in backs:
            if any(all(f in s.facts for f in fs) for _, _, fs in later) if later else (PUSHED, True) in s.facts:
                continue
            cur = [t.a[2] for t, p in s.facts if p and t.op == "app" and t.a[0] == "contains" and t.a[2].op == "elem"
                   and t.a[2].a[0] is src and t.a[2].a[1].rstrip("~") in tags]
            for x in cur:
                pred = pairs_condition(s.facts, x, field)
                got = agree(pred, overlap)
                n += 1
                ctx.ob("an entity is dropped only if it overlaps one that is kept", con,
                       (None if any(opaque_parts(t, e) for t, p in s.facts) else False) if pred is None else
                       None if got is None else "too often" not in got,
                       "; ".join(("" if p else "not ") + show(t, 5) for t, p in s.facts)[:400], w)
    if not n:
        return 0
    # the order in which they are tried
    orders = set()
    for s, r in rs:
        for t, p in s.facts:
            if p and t.op == "app" and t.a[0] == "exhausted" and t.a[2].op == "elem" and t.a[2].a[0] is src:
                c = t.a[1]
                if c.op == "coll" and c.a[2] is not None and c.a[2].op == "app":
                    if t.a[2].a[1].rstrip("~") in tags:
                        orders.add(c.a[2])
                elif c is src and t.a[2].a[1].rstrip("~") in tags:
                    orders.add(app("o_src", c))
    e.tried = orders
    for o in orders:
        ctx.ob("longer entities are kept first", con, sorts(o, longest, models or SPANS, range_leaf(field)), show(o, 6), w)
    if not orders:
        ctx.ob("longer entities are kept first", con, None, "no order found", w)
    return n


def longer(a, b):
    return a["end"] - a["start"] > b["end"] - b["start"]


def before(a, b):
    return a["start"] < b["start"] and not overlap(a, b)


@check("C15")
def c15(ctx):
    """The functions that reduce overlapping entities and replace entities by placeholders are summarised as terms; the
    paths on which an entity is kept or dropped are compared with the overlap of their ranges, the order in which
    entities are tried and answered with the lengths and positions, and the loop that builds the new text is checked
    by induction: characters copied, placeholders put, and the mapped ranges, as sums over symbolic positions."""
    n = 0
    b = ctx.anchor("utils::deduplicate_overlapping_entities")
    if b is not None:
        ps = params(b)
        ev = []
        e, rs = ctx.run(b, ps, hooks={"Vec::push": marks_pushes(ev)})
        k = reduction(ctx, "deduplicate_overlapping_entities", b, ps, ps[0], "range", e, rs, ev, longer)
        ctx.ob("the reduction can be followed", "deduplicate_overlapping_entities", k > 0 or None, "%d" % k, where(b))
        for s, r in rs:
            for v in alts(r):
                answered(ctx, "deduplicate_overlapping_entities", e, v, ps[0], where(b))
        n += 1
    b = ctx.anchor("utils::replace_entities")
    if b is not None:
        n += 1
        ps = params(b)
        ev = []
        e, rs = ctx.run(b, ps, hooks={"Vec::push": marks_pushes(ev)})
        txt = next(p for p in ps if p.a[0] == "text") if any(p.a[0] == "text" for p in ps) else ps[0]
        ents = ps[1]
        k = reduction(ctx, "replace_entities", b, ps, ents, "range", e, rs, ev, longer)
        compared = any(len(elems_of_range(t, "range")) > 1 or t.op == "app" and t.a[0] in e.unknown_names
                       for s, r in rs for f, p in s.facts for t in subterms(f)) or \
            any(q.op == "app" and q.a[0] in e.unknown_names and any(y is ents for y in q.a[1:]) for s, r in rs for q in subterms(r))
        ctx.ob("overlapping entities are reduced before they are replaced", "replace_entities", k > 0 or (None if compared else False),
               "%d" % k, where(b))
        placeholder = lambda x: app("apply", ps[2], fld(x, "entity_name"))
        for s, r in rs:
            for v in alts(r):
                replaced(ctx, "replace_entities", e, s, v, txt, ents, placeholder, where(b))
    rp = ctx.prog.find("replace_entities_with_placeholders", optional=True)
    if rp is not None:
        n += 1
        ps = params(rp)
        e, rs = ctx.run(rp, ps)
        for s, r in rs:
            for v in alts(r):
                new_text(ctx, "replace_entities_with_placeholders", e, s, v, ps[0], ps[1], None, where(rp))
    labels(ctx)
    ctx.floor("functions that reduce or replace entities", n, 2)


def answered(ctx, con, e, v, src, w):
    gs = gens_of(v)
    if gs is None:
        ctx.ob("the kept entities are answered", con, None, show(v, 4), w)
        return
    for x, conds, bnd in gs:
        ctx.ob("the kept entities are answered unchanged", con,
               True if x.op == "elem" and x.a[0] is src else (None if opaque_parts(x, e) else False), show(x, 4), w)
    o = v.a[2] if v.op == "coll" else None
    tried = getattr(e, "tried", ())
    if o is not None and o.op == "app" and o.a[0] == "o_push" and len(o.a) == 1 and len(tried) == 1:
        o = next(iter(tried))           # kept in the order they are tried in
    ctx.ob("the kept entities are in the order of their positions", con,
           sorts(o, before, SPANS, range_leaf("range")), show(o, 6) if o is not None else "", w)
    if cut(o):
        ctx.ob("no kept entity is left out", con, False, show(o, 5), w)


def cut(o):
    return o is not None and any(q.op == "app" and q.a[0] in ("o_take", "o_skip", "o_step_by", "o_take_while", "o_skip_while") for q in subterms(o))


def chars(t, leaf=lambda t: None):
    """The number of characters of a text, as a sum."""
    x = leaf(t)
    if x is not None:
        return x
    if t.op == "c" and t.a[0] in ("str", "char"):
        return C("int", len(t.a[1]) if t.a[0] == "str" else 1)
    if t.op == "app":
        if t.a[0] == "concat":
            r = C("int", 0)
            for y in t.a[1:]:
                r = add(r, chars(y, leaf))
            return r
        if last(t.a[0]) == "substring_with_char_range" and t.a[2].op == "app" and t.a[2].a[0] == "range":
            return sub(t.a[2].a[2], t.a[2].a[1])
        if last(t.a[0]) == "substring_with_char_range" and t.a[2].op == "st":
            return sub(fld(t.a[2], "end"), fld(t.a[2], "start"))
    return app("charlen", t)


def parts(t):
    return list(t.a[1:]) if t.op == "app" and t.a[0] == "concat" else [t]


def span(t):
    """(start, end) of a range"""
    if t.op == "app" and t.a[0] == "range" and len(t.a) == 3:
        return t.a[1], t.a[2]
    if t.op in ("st", "f", "elem"):
        return fld(t, "start"), fld(t, "end")
    return None


def piece(t, txt):
    """(from, to or None) of a piece of the text copied as it is"""
    if t is txt:
        return C("int", 0), None
    if t.op == "app" and last(t.a[0]) == "substring_with_char_range" and t.a[1] is txt:
        return span(t.a[2])
    if t.op == "app" and last(t.a[0]) == "suffix_from_char_index" and t.a[1] is txt:
        return t.a[2], None
    return None


def same(a, b):
    d = debare(sub(a, b))
    return d.op == "c" and d.a[1] == 0


def narrow(t):
    """Positions squeezed into integers too small for them."""
    return [q.a[0] for q in subterms(t) if q.op == "app" and q.a[0] in
            ("cast:i16", "cast:u16", "cast:i8", "cast:u8", "cast:f32", "cast:f16", "cast:wrap")]


def new_text(ctx, con, e, s, v, txt, ents, placeholder, w, mapping=None):
    """The text with the entities replaced: induction over the loop that builds it."""
    if v is txt:
        # nothing to replace
        d = decide(s.facts, eq(app("len", ents), C("int", 0)))
        ctx.ob("the text is left as it is only without entities", con, True if d else
               (None if any(opaque_parts(t, e) for t, p in s.facts) else False), show(v, 4), w)
        return
    P = parts(v)
    phis = [q for q in P if q.op == "phi"]
    tail = piece(P[-1], txt)
    if len(phis) != 1 or len(P) != 2 or P[0] is not phis[0] or tail is None:
        if phis and len(P) == 1:
            # the rest of the text is not put
            ctx.ob("the text after the last entity is kept", con, False, show(v, 5), w)
            return
        ctx.ob("the new text can be followed", con, None, show(v, 6), w)
        return
    acc, cur = phis[0], tail[0]
    ctx.ob("the text after the last entity is kept", con,
           True if tail[1] is None or same(tail[1], app("charlen", txt)) else (None if opaque_parts(tail[1], e) and tail[1].op != "lin" else False),
           show(P[-1], 5), w)
    if cur.op != "phi":
        ctx.ob("the text after the last entity is kept", con, None if opaque_parts(cur, e) else False, "from " + show(cur, 5), w)
        return
    e0, c0 = e.entry_of(acc), e.entry_of(cur)
    ctx.ob("the new text starts empty, at the first character", con,
           None if e0 is None or c0 is None else (e0 is S("") or e0.op == "app" and e0.a == ("concat",)) and c0 is C("int", 0),
           "%s, %s" % (show(e0, 3) if e0 else None, show(c0, 3) if c0 else None), w)
    st = e.steps_of(acc)
    cs = e.steps_of(cur)
    if not st or len(st) != len(cs):
        ctx.ob("the new text can be followed", con, None, "%d/%d steps" % (len(st), len(cs)), w)
        return
    for (x, facts), (c, _) in zip(st, cs):
        Q = parts(x)
        el = None
        if len(Q) == 3 and Q[0] is acc and piece(Q[1], txt) is not None:
            p = Q[2]
            name = [q for q in subterms(p) if q.op == "f" and q.a[1] == "entity_name"]
            el = name[0].a[0] if name and all(q.a[0] is name[0].a[0] for q in name) else None
        if el is None:
            # placeholders written out: concat(acc, substring, "%", NAME, "%")
            Q2 = [acc, Q[1], app("concat", *Q[2:])] if len(Q) > 3 and Q[0] is acc and piece(Q[1], txt) is not None else None
            if Q2:
                Q = Q2
                name = [q for q in subterms(Q[2]) if q.op == "f" and q.a[1] == "entity_name"]
                el = name[0].a[0] if name and all(q.a[0] is name[0].a[0] for q in name) else None
        if el is None:
            ctx.ob("each round copies the text before an entity and puts its placeholder", con,
                   False if x is acc or not [q for q in opaque_parts(x, e) if q is not acc and q is not cur and
                                             not (q.op == "app" and q.a[0] == "apply")] else None, show(x, 6), w)
            continue
        own = el.op == "elem" and el.a[0] is ents
        ctx.ob("the entities replaced are the given ones", con, True if own else (None if opaque_parts(el, e) else False), show(el, 4), w)
        if placeholder is not None:
            want = placeholder(el)
            ctx.ob("an entity is replaced by its own placeholder", con, True if Q[2] is want else
                   (None if [q for q in opaque_parts(Q[2], e) if not (q.op == "app" and q.a[0] == "apply")] else False), show(Q[2], 5), w)
        a, z = piece(Q[1], txt)
        rg = fld(el, "range")
        good = same(a, cur) and z is not None and same(z, fld(rg, "start")) and not narrow(Q[1])
        ctx.ob("the text between two entities is copied", con, True if good else
               (None if [q for q in opaque_parts(Q[1], e) if q is not cur] else False), show(Q[1], 6), w)
        good = same(c, fld(rg, "end")) and not narrow(c)
        start = {q: e.entry_of(q) for q in subterms(c) if q.op == "phi"}
        c1 = subst(c, start) if all(v is not None for v in start.values()) else c
        ctx.ob("copying goes on behind the replaced entity", con, True if good else
               (None if [q for q in opaque_parts(c1, e) if not (q.op == "app" and q.a[0] == "apply")] or same(c1, fld(rg, "end")) else False), show(c, 6), w)
        if mapping is not None:
            mapped(ctx, con, e, acc, cur, el, Q, mapping, w)


def replaced(ctx, con, e, s, v, txt, ents, placeholder, w):
    m, t = fld(v, "0"), fld(v, "1")
    gs = gens_of(m)
    if t is txt:
        new_text(ctx, con, e, s, t, txt, ents, placeholder, w)
        ctx.ob("without entities no range is mapped", con, None if gs is None else not gs, show(m, 3), w)
        return
    if gs is None:
        ctx.ob("the mapped ranges can be followed", con, None, show(m, 4), w)
        return
    # the order of the replacement
    orders = {}
    for f, p in s.facts:
        if p and f.op == "app" and f.a[0] == "exhausted" and f.a[2].op == "elem":
            orders[f.a[2].a[1].rstrip("~")] = f.a[1]
    new_text(ctx, con, e, s, t, txt, ents, placeholder, w, mapping=gs)
    if not gs and any(q.op == "phi" for q in subterms(t)):
        ctx.ob("a placeholder is mapped to the range of its entity", con, None if e.incomplete else False, "no range is mapped", w)
    for x, conds, bnd in gs:
        sel = [(c, p) for c, p in selecting(e, s.facts, conds) if c is not PUSHED and
               not (c.op == "app" and c.a[0] in ("contains", "exhausted"))]
        ctx.ob("the range of every replaced entity is mapped", con, True if not sel else
               (None if any(opaque_parts(c, e) and c.op != "eq" for c, p in sel) else False), "; ".join(show(c, 4) for c, p in sel), w)
    done = [f.a[1] for f, p in s.facts if p and f.op == "app" and f.a[0] == "exhausted"]
    last_ = [c for c in done if c.op == "coll" and sorts(c.a[2], before, SPANS, range_leaf("range"))]
    firsts = [c for c in done if c.op == "coll" and sorts(c.a[2], longer, SPANS, range_leaf("range"))]
    rest = [c for c in done if c not in last_ and c not in firsts]
    ctx.ob("entities are replaced in the order of their positions", con,
           True if last_ else (None if not done or any(sorts(c.a[2], before, SPANS, range_leaf("range")) is None for c in done if c.op == "coll")
                               else False), "; ".join(show(c, 5) for c in done)[:300], w)
    for c in last_:
        if cut(c.a[2]):
            ctx.ob("no entity is left unreplaced", con, False, show(c.a[2], 5), w)


def mapped(ctx, con, e, acc, cur, el, Q, gs, w):
    """One entry: from the placeholder's range in the new text to the entity's range in the old one."""
    a, z = span(fld(el, "range"))
    L, K, Pn = sym("·length"), sym("·copied"), sym("·placeholder")

    def leaf(t):
        return L if t is acc else Pn if t is Q[2] else None
    phis = set()
    for x, conds, bnd in gs:
        phis |= {q for q in subterms(fld(x, "0")) if q.op == "phi" and q not in (acc, cur)}
    norm_ = lambda t: simplify_len(debare(t), acc, cur, Q, L, K, Pn, fld(el, "range"))
    first = {q: e.entry_of(q) for q in phis | {acc, cur} if e.entry_of(q) is not None}
    keys = [fld(x, "0") for x, conds, bnd in gs]
    for x, conds, bnd in gs:
        k, val = fld(x, "0"), fld(x, "1")
        own = [q for q in subterms(val) if q.op == "elem"]
        el2 = own[0] if own else el
        sp, sv = span(k), span(val)
        if sp is None or sv is None:
            ctx.ob("the mapped ranges can be followed", con, None, show(x, 5), w)
            continue
        here = {q: fix for q, fix in ((el2, el),)}
        lo, hi, vlo, vhi = [subst(debare(q), here) for q in sp + sv]
        good = same(vlo, a) and same(vhi, z)
        ctx.ob("a placeholder is mapped to the range of its entity", con, True if good and not narrow(val) else
               (None if opaque_parts(val, e) else False), show(val, 5), w)
        squeezed = narrow(k)
        ctx.ob("positions are computed in integers large enough for every text", con, not squeezed, ",".join(sorted(set(squeezed))), w)
        # the first round, seen with the values before the loop, is an instance of the general one
        if not any(q.op == "phi" for q in subterms(k)) and any(subst(o, first) is k or same_span(subst(o, first), k, el2) for o in keys if o is not k):
            continue
        res = []
        for got, want in ((lo, sub(add(L, a), K)), (hi, add(sub(add(L, a), K), Pn))):
            # what is left is a sum of variables of the loop that has to stay zero
            res.append(stays_zero(e, norm_(sub(norm_(got), want)), acc, cur, L, K, Pn, norm_, Q, a, z))
        ctx.ob("the range of a placeholder is where it stands in the new text", con,
               True if all(r is True for r in res) else (False if False in res else None), show(k, 6), w)


def stays_zero(e, d, acc, cur, L, K, Pn, norm_, Q, a, z):
    """Is the sum zero in every round?  By induction over the rounds of the loop."""
    if d is C("int", 0):
        return True
    if d.op not in ("lin", "c", "phi", "s"):
        return None
    vs = [q for q in subterms(d) if q.op == "phi"]
    alien = [y for y, k in (d.a[1] if d.op == "lin" else ()) if y.op not in ("phi",) and y not in (L, K, Pn)]
    entry = {q: e.entry_of(q) for q in vs}
    if any(v is None for v in entry.values()):
        return None
    m = {q: bare(v) for q, v in entry.items()}
    m.update({L: C("int", 0), K: C("int", 0)})
    first = norm_(subst(d, m))
    plain = lambda t: t.op == "c" or not [y for y, k in (t.a[1] if t.op == "lin" else ((t, 1),))
                                          if y is not Pn and not (y.op == "f" and y.a[1] in ("start", "end")) and
                                          not (y.op == "app" and y.a[0] == "len" and opaque_ok(y))]
    if first is not C("int", 0):
        return False if plain(first) else None
    n = len(e.steps_of(acc))
    for i in range(n):
        ya, yc = e.steps_of(acc)[i][0], e.steps_of(cur)[i][0]
        m = {L: chars(ya, lambda t: L if t is acc else Pn if t is Q[2] else None), K: norm_(yc)}
        for q in vs:
            st = e.steps_of(q)
            if len(st) != n:
                return None
            m[q] = norm_(st[i][0])
        nxt = norm_(subst(d, m))
        grow = sub(nxt, d)
        if grow is C("int", 0):
            continue
        return False if plain(grow) else None
    return True


def opaque_ok(t):
    return not any(q.op in ("top", "phi") for q in subterms(t))


def same_span(a, b, el):
    x, y = [[subst(debare(q), {t: chars(t.a[1]) for t in subterms(debare(q)) if t.op == "app" and t.a[0] == "charlen"}) for q in span(r)] if span(r) else None for r in (a, b)]
    return x is not None and y is not None and untagged(x[0]) is untagged(y[0]) and untagged(x[1]) is untagged(y[1])


def simplify_len(t, acc, cur, Q, L, K, Pn, rg):
    """Lengths of texts as sums: that of the new text so far, of the placeholder, of ranges."""
    t = debare(t)
    m = {}
    for q in subterms(t):
        if q.op == "app" and q.a[0] in ("charlen",):
            y = q.a[1]
            m[q] = chars(y, lambda z: L if z is acc else Pn if untagged(z) is untagged(Q[2]) else None)
        elif q.op == "app" and q.a[0] in ("len", "count") and untagged(q.a[1]) is untagged(rg):
            m[q] = sub(fld(rg, "end"), fld(rg, "start"))
    t = subst(t, m)
    t = subst(t, {cur: K})
    return t


def labels(ctx):
    """The placeholder of an entity: its name without separators, in capitals, between percent signs."""
    for b in ctx.prog.crates["snips_nlu_lib"].bodies.values() if isinstance(ctx.prog.crates, dict) else ():
        if not b["path"].endswith("::get_entity_placeholder") or "::promoted[" in b["id"]:
            continue
        ps = params(b)
        e, rs = ctx.run(b, ps)
        con = b["path"].split("::")[-2] + "::get_entity_placeholder"
        for s, r in rs:
            for v in alts(r):
                P = parts(v)
                good = len(P) == 3 and P[0] in (S("%"), C("char", "%")) and P[2] in (S("%"), C("char", "%")) and upper_name(P[1], ps[0])
                ctx.ob("the placeholder is the entity's name in capitals between percent signs", con,
                       True if good else (None if [q for q in opaque_parts(v, e) if not (q.op == "app" and last(q.a[0]) in
                                          ("tokenize_light", "join", "to_uppercase", "replace"))] else False), show(v, 6), where(b))


def upper_name(t, label):
    if not (t.op == "app" and last(t.a[0]) in ("to_uppercase", "uppercase")):
        return False
    t = t.a[1]
    return t.op == "app" and last(t.a[0]) in ("join", "concat_all") and t.a[1].op == "app" and last(t.a[1].a[0]) == "tokenize_light" \
        and t.a[1].a[1] is label and t.a[2] is S("")
