"""C18: what the table parser looks up in its table, and what an entry found there gives."""
from ..check import check, where
from ..engine import decide
from ..lib import *
from ..models import cut_of, entry_parts, keys_of, or_insert
from ..terms import *
from .loading import last, lookup_part
from .patterns import current, order_steps, unknowns
from .replace import Other, NoValue, path_of, sorts

PARSER = "LookupIntentParser"
CLEAN, REPLACE, REDUCE = PARSER + "::preprocess_text", "replace_entities_with_placeholders", "utils::deduplicate_overlapping_entities"
KNOWN = ("preprocess_text", "replace_entities_with_placeholders", "deduplicate_overlapping_entities", "combinations", "powerset",
         "hash_str_to_i32", "extract_entities", "from_identifier", "get!", "idx", "cast:usize", "max_by", "min_by", "max_by_key",
         "min_by_key", "sum", "fdiv", "fadd", "substring_with_char_range", "charslice", "identifier", "keys", "contains", "len", "range")


RESULT, SLOT = app("·result"), app("·slot")


def hooks(pushes):
    """Hooks that keep on the path that a match or a slot was kept, and note the texts put aside."""
    def push(e, st, args, site, fn):
        x = e.deep(st, args[1])
        t = x.a[0].split("<")[0] if x.op == "st" else ""
        if t.endswith("InternalParsingResult"):
            st.hist = st.hist | {RESULT}
        elif t.endswith("InternalSlot"):
            st.hist = st.hist | {SLOT}
        elif t == "()":
            pushes.append((x, st.facts))
        return None

    def entry(e, st, args, site, fn):
        ep = entry_parts(e, st, args[0])
        if ep is None or not (site.targ(1) or "").startswith("std::vec::Vec<"):
            st.hist = st.hist | {RESULT}
            return None
        # of a list of matches: one that is not there yet is begun with what is given, one that is there stays as it is
        p, k, m = ep
        ck = app("contains", keys_of(m), k)
        outs = []
        for s, r in or_insert(e, st, args, site) or ():
            v = e.deref(s, r)
            if decide(s.facts, ck) is not True and v.op in ("list", "coll") and v.a[1]:
                s.hist = s.hist | {RESULT}
            outs.append((s, r))
        return outs

    def insert(e, st, args, site, fn):
        st.hist = st.hist | {RESULT}
        return None
    return dict({"Vec::push": push, "HashMap::insert": insert},
                **{"Entry::" + n: entry for n in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key")})


class Table:
    """The parser, with the cleaning of texts, the replacement and the reduction of entities left as they are called."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.body = ctx.prog.find(PARSER + "::parse_top_intents", optional=True) or ctx.anchor(PARSER + "::parse_top_intents")
        if self.body is None:
            return
        self.ps = params(self.body)
        self.me, self.input, self.top = self.ps[:3]
        hs = [ctx.prog.find(h, optional=True) for h in (CLEAN, REPLACE, REDUCE)]
        self.pushes = []
        self.e, self.rs = ctx.run(self.body, self.ps, hooks=hooks(self.pushes), opaque={b["id"] for b in hs if b is not None})
        self.scopes, self.names = fld(self.me, "entity_scopes"), fld(self.me, "intents_names")

    def entry(self, x):
        """The table entry that names the intent of a result."""
        n = fld(fld(x, "intent"), "intent_name")
        n = n.a[3][0] if n.op == "en" and n.a[1] == "Some" else None
        if n is None or not (n.op == "app" and n.a[0] == "idx" and n.a[1] is self.names):
            return None
        k = bare_num(n.a[2])
        if k.op == "f" and k.a[1] == "0" and k.a[0].op == "app" and k.a[0].a[0] == "get!" and k.a[0].a[1] is fld(self.me, "map"):
            return k.a[0]
        return None

    def key(self, ent):
        h = ent.a[2]
        return h.a[1] if h.op == "app" and last(h.a[0]) == "hash_str_to_i32" and len(h.a) == 2 else None

    def text(self, t):
        """(the text cleaned, the intent) or None"""
        if t.op == "app" and last(t.a[0]) == "preprocess_text" and len(t.a) == 4 and t.a[1] is self.me:
            return t.a[2], t.a[3]
        return None

    def group(self, i):
        """The scope whose group an intent belongs to."""
        if i.op == "elem":
            src = i.a[0]
            if src.op == "f" and src.a[1] == "intent_group" and src.a[0].op == "elem" and src.a[0].a[0] is self.scopes:
                return src.a[0]
        return None

    def subset(self, s):
        """(the entities a set is chosen from, how many as a function of their number) or None"""
        if s.op in ("coll", "list") and gens_of(s) is not None and not gens_of(s):
            return None, lambda n, conds: {0}
        if s.op != "elem" or s.a[0].op != "app":
            return None
        c = s.a[0]
        if c.a[0] == "powerset":
            return c.a[1], lambda n, conds: set(range(n + 1))
        if c.a[0] != "combinations":
            return None
        d, k = c.a[1], c.a[2]
        return d, lambda n, conds: sizes(k, d, n, conds)


def of_entry(t):
    """Does a condition compare the entities with the slots of an entry? (as many, by the meaning of the table)"""
    return t.op == "eq" and any(y.op == "app" and y.a[0] in ("len", "count") and len(y.a) == 2 and y.a[1].op == "f" and y.a[1].a[1] == "1" and
                                y.a[1].a[0].op == "app" and y.a[1].a[0].a[0] == "get!" for y in subterms(t))


def chosen(conds):
    """The sets of entities a text that does not contain them still depends on"""
    return {t.a[1] for t, q in conds if q and t.op == "app" and t.a[0] == "contains" and t.a[1].op == "app" and
            t.a[1].a[0] == "combinations" and t.a[2].op == "elem" and t.a[2].a[0] is t.a[1] and not t.a[2].a[1].endswith("~")}


def bare_num(t):
    while t.op == "app" and t.a[0].startswith("cast:") and len(t.a) == 2:
        t = t.a[1]
    return t


def sizes(k, d, n, conds):
    """The values of k when d has n elements and the conditions on k hold."""
    leaf0 = {app("len", d): n, app("count", d): n}
    if k.op == "elem" and k.a[0].op == "app" and k.a[0].a[0] == "range":
        lo, hi = (num(x, leaf0.get) for x in k.a[0].a[1:3])
        cand = range(int(lo), int(hi))
    else:
        v = num(k, leaf0.get)
        cand = [int(v)]
    out = set()
    for j in cand:
        leaf = dict(leaf0)
        leaf[k] = j
        ok = True
        own = {y.a[1] for t, p in conds for y in subterms(t) if y.op == "app" and y.a[0] in ("len", "count") and len(y.a) == 2 and
               y.a[1].op == "elem" and y.a[1].a[0] is app("combinations", d, k)}
        for c in own:
            leaf[app("len", c)] = leaf[app("count", c)] = j
        for t, p in conds:
            if t.op not in ("ge0", "eq") or not set(leaf) & set(subterms(t)):
                continue
            if of_entry(t):
                continue
            if t.op == "ge0":
                if (num(t.a[0], leaf.get) >= 0) is not p:
                    ok = False
            elif (num(t.a[0], leaf.get) == num(t.a[1], leaf.get)) is not p:
                ok = False
        if ok:
            out.add(j)
    return out


@check("C18")
def c18(ctx):
    """The table parser's ranking of the matches is summarised; every match is followed back to the entry it comes from,
    the text whose hash is its key, the intent and the entities that text was made with, and its slots to those of the
    entry and these entities; the sizes of the entity sets tried are counted for several numbers of entities."""
    p = Table(ctx)
    if p.body is None:
        return
    w, con, e = where(p.body), PARSER + "::parse_top_intents", p.e
    n = 0
    tried, its = [], []
    for s, r in results(p.rs):
        passed_over(ctx, p, s, con, w)
        for v in alts(r):
            gs = gens_of(v)
            if gs is None:
                ctx.ob("the matches can be followed", con, None, show(v, 4), w)
                continue
            for x, conds, b in gs:
                n += 1
                found = match(ctx, p, x, s.facts | conds, con, w)
                if found is not None:
                    tried.append((given(p, conds), found))
                its += [t.a[1] for t, q in conds if q and t.op == "app" and t.a[0] in CHOICES and t.a[1] not in its]
    ctx.ob("there are matches to check", con, n > 0 or None, "%d" % n, w)
    if n:
        counted(ctx, tried, 12, "every set of the entities found is tried", con, w)
    for it in its:
        sets = []
        if it.op == "coll":
            ctx.ob("every match of an intent takes part in the choice", con, cut_of(it.a[2]) is None, show(it.a[2], 4), w)
        for x, conds, b in gens_of(it) or ():
            y = fld(x, "0") if x.op == "st" and x.a[0] == "()" else x
            found = match(ctx, p, y, conds, con, w)
            if found is not None:
                sets.append((given(p, conds), found))
        counted(ctx, sets, 12, "every match of an intent takes part in the choice", con, w)
    rounds(ctx, p, con, w)
    ranks(ctx, con, w)
    words(ctx)
    lookup_part(ctx)


CHOICES = ("max_by", "min_by", "max_by_key", "min_by_key")


def given(p, conds):
    return decide(conds, isv(p.ps[3], "Some")) if len(p.ps) > 3 else None


def counted(ctx, sets, upto, rule, con, w):
    for g in (True, False):
        fs = [z for h, z in sets if h is None or h is g]
        for k in range(upto):
            try:
                got = set().union(*[z(k) for z in fs]) if fs else set()
                ok = got >= set(range(k + 1)) or False
            except NoValue:
                ok, got = None, ()
            ctx.ob(rule, con, ok if fs else None, "of %d entities, sets of %s are tried (intents %s)"
                   % (k, sorted(got), "given" if g else "not given"), w)


def tries(p, it):
    """Is it something a loop over which goes through texts tried: groups, intents, sets of entities, or the texts themselves?"""
    gs = gens_of(it)
    xs = [x for x, f, b in gs] if gs is not None else [it]
    return any(y is p.scopes or y.op == "app" and (y.a[0] in ("combinations", "powerset") or last(y.a[0]) in KNOWN[:3])
               for x in xs for y in subterms(x))


def passed_over(ctx, p, s, con, w):
    """A loop over what is to be tried is not left before its end."""
    for it in early(p.e, s):
        if tries(p, it):
            ctx.ob("nothing is passed over once something was found", con, False, show(it, 4), w)


def of_slots(p, y):
    """Is it a slot of an entry, or an entity of a set replaced?"""
    c = y.a[0]
    return c.op == "f" and c.a[1] == "1" and c.a[0].op == "app" and c.a[0].a[0] == "get!" and c.a[0].a[1] is fld(p.me, "map") or \
        c.op == "elem" and c.a[0].op == "app" and c.a[0].a[0] in ("combinations", "powerset")


def rounds(ctx, p, con, w):
    e = p.e
    flt = p.ps[3] if len(p.ps) > 3 else None
    n = 0
    for tag, backs in e.rounds.items():
        for s in backs:
            passed_over(ctx, p, s, con, w)
            if any(q and t.op == "app" and t.a[0] == "contains" and t.a[2].op == "elem" and t.a[2].a[0] is t.a[1] and
                   current(e, t.a[2], tag) and of_slots(p, t.a[2]) for t, q in s.facts):
                extra = [(t, q) for t, q in s.facts if any(y.op == "elem" and current(e, y, tag) for y in subterms(t)) and
                         t.op not in ("ge0", "forall") and not (t.op == "app" and (t.a[0] in ("contains", "exhausted") or t.a[0].startswith("·")))]
                ctx.ob("every entity replaced has its slot", con, SLOT in s.hist or
                       (None if any(unknowns(t, e, KNOWN) for t, q in extra) else False), "; ".join(show(t, 4) for t, q in extra)[:200], w)
                continue
            hits = [t.a[2] for t, q in s.facts if q and t.op == "app" and t.a[0] == "contains" and t.a[1].op == "app" and
                    t.a[1].a[0] == "keys" and t.a[1].a[1] is fld(p.me, "map")]
            for h in hits:
                if not any(y.op == "elem" and current(e, y, tag) for y in subterms(h)):
                    continue
                n += 1
                name = app("get!", fld(p.me, "map"), h)
                out = [t for t, q in s.facts if not q and flt is not None and t.op == "app" and t.a[0] == "contains" and
                       any(y is flt for y in subterms(t.a[1])) and name in set(subterms(t.a[2]))]
                judged = any(y.op == "app" and y.a[0] == "len" and y.a[1].op == "f" and y.a[1].a[1] == "slots" for t, q in s.facts for y in subterms(t))
                ctx.ob("a text in the table is a match", con, bool(out) or RESULT in s.hist or (None if judged else False), show(h, 4), w)
    ctx.ob("the texts in the table can be followed", con, n > 0 or None, "%d" % n, w)


def match(ctx, p, x, conds, con, w):
    """One match; the function counting the entity sets it stands for, when every part of it is understood."""
    e = p.e
    ent = p.entry(x)
    if ent is None:
        ctx.ob("the intent is that of a table entry", con, None if unknowns(fld(x, "intent"), e, KNOWN) else False, show(fld(x, "intent"), 6), w)
        return None
    ctx.ob("the intent is that of a table entry", con, True, show(ent, 3), w)
    t = p.key(ent)
    c = p.text(t) if t is not None else None
    if c is None:
        ctx.ob("the key is the hash of a cleaned text", con, None if unknowns(ent, e, KNOWN) else False, show(ent, 6), w)
        return None
    ctx.ob("the key is the hash of a cleaned text", con, True, "", w)
    txt, i = c
    sc = p.group(i)
    ctx.ob("texts are cleaned for an intent of a group of the model", con, True if sc is not None else
           (None if unknowns(i, e, KNOWN) else False), show(i, 4), w)
    if sc is None:
        return None
    for el in (i, sc):
        o = cuts(e, el)
        ctx.ob("every group and every intent of it is tried", con, o is None, show(o, 4) if o is not None else "", w)
    slots = fld(x, "slots")
    if txt is p.input:
        S, count = None, lambda k, cs: {0} if all(sizes(c.a[2], c.a[1], k, cs) for c in chosen(cs)) else set()
    elif txt.op == "app" and last(txt.a[0]) == "replace_entities_with_placeholders" and len(txt.a) == 3:
        ctx.ob("entities are replaced in the input", con, txt.a[1] is p.input, show(txt.a[1], 3), w)
        S = strip_list(txt.a[2])
        sub_ = p.subset(S)
        if sub_ is None:
            ctx.ob("the entities replaced are a set of those found", con, None, show(S, 4), w)
            return None
        d, count = sub_
        if d is not None:
            reduced(ctx, p, d, sc, con, w)
        else:
            S = None
    else:
        ctx.ob("the text cleaned is the input, or the input with entities replaced", con, None if unknowns(txt, e, KNOWN) else False, show(txt, 5), w)
        return None
    pairs(ctx, p, slots, ent, S, con, w)
    lost = lossy(p, conds, ent, i, sc, S)
    for q, pol in lost:
        # only what is certainly a selection
        ctx.ob("a text in the table is a match", con, None if unknowns(q, e, KNOWN) else False, ("" if pol else "not ") + show(q, 5), w)
    if lost:
        return None
    # the text is tried where it is put aside: under the conditions there
    cs, put = frozenset(conds), []
    for y, f in p.pushes:
        if untagged(fld(y, "0")) is untagged(t):
            z = p.text(fld(y, "0"))[0]
            if S is None:
                put.append((count, f))
            else:
                put.append((p.subset(strip_list(z.a[2]))[1], f))
    return lambda k: set().union(*[c(k, f) for c, f in put or [(count, cs)]])


def lossy(p, conds, ent, i, sc, S):
    """Conditions that select among the texts tried (apart from being in the table and the filter on intents)."""
    e = p.e
    flt = p.ps[3] if len(p.ps) > 3 else None
    out = []
    for t, pol in selecting(e, frozenset(), conds):
        if t.op == "app" and t.a[0].startswith("·"):
            continue
        if t.op == "app" and t.a[0] in ("max_by", "min_by", "max_by_key", "min_by_key", "exhausted"):
            continue
        if t.op == "is" and t.a[1] in ("Ok", "Err"):
            continue
        if pol and t.op == "app" and t.a[0] == "contains":
            a, b = t.a[1], t.a[2]
            if b.op == "elem" and b.a[0] is a or b.op == "app" and b.a[0] == "idx" and b.a[1] is a:
                continue
            if a.op == "app" and a.a[0] == "keys" and a.a[1] is fld(p.me, "map"):
                continue
            if flt is not None and any(y is flt for y in subterms(a)):
                continue
        if t.op == "is" and t.a[0] is flt:
            continue
        if t.op in ("ge0", "eq") and any(y.op == "app" and y.a[0] in ("len", "count") for y in subterms(t)):
            ls = [y for y in subterms(t) if y.op == "app" and y.a[0] in ("len", "count") and len(y.a) == 2]
            if all(is_size(p, y.a[1]) for y in ls):
                continue
        if t.op == "ge0" and S is not None and S.op == "elem" and all(y.op in ("c", "lin") or y is S.a[0].a[2] or y.op in ("elem", "app")
                                                                    for y in subterms(t.a[0]) if y is not t.a[0]) and \
                any(y is S.a[0].a[-1] for y in subterms(t)):
            continue
        if t.op == "forall":
            continue
        out.append((t, pol))
    return out


def is_size(p, c):
    """Collections whose size does not select among texts: names (an index is in range), the group of intents, the slots of
    an entry (as many as the entities)."""
    if c in (p.names, fld(p.me, "slots_names")):
        return True
    if c.op == "f" and c.a[1] == "1" and c.a[0].op == "app" and c.a[0].a[0] == "get!":
        return True
    if c.op == "elem" and c.a[0].op == "app" and c.a[0].a[0] in ("combinations", "powerset"):
        return True
    if c.op == "app" and last(c.a[0]) == "deduplicate_overlapping_entities":
        return True
    gs = gens_of(c)
    if gs is None:
        return c.op == "f" and c.a[1] == "intent_group"
    return all(p.group(x) is not None for x, f, b in gs)


def pairs(ctx, p, slots, ent, S, con, w):
    """The slots of an entry go with the entities replaced, one by one."""
    e = p.e
    gs = gens_of(slots)
    if gs is None:
        ctx.ob("the slots of a match can be followed", con, None, show(slots, 5), w)
        return
    if S is None:
        ctx.ob("a text without entities gives no slots", con, not gs or (None if unknowns(slots, e, KNOWN) else False), show(slots, 4), w)
        return
    ctx.ob("an entity replaced gives a slot", con, bool(gs), show(slots, 3), w)
    seen = {}
    for x, conds, b in gs:
        rg = fld(x, "char_range")
        en, fs = path_of(rg)
        own = en.op == "elem" and en.a[0] is S and fs == ("range",)
        ctx.ob("a slot has the range of its entity", con, True if own else (None if unknowns(rg, e, KNOWN) else False), show(rg, 5), w)
        if not own:
            continue
        ctx.ob("a slot has the name of its entity", con, True if fld(x, "entity") is fld(en, "entity_name") else
               (None if unknowns(fld(x, "entity"), e, KNOWN) else False), show(fld(x, "entity"), 5), w)
        v = fld(x, "value")
        ok = v.op == "app" and last(v.a[0]) in ("substring_with_char_range", "charslice") and v.a[1] is p.input and \
            (v.a[2] is rg or len(v.a) > 3 and v.a[2] is fld(rg, "start") and v.a[3] is fld(rg, "end"))
        ctx.ob("the value of a slot is the input's text at its range", con, True if ok else (None if unknowns(v, e, KNOWN) else False), show(v, 5), w)
        nm = fld(x, "slot_name")
        k = bare_num(nm.a[2]) if nm.op == "app" and nm.a[0] == "idx" and nm.a[1] is fld(p.me, "slots_names") else None
        own = k is not None and k.op == "elem" and k.a[0] is fld(ent, "1")
        if k is not None and k is app("idx", fld(ent, "1"), app("pos", S, en)):
            ctx.ob("names and entities go in step", con, True, show(k, 5), w)
            continue
        ctx.ob("the name of a slot is the one the entry gives", con, True if own else (None if unknowns(nm, e, KNOWN) else False), show(nm, 6), w)
        if own:
            oa, ob = (e.orders.get(y.a[1].rstrip("~")) for y in (en, k))
            ctx.ob("names and entities go in step", con, in_step(oa, ob), "%s / %s" % tuple(show(o, 4) if o is not None else "-" for o in (oa, ob)), w)
        sel = [(t, q) for t, q in selecting(e, frozenset(), conds) if any(y is en or y is k for y in subterms(t)) and
               not (t.op == "app" and t.a[0] in ("contains", "exhausted")) and not (t.op in ("ge0", "eq") and
                    any(y.op == "app" and y.a[0] == "len" and is_size(p, y.a[1]) for y in subterms(t)))]
        ctx.ob("every entity replaced has its slot", con, True if not sel else (None if any(unknowns(t, e, KNOWN) for t, q in sel) else False),
               "; ".join(show(t, 4) for t, q in sel)[:200], w)


def in_step(a, b):
    if a is None or b is None:
        return None
    x, y = order_steps(a), order_steps(b)
    if x is None or y is None:
        return False if any(q.op == "app" and q.a[0] == "o_rev" for o in (a, b) for q in subterms(o)) else None
    if x[1].a[0] == "o_zip" and y[1] is x[1]:
        sides = [order_steps(z) for z in x[1].a[1:]]
        if len(sides) != 2 or None in sides:
            return False if any(q.op == "app" and q.a[0] == "o_rev" for q in subterms(x[1])) else None
        return x[0] == 0 and y[0] == 0 and sides[0][0] == 0 and sides[1][0] == 0
    return None


def reduced(ctx, p, d, sc, con, w):
    """The entities replaced: those found in the input for the scope, reduced."""
    e = p.e
    ok = d.op == "app" and last(d.a[0]) == "deduplicate_overlapping_entities" and len(d.a) == 2
    ctx.ob("the entities found are reduced before sets of them are tried", con, True if ok else (None if unknowns(d, e, KNOWN) else False), show(d, 4), w)
    if not ok:
        return
    gs = gens_of(d.a[1])
    if gs is None:
        ctx.ob("the entities found can be followed", con, None, show(d, 4), w)
        return
    kinds = set()
    scope = fld(sc, "entity_scope")
    for x, conds, b in gs:
        el, fs = path_of(fld(x, "range"))
        src = el.a[0] if el.op == "elem" else None
        while src is not None and src.op in ("vf", "pay"):
            src = src.a[0]
        if not (src is not None and src.op == "app" and last(src.a[0]) == "extract_entities" and fs == ("range",)):
            ctx.ob("the entities replaced are those found in the input", con, None if unknowns(x, e, KNOWN) else False, show(x, 5), w)
            continue
        who = path_of(src.a[1])[1]
        kind = "builtin" if who and who[-1] == "builtin_entity_parser" else "custom" if who and who[-1] == "custom_entity_parser" else None
        ctx.ob("entities are found by the parsers of the assistant", con, True if kind else None, show(src.a[1], 4), w)
        kinds.add(kind)
        ctx.ob("entities are looked for in the input", con, src.a[2] is p.input, show(src.a[2], 4), w)
        f = src.a[3]
        f = f.a[3][0] if f.op == "en" and f.a[1] == "Some" else None
        name = fld(x, "entity_name")
        if kind == "custom":
            good = f is fld(scope, "custom")
            ctx.ob("the entities looked for are those of the group's scope", con, True if good else
                   (None if f is not None and unknowns(f, e, KNOWN) else False), show(src.a[3], 5), w)
            okn = name is fld(el, "entity_identifier")
        else:
            g2 = gens_of(f) if f is not None else None
            good = g2 is not None and len(g2) == 1 and same_kind(g2[0][0], fld(scope, "builtin")) and cut_of(order(f)) is None and \
                not [1 for t, q in selecting(e, frozenset(), g2[0][1]) if not (t.op == "is" or t.op == "app" and t.a[0] == "contains")]
            ctx.ob("the entities looked for are those of the group's scope", con, True if good else
                   (None if f is None and unknowns(src.a[3], e, KNOWN) or f is not None and unknowns(f, e, KNOWN) else False), show(src.a[3], 7), w)
            okn = name.op == "app" and last(name.a[0]) == "identifier" and name.a[1] is fld(el, "entity_kind")
        ctx.ob("an entity is replaced under its own name", con, True if okn else (None if unknowns(name, e, KNOWN) else False), show(name, 5), w)
        sel = [(t, q) for t, q in selecting(e, frozenset(), conds) if any(y is el for y in subterms(t)) and
               not (t.op == "app" and t.a[0] == "contains")]
        ctx.ob("every entity found takes part", con, True if not sel else (None if any(unknowns(t, e, KNOWN) for t, q in sel) else False),
               "; ".join(show(t, 4) for t, q in sel)[:200], w)
    for k in ("builtin", "custom"):
        ctx.ob("builtin and custom entities are both looked for", con, True if k in kinds else (None if None in kinds else False), k, w)


def order(c):
    return c.a[2] if c.op == "coll" else None


def same_kind(x, src):
    """The kind named by an element of a list of identifiers"""
    y = x
    while y.op in ("vf", "pay"):
        y = y.a[0]
    return y.op == "app" and last(y.a[0]) == "from_identifier" and y.a[1].op == "elem" and y.a[1].a[0] is src


def weight_leaf(k):
    return lambda t: k if t.op == "app" and t.a[0] in ("len", "count") and path_of(t.a[1])[1][-1:] == ("slots",) else None


def ranks(ctx, con, w):
    """Per intent the match with the fewest slots; the matches in descending order of their share, as many as asked for."""
    b = ctx.prog.find(con)
    ps = params(b)
    op = {x["id"] for x in (ctx.prog.find(PARSER + "::" + n, optional=True) for n in ("parse_map_output", "get_candidates", "preprocess_text")) if x}
    e, rs = ctx.run(b, ps, opaque=op)
    k = 0
    for s, r in results(rs):
        for v in alts(r):
            gs = gens_of(v)
            if gs is None:
                continue
            o = order(v)
            core = o
            ks = []
            while core is not None and core.op == "app" and core.a[0] in ("o_take",):
                ks.append(core.a[2] if len(core.a) > 2 else None)
                core = core.a[1]
            ctx.ob("as many matches as asked for are kept", con, True if ks == [ps[2]] else
                   (None if None in ks else False), show(o, 3) if o is not None else "", w)
            conf = lambda t, els: els[path_of(t)[0].a[0]] if path_of(t)[0].op == "s" and path_of(t)[1][-1:] == ("confidence_score",) \
                and path_of(t)[0].a[0] in els else None
            ctx.ob("the surest match comes first", con, sorts(core, lambda a, c: a > c, [0.1, 0.3, 0.5, 0.9], conf), show(core, 6) if core is not None else "", w)
            for x, conds, bd in gs:
                for t, pol in conds:
                    if t.op == "app" and t.a[0] in ("max_by", "min_by", "max_by_key", "min_by_key") and pol:
                        k += 1
                        ctx.ob("of the matches of an intent the one with the fewest slots is kept", con, fewest(t), show(t.a[3], 6), w)
    ctx.ob("the choice among the matches of an intent can be followed", con, k > 0 or None, "%d" % k, w)


def fewest(t):
    """Does a choice prefer fewer slots?"""
    nm, it, v, o = t.a
    if o.op != "app" or len(o.a) != 2:
        return None

    def leaf(els):
        def f(q):
            root, fs = path_of(q)
            if root.op == "s" and root.a[0] in els:
                x = v
                for z in fs:
                    x = fld(x, z)
                return num(x, weight_leaf(els[root.a[0]]))
            if q.op == "app" and q.a[0] in ("len", "count"):
                root, fs = path_of(q.a[1])
                if root.op == "s" and root.a[0] in els and fs[-1:] == ("slots",):
                    return els[root.a[0]]
            return None
        return f
    from .replace import value
    for a in range(5):
        for c in range(5):
            if a >= c:
                continue
            try:
                if o.a[0] == "bykey":
                    d = value(o.a[1], leaf({"cmp·a": a})) - value(o.a[1], leaf({"cmp·a": c}))
                elif o.a[0] == "bycmp":
                    d = value(o.a[1], leaf({"cmp·a": a, "cmp·b": c}))
                else:
                    return None
            except Other:
                return False
            except (NoValue, TypeError):
                return None
            if not (d > 0 if nm.startswith("max") else d < 0):
                return False
    return True


def words(ctx):
    """The text looked up: the words that are not stop words of the intent, joined by blanks, in lower case."""
    b = ctx.prog.find(CLEAN, optional=True)
    if b is None:
        ctx.ob("the cleaning of a text can be followed", PARSER, None, "preprocess_text not found")
        return
    w, ps = where(b), params(b)
    me, txt, intent = ps[:3]
    e, rs = ctx.run(b, ps, opaque={k for k, x in ctx.prog.bodies.items() if x["path"].endswith("::from_language")})
    spec = fld(me, "specific_stop_words")
    kinds = set()
    for s, r in rs:
        for v in alts(r):
            low = v.op == "app" and last(v.a[0]) == "to_lowercase"
            j = v.a[1] if low else v
            if not (j.op == "app" and j.a[0] == "join" and len(j.a) == 3):
                ctx.ob("the words are joined", CLEAN, None if unknowns(j, e, KNOWN + WORDS) else False, show(j, 4), w)
                continue
            ctx.ob("the words are joined by single blanks", CLEAN, j.a[2] is S(" ") or j.a[2] is C("char", " "), show(j.a[2], 2), w)
            gs = gens_of(j.a[1])
            if gs is None:
                ctx.ob("the words can be followed", CLEAN, None, show(j.a[1], 5), w)
                continue
            o = order(j.a[1])
            if o is not None and o.op == "app" and o.a[0] == "o_push" and len({x for x, f, b in gs}) == 1:
                y = gs[0][0]
                y = y.a[1] if y.op == "app" and last(y.a[0]) == "to_lowercase" else y
                o = e.orders.get(y.a[1].rstrip("~")) if y.op == "elem" else None
            ctx.ob("the words keep their order", CLEAN, o is not None and (o.op == "app" and o.a[0] == "o_src" and cut_of(o) is None) or
                   (None if o is None or o.a[0] == "o_push" else False), show(o, 3) if o is not None else "", w)
            each = bool(gs) and all(x.op == "app" and last(x.a[0]) == "to_lowercase" for x, f, b in gs)
            ctx.ob("the text looked up is in lower case", CLEAN, True if low or each else (None if unknowns(v, e, KNOWN + WORDS) else False), show(v, 3), w)
            for x, conds, bd in gs:
                x = x.a[1] if each else x
                src = x.a[0] if x.op == "elem" else None
                ok = src is not None and src.op == "app" and last(src.a[0]) == "tokenize_light" and src.a[1] is txt
                ctx.ob("the words are the tokens of the text", CLEAN, True if ok else (None if unknowns(x, e, KNOWN + WORDS) else False), show(x, 5), w)
                if not ok:
                    continue
                lang = src.a[2]
                ctx.ob("words are those of the assistant's language", CLEAN, True if fld(me, "language") in set(subterms(lang)) else (None if unknowns(lang, e, KNOWN + WORDS) else False), show(lang, 4), w)
                sel = [(t, q) for t, q in selecting(e, frozenset(), conds | s.facts) if any(y is x for y in subterms(t)) and
                       not (t.op == "app" and (t.a[0] == "contains" and t.a[1] is src or t.a[0] == "exhausted"))]
                got = []
                for t, q in sel:
                    st = stop(t, x, q)
                    if st is not None:
                        got.append(st)
                        continue
                    ctx.ob("only stop words are left out", CLEAN, None if unknowns(t, e, KNOWN + WORDS) else False, ("" if q else "not ") + show(t, 5), w)
                if not got:
                    ctx.ob("stop words are left out", CLEAN, None if any(unknowns(t, e, KNOWN + WORDS) for t, q in sel) else False, show(j.a[1], 5), w)
                    continue
                facts = conds | s.facts
                has = decide(facts, app("contains", app("keys", spec), intent))
                for g, st in [(g, st) for g in got for st in alts(g)]:
                    if st is app("get!", spec, intent):
                        kinds.add("own")
                        ctx.ob("the stop words of the intent are used when it has some", CLEAN, True, "", w)
                    elif st is fld(me, "stop_words"):
                        kinds.add("general")
                        ctx.ob("the general stop words are used when the intent has none of its own", CLEAN, True if has is False else
                               (None if has is None and len(alts(g)) > 1 else False), "", w)
                    else:
                        ctx.ob("the stop words are the intent's or the general ones", CLEAN, None if unknowns(st, e, KNOWN) else False, show(st, 4), w)
    for k in ("own", "general"):
        ctx.ob("own and general stop words are both used", CLEAN, True if k in kinds else None, k, w)


WORDS = ("normalize", "tokenize_light", "tokenize", "to_lowercase", "join", "from_language")


def stop(t, x, pol):
    """The set a word is kept out of, if the condition says it is not in it (in normalized form)."""
    if pol or t.op != "app" or t.a[0] != "contains":
        return None
    y = t.a[2]
    if y.op == "app" and last(y.a[0]) == "normalize" and y.a[1] is x:
        return t.a[1]
    return None
