"""C08: resolution of the slots a parser found; C09: extraction of one slot from a text."""
from ..check import check, where
from ..engine import decide
from ..lib import *
from ..terms import *
from ..models import cut_of
from .chain import calls_of, verdict, is_empty_list
from .api import order_chain

EXTRACT = "EntityParser::extract_entities"


def entity_call(el):
    """The extraction whose answer the entity is an element of."""
    if el.op == "elem" or el.op == "app" and el.a[0] == "idx":
        src = el.a[0] if el.op == "elem" else el.a[1]
        if src.op == "vf" and src.a[1] == "Ok" and src.a[0].op == "app" and src.a[0].a[0].endswith(EXTRACT):
            return src.a[0]
    return None


def payload(x):
    """The text of a custom slot value."""
    if x.op == "en" and x.a[1] == "Custom" and x.a[3]:
        x = x.a[3][0]
        while x.op == "st" and len(x.a[2]) == 1:
            x = x.a[2][0]
        return x
    return None


def base(x):
    return x.a[0] if x.op == "f" else None


def split_value(val):
    """(kind, entity term or None, text or None) of a slot value."""
    p = payload(val)
    if p is not None:
        el = base(p)
        if el is not None and entity_call(el) is not None:
            return "custom", el, p
        return "own", None, p
    el = base(val)
    if el is not None and entity_call(el) is not None:
        return "builtin", el, val
    return None, None, None


def is_builtin_call(c):
    return "Builtin" in c.a[0]


def custom_fact(facts, self_, name):
    """Is the entity one of the declared custom entities on this path?"""
    keys = app("keys", fld(fld(self_, "dataset_metadata"), "entities"))
    return decide(facts, app("contains", keys, name))


def kind_of(name):
    """The builtin kind an entity name stands for, in any of the two spellings of the conversion."""
    def f(k):
        return k.op == "vf" and k.a[1] == "Ok" and k.a[0].op == "app" and \
            k.a[0].a[0].split("::")[-1] in ("from_identifier", "from_str") and k.a[0].a[1] is name
    return f


def only(scope):
    """The single element of an optional scope."""
    if scope.op == "en" and scope.a[1] == "Some" and scope.a[3]:
        s = scope.a[3][0]
        if s.op == "list" and len(s.a[1]) == 1:
            return s.a[1][0]
    return None


def alternatives_of(ctx, con, x, kind, el, e, w):
    al = fld(x, "alternatives")
    if kind == "own":
        ctx.ob("a value taken from the text itself has no alternatives", con,
               verdict(is_empty_list(al), al, e), show(al, 4), w)
        return
    if kind == "builtin":
        ctx.ob("the alternatives are those of the entity of the value", con,
               verdict(al is fld(el, "alternatives"), al, e), show(al, 4), w)
        return
    src = fld(el, "alternative_resolved_values")
    gs = gens_of(al)
    if gs is None or al.op != "coll":
        ctx.ob("the alternatives are those of the entity of the value", con, verdict(False, al, e), show(al, 4), w)
        return
    for y, conds, b in gs:
        p = payload(y)
        good = p is not None and p.op == "elem" and p.a[0] is src
        ctx.ob("the alternatives are those of the entity of the value", con, verdict(good, y, e), show(y, 4), w)
    bad = [q.a[0] for q in order_chain(al.a[2]) if q.a[0] in ("o_rev", "o_skip", "o_take", "o_sorted", "o_step_by", "o_hash")]
    ctx.ob("the alternatives keep their order", con, not bad, ",".join(bad), w)


@check("C08")
def c08(ctx):
    """Every slot of every successful result of the engine is traced to the parser's slot it repeats and to the entity
    (or text) its value is taken from; the path condition under which it is produced has to establish that the entity
    is of the slot's own kind and covers its text, and all five ways of resolving must exist, so that no slot that can
    be resolved is dropped."""
    n = 0
    for nm in ("get_slots_with_alternatives", "parse_with_alternatives"):
        b = ctx.anchor("SnipsNluEngine::" + nm)
        if b is None:
            continue
        con = "SnipsNluEngine::" + nm
        ps = params(b)
        gs_ = ctx.anchor("SnipsNluEngine::get_slots_with_alternatives")
        op = {x["id"] for x in (gs_,) if x and x is not b}
        gi = ctx.prog.find("SnipsNluEngine::get_intents", optional=True)
        if gi and nm.startswith("parse"):
            op.add(gi["id"])
        e, rs = ctx.run(b, ps, opaque=op)
        kinds = {}
        lists = set()
        for s, r in results(rs):
            v = r if nm.startswith("get") else fld(r, "slots")
            for v in alts(v):
                if is_empty_list(v):
                    # no slots are answered: the parser that was followed found none
                    found = {t.a[1] for q, p in s.facts for t in subterms(q) if t.op == "app" and t.a[0] == "len" and any(
                        y.op == "app" and ("IntentParser::get_slots" in y.a[0] or "IntentParser::parse" in y.a[0]) for y in subterms(t.a[1]))}
                    lost = [x for x in found if decide(s.facts, eq(app("len", x), C("int", 0))) is False]
                    ctx.ob("slots that were found are not given up", con, False if lost else True, "; ".join(show(x, 4) for x in lost), where(b))
                if v in lists:
                    continue
                lists.add(v)
                n += one_list(ctx, con, e, s, v, ps, where(b), kinds)
        if kinds:
            for k in ("builtin in the text", "builtin in the slot", "custom in the text", "custom in the slot", "own text"):
                ctx.ob("every way of resolving a slot is tried", con + " / " + k, k in kinds, "", where(b))
    ctx.ob("there are resolved slots to check", "SnipsNluEngine", n > 0 or None, "%d" % n, None)


def one_list(ctx, con, e, s, v, ps, w, kinds):
    gs = gens_of(v)
    if gs is None:
        ctx.ob("the slots of a result can be followed", con, None, show(v, 4), w)
        return 0
    n = 0
    self_, inp, num_ = ps[0], ps[1], ps[-1]
    walked = set()
    for x, conds, bnd in gs:
        n += 1
        facts = s.facts | conds
        raw = fld(x, "raw_value")
        P = base(raw)
        if P is None or P.op != "elem" or raw.a[1] != "value":
            ctx.ob("a slot repeats the text the parser found", con, verdict(False, raw, e), show(raw, 4), w)
            continue
        own = any(y.op == "app" and ("IntentParser::get_slots" in y.a[0] or "IntentParser::parse" in y.a[0])
                  for y in subterms(P.a[0]))
        ctx.ob("a slot repeats the text the parser found", con, verdict(own, P, e), show(P, 4), w)
        for f, g in (("range", "char_range"), ("entity", "entity"), ("slot_name", "slot_name")):
            ctx.ob("a slot keeps the %s the parser gave it" % f.replace("_", " "), con,
                   verdict(fld(x, f) is fld(P, g), fld(x, f), e), show(fld(x, f), 4), w)
        walked.add(P)
        name, text, rng = fld(P, "entity"), fld(P, "value"), fld(P, "char_range")
        kind, el, val = split_value(fld(x, "value"))
        if kind is None:
            ctx.ob("the value of a slot is that of an entity or its own text", con,
                   verdict(False, fld(x, "value"), e), show(fld(x, "value"), 4), w)
            continue
        alternatives_of(ctx, con, x, kind, el, e, w)
        cf = custom_fact(facts, self_, name)
        if cf is None:
            cf = any_custom(facts, self_, name)
        allowed = []
        if kind == "own":
            ctx.ob("the text used as value is the slot's", con, verdict(val is text, val, e), show(val, 4), w)
            ctx.ob("only a declared entity takes the slot's text as value", con, True if cf else (False if cf is False else None),
                   "", w)
            ext = [t for t, p in facts if p and t.op == "f" and t.a[1] == "automatically_extensible"]
            mine = any(any(y is name for y in subterms(t)) for t in ext)
            ctx.ob("only an entity accepting unseen values takes the slot's text as value", con,
                   True if mine else absent(facts, e, s, "automatically_extensible"), "", w)
            asked = [t for t, p in facts if t.op == "is" and p and t.a[0].op == "app" and t.a[0].a[0].endswith(EXTRACT) and
                     not is_builtin_call(t.a[0]) and t.a[0].a[2] is text]
            ctx.ob("known values are looked for before the slot's text is used", con, bool(asked) or
                   (None if e.unknown_names & {"loop"} else False), "", w)
            kinds.setdefault("own text", 1)
            unsaid(ctx, con, e, s, conds, P, None, w)
            continue
        c = entity_call(el)
        bi = is_builtin_call(c)
        ctx.ob("the value comes from the extraction of the right parser", con, True if (kind == "builtin") == bi else False,
               show(c, 3), w)
        ctx.ob("declared entities are resolved as such and others as builtin", con,
               True if cf is (not bi) else (False if cf is bi else None), "", w)
        ctx.ob("the value is the resolved one", con,
               True if val.a[1] == ("entity" if bi else "resolved_value") else verdict(False, val, e), show(val, 4), w)
        ctx.ob("as many alternatives are asked for as the caller wants", con, verdict(c.a[-1] is num_, c.a[-1], e),
               show(c.a[-1], 3), w)
        txt = c.a[2]
        scope = c.a[3]
        k = "builtin" if bi else "custom"
        if txt is inp:
            kinds.setdefault(k + " in the text", 1)
            same_range = decide(facts, eq(fld(el, "range"), rng))
            ctx.ob("an entity found in the text covers exactly the slot", con,
                   True if same_range else lacking(facts, el, e, s), facts_about(facts, el), w)
            if bi:
                kf = fld(el, "entity_kind")
                good = any(p and t.op == "eq" and (t.a[0] is kf and kind_of(name)(t.a[1]) or
                                                   t.a[1] is kf and kind_of(name)(t.a[0])) for t, p in facts)
            else:
                good = decide(facts, eq(fld(el, "entity_identifier"), name)) is True
            ctx.ob("an entity found in the text is of the slot's own kind", con,
                   True if good else lacking(facts, el, e, s), facts_about(facts, el), w)
            in_scope(ctx, con, e, scope, P, bi, w)
        elif txt is text:
            kinds.setdefault(k + " in the slot", 1)
            o = only(scope)
            good = o is not None and (kind_of(name)(o) if bi else o is name)
            ctx.ob("the slot's text is read as an entity of its own kind", con, verdict(good, scope, e), show(scope, 4), w)
            if not bi:
                a, b = app("charlen", fld(el, "value")), app("charlen", text)
                full = decide(facts, eq(a, b)) is True or decide(facts, eq(fld(el, "value"), text)) is True or \
                    decide(facts, eq(fld(el, "range"), app("range", I(0), b))) is True
                ctx.ob("a declared value read from the slot's text covers all of it", con,
                       True if full else lacking(facts, el, e, s), facts_about(facts, el), w)
        else:
            ctx.ob("an entity is looked for in the text or in the slot", con, verdict(False, txt, e), show(txt, 4), w)
        unsaid(ctx, con, e, s, conds, P, el, w)
    lost = cut_of(v.a[2]) if v.op == "coll" else None
    if lost is not None:
        ctx.ob("no slot is left out", con, False, show(lost, 4), w)
    for P in walked:
        o = e.orders.get(P.a[1])
        if o is None:
            ctx.ob("slots keep the parser's order", con, None, "", w)
            continue
        chain = order_chain(o) + (order_chain(v.a[2]) if v.op == "coll" else [])
        if sum(q.a[0] in ("o_rev", "o_insert") for q in chain) % 2 == 0 and not any(q.a[0] == "o_insert" and q.a[1] is not C("int", 0) for q in chain):
            chain = [q for q in chain if q.a[0] not in ("o_rev", "o_insert")]
        bad = [q.a[0] for q in chain
               if q.a[0] in ("o_insert", "o_rev", "o_skip", "o_take", "o_sorted", "o_step_by", "o_hash", "o_take_while", "o_skip_while")]
        ctx.ob("slots keep the parser's order", con, not bad, ",".join(bad), w)
    return n


def unsaid(ctx, con, e, s, conds, P, el, w):
    """Nothing else decides whether a slot is kept."""
    for t, p in selecting(e, s.facts, conds):
        if expected(t, P, el) or el is None and t.op == "f" and t.a[1] == "automatically_extensible":
            continue
        if any(y is P for y in subterms(t)) and not entity_related(t, el):
            ctx.ob("no slot is dropped for another reason", con, None if opaque_parts(t, e) and not
                   (t.op in ("eq", "ge0")) else False, ("" if p else "not ") + show(t, 4), w)


def any_custom(facts, self_, name):
    """As custom_fact, when the declared entities are consulted through another accessor."""
    return None


def absent(facts, e, s, field):
    """A condition is missing on a path: a violation when the path's conditions are all understood."""
    return None if e.incomplete else False


def last(n):
    return n.split("::")[-1]


OTHER_TEXT = ("to_lowercase", "to_uppercase", "trim", "trim_start", "trim_end", "to_ascii_lowercase", "to_ascii_uppercase", "normalize")
LOOSE = ("eq_ignore_ascii_case", "starts_with", "ends_with")     # two texts that may be said alike while they differ


def lacking(facts, el, e, s):
    """No fact ties the entity to the slot: a violation unless some condition on it could not be understood."""
    for t, p in facts:
        if t.op == "app" and last(t.a[0]) in LOOSE and not any(opaque_parts(y, e) for y in t.a[1:]):
            continue
        if any(y is el for y in subterms(t)) and t.op == "app" and t.a[0] not in ("contains", "exhausted", "range_overlap") and \
                opaque_parts(t, e):
            return None
    return None if e.incomplete else False


def facts_about(facts, el):
    return "; ".join(("" if p else "not ") + show(t, 4) for t, p in facts
                     if any(y is el for y in subterms(t)) and not (t.op == "app" and t.a[0] == "contains"))[:300]


def expected(t, P, el):
    name, text, rng = fld(P, "entity"), fld(P, "value"), fld(P, "char_range")
    if t.op == "app" and t.a[0] == "contains" and t.a[1] is text:
        return False        # what is in the text
    if t.op == "is" or t.op == "app" and t.a[0] in ("contains", "exhausted", "forall"):
        return True
    if t.op == "forall":
        return True
    return False


def entity_related(t, el):
    return el is not None and any(y is el for y in subterms(t)) or any(
        y.op == "app" and y.a[0].endswith(EXTRACT) for y in subterms(t))


def in_scope(ctx, con, e, scope, P, bi, w):
    """The entities asked for in the text include those of all the slots."""
    if scope.op == "en" and scope.a[1] == "None":
        ctx.ob("entities of every slot are looked for", con, True, "no restriction", w)
        return
    s = scope.a[3][0] if scope.op == "en" and scope.a[3] else scope
    gs = gens_of(s)
    if gs is None:
        ctx.ob("entities of every slot are looked for", con, None, show(scope, 4), w)
        return
    ok_ = False
    for x, conds, b in gs:
        el = [y for y in subterms(x) if y.op == "elem" and y.a[0] is P.a[0]]
        if len(el) != 1:
            continue
        nm = fld(el[0], "entity")
        if not (kind_of(nm)(x) if bi else x is nm):
            continue
        rest = [t for t, p in selecting(e, frozenset(), conds) if not (
            t.op == "app" and t.a[0] == "contains" or t.op == "is" and t.a[0].op == "app" and
            t.a[0].a[0].split("::")[-1] in ("from_identifier", "from_str") and
            (t.a[0].a[1] is not nm or t.a[1] not in ("Ok", "Err") or (p == (t.a[1] == "Ok")) == bi))]
        if not rest:
            ok_ = True
    bad = [q.a[0] for q in order_chain(s.a[2]) if q.a[0] in ("o_skip", "o_take", "o_step_by", "o_take_while", "o_skip_while")] \
        if s.op == "coll" else []
    ctx.ob("entities of every slot are looked for", con, False if bad else (True if ok_ else
           verdict(False, [x for x, _, _ in gs], e)), show(s, 4), w)


@check("C09")
def c09(ctx):
    """Every result of the slot extraction entry point: the entity is the one the trained mapping gives to the intent
    and slot of the call (both lookups are facts on every path without error), and the fields of the slot are those
    of an entity of that kind extracted from the whole text, its text being the text at its range; the whole text is
    only answered, as a whole, when the entity accepts unseen values and no known value was found."""
    b = ctx.anchor("SnipsNluEngine::extract_slot_with_alternatives")
    if b is None:
        return
    con = "SnipsNluEngine::extract_slot_with_alternatives"
    ps = params(b)
    self_, inp, intent, slot, num_ = ps
    w = where(b)
    e, rs = ctx.run(b, ps)
    maps = fld(fld(self_, "dataset_metadata"), "slot_name_mappings")
    per = app("get!", maps, intent)
    name = app("get!", per, slot)
    n = 0
    kinds = set()
    for s, r in results(rs):
        k1 = decide(s.facts, app("contains", app("keys", maps), intent))
        k2 = decide(s.facts, app("contains", app("keys", per), slot))
        ctx.ob("an unknown intent is rejected", con, True if k1 else
               (False if not any(opaque_parts(t, e) for t, _ in s.facts) else None), "", w)
        ctx.ob("a slot unknown to the intent is rejected", con, True if k2 else
               (False if k1 is True and not e.incomplete else None), "", w)
        for v in alts(r):
            if v.op == "en" and v.a[1] == "None":
                kinds.add("none")
                calls = {y for t, p in s.facts for y in subterms(t) if y.op == "app" and y.a[0].endswith(EXTRACT)}
                empty = any(decide(s.facts, eq(app("len", vfld(c, "Ok", "0")), I(0))) is True or any(
                    p and t.op == "app" and t.a[0] == "exhausted" and t.a[1] is vfld(c, "Ok", "0") for t, p in s.facts) for c in calls)
                strange = e.incomplete or any(opaque_parts(t, e) for t, p in s.facts) or any(
                    vfld(c, "Ok", "0") in subterms(t) for t, p in s.facts for c in calls)
                ctx.ob("nothing is answered only when no entity is found", con, True if empty else None if strange else False,
                       "; ".join(show(t, 4) for t, p in s.facts)[:300], w)
                if custom_fact(s.facts, self_, name) is True:
                    ext = [p for t, p in s.facts if t.op == "f" and t.a[1] == "automatically_extensible" and any(y is name for y in subterms(t))]
                    ctx.ob("an entity accepting unseen values never answers nothing", con, True if ext and not any(ext) else False if ext and empty and not e.incomplete else None if strange else False,
                           "; ".join(show(t, 4) for t, p in s.facts)[:300], w)
                continue
            x = v.a[3][0] if v.op == "en" and v.a[1] == "Some" else None
            if x is None:
                ctx.ob("the extracted slot can be followed", con, None, show(v, 4), w)
                continue
            n += 1
            facts = s.facts
            ctx.ob("the slot has the entity trained for it", con, verdict(fld(x, "entity") is name, fld(x, "entity"), e),
                   show(fld(x, "entity"), 4), w)
            ctx.ob("the slot has the name asked for", con, verdict(fld(x, "slot_name") is slot, fld(x, "slot_name"), e),
                   show(fld(x, "slot_name"), 4), w)
            kind, el, val = split_value(fld(x, "value"))
            raw, rng = fld(x, "raw_value"), fld(x, "range")
            if kind is None:
                ctx.ob("the value of a slot is that of an entity or the text", con,
                       verdict(False, fld(x, "value"), e), show(fld(x, "value"), 4), w)
                continue
            alternatives_of(ctx, con, x, kind, el, e, w)
            cf = custom_fact(facts, self_, name)
            if kind == "own":
                kinds.add("own")
                whole = val is inp and raw is inp and rng is app("range", I(0), app("charlen", inp))
                ctx.ob("the text is answered as a whole, over its whole range of characters", con,
                       verdict(whole, [val, raw, rng], e) if not any(
                           y.op == "app" and last(y.a[0]) in OTHER_TEXT and y.a[1] is inp for q in (val, raw, rng) for y in subterms(q)) else False,
                       show(x, 5), w)
                ext = [t for t, p in facts if p and t.op == "f" and t.a[1] == "automatically_extensible" and
                       any(y is name for y in subterms(t))]
                ctx.ob("only an entity accepting unseen values takes the text as value", con,
                       bool(ext) and cf is not False or absent(facts, e, s, ""), "", w)
                calls = {y for t, p in facts for y in subterms(t) if y.op == "app" and y.a[0].endswith(EXTRACT)}
                none_found = any(decide(facts, eq(app("len", vfld(c, "Ok", "0")), I(0))) is True or any(
                    p and t.op == "app" and t.a[0] == "exhausted" and t.a[1] is vfld(c, "Ok", "0") for t, p in facts)
                    for c in calls if not is_builtin_call(c) and c.a[2] is inp)
                ctx.ob("the text is only used when no known value is found in it", con,
                       True if none_found else (None if e.incomplete else False), "", w)
                continue
            c = entity_call(el)
            bi = is_builtin_call(c)
            kinds.add(kind)
            ctx.ob("the value comes from the extraction of the right parser", con,
                   True if (kind == "builtin") == bi else False, show(c, 3), w)
            ctx.ob("declared entities are extracted as such and others as builtin", con,
                   True if cf is (not bi) else (False if cf is bi else None), "", w)
            ctx.ob("the value is the resolved one", con,
                   True if val.a[1] == ("entity" if bi else "resolved_value") else verdict(False, val, e), show(val, 4), w)
            ctx.ob("as many alternatives are asked for as the caller wants", con, verdict(c.a[-1] is num_, c.a[-1], e),
                   show(c.a[-1], 3), w)
            ctx.ob("the entity is looked for in the given text", con, verdict(c.a[2] is inp, c.a[2], e), show(c.a[2], 3), w)
            o = only(c.a[3])
            good = o is not None and (kind_of(name)(o) if bi else o is name)
            ctx.ob("only entities of the slot's own kind are looked for", con, verdict(good, c.a[3], e), show(c.a[3], 4), w)
            ctx.ob("the range is that of the entity", con, verdict(rng is fld(el, "range"), rng, e), show(rng, 4), w)
            sub = raw.op == "app" and raw.a[0].split("::")[-1] == "substring_with_char_range" and raw.a[1] is inp and \
                raw.a[2] is fld(el, "range")
            # the text an entity parser reports may be normalised (the custom one works on lower-cased text)
            known = raw.op == "f" and raw.a[1] in ("value", "resolved_value") or not opaque_parts(raw, e)
            ctx.ob("the text of the slot is the text at its range", con, True if sub else (False if known else None),
                   show(raw, 4), w)
    for k in ("builtin", "custom", "own", "none"):
        ctx.ob("every outcome of an extraction exists", con + " / " + k, k in kinds or None, "", w)
    ctx.ob("there are extracted slots to check", con, n > 0 or None, "%d" % n, w)
