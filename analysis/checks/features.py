"""C13: the tagger is given, for each token, the features the saved model lists."""
from ..check import check, where
from ..engine import decide
from ..lib import *
from ..models import concat, cut_of
from ..terms import *
from .loading import last, text
from .resources import arg_of

FACTORY = "models::slot_filler::FeatureFactory"
HELPERS = ("initial_string_from_tokens", "transform_tokens", "get_scheme_prefix")
KNOWN = {"idx", "get", "get!", "chars", "charlen", "len", "normalize", "lowercase", "uppercase", "stem", "get_shape", "join",
         "string_of", "slice", "range", "dbg", "disp", "concat", "contains", "is_digit", "is_ascii_digit", "is_numeric",
         "get_cluster", "extract_entities", "o_src", "o_take", "o_skip", "o_rev", "o_list", "as_u64", "as_str", "as_array",
         "identifier", "from_identifier", "keys", "to_lowercase", "to_uppercase", "forall", "exhausted", "is_alphanumeric",
         "is_alphabetic", "default", "fmtopt", "cast:i32", "cast:usize", "cast:i64", "cast:u8", "trim"} | set(HELPERS)


def known(t, e):
    """Is every part of the term something the rules speak about?"""
    return not [q for q in opaque_parts(t, e) if not (q.op == "app" and last(q.a[0]) in KNOWN)] and all(q.op != "app" or q.a[0] in KNOWN or last(q.a[0]) in KNOWN for q in subterms(t))


def st3(good, t, e):
    return True if good else (False if known(t, e) else None)


def bare(t):
    """Without the widening of integers."""
    while t.op == "app" and t.a[0].startswith("cast:") and len(t.a) == 2:
        t = t.a[1]
    return t


def debare(t):
    for i in range(4):
        m = {q: bare(q) for q in subterms(t) if q.op == "app" and q.a[0].startswith("cast:")}
        if not m:
            break
        t = subst(t, m)
    return t


def token_at(t, tokens, i):
    """Is the term the token at a position?"""
    while t.op in ("vf", "pay"):
        t = t.a[0]
    return t.op == "app" and t.a[0] in ("idx", "get", "get!") and len(t.a) == 3 and t.a[1] is tokens and t.a[2] is i


def own_value(t, tokens, i):
    return t.op == "f" and t.a[1] == "value" and token_at(t.a[0], tokens, i)


def same_int(facts, a, b):
    """Do the facts say that a == b (True), a != b (False)?  a <= b is taken for granted."""
    d = sub(a, b)
    for t, p in facts:
        if t.op == "eq" and len(t.a) == 2 and (sub(t.a[0], t.a[1]) is d or sub(t.a[1], t.a[0]) is d):
            return p
        if t.op == "ge0" and t is ge0(d):
            return p
        if t.op == "ge0" and t is ge0(add(sub(b, a), C("int", -1))):
            return not p
    return None


def quantified(facts, pol, pred):
    """A fact about all (pol) / one of the elements: forall of something satisfying pred, or a failing instance of it."""
    for t, p in facts:
        if pol and t.op == "forall" and p and any(pred(q) for q in subterms(t)):
            return True
        if not pol and not p and pred(t):
            return True
        if not pol and not p and t.op == "forall" and any(pred(q) for q in subterms(t)):
            return True
    return False


class Feat:
    """One feature built by the saved description, and what it computes for the token at a position."""

    def __init__(self, ctx, name, s, x, F):
        self.ctx, self.name, self.s, self.x, self.F = ctx, name, s, x, F
        self.ty = x.a[0]
        p = ctx.prog
        self.body = p.bodies.get(p.method_of("slot_filler::feature_processor::Feature::compute", self.ty) or "")
        self.nbody = p.bodies.get(p.method_of("slot_filler::feature_processor::Feature::name", self.ty) or "")
        self.ok, self.err, self.e, self.w = [], [], None, None

    def arg(self, t, n):
        return arg_of(bare(t), fld(self.F, "args"), n)

    def compute(self):
        b = self.body
        ps = params(b)
        self.tokens, self.i = ps[1], ps[2]
        self.w = where(b)
        ops = {q["id"] for q in self.ctx.prog.lib.bodies.values() if last(q["path"]) in HELPERS and "{closure" not in q["id"]}
        self.e, rs = self.ctx.run(b, [self.x, ps[1], ps[2]], opaque=ops)
        for s, r in rs:
            for v in alts(r):
                if v.op == "en" and v.a[1] == "Ok":
                    for y in alts(v.a[3][0]):
                        self.ok.append((s, y))
                elif v.op == "en":
                    self.err.append((s, v))
                else:
                    self.ok.append((s, vfld(v, "Ok", "0")))

    def split(self):
        """(facts, value or None for no value); the value itself when it is not known which."""
        for s, y in self.ok:
            if y.op == "en":
                yield s.facts, (y.a[3][0] if y.a[1] == "Some" else None)
            else:
                yield s.facts, y

    def ob(self, rule, con, st, msg=""):
        self.ctx.ob(rule, "%s: %s" % (self.name, con), st, msg, self.w)


R_VAL = "a feature has its documented value"
R_SOME = "a feature is there exactly when it applies"


def f_is_digit(f):
    pred = lambda q: q.op == "app" and last(q.a[0]) in ("is_digit", "is_ascii_digit") and (len(q.a) == 2 or q.a[2] is C("int", 10)) and \
        any(own_value(z, f.tokens, f.i) for z in subterms(q.a[1]))
    for facts, v in f.split():
        if v is not None:
            f.ob(R_VAL, "value", text(v) == "1" if text(v) is not None else None, show(v))
        good = quantified(facts, v is not None, pred)
        wrong = quantified(facts, v is None, pred)
        other = [t for t, p in facts if t.op in ("app", "forall") and any(own_value(z, f.tokens, f.i) for z in subterms(t))]
        f.ob(R_SOME, "absent" if v is None else "present", True if good else
             (False if wrong or not other or all(known(t, None) for t in other) else None), "; ".join(show(t, 5) for t in other[:3]))


def f_length(f):
    for facts, v in f.split():
        if v is None:
            f.ob(R_SOME, "absent", False)
            continue
        x = v.a[1] if v.op == "app" and v.a[0] in ("dbg", "disp", "concat") and len(v.a) == 2 else v
        x = bare(x)
        f.ob(R_VAL, "value", st3(x.op == "app" and x.a[0] == "charlen" and own_value(x.a[1], f.tokens, f.i), v, f.e), show(v))


def f_end(which):
    def g(f):
        other = C("int", 0) if which == "first" else add(app("len", f.tokens), C("int", -1))
        for facts, v in f.split():
            if v is not None:
                f.ob(R_VAL, "value", text(v) == "1" if text(v) is not None else None, show(v))
            d = same_int(facts, f.i, other) if which == "last" else same_int(facts, other, f.i)
            rel = [t for t, p in facts if any(q is f.i for q in subterms(t))]
            f.ob(R_SOME, "absent" if v is None else "present", d is (v is not None) if d is not None else
                 (False if all(known(t, f.e) for t in rel) else None), "; ".join(show(t, 5) for t in rel[:3]))
    return g


def window(f, gen_elem, order, n):
    """Do the elements run over the n tokens from the own position on?"""
    if gen_elem is None:
        return None
    src = gen_elem.a[0]
    if src.op == "app" and src.a[0] == "slice" and len(src.a) == 3 and src.a[1] is f.tokens:
        r = src.a[2]
        if not (r.op == "app" and r.a[0] == "range"):
            return None
        a, b = r.a[1], r.a[2]
        plain = order is not None and order.op == "app" and order.a[0] == "o_src"
        if order is not None and order.op == "app" and order.a[0] == "o_rev":
            return False
        return (a is f.i and sub(b, a) is bare(n)) if plain else None
    if src is f.tokens:
        o, skip, take = order, None, None
        while o is not None and o.op == "app" and o.a[0] in ("o_take", "o_skip"):
            if o.a[0] == "o_skip":
                if skip is not None:
                    return None
                skip = o.a[2]
            elif skip is None and take is None:
                take = o.a[2]
            else:
                return None
            o = o.a[1]
        if o is None or o.op != "app" or o.a[0] != "o_src":
            return None
        return skip is f.i and take is bare(n)
    return None


def f_ngram(shape):
    def g(f):
        n = None
        for y in f.x.a[2]:
            if f.arg(y, "n"):
                n = y
        f.ob("a feature has the arguments saved for it", "n", n is not None or (None if any(opaque_parts(y) for y in f.x.a[2]) else False))
        if n is None:
            return
        fits = ge0(sub(sub(app("len", f.tokens), f.i), bare(n)))
        for facts, v in f.split():
            if shape and decide(facts, ge0(add(bare(n), C("int", -1)))) is False:
                continue        # an empty n-gram
            d = decide(facts, fits)
            rel = [t for t, p in facts if any(q is bare(n) for q in subterms(t))]
            wrong = None if d is not None else off_the_end(f, facts, n, v is not None)
            f.ob(R_SOME, "absent" if v is None else "present", d is (v is not None) if d is not None else
                 (False if wrong or all(known(t, f.e) for t in rel) else None), wrong or "; ".join(show(t, 6) for t in rel[:3]))
            if v is None:
                continue
            if not (v.op == "app" and v.a[0] == "join" and len(v.a) == 3 and gens_of(v.a[1])):
                f.ob(R_VAL, "value", None, show(v, 4))
                continue
            f.ob(R_VAL, "separator", text(v.a[2]) == " " if text(v.a[2]) is not None else None, show(v.a[2]))
            for x, conds, b in gens_of(v.a[1]):
                part_of_ngram(f, shape, x, conds, v.a[1], n)
    return g


def off_the_end(f, facts, n, present):
    """Numbers for which an n-gram is there although it does not fit, or the other way round."""
    size = app("len", f.tokens)
    for total in (1, 2, 3, 4):
        for i in range(total):
            for k in (1, 2, 3):
                env = lambda y: total if y is size else i if y is f.i else k if y is bare(n) else None
                try:
                    ok = all((num(t.a[0], env) >= 0) is p if t.op == "ge0" else (num(t.a[0], env) == num(t.a[1], env)) is p
                             for t, p in facts if t.op in ("ge0", "eq") and any(y is bare(n) for y in subterms(t)))
                except NoValue:
                    return None
                if ok and (i + k <= total) is not present:
                    return "%s for %d words from place %d of %d" % ("answered" if present else "left out", k, i, total)
    return None


def part_of_ngram(f, shape, x, conds, c, n):
    con = "part"
    els = [q for q in subterms(x) if q.op == "elem"] or [q for t, p in conds for q in subterms(t) if q.op == "elem"]
    el = els[0] if len(set(els)) == 1 else None
    w = window(f, el, c.a[2] if c.op == "coll" else None, n)
    f.ob(R_VAL, "tokens of the n-gram", w if w is not None else None, show(c, 4))
    val = fld(el, "value") if el is not None else None
    if shape:
        f.ob(R_VAL, con, st3(x.op == "app" and last(x.a[0]) == "get_shape" and x.a[1] is val, x, f.e), show(x))
        return
    stem = next((y for y in f.x.a[2] if "stemmer" in show(y, 9) and y.op == "en" and y.a[1] == "Some"), None)
    gaz = next((y for y in f.x.a[2] if "gazetteers" in show(y, 9) and y.op == "en" and y.a[1] == "Some"), None)
    norm = app("normalize", val) if val is not None else None
    base = app("stem", stem.a[3][0], norm) if stem is not None and norm is not None else norm
    rare = None
    for t, p in conds:
        if t.op == "app" and last(t.a[0]) == "contains" and gaz is not None and t.a[1] is gaz.a[3][0]:
            rare = not p
            f.ob(R_VAL, "word looked up", st3(base is not None and same_term(t.a[2], base), t, f.e), show(t, 5))
    if text(x) is not None:
        f.ob(R_VAL, con, text(x) == "rare_word" and rare is True, show(x))
        return
    good = base is not None and same_term(x, base) and (rare is False if gaz is not None else rare is None)
    f.ob(R_VAL, con, st3(good, x, f.e), show(x))


def same_term(a, b):
    """Equal up to the full names of functions."""
    if a is b:
        return True
    if a.op == b.op == "app" and last(a.a[0]) == last(b.a[0]) and len(a.a) == len(b.a):
        return all(same_term(x, y) if isinstance(x, V) and isinstance(y, V) else x == y for x, y in zip(a.a[1:], b.a[1:]))
    return False


def f_affix(which):
    def g(f):
        n = None
        for y in f.x.a[2]:
            if f.arg(y, which + "_size"):
                n = bare(y)
        f.ob("a feature has the arguments saved for it", "size", n is not None or
             (None if any(opaque_parts(y) for y in f.x.a[2]) else False))
        if n is None:
            return
        for facts, v in f.split():
            words = {q.a[1] for t in ([v] if v is not None else []) + [t for t, p in facts] for q in subterms(t)
                     if q.op == "app" and q.a[0] in ("charlen", "chars")}
            word = next((w for w in words if w.op == "app" and last(w.a[0]) == "normalize" and own_value(w.a[1], f.tokens, f.i)), None)
            size = app("charlen", word) if word is not None else None
            d = decide(facts, ge0(sub(size, n))) if size is not None else None
            rel = [t for t, p in facts if any(q is n for q in subterms(t))]
            f.ob(R_SOME, "absent" if v is None else "present", d is (v is not None) if d is not None else
                 (False if rel and all(known(t, f.e) for t in rel) else None), "; ".join(show(t, 6) for t in rel[:3]))
            if v is None:
                continue
            c = v.a[1] if v.op == "app" and v.a[0] == "string_of" else None
            gs = gens_of(c) if c is not None else None
            if not gs or len(gs) != 1 or c.op != "coll":
                f.ob(R_VAL, "value", None, show(v, 4))
                continue
            y = gs[0][0]
            f.ob(R_VAL, "characters", st3(y.op == "elem" and y.a[0].op == "app" and y.a[0].a[0] == "chars" and y.a[0].a[1] is word
                                          and word is not None, y, f.e), show(y, 5))
            o, skip, take = c.a[2], None, None
            while o.op == "app" and o.a[0] in ("o_take", "o_skip"):
                if o.a[0] == "o_skip":
                    skip = o.a[2] if skip is None else False
                else:
                    take = o.a[2] if take is None and skip is None else False
                o = o.a[1]
            plain = o.op == "app" and o.a[0] == "o_src" and skip is not False and take is not False
            if not plain:
                f.ob(R_VAL, "range of characters", None, show(c.a[2], 5))
                continue
            if which == "prefix":
                good = (skip is None or skip is C("int", 0)) and take is n
            else:
                good = skip is not None and size is not None and skip is sub(size, n) and (take is None or take is n)
            f.ob(R_VAL, "range of characters", st3(good, v, f.e), show(c.a[2], 6))
    return g


def f_cluster(f):
    for facts, v in f.split():
        if v is None:
            # absent only when the cluster is
            f.ob(R_SOME, "absent", True if any(t.op == "is" and t.a[0].op == "app" and last(t.a[0].a[0]) == "get_cluster" for t, p in facts) else None)
            continue
        t = v
        while t.op in ("vf", "pay"):
            t = t.a[0]
        if not (t.op == "app" and last(t.a[0]) == "get_cluster"):
            f.ob(R_VAL, "value", st3(False, t, f.e), show(v))
            continue
        f.ob(R_VAL, "table", True if t.a[1] in f.x.a[2] else (None if opaque_parts(t.a[1]) else False), show(t.a[1]))
        w = t.a[2]
        f.ob(R_VAL, "word looked up", st3(w.op == "app" and last(w.a[0]) in ("lowercase", "to_lowercase") and own_value(w.a[1], f.tokens, f.i), w, f.e),
             show(w))


def overlap(a, b):
    """The facts saying that two ranges overlap."""
    return [ge0(add(sub(fld(a, "end"), fld(b, "start")), C("int", -1))), ge0(add(sub(fld(b, "end"), fld(a, "start")), C("int", -1)))]


def conjuncts(t):
    if t.op == "and" or t.op == "app" and t.a[0] == "and":
        for x in t.a:
            if isinstance(x, V):
                yield from conjuncts(x)
    else:
        yield t


def none_overlaps(t, found, me):
    """Does the fact say that no entity overlaps the range?  False: it says less than that of some entities.  None: unknown."""
    if t.op == "app" and t.a[0] in ("exhausted", "is_empty"):
        if t.a[1] is found:
            return True
        gs = gens_of(t.a[1])
        if not gs:
            return None
        out = []
        for x, conds, b in gs:
            if not (x.op == "elem" and x.a[0] is found):
                return None
            o = overlap(me, fld(x, "range"))
            own = [y for y, p in conds if any(q is x for q in subterms(y)) and not (y.op == "app" and y.a[0] == "contains")]
            out.append(all(y in o for y in own))
        return False not in out and (cut_of(t.a[1].a[2]) is None or None)
    if t.op == "forall" and t.a[2] is False:
        cs = list(conjuncts(t.a[1]))
        es = {q for y in cs for q in subterms(y) if q.op == "elem" and q.a[0] is found}
        if len(es) != 1:
            return None
        o = overlap(me, fld(list(es)[0], "range"))
        return all(y in o for y in cs)
    return None


def f_entity(builtin):
    def g(f):
        calls = lambda t: [q for q in subterms(t) if q.op == "app" and last(q.a[0]) == "extract_entities"]
        call, failed = None, False
        for s, v in f.err:
            for q in calls(v):
                call = q
        for s, v in f.ok:
            for t, p in s.facts:
                for q in calls(t):
                    call = call or q
                    failed = failed or (t.op == "is" and t.a[0] is q and p is (t.a[1] == "Err"))
        f.ob("a failing entity parser is an error", "extract_entities", False if failed else (True if call is not None else None))
        if call is None:
            return
        tok = f.tokens
        if not builtin:
            tt = [q for q in subterms(call) if q.op == "app" and last(q.a[0]) == "transform_tokens"]
            tok = tt[0] if tt else None
            if tok is not None:
                f.ob(R_VAL, "tokens looked at", tok.a[1] is f.tokens, show(tok))
                stem = tok.a[2] if len(tok.a) > 2 else None
                f.ob(R_VAL, "stemmer", True if stem is not None and any(stem is y for y in f.x.a[2]) else (None if stem is None or opaque_parts(stem, f.e) else False),
                     show(tok))
        txt = call.a[2]
        f.ob(R_VAL, "text looked at", True if txt.op == "app" and last(txt.a[0]) == "initial_string_from_tokens" and txt.a[1] is tok and tok is not None
             else (None if opaque_parts(txt, f.e) or not known(txt, f.e) or tok is None else False), show(txt))
        f.ob(R_VAL, "entity parser", True if call.a[1] in f.x.a[2] else (None if opaque_parts(call.a[1]) else False), show(call.a[1]))
        sc = call.a[3]
        sc = sc.a[3][0] if sc.op == "en" and sc.a[1] == "Some" else None
        one = [q[0] for q in gens_of(sc)] if sc is not None and gens_of(sc) is not None else None
        good = one is not None and len(one) == 1 and any(one[0] is y for y in f.x.a[2])
        f.ob(R_VAL, "kind looked for", True if good else (None if one is None and call.a[3].op != "en" else False), show(call.a[3]))
        if tok is None:
            return
        me = fld(app("idx", tok, f.i), "char_range")
        found = vfld(call, "Ok", "0")
        for facts, v in f.split():
            if v is None:
                why = [none_overlaps(t, found, me) for t, p in facts if p and any(q is found for q in subterms(t))]
                bad = [x for x in why if x is False]
                f.ob(R_SOME, "absent", True if True in why else (None if None in why or any(opaque_parts(t, f.e) for t, p in facts) else False),
                     "%d" % len(bad))
                continue
            es = {q for t, p in facts for q in subterms(t) if q.op == "elem" and q.a[0] is found}
            hit = [x for x in es if all(decide(facts, o) is True for o in overlap(me, fld(x, "range")))]
            f.ob(R_SOME, "present", True if hit else (None if not es or any(opaque_parts(t, f.e) for t, p in facts) else False),
                 "; ".join(show(t, 5) for t, p in facts if t.op == "ge0"))
            if not hit:
                continue
            if not (v.op == "app" and last(v.a[0]) == "get_scheme_prefix" and len(v.a) == 4):
                f.ob(R_VAL, "position", st3(False, v, f.e), show(v, 4))
                continue
            f.ob(R_VAL, "own position", True if v.a[1] is f.i else (None if opaque_parts(v.a[1]) else False), show(v.a[1]))
            f.ob(R_VAL, "tagging scheme", scheme_of(f, v.a[3]), show(v.a[3]))
            covered(f, v.a[2], tok, hit)
    return g


SCHEMES = {0: "IO", 1: "BIO", 2: "BILOU"}


def scheme_of(f, t):
    if t.op == "en":
        return any(t is y for y in f.x.a[2])
    return True if any(t is y for y in f.x.a[2]) else None


def covered(f, c, tok, hit):
    """All the tokens the entity covers, in their order."""
    gs = gens_of(c)
    if not gs or len(gs) != 1 or c.op != "coll":
        f.ob(R_VAL, "tokens of the entity", None, show(c, 5))
        return
    x, conds, b = gs[0]
    over = x.op == "elem" and x.a[0].op == "app" and x.a[0].a[0] == "range"
    rng = over and x.a[0].a[1] is C("int", 0) and x.a[0].a[2] is app("len", tok)
    if over and not rng and not opaque_parts(x, f.e):
        f.ob(R_VAL, "tokens of the entity", False, show(x, 5))
        return
    plain = c.a[2].op == "app" and c.a[2].a[0] == "o_src"
    if not rng or not plain:
        some = any(q.op == "app" and q.a[0] in ("o_skip_while", "o_take_while", "o_skip", "o_take", "o_step_by") for q in subterms(c.a[2]))
        f.ob(R_VAL, "tokens of the entity", None if not (rng and (some or known(c, f.e))) else False, show(c, 5))
        return
    want = set()
    ok = False
    for h in hit:
        o = overlap(fld(app("idx", tok, x), "char_range"), fld(h, "range"))
        if all(any(t is w and p for t, p in conds) for w in o):
            ok, want = True, set(o)
    extra = [t for t, p in conds if t not in want and not (t.op == "ge0" and (range_bound(t) or "len(" in show(t, 3))) and
             not (t.op == "app" and t.a[0] == "contains") and (t, p) not in f.s.facts]
    f.ob(R_VAL, "tokens of the entity", True if ok and not extra else (None if any(opaque_parts(t, f.e) for t, p in conds) else False),
         " & ".join(show(t, 5) for t, p in conds))


TABLE = {
    "is_digit": (None, f_is_digit), "length": (None, f_length), "is_first": (None, f_end("first")), "is_last": (None, f_end("last")),
    "ngram": ("n", f_ngram(False)), "shape_ngram": ("n", f_ngram(True)), "prefix": ("prefix_size", f_affix("prefix")),
    "suffix": ("suffix_size", f_affix("suffix")), "entity_match": ("entities", f_entity(False)),
    "builtin_entity_match": ("entity_labels", f_entity(True)), "word_cluster": ("cluster_name", f_cluster),
}


def built(ctx, b, name):
    """Builds the features of one saved description: [(state, feature with offsets, conditions)], number of errors."""
    F = struct(FACTORY, ("factory_name", "offsets", "args"), (S(name), sym("offsets"), sym("args")))
    ps = params(b)
    e, rs = ctx.run(b, [seq("vec", (F,))] + ps[1:])
    out, errs, whole = [], 0, []
    for s, r in rs:
        for v in alts(r):
            if v.op == "en" and v.a[1] == "Err":
                errs += 1
                continue
            x = v.a[3][0] if v.op == "en" else v
            c = None
            for y in (x.a[2] if x.op == "st" else ()):
                if gens_of(y) is not None:
                    c = y
            whole.append((s, c))
            for g in (gens_of(c) or ()) if c is not None else ():
                out.append((s, g[0], g[1]))
    return F, e, out, errs, whole


def component(o, F):
    """(feature, offsets) of a feature placed at offsets."""
    feat = offs = None
    if o.op == "st":
        for y in o.a[2]:
            if y.op == "st":
                feat = y
            else:
                offs = y
    return feat, offs


def single_source(f, t, arg):
    """A list argument gives one feature per element."""
    while t.op == "vf" or (t.op == "app" and (t.a[0].startswith("as_") or last(t.a[0]) == "from_identifier")):
        t = t.a[0] if t.op == "vf" else t.a[1]
    return t.op == "elem" and f.arg(t.a[0], arg)


def joined(v):
    """A literal list joined by a literal separator, as a concatenation."""
    if v.op == "app" and v.a[0] == "join" and v.a[1].op in ("list", "seq") and text(v.a[2]) is not None:
        out = []
        for i, x in enumerate(v.a[1].a[1]):
            out += ([v.a[2]] if i else []) + [x]
        r = S("")
        for x in out:
            r = concat(r, x)
        return r
    return v


def name_part(ctx, f, arg):
    rule = "a feature has the name the tagger was trained with"
    if f.nbody is None:
        ctx.ob(rule, f.name, None, "no name", None)
        return
    e, rs = ctx.run(f.nbody, [f.x])
    for s, r in rs:
        for v in alts(r):
            if arg is None:
                ctx.ob(rule, f.name, text(v) == f.name if text(v) is not None else None, show(v), where(f.nbody))
                continue
            v = joined(v)
            if not (v.op == "app" and v.a[0] == "concat"):
                ctx.ob(rule, f.name, False if known(v, e) else None, show(v), where(f.nbody))
                continue
            parts = list(v.a[1:])
            pre = ""
            while parts and text(parts[0]) is not None:
                pre += text(parts.pop(0))
            t = parts[0] if len(parts) == 1 else None
            if t is not None and t.op == "app" and t.a[0] in ("disp", "dbg") and len(t.a) == 2:
                if t.a[0] == "dbg" and arg in ("entities", "entity_labels", "cluster_name"):
                    ctx.ob(rule, f.name, False, show(v), where(f.nbody))
                    continue
                t = t.a[1]
            own = t is not None and any(t is y or t.op == "app" and last(t.a[0]) == "identifier" and t.a[1] is y or
                                        bare(t) is bare(y) for y in f.x.a[2])
            if own and arg in ("n", "prefix_size", "suffix_size", "cluster_name"):
                own = f.arg(t, arg)
            elif own:
                u = t.a[1] if t.op == "app" and last(t.a[0]) == "identifier" else t
                own = single_source(f, u, arg)
            ctx.ob(rule, f.name, True if pre == f.name + "_" and own else (None if opaque_parts(v, e) else False), show(v, 6), where(f.nbody))


def build_part(ctx):
    b = ctx.anchor("ProbabilisticFeatureProcessor::new")
    if b is None:
        return
    rule = "each saved description builds the features of its own kind"
    types = {}
    for name in sorted(TABLE):
        arg, comp = TABLE[name]
        F, e, out, errs, whole = built(ctx, b, name)
        w = where(b)
        if not out:
            ctx.ob(rule, name, False if whole == [] or all(c is not None for s, c in whole) else None, "nothing is built", w)
            continue
        shown = set()
        for s, o, conds in out:
            x, offs = component(o, F)
            if x is None:
                ctx.ob(rule, name, None, show(o, 4), w)
                continue
            types.setdefault(name, set()).add(x.a[0])
            ctx.ob("a feature is placed at the offsets saved for it", name, offs is fld(F, "offsets") if offs is not None else None,
                   show(offs) if offs is not None else "", w)
            if arg in ("entities", "entity_labels"):
                hit = [y for y in x.a[2] if single_source(Feat(ctx, name, s, x, F), y, arg)]
                ctx.ob("a feature has the arguments saved for it", "%s: %s" % (name, arg), True if hit else
                       (None if any(opaque_parts(y, e) for y in x.a[2]) else False), show(x, 5), w)
                code = next((y for y in x.a[2] if y.op == "en" and y.a[1] in SCHEMES.values()), None)
                if code is not None:
                    val = [t.a[1].a[1] if t.a[1].op == "c" else t.a[0].a[1] for t, p in list(conds) + list(s.facts)
                           if p and t.op == "eq" and any(arg_of(bare(q), fld(F, "args"), "tagging_scheme_code") for q in t.a)
                           and any(q.op == "c" for q in t.a)]
                    other = [text(q.a[2]) for t, p in list(conds) + list(s.facts) if p and t.op == "eq" for y in t.a for q in subterms(y)
                             if q.op == "app" and q.a[0].startswith("get") and len(q.a) == 3 and q.a[1] is fld(F, "args") and
                             text(q.a[2]) not in (None, "tagging_scheme_code", arg)]
                    if not val and other:
                        ctx.ob("a feature has the arguments saved for it", "%s: scheme %s" % (name, code.a[1]), False, "read from %s" % other[0], w)
                        continue
                    ctx.ob("a feature has the arguments saved for it", "%s: scheme %s" % (name, code.a[1]),
                           SCHEMES.get(val[0]) == code.a[1] if len(val) == 1 and isinstance(val[0], int) else None, "code %s" % val, w)
            key = show(x, 12)
            if key in shown:
                continue
            shown.add(key)
            f = Feat(ctx, name, s, x, F)
            name_part(ctx, f, arg)
            if f.body is None:
                ctx.ob(R_VAL, name, None, "no computation", w)
                continue
            f.compute()
            ctx.count("features")
            comp(f)
    kinds = [frozenset(v) for v in types.values()]
    ctx.ob(rule, "own implementation", len(set(kinds)) == len(kinds), "%d names, %d implementations" % (len(kinds), len(set(kinds))), where(b))
    ctx.floor("features", len(types), 11)
    F, e, out, errs, whole = built(ctx, b, "no_such_feature")
    ctx.ob("an unknown feature is an error", "no_such_feature", errs > 0 and not out, "%d errors, %d features" % (errs, len(out)), where(b))
    # all the descriptions of a list
    ps = params(b)
    e, rs = ctx.run(b, ps)
    rule = "no saved feature is left out"
    n = 0
    for s, r in rs:
        for v in alts(r):
            if v.op == "en" and v.a[1] == "Err":
                continue
            x = v.a[3][0] if v.op == "en" else v
            c = next((y for y in (x.a[2] if x.op == "st" else ()) if gens_of(y) is not None), None)
            if c is None:
                ctx.ob(rule, "list", None, show(x, 3), where(b))
                continue
            n += 1
            bad = []
            el = None
            for g, conds, bd in gens_of(c):
                for t, p in selecting(e, s.facts, conds):
                    es = [q for q in subterms(t) if q.op == "elem" and q.a[0] is ps[0]]
                    el = el or (es[0] if es else None)
                    names = [q for q in subterms(t) if q.op == "f" and q.a[0] in es and q.a[1] not in ("factory_name", "args")]
                    if names and not any(q.op == "app" and q.a[0] in ("is_empty", "len") for q in subterms(t)):
                        bad.append((t, p))
                    if t.op == "is" and t.a[1] in ("Ok", "Err") and t.a[0].op != "vf" and not any(last(q.a[0]) == "from_identifier" for q in subterms(t) if q.op == "app"):
                        bad.append((t, p))
            cut = cut_of(c.a[2]) if c.op == "coll" else None
            ctx.ob(rule, "list", not bad and cut is None, "; ".join(show(t, 5) for t, p in bad[:3]) + (show(cut, 4) if cut is not None else ""), where(b))
    ctx.ob(rule, "list: built", n > 0 or None, "", where(b))
    for fn in ("build_features",):
        for bb in ctx.prog.lib.bodies.values():
            if last(bb["path"]) == fn and "{closure" not in bb["id"] and bb["path"].startswith("<"):
                e, rs = ctx.run(bb, params(bb))
                for s, r in rs:
                    for v in alts(r):
                        if v.op == "en" and v.a[1] == "Ok":
                            c = v.a[3][0]
                            bad = []
                            for g, conds, bd in gens_of(c) or ():
                                bad += [t for t, p in selecting(e, s.facts, conds) if not (t.op == "app" and t.a[0] == "contains")]
                            cut = cut_of(c.a[2]) if c.op == "coll" else None
                            ctx.ob(rule, last(bb["path"].split(" as ")[0]), not bad and cut is None,
                                   "left out unless " + "; ".join(show(t, 5) for t in bad[:3]), where(bb))


# ---------------------------------------------------------------- placement

def placement_part(ctx):
    b = ctx.anchor("ProbabilisticFeatureProcessor::compute_features")
    if b is None:
        return
    rule = "a feature of a token is given to the tokens at its offsets"
    w = where(b)
    ev = []
    names = set()

    def named(e, st, args, site, fn):
        r = args[0]
        while r.op == "ptr":
            r = e.deref(st, r)
        t = app("name!", r)
        names.add(t)
        return [(st, t)]

    def hook(e, st, args, site, fn):
        if args[0].op == "ptr" and any(isinstance(q, tuple) and q[0] == "idx" for q in args[0].a[1]):
            ev.append((args[0], args[1], st))
        return None
    ps = params(b)
    e, rs = ctx.run(b, ps, hooks={"Vec::push": hook, "Feature::name": named})
    inp = ps[1]
    seen = set()
    n0 = n1 = 0
    for p, val, s in ev:
        k = (p, val)
        if k in seen:
            continue
        seen.add(k)
        row = debare([q for q in p.a[1] if isinstance(q, tuple) and q[0] == "idx"][-1][1])
        key, v = fld(val, "0"), fld(val, "1")
        vv = v
        while vv.op in ("vf", "pay"):
            vv = vv.a[0]
        if not (vv.op == "app" and last(vv.a[0]) == "compute" and len(vv.a) == 4):
            ctx.ob(rule, "value", None if opaque_parts(v, e) or not known(v, e) else False, show(v, 5), w)
            continue
        feat, toks, i = vv.a[1:]
        ctx.ob(rule, "tokens", toks is inp, show(toks), w)
        full = i.op == "elem" and i.a[0].op == "app" and i.a[0].a[0] == "range" and i.a[0].a[1] is C("int", 0) and i.a[0].a[2] is app("len", inp)
        ctx.ob(rule, "every position", True if full else None, show(i), w)
        own = feat.a[0] if feat.op == "f" else None
        d = sub(bare(i), row)
        ok = d.op == "elem" and d.a[0].op == "f" and d.a[0].a[0] is own and own is not None
        back = sub(row, bare(i))
        bad = back.op == "elem" or row is bare(i)
        ctx.ob(rule, "row", True if ok else (False if bad or not opaque_parts(row, e) and known(row, e) else None), show(row, 6), w)
        if not ok:
            continue
        zero = None
        for t, pol in s.facts:
            if t.op == "eq" and d in t.a and C("int", 0) in t.a:
                zero = pol
        nm = app("name!", feat)
        rn = "a feature given to another token has the offset in its name"
        if key is nm:
            n0 += 1
            ctx.ob(rn, "own token", zero is True, "offset is 0: %s" % zero, w)
        elif key.op == "app" and key.a[0] == "concat":
            n1 += 1
            parts = key.a[1:]
            ok = len(parts) == 4 and parts[0] is nm and text(parts[1]) == "[" and text(parts[3]) == "]"
            q = parts[2] if len(parts) == 4 else None
            off = q is not None and q.op == "app" and q.a[0] == "fmtopt" and q.a[1].op == "app" and q.a[1].a[0] == "disp" and debare(q.a[1].a[1]) is d
            plus = off and q.a[2].op == "c" and signed(q.a[2].a[1])
            ctx.ob(rn, "other token", True if ok and off and plus and zero is False else
                   (None if opaque_parts(key, e) else False), show(key, 7), w)
        else:
            ctx.ob(rn, "name", None if opaque_parts(key, e) else False, show(key, 5), w)
        out_of = outside_text(s.facts, row, bare(i), d, app("len", inp))
        ctx.ob("a feature is given to tokens of the text only", "row", not out_of, out_of or "", w)
        extra = []
        for t, pol in s.facts:
            if t.op == "is" or t.op == "app" and t.a[0] in ("contains", "exhausted"):
                continue
            if t.op == "ge0" and not pol:
                t, pol = ge0(add(sub(C("int", 0), ge0_arg(t)), C("int", -1))), True
            u = debare(t)
            if t.op == "eq" and d in t.a and C("int", 0) in t.a:
                continue
            ln = app("len", inp)
            bounds = [ge0(row), ge0(add(sub(ln, row), C("int", -1))), ge0(bare(i)), ge0(add(sub(ln, bare(i)), C("int", -1)))]
            if t.op == "ge0" and pol and (u in bounds or debare(ge0_arg(t)) in [ge0_arg(x) for x in bounds]):
                continue
            extra.append((t, pol))
        ctx.ob("no feature within the text is left out", "row", not extra if all(not opaque_parts(t, e) for t, p2 in extra) else None,
               "only if " + "; ".join(("" if p2 else "!") + show(t, 6) for t, p2 in extra[:4]), w)
    both = n0 + n1 > 0
    ctx.ob(rule, "own token", True if n0 else (False if both else None), "%d" % n0, w)
    ctx.ob(rule, "other tokens", True if n1 else (False if both else None), "%d" % n1, w)
    for s, r in rs:
        for v in alts(r):
            bad = [t for t, p in s.facts if not p and t.op == "is" and t.a[1] == "Ok" and v.op == "en" and v.a[1] == "Ok"
                   and t.a[0].op == "app" and last(t.a[0].a[0]) == "compute"]
            ctx.ob("a feature that cannot be computed is an error", "compute_features", not bad, "", w)
            if v.op == "en" and v.a[1] == "Ok":
                err = any(x.op == "en" and x.a[1] == "Err" for s2, r2 in rs for x in alts(r2))
                ctx.ob("a feature that cannot be computed is an error", "error", err, "", w)


def outside_text(facts, row, i, d, total):
    """Numbers for which a feature goes to a place that the text does not have."""
    for n in (1, 2, 3):
        for at in range(n):
            for off in (-3, -1, 0, 1, 3):
                env = lambda y: n if y is total else at if y is i else off if y is d else None
                try:
                    r = num(row, env)
                except NoValue:
                    return None
                if 0 <= r < n:
                    continue
                ok = True
                for t, p in facts:
                    t = debare(t)
                    try:
                        if t.op == "ge0":
                            ok = ok and (num(t.a[0], env) >= 0) is p
                        elif t.op == "eq":
                            ok = ok and (num(t.a[0], env) == num(t.a[1], env)) is p
                        elif any(y in (i, d) for y in subterms(t)) and not (t.op == "is" or t.op == "app" and t.a[0] in ("contains", "exhausted")):
                            return None
                    except NoValue:
                        if any(y is d for y in subterms(t)):
                            return None
                if ok:
                    return "place %d of %d, from %d at the offset %d" % (r, n, at, off)
    return None


def holds_for(t, env):
    """Truth of a comparison under an assignment, None when it is not about it."""
    try:
        if t.op == "ge0":
            return num(t.a[0], env) >= 0
        if t.op == "eq":
            return num(t.a[0], env) == num(t.a[1], env)
    except NoValue:
        pass
    return None


def ge0_arg(t):
    return t.a[0]


def signed(opt):
    """Format options with an explicit sign."""
    return tuple(opt) == (32, 0, 32, 96)       # fill ' ', the flag of '+', no width

# ---------------------------------------------------------------- tokens and text

def text_part(ctx):
    b = ctx.prog.find("initial_string_from_tokens", optional=True)
    rule = "the text entities are looked for in has every token at its own position"
    if b is None:
        ctx.ob(rule, "text", None, "no such function")
    else:
        ev, front = [], []
        e, rs = ctx.run(b, params(b), hooks={"Vec::push": lambda e, st, a, site, fn: ev.append((a[1], st)),
                                                "Vec::insert": lambda e, st, a, site, fn: front.append(a[1])})
        tokens = params(b)[0]
        if ev and any(i is C("int", 0) for i in front):
            ctx.ob(rule, "text: in order", False, "a part is put in front of those before it", where(b))
        w = where(b)
        vals = spaces = 0
        moving, firsts = False, []
        for x, s in ev:
            if x.op == "f" and x.a[1] == "value" and x.a[0].op == "elem":
                vals += 1
                ctx.ob(rule, "token", x.a[0].a[0] is tokens, show(x), w)
                continue
            c = x.a[1] if x.op == "app" and x.a[0] == "string_of" else None
            rp = repeated(c) if c is not None else None
            if rp is None:
                ctx.ob(rule, "text", None, show(x, 5), w)
                continue
            spaces += 1
            ctx.ob(rule, "gap: blank", rp[0] is C("char", 32) or show(rp[0]) in ("32", "' '"), show(rp[0]), w)
            n = rp[1]
            els = [q for q in subterms(n) if q.op == "elem" and q.a[0] is tokens]
            phis = [q for q in subterms(n) if q.op == "phi"]
            if len(set(els)) != 1 or len(set(phis)) > 1:
                ctx.ob(rule, "gap: length", None, show(n, 6), w)
                continue
            start = fld(fld(els[0], "char_range"), "start")
            if not phis:
                firsts.append(n is start)
                ctx.ob(rule, "gap: first", n is start, show(n, 6), w)
                continue
            moving = True
            ctx.ob(rule, "gap: length", n is sub(start, phis[0]), show(n, 6), w)
            for at, to in ((0, 1), (0, 2), (3, 4), (3, 7), (9, 11)):
                without = [t for t, p in s.facts if holds_for(t, lambda y: at if y is phis[0] else to if y is start else None) is (not p)]
                ctx.ob(rule, "gap: every gap", not without, "none from %d to %d: %s" % (at, to, ", ".join(show(t, 4) for t in without)), w)
            for v, fs in e.candidates(phis[0]):
                good = v is C("int", 0) or (v.op == "f" and v.a[1] == "end" and v.a[0].op == "f" and v.a[0].a[1] == "char_range"
                                            and v.a[0].a[0].op == "elem" and v.a[0].a[0].a[0] is tokens)
                ctx.ob(rule, "gap: previous end", True if good else (None if opaque_parts(v, e) else False), show(v, 6), w)
        if firsts and all(firsts) and not moving:
            # every gap is counted from the beginning of the text
            ctx.ob(rule, "gap: from the token before", None if e.incomplete else False, "", w)
        if spaces and not vals and not e.incomplete:
            ctx.ob(rule, "token", False, "no token is put between the gaps", w)
        if not (vals and spaces):
            ctx.ob(rule, "text", None, "%d tokens, %d gaps" % (vals, spaces), w)
        for s, r in rs:
            j = r.op == "app" and r.a[0] == "join"
            ctx.ob(rule, "text: joined", text(r.a[2]) == "" if j and text(r.a[2]) is not None else None, show(r, 3), w)
    b = ctx.prog.find("features::transform_tokens", optional=True)
    rule = "the normalised tokens follow one another, one blank apart"
    if b is None:
        ctx.ob(rule, "tokens", None, "no such function")
        return
    ps = params(b)
    e, rs = ctx.run(b, ps)
    w = where(b)
    for s, r in rs:
        gs = gens_of(r)
        if not gs:
            ctx.ob(rule, "tokens", None, show(r, 3), w)
            continue
        ctx.ob(rule, "order", True if r.op == "coll" and r.a[2].op == "app" and r.a[2].a[0] == "o_src" and r.a[2].a[1] is ps[0] else None, "", w)
        for x, conds, bd in gs:
            if not (x.op == "app" and last(x.a[0]) == "new" and len(x.a) == 4):
                ctx.ob(rule, "tokens", None, show(x, 4), w)
                continue
            v = x.a[1]
            el = [q for q in subterms(v) if q.op == "elem" and q.a[0] is ps[0]]
            norm = v.a[2] if v.op == "app" and last(v.a[0]) == "stem" else v
            stemmed = norm is not v
            has = None
            for t, p in conds:
                if t.op == "is" and t.a[0] is ps[1]:
                    has = p if t.a[1] == "Some" else not p
            good = el and norm.op == "app" and last(norm.a[0]) == "normalize" and norm.a[1] is fld(el[0], "value") and \
                (not stemmed or v.a[1] is vfld(ps[1], "Some", "0")) and has is stemmed
            ctx.ob(rule, "value: %s" % ("stemmed" if stemmed else "plain"), st3(good, v, e), show(v, 6), w)
            for i, (what, size) in enumerate((("bytes", "len"), ("characters", "charlen"))):
                rg = x.a[2 + i]
                ok = rg.op == "app" and rg.a[0] == "range" and sub(rg.a[2], rg.a[1]) is app(size, v)
                wrong = not ok and rg.op == "app" and rg.a[0] == "range" and other_size(sub(rg.a[2], rg.a[1]), app(size, v))
                ctx.ob(rule, "%s: length" % what, True if ok else (False if wrong else None if opaque_parts(sub(rg.a[2], rg.a[1]) if rg.op == "app" and rg.a[0] == "range" else rg, e) else False), show(rg, 6), w)
                if ok and rg.a[1].op == "phi":
                    for c, fs in e.candidates(rg.a[1]):
                        ph = [q for q in subterms(c) if q.op == "phi"]
                        step = sub(c, ph[0]) if ph else c
                        szs = [q for q in subterms(step) if q.op == "app" and q.a[0] in ("len", "charlen")]
                        good = c is C("int", 0) or (len(szs) == 1 and szs[0].a[0] == size and step is add(szs[0], C("int", 1)))
                        ctx.ob(rule, "%s: next start" % what, True if good else (None if opaque_parts(step, e) else False), show(c, 5), w)
                elif ok:
                    # a first round written on its own starts at zero; every token starting at the same place does not move on
                    moving = any(y.op == "app" and len(y.a) == 4 and y.a[2 + i].op == "app" and y.a[2 + i].a[0] == "range" and y.a[2 + i].a[1].op != "c"
                                 for y, _, _ in gs)
                    ctx.ob(rule, "%s: start" % what, False if rg.a[1].op == "c" and not moving else True if rg.a[1] is C("int", 0) else None,
                           show(rg.a[1], 5), w)


def other_size(t, size):
    """Is a number known to differ from a size for some value of it?"""
    for k in range(5):
        try:
            if num(t, lambda y: k if y is size else None) != k:
                return True
        except NoValue:
            return False
    return False


@check("C13")
def c13(ctx):
    """Each feature name of the model format is given to the public constructor, and the name, arguments and computed value of
    the feature it builds are compared with the documented ones, on all paths; the positions and names under which values are
    stored are read off the exact terms of every insertion."""
    build_part(ctx)
    placement_part(ctx)
    text_part(ctx)
