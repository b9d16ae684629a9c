"""C14: from tags to slots and back."""
import itertools

from ..check import check, where
from ..engine import decide
from ..lib import *
from ..models import cut_of
from ..terms import *
from .loading import last, text

SCHEME = "slot_filler::crf_utils::TaggingScheme"
ALPHABET = {"IO": ("O", "I-"), "BIO": ("O", "B-", "I-"), "BILOU": ("O", "B-", "I-", "L-", "U-")}


class Unknown(Exception):
    pass


class Walk:
    """Evaluates the terms of one round of a walk over the tags, for tags given by their letters."""

    def __init__(self, tags, tokens, seq, i, env):
        self.tags, self.tokens, self.seq, self.i, self.env = tags, tokens, seq, i, env
        self.memo = {}
        self.beyond = False

    def ev(self, t):
        if t not in self.memo:
            self.memo[t] = self.ev0(t)
        return self.memo[t]

    def over_tags(self, src):
        return src is self.tags or src is self.tokens or src.op == "app" and src.a[0] == "range" and src.a[1] is C("int", 0) and \
            src.a[2].op == "app" and src.a[2].a[0] == "len" and src.a[2].a[1] in (self.tags, self.tokens)

    def at(self, t, k):
        if not isinstance(k, int):
            raise Unknown(show(t, 4))
        if not 0 <= k < len(self.seq):
            self.beyond = True
            return None
        return self.seq[k] if t is self.tags else ("token", k)

    def ev0(self, t):
        op = t.op
        if t in self.env:
            return self.env[t]
        if op == "c":
            return t.a[1]
        if op == "lin":
            return t.a[0] + sum(self.ev(x) * k for x, k in t.a[1])
        if op == "not":
            return not self.ev(t.a[0])
        if op == "eq":
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            return a == b
        if op == "ge0":
            return self.ev(t.a[0]) >= 0
        if op == "elem":
            if t.a[1].endswith("~"):
                raise Unknown(show(t, 4))
            if t.a[0] in (self.tags, self.tokens):
                return self.at(t.a[0], self.i)
            if self.over_tags(t.a[0]):
                return self.i
        if op == "is":
            x = self.ev(t.a[0])
            if isinstance(x, tuple) and x[0] == "en":
                return x[1] == t.a[1]
        if op in ("en",):
            return ("en", t.a[1]) + tuple(self.ev(x) for x in t.a[3])
        if op == "st":
            return ("st",) + tuple(zip(t.a[1], (self.ev(x) for x in t.a[2])))
        if op == "vf":
            x = self.ev(t.a[0])
            if isinstance(x, tuple) and x[0] == "en" and x[1] == t.a[1]:
                return x[2 + int(t.a[2])]
            if x is None:
                return None
        if op == "f":
            x = self.ev(t.a[0])
            if x is None:
                return None
            if isinstance(x, tuple) and x[0] == "token":
                return x + (t.a[1],)
            if isinstance(x, tuple) and x[0] == "range" and t.a[1] in ("start", "end"):
                return x[1 if t.a[1] == "start" else 2]
            if isinstance(x, tuple) and x[0] == "st":
                return dict(x[1:])[t.a[1]]
        if op == "app":
            n = last(t.a[0])
            if any(x.endswith("~") for x in t.tags):
                raise Unknown(show(t, 4))
            if n == "and":
                return all(self.ev(x) for x in t.a[1:])
            if n == "or":
                return any(self.ev(x) for x in t.a[1:])
            if n == "len" and t.a[1] in (self.tags, self.tokens):
                return len(self.seq)
            if n == "pos" and self.over_tags(t.a[1]):
                return self.i
            if n in ("idx", "get!") and t.a[1] in (self.tags, self.tokens):
                return self.at(t.a[1], self.ev(t.a[2]))
            if n == "get" and t.a[1] in (self.tags, self.tokens):
                x = self.at(t.a[1], self.ev(t.a[2]))
                return ("en", "None") if x is None else ("en", "Some", x)
            if n == "contains" and t.a[2].op == "elem" and t.a[2].a[0] is t.a[1] and self.over_tags(t.a[1]):
                return True
            if n == "contains" and t.a[2].op == "app" and t.a[2].a[0] == "idx" and t.a[2].a[1] is t.a[1]:
                return self.ev(t.a[2]) is not None
            if n in ("starts_with", "ends_with") and len(t.a) == 3:
                x, y = self.ev(t.a[1]), self.ev(t.a[2])
                if isinstance(x, str) and isinstance(y, str):
                    return x.startswith(y) if n == "starts_with" else x.endswith(y)
                if x is None:
                    return False
            if n == "saturating_sub" and len(t.a) == 3:
                x, y = self.ev(t.a[1]), self.ev(t.a[2])
                if isinstance(x, int) and isinstance(y, int):
                    return max(0, x - y)
            if n == "suffix_from_char_index" and len(t.a) == 3:
                x, y = self.ev(t.a[1]), self.ev(t.a[2])
                if isinstance(x, str) and isinstance(y, int):
                    return x[y:]
            if n == "range" and len(t.a) == 3:
                return ("range", self.ev(t.a[1]), self.ev(t.a[2]))
            if n in ("len", "charlen") and len(t.a) == 2:
                x = self.ev(t.a[1])
                if isinstance(x, str):
                    return len(x)
        raise Unknown(show(t, 5))

    def holds(self, facts):
        """Do all the facts hold?  A fact that is not understood only matters when the others hold."""
        unknown = None
        for t, p in facts:
            try:
                if bool(self.ev(t)) is not p:
                    return False
            except Unknown as x:
                unknown = x
            except TypeError:
                unknown = Unknown(show(t, 5))
        if unknown is not None:
            raise unknown
        return True


def spec_slots(scheme, seq):
    """The slots of a sequence of tags: maximal stretches of tags other than O, divided where the scheme says so."""
    out, start = [], None
    n = len(seq)
    for i, t in enumerate(seq):
        if t == "O":
            continue
        p = seq[i - 1] if i else "O"
        q = seq[i + 1] if i + 1 < n else "O"
        if p == "O" or divided(scheme, p, t):
            start = i
        if q == "O" or divided(scheme, t, q):
            out.append((start, i, t[2:]))
    return out


def divided(scheme, a, b):
    """Do two neighbouring tags belong to different slots?"""
    if scheme == "BIO":
        return b.startswith("B-")
    if scheme == "BILOU":
        return a[:2] in ("L-", "U-") or b[:2] in ("B-", "U-")
    return False


def sequences(scheme, deep):
    letters = ALPHABET[scheme]
    two = [x if x == "O" else x + n for x in letters for n in (("s", "other") if x != "O" else ("",))]
    one = [x if x == "O" else x + "s" for x in letters]
    for n in (1, 2, 3):
        yield from itertools.product(two, repeat=n)
    for n in ((4, 5) if deep else (4,)):
        yield from itertools.product(one, repeat=n)


def slot_of(w, v):
    """(first token, last token, name) of a built slot, or the reason why it is none."""
    x = w.ev(v)
    if not (isinstance(x, tuple) and x[0] == "st"):
        raise Unknown(show(v, 4))
    d = dict(x[1:])
    ends = {}
    for k in ("range", "char_range"):
        r = d.get(k)
        if not (isinstance(r, tuple) and r[0] == "range" and all(isinstance(y, tuple) and len(y) == 4 for y in r[1:])):
            raise Unknown(show(v, 4))
        (_, i, k1, e1), (_, j, k2, e2) = r[1], r[2]
        if (k1, e1, k2, e2) != (k, "start", k, "end"):
            return "the %s goes from %s.%s to %s.%s" % (k, k1, e1, k2, e2)
        ends[k] = (i, j)
    if ends["range"] != ends["char_range"]:
        return "the ranges are of different tokens"
    return ends["range"] + (d.get("slot_name"),)


def decoding(ctx):
    b = ctx.prog.find("crf_utils::tags_to_slot_ranges", optional=True)
    rule = "a slot is a maximal run of tags of the same slot, by the rules of the scheme"
    if b is None:
        ctx.ob(rule, "tags_to_slot_ranges", None, "no such function")
        return
    w0 = where(b)
    ps = params(b)
    if len(ps) != 3:
        ctx.ob(rule, "tags_to_slot_ranges", None, "other parameters", w0)
        return
    tokens, tags = ps[0], ps[1]
    total = 0
    for scheme in ("IO", "BIO", "BILOU"):
        ev, front = [], []

        def put_in(e, st, a, site, fn):
            ev.append((a[2], st.facts))
            front.append((a[1], a[2]))
        e, rs = ctx.run(b, [tokens, tags, enum(SCHEME, scheme)], hooks={"Vec::push": lambda e, st, a, site, fn: ev.append((a[1], st.facts)),
                                                                        "Vec::insert": put_in})
        events = [(v, f) for v, f in ev if v.op == "st" and "char_range" in v.a[1]]
        first = [v for i, v in front if i is C("int", 0) and v.op == "st" and "char_range" in v.a[1]]
        ctx.ob("the slots come in the order of the text", scheme, not first, "put in front: %s" % [show(v, 3) for v in first[:1]], w0)
        cuts = []
        for s, r in rs:
            gs = gens_of(r)
            if gs is None:
                ctx.ob(rule, scheme, None, show(r, 3), w0)
                continue
            if not ev:
                events += [(x, c) for x, c, bd in gs]
            cut = cut_of(r.a[2]) if r.op == "coll" else None
            if cut is not None:
                cuts.append(cut)
        ctx.ob("no slot is left out", scheme, not cuts, "; ".join(show(c, 3) for c in cuts), w0)
        phis, todo = {}, [t for v, f in events for t in [v] + [x for x, p in f]]
        while todo:
            for q in subterms(todo.pop()):
                if q.op == "phi" and q not in phis:
                    phis[q] = e.steps_of(q)
                    todo += [x for x, f in phis[q]] + [t for x, f in phis[q] for t, p in f]
        # what the first pass of the analysis saw of the first round is a part of what the last one saw of any
        first = {q: x for q, x in ((q, e.entry_of(q)) for q in phis) if x is not None}
        stale = set()
        for v, f in events:
            if any(q in phis for t in [v] + [t for t, p in f] for q in subterms(t)):
                f2 = [(subst(t, first), p) for t, p in f]
                if all(bool(t.a[1]) is p for t, p in f2 if t.op == "c"):
                    stale.add((subst(v, first), frozenset((t, p) for t, p in f2 if t.op != "c")))
        events = [(v, f) for v, f in events if (v, frozenset(f)) not in stale]
        wrong, odd, n = [], [], 0
        for seq in sequences(scheme, ctx.tier == "thorough"):
            if len(wrong) + len(odd) >= 5:
                break
            try:
                got = walk(e, tags, tokens, seq, events, phis)
            except Unknown as x:
                odd.append((seq, str(x)))
                continue
            except TypeError as x:
                odd.append((seq, str(x)))
                continue
            n += 1
            want = spec_slots(scheme, seq)
            if got != want:
                wrong.append((seq, got, want))
        total += n
        ctx.ob(rule, scheme, not wrong if n and not odd else None,
               "; ".join("%s gives %s, not %s" % (" ".join(s), g, t) for s, g, t in wrong[:2]) + "; ".join("%s: %s" % x for x in odd[:2]), w0)
    ctx.count("sequences of tags compared", total)


def walk(e, tags, tokens, seq, events, phis):
    env, out = {}, []
    for q in phis:
        x = e.entry_of(q)
        if x is None:
            raise Unknown(show(q))
        env[q] = Walk(tags, tokens, seq, 0, {}).ev(x)
    for i in range(len(seq)):
        w = Walk(tags, tokens, seq, i, env)
        new = []
        for v, f in events:
            if w.holds(f):
                x = slot_of(w, v)
                if x not in new:
                    new.append(x)
        if len(new) > 1:
            raise Unknown("several slots at once")
        out += new
        nxt = {}
        for q, steps in phis.items():
            vals = []
            for x, f in steps:
                if w.holds(f):
                    y = w.ev(x)
                    if y not in vals:
                        vals.append(y)
            if not vals and (w.beyond or stuck(e, w)):
                return out + ["an access beyond the tags, at %d" % i]
            if len(vals) != 1:
                raise Unknown("%d values of %s" % (len(vals), show(q)))
            nxt[q] = vals[0]
        env = nxt
    return out


def stuck(e, w):
    """Does the round end in an access to something that is not there?"""
    for ev in e.events:
        if ev[0] == "panic" and ev[1] == "index":
            try:
                if w.holds(ev[3]) and not any(t.op == "elem" and t.a[1].endswith("~") for f, _ in ev[3] for t in subterms(f)):
                    return True
            except (Unknown, TypeError):
                continue
    return False


# ---------------------------------------------------------------- slots

def slots_part(ctx):
    b = ctx.prog.find("crf_utils::tags_to_slots", optional=True)
    rule = "a slot has the text, range, name and entity of its own tags"
    if b is None:
        ctx.ob(rule, "tags_to_slots", None, "no such function")
        return
    w = where(b)
    ps = params(b)
    txt, tokens, tags, scheme, mapping = ps[:5]
    e, rs = ctx.run(b, ps)
    errs = 0
    for s, r in rs:
        for v in alts(r):
            if v.op == "en" and v.a[1] == "Err":
                errs += 1
                continue
            c = v.a[3][0] if v.op == "en" else vfld(v, "Ok", "0")
            if gens_of(c) is None:
                ctx.ob(rule, "slots", None, show(c, 3), w)
                continue
            cut = cut_of(c.a[2]) if c.op == "coll" else None
            ctx.ob("no slot is left out", "tags_to_slots", cut is None, show(cut, 3) if cut is not None else "", w)
            for x, conds, bd in gens_of(c):
                if not (x.op == "st" and "char_range" in x.a[1]):
                    ctx.ob(rule, "slot", None, show(x, 4), w)
                    continue
                cr, val = fld(x, "char_range"), fld(x, "value")
                name, ent = fld(x, "slot_name"), fld(x, "entity")
                st = [token_of(fld(cr, k), k, "char_range") for k in ("start", "end")]
                sl = val if val.op == "app" and val.a[0] == "slice" and val.a[1] is txt else None
                bs = [token_of(fld(sl.a[2], k), k, "range") for k in ("start", "end")] if sl is not None else []
                ok = sl is not None and None not in bs and bs == st
                ctx.ob(rule, "value", True if ok else st3(val, e), show(val, 7), w)
                nm = name.op == "app" and last(name.a[0]) == "suffix_from_char_index" and name.a[2] is C("int", 2)
                ctx.ob(rule, "name", True if nm and tag_at(name.a[1], tags, st[1]) else st3(name, e), show(name, 6), w)
                u = ent
                while u.op in ("vf", "pay"):
                    u = u.a[0]
                ok = u.op == "app" and u.a[0] in ("get!", "get", "idx") and u.a[1] is mapping and u.a[2] is name
                ctx.ob(rule, "entity", True if ok else st3(ent, e), show(ent, 6), w)
                bad = [t for t, p in selecting(e, s.facts, conds) if any(q.op == "f" and q.a[1] in ("range", "char_range", "value")
                                                                        for q in subterms(t))]
                ctx.ob("no slot is left out", "tags_to_slots: slot", not bad, "; ".join(show(t, 5) for t in bad[:3]), w)
    ctx.ob("a slot without entity is an error", "tags_to_slots", errs > 0, "%d errors" % errs, w)


def st3(v, e):
    return None if opaque_parts(v, e) else False


def token_of(t, which, field):
    """The index of the token whose range begins / ends there."""
    if t.op == "f" and t.a[1] == which and t.a[0].op == "f" and t.a[0].a[1] == field:
        x = t.a[0].a[0]
        if x.op == "app" and x.a[0] in ("idx", "get!"):
            return x.a[2]
        if x.op == "elem":
            return x
    return None


def tag_at(t, tags, i):
    if t.op == "elem" and t.a[0] is tags:
        return i is not None and i.op == "app" and i.a[0] == "pos" and i.a[2] is t
    return t.op == "app" and t.a[0] in ("idx", "get!") and t.a[1] is tags and t.a[2] is i


# ---------------------------------------------------------------- the filler

def decoded(ctx, b, enc, rule, con, w, e):
    """Is the collection every tag of a source, base64-decoded, in order?"""
    gs = gens_of(enc)
    if not gs or enc.op != "coll":
        return None
    src = set()
    for x, conds, bd in gs:
        y = x
        names = []
        while y.op in ("vf", "app"):
            if y.op == "vf":
                y = y.a[0]
            elif last(y.a[0]) in ("decode", "from_utf8") and len(y.a) == 2:
                names.append(last(y.a[0]))
                y = y.a[1]
            else:
                break
        if names != ["from_utf8", "decode"] or y.op != "elem":
            ctx.ob(rule, con, None if opaque_parts(x) else False, show(x, 6), w)
            return None
        src.add(y.a[0])
        extra = [t for t, p in conds if not (t.op == "is" and t.a[1] in ("Ok",) and p) and not (t.op == "app" and t.a[0] == "contains" and p and t.a[2] is y)]
        ctx.ob(rule, con + ": all of them", not extra, "; ".join(show(t, 5) for t in extra[:3]), w)
    cut = cut_of(enc.a[2])
    ctx.ob(rule, con + ": in their order", None if cut is not None and cut.a[0] == "o_take" and any(
        q.op == "app" and str(q.a[0]).endswith("get_or_init") for q in subterms(cut.a[2])) else cut is None and enc.a[2].op == "app" and enc.a[2].a[0] == "o_src" if enc.a[2] is not None else None,
           show(enc.a[2], 4) if enc.a[2] is not None else "", w)
    return list(src)[0] if len(src) == 1 else None


def failing_calls(v):
    """The names of the calls whose failure is handed on."""
    return {last(q.a[0].a[0]) for q in subterms(v) if q.op == "vf" and q.a[1] == "Err" and q.a[0].op == "app"}


def okv(t):
    """The call a value is the success of."""
    return t.a[0] if t.op == "vf" and t.a[1] == "Ok" else None


def filler(ctx):
    ts = ctx.prog.find("crf_utils::tags_to_slots", optional=True)
    fp = ctx.prog.find("ProbabilisticFeatureProcessor::compute_features", optional=True)
    fl = [q["id"] for q in ctx.prog.lib.bodies.values() if last(q["path"]) == "from_language" and "{closure" not in q["id"]]
    rule = "the slots of a text are those of the tags of its own tokens"
    b = method(ctx, "get_slots")
    if b is None:
        return
    w = where(b)
    self, txt = params(b)
    ops = {x["id"] for x in (ts, fp) if x is not None} | set(fl)
    e, rs = ctx.run(b, [self, txt], opaque=ops)
    some = failing = 0
    have = lambda facts: [(t.a[0].a[1], p) for t, p in facts if t.op == "is" and t.a[1] == "Some" and t.a[0].op == "f" and t.a[0].a[0] is self]
    why = set()
    for s, r in rs:
        for v in alts(r):
            if v.op == "en" and v.a[1] == "Err":
                failing += 1
                why |= failing_calls(v)
                continue
            c = v.a[3][0] if v.op == "en" else vfld(v, "Ok", "0")
            trained = all(p for n, p in have(s.facts)) and have(s.facts)
            if gens_of(c) == [] or gens_of(c) == ():
                toks = {q for t, p in s.facts for q in subterms(t) if q.op == "app" and last(q.a[0]) == "tokenize"}
                empty = any(decide(s.facts, eq(app("len", q), C("int", 0))) is True or
                            any(p and t.op == "app" and t.a[0] in ("is_empty", "exhausted") and t.a[1] is q for t, p in s.facts) for q in toks)
                ctx.ob(rule, "no slots", not trained or empty, "a trained filler finds none", w)
                continue
            call = okv(c)
            if call is None or not (call.op == "app" and last(call.a[0]) == "tags_to_slots" and len(call.a) == 6):
                ctx.ob(rule, "slots", None, show(c, 4), w)
                continue
            some += 1
            ctx.ob(rule, "text", call.a[1] is txt or st3(call.a[1], None), show(call.a[1], 4), w)
            tok = call.a[2]
            good = tok.op == "app" and last(tok.a[0]) == "tokenize" and tok.a[1] is txt
            ctx.ob(rule, "tokens", True if good else st3(tok, None), show(tok, 5), w)
            if good and len(tok.a) > 2:
                lang = tok.a[2]
                ctx.ob(rule, "language", True if lang.op == "app" and last(lang.a[0]) == "from_language" and lang.a[1] is fld(self, "language")
                       else st3(lang, None), show(lang, 5), w)
            for i, n in ((4, "tagging_scheme"), (5, "slot_name_mapping")):
                ctx.ob(rule, n, True if call.a[i] is fld(self, n) else st3(call.a[i], None), show(call.a[i], 5), w)
            src = decoded(ctx, b, call.a[3], rule, "tags", w, e)
            if src is None:
                ctx.ob(rule, "tags", None, show(call.a[3], 5), w)
                continue
            t = okv(src)
            if t is None or not (t.op == "app" and last(t.a[0]) == "tag"):
                ctx.ob(rule, "tagger", None, show(src, 5), w)
                continue
            features(ctx, rule, t.a[2], self, tok, w)
    ctx.ob(rule, "slots", True if some else None, "%d" % some, w)
    for n in ("compute_features", "tag", "decode", "from_utf8", "tags_to_slots"):
        ctx.ob("a failing step of tagging is an error", n, n in why if some else None, ", ".join(sorted(why)), w)
    probability(ctx, fp, fl)


def features(ctx, rule, t, self, tok, w):
    f = okv(t)
    ok = f is not None and f.op == "app" and last(f.a[0]) == "compute_features"
    ctx.ob(rule, "features", True if ok and f.a[2] is tok else (None if opaque_parts(t) or not ok else False), show(t, 5), w)


def method(ctx, name):
    for q in ctx.prog.lib.bodies.values():
        if last(q["path"]) == name and "CRFSlotFiller" in q["path"] and "SlotFiller>" in q["path"] and "{closure" not in q["id"]:
            return q
    ctx.ob("public entry point is present", name, "bad", "no SlotFiller::%s of the CRF filler" % name)
    return None


BENDS = ("max", "min", "sqrt", "ln", "exp", "powi", "powf", "round", "floor", "ceil", "mul", "div", "sub", "add", "abs", "clamp")


def probability(ctx, fp, fl):
    b = method(ctx, "get_sequence_probability")
    rule = "the probability of tags is the tagger's for the tokens' features"
    if b is None:
        return
    w = where(b)
    self, tokens, tags = params(b)
    sl = ctx.prog.find("crf_utils::get_substitution_label", optional=True)
    ops = {x["id"] for x in (sl, fp) if x is not None} | set(fl)
    e, rs = ctx.run(b, [self, tokens, tags], opaque=ops)
    O = lambda q: q.op == "eq" and any(text(x) == "O" for x in q.a)
    n = 0
    why = set()
    for s, r in rs:
        for v in alts(r):
            if v.op == "en" and v.a[1] == "Err":
                why |= failing_calls(v)
                continue
            c = v.a[3][0] if v.op == "en" else vfld(v, "Ok", "0")
            trained = [(t.a[0].a[1], p) for t, p in s.facts if t.op == "is" and t.a[1] == "Some" and t.a[0].op == "f" and t.a[0].a[0] is self]
            if not (trained and all(p for t, p in trained)):
                # without a tagger: only tags O are possible
                allo = any(t.op == "forall" and p and any(O(q) for q in subterms(t)) and t.a[2] for t, p in s.facts)
                if not allo:
                    allo = any(t.op == "forall" and p and t.a[1].op == "not" and O(t.a[1].a[0]) and not t.a[2] for t, p in s.facts)
                allo = allo or decide(s.facts, eq(app("len", tags), C("int", 0))) is True or \
                    any(t.op == "app" and t.a[0] in ("is_empty", "exhausted") and t.a[1] is tags and p for t, p in s.facts)
                noto = any(O(t) and not p for t, p in s.facts) or any(t.op == "forall" and not p for t, p in s.facts)
                val = str(c.a[1]) if c.op == "c" else None
                st = None
                if val is not None and (allo or noto):
                    st = float(val) == (1.0 if allo else 0.0)
                elif val is not None and not any(opaque_parts(t, e) for t, p in s.facts):
                    st = False
                ctx.ob("an intent without slots has tags O only", "tagged O" if allo else "other tags", st, show(c), w)
                continue
            call = okv(c)
            if call is None or not (call.op == "app" and last(call.a[0]) == "probability"):
                bent = c.op in ("lin", "app") and (c.op == "lin" or last(c.a[0]) in BENDS) and \
                    any(y.op == "app" and last(y.a[0]) == "probability" for y in subterms(c))
                if bent:
                    ctx.ob(rule, "value", False, show(c, 4), w)
                    continue
                ctx.ob(rule, "value", st3(c, e) if not opaque_parts(c, e) else None, show(c, 4), w)
                continue
            n += 1
            sets = [t.a[0] for t, p in s.facts if t.op == "is" and t.a[1] == "Ok" and p and t.a[0].op == "app" and last(t.a[0].a[0]) == "set"]
            ctx.ob(rule, "features are set", bool(sets), "", w)
            for q in sets:
                ctx.ob(rule, "same tagger", q.a[1] is call.a[1], "", w)
                features(ctx, rule, q.a[2], self, tokens, w)
            cl = call.a[2]
            gs = gens_of(cl)
            if not gs or cl.op != "coll":
                ctx.ob(rule, "tags", None, show(cl, 4), w)
                continue
            ctx.ob(rule, "all the tags in order", cut_of(cl.a[2]) is None and cl.a[2].op == "app" and cl.a[2].a[0] == "o_src" and cl.a[2].a[1] is tags,
                   show(cl.a[2], 4), w)
            kinds = set()
            for x, conds, bd in gs:
                y = x.a[1] if x.op == "app" and last(x.a[0]) == "encode" else None
                if y is None:
                    ctx.ob(rule, "tag", st3(x, None), show(x, 5), w)
                    continue
                seen = None
                extra = [t for t, p in selecting(e, s.facts, conds) if any(q.op == "elem" and q.a[0] is tags for q in subterms(t))
                         and not (t.op == "app" and t.a[0] == "contains" or t.op == "eq" and
                                  any(q.op == "elem" and q.a[0] is not tags for q in subterms(t)))]
                ctx.ob(rule, "no tag is left out", not extra or (None if any(opaque_parts(t, e) for t in extra) else False),
                       "; ".join(show(t, 5) for t in extra[:3]), w)
                for t, p in conds:
                    if t.op == "app" and t.a[0] == "contains" and t.a[2].op == "elem" and t.a[2].a[0] is tags and t.a[1] is not tags:
                        seen = p
                        if (t.a[1], "labels") not in kinds:
                            kinds.add((t.a[1], "labels"))
                            src = decoded(ctx, b, t.a[1], rule, "labels", w, e)
                            lb = okv(src) if src is not None else None
                            ctx.ob(rule, "labels", True if lb is not None and last(lb.a[0]) == "labels" and lb.a[1] is call.a[1] else None, show(t.a[1], 5), w)
                if y.op == "elem" and y.a[0] is tags:
                    ctx.ob(rule, "tag known to the tagger", seen is True, "kept although the tagger does not know it", w)
                    kinds.add("kept")
                elif y.op == "app" and last(y.a[0]) == "get_substitution_label":
                    ctx.ob(rule, "unknown tag", seen is False, "replaced although the tagger knows it", w)
                    kinds.add("replaced")
                else:
                    ctx.ob(rule, "tag", st3(y, None), show(y, 5), w)
            ctx.ob(rule, "tags", True if {"kept", "replaced"} <= kinds else None, "", w)
    ctx.ob(rule, "value", True if n else None, "%d" % n, w)
    for k in ("compute_features", "labels", "decode", "from_utf8", "set", "probability"):
        ctx.ob("a failing step of tagging is an error", "probability: " + k, k in why if n else None, ", ".join(sorted(why)), w)
    if sl is not None:
        e, rs = ctx.run(sl, params(sl))
        lab = params(sl)[0]
        rr = "an unknown tag counts as O, or as the first label where there is no O"
        for s, r in rs:
            hasO = None
            for t, p in s.facts:
                if t.op == "app" and t.a[0] == "contains" and t.a[1] is lab and text(t.a[2]) == "O":
                    hasO = p
                if t.op == "eq" and any(text(x) == "O" for x in t.a) and p:
                    hasO = True
                if t.op == "forall" and any(O(q) for q in subterms(t)):
                    hasO = False
            for v in alts(r):
                if text(v) == "O" or v.op == "elem" and hasO:
                    ctx.ob(rr, "O", hasO, "", where(sl))
                else:
                    first = v.op == "app" and v.a[0] in ("idx", "get!") and v.a[1] is lab and v.a[2] is C("int", 0)
                    st = hasO is False if hasO is not None else (None if any(opaque_parts(t, e) for t, p in s.facts) else False)
                    ctx.ob(rr, "first", st if first else st3(v, e), show(v), where(sl))


# ---------------------------------------------------------------- schemes

def schemes(ctx):
    b = ctx.prog.find("TaggingScheme::from_u8", optional=True)
    rule = "the codes of tagging schemes"
    if b is None:
        ctx.ob(rule, "from_u8", None, "no such function")
    else:
        for code, name in ((0, "IO"), (1, "BIO"), (2, "BILOU"), (3, None), (255, None)):
            e, rs = ctx.run(b, [C("int", code)])
            for s, r in rs:
                for v in alts(r):
                    if v.op != "en":
                        ctx.ob(rule, str(code), None, show(v), where(b))
                        continue
                    got = v.a[3][0].a[1] if v.a[1] == "Ok" and v.a[3][0].op == "en" else None
                    ctx.ob(rule, "%d" % code, (v.a[1] == "Ok") == (name is not None) and got == name, show(v, 3), where(b))
    b = ctx.prog.find("crf_utils::get_scheme_prefix", optional=True)
    rule = "the prefix of a token of an entity tells its place in it"
    if b is None:
        ctx.ob(rule, "get_scheme_prefix", None, "no such function")
        return
    ps = params(b)
    for scheme in ("IO", "BIO", "BILOU"):
        for n in (1, 2, 3):
            for i in range(n):
                idx = seq("array", tuple(C("int", 4 + k) for k in range(n)))
                e, rs = ctx.run(b, [C("int", 4 + i), idx, enum(SCHEME, scheme)])
                want = {"IO": "I-", "BIO": "B-" if i == 0 else "I-",
                        "BILOU": "U-" if n == 1 else "B-" if i == 0 else "L-" if i == n - 1 else "I-"}[scheme]
                for s, r in rs:
                    for v in alts(r):
                        ctx.ob(rule, "%s: %d of %d" % (scheme, i + 1, n), text(v) == want if text(v) is not None else None, show(v), where(b))


@check("C14")
def c14(ctx):
    """The transition relation of the walk over the tags is read off the paths of its round; it is compared with the rules
    of each scheme for all sequences of its letters up to a length beyond the window its conditions speak about."""
    decoding(ctx)
    slots_part(ctx)
    filler(ctx)
    schemes(ctx)
