"""C07: the intent classifier's confidences."""
from ..check import check, where
from ..engine import decide
from ..lib import *
from ..terms import *
from .chain import NAME, SCORE, calls_of, verdict
from .api import order_chain


def dots(t):
    return [y for y in subterms(t) if y.op == "app" and y.a[0].split("::")[-1] == "dot"]


def decision_leaf(y):
    """A component of the vector of decision values (the matrix product)."""
    if y.op in ("elem", "app") and (y.op == "elem" or y.a[0] in ("idx", "get!")):
        src = y.a[0] if y.op == "elem" else y.a[1]
        return bool(dots(src)) and not any(z.op == "app" and (z.a[0] in ("fdiv", "fadd", "fsub") or
                                                             z.a[0].endswith("exp")) for z in subterms(src))
    return False


def component(ctx, con, v, e, w, what):
    """Range and direction of one probability."""
    lo, hi = interval(v)
    inside = lo >= 0.0 and hi <= 1.0
    wit = None
    if not inside:
        for k in (-1000.0, -80.0, -3.0, -0.5, 0.0, 0.5, 3.0, 80.0, 1000.0):
            try:
                x = num(v, lambda y: k if decision_leaf(y) else None)
            except NoValue:
                break
            if not 0.0 <= x <= 1.0:
                wit = "%s for a decision value of %s" % (x, k)
                break
    ctx.ob("a confidence lies between zero and one", con, True if inside else (False if wit else None),
           "%s: %s" % (show(v, 5), wit or "in [%s, %s]" % (lo, hi)), w)
    sl = slope(v, decision_leaf)
    return sl if sl is not None else coarse(v)


def coarse(v):
    """0 when well separated decision values give one and the same value."""
    seen = {}
    for k in (-2.0, -1.0, -0.5, -0.25, 0.0, 0.25, 0.2501, 0.251, 0.5, 1.0, 2.0):
        try:
            x = num(v, lambda y: k if decision_leaf(y) else None)
        except NoValue:
            return None
        if x in seen:
            return 0
        seen[x] = k
    return None


def opaque_in_value(v, e):
    """Does the arithmetic of v (above its decision leaves) contain something unknown?"""
    if decision_leaf(v):
        return False
    if v.op == "c":
        return False
    if v.op == "app":
        n = v.a[0]
        if n in ("fadd", "fsub", "fmul", "fdiv", "fneg", "max", "min") or n.startswith("cast:") or \
                n.split("::")[-1] in ("exp", "tanh", "abs"):
            return any(opaque_in_value(x, e) for x in v.a[1:] if hasattr(x, "op"))
    return True


@check("C07")
def c07(ctx):
    """Interval and monotonicity analysis of the exact term of every confidence the classifier produces, pairing of
    names and values by the order terms of the zipped sequences, and the layout of the weight matrix (position of the
    intercept row against the constant feature, axes, and the transposition of the stored coefficients)."""
    impls = [(t, b) for t, b in ctx.prog.trait_impls("IntentClassifier", "get_intents")
             if not t.split("::")[-1].startswith("Mock")]
    ctx.floor("classifiers", len(impls), 1)
    for t, b in impls:
        scores(ctx, t.split("::")[-1], b)
    for t, b in ctx.prog.trait_impls("IntentClassifier", "get_intent"):
        if not t.split("::")[-1].startswith("Mock"):
            head(ctx, t.split("::")[-1], b)
            rk = ctx.prog.find(t.split("::")[-1] + "::get_intents_with_whitelist", optional=True)
            if rk is not None and rk["argc"] == 3:
                scores(ctx, t.split("::")[-1] + " under a filter", rk)
    run(ctx)
    layout(ctx)


def scores(ctx, con, b):
    w = where(b)
    ft = ctx.prog.find("Featurizer::transform", optional=True)
    e, rs = ctx.run(b, params(b), opaque={ft["id"]} if ft else set())
    n = 0
    self_ = params(b)[0]
    for s, r in results(rs):
        for v in alts(r):
            gs = gens_of(v)
            if gs is None:
                ctx.ob("the classified intents can be followed", con, None, show(v, 4), w)
                continue
            scored = False
            undecided(ctx, con, s, v, gs, self_, params(b)[1], e, w)
            met = set()
            for x, conds, bnd in gs:
                n += 1
                sc, nm = fld(x, SCORE), fld(x, NAME)
                fs = s.facts | conds
                sl = component(ctx, con, sc, e, w, "")
                isn = decide(fs, isv(nm, "Some"))
                if nm.op == "elem":
                    met |= {True, False} if isn is None else {isn}
                if sc.op == "c":
                    val = float(sc.a[1])
                    if len({g[0] for g in gs}) == 1 and (v.op == "list" or v.a[2].op == "app" and v.a[2].a[0] == "o_list" and len(v.a[2].a) == 2):
                        good = val == 1.0
                    elif isn is None:
                        good = None
                    else:
                        good = val == (0.0 if isn else 1.0)
                    ctx.ob("without a decision the absence of intent (or the only intent) gets all the confidence", con,
                           good, "%s for %s" % (val, show(nm, 3)), w)
                else:
                    scored = True
                    ctx.ob("a confidence moves with its own decision value", con, True if sl in (1, -1) else
                           (False if sl == 0 else None), show(sc, 6), w)
                # the name comes from the trained list
                src = nm
                while src.op in ("vf", "f") and not (src.op == "f" and src.a[0] is self_):
                    src = src.a[0]
                ok_ = (nm.op == "elem" and nm.a[0].op == "f" and nm.a[0].a[0] is self_) or \
                    (nm.op == "app" and nm.a[0] in ("idx", "get!") and nm.a[1].op == "f" and nm.a[1].a[0] is self_) or \
                    (nm.op == "en" and nm.a[1] == "None")
                ctx.ob("a classified intent is one of the trained list", con, verdict(ok_, nm, e), show(nm, 4), w)
                for t, p in selecting(e, s.facts, conds):
                    if t.op == "is" or t.op == "app" and t.a[0] in ("contains",):
                        continue
                    own = any(decision_leaf(y) or y is sc for y in outside(t, ("len", "pos")))
                    ctx.ob("no trained intent is left out", con,
                           False if own or not opaque_parts(t, e) else None, show(t, 5), w)
            if met and v.op == "coll":
                ctx.ob("intents and the absence of intent are both classified", con, True if len(met) == 2 else (None if e.incomplete else False), "", w)
            if scored:
                o = v.a[2]
                z = [y for y in subterms(o) if y.op == "app" and y.a[0] == "o_zip"]
                if len(z) != 1:
                    ctx.ob("names and confidences are paired by position", con, None, show(o, 5), w)
                    continue
                a, c = z[0].a[1], z[0].a[2]
                flat = all(y.op == "app" and y.a[0] in ("o_src", "o_list") for y in (a, c))
                bad = [y.a[0] for q in (a, c) for y in order_chain(q) if y.a[0] in ("o_rev", "o_skip", "o_sorted", "o_step_by")]
                lst = [y for y in (a, c) if y.a[0] == "o_src" and y.a[1].op == "f" and y.a[1].a[0] is self_]
                ctx.ob("names and confidences are paired by position", con,
                       False if bad or len(z[0].a) > 3 else True if flat and lst else None, show(z[0], 5), w)
                names = order_chain(o)
                cut = [y.a[0] for y in names if y.a[0] in ("o_take", "o_skip", "o_step_by", "o_take_while", "o_skip_while")]
                ctx.ob("no trained intent is left out", con, not cut, ",".join(cut), w)
    ctx.ob("there are confidences to check", con, n > 0 or None, "%d" % n, w)


def undecided(ctx, con, s, v, gs, self_, text, e, w):
    """Answers made without a decision value: only for an empty text, a model without a decision function, or an only intent."""
    if not gs:
        return
    srcs = set()
    for x, _, _ in gs:
        for y in subterms(fld(x, NAME)):
            if y.op == "f" and y.a[0] is self_:
                srcs.add(y)
    for t, _ in s.facts:
        for y in subterms(t):
            if y.op == "app" and y.a[0] == "len" and y.a[1].op == "f" and y.a[1].a[0] is self_:
                srcs.add(y.a[1])
    lens = [app("len", y) for y in srcs]

    def possible(k):
        for t, p in s.facts:
            try:
                if t.op == "app" and t.a[0] in ("ge0", "le", "lt") or t.op in ("ge0", "eq"):
                    z = truth(t, lambda y: k if y in lens else None)
                    if z is not None and z != p:
                        return False
            except NoValue:
                continue
        return True
    fixed = v.op == "list" or v.a[2].op == "app" and v.a[2].a[0] == "o_list"
    if not fixed and lens:
        lone = possible(1)
        ctx.ob("an only intent has all the confidence", con, not lone or (None if any(opaque_parts(t, e) for t, _ in s.facts) else False),
               "also with a single trained intent: " + show(v, 4), w)
    if any(not (fld(x, SCORE).op == "c") for x, _, _ in gs):
        return
    many = [k for k in (2, 3, 4) if possible(k)]
    if not many:
        ctx.ob("all the confidence goes to an only intent only when it is the only one", con, True, "", w)
        return
    if fixed and lens:
        ctx.ob("all the confidence goes to an only intent only when it is the only one", con, False, "a list of %s" % many, w)
        return
    why = [t for t, p in s.facts if p and t is eq(app("len", text), I(0)) or not p and t.op == "is" and any(y is self_ for y in subterms(t)) or
           p and t.op == "is" and t.a[1] == "None" and any(y is self_ for y in subterms(t))]
    other = [t for t, _ in s.facts if opaque_parts(t, e)]
    ctx.ob("intents are told apart unless there is no text or nothing to tell them apart with", con, True if why else (None if other else False), "", w)


def truth(t, env):
    """Whether a comparison holds for given numbers."""
    if t.op == "ge0":
        return num(t.a[0], env) >= 0
    if t.op == "eq":
        return num(t.a[0], env) == num(t.a[1], env)
    return None


def head(ctx, con, b):
    """The intent answered is the head of the ranking under the filter, or none with confidence one."""
    w = where(b)
    rk = ctx.prog.find(con + "::get_intents_with_whitelist", optional=True)
    if rk is None:
        ctx.ob("the answer is the head of the ranking", con, None, "", w)
        return
    ps = params(b)
    e, rs = ctx.run(b, ps, opaque={rk["id"]})
    src = vfld(app(rk["path"], *ps), "Ok", "0")
    for s, r in results(rs):
        for v in alts(r):
            calls = [y for y in subterms(v) if y.op == "app" and y.a[0] == rk["path"]]
            if calls:
                c = calls[0]
                ctx.ob("the ranking is asked for the same input and filter", con,
                       verdict(list(c.a[1:]) == list(ps), list(c.a[1:]), e), show(c, 4), w)
                first = v.op == "elem" and v.a[0] is vfld(c, "Ok", "0") or \
                    v.op == "app" and v.a[0] == "idx" and v.a[1] is vfld(c, "Ok", "0") and v.a[2] is I(0)
                last = v.op == "app" and v.a[0] == "idx" and v.a[2] is not I(0)
                o = e.orders.get(v.a[1]) if v.op == "elem" else None
                good = None
                if any(p and t.op == "app" and t.a[0] in ("last_of", "max_of", "min_of") and t.a[2] is v for t, p in s.facts):
                    good = False
                elif first:
                    good = True
                    if o is not None and o.op == "app" and o.a[0] in ("o_rev", "o_skip"):
                        good = False
                elif last:
                    good = False
                ctx.ob("the answer is the head of the ranking", con, good if good is not None else verdict(False, v, e)
                       if v.op in ("elem", "st") else None, show(v, 4), w)
            else:
                nm, sc = fld(v, NAME), fld(v, SCORE)
                none_ = nm.op == "en" and nm.a[1] == "None" and sc.op == "c" and float(sc.a[1]) == 1.0
                ctx.ob("an empty ranking answers no intent with confidence one", con, verdict(none_, v, e), show(v, 4), w)
                t = [(u, p) for u, p in s.facts if any(y is src for y in subterms(u)) and not u.op == "is"]
                empty = decide(s.facts, eq(app("len", src), I(0))) is True or \
                    any(p and u.op == "app" and u.a[0] == "exhausted" for u, p in t)
                ctx.ob("no intent is answered only when the ranking is empty", con, True if empty else
                       (None if any(opaque_parts(u, e) for u, _ in t) else False), "; ".join(show(u, 4) for u, _ in t), w)


def run(ctx):
    b = ctx.anchor("MulticlassLogisticRegression::run")
    if b is None:
        return
    w = where(b)
    con = "MulticlassLogisticRegression::run"
    ps = params(b)
    e, rs = ctx.run(b, ps)
    two = many = 0
    for s, r in results(rs):
        for v in alts(r):
            gs = gens_of(v)
            if gs is None:
                ctx.ob("the probabilities can be followed", con, None, show(v, 4), w)
                continue
            if v.op == "list":
                two += 1
                p = [x for x, _, _ in gs]
                if len(p) != 2:
                    ctx.ob("a single decision gives two classes", con, False, show(v, 4), w)
                    continue
                sl = [component(ctx, con, x, e, w, "") for x in p]
                ctx.ob("the class of the decision comes second, the other one first", con,
                       True if sl == [-1, 1] else (False if None not in sl else None), str(sl), w)
                comp = complement(p[0], p[1]) or complement(p[1], p[0])
                lv = [{y for y in subterms(x) if decision_leaf(y)} for x in p]
                if len(lv[0]) == 1 and len(lv[1]) == 1 and lv[0] != lv[1]:
                    ctx.ob("the confidences of two classes sum to one", con, False, "they depend on different decisions: " + show(v, 5), w)
                    continue
                ctx.ob("the confidences of two classes sum to one", con, True if comp else
                       complement_table(p[0], p[1]), show(v, 7), w)
                one_ = single_decision(s.facts, ps[0])
                ctx.ob("two classes only come from a single decision", con, True if one_ is True else
                       (False if one_ is not None or sized(s.facts, ps[0]) else None),
                       "; ".join(show(t, 4) for t, pol in s.facts), w)
                half(ctx, con, p[1], w)
            else:
                many += 1
                for x, conds, bnd in gs:
                    sl = component(ctx, con, x, e, w, "")
                    ctx.ob("a larger decision value gives a larger confidence", con,
                           True if sl == 1 else (False if sl in (0, -1) else None), show(x, 6), w)
                    half(ctx, con, x, w)
                o = v.a[2]
                ctx.ob("confidences keep the order of the classes", con,
                       True if o.op == "app" and o.a[0] == "o_src" else
                       False if o.op == "app" and o.a[0] in ("o_rev", "o_sorted", "o_skip") else None, show(o, 4), w)
                ctx.ob("a single decision is not reported as a single class", con,
                       True if single_decision(s.facts, ps[0]) is False else
                       (False if single_decision(s.facts, ps[0]) or not sized(s.facts, ps[0]) else None), "", w)
    ctx.ob("both shapes exist", con, (two > 0 and many > 0) or None, "%d %d" % (two, many), w)


def single_decision(facts, self_):
    """Is the number of decisions one on this path?"""
    r = None
    for t, p in facts:
        for y in subterms(t):
            if column_count(y, self_):
                d = decide(facts, eq(y, I(1)))
                if d is not None:
                    return d
    return r


def column_count(y, self_):
    m = fld(self_, "weights")
    if y.op == "f" and y.a[1] == "1" or y.op == "app" and y.a[0] == "idx" and y.a[2] is I(1):
        x = y.a[0] if y.op == "f" else y.a[1]
        return x.op == "app" and x.a[0].split("::")[-1] in ("dim", "shape", "raw_dim") and x.a[1] is m
    return y.op == "app" and y.a[0].split("::")[-1] in ("cols", "ncols") and y.a[1] is m


def sized(facts, self_):
    """Does the path depend on the number of decisions in a way that was followed?"""
    return any(column_count(y, self_) for t, _ in facts if t.op in ("ge0", "eq", "ge") for y in subterms(t))


def half(ctx, con, x, w):
    try:
        v = num(x, lambda y: 0.0 if decision_leaf(y) else None)
        ctx.ob("an undecided decision value gives one half", con, v == 0.5, "%s" % v, w)
        import math
        vs = [num(x, lambda y, k=k: k if decision_leaf(y) else None) for k in (-2.0, -0.5, 0.25, 1.0, 3.0)]
        want = [1 / (1 + math.exp(-k)) for k in (-2.0, -0.5, 0.25, 1.0, 3.0)]
        ctx.ob("a confidence is the logistic function of its decision value", con,
               all(abs(a - c) < 1e-6 for a, c in zip(vs, want)), show(x, 6), w)
    except NoValue:
        ctx.ob("an undecided decision value gives one half", con, None, show(x, 5), w)


def complement(a, b):
    return a.op == "app" and a.a[0] == "fsub" and a.a[1].op == "c" and float(a.a[1].a[1]) == 1.0 and a.a[2] is b


def complement_table(a, b):
    try:
        for k in (-3.0, -1.0, 0.0, 0.5, 2.0):
            f = lambda y: k if decision_leaf(y) else None
            if abs(num(a, f) + num(b, f) - 1.0) > 1e-6:
                return False
        return None
    except NoValue:
        return None


def strip_view(x):
    while x.op == "app" and x.a[0].split("::")[-1] in ("from", "view", "into", "to_owned") and len(x.a) == 2 or \
            x.op == "vf" and x.a[1] == "Ok":
        x = x.a[1] if x.op == "app" else x.a[0]
    return x


def is_const_one(x):
    x = strip_view(x)
    while x.op == "list" and len(x.a[1]) == 1:
        x = strip_view(x.a[1][0])
    return x.op == "c" and x.a[0] == "float" and float(x.a[1]) == 1.0


def is_const(x):
    x = strip_view(x)
    while x.op == "list" and len(x.a[1]) == 1:
        x = strip_view(x.a[1][0])
    return x.op == "c"


def axis(st):
    a = st.a[1]
    f = fld(a, "0")
    return f.a[1] if f.op == "c" else None


def shape(dims, want, env):
    """Are the sizes given the wanted ones?"""
    out = True
    for k, t in enumerate(dims):
        try:
            if num(t, env) not in want[k]:
                return False
        except NoValue:
            out = None
    return out


def displaced(v, i, j):
    """Are the coefficients known to be taken from another place than their class's and feature's?"""
    if not (v.op == "app" and v.a[0] == "idx" and v.a[1].op == "app" and v.a[1].a[0] == "idx"):
        return False
    for t, own in ((v.a[2], i), (v.a[1].a[2], j)):
        for k in (0, 1, 2):
            try:
                x = num(t, lambda y: k if y is own else 3 if y.op == "app" and last_name(y) in ("len", "dim") else None)
            except NoValue:
                break
            if x != k:
                return True
    return False


def last_name(y):
    return y.a[0].split("::")[-1]


def layout(ctx):
    new = ctx.anchor("MulticlassLogisticRegression::new")
    rn = ctx.anchor("MulticlassLogisticRegression::run")
    if new is None or rn is None:
        return
    con = "MulticlassLogisticRegression"
    ps = params(new)
    e, rs = ctx.run(new, ps)
    pos = None
    for s, r in results(rs):
        st = [y for y in subterms(fld(r, "weights")) if y.op == "app" and y.a[0].split("::")[-1] in ("stack", "concatenate")]
        if len(st) != 1 or gens_of(st[0].a[2]) is None:
            ctx.ob("the weight matrix can be followed", con, None, show(r, 5), where(new))
            continue
        parts = [g[0] for g in gens_of(st[0].a[2])]
        for y in [y for x in parts for y in subterms(x) if y.op == "app" and y.a[0].split("::")[-1] == "into_shape" and
                  any(z is ps[0] for z in subterms(y.a[1])) and y.a[2].op == "st" and len(y.a[2].a[2]) == 2]:
            ctx.ob("the intercept is one row with a number for every class", con, shape(y.a[2].a[2], {0: (1,), 1: (3,)}, lambda z:
                   3 if z.op == "app" and z.a[0].split("::")[-1] in ("dim", "len") and z.a[1] is ps[0] else None), show(y, 5), where(new))
        ci = [i for i, x in enumerate(parts) if any(y is ps[0] for y in subterms(x))]
        ctx.ob("the intercept is a row of the weight matrix", con, axis(st[0]) == 0 if axis(st[0]) is not None else None,
               show(st[0], 5), where(new))
        wi = [i for i, x in enumerate(parts) if strip_view(x) is ps[1]]
        if len(ci) == 1 and len(wi) == 1 and len(parts) == 2:
            pos = ci[0]
        else:
            ctx.ob("the weight matrix is the intercept with the weights", con,
                   verdict(False, parts, e) if len(parts) != 2 else None, show(st[0], 5), where(new))
    e, rs = ctx.run(rn, params(rn))
    for s, r in results(rs):
        for d in dots(r)[:1]:
            st = [y for y in subterms(d.a[1]) if y.op == "app" and y.a[0].split("::")[-1] in ("stack", "concatenate")]
            if len(st) != 1 or gens_of(st[0].a[2]) is None:
                ctx.ob("the feature vector can be followed", con, None, show(d, 5), where(rn))
                continue
            parts = [g[0] for g in gens_of(st[0].a[2])]
            ones = [i for i, x in enumerate(parts) if is_const_one(x)]
            consts = [i for i, x in enumerate(parts) if is_const(x)]
            shaped = [y for x in parts for y in subterms(x) if y.op == "app" and y.a[0].split("::")[-1] == "into_shape" and
                      any(z is params(rn)[1] for z in subterms(y.a[1])) and y.a[2].op == "st" and len(y.a[2].a[2]) == 2]
            for y in shaped:
                ctx.ob("as many features as the weights are for, without the intercept", con, shape(y.a[2].a[2], {0: (1,), 1: (6,)}, lambda z:
                       {"0": 7, "1": 3}[z.a[1]] if z.op == "f" and z.a[1] in ("0", "1") and z.a[0].op == "app" and z.a[0].a[0].split("::")[-1] == "dim" and
                       z.a[0].a[1] is fld(params(rn)[0], "weights") else None), show(y, 5), where(rn))
            ctx.ob("the constant feature multiplying the intercept is one", con, True if ones else
                   (False if consts else None), show(st[0], 5), where(rn))
            if ones and pos is not None:
                ctx.ob("the constant feature is at the position of the intercept", con, ones[0] == pos,
                       "%d / %d" % (ones[0], pos), where(rn))
            ctx.ob("the constant feature extends the feature row", con, axis(st[0]) == 1 if axis(st[0]) is not None else None,
                   show(st[0], 4), where(rn))
            ctx.ob("decisions are the features times the weights", con,
                   True if fld(params(rn)[0], "weights") is d.a[2] else None, show(d, 4), where(rn))
    # stored coefficients: one row per class
    b = ctx.anchor("LogRegIntentClassifier::from_path")
    if b is None:
        return
    fp = ctx.prog.find("Featurizer::from_path", optional=True)
    e, rs = ctx.run(b, params(b), opaque={x["id"] for x in (fp, new) if x})
    con = "LogRegIntentClassifier::from_path"
    w = where(b)
    for s, r in results(rs):
        lst = fld(r, "intent_list")
        ctx.ob("the trained list is the model's", con, True if lst.op == "f" and lst.a[1] == "intent_list" else
               verdict(False, lst, e) if lst.op != "f" else None, show(lst, 4), w)
        for y in subterms(fld(r, "logreg")):
            if y.op == "app" and y.a[0] == new["path"]:
                m = y.a[2]
                if not (m.op == "app" and m.a[0] == "tabulate"):
                    ctx.ob("stored coefficients are transposed", con, None, show(m, 5), w)
                    continue
                if m.a[1].op == "st" and len(m.a[1].a[2]) == 2:
                    def size(z):
                        if z.op != "app":
                            return None
                        if z.a[0] == "len" and z.a[1].op == "app" and z.a[1].a[0] in ("idx", "get!") or z.a[0] == "len" and z.a[1].op == "elem":
                            return 7
                        if z.a[0].split("::")[-1] in ("dim", "len") and any(q.op == "f" and q.a[1] == "intercept" for q in subterms(z)) or \
                                z.a[0] == "len" and any(q.op == "f" and q.a[1] == "coeffs" for q in subterms(z)):
                            return 3
                        return None
                    ctx.ob("as many weights as there are coefficients", con, shape(m.a[1].a[2], {0: (7, 0), 1: (3,)}, size), show(m.a[1], 5), w)
                v = m.a[2]
                i, j = sym("#0"), sym("#1")
                good = v.op == "app" and v.a[0] == "idx" and v.a[2] is i and v.a[1].op == "app" and \
                    v.a[1].a[0] == "idx" and v.a[1].a[2] is j
                swapped = v.op == "app" and v.a[0] == "idx" and v.a[2] is j and v.a[1].op == "app" and \
                    v.a[1].a[0] == "idx" and v.a[1].a[2] is i
                ctx.ob("stored coefficients are transposed", con, True if good else (False if swapped or displaced(v, i, j) else None),
                       show(v, 5), w)
                ic = y.a[1]
                src = [z for z in subterms(ic) if z.op == "f" and z.a[1] == "intercept"]
                cs = [z for z in subterms(v) if z.op == "f" and z.a[1] == "coeffs"]
                ctx.ob("intercept and coefficients keep their roles", con, True if src and cs else None, show(ic, 4), w)
    none_when = [(s, r) for s, r in results(rs) if fld(r, "logreg").op == "en" and fld(r, "logreg").a[1] == "None"]
    for s, r in none_when:
        missing = any(not p and t.op == "is" and t.a[1] == "Some" and t.a[0].op == "f" and
                      t.a[0].a[1] in ("coeffs", "intercept") for t, p in s.facts)
        ctx.ob("the decision function is only left out when the model has none", con,
               True if missing else (False if not s.facts or not any(opaque_parts(t, None) for t, _ in s.facts) else None),
               "; ".join(show(t, 3) for t, p in s.facts)[:300], w)
    both = [1 for s, r in results(rs) for q in alts(fld(r, "logreg"))
            if any(y.op == "app" and y.a[0] == new["path"] for y in subterms(q))]
    ctx.ob("the decision function is loaded when the model has one", con, bool(both), "", w)
