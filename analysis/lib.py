"""Helpers shared by the checks: enumerating results, proving facts about them, following opaque calls."""

from .terms import *
from . import engine
from .engine import decide, State
from .check import Inconclusive, where


def params(body):
    """One symbol per parameter, named as in the source where the compiler kept the name."""
    names = {v[1]: v[0] for v in body["vars"] if isinstance(v[1], int)}
    return [sym(names.get(i + 1, "arg%d" % (i + 1))) for i in range(body["argc"])]


def alts(v, depth=6):
    """The alternatives of a value (unions pushed out of enum payloads and struct fields are kept inside)."""
    if v.op == "u":
        out = []
        for x in v.a[0]:
            out.extend(alts(x, depth))
        return out
    if v.op == "en" and len(v.a[3]) == 1 and depth:
        xs = alts(v.a[3][0], depth - 1)
        if len(xs) > 1 or xs[0] is not v.a[3][0]:
            return [mk("en", v.a[0], v.a[1], v.a[2], (x,)) for x in xs]
    return [v]


def results(rs, variant="Ok"):
    """(state, payload) for every returned alternative of a variant; raises if some return is not an enum."""
    for s, r in rs:
        for v in alts(r):
            if v.op == "en":
                if v.a[1] == variant:
                    yield s, (v.a[3][0] if v.a[3] else UNIT)
                continue
            d = decide(s.facts, isv(v, variant))
            if d is not False:
                yield s, vfld(v, variant, "0")


def opaque_parts(v, e=None):
    """Sub-terms the analysis knows nothing about."""
    out = []
    for x in subterms(v):
        if x.op == "top" or x.op == "phi" or e is not None and x in e.guarded:
            out.append(x)
        elif x.op == "app" and x.a[0] in ("apply", "callconst", "rec-closure", "after"):
            out.append(x)
        elif e is not None and x.op == "app" and x.a[0] in e.unknown_names:
            out.append(x)
    return out


def equals_of(facts, x):
    """Terms known equal to x."""
    out = [x]
    i = 0
    while i < len(out):
        for t, p in facts:
            if p and t.op == "eq":
                a, b = t.a
                for y, z in ((a, b), (b, a)):
                    if y is out[i] and z not in out:
                        out.append(z)
        i += 1
    return out


def strip_list(x):
    """Identity-like views of a collection."""
    while x.op == "app" and x.a[0] in ("slice", "iter", "deref") and len(x.a) == 2:
        x = x.a[1]
    return x


def repeated(c):
    """(x, n) of a collection that holds the same value n times."""
    gs = gens_of(c) if c.op == "coll" else None
    if not gs or len(gs) != 1 or c.a[2].op != "app" or c.a[2].a[0] != "o_src":
        return None
    r = c.a[2].a[1]
    if r.op != "app" or r.a[0] != "range" or r.a[1] is not C("int", 0) or any(y.op == "elem" and y.a[0] is r for y in subterms(gs[0][0])):
        return None
    return gs[0][0], r.a[2]


def instances(facts, xs):
    """The facts, with every universally quantified one instantiated at the given terms (where its range allows)."""
    out = set(facts)
    for t, p in facts:
        if t.op != "forall" or not p:
            continue
        tag, body, pol = t.a[0], t.a[1], t.a[2]
        base = t.a[3] if len(t.a) > 3 else frozenset()
        els = {y for y in subterms(body) if y.op == "elem" and y.a[1] == tag}
        for el in els:
            src = el.a[0]
            for x in xs:
                if (app("contains", src, x), True) not in facts:
                    continue
                m = {el: x}
                if all((subst(c, m), q) in facts or decide(facts, subst(c, m)) is q for c, q in base):
                    out.add((subst(body, m), bool(pol)))
    return frozenset(out)


def holds(e, facts, goal, pol=True):
    """Is `goal` (with polarity) a consequence of the facts?  True / None."""
    if any(t.op == "forall" for t, p in facts):
        xs = {t.a[2] for t, p in facts if p and t.op == "app" and t.a[0] == "contains"}
        facts = instances(facts, xs)
    st = State({}, frozenset(facts), frozenset())
    if e.assume(st, goal, not pol) is None:
        return True
    if goal.op == "app" and goal.a[0] == "contains" and pol:
        c, x = goal.a[1], goal.a[2]
        for y in equals_of(facts, x):
            g = app("contains", c, y)
            if e.assume(st, g, False) is None:
                return True
        gs = gens_of(c)
        if gs is not None:
            for v, conds, bound in gs:
                m = {}
                from .engine import unify
                if unify(v, x, bound, m):
                    if all(holds(e, facts, subst(t, m), p) for t, p in conds):
                        return True
    return None


def callee(ctx, v):
    """The local function an opaque application stands for, with its arguments."""
    if v.op != "app":
        return None
    for c in ctx.prog.crates.values():
        for b in c.bodies.values():
            if b["path"] == v.a[0] or engine.norm_name(b["path"]) == v.a[0]:
                if "::promoted[" not in b["id"] and b["argc"] == len(v.a) - 1:
                    return b, v.a[1:]
    return None


def unfold(ctx, v, cache={}):
    """Possible values of a projection of the result of a call left opaque, or None.

    `v` is a chain of field / variant projections over an application of a local function; the function is
    analysed separately and its parameters replaced by the arguments."""
    chain = []
    x = v
    while x.op in ("f", "vf"):
        chain.append(x)
        x = x.a[0]
    c = callee(ctx, x)
    if c is None:
        return None
    b, args = c
    key = (b["id"],)
    if key not in cache:
        ps = [sym("%s#%d" % (b["path"], i)) for i in range(b["argc"])]
        e, rs = ctx.run(b, ps)
        cache[key] = (ps, rs)
    ps, rs = cache[key]
    m = {p: a for p, a in zip(ps, args)}
    out = []
    for s, r in rs:
        for y in alts(r):
            ok_ = True
            for pr in reversed(chain):
                if pr.op == "vf":
                    if y.op == "en" and y.a[1] != pr.a[1]:
                        ok_ = False
                        break
                    y = vfld(y, pr.a[1], pr.a[2])
                else:
                    y = fld(y, pr.a[1])
            if ok_:
                for z in alts(y):
                    z = subst(z, m)
                    if z not in [o for o in out]:
                        out.append(z)
    return out


def tail_calls(v, name):
    return [y for y in subterms(v) if y.op == "app" and y.a[0] == name]


def delegates(ctx, body, target, args, con, rule):
    """`body` returns exactly what `target` returns for the given arguments.

    First with calls to the target left opaque; when the function does not call it (its code may have been
    inlined), the summaries of both are compared."""
    ps = params(body)
    exp = args(ps)
    e, rs = ctx.run(body, ps, opaque={target["id"]}, slice_on=True, focus=ps)
    name = None
    seen = []
    for s, r in rs:
        for v in alts(r):
            w = v
            if v.op == "en" and v.a[1] in ("Ok", "Err") and v.a[3]:
                w = v.a[3][0]
                while w.op in ("vf",):
                    w = w.a[0]
            seen.append(w)
    calls = [w for w in seen if w.op == "app" and callee(ctx, w) and callee(ctx, w)[0]["id"] == target["id"]]
    if calls and len(calls) == len(seen):
        for w in calls:
            same = list(w.a[1:]) == list(exp)
            st = True if same else (None if opaque_parts(w, e) else False)
            ctx.ob(rule, con, st, "calls %s, expected arguments %s" % (show(w, 4), ", ".join(show(x, 3) for x in exp)),
                   where(body))
        return
    # compare summaries
    e1, r1 = ctx.run(body, ps)
    e2, r2 = ctx.run(target, exp)
    k1 = summary_key(r1)
    k2 = summary_key(r2)
    if k1 == k2:
        ctx.ob(rule, con, True, "equal summaries (%d results)" % len(r1), where(body))
    else:
        ctx.ob(rule, con, None, "not a plain delegation and the summaries differ", where(body))


def summary_key(rs):
    import re
    out = set()
    for s, r in rs:
        out.add(re.sub(r"<[^<>]*>|\\([LA]?\\d[^()]*\\)", "", show(r, 40)))
    return out


class NoValue(Exception):
    pass


def ieee_div(x, y):
    import math
    if y != 0:
        return x / y
    if x == 0 or x != x:
        return math.nan
    return math.inf if (x > 0) == (math.copysign(1, y) > 0) else -math.inf


def num(t, env):
    """The value of a numeric term when its leaves have the values env(leaf) gives; raises NoValue otherwise."""
    import math
    x = env(t)
    if x is not None:
        return x
    if t.op == "c":
        if t.a[0] == "float":
            return float(t.a[1])
        if isinstance(t.a[1], (int, float)) and not isinstance(t.a[1], bool):
            return t.a[1]
        raise NoValue(t)
    if t.op == "lin":
        return t.a[0] + sum(k * num(y, env) for y, k in t.a[1])
    if t.op == "app":
        n, a = t.a[0], t.a[1:]
        m = n.split("::")[-1]
        if n.startswith("cast:"):
            v = num(a[0], env)
            return float(v) if n in ("cast:f32", "cast:f64") else int(v)
        try:
            if n == "mul":
                return num(a[0], env) * num(a[1], env)
            if n in ("op:Div", "op:Rem", "op:Shr", "op:Shl"):
                x, y = num(a[0], env), num(a[1], env)
                if not (isinstance(x, int) and isinstance(y, int)) or x < 0 or y < 0 or y == 0 and n in ("op:Div", "op:Rem"):
                    raise NoValue(t)
                return x // y if n == "op:Div" else x % y if n == "op:Rem" else x >> y if n == "op:Shr" else x << min(y, 64)
            if n == "fadd":
                return num(a[0], env) + num(a[1], env)
            if n == "fsub":
                return num(a[0], env) - num(a[1], env)
            if n == "fmul":
                return num(a[0], env) * num(a[1], env)
            if n == "fdiv":
                return ieee_div(num(a[0], env), num(a[1], env))
            if n == "fneg":
                return -num(a[0], env)
            if m == "saturating_sub" and len(a) == 2:
                return max(0, num(a[0], env) - num(a[1], env))
            if m == "powi" or m == "powf":
                return num(a[0], env) ** num(a[1], env)
            if m == "exp":
                x = num(a[0], env)
                return math.inf if x > 700 else math.exp(x)
            if m == "ln":
                return math.log(num(a[0], env))
            if m == "sqrt":
                return math.sqrt(num(a[0], env))
            if m in ("floor", "ceil", "trunc", "abs") and len(a) == 1:
                return float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "abs": abs}[m](num(a[0], env)))
            if m == "round" and len(a) == 1:
                x = num(a[0], env)
                return math.copysign(math.floor(abs(x) + 0.5), x)
            if m == "tanh":
                return math.tanh(num(a[0], env))
            if m == "recip":
                return 1.0 / num(a[0], env)
            if n == "max" or m == "max" and len(a) == 2:
                return max(num(y, env) for y in a)
            if n == "min" or m == "min" and len(a) == 2:
                return min(num(y, env) for y in a)
        except (ZeroDivisionError, OverflowError, ValueError):
            raise NoValue(t)
    raise NoValue(t)


INF = float("inf")


def interval(t, leaf=None):
    """Bounds of a real-valued term whose leaves are any finite numbers (rounding ignored: IEEE operations are monotone)."""
    import math
    if leaf is not None:
        r = leaf(t)
        if r is not None:
            return r
    if t.op == "c":
        try:
            return (float(t.a[1]),) * 2
        except (TypeError, ValueError):
            return (-INF, INF)
    if t.op == "u":
        rs = [interval(x, leaf) for x in t.a[0]]
        return min(r[0] for r in rs), max(r[1] for r in rs)
    if t.op == "app":
        n, a = t.a[0], t.a[1:]
        if n in ("cast:f32", "cast:f64"):
            return interval(a[0], leaf)
        if n in ("len", "count", "charlen"):
            return 0.0, INF
        if n == "fneg":
            lo, hi = interval(a[0], leaf)
            return -hi, -lo
        if n in ("fadd", "fsub", "fmul", "fdiv"):
            (l1, h1), (l2, h2) = interval(a[0], leaf), interval(a[1], leaf)
            if n == "fadd":
                return l1 + l2, h1 + h2
            if n == "fsub":
                return (l1 - h2 if not (math.isinf(l1) and l1 == h2) else -INF,
                        h1 - l2 if not (math.isinf(h1) and h1 == l2) else INF)
            if n == "fdiv":
                if l2 <= 0 <= h2:
                    if l2 == 0 and l1 >= 0:
                        return (0.0 if h2 == INF else l1 / h2), INF
                    return -INF, INF
                l2, h2 = (0.0 if h2 == INF else 1 / h2), (0.0 if l2 == -INF else 1 / l2)
            ps = [0.0 if x == 0 or y == 0 else x * y for x in (l1, h1) for y in (l2, h2)]
            return min(ps), max(ps)
        if n.endswith("exp"):
            lo, hi = interval(a[0], leaf)
            ex = lambda x: 0.0 if x == -INF else INF if x > 700 else math.exp(x)
            return ex(lo), ex(hi)
        if n.endswith("abs"):
            lo, hi = interval(a[0], leaf)
            return (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), max(abs(lo), abs(hi))
        if n.endswith("tanh"):
            return -1.0, 1.0
        if n == "max":
            rs = [interval(x, leaf) for x in a]
            return max(r[0] for r in rs), max(r[1] for r in rs)
        if n == "min":
            rs = [interval(x, leaf) for x in a]
            return min(r[0] for r in rs), min(r[1] for r in rs)
    return -INF, INF


def slope(t, leaf):
    """+1 / -1: strictly increasing / decreasing in the leaf; 0: independent of it; None: unknown."""
    if leaf(t):
        return 1
    if not any(leaf(y) for y in subterms(t)):
        return 0
    if t.op != "app":
        return None
    n, a = t.a[0], t.a[1:]
    if n == "fneg":
        r = slope(a[0], leaf)
        return None if r is None else -r
    if n.startswith("cast:f") or n.endswith("exp") or n.endswith("tanh"):
        return slope(a[0], leaf)
    if n in ("fadd", "fsub", "fmul", "fdiv"):
        x, y = slope(a[0], leaf), slope(a[1], leaf)
        if x is None or y is None:
            return None
        if n == "fsub":
            y = -y
        if n in ("fadd", "fsub"):
            if x == 0:
                return y
            if y == 0 or x == y:
                return x
            return None
        li, ri = interval(a[0]), interval(a[1])
        sg = lambda i: 1 if i[0] > 0 or (i[0] == 0 and i[1] > 0) else -1 if i[1] < 0 else 0 if i == (0.0, 0.0) else None
        s1, s2 = sg(li), sg(ri)
        if n == "fdiv":
            y = -y
        if y == 0:
            return None if s2 is None else x * s2
        if x == 0:
            return None if s1 is None else y * s1
        if s1 is None or s2 is None:
            return None
        return x * s2 if x * s2 == y * s1 else None
    return None


def untagged(t):
    """The term with all element tags made equal (elements of the same sequence become the same)."""
    return retag(t, lambda x: "*")


def selecting(e, facts, conds):
    """The conditions of a generator that select among elements: neither facts of the whole path nor the absence of a
    panic."""
    surv = {(untagged(t), p) for t, p in e.survived}
    return [(t, p) for t, p in conds if (t, p) not in facts and (untagged(t), p) not in surv and
            decide(facts, t) is not p and not (p and range_bound(t))]


def range_bound(t):
    """Only says that an index of a range lies within the range."""
    if t.op != "ge0":
        return False
    for q in subterms(t):
        if q.op == "elem" and q.a[0].op == "app" and q.a[0].a[0] == "range":
            lo, hi = q.a[0].a[1:3]
            if t is ge0(sub(q, lo)) or t is ge0(sub(sub(hi, q), C("int", 1))) or t is ge0(sub(hi, q)) or t is ge0(q):
                return True
    return False


def outside(t, names):
    """Subterms that are not below an application of one of the names."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)):
            todo.extend(x)
        elif isinstance(x, V) and x not in seen:
            seen.add(x)
            yield x
            if not (x.op == "app" and x.a[0] in names):
                todo.extend(x.a)


def cuts(e, el):
    """Is an element known to come from only a part of what it is an element of?  (followed through collections)"""
    from .models import cut_of
    inv = {v: k[0] for k, v in e.freshtab.items()}
    t, seen = el.a[1].rstrip("~"), set()
    while t is not None and t not in seen:
        seen.add(t)
        o = e.orders.get(t)
        if o is not None and cut_of(o) is not None:
            return cut_of(o)
        t = inv.get(t)
        t = t.rstrip("~") if t is not None else None
    return None


def early(e, s):
    """The iterators of the loops that a path left before they had given everything."""
    return [h.a[2] for h in s.hist if h.op == "app" and h.a[0] == "·left"]


def walked(e):
    """Loop -> the iterator it walks"""
    return {"L%s:%s" % k: it for k, it in e.sources.items()}
