"""Interned value terms of the abstract domain, with normalising constructors.

A term is immutable and unique (identity equality).  Collections are abstracted by *generators*:
(value, facts, bound) triples meaning "some instance of `value`, for which `facts` hold", with `bound` the
iteration tags that are universally generic in it.
"""

_tab = {}
_ctr = [0]


class V:
    __slots__ = ("op", "a", "id", "tags", "size", "_r")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id      # the same in every run, so that sets are walked in the same order


def _tags_of(x):
    if isinstance(x, V):
        return x.tags
    if isinstance(x, (tuple, frozenset)):
        r = frozenset()
        for y in x:
            t = _tags_of(y)
            if t:
                r = r | t if r else t
        return r
    return frozenset()


def _size_of(x):
    if isinstance(x, V):
        return x.size
    if isinstance(x, (tuple, frozenset)):
        return sum(_size_of(y) for y in x)
    return 0


def mk(op, *a):
    k = (op,) + a
    v = _tab.get(k)
    if v is None:
        v = V()
        v.op = op
        v.a = a
        _ctr[0] += 1
        v.id = _ctr[0]
        t = frozenset()
        for x in a:
            y = _tags_of(x)
            if y:
                t = t | y
        if op == "elem":
            t = t | frozenset([a[1]])
        if op == "phi":
            t = t | frozenset([a[0]])
        v.tags = t
        v.size = min(10 ** 9, 1 + sum(_size_of(x) for x in a))
        v._r = None
        _tab[k] = v
    return v


# ---------------------------------------------------------------- constructors

def C(kind, val):
    return mk("c", kind, val)


TRUE = C("bool", True)
FALSE = C("bool", False)
UNIT = mk("st", "()", (), ())


def B(b):
    return TRUE if b else FALSE


def I(n):
    return C("int", n)


def S(s):
    return C("str", s)


def sym(name):
    return mk("s", name)


def app(op, *args):
    return mk("app", op, *args)


def top(label):
    return mk("top", label)


def tup(*vals):
    return mk("st", "()", tuple(str(i) for i in range(len(vals))), tuple(vals))


def struct(d, names, vals):
    return mk("st", d, tuple(names), tuple(vals))


def enum(d, variant, names=(), vals=()):
    return mk("en", d, variant, tuple(names), tuple(vals))


OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
NONE = enum(OPT, "None")


def some(x):
    return enum(OPT, "Some", ("0",), (x,))


def ok(x):
    return enum(RES, "Ok", ("0",), (x,))


def err(x):
    return enum(RES, "Err", ("0",), (x,))


def is_const(v):
    return v.op == "c"


def elem(src, tag):
    return mk("elem", src, tag)


# ---------------------------------------------------------------- projections

def fld(x, name):
    name = str(name)
    op = x.op
    if op == "st":
        if name in x.a[1]:
            return x.a[2][x.a[1].index(name)]
        if name.isdigit() and int(name) < len(x.a[2]) and x.a[0] != "()":
            return x.a[2][int(name)]
    elif op == "upd":
        if x.a[1] == name:
            return x.a[2]
        return fld(x.a[0], name)
    elif op == "u":
        vals = tuple(sorted({fld(y, name) for y in x.a[0]}, key=lambda t: t.id))
        return vals[0] if len(vals) == 1 else mk("u", vals)
    elif op == "cl":
        if name.isdigit() and int(name) < len(x.a[2]):
            return x.a[2][int(name)]
        if name in x.a[1]:
            return x.a[2][x.a[1].index(name)]
    elif op == "app" and x.a[0] == "range":
        if name in ("start", "0"):
            return x.a[1]
        if name in ("end", "1"):
            return x.a[2]
    return mk("f", x, name)


def vfld(x, variant, name):
    name = str(name)
    if x.op == "en":
        if x.a[1] == variant and name in x.a[2]:
            return x.a[3][x.a[2].index(name)]
        return mk("vf", x, variant, name)
    if x.op == "u":
        c = [y for y in x.a[0] if y.op != "en" or y.a[1] == variant]
        vals = tuple(sorted({vfld(y, variant, name) for y in c}, key=lambda t: t.id))
        if vals:
            return vals[0] if len(vals) == 1 else mk("u", vals)
    return mk("vf", x, variant, name)


def pay(x):
    """payload of Some/Ok"""
    if x.op == "en":
        return vfld(x, x.a[1], "0")
    return mk("pay", x)


def with_field(x, name, v):
    name = str(name)
    if x.op == "st" and name in x.a[1]:
        i = x.a[1].index(name)
        return mk("st", x.a[0], x.a[1], x.a[2][:i] + (v,) + x.a[2][i + 1:])
    if x.op == "cl" and name.isdigit() and int(name) < len(x.a[2]):
        i = int(name)
        return mk("cl", x.a[0], x.a[1], x.a[2][:i] + (v,) + x.a[2][i + 1:])
    if x.op == "upd" and x.a[1] == name:
        return with_field(x.a[0], name, v)
    if x.op == "u":
        vals = tuple(sorted({with_field(y, name, v) for y in x.a[0]}, key=lambda t: t.id))
        return vals[0] if len(vals) == 1 else mk("u", vals)
    if fld(x, name) is v:
        return x
    return mk("upd", x, name, v)


def with_vfield(x, variant, name, v):
    name = str(name)
    if x.op == "en" and x.a[1] == variant and name in x.a[2]:
        i = x.a[2].index(name)
        return mk("en", x.a[0], variant, x.a[2], x.a[3][:i] + (v,) + x.a[3][i + 1:])
    if vfld(x, variant, name) is v:
        return x
    return mk("vupd", x, variant, name, v)


# ---------------------------------------------------------------- integers: linear normal form

def lin_parts(v):
    """(const, {term: coef})"""
    if v.op == "c" and v.a[0] == "int":
        return v.a[1], {}
    if v.op == "lin":
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def mklin(c, m):
    items = tuple(sorted(((t, k) for t, k in m.items() if k != 0), key=lambda p: p[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, sb=1):
    ca, ma = lin_parts(a)
    cb, mb = lin_parts(b)
    for t, k in mb.items():
        ma[t] = ma.get(t, 0) + sb * k
    return mklin(ca + sb * cb, ma)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, m = lin_parts(a)
    return mklin(c * k, {t: q * k for t, q in m.items()})


# ---------------------------------------------------------------- booleans

def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.a[0]
    return mk("not", b)


def ge0(l):
    c, m = lin_parts(l)
    if not m:
        return B(c >= 0)
    return mk("ge0", l)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        if a.a[0] == b.a[0]:
            return B(a.a[1] == b.a[1])
        return FALSE
    if a.op == "en" and b.op == "en":
        if a.a[1] != b.a[1]:
            return FALSE
        if not a.a[3] and not b.a[3]:
            return TRUE
        if len(a.a[3]) == 1 and len(b.a[3]) == 1:
            return eq(a.a[3][0], b.a[3][0])
    if a.op == "en" and not a.a[3]:
        return isv(b, a.a[1])
    if b.op == "en" and not b.a[3]:
        return isv(a, b.a[1])
    if a.op == "c" and a.a[0] == "bool":
        return b if a.a[1] else neg(b)
    if b.op == "c" and b.a[0] == "bool":
        return a if b.a[1] else neg(a)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


DUAL = {"None": "Some", "Err": "Ok", "Break": "Continue"}


def isv(x, variant):
    if x.op == "en":
        return B(x.a[1] == variant)
    if variant in DUAL:
        return mk("not", mk("is", x, DUAL[variant]))
    return mk("is", x, variant)


# ---------------------------------------------------------------- collections

def gen(val, facts=frozenset(), bound=frozenset()):
    return (val, facts, bound)


def _norm_gens(gens):
    out = []
    seen = {}
    for (v, f, b) in gens:
        seen.setdefault((v, b), []).append(f)
    for (v, b), fs in seen.items():
        keep = []
        for f in sorted(set(fs), key=len):
            if not any(g <= f for g in keep):
                keep.append(f)
        for f in keep:
            out.append((v, f, b))
    out.sort(key=lambda g: (g[0].id, len(g[1]), sorted(t.id * 2 + p for t, p in g[1])))
    return tuple(out)


def coll(kind, gens, order=None):
    """order: a term describing the order (None unknown)"""
    return mk("coll", kind, _norm_gens(gens), order)


def seq(kind, items):
    return mk("list", kind, tuple(items))


def gens_of(v):
    if v.op == "list":
        return tuple((x, frozenset(), frozenset()) for x in v.a[1])
    if v.op == "coll":
        return v.a[1]
    return None


# ---------------------------------------------------------------- substitution

def subst(x, m, memo=None):
    """Replaces terms (keys of m) in a term / tuple / frozenset of facts."""
    if memo is None:
        memo = {}
    return _subst(x, m, memo)


def _subst(x, m, memo):
    if isinstance(x, V):
        r = m.get(x)
        if r is not None:
            return r
        if x.op in ("c", "s", "top"):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        na = tuple(_subst(y, m, memo) for y in x.a)
        r = x if na == x.a else rebuild(x.op, na)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(_subst(y, m, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_subst(y, m, memo) for y in x)
    return x


def rebuild(op, a):
    if op == "f":
        return fld(*a)
    if op == "vf":
        return vfld(*a)
    if op == "pay":
        return pay(*a)
    if op == "not":
        return neg(*a)
    if op == "eq":
        return eq(*a)
    if op == "is":
        return isv(*a)
    if op == "ge0":
        return ge0(*a)
    if op == "lin":
        r = I(a[0])
        for t, k in a[1]:
            r = add(r, scale(t, k))
        return r
    if op == "coll":
        return coll(a[0], a[1], a[2])
    if op == "u":
        vs = tuple(sorted(set(a[0]), key=lambda t: t.id))
        return vs[0] if len(vs) == 1 else mk("u", vs)
    return mk(op, *a)


def retag(x, f, memo=None):
    """Renames iteration tags: f(tag) -> tag."""
    if memo is None:
        memo = {}
    if isinstance(x, V):
        if not x.tags:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if all(f(t) == t for t in x.tags):
            memo[x] = x
            return x
        if x.op == "elem":
            r = elem(retag(x.a[0], f, memo), f(x.a[1]))
        elif x.op == "phi":
            r = mk("phi", f(x.a[0]), *x.a[1:])
        elif x.op == "coll":
            gens = []
            for (v, fs, b) in x.a[1]:
                if b:
                    # one set of results for all elements that bind the same tags
                    g, m = memo.setdefault(("bound", b), ((lambda t, b=b: t if t in b else f(t)), {}))
                    gens.append((retag(v, g, m), retag(fs, g, m), b))
                else:
                    gens.append((retag(v, f, memo), retag(fs, f, memo), b))
            r = coll(x.a[0], gens, retag(x.a[2], f, memo) if x.a[2] is not None else None)
        else:
            na = tuple(retag(y, f, memo) for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(retag(y, f, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(retag(y, f, memo) for y in x)
    return x


def subterms(x, out=None):
    """All terms inside a term (including generators), outermost first."""
    if out is None:
        out = {}
    if isinstance(x, V):
        if x in out:
            return out
        out[x] = None
        for y in x.a:
            subterms(y, out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            subterms(y, out)
    return out


# ---------------------------------------------------------------- printing

def short(d):
    return d.split("::")[-1] if isinstance(d, str) else str(d)


def show(x, depth=7):
    if isinstance(x, (tuple, list)):
        return "(" + ", ".join(show(y, depth) for y in x) + ")"
    if isinstance(x, frozenset):
        return "{" + ", ".join(sorted(show(y, depth) for y in x)) + "}"
    if not isinstance(x, V):
        return str(x)
    if depth <= 0:
        return "…"
    op, a = x.op, x.a
    d = depth - 1
    if op == "c":
        return repr(a[1])
    if op == "s":
        return a[0]
    if op == "st":
        if a[0] == "()":
            return "(" + ", ".join(show(v, d) for v in a[2]) + ")"
        return short(a[0]) + "{" + ", ".join("%s: %s" % (n, show(v, d)) for n, v in zip(a[1], a[2])) + "}"
    if op == "en":
        return a[1] + ("(" + ", ".join(show(v, d) for v in a[3]) + ")" if a[3] else "")
    if op == "app":
        return short(a[0]) + "(" + ", ".join(show(v, d) for v in a[1:]) + ")"
    if op == "f":
        return show(a[0], d) + "." + a[1]
    if op == "vf":
        return show(a[0], d) + "@" + a[1] + "." + a[2]
    if op == "pay":
        return show(a[0], d) + "?"
    if op == "elem":
        return "elem<%s>(%s)" % (short_tag(a[1]), show(a[0], d))
    if op == "lin":
        return " + ".join(([str(a[0])] if a[0] else []) + ["%s%s" % ("" if k == 1 else "%d*" % k, show(t, d)) for t, k in a[1]])
    if op == "not":
        return "!" + show(a[0], d)
    if op == "eq":
        return "%s == %s" % (show(a[0], d), show(a[1], d))
    if op == "is":
        return "%s is %s" % (show(a[0], d), a[1])
    if op == "ge0":
        return "%s >= 0" % show(a[0], d)
    if op == "coll":
        return "%s{%s}" % (a[0], " | ".join(show(g[0], d) + (" if " + " & ".join(sorted(("" if p else "!") + show(t, min(d, 4)) for t, p in g[1])) if g[1] else "") for g in a[1])) + (("^" + show(a[2], 3)) if a[2] is not None else "")
    if op == "list":
        return "%s[%s]" % (a[0], ", ".join(show(v, d) for v in a[1]))
    if op == "cl":
        return "closure(%s)" % short(a[0])
    if op == "fn":
        return "fn(%s)" % short(a[0])
    if op == "ptr":
        return "&mut %s%s" % (a[0], a[1])
    if op == "u":
        return "(" + " | ".join(show(v, d) for v in a[0]) + ")"
    if op == "top":
        return "⊤%s" % a[0]
    return op + "(" + ", ".join(show(v, d) for v in a) + ")"


def short_tag(t):
    return str(t)[-10:]
