"""C12: the resources a model asks for are there, its own, and mean what their files say."""
from ..check import check, where
from ..engine import Cfg, decide
from ..lib import *
from ..models import MODELS, cut_of
from ..terms import *
from .loading import Loader, both, last, loaded, model_field, optional, part, read_of, single_gen, some_of, sub, text

LANGUAGES = 9
CSV = ("get", "records", "into_records", "from_reader", "has_headers", "quoting", "delimiter", "flexible", "new", "open")


def map_insert(e, st, a, site):
    return MODELS["HashMap::insert"](e, st, a, site)


def opened(t):
    """The path term of the file a reader reads."""
    for y in subterms(t):
        if y.op == "app" and (y.a[0].endswith("File::open") or y.a[0] in ("std::fs::read_to_string", "std::fs::read")):
            return y.a[1]
    return None


def txt(L, pred):
    """A path component `<name>.txt`, the name satisfying the predicate."""
    def f(c):
        if c.op == "app" and c.a[0] == "ext":
            return both(pred(c.a[1]), text(c.a[2]) == "txt" if text(c.a[2]) is not None else None)
        if c.op == "app" and any(pred(q) is True for q in subterms(c)):
            return None         # spelled in another way
        return None if opaque_parts(c, L.e) else False
    return f


def same_elem(el):
    return lambda c: True if c is el else False


def named(L, s, v, fname, wire, directory, loader):
    """A table of resources: each listed name has the content of its own file."""
    rule = "each listed resource is read from its own file and known under its own name"
    x = sub(v, fname, lambda t: None)
    has = optional(L, s, wire, "metadata.json")
    con = "%s: %s" % (L.name, wire)
    if x is None or has is None:
        L.ctx.ob(rule, con, None, "option not looked at" if has is None else "no field", L.w)
        return
    gs = gens_of(x)
    if not has:
        L.ctx.ob(rule, con + ": none", None if gs is None else not gs, show(x, 4), L.w)
        return
    if gs is not None and not gs:
        L.ctx.ob(rule, con, False, "nothing is loaded", L.w)
        return
    g = single_gen(L, rule, con, x, s)
    if not g:
        return
    src = L.field(wire, file="metadata.json")
    k, val = fld(g[0], "0"), fld(g[0], "1")
    L.ctx.ob(rule, con + ": name", src(k.a[0]) if k.op == "elem" else (None if opaque_parts(k, L.e) else False), show(k, 6), L.w)
    file_of(L, rule, con, val, loader, (directory, txt(L, same_elem(k))))


def file_of(L, rule, con, val, loader, want):
    a = loaded(val, loader)
    p = opened(a[0]) if a else None
    if p is None:
        L.ctx.ob(rule, con + ": file", None, show(val, 5), L.w)
        return
    L.ctx.ob(rule, con + ": file", L.at(p, *want), show(p, 6), L.w)


def shared_part(ctx):
    L = Loader(ctx, "load_shared_resources")
    for s, v in L.ok:
        for n, i, fn in (("builtin_entity_parser", 1, "CachingBuiltinEntityParser::from_path"),
                         ("custom_entity_parser", 2, "CachingCustomEntityParser::from_path")):
            def own(t, i=i, fn=fn):
                a = loaded(t, fn)
                if a is None:
                    return None if opaque_parts(t, L.e) or t.op == "st" else False
                return a[0] is L.ps[i]
            part(L, "entity parsers are loaded from their own directories", v, n, own)
        named(L, s, v, "gazetteers", "gazetteers", "gazetteers", "HashSetGazetteer::from_reader")
        named(L, s, v, "word_clusterers", "word_clusters", "word_clusters", "HashMapWordClusterer::from_reader")
        rule = "the stemmer is the listed one, there iff one is listed"
        x, has = sub(v, "stemmer", lambda t: None), optional(L, s, "stems", "metadata.json")
        p = some_of(x) if x is not None else None
        if p is None or has is None:
            ctx.ob(rule, L.name, None, show(x, 4) if x is not None else "no field", L.w)
        elif not has or p is False:
            ctx.ob(rule, L.name + (": present" if has else ": absent"), has is False and p is False, show(x, 4), L.w)
        else:
            file_of(L, rule, L.name + ": present", p, "HashMapStemmer::from_reader",
                    ("stemming", txt(L, L.field("stems", file="metadata.json"))))
        rule = "the stop words are the lines of the listed file"
        x, has = sub(v, "stop_words", lambda t: None), optional(L, s, "stop_words", "metadata.json")
        gs = gens_of(x) if x is not None else None
        if gs is None or has is None:
            ctx.ob(rule, L.name, None, show(x, 4) if x is not None else "no field", L.w)
        elif not has or not gs:
            ctx.ob(rule, L.name + (": some" if has else ": none"), (not has) and not gs, show(x, 4), L.w)
        else:
            r = lines(L, rule, L.name + ": some", x, s)
            if r:
                ctx.ob(rule, L.name + ": line", line_value(*r), show(r[0], 5), L.w)
            p = opened(gs[0][0])
            ctx.ob(rule, L.name + ": file", L.at(p, txt(L, L.field("stop_words", file="metadata.json"))) if p is not None else None,
                   show(p, 5) if p is not None else "", L.w)
    L.nothing_ignored()
    L = Loader(ctx, "load_engine_shared_resources")
    for s, v in L.ok:
        rule = "an assistant's resources are those of its own directory and language"
        f = "nlu_engine.json"
        if v.op == "app" and last(v.a[0]) == "load_shared_resources":
            a = v.a[1:]
        else:
            a = loaded(v, "load_shared_resources")
        if a is None:
            ctx.ob(rule, L.name, None, show(v, 4), L.w)
            continue
        lang = L.field("dataset_metadata", "language_code", file=f)

        def language(c):
            hit = [q for q in subterms(c) if q.op == "f" and lang(q) is True]
            # its written form, not an other one made from it
            if hit and any(q.op == "app" and last(q.a[0]) in ("to_uppercase", "to_ascii_uppercase", "replace", "strip_prefix", "strip_suffix",
                                                             "substring_with_char_range", "prefix_until_char_index", "suffix_from_char_index")
                           and any(y in hit for y in subterms(q)) for q in subterms(c)):
                return False
            return True if hit else (None if opaque_parts(c, L.e) else False)
        ctx.ob(rule, L.name + ": resources", L.at(a[0], "resources", language), show(a[0], 6), L.w)
        for i, n in ((1, "builtin_entity_parser"), (2, "custom_entity_parser")):
            ctx.ob(rule, "%s: %s" % (L.name, n), L.at(a[i], L.field(n, file=f)), show(a[i], 6), L.w)
    L.nothing_ignored()


def only_nonempty(L, s, conds, el):
    """True when elements are only left out for being empty."""
    sel = [(t, p) for t, p in selecting(L.e, s.facts, conds) if not (t.op == "app" and t.a[0] == "contains")]
    bad = []
    for t, p in sel:
        ok = t.op == "eq" and not p and any(x.op == "c" and x.a == ("int", 0) for x in t.a) and any(
            y.op == "app" and y.a[0] in ("len", "charlen") and el in set(subterms(y)) for y in t.a)
        ok = ok or (t.op == "app" and t.a[0] == "is_empty" and not p)
        ok = ok or (t.op == "ge0" and p and any(y.op == "app" and y.a[0] in ("len", "charlen") for y in subterms(t)) and
                    decide(frozenset(), t) is None and show(t).startswith("-1 + len("))
        if not ok:
            bad.append((t, p))
    return bad


def lines(L, rule, con, x, s, of=None):
    """The elements are those lines of a reader that are not empty."""
    gs = gens_of(x)
    if gs is None or len(gs) != 1:
        L.ctx.ob(rule, con, None, show(x, 4), L.w)
        return None
    v, conds, b = gs[0]
    els = [q for q in subterms(v) if q.op == "elem" and q.a[0].op == "app" and last(q.a[0].a[0]) in ("lines", "split_terminator")]
    if len(els) != 1:
        L.ctx.ob(rule, con, None, show(v, 5), L.w)
        return None
    bad = only_nonempty(L, s, conds, els[0])
    L.ctx.ob(rule, con, not bad, "left out unless " + " & ".join("%s%s" % ("" if p else "!", show(t, 5)) for t, p in bad) if bad else show(v, 4),
             L.w)
    return v, els[0]


def line_value(v, el):
    """The term is the line itself (unwrapped), nothing done to it."""
    return v is el or (v.op == "vf" and v.a[1] == "Ok" and v.a[0] is el)


def hashed(t):
    return t.a[1] if t.op == "app" and last(t.a[0]).startswith("hash_str") and len(t.a) == 2 else None


def options_of(ctx, L, x, want):
    """The options a csv reader was built with."""
    got = {}
    for q in subterms(x):
        if q.op == "app" and last(q.a[0]) in ("delimiter", "quoting", "has_headers", "flexible") and len(q.a) == 3 and q.a[2].op == "c":
            got.setdefault(last(q.a[0]), q.a[2].a[1])
    read = any(q.op == "app" and last(q.a[0]) in ("records", "into_records") for q in subterms(x))
    rule = "a resource file is read in its own format"
    for k, w in want.items():
        g = got.get(k)
        if g is None:
            ctx.ob(rule, "%s: %s" % (L.name, k), False if read else None, "library's default", L.w)
        else:
            ctx.ob(rule, "%s: %s" % (L.name, k), int(g) == int(w), "%s" % g, L.w)
    for q in subterms(x):
        if q.op == "app" and last(q.a[0]) in ("comment", "trim", "terminator", "escape", "double_quote", "ascii") and "csv" in q.a[0].lower() \
                and not (len(q.a) == 3 and q.a[2].op == "en" and q.a[2].a[1] in ("None", "CRLF")) \
                and not (len(q.a) == 3 and q.a[2] is TRUE and last(q.a[0]) == "double_quote"):
            ctx.ob(rule, "%s: %s" % (L.name, last(q.a[0])), False, "reads lines otherwise than they are written", L.w)


def column(t):
    """(record element, column index) of idx(record, i)."""
    if t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "app" and last(t.a[0].a[0]) == "get" and len(t.a[0].a) == 3:
        t = app("idx", *t.a[0].a[1:])
    if t.op == "app" and t.a[0] == "idx" and t.a[2].op == "c" and t.a[1].op in ("vf", "elem"):
        r = t.a[1]
        el = r.a[0] if r.op == "vf" else r
        if el.op == "elem" and el.a[0].op == "app" and last(el.a[0].a[0]) in ("records", "into_records"):
            return r, t.a[2].a[1]
    return None


def reworked(t):
    """Another text made of a column (lowercased, trimmed, …)."""
    from .loading import OTHER_TEXT
    return t.op == "app" and last(t.a[0]) in OTHER_TEXT and len(t.a) >= 2 and (column(t.a[1]) is not None or reworked(t.a[1]))


def reckoned(t):
    """Something reckoned from a column read as a number: not the number itself."""
    if t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "app" and t.a[0].a[0] == "from_str":
        return reworked(t.a[0].a[1])
    got = any(q.op == "app" and q.a[0] == "from_str" and column(q.a[1]) for q in subterms(t))
    return got and (t.op == "lin" or t.op == "app" and str(t.a[0]).startswith("op:"))


def form(t):
    """The record the term is one (any) form of."""
    if t.op == "elem":
        it = t.a[0]
        r = it.a[1] if it.op == "app" and last(it.a[0]) in ("iter", "into_iter") else it
    elif t.op == "app" and t.a[0] == "idx" and t.a[2].op == "elem" and t.a[2].a[0].op == "app" and t.a[2].a[0].a[0] == "range":
        lo, hi = t.a[2].a[0].a[1:3]
        r = t.a[1]
        if not (lo.op == "c" and lo.a[1] in (0, 1) and hi.op == "app" and hi.a[0] == "len" and hi.a[1] is r):
            return None
    elif t.op == "app" and last(t.a[0]) == "get" and len(t.a) == 3:
        return None
    else:
        return None
    el = r.a[0] if r.op == "vf" else r
    return r if el.op == "elem" and el.a[0].op == "app" and last(el.a[0].a[0]) in ("records", "into_records") else None


def but_the_stem(t):
    """Leaving out the first column of a record leaves out no form (a stem is its own stem); an index is within its record."""
    if t.op == "app" and t.a[0] == "kept":
        t = t.a[1]
    if t.op == "app" and t.a[0] == "o_skip":
        return t.a[2].op == "c" and t.a[2].a[1] <= 1 and cut_of(t.a[1]) is None
    return False


def format_part(ctx):
    rule = "a gazetteer contains exactly the lines of its file"
    L = Loader(ctx, "HashSetGazetteer::from_reader")
    values = []
    for s, v in L.ok:
        x = sub(v, "values", lambda t: gens_of(t) is not None)
        r = lines(L, rule, L.name, x, s) if x is not None else None
        if r:
            h = hashed(r[0])
            ctx.ob(rule, L.name + ": line", True if h is not None and line_value(h, r[1]) else
                   (None if h is None and line_value(r[0], r[1]) is False and opaque_parts(r[0], L.e) else (None if h is None else False)),
                   show(r[0], 5), L.w)
    L.nothing_ignored()
    lookup(ctx, "HashSetGazetteer", "contains", rule, plain=True)

    rule = "a listed form has the stem of its line, any other word is its own stem"
    L = Loader(ctx, "HashMapStemmer::from_reader")
    for s, v in L.ok:
        x = sub(v, "values", lambda t: gens_of(t) is not None)
        g = single_gen(L, rule, L.name, x, s, allow=but_the_stem) if x is not None else None
        if not g:
            continue
        k, val = fld(g[0], "0"), fld(g[0], "1")
        c = column(val)
        f = form(val)
        ctx.ob(rule, L.name + ": stem", (c[1] == 0) if c else (False if f else None), show(val, 5), L.w)
        h = hashed(k)
        st = None
        if h is not None and c is not None and column(h):
            st = False          # one form only
        elif h is not None and form(h):
            st = form(h) is c[0] if c else None
        ctx.ob(rule, L.name + ": forms", st, show(k, 5), L.w)
        options_of(ctx, L, x, {"delimiter": ord(","), "has_headers": False, "flexible": True, "quoting": False})
    L.nothing_ignored()
    lookup(ctx, "HashMapStemmer", "stem", rule, default="self", normal=True)

    rule = "a word has the cluster of its line, an unlisted word has none"
    L = Loader(ctx, "HashMapWordClusterer::from_reader")
    for s, v in L.ok:
        x = sub(v, "values", lambda t: True)
        if x is None or x.op != "en":
            ctx.ob(rule, L.name, None, show(v, 4), L.w)
            continue
        con = "%s: %s" % (L.name, x.a[1])
        gs = gens_of(x.a[3][0])
        if gs is None or not gs:
            ctx.ob(rule, con, None if gs is None else False, show(x, 4), L.w)
            continue
        for y, conds, b in gs:
            k, val = fld(y, "0"), fld(y, "1")
            h = hashed(k)
            c = column(h) if h is not None else None
            ctx.ob(rule, con + ": word", (c[1] == 0) if c else (False if h is not None and reworked(h) else None), show(k, 5), L.w)
            by = [t for t, p in conds if any(q.op == "vf" and q.a[1] == "Ok" and q.a[0].op == "app" and q.a[0].a[0] == "from_str" for q in subterms(t))]
            ctx.ob(rule, con + ": whatever its number", not by, show(by[0], 5) if by else "", L.w)
            num_ = val.op == "vf" and val.a[1] == "Ok" and val.a[0].op == "app" and val.a[0].a[0] == "from_str"
            d = column(val.a[0].a[1] if num_ else val)
            ctx.ob(rule, con + ": cluster", (d[1] == 1 and (c is None or untagged(c[0]) is untagged(d[0]) if num_ and c and d[0] is not c[0]
                                                         else c is None or d[0] is c[0])) if d else
                   (False if (val.a[0].a[1] if num_ else val).op == "c" or reckoned(val) else None), show(val, 5), L.w)
        options_of(ctx, L, x, {"delimiter": 9, "has_headers": False, "quoting": False})
    L.nothing_ignored()
    carried(ctx, L, rule)
    kept(ctx, L, rule)
    lookup(ctx, "HashMapWordClusterer", "get_cluster", rule, default="none")


def carried(ctx, L, rule):
    """Numbers kept while every cluster is one are not lost when a cluster comes that is not: in the loop over the lines,
    a line put into the table of the numbers only is put into the other table as well, at once or when it is turned to."""
    if L.body is None or not {"Left", "Right"} <= {y.a[1] for s, v in L.ok for x in [sub(v, "values", lambda t: True)] if x is not None
                                                   for y in alts(x) if y.op == "en"}:
        return
    numbers, words, moved = {}, {}, []

    def h(e, st, a, site, fn):
        if site.body is L.body and len(a) == 3 and a[0].op == "ptr":
            n = a[2].op == "vf" and a[2].a[1] == "Ok" and a[2].a[0].op == "app" and a[2].a[0].a[0] == "from_str"
            (numbers if n else words).setdefault(a[0].a[0], set()).add(site.bb)
    def moves(e, st, a, site, fn):
        if site.body is L.body and a[0].op == "ptr":
            moved.append(a[0].a[0])
    ctx.run(L.body, params(L.body), hooks={"HashMap::insert": h, "Extend::extend": moves})
    if any(p in words for p in moved):
        return          # filled in one go from somewhere else: judged by the entries themselves
    if set(numbers) & set(words) or len(numbers) != 1 or len(words) != 1:
        return
    N, S = next(iter(numbers.values())), next(iter(words.values()))
    cfg = Cfg(L.body)
    for head, inside in cfg.loops.items():
        if not (N <= inside and S <= inside) or any(N <= q and S <= q and q < inside for q in cfg.loops.values()):
            continue

        def reaches(src, dst):
            todo, seen = [j for i in src for j in cfg.succ[i]], set()
            while todo:
                j = todo.pop()
                if j in dst and j in inside:
                    return True
                if j in seen or j in S or j == head or j not in inside:
                    continue
                seen.add(j)
                todo.extend(cfg.succ[j])
            return False
        lost = (reaches({head}, N) or head in N) and any(reaches({n}, {head}) for n in N)
        ctx.ob(rule, "%s: lines before another kind of cluster" % L.name, not lost, "the numbers read before are not kept", L.w)


def kept(ctx, L, rule):
    """In every round over the lines, the line's own word goes into a table; what is moved to an other table is moved whole."""
    from .patterns import current, opaque_only
    if L.body is None:
        return
    own, moved = set(), []

    def h(e, st, a, site, fn):
        k = hashed(e.deref(st, a[1])) if len(a) == 3 else None
        c = column(k) if k is not None else None
        if c is None:
            return None
        rec = c[0].a[0] if c[0].op == "vf" else c[0]
        own.add(rec)
        moved.append(rec)
        return [(e.did(s, "kept", "line", [rec]), v) for s, v in map_insert(e, st, a, site)]
    e, rs = ctx.run(L.body, params(L.body), hooks={"HashMap::insert": h})
    n, lines_ = 0, walked(e)
    for tag, backs in e.rounds.items():
        if not any(current(e, r, tag) and r.a[0] is lines_.get(tag) for r in own):
            continue
        for s in backs:
            n += 1
            did = [x for x in s.hist if x.op == "did" and x.a[0] == "kept" and current(e, x.a[2][0], tag)]
            ctx.ob(rule, "%s: every line" % L.name, True if did else
                   (None if any(not (q.op == "app" and last(q.a[0]) in CSV) for t, p in s.facts if any(r in subterms(t) for r in own)
                                for q in opaque_only(subterms(t), e)) else False), "a round over the lines that keeps nothing", L.w)
    if own:
        ctx.ob(rule, "%s: the lines can be followed" % L.name, n > 0 or None, "", L.w)
    for r in moved:
        o = cuts(e, r)
        ctx.ob(rule, "%s: lines moved" % L.name, o is None, show(o, 4) if o is not None else "", L.w)


def lookup(ctx, ty, method, rule, plain=False, default=None, normal=False):
    """The answer for a word comes from the table of the resource, at the word's own hash."""
    b = None
    for x in ctx.prog.bodies.values():
        if x["path"].endswith("::" + method) and ty in x["path"].split(" as ")[0].replace("<", "::").split("::") and "{closure" not in x["path"]:
            b = x
    con = "%s::%s" % (ty, method)
    if b is None:
        ctx.ob(rule, con, False, "no such function", None)
        return
    ps = params(b)
    e, rs = ctx.run(b, ps)
    word = ps[1]
    w = where(b)
    ctx.count("lookups")

    def own(t):
        """Hash of the word (possibly normalised)."""
        h = hashed(t)
        if h is None:
            return None
        if normal and h.op == "app" and last(h.a[0]) == "normalize":
            h = h.a[1]
        return h is word

    def table(t):
        return any(q is ps[0] for q in subterms(t))
    for s, r in rs:
        for v in alts(r):
            if plain:
                st = None
                if v.op == "app" and v.a[0] == "contains" and table(v.a[1]):
                    st = own(v.a[2])
                elif v.op == "not" and v.a[0].op == "app" and v.a[0].a[0] == "contains":
                    st = False
                elif v in (TRUE, FALSE):
                    hits = [(t, p) for t, p in s.facts if any(own(q) for q in subterms(t))]
                    if any(t.op == "app" and t.a[0] == "contains" and table(t.a[1]) and own(t.a[2]) and p is (v is FALSE) for t, p in hits):
                        st = False
                    else:
                        st = True if hits else (None if opaque_parts(v, e) else False)
                ctx.ob(rule, con, st, show(v, 5), w)
                continue
            if v.op == "en":
                v2 = v.a[3][0] if v.a[1] == "Some" else None
            else:
                v2 = v
            miss = any(not p and t.op == "app" and t.a[0] == "contains" and any(own(q) for q in t.a[1:]) for t, p in s.facts)
            if v2 is None or v2 is word:
                ctx.ob(rule, con + ": unlisted", True if miss and (default == "none") == (v2 is None) else
                       (False if (default == "none") != (v2 is None) or not miss else None), show(v, 4), w)
                continue
            gets = [q for q in subterms(v2) if q.op == "app" and q.a[0].startswith("get") and table(q.a[1])]
            st = (both(*[own(q.a[2]) for q in gets]) and v2 in gets) if gets else None
            if gets and v2 not in gets:
                st = None if opaque_parts(v2, e) or v2.op == "app" and v2.a[0] in ("concat", "display") else False
            ctx.ob(rule, con + ": listed", st if gets else (None if opaque_parts(v2, e) else False), show(v, 5), w)


def asked(ctx, path, own_self=None):
    """A component that may ask for resources: results with their fields."""
    b = None
    for x in ctx.prog.bodies.values():
        if x["path"].endswith("::build_features") and path in x["path"].split(" as ")[0].replace("<", "::").split("::"):
            b = x
    if b is None:
        ctx.ob("a resource asked for is the shared one", path, False, "no such feature", None)
        return None
    ps = params(b)
    e, rs = ctx.run(b, ps)
    out = []
    for s, r in rs:
        for v in alts(r):
            if v.op == "en" and v.a[1] == "Ok":
                gs = gens_of(v.a[3][0])
                for x in ([g[0] for g in gs] if gs is not None else list(v.a[3][0].a[1]) if v.a[3][0].op == "list" else [None]):
                    out.append((s, x))
    ctx.count("features")
    return b, ps, e, out


def arg_of(t, args, name):
    """Is the term (an unwrapped view of) the argument with this name?"""
    while t.op == "vf" or (t.op == "app" and t.a[0].startswith("as_")):
        t = t.a[0] if t.op == "vf" else t.a[1]
    return t.op == "app" and t.a[0].startswith("get") and t.a[1] is args and text(t.a[2]) == name


def feature_part(ctx):
    for path, flds in (("NgramFeature", (("opt_stemmer", "stemmer", "use_stemming"),
                                         ("opt_common_words_gazetteer", "gazetteers", "common_words_gazetteer_name"))),
                       ("CustomEntityMatchFeature", (("opt_stemmer", "stemmer", "use_stemming"),
                                                     ("custom_entity_parser", "custom_entity_parser", None))),
                       ("BuiltinEntityMatchFeature", (("builtin_entity_parser", "builtin_entity_parser", None),)),
                       ("WordClusterFeature", (("word_clusterer", "word_clusterers", "cluster_name"),))):
        a = asked(ctx, path)
        if a is None:
            continue
        b, ps, e, out = a
        if not out:
            ctx.ob("a resource asked for is the shared one", path, False, "never built", where(b))
        for s, x in out:
            for n, table, arg in flds:
                resource(ctx, e, s, path, x, n, fld(ps[1], table), lambda t, arg=arg: arg_of(t, ps[0], arg), arg, where(b))
    L = Loader(ctx, "TfidfVectorizer::from_path")
    for s, v in L.ok:
        for n, table, arg in (("stemmer", "stemmer", "use_stemming"), ("word_clusterer", "word_clusterers", "word_clusters_name")):
            def asked_for(t, arg=arg):
                r = model_field(t)
                return r is not None and r[1] == ("config", arg)
            resource(ctx, L.e, s, L.name, v, n, fld(L.ps[1], table), asked_for, arg, L.w)


def resource(ctx, e, s, con, x, n, table, is_arg, arg, w):
    """Field n of a component: the shared resource iff the component's description asks for it (by flag or by name)."""
    rule = "a resource asked for is the shared one, and is there iff it was asked for"
    con = "%s: %s" % (con, n)
    if x is None or x.op != "st" or n not in x.a[1]:
        ctx.ob(rule, con, None, "field not recognised", w)
        return
    t = fld(x, n)
    if arg is None:
        ctx.ob(rule, con, True if t is table else (None if opaque_parts(t, e) else False), show(t, 5), w)
        return
    want = None
    for f, p in s.facts:
        if is_arg(f):
            want = p
        elif f.op == "is" and f.a[1] in ("Some", "None") and is_arg(f.a[0]) and (f.a[0].op == "f" or (f.a[0].op == "app" and f.a[0].a[0] == "as_str")):
            want = p if f.a[1] == "Some" else not p
    if t.op == "en" and t.a[1] == "None":
        looked = want is not None or any(is_arg(q) for f, p in s.facts for q in subterms(f))
        ctx.ob(rule, con + ": absent", True if want is False else (None if want is None and looked else False), "asked for: %s" % want, w)
        return
    y = t.a[3][0] if t.op == "en" and t.a[1] == "Some" else t
    own = y.op == "vf" and y.a[1] == "Some" and y.a[0] is table
    if y.op == "app" and y.a[0].startswith("get") and y.a[1] is table:
        own = bool(is_arg(y.a[2]))
    st = None
    if y is t and t.op != "en":          # a mandatory resource
        st = True if own else (None if opaque_parts(t, e) else False)
    elif own:
        st = True if want else (None if want is None else False)
    elif y is not t:
        st = None if opaque_parts(y, e) else False
    ctx.ob(rule, con + ": present", st, "%s, asked for: %s" % (show(t, 5), want), w)


def language_part(ctx):
    rule = "a language stays the same language in every library"
    b = None
    for x in ctx.prog.bodies.values():
        if x["path"].endswith("FromLanguage>::from_language"):
            b = x
    if b is None:
        ctx.ob(rule, "from_language", False, "no such function", None)
        return
    ps = params(b)
    e, rs = ctx.run(b, ps)
    seen = set()
    for s, r in rs:
        for v in alts(r):
            got = [t.a[1] for t, p in s.facts if p and t.op == "is" and t.a[0] is ps[0]]
            if v.op == "en" and len(got) == 1:
                seen.add(got[0])
                ctx.ob(rule, got[0], v.a[1] == got[0], "becomes %s" % v.a[1], where(b))
            else:
                ctx.ob(rule, "from_language", None, show(v, 4), where(b))
    ctx.floor("languages", len(seen), 1)
    L = Loader(ctx, "CachingCustomEntityParser::from_path")
    for s, v in L.ok:
        rule = "an entity parser is the saved one, in its own language"
        f = "metadata.json"
        pred = L.field("language", file=f)
        said = any(t.op == "is" and t.a[0].op == "app" and t.a[0].a[0] == "from_str" and pred(t.a[0].a[1]) is True for t, p in s.facts)
        x = sub(v, "language", lambda t: None)
        ctx.ob(rule, L.name + ": language", True if said and x is not None and x.op in ("top", "u", "vf") else (None if x is None or x.op != "en" else False),
               show(x, 4) if x is not None else "", L.w)
        x = sub(v, "parser", lambda t: None)
        p = x.a[0].a[1] if x is not None and x.op == "vf" and x.a[0].op == "app" and last(x.a[0].a[0]) == "from_path" else None
        ctx.ob(rule, L.name + ": parser", L.at(p, L.field("parser_directory", file=f)) if p is not None else None,
               show(x, 5) if x is not None else "", L.w)
    L.nothing_ignored()
    L = Loader(ctx, "CachingBuiltinEntityParser::from_path")
    for s, v in L.ok:
        x = sub(v, "parser", lambda t: None)
        p = x.a[0].a[1] if x is not None and x.op == "vf" and x.a[0].op == "app" and last(x.a[0].a[0]) == "from_path" else None
        ctx.ob("an entity parser is the saved one, in its own language", L.name + ": parser", L.at(p) if p is not None else None,
               show(x, 4) if x is not None else "", L.w)
    L.nothing_ignored()


@check("C12")
def c12(ctx):
    """All paths of the loading of resources and of the features using them: every listed name is read from its own file, every
    line is stored (or empty), a word is looked up under the same hash it is stored under, and a resource asked for in the
    arguments of a feature is the shared one of that name, its absence being an error."""
    shared_part(ctx)
    format_part(ctx)
    feature_part(ctx)
    language_part(ctx)
