"""C21: an injection is checked in full before anything is written; C22: what is injected, and into which parser."""
from ..check import check, where
from ..engine import Cfg, decide
from ..lib import *
from ..models import cut_of
from ..terms import *
from .loading import comps, last, model_field, text
from .patterns import unknowns
from .slots import LOOSE

WRITES = ("dump", "remove_dir_all", "remove_dir", "remove_file", "rename", "write", "create_dir", "create_dir_all", "copy", "create",
          "set_permissions", "hard_link", "set_len")
READS = ("from_folder", "inject_new_values", "open", "read", "read_to_string", "from_reader", "from_slice", "from_str", "metadata", "read_dir",
         "canonicalize", "extend_gazetteer", "load_engine_shared_resources", "load_shared_resources")
KNOWN = ("from_folder", "inject_new_values", "dump", "remove_dir_all", "get!", "keys", "join", "open", "from_reader", "from_str", "to_lowercase",
         "stem", "tokenize_light", "load_engine_shared_resources", "from_identifier", "len", "contains", "concat")
LOADS = "load_engine_shared_resources"


def writes(name):
    n = last(name)
    return n in WRITES and ("fs::" in name or n == "dump" or "OpenOptions" in name)


def reads(name):
    n = last(name)
    return n in READS and ("fs::" in name or "serde_json" in name or "gazetteer" in name or n in (LOADS, "load_shared_resources"))


def directories(ctx, body):
    """The function that finds the directories of the parsers (by what it returns)."""
    cr = body["crate"]
    out = []
    for b in cr.bodies.values():
        if b["kind"] in ("Fn", "AssocFn") and "::promoted[" not in b["id"] and b["span"]["f"] == body["span"]["f"]:
            t = cr.types[b["locals"][0]]["s"] if isinstance(b["locals"][0], int) else ""
            if t.startswith("std::result::Result<std::collections::HashMap<std::string::String, std::path::PathBuf>"):
                out.append(b)
    return out[0] if len(out) == 1 else None


class Injection:
    def __init__(self, ctx):
        self.ctx = ctx
        self.body = ctx.anchor("NluInjector::inject")
        if self.body is None:
            return
        self.w = where(self.body)
        self.ps = params(self.body)
        self.me = self.ps[0]
        self.dirs = directories(ctx, self.body)
        self.load = ctx.prog.find(LOADS, optional=True)
        self.e, self.rs = ctx.run(self.body, self.ps, opaque={b["id"] for b in (self.dirs, self.load) if b is not None})
        self.writes, self.takes = [], []
        for ev in self.e.events.values():
            if writes(ev.name):
                self.writes.append(ev)
            elif last(ev.name) == "inject_new_values":
                self.takes.append(ev)
        ctx.count("write_sites", len(self.writes))

    def engine_dir(self, t):
        while t.op == "app" and last(t.a[0]) in ("as_ref", "clone", "to_path_buf", "deref") and len(t.a) == 2:
            t = t.a[1]
        return t.op == "f" and t.a[0] is self.me and t.a[1] == "nlu_engine_dir"

    # the entities a term ranges over
    def entity(self, t):
        """Is it an entity values were added for?"""
        if t.op != "elem":
            return None if unknowns(t, self.e, KNOWN) else False
        c = t.a[0]
        if c.op == "app" and c.a[0] == "keys":
            c = c.a[1]
        return c is fld(self.me, "entity_values") or (None if unknowns(c, self.e, KNOWN) else False)

    def found(self, d):
        """(the entity, the call that found the directories) behind a directory"""
        if d.op == "app" and d.a[0] == "get!" and d.a[1].op == "vf" and d.a[1].a[1] == "Ok" and d.a[1].a[0].op == "app":
            c = d.a[1].a[0]
            if self.dirs is not None and last(c.a[0]) == self.dirs["name"]:
                return d.a[2], c
        return None


def loaded(p):
    """(directory it was loaded from, the call that gave it its values) of a parser."""
    take = None
    while p.op == "app" and p.a[0] == "after":
        c = p.a[1]
        if c.op == "app" and last(c.a[0]) == "inject_new_values":
            take = take or c
            p = c.a[1]
        else:
            break
    if p.op == "vf" and p.a[1] == "Ok" and p.a[0].op == "app" and last(p.a[0].a[0]) == "from_folder" and len(p.a[0].a) == 2:
        return p.a[0], take
    return None, take


def went(facts, call):
    """Has the call succeeded?"""
    return decide(facts, isv(call, "Ok"))


# ------------------------------------------------------------------ what can still fail after a write

class Reach:
    """Which functions may write, which may fail without writing; and whether the second can follow the first."""

    def __init__(self, ctx, body):
        self.ctx, self.prog = ctx, ctx.prog
        self.memo = {}
        self.bad = []
        self.sites = 0
        self.seen = set()
        self.visit(body, 0)

    def calls(self, body):
        """Blocks -> what is called there: (name, ids of the local bodies it may run)"""
        cr = body["crate"]
        out = {}
        for i, bb in enumerate(body["bbs"]):
            t = bb["t"]
            if t["k"] != "call" or bb.get("cleanup"):
                continue
            fn = t["f"].get("fn") if isinstance(t["f"], dict) else None
            if fn is None:
                continue
            ids = []
            d = fn.get("r") or fn["d"]
            for x in (fn.get("id"), fn.get("rid"), fn["d"], d):
                if x in self.prog.bodies:
                    ids.append(x)
            loc = self.local(fn, cr)
            if loc:
                ids.append(loc)
            ft = cr.types[t["f"]["t"]]["s"] if isinstance(t["f"].get("t"), int) else ""
            ft = ft.split(") -> ")[0] + " " + ft[ft.rfind(" {"):] if ") -> " in ft else ft
            dt = cr.types[t["dt"]]["s"] if isinstance(t.get("dt"), int) else ""
            run = []
            for s, cid in self.closures(cr):
                if s in ft and s not in dt:
                    run.append(cid)
            out[i] = (fn["d"], list(dict.fromkeys(ids)), run)
        return out

    def local(self, fn, cr):
        d = fn["d"]
        if not hasattr(self, "paths"):
            self.paths = {}
            for b in cr.bodies.values():
                if b["kind"] in ("Fn", "AssocFn") and "::promoted[" not in b["id"]:
                    self.paths.setdefault(b["path"], b["id"])
        return self.paths.get(d)

    def closures(self, cr):
        if not hasattr(self, "_cl"):
            self._cl = [(t["s"], t["d"]) for t in cr.types if t.get("k") == "closure" and t.get("d") in self.prog.bodies]
        return self._cl

    def kind(self, bid, stack=()):
        """(may write, may fail to read) of a body with all it runs"""
        if bid in self.memo:
            return self.memo[bid]
        if bid in stack:
            return False, False
        b = self.prog.bodies[bid]
        wr = rd = False
        for name, ids, run in self.calls(b).values():
            x, y = self.of(name, ids, run, stack + (bid,))
            wr, rd = wr or x, rd or y
        self.memo[bid] = wr, rd
        return wr, rd

    def of(self, name, ids, run, stack=()):
        if writes(name):
            return True, False
        wr, rd = False, reads(name)
        for x in ids + run:
            a, b = self.kind(x, stack)
            wr, rd = wr or a, rd or b
        return wr, rd

    def visit(self, body, depth):
        if body["id"] in self.seen:
            return
        self.seen.add(body["id"])
        cs = self.calls(body)
        ks = {i: self.of(*c) for i, c in cs.items()}
        cfg = Cfg(body)
        for i, (wr, rd) in ks.items():
            if wr:
                self.sites += 1
                todo, seen = list(cfg.succ[i]), set()
                while todo:
                    j = todo.pop()
                    if j in seen:
                        continue
                    seen.add(j)
                    if j in ks and ks[j][1]:
                        self.bad.append((body, cs[i][0], cs[j][0], body["bbs"][j]["t"]["l"]["l"]))
                    todo.extend(cfg.succ[j])
                if rd and cs[i][2] and not any(self.kind(x) == (True, True) and False for x in cs[i][2]):
                    # a function given closures may run them again and again
                    a = [self.kind(x) for x in cs[i][2]]
                    if any(k[0] for k in a) and any(k[1] for k in a):
                        self.bad.append((body, cs[i][0], cs[i][0], body["bbs"][i]["t"]["l"]["l"]))
        for name, ids, run in cs.values():
            for x in ids + run:
                if self.kind(x)[0]:
                    self.visit(self.prog.bodies[x], depth + 1)


def write_path(ev):
    """The path an event writes to."""
    if last(ev.name) == "dump":
        return ev.args[1] if len(ev.args) > 1 else None
    return ev.args[0] if ev.args else None


@check("C21")
def c21(ctx):
    I = Injection(ctx)
    if I.body is None:
        return
    e, w = I.e, I.w
    con = "NluInjector::inject"
    ctx.ob("the function that finds the parsers' directories is known", con, True if I.dirs is not None else None, "", w)
    # nothing that can fail for another reason comes after a write
    R = Reach(ctx, I.body)
    ctx.count("functions_followed", len(R.seen))
    ctx.count("write_calls", R.sites)
    for b, a, z, line in R.bad:
        ctx.ob("after the first write only writes can fail", "%s in %s" % (last(z), b["path"].split("::")[-1]), False,
               "%s can be reached after %s" % (last(z), last(a)), where(b, line))
    ctx.ob("after the first write only writes can fail", con, not R.bad, "%d write calls" % R.sites, w)
    dumps = [ev for ev in I.writes if last(ev.name) == "dump"]
    ctx.ob("the updated parsers are written", con, True if dumps else (None if e.incomplete else False), "%d sites" % len(dumps), w)
    for ev in dumps:
        p, d = ev.args[0], ev.args[1]
        frm, take = loaded(p)
        site = "write of a parser"
        if frm is None:
            ctx.ob("what is written was loaded and updated", con, None if unknowns(p, e, KNOWN) or True else False, show(p, 5), w)
            continue
        ctx.ob("what is written was loaded and updated", con, take is not None, show(p, 4), w)
        ctx.ob("a parser is written only when it could be read", con, went(ev.facts, frm) is True, show(frm, 4), w)
        if take is not None:
            ctx.ob("a parser is written only when it took all values", con, went(ev.facts, take) is True, show(take, 3), w)
        ctx.ob("a parser is written where it was read", con, d is frm.a[1] or (None if unknowns(d, e, KNOWN) else False), "%s, not %s" %
               (show(d, 5), show(frm.a[1], 5)), w)
        gone = [t.a[0] for t, pol in ev.facts if pol and t.op == "is" and t.a[1] == "Ok" and t.a[0].op == "app" and last(t.a[0].a[0]) == "remove_dir_all"]
        ctx.ob("the previous parser is removed before the new one is written", con, any(g.a[1] is d for g in gone) or
               (None if any(unknowns(g, e, KNOWN) for g in gone) else False), show(d, 4), w)
        f = I.found(d)
        if f is None:
            ctx.ob("every entity has its parser written", con, None, show(d, 5), w)
            continue
        ctx.ob("every entity has its parser written", con, I.entity(f[0]), show(f[0], 5), w)
        ctx.ob("nothing is written unless the directories are found", con, went(ev.facts, f[1]) is True, show(f[1], 3), w)
        cut = cuts(e, f[0]) if f[0].op == "elem" else None
        ctx.ob("every entity has its parser written", con, cut is None, str(cut), w)
        extra = [(t, pol) for t, pol in ev.facts if any(q is f[0] for q in subterms(t)) and not allowed(I, t, pol, f)]
        unk = [t for t, pol in extra if unknowns(t, e, KNOWN)]
        sel = [(t, pol) for t, pol in selecting(e, frozenset(), extra)]
        ctx.ob("every entity has its parser written", con, True if not sel else (None if unk else False), "only when %s%s" %
               ("" if not sel or sel[0][1] else "not ", show(sel[0][0], 5)) if sel else "", w)
    for ev in I.writes:
        if last(ev.name) == "dump":
            continue
        t = write_path(ev)
        n = last(ev.name)
        if n == "remove_dir_all":
            frm = [x.a[0] for x, pol in ev.facts if pol and x.op == "is" and x.a[1] == "Ok" and x.a[0].op == "app" and last(x.a[0].a[0]) == "from_folder"]
            mine = [x for x in frm if x.a[1] is t]
            ctx.ob("only the directory of a parser that was read is removed", con, bool(mine) or (None if unknowns(t, e, KNOWN) else False), show(t, 5), w)
            took = [x.a[0] for x, pol in ev.facts if pol and x.op == "is" and x.a[1] == "Ok" and x.a[0].op == "app" and
                    last(x.a[0].a[0]) == "inject_new_values"]
            ctx.ob("a parser is removed only when its successor took all values", con,
                   any(loaded(app("after", x, C("int", 0)))[0] in mine for x in took) if mine else None, show(t, 5), w)
            done = [h for h in ev.hist if h.op == "did" and last(h.a[1]) == "dump" and len(h.a[2]) > 1 and h.a[2][1] is t]
            ctx.ob("what was written is not removed", con, not done, show(t, 4), w)
        else:
            ctx.ob("nothing else is written", con, None if t is None or unknowns(t, e, KNOWN) else False, "%s of %s" % (n, show(t, 5) if t is not None else ""), w)
    # each step that was done has succeeded, on every path that goes on
    states = [(s, "result") for s, r in I.rs if any(v.op == "en" and v.a[1] == "Ok" or v.op != "en" for v in alts(r))]
    for tag, backs in e.rounds.items():
        states += [(s, "next round") for s in backs]
    for s, what in states:
        for t, pol in s.facts:
            if t.op == "is" and t.a[1] in ("Ok", "Err") and pol is (t.a[1] == "Err") and t.a[0].op == "app":
                n = last(t.a[0].a[0])
                if n in READS + WRITES or n == (I.dirs or {}).get("name"):
                    ctx.ob("a step that fails is the end", con, False, "%s goes on after a failure of %s" % (what, n), w)
        for h in s.hist:
            if h.op == "did" and h.a[0] in ("ext", "opaque") and (writes(h.a[1]) or reads(h.a[1]) or h.a[0] == "opaque"):
                c = app(h.a[1], *h.a[2])
                ok = went(s.facts, c)
                if ok is None and any(t.op == "is" and t.a[0].op == "app" and t.a[0].a[0] == h.a[1] for t, pol in s.facts):
                    ok = any(t.op == "is" and t.a[0].op == "app" and t.a[0].a[0] == h.a[1] and pol is (t.a[1] == "Ok") for t, pol in s.facts)
                ctx.ob("a step that fails is the end", con, ok is True, "%s: whether %s succeeded is not looked at" % (what, last(h.a[1])), w)
    # every round of a loop that writes writes a parser; none is left early
    n = 0
    for tag, backs in e.rounds.items():
        did = [any(h.op == "did" and last(h.a[1]) == "dump" for h in s.hist) for s in backs]
        took = [any(h.op == "did" and last(h.a[1]) == "inject_new_values" for h in s.hist) for s in backs]
        for what, xs in (("written", did), ("updated", took)):
            if any(xs):
                n += 1
                ctx.ob("every entity has its parser %s" % what, con, all(xs), "%d of %d rounds" % (sum(xs), len(xs)), w)
    ctx.ob("the loops over the entities can be followed", con, n > 0 or None, "", w)
    for s, r in I.rs:
        if any(v.op == "en" and v.a[1] == "Ok" for v in alts(r)):
            once = [h for h in s.hist if h.op == "did" and last(h.a[1]) == "dump"]
            ctx.ob("every entity has its parser written", con, not once, "done after a single one", w)
            ctx.ob("every entity has its parser written", con, not early(e, s), "; ".join(show(x, 4) for x in early(e, s)), w)
    ctx.floor("write sites of an injection", len(I.writes), 2)


def allowed(I, t, pol, f):
    """Facts that do not select among the entities."""
    if t.op == "is" and t.a[1] in ("Ok", "Err"):
        return True
    if t.op == "app" and t.a[0] == "contains":
        c = t.a[1]
        if c.op == "app" and c.a[0] == "keys":
            return pol or any(x.op == "f" and x.a[1] == "entities" for x in subterms(c))
        return True
    return False


# ------------------------------------------------------------------ what is injected, and where

USAGES = ("WithStems", "WithoutStems", "WithAndWithoutStems")


class Scenario:
    """One kind of entity: what the conditions of a path say about it."""

    def __init__(self, I, x, custom, usage, stemmer):
        self.I, self.x, self.custom, self.usage, self.stemmer = I, x, custom, usage, stemmer

    def says(self, t):
        """True / False / None (not about the scenario)"""
        if t.op == "app" and t.a[0] == "contains" and t.a[2].op == "elem" and untagged(t.a[2]) is untagged(self.x) and is_entities(t.a[1]):
            return self.custom
        if t.op == "is" and t.a[1] in USAGES and ends(t.a[0], "parser_usage"):
            return t.a[1] == self.usage
        if t.op == "is" and t.a[1] in ("Some", "None") and ends(t.a[0], "stemmer"):
            return self.stemmer is (t.a[1] == "Some")
        if t.op == "is" and t.a[1] in ("Ok", "Err") and t.a[0].op == "app" and last(t.a[0].a[0]) == "ok_or" and ends(t.a[0].a[1], "stemmer"):
            return self.stemmer is (t.a[1] == "Ok")
        return None

    def possible(self, facts):
        return all(self.says(t) is None or self.says(t) is p for t, p in facts)


def is_entities(c):
    """The names of the custom entities of the dataset."""
    while c.op == "app" and c.a[0] in ("keys", "set", "cloned") and len(c.a) == 2:
        c = c.a[1]
    c = strip_list(c)
    if c.op == "coll" and len(c.a[1]) == 1:
        x = c.a[1][0][0]
        if x.op == "elem":
            return is_entities(x.a[0])
    m = model_field(c)
    return m is not None and tuple(n.split("::")[-1] for n in m[1]) == ("dataset_metadata", "entities")


def ends(t, name):
    return t.op == "f" and t.a[1] == name


def plain_form(x, el):
    return x.op == "app" and x.a[0] == "to_lowercase" and x.a[1] is el


def stem_form(I, x, el, lang, stemmers):
    """Is it the stems of the tokens of the lower-cased value, joined by blanks?  True / False / None"""
    e = I.e
    if not (x.op == "app" and last(x.a[0]) == "join" and len(x.a) == 3 and x.a[2].op == "c"):
        return None if unknowns(x, e, KNOWN) else False
    if x.a[2].a[1] != " ":
        return False
    gs = gens_of(x.a[1])
    if not gs or len(gs) != 1:
        return None
    v, conds, bnd = gs[0]
    if not (v.op == "app" and last(v.a[0]) == "stem" and len(v.a) == 3):
        return None if unknowns(v, e, KNOWN) else False
    st, tok = v.a[1:]
    if not any(st is s for s in stemmers):
        return None if unknowns(st, e, KNOWN) else False
    while tok.op == "f" and tok.a[1] == "value":
        tok = tok.a[0]
    if tok.op != "elem":
        return None if unknowns(tok, e, KNOWN) else False
    src = tok.a[0]
    if not (src.op == "app" and last(src.a[0]) in ("tokenize_light", "tokenize") and len(src.a) == 3):
        return None if unknowns(src, e, KNOWN) else False
    if not plain_form(src.a[1], el) or not lang(src.a[2]):
        return None if unknowns(src, e, KNOWN) else False
    o = x.a[1].a[2] if x.a[1].op == "coll" else None
    if o is None or cut_of(o) is not None or o.op == "app" and o.a[0] in ("o_rev", "o_unique", "o_sort"):
        return False if o is not None else None
    more = [c for c in selecting(e, frozenset(), conds) if not (c[0].op == "app" and c[0].a[0] == "contains")]
    return not more or (None if any(unknowns(t, e, KNOWN) for t, p in more) else False)


@check("C22")
def c22(ctx):
    I = Injection(ctx)
    if I.body is None:
        return
    e, w, me = I.e, I.w, I.me
    con = "NluInjector::inject"
    given = fld(me, "shared_resources")

    def resources(facts):
        """The resources of the path"""
        d = decide(facts, isv(given, "Some"))
        out = []
        if d is not False:
            out.append(vfld(given, "Some", "0"))
        if d is not True and I.load is not None:
            for t, p in facts:
                if t.op == "is" and t.a[0].op == "app" and last(t.a[0].a[0]) == LOADS:
                    out.append(vfld(t.a[0], "Ok", "0"))
                    ok = len(t.a[0].a) == 2 and I.engine_dir(t.a[0].a[1])
                    ctx.ob("resources come from the engine injected into", con, ok or (None if unknowns(t.a[0].a[1], e, KNOWN) else False), show(t.a[0], 4), w)
        return out

    def lang(t):
        r = [y for y in subterms(t) if y.op == "f" and y.a[1] == "language_code"]
        return bool(r) and model_field(r[0]) is not None and engine_file(I, model_field(r[0])[0])
    ctx.ob("values are injected", con, bool(I.takes) or (None if e.incomplete else False), "%d sites" % len(I.takes), w)
    seen = set()
    calls = {}
    for ev in I.takes:
        p, vals = ev.args[0], ev.args[1]
        frm, _ = loaded(p)
        ctx.ob("new values come first", con, ev.args[2] is TRUE or (None if unknowns(ev.args[2], e, KNOWN) else False), show(ev.args[2], 3), w)
        ctx.ob("injected values are kept or dropped as asked for", con, ev.args[3] is fld(me, "from_vanilla") or
               (None if unknowns(ev.args[3], e, KNOWN) else False), show(ev.args[3], 3), w)
        f = I.found(frm.a[1]) if frm is not None else None
        if f is None:
            ctx.ob("values go to the parser of their entity", con, None, show(p, 5), w)
            continue
        x, call = f
        calls[call] = ev
        gs = gens_of(vals)
        if not gs:
            ctx.ob("values can be followed", con, None if unknowns(vals, e, KNOWN) or vals.op != "coll" else False, show(vals, 5), w)
            continue
        srcs = {y for g in gs for y in subterms(g[0]) if y.op == "elem" and y.a[1] in g[2] and not (y.a[0].op == "app" and last(y.a[0].a[0]).startswith("tokenize"))}
        good = {y for y in srcs if y.a[0].op == "app" and y.a[0].a[0] == "get!" and y.a[0].a[1] is fld(me, "entity_values") and y.a[0].a[2] is x}
        ctx.ob("values go to the parser of their entity", con, (bool(good) and srcs == good) or (None if any(unknowns(y, e, KNOWN) for y in srcs) else False),
               "; ".join(show(y, 5) for y in srcs), w)
        if srcs != good:
            continue
        o = vals.a[2] if vals.op == "coll" else None
        ctx.ob("every value is injected", con, cut_of(o) is None if o is not None else None, show(o, 4) if o is not None else "", w)
        res = resources(ev.facts)
        stemmers = [vfld(fld(r, "stemmer"), "Some", "0") for r in res]
        for custom in (True, False):
            for usage in USAGES:
                for stemmer in (True, False):
                    sc = Scenario(I, x, custom, usage, stemmer)
                    if not sc.possible(ev.facts):
                        continue
                    stems = custom and usage != "WithoutStems"
                    name = ("custom entity, %s%s" % (usage, "" if stemmer else ", no stemmer")) if custom else "builtin entity"
                    want = set()
                    if not custom or usage != "WithStems":
                        want.add("plain")
                    if stems:
                        want.add("stems")
                        if not stemmer:
                            # nothing to stem: only an entity without values gets here
                            fine = [g for g in gs if sc.possible(g[1]) and form(I, g, lang, stemmers) != "stems"] if "plain" not in want else []
                            live = [g for g in gs if sc.possible(g[1])]
                            surv = [c for g in gs for c in g[1] if sc.says(c[0]) is not None and sc.says(c[0]) is not c[1]]
                            sel = selecting(e, ev.facts, surv)
                            plain = any(form(I, g, lang, stemmers) == "plain" for g in fine)
                            ctx.ob("a value that cannot be stemmed is refused", "%s: %s" % (con, name), False if sel or plain else not fine and
                                   (not live or "plain" in want) or None, "; ".join(show(c[0], 4) for c in sel), w)
                            continue
                    seen.add((custom, usage if custom else None))
                    got = set()
                    for g in gs:
                        if not sc.possible(g[1]):
                            continue
                        k = form(I, g, lang, stemmers)
                        v, conds, bnd = g
                        el = next(iter(y for y in good))
                        if k is None or k is False:
                            ctx.ob("values are injected in the forms the parser searches", "%s: %s" % (con, name), k, show(v, 6), w)
                            continue
                        got.add(k)
                        more = [c for c in selecting(e, ev.facts, conds) if sc.says(c[0]) is None and not
                                (c[0].op == "app" and c[0].a[0] == "contains" and c[0].a[1] is y_src(good))]
                        ctx.ob("every value is injected", "%s: %s" % (con, name), not more or (None if any(unknowns(t, e, KNOWN) for t, p in more) else False),
                               "; ".join(show(t, 4) for t, p in more), w)
                    ctx.ob("values are injected in the forms the parser searches", "%s: %s" % (con, name), got == want,
                           "%s, not %s" % (" and ".join(sorted(got)) or "none", " and ".join(sorted(want))), w)
    for custom, usage in [(True, u) for u in USAGES] + [(False, None)]:
        ctx.ob("each kind of entity can be injected", "%s: %s" % (con, usage or "builtin entity"), (custom, usage) in seen or
               (None if e.incomplete or not I.takes else False), "", w)
    if I.dirs is not None:
        which(ctx, I, calls)
    builder(ctx)
    ctx.floor("injections of values", len(I.takes), 1)


def y_src(good):
    return next(iter(good)).a[0]


def form(I, g, lang, stemmers):
    """'plain', 'stems', False (neither) or None (not understood)"""
    v, conds, bnd = g
    res, raw = fld(v, "resolved_value"), fld(v, "raw_value")
    if v.op != "st":
        return None if unknowns(v, I.e, KNOWN) else False
    if res.op != "elem" or not (res.a[0].op == "app" and res.a[0].a[0] == "get!"):
        return None if unknowns(res, I.e, KNOWN) else False
    if plain_form(raw, res):
        return "plain"
    s = stem_form(I, raw, res, lang, stemmers)
    return "stems" if s is True else s


def engine_file(I, path):
    """Is it the model of the engine injected into?"""
    r = comps(path)
    return r is not None and I.engine_dir(r[0]) and [text(c) for c in r[1]] == ["nlu_engine.json"]


def model_at(I, t, *names):
    """Is it a field of the engine's model?"""
    m = model_field(t)
    return m is not None and engine_file(I, m[0]) and tuple(n.split("::")[-1] for n in m[1]) == names


def which(ctx, I, calls):
    """The directories of the parsers."""
    b = I.dirs
    e, con, w = I.e, b["name"], where(b)
    ps = params(b)
    e2, rs = ctx.run(b, ps)
    if not calls:
        ctx.ob("the parser of an entity can be followed", con, None, "", w)
        return
    kinds = set()
    for call in calls:
        m = dict(zip(ps, call.a[1:]))
        values = fld(I.me, "entity_values")
        ok_seen, errs = [], []
        for s, r in rs:
            for v in alts(subst(r, m)):
                if v.op == "en" and v.a[1] == "Ok":
                    ok_seen.append((s, v.a[3][0]))
                elif v.op == "en":
                    errs.append((s, v.a[3][0]))
                else:
                    ctx.ob("the parser of an entity can be followed", con, None, show(v, 4), w)
        for s, v in ok_seen:
            gs = gens_of(v)
            if not gs:
                ctx.ob("the parser of an entity can be followed", con, None if unknowns(v, e2, KNOWN) else False, show(v, 4), w)
                continue
            for g, conds, bnd in gs:
                key, d = fld(g, "0"), fld(g, "1")
                if any(t is FALSE and p or t is TRUE and not p for t, p in conds):
                    continue
                if not (key.op == "elem" and key.a[0].op == "app" and key.a[0].a[0] == "keys" and key.a[0].a[1] is values):
                    ctx.ob("each entity has its own parser", con, None if unknowns(key, e2, KNOWN) else False, show(key, 5), w)
                    continue
                kind = place(ctx, I, e2, con, w, key, d, conds)
                if kind:
                    kinds.add(kind)
            o = v.a[2] if v.op in ("coll", "map") and len(v.a) > 2 else None
            if o is not None:
                ctx.ob("every entity has a parser or is refused", con, cut_of(o) is None, show(o, 4), w)
            ctx.ob("every entity has a parser or is refused", con, not early(e2, s), "", w)
        for s, x in errs:
            ks = [y for y in subterms(x) if y.op == "en" and y.a[1] in ("EntityNotInjectable", "InternalInjectionError")]
            ctx.ob("an entity that has no parser is refused as not injectable", con, None if not ks else any(y.a[1] == "EntityNotInjectable" for y in ks), show(x, 4), w)
            # an error is about an entity that has no parser
            facts = {(subst(t, m), p) for t, p in s.facts}
            if (FALSE, True) in facts or (TRUE, False) in facts:
                continue
            cust = [p for t, p in facts if t.op == "app" and t.a[0] == "contains" and is_entities(t.a[1])]
            gaz = [p for t, p in facts if t.op == "is" and t.a[1] == "Ok" and t.a[0].op == "app" and t.a[0].a[0] == "BuiltinGazetteerEntityKind::from_identifier"]
            none = any(p and (t.op == "forall" or t.op == "app" and t.a[0] == "exhausted") and
                       any(y.op == "f" and y.a[1] == "entity_identifier" for y in subterms(t)) for t, p in facts)
            info = any(t.op == "is" and t.a[1] in ("Some", "None") and p is (t.a[1] == "None") for t, p in s.facts)
            if cust == [True]:
                ok = none or info
            elif cust == [False] and gaz == [True]:
                ok = none or info
            elif cust == [False] and gaz == [False]:
                ok = True
            else:
                ok = None
            ctx.ob("only an entity that has no parser is refused", con, ok, "; ".join(("" if p else "not ") + show(t, 4) for t, p in facts), w)
    for k in ("custom", "builtin"):
        ctx.ob("entities of the dataset and builtin gazetteer entities have a parser", "%s: %s" % (con, k), k in kinds or (None if e2.incomplete else False), "", w)


def place(ctx, I, e2, con, w, key, d, conds):
    """Is the directory that of the parser of the entity?  the kind of the entity"""
    r = comps(d)
    if r is None or not I.engine_dir(r[0]):
        ctx.ob("each entity has its own parser", con, None if r is None or unknowns(d, e2, KNOWN) else False, show(d, 6), w)
        return None
    cs = r[1]
    if len(cs) != 3:
        ctx.ob("each entity has its own parser", con, None if unknowns(d, e2, KNOWN) else False, show(d, 6), w)
        return None
    kind = "custom" if model_at(I, cs[0], "custom_entity_parser") else "builtin" if model_at(I, cs[0], "builtin_entity_parser") else None
    c = "%s: %s" % (con, kind)
    if kind is None:
        ctx.ob("each entity has its own parser", con, None if unknowns(cs[0], e2, KNOWN) else False, show(cs[0], 5), w)
        return None

    def within(path, n, tail):
        q = comps(path)
        return q is not None and I.engine_dir(q[0]) and len(q[1]) == n + 1 and text(q[1][-1]) == tail and all(a is b for a, b in zip(q[1][:-1], cs))

    def field(t, name, n):
        while t.op == "vf" and t.a[1] == "Some":
            t = t.a[0]
        mf = model_field(t)
        return mf is not None and within(mf[0], n, "metadata.json") and tuple(x.split("::")[-1] for x in mf[1]) == (name,)
    ok = field(cs[1], "parser_directory" if kind == "custom" else "gazetteer_parser", 1)
    ctx.ob("the gazetteer parser is the one of its entity parser", c, ok or (None if unknowns(cs[1], e2, KNOWN) else False), show(cs[1], 6), w)
    el = cs[2].a[0] if cs[2].op == "f" and cs[2].a[1] == "entity_parser" else None
    ok = el is not None and el.op == "elem" and field(el.a[0], "parsers_metadata", 2)
    ctx.ob("the directory is the one listed for the entity", c, ok or (None if unknowns(cs[2], e2, KNOWN) else False), show(cs[2], 6), w)
    if not ok:
        return kind
    same = eq(fld(el, "entity_identifier"), key)
    # (conditions are in terms of the parameters)
    cs2 = [(subst(t, m_of(I)), p) for t, p in conds]
    own = any(p and untagged(t) is untagged(same) for t, p in cs2)
    loose = [t for t, p in cs2 if p and t.op == "app" and last(t.a[0]) in LOOSE and untagged(fld(el, "entity_identifier")) in [untagged(q) for q in t.a[1:]]]
    ctx.ob("the directory is the one listed for the entity", c, own or (None if not loose and any(unknowns(t, e2, KNOWN) for t, p in cs2) else False), show(same, 4), w)
    cust = [p for t, p in cs2 if t.op == "app" and t.a[0] == "contains" and is_entities(t.a[1])]
    if kind == "custom":
        ctx.ob("entities of the dataset have custom parsers", c, cust == [True] or (None if not cust and False else False), "", w)
    else:
        gaz = [p for t, p in cs2 if t.op == "is" and t.a[1] == "Ok" and t.a[0].op == "app" and t.a[0].a[0] == "BuiltinGazetteerEntityKind::from_identifier"
               and t.a[0].a[1] is key]
        ctx.ob("only builtin gazetteer entities have builtin parsers", c, gaz == [True], "", w)
        ctx.ob("entities of the dataset have custom parsers", c, cust == [False], "", w)
    more = [x for x in selecting(e2, frozenset(), cs2) if not (x[0].op == "app" and x[0].a[0] == "contains") and untagged(x[0]) is not untagged(same)
            and not (x[0].op == "is" and x[0].a[1] in ("Ok", "Err")) and not (x[0].op == "is" and x[0].a[1] in ("Some", "None") and not
                                                                             any(q is key for q in subterms(x[0])))]
    ctx.ob("every entity has a parser or is refused", c, not more or (None if any(unknowns(t, e2, KNOWN) for t, p in more) else False),
           "; ".join(show(t, 5) for t, p in more), w)
    return kind


def m_of(I):
    return {}


def builder(ctx):
    """What an injector is told is what it injects."""
    def one(name, field, want):
        b = ctx.prog.find("NluInjector::" + name, optional=True)
        if b is None:
            ctx.ob("an injector can be told what to inject", "NluInjector::" + name, False, "missing")
            return
        ps = params(b)
        e, rs = ctx.run(b, ps)
        for s, r in rs:
            for v in alts(r):
                for f in ("nlu_engine_dir", "entity_values", "from_vanilla", "shared_resources"):
                    x = fld(v, f)
                    if f == field:
                        want(e, s, ps, x, "NluInjector::" + name, where(b))
                    else:
                        ctx.ob("an injector keeps what it was told", "NluInjector::" + name, x is fld(ps[0], f) or (None if unknowns(x, e, KNOWN) else False),
                               "%s: %s" % (f, show(x, 4)), where(b))

    def flag(e, s, ps, x, con, w):
        ctx.ob("an injector keeps what it was told", con, x is ps[1] or (None if unknowns(x, e, KNOWN) else False), show(x, 4), w)

    def res(e, s, ps, x, con, w):
        ctx.ob("an injector keeps what it was told", con, x is enum(OPT, "Some", ("0",), (ps[1],)) or (None if unknowns(x, e, KNOWN) else False), show(x, 4), w)

    def added(e, s, ps, x, con, w):
        me, ent, val = ps
        old = fld(me, "entity_values")
        here = decide(s.facts, app("contains", app("keys", old), ent))
        if x.op == "app" and x.a[0] == "set_key" and x.a[1] is old:
            ctx.ob("a value is added to those of its entity", con, x.a[2] is ent or (None if unknowns(x.a[2], e, KNOWN) else False), show(x.a[2], 4), w)
            both(e, s, con, w, x.a[3], val, app("get!", old, ent), here)
            return
        gs = gens_of(x)
        if not gs:
            ctx.ob("a value is added to those of its entity", con, None if unknowns(x, e, KNOWN) else False, show(x, 5), w)
            return
        for g, conds, bnd in gs:
            k, v = fld(g, "0"), fld(g, "1")
            if k is ent:
                both(e, s, con, w, v, val, app("get!", old, ent), here)
            else:
                ctx.ob("values added before are kept", con, k.op == "elem" and v.op == "app" and v.a[0] == "get!" and v.a[1] is old and v.a[2] is k or
                       (None if unknowns(g, e, KNOWN) else False), show(g, 5), w)
        ctx.ob("a value is added to those of its entity", con, any(fld(g[0], "0") is ent for g in gs), "", w)
        ctx.ob("values added before are kept", con, any(fld(g[0], "0").op == "elem" for g in gs), "", w)

    def both(e, s, con, w, v, val, before, here):
        gs = gens_of(v) or []
        new = any(g is val for g, c, b in gs)
        ctx.ob("a value is added to those of its entity", con, new or (None if unknowns(v, e, KNOWN) else False), show(v, 5), w)
        if here is not False:
            old = any(g.op == "elem" and (g.a[0] is before) for g, c, b in gs)
            ctx.ob("values added before are kept", con, old or (None if unknowns(v, e, KNOWN) else False), show(v, 5), w)
    one("add_value", "entity_values", added)
    one("from_vanilla", "from_vanilla", flag)
    one("shared_resources", "shared_resources", res)
