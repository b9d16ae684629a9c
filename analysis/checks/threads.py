"""C23: parsing from several threads at once."""
from ..check import check, where
from ..engine import decide
from ..graph import Graph, Held, guarded, leaf, show as tshow, within
from ..lib import *
from ..models import ok
from ..terms import *
from .loading import last

CELLS = {"Mutex", "RwLock", "Cell", "RefCell", "UnsafeCell", "OnceCell", "OnceLock", "LazyLock", "LazyCell", "Lazy", "ReentrantLock", "AtomicCell",
         "ArcSwap"}
LOCKS = {"Mutex::lock", "Mutex::try_lock", "RwLock::read", "RwLock::write", "RwLock::try_read", "RwLock::try_write",
         "RefCell::borrow", "RefCell::borrow_mut", "RefCell::try_borrow", "RefCell::try_borrow_mut"}
TRIES = {"try_lock", "try_read", "try_write", "try_borrow", "try_borrow_mut"}
WAITS = {"Condvar::wait", "Condvar::wait_while", "Condvar::wait_timeout", "Barrier::wait", "Receiver::recv", "thread::park", "thread::sleep"}
MAPS = {"HashMap", "BTreeMap", "LruCache", "IndexMap"}
ASKS, TOLD = {"probability", "viterbi", "marginal"}, {"set", "tag"}
API = ("parse", "parse_with_alternatives", "get_slots", "get_slots_with_alternatives", "get_intents", "extract_slot")


def pair(name):
    """Type::method of a path without generics."""
    from ..facts import plain
    p = plain(name).split("::")
    return "::".join(p[-2:])


def is_cell(t):
    n = leaf(t["d"])
    return n in CELLS or n.startswith("Atomic")


class State:
    """All types an engine is made of: what can change behind a shared reference."""

    def __init__(self, ctx, root):
        self.ctx, self.lib = ctx, ctx.prog.lib
        self.cells = []          # (owner, field, cell type)
        self.raw = []
        self.seen = set()
        self.visit_adt(root)

    def visit_adt(self, path):
        a = self.lib.adts.get(path)
        if a is None or path in self.seen:
            return
        self.seen.add(path)
        for v in a["variants"]:
            for f in v["fields"]:
                self.visit(self.lib.types[f["tj"]], path, f["name"])

    def visit(self, t, owner, field):
        if not isinstance(t, dict):
            return
        k = t.get("k")
        if k == "adt":
            if is_cell(t):
                self.cells.append((owner, field, t))
            self.visit_adt(t["d"])
        elif k in ("ptr", "ptrmut"):
            self.raw.append((owner, field, tshow(t)))
        elif k == "dyn":
            tr = leaf(t.get("d") or "")
            for im in self.lib.impls:
                if leaf((im.get("trait") or "").split("<")[0]) == tr:
                    s = self.lib.types[im["selfj"]] if isinstance(im.get("selfj"), int) else None
                    if s is not None:
                        self.visit(s, s.get("d") or im["self"], "")
        for x in t.get("a", []):
            self.visit(x, owner, field)


def contents(t):
    a = [x for x in t.get("a", []) if isinstance(x, dict)]
    return a[-1] if a else None


def keyed(lib, t, depth=0):
    """Is a content a memory of values by key?"""
    if not isinstance(t, dict) or t.get("k") != "adt" or depth > 4:
        return False
    if leaf(t["d"]) in MAPS:
        return True
    a = lib.adts.get(t["d"])
    if a is None:
        return leaf(t["d"]) in ("Box", "Arc", "Option") and any(keyed(lib, x, depth + 1) for x in t.get("a", []))
    fs = [f for v in a["variants"] for f in v["fields"]]
    return len(fs) >= 1 and all(keyed(lib, lib.types[f["tj"]], depth + 1) or prim(lib.types[f["tj"]]) for f in fs) and \
        any(keyed(lib, lib.types[f["tj"]], depth + 1) for f in fs)


def prim(t):
    return isinstance(t, dict) and t.get("k") == "prim"


def uses(cr, ids, prog):
    """(body, block, terminator, callee path) of every call of some bodies."""
    for b in ids:
        body = prog.bodies[b]
        for i, bb in enumerate(body["bbs"]):
            t = bb["t"]
            if t["k"] == "call" and not bb.get("cleanup") and isinstance(t["f"], dict) and t["f"].get("fn"):
                yield body, i, t, t["f"]["fn"].get("r") or t["f"]["fn"]["d"], t["f"]["fn"]


def argtype(body, x):
    cr = body["crate"]
    if isinstance(x, list) and isinstance(x[1], list) and len(x[1]) == 1:
        return cr.types[body["locals"][x[1][0]]]
    if isinstance(x, list) and isinstance(x[1], int):
        return cr.types[body["locals"][x[1]]]
    return None


def read_after(body, local):
    """Is a local used other than being dropped?"""
    def has(x):
        if isinstance(x, list):
            return (len(x) == 2 and x[0] in ("c", "m") and (x[1] == local or isinstance(x[1], list) and x[1] and x[1][0] == local)) or any(has(y) for y in x)
        return isinstance(x, dict) and any(has(y) for k, y in x.items() if k not in ("d", "l"))
    for bb in body["bbs"]:
        for s in bb["s"]:
            if has(s.get("rv")):
                return True
        t = bb["t"]
        if t["k"] == "call" and any(has(x) for x in t["xs"]):
            return True
        if t["k"] in ("switch", "assert") and has(t.get("x")):
            return True
    return False


@check("C23")
def c23(ctx):
    """The types an engine is made of are walked from its fields, through trait objects to every implementation: the
    engine can be shared between threads, and whatever can change behind a shared reference (locks, cells, atomics,
    statics, raw pointers) is enumerated with every place that reads or writes it in code a query may run; what is
    neither a memory by key nor the tagger must not be both written and read by queries.  Each acquisition of a lock
    is told apart from every other along each path: the tagger is asked only about the sequence it was given under
    the same acquisition, and no path fails or panics for what another thread may have changed between two
    acquisitions.  From the places where guards are alive, the locks that may be taken (through calls, trait objects
    and closures, in the library and its C interface) form an order without a cycle."""
    prog, lib = ctx.prog, ctx.prog.lib
    g = Graph(prog)
    eng = lib.adts.get("nlu_engine::SnipsNluEngine")
    if eng is None:
        eng = next((a for p, a in lib.adts.items() if leaf(p) == "SnipsNluEngine"), None)
    ctx.ob("public entry point is present", "SnipsNluEngine", eng is not None)
    if eng is None:
        return
    w = "%s:%s" % (eng["span"]["f"], eng["span"]["l"])
    rule = "an engine can be shared between threads"
    ctx.ob(rule, "SnipsNluEngine is Sync", eng["sync"] is True, "the type is not Sync", w)
    ctx.ob(rule, "SnipsNluEngine is Send", eng["send"] is True, "the type is not Send", w)

    # ---- what queries may run
    roots = []
    for n in API:
        b = prog.find("SnipsNluEngine::" + n, optional=True)
        if b is None:
            if n == "extract_slot":
                continue
            ctx.ob("public entry point is present", "SnipsNluEngine::" + n, False)
            continue
        roots.append(b["id"])
        t = lib.types[b["locals"][1]] if isinstance(b["locals"][1], int) else {}
        ctx.ob(rule, n + " takes a shared reference", t.get("k") == "ref" or None if t.get("k") == "refmut" and n == "extract_slot" else t.get("k") == "ref",
               t.get("s", ""), where(b))
    # the parts of an engine are shared as well: what their (shareable) interfaces offer
    parts = {leaf(t["path"]) for t in lib.traits if any("Sync" in x for x in t.get("supers", []))}
    for im in lib.impls:
        if leaf((im.get("trait") or "").split("<")[0]) in parts:
            roots += [it["id"] for it in im["items"] if it["id"] in prog.bodies]
    ctx.count("shareable_interfaces", len(parts))
    live = g.reach(roots)
    ctx.count("functions_queries_may_run", len(live))
    ctx.floor("functions a query may run", len(live), 60)

    # ---- what can change behind a shared reference
    st = State(ctx, eng["path"])
    ctx.count("types_walked", len(st.seen))
    ctx.count("shared_cells", len(st.cells))
    ctx.floor("types an engine is made of", len(st.seen), 25)
    rule = "what a query leaves behind is not seen by another one"
    for o, f, t in st.raw:
        ctx.ob(rule, "%s.%s" % (leaf(o), f), None, "a raw pointer: %s" % t, w)
    for im in lib.impls:
        tr = leaf(im.get("trait") or "")
        if im.get("unsafe") and tr in ("Send", "Sync"):
            s = lib.types[im["selfj"]] if isinstance(im.get("selfj"), int) else {}
            p = s.get("d")
            if p in st.seen:
                sub = State(ctx, p)
                free = [c for c in sub.cells if leaf(c[2]["d"]) not in ("Mutex", "RwLock", "OnceLock", "LazyLock") and not leaf(c[2]["d"]).startswith("Atomic")]
                ctx.ob("an engine can be shared between threads", "unsafe impl %s for %s" % (tr, leaf(p)), not free and not sub.raw or (False if free else None),
                       ", ".join("%s.%s: %s" % (leaf(a), b, tshow(c)) for a, b, c in free), "%s:%s" % (im["span"]["f"], im["span"]["l"]))
    seen = set()
    taggers = 0
    for o, f, t in st.cells:
        con = "%s.%s: %s" % (leaf(o), f, leaf(t["d"]))
        if con in seen:
            continue
        seen.add(con)
        c = contents(t)
        if leaf(t["d"]) in ("Mutex", "RwLock") and c is not None and keyed(lib, c):
            ctx.ob(rule, con, True if mine(prog, o, f) else None, "a memory by key (C20 decides what it holds)", w)
            continue
        if leaf(t["d"]) in ("Mutex", "RwLock") and c is not None and c.get("k") == "adt" and leaf(c["d"]) in ("Tagger", "CRFSuiteTagger"):
            taggers += 1
            ctx.ob(rule, con, True, "the tagger (its sequences are followed below)", w)
            continue
        r, wr, at = accesses(ctx, live, t)
        ctx.ob(rule, con, False if r and wr else True if not (r or wr) else None if wr is None or r is None else True,
               "%s is written by %s and read by %s" % (tshow(t), at[1], at[0]), w)
    for s in lib.raw["statics"]:
        statics(ctx, g, live, s, rule)
    tls(ctx, live, rule)

    # ---- locks
    order(ctx, g)
    acquisitions(ctx, g, live)
    for body, i, t, name, fn in uses(lib, live, prog):
        if pair(name) in WAITS:
            ctx.ob("a query waits for nothing but locks", pair(name), None, "", where(body))


def mine(prog, owner, field):
    """Is this the memory of one of the entity parsers C20 looks at?"""
    for tr in ("BuiltinEntityParser", "CustomEntityParser"):
        for s, b in prog.trait_impls(tr, "extract_entities"):
            if s == owner:
                return True
    return False


def accesses(ctx, live, cell):
    """Who reads, who writes a cell of this type in the code a query may run."""
    prog = ctx.prog
    reads, writes = [], []
    want = tshow(cell)
    inner = tshow(contents(cell)) if contents(cell) is not None else None
    unknown = False
    for body, i, t, name, fn in uses(None, live, prog):
        if not t["xs"]:
            continue
        a = argtype(body, t["xs"][0])
        if a is None:
            continue
        ref = a["a"][0] if a.get("k") in ("ref", "refmut") and a.get("a") else a
        n = leaf(name)
        w = "%s" % body["path"]
        if tshow(ref) == want:
            d = t["d"][0] if isinstance(t["d"], list) else t["d"]
            if n in ("load", "get", "get_mut", "with", "borrow_with"):
                reads.append(w)
            elif n in ("store", "set"):
                writes.append(w)
            elif n in ("swap", "replace", "take", "compare_exchange", "compare_and_swap", "compare_exchange_weak") or n.startswith("fetch_"):
                writes.append(w)
                if read_after(body, d):
                    reads.append(w)
            elif n in ("get_or_init", "get_or_try_init", "get_or_insert_with"):
                of = from_query(body, t)
                if of:
                    reads.append(w)
                    writes.append(w)
                elif of is None:
                    unknown = True
        elif inner is not None and ref.get("k") == "adt" and guarded(ref) == [inner]:
            if n == "deref":
                reads.append(w)
            elif n == "deref_mut":
                writes.append(w)
                if through(body, t):
                    reads.append(w)
    return reads or (None if unknown else []), writes or (None if unknown else []), (", ".join(sorted(set(reads))), ", ".join(sorted(set(writes))))


def from_query(body, t):
    """Is what fills a cell once taken from the arguments of a query (and not only from what is fixed)?"""
    cr = body["crate"]
    argc = body["argc"]
    defs = {}

    def loc(p):
        return p[0] if isinstance(p, list) else p

    def ops(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m"):
                return [loc(x[1])]
            return [y for z in x for y in ops(z)]
        if isinstance(x, dict):
            out = [y for k, z in x.items() if k not in ("d", "l", "p") for y in ops(z)]
            return out + ([loc(x["p"])] if x.get("k") in ("ref", "discr", "rawptr") and "p" in x else [])
        return []
    for bb in body["bbs"]:
        for s in bb["s"]:
            if s.get("p") is not None:
                defs.setdefault(loc(s["p"]), []).extend(ops(s.get("rv")))
        x = bb["t"]
        if x["k"] == "call":
            defs.setdefault(loc(x["d"]), []).extend(ops(x["xs"]))
    seen, todo = set(), [y for x in t["xs"][1:] for y in ops(x)]
    if not todo:
        return False
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(defs.get(x, []))
    args = {x for x in seen if 1 <= x <= argc}
    if cr.types[body["locals"][1]].get("k") == "ref" and not body["kind"].startswith("Closure"):
        return bool(args - {1})
    return None if args else False


def through(body, t):
    """Is what a guard gives out for writing also handed to a function or copied?"""
    d = t["d"][0] if isinstance(t["d"], list) else t["d"]
    for bb in body["bbs"]:
        x = bb["t"]
        if x["k"] == "call":
            for a in x["xs"]:
                p = a[1] if isinstance(a, list) and len(a) == 2 else None
                if p == d or isinstance(p, list) and p and p[0] == d:
                    return True
        for s in bb["s"]:
            rv = s.get("rv") or {}
            if rv.get("k") == "ref":
                p = rv.get("p")
                if isinstance(p, list) and p and p[0] == d:
                    return True
    return False


def statics(ctx, g, live, s, rule):
    """A static with a content that can change."""
    prog = ctx.prog
    ty = s["ty"]
    inner = any(x in ty for x in ("Mutex<", "RwLock<", "Cell<", "Atomic", "OnceLock<", "LazyLock<", "Lazy<"))
    if not inner and not s["mut"]:
        # lazy_static: a type of its own, filled once
        return
    by = []
    for b in live:
        body = prog.bodies[b]
        if mentions(body, s["path"]):
            by.append(body["path"])
    if not by:
        return
    lazy = ("LazyLock<" in ty or "Lazy<" in ty or "OnceLock<" in ty or "OnceCell<" in ty) and \
        not any(x in ty.split("Lock<", 1)[-1] for x in ("Mutex<", "RwLock<", "RefCell<", "Atomic"))
    if lazy:
        ok_ = True
        if "Lazy" not in ty:
            for b in live:
                for body_, i, t, name, fn in uses(None, [b], prog):
                    if leaf(name) in ("get_or_init", "get_or_try_init") and mentions(body_, s["path"]):
                        args = from_query(body_, t)
                        ok_ = False if args else (ok_ if args is False else None)
                    elif leaf(name) == "set" and "Once" in name and mentions(body_, s["path"]):
                        ok_ = None if ok_ else ok_
        ctx.ob(rule, "static " + leaf(s["path"]), ok_, "filled once, from what a query is asked: %s" % ty)
        return
    body = sorted(by)
    if s["mut"]:
        ctx.ob(rule, "static " + leaf(s["path"]), False, "a static that queries may change: %s" % ", ".join(body))
        return
    writes, reads = [], []
    for b in live:
        bd = prog.bodies[b]
        if not mentions(bd, s["path"]):
            continue
        for body_, i, t, name, fn in uses(None, [b], prog):
            n = leaf(name)
            d = t["d"][0] if isinstance(t["d"], list) else t["d"]
            p = pair(name)
            if n in ("store", "set", "insert", "push", "clear") or n == "deref_mut" and "Guard" in name:
                writes.append(bd["path"])
            if n in ("load",) or n == "deref" and "Guard" in name:
                reads.append(bd["path"])
            if n == "deref_mut" and "Guard" in name and through(bd, t):
                reads.append(bd["path"])
            if "Atomic" in p and (n.startswith("fetch_") or n in ("swap", "compare_exchange", "compare_exchange_weak", "compare_and_swap")):
                writes.append(bd["path"])
                if read_after(bd, d):
                    reads.append(bd["path"])
    memo = any(m + "<" in ty for m in MAPS)
    ctx.ob(rule, "static " + leaf(s["path"]), (None if memo else False) if writes and reads else True,
           "%s is written by %s and read by %s" % (ty, ", ".join(sorted(set(writes))), ", ".join(sorted(set(reads)))))


def mentions(body, path):
    def has(x):
        if isinstance(x, dict):
            return x.get("static") == path or any(has(y) for y in x.values())
        return isinstance(x, list) and any(has(y) for y in x)
    return any(has(bb["s"]) or has(bb["t"]) for bb in body["bbs"]) or any(
        mentions(b, path) for i, b in body["crate"].bodies.items() if i.startswith(body["id"] + "::promoted["))


def tls(ctx, live, rule):
    """thread_local!: what a thread keeps between its own calls."""
    prog = ctx.prog
    n = {}
    for body, i, t, name, fn in uses(None, live, prog):
        if pair(name).startswith("LocalKey") and body["crate"].name == "snips_nlu_lib":
            n.setdefault(body["path"], set()).add(leaf(name))
    for p, names in sorted(n.items()):
        ctx.ob(rule, "thread local in " + p, False if names & {"with", "with_borrow_mut", "set", "replace", "take", "get", "with_borrow", "try_with"} else None,
               "a query reads what an earlier one of its thread left (%s)" % ", ".join(sorted(names)))


# ------------------------------------------------------------------ lock order

def order(ctx, g):
    """While a guard is alive, which locks may be taken?"""
    prog = ctx.prog
    rule = "locks are taken in an order without a cycle"
    takes = {}

    def taken(bid, stack):
        """Contents of the locks a body may take, itself or in what it calls."""
        if bid in takes:
            return takes[bid]
        out = {}
        todo, seen = [bid], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            b = prog.bodies[x]
            for i, (name, to, t) in g.calls(b).items():
                if pair(name) in LOCKS and leaf(name) not in TRIES:
                    for c in acquired(b, t):
                        out.setdefault(c, b["path"])
                todo.extend(to)
        takes[bid] = out
        return out

    def acquired(b, t):
        cr = b["crate"]
        c = guarded(cr.types[t["dt"]]) if isinstance(t.get("dt"), int) else []
        return [(norm_crate(c[0], cr))] if c else []

    def norm_crate(s, cr):
        return s.replace("snips_nlu_lib::", "")

    edges = {}
    regions = 0
    for b in list(prog.bodies.values()):
        if b["crate"].name not in ("snips_nlu_lib", "snips_nlu_ffi", "snips_nlu_python_ffi"):
            continue
        h = Held(b)
        cs = g.calls(b)
        for i, liveg in h.at.items():
            if not liveg or i not in cs:
                continue
            regions += 1
            name, to, t = cs[i]
            new = {}
            if pair(name) in LOCKS and leaf(name) not in TRIES:
                for c in acquired(b, t):
                    new[c] = b["path"]
            for x in to:
                for c, p in taken(x, ()).items():
                    new.setdefault(c, p)
            for l in liveg:
                for c in h.cls[l]:
                    for d, p in new.items():
                        edges.setdefault(norm_crate(c, b["crate"]), {}).setdefault(d, (b, p))
    ctx.count("calls_under_a_lock", regions)
    ctx.floor("calls made under a lock", regions, 6)
    n = 0
    for c in sorted(edges):
        for d in sorted(edges[c]):
            n += 1
            seen, todo = set(), [d]
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo.extend(edges.get(x, {}))
            b, p = edges[c][d]
            ctx.ob(rule, "%s before %s" % (short(c), short(d)), c not in seen,
                   "a lock on %s is held in %s while %s takes one on %s, and the other way round" % (short(c), b["path"], p, short(d)), where(b))
    ctx.ob(rule, "orders", True, "%d" % n)


def short(c):
    import re
    return re.sub(r"[a-z_0-9]+::", "", c)[:80]


# ------------------------------------------------------------------ acquisitions

def held(t):
    return [x for x in parts_of(t) if x.op == "app" and x.a[0] == "held"]


def parts_of(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, V):
            if isinstance(x, (tuple, list, frozenset)):
                todo.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        todo.extend(x.a)
    return out


def acquisitions(ctx, g, live):
    """Runs every query function that takes a lock itself (or in a helper), telling its acquisitions apart."""
    prog = ctx.prog
    takers = set()
    for b in live:
        for name, to, t in g.calls(prog.bodies[b]).values():
            if pair(name) in LOCKS:
                takers.add(b)
    asked = set()
    for body, i, t, name, fn in uses(None, {b for b in prog.lib.bodies}, prog):
        if pair(name).startswith("Tagger::") and leaf(name) in ASKS:
            asked.add(body["id"])
    # implementations of a trait, or functions of the engine, from which those are reached without another such
    entries = [b for b in live if prog.bodies[b].get("impl_trait") and not prog.bodies[b].get("derived")]
    todo = []
    for b in entries:
        body = prog.bodies[b]
        down = g.reach([b])
        near = {b}
        front = [b]
        while front:
            x = front.pop()
            for name, to, t in g.calls(prog.bodies[x]).values():
                for y in to:
                    if y not in near and not (prog.bodies[y].get("impl_trait") and y in entries):
                        near.add(y)
                        front.append(y)
        if near & (takers | asked):
            todo.append(body)
    ctx.count("functions_taking_locks", len(todo))
    ctx.floor("query functions that take locks", len(todo), 3)
    covered = set()
    rule = "the tagger is asked about the sequence it was given under the same lock"
    for b in sorted(todo, key=lambda x: x["id"]):
        ps = params(b)
        hooks = {n: acquire for n in LOCKS}
        try:
            e, rs = ctx.run(b, ps, hooks=hooks)
        except Exception as ex:
            ctx.ob(rule, b["path"], None, "%s: %s" % (type(ex).__name__, ex), where(b))
            continue
        n = 0
        for ev in e.events.values():
            nm = pair(ev.name)
            if nm.startswith("Tagger::") and leaf(ev.name) in ASKS:
                n += 1
                covered.add(leaf(ev.name))
                own = held(ev.args[0])
                told = [h for h in ev.hist if h.op == "did" and pair(h.a[1]).startswith("Tagger::") and leaf(h.a[1]) in TOLD]
                hit = [h for h in told if set(held(h.a[2][0])) & set(own)]
                ctx.ob(rule, "%s in %s" % (leaf(ev.name), b["path"]), bool(hit) if own else (None if told else False),
                       "asked under %s, given under %s" % (", ".join(map(lambda x: show(x, 2), own)), "; ".join(show(h.a[2][0], 3) for h in told)), where(b))
        between(ctx, e, rs, b)
    if asked:
        ctx.floor("questions to the tagger that were followed", len(covered), 1)


def acquire(e, st, args, site, fn):
    v = e.deref(st, args[0])
    name = last(site.fn["d"])
    tag = C("str", site.tag(name))
    h = app("held", tag, v)
    st = e.did(st, "lock", name, [h])
    e.event("lock", site.fn["d"], [h], st, site)
    p = mk("ptr", ("h", h), ())
    if name in ("borrow", "borrow_mut"):
        return [(st, p)]
    if name in TRIES:
        outs = []
        c = app("free", tag, v)
        s = e.assume(st, isv(c, "Ok"), True)
        if s is not None:
            outs.append((s, ok(p)))
        s = e.assume(st, isv(c, "Ok"), False)
        if s is not None:
            outs.append((s, err(app("busy", tag, v))))
        return outs
    return [(st, ok(p))]


def value_parts(t):
    """The parts of a value, not the conditions under which a collection has its elements."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, V):
            if x in out:
                continue
            out.append(x)
            if x.op == "coll":
                todo.extend(g_[0] for g_ in gens_of(x) or [])
            else:
                todo.extend(x.a)
    return out


def between(ctx, e, rs, b):
    """What another thread does between two acquisitions, or while it holds the lock, decides nothing."""
    rule = "no query fails for what another one does"
    n = 0

    def later(hist, h):
        """Was the same lock taken before under another acquisition?"""
        return any(x.op == "did" and x.a[0] == "lock" and x.a[2][0] is not h and x.a[2][0].a[2] is h.a[2] for x in hist)

    def conditions(facts):
        return [c for c, p in facts if c.op in ("is", "app", "eq", "ge0") and not (c.op == "is" and c.a[0].op == "app" and c.a[0].a[0] == "free")]

    for ev in e.events.values():
        if ev.kind != "panic" or ev.name == "index":
            continue
        n += 1
        ts = list(ev.args) if ev.name != "panic" else conditions(ev.facts)
        parts = [x for t in ts for x in value_parts(t)]
        for h in {x for x in parts if x.op == "app" and x.a[0] == "held"}:
            if later(ev.hist, h):
                ctx.ob(rule, "%s: panics" % b["path"], False, "what is taken for granted under one lock was established under another: %s" %
                       "; ".join(show(t, 4) for t in ts if h in value_parts(t))[:300], where(b))
        if any(x.op == "app" and x.a[0] in ("free", "busy") for x in parts):
            ctx.ob(rule, "%s: panics" % b["path"], False, "panics when another query holds the lock", where(b))
    for s, r in rs:
        if r is None or not isinstance(r, V):
            continue
        fails = decide(s.facts, isv(r, "Err")) is True or (r.op == "en" and r.a[1] == "Err")
        other = [c for c, p in s.facts if c.op == "is" and c.a[1] == "Ok" and p is False and c.a[0].op == "app" and c.a[0].a[0] != "free"]
        busy = [c for c, p in s.facts if c.op == "is" and c.a[0].op == "app" and c.a[0].a[0] == "free" and p is False]
        if fails and not other:
            for c in conditions(s.facts):
                for h in held(c):
                    if later(s.hist, h):
                        ctx.ob(rule, "%s: error" % b["path"], False, "an error for what was established under another lock: %s" % show(c, 4), where(b))
        if busy:
            if fails:
                ctx.ob(rule, "%s: error" % b["path"], True if other else False, "an error when another query holds the lock", where(b))
            else:
                ctx.ob(rule, "%s: answer" % b["path"], answered(s, r), "answers %s when another query holds the lock" % show(r, 3), where(b))
    ctx.ob(rule, b["path"], True, "%d panicking paths" % n)


def answered(s, r):
    """Is the answer worked out although the lock was busy?"""
    r = vfld(r, "Ok", "0") if r.op != "en" else (r.a[3][0] if r.a[3] else r)
    calls = [x for x in parts_of(r) if x.op == "app" and last(x.a[0]) not in ("held", "busy", "free")]
    return True if calls else False
