"""Interprocedural abstract interpretation of MIR in the provenance-term domain of terms.py.

Values are terms; a state partitions executions by the branch facts that hold on them.  Loops are run to a
fixpoint (generators for collections, phi terms with recorded candidates for scalars); calls are followed into the
crate's own bodies, modelled (models.py) for the standard library, or kept as uninterpreted applications.
Nothing is executed and nothing is sent to a solver: the interpreter only walks the control-flow graph.
"""
import re
import sys

from .terms import *
from . import terms as T

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "hist")

    def __init__(self, mem, facts, hist):
        self.mem = mem
        self.facts = facts
        self.hist = hist

    def copy(self):
        return State(dict(self.mem), self.facts, self.hist)

    def key(self):
        return (frozenset(self.mem.items()), self.facts, self.hist)


def loop_mark(kind, loopid, *more):
    return app("·" + kind, C("str", repr(loopid)), *more)


class Event:
    __slots__ = ("kind", "name", "args", "facts", "hist", "body", "bb", "line", "ret", "chain", "mem")

    def __init__(self, kind, name, args, st, site, ret=None):
        self.kind, self.name, self.args = kind, name, tuple(args)
        self.facts, self.hist = st.facts, st.hist
        self.body, self.bb, self.line = site.body["id"], site.bb, site.line
        self.ret = ret
        self.chain = site.chain

    def __repr__(self):
        return "<%s %s(%s) in %s>" % (self.kind, short(self.name), ", ".join(show(a, 4) for a in self.args), short_id(self.body))


def short_id(i):
    return i.replace("snips_nlu_lib::", "").replace("snips_nlu_ffi::", "ffi::")


class Site:
    __slots__ = ("body", "bb", "fid", "chain", "line", "crate", "fn", "sub")

    def __init__(self, body, bb, fid, chain, line, fn=None, sub=""):
        self.body, self.bb, self.fid, self.chain, self.line, self.fn = body, bb, fid, chain, line, fn
        self.crate = body["crate"]
        self.sub = sub

    def tag(self, s=""):
        return "%s:%s%s%s" % (self.fid, self.bb, self.sub, s)

    def targ(self, i):
        a = (self.fn or {}).get("a") or []
        return self.crate.types[a[i]]["s"] if i < len(a) else ""

    def item_type(self):
        i = (self.fn or {}).get("it")
        return self.crate.types[i]["s"].lstrip("&").replace("mut ", "") if i is not None else ""

    def with_sub(self, s):
        return Site(self.body, self.bb, self.fid, self.chain, self.line, self.fn, self.sub + s)


_gen_re = re.compile(r"<[^<>]*>")


def norm(d):
    d = d.replace("->", "")
    while True:
        n = _gen_re.sub("", d)
        if n == d:
            break
        d = n
    while "::::" in d:
        d = d.replace("::::", "::")
    return d.strip(":")


def key2(d):
    p = norm(d).split("::")
    return "::".join(p[-2:])


class Cfg:
    def __init__(self, body):
        bbs = body["bbs"]
        self.n = len(bbs)
        self.succ = []
        for b in bbs:
            t = b["t"]
            k = t["k"]
            if k == "switch":
                s = [x[1] for x in t["ts"]] + ([t["o"]] if t.get("o") is not None else [])
            elif k in ("goto", "drop", "assert", "call"):
                s = [t["t"]] if t.get("t") is not None else []
            else:
                s = []
            self.succ.append([x for x in s if not bbs[x].get("cleanup")])
        # rpo
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(self.succ[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        # dominators
        dom = {order[0]: {order[0]}}
        allb = set(order)
        for b in order[1:]:
            dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in preds[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.dom = dom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in dom[b]:
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st.extend(preds[x])
        self._live(body, order)

    def _live(self, body, order):
        """Locals live at block entry; locals whose address is taken mutably are always kept."""
        use, dfn = {}, {}
        keep = set(range(body["argc"] + 1))

        def pl_use(p, u, d):
            l = p if isinstance(p, int) else p[0]
            if l not in d:
                u.add(l)
            if not isinstance(p, int):
                for e in p[1:]:
                    if isinstance(e, dict) and "i" in e and isinstance(e["i"], int) and e["i"] not in d:
                        u.add(e["i"])

        def op_use(x, u, d):
            if isinstance(x, list):
                pl_use(x[1], u, d)

        def rv_use(r, u, d):
            k = r["k"]
            if k in ("ref", "rawptr"):
                if r.get("mut"):
                    p = r["p"]
                    keep.add(p if isinstance(p, int) else p[0])
                pl_use(r["p"], u, d)
            elif k == "discr":
                pl_use(r["p"], u, d)
            else:
                for kk in ("x", "y"):
                    if kk in r:
                        op_use(r[kk], u, d)
                for x in r.get("xs", []):
                    op_use(x, u, d)

        for b in order:
            u, d = set(), set()
            for s in body["bbs"][b]["s"]:
                if "rv" in s:
                    rv_use(s["rv"], u, d)
                    if isinstance(s["p"], int):
                        d.add(s["p"])
                    else:
                        pl_use(s["p"], u, d)
                elif "setd" in s:
                    pl_use(s["p"], u, d)
            t = body["bbs"][b]["t"]
            k = t["k"]
            if k in ("switch", "assert"):
                op_use(t["x"], u, d)
            if k == "call":
                op_use(t["f"], u, d)
                for x in t["xs"]:
                    op_use(x, u, d)
                if isinstance(t["d"], int):
                    d.add(t["d"])
                else:
                    pl_use(t["d"], u, d)
            use[b], dfn[b] = u, d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succ[b]:
                    o |= live.get(s, set())
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = {b: live[b] | keep for b in order}


def cfg(body):
    c = body.get("_cfg")
    if c is None:
        c = body["_cfg"] = Cfg(body)
    return c


class Engine:
    MAXSTATES = 150
    MAXENTRY = 12
    MAXIT = 7
    MAXDEPTH = 40
    MAXERR = 6
    MAXRET = 24

    def __init__(self, prog, opaque=(), hooks=None, budget=3000000, focus=(), slice_on=False):
        self.slice_on = slice_on
        self.focus = frozenset(focus)
        self.focus_memo = {}
        from . import models
        self.prog = prog
        self.models = models.MODELS
        self.opaque = set(opaque)
        self.hooks = hooks or {}
        self.unrolling = []
        self.survived = set()      # conditions without which the function does not go on normally
        self.filtered = set()      # conditions iterators were filtered by
        self.events = {}
        self.phi = {}
        self.entries = {}
        self.sources = {}       # loop -> the iterator it walks
        self.rounds = {}        # loop -> the states at the ends of its round
        self.phiver = 0
        self.tag_loops = {}
        self.orders = {}
        self.searches = []      # (element, facts before, facts when it is no hit, facts when it is) of every search
        self.loopstack = []
        self.fids = {}
        self.steps = 0
        self.budget = budget
        self.opaque_calls = {}
        self.inlined = set()
        self.active = []
        self.fns = {}
        self.freshtab = {}
        self.unknown = {}
        self.unknown_names = set()
        self.incomplete = []
        self.gens_active = set()
        self.indexed = {}     # tag of an element taken at an index -> the index
        self.guarded = set()  # what is behind a lock: shared, and written by others
        self.profile = {}

    # ------------------------------------------------------------ tags
    def newtag(self, tag):
        self.tag_loops[tag] = self.tag_loops.get(tag, frozenset()) | frozenset(self.loopstack)
        return tag

    def fresh_tag(self, base, tag):
        k = (base, tag)
        t = self.freshtab.get(k)
        if t is None:
            t = self.freshtab[k] = "t%d" % len(self.freshtab)
        return self.newtag(t)

    def elem_of(self, st, src, tag):
        """the generic element of a symbolic collection"""
        self.newtag(tag)
        e = elem(src, tag)
        st = self.add(st, app("contains", src, e), True)
        return st, e

    def freshen(self, st, g, tag):
        v, facts, bound = g
        if bound:
            m = {b: self.fresh_tag(b, tag) for b in bound}
            fn = lambda t: m.get(t, t)
            v = retag(v, fn)
            facts = retag(facts, fn)
        for (t, p) in sorted(facts, key=lambda x: x[0].id):
            st = self.assume(st, t, p)
            if st is None:
                return None, v
        return st, v

    # ------------------------------------------------------------ facts
    def decide(self, st, t):
        return decide(st.facts, t)

    def add(self, st, t, pol):
        if (t, pol) in st.facts:
            return st
        st = st.copy()
        st.facts = st.facts | {(t, pol)}
        return st

    def assume(self, st, t, pol):
        if t.op == "not":
            return self.assume(st, t.a[0], not pol)
        if t.op == "c":
            return st if bool(t.a[1]) == pol else None
        d = decide(st.facts, t)
        if d is not None:
            return st if d == pol else None
        if t.op == "app" and t.a[0] == "and":
            if pol:
                for x in t.a[1:]:
                    st = self.assume(st, x, True)
                    if st is None:
                        return None
                return st
            und = [x for x in t.a[1:] if decide(st.facts, x) is not True]
            if len(und) == 1:
                return self.assume(st, und[0], False)
        if t.op == "app" and t.a[0] == "or":
            if not pol:
                for x in t.a[1:]:
                    st = self.assume(st, x, False)
                    if st is None:
                        return None
                return st
            und = [x for x in t.a[1:] if decide(st.facts, x) is not False]
            if len(und) == 1:
                return self.assume(st, und[0], True)
        st = self.add(st, t, pol)
        if t.op == "is" and not pol and t.a[1] not in DUAL.values():
            vs = variants_of(t.a[1])
            if vs:
                rest = [v for v in vs if (mk("is", t.a[0], v), False) not in st.facts]
                if len(rest) == 1:
                    st = self.add(st, mk("is", t.a[0], rest[0]), True)
                elif not rest:
                    return None
        if t.op == "app" and t.a[0] == "contains" and pol:
            st = self.expand_contains(st, t.a[1], t.a[2])
        if t.op == "is" and st is not None and t.a[0].op == "app" and t.a[0].a[0] == "get":
            some_ = (t.a[1] == "Some") == pol
            m, k = t.a[0].a[1], t.a[0].a[2]
            st = self.assume(st, app("contains", keys_of(m), k), some_)
        return st

    def expand_contains(self, st, x, v):
        gs = gens_of(x)
        if gs is None:
            return st
        if not gs:
            return None
        alts = []
        for g in gs:
            alts.append(match_gen(g, v, self))
        alts = [a for a in alts if a is not None and not any(decide(st.facts, t) is (not p) for t, p in a)]
        if not alts:
            return None
        common = frozenset.intersection(*[frozenset(a) for a in alts])
        for t, p in sorted(common, key=lambda z: z[0].id):
            st = self.assume(st, t, p)
            if st is None:
                return None
        return st

    # ------------------------------------------------------------ memory
    def root_loc(self, p):
        return p.a[0], p.a[1]

    def read(self, st, loc, path):
        v = st.mem.get(loc)
        if v is None:
            v = loc[1] if loc[0] == "h" else top("uninit")
        for e in path:
            v = self.step(v, e)
        return v

    def step(self, v, e):
        if e[0] == "f":
            return fld(v, e[1])
        if e[0] == "vf":
            return vfld(v, e[1], e[2])
        if e[0] == "idx":
            return index_term(v, e[1])
        if e[0] == "mv":
            return map_value(v, e[1])
        return app("proj", v, str(e))

    def write(self, st, loc, path, val):
        st = st.copy()
        if not path:
            st.mem[loc] = val
            return st
        old = st.mem.get(loc)
        if old is None:
            old = loc[1] if loc[0] == "h" else top("uninit")
        st.mem[loc] = self.upd(old, path, val, st)
        return st

    def upd(self, v, path, val, st):
        if not path:
            return val
        e, rest = path[0], path[1:]
        inner = self.upd(self.step(v, e), rest, val, st) if rest else val
        if e[0] == "f":
            return with_field(v, e[1], inner)
        if e[0] == "vf":
            return with_vfield(v, e[1], e[2], inner)
        if e[0] == "idx":
            h = self.hooks.get("[]=")
            if h is not None:
                r = h(self, st, v, e[1], inner)
                if r is not None:
                    return r
            if v.op == "list" and e[1].op == "c" and 0 <= e[1].a[1] < len(v.a[1]):
                it = list(v.a[1])
                it[e[1].a[1]] = inner
                return seq(v.a[0], it)
            gs = gens_of(v)
            if gs is not None:
                return coll(v.a[0], gs + (gen(inner, st.facts),), app("o_upd"))
            return app("set_idx", v, e[1], inner)
        if e[0] == "mv":
            gs = gens_of(v)
            if gs is not None:
                gs = tuple(g for g in gs if fld(g[0], "0") is not e[1])
                return coll("map", gs + (gen(tup(e[1], inner), slim(st.facts) if self.loopstack else st.facts),),
                            v.a[2] if v.op == "coll" else None)
            return app("set_key", v, e[1], inner)
        return app("upd", v, str(e), inner)

    def lvalue(self, st, fid, place):
        """(loc, path) designated by a place, following mutable pointers."""
        if isinstance(place, int):
            return (fid, place), ()
        loc, path = (fid, place[0]), ()
        pend = None
        for e in place[1:]:
            if e == "*":
                v = self.read(st, loc, path)
                if v.op == "ptr":
                    loc, path = v.a[0], v.a[1]
                continue
            if "v" in e and "f" not in e:
                pend = e["n"]
                continue
            if "f" in e:
                if last_seg(e.get("o") or "") in ("MaybeUninit", "ManuallyDrop", "MaybeDangling"):
                    continue            # `vec![..]` writes through wrappers: they are transparent
                nm = str(e.get("n", e["f"]))
                if nm.isdigit() and e.get("n") is None:
                    nm = str(e["f"])
                if pend is not None:
                    path = path + (("vf", pend, nm),)
                    pend = None
                else:
                    path = path + (("f", nm),)
                    # a pointer stored in a field is followed by the next deref
                continue
            if "i" in e:
                iv = st.mem.get((fid, e["i"]), top("idx"))
                path = path + (("idx", iv),)
                continue
            if "ci" in e:
                path = path + (("idx", I(-1 - e["ci"] if e.get("fe") else e["ci"])),)
                continue
            path = path + (("x", str(e)),)
        return loc, path

    def load(self, st, fid, place):
        loc, path = self.lvalue(st, fid, place)
        return self.read(st, loc, path)

    def deref(self, st, v):
        """The value behind a (possibly nested) mutable pointer."""
        n = 0
        while v.op == "ptr" and n < 8:
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        return v

    def deep(self, st, v):
        """deref for events: also inside structs."""
        v = self.deref(st, v)
        if v.op in ("st", "en", "cl"):
            vals = v.a[-1]
            nv = tuple(self.deep(st, x) if x.op in ("ptr", "st", "en", "cl") else x for x in vals)
            if nv != vals:
                return mk(v.op, *(v.a[:-1] + (nv,)))
        return v

    # ------------------------------------------------------------ operands / rvalues
    def const(self, crate, k):
        if "fn" in k:
            f = k["fn"]
            key = (crate.name, f.get("u") or "", f["d"], f.get("r") or "", tuple(crate.types[x]["s"] for x in f.get("a", [])))
            self.fns[key] = (crate, f)
            return mk("fn", f["d"], key)
        if "b" in k:
            return B(k["b"])
        if "i" in k:
            return I(k["i"])
        if "s" in k:
            return S(k["s"])
        if "ch" in k:
            return I(ord(k["ch"])) if isinstance(k["ch"], str) else I(k["ch"])
        if "fl" in k:
            return C("float", k["fl"])
        if "by" in k:
            return C("bytes", tuple(k["by"]))
        if "var" in k:
            return enum(crate.types[k["t"]].get("d") or "", k["var"])
        if "prom" in k:
            b = self.prog.bodies.get(k["prom"]) if isinstance(k["prom"], str) else None
            if b is not None:
                r = self.eval_promoted(b)
                if r is not None:
                    return r
            return app("const", str(k["prom"]))
        if k.get("zst"):
            t = crate.types[k["t"]]
            if t["k"] == "tuple":
                return UNIT
            return struct(t.get("d") or t["s"], (), ())
        return app("const", str(k.get("name") or crate.types[k["t"]]["s"]))

    def eval_promoted(self, b):
        if "_val" not in b:
            b["_val"] = None
            rs = self.run_body(b, [], State({}, frozenset(), frozenset()), ("promoted", b["id"]))
            if len(rs) == 1:
                b["_val"] = rs[0][1]
        return b["_val"]

    def operand(self, st, fid, body, x):
        if isinstance(x, list):
            return self.load(st, fid, x[1])
        return self.const(body["crate"], x)

    def rvalue(self, st, fid, body, r, bb):
        k = r["k"]
        if k == "use":
            return self.operand(st, fid, body, r["x"])
        if k == "ref":
            if r["mut"]:
                loc, path = self.lvalue(st, fid, r["p"])
                if path:
                    v = self.read(st, loc, path)
                    if v.op == "ptr" and r["p"][-1] == "*":
                        return v
                return mk("ptr", loc, path)
            return self.load(st, fid, r["p"])
        if k == "rawptr":
            loc, path = self.lvalue(st, fid, r["p"])
            return mk("ptr", loc, path)
        if k == "cast":
            ck = r["ck"]
            if ck.startswith("BoxDeref") and isinstance(r["x"], list) and isinstance(r["x"][1], list):
                loc, path = self.lvalue(st, fid, r["x"][1])
                return mk("ptr", loc, path[:-1])
            x = self.operand(st, fid, body, r["x"])
            if ck in ("IntToInt",):
                ft, tt = body["crate"].types[r["ft"]]["s"], body["crate"].types[r["t"]]["s"]
                return int_cast(x, ft, tt)
            if ck in ("FloatToFloat", "IntToFloat", "FloatToInt"):
                tt = body["crate"].types[r["t"]]["s"]
                if x.op == "c" and ck == "IntToFloat":
                    return C("float", float(x.a[1]))
                if ck == "FloatToFloat":
                    return x
                return app("cast:" + tt, x)
            return x
        if k == "bin":
            return binop(r["op"], self.operand(st, fid, body, r["x"]), self.operand(st, fid, body, r["y"]),
                         self.optype(body, r["x"]))
        if k == "un":
            x = self.operand(st, fid, body, r["x"])
            if r["op"] == "Not":
                return neg(x)
            if r["op"] == "Neg":
                if x.op == "c" and x.a[0] == "float":
                    return app("fneg", x)
                if self.optype(body, r["x"]).startswith("f"):
                    return app("fneg", x)
                return scale(x, -1)
            if r["op"].startswith("PtrMetadata"):
                return length(x)
            return app(r["op"], x)
        if k == "discr":
            v = self.load(st, fid, r["p"])
            return mk("discr", v, tuple((n, d) for n, d in r.get("vs", [])))
        if k == "agg":
            xs = [self.operand(st, fid, body, x) for x in r["xs"]]
            a = r["a"]
            if a == "tuple":
                return tup(*xs) if xs else UNIT
            if a == "array":
                return seq("array", xs)
            if a == "adt":
                isen = self.is_enum(r)
                if isen:
                    d = r["d"]
                    return enum(d, r["vn"], r["fs"], xs)
                if r["d"].endswith("ops::Range"):
                    return app("range", xs[0], xs[1])
                return struct(r["d"], r["fs"], xs)
            if a == "closure":
                return mk("cl", r["d"], tuple(r.get("fs", [])), tuple(xs))
            return app("agg", *xs)
        if k == "repeat":
            return app("repeat", self.operand(st, fid, body, r["x"]))
        return app("rv:" + k)

    def optype(self, body, x):
        if isinstance(x, list):
            p = x[1]
            if isinstance(p, int):
                return body["crate"].types[body["locals"][p]]["s"]
            return ""
        return body["crate"].types[x["t"]]["s"]

    def is_enum(self, r):
        d = r["d"]
        if d in (OPT, RES, CF):
            return True
        a = self.prog.adts.get(d)
        if a is not None:
            return a["kind"].lower() == "enum"
        # external: enum when the variant name differs from the type's own name
        return r.get("vn") is not None and r["vn"] != d.split("::")[-1]

    # ------------------------------------------------------------ body execution
    def fid_of(self, chain):
        f = self.fids.get(chain)
        if f is None:
            f = self.fids[chain] = len(self.fids) + 1
        return f

    def run(self, body, args, facts=frozenset(), name=None):
        st = State({}, frozenset(facts), frozenset())
        FOCUS[0] = self
        out = self.run_body(body, args, st, (name or body["id"],))
        self.settle(out)
        return out

    def settle(self, out):
        """Conditions whose failure still leads to a normal result do select."""
        star = lambda t: retag(t, lambda x: "*")
        contra = set()
        for s, r in out:
            if r.op == "en" and r.a[1] == "Err":
                continue
            for t, p in s.facts:
                if t.tags:
                    contra.add((star(t), not p))
        contra |= {(star(t), p) for t, p in self.filtered}
        self.survived = {(t, p) for t, p in self.survived if not t.tags or (star(t), p) not in contra}

    def run_body(self, body, args, st, chain):
        fid = self.fid_of(chain)
        self.inlined.add(body["id"])
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        c = cfg(body)
        self.active.append(body["id"])
        try:
            rets = []
            exits, backs = self.region(body, c, fid, chain, {0: [st]}, None, None, rets)
        finally:
            self.active.pop()
        out = []
        seen = set()
        for s in rets:
            r = s.mem.get((fid, 0), UNIT)
            s = s.copy()
            for k in [k for k in s.mem if k[0] == fid]:
                del s.mem[k]
            kk = (r, s.key())
            if kk in seen:
                continue
            seen.add(kk)
            out.append((s, r))
        self.profile[body["id"]] = max(self.profile.get(body["id"], 0), len(out))
        errs = [x for x in out if x[1].op == "en" and x[1].a[1] in ("Err", "Break")]
        if len(errs) > self.MAXERR:
            out = [x for x in out if not (x[1].op == "en" and x[1].a[1] in ("Err", "Break"))]
            groups = {}
            for s, r in errs:
                groups.setdefault(frozenset(s.mem.items()), []).append((s, r))
            for g in groups.values():
                s = self.merge_states([x for x, _ in g])
                payload = join_u([vfld(r, r.a[1], "0") for _, r in g])
                r0 = g[0][1]
                out.append((s, mk("en", r0.a[0], r0.a[1], r0.a[2], (payload,))))
        if self.active and len(out) > 4 and all(r.op == "c" or r.op == "en" and not r.a[3] for s, r in out) and \
                len({frozenset(s.mem.items()) for s, r in out}) == 1:
            out = [(self.merge_facts([s for s, r in out]), join_u([r for s, r in out]))]
        if len(out) > self.MAXRET:
            k = (fid, 0)
            ss = []
            for s, r in out:
                s = s.copy()
                s.mem[k] = r
                ss.append(s)
            out = []
            for s in self.cap(ss, "ret", self.MAXRET):
                r = s.mem.pop(k)
                out.append((s, r))
        return out

    def region(self, body, c, fid, chain, pending, region, head, rets):
        """Runs an acyclic walk over a region (inner loops as units)."""
        exits, backs = {}, []
        first = True
        while pending:
            bb = min(pending, key=lambda b: c.rpo[b])
            states = pending.pop(bb)
            states = self.cap(self.dedupe(states), "%s:%s" % (fid, bb))
            if bb in c.loops and not (first and bb == head):
                outs = []
                ents = self.cap(states, "%s:%s:e" % (fid, bb), self.MAXENTRY)
                for s in ents:
                    outs.extend(self.loop(body, c, fid, chain, bb, s, rets))
            else:
                outs = []
                for s in states:
                    outs.extend(self.block(body, c, fid, chain, bb, s, rets))
            first = False
            for tgt, s in outs:
                if head is not None and tgt == head:
                    backs.append(s)
                elif region is not None and tgt not in region:
                    exits.setdefault(tgt, []).append(s)
                else:
                    pending.setdefault(tgt, []).append(s)
        return exits, backs

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def mentions(self, t):
        """Does a term mention one of the terms in focus?"""
        r = self.focus_memo.get(t)
        if r is None:
            r = any(x in self.focus for x in subterms(t))
            self.focus_memo[t] = r
        return r

    def focus_facts(self, facts):
        if not self.focus:
            return None
        return frozenset(f for f in facts if (f[0].op in ("is", "forall") or f[0].op == "app" and f[0].a[0] == "contains")
                         and self.mentions(f[0]))

    def focus_key(self, s):
        return self.focus_facts(s.facts)

    def cap(self, states, where, n=None):
        n = n or self.MAXSTATES
        if len(states) <= n:
            return states
        if self.focus:
            gs = {}
            for s in states:
                gs.setdefault(self.focus_key(s), []).append(s)
            if 1 < len(gs) <= 2 * n:
                out = []
                per = max(1, n // len(gs))
                for g in gs.values():
                    out.extend(self.cap_group(g, per))
                return out
        return self.cap_group(states, n)

    def cap_group(self, states, n):
        if len(states) <= n:
            return states
        groups = {}
        for s in states:
            groups.setdefault(frozenset(s.mem.items()), []).append(s)
        out = [self.merge_facts(g) for g in groups.values()]
        if len(out) <= n:
            return out
        # merge states into n buckets, by the shape of the values they hold
        out.sort(key=lambda s: sorted((str(k), v.op + (v.a[1] if v.op == "en" else "")) for k, v in s.mem.items()))
        per = (len(out) + n - 1) // n
        res = []
        for i in range(0, len(out), per):
            res.append(self.merge_states(out[i:i + per]))
        return res

    def merge_facts(self, g):
        if len(g) == 1:
            return g[0]
        s = g[0].copy()
        s.facts = frozenset.intersection(*[x.facts for x in g])
        s.hist = frozenset.intersection(*[x.hist for x in g])
        return s

    def merge_states(self, g):
        if len(g) == 1:
            return g[0]
        s = self.merge_facts(g)
        locs = set(g[0].mem)
        for x in g[1:]:
            locs &= set(x.mem)
        s.mem = {l: join_u([x.mem[l] for x in g]) for l in locs}
        return s

    def literal_iter(self, st, fid):
        """Is some iterator over a short literal sequence live?  (such loops are run element by element)"""
        for (f, l), v in st.mem.items():
            if f == fid and v.op == "list" and v.a[0] == "iter" and 1 <= len(v.a[1]) <= 6:
                return True
        return False

    def unrolled(self, body, c, fid, chain, head, entry, rets):
        region = c.loops[head]
        allexits = {}
        states = [entry]
        lits = lambda s: {l: len(v.a[1]) for (f, l), v in s.mem.items()
                          if f == fid and v.op == "list" and v.a[0] == "iter"}
        before = lits(entry)
        for i in range(8):
            myrets = []
            self.unrolling.append((body["id"], head))
            try:
                exits, backs = self.region(body, c, fid, chain, {head: states}, region, head, myrets)
            finally:
                self.unrolling.pop()
            rets.extend(myrets)
            for t, ss in exits.items():
                allexits.setdefault(t, []).extend(ss)
            if not backs:
                return [(t, s) for t, ss in allexits.items() for s in ss]
            states = self.dedupe(backs)
            now = [lits(s) for s in states]
            if not all(any(l in n and n[l] < before[l] for l in before) for n in now):
                return None
            before = {l: max(n.get(l, 0) for n in now) for l in before}
        return None

    def loop(self, body, c, fid, chain, head, entry, rets):
        region = c.loops[head]
        loopid = (fid, head)
        if self.literal_iter(entry, fid):
            n = len(rets)
            tl, ev = dict(self.tag_loops), dict(self.events)
            outs = self.unrolled(body, c, fid, chain, head, entry, rets)
            if outs is not None:
                return outs
            del rets[n:]
            self.tag_loops.clear()
            self.tag_loops.update(tl)
            self.events.clear()
            self.events.update(ev)
        ltag = "L%s:%s" % (fid, head)
        self.newtag(ltag)
        S = entry
        outer_rets = rets
        self.tag_loops[ltag] = self.tag_loops[ltag] | {loopid}
        it = 0
        while True:
            it += 1
            # what earlier passes saw of the loops inside is less general than what this one will see
            for k in [k for k in self.rounds if k != ltag and loopid in self.tag_loops.get(k, ())]:
                del self.rounds[k], self.entries[k]
            self.loopstack.append(loopid)
            myrets = []
            ver = self.phiver
            try:
                exits, backs = self.region(body, c, fid, chain, {head: [S]}, region, head, myrets)
            finally:
                self.loopstack.pop()
            backs = self.dedupe(backs)
            if not backs:
                break
            rb = [self.rename_back(b, loopid) for b in backs]
            J = self.join_loop(S, rb, ltag, it > self.MAXIT)
            if J.key() == S.key() and self.phiver == ver:
                break
            S = J
            if it > self.MAXIT + 4:
                self.incomplete.append("loop %s" % ltag)
                break
        outer_rets.extend(myrets)
        self.rounds[ltag] = self.dedupe(self.rounds.get(ltag, []) + backs)
        self.entries[ltag] = self.entries.get(ltag, []) + [entry]
        outs = []
        went = {(t, p) for b in backs for t, p in b.facts
                if any(loopid in self.tag_loops.get(x, ()) for x in t.tags)}
        self.survived |= {(t, p) for t, p in went if (t, not p) not in went}
        fa = self.forall_facts(backs, loopid) if backs else {}
        outerfacts = None
        for tgt, ss in exits.items():
            for s in ss:
                for (t, p) in list(s.facts):
                    if p and t.op == "app" and t.a[0] == "exhausted":
                        tg = t.a[2].a[1]
                        if loopid in self.tag_loops.get(tg, ()):
                            for ff in fa.get(tg, ()):
                                s = self.add(s, ff, True)
                s = self.left(s, loopid)
                outs.append((tgt, s))
        return outs

    def left(self, s, loopid):
        """Keeps on the path that a loop was left before its iterator had given everything."""
        ended = loop_mark("ended", loopid)
        if ended in s.hist:
            return State(s.mem, s.facts, s.hist - {ended})
        if loopid in self.sources:
            return State(s.mem, s.facts, s.hist | {loop_mark("left", loopid, self.sources[loopid])})
        return s

    def forall_facts(self, backs, loopid):
        common = frozenset.intersection(*[b.facts for b in backs])
        allf = {}
        for (t, p) in common:
            for tg in t.tags:
                if loopid in self.tag_loops.get(tg, ()) and not tg.endswith("~"):
                    allf.setdefault(tg, []).append((t, p))
        out = {}
        for tg, fs in allf.items():
            res = []
            for (t, p) in fs:
                if t.op == "forall" or t.op == "app" and t.a[0] == "exhausted":
                    continue
                if t.op == "app" and t.a[0] == "contains" and p and t.a[2].op == "elem" and t.a[2].a[0] is t.a[1]:
                    continue
                if any(x != tg and loopid in self.tag_loops.get(x, ()) for x in t.tags):
                    continue
                ft = "A" + tg
                self.tag_loops.setdefault(ft, frozenset(self.loopstack))
                res.append(mk("forall", ft, retag(t, lambda x: ft if x == tg else x), p))
            out[tg] = res
        # the source an element ranges over, and the conditions its generator had, are found from the tag
        return out

    def rename_back(self, st, loopid):
        memo = {}

        def f(tag):
            if loopid in self.tag_loops.get(tag, ()) and not tag.endswith("~"):
                t2 = tag + "~"
                self.tag_loops[t2] = self.tag_loops[tag]
                return t2
            return tag

        def ren(v):
            if not v.tags:
                return v
            if v.op == "coll":
                gens = []
                for (x, fs, b) in v.a[1]:
                    nb = set(b)
                    for t in (_tags(x)):
                        if loopid in self.tag_loops.get(t, ()):
                            nb.add(t)
                    for (ft, p) in fs:
                        for t in ft.tags:
                            if loopid in self.tag_loops.get(t, ()):
                                nb.add(t)
                    if nb:
                        xx, ff = x, fs
                        # keep only facts about what the value mentions
                    else:
                        xx, ff = x, fs
                    gens.append((xx, ff, frozenset(nb)))
                return coll(v.a[0], gens, retag(v.a[2], f, memo) if v.a[2] is not None else None)
            if v.op in ("st", "en", "cl") and any(x.op in ("coll", "st", "en", "list") for x in v.a[-1]):
                return mk(v.op, *(v.a[:-1] + (tuple(ren(x) for x in v.a[-1]),)))
            if v.op == "list":
                return mk("list", v.a[0], tuple(ren(x) for x in v.a[1]))
            return retag(v, f, memo)

        s = State({k: ren(v) for k, v in st.mem.items()}, None, st.hist)
        s.facts = frozenset((retag(t, f, memo), p) for t, p in st.facts)
        return s

    def join_loop(self, S, backs, ltag, widen):
        states = [S] + backs
        locs = set(S.mem)
        mem = {}
        for l in locs:
            vals = [s.mem.get(l) for s in states]
            if any(v is None for v in vals):
                continue
            v = vals[0]
            for s, w in zip(states[1:], vals[1:]):
                v = self.joinv(v, w, ltag, ("%s" % (l,)), S, s, widen)
            mem[l] = v
        facts = frozenset.intersection(*[s.facts for s in states])
        hist = frozenset.intersection(*[s.hist for s in states])
        return State(mem, facts, hist)

    def add_cand(self, tag, key, val, facts):
        k = (tag.rstrip("~"), key)
        cs = self.phi.setdefault(k, [])
        for (v, f) in cs:
            if v is val:
                if f <= facts:
                    return
                n = f & facts
                cs.remove((v, f))
                cs.append((v, n))
                self.phiver += 1
                return
        if len(cs) >= 10:
            if not any(v.op == "top" for v, f in cs):
                cs.append((top("wide"), frozenset()))
                self.phiver += 1
            return
        cs.append((val, facts))
        self.phiver += 1

    def joinv(self, a, b, ltag, key, sa, sb, widen):
        if a is b:
            return a
        if a.op == "top":
            return a
        if a.op == "phi" and a.a[0] == ltag and a.a[1] == key:
            if b.op == "phi" and b.a[0].rstrip("~") == ltag and b.a[1] == key:
                return a
            self.add_cand(ltag, key, b, relevant(b, sb.facts))
            return a
        ga, gb = gens_of(a), gens_of(b)
        if ga is not None and gb is not None:
            if len(ga) + len(gb) > 60 or widen:
                if ga == gb:
                    return a
                return top("wide-coll")
            kind = a.a[0]
            fa = frozenset()
            oa = a.a[2] if a.op == "coll" else (None if ga else "empty")
            ob = b.a[2] if b.op == "coll" else (None if gb else "empty")
            order = ob if oa == "empty" or not ga else (oa if ob == "empty" or not gb else (oa if oa is ob else None))
            if isinstance(order, str):
                order = None
            return coll(kind, (absorb_map if kind == "map" else absorb)(ga + gb), order)
        if a.op == b.op and a.op in ("st", "cl") and a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]):
            vals = tuple(self.joinv(x, y, ltag, key + "." + str(i), sa, sb, widen) for i, (x, y) in enumerate(zip(a.a[2], b.a[2])))
            return mk(a.op, a.a[0], a.a[1], vals)
        if a.op == "en" and b.op == "en" and a.a[1] == b.a[1] and len(a.a[3]) == len(b.a[3]):
            vals = tuple(self.joinv(x, y, ltag, key + "." + str(i), sa, sb, widen) for i, (x, y) in enumerate(zip(a.a[3], b.a[3])))
            return mk("en", a.a[0], a.a[1], a.a[2], vals)
        p = mk("phi", ltag, key)
        self.add_cand(ltag, key, a, relevant(a, sa.facts))
        if not (b.op == "phi" and b.a[0].rstrip("~") == ltag and b.a[1] == key):
            self.add_cand(ltag, key, b, relevant(b, sb.facts))
        return p

    def entry_of(self, v):
        """What a variable of a loop is before the first round."""
        r = {x for x, f in self.places(self.entries.get(v.a[0].rstrip("~"), ()), v)}
        return r.pop() if len(r) == 1 else None

    def steps_of(self, v):
        """What a variable of a loop becomes in one round, path by path: [(value, facts)]"""
        return self.places(self.rounds.get(v.a[0].rstrip("~"), ()), v)

    def places(self, states, v):
        out = []
        for s in states:
            for l, x in s.mem.items():
                k = "%s" % (l,)
                if v.a[1] == k or v.a[1].startswith(k + "."):
                    for i in v.a[1][len(k):].split(".")[1:]:
                        x = x.a[-1][int(i)] if x.op in ("st", "cl", "en") and int(i) < len(x.a[-1]) else top("place")
                    out.append((x, s.facts))
        return out

    def candidates(self, v):
        """Alternatives of a phi or union: [(value, facts)]"""
        if v.op == "u":
            return [(x, frozenset()) for x in v.a[0]]
        if v.op == "phi":
            out = []
            for (x, f) in self.phi.get((v.a[0].rstrip("~"), v.a[1]), []):
                out.append((x, f))
            return out
        return None

    def case_split(self, st, v):
        """Splits a state on the candidates of a phi / union value."""
        out = []
        for (x, f) in self.candidates(v):
            if v in subterms(x):
                x = top("rec")
            m = {v: x}
            s = State({k: subst(w, m) for k, w in st.mem.items()}, st.facts, st.hist)
            nf = set()
            bad = False
            for (t, p) in st.facts:
                t2 = subst(t, m)
                if t2.op == "c":
                    if bool(t2.a[1]) != p:
                        bad = True
                        break
                    continue
                nf.add((t2, p))
            if bad:
                continue
            s.facts = frozenset(nf)
            for (t, p) in f:
                s = self.assume(s, t, p)
                if s is None:
                    break
            if s is not None:
                out.append((s, x))
        return out

    # ------------------------------------------------------------ blocks
    def block(self, body, c, fid, chain, bb, st, rets):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exceeded in %s" % body["id"])
        blk = body["bbs"][bb]
        live = c.live[bb]
        dead = [k for k in st.mem if k[0] == fid and k[1] not in live]
        st = st.copy()
        for k in dead:
            del st.mem[k]
        for s in blk["s"]:
            if "dead" in s:
                st.mem.pop((fid, s["dead"]), None)
            elif "rv" in s:
                v = self.rvalue(st, fid, body, s["rv"], bb)
                p = s["p"]
                if s["rv"]["k"] == "agg" and s["rv"]["a"] in ("adt",):
                    self.event("agg", s["rv"]["d"] + "::" + (s["rv"].get("vn") or ""), [self.deep(st, v)], st,
                               Site(body, bb, fid, chain, s.get("l")))
                if isinstance(p, int):
                    st.mem[(fid, p)] = v
                else:
                    loc, path = self.lvalue(st, fid, p)
                    st = self.write(st, loc, path, v)
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "drop":
            return [(t["t"], st)] if t.get("t") is not None else []
        if k == "return":
            rets.append(st)
            return []
        if k == "switch":
            return self.switch(body, fid, t, st, self.operand(st, fid, body, t["x"]))
        if k == "assert":
            x = self.operand(st, fid, body, t["x"])
            cond = x if t["e"] else neg(x)
            if decide(st.facts, cond) is not True:
                self.event("assert", t["msg"], [cond] + [self.operand(st, fid, body, o) for o in t.get("ops", [])], st,
                           Site(body, bb, fid, chain, t.get("l")))
            if cond.op == "not" and cond.a[0].op == "app" and cond.a[0].a[0].startswith("overflow:"):
                return [(t["t"], st)]
            s2 = self.assume(st, cond, True)
            self.survive(st, s2)
            return [(t["t"], s2)] if s2 is not None else []
        if k == "call":
            return self.call_term(body, fid, chain, bb, t, st)
        return []

    def survive(self, st, s2):
        """Remember facts that only say that no panic happened."""
        if s2 is not None:
            self.survived |= s2.facts - st.facts

    def switch(self, body, fid, t, st, x, depth=0):
        outs = []
        ts, o = t["ts"], t.get("o")
        if x.op == "discr":
            v, vs = x.a
            v0 = self.deref(st, v)
            if v0 is not v:
                v = v0
            if v.op in ("phi", "u") and depth < 6:
                if v.op == "u" or self.phi.get((v.a[0].rstrip("~"), v.a[1])):
                    for s, nv in self.case_split(st, v):
                        outs.extend(self.switch(body, fid, t, s, mk("discr", nv, vs), depth + 1))
                    return outs
            names = {d: n for n, d in vs}
            if v.op == "en":
                d = dict(vs).get(v.a[1])
                for val, tgt in ts:
                    if val == d:
                        return [(tgt, st)]
                return [(o, st)] if o is not None else []
            if not names:
                return [(tgt, st) for _, tgt in ts] + ([(o, st)] if o is not None else [])
            note_variants([n for n, _ in vs])
            cov = []
            for val, tgt in ts:
                n = names.get(val)
                if n is None:
                    continue
                cov.append(n)
                s = self.assume(st, isv(v, n), True)
                if s is not None:
                    outs.append((tgt, s))
            if o is not None and body["bbs"][o]["t"]["k"] != "unreachable":
                s = st
                for n in cov:
                    s = self.assume(s, isv(v, n), False)
                    if s is None:
                        break
                if s is not None:
                    rest = [n for n, _ in vs if n not in cov]
                    if len(rest) == 1:
                        s = self.assume(s, isv(v, rest[0]), True)
                    if s is not None and rest:
                        outs.append((o, s))
            return outs
        if x.op in ("u",) and depth < 6:
            for s, nv in self.case_split(st, x):
                outs.extend(self.switch(body, fid, t, s, nv, depth + 1))
            return outs
        if x.op == "phi" and depth < 6 and t.get("xt") is not None and body["crate"].types[t["xt"]]["s"] == "bool":
            cs = self.phi.get((x.a[0].rstrip("~"), x.a[1]))
            if cs and all(v.op == "c" for v, f in cs):
                for s, nv in self.case_split(st, x):
                    outs.extend(self.switch(body, fid, t, s, nv, depth + 1))
                return outs
        isbool = t.get("xt") is not None and body["crate"].types[t["xt"]]["s"] == "bool"
        if isbool:
            for val, tgt in ts:
                s = self.assume(st, x, bool(val))
                if s is not None:
                    outs.append((tgt, s))
            if o is not None:
                s = st
                for val, _ in ts:
                    s = self.assume(s, x, not bool(val)) if s is not None else None
                if s is not None:
                    outs.append((o, s))
            return outs
        s0 = st
        for val, tgt in ts:
            s = self.assume(st, eq(x, I(val)), True)
            if s is not None:
                outs.append((tgt, s))
            if s0 is not None:
                s0 = self.assume(s0, eq(x, I(val)), False)
        if o is not None and s0 is not None:
            outs.append((o, s0))
        return outs

    def event(self, kind, name, args, st, site, ret=None):
        k = (kind, name, tuple(args), st.facts, st.hist, site.body["id"], site.bb)
        if k not in self.events:
            self.events[k] = Event(kind, name, args, st, site, ret)
        return k

    def did(self, st, kind, name, args):
        h = mk("did", kind, name, tuple(args))
        if h in st.hist:
            return st
        st = st.copy()
        st.hist = st.hist | {h}
        return st

    # ------------------------------------------------------------ calls
    def call_term(self, body, fid, chain, bb, t, st):
        f = t["f"]
        args = [self.operand(st, fid, body, x) for x in t["xs"]]
        if isinstance(f, list):
            fv = self.operand(st, fid, body, f)
        else:
            fv = None
        site = Site(body, bb, fid, chain, t.get("l"), None if fv is not None else f.get("fn"))
        if fv is not None:
            res = self.call_value(st, fv, args, site)
        elif "fn" in f:
            res = self.call_fn(st, body["crate"], f["fn"], args, site)
        else:
            res = [(st, app("callconst"))]
        if t.get("t") is None:
            return []
        outs = []
        for s, r in res:
            loc, path = self.lvalue(s, fid, t["d"])
            outs.append((t["t"], self.write(s, loc, path, r)))
        return outs

    def call_value(self, st, fv, args, site):
        """Calls a closure / function value with un-tupled arguments."""
        fv = self.deref(st, fv)
        if fv.op in ("u", "phi") and self.candidates(fv):
            out = []
            for s, v in self.case_split(st, fv):
                out.extend(self.call_value(s, v, args, site))
            return out
        if fv.op == "cl":
            b = self.prog.bodies.get(fv.a[0])
            if b is not None and self.active.count(b["id"]) < 2 and len(self.active) < self.MAXDEPTH:
                # arguments of a closure may be a tuple pattern: MIR closures take them un-tupled
                return self.run_body(b, [fv] + list(args), st, site.chain + ((site.body["id"], site.bb, site.sub, b["id"]),))
            return [(st, app("rec-closure", *args))]
        if fv.op == "fn":
            crate, fn = self.fns[fv.a[1]]
            site = Site(site.body, site.bb, site.fid, site.chain, site.line, fn, site.sub)
            return self.call_fn(st, crate, fn, list(args), site)
        self.event("callvalue", "call", [fv] + [self.deep(st, a) for a in args], st, site)
        return [(st, app("apply", fv, *[self.deep(st, a) for a in args]))]

    def call_fn(self, st, crate, fn, args, site):
        d = fn["d"]
        u = fn.get("u")
        key = key2(d)
        site.crate = crate
        h = self.hooks.get(u) or self.hooks.get(d) or self.hooks.get(key)
        if h is not None:
            r = h(self, st, args, site, fn)
            if r is not None:
                return r
        if not args and (m := re.search(r"<impl ([ui])(\d+|size)>::(max|min)_value$", d)):
            w = 64 if m.group(2) == "size" else int(m.group(2))
            hi = 2 ** w if m.group(1) == "u" else 2 ** (w - 1)
            return [(st, I(hi - 1 if m.group(3) == "max" else 0 if m.group(1) == "u" else -hi))]
        if fn.get("k") == "ctor" or fn.get("ctor") or d.startswith("std::prelude::") and d.split("::")[-1] in ("Some", "Ok", "Err"):
            return [(st, self.ctor(fn, args))]
        local = self.prog.bodies.get(u) if u else None
        if local is None and args:
            local = self.devirtualise(st, d, args[0])
            if local is not None:
                u = local["id"]
        if local is not None and "{closure" in u and len(args) == 2 and key2(d).split("::")[-1] in (
                "call", "call_mut", "call_once"):
            tp = self.load_arg(st, args[1])
            if tp.op == "st" and tp.a[0] == "()" and len(tp.a[2]) == local["argc"] - 1:
                args = [args[0]] + list(tp.a[2])
        if local is not None and (u in self.opaque or local["path"] in self.opaque):
            return self.opaque_call(st, fn, args, site, "opaque")
        if local is not None and local.get("derived") and key in ("Clone::clone", "PartialEq::eq", "PartialEq::ne", "Default::default", "Debug::fmt"):
            local = None if key != "Default::default" else local
        if local is not None and self.slice_on and \
                not any(self.mentions(self.deep(st, a)) for a in args):
            return self.opaque_call(st, fn, args, site, "opaque")
        if local is not None:
            if self.active.count(u) < 1 and len(self.active) < self.MAXDEPTH:
                name = local["path"]
                dargs = [self.deep(st, a) for a in args]
                self.event("enter", name, dargs, st, site)
                st = self.did(st, "enter", name, dargs)
                return self.run_body(local, args, st, site.chain + ((site.body["id"], site.bb, site.sub, u),))
            return self.opaque_call(st, fn, args, site, "rec")
        m = self.models.get(key)
        if m is None and d in self.models:
            m = self.models[d]
        if m is not None:
            r = m(self, st, args, site)
            if r is not None:
                return r
        if fn.get("virt"):
            return self.opaque_call(st, fn, args, site, "virt")
        self.unknown[d] = self.unknown.get(d, 0) + 1
        self.unknown_names.add(norm_name(d))
        return self.opaque_call(st, fn, args, site, "ext")

    def devirtualise(self, st, d, recv):
        """The implementation a trait method call ends in when the receiver is known to be of a certain type."""
        for i in range(4):
            if recv.op != "ptr":
                break
            recv = self.deref(st, recv)
        if recv.op not in ("st", "en"):
            return None
        r = self.prog.method_of(d, recv.a[0])
        return self.prog.bodies.get(r) if r else None

    def load_arg(self, st, v):
        return self.deref(st, v) if v.op == "ptr" else v

    def ctor(self, fn, args):
        d = fn["d"]
        p = norm(d).split("::")
        if p[-1] in ("Some", "Ok", "Err"):
            return enum(OPT if p[-1] == "Some" else RES, p[-1], ("0",), args)
        base = "::".join(p[:-1])
        a = self.prog.adts.get(base)
        names = tuple(str(i) for i in range(len(args)))
        if a is not None and a["kind"].lower() == "enum" or base and base.split("::")[-1][:1].isupper():
            return enum(base, p[-1], names, args)
        return struct(norm(d), names, args)

    def opaque_call(self, st, fn, args, site, kind):
        name = fn.get("r") if fn.get("r") and kind == "ext" and False else fn["d"]
        if fn.get("u") and kind in ("opaque", "rec"):
            name = self.prog.bodies[fn["u"]]["path"]
        dargs = [self.deep(st, a) for a in args]
        self.event(kind, name, dargs, st, site)
        st = self.did(st, kind, name, dargs)
        # closures handed to unknown code may run any number of times
        for a in dargs:
            if a.op == "cl" and a.a[0] in self.prog.bodies:
                st = self.havoc_closure(st, a, site)
        ret = app(norm_name(name), *dargs)
        muts = [a for a in args if a.op == "ptr"]
        for i, a in enumerate(args):
            if a.op == "ptr":
                old = self.deref(st, a)
                p = a
                while True:
                    nv = self.read(st, p.a[0], p.a[1])
                    if nv.op == "ptr":
                        p = nv
                    else:
                        break
                st = self.write(st, p.a[0], p.a[1], app("after", ret, I(i)))
        return [(st, ret)]

    def havoc_closure(self, st, clo, site):
        b = self.prog.bodies[clo.a[0]]
        if self.active.count(b["id"]) >= 1:
            return st
        args = [sym("arg%d:%s" % (i, b["id"])) for i in range(1, b["argc"])]
        rs = self.call_value(st, clo, args, site.with_sub("h"))
        ss = [s for s, r in rs] + [st]
        return self.merge_states(self.dedupe(ss)) if len(ss) > 1 else st

    def apply_generic(self, st, clo, args, site):
        """Applies a closure to generic element(s): results and states, in which `st`'s facts still hold.

        Effects of the closure on outer memory are iterated to a fixpoint, as for a loop."""
        lid = (site.fid, site.bb, site.sub, "clo")
        cur = st
        for i in range(6):
            self.loopstack.append(lid)
            try:
                rs = self.call_value(cur, clo, args, site)
            finally:
                self.loopstack.pop()
            changed = [s for s, r in rs if s.mem != cur.mem]
            if not changed:
                return cur, rs
            rb = [self.rename_back(s, lid) for s in changed]
            ltag = "C%s:%s%s" % (site.fid, site.bb, site.sub)
            self.tag_loops[ltag] = frozenset(self.loopstack) | {lid}
            J = self.join_loop(cur, rb, ltag, i >= 4)
            J = State(J.mem, cur.facts, cur.hist)
            if J.key() == cur.key():
                return cur, rs
            cur = J
        return cur, rs


# ---------------------------------------------------------------- helpers

def last_seg(path):
    return path.split("<")[0].rsplit("::", 1)[-1]


def _tags(x):
    return x.tags if isinstance(x, V) else frozenset()


def relevant(v, facts):
    """Facts about what the value mentions (its iteration-local parts)."""
    tg = v.tags
    fo = FOCUS[0].focus_facts(facts) if FOCUS[0] is not None and FOCUS[0].focus else frozenset()
    if not tg:
        return fo
    return frozenset((t, p) for (t, p) in facts if t.tags & tg) | fo


def absorb_map(gs):
    """As absorb, for the entries of a map: entries of one key that hold collections are joined."""
    by = {}
    for g in gs:
        k = fld(g[0], "0")
        by.setdefault(k, []).append(g)
    out = []
    for k, l in by.items():
        vals = [fld(g[0], "1") for g in l]
        ins = [gens_of(v) for v in vals]
        if len(l) < 2 or any(i is None for i in ins):
            out.extend(l)
            continue
        inner = []
        for g, v, i in zip(l, vals, ins):
            for x, f2, b2 in i:
                inner.append((x, slim(f2 or relevant(x, g[1])), g[2] | b2))
        f = frozenset.intersection(*[g[1] for g in l])
        b = frozenset().union(*[g[2] for g in l])
        out.append((tup(k, coll(vals[0].a[0], absorb(tuple(inner)), None)), f, b))
    return absorb(tuple(out))


def slim(facts):
    """Without facts about collections as they were at one iteration."""
    return frozenset((t, p) for t, p in facts if t.size < 80 or not t.tags)


FOCUS = [None]        # the engine whose focus decides which facts survive merging


def absorb(gs):
    """Drops generators subsumed by another one with the same value and fewer facts."""
    by = {}
    for g in gs:
        by.setdefault(g[0], []).append(g)
    out = []
    for v, l in by.items():
        keep = []
        for g in sorted(l, key=lambda g: (len(g[1]), -len(g[2]))):
            if any(k[1] <= g[1] and k[2] >= g[2] for k in keep):
                continue
            keep.append(g)
        if len(keep) > 6:
            cls = {}
            for k in keep:
                cls.setdefault(FOCUS[0].focus_facts(k[1]) if FOCUS[0] else None, []).append(k)
            if len(cls) > 8:
                cls = {None: keep}
            keep = []
            for ks in cls.values():
                f = frozenset.intersection(*[k[1] for k in ks])
                b = frozenset().union(*[k[2] for k in ks])
                keep.append((v, f, b))
        out.extend(keep)
    return tuple(out)


def join_u(vals):
    s = []
    for v in vals:
        for x in (v.a[0] if v.op == "u" else (v,)):
            if x not in s:
                s.append(x)
    if len(s) == 1:
        return s[0]
    gs = [gens_of(x) for x in s]
    if all(g is not None for g in gs):
        return coll(s[0].a[0], absorb(sum(gs, ())), None)
    if len(s) > 8:
        return top("join")
    return mk("u", tuple(sorted(s, key=lambda t: t.id)))


VARIANTS = {"Some": ("None", "Some"), "None": ("None", "Some"), "Ok": ("Ok", "Err"), "Err": ("Ok", "Err"),
            "Continue": ("Continue", "Break"), "Break": ("Continue", "Break")}


def note_variants(names):
    if len(set(names)) > 1 and not any(n in VARIANTS for n in names):
        for n in names:
            VARIANTS.setdefault(n, tuple(names))


def variants_of(n):
    return VARIANTS.get(n)


def keys_of(m):
    if m.op in ("coll", "list"):
        gs = gens_of(m)
        return coll("set", tuple((fld(v, "0"), f, b) for v, f, b in gs), None)
    return app("keys", m)


def map_value(m, k):
    """The value stored under a key of a map."""
    gs = gens_of(m)
    if gs is None:
        return app("get!", m, k)
    vals = []
    for (v, f, b) in gs:
        kv, vv = fld(v, "0"), fld(v, "1")
        inner = gens_of(vv)
        if inner and f:
            # what holds of the entry holds of each element of its value
            vv = coll(vv.a[0], absorb(tuple((x, f2 or relevant(x, f), b | b2) for x, f2, b2 in inner)),
                      vv.a[2] if vv.op == "coll" else app("o_list", *[g[0] for g in inner]))
        if kv is k:
            vals.append(vv)
        elif kv.op == "elem" and kv.a[1] in b:
            vals.append(subst(vv, {kv: k}))
        elif kv.op == "c" and k.op == "c":
            continue
        else:
            vals.append(vv)
    if not vals:
        return app("get!", m, k)
    return join_u(vals)


def match_gen(g, v, eng):
    """Facts that hold if `v` is an instance of the generator; None when impossible."""
    val, facts, bound = g
    if val is v:
        return list(facts)
    m = {}
    if not unify(val, v, bound, m):
        if val.op == "c" and v.op == "c":
            return None
        t = {}
        for b in bound:
            t[b] = eng.fresh_tag(b, "in%d" % v.id)
        r = lambda x: t.get(x, x)
        e = eq(retag(val, r), v)
        if e is FALSE:
            return None
        return [(e, True)] + list(retag(facts, r))
    t = {}
    for b in bound:
        t[b] = eng.fresh_tag(b, "in%d" % v.id)
    out = []
    for (f, p) in facts:
        f2 = retag(subst(f, m), lambda x: t.get(x, x))
        if f2.op == "c":
            if bool(f2.a[1]) != p:
                return None
            continue
        out.append((f2, p))
    return out


def unify(pat, v, bound, m):
    """Matches a generator value against a term; bound elements are variables."""
    if pat is v:
        return True
    if pat in m:
        return m[pat] is v
    if pat.op == "elem" and pat.a[1] in bound:
        m[pat] = v
        return True
    if pat.op == v.op and pat.op in ("st", "en") and pat.a[:-1] == v.a[:-1]:
        return all(unify(x, y, bound, m) for x, y in zip(pat.a[-1], v.a[-1]))
    return False


NONNEG = ("len", "pos", "count", "cast:usize")


def nonneg(t):
    return t.op == "app" and t.a[0] in NONNEG


def decide(facts, t):
    if t.op == "c":
        return bool(t.a[1])
    if t.op == "not":
        d = decide(facts, t.a[0])
        return None if d is None else not d
    if (t, True) in facts:
        return True
    if (t, False) in facts:
        return False
    if t.op == "is":
        for (f, p) in facts:
            if p and f.op == "is" and f.a[0] is t.a[0] and f.a[1] != t.a[1]:
                return False
    elif t.op == "eq":
        a, b = t.a
        for x, y in ((a, b), (b, a)):
            if y.op == "c":
                for (f, p) in facts:
                    if p and f.op == "eq":
                        if f.a[0] is x and f.a[1].op == "c" and f.a[1] is not y:
                            return False
                        if f.a[1] is x and f.a[0].op == "c" and f.a[0] is not y:
                            return False
        c, m = lin_parts(sub(a, b)) if (a.op in ("lin",) or b.op in ("lin",) or (a.op == "c" and a.a[0] == "int") or (b.op == "c" and b.a[0] == "int")) else (1, {a: 1})
        if m and not (c == 1 and list(m) == [a]):
            l = sub(a, b)
            if decide(facts, ge0(l)) is False or decide(facts, ge0(scale(l, -1))) is False:
                return False
    elif t.op == "ge0":
        L = t.a[0]
        c, m = lin_parts(L)
        if c >= 0 and all(k > 0 and nonneg(x) for x, k in m.items()):
            return True
        if c < 0 and all(k < 0 and nonneg(x) for x, k in m.items()):
            return False
        cands = [sub(add(length(x.a[1]), I(-1)), x) for x in m if x.op == "app" and x.a[0] == "pos" and len(x.a) == 3 and
                 x.a[2].op == "elem" and x.a[2].a[0] is x.a[1]]
        for (f, p) in facts:
            if f.op == "ge0":
                M = f.a[0] if p else add(scale(f.a[0], -1), I(-1))
                cands.append(M)
            elif f.op == "eq" and p:
                a, b = f.a
                if (a.op == "lin" or b.op == "lin" or a.op == "c" and a.a[0] == "int" or b.op == "c" and b.a[0] == "int" or nonneg(a) or nonneg(b)):
                    cands.append(sub(a, b))
                    cands.append(sub(b, a))
            elif f.op == "eq" and not p:
                # x != y with one side a bound
                pass
        for M in cands:
            dc, dm = lin_parts(sub(L, M))
            if dc >= 0 and all(k > 0 and nonneg(x) for x, k in dm.items()):
                return True
            dc, dm = lin_parts(sub(add(scale(L, -1), I(-1)), M))
            if dc >= 0 and all(k > 0 and nonneg(x) for x, k in dm.items()):
                return False
        # x != 0, x >= 0  =>  x >= 1
        if c == -1 and len(m) == 1:
            (x, k), = m.items()
            if k == 1 and nonneg(x) and (eq(x, I(0)), False) in facts:
                return True
    elif t.op == "app" and t.a[0] == "contains":
        gs = gens_of(t.a[1])
        if gs is not None:
            if not gs:
                return False
            v = t.a[2]
            if v.op == "c" and all(g[0].op == "c" for g in gs):
                if not any(g[0] is v for g in gs):
                    return False
                if t.a[1].op == "list":
                    return True
    elif t.op == "app" and t.a[0] == "and":
        ds = [decide(facts, x) for x in t.a[1:]]
        if any(d is False for d in ds):
            return False
        if all(d is True for d in ds):
            return True
    elif t.op == "app" and t.a[0] == "or":
        ds = [decide(facts, x) for x in t.a[1:]]
        if any(d is True for d in ds):
            return True
        if all(d is False for d in ds):
            return False
    return None


def int_cast(x, ft, tt):
    if x.op == "c" and x.a[0] == "int":
        bits = {"i8": 7, "u8": 8, "i16": 15, "u16": 16, "i32": 31, "u32": 32, "i64": 63, "u64": 64, "usize": 64, "isize": 63}.get(tt)
        if bits is not None and -(2 ** bits if tt[0] == "i" else 0) <= x.a[1] < 2 ** bits:
            return x
    W = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "char": 32, "bool": 1}
    if ft in W and tt in W:
        if W[tt] > W[ft] and not (ft[0] == "i" and tt[0] == "u"):
            return x
        if W[tt] == W[ft] == 64:
            return x          # usize <-> isize/i64: text positions stay far below 2^63
    return app("cast:" + tt, x)


def is_floaty(ty):
    return ty.strip("&") in ("f32", "f64")


def binop(op, a, b, ty=""):
    fl = is_floaty(ty) or (a.op == "c" and a.a[0] == "float") or (b.op == "c" and b.a[0] == "float")
    base = op.replace("WithOverflow", "").replace("Unchecked", "")
    if base in ("Add", "Sub", "Mul") and not fl:
        if base == "Add":
            r = add(a, b)
        elif base == "Sub":
            r = sub(a, b)
        else:
            if a.op == "c" and a.a[0] == "int":
                r = scale(b, a.a[1])
            elif b.op == "c" and b.a[0] == "int":
                r = scale(a, b.a[1])
            else:
                x, y = sorted((a, b), key=lambda t: t.id)
                r = app("mul", x, y)
        if op.endswith("WithOverflow"):
            ov = FALSE if r.op == "c" and r.a[1] >= 0 else app("overflow:" + base + ":" + ty, a, b)
            if base == "Sub":
                ov = neg(ge0(r)) if ty.startswith("u") else ov
            return tup(r, ov)
        return r
    if fl and base in ("Add", "Mul", "Sub", "Div"):
        if base in ("Add", "Mul"):
            a, b = sorted((a, b), key=lambda t: t.id)
        return app("f" + base.lower(), a, b)
    if op == "Lt":
        return app("flt", a, b) if fl else ge0(add(sub(b, a), I(-1)))
    if op == "Gt":
        return app("flt", b, a) if fl else ge0(add(sub(a, b), I(-1)))
    if op == "Le":
        return app("fle", a, b) if fl else ge0(sub(b, a))
    if op == "Ge":
        return app("fle", b, a) if fl else ge0(sub(a, b))
    if op in ("Eq", "Ne"):
        if a.op == "discr" and b.op == "c":
            n = {d: n for n, d in a.a[1]}.get(b.a[1])
            r = isv(a.a[0], n) if n else eq(a, b)
        else:
            r = eq(a, b)
        return r if op == "Eq" else neg(r)
    if op == "BitAnd" and ty == "bool":
        if a.op == "c":
            return b if a.a[1] else FALSE
        if b.op == "c":
            return a if b.a[1] else FALSE
        return app("and", a, b)
    if op == "BitOr" and ty == "bool":
        if a.op == "c":
            return TRUE if a.a[1] else b
        if b.op == "c":
            return TRUE if b.a[1] else a
        return app("or", a, b)
    if a.op == "c" and b.op == "c" and a.a[0] == b.a[0] == "int" and base in ("Div", "Rem") and b.a[1] > 0 and a.a[1] >= 0:
        return I(a.a[1] // b.a[1] if base == "Div" else a.a[1] % b.a[1])
    if a.op == "c" and b.op == "c" and a.a[0] == b.a[0] == "int" and base in ("Shr", "Shl", "BitAnd", "BitOr") and min(a.a[1], b.a[1]) >= 0:
        x, y = a.a[1], b.a[1]
        r = x >> y if base == "Shr" else x << y if base == "Shl" else x & y if base == "BitAnd" else x | y
        if r < 2 ** 63:
            return I(r)
    return app("op:" + op, a, b)


def length(x):
    if x.op == "list":
        return I(len(x.a[1]))
    if x.op == "c" and x.a[0] in ("str",):
        return I(len(x.a[1].encode()))
    if x.op == "coll" and not x.a[1]:
        return I(0)
    return app("len", x)


def index_term(v, i):
    if v.op == "list" and i.op == "c":
        n = i.a[1]
        if -len(v.a[1]) <= n < len(v.a[1]):
            return v.a[1][n]
    if v.op == "coll" and len(v.a[1]) == 1 and v.a[2].op == "app" and v.a[2].a[0] == "o_src":
        # element-wise image of a sequence: its i-th element is the image of the i-th element
        x, conds, bound = v.a[1][0]
        src = v.a[2].a[1]
        els = {y for y in subterms(x) if y.op == "elem" and y.a[0] is src and y.a[1] in bound}
        if len(bound) == 1 and len(els) == 1:
            el = next(iter(els))
            if all(p and t.op == "app" and t.a[0] == "contains" and t.a[2] is el for t, p in conds):
                return subst(x, {el: index_term(src, i)})
    return app("idx", v, i)


def norm_name(d):
    return norm(d)
