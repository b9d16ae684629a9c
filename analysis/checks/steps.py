"""C28: a step that fails is reported."""
from ..check import check, where
from ..engine import Budget, decide
from ..lib import *
from ..models import err, ok
from ..terms import *
from .loading import last

FAILURE, MARK = sym("·failure"), "·failed"
RESULT = "std::result::Result<"
# what handles results rather than giving one of its own
HANDLE = ("std::result::Result::<", "std::option::Option::<", "std::ops::", "core::ops::", "failure::ResultExt", "std::iter::", "std::fmt",
          "serde::", "std::convert::", "std::clone::", "std::mem::", "std::default::", "std::thread::")
# whether a text names something: an answer rather than a failure
QUESTION = ("from_identifier",)
LOCKS = ("PoisonError", "TryLockError", "std::fmt::Error")
NUMBERS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "bool")
LIMITED = ("to_str", "file_name", "file_stem", "extension", "parent", "into_string", "var", "var_os", "canonicalize", "home_dir")
FILES = ("from_reader", "records", "into_records", "lines", "deserialize", "into_deserialize", "read_to_string", "read", "from_slice")


def question(cr, fn):
    nm = last(fn["d"])
    if nm in QUESTION:
        return True
    if nm in ("from_str", "parse"):
        a = [cr.types[x]["s"] for x in fn.get("a") or [] if isinstance(x, int)]
        return any(last(t) in NUMBERS or last(t).endswith("EntityKind") for t in a)
    return nm in ("try_from", "try_into")


class Steps:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.all = [b for b in ctx.prog.lib.bodies.values()]
        self.roots = [b for b in self.all if b["kind"] in ("Fn", "AssocFn") and not b.get("derived") and "::promoted[" not in b["id"] and
                      not any(x in b["path"] for x in ("serde::", "_DERIVE")) and last(b["path"]) not in ("fmt",)]
        self.fallible = {b["id"] for b in self.roots if self.ret(b).startswith(RESULT) and not self.takes_code(b)}
        self.n = 0
        for b in self.roots:
            try:
                self.function(b)
            except Budget:
                ctx.ob("a step that fails is reported", b["path"], None, "budget exceeded", where(b))
        ctx.count("functions", len(self.roots))
        ctx.count("steps_made_to_fail", self.n)
        ctx.floor("steps that can fail", self.n, 120)

    def ret(self, b):
        l = b["locals"][0]
        return b["crate"].types[l if isinstance(l, int) else l["t"]]["s"]

    def takes_code(self, b):
        """Is it given a piece of code to run?"""
        for i in range(1, b["argc"] + 1):
            l = b["locals"][i]
            t = b["crate"].types[l if isinstance(l, int) else l["t"]]
            if t.get("k") in ("closure", "fnptr") or t.get("k") == "param" and self.bound(b, t["s"]):
                return True
        return False

    def bound(self, b, name):
        """May a value of the type parameter be called?  (seen from what the body does with it)"""
        for bb in b["bbs"]:
            t = bb["t"]
            f = t["f"].get("fn") if t["k"] == "call" and isinstance(t["f"], dict) else None
            if f and last(f["d"]) in ("call", "call_mut", "call_once"):
                return True
        return False

    def sites(self, root):
        out = []
        for b in self.all:
            if b["id"] != root["id"] and not b["id"].startswith(root["id"] + "::{closure"):
                continue
            cr = b["crate"]
            for i, bb in enumerate(b["bbs"]):
                t = bb["t"]
                if t["k"] != "call" or bb.get("cleanup"):
                    continue
                fn = t["f"].get("fn") if isinstance(t["f"], dict) else None
                ty = cr.types[t["dt"]]["s"] if isinstance(t.get("dt"), int) else ""
                if not fn or not ty.startswith(RESULT) or fn["d"].startswith(HANDLE) or any(x in ty for x in LOCKS):
                    continue
                u = self.prog.bodies.get(fn.get("u"))
                if u is not None and u["id"] not in self.fallible and not fn.get("virt"):
                    continue        # runs code given to it: what that code does is looked at itself
                out.append((b, i, fn, question(cr, fn)))
        return out

    def run(self, b, sites, fails=None):
        """The function when every step goes well, but for one."""
        known = {(x["id"], i) for x, i, _, q in sites if not q}
        hit = []

        def step(e, st, args, site, fn):
            here = (site.body["id"], site.bb)
            if here == fails:
                hit.append(1)
                return [(e.did(st, "ext", MARK, []), err(FAILURE))]
            if here in known:
                return [(st, ok(vfld(app(fn["d"], *[e.deep(st, a) for a in args]), "Ok", "0")))]
            return None

        hooks = {}
        for _, _, fn, _ in sites:
            hooks[fn["d"]] = step
            if fn.get("u"):
                hooks[fn["u"]] = step
        e, rs = self.ctx.run(b, params(b), opaque=self.fallible - {b["id"]}, hooks=hooks)
        return e, rs, hit

    def function(self, b):
        sites = self.sites(b)
        w = where(b)
        e, rs, _ = self.run(b, sites)
        base = {v for s, r in rs for v in alts(r) if v.op == "en" and v.a[1] == "Err"}
        self.read(b, e, rs, w)
        for sb, i, fn, asks in sites:
            self.n += not asks
            self.one(b, sites, sb, i, fn, base, w, asks)

    def one(self, b, sites, sb, i, fn, base, w, asks):
        ctx = self.ctx
        con = "%s: %s" % (b["path"], last(fn["d"]))
        if last(fn["d"]) == "stack" and fn["d"].startswith("ndarray"):
            return      # fails for shapes that do not match only, never for what a file or a caller says once these are checked
        e, rs, hit = self.run(b, sites, (sb["id"], i))
        if asks:
            self.crash(e, con, w)
            return
        if not hit:
            ctx.ob("a step that fails is reported", con, None, "not reached", w)
            return
        said, carried = 0, 0
        for s, r in rs:
            m = failed(s.hist)
            for v in alts(r):
                if v.op == "en" and v.a[1] == "Err":
                    said += bool(m or mentions(v) or v not in base)
                elif mentions(v):
                    carried += 1
                elif m:
                    ctx.ob("nothing goes on as if a failed step had gone well", con, None if opaque_parts(v) and v.op != "en" else False,
                           "a path after the failure ends with %s" % show(v, 4), w)
                    said = -1000
        for tag, states in e.rounds.items():
            for s in states:
                if failed(s.hist) and said > -1:
                    ctx.ob("nothing goes on as if a failed step had gone well", con, None if in_memory(s) else False, "a loop goes on after the failure", w)
                    said = -1000
        if self.crash(e, con, w):
            return
        if said >= 0:
            ctx.ob("a step that fails is reported", con, True if said else (None if carried else False), "no path reports the failure", w)

    def crash(self, e, con, w):
        bad = False
        for ev in e.events:
            if ev[0] == "panic" and (any(isinstance(a, V) and mentions(a) for a in ev[2]) or failed(ev[4]) and not poison(ev)):
                self.ctx.ob("a failing step does not bring the process down", con, False, "%s: %s" % (
                    ev[1], "; ".join(show(a, 4) for a in ev[2] if isinstance(a, V))), w)
                bad = True
        return bad

    # elements read one by one, and what is taken for granted of a file
    def read(self, b, e, rs, w):
        ctx = self.ctx
        ok_ends = [(s, v) for s, r in rs for v in alts(r) if not (v.op == "en" and v.a[1] == "Err")]
        errs = [(s, v) for s, r in rs for v in alts(r) if v.op == "en" and v.a[1] == "Err"]
        seen = {}
        terms = [(v, None) for s, v in ok_ends] + [(t, q) for s, v in ok_ends for t, q in s.facts]
        terms += [(t, q) for ss in e.rounds.values() for s in ss for t, q in s.facts]
        for t, q in terms:
            for y in subterms(t):
                if y.op == "is" and y.a[1] in ("Ok", "Err") and y.a[0].op == "elem":
                    seen[y.a[0]] = True
        for x in seen:
            src = [last(y.a[0]) for y in subterms(x.a[0]) if y.op == "app" and last(y.a[0]) in FILES]
            if not src:
                continue
            con = "%s: %s" % (b["path"], src[0])
            gone_on = [1 for s, v in ok_ends if decide(s.facts, isv(x, "Ok")) is False]
            gone_on += [1 for ss in e.rounds.values() for s in ss if decide(s.facts, isv(x, "Ok")) is False]
            said = [1 for s, v in errs if v.a[3] and (v.a[3][0].op == "top" or any(y.op == "vf" and y.a[1] == "Err" and same(y.a[0], x) for y in subterms(v)))
                    or any(t.op == "is" and same(t.a[0], x) and q is (t.a[1] == "Err") for t, q in s.facts)]
            if gone_on:
                ctx.ob("nothing goes on as if a failed step had gone well", con, False, "what cannot be read is passed over", w)
            else:
                ctx.ob("a step that fails is reported", con, bool(said), "what cannot be read is left out without an error", w)
        for ev in e.events:
            if ev[0] != "panic":
                continue
            if ev[1] == "unwrap-none":
                for t, q in ev[3]:
                    if t.op == "is" and t.a[0].op == "app" and last(t.a[0].a[0]) in LIMITED and q is (t.a[1] == "None"):
                        ctx.ob("a failing step does not bring the process down", "%s: %s" % (b["path"], last(t.a[0].a[0])), False,
                               "%s may be nothing" % show(t.a[0], 5), w)
            elif ev[1] == "index" and len(ev[2]) > 1 and isinstance(ev[2][0], V) and isinstance(ev[2][1], V):
                c, i = ev[2][0], ev[2][1]
                if i.op != "c" or not any(y.op == "app" and last(y.a[0]) in FILES for y in subterms(c)):
                    continue
                if i.a[1] == 0 and c.op == "vf" and c.a[0].op == "elem":
                    continue    # a line has a first column
                about = [t for t, q in ev[3] if any(y.op == "app" and y.a[0] in ("len", "is_empty", "get", "first", "contains", "eq") and
                                                    any(z is c for z in subterms(y)) for y in subterms(t)) and t.op != "is" or
                         t.op == "is" and t.a[0].op == "app" and last(t.a[0].a[0]) in ("get", "first", "last", "next") and any(z is c for z in subterms(t))]
                ctx.ob("a failing step does not bring the process down", "%s: what a file lists" % b["path"], None if about else False,
                       "element %s of %s, of which nothing says that it is there" % (show(i), show(c, 4)), w)
        ctx.ob("what a file lists is not taken for granted", b["path"], True)


def same(a, b):
    return a is b or a.op == "elem" and b.op == "elem" and a.a[0] is b.a[0]


def mentions(v):
    return any(y is FAILURE for y in subterms(v))


def failed(hist):
    return any(h.op == "did" and h.a[1] == MARK for h in hist)


def in_memory(s):
    """Is the failure kept in a variable?"""
    return any(isinstance(v, V) and mentions(v) for v in s.mem.values())


def poison(ev):
    return any(isinstance(a, V) and any(y.op == "app" and y.a[0] in ("poison", "pcmp") for y in subterms(a)) for a in ev[2])


@check("C28")
def c28(ctx):
    """Every call in the library that can fail (its result says so) is made to fail, one at a time, while all others go well, and the
    function around it is followed on every path: some path ends with an error, none goes on or ends well after the failure, and no panic
    comes of it.  Elements that are read one by one (lines, records) are followed the same way; constant positions in what a file lists,
    and names taken from paths, are not taken for granted."""
    Steps(ctx)
