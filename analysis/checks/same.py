"""C29: the same question gets the same answer."""
import re

from ..check import check, where
from ..engine import Cfg
from ..facts import plain
from ..graph import Graph, within
from ..lib import *
from .loading import last

HASH = re.compile(r"hash_(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|Difference|Intersection|Union|SymmetricDifference|ExtractIf)\b")
FLAT = re.compile(r"(FlatMap|Flatten|FlattenCompat)<.*\bHash(Map|Set)<")
UNORDERED = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*(?:std::(?:option::Option|result::Result)<)?std::(?:collections::)?(?:hash::|btree::|collections::)?(?:HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)<")
PLAIN = re.compile(r"^(?:&(?:'\w+ )?)*(?:std::option::Option<)?(?:bool|char|usize|isize|[ui](?:8|16|32|64|128)|f32|f64|\(\)|!|std::cmp::Ordering|std::fmt::\S*|std::result::Result<\(\), .*)>?$")
INT = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*(?:std::option::Option<)?(?:bool|usize|isize|[ui](?:8|16|32|64|128))>?$")
FLOAT = re.compile(r"\bf(32|64)\b")
TEXT = re.compile(r"\b(String|str|char)\b")

COUNTS = {"len", "count", "any", "all", "is_empty", "contains", "contains_key", "is_subset", "is_superset", "is_disjoint", "is_some", "is_none", "size_hint",
          "capacity", "max", "min", "get", "drop", "drop_in_place", "fmt", "all_equal", "all_unique", "is_ok", "is_err", "hash", "eq", "ne", "reserve", "clear", "capacity",
          "insert_all", "counts", "into_group_map"}
PICKS = {"next", "next_back", "find", "find_map", "last", "nth", "position", "rposition", "fold", "reduce", "try_fold", "fold1", "rfind", "find_position", "fold_while",
         "first", "split_first", "split_last", "first_mut", "last_mut", "pop", "swap_remove", "index", "remove", "last_or", "nth_back", "next_tuple", "collect_tuple",
         "is_sorted", "partial_cmp", "cmp", "exactly_one", "tree_fold1", "coalesce", "dedup_by", "scan"}
PLACED = {"take", "skip", "step_by", "enumerate", "take_while", "skip_while", "map_while", "tuple_windows", "tuples", "chunks", "windows", "batching", "while_some",
          "peeking_take_while", "truncate", "with_position", "positions"}
BEST = {"max_by", "min_by", "max_by_key", "min_by_key", "minmax_by", "minmax_by_key", "minmax"}
SORTS = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"}
SORTED = {"sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "sorted_unstable_by", "sorted_unstable_by_key", "sorted_by_cached_key", "k_smallest"}
SUMS = {"sum", "product", "sum1", "product1"}
APPENDS = {"push", "push_str", "push_back", "push_front", "extend", "append", "extend_from_slice", "insert", "insert_str", "write_str", "write_fmt", "add_assign", "resize"}
LOGS = ("log::", "std::io::_print", "std::io::_eprint", "core::panicking", "std::rt::", "failure::err_msg", "failure::")
STD = ("std::", "core::", "alloc::", "itertools::", "either::", "<")
ALL = "/all/"


def base(p):
    return p[0] if isinstance(p, list) else p


def places(rv):
    """Places an rvalue reads."""
    out = []

    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], (int, list)):
                out.append(x[1])
                return
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for k, y in x.items():
                if k == "p" and isinstance(y, (int, list)):
                    out.append(y)
                elif k not in ("t", "l"):
                    go(y)
    go(rv)
    return out


def operands(rv):
    """Locals an rvalue reads."""
    return [base(x) for x in places(rv)]


def capture(p):
    """Which captured value of a closure a place is (part of)."""
    if isinstance(p, list) and p[0] == 1:
        for x in p[1:]:
            if isinstance(x, dict):
                return x.get("f")
    return None


class Body:
    """What is needed of a body: its control flow, what its references are to, what is alive where."""

    def __init__(self, b):
        self.b, self.cr = b, b["crate"]
        self.cfg = Cfg(b)
        self.ty = []
        for l in b["locals"]:
            ti = l if isinstance(l, int) else l.get("t")
            self.ty.append(self.cr.types[ti]["s"] if isinstance(ti, int) else "")
        self.keyed = set()      # references to the part of a value that a key or an index names
        self.refs = {}          # local -> the local it points into (temporaries are assigned once)
        for bb in b["bbs"]:
            for s in bb["s"]:
                rv = s.get("rv")
                if isinstance(rv, dict) and isinstance(s.get("p"), int):
                    if rv.get("k") == "ref":
                        self.refs[s["p"]] = base(rv["p"])
                    elif rv.get("k") in ("use", "cast") and isinstance(rv.get("x"), list) and self.ty[s["p"]].startswith("&"):
                        self.refs[s["p"]] = base(rv["x"][1])
            t = bb["t"]
            if t["k"] == "call" and isinstance(t.get("d"), int) and (self.ty[t["d"]].startswith(("&mut", "std::option::Option<&mut")) or "::Entry<" in self.ty[t["d"]]):
                fn = fn_of(t)
                if fn and last(fn["d"]) in ("deref_mut", "as_mut", "borrow_mut", "by_ref", "index_mut", "iter_mut", "as_mut_slice", "get_mut", "entry", "or_insert", "or_insert_with", "or_default", "or_insert_with_key", "or_insert_entry", "into_mut", "and_modify", "unwrap", "expect") and t["xs"]:
                    x = t["xs"][0]
                    if isinstance(x, list):
                        self.refs[t["d"]] = base(x[1])
                        if last(fn["d"]) in ("index_mut", "get_mut", "entry"):
                            self.keyed.add(t["d"])
        self.live = None

    def target(self, l):
        seen = set()
        while l in self.refs and l not in seen:
            seen.add(l)
            l = self.refs[l]
        return l

    def by_index(self, l):
        """Is this a reference to a part named by a key or an index?"""
        seen = set()
        while l not in seen:
            if l in self.keyed:
                return True
            seen.add(l)
            l = self.refs.get(l, l)
        return False

    def alive(self):
        """Locals whose value at the start of a block may still be read."""
        if self.live is not None:
            return self.live
        bbs, n = self.b["bbs"], len(self.b["bbs"])
        use, de = [set() for _ in range(n)], [set() for _ in range(n)]
        for i, bb in enumerate(bbs):
            def read(xs):
                use[i].update(x for x in xs if x not in de[i])
            for s in bb["s"]:
                rv = s.get("rv")
                if rv is not None:
                    read(operands(rv))
                p = s.get("p")
                if isinstance(p, int):
                    de[i].add(p)
                elif isinstance(p, list):
                    read([base(p)])
            t = bb["t"]
            for k in ("xs", "x", "f", "c"):
                if k in t:
                    read(operands(t[k]))
            if t["k"] == "return":
                read([0])
            if t["k"] == "call" and isinstance(t.get("d"), int):
                de[i].add(t["d"])
            elif t["k"] == "call" and isinstance(t.get("d"), list):
                read([base(t["d"])])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(range(n)):
                out = set().union(*[live[j] for j in self.cfg.succ[i]]) if self.cfg.succ[i] else set()
                new = use[i] | (out - de[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self.live = live
        return live


def fn_of(t):
    return t["f"].get("fn") if isinstance(t.get("f"), dict) else None


class Same:
    def __init__(self, ctx, g, scope):
        self.ctx, self.g, self.prog, self.scope = ctx, g, ctx.prog, scope
        self.bodies = {}
        self.memo = {}
        self.said = set()
        self.sites = set()

    def body(self, i):
        if i not in self.bodies:
            self.bodies[i] = Body(self.prog.bodies[i])
        return self.bodies[i]

    def say(self, rule, b, what, status):
        key = (rule, b["path"], what, status)
        if key not in self.said:
            self.said.add(key)
            self.ctx.ob(rule, "%s: %s" % (b["path"], what), status, "", where(b))

    # -------------------------------------------------------- a body with some of its parameters in hash order

    def run(self, i, tainted):
        """Is what the body returns in the order of a hash table (None while this is being found out)?"""
        key = (i, tainted)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        B = self.body(i)
        b = B.b
        n = len(b["bbs"])
        entry = [None] * n
        entry[0] = frozenset(tainted)
        todo = [0]
        ret = False
        rounds = 0
        while todo:
            x = todo.pop()
            rounds += 1
            if rounds > 40 * n + 400:
                break
            cur = self.block(B, x, set(entry[x]))
            if b["bbs"][x]["t"]["k"] == "return" and (0 in cur or ("in", 0) in cur):
                ret = True
            for j in B.cfg.succ[x]:
                new = frozenset(cur) if entry[j] is None else entry[j] | cur
                if new != entry[j]:
                    entry[j] = new
                    todo.append(j)
        self.memo[key] = ret
        return ret

    def block(self, B, i, cur):
        bb = B.b["bbs"][i]
        for s in bb["s"]:
            rv, p = s.get("rv"), s.get("p")
            if "dead" in s:
                cur.discard(s["dead"])
                continue
            if rv is None or p is None:
                continue
            d = base(p)
            seen = rv.get("k") not in ("len", "discr", "bin", "un")
            t = seen and any(self.tainted(B, x, cur) for x in places(rv))
            inner = seen and any(self.inside(B, x, cur) for x in places(rv))
            if rv.get("k") == "agg" and rv.get("a") == "closure":
                for k, x in enumerate(rv.get("xs") or []):
                    if isinstance(x, list):
                        if self.tainted(B, x[1], cur):
                            cur.add(("cl", d, k))
                        if self.inside(B, x[1], cur):
                            cur.add(("clin", d, k))
                continue
            if (t or inner) and rv.get("k") == "agg" and rv.get("a") == "adt" and self.kept(rv):
                self.say("nothing is kept in the order of a hash table", B.b, "%s" % last(str(rv.get("d"))), False)
                t = inner = False
            if inner and not PLAIN.match(B.ty[d]):
                cur.add(("in", d))
            elif isinstance(p, int):
                cur.discard(("in", d))
            if t and not PLAIN.match(B.ty[d]) and not UNORDERED.match(B.ty[d]):
                cur.add(d)
            elif isinstance(p, int) and not t:
                cur.discard(d)
        t = bb["t"]
        if t["k"] == "call":
            self.call(B, i, t, cur)
        return cur

    def kept(self, rv):
        """Is this a value of the library that is kept (an engine, a parser, its resources) rather than an answer on its way?"""
        return last(str(rv.get("d"))) in self.scope.kept

    def captured(self, B, l, cur):
        """What of the things a closure has captured is in the order of a hash table."""
        return frozenset(("cap" if x[0] == "cl" else "incap", x[2]) for x in cur if isinstance(x, tuple) and len(x) == 3 and x[1] == l)

    def tainted(self, B, p, cur):
        l = base(p)
        if B.b["kind"] == "Closure" and l == 1 and ("cap", capture(p)) in cur:
            return True
        return l in cur or B.target(l) in cur or bool(HASH.search(B.ty[l]) or FLAT.search(B.ty[l])) and "hash_map::Entry" not in B.ty[l]

    def inside(self, B, p, cur):
        l = base(p)
        if B.b["kind"] == "Closure" and l == 1 and ("incap", capture(p)) in cur:
            return True
        return ("in", l) in cur or ("in", B.target(l)) in cur

    def call(self, B, i, t, cur):
        """The call itself, and what the parts of its result are made of."""
        fn = fn_of(t)
        d, name = base(t["d"]), plain(fn["d"]) if fn else ""
        args = [base(x[1]) if isinstance(x, list) else None for x in t["xs"]]
        deep = [k for k, a in enumerate(args) if a is not None and self.inside(B, a, cur)]
        made = False
        if fn is not None and name.startswith(STD):
            made = any(self.run(c, frozenset()) for c in self.functions(B, t, fn) if self.prog.bodies[c]["crate"].name == "snips_nlu_lib")
        # what a function given to the call has captured matters for what that function gives
        got = False
        for a in args:
            caps = self.captured(B, a, cur) if a is not None else ()
            c = self.closure(B, a) if caps else None
            if c and self.run(c, caps):
                got = True
        self.step(B, i, t, cur)
        if isinstance(t["d"], int):
            cur.discard(("in", d))
        if got and not PLAIN.match(B.ty[d]) and not UNORDERED.match(B.ty[d]):
            cur.add(d)
            cur.add(("in", d))
        if not (deep or made) or PLAIN.match(B.ty[d]) or name.startswith(LOGS):
            return
        if fn is None:
            return
        if made and re.search(r"(option::Option|result::Result)\b", name) or deep and last(fn["d"]) in PICKS | {"get", "get_mut"} | BEST:
            if not UNORDERED.match(B.ty[d]):
                cur.add(d)
        if deep and not name.startswith(STD) and "clone" not in name:
            ids = [x for x in self.g.called(fn, B.cr) if x in self.prog.bodies]
            if not ids:
                self.say("nothing is handed over in the order of a hash table", B.b, last(fn["d"]), False)
                return
        if deep and last(fn["d"]) in APPENDS and args and args[0] is not None:
            cur.add(("in", B.target(args[0])))
        cur.add(("in", d))

    def step(self, B, i, t, cur):
        fn = fn_of(t)
        b, cr = B.b, B.cr
        d = base(t["d"])
        args = [base(x[1]) if isinstance(x, list) else None for x in t["xs"]]
        bad = [k for k, a in enumerate(args) if a is not None and self.tainted(B, a, cur)]
        if fn is None or not bad:
            if isinstance(t["d"], int):
                cur.discard(d)
            if fn is not None and self.hashed(fn, cr, B, args) and not (HASH.search(B.ty[d])):
                self.sites.add((b["path"], fn["d"]))
            # what an inlined function of the library gives may itself be in hash order
            if fn is not None:
                self.local(B, fn, [], d, cur)
            return
        self.sites.add((b["path"], fn["d"]))
        nm, name = last(fn["d"]), plain(fn["d"])
        dt = B.ty[d]
        if isinstance(t["d"], int):
            cur.discard(d)
        if name.startswith(LOGS) or nm == "from_residual":
            return                                          # an error carries none of it
        if bad[0] == 0 and nm == "next" and self.loop(B, i, t, cur):
            return
        if self.local(B, fn, bad, d, cur):
            return
        if not name.startswith(STD):
            if any(x in name for x in ("clone", "to_owned", "Deref", "serde_json::json")):
                cur.add(d)
            else:
                self.say("nothing is handed over in the order of a hash table", b, nm, False)
            return
        if nm in SORTS | SORTED:
            if len(t["xs"]) >= 2 and not self.total(B, t, fn) and self.numbered(B, t, fn):
                self.say("elements of a hash table are told apart by what they are put in order by", b, nm, None)
                cur.discard(B.target(args[0]))
                return
            if len(t["xs"]) < 2 or self.total(B, t, fn):
                cur.discard(B.target(args[0]))
                if nm in SORTED:
                    self.clean(cur, d)
                return
            if nm in SORTED:
                cur.add(d)
            return
        if bad[0] == 0:
            if nm in COUNTS:
                if nm in ("max", "min") and FLOAT.search(dt):
                    return
                return
            if nm in SUMS:
                if FLOAT.search(dt):
                    self.say("no sum depends on the order of a hash table", b, nm, False)
                return
            if nm in BEST:
                if not self.total(B, t, fn):
                    self.say("no element is chosen by the order of a hash table", b, nm, None if self.numbered(B, t, fn) else False)
                return
            if nm in PICKS:
                if nm in ("index", "remove") and not B.ty[args[0]].lstrip("&mut ").startswith(("std::vec", "[")) and not HASH.search(B.ty[args[0]]):
                    cur.add(d)
                    return
                if nm in ("find", "position") and self.equality(B, t, fn):
                    return
                if nm in ("fold", "try_fold") and INT.match(dt):
                    return
                known = any(fn_of(x["t"]) and last(fn_of(x["t"])["d"]) == "len" for x in b["bbs"] if x["t"]["k"] == "call")
                self.say("no element is chosen by the order of a hash table", b, nm, None if known else False)
                return
            if nm in PLACED:
                if nm in ("take", "skip") and "Option" in name or nm == "windows":
                    cur.add(d)
                    return
                self.say("no element is chosen by the order of a hash table", b, nm, False)
                return
            if nm in ("for_each", "try_for_each"):
                self.ctx.ob("what is done for each element of a hash table can be followed", b["path"], None, nm, where(b))
                return
        if nm in APPENDS or nm in ("extend", "append"):
            tgt = B.target(args[0]) if args[0] is not None else None
            if tgt is not None and bad != [0] and not UNORDERED.match(B.ty[tgt]):
                cur.add(tgt)
            return
        # a function given to Option::map and the like is run on the sequence itself
        if bad[0] == 0 and re.search(r"(option::Option|result::Result)\b", name) and not HASH.search(B.ty[args[0]]):
            for k, x in enumerate(t["xs"][1:]):
                cid = self.closure(B, args[k + 1])
                if cid:
                    if self.run(cid, frozenset([2])):
                        cur.add(d)
                    if nm in ("map_or", "unwrap_or", "or"):
                        pass
                    return
        if PLAIN.match(dt) or UNORDERED.match(dt):
            return
        cur.add(d)

    def clean(self, cur, d):
        cur.discard(d)

    def hashed(self, fn, cr, B, args):
        return any(a is not None and HASH.search(B.ty[a]) for a in args)

    def local(self, B, fn, bad, d, cur):
        """A function of the library: what it makes of parameters in hash order."""
        ids = [x for x in self.g.called(fn, B.cr) if x in self.prog.bodies and self.prog.bodies[x]["crate"].name == "snips_nlu_lib" and
               self.prog.bodies[x]["kind"] in ("Fn", "AssocFn")]
        if not ids:
            return False
        for x in ids:
            if self.run(x, frozenset(k + 1 for k in bad)) and not PLAIN.match(B.ty[d]) and not UNORDERED.match(B.ty[d]):
                cur.add(d)
        return True

    def closure(self, B, l):
        if l is None:
            return None
        for bb in B.b["bbs"]:
            for s in bb["s"]:
                rv = s.get("rv")
                if isinstance(rv, dict) and rv.get("k") == "agg" and rv.get("a") == "closure" and s.get("p") == l and rv.get("d") in self.prog.bodies:
                    return rv["d"]
        return None

    def functions(self, B, t, fn):
        """Bodies of the functions given to a call."""
        out = []
        for x in t["xs"][1:]:
            if isinstance(x, list):
                c = self.closure(B, base(x[1]))
                if c:
                    out.append(c)
            elif isinstance(x, dict) and x.get("fn"):
                out.extend(self.g.called(x["fn"], B.cr))
        return out

    def total(self, B, t, fn):
        """Does the order tell any two elements apart?  (taken to be so when it compares texts in the end)"""
        fs = self.functions(B, t, fn)
        if not fs:
            return True
        todo, seen = list(fs), set()
        while todo:
            x = todo.pop()
            if x in seen or x not in self.prog.bodies:
                continue
            seen.add(x)
            b = self.prog.bodies[x]
            l = b["locals"][0]
            rt = b["crate"].types[l if isinstance(l, int) else l["t"]]["s"]
            if TEXT.search(rt):
                return True
            for bb in b["bbs"]:
                f = fn_of(bb["t"]) if bb["t"]["k"] == "call" else None
                if f is None:
                    continue
                if last(f["d"]) in ("cmp", "partial_cmp") or last(f["d"]).startswith("cmp_"):
                    a = [b["crate"].types[y]["s"] for y in f.get("a") or [] if isinstance(y, int)]
                    if a and (TEXT.search(a[0]) or not PLAIN.match(a[0].replace("&", "")) and not FLOAT.search(a[0])):
                        return True
            for name, ids, tt in self.g.calls(b).values():
                todo.extend(ids)
        return False

    def numbered(self, B, t, fn):
        """Are elements put in order by a number that they carry (nothing computed from them)?"""
        fs = self.functions(B, t, fn)
        for x in fs:
            b = self.prog.bodies.get(x)
            if b is None:
                return False
            for bb in b["bbs"]:
                f = fn_of(bb["t"]) if bb["t"]["k"] == "call" else None
                if f is None:
                    continue
                a = [b["crate"].types[y]["s"] for y in f.get("a") or [] if isinstance(y, int)]
                if last(f["d"]) in ("cmp", "partial_cmp") and a and INT.match(a[0]):
                    continue
                if last(f["d"]) in ("deref", "borrow", "as_ref", "clone", "reverse", "then", "then_with", "unwrap"):
                    continue
                return False
        return bool(fs)

    def equality(self, B, t, fn):
        """Is it the one element whose key is some value?"""
        for x in self.functions(B, t, fn):
            b = self.prog.bodies[x]
            names = [last(fn_of(bb["t"])["d"]) for bb in b["bbs"] if bb["t"]["k"] == "call" and fn_of(bb["t"])]
            if "eq" in names and all(n in ("eq", "deref", "as_str", "borrow", "as_ref", "as_bytes") for n in names):
                return True
        return False

    # -------------------------------------------------------- loops over a hash table

    def loop(self, B, i, t, cur):
        """A round for each element: nothing that outlives the round may depend on which came before."""
        ls = [(len(r), h) for h, r in B.cfg.loops.items() if i in r]
        if not ls:
            return False
        h = min(ls)[1]
        blocks = B.cfg.loops[h]
        b = B.b
        outer = set(B.alive()[h])
        it = B.target(base(t["xs"][0][1])) if isinstance(t["xs"][0], list) else None
        # the way out when there are no more elements
        end = set()
        nb = t.get("t")
        if nb is not None:
            end = {y for y in B.cfg.succ[nb] if y not in blocks}
        cut = False
        for x in blocks:
            for y in B.cfg.succ[x]:
                if y in blocks or y in end and x == nb:
                    continue
                k = self.leaves(B, y)
                if k == "break":
                    cut = True
                elif k == "value":
                    self.say("no element is chosen by the order of a hash table", b, "a loop left with an answer", False)
        writes = {}
        for x in blocks:
            bb = b["bbs"][x]
            for s in bb["s"]:
                rv, p = s.get("rv"), s.get("p")
                if rv is None or p is None:
                    continue
                d = B.target(base(p)) if isinstance(p, list) else p
                if d in outer and d != it:
                    self.assign(B, b, d, p, rv, blocks, outer, it)
            tt = bb["t"]
            if tt["k"] != "call" or x == i:
                continue
            f = fn_of(tt)
            d = base(tt["d"])
            if d in outer and d != it and isinstance(tt["d"], int) and not INT.match(B.ty[d]):
                self.say("nothing outlives a round over a hash table but by its key", b, "value of type %s" % B.ty[d][:60], False if not UNORDERED.match(B.ty[d]) else None)
            if f is None:
                continue
            nm = last(f["d"])
            for k, a in enumerate(tt["xs"]):
                if not isinstance(a, list):
                    continue
                l = base(a[1])
                if nm == "and_modify" and k == 0 and B.target(l) in outer and self.grows(B, tt, f):
                    cur.add(("in", B.target(l)))
                if not B.ty[l].startswith("&mut"):
                    continue
                o = B.target(l)
                if o not in outer or o == it:
                    continue
                if UNORDERED.match(B.ty[o]):
                    if nm in APPENDS and not UNORDERED.match(B.ty[l]) and o != l:
                        cur.add(("in", o))                  # what belongs to a key grows in the order of the table
                    if cut and nm in ("insert", "extend"):
                        self.say("no element is chosen by the order of a hash table", b, "%s until the loop is left" % nm, False)
                    continue
                if nm in ("index_mut", "get_mut", "deref_mut", "iter_mut", "borrow_mut", "as_mut", "entry", "sort", "by_ref"):
                    if FLOAT.search(B.ty[o]) or True:
                        continue
                if nm in APPENDS:
                    cur.add(o)
                elif nm in ("next", "pop", "take", "replace", "remove", "next_back", "nth", "swap", "get_or_insert", "get_or_insert_with"):
                    self.say("nothing outlives a round over a hash table but by its key", b, nm, None if B.ty[o].startswith("&mut") or not UNORDERED.match(B.ty[o]) and nm in ("take", "swap") else False)
                elif not plain(f["d"]).startswith(LOGS):
                    self.ctx.ob("what a round over a hash table changes can be followed", "%s: %s" % (b["path"], nm), None, "", where(b))
        d = base(t["d"])
        cur.discard(d)
        return True

    def grows(self, B, t, fn):
        """Does a function given to the call append to something?"""
        for x in self.functions(B, t, fn):
            for bb in self.prog.bodies[x]["bbs"]:
                f = fn_of(bb["t"]) if bb["t"]["k"] == "call" else None
                if f is not None and last(f["d"]) in APPENDS:
                    return True
        return False

    def derived(self, B, blocks, roots):
        """Locals that are computed in these blocks from others."""
        out = set(roots)
        ch = True
        while ch:
            ch = False
            for x in blocks:
                bb = B.b["bbs"][x]
                for s in bb["s"]:
                    rv, p = s.get("rv"), s.get("p")
                    if rv is not None and p is not None and base(p) not in out and any(y in out for y in operands(rv)):
                        out.add(base(p))
                        ch = True
                t = bb["t"]
                if t["k"] == "call" and base(t["d"]) not in out and any(isinstance(a, list) and base(a[1]) in out for a in t["xs"]):
                    out.add(base(t["d"]))
                    ch = True
        return out

    def assign(self, B, b, d, p, rv, blocks, outer, it):
        ty = B.ty[d]
        if isinstance(p, list) and B.by_index(base(p)):
            return                                          # the part that belongs to this element
        if ty == "()":
            return
        if INT.match(ty):
            self.number(B, b, d, rv, blocks, outer, it)
            return
        if rv.get("k") in ("ref", "discr"):
            return
        if rv.get("k") == "use" and isinstance(rv.get("x"), dict):
            return                                          # a constant
        if rv.get("k") == "agg" and not rv.get("xs"):
            return
        if FLOAT.search(ty) and len(ty) < 8:
            self.say("no sum depends on the order of a hash table", b, "value of type %s" % ty, False)
            return
        if ty.startswith("std::ops::Range"):
            return
        # carried over from before the loop or from one round to the next
        self.say("nothing outlives a round over a hash table but by its key", b, "value of type %s" % ty[:60], None if self.by_key(B, blocks) else False)

    def number(self, B, b, d, rv, blocks, outer, it):
        """A number that a loop leaves behind: it counts, or it is the greatest or the least, or it is a constant; the last one alone is anyone's guess."""
        elems = [base(bb["t"]["d"]) for x in blocks for bb in [b["bbs"][x]] if bb["t"]["k"] == "call" and fn_of(bb["t"]) and last(fn_of(bb["t"])["d"]) == "next" and
                 bb["t"]["xs"] and isinstance(bb["t"]["xs"][0], list) and B.target(base(bb["t"]["xs"][0][1])) == it]
        now = self.derived(B, blocks, elems)
        if not any(x in now for x in operands(rv)):
            return
        before = self.derived(B, blocks, [d])
        if any(x in before for x in operands(rv)):
            return                                          # counted together
        kept = {base(s["p"]) for x in blocks for s in b["bbs"][x]["s"] if s.get("rv") is not None and s.get("p") is not None and base(s["p"]) in outer}
        kept = self.derived(B, blocks, kept)
        for x in blocks:
            for s in b["bbs"][x]["s"]:
                r = s.get("rv")
                if isinstance(r, dict) and r.get("k") == "bin" and r.get("op") in ("Lt", "Le", "Gt", "Ge", "lt", "le", "gt", "ge") and any(y in kept for y in operands(r)):
                    return
            t = b["bbs"][x]["t"]
            f = fn_of(t) if t["k"] == "call" else None
            if f is not None and last(f["d"]) in ("lt", "le", "gt", "ge", "cmp", "partial_cmp", "max", "min") and any(isinstance(a, list) and base(a[1]) in kept for a in t["xs"]):
                return
        self.say("nothing outlives a round over a hash table but by its key", b, "the last number found", False)

    def by_key(self, B, blocks):
        """Are texts or keys compared in the loop to choose?"""
        for x in blocks:
            t = B.b["bbs"][x]["t"]
            f = fn_of(t) if t["k"] == "call" else None
            if f is not None and last(f["d"]) in ("lt", "le", "gt", "ge", "cmp", "eq"):
                a = [B.cr.types[y]["s"] for y in f.get("a") or [] if isinstance(y, int)]
                if a and TEXT.search(a[0]):
                    return True
        return False

    def leaves(self, B, y):
        """How a loop is left by a block: with an error, with a value that says nothing of the element, with a value, or to go on behind it."""
        seen, todo, kinds = set(), [y], set()
        join = None
        while todo:
            x = todo.pop()
            if x in seen or len(seen) > 60:
                continue
            seen.add(x)
            bb = B.b["bbs"][x]
            k = None
            for s in bb["s"]:
                if s.get("p") is not None and base(s["p"]) == 0 and s.get("rv") is not None:
                    rv = s["rv"]
                    if rv.get("k") == "agg" and (rv.get("v") in ("Err", 1) and "Result" in B.ty[0] or not rv.get("xs")):
                        k = "error"
                    elif rv.get("k") == "use" and isinstance(rv.get("x"), dict):
                        k = "error"
                    elif INT.match(B.ty[0]) and "bool" in B.ty[0]:
                        k = "error"
                    else:
                        k = "value"
            t = bb["t"]
            if t["k"] == "call" and base(t["d"]) == 0:
                f = fn_of(t)
                k = "error" if f and last(f["d"]) == "from_residual" else "value"
            if k:
                kinds.add(k)
                continue
            if t["k"] == "return":
                kinds.add("break")
                continue
            if len(B.cfg.preds.get(x, [])) > 1 and x != y:
                kinds.add("break")
                continue
            todo.extend(B.cfg.succ[x])
        if "value" in kinds and "break" not in kinds:
            return "value"
        return "break" if "break" in kinds else "error"


BANNED = (("std::time::", "the time"), ("std::env::", "the environment"), ("std::net::", "the network"), ("std::process::", "other processes"),
          ("rand::", "chance"), ("getrandom", "chance"), ("std::thread::current", "the thread"), ("std::thread::Thread::id", "the thread"), ("uuid::", "chance"),
          ("chrono::", "the time"), ("std::thread::available_parallelism", "the machine"), ("num_cpus::", "the machine"), ("std::hash::RandomState::new", "chance"),
          ("std::collections::hash_map::RandomState::new", "chance"), ("std::hash::BuildHasher::hash_one", "chance"))
FILES = ("std::fs::", "std::path::Path::exists", "std::path::Path::is_file", "std::path::Path::is_dir", "std::path::Path::read_dir", "std::path::Path::metadata")
DURATION = ("std::time::Duration",)


class Scope:
    def __init__(self, prog, g):
        self.kept = set()


@check("C29")
def c29(ctx):
    g = Graph(ctx.prog)
    api = []
    for p in ("parse", "parse_with_alternatives", "get_slots", "get_slots_with_alternatives", "get_intents"):
        b = ctx.anchor("SnipsNluEngine::" + p)
        if b is not None:
            api.append(b)
    loads = [b for b in (ctx.anchor("SnipsNluEngine::from_path"), ctx.prog.find("SnipsNluEngine::from_zip", optional=True)) if b is not None]
    if len(api) < 5 or not loads:
        return
    for p in ("extract_slot", "extract_slot_with_alternatives"):
        b = ctx.prog.find("SnipsNluEngine::" + p, optional=True)
        if b is not None:
            api.append(b)
    for tr, ms in (("IntentParser", ("parse", "get_intents", "get_slots")), ("IntentClassifier", ("get_intent", "get_intents")), ("SlotFiller", ("get_slots", "get_sequence_probability"))):
        for m in ms:
            impls = [b for _, b in ctx.prog.trait_impls(tr, m) if b is not None]
            ctx.floor("answers of %s::%s" % (tr, m), len(impls), 1)
            api.extend(impls)
    asked = {x for x in g.reach([b["id"] for b in api]) if ctx.prog.bodies[x]["crate"].name == "snips_nlu_lib"}
    loaded = {x for x in g.reach([b["id"] for b in loads]) if ctx.prog.bodies[x]["crate"].name == "snips_nlu_lib"}
    scope = Scope(ctx.prog, g)
    # what stays from one question to the next: the fields of an engine and of all that implements a trait of the library
    for a in ctx.prog.lib.adts.values():
        if a.get("kind", "struct") == "struct" or True:
            scope.kept.add(last(a["path"]))
    answers = set()
    for b in api:
        l = b["locals"][0]
        ty = b["crate"].types[l if isinstance(l, int) else l["t"]]["s"]
        answers.update(re.findall(r"\w+", ty))
    scope.kept -= answers | {"InternalParsingResult", "InternalSlot", "MatchedEntity"}
    s = Same(ctx, g, scope)
    n = effects(ctx, g, asked, loaded, s)
    for x in sorted(asked | loaded):
        b = ctx.prog.bodies[x]
        if b["kind"] in ("Fn", "AssocFn") and "::promoted[" not in b["id"] and not b.get("derived") and "_DERIVE" not in b["path"]:
            s.run(x, frozenset())
            ctx.functions.add(b["path"])
    for x in sorted(asked | loaded):
        if "{closure" in x and "::promoted[" not in x:
            s.run(x, frozenset())
    for b in api:
        r = s.run(b["id"], frozenset())
        ctx.ob("no answer is in the order of a hash table", b["path"], not r, "", where(b))
    ctx.count("places_where_a_hash_table_is_gone_through", len(s.sites))
    ctx.count("calls_looked_at", n)
    for p, nm in sorted(s.sites):
        if not any(x[1] == p and x[3] is False for x in s.said):
            ctx.ob("what is made of the elements of a hash table does not depend on their order", "%s: %s" % (p, last(nm)), True, "")


READS = re.compile(r"sync::atomic::Atomic\w*(<.*>)?::(load|swap|fetch_\w+|compare_\w+|get_mut)$|thread::LocalKey(<.*>)?::(with|get|take|replace|with_borrow|with_borrow_mut)$")
LOCKS = re.compile(r"sync::(poison::|nonpoison::)?(mutex::|rwlock::)?(Mutex|RwLock)(<.*>)?::(lock|try_lock|read|write|try_read|try_write)$")


def used(b, t):
    """Is the result of a call read by anything?"""
    if not isinstance(t["d"], int):
        return True
    for bb in b["bbs"]:
        for s in bb["s"]:
            if s.get("rv") is not None and t["d"] in operands(s["rv"]):
                return True
        x = bb["t"]
        if any(t["d"] in operands(x[k]) for k in ("xs", "x", "c") if k in x and x["k"] != "drop"):
            return True
    return t["d"] == 0


def remembered(s, b):
    """What a value put in a map behind a lock is made of that its key is not made of (None when nothing is put in one)."""
    B = s.body(b["id"])
    reach = {p: changed(B, [p]) for p in range(1, b["argc"] + 1)}
    out, found = set(), False
    for bb in b["bbs"]:
        t = bb["t"]
        f = fn_of(t) if t["k"] == "call" else None
        if f is None or last(f["d"]) not in ("insert", "or_insert", "or_insert_with") or len(t["xs"]) < 2:
            continue
        if not re.search(r"\b(HashMap|BTreeMap|LruCache|Entry|OccupiedEntry|VacantEntry)\b", B.ty[base(t["xs"][0][1])]):
            continue
        if last(f["d"]) == "insert" and len(t["xs"]) == 3:
            key, value = t["xs"][1], t["xs"][2]
        else:
            key, value = t["xs"][0], t["xs"][1]
        locked = [x["t"] for x in b["bbs"] if x["t"]["k"] == "call" and fn_of(x["t"]) and LOCKS.search(plain(fn_of(x["t"])["d"]))]
        lock = changed(B, [base(x["d"]) for x in locked], True)
        own = b["kind"] == "AssocFn" and selfish(b) and all(isinstance(x["xs"][0], list) and base(x["xs"][0][1]) in changed(B, [1], True) for x in locked)
        if B.target(base(t["xs"][0][1])) not in lock:
            continue
        found = True
        for p, ls in reach.items():
            if isinstance(value, list) and base(value[1]) in ls and not (isinstance(key, list) and base(key[1]) in ls):
                if p == 1 and own:
                    continue                                # kept in the value the method is of
                out.add("argument %d" % p)
    return out if found else None


def selfish(b):
    """Is the first parameter the value the method is of?"""
    m = re.match(r"<(.*) as ", b["path"])
    own = last(m.group(1)) if m else b["path"].split("::")[-2] if "::" in b["path"] else ""
    l = b["locals"][1]
    ty = b["crate"].types[l if isinstance(l, int) else l["t"]]["s"]
    return own.split("<")[0] == last(ty.replace("&", "").replace("mut ", "").strip()).split("<")[0]


def changed(B, roots, plain_only=False):
    """Locals made, by any call or statement, out of others."""
    out = set(roots)
    ch = True
    while ch:
        ch = False
        for bb in B.b["bbs"]:
            new = set()
            for s in bb["s"]:
                rv, p = s.get("rv"), s.get("p")
                if rv is not None and p is not None and any(y in out for y in operands(rv)):
                    new.add(base(p))
                    new.add(B.target(base(p)))
            t = bb["t"]
            if t["k"] == "call" and any(isinstance(a, list) and base(a[1]) in out for a in t["xs"]):
                new.add(base(t["d"]))
                if not plain_only:
                    new.update(B.target(base(a[1])) for a in t["xs"][:1] if isinstance(a, list) and (B.ty[base(a[1])].startswith("&mut") or "::Entry<" in B.ty[base(a[1])]))
            if not new <= out:
                out |= new
                ch = True
    return out


def turned_on(s, b, t):
    """Does a branch that says nothing to the log hang on the result of a call?"""
    B = s.body(b["id"])
    made = changed(B, [base(t["d"])], True)
    for i, bb in enumerate(b["bbs"]):
        x = bb["t"]
        if x["k"] != "switch" or not any(y in made for y in operands(x["x"])):
            continue
        said, todo, seen = False, list(B.cfg.succ[i]), set()
        while todo and not said:
            j = todo.pop()
            if j in seen:
                continue
            seen.add(j)
            f = fn_of(b["bbs"][j]["t"]) if b["bbs"][j]["t"]["k"] == "call" else None
            said = f is not None and ("log::" in f["d"] or "_print" in f["d"])
            if len(seen) < 12:
                todo.extend(B.cfg.succ[j])
        if not said:
            return True
    return False


def effects(ctx, g, asked, loaded, s):
    n = locks = 0
    for x in sorted(asked | loaded):
        b = ctx.prog.bodies[x]
        for name, ids, t in g.calls(b).values():
            n += 1
            nm = plain(name)
            for p, what in BANNED:
                if nm.startswith(p) and not nm.startswith(DURATION) and not nm.startswith("std::env::temp_dir"):
                    ctx.ob("an answer depends on the files and the question alone", "%s: %s" % (b["path"], last(nm)), (False if x in asked and t["k"] == "call" and turned_on(s, b, t) else None) if nm.startswith("std::time::Instant") else False,
                           what, where(b))
            if x in asked and READS.search(nm) and used(b, t):
                ctx.ob("an answer does not depend on what was asked before", "%s: %s" % (b["path"], last(nm)), False, nm, where(b))
            if x in asked and LOCKS.search(nm):
                locks += 1
                a = [b["crate"].types[y]["s"] for y in t["f"]["fn"].get("a") or [] if isinstance(y, int)]
                known = any(re.search(r"\bCache<|\bTagger\b", y) for y in a)
                m = None if known else remembered(s, b)
                if m is None:
                    ctx.ob("what is kept from one question to the next is a cache or a tagger", "%s: %s" % (b["path"], " ".join(a)[:80]), True if known else None, "", where(b))
                else:
                    ctx.ob("what is remembered of a question depends on nothing but what it is remembered by", b["path"], not m, "; ".join(sorted(m)), where(b))
            if x in asked and nm.startswith(FILES):
                ctx.ob("asking does not go back to the files", "%s: %s" % (b["path"], last(nm)), False, nm, where(b))
    ctx.count("locks_taken_by_a_question", locks)
    ctx.floor("calls an answer is made by", n, 300)
    ctx.ob("an answer depends on the files and the question alone", "all calls reached by the questions and the loads", True, "%d calls" % n)
    return n
