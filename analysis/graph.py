"""What a body may call (with trait objects, closures and function values resolved to bodies), and what holds while it does."""
from .engine import Cfg

GUARDS = ("MutexGuard", "RwLockReadGuard", "RwLockWriteGuard", "RefMut", "Ref", "MappedMutexGuard", "ReentrantLockGuard")


def leaf(path):
    return path.split("::")[-1]


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.impls = {}
        self.cl = {}
        for cr in prog.crates.values():
            for im in cr.impls:
                t = (im.get("trait") or "").split("<")[0]
                for it in im["items"]:
                    if it["id"] in prog.bodies:
                        self.impls.setdefault((leaf(t), it["name"]), []).append(it["id"])
            for tr in cr.traits:
                for it in tr["items"]:
                    if it["id"] in prog.bodies:
                        self.impls.setdefault((leaf(tr["path"]), it["name"]), []).append(it["id"])
        self.paths = {}
        for b in prog.bodies.values():
            if b["kind"] in ("Fn", "AssocFn") and "::promoted[" not in b["id"]:
                self.paths.setdefault((b["crate"].name, b["path"]), b["id"])

    def closures(self, cr):
        if cr.name not in self.cl:
            self.cl[cr.name] = [(t["s"], t["d"]) for t in cr.types if t.get("k") == "closure" and t.get("d") in self.prog.bodies]
        return self.cl[cr.name]

    def called(self, fn, cr):
        """Bodies a function item may run."""
        ids = []
        if fn.get("u") in self.prog.bodies:
            ids.append(fn["u"])
        for d in (fn.get("r"), fn["d"]):
            if not d:
                continue
            if (cr.name, d) in self.paths:
                ids.append(self.paths[(cr.name, d)])
            for other in self.prog.crates:
                if d.startswith(other + "::") and (other, d[len(other) + 2:]) in self.paths:
                    ids.append(self.paths[(other, d[len(other) + 2:])])
        if fn.get("tr") and not fn.get("r"):
            ids.extend(self.impls.get((leaf(fn["tr"].split("<")[0]), fn["nm"]), []))
        return list(dict.fromkeys(ids))

    def calls(self, body):
        """Block -> (name, ids of bodies called or handed over, the terminator)"""
        if body["id"] in self.memo:
            return self.memo[body["id"]]
        cr = body["crate"]
        out = {}
        for i, bb in enumerate(body["bbs"]):
            t = bb["t"]
            if t["k"] != "call" or bb.get("cleanup"):
                continue
            fn = t["f"].get("fn") if isinstance(t["f"], dict) else None
            if fn is None:
                out[i] = ("?", [], t)
                continue
            ids = self.called(fn, cr)
            ft = cr.types[t["f"]["t"]]["s"] if isinstance(t["f"].get("t"), int) else ""
            ft = ft.split(") -> ")[0] + " " + ft[ft.rfind(" {"):] if ") -> " in ft else ft
            dt = cr.types[t["dt"]]["s"] if isinstance(t.get("dt"), int) else ""
            for s, cid in self.closures(cr):
                if s in ft and s not in dt:
                    ids.append(cid)
            for x in t["xs"]:
                if isinstance(x, dict) and x.get("fn"):
                    ids.extend(self.called(x["fn"], cr))
            out[i] = (fn.get("r") or fn["d"], list(dict.fromkeys(ids)), t)
        self.memo[body["id"]] = out
        return out

    def promoted(self, body):
        return [b for b in self.prog.bodies if b.startswith(body["id"] + "::promoted[")]

    def reach(self, ids):
        """All bodies that may run when one of these does."""
        seen, todo = set(), list(ids)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            b = self.prog.bodies[x]
            for name, to, t in self.calls(b).values():
                todo.extend(to)
            # a closure handed over inside a value (a lazy iterator, a struct) runs later: count it where it is made
            for bb in b["bbs"]:
                for s in bb["s"]:
                    rv = s.get("rv")
                    if isinstance(rv, dict) and rv.get("k") == "agg":
                        for k in ("d", "id", "c"):
                            v = rv.get(k)
                            if isinstance(v, str) and v in self.prog.bodies:
                                todo.append(v)
        return seen


def within(t, names):
    """The contents of the first such type inside a structured type: [(name, content)]"""
    out = []
    if not isinstance(t, dict):
        return out
    if t.get("k") == "adt" and leaf(t["d"]) in names:
        out.append((leaf(t["d"]), t))
        return out
    if t.get("k") in ("ref", "refmut", "ptr", "ptrmut"):
        return out
    for a in t.get("a", []):
        out.extend(within(a, names))
    return out


def show(t):
    if not isinstance(t, dict):
        return str(t)
    a = [show(x) for x in t.get("a", []) if isinstance(x, dict)]
    return (t.get("d") or t.get("k") or "?") + ("<" + ", ".join(a) + ">" if a else "")


def guarded(t):
    """What the guards inside a type guard."""
    return [show([x for x in g.get("a", []) if isinstance(x, dict)][-1]) for n, g in within(t, GUARDS) if any(isinstance(x, dict) for x in g.get("a", []))]


class Held:
    """At each call of a body: the guards that may be alive."""

    def __init__(self, body):
        cr = body["crate"]
        self.body = body
        self.cls = {}
        for i, l in enumerate(body["locals"]):
            ti = l if isinstance(l, int) else l.get("t")
            if isinstance(ti, int):
                g = self.content(cr.types[ti])
                if g:
                    self.cls[i] = g
        self.at = {}
        if not self.cls:
            return
        cfg = Cfg(body)
        n = len(body["bbs"])
        entry = [None] * n
        argc = body.get("argc", 0)
        entry[0] = frozenset(i for i in self.cls if 1 <= i <= argc)
        todo = [0]
        while todo:
            i = todo.pop()
            live = set(entry[i])
            bb = body["bbs"][i]
            for s in bb["s"]:
                self.step(s, live)
            t = bb["t"]
            if t["k"] == "call":
                for x in t["xs"]:
                    self.moved(x, live)
                self.at[i] = frozenset(live)
                d = self.local(t["d"])
                if d in self.cls:
                    live.add(d)
            elif t["k"] == "drop":
                live.discard(self.local(t["p"]))
            for j in cfg.succ[i]:
                new = frozenset(live) if entry[j] is None else entry[j] | live
                if new != entry[j]:
                    entry[j] = new
                    todo.append(j)

    def content(self, t):
        """What of interest a value of this type holds."""
        return guarded(t)

    def local(self, p):
        return p[0] if isinstance(p, list) else p

    def moved(self, x, live):
        if isinstance(x, list) and x and x[0] == "m":
            live.discard(self.local(x[1]))

    def step(self, s, live):
        if "dead" in s:
            live.discard(s["dead"])
            return
        rv = s.get("rv")
        if isinstance(rv, dict):
            for k in ("x", "a", "b"):
                if k in rv:
                    self.moved(rv[k], live)
            for x in rv.get("xs", []) or []:
                self.moved(x, live)
        if s.get("p") is not None:
            d = self.local(s["p"])
            if d in self.cls:
                live.add(d)
