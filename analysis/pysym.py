"""A small symbolic evaluator of Python source: paths through functions, calls into a foreign library, memory cells passed by reference.

Nothing is executed.  Values are tuples; a path carries the conditions taken, the calls made, and the attributes of the objects it built."""
import ast
import copy
import os

LIMIT = 4000


class Budget(Exception):
    pass


class St:
    __slots__ = ("env", "heap", "facts", "ev", "pending", "mod")

    def __init__(self):
        self.env, self.heap, self.facts, self.ev, self.pending, self.mod = {}, {}, [], [], None, None

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.facts = list(self.facts)
        s.ev = list(self.ev)
        s.pending, s.mod = self.pending, self.mod
        return s


def K(v):
    return ("k", v)


NONE = K(None)
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "//", ast.BitOr: "|", ast.BitAnd: "&", ast.LShift: "<<",
       ast.RShift: ">>", ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}
NEG = {"!=": "==", "is not": "is", "not in": "in", ">=": "<", "<=": ">"}


class Program:
    """The modules of one package."""

    def __init__(self, root, package):
        self.package = package
        self.mods, self.where = {}, {}
        for f in sorted(os.listdir(root)):
            if f.endswith(".py"):
                name = f[:-3]
                path = os.path.join(root, f)
                self.mods[name] = ast.parse(open(path, encoding="utf8").read(), path)
                self.where[name] = path
        self.names = {m: self.scan(t) for m, t in self.mods.items()}
        self.steps = 0
        self.uid = 0
        self.inlined = set()
        self.cache = {}

    def scan(self, tree):
        out = {}
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                out[n.target.id] = n.value
            elif isinstance(n, ast.Import):
                for a in n.names:
                    out[(a.asname or a.name.split(".")[0])] = ("import", a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    base = self.package + ("." + base if base else "")
                for a in n.names:
                    out[a.asname or a.name] = ("import", base, a.name)
        return out

    def fresh(self):
        self.uid += 1
        return self.uid

    # ------------------------------------------------------------ names
    def module_value(self, mod, name):
        """The value of a global of one of the modules, or None."""
        if (mod, name) in self.cache:
            return self.cache[(mod, name)]
        n = self.names.get(mod, {}).get(name)
        v = None
        if isinstance(n, ast.FunctionDef):
            v = ("fn", mod, name)
        elif isinstance(n, ast.ClassDef):
            v = ("cls", mod, name)
        elif isinstance(n, tuple):
            _, base, attr = n
            if base == "_ctypes":
                base = "ctypes"
            if base == "builtins":
                v = ("g", attr)
            elif base == self.package and attr in self.mods:
                v = ("mod", attr)
            elif base.startswith(self.package + ".") and base.split(".")[1] in self.mods:
                v = self.module_value(base.split(".")[1], attr) if attr else ("mod", base.split(".")[1])
            else:
                v = ("g", base + ("." + attr if attr else ""))
        elif isinstance(n, ast.AST):
            self.cache[(mod, name)] = ("modvar", mod, name)
            s = St()
            s.mod = mod
            try:
                r = self.ev(n, s)
                v = r[0][1] if len(r) == 1 else ("modvar", mod, name)
            except Budget:
                v = ("modvar", mod, name)
        if v is not None and v[0] == "call" and v[1] in (("g", "ctypes.cdll.LoadLibrary"), ("g", "ctypes.CDLL"), ("g", "ctypes.PyDLL")):
            v = ("lib",)
        self.cache[(mod, name)] = v
        return v

    def function(self, mod, name):
        n = self.names.get(mod, {}).get(name)
        return n if isinstance(n, ast.FunctionDef) else None

    def method(self, mod, cls, name):
        c = self.names.get(mod, {}).get(cls)
        if not isinstance(c, ast.ClassDef):
            return None
        for n in c.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return n
        return None

    # ------------------------------------------------------------ expressions
    def tick(self):
        self.steps += 1
        if self.steps > 200000:
            raise Budget()

    def evs(self, nodes, st):
        """Several expressions, left to right."""
        out = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vs in out:
                if isinstance(n, ast.Starred):
                    nxt.extend((s2, vs + (("star", v),)) for s2, v in self.ev(n.value, s))
                else:
                    nxt.extend((s2, vs + (v,)) for s2, v in self.ev(n, s))
            out = nxt
            if len(out) > LIMIT:
                raise Budget()
        return out

    def ev(self, n, st):
        self.tick()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return [(st, ("opaque", self.fresh()))]
        return m(n, st)

    def e_Constant(self, n, st):
        return [(st, K(n.value))]

    def e_Name(self, n, st):
        if n.id in st.env:
            return [(st, st.env[n.id])]
        v = self.module_value(st.mod, n.id)
        return [(st, v if v is not None else ("g", n.id))]

    def e_Attribute(self, n, st):
        return [(s, self.attr(s, v, n.attr)) for s, v in self.ev(n.value, st)]

    def attr(self, st, v, name):
        if v[0] == "lib":
            return ("libfn", name)
        if v[0] == "mod":
            return self.module_value(v[1], name) or ("attr", v, name)
        if v[0] == "g" and (v[1] in ("ctypes", "json", "contextlib", "pathlib", "_ctypes") or v[1].startswith("ctypes.cdll")):
            return ("g", v[1].replace("_ctypes", "ctypes") + "." + name)
        if v[0] == "obj":
            h = st.heap.get(v[1], {})
            if name == "value" and h.get("@cell"):
                return self.read(st, v)
            if name in h:
                return h[name]
            if h.get("@cls") and self.method(*h["@cls"], name):
                return ("bound", v, h["@cls"], name)
        return ("attr", v, name)

    def read(self, st, v):
        ver = st.heap[v[1]].get("@v")
        st.ev.append(("read", v[1], ver))
        return ("read", v[1], ver)

    def e_Call(self, n, st):
        out = []
        for s, f in self.ev(n.func, st):
            for s2, args in self.evs(n.args, s):
                for s3, kws in self.evs([k.value for k in n.keywords], s2):
                    out.extend(self.call(f, list(args), [(k.arg, v) for k, v in zip(n.keywords, kws)], s3, n))
        return out

    def call(self, f, args, kw, st, node):
        self.tick()
        # unpack tuples given with a star
        flat = []
        for a in args:
            if a[0] == "star" and a[1][0] == "tuple":
                flat.extend(a[1][1])
            else:
                flat.append(a)
        args = flat
        if f[0] == "libfn":
            return self.foreign(f[1], args, kw, st, node)
        if f[0] == "fn":
            fn = self.function(f[1], f[2])
            decs = [d for d in fn.decorator_list]
            if any("contextmanager" in ast.dump(d) for d in decs):
                return [(st, ("ctx", f, tuple(args), tuple(kw)))]
            return self.inline(fn, f[1], args, kw, st)
        if f[0] == "lambda":
            node_, env, mod = f[1]
            s = st
            old = s.env
            s.env = dict(env)
            for p, a in zip(node_.args.args, args):
                s.env[p.arg] = a
            res = []
            for s2, v in self.ev(node_.body, s):
                s2.env = old if s2 is s else dict(old)
                res.append((s2, v))
            return res
        if f[0] == "nested":
            return self.inline(f[1], f[3], args, kw, st, dict(f[2]))
        if f[0] == "bound":
            m = self.method(*f[2], f[3])
            static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.decorator_list)
            clsm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in m.decorator_list)
            first = [] if static else [("cls",) + f[2]] if clsm else [f[1]]
            return self.inline(m, f[2][0], first + args, kw, st)
        if f[0] == "attr" and f[1][0] == "cls" and self.method(f[1][1], f[1][2], f[2]):
            return self.call(("bound", f[1], f[1][1:], f[2]), args, kw, st, node)
        if f[0] == "cls":
            return self.construct(f, args, kw, st, node)
        if f[0] == "g":
            name = f[1]
            if name in ("ctypes.c_char_p", "ctypes.c_void_p", "ctypes.POINTER") and not args or name in ("ctypes.c_char_p", "ctypes.c_void_p") and args == [NONE]:
                o = self.fresh()
                s = st.copy()
                s.heap[o] = {"@cell": name, "@v": None}
                return [(s, ("obj", o))]
            if name in ("ctypes.byref", "ctypes.pointer") and len(args) == 1:
                return [(st, ("byref", args[0]))]
            if name in ("ctypes.string_at",) and args and args[0][0] == "obj":
                s = st.copy()
                return [(s, self.read(s, args[0]))]
            if name in ("list", "tuple", "iter") and len(args) == 1:
                return [(st, args[0])]
            if name == "getattr" and len(args) >= 2 and args[1][0] == "k" and isinstance(args[1][1], str):
                return [(st, self.attr(st, args[0], args[1][1]))]
            if name == "setattr" and len(args) == 3 and args[0][0] == "obj" and args[1][0] == "k":
                s = st.copy()
                s.heap[args[0][1]][args[1][1]] = args[2]
                return [(s, NONE)]
            if name == "map" and len(args) == 2:
                el = ("elem", args[1], "m")
                rs = self.call(args[0], [el], [], st, node)
                if len(rs) == 1:
                    return [(rs[0][0], ("comp", rs[0][1], el, args[1], ()))]
            if name == "str" and len(args) == 1 and args[0][0] == "k" and isinstance(args[0][1], str):
                return [(st, args[0])]
            if name == "str" and len(args) == 2:
                return [(st, ("call", ("attr", args[0], "decode"), (args[1],), ()))]
            if name == "bytes" and len(args) == 2:
                return [(st, ("call", ("attr", args[0], "encode"), (args[1],), ()))]
        return [(st, ("call", f, tuple(args), tuple(kw)))]

    def foreign(self, name, args, kw, st, node):
        s = st.copy()
        n = sum(1 for e in s.ev if e[0] == "lib")
        r = ("exit", n)
        snap = {}
        for a in args:
            if a[0] == "byref" and a[1][0] == "obj" and a[1][1] in s.heap:
                h = s.heap[a[1][1]]
                snap[a[1][1]] = dict(h)
                if h.get("@cell"):
                    h["@v"] = n
        s.ev.append(("lib", name, tuple(args), tuple(kw), n, getattr(node, "lineno", 0), snap, len(s.facts)))
        return [(s, r)]

    def fields(self, mod, cls):
        c = self.names[mod][cls]
        for n in c.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "_fields_":
                s = St()
                s.mod = mod
                r = self.ev(n.value, s)
                v = r[0][1]
                if v[0] == "tuple":
                    return [tuple(x[1]) for x in v[1] if x[0] == "tuple"]
        return None

    def construct(self, f, args, kw, st, node):
        s = st.copy()
        o = self.fresh()
        s.heap[o] = {"@cls": f[1:]}
        init = self.method(f[1], f[2], "__init__")
        if init is None:
            fl = self.fields(f[1], f[2])
            if fl is not None:
                for x, a in zip(fl, args):
                    s.heap[o][x[0][1]] = a
            for k, v in kw:
                s.heap[o][k] = v
            return [(s, ("obj", o))]
        return [(s2, ("obj", o)) for s2, r in self.inline(init, f[1], [("obj", o)] + args, kw, s)]

    def bind(self, fn, args, kw, st, mod):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = ("tuple", tuple(args[len(names):]))
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        names += [x.arg for x in a.kwonlyargs]
        for k, v in kw:
            if k in names:
                env[k] = v
        for n in names:
            if n not in env and n in defaults:
                s = St()
                s.mod = mod
                env[n] = self.ev(defaults[n], s)[0][1]
            env.setdefault(n, ("opaque", self.fresh()))
        return env

    def inline(self, fn, mod, args, kw, st, env=None):
        """Values returned; raised exceptions travel in the state's `pending`."""
        if len(self.stack) > 20 or any(x is fn for x in self.stack):
            return [(st, ("opaque", self.fresh()))]
        self.inlined.add((mod, fn.name))
        self.stack.append(fn)
        s = st.copy()
        saved, smod = s.env, s.mod
        s.env = dict(env or {}, **self.bind(fn, args, kw, st, mod))
        s.mod = mod
        out = []
        for s2, o in self.block(fn.body, s):
            s2.env, s2.mod = dict(saved), smod
            if o and o[0] == "raise":
                s2.pending = o
                out.append((s2, ("raised",)))
            else:
                out.append((s2, o[1] if o and o[0] == "return" else NONE))
        self.stack.pop()
        return out

    stack = []

    def e_BinOp(self, n, st):
        return [(s, ("tuple", vs[0][1] + vs[1][1]) if isinstance(n.op, ast.Add) and vs[0][0] == vs[1][0] == "tuple" else ("bin", OPS.get(type(n.op), "?"), vs[0], vs[1]))
                for s, vs in self.evs([n.left, n.right], st)]

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return [(s, self.neg(v)) for s, v in self.ev(n.operand, st)]
        return [(s, K(-v[1]) if isinstance(n.op, ast.USub) and v[0] == "k" and isinstance(v[1], (int, float)) else ("un", type(n.op).__name__, v))
                for s, v in self.ev(n.operand, st)]

    def neg(self, v):
        if v[0] == "not":
            return v[1]
        if v[0] == "k":
            return K(not v[1])
        return ("not", v)

    def e_Compare(self, n, st):
        if len(n.ops) != 1:
            return [(st, ("opaque", self.fresh()))]
        out = []
        for s, vs in self.evs([n.left, n.comparators[0]], st):
            op = OPS[type(n.ops[0])]
            a, b = vs
            if a[0] == "k" and b[0] == "k" and op in ("is", "is not", "==", "!="):
                eq = a[1] is b[1] if op.startswith("is") else a[1] == b[1]
                out.append((s, K(eq if op in ("is", "==") else not eq)))
                continue
            if op in ("is", "is not") and NONE in (a, b):
                x = a if b == NONE else b
                if x[0] in ("obj", "byref", "tuple", "comp", "fn", "cls", "lib", "exit", "libfn"):
                    out.append((s, K(op == "is not")))
                    continue
            if op in NEG:
                out.append((s, ("not", ("cmp", NEG[op], a, b))))
            else:
                out.append((s, ("cmp", op, a, b)))
        return out

    def fork(self, s, cond):
        """[(state, truth)] for a condition."""
        q = True
        while cond[0] == "not":
            cond, q = cond[1], not q
        if cond[0] == "k":
            return [(s, bool(cond[1]) is q)]
        if cond[0] in ("obj", "byref", "lib", "fn", "cls", "libfn"):
            if cond[0] == "obj" and s.heap.get(cond[1], {}).get("@cell"):
                pass
            else:
                return [(s, q)]
        if cond[0] == "tuple":
            return [(s, bool(cond[1]) is q)]
        for c, p in s.facts:
            if c == cond:
                return [(s, p is q)]
        out = []
        for p in (True, False):
            s2 = s.copy()
            s2.facts.append((cond, p))
            out.append((s2, p is q))
        return out

    def e_BoolOp(self, n, st):
        out, cur = [], [(st, None)]
        last = len(n.values) - 1
        for i, v in enumerate(n.values):
            nxt = []
            for s, _ in cur:
                for s2, x in self.ev(v, s):
                    if i == last:
                        out.append((s2, x))
                        continue
                    for s3, t in self.fork(s2, x):
                        if isinstance(n.op, ast.And):
                            (nxt.append((s3, x)) if t else out.append((s3, K(False) if x[0] in ("cmp", "not") else x)))
                        else:
                            (out.append((s3, K(True) if x[0] in ("cmp", "not") else x)) if t else nxt.append((s3, x)))
            cur = nxt
        return out

    def e_IfExp(self, n, st):
        out = []
        for s, c in self.ev(n.test, st):
            for s2, t in self.fork(s, c):
                out.extend(self.ev(n.body if t else n.orelse, s2))
        return out

    def e_Tuple(self, n, st):
        return [(s, ("tuple", vs)) for s, vs in self.evs(n.elts, st)]

    e_List = e_Tuple

    def e_Dict(self, n, st):
        return [(s, ("dict", vs)) for s, vs in self.evs([x for x in n.keys if x is not None] + n.values, st)]

    def e_JoinedStr(self, n, st):
        return [(s, ("fmt", vs)) for s, vs in self.evs([v.value if isinstance(v, ast.FormattedValue) else v for v in n.values], st)]

    def e_Lambda(self, n, st):
        return [(st, ("lambda", (n, dict(st.env), st.mod)))]

    def e_Subscript(self, n, st):
        return [(s, ("idx", vs[0], vs[1])) for s, vs in self.evs([n.value, n.slice], st)]

    def e_Starred(self, n, st):
        return [(s, ("star", v)) for s, v in self.ev(n.value, st)]

    def e_NamedExpr(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            s = s.copy()
            s.env[n.target.id] = v
            out.append((s, v))
        return out

    def e_GeneratorExp(self, n, st):
        if len(n.generators) != 1 or not isinstance(n.generators[0].target, ast.Name):
            return [(st, ("opaque", self.fresh()))]
        g = n.generators[0]
        out = []
        for s, src in self.ev(g.iter, st):
            el = ("elem", src, (n.lineno, n.col_offset))
            inner = s.copy()
            inner.env[g.target.id] = el
            rs = self.evs(g.ifs + [n.elt], inner)
            if len(rs) != 1:
                out.append((s, ("opaque", self.fresh())))
                continue
            s2, vs = rs[0]
            s2 = s2.copy()
            s2.env = dict(s.env)
            out.append((s2, ("comp", vs[-1], el, src, tuple(vs[:-1]))))
        return out

    e_ListComp = e_GeneratorExp

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        out, cur = [], [st]
        for n in body:
            nxt = []
            for s in cur:
                for s2, o in self.stmt(n, s):
                    if o is None and s2.pending is not None and s2.pending[0] == "raise":
                        o, s2.pending = s2.pending, None
                    (nxt.append(s2) if o is None else out.append((s2, o)))
            cur = nxt
            if len(cur) + len(out) > LIMIT:
                raise Budget()
        return out + [(s, None) for s in cur]

    def stmt(self, n, st):
        self.tick()
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [(st, None)]
        return m(n, st)

    def raised(self, s):
        if s.pending is not None and s.pending[0] == "raise":
            s = s.copy()
            o, s.pending = s.pending, None
            return s, o
        return s, None

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Yield):
            out = []
            for s, v in (self.ev(n.value.value, st) if n.value.value is not None else [(st, NONE)]):
                cont = self.conts[-1] if self.conts else None
                if cont is None:
                    return [(s, None)]
                for s2, o in cont(s, v):
                    if o is not None and o[0] == "raise":
                        out.append((s2, o))
                    else:
                        s2 = s2.copy()
                        s2.pending = ("after", o)
                        out.append((s2, None))
            return out
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "append" and isinstance(n.value.func.value, ast.Name):
            name = n.value.func.value.id
            out = []
            for s, vs in self.evs(n.value.args, st):
                cur = s.env.get(name)
                if cur is not None and cur[0] == "tuple":
                    s = s.copy()
                    s.env[name] = ("tuple", cur[1] + (vs[0],))
                out.append((s, None))
            return out
        return [self.raised(s) for s, _ in self.ev(n.value, st)]

    conts = []

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, ("return", NONE))]
        out = []
        for s, v in self.ev(n.value, st):
            s, o = self.raised(s)
            out.append((s, o or ("return", v)))
        return out

    def s_Raise(self, n, st):
        if n.exc is None:
            return [(st, ("raise", ("again",)))]
        out = []
        for s, v in self.ev(n.exc, st):
            s, o = self.raised(s)
            out.append((s, o or ("raise", v)))
        return out

    def assign(self, t, v, s):
        """[(state)] after an assignment."""
        if isinstance(t, ast.Name):
            s.env[t.id] = v
            return [s]
        if isinstance(t, ast.Attribute):
            out = []
            for s2, o in self.ev(t.value, s):
                if o[0] == "obj":
                    s2 = s2.copy()
                    s2.heap.setdefault(o[1], {})[t.attr] = v
                out.append(s2)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                item = v[1][i] if v[0] == "tuple" and len(v[1]) == len(t.elts) else ("idx", v, K(i))
                s = self.assign(x, item, s)[0]
            return [s]
        return [s]

    def s_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            s, o = self.raised(s)
            if o:
                out.append((s, o))
                continue
            ss = [s.copy()]
            for t in n.targets:
                ss = [y for x in ss for y in self.assign(t, v, x)]
            out.extend((x, None) for x in ss)
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        return self.s_Assign(ast.Assign(targets=[n.target], value=n.value), st)

    def s_AugAssign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            for s2, c in self.ev(ast.copy_location(ast.Name(n.target.id, ast.Load()), n), s) if isinstance(n.target, ast.Name) else [(s, ("opaque", self.fresh()))]:
                s2 = s2.copy()
                if isinstance(n.target, ast.Name):
                    s2.env[n.target.id] = ("tuple", c[1] + v[1]) if isinstance(n.op, ast.Add) and c[0] == v[0] == "tuple" else ("bin", OPS.get(type(n.op), "?"), c, v)
                out.append((s2, None))
        return out

    def s_If(self, n, st):
        out = []
        for s, c in self.ev(n.test, st):
            s, o = self.raised(s)
            if o:
                out.append((s, o))
                continue
            for s2, t in self.fork(s, c):
                out.extend(self.block(n.body if t else n.orelse, s2))
        return out

    def s_FunctionDef(self, n, st):
        s = st.copy()
        s.env[n.name] = ("nested", n, dict(st.env), st.mod)
        return [(s, None)]

    def s_Assert(self, n, st):
        out = []
        for s, c in self.ev(n.test, st):
            for s2, t in self.fork(s, c):
                out.append((s2, None if t else ("raise", ("call", ("g", "AssertionError"), (), ()))))
        return out

    def s_Delete(self, n, st):
        s = st.copy()
        for t in n.targets:
            if isinstance(t, ast.Name):
                s.env.pop(t.id, None)
        return [(s, None)]

    def s_For(self, n, st):
        """One round stands for all; what it appends becomes a list over the iterated one."""
        out = []
        for s, src in self.ev(n.iter, st):
            s = s.copy()
            el = ("elem", src, (n.lineno, n.col_offset))
            before = dict(s.env)
            calls = len(s.ev)
            self.assign(n.target, el, s)
            base = len(s.facts)
            done = s.copy()
            ends = self.block(n.body, s)
            norm = []
            for s2, o in ends:
                if o is not None and o[0] in ("raise", "return"):
                    out.append((s2, o))
                else:
                    norm.append((s2, o))
            r = done
            r.env = dict(before)
            for name in before:
                vals = [s2.env.get(name) for s2, _ in norm]
                if all(v == before[name] for v in vals):
                    continue
                b = before[name]
                grown = [v for v in vals if v is not None and b is not None and b[0] == "tuple" and v[0] == "tuple" and v[1][:len(b[1])] == b[1] and len(v[1]) == len(b[1]) + 1]
                if not b[1] and len(grown) == len(vals) == 1 and b[0] == "tuple":
                    r.env[name] = ("comp", grown[0][1][0], el, src, ())
                elif b[0] == "tuple" and not b[1] and grown and len({v[1][-1] for v in grown}) == 1:
                    conds = tuple(c if q else ("not", c) for s2, _ in norm if s2.env.get(name) in grown for c, q in s2.facts[base:])
                    r.env[name] = ("comp", grown[0][1][0], el, src, conds)
                else:
                    r.env[name] = ("opaque", self.fresh())
            for name in {k for s2, _ in norm for k in s2.env} - set(before):
                r.env[name] = ("opaque", self.fresh())
            if any(len(s2.ev) != calls for s2, _ in norm):
                r.ev.append(("loop",))
            rest = [c for s2, _ in norm for c in s2.facts[base:]]
            if len(norm) == 1:
                r.facts = r.facts + [(("every", el, c), q) for c, q in rest]
            out.extend(self.block(n.orelse, r) if n.orelse else [(r, None)])
        return out

    def s_While(self, n, st):
        s = st.copy()
        s.ev.append(("loop",))
        return [(s, None)]

    def s_Break(self, n, st):
        return [(st, ("break",))]

    def s_Continue(self, n, st):
        return [(st, ("continue",))]

    def s_With(self, n, st):
        return self.withs(n.items, n.body, st)

    def withs(self, items, body, st):
        if not items:
            return self.block(body, st)
        it = items[0]
        out = []
        for s, c in self.ev(it.context_expr, st):
            s, o = self.raised(s)
            if o:
                out.append((s, o))
                continue
            if c[0] == "ctx":
                fn = self.function(c[1][1], c[1][2])
                self.inlined.add((c[1][1], c[1][2]))
                outer_env, outer_mod = s.env, s.mod

                # what the body leaves in its variables is carried through `@body`
                bodies = {}

                def cont2(s2, v):
                    saved, smod, cs = dict(s2.env), s2.mod, self.conts
                    self.conts = self.conts[:-1]
                    s3 = s2.copy()
                    s3.env, s3.mod = dict(outer_env), outer_mod
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, s3)
                    res = []
                    for s4, o in self.withs(items[1:], body, s3):
                        s4 = s4.copy()
                        k = self.fresh()
                        bodies[k] = dict(s4.env)
                        s4.env = dict(saved)
                        s4.env["@body"] = K(k)
                        s4.mod = smod
                        res.append((s4, o))
                    self.conts = cs
                    return res
                self.conts = self.conts + [cont2]
                s5 = s.copy()
                s5.env, s5.mod = self.bind(fn, list(c[2]), list(c[3]), s, c[1][1]), c[1][1]
                ends = self.block(fn.body, s5)
                self.conts = self.conts[:-1]
                for s6, o in ends:
                    s6 = s6.copy()
                    k = s6.env.get("@body")
                    s6.env, s6.mod = dict(bodies[k[1]] if k else outer_env), outer_mod
                    if s6.pending is not None and s6.pending[0] == "after":
                        p, s6.pending = s6.pending[1], None
                        if o is None or o[0] != "raise":
                            o = p
                    elif o is not None and o[0] == "return":
                        o = None
                    out.append((s6, o))
            elif c[0] == "obj" and s.heap.get(c[1], {}).get("@cls") and self.method(*s.heap[c[1]]["@cls"], "__exit__"):
                cls = s.heap[c[1]]["@cls"]
                for s2, v in self.call(("bound", c, cls, "__enter__"), [], [], s, it.context_expr):
                    s2, o = self.raised(s2)
                    if o:
                        out.append((s2, o))
                        continue
                    s2 = s2.copy()
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, s2)
                    for s3, o in self.withs(items[1:], body, s2):
                        exc = [NONE, NONE, NONE] if o is None or o[0] != "raise" else [("exc",), ("exc",), ("exc",)]
                        for s4, r in self.call(("bound", c, cls, "__exit__"), exc, [], s3, it.context_expr):
                            s4, o2 = self.raised(s4)
                            swallow = o is not None and o[0] == "raise" and r not in (NONE, K(False))
                            out.append((s4, o2 or (None if swallow else o)))
            else:
                s = s.copy()
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, ("entered", c), s)
                out.extend(self.withs(items[1:], body, s))
        return out

    def s_Try(self, n, st):
        out = []
        for s, o in self.block(n.body, st):
            if o is not None and o[0] == "raise" and n.handlers:
                h = self.handler(n.handlers, o)
                if h is not None:
                    s = s.copy()
                    if h.name:
                        s.env[h.name] = o[1]
                    for s2, o2 in self.block(h.body, s):
                        out.append((s2, o if o2 == ("raise", ("again",)) else o2))
                    continue
            if o is None and n.orelse:
                out.extend(self.block(n.orelse, s))
            else:
                out.append((s, o))
        if not n.finalbody:
            return out
        res = []
        for s, o in out:
            keep = s.pending
            s = s.copy()
            s.pending = None
            for s2, o2 in self.block(n.finalbody, s):
                s2 = s2.copy()
                s2.pending = keep if s2.pending is None else s2.pending
                res.append((s2, o2 if o2 is not None else o))
        return res

    def handler(self, hs, o):
        x = o[1]
        name = x[1][1] if x[0] == "call" and x[1][0] == "g" else x[1][2] if x[0] == "call" and x[1][0] == "cls" else None
        for h in hs:
            if h.type is None:
                return h
            ts = [t.id for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(t, ast.Name)]
            if "Exception" in ts or "BaseException" in ts or name in ts:
                return h
        return None

    # ------------------------------------------------------------ entry
    def run(self, mod, fn, args, st=None):
        """[(state, outcome)] of a function on symbolic arguments."""
        s = st or St()
        s = s.copy()
        s.env = self.bind(fn, args, [], s, mod)
        s.mod = mod
        self.inlined.add((mod, fn.name))
        out = []
        for s2, o in self.block(fn.body, s):
            out.append((s2, o or ("return", NONE)))
        return out


def parts(t):
    """All values inside a value."""
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from parts(x)
