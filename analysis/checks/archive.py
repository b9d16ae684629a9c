"""C27: an assistant handed over as a zip archive."""
from ..check import check, where
from ..engine import decide, norm_name
from ..graph import Graph, Held, leaf, within
from ..lib import *
from ..terms import *
from .chain import in_order
from .loading import last

FROM, LOAD = "nlu_engine::SnipsNluEngine::from_zip", "nlu_engine::SnipsNluEngine::from_path"
LOADED = "the assistant at"
Z = C("int", 0)
# calls that change the file system: which argument says where
WRITES = {"std::fs::File::create": 0, "std::fs::File::create_new": 0, "std::fs::create_dir": 0, "std::fs::create_dir_all": 0,
          "std::fs::write": 0, "std::fs::rename": 1, "std::fs::copy": 1, "std::fs::hard_link": 1, "std::fs::soft_link": 1,
          "std::os::unix::fs::symlink": 1, "std::fs::OpenOptions::open": 1, "std::fs::remove_file": 0, "std::fs::remove_dir": 0,
          "std::fs::remove_dir_all": 0, "std::fs::set_permissions": 0, "std::fs::DirBuilder::create": 1}
ARCHIVE = "zip::"
VETTED = ("starts_with", "strip_prefix", "canonicalize", "components", "enclosed_name", "contains", "any", "all", "is_absolute")
KEPT = ("into_path", "keep", "forget", "leak", "disable_cleanup")


def named(t, *names):
    return t.op == "app" and last(t.a[0]) in names


def options(t):
    """The options a file is opened with, or None."""
    out = {}
    t = good(t)
    while t.op == "app" and "OpenOptions" in t.a[0] and len(t.a) == 3 and t.a[2].op == "c":
        out.setdefault(last(t.a[0]), t.a[2].a[1])
        t = good(t.a[1])
    return out if t.op == "app" and "OpenOptions" in t.a[0] and last(t.a[0]) == "new" and len(t.a) == 1 else None


def made_fresh(t):
    """Is this a temporary directory made for the occasion?"""
    t = good(t)
    return named(t, "tempdir", "tempdir_in") or t.op == "app" and t.a[0].endswith("TempDir::new")


def good(t):
    """The step behind the value of a step that went well."""
    while True:
        if t.op == "vf" and t.a[1] in ("Ok", "Some"):
            t = t.a[0]
        elif named(t, "context", "with_context", "ctx", "map_err"):
            t = t.a[1]
        elif named(t, "to_path_buf", "to_owned", "as_ref", "as_path", "into", "from", "clone", "deref", "into_path_buf", "as_os_str", "to_str",
                   "to_string_lossy", "into_owned", "to_os_string", "as_os_string", "to_string") and len(t.a) == 2:
            t = t.a[1]
        else:
            return t


def place(t):
    """(what a path starts from, what is put under it, steps up)"""
    t = good(t)
    if named(t, "join") and len(t.a) == 3:
        r, cs, up = place(t.a[1])
        if up:
            return t, (), 0
        return r, cs + (good(t.a[2]),), 0
    if named(t, "parent") and len(t.a) == 2:
        r, cs, up = place(t.a[1])
        return r, cs, up + 1
    return t, (), 0


def entry(t):
    """(archive, index) of the entry behind a value"""
    t = good(t)
    if named(t, "new", "by_ref", "with_capacity") and t.a[0].split("::")[-2].split("<")[0] == "BufReader":
        t = good(t.a[-1])
    if named(t, "by_index") and len(t.a) == 3:
        return t.a[1], t.a[2]
    return None


def safe_name(t):
    """The entry a name without steps outside comes from."""
    if named(t, "sanitized_name", "mangled_name"):
        return entry(t.a[1])
    return None


def call(h):
    """The value of a call that was made."""
    return app(norm_name(h.a[1]), *h.a[2])


def held(facts, t, variant="Ok"):
    return decide(facts, isv(t, variant))


class Zip:
    def __init__(self, ctx):
        self.ctx = ctx
        self.body = ctx.anchor(FROM)
        self.load = ctx.anchor(LOAD)
        if self.body is None or self.load is None:
            return
        self.w = where(self.body)
        self.ps = params(self.body)

        def loaded(e, st, args, site, fn):
            return [(st, mk("app", LOADED, *args))]

        self.e, self.rs = ctx.run(self.body, self.ps, hooks={LOAD: loaded})
        self.graph = Graph(ctx.prog)
        self.ids = self.graph.reach([self.body["id"]]) - self.graph.reach([self.load["id"]])
        self.extraction()
        self.containment()
        self.entries()
        self.outcome()
        self.alive()

    def ob(self, rule, con, v, msg="", w=None):
        self.ctx.ob(rule, con, v, msg, w or self.w)

    def known(self, t):
        return not opaque_parts(t, self.e)

    # what the loop goes over
    def extraction(self):
        self.archives, self.loops = [], {}
        for ev in self.e.events:
            if ev[0] == "ext" and ev[1].startswith(ARCHIVE) and last(ev[1]) in ("new", "with_config") and "ZipArchive" in ev[1]:
                self.archives.append(ev)
        rule = "the archive read is the one given"
        for ev in self.archives:
            t = good(ev[2][-1])
            if named(t, "new", "by_ref") and len(t.a) == 2:
                t = good(t.a[1])
            self.ob(rule, "from_zip", True if t is self.ps[0] else (None if any(y is self.ps[0] for y in subterms(t)) and not named(t, "take")
                                                                    else False), show(t, 6))
        if not self.archives:
            self.ob(rule, "from_zip", None, "no archive is opened where the analysis looks")
        self.ctx.count("archives_opened", len(self.archives))

    # nothing is written outside of the directory made for it
    def containment(self):
        rule = "nothing is written outside of a directory of its own"
        n = 0
        for ev in self.e.events:
            if ev[0] == "ext" and ev[1] in WRITES:
                n += 1
                a = ev[2]
                i = WRITES[ev[1]]
                if i >= len(a):
                    continue
                r, cs, up = place(a[i])
                con = "%s in %s" % (last(ev[1]), leaf(self.ctx.prog.bodies[ev[5]]["path"]) if ev[5] in self.ctx.prog.bodies else "from_zip")
                v, why = self.inside(r, cs, up, ev)
                self.ob(rule, con, v, "%s: %s" % (why, show(a[i], 8)))
                if last(ev[1]) in ("rename", "hard_link", "soft_link", "symlink", "set_permissions"):
                    self.ob(rule, con + ": what is done", None, ev[1])
        for b in sorted(self.ids):      # writes the evaluation did not come across
            body = self.ctx.prog.bodies[b]
            for name, to, t in self.graph.calls(body).values():
                if name in WRITES and not any(ev[0] == "ext" and ev[1] == name for ev in self.e.events):
                    self.ob(rule, "%s in %s" % (last(name), leaf(body["path"])), None, "not come across")
        self.ctx.count("writes", n)

    def inside(self, r, cs, up, ev):
        if named(r, "path") and made_fresh(r.a[1]):
            pass
        elif made_fresh(r):
            pass
        elif any(named(y, "temp_dir", "current_dir", "home_dir", "into_path", "keep") for y in subterms(r)) or \
                not opaque_parts(r, self.e) and not any(made_fresh(y) for y in subterms(r)):
            return False, "not below a temporary directory of its own"
        else:
            return None, "starts from something not understood"
        depth = 0
        for c in cs:
            if safe_name(c) is not None:
                depth += 1
            elif c.op == "c" and c.a[0] == "str":
                if ".." in c.a[1].split("/") or c.a[1].startswith("/"):
                    return False, "leads outside"
                depth += 1
            elif any(named(y, "name", "name_raw") and entry(y.a[1]) is not None for y in subterms(c)):
                if any(named(y, "replace", "filter", "components", "split", "find", "rfind", "file_name") for y in subterms(c)):
                    return None, "a name rewritten in some way"
                if any(last(y.a[0]) in VETTED for f, q in ev[3] for y in subterms(f) if y.op == "app"):
                    return None, "a name as it stands in the archive, looked at in some way"
                return False, "a name as it stands in the archive may lead outside"
            elif named(c, "file_name") and safe_name(good(c.a[1])) is not None:
                depth += 1
            else:
                return None, "a part of the path is not understood"
        if up > depth:
            return False, "above the directory"
        return True, "below the directory"

    # every entry is written, whole, where its name says
    def entries(self):
        rule, e = "every entry of the archive is extracted", self.e
        n = 0
        lens = set()
        for tag, states in e.rounds.items():
            for s in states:
                acts = [h for h in s.hist if h.op == "did" and h.a[0] == "ext"]
                taken = [h for h in acts if last(h.a[1]) == "by_index" and any(y.op == "elem" for y in subterms(h.a[2][-1]))]
                if not taken:
                    continue
                n += 1
                self.one(s, acts, [entry(call(h)) for h in taken])
                for h in taken:
                    lens.add(h.a[2][-1])
        self.ctx.count("ways_through_an_entry", n)
        if not n:
            self.ob(rule, "the loop over the entries", None, "no loop over the entries found")
            return
        self.indices = lens
        for i in lens:
            el = [y for y in subterms(i) if y.op == "elem"]
            src = el[0].a[0] if len(el) == 1 and i is el[0] else None
            v = None
            if src is not None:
                v = self.whole(src)
            self.ob(rule, "the entries gone over", v, show(i, 6))
        for s, r in self.rs:
            for v in alts(r):
                if v.op == "en" and v.a[1] == "Ok" or v.op != "en":
                    done = [f for f, q in s.facts if q and named(f, "exhausted") and any(any(y is f.a[1] for y in subterms(i)) for i in lens)]
                    left = [f for f, q in s.facts for i in lens if named(f, "forall") or named(f, "exhausted")]
                    self.ob(rule, "the loop goes on to the last entry", True if done else (False if not left or early(self.e, s) else None),
                            "an assistant is handed back with the loop over the entries left early or not run")

    def whole(self, src):
        """Is it every index of an archive?"""
        if named(src, "range") and len(src.a) == 3:
            lo, hi = src.a[1], src.a[2]
            if lo is not Z and decide(frozenset(), eq(lo, Z)) is not True:
                return False if self.known(lo) else None
            if named(hi, "len") and len(hi.a) == 2 and self.is_archive(hi.a[1]):
                return True
            return False if hi.op == "c" or named(hi, "min", "saturating_sub", "wrapping_sub", "checked_sub") or hi.op in ("lin", "sum") else None
        if any(named(y, "skip", "take", "step_by", "rev", "skip_while", "take_while", "filter") for y in subterms(src)):
            return None if named(src, "rev") else False
        return None

    def is_archive(self, t):
        t = good(t)
        return t.op == "app" and t.a[0].startswith(ARCHIVE) and "ZipArchive" in t.a[0] and last(t.a[0]) == "new" or t.op == "phi"

    def one(self, s, acts, these):
        rule, f = "every entry of the archive is extracted", s.facts
        ours = set(these)

        def own(t):
            """(place, steps up) when a path is where this entry goes"""
            r, cs, up = place(t)
            if len(cs) == 1 and (safe_name(cs[0]) in ours or named(cs[0], "name") and entry(cs[0].a[1]) in ours):
                return up
            return None

        files = [h for h in acts if h.a[1] == "std::fs::File::create" and own(h.a[2][0]) == 0]
        for h in acts:
            if h.a[1] == "std::fs::OpenOptions::open" and len(h.a[2]) == 2 and own(h.a[2][1]) == 0:
                o = options(h.a[2][0])
                if o is not None and (o.get("write") or o.get("append")) and (o.get("create") or o.get("create_new")):
                    files.append(h)
                    self.ob("a file has its entry's content and no other", "how it is opened", True if o.get("truncate") or o.get("create_new") else False,
                            "what the file held before stays: %s" % show(h.a[2][0], 5))
        dirs = [h for h in acts if last(h.a[1]) in ("create_dir", "create_dir_all") and own(h.a[2][0]) == 0]
        ups = [h for h in acts if last(h.a[1]) in ("create_dir", "create_dir_all") and own(h.a[2][0]) == 1]
        copies = [h for h in acts if h.a[1].endswith("io::copy") or last(h.a[1]) == "copy" and len(h.a[2]) == 2]
        strange = [h for h in acts if h not in files and h.a[1] in WRITES and not h.a[1].endswith("File::create") and last(h.a[1]) not in ("create_dir", "create_dir_all")
                   or last(h.a[1]) in ("read_to_end", "read_to_string", "write_all", "read", "write", "read_exact", "extract", "push")]
        strange += [h for h in s.hist if h.op == "did" and h.a[0] == "opaque"]
        failed = [h for h in acts if held(f, call(h)) is False]
        ignored = [h for h in files + dirs + ups + copies + [h for h in acts if last(h.a[1]) == "by_index"]
                   if held(f, call(h)) is not True]
        isdir = None
        for t, q in f:
            if named(t, "ends_with") and len(t.a) == 3 and named(good(t.a[1]), "name", "sanitized_name") and entry(good(t.a[1]).a[1]) in ours:
                if t.a[2].op == "c" and t.a[2].a[1] in (47, 92, "/", "\\"):
                    isdir = True if q else (isdir or False)
                elif q:
                    isdir = isdir or None
            elif named(t, "is_dir") and len(t.a) == 2 and entry(t.a[1]) in ours:
                isdir = True if q else (isdir or False)
            elif named(t, "is_file") and len(t.a) == 2 and entry(t.a[1]) in ours:
                isdir = isdir or not q
        con = {True: "a directory", False: "a file", None: "an entry"}[isdir]
        for h in failed:
            self.ob("a step that fails fails the load", "%s: %s" % (con, last(h.a[1])), False, "the loop goes on after it failed")
        for h in ignored:
            if h not in failed:
                self.ob("a step that fails fails the load", "%s: %s" % (con, last(h.a[1])), False, "what it says is not looked at: %s" %
                        show(call(h), 4))
        self.ob("a step that fails fails the load", con, not failed and not ignored)
        there = any(q and named(t, "exists", "is_dir", "is_file") and own(t.a[1]) == 0 for t, q in f)
        if isdir:
            ok = any(last(h.a[1]) == "create_dir_all" for h in dirs) or there and None
            if not ok and dirs:
                self.ob(rule, con, None if any(named(t, "exists", "is_dir") and own(t.a[1]) == 0 for t, q in f) and ups else False,
                        "create_dir fails when the directory is there already or the one above is not")
            elif not ok and files:
                self.ob(rule, con, False, "a file is made for a directory")
            else:
                self.ob(rule, con, True if ok else (None if strange or ok is None and there else False), "no directory is made for it")
            return
        if not files:
            if dirs and isdir is None and not strange:
                self.ob(rule, con, None, "a directory is made")
            else:
                self.ob(rule, con, None if strange else False, "no file is made for it%s" % self.reason(f))
            return
        if isdir is None or not any(q is False and named(t, "ends_with") for t, q in f):
            about = [t for t, q in f if any(named(y, "name", "sanitized_name", "is_dir", "is_file", "name_raw") for y in subterms(t))]
            about = [t for t in about if not named(t, "exists") and t.op != "is"]
            odd = [t for t in about if not (named(t, "ends_with", "starts_with", "contains", "is_empty") and t.a[-1].op == "c")]
            if isdir is None and not odd:
                self.ob(rule, con, None if strange else False, "a file is made for an entry that may be a directory")
        wrote = None
        for h in copies:
            dst, src = h.a[2][1], h.a[2][0]
            d = good(dst)
            if not any(d is call(x) for x in files):
                continue
            t = good(src)
            if entry(src) in ours:
                wrote = True
            elif any(y.op == "app" and last(y.a[0]) in ("take", "skip", "chain") for y in subterms(t)):
                wrote = False
            elif wrote is None and entry(src) is not None:
                wrote = False
        if wrote is None:
            wrote = None if strange or copies else False
        self.ob(rule, con + ": its content", wrote, "; ".join(show(call(h), 5) for h in copies) or "nothing is copied")
        # the directory above
        top = any(not q and t.op == "is" and t.a[1] == "Some" and named(t.a[0], "parent") and own(t.a[0].a[1]) == 0 for t, q in f)
        up_there = any(q and named(t, "exists", "is_dir") and own(t.a[1]) == 1 for t, q in f)
        up_made = [h for h in ups if last(h.a[1]) == "create_dir_all"]
        up = True if top or up_there or up_made else (None if strange else False)
        self.ob(rule, con + ": the directory it is in", up,
                "only one level is made" if ups else "it is not made: archives need not list their directories")

    def reason(self, f):
        for t, q in f:
            if named(t, "starts_with", "ends_with", "contains", "eq", "is_empty") or t.op in ("le", "eq", "lt"):
                if any(named(y, "name", "size", "compressed_size", "sanitized_name", "crc32") for y in subterms(t)):
                    return " when %s is %s" % (show(t, 5), q)
        return ""

    # what is loaded
    def outcome(self):
        rule = "what is loaded is what was extracted"
        n = 0
        for s, r in self.rs:
            for v in alts(r):
                if v.op == "en" and v.a[1] == "Err":
                    continue
                x = v.a[3][0] if v.op == "en" and v.a[1] == "Ok" and v.a[3] else (vfld(v, "Ok", "0") if v.op != "en" else v)
                t = good(x)
                if not (t.op == "app" and t.a[0] == LOADED):
                    self.ob(rule, "the assistant handed back", False if self.known(t) and not any(y.op == "app" and y.a[0] == LOADED for y in subterms(t))
                            else None, show(t, 6))
                    continue
                n += 1
                self.ob(rule, "the assistant handed back", True)
                self.directory(s, t.a[1])
        for ev in self.e.events:
            if ev[0] == "panic":
                mine = ev[5] in self.ids or ev[5] == self.body["id"]
                if mine and any(y.op == "app" and (y.a[0].startswith(("std::fs", "std::io", ARCHIVE, "tempfile")) or
                                                   last(y.a[0]) in ("by_index", "sanitized_name", "create", "copy", "create_dir_all", "tempdir"))
                                for a in ev[2] if isinstance(a, V) for y in subterms(a)):
                    self.ob("a step that fails fails the load", "%s in %s" % (ev[1], leaf(self.ctx.prog.bodies[ev[5]]["path"])), False,
                            "the process is brought down instead: %s" % "; ".join(show(a, 5) for a in ev[2] if isinstance(a, V)))
        self.ctx.count("ways_to_an_assistant", n)
        if not n:
            self.ob(rule, "from_zip", None, "no way to an assistant found")

    def directory(self, s, t):
        rule, con = "what is loaded is what was extracted", "the directory loaded"
        r, cs, up = place(t)
        root = named(r, "path") and made_fresh(r.a[1]) or made_fresh(r)
        if not root or up:
            self.ob(rule, con, False if self.known(t) else None, show(t, 8))
            return
        if len(cs) != 1:
            self.ob(rule, con, False if not cs else None, "nothing of the archive's own directory: %s" % show(t, 6))
            return
        c = cs[0]
        src = [y for y in subterms(c) if y.op == "app" and safe_name(y) is not None or named(y, "name") and entry(y.a[1]) is not None]
        if not src:
            self.ob(rule, con, False if c.op == "c" else None, show(c, 6))
            return
        _, i = safe_name(src[0]) or entry(src[0].a[1])
        if i is not Z:
            self.ob(rule, con, None if any(y.op == "elem" for y in subterms(i)) else False, "named after entry %s" % show(i, 4))
            return
        shape = c
        v = None
        if shape.op == "elem" and named(shape.a[0], "components", "iter") and safe_name(good(shape.a[0].a[1])) is not None:
            v = in_order(self.e, shape, shape.a[0])
        elif named(shape, "first", "next", "idx") and any(named(y, "components", "iter") for y in subterms(shape)):
            v = True if not any(named(y, "rev", "skip", "nth", "last", "next_back") for y in subterms(shape)) else None
        elif any(named(y, "rev", "last", "next_back", "file_name", "file_stem", "rfind") for y in subterms(shape)):
            v = False
        elif shape is src[0]:
            v = False
        self.ob(rule, con, v, "%s is not the first part of the first entry's name" % show(c, 6))

    # the directory lives as long as it is needed, and no longer
    def alive(self):
        rule = "the directory is there while the assistant is loaded, and gone afterwards"
        for ev in self.e.events:
            if ev[0] in ("ext", "opaque") and last(ev[1]) in KEPT and any(made_fresh(y) for a in ev[2] if isinstance(a, V) for y in subterms(a)):
                self.ob(rule, last(ev[1]), False, "the directory stays behind")
        prog = self.ctx.prog
        target = self.load["id"]
        found, missing = 0, []
        seen = set()
        todo = [(self.body["id"], False, False)]
        while todo:
            b, safe, had = todo.pop()
            if (b, safe, had) in seen:
                continue
            seen.add((b, safe, had))
            body = prog.bodies[b]
            h = Alive(body)
            for i, (name, to, t) in self.graph.calls(body).items():
                ok = safe or bool(h.at.get(i))
                has = had or bool(h.cls)
                for x in to:
                    if x == target:
                        found += 1
                        if ok:
                            self.ob(rule, "while loading, from %s" % leaf(body["path"]), True)
                        else:
                            self.ob(rule, "while loading, from %s" % leaf(body["path"]), False if has else None,
                                    "the directory is removed before the assistant is loaded" if has else "no directory seen")
                    elif target in self.graph.reach([x]):
                        todo.append((x, ok, has))
        if not found:
            self.ob(rule, "while loading", None, "no call loads the assistant")


class Alive(Held):
    """Where a temporary directory may be alive."""

    def content(self, t):
        return [n for n, _ in within(t, ("TempDir",))]

    def moved(self, x, live):
        if isinstance(x, list) and x and x[0] == "m":
            p = x[1]
            if isinstance(p, list) and len(p) > 1 and p[1]:
                return      # only a part of it
            live.discard(self.local(p))


@check("C27")
def c27(ctx):
    """An assistant handed over as a zip archive is extracted whole, below a directory made for it and removed afterwards, and loaded from
    there: every entry that is written goes below that directory under a name without steps outside, every way through the loop over the
    entries leaves the entry behind as a directory or as a file with all of its content, every step that fails fails the load, and the
    directory is alive (by the liveness of its owner in every caller) when the assistant is loaded from it."""
    Zip(ctx)
