"""C10: the wire format of trained models."""
import glob
import json
import os
import re

from ..check import check, where
from ..engine import decide
from ..facts import REPO
from ..lib import *
from ..terms import *

R, O, D = "required", "optional", "default"
STR, BOOL, FLT, ANY = "str", "bool", "float", "any"
I32 = ("int", -2 ** 31, 2 ** 31 - 1)
IDX = ("int", 0, 2 ** 31 - 1)
SID = ("int", -1, 2 ** 31 - 1)


def L(x):
    return ("list", x)


def M(k, v):
    return ("map", k, v)


STRS = L(STR)
SPEC = {
    "IntentClassifierModel": {"featurizer": (O, STR), "intercept": (O, L(FLT)), "coeffs": (O, L(L(FLT))),
                              "intent_list": (R, L(("opt", STR)))},
    "FeaturizerModel": {"language_code": (R, STR), "tfidf_vectorizer": (R, STR), "cooccurrence_vectorizer": (O, STR)},
    "TfidfVectorizerModel": {"language_code": (R, STR), "builtin_entity_scope": (R, STRS),
                             "vectorizer": (R, "@SklearnVectorizerModel"),
                             "config": (R, "@TfidfVectorizerConfiguration")},
    "TfidfVectorizerConfiguration": {"use_stemming": (R, BOOL), "word_clusters_name": (O, STR)},
    "SklearnVectorizerModel": {"idf_diag": (R, L(FLT)), "vocab": (R, M(STR, IDX))},
    "CooccurrenceVectorizerModel": {"language_code": (R, STR), "builtin_entity_scope": (R, STRS),
                                    "word_pairs": (R, M(IDX, ("tuple", STR, STR))),
                                    "config": (R, "@CooccurrenceVectorizerConfiguration")},
    "CooccurrenceVectorizerConfiguration": {"window_size": (O, ("int", 0, 65535)), "filter_stop_words": (R, BOOL),
                                            "keep_order": (R, BOOL), "unknown_words_replacement_string": (O, STR)},
    "DeterministicParserModel": {"language_code": (R, STR), "patterns": (R, M(STR, STRS)),
                                 "group_names_to_slot_names": (R, M(STR, STR)),
                                 "slot_names_to_entities": (R, M(STR, M(STR, STR))),
                                 "stop_words_whitelist": (D, M(STR, STRS)),
                                 "config": (R, "@DeterministicParserConfig")},
    "DeterministicParserConfig": {"ignore_stop_words": (D, BOOL)},
    "LookupParserModel": {"language_code": (R, STR), "slots_names": (R, STRS), "intents_names": (R, STRS),
                          "map": (R, M(I32, ("tuple", IDX, L(SID)))), "entity_scopes": (R, L("@GroupedEntityScope")),
                          "stop_words_whitelist": (R, M(STR, STRS)), "config": (R, "@LookupParserConfig")},
    "LookupParserConfig": {"ignore_stop_words": (D, BOOL)},
    "GroupedEntityScope": {"intent_group": (R, STRS), "entity_scope": (R, "@EntityScope")},
    "EntityScope": {"builtin": (R, STRS), "custom": (R, STRS)},
    "ProbabilisticParserModel": {"slot_fillers": (R, L("@SlotFillerMetadata"))},
    "SlotFillerMetadata": {"intent": (R, STR), "slot_filler_name": (R, STR)},
    "ModelVersion": {"model_version": (R, STR)},
    "NluEngineModel": {"dataset_metadata": (R, "@DatasetMetadata"), "intent_parsers": (R, STRS),
                       "model_version": (R, STR), "training_package_version": (R, STR),
                       "builtin_entity_parser": (R, STR), "custom_entity_parser": (R, STR)},
    "DatasetMetadata": {"language_code": (R, STR), "entities": (R, M(STR, "@Entity")),
                        "slot_name_mappings": (R, M(STR, M(STR, STR)))},
    "Entity": {"automatically_extensible": (R, BOOL)},
    "SlotFillerModel": {"language_code": (R, STR), "intent": (R, STR), "slot_name_mapping": (R, M(STR, STR)),
                        "crf_model_file": (O, STR), "config": (R, "@SlotFillerConfiguration")},
    "SlotFillerConfiguration": {"tagging_scheme": (R, ("int", 0, 2)), "feature_factory_configs": (R, L("@FeatureFactory"))},
    "FeatureFactory": {"factory_name": (R, STR), "offsets": (R, L(("int", -128, 127))), "args": (R, M(STR, ANY))},
    "CustomEntityParserMetadata": {"language": (R, STR), "parser_directory": (R, STR),
                                   "parser_usage": (R, "@CustomEntityParserUsage")},
    "ResourcesMetadata": {"language": (R, STR), "gazetteers": (O, STRS), "word_clusters": (O, STRS), "stems": (O, STR),
                          "stop_words": (O, STR)},
}
UNITS = {"deterministic_intent_parser": "DeterministicIntentParser", "lookup_intent_parser": "LookupIntentParser",
         "probabilistic_intent_parser": "ProbabilisticIntentParser", "crf_slot_filler": "CrfSlotFiller",
         "log_reg_intent_classifier": "LogRegIntentClassifier"}
INTS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1),
        "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1),
        "isize": (-2 ** 63, 2 ** 63 - 1), "u128": (0, 2 ** 128 - 1), "i128": (-2 ** 127, 2 ** 127 - 1)}


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<(":
            d += 1
        if c in ">)":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_type(s):
    s = s.strip()
    if s in INTS:
        return ("int",) + INTS[s]
    if s == "bool":
        return BOOL
    if s in ("f32", "f64"):
        return FLT
    if s.startswith("("):
        return ("tuple",) + tuple(parse_type(x) for x in split_args(s[1:-1]))
    m = re.match(r"([\w:]+)(?:<(.*)>)?$", s)
    if not m:
        return ("unknown", s)
    p, a = m.group(1), split_args(m.group(2) or "")
    n = p.split("::")[-1]
    if p in ("std::string::String", "alloc::string::String"):
        return STR
    if n in ("Box", "Arc", "Rc") and a:
        return STR if a[0] == "str" else parse_type(a[0])
    if n in ("Vec", "VecDeque", "LinkedList") and p.startswith(("std::", "alloc::")):
        return L(parse_type(a[0]))
    if n in ("HashMap", "BTreeMap"):
        return M(parse_type(a[0]), parse_type(a[1]))
    if n == "Option":
        return ("opt", parse_type(a[0]))
    if p == "serde_json::Value":
        return ANY
    if not a:
        return "@" + p
    return ("unknown", s)


def accepts(ty, want, names):
    """Does a field of this Rust type read every JSON value the format allows?  True / False / None."""
    if ty == ANY or ty == want:
        return True
    if isinstance(ty, tuple) and ty[0] == "unknown":
        return None
    if isinstance(want, str) and want.startswith("@"):
        if isinstance(ty, str) and ty.startswith("@"):
            return True if names.get(want[1:]) == ty[1:] or ty.split("::")[-1] == want[1:] else None
        return False
    if isinstance(ty, str) and ty.startswith("@"):
        return None
    if isinstance(ty, tuple) and ty[0] == "opt" and not (isinstance(want, tuple) and want[0] == "opt"):
        return accepts(ty[1], want, names)
    if isinstance(want, tuple) and isinstance(ty, tuple):
        if want[0] != ty[0]:
            return False
        if want[0] == "int":
            return ty[1] <= want[1] and ty[2] >= want[2]
        if len(want) != len(ty):
            return False
        rs = [accepts(a, b, names) for a, b in zip(ty[1:], want[1:])]
        return False if False in rs else None if None in rs else True
    return False


class Wire:
    """What a derived deserializer reads: wire name -> field, and what it does when the name is absent."""

    def __init__(self, ctx, path, bodies):
        self.path = path
        self.adt = ctx.prog.lib.adts[path]
        self.fields = self.adt["variants"][0]["fields"]
        self.names = {}
        self.ignores = None
        self.body = bodies["visit_map"]
        vs = bodies.get("visit_str")
        if vs is not None:
            e, rs = ctx.run(vs, [sym("self"), sym("value")])
            for s, r in rs:
                lit = [t for t, p in s.facts if p and t.op == "eq"]
                for v in alts(r):
                    if v.op != "en":
                        continue
                    if lit:
                        for t in lit:
                            for x in t.a:
                                if x.op == "c" and x.a[0] == "str" and v.a[1] == "Ok" and v.a[3]:
                                    fv = v.a[3][0]
                                    m = re.match(r"__field(\d+)$", fv.a[1]) if fv.op == "en" else None
                                    if m:
                                        self.names[x.a[1]] = int(m.group(1))
                    else:
                        self.ignores = v.a[1] == "Ok"
        self.missing, self.defaults, self.types, self.customs = set(), {}, [], []
        b = self.body
        ts = ctx.prog.lib.types
        var = {v[1]: v[0] for v in b["vars"] if isinstance(v[1], int)}
        for bb in b["bbs"]:
            t = bb["t"]
            if t["k"] != "call":
                continue
            f = t["f"].get("fn", {})
            d = f.get("d", "")
            if d.endswith("de::missing_field"):
                for x in t["xs"]:
                    if isinstance(x, dict) and "s" in x:
                        self.missing.add(x["s"])
            elif d.endswith("MapAccess::next_value"):
                self.types.append(ty_str(ts, f["a"][1]))
            elif not t["xs"] and isinstance(t.get("d"), int):
                self.defaults[var.get(t["d"], t["d"])] = (f.get("r") or d, f)


def ty_str(ts, i):
    t = ts[i]
    return t if isinstance(t, str) else t.get("s") or t.get("str") or str(t)


def wires(ctx):
    out = {}
    for b in ctx.prog.lib.bodies.values():
        if "::promoted[" in b["id"]:
            continue
        m = re.match(r"<(.*)::_::<impl serde::Deserialize<'de> for ([\w:]+)>::deserialize::__(Field)?Visitor", b["path"])
        if m and b["name"] in ("visit_map", "visit_str"):
            out.setdefault(m.group(2), {})[b["name"]] = b
    return out


def default_value(ctx, d, want):
    """Is the value of a missing field the empty one?  True / False / None."""
    name, f = d
    if "Default" in name and (f.get("r") or "").startswith("<bool as") or "Default" in name and "collections" in (f.get("r") or ""):
        return True
    for b in ctx.prog.lib.bodies.values():
        if b["path"] == name and b["argc"] == 0:
            e, rs = ctx.run(b, [])
            vals = [v for s, r in rs for v in alts(r)]
            if want == BOOL:
                if all(v is FALSE for v in vals):
                    return True
                return False if any(v is TRUE for v in vals) else None
            if all(v.op == "list" and not v.a[1] or v.op == "app" and v.a[0].endswith("::new") for v in vals):
                return True
    return None


def conforms(v, want, spec):
    """A JSON value against the format."""
    if want == ANY:
        return True
    if want == STR:
        return isinstance(v, str)
    if want == BOOL:
        return isinstance(v, bool)
    if want == FLT:
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if isinstance(want, str):
        if want == "@CustomEntityParserUsage":
            return v in (0, 1, 2)
        return isinstance(v, dict) and conform_struct(v, spec[want[1:]], spec) is None
    k = want[0]
    if k == "opt":
        return v is None or conforms(v, want[1], spec)
    if k == "int":
        if isinstance(v, str) and re.match(r"-?\d+$", v):
            v = int(v)
        return isinstance(v, int) and want[1] <= v <= want[2]
    if k == "list":
        return isinstance(v, list) and all(conforms(x, want[1], spec) for x in v)
    if k == "map":
        return isinstance(v, dict) and all(conforms(a, want[1], spec) and conforms(b, want[2], spec) for a, b in v.items())
    if k == "tuple":
        return isinstance(v, list) and len(v) == len(want) - 1 and all(conforms(a, b, spec) for a, b in zip(v, want[1:]))
    return None


def conform_struct(v, st, spec):
    for n, (mode, ty) in st.items():
        if n not in v:
            if mode == R:
                return "no %r" % n
            continue
        if v[n] is None and mode == O:
            continue
        if not conforms(v[n], ty, spec):
            return "bad %r" % n
    return None


@check("C10")
def c10(ctx):
    """Reads what every derived deserializer of a model structure accepts from its type-checked code (wire names from the
    identifier visitor, required and defaulted fields from the map visitor, field types from the structure) and compares
    it with the format trained models are written in; the enum of processing units and the usage codes of the custom
    entity parser are compared value by value."""
    ws = wires(ctx)
    ws = {p: Wire(ctx, p, bs) for p, bs in ws.items() if "visit_map" in bs and "visit_str" in bs}
    names, left = {}, dict(ws)
    for s in SPEC:
        for p in list(left):
            if p.split("::")[-1] == s:
                names[s] = p
                left.pop(p)
                break
    for s in SPEC:
        if s not in names:
            best = max(left, key=lambda p: len(set(left[p].names) & set(SPEC[s])), default=None)
            if best is not None and 2 * len(set(left[best].names) & set(SPEC[s])) > len(SPEC[s]):
                names[s] = best
                left.pop(best)
    ctx.floor("model structures read from files", len(names), len(SPEC))
    for s, p in sorted(names.items()):
        w = ws[p]
        wh = where(w.body)
        ctx.count("structures")
        ctx.ob("names the format does not mention are ignored", s, w.ignores, "unknown name -> %s" % w.ignores, wh)
        rust = {f["name"]: i for i, f in enumerate(w.fields)}
        extra = [n for n in w.missing if n not in SPEC[s] and n in w.names and
                 parse_type(w.fields[w.names[n]]["ty"])[0] != "opt"]
        ctx.ob("no name beyond the format is required", s, not extra, "requires %s" % ", ".join(sorted(extra)), wh)
        for n, (mode, ty) in sorted(SPEC[s].items()):
            con = "%s.%s" % (s, n)
            ctx.count("wire_names")
            if n not in w.names:
                ctx.ob("every name of the format is read", con, False, "read: %s" % ", ".join(sorted(w.names)), wh)
                continue
            ctx.ob("every name of the format is read", con, True, "", wh)
            i = w.names[n]
            if i >= len(w.fields):
                ctx.ob("a name fills the field of its own name", con, None, "field %d" % i, wh)
                continue
            f = w.fields[i]
            if n in rust:
                ctx.ob("a name fills the field of its own name", con, rust[n] == i, "fills %s" % f["name"], wh)
            raw = [t for t in w.types if "__DeserializeWith" in t]
            t = parse_type(f["ty"])
            base = t[1] if isinstance(t, tuple) and t[0] == "opt" else t
            if mode == R:
                st = n in w.missing and not (isinstance(t, tuple) and t[0] == "opt")
            elif mode == O:
                st = (isinstance(t, tuple) and t[0] == "opt" or n not in w.missing)
            else:
                st = n not in w.missing
                if st:
                    dv = w.defaults.get("__field%d" % i)
                    st = default_value(ctx, dv, ty) if dv else None
            ctx.ob({R: "a name the format requires is required", O: "an optional name may be absent",
                    D: "an absent defaulted name reads as empty"}[mode], con, st,
                   "type %s, %s" % (f["ty"], "missing is an error" if n in w.missing else "missing is defaulted"), wh)
            st = accepts(base, ty, names)
            if raw and st is not True:
                st = None
            if st is False and f["ty"] not in w.types and w.types:
                st = None
            ctx.ob("the field's type reads what the format allows", con, st, "%s for %s" % (f["ty"], ty), wh)
    # processing units
    vs = [b for b in ctx.prog.lib.bodies.values() if b["name"] == "visit_str" and "ProcessingUnitMetadata>" in b["path"]
          and "::promoted[" not in b["id"]]
    de = [b for b in ctx.prog.lib.bodies.values() if b["name"] == "deserialize" and b["path"].endswith("deserialize")
          and "ProcessingUnitMetadata as" in b["path"]]
    de = [b for b in ctx.prog.lib.bodies.values() if b["name"] == "deserialize" and
          any("TaggedContentVisitor" in str(bb["t"].get("f", "")) for bb in b["bbs"]) and "processing_unit" in b["id"]]
    if len(vs) == 1 and len(de) == 1:
        tags = [x["s"] for bb in de[0]["bbs"] if bb["t"]["k"] == "call" and
                "TaggedContentVisitor" in bb["t"]["f"].get("fn", {}).get("d", "") for x in bb["t"]["xs"] if isinstance(x, dict) and "s" in x]
        ctx.ob("the kind of a processing unit is read from unit_name", "ProcessingUnitMetadata", tags[:1] == ["unit_name"],
               str(tags[:1]), where(de[0]))
        adt = [a for p, a in ctx.prog.lib.adts.items() if p.split("::")[-1] == "ProcessingUnitMetadata"][0]
        vn = [v["name"] for v in adt["variants"]]
        got = {}
        e, rs = ctx.run(vs[0], [sym("self"), sym("value")])
        for s, r in rs:
            for t, p in s.facts:
                if p and t.op == "eq":
                    for x in t.a:
                        if x.op == "c" and x.a[0] == "str":
                            for v in alts(r):
                                m = re.search(r"__field(\d+)", show(v, 4))
                                got[x.a[1]] = vn[int(m.group(1))] if m and v.a[1] == "Ok" else None
        for u, k in UNITS.items():
            want_i = vn.index(k) if k in vn else None
            g = got.get(u)
            ctx.ob("a unit name stands for its own implementation", u, g == k if want_i is not None else (g is not None and None),
                   "%s" % g, where(vs[0]))
    else:
        ctx.ob("a unit name stands for its own implementation", "ProcessingUnitMetadata", None, "no derived tagged deserializer")
    # usage codes
    us = [b for t, b in ctx.prog.trait_impls("Deserialize", "deserialize") if t.endswith("CustomEntityParserUsage")]
    if len(us) == 1:
        e, rs = ctx.run(us[0], [sym("deserializer")])
        got, bad = {}, 0
        for s, r in rs:
            for v in alts(r):
                if v.op == "en" and v.a[1] == "Ok":
                    k = v.a[3][0]
                    code = [y for t, p in s.facts if p and t.op == "eq" for y in t.a if y.op == "c"]
                    if k.op == "en" and len(code) >= 1:
                        got[code[0].a[1]] = k.a[1]
                    else:
                        bad += 1
        want = {0: "WithStems", 1: "WithoutStems", 2: "WithAndWithoutStems"}
        st = True if got == want and not bad else (None if bad and all(want.get(k) == v for k, v in got.items()) else False)
        ctx.ob("usage codes 0, 1 and 2 are the three usages", "CustomEntityParserUsage", st, str(got), where(us[0]))
    # the model files of the repository
    files = 0
    root = os.path.join(REPO, "data", "tests", "models")
    for f in sorted(glob.glob(os.path.join(root, "**", "*.json"), recursive=True)):
        n = os.path.relpath(f, root)
        base = os.path.basename(f)
        d = os.path.basename(os.path.dirname(f))
        try:
            v = json.load(open(f))
        except ValueError:
            continue
        st = {"nlu_engine.json": "NluEngineModel", "intent_classifier.json": "IntentClassifierModel",
              "featurizer.json": "FeaturizerModel", "slot_filler.json": "SlotFillerModel"}.get(base)
        if base == "vectorizer.json":
            st = {"tfidf_vectorizer": "TfidfVectorizerModel", "cooccurrence_vectorizer": "CooccurrenceVectorizerModel"}.get(d)
        if base == "intent_parser.json":
            st = {"deterministic_intent_parser": "DeterministicParserModel", "lookup_intent_parser": "LookupParserModel",
                  "probabilistic_intent_parser": "ProbabilisticParserModel"}.get(d)
        if base == "metadata.json" and d == "custom_entity_parser":
            st = "CustomEntityParserMetadata"
        if base == "metadata.json" and "/resources/" in f:
            st = "ResourcesMetadata"
        if st is None or not isinstance(v, dict):
            continue
        files += 1
        why = conform_struct(v, SPEC[st], SPEC)
        ctx.count("model_files")
        if why:
            ctx.ob("the shipped models follow the format compared against", n, None, "%s: %s" % (st, why))
        else:
            ctx.ob("the shipped models follow the format compared against", n, True, st)
