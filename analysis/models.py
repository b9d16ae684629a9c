"""Abstract transfer functions for the standard library (and a few crates) used by the analysed code.

Each model has the signature (engine, state, args, site) -> [(state, result)] or None (not applicable).
References are transparent (`&x` is x), mutable references are `ptr` terms.
"""
from .terms import *
from .engine import (norm, keys_of, map_value, length, index_term, binop, join_u, nonneg, State, lin_parts, decide,
                     is_floaty, absorb)
from . import engine as E

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def one(st, r):
    return [(st, r)]


# ------------------------------------------------------------------ transparent operations

IDENT = """Deref::deref Clone::clone ToString::to_string AsRef::as_ref Borrow::borrow Into::into ToOwned::to_owned
Arc::new Box::new Rc::new String::as_str Vec::as_slice slice::to_vec Option::as_ref Result::as_ref Option::cloned
Option::copied Option::as_deref hint::must_use IntoIterator::into_iter@id BufReader::new Mutex::new RwLock::new
boxed::box_assume_init_into_vec_unsafe slice::into_vec String::into_boxed_str Path::new PathBuf::as_path Path::to_path_buf
str::to_owned str::to_string Cell::new RefCell::new String::into_string Cow::into_owned Path::as_os_str OsStr::to_os_string
str::as_ref Box::from String::from str::into_string Vec::into_boxed_slice Path::as_ref convert::identity iter::Peekable
Vec::as_ref Iterator::by_ref OsStr::as_ref Token::as_ref""".split()


def ident(e, st, args, site):
    v = args[0]
    if v.op == "ptr":
        v = e.deref(st, v)
    return one(st, v)


for n in IDENT:
    MODELS[n] = ident


@model("DerefMut::deref_mut", "AsMut::as_mut", "Vec::as_mut_slice", "Option::as_deref_mut", "BorrowMut::borrow_mut")
def deref_mut(e, st, args, site):
    p = args[0]
    if p.op == "ptr":
        v = e.read(st, p.a[0], p.a[1])
        if v.op == "ptr":
            return one(st, v)
    return one(st, p)


@model("From::from")
def from_(e, st, args, site):
    t = site.targ(0)
    s = site.targ(1)
    if t == s or t in ("std::string::String", "failure::Error", "std::path::PathBuf") or t.startswith("std::boxed::Box"):
        return one(st, e.deref(st, args[0]))
    return None


@model("mem::drop", "mem::forget")
def drop_(e, st, args, site):
    st = e.did(st, "drop", "drop", [e.deref(st, args[0])])
    return one(st, UNIT)


@model("mem::replace")
def mem_replace(e, st, args, site):
    p = args[0]
    v = e.deref(st, p)
    return one(e.write(st, p.a[0], p.a[1], args[1]), v)


@model("mem::take", "Option::take")
def mem_take(e, st, args, site):
    p = args[0]
    v = e.deref(st, p)
    new = NONE if "Option" in site.fn["d"] else app("default")
    return one(e.write(st, p.a[0], p.a[1], new), v)


@model("Box::new_uninit")
def new_uninit(e, st, args, site):
    return one(st, app("uninit"))


# ------------------------------------------------------------------ logging is switched off

@model("log::max_level")
def max_level(e, st, args, site):
    return one(st, C("loglevel", 0))


@model("__private_api::loc", "__private_api::log", "__private_api::enabled")
def log_loc(e, st, args, site):
    return one(st, UNIT)


# ------------------------------------------------------------------ comparison

@model("PartialEq::eq")
def p_eq(e, st, args, site):
    return one(st, eq(e.deref(st, args[0]), e.deref(st, args[1])))


@model("PartialEq::ne")
def p_ne(e, st, args, site):
    return one(st, neg(eq(e.deref(st, args[0]), e.deref(st, args[1]))))


def cmp_model(op):
    def f(e, st, args, site):
        a, b = e.deref(st, args[0]), e.deref(st, args[1])
        if a.op == "c" and a.a[0] == "loglevel" or b.op == "c" and b.a[0] == "loglevel" or "log::Level" in site.targ(0):
            return one(st, FALSE)
        ty = site.targ(0).replace("&", "").replace("mut ", "").strip()
        if ty in ("usize", "i32", "u32", "i64", "u64", "isize", "i16", "u16", "u8", "i8", "f32", "f64", "char"):
            return one(st, binop(op, a, b, ty))
        return one(st, app("cmp:" + op, a, b))
    return f


for nm, op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["PartialOrd::" + nm] = cmp_model(op)


@model("PartialOrd::partial_cmp")
def partial_cmp(e, st, args, site):
    return one(st, app("pcmp", e.deref(st, args[0]), e.deref(st, args[1])))


@model("Ord::cmp", "f32::total_cmp", "f64::total_cmp")
def ord_cmp(e, st, args, site):
    return one(st, app("cmp", e.deref(st, args[0]), e.deref(st, args[1])))


@model("Ordering::reverse")
def ord_rev(e, st, args, site):
    return one(st, app("ord_rev", args[0]))


@model("Ordering::then")
def ord_then(e, st, args, site):
    return one(st, app("ord_then", args[0], args[1]))


@model("Ordering::then_with")
def ord_then_with(e, st, args, site):
    return [(s, app("ord_then", args[0], r)) for s, r in e.call_value(st, args[1], [], site)]


@model("cmp::min", "Ord::min")
def cmin(e, st, args, site):
    a, b = sorted((e.deref(st, args[0]), e.deref(st, args[1])), key=lambda t: t.id)
    return minmax(e, st, a, b, "min")


@model("cmp::max", "Ord::max", "f32::max", "f64::max")
def cmax(e, st, args, site):
    a, b = sorted((e.deref(st, args[0]), e.deref(st, args[1])), key=lambda t: t.id)
    return minmax(e, st, a, b, "max")


def minmax(e, st, a, b, op):
    r = app(op, a, b)
    s = 1 if op == "min" else -1
    for x in (a, b):
        st = e.assume(st, ge0(scale(sub(x, r), s)), True) or st
    return one(st, r)


def arith(op):
    def f(e, st, args, site):
        t = site.targ(0).replace("&", "").strip()
        return one(st, binop(op, e.deref(st, args[0]), e.deref(st, args[1]), t))
    return f


for nm, op in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul"), ("Div::div", "Div")):
    MODELS[nm] = arith(op)


@model("AddAssign::add_assign")
def add_assign(e, st, args, site):
    p = args[0]
    v = e.deref(st, p)
    t = site.targ(0).replace("&", "").strip()
    if t == "std::string::String":
        x = e.deref(st, args[1])
    if site.fn["d"].endswith("::push") and x.op == "c" and isinstance(x.a[1], int):
        x = S(chr(x.a[1]))
    return one(e.write(st, p.a[0], p.a[1], concat(v, x)), UNIT)
    return one(e.write(st, p.a[0], p.a[1], binop("Add", v, e.deref(st, args[1]), t)), UNIT)


# ------------------------------------------------------------------ Option / Result

def opt_split(e, st, v):
    """[(state, 'Some'|'None', payload)]"""
    v = e.deref(st, v) if v.op == "ptr" else v
    if v.op in ("u", "phi") and e.candidates(v):
        out = []
        for s, x in e.case_split(st, v):
            out.extend(opt_split(e, s, x))
        return out
    if v.op == "en":
        return [(st, v.a[1], vfld(v, v.a[1], "0") if v.a[2] else UNIT)]
    out = []
    s = e.assume(st, isv(v, "Some"), True)
    if s is not None:
        out.append((s, "Some", vfld(v, "Some", "0")))
    s = e.assume(st, isv(v, "Some"), False)
    if s is not None:
        out.append((s, "None", UNIT))
    return out


def res_split(e, st, v):
    v = e.deref(st, v) if v.op == "ptr" else v
    if v.op in ("u", "phi") and e.candidates(v):
        out = []
        for s, x in e.case_split(st, v):
            out.extend(res_split(e, s, x))
        return out
    if v.op == "en":
        return [(st, v.a[1], vfld(v, v.a[1], "0"))]
    out = []
    s = e.assume(st, isv(v, "Ok"), True)
    if s is not None:
        out.append((s, "Ok", vfld(v, "Ok", "0")))
    s = e.assume(st, isv(v, "Ok"), False)
    if s is not None:
        out.append((s, "Err", vfld(v, "Err", "0")))
    return out


@model("Option::map")
def opt_map(e, st, args, site):
    out = []
    for s, k, p in opt_split(e, st, args[0]):
        if k == "Some":
            out.extend((s2, some(r)) for s2, r in e.call_value(s, args[1], [p], site))
        else:
            out.append((s, NONE))
    return out


@model("Option::transpose")
def opt_transpose(e, st, args, site):
    out = []
    for s, k, p in opt_split(e, st, args[0]):
        if k == "Some":
            for s2, k2, p2 in res_split(e, s, p):
                out.append((s2, ok(some(p2)) if k2 == "Ok" else err(p2)))
        else:
            out.append((s, ok(NONE)))
    return out


@model("Option::and_then")
def opt_and_then(e, st, args, site):
    out = []
    for s, k, p in opt_split(e, st, args[0]):
        out.extend(e.call_value(s, args[1], [p], site) if k == "Some" else [(s, NONE)])
    return out


@model("Option::filter")
def opt_filter(e, st, args, site):
    out = []
    for s, k, p in opt_split(e, st, args[0]):
        if k == "None":
            out.append((s, NONE))
            continue
        for s2, r in e.call_value(s, args[1], [p], site):
            a = e.assume(s2, r, True)
            if a is not None:
                out.append((a, some(p)))
            a = e.assume(s2, r, False)
            if a is not None:
                out.append((a, NONE))
    return out


@model("Option::or_else")
def opt_or_else(e, st, args, site):
    out = []
    for s, k, p in opt_split(e, st, args[0]):
        out.extend([(s, some(p))] if k == "Some" else e.call_value(s, args[1], [], site))
    return out


@model("Option::or")
def opt_or(e, st, args, site):
    return [(s, some(p) if k == "Some" else args[1]) for s, k, p in opt_split(e, st, args[0])]


@model("Option::unwrap_or_else")
def opt_uoe(e, st, args, site):
    out = []
    for s, k, p in opt_split(e, st, args[0]):
        out.extend([(s, p)] if k == "Some" else e.call_value(s, args[1], [], site))
    return out


@model("Option::unwrap_or")
def opt_uo(e, st, args, site):
    return [(s, p if k == "Some" else args[1]) for s, k, p in opt_split(e, st, args[0])]


@model("Option::unwrap_or_default")
def opt_uod(e, st, args, site):
    return [(s, p if k == "Some" else app("default")) for s, k, p in opt_split(e, st, args[0])]


@model("Option::map_or")
def opt_map_or(e, st, args, site):
    out = []
    for s, k, p in opt_split(e, st, args[0]):
        out.extend([(s, args[1])] if k == "None" else e.call_value(s, args[2], [p], site))
    return out


@model("Option::map_or_else")
def opt_map_or_else(e, st, args, site):
    out = []
    for s, k, p in opt_split(e, st, args[0]):
        out.extend(e.call_value(s, args[1], [], site) if k == "None" else e.call_value(s, args[2], [p], site))
    return out


@model("Option::ok_or_else")
def opt_ok_or_else(e, st, args, site):
    out = []
    for s, k, p in opt_split(e, st, args[0]):
        if k == "Some":
            out.append((s, ok(p)))
        else:
            out.extend((s2, err(r)) for s2, r in e.call_value(s, args[1], [], site))
    return out


@model("Option::ok_or")
def opt_ok_or(e, st, args, site):
    return [(s, ok(p) if k == "Some" else err(args[1])) for s, k, p in opt_split(e, st, args[0])]


@model("Option::is_some")
def opt_is_some(e, st, args, site):
    return [(s, B(k == "Some")) for s, k, p in opt_split(e, st, args[0])]


@model("Option::is_none")
def opt_is_none(e, st, args, site):
    return [(s, B(k == "None")) for s, k, p in opt_split(e, st, args[0])]


@model("Option::as_mut")
def opt_as_mut(e, st, args, site):
    p = args[0]
    if p.op != "ptr":
        return one(st, p)
    out = []
    for s, k, _ in opt_split(e, st, p):
        out.append((s, some(mk("ptr", p.a[0], p.a[1] + (("vf", "Some", "0"),))) if k == "Some" else NONE))
    return out


@model("Option::unwrap", "Option::expect")
def opt_unwrap(e, st, args, site):
    out = []
    for s, k, p in opt_split(e, st, args[0]):
        if k == "Some":
            out.append((s, p))
        else:
            e.event("panic", "unwrap-none", [e.deep(st, args[0])], s, site)
    return out


@model("Result::unwrap", "Result::expect")
def res_unwrap(e, st, args, site):
    out = []
    for s, k, p in res_split(e, st, args[0]):
        if k == "Ok":
            out.append((s, p))
        else:
            e.event("panic", "unwrap-err", [e.deep(st, args[0])], s, site)
    return out


@model("panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "rt::begin_panic",
       "panicking::unreachable_display", "panicking::assert_failed")
def panic_(e, st, args, site):
    e.event("panic", "panic", [e.deep(st, a) for a in args], st, site)
    return []


@model("Result::map")
def res_map(e, st, args, site):
    out = []
    for s, k, p in res_split(e, st, args[0]):
        if k == "Ok":
            out.extend((s2, ok(r)) for s2, r in e.call_value(s, args[1], [p], site))
        else:
            out.append((s, err(p)))
    return out


@model("Result::map_err")
def res_map_err(e, st, args, site):
    out = []
    for s, k, p in res_split(e, st, args[0]):
        if k == "Err":
            out.extend((s2, err(r)) for s2, r in e.call_value(s, args[1], [p], site))
        else:
            out.append((s, ok(p)))
    return out


@model("Result::and_then")
def res_and_then(e, st, args, site):
    out = []
    for s, k, p in res_split(e, st, args[0]):
        out.extend(e.call_value(s, args[1], [p], site) if k == "Ok" else [(s, err(p))])
    return out


@model("Result::or_else")
def res_or_else(e, st, args, site):
    out = []
    for s, k, p in res_split(e, st, args[0]):
        out.extend(e.call_value(s, args[1], [p], site) if k == "Err" else [(s, ok(p))])
    return out


@model("Result::ok")
def res_ok(e, st, args, site):
    return [(s, some(p) if k == "Ok" else NONE) for s, k, p in res_split(e, st, args[0])]


@model("Result::err")
def res_err(e, st, args, site):
    return [(s, some(p) if k == "Err" else NONE) for s, k, p in res_split(e, st, args[0])]


@model("Result::is_ok")
def res_is_ok(e, st, args, site):
    return [(s, B(k == "Ok")) for s, k, p in res_split(e, st, args[0])]


@model("Result::is_err")
def res_is_err(e, st, args, site):
    return [(s, B(k == "Err")) for s, k, p in res_split(e, st, args[0])]


@model("Result::unwrap_or_else")
def res_uoe(e, st, args, site):
    out = []
    for s, k, p in res_split(e, st, args[0]):
        out.extend([(s, p)] if k == "Ok" else e.call_value(s, args[1], [p], site))
    return out


@model("Result::unwrap_or")
def res_uo(e, st, args, site):
    return [(s, p if k == "Ok" else args[1]) for s, k, p in res_split(e, st, args[0])]


@model("Result::unwrap_or_default")
def res_uod(e, st, args, site):
    return [(s, p if k == "Ok" else app("default")) for s, k, p in res_split(e, st, args[0])]


@model("ResultExt::with_context")
def with_context(e, st, args, site):
    out = []
    for s, k, p in res_split(e, st, args[0]):
        if k == "Err":
            out.extend((s2, err(app("ctx", r, p))) for s2, r in e.call_value(s, args[1], [p], site))
        else:
            out.append((s, ok(p)))
    return out


@model("ResultExt::context")
def context(e, st, args, site):
    return [(s, err(app("ctx", args[1], p)) if k == "Err" else ok(p)) for s, k, p in res_split(e, st, args[0])]


@model("failure::err_msg")
def err_msg(e, st, args, site):
    return one(st, app("err_msg", e.deref(st, args[0])))


@model("Try::branch")
def try_branch(e, st, args, site):
    out = []
    if "Option" in (site.fn.get("r") or site.targ(0)):
        for s, k, p in opt_split(e, st, args[0]):
            out.append((s, enum(CF, "Continue", ("0",), (p,)) if k == "Some" else enum(CF, "Break", ("0",), (NONE,))))
        return out
    for s, k, p in res_split(e, st, args[0]):
        out.append((s, enum(CF, "Continue", ("0",), (p,)) if k == "Ok" else enum(CF, "Break", ("0",), (err(p),))))
    return out


@model("FromResidual::from_residual")
def from_residual(e, st, args, site):
    return one(st, args[0])


# ------------------------------------------------------------------ strings

def concat(a, b):
    parts = []
    for x in (a, b):
        if x.op == "app" and x.a[0] == "concat":
            parts.extend(x.a[1:])
        elif x.op == "c" and x.a[1] == "":
            continue
        else:
            parts.append(x)
    out = []
    for x in parts:
        if x.op == "c" and isinstance(x.a[1], int) and not isinstance(x.a[1], bool):
            x = S(chr(x.a[1]) if x.a[0] == "char" else str(x.a[1]))
        if out and x.op == "c" and out[-1].op == "c":
            out[-1] = S(out[-1].a[1] + x.a[1])
        else:
            out.append(x)
    if not out:
        return S("")
    return out[0] if len(out) == 1 else app("concat", *out)


def fmt_parts(template, args):
    """Decodes a format template into literal pieces and arguments."""
    by = list(template)
    out, i, n = [], 0, 0
    while i < len(by):
        b = by[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(S(bytes(by[i:i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            k = by[i] | by[i + 1] << 8
            i += 2
            out.append(S(bytes(by[i:i + k]).decode("utf8", "replace")))
            i += k
        else:
            opts = None
            if b != 0xC0:
                f = b & 0x3F
                raw = []
                if f & 1:
                    raw += by[i:i + 4]
                    i += 4
                if f & 2:
                    raw += by[i:i + 2]
                    i += 2
                if f & 4:
                    raw += by[i:i + 2]
                    i += 2
                if f & 8:
                    n = by[i] | by[i + 1] << 8
                    i += 2
                opts = tuple(raw)
            a = args[n] if n < len(args) else top("fmtarg")
            n += 1
            if opts:
                a = app("fmtopt", a, C("bytes", opts))
            out.append(a)
    return out


@model("Arguments::new", "Arguments::new_v1")
def arguments_new(e, st, args, site):
    t = args[0]
    a = args[1]
    items = list(a.a[1]) if a.op == "list" else [a]
    if t.op == "c" and t.a[0] == "bytes":
        r = S("")
        for p in fmt_parts(t.a[1], items):
            if p.op == "app" and p.a[0] == "disp":
                p = p.a[1]
            r = concat(r, p)
        return one(st, r)
    return one(st, app("fmt", t, *items))


@model("Arguments::from_str", "Arguments::new_const")
def arguments_from_str(e, st, args, site):
    return one(st, args[0])


@model("Argument::new_display")
def new_display(e, st, args, site):
    v = e.deref(st, args[0])
    t = site.targ(0)
    return one(st, app("disp", v))


@model("Argument::new_debug")
def new_debug(e, st, args, site):
    return one(st, app("dbg", e.deref(st, args[0])))


@model("fmt::format")
def fmt_format(e, st, args, site):
    return one(st, args[0])


@model("String::new", "str::default")
def string_new(e, st, args, site):
    return one(st, S(""))


@model("String::with_capacity")
def string_wc(e, st, args, site):
    return one(st, S(""))


@model("String::push_str", "String::push")
def push_str(e, st, args, site):
    p = args[0]
    v = e.deref(st, p)
    x = e.deref(st, args[1])
    if site.fn["d"].endswith("::push") and x.op == "c" and isinstance(x.a[1], int):
        x = S(chr(x.a[1]))
    return one(e.write(st, p.a[0], p.a[1], concat(v, x)), UNIT)


@model("Add::add@String")
def str_add(e, st, args, site):
    return one(st, concat(e.deref(st, args[0]), e.deref(st, args[1])))


def strfn(name):
    def f(e, st, args, site):
        return one(st, app(name, *[e.deref(st, a) for a in args]))
    return f


for nm in ("str::to_lowercase", "str::to_uppercase", "str::trim", "str::split", "str::chars", "str::char_indices",
           "string::normalize", "string::get_shape", "string::hash_str_to_i32", "str::split_whitespace",
           "string::substring_with_char_range", "string::suffix_from_char_index", "string::prefix_until_char_index",
           "string::substring_with_char_range", "string::convert_to_char_range", "string::convert_to_byte_range",
           "token::tokenize", "token::tokenize_light", "token::compute_all_ngrams", "char::to_lowercase",
           "Path::join", "Path::with_extension", "Path::parent", "Path::exists", "Path::to_str", "Path::file_name", "Path::file_stem",
           "Path::extension", "Path::is_dir", "Path::is_file", "Path::components", "Path::strip_prefix", "Path::starts_with",
           "BuiltinEntityKind::identifier", "BuiltinEntityKind::from_identifier", "FromStr::from_str", "str::parse",
           "f32::sqrt", "f32::exp", "f32::ln", "f32::powi", "char::is_digit", "char::is_numeric", "char::is_whitespace", "base64::decode", "base64::encode",
           "String::from_utf8", "Value::as_str", "Value::as_u64", "Value::as_array", "Value::as_bool", "Value::as_i64",
           "Match::start", "Match::end", "Match::as_str", "Token::normalized_value", "str::strip_prefix", "str::strip_suffix",
           "Duration::as_secs", "OsStr::to_str", "Component::as_os_str", "Path::display", "Path::to_string_lossy", "String::len", "str::len",
           "str::char_count", "string::char_count", "Regex::is_match", "Captures::get", "Fail::cause", "Fail::backtrace", "f32::abs", "str::find",
           "str::contains", "ascii::to_ascii_lowercase", "str::to_ascii_lowercase", "str::replace"):
    MODELS[nm] = strfn(norm(nm).split("::")[-1] if nm not in ("FromStr::from_str",) else "from_str")
for nm in ("BuiltinGazetteerEntityKind::from_identifier", "GrammarEntityKind::from_identifier"):
    MODELS[nm] = strfn(nm)


@model("serde_json::from_reader", "de::from_reader", "serde_json::from_slice", "de::from_slice", "serde_json::from_str",
       "de::from_str")
def json_from(e, st, args, site):
    n = len((site.fn or {}).get("a") or [])
    return one(st, app("from_reader", e.deref(st, args[0]), C("type", site.targ(n - 1))))


@model("PathBuf::push")
def path_push(e, st, args, site):
    p = args[0]
    v = e.deref(st, p)
    return one(e.write(st, p.a[0], p.a[1], app("join", v, e.deref(st, args[1]))), UNIT)


@model("PathBuf::set_extension")
def path_set_extension(e, st, args, site):
    p = args[0]
    v = e.deref(st, p)
    return one(e.write(st, p.a[0], p.a[1], app("with_extension", v, e.deref(st, args[1]))), TRUE)


@model("str::parse")
def str_parse(e, st, args, site):
    return one(st, app("from_str", e.deref(st, args[0]), C("type", site.targ(0))))


@model("FromStr::from_str")
def from_str(e, st, args, site):
    return one(st, app("from_str", e.deref(st, args[0]), C("type", site.targ(0))))


@model("str::starts_with", "str::ends_with")
def starts_with(e, st, args, site):
    nm = norm(site.fn["d"]).split("::")[-1]
    a, b = e.deref(st, args[0]), e.deref(st, args[1])
    if a.op == "c" and b.op == "c" and isinstance(b.a[1], str):
        return one(st, B(a.a[1].startswith(b.a[1]) if nm == "starts_with" else a.a[1].endswith(b.a[1])))
    return one(st, app(nm, a, b))


@model("range::ranges_overlap")
def ranges_overlap(e, st, args, site):
    a, b = e.deref(st, args[0]), e.deref(st, args[1])
    lt1 = ge0(add(sub(fld(b, "end"), fld(a, "start")), I(-1)))
    lt2 = ge0(add(sub(fld(a, "end"), fld(b, "start")), I(-1)))
    return one(st, app("and", lt1, lt2) if lt1.id < lt2.id else app("and", lt2, lt1))


# ------------------------------------------------------------------ collections: creation / access

@model("Vec::new", "Vec::with_capacity", "VecDeque::new")
def vec_new(e, st, args, site):
    return one(st, seq("vec", []))


@model("HashSet::new", "BTreeSet::new", "HashSet::with_capacity")
def set_new(e, st, args, site):
    return one(st, coll("set", ()))


@model("HashMap::new", "HashMap::with_capacity", "BTreeMap::new", "HashMap::default")
def map_new(e, st, args, site):
    return one(st, coll("map", ()))


@model("Default::default")
def default(e, st, args, site):
    t = site.targ(0)
    if t.startswith("std::vec::Vec<"):
        return one(st, seq("vec", []))
    if "HashMap<" in t[:32] or "BTreeMap<" in t[:34]:
        return one(st, coll("map", ()))
    if "HashSet<" in t[:32]:
        return one(st, coll("set", ()))
    if t.startswith("std::option::Option<"):
        return one(st, NONE)
    if t == "std::string::String":
        return one(st, S(""))
    if t == "bool":
        return one(st, FALSE)
    if t in ("usize", "i32", "u32", "u64", "i64"):
        return one(st, I(0))
    return one(st, app("default"))


@model("slice::iter", "impl_methods::iter", "HashSet::iter", "BTreeSet::iter", "Vec::iter", "HashMap::into_keys", "Vec::drain", "VecDeque::iter", "HashSet::drain")
def iter_(e, st, args, site):
    return one(st, to_iter(e, st, e.deref(st, args[0]), site, kind_hint(site)))


def kind_hint(site):
    d = (site.fn.get("r") or "") + site.fn["d"]
    if "HashMap<" in d or "HashMap::" in d or "BTreeMap" in d:
        return "map"
    if "HashSet<" in d or "HashSet::" in d or "BTreeSet" in d:
        return "set"
    t = site.targ(0).lstrip("&").replace("mut ", "")
    if t.startswith(("std::collections::HashMap<", "std::collections::BTreeMap<")):
        return "map"
    if t.startswith(("std::collections::HashSet<", "std::collections::BTreeSet<")):
        return "set"
    return ""


def to_iter(e, st, v, site, kind=""):
    """Iterator value over a collection: keeps generators, marks the order."""
    if v.op == "coll":
        o = v.a[2]
        if v.a[0] in ("map", "set"):
            o = app("o_hash", o if o is not None else app("o_none"))
        return coll("iter", v.a[1], o)
    if v.op == "list":
        return mk("list", "iter", v.a[1])
    if v.op == "en" and v.a[0] == OPT:
        return mk("list", "iter", v.a[3])
    if v.op == "app" and v.a[0] == "range":
        return v
    if v.op == "app" and v.a[0] in ("iter",):
        return v
    if kind == "map":
        return app("iter", v, C("k", "map"))
    if kind == "set":
        return app("iter", v, C("k", "set"))
    return v


@model("IntoIterator::into_iter")
def into_iter(e, st, args, site):
    v = e.deref(st, args[0])
    return one(st, to_iter(e, st, v, site, kind_hint(site)))


@model("HashMap::iter", "BTreeMap::iter")
def map_iter(e, st, args, site):
    return one(st, to_iter(e, st, e.deref(st, args[0]), site, "map"))


@model("HashMap::drain")
def map_drain(e, st, args, site):
    p = real_ptr(e, st, args[0])
    it = to_iter(e, st, e.deref(st, args[0]), site, "map")
    return one(e.write(st, p.a[0], p.a[1], coll("map", ())), it)


@model("HashMap::keys", "BTreeMap::keys", "HashMap::into_keys")
def map_keys(e, st, args, site):
    v = e.deref(st, args[0])
    return one(st, app("iter", keys_of(v), C("k", "set")) if v.op != "coll" else to_iter(e, st, keys_of(v), site))


@model("HashMap::values", "BTreeMap::values", "HashMap::into_values")
def map_values(e, st, args, site):
    v = e.deref(st, args[0])
    st, gs = gens(e, st, to_iter(e, st, v, site, "map"), site)
    return one(st, coll("iter", tuple((fld(x, "1"), f, b) for x, f, b in gs), app("o_hash", app("o_none"))))


def gens(e, st, v, site, sub=""):
    """Generators of an iterator value."""
    v = e.deref(st, v)
    if v.op == "coll":
        return st, rename_apart(e, st, v.a[1], site, sub)
    if v.op == "list":
        return st, tuple((x, frozenset(), frozenset()) for x in v.a[1])
    tag = e.newtag(site.tag("g" + sub))
    if v.op == "app" and v.a[0] == "range":
        i = elem(v, tag)
        return st, ((i, frozenset([(ge0(sub_(i, v.a[1])), True), (ge0(add(sub_(v.a[2], i), I(-1))), True)]), frozenset([tag])),)
    if v.op == "app" and v.a[0] == "iter":
        src, kind = v.a[1], v.a[2].a[1]
        if kind == "map":
            k = elem(app("keys", src), tag)
            return st, ((tup(k, app("get!", src, k)), frozenset([(app("contains", app("keys", src), k), True)]), frozenset([tag])),)
        x = elem(src, tag)
        return st, ((x, frozenset([(app("contains", src, x), True)]), frozenset([tag])),)
    if v.op == "en" and v.a[0] == OPT:
        return st, tuple((x, frozenset(), frozenset()) for x in v.a[3])
    if v.op in ("u", "phi") and e.candidates(v):
        gs = ()
        if v in e.gens_active:
            return st, ()
        e.gens_active.add(v)
        try:
            for x, f in e.candidates(v):
                if x is v:
                    continue
                st, g = gens(e, st, x, site, sub)
                gs = gs + tuple(g)
        finally:
            e.gens_active.discard(v)
        return st, absorb(gs)
    x = elem(v, tag)
    return st, ((x, frozenset([(app("contains", v, x), True)]), frozenset([tag])),)


def rename_apart(e, st, gs, site, sub=""):
    """Generators whose generic tags are not those of instances the state already speaks about."""
    bound = frozenset().union(*[b for v, fs, b in gs]) if gs else frozenset()
    if not bound:
        return gs
    used = frozenset()
    for t, p in st.facts:
        used = used | t.tags
    if not (bound & used):
        return gs
    out = []
    for v, fs, b in gs:
        m = {t: e.fresh_tag(t, site.tag("ra" + sub)) for t in b & used}
        f = lambda t, m=m: m.get(t, t)
        out.append((retag(v, f), retag(fs, f), frozenset(f(t) for t in b)))
    return tuple(out)


def sub_(a, b):
    return sub(a, b)


def order_of(v):
    if v.op == "coll":
        return v.a[2]
    if v.op == "list":
        return app("o_list", *v.a[1]) if len(v.a[1]) <= 6 else app("o_list")
    if v.op == "app" and v.a[0] == "iter":
        return app("o_hash", v.a[1])
    if v.op == "app" and v.a[0] == "range":
        return app("o_src", v)
    return app("o_src", v)


def gen_apply(e, st, g, clo, site, sub):
    """Applies a closure to the generic element of a generator.

    -> (state after effects, [(result, facts beyond st, bound)])"""
    v, facts, bound = g
    s0 = st
    extra = set()
    for (t, p) in sorted(facts, key=lambda x: x[0].id):
        s0 = e.assume(s0, t, p)
        if s0 is None:
            return st, []
    before = frozenset(e.tag_loops)
    cur, rs = e.apply_generic(s0, clo, [v] if not isinstance(v, tuple) else list(v), site.with_sub("c" + sub))
    lid = (site.fid, site.bb, site.sub + "c" + sub, "clo")
    out = []
    for s, r in rs:
        fs = frozenset(x for x in s.facts if x not in st.facts)
        nb = set(bound)
        for t in list(r.tags) + [t for (f, p) in fs for t in f.tags]:
            if lid in e.tag_loops.get(t, ()):
                nb.add(t)
        out.append((r, fs, frozenset(nb)))
    st2 = State(cur.mem, st.facts, cur.hist)
    return st2, out


@model("Iterator::map")
def it_map(e, st, args, site):
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    out = []
    for i, g in enumerate(gs):
        st, rs = gen_apply(e, st, g, args[1], site, str(i))
        out.extend(rs)
    return one(st, coll("iter", out, order_of(it)))


@model("impl_methods::mapv", "impl_methods::map", "impl_methods::mapv_into")
def nd_mapv(e, st, args, site):
    """Element-wise image of an array."""
    a = e.deref(st, args[0])
    st, gs = gens(e, st, a, site)
    out = []
    for i, g in enumerate(gs):
        st, rs = gen_apply(e, st, g, args[1], site, str(i))
        out.extend(rs)
    return one(st, coll("vec", out, order_of(a)))


@model("impl_constructors::from_shape_fn", "ArrayBase::from_shape_fn")
def nd_from_shape_fn(e, st, args, site):
    """The array whose element at (#0, #1, ..) is the result of the closure."""
    shape = e.deref(st, args[0])
    n = len(shape.a[2]) if shape.op == "st" and shape.a[0] == "()" else 1
    idx = [sym("#%d" % i) for i in range(n)]
    cur, rs = e.apply_generic(st, args[1], [tup(*idx)] if n > 1 else idx, site.with_sub("c"))
    vs = [r for s, r in rs]
    if not vs:
        return None
    v = vs[0] if len(vs) == 1 else union(vs)
    return one(State(cur.mem, st.facts, cur.hist), app("tabulate", shape, v))


@model("impl_methods::mapv_inplace")
def nd_mapv_inplace(e, st, args, site):
    q = args[0]
    if q.op != "ptr":
        return None
    while e.read(st, q.a[0], q.a[1]).op == "ptr":
        q = e.read(st, q.a[0], q.a[1])
    (st, v), = nd_mapv(e, st, args, site)
    return one(e.write(st, q.a[0], q.a[1], v), UNIT)


@model("Iterator::for_each")
def it_for_each(e, st, args, site):
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    for i, (v, fs, b) in enumerate(gs):
        m = {t: e.fresh_tag(t, site.tag("fe%d" % i)) for t in b}
        f = lambda t, m=m: m.get(t, t)
        for t in m.values():
            e.orders.setdefault(t, order_of(it))
        st, rs = gen_apply(e, st, (retag(v, f), retag(fs, f), frozenset(m.values())), args[1], site, str(i))
    return one(st, UNIT)


@model("Iterator::try_for_each")
def it_try_for_each(e, st, args, site):
    t = next((site.targ(i) for i in range(3) if site.targ(i).startswith(("std::result::Result<(),", "std::option::Option<()>"))), None)
    if t is None:
        return None
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    out = []
    for i, g in enumerate(gs):
        st, rs = gen_apply(e, st, g, args[1], site, str(i))
        out.extend(rs)
    c = coll("iter", out, order_of(it))
    return [(s, enum(v.a[0], v.a[1], ("0",), (UNIT,)) if v.op == "en" and v.a[1] in ("Ok", "Some") else v)
            for s, v in collect_to(e, st, c, t.replace("<()", "<std::vec::Vec<()>", 1), site)]


@model("Iterator::inspect")
def it_inspect(e, st, args, site):
    return one(st, args[0])


def split_bool(e, st, rs, pos=True):
    """Generators of (bool result, facts, bound) kept where the result is `pos`."""
    out = []
    for r, fs, b in rs:
        s = State(st.mem, st.facts | fs, st.hist)
        s2 = e.assume(s, r, pos)
        if s2 is None:
            continue
        out.append((frozenset(x for x in s2.facts if x not in st.facts), b))
    return out


def sifted(o, gs, out):
    """The order of what is left of a first few elements: it says by what the others were left out."""
    if o is None or o.op != "app" or o.a[0] not in ("o_take", "o_filt"):
        return o
    had = {f for g in gs for f in g[1]}
    new = sorted({t for _, fs, _ in out for t, p in fs if (t, p) not in had}, key=lambda x: x.id)
    return app("o_filt", o, *new)


@model("Iterator::filter", "Iterator::take_while", "Iterator::skip_while")
def it_filter(e, st, args, site):
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    out = []
    for i, g in enumerate(gs):
        st, rs = gen_apply(e, st, g, args[1], site, str(i))
        pos = True
        if "skip_while" in site.fn["d"]:
            out.append(g)
            continue
        for fs, b in split_bool(e, st, rs, pos):
            out.append((g[0], fs, b))
    o = sifted(order_of(it), gs, out)
    nm = norm(site.fn["d"]).split("::")[-1]
    if nm != "filter":
        o = app("o_" + nm, o)
    return one(st, coll("iter", out, o))


def split_opt(e, st, r, fs, b, res=False):
    """[( 'Some'/'None', payload, facts, bound)] of an Option-valued generator."""
    s = State(st.mem, st.facts | fs, st.hist)
    out = []
    for s2, k, p in (res_split if res else opt_split)(e, s, r):
        f2 = frozenset(x for x in s2.facts if x not in st.facts)
        out.append((k, p, f2, b))
    return out


@model("Iterator::filter_map", "Iterator::map_while")
def it_filter_map(e, st, args, site):
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    out = []
    for i, g in enumerate(gs):
        st, rs = gen_apply(e, st, g, args[1], site, str(i))
        for r, fs, b in rs:
            for k, p, f2, b2 in split_opt(e, st, r, fs, b):
                if k == "Some":
                    out.append((p, f2, b2))
    o = sifted(order_of(it), gs, out)
    if "map_while" in site.fn["d"]:
        o = app("o_map_while", o)
    return one(st, coll("iter", out, o))


def flat_order(o, inner):
    """The order of flattened collections; those of which a part is left out are kept in it."""
    return app("o_flat", o, *sorted({x for x in inner if cut_of(x) is not None}, key=lambda x: show(x, 9)))


def flatten_gens(e, st, gs, site, ity="", inner=None):
    out = []
    for i, (v, fs, b) in enumerate(gs):
        s = State(st.mem, st.facts | fs, st.hist)
        alts = [(v, fs)]
        if v.op in ("u", "phi") and e.candidates(v):
            alts = [(x, fs | f) for x, f in e.candidates(v)]
        for v, fs in alts:
            isopt = v.op == "en" and v.a[0] == OPT
            isres = v.op == "en" and v.a[0] == RES
            if isopt or isres:
                if v.a[1] in ("Some", "Ok"):
                    out.append((vfld(v, v.a[1], "0"), fs, b))
                continue
            if v.op not in ("coll", "list") and ity.startswith((OPT + "<", RES + "<")):
                for k, p, f2, b2 in split_opt(e, st, v, fs, b, ity.startswith(RES)):
                    if k in ("Some", "Ok"):
                        out.append((p, f2, b2))
                continue
            if v.op == "coll" and inner is not None:
                inner.add(v.a[2])
            lid = (site.fid, site.bb, site.sub, "fl")
            e.loopstack.append(lid)
            st2, gg = gens(e, s, v, site, "f%d" % i)
            e.loopstack.pop()
            for v2, f2, b2 in gg:
                out.append((v2, f2 | fs, b2 | b))
    return st, out


@model("Iterator::flatten")
def it_flatten(e, st, args, site):
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    ity = site.item_type()
    out, inner = [], set()
    for i, (v, fs, b) in enumerate(gs):
        st, o = flatten_gens(e, st, [(v, fs, b)], site.with_sub("x%d" % i), ity, inner)
        out.extend(o)
    return one(st, coll("iter", out, flat_order(order_of(it), inner)))


@model("Iterator::flat_map")
def it_flat_map(e, st, args, site):
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    out, inner = [], set()
    for i, g in enumerate(gs):
        st, rs = gen_apply(e, st, g, args[1], site, str(i))
        for j, r in enumerate(rs):
            st, o = flatten_gens(e, st, [r], site.with_sub("y%d_%d" % (i, j)), site.targ(1), inner)
            out.extend(o)
    return one(st, coll("iter", out, flat_order(order_of(it), inner)))


@model("Iterator::cloned", "Iterator::copied", "Iterator::fuse", "Iterator::peekable")
def it_same(e, st, args, site):
    return one(st, e.deref(st, args[0]))


@model("Iterator::take", "Iterator::skip", "Iterator::step_by")
def it_take(e, st, args, site):
    it = e.deref(st, args[0])
    nm = norm(site.fn["d"]).split("::")[-1]
    n = args[1]
    if it.op == "list" and n.op == "c":
        k = n.a[1]
        return one(st, mk("list", "iter", it.a[1][:k] if nm == "take" else it.a[1][k:]))
    if nm == "take" and it.op == "app" and it.a[0].split("::")[-1] == "repeat" and len(it.a) == 2:
        return one(st, copies(e, st, "iter", it.a[1], n, site))
    st, gs = gens(e, st, it, site)
    return one(st, coll("iter", gs, app("o_" + nm, order_of(it), n)))


def copies(e, st, kind, x, n, site):
    """n times the same value: one for every number below n."""
    r = app("range", I(0), n)
    s, gs = gens(e, st, r, site)
    return coll(kind, [(x, c, b) for y, c, b in gs], app("o_src", r))


@model("Iterator::rev")
def it_rev(e, st, args, site):
    it = e.deref(st, args[0])
    if it.op == "list":
        return one(st, mk("list", "iter", it.a[1][::-1]))
    st, gs = gens(e, st, it, site)
    return one(st, coll("iter", gs, app("o_rev", order_of(it))))


@model("Iterator::chain")
def it_chain(e, st, args, site):
    a, b = e.deref(st, args[0]), e.deref(st, args[1])
    st, ga = gens(e, st, a, site, "a")
    st, gb = gens(e, st, to_iter(e, st, b, site), site, "b")
    return one(st, coll("iter", ga + gb, app("o_chain", order_of(a), order_of(b))))


@model("Iterator::enumerate")
def it_enumerate(e, st, args, site):
    it = e.deref(st, args[0])
    if it.op == "list":
        return one(st, mk("list", "iter", tuple(tup(I(i), x) for i, x in enumerate(it.a[1]))))
    st, gs = gens(e, st, it, site)
    out = []
    for v, fs, b in gs:
        base = v
        pos = app("pos", it, base)
        out.append((tup(pos, v), fs | {(ge0(add(sub(length(src_of(it)), pos), I(-1))), True)}, b))
    return one(st, coll("iter", out, order_of(it)))


def src_of(it):
    if it.op == "app" and it.a[0] == "iter":
        return it.a[1]
    return it


@model("Iterator::zip")
def it_zip(e, st, args, site):
    a, b = e.deref(st, args[0]), to_iter(e, st, e.deref(st, args[1]), site)
    if a.op == "list" and b.op == "list":
        return one(st, mk("list", "iter", tuple(tup(x, y) for x, y in zip(a.a[1], b.a[1]))))
    st, ga = gens(e, st, a, site, "a")
    st, gb = gens(e, st, b, site, "b")
    out = []
    for v, fs, bd in ga:
        for w, fs2, bd2 in gb:
            out.append((tup(v, w), fs | fs2, bd | bd2))
    # what was picked out of a source before no longer stands at its place there
    picked = tuple(S(n) for n, g in (("left", ga), ("right", gb)) if 0 < len(g) <= 6 and not exhaustive([own_conds(fs) for _, fs, _ in g]))
    return one(st, coll("iter", out, app("o_zip", order_of(a), order_of(b), *picked)))


def own_conds(fs):
    """Conditions on an element other than that it stands in its collection"""
    return frozenset((t, p) for t, p in fs if not (p and t.op == "app" and t.a[0] == "contains" and t.a[2].op == "elem" and t.a[2].a[0] is t.a[1]))


def exhaustive(sets):
    """Does one of the sets of conditions hold, whatever is the case?"""
    if not sets or any(not fs for fs in sets):
        return bool(sets)
    for t, _ in min(sets, key=len):
        if all(exhaustive([fs - {(t, p)} for fs in sets if (t, not p) not in fs]) for p in (True, False)):
            return True
    return False


# ------------------------------------------------------------------ iterators: consumers

def target_kind(t):
    t = t.strip()
    for n, k in (("std::collections::HashSet<", "set"), ("std::collections::BTreeSet<", "bset"), ("std::collections::HashMap<", "map"),
                 ("std::collections::BTreeMap<", "bmap"), ("std::vec::Vec<", "vec"), ("std::string::String", "string")):
        if t.startswith(n):
            return k
    return "vec"


@model("Iterator::collect", "FromIterator::from_iter", "Itertools::collect_vec", "impl_constructors::from_iter", "Iterator::unzip", "ArrayBase::from_iter", "impl_constructors::from_vec", "ndarray::arr1", "Iterator::sum@f")
def it_collect(e, st, args, site):
    d = site.fn["d"]
    it = e.deref(st, args[0])
    if "from_iter" in d:
        it = to_iter(e, st, it, site)
        t = site.targ(0)
    elif "collect_vec" in d:
        t = "std::vec::Vec<"
    else:
        t = site.targ(1)
    if "from_vec" in d or "arr1" in d or "impl_constructors" in d:
        t = "std::vec::Vec<"
    return collect_to(e, st, it, t, site)


def collect_to(e, st, it, t, site):
    for pre, isres in (("std::result::Result<", True), ("std::option::Option<", False)):
        if t.startswith(pre):
            inner = t[len(pre):]
            st, gs = gens(e, st, it, site)
            okv, errs = ("Ok", "Err") if isres else ("Some", "None")
            goods, bads = [], []
            for v, fs, b in gs:
                s = State(st.mem, st.facts | fs, st.hist)
                for s2, k, p in (res_split(e, s, v) if isres else opt_split(e, s, v)):
                    f2 = frozenset(x for x in s2.facts if x not in st.facts)
                    (goods if k == okv else bads).append((p, f2, b))
            outs = [(st, enum(RES if isres else OPT, okv, ("0",), (mk_coll(target_kind(inner), goods, it),)))]
            stops = {(t, not q) for p, fs, b in bads for t, q in fs}
            e.survived |= {x for p, fs, b in goods for x in fs if x in stops}
            seen = set()
            for p, fs, b in bads:
                s, v2 = e.freshen(st, (p, fs, b), site.tag("e"))
                if s is None:
                    continue
                if (v2, s.facts) in seen:
                    continue
                seen.add((v2, s.facts))
                outs.append((s, err(v2) if isres else NONE))
            return outs
    k = target_kind(t)
    if it.op == "list" and k == "vec":
        return one(st, mk("list", "vec", it.a[1]))
    if k == "vec" and it.op == "app" and it.a[0] not in ("iter", "range"):
        return one(st, it)          # collecting the items of a symbolic sequence
    if k == "set" and it.op == "app" and it.a[0] == "iter" and it.a[2].a[1] == "set":
        return one(st, it.a[1])
    if k == "map" and it.op == "app" and it.a[0] == "iter" and it.a[2].a[1] == "map":
        return one(st, it.a[1])
    if k == "string":
        if it.op == "coll" or it.op == "app":
            return one(st, app("string_of", it))
    st, gs = gens(e, st, it, site)
    return one(st, mk_coll(k, gs, it))


def mk_coll(k, gs, it):
    if k in ("bset", "bmap"):
        return coll("vec" if k == "bset" else "map", gs, app("o_sorted_key", order_of(it)))
    if k != "vec":
        # no order, but what left elements out is still known
        return coll(k, gs, app("o_hash", order_of(it)) if cut_of(order_of(it)) is not None else app("o_none"))
    return coll(k, gs, order_of(it))


@model("Iterator::next", "DoubleEndedIterator::next_back")
def it_next(e, st, args, site):
    p = args[0]
    it = e.deref(st, p)
    if it.op in ("u", "phi") and e.candidates(it):
        out = []
        for s, x in e.case_split(st, it):
            out.extend(it_next(e, s, args, site) if x is not it else [])
        return out
    outs = []
    if it.op == "list":
        if not it.a[1]:
            return one(ended(e, st, it, site), NONE)
        if not in_loop(e, site):
            x = it.a[1][0]
            q = p
            while e.read(st, q.a[0], q.a[1]).op == "ptr":
                q = e.read(st, q.a[0], q.a[1])
            return one(e.write(st, q.a[0], q.a[1], mk("list", "iter", it.a[1][1:])), some(x))
    st, gs = gens(e, st, it, site, "n")
    if not in_loop(e, site):
        # a single step of an iterator: the rest stays generic
        pass
    for g in gs:
        tag = site.tag("n")
        e.newtag(tag)
        s, v = e.freshen(st, g, tag)
        if s is not None:
            cut = cut_of(order_of(it))
            if cut is not None and in_loop(e, site):
                s = e.add(s, app("kept", cut, v), True)
            e.filtered |= {(t, p) for t, p in s.facts - st.facts if not trivial_range(t)}
            s = mark_iter(e, s, it, v)
            outs.append((s, some(v)))
    outs.append((ended(e, exhaust(e, st, it, gs, site.tag("n")), it, site, True), NONE))
    return outs


def ended(e, s, it, site, source=False):
    """The state in which the iterator of a loop has nothing more to give."""
    if not in_loop(e, site):
        return s
    lid = (site.fid, innermost(site))
    if source:
        e.sources[lid] = it
    return State(s.mem, s.facts, s.hist | {E.loop_mark("ended", lid)})


def innermost(site):
    return min((len(r), h) for h, r in E.cfg(site.body).loops.items() if site.bb in r)[1]


def trivial_range(t):
    return t.op == "app" and t.a[0] == "contains" and t.a[2].op == "elem" and t.a[2].a[0] is t.a[1]


def exhaust(e, s, it, gs, tag):
    """The state where the iterator has nothing (more) to give."""
    for g in ([] if partial(it) else gs):
        v, fs, b = g
        if it.op == "coll" and len(it.a[1]) == 1 or it.op not in ("coll", "list"):
            m = {x: e.fresh_tag(x, tag) for x in b}
            vv = retag(v, lambda t: m.get(t, t))
            tg = [t for t in vv.tags if t in m.values()]
            for t in tg:
                el = elem_with_tag(vv, t)
                if el is not None:
                    s = e.add(s, app("exhausted", src_of(it), el), True)
    return s


def elem_with_tag(v, t):
    for x in subterms(v):
        if x.op == "elem" and x.a[1] == t:
            return x
    return None


def mark_iter(e, s, it, v):
    o = order_of(it)
    for t in v.tags - it.tags:
        e.orders.setdefault(t, o)
    return s


def in_loop(e, site):
    """Is this a step of an iterator inside a loop that is not run element by element?"""
    c = E.cfg(site.body)
    inner = [(len(r), h) for h, r in c.loops.items() if site.bb in r]
    if not inner:
        return False
    return (site.body["id"], min(inner)[1]) not in e.unrolling


PARTIAL = ("o_take", "o_at", "o_unique_by", "o_dedup", "o_dedup_by_key", "o_skip", "o_step_by", "o_take_while", "o_skip_while", "o_map_while")


def cut_of(o):
    """The first step of an order that leaves elements out."""
    while o is not None and o.op == "app" and o.a[0].startswith("o_"):
        if o.a[0] in PARTIAL:
            return o
        if len(o.a) < 2:
            return None
        if o.a[0] == "o_flat":
            for x in o.a[2:]:
                if cut_of(x) is not None:
                    return cut_of(x)
        o = o.a[1]
        if o.op == "coll":
            o = o.a[2]
    return None


def partial(it):
    """May the iterator leave out elements of its source?"""
    return it.op == "coll" and it.a[2] is not None and any(
        x.op == "app" and x.a[0] in PARTIAL for x in subterms(it.a[2]))


def conj(t, p):
    """A fact as a conjunct."""
    if p:
        return t
    if t.op == "ge0":
        return ge0(sub(C("int", -1), t.a[0]))
    return None


@model("Iterator::find", "Iterator::find_map", "Iterator::position", "Iterator::any", "Iterator::all", "Itertools::find_position", "Iterator::rfind", "Iterator::rposition")
def it_search(e, st, args, site):
    nm = norm(site.fn["d"]).split("::")[-1]
    it = e.deref(st, args[0])
    if it.op in ("u", "phi") and e.candidates(it):
        out = []
        for s, x in e.case_split(st, it):
            out.extend(it_search(e, s, [x, args[1]], site) if x is not it else [])
        return out
    st, gs = gens(e, st, it, site)
    hits = []
    miss_facts = []
    precise = True
    for i, g in enumerate(gs):
        st, rs = gen_apply(e, st, g, args[1], site, str(i))
        ok_i = []
        n0 = len(hits)
        for r, fs, b in rs:
            if nm == "find_map":
                for k, p, f2, b2 in split_opt(e, st, r, fs, b):
                    if k == "Some":
                        hits.append((p, f2, b2))
                    else:
                        ok_i.append((f2, b2))
            else:
                want = nm != "all"
                for fs2, b2 in split_bool(e, st, [(r, fs, b)], want):
                    hits.append((g[0], fs2, b2))
                for fs2, b2 in split_bool(e, st, [(r, fs, b)], not want):
                    ok_i.append((fs2, b2))
        miss_facts.append((g, ok_i, [(f, b) for _, f, b in hits[n0:]]))
        e.searches.append((g[0], frozenset(g[1]), [frozenset(f) for f, _ in ok_i], [frozenset(f) for _, f, _ in hits[n0:]]))
    outs = []
    seen = set()
    for h in hits:
        s, v = e.freshen(st, h, site.tag("h"))
        o = order_of(it)
        for t in h[2]:
            if o is not None:
                e.orders.setdefault(e.fresh_tag(t, site.tag("h")), app("o_rev", o) if nm in ("rfind", "rposition") else o)
        if s is None:
            continue
        if nm in ("find", "rfind", "find_map"):
            r = some(v)
        elif nm in ("position", "rposition"):
            r = some(app("pos", it, v))
        elif nm == "find_position":
            r = some(tup(app("pos", it, v), v))
        else:
            r = B(nm == "any")
        if (s.facts, r) not in seen:
            seen.add((s.facts, r))
            outs.append((s, r))
    s = st
    for g, okf, hit in ([] if partial(it) else miss_facts):
        v, fs, b = g
        if not okf:
            continue
        common = frozenset.intersection(*[f for f, _ in okf])
        base = frozenset(fs)
        for (t, p) in common - base:
            if t.tags & b and t.op != "forall":
                for tg in sorted(t.tags & b):
                    ft = "A" + tg
                    m = {x: "A" + x for x in b}
                    e.tag_loops.setdefault(ft, frozenset(e.loopstack))
                    rn = lambda x, m=m: m.get(x, x)
                    s = e.add(s, mk("forall", ft, retag(t, rn), p, retag(base, rn)), True)
                    break
        # no element is a hit: the conditions of a hit do not hold together
        for f, _ in hit[:4]:
            own = [conj(t, p) for (t, p) in f - base if t.tags & b and t.op != "forall"]
            if len(own) < 2 or len(own) > 4 or any(t is None for t in own) or any((t, False) in common for t in own):
                continue
            tg = sorted(b)[0]
            m = {x: "A" + x for x in b}
            e.tag_loops.setdefault("A" + tg, frozenset(e.loopstack))
            body = retag(app("and", *sorted(own, key=lambda t: t.id)), lambda x, m=m: m.get(x, x))
            s = e.add(s, mk("forall", "A" + tg, body, False, retag(base, lambda x, m=m: m.get(x, x))), True)
    outs.append((s, NONE if nm not in ("any", "all") else B(nm == "all")))
    return outs


@model("Iterator::count", "Vec::len", "slice::len", "HashMap::len", "HashSet::len", "Captures::len", "VecDeque::len", "ExactSizeIterator::len", "ArrayBase::len", "BTreeMap::len")
def it_len(e, st, args, site):
    v = e.deref(st, args[0])
    v = src_of(v)
    if v.op == "app" and v.a[0] == "range":
        return one(st, sub(v.a[2], v.a[1])) if decide(st.facts, ge0(sub(v.a[2], v.a[1]))) else one(st, app("count", v))
    if v.op == "app" and v.a[0] == "chars":
        return one(st, app("charlen", v.a[1]))
    return one(st, length(v))


@model("Vec::is_empty", "slice::is_empty", "HashMap::is_empty", "HashSet::is_empty", "String::is_empty", "str::is_empty", "VecDeque::is_empty")
def is_empty(e, st, args, site):
    v = e.deref(st, args[0])
    if v.op == "c" and v.a[0] == "str":
        return one(st, B(v.a[1] == ""))
    return one(st, eq(length(v), I(0)))


@model("HashSet::contains", "slice::contains", "Vec::contains", "BTreeSet::contains", "VecDeque::contains")
def contains(e, st, args, site):
    return one(st, contains_term(e.deref(st, args[0]), e.deref(st, args[1])))


def contains_term(c, v):
    gs = gens_of(c)
    if gs is not None and not gs:
        return FALSE
    if c.op == "list" and len(c.a[1]) <= 8:
        ts = []
        for x in c.a[1]:
            q = eq(x, v)
            if q is TRUE:
                return TRUE
            if q is not FALSE:
                ts.append(q)
        if not ts:
            return FALSE
        if len(ts) == 1:
            return ts[0]
        return app("or", *sorted(ts, key=lambda t: t.id))
    return app("contains", c, v)


@model("HashMap::contains_key", "BTreeMap::contains_key")
def contains_key(e, st, args, site):
    return one(st, app("contains", keys_of(e.deref(st, args[0])), e.deref(st, args[1])))


@model("HashMap::get", "BTreeMap::get", "Map::get")
def map_get(e, st, args, site):
    m, k = e.deref(st, args[0]), e.deref(st, args[1])
    ck = app("contains", keys_of(m), k)
    outs = []
    s = e.assume(st, ck, True)
    if s is not None:
        outs.append((s, some(map_value(m, k))))
    s = e.assume(st, ck, False)
    if s is not None:
        outs.append((s, NONE))
    return outs


@model("Index::index")
def index(e, st, args, site):
    c, i = e.deref(st, args[0]), e.deref(st, args[1])
    h = kind_hint(site)
    if h == "map":
        ck = app("contains", keys_of(c), i)
        if decide(st.facts, ck) is not True:
            e.event("panic", "map-index", [c, i], st, site)
        s = e.assume(st, ck, True)
        e.survive(st, s)
        return one(s, map_value(c, i)) if s is not None else []
    if "RangeFull" in site.targ(1):
        return one(st, c)
    if i.op == "app" and i.a[0] == "range" or "Range" in site.targ(1):
        e.event("slice", "slice", [c, i], st, site)
        return one(st, app("slice", c, i))
    bound = ge0(add(sub(length(c), i), I(-1)))
    if decide(st.facts, bound) is not True:
        e.event("panic", "index", [c, i], st, site)
    s = e.assume(st, bound, True)
    e.survive(st, s)
    if s is None:
        return []
    return read_idx(e, s, c, i, site)


def read_idx(e, st, c, i, site):
    if c.op == "list" and i.op == "c":
        return one(st, index_term(c, i))
    gs = gens_of(c)
    if gs is not None and gs:
        out = []
        for g in gs:
            s, v = e.freshen(st, g, "at%d_%d" % (c.id, i.id))
            if s is not None:
                for t in v.tags - c.tags:
                    e.indexed[t] = i
                if i.op == "c":
                    for t in v.tags - c.tags:
                        e.orders.setdefault(t, app("o_at", order_of(c) or app("o_none"), i))
                out.append((s, v))
        return out
    r = index_term(c, i)
    st = e.add(st, app("contains", c, r), True)
    return one(st, r)


@model("IndexMut::index_mut", "slice::get_mut@")
def index_mut(e, st, args, site):
    p, i = args[0], e.deref(st, args[1])
    c = e.deref(st, p)
    bound = ge0(add(sub(length(c), i), I(-1)))
    if decide(st.facts, bound) is not True and kind_hint(site) != "map":
        e.event("panic", "index", [c, i], st, site)
    q = p
    while e.read(st, q.a[0], q.a[1]).op == "ptr":
        q = e.read(st, q.a[0], q.a[1])
    return one(st, mk("ptr", q.a[0], q.a[1] + (("idx", i),)))


@model("slice::get", "Vec::get", "slice::first", "slice::last", "Vec::first", "Vec::last")
def slice_get(e, st, args, site):
    nm = norm(site.fn["d"]).split("::")[-1]
    c = e.deref(st, args[0])
    if nm == "get":
        i = e.deref(st, args[1])
        bound = ge0(add(sub(length(c), i), I(-1)))
    else:
        i = I(0) if nm == "first" else add(length(c), I(-1))
        bound = ge0(add(length(c), I(-1)))
    outs = []
    s = e.assume(st, bound, True)
    if s is not None:
        for s2, v in read_idx(e, s, c, i, site):
            outs.append((s2, some(v)))
    s = e.assume(st, bound, False)
    if s is not None:
        outs.append((s, NONE))
    return outs


# ------------------------------------------------------------------ collections: updates

def real_ptr(e, st, p):
    while p.op == "ptr":
        v = e.read(st, p.a[0], p.a[1])
        if v.op != "ptr":
            return p
        p = v
    return p


def add_gens(e, st, p, new, kind, order=None):
    p = real_ptr(e, st, p)
    if p.op != "ptr":
        return st
    v = e.read(st, p.a[0], p.a[1])
    gs = gens_of(v)
    if gs is None:
        # additions to a symbolic collection
        tag = "base%d" % v.id
        if kind == "map":
            k = elem(app("keys", v), tag)
            base = (tup(k, app("get!", v, k)), frozenset(), frozenset([tag]))
        else:
            x = elem(v, tag)
            base = (x, frozenset([(app("contains", v, x), True)]), frozenset([tag]))
        gs = (base,)
    o = v.a[2] if v.op == "coll" else None
    if order is None:
        order = app("o_push", o) if o is not None and not (o.op == "app" and o.a[0] == "o_push") else (o if o is not None else app("o_push"))
    k = v.a[0] if v.op in ("coll", "list") else kind
    if k == "iter":
        k = kind
    return e.write(st, p.a[0], p.a[1], coll(k, absorb(tuple(gs) + tuple(new)), order))


@model("Vec::push", "VecDeque::push_back", "Vec::insert", "VecDeque::push_front")
def vec_push(e, st, args, site):
    p = real_ptr(e, st, args[0])
    x = args[-1]
    v = e.deref(st, p)
    if v.op == "list" and not any(True for _ in e.loopstack) and "insert" not in site.fn["d"] and len(v.a[1]) < 12:
        return one(e.write(st, p.a[0], p.a[1], mk("list", v.a[0], v.a[1] + (x,))), UNIT)
    o = None
    if "insert" in site.fn["d"] or "front" in site.fn["d"]:
        o = app("o_insert", args[1])
    return one(add_gens(e, st, p, [(x, st.facts, frozenset())], "vec", o), UNIT)


@model("HashSet::insert", "BTreeSet::insert")
def set_insert(e, st, args, site):
    v = e.deref(st, args[0])
    x = args[1]
    had = contains_term(v, x)
    st2 = add_gens(e, st, args[0], [(x, st.facts, frozenset())], "set", app("o_none"))
    return one(st2, neg(had))


@model("HashMap::insert", "BTreeMap::insert")
def map_insert(e, st, args, site):
    m = e.deref(st, args[0])
    k, v = args[1], args[2]
    st2 = add_gens(e, st, args[0], [(tup(k, v), st.facts, frozenset())], "map", app("o_none"))
    return one(st2, app("old_value", m, k))


@model("Extend::extend", "Vec::extend_from_slice", "Vec::append")
def extend(e, st, args, site):
    it = e.deref(st, args[1])
    st, gs = gens(e, st, to_iter(e, st, it, site), site)
    part = order_of(to_iter(e, st, it, site))
    if cut_of(part) is not None:
        # what is added is a part of its source: its elements are told from those of the whole
        for i, (v, fs, b) in enumerate(gs):
            m = {t: e.fresh_tag(t, site.tag("xt%d" % i)) for t in b}
            f = lambda t, m=m: m.get(t, t)
            for t in m.values():
                e.orders.setdefault(t, part)
            gs = list(gs)
            gs[i] = (retag(v, f), retag(fs, f), frozenset(m.values()))
    new = [(v, fs | st.facts, b) for v, fs, b in gs]
    k = kind_hint(site) or "vec"
    v = e.deref(st, args[0])
    if v.op == "list" and it.op == "list" and not e.loopstack and len(v.a[1]) + len(it.a[1]) < 12:
        p = real_ptr(e, st, args[0])
        return one(e.write(st, p.a[0], p.a[1], mk("list", v.a[0], v.a[1] + it.a[1])), UNIT)
    order = None
    if k == "vec" and not e.loopstack and gens_of(v) == ():
        order = order_of(to_iter(e, st, it, site))
    elif k == "vec" and not e.loopstack:
        a, b = order_of(v), order_of(to_iter(e, st, it, site))
        order = app("o_chain", a, b) if a is not None and b is not None else None
    return one(add_gens(e, st, args[0], new, k, order), UNIT)


@model("HashMap::clear", "Vec::clear", "HashSet::clear")
def clear(e, st, args, site):
    p = real_ptr(e, st, args[0])
    k = kind_hint(site) or "vec"
    return one(e.write(st, p.a[0], p.a[1], seq("vec", []) if k == "vec" else coll(k, ())), UNIT)


@model("Vec::pop")
def vec_pop(e, st, args, site):
    p = real_ptr(e, st, args[0])
    v = e.deref(st, p)
    if v.op == "list" and v.a[1] and not e.loopstack:
        return one(e.write(st, p.a[0], p.a[1], mk("list", v.a[0], v.a[1][:-1])), some(v.a[1][-1]))
    st, gs = gens(e, st, v, site)
    outs = []
    for g in gs:
        s, x = e.freshen(st, g, site.tag("p"))
        if s is not None:
            outs.append((s, some(x)))
    z = e.assume(st, eq(length(v), I(0)), True)
    if z is not None:
        outs.append((z, NONE))
    return outs


@model("HashMap::entry", "BTreeMap::entry")
def map_entry(e, st, args, site):
    p = real_ptr(e, st, args[0])
    return one(st, app("entry", p, args[1]))


@model("HashMap::get_mut", "BTreeMap::get_mut")
def map_get_mut(e, st, args, site):
    p = real_ptr(e, st, args[0])
    k = e.deref(st, args[1])
    if p is None or p.op != "ptr":
        return None
    ck = app("contains", keys_of(e.read(st, p.a[0], p.a[1])), k)
    outs = []
    s = e.assume(st, ck, True)
    if s is not None:
        outs.append((s, enum(OPT, "Some", ("0",), (mk("ptr", p.a[0], p.a[1] + (("mv", k),)),))))
    s = e.assume(st, ck, False)
    if s is not None:
        outs.append((s, enum(OPT, "None", (), ())))
    return outs


def entry_parts(e, st, v):
    if v.op == "app" and v.a[0] == "entry":
        p, k = v.a[1], v.a[2]
        m = e.read(st, p.a[0], p.a[1])
        return p, k, m
    return None


@model("Entry::or_insert_with", "Entry::or_insert", "Entry::or_default", "Entry::or_insert_with_key")
def or_insert(e, st, args, site):
    ep = entry_parts(e, st, args[0])
    if ep is None:
        return None
    p, k, m = ep
    ck = app("contains", keys_of(m), k)
    outs = []
    s = e.assume(st, ck, True)
    if s is not None:
        outs.append((s, mk("ptr", p.a[0], p.a[1] + (("mv", k),))))
    s = e.assume(st, ck, False)
    if s is not None:
        nm = norm(site.fn["d"]).split("::")[-1]
        if nm == "or_insert":
            rs = [(s, args[1])]
        elif nm == "or_default":
            rs = [(s, default_for(site))]
        else:
            rs = e.call_value(s, args[1], [], site)
        for s2, r in rs:
            s3 = add_gens(e, s2, p, [(tup(k, r), s2.facts, frozenset())], "map", app("o_none"))
            outs.append((s3, mk("ptr", p.a[0], p.a[1] + (("mv", k),))))
    return outs


def default_for(site):
    t = site.targ(1)
    if t.startswith("std::vec::Vec<"):
        return seq("vec", [])
    if "HashMap<" in t[:30]:
        return coll("map", ())
    if "HashSet<" in t[:30]:
        return coll("set", ())
    return app("default")


@model("Entry::and_modify")
def and_modify(e, st, args, site):
    ep = entry_parts(e, st, args[0])
    if ep is None:
        return None
    p, k, m = ep
    ck = app("contains", keys_of(m), k)
    outs = []
    s = e.assume(st, ck, True)
    if s is not None:
        for s2, r in e.call_value(s, args[1], [mk("ptr", p.a[0], p.a[1] + (("mv", k),))], site):
            outs.append((s2, args[0]))
    s = e.assume(st, ck, False)
    if s is not None:
        outs.append((s, args[0]))
    return outs


# ------------------------------------------------------------------ ordering, sets, misc

A_, B_ = sym("cmp·a"), sym("cmp·b")


def generic_pair(e, st, v, site):
    """Two generic elements of a sequence, for comparators / keys."""
    st, gs = gens(e, st, v, site, "q")
    if len(gs) == 1:
        x, fs, b = gs[0]
        r1 = {t: "cmpA" for t in b}
        r2 = {t: "cmpB" for t in b}
        return retag(x, lambda t: r1.get(t, t)), retag(x, lambda t: r2.get(t, t))
    return A_, B_


def cmp_summary(e, st, v, clo, site, keyed):
    a, b = A_, B_
    if keyed:
        rs = e.call_value(st, clo, [a], site.with_sub("k"))
        if len(rs) == 1:
            return app("bykey", rs[0][1])
        return app("bykey", *sorted({r for s, r in rs}, key=lambda t: t.id))
    rs = e.call_value(st, clo, [a, b], site.with_sub("k"))
    out = set()
    for s, r in rs:
        # what is answered when an earlier comparison is equal comes after it
        for t, p in s.facts - st.facts:
            if p and t.op == "is" and t.a[1] == "Equal" and r is not t.a[0]:
                r = app("ord_then", t.a[0], r)
        out.add(r)
    out -= {r.a[1] for r in out if r.op == "app" and r.a[0] == "ord_then"}
    return app("bycmp", *sorted(out, key=lambda t: t.id))


@model("Itertools::sorted_by", "Itertools::sorted_by_key", "Itertools::sorted", "Itertools::sorted_unstable_by")
def it_sorted(e, st, args, site):
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    o = app("natural")
    if len(args) > 1:
        o = cmp_summary(e, st, it, args[1], site, "key" in site.fn["d"])
    return one(st, coll("vec", gs, app("o_sorted", o, order_of(it))))


@model("slice::sort_by", "slice::sort_by_key", "slice::sort", "slice::sort_unstable_by", "slice::sort_unstable_by_key", "slice::sort_unstable", "Vec::sort")
def vec_sort(e, st, args, site):
    p = real_ptr(e, st, args[0])
    v = e.deref(st, p)
    st, gs = gens(e, st, v, site)
    o = app("natural")
    if len(args) > 1:
        o = cmp_summary(e, st, v, args[1], site, "key" in site.fn["d"])
    if p.op != "ptr":
        return one(st, UNIT)
    return one(e.write(st, p.a[0], p.a[1], coll("vec", gs, app("o_sorted", o, order_of(v)))), UNIT)


@model("slice::reverse", "Vec::reverse")
def vec_reverse(e, st, args, site):
    p = real_ptr(e, st, args[0])
    v = e.deref(st, p)
    st, gs = gens(e, st, v, site)
    return one(e.write(st, p.a[0], p.a[1], coll("vec", gs, app("o_rev", order_of(v)))), UNIT)


@model("Vec::retain", "HashMap::retain", "HashSet::retain")
def retain(e, st, args, site):
    p = real_ptr(e, st, args[0])
    v = e.deref(st, p)
    st, gs = gens(e, st, to_iter(e, st, v, site, kind_hint(site)), site)
    out = []
    for i, g in enumerate(gs):
        g2 = g
        if "HashMap" in site.fn["d"]:
            g2 = ((fld(g[0], "0"), fld(g[0], "1")), g[1], g[2])
        st, rs = gen_apply(e, st, g2, args[1], site, str(i))
        for fs, b in split_bool(e, st, rs, True):
            out.append((g[0], fs, b))
    k = v.a[0] if v.op in ("coll", "list") else (kind_hint(site) or "vec")
    return one(e.write(st, p.a[0], p.a[1], coll(k, out, sifted(order_of(v), gs, out))), UNIT)


@model("Vec::truncate", "Vec::dedup", "Vec::dedup_by_key", "slice::swap")
def vec_weaken(e, st, args, site):
    p = real_ptr(e, st, args[0])
    v = e.deref(st, p)
    st, gs = gens(e, st, v, site)
    nm = norm(site.fn["d"]).split("::")[-1]
    o = order_of(v) or app("o_none")
    o = app("o_take", o, e.deref(st, args[1])) if nm == "truncate" and len(args) > 1 else app("o_" + nm, o)
    return one(e.write(st, p.a[0], p.a[1], coll("vec", gs, o)), UNIT)


@model("HashSet::difference", "HashSet::intersection", "HashSet::union")
def set_op(e, st, args, site):
    nm = norm(site.fn["d"]).split("::")[-1]
    a, b = e.deref(st, args[0]), e.deref(st, args[1])
    st, ga = gens(e, st, to_iter(e, st, a, site, "set"), site, "a")
    if nm == "union":
        st, gb = gens(e, st, to_iter(e, st, b, site, "set"), site, "b")
        return one(st, coll("iter", ga + gb, app("o_hash", app("o_none"))))
    out = [(v, fs | {(contains_term(b, v), nm == "intersection")}, bd) for v, fs, bd in ga]
    out = [(v, fs, bd) for v, fs, bd in out if not any(t.op == "c" and bool(t.a[1]) != p for t, p in fs)]
    out = [(v, frozenset(x for x in fs if x[0].op != "c"), bd) for v, fs, bd in out]
    return one(st, coll("iter", out, app("o_hash", app("o_none"))))


@model("Itertools::unique")
def unique(e, st, args, site):
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    return one(st, coll("iter", gs, app("o_unique", order_of(it))))


@model("Itertools::unique_by", "Itertools::dedup")
def unique_by(e, st, args, site):
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    return one(st, coll("iter", gs, app("o_unique_by", order_of(it))))


@model("slice::join", "Itertools::join", "slice::concat")
def join(e, st, args, site):
    v = e.deref(st, args[0])
    return one(st, app("join", v, *[e.deref(st, a) for a in args[1:]]))


@model("Iterator::fold")
def it_fold(e, st, args, site):
    it, acc, clo = e.deref(st, args[0]), args[1], args[2]
    st, gs = gens(e, st, it, site)
    # fold as a loop: acc is a phi of its initial value and of the closure's results
    lid = (site.fid, site.bb, site.sub, "fold")
    ltag = "F%s" % site.tag()
    e.tag_loops[ltag] = frozenset(e.loopstack) | {lid}
    cur = acc
    for rnd in range(8):
        ver = e.phiver
        prev = cur
        for i, g in enumerate(gs):
            e.loopstack.append(lid)
            s, v = e.freshen(st, g, site.tag("fo"))
            if s is not None and order_of(it) is not None:
                for t in v.tags - it.tags:
                    e.orders.setdefault(t.rstrip("~"), order_of(it))
            rs = e.call_value(s, clo, [cur, v], site.with_sub("f%d" % i)) if s is not None else []
            e.loopstack.pop()
            for s2, r in rs:
                s3 = e.rename_back(State({("h", sym("r")): r}, s2.facts, s2.hist), lid)
                cur = e.joinv(cur, s3.mem[("h", sym("r"))], ltag, "acc", st, s3, rnd > 5)
        if cur is prev and e.phiver == ver:
            break
    return one(st, cur)


@model("Iterator::sum", "Iterator::product")
def it_sum(e, st, args, site):
    it = e.deref(st, args[0])
    return one(st, app("sum", it))


@model("Iterator::max", "Iterator::min", "Iterator::last")
def it_max(e, st, args, site):
    nm = norm(site.fn["d"]).split("::")[-1]
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    outs = []
    for g in gs:
        s, v = e.freshen(st, g, site.tag("m"))
        if s is not None:
            outs.append((e.add(s, app(nm + "_of", it, v), True), some(v)))
    if it.op == "list" and it.a[1]:
        return outs
    outs.append((exhaust(e, st, it, gs, site.tag("m")), NONE))
    return outs


@model("Iterator::max_by", "Iterator::min_by", "Iterator::max_by_key", "Iterator::min_by_key")
def it_max_by(e, st, args, site):
    nm = norm(site.fn["d"]).split("::")[-1]
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    o = cmp_summary(e, st, it, args[1], site, "key" in nm)
    outs = []
    for g in gs:
        s, v = e.freshen(st, g, site.tag("m"))
        if s is not None:
            outs.append((e.add(s, app(nm, it, v, o), True), some(v)))
    outs.append((st, NONE))
    return outs


@model("Iterator::nth")
def it_nth(e, st, args, site):
    it = e.deref(st, args[0])
    st, gs = gens(e, st, it, site)
    outs = []
    for g in gs:
        s, v = e.freshen(st, g, site.tag("nth"))
        if s is not None:
            outs.append((s, some(v)))
    outs.append((st, NONE))
    return outs


@model("Itertools::combinations")
def combinations(e, st, args, site):
    it = e.deref(st, args[0])
    return one(st, app("combinations", it, args[1]))


@model("vec::from_elem")
def from_elem(e, st, args, site):
    return one(st, copies(e, st, "vec", args[0], args[1], site))


@model("RangeInclusive::new")
def range_incl(e, st, args, site):
    return one(st, app("range", args[0], add(args[1], I(1))))


@model("bool::then")
def bool_then(e, st, args, site):
    outs = []
    s = e.assume(st, args[0], True)
    if s is not None:
        outs.extend((s2, some(r)) for s2, r in e.call_value(s, args[1], [], site))
    s = e.assume(st, args[0], False)
    if s is not None:
        outs.append((s, NONE))
    return outs


@model("Mutex::lock", "RwLock::read", "RwLock::write", "RefCell::borrow_mut", "RefCell::borrow", "Mutex::try_lock", "Mutex::get_mut")
def lock(e, st, args, site):
    v = e.deref(st, args[0])
    e.event("lock", site.fn["d"], [v], st, site)
    e.guarded.add(v)
    st = e.did(st, "lock", norm(site.fn["d"]), [v])
    p = mk("ptr", ("h", v), ())
    if "RefCell" in site.fn["d"]:
        return one(st, p)
    r = app("lock", v)
    outs = []
    s = e.assume(st, isv(r, "Ok"), True)
    if s is not None:
        outs.append((s, ok(p)))
    s = e.assume(st, isv(r, "Ok"), False)
    if s is not None:
        outs.append((s, err(app("poison", v))))
    return outs


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def fn_call(e, st, args, site):
    f = e.deref(st, args[0])
    t = args[1]
    xs = list(t.a[2]) if t.op == "st" and t.a[0] == "()" else [t]
    return e.call_value(st, f, xs, site)


@model("process::abort", "process::exit")
def abort_(e, st, args, site):
    e.event("abort", site.fn["d"], [], st, site)
    return []
