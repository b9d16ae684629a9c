//! factdump: a RUSTC_WORKSPACE_WRAPPER that type-checks a crate as usual and writes what the
//! compiler knows about it (MIR with resolved callees, types, impls) as JSON for the rules in
//! /verif/analysis. It never generates or runs code.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb {
    out: String,
}

impl rustc_driver_impl::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let j = dump_crate(tcx);
        let mut s = String::new();
        j.write(&mut s);
        let path = format!("{}/{}.json", self.out, name);
        let tmp = format!("{}.{}.tmp", path, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &path).expect("rename facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver_impl::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: factdump /path/to/rustc <args>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("FACTDUMP_OUT").unwrap_or_default();
    let crates = std::env::var("FACTDUMP_CRATES").unwrap_or_default();
    let cname = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let is_target = cname.as_ref().map_or(false, |n| crates.split(',').any(|c| c == n));
    if out.is_empty() || !is_target {
        rustc_driver_impl::compiler_entrypoint(&args, &mut rustc_driver_impl::TimePassesCallbacks::default());
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Cdebug-assertions=on".into());
    args.push("-Zub-checks=no".into());
    args.push("--cap-lints=allow".into());
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
}

fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(t.to_string())
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn dpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    // unique: crate + disambiguated def path
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn span_j(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sm = tcx.sess.source_map();
    let mac = sp.from_expansion();
    let root = sp.source_callsite();
    let lo = sm.lookup_char_pos(root.lo());
    let f = match &lo.file.name {
        rustc_span::FileName::Real(r) => {
            r.local_path().map(|p| p.display().to_string()).unwrap_or_default()
        }
        _ => String::new(),
    };
    let mut o = J::obj();
    o.put("f", J::s(f));
    o.put("l", J::n(lo.line as i128));
    if mac {
        o.put("m", J::s(format!("{}", sp.ctxt().outer_expn_data().kind.descr())));
    }
    o
}

/// Structured type, shallow enough to be cheap.
fn ty_j<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> J {
    let mut o = J::obj();
    match t.kind() {
        ty::Adt(d, args) => {
            o.put("k", J::s("adt"));
            o.put("d", J::s(path(tcx, d.did())));
            o.put("a", J::arr(args.iter().map(|a| match a.as_type() {
                Some(t) => ty_j(tcx, t),
                None => J::s(with_no_trimmed_paths!(a.to_string())),
            }).collect()));
        }
        ty::Ref(_, t, m) => {
            o.put("k", J::s(if m.is_mut() { "refmut" } else { "ref" }));
            o.put("a", J::arr(vec![ty_j(tcx, *t)]));
        }
        ty::RawPtr(t, m) => {
            o.put("k", J::s(if m.is_mut() { "ptrmut" } else { "ptr" }));
            o.put("a", J::arr(vec![ty_j(tcx, *t)]));
        }
        ty::Slice(t) => {
            o.put("k", J::s("slice"));
            o.put("a", J::arr(vec![ty_j(tcx, *t)]));
        }
        ty::Array(t, _) => {
            o.put("k", J::s("array"));
            o.put("a", J::arr(vec![ty_j(tcx, *t)]));
        }
        ty::Tuple(ts) => {
            o.put("k", J::s("tuple"));
            o.put("a", J::arr(ts.iter().map(|t| ty_j(tcx, t)).collect()));
        }
        ty::Closure(d, _) => {
            o.put("k", J::s("closure"));
            o.put("d", J::s(dpath(tcx, *d)));
        }
        ty::FnDef(d, args) => {
            o.put("k", J::s("fndef"));
            o.put("d", J::s(path(tcx, *d)));
        }
        ty::Dynamic(preds, ..) => {
            o.put("k", J::s("dyn"));
            o.put("d", J::s(preds.principal_def_id().map(|d| path(tcx, d)).unwrap_or_default()));
        }
        ty::Param(p) => {
            o.put("k", J::s("param"));
            o.put("d", J::s(p.name.to_string()));
        }
        _ => {
            o.put("k", J::s("prim"));
            o.put("d", J::s(tystr(t)));
        }
    }
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: std::cell::RefCell<rustc_data_structures::fx::FxIndexMap<Ty<'tcx>, usize>>,
}

impl<'tcx> Cx<'tcx> {
    fn t(&self, t: Ty<'tcx>) -> J {
        let mut m = self.types.borrow_mut();
        let n = m.len();
        J::n(*m.entry(t).or_insert(n) as i128)
    }

    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let tcx = self.tcx;
        if p.projection.is_empty() {
            return J::n(p.local.as_usize() as i128);
        }
        let mut v = vec![J::n(p.local.as_usize() as i128)];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut o = J::obj();
                    o.put("f", J::n(f.as_usize() as i128));
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let var = match pt.variant_index {
                                Some(v) => Some(d.variant(v)),
                                None if d.is_struct() || d.is_union() => Some(d.non_enum_variant()),
                                None => None,
                            };
                            var.map(|v| v.fields[f].name.to_string())
                        }
                        ty::Closure(d, _) => d.as_local().map(|l| {
                            tcx.closure_captures(l)
                                .get(f.as_usize())
                                .map(|c| c.to_string(tcx))
                                .unwrap_or_default()
                        }),
                        _ => None,
                    };
                    if let Some(n) = name {
                        o.put("n", J::s(n));
                    }
                    if let ty::Adt(d, _) = pt.ty.kind() {
                        o.put("o", J::s(path(tcx, d.did())));
                    }
                    o
                }
                ProjectionElem::Index(l) => J::obj1("i", J::n(l.as_usize() as i128)),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let mut o = J::obj();
                    o.put("ci", J::n(offset as i128));
                    o.put("fe", J::b(from_end));
                    o
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let mut o = J::obj();
                    o.put("ss", J::n(from as i128));
                    o.put("to", J::n(to as i128));
                    o.put("fe", J::b(from_end));
                    o
                }
                ProjectionElem::Downcast(name, idx) => {
                    let mut o = J::obj();
                    o.put("v", J::n(idx.as_usize() as i128));
                    if let ty::Adt(d, _) = pt.ty.kind() {
                        o.put("n", J::s(d.variant(idx).name.to_string()));
                        o.put("o", J::s(path(tcx, d.did())));
                    }
                    o
                }
                _ => J::s("?"),
            });
            pt = pt.projection_ty(tcx, e);
        }
        J::arr(v)
    }

    fn callee(&self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = J::obj();
        o.put("d", J::s(path(tcx, did)));
        if did.is_local() {
            o.put("u", J::s(dpath(tcx, did)));
        }
        o.put("k", J::s(tcx.crate_name(did.krate).to_string()));
        o.put("a", J::arr(args.iter().filter_map(|a| a.as_type()).map(|t| self.t(t)).collect()));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.put("tr", J::s(path(tcx, tr)));
        }
        o.put("nm", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()));
        let erased = tcx.erase_and_anonymize_regions(args);
        if let (Some(tr), Some(it)) = (tcx.trait_of_assoc(did), tcx.get_diagnostic_item(rustc_span::sym::Iterator)) {
            let tn = path(tcx, tr);
            if tr == it || tn.ends_with("Itertools") {
                if let Some(item) = tcx.associated_items(it).in_definition_order().find(|a| a.name().as_str() == "Item") {
                    let proj = ty::Ty::new_projection(tcx, ty::IsRigid::No, item.def_id, [erased.type_at(0)]);
                    if let Ok(t) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(proj)) {
                        o.put("it", self.t(t));
                    }
                }
            }
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, erased) {
            let rd = inst.def_id();
            if let ty::InstanceKind::Virtual(..) = inst.def {
                o.put("virt", J::b(true));
            } else if rd != did || rd.is_local() {
                o.put("r", J::s(path(tcx, rd)));
                if rd.is_local() {
                    o.put("u", J::s(dpath(tcx, rd)));
                }
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    o.put("rs", self.t(tcx.type_of(im).instantiate_identity().skip_norm_wip()));
                }
            }
        }
        o
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = J::obj();
        o.put("k", J::s("c"));
        o.put("t", self.t(t));
        if let ty::FnDef(d, args) = t.kind() {
            o.put("fn", self.callee(*d, args.no_bound_vars().expect("fn args")));
            return o;
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                o.put("prom", J::s(format!("{}::promoted[{}]", dpath(tcx, uv.def), p.as_usize())));
            } else {
                o.put("name", J::s(path(tcx, uv.def)));
            }
        }
        if let Some(promoted) = o.get("prom") {
            return o;
        }
        let generic = match c.const_ {
            Const::Unevaluated(uv, _) => ty::TypeVisitableExt::has_param(&uv.args),
            _ => false,
        };
        if generic {
            return o;
        }
        if let Ok(val) = c.const_.eval(tcx, self.env, c.span) {
            self.const_val(val, t, &mut o);
        }
        o
    }

    fn const_val(&self, val: ConstValue, t: Ty<'tcx>, o: &mut J) {
        let tcx = self.tcx;
        if let (true, ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) = (t.is_any_ptr(), val) {
            let (prov, _) = p.prov_and_relative_offset();
            if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                o.put("static", J::s(path(tcx, d)));
                o.put("static_id", J::s(dpath(tcx, d)));
            }
        }
        match t.kind() {
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.put("s", J::s(String::from_utf8_lossy(b).into_owned()));
                }
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(sc) = val.try_to_scalar_int() {
                    let size = sc.size();
                    match t.kind() {
                        ty::Bool => o.put("b", J::b(sc.to_bits(size) != 0)),
                        ty::Char => o.put(
                            "ch",
                            J::s(char::from_u32(sc.to_bits(size) as u32).map(|c| c.to_string()).unwrap_or_default()),
                        ),
                        ty::Int(_) => o.put("i", J::n(sc.to_int(size))),
                        ty::Uint(_) => o.put("i", J::n(sc.to_bits(size) as i128)),
                        ty::Float(f) => {
                            let v = if size.bits() == 32 {
                                f32::from_bits(sc.to_bits(size) as u32) as f64
                            } else {
                                f64::from_bits(sc.to_bits(size) as u64)
                            };
                            o.put("fl", J::s(format!("{:?}", v)))
                        }
                        _ => {}
                    }
                }
            }
            ty::Ref(_, inner, _) => {
                if let ty::Array(el, n) = inner.kind() {
                    if let (true, Some(n)) = (*el == tcx.types.u8, n.try_to_target_usize(tcx)) {
                        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = val {
                            let (prov, off) = p.prov_and_relative_offset();
                            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) =
                                tcx.global_alloc(prov.alloc_id())
                            {
                                let a = a.inner();
                                let st = off.bytes_usize();
                                let by = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                                o.put("by", J::arr(by.iter().map(|b| J::n(*b as i128)).collect()));
                            }
                        }
                    }
                }
            }
            ty::Adt(d, _) if d.is_enum() => {
                if let Some(sc) = val.try_to_scalar_int() {
                    let bits = sc.to_bits(sc.size());
                    for (i, dis) in d.discriminants(tcx) {
                        if dis.val == bits {
                            o.put("var", J::s(d.variant(i).name.to_string()));
                            o.put("vi", J::n(i.as_usize() as i128));
                        }
                    }
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = val {
            o.put("zst", J::b(true));
        }
    }

    fn op(&self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::arr(vec![J::s("c"), self.place(body, *p)]),
            Operand::Move(p) => J::arr(vec![J::s("m"), self.place(body, *p)]),
            Operand::Constant(c) => self.constant(c),
            _ => J::obj1("k", J::s("?")),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = J::obj();
        match rv {
            Rvalue::Use(x, ..) => {
                o.put("k", J::s("use"));
                o.put("x", self.op(body, x));
            }
            Rvalue::Repeat(x, n) => {
                o.put("k", J::s("repeat"));
                o.put("x", self.op(body, x));
                o.put("n", J::s(with_no_trimmed_paths!(n.to_string())));
            }
            Rvalue::Ref(_, bk, p) => {
                o.put("k", J::s("ref"));
                o.put("mut", J::b(matches!(bk, BorrowKind::Mut { .. })));
                o.put("p", self.place(body, *p));
            }
            Rvalue::RawPtr(k, p) => {
                o.put("k", J::s("rawptr"));
                o.put("p", self.place(body, *p));
            }
            Rvalue::Cast(kind, x, t) => {
                o.put("k", J::s("cast"));
                o.put("ck", J::s(format!("{:?}", kind)));
                o.put("x", self.op(body, x));
                o.put("ft", self.t(x.ty(&body.local_decls, tcx)));
                o.put("t", self.t(*t));
            }
            Rvalue::BinaryOp(b, box_) => {
                o.put("k", J::s("bin"));
                o.put("op", J::s(format!("{:?}", b)));
                o.put("x", self.op(body, &box_.0));
                o.put("y", self.op(body, &box_.1));
            }
            Rvalue::UnaryOp(u, x) => {
                o.put("k", J::s("un"));
                o.put("op", J::s(format!("{:?}", u)));
                o.put("x", self.op(body, x));
            }
            Rvalue::Discriminant(p) => {
                o.put("k", J::s("discr"));
                o.put("p", self.place(body, *p));
                let pt = p.ty(&body.local_decls, tcx).ty;
                o.put("t", self.t(pt));
                if let ty::Adt(d, _) = pt.kind() {
                    if d.is_enum() {
                        o.put("vs", J::arr(d.discriminants(tcx).map(|(vi, dis)| {
                            J::arr(vec![J::s(d.variant(vi).name.to_string()), J::n(dis.val as i128)])
                        }).collect()));
                    }
                }
            }
            Rvalue::Aggregate(kind, ops) => {
                o.put("k", J::s("agg"));
                o.put("xs", J::arr(ops.iter().map(|x| self.op(body, x)).collect()));
                match &**kind {
                    AggregateKind::Array(t) => o.put("a", J::s("array")),
                    AggregateKind::Tuple => o.put("a", J::s("tuple")),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = tcx.adt_def(*d);
                        o.put("a", J::s("adt"));
                        o.put("d", J::s(path(tcx, *d)));
                        let var = def.variant(*v);
                        o.put("v", J::n(v.as_usize() as i128));
                        o.put("vn", J::s(var.name.to_string()));
                        o.put("fs", J::arr(var.fields.iter().map(|f| J::s(f.name.to_string())).collect()));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.put("a", J::s("closure"));
                        o.put("d", J::s(dpath(tcx, *d)));
                        if let Some(l) = d.as_local() {
                            o.put("fs", J::arr(tcx.closure_captures(l).iter().map(|c| J::s(c.to_string(tcx))).collect()));
                        }
                    }
                    _ => o.put("a", J::s("?")),
                }
            }
            Rvalue::CopyForDeref(p) => {
                o.put("k", J::s("use"));
                o.put("x", J::arr(vec![J::s("c"), self.place(body, *p)]));
            }
            _ => {
                o.put("k", J::s("?"));
                o.put("s", J::s(format!("{:?}", rv)));
            }
        }
        o
    }

    fn body(&self, id: String, did: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = J::obj();
        o.put("id", J::s(id));
        o.put("path", J::s(path(tcx, did)));
        o.put("span", span_j(tcx, body.span));
        {
            let sm = tcx.sess.source_map();
            let hi = sm.lookup_char_pos(body.span.source_callsite().hi());
            o.put("endl", J::n(hi.line as i128));
        }
        o.put("argc", J::n(body.arg_count as i128));
        if body.tainted_by_errors.is_some() {
            o.put("tainted", J::b(true));
        }
        o.put("kind", J::s(format!("{:?}", tcx.def_kind(did))));
        if let Some(l) = did.as_local() {
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                o.put("vis", J::b(tcx.visibility(did).is_public()));
                let evis = tcx.effective_visibilities(());
                o.put("exported", J::b(evis.is_exported(l)));
                o.put("derived", J::b(tcx.impl_of_assoc(did).map_or(false, |i| tcx.is_builtin_derived(i))));
                let attrs = tcx.codegen_fn_attrs(did);
                o.put("nomangle", J::b(attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE)));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_binder();
                o.put("abi", J::s(format!("{:?}", sig.abi())));
                o.put("unsafe", J::b(!sig.safety().is_safe()));
            }
            if let Some(im) = tcx.impl_of_assoc(did) {
                o.put("impl_self", self.t(tcx.type_of(im).instantiate_identity().skip_norm_wip()));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    o.put("impl_trait", J::s(path(tcx, tr.skip_binder().def_id)));
                    o.put("impl_trait_full", J::s(with_no_trimmed_paths!(tr.skip_binder().to_string())));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(did) {
                o.put("in_trait", J::s(path(tcx, tr)));
            }
            o.put("name", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()));
            o.put("parent", J::s(dpath(tcx, tcx.parent(did))));
        }
        o.put("locals", J::arr(body.local_decls.iter().map(|l| self.t(l.ty)).collect()));
        let mut vars = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                vars.push(J::arr(vec![J::s(v.name.to_string()), self.place(body, p)]));
            }
        }
        o.put("vars", J::arr(vars));
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut b = J::obj();
            if bb.is_cleanup {
                b.put("cleanup", J::b(true));
            }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, rv) = &**a;
                        let mut st = J::obj();
                        st.put("p", self.place(body, *p));
                        st.put("rv", self.rvalue(body, rv));
                        st.put("l", span_j(tcx, s.source_info.span));
                        ss.push(st);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let mut st = J::obj();
                        st.put("p", self.place(body, **place));
                        st.put("setd", J::n(variant_index.as_usize() as i128));
                        ss.push(st);
                    }
                    StatementKind::StorageDead(l) => {
                        ss.push(J::obj1("dead", J::n(l.as_usize() as i128)));
                    }
                    _ => {}
                }
            }
            b.put("s", J::arr(ss));
            let t = bb.terminator();
            let mut o = J::obj();
            o.put("l", span_j(tcx, t.source_info.span));
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.put("k", J::s("goto"));
                    o.put("t", J::n(target.as_usize() as i128));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.put("k", J::s("switch"));
                    o.put("x", self.op(body, discr));
                    o.put("xt", self.t(discr.ty(&body.local_decls, tcx)));
                    let dt = discr.ty(&body.local_decls, tcx);
                    o.put("ts", J::arr(targets.iter().map(|(v, bb)| {
                        let v = match dt.kind() {
                            ty::Int(it) => {
                                let bits = it.bit_width().unwrap_or(64) as u32;
                                ((v as i128) << (128 - bits)) >> (128 - bits)
                            }
                            _ => v as i128,
                        };
                        J::arr(vec![J::n(v), J::n(bb.as_usize() as i128)])
                    }).collect()));
                    o.put("o", J::n(targets.otherwise().as_usize() as i128));
                }
                TerminatorKind::Return => o.put("k", J::s("return")),
                TerminatorKind::Unreachable => o.put("k", J::s("unreachable")),
                TerminatorKind::UnwindResume => o.put("k", J::s("resume")),
                TerminatorKind::UnwindTerminate(_) => o.put("k", J::s("abort")),
                TerminatorKind::Drop { place, target, .. } => {
                    o.put("k", J::s("drop"));
                    o.put("p", self.place(body, *place));
                    o.put("pt", self.t(place.ty(&body.local_decls, tcx).ty));
                    o.put("t", J::n(target.as_usize() as i128));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.put("k", J::s("call"));
                    o.put("f", self.op(body, func));
                    o.put("xs", J::arr(args.iter().map(|a| self.op(body, &a.node)).collect()));
                    o.put("d", self.place(body, *destination));
                    o.put("dt", self.t(destination.ty(&body.local_decls, tcx).ty));
                    if let Some(t) = target {
                        o.put("t", J::n(t.as_usize() as i128));
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.put("k", J::s("assert"));
                    o.put("x", self.op(body, cond));
                    o.put("e", J::b(*expected));
                    let (m, ops): (String, Vec<&Operand>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    o.put("msg", J::s(m));
                    o.put("ops", J::arr(ops.into_iter().map(|x| self.op(body, x)).collect()));
                    o.put("t", J::n(target.as_usize() as i128));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.put("k", J::s("goto"));
                    o.put("t", J::n(real_target.as_usize() as i128));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.put("k", J::s("goto"));
                    o.put("t", J::n(real_target.as_usize() as i128));
                }
                _ => {
                    o.put("k", J::s("?"));
                }
            }
            b.put("t", o);
            blocks.push(b);
        }
        o.put("bbs", J::arr(blocks));
        o
    }
}

fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut root = J::obj();
    root.put("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string()));
    let types = std::cell::RefCell::new(rustc_data_structures::fx::FxIndexMap::default());
    let mut bodies = vec![];
    let mut errs = vec![];
    let cx0 = Cx { tcx, env: TypingEnv::fully_monomorphized(), types };
    let mut cx = cx0;
    for ldid in tcx.hir_body_owners() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                cx.env = TypingEnv::post_analysis(tcx, did);
                let typeck = tcx.typeck(ldid);
                if typeck.tainted_by_errors.is_some() {
                    let mut o = J::obj();
                    o.put("id", J::s(dpath(tcx, did)));
                    o.put("path", J::s(path(tcx, did)));
                    o.put("span", span_j(tcx, tcx.def_span(did)));
                    errs.push(o);
                    continue;
                }
                let b = tcx.optimized_mir(did);
                bodies.push(cx.body(dpath(tcx, did), did, b));
                for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                    bodies.push(cx.body(format!("{}::promoted[{}]", dpath(tcx, did), i.as_usize()), did, p));
                }
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                let typeck = tcx.typeck(ldid);
                if typeck.tainted_by_errors.is_some() {
                    continue;
                }
                cx.env = TypingEnv::post_analysis(tcx, did);
                let b = tcx.mir_for_ctfe(did);
                bodies.push(cx.body(dpath(tcx, did), did, b));
                for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                    bodies.push(cx.body(format!("{}::promoted[{}]", dpath(tcx, did), i.as_usize()), did, p));
                }
            }
            _ => {}
        }
    }
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut statics = vec![];
    for ldid in tcx.hir_crate_items(()).definitions() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let d = tcx.adt_def(did);
                let mut o = J::obj();
                o.put("path", J::s(path(tcx, did)));
                o.put("name", J::s(tcx.item_name(did).to_string()));
                o.put("span", span_j(tcx, tcx.def_span(did)));
                o.put("kind", J::s(format!("{:?}", tcx.def_kind(did))));
                o.put("repr_c", J::b(d.repr().c()));
                let whole = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, did);
                let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                let mut has = |t: Option<DefId>| match t {
                    Some(t) => J::b(infcx.type_implements_trait(t, [whole], penv).must_apply_modulo_regions()),
                    None => J::s("?"),
                };
                o.put("send", has(tcx.get_diagnostic_item(rustc_span::sym::Send)));
                o.put("sync", has(tcx.lang_items().sync_trait()));
                o.put("attrs", attrs_j(tcx, ldid));
                let vs = d
                    .variants()
                    .iter_enumerated()
                    .map(|(vi, v)| {
                        let mut vo = J::obj();
                        vo.put("name", J::s(v.name.to_string()));
                        if d.is_enum() {
                            vo.put("discr", J::n(d.discriminant_for_variant(tcx, vi).val as i128));
                        }
                        if let Some(l) = v.def_id.as_local() {
                            if d.is_enum() {
                                vo.put("attrs", attrs_j(tcx, l));
                            }
                        }
                        vo.put(
                            "fields",
                            J::arr(
                                v.fields
                                    .iter()
                                    .map(|f| {
                                        let mut fo = J::obj();
                                        fo.put("name", J::s(f.name.to_string()));
                                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                        fo.put("ty", J::s(tystr(ft)));
                                        fo.put("tj", cx.t(ft));
                                        fo.put("pub", J::b(f.vis.is_public()));
                                        if let Some(l) = f.did.as_local() {
                                            fo.put("attrs", attrs_j(tcx, l));
                                        }
                                        fo
                                    })
                                    .collect(),
                            ),
                        );
                        vo
                    })
                    .collect();
                o.put("variants", J::arr(vs));
                adts.push(o);
            }
            DefKind::Impl { .. } => {
                let mut o = J::obj();
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                o.put("self", J::s(tystr(st)));
                o.put("selfj", cx.t(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    o.put("trait", J::s(path(tcx, tr.skip_binder().def_id)));
                    o.put("unsafe", J::b(!tcx.trait_def(tr.skip_binder().def_id).safety.is_safe()));
                    o.put("trait_full", J::s(with_no_trimmed_paths!(tr.skip_binder().to_string())));
                }
                o.put("derived", J::b(tcx.is_builtin_derived(did)));
                o.put("span", span_j(tcx, tcx.def_span(did)));
                o.put(
                    "items",
                    J::arr(
                        tcx.associated_item_def_ids(did)
                            .iter()
                            .map(|d| {
                                let mut io = J::obj();
                                io.put("name", J::s(tcx.opt_item_name(*d).map(|s| s.to_string()).unwrap_or_default()));
                                io.put("id", J::s(dpath(tcx, *d)));
                                io
                            })
                            .collect(),
                    ),
                );
                impls.push(o);
            }
            DefKind::Trait => {
                let mut o = J::obj();
                o.put("path", J::s(path(tcx, did)));
                o.put(
                    "items",
                    J::arr(
                        tcx.associated_item_def_ids(did)
                            .iter()
                            .map(|d| {
                                let mut io = J::obj();
                                io.put("name", J::s(tcx.opt_item_name(*d).map(|s| s.to_string()).unwrap_or_default()));
                                io.put("id", J::s(dpath(tcx, *d)));
                                io.put("default", J::b(tcx.defaultness(*d).has_value()));
                                io
                            })
                            .collect(),
                    ),
                );
                o.put("supers", J::arr(
                    tcx.explicit_super_clauses_of(did).iter_identity_copied()
                        .map(|c| J::s(with_no_trimmed_paths!(format!("{:?}", c.skip_norm_wip().0)))).collect()));
                traits.push(o);
            }
            DefKind::Static { mutability, .. } => {
                let mut o = J::obj();
                o.put("path", J::s(path(tcx, did)));
                o.put("ty", J::s(tystr(tcx.type_of(did).instantiate_identity().skip_norm_wip())));
                o.put("mut", J::b(mutability.is_mut()));
                o.put("span", span_j(tcx, tcx.def_span(did)));
                statics.push(o);
            }
            _ => {}
        }
    }
    let mut tys = vec![];
    let map = cx.types.borrow();
    for (t, _) in map.iter() {
        let mut o = ty_j(tcx, *t);
        o.put("s", J::s(tystr(*t)));
        tys.push(o);
    }
    root.put("types", J::arr(tys));
    root.put("bodies", J::arr(bodies));
    root.put("errors", J::arr(errs));
    root.put("adts", J::arr(adts));
    root.put("impls", J::arr(impls));
    root.put("traits", J::arr(traits));
    root.put("statics", J::arr(statics));
    let files: Vec<J> = tcx
        .sess
        .source_map()
        .files()
        .iter()
        .filter_map(|f| match &f.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| J::s(p.display().to_string())),
            _ => None,
        })
        .filter(|j| matches!(j, J::Str(s) if s.starts_with("/repo/")))
        .collect();
    root.put("files", J::arr(files));
    root
}

fn attrs_j(tcx: TyCtxt<'_>, l: LocalDefId) -> J {
    let hid = tcx.local_def_id_to_hir_id(l);
    let sm = tcx.sess.source_map();
    J::arr(
        tcx.hir_attrs(hid)
            .iter()
            .filter_map(|a| match a {
                rustc_attr_ir::Attribute::DeriveHelper(i) | rustc_attr_ir::Attribute::Tool(i) => sm.span_to_snippet(i.span).ok().map(J::s),
                _ => None,
            })
            .collect(),
    )
}
