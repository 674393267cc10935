//! Dumps, as JSON, the MIR of every function of the crate under verification together with the MIR of the
//! functions of its dependencies and of the standard library which it calls (instantiated and normalized in
//! the typing environment of the caller). Used as RUSTC_WORKSPACE_WRAPPER. It only reads the compiler's data
//! structures: nothing is dropped from a body except unwind edges (kept as a flag) and debug info.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;

#[derive(Clone)]
enum J { S(String), N(i128), B(bool), Null, A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    fn s(x: impl Into<String>) -> J { J::S(x.into()) }
    fn n(x: usize) -> J { J::N(x as i128) }
    fn write(&self, o: &mut String) {
        match self {
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::N(n) => { let _ = write!(o, "{n}"); }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{k}\":");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

/// Functions whose real MIR is dumped, so that the verifier may execute them instead of assuming a contract.
const INLINE: &[&str] = &[
    "core::option", "core::result", "core::ops", "core::convert", "core::mem", "core::cmp", "core::clone",
    "core::bool", "core::borrow", "core::default", "core::tuple", "core::array", "core::num",
    "std::option", "std::result", "std::ops", "std::convert", "std::mem", "std::cmp", "std::clone",
    "single_use_seals", "ultrasonic", "seals", "bp", "bc", "amplify", "amplify_num", "zkaluvm", "commit_verify",
];
/// ... except these: they are only ever used through a contract.
const STOP: &[&str] = &["ultrasonic::codex::{impl#4}::verify", "commit_verify::merkle", "commit_verify::mpc",
    "commit_verify::id::{impl#2}::commit_id", "core::ops::range", "core::num::flt2dec", "core::num::bignum", "core::num::fmt",
    "core::ops::async_function", "core::ops::coroutine"];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    keys: HashMap<(DefId, Instance<'tcx>), usize>,
    todo: Vec<(usize, DefId, Instance<'tcx>)>,
    promoted: HashMap<(usize, usize), J>,
    cur_key: usize,
    root: DefId,
    env: TypingEnv<'tcx>,
    cur_inst: Instance<'tcx>,
    consts: Vec<DefId>,
}

fn full_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    // crate name :: path as in the definition (not the re-exported one)
    let krate = tcx.crate_name(d.krate);
    let p = tcx.def_path(d).to_string_no_crate_verbose();
    format!("{krate}{p}")
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J { J::n(self.tyi(t)) }

    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        let t = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let name = format!("{t}");
        let mut o: Vec<(&'static str, J)> = vec![("name", J::s(name))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(x) => { o.push(("k", J::s("int"))); o.push(("w", J::N(x.bit_width().unwrap_or(64) as i128))); }
            ty::Uint(x) => { o.push(("k", J::s("uint"))); o.push(("w", J::N(x.bit_width().unwrap_or(64) as i128))); }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Ref(_, x, m) => {
                o.push(("k", J::s("ref"))); o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*x); o.push(("ty", x));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", J::s("ptr"))); o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*x); o.push(("ty", x));
            }
            ty::Tuple(xs) => {
                o.push(("k", J::s("tuple")));
                let v = xs.iter().map(|x| self.ty(x)).collect(); o.push(("tys", J::A(v)));
            }
            ty::Array(x, n) => {
                o.push(("k", J::s("array")));
                let x = self.ty(*x); o.push(("ty", x));
                let n = n.try_to_target_usize(tcx).map(|n| J::N(n as i128)).unwrap_or(J::Null);
                o.push(("len", n));
            }
            ty::Slice(x) => { o.push(("k", J::s("slice"))); let x = self.ty(*x); o.push(("ty", x)); }
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(full_path(tcx, def.did()))));
                o.push(("adt", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
                let ca: Vec<J> = args.consts().map(|c| c.try_to_target_usize(tcx).map(|n| J::N(n as i128)).unwrap_or(J::Null)).collect();
                o.push(("consts", J::A(ca)));
                let p = full_path(tcx, def.did());
                let stop = p.starts_with("alloc::") || p.starts_with("core::iter") || p.starts_with("core::slice")
                    || p.starts_with("core::fmt") || p.starts_with("std::") || def.is_union();
                let stop = stop && !p.ends_with("::Entry");
                if !stop {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let fs: Vec<J> = v.fields.iter().map(|f| {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or(ft.skip_norm_wip());
                            let x = self.ty(ft);
                            J::O(vec![("name", J::s(f.name.as_str())), ("ty", x)])
                        }).collect();
                        let d = if def.is_enum() { J::N(def.discriminant_for_variant(tcx, vi).val as i128) } else { J::N(0) };
                        vs.push(J::O(vec![("name", J::s(v.name.as_str())), ("discr", d), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                let inst = Instance::new_raw(*d, args);
                let key = self.key(inst);
                o.push(("body", key));
                o.push(("kind", J::s(format!("{:?}", args.as_closure().kind()))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("upvars", J::A(ups)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let c = self.callee(*d, args.skip_binder());
                o.push(("callee", c));
            }
            ty::Param(p) => { o.push(("k", J::s("param"))); o.push(("pname", J::s(p.name.as_str()))); }
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Alias(..) => { o.push(("k", J::s("alias"))); }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[i] = J::O(o);
        i
    }

    fn inlinable(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let d = match inst.def {
            ty::InstanceKind::Item(d) => d,
            _ => return false,
        };
        if d.is_local() { return matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && tcx.is_mir_available(d); }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { return false; }
        if !tcx.is_mir_available(d) { return false; }
        if tcx.intrinsic(d).is_some() { return false; }
        let p = full_path(tcx, d);
        INLINE.iter().any(|m| p == *m || p.starts_with(&format!("{m}::"))) && !STOP.iter().any(|m| p.starts_with(m))
    }

    fn key(&mut self, inst: Instance<'tcx>) -> J {
        if !self.inlinable(inst) { return J::Null; }
        let k = (self.root, inst);
        if let Some(i) = self.keys.get(&k) { return J::n(*i); }
        let i = self.keys.len();
        self.keys.insert(k, i);
        self.todo.push((i, self.root, inst));
        J::n(i)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let path = full_path(tcx, d);
        let pretty = tcx.def_path_str_with_args(d, args);
        let mut o = vec![("path", J::s(path)), ("pretty", J::s(pretty)), ("name", J::s(tcx.item_name(d).as_str()))];
        let tys: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(tys)));
        let tr = tcx.trait_of_assoc(d);
        o.push(("trait", tr.map(|t| J::s(full_path(tcx, t))).unwrap_or(J::Null)));
        let imp = tcx.impl_of_assoc(d);
        if let Some(im) = imp {
            let st = tcx.type_of(im).instantiate_identity();
            o.push(("impl_self", J::s(format!("{st:?}"))));
            let adt = match st.skip_norm_wip().kind() {
                ty::Adt(a, _) => full_path(tcx, a.did()),
                ty::Slice(_) => "slice".to_string(),
                ty::Array(..) => "array".to_string(),
                ty::Param(p) => format!("param:{}", p.name),
                other => format!("{other:?}"),
            };
            o.push(("impl_adt", J::s(adt)));
        }
        if let DefKind::Ctor(of, kind) = tcx.def_kind(d) {
            o.push(("ctor", J::s(format!("{of:?}/{kind:?}"))));
            let parent = tcx.parent(d);
            if tcx.def_kind(parent) == DefKind::Variant {
                let adt = tcx.adt_def(tcx.parent(parent));
                let vi = adt.variant_index_with_id(parent);
                o.push(("variant", J::n(vi.as_usize())));
            } else {
                o.push(("variant", J::n(0)));
            }
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
            let out = self.ty(sig.output().skip_binder());
            o.push(("output", out));
        } else {
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
            let out = tcx.instantiate_bound_regions_with_erased(sig.output());
            let out = self.ty(out);
            o.push(("output", out));
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => {
                o.push(("resolved", J::s(full_path(tcx, inst.def_id()))));
                o.push(("rkind", J::s(match inst.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim", _ => "shim" })));
                if let Some(im) = tcx.impl_of_assoc(inst.def_id()) {
                    let st = tcx.type_of(im).instantiate_identity();
                    o.push(("rimpl_self", J::s(format!("{st:?}"))));
                }
                let ra: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                o.push(("rargs", J::A(ra)));
                let k = self.key(inst);
                o.push(("body", k));
            }
            _ => {
                o.push(("resolved", J::Null));
                // a provided method of a trait whose only implementation is a blanket one which does not override it
                if let Some(inst) = self.only_provided(d, args) {
                    let k = self.key(inst);
                    o.push(("provided", J::B(true)));
                    o.push(("body", k));
                } else { o.push(("body", J::Null)); }
            }
        }
        J::O(o)
    }

    fn only_provided(&self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(d)?;
        if !tr.is_local() || !tcx.defaultness(d).has_value() { return None; }
        let impls = tcx.trait_impls_of(tr);
        if impls.blanket_impls().len() != 1 || !impls.non_blanket_impls().is_empty() { return None; }
        if tcx.impl_item_implementor_ids(impls.blanket_impls()[0]).contains_key(&d) { return None; }
        Some(Instance::new_raw(d, args))
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut pj = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            pt = pt.projection_ty(self.tcx, e);
            pj.push(match e {
                ProjectionElem::Deref => J::A(vec![J::s("deref")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![J::s("field"), J::n(f.as_usize()), t]) }
                ProjectionElem::Index(l) => J::A(vec![J::s("index"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec![J::s("constindex"), J::N(offset as i128), J::N(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![J::s("subslice"), J::N(from as i128), J::N(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("downcast"), J::n(v.as_usize())]),
                other => J::A(vec![J::s("other"), J::s(format!("{other:?}"))]),
            });
        }
        let t = self.ty(pt.ty);
        J::O(vec![("l", J::n(p.local.as_usize())), ("p", J::A(pj)), ("ty", t)])
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("k", J::s("const")), ("ty", tj)];
        let dbg = format!("{}", c.const_);
        if let ty::FnDef(d, args) = t.kind() {
            let cj = self.callee(*d, args.skip_binder());
            o.push(("c", J::s("fn"))); o.push(("callee", cj));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("c", J::s("promoted"))); 
                let inst = Instance::new_raw(u.def, u.args);
                let pi = p.as_usize();
                let id = self.promoted_body(inst, pi);
                o.push(("body", id));
                return J::O(o);
            }
        }
        // a constant which is not a scalar or a string: its initializer is dumped as well
        if let Const::Unevaluated(u, _) = c.const_ {
            if matches!(t.kind(), ty::Ref(_, x, _) if !x.is_str()) || matches!(t.kind(), ty::Array(..)) {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, u.def, u.args) {
                    let b = self.const_body(inst);
                    o.push(("init", b));
                }
            }
        }
        match c.const_.eval(tcx, self.env, c.span) {
            Ok(v) => match v {
                ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                    o.push(("c", J::s("int")));
                    o.push(("v", J::S(if matches!(t.kind(), ty::Int(_)) { i.to_int(i.size()).to_string() } else { i.to_bits_unchecked().to_string() })));
                }
                ConstValue::ZeroSized => o.push(("c", J::s("zst"))),
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("c", J::s("bytes")));
                        o.push(("v", J::A(b.iter().map(|x| J::N(*x as i128)).collect())));
                        o.push(("s", J::s(String::from_utf8_lossy(b))));
                    } else { o.push(("c", J::s("opaque"))); }
                }
                ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                    o.push(("c", J::s("opaque")));
                    if let Some(mir::interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                        let al = a.inner();
                        if al.provenance().ptrs().is_empty() {
                            let b = al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len());
                            o.push(("mem", J::A(b.iter().map(|x| J::N(*x as i128)).collect())));
                        }
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    o.push(("c", J::s("opaque")));
                    if let Some(mir::interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                        let al = a.inner();
                        if al.provenance().ptrs().is_empty() && offset.bytes() == 0 {
                            let b = al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len());
                            o.push(("mem", J::A(b.iter().map(|x| J::N(*x as i128)).collect())));
                        }
                    }
                }
            },
            Err(_) => o.push(("c", J::s("opaque"))),
        }
        o.push(("dbg", J::s(dbg)));
        J::O(o)
    }

    fn const_body(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        if !d.is_local() || !matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) { return J::Null; }
        if self.consts.contains(&d) { return J::Null; }
        let k = 1_000_000 + self.promoted.len();
        let body = tcx.mir_for_ctfe(d).clone();
        let body = match tcx.try_instantiate_and_normalize_erasing_regions(inst.args, self.env, EarlyBinder::bind(tcx, body)) {
            Ok(b) => b,
            Err(_) => return J::Null,
        };
        self.promoted.insert((k, 0), J::Null);
        self.consts.push(d);
        let saved = self.cur_inst;
        self.cur_inst = inst;
        let j = self.body(&body, k, full_path(tcx, d));
        self.cur_inst = saved;
        self.consts.pop();
        self.promoted.insert((k, 0), j);
        J::n(k)
    }

    fn promoted_body(&mut self, inst: Instance<'tcx>, pi: usize) -> J {
        let k = 1_000_000 + self.promoted.len();
        let tcx = self.tcx;
        let body = tcx.promoted_mir(inst.def_id())[Promoted::from_usize(pi)].clone();
        let body = match tcx.try_instantiate_and_normalize_erasing_regions(inst.args, self.env, EarlyBinder::bind(tcx, body)) {
            Ok(b) => b,
            Err(_) => return J::Null,
        };
        self.promoted.insert((k, pi), J::Null);
        let saved = self.cur_inst;
        self.cur_inst = inst;
        let j = self.body(&body, k, format!("promoted[{pi}] of {}", full_path(tcx, inst.def_id())));
        self.cur_inst = saved;
        self.promoted.insert((k, pi), j);
        J::n(k)
    }

    fn operand(&mut self, op: &Operand<'tcx>, b: &Body<'tcx>) -> J {
        match op {
            Operand::Copy(p) => { let p = self.place(p, b); J::O(vec![("k", J::s("copy")), ("p", p)]) }
            Operand::Move(p) => { let p = self.place(p, b); J::O(vec![("k", J::s("move")), ("p", p)]) }
            Operand::Constant(c) => self.konst(c),
            other => { J::O(vec![("k", J::s("otherop")), ("dbg", J::s(format!("{other:?}")))]) }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => { let x = self.operand(op, b); J::O(vec![("k", J::s("use")), ("op", x)]) }
            Rvalue::Repeat(op, n) => {
                let x = self.operand(op, b);
                let n = n.try_to_target_usize(self.tcx).map(|n| J::N(n as i128)).unwrap_or(J::Null);
                J::O(vec![("k", J::s("repeat")), ("op", x), ("n", n)])
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(p, b);
                let m = match k { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", BorrowKind::Fake(_) => "fake" };
                J::O(vec![("k", J::s("ref")), ("bk", J::s(m)), ("p", p)])
            }
            Rvalue::RawPtr(k, p) => { let p = self.place(p, b); J::O(vec![("k", J::s("rawptr")), ("bk", J::s(format!("{k:?}"))), ("p", p)]) }
            Rvalue::Cast(k, op, t) => {
                let x = self.operand(op, b); let t = self.ty(*t);
                J::O(vec![("k", J::s("cast")), ("ck", J::s(format!("{k:?}"))), ("op", x), ("ty", t)])
            }
            Rvalue::BinaryOp(bo, ops) => {
                let (x, y) = (self.operand(&ops.0, b), self.operand(&ops.1, b));
                J::O(vec![("k", J::s("bin")), ("bo", J::s(format!("{bo:?}"))), ("a", x), ("b", y)])
            }
            Rvalue::UnaryOp(u, op) => { let x = self.operand(op, b); J::O(vec![("k", J::s("un")), ("uo", J::s(format!("{u:?}"))), ("a", x)]) }
            Rvalue::Discriminant(p) => { let p = self.place(p, b); J::O(vec![("k", J::s("discr")), ("p", p)]) }
            Rvalue::Aggregate(k, ops) => {
                let xs: Vec<J> = ops.iter().map(|x| self.operand(x, b)).collect();
                let mut o = vec![("k", J::s("agg")), ("ops", J::A(xs))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", J::s("array"))),
                    AggregateKind::Tuple => o.push(("ak", J::s("tuple"))),
                    AggregateKind::Adt(_, v, _, _, f) => {
                        o.push(("ak", J::s("adt"))); o.push(("v", J::n(v.as_usize())));
                        if f.is_some() { o.push(("union", J::B(true))); }
                    }
                    AggregateKind::Closure(..) => o.push(("ak", J::s("closure"))),
                    other => o.push(("ak", J::s(format!("{other:?}")))),
                }
                let t = r.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                o.push(("ty", t));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p, b); J::O(vec![("k", J::s("use")), ("op", J::O(vec![("k", J::s("copy")), ("p", p)]))]) }
            other => J::O(vec![("k", J::s("otherrv")), ("dbg", J::s(format!("{other:?}")))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, key: usize, path: String) -> J {
        let tcx = self.tcx;
        let saved = self.cur_key;
        self.cur_key = key;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
            }
        }
        let locals: Vec<J> = b.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            J::O(vec![("ty", t), ("name", names.get(&l.as_usize()).map(|s| J::s(s.clone())).unwrap_or(J::Null))])
        }).collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::Null); continue; }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0, b);
                        let r = self.rvalue(&a.1, b);
                        let line = tcx.sess.source_map().lookup_char_pos(s.source_info.span.lo()).line;
                        st.push(J::O(vec![("k", J::s("assign")), ("p", p), ("r", r), ("line", J::n(line))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        st.push(J::O(vec![("k", J::s("setdiscr")), ("p", p), ("v", J::n(variant_index.as_usize()))]));
                    }
                    StatementKind::Intrinsic(i) => {
                        let mut o = vec![("k", J::s("intrinsic")), ("dbg", J::s(format!("{i:?}")))];
                        if let NonDivergingIntrinsic::Assume(op) = &**i {
                            let x = self.operand(op, b);
                            o.push(("assume", x));
                        }
                        st.push(J::O(o));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = tcx.sess.source_map().lookup_char_pos(t.source_info.span.lo()).line;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", J::s("goto")), ("t", J::n(target.as_usize()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, b);
                    let vs: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![J::S(v.to_string()), J::n(t.as_usize())])).collect();
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    J::O(vec![("k", J::s("switch")), ("d", d), ("dty", dt), ("vs", J::A(vs)), ("o", J::n(targets.otherwise().as_usize()))])
                }
                TerminatorKind::Return => J::O(vec![("k", J::s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", J::s("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", J::s("resume"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, b);
                    J::O(vec![("k", J::s("drop")), ("p", p), ("t", J::n(target.as_usize()))])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, b);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, b)).collect();
                    let d = self.place(destination, b);
                    J::O(vec![("k", J::s("call")), ("f", f), ("args", J::A(a)), ("dest", d),
                        ("t", target.map(|t| J::n(t.as_usize())).unwrap_or(J::Null)), ("line", J::n(line))])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, b);
                    J::O(vec![("k", J::s("assert")), ("c", c), ("e", J::B(*expected)), ("msg", J::s(format!("{msg:?}"))), ("t", J::n(target.as_usize())), ("line", J::n(line))])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", J::s("goto")), ("t", J::n(real_target.as_usize()))]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", J::s("goto")), ("t", J::n(real_target.as_usize()))]),
                other => J::O(vec![("k", J::s("otherterm")), ("dbg", J::s(format!("{other:?}")))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj)]));
        }
        let span = tcx.sess.source_map().span_to_diagnostic_string(b.span);
        self.cur_key = saved;
        J::O(vec![("id", J::n(key)), ("path", J::s(path)), ("span", J::s(span)), ("argc", J::n(b.arg_count)),
            ("spread", b.spread_arg.map(|l| J::n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)), ("blocks", J::A(blocks))])
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if name != std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "rgbcore".into()) { return Compilation::Continue; }
        if let Ok(p) = std::env::var("MIRDUMP_TEXT") { std::fs::write(p, texts(tcx)).expect("cannot write the texts"); }
        if out.is_empty() { return Compilation::Stop; }
        let mut roots: Vec<DefId> = vec![];
        for d in tcx.mir_keys(()) {
            let d = d.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { roots.push(d); }
        }
        roots.sort_by_key(|d| full_path(tcx, *d));
        let first = roots[0];
        let mut cx = Cx {
            tcx, types: vec![], tymap: HashMap::new(), keys: HashMap::new(), todo: vec![], promoted: HashMap::new(),
            cur_key: 0, root: first, env: TypingEnv::post_analysis(tcx, first),
            cur_inst: Instance::new_raw(first, ty::GenericArgs::identity_for_item(tcx, first)),
            consts: vec![],
        };
        let mut rootj = vec![];
        for r in &roots {
            cx.root = *r;
            cx.env = TypingEnv::post_analysis(tcx, *r);
            cx.tymap.clear();
            let inst = Instance::new_raw(*r, ty::GenericArgs::identity_for_item(tcx, *r));
            let k = cx.key(inst);
            let mut o = vec![("path", J::s(full_path(tcx, *r))), ("body", k), ("name", J::s(tcx.item_name(*r).as_str()))];
            if let Some(im) = tcx.impl_of_assoc(*r) {
                o.push(("impl_self", J::s(format!("{}", tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    o.push(("impl_trait", J::s(full_path(tcx, tr.instantiate_identity().skip_norm_wip().def_id))));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(*r) { o.push(("in_trait", J::s(full_path(tcx, tr)))); }
            rootj.push(J::O(o));
        }
        // constants of implementations of traits
        let mut constj = vec![];
        let mut consts: Vec<DefId> = tcx.mir_keys(()).iter().map(|d| d.to_def_id())
            .filter(|d| matches!(tcx.def_kind(*d), DefKind::AssocConst { .. }) && tcx.impl_of_assoc(*d).is_some()).collect();
        consts.sort_by_key(|d| full_path(tcx, *d));
        for r in &consts {
            let im = tcx.impl_of_assoc(*r).unwrap();
            let Some(tr) = tcx.impl_opt_trait_ref(im) else { continue };
            cx.root = *r;
            cx.env = TypingEnv::post_analysis(tcx, *r);
            cx.tymap.clear();
            let inst = Instance::new_raw(*r, ty::GenericArgs::identity_for_item(tcx, *r));
            let k = cx.const_body(inst);
            constj.push(J::O(vec![("path", J::s(full_path(tcx, *r))), ("body", k), ("name", J::s(tcx.item_name(*r).as_str())),
                ("impl_self", J::s(format!("{}", tcx.type_of(im).instantiate_identity().skip_norm_wip()))),
                ("impl_trait", J::s(full_path(tcx, tr.instantiate_identity().skip_norm_wip().def_id)))]));
        }
        let mut fns = vec![];
        let mut last_root = None;
        // process root by root, so that the type table is shared within one root
        loop {
            // prefer the work of the current root
            let pos = cx.todo.iter().rposition(|t| Some(t.1) == last_root).or(if cx.todo.is_empty() { None } else { Some(0) });
            let Some(pos) = pos else { break };
            let (k, root, inst) = cx.todo.remove(pos);
            if last_root != Some(root) { cx.tymap.clear(); last_root = Some(root); }
            cx.root = root;
            cx.env = TypingEnv::post_analysis(tcx, root);
            cx.cur_inst = inst;
            cx.cur_key = k;
            let body = tcx.instance_mir(inst.def).clone();
            let body = match tcx.try_instantiate_and_normalize_erasing_regions(inst.args, cx.env, EarlyBinder::bind(tcx, body)) {
                Ok(b) => b,
                Err(_) => continue,
            };
            let path = full_path(tcx, inst.def_id());
            let local = inst.def_id().is_local();
            let mut j = cx.body(&body, k, path);
            if let J::O(o) = &mut j {
                o.push(("root", J::s(full_path(tcx, root))));
                o.push(("local", J::B(local)));
            }
            fns.push(j);
        }
        let proms: Vec<J> = cx.promoted.values().cloned().collect();
        fns.extend(proms);
        let j = J::O(vec![("crate", J::s(name)), ("roots", J::A(rootj)), ("consts", J::A(constj)), ("fns", J::A(fns)), ("types", J::A(cx.types))]);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&out, s).expect("cannot write the dump");
        Compilation::Continue
    }
}

/// The MIR of each function and constant of the crate as the compiler prints it: what differs between two
/// configurations of the crate is told by it.
fn texts(tcx: TyCtxt<'_>) -> String {
    let mut all = vec![];
    for d in tcx.mir_keys(()) {
        let d = d.to_def_id();
        let body = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.instance_mir(ty::InstanceKind::Item(d)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => tcx.mir_for_ctfe(d),
            _ => continue,
        };
        let mut w = Vec::new();
        mir::pretty::MirWriter::new(tcx).write_mir_fn(body, &mut w).expect("text");
        for b in tcx.promoted_mir(d).iter() { mir::pretty::MirWriter::new(tcx).write_mir_fn(b, &mut w).expect("text"); }
        all.push((format!("{}", tcx.def_path(d).to_string_no_crate_verbose()), String::from_utf8_lossy(&w).into_owned()));
    }
    all.sort();
    let mut o = String::new();
    J::A(all.into_iter().map(|(p, t)| J::A(vec![J::s(p), J::s(t)])).collect()).write(&mut o);
    o
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a RUSTC_WORKSPACE_WRAPPER, the first argument is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    // for compiling the crate once more, in other configurations
    if let Ok(p) = std::env::var("MIRDUMP_ARGS") {
        let n = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1));
        if n.is_some_and(|n| *n == std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "rgbcore".into())) {
            let mut o = String::new();
            let env = std::env::vars().filter(|(k, _)| k.starts_with("CARGO") || k == "OUT_DIR").map(|(k, v)| J::A(vec![J::S(k), J::S(v)]));
            J::O(vec![("args", J::A(args.iter().map(|a| J::s(a.clone())).collect())), ("env", J::A(env.collect())),
                ("cwd", J::s(std::env::current_dir().map(|d| d.display().to_string()).unwrap_or_default()))]).write(&mut o);
            std::fs::write(p, o).expect("cannot write the arguments");
        }
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
