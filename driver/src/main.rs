//! mirdump: a rustc driver that writes the monomorphic MIR of a crate (and of the generic library functions it
//! instantiates) as JSON. Runs as RUSTC_WORKSPACE_WRAPPER; the code is only type-checked, never executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::{s, J};
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, PlaceElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashMap<Instance<'tcx>, String>,
    tys: BTreeMap<String, J>,
    tyseen: HashSet<Ty<'tcx>>,
    dynimpls: BTreeMap<String, Vec<J>>,
    vt: HashSet<(DefId, Ty<'tcx>)>,
}

fn pretty<T>(f: impl FnOnce() -> T) -> T {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(f())))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        pretty(|| self.tcx.def_path_str(d))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        pretty(|| format!("{}", t))
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let name = self.tystr(t);
        if !self.tyseen.insert(t) {
            return name;
        }
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("adt", s(self.path(def.did()))));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let a: Vec<J> = args.types().map(|x| s(self.ty(x))).collect();
                o.push(("args", J::A(a)));
                o.push(("local", J::B(def.did().is_local())));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        let d = def.discriminant_for_variant(self.tcx, vi);
                        J::U(d.val)
                    } else {
                        J::U(0)
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args));
                        fs.push(J::A(vec![s(f.name.as_str()), s(self.tystr(ft))]));
                        if def.did().is_local() {
                            self.ty(ft);
                        }
                    }
                    vs.push(J::O(vec![("name", s(v.name.as_str())), ("discr", discr), ("fields", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
                if def.did().is_local() {
                    if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
                        o.push(("size", J::U(l.size.bytes() as u128)));
                        o.push(("align", J::U(l.align.abi.bytes() as u128)));
                        if def.is_struct() {
                            let n = def.non_enum_variant().fields.len();
                            let offs = (0..n).map(|i| J::U(l.fields.offset(i).bytes() as u128)).collect();
                            o.push(("offsets", J::A(offs)));
                        }
                    }
                    let repr = def.repr();
                    o.push(("repr", s(format!("{:?}", repr))));
                }
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("inner", s(self.ty(*inner))));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("inner", s(self.ty(*inner))));
            }
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", J::U(i.bit_width().unwrap_or(64) as u128)));
            }
            ty::Uint(i) => {
                o.push(("k", s("uint")));
                o.push(("bits", J::U(i.bit_width().unwrap_or(64) as u128)));
            }
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                o.push(("inner", s(self.ty(*x))));
            }
            ty::Array(x, n) => {
                o.push(("k", s("array")));
                o.push(("inner", s(self.ty(*x))));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("len", J::U(n as u128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| s(self.ty(x))).collect();
                o.push(("args", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.path(*d))));
                let a: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| s(self.ty(x))).collect();
                o.push(("upvars", J::A(a)));
                let names: Vec<J> = self
                    .tcx
                    .closure_captures_opt(*d)
                    .into_iter()
                    .map(|x| s(x))
                    .collect();
                o.push(("names", J::A(names)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("def", s(self.path(*d))));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => {
                o.push(("k", s("dyn")));
                if let ty::Dynamic(preds, ..) = t.kind() {
                    if let Some(p) = preds.principal_def_id() {
                        o.push(("trait", s(self.path(p))));
                    }
                }
            }
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("other"))),
        }
        self.tys.insert(name.clone(), J::O(o));
        name
    }

    fn inst_key(&mut self, i: Instance<'tcx>) -> String {
        if let Some(k) = self.seen.get(&i) {
            return k.clone();
        }
        let base = self.path(i.def_id());
        let args = self.tcx.erase_and_anonymize_regions(i.args);
        let targs: Vec<String> = args
            .iter()
            .filter_map(|a| {
                if let Some(t) = a.as_type() {
                    Some(self.tystr(t))
                } else if let Some(c) = a.as_const() {
                    Some(pretty(|| format!("{}", c)))
                } else {
                    None
                }
            })
            .collect();
        let shim = match i.def {
            InstanceKind::Item(_) => "",
            InstanceKind::Intrinsic(_) => "",
            InstanceKind::Virtual(..) => "#virtual",
            _ => "#shim",
        };
        let key = if targs.is_empty() {
            format!("{}{}", base, shim)
        } else {
            format!("{}<{}>{}", base, targs.join(", "), shim)
        };
        self.seen.insert(i, key.clone());
        self.queue.push_back(i);
        key
    }

    fn local_name(&self, _b: &mir::Body<'tcx>, l: mir::Local) -> J {
        J::U(l.as_usize() as u128)
    }

    fn place(&mut self, b: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> J {
        let mut out = vec![self.local_name(b, p.local)];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let e: PlaceElem<'tcx> = e;
            let j = match e {
                PlaceElem::Deref => {
                    let k = match pt.ty.kind() {
                        ty::Adt(..) => "boxderef",
                        _ => "*",
                    };
                    J::A(vec![s(k)])
                }
                PlaceElem::Field(f, fty) => {
                    let name = self.field_name(pt, f);
                    let t = self.ty(fty);
                    J::A(vec![s("."), s(name), s(t)])
                }
                PlaceElem::Index(l) => J::A(vec![s("i"), J::U(l.as_usize() as u128)]),
                PlaceElem::ConstantIndex { offset, min_length: _, from_end } => {
                    J::A(vec![s("c"), J::U(offset as u128), J::B(from_end)])
                }
                PlaceElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::U(from as u128), J::U(to as u128), J::B(from_end)])
                }
                PlaceElem::Downcast(_, vi) => {
                    let (n, d) = match pt.ty.kind() {
                        ty::Adt(def, _) => (
                            def.variant(vi).name.to_string(),
                            if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val } else { 0 },
                        ),
                        _ => (format!("{}", vi.as_usize()), vi.as_usize() as u128),
                    };
                    J::A(vec![s("v"), s(n), J::U(d)])
                }
                _ => J::A(vec![s("?")]),
            };
            out.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        out.push(s(t));
        J::A(out)
    }

    fn field_name(&self, pt: mir::PlaceTy<'tcx>, f: FieldIdx) -> String {
        match pt.ty.kind() {
            ty::Adt(def, _) => {
                let vi = pt.variant_index.unwrap_or(VariantIdx::from_usize(0));
                if def.is_enum() && pt.variant_index.is_none() {
                    return format!("{}", f.as_usize());
                }
                def.variant(vi).fields[f].name.to_string()
            }
            _ => format!("{}", f.as_usize()),
        }
    }

    fn const_value(&mut self, cv: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tn = self.ty(t);
        if depth > 6 {
            return J::A(vec![s("opaque"), s(tn)]);
        }
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                if let Some(si) = cv.try_to_scalar_int() {
                    let v = match t.kind() {
                        ty::Int(_) => J::I(si.to_int(si.size())),
                        _ => J::U(si.to_uint(si.size())),
                    };
                    return J::A(vec![s("int"), v, s(tn)]);
                }
                if let ConstValue::Indirect { alloc_id, offset } = cv {
                    if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let st = offset.bytes_usize();
                            let by = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + l.size.bytes_usize());
                            let mut v: u128 = 0;
                            for (i, x) in by.iter().enumerate() {
                                v |= (*x as u128) << (8 * i);
                            }
                            return J::A(vec![s("int"), J::U(v), s(tn)]);
                        }
                    }
                }
                J::A(vec![s("opaque"), s(tn)])
            }
            ty::FnDef(d, args) => {
                let (key, _) = self.callee(*d, args.no_bound_vars().unwrap());
                J::A(vec![s("fn"), s(key), s(self.path(*d))])
            }
            ty::Ref(_, inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(by) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::A(vec![s("str"), s(String::from_utf8_lossy(by).to_string())]);
                        }
                    }
                    ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                        if let Some(by) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            let v: Vec<J> = by.iter().map(|x| J::U(*x as u128)).collect();
                            return J::A(vec![s("bytes"), J::A(v)]);
                        }
                    }
                    _ => {}
                }
                if inner.is_sized(tcx, self.env) {
                    let sc = match cv {
                        ConstValue::Scalar(x) => Some(x),
                        ConstValue::Indirect { alloc_id, offset } => {
                            // a reference stored in memory
                            if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                a.inner()
                                    .read_scalar(
                                        &tcx,
                                        mir::interpret::alloc_range(offset, tcx.data_layout.pointer_size()),
                                        true,
                                    )
                                    .ok()
                            } else {
                                None
                            }
                        }
                        _ => None,
                    };
                    if let Some(Scalar::Ptr(p, _)) = sc {
                        let (prov, off) = p.into_raw_parts();
                        let aid = prov.alloc_id();
                        if let GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                            let j = self.const_value(ConstValue::Indirect { alloc_id: aid, offset: off }, *inner, depth + 1);
                            return J::A(vec![s("ref"), j]);
                        }
                        if let GlobalAlloc::Static(d) = tcx.global_alloc(aid) {
                            return J::A(vec![s("static"), s(self.path(d))]);
                        }
                    }
                } else if let ty::Slice(e) = inner.kind() {
                    let (aid, off, len) = match cv {
                        ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, meta),
                        _ => return J::A(vec![s("opaque"), s(tn)]),
                    };
                    let arr = Ty::new_array(tcx, *e, len);
                    let j = self.const_value(ConstValue::Indirect { alloc_id: aid, offset: off }, arr, depth + 1);
                    return J::A(vec![s("ref"), j]);
                }
                J::A(vec![s("opaque"), s(tn)])
            }
            ty::Adt(..) | ty::Array(..) | ty::Tuple(..) => {
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).unwrap_or(9999) > 4096 {
                        return J::A(vec![s("opaque"), s(tn)]);
                    }
                }
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return J::A(vec![s("opaque"), s(tn)]);
                    }
                }
                if matches!(cv, ConstValue::ZeroSized) {
                    return J::A(vec![s("zst"), s(tn)]);
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    let mut fs = vec![];
                    for (v, ft) in d.fields.iter() {
                        fs.push(self.const_value(*v, *ft, depth + 1));
                    }
                    let vi = match (t.kind(), d.variant) {
                        (ty::Adt(def, _), Some(v)) => {
                            let names: Vec<J> = def.variant(v).fields.iter().map(|f| s(f.name.as_str())).collect();
                            J::A(vec![
                                s(def.variant(v).name.as_str()),
                                if def.is_enum() {
                                    J::U(def.discriminant_for_variant(tcx, v).val)
                                } else {
                                    J::U(0)
                                },
                                J::A(names),
                            ])
                        }
                        _ => J::N,
                    };
                    return J::A(vec![s("agg"), s(tn), vi, J::A(fs)]);
                }
                J::A(vec![s("opaque"), s(tn)])
            }
            _ => {
                if matches!(cv, ConstValue::ZeroSized) {
                    return J::A(vec![s("zst"), s(tn)]);
                }
                J::A(vec![s("opaque"), s(tn)])
            }
        }
    }

    fn konst(&mut self, c: mir::Const<'tcx>, sp: rustc_span::Span) -> J {
        let t = c.ty();
        let name = match c {
            mir::Const::Unevaluated(u, _) if u.promoted.is_none() => Some(self.path(u.def)),
            _ => None,
        };
        if let ty::FnDef(d, args) = t.kind() {
            let (key, _) = self.callee(*d, args.no_bound_vars().unwrap());
            return J::A(vec![s("fn"), s(key), s(self.path(*d))]);
        }
        let v = match c.eval(self.tcx, self.env, sp) {
            Ok(cv) => self.const_value(cv, t, 0),
            Err(_) => J::A(vec![s("opaque"), s(self.tystr(t))]),
        };
        match name {
            Some(n) => J::A(vec![s("named"), s(n), v]),
            None => v,
        }
    }

    fn op(&mut self, b: &mir::Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(b, *p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(b, *p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c.const_, c.span)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::A(vec![s("int"), J::U(0), s("bool")])]),
        }
    }

    /// Resolves a callee; returns its key and a description
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> (String, J) {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let decl = self.path(d);
        let targs: Vec<J> = args.types().map(|t| s(self.ty(t))).collect();
        let mut o = vec![("decl", s(decl.clone())), ("targs", J::A(targs))];
        match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                o.push(("ctor", J::B(true)));
                return (decl, J::O(o));
            }
            _ => {}
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate(tcx, args);
            let muts: Vec<J> = sig
                .skip_norm_wip()
                .skip_binder()
                .inputs()
                .iter()
                .enumerate()
                .filter(|(_, t)| matches!(t.kind(), ty::Ref(_, _, m) | ty::RawPtr(_, m) if m.is_mut()))
                .map(|(i, _)| J::U(i as u128))
                .collect();
            if !muts.is_empty() {
                o.push(("muts", J::A(muts)));
            }
        }
        let r = Instance::try_resolve(tcx, self.env, d, args);
        if let Ok(Some(i)) = r {
            match i.def {
                InstanceKind::Virtual(..) => {
                    o.push(("virtual", J::B(true)));
                    return (decl, J::O(o));
                }
                InstanceKind::Intrinsic(_) => {
                    o.push(("intrinsic", J::B(true)));
                    return (decl, J::O(o));
                }
                _ => {}
            }
            let key = self.inst_key(i);
            o.push(("key", s(key.clone())));
            o.push(("path", s(self.path(i.def_id()))));
            o.push(("local", J::B(i.def_id().is_local())));
            return (key, J::O(o));
        }
        (decl, J::O(o))
    }

    fn rvalue(&mut self, b: &mir::Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(b, o)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| J::U(x as u128)).unwrap_or(J::N);
                J::A(vec![s("repeat"), self.op(b, o), n])
            }
            Rvalue::Ref(_, k, p) => {
                J::A(vec![s("ref"), J::B(matches!(k, mir::BorrowKind::Mut { .. })), self.place(b, *p)])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("reborrow"), J::B(m.is_mut()), self.place(b, *p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(b, *p)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, self.tcx);
                let f = self.ty(from);
                let tt = self.ty(*t);
                self.unsize(from, *t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(b, o), s(f), s(tt)])
            }
            Rvalue::BinaryOp(k, ab) => {
                let t = ab.0.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                J::A(vec![s("bin"), s(format!("{:?}", k)), self.op(b, &ab.0), self.op(b, &ab.1), s(t)])
            }
            Rvalue::UnaryOp(k, a) => {
                let t = a.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                J::A(vec![s("un"), s(format!("{:?}", k)), self.op(b, a), s(t)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(b, *p)]),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.op(b, o)).collect();
                match &**k {
                    mir::AggregateKind::Array(t) => J::A(vec![s("array"), s(self.ty(*t)), J::A(os)]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple"), J::A(os)]),
                    mir::AggregateKind::Adt(d, vi, args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let t = Ty::new_adt(self.tcx, def, args);
                        let tn = self.ty(t);
                        let v = def.variant(*vi);
                        let names: Vec<J> = match active {
                            Some(f) => vec![s(v.fields[*f].name.as_str())],
                            None => v.fields.iter().map(|f| s(f.name.as_str())).collect(),
                        };
                        let dv = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, *vi).val
                        } else {
                            0
                        };
                        J::A(vec![s("adt"), s(tn), s(v.name.as_str()), J::U(dv), J::A(names), J::A(os)])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let tn = self.ty(t);
                        let i = Instance::new_raw(*d, args);
                        let key = self.inst_key(i);
                        J::A(vec![s("closure"), s(tn), s(key), J::A(os)])
                    }
                    mir::AggregateKind::RawPtr(..) => J::A(vec![s("rawptr"), J::A(os)]),
                    _ => J::A(vec![s("other")]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(b, *p)])]),
            _ => J::A(vec![s("other")]),
        }
    }

    /// Records the methods behind an unsizing to a trait object
    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        let tcx = self.tcx;
        let (mut a, mut b) = (from, to);
        loop {
            match (a.builtin_deref(true), b.builtin_deref(true)) {
                (Some(x), Some(y)) => {
                    a = x;
                    b = y;
                    continue;
                }
                _ => {}
            }
            if let (ty::Adt(d1, a1), ty::Adt(d2, a2)) = (a.kind(), b.kind()) {
                if d1 == d2 && a1.types().count() > 0 && a2.types().count() > 0 {
                    a = a1.type_at(0);
                    b = a2.type_at(0);
                    continue;
                }
            }
            break;
        }
        if let ty::Dynamic(preds, ..) = b.kind() {
            if a.is_trait() {
                return;
            }
            if let Some(tr) = preds.principal() {
                let tref = tcx.instantiate_bound_regions_with_erased(tr).with_self_ty(tcx, a);
                let tref = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(tref));
                let trait_id = tref.def_id;
                if !self.vt.insert((trait_id, a)) {
                    return;
                }
                let mut ms: Vec<(String, J)> = vec![];
                let supers: Vec<DefId> = vec![trait_id];
                for tid in supers {
                    for it in tcx.associated_items(tid).in_definition_order() {
                        if !it.is_fn() {
                            continue;
                        }
                        let g = tcx.generics_of(it.def_id);
                        if g.own_requires_monomorphization() {
                            continue;
                        }
                        let margs = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                            if (p.index as usize) < tref.args.len() {
                                tref.args[p.index as usize]
                            } else {
                                tcx.lifetimes.re_erased.into()
                            }
                        });
                        let margs = tcx.erase_and_anonymize_regions(margs);
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, it.def_id, margs) {
                            let k = self.inst_key(i);
                            ms.push((self.path(it.def_id), s(k)));
                        }
                    }
                }
                let tn = self.ty(a);
                let key = self.path(trait_id);
                self.dynimpls
                    .entry(key)
                    .or_default()
                    .push(J::O(vec![("ty", s(tn)), ("methods", J::M(ms))]));
            }
        }
    }

    fn body(&mut self, i: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let b0 = tcx.instance_mir(i.def);
        let b: mir::Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, b0.clone()),
        );
        let b = &b;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let mut e = vec![s(t)];
            if let Some(n) = names.get(&l.as_usize()) {
                e.push(s(n.clone()));
            }
            locals.push(J::A(e));
        }
        let mut blocks = vec![];
        for (_bb, bd) in b.basic_blocks.iter_enumerated() {
            if bd.is_cleanup {
                blocks.push(J::N);
                continue;
            }
            let mut st = vec![];
            for x in &bd.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(b, pr.0);
                        let r = self.rvalue(b, &pr.1);
                        st.push(J::A(vec![s("="), p, r, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pt = place.ty(&b.local_decls, tcx).ty;
                        let (n, d) = match pt.kind() {
                            ty::Adt(def, _) if def.is_enum() => (
                                def.variant(*variant_index).name.to_string(),
                                def.discriminant_for_variant(tcx, *variant_index).val,
                            ),
                            _ => (String::new(), 0),
                        };
                        st.push(J::A(vec![s("setdiscr"), self.place(b, **place), s(n), J::U(d)]));
                    }
                    StatementKind::Intrinsic(it) => {
                        st.push(J::A(vec![s("intr"), s(format!("{:?}", it))]));
                    }
                    _ => {}
                }
            }
            let t = bd.terminator();
            let sp = self.span(t.source_info.span);
            let bbn = |x: mir::BasicBlock| J::U(x.as_usize() as u128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbn(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(&b.local_decls, tcx);
                    let vs: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![J::U(v), bbn(t)])).collect();
                    let t = self.ty(ty_);
                    J::A(vec![s("switch"), self.op(b, discr), s(t), J::A(vs), bbn(targets.otherwise()), sp])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(b, *place);
                    J::A(vec![s("drop"), p, bbn(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span: _, .. } => {
                    let ft = func.ty(&b.local_decls, tcx);
                    let cal = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap()).1,
                        _ => J::O(vec![("indirect", self.op(b, func))]),
                    };
                    let aj: Vec<J> = args.iter().map(|a| self.op(b, &a.node)).collect();
                    let d = self.place(b, *destination);
                    J::A(vec![
                        s("call"),
                        cal,
                        J::A(aj),
                        d,
                        target.map(bbn).unwrap_or(J::N),
                        sp,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let k = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    J::A(vec![s("assert"), self.op(b, cond), J::B(*expected), bbn(*target), s(k), s(m), sp])
                }
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                _ => J::A(vec![s("dead")]),
            };
            blocks.push(J::A(vec![J::A(st), tj]));
        }
        let spread = b.spread_arg.map(|l| J::U(l.as_usize() as u128)).unwrap_or(J::N);
        Some(J::O(vec![
            ("path", s(self.path(i.def_id()))),
            ("span", self.span(tcx.def_span(i.def_id()))),
            ("local", J::B(i.def_id().is_local())),
            ("nargs", J::U(b.arg_count as u128)),
            ("spread", spread),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ]))
    }
}

trait Caps {
    fn closure_captures_opt(&self, d: DefId) -> Vec<String>;
}
impl<'tcx> Caps for TyCtxt<'tcx> {
    fn closure_captures_opt(&self, d: DefId) -> Vec<String> {
        match d.as_local() {
            Some(l) => self.closure_captures(l).iter().map(|c| c.to_symbol().to_string()).collect(),
            None => vec![],
        }
    }
}

fn want_extern(p: &str) -> bool {
    const W: &[&str] = &[
        "core::option::", "std::option::", "core::result::", "std::result::", "core::cmp::", "std::cmp::",
        "core::convert::", "std::convert::", "core::ops::", "std::ops::", "<core::option", "<std::option",
        "<core::result", "<std::result", "<core::ops", "<std::ops", "core::bool::", "core::mem::", "std::mem::",
        "core::ops::function", "std::boxed::Box",
    ];
    W.iter().any(|w| p.starts_with(w)) || p.starts_with("<T as core::convert") || p.starts_with("<T as std::convert")
        || p.starts_with("<U as") || p.contains("{impl#")
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let env = TypingEnv::fully_monomorphized();
        let mut cx = Cx {
            tcx,
            env,
            queue: VecDeque::new(),
            seen: HashMap::new(),
            tys: BTreeMap::new(),
            tyseen: HashSet::new(),
            dynimpls: BTreeMap::new(),
            vt: HashSet::new(),
        };
        let mut roots = vec![];
        let mut consts: Vec<(String, J)> = vec![];
        for l in tcx.mir_keys(()).iter() {
            let d = l.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                let g = tcx.generics_of(d);
                if g.requires_monomorphization(tcx) {
                    continue;
                }
                if !matches!(k, DefKind::Static { .. }) {
                    if let Ok(cv) = tcx.const_eval_poly(d) {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let t = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(t));
                        let v = cx.const_value(cv, t, 0);
                        consts.push((cx.path(d), v));
                    }
                }
                continue;
            }
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let g = tcx.generics_of(d);
            if g.requires_monomorphization(tcx) {
                continue;
            }
            let i = Instance::mono(tcx, d);
            let key = cx.inst_key(i);
            roots.push(J::A(vec![s(key), cx.span(tcx.def_span(d))]));
        }
        // every local non-generic ADT, for layouts
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum)
                && !tcx.generics_of(d).requires_monomorphization(tcx)
            {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(t));
                cx.ty(t);
            }
        }
        let mut fns: Vec<(String, J)> = vec![];
        let mut n = 0;
        while let Some(i) = cx.queue.pop_front() {
            let d = i.def_id();
            let key = cx.seen[&i].clone();
            let p = cx.path(d);
            if matches!(i.def, InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..)) {
                continue;
            }
            let avail = match i.def {
                InstanceKind::Item(d) => tcx.is_mir_available(d),
                _ => true,
            };
            if !avail || (!d.is_local() && !want_extern(&p)) {
                continue;
            }
            n += 1;
            if n > 60000 {
                break;
            }
            if let Some(j) = cx.body(i) {
                fns.push((key, j));
            }
        }
        let dynimpls: Vec<(String, J)> = std::mem::take(&mut cx.dynimpls).into_iter().map(|(k, v)| (k, J::A(v))).collect();
        let tys: Vec<(String, J)> = std::mem::take(&mut cx.tys).into_iter().collect();
        let j = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str())),
            ("roots", J::A(roots)),
            ("consts", J::M(consts)),
            ("fns", J::M(fns)),
            ("dyn", J::M(dynimpls)),
            ("types", J::M(tys)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&self.out, o).expect("write dump");
        Compilation::Continue
    }
}

struct NoCb;
impl Callbacks for NoCb {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the path of rustc
    if args.len() > 1 && !args[1].starts_with('-') && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = name == "dynamic_bonding_curve" || name == "dynamic_bonding_curve_sdk" || name.starts_with("dbcv_");
    match std::env::var("MIRDUMP_OUT") {
        Ok(dir) if want => {
            for f in ["-Zmir-opt-level=0", "-Cpanic=abort", "-Coverflow-checks=on", "-Cdebug-assertions=off"] {
                args.push(f.to_string());
            }
            let mut cb = Cb { out: format!("{}/{}.json", dir, name) };
            rustc_driver::compiler_entrypoint(&args, &mut cb)
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut NoCb),
    }
}
