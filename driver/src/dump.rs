use crate::json::J;
use crate::obj;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::{sym, Span, DUMMY_SP};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, HashSet, VecDeque};

struct Stop { exact: HashSet<String>, prefix: Vec<String> }
impl Stop {
    fn parse(s: &str) -> Stop {
        let mut st = Stop { exact: HashSet::new(), prefix: vec![] };
        for l in s.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') { continue; }
            if let Some(p) = l.strip_suffix('*') { st.prefix.push(p.to_string()); } else { st.exact.insert(l.to_string()); }
        }
        st
    }
    fn hit(&self, n: &str) -> bool { self.exact.contains(n) || self.prefix.iter().any(|p| n.starts_with(p.as_str())) }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    stop: Stop,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    ty_work: VecDeque<(usize, Ty<'tcx>)>,
    fns: HashMap<Instance<'tcx>, usize>,
    fn_out: Vec<J>,
    fn_work: VecDeque<(usize, Instance<'tcx>, bool)>,
    iter_done: HashSet<Ty<'tcx>>,
    iter_next: Vec<J>,
    cur_env: TypingEnv<'tcx>,
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, stop: &str) -> J {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(dump_inner(tcx, stop)))
}

fn dump_inner<'tcx>(tcx: TyCtxt<'tcx>, stop: &str) -> J {
    let mut d = D {
        tcx, stop: Stop::parse(stop), tys: HashMap::new(), ty_out: vec![], ty_work: VecDeque::new(), fns: HashMap::new(),
        fn_out: vec![], fn_work: VecDeque::new(), iter_done: HashSet::new(), iter_next: vec![],
        cur_env: TypingEnv::fully_monomorphized(),
    };
    let ev = tcx.effective_visibilities(());
    let mut items = vec![];
    let mut generic_fns = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let path = tcx.def_path_str(did);
        let exported = ev.is_exported(ld);
        let reach = ev.is_reachable(ld);
        let (file, line) = d.loc(tcx.def_span(did));
        let mut rec = vec![
            ("kind", J::S(format!("{:?}", kind))), ("path", path.into()), ("exported", exported.into()), ("reachable", reach.into()),
            ("file", file.into()), ("line", line.into()), ("in_test", J::B(false)),
            ("ext_macro", {
                let sp = tcx.source_span(ld);
                let sm = tcx.sess.source_map();
                J::B(sp.in_external_macro(sm) || sp.in_derive_expansion() || tcx.def_span(did).in_derive_expansion())
            }),
        ];
        match kind {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                rec.push(("ty", d.ty(t).into()));
                let adt = tcx.adt_def(did);
                let mut vs = vec![];
                for v in adt.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        fs.push(obj! { name: f.name.to_string(), public: f.vis.is_public(), ty: d.tcx.type_of(f.did).instantiate_identity().skip_norm_wip().to_string() });
                    }
                    vs.push(obj! { name: v.name.to_string(), fields: fs });
                }
                rec.push(("variants", vs.into()));
            }
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let generic = tcx.generics_of(did).requires_monomorphization(tcx);
                rec.push(("unsafe", J::B(!sig.safety().is_safe())));
                rec.push(("generic", generic.into()));
                let ins: Vec<J> = sig.inputs().iter().map(|t| J::S(t.to_string())).collect();
                rec.push(("inputs", ins.into()));
                rec.push(("output", sig.output().to_string().into()));
                rec.push(("vis_public", tcx.visibility(did).is_public().into()));
                if let Some(ai) = tcx.opt_associated_item(did) {
                    let parent = tcx.parent(did);
                    if tcx.def_kind(parent) == (DefKind::Impl { of_trait: true }) {
                        let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        rec.push(("impl_trait", tcx.def_path_str(tr.def_id).into()));
                        rec.push(("self_ty", tr.self_ty().to_string().into()));
                    } else if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                        rec.push(("self_ty", tcx.type_of(parent).instantiate_identity().skip_norm_wip().to_string().into()));
                    }
                    rec.push(("has_self", ai.is_method().into()));
                }
                if !generic {
                    if !matches!(tcx.def_kind(tcx.parent(did)), DefKind::Trait) || tcx.is_mir_available(did) {
                        let inst = Instance::mono(tcx, did);
                        let id = d.func(inst, true);
                        rec.push(("fn", id.into()));
                    }
                } else if tcx.is_mir_available(did) {
                    generic_fns.push(did);
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    let inst = Instance::new_raw(did, args);
                    d.cur_env = TypingEnv::post_analysis(tcx, did);
                    let id = d.func(inst, true);
                    rec.push(("fn", id.into()));
                    d.cur_env = TypingEnv::fully_monomorphized();
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                rec.push(("ty", t.to_string().into()));
                rec.push(("vis_public", tcx.visibility(did).is_public().into()));
                if !tcx.generics_of(did).requires_monomorphization(tcx) && !matches!(tcx.def_kind(tcx.parent(did)), DefKind::Trait) {
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        rec.push(("value", d.cval(v, t, 0)));
                    }
                }
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                rec.push(("ty", t.to_string().into()));
                rec.push(("mut", mutability.is_mut().into()));
                rec.push(("freeze", t.is_freeze(tcx, TypingEnv::fully_monomorphized()).into()));
            }
            DefKind::Impl { of_trait } => {
                rec.push(("self_ty", tcx.type_of(did).instantiate_identity().skip_norm_wip().to_string().into()));
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    rec.push(("impl_trait", tcx.def_path_str(tr.def_id).into()));
                    let args: Vec<J> = tr.args.iter().map(|a| J::S(a.to_string())).collect();
                    rec.push(("trait_args", args.into()));
                    rec.push(("unsafe", J::B(!tcx.trait_def(tr.def_id).safety.is_safe())));
                }
            }
            _ => {}
        }
        items.push(J::O(rec));
    }
    // unsafe blocks
    let mut ub = UnsafeV { tcx, spans: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut ub);
    let unsafe_blocks: Vec<J> = ub.spans.iter().map(|s| { let (f, l) = d.loc(*s); obj! { file: f, line: l } }).collect();
    // work
    loop {
        if let Some((id, inst, local)) = d.fn_work.pop_front() {
            let j = d.dump_fn(id, inst, local);
            d.fn_out[id] = j;
            continue;
        }
        if let Some((id, t)) = d.ty_work.pop_front() {
            let j = d.dump_ty(t);
            d.ty_out[id] = j;
            continue;
        }
        break;
    }
    obj! { crate_name: tcx.crate_name(LOCAL_CRATE).to_string(), types: std::mem::take(&mut d.ty_out), fns: std::mem::take(&mut d.fn_out),
           iter_next: std::mem::take(&mut d.iter_next), items: items, unsafe_blocks: unsafe_blocks,
           pointer_bits: tcx.data_layout.pointer_size().bits() }
}

struct UnsafeV<'tcx> { tcx: TyCtxt<'tcx>, spans: Vec<Span> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            if src == rustc_hir::UnsafeSource::UserProvided { self.spans.push(b.span); }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

impl<'tcx> D<'tcx> {
    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        (f, l.line)
    }
    fn line(&self, sp: Span) -> J {
        let (_, l) = self.loc(sp);
        J::I(l as i128)
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.cur_env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.ty_out.len();
        self.ty_out.push(J::Null);
        self.tys.insert(t, i);
        self.ty_work.push_back((i, t));
        i
    }
    fn tylist(&mut self, args: GenericArgsRef<'tcx>) -> Vec<J> {
        let mut v = vec![];
        for a in args.iter() { if let Some(t) = a.as_type() { v.push(J::from(self.ty(t))); } }
        v
    }
    fn dump_ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let s = t.to_string();
        match *t.kind() {
            ty::Bool => obj! { k: "bool", s: s },
            ty::Char => obj! { k: "char", s: s },
            ty::Int(i) => obj! { k: "int", s: s, bits: i.bit_width().unwrap_or(64), signed: true },
            ty::Uint(i) => obj! { k: "int", s: s, bits: i.bit_width().unwrap_or(64), signed: false },
            ty::Float(f) => obj! { k: "float", s: s, bits: f.bit_width() },
            ty::Str => obj! { k: "str", s: s },
            ty::Never => obj! { k: "never", s: s },
            ty::Ref(_, t, m) => obj! { k: "ref", s: s, ty: self.ty(t), mutable: m.is_mut() },
            ty::RawPtr(t, m) => obj! { k: "ptr", s: s, ty: self.ty(t), mutable: m.is_mut() },
            ty::Slice(t) => obj! { k: "slice", s: s, ty: self.ty(t) },
            ty::Array(t, n) => obj! { k: "array", s: s, ty: self.ty(t), len: n.try_to_target_usize(tcx).map(|x| J::I(x as i128)) },
            ty::Tuple(ts) => { let v: Vec<J> = ts.iter().map(|t| J::from(self.ty(t))).collect(); obj! { k: "tuple", s: s, tys: v } }
            ty::FnDef(def, args) => {
                let args = args.skip_binder();
                let def: DefId = def.into();
                let f = self.resolve(def, args);
                obj! { k: "fndef", s: s, path: tcx.def_path_str(def), fn_: f, targs: self.tylist(args) }
            }
            ty::FnPtr(..) => obj! { k: "fnptr", s: s },
            ty::Dynamic(..) => obj! { k: "dyn", s: s },
            ty::Closure(def, args) => {
                let ca = args.as_closure();
                let ups: Vec<J> = ca.upvar_tys().iter().map(|t| J::from(self.ty(t))).collect();
                let kind = format!("{:?}", ca.kind());
                let def: DefId = def.into();
                let f = if t.has_param() { J::Null } else { J::from(self.func(Instance::new_raw(def, args), def.is_local())) };
                obj! { k: "closure", s: s, path: tcx.def_path_str(def), upvars: ups, kind: kind, fn_: f }
            }
            ty::Param(p) => obj! { k: "param", s: s, name: p.name.to_string() },
            ty::Adt(def, args) => {
                let mut vs = vec![];
                let discrs: HashMap<_, _> = if def.is_enum() { def.discriminants(tcx).map(|(i, d)| (i, d)).collect() } else { HashMap::new() };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        fs.push(obj! { name: f.name.to_string(), ty: self.ty(ft), public: f.vis.is_public() });
                    }
                    let dv = discrs.get(&vi).map(|d| {
                        let sz = match d.ty.kind() { ty::Int(i) => Some(i.bit_width().unwrap_or(64)), _ => None };
                        match sz { Some(b) => J::I(if b >= 128 { d.val as i128 } else { ((d.val as i128) << (128 - b)) >> (128 - b) }), None => J::I(d.val as i128) }
                    });
                    vs.push(obj! { name: v.name.to_string(), fields: fs, discr: dv });
                }
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let freeze = if t.has_param() { J::Null } else { J::B(t.is_freeze(tcx, TypingEnv::fully_monomorphized())) };
                let size = if t.has_param() { J::Null } else { match tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) { Ok(l) => J::I(l.size.bytes() as i128), Err(_) => J::Null } };
                obj! { k: "adt", s: s, path: tcx.def_path_str(def.did()), local: def.did().is_local(), kind: kind, targs: self.tylist(args), variants: vs, is_box: def.is_box(), freeze: freeze, size: size }
            }
            _ => obj! { k: "other", s: s },
        }
    }
    /// resolves a function item; the result is the id of the function record
    fn resolve(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(self.cur_env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        match Instance::try_resolve(tcx, self.cur_env, def, args) {
            Ok(Some(i)) => { let local = i.def_id().is_local(); J::from(self.func(i, local)) }
            _ => J::Null,
        }
    }
    fn func(&mut self, inst: Instance<'tcx>, local: bool) -> usize {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        if let Some(&i) = self.fns.get(&inst) { return i; }
        let i = self.fn_out.len();
        self.fn_out.push(J::Null);
        self.fns.insert(inst, i);
        self.fn_work.push_back((i, inst, local));
        i
    }
    fn note_iter(&mut self, t: Ty<'tcx>) {
        let t = self.norm(t);
        if !self.iter_done.insert(t) || t.has_param() || t.has_escaping_bound_vars() { return; }
        let tcx = self.tcx;
        let Some(itr) = tcx.get_diagnostic_item(sym::Iterator) else { return };
        let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
        let Some(ii) = tcx.get_diagnostic_item(sym::IntoIterator) else { return };
        if !infcx.type_implements_trait(ii, [t], ty::ParamEnv::empty()).must_apply_modulo_regions() { return; }
        let isit = infcx.type_implements_trait(itr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions();
        drop(infcx);
        let into = tcx.associated_item_def_ids(ii).iter().copied().find(|d| tcx.item_name(*d).as_str() == "into_iter").unwrap();
        let next = tcx.associated_item_def_ids(itr).iter().copied().find(|d| tcx.item_name(*d).as_str() == "next").unwrap();
        let args = tcx.mk_args(&[t.into()]);
        let intof = self.resolve(into, args);
        let it = if isit { t } else {
            let assoc = tcx.associated_item_def_ids(ii).iter().copied().find(|d| tcx.item_name(*d).as_str() == "IntoIter").unwrap();
            let _ = assoc;
            // the output type of into_iter
            let sig = tcx.fn_sig(into).instantiate(tcx, args).skip_norm_wip().skip_binder();
            self.norm(sig.output())
        };
        let nf = self.resolve(next, tcx.mk_args(&[it.into()]));
        let item = { let sig = tcx.fn_sig(next).instantiate(tcx, tcx.mk_args(&[it.into()])).skip_norm_wip().skip_binder(); self.norm(sig.output()) };
        let j = obj! { ty: self.ty(t), iter: self.ty(it), into: intof, next: nf, opt_item: self.ty(item) };
        self.iter_next.push(j);
    }
    fn dump_fn(&mut self, id: usize, inst: Instance<'tcx>, _local: bool) -> J {
        let tcx = self.tcx;
        let def = inst.def_id();
        let path = tcx.def_path_str(def);
        let (file, line) = self.loc(tcx.def_span(def));
        let args = inst.args;
        let poly = args.has_param();
        self.cur_env = if poly { TypingEnv::post_analysis(tcx, if tcx.is_typeck_child(def) { tcx.typeck_root_def_id(def) } else { def }) } else { TypingEnv::fully_monomorphized() };
        let kind = match inst.def {
            InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::Virtual(..) => "virtual", InstanceKind::Shim(..) => "shim", _ => "other",
        };
        let mut decl = path.clone();
        let mut trait_path = J::Null;
        let parent = tcx.opt_parent(def);
        if let Some(p) = parent {
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    trait_path = J::S(tcx.def_path_str(tr.def_id));
                    decl = format!("{}::{}", tcx.def_path_str(tr.def_id), tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default());
                }
                DefKind::Trait => { trait_path = J::S(tcx.def_path_str(p)); }
                _ => {}
            }
        }
        let stopped = !def.is_local() && (self.stop.hit(&path) || self.stop.hit(&decl));
        let mut body = J::Null;
        let intrinsic = matches!(inst.def, InstanceKind::Intrinsic(_));
        let is_ctor = matches!(tcx.def_kind(def), DefKind::Ctor(..));
        let has = match inst.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && !(d.is_local() && matches!(tcx.def_kind(d), DefKind::AssocFn) && !tcx.is_mir_available(d)),
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        let shim_str = if matches!(inst.def, InstanceKind::Shim(_)) { J::S(format!("{:?}", inst.def)) } else { J::Null };
        if (stopped || !has) && !intrinsic {
            let v: Vec<Ty<'tcx>> = args.iter().filter_map(|a| a.as_type()).collect();
            for t in v { self.note_iter(t); }
        }
        if !stopped && has {
            let is_drop = matches!(inst.def, InstanceKind::Shim(s) if format!("{:?}", s).starts_with("DropGlue"));
            if !is_drop {
                let b = tcx.instance_mir(inst.def);
                let b2 = if poly { b.clone() } else {
                    inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.cur_env, ty::EarlyBinder::bind(tcx, b.clone()))
                };
                body = self.body(&b2);
            }
        }
        let targs = self.tylist(args);
        self.cur_env = TypingEnv::fully_monomorphized();
        obj! { id: id, path: path, decl: decl, trait_: trait_path, name: tcx.opt_item_name(def).map(|s| s.to_string()), file: file, line: line, local: def.is_local(),
               krate: tcx.crate_name(def.krate).to_string(), targs: targs, kind: kind, ctor: is_ctor, poly: poly, stopped: stopped, shim: shim_str,
               inst: if poly { tcx.def_path_str(def) } else { inst.to_string() }, body: body }
    }
    fn body(&mut self, b: &Body<'tcx>) -> J {
        let locals: Vec<J> = b.local_decls.iter().map(|l| J::from(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.push(J::A(vec![J::from(p.local.as_usize()), J::S(v.name.to_string())])); }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::Null); continue; }
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(b, s) { st.push(j); }
            }
            let t = self.term(b, bb.terminator());
            blocks.push(J::A(vec![J::A(st), t]));
        }
        obj! { locals: locals, argc: b.arg_count, spread: b.spread_arg.map(|l| J::from(l.as_usize())), names: names, blocks: blocks }
    }
    fn place(&mut self, _b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::S("*".into()),
                ProjectionElem::Field(f, t) => { let ti = self.ty(t); J::A(vec!["f".into(), f.as_usize().into(), ti.into()]) }
                ProjectionElem::Index(l) => J::A(vec!["i".into(), l.as_usize().into()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec!["ci".into(), offset.into(), min_length.into(), from_end.into()]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec!["ss".into(), from.into(), to.into(), from_end.into()]),
                ProjectionElem::Downcast(_, vi) => J::A(vec!["d".into(), vi.as_usize().into()]),
                _ => J::A(vec!["?".into()]),
            });
        }
        J::A(vec![p.local.as_usize().into(), J::A(v)])
    }
    fn opd(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec!["c".into(), self.place(b, p)]),
            Operand::Move(p) => J::A(vec!["m".into(), self.place(b, p)]),
            Operand::Constant(c) => J::A(vec!["k".into(), self.constant(c)]),
            Operand::RuntimeChecks(r) => J::A(vec!["rc".into(), format!("{:?}", r).into()]),
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() { return obj! { ty: tid, v: "fn" }; }
        match c.const_.eval(self.tcx, self.cur_env, DUMMY_SP) {
            Ok(v) => { let t = self.norm(t); let j = self.cval(v, t, 0); obj! { ty: tid, v: j } }
            Err(_) => obj! { ty: tid, v: J::Null, s: format!("{:?}", c.const_) },
        }
    }
    /// decoded value: ints as numbers, str/bytes, aggregates
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 { return J::Null; }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) | ty::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.size().bits();
                    let raw = s.to_bits(s.size());
                    let val = if let ty::Int(_) = t.kind() { if bits == 0 { 0 } else { ((raw as i128) << (128 - bits)) >> (128 - bits) } } else { raw as i128 };
                    return obj! { i: J::I(val) };
                }
                J::Null
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let is_bytes = match inner.kind() { ty::Str => true, ty::Slice(e) => *e == tcx.types.u8, _ => false };
                        if is_bytes {
                            if let Some(bs) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                let a: Vec<J> = bs.iter().map(|x| J::I(*x as i128)).collect();
                                return obj! { bytes: a, str_: matches!(inner.kind(), ty::Str) };
                            }
                        } else if let ty::Slice(e) = inner.kind() {
                            // slice of other elements
                            if let ConstValue::Slice { alloc_id, meta } = v {
                                let mut out = vec![];
                                if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*e)) {
                                    for k in 0..meta {
                                        let cv = ConstValue::Indirect { alloc_id, offset: l.size * k };
                                        out.push(self.cval_ind(cv, *e, depth + 1));
                                    }
                                    return obj! { slice: out };
                                }
                            }
                        }
                        J::Null
                    }
                    _ => {
                        // thin pointer: read what it points to
                        let ptr = match v {
                            ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let a = tcx.global_alloc(alloc_id);
                                if let GlobalAlloc::Memory(m) = a {
                                    let sz = tcx.data_layout.pointer_size();
                                    match m.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, sz), true) {
                                        Ok(Scalar::Ptr(p, _)) => Some(p),
                                        _ => None,
                                    }
                                } else { None }
                            }
                            _ => None,
                        };
                        if let Some(p) = ptr {
                            let (prov, off) = p.into_raw_parts();
                            let aid = prov.alloc_id();
                            if let GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                                let cv = ConstValue::Indirect { alloc_id: aid, offset: off };
                                let j = self.cval_ind(cv, inner, depth + 1);
                                return obj! { ref_: j, ty: self.ty(inner) };
                            }
                        }
                        J::Null
                    }
                }
            }
            ty::Tuple(ts) if ts.is_empty() => obj! { agg: Vec::<J>::new() },
            ty::FnDef(..) | ty::Closure(..) => obj! { zst: true },
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(d, _) = t.kind() { if d.is_union() { return J::Null; } }
                if t.has_param() { return J::Null; }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fs: Vec<J> = dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                        obj! { agg: fs, variant: dc.variant.map(|x| J::from(x.as_usize())) }
                    }
                    None => J::Null,
                }
            }
            _ => J::Null,
        }
    }
    fn cval_ind(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        // scalars behind an indirection
        let tcx = self.tcx;
        if let ConstValue::Indirect { alloc_id, offset } = v {
            match *t.kind() {
                ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) | ty::Float(_) => {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                            if let Ok(s) = m.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, l.size), false) {
                                return self.cval(ConstValue::Scalar(s), t, depth);
                            }
                        }
                    }
                    return J::Null;
                }
                _ => {}
            }
        }
        self.cval(v, t, depth)
    }
    fn stmt(&mut self, b: &Body<'tcx>, s: &Statement<'tcx>) -> Option<J> {
        let ln = self.line(s.source_info.span);
        Some(match &s.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                let pj = self.place(b, p);
                let rj = self.rvalue(b, r);
                J::A(vec!["=".into(), pj, rj, ln])
            }
            StatementKind::SetDiscriminant { place, variant_index } => J::A(vec!["setd".into(), self.place(b, place), variant_index.as_usize().into(), ln]),
            StatementKind::StorageDead(l) => J::A(vec!["dead".into(), l.as_usize().into()]),
            StatementKind::StorageLive(l) => J::A(vec!["live".into(), l.as_usize().into()]),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => J::A(vec!["assume".into(), self.opd(b, o), ln]),
                NonDivergingIntrinsic::CopyNonOverlapping(_) => J::A(vec!["copyno".into(), ln]),
            },
            _ => return None,
        })
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec!["use".into(), self.opd(b, o)]),
            Rvalue::Repeat(o, n) => J::A(vec!["rep".into(), self.opd(b, o), n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).into()]),
            Rvalue::Ref(_, k, p) => J::A(vec!["ref".into(), self.place(b, p), matches!(k, BorrowKind::Mut { .. }).into()]),
            Rvalue::RawPtr(_, p) => J::A(vec!["raw".into(), self.place(b, p)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec!["use".into(), J::A(vec!["c".into(), self.place(b, p)])]),
            Rvalue::CopyForDeref(p) => J::A(vec!["use".into(), J::A(vec!["c".into(), self.place(b, p)])]),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let from = o.ty(&b.local_decls, self.tcx);
                let (tf, tt) = (self.ty(from), self.ty(*t));
                J::A(vec!["cast".into(), ks.into(), self.opd(b, o), tf.into(), tt.into()])
            }
            Rvalue::BinaryOp(op, bx) => {
                let t = bx.0.ty(&b.local_decls, self.tcx);
                let t2 = bx.1.ty(&b.local_decls, self.tcx);
                let (ti, ti2) = (self.ty(t), self.ty(t2));
                J::A(vec!["bin".into(), format!("{:?}", op).into(), self.opd(b, &bx.0), self.opd(b, &bx.1), ti.into(), ti2.into()])
            }
            Rvalue::UnaryOp(op, o) => { let t = o.ty(&b.local_decls, self.tcx); let ti = self.ty(t); J::A(vec!["un".into(), format!("{:?}", op).into(), self.opd(b, o), ti.into()]) }
            Rvalue::Discriminant(p) => { let t = p.ty(&b.local_decls, self.tcx).ty; let ti = self.ty(t); J::A(vec!["discr".into(), self.place(b, p), ti.into()]) }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.opd(b, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => obj! { k: "array", ty: self.ty(*t) },
                    AggregateKind::Tuple => obj! { k: "tuple" },
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        obj! { k: "adt", ty: self.ty(t), variant: vi.as_usize(), active: af.map(|f| J::from(f.as_usize())) }
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, (*d).try_into().unwrap(), args);
                        obj! { k: "closure", ty: self.ty(t) }
                    }
                    AggregateKind::RawPtr(t, _) => obj! { k: "rawptr", ty: self.ty(*t) },
                    _ => obj! { k: "other" },
                };
                J::A(vec!["agg".into(), kj, J::A(os)])
            }
            Rvalue::ThreadLocalRef(_) => J::A(vec!["tls".into()]),
            _ => J::A(vec!["other".into(), format!("{:?}", r).into()]),
        }
    }
    fn term(&mut self, b: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let ln = self.line(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec!["goto".into(), target.as_usize().into()]),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec!["goto".into(), real_target.as_usize().into()]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&b.local_decls, self.tcx);
                let ti = self.ty(dt);
                let sz = match dt.kind() { ty::Int(i) => Some(i.bit_width().unwrap_or(64) as u32), _ => None };
                let vs: Vec<J> = targets.iter().map(|(v, bb)| {
                    let val = match sz { Some(bits) if bits < 128 => ((v as i128) << (128 - bits)) >> (128 - bits), _ => v as i128 };
                    J::A(vec![J::I(val), bb.as_usize().into()])
                }).collect();
                J::A(vec!["switch".into(), self.opd(b, discr), ti.into(), J::A(vs), targets.otherwise().as_usize().into(), ln])
            }
            TerminatorKind::Return => J::A(vec!["return".into(), ln]),
            TerminatorKind::Unreachable => J::A(vec!["unreachable".into(), ln]),
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(&b.local_decls, self.tcx).ty;
                let ti = self.ty(pt);
                J::A(vec!["drop".into(), self.place(b, place), target.as_usize().into(), ti.into(), ln])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(&b.local_decls, self.tcx);
                let fj = match *ft.kind() {
                    ty::FnDef(def, fargs) => {
                        let fargs = fargs.skip_binder();
                        let def: DefId = def.into();
                        if let Some(p) = self.tcx.opt_parent(def) {
                            if self.tcx.def_path_str(p).starts_with("core::iter::traits") {
                                let v: Vec<Ty<'tcx>> = fargs.iter().filter_map(|a| a.as_type()).collect();
                                for t in v { self.note_iter(t); }
                            }
                        }
                        let f = self.resolve(def, fargs);
                        obj! { fn_: f, decl: self.tcx.def_path_str(def), targs: self.tylist(fargs) }
                    }
                    _ => obj! { ptr: self.opd(b, func) },
                };
                let aj: Vec<J> = args.iter().map(|a| self.opd(b, &a.node)).collect();
                let dj = self.place(b, destination);
                let dty = destination.ty(&b.local_decls, self.tcx).ty;
                let dti = self.ty(dty);
                J::A(vec!["call".into(), fj, J::A(aj), dj, target.map(|t| J::from(t.as_usize())).into(), dti.into(), ln])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = format!("{:?}", msg);
                let kind = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::OverflowNeg(_) => "overflow",
                    AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "divzero", _ => "other",
                };
                J::A(vec!["assert".into(), self.opd(b, cond), (*expected).into(), kind.into(), m.into(), target.as_usize().into(), ln])
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec!["resume".into()]),
            k => J::A(vec!["otherterm".into(), format!("{:?}", k).into(), ln]),
        }
    }
}
