//! Monomorphic MIR -> compact IR, with constants evaluated and callees resolved.
use crate::term;
use crate::val::*;
use crate::{Inst, Tcx, Ty};
use rustc_middle::mir::interpret::{alloc_range, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, EarlyBinder, TyKind, TypingEnv};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Place {
    pub local: u32,
    pub proj: Vec<PElem>,
}
#[derive(Clone, Debug)]
pub enum PElem {
    Deref,
    Field(u32),
    Index(u32),
    ConstIndex(u64, bool),
    Subslice(u64, u64, bool),
    Downcast(u32),
}
#[derive(Clone, Debug)]
pub enum Opd {
    Copy(Place),
    Move(Place),
    Const(Val),
    ConstErr(String),
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Opd),
    BoxAlias(Place),
    BoxDeref(Place),
    Ref(Place),
    Cast(CastK, Opd, Ty, Ty),
    Bin(mir::BinOp, Opd, Opd, Ty),
    Un(mir::UnOp, Opd, Ty),
    Disc(Place, Ty),
    Agg(Vec<Opd>),
    Variant(u32, Vec<Opd>),
    Array(Vec<Opd>),
    RawPtr(Opd, Opd),
    Repeat(Opd, u64),
    Unsupported(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Int,
    Ptr,
    Unsize,
    Reify,
    ClosureFn,
    Transmute,
    Other,
}
#[derive(Clone, Debug)]
pub enum St {
    Assign(Place, Rv),
    SetDisc(Place, u32),
    Dead(u32),
    Nop,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Static(Inst),
    Dyn(Opd),
}
#[derive(Clone, Debug)]
pub enum Tm {
    Goto(usize),
    Switch(Opd, Vec<(u128, usize)>, usize),
    Return,
    Unreachable,
    Call { callee: Callee, args: Vec<Opd>, dest: Place, target: Option<usize>, spread: bool },
    Assert { cond: Opd, expected: bool, msg: String, target: usize },
    Unsupported(String),
}
#[derive(Debug)]
pub struct Block {
    pub stmts: Vec<St>,
    pub term: Tm,
}
pub struct Body {
    pub inst: Inst,
    pub name: String,
    pub nargs: usize,
    pub spread_arg: Option<u32>,
    pub locals: Vec<Ty>,
    pub blocks: Vec<Block>,
    /// immediate post-dominator (None = function exit)
    pub ipdom: Vec<Option<usize>>,
    /// live-in locals per block
    pub live_in: Vec<Vec<bool>>,
    pub is_catch: bool,
    pub local_crate: bool,
}

pub struct Lower {
    pub tcx: Tcx,
    pub consts: Vec<Val>,
    alloc_cache: HashMap<(mir::interpret::AllocId, u64, Ty), u32>,
    statics: HashMap<rustc_hir::def_id::DefId, u32>,
}

thread_local! {
    /// the statics met so far, with their initial values; a state has its own copy of those it changed
    pub static STATICS: std::cell::RefCell<HashMap<u32, Val>> = Default::default();
}

pub fn env() -> TypingEnv<'static> {
    TypingEnv::fully_monomorphized()
}

impl Lower {
    pub fn new(tcx: Tcx) -> Self {
        Lower { tcx, consts: vec![], alloc_cache: HashMap::new(), statics: HashMap::new() }
    }

    pub fn path(&self, did: rustc_hir::def_id::DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(did)
        ))
    }

    pub fn body(&mut self, inst: Inst) -> Result<Body, String> {
        let tcx = self.tcx;
        if let ty::InstanceKind::Item(did) = inst.def {
            if !tcx.is_constructor(did) && !tcx.is_mir_available(did) {
                return Err(format!("no MIR for {}", self.path(did)));
            }
        }
        if std::env::var("MIRSYM_TRACE_LOWER").is_ok() {
            eprintln!("lower {:?}", inst);
        }
        let raw = tcx.instance_mir(inst.def);
        let b: mir::Body<'static> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env(),
            EarlyBinder::bind(tcx, raw.clone()),
        );
        let locals: Vec<Ty> = b.local_decls.iter().map(|d| d.ty).collect();
        let mut blocks = vec![];
        for (_bb, data) in b.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                blocks.push(Block { stmts: vec![], term: Tm::Unreachable });
                continue;
            }
            let stmts = data.statements.iter().map(|s| self.stmt(&b, s)).collect();
            let term = self.term(&b, data.terminator());
            blocks.push(Block { stmts, term });
        }
        let name = match inst.def {
            ty::InstanceKind::Item(d) => self.path(d),
            _ => format!("{:?}", inst.def),
        };
        let ipdom = post_dominators(&blocks);
        let live_in = liveness(&blocks, locals.len());
        let is_catch = name == "symrt::imp::catch";
        let local_crate = {
            let k = inst.def_id().krate;
            let cn = tcx.crate_name(k);
            !matches!(cn.as_str(), "core" | "alloc" | "std" | "serde" | "serde_json" | "hashbrown" | "log" | "symrt")
        };
        Ok(Body {
            inst,
            name,
            nargs: b.arg_count,
            spread_arg: b.spread_arg.map(|l| l.as_u32()),
            locals,
            blocks,
            ipdom,
            live_in,
            is_catch,
            local_crate,
        })
    }

    fn place(&self, p: &mir::Place<'static>) -> Place {
        let mut proj = vec![];
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => proj.push(PElem::Deref),
                ProjectionElem::Field(f, _) => proj.push(PElem::Field(f.as_u32())),
                ProjectionElem::Index(l) => proj.push(PElem::Index(l.as_u32())),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => proj.push(PElem::ConstIndex(offset, from_end)),
                ProjectionElem::Subslice { from, to, from_end } => proj.push(PElem::Subslice(from, to, from_end)),
                ProjectionElem::Downcast(_, v) => proj.push(PElem::Downcast(v.as_u32())),
                _ => {}
            }
        }
        Place { local: p.local.as_u32(), proj }
    }

    fn opd(&mut self, o: &Operand<'static>) -> Opd {
        match o {
            Operand::Copy(p) => Opd::Copy(self.place(p)),
            Operand::Move(p) => Opd::Move(self.place(p)),
            Operand::Constant(k) => {
                let ty = k.const_.ty();
                // promoteds of a default trait method must not be re-resolved to an overriding impl
                let ev = match k.const_ {
                    mir::Const::Unevaluated(uv, _) if uv.promoted.is_some() => {
                        let instance = ty::Instance { def: ty::InstanceKind::Item(uv.def), args: uv.args };
                        let gid = mir::interpret::GlobalId { instance, promoted: uv.promoted };
                        self.tcx.const_eval_global_id(env(), gid, k.span)
                    }
                    _ => k.const_.eval(self.tcx, env(), k.span),
                };
                match ev {
                    Ok(cv) => match self.const_val(cv, ty) {
                        Ok(v) => Opd::Const(v),
                        Err(e) => Opd::ConstErr(e),
                    },
                    Err(e) => Opd::ConstErr(format!("const eval {:?}", e)),
                }
            }
            Operand::RuntimeChecks(k) => {
                let v = matches!(k, mir::RuntimeChecks::OverflowChecks);
                Opd::Const(Val::bool(v))
            }
        }
    }

    fn stmt(&mut self, b: &mir::Body<'static>, s: &mir::Statement<'static>) -> St {
        match &s.kind {
            StatementKind::Assign(bx) => {
                let (p, rv) = &**bx;
                St::Assign(self.place(p), self.rv(b, rv))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                St::SetDisc(self.place(place), variant_index.as_u32())
            }
            StatementKind::StorageDead(l) => St::Dead(l.as_u32()),
            StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(_) => St::Nop,
                _ => St::Unsupported("copy_nonoverlapping".into()),
            },
            _ => St::Nop,
        }
    }

    fn rv(&mut self, b: &mir::Body<'static>, rv: &Rvalue<'static>) -> Rv {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(o, _) => {
                if let Operand::Copy(p) = o {
                    if p.ty(b, tcx).ty.is_box() {
                        return Rv::BoxAlias(self.place(p));
                    }
                }
                Rv::Use(self.opd(o))
            }
            Rvalue::CopyForDeref(p) => {
                if p.ty(b, tcx).ty.is_box() {
                    Rv::BoxAlias(self.place(p))
                } else {
                    Rv::Use(Opd::Copy(self.place(p)))
                }
            }
            Rvalue::Reborrow(_, _, p) => Rv::Use(Opd::Copy(self.place(p))),
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => Rv::Ref(self.place(p)),
            Rvalue::Repeat(o, n) => match n.try_to_target_usize(tcx) {
                Some(n) => Rv::Repeat(self.opd(o), n),
                None => Rv::Unsupported("repeat".into()),
            },
            Rvalue::Cast(kind, o, to) => {
                use mir::CastKind as K;
                use ty::adjustment::PointerCoercion as PC;
                let from = o.ty(b, tcx);
                if matches!(kind, K::BoxDerefTransmute) {
                    if let Operand::Copy(p) | Operand::Move(p) = o {
                        let mut pl = self.place(p);
                        pl.proj.pop();
                        return Rv::BoxDeref(pl);
                    }
                }
                let k = match kind {
                    K::IntToInt => CastK::Int,
                    K::PtrToPtr | K::FnPtrToPtr => CastK::Ptr,
                    K::PointerCoercion(pc, _) => match pc {
                        PC::Unsize => CastK::Unsize,
                        PC::ReifyFnPointer(_) => CastK::Reify,
                        PC::ClosureFnPointer(_) => CastK::ClosureFn,
                        PC::ArrayToPointer => CastK::Other,
                        _ => CastK::Ptr,
                    },
                    K::Transmute | K::Subtype => CastK::Transmute,
                    _ => CastK::Other,
                };
                Rv::Cast(k, self.opd(o), from, *to)
            }
            Rvalue::BinaryOp(op, bx) => {
                let ty = bx.0.ty(b, tcx);
                Rv::Bin(*op, self.opd(&bx.0), self.opd(&bx.1), ty)
            }
            Rvalue::UnaryOp(op, o) => {
                let ty = o.ty(b, tcx);
                Rv::Un(*op, self.opd(o), ty)
            }
            Rvalue::Discriminant(p) => Rv::Disc(self.place(p), p.ty(b, tcx).ty),
            Rvalue::Aggregate(kind, fields) => {
                let ops: Vec<Opd> = fields.iter().map(|o| self.opd(o)).collect();
                use mir::AggregateKind as A;
                match &**kind {
                    A::Array(_) => Rv::Array(ops),
                    A::Tuple | A::Closure(..) => Rv::Agg(ops),
                    A::Adt(did, vi, _, _, active) => {
                        let def = tcx.adt_def(*did);
                        if def.is_enum() {
                            Rv::Variant(vi.as_u32(), ops)
                        } else if active.is_some() {
                            // union: keep the single value
                            Rv::Use(ops.into_iter().next().unwrap())
                        } else {
                            Rv::Agg(ops)
                        }
                    }
                    A::RawPtr(..) => {
                        let mut it = ops.into_iter();
                        Rv::RawPtr(it.next().unwrap(), it.next().unwrap())
                    }
                    _ => Rv::Unsupported("coroutine aggregate".into()),
                }
            }
            Rvalue::ThreadLocalRef(did) => match self.static_cell(*did) {
                Ok(i) => Rv::Use(Opd::Const(Val::ptr(Base::Const(i), vec![], Meta::None))),
                Err(m) => Rv::Unsupported(m),
            },
            Rvalue::WrapUnsafeBinder(o, _) => Rv::Use(self.opd(o)),
        }
    }

    /// does dropping `t` run a destructor written in a workspace crate?
    fn user_drop(&self, t: Ty, seen: &mut Vec<Ty>) -> bool {
        if seen.contains(&t) || seen.len() > 200 {
            return false;
        }
        seen.push(t);
        match t.kind() {
            TyKind::Adt(d, a) => {
                if let Some(x) = d.destructor(self.tcx) {
                    let k = self.tcx.crate_name(x.did.krate);
                    if ["jst", "harness", "symrt"].contains(&k.as_str()) {
                        return true;
                    }
                }
                d.all_fields().any(|f| self.user_drop(self.tcx.normalize_erasing_regions(env(), f.ty(self.tcx, a)), seen)) || a.types().any(|t| self.user_drop(t, seen))
            }
            TyKind::Tuple(ts) => ts.iter().any(|t| self.user_drop(t, seen)),
            TyKind::Array(t, _) | TyKind::Slice(t) => self.user_drop(*t, seen),
            TyKind::Closure(_, a) => a.as_closure().upvar_tys().iter().any(|t| self.user_drop(t, seen)),
            _ => false,
        }
    }

    fn term(&mut self, b: &mir::Body<'static>, t: &mir::Terminator<'static>) -> Tm {
        let tcx = self.tcx;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => Tm::Goto(target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => Tm::Switch(
                self.opd(discr),
                targets.iter().map(|(v, bb)| (v, bb.as_usize())).collect(),
                targets.otherwise().as_usize(),
            ),
            TerminatorKind::Return => Tm::Return,
            TerminatorKind::Unreachable => Tm::Unreachable,
            TerminatorKind::Drop { target, place, .. } => {
                // destructors of library types have no observable effect here; one of the code under test could
                let t = place.ty(b, tcx).ty;
                if self.user_drop(t, &mut vec![]) {
                    return Tm::Unsupported(format!("drop of {} runs a user destructor", t));
                }
                Tm::Goto(target.as_usize())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(b, tcx);
                let ops: Vec<Opd> = args.iter().map(|a| self.opd(&a.node)).collect();
                let dest = self.place(destination);
                let target = target.map(|t| t.as_usize());
                match fty.kind() {
                    TyKind::FnDef(did, ga) => {
                        let inst = match ty::Instance::try_resolve(tcx, env(), *did, ga.no_bound_vars().unwrap()) {
                            Ok(Some(i)) => i,
                            _ => return Tm::Unsupported(format!("unresolved {}", self.path(*did))),
                        };
                        let sig = tcx.fn_sig(*did).instantiate_identity().skip_norm_wip();
                        let rust_call = sig.abi() == rustc_abi::ExternAbi::RustCall;
                        let spread = rust_call && tcx.is_closure_like(inst.def_id()) && matches!(inst.def, ty::InstanceKind::Item(_));
                        Tm::Call { callee: Callee::Static(inst), args: ops, dest, target, spread }
                    }
                    _ => {
                        let f = self.opd(func);
                        Tm::Call { callee: Callee::Dyn(f), args: ops, dest, target, spread: false }
                    }
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => Tm::Assert {
                cond: self.opd(cond),
                expected: *expected,
                msg: format!("{:?}", msg),
                target: target.as_usize(),
            },
            TerminatorKind::FalseEdge { real_target, .. } => Tm::Goto(real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => Tm::Goto(real_target.as_usize()),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => Tm::Unreachable,
            k => Tm::Unsupported(format!("terminator {:?}", k)),
        }
    }

    fn new_const(&mut self, v: Val) -> u32 {
        self.consts.push(v);
        (self.consts.len() - 1) as u32
    }

    fn path_of_adt(&self, ty: Ty) -> Option<String> {
        ty.ty_adt_def().map(|d| self.path(d.did()))
    }

    /// LazyLock / LazyCell constants are represented as Result<T, F>
    fn lazy_const(&mut self, cv: ConstValue, f: Ty) -> Result<Val, String> {
        let tcx = self.tcx;
        if !matches!(f.kind(), TyKind::FnPtr(..)) {
            return Ok(Val::err(Val::unit()));
        }
        let ConstValue::Indirect { alloc_id, .. } = cv else { return Err("lazy const".into()) };
        let a = tcx.global_alloc(alloc_id).unwrap_memory();
        for (_, prov) in a.inner().provenance().ptrs().iter() {
            if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                return Ok(Val::err(Val::Fn(instance)));
            }
        }
        Err("lazy const: no initialiser".into())
    }

    /// an enum constant, from its layout
    fn const_enum(&mut self, cv: ConstValue, ty: Ty) -> Result<Val, String> {
        use rustc_abi::{TagEncoding, Variants};
        let tcx = self.tcx;
        let ConstValue::Indirect { alloc_id, offset } = cv else { return Err(format!("enum const {}", ty)) };
        let a = tcx.global_alloc(alloc_id).unwrap_memory();
        let lay = tcx.layout_of(env().as_query_input(ty)).map_err(|e| format!("{:?}", e))?;
        let TyKind::Adt(def, args) = ty.kind() else { return Err("enum const".into()) };
        let vi = match &lay.variants {
            Variants::Single { index } => *index,
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let sz = tag.size(&tcx);
                let off = offset + lay.fields.offset(tag_field.as_usize());
                let is_ptr = matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_));
                let t = match a.inner().read_scalar(&tcx, alloc_range(off, sz), is_ptr) {
                    Ok(Scalar::Int(i)) => Some(i.to_bits(sz)),
                    Ok(Scalar::Ptr(..)) => None,
                    Err(_) => return Err(format!("enum tag of {}", ty)),
                };
                match tag_encoding {
                    TagEncoding::Direct => def
                        .discriminants(tcx)
                        .find(|(_, d)| Some(sz.truncate(d.val)) == t)
                        .map(|x| x.0)
                        .ok_or("enum discriminant")?,
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match t {
                        None => *untagged_variant,
                        Some(t) => {
                            let rel = sz.truncate(t.wrapping_sub(*niche_start));
                            let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                            if rel <= n {
                                rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                            } else {
                                *untagged_variant
                            }
                        }
                    },
                }
            }
            _ => return Err(format!("enum const {}", ty)),
        };
        let cx = ty::layout::LayoutCx::new(tcx, env());
        let vl = lay.for_variant(&cx, vi);
        let mut fs = vec![];
        for (i, f) in def.variant(vi).fields.iter().enumerate() {
            let t = tcx.normalize_erasing_regions(env(), f.ty(tcx, args));
            fs.push(self.const_val(ConstValue::Indirect { alloc_id, offset: offset + vl.fields.offset(i) }, t)?);
        }
        Ok(Val::variant(vi.as_u32(), fs))
    }

    /// the cell of a static
    pub fn static_cell(&mut self, did: rustc_hir::def_id::DefId) -> Result<u32, String> {
        if let Some(i) = self.statics.get(&did) {
            return Ok(*i);
        }
        let tcx = self.tcx;
        let Ok(a) = tcx.eval_static_initializer(did) else { return Err(format!("static {}", self.path(did))) };
        let ty = tcx.type_of(did).no_bound_vars().ok_or("static type")?;
        let nid = tcx.reserve_and_set_memory_alloc(a);
        let v = self.const_val(ConstValue::Indirect { alloc_id: nid, offset: rustc_abi::Size::ZERO }, ty)?;
        let id = self.new_const(v.clone());
        STATICS.with(|s| s.borrow_mut().insert(id, v));
        self.statics.insert(did, id);
        Ok(id)
    }

    pub fn const_val(&mut self, cv: ConstValue, ty: Ty) -> Result<Val, String> {
        let tcx = self.tcx;
        match ty.kind() {
            TyKind::Bool => {
                let b = match cv {
                    ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(a) => match a.inner().read_scalar(&tcx, alloc_range(offset, rustc_abi::Size::from_bytes(1)), false) {
                            Ok(Scalar::Int(i)) => i.to_bits(rustc_abi::Size::from_bytes(1)),
                            _ => return Err("bool const indirect".into()),
                        },
                        _ => return Err("bool const alloc".into()),
                    },
                    _ => cv.try_to_bits_for_ty(tcx, env(), ty).ok_or("bool const")?,
                };
                Ok(Val::bool(b != 0))
            }
            TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => {
                let w = int_width(ty).ok_or("width")?;
                let bits = match cv {
                    ConstValue::Indirect { alloc_id, offset } => {
                        let sz = rustc_abi::Size::from_bits(w as u64);
                        match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(a) => {
                                match a.inner().read_scalar(&tcx, alloc_range(offset, sz), false) {
                                    Ok(Scalar::Int(i)) => i.to_bits(sz),
                                    _ => return Err("int const indirect".into()),
                                }
                            }
                            _ => return Err("int const alloc".into()),
                        }
                    }
                    _ => cv.try_to_bits_for_ty(tcx, env(), ty).ok_or_else(|| format!("int const {:?}", cv))?,
                };
                Ok(Val::Int(term::c(w, bits)))
            }
            TyKind::FnDef(..) | TyKind::Never => Ok(Val::unit()),
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => self.const_ptr(cv, *inner),
            TyKind::FnPtr(..) => {
                if let Some(Scalar::Ptr(p, _)) = cv.try_to_scalar() {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        return Ok(Val::Fn(instance));
                    }
                }
                Err("fn ptr const".into())
            }
            TyKind::Adt(def, args) => {
                let p = self.path(def.did());
                match p.as_str() {
                    "alloc::vec::Vec" => return Ok(Val::seq(vec![])),
                    "alloc::string::String" => return Ok(Val::str("")),
                    "alloc::collections::btree::map::BTreeMap" | "alloc::collections::btree::set::BTreeSet" => {
                        return Ok(Val::Map(Rc::new(MapV { sorted: true, entries: vec![] })))
                    }
                    "std::sync::lazy_lock::LazyLock" | "core::cell::lazy::LazyCell" => return self.lazy_const(cv, args.type_at(1)),
                    "std::sync::once_lock::OnceLock" | "core::cell::once::OnceCell" | "lazy_static::lazy::Lazy"
                    | "std::sys::thread_local::native::lazy::Storage" => {
                        return Ok(Val::none())
                    }
                    _ => {}
                }
                if def.is_union() {
                    return Err(format!("union const {}", p));
                }
                let _ = args;
                let d = match tcx.try_destructure_mir_constant_for_user_output(cv, ty) {
                    Some(d) => d,
                    None if def.is_enum() => return self.const_enum(cv, ty),
                    None => return Err(format!("destructure {}", ty)),
                };
                let mut fs = vec![];
                for (v, t) in d.fields.iter() {
                    fs.push(self.const_val(*v, *t)?);
                }
                if def.is_enum() {
                    let vi = d.variant.ok_or("variant")?;
                    Ok(Val::variant(vi.as_u32(), fs))
                } else {
                    Ok(Val::agg(fs))
                }
            }
            TyKind::Tuple(ts) if ts.is_empty() => Ok(Val::unit()),
            TyKind::Tuple(_) | TyKind::Array(..) | TyKind::Closure(..) => {
                if matches!(ty.kind(), TyKind::Closure(..)) && matches!(cv, ConstValue::ZeroSized) {
                    return Ok(Val::unit());
                }
                let d = tcx
                    .try_destructure_mir_constant_for_user_output(cv, ty)
                    .ok_or_else(|| format!("destructure {}", ty))?;
                let mut fs = vec![];
                for (v, t) in d.fields.iter() {
                    fs.push(self.const_val(*v, *t)?);
                }
                Ok(if matches!(ty.kind(), TyKind::Array(..)) { Val::seq(fs) } else { Val::agg(fs) })
            }
            TyKind::Pat(inner, _) => self.const_val(cv, *inner),
            _ => Err(format!("const of type {}", ty)),
        }
    }

    /// pointer constant to `inner`
    fn const_ptr(&mut self, cv: ConstValue, inner: Ty) -> Result<Val, String> {
        let tcx = self.tcx;
        // fetch (alloc, offset, len)
        let ptr_size = rustc_abi::Size::from_bytes(8);
        let (aid, off, len): (mir::interpret::AllocId, u64, Option<u64>) = match cv {
            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0, Some(meta)),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                (prov.alloc_id(), off.bytes(), None)
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                let _ = i;
                return Ok(Val::ptr(Base::Dangling, vec![], Meta::None));
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = match tcx.global_alloc(alloc_id) {
                    GlobalAlloc::Memory(a) => a,
                    _ => return Err("ptr const".into()),
                };
                let p = a
                    .inner()
                    .read_scalar(&tcx, alloc_range(offset, ptr_size), true)
                    .map_err(|_| "ptr const read")?;
                let (prov, off) = match p {
                    Scalar::Ptr(p, _) => p.into_raw_parts(),
                    _ => {
                        if let TyKind::Slice(_) = inner.kind() {
                            let id = self.new_const(Val::seq(vec![]));
                            return Ok(Val::ptr(Base::Const(id), vec![], Meta::Slice(0, 0)));
                        }
                        if inner.is_str() {
                            return Ok(Val::str(""));
                        }
                        return Ok(Val::ptr(Base::Dangling, vec![], Meta::None));
                    }
                };
                let len = if matches!(inner.kind(), TyKind::Slice(_) | TyKind::Str) {
                    match a.inner().read_scalar(&tcx, alloc_range(offset + ptr_size, ptr_size), false) {
                        Ok(Scalar::Int(i)) => Some(i.to_bits(ptr_size) as u64),
                        _ => None,
                    }
                } else {
                    None
                };
                (prov.alloc_id(), off.bytes(), len)
            }
            ConstValue::ZeroSized => return Err("zst ptr".into()),
        };
        match tcx.global_alloc(aid) {
            GlobalAlloc::Function { instance } => return Ok(Val::Fn(instance)),
            GlobalAlloc::Static(did) => {
                if off != 0 {
                    return Err(format!("pointer into static {}", self.path(did)));
                }
                let id = self.static_cell(did)?;
                let m = match (inner.kind(), len) {
                    (TyKind::Slice(_), Some(n)) => Meta::Slice(0, n as u32),
                    _ => Meta::None,
                };
                return Ok(Val::ptr(Base::Const(id), vec![], m));
            }
            GlobalAlloc::Memory(_) => {}
            _ => return Err("const ptr to vtable".into()),
        }
        match inner.kind() {
            TyKind::Str => {
                let a = tcx.global_alloc(aid).unwrap_memory();
                let n = len.ok_or("str len")?;
                let bytes = a
                    .inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                Ok(Val::str(std::str::from_utf8(bytes).map_err(|e| e.to_string())?))
            }
            TyKind::Slice(el) => {
                let n = len.ok_or("slice len")?;
                if let Some(id) = self.alloc_cache.get(&(aid, off, inner)) {
                    return Ok(Val::ptr(Base::Const(*id), vec![], Meta::Slice(0, n as u32)));
                }
                let lay = tcx.layout_of(env().as_query_input(*el)).map_err(|e| format!("{:?}", e))?;
                let mut v = vec![];
                for i in 0..n {
                    let o = rustc_abi::Size::from_bytes(off + i * lay.size.bytes());
                    v.push(self.const_val(ConstValue::Indirect { alloc_id: aid, offset: o }, *el)?);
                }
                let id = self.new_const(Val::seq(v));
                self.alloc_cache.insert((aid, off, inner), id);
                Ok(Val::ptr(Base::Const(id), vec![], Meta::Slice(0, n as u32)))
            }
            TyKind::Dynamic(..) => Err("const dyn".into()),
            _ => {
                if let Some(id) = self.alloc_cache.get(&(aid, off, inner)) {
                    return Ok(Val::ptr(Base::Const(*id), vec![], Meta::None));
                }
                let _ = self.path_of_adt(inner);
                let lay = tcx.layout_of(env().as_query_input(inner)).map_err(|e| format!("{:?}", e))?;
                let v = if lay.is_zst() {
                    self.const_val(ConstValue::ZeroSized, inner)?
                } else {
                    self.const_val(
                        ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off) },
                        inner,
                    )?
                };
                let id = self.new_const(v);
                self.alloc_cache.insert((aid, off, inner), id);
                Ok(Val::ptr(Base::Const(id), vec![], Meta::None))
            }
        }
    }

    pub fn resolve(&self, did: rustc_hir::def_id::DefId, args: ty::GenericArgsRef<'static>) -> Option<Inst> {
        ty::Instance::try_resolve(self.tcx, env(), did, args).ok().flatten()
    }
    #[allow(dead_code)]
    pub fn span() -> rustc_span::Span {
        DUMMY_SP
    }
}

pub fn int_width(ty: Ty) -> Option<u32> {
    Some(match ty.kind() {
        TyKind::Bool => 0,
        TyKind::Char => 32,
        TyKind::Int(i) => i.bit_width().unwrap_or(64) as u32,
        TyKind::Uint(i) => i.bit_width().unwrap_or(64) as u32,
        TyKind::Float(f) => f.bit_width() as u32,
        TyKind::Pat(t, _) => return int_width(*t),
        _ => return None,
    })
}

fn succs(t: &Tm) -> Vec<usize> {
    match t {
        Tm::Goto(b) => vec![*b],
        Tm::Switch(_, ts, o) => {
            let mut v: Vec<usize> = ts.iter().map(|x| x.1).collect();
            v.push(*o);
            v
        }
        Tm::Call { target: Some(t), .. } => vec![*t],
        Tm::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

fn post_dominators(blocks: &[Block]) -> Vec<Option<usize>> {
    let n = blocks.len();
    let exit = n;
    // blocks that can reach a Return
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut sc: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, b) in blocks.iter().enumerate() {
        let mut s = succs(&b.term);
        if matches!(b.term, Tm::Return) {
            s = vec![exit];
        }
        for &x in &s {
            preds[x].push(i);
        }
        sc[i] = s;
    }
    let mut reach = vec![false; n + 1];
    let mut st = vec![exit];
    reach[exit] = true;
    let mut order = vec![];
    while let Some(x) = st.pop() {
        order.push(x);
        for &p in &preds[x] {
            if !reach[p] {
                reach[p] = true;
                st.push(p);
            }
        }
    }
    // postorder on reverse graph for the Cooper-Harvey-Kennedy algorithm
    let mut num = vec![usize::MAX; n + 1];
    let mut post: Vec<usize> = vec![];
    {
        let mut seen = vec![false; n + 1];
        let mut stack: Vec<(usize, usize)> = vec![(exit, 0)];
        seen[exit] = true;
        while let Some((x, i)) = stack.pop() {
            if i < preds[x].len() {
                stack.push((x, i + 1));
                let p = preds[x][i];
                if !seen[p] {
                    seen[p] = true;
                    stack.push((p, 0));
                }
            } else {
                num[x] = post.len();
                post.push(x);
            }
        }
    }
    let mut idom: Vec<Option<usize>> = vec![None; n + 1];
    idom[exit] = Some(exit);
    let mut changed = true;
    while changed {
        changed = false;
        for &x in post.iter().rev() {
            if x == exit {
                continue;
            }
            let mut new: Option<usize> = None;
            for &s in &sc[x] {
                if !reach[s] || idom[s].is_none() {
                    continue;
                }
                new = Some(match new {
                    None => s,
                    Some(mut a) => {
                        let mut b = s;
                        while a != b {
                            while num[a] < num[b] {
                                a = idom[a].unwrap();
                            }
                            while num[b] < num[a] {
                                b = idom[b].unwrap();
                            }
                        }
                        a
                    }
                });
            }
            if new.is_some() && idom[x] != new {
                idom[x] = new;
                changed = true;
            }
        }
    }
    (0..n).map(|i| idom[i].filter(|&x| x != exit)).collect()
}

fn liveness(blocks: &[Block], nl: usize) -> Vec<Vec<bool>> {
    // address-taken locals are always considered live
    let mut always = vec![false; nl];
    always[0] = true;
    let mut uses: Vec<Vec<bool>> = vec![];
    let mut defs: Vec<Vec<bool>> = vec![];
    fn use_place(p: &Place, u: &mut Vec<bool>, d: &Vec<bool>) {
        if !d[p.local as usize] {
            u[p.local as usize] = true;
        }
        for e in &p.proj {
            if let PElem::Index(l) = e {
                if !d[*l as usize] {
                    u[*l as usize] = true;
                }
            }
        }
    }
    fn use_opd(o: &Opd, u: &mut Vec<bool>, d: &Vec<bool>) {
        match o {
            Opd::Copy(p) | Opd::Move(p) => use_place(p, u, d),
            _ => {}
        }
    }
    for b in blocks {
        let mut u = vec![false; nl];
        let mut d = vec![false; nl];
        for s in &b.stmts {
            match s {
                St::Assign(p, rv) => {
                    match rv {
                        Rv::Use(o) | Rv::Cast(_, o, _, _) | Rv::Un(_, o, _) | Rv::Repeat(o, _) => use_opd(o, &mut u, &d),
                        Rv::BoxAlias(p) | Rv::BoxDeref(p) | Rv::Ref(p) => {
                            use_place(p, &mut u, &d);
                            if !p.proj.iter().any(|e| matches!(e, PElem::Deref)) {
                                always[p.local as usize] = true;
                            }
                        }
                        Rv::Disc(p, _) => use_place(p, &mut u, &d),
                        Rv::Bin(_, a, b, _) | Rv::RawPtr(a, b) => {
                            use_opd(a, &mut u, &d);
                            use_opd(b, &mut u, &d);
                        }
                        Rv::Agg(v) | Rv::Variant(_, v) | Rv::Array(v) => v.iter().for_each(|o| use_opd(o, &mut u, &d)),
                        Rv::Unsupported(_) => {}
                    }
                    if p.proj.is_empty() {
                        d[p.local as usize] = true;
                    } else {
                        use_place(p, &mut u, &d);
                    }
                }
                St::SetDisc(p, _) => use_place(p, &mut u, &d),
                St::Dead(l) => d[*l as usize] = true,
                _ => {}
            }
        }
        match &b.term {
            Tm::Switch(o, _, _) => use_opd(o, &mut u, &d),
            Tm::Call { callee, args, dest, .. } => {
                if let Callee::Dyn(o) = callee {
                    use_opd(o, &mut u, &d);
                }
                args.iter().for_each(|o| use_opd(o, &mut u, &d));
                if dest.proj.is_empty() {
                    d[dest.local as usize] = true;
                } else {
                    use_place(dest, &mut u, &d);
                }
            }
            Tm::Assert { cond, .. } => use_opd(cond, &mut u, &d),
            _ => {}
        }
        uses.push(u);
        defs.push(d);
    }
    let n = blocks.len();
    let mut live: Vec<Vec<bool>> = uses.clone();
    let mut changed = true;
    while changed {
        changed = false;
        for i in (0..n).rev() {
            for s in succs(&blocks[i].term) {
                for l in 0..nl {
                    if live[s][l] && !defs[i][l] && !live[i][l] {
                        live[i][l] = true;
                        changed = true;
                    }
                }
            }
        }
    }
    for i in 0..n {
        for l in 0..nl {
            if always[l] {
                live[i][l] = true;
            }
        }
    }
    live
}
