//! Lowers monomorphic MIR to a small interpreter form (types and layouts resolved).
use crate::mem::*;
use crate::val::*;
use rustc_abi::{self, BackendRepr, FieldIdx, FieldsShape, Primitive, Scalar as AbiScalar, TagEncoding, VariantIdx, Variants};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, interpret::{AllocId, GlobalAlloc, Scalar}, ConstValue};
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// How a place's type is accessed.
#[derive(Clone, Debug, PartialEq)]
pub enum Acc {
    Zst,
    /// One scalar; `valid` is the inclusive (possibly wrapping) valid range if narrower than the type.
    Scalar { size: u32, valid: Option<(u128, u128)>, init: bool, ptr: bool },
    Mem { size: u32 },
    Unsized,
}
impl Acc {
    pub fn size(&self) -> u32 {
        match self { Acc::Zst | Acc::Unsized => 0, Acc::Scalar { size, .. } | Acc::Mem { size } => *size }
    }
}
#[derive(Clone, Debug)]
pub enum Pj {
    Off(u64),
    /// Dereference; the pointer is fat if `fat`; `raw` if through a raw pointer.
    Deref { fat: bool, raw: bool },
    Idx { local: u32, stride: u64, count: Option<u64> },
    CIdx { off: u64, from_end: bool, stride: u64, count: Option<u64> },
    Sub { from: u64, to: u64, from_end: bool, stride: u64, slice: bool },
}
#[derive(Clone, Debug)]
pub struct Pl {
    pub local: u32,
    pub proj: Box<[Pj]>,
    pub acc: Acc,
    /// Validity of the loaded value must be established here (raw dereference or union field).
    pub chk: Option<Rc<Vec<(u32, u32, u128, u128)>>>,
    pub align: u32,
    /// Elements per unit of metadata, for slices: element size.
    pub slice_elem: Option<u32>,
}
#[derive(Clone, Debug)]
pub enum Op {
    Use(Pl),
    K(Rc<Vec<Ch>>, Acc),
    Flag(Flag),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flag { Ub, Overflow, Contract }
#[derive(Clone, Debug)]
pub enum DI {
    Const(u128),
    Direct { off: u32, size: u32, signed: bool, to: u32, valid: Vec<u128> },
    Niche { off: u32, size: u32, start: u128, first: u32, count: u32, untagged: u32, discr: Vec<u128>, ptr: bool },
    Bad,
}
#[derive(Clone, Debug)]
pub enum CastK {
    Int { from: u32, signed: bool, to: u32 },
    /// Pointer to pointer, dropping metadata if `drop_meta`.
    Ptr { drop_meta: bool },
    Unsize { meta: Option<u128>, vt: Option<u32> },
    Fn(u32),
    Transmute { valid: Rc<Vec<(u32, u32, u128, u128)>>, size: u32 },
    Addr,
    FromAddr,
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Repeat(Op, u64),
    Ref(Pl, bool),
    Cast(CastK, Op),
    Bin { op: BOp, kind: BK, bits: u32, signed: bool, ybits: u32, ysigned: bool, a: Op, b: Op, ptr: bool, elem: u64 },
    Un { not: bool, boolean: bool, bits: u32, signed: bool, a: Op },
    PtrMeta(Op),
    Discr(Pl, DI),
    Agg(Vec<(u32, Op)>, Option<(u32, u32, u128)>, bool),
    Unsup(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BK { Wrap, With, Unchecked }
#[derive(Clone, Debug)]
pub enum St {
    Assign(Pl, Rv),
    SetDiscr(Pl, Option<(u32, u32, u128)>),
    Live(u32),
    Dead(u32),
    Assume(Op),
    CopyNon { src: Op, dst: Op, count: Op, size: u64 },
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Dyn(Op),
    Virtual { slot: u32 },
}
#[derive(Clone, Debug)]
pub enum Tm {
    Goto(u32),
    Switch { op: Op, arms: Vec<(u128, u32)>, other: u32 },
    Return,
    Unreachable,
    Call { f: Callee, args: Vec<Op>, dest: Pl, ret: Option<u32>, untuple: Option<Vec<(u32, u32)>> },
    Drop { f: Option<u32>, place: Pl, target: u32 },
    Assert { cond: Op, expected: bool, msg: String, target: u32 },
    Unsup(String),
}
#[derive(Debug)]
pub struct Blk {
    pub stmts: Vec<St>,
    pub term: Tm,
    pub spans: Vec<u32>,
}
#[derive(Debug)]
pub struct Local {
    pub size: u32,
    pub align: u32,
    pub ty: String,
}
#[derive(Debug)]
pub struct Fun {
    pub name: String,
    pub file: String,
    pub nargs: usize,
    pub spread: Option<(usize, Vec<u32>)>,
    pub locals: Vec<Local>,
    pub ret: Acc,
    pub blocks: Vec<Blk>,
    pub head: Vec<bool>,
    /// Blocks with several predecessors.
    pub merge: Vec<bool>,
    pub rpo: Vec<u32>,
    /// Locals dead on entry to a loop head.
    pub dead_at: Vec<Vec<u32>>,
    pub zst_self: bool,
    pub local_crate: bool,
}
/// A known function.
pub struct FnInfo<'tcx> {
    pub inst: Instance<'tcx>,
    pub path: String,
    pub body: RefCell<Option<Result<Rc<Fun>, String>>>,
    pub never: bool,
    pub local: bool,
    pub hook: Option<crate::exec::Hook>,
}
pub struct GAlloc {
    pub mem: Mem,
    pub size: u64,
    pub align: u32,
    pub mutable: bool,
    pub is_static: bool,
}

pub struct Lower<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub fns: RefCell<Vec<Rc<FnInfo<'tcx>>>>,
    fn_ix: RefCell<HashMap<Instance<'tcx>, u32>>,
    raw_ix: RefCell<HashMap<Instance<'tcx>, u32>>,
    pub globals: RefCell<Vec<Rc<GAlloc>>>,
    glob_ix: RefCell<HashMap<AllocId, u32>>,
    pub vtables: RefCell<Vec<(Ty<'tcx>, Option<ty::PolyExistentialTraitRef<'tcx>>)>>,
    /// Statics that were read.
    pub statics: RefCell<Vec<DefId>>,
}

pub fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Lower<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Lower {
            tcx, env: TypingEnv::fully_monomorphized(), fns: Default::default(), fn_ix: Default::default(), raw_ix: Default::default(),
            globals: Default::default(), glob_ix: Default::default(), vtables: Default::default(), statics: Default::default(),
        }
    }
    pub fn layout(&self, t: Ty<'tcx>) -> Result<TyAndLayout<'tcx>, String> {
        self.tcx.layout_of(self.env.as_query_input(t)).map_err(|e| format!("no layout of {t}: {e:?}"))
    }
    /// The function itself, without the model that replaces it elsewhere.
    pub fn intern_body(&self, inst: Instance<'tcx>) -> u32 {
        if let Some(i) = self.raw_ix.borrow().get(&inst) { return *i; }
        let tcx = self.tcx;
        let d = inst.def_id();
        let info = FnInfo { inst, path: tcx.def_path_str_with_args(d, inst.args), body: RefCell::new(None), never: false, local: d.is_local(), hook: None };
        let mut v = self.fns.borrow_mut();
        v.push(Rc::new(info));
        let i = v.len() as u32 - 1;
        drop(v);
        self.raw_ix.borrow_mut().insert(inst, i);
        i
    }
    pub fn intern(&self, inst: Instance<'tcx>) -> u32 {
        if let Some(i) = self.fn_ix.borrow().get(&inst) { return *i; }
        let tcx = self.tcx;
        let path = match inst.def {
            InstanceKind::Item(d) | InstanceKind::Intrinsic(d) | InstanceKind::Virtual(d, _) | InstanceKind::LlvmIntrinsic(d) => with_no_trimmed_paths!(ty::print::with_no_visible_paths!({
                if tcx.is_closure_like(d) { tcx.def_path_str(d) } else { tcx.def_path_str_with_args(d, inst.args) }
            })),
            InstanceKind::Shim(ShimKind::DropGlue(_, t)) => format!("drop_glue<{}>", t.map(|t| with_no_trimmed_paths!(t.to_string())).unwrap_or_default()),
            o => format!("{o:?}"),
        };
        let d = inst.def_id();
        let never = match inst.def {
            InstanceKind::Item(d) if !tcx.is_closure_like(d) => tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().output().is_never(),
            _ => false,
        };
        let hook = crate::exec::hook_for(self, inst, &path);
        let info = FnInfo { inst, path, body: RefCell::new(None), never, local: d.is_local(), hook };
        let mut v = self.fns.borrow_mut();
        v.push(Rc::new(info));
        let i = v.len() as u32 - 1;
        drop(v);
        self.fn_ix.borrow_mut().insert(inst, i);
        i
    }
    pub fn info(&self, f: u32) -> Rc<FnInfo<'tcx>> { self.fns.borrow()[f as usize].clone() }
    pub fn body(&self, f: u32) -> Result<Rc<Fun>, String> {
        let info = self.info(f);
        if let Some(b) = &*info.body.borrow() { return b.clone(); }
        let r = self.lower(info.inst, &info.path).map(Rc::new);
        *info.body.borrow_mut() = Some(r.clone());
        r
    }
    pub fn vtable(&self, t: Ty<'tcx>, tr: Option<ty::PolyExistentialTraitRef<'tcx>>) -> u32 {
        let mut v = self.vtables.borrow_mut();
        if let Some(i) = v.iter().position(|x| *x == (t, tr)) { return i as u32; }
        v.push((t, tr));
        v.len() as u32 - 1
    }
    pub fn glob(&self, id: AllocId) -> Result<u32, String> {
        if let Some(i) = self.glob_ix.borrow().get(&id) { return Ok(*i); }
        let (alloc, mutable, is_static) = match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => (a, false, false),
            GlobalAlloc::Static(d) => {
                self.statics.borrow_mut().push(d);
                let a = self.tcx.eval_static_initializer(d).map_err(|_| "static initializer".to_string())?;
                // a static that cannot change is as good as a constant
                let fixed = !self.tcx.is_mutable_static(d) && self.tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(self.tcx, self.env);
                (a, !fixed, !fixed)
            }
            _ => return Err("unsupported global".into()),
        };
        let i = self.globals.borrow().len() as u32;
        self.globals.borrow_mut().push(Rc::new(GAlloc { mem: Mem::Dead, size: 0, align: 1, mutable, is_static }));
        self.glob_ix.borrow_mut().insert(id, i);
        let inner = alloc.inner();
        let size = inner.size().bytes();
        if size > 1 << 20 { return Err("large constant".into()); }
        let mem = Mem::from_chunks(self.alloc_chunks(alloc, 0, size, &[])?);
        self.globals.borrow_mut()[i as usize] = Rc::new(GAlloc { mem, size, align: inner.align.bytes() as u32, mutable, is_static });
        Ok(i)
    }
    /// Chunks of an allocation's range; `cuts` gives preferred (offset, length) units, other bytes are single.
    fn alloc_chunks(&self, alloc: mir::interpret::ConstAllocation<'tcx>, off: u64, size: u64, cuts: &[(u32, u32)]) -> Result<Vec<Ch>, String> {
        let a = alloc.inner();
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.size().bytes_usize());
        let init = a.init_mask();
        let mut out = vec![];
        let mut pos = 0u64;
        let mut ci = 0;
        while pos < size {
            let abs = off + pos;
            if let Some(prov) = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(abs)) {
                let base = self.ptr_base(prov.alloc_id())?;
                let mut o = 0i64;
                for k in (0..8).rev() { o = o << 8 | bytes[abs as usize + k] as i64; }
                out.push(Ch { off: pos as u32, len: 8, v: V::P(Ptr { base, off: o }) });
                pos += 8;
                continue;
            }
            while ci < cuts.len() && (cuts[ci].0 as u64) < pos { ci += 1; }
            let len = if ci < cuts.len() && cuts[ci].0 as u64 == pos { cuts[ci].1 as u64 } else { 1 };
            let ok = (0..len).all(|k| init.get(rustc_abi::Size::from_bytes(abs + k)));
            if ok {
                let mut x = 0u128;
                for k in (0..len).rev() { x = x << 8 | bytes[(abs + k) as usize] as u128; }
                out.push(Ch { off: pos as u32, len: len as u32, v: V::c(x) });
                pos += len;
            } else {
                for k in 0..len {
                    if init.get(rustc_abi::Size::from_bytes(abs + k)) {
                        out.push(Ch { off: (pos + k) as u32, len: 1, v: V::c(bytes[(abs + k) as usize] as u128) });
                    }
                }
                pos += len;
            }
        }
        Ok(out)
    }
    fn ptr_base(&self, id: AllocId) -> Result<Base, String> {
        Ok(match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => Base::F(self.intern(instance)),
            GlobalAlloc::VTable(t, preds) => Base::VT(self.vtable(t, preds.principal())),
            _ => Base::G(self.glob(id)?),
        })
    }
    /// Scalar units of a type (offset, length), where statically known.
    pub fn cuts(&self, t: Ty<'tcx>) -> Vec<(u32, u32)> {
        let mut v = vec![];
        if let Ok(l) = self.layout(t) { self.cuts_rec(l, 0, &mut v); }
        v
    }
    fn cuts_rec(&self, l: TyAndLayout<'tcx>, base: u32, v: &mut Vec<(u32, u32)>) {
        if l.is_zst() { return; }
        match l.backend_repr {
            BackendRepr::Scalar(s) => { v.push((base, s.size(&self.tcx).bytes() as u32)); return; }
            _ => {}
        }
        match &l.fields {
            FieldsShape::Array { stride, count } => {
                if let ty::Array(e, _) = l.ty.kind() {
                    if let Ok(el) = self.layout(*e) {
                        for i in 0..*count { self.cuts_rec(el, base + (stride.bytes() * i) as u32, v); }
                    }
                }
            }
            FieldsShape::Arbitrary { .. } => {
                if let Variants::Multiple { tag, tag_field, .. } = &l.variants {
                    let o = l.fields.offset(tag_field.as_usize()).bytes() as u32;
                    v.push((base + o, tag.size(&self.tcx).bytes() as u32));
                    return;
                }
                let mut idx: Vec<usize> = (0..l.fields.count()).collect();
                idx.sort_by_key(|i| l.fields.offset(*i));
                let cx = ty::layout::LayoutCx::new(self.tcx, self.env);
                for i in idx { self.cuts_rec(l.field(&cx, i), base + l.fields.offset(i).bytes() as u32, v); }
            }
            _ => {}
        }
    }
    /// (offset, size, lo, hi) of every scalar of the type whose valid range is restricted.
    pub fn valid_ranges(&self, t: Ty<'tcx>) -> Rc<Vec<(u32, u32, u128, u128)>> {
        let mut v = vec![];
        if let Ok(l) = self.layout(t) { self.valid_rec(l, 0, &mut v, 0); }
        Rc::new(v)
    }
    fn valid_rec(&self, l: TyAndLayout<'tcx>, base: u32, v: &mut Vec<(u32, u32, u128, u128)>, depth: u32) {
        if l.is_zst() || depth > 8 { return; }
        if let BackendRepr::Scalar(s) = l.backend_repr {
            if let AbiScalar::Initialized { value, valid_range } = s {
                let sz = value.size(&self.tcx);
                if !valid_range.is_full_for(sz) {
                    v.push((base, sz.bytes() as u32, valid_range.start, valid_range.end));
                }
            }
            return;
        }
        match &l.fields {
            FieldsShape::Array { stride, count } => {
                if let ty::Array(e, _) = l.ty.kind() {
                    if let Ok(el) = self.layout(*e) {
                        if *count <= 4096 { for i in 0..*count { self.valid_rec(el, base + (stride.bytes() * i) as u32, v, depth + 1); } }
                    }
                }
            }
            FieldsShape::Arbitrary { .. } => {
                if let Variants::Multiple { tag, tag_field, .. } = &l.variants {
                    if let AbiScalar::Initialized { value, valid_range } = tag {
                        let sz = value.size(&self.tcx);
                        if !valid_range.is_full_for(sz) {
                            v.push((base + l.fields.offset(tag_field.as_usize()).bytes() as u32, sz.bytes() as u32, valid_range.start, valid_range.end));
                        }
                    }
                    return;
                }
                let cx = ty::layout::LayoutCx::new(self.tcx, self.env);
                for i in 0..l.fields.count() { self.valid_rec(l.field(&cx, i), base + l.fields.offset(i).bytes() as u32, v, depth + 1); }
            }
            _ => {}
        }
    }
    pub fn acc(&self, l: TyAndLayout<'tcx>) -> Acc {
        if l.is_unsized() { return Acc::Unsized; }
        if l.is_zst() { return Acc::Zst; }
        match l.backend_repr {
            BackendRepr::Scalar(s) => {
                let size = s.size(&self.tcx).bytes() as u32;
                let (valid, init) = match s {
                    AbiScalar::Initialized { value, valid_range } => {
                        if valid_range.is_full_for(value.size(&self.tcx)) { (None, true) } else { (Some((valid_range.start, valid_range.end)), true) }
                    }
                    _ => (None, false),
                };
                if l.size.bytes() as u32 != size { return Acc::Mem { size: l.size.bytes() as u32 }; }
                Acc::Scalar { size, valid, init, ptr: matches!(s.primitive(), Primitive::Pointer(_)) }
            }
            _ => Acc::Mem { size: l.size.bytes() as u32 },
        }
    }
    pub fn scalar_to_v(&self, s: Scalar) -> Result<V, String> {
        Ok(match s {
            Scalar::Int(i) => V::c(i.to_bits(i.size())),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                V::P(Ptr { base: self.ptr_base(prov.alloc_id())?, off: off.bytes() as i64 })
            }
        })
    }
    pub fn const_chunks(&self, v: ConstValue, t: Ty<'tcx>) -> Result<(Vec<Ch>, Acc), String> {
        let l = self.layout(t)?;
        let acc = self.acc(l);
        let sz = l.size.bytes();
        Ok((match v {
            ConstValue::ZeroSized => vec![],
            ConstValue::Scalar(s) => vec![Ch { off: 0, len: sz as u32, v: self.scalar_to_v(s)? }],
            ConstValue::Slice { alloc_id, meta } => {
                let p = Ptr { base: Base::G(self.glob(alloc_id)?), off: 0 };
                vec![Ch { off: 0, len: 8, v: V::P(p) }, Ch { off: 8, len: 8, v: V::c(meta as u128) }]
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.tcx.global_alloc(alloc_id).unwrap_memory();
                self.alloc_chunks(a, offset.bytes(), sz, &self.cuts(t))?
            }
        }, acc))
    }
    pub fn discr_info(&self, t: Ty<'tcx>) -> Result<DI, String> {
        let l = self.layout(t)?;
        let tcx = self.tcx;
        let discr_of = |v: VariantIdx| t.discriminant_for_variant(tcx, v).map(|d| d.val).unwrap_or(v.as_u32() as u128);
        Ok(match &l.variants {
            Variants::Empty => DI::Bad,
            Variants::Single { index } => DI::Const(discr_of(*index)),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes() as u32;
                let size = tag.size(&tcx).bytes() as u32;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let to = self.layout(t.discriminant_ty(tcx))?.size.bits() as u32;
                        let signed = matches!(tag.primitive(), Primitive::Int(_, true));
                        let valid = match t.kind() {
                            ty::Adt(d, _) => d.discriminants(tcx).map(|(_, d)| d.val & wmask(size * 8)).collect(),
                            _ => vec![],
                        };
                        DI::Direct { off, size, signed, to, valid }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let n = match t.kind() { ty::Adt(d, _) => d.variants().len(), _ => return Err("niche of a non-enum".into()) };
                        DI::Niche {
                            off, size, start: *niche_start,
                            first: niche_variants.start.as_u32(),
                            count: niche_variants.last.as_u32() - niche_variants.start.as_u32() + 1,
                            untagged: untagged_variant.as_u32(),
                            discr: (0..n).map(|i| discr_of(VariantIdx::from_usize(i))).collect(),
                            ptr: matches!(tag.primitive(), Primitive::Pointer(_)),
                        }
                    }
                }
            }
        })
    }
    /// (offset, size, value) to store for a variant.
    pub fn tag_of(&self, t: Ty<'tcx>, v: VariantIdx) -> Result<Option<(u32, u32, u128)>, String> {
        let l = self.layout(t)?;
        Ok(match &l.variants {
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes() as u32;
                let size = tag.size(&self.tcx).bytes() as u32;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let d = t.discriminant_for_variant(self.tcx, v).map(|d| d.val).unwrap_or(v.as_u32() as u128);
                        Some((off, size, d & wmask(size * 8)))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == *untagged_variant { None } else {
                            let rel = (v.as_u32() - niche_variants.start.as_u32()) as u128;
                            Some((off, size, niche_start.wrapping_add(rel) & wmask(size * 8)))
                        }
                    }
                }
            }
            _ => None,
        })
    }

    fn lower(&self, inst: Instance<'tcx>, path: &str) -> Result<Fun, String> {
        let tcx = self.tcx;
        let d = inst.def_id();
        let (body, local_crate) = match inst.def {
            InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) { return Err(format!("foreign function {path}")); }
                if !tcx.is_mir_available(d) { return Err(format!("no MIR for {path}")); }
                (tcx.instance_mir(inst.def), d.is_local())
            }
            InstanceKind::Shim(_) => (tcx.instance_mir(inst.def), false),
            _ => return Err(format!("cannot lower {path}")),
        };
        let body: mir::Body<'tcx> = if inst.def.has_polymorphic_mir_body() {
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone()))
        } else { body.clone() };
        let cx = FnCx { lw: self, body: &body };
        let mut locals = vec![];
        for ld in body.local_decls.iter() {
            let l = self.layout(ld.ty);
            match l {
                Ok(l) => locals.push(Local { size: if l.is_unsized() { 0 } else { l.size.bytes() as u32 }, align: l.align.abi.bytes() as u32, ty: ld.ty.to_string() }),
                Err(e) => return Err(e),
            }
        }
        let spread = match body.spread_arg {
            None => None,
            Some(l) => {
                let t = body.local_decls[l].ty;
                let lay = self.layout(t)?;
                let ty::Tuple(fs) = t.kind() else { return Err("spread_arg".into()) };
                Some((l.as_usize(), (0..fs.len()).map(|i| lay.fields.offset(i).bytes() as u32).collect()))
            }
        };
        let mut blocks = vec![];
        for (_, bd) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            let mut spans = vec![];
            for s in &bd.statements {
                let st = match cx.stmt(s) { Ok(Some(s)) => s, Ok(None) => continue, Err(e) => St::Unsup(e) };
                stmts.push(st);
                spans.push(self.line(s.source_info.span));
            }
            let t = bd.terminator();
            let term = if bd.is_cleanup { Tm::Unsup("cleanup".into()) } else { cx.term(t).unwrap_or_else(Tm::Unsup) };
            spans.push(self.line(t.source_info.span));
            blocks.push(Blk { stmts, term, spans });
        }
        let zst_self = tcx.is_closure_like(d) && body.arg_count > 0 && locals[1].size == 0;
        let (head, rpo, dead_at, merge) = analyse(&body);
        let sm = tcx.sess.source_map();
        let file = sm.lookup_char_pos(body.span.lo()).file.name.prefer_local_unconditionally().to_string();
        let ret = self.acc(self.layout(body.local_decls[mir::RETURN_PLACE].ty)?);
        Ok(Fun { name: path.to_string(), file, nargs: body.arg_count, spread, locals, ret, blocks, head, merge, rpo, dead_at, zst_self, local_crate })
    }
    pub fn line(&self, s: rustc_span::Span) -> u32 {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line as u32
    }
}

/// Loop heads (targets of back edges), reverse postorder, and locals dead at each head.
fn analyse(body: &mir::Body<'_>) -> (Vec<bool>, Vec<u32>, Vec<Vec<u32>>, Vec<bool>) {
    let n = body.basic_blocks.len();
    let mut head = vec![false; n];
    let mut state = vec![0u8; n];
    let mut post = vec![];
    let mut stack: Vec<(usize, Vec<usize>, usize)> = vec![];
    let succ = |b: usize| -> Vec<usize> {
        body.basic_blocks[mir::BasicBlock::from_usize(b)].terminator().successors().map(|x| x.as_usize())
            .filter(|x| !body.basic_blocks[mir::BasicBlock::from_usize(*x)].is_cleanup).collect()
    };
    stack.push((0, succ(0), 0));
    state[0] = 1;
    while let Some((b, s, i)) = stack.last_mut() {
        if *i < s.len() {
            let t = s[*i];
            *i += 1;
            if state[t] == 0 { state[t] = 1; let st = succ(t); stack.push((t, st, 0)); }
            else if state[t] == 1 { head[t] = true; }
        } else {
            state[*b] = 2;
            post.push(*b);
            stack.pop();
        }
    }
    let mut rpo = vec![0u32; n];
    for (i, b) in post.iter().rev().enumerate() { rpo[*b] = i as u32; }
    let mut dead_at = vec![vec![]; n];
    {
        let (live, borrowed) = liveness(body, &succ);
        for b in 0..n {
            for l in 0..body.local_decls.len() {
                if !borrowed[l] && !live[b][l] { dead_at[b].push(l as u32); }
            }
        }
    }
    let mut preds = vec![0; n];
    for b in 0..n { if state[b] == 2 { let mut t = succ(b); t.sort(); t.dedup(); for t in t { preds[t] += 1; } } }
    (head, rpo, dead_at, preds.into_iter().map(|x| x > 1).collect())
}

struct Uses {
    used: Vec<u32>,
    defd: Vec<u32>,
    borrowed: Vec<u32>,
}
impl<'tcx> mir::visit::Visitor<'tcx> for Uses {
    fn visit_place(&mut self, p: &mir::Place<'tcx>, c: mir::visit::PlaceContext, loc: mir::Location) {
        use mir::visit::*;
        let l = p.local.as_u32();
        match c {
            PlaceContext::MutatingUse(MutatingUseContext::Store | MutatingUseContext::Call) if p.projection.is_empty() => self.defd.push(l),
            PlaceContext::NonMutatingUse(NonMutatingUseContext::SharedBorrow | NonMutatingUseContext::FakeBorrow | NonMutatingUseContext::RawBorrow)
            | PlaceContext::MutatingUse(MutatingUseContext::Borrow | MutatingUseContext::RawBorrow | MutatingUseContext::Drop) => {
                self.used.push(l);
                if !p.is_indirect_first_projection() { self.borrowed.push(l); }
            }
            _ => self.used.push(l),
        }
        for e in p.projection.iter() {
            if let mir::ProjectionElem::Index(i) = e { self.used.push(i.as_u32()); }
        }
        let _ = loc;
    }
    fn visit_local(&mut self, l: mir::Local, c: mir::visit::PlaceContext, _: mir::Location) {
        use mir::visit::*;
        match c {
            PlaceContext::NonUse(_) => self.defd.push(l.as_u32()),
            _ => self.used.push(l.as_u32()),
        }
    }
}
fn liveness(body: &mir::Body<'_>, succ: &dyn Fn(usize) -> Vec<usize>) -> (Vec<Vec<bool>>, Vec<bool>) {
    use mir::visit::Visitor;
    let n = body.basic_blocks.len();
    let m = body.local_decls.len();
    let mut borrowed = vec![false; m];
    // per block: list of (uses, defs) in reverse order
    let mut eff: Vec<Vec<(Vec<u32>, Vec<u32>)>> = vec![];
    for (bb, bd) in body.basic_blocks.iter_enumerated() {
        let mut v = vec![];
        let mut u = Uses { used: vec![], defd: vec![], borrowed: vec![] };
        u.visit_terminator(bd.terminator(), mir::Location { block: bb, statement_index: bd.statements.len() });
        if matches!(bd.terminator().kind, mir::TerminatorKind::Return) { u.used.push(0); }
        for b in &u.borrowed { borrowed[*b as usize] = true; }
        v.push((u.used, u.defd));
        for (i, s) in bd.statements.iter().enumerate().rev() {
            let mut u = Uses { used: vec![], defd: vec![], borrowed: vec![] };
            u.visit_statement(s, mir::Location { block: bb, statement_index: i });
            for b in &u.borrowed { borrowed[*b as usize] = true; }
            v.push((u.used, u.defd));
        }
        eff.push(v);
    }
    let mut live = vec![vec![false; m]; n];
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let mut cur = vec![false; m];
            for s in succ(b) { for l in 0..m { cur[l] |= live[s][l]; } }
            for (u, d) in &eff[b] {
                for l in d { cur[*l as usize] = false; }
                for l in u { cur[*l as usize] = true; }
            }
            if cur != live[b] { live[b] = cur; ch = true; }
        }
        if !ch { return (live, borrowed); }
    }
}

struct FnCx<'a, 'tcx> {
    lw: &'a Lower<'tcx>,
    body: &'a mir::Body<'tcx>,
}
type L<T> = Result<T, String>;

impl<'a, 'tcx> FnCx<'a, 'tcx> {
    fn op_ty(&self, o: &mir::Operand<'tcx>) -> Ty<'tcx> { o.ty(&self.body.local_decls, self.lw.tcx) }
    fn place(&self, p: &mir::Place<'tcx>) -> L<Pl> {
        let tcx = self.lw.tcx;
        let cx = ty::layout::LayoutCx::new(tcx, self.lw.env);
        let mut cur = self.lw.layout(self.body.local_decls[p.local].ty)?;
        let mut out: Vec<Pj> = vec![];
        let off = |out: &mut Vec<Pj>, o: u64| {
            if o == 0 { return; }
            if let Some(Pj::Off(x)) = out.last_mut() { *x += o; } else { out.push(Pj::Off(o)); }
        };
        let mut chk = false;
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => {
                    let t = cur.ty.builtin_deref(true).ok_or_else(|| format!("deref of {}", cur.ty))?;
                    let raw = cur.ty.is_raw_ptr() || cur.ty.is_box();
                    if cur.ty.is_box() { return Err("deref of Box".into()); }
                    chk |= raw;
                    cur = self.lw.layout(t)?;
                    out.push(Pj::Deref { fat: cur.is_unsized(), raw });
                }
                mir::ProjectionElem::Field(f, _) => {
                    if cur.ty.is_union() { chk = true; }
                    let o = cur.fields.offset(f.as_usize()).bytes();
                    let n = cur.field(&cx, f.as_usize());
                    if n.is_unsized() && o != 0 && !matches!(n.ty.kind(), ty::Slice(_) | ty::Str) { return Err("unsized field".into()); }
                    off(&mut out, o);
                    cur = n;
                }
                mir::ProjectionElem::Downcast(_, v) => cur = cur.for_variant(&cx, v),
                mir::ProjectionElem::Index(i) => {
                    let (el, count) = self.elem(cur)?;
                    out.push(Pj::Idx { local: i.as_u32(), stride: el.size.bytes(), count });
                    cur = el;
                }
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (el, count) = self.elem(cur)?;
                    out.push(Pj::CIdx { off: offset, from_end, stride: el.size.bytes(), count });
                    cur = el;
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let (el, count) = self.elem(cur)?;
                    out.push(Pj::Sub { from, to, from_end, stride: el.size.bytes(), slice: count.is_none() });
                    if let Some(n) = count {
                        let m = if from_end { n - from - to } else { to - from };
                        cur = self.lw.layout(Ty::new_array(tcx, el.ty, m))?;
                    }
                }
                mir::ProjectionElem::OpaqueCast(t) => cur = self.lw.layout(t)?,
                _ => return Err("projection".into()),
            }
        }
        let slice_elem = match cur.ty.kind() {
            ty::Slice(t) => Some(self.lw.layout(*t)?.size.bytes() as u32),
            ty::Str => Some(1),
            _ => None,
        };
        // only types that have a place of their own (not an enum variant) have a scalar access
        let acc = if matches!(cur.variants, Variants::Single { .. }) && cur.ty.is_enum() && !p.projection.is_empty()
            && matches!(p.projection.last(), Some(mir::ProjectionElem::Downcast(..))) { Acc::Mem { size: cur.size.bytes() as u32 } } else { self.lw.acc(cur) };
        let chk = if chk && !cur.is_unsized() { let v = self.lw.valid_ranges(cur.ty); if v.is_empty() { None } else { Some(v) } } else { None };
        Ok(Pl { local: p.local.as_u32(), proj: out.into(), acc, chk, align: cur.align.abi.bytes() as u32, slice_elem })
    }
    fn elem(&self, l: TyAndLayout<'tcx>) -> L<(TyAndLayout<'tcx>, Option<u64>)> {
        match l.ty.kind() {
            ty::Array(t, _) => Ok((self.lw.layout(*t)?, Some(l.fields.count() as u64))),
            ty::Slice(t) => Ok((self.lw.layout(*t)?, None)),
            _ => Err(format!("index into {}", l.ty)),
        }
    }
    fn op(&self, o: &mir::Operand<'tcx>) -> L<Op> {
        Ok(match o {
            mir::Operand::Copy(p) | mir::Operand::Move(p) => Op::Use(self.place(p)?),
            mir::Operand::RuntimeChecks(r) => Op::Flag(match r {
                mir::RuntimeChecks::UbChecks => Flag::Ub,
                mir::RuntimeChecks::OverflowChecks => Flag::Overflow,
                _ => Flag::Contract,
            }),
            mir::Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = c.const_.eval(self.lw.tcx, self.lw.env, c.span).map_err(|e| format!("constant: {e:?}"))?;
                let (ch, acc) = self.lw.const_chunks(v, t)?;
                Op::K(Rc::new(ch), acc)
            }
        })
    }
    fn stmt(&self, s: &mir::Statement<'tcx>) -> L<Option<St>> {
        use mir::StatementKind as K;
        Ok(Some(match &s.kind {
            K::Assign(b) => St::Assign(self.place(&b.0)?, self.rv(&b.1, b.0.ty(&self.body.local_decls, self.lw.tcx).ty)?),
            K::SetDiscriminant { place, variant_index } => {
                let t = place.ty(&self.body.local_decls, self.lw.tcx).ty;
                St::SetDiscr(self.place(place)?, self.lw.tag_of(t, *variant_index)?)
            }
            K::StorageLive(l) => St::Live(l.as_u32()),
            K::StorageDead(l) => St::Dead(l.as_u32()),
            K::Intrinsic(b) => match &**b {
                mir::NonDivergingIntrinsic::Assume(o) => St::Assume(self.op(o)?),
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let t = self.op_ty(&c.src).builtin_deref(true).unwrap();
                    St::CopyNon { src: self.op(&c.src)?, dst: self.op(&c.dst)?, count: self.op(&c.count)?, size: self.lw.layout(t)?.size.bytes() }
                }
            },
            _ => return Ok(None),
        }))
    }
    fn int_info(&self, t: Ty<'tcx>) -> L<(u32, bool)> {
        match t.kind() {
            ty::Bool => Ok((8, false)),
            ty::Char => Ok((32, false)),
            ty::Int(_) => Ok((self.lw.layout(t)?.size.bits() as u32, true)),
            ty::Uint(_) => Ok((self.lw.layout(t)?.size.bits() as u32, false)),
            ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) => Ok((64, false)),
            ty::Adt(d, _) if d.is_enum() => {
                let l = self.lw.layout(t)?;
                let signed = matches!(t.discriminant_ty(self.lw.tcx).kind(), ty::Int(_));
                Ok((l.size.bits() as u32, signed))
            }
            ty::Pat(b, _) => self.int_info(*b),
            _ => Err(format!("arithmetic on {t}")),
        }
    }
    fn rv(&self, r: &mir::Rvalue<'tcx>, dest: Ty<'tcx>) -> L<Rv> {
        use mir::Rvalue as K;
        let tcx = self.lw.tcx;
        Ok(match r {
            K::Use(o, _) => Rv::Use(self.op(o)?),
            K::CopyForDeref(p) => Rv::Use(Op::Use(self.place(p)?)),
            K::Repeat(o, n) => Rv::Repeat(self.op(o)?, n.try_to_target_usize(tcx).ok_or("repeat count")?),
            K::Ref(_, _, p) => Rv::Ref(self.place(p)?, true),
            K::RawPtr(_, p) => Rv::Ref(self.place(p)?, false),
            K::Reborrow(_, _, p) => Rv::Ref(self.place(p)?, true),
            K::BinaryOp(op, b) => {
                use mir::BinOp as B;
                let ta = self.op_ty(&b.0);
                let tb = self.op_ty(&b.1);
                let (a, c) = (self.op(&b.0)?, self.op(&b.1)?);
                if let B::Offset = op {
                    let e = self.lw.layout(ta.builtin_deref(true).unwrap())?.size.bytes();
                    return Ok(Rv::Bin { op: BOp::Add, kind: BK::Wrap, bits: 64, signed: matches!(tb.kind(), ty::Int(_)), ybits: 64, ysigned: false, a, b: c, ptr: true, elem: e });
                }
                let fat = ta.is_any_ptr() && ta.builtin_deref(true).is_some_and(|t| self.lw.layout(t).map_or(true, |l| l.is_unsized()));
                if fat { return Ok(Rv::Unsup("comparison of fat pointers".into())); }
                let (bits, signed) = self.int_info(ta)?;
                let (ybits, ysigned) = self.int_info(tb)?;
                let (o, kind) = match op {
                    B::Add => (BOp::Add, BK::Wrap), B::AddUnchecked => (BOp::Add, BK::Unchecked), B::AddWithOverflow => (BOp::Add, BK::With),
                    B::Sub => (BOp::Sub, BK::Wrap), B::SubUnchecked => (BOp::Sub, BK::Unchecked), B::SubWithOverflow => (BOp::Sub, BK::With),
                    B::Mul => (BOp::Mul, BK::Wrap), B::MulUnchecked => (BOp::Mul, BK::Unchecked), B::MulWithOverflow => (BOp::Mul, BK::With),
                    B::Div => (BOp::Div, BK::Unchecked), B::Rem => (BOp::Rem, BK::Unchecked),
                    B::BitXor => (BOp::Xor, BK::Wrap), B::BitAnd => (BOp::And, BK::Wrap), B::BitOr => (BOp::Or, BK::Wrap),
                    B::Shl => (BOp::Shl, BK::Wrap), B::Shr => (BOp::Shr, BK::Wrap),
                    B::ShlUnchecked => (BOp::Shl, BK::Unchecked), B::ShrUnchecked => (BOp::Shr, BK::Unchecked),
                    B::Eq => (BOp::Eq, BK::Wrap), B::Ne => (BOp::Ne, BK::Wrap), B::Lt => (BOp::Lt, BK::Wrap), B::Le => (BOp::Le, BK::Wrap),
                    B::Gt => (BOp::Gt, BK::Wrap), B::Ge => (BOp::Ge, BK::Wrap), B::Cmp => (BOp::Cmp, BK::Wrap),
                    B::Offset => unreachable!(),
                };
                Rv::Bin { op: o, kind, bits, signed, ybits, ysigned, a, b: c, ptr: ta.is_any_ptr() || ta.is_fn_ptr(), elem: 0 }
            }
            K::UnaryOp(u, o) => {
                let t = self.op_ty(o);
                match u {
                    mir::UnOp::PtrMetadata => Rv::PtrMeta(self.op(o)?),
                    _ => {
                        let (bits, signed) = self.int_info(t)?;
                        Rv::Un { not: *u == mir::UnOp::Not, boolean: t.is_bool(), bits, signed, a: self.op(o)? }
                    }
                }
            }
            K::Discriminant(p) => Rv::Discr(self.place(p)?, self.lw.discr_info(p.ty(&self.body.local_decls, tcx).ty)?),
            K::Aggregate(k, ops) => {
                let cx = ty::layout::LayoutCx::new(tcx, self.lw.env);
                let l = self.lw.layout(dest)?;
                match &**k {
                    mir::AggregateKind::Array(t) => {
                        let s = self.lw.layout(*t)?.size.bytes() as u32;
                        let mut v = vec![];
                        for (i, o) in ops.iter().enumerate() { v.push((s * i as u32, self.op(o)?)); }
                        Rv::Agg(v, None, false)
                    }
                    mir::AggregateKind::Adt(_, v, _, _, active) => {
                        let vl = if dest.is_enum() { l.for_variant(&cx, *v) } else { l };
                        let mut out = vec![];
                        for (i, o) in ops.iter_enumerated() {
                            let fi = active.unwrap_or(i);
                            out.push((vl.fields.offset(fi.as_usize()).bytes() as u32, self.op(o)?));
                        }
                        let tag = if dest.is_enum() { self.lw.tag_of(dest, *v)? } else { None };
                        Rv::Agg(out, tag, false)
                    }
                    mir::AggregateKind::Tuple | mir::AggregateKind::Closure(..) => {
                        let mut out = vec![];
                        for (i, o) in ops.iter_enumerated() { out.push((l.fields.offset(i.as_usize()).bytes() as u32, self.op(o)?)); }
                        Rv::Agg(out, None, false)
                    }
                    mir::AggregateKind::RawPtr(t, _) => {
                        let fat = self.lw.layout(*t)?.is_unsized();
                        let mut out = vec![(0, self.op(&ops[FieldIdx::from_usize(0)])?)];
                        if fat { out.push((8, self.op(&ops[FieldIdx::from_usize(1)])?)); }
                        Rv::Agg(out, None, true)
                    }
                    _ => Rv::Unsup("aggregate".into()),
                }
            }
            K::Cast(k, o, to) => {
                use mir::CastKind as C;
                use ty::adjustment::PointerCoercion as P;
                let from = self.op_ty(o);
                let src = self.op(o)?;
                let fat = |t: Ty<'tcx>| -> bool { t.builtin_deref(true).is_some_and(|p| self.lw.layout(p).map_or(true, |l| l.is_unsized())) };
                let ck = match k {
                    C::IntToInt => { let (f, s) = self.int_info(from)?; let (t, _) = self.int_info(*to)?; CastK::Int { from: f, signed: s, to: t } }
                    C::PtrToPtr | C::FnPtrToPtr => CastK::Ptr { drop_meta: fat(from) && !fat(*to) },
                    C::PointerCoercion(P::MutToConstPointer, _) | C::Subtype => CastK::Ptr { drop_meta: false },
                    C::PointerCoercion(P::ArrayToPointer, _) => CastK::Ptr { drop_meta: false },
                    C::PointerCoercion(P::ReifyFnPointer(_), _) => match from.kind() {
                        ty::FnDef(d, a) => {
                            let i = Instance::resolve_for_fn_ptr(tcx, self.lw.env, *d, tcx.instantiate_bound_regions_with_erased(*a)).ok_or("fn ptr")?;
                            CastK::Fn(self.lw.intern(i))
                        }
                        _ => CastK::Unsup("reify".into()),
                    },
                    C::PointerCoercion(P::ClosureFnPointer(_), _) => match from.kind() {
                        ty::Closure(d, a) => CastK::Fn(self.lw.intern(Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce))),
                        _ => CastK::Unsup("closure fn ptr".into()),
                    },
                    C::PointerCoercion(P::UnsafeFnPointer, _) => CastK::Ptr { drop_meta: false },
                    C::PointerCoercion(P::Unsize, _) => {
                        let (Some(pf), Some(pt)) = (from.builtin_deref(true), to.builtin_deref(true)) else {
                            return Ok(Rv::Unsup(format!("unsizing {from} to {to}")));
                        };
                        let (tf, tt) = tcx.struct_lockstep_tails_for_codegen(pf, pt, self.lw.env);
                        match (tf.kind(), tt.kind()) {
                            (ty::Array(_, n), ty::Slice(_)) => CastK::Unsize { meta: Some(n.try_to_target_usize(tcx).ok_or("array length")? as u128), vt: None },
                            (_, ty::Dynamic(p, ..)) if !matches!(tf.kind(), ty::Dynamic(..)) => CastK::Unsize { meta: None, vt: Some(self.lw.vtable(tf, p.principal())) },
                            (ty::Dynamic(..), ty::Dynamic(..)) => CastK::Ptr { drop_meta: false },
                            _ => CastK::Unsup(format!("unsizing {from} to {to}")),
                        }
                    }
                    C::Transmute => {
                        let (lf, lt) = (self.lw.layout(from)?, self.lw.layout(*to)?);
                        if lf.size != lt.size { CastK::Unsup("transmute of different sizes".into()) }
                        else { CastK::Transmute { valid: self.lw.valid_ranges(*to), size: lt.size.bytes() as u32 } }
                    }
                    C::BoxDerefTransmute => CastK::Transmute { valid: Rc::new(vec![]), size: self.lw.layout(*to)?.size.bytes() as u32 },
                    C::PointerExposeProvenance => CastK::Addr,
                    C::PointerWithExposedProvenance => CastK::FromAddr,
                    o => CastK::Unsup(format!("cast {o:?}")),
                };
                Rv::Cast(ck, src)
            }
            o => Rv::Unsup(format!("{o:?}")),
        })
    }
    fn term(&self, t: &mir::Terminator<'tcx>) -> L<Tm> {
        use mir::TerminatorKind as K;
        let tcx = self.lw.tcx;
        Ok(match &t.kind {
            K::Goto { target, .. } => Tm::Goto(target.as_u32()),
            K::FalseEdge { real_target, .. } | K::FalseUnwind { real_target, .. } => Tm::Goto(real_target.as_u32()),
            K::SwitchInt { discr, targets } => Tm::Switch {
                op: self.op(discr)?,
                arms: targets.iter().map(|(v, b)| (v, b.as_u32())).collect(),
                other: targets.otherwise().as_u32(),
            },
            K::Return => Tm::Return,
            K::Unreachable => Tm::Unreachable,
            K::Drop { place, target, .. } => {
                let ty = place.ty(&self.body.local_decls, tcx).ty;
                let f = if ty.needs_drop(tcx, self.lw.env) { Some(self.lw.intern(Instance::resolve_drop_glue(tcx, ty))) } else { None };
                Tm::Drop { f, place: self.place(place)?, target: target.as_u32() }
            }
            K::Assert { cond, expected, msg, target, .. } => Tm::Assert {
                cond: self.op(cond)?, expected: *expected,
                msg: match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds".into(),
                    mir::AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({op:?})"),
                    mir::AssertKind::OverflowNeg(_) => "arithmetic overflow (Neg)".into(),
                    mir::AssertKind::DivisionByZero(_) | mir::AssertKind::RemainderByZero(_) => "division by zero".into(),
                    _ => "assertion".into(),
                },
                target: target.as_u32(),
            },
            K::Call { func, args, destination, target, .. } => {
                let ft = self.op_ty(func);
                let mut a = vec![];
                for x in args.iter() { a.push(self.op(&x.node)?); }
                let sig = ft.fn_sig(tcx);
                let mut untuple = None;
                if sig.abi() == rustc_abi::ExternAbi::RustCall && !args.is_empty() {
                    let tt = self.op_ty(&args.last().unwrap().node);
                    let ty::Tuple(fs) = tt.kind() else { return Err("rust-call".into()) };
                    let l = self.lw.layout(tt)?;
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() { v.push((l.fields.offset(i).bytes() as u32, self.lw.layout(f)?.size.bytes() as u32)); }
                    untuple = Some(v);
                }
                let f = match ft.kind() {
                    ty::FnDef(d, ga) => {
                        let inst = Instance::try_resolve(tcx, self.lw.env, *d, tcx.instantiate_bound_regions_with_erased(*ga)).map_err(|_| "resolve".to_string())?.ok_or_else(|| format!("unresolved call {d:?}"))?;
                        match inst.def {
                            InstanceKind::Virtual(d, _) if self.lw.tcx.trait_of_assoc(d).is_some_and(|t| path_of(self.lw.tcx, t).ends_with("::LegalityChecker")) => Callee::Fn(self.lw.intern(inst)),
                            InstanceKind::Virtual(_, slot) => Callee::Virtual { slot: slot as u32 },
                            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => return Ok(Tm::Goto(target.unwrap().as_u32())),
                            _ => Callee::Fn(self.lw.intern(inst)),
                        }
                    }
                    ty::FnPtr(..) => Callee::Dyn(self.op(func)?),
                    _ => return Err(format!("call of {ft}")),
                };
                Tm::Call { f, args: a, dest: self.place(destination)?, ret: target.map(|b| b.as_u32()), untuple }
            }
            o => Tm::Unsup(format!("{o:?}")),
        })
    }
}
