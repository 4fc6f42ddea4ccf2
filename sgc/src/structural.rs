//! Rules over the type-checked program: traits, layouts, visibility, call graph, exported interface.
use crate::api::*;
use crate::props::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::{HashMap, HashSet};

/// What the bodies of the crate mention.
#[derive(Default)]
pub struct Uses { pub fns: HashMap<DefId, HashSet<DefId>>, pub statics: Vec<(DefId, DefId)>, pub asm: Vec<DefId>, pub tls: Vec<(DefId, DefId)>, pub bodies: u64 }
fn body_of<'tcx>(tcx: TyCtxt<'tcx>, d: rustc_hir::def_id::LocalDefId) -> Option<&'tcx mir::Body<'tcx>> {
    match tcx.def_kind(d) {
        DefKind::Fn | DefKind::AssocFn | DefKind::Closure => Some(tcx.optimized_mir(d)),
        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => Some(tcx.mir_for_ctfe(d)),
        _ => None,
    }
}
pub fn uses<'tcx>(tcx: TyCtxt<'tcx>) -> Uses {
    let mut u = Uses::default();
    for d in tcx.mir_keys(()).iter() {
        let Some(b) = body_of(tcx, *d) else { continue };
        u.bodies += 1;
        let root = d.to_def_id();
        // all types mentioned by constants: functions
        struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, u: &'a mut Uses, root: DefId }
        impl<'a, 'tcx> mir::visit::Visitor<'tcx> for V<'a, 'tcx> {
            fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) {
                let t = c.const_.ty();
                for g in t.walk() {
                    let Some(t) = g.as_type() else { continue };
                    match t.kind() { ty::FnDef(f, _) => { self.u.fns.entry(self.root).or_default().insert(*f); } ty::Closure(f, _) => { self.u.fns.entry(self.root).or_default().insert(*f); } _ => {} }
                }
                if let Some(s) = c.check_static_ptr(self.tcx) { self.u.statics.push((self.root, s)); }
                if let mir::Const::Unevaluated(x, _) = c.const_ { self.u.fns.entry(self.root).or_default().insert(x.def); }
            }
            fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, l: mir::Location) {
                if let mir::Rvalue::ThreadLocalRef(s) = r { self.u.tls.push((self.root, *s)); }
                if let mir::Rvalue::Aggregate(k, _) = r { if let mir::AggregateKind::Closure(f, _) = **k { self.u.fns.entry(self.root).or_default().insert(f); } }
                self.super_rvalue(r, l);
            }
            fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: mir::Location) {
                if let mir::TerminatorKind::InlineAsm { .. } = t.kind { self.u.asm.push(self.root); }
                self.super_terminator(t, l);
            }
        }
        use mir::visit::Visitor;
        V { tcx, u: &mut u, root }.visit_body(b);
        // promoted constants
        for p in tcx.promoted_mir(*d).iter() { V { tcx, u: &mut u, root }.visit_body(p); }
    }
    u
}
pub fn reachable_adts<'tcx>(px: &Px<'tcx>) -> Vec<(String, Ty<'tcx>)> {
    let tcx = px.api.tcx;
    px.api.adts.iter().filter(|(_, d)| d.as_local().is_some_and(|l| tcx.effective_visibilities(()).is_reachable(l))).filter_map(|(n, _)| px.api.adt(n).map(|t| (n.clone(), t))).collect()
}
pub fn feature(tcx: TyCtxt, f: &str) -> bool { tcx.sess.config.iter().any(|(k, v)| k.as_str() == "feature" && v.is_some_and(|v| v.as_str() == f)) }
/// Whether `args[0]: Trait<args[1..]>` holds.
pub fn holds<'tcx>(px: &Px<'tcx>, tr: DefId, args: &[Ty<'tcx>]) -> bool {
    let tcx = px.api.tcx;
    let tref = ty::TraitRef::new(tcx, tr, args.iter().map(|t| ty::GenericArg::from(*t)));
    tcx.codegen_select_candidate(px.api.env.as_query_input(tref)).is_ok()
}
/// The types whose values a move, a set or an answer is made of: freely copyable.
const COPY: &[&str] = &["Bitboard", "ByteSwappedBitboard", "Color", "CompactMove", "GameResolution", "Hand", "IllegalMoveKind", "Move", "OptionCompactMove", "OptionGameResolution", "OptionPiece", "OptionPieceKind", "OptionSquare", "Piece", "PieceKind", "PositionStatus", "ResultUnitIllegalMoveKind", "Square"];
const NICHE: &[&str] = &["Color", "Square", "PieceKind", "Piece", "GameResolution", "PositionStatus", "PartialPosition", "Position"];
pub fn c24<'tcx>(px: &mut Px<'tcx>) {
    let tcx = px.api.tcx;
    let mut need = vec![("core::clone::Clone", 1), ("core::fmt::Debug", 1), ("core::cmp::PartialEq", 2), ("core::cmp::Eq", 1), ("core::marker::Send", 1), ("core::marker::Sync", 1)];
    if feature(tcx, "ord") { need.extend([("core::cmp::Ord", 1), ("core::cmp::PartialOrd", 2)]); }
    if feature(tcx, "hash") { need.push(("core::hash::Hash", 1)); }
    let types = reachable_adts(px);
    if types.is_empty() { px.missing.push(("exported types".into(), "none found".into())); }
    for (n, t) in &types {
        let mut want = need.clone();
        if COPY.contains(&n.as_str()) { want.push(("core::marker::Copy", 1)); }
        let site = at(tcx, t.ty_adt_def().unwrap().did());
        for (w, k) in want {
            let short = w.rsplit("::").next().unwrap();
            let Some(d) = find_foreign(tcx, w) else { px.missing.push((w.into(), "trait not found".into())); continue };
            let ok = holds(px, d, &vec![*t; k]);
            px.fact(ok, format!("{n} does not implement {short}"), site.clone());
        }
    }
    let opt = tcx.lang_items().option_type();
    let res = tcx.get_diagnostic_item(rustc_span::sym::Result);
    let size = |t: Ty<'tcx>| tcx.layout_of(px.api.env.as_query_input(t)).ok().map(|l| l.size.bytes());
    let mut pairs: Vec<(String, Option<u64>, Option<u64>)> = vec![];
    for n in NICHE {
        let (Some(t), Some(o)) = (px.api.adt(n), opt) else { continue };
        let w = Ty::new_adt(tcx, tcx.adt_def(o), tcx.mk_args(&[t.into()]));
        pairs.push((format!("Option<{n}>"), size(w), size(t)));
    }
    if let (Some(t), Some(r)) = (px.api.adt("IllegalMoveKind"), res) {
        let w = Ty::new_adt(tcx, tcx.adt_def(r), tcx.mk_args(&[tcx.types.unit.into(), t.into()]));
        pairs.push(("Result<(), IllegalMoveKind>".into(), size(w), size(t)));
    }
    for (n, a, b) in pairs {
        px.notes.push(format!("{n}: {a:?} bytes, plain {b:?}"));
        px.fact(a.is_some() && a == b, format!("{n} takes {a:?} bytes, the plain value {b:?}"), n.clone());
    }
}

fn at<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    let s = tcx.def_span(d);
    tcx.sess.source_map().span_to_diagnostic_string(s)
}
fn bad(px: &mut Px, case: &str, msg: String, site: String) { px.static_bad.push(crate::run::Bad { kind: "violation", msg, site, witness: String::new(), case: case.into() }); }
/// Nobody outside the crate can write a representation: no public fields of raw types, no `&mut` to the inside of a value.
pub fn c03<'tcx>(px: &mut Px<'tcx>) {
    let tcx = px.api.tcx;
    let eff = tcx.effective_visibilities(());
    let own = |t: Ty<'tcx>| matches!(t.kind(), ty::Adt(d, _) if d.did().is_local());
    for (n, t) in reachable_adts(px) {
        let ty::Adt(d, a) = t.kind() else { continue };
        if d.is_enum() { px.facts += 1; continue; }
        let redundant = n == "PartialPosition" || n == "Position";
        for f in d.all_fields() {
            px.facts += 1;
            let open = f.did.as_local().is_some_and(|l| eff.is_reachable(l)) && f.vis.is_public();
            let ft = f.ty(tcx, a).skip_norm_wip();
            if open && (redundant || !own(ft)) { bad(px, &n, format!("the field {} of {n} can be written by users of the crate", f.name), at(tcx, f.did)); }
        }
    }
    for f in px.api.funs.clone() {
        if !f.public { continue; }
        let out = tcx.fn_sig(f.did).instantiate(tcx, f.args).skip_norm_wip();
        let out = tcx.instantiate_bound_regions_with_erased(out).output();
        px.facts += 1;
        let name = crate::api::tname(tcx, out);
        let mut w = vec![];
        for g in out.walk() { if let Some(t) = g.as_type() { match t.kind() { ty::Ref(_, t, m) | ty::RawPtr(t, m) if m.is_mut() => w.push(*t), _ => {} } } }
        for t in w {
            let tn = crate::api::tname(tcx, t);
            // constructors for C return owned allocations; an exclusively borrowed argument may be handed back whole
            let ins = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(f.did).instantiate(tcx, f.args).skip_norm_wip());
            let same = ins.inputs().iter().any(|i| i.is_ref() && i.is_mutable_ptr() && i.peel_refs() == t);
            let inside = !own(t) && !matches!(t.kind(), ty::Dynamic(..) | ty::Closure(..)) && !same;
            let shared = tn == "PartialPosition" && !same;
            px.notes.push(format!("{}: {name}", f.key));
            if inside && out.is_ref() || shared { bad(px, &f.key, format!("{} gives a writable reference to the inside of a value ({name})", f.key), at(tcx, f.did)); }
        }
    }
}
/// No state outside the arguments: mutable or interior-mutable statics, thread locals, foreign functions, assembly.
pub fn c30<'tcx>(px: &mut Px<'tcx>) {
    let tcx = px.api.tcx;
    let u = uses(tcx);
    px.facts += u.bodies;
    px.notes.push(format!("{} bodies searched for statics, thread locals, foreign calls and assembly", u.bodies));
    let env = px.api.env;
    for (by, s) in u.statics.iter().chain(&u.tls) {
        let t = tcx.type_of(*s).instantiate_identity().skip_norm_wip();
        let tls = tcx.codegen_fn_attrs(*s).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::THREAD_LOCAL);
        if tcx.is_mutable_static(*s) || tls || tcx.is_foreign_item(*s) || !t.is_freeze(tcx, env) {
            bad(px, &tcx.def_path_str(*by), format!("{} uses the static {} that can change between calls", tcx.def_path_str(*by), tcx.def_path_str(*s)), at(tcx, *by));
        }
    }
    for by in &u.asm { bad(px, &tcx.def_path_str(*by), format!("{} runs inline assembly", tcx.def_path_str(*by)), at(tcx, *by)); }
    let mut edges: Vec<(DefId, DefId)> = u.fns.iter().flat_map(|(a, b)| b.iter().map(|x| (*a, *x))).collect();
    edges.sort_by_key(|(a, b)| (tcx.def_path_str(*a), tcx.def_path_str(*b)));
    for (by, f) in edges {
        let kr = tcx.crate_name(f.krate);
        let foreign = tcx.is_foreign_item(f) && !tcx.intrinsic(f).is_some();
        if foreign && f.is_local() || !matches!(kr.as_str(), "core" | "alloc" | "shogi_core" | "compiler_builtins") {
            bad(px, &tcx.def_path_str(by), format!("{} calls {}, which can depend on or change the environment", tcx.def_path_str(by), tcx.def_path_str(f)), at(tcx, by));
        }
    }
    for (n, t) in reachable_adts(px) {
        px.facts += 1;
        if !t.is_freeze(tcx, env) { bad(px, &n, format!("{n} can change through a shared reference"), at(tcx, t.ty_adt_def().unwrap().did())); }
    }
}
/// Whether a type mentions owned memory: the types documented to need an allocator.
fn allocates<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    t.walk().any(|g| g.as_type().is_some_and(|t| match t.kind() {
        ty::Adt(d, a) => tcx.crate_name(d.did().krate).as_str() == "alloc" || d.is_box()
            || d.did().is_local() && !d.is_enum() && d.all_fields().any(|f| allocates(tcx, f.ty(tcx, a).skip_norm_wip())),
        _ => false,
    }))
}
/// No crate but core (and alloc, when asked for); the allocator is reached only from functions whose signature says so.
pub fn c31<'tcx>(px: &mut Px<'tcx>) {
    let tcx = px.api.tcx;
    let alloc = feature(tcx, "alloc");
    for c in tcx.crates(()) {
        px.facts += 1;
        let n = tcx.crate_name(*c);
        let ok = matches!(n.as_str(), "core" | "compiler_builtins" | "rustc_std_workspace_core") || n.as_str() == "alloc" && alloc;
        if n.as_str() != "compiler_builtins" { px.notes.push(format!("refers to the crate {n}")); }
        if !ok { bad(px, "crates", format!("the library refers to the crate {n}{}", if n.as_str() == "alloc" { " without the alloc feature" } else { "" }), "shogi_core".into()); }
    }
    px.facts += 1;
    if !alloc { return; }
    // monomorphic call graph, through alloc's own code as far as its bodies are known
    let env = px.api.env;
    let sink = |d: DefId| {
        if tcx.crate_name(d.krate).as_str() != "alloc" && !tcx.is_foreign_item(d) { return false; }
        let p = tcx.def_path_str(d);
        let n = p.rsplit("::").next().unwrap().to_string();
        p.starts_with("alloc::alloc::") && n != "dealloc" || n.starts_with("__rust_alloc") || n.starts_with("__rust_realloc") || n == "exchange_malloc" || n == "box_new"
            || p.contains("Global") && matches!(n.as_str(), "allocate" | "allocate_zeroed" | "grow" | "grow_zeroed" | "shrink")
            || !tcx.is_mir_available(d) && !tcx.fn_sig(d).skip_binder().output().skip_binder().is_never()
    };
    let callees = |i: ty::Instance<'tcx>| -> Vec<ty::Instance<'tcx>> {
        use ty::ShimKind as K;
        if !matches!(i.def, ty::InstanceKind::Item(_) | ty::InstanceKind::Shim(K::ClosureOnce { .. } | K::FnPtr(..) | K::Reify(..) | K::Clone(..))) { return vec![]; }
        if let ty::InstanceKind::Item(d) = i.def { if !tcx.is_mir_available(d) { return vec![]; } }
        let b = tcx.instance_mir(i.def);
        struct V<'tcx> { tys: Vec<Ty<'tcx>> }
        impl<'tcx> mir::visit::Visitor<'tcx> for V<'tcx> {
            fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) { self.tys.push(c.const_.ty()); }
            fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, l: mir::Location) {
                // a closure passed on: its body may be run by the receiver
                if let mir::Rvalue::Cast(mir::CastKind::PointerCoercion(..), o, _) = r { if let mir::Operand::Constant(c) = o { self.tys.push(c.const_.ty()); } }
                self.super_rvalue(r, l);
            }
        }
        use mir::visit::Visitor;
        let mut v = V { tys: vec![] };
        v.visit_body(b);
        let mut out = vec![];
        for t in v.tys {
            let t = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, t));
            for g in t.walk() {
                let Some(ty::FnDef(d, a)) = g.as_type().map(|t| t.kind().clone()) else { continue };
                let a = a.no_bound_vars().unwrap_or(a.skip_binder());
                if let Ok(Some(j)) = ty::Instance::try_resolve(tcx, env, d, a) { out.push(j); }
            }
        }
        out
    };
    let mut nodes: HashMap<ty::Instance<'tcx>, Vec<ty::Instance<'tcx>>> = HashMap::new();
    for f in px.api.funs.clone() {
        if !f.public { continue; }
        px.facts += 1;
        if tcx.trait_of_assoc(f.did).is_some() && !tcx.is_mir_available(f.did) { continue; }
        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(f.did).instantiate(tcx, f.args).skip_norm_wip());
        let by_value = |t: Ty<'tcx>| { let mut w = t; while let ty::RawPtr(p, _) = w.kind() { w = *p; } !matches!(w.kind(), ty::Ref(..)) && allocates(tcx, w) };
        let owned = by_value(sig.output()) || sig.inputs().iter().any(|t| matches!(t.kind(), ty::Ref(_, p, m) if m.is_mut() && allocates(tcx, *p)));
        if owned { px.notes.push(format!("{} may allocate by its signature", f.key)); continue; }
        let Ok(Some(start)) = ty::Instance::try_resolve(tcx, env, f.did, f.args) else { continue };
        let mut seen: HashSet<ty::Instance<'tcx>> = HashSet::new();
        let mut work = vec![(start, vec![f.did])];
        while let Some((d, path)) = work.pop() {
            if !seen.insert(d) { continue; }
            if sink(d.def_id()) {
                let p: Vec<String> = path.iter().map(|d| tcx.def_path_str(*d)).collect();
                bad(px, &f.key, format!("{} can reach the allocator: {}", f.key, p.join(" -> ")), at(tcx, f.did));
                break;
            }
            for e in nodes.entry(d).or_insert_with(|| callees(d)).clone() { let mut q = path.clone(); q.push(e.def_id()); work.push((e, q)); }
        }
    }
    px.notes.push(format!("call graph of {} instances, {} edges", nodes.len(), nodes.values().map(|e| e.len()).sum::<usize>()));
}
