//! Finds the functions and types of the analysed crate by what they are, not by where they are written.
use crate::lower::path_of;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArg, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Fun<'tcx> {
    pub did: DefId,
    pub key: String,
    /// Reachable by users of the crate.
    pub public: bool,
    pub unsafe_: bool,
    pub export: Option<String>,
    pub trait_impl: Option<String>,
    pub self_ty: Option<Ty<'tcx>>,
    pub args: GenericArgsRef<'tcx>,
}
pub struct Api<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub funs: Vec<Fun<'tcx>>,
    pub by_key: BTreeMap<String, usize>,
    pub adts: BTreeMap<String, DefId>,
}

/// Short, location-independent name of a type.
pub fn tname<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(d, a) => {
            let n = tcx.item_name(d.did()).to_string();
            let xs: Vec<String> = a.types().map(|t| tname(tcx, t)).collect();
            if xs.is_empty() || n == "Vec" { n } else { format!("{n}<{}>", xs.join(",")) }
        }
        ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, tname(tcx, *t)),
        ty::RawPtr(t, m) => format!("*{}{}", if m.is_mut() { "mut " } else { "const " }, tname(tcx, *t)),
        ty::Array(t, _) => format!("[{}]", tname(tcx, *t)),
        ty::Slice(t) => format!("[{}]", tname(tcx, *t)),
        ty::Tuple(ts) => format!("({})", ts.iter().map(|t| tname(tcx, t)).collect::<Vec<_>>().join(",")),
        ty::Dynamic(p, ..) => format!("dyn {}", p.principal_def_id().map(|d| tcx.item_name(d).to_string()).unwrap_or_default()),
        _ => t.to_string(),
    }
}
impl<'tcx> Api<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let mut a = Api { tcx, env: TypingEnv::fully_monomorphized(), funs: vec![], by_key: Default::default(), adts: Default::default() };
        let eff = tcx.effective_visibilities(());
        let items = tcx.hir_crate_items(());
        for d in items.definitions() {
            let did = d.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                a.adts.insert(tcx.item_name(did).to_string(), did);
            }
        }
        for d in items.definitions() {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
            let Some(args) = a.instantiate(did) else { continue };
            let imp = tcx.impl_of_assoc(did);
            let tr = imp.and_then(|i| tcx.impl_opt_trait_id(i));
            let attrs = tcx.codegen_fn_attrs(did);
            let export = attrs.symbol_name.map(|s| s.to_string()).or_else(|| attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE).then(|| tcx.item_name(did).to_string()));
            let name = tcx.item_name(did).to_string();
            let self_ty = imp.map(|i| tcx.type_of(i).instantiate(tcx, args).skip_norm_wip());
            let key = match (imp, tr) {
                (Some(i), Some(_)) => {
                    let r = tcx.impl_trait_ref(i).instantiate(tcx, args).skip_norm_wip();
                    let xs: Vec<String> = r.args.types().skip(1).map(|t| tname(tcx, t)).collect();
                    format!("<{} as {}{}>::{}", tname(tcx, r.self_ty()), tcx.item_name(r.def_id), if xs.is_empty() { String::new() } else { format!("<{}>", xs.join(",")) }, name)
                }
                (Some(_), None) => format!("{}::{}", tname(tcx, self_ty.unwrap()), name),
                _ => match tcx.trait_of_assoc(did) { Some(t) => format!("trait {}::{}", tcx.item_name(t), name), None => format!("fn {name}") },
            };
            // implementations of public traits for public types are public
            let vis = |d: DefId| d.as_local().is_none_or(|l| eff.is_reachable(l));
            let public = match tr {
                Some(t) => vis(t) && self_ty.is_some_and(|t| t.walk().all(|g| match g.as_type().map(|t| t.kind()) { Some(ty::Adt(d, _)) => vis(d.did()), _ => true })),
                None => eff.is_reachable(d) || export.is_some(),
            };
            let unsafe_ = tcx.fn_sig(did).skip_binder().safety().is_unsafe();
            let ix = a.funs.len();
            a.by_key.insert(key.clone(), ix);
            if let Some(e) = &export { a.by_key.insert(format!("c:{e}"), ix); }
            a.funs.push(Fun { did, key, public, unsafe_, export, trait_impl: tr.map(|t| tcx.item_name(t).to_string()), self_ty, args });
        }
        a
    }
    /// Generic arguments to analyse a function with.
    pub fn instantiate(&self, did: DefId) -> Option<GenericArgsRef<'tcx>> {
        let tcx = self.tcx;
        let preds = tcx.clauses_of(did).instantiate_identity(tcx).clauses;
        let preds: Vec<_> = preds.into_iter().map(|p| p.skip_norm_wip()).collect();
        Some(GenericArgs_for(tcx, did, |p| {
            let mut tr: Vec<DefId> = preds.iter().filter_map(|c| c.as_trait_clause()).filter(|c| c.skip_binder().self_ty().is_param(p.index)).map(|c| c.def_id()).collect();
            if let Some(t) = tcx.trait_of_assoc(did) { if p.index == 0 { tr.insert(0, t); } }
            for t in &tr {
                let path = path_of(tcx, *t);
                match path.as_str() {
                    "core::fmt::Write" => return self.foreign("core::fmt::Formatter"),
                    "core::hash::Hasher" => return self.foreign("core::hash::SipHasher"),
                    _ => {}
                }
                if t.is_local() {
                    // any implementation, known only through the trait
                    let er = tcx.lifetimes.re_erased;
                    let pred = ty::ExistentialPredicate::Trait(ty::ExistentialTraitRef::new(tcx, *t, tcx.mk_args(&[])));
                    let list = tcx.mk_poly_existential_predicates(&[ty::Binder::dummy(pred)]);
                    return Some(Ty::new_dynamic(tcx, list, er));
                }
            }
            None
        })?)
    }
    fn foreign(&self, path: &str) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        let did = find_foreign(tcx, path)?;
        let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(), _ => tcx.types.u8.into() });
        Some(Ty::new_adt(tcx, tcx.adt_def(did), args))
    }
    pub fn inst(&self, f: &Fun<'tcx>) -> Instance<'tcx> {
        Instance::new_raw(f.did, f.args)
    }
    pub fn get(&self, key: &str) -> Option<&Fun<'tcx>> { self.by_key.get(key).map(|i| &self.funs[*i]) }
    pub fn adt(&self, n: &str) -> Option<Ty<'tcx>> {
        let d = *self.adts.get(n)?;
        let args = ty::GenericArgs::for_item(self.tcx, d, |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(), _ => self.tcx.types.u8.into() });
        Some(Ty::new_adt(self.tcx, self.tcx.adt_def(d), args))
    }
    /// Resolves a trait method for the given type arguments (Self first).
    pub fn method(&self, tr: &str, name: &str, args: &[GenericArg<'tcx>]) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let t = find_foreign(tcx, tr)?;
        let m = tcx.associated_items(t).in_definition_order().find(|i| i.name().as_str() == name)?.def_id;
        // does the implementation exist?
        let own = tcx.generics_of(t).count();
        let tref = ty::TraitRef::new(tcx, t, args.iter().copied().take(own));
        let cand = tcx.codegen_select_candidate(self.env.as_query_input(tref)).is_ok();
        if !cand { return None; }
        Instance::try_resolve(tcx, self.env, m, tcx.mk_args(args)).ok().flatten()
    }
}
#[allow(non_snake_case)]
fn GenericArgs_for<'tcx>(tcx: TyCtxt<'tcx>, did: DefId, mut f: impl FnMut(&ty::GenericParamDef) -> Option<Ty<'tcx>>) -> Option<GenericArgsRef<'tcx>> {
    let mut ok = true;
    let a = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        ty::GenericParamDefKind::Type { .. } => match f(p) { Some(t) => t.into(), None => { ok = false; tcx.types.u8.into() } },
        ty::GenericParamDefKind::Const { .. } => { ok = false; tcx.mk_param_from_def(p) }
    });
    ok.then_some(a)
}
/// A type or trait of another crate, by its defining path (`core::fmt::Write`).
pub fn find_foreign<'tcx>(tcx: TyCtxt<'tcx>, path: &str) -> Option<DefId> {
    let segs: Vec<&str> = path.split("::").collect();
    let krate = if segs[0] == "crate" { rustc_hir::def_id::LOCAL_CRATE } else { tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == segs[0])? };
    let mut cur = krate.as_def_id();
    for s in &segs[1..] {
        let kids: Vec<(String, Option<DefId>)> = if let Some(l) = cur.as_local() {
            tcx.module_children_local(l).iter().map(|c| (c.ident.to_string(), c.res.opt_def_id())).collect()
        } else {
            tcx.module_children(cur).iter().map(|c| (c.ident.to_string(), c.res.opt_def_id())).collect()
        };
        cur = kids.into_iter().find(|(n, d)| n == s && d.is_some_and(|d| matches!(tcx.def_kind(d), DefKind::Mod | DefKind::Struct | DefKind::Enum | DefKind::Trait | DefKind::Union | DefKind::Fn)))?.1?;
    }
    Some(cur)
}
