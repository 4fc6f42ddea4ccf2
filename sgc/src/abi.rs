//! The interface the crate exports to C: signatures, type layouts, enumerators and constants, as the compiler sees them.
//! `check.py` compares the notes written here with the header.
use crate::api::*;
use crate::props::*;
use rustc_hir::def::DefKind;
use rustc_middle::ty::{self, Ty, TyCtxt};

fn q(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")) }
fn prim(t: Ty) -> Option<String> {
    Some(match t.kind() {
        ty::Bool => "bool".into(), ty::Int(i) => i.name_str().into(), ty::Uint(i) => i.name_str().into(), ty::Float(f) => f.name_str().into(),
        ty::Tuple(x) if x.is_empty() => "void".into(), ty::Never => "void".into(),
        _ => return None,
    })
}
fn strip<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
    if let ty::Adt(d, a) = t.kind() { if Some(d.did()) == tcx.lang_items().maybe_uninit() { return a.type_at(0); } }
    t
}
fn pname<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String { let t = strip(tcx, t); prim(t).unwrap_or_else(|| tname(tcx, t)) }
/// The one non-zero-sized field of a transparent type, all the way down.
fn peel<'tcx>(px: &Px<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
    let tcx = px.api.tcx;
    let mut t = t;
    while let ty::Adt(d, a) = t.kind() {
        if !d.repr().transparent() || d.is_enum() || nonzero(px, t).is_some() { break; }
        let Some(f) = d.all_fields().map(|f| f.ty(tcx, a).skip_norm_wip()).map(|f| tcx.normalize_erasing_regions(px.api.env, rustc_middle::ty::Unnormalized::new(f))).find(|f| tcx.layout_of(px.api.env.as_query_input(*f)).is_ok_and(|l| !l.is_zst())) else { break };
        t = f;
    }
    t
}
/// (rust type name, C-level class, detail) or an error.
fn class<'tcx>(px: &Px<'tcx>, t0: Ty<'tcx>) -> Result<(String, String), String> {
    let tcx = px.api.tcx;
    let n = pname(tcx, t0);
    let t = peel(px, t0);
    if let Some(p) = prim(t) { return Ok((n, p)); }
    let ptr = |t: Ty<'tcx>, m: bool| Ok((n.clone(), format!("ptr {} {}", if m { "mut" } else { "const" }, pname(tcx, t))));
    match t.kind() {
        ty::Ref(_, p, m) | ty::RawPtr(p, m) => {
            if !tcx.layout_of(px.api.env.as_query_input(t)).is_ok_and(|l| l.size.bytes() == 8) { return Err(format!("{n} is a wide pointer")); }
            ptr(*p, m.is_mut())
        }
        ty::Adt(d, a) => {
            if d.is_box() { return ptr(a.type_at(0), true); }
            if Some(d.did()) == tcx.lang_items().option_type() {
                // the one guaranteed case: an optional reference, box or function pointer, or a std non-zero integer
                let x = a.type_at(0);
                let y = peel(px, x);
                if let ty::Ref(_, p, m) = y.kind() { return ptr(*p, m.is_mut()); }
                if y.is_box() { return ptr(y.boxed_ty().unwrap(), true); }
                return Err(format!("{n} has no representation that C can rely on"));
            }
            if d.is_enum() {
                let fieldless = d.all_fields().next().is_none();
                let r = d.repr();
                if !fieldless { return Err(format!("{n} is an enum with data")); }
                if let Some(i) = r.int { return Ok((n, format!("{}{}", if i.is_signed() { "i" } else { "u" }, tcx.layout_of(px.api.env.as_query_input(t)).map(|l| l.size.bits()).unwrap_or(0)))); }
                if r.c() { return Ok((n, "enum".into())); }
                return Err(format!("{n} has no fixed representation"));
            }
            if let Some(x) = crate::abi::nonzero(px, t) { return Ok((n, x)); }
            if d.repr().c() { return Ok((n.clone(), format!("struct {n}"))); }
            Err(format!("{n} has no fixed representation"))
        }
        ty::FnPtr(..) => Ok((n, "fnptr".into())),
        _ => Err(format!("{n} cannot cross to C")),
    }
}
pub fn nonzero<'tcx>(px: &Px<'tcx>, t: Ty<'tcx>) -> Option<String> {
    let tcx = px.api.tcx;
    let ty::Adt(d, a) = t.kind() else { return None };
    if tcx.get_diagnostic_item(rustc_span::sym::NonZero) == Some(d.did()) { return prim(a.type_at(0)); }
    None
}
pub fn c26<'tcx>(px: &mut Px<'tcx>) {
    let tcx = px.api.tcx;
    let mut exports = 0;
    for f in px.api.funs.clone() {
        let Some(e) = f.export.clone() else { continue };
        exports += 1;
        px.facts += 1;
        let sp = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(f.did));
        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(f.did).instantiate(tcx, f.args).skip_norm_wip());
        let mut bad = vec![];
        if !matches!(sig.abi(), rustc_abi::ExternAbi::C { .. } | rustc_abi::ExternAbi::System { .. }) { bad.push(format!("{e} does not use the C calling convention ({:?})", sig.abi())); }
        if tcx.generics_of(f.did).own_requires_monomorphization() { bad.push(format!("{e} is generic")); }
        let names: Vec<String> = tcx.fn_arg_idents(f.did).iter().map(|i| i.map(|i| i.to_string()).unwrap_or_default()).collect();
        let mut ps = vec![];
        for (i, t) in sig.inputs().iter().chain([&sig.output()]).enumerate() {
            let t = tcx.normalize_erasing_regions(px.api.env, rustc_middle::ty::Unnormalized::new(*t));
            match class(px, t) {
                Ok((n, c)) => ps.push(format!("[{},{},{}]", q(names.get(i).map(|s| s.as_str()).unwrap_or("")), q(&n), q(&c))),
                Err(m) => { bad.push(format!("{e}: {m}")); ps.push("[\"\",\"?\",\"?\"]".into()); }
            }
        }
        for m in bad { px.static_bad.push(crate::run::Bad { kind: "violation", msg: m, site: sp.clone(), witness: String::new(), case: e.clone() }); }
        px.notes.push(format!("ABI {{\"fn\":{},\"site\":{},\"sig\":[{}]}}", q(&e), q(&sp), ps.join(",")));
    }
    if exports == 0 { px.missing.push(("exported functions".into(), "none found".into())); }
    let eff = tcx.effective_visibilities(());
    for (n, d) in px.api.adts.clone() {
        if !d.as_local().is_some_and(|l| eff.is_reachable(l)) { continue; }
        let Some(t) = px.api.adt(&n) else { continue };
        let ty::Adt(ad, a) = t.kind() else { continue };
        let Ok(l) = tcx.layout_of(px.api.env.as_query_input(t)) else { continue };
        let sp = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d));
        let mut fields = vec![];
        let mut discs = vec![];
        if ad.is_enum() {
            if ad.all_fields().next().is_none() { for (v, dd) in ad.discriminants(tcx) { discs.push(format!("[{},{}]", q(ad.variant(v).name.as_str()), dd.val)); } }
        } else {
            for (i, f) in ad.all_fields().enumerate() {
                let ft = f.ty(tcx, a).skip_norm_wip();
                let fl = tcx.layout_of(px.api.env.as_query_input(ft)).ok();
                let (elem, count) = match ft.kind() { ty::Array(e, c) => (*e, c.try_to_target_usize(tcx)), _ => (ft, None) };
                let cl = class(px, elem).map(|c| c.1).unwrap_or("?".into());
                fields.push(format!("[{},{},{},{},{},{}]", q(f.name.as_str()), l.fields.offset(i).bytes(), fl.map(|l| l.size.bytes() as i64).unwrap_or(-1), q(&pname(tcx, elem)), q(&cl), count.map(|c| c as i64).unwrap_or(-1)));
            }
        }
        let r = ad.repr();
        let kind = if ad.is_enum() { "enum" } else { "struct" };
        let repr = if r.transparent() { "transparent" } else if r.c() { "C" } else if r.int.is_some() { "int" } else { "rust" };
        let cl = class(px, t).map(|c| c.1).unwrap_or("?".into());
        px.notes.push(format!("ABI {{\"type\":{},\"site\":{},\"kind\":{},\"repr\":{},\"class\":{},\"size\":{},\"align\":{},\"fields\":[{}],\"values\":[{}]}}", q(&n), q(&sp), q(kind), q(repr), q(&cl), l.size.bytes(), l.align.abi.bytes(), fields.join(","), discs.join(",")));
    }
    // integer constants of the types
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::AssocConst { .. }) || !eff.is_reachable(d) { continue; }
        let Some(i) = tcx.inherent_impl_of_assoc(did) else { continue };
        let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
        if !tcx.type_of(did).instantiate_identity().skip_norm_wip().is_integral() { continue; }
        let Ok(v) = tcx.const_eval_poly(did) else { continue };
        let Some(x) = v.try_to_scalar_int() else { continue };
        px.facts += 1;
        px.notes.push(format!("ABI {{\"const\":{},\"value\":{}}}", q(&format!("{}_{}", tname(tcx, st), tcx.item_name(did))), x.to_bits_unchecked()));
    }
}
