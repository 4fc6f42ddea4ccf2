//! The properties, as analysis cases.
use crate::api::*;
use crate::exec::*;
use crate::gen::*;
use crate::posspec::{picked, Cover};
use crate::run::*;
use crate::val::*;
use rustc_middle::ty::{Ty};
use std::rc::Rc;

pub struct Px<'tcx> {
    pub api: Api<'tcx>,
    pub e: Engine<'tcx>,
    pub cases: Vec<Case<'tcx>>,
    /// Things that could not be set up: (subject, reason).
    pub missing: Vec<(String, String)>,
    /// Violations found without exploring code, and the number of such facts.
    pub static_bad: Vec<Bad>,
    pub facts: u64,
    /// What structural rules looked at.
    pub notes: Vec<String>,
}
impl<'tcx> Px<'tcx> {
    pub fn inputs(&self, fid: u32) -> Vec<Ty<'tcx>> {
        let info = self.e.lw.info(fid);
        let tcx = self.api.tcx;
        let s = tcx.fn_sig(info.inst.def_id()).instantiate(tcx, info.inst.args).skip_norm_wip();
        let s = tcx.instantiate_bound_regions_with_erased(s);
        let s = tcx.normalize_erasing_regions(self.e.lw.env, rustc_middle::ty::Unnormalized::new_wip(s));
        s.inputs().to_vec()
    }
    pub fn output(&self, fid: u32) -> Ty<'tcx> {
        let info = self.e.lw.info(fid);
        let tcx = self.api.tcx;
        let s = tcx.fn_sig(info.inst.def_id()).instantiate(tcx, info.inst.args).skip_norm_wip();
        let s = tcx.instantiate_bound_regions_with_erased(s);
        let s = tcx.normalize_erasing_regions(self.e.lw.env, rustc_middle::ty::Unnormalized::new_wip(s));
        s.output()
    }
}
/// The documented preconditions of the unsafe functions: allowed values of integer arguments, by function and argument.
pub fn precondition(key: &str, arg: usize) -> Option<Vec<u64>> {
    let k = key.rsplit("::").next().unwrap();
    let owner = key.split("::").next().unwrap();
    let r = |a: u64, b: u64| Some((a..=b).collect());
    if k.contains("from_u8_unchecked") && arg == 0 {
        return match owner { "GameResolution" => r(1, 5), "IllegalMoveKind" => r(1, 7), "PieceKind" => r(1, 14), "Square" => r(1, 81), "Color" => r(1, 2), "Piece" => Some(CELL[1..].to_vec()), _ => None };
    }
    match (owner, k, arg) {
        ("Bitboard", "from_file_unchecked", 0) | ("Bitboard", "get_file_unchecked", 1) => r(1, 9),
        ("Bitboard", "from_file_unchecked", 1) => r(0, 511),
        ("Bitboard", "shift_down" | "shift_up" | "shift_left" | "shift_right", 1) => r(0, 9),
        _ => None,
    }
}
/// Arbitrary arguments inside the function's precondition; two arguments of one type are generated as pairs.
pub fn gen_args<'tcx>(tys: Vec<Ty<'tcx>>, key: &str) -> Build<'tcx> {
    let key = key.to_string();
    Rc::new(move |e, st, g| {
        let mut v = vec![];
        let peel = |t: Ty<'tcx>| t.peel_refs();
        let pair = tys.iter().enumerate().find_map(|(j, t)| tys[..j].iter().position(|u| peel(*u) == peel(*t) && is_crate(e, peel(*t))).map(|i| (i, j)));
        for (i, t) in tys.iter().enumerate() {
            g.pair = match pair { Some((a, _)) if a == i => Pair::Fst, Some((_, b)) if b == i => Pair::Snd, _ => Pair::Off };
            let name = format!("arg{i}");
            if let Some(c) = precondition(&key, i) {
                let s = g.scalar(st, c, &name);
                v.push(Val::S(crate::mem::V::S(s), e.lw.layout(*t).map_err(Need::Unsup)?.size.bytes() as u32));
                continue;
            }
            if t.to_string() == "u128" {
                // the 128-bit forms of valid sets
                let b = g.bitboard(st, &name);
                let c = if key.starts_with("Byte") { swapped_chunks(&|i| b[i as usize].bit(|x| x == 1)) } else { bb_chunks(&|i| b[i as usize].bit(|x| x == 1), 0) };
                let m = crate::mem::Mem::from_chunks(c);
                v.push(Val::S(m.read(0, 16, &st.doms)?, 16));
                continue;
            }
            v.push(gen(e, st, g, *t, &name)?);
            if key == "Position::Position_destruct" {
                // a pointer obtained from the constructor owns its allocation
                if let Val::S(crate::mem::V::P(p), _) = &v[i] { if let crate::mem::Base::H(h) = p.base { Rc::make_mut(&mut st.heap[h as usize]).heap = true; } }
            }
        }
        g.pair = Pair::Off;
        Ok(v)
    })
}
/// What the exploration of every public function is to show.
#[derive(Clone, Copy, PartialEq)]
pub enum Want { Sound, NoPanic, Valid, Pure, Owned, All }
/// Every public function, with every valid argument.
pub fn auto<'tcx>(px: &mut Px<'tcx>, filter: &str, want: Want, thorough: bool) {
    let funs = px.api.funs.clone();
    for f in funs {
        if !f.public || !f.key.contains(filter) { continue; }
        // methods a user implements are no code of the crate; `Self` of the writing trait is covered per type
        if f.key.starts_with("trait ToUsi") || f.key.starts_with("trait ") && !px.api.tcx.defaultness(f.did).has_value() { continue; }
        let fid = px.e.lw.intern(px.api.inst(&f));
        let ins = px.inputs(fid);
        let out = px.output(fid);
        let ins2 = ins.clone();
        let build = gen_args(ins.clone(), &f.key);
        let build: Build<'tcx> = Rc::new(move |e, st, g| { let v = build(e, st, g)?; g.argv = v.clone(); Ok(v) });
        let check: Check<'tcx> = match want {
            Want::Valid | Want::All => Rc::new(move |c| {
                let l = c.e.lw.layout(out).map_err(Need::Unsup)?;
                if !l.is_zst() { check_repr(c.e, c.st, out, &c.ret.clone().mem(), 0, "the result", 0)?; }
                for (i, t) in ins2.iter().enumerate() {
                    if let rustc_middle::ty::Ref(_, _, m) = t.kind() { if m.is_mut() { check_repr(c.e, c.st, *t, &c.g.argv[i].clone().mem(), 0, &format!("argument {} afterwards", i + 1), 0)?; } }
                }
                Ok(())
            }),
            Want::Owned => Rc::new(|c| owned(c)),
            _ => Rc::new(|_| Ok(())),
        };
        // the provided move maker relies on the checker's promise that a legal move can be made
        let promise = f.key == "trait LegalityChecker::make_move";
        let faults = match want { Want::Sound => (false, true), Want::NoPanic => (!promise, false), Want::All => (!promise, true), _ => (false, false) };
        let base = Case { name: f.key.clone(), fid, build, check, faults, may_fail: true, fix: Default::default(), prep: None };
        let cover = match (thorough, f.key.as_str()) { (true, _) => Cover::All, (_, "PartialPosition::make_move") => Cover::Some(11), _ => Cover::Some(61) };
        px.cases.extend(expand_some(px, base, &ins, cover));
    }
    // text of every writable type, through each entry point
    for a in px.api.funs.clone() {
        if a.trait_impl.as_deref() != Some("ToUsi") || !a.key.contains(filter) { continue; }
        let Some(t) = a.self_ty else { continue };
        for f in crate::textspec::owned_of(px, t) {
            let mut c = px.mk(&f, Rc::new(|_| Ok(())));
            if want == Want::Owned { c.check = Rc::new(|c| owned(c)); }
            px.cases.push(Case { faults: match want { Want::Sound => (false, true), Want::NoPanic => (true, false), Want::All => (true, true), _ => (false, false) }, ..c });
        }
    }
}
/// Every block of memory still allocated is reachable for the caller: through the result or through what its references lead to.
fn owned(c: &Ck) -> R<()> {
    use crate::mem::{Base, Ptr, V};
    let mut seen = std::collections::BTreeSet::new();
    let mut work: Vec<u32> = vec![];
    let ptrs = |m: &crate::mem::Mem| m.chunks().iter().filter_map(|x| match &x.v { V::P(Ptr { base: Base::H(o), .. }) => Some(*o), _ => None }).collect::<Vec<_>>();
    work.extend(ptrs(&c.ret.clone().mem()));
    // what belongs to the caller before and after
    for (i, o) in c.st.heap.iter().enumerate() { if !o.heap { work.push(i as u32); } }
    while let Some(o) = work.pop() {
        if !seen.insert(o) { continue; }
        let ob = &c.st.heap[o as usize];
        if let ObjKind::Freed = ob.kind { continue; }
        work.extend(ptrs(&ob.mem));
        if let ObjKind::Seq { items, .. } = &ob.kind { for v in items.iter() { work.extend(ptrs(&v.clone().mem())); } }
    }
    for (i, o) in c.st.heap.iter().enumerate() {
        if !o.heap || seen.contains(&(i as u32)) { continue; }
        match &o.kind {
            ObjKind::Freed => {}
            // nothing was allocated yet
            ObjKind::Seq { prefix: None, items, .. } if items.is_empty() => {}
            ObjKind::Seq { string, .. } => return Err(Need::Viol(format!("the memory of a {} is neither released nor handed to the caller", if *string { "string" } else { "sequence" }))),
            _ => return Err(Need::Viol(format!("a block of {} bytes is neither released nor handed to the caller", o.size))),
        }
    }
    Ok(())
}
/// Memory is released exactly once: what functions allocate or take over is released or handed on, and values release what they own.
pub fn c35<'tcx>(px: &mut Px<'tcx>, thorough: bool) {
    auto(px, "", Want::Owned, thorough);
    // what happens when the user drops a value
    for (name, t) in crate::structural::reachable_adts(px) {
        if !t.needs_drop(px.api.tcx, px.e.lw.env) { px.facts += 1; continue; }
        let fid = px.e.lw.intern(rustc_middle::ty::Instance::resolve_drop_glue(px.api.tcx, t));
        let build: Build<'tcx> = Rc::new(move |e, st, g| {
            let r = Ty::new_mut_ref(e.lw.tcx, e.lw.tcx.lifetimes.re_erased, t);
            Ok(vec![gen(e, st, g, r, "arg0")?])
        });
        let check: Check<'tcx> = Rc::new(|c| {
            // the value itself is gone; so must be all it owned
            match c.st.heap.iter().find(|o| o.heap && !matches!(o.kind, ObjKind::Freed)) {
                Some(_) => Err(Need::Viol("dropping the value does not release the memory it owns".into())),
                None => Ok(()),
            }
        });
        px.cases.push(Case { name: format!("drop {name}"), fid, build, check, faults: (true, true), may_fail: false, fix: Default::default(), prep: None });
    }
}
/// Functions of a position are analysed per concrete square and move.
pub fn expand<'tcx>(px: &Px<'tcx>, c: Case<'tcx>, ins: &[Ty<'tcx>]) -> Vec<Case<'tcx>> { expand_some(px, c, ins, Cover::All) }
pub fn expand_some<'tcx>(px: &Px<'tcx>, c: Case<'tcx>, ins: &[Ty<'tcx>], cover: Cover) -> Vec<Case<'tcx>> {
    let e = &px.e;
    let has_pos = ins.iter().any(|t| matches!(name_of(e, t.peel_refs()).as_str(), "PartialPosition" | "Position"));
    if !has_pos { return vec![c]; }
    for (i, t) in ins.iter().enumerate() {
        let n = format!("arg{i}");
        let mk = |fix: Vec<(String, u64)>, s: String| { let mut d = c.clone(); d.name = format!("{} {s}", c.name); d.fix = Rc::new(fix); d };
        match name_of(e, *t).as_str() {
            "Square" => return (1..=81u64).map(|q| mk(vec![(n.clone(), q)], sq_name(q as usize - 1))).collect(),
            "CompactMove" => return compact_codes().into_iter().filter(|q| picked(cover, *q)).map(|q| mk(vec![(n.clone(), q)], move_name(q))).collect(),
            "Move" => return compact_codes().into_iter().filter(|q| picked(cover, *q)).map(|q| mk(fix_move(&n, q), move_name(q))).collect(),
            _ => {}
        }
    }
    vec![c]
}
pub fn fix_move(n: &str, q: u64) -> Vec<(String, u64)> {
    if q & 128 != 0 { vec![(format!("{n}#"), 1), (format!("{n}.piece"), q >> 8), (format!("{n}.to"), q & 127)] }
    else { vec![(format!("{n}#"), 0), (format!("{n}.from"), q >> 8 & 127), (format!("{n}.to"), q & 127), (format!("{n}.promote"), q >> 15)] }
}
pub fn move_name(q: u64) -> String {
    let to = sq_name((q & 127) as usize - 1);
    if q & 128 != 0 { format!("{}*{to}", crate::mon::piece_letter((q >> 8) as u128) as char) }
    else { format!("{}{to}{}", sq_name((q >> 8 & 127) as usize - 1), if q >> 15 == 1 { "+" } else { "" }) }
}

/// Whether `Bitboard::pop` removes and returns the first member; if so, callers may use that instead of its body.
pub fn pop_contract(px: &Px) -> bool {
    let Some(f) = px.api.get("Bitboard::pop") else { return false };
    let fid = px.e.lw.intern_body(px.api.inst(f));
    let ins = px.inputs(fid);
    let check: Check = Rc::new(|c| {
        let bits: Vec<Bit> = c.g.bbs[0].iter().map(|p| p.bit(|x| x == 1)).collect();
        let Val::M(v, 1) = c.ret else { return unsup("pop") };
        let crate::mem::V::S(r) = &v[0].v else { return unsup("pop") };
        let r = r.konst(&c.st.doms)? as usize;
        for i in 0..81 {
            let b = bits[i].norm(&c.st.doms);
            if r == 0 || i + 1 < r { if b != Bit::K(false) { return unsup("pop") } }
            if i + 1 == r && b != Bit::K(true) { return unsup("pop"); }
        }
        let exp = bb_chunks(&|i| if i as usize + 1 == r { Bit::K(false) } else { bits[i as usize].clone() }, 0);
        for ch in exp {
            let (crate::mem::V::S(x), crate::mem::V::S(y)) = (c.e.read(c.st, Loc { base: crate::mem::Base::H(0), off: ch.off as i64 }, 8)?, ch.v) else { return unsup("pop") };
            if differ(&x, &y, 64, &c.st.doms)?.is_some() { return unsup("pop"); }
        }
        Ok(())
    });
    let case = Case { name: "pop".into(), fid, build: gen_args(ins, "Bitboard::pop"), check, faults: (true, true), may_fail: false, fix: Default::default(), prep: None };
    let mut out = Out::default();
    run_case(&px.e, &case, &mut out);
    let ok = out.bad.is_empty();
    px.e.sum_pop.set(ok);
    ok
}
