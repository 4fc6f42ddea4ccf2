//! Specifications of text output.
use crate::gen::*;
use crate::mem::*;
use crate::mon::*;
use crate::props::*;
use crate::sem::*;
use crate::spec::*;
use crate::val::*;
use rustc_ast::attr::AttributeExt;
use std::rc::Rc;

/// The text of a set of arguments.
type Toks = Rc<dyn Fn(&[Sem], &[Dom]) -> R<Vec<Tok>>>;

fn square_toks(s: &Sc, d: &[Dom]) -> R<Vec<Tok>> {
    Ok(vec![Tok::B(map1(s, d, |q| (q - 1) / 9 + b'1' as u128)?), Tok::B(map1(s, d, |q| (q - 1) % 9 + b'a' as u128)?)])
}
/// A kind or piece, by its code.
fn piece_toks(s: &Sc) -> Vec<Tok> {
    let alts: Vec<(u64, Vec<Tok>)> = CELL[1..].iter().map(|p| {
        let mut t = if unpromo(pkind(*p)) != 0 { lit("+") } else { vec![] };
        t.push(Tok::B(Sc::C(piece_letter(*p as u128) as u128)));
        (*p, t)
    }).collect();
    vec![Tok::Sel(s.clone(), Rc::new(alts))]
}
fn color_toks(s: &Sc) -> Vec<Tok> { vec![Tok::Sel(s.clone(), Rc::new(vec![(1, lit("b")), (2, lit("w"))]))] }
fn hands_toks(h: &[Vec<Sc>; 2]) -> Vec<Tok> {
    let mut t = vec![];
    for c in 0..2 {
        for k in (1..=7u32).rev() {
            let l = kind_letter(k);
            t.push(Tok::Count(h[c][k as usize - 1].clone(), if c == 1 { l.to_ascii_lowercase() } else { l }));
        }
    }
    t.push(Tok::Dash);
    t
}
fn move_toks(m: &Sem, d: &[Dom]) -> R<Vec<Tok>> {
    match m {
        Sem::V(0, v) => {
            let mut t = square_toks(&v[0].sc()?, d)?;
            t.extend(square_toks(&v[1].sc()?, d)?);
            t.push(Tok::Sel(v[2].sc()?, Rc::new(vec![(0, vec![]), (1, lit("+"))])));
            Ok(t)
        }
        Sem::V(_, v) => {
            let mut t = piece_toks(&map1(&v[0].sc()?, d, |p| p & 15)?);
            t.extend(lit("*"));
            t.extend(square_toks(&v[1].sc()?, d)?);
            Ok(t)
        }
        // the packed form
        q => {
            let q = q.sc()?;
            let sq = |s: u32| -> R<Vec<Tok>> {
                Ok(vec![Tok::B(map1(&q, d, |x| ((x >> s & 127).max(1) - 1) / 9 + b'1' as u128)?), Tok::B(map1(&q, d, |x| ((x >> s & 127).max(1) - 1) % 9 + b'a' as u128)?)])
            };
            let mut normal = sq(8)?;
            normal.extend(sq(0)?);
            normal.push(Tok::Sel(map1(&q, d, |x| x >> 15)?, Rc::new(vec![(0, vec![]), (1, lit("+"))])));
            let mut drop = piece_toks(&map1(&q, d, |x| x >> 8 & 15)?);
            drop.extend(lit("*"));
            drop.extend(sq(0)?);
            Ok(vec![Tok::Sel(map1(&q, d, |x| x >> 7 & 1)?, Rc::new(vec![(0, normal), (1, drop)]))])
        }
    }
}
fn sfen_toks(p: &PosSem) -> Vec<Tok> {
    let mut t = vec![];
    for r in 0..9 {
        for f in (0..9).rev() { t.push(Tok::Cell(p.cells[9 * f + r].clone())); }
        t.push(Tok::RankEnd);
        if r < 8 { t.extend(lit("/")); }
    }
    t.extend(lit(" "));
    t.extend(color_toks(&p.side));
    t.extend(lit(" "));
    t.extend(hands_toks(&p.hands));
    t.extend(lit(" "));
    t.push(Tok::Dec(p.ply.clone()));
    t
}
/// The greatest length of the text of a position: no square empty, every piece promoted, every count of three digits.
fn sfen_max() -> u64 { 81 * 2 + 8 + 1 + 1 + 1 + 14 * 4 + 1 + 5 }

/// The end of an execution that writes text: complete, reported as success, in the returned string if there is one.
fn end(c: &Cx) -> R<()> {
    c.st.mon.text_done(c.doms())?;
    let r = c.retv.clone().mem();
    if is_string(c) {
        let V::P(Ptr { base: Base::H(o), .. }) = r.read(0, 8, c.doms())? else { return unsup("string") };
        if c.st.mon.tag != o + 1 { return c.viol("the returned string is not the one the text was written to"); }
        return Ok(());
    }
    if c.retv.size() == 1 && c.k(&c.ret()?)? != 0 { return c.viol("a failure is returned although every write succeeded"); }
    Ok(())
}
fn is_string(c: &Cx) -> bool { crate::exec::adt_path(c.e.lw.tcx, c.f.out) == "alloc::string::String" }
impl<'tcx> Px<'tcx> {
    fn text_of(&mut self, f: &F<'tcx>, toks: Toks, spec: Spec<'tcx>) {
        let mut c = self.mk(f, spec);
        c.prep = Some(Rc::new(move |st, g| { st.mon.text = Some(Text::new(toks(&g.args, &st.doms)?)); Ok(()) }));
        let v = expand(self, c, &f.ins);
        self.cases.extend(v);
    }
    fn text(&mut self, key: &str, toks: Toks) {
        let Some(f) = self.f(key) else { return };
        self.text_of(&f, toks, Rc::new(|c: &Cx| end(c)));
    }
    /// A provided method of the writing trait, for an implementing type.
    fn owned(&mut self, t: rustc_middle::ty::Ty<'tcx>, toks: Toks) {
        for f in owned_of(self, t) { self.text_of(&f, toks.clone(), Rc::new(|c: &Cx| end(c))); }
    }
}
/// The provided method that gives the text of a value of the type.
pub fn owned_of<'tcx>(px: &Px<'tcx>, t: rustc_middle::ty::Ty<'tcx>) -> Option<F<'tcx>> {
    let i = px.api.method("crate::ToUsi", "to_usi_owned", &[t.into()])?;
    Some(px.f_inst(&format!("to_usi_owned of {}", crate::api::tname(px.api.tcx, t)), i))
}
fn inner_pos(s: &Sem) -> R<PosSem> { Ok(crate::posspec::inner(s)?.clone()) }

pub fn c19(px: &mut Px) {
    let toks: Toks = Rc::new(|a, _| Ok(sfen_toks(&inner_pos(&a[0])?)));
    for k in ["PartialPosition::to_sfen", "PartialPosition::to_sfen_owned", "Position::to_sfen_owned"] {
        if k != "PartialPosition::to_sfen" && px.api.get(k).is_none() { continue; }
        px.text(k, toks.clone());
    }
    stream(px);
}
pub fn stream(px: &mut Px) {
    for t in ["PartialPosition", "Position"] {
        let k = format!("c:{t}_to_sfen_c");
        if px.api.adt(t).is_none() || (t == "Position" && px.api.get(&k).is_none()) { continue; }
        let Some(f) = px.f(&k) else { continue };
        let toks: Toks = Rc::new(|a, _| Ok(sfen_toks(&inner_pos(&a[0])?)));
        px.text_of(&f, toks, Rc::new(|c: &Cx| c.st.mon.stream_done(c.doms())));
    }
}
/// Numbers in the documentation of a function.
fn doc_numbers(px: &Px, key: &str) -> Option<Vec<u64>> {
    let f = px.api.get(key)?;
    let tcx = px.api.tcx;
    let mut text = String::new();
    for a in tcx.hir_attrs(tcx.local_def_id_to_hir_id(f.did.as_local()?)) { if let Some(d) = a.doc_str() { text.push_str(d.as_str()); text.push('\n'); } }
    let i = text.find("Safety")?;
    Some(text[i..].split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect())
}
pub fn c22(px: &mut Px) {
    stream(px);
    // the documented size of the buffer
    for t in ["PartialPosition", "Position"] {
        let k = format!("c:{t}_to_sfen_c");
        if px.api.get(&k).is_none() { continue; }
        let need = sfen_max() + 1;
        match doc_numbers(px, &k) {
            Some(v) if !v.is_empty() => {
                let stated = *v.iter().max().unwrap();
                px.fact(stated >= need, format!("the documentation tells the caller to provide {stated} bytes while up to {need} bytes are stored"), k);
            }
            _ => px.missing.push((k, "no size is documented".into())),
        }
    }
}
pub fn c20(px: &mut Px) {
    let all: Vec<(&str, Toks)> = vec![
        ("Square", Rc::new(|a: &[Sem], d: &[Dom]| square_toks(&a[0].sc()?, d))),
        ("PieceKind", Rc::new(|a: &[Sem], _: &[Dom]| Ok(piece_toks(&a[0].sc()?)))),
        ("Piece", Rc::new(|a: &[Sem], _: &[Dom]| Ok(piece_toks(&a[0].sc()?)))),
        ("Color", Rc::new(|a: &[Sem], _: &[Dom]| Ok(color_toks(&a[0].sc()?)))),
        ("Move", Rc::new(|a: &[Sem], d: &[Dom]| move_toks(&a[0], d))),
        ("CompactMove", Rc::new(|a: &[Sem], d: &[Dom]| move_toks(&a[0], d))),
        ("[Hand]", Rc::new(|a: &[Sem], _: &[Dom]| {
            let h = |i: usize| -> R<Vec<Sc>> { match a[0].at(i)? { Sem::T(v) => v.iter().map(|x| x.sc()).collect(), _ => unsup("hand") } };
            Ok(hands_toks(&[h(0)?, h(1)?]))
        })),
    ];
    for (t, toks) in all {
        let k = format!("<{t} as ToUsi>::to_usi");
        px.text(&k, toks.clone());
        if let Some(s) = px.api.get(&k).and_then(|f| f.self_ty) { px.owned(s, toks); }
    }
}
pub fn c21(px: &mut Px) {
    let mut keys: Vec<String> = px.api.funs.iter().filter(|f| f.public && f.trait_impl.as_deref() == Some("ToUsi") && f.key.ends_with("::to_usi")).map(|f| f.key.clone()).collect();
    if keys.len() < 7 { px.missing.push(("ToUsi".into(), format!("only {} implementations found", keys.len()))); }
    keys.push("PartialPosition::to_sfen".into());
    for k in keys {
        let Some(f) = px.f(&k) else { continue };
        let mut c = px.mk(&f, Rc::new(|c: &Cx| {
            let failed = c.k(&c.ret()?)? != 0;
            if failed != c.st.mon.errored { return c.viol(if failed { "a failure is returned although every write succeeded" } else { "success is returned although a write failed" }); }
            Ok(())
        }));
        c.may_fail = true;
        px.cases.push(c);
    }
}
