//! The specifications of the properties.
use crate::exec::*;
use crate::gen::*;
use crate::mem::*;
use crate::props::*;
use crate::run::*;
use crate::sem::*;
use crate::val::*;
use rustc_middle::ty::{self, Ty};
use std::rc::Rc;

// ---- the documented coding of the small types ----
pub fn promo(k: u64) -> u64 { match k { 1 => 9, 2 => 10, 3 => 11, 4 => 12, 6 => 13, 7 => 14, _ => 0 } }
pub fn unpromo(k: u64) -> u64 { match k { 9 => 1, 10 => 2, 11 => 3, 12 => 4, 13 => 6, 14 => 7, _ => 0 } }
pub fn base_kind(k: u64) -> u64 { if unpromo(k) != 0 { unpromo(k) } else { k } }
pub fn pkind(p: u64) -> u64 { p & 15 }
pub fn pcolor(p: u64) -> u64 { 1 + (p >> 4) }
pub fn piece(k: u64, c: u64) -> u64 { if k == 0 { 0 } else { k + 16 * (c - 1) } }
fn file(q: u64) -> u64 { (q - 1) / 9 + 1 }
fn rank(q: u64) -> u64 { (q - 1) % 9 + 1 }
fn square(f: i64, r: i64) -> u64 { if (1..=9).contains(&f) && (1..=9).contains(&r) { (9 * f + r - 9) as u64 } else { 0 } }
pub fn scb(s: &Sc, doms: &[Dom], f: impl Fn(u64) -> bool) -> R<Bit> { Ok(map1(s, doms, |x| f(x as u64) as u128)?.to_bits(1).into_iter().next().unwrap()) }
pub fn combine(a: &[Bit], b: &[Bit], f: impl Fn(bool, bool) -> bool + Copy) -> R<Vec<Bit>> {
    a.iter().zip(b).map(|(x, y)| Bit::op(x, y, f).ok_or(Need::Unsup("set too complex".into()))).collect()
}
impl<'a, 'tcx> Cx<'a, 'tcx> {
    pub fn doms(&self) -> &[Dom] { &self.st.doms }
    pub fn k(&self, s: &Sem) -> R<u64> { Ok(s.sc()?.konst(self.doms())? as u64) }
    /// A condition on scalars, required for every assignment left.
    pub fn need(&self, what: &str, ins: &[Sc], f: impl Fn(&[u64]) -> bool) -> R<()> {
        match table(self.st, ins, &[("".into(), Sc::C(1), 8)], &|v| vec![f(v) as u64]) {
            Err(Need::Viol(m)) => self.viol(format!("{what}: {}", m.split(" the result is").next().unwrap_or(""))),
            r => r,
        }
    }
    pub fn ty_in(&self, i: usize) -> Ty<'tcx> { self.f.ins[i] }
}
/// Memory holding a value, for passing it by reference.
pub fn place<'tcx>(e: &Engine<'tcx>, st: &mut State, t: Ty<'tcx>, v: &Val) -> R<Val> {
    let l = e.lw.layout(t).map_err(Need::Unsup)?;
    let o = st.alloc(Obj { mem: v.clone().mem(), size: l.size.bytes(), align: l.align.abi.bytes() as u32, ro: false, kind: ObjKind::Bytes, heap: false });
    Ok(Val::S(V::P(Ptr { base: Base::H(o), off: 0 }), 8))
}
/// Runs a function whose execution does not branch.
pub fn run_one<'tcx>(c: &Cx<'_, 'tcx>, f: &F<'tcx>, st: &State, args: Vec<Val>) -> R<(State, Val)> {
    let mut got: Vec<(State, Val)> = vec![];
    c.nest(f, st, args, &mut |s, v| { if got.len() < 2 { got.push((s.clone(), v.clone())); } Ok(()) })?;
    if got.len() != 1 { return unsup(format!("{} branches", f.key)); }
    Ok(got.pop().unwrap())
}
/// Whether two values have the same content: decided for all assignments left, or split.
pub fn content_eq(st: &State, a: &Sem, b: &Sem) -> R<bool> {
    let (mut x, mut y) = (vec![], vec![]);
    flat(a, "", &mut x);
    flat(b, "", &mut y);
    if x.len() != y.len() { return Ok(false); }
    let mut unknown: Option<Bit> = None;
    for (p, q) in x.iter().zip(&y) {
        if p.0 != q.0 { return Ok(false); }
        let (u, v) = (p.1.norm(&st.doms), q.1.norm(&st.doms));
        if u == v { continue; }
        // bit by bit
        for (m, n) in u.to_bits(p.2).iter().zip(&v.to_bits(q.2)) {
            let Some(d) = Bit::op(m, n, |a, b| a != b) else { return unsup("comparison too complex") };
            match d.norm(&st.doms) { Bit::K(true) => return Ok(false), Bit::K(false) => {} b => { if unknown.as_ref().is_none_or(|u| b.syms().len() < u.syms().len()) { unknown = Some(b); } } }
        }
    }
    match unknown { None => Ok(true), Some(b) => Err(split_bit(&st.doms, &b)) }
}
/// The values of the constants of a module or of the associated constants of a type, of the given type.
pub fn consts<'tcx>(px: &Px<'tcx>, of: &str) -> Vec<(String, u64)> {
    let tcx = px.api.tcx;
    let mut out = vec![];
    let Some(t) = px.api.adt(of) else { return out };
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        use rustc_hir::def::DefKind as K;
        if !matches!(tcx.def_kind(did), K::Const { .. } | K::AssocConst { .. }) { continue; }
        if tcx.generics_of(did).count() > 0 || !tcx.effective_visibilities(()).is_reachable(d) { continue; }
        if tcx.type_of(did).instantiate_identity().skip_norm_wip() != t { continue; }
        if let Ok(v) = tcx.const_eval_poly(did) {
            if let rustc_middle::mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) = v {
                out.push((tcx.def_path_str(did), i.to_bits(i.size()) as u64));
            }
        }
    }
    out
}
pub fn num_const<'tcx>(px: &Px<'tcx>, path_end: &str) -> Option<u64> {
    let tcx = px.api.tcx;
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        use rustc_hir::def::DefKind as K;
        if !matches!(tcx.def_kind(did), K::Const { .. } | K::AssocConst { .. }) { continue; }
        if tcx.generics_of(did).count() > 0 || !tcx.def_path_str(did).ends_with(path_end) { continue; }
        if let Ok(rustc_middle::mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i))) = tcx.const_eval_poly(did) { return Some(i.to_bits(i.size()) as u64); }
    }
    None
}
impl<'tcx> Px<'tcx> {
    /// A fact about constants.
    pub fn fact(&mut self, ok: bool, what: impl Into<String>, subject: impl Into<String>) {
        self.facts += 1;
        if !ok { self.static_bad.push(Bad { kind: "violation", msg: what.into(), site: subject.into(), ..Default::default() }); }
    }
    /// The items an iterator returned by a function yields, in order.
    fn yields(&mut self, key: &str, check: impl Fn(&[u64]) -> Option<String> + 'tcx) {
        let Some(f) = self.f(key) else { return };
        let Some(next) = self.api.method("core::iter::traits::iterator::Iterator", "next", &[f.out.into()]) else { self.missing.push((key.into(), "no iterator".into())); return };
        let nf = self.f_inst(&format!("next of {key}"), next);
        self.spec(key, move |c| {
            let mut st = c.st.clone();
            let it = place(c.e, &mut st, c.f.out, c.retv)?;
            let mut got = vec![];
            loop {
                let (s, v) = run_one(c, &nf, &st, vec![it.clone()])?;
                st = s;
                let x = sem(c.e, &st, nf.out, &v.mem(), 0, 0)?.sc()?.konst(&st.doms)? as u64;
                if x == 0 { break; }
                got.push(x);
                if got.len() > 200 { return c.viol("the enumeration does not end"); }
            }
            match check(&got) { None => Ok(()), Some(m) => c.viol(m) }
        });
    }
    fn array_all(&mut self, key: &str, check: impl Fn(&[u64]) -> Option<String> + 'tcx) {
        self.spec(key, move |c| {
            let mut v = vec![];
            flat(&c.ret()?, "", &mut v);
            let got: Vec<u64> = v.iter().map(|x| Ok(x.1.konst(c.doms())? as u64)).collect::<R<_>>()?;
            match check(&got) { None => Ok(()), Some(m) => c.viol(m) }
        });
    }
}
fn exactly(want: Vec<u64>, ordered: bool) -> impl Fn(&[u64]) -> Option<String> {
    move |got| {
        let mut g = got.to_vec();
        if !ordered { g.sort(); }
        if g == want { None } else { Some(format!("the enumeration yields {got:?}")) }
    }
}

pub fn c04(px: &mut Px) {
    px.tab1(&["Square::new", "c:Square_new"], |a| square(a[0] as i64, a[1] as i64));
    px.tab1(&["Square::new_relative", "c:Square_new_relative"], |a| {
        let q = square(a[0] as i64, a[1] as i64);
        if q == 0 || a[2] == 1 { q } else { 82 - q }
    });
    px.tab1(&["Square::file"], |a| file(a[0]));
    px.tab1(&["Square::rank"], |a| rank(a[0]));
    px.tab1(&["Square::index"], |a| a[0]);
    px.tab1(&["Square::array_index"], |a| a[0] - 1);
    px.tab1(&["Square::relative_file"], |a| if a[1] == 1 { file(a[0]) } else { 10 - file(a[0]) });
    px.tab1(&["Square::relative_rank"], |a| if a[1] == 1 { rank(a[0]) } else { 10 - rank(a[0]) });
    px.tab1(&["Square::flip"], |a| 82 - a[0]);
    px.tab1(&["Square::from_u8", "c:Square_from_u8"], |a| if (1..=81).contains(&a[0]) { a[0] } else { 0 });
    px.tab1(&["Square::from_u8_unchecked", "c:Square_from_u8_unchecked"], |a| a[0]);
    px.tab1(&["Square::shift", "c:Square_shift"], |a| square(file(a[0]) as i64 + a[1] as u8 as i8 as i64, rank(a[0]) as i64 + a[2] as u8 as i8 as i64));
    px.yields("Square::all", exactly((1..=81).collect(), true));
    let cs = consts(px, "Square");
    for (n, v) in &cs {
        let s = n.rsplit("SQ_").next().unwrap().as_bytes().to_vec();
        if !n.contains("SQ_") || s.len() != 2 || !(b'1'..=b'9').contains(&s[0]) || !(b'A'..=b'I').contains(&s[1]) { continue; }
        let want = square((s[0] - b'0') as i64, (s[1] - b'A' + 1) as i64);
        px.fact(*v == want, format!("the constant {n} is the square with index {v}, not {want}"), n.clone());
    }
    for f in 1..=9u64 { for r in 0..9u8 {
        let n = format!("SQ_{f}{}", (b'A' + r) as char);
        px.fact(cs.iter().any(|c| c.0.ends_with(&n)), format!("there is no constant {n}"), n);
    } }
    if let Some(n) = num_const(px, "Square::NUM") { px.fact(n == 81, format!("Square::NUM is {n}"), "Square::NUM"); }
}
pub fn c05(px: &mut Px) {
    px.tab1(&["Piece::new", "c:Piece_new"], |a| piece(a[0], a[1]));
    px.tab(&["Piece::to_parts"], |a| vec![pkind(a[0]), pcolor(a[0])]);
    px.tab1(&["Piece::piece_kind"], |a| pkind(a[0]));
    px.tab1(&["Piece::color"], |a| pcolor(a[0]));
    px.tab1(&["Piece::as_u8"], |a| a[0]);
    px.tab1(&["Piece::promote", "c:Piece_promote"], |a| piece(promo(pkind(a[0])), pcolor(a[0])));
    px.tab1(&["Piece::unpromote", "c:Piece_unpromote"], |a| piece(unpromo(pkind(a[0])), pcolor(a[0])));
    px.tab1(&["PieceKind::promote", "c:PieceKind_promote"], |a| promo(a[0]));
    px.tab1(&["PieceKind::unpromote", "c:PieceKind_unpromote"], |a| unpromo(a[0]));
    px.tab1(&["PieceKind::from_u8", "c:PieceKind_from_u8"], |a| if (1..=14).contains(&a[0]) { a[0] } else { 0 });
    px.tab1(&["IllegalMoveKind::from_u8"], |a| if (1..=7).contains(&a[0]) { a[0] } else { 0 });
    px.tab1(&["PieceKind::from_u8_unchecked", "c:PieceKind_from_u8_unchecked", "IllegalMoveKind::from_u8_unchecked", "GameResolution::from_u8_unchecked"], |a| a[0]);
    px.tab1(&["Color::flip"], |a| 3 - a[0]);
    px.array_all("Color::all", exactly(vec![1, 2], true));
    px.array_all("PieceKind::all", exactly((1..=14).collect(), true));
    px.array_all("Piece::all", exactly(CELL[1..].to_vec(), false));
    px.injective("Color::array_index", 2);
    px.injective("PieceKind::array_index", 14);
    px.injective("PieceKind::option_array_index", 15);
    px.injective("Piece::array_index", 31);
    for (t, n) in [("Color::NUM", 2), ("PieceKind::NUM", 14), ("PieceKind::OPTION_NUM", 15), ("Piece::NUM", 31)] {
        if let Some(x) = num_const(px, t) { px.fact(x == n, format!("{t} is {x}"), t); }
    }
    let names = ["P", "L", "N", "S", "G", "B", "R", "K", "PP", "PL", "PN", "PS", "PB", "PR"];
    let cs = consts(px, "Piece");
    for (c, cn) in ["B", "W"].iter().enumerate() {
        for (k, kn) in names.iter().enumerate() {
            let n = format!("::{cn}_{kn}");
            let want = piece(k as u64 + 1, c as u64 + 1);
            let vals: Vec<_> = cs.iter().filter(|x| x.0.ends_with(&n)).cloned().collect();
            px.fact(!vals.is_empty(), format!("there is no constant {n}"), n.clone());
            for (p, v) in vals { px.fact(v == want, format!("the constant {p} is the piece with code {v}, not {want}"), p); }
        }
    }
    // the numeric codes of the kinds and colours
    let tcx = px.api.tcx;
    for (t, vs) in [
        ("Color", vec!["Black", "White"]),
        ("PieceKind", vec!["Pawn", "Lance", "Knight", "Silver", "Gold", "Bishop", "Rook", "King", "ProPawn", "ProLance", "ProKnight", "ProSilver", "ProBishop", "ProRook"]),
        ("GameResolution", vec!["BlackWins", "WhiteWins", "Draw", "Rematch", "Aborted"]),
        ("IllegalMoveKind", vec!["TwoPawns", "IgnoredCheck", "DropPawnMate", "DropStuck", "NormalStuck", "GameFinished", "IncorrectMove"]),
    ] {
        let Some(Ok(d)) = px.api.adt(t).map(|a| if let ty::Adt(d, _) = a.kind() { Ok(*d) } else { Err(()) }) else { continue };
        for (i, v) in vs.iter().enumerate() {
            let Some((vi, _)) = d.variants().iter_enumerated().find(|x| x.1.name.as_str() == *v) else { continue };
            let x = d.discriminant_for_variant(tcx, vi).val as u64;
            px.fact(x == i as u64 + 1, format!("{t}::{v} has the code {x}, not {}", i + 1), format!("{t}::{v}"));
        }
    }
}
pub fn c06(px: &mut Px) {
    let zero = |c: &Cx| c.same("hand", &c.ret()?, &Sem::T((0..7).map(|_| num(0, 8)).collect()));
    px.spec("Hand::new", zero);
    px.spec("<Hand as Default>::default", zero);
    // (hand after the operation, refused?)
    fn after(h: &Sem, k: u64, add: bool, doms: &[Dom]) -> R<Sem> {
        let Sem::T(v) = h else { return unsup("hand") };
        let mut v = v.clone();
        if (1..=7).contains(&k) { v[k as usize - 1] = Sem::S(map1(&v[k as usize - 1].sc()?, doms, |x| if add { x + 1 } else { x + 255 } & 255)?, 8); }
        Ok(Sem::T(v))
    }
    fn accept(h: &Sem, k: u64, add: bool) -> R<(Sc, bool)> { // count of that kind, and whether it matters
        let s = if (1..=7).contains(&k) { h.at(k as usize - 1)?.sc()? } else { Sc::C(0) };
        Ok((s, add))
    }
    for (key, add) in [("Hand::added", true), ("Hand::removed", false)] {
        px.spec(key, move |c| {
            let (h, k) = (c.arg(0).clone(), c.k(c.arg(1))?);
            let r = c.ret()?;
            let Sem::V(var, inner) = &r else { return unsup("result") };
            let (cnt, add) = accept(&h, k, add)?;
            let ok = *var == 1;
            c.need(if ok { "an operation that must be refused succeeds" } else { "an operation that must succeed is refused" }, &[cnt], |v| ok == ((1..=7).contains(&k) && (add || v[0] > 0)))?;
            if ok { c.same("hand", &inner[0], &after(&h, k, add, c.doms())?)?; }
            Ok(())
        });
    }
    for (key, add) in [("c:Hand_add", true), ("c:Hand_remove", false)] {
        px.spec(key, move |c| {
            let (h, k) = (c.arg(0).clone(), c.k(c.arg(1))?);
            let ok = c.k(&c.ret()?)? == 1;
            let (cnt, add) = accept(&h, k, add)?;
            c.need(if ok { "an operation that must be refused succeeds" } else { "an operation that must succeed is refused" }, &[cnt], |v| ok == ((1..=7).contains(&k) && (add || v[0] > 0)))?;
            c.same("hand", &c.post(0)?, &if ok { after(&h, k, add, c.doms())? } else { h })
        });
    }
    px.spec("Hand::count", |c| {
        let k = c.k(c.arg(1))?;
        let r = c.ret()?;
        let Sem::V(var, inner) = &r else { return unsup("result") };
        if (*var == 1) != ((1..=7).contains(&k)) { return c.viol(format!("the count of kind {k} is {}", if *var == 1 { "given" } else { "refused" })); }
        if *var == 1 { c.same("count", &inner[0], c.arg(0).at(k as usize - 1)?)?; }
        Ok(())
    });
    px.spec("c:Hand_count", |c| {
        let k = c.k(c.arg(1))?;
        let want = if (1..=7).contains(&k) { c.arg(0).at(k as usize - 1)?.clone() } else { num(0, 8) };
        c.same("count", &c.ret()?, &want)
    });
    px.tab1(&["Hand::is_hand_piece", "c:Hand_is_hand_piece"], |a| (1..=7).contains(&a[0]) as u64);
    px.yields("Hand::all_hand_pieces", exactly((1..=7).collect(), false));
    if let Some(n) = num_const(px, "NUM_HAND_PIECES") { px.fact(n == 7, format!("NUM_HAND_PIECES is {n}"), "NUM_HAND_PIECES"); }
    eq_spec(px, "<Hand as PartialEq<Hand>>::eq");
}
/// Equality is equality of contents.
pub fn eq_spec(px: &mut Px, key: &str) {
    px.spec(key, |c| {
        let r = c.k(&c.ret()?)?;
        let same = content_eq(c.st, c.arg(0), c.arg(1))?;
        if (r == 1) != same { return c.viol(format!("two values with {} contents compare {}", if same { "equal" } else { "different" }, if r == 1 { "equal" } else { "unequal" })); }
        Ok(())
    });
}
fn code_of(a: &[u64]) -> u64 { // variant, from, to, promote | variant, piece, to
    if a[0] == 0 { a[3] << 15 | a[1] << 8 | a[2] } else { a[1] << 8 | 128 | a[2] }
}
pub fn c07(px: &mut Px) {
    px.tab1(&["<CompactMove as From<Move>>::from"], code_of);
    px.tab(&["<Move as From<CompactMove>>::from"], |a| {
        let q = a[0];
        if q & 128 != 0 { vec![1, q >> 8, q & 127] } else { vec![0, q >> 8 & 127, q & 127, q >> 15] }
    });
    px.tab1(&["CompactMove::normal"], |a| a[2] << 15 | a[0] << 8 | a[1]);
    px.tab1(&["CompactMove::drop"], |a| a[0] << 8 | 128 | a[1]);
    px.tab1(&["CompactMove::from", "c:CompactMove_from"], |a| if a[0] & 128 != 0 { 0 } else { a[0] >> 8 & 127 });
    px.tab1(&["CompactMove::to"], |a| a[0] & 127);
    px.tab1(&["CompactMove::is_promoting"], |a| (a[0] & 128 == 0 && a[0] >> 15 == 1) as u64);
    px.tab1(&["CompactMove::is_drop"], |a| (a[0] >> 7 & 1) as u64);
    px.tab1(&["Move::from"], |a| if a[0] == 0 { a[1] } else { 0 });
    px.tab1(&["Move::to"], |a| a[2]);
    px.tab1(&["Move::is_promoting"], |a| (a[0] == 0 && a[3] == 1) as u64);
    px.tab1(&["Move::is_drop"], |a| a[0]);
}
type BOp2 = fn(bool, bool) -> bool;
pub fn set_ops() -> Vec<(&'static str, &'static str, &'static str, BOp2)> {
    vec![("BitAnd", "bitand", "and", |a, b| a && b), ("BitOr", "bitor", "or", |a, b| a || b), ("BitXor", "bitxor", "xor", |a, b| a != b)]
}
pub fn c08(px: &mut Px) {
    let bin = |px: &mut Px, key: &str, f: BOp2| {
        if px.api.get(key).is_none() { px.missing.push((key.into(), "no such function".into())); return; }
        px.spec(key, move |c| {
            let want = set_of(&combine(&c.arg(0).bits()?, &c.arg(1).bits()?, f)?);
            c.same("set", &c.ret()?, &want)
        });
    };
    let assign = |px: &mut Px, key: &str, f: BOp2| {
        px.spec(key, move |c| {
            let b = match c.arg(1) { Sem::W(_) => c.arg(1).bits()?, q => { let q = c.k(q)?; (1..=81).map(|i| Bit::K(i == q)).collect() } };
            let want = set_of(&combine(&c.arg(0).bits()?, &b, f)?);
            c.same("set", &c.post(0)?, &want)
        });
    };
    for (tr, m, name, f) in set_ops() {
        for a in ["Bitboard", "&Bitboard"] { for b in ["Bitboard", "&Bitboard"] { bin(px, &format!("<{a} as {tr}<{b}>>::{m}"), f); } }
        for b in ["Bitboard", "&Bitboard", "Square", "&Square"] { assign(px, &format!("<Bitboard as {tr}Assign<{b}>>::{m}_assign"), f); }
        bin(px, &format!("Bitboard::{name}"), f);
        bin(px, &format!("c:Bitboard_{m}"), f);
        assign(px, &format!("c:Bitboard_{m}_assign"), f);
    }
    bin(px, "Bitboard::andnot", |a, b| !a && b);
    for k in ["<Bitboard as Not>::not", "<&Bitboard as Not>::not", "c:Bitboard_not"] {
        px.spec(k, |c| { let want = set_of(&c.arg(0).bits()?.iter().map(|b| b.not()).collect::<Vec<_>>()); c.same("set", &c.ret()?, &want) });
    }
    for k in ["Bitboard::empty", "c:Bitboard_empty", "<Bitboard as Default>::default"] {
        px.spec(k, |c| c.same("set", &c.ret()?, &Sem::W([Sc::C(0), Sc::C(0)])));
    }
    for k in ["Bitboard::single", "c:Bitboard_single"] {
        px.spec(k, |c| { let q = c.k(c.arg(0))?; c.same("set", &c.ret()?, &set_of(&(1..=81).map(|i| Bit::K(i == q)).collect::<Vec<_>>())) });
    }
    px.spec("Bitboard::contains", |c| {
        let q = c.k(c.arg(1))?;
        c.same("membership", &c.ret()?, &Sem::S(Sc::bit(c.arg(0).bits()?[q as usize - 1].clone()), 8))
    });
    px.spec("Bitboard::count", |c| c.same("size", &c.ret()?, &Sem::S(Sc::Pop(Rc::new(c.arg(0).bits()?)), 8)));
    px.spec("Bitboard::is_empty", |c| {
        let r = c.k(&c.ret()?)?;
        let e = content_eq(c.st, c.arg(0), &Sem::W([Sc::C(0), Sc::C(0)]))?;
        if (r == 1) != e { return c.viol(format!("{} set is reported {}", if e { "the empty" } else { "a non-empty" }, if r == 1 { "empty" } else { "not empty" })); }
        Ok(())
    });
    eq_spec(px, "<Bitboard as PartialEq<Bitboard>>::eq");
}
pub fn c09(px: &mut Px) {
    px.e.sum_pop.set(false);
    for k in ["Bitboard::pop", "c:Bitboard_pop", "<Bitboard as Iterator>::next"] {
        px.spec(k, |c| {
            let r = c.k(&c.ret()?)? as usize;
            let mut bits = c.arg(0).bits()?;
            for b in bits.iter_mut() { *b = b.norm(c.doms()); }
            if r == 0 {
                if let Some(i) = bits.iter().position(|b| *b != Bit::K(false)) { return c.viol(format!("nothing is taken from a set that may contain {}", sq_name(i))); }
            } else {
                if bits[r - 1] != Bit::K(true) { return c.viol(format!("{} is taken from a set that may lack it", sq_name(r - 1))); }
                bits[r - 1] = Bit::K(false);
            }
            c.same("remaining set", &c.post(0)?, &set_of(&bits))
        });
    }
    c09_overrides(px);
    px.spec("<Bitboard as Iterator>::size_hint", |c| {
        let bits: Vec<Bit> = c.arg(0).bits()?.iter().map(|b| b.norm(c.doms())).collect();
        let size = Sc::Pop(Rc::new(bits.clone()));
        let (min, max) = size_range(&bits, c.doms());
        let (min, max) = (min as u128, max as u128);
        let r = c.ret()?;
        let side = |s: &Sc, lower: bool| -> R<()> {
            let s = s.norm(c.doms());
            if let Some(x) = s.c() {
                if if lower { x <= min } else { x >= max } { return Ok(()); }
                // some set of this many squares contradicts it
                if bits.iter().all(|b| b.syms().len() <= 1) { return c.viol(format!("the {} bound of the size hint is {x} for sets of {min} to {max} squares", if lower { "lower" } else { "upper" })); }
            }
            let z = size.norm(c.doms());
            if let (Sc::Pop(_), Sc::Pop(_)) = (&s, &z) { if differ(&s, &z, 64, c.doms())?.is_none() { return Ok(()); } }
            if binop(if lower { BOp::Le } else { BOp::Ge }, 64, false, &s, &z, 64, c.doms())?.konst(c.doms())? == 1 { return Ok(()); }
            c.viol("the size hint is wrong for some set")
        };
        side(&r.at(0)?.sc()?, true)?;
        if let Sem::V(1, v) = r.at(1)? { side(&v[0].sc()?, false)?; }
        Ok(())
    });
}
/// Provided operations of the iterator that the set redefines: they agree with repeated `next`.
fn c09_overrides<'tcx>(px: &mut Px<'tcx>) {
    let tcx = px.api.tcx;
    let Some(nx) = px.api.get("<Bitboard as Iterator>::next").cloned() else { return };
    let Some(imp) = tcx.impl_of_assoc(nx.did) else { return };
    let (Some(bb), Some(sq)) = (px.api.adt("Bitboard"), px.api.adt("Square")) else { return };
    let family: Rc<Vec<u64>> = Rc::new(vec![1, 2, 9, 10, 62, 63, 64, 65, 81]);
    for it in tcx.associated_items(imp).in_definition_order() {
        let Some(name) = it.opt_name().map(|n| n.to_string()) else { continue };
        if !matches!(it.kind, ty::AssocKind::Fn { .. }) || ["next", "size_hint"].contains(&name.as_str()) { continue; }
        let key = format!("<Bitboard as Iterator>::{name}");
        let u64t = tcx.types.u64;
        let fnp = |ins: Vec<Ty<'tcx>>, out| Ty::new_fn_ptr(tcx, ty::Binder::dummy(tcx.mk_fn_sig_safe_rust_abi(ins, out)));
        let args: Vec<ty::GenericArg<'tcx>> = match name.as_str() {
            "count" | "nth" | "last" | "min" | "max" => vec![],
            "for_each" => vec![fnp(vec![sq], tcx.types.unit).into()],
            "fold" => vec![u64t.into(), fnp(vec![u64t, sq], u64t).into()],
            _ => { px.missing.push((key, "this redefined operation of the iterator is not covered".into())); continue }
        };
        if tcx.generics_of(it.def_id).count() != args.len() { px.missing.push((key, "generic".into())); continue; }
        let f = px.f_inst(&key, ty::Instance::new_raw(it.def_id, tcx.mk_args(&args)));
        for fam in 0..2 {
            for n in if name == "nth" { vec![0u64, 1, 2, 3, 8, 9, 80, 81, u64::MAX] } else { vec![0] } {
                let (f2, f3) = (f.clone(), f.clone());
                let build: Build<'tcx> = Rc::new(move |e, st, g| {
                    let v = gen(e, st, g, bb, "arg0")?;
                    g.args = vec![sem(e, st, bb, &v.clone().mem(), 0, 0)?];
                    let mut a = vec![if f2.ins[0] == bb { v } else { place(e, st, bb, &v)? }];
                    for t in &f2.ins[1..] { a.push(if matches!(t.kind(), ty::FnPtr(..)) { Val::S(V::P(Ptr { base: Base::F(u32::MAX), off: 0 }), 8) } else { Val::sc(n as u128, 8) }); }
                    g.argv = a.clone();
                    Ok(a)
                });
                let spec: Spec<'tcx> = Rc::new(move |c| {
                    let mut members = vec![];
                    for (i, b) in c.arg(0).bits()?.iter().enumerate() { match b.norm(c.doms()) { Bit::K(true) => members.push(i as u64 + 1), Bit::K(false) => {}, b => return Err(split_bit(c.doms(), &b)) } }
                    let num = |v: u64, n| Sem::S(Sc::C(v as u128), n);
                    let m = |i: usize| members.get(i).copied().unwrap_or(0);
                    match f3.key.rsplit("::").next().unwrap() {
                        "count" => c.same("number of members", &c.ret()?, &num(members.len() as u64, 64)),
                        "last" | "max" => c.same("last member", &c.ret()?, &num(members.last().copied().unwrap_or(0), 8)),
                        "min" => c.same("first member", &c.ret()?, &num(m(0), 8)),
                        "nth" => {
                            let at = n.min(1000) as usize;
                            c.same("member skipped to", &c.ret()?, &num(m(at), 8))?;
                            let left: Vec<Bit> = (1..=81).map(|s| Bit::K(members.iter().position(|x| *x == s).is_some_and(|p| p > at))).collect();
                            let Val::S(V::P(p), _) = &c.g.argv[0] else { return unsup("set") };
                            let Base::H(o) = p.base else { return unsup("set") };
                            c.same("remaining set", &sem(c.e, c.st, bb, &c.st.heap[o as usize].mem.clone(), 0, 0)?, &set_of(&left))
                        }
                        _ => {
                            let mut got = vec![];
                            for e in c.st.mon.trace.iter() { if let crate::mon::Ev::Call(w, a, _) = e { if w == "user" { match a.last() { Some(V::S(s)) => got.push(s.konst(c.doms())? as u64), _ => return unsup("argument of the function") } } } }
                            if got != members { return c.viol(format!("the function is given the squares {got:?} of the set {members:?}")); }
                            Ok(())
                        }
                    }
                });
                let mut c = px.mk(&f, spec);
                c.build = build;
                c.name = format!("{key} {} {n}", if fam == 0 { "subsets of 9 squares" } else { "all squares" });
                c.fix = Rc::new((1..=81u64).filter(|s| fam == 1 || !family.contains(s)).map(|s| (format!("arg0.{}", sq_name(s as usize - 1)), fam)).collect());
                px.cases.push(c);
            }
        }
    }
}
pub fn c10(px: &mut Px) {
    for (k, df, dr) in [("Bitboard::shift_down", 0i64, 1i64), ("Bitboard::shift_up", 0, -1), ("Bitboard::shift_left", 1, 0), ("Bitboard::shift_right", -1, 0)] {
        px.spec(k, move |c| {
            let d = c.k(c.arg(1))? as i64;
            let b = c.arg(0).bits()?;
            let want: Vec<Bit> = (1..=81u64).map(|q| match square(file(q) as i64 - df * d, rank(q) as i64 - dr * d) { 0 => Bit::K(false), s => b[s as usize - 1].clone() }).collect();
            c.same("set", &c.ret()?, &set_of(&want))
        });
    }
    px.spec("Bitboard::flip", |c| {
        let b = c.arg(0).bits()?;
        c.same("set", &c.ret()?, &set_of(&b.iter().rev().cloned().collect::<Vec<_>>()))
    });
    px.spec("Bitboard::from_file_unchecked", |c| {
        let f = c.k(c.arg(0))?;
        let p = c.arg(1).sc()?.to_bits(16);
        let want: Vec<Bit> = (1..=81u64).map(|q| if file(q) == f { p[rank(q) as usize - 1].clone() } else { Bit::K(false) }).collect();
        c.same("set", &c.ret()?, &set_of(&want))
    });
    px.spec("Bitboard::get_file_unchecked", |c| {
        let f = c.k(c.arg(1))?;
        let b = c.arg(0).bits()?;
        let mut want: Vec<Bit> = (1..=9).map(|r| b[square(f as i64, r) as usize - 1].clone()).collect();
        want.resize(16, Bit::K(false));
        c.same("pattern", &c.ret()?, &Sem::S(Sc::from_bits(want), 16))
    });
}
pub fn c11(px: &mut Px) {
    for (t, o) in [("Bitboard", "ByteSwappedBitboard"), ("ByteSwappedBitboard", "Bitboard")] {
        let (Some(from), Some(back), Some(to), Some(oto)) = (px.f(&format!("{t}::from_u128_unchecked")), px.f(&format!("{o}::swap_bytes")), px.f(&format!("{t}::to_u128")), px.f(&format!("{o}::to_u128"))) else { continue };
        let from2 = from.clone();
        px.spec(&format!("{t}::to_u128"), move |c| {
            let x = c.arg(0).clone();
            c.nest(&from2, c.st, vec![c.retv.clone()], &mut |st, v| same(st, "set after the round trip", &sem(c.e, st, from2.out, &v.clone().mem(), 0, 0)?, &x))
        });
        let to2 = to.clone();
        px.spec(&format!("{t}::from_u128_unchecked"), move |c| {
            let x = c.arg(0).clone();
            c.nest(&to2, c.st, vec![c.retv.clone()], &mut |st, v| same(st, "128-bit form after the round trip", &sem(c.e, st, to2.out, &v.clone().mem(), 0, 0)?, &x))
        });
        px.spec(&format!("{t}::swap_bytes"), move |c| {
            let x = c.arg(0).clone();
            let arg = c.g.argv[0].clone();
            c.nest(&back, c.st, vec![c.retv.clone()], &mut |st, v| same(st, "set after reversing its bytes twice", &sem(c.e, st, back.out, &v.clone().mem(), 0, 0)?, &x))?;
            c.nest(&to, c.st, vec![arg.clone()], &mut |st, v| {
                let V::S(a) = v.clone().mem().read(0, 16, &st.doms)? else { return unsup("128-bit form") };
                let want = permute(128, &a, &st.doms, |i| (15 - i / 8) * 8 + i % 8)?;
                c.nest(&oto, st, vec![c.retv.clone()], &mut |st, v| {
                    let V::S(b) = v.clone().mem().read(0, 16, &st.doms)? else { return unsup("128-bit form") };
                    same(st, "128-bit form of the byte-reversed set", &Sem::S(b.clone(), 128), &Sem::S(want.clone(), 128))
                })
            })
        });
    }
    // op(swap a, swap b) = swap(op(a, b)): the meaning of the swapped form is that of the plain form
    for (name, f) in [("and", (|a, b| a && b) as BOp2), ("or", |a, b| a || b), ("xor", |a, b| a != b), ("andnot", |a, b| !a && b)] {
        for t in ["ByteSwappedBitboard", "Bitboard"] {
            px.spec(&format!("{t}::{name}"), move |c| {
                let want = set_of(&combine(&c.arg(0).bits()?, &c.arg(1).bits()?, f)?);
                c.same("set", &c.ret()?, &want)
            });
        }
    }
    px.spec("<ByteSwappedBitboard as Default>::default", |c| c.same("set", &c.ret()?, &Sem::W([Sc::C(0), Sc::C(0)])));
    eq_spec(px, "<ByteSwappedBitboard as PartialEq<ByteSwappedBitboard>>::eq");
}
pub fn c28(px: &mut Px) {
    // conversions both ways; the meaning of an optional value (none = 0) is kept
    let keys: Vec<String> = px.api.funs.iter().filter(|f| f.trait_impl.as_deref() == Some("From") && (f.key.contains("Option<") || f.key.contains("Result<"))).map(|f| f.key.clone()).collect();
    for t in ["OptionSquare", "OptionPiece", "OptionPieceKind", "OptionCompactMove", "OptionGameResolution", "ResultUnitIllegalMoveKind"] {
        let n = keys.iter().filter(|k| k.contains(t)).count();
        if n < 2 { px.missing.push((t.into(), "conversions not found".into())); }
    }
    for k in &keys { px.tab1(&[k.as_str()], |a| a[0]); }
    let defs: Vec<String> = px.api.funs.iter().filter(|f| f.trait_impl.as_deref() == Some("Default") && (f.key.starts_with("<Option") || f.key.starts_with("<Result"))).map(|f| f.key.clone()).collect();
    for k in &defs { px.tab1(&[k.as_str()], |_| 0); }
}

/// All properties decided by this kind of analysis.
pub fn add(px: &mut Px, prop: &str, thorough: bool) -> bool {
    crate::posspec::find_parts(px);
    match prop {
        "C01" => auto(px, "", Want::Sound, thorough), "C02" => auto(px, "", Want::NoPanic, thorough),
        "C03" => { crate::structural::c03(px); auto(px, "", Want::Valid, thorough) }
        "C26" => crate::abi::c26(px), "C29" => crate::allocspec::c29(px), "C33" => crate::memspec::c33(px, thorough), "C31" => crate::structural::c31(px),
        "C30" => { crate::structural::c30(px); auto(px, "", Want::Pure, thorough) }
        "C04" => c04(px), "C05" => c05(px), "C06" => c06(px), "C07" => c07(px), "C08" => c08(px), "C09" => c09(px), "C10" => c10(px), "C11" => c11(px),
        "C12" => crate::posspec::c12(px, thorough), "C13" => crate::posspec::c13(px, thorough), "C14" => crate::posspec::c14(px, thorough), "C15" => crate::posspec::c15(px, thorough),
        "C16" => crate::posspec::c16(px, thorough), "C17" => crate::posspec::c17(px), "C18" => crate::posspec::c18(px),
        "C19" => crate::textspec::c19(px), "C20" => crate::textspec::c20(px), "C21" => crate::textspec::c21(px), "C22" => crate::textspec::c22(px),
        "C23" => crate::eqspec::c23(px), "C34" => crate::eqspec::c34(px), "C24" => crate::structural::c24(px), "C25" => crate::eqspec::c25(px, thorough),
        "C35" => crate::props::c35(px, thorough),
        "C27" => crate::eqspec::c27(px, thorough), "C28" => c28(px),
        _ => return false,
    }
    true
}
