//! Specifications of positions: boards, moves, histories, records.
use crate::exec::*;
use crate::gen::*;
use crate::mem::*;
use crate::props::*;
use crate::sem::*;
use crate::spec::*;
use crate::val::*;
use std::rc::Rc;

/// The cells a set must contain, as bits.
fn player_bits(cells: &[Sc], c: u64, doms: &[Dom]) -> R<Vec<Bit>> { cells.iter().map(|s| scb(s, doms, |x| x != 0 && pcolor(x) == c)).collect() }
fn kind_bits(cells: &[Sc], k: u64, doms: &[Dom]) -> R<Vec<Bit>> { cells.iter().map(|s| scb(s, doms, |x| pkind(x) == k)).collect() }
fn piece_bits(cells: &[Sc], p: u64, doms: &[Dom]) -> R<Vec<Bit>> { cells.iter().map(|s| scb(s, doms, |x| x == p)).collect() }

/// The square sets of a position follow from its board.
pub fn sets_agree(st: &State, p: &PosSem) -> R<()> {
    let d = &st.doms;
    for c in 0..2 { same(st, &format!("the set of {} pieces", ["black", "white"][c]), &Sem::W(p.player[c].clone()), &set_of(&player_bits(&p.cells, c as u64 + 1, d)?))?; }
    for k in 0..14 { same(st, &format!("the set of pieces of kind {}", k + 1), &Sem::W(p.piece[k].clone()), &set_of(&kind_bits(&p.cells, k as u64 + 1, d)?))?; }
    Ok(())
}
/// The quantities of the (current) position given on entry.
fn gen_pos(g: &Gen) -> Option<&PosSyms> { let (i, c) = PARTS.get(); if g.pos.len() == 2 && c > i { g.pos.get(1) } else { g.pos.first() } }
/// A choice of the recorded king squares on entry, and what follows about the board.
fn king_cases(g: &Gen, st: &State, c: usize, f: &mut dyn FnMut(&State) -> R<()>) -> R<()> {
    let king = piece(8, c as u64 + 1);
    let kx = CELL.iter().position(|x| *x == king).unwrap() as u32;
    let Some(ps) = gen_pos(g) else { return f(st) };
    if ps.king[c].pair != Pair::Off { return unsup("king of a pair"); }
    let d = &st.doms[ps.king[c].sym as usize];
    for k in d.to_vec() {
        let mut s = st.clone();
        let mut r: Refine = vec![(ps.king[c].sym, Dom::one(ps.king[c].n, k))];
        let mut ok = true;
        for (i, cell) in ps.cells.iter().enumerate() {
            let d = &st.doms[cell.sym as usize];
            let nd = if k == 0 { if !d.contains(kx) { continue; } d.filter(|x| x != kx) } else if i as u32 + 1 == k { d.filter(|x| x == kx) } else { continue };
            if nd.is_empty() { ok = false; break; }
            r.push((cell.sym, nd));
        }
        if !ok { continue; }
        s.refine(&r);
        if s.dead { continue; }
        f(&s)?;
    }
    Ok(())
}
/// The recorded king square of a colour is right, given that it was right on entry.
pub fn king_right(c: &Cx, st: &State, p: &PosSem) -> R<()> {
    for col in 0..2 {
        let king = piece(8, col as u64 + 1) as u128;
        let v = p.king[col].norm(&st.doms);
        // a constant may be right whatever was recorded before
        if v.c().is_some_and(|x| x != 0) && king_holds(st, &p.cells, &v, col, king).is_ok() { continue; }
        if let Some(ps) = gen_pos(c.g) {
            let old = ps.king[col].f(|i| i as u64);
            if ps.king[col].pair == Pair::Off && v.syms().len() == 1 && v == old.norm(&st.doms) {
                // unchanged: only the changed squares matter
                let sym = ps.king[col].sym;
                for i in 0..81 {
                    let (a, b) = (ps.cells[i].table(&CELL), &p.cells[i]);
                    if a.norm(&st.doms) == b.norm(&st.doms) { continue; }
                    for rec in [false, true] {
                        // the square is the recorded one (then it held the king), or nothing is recorded (then it did not)
                        let k = if rec { i as u32 + 1 } else { 0 };
                        if !st.doms[sym as usize].contains(k) { continue; }
                        let d = st.doms[ps.cells[i].sym as usize].filter(|x| (CELL[x as usize] as u128 == king) == rec);
                        if d.is_empty() { continue; }
                        let mut s = st.clone();
                        s.refine(&vec![(ps.cells[i].sym, d), (sym, Dom::one(82, k))]);
                        if s.dead { continue; }
                        let want = Bit::K(rec);
                        if scb(b, &s.doms, |y| y as u128 == king)?.norm(&s.doms) != want {
                            let name = ["black", "white"][col];
                            return Err(Need::Viol(if rec { format!("the king lookup finds {} which may hold no {name} king any more", sq_name(i)) } else { format!("there may be a {name} king on {} while the king lookup finds none", sq_name(i)) }));
                        }
                    }
                }
                continue;
            }
        }
        king_cases(c.g, st, col, &mut |st| king_holds(st, &p.cells, &p.king[col], col, king))?;
    }
    Ok(())
}
fn king_holds(st: &State, cells: &[Sc], v: &Sc, col: usize, king: u128) -> R<()> {
    let name = ["black", "white"][col];
    let v = v.norm(&st.doms);
    let mut classes: Vec<(u128, State)> = vec![];
    match v.syms().first() {
        None => classes.push((v.konst(&st.doms)?, st.clone())),
        Some(_) => {
            let Some((s, t)) = v.to_fn() else { return Err(v.need_const(&st.doms)) };
            let d = st.doms[s as usize].clone();
            let mut vals: Vec<u64> = d.to_vec().iter().map(|i| t[*i as usize]).collect();
            vals.sort();
            vals.dedup();
            for x in vals {
                let mut s2 = st.clone();
                s2.refine(&vec![(s, d.filter(|i| t[i as usize] == x))]);
                if !s2.dead { classes.push((x as u128, s2)); }
            }
        }
    }
    for (x, st) in classes {
        if x == 0 {
            for (i, cell) in cells.iter().enumerate() {
                if scb(cell, &st.doms, |y| y as u128 == king)?.norm(&st.doms) != Bit::K(false) { return Err(Need::Viol(format!("there may be a {name} king on {} while the king lookup finds none", sq_name(i)))); }
            }
        } else {
            let Some(cell) = cells.get(x as usize - 1) else { return Err(Need::Viol(format!("the recorded king square is {x}"))) };
            if scb(cell, &st.doms, |y| y as u128 == king)?.norm(&st.doms) != Bit::K(true) { return Err(Need::Viol(format!("the king lookup finds {} which may hold no {name} king", sq_name(x as usize - 1)))); }
        }
    }
    Ok(())
}
/// A position with one square changed, without the king squares.
pub fn with_cell(p: &PosSem, i: usize, v: &Sc, doms: &[Dom]) -> R<PosSem> {
    let mut q = p.clone();
    q.cells[i] = v.clone();
    let put = |w: &[Sc; 2], b: Bit| -> R<[Sc; 2]> {
        let mut bits = Sem::W(w.clone()).bits()?;
        bits[i] = b;
        set_of(&bits).set()
    };
    for c in 0..2 { q.player[c] = put(&q.player[c], scb(v, doms, |x| x != 0 && pcolor(x) == c as u64 + 1)?)?; }
    for k in 0..14 { q.piece[k] = put(&q.piece[k], scb(v, doms, |x| pkind(x) == k as u64 + 1)?)?; }
    Ok(q)
}
fn no_king(p: &PosSem) -> Sem { Sem::P(Box::new(PosSem { king: [Sc::C(0), Sc::C(0)], ..p.clone() })) }
/// Compares positions except for the recorded king squares.
pub fn same_but_king(st: &State, what: &str, got: &PosSem, want: &PosSem) -> R<()> { same(st, what, &no_king(got), &no_king(want)) }

thread_local! {
    /// The components of a full position: initial and current.
    static PARTS: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 1)) };
}
/// The components of a full position: initial and current.
pub fn parts() -> (usize, usize) { PARTS.get() }
/// The position an argument is or contains.
pub fn inner(s: &Sem) -> R<&PosSem> {
    match s { Sem::P(p) => Ok(p), Sem::T(v) if v.len() == 3 => v[PARTS.get().1].pos(), Sem::T(v) if v.len() == 2 => match v.iter().find(|x| matches!(x, Sem::P(_) | Sem::T(_))) { Some(x) => inner(x), None => unsup("position expected") }, _ => unsup("position expected") }
}
/// Finds out which component of a full position is which from its observers.
pub fn find_parts(px: &mut Px) {
    let mut ix = vec![];
    for k in ["Position::initial_position", "Position::inner"] {
        let Some(f) = px.f_of(k) else { return };
        let (e, mut st, mut g) = (&px.e, State::new(), Gen::default());
        let Ok(v) = gen(e, &mut st, &mut g, f.ins[0], "p") else { return };
        if e.enter(&mut st, f.fid, vec![v]).is_err() { return; }
        let mut off = None;
        e.explore(st, &mut |_, r| { if let Val::S(V::P(p), _) = r { off = Some(p.off); } Ok(()) }, &mut |_| {});
        let t = f.ins[0].peel_refs();
        let Ok(l) = e.lw.layout(t) else { return };
        let Some(i) = off.and_then(|o| (0..l.fields.count()).find(|i| l.fields.offset(*i).bytes() as i64 == o)) else { return };
        ix.push(i);
    }
    PARTS.set((ix[0], ix[1]));
}
/// Memory of a position.
pub fn pos_val<'tcx>(e: &Engine<'tcx>, t: rustc_middle::ty::Ty<'tcx>, p: &PosSem) -> R<Val> {
    let l = pos_lay(e, t)?;
    let ch = |off: u32, len: u32, s: &Sc| Ch { off, len, v: V::S(s.clone()) };
    let mut out = vec![ch(l.side, 1, &p.side), ch(l.ply, 2, &p.ply), ch(l.last, 2, &p.last)];
    for c in 0..2u32 {
        for k in 0..7u32 { out.push(ch(l.hands + 8 * c + k, 1, &p.hands[c as usize][k as usize])); }
        out.push(ch(l.hands + 8 * c + 7, 1, &Sc::C(0)));
        for w in 0..2u32 { out.push(ch(l.player + 16 * c + 8 * w, 8, &p.player[c as usize][w as usize])); }
        out.push(ch(l.king + c, 1, &p.king[c as usize]));
    }
    for k in 0..14u32 { for w in 0..2u32 { out.push(ch(l.piece + 16 * k + 8 * w, 8, &p.piece[k as usize][w as usize])); } }
    for i in 0..81u32 { out.push(ch(l.board + i, 1, &p.cells[i as usize])); }
    out.sort_by_key(|c| c.off);
    Ok(Val::M(out, l.size))
}
pub fn move_val<'tcx>(e: &Engine<'tcx>, t: rustc_middle::ty::Ty<'tcx>, mv: Mv) -> R<Val> {
    let mut st = State::new();
    let mut g = Gen { fix: Rc::new(fix_move("m", mv.code())), ..Gen::default() };
    let v = gen(e, &mut st, &mut g, t, "m")?;
    // the symbols are fixed: make them constants
    let n = v.size();
    let out = v.chunks().into_iter().map(|mut c| { if let V::S(s) = &c.v { c.v = V::S(s.norm(&st.doms)); } c }).collect();
    Ok(Val::M(out, n))
}
/// A move argument: (drop?, origin or piece, destination, promotion).
#[derive(Clone, Copy)]
pub struct Mv { drop: bool, a: u64, to: u64, promote: bool }
pub fn move_of(c: &Cx, s: &Sem) -> R<Mv> {
    match s {
        Sem::V(0, v) => Ok(Mv { drop: false, a: c.k(&v[0])?, to: c.k(&v[1])?, promote: c.k(&v[2])? == 1 }),
        Sem::V(_, v) => Ok(Mv { drop: true, a: c.k(&v[0])?, to: c.k(&v[1])?, promote: false }),
        s => { let q = c.k(s)?; Ok(if q & 128 != 0 { Mv { drop: true, a: q >> 8, to: q & 127, promote: false } } else { Mv { drop: false, a: q >> 8 & 127, to: q & 127, promote: q >> 15 == 1 } }) }
    }
}
impl Mv {
    fn code(&self) -> u64 { if self.drop { self.a << 8 | 128 | self.to } else { (self.promote as u64) << 15 | self.a << 8 | self.to } }
    /// The quantities acceptance depends on.
    fn ins(&self, p: &PosSem) -> Vec<Sc> {
        if self.drop {
            let (k, c) = (pkind(self.a), pcolor(self.a));
            let h = if (1..=7).contains(&k) { p.hands[c as usize - 1][k as usize - 1].clone() } else { Sc::C(0) };
            vec![p.side.clone(), p.cells[self.to as usize - 1].clone(), h]
        } else { vec![p.side.clone(), p.cells[self.to as usize - 1].clone(), p.cells[self.a as usize - 1].clone()] }
    }
    fn accept(&self, v: &[u64]) -> bool {
        let (side, to, x) = (v[0], v[1], v[2]);
        if self.drop {
            let k = pkind(self.a);
            pcolor(self.a) == side && (1..=7).contains(&k) && to == 0 && x > 0
        } else {
            x != 0 && pcolor(x) == side && (!self.promote || promo(pkind(x)) != 0) && (to == 0 || (pcolor(to) != side && pkind(to) != 8))
        }
    }
    /// The position after an accepted move; decides the side and what is captured.
    fn after(&self, st: &State, p: &PosSem) -> R<PosSem> {
        let d = &st.doms[..];
        let side = p.side.konst(d)? as u64;
        let mut q;
        if self.drop {
            q = with_cell(p, self.to as usize - 1, &Sc::C(self.a as u128), d)?;
            let h = &mut q.hands[side as usize - 1][pkind(self.a) as usize - 1];
            *h = map1(h, d, |x| x.wrapping_sub(1) & 255)?;
        } else {
            let promote = self.promote;
            let mover = map1(&p.cells[self.a as usize - 1], d, |x| if promote { piece(promo(pkind(x as u64)), pcolor(x as u64)) as u128 } else { x })?;
            let got = map1(&p.cells[self.to as usize - 1], d, |x| base_kind(pkind(x as u64)) as u128)?.konst(d)? as u64;
            q = with_cell(p, self.a as usize - 1, &Sc::C(0), d)?;
            q = with_cell(&q, self.to as usize - 1, &mover, d)?;
            if (1..=7).contains(&got) {
                let h = &mut q.hands[side as usize - 1][got as usize - 1];
                *h = map1(h, d, |x| (x + 1) & 255)?;
            }
        }
        q.side = Sc::C(3 - side as u128);
        q.ply = binop(BOp::Add, 16, false, &p.ply, &Sc::C(1), 16, d)?;
        q.last = Sc::C(self.code() as u128);
        Ok(q)
    }
}
fn accepted(c: &Cx) -> R<bool> { Ok(c.k(&c.ret()?)? == 1) }
/// The last move is the one recorded in the current position.
fn last_move(c: &Cx) -> R<()> {
    let p = inner(c.arg(0))?;
    let mut got = vec![];
    let r = c.ret()?;
    flat(&r, "", &mut got);
    table(c.st, &[p.last.clone()], &got, &|v| {
        let q = v[0];
        // Option<Move>: 0 | 1, then the move
        if q == 0 { vec![0] } else if q & 128 != 0 { vec![1, 1, q >> 8, q & 127] } else { vec![1, 0, q >> 8 & 127, q & 127, q >> 15] }
    })
}
const MAKERS: [&str; 4] = ["PartialPosition::make_move", "PartialPosition::make_compact_move", "Position::make_move", "Position::make_compact_move"];

/// Which moves an entry point is analysed for.
#[derive(Clone, Copy, PartialEq)]
pub enum Cover { All, Some(u64) }
impl<'tcx> Px<'tcx> {
    pub fn moves(&mut self, key: &str, cover: Cover, spec: impl Fn(&Cx<'_, 'tcx>) -> R<()> + 'tcx) {
        let Some(f) = self.f(key) else { return };
        let c = self.mk(&f, Rc::new(spec));
        let v = expand_some(self, c, &f.ins, cover);
        self.cases.extend(v);
    }
}
/// A subset of the moves with every origin, destination, piece and promotion, spread over their combinations.
pub fn picked(cover: Cover, q: u64) -> bool {
    let Cover::Some(n) = cover else { return true };
    let to = q & 127;
    if q & 128 != 0 { return (to + (q >> 8)) % 3 == 0 || n == 1; }
    let from = q >> 8 & 127;
    let h = from * 7 + to * 13 + (from * to) % 11 + (q >> 15) * 5;
    h % n == 0 || from == to
}

pub fn c13(px: &mut Px, thorough: bool) {
    for (i, m) in MAKERS.iter().enumerate() {
        let cover = if i == 0 || thorough { Cover::All } else { Cover::Some(19) };
        px.moves(m, cover, |c| {
            let (a, b) = (c.arg(0).clone(), c.post(0)?);
            let (p, q) = (inner(&a)?, inner(&b)?);
            let mv = move_of(c, c.arg(1))?;
            let ok = accepted(c)?;
            c.need(if ok { "a move is accepted that must be refused" } else { "a move is refused that must be accepted" }, &mv.ins(p), |v| mv.accept(v) == ok)?;
            if !ok { return Ok(()); }
            same_but_king(c.st, "position", q, &mv.after(c.st, p)?)?;
            king_right(c, c.st, q)
        });
    }
}
pub fn c14(px: &mut Px, thorough: bool) {
    for (i, m) in MAKERS.iter().enumerate() {
        let cover = if thorough { Cover::All } else { if i == 0 { Cover::All } else { Cover::Some(19) } };
        px.moves(m, cover, |c| {
            if accepted(c)? { return Ok(()); }
            c.same("refused move: position", &c.post(0)?, c.arg(0))
        });
    }
}
/// The change of a count: None if it is no constant change (modulo 256).
fn delta(st: &State, a: &Sc, b: &Sc) -> R<Option<i64>> {
    let (a, b) = (a.norm(&st.doms), b.norm(&st.doms));
    if a == b { return Ok(Some(0)); }
    let mut sy = a.syms();
    sy.extend(b.syms());
    sy.sort();
    sy.dedup();
    sy.retain(|s| st.doms[s.0 as usize].single().is_none());
    if sy.len() > 2 { return unsup("hand count"); }
    let ds: Vec<Vec<u32>> = sy.iter().map(|x| st.doms[x.0 as usize].to_vec()).collect();
    let mut d: Option<i64> = None;
    let mut ok = true;
    prod(&ds, &mut |v| {
        let look = |q: Sym| match sy.iter().position(|x| x.0 == q) { Some(p) => v[p], None => st.doms[q as usize].single().unwrap() };
        let (x, y) = (a.eval(&look) as i64, b.eval(&look) as i64);
        let e = (y - x) as i8 as i64;
        if d.is_some_and(|d| d != e) { ok = false; return false; }
        d = Some(e);
        true
    });
    Ok(if ok { d } else { None })
}
pub fn c15(px: &mut Px, thorough: bool) {
    for (i, m) in MAKERS.iter().enumerate() {
        let cover = if thorough { Cover::All } else { if i == 0 { Cover::All } else { Cover::Some(19) } };
        px.moves(m, cover, |c| {
            if !accepted(c)? { return Ok(()); }
            let (a, b) = (c.arg(0).clone(), c.post(0)?);
            let (p, q) = (inner(&a)?, inner(&b)?);
            let st = c.st;
            let mut hand = [0i64; 15];
            for col in 0..2 { for k in 0..7 {
                match delta(st, &p.hands[col][k], &q.hands[col][k])? {
                    Some(d) => hand[k + 1] += d,
                    None => {
                        // the change depends on something else: decide that first
                        let mut sy = q.hands[col][k].syms();
                        sy.retain(|s| st.doms[s.0 as usize].single().is_none() && !p.hands[col][k].syms().contains(s));
                        if let Some(s) = sy.first() { return Err(split_by(&st.doms, s.0, |i| i as u64)); }
                        return c.viol(format!("the number of pieces of kind {} in hand changes by different amounts", k + 1));
                    }
                }
            } }
            let mut ins: Vec<Sc> = vec![];
            for i in 0..81 {
                let (x, y) = (p.cells[i].norm(&st.doms), q.cells[i].norm(&st.doms));
                if x != y { ins.push(x); ins.push(y); }
            }
            c.need("material is not conserved", &ins, |v| {
                let mut n = hand;
                let mut kings = [0i64; 3];
                for (i, x) in v.iter().enumerate() {
                    if *x == 0 { continue; }
                    let s = if i % 2 == 0 { -1 } else { 1 };
                    n[base_kind(pkind(*x)) as usize] += s;
                    if pkind(*x) == 8 { kings[pcolor(*x) as usize] += s; }
                }
                n == [0; 15] && kings == [0; 3]
            })
        });
    }
}
pub fn c12(px: &mut Px, thorough: bool) {
    let types = ["PartialPosition", "Position"];
    for t in types {
        let obs = |px: &mut Px, name: &str, want: &'static dyn Fn(&Cx, &PosSem) -> R<Sem>| {
            let k = format!("{t}::{name}");
            if px.api.get(&k).is_none() { return; }
            px.spec(&k, move |c| { let w = want(c, inner(c.arg(0))?)?; c.same("observed value", &c.ret()?, &w) });
        };
        obs(px, "piece_at", &|c, p| Ok(Sem::S(p.cells[c.k(c.arg(1))? as usize - 1].clone(), 16)));
        obs(px, &format!("{t}_piece_at"), &|c, p| Ok(Sem::S(p.cells[c.k(c.arg(1))? as usize - 1].clone(), 16)));
        obs(px, "player_bitboard", &|c, p| Ok(set_of(&player_bits(&p.cells, c.k(c.arg(1))?, c.doms())?)));
        obs(px, "piece_bitboard", &|c, p| Ok(set_of(&piece_bits(&p.cells, c.k(c.arg(1))?, c.doms())?)));
        obs(px, "piece_kind_bitboard", &|c, p| Ok(set_of(&kind_bits(&p.cells, c.k(c.arg(1))?, c.doms())?)));
        obs(px, "occupied_bitboard", &|c, p| Ok(set_of(&p.cells.iter().map(|s| scb(s, c.doms(), |x| x != 0)).collect::<R<Vec<_>>>()?)));
        obs(px, "vacant_bitboard", &|c, p| Ok(set_of(&p.cells.iter().map(|s| scb(s, c.doms(), |x| x == 0)).collect::<R<Vec<_>>>()?)));
        obs(px, "side_to_move", &|_, p| Ok(Sem::S(p.side.clone(), 8)));
        obs(px, "ply", &|_, p| Ok(Sem::S(p.ply.clone(), 16)));
        obs(px, "last_compact_move", &|_, p| Ok(Sem::S(p.last.clone(), 16)));
        obs(px, &format!("{t}_last_compact_move"), &|_, p| Ok(Sem::S(p.last.clone(), 16)));
        obs(px, "hand_of_a_player", &|c, p| Ok(Sem::T(p.hands[c.k(c.arg(1))? as usize - 1].iter().map(|h| Sem::S(h.clone(), 8)).collect())));
        let k = format!("{t}::hand");
        px.spec(&k, |c| {
            let x = c.k(c.arg(1))?;
            let p = inner(c.arg(0))?;
            let r = c.ret()?;
            let Sem::V(var, v) = &r else { return unsup("count") };
            let k = pkind(x);
            if (*var == 1) != (1..=7).contains(&k) { return c.viol(format!("the count of kind {k} is {}", if *var == 1 { "given" } else { "refused" })); }
            if *var == 1 { c.same("count", &v[0], &Sem::S(p.hands[pcolor(x) as usize - 1][k as usize - 1].clone(), 8))?; }
            Ok(())
        });
        let k = format!("{t}::last_move");
        px.spec(&k, last_move);
        // the mutators
        let k = format!("{t}::piece_set");
        px.spec(&k, |c| {
            let (a, b) = (c.arg(0).clone(), c.post(0)?);
            let (p, q) = (inner(&a)?, inner(&b)?);
            let i = c.k(c.arg(1))? as usize - 1;
            let v = c.arg(2).sc()?;
            same_but_king(c.st, "position after placing", q, &with_cell(p, i, &v, c.doms())?)?;
            king_right(c, c.st, q)
        });
        let k = format!("{t}::hand_of_a_player_mut");
        px.spec(&k, |c| {
            // the reference leads to that player's hand: writing through it changes that hand alone
            let col = c.k(c.arg(1))? as usize - 1;
            let (a, b) = (c.arg(0).clone(), c.post(0)?);
            c.same("position", &b, &a)?;
            c.same("hand", &c.ret()?, &Sem::T(inner(&a)?.hands[col].iter().map(|h| Sem::S(h.clone(), 8)).collect()))?;
            let r = c.retv.clone().mem().read(0, 8, c.doms())?;
            let r = c.e.to_loc(c.st, r)?;
            let mut st = c.st.clone();
            for k in 0..7u32 { c.e.write(&mut st, Loc { base: r.base, off: r.off + k as i64 }, Val::sc(100 + k as u128, 1))?; }
            let after = sem(c.e, &st, c.f.ins[0], &c.g.argv[0].clone().mem(), 0, 0)?;
            let mut want = inner(&a)?.clone();
            want.hands[col] = (0..7).map(|k| Sc::C(100 + k)).collect();
            same(&st, "position after writing the hand", &Sem::P(Box::new(inner(&after)?.clone())), &Sem::P(Box::new(want)))
        });
    }
    px.spec("PartialPosition::king_position", |c| {
        let col = c.k(c.arg(1))? as usize - 1;
        let (p, r) = (inner(c.arg(0))?, c.ret()?.sc()?);
        let king = piece(8, col as u64 + 1) as u128;
        king_cases(c.g, c.st, col, &mut |st| king_holds(st, &p.cells, &r, col, king))
    });
    px.spec("PartialPosition::side_to_move_set", |c| {
        let mut p = inner(c.arg(0))?.clone();
        p.side = c.arg(1).sc()?;
        c.same("position", &c.post(0)?, &Sem::P(Box::new(p)))
    });
    px.spec("PartialPosition::ply_set", |c| {
        let ok = c.k(&c.ret()?)? == 1;
        let n = c.arg(1).sc()?;
        c.need(if ok { "move number zero is accepted" } else { "a positive move number is refused" }, &[n.clone()], |v| (v[0] != 0) == ok)?;
        let mut p = inner(c.arg(0))?.clone();
        if ok { p.ply = n; }
        c.same("position", &c.post(0)?, &Sem::P(Box::new(p)))
    });
    for m in MAKERS {
        let cover = if m == "PartialPosition::make_move" || thorough { Cover::Some(if thorough { 1 } else { 3 }) } else { Cover::Some(61) };
        px.moves(m, cover, |c| {
            let b = c.post(0)?;
            let q = inner(&b)?;
            sets_agree(c.st, q)?;
            king_right(c, c.st, q)
        });
    }
    // the constructors
    for k in ["PartialPosition::startpos", "PartialPosition::empty", "<PartialPosition as Default>::default", "Position::startpos", "<Position as Default>::default", "Position::arbitrary_position"] {
        if px.api.get(k).is_none() { continue; }
        px.spec(k, |c| {
            let r = c.ret()?;
            let ps: Vec<&PosSem> = match &r { Sem::P(p) => vec![p], Sem::T(v) => v.iter().filter_map(|x| x.pos().ok()).collect(), _ => vec![] };
            if ps.is_empty() { return unsup("position expected"); }
            for p in ps { sets_agree(c.st, p)?; king_right(c, c.st, p)?; }
            Ok(())
        });
    }
}

/// The standard positions.
pub fn standard(start: bool) -> PosSem {
    let mut cells = vec![0u64; 81];
    if start {
        let order = [2, 3, 4, 5, 8, 5, 4, 3, 2];
        for f in 0..9 {
            cells[9 * f] = piece(order[f], 2);
            cells[9 * f + 2] = piece(1, 2);
            cells[9 * f + 6] = piece(1, 1);
            cells[9 * f + 8] = piece(order[f], 1);
        }
        // rank b: white bishop on the 2nd file, rook on the 8th; rank h: black rook on the 2nd, bishop on the 8th
        cells[9 + 1] = piece(6, 2);
        cells[9 * 7 + 1] = piece(7, 2);
        cells[9 + 7] = piece(7, 1);
        cells[9 * 7 + 7] = piece(6, 1);
    }
    let set = |f: &dyn Fn(u64) -> bool| set_of(&cells.iter().map(|x| Bit::K(f(*x))).collect::<Vec<_>>()).set().unwrap();
    let z: Vec<Sc> = vec![Sc::C(0); 7];
    let king = |c: u64| Sc::C(cells.iter().position(|x| *x == piece(8, c)).map_or(0, |p| p + 1) as u128);
    PosSem {
        side: Sc::C(1), ply: Sc::C(1), hands: [z.clone(), z], last: Sc::C(0),
        player: (1..=2).map(|c| set(&|x| x != 0 && pcolor(x) == c)).collect(),
        piece: (1..=14).map(|k| set(&|x| pkind(x) == k)).collect(),
        king: [king(1), king(2)],
        cells: cells.iter().map(|x| Sc::C(*x as u128)).collect(),
    }
}
pub fn c17(px: &mut Px) {
    let start = Sem::P(Box::new(standard(true)));
    let fresh = Sem::T(vec![start.clone(), start.clone(), Sem::Q(None, vec![])]);
    let eq = |px: &mut Px, k: &str, want: Sem| { if px.api.get(k).is_some() { px.spec(k, move |c| c.same("position", &c.ret()?, &want)); } };
    eq(px, "PartialPosition::startpos", start.clone());
    eq(px, "<PartialPosition as Default>::default", start.clone());
    eq(px, "PartialPosition::empty", Sem::P(Box::new(standard(false))));
    eq(px, "Position::startpos", fresh.clone());
    eq(px, "<Position as Default>::default", fresh.clone());
    eq(px, "c:Position_startpos", fresh.clone());
    let s = start.clone();
    px.spec("c:PartialPosition_startpos", move |c| {
        let Val::S(V::P(p), _) = &c.g.argv[0] else { return unsup("buffer") };
        let Some(t) = c.f.ins[0].walk().filter_map(|g| g.as_type()).find(|t| name_of(c.e, *t) == "PartialPosition") else { return unsup("buffer") };
        let n = c.e.lw.layout(t).map_err(Need::Unsup)?.size.bytes() as u32;
        let v = c.e.read_range(c.st, Loc { base: p.base, off: p.off }, n)?;
        c.same("position in the buffer", &sem(c.e, c.st, t, &v.mem(), 0, 0)?, &s)
    });
}
/// Runs a function on the value behind the first argument of the specified one.
fn then_read<'tcx>(c: &Cx<'_, 'tcx>, f: &F<'tcx>, this: &Val, st: &State, k: &mut dyn FnMut(&State, Sem) -> R<()>) -> R<()> {
    c.nest(f, st, vec![this.clone()], &mut |st, v| { let s = sem(c.e, st, f.out, &v.clone().mem(), 0, 0)?; k(st, s) })
}
pub fn c18(px: &mut Px) {
    for t in ["PartialGame", "Game"] {
        if px.api.adt(t).is_none() { continue; }
        let inner_t = if t == "Game" { "Position" } else { "PartialPosition" };
        let (Some(pos), Some(res), Some(cres)) = (px.f(&format!("{t}::position")), px.f(&format!("{t}::resolution")), px.f(&format!("c:{t}_resolution"))) else { continue };
        for op in ["resolve", "unresolve", "position", "resolution", &format!("{t}_resolution")] {
            let (pos, res, cres) = (pos.clone(), res.clone(), cres.clone());
            let op2 = op.to_string();
            px.spec(&format!("{t}::{op}"), move |c| {
                let old = c.arg(0).clone();
                let Sem::T(o) = &old else { return unsup("record") };
                let (Some(opos), Some(ores)) = (o.iter().find(|x| matches!(x, Sem::P(_) | Sem::T(_))), o.iter().find(|x| matches!(x, Sem::S(..)))) else { return unsup("record") };
                // what the readers return now
                let want = match op2.as_str() { "resolve" => c.arg(1).clone(), "unresolve" => num(0, 16), _ => ores.clone() };
                let this = c.g.argv[0].clone();
                match op2.as_str() {
                    "position" => c.same("position read", &c.ret()?, opos)?,
                    "resolve" | "unresolve" => {}
                    _ => c.same("resolution read", &c.ret()?, ores)?,
                }
                then_read(c, &res, &this, c.st, &mut |st, s| same(st, "resolution", &s, &want))?;
                then_read(c, &cres, &this, c.st, &mut |st, s| same(st, "resolution (C)", &s, &want))?;
                then_read(c, &pos, &this, c.st, &mut |st, s| same(st, "position", &s, opos))?;
                if !op2.contains("resolve") { c.same("record", &c.post(0)?, &old)?; }
                Ok(())
            });
        }
        // the default record
        let Some(d) = px.f(&format!("<{inner_t} as Default>::default")) else { continue };
        let (pos, res) = (pos.clone(), res.clone());
        px.spec(&format!("<{t} as Default>::default"), move |c| {
            let mut st = c.st.clone();
            let this = place(c.e, &mut st, c.f.out, c.retv)?;
            then_read(c, &res, &this, &st, &mut |st, s| same(st, "resolution of the default record", &s, &num(0, 16)))?;
            c.nest(&d, &st, vec![], &mut |st, v| {
                let want = sem(c.e, st, d.out, &v.clone().mem(), 0, 0)?;
                then_read(c, &pos, &this, st, &mut |st, s| same(st, "position of the default record", &s, &want))
            })
        });
    }
}
pub fn c16(px: &mut Px, thorough: bool) {
    if px.api.adt("Position").is_none() { return; }
    if PARTS.get().0 == PARTS.get().1 { px.fact(false, "the initial and the current position are one and the same", "Position::inner, Position::initial_position"); return; }
    let Some(partial) = px.f("PartialPosition::make_move") else { return };
    crate::hooks::CUT_BAD.set(true);
    for m in ["Position::make_move", "Position::make_compact_move"] {
        let partial = partial.clone();
        let cover = Cover::Some(if thorough { 1 } else { 11 });
        let Some(f) = px.f(m) else { continue };
        let spec: Spec = Rc::new(move |c: &Cx| {
            let (a, b) = (c.arg(0).clone(), c.post(0)?);
            let (Sem::T(x), Sem::T(y)) = (&a, &b) else { return unsup("position") };
            let mv = move_of(c, c.arg(1))?;
            let ok = accepted(c)?;
            let (ini, cur) = PARTS.get();
            c.same("initial position", &y[ini], &x[ini])?;
            let Sem::Q(p0, v0) = &x[3 - ini - cur] else { return unsup("history") };
            let mut v = v0.clone();
            if ok { v.push(if mv.drop { Sem::V(1, vec![num(mv.a, 8), num(mv.to, 8)]) } else { Sem::V(0, vec![num(mv.a, 8), num(mv.to, 8), num(mv.promote as u64, 8)]) }); }
            c.same("recorded moves", &y[3 - ini - cur], &Sem::Q(*p0, v))?;
            // the current position is what the same move makes of the old one
            let mut st = c.st.clone();
            let pt = partial.ins[0].peel_refs();
            let this = place(c.e, &mut st, pt, &pos_val(c.e, pt, inner(&a)?)?)?;
            c.nest(&partial, &st, vec![this.clone(), move_val(c.e, partial.ins[1], mv)?], &mut |st, v| {
                let r = sem(c.e, st, partial.out, &v.clone().mem(), 0, 0)?.sc()?.konst(&st.doms)? == 1;
                if r != ok { return Err(Need::Viol(format!("the move is {} while a position without history {} it", if ok { "accepted" } else { "refused" }, if r { "accepts" } else { "refuses" }))); }
                let want = sem(c.e, st, partial.ins[0], &this.clone().mem(), 0, 0)?;
                let now = sem(c.e, st, c.f.ins[0], &c.g.argv[0].clone().mem(), 0, 0)?;
                same(st, "current position", now.at(cur)?, &want)
            })
        });
        let c = px.mk(&f, spec);
        let v = expand_some(px, c, &f.ins, cover);
        px.cases.extend(v);
    }
    // a new full position, and the observers
    px.spec("Position::arbitrary_position", |c| {
        let r = c.ret()?;
        let (ini, cur) = PARTS.get();
        c.same("initial position", r.at(ini)?, c.arg(0))?;
        c.same("current position", r.at(cur)?, c.arg(0))?;
        c.same("recorded moves", r.at(3 - ini - cur)?, &Sem::Q(None, vec![]))
    });
    for k in ["Position::startpos", "<Position as Default>::default", "c:Position_startpos"] {
        px.spec(k, |c| {
            let r = c.ret()?;
            let (ini, cur) = PARTS.get();
            c.same("initial position", r.at(ini)?, r.at(cur)?)?;
            c.same("recorded moves", r.at(3 - ini - cur)?, &Sem::Q(None, vec![]))
        });
    }
    // editing the board or a hand touches the current position only
    for k in ["Position::piece_set", "Position::hand_of_a_player_mut"] {
        px.spec(k, |c| {
            let (ini, cur) = PARTS.get();
            let a = c.arg(0).clone();
            let mut st = c.st.clone();
            if c.f.key.ends_with("_mut") {
                let r = c.retv.clone().mem().read(0, 8, c.doms())?;
                let r = c.e.to_loc(c.st, r)?;
                for k in 0..7u32 { c.e.write(&mut st, Loc { base: r.base, off: r.off + k as i64 }, Val::sc(100 + k as u128, 1))?; }
            }
            let b = sem(c.e, &st, c.f.ins[0], &c.g.argv[0].clone().mem(), 0, 0)?;
            same(&st, "initial position after an edit", b.at(ini)?, a.at(ini)?)?;
            same(&st, "recorded moves after an edit", b.at(3 - ini - cur)?, a.at(3 - ini - cur)?)
        });
    }
    px.spec("Position::inner", |c| c.same("current position", &c.ret()?, c.arg(0).at(PARTS.get().1)?));
    px.spec("Position::initial_position", |c| c.same("initial position", &c.ret()?, c.arg(0).at(PARTS.get().0)?));
    px.spec("Position::moves", |c| {
        // the slice of the recorded moves, whole
        let Sem::Q(..) = c.arg(0).at(3 - PARTS.get().0 - PARTS.get().1)? else { return unsup("history") };
        let Val::S(V::P(this), _) = &c.g.argv[0] else { return unsup("position") };
        let t = c.f.ins[0].peel_refs();
        let l = c.e.lw.layout(t).map_err(Need::Unsup)?;
        let off = l.fields.offset(3 - PARTS.get().0 - PARTS.get().1).bytes() as i64;
        let V::P(Ptr { base: Base::H(o), .. }) = c.e.read(c.st, Loc { base: this.base, off: this.off + off }, 8)? else { return unsup("history") };
        let ObjKind::Seq { prefix, items, .. } = &c.st.heap[o as usize].kind else { return unsup("history") };
        let len = match prefix { Some(p) => Sc::Lin(*p, items.len() as u64), None => Sc::C(items.len() as u128) };
        match c.retv {
            Val::M(ch, 16) if ch.len() == 2 => {
                if ch[0].v != V::P(Ptr { base: Base::H(o), off: 0 }) { return c.viol("another sequence is returned as the recorded moves"); }
                let V::S(n) = &ch[1].v else { return unsup("slice") };
                c.same("number of recorded moves", &Sem::S(n.clone(), 64), &Sem::S(len, 64))
            }
            _ => unsup("slice"),
        }
    });
    px.spec("Position::last_move", last_move);
    for k in ["Position::side_to_move", "Position::ply", "Position::last_compact_move", "c:Position_last_compact_move"] {
        px.spec(k, |c| {
            let p = inner(c.arg(0))?;
            let w = if c.f.key.contains("side") { Sem::S(p.side.clone(), 8) } else if c.f.key.ends_with("ply") { Sem::S(p.ply.clone(), 16) } else { Sem::S(p.last.clone(), 16) };
            c.same("observed value", &c.ret()?, &w)
        });
    }
    for k in ["Position::occupied_bitboard", "Position::vacant_bitboard", "Position::player_bitboard", "Position::piece_bitboard", "Position::piece_at", "c:Position_piece_at", "Position::hand_of_a_player"] {
        px.spec(k, |c| {
            let p = inner(c.arg(0))?;
            let bits = |f: &dyn Fn(u64) -> bool| -> R<Sem> { Ok(set_of(&p.cells.iter().map(|s| scb(s, c.doms(), f)).collect::<R<Vec<_>>>()?)) };
            let x = if c.g.args.len() > 1 { c.k(c.arg(1))? } else { 0 };
            let w = match c.f.key.rsplit("::").next().unwrap() {
                "occupied_bitboard" => bits(&|y| y != 0)?,
                "vacant_bitboard" => bits(&|y| y == 0)?,
                "player_bitboard" => bits(&|y| y != 0 && pcolor(y) == x)?,
                "piece_bitboard" => bits(&|y| y == x)?,
                "hand_of_a_player" => Sem::T(p.hands[x as usize - 1].iter().map(|h| Sem::S(h.clone(), 8)).collect()),
                _ => Sem::S(p.cells[x as usize - 1].clone(), 16),
            };
            c.same("observed value", &c.ret()?, &w)
        });
    }
}
