//! Arbitrary valid values of a type, and the validity of values (by type).
use crate::exec::*;
use crate::mem::*;
use crate::val::*;
use rustc_middle::ty::{self, Ty};
use std::rc::Rc;

/// Depth-first enumeration of generator alternatives.
#[derive(Default, Clone)]
pub struct Chooser {
    path: Vec<(u32, u32)>,
    pos: usize,
}
impl Chooser {
    pub fn pick(&mut self, n: u32) -> u32 {
        if self.pos == self.path.len() { self.path.push((0, n)); }
        let r = self.path[self.pos].0;
        self.pos += 1;
        r
    }
    pub fn next(&mut self) -> bool {
        self.path.truncate(self.pos);
        self.pos = 0;
        while let Some((i, n)) = self.path.pop() {
            if i + 1 < n { self.path.push((i + 1, n)); return true; }
        }
        false
    }
}
#[derive(Clone, Debug)]
pub struct PosLay { pub size: u32, pub side: u32, pub ply: u32, pub hands: u32, pub board: u32, pub player: u32, pub piece: u32, pub last: u32, pub king: u32 }
#[derive(Clone, Debug)]
pub struct PosSyms { pub side: Pr, pub ply: Sc, pub hands: [[Sc; 7]; 2], pub cells: Vec<Pr>, pub last: Sc, pub king: [Pr; 2] }
/// How a generated quantity depends on its symbol: directly, or as a component of a pair of n values.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Pair { #[default] Off, Fst, Snd }
#[derive(Clone, Copy, Debug)]
pub struct Pr { pub sym: Sym, pub n: u32, pub pair: Pair }
impl Pr {
    pub fn size(&self) -> u32 { if self.pair == Pair::Off { self.n } else { self.n * self.n } }
    /// Index of the value for an index of the symbol.
    pub fn ix(&self, i: u32) -> u32 { match self.pair { Pair::Off => i, Pair::Fst => i / self.n, Pair::Snd => i % self.n } }
    pub fn f(&self, t: impl Fn(u32) -> u64) -> Sc { Sc::F(self.sym, Rc::new((0..self.size()).map(|i| t(self.ix(i))).collect())) }
    pub fn table(&self, t: &[u64]) -> Sc { self.f(|i| t[i as usize]) }
    pub fn bit(&self, t: impl Fn(u32) -> bool) -> Bit { Bit::of_table(self.sym, self.size(), |i| t(self.ix(i))) }
}
#[derive(Default, Clone)]
pub struct Gen {
    pub ch: Chooser,
    /// Generation of two values over common symbols, to relate them exactly.
    pub pair: Pair,
    pub pairs: Vec<(Sym, u32)>,
    pub pair_ix: usize,
    /// Quantities and alternatives fixed by name.
    pub fix: Rc<Vec<(String, u64)>>,
    pub names: Vec<(Pr, String, Rc<Vec<u64>>)>,
    pub pos: Vec<PosSyms>,
    /// Bitboard symbols in generation order.
    pub bbs: Vec<Vec<Pr>>,
    pub scal: Vec<Sc>,
    pub hands: Vec<[Sc; 7]>,
    /// The arguments: their meaning on entry, and the values passed.
    pub args: Vec<crate::sem::Sem>,
    pub argv: Vec<Val>,
    /// The same arguments with copies of what is passed by exclusive reference.
    pub dup: Vec<Val>,
}

pub const CELL: [u64; 29] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30];
pub fn compact_codes() -> Vec<u64> {
    let mut v = vec![];
    for promote in 0..2u64 { for from in 1..=81u64 { for to in 1..=81u64 { v.push(promote << 15 | from << 8 | to); } } }
    for p in CELL.iter().skip(1) { for to in 1..=81u64 { v.push(p << 8 | 128 | to); } }
    v.sort();
    v
}
pub fn last_codes() -> Vec<u64> { let mut v = vec![0]; v.extend(compact_codes()); v }

pub fn name_of<'tcx>(e: &Engine<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(d, _) => e.lw.tcx.item_name(d.did()).to_string(),
        _ => String::new(),
    }
}
pub fn is_crate<'tcx>(e: &Engine<'tcx>, t: Ty<'tcx>) -> bool {
    match t.kind() { ty::Adt(d, _) => e.lw.tcx.crate_name(d.did().krate).as_str() == "shogi_core", _ => false }
}
/// All valid codes of a type that is one scalar with few values.
pub fn codes<'tcx>(e: &Engine<'tcx>, t: Ty<'tcx>) -> Option<Vec<u64>> {
    let tcx = e.lw.tcx;
    match t.kind() {
        ty::Bool => return Some(vec![0, 1]),
        ty::Uint(ty::UintTy::U8) | ty::Int(ty::IntTy::I8) => return Some((0..256).collect()),
        ty::Adt(..) => {}
        _ => return None,
    }
    let ty::Adt(d, args) = t.kind() else { return None };
    if is_crate(e, t) {
        match name_of(e, t).as_str() {
            "Square" => return Some((1..=81).collect()),
            "OptionSquare" => return Some((0..=81).collect()),
            "Piece" => return Some(CELL[1..].to_vec()),
            "OptionPiece" => return Some(CELL.to_vec()),
            "OptionPieceKind" => return Some((0..=14).collect()),
            "OptionGameResolution" => return Some((0..=5).collect()),
            "ResultUnitIllegalMoveKind" => return Some((0..=7).collect()),
            "CompactMove" => return Some(compact_codes()),
            "OptionCompactMove" => return Some(last_codes()),
            _ => {}
        }
    }
    if d.is_enum() {
        let l = e.lw.layout(t).ok()?;
        let sz = l.size.bytes();
        if sz == 0 || sz > 8 { return None; }
        let mut out = vec![];
        for (i, v) in d.variants().iter_enumerated() {
            if v.fields.is_empty() || v.fields.iter().all(|f| e.lw.layout(tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args))).is_ok_and(|l| l.is_zst())) {
                match e.lw.tag_of(t, i).ok()? { Some((0, n, x)) if n as u64 == sz => out.push(x as u64), _ => return None }
            } else if v.fields.len() == 1 {
                let f = tcx.normalize_erasing_regions(e.lw.env, v.fields.iter().next().unwrap().ty(tcx, args));
                if e.lw.layout(f).ok()?.size.bytes() != sz { return None; }
                if e.lw.tag_of(t, i).ok()?.is_some() { return None; }
                out.extend(codes(e, f)?);
            } else { return None; }
        }
        return Some(out);
    }
    None
}

pub fn bb_chunks(bit: &dyn Fn(u32) -> Bit, off: u32) -> Vec<Ch> {
    let w = |lo: u32, n: u32| -> Sc {
        let mut v: Vec<Bit> = (0..n).map(|i| bit(lo + i)).collect();
        while v.len() < 64 { v.push(Bit::K(false)); }
        Sc::from_bits(v)
    };
    vec![Ch { off, len: 8, v: V::S(w(0, 63)) }, Ch { off: off + 8, len: 8, v: V::S(w(63, 18)) }]
}

pub fn pos_lay<'tcx>(e: &Engine<'tcx>, t: Ty<'tcx>) -> R<PosLay> {
    let tcx = e.lw.tcx;
    let ty::Adt(d, args) = t.kind() else { return unsup("position layout") };
    let l = e.lw.layout(t).map_err(Need::Unsup)?;
    let mut p = PosLay { size: l.size.bytes() as u32, side: !0, ply: !0, hands: !0, board: !0, player: !0, piece: !0, last: !0, king: !0 };
    for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
        let ft = tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args));
        let o = l.fields.offset(i).bytes() as u32;
        let slot = match ft.kind() {
            ty::Uint(ty::UintTy::U16) => &mut p.ply,
            ty::Array(el, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let el_name = opt_name(e, *el);
                match (el_name.as_str(), n) {
                    ("Hand", 2) => &mut p.hands,
                    ("Piece", 81) => &mut p.board,
                    ("Bitboard", 2) => &mut p.player,
                    ("Bitboard", 14) => &mut p.piece,
                    ("Square", 2) => &mut p.king,
                    _ => return unsup(format!("unknown position field of type {ft}")),
                }
            }
            _ => match opt_name(e, ft).as_str() {
                "Color" => &mut p.side,
                "CompactMove" => &mut p.last,
                _ => return unsup(format!("unknown position field of type {ft}")),
            },
        };
        if *slot != !0 { return unsup("position layout"); }
        *slot = o;
    }
    if [p.side, p.ply, p.hands, p.board, p.player, p.piece, p.last, p.king].contains(&!0) { return unsup("position layout"); }
    Ok(p)
}
/// The name of a type, with the optional forms named as the plain type.
fn opt_name<'tcx>(e: &Engine<'tcx>, t: Ty<'tcx>) -> String {
    let n = name_of(e, t);
    if n == "Option" { return opt_name(e, t.walk().filter_map(|g| g.as_type()).nth(1).unwrap()); }
    n.strip_prefix("Option").map(|s| s.to_string()).unwrap_or(n)
}
pub fn cell_bit(p: &Pr, f: impl Fn(u64) -> bool) -> Bit { p.bit(|i| f(CELL[i as usize])) }
pub fn sq_name(i: usize) -> String { format!("{}{}", i / 9 + 1, (b'a' + (i % 9) as u8) as char) }

impl Gen {
    /// A quantity with the given values.
    pub fn prim(&mut self, st: &mut State, vals: &Rc<Vec<u64>>, name: String) -> Pr {
        let n = vals.len() as u32;
        let r = match self.pair {
            Pair::Off => Pr { sym: st.sym(n), n, pair: Pair::Off },
            Pair::Fst => { let s = st.sym(n * n); self.pairs.push((s, n)); Pr { sym: s, n, pair: Pair::Fst } }
            Pair::Snd => match self.pairs.get(self.pair_ix) {
                Some((s, m)) if *m == n => { let s = *s; self.pair_ix += 1; Pr { sym: s, n, pair: Pair::Snd } }
                _ => { self.pair_ix = usize::MAX - 1; Pr { sym: st.sym(n), n, pair: Pair::Off } }
            },
        };
        if let Some((_, v)) = self.fix.iter().find(|f| f.0 == name) {
            if let Some(i) = vals.iter().position(|x| x == v) {
                let d = Dom::from_iter(r.size(), (0..r.size()).filter(|k| r.ix(*k) == i as u32));
                st.refine(&vec![(r.sym, d)]);
            }
        }
        self.names.push((r, name, vals.clone()));
        r
    }
    pub fn scalar(&mut self, st: &mut State, c: Vec<u64>, name: &str) -> Sc {
        if c.len() == 1 { return Sc::C(c[0] as u128); }
        let s = if self.pair != Pair::Off && c.len() > 256 { self.wide(st, name, 16) } else {
            let c = Rc::new(c);
            self.prim(st, &c, name.to_string()).table(&c)
        };
        self.scal.push(s.clone());
        s
    }
    /// An integer of the given width, bit by bit.
    pub fn wide(&mut self, st: &mut State, name: &str, bits: u32) -> Sc {
        let id: Rc<Vec<u64>> = Rc::new(vec![0, 1]);
        Sc::from_bits((0..bits).map(|i| self.prim(st, &id, format!("{name}.bit{i}")).bit(|x| x == 1)).collect())
    }
    pub fn u16(&mut self, st: &mut State, name: &str) -> Sc {
        if self.pair != Pair::Off { return self.wide(st, name, 16); }
        let id: Rc<Vec<u64>> = Rc::new((0..65536).collect());
        Sc::Lin(self.prim(st, &id, name.to_string()).sym, 0)
    }
    pub fn u8(&mut self, st: &mut State, name: &str) -> Sc {
        if self.pair != Pair::Off { return self.wide(st, name, 8); }
        let id: Rc<Vec<u64>> = Rc::new((0..256).collect());
        self.prim(st, &id, name.to_string()).table(&id)
    }
    pub fn hand(&mut self, st: &mut State, name: &str) -> [Sc; 7] {
        std::array::from_fn(|k| self.u8(st, &format!("{name}[{}]", k + 1)))
    }
    pub fn bitboard(&mut self, st: &mut State, name: &str) -> Vec<Pr> {
        let id: Rc<Vec<u64>> = Rc::new(vec![0, 1]);
        let r: Vec<Pr> = (0..81).map(|i| self.prim(st, &id, format!("{name}.{}", sq_name(i)))).collect();
        self.bbs.push(r.clone());
        r
    }
    pub fn position(&mut self, st: &mut State, l: &PosLay, name: &str) -> Vec<Ch> {
        let cell: Rc<Vec<u64>> = Rc::new(CELL.to_vec());
        let colors: Rc<Vec<u64>> = Rc::new(vec![1, 2]);
        let sq: Rc<Vec<u64>> = Rc::new((0..=81).collect());
        let cells: Vec<Pr> = (0..81).map(|i| self.prim(st, &cell, format!("{name}.{}", sq_name(i)))).collect();
        let side = self.prim(st, &colors, format!("{name}.side"));
        let ply = self.u16(st, &format!("{name}.ply"));
        let last = if self.pair != Pair::Off { self.wide(st, &format!("{name}.last_move"), 16) } else {
            let lc = Rc::new(last_codes());
            self.prim(st, &lc, format!("{name}.last_move")).table(&lc)
        };
        let king = [self.prim(st, &sq, format!("{name}.king(black)")), self.prim(st, &sq, format!("{name}.king(white)"))];
        let hands = [self.hand(st, &format!("{name}.hand(black)")), self.hand(st, &format!("{name}.hand(white)"))];
        let p = PosSyms { side, ply, hands, cells, last, king };
        let out = pos_chunks(l, &p);
        self.pos.push(p);
        out
    }
}
/// Memory of the position described by the symbols.
pub fn pos_chunks(l: &PosLay, p: &PosSyms) -> Vec<Ch> {
    let mut out = vec![];
    out.push(Ch { off: l.side, len: 1, v: V::S(p.side.f(|i| i as u64 + 1)) });
    out.push(Ch { off: l.ply, len: 2, v: V::S(p.ply.clone()) });
    for c in 0..2 {
        for k in 0..7 { out.push(Ch { off: l.hands + 8 * c + k, len: 1, v: V::S(p.hands[c as usize][k as usize].clone()) }); }
        out.push(Ch { off: l.hands + 8 * c + 7, len: 1, v: V::c(0) });
    }
    for i in 0..81 { out.push(Ch { off: l.board + i, len: 1, v: V::S(p.cells[i as usize].table(&CELL)) }); }
    for c in 0..2 {
        out.extend(bb_chunks(&|i| cell_bit(&p.cells[i as usize], |x| x != 0 && (x >= 16) == (c == 1)), l.player + 16 * c));
    }
    for k in 0..14 {
        out.extend(bb_chunks(&|i| cell_bit(&p.cells[i as usize], |x| x & 15 == k as u64 + 1), l.piece + 16 * k));
    }
    out.push(Ch { off: l.last, len: 2, v: V::S(p.last.clone()) });
    for c in 0..2 { out.push(Ch { off: l.king + c, len: 1, v: V::S(p.king[c as usize].f(|i| i as u64)) }); }
    out.sort_by_key(|c| c.off);
    out
}

/// An arbitrary valid value of a type.
pub fn gen<'tcx>(e: &Engine<'tcx>, st: &mut State, g: &mut Gen, t: Ty<'tcx>, name: &str) -> R<Val> {
    let tcx = e.lw.tcx;
    let l = e.lw.layout(t).map_err(Need::Unsup)?;
    if l.is_zst() { return Ok(Val::Z); }
    let size = l.size.bytes() as u32;
    if let Some(c) = codes(e, t) {
        let s = if c.len() == 256 && g.pair != Pair::Off { let s = g.u8(st, name); g.scal.push(s.clone()); s } else { g.scalar(st, c, name) };
        return Ok(Val::S(V::S(s), size));
    }
    match t.kind() {
        ty::Uint(ty::UintTy::U16) => {
            let s = g.u16(st, name);
            g.scal.push(s.clone());
            return Ok(Val::S(V::S(s), 2));
        }
        ty::Ref(_, p, m) | ty::RawPtr(p, m) => {
            return gen_ptr(e, st, g, *p, m.is_mut(), t.is_raw_ptr(), name);
        }
        ty::Array(el, n) => {
            let n = n.try_to_target_usize(tcx).unwrap_or(0);
            let s = e.lw.layout(*el).map_err(Need::Unsup)?.size.bytes() as u32;
            let mut out = vec![];
            for i in 0..n as u32 {
                let v = gen(e, st, g, *el, &format!("{name}[{i}]"))?;
                out.extend(v.chunks().into_iter().map(|mut c| { c.off += i * s; c }));
            }
            return Ok(Val::M(out, size));
        }
        ty::Tuple(fs) => {
            let mut out = vec![];
            for (i, f) in fs.iter().enumerate() {
                let o = l.fields.offset(i).bytes() as u32;
                out.extend(gen(e, st, g, f, &format!("{name}.{i}"))?.chunks().into_iter().map(|mut c| { c.off += o; c }));
            }
            out.sort_by_key(|c| c.off);
            return Ok(Val::M(out, size));
        }
        _ => {}
    }
    if is_seq(tcx, t) {
        let p = st.sym(65536);
        let string = adt_path(tcx, t) == "alloc::string::String";
        let o = st.alloc(Obj { mem: Mem::Empty, size: 0, align: 8, ro: false, kind: ObjKind::Seq { prefix: Some(p), items: Rc::new(vec![]), string }, heap: true });
        return Ok(crate::hooks::seq_val(o));
    }
    let ty::Adt(d, args) = t.kind() else { return unsup(format!("argument of type {t}")) };
    if is_crate(e, t) {
        match name_of(e, t).as_str() {
            "Hand" => {
                let h = g.hand(st, name);
                g.hands.push(h.clone());
                let mut c: Vec<Ch> = (0..7).map(|k| Ch { off: k, len: 1, v: V::S(h[k as usize].clone()) }).collect();
                c.push(Ch { off: 7, len: 1, v: V::c(0) });
                return Ok(Val::M(c, 8));
            }
            "Bitboard" => {
                let b = g.bitboard(st, name);
                return Ok(Val::M(bb_chunks(&|i| b[i as usize].bit(|x| x == 1), 0), 16));
            }
            "ByteSwappedBitboard" => {
                let b = g.bitboard(st, name);
                return Ok(Val::M(swapped_chunks(&|i| b[i as usize].bit(|x| x == 1)), 16));
            }
            "PartialPosition" => {
                let lay = pos_lay(e, t)?;
                let c = g.position(st, &lay, name);
                return Ok(Val::M(c, size));
            }
            _ => {}
        }
    }
    if d.is_struct() {
        let mut out = vec![];
        for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
            let ft = tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args));
            let o = l.fields.offset(i).bytes() as u32;
            out.extend(gen(e, st, g, ft, &format!("{name}.{}", f.name))?.chunks().into_iter().map(|mut c| { c.off += o; c }));
        }
        out.sort_by_key(|c| c.off);
        if out.len() == 1 && out[0].off == 0 && out[0].len == size { return Ok(Val::S(out.pop().unwrap().v, size)); }
        return Ok(Val::M(out, size));
    }
    if d.is_enum() {
        let n = d.variants().len() as u32;
        let k = match g.fix.iter().find(|f| f.0 == format!("{name}#")) { Some(f) => f.1 as u32, None => g.ch.pick(n) };
        return gen_variant(e, st, g, t, k, name);
    }
    unsup(format!("argument of type {t}"))
}
pub fn gen_variant<'tcx>(e: &Engine<'tcx>, st: &mut State, g: &mut Gen, t: Ty<'tcx>, k: u32, name: &str) -> R<Val> {
    let tcx = e.lw.tcx;
    let ty::Adt(d, args) = t.kind() else { return unsup("enum") };
    let l = e.lw.layout(t).map_err(Need::Unsup)?;
    let vi = rustc_abi::VariantIdx::from_u32(k);
    let cx = ty::layout::LayoutCx::new(tcx, e.lw.env);
    let vl = l.for_variant(&cx, vi);
    let mut out = vec![];
    for (i, f) in d.variant(vi).fields.iter().enumerate() {
        let ft = tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args));
        let o = vl.fields.offset(i).bytes() as u32;
        out.extend(gen(e, st, g, ft, &format!("{name}.{}", f.name))?.chunks().into_iter().map(|mut c| { c.off += o; c }));
    }
    if let Some((o, n, x)) = e.lw.tag_of(t, vi).map_err(Need::Unsup)? { out.push(Ch { off: o, len: n, v: V::c(x) }); }
    out.sort_by_key(|c| c.off);
    Ok(Val::M(out, l.size.bytes() as u32))
}
pub fn swapped_chunks(bit: &dyn Fn(u32) -> Bit) -> Vec<Ch> {
    // byte i of the swapped form is byte 15-i of the plain form
    let plain = |n: u32| -> Bit { // bit n of the 128-bit plain form
        if n < 63 { bit(n) } else if n == 63 { Bit::K(false) } else if n < 64 + 18 { bit(n - 1) } else { Bit::K(false) }
    };
    let w = |base: u32| -> Sc { Sc::from_bits((0..64).map(|j| { let n = base + j; plain((15 - n / 8) * 8 + n % 8) }).collect()) };
    vec![Ch { off: 0, len: 8, v: V::S(w(0)) }, Ch { off: 8, len: 8, v: V::S(w(64)) }]
}
fn gen_ptr<'tcx>(e: &Engine<'tcx>, st: &mut State, g: &mut Gen, p: Ty<'tcx>, mutable: bool, raw: bool, name: &str) -> R<Val> {
    let tcx = e.lw.tcx;
    let mk = |st: &mut State, mem: Mem, size: u64, align: u32, ro: bool, kind: ObjKind| {
        let o = st.alloc(Obj { mem, size, align, ro, kind, heap: false });
        Val::S(V::P(Ptr { base: Base::H(o), off: 0 }), 8)
    };
    if let ty::Dynamic(pr, ..) = p.kind() {
        let o = st.alloc(Obj { mem: Mem::Empty, size: 0, align: 1, ro: !mutable, kind: ObjKind::Opaque, heap: false });
        let _ = pr;
        return Ok(Val::M(vec![Ch { off: 0, len: 8, v: V::P(Ptr { base: Base::H(o), off: 0 }) }, Ch { off: 8, len: 8, v: V::Opaque }], 16));
    }
    let l = e.lw.layout(p).map_err(Need::Unsup)?;
    if l.is_unsized() { return unsup(format!("argument of type &{p}")); }
    let name_ = adt_path(tcx, p);
    if name_ == "core::fmt::Formatter" || name_.starts_with("core::hash::") {
        return Ok(mk(st, Mem::Empty, l.size.bytes(), 8, false, ObjKind::Opaque));
    }
    let align = l.align.abi.bytes() as u32;
    if name_.ends_with("MaybeUninit") || name_.contains("::MaybeUninit") {
        return Ok(mk(st, Mem::Empty, l.size.bytes(), align, false, ObjKind::Bytes));
    }
    if raw && matches!(p.kind(), ty::Uint(ty::UintTy::U8)) {
        return Ok(mk(st, Mem::Empty, 236, 1, false, ObjKind::Stream));
    }
    let v = gen(e, st, g, p, name)?;
    Ok(mk(st, v.mem(), l.size.bytes(), align, !mutable, ObjKind::Bytes))
}
/// A value returned by code outside the crate.
pub fn fresh<'tcx>(e: &Engine<'tcx>, st: &mut State, t: Ty<'tcx>, name: &str) -> R<Val> {
    let mut g = Gen::default();
    gen(e, st, &mut g, t, name)
}

/// Checks that a stored value is a valid representation of its type.
pub fn check_repr<'tcx>(e: &Engine<'tcx>, st: &State, t: Ty<'tcx>, m: &Mem, off: u32, what: &str, depth: u32) -> R<()> {
    let tcx = e.lw.tcx;
    let l = match e.lw.layout(t) { Ok(l) => l, Err(_) => return Ok(()) };
    if l.is_zst() || l.is_unsized() || depth > 10 { return Ok(()); }
    let size = l.size.bytes() as u32;
    let viol = |s: String| -> R<()> { Err(Need::Viol(s)) };
    if let Some(c) = codes(e, t) {
        // nothing to show about a type whose every value is valid
        if size < 4 && c.len() as u64 >> (8 * size) == 1 { return Ok(()); }
        match m.read(off, size, &st.doms)? {
            V::S(s) => {
                let set: std::collections::HashSet<u128> = c.iter().map(|x| *x as u128).collect();
                match s.values(&st.doms) {
                    Some(vs) => if let Some(b) = vs.iter().find(|x| !set.contains(x)) { return viol(format!("{what} of type {t} holds the invalid representation {b}")); },
                    None => return Err(s.need_const(&st.doms)),
                }
            }
            V::Undef => return viol(format!("{what} of type {t} is not initialised")),
            _ => {}
        }
        return Ok(());
    }
    if is_crate(e, t) {
        let nm = name_of(e, t);
        if nm == "Bitboard" || nm == "ByteSwappedBitboard" {
            for w in 0..2u32 {
                let V::S(s) = m.read(off + 8 * w, 8, &st.doms)? else { return viol(format!("{what} of type {t} is not initialised")) };
                let s = s.norm(&st.doms);
                if let Sc::Pop(_) = s { return Err(s.need_const(&st.doms)); }
                let bits = s.to_bits(64);
                for j in 0..64u32 {
                    let n = 64 * w + j;
                    let n = if nm == "Bitboard" { n } else { (15 - n / 8) * 8 + n % 8 };
                    let on_board = n < 63 || (64..82).contains(&n);
                    if !on_board && bits[j as usize].norm(&st.doms) != Bit::K(false) {
                        return viol(format!("{what} of type {t} has a bit outside the board (bit {n} of the 128-bit form)"));
                    }
                }
            }
            return Ok(());
        }
    }
    match t.kind() {
        ty::Array(el, n) => {
            let n = n.try_to_target_usize(tcx).unwrap_or(0);
            let s = e.lw.layout(*el).map_err(Need::Unsup)?.size.bytes() as u32;
            for i in 0..n as u32 { check_repr(e, st, *el, m, off + i * s, what, depth + 1)?; }
        }
        ty::Tuple(fs) => for (i, f) in fs.iter().enumerate() { check_repr(e, st, f, m, off + l.fields.offset(i).bytes() as u32, what, depth + 1)?; },
        ty::Ref(_, p, _) => {
            if e.lw.layout(*p).is_ok_and(|l| !l.is_unsized()) {
                if let V::P(q) = m.read(off, 8, &st.doms)? {
                    let sz = e.lw.layout(*p).unwrap().size.bytes() as u32;
                    if let Base::H(h) = q.base { if !matches!(st.heap[h as usize].kind, ObjKind::Bytes) { return Ok(()); } }
                    if sz > 0 {
                        let v = e.read_range(st, Loc { base: q.base, off: q.off }, sz)?;
                        check_repr(e, st, *p, &v.mem(), 0, what, depth + 1)?;
                    }
                }
            }
        }
        ty::Adt(d, args) => {
            if is_seq(tcx, t) {
                if let V::P(Ptr { base: Base::H(o), .. }) = m.read(off, 8, &st.doms)? {
                    if let ObjKind::Seq { items, string: false, .. } = &st.heap[o as usize].kind {
                        let el = t.walk().filter_map(|g| g.as_type()).nth(1).unwrap();
                        for it in items.iter() { check_repr(e, st, el, &it.clone().mem(), 0, what, depth + 1)?; }
                    }
                }
                return Ok(());
            }
            if d.is_struct() && (is_crate(e, t)) {
                for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let ft = tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args));
                    check_repr(e, st, ft, m, off + l.fields.offset(i).bytes() as u32, what, depth + 1)?;
                }
            }
            if d.is_enum() {
                let k = variant(e, st, t, m, off)?;
                let vi = rustc_abi::VariantIdx::from_u32(k);
                let cx = ty::layout::LayoutCx::new(tcx, e.lw.env);
                let vl = l.for_variant(&cx, vi);
                for (i, f) in d.variant(vi).fields.iter().enumerate() {
                    let ft = tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args));
                    check_repr(e, st, ft, m, off + vl.fields.offset(i).bytes() as u32, what, depth + 1)?;
                }
            }
        }
        _ => {}
    }
    Ok(())
}
/// The variant an enum value holds.
pub fn variant<'tcx>(e: &Engine<'tcx>, st: &State, t: Ty<'tcx>, m: &Mem, off: u32) -> R<u32> {
    use crate::lower::DI;
    let di = e.lw.discr_info(t).map_err(Need::Unsup)?;
    let ty::Adt(d, _) = t.kind() else { return unsup("variant") };
    let x = match &di {
        DI::Bad => return ub("uninhabited"),
        DI::Const(x) => *x,
        DI::Direct { off: o, size, signed, to, valid } => {
            let V::S(s) = m.read(off + o, *size, &st.doms)? else { return ub("uninitialised tag") };
            let x = s.konst(&st.doms)?;
            if !valid.contains(&x) { return ub("invalid tag"); }
            if *signed { sext(x, size * 8) as u128 & wmask(*to) } else { x }
        }
        DI::Niche { off: o, size, start, first, count, untagged, discr, .. } => {
            match m.read(off + o, *size, &st.doms)? {
                V::S(s) => {
                    let mk = wmask(size * 8);
                    map1(&s, &st.doms, |x| {
                        let rel = x.wrapping_sub(*start) & mk;
                        discr[if rel < *count as u128 { first + rel as u32 } else { *untagged } as usize]
                    })?.konst(&st.doms)?
                }
                V::P(_) => discr[*untagged as usize],
                _ => return ub("uninitialised tag"),
            }
        }
    };
    for i in 0..d.variants().len() {
        let vi = rustc_abi::VariantIdx::from_usize(i);
        let dv = t.discriminant_for_variant(e.lw.tcx, vi).map(|d| d.val).unwrap_or(i as u128);
        if dv == x || (dv & wmask(64)) == (x & wmask(64)) { return Ok(i as u32); }
    }
    ub("invalid discriminant")
}
