//! Uniting states that differ in the value of one symbol.
use crate::exec::*;
use crate::mem::*;
use crate::val::*;
use std::rc::Rc;

/// The value that is `a` where the symbol is in `da` and `b` where it is in `db`.
struct U<'a> { s: Sym, n: u32, da: &'a Dom, db: &'a Dom, ad: &'a [Dom], bd: &'a [Dom] }
impl U<'_> {
    fn fun(&self, x: &Sc) -> Option<Box<dyn Fn(u32) -> u64>> {
        match x {
            Sc::C(c) if *c >> 64 == 0 => { let c = *c as u64; Some(Box::new(move |_| c)) }
            Sc::F(s, t) if *s == self.s => { let t = t.clone(); Some(Box::new(move |i| t[i as usize])) }
            Sc::Lin(s, a) if *s == self.s => { let a = *a; Some(Box::new(move |i| (i as u64).wrapping_add(a) & 0xffff)) }
            _ => None,
        }
    }
    fn bit(&self, a: &Bit, b: &Bit) -> Option<Bit> {
        if a == b { return Some(a.clone()); }
        let (a, b) = (&a.norm(self.ad), &b.norm(self.bd));
        if a == b { return Some(a.clone()); }
        let get = |x: &Bit| -> Option<Box<dyn Fn(u32) -> bool>> {
            match x {
                Bit::K(k) => { let k = *k; Some(Box::new(move |_| k)) }
                Bit::S { sym, tt, .. } if *sym == self.s => { let tt = *tt; Some(Box::new(move |i| tt >> i & 1 == 1)) }
                Bit::X(f) if f.syms.len() == 1 && f.syms[0].0 == self.s => { let f = f.clone(); Some(Box::new(move |i| f.tt[i as usize / 64] >> (i % 64) & 1 == 1)) }
                _ => None,
            }
        };
        let (fa, fb) = (get(a)?, get(b)?);
        Some(Bit::of_table(self.s, self.n, |i| if self.da.contains(i) { fa(i) } else if self.db.contains(i) { fb(i) } else { false }))
    }
    fn sc(&self, a: &Sc, b: &Sc, len: u32) -> Option<Sc> {
        if a == b { return Some(a.clone()); }
        let (a, b) = (&a.norm(self.ad), &b.norm(self.bd));
        if a == b { return Some(a.clone()); }
        if self.n <= 16384 {
            if let (Some(fa), Some(fb)) = (self.fun(a), self.fun(b)) {
                return Some(mk_fn(self.s, (0..self.n).map(|i| if self.da.contains(i) { fa(i) } else if self.db.contains(i) { fb(i) } else { 0 } as u128).collect()));
            }
        }
        let ok = |x: &Sc| match x { Sc::C(_) | Sc::B(_) => true, Sc::F(t, v) => *t == self.s || v.len() <= 64, _ => false };
        if !ok(a) || !ok(b) || self.n > 16384 { return None; }
        let (x, y) = (a.to_bits(len * 8), b.to_bits(len * 8));
        let mut out = Vec::with_capacity(x.len());
        for (p, q) in x.iter().zip(&y) { out.push(self.bit(p, q)?); }
        Some(Sc::from_bits(out))
    }
    fn mem(&self, a: &Mem, b: &Mem) -> Option<Mem> {
        if let (Mem::Many(x), Mem::Many(y)) = (a, b) { if Rc::ptr_eq(x, y) { return Some(a.clone()); } }
        if a == b { return Some(a.clone()); }
        if matches!(a, Mem::Dead | Mem::Empty) && matches!(b, Mem::Dead | Mem::Empty) { return Some(Mem::Dead); }
        if matches!(a, Mem::Dead) || matches!(b, Mem::Dead) { return None; }
        let (x, y) = (a.chunks(), b.chunks());
        if x.len() != y.len() { return None; }
        let mut out = Vec::with_capacity(x.len());
        for (p, q) in x.iter().zip(y) {
            if p.off != q.off || p.len != q.len { return None; }
            let v = if p.v == q.v { p.v.clone() } else {
                match (&p.v, &q.v) { (V::S(i), V::S(j)) => V::S(self.sc(i, j, p.len)?), _ => return None }
            };
            out.push(Ch { off: p.off, len: p.len, v });
        }
        Some(Mem::from_chunks(out))
    }
}
/// The union of two states at the same program point, if it is expressible without loss.
pub fn unite(a: &State, b: &State) -> Option<State> {
    if a.doms.len() != b.doms.len() || a.frames.len() != b.frames.len() || a.heap.len() != b.heap.len() { return None; }
    let mut diff = None;
    if !Rc::ptr_eq(&a.doms, &b.doms) {
        for (i, (x, y)) in a.doms.iter().zip(b.doms.iter()).enumerate() {
            if x != y { if diff.is_some() { return None; } diff = Some(i); }
        }
    }
    let Some(s) = diff else { return None };
    if a.mon != b.mon || a.cons != b.cons { return None; }
    let (da, db) = (&a.doms[s], &b.doms[s]);
    let u = U { s: s as Sym, n: da.n, da, db, ad: &a.doms, bd: &b.doms };
    // overlapping domains determine the value only where both agree
    let mut overlap = false;
    da.for_each(|i| overlap |= db.contains(i));
    let mut out = a.clone();
    for (i, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
        if Rc::ptr_eq(x, y) { continue; }
        if x.fid != y.fid || x.bb != y.bb || x.st != y.st || x.dest != y.dest || x.ret != y.ret || x.trips != y.trips { return None; }
        if x.locals == y.locals { continue; }
        if overlap { return None; }
        let mut l = Vec::with_capacity(x.locals.len());
        for (p, q) in x.locals.iter().zip(&y.locals) { l.push(u.mem(p, q)?); }
        Rc::make_mut(&mut out.frames[i]).locals = l;
    }
    for (i, (x, y)) in a.heap.iter().zip(&b.heap).enumerate() {
        if Rc::ptr_eq(x, y) { continue; }
        if x.size != y.size || x.align != y.align || x.ro != y.ro || x.kind != y.kind || x.heap != y.heap { return None; }
        if x.mem == y.mem { continue; }
        if overlap { return None; }
        let m = u.mem(&x.mem, &y.mem)?;
        Rc::make_mut(&mut out.heap[i]).mem = m;
    }
    let un = da.union(db);
    Rc::make_mut(&mut out.doms)[s] = un;
    out.inexact = a.inexact | b.inexact;
    out.nref = a.nref.max(b.nref);
    out.marks = a.marks.iter().zip(&b.marks).map(|(x, y)| *x.min(y)).collect();
    Some(out)
}
