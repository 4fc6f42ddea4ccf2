//! Unbounded quantities: sizes, addresses and the value of a shared counter, as linear forms over unknowns.
//!
//! The value of a term is an exact mathematical integer; wrap-around is made explicit by case distinction. A fact is a
//! linear inequality, tied to a two-valued symbol of the state, so that branches and case distinctions work as for any
//! other symbol. Entailment is decided by Fourier-Motzkin elimination with integer tightening (a polyhedral domain).
use crate::mem::*;
use crate::val::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Atom {
    /// 0: the requested size, 1: offset of the block given back, from 2 on: values read from the shared counter.
    Var(u32),
    /// Quotient, rounded down.
    Quot(Rc<Lin>, i128),
    /// Address of an object divided by its alignment.
    Addr(u32),
}
impl std::fmt::Debug for Atom {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self { Atom::Var(i) => write!(f, "v{i}_"), Atom::Quot(l, m) => write!(f, "({l:?})/{m}"), Atom::Addr(a) => write!(f, "addr{a}") }
    }
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin { pub k: i128, pub co: Vec<(Atom, i128)> }
impl std::fmt::Debug for Lin {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for (a, c) in &self.co { write!(f, "{c:+}*{a:?}")?; }
        write!(f, "{:+}", self.k)
    }
}
impl Lin {
    pub fn c(k: i128) -> Lin { Lin { k, co: vec![] } }
    pub fn atom(a: Atom, c: i128) -> Lin { Lin { k: 0, co: vec![(a, c)] } }
    pub fn add(&self, o: &Lin, f: i128) -> Lin {
        let mut m: std::collections::BTreeMap<Atom, i128> = self.co.iter().cloned().collect();
        for (a, c) in &o.co { *m.entry(a.clone()).or_insert(0) += c * f; }
        m.retain(|_, c| *c != 0);
        Lin { k: self.k + o.k * f, co: m.into_iter().collect() }
    }
    pub fn plus(&self, k: i128) -> Lin { Lin { k: self.k + k, co: self.co.clone() } }
    pub fn mul(&self, f: i128) -> Lin { if f == 0 { Lin::c(0) } else { Lin { k: self.k * f, co: self.co.iter().map(|(a, c)| (a.clone(), c * f)).collect() } } }
    /// The quotient by a positive constant, rounded down.
    pub fn quot(&self, m: i128) -> Lin {
        if m == 1 { return self.clone(); }
        let y = Lin { k: self.k.div_euclid(m), co: self.co.iter().map(|(a, c)| (a.clone(), c.div_euclid(m))).filter(|x| x.1 != 0).collect() };
        let z = Lin { k: self.k.rem_euclid(m), co: self.co.iter().map(|(a, c)| (a.clone(), c.rem_euclid(m))).filter(|x| x.1 != 0).collect() };
        if z.co.is_empty() { return y; }
        y.add(&Lin::atom(Atom::Quot(Rc::new(z), m), 1), 1)
    }
    pub fn rem(&self, m: i128) -> Lin { self.add(&self.quot(m), -m) }
    /// Every value is a multiple of `m`, by the form alone.
    pub fn multiple_of(&self, m: i128) -> bool { self.k.rem_euclid(m) == 0 && self.co.iter().all(|c| c.1.rem_euclid(m) == 0) }
    pub fn eval(&self, v: &dyn Fn(&Atom) -> i128) -> i128 {
        self.k + self.co.iter().map(|(a, c)| c * match a { Atom::Quot(l, m) => l.eval(v).div_euclid(*m), a => v(a) }).sum::<i128>()
    }
    pub fn atoms(&self, out: &mut std::collections::BTreeSet<Atom>) {
        for (a, _) in &self.co { if out.insert(a.clone()) { if let Atom::Quot(l, _) = a { l.atoms(out); } } }
    }
    fn tight(mut self) -> Lin {
        let g = self.co.iter().fold(0i128, |g, c| gcd(g, c.1.abs()));
        if g > 1 { self.k = self.k.div_euclid(g); for c in &mut self.co { c.1 /= g; } }
        self
    }
    pub fn sc(self) -> Sc { if self.co.is_empty() { Sc::C(self.k as u128) } else { Sc::T(Rc::new(self)) } }
    /// The object and the offset, if the value is an address in an object.
    pub fn split_addr(&self) -> Option<(u32, Lin)> {
        let mut it = self.co.iter().filter_map(|(a, c)| if let Atom::Addr(x) = a { Some((*x, *c)) } else { None });
        let (a, c) = it.next()?;
        if it.next().is_some() || c != align(a) { return None; }
        Some((a, Lin { k: self.k, co: self.co.iter().filter(|x| x.0 != Atom::Addr(a)).cloned().collect() }))
    }
}
fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a } else { gcd(b, a % b) } }

/// The size a block is to grow or shrink to.
pub const NEW: u32 = u32::MAX;
pub const POOL: usize = 400;
#[derive(Default)]
pub struct Ctx {
    pub on: bool,
    /// Bounds of the size, of the offset given back and of the counter.
    pub size: (i128, i128),
    pub off: (i128, i128),
    pub ctr: (i128, i128),
    /// Bounds of the size a block is to grow or shrink to.
    pub new: (i128, i128),
    /// The counter is a multiple of this.
    pub modulus: i128,
    pub aligns: Vec<(u32, i128)>,
    pub assume: Vec<Lin>,
    pub conds: Vec<Lin>,
}
thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }
pub fn on() -> bool { CTX.with(|c| c.borrow().on) }
/// Starts a case: the first symbols of the state stand for facts.
pub fn setup(c: Ctx, doms: &mut Vec<Dom>) {
    assert!(doms.is_empty());
    for _ in 0..POOL { doms.push(Dom::full(2)); }
    CTX.with(|x| *x.borrow_mut() = c);
}
fn align(a: u32) -> i128 { CTX.with(|c| c.borrow().aligns.iter().find(|x| x.0 == a).map_or(1, |x| x.1)) }
pub fn code(b: Base) -> Option<u32> { match b { Base::G(i) => Some(i), Base::H(i) => Some(1 << 20 | i), _ => None } }
pub fn base(c: u32) -> Base { if c >> 20 & 1 == 1 { Base::H(c & 0xfffff) } else { Base::G(c) } }
/// The address of an object of the given alignment.
pub fn addr(b: Base, al: u32) -> Option<Lin> {
    let c = code(b)?;
    CTX.with(|x| { let mut x = x.borrow_mut(); if !x.aligns.iter().any(|y| y.0 == c) { x.aligns.push((c, al as i128)); } });
    Some(Lin::atom(Atom::Addr(c), align(c)))
}
pub fn var(i: u32) -> Lin { let m = if i >= 2 && i != NEW { CTX.with(|c| c.borrow().modulus) } else { 1 }; Lin::atom(Atom::Var(i), m) }

fn bounds(a: &Atom) -> Vec<Lin> {
    let (lo, hi, m) = CTX.with(|c| { let c = c.borrow(); match a { Atom::Var(0) => (c.size.0, c.size.1, 1), Atom::Var(1) => (c.off.0, c.off.1, 1), Atom::Var(NEW) => (c.new.0, c.new.1, 1), Atom::Var(_) => (c.ctr.0, c.ctr.1, c.modulus), Atom::Addr(_) => (1, 1 << 47, 1), Atom::Quot(..) => (0, 0, 0) } });
    if let Atom::Quot(z, m) = a {
        let q = Lin::atom(a.clone(), *m);
        return vec![z.add(&q, -1), q.add(z, -1).plus(m - 1)];
    }
    vec![Lin::atom(a.clone(), m).plus(-lo), Lin::atom(a.clone(), -m).plus(hi)]
}
pub fn facts(doms: &[Dom]) -> Vec<Lin> {
    CTX.with(|c| {
        let c = c.borrow();
        let mut v = c.assume.clone();
        for (i, l) in c.conds.iter().enumerate() {
            match doms[i].single() { Some(1) => v.push(l.clone()), Some(_) => v.push(l.mul(-1).plus(-1)), None => {} }
        }
        v
    })
}
/// No integers satisfy all of `cs` (>= 0). A negative answer means nothing.
fn infeasible(cs: Vec<Lin>) -> bool {
    let mut ats = std::collections::BTreeSet::new();
    for c in &cs { c.atoms(&mut ats); }
    let mut cs = cs;
    for a in &ats { cs.extend(bounds(a)); }
    let mut cs: Vec<Lin> = cs.into_iter().map(|c| c.tight()).collect();
    loop {
        cs.sort();
        cs.dedup();
        // of parallel inequalities keep the strongest
        let mut best: std::collections::BTreeMap<Vec<(Atom, i128)>, i128> = Default::default();
        for c in &cs { let e = best.entry(c.co.clone()).or_insert(c.k); *e = (*e).min(c.k); }
        cs = best.into_iter().map(|(co, k)| Lin { k, co }).collect();
        if cs.iter().any(|c| c.co.is_empty() && c.k < 0) { return true; }
        cs.retain(|c| !c.co.is_empty());
        if cs.is_empty() || cs.len() > 1500 { return false; }
        let mut n: std::collections::BTreeMap<&Atom, (usize, usize)> = Default::default();
        for c in &cs { for (a, k) in &c.co { let e = n.entry(a).or_insert((0, 0)); if *k > 0 { e.0 += 1 } else { e.1 += 1 } } }
        let a = n.iter().min_by_key(|x| x.1 .0 * x.1 .1).map(|x| (*x.0).clone()).unwrap();
        let co = |c: &Lin| c.co.iter().find(|x| x.0 == a).map_or(0, |x| x.1);
        let (with, mut rest): (Vec<Lin>, Vec<Lin>) = cs.into_iter().partition(|c| co(c) != 0);
        for p in with.iter().filter(|c| co(c) > 0) {
            for q in with.iter().filter(|c| co(c) < 0) {
                let (x, y) = (co(p), -co(q));
                let g = gcd(x, y);
                let (Some(_), Some(_)) = (p.k.checked_mul(y / g), q.k.checked_mul(x / g)) else { return false };
                if p.co.iter().any(|c| c.1.checked_mul(y / g).is_none_or(|v| v.abs() > 1 << 120)) || q.co.iter().any(|c| c.1.checked_mul(x / g).is_none_or(|v| v.abs() > 1 << 120)) { return false; }
                rest.push(p.mul(y / g).add(q, x / g).tight());
            }
        }
        cs = rest;
    }
}
/// `l >= 0` holds in every execution the state stands for.
pub fn proved(l: &Lin, doms: &[Dom]) -> bool {
    if l.co.is_empty() { return l.k >= 0; }
    let mut f = facts(doms);
    f.push(l.mul(-1).plus(-1));
    infeasible(f)
}
/// Whether `l >= 0`, or a case distinction.
pub fn decide(l: &Lin, doms: &[Dom]) -> R<bool> {
    if l.co.is_empty() { return Ok(l.k >= 0); }
    let mut l = l.clone().tight();
    let flip = l.co[0].1 < 0;
    if flip { l = l.mul(-1).plus(-1); }
    if let Some(i) = CTX.with(|c| c.borrow().conds.iter().position(|x| *x == l)) {
        if let Some(v) = doms[i].single() { return Ok((v == 1) != flip); }
    }
    if proved(&l, doms) { return Ok(!flip); }
    if proved(&l.mul(-1).plus(-1), doms) { return Ok(flip); }
    let i = CTX.with(|c| { let mut c = c.borrow_mut(); match c.conds.iter().position(|x| *x == l) { Some(i) => i, None => { c.conds.push(l); c.conds.len() - 1 } } });
    if i >= POOL { return unsup("too many distinct conditions"); }
    Err(Need::Split(vec![vec![(i as Sym, Dom::one(2, 0))], vec![(i as Sym, Dom::one(2, 1))]]))
}
/// Values of the unknowns that satisfy all facts and make `goal` (>= 0, or a multiple) false.
pub fn witness(doms: &[Dom], vars: &[u32], goal: &dyn Fn(&dyn Fn(&Atom) -> i128) -> bool) -> Option<String> {
    let f = facts(doms);
    let (size, off, ctr, new, m) = CTX.with(|c| { let c = c.borrow(); (c.size, c.off, c.ctr, c.new, c.modulus) });
    let mut pts: Vec<i128> = vec![0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 33, 63, 64, 65, 100, 127, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 8193, ctr.1 / 2, ctr.1 - 4097, ctr.1 - 4096, ctr.1 - 4095, ctr.1 - 17, ctr.1 - 16, ctr.1 - 2, ctr.1 - 1, ctr.1, ctr.1 + 1, ctr.1 + 16, ctr.1 + 4096, (1 << 32) - 1, 1 << 32, size.1 - 1, size.1];
    pts.sort(); pts.dedup();
    let grid: Vec<Vec<i128>> = vars.iter().map(|v| {
        let (lo, hi, m) = match v { 0 => (size.0, size.1, 1), 1 => (off.0, off.1, 1), &NEW => (new.0, new.1, 1), _ => (ctr.0, ctr.1, m) };
        let mut g: Vec<i128> = pts.iter().map(|p| p / m).filter(|p| p * m >= lo && p * m <= hi).collect();
        g.dedup();
        g
    }).collect();
    if vars.len() > 4 { return None; }
    let mut ix = vec![0usize; vars.len()];
    loop {
        let val = |a: &Atom| -> i128 { match a { Atom::Var(v) => vars.iter().position(|x| x == v).map_or(0, |p| grid[p][ix[p]]), Atom::Addr(_) => 0x1235, _ => 0 } };
        if f.iter().all(|l| l.eval(&val) >= 0) && !goal(&val) {
            return Some(vars.iter().enumerate().map(|(p, v)| format!("{}={}", match v { 0 => "size".to_string(), 1 => "offset".into(), &NEW => "new size".into(), k => format!("counter{}", k - 1) }, grid[p][ix[p]] * if *v >= 2 && *v != NEW { m } else { 1 })).collect::<Vec<_>>().join(" "));
        }
        let mut p = 0;
        loop {
            if p == vars.len() { return None; }
            ix[p] += 1;
            if ix[p] < grid[p].len() { break; }
            ix[p] = 0;
            p += 1;
        }
    }
}

pub fn lin(s: &Sc, doms: &[Dom]) -> R<Lin> {
    match s.norm(doms) {
        Sc::C(x) => if x < 1 << 100 { Ok(Lin::c(x as i128)) } else { unsup("large constant in a term") },
        Sc::T(l) => Ok((*l).clone()),
        s => Err(s.need_const(doms)),
    }
}
fn max(bits: u32) -> R<i128> { if bits > 64 { if bits == 128 { return Ok(1 << 100); } return unsup("width of a term"); } Ok((1i128 << bits) - 1) }
/// The value as a signed integer.
fn signed(l: &Lin, bits: u32, doms: &[Dom]) -> R<Lin> {
    let h = 1i128 << (bits - 1);
    Ok(if decide(&l.plus(-h), doms)? { l.plus(-2 * h) } else { l.clone() })
}
/// Brings a value into the range of an unsigned type.
fn wrap(l: Lin, bits: u32, doms: &[Dom]) -> R<Lin> {
    let m = max(bits)?;
    if !decide(&l, doms)? { return if decide(&l.plus(m + 1), doms)? { Ok(l.plus(m + 1)) } else { unsup("wrapped value") }; }
    if decide(&l.mul(-1).plus(m), doms)? { return Ok(l); }
    if decide(&l.mul(-1).plus(2 * m + 1), doms)? { return Ok(l.plus(-m - 1)); }
    Ok(l.rem(m + 1))
}
fn and_mask(a: &Lin, mask: u128) -> Lin {
    let mut r = Lin::c(0);
    let mut i = 0;
    while i < 128 {
        if mask >> i & 1 == 0 { i += 1; continue; }
        let mut j = i;
        while j < 128 && mask >> j & 1 == 1 { j += 1; }
        // bits i..j
        let q = a.quot(1 << i);
        let part = if j >= 64 { q } else { q.rem(1 << (j - i)) };
        r = r.add(&part.mul(1 << i), 1);
        i = j;
    }
    r
}
pub fn binop(op: BOp, bits: u32, sg: bool, a: &Sc, b: &Sc, doms: &[Dom]) -> R<Sc> {
    let (x, y) = (lin(a, doms)?, lin(b, doms)?);
    if bits > 64 && !matches!(op, BOp::Add | BOp::Sub | BOp::Eq | BOp::Ne | BOp::Lt | BOp::Le | BOp::Gt | BOp::Ge) { return unsup("wide arithmetic on a term"); }
    let konst = |l: &Lin| if l.co.is_empty() { Ok(l.k) } else { unsup(format!("{op:?} by an unknown quantity")) };
    Ok(match op {
        BOp::Eq | BOp::Ne => {
            let d = x.add(&y, -1);
            let e = decide(&d, doms)? && decide(&d.mul(-1), doms)?;
            Sc::b(e == (op == BOp::Eq))
        }
        BOp::Lt | BOp::Le | BOp::Gt | BOp::Ge | BOp::Cmp => {
            let (x, y) = if sg { (signed(&x, bits, doms)?, signed(&y, bits, doms)?) } else { (x, y) };
            let d = x.add(&y, -1);
            match op {
                BOp::Ge => Sc::b(decide(&d, doms)?),
                BOp::Lt => Sc::b(!decide(&d, doms)?),
                BOp::Le => Sc::b(decide(&d.mul(-1), doms)?),
                BOp::Gt => Sc::b(!decide(&d.mul(-1), doms)?),
                _ => if !decide(&d, doms)? { Sc::C(0xff) } else if decide(&d.mul(-1), doms)? { Sc::C(0) } else { Sc::C(1) },
            }
        }
        BOp::Add => wrap(x.add(&y, 1), bits, doms)?.sc(),
        BOp::Sub => wrap(x.add(&y, -1), bits, doms)?.sc(),
        BOp::Mul => { let (l, c) = if x.co.is_empty() { (y, x.k) } else { let c = konst(&y)?; (x, c) }; wrap(l.mul(c), bits, doms)?.sc() }
        BOp::Div => { let d = konst(&y)?; if sg || d == 0 { return unsup("division of a term"); } x.quot(d).sc() }
        BOp::Rem => { let d = konst(&y)?; if sg || d == 0 { return unsup("remainder of a term"); } x.rem(d).sc() }
        BOp::Shl => { let s = konst(&y)? as u32 % bits; wrap(x.mul(1 << s), bits, doms)?.sc() }
        BOp::Shr => { let s = konst(&y)? as u32 % bits; if sg { return unsup("signed shift of a term"); } x.quot(1 << s).sc() }
        BOp::And | BOp::Or | BOp::Xor => {
            let (l, c) = if x.co.is_empty() { (y, x.k) } else { let c = konst(&y)?; (x, c) };
            let m = and_mask(&l, c as u128);
            match op { BOp::And => m, BOp::Or => l.plus(c).add(&m, -1), _ => l.plus(c).add(&m, -2) }.sc()
        }
    })
}
pub fn overflow(op: BOp, bits: u32, sg: bool, a: &Sc, b: &Sc, doms: &[Dom]) -> R<Sc> {
    let (x, y) = (lin(a, doms)?, lin(b, doms)?);
    let m = max(bits)?;
    if matches!(op, BOp::Shl | BOp::Shr) { if !y.co.is_empty() { return unsup("shift by an unknown quantity"); } return Ok(Sc::b(y.k >= bits as i128)); }
    if matches!(op, BOp::Div | BOp::Rem) && !sg { return Ok(Sc::C(0)); }
    let (x, y, lo, hi) = if sg { (signed(&x, bits, doms)?, signed(&y, bits, doms)?, -(m / 2) - 1, m / 2) } else { (x, y, 0, m) };
    let r = match op {
        BOp::Add => x.add(&y, 1),
        BOp::Sub => x.add(&y, -1),
        BOp::Mul if x.co.is_empty() => y.mul(x.k),
        BOp::Mul if y.co.is_empty() => x.mul(y.k),
        _ => return unsup("product of unknown quantities"),
    };
    Ok(Sc::b(!(decide(&r.plus(-lo), doms)? && decide(&r.mul(-1).plus(hi), doms)?)))
}
pub fn not(bits: u32, l: &Lin) -> R<Sc> { Ok(l.mul(-1).plus(max(bits)?).sc()) }
pub fn cast(l: &Lin, from: u32, fs: bool, to: u32, doms: &[Dom]) -> R<Sc> {
    if to > from && fs { return wrap(signed(l, from, doms)?, to, doms).map(|l| l.sc()); }
    if to >= from { return Ok(l.clone().sc()); }
    if decide(&l.mul(-1).plus(max(to)?), doms)? { return Ok(l.clone().sc()); }
    Ok(l.rem(max(to)? + 1).sc())
}
