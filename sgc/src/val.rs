//! Abstract values: the relational finite-value domain.
//!
//! A *symbol* ranges over a finite domain `0..n` (the contents of a square, a kind, one bit of a set ...).
//! A scalar is a constant, a table over one symbol, a vector of Boolean functions of symbols (one per bit),
//! an affine function of a wide symbol, or a population count. A state additionally restricts every symbol
//! to a subset of its domain; branches refine these subsets, joins take their union.
use std::rc::Rc;

pub type Sym = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum DomK {
    Mask(u64),          // n <= 64
    Full,               // n > 64
    One(u32),           // n > 64
    Set(Rc<Vec<u64>>),  // n > 64
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Dom {
    pub n: u32,
    pub k: DomK,
}

#[inline]
pub fn low_mask(n: u32) -> u64 {
    if n >= 64 { !0 } else { (1u64 << n) - 1 }
}
#[inline]
pub fn wmask(bits: u32) -> u128 {
    if bits >= 128 { !0 } else { (1u128 << bits) - 1 }
}

impl Dom {
    pub fn full(n: u32) -> Dom {
        Dom { n, k: if n <= 64 { DomK::Mask(low_mask(n)) } else { DomK::Full } }
    }
    pub fn one(n: u32, i: u32) -> Dom {
        Dom { n, k: if n <= 64 { DomK::Mask(1 << i) } else { DomK::One(i) } }
    }
    #[inline]
    pub fn single(&self) -> Option<u32> {
        match &self.k {
            DomK::Mask(m) => if m.count_ones() == 1 { Some(m.trailing_zeros()) } else { None },
            DomK::One(i) => Some(*i),
            _ => None,
        }
    }
    #[inline]
    pub fn contains(&self, i: u32) -> bool {
        match &self.k {
            DomK::Mask(m) => m >> i & 1 == 1,
            DomK::Full => i < self.n,
            DomK::One(j) => i == *j,
            DomK::Set(s) => s[i as usize / 64] >> (i % 64) & 1 == 1,
        }
    }
    pub fn is_empty(&self) -> bool {
        match &self.k {
            DomK::Mask(m) => *m == 0,
            DomK::Set(s) => s.iter().all(|x| *x == 0),
            _ => false,
        }
    }
    pub fn count(&self) -> u32 {
        match &self.k {
            DomK::Mask(m) => m.count_ones(),
            DomK::Full => self.n,
            DomK::One(_) => 1,
            DomK::Set(s) => s.iter().map(|x| x.count_ones()).sum(),
        }
    }
    pub fn for_each(&self, mut f: impl FnMut(u32)) {
        match &self.k {
            DomK::Mask(m) => {
                let mut m = *m;
                while m != 0 {
                    f(m.trailing_zeros());
                    m &= m - 1;
                }
            }
            DomK::Full => for i in 0..self.n { f(i) },
            DomK::One(i) => f(*i),
            DomK::Set(s) => {
                for (w, x) in s.iter().enumerate() {
                    let mut m = *x;
                    while m != 0 {
                        f(w as u32 * 64 + m.trailing_zeros());
                        m &= m - 1;
                    }
                }
            }
        }
    }
    pub fn to_vec(&self) -> Vec<u32> {
        let mut v = Vec::new();
        self.for_each(|i| v.push(i));
        v
    }
    pub fn first(&self) -> Option<u32> {
        match &self.k {
            DomK::Mask(m) => if *m == 0 { None } else { Some(m.trailing_zeros()) },
            DomK::Full => Some(0),
            DomK::One(i) => Some(*i),
            DomK::Set(s) => s.iter().enumerate().find(|(_, x)| **x != 0).map(|(w, x)| w as u32 * 64 + x.trailing_zeros()),
        }
    }
    pub fn from_iter(n: u32, it: impl Iterator<Item = u32>) -> Dom {
        if n <= 64 {
            let mut m = 0;
            for i in it { m |= 1u64 << i; }
            Dom { n, k: DomK::Mask(m) }
        } else {
            let mut s = vec![0u64; n.div_ceil(64) as usize];
            let mut c = 0u32;
            let mut last = 0;
            for i in it {
                s[i as usize / 64] |= 1 << (i % 64);
                c += 1;
                last = i;
            }
            if c == 1 { Dom { n, k: DomK::One(last) } } else { Dom { n, k: DomK::Set(Rc::new(s)) } }.canon()
        }
    }
    fn canon(self) -> Dom {
        if let DomK::Set(_) = &self.k {
            let c = self.count();
            if c == self.n { return Dom { n: self.n, k: DomK::Full }; }
            if c == 1 { let i = self.first().unwrap(); return Dom { n: self.n, k: DomK::One(i) }; }
        }
        self
    }
    pub fn filter(&self, mut p: impl FnMut(u32) -> bool) -> Dom {
        let v: Vec<u32> = self.to_vec().into_iter().filter(|i| p(*i)).collect();
        Dom::from_iter(self.n, v.into_iter())
    }
    pub fn union(&self, o: &Dom) -> Dom {
        match (&self.k, &o.k) {
            (DomK::Mask(a), DomK::Mask(b)) => Dom { n: self.n, k: DomK::Mask(a | b) },
            (DomK::Full, _) | (_, DomK::Full) => Dom::full(self.n),
            _ => {
                if self == o { return self.clone(); }
                Dom::from_iter(self.n, (0..self.n).filter(|i| self.contains(*i) || o.contains(*i)).collect::<Vec<_>>().into_iter())
            }
        }
    }
    pub fn subset_of(&self, o: &Dom) -> bool {
        match (&self.k, &o.k) {
            (DomK::Mask(a), DomK::Mask(b)) => a & !b == 0,
            (_, DomK::Full) => true,
            _ => self.to_vec().into_iter().all(|i| o.contains(i)),
        }
    }
}

/// A Boolean function of several symbols (or of one with more than 64 values).
#[derive(PartialEq, Eq, Hash, Debug)]
pub struct BF {
    pub syms: Vec<(Sym, u32)>, // ascending
    pub tt: Vec<u64>,          // mixed-radix index, first symbol fastest
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Bit {
    K(bool),
    S { sym: Sym, n: u8, tt: u64 },
    X(Rc<BF>),
}

pub const BF_CAP: u64 = 1 << 16;

impl Bit {
    pub fn of_table(sym: Sym, n: u32, f: impl Fn(u32) -> bool) -> Bit {
        if n <= 64 {
            let mut tt = 0;
            for i in 0..n { if f(i) { tt |= 1u64 << i; } }
            Bit::s(sym, n as u8, tt)
        } else {
            let mut tt = vec![0u64; n.div_ceil(64) as usize];
            let mut ones = 0;
            for i in 0..n { if f(i) { tt[i as usize / 64] |= 1 << (i % 64); ones += 1; } }
            if ones == 0 { Bit::K(false) } else if ones == n { Bit::K(true) } else {
                Bit::X(Rc::new(BF { syms: vec![(sym, n)], tt }))
            }
        }
    }
    #[inline]
    pub fn s(sym: Sym, n: u8, tt: u64) -> Bit {
        if tt == 0 { Bit::K(false) } else if tt == low_mask(n as u32) { Bit::K(true) } else { Bit::S { sym, n, tt } }
    }
    #[inline]
    pub fn not(&self) -> Bit {
        match self {
            Bit::K(b) => Bit::K(!b),
            Bit::S { sym, n, tt } => Bit::S { sym: *sym, n: *n, tt: !tt & low_mask(*n as u32) },
            Bit::X(bf) => {
                let tot: u64 = bf.syms.iter().map(|x| x.1 as u64).product();
                let mut tt: Vec<u64> = bf.tt.iter().map(|x| !x).collect();
                if tot % 64 != 0 { let l = tt.len() - 1; tt[l] &= low_mask((tot % 64) as u32); }
                Bit::X(Rc::new(BF { syms: bf.syms.clone(), tt }))
            }
        }
    }
    pub fn syms(&self) -> Vec<(Sym, u32)> {
        match self {
            Bit::K(_) => vec![],
            Bit::S { sym, n, .. } => vec![(*sym, *n as u32)],
            Bit::X(bf) => bf.syms.clone(),
        }
    }
    pub fn eval(&self, asg: &dyn Fn(Sym) -> u32) -> bool {
        match self {
            Bit::K(b) => *b,
            Bit::S { sym, tt, .. } => tt >> asg(*sym) & 1 == 1,
            Bit::X(bf) => {
                let mut idx = 0u64;
                let mut mul = 1u64;
                for (s, n) in &bf.syms { idx += asg(*s) as u64 * mul; mul *= *n as u64; }
                bf.tt[(idx / 64) as usize] >> (idx % 64) & 1 == 1
            }
        }
    }
    /// Combines two bits; None if the product of the domains is too large.
    pub fn op(a: &Bit, b: &Bit, f: impl Fn(bool, bool) -> bool) -> Option<Bit> {
        match (a, b) {
            (Bit::K(x), Bit::K(y)) => return Some(Bit::K(f(*x, *y))),
            (Bit::K(x), o) => {
                return Some(match (f(*x, false), f(*x, true)) {
                    (false, false) => Bit::K(false), (true, true) => Bit::K(true),
                    (false, true) => o.clone(), (true, false) => o.not(),
                });
            }
            (o, Bit::K(y)) => {
                return Some(match (f(false, *y), f(true, *y)) {
                    (false, false) => Bit::K(false), (true, true) => Bit::K(true),
                    (false, true) => o.clone(), (true, false) => o.not(),
                });
            }
            (Bit::S { sym: s1, n, tt: t1 }, Bit::S { sym: s2, tt: t2, .. }) if s1 == s2 => {
                let mut r = 0u64;
                if f(false, false) { r |= !t1 & !t2; }
                if f(false, true) { r |= !t1 & t2; }
                if f(true, false) { r |= t1 & !t2; }
                if f(true, true) { r |= t1 & t2; }
                return Some(Bit::s(*s1, *n, r & low_mask(*n as u32)));
            }
            _ => {}
        }
        let mut syms = a.syms();
        for s in b.syms() { if !syms.iter().any(|x| x.0 == s.0) { syms.push(s); } }
        syms.sort();
        let tot: u64 = syms.iter().map(|x| x.1 as u64).try_fold(1u64, |p, x| p.checked_mul(x)).filter(|p| *p <= BF_CAP)?;
        let mut tt = vec![0u64; tot.div_ceil(64) as usize];
        let mut cur = vec![0u32; syms.len()];
        let mut ones = 0;
        for idx in 0..tot {
            let asg = |s: Sym| cur[syms.iter().position(|x| x.0 == s).unwrap()];
            if f(a.eval(&asg), b.eval(&asg)) { tt[(idx / 64) as usize] |= 1 << (idx % 64); ones += 1; }
            for k in 0..cur.len() {
                cur[k] += 1;
                if cur[k] < syms[k].1 { break; }
                cur[k] = 0;
            }
        }
        Some(if ones == 0 { Bit::K(false) } else if ones == tot { Bit::K(true) } else { Bit::X(Rc::new(BF { syms, tt })) }.reduce())
    }
    /// Drops symbols the function does not depend on.
    fn reduce(self) -> Bit {
        let bf = match &self { Bit::X(bf) => bf.clone(), _ => return self };
        let get = |i: u64| bf.tt[(i / 64) as usize] >> (i % 64) & 1 == 1;
        let tot: u64 = bf.syms.iter().map(|x| x.1 as u64).product();
        let mut mul = 1u64;
        for (k, (_, n)) in bf.syms.iter().enumerate() {
            let n = *n as u64;
            let mut dep = false;
            for i in 0..tot {
                let d = i / mul % n;
                if d != 0 && get(i) != get(i - d * mul) { dep = true; break; }
            }
            if !dep {
                let syms: Vec<_> = bf.syms.iter().enumerate().filter(|(j, _)| *j != k).map(|x| *x.1).collect();
                let nt = tot / n;
                let mut tt = vec![0u64; nt.div_ceil(64) as usize];
                for i in 0..nt {
                    let lo = i % mul;
                    let hi = i / mul;
                    if get(hi * mul * n + lo) { tt[(i / 64) as usize] |= 1 << (i % 64); }
                }
                if syms.is_empty() { return Bit::K(tt[0] & 1 == 1); }
                return Bit::mk(syms, tt).reduce();
            }
            mul *= n;
        }
        Bit::mk(bf.syms.clone(), bf.tt.clone())
    }
    fn mk(syms: Vec<(Sym, u32)>, tt: Vec<u64>) -> Bit {
        if syms.len() == 1 && syms[0].1 <= 64 { return Bit::s(syms[0].0, syms[0].1 as u8, tt[0]); }
        Bit::X(Rc::new(BF { syms, tt }))
    }
    /// The bit under the current domains.
    pub fn norm(&self, doms: &[Dom]) -> Bit {
        match self {
            Bit::K(_) => self.clone(),
            Bit::S { sym, tt, .. } => {
                if let DomK::Mask(m) = doms[*sym as usize].k {
                    if m & tt == 0 { return Bit::K(false); }
                    if m & !tt == 0 { return Bit::K(true); }
                }
                self.clone()
            }
            Bit::X(bf) => {
                // fix the symbols that have one value left
                let fixed = bf.syms.iter().any(|(s, _)| doms[*s as usize].single().is_some());
                if bf.syms.len() == 1 {
                    let d = &doms[bf.syms[0].0 as usize];
                    if let DomK::Full = d.k { return self.clone(); }
                    let (mut t, mut f) = (false, false);
                    d.for_each(|i| if bf.tt[i as usize / 64] >> (i % 64) & 1 == 1 { t = true } else { f = true });
                    return match (t, f) { (true, false) => Bit::K(true), (false, _) => Bit::K(false), _ => self.clone() };
                }
                if !fixed {
                    // constant on the product of the domains?
                    let mut t = false; let mut f = false;
                    prod(&bf.syms.iter().map(|x| doms[x.0 as usize].to_vec()).collect::<Vec<_>>(), &mut |v| {
                        let r = self.eval(&|s| v[bf.syms.iter().position(|x| x.0 == s).unwrap()]);
                        if r { t = true } else { f = true }
                        !(t && f)
                    });
                    return match (t, f) { (true, false) => Bit::K(true), (false, _) => Bit::K(false), _ => self.clone() };
                }
                let rest: Vec<(Sym, u32)> = bf.syms.iter().filter(|(s, _)| doms[*s as usize].single().is_none()).cloned().collect();
                if rest.is_empty() {
                    return Bit::K(self.eval(&|s| doms[s as usize].single().unwrap()));
                }
                let tot: u64 = rest.iter().map(|x| x.1 as u64).product();
                let mut tt = vec![0u64; tot.div_ceil(64) as usize];
                let mut cur = vec![0u32; rest.len()];
                for idx in 0..tot {
                    let r = self.eval(&|s| match rest.iter().position(|x| x.0 == s) { Some(p) => cur[p], None => doms[s as usize].single().unwrap() });
                    if r { tt[(idx / 64) as usize] |= 1 << (idx % 64); }
                    for k in 0..cur.len() {
                        cur[k] += 1;
                        if cur[k] < rest[k].1 { break; }
                        cur[k] = 0;
                    }
                }
                let b = if rest.len() == 1 && rest[0].1 <= 64 { Bit::s(rest[0].0, rest[0].1 as u8, tt[0]) } else { Bit::X(Rc::new(BF { syms: rest, tt })).reduce() };
                b.norm(doms)
            }
        }
    }
    pub fn known(&self) -> Option<bool> {
        if let Bit::K(b) = self { Some(*b) } else { None }
    }
}

/// Enumerates a Cartesian product; stops when `f` returns false.
pub fn prod(doms: &[Vec<u32>], f: &mut dyn FnMut(&[u32]) -> bool) -> bool {
    let mut idx = vec![0usize; doms.len()];
    if doms.iter().any(|d| d.is_empty()) { return true; }
    let mut cur: Vec<u32> = doms.iter().map(|d| d[0]).collect();
    loop {
        if !f(&cur) { return false; }
        let mut k = 0;
        loop {
            if k == doms.len() { return true; }
            idx[k] += 1;
            if idx[k] < doms[k].len() { cur[k] = doms[k][idx[k]]; break; }
            idx[k] = 0;
            cur[k] = doms[k][0];
            k += 1;
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sc {
    C(u128),
    F(Sym, Rc<Vec<u64>>),
    B(Rc<Vec<Bit>>),
    /// (symbol + addend) modulo 2^16; the symbol's domain is 0..2^16.
    Lin(Sym, u64),
    /// Number of true bits.
    Pop(Rc<Vec<Bit>>),
    /// An unbounded quantity.
    T(Rc<crate::term::Lin>),
}

/// A request to refine the domains: the alternatives cover the current state.
pub type Refine = Vec<(Sym, Dom)>;
#[derive(Debug)]
pub enum Need {
    Split(Vec<Refine>),
    Unsup(String),
    /// Undefined behaviour for every value left in the domains.
    Ub(String),
    Panic(String),
    /// No concrete execution reaches this point.
    Dead,
    /// A rule of the property is broken here.
    Viol(String),
    /// A symbol is wanted for the number of these bits that are true.
    Size(Rc<Vec<Bit>>),
}
/// A symbol tied to a set of bits.
#[derive(Clone, PartialEq, Debug)]
pub enum Con {
    /// The number of the first true bit plus one (0: none).
    First(Sym, Rc<Vec<Bit>>),
    /// The number of true bits.
    Size(Sym, Rc<Vec<Bit>>),
}
thread_local! {
    /// The constraints of the state under examination.
    pub static CONS: std::cell::RefCell<Rc<Vec<Con>>> = Default::default();
}
/// Known-true bits, and the bits still open.
pub fn tally(bits: &[Bit], doms: &[Dom]) -> (u32, Vec<Bit>) {
    let (mut t, mut open) = (0, vec![]);
    for b in bits { match b.norm(doms) { Bit::K(true) => t += 1, Bit::K(false) => {}, b => open.push(b) } }
    (t, open)
}
/// The number of true bits by the symbol that stands for it, if there is one.
fn size_of_set(bits: &[Bit], doms: &[Dom]) -> Option<Sc> {
    CONS.with(|c| {
        let cons = c.borrow();
        if cons.is_empty() { return None; }
        let (t, open) = tally(bits, doms);
        for c in cons.iter() {
            if let Con::Size(z, b) = c {
                let (u, o) = tally(b, doms);
                if o == open { return Some(Sc::F(*z, Rc::new((0..=b.len() as u32).map(|k| (k + t).saturating_sub(u) as u64).collect())).norm(doms)); }
            }
        }
        None
    })
}
/// The size range of a set of bits, given what has been found out about it.
pub fn size_range(bits: &[Bit], doms: &[Dom]) -> (u32, u32) {
    if let Some(v) = size_of_set(bits, doms).and_then(|s| s.values(doms)) { return (v[0] as u32, v[v.len() - 1] as u32); }
    let (t, open) = tally(bits, doms);
    (t, t + open.len() as u32)
}
pub type R<T> = Result<T, Need>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Need::Unsup(s.into()))
}
pub fn ub<T>(s: impl Into<String>) -> R<T> {
    Err(Need::Ub(s.into()))
}

pub const SPLIT_CAP: usize = 70000;

pub fn split_by(doms: &[Dom], sym: Sym, class: impl Fn(u32) -> u64) -> Need {
    let d = &doms[sym as usize];
    let mut groups: std::collections::BTreeMap<u64, Vec<u32>> = Default::default();
    d.for_each(|i| groups.entry(class(i)).or_default().push(i));
    if groups.len() < 2 { return Need::Unsup(format!("internal: useless split of symbol {sym}")); }
    Need::Split(groups.into_values().map(|v| vec![(sym, Dom::from_iter(d.n, v.into_iter()))]).collect())
}
/// Refines so that the bit becomes known (or depends on fewer symbols).
pub fn split_bit(doms: &[Dom], b: &Bit) -> Need {
    match b {
        Bit::K(_) => Need::Unsup("internal: split of a known bit".into()),
        Bit::S { sym, tt, .. } => split_by(doms, *sym, |i| tt >> i & 1),
        Bit::X(bf) if bf.syms.len() == 1 => split_by(doms, bf.syms[0].0, |i| bf.tt[i as usize / 64] >> (i % 64) & 1),
        Bit::X(bf) => {
            let mut open: Vec<(Sym, u32)> = bf.syms.iter().filter(|x| doms[x.0 as usize].single().is_none()).cloned().collect();
            open.sort_by_key(|x| doms[x.0 as usize].count());
            // classes by residual function, for the first symbol the bit still depends on
            for s in &open {
                let mut seen: Vec<Bit> = vec![];
                let mut cls = std::collections::HashMap::new();
                doms[s.0 as usize].for_each(|i| {
                    let mut d2 = doms.to_vec();
                    d2[s.0 as usize] = Dom::one(s.1, i);
                    let r = b.norm(&d2);
                    let c = seen.iter().position(|x| *x == r).unwrap_or_else(|| { seen.push(r); seen.len() - 1 });
                    cls.insert(i, c as u64);
                });
                if seen.len() > 1 { return split_by(doms, s.0, |i| cls[&i]); }
            }
            split_by(doms, open[0].0, |i| i as u64)
        }
    }
}

impl std::hash::Hash for Sc {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        match self {
            Sc::C(x) => x.hash(h),
            Sc::F(s, t) => { s.hash(h); t[0].hash(h); t[t.len() / 2].hash(h); t[t.len() - 1].hash(h); }
            Sc::B(b) | Sc::Pop(b) => for x in b.iter() { match x { Bit::K(k) => k.hash(h), Bit::S { sym, tt, .. } => { sym.hash(h); tt.hash(h) } Bit::X(f) => f.syms[0].hash(h) } },
            Sc::Lin(s, a) => { s.hash(h); a.hash(h); }
            Sc::T(l) => l.hash(h),
        }
    }
}
impl Sc {
    pub fn b(v: bool) -> Sc { Sc::C(v as u128) }
    pub fn bit(b: Bit) -> Sc {
        match b {
            Bit::K(k) => Sc::C(k as u128),
            Bit::S { sym, n, tt } => Sc::F(sym, Rc::new((0..n as u32).map(|i| tt >> i & 1).collect())),
            b => Sc::B(Rc::new(vec![b])),
        }
    }
    pub fn c(&self) -> Option<u128> { if let Sc::C(x) = self { Some(*x) } else { None } }
    pub fn norm(&self, doms: &[Dom]) -> Sc {
        match self {
            Sc::C(_) | Sc::T(_) => self.clone(),
            Sc::F(s, t) => {
                let d = &doms[*s as usize];
                if let Some(i) = d.single() { return Sc::C(t[i as usize] as u128); }
                if let DomK::Full = d.k { return self.clone(); }
                let first = t[d.first().unwrap() as usize];
                let mut same = true;
                match &d.k {
                    DomK::Mask(m) => {
                        let mut m = *m;
                        while m != 0 { if t[m.trailing_zeros() as usize] != first { same = false; break; } m &= m - 1; }
                    }
                    _ => d.for_each(|i| if t[i as usize] != first { same = false }),
                }
                if same { Sc::C(first as u128) } else { self.clone() }
            }
            Sc::B(bits) => {
                if bits.iter().all(|b| b.known().is_some()) { return Sc::C(bits_const(bits)); }
                let nb: Vec<Bit> = bits.iter().map(|b| b.norm(doms)).collect();
                if nb.iter().all(|b| b.known().is_some()) { return Sc::C(bits_const(&nb)); }
                Sc::B(Rc::new(nb))
            }
            Sc::Lin(s, a) => match doms[*s as usize].single() {
                Some(i) => Sc::C(((i as u64 + a) & 0xffff) as u128),
                None => self.clone(),
            },
            Sc::Pop(bits) => {
                let nb: Vec<Bit> = bits.iter().map(|b| b.norm(doms)).collect();
                if nb.iter().all(|b| b.known().is_some()) { return Sc::C(nb.iter().filter(|b| b.known() == Some(true)).count() as u128); }
                if let Some(s) = size_of_set(&nb, doms) { return s; }
                Sc::Pop(Rc::new(nb))
            }
        }
    }
    pub fn syms(&self) -> Vec<(Sym, u32)> {
        match self {
            Sc::C(_) | Sc::T(_) => vec![],
            Sc::F(s, t) => vec![(*s, t.len() as u32)],
            Sc::Lin(s, _) => vec![(*s, 65536)],
            Sc::B(b) | Sc::Pop(b) => {
                let mut v: Vec<(Sym, u32)> = b.iter().flat_map(|x| x.syms()).collect();
                v.sort();
                v.dedup();
                v
            }
        }
    }
    pub fn eval(&self, asg: &dyn Fn(Sym) -> u32) -> u128 {
        match self {
            Sc::C(x) => *x,
            Sc::T(_) => panic!("value of a term"),
            Sc::F(s, t) => t[asg(*s) as usize] as u128,
            Sc::Lin(s, a) => ((asg(*s) as u64 + a) & 0xffff) as u128,
            Sc::B(b) => b.iter().enumerate().fold(0, |r, (i, x)| r | (x.eval(asg) as u128) << i),
            Sc::Pop(b) => b.iter().filter(|x| x.eval(asg)).count() as u128,
        }
    }
    /// As a table over one symbol, if it depends on one symbol only.
    pub fn to_fn(&self) -> Option<(Sym, Rc<Vec<u64>>)> {
        match self {
            Sc::F(s, t) => Some((*s, t.clone())),
            Sc::Lin(s, a) => Some((*s, Rc::new((0..65536u64).map(|i| (i + a) & 0xffff).collect()))),
            Sc::B(_) | Sc::Pop(_) => {
                if let Sc::B(b) = self { if b.len() > 64 && b[64..].iter().any(|x| x.known() != Some(false)) { return None; } }
                let mut one: Option<(Sym, u32)> = None;
                let bits = match self { Sc::B(b) | Sc::Pop(b) => b, _ => unreachable!() };
                for b in bits.iter() {
                    let s = match b {
                        Bit::K(_) => continue,
                        Bit::S { sym, n, .. } => (*sym, *n as u32),
                        Bit::X(bf) if bf.syms.len() == 1 => bf.syms[0],
                        _ => return None,
                    };
                    match one { None => one = Some(s), Some(o) if o == s => {}, _ => return None }
                }
                let (s, n) = one?;
                Some((s, Rc::new((0..n).map(|i| self.eval(&|_| i) as u64).collect())))
            }
            Sc::C(_) | Sc::T(_) => None,
        }
    }
    pub fn to_bits(&self, w: u32) -> Vec<Bit> {
        match self {
            Sc::C(x) => (0..w).map(|i| Bit::K(x >> i & 1 == 1)).collect(),
            Sc::F(s, t) => {
                let n = t.len() as u32;
                (0..w).map(|i| if i >= 64 { Bit::K(false) } else { Bit::of_table(*s, n, |j| t[j as usize] >> i & 1 == 1) }).collect()
            }
            Sc::B(b) => {
                let mut v: Vec<Bit> = b.iter().take(w as usize).cloned().collect();
                while v.len() < w as usize { v.push(Bit::K(false)); }
                v
            }
            Sc::Lin(..) => {
                let (s, t) = self.to_fn().unwrap();
                Sc::F(s, t).to_bits(w)
            }
            Sc::Pop(_) => panic!("to_bits of a population count"),
            Sc::T(_) => panic!("bits of a term"),
        }
    }
    pub fn from_bits(b: Vec<Bit>) -> Sc {
        if b.iter().all(|x| x.known().is_some()) { return Sc::C(bits_const(&b)); }
        Sc::B(Rc::new(b))
    }
    /// Requests a refinement after which this scalar is closer to a constant.
    pub fn need_const(&self, doms: &[Dom]) -> Need {
        match self {
            Sc::C(_) => Need::Unsup("internal: constant already".into()),
            Sc::T(_) => Need::Unsup("the value of an unknown size, address or counter is needed".into()),
            Sc::F(s, t) => split_by(doms, *s, |i| t[i as usize]),
            Sc::Lin(s, _) => split_by(doms, *s, |i| i as u64),
            Sc::Pop(b) => match self.norm(doms) {
                Sc::Pop(_) => {
                    if let Some((s, t)) = self.to_fn() { return split_by(doms, s, |i| t[i as usize]); }
                    Need::Size(Rc::new(tally(b, doms).1))
                }
                s => s.need_const(doms),
            },
            Sc::B(b) => {
                if let Some((s, t)) = self.to_fn() {
                    return split_by(doms, s, |i| t[i as usize]);
                }
                for x in b.iter() {
                    if let b @ (Bit::S { .. } | Bit::X(_)) = x.norm(doms) { return split_bit(doms, &b); }
                }
                Need::Unsup("internal: nothing to split".into())
            }
        }
    }
    /// The constant value, or a refinement request.
    pub fn konst(&self, doms: &[Dom]) -> R<u128> {
        match self.norm(doms) {
            Sc::C(x) => Ok(x),
            s => Err(s.need_const(doms)),
        }
    }
    /// All values the scalar can take (None if too many to say).
    pub fn values(&self, doms: &[Dom]) -> Option<Vec<u128>> {
        match self.norm(doms) {
            Sc::C(x) => Some(vec![x]),
            Sc::F(s, t) => {
                let mut v = vec![];
                doms[s as usize].for_each(|i| v.push(t[i as usize] as u128));
                v.sort(); v.dedup();
                Some(v)
            }
            Sc::T(_) => None,
            s @ (Sc::B(_) | Sc::Pop(_) | Sc::Lin(..)) => {
                let sy = s.syms();
                let tot: u64 = sy.iter().map(|x| doms[x.0 as usize].count() as u64).try_fold(1u64, |p, x| p.checked_mul(x)).filter(|p| *p <= 1 << 20)?;
                let _ = tot;
                let mut v = vec![];
                let ds: Vec<Vec<u32>> = sy.iter().map(|x| doms[x.0 as usize].to_vec()).collect();
                prod(&ds, &mut |a| { v.push(s.eval(&|q| a[sy.iter().position(|x| x.0 == q).unwrap()])); true });
                v.sort(); v.dedup();
                Some(v)
            }
        }
    }
}

pub fn bits_const(b: &[Bit]) -> u128 {
    b.iter().enumerate().fold(0, |r, (i, x)| if x.known() == Some(true) { r | 1u128 << i } else { r })
}

pub fn sext(v: u128, bits: u32) -> i128 {
    let s = 128 - bits;
    ((v << s) as i128) >> s
}

/// The scalar with the given value for every value of a symbol.
pub fn mk_fn(s: Sym, t: Vec<u128>) -> Sc {
    if t.iter().all(|x| *x == t[0]) { return Sc::C(t[0]); }
    if t.iter().any(|x| *x > u64::MAX as u128) {
        return Sc::B(Rc::new((0..128).map(|i| Bit::of_table(s, t.len() as u32, |j| t[j as usize] >> i & 1 == 1)).collect()));
    }
    Sc::F(s, Rc::new(t.into_iter().map(|x| x as u64).collect()))
}
/// Applies a function to one scalar through its table.
pub fn map1(a: &Sc, doms: &[Dom], f: impl Fn(u128) -> u128) -> R<Sc> {
    match a.norm(doms) {
        Sc::C(x) => Ok(Sc::C(f(x))),
        a => match a.to_fn() {
            Some((s, t)) => Ok(mk_fn(s, t.iter().map(|x| f(*x as u128)).collect())),
            None => Err(a.need_const(doms)),
        },
    }
}
pub fn map2(a: &Sc, b: &Sc, doms: &[Dom], f: impl Fn(u128, u128) -> u128) -> R<Sc> {
    let (a, b) = (a.norm(doms), b.norm(doms));
    match (&a, &b) {
        (Sc::C(x), Sc::C(y)) => return Ok(Sc::C(f(*x, *y))),
        (Sc::C(x), _) => { let x = *x; return map1(&b, doms, |y| f(x, y)); }
        (_, Sc::C(y)) => { let y = *y; return map1(&a, doms, |x| f(x, y)); }
        _ => {}
    }
    match (a.to_fn(), b.to_fn()) {
        (Some((s1, t1)), Some((s2, t2))) => {
            if s1 == s2 {
                return Ok(mk_fn(s1, t1.iter().zip(t2.iter()).map(|(x, y)| f(*x as u128, *y as u128)).collect()));
            }
            let distinct = |s: Sym, t: &Rc<Vec<u64>>| { let mut v = vec![]; doms[s as usize].for_each(|i| v.push(t[i as usize])); v.sort(); v.dedup(); v.len() };
            if distinct(s1, &t1) <= distinct(s2, &t2) { Err(a.need_const(doms)) } else { Err(b.need_const(doms)) }
        }
        (None, _) => Err(a.need_const(doms)),
        (_, None) => Err(b.need_const(doms)),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BOp { Add, Sub, Mul, Div, Rem, And, Or, Xor, Shl, Shr, Eq, Ne, Lt, Le, Gt, Ge, Cmp }

/// Reference semantics on constants. `bits`/`signed` describe the left operand.
pub fn cop(op: BOp, bits: u32, signed: bool, x: u128, y: u128, ybits: u32) -> u128 {
    let m = wmask(bits);
    let (sx, sy) = (sext(x, bits), sext(y, bits));
    match op {
        BOp::Add => x.wrapping_add(y) & m,
        BOp::Sub => x.wrapping_sub(y) & m,
        BOp::Mul => x.wrapping_mul(y) & m,
        BOp::Div => if y == 0 { 0 } else if signed { sx.wrapping_div(sy) as u128 & m } else { x / y },
        BOp::Rem => if y == 0 { 0 } else if signed { sx.wrapping_rem(sy) as u128 & m } else { x % y },
        BOp::And => x & y,
        BOp::Or => x | y,
        BOp::Xor => x ^ y,
        BOp::Shl => (x << ((y & wmask(ybits)) as u32 % bits)) & m,
        BOp::Shr => { let s = (y & wmask(ybits)) as u32 % bits; if signed { (sx >> s) as u128 & m } else { x >> s } }
        BOp::Eq => (x == y) as u128,
        BOp::Ne => (x != y) as u128,
        BOp::Lt => (if signed { sx < sy } else { x < y }) as u128,
        BOp::Le => (if signed { sx <= sy } else { x <= y }) as u128,
        BOp::Gt => (if signed { sx > sy } else { x > y }) as u128,
        BOp::Ge => (if signed { sx >= sy } else { x >= y }) as u128,
        BOp::Cmp => (if signed { sx.cmp(&sy) } else { x.cmp(&y) }) as i8 as u8 as u128,
    }
}
/// Whether the exact result does not fit (or, for shifts, whether the amount is too large).
pub fn coverflow(op: BOp, bits: u32, signed: bool, x: u128, y: u128, ybits: u32, ysigned: bool) -> bool {
    let (sx, sy) = (sext(x, bits), sext(y, bits));
    match op {
        BOp::Add if signed => sext((sx.wrapping_add(sy)) as u128 & wmask(bits), bits) != sx.wrapping_add(sy) || (bits == 128 && sx.checked_add(sy).is_none()),
        BOp::Sub if signed => sext((sx.wrapping_sub(sy)) as u128 & wmask(bits), bits) != sx.wrapping_sub(sy) || (bits == 128 && sx.checked_sub(sy).is_none()),
        BOp::Mul if signed => match sx.checked_mul(sy) { None => true, Some(p) => sext(p as u128 & wmask(bits), bits) != p },
        BOp::Add => x.checked_add(y).map_or(true, |r| r > wmask(bits)),
        BOp::Sub => y > x,
        BOp::Mul => x.checked_mul(y).map_or(true, |r| r > wmask(bits)),
        BOp::Shl | BOp::Shr => if ysigned { let v = sext(y, ybits); v < 0 || v >= bits as i128 } else { y >= bits as u128 },
        BOp::Div | BOp::Rem => signed && y == wmask(bits) && x == 1u128 << (bits - 1),
        _ => false,
    }
}

pub fn binop(op: BOp, bits: u32, signed: bool, a: &Sc, b: &Sc, ybits: u32, doms: &[Dom]) -> R<Sc> {
    if let (Sc::C(x), Sc::C(y)) = (a, b) { return Ok(Sc::C(cop(op, bits, signed, *x, *y, ybits))); }
    if matches!(a, Sc::T(_)) || matches!(b, Sc::T(_)) { return crate::term::binop(op, bits, signed, a, b, doms); }
    let (a, b) = (a.norm(doms), b.norm(doms));
    let direct = |a: &Sc, b: &Sc| map2(a, b, doms, |x, y| cop(op, bits, signed, x, y, ybits));
    match (&a, &b) {
        (Sc::C(_), Sc::C(_)) => return direct(&a, &b),
        (Sc::F(..), Sc::C(_)) | (Sc::C(_), Sc::F(..)) => return direct(&a, &b),
        (Sc::F(s, _), Sc::F(t, _)) if s == t => return direct(&a, &b),
        (Sc::Lin(s, k), Sc::C(y)) if op == BOp::Add => return Ok(Sc::Lin(*s, (k + *y as u64) & 0xffff)),
        (Sc::C(y), Sc::Lin(s, k)) if op == BOp::Add => return Ok(Sc::Lin(*s, (k + *y as u64) & 0xffff)),
        (Sc::Lin(s, k), Sc::C(y)) if op == BOp::Sub => return Ok(Sc::Lin(*s, (k + 0x10000 - *y as u64) & 0xffff)),
        (Sc::Lin(s, k), Sc::Lin(t, l)) if s == t && matches!(op, BOp::Eq | BOp::Ne) => return Ok(Sc::b((k == l) == (op == BOp::Eq))),
        (Sc::Lin(s, k), Sc::Lin(t, l)) if s != t && !signed && matches!(op, BOp::Eq | BOp::Ne | BOp::Lt | BOp::Le | BOp::Gt | BOp::Ge) => {
            let range = |s: Sym, k: u64| { let (mut a, mut b) = (u64::MAX, 0); doms[s as usize].for_each(|i| { let v = (i as u64 + k) & 0xffff; a = a.min(v); b = b.max(v); }); (a, b) };
            let ((a, b), (c, d)) = (range(*s, *k), range(*t, *l));
            let r = match op {
                BOp::Eq | BOp::Ne if b < c || d < a => Some(op == BOp::Ne),
                BOp::Lt | BOp::Le if b < c => Some(true),
                BOp::Lt | BOp::Le if d < a => Some(false),
                BOp::Gt | BOp::Ge if d < a => Some(true),
                BOp::Gt | BOp::Ge if b < c => Some(false),
                _ => None,
            };
            if let Some(r) = r { return Ok(Sc::b(r)); }
            // lengths 0 to 2 one by one; for two longer ones the comparison is not followed
            for q in [*s, *t] {
                let mut small = false;
                doms[q as usize].for_each(|i| small |= i < 3);
                if small { return Err(split_by(doms, q, |i| i.min(3) as u64)); }
            }
            return unsup("comparison of two unknown lengths");
        }
        (Sc::Pop(x), Sc::Pop(y)) if op == BOp::Add => {
            if (x.len() + y.len()) as u128 <= wmask(bits) {
                return Ok(Sc::Pop(Rc::new(x.iter().chain(y.iter()).cloned().collect())));
            }
        }
        (Sc::Pop(x), Sc::C(y)) | (Sc::C(y), Sc::Pop(x)) if op == BOp::Add && *y < 64 => {
            let mut v: Vec<Bit> = x.to_vec();
            for _ in 0..*y { v.push(Bit::K(true)); }
            return Ok(Sc::Pop(Rc::new(v)));
        }
        _ => {}
    }
    if let (Sc::Pop(x), Sc::C(y)) = (&a, &b) {
        let (lo, hi) = size_range(x, doms);
        let (lo, hi, y) = (lo as u128, hi as u128, *y);
        let r = match op {
            BOp::Lt if hi < y => Some(true), BOp::Lt if lo >= y => Some(false),
            BOp::Le if hi <= y => Some(true), BOp::Le if lo > y => Some(false),
            BOp::Gt if lo > y => Some(true), BOp::Gt if hi <= y => Some(false),
            BOp::Ge if lo >= y => Some(true), BOp::Ge if hi < y => Some(false),
            BOp::Eq | BOp::Ne if y > hi || y < lo => Some(op == BOp::Ne),
            _ => None,
        };
        if let Some(r) = r { if !signed { return Ok(Sc::b(r)); } }
    }
    if matches!(a, Sc::Pop(_)) || matches!(b, Sc::Pop(_)) {
        return direct(&a, &b);
    }
    match op {
        BOp::And | BOp::Or | BOp::Xor => {
            let (x, y) = (a.to_bits(bits), b.to_bits(bits));
            let mut r = Vec::with_capacity(bits as usize);
            for i in 0..bits as usize {
                let o = match op {
                    BOp::And => Bit::op(&x[i], &y[i], |p, q| p & q),
                    BOp::Or => Bit::op(&x[i], &y[i], |p, q| p | q),
                    _ => Bit::op(&x[i], &y[i], |p, q| p ^ q),
                };
                match o {
                    Some(b) => r.push(b),
                    None => return Err(split_bit(doms, if matches!(x[i], Bit::K(_)) { &y[i] } else { &x[i] })),
                }
            }
            return Ok(Sc::from_bits(r));
        }
        BOp::Shl | BOp::Shr => {
            if let (Sc::B(x), Sc::C(y)) = (&a, &b) {
                let s = (y & wmask(ybits)) as u32 % bits;
                let mut x: Vec<Bit> = x.to_vec();
                while x.len() < bits as usize { x.push(Bit::K(false)); }
                let top = x[bits as usize - 1].clone();
                let get = |i: i64| if i < 0 { Bit::K(false) } else if i >= bits as i64 { if signed { top.clone() } else { Bit::K(false) } } else { x[i as usize].clone() };
                let r = (0..bits as i64).map(|i| if op == BOp::Shl { get(i - s as i64) } else { get(i + s as i64) }).collect();
                return Ok(Sc::from_bits(r));
            }
            if let Sc::C(_) = b { return direct(&a, &b); }
            if a.to_fn().is_some() && b.to_fn().is_some() { return direct(&a, &b); }
            return Err(b.need_const(doms));
        }
        BOp::Eq | BOp::Ne => {
            if let (Some((s, _)), Some((t, _))) = (a.to_fn(), b.to_fn()) { if s == t { return direct(&a, &b); } }
            if matches!(b, Sc::C(_)) && a.to_fn().is_some() || matches!(a, Sc::C(_)) && b.to_fn().is_some() { return direct(&a, &b); }
            let e = bits_eq(&a.to_bits(bits), &b.to_bits(bits), doms)?;
            return Ok(Sc::bit(if op == BOp::Eq { e } else { e.not() }));
        }
        BOp::Lt | BOp::Le | BOp::Gt | BOp::Ge | BOp::Cmp => {
            if a.to_fn().is_some() && b.to_fn().is_some() || a.c().is_some() && b.to_fn().is_some() || b.c().is_some() && a.to_fn().is_some() {
                if let (Some((s, _)), Some((t, _))) = (a.to_fn(), b.to_fn()) { if s != t { return cmp_bits(op, bits, signed, &a, &b, doms); } }
                return direct(&a, &b);
            }
            return cmp_bits(op, bits, signed, &a, &b, doms);
        }
        BOp::Add | BOp::Sub => {
            if matches!(a, Sc::B(_)) && a.to_fn().is_none() || matches!(b, Sc::B(_)) && b.to_fn().is_none() {
                let x = a.to_bits(bits);
                let y = b.to_bits(bits);
                let mut carry = Bit::K(op == BOp::Sub);
                let mut r = Vec::new();
                for i in 0..bits as usize {
                    let yi = if op == BOp::Sub { y[i].not() } else { y[i].clone() };
                    let p = lop(&x[i], &yi, |p, q| p ^ q, doms)?;
                    r.push(lop(&p, &carry, |p, q| p ^ q, doms)?);
                    let g = lop(&x[i], &yi, |p, q| p & q, doms)?;
                    let h = lop(&p, &carry, |p, q| p & q, doms)?;
                    carry = lop(&g, &h, |p, q| p | q, doms)?;
                }
                return Ok(Sc::from_bits(r));
            }
        }
        _ => {}
    }
    direct(&a, &b)
}

fn lop(a: &Bit, b: &Bit, f: impl Fn(bool, bool) -> bool, doms: &[Dom]) -> R<Bit> {
    let (a, b) = (a.norm(doms), b.norm(doms));
    let small = |x: &Bit| x.syms().len();
    if small(&a) + small(&b) > 6 && a.known().is_none() && b.known().is_none() && small(&a).max(small(&b)) > 2 {
        return Err(split_bit(doms, if small(&a) > small(&b) { &b } else { &a }));
    }
    match Bit::op(&a, &b, f) {
        Some(r) => Ok(r),
        None => Err(split_bit(doms, if matches!(a, Bit::K(_)) { &b } else { &a })),
    }
}

/// Equality of two bit vectors as one Boolean function, refining where it would depend on several symbols.
pub fn bits_eq(x: &[Bit], y: &[Bit], doms: &[Dom]) -> R<Bit> {
    let mut acc = Bit::K(true);
    let mut unknown: Vec<Bit> = vec![];
    for (p, q) in x.iter().zip(y.iter()) {
        let e = match Bit::op(p, q, |a, b| a == b) {
            Some(e) => e.norm(doms),
            None => return Err(split_bit(doms, p)),
        };
        match e {
            Bit::K(true) => {}
            Bit::K(false) => return Ok(Bit::K(false)),
            e => unknown.push(e),
        }
    }
    if unknown.is_empty() { return Ok(acc); }
    // a symbol many bits share is settled first
    if unknown.len() > 2 && unknown.iter().any(|u| matches!(u, Bit::X(b) if b.syms.len() > 1)) {
        let mut cnt: std::collections::HashMap<Sym, u32> = Default::default();
        for u in &unknown { for (s, _) in u.syms() { *cnt.entry(s).or_default() += 1; } }
        let (s, n) = cnt.into_iter().max_by_key(|x| (x.1, x.0)).unwrap();
        if n > 2 && n as usize * 2 > unknown.len() && unknown.iter().any(|u| u.syms().iter().any(|x| x.0 != s)) && doms[s as usize].count() > 1 {
            return Err(split_by(doms, s, |i| i as u64));
        }
    }
    // conjunction of everything about the first unknown bit's symbols
    let first = unknown[0].syms();
    let mut rest = false;
    for u in &unknown {
        if u.syms().iter().all(|s| first.contains(s)) {
            acc = Bit::op(&acc, u, |a, b| a & b).unwrap();
        } else {
            rest = true;
        }
    }
    let acc = acc.norm(doms);
    if !rest || acc == Bit::K(false) { return Ok(acc); }
    if acc == Bit::K(true) { return Err(Need::Unsup("internal: bits_eq".into())); }
    Err(split_bit(doms, &acc))
}

fn cmp_bits(op: BOp, bits: u32, signed: bool, a: &Sc, b: &Sc, doms: &[Dom]) -> R<Sc> {
    let (mut x, mut y) = (a.to_bits(bits), b.to_bits(bits));
    if signed {
        let t = bits as usize - 1;
        x[t] = x[t].not();
        y[t] = y[t].not();
    }
    for i in (0..bits as usize).rev() {
        let e = match Bit::op(&x[i], &y[i], |a, b| a == b) { Some(e) => e.norm(doms), None => return Err(split_bit(doms, &x[i])) };
        match e {
            Bit::K(true) => continue,
            Bit::K(false) => {
                let l = Bit::op(&x[i], &y[i], |a, b| !a & b).unwrap().norm(doms);
                let less = match l { Bit::K(l) => l, l => return Err(split_bit(doms, &l)) };
                return Ok(Sc::C(match op {
                    BOp::Lt | BOp::Le => less as u128,
                    BOp::Gt | BOp::Ge => !less as u128,
                    _ => if less { 0xff } else { 1 },
                }));
            }
            e => return Err(split_bit(doms, &e)),
        }
    }
    Ok(Sc::C(match op { BOp::Lt | BOp::Gt => 0, BOp::Le | BOp::Ge => 1, _ => 0 }))
}

pub fn overflow(op: BOp, bits: u32, signed: bool, a: &Sc, b: &Sc, ybits: u32, ysigned: bool, doms: &[Dom]) -> R<Sc> {
    if matches!(a, Sc::T(_)) || matches!(b, Sc::T(_)) { return crate::term::overflow(op, bits, signed, a, b, doms); }
    let (a, b) = (a.norm(doms), b.norm(doms));
    if matches!(op, BOp::Add | BOp::Sub) {
        if let (Sc::Pop(x), Sc::Pop(y)) = (&a, &b) {
            if op == BOp::Add && (x.len() + y.len()) as u128 <= wmask(bits) { return Ok(Sc::C(0)); }
        }
        if let (Sc::Pop(x), Sc::C(y)) | (Sc::C(y), Sc::Pop(x)) = (&a, &b) {
            if op == BOp::Add && (x.len() as u128 + y) <= wmask(bits) { return Ok(Sc::C(0)); }
        }
        let wide = |s: &Sc| matches!(s, Sc::B(_)) && s.to_fn().is_none();
        if (wide(&a) || wide(&b)) && !signed && !matches!(a, Sc::Pop(_)) && !matches!(b, Sc::Pop(_)) {
            // carry / borrow out
            if op == BOp::Sub { return binop(BOp::Lt, bits, false, &a, &b, bits, doms); }
            let na = Sc::from_bits(a.to_bits(bits).iter().map(|x| x.not()).collect());
            return binop(BOp::Gt, bits, false, &b, &na, bits, doms);
        }
    }
    map2(&a, &b, doms, |x, y| coverflow(op, bits, signed, x, y, ybits, ysigned) as u128)
}

pub fn not(bits: u32, a: &Sc, doms: &[Dom]) -> R<Sc> {
    match a.norm(doms) {
        Sc::T(l) => crate::term::not(bits, &l),
        Sc::B(b) => {
            let mut v: Vec<Bit> = b.iter().map(|x| x.not()).collect();
            while v.len() < bits as usize { v.push(Bit::K(true)); }
            Ok(Sc::from_bits(v))
        }
        a => map1(&a, doms, |x| !x & wmask(bits)),
    }
}
pub fn neg(bits: u32, a: &Sc, doms: &[Dom]) -> R<Sc> {
    match a.norm(doms) {
        a @ Sc::T(_) => binop(BOp::Sub, bits, false, &Sc::C(0), &a, bits, doms),
        a @ Sc::B(_) if a.to_fn().is_none() => binop(BOp::Sub, bits, false, &Sc::C(0), &a, bits, doms),
        a => map1(&a, doms, |x| x.wrapping_neg() & wmask(bits)),
    }
}
pub fn cast(a: &Sc, from: u32, fsigned: bool, to: u32, doms: &[Dom]) -> R<Sc> {
    match a {
        Sc::C(x) => return Ok(Sc::C((if fsigned { sext(*x, from) as u128 } else { *x }) & wmask(to))),
        Sc::Lin(..) if to >= 16 && !fsigned => return Ok(a.clone()),
        Sc::T(l) => return crate::term::cast(l, from, fsigned, to, doms),
        _ => {}
    }
    match a.norm(doms) {
        Sc::B(b) => {
            let mut v: Vec<Bit> = b.to_vec();
            while v.len() < from as usize { v.push(Bit::K(false)); }
            let top = if fsigned { v[from as usize - 1].clone() } else { Bit::K(false) };
            v.truncate(to as usize);
            while v.len() < to as usize { v.push(top.clone()); }
            Ok(Sc::from_bits(v))
        }
        Sc::Pop(b) if (b.len() as u128) <= wmask(to) && (!fsigned || (b.len() as u128) < 1u128 << (from - 1)) => Ok(Sc::Pop(b)),
        Sc::F(s, t) => {
            if to > 64 && fsigned { return unsup("sign extension beyond 64 bits"); }
            Ok(Sc::F(s, Rc::new(t.iter().map(|x| ((if fsigned { sext(*x as u128, from) as u128 } else { *x as u128 }) & wmask(to)) as u64).collect())))
        }
        a => map1(&a, doms, |x| (if fsigned { sext(x, from) as u128 } else { x }) & wmask(to)),
    }
}

pub fn ctpop(bits: u32, a: &Sc, doms: &[Dom]) -> R<Sc> {
    match a.norm(doms) {
        Sc::B(b) => Ok(Sc::Pop(b)),
        a => map1(&a, doms, |x| (x & wmask(bits)).count_ones() as u128),
    }
}
/// Count of trailing (or leading) zeros.
pub fn ctz(bits: u32, leading: bool, a: &Sc, doms: &[Dom]) -> R<Sc> {
    match a.norm(doms) {
        a @ Sc::B(_) if a.to_fn().is_none() => {
            let v = a.to_bits(bits);
            for k in 0..bits {
                let i = if leading { bits - 1 - k } else { k };
                match v[i as usize].norm(doms) {
                    Bit::K(true) => return Ok(Sc::C(k as u128)),
                    Bit::K(false) => {}
                    b => return Err(split_bit(doms, &b)),
                }
            }
            Ok(Sc::C(bits as u128))
        }
        a => map1(&a, doms, |x| if x == 0 { bits as u128 } else if leading { (x.leading_zeros() - (128 - bits)) as u128 } else { x.trailing_zeros() as u128 }),
    }
}
pub fn permute(bits: u32, a: &Sc, doms: &[Dom], p: impl Fn(u32) -> u32) -> R<Sc> {
    match a.norm(doms) {
        Sc::B(b) => {
            let v = Sc::B(b).to_bits(bits);
            Ok(Sc::from_bits((0..bits).map(|i| v[p(i) as usize].clone()).collect()))
        }
        a => map1(&a, doms, |x| (0..bits).fold(0, |r, i| r | (x >> p(i) & 1) << i)),
    }
}
/// Bytes `off..off+len` of a little-endian scalar.
pub fn extract(a: &Sc, off: u32, len: u32, doms: &[Dom]) -> R<Sc> {
    match a {
        Sc::C(x) => Ok(Sc::C(x >> (8 * off) & wmask(8 * len))),
        Sc::B(b) => {
            let mut v: Vec<Bit> = b.iter().skip(8 * off as usize).take(8 * len as usize).cloned().collect();
            while v.len() < 8 * len as usize { v.push(Bit::K(false)); }
            Ok(Sc::from_bits(v))
        }
        _ => map1(a, doms, |x| x >> (8 * off) & wmask(8 * len)),
    }
}
/// Little-endian concatenation of (scalar, byte length).
pub fn concat(parts: &[(Sc, u32)], doms: &[Dom]) -> R<Sc> {
    if parts.iter().all(|p| p.0.c().is_some()) {
        let mut r = 0u128;
        let mut o = 0;
        for (s, l) in parts { r |= s.c().unwrap() << (8 * o); o += l; }
        return Ok(Sc::C(r));
    }
    let mut v = vec![];
    for (s, l) in parts {
        match s {
            Sc::Pop(_) | Sc::T(_) => return Err(s.need_const(doms)),
            _ => v.extend(s.to_bits(8 * l)),
        }
    }
    let r = Sc::from_bits(v);
    if let Some((s, t)) = r.to_fn() { return Ok(Sc::F(s, t)); }
    Ok(r)
}

/// An assignment of symbols under which two scalars differ; splits where that cannot be decided at once.
pub fn differ(a: &Sc, b: &Sc, bits: u32, doms: &[Dom]) -> R<Option<Vec<(Sym, u32)>>> {
    let (a, b) = (a.norm(doms), b.norm(doms));
    if a == b { return Ok(None); }
    if matches!(a, Sc::T(_)) || matches!(b, Sc::T(_)) { return unsup("comparison of terms"); }
    let mut sy = a.syms();
    sy.extend(b.syms());
    sy.sort();
    sy.dedup();
    sy.retain(|s| doms[s.0 as usize].single().is_none());
    let tot = sy.iter().map(|x| doms[x.0 as usize].count() as u64).try_fold(1u64, |p, x| p.checked_mul(x));
    let look = |q: Sym, v: &[u32]| match sy.iter().position(|x| x.0 == q) { Some(p) => v[p], None => doms[q as usize].single().unwrap() };
    if tot.is_some_and(|t| t <= 1 << 17) {
        let ds: Vec<Vec<u32>> = sy.iter().map(|x| doms[x.0 as usize].to_vec()).collect();
        let mut bad = None;
        prod(&ds, &mut |v| {
            if a.eval(&|q| look(q, v)) & wmask(bits) != b.eval(&|q| look(q, v)) & wmask(bits) {
                bad = Some(sy.iter().zip(v).map(|(s, x)| (s.0, *x)).collect());
                return false;
            }
            true
        });
        return Ok(bad);
    }
    if let (Sc::Pop(x), Sc::Pop(y)) = (&a, &b) {
        let key = |v: &Rc<Vec<Bit>>| { let mut k: Vec<String> = v.iter().filter(|b| b.known() != Some(false)).map(|b| format!("{b:?}")).collect(); k.sort(); k };
        if key(x) == key(y) { return Ok(None); }
        return Err(a.need_const(doms));
    }
    if matches!(a, Sc::Pop(_)) { return Err(a.need_const(doms)); }
    if matches!(b, Sc::Pop(_)) { return Err(b.need_const(doms)); }
    let (x, y) = (a.to_bits(bits), b.to_bits(bits));
    for (p, q) in x.iter().zip(&y) {
        let e = lop(p, q, |a, b| a != b, doms)?.norm(doms);
        match e {
            Bit::K(false) => {}
            e => {
                // some assignment makes it true
                let sy = e.syms();
                let ds: Vec<Vec<u32>> = sy.iter().map(|x| doms[x.0 as usize].to_vec()).collect();
                let mut bad = None;
                if sy.is_empty() { return Ok(Some(vec![])); }
                prod(&ds, &mut |v| {
                    if e.eval(&|q| v[sy.iter().position(|x| x.0 == q).unwrap()]) {
                        bad = Some(sy.iter().zip(v).map(|(s, x)| (s.0, *x)).collect());
                        return false;
                    }
                    true
                });
                if bad.is_some() { return Ok(bad); }
            }
        }
    }
    Ok(None)
}
