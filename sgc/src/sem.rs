//! The meaning of values, independent of their representation in memory, and the writing of specifications.
use crate::exec::*;
use crate::gen::*;
use crate::mem::*;
use crate::props::*;
use crate::run::*;
use crate::val::*;
use rustc_middle::ty::{self, Ty};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct PosSem { pub side: Sc, pub ply: Sc, pub hands: [Vec<Sc>; 2], pub cells: Vec<Sc>, pub player: Vec<[Sc; 2]>, pub piece: Vec<[Sc; 2]>, pub last: Sc, pub king: [Sc; 2] }
#[derive(Clone, Debug)]
pub enum Sem {
    /// A number, code (none = 0) or truth value, and its width in bits.
    S(Sc, u32),
    /// A set of squares: the two words of its plain form.
    W([Sc; 2]),
    T(Vec<Sem>),
    /// An alternative and its contents.
    V(u32, Vec<Sem>),
    P(Box<PosSem>),
    /// A growable sequence: unknown prefix (object it came from) and known elements.
    Q(Option<Sym>, Vec<Sem>),
    /// Nothing is known or asked about it.
    O,
}
impl Sem {
    pub fn sc(&self) -> R<Sc> { match self { Sem::S(s, _) => Ok(s.clone()), Sem::T(v) if v.len() == 1 => v[0].sc(), x => unsup(format!("scalar expected: {x:?}").chars().take(80).collect::<String>()) } }
    pub fn set(&self) -> R<[Sc; 2]> { match self { Sem::W(w) => Ok(w.clone()), _ => unsup("set expected") } }
    /// The squares of a set as bits.
    pub fn bits(&self) -> R<Vec<Bit>> {
        let w = self.set()?;
        let mut v: Vec<Bit> = w[0].to_bits(64).into_iter().take(63).collect();
        v.extend(w[1].to_bits(64).into_iter().take(18));
        Ok(v)
    }
    pub fn pos(&self) -> R<&PosSem> { match self { Sem::P(p) => Ok(p), _ => unsup("position expected") } }
    pub fn at(&self, i: usize) -> R<&Sem> { match self { Sem::T(v) | Sem::V(_, v) if i < v.len() => Ok(&v[i]), _ => unsup("component") } }
}
/// A set of squares from bits.
pub fn set_of(bits: &[Bit]) -> Sem {
    let c = bb_chunks(&|i| bits[i as usize].clone(), 0);
    let g = |i: usize| match &c[i].v { V::S(s) => s.clone(), _ => unreachable!() };
    Sem::W([g(0), g(1)])
}
pub fn num(x: u64, bits: u32) -> Sem { Sem::S(Sc::C(x as u128), bits) }
pub fn flat(s: &Sem, path: &str, out: &mut Vec<(String, Sc, u32)>) {
    match s {
        Sem::S(x, n) => out.push((path.into(), x.clone(), *n)),
        Sem::W(w) => for i in 0..2 { out.push((format!("{path}.word{i}"), w[i].clone(), 64)); },
        Sem::T(v) => for (i, x) in v.iter().enumerate() { flat(x, &format!("{path}.{i}"), out); },
        Sem::V(k, v) => {
            out.push((format!("{path}.variant"), Sc::C(*k as u128), 32));
            for (i, x) in v.iter().enumerate() { flat(x, &format!("{path}.{i}"), out); }
        }
        Sem::P(p) => {
            out.push((format!("{path}.side"), p.side.clone(), 8));
            out.push((format!("{path}.ply"), p.ply.clone(), 16));
            for c in 0..2 { for k in 0..p.hands[c].len() { out.push((format!("{path}.hand({})[{}]", ["black", "white"][c], k + 1), p.hands[c][k].clone(), 8)); } }
            for i in 0..81 { out.push((format!("{path}.{}", sq_name(i)), p.cells[i].clone(), 8)); }
            for c in 0..2 { for i in 0..2 { out.push((format!("{path}.player set({}).word{i}", ["black", "white"][c]), p.player[c][i].clone(), 64)); } }
            for c in 0..14 { for i in 0..2 { out.push((format!("{path}.kind set({}).word{i}", c + 1), p.piece[c][i].clone(), 64)); } }
            out.push((format!("{path}.last move"), p.last.clone(), 16));
            for c in 0..2 { out.push((format!("{path}.king({})", ["black", "white"][c]), p.king[c].clone(), 8)); }
        }
        Sem::Q(p, v) => {
            out.push((format!("{path}.sequence"), Sc::C(p.map_or(0, |s| s as u128 + 1)), 64));
            out.push((format!("{path}.pushed"), Sc::C(v.len() as u128), 64));
            for (i, x) in v.iter().enumerate() { flat(x, &format!("{path}[{i}]"), out); }
        }
        Sem::O => {}
    }
}
fn read_s<'tcx>(e: &Engine<'tcx>, st: &State, m: &Mem, off: u32, n: u32) -> R<Sc> {
    let _ = e;
    match m.read(off, n, &st.doms)? { V::S(s) => Ok(s), V::Undef => ub("uninitialised value"), _ => unsup("number expected") }
}
/// Table from the stored code to the meaning (none = 0), for types that are one small scalar.
pub fn code_map<'tcx>(e: &Engine<'tcx>, t: Ty<'tcx>) -> Option<Vec<(u64, u64)>> {
    let tcx = e.lw.tcx;
    let c = codes(e, t)?;
    let id = || c.iter().map(|x| (*x, *x)).collect::<Vec<_>>();
    let ty::Adt(d, args) = t.kind() else { return Some(id()) };
    if is_crate(e, t) || !d.is_enum() || tcx.item_name(d.did()).as_str() == "Ordering" { return Some(id()); }
    // Option, Result and the like
    let mut out = vec![];
    let all_unit = d.variants().iter().all(|v| v.fields.iter().all(|f| e.lw.layout(tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args))).is_ok_and(|l| l.is_zst())));
    let mut k = 0;
    for (i, v) in d.variants().iter_enumerated() {
        let payload = v.fields.iter().map(|f| tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args))).find(|f| e.lw.layout(*f).is_ok_and(|l| !l.is_zst()));
        match payload {
            None => { out.push((c[k], if all_unit { i.as_u32() as u64 } else { 0 })); k += 1; }
            Some(f) => for (raw, m) in code_map(e, f)? {
                // none must differ from every value
                out.push((raw, m));
                k += 1;
            }
        }
    }
    if !all_unit {
        let clash = out.iter().skip(1).any(|x| x.1 == 0);
        if clash { out[0].1 = 256; }
    }
    Some(out)
}
pub fn sem<'tcx>(e: &Engine<'tcx>, st: &State, t: Ty<'tcx>, m: &Mem, off: u32, depth: u32) -> R<Sem> {
    let tcx = e.lw.tcx;
    let Ok(l) = e.lw.layout(t) else { return Ok(Sem::O) };
    if l.is_unsized() || depth > 8 { return Ok(Sem::O); }
    if l.is_zst() { return Ok(Sem::T(vec![])); }
    let size = l.size.bytes() as u32;
    if let Some(map) = code_map(e, t) {
        let s = read_s(e, st, m, off, size)?;
        if map.iter().all(|(a, b)| a == b) { return Ok(Sem::S(s, size * 8)); }
        let h: std::collections::HashMap<u128, u128> = map.iter().map(|(a, b)| (*a as u128, *b as u128)).collect();
        return Ok(Sem::S(map1(&s, &st.doms, |x| *h.get(&x).unwrap_or(&0xdead))?, 16));
    }
    match t.kind() {
        ty::Uint(_) | ty::Int(_) | ty::Char => return Ok(Sem::S(read_s(e, st, m, off, size)?, size * 8)),
        ty::Array(el, n) => {
            let n = n.try_to_target_usize(tcx).unwrap_or(0);
            let s = e.lw.layout(*el).map_err(Need::Unsup)?.size.bytes() as u32;
            return Ok(Sem::T((0..n as u32).map(|i| sem(e, st, *el, m, off + i * s, depth + 1)).collect::<R<_>>()?));
        }
        ty::Tuple(fs) => return Ok(Sem::T(fs.iter().enumerate().map(|(i, f)| sem(e, st, f, m, off + l.fields.offset(i).bytes() as u32, depth + 1)).collect::<R<_>>()?)),
        ty::Ref(_, p, _) | ty::RawPtr(p, _) => {
            let Ok(pl) = e.lw.layout(*p) else { return Ok(Sem::O) };
            if pl.is_unsized() || adt_path(tcx, *p).contains("MaybeUninit") || adt_path(tcx, *p).starts_with("core::fmt") || adt_path(tcx, *p).starts_with("core::hash") { return Ok(Sem::O); }
            if t.is_raw_ptr() && matches!(p.kind(), ty::Uint(_)) { return Ok(Sem::O); }
            let V::P(q) = m.read(off, 8, &st.doms)? else { return ub("pointer expected") };
            let sz = pl.size.bytes() as u32;
            if sz == 0 { return Ok(Sem::T(vec![])); }
            let v = e.read_range(st, Loc { base: q.base, off: q.off }, sz)?;
            return sem(e, st, *p, &v.mem(), 0, depth + 1);
        }
        _ => {}
    }
    let ty::Adt(d, args) = t.kind() else { return Ok(Sem::O) };
    if is_seq(tcx, t) {
        let V::P(Ptr { base: Base::H(o), .. }) = m.read(off, 8, &st.doms)? else { return unsup("sequence") };
        return seq_sem(e, st, t.walk().filter_map(|g| g.as_type()).nth(1), o);
    }
    if adt_path(tcx, t) == "alloc::boxed::Box" {
        let V::P(q) = m.read(off, 8, &st.doms)? else { return Ok(Sem::O) };
        let p = args.type_at(0);
        let sz = e.lw.layout(p).map_err(Need::Unsup)?.size.bytes() as u32;
        let v = e.read_range(st, Loc { base: q.base, off: q.off }, sz)?;
        return sem(e, st, p, &v.mem(), 0, depth + 1);
    }
    if is_crate(e, t) {
        match name_of(e, t).as_str() {
            "Hand" => return Ok(Sem::T((0..7).map(|k| Ok(Sem::S(read_s(e, st, m, off + k, 1)?, 8))).collect::<R<_>>()?)),
            "Bitboard" => return Ok(Sem::W([read_s(e, st, m, off, 8)?, read_s(e, st, m, off + 8, 8)?])),
            "ByteSwappedBitboard" => {
                let w = |o: u32| -> R<Sc> {
                    let s = read_s(e, st, m, off + 8 - o, 8)?;
                    permute(64, &s, &st.doms, |i| (7 - i / 8) * 8 + i % 8)
                };
                return Ok(Sem::W([w(0)?, w(8)?]));
            }
            "PartialPosition" => {
                let p = pos_lay(e, t)?;
                let set = |o: u32| -> R<[Sc; 2]> { Ok([read_s(e, st, m, off + o, 8)?, read_s(e, st, m, off + o + 8, 8)?]) };
                let hand = |c: u32| -> R<Vec<Sc>> { (0..7).map(|k| read_s(e, st, m, off + p.hands + 8 * c + k, 1)).collect() };
                return Ok(Sem::P(Box::new(PosSem {
                    side: read_s(e, st, m, off + p.side, 1)?,
                    ply: read_s(e, st, m, off + p.ply, 2)?,
                    hands: [hand(0)?, hand(1)?],
                    cells: (0..81).map(|i| read_s(e, st, m, off + p.board + i, 1)).collect::<R<_>>()?,
                    player: (0..2).map(|c| set(p.player + 16 * c)).collect::<R<_>>()?,
                    piece: (0..14).map(|c| set(p.piece + 16 * c)).collect::<R<_>>()?,
                    last: read_s(e, st, m, off + p.last, 2)?,
                    king: [read_s(e, st, m, off + p.king, 1)?, read_s(e, st, m, off + p.king + 1, 1)?],
                })));
            }
            _ => {}
        }
    }
    if d.is_struct() {
        return Ok(Sem::T(d.non_enum_variant().fields.iter().enumerate().map(|(i, f)| {
            let ft = tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args));
            sem(e, st, ft, m, off + l.fields.offset(i).bytes() as u32, depth + 1)
        }).collect::<R<_>>()?));
    }
    if d.is_enum() {
        let k = variant(e, st, t, m, off)?;
        let vi = rustc_abi::VariantIdx::from_u32(k);
        let cx = ty::layout::LayoutCx::new(tcx, e.lw.env);
        let vl = l.for_variant(&cx, vi);
        return Ok(Sem::V(k, d.variant(vi).fields.iter().enumerate().map(|(i, f)| {
            let ft = tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args));
            sem(e, st, ft, m, off + vl.fields.offset(i).bytes() as u32, depth + 1)
        }).collect::<R<_>>()?));
    }
    Ok(Sem::O)
}
pub fn seq_sem<'tcx>(e: &Engine<'tcx>, st: &State, el: Option<Ty<'tcx>>, o: u32) -> R<Sem> {
    match &st.heap[o as usize].kind {
        ObjKind::Seq { prefix, items, .. } => {
            let v = match el { Some(el) => items.iter().map(|i| sem(e, st, el, &i.clone().mem(), 0, 1)).collect::<R<_>>()?, None => vec![] };
            Ok(Sem::Q(*prefix, v))
        }
        ObjKind::Freed => ub("use after free"),
        _ => unsup("sequence"),
    }
}

/// A function under analysis.
#[derive(Clone)]
pub struct F<'tcx> { pub key: String, pub fid: u32, pub ins: Vec<Ty<'tcx>>, pub out: Ty<'tcx> }
/// What a specification sees at the end of a path.
pub struct Cx<'a, 'tcx> { pub e: &'a Engine<'tcx>, pub st: &'a State, pub g: &'a Gen, pub f: &'a F<'tcx>, pub retv: &'a Val }
impl<'a, 'tcx> Cx<'a, 'tcx> {
    pub fn arg(&self, i: usize) -> &Sem { &self.g.args[i] }
    pub fn ret(&self) -> R<Sem> { sem(self.e, self.st, self.f.out, &self.retv.clone().mem(), 0, 0) }
    /// What an argument passed by reference is now.
    pub fn post(&self, i: usize) -> R<Sem> { sem(self.e, self.st, self.f.ins[i], &self.g.argv[i].clone().mem(), 0, 0) }
    pub fn same(&self, what: &str, got: &Sem, want: &Sem) -> R<()> { same(self.st, what, got, want) }
    pub fn viol<T>(&self, s: impl Into<String>) -> R<T> { Err(Need::Viol(s.into())) }
    /// Runs another function from this state.
    pub fn nest(&self, f: &F<'tcx>, st: &State, args: Vec<Val>, then: &mut dyn FnMut(&State, &Val) -> R<()>) -> R<()> {
        let mut s = st.clone();
        s.frames = vec![];
        s.marks = vec![];
        self.e.enter(&mut s, f.fid, args)?;
        let mut bad: Option<Need> = None;
        self.e.explore(s, then, &mut |l| {
            if bad.is_some() { return; }
            bad = Some(match l.end {
                End::Panic(x) => Need::Panic(format!("{x} in {}", f.key)),
                End::Ub(x) => Need::Ub(format!("{x} in {}", f.key)),
                End::Viol(x) => Need::Viol(x + &{ let w = witness(self.g, l.st); if w.is_empty() { String::new() } else { format!(" (for {w})") } }),
                End::Unsup(x) => Need::Unsup(x),
            });
        });
        match bad { Some(n) => Err(n), None => Ok(()) }
    }
}
fn show(s: &Sc, st: &State) -> String {
    match s.values(&st.doms) {
        Some(v) if v.len() <= 4 => v.iter().map(|x| if *x > 0xffff { format!("{x:#x}") } else { x.to_string() }).collect::<Vec<_>>().join("|"),
        _ => "…".into(),
    }
}
pub fn same(st: &State, what: &str, got: &Sem, want: &Sem) -> R<()> {
    let (mut a, mut b) = (vec![], vec![]);
    flat(got, what, &mut a);
    flat(want, what, &mut b);
    for (x, y) in a.iter().zip(&b) {
        if x.0 != y.0 && !(x.0.ends_with("variant") && y.0.ends_with("variant")) { return Err(Need::Viol(format!("{}: a different alternative ({}) is expected", x.0, y.0))); }
        if let Some(asg) = differ(&x.1, &y.1, x.2.max(y.2), &st.doms)? {
            let mut doms = (*st.doms).clone();
            for (s, i) in &asg { let n = doms[*s as usize].n; doms[*s as usize] = Dom::one(n, *i); }
            let (p, q) = (x.1.norm(&doms), y.1.norm(&doms));
            let s2 = State { doms: Rc::new(doms), ..st.clone() };
            return Err(Need::Viol(format!("{} is {} where {} is required", x.0, show(&p, &s2), show(&q, &s2))));
        }
    }
    if a.len() != b.len() { return Err(Need::Viol(format!("{what}: the result has another shape than required"))); }
    Ok(())
}
/// Compares a result with a function of the arguments, for every assignment left.
pub fn table(st: &State, ins: &[Sc], got: &[(String, Sc, u32)], f: &dyn Fn(&[u64]) -> Vec<u64>) -> R<()> {
    let ins: Vec<Sc> = ins.iter().map(|s| s.norm(&st.doms)).collect();
    let got: Vec<(String, Sc, u32)> = got.iter().map(|g| (g.0.clone(), g.1.norm(&st.doms), g.2)).collect();
    let mut sy: Vec<(Sym, u32)> = ins.iter().flat_map(|s| s.syms()).chain(got.iter().flat_map(|g| g.1.syms())).collect();
    sy.sort();
    sy.dedup();
    sy.retain(|s| st.doms[s.0 as usize].single().is_none());
    let tot = sy.iter().map(|x| st.doms[x.0 as usize].count() as u64).try_fold(1u64, |p, x| p.checked_mul(x));
    if tot.is_none_or(|t| t > 1 << 19) {
        let s = sy.iter().max_by_key(|x| st.doms[x.0 as usize].count()).unwrap();
        let n = s.1 as u64;
        return Err(split_by(&st.doms, s.0, |i| i as u64 * 16 / n));
    }
    let ds: Vec<Vec<u32>> = sy.iter().map(|x| st.doms[x.0 as usize].to_vec()).collect();
    let mut bad = None;
    prod(&ds, &mut |v| {
        let asg = |q: Sym| match sy.iter().position(|x| x.0 == q) { Some(p) => v[p], None => st.doms[q as usize].first().unwrap() };
        let a: Vec<u64> = ins.iter().map(|s| s.eval(&asg) as u64).collect();
        let want = f(&a);
        let have: Vec<u64> = got.iter().map(|g| (g.1.eval(&asg) & wmask(g.2)) as u64).collect();
        if want != have {
            bad = Some(format!("for ({}) the result is ({}) where ({}) is required", join(&a), join(&have), join(&want)));
            return false;
        }
        true
    });
    match bad { Some(b) => Err(Need::Viol(b)), None => Ok(()) }
}
fn join(v: &[u64]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ") }

pub type Spec<'tcx> = Rc<dyn Fn(&Cx<'_, 'tcx>) -> R<()> + 'tcx>;
impl<'tcx> Px<'tcx> {
    pub fn f_of(&self, key: &str) -> Option<F<'tcx>> {
        let f = self.api.get(key)?;
        let fid = self.e.lw.intern(self.api.inst(f));
        Some(F { key: f.key.clone(), fid, ins: self.inputs(fid), out: self.output(fid) })
    }
    pub fn f(&mut self, key: &str) -> Option<F<'tcx>> {
        let r = self.f_of(key);
        if r.is_none() { self.missing.push((key.to_string(), "no such function in this configuration".into())); }
        r
    }
    pub fn f_inst(&self, key: &str, i: rustc_middle::ty::Instance<'tcx>) -> F<'tcx> {
        let fid = self.e.lw.intern(i);
        F { key: key.into(), fid, ins: self.inputs(fid), out: self.output(fid) }
    }
    pub fn mk(&self, f: &F<'tcx>, spec: Spec<'tcx>) -> Case<'tcx> {
        let inner = gen_args(f.ins.clone(), &f.key);
        let ins = f.ins.clone();
        let build: Build<'tcx> = Rc::new(move |e, st, g| {
            let v = inner(e, st, g)?;
            g.args = v.iter().zip(&ins).map(|(v, t)| sem(e, st, *t, &v.clone().mem(), 0, 0)).collect::<R<_>>()?;
            g.argv = v.clone();
            g.dup = v.iter().zip(&ins).map(|(v, t)| match (v, t.kind()) {
                (Val::S(V::P(p), n), ty::Ref(_, _, m)) if m.is_mut() => match p.base {
                    Base::H(o) => { let c = (*st.heap[o as usize]).clone(); let o = st.alloc(c); Val::S(V::P(Ptr { base: Base::H(o), off: p.off }), *n) }
                    _ => v.clone(),
                },
                _ => v.clone(),
            }).collect();
            Ok(v)
        });
        let f2 = f.clone();
        let check: Check<'tcx> = Rc::new(move |c| spec(&Cx { e: c.e, st: c.st, g: c.g, f: &f2, retv: c.ret }));
        Case { name: f.key.clone(), fid: f.fid, build, check, faults: (true, true), may_fail: false, fix: Default::default(), prep: None }
    }
    /// Adds the obligation that a function meets a specification for all arguments.
    pub fn spec(&mut self, key: &str, spec: impl Fn(&Cx<'_, 'tcx>) -> R<()> + 'tcx) {
        if let Some(f) = self.f(key) { let c = self.mk(&f, Rc::new(spec)); let v = expand(self, c, &f.ins); self.cases.extend(v); }
    }
    /// The same for functions of scalars given by a table.
    pub fn tab(&mut self, keys: &[&str], t: impl Fn(&[u64]) -> Vec<u64> + Clone + 'tcx) {
        for k in keys {
            let t = t.clone();
            self.spec(k, move |c| {
                let mut ins = vec![];
                for a in &c.g.args { let mut v = vec![]; flat(a, "", &mut v); ins.extend(v.into_iter().map(|x| x.1)); }
                let mut got = vec![];
                flat(&c.ret()?, "", &mut got);
                table(c.st, &ins, &got, &t)
            });
        }
    }
    pub fn tab1(&mut self, keys: &[&str], t: impl Fn(&[u64]) -> u64 + Clone + 'tcx) { self.tab(keys, move |a| vec![t(a)]); }
    /// Distinct arguments give distinct results below a bound.
    pub fn injective(&mut self, key: &str, bound: u64) {
        let Some(f) = self.f(key) else { return };
        let f2 = f.clone();
        let mut c = self.mk(&f, Rc::new(move |c| {
            let a = c.ret()?;
            let sa = a.sc()?;
            // a second, arbitrary argument
            let mut st = c.st.clone();
            let mut g = Gen::default();
            let mut args = vec![];
            let mut sems = vec![];
            for t in &f2.ins {
                let v = gen(c.e, &mut st, &mut g, *t, "other")?;
                sems.push(sem(c.e, &st, *t, &v.clone().mem(), 0, 0)?);
                args.push(v);
            }
            let x = c.arg(0).sc()?;
            let y = sems[0].sc()?;
            c.nest(&f2, &st, args, &mut |st, r| {
                let b = sem(c.e, st, f2.out, &r.clone().mem(), 0, 0)?.sc()?;
                table(st, &[x.clone(), y.clone(), sa.clone(), b.clone()], &[("".into(), Sc::C(1), 8)], &|v| vec![((v[0] == v[1]) == (v[2] == v[3]) && v[2] < bound) as u64])
            })
        }));
        c.name = format!("{} (distinct)", f.key);
        self.cases.push(c);
    }
}
