//! The allocator of the freestanding C library: what it hands out is aligned, inside its arena and claimed by one
//! atomic update of the counter, whatever other threads do in between.
use crate::exec::*;
use crate::mem::*;
use crate::mon::Atomic;
use crate::props::Px;
use crate::run::{Case};
use crate::term::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_middle::ty::{self, Ty};
use std::rc::Rc;

#[derive(Clone)]
struct Spec { me: u32, arena: u32, n: i128, arena_align: i128, modulus: i128 }

fn layout_val<'tcx>(e: &Engine<'tcx>, t: Ty<'tcx>, a: u128) -> R<Val> {
    let l = e.lw.layout(t).map_err(Need::Unsup)?;
    let ty::Adt(d, _) = t.kind() else { return unsup("layout") };
    let mut c = vec![];
    for (i, f) in d.non_enum_variant().fields.iter_enumerated() {
        let off = l.fields.offset(i.as_usize()).bytes() as u32;
        match f.name.as_str() { "size" => c.push(Ch { off, len: 8, v: V::S(var(0).sc()) }), "align" => c.push(Ch { off, len: 8, v: V::c(a) }), n => return unsup(format!("field {n} of a layout")) }
    }
    c.sort_by_key(|c| c.off);
    Ok(Val::M(c, 16))
}
fn one(v: &Val) -> R<V> { match v { Val::S(v, 8) => Ok(v.clone()), Val::M(c, 8) if c.len() == 1 => Ok(c[0].v.clone()), _ => unsup("result") } }

/// The goal holds on this path, or there is a counterexample.
fn must(st: &State, l: &Lin, what: &str) -> R<()> {
    if proved(l, &st.doms) { return Ok(()); }
    fails(st, &|v| l.eval(v) >= 0, what)
}
fn fails(st: &State, goal: &dyn Fn(&dyn Fn(&Atom) -> i128) -> bool, what: &str) -> R<()> {
    let mut vars: Vec<u32> = (0..2 + st.mon.fresh).collect();
    if CTX.with(|c| c.borrow().new != (0, 0)) { vars.push(NEW); }
    match crate::term::witness(&st.doms, &vars, goal) {
        Some(w) => Err(Need::Viol(format!("{what} ({w})"))),
        None => unsup(format!("not decided: {what}")),
    }
}
/// The first value of the counter.
fn start<'tcx>(e: &Engine<'tcx>, at: Ptr) -> R<i128> {
    let Base::G(g) = at.base else { return unsup("counter") };
    match e.lw.globals.borrow()[g as usize].mem.read(at.off as u32, 8, &[])? { V::S(Sc::C(x)) => Ok(x as i128), _ => unsup("first value of the counter") }
}
fn check_alloc<'tcx>(e: &Engine<'tcx>, st: &State, ret: &Val, a: i128, s: &Spec) -> R<()> {
    let doms = &st.doms;
    let size = var(0);
    let mut rmw: Vec<(Lin, Lin)> = vec![];
    let mut last = None;
    let mut at = None;
    for (p, ev) in st.mon.atom.iter() {
        at = Some(*p);
        match ev {
            Atomic::Load(x) => last = Some(lin(x, doms)?),
            Atomic::Store(_) => return fails(st, &|_| false, "the counter is overwritten without regard to other threads"),
            Atomic::Rmw(o, n) => {
                let (o, n) = (lin(o, doms)?, lin(n, doms)?);
                last = Some(o.clone());
                let d = o.add(&n, -1);
                if !(proved(&d, doms) && proved(&d.mul(-1), doms)) { rmw.push((o, n)); }
            }
        }
    }
    let i0 = match at { Some(p) => start(e, p)?, None => 0 };
    if let Some(p) = at { if code(p.base) == Some(s.arena) { return unsup("the counter lies inside the arena"); } }
    let down = i0 > 0;
    if at.is_some() && (i0 > s.n || i0.rem_euclid(s.modulus) != 0) { return if i0 > s.n { Err(Need::Viol(format!("the counter starts at {i0}, the arena has {} bytes", s.n))) } else { unsup("counter not a multiple") }; }
    // every update keeps the counter in the arena, and moves it one way only
    for (o, n) in &rmw {
        must(st, n, "the counter leaves the arena")?;
        must(st, &n.mul(-1).plus(s.n), "the counter leaves the arena")?;
        must(st, &(if down { o.add(n, -1) } else { n.add(o, -1) }), "an allocation gives memory back that others may use")?;
        if !n.multiple_of(s.modulus) { return fails(st, &|v| n.eval(v).rem_euclid(s.modulus) == 0, "internal: modulus"); }
    }
    let v = one(ret)?;
    let p = match &v { V::P(_) | V::S(_) => lin(&e.sc(Val::S(v, 8))?, doms)?, _ => return unsup("result") };
    if p.co.is_empty() && p.k == 0 {
        if !rmw.is_empty() { return fails(st, &|_| false, "a refused request changes the counter"); }
        // refused although it fits
        if a <= s.arena_align {
            let Some(r) = last else { return fails(st, &|v| size.eval(v) > s.n - a, "a request that fits is refused") };
            let free = if down { r } else { r.mul(-1).plus(s.n) };
            let slack = a - 1 + s.modulus - 1;
            must(st, &size.add(&free, -1).plus(slack - 1), "a request that fits is refused")?;
        }
        return Ok(());
    }
    let Some((obj, off)) = p.split_addr() else { return unsup("the result is not an address in an object") };
    if obj != s.arena { return unsup("memory from another object than the arena"); }
    must(st, &off, "memory before the arena is handed out")?;
    must(st, &off.add(&size, 1).mul(-1).plus(s.n), "memory beyond the arena is handed out")?;
    if !p.multiple_of(a) { fails(st, &|v| p.eval(v).rem_euclid(a) == 0, "the memory is not aligned as requested")?; }
    if rmw.is_empty() { return fails(st, &|_| false, "memory is handed out without claiming it: another allocation gets it too"); }
    // the memory lies in what one update claimed
    let mut err = None;
    for (o, n) in &rmw {
        let (lo, hi) = if down { (n, o) } else { (o, n) };
        let r = must(st, &off.add(lo, -1), "memory below the claimed range is handed out").and_then(|_| must(st, &hi.add(&off, -1).add(&size, -1), "memory above the claimed range is handed out: it overlaps another allocation"));
        match r { Ok(()) => return Ok(()), Err(x) => err = Some(x) }
    }
    Err(err.unwrap())
}
fn check_dealloc<'tcx>(e: &Engine<'tcx>, st: &State, _s: &Spec) -> R<()> {
    let doms = &st.doms;
    let (size, off) = (var(0), var(1));
    for (p, ev) in st.mon.atom.iter() {
        let down = start(e, *p)? > 0;
        match ev {
            Atomic::Load(_) => {}
            Atomic::Store(_) => return fails(st, &|_| false, "giving memory back overwrites the counter"),
            Atomic::Rmw(o, n) => {
                let (o, n) = (lin(o, doms)?, lin(n, doms)?);
                if !down { return unsup("memory is given back"); }
                if proved(&o.add(&n, -1), doms) && proved(&n, doms) { continue; }
                must(st, &o.add(&off, -1), "giving memory back frees memory of others")?;
                must(st, &off.add(&size, 1).add(&n, -1), "giving memory back frees memory of others")?;
            }
        }
    }
    Ok(())
}
/// A block grows or shrinks: the new block lies in the old one or in what was claimed, and only it is written.
fn check_realloc<'tcx>(e: &Engine<'tcx>, st: &State, ret: &Val, a: i128, s: &Spec) -> R<()> {
    let doms = &st.doms;
    let (size, off, new) = (var(0), Lin::atom(Atom::Var(1), a), var(NEW));
    let mut rmw: Vec<(Lin, Lin)> = vec![];
    let (mut last, mut down) = (None, true);
    for (p, ev) in st.mon.atom.iter() {
        down = start(e, *p)? > 0;
        match ev {
            Atomic::Load(x) => last = Some(lin(x, doms)?),
            Atomic::Store(_) => return fails(st, &|_| false, "the counter is overwritten without regard to other threads"),
            Atomic::Rmw(o, n) => {
                let (o, n) = (lin(o, doms)?, lin(n, doms)?);
                last = Some(o.clone());
                must(st, &n, "the counter leaves the arena")?;
                must(st, &n.mul(-1).plus(s.n), "the counter leaves the arena")?;
                if !proved(&(if down { o.add(&n, -1) } else { n.add(&o, -1) }), doms) { return unsup("memory is given back"); }
                rmw.push(if down { (n, o) } else { (o, n) });
            }
        }
    }
    let p = lin(&e.sc(Val::S(one(ret)?, 8))?, doms)?;
    if p.co.is_empty() && p.k == 0 {
        rmw.retain(|(l, h)| !proved(&l.add(h, -1), doms));
        if !rmw.is_empty() { return fails(st, &|_| false, "a refused request changes the counter"); }
        let Some(r) = last else { return fails(st, &|v| new.eval(v) > s.n - a, "a request that fits is refused") };
        let free = if down { r } else { r.mul(-1).plus(s.n) };
        return must(st, &new.add(&free, -1).plus(a - 1 + s.modulus - 2), "a request that fits is refused");
    }
    let Some((obj, at)) = p.split_addr() else { return unsup("the result is not an address in an object") };
    if obj != s.arena { return unsup("memory from another object than the arena"); }
    must(st, &at, "memory before the arena is handed out")?;
    must(st, &at.add(&new, 1).mul(-1).plus(s.n), "memory beyond the arena is handed out")?;
    if !p.multiple_of(a) { fails(st, &|v| p.eval(v).rem_euclid(a) == 0, "the memory is not aligned as requested")?; }
    let end = at.add(&new, 1);
    let own = off.add(&size, 1);
    // what may be used: the old block, a claimed range, or both where they meet
    let mut areas = vec![(off.clone(), own.clone())];
    for (l, h) in &rmw {
        areas.push((l.clone(), h.clone()));
        let eq = |x: &Lin, y: &Lin| proved(&x.add(y, -1), doms) && proved(&y.add(x, -1), doms);
        if eq(h, &off) { areas.push((l.clone(), own.clone())); }
        if eq(l, &own) { areas.push((off.clone(), h.clone())); }
    }
    if !areas.iter().any(|(l, h)| proved(&at.add(l, -1), doms) && proved(&h.add(&end, -1), doms)) {
        // rounding of every block up to the modulus leaves the rest to it
        let m = s.modulus;
        let up = |x: i128| (x + m - 1).div_euclid(m) * m;
        fails(st, &|v| areas.iter().any(|(l, h)| at.eval(v) >= l.eval(v) && end.eval(v) <= up(h.eval(v))), "the grown block overlaps memory it does not own")?;
    }
    for (d, f, n) in st.mon.copies.iter() {
        let (d, f, n) = (lin(d, doms)?, lin(f, doms)?, lin(n, doms)?);
        let (Some((o1, d)), Some((o2, f))) = (d.split_addr(), f.split_addr()) else { return unsup("copy of something else") };
        if o1 != s.arena || o2 != s.arena { return unsup("copy of something else"); }
        must(st, &d.add(&at, -1), "memory before the new block is written")?;
        must(st, &end.add(&d, -1).add(&n, -1), "memory beyond the new block is written")?;
        must(st, &f.add(&off, -1), "memory before the old block is read")?;
        must(st, &own.add(&f, -1).add(&n, -1), "memory beyond the old block is read")?;
    }
    Ok(())
}
fn ctx(s: &Spec, a: i128) -> Ctx {
    Ctx { on: true, size: (1, (1i128 << 63) - a), off: (0, s.n), ctr: (0, s.n), modulus: s.modulus, ..Default::default() }
}
pub fn c29(px: &mut Px) {
    let tcx = px.api.tcx;
    px.e.cfg.join = false;
    let mut allocs = vec![];
    let mut statics = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Static { .. } = tcx.def_kind(d) { statics.push(d.to_def_id()); }
    }
    let ids: Vec<(rustc_hir::def_id::DefId, u32)> = statics.iter().filter_map(|d| Some((*d, px.e.lw.glob(tcx.reserve_and_set_static_alloc(*d)).ok()?))).collect();
    for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
        if tcx.item_name(*tr).as_str() == "GlobalAlloc" { for i in impls { allocs.push(i.to_def_id()); } }
    }
    if allocs.is_empty() { px.missing.push(("allocator".into(), "no implementation of GlobalAlloc in the C library".into())); return; }
    px.notes.push(format!("statics of the C library: {}", ids.iter().map(|(d, g)| { let a = &px.e.lw.globals.borrow()[*g as usize]; format!("{} ({} bytes, alignment {})", tcx.def_path_str(*d), a.size, a.align) }).collect::<Vec<_>>().join(", ")));
    for im in allocs {
        let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
        let Some((_, me)) = ids.iter().find(|(d, _)| tcx.type_of(*d).instantiate_identity().skip_norm_wip() == t) else { px.missing.push((format!("{t}"), "no static of this type".into())); continue };
        let arena = ids.iter().filter(|x| x.1 != *me && px.e.lw.globals.borrow()[x.1 as usize].mutable).max_by_key(|x| px.e.lw.globals.borrow()[x.1 as usize].size);
        let Some((_, arena)) = arena else { px.missing.push((format!("{t}"), "no arena found".into())); continue };
        let (n, al) = { let g = &px.e.lw.globals.borrow()[*arena as usize]; (g.size as i128, g.align as i128) };
        let mut s = Spec { me: *me, arena: *arena, n, arena_align: al, modulus: 1 };
        for it in tcx.associated_items(im).in_definition_order() {
            let name = it.name().to_string();
            let inst = ty::Instance::new_raw(it.def_id, ty::GenericArgs::identity_for_item(tcx, it.def_id));
            let fid = px.e.lw.intern(inst);
            match name.as_str() {
                "alloc" | "alloc_zeroed" | "dealloc" | "realloc" => {}
                _ => { px.missing.push((name.clone(), "an overridden allocator method that is not analysed".into())); continue; }
            }
            let tys = px.inputs(fid);
            let lt = if name == "realloc" { tys[2] } else { *tys.last().unwrap() };
            if name == "realloc" {
                for k in 0..63 {
                    let a = 1i128 << k;
                    if a > s.arena_align { break; }
                    let (s1, s2) = (s.clone(), s.clone());
                    px.cases.push(Case {
                        name: format!("{t}::{name} alignment {a}"), fid, faults: (true, true), may_fail: false, fix: Default::default(), prep: None,
                        build: Rc::new(move |e, st, _| {
                            let mut c = ctx(&s1, a);
                            c.new = (1, (1i128 << 63) - a);
                            c.size = (1, s1.n);
                            c.off = (0, s1.n / a);
                            let off = Lin::atom(Atom::Var(1), a);
                            c.assume.push(Lin { k: s1.n, co: vec![(Atom::Var(0), -1)] }.add(&off, -1));
                            setup(c, Rc::make_mut(&mut st.doms));
                            let me = Val::S(V::P(Ptr { base: Base::G(s1.me), off: 0 }), 8);
                            Ok(vec![me, Val::S(V::S(addr(Base::G(s1.arena), s1.arena_align as u32).unwrap().add(&off, 1).sc()), 8), layout_val(e, lt, a as u128)?, Val::S(V::S(var(NEW).sc()), 8)])
                        }),
                        check: Rc::new(move |c| check_realloc(c.e, c.st, c.ret, a, &s2)),
                    });
                }
                continue;
            }
            if name != "dealloc" {
                // the counter may be kept a multiple of something
                for m in [4096, 1024, 512, 256, 128, 64, 32, 16, 8] {
                    if m > 1 && inductive(px, fid, lt, &Spec { modulus: m, ..s.clone() }) { s.modulus = m; break; }
                }
            }
            for k in 0..63 {
                let a = 1i128 << k;
                let (s1, s2, name2) = (s.clone(), s.clone(), name.clone());
                let dealloc = name == "dealloc";
                px.cases.push(Case {
                    name: format!("{t}::{name} alignment {a}"), fid, faults: (true, true), may_fail: false, fix: Default::default(), prep: None,
                    build: Rc::new(move |e, st, _| {
                        let mut c = ctx(&s1, a);
                        if name2 == "dealloc" { c.assume.push(Lin { k: s1.n, co: vec![(Atom::Var(0), -1), (Atom::Var(1), -1)] }); }
                        setup(c, Rc::make_mut(&mut st.doms));
                        let me = Val::S(V::P(Ptr { base: Base::G(s1.me), off: 0 }), 8);
                        let l = layout_val(e, lt, a as u128)?;
                        Ok(if name2 == "dealloc" { vec![me, Val::S(V::S(addr(Base::G(s1.arena), s1.arena_align as u32).unwrap().add(&var(1), 1).sc()), 8), l] } else { vec![me, l] })
                    }),
                    check: Rc::new(move |c| if dealloc { check_dealloc(c.e, c.st, &s2) } else { check_alloc(c.e, c.st, c.ret, a, &s2) }),
                });
            }
        }
    }
}
/// Every update keeps the counter a multiple of the modulus.
fn inductive<'tcx>(px: &Px<'tcx>, fid: u32, lt: Ty<'tcx>, s: &Spec) -> bool {
    let e = &px.e;
    let good = std::cell::Cell::new(true);
    for k in [0, 3, 12] {
        let a = 1i128 << k;
        let mut st = State::new();
        setup(ctx(s, a), Rc::make_mut(&mut st.doms));
        let Ok(l) = layout_val(e, lt, a as u128) else { return false };
        if e.enter(&mut st, fid, vec![Val::S(V::P(Ptr { base: Base::G(s.me), off: 0 }), 8), l]).is_err() { return false; }
        e.explore(st, &mut |st, _| {
            for (p, ev) in st.mon.atom.iter() {
                let new = match ev { Atomic::Rmw(_, n) | Atomic::Store(n) => n, _ => continue };
                if !lin(new, &st.doms).is_ok_and(|l| l.multiple_of(s.modulus)) || !start(e, *p).is_ok_and(|i| i.rem_euclid(s.modulus) == 0) { good.set(false); }
            }
            Ok(())
        }, &mut |_| good.set(false));
        if !good.get() { return false; }
    }
    true
}
