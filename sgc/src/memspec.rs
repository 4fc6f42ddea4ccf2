//! The memory functions of the freestanding C library: bounded lengths, any contents.
use crate::exec::*;
use crate::mem::*;
use crate::props::Px;
use crate::run::Case;
use crate::val::*;
use rustc_middle::mir;
use rustc_middle::ty::{self, TyCtxt};
use std::rc::Rc;

/// Small integer constants in the body: lengths around them are looked at as well.
fn consts<'tcx>(tcx: TyCtxt<'tcx>, d: rustc_hir::def_id::DefId) -> Vec<u64> {
    struct V<'tcx> { tcx: TyCtxt<'tcx>, d: rustc_hir::def_id::DefId, out: Vec<u64>, calls: Vec<rustc_hir::def_id::DefId> }
    impl<'tcx> mir::visit::Visitor<'tcx> for V<'tcx> {
        fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) {
            if let ty::FnDef(f, _) = c.const_.ty().kind() { self.calls.push(*f); }
            if let Some(i) = c.const_.try_eval_scalar_int(self.tcx, ty::TypingEnv::post_analysis(self.tcx, self.d)) { self.out.push(i.to_bits(i.size()) as u64); }
        }
    }
    let mut out = vec![];
    let mut todo = vec![d];
    let mut seen = vec![];
    while let Some(d) = todo.pop() {
        if !d.is_local() || seen.contains(&d) || !tcx.is_mir_available(d) { continue; }
        seen.push(d);
        let mut v = V { tcx, d, out: vec![], calls: vec![] };
        mir::visit::Visitor::visit_body(&mut v, tcx.optimized_mir(d));
        out.append(&mut v.out);
        todo.append(&mut v.calls);
    }
    out
}
fn obj(st: &mut State, n: u64, mem: Mem, ro: bool) -> u32 { st.alloc(Obj { mem, size: n, align: 1, ro, kind: ObjKind::Bytes, heap: false }) }
fn ptr(h: u32) -> Val { Val::S(V::P(Ptr { base: Base::H(h), off: 0 }), 8) }
fn bytes(st: &mut State, n: u64) -> (Mem, Vec<Sc>) {
    let v: Vec<Sc> = (0..n).map(|_| Sc::F(st.sym(256), Rc::new((0..256).collect()))).collect();
    (image(&v), v)
}
fn image(v: &[Sc]) -> Mem { if v.is_empty() { Mem::Empty } else { Mem::from_chunks(v.iter().enumerate().map(|(i, s)| Ch { off: i as u32, len: 1, v: V::S(s.clone()) }).collect()) } }
fn same(st: &State, h: u32, want: &[Sc], what: &str) -> R<()> {
    for (i, w) in want.iter().enumerate() {
        match st.heap[h as usize].mem.read(i as u32, 1, &st.doms)? {
            V::S(s) => if differ(&s, w, 8, &st.doms)?.is_some() { return Err(Need::Viol(format!("byte {i} of {}: {what}", want.len()))); },
            _ => return Err(Need::Viol(format!("byte {i} of {} is not set", want.len()))),
        }
    }
    Ok(())
}
fn returned(ret: &Val, h: u32) -> R<()> {
    let v = match ret { Val::S(v, 8) => v.clone(), Val::M(c, 8) if c.len() == 1 => c[0].v.clone(), _ => return unsup("result") };
    if v == V::P(Ptr { base: Base::H(h), off: 0 }) { Ok(()) } else { Err(Need::Viol("the destination is not returned".into())) }
}
const PAIRS: [(u64, u64); 13] = [(0, 0), (255, 255), (127, 127), (128, 128), (0, 1), (1, 0), (127, 128), (128, 127), (0, 255), (255, 0), (0, 128), (128, 0), (255, 254)];

fn case<'tcx>(b: crate::run::Build<'tcx>, c: crate::run::Check<'tcx>) -> (crate::run::Build<'tcx>, crate::run::Check<'tcx>) { (b, c) }
pub fn c33<'tcx>(px: &mut Px<'tcx>, thorough: bool) {
    px.e.cfg.join = false;
    for name in ["memcpy", "memset", "memcmp", "__bzero"] {
        let Some(f) = px.api.get(&format!("c:{name}")).cloned() else { px.missing.push((name.into(), "no such exported function".into())); continue };
        let fid = px.e.lw.intern(px.api.inst(&f));
        let mut lens: Vec<u64> = if thorough { (0..=1040).chain([2047, 2048, 2049, 4095, 4096, 4097]).collect() } else { (0..=260).chain([511, 512, 513, 1023, 1024, 1025]).collect() };
        for c in consts(px.api.tcx, f.did) { if (2..=4200).contains(&c) { for k in [c - 1, c, c + 1, 2 * c, 2 * c + 1] { lens.push(k); } } }
        lens.sort();
        lens.dedup();
        for n in lens {
            let len = move || Val::S(V::c(n as u128), 8);
            let (build, check): (crate::run::Build, crate::run::Check) = match name {
                "memcpy" => case(
                    Rc::new(move |_, st, _| {
                        let d = obj(st, n, Mem::Empty, false);
                        let (m, _) = bytes(st, n);
                        let s = obj(st, n, m, true);
                        Ok(vec![ptr(d), ptr(s), len()])
                    }),
                    Rc::new(move |c| {
                        let want: Vec<Sc> = (0..n).map(|i| Sc::F(i as Sym, Rc::new((0..256).collect()))).collect();
                        same(c.st, 0, &want, "it is not the byte of the source")?;
                        returned(c.ret, 0)
                    }),
                ),
                "memset" => case(
                    Rc::new(move |_, st, _| {
                        let d = obj(st, n, Mem::Empty, false);
                        let hi = [0u64, 0x100, 0xffff_ff00, 0x1234_5600];
                        let c = Sc::F(st.sym(1024), Rc::new((0..1024).map(|i| hi[i / 256] | i as u64 % 256).collect()));
                        Ok(vec![ptr(d), Val::S(V::S(c), 4), len()])
                    }),
                    Rc::new(move |c| {
                        let b = Sc::F(0, Rc::new((0..1024).map(|i| i as u64 % 256).collect()));
                        same(c.st, 0, &vec![b; n as usize], "it is not the low byte of the value")?;
                        returned(c.ret, 0)
                    }),
                ),
                "__bzero" => case(
                    Rc::new(move |_, st, _| Ok(vec![ptr(obj(st, n, Mem::Empty, false)), len()])),
                    Rc::new(move |c| same(c.st, 0, &vec![Sc::C(0); n as usize], "it is not zero")),
                ),
                _ => {
                    let all: Rc<Vec<(u64, u64)>> = Rc::new(if n <= if thorough { 9 } else { 2 } { (0..65536).map(|i| (i / 256, i % 256)).collect() } else { PAIRS.to_vec() });
                    let all2 = all.clone();
                    case(
                        Rc::new(move |_, st, _| {
                            let sy: Vec<Sym> = (0..n).map(|_| st.sym(all.len() as u32)).collect();
                            let side = |k: usize| -> Vec<Sc> { sy.iter().map(|s| Sc::F(*s, Rc::new(all.iter().map(|p| if k == 0 { p.0 } else { p.1 }).collect()))).collect() };
                            let (a, b) = (image(&side(0)), image(&side(1)));
                            let (a, b) = (obj(st, n, a, true), obj(st, n, b, true));
                            Ok(vec![ptr(a), ptr(b), len()])
                        }),
                        Rc::new(move |c| {
                            let doms = &c.st.doms;
                            let r = match c.ret { Val::S(V::S(s), 4) => s.clone(), Val::M(ch, 4) if ch.len() == 1 => match &ch[0].v { V::S(s) => s.clone(), _ => return unsup("result") }, _ => return unsup("result") };
                            let sign = |x: u128| if x == 0 { 1 } else if sext(x, 32) < 0 { 0 } else { 2 };
                            let mut want = Sc::C(1);
                            for i in 0..n as Sym {
                                let (mut eq, mut ne) = (false, false);
                                doms[i as usize].for_each(|k| { let p = all2[k as usize]; if p.0 == p.1 { eq = true } else { ne = true } });
                                if eq && ne { return Err(split_by(doms, i, |k| { let p = all2[k as usize]; (p.0 == p.1) as u64 })); }
                                if ne { want = Sc::F(i, Rc::new(all2.iter().map(|p| match p.0.cmp(&p.1) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 }).collect())); break; }
                            }
                            let got = map1(&r, doms, |x| sign(x))?;
                            match differ(&got, &want, 8, doms)? { None => Ok(()), Some(_) => Err(Need::Viol("the sign of the result is wrong".into())) }
                        }),
                    )
                }
            };
            px.cases.push(Case { name: format!("{name} of {n} bytes"), fid, faults: (true, true), may_fail: false, fix: Default::default(), prep: None, build, check });
        }
    }
}
