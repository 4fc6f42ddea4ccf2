//! Models of intrinsics, of the outside world (sinks, hashers, user implementations) and of the allocating types.
use crate::exec::*;
use crate::lower::*;
use crate::mem::*;
use crate::mon::Ev;
use crate::val::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty};
use std::rc::Rc;

pub enum HR {
    Val(Val),
    Alts(Vec<(State, Val)>),
    Call(u32, Vec<Val>),
    Body(u32),
}
type H = R<HR>;
fn unit() -> H { Ok(HR::Val(Val::Z)) }
fn scv(s: Sc, size: u32) -> H { Ok(HR::Val(Val::S(V::S(s), size))) }

fn int_ty<'tcx>(e: &Engine<'tcx>, t: Ty<'tcx>) -> R<(u32, bool)> {
    let l = e.lw.layout(t).map_err(Need::Unsup)?;
    Ok((l.size.bits() as u32, matches!(t.kind(), ty::Int(_))))
}
fn ptr_of(v: &Val) -> R<V> {
    match v { Val::S(v, _) => Ok(v.clone()), Val::M(c, 16) => Ok(c[0].v.clone()), _ => unsup("pointer expected") }
}
fn fat(v: &Val) -> R<(V, Sc)> {
    match v {
        Val::M(c, 16) if c.len() == 2 => match &c[1].v { V::S(s) => Ok((c[0].v.clone(), s.clone())), _ => unsup("slice length") },
        _ => unsup("slice expected"),
    }
}
/// The bytes of a `&str` argument.
fn bytes_of<'tcx>(e: &Engine<'tcx>, st: &State, v: &Val) -> R<Vec<Sc>> {
    let (p, n) = fat(v)?;
    let n = n.konst(&st.doms)?;
    let l = e.to_loc(st, p)?;
    let mut out = vec![];
    if n > 1 << 16 { return unsup("long string"); }
    for i in 0..n as i64 {
        match e.read(st, Loc { base: l.base, off: l.off + i }, 1)? {
            V::S(s) => out.push(s),
            V::Undef => return ub("uninitialised byte in a string"),
            _ => return unsup("string byte"),
        }
    }
    Ok(out)
}
fn char_bytes(st: &State, v: &Val) -> R<Vec<Sc>> {
    let Val::S(V::S(c), _) = v else { return unsup("char") };
    let ascii = map1(c, &st.doms, |x| (x < 128) as u128)?.konst(&st.doms)?;
    if ascii == 1 { return Ok(vec![c.clone()]); }
    let x = c.konst(&st.doms)? as u32;
    let mut b = [0u8; 4];
    Ok(char::from_u32(x).map(|c| c.encode_utf8(&mut b).bytes().map(|b| Sc::C(b as u128)).collect()).unwrap_or_default())
}
fn sink(st: &mut State, bytes: Vec<Sc>) -> H {
    if st.mon.errored { return Err(Need::Viol("the sink is written to after it reported a failure".into())); }
    let doms = st.doms.clone();
    let mut m = st.mon.clone();
    // an empty write may fail as well
    for b in &bytes { m.push_byte(b, &doms)?; }
    m.wrote = true;
    let failing = st.mon.may_fail;
    let mut err = if failing { Some(st.clone()) } else { None };
    st.mon = m;
    match &mut err {
        None => Ok(HR::Val(Val::sc(0, 1))),
        Some(e2) => {
            e2.mon.errored = true;
            Ok(HR::Alts(vec![(st.clone(), Val::sc(0, 1)), (e2.clone(), Val::sc(1, 1))]))
        }
    }
}

pub fn run<'tcx>(e: &Engine<'tcx>, st: &mut State, h: &Hook, info: &FnInfo<'tcx>, args: &[Val], dsize: u32) -> H {
    match h {
        Hook::Intr(n) => intrinsic(e, st, n, info, args, dsize),
        Hook::Never(ubs) => {
            let short = info.path.clone();
            if *ubs { return ub(format!("library precondition violated ({short})")); }
            Err(Need::Panic(format!("call of {short}")))
        }
        Hook::Utf8Unchecked => {
            let b = bytes_of(e, st, &args[0])?;
            let mut consts = vec![];
            for s in &b {
                let ok = map1(s, &st.doms, |x| (x < 128) as u128)?.norm(&st.doms);
                match ok { Sc::C(1) => consts.push(b'a'), _ => { let x = s.konst(&st.doms)?; consts.push(x as u8); } }
            }
            if std::str::from_utf8(&consts).is_err() { return ub("invalid UTF-8 passed to from_utf8_unchecked"); }
            Ok(HR::Val(args[0].clone()))
        }
        Hook::Aligned => {
            // pointers of the analysis are aligned as their objects; the offset decides
            let v = ptr_of(&args[0])?;
            let l = e.to_loc(st, v)?;
            let al = match args.last() { Some(Val::S(V::S(s), 8)) => s.konst(&st.doms)? as i64, _ => 1 };
            let a = e.align_of(st, l.base)?;
            Ok(HR::Val(Val::sc((l.off % al.max(1) == 0 && (matches!(l.base, Base::A) || a as i64 % al.max(1) == 0)) as u128, 1)))
        }
        Hook::ReturnTrue => Ok(HR::Val(Val::sc(1, 1))),
        Hook::NoOp => unit(),
        Hook::SinkStr | Hook::SinkChar | Hook::SinkFmt if !stand_in(st, args.first()) => Ok(HR::Body(e.lw.intern_body(info.inst))),
        Hook::SinkStr => { let b = bytes_of(e, st, &args[1])?; sink(st, b) }
        Hook::SinkChar => { let b = char_bytes(st, &args[1])?; sink(st, b) }
        Hook::SinkFmt => { let b = formatted(e, st, &args[1])?; sink(st, b) }
        Hook::NoStr => Ok(HR::Val(Val::M(vec![Ch { off: 0, len: 8, v: V::c(0) }, Ch { off: 8, len: 8, v: V::Undef }], 16))),
        Hook::FmtWrite => {
            let Val::M(c, 16) = &args[0] else { return unsup("write_fmt") };
            let V::P(Ptr { base: Base::VT(vt), .. }) = c[1].v else { return unsup("write_fmt to an unknown sink") };
            let b = formatted(e, st, &args[1])?;
            let (t, tr) = e.lw.vtables.borrow()[vt as usize];
            let n = b.len();
            // the methods come in the order of their declaration, write_str first
            let Some(f) = (0..8).find_map(|i| e.resolve_virtual(t, tr, i)) else { return unsup("write_fmt") };
            let data = Val::S(c[0].v.clone(), 8);
            match &e.lw.info(f).hook {
                Some(Hook::SinkStr) if stand_in(st, Some(&data)) => return sink(st, b),
                Some(Hook::StrPush) => return str_push(e, st, &data, b, dsize),
                Some(_) => return unsup("write_fmt to this kind of sink"),
                None => {}
            }
            // the text lives as long as the call
            let text = Ptr { base: Base::L(st.frames.len() as u32, e.fun(f)?.locals.len() as u32), off: 0 };
            *e.extra_local.borrow_mut() = Some(Mem::from_chunks(b.into_iter().enumerate().map(|(i, s)| Ch { off: i as u32, len: 1, v: V::S(s) }).collect()));
            Ok(HR::Call(f, vec![data, Val::fat(text, Sc::C(n as u128))]))
        }
        Hook::Hash(name) => {
            let mut data = vec![];
            match name.as_str() {
                "finish" => return unsup("finish of the hasher"),
                "write" | "write_str" => {
                    let (p, n) = fat(&args[1])?;
                    let n = n.konst(&st.doms)?;
                    let l = e.to_loc(st, p)?;
                    for i in 0..n as i64 {
                        match e.read(st, Loc { base: l.base, off: l.off + i }, 1)? { V::S(s) => data.push((s, 1)), _ => return unsup("hash input") }
                    }
                }
                _ => match &args[1] {
                    Val::S(V::S(s), n) => data.push((s.clone(), *n)),
                    Val::S(V::P(p), _) if heap_addr(st, p) => return Err(Need::Viol("the address of a heap block is fed to the hasher: a copy of the value hashes differently".into())),
                    _ => return unsup("hash input"),
                },
            }
            st.mon.ev(Ev::Hash(name.clone(), data));
            unit()
        }
        Hook::Legality(name) => {
            let d = info.inst.def_id();
            let tcx = e.lw.tcx;
            if tcx.defaultness(d).has_value() {
                let i = Instance::new_raw(d, info.inst.args);
                let g = e.lw.intern_body(i);
                return Ok(HR::Body(g));
            }
            legality(e, st, name, info, args)
        }
        Hook::SeqNew => {
            let string = is_string_ret(info, e);
            let o = st.alloc(Obj { mem: Mem::Empty, size: 0, align: 8, ro: false, kind: ObjKind::Seq { prefix: None, items: Rc::new(vec![]), string }, heap: true });
            Ok(HR::Val(seq_val(o)))
        }
        Hook::StrPush => { let b = bytes_of(e, st, &args[1])?; str_push(e, st, &args[0], b, dsize) }
        Hook::StrPushChar => { let b = char_bytes(st, &args[1])?; str_push(e, st, &args[0], b, dsize) }
        Hook::SeqPush(n) => {
            let o = seq_id(e, st, &args[0])?;
            if st.heap[o as usize].ro { return Err(Need::Viol("push to a sequence reachable only through a shared reference".into())); }
            let v = match args[1].clone() { Val::S(v, k) => Val::M(vec![Ch { off: 0, len: k, v }], k), v => v };
            let _ = n;
            if let ObjKind::Seq { items, .. } = &mut Rc::make_mut(&mut st.heap[o as usize]).kind { Rc::make_mut(items).push(v); }
            unit()
        }
        Hook::SeqCut(name) => {
            let o = seq_id(e, st, &args[0])?;
            if name == "ptr" { return Ok(HR::Val(Val::S(V::P(Ptr { base: Base::H(o), off: 0 }), 8))); }
            let ObjKind::Seq { prefix, items, .. } = st.heap[o as usize].kind.clone() else { return unsup("sequence") };
            let arg = |i: usize| match args.get(i) { Some(Val::S(V::S(s), _)) => Ok(s.clone()), _ => unsup(format!("{name} of a sequence")) };
            // does it reach the elements that were there before?
            let old = match prefix { Some(p) => Sc::Lin(p, 0), None => Sc::C(0) };
            let n = items.len() as u128;
            let at = match name.as_str() { "truncate" | "remove" | "swap_remove" | "insert" => arg(1)?.norm(&st.doms).konst(&st.doms)?, _ => 0 };
            let hit = match name.as_str() {
                "truncate" | "remove" | "swap_remove" | "insert" => map1(&old, &st.doms, |x| (x > at) as u128)?,
                "pop" if n > 0 => Sc::C(0),
                _ => map1(&old, &st.doms, |x| (x > 0) as u128)?,
            };
            if hit.konst(&st.doms)? == 1 {
                if CUT_BAD.get() { return Err(Need::Viol(format!("recorded moves are taken out of the history ({name})"))); }
                return unsup(format!("{name} of a sequence"));
            }
            let set = |st: &mut State, prefix: Option<Sym>, v: Vec<Val>| if let ObjKind::Seq { prefix: p, items, .. } = &mut Rc::make_mut(&mut st.heap[o as usize]).kind { *p = prefix; *items = Rc::new(v); };
            match name.as_str() {
                "clear" => set(st, None, vec![]),
                "truncate" => {
                    let keep = map1(&old, &st.doms, |x| (at - x).min(n))?.konst(&st.doms)?;
                    set(st, prefix, items[..keep as usize].to_vec());
                }
                _ => return unsup(format!("{name} of a sequence")),
            }
            unit()
        }
        Hook::SeqLen | Hook::SeqEmpty => {
            let o = seq_id(e, st, &args[0])?;
            match &st.heap[o as usize].kind {
                ObjKind::Seq { prefix: None, items, .. } => { let n = items.len(); if *h == Hook::SeqEmpty { Ok(HR::Val(Val::sc((n == 0) as u128, 1))) } else { Ok(HR::Val(Val::sc(n as u128, 8))) } }
                ObjKind::Seq { prefix: Some(p), items, .. } => {
                    let n = items.len() as u64;
                    if *h == Hook::SeqEmpty {
                        if n > 0 { return Ok(HR::Val(Val::sc(0, 1))); }
                        return scv(Sc::Lin(*p, 0).clone(), 8).and_then(|_| { let t = map1(&Sc::Lin(*p, 0), &st.doms, |x| (x == 0) as u128)?; scv(t, 1) });
                    }
                    scv(Sc::Lin(*p, n), 8)
                }
                _ => unsup("sequence"),
            }
        }
        Hook::SeqDeref => {
            let o = seq_id(e, st, &args[0])?;
            let len = match &st.heap[o as usize].kind {
                ObjKind::Seq { prefix: None, items, .. } => Sc::C(items.len() as u128),
                ObjKind::Seq { prefix: Some(p), items, .. } => Sc::Lin(*p, items.len() as u64),
                _ => return unsup("sequence"),
            };
            Ok(HR::Val(Val::fat(Ptr { base: Base::H(o), off: 0 }, len)))
        }
        // the last element, if it is among the known ones
        Hook::SliceLast => {
            let body = || { let f = e.lw.intern_body(info.inst); Ok(HR::Body(f)) };
            let Val::M(c, _) = &args[0] else { return body() };
            let (Some(V::P(Ptr { base: Base::H(o), off: 0 })), Some(V::S(n))) = (c.first().map(|c| c.v.clone()), c.get(1).map(|c| c.v.clone())) else { return body() };
            let ObjKind::Seq { prefix, items, .. } = st.heap[o as usize].kind.clone() else { return body() };
            let all = match prefix { None => Sc::C(items.len() as u128), Some(p) => Sc::Lin(p, items.len() as u64) };
            if all.norm(&st.doms) != n.norm(&st.doms) { return unsup("part of a sequence"); }
            if let Some(v) = items.last() {
                let m = v.clone().mem();
                let size = m.chunks().last().map_or(0, |c| c.off + c.len) as u64;
                let x = st.alloc(Obj { mem: m, size, align: 8, ro: true, kind: ObjKind::Bytes, heap: false });
                return Ok(HR::Val(Val::S(V::P(Ptr { base: Base::H(x), off: 0 }), 8)));
            }
            if let Some(p) = prefix { if map1(&Sc::Lin(p, 0), &st.doms, |x| (x > 0) as u128)?.konst(&st.doms)? == 1 { return unsup("elements of a sequence"); } }
            Ok(HR::Val(Val::sc(0, 8)))
        }
        // a part of a sequence, cut at known places
        Hook::SeqIndex(kind) => {
            let o = seq_id(e, st, &args[0])?;
            let ObjKind::Seq { prefix, items, string } = st.heap[o as usize].kind.clone() else { return unsup("sequence") };
            if string { return unsup("part of a string"); }
            let len = match prefix { None => Sc::C(items.len() as u128), Some(p) => Sc::Lin(p, items.len() as u64) };
            let whole = |l: Sc| Ok(HR::Val(Val::fat(Ptr { base: Base::H(o), off: 0 }, l)));
            let part = |i: u32| -> R<Sc> {
                match args.get(1) { Some(Val::S(V::S(s), _)) if i == 0 => Ok(s.norm(&st.doms)), Some(Val::M(c, _)) => match c.iter().find(|c| c.off == 8 * i).map(|c| &c.v) { Some(V::S(s)) => Ok(s.norm(&st.doms)), _ => unsup("range") }, _ => unsup("range") }
            };
            let lenn = len.norm(&st.doms);
            match kind.as_str() {
                "RangeFull" => whole(len),
                "RangeFrom" if part(0)? == Sc::C(0) => whole(len),
                "RangeTo" if part(0)? == lenn => whole(len),
                "Range" if part(0)? == Sc::C(0) && part(1)? == lenn => whole(len),
                "RangeTo" | "Range" => {
                    let i = (kind == "Range") as u32;
                    if i == 1 && part(0)? != Sc::C(0) { return unsup("part of a sequence"); }
                    let Sc::C(k) = part(i)? else { return unsup("part of a sequence") };
                    if map1(&len, &st.doms, |x| (x >= k) as u128)?.konst(&st.doms)? == 0 { return Err(Need::Panic("range end out of range".into())); }
                    whole(Sc::C(k))
                }
                "RangeFrom" => {
                    // only the number of elements is kept: it suffices to tell that it is not the whole
                    let Sc::C(k) = part(0)? else { return unsup("part of a sequence") };
                    if map1(&len, &st.doms, |x| (x >= k) as u128)?.konst(&st.doms)? == 0 { return Err(Need::Panic("range start out of range".into())); }
                    let n = map1(&len, &st.doms, |x| x.saturating_sub(k))?;
                    Ok(HR::Val(Val::fat(Ptr { base: Base::H(o), off: 1 }, n)))
                }
                _ => unsup("part of a sequence"),
            }
        }
        Hook::SeqDrop => {
            // the pointee is the sequence value itself
            let v = ptr_of(&args[0])?;
            let l = e.to_loc(st, v)?;
            if let V::P(Ptr { base: Base::H(o), .. }) = e.read(st, l, 8)? {
                let ob = Rc::make_mut(&mut st.heap[o as usize]);
                if let ObjKind::Freed = ob.kind { return ub("double free"); }
                ob.kind = ObjKind::Freed;
                return unit();
            }
            unsup("drop of a sequence")
        }
        Hook::SeqClone => {
            let o = seq_id(e, st, &args[0])?;
            let mut ob = (*st.heap[o as usize]).clone();
            ob.ro = false;
            let n = st.alloc(ob);
            Ok(HR::Val(seq_val(n)))
        }
        // the contents of another sequence, given as such or as a slice of all of it
        Hook::SliceVec | Hook::SeqFill(_) => {
            let (to, from) = match h { Hook::SliceVec => (None, &args[0]), _ => (Some(seq_id(e, st, &args[0])?), &args[1]) };
            let body = |w: &str| if *h == Hook::SliceVec { Ok(HR::Body(e.lw.intern_body(info.inst))) } else { unsup(w) };
            let o = if *h == Hook::SeqFill(true) { seq_id(e, st, from)? } else {
                let Val::M(c, _) = from else { return body("slice") };
                let (Some(V::P(Ptr { base: Base::H(o), off: 0 })), Some(V::S(n))) = (c.first().map(|c| c.v.clone()), c.get(1).map(|c| c.v.clone())) else { return body("slice") };
                let all = match &st.heap[o as usize].kind {
                    ObjKind::Seq { prefix: None, items, .. } => Sc::C(items.len() as u128),
                    ObjKind::Seq { prefix: Some(p), items, .. } => Sc::Lin(*p, items.len() as u64),
                    _ => return body("slice"),
                };
                if all.norm(&st.doms) != n.norm(&st.doms) { return unsup("part of a sequence"); }
                o
            };
            let ObjKind::Seq { prefix, items, string } = st.heap[o as usize].kind.clone() else { return unsup("sequence") };
            if string { return unsup("copy of a string"); }
            match to {
                None => { let mut ob = (*st.heap[o as usize]).clone(); ob.ro = false; let n = st.alloc(ob); Ok(HR::Val(seq_val(n))) }
                Some(t) => {
                    if st.heap[t as usize].ro { return Err(Need::Viol("write to a sequence reachable only through a shared reference".into())); }
                    let ObjKind::Seq { prefix: p, items: i, .. } = &mut Rc::make_mut(&mut st.heap[t as usize]).kind else { return unsup("sequence") };
                    if *h == Hook::SeqFill(false) && (p.is_some() || !i.is_empty()) { return unsup("joining sequences"); }
                    *p = prefix; *i = items;
                    unit()
                }
            }
        }
        Hook::StrFmt => unsup("formatting into a string"),
        Hook::SeqCmp(name) => seqcmp(e, st, name, args, dsize),
        Hook::Alloc => {
            // exchange_malloc(size, align) or (layout)
            let mut xs = vec![];
            for a in args { if let Val::S(V::S(s), _) = a { xs.push(s.konst(&st.doms)? as u64); } else if let Val::M(c, _) = a { for c in c { if let V::S(s) = &c.v { xs.push(s.konst(&st.doms)? as u64); } } } }
            if xs.len() < 2 { return unsup("allocation"); }
            let (size, align) = if xs[0].is_power_of_two() && !xs[1].is_power_of_two() { (xs[1], xs[0]) } else { (xs[0], xs[1]) };
            let o = st.alloc(Obj { mem: Mem::Empty, size, align: align as u32, ro: false, kind: ObjKind::Bytes, heap: true });
            Ok(HR::Val(Val::S(V::P(Ptr { base: Base::H(o), off: 0 }), 8)))
        }
        Hook::Dealloc => {
            let v = ptr_of(&args[0])?;
            let l = e.to_loc(st, v)?;
            let Base::H(o) = l.base else { return ub("deallocation of memory that was not allocated") };
            let ob = Rc::make_mut(&mut st.heap[o as usize]);
            if !ob.heap || l.off != 0 { return ub("deallocation of memory that was not allocated"); }
            if let ObjKind::Freed = ob.kind { return ub("double free"); }
            ob.kind = ObjKind::Freed;
            unit()
        }
        Hook::Pop => {
            let body = || { let f = e.lw.intern_body(info.inst); Ok(HR::Body(f)) };
            if !e.sum_pop.get() { return body(); }
            let l = e.to_loc(st, ptr_of(&args[0])?)?;
            let mut bits = vec![];
            for (w, n) in [(0, 63), (1, 18)] {
                match e.read(st, Loc { base: l.base, off: l.off + 8 * w }, 8)? { V::S(s) => bits.extend(s.to_bits(64).into_iter().take(n)), _ => return body() }
            }
            for b in bits.iter_mut() { *b = b.norm(&st.doms); if b.syms().len() > 1 { return body(); } }
            if bits.iter().filter(|b| !matches!(b, Bit::K(_))).count() < 3 { return body(); }
            let z = st.sym(82);
            let first = bits.iter().position(|b| matches!(b, Bit::K(true)));
            let dom = Dom::from_iter(82, (0..82u32).filter(|k| if *k == 0 { first.is_none() } else { !matches!(bits[*k as usize - 1], Bit::K(false)) && first.is_none_or(|f| *k as usize <= f + 1) }));
            st.refine(&vec![(z, dom)]);
            let bits = Rc::new(bits);
            let hit = e.pop_memo.borrow().iter().find(|m| m.0 == z && m.1 == bits).map(|m| (m.1.clone(), m.2.clone()));
            let (bits, words) = match hit {
                Some(h) => h,
                None => {
                    let mut out = vec![];
                    for (i, b) in bits.iter().enumerate() {
                        let other = Bit::of_table(z, 82, |k| k != i as u32 + 1);
                        let Some(r) = Bit::op(b, &other, |x, y| x && y) else { return unsup("pop") };
                        out.push(r);
                    }
                    let mut w1 = out.split_off(63);
                    out.resize(64, Bit::K(false));
                    w1.resize(64, Bit::K(false));
                    let words = [Sc::from_bits(out), Sc::from_bits(w1)];
                    let mut m = e.pop_memo.borrow_mut();
                    if m.len() > 32 { m.clear(); }
                    m.push((z, bits.clone(), words.clone()));
                    (bits, words)
                }
            };
            Rc::make_mut(&mut st.cons).push(Con::First(z, bits));
            for (w, v) in words.into_iter().enumerate() { e.write(st, Loc { base: l.base, off: l.off + 8 * w as i64 }, Val::S(V::S(v), 8))?; }
            Ok(HR::Val(Val::S(V::S(Sc::F(z, Rc::new((0..82).collect()))), 1)))
        }
        // formatting set up by the crate's own code goes through the library's
        Hook::FmtOpaque if !args.iter().any(|a| stand_in(st, Some(a))) => Ok(HR::Body(e.lw.intern_body(info.inst))),
        Hook::FmtOpaque => {
            if st.mon.errored { return Err(Need::Viol("the sink is written to after it reported a failure".into())); }
            fmt_opaque(st, dsize)
        }
    }
}
/// The text that formatting arguments stand for.
fn formatted<'tcx>(e: &Engine<'tcx>, st: &mut State, a: &Val) -> R<Vec<Sc>> {
    let Val::M(c, 16) = a else { return unsup("formatting arguments") };
    let byte = |st: &State, p: &V, i: i64| -> R<u128> {
        let l = e.to_loc(st, p.clone())?;
        match e.read(st, Loc { base: l.base, off: l.off + i }, 1)? { V::S(s) => s.konst(&st.doms), _ => unsup("formatting template") }
    };
    let tp = c[0].v.clone();
    if let V::S(n) = &c[1].v {
        let n = n.konst(&st.doms)?;
        if n & 1 == 1 { return bytes_of(e, st, &Val::M(vec![Ch { off: 0, len: 8, v: tp }, Ch { off: 8, len: 8, v: V::c(n >> 1) }], 16)); }
    }
    let mut out = vec![];
    let (mut i, mut k) = (0i64, 0i64);
    loop {
        let n = byte(st, &tp, i)?;
        i += 1;
        if n == 0 { return Ok(out); }
        if n <= 0x80 {
            let mut m = n as i64;
            if n == 0x80 { m = (byte(st, &tp, i)? | byte(st, &tp, i + 1)? << 8) as i64; i += 2; }
            for j in 0..m { out.push(Sc::C(byte(st, &tp, i + j)?)); }
            i += m;
            continue;
        }
        let (mut flags, mut width) = (0x20u128 | 3 << 29, 0u128);
        if n != 0xc0 {
            let mut num = |st: &State, w: i64| -> R<u128> { let mut r = 0; for j in 0..w { r |= byte(st, &tp, i + j)? << (8 * j); } i += w; Ok(r) };
            if n & 1 != 0 { flags = num(st, 4)?; }
            if n & 2 != 0 { width = num(st, 2)?; }
            if n & 4 != 0 { return unsup("formatting with a precision"); }
            if n & 8 != 0 { k = num(st, 2)? as i64; }
            if n & 48 != 0 { return unsup("formatting with a computed width"); }
        }
        let l = e.to_loc(st, c[1].v.clone())?;
        let (mut val, mut f) = (None, None);
        for o in [0, 8] {
            match e.read(st, Loc { base: l.base, off: l.off + 16 * k + o }, 8)? { V::P(Ptr { base: Base::F(g), .. }) => f = Some(g), v => val = Some(v) }
        }
        k += 1;
        let (Some(val), Some(f)) = (val, f) else { return unsup("formatting argument") };
        let (neg, text) = shown(e, st, f, val)?;
        let sign = if neg { vec![Sc::C(b'-' as u128)] } else if flags >> 21 & 1 == 1 && text.1 { vec![Sc::C(b'+' as u128)] } else { vec![] };
        if flags & (1 << 23 | 1 << 25 | 1 << 26) != 0 { return unsup("formatting flags"); }
        let pad = (width as usize).saturating_sub(sign.len() + text.0.len());
        if flags >> 24 & 1 == 1 && text.1 {
            out.extend(sign);
            for _ in 0..pad { out.push(Sc::C(b'0' as u128)); }
            out.extend(text.0);
            continue;
        }
        let fill = flags & 0x1f_ffff;
        if pad > 0 && fill >= 128 { return unsup("formatting with this fill character"); }
        let left = match flags >> 29 & 3 { 0 => 0, 1 => pad, 2 => pad / 2, _ => if text.1 { pad } else { 0 } };
        for _ in 0..left { out.push(Sc::C(fill)); }
        out.extend(sign);
        out.extend(text.0);
        for _ in left..pad { out.push(Sc::C(fill)); }
    }
}
/// What a formatting function of the standard library writes for the value: its sign, the text, whether it is a number.
fn shown<'tcx>(e: &Engine<'tcx>, st: &mut State, f: u32, val: V) -> R<(bool, (Vec<Sc>, bool))> {
    let tcx = e.lw.tcx;
    let info = e.lw.info(f);
    let d = info.inst.def_id();
    let no = || unsup(format!("formatting by {}", info.path));
    if d.is_local() || tcx.opt_item_name(d).is_none_or(|n| n.as_str() != "fmt") { return no(); }
    let (Some(tr), mut t) = (tcx.trait_of_assoc(d).or_else(|| tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_id(i))), match tcx.impl_of_assoc(d) { Some(i) => tcx.type_of(i).instantiate(tcx, info.inst.args).skip_norm_wip(), None => info.inst.args.type_at(0) }) else { return no() };
    let tr = tcx.item_name(tr);
    let mut l = e.to_loc(st, val)?;
    while let ty::Ref(_, u, _) = t.kind() {
        if u.is_str() { break; }
        if u.is_slice() || matches!(u.kind(), ty::Dynamic(..)) { return no(); }
        t = *u;
        let p = e.read(st, l, 8)?;
        l = e.to_loc(st, p)?;
    }
    if t.is_ref() || t.is_str() {
        if tr.as_str() != "Display" || t.is_str() { return no(); }
        let v = Val::M(vec![Ch { off: 0, len: 8, v: e.read(st, l, 8)? }, Ch { off: 8, len: 8, v: e.read(st, Loc { base: l.base, off: l.off + 8 }, 8)? }], 16);
        return Ok((false, (bytes_of(e, st, &v)?, false)));
    }
    let size = e.lw.layout(t).map_err(Need::Unsup)?.size.bytes() as u32;
    let get = |st: &State| match e.read(st, l, size)? { V::S(s) => Ok(s), _ => unsup("formatted value") };
    match t.kind() {
        ty::Char if tr.as_str() == "Display" => Ok((false, (char_bytes(st, &Val::S(V::S(get(st)?), 4))?, false))),
        ty::Bool => Ok((false, ((if get(st)?.konst(&st.doms)? == 1 { "true" } else { "false" }).bytes().map(|b| Sc::C(b as u128)).collect(), false))),
        ty::Uint(_) | ty::Int(_) if matches!(tr.as_str(), "Display" | "Debug") => {
            let s = get(st)?;
            let bits = size * 8;
            let neg = if matches!(t.kind(), ty::Int(_)) { map1(&s, &st.doms, |x| (sext(x, bits) < 0) as u128)?.konst(&st.doms)? == 1 } else { false };
            let abs = |x: u128| if neg { sext(x, bits).unsigned_abs() } else { x };
            let n = map1(&s, &st.doms, |x| abs(x).to_string().len() as u128)?.konst(&st.doms)? as u32;
            let mut v = vec![];
            for k in (0..n).rev() { v.push(map1(&s, &st.doms, |x| 48 + abs(x) / 10u128.pow(k) % 10)?); }
            Ok((neg, (v, true)))
        }
        _ => no(),
    }
}
/// Whether the argument is the formatter that stands for an arbitrary sink.
fn stand_in(st: &State, a: Option<&Val>) -> bool {
    matches!(a, Some(Val::S(V::P(Ptr { base: Base::H(h), .. }), _)) if st.heap[*h as usize].kind == ObjKind::Opaque)
}
/// A call into the standard formatter: some text or an error.
fn fmt_opaque(st: &mut State, dsize: u32) -> H {
    match dsize {
        0 => unit(),
        1 => {
            let s = st.sym(2);
            Ok(HR::Val(Val::S(V::S(Sc::F(s, Rc::new(vec![0, 1]))), 1)))
        }
        n => Ok(HR::Val(Val::M(vec![Ch { off: 0, len: n, v: V::Opaque }], n))),
    }
}
fn is_string_ret<'tcx>(info: &FnInfo<'tcx>, e: &Engine<'tcx>) -> bool {
    let tcx = e.lw.tcx;
    let d = info.inst.def_id();
    if let Some(i) = tcx.impl_of_assoc(d) {
        return adt_path(tcx, tcx.type_of(i).instantiate(tcx, info.inst.args).skip_norm_wip()) == "alloc::string::String";
    }
    tcx.trait_of_assoc(d).is_some() && adt_path(tcx, info.inst.args.type_at(0)) == "alloc::string::String"
}
pub fn seq_val(o: u32) -> Val {
    Val::M(vec![Ch { off: 0, len: 8, v: V::P(Ptr { base: Base::H(o), off: 0 }) }, Ch { off: 8, len: 8, v: V::Opaque }, Ch { off: 16, len: 8, v: V::Opaque }], 24)
}
/// The sequence behind `&Vec` / `&String`.
fn seq_id<'tcx>(e: &Engine<'tcx>, st: &State, v: &Val) -> R<u32> {
    let p = ptr_of(v)?;
    let l = e.to_loc(st, p)?;
    match e.read(st, l, 8)? {
        V::P(Ptr { base: Base::H(o), off: 0 }) => match st.heap[o as usize].kind {
            ObjKind::Freed => ub("use after free"),
            ObjKind::Seq { .. } => Ok(o),
            _ => unsup("sequence"),
        },
        _ => unsup("sequence"),
    }
}
fn str_push<'tcx>(e: &Engine<'tcx>, st: &mut State, s: &Val, bytes: Vec<Sc>, dsize: u32) -> H {
    let o = seq_id(e, st, s)?;
    let doms = st.doms.clone();
    let mut m = st.mon.clone();
    if m.text.is_some() {
        if m.tag != 0 && m.tag != o + 1 { return unsup("text in several strings"); }
        m.tag = o + 1;
    }
    for b in &bytes { m.push_byte(b, &doms)?; }
    st.mon = m;
    if st.mon.text.is_none() && st.mon.keep_str {
        if let ObjKind::Seq { items, .. } = &mut Rc::make_mut(&mut st.heap[o as usize]).kind {
            for b in bytes { Rc::make_mut(items).push(Val::S(V::S(b), 1)); }
        }
    }
    if dsize == 1 { Ok(HR::Val(Val::sc(0, 1))) } else { unit() }
}
/// Comparisons of move lists: one symbol per pair of lists says how they compare.
fn seqcmp<'tcx>(e: &Engine<'tcx>, st: &mut State, name: &str, args: &[Val], dsize: u32) -> H {
    if name == "hash" {
        let o = seq_id(e, st, &args[0])?;
        st.mon.ev(Ev::Call(format!("hash of sequence {o}"), vec![], vec![]));
        return unit();
    }
    if dsize != 1 { return unsup("comparison of sequences"); }
    let (a, b) = (seq_id(e, st, &args[0])?, seq_id(e, st, &args[1])?);
    let (x, y, swap) = if a <= b { (a, b, false) } else { (b, a, true) };
    let s = match st.mon.seqpair.iter().find(|p| (p.0, p.1) == (x, y)) {
        Some(p) => p.2,
        None => { let s = st.sym(3); st.mon.seqpair.push((x, y, s)); s }
    };
    let (l, g) = if swap { (2, 0) } else { (0, 2) };
    let mut t = vec![0u64; 3];
    match name {
        "eq" => t[1] = 1,
        "ne" => { t[0] = 1; t[2] = 1; }
        "cmp" | "partial_cmp" => { t[l] = 0xff; t[g] = 1; }
        "lt" => t[l] = 1,
        "gt" => t[g] = 1,
        "le" => { t[l] = 1; t[1] = 1; }
        "ge" => { t[g] = 1; t[1] = 1; }
        _ => return unsup("comparison of sequences"),
    }
    Ok(HR::Val(Val::S(V::S(Sc::F(s, Rc::new(t))), 1)))
}
fn legality<'tcx>(e: &Engine<'tcx>, st: &mut State, name: &str, info: &FnInfo<'tcx>, args: &[Val]) -> H {
    let tcx = e.lw.tcx;
    let sig = tcx.fn_sig(info.inst.def_id()).instantiate(tcx, info.inst.args).skip_norm_wip().skip_binder();
    let norm = |t: Ty<'tcx>| tcx.normalize_erasing_regions(e.lw.env, ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(t)));
    let meaning = |st: &State, t: Ty<'tcx>, v: &Val| -> R<Vec<V>> {
        if let Val::S(V::P(p), _) = v { return Ok(vec![V::P(*p)]); }
        let mut out = vec![];
        crate::sem::flat(&crate::sem::sem(e, st, norm(t), &v.clone().mem(), 0, 0)?, "", &mut out);
        Ok(out.into_iter().map(|x| V::S(x.1)).collect())
    };
    let mut vs = vec![];
    for (a, t) in args.iter().zip(sig.inputs()).skip(1) { vs.extend(meaning(st, *t, a)?); }
    let v = crate::gen::fresh(e, st, norm(sig.output()), name)?;
    let r = meaning(st, sig.output(), &v)?;
    st.mon.ev(Ev::Call(name.to_string(), vs, r));
    Ok(HR::Val(v))
}

fn heap_addr(st: &State, p: &Ptr) -> bool { matches!(p.base, Base::H(h) if st.heap[h as usize].heap) }
/// A block operation of more than 128 bytes is compiled to a call of the C function that implements it.
pub fn calls_itself<'tcx>(e: &Engine<'tcx>, st: &State, names: &[&str], bytes: u64) -> R<()> {
    if bytes <= 128 { return Ok(()); }
    for f in &st.frames {
        let i = e.lw.info(f.fid);
        let d = i.inst.def_id();
        if i.local && e.lw.tcx.opt_item_name(d).is_some_and(|n| names.contains(&n.as_str())) && e.lw.tcx.codegen_fn_attrs(d).contains_extern_indicator() {
            return Err(Need::Viol(format!("{} moves {bytes} bytes with a block operation that is compiled to a call of {} itself: it never returns", i.path, names[0])));
        }
    }
    Ok(())
}
fn intrinsic<'tcx>(e: &Engine<'tcx>, st: &mut State, n: &str, info: &FnInfo<'tcx>, args: &[Val], dsize: u32) -> H {
    let tcx = e.lw.tcx;
    let ty0 = || info.inst.args.types().next().ok_or(Need::Unsup("type argument".into()));
    let lay = |t: Ty<'tcx>| e.lw.layout(t).map_err(Need::Unsup);
    let doms = st.doms.clone();
    let doms = &doms[..];
    let s = |i: usize| e.sc(args[i].clone());
    let bin = |op: BOp| -> R<(Sc, Sc, u32, bool, u32, bool, BOp)> {
        let t = ty0()?;
        let (b, sg) = int_ty(e, t)?;
        let (yb, ys) = match info.inst.args.types().nth(1) { Some(t) if t.is_integral() => int_ty(e, t)?, _ => (b, sg) };
        Ok((s(0)?, s(1)?, b, sg, yb, ys, op))
    };
    match n {
        "size_of" | "pref_align_of" | "min_align_of" | "align_of" => {
            let l = lay(ty0()?)?;
            Ok(HR::Val(Val::sc(if n == "size_of" { l.size.bytes() } else { l.align.abi.bytes() } as u128, 8)))
        }
        "size_of_val" | "min_align_of_val" | "align_of_val" => {
            let t = ty0()?;
            let l = lay(t)?;
            if !l.is_unsized() { return Ok(HR::Val(Val::sc(if n == "size_of_val" { l.size.bytes() } else { l.align.abi.bytes() } as u128, 8))); }
            match t.kind() {
                ty::Slice(el) => { let el = lay(*el)?; if n == "size_of_val" { let (_, m) = fat(&args[0])?; scv(map1(&m, doms, |x| x * el.size.bytes() as u128)?, 8) } else { Ok(HR::Val(Val::sc(el.align.abi.bytes() as u128, 8))) } }
                ty::Str => { let (_, m) = fat(&args[0])?; if n == "size_of_val" { scv(m, 8) } else { Ok(HR::Val(Val::sc(1, 8))) } }
                _ => unsup("size_of_val"),
            }
        }
        "needs_drop" => Ok(HR::Val(Val::sc(ty0()?.needs_drop(tcx, e.lw.env) as u128, 1))),
        "likely" | "unlikely" | "black_box" => Ok(HR::Val(args[0].clone())),
        "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" | "prefetch_read_data" => unit(),
        "assume" => if s(0)?.konst(doms)? == 0 { ub("assumption violated") } else { unit() },
        "unreachable" => ub("unreachable code reached"),
        "abort" | "breakpoint" => Err(Need::Panic("abort".into())),
        "is_val_statically_known" => Ok(HR::Val(Val::sc(0, 1))),
        "select_unpredictable" => { let c = s(0)?.konst(doms)?; Ok(HR::Val(args[if c == 1 { 1 } else { 2 }].clone())) }
        "discriminant_value" => {
            let t = ty0()?;
            let di = e.lw.discr_info(t).map_err(Need::Unsup)?;
            let l = e.to_loc(st, ptr_of(&args[0])?)?;
            let v = e.discr(st, Some(l), &di)?;
            let Val::S(V::S(x), _) = v else { return unsup("discriminant") };
            scv(cast(&x, 128, false, dsize * 8, doms)?, dsize)
        }
        "ctpop" => { let (b, _) = int_ty(e, ty0()?)?; scv(ctpop(b, &s(0)?, doms)?, 4) }
        "cttz" | "cttz_nonzero" | "ctlz" | "ctlz_nonzero" => {
            let (b, _) = int_ty(e, ty0()?)?;
            let x = s(0)?;
            if n.ends_with("nonzero") {
                let z = binop(BOp::Eq, b, false, &x, &Sc::C(0), b, doms)?.konst(doms)?;
                if z == 1 { return ub("count of zeros of a zero value"); }
            }
            scv(ctz(b, n.starts_with("ctlz"), &x, doms)?, 4)
        }
        "bswap" => { let (b, _) = int_ty(e, ty0()?)?; scv(permute(b, &s(0)?, doms, |i| (b / 8 - 1 - i / 8) * 8 + i % 8)?, b / 8) }
        "bitreverse" => { let (b, _) = int_ty(e, ty0()?)?; scv(permute(b, &s(0)?, doms, |i| b - 1 - i)?, b / 8) }
        "rotate_left" | "rotate_right" => {
            let (b, _) = int_ty(e, ty0()?)?;
            let k = s(1)?.konst(doms)? as u32 % b;
            let k = if n == "rotate_left" { (b - k) % b } else { k };
            scv(permute(b, &s(0)?, doms, |i| (i + k) % b)?, b / 8)
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
            let op = match n { "wrapping_add" => BOp::Add, "wrapping_sub" => BOp::Sub, _ => BOp::Mul };
            let (a, b, w, sg, yb, _, op) = bin(op)?;
            scv(binop(op, w, sg, &a, &b, yb, doms)?, w / 8)
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let op = match n { "add_with_overflow" => BOp::Add, "sub_with_overflow" => BOp::Sub, _ => BOp::Mul };
            let (a, b, w, sg, yb, ys, op) = bin(op)?;
            let o = overflow(op, w, sg, &a, &b, yb, ys, doms)?;
            let r = binop(op, w, sg, &a, &b, yb, doms)?;
            Ok(HR::Val(Val::M(vec![Ch { off: 0, len: w / 8, v: V::S(r) }, Ch { off: w / 8, len: 1, v: V::S(o) }], dsize)))
        }
        "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "exact_div" => {
            let op = match n { "unchecked_add" => BOp::Add, "unchecked_sub" => BOp::Sub, "unchecked_mul" => BOp::Mul, "unchecked_shl" => BOp::Shl, "unchecked_shr" => BOp::Shr, "unchecked_rem" => BOp::Rem, _ => BOp::Div };
            let (a, b, w, sg, yb, ys, op) = bin(op)?;
            if matches!(op, BOp::Div | BOp::Rem) && b.konst(doms)? == 0 { return ub("division by zero"); }
            if n == "exact_div" && binop(BOp::Rem, w, sg, &a, &b, yb, doms)?.konst(doms)? != 0 { return ub("inexact division"); }
            if overflow(op, w, sg, &a, &b, yb, ys, doms)?.konst(doms)? == 1 { return ub(format!("{n} out of range")); }
            scv(binop(op, w, sg, &a, &b, yb, doms)?, w / 8)
        }
        "disjoint_bitor" => {
            let (a, b, w, sg, yb, _, _) = bin(BOp::Or)?;
            if binop(BOp::And, w, sg, &a, &b, yb, doms)?.konst(doms)? != 0 { return ub("disjoint_bitor of overlapping values"); }
            scv(binop(BOp::Or, w, sg, &a, &b, yb, doms)?, w / 8)
        }
        "saturating_add" | "saturating_sub" => {
            let (a, b, w, sg, _, _, _) = bin(BOp::Add)?;
            let add = n == "saturating_add";
            scv(map2(&a, &b, doms, |x, y| {
                if sg {
                    let (x, y) = (sext(x, w), sext(y, w));
                    let r = if add { x.saturating_add(y) } else { x.saturating_sub(y) };
                    let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    r.clamp(lo, hi) as u128 & wmask(w)
                } else if add { x.saturating_add(y).min(wmask(w)) } else { x.saturating_sub(y) }
            })?, w / 8)
        }
        "three_way_compare" => { let (a, b, w, sg, yb, _, _) = bin(BOp::Cmp)?; scv(binop(BOp::Cmp, w, sg, &a, &b, yb, doms)?, 1) }
        "offset" | "arith_offset" => {
            let pt = ty0()?;
            let el = if let Some(t) = pt.builtin_deref(true) { lay(t)?.size.bytes() } else { lay(pt)?.size.bytes() };
            let v = e.ptr_add(st, args[0].clone(), args[1].clone(), el, n == "offset")?;
            Ok(HR::Val(v))
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let el = lay(ty0()?)?.size.bytes() as i64;
            let (a, b) = (e.to_loc(st, ptr_of(&args[0])?)?, e.to_loc(st, ptr_of(&args[1])?)?);
            if a.base != b.base { return ub("difference of pointers into different objects"); }
            if el == 0 || (a.off - b.off) % el != 0 { return ub("pointer difference is not a multiple of the element size"); }
            let d = (a.off - b.off) / el;
            if n.ends_with("unsigned") && d < 0 { return ub("negative pointer difference"); }
            Ok(HR::Val(Val::sc(d as u64 as u128, 8)))
        }
        "ptr_guaranteed_cmp" => { let r = e.ptr_cmp(st, BOp::Eq, &args[0], &args[1])?; Ok(HR::Val(Val::sc(r as u128, 1))) }
        "raw_eq" => {
            let sz = lay(ty0()?)?.size.bytes() as u32;
            let (a, b) = (e.to_loc(st, ptr_of(&args[0])?)?, e.to_loc(st, ptr_of(&args[1])?)?);
            compare(e, st, a, b, sz, false)
        }
        "compare_bytes" => {
            let sz = s(2)?.konst(doms)? as u32;
            if sz == 0 { return Ok(HR::Val(Val::sc(0, 4))); }
            calls_itself(e, st, &["memcmp", "bcmp"], sz as u64)?;
            let (a, b) = (e.to_loc(st, ptr_of(&args[0])?)?, e.to_loc(st, ptr_of(&args[1])?)?);
            compare(e, st, a, b, sz, true)
        }
        "copy_nonoverlapping" | "copy" | "volatile_copy_memory" => {
            let el = lay(ty0()?)?.size.bytes();
            if crate::term::on() && el == 1 && matches!(s(2)?.norm(doms), Sc::T(_)) {
                let c = (s(1)?, s(0)?, s(2)?);
                Rc::make_mut(&mut st.mon.copies).push(c);
                return unit();
            }
            let k = s(2)?.konst(doms)? as u64;
            // (src, dst, count)
            e.copy(st, args[0].clone(), args[1].clone(), k * el)?;
            unit()
        }
        "write_bytes" => {
            let el = lay(ty0()?)?.size.bytes();
            let k = s(2)?.konst(doms)? as u64 * el;
            if k == 0 { return unit(); }
            calls_itself(e, st, &["memset"], k)?;
            let l = e.to_loc(st, ptr_of(&args[0])?)?;
            let b = s(1)?;
            let c = (0..k as u32).map(|i| Ch { off: i, len: 1, v: V::S(b.clone()) }).collect();
            e.write(st, l, Val::M(c, k as u32))?;
            unit()
        }
        "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
            let t = ty0()?;
            let sz = lay(t)?.size.bytes() as u32;
            if sz == 0 { return unit(); }
            let l = e.to_loc(st, ptr_of(&args[0])?)?;
            let v = e.read_range(st, l, sz)?;
            e.check_valid(st, &v, &e.lw.valid_ranges(t), "read")?;
            Ok(HR::Val(v))
        }
        "write_via_move" | "volatile_store" => {
            let l = e.to_loc(st, ptr_of(&args[0])?)?;
            e.write(st, l, args[1].clone())?;
            unit()
        }
        "typed_swap_nonoverlapping" => {
            let sz = lay(ty0()?)?.size.bytes() as u32;
            if sz == 0 { return unit(); }
            let (a, b) = (e.to_loc(st, ptr_of(&args[0])?)?, e.to_loc(st, ptr_of(&args[1])?)?);
            let (x, y) = (e.read_range(st, a, sz)?, e.read_range(st, b, sz)?);
            e.write(st, a, y)?;
            e.write(st, b, x)?;
            unit()
        }
        "ptr_metadata" => match &args[0] { Val::M(c, 16) => Ok(HR::Val(Val::S(c[1].v.clone(), 8))), _ => unit() },
        "aggregate_raw_ptr" => match (&args[0], &args[1]) {
            (Val::S(p, _), Val::S(m, _)) => Ok(HR::Val(Val::M(vec![Ch { off: 0, len: 8, v: p.clone() }, Ch { off: 8, len: 8, v: m.clone() }], 16))),
            (p, _) => Ok(HR::Val(p.clone())),
        },
        "slice_get_unchecked" => {
            // (slice pointer, index)
            let pt = info.inst.args.types().nth(1).ok_or(Need::Unsup("slice_get_unchecked".into()))?;
            let st_ = pt.builtin_deref(true).ok_or(Need::Unsup("slice_get_unchecked".into()))?;
            let ty::Slice(el) = st_.kind() else { return unsup("slice_get_unchecked") };
            let sz = lay(*el)?.size.bytes();
            let (p, m) = fat(&args[0])?;
            let i = s(1)?.konst(doms)?;
            if i >= m.konst(doms)? { return ub("slice index out of bounds"); }
            let v = e.ptr_add(st, Val::S(p, 8), Val::sc(i, 8), sz, true)?;
            Ok(HR::Val(v))
        }
        "const_eval_select" => {
            // (args tuple untupled?, const fn, runtime fn)
            let ft = info.inst.args.types().nth(2).ok_or(Need::Unsup("const_eval_select".into()))?;
            let ty::FnDef(d, a) = ft.kind() else { return unsup("const_eval_select") };
            let i = Instance::try_resolve(tcx, e.lw.env, *d, tcx.instantiate_bound_regions_with_erased(*a)).ok().flatten().ok_or(Need::Unsup("const_eval_select".into()))?;
            let g = e.lw.intern(i);
            let t = ty0()?;
            let ty::Tuple(fs) = t.kind() else { return unsup("const_eval_select") };
            let l = lay(t)?;
            let m = args[0].clone().mem();
            let mut out = vec![];
            for (i, f) in fs.iter().enumerate() {
                let fl = lay(f)?;
                let sz = fl.size.bytes() as u32;
                if sz == 0 { out.push(Val::Z); continue; }
                let c = m.read_range(l.fields.offset(i).bytes() as u32, sz, doms)?;
                out.push(if c.len() == 1 && c[0].len == sz { Val::S(c[0].v.clone(), sz) } else { Val::M(c, sz) });
            }
            Ok(HR::Call(g, out))
        }
        n if n.starts_with("atomic_") && crate::term::on() => atomic(e, st, n, info, args, dsize),
        "caller_location" => unsup("caller_location"),
        "type_id" => unsup("type_id"),
        _ => {
            // a fallback body, if there is one
            let d = info.inst.def_id();
            if let Some(i) = tcx.intrinsic(d) {
                if !i.must_be_overridden {
                    let g = e.lw.intern_body(Instance { def: InstanceKind::Item(d), args: info.inst.args });
                    return Ok(HR::Body(g));
                }
            }
            unsup(format!("intrinsic {n}"))
        }
    }
}
/// Bytewise comparison of two ranges (equality as 0/1, or three-way as an i32).
fn compare<'tcx>(e: &Engine<'tcx>, st: &State, a: Loc, b: Loc, n: u32, order: bool) -> H {
    let doms = &st.doms;
    let (ma, mb) = (e.read_range(st, a, n)?.mem(), e.read_range(st, b, n)?.mem());
    if !order {
        // compare in the units they are stored in, if they agree
        let (ca, cb) = (ma.chunks(), mb.chunks());
        let same = ca.len() == cb.len() && ca.iter().zip(cb).all(|(x, y)| x.off == y.off && x.len == y.len);
        if same {
            let total: u32 = ca.iter().map(|c| c.len).sum();
            if total < n { return ub("comparison of uninitialised memory"); }
            for (x, y) in ca.iter().zip(cb) {
                let (V::S(x1), V::S(y1)) = (&x.v, &y.v) else { return unsup("comparison of bytes") };
                let r = binop(BOp::Eq, x.len * 8, false, x1, y1, x.len * 8, doms)?.konst(doms)?;
                if r == 0 { return Ok(HR::Val(Val::sc(0, 1))); }
            }
            return Ok(HR::Val(Val::sc(1, 1)));
        }
    }
    for i in 0..n {
        let (V::S(x), V::S(y)) = (ma.read(i, 1, doms)?, mb.read(i, 1, doms)?) else { return unsup("comparison of bytes") };
        let r = binop(BOp::Cmp, 8, false, &x, &y, 8, doms)?.konst(doms)?;
        if r != 0 {
            return Ok(HR::Val(if order { Val::sc(if r == 1 { 1 } else { 0xffff_ffff }, 4) } else { Val::sc(0, 1) }));
        }
    }
    Ok(HR::Val(Val::sc(if order { 0 } else { 1 }, if order { 4 } else { 1 })))
}

/// An operation on shared memory. Other threads run in between: every read gives a new unknown value.
fn atomic<'tcx>(e: &Engine<'tcx>, st: &mut State, n: &str, info: &FnInfo<'tcx>, args: &[Val], dsize: u32) -> H {
    use crate::mon::Atomic;
    if n.ends_with("fence") { return unit(); }
    let ty = info.inst.args.types().next().ok_or(Need::Unsup("atomic".into()))?;
    if !ty.is_integral() { return unsup(format!("{n} on {ty}")); }
    let (bits, sg) = int_ty(e, ty)?;
    let l = e.to_loc(st, ptr_of(&args[0])?)?;
    let Base::G(_) = l.base else { return unsup("atomic operation on memory that is not shared") };
    let at = Ptr { base: l.base, off: l.off };
    if st.mon.atom.iter().any(|x| x.0 != at) { return unsup("several atomic variables") }
    let doms = st.doms.clone();
    let fresh = crate::term::var(2 + st.mon.fresh).sc();
    let log = |st: &mut State, a: Atomic| Rc::make_mut(&mut st.mon.atom).push((at, a));
    let s = |i: usize| e.sc(args[i].clone());
    let pair = |v: Sc, ok: bool| Val::M(vec![Ch { off: 0, len: bits / 8, v: V::S(v) }, Ch { off: bits / 8, len: 1, v: V::c(ok as u128) }], dsize);
    Ok(match n {
        "atomic_load" => { st.mon.fresh += 1; log(st, Atomic::Load(fresh.clone())); HR::Val(Val::S(V::S(fresh), bits / 8)) }
        "atomic_store" => { let v = s(1)?; log(st, Atomic::Store(v)); HR::Val(Val::Z) }
        "atomic_cxchg" | "atomic_cxchgweak" => {
            let (old, new) = (s(1)?, s(2)?);
            let mut ok = st.clone();
            log(&mut ok, Atomic::Rmw(old.clone(), new));
            let mut out = vec![(ok, pair(old, true))];
            let mut f = st.clone();
            f.mon.fresh += 1;
            log(&mut f, Atomic::Load(fresh.clone()));
            let shape = shape(&f);
            if !f.mon.shapes.contains(&shape) {
                if f.mon.shapes.len() > 8 { return unsup("retry loop without a recurring state"); }
                Rc::make_mut(&mut f.mon.shapes).push(shape);
                out.push((f, pair(fresh, false)));
            }
            HR::Alts(out)
        }
        _ => {
            let v = s(1)?;
            let new = match n {
                "atomic_xchg" => v,
                "atomic_xadd" => binop(BOp::Add, bits, sg, &fresh, &v, bits, &doms)?,
                "atomic_xsub" => binop(BOp::Sub, bits, sg, &fresh, &v, bits, &doms)?,
                "atomic_and" => binop(BOp::And, bits, sg, &fresh, &v, bits, &doms)?,
                "atomic_or" => binop(BOp::Or, bits, sg, &fresh, &v, bits, &doms)?,
                "atomic_xor" => binop(BOp::Xor, bits, sg, &fresh, &v, bits, &doms)?,
                "atomic_umin" | "atomic_umax" => if (binop(BOp::Lt, bits, false, &fresh, &v, bits, &doms)?.konst(&doms)? == 1) == (n == "atomic_umin") { fresh.clone() } else { v },
                _ => return unsup(n),
            };
            st.mon.fresh += 1;
            log(st, Atomic::Rmw(fresh.clone(), new));
            HR::Val(Val::S(V::S(fresh), bits / 8))
        }
    })
}
/// The state up to the names of the values read so far: a retry from an equal shape does nothing new.
fn shape(st: &State) -> String {
    let mut t = String::new();
    for f in &st.frames { t.push_str(&format!("{} {} {} {:?}|", f.fid, f.bb, f.st, f.locals)); }
    let vars = |t: &str| -> Vec<u32> { t.match_indices('v').filter_map(|(i, _)| { let r = &t[i + 1..]; let n = r.find('_')?; r[..n].parse().ok() }).collect() };
    let mut live = vars(&t);
    live.sort();
    live.dedup();
    live.reverse();
    live.retain(|x| *x >= 2);
    let rename = |t: &str| { let mut t = t.to_string(); for (i, v) in live.iter().enumerate() { t = t.replace(&format!("v{v}_"), &format!("w{i}_")); } t };
    let mut fs: Vec<String> = crate::term::facts(&st.doms).iter().map(|l| format!("{l:?}")).filter(|s| vars(s).iter().all(|v| *v < 2 || live.contains(v))).map(|s| rename(&s)).collect();
    fs.sort();
    fs.dedup();
    format!("{} {fs:?} {}", rename(&t), st.mon.atom.iter().filter(|x| !matches!(x.1, crate::mon::Atomic::Load(_))).count())
}

thread_local! {
    /// Whether taking elements out of a move list is a violation (else it is only not modelled).
    pub static CUT_BAD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
