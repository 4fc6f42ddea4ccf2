//! Equality, ordering and hashing (C23), and the default legality operations (C25).
use crate::gen::*;
use crate::mem::*;
use crate::mon::Ev;
use crate::props::*;
use crate::sem::*;
use crate::posspec::{move_of, Cover};
use crate::spec::*;
use crate::val::*;
use rustc_middle::ty;
use std::cmp::Ordering;
use std::rc::Rc;

/// The content of a value, part by part in declared order.
#[derive(Clone, Debug)]
enum Item { Num(Sc, u32), Seq(Option<Sym>, usize), King(Sc) }
fn content(s: &Sem, out: &mut Vec<Item>) {
    match s {
        Sem::S(x, n) => out.push(Item::Num(x.clone(), *n)),
        Sem::W(w) => for x in w { out.push(Item::Num(x.clone(), 64)); },
        Sem::T(v) => for x in v { content(x, out); },
        Sem::V(k, v) => { out.push(Item::Num(Sc::C(*k as u128), 32)); for x in v { content(x, out); } }
        Sem::P(p) => {
            let mut put = |s: &Sc, n: u32| out.push(Item::Num(s.clone(), n));
            put(&p.side, 8);
            put(&p.ply, 16);
            for h in &p.hands { for x in h { put(x, 8); } }
            for x in &p.cells { put(x, 8); }
            put(&p.last, 16);
            for k in &p.king { out.push(Item::King(k.clone())); }
        }
        Sem::Q(p, v) => {
            out.push(Item::Seq(*p, v.len()));
            for x in v { content(x, out); }
        }
        Sem::O => {}
    }
}
/// How two numbers compare, splitting if undecided.
fn cmp_num(st: &State, a: &Sc, b: &Sc, bits: u32) -> R<Ordering> {
    let (a, b) = (a.norm(&st.doms), b.norm(&st.doms));
    if a == b { return Ok(Ordering::Equal); }
    let mut sy: Vec<(Sym, u32)> = a.syms();
    sy.extend(b.syms());
    sy.sort();
    sy.dedup();
    sy.retain(|s| st.doms[s.0 as usize].single().is_none());
    if sy.len() <= 2 {
        let c = binop(BOp::Cmp, bits.max(8), false, &a, &b, bits.max(8), &st.doms)?;
        return Ok(match c.konst(&st.doms)? as u8 { 0 => Ordering::Equal, 255 => Ordering::Less, _ => Ordering::Greater });
    }
    for (x, y) in a.to_bits(bits).iter().zip(&b.to_bits(bits)).rev() {
        let Some(d) = Bit::op(x, y, |a, b| a != b) else { return unsup("comparison too complex") };
        match d.norm(&st.doms) {
            Bit::K(false) => {}
            Bit::K(true) => return match x.norm(&st.doms) { Bit::K(false) => Ok(Ordering::Less), Bit::K(true) => Ok(Ordering::Greater), b => Err(split_bit(&st.doms, &b)) },
            b => return Err(split_bit(&st.doms, &b)),
        }
    }
    Ok(Ordering::Equal)
}
/// The order of two recorded sequences: known only if they were compared.
fn cmp_seq(st: &State, a: Option<Sym>, b: Option<Sym>) -> R<Option<Ordering>> {
    let obj = |p: Sym| st.heap.iter().position(|o| matches!(&o.kind, ObjKind::Seq { prefix: Some(q), .. } if *q == p)).map(|x| x as u32);
    let (Some(a), Some(b)) = (a, b) else { return unsup("comparison of sequences") };
    let (Some(a), Some(b)) = (obj(a), obj(b)) else { return unsup("comparison of sequences") };
    if a == b { return Ok(Some(Ordering::Equal)); }
    let (x, y, swap) = if a < b { (a, b, false) } else { (b, a, true) };
    let Some(e) = st.mon.seqpair.iter().find(|p| (p.0, p.1) == (x, y)) else { return Ok(None) };
    let d = &st.doms[e.2 as usize];
    let Some(v) = d.single() else { return Err(split_by(&st.doms, e.2, |i| i as u64)) };
    let o = match v { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater };
    Ok(Some(if swap { o.reverse() } else { o }))
}
/// Whether two contents are equal; None if that depends on sequences never compared.
fn equal(st: &State, a: &Sem, b: &Sem) -> R<Option<bool>> {
    let (mut x, mut y) = (vec![], vec![]);
    content(a, &mut x);
    content(b, &mut y);
    // an enum: different alternatives
    let mut open = false;
    let mut split: Option<Need> = None;
    for (p, q) in x.iter().zip(&y) {
        match (p, q) {
            (Item::Num(u, n), Item::Num(v, m)) => {
                let (u, v) = (u.norm(&st.doms), v.norm(&st.doms));
                if u == v { continue; }
                for (m, n) in u.to_bits(*n.max(m)).iter().zip(&v.to_bits(*n.max(m))) {
                    let Some(d) = Bit::op(m, n, |a, b| a != b) else { return unsup("comparison too complex") };
                    match d.norm(&st.doms) { Bit::K(true) => return Ok(Some(false)), Bit::K(false) => {} b => if split.is_none() { split = Some(split_bit(&st.doms, &b)); } }
                }
            }
            (Item::Seq(p, n), Item::Seq(q, m)) => {
                if n != m { return unsup("comparison of sequences"); }
                match cmp_seq(st, *p, *q)? { Some(Ordering::Equal) => {} Some(_) => return Ok(Some(false)), None => open = true }
            }
            (Item::King(_), Item::King(_)) => {}
            _ => return Ok(Some(false)),
        }
    }
    if let Some(s) = split { return Err(s); }
    if x.len() != y.len() { return Ok(Some(false)); }
    Ok(if open { None } else { Some(true) })
}
/// Equal boards have equal recorded kings (with at most one king per side): other states are none.
fn kings_differ(st: &State, a: &Sem, b: &Sem) -> R<bool> {
    let (mut x, mut y) = (vec![], vec![]);
    content(a, &mut x);
    content(b, &mut y);
    let mut split = None;
    for (p, q) in x.iter().zip(&y) {
        let (Item::King(u), Item::King(v)) = (p, q) else { continue };
        let (u, v) = (u.norm(&st.doms), v.norm(&st.doms));
        if u == v { continue; }
        let c = binop(BOp::Eq, 8, false, &u, &v, 8, &st.doms)?;
        match c.konst(&st.doms) { Ok(0) => return Ok(true), Ok(_) => {} Err(n) => split = Some(n) }
    }
    match split { Some(n) => Err(n), None => Ok(false) }
}
fn lexicographic(st: &State, a: &[Item], b: &[Item]) -> R<Option<Ordering>> {
    for (p, q) in a.iter().zip(b) {
        let o = match (p, q) {
            (Item::Num(u, n), Item::Num(v, m)) => cmp_num(st, u, v, *n.max(m))?,
            (Item::Seq(p, _), Item::Seq(q, _)) => match cmp_seq(st, *p, *q)? { Some(o) => o, None => return Ok(None) },
            _ => Ordering::Equal,
        };
        if o != Ordering::Equal { return Ok(Some(o)); }
    }
    Ok(Some(Ordering::Equal))
}
fn as_ord(x: u64) -> Option<Ordering> { match x { 255 => Some(Ordering::Less), 0 => Some(Ordering::Equal), 1 => Some(Ordering::Greater), _ => None } }
/// The stored words of a set of squares.
fn raw_words(c: &Cx, i: usize) -> R<Vec<Item>> {
    let Val::S(V::P(p), _) = &c.g.argv[i] else { return unsup("reference") };
    let v = c.e.read_range(c.st, Loc { base: p.base, off: p.off }, 16)?.mem();
    (0..2).map(|w| match v.read(8 * w, 8, c.doms())? { V::S(s) => Ok(Item::Num(s, 64)), _ => unsup("word") }).collect()
}
use crate::exec::*;

pub fn c23(px: &mut Px) {
    let funs: Vec<(String, String, String)> = px.api.funs.iter().filter(|f| f.public).filter_map(|f| {
        let tr = f.trait_impl.clone()?;
        let t = f.self_ty?;
        if !matches!(t.kind(), ty::Adt(..)) || !is_crate(&px.e, t) { return None; }
        if !matches!(tr.as_str(), "PartialEq" | "PartialOrd" | "Ord" | "Hash") { return None; }
        Some((f.key.clone(), tr, name_of(&px.e, t)))
    }).collect();
    let small = |t: &str| !matches!(t, "Bitboard" | "ByteSwappedBitboard" | "Hand" | "Move" | "Position" | "PartialPosition" | "Game" | "PartialGame");
    let mut n = [0; 3];
    for (key, tr, t) in funs {
        let name = key.rsplit("::").next().unwrap().to_string();
        let small = small(&t);
        let cmp = px.f_of(&format!("<{t} as Ord>::cmp"));
        let eq = px.f_of(&format!("<{t} as PartialEq<{t}>>::eq"));
        match (tr.as_str(), name.as_str()) {
            ("PartialEq", "eq") => {
                n[0] += 1;
                px.spec(&key, |c| {
                    let r = c.k(&c.ret()?)? == 1;
                    match equal(c.st, c.arg(0), c.arg(1))? {
                        Some(s) if s == r => Ok(()),
                        Some(true) | None if !r && kings_differ(c.st, c.arg(0), c.arg(1))? => Ok(()),
                        None if !r => c.viol("two values that may have the same content compare unequal"),
                        None => c.viol("two values that may have different contents compare equal"),
                        Some(s) => c.viol(format!("two values with {} contents compare {}", if s { "equal" } else { "different" }, if r { "equal" } else { "unequal" })),
                    }
                });
            }
            ("PartialEq", "ne") => {
                let Some(eq) = eq else { continue };
                px.spec(&key, move |c| {
                    let r = c.k(&c.ret()?)? == 1;
                    c.nest(&eq, c.st, c.g.argv.clone(), &mut |st, v| if (sem(c.e, st, eq.out, &v.clone().mem(), 0, 0)?.sc()?.konst(&st.doms)? == 1) == r { Err(Need::Viol("eq and ne agree".into())) } else { Ok(()) })
                });
            }
            ("Ord", "cmp") => {
                n[1] += 1;
                let t2 = t.clone();
                let Some(f) = px.f(&key) else { continue };
                // first that values with different contents never compare as equal, whatever the order
                if !small {
                    px.spec(&key, |c| {
                        if as_ord(c.k(&c.ret()?)?) != Some(Ordering::Equal) { return Ok(()); }
                        match equal(c.st, c.arg(0), c.arg(1))? {
                            Some(true) => Ok(()),
                            Some(false) => c.viol("two values with different contents compare as Equal"),
                            None => c.viol("two values compare as Equal without their move lists being compared"),
                        }
                    });
                }
                px.spec(&key, move |c| {
                    let Some(r) = as_ord(c.k(&c.ret()?)?) else { return c.viol("no ordering is returned") };
                    let (mut x, mut y) = (vec![], vec![]);
                    content(c.arg(0), &mut x);
                    content(c.arg(1), &mut y);
                    if t2 == "ByteSwappedBitboard" { x = raw_words(c, 0)?; y = raw_words(c, 1)?; }
                    // the small code types are ordered by their codes; the others by their parts in order
                    if lexicographic(c.st, &x, &y)? == Some(r) { return Ok(()); }
                    if small { return c.viol(format!("the values compare as {r:?}, against their codes")); }
                    // another order: it must be consistent with equality and antisymmetric
                    match equal(c.st, c.arg(0), c.arg(1))? {
                        Some(e) if e != (r == Ordering::Equal) => return c.viol(format!("two values with {} contents compare as {r:?}", if e { "equal" } else { "different" })),
                        None => return c.viol(format!("two values compare as {r:?} without their move lists being compared")),
                        _ => {}
                    }
                    c.nest(&f, c.st, vec![c.g.argv[1].clone(), c.g.argv[0].clone()], &mut |st, v| {
                        let b = as_ord(sem(c.e, st, f.out, &v.clone().mem(), 0, 0)?.sc()?.konst(&st.doms)? as u64);
                        if b != Some(r.reverse()) { return Err(Need::Viol(format!("the values compare as {r:?}, and as {b:?} the other way round"))); }
                        Ok(())
                    })?;
                    unsup("an order that is not the lexicographic one: transitivity is not decided")
                });
            }
            ("PartialOrd", "partial_cmp" | "lt" | "le" | "gt" | "ge") => {
                let Some(cmp) = cmp else { continue };
                px.spec(&key, move |c| {
                    let r = c.k(&c.ret()?)?;
                    c.nest(&cmp, c.st, c.g.argv.clone(), &mut |st, v| {
                        let o = sem(c.e, st, cmp.out, &v.clone().mem(), 0, 0)?.sc()?.konst(&st.doms)? as u64;
                        let Some(oo) = as_ord(o) else { return Err(Need::Viol("no ordering is returned".into())) };
                        let want = match name.as_str() { "partial_cmp" => o, "lt" => oo.is_lt() as u64, "le" => oo.is_le() as u64, "gt" => oo.is_gt() as u64, _ => oo.is_ge() as u64 };
                        if want != r { return Err(Need::Viol(format!("{name} contradicts the total order: {:?} where cmp gives {oo:?}", as_ord(r)))); }
                        Ok(())
                    })
                });
            }
            ("Hash", "hash") => {
                n[2] += 1;
                // what reaches the hasher depends on the content alone
                px.spec(&key, |c| {
                    let mut con = vec![];
                    content(c.arg(0), &mut con);
                    let mut king: Vec<Sym> = vec![];
                    let mut own: Vec<Sym> = vec![];
                    for i in &con { match i { Item::King(s) => king.extend(s.syms().iter().map(|s| s.0)), Item::Num(s, _) => own.extend(s.syms().iter().map(|s| s.0)), _ => {} } }
                    // a recorded king square is part of the content only through the board, for positions of at most one king per side
                    let mut fed = 0;
                    for e in c.st.mon.trace.iter() {
                        let Ev::Hash(_, data) = e else { continue };
                        for (s, _) in data {
                            fed += 1;
                            for (y, _) in s.norm(c.doms()).syms() {
                                if !own.contains(&y) && !king.contains(&y) && !is_len(c.st, y) { return c.viol("something besides the content is fed to the hasher"); }
                            }
                        }
                    }
                    let _ = fed;
                    Ok(())
                });
            }
            _ => {}
        }
    }
    for (i, (w, min)) in [("PartialEq", 20), ("Ord", 20), ("Hash", 20)].iter().enumerate() {
        let cfg = i == 0 || px.api.funs.iter().any(|f| f.trait_impl.as_deref() == Some(w));
        if cfg && n[i] < *min && px.api.adt("Position").is_some() { px.missing.push((w.to_string(), format!("only {} implementations found", n[i]))); }
    }
}
fn is_len(st: &State, s: Sym) -> bool { st.heap.iter().any(|o| matches!(&o.kind, ObjKind::Seq { prefix: Some(q), .. } if *q == s)) }
/// A full position like the given one, in new memory.
fn rebuild<'tcx>(e: &Engine<'tcx>, st: &mut State, t: ty::Ty<'tcx>, s: &Sem) -> R<Val> {
    let tcx = e.lw.tcx;
    let (Sem::T(v), ty::Adt(d, args)) = (s, t.kind()) else { return unsup("position") };
    let l = e.lw.layout(t).map_err(Need::Unsup)?;
    let mut out = vec![];
    for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
        let ft = tcx.normalize_erasing_regions(e.lw.env, f.ty(tcx, args));
        let x = match &v[i] {
            Sem::P(p) => crate::posspec::pos_val(e, ft, p)?,
            Sem::Q(prefix, items) if items.is_empty() => {
                let o = st.alloc(Obj { mem: Mem::Empty, size: 0, align: 8, ro: false, kind: ObjKind::Seq { prefix: *prefix, items: Rc::new(vec![]), string: false }, heap: true });
                crate::hooks::seq_val(o)
            }
            _ => return unsup("position"),
        };
        out.extend(x.chunks().into_iter().map(|mut c| { c.off += l.fields.offset(i).bytes() as u32; c }));
    }
    out.sort_by_key(|c| c.off);
    Ok(Val::M(out, l.size.bytes() as u32))
}
/// The provided operations of the legality trait, over any checker: its required operations return anything.
pub fn c25(px: &mut Px, thorough: bool) {
    if px.api.adt("Position").is_none() { return; }
    let Some(mm) = px.f("Position::make_move") else { return };
    // a mention of the checker's operations, in the order the verdict may come from
    let provided: Vec<String> = px.api.funs.iter().filter(|f| f.key.starts_with("trait LegalityChecker::") && px.api.tcx.defaultness(f.did).has_value()).map(|f| f.key.clone()).collect();
    for n in ["is_legal", "is_legal_lite", "all_legal_moves", "make_move"] {
        let key = format!("trait LegalityChecker::{n}");
        if !provided.contains(&key) { px.fact(false, "the trait no longer provides this operation", key); continue; }
        let Some(f) = px.f(&key) else { continue };
        let mm = mm.clone();
        let spec: Spec = Rc::new(move |c: &Cx| {
            let V::P(pos) = c.g.argv[1].clone().mem().read(0, 8, c.doms())? else { return unsup("position") };
            let calls: Vec<(&String, &Vec<V>, &Vec<V>)> = c.st.mon.trace.iter().filter_map(|e| match e { Ev::Call(n, a, r) if !n.starts_with("hash") => Some((n, a, r)), _ => None }).collect();
            let post = if n == "make_move" { Some(c.post(1)?) } else { None };
            for (i, x) in calls.iter().enumerate() { if calls[..i].iter().any(|y| x.0 == y.0 && x.1 == y.1) { return unsup("the checker is asked the same twice"); } }
            let Some(status) = calls.iter().find(|x| x.0 == "status" && x.1[..] == [V::P(pos)]) else { return c.viol("the status of the game is not asked for") };
            let V::S(status) = &status.2[0] else { return unsup("status") };
            let progress = map1(status, c.doms(), |x| (x == 4) as u128)?.konst(c.doms())? == 1;
            let ret = c.ret()?;
            let unchanged = |what: &str| -> R<()> { match &post { Some(p) => c.same(what, p, c.arg(1)), None => Ok(()) } };
            if !progress {
                unchanged("position of a game that is over")?;
                return match n {
                    "is_legal" | "make_move" => c.same("verdict for a game that is over", &ret, &num(6, 16)),
                    "is_legal_lite" => c.same("verdict for a game that is over", &ret, &num(0, 8)),
                    _ => c.same("moves of a game that is over", &ret, &Sem::Q(None, vec![])),
                };
            }
            // where the current position lies
            let t = c.f.ins[1].peel_refs();
            let l = c.e.lw.layout(t).map_err(Need::Unsup)?;
            let cur = Ptr { base: pos.base, off: pos.off + l.fields.offset(crate::posspec::parts().1).bytes() as i64 };
            let mut args = vec![V::P(cur)];
            if c.g.args.len() > 2 { let mut v = vec![]; flat(c.arg(2), "", &mut v); args.extend(v.into_iter().map(|x| V::S(x.1.norm(c.doms())))); }
            let norm = |v: &[V]| -> Vec<V> { v.iter().map(|x| match x { V::S(s) => V::S(s.norm(c.doms())), x => x.clone() }).collect() };
            let asked = |m: &str| calls.iter().find(|x| x.0 == m && norm(x.1) == args).map(|x| x.2.clone());
            let mut got = vec![];
            flat(&ret, "", &mut got);
            let same_as = |r: &[V], f: &dyn Fn(u128) -> u128| -> R<bool> {
                if r.len() != got.len() { return Ok(false); }
                for (x, y) in r.iter().zip(&got) {
                    let V::S(x) = x else { return unsup("verdict") };
                    let x = if r.len() == 1 { map1(x, c.doms(), f)? } else { x.clone() };
                    if differ(&x, &y.1, y.2, c.doms())?.is_some() { return Ok(false); }
                }
                Ok(true)
            };
            match n {
                "is_legal" | "make_move" => {
                    let Some(v) = asked("is_legal_partial") else { return c.viol("the checker is not asked about this move in the current position") };
                    if !same_as(&v, &|x| x)? { return c.viol("the result is not the checker's verdict"); }
                    let V::S(v) = &v[0] else { return unsup("verdict") };
                    let legal = map1(v, c.doms(), |x| (x == 0) as u128)?.konst(c.doms())? == 1;
                    if n == "is_legal" { return Ok(()); }
                    if !legal { return unchanged("position after an illegal move"); }
                    // exactly what making the move does
                    let mut st = c.st.clone();
                    let val = rebuild(c.e, &mut st, t, c.arg(1))?;
                    let this = place(c.e, &mut st, t, &val)?;
                    let mv = move_of(c, c.arg(2))?;
                    c.nest(&mm, &st, vec![this.clone(), crate::posspec::move_val(c.e, mm.ins[1], mv)?], &mut |st, _| {
                        let want = sem(c.e, st, mm.ins[0], &this.clone().mem(), 0, 0)?;
                        let now = sem(c.e, st, c.f.ins[1], &c.g.argv[1].clone().mem(), 0, 0)?;
                        same(st, "position after a legal move", &now, &want)
                    })
                }
                "is_legal_lite" => {
                    let lite = match asked("is_legal_partial_lite") { Some(v) => Some(same_as(&v, &|x| x)?), None => None };
                    let full = match asked("is_legal_partial") { Some(v) => Some(same_as(&v, &|x| (x == 0) as u128)?), None => None };
                    match (lite, full) {
                        (None, None) => c.viol("the checker is not asked about this move in the current position"),
                        (Some(true), _) | (_, Some(true)) => Ok(()),
                        _ => c.viol("the result is not the checker's verdict"),
                    }
                }
                _ => {
                    let Some(v) = asked("all_legal_moves_partial") else { return c.viol("the checker is not asked for the moves of the current position") };
                    if !same_as(&v, &|x| x)? { return c.viol("the result is not what the checker lists"); }
                    Ok(())
                }
            }
        });
        let mut c = px.mk(&f, spec);
        // that a legal move cannot be refused is the checker's promise
        c.faults = (false, false);
        if n == "make_move" { let v = expand_some(px, c, &f.ins, if thorough { Cover::All } else { Cover::Some(11) }); px.cases.extend(v); } else { px.cases.push(c); }
    }
}

/// The Rust counterpart of a C function.
fn counterpart<'tcx>(px: &Px<'tcx>, export: &str) -> Option<String> {
    let (t, m) = export.split_once('_')?;
    let op = match m { "not" => "Not::not", "bitand" => "BitAnd<Bitboard>::bitand", "bitor" => "BitOr<Bitboard>::bitor", "bitxor" => "BitXor<Bitboard>::bitxor",
        "bitand_assign" => "BitAndAssign<Bitboard>::bitand_assign", "bitor_assign" => "BitOrAssign<Bitboard>::bitor_assign", "bitxor_assign" => "BitXorAssign<Bitboard>::bitxor_assign", _ => "" };
    if !op.is_empty() { let (tr, f) = op.split_once("::").unwrap(); let k = format!("<{t} as {tr}>::{f}"); if px.api.get(&k).is_some() { return Some(k); } }
    [format!("{t}::{m}"), format!("{t}::{m}d"), format!("{t}::{m}ed")].into_iter().find(|k| px.api.get(k).is_some())
}
pub fn c27(px: &mut Px, thorough: bool) {
    let exports: Vec<(String, String)> = px.api.funs.iter().filter_map(|f| f.export.clone().map(|e| (e, f.key.clone()))).collect();
    for (ex, key) in exports {
        if ex.ends_with("_to_sfen_c") || ex.ends_with("_destruct") { continue; }
        let Some(r) = counterpart(px, &ex) else { px.missing.push((ex, "no Rust counterpart of this name".into())); continue };
        if r == key { px.fact(true, "", ex); continue; }
        let (Some(f), Some(r)) = (px.f(&format!("c:{ex}")), px.f(&r)) else { continue };
        let (f2, r2) = (f.clone(), r.clone());
        let spec: Spec = Rc::new(move |c: &Cx| {
            let (f, r) = (&f2, &r2);
            let name_r = name_of(c.e, r.out);
            // an added or removed piece: the new hand, or refused
            let by_value = f.ins.len() == r.ins.len() && f.ins.first().is_some_and(|t| t.is_ref()) && r.ins.first().is_some_and(|t| !t.is_ref()) && name_r == "Option";
            let buffer = f.ins.len() == r.ins.len() + 1;
            let mut args = c.g.dup.clone();
            let mut st = c.st.clone();
            if by_value {
                let t = f.ins[0].peel_refs();
                let sz = c.e.lw.layout(t).map_err(Need::Unsup)?.size.bytes() as u32;
                let Val::S(V::P(p), _) = &args[0] else { return unsup("reference") };
                args[0] = c.e.read_range(&st, Loc { base: p.base, off: p.off }, sz)?;
            }
            let buf = if buffer { Some(args.remove(0)) } else { None };
            for (i, t) in r.ins.iter().enumerate() {
                if t.is_ref() && !f.ins[i].is_ref() { args[i] = place(c.e, &mut st, f.ins[i], &args[i])?; }
            }
            let dup = c.g.dup.clone();
            c.nest(r, &st, args, &mut |st, v| {
                let want = sem(c.e, st, r.out, &v.clone().mem(), 0, 0)?;
                if let Some(b) = &buf {
                    let Val::S(V::P(p), _) = b else { return unsup("buffer") };
                    let Val::S(V::P(q), _) = &c.g.argv[0] else { return unsup("buffer") };
                    let _ = p;
                    let sz = c.e.lw.layout(r.out).map_err(Need::Unsup)?.size.bytes() as u32;
                    let got = c.e.read_range(st, Loc { base: q.base, off: q.off }, sz)?;
                    return same(st, "what is stored", &sem(c.e, st, r.out, &got.mem(), 0, 0)?, &want);
                }
                let got = sem(c.e, st, f.out, &c.retv.clone().mem(), 0, 0)?;
                if by_value {
                    let now = sem(c.e, st, f.ins[0], &c.g.argv[0].clone().mem(), 0, 0)?;
                    let (ok, w) = match &want { Sem::V(0, _) => (0, c.arg(0).clone()), Sem::V(_, x) => (1, x[0].clone()), _ => return unsup("optional result") };
                    same(st, "success", &got, &num(ok, 8))?;
                    return same(st, "the argument afterwards", &now, &w);
                }
                // none is 0
                let want = match (&want, &got) {
                    (Sem::V(0, x), Sem::S(..)) if x.is_empty() => num(0, 8),
                    (Sem::V(1, x), Sem::S(..)) if x.len() == 1 => x[0].clone(),
                    (Sem::S(x, 16), Sem::S(_, 8)) => Sem::S(map1(x, &st.doms, |x| if x == 256 { 0 } else { x })?, 8),
                    _ => want,
                };
                same(st, "result", &got, &want)?;
                for i in 0..f.ins.len() {
                    if !f.ins[i].is_ref() || !r.ins[i].is_ref() { continue; }
                    let a = sem(c.e, st, f.ins[i], &c.g.argv[i].clone().mem(), 0, 0)?;
                    let b = sem(c.e, st, r.ins[i], &dup[i].clone().mem(), 0, 0)?;
                    same(st, "the argument afterwards", &a, &b)?;
                }
                Ok(())
            })
        });
        let c = px.mk(&f, spec);
        let v = expand_some(px, c, &f.ins, Cover::Some(if thorough { 1 } else { 23 }));
        px.cases.extend(v);
    }
    // destruction releases the position
    if let Some(f) = px.f_of("c:Position_destruct") {
        let c = px.mk(&f, Rc::new(|c: &Cx| {
            let Val::S(V::P(p), _) = &c.g.argv[0] else { return unsup("pointer") };
            let Base::H(o) = p.base else { return unsup("pointer") };
            if !matches!(c.st.heap[o as usize].kind, ObjKind::Freed) { return c.viol("the position is not released"); }
            if c.st.heap.iter().any(|x| matches!(x.kind, ObjKind::Seq { .. })) { return c.viol("the move list is not released"); }
            Ok(())
        }));
        px.cases.push(c);
    }
    crate::textspec::stream(px);
}

/// Copies hold what the original holds, and share no memory with it.
pub fn c34(px: &mut Px) {
    let funs: Vec<(String, String)> = px.api.funs.iter().filter(|f| f.public && f.trait_impl.as_deref() == Some("Clone")).filter(|f| f.self_ty.is_some_and(|t| matches!(t.kind(), ty::Adt(..)) && is_crate(&px.e, t))).map(|f| (f.key.clone(), f.key.rsplit("::").next().unwrap().to_string())).collect();
    let mut n = 0;
    // a copy never needs to shorten anything, unless it is made over an old value
    crate::hooks::CUT_BAD.set(!funs.iter().any(|f| f.1 == "clone_from"));
    for (key, name) in funs {
        match name.as_str() {
            "clone" => {
                n += 1;
                px.spec(&key, |c| {
                    c.same("copy", &c.ret()?, c.arg(0))?;
                    c.same("original", &c.post(0)?, c.arg(0))?;
                    apart(c, &c.retv.clone(), &c.g.argv[0])
                });
            }
            "clone_from" => px.spec(&key, |c| {
                c.same("copy", &c.post(0)?, c.arg(1))?;
                c.same("original", &c.post(1)?, c.arg(1))?;
                let t = c.f.ins[0].peel_refs();
                let l = c.e.lw.layout(t).map_err(Need::Unsup)?;
                let Val::S(V::P(p), _) = &c.g.argv[0] else { return unsup("reference") };
                let v = c.e.read_range(c.st, Loc { base: p.base, off: p.off }, l.size.bytes() as u32)?;
                apart(c, &v, &c.g.argv[1])
            }),
            _ => {}
        }
    }
    if n < 15 { px.missing.push(("Clone".into(), format!("only {n} implementations found"))); }
    // what a copy of the bits would share
    let tcx = px.api.tcx;
    for (name, t) in crate::structural::reachable_adts(px) {
        let mut work = vec![t];
        let mut seen = vec![];
        let mut bad = None;
        while let Some(t) = work.pop() {
            if seen.contains(&t) { continue; }
            seen.push(t);
            match t.kind() {
                ty::Adt(d, a) => {
                    let p = tcx.def_path_str(d.did());
                    if tcx.lang_items().unsafe_cell_type() == Some(d.did()) || p.ends_with("::Rc") || p.ends_with("::Arc") || p.ends_with("::Weak") { bad = Some(p); break; }
                    if !d.did().is_local() { work.extend(a.types()); continue; }
                    for f in d.all_fields() { work.push(tcx.normalize_erasing_regions(px.e.lw.env, f.ty(tcx, a))); }
                }
                ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..) | ty::Dynamic(..) => { bad = Some(t.to_string()); break; }
                ty::Array(t, _) | ty::Slice(t) => work.push(*t),
                ty::Tuple(ts) => work.extend(ts.iter()),
                _ => {}
            }
        }
        if let Some(b) = bad { px.missing.push((name.clone(), format!("the type holds {b}: whether copies are independent is not decided"))); } else { px.facts += 1; }
    }
}
/// No pointer of the copy leads into memory of the original.
fn apart(c: &Cx, copy: &Val, orig: &Val) -> R<()> {
    let blocks = |v: &Val| -> Vec<u32> { v.clone().mem().chunks().iter().filter_map(|x| match &x.v { V::P(Ptr { base: Base::H(o), .. }) => Some(*o), _ => None }).collect() };
    let mut theirs = blocks(orig);
    for o in theirs.clone() { for x in c.st.heap[o as usize].mem.chunks() { if let V::P(Ptr { base: Base::H(p), .. }) = &x.v { theirs.push(*p); } } }
    for o in blocks(copy) { if theirs.contains(&o) { return c.viol("the copy shares memory with the original"); } }
    Ok(())
}
