//! The abstract interpreter.
use crate::lower::*;
use crate::mem::*;
use crate::mon::Mon;
use crate::val::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ObjKind {
    Bytes,
    Freed,
    /// Growable sequence: an unknown prefix (with the symbol giving its length) and pushed elements.
    Seq { prefix: Option<Sym>, items: Rc<Vec<Val>>, string: bool },
    /// Write-only byte stream of the given capacity, consumed in order by the monitor.
    Stream,
    /// An object the code may only pass on.
    Opaque,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obj {
    pub mem: Mem,
    pub size: u64,
    pub align: u32,
    pub ro: bool,
    pub kind: ObjKind,
    pub heap: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Z,
    S(V, u32),
    M(Vec<Ch>, u32),
}
impl Val {
    pub fn sc(x: u128, size: u32) -> Val { Val::S(V::c(x), size) }
    pub fn chunks(self) -> Vec<Ch> {
        match self { Val::Z => vec![], Val::S(v, n) => vec![Ch { off: 0, len: n, v }], Val::M(c, _) => c }
    }
    pub fn size(&self) -> u32 { match self { Val::Z => 0, Val::S(_, n) | Val::M(_, n) => *n } }
    pub fn fat(p: Ptr, meta: Sc) -> Val {
        Val::M(vec![Ch { off: 0, len: 8, v: V::P(p) }, Ch { off: 8, len: 8, v: V::S(meta) }], 16)
    }
    pub fn mem(self) -> Mem { Mem::from_chunks(self.chunks()) }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Frame {
    pub fid: u32,
    pub bb: u32,
    pub st: u32,
    pub locals: Vec<Mem>,
    pub dest: Option<Ptr>,
    pub ret: Option<u32>,
    pub trips: Vec<(u32, u32)>,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Vec<Rc<Obj>>,
    pub doms: Rc<Vec<Dom>>,
    pub mon: Mon,
    /// An inexact join happened.
    pub inexact: bool,
    /// Number of case distinctions so far, and at the entry of each frame.
    pub nref: u32,
    pub marks: Vec<u32>,
    /// Symbols tied to sets of bits.
    pub cons: Rc<Vec<Con>>,
    /// The domains are contradictory.
    pub dead: bool,
}
impl State {
    pub fn new() -> State { State { frames: vec![], heap: vec![], doms: Rc::new(vec![]), mon: Mon::default(), inexact: false, nref: 0, marks: vec![], cons: Default::default(), dead: false } }
    pub fn sym(&mut self, n: u32) -> Sym {
        let d = Rc::make_mut(&mut self.doms);
        d.push(Dom::full(n));
        d.len() as Sym - 1
    }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        self.heap.push(Rc::new(o));
        self.heap.len() as u32 - 1
    }
    pub fn refine(&mut self, r: &Refine) {
        self.nref += 1;
        let d = Rc::make_mut(&mut self.doms);
        for (s, x) in r { d[*s as usize] = x.clone(); }
        if !self.cons.is_empty() {
            let cons = self.cons.clone();
            for c in cons.iter() {
                match c {
                    Con::First(z, bits) => {
                        if !r.iter().any(|x| x.0 == *z) { continue; }
                        let Some(k) = self.doms[*z as usize].single() else { continue };
                        for i in 0..(if k == 0 { bits.len() } else { k as usize }) {
                            if !self.set_bit(&bits[i], k > 0 && i == k as usize - 1) { return; }
                        }
                    }
                    Con::Size(z, bits) => {
                        let (t, open) = tally(bits, &self.doms);
                        let n = open.len() as u32;
                        let d = &self.doms[*z as usize];
                        let nd = d.filter(|k| k >= t && k <= t + n);
                        if nd.is_empty() { self.dead = true; return; }
                        let one = nd.single();
                        if nd.count() < d.count() { self.refine(&vec![(*z, nd)]); if self.dead { return; } }
                        if n > 0 { if let Some(k) = one { if k == t || k == t + n { for b in &open { if !self.set_bit(b, k > t) { return; } } } } }
                        if self.dead { return; }
                    }
                }
            }
        }
    }
    /// Removes the values under which the bit is not as wanted, if it depends on one symbol; false if none is left.
    fn set_bit(&mut self, b: &Bit, want: bool) -> bool {
        match b.norm(&self.doms) {
            Bit::K(b) => if b != want { self.dead = true; },
            b => {
                let sy = b.syms();
                if sy.len() == 1 {
                    let nd = self.doms[sy[0].0 as usize].filter(|x| b.eval(&|_| x) == want);
                    if nd.is_empty() { self.dead = true; } else { self.refine(&vec![(sy[0].0, nd)]); }
                }
            }
        }
        !self.dead
    }
    /// A case distinction that makes the symbols tied to bits exact.
    fn open_cons(&self) -> Option<Need> {
        for c in self.cons.iter() {
            match c {
                Con::First(z, _) => if self.doms[*z as usize].single().is_none() { return Some(split_by(&self.doms, *z, |i| i as u64)); },
                Con::Size(z, bits) => {
                    if self.doms[*z as usize].single().is_none() { return Some(split_by(&self.doms, *z, |i| i as u64)); }
                    if let Some(b) = tally(bits, &self.doms).1.first() { return Some(split_bit(&self.doms, b)); }
                }
            }
        }
        None
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Loc { pub base: Base, pub off: i64 }

pub enum End { Panic(String), Ub(String), Unsup(String), Viol(String) }
pub struct Leaf<'a> {
    pub end: End,
    pub st: &'a State,
    pub site: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Hook {
    Intr(String),
    Never(bool),
    Utf8Unchecked,
    Aligned,
    ReturnTrue,
    NoOp,
    SinkStr, SinkChar, SinkFmt,
    Hash(String),
    Legality(String),
    SeqNew, StrPush, StrPushChar, SeqPush(u32), SeqCut(String), SeqLen, SeqDeref, SeqDrop, SeqClone, SeqFill(bool), SliceVec, SliceLast, SeqIndex(String), SeqEmpty, StrFmt, SeqCmp(String),
    Alloc, Dealloc,
    FmtOpaque,
    /// `core::fmt::write`; `Arguments::as_statically_known_str`.
    FmtWrite, NoStr,
    /// `Bitboard::pop`, once it is known to meet its specification.
    Pop,
}

pub fn hook_for<'tcx>(lw: &Lower<'tcx>, inst: Instance<'tcx>, path: &str) -> Option<Hook> {
    let tcx = lw.tcx;
    match inst.def {
        InstanceKind::Intrinsic(d) => {
            let i = tcx.intrinsic(d).unwrap();
            return Some(Hook::Intr(i.name.to_string()));
        }
        InstanceKind::Virtual(d, _) => {
            let tr = tcx.trait_of_assoc(d)?;
            if path_of(tcx, tr).ends_with("::LegalityChecker") { return Some(Hook::Legality(tcx.item_name(d).to_string())); }
            return None;
        }
        InstanceKind::Shim(ty::ShimKind::DropGlue(_, Some(t))) => {
            if is_seq(tcx, t) { return Some(Hook::SeqDrop); }
            return None;
        }
        InstanceKind::Item(_) => {}
        _ => return None,
    }
    let d = inst.def_id();
    if tcx.is_closure_like(d) { return None; }
    // trait methods
    let tr = tcx.trait_of_assoc(d).or_else(|| tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_id(i)));
    let name = tcx.item_name(d);
    let name = name.as_str();
    let self_ty: Option<Ty<'tcx>> = if tcx.trait_of_assoc(d).is_some() { Some(inst.args.type_at(0)) } else {
        tcx.impl_of_assoc(d).map(|i| tcx.type_of(i).instantiate(tcx, inst.args).skip_norm_wip())
    };
    if let (Some(tr), Some(st)) = (tr, self_ty) {
        let tp = path_of(tcx, tr);
        let sp = adt_path(tcx, st);
        match tp.as_str() {
            "core::fmt::Write" if sp == "core::fmt::Formatter" => return match name {
                "write_str" => Some(Hook::SinkStr), "write_char" => Some(Hook::SinkChar), _ => Some(Hook::SinkFmt),
            },
            "core::fmt::Write" if sp == "alloc::string::String" => return match name {
                "write_str" => Some(Hook::StrPush), "write_char" => Some(Hook::StrPushChar), _ => None,
            },
            "core::hash::Hasher" if sp == "core::hash::SipHasher" || sp == "core::hash::sip::SipHasher" => return Some(Hook::Hash(name.to_string())),
            "core::ops::Drop" | "core::ops::drop::Drop" if is_seq(tcx, st) || sp.starts_with("alloc::raw_vec") => return Some(Hook::SeqDrop),
            "core::clone::Clone" if is_seq(tcx, st) && name == "clone" => return Some(Hook::SeqClone),
            "core::clone::Clone" if is_seq(tcx, st) && name == "clone_from" => return Some(Hook::SeqFill(true)),
            "core::ops::Deref" | "core::ops::deref::Deref" | "core::ops::DerefMut" | "core::ops::deref::DerefMut" if is_seq(tcx, st) => return Some(Hook::SeqDeref),
            "core::ops::Index" | "core::ops::index::Index" if is_seq(tcx, st) && inst.args.types().nth(1).is_some_and(|t| adt_path(tcx, t).contains("::Range")) =>
                return Some(Hook::SeqIndex(adt_path(tcx, inst.args.types().find(|t| adt_path(tcx, *t).contains("::Range"))?).rsplit("::").next()?.to_string())),
            "core::default::Default" if is_seq(tcx, st) => return Some(Hook::SeqNew),
            "core::convert::AsRef" | "core::borrow::Borrow" if is_seq(tcx, st) => return Some(Hook::SeqDeref),
            "core::cmp::PartialEq" | "core::cmp::Eq" | "core::cmp::PartialOrd" | "core::cmp::Ord" if is_seq(tcx, st) => return Some(Hook::SeqCmp(name.to_string())),
            "core::hash::Hash" if is_seq(tcx, st) => return Some(Hook::SeqCmp("hash".into())),
            "core::fmt::Debug" | "core::fmt::Display" if name == "fmt" && !d.is_local() => return Some(Hook::FmtOpaque),
            _ => {}
        }
        // comparisons of the move list with another sequence type
        if tp == "core::cmp::PartialEq" && inst.args.types().any(|t| is_seq(tcx, t)) { return Some(Hook::SeqCmp(name.to_string())); }
    }
    if tr.is_none() {
        if let Some(st) = self_ty {
            if d.is_local() && name == "pop" && adt_path(tcx, st).ends_with("::Bitboard") { return Some(Hook::Pop); }
            if is_seq(tcx, st) {
                let string = adt_path(tcx, st) == "alloc::string::String";
                return match name {
                    "new" | "with_capacity" => Some(Hook::SeqNew),
                    "push_str" if string => Some(Hook::StrPush),
                    "push" if string => Some(Hook::StrPushChar),
                    "push" => { let e = st.walk().filter_map(|g| g.as_type()).nth(1)?; Some(Hook::SeqPush(lw.layout(e).ok()?.size.bytes() as u32)) }
                    "extend_from_slice" => Some(Hook::SeqFill(false)),
                    "len" => Some(Hook::SeqLen),
                    "is_empty" => Some(Hook::SeqEmpty),
                    "as_slice" | "as_str" | "as_bytes" | "as_mut_slice" => Some(Hook::SeqDeref),
                    "reserve" | "reserve_exact" | "shrink_to_fit" | "shrink_to" => Some(Hook::NoOp),
                    "as_ptr" | "as_mut_ptr" => Some(Hook::SeqCut("ptr".into())),
                    "truncate" | "clear" | "pop" | "remove" | "swap_remove" | "insert" | "drain" | "retain" | "dedup" => Some(Hook::SeqCut(name.to_string())),
                    _ => None,
                };
            }
            if adt_path(tcx, st) == "core::fmt::Formatter" && !d.is_local() { return Some(Hook::FmtOpaque); }
        }
    }
    let base = path.split("::<").next().unwrap_or(path);
    match base {
        "core::str::from_utf8_unchecked" | "core::str::converts::from_utf8_unchecked" => return Some(Hook::Utf8Unchecked),
        _ => {}
    }
    if !d.is_local() {
        let dp = tcx.def_path_str(d);
        if dp.contains("maybe_is_aligned") || path.contains("maybe_is_aligned") || path.ends_with("::is_aligned_to") { return Some(Hook::Aligned); }
        if path.contains("maybe_is_nonoverlapping") || path.contains("check_language_ub") || path.contains("is_valid_allocation_size") || (path.contains("_ptr::<impl") && path.ends_with("::precondition_check") && ["::offset::", "::add::", "::sub::"].iter().any(|x| path.contains(x))) { return Some(Hook::ReturnTrue); }
        // the copies of the allocator are recorded and judged by its specification
        if crate::term::on() && path.ends_with("::precondition_check") && (path.contains("::copy_nonoverlapping") || path.contains("::copy::")) { return Some(Hook::ReturnTrue); }
        let out = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().output();
        if out.is_never() {
            return Some(Hook::Never(path.contains("panic_nounwind") || path.contains("unreachable_unchecked")));
        }
        match tcx.item_name(d).as_str() {
            "as_statically_known_str" => return Some(Hook::NoStr),
            "write" if path == "core::fmt::write" => return Some(Hook::FmtWrite),
            "to_vec" if dp.contains("slice") => return Some(Hook::SliceVec),
            "last" if dp.contains("slice::<impl") => return Some(Hook::SliceLast),
            "__rust_alloc" | "__rust_alloc_zeroed" | "exchange_malloc" => return Some(Hook::Alloc),
            "__rust_dealloc" => return Some(Hook::Dealloc),
            "__rust_no_alloc_shim_is_unstable" | "__rust_no_alloc_shim_is_unstable_v2" => return Some(Hook::NoOp),
            _ => {}
        }
    }
    None
}
pub fn adt_path<'tcx>(tcx: ty::TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() { ty::Adt(d, _) => path_of(tcx, d.did()), _ => String::new() }
}
pub fn is_seq<'tcx>(tcx: ty::TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    matches!(adt_path(tcx, t).as_str(), "alloc::vec::Vec" | "alloc::string::String")
}

pub struct Cfg {
    pub overflow: bool,
    pub join: bool,
    pub max_steps: u64,
    pub max_secs: Cell<u64>,
    pub until: Option<std::time::Instant>,
}
#[derive(Default)]
pub struct Stats {
    pub steps: Cell<u64>,
    pub leaves: Cell<u64>,
    pub splits: Cell<u64>,
    pub joins: Cell<u64>,
    pub calls: RefCell<HashMap<(u32, u32), u64>>,
}
pub struct Engine<'tcx> {
    pub lw: Lower<'tcx>,
    pub cfg: Cfg,
    pub stats: Stats,
    pub visited: RefCell<Vec<bool>>,
    pub prof: bool,
    pub sum_pop: Cell<bool>,
    /// Memory that the next call brings along, in a local variable of its own.
    pub extra_local: RefCell<Option<Mem>>,
    pub memo: RefCell<HashMap<(u32, Vec<Option<(u128, u32)>>), Option<Rc<Vec<(u32, u32, u128)>>>>>,
    pub pop_memo: RefCell<Vec<(Sym, Rc<Vec<Bit>>, [Sc; 2])>>,
    pub at: Option<(String, u32)>,
}

pub enum Flow { Go, Head, Ret, Done(Val), Alts(Vec<State>) }

impl<'tcx> Engine<'tcx> {
    pub fn new(lw: Lower<'tcx>, overflow: bool) -> Self {
        Engine { lw, cfg: Cfg { overflow, join: true, max_secs: Cell::new(std::env::var("SGC_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60)), until: std::env::var("SGC_DEADLINE").ok().and_then(|s| s.parse().ok()).map(|s| std::time::Instant::now() + std::time::Duration::from_secs(s)), max_steps: std::env::var("SGC_STEPS").ok().and_then(|s| s.parse().ok()).unwrap_or(400_000_000) }, stats: Default::default(), visited: Default::default(), prof: std::env::var("SGC_PROF").is_ok(), sum_pop: Cell::new(false), memo: Default::default(), extra_local: Default::default(), pop_memo: Default::default(), at: std::env::var("SGC_AT").ok().map(|s| { let (a, b) = s.split_once('@').unwrap(); (a.to_string(), b.parse().unwrap()) }) }
    }
    pub fn fun(&self, fid: u32) -> R<Rc<Fun>> {
        self.lw.body(fid).map_err(Need::Unsup)
    }
    pub fn frame(&self, fid: u32) -> R<(Frame, Rc<Fun>)> {
        let f = self.fun(fid)?;
        let mut v = self.visited.borrow_mut();
        if v.len() <= fid as usize { v.resize(fid as usize + 1, false); }
        v[fid as usize] = true;
        Ok((Frame { fid, bb: 0, st: 0, locals: vec![Mem::Empty; f.locals.len()], dest: None, ret: None, trips: vec![] }, f))
    }
    /// Pushes the root frame.
    pub fn enter(&self, st: &mut State, fid: u32, args: Vec<Val>) -> R<()> {
        let (mut fr, f) = self.frame(fid)?;
        if args.len() != f.nargs { return unsup(format!("{} arguments for {}", args.len(), f.name)); }
        for (i, a) in args.into_iter().enumerate() { fr.locals[i + 1] = a.mem(); }
        st.marks.push(st.nref);
        st.frames.push(Rc::new(fr));
        Ok(())
    }

    pub fn site(&self, st: &State) -> String {
        let mut out = String::new();
        for fr in st.frames.iter().rev().take(6) {
            if let Ok(f) = self.lw.body(fr.fid) {
                let b = &f.blocks[fr.bb as usize];
                let line = b.spans.get(fr.st as usize).copied().unwrap_or(0);
                if !out.is_empty() { out.push_str(" <- "); }
                let file = f.file.rsplit("/src/").next().unwrap_or(&f.file);
                out.push_str(&format!("{} ({}:{})", f.name, file, line));
                if f.local_crate && out.len() > 200 { break; }
            }
        }
        out
    }

    /// Explores every path from `init`. `at_leaf` judges a finished path; it may ask for a refinement.
    pub fn explore(&self, init: State, at_leaf: &mut dyn FnMut(&State, &Val) -> R<()>, on_bad: &mut dyn FnMut(Leaf)) {
        let mut work = vec![init];
        let mut parked: BTreeMap<Vec<u32>, HashMap<u64, Vec<State>>> = BTreeMap::new();
        let start = self.stats.steps.get();
        let began = std::time::Instant::now();
        let mut faults = 0u32;
        // states seen at a loop head, to recognise a loop that comes back to the same state
        let mut seen: HashMap<(usize, u32, u32), (u32, State)> = HashMap::new();
        loop {
            let mut st = match work.pop() {
                Some(s) => s,
                None => match parked.pop_first() {
                    Some((_, g)) => { work.extend(g.into_values().flatten()); continue; }
                    None => return,
                },
            };
            loop {
                self.stats.steps.set(self.stats.steps.get() + 1);
                let n = self.stats.steps.get() - start;
                if let Some((fname, bb)) = &self.at {
                    let fr = self.top(&st);
                    if fr.bb == *bb && fr.st == 0 && self.lw.body(fr.fid).unwrap().name.ends_with(fname.as_str()) {
                        eprintln!("AT {}", st.doms.iter().enumerate().filter(|(_, d)| d.count() < d.n).map(|(i, d)| if d.count() < 4 { format!("{i}:{:?}", d.to_vec()) } else { format!("{i}:#{}", d.count()) }).collect::<Vec<_>>().join(" "));
                    }
                }
                if self.prof { *self.stats.calls.borrow_mut().entry((self.top(&st).fid, self.top(&st).bb)).or_default() += 1; }
                if n > self.cfg.max_steps || n % 4096 == 0 && (began.elapsed().as_secs() > self.cfg.max_secs.get() || self.cfg.until.is_some_and(|u| u < std::time::Instant::now())) {
                    on_bad(Leaf { end: End::Unsup("exploration limit".into()), site: self.site(&st), st: &st });
                    return;
                }
                CONS.with(|c| if !Rc::ptr_eq(&*c.borrow(), &st.cons) { *c.borrow_mut() = st.cons.clone(); });
                let need = match self.step(&mut st) {
                    Ok(Flow::Go) => continue,
                    Ok(Flow::Head) if !st.inexact && self.circles(&st, &mut seen) => Need::Panic("the loop comes back to the same state and never ends".into()),
                    Ok(Flow::Head) => {
                        if work.is_empty() && parked.is_empty() { continue; }
                        self.park(st, &mut parked);
                        break;
                    }
                    Ok(Flow::Ret) => {
                        if work.is_empty() && parked.is_empty() { continue; }
                        self.park_ret(st, &mut parked);
                        break;
                    }
                    Ok(Flow::Done(v)) => match at_leaf(&st, &v) {
                        Ok(()) | Err(Need::Dead) => { self.stats.leaves.set(self.stats.leaves.get() + 1); break; }
                        Err(n) => n,
                    },
                    Ok(Flow::Alts(a)) => { work.extend(a); break; }
                    Err(n) => n,
                };
                let need = match need {
                    n @ (Need::Split(_) | Need::Dead | Need::Size(..)) => n,
                    n => st.open_cons().unwrap_or(n),
                };
                match need {
                    Need::Size(bits) => {
                        let z = st.sym(bits.len() as u32 + 1);
                        Rc::make_mut(&mut st.cons).push(Con::Size(z, bits));
                    }
                    Need::Split(alts) => {
                        self.stats.splits.set(self.stats.splits.get() + 1);
                        let n = alts.len();
                        if self.prof { eprintln!("SPLIT {} into {n}: {}", alts[0].iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(","), self.site(&st)); }
                        if n == 0 { break; }
                        for (i, r) in alts.into_iter().enumerate() {
                            if i + 1 == n { st.refine(&r); break; }
                            let mut s2 = st.clone();
                            s2.refine(&r);
                            if !s2.dead { work.push(s2); }
                        }
                        if st.dead { break; }
                    }
                    Need::Dead => break,
                    e => {
                        self.stats.leaves.set(self.stats.leaves.get() + 1);
                        let mut end = match e { Need::Ub(s) => End::Ub(s), Need::Panic(s) => End::Panic(s), Need::Unsup(s) => End::Unsup(s), Need::Viol(s) => End::Viol(s), _ => unreachable!() };
                        if st.inexact && !matches!(end, End::Unsup(_)) { end = End::Unsup("possible only in an over-approximated state".into()); }
                        faults += !matches!(end, End::Unsup(_)) as u32;
                        on_bad(Leaf { end, site: self.site(&st), st: &st });
                        if faults > 400 { return; }
                        break;
                    }
                }
            }
        }
    }
    /// Whether the state at a loop head is one the same path was in before.
    fn circles(&self, st: &State, seen: &mut HashMap<(usize, u32, u32), (u32, State)>) -> bool {
        let fr = st.frames.last().unwrap();
        let Some((h, n)) = fr.trips.last().copied() else { return false };
        if n < 300 { return false; }
        let key = (st.frames.len(), fr.fid, h);
        if let Some((m, old)) = seen.get(&key) {
            if n > *m && old.nref == st.nref && *old.doms == *st.doms && old.heap == st.heap && old.mon == st.mon && old.frames.len() == st.frames.len() && old.frames.iter().zip(&st.frames).all(|(a, b)| a.fid == b.fid && a.bb == b.bb && a.st == b.st && a.locals == b.locals) { return true; }
        }
        if n.is_power_of_two() || n == 300 { seen.insert(key, (n, st.clone())); }
        false
    }
    fn park_key(&self, st: &State) -> Vec<u32> {
        let mut key = vec![];
        for fr in &st.frames {
            let f = self.lw.body(fr.fid).unwrap();
            for (h, c) in &fr.trips { key.push(f.rpo[*h as usize]); key.push(*c); }
            key.push(f.rpo[fr.bb as usize]);
            key.push(fr.fid);
        }
        key
    }
    /// Waits after a call in which cases were distinguished, for the states that left it in the other cases.
    fn park_ret(&self, mut st: State, parked: &mut BTreeMap<Vec<u32>, HashMap<u64, Vec<State>>>) {
        let key = self.park_key(&st);
        let v = parked.entry(key).or_default().entry(0).or_default();
        'again: loop {
            let n = v.len();
            for i in (n.saturating_sub(96)..n).rev() {
                if let Some(u) = crate::join::unite(&v[i], &st) {
                    self.stats.joins.set(self.stats.joins.get() + 1);
                    v.swap_remove(i);
                    st = u;
                    continue 'again;
                }
            }
            break;
        }
        v.push(st);
    }
    fn park(&self, mut st: State, parked: &mut BTreeMap<Vec<u32>, HashMap<u64, Vec<State>>>) {
        let key = self.park_key(&st);
        let d = st.doms.clone();
        st.mon.prepare_join(&d);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        st.frames.hash(&mut h);
        for o in &st.heap { if o.ro { (Rc::as_ptr(o) as usize).hash(&mut h) } else { o.hash(&mut h) } }
        st.mon.hash(&mut h);
        let groups = parked.entry(key).or_default();
        // a branch on one symbol only that has left different values
        if groups.len() <= 24 && groups.values().map(|v| v.len()).sum::<usize>() <= 48 {
            let found = groups.iter().find_map(|(h, v)| v.iter().enumerate().find_map(|(i, o)| crate::join::unite(o, &st).map(|u| (*h, i, u))));
            if let Some((h, i, u)) = found {
                self.stats.joins.set(self.stats.joins.get() + 1);
                let v = groups.get_mut(&h).unwrap();
                v.swap_remove(i);
                if v.is_empty() { groups.remove(&h); }
                return self.park(u, parked);
            }
        }
        let v = groups.entry(h.finish()).or_default();
        // states whose domains differ in one symbol only (or are included) are united exactly
        'again: loop {
            for i in 0..v.len() {
                let o = &v[i];
                if o.doms.len() != st.doms.len() || o.cons != st.cons || o.frames != st.frames || o.heap != st.heap || o.mon != st.mon { continue; }
                let diff: Vec<usize> = if Rc::ptr_eq(&o.doms, &st.doms) { vec![] } else { (0..o.doms.len()).filter(|k| o.doms[*k] != st.doms[*k]).take(2).collect() };
                let exact = diff.len() <= 1 || o.doms.iter().zip(st.doms.iter()).all(|(a, b)| a.subset_of(b)) || o.doms.iter().zip(st.doms.iter()).all(|(a, b)| b.subset_of(a));
                if !exact && v.len() < 400 { continue; }
                self.stats.joins.set(self.stats.joins.get() + 1);
                let o = v.swap_remove(i);
                st.inexact |= o.inexact | !exact;
                st.nref = st.nref.max(o.nref);
                for (a, b) in st.marks.iter_mut().zip(&o.marks) { *a = (*a).min(*b); }
                let od = Rc::make_mut(&mut st.doms);
                for (a, b) in od.iter_mut().zip(o.doms.iter()) { if a != b { *a = a.union(b); } }
                continue 'again;
            }
            break;
        }
        v.push(st);
    }

    // ---- memory -------------------------------------------------------------------------------------------------
    fn obj_size(&self, st: &State, b: Base) -> R<(u64, u32)> {
        Ok(match b {
            Base::L(d, l) => {
                let Some(fr) = st.frames.get(d as usize) else { return ub("pointer to a local of a finished call") };
                let f = self.fun(fr.fid)?;
                match f.locals.get(l as usize) {
                    Some(x) => (x.size as u64, x.align),
                    None => (fr.locals[l as usize].chunks().last().map_or(0, |c| c.off + c.len) as u64, 1),
                }
            }
            Base::H(h) => (st.heap[h as usize].size, st.heap[h as usize].align),
            Base::G(g) => { let g = self.lw.globals.borrow()[g as usize].clone(); (g.size, g.align) }
            Base::F(_) | Base::VT(_) => (0, 16),
            Base::A => (0, 1),
        })
    }
    pub fn align_of(&self, st: &State, b: Base) -> R<u32> { Ok(self.obj_size(st, b)?.1) }
    /// The elements of a modelled sequence have no addresses.
    fn not_seq(&self, st: &State, b: Base) -> R<()> {
        if let Base::H(h) = b { if let ObjKind::Seq { .. } = st.heap[h as usize].kind { return unsup("elements of a sequence"); } }
        Ok(())
    }
    pub fn check_access(&self, st: &State, l: Loc, size: u64, write: bool) -> R<()> {
        if size == 0 { return Ok(()); }
        if let Base::A = l.base { return ub(if l.off == 0 { "null pointer dereference" } else { "dereference of an invalid address" }); }
        if let Base::VT(_) | Base::F(_) = l.base { return unsup("access to a vtable or function"); }
        let (n, _) = self.obj_size(st, l.base)?;
        if let Base::H(h) = l.base {
            // the monitor checks the place of every byte, the specification of the text its length
            if st.heap[h as usize].kind == ObjKind::Stream { return if write { Ok(()) } else { ub("read of the output buffer") }; }
        }
        self.not_seq(st, l.base)?;
        if l.off < 0 || l.off as u64 + size > n {
            return ub(format!("out-of-bounds access: bytes {}..{} of an object of {} bytes", l.off, l.off + size as i64, n));
        }
        if let Base::H(h) = l.base {
            let o = &st.heap[h as usize];
            match o.kind {
                ObjKind::Freed => return ub("use after free"),
                ObjKind::Bytes => {}
                ObjKind::Stream if write => {}
                _ => return unsup("direct access to a modelled object"),
            }
            if write && o.ro { return Err(Need::Viol("write to an object reachable only through a shared reference".into())); }
        }
        if let (Base::G(g), true) = (l.base, write) {
            if !self.lw.globals.borrow()[g as usize].mutable { return ub("write to constant memory"); }
            if crate::term::on() && !st.mon.atom.is_empty() { return unsup("write to a static"); }
            return Err(Need::Viol("write to a static".into()));
        }
        if let Base::G(g) = l.base {
            if self.lw.globals.borrow()[g as usize].is_static {
                if crate::term::on() && st.mon.atom.is_empty() { return Err(Need::Viol("shared memory is read without synchronisation".into())); }
                return unsup("read of a static");
            }
        }
        Ok(())
    }
    pub fn read(&self, st: &State, l: Loc, size: u32) -> R<V> {
        self.check_access(st, l, size as u64, false)?;
        let off = l.off as u32;
        match l.base {
            Base::L(d, x) => st.frames[d as usize].locals[x as usize].read(off, size, &st.doms),
            Base::H(h) => st.heap[h as usize].mem.read(off, size, &st.doms),
            Base::G(g) => self.lw.globals.borrow()[g as usize].mem.read(off, size, &st.doms),
            _ => ub("read"),
        }
    }
    pub fn read_range(&self, st: &State, l: Loc, size: u32) -> R<Val> {
        if size == 0 { return Ok(Val::Z); }
        self.check_access(st, l, size as u64, false)?;
        let off = l.off as u32;
        let c = match l.base {
            Base::L(d, x) => st.frames[d as usize].locals[x as usize].read_range(off, size, &st.doms)?,
            Base::H(h) => st.heap[h as usize].mem.read_range(off, size, &st.doms)?,
            Base::G(g) => self.lw.globals.borrow()[g as usize].mem.read_range(off, size, &st.doms)?,
            _ => return ub("read"),
        };
        Ok(Val::M(c, size))
    }
    pub fn write(&self, st: &mut State, l: Loc, v: Val) -> R<()> {
        let size = v.size();
        if size == 0 { return Ok(()); }
        self.check_access(st, l, size as u64, true)?;
        let off = l.off as u32;
        let doms = st.doms.clone();
        match l.base {
            Base::L(d, x) => {
                let m = &mut Rc::make_mut(&mut st.frames[d as usize]).locals[x as usize];
                match v { Val::S(v, n) => m.write(off, n, v, &doms), v => { let c = v.chunks(); m.write_range(off, size, c, &doms) } }
            }
            Base::H(h) => {
                if let ObjKind::Stream = st.heap[h as usize].kind {
                    if size != 1 {
                        for c in v.chunks() {
                            let V::S(s) = c.v else { return ub("uninitialised byte stored in the output buffer") };
                            for k in 0..c.len {
                                let b = extract(&s, k, 1, &doms)?;
                                let mut m = st.mon.clone();
                                m.stream_byte(l.off as u64 + c.off as u64 + k as u64, &b, &doms)?;
                                st.mon = m;
                            }
                        }
                        while st.mon.stream_pos > 0 { self.rebase(st, h); }
                        return Ok(());
                    }
                    let V::S(b) = (match v { Val::S(v, _) => v, Val::M(mut c, _) => c.pop().map(|c| c.v).unwrap_or(V::Undef), _ => V::Undef }) else { return ub("uninitialised byte stored in the output buffer") };
                    st.mon.stream_byte(l.off as u64, &b, &doms)?;
                    while st.mon.stream_pos > 0 { self.rebase(st, h); }
                    return Ok(());
                }
                let m = &mut Rc::make_mut(&mut st.heap[h as usize]).mem;
                match v { Val::S(v, n) => m.write(off, n, v, &doms), v => { let c = v.chunks(); m.write_range(off, size, c, &doms) } }
            }
            _ => unsup("write to a static"),
        }
    }

    /// Moves the origin of the output stream to its next byte: all pointers into it become relative to that, so that
    /// states that differ only in how much they have written look alike.
    fn rebase(&self, st: &mut State, h: u32) {
        fn has(m: &Mem, h: u32) -> bool { m.chunks().iter().any(|c| matches!(c.v, V::P(Ptr { base: Base::H(x), .. }) if x == h)) }
        fn mv(m: &mut Mem, h: u32) {
            let fix = |c: &mut Ch| if let V::P(p) = &mut c.v { if p.base == Base::H(h) { p.off -= 1; } };
            match m { Mem::One(c) => fix(c), Mem::Many(v) => Rc::make_mut(v).iter_mut().for_each(fix), _ => {} }
        }
        for fr in st.frames.iter_mut() {
            let hit = fr.locals.iter().any(|m| has(m, h)) || matches!(fr.dest, Some(Ptr { base: Base::H(x), .. }) if x == h);
            if hit {
                let f = Rc::make_mut(fr);
                for m in f.locals.iter_mut() { if has(m, h) { mv(m, h); } }
                if let Some(p) = &mut f.dest { if p.base == Base::H(h) { p.off -= 1; } }
            }
        }
        for (i, o) in st.heap.iter_mut().enumerate() {
            if i as u32 != h && !o.ro && has(&o.mem, h) { mv(&mut Rc::make_mut(o).mem, h); }
        }
        st.mon.stream_pos -= 1;
    }

    // ---- places and operands ------------------------------------------------------------------------------------
    fn top<'s>(&self, st: &'s State) -> &'s Frame { st.frames.last().unwrap() }
    fn place(&self, st: &State, p: &Pl) -> R<(Loc, Option<V>)> {
        let depth = st.frames.len() as u32 - 1;
        let mut l = Loc { base: Base::L(depth, p.local), off: 0 };
        let mut meta: Option<V> = None;
        for e in p.proj.iter() {
            match e {
                Pj::Off(o) => l.off += *o as i64,
                Pj::Deref { fat, raw } => {
                    let v = self.read(st, l, 8)?;
                    meta = if *fat { Some(self.read(st, Loc { base: l.base, off: l.off + 8 }, 8)?) } else { None };
                    l = self.to_loc(st, v)?;
                    let _ = raw;
                }
                Pj::Idx { local, stride, count } => {
                    let i = self.read(st, Loc { base: Base::L(depth, *local), off: 0 }, 8)?;
                    let V::S(i) = i else { return unsup("index") };
                    let i = i.konst(&st.doms)?;
                    if let Some(n) = count { if i >= *n as u128 { return ub("array index out of bounds"); } }
                    l.off += (i as u64 * stride) as i64;
                    meta = None;
                }
                Pj::CIdx { off, from_end, stride, count } => {
                    self.not_seq(st, l.base)?;
                    let i = if *from_end {
                        let n = match count { Some(n) => *n, None => self.konst_v(st, meta.as_ref())? as u64 };
                        n - off
                    } else { *off };
                    l.off += (i * stride) as i64;
                    meta = None;
                }
                Pj::Sub { from, to, from_end, stride, slice } => {
                    self.not_seq(st, l.base)?;
                    l.off += (from * stride) as i64;
                    if *slice {
                        let n = self.konst_v(st, meta.as_ref())? as u64;
                        let m = if *from_end { n - from - to } else { to - from };
                        meta = Some(V::c(m as u128));
                    }
                }
            }
        }
        Ok((l, meta))
    }
    fn konst_v(&self, st: &State, v: Option<&V>) -> R<u128> {
        match v { Some(V::S(s)) => s.konst(&st.doms), _ => unsup("slice length") }
    }
    pub fn to_loc(&self, st: &State, v: V) -> R<Loc> {
        match v {
            V::P(p) => Ok(Loc { base: p.base, off: p.off }),
            V::S(Sc::T(l)) if l.split_addr().is_some_and(|(_, o)| o.co.is_empty()) => { let (a, o) = l.split_addr().unwrap(); Ok(Loc { base: crate::term::base(a), off: o.k as i64 }) }
            V::S(s) => Ok(Loc { base: Base::A, off: s.konst(&st.doms)? as i64 }),
            V::Undef => ub("use of an uninitialised pointer"),
            V::Opaque => unsup("internals of a modelled type"),
        }
    }
    pub fn check_valid(&self, st: &State, v: &Val, ranges: &[(u32, u32, u128, u128)], what: &str) -> R<()> {
        for (off, size, lo, hi) in ranges {
            let x = match v {
                Val::S(v, _) => v.clone(),
                Val::M(c, _) => Mem::from_chunks(c.clone()).read(*off, *size, &st.doms)?,
                Val::Z => continue,
            };
            match x {
                V::P(_) => {}
                V::Opaque => {}
                V::Undef => return ub(format!("uninitialised value {what}")),
                V::S(Sc::T(l)) => {
                    let (lo, hi) = (*lo as i128, *hi as i128);
                    let inside = if lo <= hi { crate::term::decide(&l.plus(-lo), &st.doms)? && crate::term::decide(&l.mul(-1).plus(hi), &st.doms)? } else { true };
                    if !inside { return ub(format!("invalid value {what} (valid: {lo}..={hi})")); }
                }
                V::S(s) => {
                    let ok = |x: u128| if lo <= hi { x >= *lo && x <= *hi } else { x >= *lo || x <= *hi };
                    if let Sc::C(x) = s { if ok(x) { continue; } }
                    let s = s.norm(&st.doms);
                    match s.values(&st.doms) {
                        Some(vs) => if let Some(b) = vs.iter().find(|x| !ok(**x)) {
                            return ub(format!("invalid value {b} {what} (valid: {lo}..={hi})"));
                        },
                        None => return Err(s.need_const(&st.doms)),
                    }
                }
            }
        }
        Ok(())
    }
    pub fn load(&self, st: &State, p: &Pl) -> R<Val> {
        match &p.acc {
            Acc::Zst => Ok(Val::Z),
            Acc::Scalar { size, init, .. } => {
                let (l, _) = if p.proj.is_empty() { (Loc { base: Base::L(st.frames.len() as u32 - 1, p.local), off: 0 }, None) } else { self.place(st, p)? };
                let v = self.read(st, l, *size)?;
                if *init { if let V::Undef = v { return ub("read of uninitialised memory"); } }
                let v = Val::S(v, *size);
                if let Some(r) = &p.chk { self.check_valid(st, &v, r, "loaded")?; }
                Ok(v)
            }
            Acc::Mem { size } => {
                let (l, _) = self.place(st, p)?;
                let v = self.read_range(st, l, *size)?;
                if let Some(r) = &p.chk { self.check_valid(st, &v, r, "loaded")?; }
                Ok(v)
            }
            Acc::Unsized => unsup("load of an unsized value"),
        }
    }
    pub fn op(&self, st: &State, o: &Op) -> R<Val> {
        match o {
            Op::Use(p) => self.load(st, p),
            Op::K(c, acc) => Ok(match acc {
                Acc::Zst => Val::Z,
                Acc::Scalar { size, .. } => match c.first() { Some(c) if c.len == *size => Val::S(c.v.clone(), *size), _ => Val::S(Mem::from_chunks(c.to_vec()).read(0, *size, &st.doms)?, *size) },
                a => Val::M(c.to_vec(), a.size()),
            }),
            Op::Flag(f) => Ok(Val::sc(match f { Flag::Ub => true, Flag::Overflow => self.cfg.overflow, Flag::Contract => false } as u128, 1)),
        }
    }
    pub fn sc(&self, v: Val) -> R<Sc> {
        match v {
            Val::S(V::S(s), _) => Ok(s),
            Val::S(V::Undef, _) => ub("use of an uninitialised value"),
            Val::S(V::P(p), _) if crate::term::on() && matches!(p.base, Base::G(_)) => { let al = self.lw.globals.borrow()[if let Base::G(g) = p.base { g as usize } else { 0 }].align; Ok(crate::term::addr(p.base, al).unwrap().plus(p.off as i128).sc()) }
            Val::S(V::P(_), _) => unsup("pointer used as an integer"),
            _ => unsup("scalar expected"),
        }
    }
    fn ptr_of(&self, l: Loc) -> V {
        if let Base::A = l.base { V::c(l.off as u64 as u128) } else { V::P(Ptr { base: l.base, off: l.off }) }
    }
    fn rv(&self, st: &State, r: &Rv) -> R<Val> {
        let doms = &st.doms;
        match r {
            Rv::Use(o) => self.op(st, o),
            Rv::Repeat(o, n) => {
                let v = self.op(st, o)?;
                let s = v.size();
                if *n > 4096 { return unsup("large repeat"); }
                let c = v.chunks();
                let mut out = Vec::with_capacity(c.len() * *n as usize);
                for i in 0..*n as u32 { for x in &c { out.push(Ch { off: x.off + i * s, len: x.len, v: x.v.clone() }); } }
                Ok(Val::M(out, s * *n as u32))
            }
            Rv::Ref(p, is_ref) => {
                let (l, meta) = self.place(st, p)?;
                if *is_ref {
                    if let Base::A = l.base {
                        if p.acc.size() > 0 || l.off == 0 { return ub("reference to an invalid address"); }
                    } else if p.acc.size() > 0 {
                        self.not_seq(st, l.base)?;
                        let (n, _) = self.obj_size(st, l.base)?;
                        if l.off < 0 || l.off as u64 + p.acc.size() as u64 > n { return ub("reference out of the bounds of its object"); }
                    }
                }
                Ok(match meta {
                    None => Val::S(self.ptr_of(l), 8),
                    Some(m) => Val::M(vec![Ch { off: 0, len: 8, v: self.ptr_of(l) }, Ch { off: 8, len: 8, v: m }], 16),
                })
            }
            Rv::Cast(k, o) => {
                let v = self.op(st, o)?;
                match k {
                    CastK::Int { from, signed, to } => {
                        let s = self.sc(v)?;
                        Ok(Val::S(V::S(cast(&s, *from, *signed, *to, doms)?), to / 8))
                    }
                    CastK::Ptr { drop_meta } => Ok(if *drop_meta {
                        match v { Val::M(mut c, _) => Val::S(c.swap_remove(0).v, 8), v => v }
                    } else { v }),
                    CastK::Unsize { meta, vt } => {
                        let Val::S(p, _) = v else { return unsup("unsizing") };
                        let m = match (meta, vt) { (Some(m), _) => V::c(*m), (_, Some(t)) => V::P(Ptr { base: Base::VT(*t), off: 0 }), _ => V::Undef };
                        Ok(Val::M(vec![Ch { off: 0, len: 8, v: p }, Ch { off: 8, len: 8, v: m }], 16))
                    }
                    CastK::Fn(f) => Ok(Val::S(V::P(Ptr { base: Base::F(*f), off: 0 }), 8)),
                    CastK::Transmute { valid, size } => {
                        if *size == 0 { return Ok(Val::Z); }
                        if !valid.is_empty() { self.check_valid(st, &v, valid, "produced by transmute")?; }
                        Ok(v)
                    }
                    CastK::Addr => match v {
                        Val::S(V::S(s), n) => Ok(Val::S(V::S(s), n)),
                        v if crate::term::on() => Ok(Val::S(V::S(self.sc(v)?), 8)),
                        _ => unsup("address of an object"),
                    },
                    CastK::FromAddr => Ok(v),
                    CastK::Unsup(s) => unsup(s.clone()),
                }
            }
            Rv::Bin { op, kind, bits, signed, ybits, ysigned, a, b, ptr, elem } => {
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                if *ptr || matches!(x, Val::S(V::P(_), _)) || matches!(y, Val::S(V::P(_), _)) {
                    if *ptr && *op == BOp::Add && *elem > 0 || *ptr && *op == BOp::Add {
                        return self.ptr_add(st, x, y, *elem, true);
                    }
                    return Ok(Val::S(V::S(Sc::b(self.ptr_cmp(st, *op, &x, &y)?)), 1));
                }
                let (x, y) = (self.sc(x)?, self.sc(y)?);
                let cmp = matches!(op, BOp::Eq | BOp::Ne | BOp::Lt | BOp::Le | BOp::Gt | BOp::Ge | BOp::Cmp);
                match kind {
                    BK::Wrap => Ok(Val::S(V::S(binop(*op, *bits, *signed, &x, &y, *ybits, doms)?), if cmp { 1 } else { bits / 8 })),
                    BK::With => {
                        let o = overflow(*op, *bits, *signed, &x, &y, *ybits, *ysigned, doms)?;
                        let r = binop(*op, *bits, *signed, &x, &y, *ybits, doms)?;
                        let n = bits / 8;
                        Ok(Val::M(vec![Ch { off: 0, len: n, v: V::S(r) }, Ch { off: n, len: 1, v: V::S(o) }], 2 * n))
                    }
                    BK::Unchecked => {
                        if matches!(op, BOp::Div | BOp::Rem) && binop(BOp::Eq, *bits, *signed, &y, &Sc::C(0), *bits, doms)?.konst(doms)? == 1 { return ub("division by zero"); }
                        let o = overflow(*op, *bits, *signed, &x, &y, *ybits, *ysigned, doms)?.konst(doms)?;
                        if o == 1 { return ub(format!("unchecked {op:?} out of range")); }
                        Ok(Val::S(V::S(binop(*op, *bits, *signed, &x, &y, *ybits, doms)?), bits / 8))
                    }
                }
            }
            Rv::Un { not, boolean, bits, signed, a } => {
                let x = self.sc(self.op(st, a)?)?;
                let _ = signed;
                Ok(Val::S(V::S(if *boolean { binop(BOp::Xor, 8, false, &x, &Sc::C(1), 8, doms)? } else if *not { not_(*bits, &x, doms)? } else { neg(*bits, &x, doms)? }), bits / 8))
            }
            Rv::PtrMeta(o) => match self.op(st, o)? {
                Val::M(mut c, 16) => Ok(Val::S(c.swap_remove(1).v, 8)),
                Val::S(..) => Ok(Val::Z),
                _ => unsup("pointer metadata"),
            },
            Rv::Discr(p, di) => {
                let l = match di { DI::Const(_) => None, _ => Some(self.place(st, p)?.0) };
                self.discr(st, l, di)
            }
            Rv::Agg(fs, tag, rawptr) => {
                let _ = rawptr;
                let mut out: Vec<Ch> = vec![];
                let mut size = 0;
                for (off, o) in fs {
                    let v = self.op(st, o)?;
                    size = size.max(off + v.size());
                    match v {
                        Val::Z => {}
                        Val::S(v, n) => out.push(Ch { off: *off, len: n, v }),
                        Val::M(c, _) => out.extend(c.into_iter().map(|mut c| { c.off += off; c })),
                    }
                }
                if let Some((o, n, v)) = tag {
                    size = size.max(o + n);
                    out.push(Ch { off: *o, len: *n, v: V::c(*v) });
                }
                out.sort_by_key(|c| c.off);
                Ok(Val::M(out, size))
            }
            Rv::Unsup(s) => unsup(s.clone()),
        }
    }
    pub fn discr(&self, st: &State, l: Option<Loc>, di: &DI) -> R<Val> {
        let doms = &st.doms;
        match di {
            DI::Bad => ub("discriminant of an uninhabited type"),
            DI::Const(x) => Ok(Val::sc(*x, 16)),
            DI::Direct { off, size, signed, to, valid } => {
                let l = l.unwrap();
                let v = self.read(st, Loc { base: l.base, off: l.off + *off as i64 }, *size)?;
                let s = match v { V::S(s) => s, V::Undef => return ub("discriminant of uninitialised memory"), _ => return unsup("tag") };
                if let Some(vs) = s.values(doms) {
                    if let Some(b) = vs.iter().find(|x| !valid.contains(x)) { if !valid.is_empty() { return ub(format!("invalid enum tag {b}")); } }
                }
                Ok(Val::S(V::S(cast(&s, size * 8, *signed, *to, doms)?), to / 8))
            }
            DI::Niche { off, size, start, first, count, untagged, discr, ptr } => {
                let l = l.unwrap();
                let v = self.read(st, Loc { base: l.base, off: l.off + *off as i64 }, *size)?;
                let m = wmask(size * 8);
                let f = |x: u128| {
                    let rel = x.wrapping_sub(*start) & m;
                    let v = if rel < *count as u128 { first + rel as u32 } else { *untagged };
                    discr[v as usize]
                };
                match v {
                    V::S(s) => Ok(Val::S(V::S(map1(&s, doms, f)?), 16)),
                    V::P(_) if *ptr => Ok(Val::sc(discr[*untagged as usize], 16)),
                    V::Undef => ub("discriminant of uninitialised memory"),
                    _ => unsup("niche"),
                }
            }
        }
    }
    pub fn ptr_cmp(&self, st: &State, op: BOp, x: &Val, y: &Val) -> R<bool> {
        let (Val::S(x, _), Val::S(y, _)) = (x, y) else { return unsup("pointer comparison") };
        if matches!(x, V::S(Sc::T(_))) || matches!(y, V::S(Sc::T(_))) {
            let (x, y) = (self.sc(Val::S(x.clone(), 8))?, self.sc(Val::S(y.clone(), 8))?);
            return Ok(binop(op, 64, false, &x, &y, 64, &st.doms)?.konst(&st.doms)? == 1);
        }
        let (a, b) = (self.to_loc(st, x.clone())?, self.to_loc(st, y.clone())?);
        if a.base == b.base {
            return Ok(match op {
                BOp::Eq => a.off == b.off, BOp::Ne => a.off != b.off, BOp::Lt => a.off < b.off, BOp::Le => a.off <= b.off,
                BOp::Gt => a.off > b.off, BOp::Ge => a.off >= b.off, _ => return unsup("pointer arithmetic"),
            });
        }
        match op {
            BOp::Eq => Ok(false),
            BOp::Ne => Ok(true),
            _ => unsup("ordering of unrelated pointers"),
        }
    }
    /// A pointer moved by an unknown distance, or a pointer at an unknown offset.
    fn term_add(&self, st: &State, p: Val, n: Sc, elem: u64, inb: bool) -> R<Val> {
        use crate::term::*;
        let p = lin(&self.sc(p)?, &st.doms)?;
        let d = lin(&n, &st.doms)?;
        // distances are signed
        let d = if decide(&d.plus(-(1 << 63)), &st.doms)? { d.plus(-(1 << 64)) } else { d };
        let r = p.add(&d, elem as i128);
        if inb {
            let Some((a, o)) = r.split_addr() else { return unsup("pointer arithmetic on an unknown object") };
            let (sz, _) = self.obj_size(st, base(a))?;
            if !decide(&o, &st.doms)? || !decide(&o.mul(-1).plus(sz as i128), &st.doms)? { return ub(format!("pointer arithmetic beyond an object of {sz} bytes")); }
        }
        Ok(Val::S(V::S(r.sc()), 8))
    }
    pub fn ptr_add(&self, st: &State, p: Val, n: Val, elem: u64, inb: bool) -> R<Val> {
        let n = self.sc(n)?;
        if matches!(n, Sc::T(_)) || matches!(p, Val::S(V::S(Sc::T(_)), _)) { return self.term_add(st, p, n, elem, inb); }
        let n = sext(n.konst(&st.doms)?, 64) as i64;
        let Val::S(p, _) = p else { return unsup("offset of a fat pointer") };
        let l = self.to_loc(st, p)?;
        let d = n.wrapping_mul(elem as i64);
        let off = l.off.wrapping_add(d);
        if inb && d != 0 {
            if let Base::A = l.base { return ub("pointer arithmetic on an invalid pointer"); }
            self.not_seq(st, l.base)?;
            let (sz, _) = self.obj_size(st, l.base)?;
            if let Base::H(h) = l.base { if st.heap[h as usize].kind == ObjKind::Stream { return Ok(Val::S(self.ptr_of(Loc { base: l.base, off }), 8)); } }
            if off < 0 || off as u64 > sz || l.off < 0 || l.off as u64 > sz { return ub(format!("pointer arithmetic out of bounds: offset {off} of an object of {sz} bytes")); }
        }
        Ok(Val::S(self.ptr_of(Loc { base: l.base, off }), 8))
    }

    // ---- stepping -----------------------------------------------------------------------------------------------
    fn goto(&self, st: &mut State, f: &Fun, bb: u32) -> Flow {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.bb = bb;
        fr.st = 0;
        if f.head[bb as usize] {
            while let Some(p) = fr.trips.iter().position(|x| x.0 == bb) {
                fr.trips.truncate(p + 1);
                fr.trips[p].1 += 1;
                for l in &f.dead_at[bb as usize] { fr.locals[*l as usize] = Mem::Dead; }
                return if self.cfg.join { Flow::Head } else { Flow::Go };
            }
            fr.trips.push((bb, 1));
            for l in &f.dead_at[bb as usize] { fr.locals[*l as usize] = Mem::Dead; }
            if self.cfg.join { return Flow::Head; }
        } else if f.merge[bb as usize] && self.cfg.join && st.nref > *st.marks.last().unwrap() {
            for l in &f.dead_at[bb as usize] { fr.locals[*l as usize] = Mem::Dead; }
            return Flow::Ret;
        }
        Flow::Go
    }
    fn step(&self, st: &mut State) -> R<Flow> {
        let fr = self.top(st);
        let f = self.fun(fr.fid)?;
        let blk = &f.blocks[fr.bb as usize];
        let depth = st.frames.len() as u32 - 1;
        if (fr.st as usize) < blk.stmts.len() {
            match &blk.stmts[fr.st as usize] {
                St::Assign(p, r) => {
                    let v = self.rv(st, r)?;
                    let l = if p.proj.is_empty() { Loc { base: Base::L(depth, p.local), off: 0 } } else { self.place(st, p)?.0 };
                    self.store(st, l, &p.acc, v)?;
                }
                St::SetDiscr(p, t) => {
                    if let Some((o, n, v)) = t {
                        let l = self.place(st, p)?.0;
                        self.write(st, Loc { base: l.base, off: l.off + *o as i64 }, Val::sc(*v, *n))?;
                    }
                }
                St::Live(l) => { let l = *l as usize; Rc::make_mut(st.frames.last_mut().unwrap()).locals[l] = Mem::Empty; }
                St::Dead(l) => { let l = *l as usize; Rc::make_mut(st.frames.last_mut().unwrap()).locals[l] = Mem::Dead; }
                St::Assume(o) => {
                    if self.sc(self.op(st, o)?)?.konst(&st.doms)? == 0 { return ub("assumption violated"); }
                }
                St::CopyNon { src, dst, count, size } => {
                    let n = self.sc(self.op(st, count)?)?;
                    let s = self.op(st, src)?;
                    let d = self.op(st, dst)?;
                    if crate::term::on() && *size == 1 && matches!(n.norm(&st.doms), Sc::T(_)) {
                        let c = (self.sc(d)?, self.sc(s)?, n);
                        Rc::make_mut(&mut st.mon.copies).push(c);
                    } else {
                        let n = n.konst(&st.doms)? as u64 * size;
                        self.copy(st, s, d, n)?;
                    }
                }
                St::Unsup(s) => return unsup(s.clone()),
            }
            Rc::make_mut(st.frames.last_mut().unwrap()).st += 1;
            return Ok(Flow::Go);
        }
        match &blk.term {
            Tm::Goto(b) => Ok(self.goto(st, &f, *b)),
            Tm::Switch { op, arms, other } => {
                let v = self.op(st, op)?;
                let s = match v {
                    Val::S(V::P(_), _) => return unsup("switch on a pointer"),
                    v => self.sc(v)?,
                };
                let target = |x: u128| arms.iter().find(|a| a.0 == x).map_or(*other, |a| a.1);
                let s = s.norm(&st.doms);
                if let Sc::C(x) = s { return Ok(self.goto(st, &f, target(x))); }
                if let Some((sy, t)) = s.to_fn() {
                    let mut first = None;
                    let mut mixed = false;
                    st.doms[sy as usize].for_each(|i| { let b = target(t[i as usize] as u128); match first { None => first = Some(b), Some(o) => mixed |= o != b } });
                    if !mixed { return Ok(self.goto(st, &f, first.unwrap())); }
                    return Err(split_by(&st.doms, sy, |i| target(t[i as usize] as u128) as u64));
                }
                if let Sc::T(_) = s {
                    for (x, b) in arms.iter() { if binop(BOp::Eq, 64, false, &s, &Sc::C(*x), 64, &st.doms)?.konst(&st.doms)? == 1 { return Ok(self.goto(st, &f, *b)); } }
                    return Ok(self.goto(st, &f, *other));
                }
                Err(s.need_const(&st.doms))
            }
            Tm::Return => {
                let v = match &f.ret { Acc::Zst => Val::Z, a => Val::M(self.top(st).locals[0].chunks().to_vec(), a.size()) };
                if let (Acc::Scalar { init: true, .. }, Val::M(c, _)) = (&f.ret, &v) {
                    if c.is_empty() { return ub("uninitialised return value"); }
                }
                if depth == 0 { return Ok(Flow::Done(v)); }
                if let Val::M(c, _) = &v {
                    if c.iter().any(|c| matches!(c.v, V::P(Ptr { base: Base::L(d, _), .. }) if d == depth)) { return ub("pointer to a local variable returned"); }
                }
                let fr = st.frames.pop().unwrap();
                let mark = st.marks.pop().unwrap();
                let caller = self.fun(self.top(st).fid)?;
                if let Some(d) = fr.dest {
                    let l = Loc { base: d.base, off: d.off };
                    let v = match (&f.ret, v) { (Acc::Scalar { size, .. }, Val::M(mut c, _)) if c.len() == 1 && c[0].len == *size => Val::S(c.pop().unwrap().v, *size), (_, v) => v };
                    self.write(st, l, v)?;
                }
                match fr.ret {
                    Some(b) => Ok(match self.goto(st, &caller, b) {
                        Flow::Go if self.cfg.join && st.nref > mark => {
                            let c = Rc::make_mut(st.frames.last_mut().unwrap());
                            for l in &caller.dead_at[b as usize] { if !matches!(c.locals[*l as usize], Mem::Dead) { c.locals[*l as usize] = Mem::Empty; } }
                            Flow::Ret
                        }
                        f => f,
                    }),
                    None => ub("return from a function that must not return"),
                }
            }
            Tm::Unreachable => ub("unreachable code reached"),
            Tm::Assert { cond, expected, msg, target } => {
                let c = self.sc(self.op(st, cond)?)?.konst(&st.doms)?;
                if (c == 1) == *expected { Ok(self.goto(st, &f, *target)) } else { Err(Need::Panic(msg.clone())) }
            }
            Tm::Drop { f: g, place, target } => match g {
                None => Ok(self.goto(st, &f, *target)),
                Some(g) => {
                    let (l, meta) = self.place(st, place)?;
                    let arg = match meta { None => Val::S(self.ptr_of(l), 8), Some(m) => Val::M(vec![Ch { off: 0, len: 8, v: self.ptr_of(l) }, Ch { off: 8, len: 8, v: m }], 16) };
                    self.call(st, &f, *g, vec![arg], None, Some(*target), 0)
                }
            },
            Tm::Call { f: callee, args, dest, ret, untuple } => {
                let mut av = Vec::with_capacity(args.len());
                for a in args { av.push(self.op(st, a)?); }
                if let Some(u) = untuple {
                    let t = av.pop().unwrap();
                    let m = t.mem();
                    for (off, size) in u {
                        av.push(if *size == 0 { Val::Z } else { let c = m.read_range(*off, *size, &st.doms)?; if c.len() == 1 && c[0].off == 0 && c[0].len == *size { Val::S(c[0].v.clone(), *size) } else { Val::M(c, *size) } });
                    }
                }
                let (dl, _) = self.place(st, dest)?;
                let d = if dest.acc == Acc::Zst { None } else { Some(Ptr { base: dl.base, off: dl.off }) };
                let fid = match callee {
                    Callee::Fn(i) => *i,
                    Callee::Dyn(o) => match self.op(st, o)? {
                        // a function of the user: its arguments are recorded, and the first of several is its result
                        Val::S(V::P(Ptr { base: Base::F(u32::MAX), .. }), _) => {
                            let mut seen = vec![];
                            for a in &av { for c in a.clone().mem().chunks() { seen.push(c.v.clone()); } }
                            st.mon.ev(crate::mon::Ev::Call("user".into(), seen, vec![]));
                            if st.mon.trace.len() > 81 { return Err(Need::Viol("the function given is called more than 81 times".into())); }
                            if let (Some(d), Some(a), true) = (d, av.first(), av.len() > 1) {
                                if a.size() != dest.acc.size() { return unsup("user function"); }
                                self.write(st, Loc { base: d.base, off: d.off }, a.clone())?;
                            } else if dest.acc != Acc::Zst { return unsup("user function"); }
                            let Some(b) = ret else { return ub("no return point") };
                            return Ok(self.goto(st, &f, *b));
                        }
                        Val::S(V::P(Ptr { base: Base::F(i), .. }), _) => i,
                        _ => return unsup("call through an unknown function pointer"),
                    },
                    Callee::Virtual { slot } => {
                        let Some(Val::M(c, 16)) = av.first() else { return unsup("virtual call") };
                        let V::P(Ptr { base: Base::VT(vt), .. }) = c[1].v else { return unsup("virtual call on an unknown object") };
                        let (t, tr) = self.lw.vtables.borrow()[vt as usize];
                        let Some(i) = self.resolve_virtual(t, tr, *slot) else { return unsup("virtual method") };
                        av[0] = Val::S(c[0].v.clone(), 8);
                        i
                    }
                };
                self.call(st, &f, fid, av, d, *ret, dest.acc.size())
            }
            Tm::Unsup(s) => unsup(s.clone()),
        }
    }
    pub fn resolve_virtual(&self, t: Ty<'tcx>, tr: Option<ty::PolyExistentialTraitRef<'tcx>>, slot: u32) -> Option<u32> {
        let tcx = self.lw.tcx;
        let tr = tr?.with_self_ty(tcx, t);
        let tr = tcx.instantiate_bound_regions_with_erased(tr);
        let entries = tcx.vtable_entries(ty::Binder::dummy(tr).skip_binder());
        match entries.get(slot as usize)? {
            ty::VtblEntry::Method(i) => Some(self.lw.intern(*i)),
            _ => None,
        }
    }
    /// Stores a value whose representation may differ from the destination's (scalar or several chunks).
    fn store(&self, st: &mut State, l: Loc, acc: &Acc, v: Val) -> R<()> {
        let v = match (acc, v) {
            (Acc::Zst, _) => return Ok(()),
            (Acc::Scalar { size, .. }, Val::M(mut c, _)) => {
                if c.len() == 1 && c[0].off == 0 && c[0].len == *size { Val::S(c.pop().unwrap().v, *size) }
                else { Val::S(Mem::from_chunks(c).read(0, *size, &st.doms)?, *size) }
            }
            (Acc::Scalar { size, .. }, Val::S(v, n)) if n != *size => {
                // discriminants are produced at 128 bits
                let _ = n;
                match v { V::S(s) => Val::S(V::S(map_mask(&s, *size, &st.doms)?), *size), v => Val::S(v, *size) }
            }
            (Acc::Mem { size }, Val::M(c, n)) => { let _ = n; Val::M(c, *size) }
            (Acc::Mem { size }, Val::S(v, n)) => Val::M(vec![Ch { off: 0, len: n, v }], *size),
            (_, v) => v,
        };
        self.write(st, l, v)
    }
    pub fn copy(&self, st: &mut State, s: Val, d: Val, n: u64) -> R<()> {
        let (Val::S(s, _), Val::S(d, _)) = (s, d) else { return unsup("copy") };
        if n == 0 { return Ok(()); }
        crate::hooks::calls_itself(self, st, &["memcpy", "memmove"], n)?;
        let s = self.to_loc(st, s)?;
        let d = self.to_loc(st, d)?;
        let v = self.read_range(st, s, n as u32)?;
        self.write(st, d, v)
    }
    /// The result of a call on constants, if the function is free of effects and reaches one constant result.
    fn evaluated(&self, fid: u32, args: &[Option<(u128, u32)>]) -> Option<Rc<Vec<(u32, u32, u128)>>> {
        let key = (fid, args.to_vec());
        if let Some(r) = self.memo.borrow().get(&key) { return r.clone(); }
        self.memo.borrow_mut().insert(key.clone(), None);
        let mut st = State::new();
        let av: Vec<Val> = args.iter().map(|a| match a { None => Val::Z, Some((x, n)) => Val::sc(*x, *n) }).collect();
        let out: RefCell<Option<Vec<(u32, u32, u128)>>> = RefCell::new(None);
        let good = Cell::new(true);
        if self.enter(&mut st, fid, av).is_ok() {
            self.explore(st, &mut |st, v| {
                let mut r = vec![];
                for c in v.clone().chunks() { if let V::S(Sc::C(x)) = c.v { r.push((c.off, c.len, x)); } else { good.set(false); } }
                if out.borrow().is_some() || !st.heap.is_empty() || st.mon != Mon::default() || !st.doms.is_empty() { good.set(false); }
                *out.borrow_mut() = Some(r);
                Ok(())
            }, &mut |_| good.set(false));
        } else { good.set(false); }
        let r = if good.get() { out.into_inner().map(Rc::new) } else { None };
        self.memo.borrow_mut().insert(key, r.clone());
        r
    }
    /// The result of a call whose arguments are constants, or functions of one symbol with few values.
    fn tabulated(&self, st: &State, fid: u32, args: &[Val]) -> R<Option<Val>> {
        if !self.cfg.join || args.is_empty() || args.len() > 4 { return Ok(None); }
        let mut sym: Option<Sym> = None;
        let mut fs: Vec<Option<(Sc, u32)>> = vec![];
        for a in args {
            match a {
                Val::Z => fs.push(None),
                Val::S(V::S(s), n) => {
                    match s {
                        Sc::C(_) => fs.push(Some((s.clone(), *n))),
                        Sc::F(y, t) if t.len() <= 82 && sym.is_none_or(|z| z == *y) => { sym = Some(*y); fs.push(Some((s.clone(), *n))); }
                        _ => return Ok(None),
                    }
                }
                _ => return Ok(None),
            }
        }
        if fs.iter().all(|f| f.is_none()) { return Ok(None); }
        {
            let f = self.fun(fid)?;
            if f.spread.is_some() || f.zst_self || f.nargs != args.len() { return Ok(None); }
        }
        let at = |i: u32| -> Vec<Option<(u128, u32)>> { fs.iter().map(|f| f.as_ref().map(|(s, n)| (s.eval(&|_| i), *n))).collect() };
        let Some(y) = sym else {
            let Some(r) = self.evaluated(fid, &at(0)) else { return Ok(None) };
            return Ok(Some(Val::M(r.iter().map(|(o, n, x)| Ch { off: *o, len: *n, v: V::c(*x) }).collect(), self.fun(fid)?.ret.size())));
        };
        let dom = &st.doms[y as usize];
        let mut rs: Vec<(u32, Rc<Vec<(u32, u32, u128)>>)> = vec![];
        for i in dom.to_vec() {
            let Some(r) = self.evaluated(fid, &at(i)) else { return Ok(None) };
            if let Some((_, q)) = rs.first() { if q.len() != r.len() || q.iter().zip(r.iter()).any(|(a, b)| a.0 != b.0 || a.1 != b.1) { return Ok(None); } }
            rs.push((i, r));
        }
        let Some((_, shape)) = rs.first().cloned() else { return Ok(None) };
        let mut out = vec![];
        for (k, (o, n, _)) in shape.iter().enumerate() {
            let mut t = vec![0u128; dom.n as usize];
            let fill = shape[k].2;
            t.fill(fill);
            for (i, r) in &rs { t[*i as usize] = r[k].2; }
            out.push(Ch { off: *o, len: *n, v: V::S(mk_fn(y, t)) });
        }
        Ok(Some(Val::M(out, self.fun(fid)?.ret.size())))
    }
    pub fn call(&self, st: &mut State, f: &Fun, fid: u32, args: Vec<Val>, dest: Option<Ptr>, ret: Option<u32>, dsize: u32) -> R<Flow> {
        let info = self.lw.info(fid);
        if st.frames.len() > 20000 { return Err(Need::Panic("more than 20000 nested calls".into())); }
        let mut fid = fid;
        if let Some(h) = &info.hook {
            let r = crate::hooks::run(self, st, h, &info, &args, dsize)?;
            match r {
                crate::hooks::HR::Val(v) => {
                    if let (Some(d), true) = (dest, v.size() > 0) {
                        let l = Loc { base: d.base, off: d.off };
                        let acc = if dsize == v.size() || matches!(v, Val::M(..)) { Acc::Mem { size: dsize } } else { Acc::Scalar { size: dsize, valid: None, init: false, ptr: false } };
                        match v { Val::S(v, n) if n == dsize => self.write(st, l, Val::S(v, n))?, v => self.store(st, l, &acc, v)? }
                    }
                    let Some(b) = ret else { return ub("no return point") };
                    return Ok(self.goto(st, f, b));
                }
                crate::hooks::HR::Alts(alts) => {
                    let Some(b) = ret else { return ub("no return point") };
                    let mut out = vec![];
                    for (mut s2, v) in alts {
                        if let Some(d) = dest { self.write(&mut s2, Loc { base: d.base, off: d.off }, v)?; }
                        // a loop head reached here is parked on its next arrival
                        self.goto(&mut s2, f, b);
                        out.push(s2);
                    }
                    return Ok(Flow::Alts(out));
                }
                crate::hooks::HR::Call(g, a) => return self.call(st, f, g, a, dest, ret, dsize),
                crate::hooks::HR::Body(g) => fid = g,
            }
        }
        if let Some(v) = self.tabulated(st, fid, &args)? {
            if let (Some(d), true) = (dest, v.size() > 0) {
                let l = Loc { base: d.base, off: d.off };
                let acc = match &self.fun(fid)?.ret { Acc::Scalar { size, .. } => Acc::Scalar { size: *size, valid: None, init: false, ptr: false }, a => Acc::Mem { size: a.size() } };
                self.store(st, l, &acc, v)?;
            }
            let Some(b) = ret else { return ub("no return point") };
            return Ok(self.goto(st, f, b));
        }
        let extra_local = self.extra_local.borrow_mut().take();
        let (mut fr, g) = self.frame(fid).map_err(|e| match e { Need::Unsup(s) => Need::Unsup(format!("{s} (called)")), e => e })?;
        if st.frames.len() > 120 { return unsup("call depth"); }
        let mut it = args.into_iter().peekable();
        let mut args: Vec<Val> = vec![];
        let extra = g.spread.as_ref().map_or(0, |s| s.1.len()) ;
        let want = if g.spread.is_some() { g.nargs - 1 + extra } else { g.nargs };
        let have = it.len();
        if g.zst_self && have + 1 == want { args.push(Val::Z); }
        args.extend(&mut it);
        if args.len() != want { return unsup(format!("{} arguments for {} ({})", args.len(), g.name, want)); }
        let mut k = 0;
        for i in 1..=g.nargs {
            if let Some((l, offs)) = &g.spread {
                if *l == i {
                    let mut out = vec![];
                    for o in offs { for mut c in args[k].clone().chunks() { c.off += o; out.push(c); } k += 1; }
                    out.sort_by_key(|c| c.off);
                    fr.locals[i] = Mem::from_chunks(out);
                    continue;
                }
            }
            fr.locals[i] = std::mem::replace(&mut args[k], Val::Z).mem();
            k += 1;
        }
        if let Some(m) = extra_local { fr.locals.push(m); }
        fr.dest = dest;
        fr.ret = ret;
        if self.cfg.join {
            if let Some(b) = ret {
                let c = Rc::make_mut(st.frames.last_mut().unwrap());
                for l in &f.dead_at[b as usize] { c.locals[*l as usize] = Mem::Empty; }
            }
        }
        let h = g.head[0];
        st.marks.push(st.nref);
        st.frames.push(Rc::new(fr));
        if h { return Ok(self.goto(st, &g, 0)); }
        Ok(Flow::Go)
    }
}
fn not_(bits: u32, x: &Sc, doms: &[Dom]) -> R<Sc> { not(bits, x, doms) }
pub fn map_mask(s: &Sc, size: u32, doms: &[Dom]) -> R<Sc> { cast(s, 128, false, size * 8, doms) }
