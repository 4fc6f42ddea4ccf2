//! Running analysis cases in parallel and reporting.
use crate::exec::*;
use crate::gen::*;
use crate::lower::Lower;
use crate::val::*;
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

pub struct Ck<'a, 'tcx> {
    pub e: &'a Engine<'tcx>,
    pub st: &'a State,
    pub ret: &'a Val,
    pub g: &'a Gen,
}
pub type Build<'tcx> = Rc<dyn Fn(&Engine<'tcx>, &mut State, &mut Gen) -> R<Vec<Val>> + 'tcx>;
pub type Check<'tcx> = Rc<dyn Fn(&Ck<'_, 'tcx>) -> R<()> + 'tcx>;
#[derive(Clone)]
pub struct Case<'tcx> {
    pub name: String,
    pub fid: u32,
    pub build: Build<'tcx>,
    pub check: Check<'tcx>,
    /// Which faults count: panics, undefined behaviour.
    pub faults: (bool, bool),
    /// Sinks may fail.
    pub may_fail: bool,
    pub fix: Rc<Vec<(String, u64)>>,
    /// Changes the initial state once the arguments exist.
    pub prep: Option<Rc<dyn Fn(&mut State, &Gen) -> R<()> + 'tcx>>,
}
#[derive(Default, Clone)]
pub struct Bad { pub kind: &'static str, pub msg: String, pub site: String, pub witness: String, pub case: String }
#[derive(Default)]
pub struct Out { pub bad: Vec<Bad>, pub steps: u64, pub leaves: u64, pub joins: u64, pub splits: u64, pub cases: u64, pub alts: u64, pub fns: std::collections::BTreeSet<String>, pub samples: Vec<String> }

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
pub fn witness(g: &Gen, st: &State) -> String {
    let mut out: Vec<String> = vec![];
    for (p, n, vals) in &g.names {
        let d = &st.doms[p.sym as usize];
        let mut v: Vec<u32> = d.to_vec().into_iter().map(|i| p.ix(i)).collect();
        v.sort(); v.dedup();
        let k = v.len();
        if k == vals.len() { continue; }
        let show: Vec<String> = v.iter().take(4).map(|i| vals[*i as usize].to_string()).collect();
        if k <= 4 { out.push(format!("{n}={}", show.join("|"))); } else if k * 2 < vals.len() { out.push(format!("{n}={}|…({k})", show.join("|"))); }
        if out.len() > 40 { out.push("…".into()); break; }
    }
    out.join(" ")
}

/// Where the arguments as a whole are too much, families of arguments with few squares in play may show a violation.
pub fn run_case<'tcx>(e: &Engine<'tcx>, c: &Case<'tcx>, out: &mut Out) {
    let n0 = out.bad.len();
    let names = run_whole(e, c, out);
    if !out.bad[n0..].iter().any(|b| b.kind == "undecided" && b.msg == "exploration limit") || out.bad[n0..].iter().any(|b| b.kind != "undecided") { return; }
    // the squares of sets and boards
    let mut squares: std::collections::BTreeMap<String, (Vec<String>, usize)> = Default::default();
    for (n, k) in names {
        let Some((p, s)) = n.rsplit_once('.') else { continue };
        let b = s.as_bytes();
        if b.len() == 2 && (b'1'..=b'9').contains(&b[0]) && (b'a'..=b'i').contains(&b[1]) { let x = squares.entry(p.to_string()).or_insert((vec![], k)); x.0.push(s.to_string()); }
    }
    if squares.is_empty() { return; }
    let at = |i: usize| format!("{}{}", i / 9 + 1, (b'a' + (i % 9) as u8) as char);
    let boards = squares.values().any(|x| x.1 > 2);
    let width = if boards { 2 } else if squares.len() > 1 { 4 } else { 9 };
    let mut families: Vec<(Vec<usize>, u64)> = vec![];
    for k in 0..9 {
        families.push(((0..9).map(|r| 9 * k + r).collect(), 0));
        families.push(((0..9).map(|f| 9 * f + k).collect(), 0));
    }
    if width < 9 { families = families.into_iter().flat_map(|(f, v)| f.chunks(width).map(|x| (x.to_vec(), v)).collect::<Vec<_>>()).collect(); }
    families.push((vec![], if boards { 1 } else { 1 }));
    families.push((vec![0, 8, 62, 63, 80][..width.min(5)].to_vec(), 1));
    let secs = e.cfg.max_secs.replace(3);
    let began = std::time::Instant::now();
    for (free, v) in families {
        if began.elapsed().as_secs() > secs || e.cfg.until.is_some_and(|u| u < std::time::Instant::now()) { break; }
        let mut fix = (*c.fix).clone();
        for (p, x) in &squares { for s in &x.0 { if !free.iter().any(|i| at(*i) == *s) { fix.push((format!("{p}.{s}"), v)); } } }
        let mut sub = c.clone();
        sub.fix = Rc::new(fix);
        let mut o = Out::default();
        run_whole(e, &sub, &mut o);
        let found: Vec<Bad> = o.bad.into_iter().filter(|b| b.kind != "undecided").collect();
        if !found.is_empty() { out.bad.extend(found); break; }
    }
    e.cfg.max_secs.set(secs);
}
fn run_whole<'tcx>(e: &Engine<'tcx>, c: &Case<'tcx>, out: &mut Out) -> Vec<(String, usize)> {
    out.cases += 1;
    let mut g = Gen::default();
    let mut names = vec![];
    let mut seen: std::collections::HashMap<(String, String), u32> = Default::default();
    loop {
        let mut st = State::new();
        let ch = std::mem::take(&mut g.ch); g = Gen { ch, fix: c.fix.clone(), ..Gen::default() };
        st.mon.may_fail = c.may_fail;
        out.alts += 1;
        let add = |out: &mut Out, seen: &mut std::collections::HashMap<(String, String), u32>, kind: &'static str, msg: String, site: String, wit: String| {
            let n = seen.entry((format!("{kind}{msg}"), site.clone())).or_insert(0);
            *n += 1;
            if *n > 1 || out.bad.len() > 400 { return; }
            out.bad.push(Bad { kind, msg, site, witness: wit, case: c.name.clone() });
        };
        let args = (c.build)(e, &mut st, &mut g).and_then(|a| { if let Some(p) = &c.prep { p(&mut st, &g)?; } Ok(a) });
        match args.and_then(|a| e.enter(&mut st, c.fid, a)) {
            Err(Need::Dead) => {}
            Err(n) => add(out, &mut seen, "undecided", format!("arguments: {n:?}"), String::new(), String::new()),
            Ok(()) => {
                let g2 = g.clone();
                let bads: RefCell<Vec<(&'static str, String, String, String)>> = RefCell::new(vec![]);
                e.explore(st, &mut |st, ret| (c.check)(&Ck { e, st, ret, g: &g2 }), &mut |l| {
                    let w = witness(&g2, l.st);
                    let (k, m) = match l.end {
                        End::Panic(s) => { if !c.faults.0 { return; } ("panic", s) }
                        End::Ub(s) => { if !c.faults.1 { return; } ("undefined behaviour", s) }
                        End::Viol(s) => ("violation", s),
                        End::Unsup(s) => ("undecided", s),
                    };
                    // with unknown quantities, some values must lead here
                    let (k, m) = if k != "undecided" && crate::term::on() && crate::term::witness(&l.st.doms, &(0..2 + l.st.mon.fresh).collect::<Vec<_>>(), &|_| false).is_none() { ("undecided", format!("{m}, if this path is possible")) } else { (k, m) };
                    let mut b = bads.borrow_mut();
                    // repeated undecided paths must not crowd out violations
                    if k == "undecided" && b.iter().any(|x| x.0 == k && x.1 == m && x.2 == l.site) { return; }
                    if b.len() < 400 { b.push((k, m, l.site, w)); }
                });
                for (k, m, s, w) in bads.into_inner() { add(out, &mut seen, k, m, s, w); }
            }
        }
        if names.is_empty() { names = g.names.iter().map(|n| (n.1.clone(), n.2.len())).collect(); }
        if !g.ch.next() { return names; }
    }
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
/// Runs the cases on several processes.
pub fn run_all<'tcx>(e: &Engine<'tcx>, cases: &[Case<'tcx>], jobs: usize) -> Out {
    let picked: Vec<Case<'tcx>>;
    let cases = match std::env::var("SGC_ONLY") { Ok(s) => { picked = cases.iter().filter(|c| c.name.starts_with(&s)).cloned().collect(); &picked[..] } _ => cases };
    let mut total = Out::default();
    if cases.is_empty() { return total; }
    let chunk = (cases.len() / (jobs * 24)).max(1);
    let dir = std::env::temp_dir().join(format!("sgc-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let ctr = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize) };
    // violations found so far, to stop early
    let viols = unsafe { &*((ctr as *const _ as *const std::sync::atomic::AtomicUsize).add(8)) };
    // lower the roots once
    for c in cases { if let Err(m) = e.lw.body(c.fid) { let _ = m; } }
    let deadline = std::env::var("SGC_DEADLINE").ok().and_then(|s| s.parse().ok()).map(|s| std::time::Instant::now() + std::time::Duration::from_secs(s));
    let mut kids = vec![];
    for j in 0..jobs.min(cases.len()) {
        let pid = unsafe { fork() };
        if pid == 0 {
            let mut out = Out::default();
            let trace = std::env::var("SGC_TIME").is_ok();
            loop {
                let i = ctr.fetch_add(chunk, std::sync::atomic::Ordering::SeqCst);
                if i >= cases.len() { break; }
                for c in &cases[i..(i + chunk).min(cases.len())] {
                    if deadline.is_some_and(|d| d < std::time::Instant::now()) || viols.load(std::sync::atomic::Ordering::SeqCst) > 25 { break; }
                    let n0 = out.bad.len();
                    let t = std::time::Instant::now();
                    let s0 = e.stats.steps.get();
                    if std::env::var("SGC_START").is_ok() { eprintln!("start {j} {}", c.name); }
                    run_case(e, c, &mut out);
                    viols.fetch_add(out.bad[n0..].iter().filter(|b| b.kind != "undecided").count(), std::sync::atomic::Ordering::SeqCst);
                    if trace && t.elapsed().as_millis() > 300 { eprintln!("  {:>7} ms {:>10} steps {}", t.elapsed().as_millis(), e.stats.steps.get() - s0, c.name); }
                }
            }
            if e.prof {
                let c = e.stats.calls.borrow();
                let mut v: Vec<_> = c.iter().collect();
                v.sort_by_key(|x| std::cmp::Reverse(*x.1));
                for (k, n) in v.iter().take(40) { let f = e.lw.body(k.0).unwrap(); let b = &f.blocks[k.1 as usize]; eprintln!("PROF {n} {} bb{} line {} stmts {}", f.name, k.1, b.spans.first().unwrap_or(&0), b.stmts.len()); }
            }
            let mut f = String::new();
            f.push_str(&format!("S\t{}\t{}\t{}\t{}\t{}\t{}\n", e.stats.steps.get(), e.stats.leaves.get(), e.stats.joins.get(), e.stats.splits.get(), out.cases, out.alts));
            for (i, v) in e.visited.borrow().iter().enumerate() { if *v { let n = e.lw.info(i as u32); f.push_str(&format!("F\t{}\n", n.path.replace(['\t', '\n'], " "))); } }
            for b in &out.bad {
                let cl = |s: &str| s.replace(['\t', '\n'], " ");
                f.push_str(&format!("B\t{}\t{}\t{}\t{}\t{}\n", b.kind, cl(&b.msg), cl(&b.site), cl(&b.witness), cl(&b.case)));
            }
            f.push_str("E\n");
            std::fs::File::create(dir.join(format!("{j}"))).unwrap().write_all(f.as_bytes()).unwrap();
            unsafe { _exit(0) }
        }
        kids.push(pid);
    }
    for (j, p) in kids.iter().enumerate() {
        let mut s = 0;
        unsafe { waitpid(*p, &mut s, 0) };
        let text = std::fs::read_to_string(dir.join(format!("{j}"))).unwrap_or_default();
        if !text.ends_with("E\n") {
            total.bad.push(Bad { kind: "undecided", msg: format!("an analysis process ended early (status {s})"), ..Default::default() });
        }
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "S" => {
                    let n: Vec<u64> = p[1..].iter().map(|x| x.parse().unwrap()).collect();
                    total.steps += n[0]; total.leaves += n[1]; total.joins += n[2]; total.splits += n[3]; total.cases += n[4]; total.alts += n[5];
                }
                "F" => { total.fns.insert(p[1].into()); }
                "B" => {
                    let kind = match p[1] { "panic" => "panic", "undefined behaviour" => "undefined behaviour", "violation" => "violation", _ => "undecided" };
                    total.bad.push(Bad { kind, msg: p[2].into(), site: p[3].into(), witness: p[4].into(), case: p[5].into() });
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    total.samples = cases.iter().step_by((cases.len() / 8).max(1)).take(8).map(|c| c.name.clone()).collect();
    total
}
pub fn engine<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>) -> Engine<'tcx> {
    Engine::new(Lower::new(tcx), tcx.sess.overflow_checks())
}

/// The outcome as JSON.
pub fn report(px: &crate::props::Px, out: &Out, pop: bool) -> String {
    let bad = |b: &Bad| format!("{{\"kind\":{},\"msg\":{},\"site\":{},\"witness\":{},\"case\":{}}}", js(b.kind), js(&b.msg), js(&b.site), js(&b.witness), js(&b.case));
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    let mut subj: std::collections::BTreeMap<&str, u64> = Default::default();
    for c in &px.cases { *subj.entry(c.name.split(' ').next().unwrap_or("").trim()).or_insert(0) += 1; }
    format!("{{\"planned\":{},\"cases\":{},\"alternatives\":{},\"facts\":{},\"steps\":{},\"paths\":{},\"joins\":{},\"splits\":{},\"pop_summary\":{},\"functions\":{},\"subjects\":{},\"samples\":{},\"notes\":{},\"missing\":{},\"bad\":{}}}\n",
        px.cases.len(), out.cases, out.alts, px.facts, out.steps, out.leaves, out.joins, out.splits, pop,
        list(out.fns.iter().map(|s| js(s)).collect()), list(subj.iter().map(|(k, n)| js(&format!("{k} ({n})"))).collect()), list(out.samples.iter().map(|s| js(s)).collect()),
        list(px.notes.iter().map(|s| js(s)).collect()),
        list(px.missing.iter().map(|m| js(&format!("{}: {}", m.0, m.1))).collect()), list(px.static_bad.iter().chain(&out.bad).map(bad).collect()))
}
