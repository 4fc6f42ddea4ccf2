#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
mod abi;
mod api;
mod exec;
mod gen;
mod hooks;
mod join;
mod lower;
mod mem;
mod mon;
mod props;
mod run;
mod sem;
mod posspec;
mod spec;
mod structural;
mod term;
mod allocspec;
mod memspec;
mod textspec;
mod eqspec;
mod val;
use rustc_middle::ty::TyCtxt;
struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let want = if std::env::var("SGC_PROP").is_ok_and(|p| p == "C29" || p == "C33") { "shogi_core_c" } else { "shogi_core" };
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != want { return rustc_driver::Compilation::Continue; }
        let api = api::Api::new(tcx);
        if std::env::var("SGC_KEYS").is_ok() { for f in &api.funs { eprintln!("KEY {} {} {} {:?}", if f.public {"pub"} else {"-"}, if f.unsafe_ {"unsafe"} else {"-"}, f.key, f.export); } return rustc_driver::Compilation::Continue; }
        let e = run::engine(tcx);
        let mut px = props::Px { api, e, cases: vec![], missing: vec![], static_bad: vec![], facts: 0, notes: vec![] };
        let pop = props::pop_contract(&px);
        let thorough = std::env::var("SGC_TIER").is_ok_and(|t| t == "thorough");
        match std::env::var("SGC_PROP") { Ok(p) => { if !spec::add(&mut px, &p, thorough) { panic!("unknown property {p}"); } } Err(_) => props::auto(&mut px, &std::env::var("SGC_F").unwrap_or_default(), props::Want::All, thorough) }
        let jobs = std::env::var("SGC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        // a broken structural rule is an answer; exploring the rest adds little
        if !px.static_bad.is_empty() && px.e.cfg.until.is_some() { let t = std::time::Instant::now() + std::time::Duration::from_secs(20); px.e.cfg.until = Some(px.e.cfg.until.unwrap().min(t)); std::env::set_var("SGC_DEADLINE", "20"); }
        let out = run::run_all(&px.e, &px.cases, jobs);
        if let Ok(path) = std::env::var("SGC_OUT") { std::fs::write(path, run::report(&px, &out, pop)).unwrap(); } else {
            eprintln!("pop contract: {pop}");
            for n in &px.notes { eprintln!("NOTE {n}"); }
            for m in &px.missing { eprintln!("MISSING {} {}", m.0, m.1); }
            for b in px.static_bad.iter().chain(&out.bad) { eprintln!("BAD {} | {} | {} | {} | {}", b.kind, b.case, b.msg, b.site, b.witness); }
            eprintln!("TOTAL cases {} of {} facts {} alts {} steps {} leaves {} joins {} splits {} fns {}", out.cases, px.cases.len(), px.facts, out.alts, out.steps, out.leaves, out.joins, out.splits, out.fns.len());
        }
        rustc_driver::Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    if args.iter().any(|a| a.starts_with("--crate-name")) { args.push("-Zmir-opt-level=0".into()); args.push("-Zub-checks=no".into()); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
