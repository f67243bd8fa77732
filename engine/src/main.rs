//! mirsym: symbolic execution of monomorphic MIR with an SMT back end.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod exec;
mod fx;
mod json;
mod lower;
mod nat_coll;
mod nat_core;
mod nat_str;
mod natives;
mod regexsym;
mod smt;
mod term;
mod val;

use rustc_hir::def::{DefKind, Res as HRes};
use rustc_hir::def_id::DefId;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Inst = rustc_middle::ty::Instance<'static>;
pub type Tcx = rustc_middle::ty::TyCtxt<'static>;
pub type Ty = rustc_middle::ty::Ty<'static>;

impl exec::Engine {
    /// item at a `::`-separated path made of modules
    pub fn find_item(&self, path: &str) -> Option<DefId> {
        let tcx = self.lower.tcx;
        let parts: Vec<&str> = path.split("::").collect();
        let krate = tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == parts[0])?;
        let mut cur = krate.as_def_id();
        for p in &parts[1..] {
            let ch = tcx.module_children(cur);
            cur = ch.iter().find(|c| c.ident.name.as_str() == *p).and_then(|c| c.res.opt_def_id())?;
        }
        Some(cur)
    }
    pub fn find_trait(&self, path: &str) -> Option<DefId> {
        self.find_item(path)
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: rustc_middle::ty::TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let harness = match std::env::var("MIRSYM_HARNESS") {
            Ok(h) => h,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        let tcx: Tcx = unsafe { std::mem::transmute(tcx) };
        let t0 = std::time::Instant::now();
        let out = run(tcx, &harness, t0);
        match std::env::var("MIRSYM_OUT") {
            Ok(p) => std::fs::write(p, out).unwrap(),
            Err(_) => println!("{}", out),
        }
        rustc_driver::Compilation::Stop
    }
}

fn run(tcx: Tcx, harness: &str, t0: std::time::Instant) -> String {
    let lower = lower::Lower::new(tcx);
    let cfg = exec::Config {
        max_viol_per_id: env_u64("MIRSYM_MAXVIOL", 4) as usize,
        deadline: t0 + std::time::Duration::from_secs(env_u64("MIRSYM_TIMEOUT", 600)),
        trace: env_u64("MIRSYM_TRACE", 0) != 0,
        dump_smt: std::env::var("MIRSYM_SMT").ok(),
        merge: env_u64("MIRSYM_MERGE", 1) != 0,
    };
    let smt = smt::Smt::new(env_u64("MIRSYM_QTIMEOUT", 60_000) as u32);
    let mut e = exec::Engine::new(lower, smt, cfg);
    if let Some(m) = e.find_item("symrt::shims") {
        for c in tcx.module_children(m) {
            if let HRes::Def(DefKind::Fn, d) = c.res {
                e.shims.insert(c.ident.name.to_string(), d);
            }
        }
    }
    if let Ok(f) = std::env::var("MIRSYM_FIX") {
        // label=value;label=value : concrete assignment
        for kv in f.split(';').filter(|x| !x.is_empty()) {
            let (k, v) = kv.rsplit_once('=').unwrap();
            e.fix.insert(k.to_string(), v.parse().unwrap());
        }
    }
    let did = tcx
        .hir_body_owners()
        .find(|d| tcx.def_kind(d.to_def_id()) == DefKind::Fn && tcx.def_path_str(d.to_def_id()).rsplit("::").next() == Some(harness))
        .map(|d| d.to_def_id());
    let Some(did) = did else { return json::obj(&[("error", json::s(&format!("no harness {}", harness)))]) };
    let inst = e.lower.resolve(did, tcx.mk_args(&[])).unwrap();
    let err = e.start(inst).err();
    report(&e, harness, t0, err)
}

fn report(e: &exec::Engine, harness: &str, t0: std::time::Instant, err: Option<String>) -> String {
    use json::*;
    let mut kv: Vec<(&str, String)> = vec![("harness", s(harness))];
    if let Some(x) = err {
        kv.push(("error", s(&x)));
    }
    kv.push(("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64())));
    kv.push(("solver_s", format!("{:.3}", e.smt.time)));
    kv.push(("queries", e.smt.queries.to_string()));
    kv.push(("sat", e.smt.sat.to_string()));
    kv.push(("unsat", e.smt.unsat.to_string()));
    kv.push(("unknown", e.smt.unknown.to_string()));
    kv.push(("steps", e.stats.steps.to_string()));
    kv.push(("forks", e.stats.forks.to_string()));
    kv.push(("merges", e.stats.merges.to_string()));
    kv.push(("merge_fail", e.stats.merge_fail.to_string()));
    kv.push(("ends", e.stats.ends.to_string()));
    kv.push(("panics", e.stats.panics.to_string()));
    kv.push(("checks", e.stats.checks.to_string()));
    kv.push(("check_queries", e.stats.check_queries.to_string()));
    kv.push(("max_live", e.stats.max_live.to_string()));
    kv.push(("terms", term::count().to_string()));
    kv.push(("timeout", e.out_of_time.to_string()));
    kv.push(("check_ids", obj(&e.stats.check_ids.iter().map(|(k, v)| (k.as_str(), format!("[{},{}]", v.0, v.1))).collect::<Vec<_>>())));
    kv.push(("reached", obj(&e.reached.iter().map(|(k, v)| (k.as_str(), v.to_string())).collect::<Vec<_>>())));
    kv.push(("unsupported", obj(&e.unsup.iter().map(|(k, v)| (k.as_str(), v.to_string())).collect::<Vec<_>>())));
    kv.push(("vars", obj(&e.vars.iter().map(|(k, v)| (k.as_str(), s(&v.1))).collect::<Vec<_>>())));
    let asg = |a: &HashMap<String, u128>| {
        let b: BTreeMap<_, _> = a.iter().collect();
        obj(&b.iter().map(|(k, v)| (k.as_str(), v.to_string())).collect::<Vec<_>>())
    };
    let u: Vec<String> = e.unsup_asg.iter().map(|(m, a)| obj(&[("msg", s(m)), ("asg", asg(a))])).collect();
    kv.push(("unsupported_models", arr(&u)));
    let v: Vec<String> = e
        .viol
        .iter()
        .map(|v| obj(&[("id", s(&v.id)), ("kind", s(v.kind)), ("msg", s(&v.msg)), ("asg", asg(&v.asg))]))
        .collect();
    kv.push(("violations", arr(&v)));
    let f: Vec<String> = e.fns_seen.iter().filter(|(_, v)| v.1).map(|(k, _)| s(k)).collect();
    kv.push(("functions", arr(&f)));
    kv.push(("functions_all", e.fns_seen.len().to_string()));
    let nat: BTreeSet<String> = e.stats.natives.keys().map(|k| s(&natives::canon(k))).collect();
    kv.push(("natives", arr(&nat.into_iter().collect::<Vec<_>>())));
    let ends: Vec<String> = e.ends.iter().take(60).map(|(m, r, _)| {
        obj(&[("asg", asg(&m.asg)), ("reach", arr(&r.iter().map(|x| s(x)).collect::<Vec<_>>()))])
    }).collect();
    kv.push(("ends_sample", arr(&ends)));
    let pool: Vec<String> = e.pool_models().iter().rev().take(80).map(|m| asg(&m.asg)).collect();
    kv.push(("pool", arr(&pool)));
    obj(&kv)
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
