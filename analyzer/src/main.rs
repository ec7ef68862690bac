#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;
mod decode;
mod dom;
mod state;
mod mem;
mod interp;
mod native;
mod more;
mod pm;
mod graph;
mod vp;
use interp::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::ControlFlow;

fn analyze() -> ControlFlow<(), ()> {
    let want = std::env::var("PM2_OBLIGATIONS").unwrap_or_default();
    let wants: Vec<&str> = want.split(',').filter(|x| !x.is_empty()).collect();
    let mut shims = HashMap::new();
    let mut obs = vec![];
    for it in rustc_public::all_local_items() {
        let t = it.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            let n = d.name().to_string();
            let last = n.rsplit("::").next().unwrap_or("").to_string();
            if n.starts_with("shims::") || n.contains("::shims::") { shims.insert(last.clone(), d); }
            if last.starts_with("ob_") && wants.iter().any(|w| last.starts_with(w)) {
                if let Ok(i) = Instance::resolve(d, &a) { obs.push((last, i)); }
            }
        }
    }
    let debug = std::env::var_os("PM2_DEBUG").is_some();
    if !debug { std::panic::set_hook(Box::new(|_| {})); }
    let max_paths: u64 = std::env::var("PM2_PATHS").ok().and_then(|x| x.parse().ok()).unwrap_or(2_000_000);
    let max_steps: u64 = std::env::var("PM2_STEPS").ok().and_then(|x| x.parse().ok()).unwrap_or(1_000_000);
    let budget: f64 = std::env::var("PM2_SECONDS").ok().and_then(|x| x.parse().ok()).unwrap_or(300.0);
    let eng = Eng { bodies: RefCell::new(HashMap::new()), names: RefCell::new(HashMap::new()), kinds: RefCell::new(HashMap::new()), shims, resolved: RefCell::new(HashMap::new()), drops: RefCell::new(HashMap::new()), tyk: RefCell::new(HashMap::new()), covered: RefCell::new(Default::default()), tables: native::Tables::new(), debug, max_steps, budget: std::cell::Cell::new(budget), show_all: std::env::var_os("PM2_ALL").is_some(), tracks: Default::default(), closures: Default::default(), seen_unk: Default::default() };
    obs.sort_by(|a, b| a.0.cmp(&b.0));
    let mut out = vec![];
    let deadline: f64 = std::env::var("PM2_DEADLINE").ok().and_then(|x| x.parse().ok()).unwrap_or(1e9);
    let t_start = std::time::Instant::now();
    let workers: usize = std::env::var("PM2_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    for (n, i) in obs {
        eng.covered.borrow_mut().clear();
        eng.bodies.borrow_mut().clear();
        let t0 = std::time::Instant::now();
        if t_start.elapsed().as_secs_f64() > deadline { eprintln!("{} skipped: out of time", n); out.push(format!("{{\"name\":{},\"paths\":0,\"returns\":0,\"steps\":0,\"checks\":0,\"truncated\":true,\"fails\":0,\"weak\":0,\"unknown\":[],\"unknown_total\":0,\"covered\":[],\"samples\":[],\"seconds\":0,\"ends\":[]}}", js(&n))); continue; }
        eng.budget.set(budget.min(deadline - t_start.elapsed().as_secs_f64()));
        let r = eng.run(i, max_paths, 400, workers);
        let dt = t0.elapsed().as_secs_f64();
        let cov: Vec<String> = r.covered.iter().cloned().collect();
        let unks: Vec<String> = r.unk.iter().map(|(k, n)| format!("{} x{}", k, n)).collect();
        eprintln!("{} paths={} returns={} fails={} weak={} unknown={} steps={} checks={} trunc={} {:.2}s", n, r.paths, r.returns, r.fails, r.weak, r.unknowns, r.steps, r.checks, r.truncated, dt);
        if debug { for u in &unks { eprintln!("    unknown: {}", u); } }
        out.push(format!("{{\"name\":{},\"paths\":{},\"returns\":{},\"steps\":{},\"checks\":{},\"truncated\":{},\"fails\":{},\"weak\":{},\"unknown\":{},\"unknown_total\":{},\"covered\":{},\"samples\":{},\"seconds\":{:.3},\"ends\":[{}]}}", js(&n), r.paths, r.returns, r.steps, r.checks, r.truncated, r.fails, r.weak, jl(&unks), r.unknowns, jl(&cov), jl(&r.samples), dt, r.ends.join(",")));
    }
    if let Ok(f) = std::env::var("PM2_OUT") { std::fs::write(f, format!("{{\"obligations\":[{}]}}", out.join(",\n"))).unwrap(); }
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let real = if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1) } else { "rustc".into() };
    let is_h = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "pm2_harness");
    if is_h && std::env::var_os("PM2_ANALYZE").is_some() {
        let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || { let _ = run!(&args, analyze); }).unwrap();
        h.join().unwrap();
    } else {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(real).args(&args[1..]).exec();
        panic!("exec: {e}");
    }
}
