mod exec;
mod fl;
mod ir;
mod mem;
mod prims;
mod solver;
mod stubs;
mod term;
use std::fmt::Write as _;

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o + "\"" }

fn main() {
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let c = child.join().unwrap_or(3);
    std::process::exit(c);
}
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let ll = &a[1];
    let entry = &a[2];
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let quick = get("--tier").map_or(true, |t| t != "thorough");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let shard = get("--shard").map(|s| { let p: Vec<u64> = s.split('/').map(|x| x.parse().unwrap()).collect(); (p[0], p[1]) }).unwrap_or((0, 1));
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(600.0);
    let text: &'static str = Box::leak(std::fs::read_to_string(ll).expect("ll").into_boxed_str());
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(text);
    let mut e = exec::Engine::new(m, quick, seed, shard, secs);
    if let Some(t) = get("--thin") { e.thin_budget = t.parse().unwrap(); }
    if let Some(t) = get("--maxviol") { e.max_viol = t.parse().unwrap(); }
    if let Some(t) = get("--traces") { e.traces = t.parse().unwrap(); }
    e.trace = a.iter().any(|x| x == "--trace");
    let load = t0.elapsed().as_secs_f64();
    let t1 = std::time::Instant::now();
    e.explore(entry);
    let wall = t1.elapsed().as_secs_f64();
    let s = &e.st;
    let mut o = String::new();
    let map = |m: &std::collections::BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "{{\"entry\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"paths\":{},\"returned\":{},\"panicked\":{},\"infeasible\":{},\"forks\":{},\"concretisations\":{},\"steps\":{},\"checks\":{},\"checks_bv_solver\":{},\"checks_real\":{},\"checks_real_normal_form\":{},\"equality_cases\":{},\"dropped\":{},\"max_inputs\":{},", js(entry), load, wall, s.paths, s.done, s.panics, s.infeasible, s.forks, s.conc, s.steps, s.checks, s.checks_solver, s.checks_real, s.checks_real_const, s.thin, s.dropped, s.max_inputs);
    let _ = write!(o, "\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"secs\":{:.2},\"errors\":{},\"slowest\":{:.2}}},\"nra\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"secs\":{:.2},\"errors\":{}}},", e.sol.queries, e.sol.sat, e.sol.unsat, e.sol.unknown, e.sol.secs, e.sol.errors, e.sol.slowest, e.rsol.queries, e.rsol.sat, e.rsol.unsat, e.rsol.unknown, e.rsol.secs, e.rsol.errors);
    let _ = write!(o, "\"confirmed\":{:?},\"confirm_secs\":{:.2},\"check_ids\":{},\"cuts\":{},\"undecided\":{},\"unsupported\":{},", e.confirmed, e.csecs, map(&s.check_ids), map(&s.cuts), map(&s.undecided), map(&s.unsup));
    let _ = write!(o, "\"functions\":[{}],\"lines\":{},\"samples\":[{}],", s.funcs.iter().map(|f| js(&exec::demangle(f))).collect::<Vec<_>>().join(","), s.lines.len(), s.samples.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"traces\":[{}],", s.traces.iter().map(|(r, p, g)| format!("{{\"replay\":{},\"panicked\":{},\"generic\":{}}}", js(r), p, g)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"probes\":[{}],", s.probes.iter().map(|(r, g)| format!("{{\"replay\":{},\"generic\":{}}}", js(r), g)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"violations\":[{}]}}", e.viols.iter().map(|v| format!("{{\"id\":{},\"at\":{},\"replay\":{}}}", js(&v.id), js(&v.detail), js(&v.replay))).collect::<Vec<_>>().join(","));
    println!("{}", o);
    0
}
