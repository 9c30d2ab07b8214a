mod exec; mod expr; mod mem; mod sha; mod wasm; mod z3;
use std::time::{Duration, Instant};
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o + "\"" }
fn main() {
    // wsx MODULE.wasm HARNESS SECONDS THREADS [only=TAG,TAG] [SLOT=VALUE…]
    let a: Vec<String> = std::env::args().collect();
    let m = wasm::parse(&std::fs::read(&a[1]).expect("module"));
    if a.len() < 5 { let mut e: Vec<_> = m.exports.keys().collect(); e.sort(); for x in e { println!("{x}"); } return; }
    let t0 = Instant::now();
    let secs: f64 = a[3].parse().unwrap();
    let mut sh = match exec::Shared::new(m, &a[2], a[4].parse().unwrap(), t0 + Duration::from_secs_f64(secs), 400_000_000, 60_000) { Ok(s) => s, Err(e) => { println!("{{\"problems\":{{{}:1}}}}", js(&e)); return; } };
    for x in &a[5..] {
        if let Some(t) = x.strip_prefix("only=") { sh.only = t.split(',').map(|s| s.to_string()).collect(); }
        else if let Some((k, v)) = x.split_once('=') { sh.params.push((k.parse().expect("parameter"), v.parse().expect("parameter"))); }
    }
    let r = sh.run();
    let map = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let viol = r.violations.iter().map(|v| format!("{{\"id\":{},\"detail\":{},\"values\":{{{}}},\"draws\":[{}]}}", js(&v.id), js(&v.detail), v.values.iter().map(|(k, x)| format!("{}:\"{}\"", js(k), x)).collect::<Vec<_>>().join(","), v.draws.iter().map(|d| format!("\"{d}\"")).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
    let funcs: Vec<String> = r.funcs.iter().enumerate().filter(|(_, b)| **b).filter_map(|(i, _)| sh.m.names.get(&(i as u32))).map(|n| js(n)).collect();
    let mut fs: Vec<(u64, String)> = r.forksites.iter().map(|(f, n)| (*n, sh.m.names.get(f).cloned().unwrap_or_default())).collect();
    fs.sort(); fs.reverse(); fs.truncate(25);
    println!("{{\"harness\":{},\"paths\":{},\"forks\":{},\"infeasible\":{},\"traps\":{},\"steps\":{},\"max_steps\":{},\"max_depth\":{},\"checks\":{},\"checks_solved\":{},\"queries\":{},\"cache_hits\":{},\"core_hits\":{},\"model_hits\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"wall_s\":{:.3},\"problems\":{{{}}},\"covers\":{{{}}},\"trap_sites\":{{{}}},\"check_ids\":{{{}}},\"violations\":[{}],\"syms\":{{{}}},\"forksites\":[{}],\"samples\":[{}],\"funcs\":[{}]}}",
        js(&a[2]), r.paths, r.forks, r.infeasible, r.traps, r.steps, r.max_steps, r.max_depth, r.checks, r.checks_solved, r.queries, r.cache_hits, r.core_hits, r.model_hits, r.solver_s, r.solver_max, t0.elapsed().as_secs_f64(),
        map(&r.problems), map(&r.covers), map(&r.trap_sites), map(&r.check_ids), viol, r.syms.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","), fs.iter().map(|(n, s)| format!("[{n},{}]", js(s))).collect::<Vec<_>>().join(","), r.samples.iter().map(|(d, c)| format!("{{\"draws\":[{}],\"covers\":[{}]}}", d.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","), c.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","), funcs.join(","));
}
