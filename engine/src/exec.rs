//! The symbolic executor: explores every feasible path of a harness export.
use crate::expr::*;
use crate::mem::*;
use crate::wasm::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { pub func: u32, pub pc: u32, pub base: u32 }
#[derive(Clone, Debug)]
pub enum Draw { Sym(u32), Choice(u64) }
#[derive(Clone)]
pub struct HashEnt { state: [V; 8], block: Vec<V>, out: [V; 8], conc: bool }
#[derive(Clone)]
pub struct State {
    stack: Vec<V>, frames: Vec<Frame>, mem: Lin, stable: Sparse, globals: Vec<V>,
    pc: Vec<E>, pcset: HashSet<u128>, model: Vec<u64>, symw: Vec<u8>, symname: Vec<Arc<str>>,
    draws: Vec<Draw>, hashes: Vec<HashEnt>, scratch: BTreeMap<u64, V>,
    trap_mode: u32, trap_id: Arc<str>, flags: u32, phase: u32, steps: u64, forks: u32, covers: Vec<Arc<str>>, forced: Option<u64>,
}
pub struct Violation { pub id: String, pub detail: String, pub values: Vec<(String, u64)>, pub draws: Vec<u64> }
#[derive(Default)]
pub struct Report {
    pub paths: u64, pub steps: u64, pub traps: u64, pub forks: u64, pub infeasible: u64, pub checks: u64, pub checks_solved: u64,
    pub queries: u64, pub cache_hits: u64, pub core_hits: u64, pub model_hits: u64, pub solver_s: f64, pub solver_max: f64, pub max_steps: u64,
    pub problems: BTreeMap<String, u64>, pub covers: BTreeMap<String, u64>, pub violations: Vec<Violation>, pub trap_sites: BTreeMap<String, u64>,
    pub funcs: Vec<bool>, pub check_ids: BTreeMap<String, u64>, pub forksites: HashMap<u32, u64>, pub max_depth: usize, pub syms: BTreeMap<String, u8>, pub samples: Vec<(Vec<u64>, Vec<String>)>,
}
pub struct Shared {
    pub m: Module, pub harness: String, queue: Mutex<Vec<State>>, cv: Condvar, hungry: AtomicUsize, active: AtomicUsize, nthreads: usize, stop: AtomicBool,
    cache: Vec<Mutex<HashMap<u128, Option<Vec<(u32, u64)>>>>>, vcount: Mutex<HashMap<String, u32>>, pub only: Vec<String>, pub params: Vec<(u64, u64)>, pub deadline: Instant, pub max_steps: u64, pub qtimeout: u32, pub total_forks: AtomicU64,
    spec: Vec<Spec>, near: Vec<Mutex<HashMap<u128, Near>>>,
}
#[derive(Clone, Default)]
struct Near { cores: Vec<Arc<Vec<u128>>>, models: Vec<Arc<Vec<(u32, u64)>>> }
#[derive(Clone, Copy, PartialEq)]
enum Spec { None, Memcmp, Memcpy, Memset, FmtWrite, FmtInt(u8), Redirect(u32), Host(u8) }

enum Step { Continue, End, Fork(State) }
type Rs = Result<Step, String>;

fn name_spec(n: &str) -> Spec {
    match n { "memcmp" | "bcmp" => Spec::Memcmp, "memcpy" | "memmove" => Spec::Memcpy, "memset" => Spec::Memset, _ => {
        if n.contains("4core3fmt3num") && n.contains("3fmt17h") {
            let t = n.split("3fmt17h").next().unwrap().trim_end_matches("$GT$").rsplit("$u20$").next().unwrap_or("");
            let w = match t { "u8" | "i8" => 1, "u16" | "i16" => 2, "u32" | "i32" | "usize" | "isize" => 4, "u64" | "i64" => 8, "u128" | "i128" => 16, _ => 0 };
            return if w > 0 { Spec::FmtInt(w) } else { Spec::None };
        }
        if n.contains("4core3fmt5write17h") || n == "core::fmt::write" || n.contains("core..fmt..write") { Spec::FmtWrite } else { Spec::None } } }
}
const HOSTS: &[&str] = &["sym", "ranged", "choose", "assume", "check", "cover", "trap_policy", "sha256_compress", "scratch_set", "scratch_get", "flag", "log", "done", "stable64_size", "stable64_grow", "stable64_read", "stable64_write", "concrete", "fixed"];

impl Shared {
    pub fn new(m: Module, harness: &str, nthreads: usize, deadline: Instant, max_steps: u64, qtimeout: u32) -> Result<Shared, String> {
        let mut spec = vec![];
        for im in &m.imports {
            let s = match (im.module.as_str(), im.name.as_str()) {
                ("verif", n) => Spec::Host(HOSTS.iter().position(|h| *h == n).ok_or(format!("unknown host verif.{n}"))? as u8),
                ("ic0", n) if n.starts_with("stable64_") => Spec::Host(HOSTS.iter().position(|h| *h == n).ok_or(format!("unknown {n}"))? as u8),
                ("ic0", n) => Spec::Redirect(*m.exports.get(&format!("ic0__{n}")).ok_or(format!("no shim for ic0.{n}"))?),
                (a, b) => return Err(format!("unknown import {a}.{b}")),
            };
            spec.push(s);
        }
        for i in 0..m.funcs.len() { let idx = (m.imports.len() + i) as u32; spec.push(m.names.get(&idx).map_or(Spec::None, |n| name_spec(n))); }
        Ok(Shared { m, harness: harness.to_string(), queue: Mutex::new(vec![]), cv: Condvar::new(), hungry: AtomicUsize::new(0), active: AtomicUsize::new(0), nthreads, only: vec![], params: vec![], stop: AtomicBool::new(false), cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(), vcount: Mutex::new(HashMap::new()), deadline, max_steps, qtimeout, total_forks: AtomicU64::new(0), spec, near: (0..64).map(|_| Mutex::new(HashMap::new())).collect() })
    }
    /// is this assertion one that was asked for?
    fn wanted(&self, id: &str) -> bool { let tag = id.split('/').next().unwrap_or(""); self.only.is_empty() || tag == "harness" || self.only.iter().any(|t| t == tag) }
    fn instance(&self) -> (Lin, Vec<V>) {
        let mut mem = Lin::new(self.m.mem_min as usize * 65536);
        for (o, d) in &self.m.data { for (i, b) in d.iter().enumerate() { if *b != 0 { mem.set(*o as u64 + i as u64, B::C(*b)); } } }
        (mem, self.m.globals.iter().map(|g| V::C(*g)).collect())
    }
    pub fn run(&self) -> Report {
        let f = match self.m.exports.get(&self.harness) { Some(f) => *f, None => { let mut r = Report::default(); r.problems.insert(format!("no export {}", self.harness), 1); return r; } };
        let (mem, globals) = self.instance();
        let mut st = State { stack: vec![], frames: vec![], mem, stable: Sparse::new(), globals, pc: vec![], pcset: HashSet::new(), model: vec![], symw: vec![], symname: vec![], draws: vec![], hashes: vec![], scratch: BTreeMap::new(), trap_mode: 1, trap_id: "harness/unexpected-trap".into(), flags: 1, phase: 1, steps: 0, forks: 0, covers: vec![], forced: None };
        for (k, v) in &self.params { st.scratch.insert(*k, V::C(*v)); }
        enter(self, &mut st, f);
        self.queue.lock().unwrap().push(st);
        let mut total = Report { funcs: vec![false; self.spec.len()], ..Default::default() };
        let reps: Vec<Report> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..self.nthreads).map(|_| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || Worker::new(self).work()).unwrap()).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in reps {
            total.paths += r.paths; total.steps += r.steps; total.traps += r.traps; total.forks += r.forks; total.infeasible += r.infeasible; total.checks += r.checks; total.checks_solved += r.checks_solved;
            total.queries += r.queries; total.cache_hits += r.cache_hits; total.core_hits += r.core_hits; total.model_hits += r.model_hits; total.solver_s += r.solver_s; total.solver_max = total.solver_max.max(r.solver_max); total.max_steps = total.max_steps.max(r.max_steps); total.max_depth = total.max_depth.max(r.max_depth);
            for (k, v) in r.problems { *total.problems.entry(k).or_default() += v; }
            for (k, v) in r.covers { *total.covers.entry(k).or_default() += v; }
            for (k, v) in r.trap_sites { *total.trap_sites.entry(k).or_default() += v; }
            for (k, v) in r.check_ids { *total.check_ids.entry(k).or_default() += v; }
            for (k, v) in r.forksites { *total.forksites.entry(k).or_default() += v; }
            for (k, v) in r.syms { total.syms.insert(k, v); }
            for (i, b) in r.funcs.iter().enumerate() { total.funcs[i] |= b; }
            total.violations.extend(r.violations);
            for x in r.samples { if total.samples.iter().filter(|y| y.1 == x.1).count() < 2 { total.samples.push(x); } }
        }
        if Instant::now() > self.deadline { *total.problems.entry("time limit".into()).or_default() += 1; }
        total
    }
}
fn enter(sh: &Shared, st: &mut State, f: u32) {
    let fun = &sh.m.funcs[f as usize - sh.m.imports.len()];
    let base = st.stack.len() as u32 - fun.nparams;
    for _ in fun.nparams..fun.nlocals { st.stack.push(V::C(0)); }
    st.frames.push(Frame { func: f, pc: 0, base });
}
pub struct Worker<'a> { sh: &'a Shared, z: Z3, rep: Report, local: Vec<State> }

fn add_pc(st: &mut State, c: &E) {
    // split conjunctions so that independent parts stay independent
    if let Kind::Bin(Op::And, a, b) = &c.k { if c.w == 1 { add_pc(st, a); add_pc(st, b); st.pcset.insert(c.h); return; } }
    if let Kind::Not(n) = &c.k { if let Kind::Bin(Op::Or, a, b) = &n.k {
        st.pcset.insert(c.h);
        for x in [a, b] { match not(V::S(x.clone())) { V::S(e) => add_pc(st, &e), V::C(_) => {} } }
        return;
    } }
    if st.pcset.insert(c.h) { st.pc.push(c.clone()); }
}
fn overlap(a: &Syms, b: &Syms) -> bool { a.iter().zip(b).any(|(x, y)| x & y != 0) }

impl<'a> Worker<'a> {
    fn new(sh: &'a Shared) -> Worker<'a> { Worker { sh, z: Z3::new(sh.qtimeout), rep: Report { funcs: vec![false; sh.spec.len()], ..Default::default() }, local: vec![] } }
    fn problem(&mut self, s: String) { *self.rep.problems.entry(s).or_default() += 1; }
    fn work(mut self) -> Report {
        let sh = self.sh;
        loop {
            let st = match self.local.pop() {
                Some(s) => s,
                None => {
                    let mut q = sh.queue.lock().unwrap();
                    sh.hungry.fetch_add(1, Ordering::SeqCst);
                    let got = loop {
                        if sh.stop.load(Ordering::SeqCst) { break None; }
                        if let Some(s) = q.pop() { sh.active.fetch_add(1, Ordering::SeqCst); break Some(s); }
                        if sh.active.load(Ordering::SeqCst) == 0 { sh.stop.store(true, Ordering::SeqCst); sh.cv.notify_all(); break None; }
                        q = sh.cv.wait_timeout(q, std::time::Duration::from_millis(20)).unwrap().0;
                    };
                    sh.hungry.fetch_sub(1, Ordering::SeqCst);
                    drop(q);
                    match got { Some(s) => s, None => break }
                }
            };
            self.run_path(st);
            if Instant::now() > sh.deadline { sh.stop.store(true, Ordering::SeqCst); break; }
            if self.local.is_empty() { let _q = sh.queue.lock().unwrap(); sh.active.fetch_sub(1, Ordering::SeqCst); sh.cv.notify_all(); }
        }
        self.rep.queries = self.z.queries; self.rep.solver_s = self.z.time; self.rep.solver_max = self.z.maxt;
        self.rep
    }
    fn push(&mut self, s: State) {
        self.rep.forks += 1;
        self.local.push(s);
        if self.sh.hungry.load(Ordering::Relaxed) > 0 && self.local.len() > 1 {
            let n = (self.local.len() / 2).max(1);
            let give: Vec<State> = self.local.drain(..n).collect();
            self.sh.queue.lock().unwrap().extend(give);
            self.sh.cv.notify_all();
        }
    }
    /// Is pc ∧ extra satisfiable? Returns a full model if so.
    fn sat(&mut self, st: &State, extra: &E) -> Result<Option<Vec<u64>>, String> {
        let mut syms = extra.syms;
        let mut used = vec![false; st.pc.len()];
        let mut cs: Vec<E> = vec![extra.clone()];
        loop {
            let mut grew = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !used[i] && overlap(&c.syms, &syms) { used[i] = true; grew = true; for k in 0..SYMW { syms[k] |= c.syms[k]; } cs.push(c.clone()); }
            }
            if !grew { break; }
        }
        let mut hs: Vec<u128> = cs.iter().map(|c| c.h).collect();
        hs.sort_unstable();
        hs.dedup();
        let mut key = 0u128;
        for h in hs { key = key.rotate_left(17).wrapping_mul(0x2545F4914F6CDD1D9E3779B97F4A7C15 | 1) ^ h; }
        let shard = (key >> 3) as usize % 64;
        let hit = self.sh.cache[shard].lock().unwrap().get(&key).cloned();
        let part = match hit {
            Some(r) => { self.rep.cache_hits += 1; r }
            None => {
                let es = (extra.h >> 5) as usize % 64;
                let near = self.sh.near[es].lock().unwrap().get(&extra.h).cloned().unwrap_or_default();
                let have: HashSet<u128> = cs.iter().map(|c| c.h).collect();
                let r = if near.cores.iter().any(|c| c.iter().all(|h| have.contains(h))) { self.rep.core_hits += 1; None } else {
                    let mut found = None;
                    for m in near.models.iter() {
                        let mut full = st.model.clone();
                        full.resize(st.symw.len(), 0);
                        for (s, v) in m.iter() { if let Some(x) = full.get_mut(*s as usize) { *x = *v; } }
                        let mut memo = HashMap::new();
                        if cs.iter().all(|c| eval(c, &full, &mut memo) == 1) { found = Some(full.iter().enumerate().filter(|(i, _)| syms[(*i / 64) % SYMW] >> (*i % 64) & 1 == 1).map(|(i, v)| (i as u32, *v)).collect::<Vec<_>>()); break; }
                    }
                    if found.is_some() { self.rep.model_hits += 1; found } else {
                        let list: Vec<(u32, u8)> = (0..st.symw.len() as u32).filter(|s| syms[(*s as usize / 64) % SYMW] >> (s % 64) & 1 == 1).map(|s| (s, st.symw[s as usize])).collect();
                        match self.z.check(&cs, &list) {
                            Res::Sat(m) => {
                                let mut full = vec![0; st.symw.len()];
                                for (s, v) in &m { full[*s as usize] = *v; }
                                let mut memo = HashMap::new();
                                for c in &cs { if eval(c, &full, &mut memo) != 1 { return Err("solver model does not satisfy the query (engine bug)".into()); } }
                                let mut near = self.sh.near[es].lock().unwrap();
                                let n = near.entry(extra.h).or_default();
                                if n.models.len() < 12 { n.models.push(Arc::new(m.clone())); }
                                Some(m)
                            }
                            Res::Unsat(core) => {
                                let mut core = core;
                                if core.is_empty() { core = (0..cs.len()).collect(); }
                                // drop what the contradiction does not need: the core then decides many later paths
                                let mut i = 0;
                                while i < core.len() && core.len() > 1 && std::env::var("WSX_MIN").is_ok() {
                                    if core[i] == 0 { i += 1; continue; }
                                    let mut c2 = core.clone();
                                    c2.remove(i);
                                    let sub: Vec<E> = c2.iter().map(|k| cs[*k].clone()).collect();
                                    match self.z.check(&sub, &[]) { Res::Unsat(k) => { let k: Vec<usize> = if k.is_empty() { c2 } else { k.iter().map(|j| c2[*j]).collect() }; i = k.iter().position(|x| !core[..i].contains(x) && *x != 0).unwrap_or(k.len()).max(k.iter().filter(|x| core[..i].contains(x)).count()); core = k; } _ => i += 1 }
                                }
                                if core.len() < cs.len() {
                                    let mut near = self.sh.near[es].lock().unwrap();
                                    let n = near.entry(extra.h).or_default();
                                    if n.cores.len() < 24 { n.cores.push(Arc::new(core.iter().map(|i| cs[*i].h).collect())); }
                                }
                                None
                            }
                            Res::Unknown => return Err("solver gave no answer".into()),
                        }
                    }
                };
                self.sh.cache[shard].lock().unwrap().insert(key, r.clone());
                r
            }
        };
        Ok(part.map(|p| { let mut m = st.model.clone(); m.resize(st.symw.len(), 0); for (s, v) in p { m[s as usize] = v; } m }))
    }
    /// Decide a boolean; forks when both sides are feasible (the clone re-executes the current instruction).
    fn decide(&mut self, st: &mut State, c: &V) -> Result<(bool, Option<State>), String> {
        let e = match c { V::C(x) => return Ok((*x == 1, None)), V::S(e) => e.clone() };
        if st.pcset.contains(&e.h) { return Ok((true, None)); }
        let n = match not(V::S(e.clone())) { V::S(n) => n, V::C(_) => unreachable!() };
        if st.pcset.contains(&n.h) { return Ok((false, None)); }
        let mut memo = HashMap::new();
        let side = eval(&e, &st.model, &mut memo) == 1;
        let (mine, other) = if side { (e, n) } else { (n, e) };
        match self.sat(st, &other)? {
            None => { st.pcset.insert(mine.h); Ok((side, None)) }
            Some(m) => {
                let mut o = st.clone();
                add_pc(&mut o, &other);
                o.model = m;
                add_pc(st, &mine);
                st.forks += 1; o.forks += 1;
                self.rep.max_depth = self.rep.max_depth.max(st.forks as usize);
                if let Some(f) = st.frames.last() { *self.rep.forksites.entry(f.func).or_default() += 1; }
                Ok((side, Some(o)))
            }
        }
    }
    /// Concretise a value by case split.
    fn concrete(&mut self, st: &mut State, v: &V, w: u8) -> Result<(u64, Option<State>), String> {
        let e = match v { V::C(x) => return Ok((*x, None)), V::S(e) => e.clone() };
        let mut memo = HashMap::new();
        let val = eval(&e, &st.model, &mut memo);
        let (b, o) = self.decide(st, &bin(Op::Eq, w, v, &V::C(val)))?;
        debug_assert!(b);
        Ok((val, o))
    }
    fn violation(&mut self, st: &State, id: &str, detail: String, model: &[u64]) {
        let mut vc = self.sh.vcount.lock().unwrap();
        let n = vc.entry(id.to_string()).or_default();
        *n += 1;
        if *n > 3 { return; }
        if vc.values().map(|v| (*v).min(3)).sum::<u32>() >= 9 { self.sh.stop.store(true, Ordering::SeqCst); self.rep.problems.insert("stopped after many violations".into(), 1); }
        drop(vc);
        let values = st.symname.iter().enumerate().map(|(i, n)| (n.to_string(), model.get(i).copied().unwrap_or(0) & mask(st.symw[i]))).collect();
        let draws = Self::draws(st, model);
        self.rep.violations.push(Violation { id: id.to_string(), detail, values, draws });
    }
    fn draws(st: &State, model: &[u64]) -> Vec<u64> { st.draws.iter().map(|d| match d { Draw::Sym(i) => model.get(*i as usize).copied().unwrap_or(0) & mask(st.symw[*i as usize]), Draw::Choice(c) => *c }).collect() }
    /// keep a few concrete representatives of completed paths, to be run for real afterwards
    fn sample(&mut self, st: &State) {
        let cov: Vec<String> = st.covers.iter().map(|c| c.to_string()).collect();
        if self.rep.samples.iter().filter(|s| s.1 == cov).count() < 2 { let d = Self::draws(st, &st.model); self.rep.samples.push((d, cov)); }
    }
    fn fname(&self, f: u32) -> String { self.sh.m.names.get(&f).cloned().unwrap_or(format!("#{f}")) }
    fn backtrace(&self, st: &State) -> String {
        st.frames.iter().rev().take(14).map(|f| self.fname(f.func)).collect::<Vec<_>>().join(" < ")
    }
    fn run_path(&mut self, mut st: State) {
        let s0 = st.steps;
        loop {
            match self.exec(&mut st) {
                Ok(Step::Fork(o)) => { self.push(o); }
                Ok(Step::Continue) => {
                    if Instant::now() > self.sh.deadline { self.sh.stop.store(true, Ordering::SeqCst); break; }
                    if self.sh.stop.load(Ordering::SeqCst) { break; }
                }
                Ok(Step::End) => {
                    self.rep.paths += 1;
                    self.sample(&st);
                    for c in &st.covers { *self.rep.covers.entry(c.to_string()).or_default() += 1; }
                    for (i, n) in st.symname.iter().enumerate() { if !self.rep.syms.contains_key(&**n) { self.rep.syms.insert(n.to_string(), st.symw[i]); } }
                    break;
                }
                Err(e) if e == "infeasible" => { self.rep.infeasible += 1; break; }
                Err(e) if e.starts_with("trap") => {
                    self.rep.traps += 1;
                    let bt = self.backtrace(&st);
                    if std::env::var("WSX_TRACE").is_ok() { eprintln!("{e}: {bt}"); }
                    *self.rep.trap_sites.entry(format!("{} in {}", e, st.frames.iter().rev().map(|f| self.fname(f.func)).find(|n| !n.contains("panic") && !n.contains("rust_") && !n.contains("__rust") && !n.contains("ic0") && !n.contains("unwrap_failed")).unwrap_or_default())).or_default() += 1;
                    if st.trap_mode == 1 && self.sh.wanted(&st.trap_id) { let m = st.model.clone(); let id = st.trap_id.clone(); self.violation(&st, &id, format!("{e}: {bt}"), &m); }
                    else { self.rep.paths += 1; self.sample(&st); for c in &st.covers { *self.rep.covers.entry(c.to_string()).or_default() += 1; } }
                    break;
                }
                Err(e) => { let bt = self.backtrace(&st); self.problem(format!("{e} at {bt}")); break; }
            }
        }
        self.rep.steps += st.steps - s0;
        self.rep.max_steps = self.rep.max_steps.max(st.steps);
    }
    fn cstr(&self, st: &State, p: &V, n: &V) -> Arc<str> {
        match (p, n) { (V::C(p), V::C(n)) => String::from_utf8_lossy(&st.mem.read(*p, *n).unwrap_or_default().iter().map(|b| if let B::C(c) = b { *c } else { b'?' }).collect::<Vec<_>>()).into_owned().into(), _ => "?".into() }
    }
    fn sha(&mut self, st: &mut State, sp: u64, bp: u64, n: u64) -> Result<(), String> {
        for k in 0..n {
            let mut state: [V; 8] = std::array::from_fn(|_| V::C(0));
            for (i, s) in state.iter_mut().enumerate() { *s = st.mem.load(sp + 4 * i as u64, 4).ok_or("trap: sha oob")?; }
            let mut block = vec![];
            for i in 0..8 { block.push(st.mem.load(bp + 64 * k + 8 * i, 8).ok_or("trap: sha oob")?); }
            let isc = |v: &V| matches!(v, V::C(_));
            let conc = state.iter().all(isc) && block.iter().all(isc);
            let anysym = st.hashes.iter().any(|h| !h.conc);
            let mut out: [V; 8] = if conc {
                let mut s = [0u32; 8];
                for i in 0..8 { if let V::C(c) = &state[i] { s[i] = *c as u32; } }
                let mut b = [0u8; 64];
                for i in 0..8 { if let V::C(c) = &block[i] { b[8 * i..8 * i + 8].copy_from_slice(&c.to_le_bytes()); } }
                crate::sha::compress(&mut s, &b);
                std::array::from_fn(|i| V::C(s[i] as u64))
            } else {
                // a fresh digest, unlike any other
                let mut s = crate::sha::IV;
                let mut b = [0u8; 64];
                b[..8].copy_from_slice(&(st.hashes.len() as u64 + 1).to_le_bytes());
                b[8..16].copy_from_slice(b"fresh!!!");
                crate::sha::compress(&mut s, &b);
                std::array::from_fn(|i| V::C(s[i] as u64))
            };
            if !conc || anysym {
                let ents = st.hashes.clone();
                for h in ents.iter() {
                    if h.conc && conc { continue; }
                    let mut eq = V::C(1);
                    for i in 0..8 { eq = bin(Op::And, 1, &eq, &bin(Op::Eq, 64, &h.block[i], &block[i])); if let V::C(0) = eq { break; } }
                    if let V::C(0) = eq { continue; }
                    for i in 0..8 { eq = bin(Op::And, 1, &eq, &bin(Op::Eq, 32, &h.state[i], &state[i])); if let V::C(0) = eq { break; } }
                    match &eq { V::C(0) => continue, V::C(_) => { out = h.out.clone(); break; } V::S(e) => {
                        if st.pcset.contains(&e.h) { out = h.out.clone(); break; }
                        if self.sat(st, e)?.is_none() { continue; }
                    } }
                    // earliest equal entry wins: build inside-out, so apply later ones first
                    let o2: [V; 8] = std::array::from_fn(|i| ite(32, &eq, &h.out[i], &out[i]));
                    out = o2;
                }
            }
            st.hashes.push(HashEnt { state, block, out: out.clone(), conc });
            for (i, o) in out.iter().enumerate() { st.mem.store(sp + 4 * i as u64, 4, o); }
        }
        Ok(())
    }
    fn memcmp(&mut self, st: &State, a: u64, b: u64, n: u64) -> Result<V, String> {
        let x = st.mem.read(a, n).ok_or("trap: memcmp oob")?;
        let y = st.mem.read(b, n).ok_or("trap: memcmp oob")?;
        if x.iter().chain(&y).all(|b| matches!(b, B::C(_))) {
            for i in 0..n as usize { if let (B::C(p), B::C(q)) = (&x[i], &y[i]) { if p != q { return Ok(V::C((*p as i32 - *q as i32) as u32 as u64)); } } }
            return Ok(V::C(0));
        }
        let mut r = V::C(0);
        let mut end = n as usize;
        // chunks from the end
        let mut bounds = vec![];
        let mut s = 0;
        while s < end { let e = (s + 8).min(end); bounds.push((s, e)); s = e; }
        for (s, e) in bounds.into_iter().rev() {
            end = e;
            let w = ((end - s) * 8) as u8;
            let (p, q) = (join(&x[s..end]), join(&y[s..end]));
            let eq = bin(Op::Eq, w, &p, &q);
            if let V::C(1) = eq { continue; }
            let (mut xr, mut yr) = (x[s..end].to_vec(), y[s..end].to_vec());
            xr.reverse(); yr.reverse();
            let lt = bin(Op::Ult, w, &join(&xr), &join(&yr));
            let ne = ite(32, &lt, &V::C(0xffff_ffff), &V::C(1));
            r = ite(32, &eq, &r, &ne);
        }
        Ok(r)
    }
    fn host(&mut self, st: &mut State, h: u8, ty: usize) -> Rs {
        let np = self.sh.m.types[ty].params.len();
        let sp = st.stack.len() - np;
        macro_rules! arg { ($i:expr) => { st.stack[sp + $i].clone() } }
        macro_rules! conc { ($i:expr, $w:expr) => {{ let v = arg!($i); let (x, o) = self.concrete(st, &v, $w)?; if let Some(o) = o { return Ok(Step::Fork(o)); } x }} }
        let mut ret: Option<V> = None;
        match HOSTS[h as usize] {
            "sym" => {
                let name = self.cstr(st, &arg!(0), &arg!(1));
                let w = conc!(2, 32) as u8;
                let idx = st.symw.len() as u32;
                if idx as usize >= SYMW * 64 { return Err("too many symbols".into()); }
                st.symw.push(w); st.symname.push(format!("{}#{}", name, idx).into()); st.model.push(0);
                st.draws.push(Draw::Sym(idx));
                ret = Some(zext(64, &symbol(idx, w), w));
            }
            "ranged" => {
                let name = self.cstr(st, &arg!(0), &arg!(1));
                let w = conc!(2, 32) as u8;
                let (lo, hi) = (conc!(3, 64), conc!(4, 64));
                let idx = st.symw.len() as u32;
                if idx as usize >= SYMW * 64 { return Err("too many symbols".into()); }
                st.symw.push(w); st.symname.push(format!("{}#{}", name, idx).into()); st.model.push(lo);
                st.draws.push(Draw::Sym(idx));
                let e = symbol_in(idx, w, lo, hi);
                for c in in_range(&e) { if let V::S(c) = c { add_pc(st, &c); } }
                ret = Some(zext(64, &V::S(e), w));
            }
            "choose" => {
                let n = conc!(0, 32);
                if let Some(c) = st.forced.take() {
                    ret = Some(V::C(c));
                    st.draws.push(Draw::Choice(c));
                    if c + 1 < n { let mut o = st.clone(); o.draws.pop(); o.forced = Some(c + 1); st.frames.last_mut().unwrap().pc += 1; st.stack.truncate(sp); st.stack.push(V::C(c)); return Ok(Step::Fork(o)); }
                } else {
                    let mut o = st.clone();
                    st.draws.push(Draw::Choice(0));
                    ret = Some(V::C(0));
                    if n > 1 { o.forced = Some(1); st.frames.last_mut().unwrap().pc += 1; st.stack.truncate(sp); st.stack.push(V::C(0)); return Ok(Step::Fork(o)); }
                }
            }
            "assume" => {
                let c = not(bin(Op::Eq, 32, &arg!(0), &V::C(0)));
                match &c {
                    V::C(0) => return Err("infeasible".into()),
                    V::C(_) => {}
                    V::S(e) => {
                        let mut memo = HashMap::new();
                        if eval(e, &st.model, &mut memo) == 1 { add_pc(st, e); }
                        else { match self.sat(st, e)? { None => return Err("infeasible".into()), Some(m) => { add_pc(st, e); st.model = m; } } }
                    }
                }
            }
            "check" => {
                let id = self.cstr(st, &arg!(1), &arg!(2));
                if !self.sh.wanted(&id) { st.stack.truncate(sp); st.frames.last_mut().unwrap().pc += 1; return Ok(Step::Continue); }
                self.rep.checks += 1;
                *self.rep.check_ids.entry(id.to_string()).or_default() += 1;
                let c = not(bin(Op::Eq, 32, &arg!(0), &V::C(0)));
                match &c {
                    V::C(1) => {}
                    V::C(_) => { let m = st.model.clone(); self.violation(st, &id, "assertion is false on this path".into(), &m); return Err("infeasible".into()); }
                    V::S(e) => if !st.pcset.contains(&e.h) {
                        self.rep.checks_solved += 1;
                        let n = match not(c.clone()) { V::S(n) => n, _ => unreachable!() };
                        if let Some(m) = self.sat(st, &n).map_err(|e| format!("{e} on {id}"))? {
                            self.violation(st, &id, "assertion can be false".into(), &m);
                            match self.sat(st, e)? { None => return Err("infeasible".into()), Some(m) => { add_pc(st, e); st.model = m; } }
                        }
                    }
                }
            }
            "cover" => { let id = self.cstr(st, &arg!(0), &arg!(1)); if !st.covers.contains(&id) { st.covers.push(id); } }
            "log" => { let id = self.cstr(st, &arg!(0), &arg!(1)); if std::env::var("WSX_TRACE").is_ok() { eprintln!("log: {id} {:?} steps {}", arg!(2), st.steps); } }
            "trap_policy" => { st.trap_mode = conc!(0, 32) as u32; st.trap_id = self.cstr(st, &arg!(1), &arg!(2)); }
            "sha256_compress" => { let (a, b, n) = (conc!(0, 32), conc!(1, 32), conc!(2, 32)); self.sha(st, a, b, n)?; }
            "scratch_set" => { let k = conc!(0, 32); let v = arg!(1); st.scratch.insert(k, v); }
            "scratch_get" => { let k = conc!(0, 32); ret = Some(st.scratch.get(&k).cloned().unwrap_or(V::C(0))); }
            "flag" => { let (k, v) = (conc!(0, 32), conc!(1, 32)); if v == 1 { st.flags |= k as u32 } else { st.flags &= !(k as u32) } }
            "concrete" => { let v = conc!(0, 64); ret = Some(V::C(v)); }
            "fixed" => { ret = Some(V::C(matches!(arg!(0), V::C(_)) as u64)); }
            "done" => { return Ok(Step::End); }
            "stable64_size" => ret = Some(V::C(st.stable.size)),
            "stable64_grow" => { let n = conc!(0, 64); let o = st.stable.size; st.stable.size += n; ret = Some(V::C(o)); }
            "stable64_read" => { let (d, o, n) = (conc!(0, 64), conc!(1, 64), conc!(2, 64)); let State { stable, mem, .. } = st; if !stable.to_lin(o, mem, d, n) { return Err("trap: stable read out of bounds".into()); } }
            "stable64_write" => { let (o, s, n) = (conc!(0, 64), conc!(1, 64), conc!(2, 64)); let State { stable, mem, .. } = st; if !stable.from_lin(o, mem, s, n) { return Err("trap: stable write out of bounds".into()); } }
            x => return Err(format!("host {x}")),
        }
        st.stack.truncate(sp);
        if let Some(r) = ret { st.stack.push(r); }
        st.frames.last_mut().unwrap().pc += 1;
        Ok(Step::Continue)
    }
    fn finish(&mut self, st: &mut State) -> Rs {
        st.phase += 1;
        match self.sh.m.exports.get(&format!("{}__{}", self.sh.harness, st.phase)) {
            Some(f) => { let (m, g) = self.sh.instance(); st.mem = m; st.globals = g; st.stack.clear(); st.frames.clear(); enter(self.sh, st, *f); Ok(Step::Continue) }
            None => Ok(Step::End),
        }
    }
    fn exec(&mut self, st: &mut State) -> Rs {
        let sh = self.sh;
        let nimp = sh.m.imports.len();
        let mut fr = st.frames.last().unwrap().clone();
        let mut fun = &sh.m.funcs[fr.func as usize - nimp];
        let mut budget = 2_000_000u32;
        self.rep.funcs[fr.func as usize] = true;
        macro_rules! sync { () => {{ let n = st.frames.len() - 1; st.frames[n].pc = fr.pc; }} }
        macro_rules! forkret { ($o:expr) => { if let Some(o) = $o { return Ok(Step::Fork(o)); } } }
        macro_rules! pop { () => { st.stack.pop().unwrap() } }
        macro_rules! branch { ($t:expr) => {{
            let t: Target = $t;
            let want = (fr.base + fun.nlocals + t.height) as usize;
            let top = st.stack.len();
            let ar = t.arity as usize;
            if top - ar != want { for i in 0..ar { st.stack.swap(want + i, top - ar + i); } st.stack.truncate(want + ar); }
            fr.pc = t.pc;
        }} }
        loop {
            budget -= 1;
            st.steps += 1;
            if budget == 0 {
                sync!();
                if st.steps > sh.max_steps { return Err("step limit".into()); }
                return Ok(Step::Continue);
            }
            let ins = fun.code[fr.pc as usize];
            match ins {
                I::LocalGet(i) => { let v = st.stack[(fr.base + i) as usize].clone(); st.stack.push(v); }
                I::LocalSet(i) => { let v = pop!(); st.stack[(fr.base + i) as usize] = v; }
                I::LocalTee(i) => { let v = st.stack.last().unwrap().clone(); st.stack[(fr.base + i) as usize] = v; }
                I::GlobalGet(i) => { let v = st.globals[i as usize].clone(); st.stack.push(v); }
                I::GlobalSet(i) => { let v = pop!(); st.globals[i as usize] = v; }
                I::Const(c) => st.stack.push(V::C(c)),
                I::Drop => { pop!(); }
                I::Arith(op, w) => {
                    let n = st.stack.len();
                    if let (V::C(a), V::C(b)) = (&st.stack[n - 2], &st.stack[n - 1]) {
                        let (a, b) = (*a, *b);
                        let r = match arith(op, w, a, b) { Ok(r) => r, Err(e) => { sync!(); return Err(e); } };
                        st.stack.pop();
                        st.stack[n - 2] = V::C(r);
                    } else {
                        sync!();
                        let (a, b) = (st.stack[n - 2].clone(), st.stack[n - 1].clone());
                        if (3..=6).contains(&op) {
                            let z = bin(Op::Eq, w, &b, &V::C(0));
                            let (t, o) = self.decide(st, &z)?;
                            forkret!(o);
                            if t { return Err("trap: division by zero".into()); }
                            if op == 3 {
                                let ov = bin(Op::And, 1, &bin(Op::Eq, w, &b, &V::C(mask(w))), &bin(Op::Eq, w, &a, &V::C(1 << (w - 1))));
                                let (t, o) = self.decide(st, &ov)?;
                                forkret!(o);
                                if t { return Err("trap: division overflow".into()); }
                            }
                        }
                        let r = sym_arith(op, w, &a, &b);
                        st.stack.pop();
                        st.stack[n - 2] = r;
                    }
                }
                I::Cmp(op, w) => {
                    let n = st.stack.len();
                    let r = if let (V::C(a), V::C(b)) = (&st.stack[n - 2], &st.stack[n - 1]) {
                        let (a, b) = (*a, *b);
                        let (sa, sb) = (sext_c(w, a), sext_c(w, b));
                        V::C(match op { 0 => a == b, 1 => a != b, 2 => sa < sb, 3 => a < b, 4 => sa > sb, 5 => a > b, 6 => sa <= sb, 7 => a <= b, 8 => sa >= sb, _ => a >= b } as u64)
                    } else {
                        let (a, b) = (&st.stack[n - 2], &st.stack[n - 1]);
                        let c = match op { 0 => bin(Op::Eq, w, a, b), 1 => not(bin(Op::Eq, w, a, b)), 2 => bin(Op::Slt, w, a, b), 3 => bin(Op::Ult, w, a, b), 4 => bin(Op::Slt, w, b, a), 5 => bin(Op::Ult, w, b, a), 6 => bin(Op::Sle, w, a, b), 7 => bin(Op::Ule, w, a, b), 8 => bin(Op::Sle, w, b, a), _ => bin(Op::Ule, w, b, a) };
                        zext(32, &c, 1)
                    };
                    st.stack.pop();
                    st.stack[n - 2] = r;
                }
                I::Eqz(w) => { let a = pop!(); st.stack.push(match a { V::C(x) => V::C((x == 0) as u64), _ => zext(32, &bin(Op::Eq, w, &a, &V::C(0)), 1) }); }
                I::Load { off, n, w, sx } => {
                    let a = st.stack.last().unwrap().clone();
                    let addr = match a { V::C(x) => x, _ => {
                        sync!();
                        let (x, o) = self.concrete(st, &a, 32)?;
                        forkret!(o);
                        x
                    } };
                    let v = match st.mem.load(addr + off as u64, n as usize) { Some(v) => v, None => { sync!(); return Err("trap: memory access out of bounds".into()); } };
                    let v = if n * 8 < w { if sx { sext(w, &v, n * 8) } else { zext(w, &v, n * 8) } } else { v };
                    *st.stack.last_mut().unwrap() = v;
                }
                I::Store { off, n } => {
                    let l = st.stack.len();
                    let a = st.stack[l - 2].clone();
                    let addr = match a { V::C(x) => x, _ => {
                        sync!();
                        let (x, o) = self.concrete(st, &a, 32)?;
                        forkret!(o);
                        x
                    } };
                    let mut v = st.stack.pop().unwrap();
                    st.stack.pop();
                    if let V::S(e) = &v { if e.w > n * 8 { v = extract(&v, 0, n * 8); } }
                    if !st.mem.store(addr + off as u64, n as usize, &v) { sync!(); return Err("trap: memory access out of bounds".into()); }
                }
                I::Br(t) => { branch!(t); continue; }
                I::BrIf(t) => {
                    let c = st.stack.last().unwrap();
                    let take = match c { V::C(x) => *x as u32 != 0, _ => {
                        sync!();
                        let c = not(bin(Op::Eq, 32, c, &V::C(0)));
                        let (t, o) = self.decide(st, &c)?;
                        if let Some(o) = o { self.push(o); }
                        t
                    } };
                    st.stack.pop();
                    if take { branch!(t); continue; }
                }
                I::BrUnless(pc) => {
                    let c = st.stack.last().unwrap();
                    let t = match c { V::C(x) => *x as u32 != 0, _ => {
                        sync!();
                        let c = not(bin(Op::Eq, 32, c, &V::C(0)));
                        let (t, o) = self.decide(st, &c)?;
                        if let Some(o) = o { self.push(o); }
                        t
                    } };
                    st.stack.pop();
                    if !t { fr.pc = pc; continue; }
                }
                I::BrTable(ti) => {
                    let tb = &sh.m.br_tables[ti as usize];
                    let v = st.stack.last().unwrap().clone();
                    let i = match v { V::C(x) => x, V::S(_) => {
                        sync!();
                        // first split off the default
                        let big = bin(Op::Ule, 32, &V::C(tb.len() as u64 - 1), &v);
                        let (t, o) = self.decide(st, &big)?;
                        forkret!(o);
                        if t { tb.len() as u64 } else { let (x, o) = self.concrete(st, &v, 32)?; forkret!(o); x }
                    } };
                    st.stack.pop();
                    let t = tb[(i as usize).min(tb.len() - 1)];
                    branch!(t);
                    continue;
                }
                I::Select(sw) => {
                    let n = st.stack.len();
                    let r = match &st.stack[n - 1] { V::C(x) => if *x as u32 != 0 { st.stack[n - 3].clone() } else { st.stack[n - 2].clone() }, c => {
                        let c = not(bin(Op::Eq, 32, c, &V::C(0)));
                        let w = sw;
                        ite(w, &c, &st.stack[n - 3], &st.stack[n - 2])
                    } };
                    st.stack.truncate(n - 2);
                    st.stack[n - 3] = r;
                }
                I::Call(f) => {
                    match sh.spec[f as usize] {
                        Spec::None => {
                            fr.pc += 1; sync!();
                            if st.frames.len() > 2000 { return Err("trap: stack overflow".into()); }
                            enter(sh, st, f);
                            fr = st.frames.last().unwrap().clone(); fun = &sh.m.funcs[fr.func as usize - nimp];
                            self.rep.funcs[f as usize] = true;
                            continue;
                        }
                        _ => {
                            sync!();
                            match self.special(st, f)? { Step::Continue => {} x => return Ok(x) }
                            fr = st.frames.last().unwrap().clone(); fun = &sh.m.funcs[fr.func as usize - nimp];
                            continue;
                        }
                    }
                }
                I::CallIndirect(t) => {
                    sync!();
                    let v = st.stack.last().unwrap().clone();
                    let (i, o) = self.concrete(st, &v, 32)?;
                    forkret!(o);
                    let f = *sh.m.tables[0].get(i as usize).unwrap_or(&u64::MAX);
                    if f == u64::MAX { return Err("trap: indirect call of null".into()); }
                    let f = f as u32;
                    if sh.m.types[sh.m.ftypes[f as usize]] != sh.m.types[t as usize] { return Err("trap: indirect call type mismatch".into()); }
                    st.stack.pop();
                    match sh.spec[f as usize] {
                        Spec::None => { fr.pc += 1; sync!(); if st.frames.len() > 2000 { return Err("trap: stack overflow".into()); } enter(sh, st, f); self.rep.funcs[f as usize] = true; }
                        _ => match self.special(st, f)? { Step::Continue => {} x => { return Ok(x) } },
                    }
                    fr = st.frames.last().unwrap().clone(); fun = &sh.m.funcs[fr.func as usize - nimp];
                    continue;
                }
                I::Return => {
                    let nr = fun.nres as usize;
                    let top = st.stack.len();
                    let b = fr.base as usize;
                    for i in 0..nr { st.stack.swap(b + i, top - nr + i); }
                    st.stack.truncate(b + nr);
                    st.frames.pop();
                    match st.frames.last() {
                        None => { match self.finish(st)? { Step::Continue => {} x => return Ok(x) } }
                        Some(_) => {}
                    }
                    fr = st.frames.last().unwrap().clone(); fun = &sh.m.funcs[fr.func as usize - nimp];
                    continue;
                }
                I::Unreachable => { sync!(); return Err("trap: unreachable".into()); }
                I::MemSize => st.stack.push(V::C(st.mem.len() / 65536)),
                I::MemGrow => { sync!(); let v = st.stack.last().unwrap().clone(); let (n, o) = self.concrete(st, &v, 32)?; forkret!(o);
                    let old = st.mem.len() / 65536;
                    let r = if old + n > 8192 { 0xffff_ffff } else { let z = zero_page(); let l = st.mem.pages.len() + n as usize * 16; st.mem.pages.resize(l, z); old };
                    *st.stack.last_mut().unwrap() = V::C(r); }
                I::MemCopy | I::MemFill => {
                    sync!();
                    let l = st.stack.len();
                    let (n, o) = { let v = st.stack[l - 1].clone(); self.concrete(st, &v, 32)? }; forkret!(o);
                    let (d, o) = { let v = st.stack[l - 3].clone(); self.concrete(st, &v, 32)? }; forkret!(o);
                    let ok = if let I::MemCopy = ins { let (s, o) = { let v = st.stack[l - 2].clone(); self.concrete(st, &v, 32)? }; forkret!(o); st.mem.copy(d, s, n) }
                        else { let b = split(&st.stack[l - 2].clone(), 1).remove(0); st.mem.fill(d, b, n) };
                    if !ok { return Err("trap: memory access out of bounds".into()); }
                    st.stack.truncate(l - 3);
                }
                I::Wrap => { let a = pop!(); st.stack.push(match a { V::C(x) => V::C(x & 0xffff_ffff), v => extract(&v, 0, 32) }); }
                I::ExtU => { let a = pop!(); st.stack.push(match a { V::C(x) => V::C(x), v => zext(64, &v, 32) }); }
                I::ExtS => { let a = pop!(); st.stack.push(match a { V::C(x) => V::C(x as u32 as i32 as i64 as u64), v => sext(64, &v, 32) }); }
                I::SxN(k, w) => { let a = pop!(); let x = extract(&a, 0, k); st.stack.push(sext(w, &x, k)); }
                I::Cnt(op, w) => { let a = pop!(); st.stack.push(cnt(op, w, &a)); }
                I::Float(op) => { sync!(); float(st, op)?; }
                I::FloatTrunc(k) => { sync!(); float(st, 0x80 | k)?; }
            }
            fr.pc += 1;
        }
    }
    fn special(&mut self, st: &mut State, f: u32) -> Rs {
        let sh = self.sh;
        let ty = sh.m.ftypes[f as usize];
        match sh.spec[f as usize] {
            Spec::Host(h) => self.host(st, h, ty),
            Spec::Redirect(g) => { st.frames.last_mut().unwrap().pc += 1; enter(sh, st, g); self.rep.funcs[g as usize] = true; Ok(Step::Continue) }
            Spec::FmtWrite if st.flags & 1 == 1 => { let n = sh.m.types[ty].params.len(); let l = st.stack.len() - n; st.stack.truncate(l); st.stack.push(V::C(0)); st.frames.last_mut().unwrap().pc += 1; Ok(Step::Continue) }
            // formatting a number that is not known: prints nothing
            Spec::FmtInt(w) if { let l = st.stack.len(); match st.stack[l - 2] { V::C(a) => (0..w as u64).any(|i| !(a + i < st.mem.len() && matches!(st.mem.get(a + i), B::C(_)))), _ => false } } => {
                let l = st.stack.len(); st.stack.truncate(l - 2); st.stack.push(V::C(0)); st.frames.last_mut().unwrap().pc += 1; Ok(Step::Continue)
            }
            Spec::Memcmp | Spec::Memcpy | Spec::Memset => {
                let l = st.stack.len();
                let v: Vec<V> = st.stack[l - 3..].to_vec();
                let (n, o) = self.concrete(st, &v[2], 32)?;
                if let Some(o) = o { return Ok(Step::Fork(o)); }
                let (a, o) = self.concrete(st, &v[0], 32)?;
                if let Some(o) = o { return Ok(Step::Fork(o)); }
                let r = if let Spec::Memset = sh.spec[f as usize] {
                    let b = split(&v[1], 1).remove(0);
                    if !st.mem.fill(a, b, n) { return Err("trap: oob".into()); }
                    V::C(a)
                } else {
                    let (b, o) = self.concrete(st, &v[1], 32)?;
                    if let Some(o) = o { return Ok(Step::Fork(o)); }
                    if let Spec::Memcmp = sh.spec[f as usize] { self.memcmp(st, a, b, n)? } else { if !st.mem.copy(a, b, n) { return Err("trap: oob".into()); } V::C(a) }
                };
                st.stack.truncate(l - 3);
                st.stack.push(r);
                st.frames.last_mut().unwrap().pc += 1;
                Ok(Step::Continue)
            }
            _ => { st.frames.last_mut().unwrap().pc += 1; enter(sh, st, f); self.rep.funcs[f as usize] = true; Ok(Step::Continue) }
        }
    }
}
fn arith(op: u8, w: u8, a: u64, b: u64) -> Result<u64, String> {
    let m = mask(w);
    let (sa, sb) = (sext_c(w, a), sext_c(w, b));
    let s = b & (w as u64 - 1);
    Ok(m & match op {
        0 => a.wrapping_add(b), 1 => a.wrapping_sub(b), 2 => a.wrapping_mul(b),
        3 | 4 | 5 | 6 if b == 0 => return Err("trap: division by zero".into()),
        3 => { if sb == -1 && a == 1 << (w - 1) { return Err("trap: division overflow".into()); } (sa / sb) as u64 }
        4 => a / b, 5 => sa.wrapping_rem(sb) as u64, 6 => a % b,
        7 => a & b, 8 => a | b, 9 => a ^ b,
        10 => a << s, 11 => (sa >> s) as u64, 12 => a >> s,
        13 => if s == 0 { a } else { (a << s) | (a >> (w as u64 - s)) },
        _ => if s == 0 { a } else { (a >> s) | (a << (w as u64 - s)) },
    })
}
fn sym_arith(op: u8, w: u8, a: &V, b: &V) -> V {
    let sh = || bin(Op::And, w, b, &V::C(w as u64 - 1));
    match op {
        0 => bin(Op::Add, w, a, b), 1 => bin(Op::Sub, w, a, b), 2 => bin(Op::Mul, w, a, b), 3 => bin(Op::SDiv, w, a, b), 4 => bin(Op::UDiv, w, a, b), 5 => bin(Op::SRem, w, a, b), 6 => bin(Op::URem, w, a, b),
        7 => bin(Op::And, w, a, b), 8 => bin(Op::Or, w, a, b), 9 => bin(Op::Xor, w, a, b),
        10 => bin(Op::Shl, w, a, &sh()), 11 => bin(Op::AShr, w, a, &sh()), 12 => bin(Op::LShr, w, a, &sh()),
        13 | 14 => {
            let k = sh();
            match k {
                V::C(0) => a.clone(),
                V::C(k) => { let k = (if op == 13 { k } else { w as u64 - k }) as u8; let hi = extract(a, 0, w - k); let lo = extract(a, w - k, k); concat(&hi, w - k, &lo, k) }
                k => { let inv = bin(Op::And, w, &bin(Op::Sub, w, &V::C(w as u64), &k), &V::C(w as u64 - 1)); let (x, y) = if op == 13 { (Op::Shl, Op::LShr) } else { (Op::LShr, Op::Shl) }; bin(Op::Or, w, &bin(x, w, a, &k), &bin(y, w, a, &inv)) }
            }
        }
        _ => unreachable!(),
    }
}
fn cnt(op: u8, w: u8, a: &V) -> V {
    if let V::C(x) = a {
        return V::C(match (op, w) { (0, 32) => (*x as u32).leading_zeros() as u64, (0, _) => x.leading_zeros() as u64, (1, 32) => (*x as u32).trailing_zeros() as u64, (1, _) => x.trailing_zeros() as u64, _ => x.count_ones() as u64 });
    }
    match op {
        2 => { let mut r = V::C(0); for i in 0..w { r = bin(Op::Add, w, &r, &zext(w, &extract(a, i, 1), 1)); } r }
        _ => {
            let mut r = V::C(w as u64);
            for i in 0..w { let (bit, val) = if op == 0 { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) }; r = ite(w, &extract(a, bit, 1), &V::C(val as u64), &r); }
            r
        }
    }
}
fn float(st: &mut State, op: u8) -> Result<(), String> {
    let c = |v: V| match v { V::C(x) => Ok(x), _ => Err("symbolic float".to_string()) };
    let d = f64::from_bits;
    let f = |x: u64| f32::from_bits(x as u32);
    if (0x80..0x88).contains(&op) {
        let a = c(st.stack.pop().unwrap())?;
        let r = match op & 7 { 0 => f(a) as i32 as u32 as u64, 1 => f(a) as u32 as u64, 2 => d(a) as i32 as u32 as u64, 3 => d(a) as u32 as u64, 4 => f(a) as i64 as u64, 5 => f(a) as u64, 6 => d(a) as i64 as u64, _ => d(a) as u64 };
        st.stack.push(V::C(r));
        return Ok(());
    }
    let two = matches!(op, 0x5b..=0x66 | 0x92..=0x98 | 0xa0..=0xa6);
    let b = if two { c(st.stack.pop().unwrap())? } else { 0 };
    let a = c(st.stack.pop().unwrap())?;
    let r = match op {
        0x5b => (f(a) == f(b)) as u64, 0x5c => (f(a) != f(b)) as u64, 0x5d => (f(a) < f(b)) as u64, 0x5e => (f(a) > f(b)) as u64, 0x5f => (f(a) <= f(b)) as u64, 0x60 => (f(a) >= f(b)) as u64,
        0x61 => (d(a) == d(b)) as u64, 0x62 => (d(a) != d(b)) as u64, 0x63 => (d(a) < d(b)) as u64, 0x64 => (d(a) > d(b)) as u64, 0x65 => (d(a) <= d(b)) as u64, 0x66 => (d(a) >= d(b)) as u64,
        0x8b => f(a).abs().to_bits() as u64, 0x8c => (-f(a)).to_bits() as u64, 0x8d => f(a).ceil().to_bits() as u64, 0x8e => f(a).floor().to_bits() as u64, 0x8f => f(a).trunc().to_bits() as u64, 0x91 => f(a).sqrt().to_bits() as u64,
        0x99 => d(a).abs().to_bits(), 0x9a => (-d(a)).to_bits(), 0x9b => d(a).ceil().to_bits(), 0x9c => d(a).floor().to_bits(), 0x9d => d(a).trunc().to_bits(), 0x9f => d(a).sqrt().to_bits(),
        0x92 => (f(a) + f(b)).to_bits() as u64, 0x93 => (f(a) - f(b)).to_bits() as u64, 0x94 => (f(a) * f(b)).to_bits() as u64, 0x95 => (f(a) / f(b)).to_bits() as u64,
        0xa0 => (d(a) + d(b)).to_bits(), 0xa1 => (d(a) - d(b)).to_bits(), 0xa2 => (d(a) * d(b)).to_bits(), 0xa3 => (d(a) / d(b)).to_bits(), 0xa4 => d(a).min(d(b)).to_bits(), 0xa5 => d(a).max(d(b)).to_bits(), 0xa6 => d(a).copysign(d(b)).to_bits(),
        0xa8 => f(a) as i32 as u32 as u64, 0xa9 => f(a) as u32 as u64, 0xaa => d(a) as i32 as u32 as u64, 0xab => d(a) as u32 as u64, 0xae => f(a) as i64 as u64, 0xaf => f(a) as u64, 0xb0 => d(a) as i64 as u64, 0xb1 => d(a) as u64,
        0xb2 => (a as u32 as i32 as f32).to_bits() as u64, 0xb3 => (a as u32 as f32).to_bits() as u64, 0xb4 => (a as i64 as f32).to_bits() as u64, 0xb5 => (a as f32).to_bits() as u64, 0xb6 => (d(a) as f32).to_bits() as u64,
        0xb7 => (a as u32 as i32 as f64).to_bits(), 0xb8 => (a as u32 as f64).to_bits(), 0xb9 => (a as i64 as f64).to_bits(), 0xba => (a as f64).to_bits(), 0xbb => (f(a) as f64).to_bits(),
        _ => return Err(format!("float op {op:x}")),
    };
    st.stack.push(V::C(r));
    Ok(())
}
