//! Minimal binding to the system libz3 (QF_BV satisfiability with models).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P; fn Z3_del_config(c: P); fn Z3_mk_context(c: P) -> P; fn Z3_del_context(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P; fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P; fn Z3_mk_true(c: P) -> P; fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P; fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_fresh_const(c: P, p: *const c_char, s: P) -> P; fn Z3_solver_assert_and_track(c: P, s: P, a: P, p: P); fn Z3_solver_get_unsat_core(c: P, s: P) -> P; fn Z3_ast_vector_inc_ref(c: P, v: P); fn Z3_ast_vector_dec_ref(c: P, v: P); fn Z3_ast_vector_size(c: P, v: P) -> c_uint; fn Z3_ast_vector_get(c: P, v: P, i: c_uint) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P; fn Z3_mk_eq(c: P, a: P, b: P) -> P; fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvurem(c: P, a: P, b: P) -> P; fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P; fn Z3_mk_bvor(c: P, a: P, b: P) -> P; fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P; fn Z3_mk_bvule(c: P, a: P, b: P) -> P; fn Z3_mk_bvslt(c: P, a: P, b: P) -> P; fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P; fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P; fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P; fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P); fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P); fn Z3_solver_check(c: P, s: P) -> c_int; fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_push(c: P, s: P); fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_model_inc_ref(c: P, m: P); fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P; fn Z3_params_inc_ref(c: P, p: P); fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint); fn Z3_solver_set_params(c: P, s: P, p: P);
}
static NDUMP: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
/// Unsat carries the indices of an unsatisfiable subset
pub enum Res { Sat(Vec<(u32, u64)>), Unsat(Vec<usize>), Unknown }
pub struct Z3 { c: P, s: P, cache: HashMap<u64, P>, sorts: Vec<P>, labels: Vec<P>, cores: bool, his: bool, n: u64, timeout: u32, mode: u8, pub queries: u64, pub unknown: u64, pub time: f64, pub maxt: f64 }
impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mode = std::env::var("WSX_Z3MODE").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut z = Z3 { c: std::ptr::null_mut(), s: std::ptr::null_mut(), cache: HashMap::new(), sorts: vec![], labels: vec![], cores: std::env::var("WSX_CORE").is_ok(), his: std::env::var("WSX_NOHI").is_err(), n: 0, timeout: timeout_ms, mode, queries: 0, unknown: 0, time: 0.0, maxt: 0.0 };
        z.reset();
        z
    }
    fn reset(&mut self) {
        unsafe {
            if !self.c.is_null() { Z3_solver_dec_ref(self.c, self.s); Z3_del_context(self.c); }
            self.cache.clear();
            self.labels.clear();
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let l = CString::new("QF_BV").unwrap();
            self.s = if self.mode == 1 { Z3_mk_simple_solver(self.c) } else { Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr())) };
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, t.as_ptr()), self.timeout);
            Z3_solver_set_params(self.c, self.s, p);
            self.sorts = (0..=64).map(|w| if w < 2 { Z3_mk_bool_sort(self.c) } else { Z3_mk_bv_sort(self.c, w) }).collect();
            self.n = 0;
        }
    }
    fn bv1(&mut self, e: &E) -> P { // bool as 1-bit vector
        let b = self.tr(e);
        unsafe { let s = Z3_mk_bv_sort(self.c, 1); let (o, z) = (Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s)); Z3_mk_ite(self.c, b, o, z) }
    }
    fn bv(&mut self, e: &E) -> P { if e.w == 1 { self.bv1(e) } else { self.tr(e) } }
    fn tr(&mut self, e: &E) -> P {
        if let Some(p) = self.cache.get(&e.id) { return *p; }
        let c = self.c;
        let p = unsafe { match &e.k {
            Kind::Const(v) => if e.w == 1 { if *v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { Z3_mk_unsigned_int64(c, *v, self.sorts[e.w as usize]) },
            Kind::Sym(s) => Z3_mk_const(c, Z3_mk_int_symbol(c, *s as c_int), self.sorts[e.w as usize]),
            Kind::Not(a) => { let a = self.tr(a); Z3_mk_not(c, a) }
            Kind::Ite(g, a, b) => { let g = self.tr(g); let a = self.tr(a); let b = self.tr(b); Z3_mk_ite(c, g, a, b) }
            Kind::Ext(a, lo) => { let x = self.bv(a); let r = Z3_mk_extract(c, *lo as u32 + e.w as u32 - 1, *lo as u32, x);
                if e.w == 1 { let s = Z3_mk_bv_sort(c, 1); Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, s)) } else { r } }
            Kind::Cat(h, l) => { let h = self.bv(h); let l = self.bv(l); Z3_mk_concat(c, h, l) }
            Kind::Zx(a) => { let x = self.bv(a); Z3_mk_zero_ext(c, (e.w - a.w) as u32, x) }
            Kind::Sx(a) => { let x = self.bv(a); Z3_mk_sign_ext(c, (e.w - a.w) as u32, x) }
            Kind::Zero128(h, l) => { let x = self.wide(h, l); let s = Z3_mk_bv_sort(c, 128); let z = Z3_mk_unsigned_int64(c, 0, s); Z3_mk_eq(c, x, z) }
            Kind::Cmp128(strict, [ah, al, bh, bl]) => { let x = self.wide(ah, al); let y = self.wide(bh, bl); if *strict { Z3_mk_bvult(c, x, y) } else { Z3_mk_bvule(c, x, y) } }
            Kind::Bin(Op::Add | Op::Sub, ..) if e.w == 64 && self.his && hi_of(e).is_some() => { let w = hi_of(e).unwrap(); let x = self.sum(&w); Z3_mk_extract(c, 127, 64, x) }
            Kind::Bin(Op::Eq, a, b) if a.w == 64 && self.his && hi_diff(a, b).is_some() => { let w = hi_diff(a, b).unwrap(); let x = self.sum(&w); let h = Z3_mk_extract(c, 127, 64, x); Z3_mk_eq(c, h, Z3_mk_unsigned_int64(c, 0, self.sorts[64])) }
            Kind::Bin(op, a, b) => {
                let w1 = a.w == 1;
                let (x, y) = (self.tr(a), self.tr(b));
                if w1 { let xy = [x, y]; match op { Op::And => Z3_mk_and(c, 2, xy.as_ptr()), Op::Or => Z3_mk_or(c, 2, xy.as_ptr()), Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, x, y), Op::Eq => Z3_mk_eq(c, x, y),
                    Op::Ult => { let n = [Z3_mk_not(c, x), y]; Z3_mk_and(c, 2, n.as_ptr()) } Op::Ule => { let n = [Z3_mk_not(c, x), y]; Z3_mk_or(c, 2, n.as_ptr()) } o => panic!("bool op {o:?}") } }
                else { match op { Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y), Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y), Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y), Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y), Op::Eq => Z3_mk_eq(c, x, y), Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y), Op::Slt => Z3_mk_bvslt(c, x, y), Op::Sle => Z3_mk_bvsle(c, x, y) } }
            }
        } };
        self.cache.insert(e.id, p);
        p
    }
    fn label(&mut self, i: usize) -> P {
        while self.labels.len() <= i { let n = CString::new("t").unwrap(); let l = unsafe { Z3_mk_fresh_const(self.c, n.as_ptr(), self.sorts[1]) }; self.labels.push(l); }
        self.labels[i]
    }
    fn wide(&mut self, h: &E, l: &E) -> P {
        match wide(h, l) { Some(w) => self.sum(&w), None => { let h = self.bv(h); let l = self.bv(l); unsafe { Z3_mk_concat(self.c, h, l) } } }
    }
    fn sum(&mut self, w: &Wide) -> P {
        let c = self.c;
        unsafe {
            let s128 = Z3_mk_bv_sort(c, 128);
            let konst = |v: u128| { let s = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(c, s.as_ptr(), s128) };
            let mut terms: Vec<(P, u128)> = vec![];
            let mut his: Vec<(E, u128)> = w.t.iter().filter(|x| x.0).map(|x| (x.1.clone(), x.2)).collect();
            for (hi, e, k) in &w.t {
                if *hi { continue; }
                let want = if let Kind::Sym(s) = e.k { Some(s + 1) } else { None };
                let at = his.iter().position(|(x, q)| q == k && matches!((&x.k, want), (Kind::Sym(s), Some(t)) if *s == t)).or_else(|| his.iter().position(|(x, q)| q == k && !matches!(x.k, Kind::Sym(_)) && want.is_none()));
                let lo = self.bv(e);
                let p = match at { Some(i) => { let (x, _) = his.remove(i); let x = self.bv(&x); Z3_mk_concat(c, x, lo) } None => Z3_mk_zero_ext(c, 64, lo) };
                terms.push((p, *k));
            }
            for (x, k) in his { let x = self.bv(&x); let z = Z3_mk_unsigned_int64(c, 0, self.sorts[64]); terms.push((Z3_mk_concat(c, x, z), k)); }
            let mut cur: Option<P> = None;
            for (p, k) in terms.iter().filter(|x| x.1 >> 127 == 0).chain(terms.iter().filter(|x| x.1 >> 127 != 0)) {
                let neg = k >> 127 != 0;
                let a = if neg { k.wrapping_neg() } else { *k };
                let t = if a == 1 { *p } else { Z3_mk_bvmul(c, *p, konst(a)) };
                cur = Some(match cur { None => if neg { Z3_mk_bvsub(c, konst(0), t) } else { t }, Some(x) => if neg { Z3_mk_bvsub(c, x, t) } else { Z3_mk_bvadd(c, x, t) } });
            }
            match cur { None => konst(w.c), Some(x) => if w.c == 0 { x } else { Z3_mk_bvadd(c, x, konst(w.c)) } }
        }
    }
    /// Are the (boolean) constraints jointly satisfiable? Model for the given symbols.
    pub fn check(&mut self, cs: &[E], syms: &[(u32, u8)]) -> Res {
        self.n += 1;
        if self.n > 4000 || self.cache.len() > 400_000 { self.reset(); self.n = 1; }
        self.queries += 1;
        let t0 = std::time::Instant::now();
        let r = unsafe {
            if self.mode == 2 || self.mode == 1 { Z3_solver_push(self.c, self.s); }
            else {
                // a fresh solver per query keeps the (fast) non-incremental strategy
                Z3_solver_dec_ref(self.c, self.s);
                let l = CString::new("QF_BV").unwrap();
                self.s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
                Z3_solver_inc_ref(self.c, self.s);
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                let t = CString::new("timeout").unwrap();
                Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, t.as_ptr()), self.timeout);
                Z3_solver_set_params(self.c, self.s, p);
            }
            let core = cs.len() > 1 && self.cores;
            for (i, e) in cs.iter().enumerate() { let p = self.tr(e); if core { let l = self.label(i); Z3_solver_assert_and_track(self.c, self.s, p, l) } else { Z3_solver_assert(self.c, self.s, p) } }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (s, w) in syms {
                        let t = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, *s as c_int), self.sorts[*w as usize]);
                        let mut v: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, t, true, &mut v);
                        let mut n = 0u64;
                        if *w == 1 { n = (Z3_get_bool_value(self.c, v) == 1) as u64; } else { Z3_get_numeral_uint64(self.c, v, &mut n); }
                        out.push((*s, n));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => {
                    let mut out = vec![];
                    if core {
                        let v = Z3_solver_get_unsat_core(self.c, self.s);
                        Z3_ast_vector_inc_ref(self.c, v);
                        for i in 0..Z3_ast_vector_size(self.c, v) { let a = Z3_ast_vector_get(self.c, v, i); if let Some(k) = self.labels.iter().position(|l| *l == a) { out.push(k); } }
                        Z3_ast_vector_dec_ref(self.c, v);
                    } else { out.extend(0..cs.len()); }
                    Res::Unsat(out)
                }
                _ => { self.unknown += 1; Res::Unknown }
            };
            if self.mode == 2 || self.mode == 1 { Z3_solver_pop(self.c, self.s, 1); }
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        if dt > std::env::var("WSX_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0.3) { if let Ok(d) = std::env::var("WSX_DUMP") { unsafe { let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned(); let n = NDUMP.fetch_add(1, std::sync::atomic::Ordering::Relaxed); std::fs::write(format!("{d}/q{n}.smt2"), format!("; {dt}\n{s}\n(check-sat)\n")).ok(); } } }
        self.time += dt;
        if dt > self.maxt { self.maxt = dt; }
        r
    }
}
