//! Bit-vector expressions: immutable DAG with aggressive local simplification.
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub type E = Arc<Node>;
pub const SYMW: usize = 8;
pub type Syms = [u64; SYMW];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Op { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle }

#[derive(Debug)]
pub enum Kind {
    Const(u64),
    Sym(u32),
    Not(E), // bool (width 1)
    Bin(Op, E, E),
    Ite(E, E, E),
    Ext(E, u8), // extract [lo, lo+w)
    Cat(E, E),  // hi, lo
    Zx(E),
    Sx(E),
    /// unsigned 128-bit comparison of word pairs (ah:al) < / <= (bh:bl)
    Cmp128(bool, [E; 4]),
    /// the 128-bit word (hi:lo) is zero
    Zero128(E, E),
}
#[derive(Debug)]
pub struct Node { pub id: u64, pub h: u128, pub w: u8, pub syms: Syms, pub min: u64, pub max: u64, pub k: Kind }

/// A wasm value: concrete or symbolic.
#[derive(Clone, Debug)]
pub enum V { C(u64), S(E) }

static NEXT: AtomicU64 = AtomicU64::new(1);
thread_local! { static IDS: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) }; }
fn fresh_id() -> u64 {
    IDS.with(|c| {
        let (n, end) = c.get();
        if n < end { c.set((n + 1, end)); n } else {
            let s = NEXT.fetch_add(4096, Ordering::Relaxed);
            c.set((s + 1, s + 4096));
            s
        }
    })
}
fn mix(a: u128, b: u128) -> u128 {
    let x = (a ^ b.rotate_left(41)).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835u128 | 1);
    let y = x ^ (x >> 67);
    y.wrapping_mul(0xD1B54A32D192ED03AEF17502108EF2D9u128 | 1).wrapping_add(b)
}
#[inline] pub fn mask(w: u8) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn or_syms(a: &Syms, b: &Syms) -> Syms { let mut r = *a; for i in 0..SYMW { r[i] |= b[i]; } r }

fn node(w: u8, k: Kind) -> E {
    let (h, syms) = match &k {
        Kind::Const(c) => (mix(1, *c as u128), [0; SYMW]),
        Kind::Sym(s) => {
            let mut y = [0; SYMW];
            y[(*s as usize / 64) % SYMW] |= 1 << (*s % 64);
            (mix(2, *s as u128), y)
        }
        Kind::Not(a) => (mix(3, a.h), a.syms),
        Kind::Bin(o, a, b) => (mix(mix(16 + *o as u128, a.h), b.h), or_syms(&a.syms, &b.syms)),
        Kind::Ite(c, a, b) => (mix(mix(mix(4, c.h), a.h), b.h), or_syms(&or_syms(&c.syms, &a.syms), &b.syms)),
        Kind::Ext(a, lo) => (mix(mix(5, a.h), *lo as u128), a.syms),
        Kind::Cat(a, b) => (mix(mix(6, a.h), b.h), or_syms(&a.syms, &b.syms)),
        Kind::Zx(a) => (mix(7, a.h), a.syms),
        Kind::Sx(a) => (mix(8, a.h), a.syms),
        Kind::Zero128(a, b) => (mix(mix(12, a.h), b.h), or_syms(&a.syms, &b.syms)),
        Kind::Cmp128(s, v) => { let mut h = 9 + *s as u128; let mut y = [0; SYMW]; for e in v { h = mix(h, e.h); y = or_syms(&y, &e.syms); } (h, y) }
    };
    let m = mask(w);
    let (min, max) = if w == 1 { (0, 1) } else { range(w, &k) };
    Arc::new(Node { id: fresh_id(), h: mix(h, w as u128 + 77), w, syms, min, max, k })
}
/// unsigned bounds of the value
fn range(w: u8, k: &Kind) -> (u64, u64) {
    let m = mask(w);
    let full = (0, m);
    let wrap = |lo: i128, hi: i128| {
        let n = m as i128 + 1;
        if lo >= 0 && hi < n { (lo as u64, hi as u64) } else if lo >= n && hi < 2 * n { ((lo - n) as u64, (hi - n) as u64) } else if lo >= -n && hi < 0 { ((lo + n) as u64, (hi + n) as u64) } else { full }
    };
    match k {
        Kind::Const(c) => (*c, *c),
        Kind::Zx(a) => (a.min, a.max),
        Kind::Sx(a) => if a.max <= mask(a.w) >> 1 { (a.min, a.max) } else { full },
        Kind::Ite(_, a, b) => (a.min.min(b.min), a.max.max(b.max)),
        Kind::Ext(a, lo) => { let (x, y) = (a.min >> lo, a.max >> lo); if x & !m == y & !m { (x & m, y & m) } else { full } }
        Kind::Cat(a, b) => ((a.min << b.w) | b.min, (a.max << b.w) | b.max),
        Kind::Bin(Op::Add, a, b) => wrap(a.min as i128 + b.min as i128, a.max as i128 + b.max as i128),
        Kind::Bin(Op::Sub, a, b) => wrap(a.min as i128 - b.max as i128, a.max as i128 - b.min as i128),
        Kind::Bin(Op::Mul, a, b) => match a.max.checked_mul(b.max) { Some(t) if t <= m => (a.min * b.min, t), _ => full },
        Kind::Bin(Op::And, a, b) => (0, a.max.min(b.max)),
        Kind::Bin(Op::Or, a, b) => (a.min.max(b.min), m),
        Kind::Bin(Op::LShr, a, b) => match b.k { Kind::Const(c) if c < w as u64 => (a.min >> c, a.max >> c), _ => (0, a.max) },
        Kind::Bin(Op::UDiv, a, b) => match b.k { Kind::Const(c) if c > 0 => (a.min / c, a.max / c), _ => full },
        Kind::Bin(Op::URem, _, b) => match b.k { Kind::Const(c) if c > 0 => (0, c - 1), _ => full },
        _ => full,
    }
}
/// x <u y, when the bounds of the operands or their difference decide it
fn less(x: &E, y: &E) -> Option<bool> {
    if x.max < y.min { return Some(true); }
    if x.min >= y.max { return Some(false); }
    if !lin_shaped(x) && !lin_shaped(y) { return None; }
    let (p, q) = (lin_of(x.w, x)?, lin_of(x.w, y)?);
    let m = mask(x.w);
    // x = y + d
    let mut d = Sum { t: p.t.clone(), c: p.c.wrapping_sub(q.c) };
    for (e, k) in &q.t { d.put(e, k.wrapping_neg()); }
    d.tidy(x.w);
    if d.t.is_empty() {
        if d.c == 0 { return Some(false); }
        let neg = d.c.wrapping_neg() & m;
        if y.max <= m - d.c { return Some(false); } // no overflow: x > y
        if y.min >= neg { return Some(true); } // x = y - neg, no underflow
        if y.min > m - d.c { return Some(true); }
        if y.max < neg { return Some(false); }
        return None;
    }
    // both sums are what they are as integers, and so is their difference
    let (cp, cq) = (whole(x.w, &p)?, whole(x.w, &q)?);
    let (lo, hi) = bounds(x.w, &d);
    let c = cp as i128 - cq as i128;
    if hi + c < 0 { return Some(true); }
    if lo + c >= 0 { return Some(false); }
    None
}
/// bounds of a sum's terms as integers, with signed coefficients (without its constant)
fn bounds(w: u8, s: &Sum) -> (i128, i128) {
    let (mut lo, mut hi) = (0i128, 0i128);
    for (t, k) in &s.t {
        let k = sext_c(w, *k) as i128;
        if k.abs() >= 1 << 32 { return (-(1 << 126), 1 << 126); }
        if k >= 0 { lo += k * t.min as i128; hi += k * t.max as i128; } else { lo += k * t.max as i128; hi += k * t.min as i128; }
    }
    (lo, hi)
}
/// the constant with which a sum, taken as an integer, stays within the word (so that it does not wrap)
fn whole(w: u8, s: &Sum) -> Option<i64> {
    let (lo, hi) = bounds(w, s);
    let m = mask(w) as i128;
    let c = sext_c(w, s.c);
    if lo + c as i128 >= 0 && hi + c as i128 <= m { return Some(c); }
    if (s.c as i64) >= 0 && lo + s.c as i128 >= 0 && hi + s.c as i128 <= m { return Some(s.c as i64); }
    None
}
pub fn symbol_in(idx: u32, w: u8, lo: u64, hi: u64) -> E {
    let e = node(w, Kind::Sym(idx));
    Arc::new(Node { id: e.id, h: mix(mix(e.h, lo as u128), hi as u128), w, syms: e.syms, min: lo, max: hi, k: Kind::Sym(idx) })
}
/// the constraints that make it so
pub fn in_range(e: &E) -> [V; 2] { [V::S(node(1, Kind::Bin(Op::Ule, konst(e.w, e.min), e.clone()))), V::S(node(1, Kind::Bin(Op::Ule, e.clone(), konst(e.w, e.max))))] }
pub fn same(a: &E, b: &E) -> bool { Arc::ptr_eq(a, b) || (a.h == b.h && a.w == b.w) }
pub fn symbol(idx: u32, w: u8) -> V { V::S(node(w, Kind::Sym(idx))) }
pub fn konst(w: u8, c: u64) -> E { node(w, Kind::Const(c & mask(w))) }
pub fn to_e(w: u8, v: &V) -> E { match v { V::C(c) => konst(w, *c), V::S(e) => { debug_assert_eq!(e.w, w); e.clone() } } }
fn is_const(e: &E) -> Option<u64> { if let Kind::Const(c) = e.k { Some(c) } else { None } }
pub fn from_e(e: E) -> V { match e.k { Kind::Const(c) => V::C(c), _ => V::S(e) } }

pub fn sext_c(w: u8, c: u64) -> i64 { let s = 64 - w as u32; ((c << s) as i64) >> s }

fn fold(op: Op, w: u8, a: u64, b: u64) -> u64 {
    let m = mask(w);
    let (sa, sb) = (sext_c(w, a), sext_c(w, b));
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { m } else { sa.wrapping_div(sb) as u64 },
        Op::SRem => if b == 0 { a } else { sa.wrapping_rem(sb) as u64 },
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u64 { 0 } else { a << b },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => (sa >> b.min(63)) as u64,
        Op::Eq => return (a == b) as u64,
        Op::Ult => return (a < b) as u64,
        Op::Ule => return (a <= b) as u64,
        Op::Slt => return (sa < sb) as u64,
        Op::Sle => return (sa <= sb) as u64,
    }) & m
}

pub fn not(v: V) -> V {
    match v {
        V::C(c) => V::C(c ^ 1),
        V::S(e) => match &e.k {
            Kind::Not(a) => V::S(a.clone()),
            Kind::Cmp128(s, [a, b, c, d]) => V::S(node(1, Kind::Cmp128(!s, [c.clone(), d.clone(), a.clone(), b.clone()]))),
            Kind::Bin(Op::Ult, a, b) => V::S(node(1, Kind::Bin(Op::Ule, b.clone(), a.clone()))),
            Kind::Bin(Op::Ule, a, b) => V::S(node(1, Kind::Bin(Op::Ult, b.clone(), a.clone()))),
            Kind::Bin(Op::Slt, a, b) => V::S(node(1, Kind::Bin(Op::Sle, b.clone(), a.clone()))),
            Kind::Bin(Op::Sle, a, b) => V::S(node(1, Kind::Bin(Op::Slt, b.clone(), a.clone()))),
            _ => V::S(node(1, Kind::Not(e.clone()))),
        },
    }
}
pub fn ite(w: u8, c: &V, a: &V, b: &V) -> V {
    let c = match c { V::C(0) => return b.clone(), V::C(_) => return a.clone(), V::S(e) => e };
    match (a, b) {
        (V::C(x), V::C(y)) if x & mask(w) == y & mask(w) => return a.clone(),
        (V::S(x), V::S(y)) if same(x, y) => return a.clone(),
        _ => {}
    }
    if let Kind::Not(n) = &c.k { return ite(w, &V::S(n.clone()), b, a); }
    if w == 1 {
        let cv = V::S(c.clone());
        if let (V::S(x), V::S(y)) = (a, b) { if let Some(r) = cmp128(c, x, y) { return r; } }
        return match (a, b) {
            (V::C(1), V::C(0)) => cv,
            (V::C(0), V::C(1)) => not(cv),
            (V::C(1), _) => bin(Op::Or, 1, &cv, b),
            (V::C(0), _) => bin(Op::And, 1, &not(cv), b),
            (_, V::C(0)) => bin(Op::And, 1, &cv, a),
            (_, V::C(1)) => bin(Op::Or, 1, &not(cv), a),
            _ => V::S(node(1, Kind::Ite(c.clone(), to_e(1, a), to_e(1, b)))),
        };
    }
    if let (V::C(1), V::C(0)) = (a, b) { return zext(w, &V::S(c.clone()), 1); }
    if let (V::C(0), V::C(1)) = (a, b) { return zext(w, &not(V::S(c.clone())), 1); }
    // zext both sides of bools
    let bool_of = |v: &V| -> Option<V> { match v {
        V::C(x) if *x <= 1 => Some(v.clone()),
        V::S(e) => if let Kind::Zx(x) = &e.k { if x.w == 1 { Some(V::S(x.clone())) } else { None } } else { None },
        _ => None } };
    if let (Some(x), Some(y)) = (bool_of(a), bool_of(b)) { return zext(w, &ite(1, &V::S(c.clone()), &x, &y), 1); }
    V::S(node(w, Kind::Ite(c.clone(), to_e(w, a), to_e(w, b))))
}
pub fn zext(w: u8, v: &V, from: u8) -> V {
    match v {
        V::C(c) => V::C(c & mask(from)),
        V::S(e) => {
            if e.w == w { return v.clone(); }
            if let Kind::Ext(x, 0) = &e.k { if x.w == w && x.max <= mask(e.w) { return V::S(x.clone()); } }
            if w == 64 && e.w > 1 { if let Some(v) = widen(e) { return v; } }
            match &e.k { Kind::Zx(x) => V::S(node(w, Kind::Zx(x.clone()))), _ => V::S(node(w, Kind::Zx(e.clone()))) }
        }
    }
}
/// the 64-bit value of a sum of fewer bits that cannot wrap: the sum of its parts
fn widen(e: &E) -> Option<V> {
    if !matches!(e.k, Kind::Bin(Op::Add | Op::Sub, ..)) { return None; }
    let l = lin_of(e.w, e)?;
    let c = whole(e.w, &l)?;
    let mut s = Sum { t: vec![], c: c as u64 };
    for (t, k) in &l.t { let z = to_e(64, &zext(64, &from_e(t.clone()), t.w)); if !s.add(64, &z, sext_c(e.w, *k) as u64) { return None; } }
    s.tidy(64);
    if s.t.len() > LINMAX { return None; }
    Some(s.build(64))
}
pub fn sext(w: u8, v: &V, from: u8) -> V {
    match v {
        V::C(c) => V::C(sext_c(from, *c) as u64 & mask(w)),
        V::S(e) => {
            if e.w == w { return v.clone(); }
            match &e.k {
                Kind::Zx(x) => V::S(node(w, Kind::Zx(x.clone()))),
                Kind::Sx(x) => V::S(node(w, Kind::Sx(x.clone()))),
                _ => V::S(node(w, Kind::Sx(e.clone()))),
            }
        }
    }
}
pub fn extract(v: &V, lo: u8, len: u8) -> V {
    match v {
        V::C(c) => V::C((c >> lo) & mask(len)),
        V::S(e) => {
            if len == e.w { return v.clone(); }
            match &e.k {
                Kind::Ext(x, l) => return V::S(node(len, Kind::Ext(x.clone(), l + lo))),
                Kind::Cat(h, l) => {
                    if lo >= l.w { return extract(&from_e(h.clone()), lo - l.w, len); }
                    if lo + len <= l.w { return extract(&from_e(l.clone()), lo, len); }
                    let lw = l.w - lo;
                    let a = extract(&from_e(l.clone()), lo, lw);
                    let b = extract(&from_e(h.clone()), 0, len - lw);
                    return concat(&b, len - lw, &a, lw);
                }
                Kind::Zx(x) => {
                    if lo >= x.w { return V::C(0); }
                    if lo + len <= x.w { return extract(&V::S(x.clone()), lo, len); }
                    let p = extract(&V::S(x.clone()), lo, x.w - lo);
                    return zext(len, &p, x.w - lo);
                }
                Kind::Sx(x) if lo + len <= x.w => return extract(&V::S(x.clone()), lo, len),
                Kind::Sx(x) if lo == 0 => return sext(len, &V::S(x.clone()), x.w),
                Kind::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                    let easy = |e: &E| matches!(e.k, Kind::Const(_) | Kind::Cat(..) | Kind::Zx(_));
                    if easy(a) || easy(b) {
                        return bin(*op, len, &extract(&from_e(a.clone()), lo, len), &extract(&from_e(b.clone()), lo, len));
                    }
                }
                Kind::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 && (matches!(a.k, Kind::Zx(_) | Kind::Cat(..)) || matches!(b.k, Kind::Zx(_) | Kind::Cat(..))) && len >= 32 => {
                    return bin(*op, len, &extract(&from_e(a.clone()), 0, len), &extract(&from_e(b.clone()), 0, len));
                }
                Kind::Ite(c, a, b) => {
                    if is_const(a).is_some() || is_const(b).is_some() {
                        return ite(len, &V::S(c.clone()), &extract(&from_e(a.clone()), lo, len), &extract(&from_e(b.clone()), lo, len));
                    }
                }
                _ => {}
            }
            let n = node(len, Kind::Ext(e.clone(), lo));
            if n.min == n.max { return V::C(n.min); }
            V::S(n)
        }
    }
}
pub fn concat(hi: &V, hw: u8, lo: &V, lw: u8) -> V {
    let w = hw + lw;
    match (hi, lo) {
        (V::C(h), V::C(l)) => return V::C(((h & mask(hw)) << lw) | (l & mask(lw))),
        (V::C(h), V::S(_)) if h & mask(hw) == 0 => return zext(w, lo, lw),
        (V::S(h), V::S(l)) => {
            // merge adjacent extracts
            fn base(e: &E) -> (E, u8) { match &e.k { Kind::Ext(x, l) => (x.clone(), *l), _ => (e.clone(), 0) } }
            let (hb, hl) = base(h);
            let (lb, ll) = base(l);
            if same(&hb, &lb) && hl == ll + lw && (matches!(h.k, Kind::Ext(..))) {
                return extract(&V::S(hb), ll, w);
            }
            // the low part may have been simplified further: compare with what it would have become
            if let Kind::Ext(x, k) = &h.k { if *k >= lw && !matches!(l.k, Kind::Ext(..)) {
                if let V::S(want) = extract(&V::S(x.clone()), *k - lw, lw) { if same(&want, l) { return extract(&V::S(x.clone()), *k - lw, w); } }
            } }
            // (h ++ (l1 ++ l2)): re-associate so that adjacent extracts meet
            if let Kind::Cat(l1, l2) = &l.k {
                if let (Kind::Ext(x, xl), (b, bl)) = (&h.k, base(l1)) {
                    if same(x, &b) && *xl == bl + l1.w {
                        let hi2 = extract(&V::S(b), bl, hw + l1.w);
                        return concat(&hi2, hw + l1.w, &from_e(l2.clone()), l2.w);
                    }
                }
            }
            // pieces of the same case distinction
            let pair = |h: &E, l: &E| -> Option<V> { if let (Kind::Ite(g, a, b), Kind::Ite(k, c, d)) = (&h.k, &l.k) { if same(g, k) && ((is_const(a).is_some() && is_const(c).is_some()) || (is_const(b).is_some() && is_const(d).is_some())) {
                let (x, y) = (concat(&from_e(a.clone()), h.w, &from_e(c.clone()), l.w), concat(&from_e(b.clone()), h.w, &from_e(d.clone()), l.w));
                return Some(ite(h.w + l.w, &V::S(g.clone()), &x, &y)); } } None };
            if let Some(r) = pair(h, l) { return r; }
            if let Kind::Cat(l1, l2) = &l.k { if let Some(r) = pair(h, l1) { return concat(&r, hw + l1.w, &from_e(l2.clone()), l2.w); } }
            // zext on the high side bubbles out
            if let Kind::Zx(x) = &h.k {
                let inner = concat(&V::S(x.clone()), x.w, lo, lw);
                return zext(w, &inner, x.w + lw);
            }
            if let Kind::Cat(h1, h2) = &h.k {
                // right-associate
                let inner = concat(&from_e(h2.clone()), h2.w, lo, lw);
                return concat(&from_e(h1.clone()), h1.w, &inner, h2.w + lw);
            }
        }
        (V::S(h), V::C(_)) => {
            if let Kind::Zx(x) = &h.k {
                let inner = concat(&V::S(x.clone()), x.w, lo, lw);
                return zext(w, &inner, x.w + lw);
            }
        }
        _ => {}
    }
    V::S(node(w, Kind::Cat(to_e(hw, hi), to_e(lw, lo))))
}
/// low-to-high segments; None piece = known zero
fn segs(e: &E, out: &mut Vec<(u8, Option<V>)>) {
    match &e.k {
        Kind::Cat(h, l) => { segs(l, out); segs(h, out); }
        Kind::Zx(x) => { segs(x, out); out.push((e.w - x.w, None)); }
        Kind::Const(0) => out.push((e.w, None)),
        Kind::Const(c) => {
            // split into zero / non-zero runs at byte granularity
            let mut i = 0;
            while i < e.w {
                let n = 8.min(e.w - i);
                let b = (c >> i) & mask(n);
                out.push((n, if b == 0 { None } else { Some(V::C(b)) }));
                i += n;
            }
        }
        _ => out.push((e.w, Some(V::S(e.clone())))),
    }
}
fn merge_disjoint(w: u8, a: &E, b: &E) -> Option<V> {
    let seggy = |e: &E| matches!(e.k, Kind::Cat(..) | Kind::Zx(_) | Kind::Const(_));
    if !seggy(a) || !seggy(b) { return None; }
    let (mut sa, mut sb) = (vec![], vec![]);
    segs(a, &mut sa);
    segs(b, &mut sb);
    let (mut ia, mut ib, mut oa, mut ob) = (0, 0, 0u8, 0u8);
    let mut pos = 0;
    let mut pieces: Vec<(u8, V)> = vec![];
    while pos < w {
        while ia < sa.len() && sa[ia].0 == oa { ia += 1; oa = 0; }
        while ib < sb.len() && sb[ib].0 == ob { ib += 1; ob = 0; }
        let n = (sa[ia].0 - oa).min(sb[ib].0 - ob);
        let p = match (&sa[ia].1, &sb[ib].1) {
            (None, None) => V::C(0),
            (Some(x), None) => extract(x, oa, n),
            (None, Some(y)) => extract(y, ob, n),
            _ => return None,
        };
        pieces.push((n, p));
        oa += n; ob += n; pos += n;
    }
    let (mut cw, mut cur) = pieces[0].clone();
    for (n, p) in &pieces[1..] { cur = concat(p, *n, &cur, cw); cw += n; }
    Some(cur)
}
fn and_mask(w: u8, x: &V, m: u64) -> Option<V> {
    // decompose the mask into runs
    let mut runs = vec![];
    let mut i = 0u8;
    while i < w {
        let bit = (m >> i) & 1;
        let mut j = i;
        while j < w && (m >> j) & 1 == bit { j += 1; }
        runs.push((bit, i, j - i));
        i = j;
    }
    if runs.len() > 6 { return None; }
    let mut cw = 0;
    let mut cur = V::C(0);
    for (bit, lo, n) in runs {
        let p = if bit == 1 { extract(x, lo, n) } else { V::C(0) };
        cur = if cw == 0 { p } else { concat(&p, n, &cur, cw) };
        cw += n;
    }
    Some(cur)
}
/// Result has width w, except comparisons (width 1).
pub fn bin(op: Op, w: u8, a: &V, b: &V) -> V {
    use Op::*;
    let (a, b) = match (a, b) {
        (V::C(x), V::C(y)) => return V::C(fold(op, w, *x & mask(w), *y & mask(w))),
        // constants to the right for commutative operators
        (V::C(_), V::S(_)) if matches!(op, Add | Mul | And | Or | Xor | Eq) => (b, a),
        _ => (a, b),
    };
    if let V::C(c) = b {
        let c = *c & mask(w);
        let e = match a { V::S(e) => e, _ => unreachable!() };
        match op {
            Add | Sub | Or | Xor | Shl | LShr | AShr if c == 0 => return a.clone(),
            Xor if c == mask(w) && w >= 32 && matches!(e.k, Kind::Bin(Add | Sub, ..) | Kind::Sym(_)) => return bin(Sub, w, b, a),
            And if c == 0 => return V::C(0),
            And if c == mask(w) => return a.clone(),
            Or if c == mask(w) => return V::C(c),
            Mul if c == 0 => return V::C(0),
            Mul if c == 1 => return a.clone(),
            Mul if c.is_power_of_two() => return bin(Shl, w, a, &V::C(c.trailing_zeros() as u64)),
            UDiv if c == 1 => return a.clone(),
            UDiv if c.is_power_of_two() => return bin(LShr, w, a, &V::C(c.trailing_zeros() as u64)),
            URem if c.is_power_of_two() => return bin(And, w, a, &V::C(c - 1)),
            Sub => return bin(Add, w, a, &V::C(c.wrapping_neg() & mask(w))),
            Add if w > 1 && lin_shaped(e) => if let Some(r) = lin_bin(Add, w, a, b) { return r; },
            And => { if w == 1 { return if c == 1 { a.clone() } else { V::C(0) }; }
                if let Some(r) = and_mask(w, a, c) { return r; } }
            Xor if w == 1 => return not(a.clone()),
            Or if w == 1 => return V::C(1),
            Shl => { if c >= w as u64 { return V::C(0); }
                let c = c as u8; let x = extract(a, 0, w - c); return concat(&x, w - c, &V::C(0), c); }
            LShr => { if c >= w as u64 { return V::C(0); }
                let c = c as u8; let x = extract(a, c, w - c); return zext(w, &x, w - c); }
            AShr => { let c = c.min(w as u64 - 1) as u8; let x = extract(a, c, w - c); return sext(w, &x, w - c); }
            Eq => { if c < e.min || c > e.max { return V::C(0); } return eq_const(w, e, c) }
            Ult => {
                if c == 0 || e.min >= c { return V::C(0); }
                if e.max < c { return V::C(1); }
                if c == 1 { return eq_const(w, e, 0); }
                if let Kind::Zx(x) = &e.k {
                    if c > mask(x.w) { return V::C(1); }
                    return bin(Ult, x.w, &V::S(x.clone()), &V::C(c));
                }
                if let Kind::Ite(g, x, y) = &e.k { if let (Some(p), Some(q)) = (is_const(x), is_const(y)) {
                    return ite(1, &V::S(g.clone()), &V::C((p < c) as u64), &V::C((q < c) as u64)); } }
            }
            Ule => { if c == mask(w) { return V::C(1); } return bin(Ult, w, a, &V::C(c + 1)); }
            Slt | Sle => {
                if let Kind::Zx(x) = &e.k {
                    if x.w < w {
                        if c >> (w - 1) == 1 { return V::C(0); }
                        return bin(if op == Slt { Ult } else { Ule }, w, a, b);
                    }
                }
                if op == Slt && c == 0 && w > 1 { return eq_const(1, &to_e(1, &extract(a, w - 1, 1)), 1); }
            }
            _ => {}
        }
        if op == Or || op == Xor || op == Add { if let Some(r) = merge_disjoint(w, e, &konst(w, c)) { return r; } }
    }
    if let (V::C(c), V::S(e)) = (a, b) {
        let c = *c & mask(w);
        match op {
            Ult => { if c >= e.max { return V::C(0); } if c < e.min { return V::C(1); }
                if c == 0 { return not(eq_const(w, e, 0)); }
                if let Kind::Zx(x) = &e.k { if c >= mask(x.w) { return V::C(0); } return bin(Ult, x.w, &V::C(c), &V::S(x.clone())); }
                if let Kind::Ite(g, x, y) = &e.k { if let (Some(p), Some(q)) = (is_const(x), is_const(y)) {
                    return ite(1, &V::S(g.clone()), &V::C((c < p) as u64), &V::C((c < q) as u64)); } }
            }
            Ule => { if c == 0 { return V::C(1); } return bin(Ult, w, &V::C(c - 1), b); }
            Slt | Sle => {
                if let Kind::Zx(x) = &e.k { if x.w < w {
                    if c >> (w - 1) == 1 { return V::C(1); }
                    return bin(if op == Slt { Ult } else { Ule }, w, a, b);
                } }
            }
            Shl | LShr | AShr if c == 0 => return V::C(0),
            _ => {}
        }
    }
    if let (V::S(x), V::S(y)) = (a, b) {
        if same(x, y) {
            match op {
                Sub | Xor => return V::C(0),
                And | Or => return a.clone(),
                Eq | Ule | Sle => return V::C(1),
                Ult | Slt => return V::C(0),
                _ => {}
            }
        }
        if op == Eq && w > 1 && (matches!(x.k, Kind::Bin(Add | Sub, ..)) || matches!(y.k, Kind::Bin(Add | Sub, ..))) { if let Some(r) = lin_eq(w, x, y) { return r; } }
        if (op == Ult || op == Ule) && w > 1 {
            if let Some(r) = if op == Ult { less(x, y) } else { less(y, x).map(|r| !r) } { return V::C(r as u64); }
        }
        match op {
            Eq | Ult | Ule => {
                if let (Kind::Zx(p), Kind::Zx(q)) = (&x.k, &y.k) {
                    let n = p.w.max(q.w);
                    return bin(op, n, &zext(n, &V::S(p.clone()), p.w), &zext(n, &V::S(q.clone()), q.w));
                }
            }
            Slt | Sle => {
                if let (Kind::Zx(p), Kind::Zx(q)) = (&x.k, &y.k) {
                    if p.w < w && q.w < w { return bin(if op == Slt { Ult } else { Ule }, w, a, b); }
                }
            }
            And | Or | Xor => {
                if op != And { if let Some(r) = merge_disjoint(w, x, y) { return r; } }
                if let (Kind::Zx(p), Kind::Zx(q)) = (&x.k, &y.k) {
                    if p.w == q.w { let r = bin(op, p.w, &V::S(p.clone()), &V::S(q.clone())); return zext(w, &r, p.w); }
                }
                if w == 1 && op == And {
                    if let Some(r) = zero128(x, y).or_else(|| zero128(y, x)).or_else(|| less128(x, y)).or_else(|| less128(y, x)) { return r; }
                }
                if w == 1 {
                    let neg = |m: &E, n: &E| if let Kind::Not(z) = &m.k { same(z, n) } else { false };
                    if neg(x, y) || neg(y, x) { return V::C(if op == And { 0 } else { 1 }); }
                }
            }
            Add => { if let Some(r) = merge_disjoint(w, x, y) { return r; } }
            Shl | LShr | AShr => {
                // shift amount known through zext? keep generic
            }
            _ => {}
        }
    }
    if (op == Add || op == Sub) && w > 1 { if let Some(r) = lin_bin(op, w, a, b) { return r; } }
    let rw = if matches!(op, Eq | Ult | Ule | Slt | Sle) { 1 } else { w };
    V::S(node(rw, Kind::Bin(op, to_e(w, a), to_e(w, b))))
}
fn lin_shaped(e: &E) -> bool { matches!(e.k, Kind::Bin(Op::Add | Op::Sub | Op::Mul, ..)) || matches!(&e.k, Kind::Zx(x) | Kind::Sx(x) if x.w == 1) }
/// e as a sum of coefficient * term + constant (mod 2^w)
pub struct Sum { pub t: Vec<(E, u64)>, pub c: u64 }
const LINMAX: usize = 16;
impl Sum {
    fn put(&mut self, e: &E, c: u64) { for (x, k) in self.t.iter_mut() { if same(x, e) { *k = k.wrapping_add(c); return; } } self.t.push((e.clone(), c)); }
    fn add(&mut self, w: u8, e: &E, c: u64) -> bool {
        if self.t.len() > LINMAX { return false; }
        match &e.k {
            Kind::Const(k) => { self.c = self.c.wrapping_add(k.wrapping_mul(c)); true }
            Kind::Bin(Op::Add, a, b) => self.add(w, a, c) && self.add(w, b, c),
            Kind::Bin(Op::Sub, a, b) => self.add(w, a, c) && self.add(w, b, c.wrapping_neg()),
            Kind::Bin(Op::Mul, a, b) if is_const(b).is_some() => self.add(w, a, c.wrapping_mul(is_const(b).unwrap())),
            Kind::Zx(b) if b.w == 1 => { self.boolean(w, b, c); true }
            Kind::Sx(b) if b.w == 1 => { self.boolean(w, b, c.wrapping_neg()); true }
            _ => { self.put(e, c); true }
        }
    }
    fn boolean(&mut self, w: u8, b: &E, c: u64) {
        match &b.k {
            Kind::Bin(Op::Ule, x, y) => { self.c = self.c.wrapping_add(c); let n = node(1, Kind::Bin(Op::Ult, y.clone(), x.clone())); self.put(&node(w, Kind::Zx(n)), c.wrapping_neg()) }
            Kind::Not(n) => { self.c = self.c.wrapping_add(c); self.put(&node(w, Kind::Zx(n.clone())), c.wrapping_neg()) }
            _ => self.put(&node(w, Kind::Zx(b.clone())), c),
        }
    }
    fn tidy(&mut self, w: u8) { let m = mask(w); self.c &= m; for x in self.t.iter_mut() { x.1 &= m; } self.t.retain(|x| x.1 != 0); self.t.sort_by(|a, b| a.0.h.cmp(&b.0.h)); }
    fn build(&self, w: u8) -> V {
        let m = mask(w);
        let mut cur: Option<E> = None;
        let term = |e: &E, k: u64| if k == 1 { e.clone() } else { node(w, Kind::Bin(Op::Mul, e.clone(), konst(w, k))) };
        for (e, k) in &self.t { if *k >> (w - 1) == 0 { let x = term(e, *k); cur = Some(match cur { None => x, Some(c) => node(w, Kind::Bin(Op::Add, c, x)) }); } }
        for (e, k) in &self.t { if *k >> (w - 1) != 0 { let x = term(e, k.wrapping_neg() & m); cur = Some(match cur { None => node(w, Kind::Bin(Op::Sub, konst(w, self.c), x)), Some(c) => node(w, Kind::Bin(Op::Sub, c, x)) }); } }
        let nopos = self.t.iter().all(|x| x.1 >> (w - 1) != 0);
        match cur { None => V::C(self.c), Some(c) => if self.c == 0 || nopos { V::S(c) } else { V::S(node(w, Kind::Bin(Op::Add, c, konst(w, self.c)))) } }
    }
}
pub fn lin_of(w: u8, e: &E) -> Option<Sum> { let mut l = Sum { t: vec![], c: 0 }; if !l.add(w, e, 1) { return None; } l.tidy(w); Some(l) }
fn lin_bin(op: Op, w: u8, a: &V, b: &V) -> Option<V> {
    let mut l = Sum { t: vec![], c: 0 };
    let one = |l: &mut Sum, v: &V, c: u64| match v { V::C(k) => { l.c = l.c.wrapping_add(k.wrapping_mul(c)); true } V::S(e) => l.add(w, e, c) };
    if !one(&mut l, a, 1) || !one(&mut l, b, if op == Op::Sub { u64::MAX } else { 1 }) { return None; }
    l.tidy(w);
    if l.t.len() > LINMAX { return None; }
    Some(l.build(w))
}
fn lin_eq(w: u8, x: &E, y: &E) -> Option<V> {
    let mut l = Sum { t: vec![], c: 0 };
    if !l.add(w, x, 1) || !l.add(w, y, u64::MAX) { return None; }
    l.tidy(w);
    if l.t.is_empty() { return Some(V::C((l.c == 0) as u64)); }
    // x == zext(low bits of x): the high bits of x are zero
    for (e, k) in &l.t {
        if let (Kind::Zx(z), true) = (&e.k, *k == 1 || *k == mask(w)) {
            if let Kind::Ext(x, 0) = &z.k {
                if x.w != w { continue; }
                let mut d = Sum { t: l.t.clone(), c: l.c };
                d.put(e, k.wrapping_neg());
                if !d.add(w, x, *k) { continue; }
                d.tidy(w);
                if d.t.is_empty() && d.c == 0 { return Some(bin(Op::Eq, w - z.w, &extract(&V::S(x.clone()), z.w, w - z.w), &V::C(0))); }
            }
        }
    }
    if w == 64 && l.t.iter().any(|(e, _)| carry(e).is_some()) {
        let mut w2 = Wide::default();
        w2.high(&l);
        w2.tidy();
        if w2.t.is_empty() { return Some(V::C((w2.c == 0) as u64)); }
    }
    // positive part == negated negative part - constant
    let m = mask(w);
    let (p, n): (Vec<_>, Vec<_>) = l.t.into_iter().partition(|x| x.1 >> (w - 1) == 0);
    let n: Vec<_> = n.into_iter().map(|(e, k)| (e, k.wrapping_neg() & m)).collect();
    let (p, n, c) = if p.is_empty() { (n, p, l.c) } else { (p, n, l.c.wrapping_neg() & m) };
    let a = Sum { t: p, c: 0 }.build(w);
    let b = Sum { t: n, c }.build(w);
    match (&a, &b) {
        (V::S(e), V::C(c)) => Some(if matches!(e.k, Kind::Bin(Op::Add | Op::Sub, ..)) { V::S(node(1, Kind::Bin(Op::Eq, e.clone(), konst(w, *c)))) } else { eq_const(w, e, *c) }),
        (V::S(x), V::S(y)) => Some(if matches!(x.k, Kind::Bin(Op::Add | Op::Sub, ..)) || matches!(y.k, Kind::Bin(Op::Add | Op::Sub, ..)) { V::S(node(1, Kind::Bin(Op::Eq, x.clone(), y.clone()))) } else { bin(Op::Eq, w, &a, &b) }),
        _ => None,
    }
}
/// zext64(p <u q) as the operands of the comparison
fn carry(e: &E) -> Option<(E, E)> {
    if let Kind::Zx(b) = &e.k { if b.w == 1 && e.w == 64 { match &b.k {
        Kind::Bin(Op::Ult, p, q) if p.w == 64 => return Some((p.clone(), q.clone())),
        _ => {}
    } } }
    None
}
/// x == 0 inside a boolean: (1 - zext(0 <u x))
fn zero_test(e: &E) -> Option<E> {
    if let Kind::Zx(b) = &e.k { if let Kind::Bin(Op::Eq, x, z) = &b.k { if e.w == 64 && x.w == 64 && is_const(z) == Some(0) { return Some(x.clone()); } } }
    None
}
/// 128-bit linear form over words: hi (term << 64) and low (zero extended) atoms.
/// Uses zext(p <u q) << 64 == zx(p - q) - zx(p) + zx(q)  (mod 2^128).
#[derive(Default)]
pub struct Wide { pub t: Vec<(bool, E, u128)>, pub c: u128 }
impl Wide {
    fn put(&mut self, hi: bool, e: &E, c: u128) { for (h, x, k) in self.t.iter_mut() { if *h == hi && same(x, e) { *k = k.wrapping_add(c); return; } } self.t.push((hi, e.clone(), c)); }
    pub fn low(&mut self, v: &V, c: u128) { match v { V::C(k) => self.c = self.c.wrapping_add((*k as u128).wrapping_mul(c)), V::S(e) => {
        // a sum that cannot wrap is the sum of its parts
        if lin_shaped(e) { if let Some(l) = lin_of(64, e) {
            if let Some(k) = whole(64, &l) {
                self.c = self.c.wrapping_add((k as i128 as u128).wrapping_mul(c));
                for (t, k) in &l.t { self.put(false, t, (*k as i64 as i128 as u128).wrapping_mul(c)); }
                return;
            }
        } }
        self.put(false, e, c)
    } } }
    pub fn high(&mut self, l: &Sum) {
        self.c = self.c.wrapping_add((l.c as u128) << 64);
        for (e, k) in &l.t {
            let k = *k as i64 as i128 as u128;
            if let Some(x) = zero_test(e) {
                // zext(x == 0) = 1 - zext(0 <u x); zext(0 <u x) << 64 = zx(-x) + zx(x)
                self.c = self.c.wrapping_add(k << 64);
                self.low(&bin(Op::Sub, 64, &V::C(0), &V::S(x.clone())), k.wrapping_neg());
                self.low(&V::S(x), k.wrapping_neg());
            } else if let Some((p, q)) = carry(e) {
                let (p, q) = (from_e(p), from_e(q));
                self.low(&bin(Op::Sub, 64, &p, &q), k);
                self.low(&p, k.wrapping_neg());
                self.low(&q, k);
            } else { self.put(true, e, k); }
        }
    }
    pub fn tidy(&mut self) {
        for x in self.t.iter_mut() { if x.0 { x.2 = x.2 as u64 as i64 as i128 as u128; } }
        self.t.retain(|x| x.2 != 0);
    }
}
pub fn wide(h: &E, l: &E) -> Option<Wide> { let mut w = Wide::default(); w.high(&lin_of(64, h)?); w.low(&from_e(l.clone()), 1); w.tidy(); Some(w) }
/// x - y as a sum of words, where x == y is the same as the sum being 0
fn words(x: &E, y: &E) -> Option<Sum> {
    let up = |e: &E| to_e(64, &zext(64, &from_e(e.clone()), e.w));
    if x.w != 64 && !(x.w >= 32 && !lin_shaped(x) && !lin_shaped(y)) && !(matches!(x.k, Kind::Zx(_) | Kind::Sym(_)) && matches!(y.k, Kind::Zx(_) | Kind::Sym(_))) { return None; }
    let mut s = Sum { t: vec![], c: 0 };
    if s.add(64, &up(x), 1) && s.add(64, &up(y), u64::MAX) { s.tidy(64); Some(s) } else { None }
}
/// A word with carries, as the high word of a 128-bit sum.
pub fn hi_word(s: &Sum) -> Option<Wide> {
    if !has_carry(s) { return None; }
    let mut w = Wide::default();
    w.high(s);
    w.tidy();
    let at = w.t.iter().position(|(hi, e, k)| !hi && *k == u128::MAX && lin_shaped(e))?;
    let (_, low, _) = w.t.remove(at);
    if w.t.iter().any(|(hi, e, _)| !hi && lin_shaped(e)) { return None; }
    // the low words of both must agree
    let mut d = Sum { t: vec![], c: w.c as u64 };
    for (hi, e, k) in &w.t { if !hi { d.put(e, *k as u64); } }
    let l = lin_of(64, &low)?;
    d.c = d.c.wrapping_sub(l.c);
    for (e, k) in &l.t { d.put(e, k.wrapping_neg()); }
    d.tidy(64);
    if d.t.is_empty() && d.c == 0 { Some(w) } else { None }
}
pub fn hi_of(e: &E) -> Option<Wide> { if e.w != 64 || !lin_shaped(e) { return None; } hi_word(&lin_of(64, e)?) }
pub fn hi_diff(x: &E, y: &E) -> Option<Wide> { if x.w != 64 { return None; } hi_word(&words(x, y)?) }
fn has_carry(s: &Sum) -> bool { s.t.iter().any(|(e, _)| carry(e).is_some() || zero_test(e).is_some()) }
/// (hi == 0) & (lo < y), where hi has carries: (hi:lo) < (0:y)
fn less128(h: &E, l: &E) -> Option<V> {
    let hs = match &h.k { Kind::Bin(Op::Eq, x, y) => words(x, y)?, _ => return None };
    if !has_carry(&hs) { return None; }
    let (strict, lo, y) = match &l.k { Kind::Bin(Op::Ult, x, y) if x.w == 64 => (true, x.clone(), y.clone()), Kind::Bin(Op::Ule, x, y) if x.w == 64 => (false, x.clone(), y.clone()), _ => return None };
    for neg in [false, true] {
        let hf = if neg { Sum { t: hs.t.iter().map(|(e, k)| (e.clone(), k.wrapping_neg())).collect(), c: hs.c.wrapping_neg() } } else { Sum { t: hs.t.clone(), c: hs.c } };
        let mut w = Wide::default();
        w.high(&hf);
        w.low(&from_e(lo.clone()), 1);
        w.tidy();
        if w.t.iter().any(|(hi, e, _)| !hi && lin_shaped(e)) { continue; }
        return Some(V::S(node(1, Kind::Cmp128(strict, [to_e(64, &hf.build(64)), lo, konst(64, 0), y]))));
    }
    None
}
/// hi-word equality (with carries) and low-word equality together: one 128-bit equality
fn zero128(h: &E, l: &E) -> Option<V> {
    let side = |e: &E| match &e.k { Kind::Bin(Op::Eq, x, y) => words(x, y), _ => None };
    let hs = side(h)?;
    if !has_carry(&hs) { return None; }
    let ls = side(l)?;
    for neg in [false, true] {
        let flip = |s: &Sum| Sum { t: s.t.iter().map(|(e, k)| (e.clone(), k.wrapping_neg())).collect(), c: s.c.wrapping_neg() };
        let (l, hf) = (ls.build(64), if neg { flip(&hs) } else { Sum { t: hs.t.clone(), c: hs.c } });
        let mut w = Wide::default();
        w.high(&hf);
        w.low(&l, 1);
        w.tidy();
        if w.t.is_empty() { return Some(V::C((w.c == 0) as u64)); }
        if w.t.iter().any(|(hi, e, _)| !hi && lin_shaped(e)) { continue; }
        return Some(V::S(node(1, Kind::Zero128(to_e(64, &hf.build(64)), to_e(64, &l)))));
    }
    None
}
/// How two 128-bit values compare, if the bounds of their parts tell (less or greater).
fn order128(ah: &E, al: &E, bh: &E, bl: &E) -> Option<bool> {
    let (a, b) = (wide(ah, al)?, wide(bh, bl)?);
    let span = |w: &Wide| -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (w.c as i128, w.c as i128);
        for (h, e, k) in &w.t {
            let k = *k as i128;
            if k.abs() >= 1 << 16 || (*h && e.max >= 1 << 60) { return None; }
            let s = if *h { 64 } else { 0 };
            let (x, y) = ((e.min as i128) << s, (e.max as i128) << s);
            if k >= 0 { lo = lo.checked_add(k.checked_mul(x)?)?; hi = hi.checked_add(k.checked_mul(y)?)?; } else { lo = lo.checked_add(k.checked_mul(y)?)?; hi = hi.checked_add(k.checked_mul(x)?)?; }
        }
        Some((lo, hi))
    };
    // each is what it is as an integer (at most 2^127 - 1)
    if span(&a)?.0 < 0 || span(&b)?.0 < 0 { return None; }
    let mut d = a;
    d.c = d.c.wrapping_sub(b.c);
    for (h, e, k) in &b.t { d.put(*h, e, k.wrapping_neg()); }
    d.tidy();
    let (lo, hi) = span(&d)?;
    if hi < 0 { Some(true) } else if lo > 0 { Some(false) } else { None }
}
fn cmp128(c: &E, a: &E, b: &E) -> Option<V> {
    let (bh, ah) = match &b.k { Kind::Bin(Op::Ult | Op::Ule, x, y) if x.w == 64 => (y, x), _ => return None };
    match bin(Op::Eq, 64, &from_e(ah.clone()), &from_e(bh.clone())) { V::S(e) if same(&e, c) => {} _ => return None }
    let z = || konst(64, 0);
    let (strict, al, bl) = match &a.k {
        Kind::Bin(Op::Ult, x, y) if x.w == 64 => (true, x.clone(), y.clone()),
        Kind::Bin(Op::Ule, x, y) if x.w == 64 => (false, x.clone(), y.clone()),
        Kind::Bin(Op::Eq, x, y) if x.w == 64 && is_const(y) == Some(0) => (false, x.clone(), z()),
        Kind::Not(n) => match &n.k { Kind::Bin(Op::Eq, x, y) if x.w == 64 && is_const(y) == Some(0) => (true, z(), x.clone()), _ => return None },
        _ => return None,
    };
    if let Some(r) = order128(&ah, &al, &bh, &bl) { return Some(V::C(r as u64)); }
    Some(V::S(node(1, Kind::Cmp128(strict, [ah.clone(), al, bh.clone(), bl]))))
}
fn eq_const(w: u8, e: &E, c: u64) -> V {
    if w == 1 { return if c == 1 { V::S(e.clone()) } else { not(V::S(e.clone())) }; }
    match &e.k {
        Kind::Zx(x) => { if c > mask(x.w) { return V::C(0); } return eq_const(x.w, x, c); }
        Kind::Sx(x) => {
            let low = c & mask(x.w);
            if sext_c(x.w, low) as u64 & mask(w) != c { return V::C(0); }
            return eq_const(x.w, x, low);
        }
        Kind::Cat(h, l) => {
            let hc = c >> l.w; let lc = c & mask(l.w);
            let a = match is_const(h) { Some(k) => V::C((k == hc) as u64), None => eq_const(h.w, h, hc) };
            if let V::C(0) = a { return a; }
            let b = match is_const(l) { Some(k) => V::C((k == lc) as u64), None => eq_const(l.w, l, lc) };
            return bin(Op::And, 1, &a, &b);
        }
        Kind::Ite(g, a, b) => {
            if is_const(a).is_some() || is_const(b).is_some() || c == 0 {
                let f = |x: &E| match is_const(x) { Some(k) => V::C((k == c) as u64), None => eq_const(w, x, c) };
                return ite(1, &V::S(g.clone()), &f(a), &f(b));
            }
        }
        Kind::Bin(Op::Xor, a, b) if c == 0 => return bin(Op::Eq, w, &from_e(a.clone()), &from_e(b.clone())),
        Kind::Bin(Op::Sub, a, b) if c == 0 => return bin(Op::Eq, w, &from_e(a.clone()), &from_e(b.clone())),
        Kind::Bin(Op::Xor, a, b) => if let Some(k) = is_const(b) { return eq_const(w, a, k ^ c); },
        Kind::Bin(Op::Or, a, b) if c == 0 => {
            let f = |x: &E| match is_const(x) { Some(k) => V::C((k == 0) as u64), None => eq_const(w, x, 0) };
            return bin(Op::And, 1, &f(a), &f(b));
        }
        Kind::Bin(Op::Add, a, b) => if let Some(k) = is_const(b) { return eq_const(w, a, c.wrapping_sub(k) & mask(w)); },
        _ => {}
    }
    V::S(node(1, Kind::Bin(Op::Eq, e.clone(), konst(w, c))))
}

pub fn eval(e: &E, m: &[u64], memo: &mut HashMap<u64, u64>) -> u64 {
    match &e.k {
        Kind::Const(c) => return *c,
        Kind::Sym(s) => return m.get(*s as usize).copied().unwrap_or(0) & mask(e.w),
        _ => {}
    }
    if let Some(v) = memo.get(&e.id) { return *v; }
    let r = match &e.k {
        Kind::Not(a) => eval(a, m, memo) ^ 1,
        Kind::Bin(op, a, b) => { let x = eval(a, m, memo); let y = eval(b, m, memo); fold(*op, a.w, x, y) }
        Kind::Ite(c, a, b) => if eval(c, m, memo) == 1 { eval(a, m, memo) } else { eval(b, m, memo) },
        Kind::Ext(a, lo) => (eval(a, m, memo) >> lo) & mask(e.w),
        Kind::Cat(h, l) => (eval(h, m, memo) << l.w) | eval(l, m, memo),
        Kind::Zx(a) => eval(a, m, memo),
        Kind::Sx(a) => sext_c(a.w, eval(a, m, memo)) as u64 & mask(e.w),
        Kind::Zero128(a, b) => (eval(a, m, memo) == 0 && eval(b, m, memo) == 0) as u64,
        Kind::Cmp128(s, v) => {
            let x: Vec<u128> = v.iter().map(|e| eval(e, m, memo) as u128).collect();
            let (a, b) = (x[0] << 64 | x[1], x[2] << 64 | x[3]);
            (if *s { a < b } else { a <= b }) as u64
        }
        _ => unreachable!(),
    };
    memo.insert(e.id, r);
    r
}
