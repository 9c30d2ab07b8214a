//! Copy-on-write byte memory; every byte is concrete or byte i of an expression.
use crate::expr::*;
use std::collections::HashMap;
use std::sync::Arc;
pub const PS: usize = 4096;
#[derive(Clone)]
pub struct Page { pub c: [u8; PS], pub s: Option<Box<HashMap<u16, (E, u8)>>> }
#[derive(Clone, Debug)]
pub enum B { C(u8), S(E, u8) }
pub fn zero_page() -> Arc<Page> { Arc::new(Page { c: [0; PS], s: None }) }
impl Page {
    fn get(&self, o: usize) -> B {
        if let Some(s) = &self.s { if let Some((e, i)) = s.get(&(o as u16)) { return B::S(e.clone(), *i); } }
        B::C(self.c[o])
    }
    fn set(&mut self, o: usize, b: B) {
        match b {
            B::C(c) => { self.c[o] = c; if let Some(s) = &mut self.s { s.remove(&(o as u16)); if s.is_empty() { self.s = None; } } }
            B::S(e, i) => { self.s.get_or_insert_with(Default::default).insert(o as u16, (e, i)); }
        }
    }
}
/// assemble little-endian bytes into a value of width 8*n
pub fn join(bs: &[B]) -> V {
    let mut i = 0;
    let mut cur = V::C(0);
    let mut w = 0u8;
    while i < bs.len() {
        let (p, n) = match &bs[i] {
            B::C(_) => {
                let mut j = i;
                let mut v = 0u64;
                while j < bs.len() { if let B::C(x) = &bs[j] { v |= (*x as u64) << (8 * (j - i)); j += 1; } else { break; } }
                (V::C(v), j - i)
            }
            B::S(e, k) => {
                let mut j = i + 1;
                while j < bs.len() { match &bs[j] { B::S(e2, k2) if Arc::ptr_eq(e, e2) && *k2 as usize == *k as usize + (j - i) => j += 1, _ => break } }
                (extract(&V::S(e.clone()), k * 8, ((j - i) * 8) as u8), j - i)
            }
        };
        let pw = (n * 8) as u8;
        cur = if w == 0 { p } else { concat(&p, pw, &cur, w) };
        w += pw;
        i += n;
    }
    cur
}
pub fn split(v: &V, n: usize) -> Vec<B> {
    match v {
        V::C(c) => (0..n).map(|i| B::C((c >> (8 * i)) as u8)).collect(),
        V::S(e) => {
            // break concatenations with constant parts up so that constants stay concrete
            let mut out = Vec::with_capacity(n);
            for i in 0..n {
                match &e.k {
                    Kind::Cat(..) | Kind::Zx(_) => match extract(v, (8 * i) as u8, 8) {
                        V::C(c) => out.push(B::C(c as u8)),
                        V::S(_) => out.push(B::S(e.clone(), i as u8)),
                    },
                    _ => out.push(B::S(e.clone(), i as u8)),
                }
            }
            out
        }
    }
}
#[derive(Clone)]
pub struct Lin { pub pages: Vec<Arc<Page>> }
impl Lin {
    pub fn new(bytes: usize) -> Lin { let z = zero_page(); Lin { pages: vec![z; bytes / PS] } }
    pub fn len(&self) -> u64 { (self.pages.len() * PS) as u64 }
    #[inline]
    pub fn load(&self, a: u64, n: usize) -> Option<V> {
        let (p, o) = (a as usize / PS, a as usize % PS);
        if o + n <= PS {
            let pg = self.pages.get(p)?;
            if pg.s.is_none() {
                let b = &pg.c[o..o + n];
                return Some(V::C(match n { 1 => b[0] as u64, 2 => u16::from_le_bytes([b[0], b[1]]) as u64, 4 => u32::from_le_bytes(b.try_into().unwrap()) as u64, _ => u64::from_le_bytes(b.try_into().unwrap()) }));
            }
        }
        if a + n as u64 > self.len() { return None; }
        let bs: Vec<B> = (0..n).map(|i| self.get(a + i as u64)).collect();
        Some(join(&bs))
    }
    #[inline]
    pub fn store(&mut self, a: u64, n: usize, v: &V) -> bool {
        if a + n as u64 > self.len() { return false; }
        let (p, o) = (a as usize / PS, a as usize % PS);
        if let V::C(c) = v {
            if o + n <= PS {
                let pg = Arc::make_mut(&mut self.pages[p]);
                if pg.s.is_none() {
                    match n { 1 => pg.c[o] = *c as u8, 2 => pg.c[o..o + 2].copy_from_slice(&(*c as u16).to_le_bytes()), 4 => pg.c[o..o + 4].copy_from_slice(&(*c as u32).to_le_bytes()), _ => pg.c[o..o + 8].copy_from_slice(&c.to_le_bytes()) }
                    return true;
                }
            }
        }
        for (i, b) in split(v, n).into_iter().enumerate() { self.set(a + i as u64, b); }
        true
    }
    pub fn get(&self, a: u64) -> B { self.pages[a as usize / PS].get(a as usize % PS) }
    pub fn set(&mut self, a: u64, b: B) { Arc::make_mut(&mut self.pages[a as usize / PS]).set(a as usize % PS, b) }
    pub fn read(&self, a: u64, n: u64) -> Option<Vec<B>> {
        if a + n > self.len() { return None; }
        Some((a..a + n).map(|i| self.get(i)).collect())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> bool {
        if d + n > self.len() || s + n > self.len() { return false; }
        if n == 0 || d == s { return true; }
        let back = d > s;
        let mut left = n;
        // chunk so that neither side crosses a page; go backwards when overlapping upwards
        while left > 0 {
            let (so, dof) = if back { (s + left, d + left) } else { (s + n - left, d + n - left) };
            let room = |x: u64| if back { let r = x % PS as u64; if r == 0 { PS as u64 } else { r } } else { PS as u64 - x % PS as u64 };
            let k = left.min(room(so)).min(room(dof));
            let (sa, da) = if back { (so - k, dof - k) } else { (so, dof) };
            let sp = self.pages[sa as usize / PS].clone();
            let (o1, o2) = (sa as usize % PS, da as usize % PS);
            let dp = Arc::make_mut(&mut self.pages[da as usize / PS]);
            if sp.s.is_none() && dp.s.is_none() { dp.c[o2..o2 + k as usize].copy_from_slice(&sp.c[o1..o1 + k as usize]); }
            else { for i in 0..k as usize { let b = sp.get(o1 + i); dp.set(o2 + i, b); } }
            left -= k;
        }
        true
    }
    pub fn fill(&mut self, d: u64, v: B, n: u64) -> bool {
        if d + n > self.len() { return false; }
        let mut i = 0;
        while i < n {
            let a = d + i;
            let o = a as usize % PS;
            let k = (n - i).min((PS - o) as u64);
            let dp = Arc::make_mut(&mut self.pages[a as usize / PS]);
            match &v { B::C(c) if dp.s.is_none() => dp.c[o..o + k as usize].fill(*c), _ => for j in 0..k as usize { dp.set(o + j, v.clone()); } }
            i += k;
        }
        true
    }
}
#[derive(Clone)]
pub struct Sparse { pub pages: Arc<HashMap<u64, Arc<Page>>>, pub size: u64 }
impl Sparse {
    pub fn new() -> Sparse { Sparse { pages: Arc::new(HashMap::new()), size: 0 } }
    pub fn get(&self, a: u64) -> B { match self.pages.get(&(a / PS as u64)) { Some(p) => p.get(a as usize % PS), None => B::C(0) } }
    /// stable -> linear
    pub fn to_lin(&self, off: u64, lin: &mut Lin, dst: u64, n: u64) -> bool {
        if off.checked_add(n).map_or(true, |e| e > self.size * 65536) || dst + n > lin.len() { return false; }
        let mut i = 0;
        while i < n {
            let (sa, da) = (off + i, dst + i);
            let k = (n - i).min(PS as u64 - sa % PS as u64).min(PS as u64 - da % PS as u64);
            let (o1, o2) = (sa as usize % PS, da as usize % PS);
            let dp = Arc::make_mut(&mut lin.pages[da as usize / PS]);
            match self.pages.get(&(sa / PS as u64)) {
                None => if dp.s.is_none() { dp.c[o2..o2 + k as usize].fill(0) } else { for j in 0..k as usize { dp.set(o2 + j, B::C(0)); } },
                Some(sp) => if sp.s.is_none() && dp.s.is_none() { dp.c[o2..o2 + k as usize].copy_from_slice(&sp.c[o1..o1 + k as usize]) } else { for j in 0..k as usize { dp.set(o2 + j, sp.get(o1 + j)); } },
            }
            i += k;
        }
        true
    }
    pub fn from_lin(&mut self, off: u64, lin: &Lin, src: u64, n: u64) -> bool {
        if off.checked_add(n).map_or(true, |e| e > self.size * 65536) || src + n > lin.len() { return false; }
        let pages = Arc::make_mut(&mut self.pages);
        let mut i = 0;
        while i < n {
            let (da, sa) = (off + i, src + i);
            let k = (n - i).min(PS as u64 - sa % PS as u64).min(PS as u64 - da % PS as u64);
            let (o1, o2) = (sa as usize % PS, da as usize % PS);
            let dp = Arc::make_mut(pages.entry(da / PS as u64).or_insert_with(zero_page));
            let sp = &lin.pages[sa as usize / PS];
            if sp.s.is_none() && dp.s.is_none() { dp.c[o2..o2 + k as usize].copy_from_slice(&sp.c[o1..o1 + k as usize]); } else { for j in 0..k as usize { dp.set(o2 + j, sp.get(o1 + j)); } }
            i += k;
        }
        true
    }
}
