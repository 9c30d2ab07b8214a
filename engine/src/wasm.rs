//! Wasm binary parser and compiler to a flat internal code.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct FuncType { pub params: Vec<u8>, pub results: Vec<u8> }

#[derive(Clone, Copy, Debug)]
pub struct Target { pub pc: u32, pub height: u32, pub arity: u8 }

#[derive(Clone, Copy, Debug)]
pub enum I {
    Unreachable,
    Br(Target),
    BrIf(Target),
    BrUnless(u32), // `if`: jump to pc when zero, nothing to drop
    BrTable(u32),
    Return,
    Call(u32),
    CallIndirect(u32),
    Drop,
    Select(u8),
    LocalGet(u32), LocalSet(u32), LocalTee(u32),
    GlobalGet(u32), GlobalSet(u32),
    Const(u64),
    Load { off: u32, n: u8, w: u8, sx: bool },
    Store { off: u32, n: u8 },
    MemSize, MemGrow, MemCopy, MemFill,
    Eqz(u8),
    Cmp(u8, u8),   // op, width
    Arith(u8, u8), // op, width
    Cnt(u8, u8),   // clz/ctz/popcnt, width
    Wrap, ExtS, ExtU, SxN(u8, u8),
    Float(u8),
    FloatTrunc(u8),
}
pub struct Func { pub ty: usize, pub nlocals: u32, pub nparams: u32, pub nres: u8, pub code: Vec<I> }
pub struct Import { pub module: String, pub name: String, pub ty: usize }
pub struct Module {
    pub types: Vec<FuncType>,
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>,
    pub ftypes: Vec<usize>,
    pub tables: Vec<Vec<u64>>,
    pub br_tables: Vec<Vec<Target>>,
    pub mem_min: u32,
    pub globals: Vec<u64>,
    pub gtypes: Vec<u8>,
    pub exports: HashMap<String, u32>,
    pub global_exports: HashMap<String, u32>,
    pub data: Vec<(u32, Vec<u8>)>,
    pub names: HashMap<u32, String>,
}
struct R<'a> { b: &'a [u8], p: usize }
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 { self.p += 1; self.b[self.p - 1] }
    fn u(&mut self) -> u64 { let mut r = 0u64; let mut s = 0; loop { let x = self.u8(); r |= ((x & 0x7f) as u64) << s; s += 7; if x & 0x80 == 0 { return r; } } }
    fn s(&mut self) -> i64 { let mut r = 0i64; let mut s = 0; loop { let x = self.u8(); if s < 64 { r |= ((x & 0x7f) as i64) << s; } s += 7; if x & 0x80 == 0 { if s < 64 && x & 0x40 != 0 { r |= -1i64 << s; } return r; } } }
    fn bytes(&mut self, n: usize) -> &'a [u8] { self.p += n; &self.b[self.p - n..self.p] }
    fn name(&mut self) -> String { let n = self.u() as usize; String::from_utf8_lossy(self.bytes(n)).into_owned() }
    fn limits(&mut self) -> u64 { let f = self.u8(); let m = self.u(); if f & 1 == 1 { self.u(); } m }
    fn konst(&mut self, globals: &[u64]) -> u64 {
        let mut v = 0;
        loop { match self.u8() { 0x41 => v = self.s() as u32 as u64, 0x42 => v = self.s() as u64, 0x43 => v = u32::from_le_bytes(self.bytes(4).try_into().unwrap()) as u64, 0x44 => v = u64::from_le_bytes(self.bytes(8).try_into().unwrap()), 0x23 => v = globals[self.u() as usize], 0xd2 => v = self.u(), 0xd0 => { self.u8(); v = u64::MAX; } 0x0b => return v, o => panic!("const expr op {o:x}") } }
    }
}
pub fn parse(b: &[u8]) -> Module {
    assert_eq!(&b[..8], b"\0asm\x01\0\0\0");
    let mut r = R { b, p: 8 };
    let mut m = Module { types: vec![], imports: vec![], funcs: vec![], ftypes: vec![], tables: vec![], br_tables: vec![], mem_min: 0, globals: vec![], gtypes: vec![], exports: HashMap::new(), global_exports: HashMap::new(), data: vec![], names: HashMap::new() };
    let mut decl = vec![];
    while r.p < b.len() {
        let id = r.u8();
        let n = r.u() as usize;
        let end = r.p + n;
        match id {
            0 => {
                let nm = r.name();
                if nm == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sn = r.u() as usize;
                        let e2 = r.p + sn;
                        if sid == 1 { for _ in 0..r.u() { let i = r.u() as u32; let s = r.name(); m.names.insert(i, s); } }
                        r.p = e2;
                    }
                }
            }
            1 => for _ in 0..r.u() {
                assert_eq!(r.u8(), 0x60);
                let np = r.u() as usize; let params = r.bytes(np).to_vec();
                let nr = r.u() as usize; let results = r.bytes(nr).to_vec();
                m.types.push(FuncType { params, results });
            },
            2 => for _ in 0..r.u() {
                let module = r.name(); let name = r.name();
                match r.u8() { 0 => { let ty = r.u() as usize; m.imports.push(Import { module, name, ty }); m.ftypes.push(ty); } k => panic!("import kind {k} {module}.{name}") }
            },
            3 => for _ in 0..r.u() { let t = r.u() as usize; decl.push(t); m.ftypes.push(t); },
            4 => for _ in 0..r.u() { r.u8(); let n = r.limits(); m.tables.push(vec![u64::MAX; n as usize]); },
            5 => for _ in 0..r.u() { m.mem_min = r.limits() as u32; },
            6 => for _ in 0..r.u() { let t = r.u8(); m.gtypes.push(t); r.u8(); let g = m.globals.clone(); let v = r.konst(&g); m.globals.push(v); },
            7 => for _ in 0..r.u() { let nm = r.name(); let k = r.u8(); let i = r.u() as u32; if k == 0 { m.exports.insert(nm, i); } else if k == 3 { m.global_exports.insert(nm, i); } },
            9 => for _ in 0..r.u() {
                let f = r.u();
                assert!(f == 0, "element segment kind {f}");
                let off = r.konst(&m.globals) as usize;
                for i in 0..r.u() as usize { m.tables[0][off + i] = r.u(); }
            },
            10 => { let n = r.u() as usize; for i in 0..n {
                let sz = r.u() as usize; let e2 = r.p + sz;
                let f = compile(&mut r, &mut m, decl[i]);
                m.funcs.push(f);
                assert_eq!(r.p, e2);
            } }
            11 => for _ in 0..r.u() {
                let f = r.u();
                assert!(f == 0, "data segment kind {f}");
                let off = r.konst(&m.globals) as u32; let n = r.u() as usize;
                m.data.push((off, r.bytes(n).to_vec()));
            },
            _ => {}
        }
        r.p = end;
    }
    m
}

struct Ctl { loop_pc: Option<u32>, height: u32, params: Vec<u8>, res: Vec<u8>, fix: Vec<usize>, tfix: Vec<(usize, usize)>, else_fix: Option<usize>, dead: bool }
const I32: u8 = 0x7f; const I64: u8 = 0x7e; const F32: u8 = 0x7d; const F64: u8 = 0x7c;

fn compile(r: &mut R, m: &mut Module, ty: usize) -> Func {
    let ft = m.types[ty].clone();
    let nparams = ft.params.len() as u32;
    let nres = ft.results.len() as u8;
    let mut locals = ft.params.clone();
    for _ in 0..r.u() { let n = r.u() as usize; let t = r.u8(); locals.extend(std::iter::repeat(t).take(n)); }
    let nlocals = locals.len() as u32;
    let mut code: Vec<I> = vec![];
    let mut st: Vec<u8> = vec![];
    let mut dead = false;
    let mut ctl = vec![Ctl { loop_pc: None, height: 0, params: vec![], res: ft.results.clone(), fix: vec![], tfix: vec![], else_fix: None, dead: false }];
    fn target(ctl: &mut [Ctl], d: usize, at: usize) -> Target {
        let n = ctl.len();
        let c = &mut ctl[n - 1 - d];
        match c.loop_pc {
            Some(pc) => Target { pc, height: c.height, arity: c.params.len() as u8 },
            None => { c.fix.push(at); Target { pc: u32::MAX, height: c.height, arity: c.res.len() as u8 } }
        }
    }
    // emit instruction, popping n operands and pushing the given types
    macro_rules! emit { ($x:expr, $n:expr, $($t:expr),*) => { if !dead { code.push($x); for _ in 0..$n { st.pop().unwrap(); } $( st.push($t); )* } } }
    loop {
        let op = r.u8();
        match op {
            0x00 => { emit!(I::Unreachable, 0,); dead = true; }
            0x01 => {}
            0x02 | 0x03 | 0x04 => {
                let bt = r.s();
                let (params, res) = if bt >= 0 { let t = &m.types[bt as usize]; (t.params.clone(), t.results.clone()) } else if bt == -64 { (vec![], vec![]) } else { (vec![], vec![(bt & 0x7f) as u8]) };
                let mut c = Ctl { loop_pc: None, height: 0, params, res, fix: vec![], tfix: vec![], else_fix: None, dead };
                if !dead {
                    if op == 0x04 { st.pop(); c.else_fix = Some(code.len()); code.push(I::BrUnless(u32::MAX)); }
                    c.height = (st.len() - c.params.len()) as u32;
                }
                if op == 0x03 { c.loop_pc = Some(code.len() as u32); }
                ctl.push(c);
            }
            0x05 => {
                let n = ctl.len();
                if !ctl[n - 1].dead {
                    if !dead { let at = code.len(); let t = target(&mut ctl, 0, at); code.push(I::Br(t)); }
                    let e = ctl[n - 1].else_fix.take().unwrap();
                    code[e] = I::BrUnless(code.len() as u32);
                    st.truncate(ctl[n - 1].height as usize);
                    st.extend(ctl[n - 1].params.iter());
                    dead = false;
                }
            }
            0x0b => {
                let c = ctl.pop().unwrap();
                let pc = code.len() as u32;
                if let Some(e) = c.else_fix { code[e] = I::BrUnless(pc); }
                for f in c.fix { match &mut code[f] { I::Br(t) | I::BrIf(t) => t.pc = pc, x => panic!("fix {x:?}") } }
                for (t, i) in c.tfix { m.br_tables[t][i].pc = pc; }
                if ctl.is_empty() { code.push(I::Return); break; }
                dead = c.dead;
                if !dead { st.truncate(c.height as usize); st.extend(c.res.iter()); }
            }
            0x0c => { let d = r.u() as usize; if !dead { let at = code.len(); let t = target(&mut ctl, d, at); code.push(I::Br(t)); dead = true; } }
            0x0d => { let d = r.u() as usize; if !dead { st.pop(); let at = code.len(); let t = target(&mut ctl, d, at); code.push(I::BrIf(t)); } }
            0x0e => {
                let n = r.u() as usize;
                let ds: Vec<usize> = (0..=n).map(|_| r.u() as usize).collect();
                if !dead {
                    st.pop();
                    let ti = m.br_tables.len();
                    let mut tb = vec![];
                    for (i, d) in ds.iter().enumerate() {
                        let l = ctl.len();
                        let c = &mut ctl[l - 1 - d];
                        tb.push(match c.loop_pc { Some(pc) => Target { pc, height: c.height, arity: c.params.len() as u8 }, None => { c.tfix.push((ti, i)); Target { pc: u32::MAX, height: c.height, arity: c.res.len() as u8 } } });
                    }
                    m.br_tables.push(tb);
                    code.push(I::BrTable(ti as u32));
                    dead = true;
                }
            }
            0x0f => { emit!(I::Return, 0,); dead = true; }
            0x10 => { let f = r.u() as u32; if !dead { let t = m.types[m.ftypes[f as usize]].clone(); emit!(I::Call(f), t.params.len(),); st.extend(t.results); } }
            0x11 => { let t = r.u() as u32; r.u(); if !dead { let ft = m.types[t as usize].clone(); emit!(I::CallIndirect(t), ft.params.len() + 1,); st.extend(ft.results); } }
            0x1a => emit!(I::Drop, 1,),
            0x1b | 0x1c => { if op == 0x1c { for _ in 0..r.u() { r.u8(); } } if !dead { let t = st[st.len() - 2]; let w = if t == I32 || t == F32 { 32 } else { 64 }; emit!(I::Select(w), 3, t); } }
            0x20 => { let i = r.u() as u32; emit!(I::LocalGet(i), 0, locals[i as usize]); }
            0x21 => { let i = r.u() as u32; emit!(I::LocalSet(i), 1,); }
            0x22 => { let i = r.u() as u32; emit!(I::LocalTee(i), 0,); }
            0x23 => { let i = r.u() as u32; emit!(I::GlobalGet(i), 0, m.gtypes[i as usize]); }
            0x24 => { let i = r.u() as u32; emit!(I::GlobalSet(i), 1,); }
            0x28..=0x35 => {
                r.u(); let off = r.u() as u32;
                let (n, w, sx) = match op { 0x28 => (4, 32, false), 0x29 => (8, 64, false), 0x2a => (4, 32, false), 0x2b => (8, 64, false), 0x2c => (1, 32, true), 0x2d => (1, 32, false), 0x2e => (2, 32, true), 0x2f => (2, 32, false), 0x30 => (1, 64, true), 0x31 => (1, 64, false), 0x32 => (2, 64, true), 0x33 => (2, 64, false), 0x34 => (4, 64, true), _ => (4, 64, false) };
                let t = match op { 0x2a => F32, 0x2b => F64, _ => if w == 32 { I32 } else { I64 } };
                emit!(I::Load { off, n, w, sx }, 1, t);
            }
            0x36..=0x3e => {
                r.u(); let off = r.u() as u32;
                let n = match op { 0x36 => 4, 0x37 => 8, 0x38 => 4, 0x39 => 8, 0x3a => 1, 0x3b => 2, 0x3c => 1, 0x3d => 2, _ => 4 };
                emit!(I::Store { off, n }, 2,);
            }
            0x3f => { r.u8(); emit!(I::MemSize, 0, I32); }
            0x40 => { r.u8(); emit!(I::MemGrow, 1, I32); }
            0x41 => { let v = r.s() as u32 as u64; emit!(I::Const(v), 0, I32); }
            0x42 => { let v = r.s() as u64; emit!(I::Const(v), 0, I64); }
            0x43 => { let v = u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64; emit!(I::Const(v), 0, F32); }
            0x44 => { let v = u64::from_le_bytes(r.bytes(8).try_into().unwrap()); emit!(I::Const(v), 0, F64); }
            0x45 => emit!(I::Eqz(32), 1, I32),
            0x46..=0x4f => emit!(I::Cmp(op - 0x46, 32), 2, I32),
            0x50 => emit!(I::Eqz(64), 1, I32),
            0x51..=0x5a => emit!(I::Cmp(op - 0x51, 64), 2, I32),
            0x5b..=0x66 => emit!(I::Float(op), 2, I32),
            0x67..=0x69 => emit!(I::Cnt(op - 0x67, 32), 1, I32),
            0x6a..=0x78 => emit!(I::Arith(op - 0x6a, 32), 2, I32),
            0x79..=0x7b => emit!(I::Cnt(op - 0x79, 64), 1, I64),
            0x7c..=0x8a => emit!(I::Arith(op - 0x7c, 64), 2, I64),
            0x8b..=0x91 => emit!(I::Float(op), 1, F32),
            0x99..=0x9f => emit!(I::Float(op), 1, F64),
            0x92..=0x98 => emit!(I::Float(op), 2, F32),
            0xa0..=0xa6 => emit!(I::Float(op), 2, F64),
            0xa7 => emit!(I::Wrap, 1, I32),
            0xac => emit!(I::ExtS, 1, I64),
            0xad => emit!(I::ExtU, 1, I64),
            0xbc..=0xbf => { if !dead { st.pop(); st.push([I32, I64, F32, F64][op as usize - 0xbc]); } } // reinterpret: bits are bits
            0xa8..=0xab => emit!(I::Float(op), 1, I32),
            0xae..=0xb1 => emit!(I::Float(op), 1, I64),
            0xb2..=0xb6 => emit!(I::Float(op), 1, F32),
            0xb7..=0xbb => emit!(I::Float(op), 1, F64),
            0xc0 => emit!(I::SxN(8, 32), 1, I32),
            0xc1 => emit!(I::SxN(16, 32), 1, I32),
            0xc2 => emit!(I::SxN(8, 64), 1, I64),
            0xc3 => emit!(I::SxN(16, 64), 1, I64),
            0xc4 => emit!(I::SxN(32, 64), 1, I64),
            0xfc => match r.u() {
                k @ 0..=7 => emit!(I::FloatTrunc(k as u8), 1, if k < 4 { I32 } else { I64 }),
                10 => { r.u8(); r.u8(); emit!(I::MemCopy, 3,); }
                11 => { r.u8(); emit!(I::MemFill, 3,); }
                k => panic!("0xfc {k}"),
            },
            _ => panic!("opcode {op:x}"),
        }
    }
    Func { ty, nlocals, nparams, nres, code }
}
