//! Primitives offered by the symbolic executor (and, with concrete values, by the replayer).
#[link(wasm_import_module = "verif")]
extern "C" {
    #[link_name = "sym"] fn h_sym(p: *const u8, n: usize, bits: u32) -> u64;
    #[link_name = "ranged"] fn h_ranged(p: *const u8, n: usize, bits: u32, lo: u64, hi: u64) -> u64;
    #[link_name = "choose"] fn h_choose(n: u32) -> u32;
    #[link_name = "assume"] fn h_assume(c: u32);
    #[link_name = "check"] fn h_check(c: u32, p: *const u8, n: usize);
    #[link_name = "cover"] fn h_cover(p: *const u8, n: usize);
    #[link_name = "trap_policy"] fn h_trap_policy(mode: u32, p: *const u8, n: usize);
    #[link_name = "scratch_set"] fn h_scratch_set(k: u32, v: u64);
    #[link_name = "scratch_get"] fn h_scratch_get(k: u32) -> u64;
    #[link_name = "flag"] fn h_flag(k: u32, v: u32);
    #[link_name = "done"] fn h_done();
    #[link_name = "log"] fn h_log(p: *const u8, n: usize, v: u64);
    #[link_name = "concrete"] fn h_concrete(v: u64) -> u64;
    #[link_name = "fixed"] fn h_fixed(v: u64) -> u32;
}
pub fn bits(name: &str, w: u32) -> u64 { unsafe { h_sym(name.as_ptr(), name.len(), w) } }
/// any value in [lo, hi] (hi of at most w bits)
pub fn ranged(name: &str, w: u32, lo: u64, hi: u64) -> u64 { unsafe { h_ranged(name.as_ptr(), name.len(), w, lo, hi) } }
pub fn u8(name: &str) -> u8 { bits(name, 8) as u8 }
pub fn u64(name: &str) -> u64 { bits(name, 64) }
pub fn u128(name: &str) -> u128 { let lo = bits(name, 64) as u128; let hi = bits(name, 64) as u128; (hi << 64) | lo }
pub fn arr<const N: usize>(name: &str) -> [u8; N] { let mut a = [0u8; N]; for x in a.iter_mut() { *x = u8(name); } a }
/// one path per alternative
pub fn choose(n: u32) -> u32 { unsafe { h_choose(n) } }
pub fn coin() -> bool { choose(2) == 1 }
pub fn assume(c: bool) { unsafe { h_assume(c as u32) } }
pub fn check(c: bool, id: &str) { unsafe { h_check(c as u32, id.as_ptr(), id.len()) } }
pub fn cover(id: &str) { unsafe { h_cover(id.as_ptr(), id.len()) } }
/// From here on a trap ends the message without effect (the system rolls it back), which is fine.
pub fn traps_roll_back() { unsafe { h_trap_policy(0, "".as_ptr(), 0) } }
/// From here on a trap is a violation.
pub fn traps_are_violations(id: &str) { unsafe { h_trap_policy(1, id.as_ptr(), id.len()) } }
pub fn put(k: u32, v: u64) { unsafe { h_scratch_set(k, v) } }
pub fn get(k: u32) -> u64 { unsafe { h_scratch_get(k) } }
pub fn put128(k: u32, v: u128) { put(k, v as u64); put(k + 1, (v >> 64) as u64); }
pub fn get128(k: u32) -> u128 { get(k) as u128 | (get(k + 1) as u128) << 64 }
/// switch real text formatting on (it is cut by default)
pub fn formatting(on: bool) { unsafe { h_flag(1, !on as u32) } }
pub fn done() -> ! { unsafe { h_done() } loop {} }
pub fn log(s: &str, v: u64) { unsafe { h_log(s.as_ptr(), s.len(), v) } }
/// case split until the value is concrete
pub fn concrete(v: u64) -> u64 { unsafe { h_concrete(v) } }

/// Bump allocator: nothing is ever reused, so freed memory keeps its contents.
pub struct Bump;
const ROOM: usize = 1 << 16;
fn fixed(n: usize) -> bool { unsafe { h_fixed(n as u64) != 0 } }
static mut NEXT: usize = 0;
static mut END: usize = 0;
unsafe impl std::alloc::GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        // addresses are never symbolic: a symbolic size gets room for any size up to a bound (beyond: one path per size)
        let size = if fixed(l.size()) { l.size() } else if l.size() <= ROOM { ROOM } else { concrete(l.size() as u64) as usize };
        let l = std::alloc::Layout::from_size_align_unchecked(size, l.align());
        let a = l.align();
        let p = (NEXT + a - 1) & !(a - 1);
        let e = p + l.size();
        if e > END || NEXT == 0 {
            let pages = (l.size() + a + 65535) / 65536 + 15;
            let old = core::arch::wasm32::memory_grow(0, pages);
            if old == usize::MAX { return core::ptr::null_mut(); }
            if NEXT == 0 || END != old * 65536 { NEXT = old * 65536; }
            END = (old + pages) * 65536;
            return self.alloc(l);
        }
        NEXT = e;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { if fixed(l.size()) && p as usize + l.size() == NEXT { NEXT = p as usize; } }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if fixed(l.size()) && fixed(n) && p as usize + l.size() == NEXT && p as usize + n <= END { NEXT = p as usize + n; return p; }
        let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { core::ptr::copy_nonoverlapping(p, q, l.size().min(n)); }
        q
    }
}
#[global_allocator]
static ALLOC: Bump = Bump;
