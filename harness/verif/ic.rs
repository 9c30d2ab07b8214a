//! The Internet Computer system API as seen by one canister, under control of a harness.
//! `ic0.X` imports of the module are routed to `ic0__X` below.
use candid::Principal;

pub struct PendingCall {
    pub callee: Principal, pub method: String, pub payload: Vec<u8>, pub cycles: u128,
    reply: (usize, usize), reject: (usize, usize), pub best_effort: bool,
}
pub struct World {
    pub time: u64,
    pub caller: Principal,
    pub this: Principal,
    pub cycles_available: u128,
    pub cycles_accepted: u128,
    pub balance: u128,
    pub certified: Option<Vec<u8>>,
    pub certified_sets: u32,
    pub certificate: Option<Vec<u8>>,
    pub calls: Vec<PendingCall>,
    pub calls_made: u32,
    pub args: Vec<u8>,
    pub reply: Vec<u8>,
    pub replied: bool,
    pub reject_code: u32,
    pub reject_msg: Vec<u8>,
    pub perform_error: u32,
    pub call_cost: u128,
    /// cycles attached to calls that were made, less those that came back
    pub cycles_sent: u128,
    /// the present message is the continuation after an outgoing call
    pub continuing: bool,
    building: Option<PendingCall>,
}
static mut W: Option<World> = None;
pub fn w() -> &'static mut World {
    #[allow(static_mut_refs)]
    unsafe {
        if W.is_none() {
            W = Some(World { time: 1_700_000_000_000_000_000, caller: Principal::anonymous(), this: Principal::from_slice(&[0, 0, 0, 0, 2, 0x10, 0, 2, 1, 1]), cycles_available: 0, cycles_accepted: 0, balance: u128::MAX / 2, certified: None, certified_sets: 0, certificate: None, calls: vec![], calls_made: 0, args: vec![], reply: vec![], replied: false, reject_code: 0, reject_msg: vec![], perform_error: 0, call_cost: 0, cycles_sent: 0, continuing: false, building: None });
        }
        W.as_mut().unwrap()
    }
}
unsafe fn out(dst: usize, src: &[u8], off: usize, n: usize) { core::ptr::copy_nonoverlapping(src[off..off + n].as_ptr(), dst as *mut u8, n) }
unsafe fn inp(src: usize, n: usize) -> &'static [u8] { core::slice::from_raw_parts(src as *const u8, n) }
unsafe fn put128(dst: usize, v: u128) { core::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), dst as *mut u8, 16) }
macro_rules! api { ($($name:ident as $full:literal ($($a:ident: $t:ty),*) $(-> $r:ty)? $b:block)*) => { $( #[export_name = $full] pub unsafe extern "C" fn $name($($a: $t),*) $(-> $r)? $b )* } }
api! {
    f1 as "ic0__msg_arg_data_size"() -> usize { w().args.len() }
    f2 as "ic0__msg_arg_data_copy"(dst: usize, off: usize, n: usize) { out(dst, &w().args, off, n) }
    f3 as "ic0__msg_caller_size"() -> usize { w().caller.as_slice().len() }
    f4 as "ic0__msg_caller_copy"(dst: usize, off: usize, n: usize) { out(dst, w().caller.as_slice(), off, n) }
    f5 as "ic0__msg_reject_code"() -> u32 { w().reject_code }
    f6 as "ic0__msg_reject_msg_size"() -> usize { w().reject_msg.len() }
    f7 as "ic0__msg_reject_msg_copy"(dst: usize, off: usize, n: usize) { out(dst, &w().reject_msg, off, n) }
    f8 as "ic0__msg_deadline"() -> u64 { 0 }
    f9 as "ic0__msg_reply_data_append"(src: usize, n: usize) { w().reply.extend_from_slice(inp(src, n)) }
    f10 as "ic0__msg_reply"() { w().replied = true }
    f11 as "ic0__msg_reject"(_s: usize, _n: usize) { w().replied = true }
    f12 as "ic0__msg_cycles_available128"(dst: usize) { put128(dst, w().cycles_available) }
    f13 as "ic0__msg_cycles_refunded128"(dst: usize) { put128(dst, 0) }
    f14 as "ic0__msg_cycles_accept128"(hi: u64, lo: u64, dst: usize) {
        let want = (hi as u128) << 64 | lo as u128;
        let a = if want < w().cycles_available { want } else { w().cycles_available };
        w().cycles_available = w().cycles_available.wrapping_sub(a);
        w().cycles_accepted = w().cycles_accepted.wrapping_add(a);
        put128(dst, a)
    }
    f16 as "ic0__canister_self_size"() -> usize { w().this.as_slice().len() }
    f17 as "ic0__canister_self_copy"(dst: usize, off: usize, n: usize) { out(dst, w().this.as_slice(), off, n) }
    f18 as "ic0__canister_cycle_balance128"(dst: usize) { put128(dst, w().balance) }
    f19 as "ic0__canister_liquid_cycle_balance128"(dst: usize) { put128(dst, w().balance) }
    f20 as "ic0__canister_status"() -> u32 { 1 }
    f21 as "ic0__canister_version"() -> u64 { 1 }
    f22 as "ic0__call_new"(cs: usize, cn: usize, ns: usize, nn: usize, rf: usize, re: usize, jf: usize, je: usize) {
        w().building = Some(PendingCall { callee: Principal::from_slice(inp(cs, cn)), method: String::from_utf8_lossy(inp(ns, nn)).into_owned(), payload: vec![], cycles: 0, reply: (rf, re), reject: (jf, je), best_effort: false });
    }
    f23 as "ic0__call_on_cleanup"(_f: usize, _e: usize) {}
    f24 as "ic0__call_data_append"(src: usize, n: usize) { w().building.as_mut().unwrap().payload.extend_from_slice(inp(src, n)) }
    f25 as "ic0__call_with_best_effort_response"(_t: u32) { w().building.as_mut().unwrap().best_effort = true }
    f26 as "ic0__call_cycles_add128"(hi: u64, lo: u64) { let c = &mut w().building.as_mut().unwrap().cycles; *c = c.wrapping_add((hi as u128) << 64 | lo as u128) }
    f27 as "ic0__call_perform"() -> u32 {
        let c = w().building.take().unwrap();
        w().calls_made += 1;
        if w().perform_error != 0 { return w().perform_error; }
        w().cycles_sent = w().cycles_sent.wrapping_add(c.cycles);
        w().calls.push(c);
        0
    }
    f28 as "ic0__certified_data_set"(src: usize, n: usize) { w().certified = Some(inp(src, n).to_vec()); w().certified_sets += 1; }
    f29 as "ic0__data_certificate_present"() -> u32 { w().certificate.is_some() as u32 }
    f30 as "ic0__data_certificate_size"() -> usize { w().certificate.as_ref().unwrap().len() }
    f31 as "ic0__data_certificate_copy"(dst: usize, off: usize, n: usize) { out(dst, w().certificate.as_ref().unwrap(), off, n) }
    f32_ as "ic0__time"() -> u64 { w().time }
    f33 as "ic0__global_timer_set"(_t: u64) -> u64 { 0 }
    f34 as "ic0__performance_counter"(_t: u32) -> u64 { 0 }
    f35 as "ic0__is_controller"(_s: usize, _n: usize) -> u32 { 0 }
    f36 as "ic0__in_replicated_execution"() -> u32 { 1 }
    f37 as "ic0__cost_call"(_m: u64, _p: u64, dst: usize) { put128(dst, w().call_cost) }
    f38 as "ic0__cost_create_canister"(dst: usize) { put128(dst, 0) }
    f39 as "ic0__debug_print"(_s: usize, _n: usize) {}
    f40 as "ic0__trap"(_s: usize, _n: usize) { core::arch::wasm32::unreachable() }
    f41 as "ic0__msg_method_name_size"() -> usize { 0 }
    f42 as "ic0__msg_method_name_copy"(_d: usize, _o: usize, _n: usize) {}
    f43 as "ic0__root_key_size"() -> usize { 0 }
    f44 as "ic0__root_key_copy"(_d: usize, _o: usize, _n: usize) {}
    f45 as "ic0__subnet_self_size"() -> usize { 0 }
    f46 as "ic0__subnet_self_copy"(_d: usize, _o: usize, _n: usize) {}
    f47 as "ic0__accept_message"() {}
    f48 as "ic0__cost_http_request"(_a: u64, _b: u64, dst: usize) { put128(dst, 0) }
    f49 as "ic0__cycles_burn128"(_h: u64, _l: u64, dst: usize) { put128(dst, 0) }
}
/// Deliver the response to an outstanding call.
/// A reject gives all attached cycles back; a reply gives back `back` of them.
pub fn deliver(c: PendingCall, r: Result<Vec<u8>, u32>, back: u128) {
    w().continuing = true;
    w().cycles_sent = w().cycles_sent.wrapping_sub(if r.is_ok() { back } else { c.cycles });
    let (fun, env) = match r {
        Ok(b) => { w().args = b; w().reject_code = 0; c.reply }
        Err(code) => { w().args = vec![]; w().reject_code = code; w().reject_msg = b"rejected".to_vec(); c.reject }
    };
    let f: extern "C" fn(usize) = unsafe { core::mem::transmute(fun) };
    f(env);
    w().reject_code = 0;
}
/// Run an async endpoint up to its first await; its result lands in the returned cell.
pub fn start<T: 'static, F: std::future::Future<Output = T> + 'static>(f: F) -> std::rc::Rc<std::cell::RefCell<Option<T>>> {
    w().continuing = false;
    let cell = std::rc::Rc::new(std::cell::RefCell::new(None));
    let c2 = cell.clone();
    ic_cdk::futures::internals::in_executor_context(|| ic_cdk::futures::spawn(async move { let r = f.await; *c2.borrow_mut() = Some(r); }));
    cell
}
