//! Creation times: the window in which a request is taken, and that it is taken once.
use super::env::*;
use super::h_burn::Out;
use super::ops::*;
use candid::Encode;

pub const WINDOW: u64 = 24 * 3600 * 1_000_000_000;
pub const DRIFT: u64 = 60 * 1_000_000_000;
fn too_old(at: u64, now: u64) -> bool { now.wrapping_sub(at) > WINDOW + DRIFT && now > at }
/// branch-free: `now` is a present-day time, so that the additions cannot overflow
fn old(at: u64, now: u64) -> bool { at < now - (WINDOW + DRIFT) }
fn future(at: u64, now: u64) -> bool { at > now + DRIFT }

#[no_mangle]
pub extern "C" fn h_window() {
    let now = ledger();
    affluent(now);
    let at = sym::u64("created_at");
    let op = sym::choose(OPS);
    let pre = snap();
    sym::traps_are_violations("time-window/trap");
    let r = Req { at: Some(at), ..plain(op) };
    let r = run(&if op < 3 && sym::coin() { elaborate(r, now + (1 << 40)) } else { r });
    match r {
        Res::TooOld => { chk!("time-window", old(at, now)); sym::cover("too old"); }
        Res::Future(t) => { chk!("time-window", future(at, now) & (t == now)); sym::cover("future"); }
        Res::Done(_) | Res::Pending(_) => {
            chk!("time-window", !old(at, now) & !future(at, now));
            let post = universal(&pre, &[now], now);
            chk!("block-replay", last_block().transaction.created_at_time == Some(at));
            chk!("deduplication", (post.hashes == pre.hashes + 1) & (post.stamps == pre.stamps + 1));
            sym::cover("taken");
            return;
        }
        _ => chk!("time-window", false),
    }
    let post = snap();
    chk!("rejection-no-effect", untouched(&pre, &post));
}

/// A creation time that is acceptable now.
pub fn fresh_time(name: &str, now: u64) -> u64 {
    let at = time(name);
    sym::assume(!old(at, now) & !future(at, now));
    at
}
/// the request is answered as a duplicate of block `i` as long as it would otherwise be acceptable, and never taken
fn refused_again(r: &Req, i: u128, canister: Option<Principal>, now: u64) {
    let pre = snap();
    match run(r) {
        Res::Dup(j, c) => { chk!("deduplication", (j == i) & (c == canister)); sym::cover("duplicate"); }
        Res::TooOld => { chk!("deduplication", old(r.at.unwrap(), now)); sym::cover("too old by now"); }
        // (then other errors may come first)
        Res::Other => chk!("deduplication", r.expected.is_some() && old(r.at.unwrap(), now)),
        _ => chk!("deduplication", false),
    }
    chk!("rejection-no-effect", untouched(&pre, &snap()));
}
/// A request is sent again: at once, later, after others, after tidying up.
#[no_mangle]
pub extern "C" fn h_again() {
    let now = ledger();
    affluent(now);
    sym::traps_are_violations("deduplication/trap");
    // another request, earlier or later, with its own creation time
    // (order 3: while the request's own call is outstanding)
    let order = sym::choose(4);
    let other = Req { at: Some(fresh_time("other created_at", now)), amount: 5, ..plain(0) };
    if order == 0 { chk!("deduplication", run(&other).taken()); }
    let op = sym::choose(OPS);
    let amount = amount("amount", &[2]);
    let r = Req { at: Some(fresh_time("created_at", now)), amount, ..plain(op) };
    let r = if op < 3 && sym::coin() { elaborate(r, now + (1 << 40)) } else { r };
    let i = read_state(|s| s.blocks.len()) as u128;
    let res = run(&r);
    chk!("deduplication", res.taken());
    let mut canister = None;
    if let Res::Done(n) = res { chk!("deduplication", n == i); }
    if order == 3 && op < 3 { return; }
    if let Res::Pending(cell) = res {
        let what = if order == 3 { 1 } else { sym::choose(3) };
        if order == 3 {
            let t = later("meanwhile", now);
            ic::w().time = t;
            let own = ic::w().calls.pop().unwrap();
            chk!("deduplication", run(&Req { at: Some(fresh_time("other created_at", t)), ..other.clone() }).taken());
            ic::w().calls.push(own);
            sym::cover("meanwhile");
        }
        if what != 0 {
            let t = later("answered", ic::w().time);
            ic::w().time = t;
            let call = ic::w().calls.pop().unwrap();
            let back = call.cycles;
            let answer = match (what, op) { (1, 3 | 4) => Ok(b"DIDL\0\0".to_vec()), (1, _) => Ok(Encode!(&Ok::<Principal, CmcCreateCanisterError>(who(1))).unwrap()), _ => Err(4) };
            sym::formatting(true);
            ic::deliver(call, answer, if what == 1 { 0 } else { back });
            sym::formatting(false);
            if what == 1 && op >= 5 { canister = Some(who(1)); }
            let o = cell.borrow_mut().take().unwrap();
            chk!("deduplication", matches!(o, Out::Ok(..)) == (what == 1));
            sym::cover("answered");
        }
    }
    if order == 1 { let o = Req { at: Some(fresh_time("other created_at", ic::w().time)), ..other.clone() }; chk!("deduplication", run(&o).taken()); }
    let t2 = later("second", ic::w().time);
    ic::w().time = t2;
    if sym::coin() {
        // something unrelated happens, after which the ledger tidies up
        chk!("deduplication", run(&Req { from: acc(3), amount: 7, ..plain(0) }).taken());
        if sym::coin() { let t = later("third", t2); ic::w().time = t; }
        sym::cover("later");
    }
    refused_again(&r, i, canister, ic::w().time);
    // a request without creation time is taken, however often
    if order == 2 {
        let u = Req { at: None, expected: None, expires: None, ..r.clone() };
        chk!("deduplication", run(&u).taken());
        chk!("deduplication", run(&u).taken());
        refused_again(&r, i, canister, ic::w().time);
    }
}

/// Requests that differ in anything are different.
#[no_mangle]
pub extern "C" fn h_differ() {
    let now = ledger();
    affluent(now);
    sym::traps_are_violations("deduplication/trap");
    let op = sym::choose(OPS);
    let at = fresh_time("created_at", now);
    let amount = amount_class("amount", 2);
    let a = Req { at: Some(at), amount, ..plain(op) };
    let b = match sym::choose(10) {
        0 => { let m = amount_class("second amount", 2); sym::assume(m != amount); Req { amount: m, ..a.clone() } }
        1 => { let t = fresh_time("second created_at", now); sym::assume(t != at); Req { at: Some(t), ..a.clone() } }
        2 => Req { from: sacc(0), ..a.clone() },
        3 => Req { spender: sacc(1), ..a.clone() },
        4 => Req { to: acc(3), ..a.clone() },
        5 => Req { to: sacc(2), ..a.clone() },
        6 => Req { fee: Some(FEE), ..a.clone() },
        7 => Req { memo: Some(sym::arr::<3>("memo").to_vec()), ..a.clone() },
        8 => Req { expected: Some(amount), ..a.clone() },
        _ => Req { expires: Some(time("expires_at")), ..a.clone() },
    };
    // is there anything of the sort in this request?
    let told = |x: &Req| (x.amount, x.at, x.from, (x.op == 1 || x.op == 2 || x.op == 4 || x.op == 6).then_some(x.spender),
        (x.op <= 1).then_some(x.to), (x.op == 3 || x.op == 4).then_some(x.to.owner), (x.op <= 2).then_some((x.fee, x.memo.is_some())), (x.op == 2).then_some((x.expected, x.expires.is_some())));
    if told(&a).2 == told(&b).2 && told(&a).3 == told(&b).3 && told(&a).4 == told(&b).4 && told(&a).5 == told(&b).5 && told(&a).6 == told(&b).6 && told(&a).7 == told(&b).7 && !sym_differs(&a, &b) { return; }
    if op == 2 && b.from == sacc(0) && b.expected.is_some() { return; }
    if let Some(e) = b.expires { sym::assume(e > now); }
    if op == 4 && b.to == acc(3) || op == 3 && b.to == acc(3) { return; } // users cannot be withdrawn to
    if on_behalf(op) && b.from == sacc(0) && b.spender != acc(1) { return; }
    chk!("deduplication", run(&a).taken());
    let t2 = later("second", now);
    sym::assume(t2 - now < DRIFT);
    ic::w().time = t2;
    let r = run(&b);
    chk!("deduplication", r.taken() | (matches!(r, Res::TooOld) && old(b.at.unwrap(), t2)) | (op == 2 && b.expires.map_or(false, |e| e <= t2)));
    if r.taken() { sym::cover("different"); }
    let i = read_state(|s| s.blocks.len()) - 1;
    if r.taken() { refused_again(&b, i as u128, None, t2); }
}
fn sym_differs(a: &Req, b: &Req) -> bool { (a.amount != b.amount) || (a.at != b.at) }

/// Different operations are different requests, and a request that was refused leaves no trace.
#[no_mangle]
pub extern "C" fn h_unlike() {
    let now = ledger();
    affluent(now);
    sym::traps_are_violations("deduplication/trap");
    let at = fresh_time("created_at", now);
    let amount = amount_class("amount", 2);
    let (x, y) = (sym::choose(OPS), sym::choose(OPS));
    let a = Req { at: Some(at), amount, ..plain(x) };
    if x == 2 && on_behalf(y) { return; } // (the first uses up what the second needs)
    if x != y {
        chk!("deduplication", run(&a).taken());
        chk!("deduplication", run(&Req { op: y, ..a }).taken());
        sym::cover("another operation");
    } else {
        // sent when the sender could not pay
        let poor = Req { from: Account { subaccount: Some([3; 32]), ..acc(0) }, ..a };
        grant(&poor.from, &poor.spender, 1 << 80, 0);
        chk!("deduplication", matches!(run(&poor), Res::Funds(_)));
        mutate_state(|s| { s.balances.insert(storage::to_account_key(&poor.from), 1 << 70); });
        let i = read_state(|s| s.blocks.len()) as u128;
        chk!("deduplication", run(&poor).taken());
        refused_again(&poor, i, None, now);
        sym::cover("sent again");
    }
}
