//! Allowances over time: what is reported, what is kept and what goes when it has expired.
use super::env::*;
use super::h_transfer_from::{if_, in_force, some_grant};
use super::ops::*;

fn asked(from: Account, spender: Account) -> (Option<u128>, Option<u64>) {
    let a = icrc2_allowance(AllowanceArgs { account: from, spender });
    (nat(&a.allowance), a.expires_at)
}
/// what the ledger says of a grant is what is in force
fn said(a: (Option<u128>, Option<u64>), g: Option<(u128, u64)>, now: u64) -> bool {
    let f = in_force(g, now);
    let e = match g { None => 0, Some((_, e)) => if_(f != 0, e as u128, 0) as u64 };
    match a.0 { None => false, Some(x) => (x == f) & match a.1 { None => e == 0, Some(y) => (e != 0) & (y == e) } }
}
#[no_mangle]
pub extern "C" fn h_allowance() {
    let now = ledger();
    let b = balance("from");
    let bo = balance("other");
    fund(&[(acc(0), b), (acc(3), bo)]);
    sym::assume((b >= FEE) & (bo >= 2 * FEE));
    let pairs = [(acc(0), acc(1)), (acc(0), sacc(1)), (sacc(0), acc(1))];
    // one of any kind, one that expires, one that does not
    let fixed = |i: usize, e: u64| { let a = balance("allowance"); grant(&pairs[i].0, &pairs[i].1, a, e); Some((a, e)) };
    let e = sym::u64("expiry");
    sym::assume(e != 0);
    let g = if sym::coin() { [some_grant(&pairs[0].0, &pairs[0].1), fixed(1, e), fixed(2, 0)] } else { [fixed(0, e), fixed(1, 0), some_grant(&pairs[2].0, &pairs[2].1)] };
    let other = Some((7 * FEE, 0));
    grant(&acc(1), &acc(0), 7 * FEE, 0);
    sym::traps_are_violations("allowance-expiry/trap");
    let ask = |at: u64| {
        for (i, (f, s)) in pairs.iter().enumerate() { chk!("allowance-expiry", said(asked(*f, *s), g[i], at)); }
        chk!("allowance-expiry", said(asked(zacc(0), zacc(1)), g[0], at));
        chk!("allowance-expiry", said(asked(acc(1), acc(0)), other, at) & said(asked(acc(2), acc(0)), None, at));
    };
    if sym::coin() { ask(now); sym::cover("asked"); return; }
    // something else happens, and the ledger tidies up
    let pre = snap();
    ic::w().balance = u128::MAX / 2;
    let at = if sym::coin() { None } else { Some(recently(now)) };
    let op = if at.is_none() { 0 } else { [0, 2, 3, 5][sym::choose(4) as usize] };
    let r = run(&Req { from: acc(3), to: acc(2), amount: if op == 2 { 0 } else { 5 }, at, ..plain(op) });
    chk!("allowance-expiry", r.taken());
    let post = universal(&pre, &[now], now);
    chk!("allowance-expiry", same_grants(&pre.appr, &post.appr, now));
    sym::cover("tidied");
    let later = if sym::coin() { now } else { later("later", now) };
    ic::w().time = later;
    ask(later);
}

/// A grant, part or all of which is used; then the owner grants anew; then time passes. The new grant is what counts.
#[no_mangle]
pub extern "C" fn h_regrant() {
    let now = ledger();
    let b = much("from");
    fund_much(&[(acc(0), b)]);
    let e1 = if sym::coin() { 0 } else { let e = sym::u64("expiry"); sym::assume(e > now); e };
    let a1 = amount_class("allowance", 5);
    grant(&acc(0), &acc(1), a1, e1);
    let use_ = amount_class("amount", 1);
    ic::w().caller = who(1);
    sym::traps_are_violations("allowance-expiry/trap");
    let r = icrc2_transfer_from(TransferFromArgs { spender_subaccount: None, from: acc(0), to: acc(2), amount: Nat::from(use_), fee: None, memo: None, created_at_time: None });
    let need = use_.wrapping_add(FEE);
    chk!("allowance-expiry", r.is_ok() == (a1 >= need));
    let left = if_(a1 >= need, a1.wrapping_sub(need), a1);
    let t2 = later("second", now);
    ic::w().time = t2;
    let g = if sym::coin() {
        // granted anew (or revoked)
        let a2 = amount("second allowance", &[0, 2]);
        let e2 = if sym::coin() { None } else { let e = sym::u64("second expiry"); sym::assume(e >= 1 << 32); Some(e) };
        ic::w().caller = who(0);
        let r = icrc2_approve(ApproveArgs { from_subaccount: None, spender: acc(1), amount: Nat::from(a2), expected_allowance: None, expires_at: e2, fee: None, memo: None, created_at_time: None });
        chk!("allowance-expiry", r.is_ok() == e2.map_or(true, |e| e > t2));
        if r.is_ok() { sym::cover("granted anew"); if a2 == 0 { None } else { Some((a2, e2.unwrap_or(0))) } } else { Some((left, e1)) }
    } else { Some((left, e1)) };
    let t3 = later("third", t2);
    ic::w().time = t3;
    let pre = snap();
    ic::w().caller = who(0);
    let r = icrc1_transfer(TransferArgs { from_subaccount: None, to: acc(2), amount: Nat::from(5u8), fee: None, memo: None, created_at_time: None });
    chk!("allowance-expiry", r.is_ok());
    let _ = universal(&pre, &[t3], t3);
    chk!("allowance-expiry", said(asked(acc(0), acc(1)), g, t3));
    // and it can be used, up to that
    let want = amount("third amount", &[1, 2]);
    ic::w().caller = who(1);
    let r = icrc2_transfer_from(TransferFromArgs { spender_subaccount: None, from: acc(0), to: acc(2), amount: Nat::from(want), fee: None, memo: None, created_at_time: None });
    chk!("allowance-expiry", r.is_ok() == (in_force(g, t3) >= want.wrapping_add(FEE)));
    if r.is_ok() { sym::cover("used"); } else { sym::cover("refused"); }
}
/// More expired allowances than are tidied up at once: those in force stay, and the expired ones are as good as gone.
#[no_mangle]
pub extern "C" fn h_many() {
    ledger();
    fund_much(&[(acc(3), 1 << 80)]);
    const N: usize = 104;
    const BASE: u64 = (1 << 60) + 1000;
    let spender = |i: usize| Account { owner: who(1), subaccount: Some({ let mut b = [7u8; 32]; b[31] = i as u8; b }) };
    // (in the order of the accounts the expiries go up and down)
    let expiry = |i: usize| if i == 50 { 0 } else { BASE + 10 * ((i as u64 * 37) % N as u64) };
    for i in 0..N { grant(&acc(0), &spender(i), (i as u128 + 1) * FEE, expiry(i)); }
    let t = sym::ranged("later", 61, 1 << 60, BASE + 20 * N as u64);
    ic::w().time = t;
    sym::traps_are_violations("allowance-expiry/trap");
    let rounds = 1 + sym::choose(2);
    for _ in 0..rounds { chk!("allowance-expiry", run(&Req { from: acc(3), to: acc(2), amount: 5, ..plain(0) }).taken()); }
    let post = snap();
    let (mut kept, mut queued) = (true, 0);
    for i in 0..N {
        let g = post.allowance(&acc(0), &spender(i));
        let live = expiry(i) == 0 || expiry(i) > t;
        let whole = (g.0 == (i as u128 + 1) * FEE) & (g.1 == expiry(i));
        kept &= if live { whole } else { whole | (g.0 == 0) };
        queued += (g.1 != 0) as usize;
        if i % 13 == 0 { chk!("allowance-expiry", said(asked(acc(0), spender(i)), Some(((i as u128 + 1) * FEE, expiry(i))), t)); }
    }
    chk!("allowance-expiry", kept);
    chk!("allowance-expiry", (post.appr.len() <= N) & (post.queue.len() == queued));
    let mut ok = true;
    for (e, k) in &post.queue { ok &= grant_in(&post.appr, k).1 == *e; }
    chk!("allowance-expiry", ok);
    sym::cover("tidied");
    if post.appr.len() < N - 99 { sym::cover("more than a hundred"); }
}
