//! The largest numbers: never a wrong result, only a refusal.
use super::env::*;
use super::ops::*;

/// within a million or so of the largest number, or (some fees around) the largest that leaves room for the fee
fn top(name: &str) -> u128 { u128::MAX - sym::bits(name, 28) as u128 }
/// any number of 2^127 or more
fn vast(name: &str) -> u128 { let lo = sym::bits(name, 64); (sym::ranged(name, 64, 1 << 63, u64::MAX) as u128) << 64 | lo as u128 }

/// Requests for (almost) more than numbers can hold, of accounts that have almost as much.
#[no_mangle]
pub extern "C" fn h_extreme() {
    let now = ledger();
    let op = sym::choose(OPS);
    let b = if sym::coin() { top("balance") } else { balance("balance") };
    let (over, amount) = match sym::choose(3) { 0 => (true, 0), 1 => (false, top("amount")), _ => (false, vast("amount")) };
    // one account has almost all there is
    mutate_state(|s| { s.balances.insert(storage::to_account_key(&acc(0)), b); s.cache.total_supply = u128::MAX; });
    let a = top("allowance");
    grant(&acc(0), &acc(1), a, 0);
    ic::w().balance = u128::MAX;
    let fits = !over & (amount <= u128::MAX - FEE);
    let need = amount.wrapping_add(FEE);
    let pre = snap();
    sym::traps_are_violations("extremes/trap");
    let r = run(&Req { amount, over, ..plain(op) });
    let done = r.taken();
    if op == 2 {
        // an allowance may be as large as numbers get, and a larger one is as good
        chk!("extremes", done == (b >= FEE));
        if done {
            let post = universal(&pre, &[now], now);
            let g = post.allowance(&acc(0), &acc(1));
            chk!("extremes", g.0 == if over { u128::MAX } else { amount });
            chk!("extremes", balances_same(&pre, &post, &[acc(0)]) & (post.of(&acc(0)) == b.wrapping_sub(FEE)));
            sym::cover("approved");
        }
    } else {
        let enough = fits & (b >= need) & (!on_behalf(op) | (a >= need));
        chk!("extremes", done == enough);
        if done {
            let post = universal(&pre, &[now], now);
            chk!("extremes", post.of(&acc(0)) == b.wrapping_sub(need));
            if op <= 1 { chk!("extremes", post.of(&acc(2)) == amount); }
            chk!("extremes", post.supply == u128::MAX.wrapping_sub(if op <= 1 { FEE } else { need }));
            if on_behalf(op) { chk!("extremes", post.allowance(&acc(0), &acc(1)).0 == a.wrapping_sub(need)); }
            sym::cover("done");
        }
    }
    match r {
        Res::Funds(n) => { chk!("extremes", n == b); sym::cover("funds"); }
        Res::Allowance(n) => { chk!("extremes", n == a); sym::cover("allowance"); }
        Res::Done(_) | Res::Pending(_) => {}
        _ => chk!("extremes", false),
    }
    if !done { chk!("extremes", untouched(&pre, &snap())); }
}
/// A fee of more than any number holds is the wrong fee.
#[no_mangle]
pub extern "C" fn h_extreme_fee() {
    let now = ledger();
    let op = sym::choose(3);
    affluent(now);
    let pre = snap();
    let r = if sym::coin() { Req { over_fee: true, ..plain(op) } } else { Req { fee: Some(vast("fee")), ..plain(op) } };
    sym::traps_are_violations("extremes/trap");
    chk!("extremes", matches!(run(&r), Res::BadFee(FEE)));
    chk!("extremes", untouched(&pre, &snap()));
    sym::cover("bad fee");
}
/// A deposit that would lift the total supply beyond all numbers fails without effect; others are credited exactly.
#[no_mangle]
pub extern "C" fn h_extreme_deposit() {
    let now = ledger();
    let b = if sym::coin() { any128("balance") } else { 0 };
    let supply = any128("supply");
    sym::assume(supply >= b);
    mutate_state(|s| { if b != 0 { s.balances.insert(storage::to_account_key(&acc(0)), b); } s.cache.total_supply = supply; });
    let available = if sym::coin() { vast("available") } else { sym::bits("available", 62) as u128 + (1 << 57) };
    ic::w().cycles_available = available;
    let minted = available - FEE;
    let fits = supply <= u128::MAX - minted;
    let pre = snap();
    if sym::coin() {
        sym::assume(fits);
        sym::traps_are_violations("extremes/trap");
        let r = deposit(DepositArg { to: acc(0), memo: None });
        let post = universal(&pre, &[now], now);
        chk!("extremes", is(&r.balance, b.wrapping_add(minted)) & (post.of(&acc(0)) == b.wrapping_add(minted)) & (post.supply == supply.wrapping_add(minted)));
        sym::cover("deposited");
    } else {
        sym::assume(!fits);
        sym::cover("too much");
        sym::traps_roll_back();
        deposit(DepositArg { to: acc(0), memo: None });
        chk!("extremes", false);
    }
}
/// Undoing a failed call adds to an allowance that can hardly grow.
#[no_mangle]
pub extern "C" fn h_extreme_refund() {
    let now = ledger();
    affluent(now);
    let op = if sym::coin() { 4 } else { 6 };
    let amount = amount_class("amount", 2);
    let Res::Pending(cell) = run(&Req { amount, ..plain(op) }) else { chk!("extremes", false); return };
    // meanwhile the owner allows almost everything
    let a = top("allowance");
    let e = if sym::coin() { time("expiry") } else { 0 };
    sym::assume((e == 0) | (e > now));
    let key = (storage::to_account_key(&acc(0)), storage::to_account_key(&acc(1)));
    mutate_state(|s| { s.approvals.remove(&key); });
    grant(&acc(0), &acc(1), a, e);
    let call = ic::w().calls.pop().unwrap();
    let t = later("answered", now);
    ic::w().time = t;
    let pre = snap();
    sym::traps_are_violations("extremes/trap");
    sym::formatting(true);
    ic::deliver(call, Err(4), 0);
    sym::formatting(false);
    chk!("extremes", cell.borrow().is_some());
    let post = universal(&pre, &[t, t], t);
    let now_has = if (e != 0) & (e <= t) { 0 } else { a };
    let g = amount.wrapping_sub(2 * FEE);
    let sum = now_has.wrapping_add(g);
    let want = if sum < g { u128::MAX } else { sum };
    chk!("extremes", post.allowance(&acc(0), &acc(1)).0 == want);
    chk!("extremes", post.of(&acc(0)) == pre.of(&acc(0)).wrapping_add(g));
    sym::cover("restored");
}
