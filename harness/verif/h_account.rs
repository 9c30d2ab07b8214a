//! Accounts: the same one or not, whatever their owner and subaccount.
use super::env::*;
use super::ops::*;
use super::h_transfer_from::if_;

fn any_owner(name: &str) -> Principal {
    match sym::choose(4) { 0 => Principal::from_slice(&sym::arr::<10>(name)), 1 => Principal::from_slice(&sym::arr::<29>(name)), 2 => Principal::from_slice(&sym::arr::<1>(name)), _ => who(1) }
}
fn owner_same(a: &Principal, b: &Principal) -> bool { bytes_eq(a.as_slice(), b.as_slice()) }
fn same(a: &Account, b: &Account) -> bool { owner_same(&a.owner, &b.owner) & bytes_eq(a.effective_subaccount(), b.effective_subaccount()) }

/// written alike
fn written(a: &Account, b: &Account) -> bool { owner_same(&a.owner, &b.owner) & match (&a.subaccount, &b.subaccount) { (Some(x), Some(y)) => bytes_eq(x, y), (None, None) => true, _ => false } }
/// Three accounts of any owners and subaccounts: they share a balance exactly if they are one account.
#[no_mangle]
pub extern "C" fn h_accounts_apart() {
    let now = ledger();
    let p = any_owner("sender");
    let q = any_owner("receiver");
    let a = Account { owner: p, subaccount: Some(sym::arr("sender sub")) };
    let b = Account { owner: q, subaccount: if sym::coin() { Some(sym::arr("receiver sub")) } else { None } };
    let have = much("balance");
    fund_much(&[(a, have)]);
    let amount = amount_class("amount", 2);
    let pre_b = icrc1_balance_of(b);
    sym::traps_are_violations("account-identity/trap");
    let one = same(&a, &b);
    chk!("account-identity", is(&pre_b, if_(one, have, 0)));
    if p.as_slice().is_empty() { return; }
    match run(&Req { from: a, to: b, amount, ..plain(0) }) { Res::Done(_) => {} _ => { chk!("account-identity", false); return; } }
    let left = have.wrapping_sub(amount).wrapping_sub(FEE);
    chk!("account-identity", is(&icrc1_balance_of(a), if_(one, have.wrapping_sub(FEE), left)));
    chk!("account-identity", is(&icrc1_balance_of(b), if_(one, have.wrapping_sub(FEE), amount)));
    // the log tells them apart, too
    let stored = last_block();
    chk!("block-replay", match &stored.transaction.operation { Operation::Transfer { from, to, .. } => written(from, &a) & written(to, &b), _ => false });
    chk!("block-chain", hash_eq(&Some(stored.hash()), &read_state(|s| s.last_block_hash())));
    // without a subaccount is the same as with the one of all zeros
    let z = Account { owner: q, subaccount: Some([0; 32]) };
    chk!("account-identity", nat(&icrc1_balance_of(z)) == nat(&icrc1_balance_of(Account { owner: q, subaccount: None })));
    let _ = now;
    sym::cover("moved");
}
/// An allowance is for one spender account, from one account.
#[no_mangle]
pub extern "C" fn h_allowances_apart() {
    let now = ledger();
    let a = Account { owner: who(0), subaccount: if sym::coin() { Some(sym::arr("owner sub")) } else { None } };
    let s = Account { owner: who(1), subaccount: if sym::coin() { Some(sym::arr("spender sub")) } else { None } };
    fund_much(&[(a, 1 << 100)]);
    let amount = amount_class("amount", 2);
    sym::traps_are_violations("account-identity/trap");
    chk!("account-identity", run(&Req { from: a, spender: s, amount, ..plain(2) }).taken());
    // ask for another pair, of any subaccounts
    let a2 = Account { owner: who(0), subaccount: if sym::coin() { Some(sym::arr("owner sub 2")) } else { None } };
    let s2 = Account { owner: if sym::coin() { who(1) } else { who(0) }, subaccount: if sym::coin() { Some(sym::arr("spender sub 2")) } else { None } };
    let got = icrc2_allowance(AllowanceArgs { account: a2, spender: s2 });
    chk!("account-identity", is(&got.allowance, if_(same(&a, &a2) & same(&s, &s2), amount, 0)));
    chk!("account-identity", got.expires_at.is_none());
    let _ = now;
    sym::cover("asked");
}
/// The ways to write one account are equally good in every request.
#[no_mangle]
pub extern "C" fn h_ways_to_write() {
    let now = ledger();
    affluent(now);
    let op = sym::choose(OPS);
    let amount = amount_class("amount", 2);
    let (x, y, z) = (sym::coin(), sym::coin(), sym::coin());
    let way = |b: bool, i: u32| if b { zacc(i) } else { acc(i) };
    let pre = snap();
    sym::traps_are_violations("account-identity/trap");
    chk!("account-identity", run(&Req { from: way(x, 0), spender: way(y, 1), to: way(z, 2), amount, ..plain(op) }).taken());
    let post = universal(&pre, &[now], now);
    let need = if op == 2 { FEE } else { amount + FEE };
    chk!("account-identity", post.of(&acc(0)) == pre.of(&acc(0)).wrapping_sub(need));
    if op <= 1 { chk!("account-identity", post.of(&acc(2)) == amount); }
    if on_behalf(op) { chk!("account-identity", post.allowance(&acc(0), &acc(1)).0 == (1u128 << 80).wrapping_sub(need)); }
    if op == 2 { chk!("account-identity", post.allowance(&acc(0), &acc(1)).0 == amount); }
    chk!("account-identity", balances_same(&pre, &post, &[acc(0), acc(2)]) & allowances_same(&pre, &post, &[(acc(0), acc(1))]));
    sym::cover("done");
}
