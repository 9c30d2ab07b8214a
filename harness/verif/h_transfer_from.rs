//! icrc2_transfer_from: the allowance is used exactly, and only a sufficient unexpired one permits anything.
use super::env::*;
use super::h_approve::opt_eq64;
use super::h_transfer::fee_ok;

/// Installs no allowance, one without expiry, or one with any expiry; returns it.
pub fn some_grant(from: &Account, spender: &Account) -> Option<(u128, u64)> {
    let k = sym::choose(3);
    if k == 0 { return None; }
    let a = balance("allowance");
    let e = if k == 1 { 0 } else { let e = sym::u64("expiry"); sym::assume(e != 0); e };
    grant(from, spender, a, e);
    Some((a, e))
}
/// the allowance in force
pub fn in_force(g: Option<(u128, u64)>, now: u64) -> u128 { match g { None => 0, Some((a, e)) => if_(e == 0, a, if_(e > now, a, 0)) } }
/// branch-free choice
pub fn if_(c: bool, a: u128, b: u128) -> u128 { let m = (c as u128).wrapping_neg(); (a & m) | (b & !m) }

#[no_mangle]
pub extern "C" fn h_transfer_from() {
    let now = ledger();
    let from_arg = if sym::coin() { acc(0) } else { zacc(0) };
    let from = acc(0);
    let (caller, spender) = match sym::choose(4) { 0 => (who(1), acc(1)), 1 => (who(1), sacc(1)), 2 => (who(0), acc(0)), _ => (who(0), sacc(0)) };
    let to = match sym::choose(3) { 0 => acc(2), 1 => spender, _ => from };
    let own = spender == from;
    let b0 = balance("from");
    let mut f = vec![(from, b0), (acc(3), balance("other"))];
    let b1 = if to == from { b0 } else if sym::coin() { let b = balance("to"); f.push((to, b)); b } else { 0 };
    fund(&f);
    let g = if caller == who(1) { some_grant(&from, &spender) } else { None };
    grant(&from, &acc(3), balance("other allowance"), 0);
    grant(&acc(3), &acc(1), balance("other allowance"), 0);
    let amount = amount("amount", &[0, 1, 2, 3]);
    let fee = match sym::choose(3) { 0 => None, 1 => Some(Nat::from(FEE)), _ => { let f = sym::bits("fee", 32); sym::assume(f >= 1 << 26); Some(Nat::from(f)) } };
    let good_fee = fee_ok(&fee);
    let (memo, created) = aside(now, 3 * sym::choose(2));
    ic::w().caller = caller;
    let pre = snap();
    sym::traps_are_violations("transfer-from-exact/trap");
    let r = icrc2_transfer_from(TransferFromArgs { spender_subaccount: spender.subaccount, from: from_arg, to, amount: Nat::from(amount), fee: fee.clone(), memo: memo.clone(), created_at_time: created });
    let need = amount.wrapping_add(FEE);
    let funds = b0 >= need;
    let force = in_force(g, now);
    let allowed = own | (force >= need);
    match r {
        Ok(i) => {
            let post = universal(&pre, &[now], now);
            chk!("transfer-from-exact", funds & good_fee & allowed);
            if to == from { chk!("transfer-from-exact", post.of(&from) == b0.wrapping_sub(FEE)); }
            else { chk!("transfer-from-exact", (post.of(&from) == b0.wrapping_sub(need)) & (post.of(&to) == b1.wrapping_add(amount))); }
            chk!("transfer-from-exact", balances_same(&pre, &post, &[from, to]) & allowances_same(&pre, &post, &[(from, spender)]));
            let left = post.allowance(&from, &spender);
            match g {
                Some((a, e)) => chk!("transfer-from-exact", (left.0 == a.wrapping_sub(need)) & ((left.1 == e) | (left.0 == 0))),
                None => chk!("transfer-from-exact", left.0 == 0),
            }
            chk!("transfer-from-exact", post.supply == pre.supply.wrapping_sub(FEE));
            chk!("transfer-from-exact", is(&i, pre.blocks as u128));
            let b = last_block();
            chk!("block-replay", match b.transaction.operation { Operation::Transfer { from: f, to: t, spender: s, amount: a, fee: x } => (f == from) & (t == to) & (s == Some(spender)) & (a == amount) & (x == if fee.is_some() { Some(FEE) } else { None }), _ => false });
            chk!("block-replay", (b.effective_fee == if fee.is_none() { Some(FEE) } else { None }) & same_memo(&b.transaction.memo, &memo) & opt_eq64(b.transaction.created_at_time, created));
            sym::cover("ok");
        }
        Err(e) => {
            let post = snap();
            chk!("rejection-no-effect", untouched(&pre, &post));
            match e {
                TransferFromError::BadFee { expected_fee } => { chk!("transfer-from-exact", !good_fee & is(&expected_fee, FEE)); sym::cover("bad fee"); }
                TransferFromError::InsufficientFunds { balance } => { chk!("transfer-from-exact", good_fee & !funds & is(&balance, b0)); sym::cover("insufficient funds"); }
                TransferFromError::InsufficientAllowance { allowance } => { chk!("transfer-from-exact", good_fee & !allowed & is(&allowance, force)); sym::cover("insufficient allowance"); }
                TransferFromError::GenericError { error_code, .. } => { chk!("transfer-from-exact", good_fee & !allowed & is(&error_code, 100003) & match g { Some((_, e)) => (e != 0) & (e <= now), None => false }); sym::cover("expired"); }
                _ => chk!("transfer-from-exact", false),
            }
        }
    }
}
