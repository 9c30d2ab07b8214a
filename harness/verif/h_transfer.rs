//! icrc1_transfer and icrc2_transfer_from: exactly the right accounts move by exactly the right amounts, or nothing does.
use super::env::*;
use super::h_approve::opt_eq64;

pub fn any_fee() -> Option<Nat> {
    match sym::choose(4) { 0 => None, 1 => Some(Nat::from(FEE)), 2 => { let f = sym::bits("fee", 32); sym::assume(f >= 1 << 26); Some(Nat::from(f)) } _ => Some(huge()) }
}
pub fn fee_ok(f: &Option<Nat>) -> bool { match f { None => true, Some(f) => is(f, FEE) } }

#[no_mangle]
pub extern "C" fn h_transfer() {
    let now = ledger();
    let from = if sym::coin() { acc(0) } else { sacc(0) };
    let to = match sym::choose(3) { 0 => zacc(0), 1 => acc(1), _ => sacc(1) };
    let same = to == from;
    let b0 = if sym::coin() { balance("from") } else { 0 };
    let b1 = if same { b0 } else { balance("to") };
    let mut f = vec![(acc(2), balance("other"))];
    if b0 != 0 { f.push((from, b0)); }
    if !same { f.push((to, b1)); }
    fund(&f);
    let amount = amount("amount", &[0, 1, 2, 3]);
    let fee = match sym::choose(3) { 0 => None, 1 => Some(Nat::from(FEE)), _ => { let f = sym::bits("fee", 32); sym::assume(f >= 1 << 26); Some(Nat::from(f)) } };
    let good_fee = fee_ok(&fee);
    let (memo, created) = aside(now, sym::choose(4));
    ic::w().caller = who(0);
    let pre = snap();
    sym::traps_are_violations("transfer-exact/trap");
    let r = icrc1_transfer(TransferArgs { from_subaccount: from.subaccount, to, amount: Nat::from(amount), fee: fee.clone(), memo: memo.clone(), created_at_time: created });
    let enough = (amount <= u128::MAX - FEE) & (b0 >= amount.wrapping_add(FEE));
    match r {
        Ok(i) => {
            let post = universal(&pre, &[now], now);
            chk!("transfer-exact", enough & good_fee);
            if same { chk!("transfer-exact", post.of(&from) == b0.wrapping_sub(FEE)); }
            else { chk!("transfer-exact", (post.of(&from) == b0.wrapping_sub(amount).wrapping_sub(FEE)) & (post.of(&to) == b1.wrapping_add(amount))); }
            chk!("transfer-exact", balances_same(&pre, &post, &[from, to]) & allowances_same(&pre, &post, &[]));
            chk!("transfer-exact", post.supply == pre.supply.wrapping_sub(FEE));
            chk!("transfer-exact", is(&i, pre.blocks as u128));
            let b = last_block();
            chk!("block-replay", (b.effective_fee == if fee.is_none() { Some(FEE) } else { None }) & same_memo(&b.transaction.memo, &memo) & opt_eq64(b.transaction.created_at_time, created));
            chk!("block-replay", match b.transaction.operation { Operation::Transfer { from: f, to: t, spender, amount: a, fee: x } => (f == from) & (t == to) & spender.is_none() & (a == amount) & (x == if fee.is_some() { Some(FEE) } else { None }), _ => false });
            sym::cover("ok");
        }
        Err(e) => {
            let post = snap();
            chk!("rejection-no-effect", untouched(&pre, &post));
            match e {
                TransferError::BadFee { expected_fee } => { chk!("transfer-exact", !good_fee & is(&expected_fee, FEE)); sym::cover("bad fee"); }
                TransferError::InsufficientFunds { balance } => { chk!("transfer-exact", good_fee & !enough & is(&balance, b0)); sym::cover("insufficient"); }
                _ => chk!("transfer-exact", false),
            }
        }
    }
}
