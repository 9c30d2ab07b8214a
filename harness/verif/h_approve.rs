//! icrc2_approve: what is recorded is what was asked for, and it is refused exactly when it should be.
use super::env::*;
use super::h_transfer::fee_ok;
use super::h_transfer_from::{in_force, some_grant};

#[no_mangle]
pub extern "C" fn h_approve() {
    let now = ledger();
    let from = if sym::coin() { acc(0) } else { sacc(0) };
    let spender = if sym::coin() { acc(1) } else { sacc(1) };
    let b0 = if sym::coin() { balance("from") } else { 0 };
    let mut f = vec![(acc(2), balance("other"))];
    if b0 != 0 { f.push((from, b0)); }
    fund(&f);
    let g = some_grant(&from, &spender);
    grant(&from, &acc(3), balance("other allowance"), 0);
    grant(&acc(2), &spender, balance("other allowance"), 0);
    let now_allowed = in_force(g, now);
    let amount = amount("amount", &[0, 1, 3]);
    let expected = match sym::choose(3) { 0 => None, 1 => Some(amount_class("expected", 0)), _ => Some(amount_class("expected", 3)) };
    let expires_at = if sym::coin() { None } else { let e = sym::u64("expires_at"); sym::assume(e >= 1 << 32); Some(e) };
    let fee = if sym::coin() { None } else { let f = sym::bits("fee", 32); sym::assume(f >= 1 << 26); Some(Nat::from(f)) };
    let good_fee = fee_ok(&fee);
    let (memo, created) = aside(now, 3 * sym::choose(2));
    ic::w().caller = who(0);
    let pre = snap();
    sym::traps_are_violations("approve-exact/trap");
    let r = icrc2_approve(ApproveArgs { from_subaccount: from.subaccount, spender, amount: Nat::from(amount), expected_allowance: expected.map(Nat::from), expires_at, fee: fee.clone(), memo: memo.clone(), created_at_time: created });
    let as_expected = match expected { None => true, Some(x) => x == now_allowed };
    let alive = match expires_at { None => true, Some(e) => e > now };
    match r {
        Ok(i) => {
            let post = universal(&pre, &[now], now);
            chk!("approve-exact", as_expected & alive & good_fee & (b0 >= FEE));
            let got = post.allowance(&from, &spender);
            chk!("approve-exact", (got.0 == amount) & ((amount == 0) | (got.1 == expires_at.unwrap_or(0))));
            chk!("approve-exact", allowances_same(&pre, &post, &[(from, spender)]) & balances_same(&pre, &post, &[from]));
            chk!("approve-exact", (post.of(&from) == b0.wrapping_sub(FEE)) & (post.supply == pre.supply.wrapping_sub(FEE)) & is(&i, pre.blocks as u128));
            let b = last_block();
            chk!("block-replay", match b.transaction.operation { Operation::Approve { from: f, spender: s, amount: a, expected_allowance: x, expires_at: e, fee: y } => (f == from) & (s == spender) & (a == amount) & opt_eq(x, expected) & opt_eq64(e, expires_at) & (y == if fee.is_some() { Some(FEE) } else { None }), _ => false });
            chk!("block-replay", (b.effective_fee == if fee.is_none() { Some(FEE) } else { None }) & same_memo(&b.transaction.memo, &memo) & opt_eq64(b.transaction.created_at_time, created));
            sym::cover("ok");
        }
        Err(e) => {
            let post = snap();
            chk!("rejection-no-effect", untouched(&pre, &post));
            match e {
                ApproveError::BadFee { expected_fee } => { chk!("approve-exact", !good_fee & is(&expected_fee, FEE)); sym::cover("bad fee"); }
                ApproveError::InsufficientFunds { balance } => { chk!("approve-exact", good_fee & (b0 < FEE) & is(&balance, b0)); sym::cover("insufficient funds"); }
                ApproveError::AllowanceChanged { current_allowance } => { chk!("approve-exact", !as_expected & is(&current_allowance, now_allowed)); sym::cover("allowance changed"); }
                ApproveError::Expired { ledger_time } => { chk!("approve-exact", !alive & (ledger_time == now)); sym::cover("expired"); }
                _ => chk!("approve-exact", false),
            }
        }
    }
}
pub fn opt_eq(a: Option<u128>, b: Option<u128>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x == y, _ => false } }
pub fn opt_eq64(a: Option<u64>, b: Option<u64>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x == y, _ => false } }

/// The rare arguments: amounts beyond 128 bits, self-approval, a huge expected allowance or fee.
#[no_mangle]
pub extern "C" fn h_approve_odd() {
    let now = ledger();
    let from = acc(0);
    let b0 = balance("from");
    sym::assume(b0 >= FEE);
    fund(&[(from, b0)]);
    let g = some_grant(&from, &acc(1));
    let cur = in_force(g, now);
    ic::w().caller = who(0);
    let pre = snap();
    sym::traps_are_violations("approve-exact/trap");
    let args = |spender: Account, amount: Nat, expected: Option<Nat>, fee: Option<Nat>| ApproveArgs { from_subaccount: None, spender, amount, expected_allowance: expected, expires_at: None, fee, memo: None, created_at_time: None };
    match sym::choose(5) {
        0 => {
            // more than 128 bits can hold: as much as can be represented
            let r = icrc2_approve(args(acc(1), huge(), None, None));
            let post = universal(&pre, &[now], now);
            chk!("approve-exact", r.is_ok() & (post.allowance(&from, &acc(1)).0 == u128::MAX));
            sym::cover("saturated");
        }
        1 => {
            sym::traps_roll_back();
            let own = match sym::choose(3) { 0 => acc(0), 1 => zacc(0), _ => sacc(0) };
            let r = icrc2_approve(args(own, Nat::from(5u8), None, None));
            chk!("approve-exact", r.is_err());
            chk!("rejection-no-effect", untouched(&pre, &snap()));
        }
        2 => {
            let r = icrc2_approve(args(acc(1), Nat::from(5u8), Some(huge()), None));
            chk!("approve-exact", match r { Err(ApproveError::AllowanceChanged { current_allowance }) => is(&current_allowance, cur), _ => false });
            chk!("rejection-no-effect", untouched(&pre, &snap()));
            sym::cover("huge expected allowance");
        }
        3 => {
            let r = icrc2_approve(args(acc(1), Nat::from(5u8), None, Some(huge())));
            chk!("approve-exact", match r { Err(ApproveError::BadFee { expected_fee }) => is(&expected_fee, FEE), _ => false });
            chk!("rejection-no-effect", untouched(&pre, &snap()));
            sym::cover("huge fee");
        }
        _ => {
            // the management canister takes no part
            let m = Account { owner: Principal::management_canister(), subaccount: None };
            let r = icrc2_approve(args(m, Nat::from(5u8), None, None));
            chk!("approve-exact", matches!(r, Err(ApproveError::GenericError { .. })));
            chk!("rejection-no-effect", untouched(&pre, &snap()));
            sym::cover("denied");
        }
    }
}
