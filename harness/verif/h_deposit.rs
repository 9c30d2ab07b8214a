//! deposit: what is credited is what came in less the fee, and it is refused exactly when it should be.
use super::env::*;
use icrc_ledger_types::icrc1::transfer::Memo;

#[no_mangle]
pub extern "C" fn h_deposit() {
    let now = ledger();
    let (to, slot) = match sym::choose(3) { 0 => (acc(0), acc(0)), 1 => (sacc(1), sacc(1)), _ => (zacc(0), acc(0)) };
    let b0 = if sym::coin() { balance("to") } else { 0 };
    let mut f = vec![(acc(2), balance("other"))];
    if b0 != 0 { f.push((slot, b0)); }
    fund(&f);
    grant(&slot, &acc(3), balance("other allowance"), 0);
    let small = sym::choose(5) == 4;
    let available = if small { let v = sym::bits("available", 27); sym::assume(v <= FEE as u64); v as u128 } else { amount("minted", &[1, 2, 3, 5]).wrapping_add(FEE) };
    let len = match sym::choose(4) { 0 => None, 1 => Some(0usize), 2 => Some(32), _ => Some(33) };
    let memo: Option<Vec<u8>> = len.map(|n| (0..n).map(|_| sym::u8("memo")).collect());
    ic::w().caller = if sym::coin() { who(1) } else { Principal::anonymous() };
    ic::w().cycles_available = available;
    let pre = snap();
    let valid = !small && len != Some(33);
    if valid { sym::traps_are_violations("deposit-exact/trap") } else { sym::traps_roll_back() }
    let r = deposit(DepositArg { to, memo: memo.clone().map(|m| Memo(ByteBuf::from(m))) });
    chk!("deposit-exact", valid);
    sym::traps_are_violations("deposit-exact/trap");
    let post = universal(&pre, &[now], now);
    let minted = available.wrapping_sub(FEE);
    chk!("deposit-exact", is(&r.block_index, pre.blocks as u128) & is(&r.balance, b0.wrapping_add(minted)));
    chk!("deposit-exact", post.accepted.wrapping_sub(pre.accepted) == available);
    chk!("deposit-exact", (post.of(&slot) == b0.wrapping_add(minted)) & (post.supply == pre.supply.wrapping_add(minted)));
    chk!("deposit-exact", balances_same(&pre, &post, &[slot]) & allowances_same(&pre, &post, &[]));
    let b = last_block();
    chk!("block-replay", match b.transaction.operation { Operation::Mint { to: t, amount, fee } => (t == slot) & (amount == minted) & (fee == FEE), _ => false });
    chk!("block-replay", (b.effective_fee == Some(0)) & b.transaction.created_at_time.is_none());
    chk!("memo", match (&b.transaction.memo, &memo) { (Some(m), Some(n)) => bytes_eq(&m.0, n), (None, None) => true, _ => false });
    sym::cover("deposited");
}
