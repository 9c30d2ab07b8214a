//! Memos: recorded as they are, up to the limit.
use super::env::*;
use super::ops::*;

#[no_mangle]
pub extern "C" fn h_memo() {
    let now = ledger();
    affluent(now);
    if sym::choose(4) == 3 { memo_long(); return; }
    let op = sym::choose(3);
    let n = sym::choose(33) as usize;
    let memo: Vec<u8> = (0..n).map(|_| sym::u8("memo")).collect();
    let pre = snap();
    sym::traps_are_violations("memo/trap");
    chk!("memo", run(&Req { memo: Some(memo.clone()), ..plain(op) }).taken());
    let _ = universal(&pre, &[now], now);
    chk!("memo", match last_block().transaction.memo { Some(m) => bytes_eq(&m.0, &memo), None => false });
    chk!("memo", match get_tx_memo(1) { Some(m) => bytes_eq(&m, &memo), None => false });
    sym::cover("recorded");
}
fn get_tx_memo(i: u64) -> Option<Vec<u8>> {
    use icrc_ledger_types::icrc::generic_value::Value;
    let r = icrc3_get_blocks(vec![GetBlocksArg { start: Nat::from(i), length: Nat::from(1u8) }]);
    let Value::Map(m) = &r.blocks.first()?.block else { return None };
    let Value::Map(t) = m.get("tx")? else { return None };
    match t.get("memo")? { Value::Blob(b) => Some(b.to_vec()), _ => None }
}
/// One byte more, or many, and nothing comes of the request.
fn memo_long() {
    let op = sym::choose(4);
    let n = [33usize, 34, 40, 64, 255, 256, 288][sym::choose(7) as usize];
    let memo: Vec<u8> = (0..n).map(|i| if i < 40 { sym::u8("memo") } else { 7 }).collect();
    sym::cover("long");
    let pre = snap();
    sym::traps_roll_back();
    let r = if op < 3 { Some(run(&Req { memo: Some(memo), ..plain(op) })) } else {
        ic::w().cycles_available = 3 * FEE;
        deposit(DepositArg { to: acc(0), memo: Some(Memo(ByteBuf::from(memo))) });
        None
    };
    // (a refusal would do as well)
    chk!("memo", match r { Some(r) => !r.taken(), None => false });
    chk!("memo", untouched(&pre, &snap()));
}
