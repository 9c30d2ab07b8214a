//! Ledgers with a longer past: block indices of more than one byte, many requests to remember.
use super::env::*;
use super::ops::*;
use super::h_dedup::{DRIFT, WINDOW};

fn deposits(n: u64) {
    ic::w().caller = who(3);
    for _ in 0..n {
        ic::w().cycles_available = 5 * FEE;
        deposit(DepositArg { to: acc(3), memo: None });
    }
    ic::w().cycles_available = 0;
    ic::w().cycles_accepted = 0;
}
/// One more operation after many; what is certified, recorded and shown has the right index.
#[no_mangle]
pub extern "C" fn h_long_log() {
    ledger();
    // (the ledger has one block already)
    let n = [127u64, 128, 255, 256, 300][sym::choose(5) as usize];
    ic::w().time = T0;
    deposits(n - 1);
    let now = time("later");
    ic::w().time = now;
    affluent(now);
    sym::traps_are_violations("block-chain/trap");
    let pre = snap();
    chk!("block-chain", pre.blocks == n);
    chk!("tip-certificate", bytes_eq(pre.certified.as_ref().unwrap(), &tip_root(n - 1, &pre.tip.unwrap())));
    let amount = amount_class("amount", 2);
    let op = sym::choose(4);
    let r = Req { amount, at: if sym::coin() { Some(now) } else { None }, ..plain(op) };
    let res = run(&r);
    chk!("block-chain", match res { Res::Done(i) => i == n as u128, Res::Pending(_) => op == 3, _ => false });
    let post = universal(&pre, &[now], now);
    if r.at.is_some() {
        match run(&r) { Res::Dup(i, _) => chk!("deduplication", i == n as u128), _ => chk!("deduplication", false) }
        sym::cover("duplicate");
    }
    // the blocks around there
    sym::traps_are_violations("get-blocks/trap");
    let start = n - 2 + sym::choose(5) as u64;
    let length = sym::u64("length");
    let r = icrc3_get_blocks(vec![GetBlocksArg { start: Nat::from(start), length: Nat::from(length) }]);
    chk!("get-blocks", is(&r.log_length, n as u128 + 1));
    for (k, b) in r.blocks.iter().enumerate() { chk!("get-blocks", is(&b.id, start as u128 + k as u128) & (b.block == block(start + k as u64).to_value())); }
    let there = (n + 1).saturating_sub(start);
    chk!("get-blocks", r.blocks.len() as u64 == if length < there { length } else { there });
    sym::cover("recent");
    let _ = post;
}
/// No more blocks at once than configured, whatever is asked for.
#[no_mangle]
pub extern "C" fn h_long_page() {
    ledger();
    ic::w().time = T0;
    let n = 104u64;
    deposits(n - 1);
    sym::traps_are_violations("get-blocks/trap");
    let (from, to) = (90 + sym::choose(15) as u64, sym::u64("length"));
    // two ranges, one after the other
    let r = icrc3_get_blocks(vec![GetBlocksArg { start: Nat::from(0u8), length: Nat::from(from) }, GetBlocksArg { start: Nat::from(from), length: Nat::from(to) }]);
    let first = if from < 100 { from } else { 100 };
    let want = first + { let rest = 100 - first; let there = if from > n { 0 } else { n - from }; let m = if rest < there { rest } else { there }; if to < m { to } else { m } };
    chk!("get-blocks", r.blocks.len() as u64 == want);
    chk!("get-blocks", is(&r.log_length, n as u128));
    for (k, b) in r.blocks.iter().enumerate() { chk!("get-blocks", is(&b.id, k as u128)); if k % 33 == 0 || k > 95 { chk!("get-blocks", b.block == block(k as u64).to_value()); } }
    sym::cover("page");
}
/// Many recent requests are remembered, each for as long as it would be acceptable; those that are too old are
/// tidied up no more than some at a time.
#[no_mangle]
pub extern "C" fn h_long_memory() {
    ledger();
    ic::w().time = T0;
    // (nothing but the time is symbolic here)
    mutate_state(|s| { for a in [acc(0), acc(3)] { s.balances.insert(storage::to_account_key(&a), 1 << 80); s.cache.total_supply += 1 << 80; } });
    const N: u64 = 106;
    // (in the order of the blocks the creation times go up and down)
    let start = (1u64 << 60) + WINDOW + 1000;
    let created = |i: u64| start + 10 * ((i * 37) % N);
    ic::w().time = start;
    for i in 0..N { chk!("deduplication", run(&Req { at: Some(created(i)), amount: 5 + i as u128, ..plain(0) }).taken()); }
    sym::traps_are_violations("deduplication/trap");
    let t = start + DRIFT + WINDOW - 100 + sym::ranged("later", 12, 0, 20 * N + 100);
    ic::w().time = t;
    let rounds = 1 + sym::choose(2);
    for _ in 0..rounds { chk!("deduplication", run(&Req { from: acc(3), to: acc(2), amount: 5, ..plain(0) }).taken()); }
    let pre = snap();
    for i in [0, 1, 17, 55, 86, 104, 105] {
        match run(&Req { at: Some(created(i)), amount: 5 + i as u128, ..plain(0) }) {
            Res::Dup(j, _) => { chk!("deduplication", j == 1 + i as u128); sym::cover("duplicate"); }
            Res::TooOld => { chk!("deduplication", created(i) + WINDOW + DRIFT < t); sym::cover("too old by now"); }
            _ => chk!("deduplication", false),
        }
    }
    chk!("rejection-no-effect", untouched(&pre, &snap()));
    chk!("deduplication", pre.hashes == pre.stamps);
}
