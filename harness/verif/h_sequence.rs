//! Sequences of requests: what the ledger says afterwards is what the requests, one after another, amount to.
use super::env::*;
use super::h_burn::Out;
use super::ops::*;
use candid::Encode;

/// the ledger as its users think of it
struct Books { bal: [u128; 3], allowed: u128, expiry: u64, supply: u128, blocks: u128 }
const WHO: [u32; 3] = [0, 1, 2];
fn said(a: Account) -> u128 { nat(&icrc1_balance_of(a)).unwrap() }
fn compare(b: &Books, now: u64) {
    for (i, w) in WHO.iter().enumerate() { chk!("sequences", said(acc(*w)) == b.bal[i]); }
    let a = icrc2_allowance(AllowanceArgs { account: acc(0), spender: acc(1) });
    let live = (b.expiry == 0) | (b.expiry > now);
    let m = (live as u128).wrapping_neg();
    chk!("sequences", nat(&a.allowance).unwrap() == b.allowed & m);
    chk!("sequences", is(&icrc1_total_supply(), b.supply));
    chk!("sequences", read_state(|s| s.blocks.len()) as u128 == b.blocks);
}
fn answer(call: ic::PendingCall, reply: bool, create: bool) {
    let back = if reply { 0 } else { call.cycles };
    let answer = match (reply, create) { (true, false) => Ok(b"DIDL\0\0".to_vec()), (true, true) => Ok(Encode!(&Ok::<Principal, CmcCreateCanisterError>(who(1))).unwrap()), _ => Err(4) };
    sym::formatting(true);
    ic::deliver(call, answer, back);
    sym::formatting(false);
}
/// (which request, from which account of WHO, to which, what the callee answers)
const KINDS: [(u32, usize, usize, bool); 10] = [
    (0, 0, 2, true), (1, 0, 2, true), (2, 0, 1, true), (3, 0, 0, true), (4, 0, 0, false),
    (5, 0, 0, false), (6, 0, 0, true), (0, 2, 0, true), (7, 0, 0, true), (0, 0, 0, true),
];
fn step(b: &mut Books, kind: u32, n: u128, now: u64) {
    let (op, from, to, reply) = KINDS[kind as usize];
    if op == 7 {
        ic::w().caller = who(3);
        ic::w().cycles_available = n + FEE;
        let r = deposit(DepositArg { to: acc(WHO[to]), memo: None });
        ic::w().cycles_available = 0;
        b.bal[to] += n;
        b.supply += n;
        chk!("sequences", is(&r.balance, b.bal[to]) & is(&r.block_index, b.blocks));
        b.blocks += 1;
        return;
    }
    let lent = on_behalf(op);
    let live = if lent && b.expiry != 0 && b.expiry <= now { 0 } else { b.allowed };
    let need = if op == 2 { FEE } else { n + FEE };
    let r = Req { from: acc(WHO[from]), to: acc(WHO[to]), amount: n, ..plain(op) };
    let r = if op == 3 || op == 4 { Req { to: acc(2), ..r } } else { r };
    let res = run(&r);
    let cell = match res {
        Res::Funds(x) => { chk!("sequences", (b.bal[from] < need) & (x == b.bal[from])); sym::cover("refused"); return }
        Res::Allowance(x) => { chk!("sequences", lent && (live < need) & (x == live)); sym::cover("refused"); return }
        Res::Done(i) => { chk!("sequences", i == b.blocks && op < 3); None }
        Res::Pending(cell) => { chk!("sequences", op >= 3); Some(cell) }
        // (an expired allowance has no error of its own in transfers)
        Res::Other => { chk!("sequences", op == 1 && (b.expiry != 0) & (b.expiry <= now)); sym::cover("expired"); return }
        _ => { chk!("sequences", false); return }
    };
    chk!("sequences", (b.bal[from] >= need) & (!lent | (live >= need)));
    b.bal[from] -= need;
    b.blocks += 1;
    if lent { b.allowed -= need }
    if op < 2 { b.bal[to] += n }
    if op == 2 { b.allowed = n; b.expiry = 0; }
    b.supply -= if op < 3 { FEE } else { need };
    let Some(cell) = cell else { sym::cover("done"); return };
    let call = ic::w().calls.pop().unwrap();
    chk!("sequences", call.cycles == n && ic::w().calls.is_empty());
    answer(call, reply, op >= 5);
    let out = cell.borrow_mut().take();
    match out {
        Some(Out::Ok(i, _)) => { chk!("sequences", reply && is(&i, b.blocks - 1)); sym::cover("done"); }
        Some(Out::Failed(_)) => {
            chk!("sequences", !reply);
            b.bal[from] += n - FEE;
            b.supply += n - FEE;
            b.blocks += 1;
            if lent {
                b.bal[from] -= FEE;
                b.supply -= FEE;
                b.allowed += n - 2 * FEE;
                b.blocks += 1;
            }
            sym::cover("failed");
        }
        _ => chk!("sequences", false),
    }
}
#[no_mangle]
pub extern "C" fn h_sequence() {
    let mut now = ledger();
    // either what there is, or what is asked for, is arbitrary
    let rich = sym::coin();
    let (b0, allowed) = if rich {
        (sym::ranged("balance", 31, 1 << 29, (1 << 31) - 1) as u128, sym::ranged("allowance", 31, 1 << 28, (1 << 31) - 1) as u128)
    } else { (4 * FEE + (3 << 28), 3 * FEE + (2 << 28)) };
    let b2 = 1 << 29;
    fund_much(&[(acc(0), b0), (acc(2), b2)]);
    let supply = nat(&icrc1_total_supply()).unwrap();
    let expiry = if sym::coin() { let e = time("expires_at"); sym::assume(e > now); e } else { 0 };
    grant(&acc(0), &acc(1), allowed, expiry);
    sym::traps_are_violations("sequences/trap");
    let n = if rich { (1 << 28) + 12345 } else { sym::ranged("amount", 29, 1 << 28, (1 << 29) - 5) as u128 };
    let mut b = Books { bal: [b0, 0, b2], allowed, expiry, supply, blocks: read_state(|s| s.blocks.len()) as u128 };
    for k in 0..if sym::get(90) != 0 { 4 } else { 3 } {
        // (the last step sees what the others left behind)
        let kind = if k == 2 { [0, 1, 2, 4, 5][sym::choose(5) as usize] } else { sym::choose(KINDS.len() as u32) };
        step(&mut b, kind, n + k, now);
        compare(&b, now);
        let t = later("later", now);
        ic::w().time = t;
        now = t;
    }
    compare(&b, now);
}
