//! Shared pieces of the harnesses: a small universe of accounts, symbolic amounts and times,
//! arbitrary (invariant-respecting) ledger states, and observations of the state.
// the endpoints of main.rs; everything else is named, so as not to depend on what main.rs happens to import
pub use super::super::*;
pub use super::{ic, sym};
pub use candid::{Nat, Principal};
pub use cycles_ledger::storage::{self, mutate_state, read_state};
pub use icrc_ledger_types::icrc1::transfer::{Memo, TransferArg as TransferArgs, TransferError};
pub use icrc_ledger_types::icrc103::get_allowances::{Allowances, GetAllowancesArgs};
pub use icrc_ledger_types::icrc106::errors::Icrc106Error;
pub use icrc_ledger_types::icrc2::allowance::{Allowance, AllowanceArgs};
pub use icrc_ledger_types::icrc2::approve::{ApproveArgs, ApproveError};
pub use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};
pub use num_traits::ToPrimitive;
pub use cycles_ledger::config::{Config, FEE};
pub use cycles_ledger::endpoints::*;
pub use cycles_ledger::storage::{AccountKey, ApprovalKey, Block, Operation, Transaction};
pub use icrc_ledger_types::icrc1::account::Account;
pub use serde_bytes::ByteBuf;

// ---------------------------------------------------------------- the universe
/// 0: a user (29 bytes, self-authenticating), 1 and 2: canisters (10 bytes), 3: another user
pub fn who(i: u32) -> Principal {
    match i {
        0 => { let mut b = [0xA1u8; 29]; b[28] = 2; Principal::from_slice(&b) }
        1 => Principal::from_slice(&[0, 0, 0, 0, 0, 0xB0, 0, 7, 1, 1]),
        2 => Principal::from_slice(&[0, 0, 0, 0, 0, 0xC0, 0, 9, 1, 1]),
        _ => { let mut b = [0xD4u8; 29]; b[28] = 2; Principal::from_slice(&b) }
    }
}
pub const SUB: [u8; 32] = [0x5B; 32];
pub fn acc(i: u32) -> Account { Account { owner: who(i), subaccount: None } }
pub fn zacc(i: u32) -> Account { Account { owner: who(i), subaccount: Some([0; 32]) } }
pub fn sacc(i: u32) -> Account { Account { owner: who(i), subaccount: Some(SUB) } }
/// Every account with a slot in the snapshots.
pub fn slot_accounts() -> [Account; 6] { [acc(0), sacc(0), acc(1), sacc(1), acc(2), acc(3)] }

// ---------------------------------------------------------------- symbolic values
/// An amount from one of the size classes; within a class the amount, and what is left of it after a fee or two,
/// have one serialised length, so that the harness need not split on it.
/// 0: zero, 1: 1..=23, 2: [2^56 + 2^40, 2^63), 3: [2^65, 2^70), 4: [2^120, 2^126),
/// 5: [2^24, 2^28) in four parts: up to a fee, a fee and a little, up to two fees, more
pub fn amount_class(name: &str, class: u32) -> u128 {
    match class {
        0 => 0,
        1 => sym::ranged(name, 5, 1, 23) as u128,
        2 => sym::ranged(name, 63, (1 << 56) + (1 << 40), (1 << 63) - 1) as u128,
        5 => match sym::choose(4) {
            0 => sym::ranged(name, 28, 1 << 24, FEE as u64) as u128,
            1 => sym::ranged(name, 28, FEE as u64 + 1, FEE as u64 + 23) as u128,
            2 => sym::ranged(name, 28, FEE as u64 + (1 << 24), 2 * FEE as u64) as u128,
            _ => sym::ranged(name, 28, 2 * FEE as u64 + 1, (1 << 28) - 1) as u128,
        },
        3 => { let lo = sym::bits(name, 64); let hi = sym::ranged(name, 6, 2, 63); (hi as u128) << 64 | lo as u128 }
        _ => { let lo = sym::bits(name, 64); let hi = sym::ranged(name, 62, 1 << 56, (1 << 62) - 1); (hi as u128) << 64 | lo as u128 }
    }
}
pub fn amount(name: &str, classes: &[u32]) -> u128 {
    if classes.len() == 1 { return amount_class(name, classes[0]); }
    amount_class(name, classes[sym::choose(classes.len() as u32) as usize])
}
/// any value whatsoever
pub fn any128(name: &str) -> u128 { sym::u128(name) }
/// a present-day time: [2^60, 2^61) nanoseconds (July 2006 to 2043)
pub fn time(name: &str) -> u64 { sym::ranged(name, 61, 1 << 60, (1 << 61) - 1) }
pub fn later(name: &str, t: u64) -> u64 { let u = time(name); sym::assume(u >= t); u }
/// a creation time within the window
pub fn recently(now: u64) -> u64 { let t = time("created"); sym::assume((t <= now.wrapping_add(60_000_000_000)) & (t >= now.wrapping_sub(86_400_000_000_000))); t }
/// what may accompany a request, and must change nothing but what its block says
pub fn aside(now: u64, k: u32) -> (Option<Memo>, Option<u64>) {
    let memo = if k & 1 != 0 { Some(Memo(ByteBuf::from(vec![7u8; 5]))) } else { None };
    (memo, if k & 2 != 0 { Some(recently(now)) } else { None })
}
pub fn same_memo(a: &Option<Memo>, b: &Option<Memo>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => bytes_eq(&a.0, &b.0), _ => false } }
pub fn nat(n: &Nat) -> Option<u128> { n.0.to_u128() }
pub fn is(n: &Nat, v: u128) -> bool { match nat(n) { Some(x) => x == v, None => false } }
pub fn huge() -> Nat { Nat(Nat::from(u128::MAX).0 + 1u32) }

// ---------------------------------------------------------------- states
pub fn config_default() -> Config { Config { max_blocks_per_request: 100, index_id: None, initial_balances: None } }
pub const T0: u64 = (1 << 60) - 1_000_000;
/// a ledger with one block (index 0), a deposit to an account outside the universe
pub fn ledger() -> u64 {
    ic::w().time = T0;
    init(LedgerArgs::Init(config_default()));
    ic::w().caller = who(3);
    ic::w().cycles_available = 5 * FEE;
    deposit(DepositArg { to: Account { owner: Principal::from_slice(&[9, 9]), subaccount: None }, memo: None });
    ic::w().cycles_available = 0;
    ic::w().cycles_accepted = 0;
    let now = time("now");
    ic::w().time = now;
    now
}
/// Give accounts balances. The total supply is any number below 2^122 that is not less than one of them (so
/// in particular their sum plus whatever other accounts hold).
pub fn fund(bals: &[(Account, u128)]) {
    let lo = sym::bits("supply", 64);
    let hi = sym::bits("supply", 58);
    let supply = (hi as u128) << 64 | lo as u128;
    sym::assume(supply >= read_state(|s| s.total_supply()));
    for (_, b) in bals { sym::assume(supply >= *b); }
    mutate_state(|s| {
        for (a, b) in bals { s.balances.insert(storage::to_account_key(a), *b); }
        s.cache.total_supply = supply;
    });
}
/// As fund, with a total supply of at least 2^120 cycles (more than any one account can have).
pub fn fund_much(bals: &[(Account, u128)]) {
    let supply = much_supply("supply");
    mutate_state(|s| {
        for (a, b) in bals { s.balances.insert(storage::to_account_key(a), *b); }
        s.cache.total_supply = supply;
    });
}
pub fn much_supply(name: &str) -> u128 { let lo = sym::bits(name, 64); (sym::ranged(name, 58, 1 << 56, (1 << 58) - 1) as u128) << 64 | lo as u128 }
/// a balance of 2^64 to 2^120 cycles
pub fn much(name: &str) -> u128 { let lo = sym::bits(name, 64); (sym::ranged(name, 56, 1, (1 << 56) - 1) as u128) << 64 | lo as u128 }
/// any balance that is stored (zero balances are not), up to 2^120 cycles
pub fn balance(name: &str) -> u128 { let lo = sym::bits(name, 64); let hi = sym::bits(name, 56); sym::assume((lo != 0) | (hi != 0)); (hi as u128) << 64 | lo as u128 }
/// install an approval as the ledger stores it
pub fn grant(from: &Account, spender: &Account, amount: u128, expires_at: u64) {
    let key = (storage::to_account_key(from), storage::to_account_key(spender));
    mutate_state(|s| {
        s.approvals.insert(key, (amount, expires_at));
        if expires_at > 0 { s.expiration_queue.insert((expires_at, key), ()); }
    });
}

// ---------------------------------------------------------------- observations
pub struct Snap {
    pub bal: Vec<(AccountKey, u128)>,
    pub appr: Vec<(ApprovalKey, (u128, u64))>,
    pub queue: Vec<(u64, ApprovalKey)>,
    pub supply: u128,
    pub blocks: u64,
    pub tip: Option<[u8; 32]>,
    pub hashes: u64,
    pub stamps: u64,
    pub certified: Option<Vec<u8>>,
    pub calls: u32,
    pub accepted: u128,
    pub sent: u128,
    pub raw0: Vec<u8>,
}
pub fn snap() -> Snap {
    let mut r = read_state(|s| Snap {
        bal: s.balances.iter().collect(),
        appr: s.approvals.iter().collect(),
        queue: s.expiration_queue.iter().map(|(k, _)| k).collect(),
        supply: s.total_supply(),
        blocks: s.blocks.len(),
        tip: s.last_block_hash(),
        hashes: s.transaction_hashes.len(),
        stamps: s.transaction_timestamps.len(),
        certified: None, calls: 0, accepted: 0, sent: 0,
        raw0: { use ic_stable_structures::Storable; s.blocks.get(0).map_or(vec![], |b| b.to_bytes().into_owned()) },
    });
    r.certified = ic::w().certified.clone();
    r.calls = ic::w().calls_made;
    r.accepted = ic::w().cycles_accepted;
    r.sent = ic::w().cycles_sent;
    r
}
impl Snap {
    pub fn of(&self, a: &Account) -> u128 { let k = storage::to_account_key(a); self.bal.iter().find(|x| x.0 == k).map_or(0, |x| x.1) }
    pub fn allowance(&self, f: &Account, s: &Account) -> (u128, u64) { let k = (storage::to_account_key(f), storage::to_account_key(s)); self.appr.iter().find(|x| x.0 == k).map_or((0, 0), |x| x.1) }
    pub fn sum(&self) -> (u128, bool) { let mut t = 0u128; let mut ok = true; for (_, b) in &self.bal { let n = t.wrapping_add(*b); ok &= n >= t; t = n; } (t, ok) }
}
fn key_in(k: &AccountKey, l: &[Account]) -> bool { l.iter().any(|a| storage::to_account_key(a) == *k) }
/// no balance differs, except possibly those of the listed accounts
pub fn balances_same(a: &Snap, b: &Snap, except: &[Account]) -> bool {
    let mut ok = true;
    for (k, v) in &a.bal { if !key_in(k, except) { ok &= b.bal.iter().find(|x| x.0 == *k).map_or(0, |x| x.1) == *v; } }
    for (k, v) in &b.bal { if !key_in(k, except) && !a.bal.iter().any(|x| x.0 == *k) { ok &= *v == 0; } }
    ok
}
/// no allowance differs, except possibly the listed (from, spender) pairs
pub fn allowances_same(a: &Snap, b: &Snap, except: &[(Account, Account)]) -> bool {
    let ex: Vec<ApprovalKey> = except.iter().map(|(f, s)| (storage::to_account_key(f), storage::to_account_key(s))).collect();
    let mut ok = true;
    for (k, v) in &a.appr { if !ex.contains(k) { let w = b.appr.iter().find(|x| x.0 == *k).map_or((0, 0), |x| x.1); ok &= (w.0 == v.0) & (w.1 == v.1); } }
    for (k, v) in &b.appr { if !ex.contains(k) && !a.appr.iter().any(|x| x.0 == *k) { ok &= v.0 == 0; } }
    ok
}
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a.iter().zip(b).fold(0u8, |d, (x, y)| d | (x ^ y)) == 0 }
/// nothing observable differs
pub fn untouched(a: &Snap, b: &Snap) -> bool {
    let mut ok = balances_same(a, b, &[]) & allowances_same(a, b, &[]);
    ok &= (a.supply == b.supply) & (a.blocks == b.blocks) & (a.hashes == b.hashes) & (a.stamps == b.stamps) & (a.queue.len() == b.queue.len());
    ok &= (a.calls == b.calls) & (a.accepted == b.accepted);
    ok &= match (&a.tip, &b.tip) { (Some(x), Some(y)) => bytes_eq(x, y), (None, None) => true, _ => false };
    ok &= match (&a.certified, &b.certified) { (Some(x), Some(y)) => bytes_eq(x, y), (None, None) => true, _ => false };
    ok
}
/// the block at an index, decoded from the log
pub fn block(i: u64) -> Block { read_state(|s| s.blocks.get(i).unwrap().0) }
pub fn last_block() -> Block { block(read_state(|s| s.blocks.len()) - 1) }

// ---------------------------------------------------------------- asynchronous calls
#[derive(Clone, Copy, PartialEq)]
pub enum Fate {
    /// the callee replies
    Reply,
    /// the callee (or the system) rejects with this code
    Reject(u32),
    /// the call cannot be enqueued
    Perform(u32),
    /// not enough liquid cycles for the call
    Liquid,
}
pub fn arrange(f: Fate) {
    ic::w().perform_error = 0;
    ic::w().balance = u128::MAX / 2;
    match f { Fate::Perform(c) => ic::w().perform_error = c, Fate::Liquid => ic::w().balance = 0, _ => {} }
}
pub fn opt_fee(k: u32) -> Option<Nat> { match k { 0 => None, _ => Some(Nat::from(FEE)) } }

/// an assertion of a property, with its place in the harness
#[macro_export]
macro_rules! chk { ($id:literal, $c:expr) => { $crate::verif::sym::check($c, concat!($id, "/", file!(), ":", line!())) } }
pub use crate::chk;

// ---------------------------------------------------------------- what must hold after every message
/// What a message may have recorded: blocks with these timestamps, in this order.
pub struct Effects<'a> { pub times: &'a [u64] }

fn balance_in(v: &[(AccountKey, u128)], k: &AccountKey) -> u128 { v.iter().find(|x| x.0 == *k).map_or(0, |x| x.1) }
fn set_in(v: &mut Vec<(AccountKey, u128)>, k: AccountKey, b: u128) { match v.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = b, None => v.push((k, b)) } }
pub fn grant_in(v: &[(ApprovalKey, (u128, u64))], k: &ApprovalKey) -> (u128, u64) { v.iter().find(|x| x.0 == *k).map_or((0, 0), |x| x.1) }
fn set_grant(v: &mut Vec<(ApprovalKey, (u128, u64))>, k: ApprovalKey, g: (u128, u64)) { match v.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = g, None => v.push((k, g)) } }

/// Replays blocks [from, to) on a snapshot's balances and allowances, the way a client reading the log would.
pub struct Replay { pub bal: Vec<(AccountKey, u128)>, pub appr: Vec<(ApprovalKey, (u128, u64))>, pub supply: u128, pub ok: bool }
pub fn replay(pre: &Snap, from: u64, to: u64) -> Replay {
    let mut r = Replay { bal: pre.bal.clone(), appr: pre.appr.clone(), supply: pre.supply, ok: true };
    for i in from..to {
        let b = block(i);
        let take = |r: &mut Replay, a: &Account, n: u128| { let k = storage::to_account_key(a); let old = balance_in(&r.bal, &k); r.ok &= old >= n; set_in(&mut r.bal, k, old.wrapping_sub(n)); r.supply = r.supply.wrapping_sub(n); };
        let give = |r: &mut Replay, a: &Account, n: u128| { let k = storage::to_account_key(a); let old = balance_in(&r.bal, &k); let new = old.wrapping_add(n); r.ok &= new >= old; set_in(&mut r.bal, k, new); r.supply = r.supply.wrapping_add(n); };
        let consume = |r: &mut Replay, f: &Account, s: &Account, n: u128| if f != s {
            let k = (storage::to_account_key(f), storage::to_account_key(s));
            let g = grant_in(&r.appr, &k);
            r.ok &= (g.0 >= n) & ((g.1 == 0) | (g.1 > b.timestamp));
            set_grant(&mut r.appr, k, (g.0.wrapping_sub(n), g.1));
        };
        match &b.transaction.operation {
            Operation::Mint { to, amount, .. } => give(&mut r, to, *amount),
            Operation::Burn { from, spender, amount } => {
                let all = amount.wrapping_add(b.effective_fee.unwrap_or(0));
                if let Some(s) = spender { consume(&mut r, from, s, all) }
                take(&mut r, from, all);
            }
            Operation::Transfer { from, to, spender, amount, fee } => {
                let all = amount.wrapping_add(b.effective_fee.or(*fee).unwrap_or(0));
                if let Some(s) = spender { consume(&mut r, from, s, all) }
                take(&mut r, from, all);
                give(&mut r, to, *amount);
            }
            Operation::Approve { from, spender, amount, expires_at, fee, .. } => {
                take(&mut r, from, b.effective_fee.or(*fee).unwrap_or(0));
                set_grant(&mut r.appr, (storage::to_account_key(from), storage::to_account_key(spender)), (*amount, expires_at.unwrap_or(0)));
            }
        }
    }
    r
}
/// the allowances in force at a time agree
pub fn same_grants(a: &[(ApprovalKey, (u128, u64))], b: &[(ApprovalKey, (u128, u64))], now: u64) -> bool {
    let one = |x: (u128, u64), y: (u128, u64)| {
        let dead = |g: (u128, u64)| (g.0 == 0) | ((g.1 != 0) & (g.1 <= now));
        (dead(x) & dead(y)) | ((x.0 == y.0) & (x.1 == y.1))
    };
    let mut ok = true;
    for (k, v) in a { ok &= one(*v, grant_in(b, k)); }
    for (k, v) in b { if !a.iter().any(|x| x.0 == *k) { ok &= one(*v, (0, 0)); } }
    ok
}
pub fn h256(parts: &[&[u8]]) -> [u8; 32] { use sha2::Digest; let mut h = sha2::Sha256::new(); for p in parts { h.update(p); } h.finalize().into() }
/// the digest of the hash tree that certifies a tip, computed from its definition
pub fn tip_root(index: u64, hash: &[u8; 32]) -> [u8; 32] {
    let sep = |s: &str| { let mut v = vec![s.len() as u8]; v.extend_from_slice(s.as_bytes()); v };
    let mut leb = vec![];
    let mut n = index;
    loop { let b = (n & 0x7f) as u8; n >>= 7; if n == 0 { leb.push(b); break; } leb.push(b | 0x80); }
    let leaf = |b: &[u8]| h256(&[&sep("ic-hashtree-leaf"), b]);
    let lab = |l: &str, h: [u8; 32]| h256(&[&sep("ic-hashtree-labeled"), l.as_bytes(), &h]);
    let a = lab("last_block_hash", leaf(hash));
    let b = lab("last_block_index", leaf(&leb));
    h256(&[&sep("ic-hashtree-fork"), &a, &b])
}
pub fn hash_eq(a: &Option<[u8; 32]>, b: &Option<[u8; 32]>) -> bool { match (a, b) { (Some(x), Some(y)) => bytes_eq(x, y), (None, None) => true, _ => false } }

/// What left an account, left it by its owner or within an allowance the caller had and no longer has.
/// The continuation after an outgoing call may charge one more fee, and restores an allowance only if it credits its account.
pub fn authorized(pre: &Snap, post: &Snap, now: u64) {
    let caller = ic::w().caller;
    let back = ic::w().continuing;
    let mut ok = true;
    let live = |g: (u128, u64)| if_u128((g.1 == 0) | (g.1 > now), g.0, 0);
    for (k, b) in &pre.bal {
        let left = balance_in(&post.bal, k);
        let drop = if_u128(left < *b, b.wrapping_sub(left), 0);
        let mut may = if back { drop <= FEE } else { k.0 == caller };
        if !back {
            for (g, a) in &pre.appr {
                if g.0 == *k && g.1.0 == caller {
                    let rest = live(grant_in(&post.appr, g));
                    may |= (live(*a) >= rest) & (live(*a).wrapping_sub(rest) >= drop);
                }
            }
        }
        ok &= may | (drop == 0);
    }
    chk!("authorization", ok);
    let mut ok = true;
    for (g, a) in &post.appr {
        let old = grant_in(&pre.appr, g);
        if back {
            let (x, y) = (balance_in(&post.bal, &g.0), balance_in(&pre.bal, &g.0));
            let (n, o) = (live(*a), live(old));
            ok &= (n <= o) | (x > y);
        } else if g.0.0 != caller {
            ok &= (a.0 <= old.0) & (a.1 == old.1);
            if g.1.0 != caller { ok &= a.0 == old.0; }
        }
    }
    for (g, a) in &pre.appr {
        // unused allowances of others do not vanish
        if !back && g.0.0 != caller && g.1.0 != caller { ok &= live(grant_in(&post.appr, g)) == live(*a); }
    }
    chk!("authorization", ok);
}
fn if_u128(c: bool, a: u128, b: u128) -> u128 { let m = (c as u128).wrapping_neg(); (a & m) | (b & !m) }

/// Everything that must hold of the step from `pre` to the present, whatever the message was.
/// `times`: the times at which the blocks recorded since then were made. `now`: the present time.
pub fn universal(pre: &Snap, times: &[u64], now: u64) -> Snap {
    let post = snap();
    // supply
    let mut a = 0u128;
    for (k, b) in &post.bal { a = a.wrapping_add(b.wrapping_sub(balance_in(&pre.bal, k))); }
    for (k, b) in &pre.bal { if !post.bal.iter().any(|x| x.0 == *k) { a = a.wrapping_sub(*b); } }
    chk!("supply-conservation", a == post.supply.wrapping_sub(pre.supply));
    // the chain
    chk!("block-chain", (post.blocks >= pre.blocks) & (post.blocks == pre.blocks + times.len() as u64));
    if pre.blocks > 0 { chk!("block-chain", bytes_eq(&pre.raw0, &post.raw0)); }
    let mut prev = pre.tip;
    for (n, i) in (pre.blocks..post.blocks).enumerate() {
        let b = block(i);
        chk!("block-chain", hash_eq(&b.phash, &prev));
        chk!("block-chain", b.timestamp == times[n]);
        prev = Some(b.hash());
    }
    chk!("block-chain", hash_eq(&post.tip, &prev));
    // the certificate
    if post.blocks > pre.blocks {
        let want = tip_root(post.blocks - 1, &prev.unwrap());
        chk!("tip-certificate", match &post.certified { Some(c) => bytes_eq(c, &want), None => false });
    } else {
        chk!("tip-certificate", match (&pre.certified, &post.certified) { (Some(c), Some(d)) => bytes_eq(c, d), (None, None) => true, _ => false });
    }
    // the log tells everything
    let r = replay(pre, pre.blocks, post.blocks);
    chk!("block-replay", r.ok);
    let mut ok = true;
    for (k, v) in &r.bal { ok &= balance_in(&post.bal, k) == *v; }
    for (k, v) in &post.bal { if !r.bal.iter().any(|x| x.0 == *k) { ok &= *v == 0; } }
    chk!("block-replay", ok);
    chk!("block-replay", same_grants(&r.appr, &post.appr, now));
    chk!("block-replay", r.supply == post.supply);
    // nobody's cycles or allowances without their owner
    authorized(pre, &post, now);
    // expired grants may go, others not; the queue holds exactly the expiring grants
    let mut n = 0usize;
    for (_, g) in &post.appr { n += (g.1 != 0) as usize; }
    let mut ok = post.queue.len() == n;
    for (e, k) in &post.queue { ok &= grant_in(&post.appr, k).1 == *e; }
    chk!("allowance-expiry", ok);
    // cycles: what the ledger owes grew by no more than what it holds
    let held = post.accepted.wrapping_sub(pre.accepted).wrapping_sub(post.sent.wrapping_sub(pre.sent));
    let owed = post.supply.wrapping_sub(pre.supply);
    chk!("cycles-backing", held.wrapping_sub(owed) <= i128::MAX as u128);
    post
}
