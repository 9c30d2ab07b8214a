//! Installing and upgrading.
use super::env::*;
use super::ops::*;
use super::h_dedup::*;
use candid::Encode;

/// What the first phase tells the second, in scratch slots from 100.
struct Tape { at: u32, write: bool, ok: bool }
impl Tape {
    fn num(&mut self, v: u64) { if self.write { sym::put(self.at, v) } else { self.ok &= sym::get(self.at) == v } self.at += 1; }
    fn num128(&mut self, v: u128) { self.num(v as u64); self.num((v >> 64) as u64); }
    fn bytes(&mut self, b: &[u8]) { self.num(b.len() as u64); for c in b.chunks(8) { let mut w = [0u8; 8]; w[..c.len()].copy_from_slice(c); self.num(u64::from_le_bytes(w)); } }
}
fn everything(t: &mut Tape, now: u64) {
    let s = snap();
    for a in slot_accounts() {
        t.num128(nat(&icrc1_balance_of(a)).unwrap());
        for b in slot_accounts() { let g = icrc2_allowance(AllowanceArgs { account: a, spender: b }); t.num128(nat(&g.allowance).unwrap()); t.num(g.expires_at.unwrap_or(0)); }
    }
    t.num(s.bal.len() as u64); t.num(s.appr.len() as u64); t.num(s.queue.len() as u64);
    t.num128(nat(&icrc1_total_supply()).unwrap());
    t.num(s.blocks); t.num(s.hashes); t.num(s.stamps);
    t.bytes(&s.tip.unwrap());
    for i in 0..s.blocks { t.bytes(&block(i).hash()); }
    let _ = now;
}
/// A ledger with a past.
#[no_mangle]
pub extern "C" fn h_upgrade() {
    let now = ledger();
    let (b0, b1) = (much("balance"), 1 << 90);
    mutate_state(|s| { for (a, b) in [(acc(0), b0), (sacc(0), b1), (acc(3), 1 << 80)] { s.balances.insert(storage::to_account_key(&a), b); s.cache.total_supply += b; } });
    let e = time("expiry");
    sym::assume(e > now);
    grant(&acc(0), &acc(1), balance("allowance"), e);
    grant(&acc(0), &sacc(1), 1 << 80, 0);
    let max = sym::ranged("max_blocks_per_request", 64, 1 << 32, u64::MAX);
    let index = if sym::coin() { Some(who(2)) } else { None };
    mutate_state(|s| s.config.set(Config { max_blocks_per_request: max, index_id: index, initial_balances: None }).unwrap());
    let op = sym::choose(OPS);
    let at = fresh_time("created_at", now);
    let amount = amount_class("amount", 2);
    let r = run(&Req { spender: sacc(1), at: Some(at), amount, ..plain(op) });
    chk!("upgrade", r.taken());
    if let Res::Pending(_) = r {
        let call = ic::w().calls.pop().unwrap();
        sym::formatting(true);
        let ans = if op >= 5 { Encode!(&Ok::<Principal, CmcCreateCanisterError>(who(1))).unwrap() } else { b"DIDL\0\0".to_vec() };
        ic::deliver(call, Ok(ans), 0);
        sym::formatting(false);
    }
    sym::put(91, now); sym::put(92, max); sym::put(93, index.is_some() as u64); sym::put(94, op as u64); sym::put(95, at); sym::put128(96, amount);
    let mut t = Tape { at: 100, write: true, ok: true };
    everything(&mut t, now);
    let c = ic::w().certified.clone().unwrap();
    t.bytes(&c);
    sym::put(98, t.at as u64);
}
#[no_mangle]
pub extern "C" fn h_upgrade__2() {
    let now = sym::get(91);
    ic::w().time = now;
    let (mut max, mut index) = (sym::get(92), if sym::get(93) != 0 { Some(who(2)) } else { None });
    let arg = match sym::choose(7) {
        0 => None,
        1 => Some(LedgerArgs::Upgrade(None)),
        2 => {
            sym::cover("refused");
            sym::traps_roll_back();
            post_upgrade(Some(LedgerArgs::Init(config_default())));
            chk!("upgrade", false);
            return;
        }
        k => {
            let m = if k % 2 == 0 { let m = sym::ranged("new max", 64, 1 << 32, u64::MAX); max = m; Some(m) } else { None };
            let i = match k { 3 | 4 => None, 5 => { index = Some(who(3)); Some(ChangeIndexId::SetTo(who(3))) } _ => { index = None; Some(ChangeIndexId::Unset) } };
            Some(LedgerArgs::Upgrade(Some(UpgradeArgs { max_blocks_per_request: m, change_index_id: i })))
        }
    };
    sym::traps_are_violations("upgrade/trap");
    post_upgrade(arg);
    let mut t = Tape { at: 100, write: false, ok: true };
    everything(&mut t, now);
    chk!("upgrade", t.ok);
    // the certificate goes on to commit to the tip
    let n = t.at;
    let mut c = vec![];
    for i in 0..4 { c.extend_from_slice(&sym::get(n + 1 + i).to_le_bytes()); }
    if ic::w().certified.is_none() { ic::w().certified = Some(c); }
    ic::w().certificate = Some(b"certificate".to_vec());
    chk!("upgrade", super::h_query::tip_certified());
    // the configuration is what the arguments make of it
    chk!("upgrade", read_state(|s| { let k = s.config.get(); (k.max_blocks_per_request == max) & (k.index_id == index) }));
    // and everything goes on
    let op = sym::get(94) as u32;
    let r = Req { spender: sacc(1), at: Some(sym::get(95)), amount: sym::get128(96), ..plain(op) };
    let blocks = read_state(|s| s.blocks.len());
    match run(&r) { Res::Dup(i, c) => chk!("upgrade", (i == blocks as u128 - 1) & (c == if op >= 5 { Some(who(1)) } else { None })), _ => chk!("upgrade", false) }
    let pre = snap();
    chk!("upgrade", run(&Req { from: acc(3), amount: 5, ..plain(0) }).taken());
    let _ = universal(&pre, &[now], now);
    sym::cover("upgraded");
}

/// The balances a ledger starts with.
#[no_mangle]
pub extern "C" fn h_init() {
    ic::w().time = T0;
    if sym::choose(4) == 3 { init_wrong(); return; }
    let pre = snap();
    chk!("install", (pre.blocks == 0) & (pre.supply == 0) & pre.bal.is_empty());
    // up to two of any size, or up to four of moderate size, or one or two of hardly any
    let size = sym::choose(3);
    let vast = size == 1;
    let n = if size == 2 { 1 + sym::choose(2) } else { sym::choose(if vast { 3 } else { 5 }) };
    let mut list = vec![];
    let mut sum = 0u128;
    let mut over = false;
    for i in 0..n {
        let a = match i { 0 => acc(0), 1 => if vast { acc(1) } else { sacc(0) }, 2 => zacc(0), _ => acc(1) };
        let b = if vast { let lo = sym::bits("initial", 64); (sym::ranged("initial", 64, 1 << 56, u64::MAX) as u128) << 64 | lo as u128 } else if size == 2 { if sym::coin() { amount_class("initial", 1) } else { amount_class("initial", 5) } } else { amount_class("initial", 2) };
        let s = sum.wrapping_add(b);
        over |= s < sum;
        sum = s;
        list.push((a, b));
    }
    let some = n > 0 || sym::coin();
    let max = if n == 0 { sym::u64("max_blocks_per_request") } else { sym::ranged("max_blocks_per_request", 64, 1 << 32, u64::MAX) };
    let index = if sym::coin() { Some(who(2)) } else { None };
    let config = Config { max_blocks_per_request: max, index_id: index, initial_balances: if some { Some(list.clone()) } else { None } };
    if sym::coin() {
        sym::assume(over);
        sym::cover("too much");
        sym::traps_roll_back();
        init(LedgerArgs::Init(config));
        chk!("install", false);
        return;
    }
    sym::assume(!over);
    sym::traps_are_violations("install/trap");
    init(LedgerArgs::Init(config));
    let post = universal(&pre, &vec![T0; n as usize], T0);
    chk!("install", post.supply == sum);
    for a in [acc(0), sacc(0), acc(1), acc(2)] {
        let want = list.iter().fold(0u128, |t, x| if x.0 == a { t.wrapping_add(x.1) } else { t });
        chk!("install", post.of(&a) == want);
    }
    for (i, (a, b)) in list.iter().enumerate() {
        let k = block(i as u64);
        chk!("install", match k.transaction.operation { Operation::Mint { to, amount, .. } => (to == *a) & (amount == *b), _ => false });
    }
    chk!("install", read_state(|s| { let k = s.config.get(); (k.max_blocks_per_request == max) & (k.index_id == index) }));
    sym::cover("installed");
}
/// Upgrade arguments are no good for this.
fn init_wrong() {
    sym::cover("wrong arguments");
    sym::traps_roll_back();
    init(LedgerArgs::Upgrade(if sym::coin() { None } else { Some(UpgradeArgs { max_blocks_per_request: Some(sym::u64("max")), change_index_id: None }) }));
    chk!("install", false);
}
