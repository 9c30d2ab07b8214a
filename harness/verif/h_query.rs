//! Queries: what the ledger says is what is so.
use super::env::*;
use super::h_transfer_from::if_;
use super::ops::*;
use icrc_ledger_types::icrc::generic_metadata_value::MetadataValue;
use icrc_ledger_types::icrc::generic_value::Value;

/// A few blocks of different kinds on top of the first.
pub fn history(now: u64) {
    affluent(now);
    for op in [0, 2, 3] { run(&Req { amount: 1 << 33, memo: Some(vec![op as u8; 3]), ..plain(op) }); }
    ic::w().calls.clear();
}
/// any number: of 64 bits (of 31 if `small`), or one of two larger ones
fn any_nat(name: &str, small: bool) -> (Nat, Option<u64>) {
    match if small { 0 } else { sym::choose(4) } {
        0 => { let v = sym::bits(name, 31); (Nat::from(v), Some(v)) }
        1 => { let v = sym::u64(name); (Nat::from(v), Some(v)) }
        2 => (huge(), None),
        _ => (Nat(Nat::from(u64::MAX).0 + 1u32), None),
    }
}

#[no_mangle]
pub extern "C" fn h_get_blocks() {
    let now = ledger();
    history(now);
    let n = read_state(|s| s.blocks.len());
    chk!("get-blocks", n == 4);
    let max = sym::u64("max_blocks_per_request");
    mutate_state(|s| { let c = Config { max_blocks_per_request: max, ..s.config.get().clone() }; s.config.set(c).unwrap(); });
    sym::traps_are_violations("get-blocks/trap");
    // one range of any kind, or two or three reasonable ones
    let k = sym::choose(4);
    let mut args = vec![];
    let mut want = vec![];
    for i in 0..k {
        let (start, s) = any_nat("start", k > 1);
        let (length, l) = if i == 2 { (Nat::from(2u8), Some(2)) } else { any_nat("length", k > 1) };
        args.push(GetBlocksArg { start, length });
        want.push((s, l));
    }
    let r = icrc3_get_blocks(args);
    chk!("get-blocks", is(&r.log_length, n as u128) & r.archived_blocks.is_empty());
    // the ranges, clipped to what there is and to the limit, one after the other
    // (a length beyond 64 bits may be ignored or mean everything there is)
    let mut at = 0usize;
    for (s, l) in want {
        let Some(s) = s else { continue };
        let mut i = s;
        while i < n && (at as u64) < max && l.map_or(at < r.blocks.len(), |l| i - s < l) {
            let Some(b) = r.blocks.get(at) else { chk!("get-blocks", false); return };
            chk!("get-blocks", is(&b.id, i as u128) && b.block == block(i).to_value());
            at += 1;
            i += 1;
            sym::cover("some");
        }
        if l.is_none() { chk!("get-blocks", i == s || i == n || at as u64 == max); }
    }
    chk!("get-blocks", at == r.blocks.len());
    chk!("get-blocks", r.blocks.len() as u64 <= max);
    sym::cover("answered");
}
/// What is returned links up: each block names the hash of the one before, and the last hashes to the certified one.
#[no_mangle]
pub extern "C" fn h_blocks_link() {
    let now = ledger();
    affluent(now);
    sym::traps_are_violations("get-blocks/trap");
    let amount = amount("amount", &[2, 5]);
    let op = sym::choose(OPS);
    sym::assume(amount <= 1 << 70);
    chk!("get-blocks", run(&Req { amount, at: Some(now), ..plain(op) }).taken());
    chk!("get-blocks", run(&Req { amount: 9, from: acc(3), ..plain(0) }).taken());
    let r = icrc3_get_blocks(vec![GetBlocksArg { start: Nat::from(0u8), length: Nat::from(100u8) }]);
    let mut prev: Option<[u8; 32]> = None;
    chk!("get-blocks", r.blocks.len() == 3);
    for (i, b) in r.blocks.iter().enumerate() {
        chk!("get-blocks", is(&b.id, i as u128));
        let Value::Map(m) = &b.block else { chk!("get-blocks", false); return };
        let p = match m.get("phash") { None => None, Some(Value::Blob(b)) => Some(<[u8; 32]>::try_from(&b[..]).unwrap()), _ => { chk!("get-blocks", false); return } };
        chk!("get-blocks", hash_eq(&p, &prev));
        prev = Some(b.block.hash());
    }
    chk!("get-blocks", hash_eq(&prev, &read_state(|s| s.last_block_hash())));
    let c = ic::w().certified.clone().unwrap();
    chk!("get-blocks", bytes_eq(&c, &tip_root(2, &prev.unwrap())));
    sym::cover("linked");
}

#[no_mangle]
pub extern "C" fn h_get_allowances() {
    let now = ledger();
    // (from, spender), in the ledger's order
    let top = |i: u32| Account { owner: who(i), subaccount: Some([0xFF; 32]) };
    let mut all = vec![(acc(1), acc(2)), (acc(0), acc(1)), (acc(0), sacc(1)), (acc(0), acc(2)), (sacc(0), acc(1)), (acc(3), acc(0))];
    all.sort_by(|a, b| (storage::to_account_key(&a.0), storage::to_account_key(&a.1)).cmp(&(storage::to_account_key(&b.0), storage::to_account_key(&b.1))));
    let e = sym::u64("expiry");
    sym::assume(e != 0);
    let which = sym::choose(all.len() as u32) as usize;
    let mut g = vec![];
    for (i, (f, s)) in all.iter().enumerate() {
        let a = (i as u128 + 1) * FEE;
        let x = if i == which { e } else if i % 3 == 2 { now + 5 } else { 0 };
        grant(f, s, a, x);
        g.push((a, x));
    }
    let query = match sym::choose(8) { 0 => None, 1 => Some(acc(0)), 2 => Some(zacc(0)), 3 => Some(sacc(0)), 4 => Some(top(0)), 5 => Some(acc(1)), 6 => Some(acc(2)), _ => Some(acc(3)) };
    let prev = match sym::choose(6) { 0 => None, 1 => Some(acc(1)), 2 => Some(zacc(1)), 3 => Some(sacc(1)), 4 => Some(acc(2)), _ => Some(top(1)) };
    let (take, max) = match sym::choose(3) { 0 => (None, 500), 1 => { let n = sym::u64("take"); (Some(Nat::from(n)), n.min(500)) } _ => (Some(huge()), 500) };
    ic::w().caller = who(0);
    let t = later("later", now);
    ic::w().time = t;
    sym::traps_are_violations("get-allowances/trap");
    let r = icrc103_get_allowances(GetAllowancesArgs { from_account: query, prev_spender: prev, take });
    let Ok(r) = r else { chk!("get-allowances", false); return };
    let q = query.unwrap_or(acc(0));
    let from_key = storage::to_account_key(&q);
    let mut at = 0usize;
    for (i, (f, s)) in all.iter().enumerate() {
        let (fk, sk) = (storage::to_account_key(f), storage::to_account_key(s));
        if f.owner != q.owner || fk < from_key { continue; }
        if let Some(p) = prev { if fk == from_key && sk <= storage::to_account_key(&p) { continue; } }
        if g[i].1 != 0 && g[i].1 <= t { continue; }
        if at as u64 >= max { break; }
        let Some(x) = r.get(at) else { chk!("get-allowances", false); return };
        chk!("get-allowances", (x.from_account == *f) & (x.to_spender == *s) & is(&x.allowance, g[i].0));
        chk!("get-allowances", match x.expires_at { None => g[i].1 == 0, Some(e) => (e == g[i].1) & (e != 0) });
        at += 1;
    }
    chk!("get-allowances", at == r.len());
    sym::cover("listed");
    if at > 0 { sym::cover("some"); }
}
/// More than a page of allowances: never more than 500 at a time, and the next page goes on where the last one ended.
#[no_mangle]
pub extern "C" fn h_allowance_pages() {
    let now = ledger();
    let spender = |i: u32| Account { owner: who(1), subaccount: Some({ let mut b = [0u8; 32]; b[28..].copy_from_slice(&i.to_be_bytes()); b }) };
    for i in 0..503 { grant(&acc(0), &spender(i), FEE, if i == 7 { now } else { 0 }); }
    ic::w().caller = who(0);
    let take = match sym::choose(3) { 0 => None, 1 => { let n = sym::u64("take"); sym::assume(n >= 500); Some(Nat::from(n)) } _ => Some(huge()) };
    sym::traps_are_violations("get-allowances/trap");
    let Ok(r) = icrc103_get_allowances(GetAllowancesArgs { from_account: None, prev_spender: None, take }) else { chk!("get-allowances", false); return };
    chk!("get-allowances", r.len() == 500);
    chk!("get-allowances", (r[0].to_spender == spender(0)) & (r[6].to_spender == spender(6)) & (r[7].to_spender == spender(8)) & (r[499].to_spender == spender(500)));
    let Ok(s) = icrc103_get_allowances(GetAllowancesArgs { from_account: None, prev_spender: Some(r[499].to_spender), take: None }) else { chk!("get-allowances", false); return };
    chk!("get-allowances", (s.len() == 2) && (s[0].to_spender == spender(501)) & (s[1].to_spender == spender(502)));
    sym::cover("pages");
}

/// the root of a serialised hash tree, and the leaves under their labels
fn tree(b: &[u8], at: &mut usize, label: &mut Vec<(Vec<u8>, Vec<u8>)>, under: &[u8], deep: u32) -> Option<[u8; 32]> {
    let sep = |s: &str| { let mut v = vec![s.len() as u8]; v.extend_from_slice(s.as_bytes()); v };
    if deep > 8 { return None; }
    let mut byte = |at: &mut usize| { let x = *b.get(*at)?; *at += 1; Some(x) };
    let head = byte(at)?;
    let kind = byte(at)?;
    let bytes = |at: &mut usize| -> Option<Vec<u8>> {
        let h = *b.get(*at)?; *at += 1;
        let n = if h == 0x58 { let n = *b.get(*at)? as usize; *at += 1; n } else if (0x40..0x58).contains(&h) { (h - 0x40) as usize } else { return None };
        let v = b.get(*at..*at + n)?.to_vec(); *at += n; Some(v)
    };
    match (head, kind) {
        (0x81, 0) => Some(h256(&[&sep("ic-hashtree-empty")])),
        (0x83, 1) => { let l = tree(b, at, label, under, deep + 1)?; let r = tree(b, at, label, under, deep + 1)?; Some(h256(&[&sep("ic-hashtree-fork"), &l, &r])) }
        (0x83, 2) => { let l = bytes(at)?; let t = tree(b, at, label, &l, deep + 1)?; Some(h256(&[&sep("ic-hashtree-labeled"), &l, &t])) }
        (0x82, 3) => { let l = bytes(at)?; label.push((under.to_vec(), l.clone())); Some(h256(&[&sep("ic-hashtree-leaf"), &l])) }
        (0x82, 4) => bytes(at)?.try_into().ok(),
        _ => None,
    }
}
pub fn tip_is_certified() { chk!("tip-certificate", tip_certified()) }
/// the certificate on offer commits to the index and hash of the last block
pub fn tip_certified() -> bool {
    let Some(c) = icrc3_get_tip_certificate() else { return false };
    let (mut at, mut leaves) = (0, vec![]);
    let root = tree(&c.hash_tree, &mut at, &mut leaves, b"", 0);
    let n = read_state(|s| s.blocks.len());
    let last = leaves.iter().find(|l| l.0 == b"last_block_hash");
    let index = leaves.iter().find(|l| l.0 == b"last_block_index");
    let mut ok = (c.certificate.to_vec() == b"certificate") & (at == c.hash_tree.len());
    ok &= match (&root, &ic::w().certified) { (Some(r), Some(c)) => bytes_eq(r, c), _ => false };
    ok &= match last { Some(l) => bytes_eq(&l.1, &last_block().hash()), None => false };
    // (an index below 128 is one byte in LEB128)
    ok & match index { Some(l) => l.1 == [n as u8 - 1], None => false }
}
#[no_mangle]
pub extern "C" fn h_tip() {
    sym::traps_are_violations("tip-certificate/trap");
    let now = ledger();
    affluent(now);
    chk!("tip-certificate", icrc3_get_tip_certificate().is_none());
    ic::w().certificate = Some(b"certificate".to_vec());
    tip_is_certified();
    for i in 0..2 {
        // (the second on other accounts, which the first leaves alone)
        let from = if i == 0 { acc(0) } else { sacc(0) };
        let r = run(&Req { amount: amount_class("amount", 2), from, ..plain(sym::choose(OPS)) });
        chk!("tip-certificate", r.taken());
        tip_is_certified();
    }
    sym::cover("certified");
}

#[no_mangle]
pub extern "C" fn h_facts() {
    let now = ledger();
    sym::traps_are_violations("queries/trap");
    let b = balance("balance");
    let c = balance("other");
    fund(&[(acc(0), b), (sacc(1), c)]);
    let supply = read_state(|s| s.total_supply());
    let index = match sym::choose(3) { 0 => None, 1 => Some(who(2)), _ => Some(who(0)) };
    let max = sym::u64("max_blocks_per_request");
    mutate_state(|s| s.config.set(Config { max_blocks_per_request: max, index_id: index, initial_balances: None }).unwrap());
    let pre = snap();
    chk!("queries", is(&icrc1_total_supply(), supply) & is(&icrc1_fee(), FEE) & (FEE == 100_000_000));
    chk!("queries", (icrc1_decimals() == 12) & (icrc1_symbol() == "TCYCLES") & (icrc1_name() == "Trillion Cycles") & icrc1_minting_account().is_none());
    chk!("queries", is(&icrc1_balance_of(acc(0)), b) & is(&icrc1_balance_of(zacc(0)), b) & is(&icrc1_balance_of(sacc(1)), c));
    chk!("queries", is(&icrc1_balance_of(sacc(0)), 0) & is(&icrc1_balance_of(acc(1)), 0) & is(&icrc1_balance_of(acc(3)), 0));
    // any subaccount whatever
    let sub: [u8; 32] = sym::arr("subaccount");
    let got = icrc1_balance_of(Account { owner: who(1), subaccount: Some(sub) });
    chk!("queries", is(&got, if_(bytes_eq(&sub, &SUB), c, 0)));
    let got = icrc1_balance_of(Account { owner: who(0), subaccount: Some(sub) });
    chk!("queries", is(&got, if_(bytes_eq(&sub, &[0; 32]), b, 0)));
    sym::formatting(true);
    let m = icrc1_metadata();
    let find = |k: &str| { let mut f = m.iter().filter(|x| x.0 == k); let x = f.next(); if f.next().is_some() { None } else { x.map(|x| &x.1) } };
    chk!("queries", matches!(find("icrc1:decimals"), Some(MetadataValue::Nat(n)) if is(n, 12)));
    chk!("queries", matches!(find("icrc1:fee"), Some(MetadataValue::Nat(n)) if is(n, FEE)));
    chk!("queries", matches!(find("icrc1:max_memo_length"), Some(MetadataValue::Nat(n)) if is(n, 32)));
    chk!("queries", matches!(find("icrc1:name"), Some(MetadataValue::Text(n)) if n == "Trillion Cycles") & matches!(find("icrc1:symbol"), Some(MetadataValue::Text(n)) if n == "TCYCLES"));
    chk!("queries", match find("dfn:max_blocks_per_request") { Some(MetadataValue::Nat(n)) => is(n, max as u128), _ => false });
    chk!("queries", match (find("dfn:index_id"), index) { (None, None) => true, (Some(MetadataValue::Blob(b)), Some(i)) => b.as_slice() == i.as_slice(), _ => false });
    sym::formatting(true);
    chk!("queries", match (find("icrc106:index_principal"), index) { (None, None) => true, (Some(MetadataValue::Text(t)), Some(i)) => *t == i.to_text(), _ => false });
    sym::formatting(false);
    chk!("queries", matches!(find("icrc1:logo"), Some(MetadataValue::Text(t)) if t.starts_with("data:image")));
    chk!("queries", match (icrc106_get_index_principal(), index) { (Err(Icrc106Error::IndexPrincipalNotSet), None) => true, (Ok(p), Some(i)) => p == i, _ => false });
    let std: Vec<String> = icrc1_supported_standards().into_iter().map(|s| s.name).collect();
    for s in ["ICRC-1", "ICRC-2", "ICRC-3", "ICRC-10", "ICRC-103", "ICRC-106"] { chk!("queries", std.iter().any(|x| x == s)); }
    let std: Vec<String> = icrc10_supported_standards().into_iter().map(|s| s.name).collect();
    for s in ["ICRC-1", "ICRC-2", "ICRC-3", "ICRC-10", "ICRC-103", "ICRC-106"] { chk!("queries", std.iter().any(|x| x == s)); }
    let types: Vec<String> = icrc3_supported_block_types().into_iter().map(|s| s.block_type).collect();
    for s in ["1mint", "1burn", "2xfer", "2approve"] { chk!("queries", types.iter().any(|x| x == s)); }
    chk!("queries", untouched(&pre, &snap()));
    let _ = now;
    sym::cover("asked");
}
