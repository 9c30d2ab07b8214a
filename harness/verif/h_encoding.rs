//! Blocks and transactions: what is written is what is read, what is shown and what is hashed.
use super::env::*;
use ic_stable_structures::Storable;
use icrc_ledger_types::icrc::generic_value::Value;
use std::collections::BTreeMap;
use cycles_ledger::storage::Cbor;

fn sub(name: &str) -> [u8; 32] { sym::arr(name) }
/// every optional part present or not
#[derive(Clone, Copy)]
struct Shape { kind: u32, spender: bool, fee: bool, expected: bool, expires: bool, memo: u32, at: bool, phash: bool, effective: bool, sub: bool, class: u32 }
fn shape() -> Shape { shape_with(true) }
fn shape_with(outer: bool) -> Shape {
    let kind = sym::choose(4);
    let opt = |on: bool| on && sym::coin();
    Shape { kind, spender: opt(kind == 1 || kind == 2), fee: opt(kind == 1 || kind == 3), expected: opt(kind == 3), expires: opt(kind == 3), memo: 2 * sym::choose(2), at: sym::coin(), phash: opt(outer), effective: opt(outer), sub: sym::coin(), class: 0 }
}
fn num(name: &str, class: u32) -> u128 { amount_class(name, class) }
fn stamp(name: &str, class: u32) -> u64 { if class == 4 { sym::ranged(name, 64, 1 << 62, u64::MAX) } else { time(name) } }
/// values for all parts, of which a shape uses some
#[derive(Clone)]
struct Parts { subs: [[u8; 32]; 3], owners: [u32; 3], amount: u128, fee: u128, expected: u128, expires: u64, at: u64, memo: [u8; 32], ts: u64, phash: [u8; 32], effective: u128 }
fn parts(class: u32) -> Parts {
    Parts { subs: [sub("from"), sub("to"), sub("spender")], owners: [0, 1, 2], amount: num("amount", class), fee: num("fee", class), expected: num("expected", class), expires: stamp("expires_at", class), at: stamp("created_at", class), memo: sub("memo"), ts: stamp("timestamp", class), phash: sub("phash"), effective: num("effective", class) }
}
const PARTS: u32 = 15;
/// one part anew
fn redraw(p: &Parts, k: u32, class: u32) -> Parts {
    let mut p = p.clone();
    match k {
        0..=2 => p.subs[k as usize] = sub("other sub"),
        3..=5 => p.owners[k as usize - 3] = 3,
        6 => p.amount = num("other", class), 7 => p.fee = num("other", class), 8 => p.expected = num("other", class), 9 => p.expires = stamp("other", class), 10 => p.at = stamp("other", class),
        11 => p.memo = sub("other memo"), 12 => p.ts = stamp("other", class), 13 => p.phash = sub("other phash"), _ => p.effective = num("other", class),
    }
    p
}
fn make(s: &Shape) -> Block { build(s, &parts(s.class)) }
fn build(s: &Shape, p: &Parts) -> Block {
    let a = |i: usize| Account { owner: who(p.owners[i]), subaccount: if s.sub { Some(p.subs[i]) } else { None } };
    let amount = p.amount;
    let fee = if s.fee { Some(p.fee) } else { None };
    let operation = match s.kind {
        0 => Operation::Mint { to: a(1), amount, fee: p.fee },
        1 => Operation::Transfer { from: a(0), to: a(1), spender: if s.spender { Some(a(2)) } else { None }, amount, fee },
        2 => Operation::Burn { from: a(0), spender: if s.spender { Some(a(2)) } else { None }, amount },
        _ => Operation::Approve { from: a(0), spender: a(2), amount, expected_allowance: if s.expected { Some(p.expected) } else { None }, expires_at: if s.expires { Some(p.expires) } else { None }, fee },
    };
    Block {
        transaction: Transaction { operation, created_at_time: if s.at { Some(p.at) } else { None }, memo: match s.memo { 0 => None, 1 => Some(Memo(ByteBuf::from(p.memo[..3].to_vec()))), _ => Some(Memo(ByteBuf::from(p.memo.to_vec()))) } },
        timestamp: p.ts,
        phash: if s.phash { Some(p.phash) } else { None },
        effective_fee: if s.effective { Some(p.effective) } else { None },
    }
}
fn account_same(a: &Account, b: &Account) -> bool {
    (a.owner == b.owner) & match (&a.subaccount, &b.subaccount) { (Some(x), Some(y)) => bytes_eq(x, y), (None, None) => true, _ => false }
}
fn opt_account(a: &Option<Account>, b: &Option<Account>) -> bool { match (a, b) { (Some(a), Some(b)) => account_same(a, b), (None, None) => true, _ => false } }
fn opt_num(a: &Option<u128>, b: &Option<u128>) -> bool { match (a, b) { (Some(a), Some(b)) => a == b, (None, None) => true, _ => false } }
fn opt_time(a: &Option<u64>, b: &Option<u64>) -> bool { match (a, b) { (Some(a), Some(b)) => a == b, (None, None) => true, _ => false } }
/// without branches on what is symbolic
fn tx_same(a: &Transaction, b: &Transaction) -> bool {
    use Operation::*;
    opt_time(&a.created_at_time, &b.created_at_time) & match (&a.memo, &b.memo) { (Some(a), Some(b)) => bytes_eq(&a.0, &b.0), (None, None) => true, _ => false }
        & match (&a.operation, &b.operation) {
            (Mint { to: t, amount: a, fee: f }, Mint { to: t2, amount: a2, fee: f2 }) => account_same(t, t2) & (a == a2) & (f == f2),
            (Transfer { from: f, to: t, spender: s, amount: a, fee: x }, Transfer { from: f2, to: t2, spender: s2, amount: a2, fee: x2 }) => account_same(f, f2) & account_same(t, t2) & opt_account(s, s2) & (a == a2) & opt_num(x, x2),
            (Burn { from: f, spender: s, amount: a }, Burn { from: f2, spender: s2, amount: a2 }) => account_same(f, f2) & opt_account(s, s2) & (a == a2),
            (Approve { from: f, spender: s, amount: a, expected_allowance: e, expires_at: x, fee: n }, Approve { from: f2, spender: s2, amount: a2, expected_allowance: e2, expires_at: x2, fee: n2 }) =>
                account_same(f, f2) & account_same(s, s2) & (a == a2) & opt_num(e, e2) & opt_time(x, x2) & opt_num(n, n2),
            _ => false,
        }
}
fn same(a: &Block, b: &Block) -> bool { tx_same(&a.transaction, &b.transaction) & (a.timestamp == b.timestamp) & hash_eq(&a.phash, &b.phash) & opt_num(&a.effective_fee, &b.effective_fee) }

/// the representation of a block that ICRC-3 prescribes
fn shown(b: &Block) -> Value {
    let n = |x: u128| Value::Nat(Nat::from(x));
    let account = |a: &Account| { let mut v = vec![Value::Blob(ByteBuf::from(a.owner.as_slice().to_vec()))]; if let Some(s) = a.subaccount { v.push(Value::Blob(ByteBuf::from(s.to_vec()))) } Value::Array(v) };
    let mut t: BTreeMap<String, Value> = BTreeMap::new();
    let mut put = |k: &str, v: Value| { t.insert(k.to_string(), v); };
    let op = match &b.transaction.operation {
        Operation::Mint { to, amount, fee } => { put("to", account(to)); put("amt", n(*amount)); put("fee", n(*fee)); "mint" }
        Operation::Transfer { from, to, spender, amount, fee } => { put("from", account(from)); put("to", account(to)); if let Some(s) = spender { put("spender", account(s)) } put("amt", n(*amount)); if let Some(f) = fee { put("fee", n(*f)) } "xfer" }
        Operation::Burn { from, spender, amount } => { put("from", account(from)); if let Some(s) = spender { put("spender", account(s)) } put("amt", n(*amount)); "burn" }
        Operation::Approve { from, spender, amount, expected_allowance, expires_at, fee } => {
            put("from", account(from)); put("spender", account(spender)); put("amt", n(*amount));
            if let Some(e) = expected_allowance { put("expected_allowance", n(*e)) }
            if let Some(e) = expires_at { put("expires_at", n(*e as u128)) }
            if let Some(f) = fee { put("fee", n(*f)) }
            "approve"
        }
    };
    put("op", Value::Text(op.to_string()));
    if let Some(m) = &b.transaction.memo { put("memo", Value::Blob(m.0.clone())) }
    if let Some(c) = b.transaction.created_at_time { put("ts", n(c as u128)) }
    let mut m: BTreeMap<String, Value> = BTreeMap::new();
    m.insert("tx".into(), Value::Map(t));
    m.insert("ts".into(), n(b.timestamp as u128));
    if let Some(p) = b.phash { m.insert("phash".into(), Value::Blob(ByteBuf::from(p.to_vec()))); }
    if let Some(f) = b.effective_fee { m.insert("fee".into(), n(f)); }
    Value::Map(m)
}
fn value_same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Nat(x), Value::Nat(y)) => nat(x) == nat(y),
        (Value::Blob(x), Value::Blob(y)) => bytes_eq(x, y),
        (Value::Text(x), Value::Text(y)) => x == y,
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).fold(true, |t, (x, y)| t & value_same(x, y)),
        (Value::Map(x), Value::Map(y)) => x.len() == y.len() && x.iter().zip(y).fold(true, |t, (x, y)| t & (x.0 == y.0) & value_same(x.1, y.1)),
        _ => false,
    }
}
const CLASSES: [u32; 4] = [0, 1, 2, 4];
fn sized_shape(classes: u32) -> Shape { Shape { class: CLASSES[sym::choose(classes) as usize], ..shape() } }

/// Written to stable memory and read back; shown and read back.
#[no_mangle]
pub extern "C" fn h_block_forms() {
    let s = sized_shape(if sym::get(90) != 0 { 4 } else { 3 });
    let b = make(&s);
    sym::traps_are_violations("block-encoding/trap");
    let bytes = Cbor(b.clone()).to_bytes().into_owned();
    let back = Cbor::<Block>::from_bytes(bytes.into()).0;
    chk!("block-encoding", same(&b, &back));
    let v = b.clone().to_value();
    chk!("block-encoding", value_same(&v, &shown(&b)));
    sym::cover("read back");
}
/// An account may occur twice in a block, and have any owner.
#[no_mangle]
pub extern "C" fn h_block_alias() {
    let s = Shape { class: 2, kind: 1 + sym::choose(3), spender: true, fee: sym::coin(), expected: false, expires: false, memo: 0, at: false, phash: false, effective: true, sub: sym::coin() };
    let mut p = parts(2);
    // who is whom: from, to, spender
    let (x, y) = [(0, 1), (0, 2), (1, 2)][sym::choose(3) as usize];
    p.owners = [sym::choose(4), 1, sym::choose(3)];
    p.owners[y] = p.owners[x];
    p.subs[y] = p.subs[x];
    if sym::coin() { p.subs[2] = p.subs[0]; p.owners[2] = p.owners[0]; }
    let b = build(&s, &p);
    sym::traps_are_violations("block-encoding/trap");
    let back = Cbor::<Block>::from_bytes(Cbor(b.clone()).to_bytes().into_owned().into()).0;
    chk!("block-encoding", same(&b, &back));
    chk!("block-replay", same(&b, &back));
    chk!("block-chain", bytes_eq(&b.clone().hash(), &back.hash()));
    let v = b.clone().to_value();
    chk!("block-encoding", value_same(&v, &shown(&b)));
    match Block::from_value(v) { Ok(x) => chk!("block-encoding", same(&b, &x)), Err(_) => chk!("block-encoding", false) }
    sym::cover("read back");
}
/// The generic value leads back to the block.
#[no_mangle]
pub extern "C" fn h_block_from_value() {
    let s = Shape { class: 2, ..shape() };
    let b = make(&s);
    sym::traps_are_violations("block-encoding/trap");
    match Block::from_value(b.clone().to_value()) { Ok(x) => chk!("block-encoding", same(&b, &x)), Err(_) => chk!("block-encoding", false) }
    sym::cover("read back");
}
/// Blocks that differ in the value of a part hash alike only if they are alike, and the same goes for their transactions.
#[no_mangle]
pub extern "C" fn h_block_hash() {
    let s = if sym::get(90) != 0 { Shape { class: 2, ..shape() } } else { Shape { class: 2, phash: true, effective: true, ..shape_with(false) } };
    let p = parts(2);
    let (a, b) = (build(&s, &p), build(&s, &redraw(&p, sym::choose(PARTS), 2)));
    sym::traps_are_violations("block-encoding/trap");
    let (x, y) = (a.transaction.hash().unwrap(), b.transaction.hash().unwrap());
    chk!("block-encoding", bytes_eq(&x, &y) == tx_same(&a.transaction, &b.transaction));
    let (x, y) = (a.clone().hash(), b.clone().hash());
    chk!("block-encoding", bytes_eq(&x, &y) == same(&a, &b));
    sym::cover("compared");
}
/// A block and one with more or less to it, or of another kind, hash differently.
#[no_mangle]
pub extern "C" fn h_block_hash_shapes() {
    let s = Shape { class: 2, ..shape() };
    let k = sym::choose(9);
    let t = match k {
        0 => Shape { spender: !s.spender, ..s }, 1 => Shape { fee: !s.fee, ..s }, 2 => Shape { expected: !s.expected, ..s }, 3 => Shape { expires: !s.expires, ..s },
        4 => Shape { memo: [1, 0, 1][s.memo as usize], ..s }, 5 => Shape { at: !s.at, ..s }, 6 => Shape { phash: !s.phash, ..s }, 7 => Shape { effective: !s.effective, ..s }, _ => Shape { kind: (s.kind + 1) % 4, ..s },
    };
    if k == 0 && !(s.kind == 1 || s.kind == 2) || k == 1 && !(s.kind == 1 || s.kind == 3) || (k == 2 || k == 3) && s.kind != 3 { return; }
    let p = parts(2);
    let (a, b) = (build(&s, &p), build(&t, &p));
    sym::traps_are_violations("block-encoding/trap");
    if k != 6 && k != 7 { chk!("block-encoding", !bytes_eq(&a.transaction.hash().unwrap(), &b.transaction.hash().unwrap())); }
    chk!("block-encoding", !bytes_eq(&a.hash(), &b.hash()));
    sym::cover("compared");
}
