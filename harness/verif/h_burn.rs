//! withdraw, withdraw_from, create_canister, create_canister_from: the cycles leave the ledger exactly once,
//! whatever the callee answers and whatever happens while the ledger waits for the answer.
use super::env::*;
use super::h_approve::opt_eq64;
use super::h_transfer_from::{if_, in_force, some_grant};
use candid::{Decode, Encode};
use ic_cdk::management_canister::{CanisterSettings, DepositCyclesArgs};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq)]
pub enum Op { Withdraw, WithdrawFrom, Create, CreateFrom }
impl Op {
    pub fn from_op(self) -> bool { matches!(self, Op::WithdrawFrom | Op::CreateFrom) }
    pub fn withdraws(self) -> bool { matches!(self, Op::Withdraw | Op::WithdrawFrom) }
}
pub struct Failure { pub block: Option<Nat>, pub refund: Option<Nat>, pub approval: Option<Nat>, pub code: Option<RejectionCode>, pub reason: String }
pub enum Out { Ok(Nat, Option<Principal>), Funds(Nat), Allowance(Nat), TooOld, Future(u64), Duplicate(Nat, Option<Principal>), Failed(Failure), Generic(Nat), Receiver(Principal), Other }
pub struct Request { pub op: Op, pub from: Account, pub spender: Account, pub to: Principal, pub amount: Nat, pub created_at_time: Option<u64>, pub args: Option<CmcCreateCanisterArgs> }

pub fn submit(r: Request) -> Rc<RefCell<Option<Out>>> {
    ic::start(async move {
        match r.op {
            Op::Withdraw => match withdraw(WithdrawArgs { from_subaccount: r.from.subaccount, to: r.to, created_at_time: r.created_at_time, amount: r.amount }).await {
                Ok(n) => Out::Ok(n, None),
                Err(WithdrawError::InsufficientFunds { balance }) => Out::Funds(balance),
                Err(WithdrawError::TooOld) => Out::TooOld,
                Err(WithdrawError::CreatedInFuture { ledger_time }) => Out::Future(ledger_time),
                Err(WithdrawError::Duplicate { duplicate_of }) => Out::Duplicate(duplicate_of, None),
                Err(WithdrawError::FailedToWithdraw { fee_block, rejection_code, rejection_reason }) => Out::Failed(Failure { block: None, refund: fee_block, approval: None, code: Some(rejection_code), reason: rejection_reason }),
                Err(WithdrawError::GenericError { error_code, .. }) => Out::Generic(error_code),
                Err(WithdrawError::InvalidReceiver { receiver }) => Out::Receiver(receiver),
                Err(_) => Out::Other,
            },
            Op::WithdrawFrom => match withdraw_from(WithdrawFromArgs { spender_subaccount: r.spender.subaccount, from: r.from, to: r.to, created_at_time: r.created_at_time, amount: r.amount }).await {
                Ok(n) => Out::Ok(n, None),
                Err(WithdrawFromError::InsufficientFunds { balance }) => Out::Funds(balance),
                Err(WithdrawFromError::InsufficientAllowance { allowance }) => Out::Allowance(allowance),
                Err(WithdrawFromError::TooOld) => Out::TooOld,
                Err(WithdrawFromError::CreatedInFuture { ledger_time }) => Out::Future(ledger_time),
                Err(WithdrawFromError::Duplicate { duplicate_of }) => Out::Duplicate(duplicate_of, None),
                Err(WithdrawFromError::FailedToWithdrawFrom { withdraw_from_block, refund_block, approval_refund_block, rejection_code, rejection_reason }) => Out::Failed(Failure { block: withdraw_from_block, refund: refund_block, approval: approval_refund_block, code: Some(rejection_code), reason: rejection_reason }),
                Err(WithdrawFromError::GenericError { error_code, .. }) => Out::Generic(error_code),
                Err(WithdrawFromError::InvalidReceiver { receiver }) => Out::Receiver(receiver),
                Err(_) => Out::Other,
            },
            Op::Create => match create_canister(CreateCanisterArgs { from_subaccount: r.from.subaccount, created_at_time: r.created_at_time, amount: r.amount, creation_args: r.args }).await {
                Ok(s) => Out::Ok(s.block_id, Some(s.canister_id)),
                Err(CreateCanisterError::InsufficientFunds { balance }) => Out::Funds(balance),
                Err(CreateCanisterError::TooOld) => Out::TooOld,
                Err(CreateCanisterError::CreatedInFuture { ledger_time }) => Out::Future(ledger_time),
                Err(CreateCanisterError::Duplicate { duplicate_of, canister_id }) => Out::Duplicate(duplicate_of, canister_id),
                Err(CreateCanisterError::FailedToCreate { fee_block, refund_block, error }) => Out::Failed(Failure { block: fee_block, refund: refund_block, approval: None, code: None, reason: error }),
                Err(CreateCanisterError::GenericError { error_code, .. }) => Out::Generic(error_code),
                Err(_) => Out::Other,
            },
            Op::CreateFrom => match create_canister_from(CreateCanisterFromArgs { from: r.from, spender_subaccount: r.spender.subaccount, created_at_time: r.created_at_time, amount: r.amount, creation_args: r.args }).await {
                Ok(s) => Out::Ok(s.block_id, Some(s.canister_id)),
                Err(CreateCanisterFromError::InsufficientFunds { balance }) => Out::Funds(balance),
                Err(CreateCanisterFromError::InsufficientAllowance { allowance }) => Out::Allowance(allowance),
                Err(CreateCanisterFromError::TooOld) => Out::TooOld,
                Err(CreateCanisterFromError::CreatedInFuture { ledger_time }) => Out::Future(ledger_time),
                Err(CreateCanisterFromError::Duplicate { duplicate_of, canister_id }) => Out::Duplicate(duplicate_of, canister_id),
                Err(CreateCanisterFromError::FailedToCreateFrom { create_from_block, refund_block, approval_refund_block, rejection_code, rejection_reason }) => Out::Failed(Failure { block: create_from_block, refund: refund_block, approval: approval_refund_block, code: Some(rejection_code), reason: rejection_reason }),
                Err(CreateCanisterFromError::GenericError { error_code, .. }) => Out::Generic(error_code),
                Err(_) => Out::Other,
            },
        }
    })
}
/// an assertion of the exactness (0) or refund (1) property of the operation
macro_rules! burn_chk { ($op:expr, $k:literal, $c:expr) => {{ let c = $c; match (($op).withdraws(), $k) {
    (true, 0) => sym::check(c, concat!("withdraw-exact/", file!(), ":", line!())),
    (true, _) => sym::check(c, concat!("withdraw-refund/", file!(), ":", line!())),
    (false, 0) => sym::check(c, concat!("create-canister-exact/", file!(), ":", line!())),
    (false, _) => sym::check(c, concat!("create-canister-refund/", file!(), ":", line!())),
} }} }
pub fn withdraw_memo(to: &Principal) -> Vec<u8> {
    let b = to.as_slice();
    let mut m = vec![0x81];
    if b.len() < 24 { m.push(0x40 + b.len() as u8) } else { m.push(0x58); m.push(b.len() as u8) }
    m.extend_from_slice(b);
    m
}
fn memo_is(m: &Option<icrc_ledger_types::icrc1::transfer::Memo>, b: &[u8]) -> bool { match m { Some(m) => bytes_eq(&m.0, b), None => false } }
pub fn nat_at(n: &Option<Nat>, v: Option<u128>) -> bool { match (n, v) { (Some(n), Some(v)) => is(n, v), (None, None) => true, _ => false } }

/// What the answer to the outstanding call (or the failure to make it) means.
pub struct Verdict { pub created: Option<Option<Principal>>, pub returned: u128, pub code: Option<RejectionCode> }
fn reject_name(c: u32) -> RejectionCode {
    match c { 1 => RejectionCode::SysFatal, 2 => RejectionCode::SysTransient, 3 => RejectionCode::DestinationInvalid, 4 => RejectionCode::CanisterReject, 5 => RejectionCode::CanisterError, _ => RejectionCode::Unknown }
}
fn same_code(a: &RejectionCode, b: &RejectionCode) -> bool { a == b }

/// The refund after a failure. `base`: the state just before it, with `bal` and `g` the account's balance and the
/// allowance then; `expiry`: the expiry of the allowance that was used (0: none).
#[allow(clippy::too_many_arguments)]
fn check_refund(op: Op, base: &Snap, times: Vec<u64>, burnt_at: u64, from: Account, spender: Option<Account>, bal: u128, g: (u128, u64), expiry: u64, v: &Verdict, now: u64, f: &Failure) {
    let refunded = v.returned > FEE;
    let credit = v.returned.wrapping_sub(FEE);
    let restore = match spender { Some(_) => refunded & (credit > FEE) & ((expiry == 0) | (expiry > now)), None => false };
    let mut times = times;
    let first = base.blocks as u128 + times.len() as u128;
    if refunded { times.push(now) }
    if restore { times.push(now) }
    let post = universal(base, &times, now);
    burn_chk!(op, 1, match op { Op::Withdraw => f.block.is_none(), _ => nat_at(&f.block, Some(burnt_at as u128)) });
    burn_chk!(op, 1, nat_at(&f.refund, if refunded { Some(first) } else { None }));
    burn_chk!(op, 1, nat_at(&f.approval, if restore { Some(first + 1) } else { None }));
    burn_chk!(op, 1, match (&f.code, &v.code) { (Some(a), Some(b)) => same_code(a, b), (None, _) => op == Op::Create, _ => false });
    let want = if refunded { bal.wrapping_add(credit) } else { bal };
    let want = if restore { want.wrapping_sub(FEE) } else { want };
    burn_chk!(op, 1, post.of(&from) == want);
    let paid = if refunded { if restore { credit.wrapping_sub(FEE) } else { credit } } else { 0 };
    let burnt_now = if times.len() > (refunded as usize + restore as usize) { true } else { false };
    if !burnt_now { burn_chk!(op, 1, post.supply == base.supply.wrapping_add(paid)); }
    let except = match spender { Some(s) => vec![(from, s)], None => vec![] };
    burn_chk!(op, 1, balances_same(base, &post, &[from]) & allowances_same(base, &post, &except));
    if let Some(s) = spender {
        let after = post.allowance(&from, &s);
        if restore {
            let cur = in_force(Some(g), now);
            let sum = cur.wrapping_add(credit.wrapping_sub(FEE));
            let sum = if_(sum < cur, u128::MAX, sum);
            burn_chk!(op, 1, after.0 == sum);
            // the allowance keeps the expiry it has now, or gets back the one it had
            let e = if (cur != 0) & (g.1 != 0) { g.1 } else { expiry };
            burn_chk!(op, 1, after.1 == e);
            sym::cover("approval restored");
        } else {
            let dead = |g: (u128, u64)| (g.0 == 0) | ((g.1 != 0) & (g.1 <= now));
            burn_chk!(op, 1, (dead(after) & dead(g)) | ((after.0 == g.0) & (after.1 == g.1)));
        }
    }
    if refunded {
        let b = block(first as u64);
        burn_chk!(op, 1, match b.transaction.operation { Operation::Mint { to, amount, .. } => (to == from) & (amount == credit), _ => false });
        burn_chk!(op, 1, (b.effective_fee == Some(0)) & b.transaction.created_at_time.is_none());
        sym::cover("refunded");
    } else { sym::cover("nothing to refund") }
    if restore {
        let b = block(first as u64 + 1);
        burn_chk!(op, 1, match b.transaction.operation { Operation::Approve { from: f, spender: s, .. } => (f == from) & (Some(s) == spender), _ => false });
    }
}

/// An allowance of about 2^65 to 2^70 cycles (one serialised length, whatever is taken from it or given back;
/// its low word is such that nothing taken borrows from, and nothing given back carries into, the high one)
fn roomy(from: &Account, spender: &Account, now: u64, havoc: bool) -> (u128, u64) {
    let lo = if havoc { sym::ranged("allowance", 63, 0, (1 << 63) - 1) } else { sym::ranged("allowance", 64, (1 << 63) + (1 << 40), (1 << 63) + (1 << 62)) };
    let a = (sym::ranged("allowance", 6, 2, 60) as u128) << 64 | lo as u128;
    let e = if sym::coin() { sym::ranged("expiry", 64, 1, u64::MAX) } else { 0 };
    sym::assume((e == 0) | (e > now));
    grant(from, spender, a, e);
    (a, e)
}
fn burn(op: Op, after: bool) {
    let now = ledger();
    let own_ops = !op.from_op();
    // two halves. 0: who may, how much, whither, up to the call; 1: what comes of the call
    let from = if own_ops && !after && sym::coin() { sacc(0) } else { acc(0) };
    let from_arg = if op.from_op() && !after && sym::coin() { zacc(0) } else { from };
    // the caller, and the spender if an allowance is needed
    let (caller, spender_account) = if own_ops { (who(0), from) } else if after { (who(1), sacc(1)) } else { match sym::choose(3) { 0 => (who(1), acc(1)), 1 => (who(1), sacc(1)), _ => (who(0), acc(0)) } };
    let spender = if op.from_op() && spender_account != from { Some(spender_account) } else { None };
    let funded = after || sym::coin();
    let b0 = if after { much("from") } else if funded { balance("from") } else { 0 };
    let mut f = vec![(acc(2), balance("other"))];
    if funded { f.push((from, b0)); }
    if after { fund_much(&f) } else { fund(&f) }
    let fate = if after { match sym::choose(4) { 0 => Fate::Reply, 1 => Fate::Reject(0), 2 => Fate::Perform(2), _ => Fate::Liquid } } else { Fate::Reply };
    // (what a reply of the CMC gives back is a number of its own)
    let amount = amount("amount", if after && !op.withdraws() && fate == Fate::Reply { &[2] } else if after { &[2, 5] } else if funded { &[2, 5, 0, 1, 3] } else { &[2] });
    let need = amount.wrapping_add(FEE);
    let g = match spender {
        None => None,
        Some(s) if !after => some_grant(&from, &s),
        Some(s) => if sym::coin() { Some(roomy(&from, &s, now, false)) } else { grant(&from, &s, need, 0); Some((need, 0)) },
    };
    grant(&from, &acc(3), balance("other allowance"), 0);
    let force = in_force(g, now);
    let expiry = g.map_or(0, |g| g.1);
    let plain = funded && spender.map_or(true, |_| g.is_some());
    // (a user's principal has 29 bytes, the last of them 2)
    let tag = sym::u8("tag");
    let kind = if op.withdraws() && !after { sym::choose(if plain { 6 } else { 3 }) } else { 0 };
    let to = match kind {
        0 => who(2),
        1 => who(3),
        2 => { let mut b = [0xEE; 29]; b[28] = tag; Principal::from_slice(&b) }
        3 => { let mut b: [u8; 10] = sym::arr("receiver"); b[9] = tag; Principal::from_slice(&b) }
        4 => { let mut b = [0xEE; 28]; b[27] = tag; Principal::from_slice(&b) }
        _ => Principal::anonymous(),
    };
    let shape = if op.withdraws() || !plain || after { 0 } else { sym::choose(5) };
    if shape != 0 { sym::assume(amount >= 1 << 32); }
    let settings = |c: Option<Vec<Principal>>| CanisterSettings { controllers: c, freezing_threshold: Some(Nat::from(7u8)), ..Default::default() };
    let subnet = Some(SubnetSelection::Subnet { subnet: who(2) });
    let args = match shape {
        0 => None,
        1 => Some(CmcCreateCanisterArgs { subnet_selection: subnet.clone(), settings: None }),
        2 => Some(CmcCreateCanisterArgs { subnet_selection: None, settings: Some(settings(None)) }),
        3 => Some(CmcCreateCanisterArgs { subnet_selection: subnet.clone(), settings: Some(settings(Some(vec![who(3), who(2)]))) }),
        _ => Some(CmcCreateCanisterArgs { subnet_selection: Some(SubnetSelection::Filter(SubnetFilter { subnet_type: Some("x".to_string()) })), settings: Some(settings(Some(vec![]))) }),
    };
    // dated (undated when sent in the name of the subaccount, and when the call cannot be made)
    let dated = match fate { Fate::Perform(_) => false, Fate::Liquid => true, Fate::Reject(_) if op == Op::CreateFrom => true, _ if op == Op::CreateFrom && after => false, _ if after => sym::coin(), _ => from_arg == acc(0) };
    let created = if dated { Some(recently(now)) } else { None };
    arrange(fate);
    ic::w().caller = caller;
    let pre = snap();
    if op.withdraws() { sym::traps_are_violations("withdraw-exact/trap") } else { sym::traps_are_violations("create-canister-exact/trap") }
    let result = submit(Request { op, from: from_arg, spender: spender_account, to, amount: Nat::from(amount), created_at_time: created, args: args.clone() });
    let funds = b0 >= need;
    let allowed = spender.is_none() | (force >= need);
    let target_ok = kind != 1 && (kind != 2 || tag != 2);
    let nonzero = !op.withdraws() | (amount != 0);
    let outcome = result.borrow_mut().take();
    let pending = ic::w().calls.pop();
    chk!("rejection-no-effect", ic::w().calls.is_empty());
    let spender_recorded = if op.from_op() { Some(spender_account) } else { None };
    let burnt = |base: &Snap| {
        let b = block(base.blocks);
        burn_chk!(op, 0, match b.transaction.operation { Operation::Burn { from: f, spender: s, amount: a } => (f == from) & (s == spender_recorded) & (a == amount), _ => false });
        burn_chk!(op, 0, (b.effective_fee == Some(FEE)) & opt_eq64(b.transaction.created_at_time, created));
        if op.withdraws() { burn_chk!(op, 0, memo_is(&b.transaction.memo, &withdraw_memo(&to))); }
    };
    if pending.is_none() && !matches!(outcome, Some(Out::Failed(_))) {
        // refused up front
        let post = snap();
        chk!("rejection-no-effect", untouched(&pre, &post));
        match outcome {
            Some(Out::Funds(b)) => { burn_chk!(op, 0, !funds & is(&b, b0)); sym::cover("insufficient funds"); }
            Some(Out::Allowance(a)) => { burn_chk!(op, 0, !allowed & is(&a, force)); sym::cover("insufficient allowance"); }
            Some(Out::Generic(c)) => { burn_chk!(op, 0, !nonzero & is(&c, 100002)); sym::cover("zero"); }
            Some(Out::Receiver(p)) => { burn_chk!(op, 0, !target_ok & (p == to)); sym::cover("invalid receiver"); }
            _ => burn_chk!(op, 0, false),
        }
        return;
    }
    burn_chk!(op, 0, funds & allowed & target_ok & nonzero);
    let mid_bal = b0.wrapping_sub(need);
    let mid_grant = match g { Some((a, e)) => (a.wrapping_sub(need), e), None => (0, 0) };
    if let (None, Some(Out::Failed(f))) = (&pending, &outcome) {
        // the call could not even be made: all in one message
        burn_chk!(op, 1, matches!(fate, Fate::Perform(_) | Fate::Liquid));
        burnt(&pre);
        let v = Verdict { created: None, returned: amount, code: Some(RejectionCode::SysTransient) };
        check_refund(op, &pre, vec![now], pre.blocks, from, spender, mid_bal, mid_grant, expiry, &v, now, f);
        sym::cover("call not made");
        return;
    }
    burn_chk!(op, 0, outcome.is_none());
    // in between: taken from the account and from the allowance, once
    let call = pending.unwrap();
    let mid = universal(&pre, &[now], now);
    burnt(&pre);
    burn_chk!(op, 0, (mid.of(&from) == mid_bal) & (mid.supply == pre.supply.wrapping_sub(need)));
    let except = match spender { Some(s) => vec![(from, s)], None => vec![] };
    burn_chk!(op, 0, balances_same(&pre, &mid, &[from]) & allowances_same(&pre, &mid, &except));
    if let Some(s) = spender { let a = mid.allowance(&from, &s); burn_chk!(op, 0, (a.0 == mid_grant.0) & ((a.1 == mid_grant.1) | (a.0 == 0))); }
    // the call carries the amount to the right place
    burn_chk!(op, 0, (call.cycles == amount) & !call.best_effort);
    if op.withdraws() {
        burn_chk!(op, 0, (call.callee == Principal::management_canister()) & (call.method == "deposit_cycles"));
        burn_chk!(op, 0, match Decode!(&call.payload, DepositCyclesArgs) { Ok(a) => a.canister_id == to, Err(_) => false });
    } else {
        burn_chk!(op, 0, (call.callee == storage::CMC_PRINCIPAL) & (call.method == "create_canister"));
        sym::formatting(true); // type tables are keyed by formatted names
        let got = Decode!(&call.payload, CmcCreateCanisterArgs);
        sym::formatting(false);
        let mine = Some(vec![caller]);
        let want = match shape {
            0 => CmcCreateCanisterArgs { subnet_selection: None, settings: Some(CanisterSettings { controllers: mine, ..Default::default() }) },
            1 => CmcCreateCanisterArgs { subnet_selection: subnet, settings: Some(CanisterSettings { controllers: mine, ..Default::default() }) },
            2 => CmcCreateCanisterArgs { subnet_selection: None, settings: Some(settings(mine)) },
            _ => args.unwrap(),
        };
        burn_chk!(op, 0, match got { Ok(a) => a == want, Err(_) => false });
    }
    sym::cover("sent");
    if !after { return; }
    // what happens while the ledger waits: nothing, or other messages that leave any balance and any allowance
    let mut cur = mid_bal;
    let mut cur_grant = mid_grant;
    let disturbed = sym::coin();
    if disturbed {
        cur = balance("then");
        let s2 = much_supply("supply");
        let key = storage::to_account_key(&from);
        mutate_state(|s| { if cur == 0 { s.balances.remove(&key); } else { s.balances.insert(key, cur); } s.cache.total_supply = s2; });
        if let Some(sp) = spender {
            let k = (key, storage::to_account_key(&sp));
            mutate_state(|s| { if let Some((_, e)) = s.approvals.remove(&k) { if e != 0 { s.expiration_queue.remove(&(e, k)); } } });
            cur_grant = match sym::choose(3) { 0 => (0, 0), 1 => roomy(&from, &sp, now, true), _ => { let a = u128::MAX - sym::bits("allowance", 62) as u128; grant(&from, &sp, a, 0); (a, 0) } };
        }
    }
    let now2 = later("then", now);
    ic::w().time = now2;
    // the continuation runs as a message of its own, in which there is no caller to ask for cycles
    ic::w().caller = Principal::anonymous();
    let base = snap();
    if op.withdraws() { sym::traps_are_violations("withdraw-refund/trap") } else { sym::traps_are_violations("create-canister-refund/trap") }
    let (answer, back, v) = match fate {
        Fate::Reject(_) => {
            let c = if disturbed { 4 } else { 1 + sym::choose(7) };
            (Err(c), 0, Verdict { created: None, returned: amount, code: Some(reject_name(c)) })
        }
        _ if op.withdraws() => (Ok(b"DIDL\0\0".to_vec()), 0, Verdict { created: Some(None), returned: 0, code: None }),
        _ => match sym::choose(if disturbed { 3 } else { 4 }) {
            0 => (Ok(Encode!(&Ok::<Principal, CmcCreateCanisterError>(who(1))).unwrap()), 0, Verdict { created: Some(Some(who(1))), returned: 0, code: None }),
            1 => {
                let back = amount_back(amount, !op.from_op());
                (Ok(Encode!(&Err::<Principal, _>(CmcCreateCanisterError::Refunded { refund_amount: back, create_error: "no".to_string() })).unwrap()), back, Verdict { created: None, returned: back, code: Some(RejectionCode::CanisterError) })
            }
            2 => (Ok(Encode!(&Err::<Principal, _>(CmcCreateCanisterError::RefundFailed { refund_error: "no".to_string(), create_error: "no".to_string() })).unwrap()), 0, Verdict { created: None, returned: 0, code: Some(RejectionCode::CanisterError) }),
            // not an answer at all: taken for a failure of the CMC, which then has given the cycles back
            _ => (Ok(b"DIDL\0\x01\x71\x01x".to_vec()), amount, Verdict { created: None, returned: amount, code: Some(RejectionCode::CanisterError) }),
        },
    };
    sym::formatting(true);
    ic::deliver(call, answer, back);
    sym::formatting(false);
    match (result.borrow_mut().take(), v.created) {
        (Some(Out::Ok(i, c)), Some(c2)) => {
            let post = snap();
            burn_chk!(op, 0, is(&i, pre.blocks as u128) & (c == c2));
            burn_chk!(op, 0, balances_same(&base, &post, &[]) & allowances_same(&base, &post, &[]) & (post.supply == base.supply) & (post.blocks == base.blocks));
            chk!("tip-certificate", match (&base.certified, &post.certified) { (Some(c), Some(d)) => bytes_eq(c, d), _ => false });
            sym::cover("done");
        }
        (Some(Out::Failed(f)), None) => check_refund(op, &base, vec![], pre.blocks, from, spender, cur, cur_grant, expiry, &v, now2, &f),
        _ => burn_chk!(op, 1, false),
    }
    burn_chk!(op, 1, ic::w().calls.is_empty());
}
/// what the CMC gives back: at most what it got, in one of the size classes
fn amount_back(amount: u128, plain: bool) -> u128 {
    let b = super::env::amount("back", if plain { &[2, 5, 0] } else { &[2, 5] });
    sym::assume(b <= amount);
    b
}
#[no_mangle] pub extern "C" fn h_withdraw() { burn(Op::Withdraw, false) }
#[no_mangle] pub extern "C" fn h_withdraw_after() { burn(Op::Withdraw, true) }
#[no_mangle] pub extern "C" fn h_withdraw_from() { burn(Op::WithdrawFrom, false) }
#[no_mangle] pub extern "C" fn h_withdraw_from_after() { burn(Op::WithdrawFrom, true) }
#[no_mangle] pub extern "C" fn h_create() { burn(Op::Create, false) }
#[no_mangle] pub extern "C" fn h_create_after() { burn(Op::Create, true) }
#[no_mangle] pub extern "C" fn h_create_from() { burn(Op::CreateFrom, false) }
#[no_mangle] pub extern "C" fn h_create_from_after() { burn(Op::CreateFrom, true) }
