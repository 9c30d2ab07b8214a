//! One shape for the seven requests that deduplicate.
use super::env::*;
use super::h_burn::{submit, Op, Out, Request};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
pub struct Req {
    /// 0 transfer, 1 transfer_from, 2 approve, 3 withdraw, 4 withdraw_from, 5 create_canister, 6 create_canister_from
    pub op: u32,
    pub from: Account, pub spender: Account, pub to: Account, pub amount: u128,
    pub fee: Option<u128>, pub memo: Option<Vec<u8>>, pub at: Option<u64>, pub expected: Option<u128>, pub expires: Option<u64>,
    /// an amount (a fee) of more than 128 bits
    pub over: bool, pub over_fee: bool,
}
pub const OPS: u32 = 7;
pub enum Res { Done(u128), Pending(Rc<RefCell<Option<Out>>>), TooOld, Future(u64), Dup(u128, Option<Principal>), Funds(u128), Allowance(u128), BadFee(u128), Other }
impl Res { pub fn taken(&self) -> bool { matches!(self, Res::Done(_) | Res::Pending(_)) } }

/// a request that only needs funds and, on behalf, an allowance
pub fn plain(op: u32) -> Req { Req { op, from: acc(0), spender: acc(1), to: acc(2), amount: 1 << 30, fee: None, memo: None, at: None, expected: None, expires: None, over: false, over_fee: false } }
/// with all that can be said besides; after `affluent`
pub fn elaborate(r: Req, expires: u64) -> Req {
    if r.op > 2 { return r; }
    let r = Req { fee: Some(FEE), memo: Some(vec![7; 5]), ..r };
    if r.op == 2 { Req { expected: Some(1 << 80), expires: Some(expires), ..r } } else { r }
}
pub fn on_behalf(op: u32) -> bool { matches!(op, 1 | 4 | 6) }
pub fn burns(op: u32) -> bool { op >= 3 }
pub fn caller_of(r: &Req) -> Principal { if on_behalf(r.op) { r.spender.owner } else { r.from.owner } }
fn number(n: Nat) -> u128 { nat(&n).unwrap() }
pub fn burn_res(o: Out) -> Res {
    match o { Out::Ok(n, _) => Res::Done(number(n)), Out::TooOld => Res::TooOld, Out::Future(t) => Res::Future(t), Out::Duplicate(n, c) => Res::Dup(number(n), c), Out::Funds(n) => Res::Funds(number(n)), Out::Allowance(n) => Res::Allowance(number(n)), _ => Res::Other }
}
pub fn run(r: &Req) -> Res {
    ic::w().caller = caller_of(r);
    let memo = r.memo.clone().map(|m| Memo(ByteBuf::from(m)));
    let (amount, fee) = (if r.over { huge() } else { Nat::from(r.amount) }, if r.over_fee { Some(huge()) } else { r.fee.map(Nat::from) });
    match r.op {
        0 => match icrc1_transfer(TransferArgs { from_subaccount: r.from.subaccount, to: r.to, amount, fee, memo, created_at_time: r.at }) {
            Ok(n) => Res::Done(number(n)),
            Err(TransferError::TooOld) => Res::TooOld,
            Err(TransferError::CreatedInFuture { ledger_time }) => Res::Future(ledger_time),
            Err(TransferError::Duplicate { duplicate_of }) => Res::Dup(number(duplicate_of), None),
            Err(TransferError::BadFee { expected_fee }) => Res::BadFee(number(expected_fee)),
            Err(TransferError::InsufficientFunds { balance }) => Res::Funds(number(balance)),
            Err(_) => Res::Other,
        },
        1 => match icrc2_transfer_from(TransferFromArgs { spender_subaccount: r.spender.subaccount, from: r.from, to: r.to, amount, fee, memo, created_at_time: r.at }) {
            Ok(n) => Res::Done(number(n)),
            Err(TransferFromError::TooOld) => Res::TooOld,
            Err(TransferFromError::CreatedInFuture { ledger_time }) => Res::Future(ledger_time),
            Err(TransferFromError::Duplicate { duplicate_of }) => Res::Dup(number(duplicate_of), None),
            Err(TransferFromError::BadFee { expected_fee }) => Res::BadFee(number(expected_fee)),
            Err(TransferFromError::InsufficientFunds { balance }) => Res::Funds(number(balance)),
            Err(TransferFromError::InsufficientAllowance { allowance }) => Res::Allowance(number(allowance)),
            Err(_) => Res::Other,
        },
        2 => match icrc2_approve(ApproveArgs { from_subaccount: r.from.subaccount, spender: r.spender, amount, expected_allowance: r.expected.map(Nat::from), expires_at: r.expires, fee, memo, created_at_time: r.at }) {
            Ok(n) => Res::Done(number(n)),
            Err(ApproveError::TooOld) => Res::TooOld,
            Err(ApproveError::CreatedInFuture { ledger_time }) => Res::Future(ledger_time),
            Err(ApproveError::Duplicate { duplicate_of }) => Res::Dup(number(duplicate_of), None),
            Err(ApproveError::BadFee { expected_fee }) => Res::BadFee(number(expected_fee)),
            Err(ApproveError::InsufficientFunds { balance }) => Res::Funds(number(balance)),
            Err(_) => Res::Other,
        },
        k => {
            let op = [Op::Withdraw, Op::WithdrawFrom, Op::Create, Op::CreateFrom][k as usize - 3];
            let cell = submit(Request { op, from: r.from, spender: r.spender, to: r.to.owner, amount, created_at_time: r.at, args: None });
            let done = cell.borrow_mut().take();
            match done { Some(o) => burn_res(o), None => Res::Pending(cell) }
        }
    }
}
/// a state in which every plain request has the funds and the allowance it needs, many times over
pub fn affluent(now: u64) {
    let _ = now;
    fund(&[(acc(0), 1 << 80), (sacc(0), 1 << 80), (acc(3), 1 << 80)]);
    grant(&acc(0), &acc(1), 1 << 80, 0);
    grant(&acc(0), &sacc(1), 1 << 80, 0);
    grant(&sacc(0), &acc(1), 1 << 80, 0);
    ic::w().balance = u128::MAX / 2;
}
