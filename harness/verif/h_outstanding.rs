//! Several calls outstanding at once: each is settled by its own answer, whatever the order of the answers.
use super::env::*;
use super::h_burn::{nat_at, Out};
use super::ops::*;
use candid::Encode;
use std::cell::RefCell;
use std::rc::Rc;

fn lent(r: &Req) -> bool { on_behalf(r.op) && r.spender != r.from }
fn refunded(r: &Req) -> bool { r.amount > FEE }
fn restored(r: &Req) -> bool { lent(r) && r.amount > 2 * FEE }

struct Sent { r: Req, i: u128, cell: Rc<RefCell<Option<Out>>>, call: Option<ic::PendingCall>, canister: Principal }

#[no_mangle]
pub extern "C" fn h_outstanding() { outstanding(false) }
/// amounts around the fees; requests in one's own name through the interface for others
#[no_mangle]
pub extern "C" fn h_outstanding_small() { outstanding(true) }

fn outstanding(small: bool) {
    let now = ledger();
    affluent(now);
    sym::traps_are_violations("outstanding-calls/trap");
    let dated = !small && sym::coin();
    let start = snap();
    let mut sent = vec![];
    let mut t = now;
    for k in 0..2u32 {
        let op = if small && k == 1 { 3 } else { 3 + sym::choose(4) };
        let from = if k == 1 && !small && sym::coin() { sacc(0) } else { acc(0) };
        let spender = if small && on_behalf(op) && sym::coin() { from } else { acc(1) };
        let amount = if k == 0 { amount_class("amount", if small { 5 } else { 2 }) } else { (1 << 60) + 12345 };
        // (two equal requests are told apart by their creation times)
        let at = if dated { Some(t - 1 + k as u64) } else { None };
        let r = Req { from, spender, amount, at, ..plain(op) };
        let pre = snap();
        let res = run(&r);
        let Res::Pending(cell) = res else { chk!("outstanding-calls", false); return };
        let mid = universal(&pre, &[t], t);
        chk!("outstanding-calls", ic::w().calls.len() == 1);
        let call = ic::w().calls.pop().unwrap();
        chk!("outstanding-calls", call.cycles == amount);
        chk!("outstanding-calls", mid.of(&from) == pre.of(&from).wrapping_sub(amount + FEE));
        sent.push(Sent { r, i: pre.blocks as u128, cell, call: Some(call), canister: who(1 + k) });
        t = later("later", t);
        ic::w().time = t;
    }
    let first = sym::choose(2) as usize;
    let mut ok = [false; 2];
    let mut seen = snap();
    for j in [first, 1 - first] {
        let reply = sym::coin();
        ok[j] = reply;
        let call = sent[j].call.take().unwrap();
        let s = &sent[j];
        let create = s.r.op >= 5;
        let answer = match (reply, create) { (true, false) => Ok(b"DIDL\0\0".to_vec()), (true, true) => Ok(Encode!(&Ok::<Principal, CmcCreateCanisterError>(s.canister)).unwrap()), _ => Err(4) };
        ic::w().caller = Principal::anonymous();
        let back = if reply { 0 } else { s.r.amount };
        sym::formatting(true);
        ic::deliver(call, answer, back);
        sym::formatting(false);
        // this one is answered, the other is not
        if j == first { chk!("outstanding-calls", sent[1 - j].cell.borrow().is_none()); }
        let out = s.cell.borrow_mut().take();
        let next = seen.blocks as u128;
        let mut times = vec![];
        match out {
            Some(Out::Ok(i, c)) => {
                chk!("outstanding-calls", reply && is(&i, s.i) && c == create.then_some(s.canister));
                sym::cover("done");
            }
            Some(Out::Failed(f)) => {
                chk!("outstanding-calls", !reply);
                chk!("outstanding-calls", nat_at(&f.block, if s.r.op == 3 { None } else { Some(s.i) }) && nat_at(&f.refund, refunded(&s.r).then_some(next)));
                chk!("outstanding-calls", nat_at(&f.approval, restored(&s.r).then_some(next + 1)));
                if refunded(&s.r) { times.push(t); }
                if restored(&s.r) { times.push(t); }
                sym::cover("failed");
            }
            _ => { chk!("outstanding-calls", false); return }
        }
        let post = universal(&seen, &times, t);
        chk!("outstanding-calls", balances_same(&seen, &post, &[s.r.from]) & allowances_same(&seen, &post, &[(s.r.from, s.r.spender)]));
        chk!("outstanding-calls", ic::w().calls.is_empty());
        seen = post;
        t = later("later still", t);
        ic::w().time = t;
    }
    // in the end: as if each had been the only one
    for a in [acc(0), sacc(0)] {
        let (mut b, mut g) = (start.of(&a), start.allowance(&a, &acc(1)).0);
        for (k, s) in sent.iter().enumerate() {
            if s.r.from != a { continue; }
            let mut gone = if !ok[k] && refunded(&s.r) { 2 * FEE } else { s.r.amount + FEE };
            if !ok[k] && restored(&s.r) { gone += FEE }
            // of the allowance, what the account paid, or all that was asked for
            if lent(&s.r) { g = g.wrapping_sub(if !ok[k] && restored(&s.r) { gone } else { s.r.amount + FEE }); }
            b = b.wrapping_sub(gone);
        }
        chk!("outstanding-calls", seen.of(&a) == b);
        chk!("outstanding-calls", seen.allowance(&a, &acc(1)).0 == g);
    }
    if dated {
        for (k, s) in sent.iter().enumerate() {
            match run(&s.r) {
                Res::Dup(i, c) => { chk!("outstanding-calls", i == s.i && c == (s.r.op >= 5 && ok[k]).then_some(s.canister)); sym::cover("duplicate"); }
                Res::TooOld => {}
                _ => chk!("outstanding-calls", false),
            }
        }
    }
}
