//! Who may do what.
use super::env::*;
use super::ops::*;

/// Somebody, whoever it is (any canister-shaped principal, any subaccount), tries to use what belongs to another.
#[no_mangle]
pub extern "C" fn h_stranger() {
    let now = ledger();
    let b = balance("balance");
    let c = balance("other");
    fund_much(&[(acc(0), b), (sacc(0), c)]);
    let a = sym::bits("allowance", 62) as u128 + 1;
    grant(&acc(0), &sacc(1), a, 0);
    let id: [u8; 10] = sym::arr("caller");
    let sub: [u8; 32] = sym::arr("subaccount");
    let caller = Principal::from_slice(&id);
    let me = Account { owner: caller, subaccount: Some(sub) };
    let op = [1, 4, 6][sym::choose(3) as usize];
    let amount = amount_class("amount", 2);
    let chosen = if op == 1 { sym::choose(3) } else { 0 };
    let from = match chosen { 0 => acc(0), 1 => zacc(0), _ => sacc(0) };
    let pre = snap();
    sym::traps_are_violations("authorization/trap");
    let r = run(&Req { from, spender: me, amount, ..plain(op) });
    let named = bytes_eq(&id, who(1).as_slice()) & bytes_eq(&sub, &SUB);
    let covered = chosen != 2 && (a >= amount + FEE) & (b >= amount + FEE);
    match r {
        Res::Done(_) | Res::Pending(_) => {
            chk!("authorization", named & covered);
            let _ = universal(&pre, &[now], now);
            sym::cover("granted");
        }
        _ => {
            chk!("authorization", !(named & covered));
            chk!("rejection-no-effect", untouched(&pre, &snap()));
            sym::cover("refused");
        }
    }
}
/// A request in one's own name draws on the caller's account only, whoever the caller is.
#[no_mangle]
pub extern "C" fn h_own_name() {
    let now = ledger();
    let b = balance("balance");
    fund_much(&[(acc(1), b), (acc(0), 1 << 100), (sacc(1), 1 << 100)]);
    let id: [u8; 10] = sym::arr("caller");
    let caller = Principal::from_slice(&id);
    let op = [0, 2, 3, 5][sym::choose(4) as usize];
    let amount = amount_class("amount", 2);
    let pre = snap();
    sym::traps_are_violations("authorization/trap");
    let r = run(&Req { from: Account { owner: caller, subaccount: None }, spender: acc(3), to: acc(2), amount, ..plain(op) });
    let need = if op == 2 { FEE } else { amount + FEE };
    let mine = bytes_eq(&id, who(1).as_slice());
    match r {
        Res::Done(_) | Res::Pending(_) => {
            chk!("authorization", mine & (b >= need));
            let post = universal(&pre, &[now], now);
            chk!("authorization", balances_same(&pre, &post, &[acc(1), acc(2)]));
            sym::cover("done");
        }
        _ => {
            chk!("authorization", !(mine & (b >= need)));
            chk!("rejection-no-effect", untouched(&pre, &snap()));
            sym::cover("refused");
        }
    }
}
/// The management canister takes no part in transfers and approvals.
#[no_mangle]
pub extern "C" fn h_denied() {
    let now = ledger();
    let m = Account { owner: Principal::management_canister(), subaccount: if sym::coin() { Some(SUB) } else { None } };
    affluent(now);
    let b = balance("balance");
    mutate_state(|s| { s.balances.insert(storage::to_account_key(&m), b); });
    grant(&m, &acc(1), 1 << 80, 0);
    grant(&acc(0), &m, 1 << 80, 0);
    let amount = amount("amount", &[1, 2]);
    let r = match sym::choose(7) {
        0 => Req { amount, from: m, ..plain(0) },
        1 => Req { amount, to: m, ..plain(0) },
        2 => Req { amount, from: m, ..plain(1) },
        3 => Req { amount, to: m, ..plain(1) },
        4 => Req { amount, spender: m, ..plain(1) },
        5 => Req { amount, from: m, ..plain(2) },
        _ => Req { amount, spender: m, ..plain(2) },
    };
    let pre = snap();
    sym::traps_are_violations("authorization/trap");
    chk!("authorization", matches!(run(&r), Res::Other));
    chk!("authorization", untouched(&pre, &snap()));
    sym::cover("denied");
}
