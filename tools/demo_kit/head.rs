#![allow(dead_code, unused_imports, static_mut_refs)]
pub mod ic;
pub use super::*;
pub use candid::{Decode, Encode, Nat, Principal};
pub use cycles_ledger::storage::{self, mutate_state, read_state};
pub use icrc_ledger_types::icrc1::transfer::{TransferArg as TransferArgs, TransferError};
pub use icrc_ledger_types::icrc103::get_allowances::{Allowances, GetAllowancesArgs};
pub use icrc_ledger_types::icrc2::allowance::{Allowance, AllowanceArgs};
pub use icrc_ledger_types::icrc2::approve::{ApproveArgs, ApproveError};
pub use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};
pub use num_traits::ToPrimitive;
pub use cycles_ledger::config::{Config, FEE};
pub use cycles_ledger::endpoints::*;
pub use cycles_ledger::storage::{Block, Operation};
pub use icrc_ledger_types::icrc1::account::Account;
pub use icrc_ledger_types::icrc1::transfer::Memo;
pub use serde_bytes::ByteBuf;
#[link(wasm_import_module = "demo")]
extern "C" { #[link_name = "say"] fn h_say(p: *const u8, n: usize); }
pub fn say(s: &str) { unsafe { h_say(s.as_ptr(), s.len()) } }
static mut BAD: i32 = 0;
pub fn expect(c: bool, what: &str) { if !c { unsafe { BAD += 1 } say(&format!("NOT AS EXPECTED: {what}")); } }
pub fn bad() -> i32 { unsafe { BAD } }
pub fn user(i: u8) -> Principal { let mut b = [i; 29]; b[28] = 2; Principal::from_slice(&b) }
pub fn canister(i: u8) -> Principal { Principal::from_slice(&[0, 0, 0, 0, 0, i, 0, 7, 1, 1]) }
pub fn acc(p: Principal) -> Account { Account { owner: p, subaccount: None } }
pub fn sub(p: Principal, s: u8) -> Account { Account { owner: p, subaccount: Some([s; 32]) } }
pub const T: u64 = 1_700_000_000_000_000_000;
pub const SEC: u64 = 1_000_000_000;
pub fn setup() { ic::w().time = T; init(LedgerArgs::Init(Config { max_blocks_per_request: 100, index_id: None, initial_balances: None })); }
pub fn as_(p: Principal) { ic::w().caller = p; }
pub fn at(t: u64) { ic::w().time = t; }
pub fn give(to: Account, n: u128) { ic::w().cycles_available = n + FEE; deposit(DepositArg { to, memo: None }); ic::w().cycles_available = 0; }
pub fn bal(a: Account) -> u128 { storage::balance_of(&a) }
pub fn supply() -> u128 { storage::read_state(|s| s.total_supply()) }
pub fn blocks() -> u64 { storage::read_state(|s| s.blocks.len()) }
pub fn block(i: u64) -> Block { storage::read_state(|s| s.blocks.get(i).unwrap().0) }
pub fn allowed(f: Account, s: Account) -> (u128, u64) { let a = icrc2_allowance(AllowanceArgs { account: f, spender: s }); (a.allowance.0.to_u128().unwrap(), a.expires_at.unwrap_or(0)) }
pub fn nat(n: u128) -> Nat { Nat::from(n) }
pub fn approve(s: Account, n: u128, expires_at: Option<u64>) -> Result<Nat, ApproveError> { icrc2_approve(ApproveArgs { from_subaccount: None, spender: s, amount: nat(n), expected_allowance: None, expires_at, fee: None, memo: None, created_at_time: None }) }
pub fn transfer(from_subaccount: Option<[u8; 32]>, to: Account, n: u128) -> Result<Nat, TransferError> { icrc1_transfer(TransferArgs { from_subaccount, to, amount: nat(n), fee: None, memo: None, created_at_time: None }) }
