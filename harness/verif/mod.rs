#![allow(dead_code, unused_imports)]
pub mod sym;
pub mod ic;
pub mod env;
pub mod h_transfer;
pub mod h_transfer_from;
pub mod h_approve;
pub mod h_burn;
pub mod h_deposit;
pub mod h_allowance;
pub mod h_query;
pub mod ops;
pub mod h_extreme;
pub mod h_encoding;
pub mod h_account;
pub mod h_long;
pub mod h_memo;
pub mod h_outstanding;
pub mod h_sequence;
pub mod h_upgrade;
pub mod h_auth;
pub mod h_dedup;
