#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below and from table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, M, C = "cycles-ledger/src/storage.rs", "cycles-ledger/src/main.rs", "cycles-ledger/src/config.rs"
MEMO, EP, CA = "cycles-ledger/src/memo.rs", "cycles-ledger/src/endpoints.rs", "cycles-ledger/src/compact_account.rs"
STATE = {
    "balances": {"name": "balances", "meaning": "cycles of each account", "where": f"{S} State.balances"},
    "approvals": {"name": "approvals", "meaning": "allowance and expiry per (owner, spender), and the queue of expiries", "where": f"{S} State.approvals, State.expiration_queue"},
    "supply": {"name": "total supply", "meaning": "cached sum of all balances", "where": f"{S} Cache.total_supply"},
    "blocks": {"name": "blocks", "meaning": "the append-only log of transactions", "where": f"{S} State.blocks"},
    "tip": {"name": "tip", "meaning": "hash of the last block and the hash tree that is certified", "where": f"{S} Cache.phash, Cache.hash_tree"},
    "dedup": {"name": "recent transactions", "meaning": "hashes and times of transactions in the deduplication window", "where": f"{S} State.transaction_hashes, State.transaction_timestamps"},
}
NO_TESTS = "The unit tests that run here cover storage encodings, invariants of a default configuration and a few round trips; the behaviour of the endpoints is only sampled by integration tests that need a replica binary, at a handful of values."
# id, title, statement, over, quantifier text, why, files, state, mechanisms
P = [
    ("C01", "A transfer moves exactly its amount and fee, or is refused for a true reason",
     "A transfer request succeeds exactly when any fee it names is the ledger's fee and the sender holds the amount plus the fee; it then takes amount plus fee from the sender's account, gives the amount to the recipient, changes no other balance or allowance, lowers the total supply by the fee, and returns the index of the block recorded for it. Otherwise it is refused with the error that applies, carrying the sender's true balance or the expected fee.",
     ["inputs"], "every sender and recipient account (with or without subaccount, including themselves), every amount, fee argument, balance and total supply, with and without memo and creation time", NO_TESTS, [S, M], ["balances", "supply", "blocks"], [("transfer", f"{S} transfer"), ("execute_transfer", f"{M} execute_transfer")]),
    ("C02", "A transfer on behalf uses exactly the allowance in force",
     "A transfer by a spender succeeds exactly when any fee named is right, the owner holds the amount plus the fee, and the spender is the owner's very account or has an unexpired allowance of at least the amount plus the fee; that allowance then shrinks by exactly amount plus fee keeping its expiry, and balances move as in a transfer by the owner. Otherwise it is refused with the error that applies, carrying the true balance or the allowance in force.",
     ["inputs", "histories"], "every owner, spender and recipient account, amount, fee argument, balance, allowance, expiry and current time", NO_TESTS, [S, M], ["balances", "approvals"], [("use_allowance", f"{S} use_allowance"), ("check_allowance", f"{S} check_allowance"), ("transfer", f"{S} transfer")]),
    ("C03", "An approval sets exactly the allowance asked for, or is refused truthfully",
     "An approval succeeds exactly when any fee named is right, any expected allowance equals the allowance in force, any expiry lies in the future, and the owner can pay the fee; afterwards the spender's allowance is the amount asked for (at most what 128 bits hold) with that expiry, the owner has paid the fee, and no other allowance or balance changed. Approving oneself is impossible, and a refused approval carries the true current allowance, balance, fee or ledger time.",
     ["inputs", "histories"], "every owner and spender, amount, expected allowance, expiry, fee argument, balance, existing allowance and current time", NO_TESTS, [S, M], ["approvals", "balances"], [("approve", f"{S} approve"), ("record_approval", f"{S} record_approval"), ("icrc2_approve", f"{M} icrc2_approve")]),
    ("C04", "A deposit credits what came in less the fee",
     "A deposit accepts all cycles attached to the call and credits the receiver with them less the fee, raising the total supply by the same and reporting the receiver's new balance and the index of the block recorded; nothing else changes. A deposit of no more than the fee, or with a memo longer than 32 bytes, fails without effect.",
     ["inputs"], "every receiver account, number of attached cycles, memo, balance and total supply", NO_TESTS, [S, M], ["balances", "supply", "blocks"], [("deposit", f"{S} deposit"), ("mint", f"{S} mint"), ("deposit endpoint", f"{M} deposit")]),
    ("C05", "A withdrawal burns amount and fee once and sends exactly the amount",
     "A withdrawal (by the owner, or by a spender with a sufficient unexpired allowance) is taken up exactly when the amount is not zero, the receiver is not a self-authenticating principal, and funds and allowance cover amount plus fee; the account and the allowance are then charged amount plus fee, a burn block naming the receiver is recorded, and exactly one call is made, to the management canister, depositing exactly the amount in the receiver. If that call succeeds nothing further changes and the index of the burn block is returned; a refused withdrawal gets the error that applies with the true balance or allowance.",
     ["inputs", "schedules", "histories"], "every account, spender, receiver, amount, balance, allowance, expiry, current time, and every state that other messages leave while the call is outstanding", NO_TESTS, [S, M, MEMO], ["balances", "approvals", "blocks"], [("withdraw", f"{S} withdraw"), ("withdraw_from", f"{S} withdraw_from"), ("encode_withdraw_memo", f"{MEMO}")]),
    ("C06", "A failed withdrawal gives the cycles back once, less the fee",
     "When the call of a withdrawal fails, at any point and for any reason, the account gets back the amount less the fee in one mint block (nothing if the amount does not exceed the fee), no other account changes, and the error names the reject code and the blocks recorded. If a spender withdrew and the old allowance has not expired, the allowance in force is raised by the amount less two fees in one approve block, for which the owner pays a fee (if enough is left); an expired allowance is not revived.",
     ["inputs", "schedules", "fault_sequences", "histories"], "every amount, reject code, failure to make the call, time of the answer, and every balance, allowance and expiry left by other messages while the call was outstanding", NO_TESTS, [S], ["balances", "approvals", "blocks"], [("reimburse", f"{S} reimburse"), ("reimburse_approval", f"{S} reimburse_approval"), ("penalize", f"{S} penalize")]),
    ("C07", "Creating a canister burns amount and fee once and sends exactly the amount",
     "Creating a canister (by the owner, or by a spender with a sufficient unexpired allowance) is taken up exactly when funds and allowance cover amount plus fee; the account and the allowance are then charged amount plus fee, a burn block is recorded, and exactly one call is made, to the cycles minting canister, carrying exactly the amount and the caller's settings, with the caller as only controller unless the settings name controllers. On success the new canister's id and the index of the burn block are returned and nothing further changes.",
     ["inputs", "schedules", "histories"], "every account, spender, amount, balance, allowance, expiry, choice of subnet and settings, and every state left by other messages while the call is outstanding", NO_TESTS, [S, M, EP], ["balances", "approvals", "blocks"], [("create_canister", f"{S} create_canister"), ("create_canister_from", f"{S} create_canister_from")]),
    ("C08", "A failed canister creation gives back once what came back, less the fee",
     "When creating a canister fails, the account gets back what the cycles minting canister returned (all of the amount if the call itself failed) less the fee in one mint block, or nothing if that does not exceed the fee, and the error names the blocks recorded. If a spender paid and the old allowance has not expired, the allowance in force is raised by what was credited less one more fee in one approve block, for which the owner pays a fee (if enough is left); nothing else changes.",
     ["inputs", "schedules", "fault_sequences", "histories"], "every amount, answer of the cycles minting canister (including malformed ones), reject code, time of the answer, and every state left by other messages while the call was outstanding", NO_TESTS, [S, EP], ["balances", "approvals", "blocks"], [("reimburse", f"{S} reimburse"), ("reimburse_approval", f"{S} reimburse_approval")]),
    ("C09", "Total supply equals the sum of balances and is backed by cycles",
     "After every message the reported total supply has changed by exactly the change of the sum of all balances. It never grows by more than the cycles the ledger took in during the message less those it sent out, so the cycles the ledger holds always cover what it owes.",
     ["histories", "inputs", "schedules", "fault_sequences"], "every operation that changes state, with every argument, state, answer and failure within the bounds of the harnesses (one inductive step over arbitrary states)", NO_TESTS, [S, M], ["balances", "supply"], [("credit", f"{S} State::credit"), ("debit", f"{S} State::debit"), ("deposit", f"{M} deposit")]),
    ("C11", "The block log is an append-only hash chain",
     "Every successful operation appends exactly the blocks it is specified to record, with the ledger's time as their timestamp, and never alters or removes an earlier block. Each block names the hash of the block before it, and the ledger's last block hash is the hash of the last block's representation.",
     ["histories", "inputs"], "every operation from every state within the bounds", NO_TESTS, [S], ["blocks", "tip"], [("emit_block", f"{S} State::emit_block"), ("Block::hash", f"{S} Block::hash")]),
    ("C12", "The log alone determines balances and allowances",
     "Replaying the recorded blocks, with the amounts, fees, spenders and expiries they state, over the earlier balances and allowances gives exactly the ledger's balances, total supply and allowances in force; no replayed step is impossible. The blocks record the operation, accounts, amounts, fee and creation time the caller asked for.",
     ["histories", "inputs"], "every operation from every state within the bounds, including refunds after failed calls", NO_TESTS, [S], ["blocks", "balances", "approvals"], [("process_transaction", f"{S} process_transaction"), ("process_block", f"{S} process_block"), ("effective_fee", f"{S} effective_fee")]),
    ("C13", "The certified data always commits to the last block",
     "After every message that records a block, the canister's certified data is the root of a hash tree holding exactly the index and hash of the last block, and a message that records none leaves it unchanged.",
     ["histories", "inputs", "schedules"], "every operation from every state within the bounds, including the continuation after an outgoing call", NO_TESTS, [S, M], ["tip", "blocks"], [("emit_block", f"{S} State::emit_block"), ("compute_last_block_hash_and_hash_tree", f"{S}"), ("post_upgrade", f"{M} post_upgrade")]),
    ("C15", "A refused request changes nothing",
     "A request that is answered with an error other than the failure of an outgoing call leaves every balance, allowance, block, total supply, certified data and deduplication entry as it was, accepts no cycles and makes no call.",
     ["inputs", "histories"], "every request to transfer, approve, withdraw or create a canister that is refused, with every argument and state within the bounds", NO_TESTS, [S, M], ["balances", "approvals", "blocks", "dedup"], [("process_transaction", f"{S} process_transaction"), ("transfer", f"{S} transfer"), ("approve", f"{S} approve")]),
    ("C18", "An allowance lasts until its expiry and not a moment longer",
     "At every moment the allowance the ledger reports is the one last granted less what was used, if its expiry (when it has one) is still in the future, and otherwise none; it can be used exactly then and up to exactly that amount. Tidying up and later messages never remove, revive or alter an unexpired allowance of anyone else, and the bookkeeping of expiries names exactly the expiring allowances there are.",
     ["histories", "inputs", "schedules"], "every set of up to four allowances with any amounts and expiries, every sequence of a use, a new grant and an unrelated transfer at any times, and one step of every other operation from any such state", NO_TESTS, [S, M], ["approvals"], [("allowance", f"{S} allowance"), ("prune_approvals", f"{S} prune_approvals"), ("record_approval", f"{S} record_approval"), ("use_allowance", f"{S} use_allowance")]),
    ("C14", "Cycles leave an account only by its owner or within a granted allowance",
     "No message lowers the balance of an account unless its caller is the account's owner, or holds an unexpired allowance from that account that falls by at least as much in the same message; the only later charges are the fees for undoing a failed withdrawal or canister creation that was authorised in this way. No message creates, raises or prolongs an allowance from an account unless the caller owns it, except when giving back what a failed call had used up.",
     ["inputs", "histories", "schedules"], "every operation by every caller, on every account, amount, allowance and state within the bounds", NO_TESTS, [S, M], ["balances", "approvals"], [("use_allowance", f"{S} use_allowance"), ("from account", f"{M} endpoints"), ("is_denied_account", f"{S} is_denied_account")]),
    ("C16", "A request with a creation time is executed at most once",
     "Once a request with a creation time has been taken, sending the same request again while its creation time is acceptable is answered as a duplicate naming the block of the first (and the canister created by it, if any), however much later and whatever else happened or was tidied up in between, and has no effect. Requests that differ in the operation, an account, the amount, the fee, the memo, an expected allowance, an expiry or the creation time are never taken for duplicates, nor are requests without creation time or ones sent again after being refused.",
     ["histories", "inputs", "schedules", "fault_sequences"], "every pair of requests, every creation time and amount, every delay, with other requests before, between and after, and with the outgoing call unanswered, successful or failed", NO_TESTS, [S], ["dedup", "blocks"], [("check_duplicate", f"{S} check_duplicate"), ("process_transaction", f"{S} process_transaction"), ("prune_transactions", f"{S} prune_transactions"), ("Transaction::hash", f"{S} Transaction::hash")]),
    ("C17", "A creation time is accepted exactly within the transaction window",
     "A request whose creation time lies more than the transaction window plus the permitted drift in the past is refused as too old, one that lies more than the drift in the future is refused as created in the future with the ledger's time, and no request is refused for its creation time otherwise.",
     ["inputs"], "every operation with a creation time, every 64-bit creation time and every present-day ledger time", NO_TESTS, [S, C], ["dedup"], [("validate_created_at_time", f"{S} validate_created_at_time")]),
    ("C19", "Reading blocks returns exactly the recorded blocks asked for",
     "A request for ranges of blocks returns, range by range, exactly the recorded blocks in the part of each range that exists, up to the configured maximum in total, each with its index, together with the true length of the log. It never fails, whatever numbers it names, and what it returns hashes up to the certified tip.",
     ["inputs", "configurations", "histories"], "every start and length of one range, every 31-bit start and length of up to two and a third fixed length, every configured maximum", NO_TESTS, [S, M], ["blocks"], [("get_blocks", f"{S} get_blocks"), ("Block::to_value", f"{S} Block::to_value")]),
    ("C20", "Listing allowances returns exactly the allowances in force, page by page",
     "A listing of allowances returns, in order, those of the accounts of the same owner from the account asked for onwards (behind the given spender, if any) that are in force, each with its true amount and expiry, and no others; no more than asked for and never more than 500. Going on from the last entry of a page reaches all of them.",
     ["inputs", "histories"], "every choice of starting account and previous spender around six allowances with a symbolic expiry and time, every number asked for, and more than one full page", NO_TESTS, [S, M], ["approvals"], [("get_allowances", f"{S} get_allowances"), ("icrc103_get_allowances", f"{M}")]),
    ("C24", "Queries state the facts and change nothing",
     "The fee, supply, balances, decimals, names, metadata, index principal and standards that the ledger reports are those it operates by, for every account and configuration; asking changes nothing.",
     ["inputs", "configurations"], "every balance, total supply, subaccount, maximum block count and choice of index principal", NO_TESTS, [S, M, C], ["balances", "supply"], [("icrc1_balance_of", f"{M}"), ("icrc1_metadata", f"{M}"), ("icrc106_get_index_principal", f"{M}")]),
    ("C10", "No number wraps: the largest requests succeed exactly or are refused",
     "Requests, balances, allowances, fees and deposits close to, at or beyond the largest 128-bit number either have exactly their effect or are refused (or fail) without effect; no amount is ever truncated or wrapped, except that an allowance beyond the largest number counts as that number.",
     ["inputs", "histories"], "every operation with amounts and fees of 2^127 and more, within 2^28 of the largest number, and beyond it, on balances, allowances and supplies of any size up to the largest number", NO_TESTS, [S, M], ["balances", "supply", "approvals"], [("check_credit", f"{S} State::check_credit"), ("check_debit_from_account", f"{S}"), ("reimburse_approval", f"{S} reimburse_approval")]),
    ("C21", "An upgrade preserves the ledger and changes only the configuration asked for",
     "After an upgrade every balance, allowance, block, the total supply, the last block hash, the certified tip and the memory of recent requests are as before, and operations go on from there. The configuration changes exactly as the upgrade arguments say, and initial arguments are refused.",
     ["histories", "configurations", "crash_points"], "every operation before the upgrade, every balance, allowance, expiry, configuration and upgrade argument within the bounds", NO_TESTS, [S, M], ["balances", "approvals", "supply", "blocks", "tip", "dedup"], [("post_upgrade", f"{M} post_upgrade"), ("STATE", f"{S} STATE"), ("compute_total_supply", f"{S} State::compute_total_supply"), ("compute_last_block_hash_and_hash_tree", f"{S}")]),
    ("C22", "A block is stored, shown and hashed without loss or confusion",
     "Every block read back from stable memory, or from its generic representation, equals the block recorded, and the representation shown is the one prescribed by ICRC-3 with every field present. Two blocks (or transactions) have the same hash only if they are equal in every field.",
     ["inputs"], "every kind of block with every combination of optional fields and symbolic values for all of them; pairs that differ in any one field or in the presence of one", NO_TESTS, [S, CA], ["blocks", "dedup"], [("Transaction serde", f"{S} FlattenedTransaction"), ("Block::to_value", f"{S} Block::to_value"), ("Transaction::hash", f"{S} Transaction::hash"), ("CompactAccount", CA)]),
    ("C23", "Accounts are told apart exactly by owner and subaccount",
     "Two accounts share balances and allowances exactly if they have the same owner and the same subaccount, where no subaccount means the one of all zeros; every request treats the two ways to write such an account alike.",
     ["inputs"], "all owners of 1, 10 or 29 bytes and all 32-byte subaccounts of up to three accounts", NO_TESTS, [S], ["balances", "approvals"], [("to_account_key", f"{S} to_account_key")]),
    ("C25", "A new ledger starts with exactly its initial balances and configuration",
     "Installing credits every initial balance listed (adding up repeated accounts), records one mint block for each, and sets the total supply to their sum and the configuration to the one given. Balances that add up to more than can be represented, and upgrade arguments, make the installation fail.",
     ["inputs", "configurations"], "up to four initial balances (two of any size from 2^120 on), repeated accounts, every maximum block count, with and without index principal", NO_TESTS, [S, M, C], ["balances", "supply", "blocks"], [("init", f"{M} init"), ("mint", f"{S} mint")]),
    ("C27", "Calls outstanding at the same time are settled independently",
     "While several withdrawals and canister creations wait for their answers, each is settled by its own answer alone, in whatever order the answers come: it names its own blocks, reject and canister, and refunds its own account and allowance. In the end balances, allowances and supply are what they would be had each been the only one, and a later duplicate is answered with the block and canister of its own original.",
     ["schedules", "fault_sequences", "histories", "inputs"], "every pair of withdrawals and creations (by the owner or a spender, of the same or different accounts, dated or not), every order of success and failure, any times, and a symbolic amount", NO_TESTS, [S, M], ["balances", "approvals", "blocks", "dedup"], [("withdraw", f"{S} withdraw"), ("create_canister", f"{S} create_canister"), ("reimburse", f"{S} reimburse"), ("reimburse_approval", f"{S} reimburse_approval")]),
    ("C28", "A sequence of requests has the combined effect of its requests",
     "After any sequence of deposits, transfers, approvals, withdrawals and canister creations, some refused and some failing, at any times, every balance, the total supply, the allowance in force and the length of the log that the ledger reports are what results from the effects of the single requests, one after another. Nothing else that happened before has an influence on what a request does.",
     ["histories", "inputs"], "every sequence of three of ten kinds of requests (four in the thorough tier), with symbolic amounts, or balances and allowances, expiries and times", NO_TESTS, [S, M], ["balances", "approvals", "supply", "blocks"], [("process_transaction", f"{S} process_transaction"), ("credit", f"{S} State::credit"), ("debit", f"{S} State::debit"), ("use_allowance", f"{S} use_allowance")]),
    ("C26", "A memo of up to 32 bytes is recorded verbatim, a longer one refused",
     "The memo of a transfer, a transfer on behalf, an approval or a deposit is recorded in the block and shown by the log byte for byte, whatever its bytes and length up to 32; a request with a longer one has no effect.",
     ["inputs"], "every memo of 0 to 32 bytes, and memos of 33, 34, 40, 64, 255, 256 and 288 bytes", NO_TESTS, [S, M, MEMO], ["blocks"], [("validate_memo", f"{MEMO}"), ("process_transaction", f"{S} process_transaction")]),
]
NOT_APPLICABLE = []


def main():
    P.sort()
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for (i, title, st, over, text, why, files, state, mech) in P:
            assert len(title) <= 80, (i, len(title))
            assert len(title) <= 80, (i, len(title))
            f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                                "anchors": {"files": files, "state": [STATE[s] for s in state], "mechanism": [{"name": n, "where": w} for n, w in mech],
                                            "observe_at": ["endpoint results and ledger state after each message"], "hook_needed": None}}) + "\n")
    ids = [p[0] for p in P]
    assert set(PROPS) <= set(ids), set(PROPS) - set(ids)
    checks = [{"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
               "technique": "symbolic execution of the compiled canister (wasm) with Z3 deciding every branch and assertion",
               "level": "model_checking",
               "level_note": "Every path of the real code within the stated bounds; inputs, balances, times and answers symbolic. Trusts the engine (sampled paths and all counterexamples are re-run in node), Z3, and the stubs and assumptions in DESIGN.md."} for i in ids if i in PROPS]
    na = [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in PROPS]
    json.dump({"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the harnesses are compiled into the canister's own main module from a generated copy of its unedited sources."}, open(f"{VERIF}/MANIFEST.json", "w"), indent=1)


NA = {}
if __name__ == "__main__":
    main()
