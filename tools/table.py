"""Which harnesses decide which property, and what a complete run of each harness must have reached.

PROPS: id -> (tags, harnesses). A harness assertion is named TAG/place; a check turns on the assertions of its tags.
HARNESSES: name -> covers that a complete run must have reached (else the run is vacuous somewhere)."""

HARNESSES = {
    "h_window": ["too old", "future", "taken"],
    "h_again": ["answered", "duplicate", "later", "meanwhile", "too old by now"],
    "h_differ": ["different", "duplicate"],
    "h_unlike": ["another operation", "duplicate", "sent again"],
    "h_get_blocks": ["answered", "some"],
    "h_blocks_link": ["linked"],
    "h_get_allowances": ["listed", "some"],
    "h_allowance_pages": ["pages"],
    "h_facts": ["asked"],
    "h_tip": ["certified"],
    "h_stranger": ["granted", "refused"],
    "h_own_name": ["done", "refused"],
    "h_denied": ["denied"],
    "h_extreme": ["done", "approved", "funds", "allowance"],
    "h_extreme_fee": ["bad fee"],
    "h_extreme_deposit": ["deposited", "too much"],
    "h_extreme_refund": ["restored"],
    "h_upgrade": ["refused", "upgraded"],
    "h_block_forms": ["read back"],
    "h_block_alias": ["read back"],
    "h_many": ["tidied", "more than a hundred"],
    "h_block_from_value": ["read back"],
    "h_block_hash": ["compared"],
    "h_block_hash_shapes": ["compared"],
    "h_accounts_apart": ["moved"],
    "h_allowances_apart": ["asked"],
    "h_ways_to_write": ["done"],
    "h_init": ["installed", "too much", "wrong arguments"],
    "h_outstanding": ["done", "duplicate", "failed"],
    "h_outstanding_small": ["done", "failed"],
    "h_sequence": ["done", "failed", "refused", "expired"],
    "h_long_log": ["recent", "duplicate"],
    "h_long_page": ["page"],
    "h_long_memory": ["duplicate", "too old by now"],
    "h_memo": ["recorded", "long"],
    "h_transfer": ["ok", "bad fee", "insufficient"],
    "h_allowance": ["asked", "tidied"],
    "h_regrant": ["granted anew", "refused", "used"],
    "h_transfer_from": ["ok", "bad fee", "insufficient funds", "insufficient allowance", "expired"],
    "h_approve": ["ok", "bad fee", "insufficient funds", "allowance changed", "expired"],
    "h_approve_odd": ["saturated", "huge expected allowance", "huge fee", "denied"],
    "h_deposit": ["deposited"],
    "h_withdraw": ["insufficient funds", "invalid receiver", "zero", "sent"],
    "h_withdraw_after": ["call not made", "done", "nothing to refund", "refunded", "sent"],
    "h_withdraw_from": ["insufficient funds", "insufficient allowance", "invalid receiver", "zero", "sent"],
    "h_withdraw_from_after": ["approval restored", "call not made", "done", "nothing to refund", "refunded", "sent"],
    "h_create": ["insufficient funds", "sent"],
    "h_create_after": ["call not made", "done", "nothing to refund", "refunded", "sent"],
    "h_create_from": ["insufficient funds", "insufficient allowance", "sent"],
    "h_create_from_after": ["approval restored", "call not made", "done", "nothing to refund", "refunded", "sent"],
}
SEND = ["h_withdraw", "h_withdraw_from", "h_create", "h_create_from"]
AFTER = ["h_withdraw_after", "h_withdraw_from_after", "h_create_after", "h_create_from_after"]
MOVES = ["h_transfer", "h_transfer_from", "h_approve", "h_deposit"]

PROPS = {
    "C01": (["transfer-exact"], ["h_transfer"]),
    "C02": (["transfer-from-exact"], ["h_transfer_from"]),
    "C03": (["approve-exact"], ["h_approve", "h_approve_odd"]),
    "C04": (["deposit-exact"], ["h_deposit"]),
    "C05": (["withdraw-exact"], ["h_withdraw", "h_withdraw_after", "h_withdraw_from", "h_withdraw_from_after"]),
    "C06": (["withdraw-refund"], ["h_withdraw_after", "h_withdraw_from_after"]),
    "C07": (["create-canister-exact"], ["h_create", "h_create_after", "h_create_from"]),
    "C08": (["create-canister-refund"], ["h_create_after", "h_create_from_after"]),
    "C09": (["supply-conservation", "cycles-backing"], MOVES + SEND + AFTER),
    "C10": (["extremes"], ["h_extreme", "h_extreme_fee", "h_extreme_deposit", "h_extreme_refund"]),
    "C11": (["block-chain"], MOVES + AFTER + ["h_accounts_apart", "h_block_alias", "h_long_log"]),
    "C12": (["block-replay"], MOVES + AFTER + ["h_accounts_apart", "h_block_alias", "h_window"]),
    "C13": (["tip-certificate"], ["h_tip", "h_long_log"] + MOVES + AFTER),
    "C16": (["deduplication"], ["h_again", "h_differ", "h_unlike", "h_window", "h_long_memory"]),
    "C17": (["time-window"], ["h_window"]),
    "C19": (["get-blocks"], ["h_get_blocks", "h_blocks_link", "h_long_log", "h_long_page"]),
    "C20": (["get-allowances"], ["h_get_allowances", "h_allowance_pages"]),
    "C21": (["upgrade"], ["h_upgrade"]),
    "C22": (["block-encoding"], ["h_block_forms", "h_block_alias", "h_block_from_value", "h_block_hash", "h_block_hash_shapes"]),
    "C23": (["account-identity"], ["h_accounts_apart", "h_allowances_apart", "h_ways_to_write"]),
    "C25": (["install"], ["h_init"]),
    "C26": (["memo"], ["h_memo", "h_deposit"]),
    "C27": (["outstanding-calls"], ["h_outstanding", "h_outstanding_small"]),
    "C28": (["sequences"], ["h_sequence"]),
    "C24": (["queries"], ["h_facts"]),
    "C18": (["allowance-expiry"], ["h_allowance", "h_many", "h_regrant", "h_approve", "h_transfer_from", "h_withdraw_from", "h_withdraw_from_after"]),
    "C14": (["authorization"], ["h_stranger", "h_own_name", "h_denied"] + MOVES + SEND + AFTER),
    "C15": (["rejection-no-effect"], ["h_transfer", "h_transfer_from", "h_approve", "h_approve_odd", "h_window", "h_again"] + SEND),
}

BOUNDS = [
    "accounts: 4 principals, with and without subaccount (and the all-zero subaccount)",
    "balances: any below 2^120 cycles; total supply: any below 2^122; allowances: any below 2^120 (plus the largest)",
    "amounts: symbolic within size classes 0, 1..23, 2^24..2^28, 2^56..2^63, 2^65..2^70 (2^120..2^126)",
    "times: any in [2^60, 2^61) ns; expiries: any 64-bit number",
    "one operation from an arbitrary such state (operations that call out: both messages, with an arbitrary state in between)",
]
ASSUMPTIONS = [
    "SHA-256 is collision-free (modelled as an injective function)",
    "text formatting of symbolic numbers prints nothing (error texts are not compared)",
    "the allocator does not run out of memory; instruction limits are not modelled",
    "the stubs in models/ (sha2, http types, candid's Nat coding) behave like the crates they stand for",
    "the system interface behaves as in harness/verif/ic.rs; traps roll the message back",
]
