From 2ca683d79134be085c636edff9b2179a9759cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 1/2] fix: report an allowance as expired at its expiry time

check_allowance, get_allowances, approve and the expiry queue treat an
allowance as expired once expires_at <= now, but icrc2_allowance and the
expected_allowance check of icrc2_approve still used it at expires_at == now.
---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 9733829..0f2c96d 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2164,7 +2164,7 @@ fn reimburse_approval(
 pub fn allowance(account: &Account, spender: &Account, now: u64) -> (u128, u64) {
     let key = (to_account_key(account), to_account_key(spender));
     let allowance = read_state(|s| s.approvals.get(&key).unwrap_or_default());
-    if allowance.1 > 0 && allowance.1 < now {
+    if allowance.1 > 0 && allowance.1 <= now {
         return (0, 0);
     }
     allowance
-- 
2.43.0


From 19b33c2afd8c8aafac37844b1c386bc9cb196867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 2/2] fix: icrc3_get_blocks range end must not overflow

With a large max_blocks_per_request and a request length near u64::MAX,
start + length overflowed, so existing blocks were not returned.
---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 0f2c96d..a29d10f 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2377,7 +2377,7 @@ pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
             _ => continue,
         };
         let end_excluded = match length.0.to_u64() {
-            Some(length) => log_length.min(start + remaining_length.min(length)),
+            Some(length) => log_length.min(start.saturating_add(remaining_length.min(length))),
             _ => continue,
         };
         read_state(|state| {
-- 
2.43.0

