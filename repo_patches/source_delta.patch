From eea066ac0fb39df734c1f0b5b7dfd99960d69f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:53 +0000
Subject: [PATCH 1/3] fix: a native deposit below the deposit fee no longer
 blocks minting

Deducting the fee panicked (Nat underflow) before anything else was awaited, on every run of
mint(), so no deposit was ever minted again. Such a deposit is now quarantined.
---
 minter/src/deposit.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/minter/src/deposit.rs b/minter/src/deposit.rs
index b99641a..4a2de2a 100644
--- a/minter/src/deposit.rs
+++ b/minter/src/deposit.rs
@@ -78,6 +78,21 @@ async fn mint() {
             ledger_canister_id,
         };
 
+        // A native deposit that does not cover the deposit fee cannot be minted. Deducting the fee
+        // would panic on every run and keep all the other deposits from being minted, so the deposit
+        // is quarantined instead (by dropping the guard).
+        if is_native_deposit
+            && deposit_native_fee
+                .as_ref()
+                .is_some_and(|fee| event.value() < *fee)
+        {
+            log!(
+                INFO,
+                "Failed to mint {token_symbol}: {event:?} deposited value is less than the deposit fee"
+            );
+            continue;
+        }
+
         // If deposit type is native_deposit and the fees are not set to zero,
         // The minted amount for user should be as follow
         // event.value() - deposit_native_fee
-- 
2.43.0


From db778f2cede1d97801a52c6dc737d13791130e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:36 +0000
Subject: [PATCH 2/3] fix: the deposit log query also selects native deposits

The topic filter listed only the registered ERC-20 contracts, but the helper
contract logs native deposits with the zero address as token: they were never
fetched once a token was registered, and with no token registered the empty
list matched deposits of arbitrary tokens.
---
 minter/src/deposit_logs/scraping.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minter/src/deposit_logs/scraping.rs b/minter/src/deposit_logs/scraping.rs
index 811e1f7..c47f68a 100644
--- a/minter/src/deposit_logs/scraping.rs
+++ b/minter/src/deposit_logs/scraping.rs
@@ -30,7 +30,10 @@ impl LogScraping for ReceivedDepositLogScraping {
         let contract_address = state.helper_contract_address.unwrap();
         let last_scraped_block_number = state.last_scraped_block_number;
 
-        let token_contract_addresses = state.erc20_tokens.alt_keys().cloned().collect::<Vec<_>>();
+        let mut token_contract_addresses =
+            state.erc20_tokens.alt_keys().cloned().collect::<Vec<_>>();
+        // Deposits of the native token are logged by the helper contract with the zero address.
+        token_contract_addresses.push(Address::ZERO);
         let mut topics: Vec<_> = vec![Topic::from(FixedSizeData(
             RECEIVED_DEPOSITED_TOKEN_EVENT_TOPIC,
         ))];
-- 
2.43.0


From d6051342def313bff24c5fc188c04b5ba28f3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:06 +0000
Subject: [PATCH 3/3] fix: a native withdrawal that does not cover the
 withdrawal fee is refused before the fee is taken

---
 minter/src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/minter/src/main.rs b/minter/src/main.rs
index c0f86bc..2a0088a 100644
--- a/minter/src/main.rs
+++ b/minter/src/main.rs
@@ -307,6 +307,16 @@ async fn withdraw_native_token(
         });
     }
 
+    // The amount must cover the withdrawal fee: otherwise the fee would be transferred
+    // before finding out that it cannot be deducted from the amount.
+    if let Some(withdrawal_fee) = withdrawal_native_fee {
+        if amount < withdrawal_fee {
+            return Err(WithdrawalError::AmountTooLow {
+                min_withdrawal_amount: withdrawal_fee.into(),
+            });
+        }
+    }
+
     // Fee transfer and calculation
     // The amount of transferred fee is as follow
     // withdrawal_native_fee - native_transfer_fee
-- 
2.43.0

