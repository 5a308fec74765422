From 3dac25a5b196f6138b1418b39f66100baf34b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:09 +0000
Subject: [PATCH 1/9] fix: credit the referrer share of a SendTake fee to the
 market's fees

The share was added to referrer_rebates_accrued, which only decreases when an
open orders account settles its own rebate. A swap has no such account, so the
tokens could never leave the vault.
---
 dex/src/state.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dex/src/state.rs b/dex/src/state.rs
index d42f800..491e09c 100644
--- a/dex/src/state.rs
+++ b/dex/src/state.rs
@@ -2720,6 +2720,8 @@ impl State {
             client_order_id: None,
         };
 
+        let rebates_accrued_before = order_book_state.market_state.referrer_rebates_accrued;
+
         let mut limit = instruction.limit;
         let mut proceeds = RequestProceeds::zero();
         let _unfilled_portion = order_book_state.process_orderbook_request(
@@ -2731,6 +2733,12 @@ impl State {
 
         let market_state = order_book_state.market_state;
 
+        // There is no open orders account through which the referrer share of
+        // this fee could ever be settled, so it belongs to the market's fees.
+        let unclaimable_rebates = market_state.referrer_rebates_accrued - rebates_accrued_before;
+        market_state.referrer_rebates_accrued -= unclaimable_rebates;
+        market_state.pc_fees_accrued += unclaimable_rebates;
+
         let coin_lot_size = market_state.coin_lot_size;
 
         let RequestProceeds {
-- 
2.43.0


From bcbe43a016bd59f697be7cc3fae9b3aafbca0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:23 +0000
Subject: [PATCH 2/9] fix: refuse to close an open orders account with
 unsettled rebates

An account whose fills were cranked after its last settlement holds no tokens
but still carries the referrer rebate of those fills. Closing it stranded the
rebate in the market's quote vault.
---
 dex/src/state.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dex/src/state.rs b/dex/src/state.rs
index 491e09c..06960ec 100644
--- a/dex/src/state.rs
+++ b/dex/src/state.rs
@@ -2413,6 +2413,12 @@ pub(crate) mod account_parser {
                 );
                 return Err(DexErrorCode::TooManyOpenOrders.into());
             }
+            if open_orders.referrer_rebates_accrued != 0 {
+                solana_program::msg!(
+                    "Referrer rebates must be settled to close the open orders account"
+                );
+                return Err(DexErrorCode::TooManyOpenOrders.into());
+            }
 
             // Invoke processor.
             f(CloseOpenOrdersArgs {
-- 
2.43.0


From 8f9b5d50c6a40c623b735ee1ce3ba23b99b4c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:00 +0000
Subject: [PATCH 3/9] fix: require the market account itself to be rent exempt
 at initialisation

---
 dex/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/src/state.rs b/dex/src/state.rs
index 06960ec..f9b1b9e 100644
--- a/dex/src/state.rs
+++ b/dex/src/state.rs
@@ -1636,7 +1636,7 @@ pub(crate) mod account_parser {
                 let rent = Rent::get()?;
 
                 let end_idx = accounts.len() - remaining_accounts.len() - 1;
-                for account in &accounts[1..end_idx] {
+                for account in &accounts[..end_idx] {
                     let data_len = account.data_len();
                     let lamports = account.lamports();
                     check_assert!(rent.is_exempt(lamports, data_len))?;
-- 
2.43.0


From 199e326c7857682b69da58f862aeca0c08d50d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:00 +0000
Subject: [PATCH 4/9] fix: refuse to initialise a market whose bids and asks
 share an account

---
 dex/src/state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dex/src/state.rs b/dex/src/state.rs
index f9b1b9e..5235ad3 100644
--- a/dex/src/state.rs
+++ b/dex/src/state.rs
@@ -1655,6 +1655,8 @@ pub(crate) mod account_parser {
                 check_assert_eq!(*padding7, [0u8; 7])?;
             }
             let serum_dex_accounts = unchecked_serum_dex_accounts;
+            // both sides of the book would overwrite each other in a shared account
+            check_assert!(serum_dex_accounts[3].key != serum_dex_accounts[4].key)?;
             let vault_owner_key_bytes = gen_vault_signer_key(
                 instruction.vault_signer_nonce,
                 serum_dex_accounts[0].key,
-- 
2.43.0


From e950580bd5ab32395a1fd6711e8c4c437bdbb2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:00 +0000
Subject: [PATCH 5/9] fix: refuse to initialise a pool that lists a vault twice

---
 pool/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pool/src/lib.rs b/pool/src/lib.rs
index 04e041d..fbd2aa0 100644
--- a/pool/src/lib.rs
+++ b/pool/src/lib.rs
@@ -172,6 +172,14 @@ impl<'a, 'b, P: Pool> PoolProcessor<'a, 'b, P> {
         let lqd_fee_vault = next_account_info(accounts_iter)?;
         let initializer_fee_vault = next_account_info(accounts_iter)?;
 
+        for (i, vault) in pool_vaults.iter().enumerate() {
+            // a vault listed twice would be paid out twice on redemption
+            if pool_vaults[..i].iter().any(|other| other.key == vault.key) {
+                msg!("Duplicate pool vault");
+                return Err(ProgramError::InvalidArgument);
+            }
+        }
+
         let mut state = PoolState {
             tag: Default::default(),
             pool_token_mint: pool_token_mint.key.into(),
-- 
2.43.0


From cf32d947f90e70f72604f6567305e06a5be8af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:05 +0000
Subject: [PATCH 6/9] fix: crank: name the owners of the oldest events

consume_events_instruction sorted the owners of all queued events and kept
the 32 lowest. With more owners than that the owner of the oldest event could
be dropped, and the instruction then consumed nothing, however often it was
sent.
---
 dex/crank/src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index d33315f..374d359 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -793,12 +793,15 @@ pub fn consume_events_instruction(
     } else {
         info!("Total event queue length: {}", seg0.len() + seg1.len());
     }
-    let accounts = seg0.iter().chain(seg1.iter()).map(|event| event.owner);
-    let mut orders_accounts: Vec<_> = accounts.collect();
-    orders_accounts.sort_unstable();
-    orders_accounts.dedup();
-    // todo: Shuffle the accounts before truncating, to avoid favoring low sort order accounts
-    orders_accounts.truncate(32);
+    // Take the owners in queue order: events are consumed from the front of the queue, and stop
+    // at the first one whose owner is missing.
+    let mut orders_accounts = BTreeSet::new();
+    for event in seg0.iter().chain(seg1.iter()) {
+        orders_accounts.insert(event.owner);
+        if orders_accounts.len() >= 32 {
+            break;
+        }
+    }
     info!("Number of unique order accounts: {}", orders_accounts.len());
 
     let mut account_metas = Vec::with_capacity(orders_accounts.len() + 4);
-- 
2.43.0


From 4b210739a68be828d994fdded4831e622deaf190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:05 +0000
Subject: [PATCH 7/9] fix: crank: keep consume events transactions within the
 packet size

With 32 open orders accounts the transaction is larger than a packet and no
node accepts it, so a queue with events of that many owners could not be
cranked with the default settings.
---
 dex/crank/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 374d359..29f7ac9 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -56,6 +56,10 @@ use serum_dex::state::Request;
 use serum_dex::state::RequestQueueHeader;
 use serum_dex::state::{AccountFlag, Market, MarketState, MarketStateV2};
 
+/// The most open orders accounts a consume events transaction can name without exceeding the
+/// packet size limit.
+const MAX_ORDERS_ACCOUNTS: usize = 26;
+
 pub fn with_logging<F: FnOnce()>(_to: &str, fnc: F) {
     fnc();
 }
@@ -285,7 +289,7 @@ pub fn start(opts: Opts) -> Result<()> {
                 &pc_wallet,
                 num_workers,
                 events_per_worker,
-                num_accounts.unwrap_or(32),
+                num_accounts.unwrap_or(MAX_ORDERS_ACCOUNTS),
                 max_q_length.unwrap_or(1),
                 max_wait_for_events_delay.unwrap_or(60),
             )?;
@@ -798,7 +802,7 @@ pub fn consume_events_instruction(
     let mut orders_accounts = BTreeSet::new();
     for event in seg0.iter().chain(seg1.iter()) {
         orders_accounts.insert(event.owner);
-        if orders_accounts.len() >= 32 {
+        if orders_accounts.len() >= MAX_ORDERS_ACCOUNTS {
             break;
         }
     }
-- 
2.43.0


From 7410fabaf4b12625a0e9aab97096dc17ecdd9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:05 +0000
Subject: [PATCH 8/9] fix: crank: read the request queue as requests

consume_events_loop parsed the request queue as an event queue and ended with
an error on markets whose request queue is smaller than one event.
---
 dex/crank/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 29f7ac9..a0d4dc7 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -568,7 +568,7 @@ fn consume_events_loop(
         let inner: Cow<[u64]> = remove_dex_account_padding(&event_q_data)?;
         let (_header, seg0, seg1) = parse_event_queue(&inner)?;
         let req_inner: Cow<[u64]> = remove_dex_account_padding(&req_q_data)?;
-        let (_req_header, req_seg0, req_seg1) = parse_event_queue(&req_inner)?;
+        let (_req_header, req_seg0, req_seg1) = parse_req_queue(&req_inner)?;
         let event_q_len = seg0.len() + seg1.len();
         let req_q_len = req_seg0.len() + req_seg1.len();
         info!(
-- 
2.43.0


From 8da8d70604e55dd7947b42b862312ce41d3d333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:05 +0000
Subject: [PATCH 9/9] fix: crank: enable IO in the queue monitor runtime

MonitorQueue panicked on start: "there is no reactor running".
---
 dex/crank/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index a0d4dc7..9a72735 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -302,6 +302,7 @@ pub fn start(opts: Opts) -> Result<()> {
             let client = opts.client();
             let mut runtime = tokio::runtime::Builder::new()
                 .basic_scheduler()
+                .enable_all()
                 .build()
                 .unwrap();
             runtime
-- 
2.43.0

