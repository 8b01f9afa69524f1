From 1df2954f5123ee8a4fb1a3293383513e05ecfc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 01/10] fix: request randomness only on an initialized queue of
 this program

---
 program/src/request_randomness.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 616203a..07a962b 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -64,12 +64,13 @@ pub fn process_request_randomness(
     let slot = Clock::get()?.slot;
     let time = Clock::get()?.unix_timestamp;
 
+    oracle_queue_info.has_owner(&ephemeral_vrf_api::ID)?;
+
     {
         // Borrow queue account data and load QueueAccount view
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
-        if data.len() < 8 {
-            return Err(ProgramError::InvalidAccountData);
-        }
+        // Only an initialized queue can hold requests
+        Queue::try_from_bytes(&data)?;
         // Skip 8-byte discriminator
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
-- 
2.43.0


From e778a592fcd1300c9aff55b440bb27ddfa99dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 02/10] fix: purge and close only initialized queues

---
 program/src/close_oracle_queue.rs     | 1 +
 program/src/purge_expired_requests.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/program/src/close_oracle_queue.rs b/program/src/close_oracle_queue.rs
index 05ed0d1..952483d 100644
--- a/program/src/close_oracle_queue.rs
+++ b/program/src/close_oracle_queue.rs
@@ -59,6 +59,7 @@ pub fn process_close_oracle_queue(accounts: &[AccountInfo], data: &[u8]) -> Prog
     {
         // Borrow data and load QueueAccount view to check emptiness
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
+        Queue::try_from_bytes(&data)?;
         let queue_data = &mut data[8..];
         let queue_acc = QueueAccount::load(queue_data)?;
         if !queue_acc.is_empty() {
diff --git a/program/src/purge_expired_requests.rs b/program/src/purge_expired_requests.rs
index f49182e..e249adc 100644
--- a/program/src/purge_expired_requests.rs
+++ b/program/src/purge_expired_requests.rs
@@ -32,6 +32,7 @@ pub fn process_purge_expired_requests(accounts: &[AccountInfo<'_>], data: &[u8])
 
     // Borrow queue data and scan/remove expired items using QueueAccount view
     let mut acc_data = oracle_queue_info.try_borrow_mut_data()?;
+    Queue::try_from_bytes(&acc_data)?;
     let queue_data = &mut acc_data[8..];
     let mut queue_acc = QueueAccount::load(queue_data)?;
 
-- 
2.43.0


From 2a72617899f831649be06ec2b8d5e93f7bda591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 03/10] fix: request ids stay unique after removals and across
 queues

---
 api/src/state/queue.rs            | 12 ++++++++++++
 program/src/request_randomness.rs |  7 +++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/api/src/state/queue.rs b/api/src/state/queue.rs
index e83eb51..a5b0bbb 100644
--- a/api/src/state/queue.rs
+++ b/api/src/state/queue.rs
@@ -225,6 +225,18 @@ impl<'a> QueueAccount<'a> {
         }
     }
 
+    /// Offset at which the next item will be stored.
+    ///
+    /// Items of the current slot cannot leave the queue in that slot, so within a slot
+    /// every new item gets another offset.
+    pub fn next_item_offset(&mut self) -> usize {
+        self.trim_trailing_holes();
+        Self::align_up(
+            self.header.cursor as usize,
+            core::mem::align_of::<QueueItem>(),
+        )
+    }
+
     /// Append a new item to the queue.
     pub fn add_item(
         &mut self,
diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 07a962b..d397e7c 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -26,6 +26,7 @@ use solana_system_interface::instruction as system_instruction;
 ///   - slot hash
 ///   - vrf-macro discriminator
 ///   - vrf-macro program ID
+///   - the queue and the position of the request in it
 ///
 /// 1. Verify the signer
 /// 2. Verify the program identity
@@ -75,8 +76,9 @@ pub fn process_request_randomness(
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
 
-        // Compute a combined hash that includes a logical insertion index hint
-        let idx = queue_acc.len() as u32;
+        // Compute a combined hash that includes the queue and the position in it, so that no
+        // two requests share an id (the number of items shrinks when requests are fulfilled)
+        let idx = queue_acc.next_item_offset() as u32;
         let combined_hash = hashv(&[
             &args.caller_seed,
             &slot.to_le_bytes(),
@@ -85,6 +87,7 @@ pub fn process_request_randomness(
             &args.callback_program_id.to_bytes(),
             &time.to_le_bytes(),
             &idx.to_le_bytes(),
+            oracle_queue_info.key.as_ref(),
         ]);
 
         // Log to simplify gathering all the information needed to recreate the combined_hash.
-- 
2.43.0


From 078788222f59b8329352b09cbd01658614beb81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 04/10] fix: random_u8_with_range accepts the full range

---
 sdk/src/rnd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/src/rnd.rs b/sdk/src/rnd.rs
index c98042c..95533c2 100644
--- a/sdk/src/rnd.rs
+++ b/sdk/src/rnd.rs
@@ -29,17 +29,17 @@ pub fn random_u8(bytes: &[u8; 32]) -> u8 {
 /// a value that falls within an evenly divisible range. If no such value is found,
 /// it falls back to a slightly biased approach using the last byte.
 pub fn random_u8_with_range(bytes: &[u8; 32], min_value: u8, max_value: u8) -> u8 {
-    let range = (max_value - min_value + 1) as u16;
+    let range = (max_value - min_value) as u16 + 1;
     let threshold = (256 / range * range) as u8;
 
     // Try to find a byte that, when mapped, gives an unbiased result
     for &b in bytes.iter().rev() {
         if b < threshold {
-            return min_value + (b % range as u8);
+            return min_value + (b as u16 % range) as u8;
         }
     }
     // Fallback (slight bias, but rare fallback case)
-    min_value + (bytes[31] % range as u8)
+    min_value + (bytes[31] as u16 % range) as u8
 }
 
 /// Generates a random u32 value from a 32-byte random seed
-- 
2.43.0


From 723d7574359b27c08e37baa1bf2304d86f32ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 05/10] fix: derive delegation PDAs of the sdk from the
 delegation program

---
 sdk/src/consts.rs |  3 +++
 sdk/src/pda.rs    | 25 ++++++++++++++-----------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/sdk/src/consts.rs b/sdk/src/consts.rs
index b519d75..3b9b6b4 100644
--- a/sdk/src/consts.rs
+++ b/sdk/src/consts.rs
@@ -3,6 +3,9 @@ use crate::compat::{pubkey, Pubkey};
 /// Verifiable Random Function program id
 pub const VRF_PROGRAM_ID: Pubkey = pubkey!("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz");
 
+/// Delegation program id
+pub const DELEGATION_PROGRAM_ID: Pubkey = pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
+
 /// The default queue for randomness requests
 pub const DEFAULT_QUEUE: Pubkey = pubkey!("Cuj97ggrhhidhbu39TijNVqE74xvKJ69gDervRUXAxGh");
 
diff --git a/sdk/src/pda.rs b/sdk/src/pda.rs
index 800203e..a213ad5 100644
--- a/sdk/src/pda.rs
+++ b/sdk/src/pda.rs
@@ -75,7 +75,7 @@ pub fn delegation_record_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -85,7 +85,7 @@ pub fn delegation_metadata_pda_from_delegated_account(delegated_account: &Pubkey
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_metadata_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -95,7 +95,7 @@ pub fn commit_state_pda_from_delegated_account(delegated_account: &Pubkey) -> Pu
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_state_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -105,7 +105,7 @@ pub fn commit_record_pda_from_delegated_account(delegated_account: &Pubkey) -> P
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -129,23 +129,26 @@ pub fn undelegate_buffer_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         undelegate_buffer_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
 }
 
 pub fn fees_vault_pda() -> Pubkey {
-    crate::compat::latest::Pubkey::find_program_address(fees_vault_seeds!(), &crate::id().modern())
-        .0
-        .compat()
+    crate::compat::latest::Pubkey::find_program_address(
+        fees_vault_seeds!(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
+    )
+    .0
+    .compat()
 }
 
 pub fn validator_fees_vault_pda_from_validator(validator: &Pubkey) -> Pubkey {
     let validator = (*validator).modern();
     crate::compat::latest::Pubkey::find_program_address(
         validator_fees_vault_seeds_from_validator!(validator),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -155,7 +158,7 @@ pub fn program_config_from_program_id(program_id: &Pubkey) -> Pubkey {
     let program_id = (*program_id).modern();
     crate::compat::latest::Pubkey::find_program_address(
         program_config_seeds_from_program_id!(program_id),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -165,7 +168,7 @@ pub fn ephemeral_balance_pda_from_payer(payer: &Pubkey, index: u8) -> Pubkey {
     let payer = (*payer).modern();
     crate::compat::latest::Pubkey::find_program_address(
         ephemeral_balance_seeds_from_payer!(payer, index),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
-- 
2.43.0


From ff6ccb135c9418b6a453d9fa0b719861c2351062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 06/10] fix: accept undelegations only with the undelegate
 buffer of the account

---
 program/src/process_undelegation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/program/src/process_undelegation.rs b/program/src/process_undelegation.rs
index f4d64f2..a595a3c 100644
--- a/program/src/process_undelegation.rs
+++ b/program/src/process_undelegation.rs
@@ -1,4 +1,5 @@
 use ephemeral_rollups_sdk::cpi::undelegate_account;
+use ephemeral_rollups_sdk::pda::undelegate_buffer_pda_from_delegated_account;
 use ephemeral_vrf_api::prelude::*;
 
 /// Process the undelegation of an Oracle queue from the delegation program
@@ -31,6 +32,11 @@ pub fn process_undelegation(accounts: &[AccountInfo<'_>], data: &[u8]) -> Progra
         return Err(ProgramError::NotEnoughAccountKeys);
     };
 
+    // Only the delegation program can sign for the undelegate buffer of this account
+    delegation_buffer.has_address(&undelegate_buffer_pda_from_delegated_account(
+        oracle_queue_info.key,
+    ))?;
+
     // Undelegate
     undelegate_account(
         oracle_queue_info,
-- 
2.43.0


From fd1631453fe776a24d0cc626176fcdd715e29503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:21 +0000
Subject: [PATCH 07/10] fix: oracle service gives up requests whose attempt
 ended while they are pending, and overlapping updates leave attempts
 untracked

---
 vrf-oracle/src/oracle/processor.rs | 57 +++++++++---------------------
 1 file changed, 16 insertions(+), 41 deletions(-)

diff --git a/vrf-oracle/src/oracle/processor.rs b/vrf-oracle/src/oracle/processor.rs
index 92a0ecf..0d78803 100644
--- a/vrf-oracle/src/oracle/processor.rs
+++ b/vrf-oracle/src/oracle/processor.rs
@@ -184,32 +184,29 @@ pub async fn process_oracle_queue(
             let oracle_queue = Arc::clone(&queue_meta);
             let account_bytes_task = Arc::clone(&account_bytes);
             let input_seed = item.id;
-            let queue_key_spawn = queue_key.clone();
             // Separate clones to satisfy borrow checker across awaits
             let oracle_client_for_proc = Arc::clone(&oracle_client);
-            let oracle_client_for_cleanup = Arc::clone(&oracle_client);
-
-            // Only spawn a task if this request is not already in-flight for this queue
-            let should_spawn = {
-                let mut inflight_all = oracle_client.inflight_requests.write().await;
-                let inflight_for_queue = inflight_all.entry(queue_key_spawn.clone()).or_default();
-                if let std::collections::hash_map::Entry::Vacant(e) =
-                    inflight_for_queue.entry(item.id)
-                {
-                    e.insert(item.slot);
-                    true
-                } else {
-                    false
-                }
-            };
 
-            if !should_spawn {
+            // Only spawn a task if none is running for this request. Deciding, spawning and tracking
+            // happen under the same locks (taken in the same order as above), so that overlapping
+            // updates never leave a task untracked or start a second one, and a task that ended
+            // while the request is still pending is replaced by the next update.
+            let mut inflight_all = oracle_client.inflight_requests.write().await;
+            let mut tasks_all = oracle_client.active_tasks.write().await;
+            let tasks_for_queue = tasks_all.entry(queue_key.clone()).or_default();
+            if tasks_for_queue
+                .get(&item.id)
+                .is_some_and(|task| !task.is_finished())
+            {
                 continue;
             }
+            inflight_all
+                .entry(queue_key.clone())
+                .or_default()
+                .insert(item.id, item.slot);
 
             let handle = tokio::spawn(async move {
                 let mut attempts = 0;
-                let mut confirmed_success = false;
 
                 while attempts < 100 {
                     match ProcessableItem(item)
@@ -252,7 +249,6 @@ pub async fn process_oracle_queue(
                                             signature,
                                             Pubkey::new_from_array(item.id)
                                         );
-                                        confirmed_success = true;
                                         break;
                                     } else {
                                         attempts += 1;
@@ -281,30 +277,9 @@ pub async fn process_oracle_queue(
                         }
                     }
                 }
-
-                // Task finished. Remove from active_tasks. If not confirmed, also clear inflight to allow retry.
-                {
-                    let mut tasks_all = oracle_client_for_cleanup.active_tasks.write().await;
-                    if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {
-                        tasks_for_queue.remove(&item.id);
-                    }
-                }
-
-                if !confirmed_success {
-                    let mut inflight_all =
-                        oracle_client_for_cleanup.inflight_requests.write().await;
-                    if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
-                        inflight_for_queue.remove(&item.id);
-                    }
-                }
             });
 
-            // Track the task handle for potential cancellation if the item disappears from the queue
-            {
-                let mut tasks_all = oracle_client.active_tasks.write().await;
-                let tasks_for_queue = tasks_all.entry(queue_key.clone()).or_default();
-                tasks_for_queue.insert(item.id, handle);
-            }
+            tasks_for_queue.insert(item.id, handle);
         }
     }
 }
-- 
2.43.0


From a2156cc33ddfd89def4183be63a32792c6188600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 08/10] fix: keep trying to fetch the first blockhash

BlockhashCache::new unwrapped the first fetch: with the RPC node unreachable
at start the service panicked and exited, although every other failure of the
node is retried.
---
 vrf-oracle/src/blockhash_cache.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vrf-oracle/src/blockhash_cache.rs b/vrf-oracle/src/blockhash_cache.rs
index 2d405cf..cf2bc81 100644
--- a/vrf-oracle/src/blockhash_cache.rs
+++ b/vrf-oracle/src/blockhash_cache.rs
@@ -1,3 +1,4 @@
+use log::warn;
 use serde_json::json;
 use solana_client::nonblocking;
 use solana_client::rpc_request::RpcRequest;
@@ -22,7 +23,16 @@ struct CacheData {
 
 impl BlockhashCache {
     pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> Self {
-        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await.unwrap();
+        // The node may be unreachable when the service starts: keep trying
+        let (blockhash, slot) = loop {
+            match Self::fetch_blockhash_and_slot(&client).await {
+                Ok(fetched) => break fetched,
+                Err(err) => {
+                    warn!("Failed to fetch the blockhash: {err}. Retrying in 1 second...");
+                    tokio::time::sleep(Duration::from_secs(1)).await;
+                }
+            }
+        };
         let inner = Arc::new(RwLock::new(CacheData {
             blockhash,
             slot,
-- 
2.43.0


From fd34741d45ed1d8af186791abdb01785f68588ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 09/10] fix: list-queue shows the queues of every index

Queue indices are u8, but only indices below 20 were looked at, and a failing
query counted as a queue that does not exist.
---
 vrf-cli/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index 1d3f67e..24bfd84 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -198,11 +198,14 @@ async fn main() -> Result<()> {
             exit(0)
         }
         Commands::ListQueue {} => {
-            for i in 0..20 {
-                let queue = oracle_queue_pda(&signer.pubkey(), i).0;
-                let acc = rpc_client.get_account(&queue);
-                if acc.is_ok() {
-                    let account = acc?;
+            let queues: Vec<Pubkey> = (0..=u8::MAX)
+                .map(|i| oracle_queue_pda(&signer.pubkey(), i).0)
+                .collect();
+            // At most 100 accounts per request
+            for chunk in queues.chunks(100) {
+                let accounts = rpc_client.get_multiple_accounts(chunk)?;
+                for (queue, account) in chunk.iter().zip(accounts) {
+                    let Some(account) = account else { continue };
                     let queue_struct = match Queue::try_from_bytes(account.data.as_slice()) {
                         Ok(q) => q,
                         Err(_) => {
-- 
2.43.0


From 7a91058fa359ef54a6515837424e49fec27f29d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 10/10] fix: close-oracle-queue closes the named queue or none

Given the queue of another oracle, it closed the signer's own queue of the
same index.
---
 vrf-cli/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index 24bfd84..1ed72d4 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -1,4 +1,4 @@
-use anyhow::Result;
+use anyhow::{bail, Result};
 use clap::{Parser, Subcommand};
 use ephemeral_vrf::vrf::generate_vrf_keypair;
 use ephemeral_vrf_api::prelude::*;
@@ -189,6 +189,10 @@ async fn main() -> Result<()> {
                 "Closing oracle queue: {} with index: {}",
                 queue, queue_struct.index
             );
+            // The instruction derives the queue from the signer and the index
+            if oracle_queue_pda(&signer.pubkey(), queue_struct.index).0 != queue {
+                bail!("Queue {queue} is not a queue of {}", signer.pubkey());
+            }
             vec![close_oracle_queue(signer.pubkey(), queue_struct.index)]
         }
         Commands::DerivePubkey {} => {
-- 
2.43.0

