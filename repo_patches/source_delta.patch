From f63ac3eec2fed993a2632178cc6fe4f50f60c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 01/21] fix: unfreezing a chain emits chain_unfrozen, not
 chain_frozen

---
 contracts/connection-router/src/contract/execute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/connection-router/src/contract/execute.rs b/contracts/connection-router/src/contract/execute.rs
index 25745f5..812b31b 100644
--- a/contracts/connection-router/src/contract/execute.rs
+++ b/contracts/connection-router/src/contract/execute.rs
@@ -6,7 +6,9 @@ use itertools::Itertools;
 
 use axelar_wasm_std::flagset::FlagSet;
 
-use crate::events::{ChainFrozen, ChainRegistered, GatewayInfo, GatewayUpgraded, MessageRouted};
+use crate::events::{
+    ChainFrozen, ChainRegistered, ChainUnfrozen, GatewayInfo, GatewayUpgraded, MessageRouted,
+};
 use crate::msg::ExecuteMsg;
 use crate::state::{
     chain_endpoints, ChainEndpoint, ChainName, Gateway, GatewayDirection, Message, Store, CONFIG,
@@ -100,7 +102,7 @@ pub fn unfreeze_chain(
             Ok(chain)
         }
     })?;
-    Ok(Response::new().add_event(ChainFrozen { name: chain }.into()))
+    Ok(Response::new().add_event(ChainUnfrozen { name: chain }.into()))
 }
 
 pub fn require_admin(deps: &DepsMut, info: MessageInfo) -> Result<(), ContractError> {
-- 
2.43.0


From 833d4ce7fcc3546de9609890de1dcff93a381f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:31 +0000
Subject: [PATCH 02/21] fix: verification status queries through the aggregate
 verifier can be answered

The verifier's answer was decoded as a base64 string, so every query failed.
---
 contracts/aggregate-verifier/src/contract.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index 09b1b0a..fd17639 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -99,10 +99,13 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> StdResult<Binary> {
     match msg {
         QueryMsg::IsVerified { messages } => {
             let verifier = CONFIG.load(deps.storage)?.verifier;
-            deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
-                contract_addr: verifier.to_string(),
-                msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
-            }))
+            let statuses: Vec<(CrossChainId, bool)> =
+                deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
+                    contract_addr: verifier.to_string(),
+                    msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
+                }))?;
+
+            to_binary(&statuses)
         }
     }
 }
-- 
2.43.0


From 84b762b7f33b65771ecb137bcb5c6f374851973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:48 +0000
Subject: [PATCH 03/21] fix: the aggregate verifier accepts the voting
 verifier's reply

It only knew bare status lists, so every verification request through it failed.
---
 contracts/aggregate-verifier/src/contract.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index fd17639..73ada1e 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -77,8 +77,11 @@ pub fn reply(
 ) -> Result<Response, axelar_wasm_std::ContractError> {
     match parse_reply_execute_data(reply) {
         Ok(MsgExecuteContractResponse { data: Some(data) }) => {
-            // check format of data
-            let _: Vec<(CrossChainId, bool)> = from_binary(&data)?;
+            // check format of data: the voting verifier wraps the statuses in a response,
+            // other verifiers may return them bare
+            from_binary::<voting_msg::VerifyMessagesResponse>(&data)
+                .map(|_| ())
+                .or_else(|_| from_binary::<Vec<(CrossChainId, bool)>>(&data).map(|_| ()))?;
 
             // only one verifier, so just return the response as is
             Ok(Response::new().set_data(data))
-- 
2.43.0


From 9696c0b9c0981082f6534e0ec6bc77fee2db0263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:26 +0000
Subject: [PATCH 04/21] fix: a very long multisig grace period no longer
 overflows

With a grace period near u64::MAX the sum of completion height and grace
period overflowed, so that every signature submitted after completion was
refused by a panic instead of being accepted during the grace period.
---
 contracts/multisig/src/signing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/multisig/src/signing.rs b/contracts/multisig/src/signing.rs
index 9ce2b7e..65b3d97 100644
--- a/contracts/multisig/src/signing.rs
+++ b/contracts/multisig/src/signing.rs
@@ -52,7 +52,7 @@ pub fn validate_session_signature(
     grace_period: u64,
     block_height: u64,
 ) -> Result<(), ContractError> {
-    if matches!(session.state, MultisigState::Completed { completed_at } if completed_at + grace_period < block_height)
+    if matches!(session.state, MultisigState::Completed { completed_at } if completed_at.saturating_add(grace_period) < block_height)
     {
         return Err(ContractError::SigningSessionClosed {
             session_id: session.id,
-- 
2.43.0


From 79fb72f9538f6da84c6a805d2769790dc09e92ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 05/21] fix: rewards distribution honours the extremes of the
 epoch limit

A limit of zero epochs still paid out epoch 0 when nothing had been
distributed yet, and a very large limit overflowed once something had.
---
 contracts/rewards/src/contract/execute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/rewards/src/contract/execute.rs b/contracts/rewards/src/contract/execute.rs
index d89d0ed..f130191 100644
--- a/contracts/rewards/src/contract/execute.rs
+++ b/contracts/rewards/src/contract/execute.rs
@@ -130,11 +130,11 @@ where
             .map_or(0, |last_processed| last_processed + 1);
 
         let to = std::cmp::min(
-            (from + epoch_process_limit).saturating_sub(1), // for process limit =1 "from" and "to" must be equal
+            from.saturating_add(epoch_process_limit).saturating_sub(1), // for process limit =1 "from" and "to" must be equal
             cur_epoch.epoch_num.saturating_sub(EPOCH_PAYOUT_DELAY),
         );
 
-        if to < from || cur_epoch.epoch_num < EPOCH_PAYOUT_DELAY {
+        if epoch_process_limit == 0 || to < from || cur_epoch.epoch_num < EPOCH_PAYOUT_DELAY {
             return Err(ContractError::NoRewardsToDistribute.into());
         }
 
-- 
2.43.0


From 65e720ea0303d02a5baeb387e5b2277ae8eb1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 06/21] fix: rewards accept a very long epoch duration

The end of the current epoch overflowed for durations near u64::MAX, so
that such a parameter update was refused by a panic.
---
 contracts/rewards/src/contract/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/rewards/src/contract/execute.rs b/contracts/rewards/src/contract/execute.rs
index f130191..b9cb2db 100644
--- a/contracts/rewards/src/contract/execute.rs
+++ b/contracts/rewards/src/contract/execute.rs
@@ -197,7 +197,7 @@ where
         // are updated to shorten the epoch duration to 100 blocks. We set the epoch number to 1, to prevent skipping
         // epochs 1-4, and so all events prior to the start of epoch 1 have an epoch number of 0)
         let should_end =
-            cur_epoch.block_height_started + u64::from(new_params.epoch_duration) < block_height;
+            block_height - cur_epoch.block_height_started > u64::from(new_params.epoch_duration);
         let cur_epoch = if should_end {
             Epoch {
                 block_height_started: block_height,
-- 
2.43.0


From 57f3339fa6f6d12bcab84f45c6446e717a262b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 07/21] fix: zero is refused when a nonempty::Uint128 or
 Uint256 is deserialized

Only nonempty::Uint64 checked deserialized values, so that messages could
carry zero where a non-zero number is required, such as rewards_per_epoch.
---
 packages/axelar-wasm-std/src/nonempty/uint.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/axelar-wasm-std/src/nonempty/uint.rs b/packages/axelar-wasm-std/src/nonempty/uint.rs
index 862c782..07320e0 100644
--- a/packages/axelar-wasm-std/src/nonempty/uint.rs
+++ b/packages/axelar-wasm-std/src/nonempty/uint.rs
@@ -49,6 +49,8 @@ impl fmt::Display for Uint64 {
 
 // TODO: consider using macro for these types
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint256")]
+#[serde(into = "cosmwasm_std::Uint256")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint256(cosmwasm_std::Uint256);
 
@@ -89,6 +91,8 @@ impl AsRef<cosmwasm_std::Uint256> for Uint256 {
 }
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint128")]
+#[serde(into = "cosmwasm_std::Uint128")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint128(cosmwasm_std::Uint128);
 
-- 
2.43.0


From d86099a5f88327edad85284c08b13628ede07b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 08/21] fix: GetWorker finds the worker

The query passed worker and service name to the lookup in swapped order, so
that no worker was ever found.
---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 9fa129e..07775b4 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -337,7 +337,7 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> Result<Binary, ContractErr
         QueryMsg::GetWorker {
             service_name,
             worker,
-        } => to_binary(&query::get_worker(deps, worker, service_name)?).map_err(|err| err.into()),
+        } => to_binary(&query::get_worker(deps, service_name, worker)?).map_err(|err| err.into()),
         QueryMsg::GetService { service_name } => {
             to_binary(&query::get_service(deps, service_name)?).map_err(|err| err.into())
         }
-- 
2.43.0


From e5ce2bd713542a80192d6a709bbbd0d429e40d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 09/21] fix: BondWorker refuses other coins next to the bond

Coins of any other denomination sent along with the bond were kept by the
contract and could never be claimed back.
---
 contracts/service-registry/src/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 07775b4..92cd140 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -209,6 +209,7 @@ pub mod execute {
             info.funds
                 .iter()
                 .find(|coin| coin.denom == service.bond_denom)
+                .filter(|_| info.funds.len() == 1) // other funds must not be silently swallowed
                 .ok_or(ContractError::WrongDenom)?
                 .amount
         } else {
-- 
2.43.0


From fb2ab35677ee361b26cf2d1823b1b23dca651697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 10/21] fix: an empty first bond is refused like any later one

A worker without a record could bond nothing at all and become bonded with
zero stake, which any other unbonded worker is refused, and which could
never be claimed after unbonding.
---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 92cd140..60f630a 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -227,7 +227,7 @@ pub mod execute {
                     }),
                     None => Ok(Worker {
                         address: info.sender,
-                        bonding_state: BondingState::Bonded { amount: bond },
+                        bonding_state: BondingState::Unbonded.add_bond(bond)?,
                         authorization_state: AuthorizationState::NotAuthorized,
                         service_name,
                     }),
-- 
2.43.0


From c55b769d2ea150c2024e8fd0d9d19f595c1100fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 11/21] fix: nexus gateway forwards a message listed twice in
 one batch only once

---
 contracts/nexus-gateway/src/contract/execute.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/contracts/nexus-gateway/src/contract/execute.rs b/contracts/nexus-gateway/src/contract/execute.rs
index c848d6e..5be7605 100644
--- a/contracts/nexus-gateway/src/contract/execute.rs
+++ b/contracts/nexus-gateway/src/contract/execute.rs
@@ -51,14 +51,12 @@ where
             .into_iter()
             .filter_map(|msg| match self.store.is_message_routed(&msg.cc_id) {
                 Ok(true) => None,
-                Ok(false) => Some(Ok(msg)),
+                // mark right away, so that a message listed twice is forwarded only once
+                Ok(false) => Some(self.store.set_message_routed(&msg.cc_id).map(|_| msg)),
                 Err(err) => Some(Err(err)),
             })
             .collect::<Result<Vec<_>>>()?;
 
-        msgs.iter()
-            .try_for_each(|msg| self.store.set_message_routed(&msg.cc_id))?;
-
         let msgs: Vec<nexus::Message> = msgs.into_iter().map(Into::into).collect();
 
         Ok(Response::new().add_messages(msgs))
-- 
2.43.0


From 545bfcb77a803804290d3d96da310b5e3e8554f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 12/21] fix: a batch does not fail because an optional contract
 call succeeds

---
 contracts/batching/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/batching/src/contract.rs b/contracts/batching/src/contract.rs
index 6db8923..0d74aa5 100644
--- a/contracts/batching/src/contract.rs
+++ b/contracts/batching/src/contract.rs
@@ -32,7 +32,9 @@ pub fn execute(
 #[cfg_attr(not(feature = "library"), entry_point)]
 pub fn reply(_: DepsMut, _: Env, msg: Reply) -> StdResult<Response> {
     let response = match msg.result {
-        SubMsgResult::Ok(res) => Response::default().add_events(res.events),
+        // the events of a successful message are emitted by the chain; adding them again would fail,
+        // because wasm events carry reserved attributes
+        SubMsgResult::Ok(_) => Response::default(),
         SubMsgResult::Err(err) => Response::default()
             .add_event(Event::new("failed_msg").add_attribute(msg.id.to_string(), err)),
     };
-- 
2.43.0


From 9d61af856d175b4660bcdb48e51fe13b11c5766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 13/21] fix: signatures in a proof are in the low-s form that
 destination gateways accept

---
 contracts/multisig/src/key.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/multisig/src/key.rs b/contracts/multisig/src/key.rs
index ab3b145..1206865 100644
--- a/contracts/multisig/src/key.rs
+++ b/contracts/multisig/src/key.rs
@@ -39,6 +39,8 @@ impl NonRecoverable {
                 reason: err.to_string(),
             }
         })?;
+        // signatures with a high s verify as well, but destination chains only take the low one
+        let sig = sig.normalize_s().unwrap_or(sig);
 
         let recovery_byte = k256::ecdsa::VerifyingKey::from_sec1_bytes(pub_key.as_ref())
             .and_then(|k| k256::ecdsa::RecoveryId::trial_recovery_from_prehash(&k, msg, &sig))
-- 
2.43.0


From 20ce880217ad8b8b60d66a64d131e3396f4edcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 14/21] fix: a batch that is being signed is never replaced by
 another one with the same id

---
 contracts/multisig-prover/src/execute.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/contracts/multisig-prover/src/execute.rs b/contracts/multisig-prover/src/execute.rs
index 3fe06fe..b0c9b5b 100644
--- a/contracts/multisig-prover/src/execute.rs
+++ b/contracts/multisig-prover/src/execute.rs
@@ -48,9 +48,15 @@ pub fn construct_proof(
             }
             let batch = builder.build()?;
 
-            COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
-
-            batch
+            // the same messages may be part of a session with the same worker set already, in another order:
+            // what that session signs must not change
+            match COMMANDS_BATCH.may_load(deps.storage, &batch.id)? {
+                Some(batch) => batch,
+                None => {
+                    COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
+                    batch
+                }
+            }
         }
     };
 
-- 
2.43.0


From 81a8bca157234826dc7659036c428eedffc5dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 15/21] fix: message ids containing a comma cannot make two
 different batches share an id

---
 contracts/multisig-prover/src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/multisig-prover/src/types.rs b/contracts/multisig-prover/src/types.rs
index 390ec18..fe85f19 100644
--- a/contracts/multisig-prover/src/types.rs
+++ b/contracts/multisig-prover/src/types.rs
@@ -71,9 +71,10 @@ impl KeyDeserialize for BatchId {
 
 impl BatchId {
     pub fn new(message_ids: &[CrossChainId], new_worker_set: Option<WorkerSet>) -> BatchId {
+        // ids may contain any character, so hash each one to keep the list unambiguous
         let mut message_ids = message_ids
             .iter()
-            .map(|id| id.to_string())
+            .map(|id| HexBinary::from(Keccak256::digest(id.to_string()).as_slice()).to_string())
             .collect::<Vec<_>>();
         message_ids.sort();
 
-- 
2.43.0


From 8be26d03b6c67e3852d569723f2e2eae2736a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 16/21] fix: a confirmation height beyond the chain's latest
 block finalizes no block instead of panicking

---
 ampd/src/evm/finalizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ampd/src/evm/finalizer.rs b/ampd/src/evm/finalizer.rs
index d10881b..d3fa7ca 100644
--- a/ampd/src/evm/finalizer.rs
+++ b/ampd/src/evm/finalizer.rs
@@ -80,7 +80,7 @@ where
             .await
             .change_context(Error::JsonRPC)?;
 
-        Ok(block_number - self.confirmation_height + 1)
+        Ok((block_number + 1).saturating_sub(self.confirmation_height))
     }
 }
 
-- 
2.43.0


From 6b45d19d1de272670f21c21af16375c49d524d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 17/21] fix: ampd does not publish blocks again after the node
 reported an older block as its latest

---
 ampd/src/event_sub.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ampd/src/event_sub.rs b/ampd/src/event_sub.rs
index 6305391..b410f3a 100644
--- a/ampd/src/event_sub.rs
+++ b/ampd/src/event_sub.rs
@@ -67,7 +67,7 @@ impl<T: TmClient + Sync> EventSub<T> {
         loop {
             select! {
                 _ = interval.tick() => {
-                    curr_block_height = self.process_blocks_from(curr_block_height).await?.increment();
+                    curr_block_height = self.process_blocks_from(curr_block_height).await?;
                 },
                 _ = self.token.cancelled() => {
                     info!("event sub exiting");
@@ -88,7 +88,8 @@ impl<T: TmClient + Sync> EventSub<T> {
         Ok(res.block.header().height)
     }
 
-    // this is extracted into a function so the block height attachment can be added no matter which call fails
+    // this is extracted into a function so the block height attachment can be added no matter which call fails.
+    // Returns the next height to process, which never goes back, even when the node reports an older block as its latest
     async fn process_blocks_from(
         &mut self,
         from: block::Height,
@@ -102,13 +103,13 @@ impl<T: TmClient + Sync> EventSub<T> {
                 .await?;
 
             if self.token.is_cancelled() {
-                return Ok(height);
+                return Ok(height.increment());
             }
 
             height = height.increment();
         }
 
-        Ok(to)
+        Ok(height)
     }
 
     async fn process_block(&self, height: block::Height) -> Result<(), EventSubError> {
-- 
2.43.0


From b7e07dbe5eaab379e2dd583ef908ad42b15f393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:09 +0000
Subject: [PATCH 18/21] fix: events of other contracts that ampd cannot parse
 do not stop its handlers

---
 ampd/src/handlers/evm_verify_msg.rs        | 2 ++
 ampd/src/handlers/evm_verify_worker_set.rs | 2 ++
 ampd/src/handlers/multisig.rs              | 2 ++
 ampd/src/handlers/sui_verify_msg.rs        | 2 ++
 ampd/src/handlers/sui_verify_worker_set.rs | 2 ++
 packages/events/src/event.rs               | 9 +++++++++
 6 files changed, 19 insertions(+)

diff --git a/ampd/src/handlers/evm_verify_msg.rs b/ampd/src/handlers/evm_verify_msg.rs
index e0d6643..65e1b95 100644
--- a/ampd/src/handlers/evm_verify_msg.rs
+++ b/ampd/src/handlers/evm_verify_msg.rs
@@ -164,6 +164,8 @@ where
             Err(report) if matches!(report.current_context(), EventTypeMismatch(_)) => {
                 return Ok(())
             }
+            // other contracts may emit events of the same type with arbitrary content
+            Err(_) if !event.is_from_contract(&self.voting_verifier) => return Ok(()),
             event => event.change_context(DeserializeEvent)?,
         };
 
diff --git a/ampd/src/handlers/evm_verify_worker_set.rs b/ampd/src/handlers/evm_verify_worker_set.rs
index 318829f..cda920a 100644
--- a/ampd/src/handlers/evm_verify_worker_set.rs
+++ b/ampd/src/handlers/evm_verify_worker_set.rs
@@ -160,6 +160,8 @@ where
             Err(report) if matches!(report.current_context(), EventTypeMismatch(_)) => {
                 return Ok(())
             }
+            // other contracts may emit events of the same type with arbitrary content
+            Err(_) if !event.is_from_contract(&self.voting_verifier) => return Ok(()),
             event => event.change_context(Error::DeserializeEvent)?,
         };
 
diff --git a/ampd/src/handlers/multisig.rs b/ampd/src/handlers/multisig.rs
index 8c1d469..7208530 100644
--- a/ampd/src/handlers/multisig.rs
+++ b/ampd/src/handlers/multisig.rs
@@ -136,6 +136,8 @@ where
             Err(report) if matches!(report.current_context(), EventTypeMismatch(_)) => {
                 return Ok(());
             }
+            // other contracts may emit events of the same type with arbitrary content
+            Err(_) if !event.is_from_contract(&self.multisig) => return Ok(()),
             result => result.change_context(DeserializeEvent)?,
         };
 
diff --git a/ampd/src/handlers/sui_verify_msg.rs b/ampd/src/handlers/sui_verify_msg.rs
index 34ab996..15304bb 100644
--- a/ampd/src/handlers/sui_verify_msg.rs
+++ b/ampd/src/handlers/sui_verify_msg.rs
@@ -114,6 +114,8 @@ where
             Err(report) if matches!(report.current_context(), EventTypeMismatch(_)) => {
                 return Ok(());
             }
+            // other contracts may emit events of the same type with arbitrary content
+            Err(_) if !event.is_from_contract(&self.voting_verifier) => return Ok(()),
             event => event.change_context(Error::DeserializeEvent)?,
         };
 
diff --git a/ampd/src/handlers/sui_verify_worker_set.rs b/ampd/src/handlers/sui_verify_worker_set.rs
index 9adeed3..8116772 100644
--- a/ampd/src/handlers/sui_verify_worker_set.rs
+++ b/ampd/src/handlers/sui_verify_worker_set.rs
@@ -122,6 +122,8 @@ where
             Err(report) if matches!(report.current_context(), EventTypeMismatch(_)) => {
                 return Ok(());
             }
+            // other contracts may emit events of the same type with arbitrary content
+            Err(_) if !event.is_from_contract(&self.voting_verifier) => return Ok(()),
             event => event.change_context(Error::DeserializeEvent)?,
         };
 
diff --git a/packages/events/src/event.rs b/packages/events/src/event.rs
index 4e8f94d..6298fea 100644
--- a/packages/events/src/event.rs
+++ b/packages/events/src/event.rs
@@ -27,6 +27,15 @@ impl Event {
     pub fn block_end(height: impl Into<block::Height>) -> Self {
         Event::BlockEnd(height.into())
     }
+
+    pub fn is_from_contract(&self, contract_address: &impl ToString) -> bool {
+        match self {
+            Event::Abci { attributes, .. } => {
+                attributes.get("_contract_address") == Some(&contract_address.to_string().into())
+            }
+            Event::BlockBegin(_) | Event::BlockEnd(_) => false,
+        }
+    }
 }
 
 impl TryFrom<abci::Event> for Event {
-- 
2.43.0


From bf103f6bf80905eefffebc9112554421db5cc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 19/21] fix: malformed messages and worker sets in a poll do
 not stop ampd's handlers

---
 ampd/src/handlers/evm_verify_msg.rs        | 24 ++++++++++++++--------
 ampd/src/handlers/evm_verify_worker_set.rs | 14 ++++++++++---
 ampd/src/types.rs                          | 18 ++++++++++++++++
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/ampd/src/handlers/evm_verify_msg.rs b/ampd/src/handlers/evm_verify_msg.rs
index 65e1b95..455e1ba 100644
--- a/ampd/src/handlers/evm_verify_msg.rs
+++ b/ampd/src/handlers/evm_verify_msg.rs
@@ -24,7 +24,7 @@ use crate::evm::ChainName;
 use crate::handlers::errors::Error;
 use crate::handlers::errors::Error::DeserializeEvent;
 use crate::queue::queued_broadcaster::BroadcasterClient;
-use crate::types::{EVMAddress, Hash, TMAddress};
+use crate::types::{EVMAddress, Hash, TMAddress, UserProvided};
 
 type Result<T> = error_stack::Result<T, Error>;
 
@@ -48,7 +48,7 @@ struct PollStartedEvent {
     source_gateway_address: EVMAddress,
     confirmation_height: u64,
     expires_at: u64,
-    messages: Vec<Message>,
+    messages: Vec<UserProvided<Message>>,
     participants: Vec<TMAddress>,
 }
 
@@ -187,7 +187,11 @@ where
             return Ok(());
         }
 
-        let tx_hashes: HashSet<_> = messages.iter().map(|message| message.tx_id).collect();
+        let tx_hashes: HashSet<_> = messages
+            .iter()
+            .filter_map(UserProvided::valid)
+            .map(|message| message.tx_id)
+            .collect();
         let finalized_tx_receipts = self
             .finalized_tx_receipts(tx_hashes, confirmation_height)
             .await?;
@@ -196,6 +200,7 @@ where
         let source_chain_str: String = source_chain.into();
         let message_ids = messages
             .iter()
+            .filter_map(UserProvided::valid)
             .map(|message| {
                 format!(
                     "0x{:x}{}{}",
@@ -215,11 +220,14 @@ where
             let votes: Vec<_> = messages
                 .iter()
                 .map(|msg| {
-                    finalized_tx_receipts
-                        .get(&msg.tx_id)
-                        .map_or(Vote::NotFound, |tx_receipt| {
-                            verify_message(&source_gateway_address, tx_receipt, msg)
-                        })
+                    // a malformed message can't be found on the chain
+                    msg.valid().map_or(Vote::NotFound, |msg| {
+                        finalized_tx_receipts
+                            .get(&msg.tx_id)
+                            .map_or(Vote::NotFound, |tx_receipt| {
+                                verify_message(&source_gateway_address, tx_receipt, msg)
+                            })
+                    })
                 })
                 .collect();
             info!(
diff --git a/ampd/src/handlers/evm_verify_worker_set.rs b/ampd/src/handlers/evm_verify_worker_set.rs
index cda920a..1d76d71 100644
--- a/ampd/src/handlers/evm_verify_worker_set.rs
+++ b/ampd/src/handlers/evm_verify_worker_set.rs
@@ -21,7 +21,7 @@ use crate::evm::verifier::verify_worker_set;
 use crate::evm::{json_rpc::EthereumClient, ChainName};
 use crate::handlers::errors::Error;
 use crate::queue::queued_broadcaster::BroadcasterClient;
-use crate::types::{EVMAddress, Hash, TMAddress, U256};
+use crate::types::{EVMAddress, Hash, TMAddress, UserProvided, U256};
 
 type Result<T> = error_stack::Result<T, Error>;
 
@@ -43,7 +43,7 @@ pub struct WorkerSetConfirmation {
 struct PollStartedEvent {
     #[serde(rename = "_contract_address")]
     contract_address: TMAddress,
-    worker_set: WorkerSetConfirmation,
+    worker_set: UserProvided<WorkerSetConfirmation>,
     poll_id: PollId,
     source_chain: connection_router::state::ChainName,
     source_gateway_address: EVMAddress,
@@ -183,6 +183,14 @@ where
             return Ok(());
         }
 
+        let Some(worker_set) = worker_set.valid() else {
+            info!(
+                poll_id = poll_id.to_string(),
+                "a malformed worker set can't be found on the chain"
+            );
+            return self.broadcast_vote(poll_id, Vote::NotFound).await;
+        };
+
         let tx_receipt = self
             .finalized_tx_receipt(worker_set.tx_id, confirmation_height)
             .await?;
@@ -199,7 +207,7 @@ where
             info!("ready to verify a new worker set in poll");
 
             let vote = tx_receipt.map_or(Vote::NotFound, |tx_receipt| {
-                verify_worker_set(&source_gateway_address, &tx_receipt, &worker_set)
+                verify_worker_set(&source_gateway_address, &tx_receipt, worker_set)
             });
             info!(
                 vote = vote.as_value(),
diff --git a/ampd/src/types.rs b/ampd/src/types.rs
index b6cab29..5851b9d 100644
--- a/ampd/src/types.rs
+++ b/ampd/src/types.rs
@@ -5,6 +5,7 @@ use cosmrs::crypto;
 use cosmrs::AccountId;
 use cosmwasm_std::Uint256;
 use ethers::types::{Address, H256};
+use serde::de::IgnoredAny;
 use serde::{Deserialize, Serialize};
 
 mod tests;
@@ -31,6 +32,23 @@ impl AsRef<ethers::types::U256> for U256 {
     }
 }
 
+/// Part of an event that a contract filled in with what its users passed to it
+#[derive(Deserialize, Debug)]
+#[serde(untagged)]
+pub enum UserProvided<T> {
+    Valid(T),
+    Malformed(IgnoredAny),
+}
+
+impl<T> UserProvided<T> {
+    pub fn valid(&self) -> Option<&T> {
+        match self {
+            UserProvided::Valid(value) => Some(value),
+            UserProvided::Malformed(_) => None,
+        }
+    }
+}
+
 #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
 pub struct TMAddress(AccountId);
 
-- 
2.43.0


From 82d7cf47f2af5a26f9a6fd848e6a8cb7a3cf1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 20/21] fix: ampd stops when one of its handlers fails instead
 of going on without it

---
 ampd/src/event_processor.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ampd/src/event_processor.rs b/ampd/src/event_processor.rs
index da51e8d..0be1021 100644
--- a/ampd/src/event_processor.rs
+++ b/ampd/src/event_processor.rs
@@ -89,14 +89,17 @@ impl EventProcessor {
     }
 
     pub async fn run(self) -> Result<(), EventProcessorError> {
-        let handles = self.tasks.into_iter().map(tokio::spawn);
-
-        try_join_all(handles)
-            .await
-            .change_context(EventProcessorError::EventHandlerError)?
-            .into_iter()
-            .find(Result::is_err)
-            .unwrap_or(Ok(()))
+        // returns as soon as any handler fails, the others finish the block that they are at
+        let handles = self.tasks.into_iter().map(|task| {
+            let handle = tokio::spawn(task);
+            async move {
+                handle
+                    .await
+                    .change_context(EventProcessorError::EventHandlerError)?
+            }
+        });
+
+        try_join_all(handles).await.map(|_| ())
     }
 }
 
-- 
2.43.0


From a0fef2c3a06fad4449f5539e07d19d6ac2f95693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:32 +0000
Subject: [PATCH 21/21] fix: malformed messages and worker sets in a poll do
 not stop ampd's Sui handlers

---
 ampd/src/handlers/sui_verify_msg.rs        | 23 ++++++++++++++--------
 ampd/src/handlers/sui_verify_worker_set.rs | 14 ++++++++++---
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/ampd/src/handlers/sui_verify_msg.rs b/ampd/src/handlers/sui_verify_msg.rs
index 15304bb..fc0930e 100644
--- a/ampd/src/handlers/sui_verify_msg.rs
+++ b/ampd/src/handlers/sui_verify_msg.rs
@@ -18,7 +18,7 @@ use crate::event_processor::EventHandler;
 use crate::handlers::errors::Error;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::sui::{json_rpc::SuiClient, verifier::verify_message};
-use crate::types::{Hash, TMAddress};
+use crate::types::{Hash, TMAddress, UserProvided};
 
 type Result<T> = error_stack::Result<T, Error>;
 
@@ -39,7 +39,7 @@ struct PollStartedEvent {
     contract_address: TMAddress,
     poll_id: PollId,
     source_gateway_address: SuiAddress,
-    messages: Vec<Message>,
+    messages: Vec<UserProvided<Message>>,
     participants: Vec<TMAddress>,
     expires_at: u64,
 }
@@ -135,7 +135,11 @@ where
 
         // Does not assume voting verifier emits unique tx ids.
         // RPC will throw an error if the input contains any duplicate, deduplicate tx ids to avoid unnecessary failures.
-        let deduplicated_tx_ids: HashSet<_> = messages.iter().map(|msg| msg.tx_id).collect();
+        let deduplicated_tx_ids: HashSet<_> = messages
+            .iter()
+            .filter_map(UserProvided::valid)
+            .map(|msg| msg.tx_id)
+            .collect();
         let transaction_blocks = self
             .rpc_client
             .finalized_transaction_blocks(deduplicated_tx_ids)
@@ -145,11 +149,14 @@ where
         let votes = messages
             .iter()
             .map(|msg| {
-                transaction_blocks
-                    .get(&msg.tx_id)
-                    .map_or(Vote::NotFound, |tx_block| {
-                        verify_message(&source_gateway_address, tx_block, msg)
-                    })
+                // a malformed message can't be found on the chain
+                msg.valid().map_or(Vote::NotFound, |msg| {
+                    transaction_blocks
+                        .get(&msg.tx_id)
+                        .map_or(Vote::NotFound, |tx_block| {
+                            verify_message(&source_gateway_address, tx_block, msg)
+                        })
+                })
             })
             .collect();
 
diff --git a/ampd/src/handlers/sui_verify_worker_set.rs b/ampd/src/handlers/sui_verify_worker_set.rs
index 8116772..f4680e0 100644
--- a/ampd/src/handlers/sui_verify_worker_set.rs
+++ b/ampd/src/handlers/sui_verify_worker_set.rs
@@ -22,7 +22,7 @@ use crate::handlers::errors::Error;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::sui::json_rpc::SuiClient;
 use crate::sui::verifier::verify_worker_set;
-use crate::types::TMAddress;
+use crate::types::{TMAddress, UserProvided};
 
 #[derive(Deserialize, Debug)]
 pub struct Operators {
@@ -44,7 +44,7 @@ struct PollStartedEvent {
     contract_address: TMAddress,
     poll_id: PollId,
     source_gateway_address: SuiAddress,
-    worker_set: WorkerSetConfirmation,
+    worker_set: UserProvided<WorkerSetConfirmation>,
     participants: Vec<TMAddress>,
     expires_at: u64,
 }
@@ -141,6 +141,14 @@ where
             return Ok(());
         }
 
+        let Some(worker_set) = worker_set.valid() else {
+            info!(
+                poll_id = poll_id.to_string(),
+                "a malformed worker set can't be found on the chain"
+            );
+            return self.broadcast_vote(poll_id, Vote::NotFound).await;
+        };
+
         let transaction_block = self
             .rpc_client
             .finalized_transaction_block(worker_set.tx_id)
@@ -157,7 +165,7 @@ where
         )
         .in_scope(|| {
             let vote = transaction_block.map_or(Vote::NotFound, |tx_receipt| {
-                verify_worker_set(&source_gateway_address, &tx_receipt, &worker_set)
+                verify_worker_set(&source_gateway_address, &tx_receipt, worker_set)
             });
 
             info!(
-- 
2.43.0

