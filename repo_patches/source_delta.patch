From d6c70983fe0eaeb167628b5baa189913c6ad7b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 01/30] fix: slot stream yields each slot once even if a slot
 boundary passes between clock readings

---
 ethereum-consensus/src/clock.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ethereum-consensus/src/clock.rs b/ethereum-consensus/src/clock.rs
index 0f0ebb7..8e201fd 100644
--- a/ethereum-consensus/src/clock.rs
+++ b/ethereum-consensus/src/clock.rs
@@ -240,8 +240,11 @@ pub struct SlotStream<T: TimeProvider + Send + Sync> {
 #[cfg(feature = "async")]
 impl<T: TimeProvider + Send + Sync> Clock<T> {
     pub fn into_stream(self) -> SlotStream<T> {
-        let delay = Box::pin(sleep(self.duration_until_next_slot()));
+        // NOTE: derive the delay from the slot just read, so that a slot boundary passing in between
+        // is not observed twice
         let current_slot = self.current_slot();
+        let next_slot = current_slot.map_or(0, |slot| slot + 1);
+        let delay = Box::pin(sleep(self.duration_until_slot(next_slot)));
         SlotStream { delay, clock: self, first_slot: current_slot }
     }
 }
@@ -257,8 +260,10 @@ impl<T: TimeProvider + Send + Sync> Stream for SlotStream<T> {
         } else {
             match Pin::new(&mut self.delay).poll(cx) {
                 Poll::Ready(_) => {
-                    self.delay = Box::pin(sleep(self.clock.duration_until_next_slot()));
-                    Poll::Ready(self.clock.current_slot())
+                    let current_slot = self.clock.current_slot();
+                    let next_slot = current_slot.map_or(0, |slot| slot + 1);
+                    self.delay = Box::pin(sleep(self.clock.duration_until_slot(next_slot)));
+                    Poll::Ready(current_slot)
                 }
                 Poll::Pending => Poll::Pending,
             }
-- 
2.43.0


From 40d508161bbcc16f834ca231181dc238761e1a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 02/30] fix: decode sequences of strings from owned or escaped
 JSON input

---
 ethereum-consensus/src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/serde.rs b/ethereum-consensus/src/serde.rs
index 26f5e46..b15f45d 100644
--- a/ethereum-consensus/src/serde.rs
+++ b/ethereum-consensus/src/serde.rs
@@ -127,8 +127,8 @@ pub mod seq_of_str {
         {
             let mut coll = Vec::with_capacity(access.size_hint().unwrap_or(0));
 
-            while let Some(elem) = access.next_element()? {
-                let recovered_elem = T::from_str(elem).map_err(|_| {
+            while let Some(elem) = access.next_element::<String>()? {
+                let recovered_elem = T::from_str(&elem).map_err(|_| {
                     Error::custom("failure to parse element of sequence from string")
                 })?;
                 coll.push(recovered_elem);
-- 
2.43.0


From 6fb1e3142d511b99264daf8882c65e0fed52002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 03/30] fix: serialized custom network reads back as the same
 network

---
 ethereum-consensus/src/networks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/networks.rs b/ethereum-consensus/src/networks.rs
index 73e0fe9..afb391d 100644
--- a/ethereum-consensus/src/networks.rs
+++ b/ethereum-consensus/src/networks.rs
@@ -34,7 +34,11 @@ impl std::fmt::Display for Network {
 
 impl From<Network> for String {
     fn from(value: Network) -> Self {
-        format!("{value}")
+        match value {
+            // the inverse of `From<String>`, which expects the bare directory
+            Network::Custom(config_dir) => config_dir,
+            value => format!("{value}"),
+        }
     }
 }
 
-- 
2.43.0


From 3e9c76344356f41e2a0a1bce453471478ce50ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 04/30] fix: voluntary exits require the minimum time since
 activation, not since eligibility

---
 ethereum-consensus/src/deneb/block_processing.rs   | 3 +--
 ethereum-consensus/src/electra/block_processing.rs | 3 +--
 ethereum-consensus/src/phase0/block_processing.rs  | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/deneb/block_processing.rs b/ethereum-consensus/src/deneb/block_processing.rs
index 2e57c71..3afdb73 100644
--- a/ethereum-consensus/src/deneb/block_processing.rs
+++ b/ethereum-consensus/src/deneb/block_processing.rs
@@ -320,8 +320,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )))
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 302b6eb..8210b9b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -819,8 +819,7 @@ pub fn process_voluntary_exit<
         )));
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index 3570de0..cc0c4a2 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -497,8 +497,7 @@ pub fn process_voluntary_exit<
         )))
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
-- 
2.43.0


From 8ca8ee8a99eab103e9ea4ba355420234c3a7861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 05/30] fix: proposer receives its share of the whistleblower
 reward

---
 ethereum-consensus/src/altair/helpers.rs    | 3 +--
 ethereum-consensus/src/bellatrix/helpers.rs | 3 +--
 ethereum-consensus/src/electra/helpers.rs   | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 9c7f9b4..69338b8 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -403,8 +403,7 @@ pub fn slash_validator<
 
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/bellatrix/helpers.rs b/ethereum-consensus/src/bellatrix/helpers.rs
index dcf7e47..3de78f8 100644
--- a/ethereum-consensus/src/bellatrix/helpers.rs
+++ b/ethereum-consensus/src/bellatrix/helpers.rs
@@ -105,8 +105,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 2495cdb..8ad7dba 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -701,8 +701,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward = state.validators[slashed_index].effective_balance /
         context.whistleblower_reward_quotient_electra;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
-- 
2.43.0


From aed967a91e65ea4a7dfa352d794e51b6ace04443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 06/30] fix: electra attestations of several committees read
 each committee's own aggregation bits

---
 ethereum-consensus/src/electra/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 8ad7dba..0574a5f 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -299,13 +299,15 @@ pub fn get_attesting_indices<
 
     let mut indices = HashSet::with_capacity(MAX_VALIDATORS_PER_SLOT);
 
-    for (committee_offset, index) in committee_indices.into_iter().enumerate() {
+    let mut committee_offset = 0;
+    for index in committee_indices {
         let committee = get_beacon_committee(state, attestation.data.slot, index, context)?;
         for (i, validator_index) in committee.iter().enumerate() {
             if attestation.aggregation_bits[committee_offset + i] {
                 indices.insert(*validator_index);
             }
         }
+        committee_offset += committee.len();
     }
 
     Ok(indices)
-- 
2.43.0


From 1b8f06d548de43d27d44bd7bebeac659df1c3ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 07/30] fix: consolidations consume the consolidation churn

---
 ethereum-consensus/src/electra/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 0574a5f..456a9d5 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -628,7 +628,7 @@ pub fn compute_consolidation_epoch_and_update_churn<
     let activation_exit_epoch = compute_activation_exit_epoch(current_epoch, context);
     let mut earliest_consolidation_epoch =
         state.earliest_consolidation_epoch.max(activation_exit_epoch);
-    let per_epoch_churn = get_activation_exit_churn_limit(state, context)?;
+    let per_epoch_churn = get_consolidation_churn_limit(state, context)?;
     let mut consolidation_balance_to_consume =
         if state.earliest_consolidation_epoch < earliest_consolidation_epoch {
             per_epoch_churn
-- 
2.43.0


From 31cb592320f4f0515b47302b0f597b005ae66ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 08/30] fix: pending partial withdrawals pay the validator that
 requested them

---
 ethereum-consensus/src/electra/block_processing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 8210b9b..948f4c7 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -79,7 +79,7 @@ pub fn get_expected_withdrawals<
         let balance = state.balances[withdrawal.index];
 
         let has_sufficient_effective_balance =
-            validator.effective_balance > context.min_activation_balance;
+            validator.effective_balance >= context.min_activation_balance;
         let has_excess_balance = balance > context.min_activation_balance;
         if validator.exit_epoch == FAR_FUTURE_EPOCH &&
             has_sufficient_effective_balance &&
@@ -91,7 +91,7 @@ pub fn get_expected_withdrawals<
             withdrawal_address.copy_from_slice(&validator.withdrawal_credentials[12..]);
             let withdrawal = Withdrawal {
                 index: withdrawal_index,
-                validator_index,
+                validator_index: withdrawal.index,
                 address: withdrawal_address,
                 amount: withdrawable_balance,
             };
-- 
2.43.0


From 531671c99f7d5d7c8d9869ca8a8bf911aec2a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 09/30] fix: electra withdrawals sweep continues after the last
 withdrawn validator

---
 ethereum-consensus/src/electra/block_processing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 948f4c7..3520f93 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -206,8 +206,9 @@ pub fn process_withdrawals<
     }
 
     if expected_withdrawals.len() == context.max_withdrawals_per_payload {
-        let next_validator_index =
-            expected_withdrawals.last().map(|latest| (latest.index + 1) % state.validators.len());
+        let next_validator_index = expected_withdrawals
+            .last()
+            .map(|latest| (latest.validator_index + 1) % state.validators.len());
         state.next_withdrawal_validator_index =
             next_validator_index.unwrap_or(state.next_withdrawal_validator_index);
     } else {
-- 
2.43.0


From 4733d1458312615abf5b51a128886b35ee220d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 10/30] fix: electra blocks may carry the expected deposits,
 and only those

---
 ethereum-consensus/src/electra/block_processing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 3520f93..aa1d767 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -449,11 +449,11 @@ pub fn process_operations<
             return Err(invalid_operation_error(InvalidOperation::Deposit(
                 InvalidDeposit::IncorrectCount { expected, count: body.deposits.len() },
             )));
-        } else if !body.deposits.is_empty() {
-            return Err(invalid_operation_error(InvalidOperation::Deposit(
-                InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
-            )));
         }
+    } else if !body.deposits.is_empty() {
+        return Err(invalid_operation_error(InvalidOperation::Deposit(
+            InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
+        )));
     }
 
     body.proposer_slashings
-- 
2.43.0


From 78eb5e7175d7c2765bdb66fe92f55758ce84eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 11/30] fix: electra deposits with an invalid signature do not
 invalidate the block

---
 .../src/electra/block_processing.rs           | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index aa1d767..1e0e47a 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -658,31 +658,38 @@ pub fn apply_deposit<
     if let Some((index, validator)) = validator {
         state.pending_balance_deposits.push(PendingBalanceDeposit { index, amount });
 
-        is_valid_deposit_signature(
-            public_key,
-            withdrawal_credentials.clone(),
-            amount,
-            signature,
-            context,
-        )?;
-
-        // NOTE: if we did not return from signature check, then we know the signature is valid
         if is_compounding_withdrawal_credential(withdrawal_credentials) &&
-            has_eth1_withdrawal_credential(validator)
+            has_eth1_withdrawal_credential(validator) &&
+            is_valid_deposit_signature(
+                public_key,
+                withdrawal_credentials.clone(),
+                amount,
+                signature,
+                context,
+            )
+            .is_ok()
         {
             switch_to_compounding_validator(state, index, context)?;
         }
         return Ok(());
     }
 
-    is_valid_deposit_signature(
+    if is_valid_deposit_signature(
         public_key,
         withdrawal_credentials.clone(),
         amount,
         signature,
         context,
-    )?;
-    add_validator_to_registry(state, public_key.clone(), withdrawal_credentials.clone(), amount);
+    )
+    .is_ok()
+    {
+        add_validator_to_registry(
+            state,
+            public_key.clone(),
+            withdrawal_credentials.clone(),
+            amount,
+        );
+    }
     Ok(())
 }
 
-- 
2.43.0


From 43b674dd41358d01fabd8d39d7a2498567f2b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 12/30] fix: consolidated validators become withdrawable after
 their new exit epoch

---
 ethereum-consensus/src/electra/block_processing.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 1e0e47a..7ac93ea 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -1142,14 +1142,14 @@ pub fn process_consolidation<
     let public_keys = [&source_validator.public_key, &target_validator.public_key];
     fast_aggregate_verify(&public_keys[..], &signing_root[..], &signed_consolidation.signature)?;
 
-    state.validators[consolidation.source_index].exit_epoch =
-        compute_consolidation_epoch_and_update_churn(
-            state,
-            source_validator.effective_balance,
-            context,
-        )?;
+    let exit_epoch = compute_consolidation_epoch_and_update_churn(
+        state,
+        source_validator.effective_balance,
+        context,
+    )?;
+    state.validators[consolidation.source_index].exit_epoch = exit_epoch;
     state.validators[consolidation.source_index].withdrawable_epoch =
-        source_validator.exit_epoch + context.min_validator_withdrawability_delay;
+        exit_epoch + context.min_validator_withdrawability_delay;
     state.pending_consolidations.push(PendingConsolidation {
         source_index: consolidation.source_index,
         target_index: consolidation.target_index,
-- 
2.43.0


From ed30872673a8cfcacaf646e9330afa819aed3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 13/30] fix: electra genesis starts with the deposit receipts
 start index unset

---
 ethereum-consensus/src/electra/genesis.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ethereum-consensus/src/electra/genesis.rs b/ethereum-consensus/src/electra/genesis.rs
index 4a07578..18d2938 100644
--- a/ethereum-consensus/src/electra/genesis.rs
+++ b/ethereum-consensus/src/electra/genesis.rs
@@ -1,8 +1,8 @@
 use crate::{
     electra::{
-        get_next_sync_committee, increase_balance, process_deposit, BeaconBlockBody,
-        BeaconBlockHeader, BeaconState, Deposit, DepositData, Eth1Data, ExecutionPayloadHeader,
-        Fork, DEPOSIT_DATA_LIST_BOUND,
+        constants::UNSET_DEPOSIT_RECEIPTS_START_INDEX, get_next_sync_committee, increase_balance,
+        process_deposit, BeaconBlockBody, BeaconBlockHeader, BeaconState, Deposit, DepositData,
+        Eth1Data, ExecutionPayloadHeader, Fork, DEPOSIT_DATA_LIST_BOUND,
     },
     primitives::{Gwei, Hash32, GENESIS_EPOCH},
     ssz::prelude::*,
@@ -108,6 +108,7 @@ pub fn initialize_beacon_state_from_eth1<
         latest_block_header,
         randao_mixes,
         latest_execution_payload_header: execution_payload_header,
+        deposit_receipts_start_index: UNSET_DEPOSIT_RECEIPTS_START_INDEX,
         ..Default::default()
     };
 
-- 
2.43.0


From 12e6b9d8e86e425f4d86034938ae52cbc1d36983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:58 +0000
Subject: [PATCH 14/30] fix: a deposit count below the deposit index is an
 error, not an arithmetic overflow

---
 ethereum-consensus/src/capella/block_processing.rs |  8 ++++++--
 ethereum-consensus/src/phase0/block_processing.rs  | 12 ++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/capella/block_processing.rs b/ethereum-consensus/src/capella/block_processing.rs
index 0165344..8cabe18 100644
--- a/ethereum-consensus/src/capella/block_processing.rs
+++ b/ethereum-consensus/src/capella/block_processing.rs
@@ -10,7 +10,7 @@ use crate::{
     },
     crypto::hash,
     error::{
-        invalid_operation_error, InvalidBlsToExecutionChange, InvalidDeposit,
+        invalid_operation_error, Error, InvalidBlsToExecutionChange, InvalidDeposit,
         InvalidExecutionPayload, InvalidOperation, InvalidWithdrawals,
     },
     execution_engine::ExecutionEngine,
@@ -138,7 +138,11 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
+        state
+            .eth1_data
+            .deposit_count
+            .checked_sub(state.eth1_deposit_index)
+            .ok_or(Error::Underflow)? as usize,
     );
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index cc0c4a2..719da69 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -1,9 +1,9 @@
 use crate::{
     crypto::hash,
     error::{
-        invalid_header_error, invalid_operation_error, InvalidAttestation, InvalidAttesterSlashing,
-        InvalidBeaconBlockHeader, InvalidDeposit, InvalidOperation, InvalidProposerSlashing,
-        InvalidVoluntaryExit,
+        invalid_header_error, invalid_operation_error, Error, InvalidAttestation,
+        InvalidAttesterSlashing, InvalidBeaconBlockHeader, InvalidDeposit, InvalidOperation,
+        InvalidProposerSlashing, InvalidVoluntaryExit,
     },
     phase0::{
         beacon_block::{BeaconBlock, BeaconBlockBody, BeaconBlockHeader},
@@ -737,7 +737,11 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
+        state
+            .eth1_data
+            .deposit_count
+            .checked_sub(state.eth1_deposit_index)
+            .ok_or(Error::Underflow)? as usize,
     );
 
     if body.deposits.len() != expected_deposit_count {
-- 
2.43.0


From 36213bab412aa7fd341307a66f39818f6c0a6284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 15/30] fix: the out-of-range error for block roots does not
 overflow at slot 0

---
 ethereum-consensus/src/phase0/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/phase0/helpers.rs b/ethereum-consensus/src/phase0/helpers.rs
index d1de4c6..c7b6ea0 100644
--- a/ethereum-consensus/src/phase0/helpers.rs
+++ b/ethereum-consensus/src/phase0/helpers.rs
@@ -610,7 +610,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         })
     }
-- 
2.43.0


From 149d566b23ef7514d64bd2c6b1d1e9a9251a3f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:59 +0000
Subject: [PATCH 16/30] fix: light client signature slots are decimal strings
 in JSON

---
 ethereum-consensus/src/altair/light_client.rs  | 3 +++
 ethereum-consensus/src/capella/light_client.rs | 3 +++
 ethereum-consensus/src/deneb/light_client.rs   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/ethereum-consensus/src/altair/light_client.rs b/ethereum-consensus/src/altair/light_client.rs
index 628e6b7..bdf5cb3 100644
--- a/ethereum-consensus/src/altair/light_client.rs
+++ b/ethereum-consensus/src/altair/light_client.rs
@@ -36,6 +36,7 @@ pub struct LightClientUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -45,6 +46,7 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -52,5 +54,6 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
 pub struct LightClientOptimisticUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub attested_header: LightClientHeader,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/capella/light_client.rs b/ethereum-consensus/src/capella/light_client.rs
index 5596c7d..78fabc2 100644
--- a/ethereum-consensus/src/capella/light_client.rs
+++ b/ethereum-consensus/src/capella/light_client.rs
@@ -43,6 +43,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -56,6 +57,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -67,5 +69,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/deneb/light_client.rs b/ethereum-consensus/src/deneb/light_client.rs
index b189a46..b598f85 100644
--- a/ethereum-consensus/src/deneb/light_client.rs
+++ b/ethereum-consensus/src/deneb/light_client.rs
@@ -41,6 +41,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -54,6 +55,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -65,5 +67,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
-- 
2.43.0


From 69ea3691c5519ea849c67cacd33699f7d56540c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:04 +0000
Subject: [PATCH 17/30] fix: a blob header that claims more bytes than follow
 it is an error, not a panic

---
 ethereum-consensus/src/bin/ec/blobs/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/framing.rs b/ethereum-consensus/src/bin/ec/blobs/framing.rs
index a5813ad..d45717b 100644
--- a/ethereum-consensus/src/bin/ec/blobs/framing.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/framing.rs
@@ -37,7 +37,7 @@ pub fn payload_from_sized(stream: &[u8]) -> Result<&[u8], Error> {
         return Err(Error::UnsupportedSizedFramingVersion)
     }
     let size = u32::from_be_bytes(header[1..5].try_into().expect("correct size bytes")) as usize;
-    if size >= stream.len() {
+    if size > payload.len() {
         return Err(Error::InvalidPayloadSize)
     }
 
-- 
2.43.0


From c330a64b4b689d0a2ce09507f60c082aec3ce3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:04 +0000
Subject: [PATCH 18/30] fix: trailing bytes after a full last blob go into a
 blob of their own

---
 ethereum-consensus/src/bin/ec/blobs/encode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ethereum-consensus/src/bin/ec/blobs/encode.rs b/ethereum-consensus/src/bin/ec/blobs/encode.rs
index b56ca21..c9b0ace 100644
--- a/ethereum-consensus/src/bin/ec/blobs/encode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/encode.rs
@@ -47,6 +47,11 @@ pub fn pack_into_blobs(buffer: &[u8]) -> Result<Vec<Blob>, Error> {
 
     let remainder = chunks.remainder();
     if !remainder.is_empty() {
+        if blob_buffer.len() == BYTES_PER_BLOB {
+            let blob = Blob::try_from(blob_buffer.as_ref()).expect("is the right size");
+            blobs.push(blob);
+            blob_buffer.clear();
+        }
         let mut field_element = field_element_from_bits(remainder)?;
         blob_buffer.append(&mut field_element);
     }
-- 
2.43.0


From 801a73dcf4c0f405e328736391cc9ef62e8353cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 19/30] fix: the executor upgrades states that already are at
 the fork slot (forks scheduled at the same epoch)

---
 .../src/state_transition/executor.rs          | 80 ++++++++++++++-----
 1 file changed, 60 insertions(+), 20 deletions(-)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index d23c385..62ee791 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -210,7 +210,9 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
                 if signed_block.message.slot == state.slot {
                     altair::state_transition_block_in_slot(
@@ -255,11 +257,15 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -281,7 +287,9 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -333,15 +341,21 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -359,11 +373,15 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -381,7 +399,9 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -430,19 +450,27 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -460,15 +488,21 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -486,11 +520,15 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -508,7 +546,9 @@ impl<
             }
             BeaconState::Capella(state) => {
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
-- 
2.43.0


From b001da82421ae54fe30901cb0626f08850e13f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 20/30] fix: the executor refuses blocks of forks that have not
 begun at their slot without advancing towards them

---
 .../src/state_transition/executor.rs          | 70 +++++++++++++------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index 62ee791..f11d27a 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -1,10 +1,20 @@
 use crate::{
     altair, bellatrix, capella, deneb, phase0,
+    primitives::{Epoch, Slot},
     state_transition::{Context, Result, Validation},
     types::{BeaconState, SignedBeaconBlock},
     Error, Fork,
 };
 
+/// The first slot of the fork starting at `fork_epoch`; an error if `slot` precedes it.
+fn fork_slot_before(fork_epoch: Epoch, slot: Slot, context: &Context) -> Result<Slot> {
+    let fork_slot = fork_epoch.saturating_mul(context.slots_per_epoch);
+    if slot < fork_slot {
+        return Err(Error::TransitionToPreviousSlot { requested: slot, current: fork_slot })
+    }
+    Ok(fork_slot)
+}
+
 pub struct Executor<
     const SLOTS_PER_HISTORICAL_ROOT: usize,
     const HISTORICAL_ROOTS_LIMIT: usize,
@@ -209,7 +219,8 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.altair_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     phase0::process_slots(state, fork_slot, &self.context)?;
                 }
@@ -256,13 +267,15 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.altair_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     phase0::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.bellatrix_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     altair::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -286,7 +299,8 @@ impl<
                 Ok(())
             }
             BeaconState::Altair(state) => {
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.bellatrix_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     altair::process_slots(state, fork_slot, &self.context)?;
                 }
@@ -340,19 +354,22 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.altair_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     phase0::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.bellatrix_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     altair::process_slots(&mut state, fork_slot, &self.context)?;
                 }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.capella_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -372,13 +389,15 @@ impl<
                 Ok(())
             }
             BeaconState::Altair(state) => {
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.bellatrix_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     altair::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.capella_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -398,7 +417,8 @@ impl<
                 Ok(())
             }
             BeaconState::Bellatrix(state) => {
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.capella_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(state, fork_slot, &self.context)?;
                 }
@@ -449,25 +469,29 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.altair_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     phase0::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.bellatrix_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     altair::process_slots(&mut state, fork_slot, &self.context)?;
                 }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.capella_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.deneb_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     capella::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -487,19 +511,22 @@ impl<
                 Ok(())
             }
             BeaconState::Altair(state) => {
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.bellatrix_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     altair::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.capella_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.deneb_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     capella::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -519,13 +546,15 @@ impl<
                 Ok(())
             }
             BeaconState::Bellatrix(state) => {
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.capella_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.deneb_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     capella::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -545,7 +574,8 @@ impl<
                 Ok(())
             }
             BeaconState::Capella(state) => {
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot =
+                    fork_slot_before(self.context.deneb_fork_epoch, signed_block.message.slot, &self.context)?;
                 if state.slot != fork_slot {
                     capella::process_slots(state, fork_slot, &self.context)?;
                 }
-- 
2.43.0


From c5ddc6a08f0c09cd70e229e773b7cc9ddba5c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 21/30] fix: send the blob indices of a sidecar request as text

---
 beacon-api-client/src/api_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index c0ed9d5..8c56f0b 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -401,7 +401,7 @@ impl<C: ClientTypes> Client<C> {
         let target = self.endpoint.join(&path)?;
         let mut request = self.http.get(target);
         if !indices.is_empty() {
-            request = request.query(&[("indices", indices)]);
+            request = request.query(&[("indices", indices.iter().join(","))]);
         }
         let response = request.send().await?;
         let result: ApiResult<Value<_>> = response.json().await?;
-- 
2.43.0


From 884148b83d226c15afcedae0dfceb4dbcf1e607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 22/30] fix: send validator indices as strings in the liveness
 request

---
 beacon-api-client/src/api_client.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 8c56f0b..a8235b8 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -866,8 +866,9 @@ impl<C: ClientTypes> Client<C> {
         epoch: Epoch,
         indices: &[ValidatorIndex],
     ) -> Result<Vec<ValidatorLiveness>, Error> {
-        let response =
-            self.http_post(&format!("eth/v1/validator/liveness/{epoch}"), indices).await?;
+        let endpoint = format!("eth/v1/validator/liveness/{epoch}");
+        let indices = indices.iter().map(|index| index.to_string()).collect::<Vec<_>>();
+        let response = self.http_post(&endpoint, &indices).await?;
         let result: ApiResult<Value<_>> = response.json().await?;
         match result {
             ApiResult::Ok(result) => Ok(result.data),
-- 
2.43.0


From 0e0369058d0a1295b2d927c41500bff7e1f8d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 23/30] fix: keep the endpoint's path in the events and peer
 requests

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index a8235b8..31da3d3 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -609,7 +609,7 @@ impl<C: ClientTypes> Client<C> {
     /* events namespace */
     pub async fn get_events<T: Topic>(&self) -> Result<EventStream<T::Data>, Error> {
         let name = T::NAME;
-        let path = format!("/eth/v1/events?topics={name}");
+        let path = format!("eth/v1/events?topics={name}");
         let target = self.endpoint.join(&path)?.to_string();
 
         let client = EventClient::default();
@@ -646,7 +646,7 @@ impl<C: ClientTypes> Client<C> {
 
     pub async fn get_peer(&self, peer_id: PeerId) -> Result<PeerDescription, Error> {
         let result: Value<PeerDescription> =
-            self.get(&format!("/eth/v1/node/peers/{peer_id}")).await?;
+            self.get(&format!("eth/v1/node/peers/{peer_id}")).await?;
         Ok(result.data)
     }
 
-- 
2.43.0


From d36b1d12228ff2fa334b2d5bed0dbebe47454cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 24/30] fix: read the randao mix from the object the API wraps
 it in

---
 beacon-api-client/src/api_client.rs | 6 +++---
 beacon-api-client/src/types.rs      | 7 ++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 31da3d3..701b95a 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -5,7 +5,7 @@ use crate::{
         CommitteeFilter, CommitteeSummary, ConnectionOrientation, CoordinateWithMetadata,
         DepositContract, DepositSnapshot, FinalityCheckpoints, GenesisDetails, HealthStatus,
         NetworkIdentity, PeerDescription, PeerState, PeerSummary, ProposerDuty, PublicKeyOrIndex,
-        RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor, SyncCommitteeDuty,
+        RandaoData, RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor, SyncCommitteeDuty,
         SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness, ValidatorStatus,
         ValidatorSummary, Value, VersionData, VersionedValue,
     },
@@ -269,9 +269,9 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<Bytes32>> = response.json().await?;
+        let result: ApiResult<Value<RandaoData>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.data.randao),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
diff --git a/beacon-api-client/src/types.rs b/beacon-api-client/src/types.rs
index ee59120..90c6512 100644
--- a/beacon-api-client/src/types.rs
+++ b/beacon-api-client/src/types.rs
@@ -6,7 +6,7 @@ use ethereum_consensus::{
     networking::{Enr, Multiaddr, PeerId},
     phase0::{Checkpoint, SignedBeaconBlockHeader, Validator},
     primitives::{
-        BlsPublicKey, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei, Hash32,
+        BlsPublicKey, Bytes32, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei, Hash32,
         Root, Slot, ValidatorIndex, Version,
     },
     serde::try_bytes_from_hex_str,
@@ -110,6 +110,11 @@ pub struct RootData {
     pub root: Root,
 }
 
+#[derive(Serialize, Deserialize)]
+pub struct RandaoData {
+    pub randao: Bytes32,
+}
+
 #[derive(Serialize, Deserialize, Clone, Debug)]
 pub enum BlockId {
     Head,
-- 
2.43.0


From 36ba5298711fa11177e5f23e9eefb09904cface2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 25/30] fix: read the list of headers the API answers header
 queries with

---
 beacon-api-client/src/api_client.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 701b95a..acabf92 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -55,6 +55,13 @@ async fn api_error_or_value<T: serde::de::DeserializeOwned>(
     }
 }
 
+fn first_header(headers: Vec<BeaconHeaderSummary>) -> Result<BeaconHeaderSummary, Error> {
+    headers
+        .into_iter()
+        .next()
+        .ok_or_else(|| Error::MissingExpectedData("no header matches the query".to_string()))
+}
+
 pub trait ClientTypes: Clone {
     type SignedContributionAndProof: serde::Serialize;
     type SyncCommitteeContribution: serde::Serialize + serde::de::DeserializeOwned;
@@ -277,8 +284,8 @@ impl<C: ClientTypes> Client<C> {
     }
 
     pub async fn get_beacon_header_at_head(&self) -> Result<BeaconHeaderSummary, Error> {
-        let result: Value<BeaconHeaderSummary> = self.get("eth/v1/beacon/headers").await?;
-        Ok(result.data)
+        let result: Value<Vec<BeaconHeaderSummary>> = self.get("eth/v1/beacon/headers").await?;
+        first_header(result.data)
     }
 
     pub async fn get_beacon_header_for_slot(
@@ -289,9 +296,9 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("slot", slot)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<BeaconHeaderSummary>> = response.json().await?;
+        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => first_header(result.data),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
@@ -304,9 +311,9 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("parent_root", format!("{parent_root:?}"))]);
         let response = request.send().await?;
-        let result: ApiResult<Value<BeaconHeaderSummary>> = response.json().await?;
+        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => first_header(result.data),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From 696e534f7f826330d06c77307fd3bccd174957d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 26/30] fix: read the list of versioned light client updates
 the API answers

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index acabf92..1c4e789 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -451,9 +451,9 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("start_period", start), ("count", count)]);
 
         let response = request.send().await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
+        let result: ApiResult<Vec<VersionedValue<_>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.into_iter().map(|update| update.data).collect()),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From 1d82897e0c6fc7fe0492058dac62678d7a457e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 27/30] fix: a constant a fork redefines hides the inherited
 one in the generated spec

---
 spec-gen/src/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index f31fe4e..ffca20d 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -625,6 +625,7 @@ fn parse_fork_diff_with_symbol_index(fork: &Fork) -> (ForkDiff, HashMap<String,
                 Item::Const(item) => {
                     let item = Constant::new(item, *fork);
                     if item.is_pub() {
+                        index.insert(item.item.ident.to_string(), module_name.to_string());
                         module.constants.push(item);
                     }
                 }
-- 
2.43.0


From 0e117278db0da32bb4d4251e3c866c8273964e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 28/30] fix: keep the turbofish when the generic arguments of a
 derived function are edited

---
 spec-gen/src/visitors.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spec-gen/src/visitors.rs b/spec-gen/src/visitors.rs
index 819beca..eadec51 100644
--- a/spec-gen/src/visitors.rs
+++ b/spec-gen/src/visitors.rs
@@ -234,7 +234,10 @@ impl VisitMut for ArgumentsEditor<'_> {
         i: &mut syn::AngleBracketedGenericArguments,
     ) {
         if self.in_context {
+            let colon2_token = i.colon2_token;
             *i = self.edit.clone();
+            // an expression keeps the `::` before its arguments
+            i.colon2_token = colon2_token;
         }
         visit_mut::visit_angle_bracketed_generic_arguments_mut(self, i);
     }
-- 
2.43.0


From 5d33de30dd2772c58612f5ecc78f2173ed9492d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 29/30] fix: derive functions with several lifetimes or type
 parameters

---
 spec-gen/src/visitors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spec-gen/src/visitors.rs b/spec-gen/src/visitors.rs
index eadec51..18ed8d9 100644
--- a/spec-gen/src/visitors.rs
+++ b/spec-gen/src/visitors.rs
@@ -115,14 +115,14 @@ pub fn collate_generics_from(
 
     if !lifetimes.is_empty() {
         let lifetimes: syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> = parse_quote! {
-            #(#lifetimes)*,
+            #(#lifetimes),*
         };
         generics.params.extend(lifetimes);
     }
 
     if !type_params.is_empty() {
         let type_params: syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> = parse_quote! {
-            #(#type_params)*,
+            #(#type_params),*
         };
         generics.params.extend(type_params);
     }
-- 
2.43.0


From a00df362e1ecad1caf10b88bc02b904a6df21767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 30/30] fix: name the variants of generated types after the
 forks that define them

---
 spec-gen/src/type_generator.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/spec-gen/src/type_generator.rs b/spec-gen/src/type_generator.rs
index ef1d41d..da15364 100644
--- a/spec-gen/src/type_generator.rs
+++ b/spec-gen/src/type_generator.rs
@@ -310,21 +310,20 @@ fn derive_merge_generics(variants: &[Variant]) -> Vec<Ident> {
     all_generics
 }
 
-fn derive_merge_type(fork_sequence: &[Fork], defns: Vec<TypeDefn>) -> MergeType {
+fn derive_merge_type(defns: Vec<TypeDefn>) -> MergeType {
     let mut variants = vec![];
     let mut fields: Vec<FieldDefn> = vec![];
     let mut seen_fields = HashSet::new();
-    let iter = fork_sequence.iter().skip_while(|&fork| fork != &defns[0].fork);
-    for (fork, defn) in iter.zip(defns.iter()) {
+    for defn in &defns {
         let mut visitor = ToGenericsVisitor::default();
         visitor.visit_generics(&defn.item.generics);
-        let variant = Variant { fork: *fork, generics: visitor.bounds };
+        let variant = Variant { fork: defn.fork, generics: visitor.bounds };
         variants.push(variant);
 
         for field in &defn.item.fields {
             let ident = field.ident.clone().unwrap();
             let mut field_defn =
-                FieldDefn { fork: *fork, ident: ident.clone(), type_def: field.ty.clone() };
+                FieldDefn { fork: defn.fork, ident: ident.clone(), type_def: field.ty.clone() };
             if seen_fields.contains(&ident) {
                 let target = fields.iter().position(|field| field.ident == ident).unwrap();
                 let field_to_update = &mut fields[target];
@@ -838,7 +837,7 @@ pub fn run() {
 
     for target_type in &types {
         let defns = load_type_defns(target_type, fork_sequence);
-        let merge_type = derive_merge_type(fork_sequence, defns);
+        let merge_type = derive_merge_type(defns);
         let output = as_syn(target_type, &merge_type);
         render(target_type, output)
     }
-- 
2.43.0

