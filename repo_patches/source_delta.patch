From aadd27ab8d90337ea259fd439504cbe8d23f1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:08 +0000
Subject: [PATCH 01/32] fix: parse the Liquid mainnet prefix as Liquid mainnet

The text "lq" was recognised but returned Bitcoin mainnet.
---
 invoice/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 08e4a37..90e74c6 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -228,7 +228,7 @@ impl FromStr for ChainNet {
             x if ChainNet::BitcoinTestnet.to_string() == x => Ok(ChainNet::BitcoinTestnet),
             x if ChainNet::BitcoinSignet.to_string() == x => Ok(ChainNet::BitcoinSignet),
             x if ChainNet::BitcoinRegtest.to_string() == x => Ok(ChainNet::BitcoinRegtest),
-            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::BitcoinMainnet),
+            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::LiquidMainnet),
             x if ChainNet::LiquidTestnet.to_string() == x => Ok(ChainNet::LiquidTestnet),
             _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
         }
-- 
2.43.0


From 3640025d1db88b67474a1dd12195aef9316d1a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:48 +0000
Subject: [PATCH 02/32] fix: merge a known witness transaction with its id in
 either order

---
 src/containers/anchors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index 2c7c167..b608044 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -154,7 +154,7 @@ impl PubWitness {
     pub fn merge_reveal(self, other: Self) -> Result<Self, MergeRevealError> {
         match (self, other) {
             (Self::Txid(txid1), Self::Txid(txid2)) if txid1 == txid2 => Ok(Self::Txid(txid1)),
-            (Self::Txid(txid), Self::Tx(tx)) | (Self::Txid(txid), Self::Tx(tx))
+            (Self::Txid(txid), Self::Tx(tx)) | (Self::Tx(tx), Self::Txid(txid))
                 if txid == tx.txid() =>
             {
                 Ok(Self::Tx(tx))
-- 
2.43.0


From 44b575926c2e49d4ea28f3121bcd7f3fa1c70efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:48 +0000
Subject: [PATCH 03/32] fix: keep transitions known only to the other bundle
 when merging

---
 src/contract/merge_reveal.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/contract/merge_reveal.rs b/src/contract/merge_reveal.rs
index b662f5a..357fb12 100644
--- a/src/contract/merge_reveal.rs
+++ b/src/contract/merge_reveal.rs
@@ -220,16 +220,16 @@ impl MergeReveal for TransitionBundle {
 
         let mut self_transitions = self.known_transitions.release();
         for (opid, other_transition) in other.known_transitions {
-            if let Some(mut transition) = self_transitions.remove(&opid) {
-                transition = transition.merge_reveal(other_transition)?;
-                self_transitions.insert(opid, transition);
-            }
+            let transition = match self_transitions.remove(&opid) {
+                Some(transition) => transition.merge_reveal(other_transition)?,
+                None => other_transition,
+            };
+            self_transitions.insert(opid, transition);
         }
-        self.known_transitions = Confined::from_checked(self_transitions);
-
-        if self.input_map.len() < self.known_transitions.len() {
+        if self.input_map.len() < self_transitions.len() {
             return Err(MergeRevealError::InsufficientInputs);
         }
+        self.known_transitions = Confined::from_checked(self_transitions);
         Ok(self)
     }
 }
-- 
2.43.0


From 3007ebd99441ae4970d78b779c58dd21b17d4734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:48 +0000
Subject: [PATCH 04/32] fix: report state of all seals defined on an outpoint

---
 src/persistence/memory.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4126daa..7dcff6f 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1315,13 +1315,16 @@ impl IndexReadProvider for MemIndex {
             .ok_or(IndexInconsistency::ContractAbsent(contract_id))?;
         let mut opouts = BTreeSet::new();
         for output in outpoints.into_iter().map(|o| o.into()) {
-            let set = index
-                .outpoint_opouts
-                .iter()
-                .find(|(seal, _)| seal.to_outpoint() == output)
-                .map(|(_, set)| set.to_unconfined())
-                .ok_or(IndexInconsistency::OutpointUnknown(output, contract_id))?;
-            opouts.extend(set)
+            let mut known = false;
+            for (seal, set) in &index.outpoint_opouts {
+                if seal.to_outpoint() == output {
+                    known = true;
+                    opouts.extend(set.to_unconfined());
+                }
+            }
+            if !known {
+                return Err(IndexInconsistency::OutpointUnknown(output, contract_id).into());
+            }
         }
         Ok(opouts)
     }
-- 
2.43.0


From a59ca79f53f7a2663b9780a697d972915d5d7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:48 +0000
Subject: [PATCH 05/32] fix: detect names implemented twice in an interface
 implementation

---
 src/interface/iimpl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/iimpl.rs b/src/interface/iimpl.rs
index 1e528ed..f381b68 100644
--- a/src/interface/iimpl.rs
+++ b/src/interface/iimpl.rs
@@ -421,7 +421,7 @@ impl IfaceImpl {
             dup_metadata
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.meta_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaMetaAbsent(field.name.clone(), field.id));
             }
@@ -443,7 +443,7 @@ impl IfaceImpl {
             dup_global_state
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.global_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaGlobalAbsent(field.name.clone(), field.id));
             }
@@ -465,7 +465,7 @@ impl IfaceImpl {
             dup_assignments
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.owned_types.contains_key(&field.id) {
                 errors
                     .push(ImplInconsistency::SchemaAssignmentAbsent(field.name.clone(), field.id));
@@ -488,7 +488,7 @@ impl IfaceImpl {
             dup_valencies
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.valency_types.contains(&field.id) {
                 errors.push(ImplInconsistency::SchemaValencyAbsent(field.name.clone(), field.id));
@@ -510,7 +510,7 @@ impl IfaceImpl {
             dup_transitions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.transitions.contains_key(&field.id) {
                 errors
@@ -534,7 +534,7 @@ impl IfaceImpl {
             dup_extensions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.extensions.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaExtensionAbsent(field.name.clone(), field.id));
-- 
2.43.0


From 20a705e6eb0e8984720963832dfbc7456261a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:48 +0000
Subject: [PATCH 06/32] fix: keep valencies when abstracting an interface
 implementation

---
 src/interface/inheritance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 518c059..3b98c0b 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -708,7 +708,7 @@ impl IfaceImpl {
                     .cloned()
             }));
 
-        self.valencies = Confined::from_iter_checked(base.assignments.keys().filter_map(|name| {
+        self.valencies = Confined::from_iter_checked(base.valencies.keys().filter_map(|name| {
             self.valencies
                 .iter()
                 .find(|i| parent.valencies.contains_key(name) && &i.name == name)
-- 
2.43.0


From 49057425cc43eaff3d245bf72949090e70d60332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:48 +0000
Subject: [PATCH 07/32] fix: name the extension in extension inheritance errors

---
 src/interface/inheritance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 3b98c0b..7d99d3d 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -640,7 +640,7 @@ impl ExtensionIface {
     pub fn extended(mut self, ext: Self, op_name: FieldName) -> Result<Self, Vec<ExtensionError>> {
         let mut errors = vec![];
 
-        let op = OpName::Transition(op_name);
+        let op = OpName::Extension(op_name);
         if self.modifier.is_final() {
             errors.push(ExtensionError::OpFinal(op.clone()));
         } else if !self.modifier.can_be_overridden_by(ext.modifier) {
-- 
2.43.0


From ee2b96533623662c60b4aa5a81c6f7f5acfe378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:31 +0000
Subject: [PATCH 08/32] fix: roll back the state store when the stash
 transaction cannot begin

---
 src/persistence/stock.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index b43427e..3d5f19a 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1257,7 +1257,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         self.state.begin_transaction()?;
         self.stash
             .begin_transaction()
-            .inspect_err(|_| self.stash.rollback_transaction())?;
+            .inspect_err(|_| self.state.rollback_transaction())?;
         self.index.begin_transaction().inspect_err(|_| {
             self.state.rollback_transaction();
             self.stash.rollback_transaction();
-- 
2.43.0


From 816f9b7b54db10b47f2faad7fea5c54d2f4abed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:31 +0000
Subject: [PATCH 09/32] fix: do not count witnesses which failed to resolve as
 updated

---
 src/persistence/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 7dcff6f..c598a35 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -664,12 +664,14 @@ impl StateWriteProvider for MemState {
                 continue;
             }
             match resolver.resolve_pub_witness_ord(*id) {
-                Ok(new) => *ord = new,
+                Ok(new) => {
+                    *ord = new;
+                    succeeded += 1;
+                }
                 Err(err) => {
                     failed.insert(*id, err.to_string());
                 }
             }
-            succeeded += 1;
         }
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
-- 
2.43.0


From b52ffe7b5ba10106bbb8f5bc363c8bb681b57860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:14 +0000
Subject: [PATCH 10/32] fix: reject consignments with transitions not committed
 by their bundle

---
 src/containers/consignment.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index d1e85fc..918b9da 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -33,7 +33,9 @@ use amplify::{ByteArray, Bytes32};
 use armor::{ArmorHeader, AsciiArmor, StrictArmor, StrictArmorError};
 use baid64::{Baid64ParseError, DisplayBaid64, FromBaid64Str};
 use commit_verify::{CommitEncode, CommitEngine, CommitId, CommitmentId, DigestExt, Sha256};
-use rgb::validation::{ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS};
+use rgb::validation::{
+    Failure, ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS,
+};
 use rgb::{
     impl_serde_baid64, validation, AttachId, BundleId, ContractId, Extension, Genesis, GraphSeal,
     Operation, Schema, SchemaId, XChain,
@@ -337,6 +339,20 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             (&self.schema, self.contract_id()),
         );
 
+        // RGB Core doesn't check that bundles commit to the state transitions they contain
+        for (_, bundle) in self
+            .bundles
+            .iter()
+            .flat_map(WitnessBundle::anchored_bundles)
+        {
+            let bundle_id = bundle.bundle_id();
+            for (opid, transition) in &bundle.known_transitions {
+                if transition.id() != *opid || !bundle.input_map.values().any(|id| id == opid) {
+                    status.add_failure(Failure::BundleExtraTransition(bundle_id, *opid));
+                }
+            }
+        }
+
         let validity = status.validity();
 
         if self.transfer != TRANSFER {
-- 
2.43.0


From 4bb0bef789f94602a72c9069b3bab4d972048f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:43 +0000
Subject: [PATCH 11/32] fix: reject consignments with the same bundle under
 several witnesses

---
 src/containers/consignment.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 918b9da..868fe17 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -339,13 +339,20 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             (&self.schema, self.contract_id()),
         );
 
-        // RGB Core doesn't check that bundles commit to the state transitions they contain
+        // RGB Core validates a single bundle per each of bundle ids and doesn't check that bundles
+        // commit to the state transitions they contain, so we have to do that here
+        let mut bundle_ids = bset! {};
         for (_, bundle) in self
             .bundles
             .iter()
             .flat_map(WitnessBundle::anchored_bundles)
         {
             let bundle_id = bundle.bundle_id();
+            if !bundle_ids.insert(bundle_id) {
+                status.add_failure(Failure::Custom(format!(
+                    "bundle {bundle_id} is present in the consignment more than once"
+                )));
+            }
             for (opid, transition) in &bundle.known_transitions {
                 if transition.id() != *opid || !bundle.input_map.values().any(|id| id == opid) {
                     status.add_failure(Failure::BundleExtraTransition(bundle_id, *opid));
-- 
2.43.0


From 2f837d864c039e1420303c14f598166a8afdda94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:01 +0000
Subject: [PATCH 12/32] fix: keep transition ids in step with the priority of a
 batch

Setting the priority of a batch changes the nonce of its transitions and
thus their ids. The ids stored next to the transitions were not updated, so
bundles made out of the batch were committing to unknown operations.
---
 src/containers/partials.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/containers/partials.rs b/src/containers/partials.rs
index 8bdf33d..5926bb8 100644
--- a/src/containers/partials.rs
+++ b/src/containers/partials.rs
@@ -181,6 +181,11 @@ impl TransitionInfo {
             method,
         })
     }
+
+    fn set_priority(&mut self, priority: u64) {
+        self.transition.nonce = priority;
+        self.id = self.transition.id();
+    }
 }
 
 #[derive(Copy, Clone, Eq, PartialEq, Debug, Display, Error)]
@@ -244,14 +249,14 @@ impl Batch {
     }
 
     pub fn set_priority(&mut self, priority: u64) {
-        self.main.first.transition.nonce = priority;
+        self.main.first.set_priority(priority);
         if let Some(info) = &mut self.main.second {
-            info.transition.nonce = priority;
+            info.set_priority(priority);
         }
         for info in &mut self.blanks {
-            info.first.transition.nonce = priority;
+            info.first.set_priority(priority);
             if let Some(info) = &mut info.second {
-                info.transition.nonce = priority;
+                info.set_priority(priority);
             }
         }
     }
-- 
2.43.0


From c718ecfead94843744a43aabdbb7ff481d0c4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:01 +0000
Subject: [PATCH 13/32] fix: do not panic when a terminal is found more than
 once

A transition is visited once per each of its requested outputs, so asking
for a transfer to a secret seal together with another output of the same
transition was failing on the assertion.
---
 src/persistence/stock.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 3d5f19a..ee172e3 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -785,8 +785,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 for index in 0..typed_assignments.len_u16() {
                     let seal = typed_assignments.to_confidential_seals()[index as usize];
                     if secret_seal == Some(seal) {
-                        let res = terminals.insert(bundle_id, seal);
-                        assert_eq!(res, None);
+                        terminals.insert(bundle_id, seal);
                     }
                 }
             }
-- 
2.43.0


From 6e0fcc60e72da639c6372cd9530661be668e9224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:01 +0000
Subject: [PATCH 14/32] fix: skip contracts without valid state when composing
 blank transitions

A contract may have been assigned to a spent output by a transaction which
is no longer valid. There is no state to move in this case, and composing
was panicking on an empty set of blank transitions.
---
 src/persistence/stock.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index ee172e3..d467c1b 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1208,6 +1208,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 })?;
                 dicho.push(info);
             }
+            if dicho.is_empty() {
+                continue;
+            }
             blanks
                 .push(TransitionDichotomy::from_iter(dicho))
                 .map_err(|_| ComposeError::TooManyBlanks)?;
-- 
2.43.0


From 6de11587682ef8b6c2f79082cf96459604b7bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:01 +0000
Subject: [PATCH 15/32] fix: return unpaid tokens to the payer when composing

All data state of the paid type found in the spent outputs was added to the
inputs, but only the requested allocation was assigned again. The rest of
the tokens was lost.
---
 src/persistence/stock.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index d467c1b..ccd44cd 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1021,7 +1021,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         let mut main_inputs = Vec::<XOutputSeal>::new();
         let mut sum_inputs = Amount::ZERO;
         let mut sum_alt = Amount::ZERO;
-        let mut data_inputs = vec![];
+        let mut data_found = false;
         let mut data_main = true;
         let lookup_state =
             if let InvoiceState::Data(NonFungible::RGB21(allocation)) = &invoice.owned_state {
@@ -1057,11 +1057,18 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     if output.method() != method {
                         sum_alt += value;
                     }
-                } else if let PersistedState::Data(value, _) = state {
-                    if lookup_state.as_ref() == Some(&value) && output.method() != method {
-                        data_main = false;
+                } else if let PersistedState::Data(value, _) = &state {
+                    if !data_found && lookup_state.as_ref() == Some(value) {
+                        data_found = true;
+                        data_main = output.method() == method;
+                        continue;
+                    }
+                    let seal = output_for_assignment(contract_id, opout.ty)?;
+                    if output.method() == method {
+                        main_builder = main_builder.add_owned_state_raw(opout.ty, seal, state)?;
+                    } else {
+                        alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
                     }
-                    data_inputs.push(value);
                 }
             }
         }
@@ -1118,8 +1125,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
             InvoiceState::Data(data) => match data {
                 NonFungible::RGB21(allocation) => {
-                    let lookup_state = DataState::from(allocation);
-                    if !data_inputs.into_iter().any(|x| x == lookup_state) {
+                    if !data_found {
                         return Err(ComposeError::InsufficientState.into());
                     }
 
-- 
2.43.0


From fe02df22ac17464f06a8348379a81803a4de55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:01 +0000
Subject: [PATCH 16/32] fix: reject invoices for unsupported state instead of
 panicking

An invoice without an amount or a token allocation was crashing the payer.
---
 src/persistence/stock.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index ccd44cd..da08a93 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -235,6 +235,9 @@ pub enum ComposeError {
     /// smart contract state.
     InsufficientState,
 
+    /// the invoice requests state of a type which is not supported yet.
+    UnsupportedState,
+
     /// the spent UTXOs contain too many seals which can't fit the state
     /// transition input limit.
     TooManyInputs,
@@ -1147,12 +1150,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     }
                 }
             },
-            _ => {
-                todo!(
-                    "only PersistedState::Amount and PersistedState::Allocation are currently \
-                     supported"
-                )
-            }
+            _ => return Err(ComposeError::UnsupportedState.into()),
         }
 
         // 3. Prepare other transitions
-- 
2.43.0


From 2874508ecb972a4000cb0fc7a8a911695fd91a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:01 +0000
Subject: [PATCH 17/32] fix: include metadata into operations made by the
 builders

Metadata were checked and accepted by the builders but dropped on the
completion of both contract genesis and state transitions.
---
 src/interface/builder.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index eb8a01c..8a44f87 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -382,7 +382,7 @@ impl ContractBuilder {
     }
 
     fn issue_contract_raw(self, timestamp: i64) -> Result<ValidConsignment<false>, BuilderError> {
-        let (schema, iface, iimpl, global, assignments, types, asset_tags) =
+        let (schema, iface, iimpl, metadata, global, assignments, types, asset_tags) =
             self.builder.complete(None);
 
         let genesis = Genesis {
@@ -393,7 +393,7 @@ impl ContractBuilder {
             testnet: self.testnet,
             alt_layers1: self.alt_layers1,
             asset_tags,
-            metadata: empty!(),
+            metadata,
             globals: global,
             assignments,
             valencies: none!(),
@@ -800,14 +800,15 @@ impl TransitionBuilder {
     pub fn has_inputs(&self) -> bool { !self.inputs.is_empty() }
 
     pub fn complete_transition(self) -> Result<Transition, BuilderError> {
-        let (_, _, _, global, assignments, _, _) = self.builder.complete(Some(&self.inputs));
+        let (_, _, _, metadata, global, assignments, _, _) =
+            self.builder.complete(Some(&self.inputs));
 
         let transition = Transition {
             ffv: none!(),
             contract_id: self.contract_id,
             nonce: self.nonce,
             transition_type: self.transition_type,
-            metadata: empty!(),
+            metadata,
             globals: global,
             inputs: SmallOrdSet::from_iter_checked(self.inputs.into_keys()).into(),
             assignments,
@@ -1327,7 +1328,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
     fn complete(
         self,
         inputs: Option<&TinyOrdMap<Input, PersistedState>>,
-    ) -> (Schema, Iface, IfaceImpl, GlobalState, Assignments<Seal>, TypeSystem, AssetTags) {
+    ) -> (Schema, Iface, IfaceImpl, Metadata, GlobalState, Assignments<Seal>, TypeSystem, AssetTags)
+    {
         let owned_state = self.fungible.into_iter().map(|(id, vec)| {
             let mut blindings = Vec::with_capacity(vec.len());
             let mut vec = vec
@@ -1443,6 +1445,15 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             .extend(Assignments::from_inner(owned_attachments).into_inner())
             .expect("too many assignments");
 
-        (self.schema, self.iface, self.iimpl, self.global, assignments, self.types, self.asset_tags)
+        (
+            self.schema,
+            self.iface,
+            self.iimpl,
+            self.meta,
+            self.global,
+            assignments,
+            self.types,
+            self.asset_tags,
+        )
     }
 }
-- 
2.43.0


From 01054c21cbb66a86a35107c551088c91ee463a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:38 +0000
Subject: [PATCH 18/32] fix: refuse assigning two states of one type to the
 same seal

The builder was replacing the state assigned before. When seals are blinded
deterministically all coins of a contract moved by a blank transition have the
same seal, and all of them but the last one were lost.
---
 src/interface/builder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index 8a44f87..950df65 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -73,6 +73,9 @@ pub enum BuilderError {
     /// state `{0}` provided to the builder has invalid type.
     InvalidStateType(AssignmentType),
 
+    /// state `{0}` is already assigned to the same seal.
+    RepeatedSeal(AssignmentType),
+
     /// asset tag for state `{0}` must be added before any fungible state of
     /// the same type.
     AssetTagMissed(AssignmentType),
@@ -1180,6 +1183,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         let seal = seal.into();
         match self.fungible.get_mut(&type_id) {
             Some(assignments) => {
+                if assignments.contains_key(&seal) {
+                    return Err(BuilderError::RepeatedSeal(type_id));
+                }
                 assignments.insert(seal, state)?;
             }
             None => {
@@ -1244,6 +1250,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
                 Some(assignments) => {
+                    if assignments.contains_key(&seal) {
+                        return Err(BuilderError::RepeatedSeal(type_id));
+                    }
                     assignments.insert(seal, state)?;
                 }
                 None => {
@@ -1312,6 +1321,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.attachments.get_mut(&type_id) {
                 Some(assignments) => {
+                    if assignments.contains_key(&seal) {
+                        return Err(BuilderError::RepeatedSeal(type_id));
+                    }
                     assignments.insert(seal, state)?;
                 }
                 None => {
-- 
2.43.0


From 344188dd398ee68eeb9ab6f57eda786acd3dd3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:09 +0000
Subject: [PATCH 19/32] fix: keep known outputs of a concealed seal when no
 more can be added

---
 src/persistence/memory.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index c598a35..768afd1 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1525,14 +1525,9 @@ impl MemIndex {
         seal: XChain<SecretSeal>,
         opout: Opout,
     ) -> Result<(), IndexWriteError<MemError>> {
-        match self
-            .terminal_index
-            .remove(&seal)
-            .expect("can have zero elements")
-        {
-            Some(mut existing_opouts) => {
+        match self.terminal_index.get_mut(&seal) {
+            Some(existing_opouts) => {
                 existing_opouts.push(opout)?;
-                let _ = self.terminal_index.insert(seal, existing_opouts);
             }
             None => {
                 self.terminal_index.insert(seal, tiny_bset![opout])?;
-- 
2.43.0


From 0de1c62f982eb5aa68d7915c7ae41844cfb598bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:27 +0000
Subject: [PATCH 20/32] fix: report unknown operations instead of panicking on
 building a transition

A transition builder for an operation which the interface does not define
(or has no default for) caused a panic, which can be triggered by an invoice.
---
 src/persistence/stash.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index c42764e..27442d3 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -47,7 +47,8 @@ use crate::containers::{
     SigBlob, Supplement, TrustLevel, WitnessBundle,
 };
 use crate::interface::{
-    ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef, TransitionBuilder,
+    BuilderError, ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef,
+    TransitionBuilder,
 };
 use crate::persistence::{ContractIfaceError, StoreTransaction};
 use crate::{MergeReveal, MergeRevealError, SecretSeal, LIB_NAME_RGB_STD};
@@ -160,6 +161,10 @@ pub enum StashDataError {
     #[from]
     #[display(inner)]
     NoAbstractIface(ContractIfaceError),
+
+    #[from]
+    #[display(inner)]
+    Builder(BuilderError),
 }
 
 #[derive(Clone, Eq, PartialEq, Debug)]
@@ -377,7 +382,7 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         }
-        .expect("internal inconsistency");
+        .map_err(StashDataError::from)?;
 
         for (assignment_type, asset_tag) in genesis.asset_tags.iter() {
             builder = builder
-- 
2.43.0


From 96206e1c62f1d3da29807abaaf5830ca4142ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:25 +0000
Subject: [PATCH 21/32] fix: count and position global state items
 independently of the items read

The size of a global state was computed from the items not yet read, and
the reading position was lost by asking for the size. Moving to a given
depth did not move and did not select the item at this depth.
---
 src/persistence/memory.rs | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 768afd1..9473e81 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -20,12 +20,11 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::convert::Infallible;
 use std::fmt::{Debug, Formatter};
+use std::mem;
 use std::num::NonZeroU32;
-use std::{iter, mem};
 
 use aluvm::library::{Lib, LibId};
 use amplify::confinement::{
@@ -884,44 +883,24 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             src: Src<'a>,
             iter: FilteredIter<'a>,
             last: Option<(GlobalOrd, &'a DataState)>,
-            depth: u24,
             constructor: Box<dyn Fn(Src<'a>) -> FilteredIter<'a> + 'a>,
         }
-        impl<'a> Iter<'a> {
-            fn swap(&mut self) -> FilteredIter<'a> {
-                let mut iter = (self.constructor)(self.src);
-                mem::swap(&mut iter, &mut self.iter);
-                iter
-            }
-        }
         impl<'a> GlobalStateIter for Iter<'a> {
             type Data = &'a DataState;
             fn size(&mut self) -> u24 {
-                let iter = self.swap();
                 // TODO: Consuming iterator just to count items is highly inefficient, but I do
                 //       not know any other way of computing this value
-                let size = iter.count();
+                let size = (self.constructor)(self.src).count();
                 u24::try_from(size as u32).expect("iterator size must fit u24 due to `take` limit")
             }
             fn prev(&mut self) -> Option<(GlobalOrd, Self::Data)> {
                 self.last = self.iter.next();
-                self.depth += u24::ONE;
                 self.last()
             }
             fn last(&mut self) -> Option<(GlobalOrd, Self::Data)> { self.last }
             fn reset(&mut self, depth: u24) {
-                match self.depth.cmp(&depth) {
-                    Ordering::Less => {
-                        let mut iter = Box::new(iter::empty()) as FilteredIter;
-                        mem::swap(&mut self.iter, &mut iter);
-                        self.iter = Box::new(iter.skip(depth.to_usize() - depth.to_usize()))
-                    }
-                    Ordering::Equal => {}
-                    Ordering::Greater => {
-                        let iter = self.swap();
-                        self.iter = Box::new(iter.skip(depth.to_usize()));
-                    }
-                }
+                self.iter = (self.constructor)(self.src);
+                self.last = self.iter.nth(depth.to_usize());
             }
         }
         // We need this due to the limitations of the rust compiler to enforce lifetimes
@@ -959,7 +938,6 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
         let iter = Iter {
             src: state.known.as_unconfined(),
             iter: constructor(state.known.as_unconfined()),
-            depth: u24::ZERO,
             last: None,
             constructor: Box::new(constructor),
         };
-- 
2.43.0


From 6aaf841146084eb3f1106c3c6ac8e13fb7671b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:33 +0000
Subject: [PATCH 22/32] fix: do not list global state of archived witnesses

Reading global state with an item of a transition whose witness got
archived panicked.
---
 src/persistence/memory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 9473e81..3f9cbb9 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -922,11 +922,11 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
                         let ord = match out.op_witness {
                             OpWitness::Genesis => GlobalOrd::genesis(out.index),
                             OpWitness::Transition(id, ty) => {
-                                let ord = self.filter.get(&id)?;
+                                let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
                                 GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
                             }
                             OpWitness::Extension(id, ty) => {
-                                let ord = self.filter.get(&id)?;
+                                let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
                                 GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
                             }
                         };
-- 
2.43.0


From 35e16bcc07d09a5605a6821ed14b12c55ebb435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:50 +0000
Subject: [PATCH 23/32] fix: split fungible history entries by state type

---
 src/interface/contract.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/interface/contract.rs b/src/interface/contract.rs
index 2709a05..27fb1e7 100644
--- a/src/interface/contract.rs
+++ b/src/interface/contract.rs
@@ -20,7 +20,7 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use invoice::{Allocation, Amount};
 use rgb::{
@@ -134,6 +134,16 @@ fn reduce_to_ty(allocations: impl IntoIterator<Item = OwnedAllocation>) -> Assig
         .expect("empty list of allocations")
 }
 
+fn split_by_ty(
+    allocations: HashSet<OwnedAllocation>,
+) -> BTreeMap<AssignmentType, HashSet<OwnedAllocation>> {
+    let mut map = BTreeMap::<_, HashSet<_>>::new();
+    for a in allocations {
+        map.entry(a.opout.ty).or_default().insert(a);
+    }
+    map
+}
+
 impl ContractOp {
     fn non_fungible_genesis(
         our_allocations: HashSet<OwnedAllocation>,
@@ -429,7 +439,9 @@ impl<S: ContractStateRead> ContractIface<S> {
         // add allocations with no witness to the beginning of the history
         if let Some(genesis_allocations) = allocations_our_outpoint.remove(&None) {
             if T::IS_FUNGIBLE {
-                ops.push(ContractOp::fungible_genesis(genesis_allocations));
+                for (_, allocations) in split_by_ty(genesis_allocations) {
+                    ops.push(ContractOp::fungible_genesis(allocations));
+                }
             } else {
                 ops.extend(ContractOp::non_fungible_genesis(genesis_allocations));
             }
@@ -455,7 +467,9 @@ impl<S: ContractStateRead> ContractIface<S> {
                         continue;
                     }
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        for (_, allocations) in split_by_ty(ext_allocations) {
+                            ops.push(ContractOp::fungible_sent(witness_info, allocations))
+                        }
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -463,7 +477,9 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // the same as above, but the payment has no change
                 (None, Some(ext_allocations)) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        for (_, allocations) in split_by_ty(ext_allocations) {
+                            ops.push(ContractOp::fungible_sent(witness_info, allocations))
+                        }
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -472,7 +488,9 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // this is an incoming payment to us.
                 (Some(our_allocations), None) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_received(witness_info, our_allocations))
+                        for (_, allocations) in split_by_ty(our_allocations) {
+                            ops.push(ContractOp::fungible_received(witness_info, allocations))
+                        }
                     } else {
                         ops.extend(ContractOp::non_fungible_received(witness_info, our_allocations))
                     }
-- 
2.43.0


From 192a053e527291eb42e3a3f3fc42aa1ba1208060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:12:36 +0000
Subject: [PATCH 24/32] fix: keep only errors known to the parent in abstracted
 implementations

---
 src/interface/inheritance.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 7d99d3d..c556ac2 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -730,6 +730,12 @@ impl IfaceImpl {
                 .cloned()
         }));
 
+        self.errors = Confined::from_iter_checked(
+            self.errors
+                .into_iter()
+                .filter(|i| parent.errors.contains_key(&i.name)),
+        );
+
         self.iface_id = parent_id;
 
         Some(self)
-- 
2.43.0


From f181f1d65317abfb890cfe8df990c57689b25fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:12:36 +0000
Subject: [PATCH 25/32] fix: report too many extensions of an interface as such

---
 src/interface/inheritance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index c556ac2..c5839c0 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -473,7 +473,7 @@ impl Iface {
                     if self
                         .extensions
                         .insert(name, op)
-                        .map_err(|_| errors.push(ExtensionError::TransitionOverflow))
+                        .map_err(|_| errors.push(ExtensionError::ExtensionOverflow))
                         .is_err()
                     {
                         break;
-- 
2.43.0


From 1619cbcd0095953898b1858b495335e28a8c1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:20:32 +0000
Subject: [PATCH 26/32] fix: report too large amounts in the invoice builder

---
 invoice/src/builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 17f2da3..2313e34 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -92,8 +92,15 @@ impl RgbInvoiceBuilder {
         let amount = match CoinAmount::with(integer, decimals, precision) {
             Ok(amount) => amount,
             Err(_) => return Err(self),
+        };
+        if precision
+            .checked_convert(integer)
+            .and_then(|value| value.checked_add(decimals))
+            .is_none()
+        {
+            return Err(self);
         }
-        .to_amount_unchecked();
+        let amount = amount.to_amount_unchecked();
         self.0.owned_state = InvoiceState::Amount(amount);
         Ok(self)
     }
-- 
2.43.0


From a6ad8cfcb8d7cc999abce2c2c54fa189a9883b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:20:32 +0000
Subject: [PATCH 27/32] fix: keep the fraction of approximate amounts in the
 invoice builder

---
 invoice/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 2313e34..004a4f7 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -124,7 +124,7 @@ impl RgbInvoiceBuilder {
             return Err(self);
         }
         let coins = amount.floor();
-        let cents = amount - coins;
+        let cents = (amount - coins) * precision.multiplier() as f64;
         self.set_amount(coins as u64, cents as u64, precision)
     }
 
-- 
2.43.0


From 95fc865805941d1bcf059bb57561576dc9e60f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:50 +0000
Subject: [PATCH 28/32] fix: parse decimal amounts as they are printed

The text of a decimal amount omits trailing zeros of the fraction and the
whole of an empty fraction, which the parser did not expect. Fractions with
more digits than the precision are rejected.
---
 invoice/src/amount.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 9007f08..ff0006c 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -416,6 +416,9 @@ pub enum AmountParseError {
     /// invalid amount precision - {0}
     InvalidPrecision(ParseIntError),
 
+    /// amount fractional part has more digits than the amount precision
+    FractOverflow,
+
     /// invalid amount precision exceeding 18
     #[from(TryFromIntError)]
     PrecisionOverflow,
@@ -430,8 +433,8 @@ impl FromStr for CoinAmount {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let s = s.replace([' ', '_'], "");
-        let (int, remain) = s.split_once('.').unwrap_or_else(|| (&s, "0"));
-        let (fract, precision) = remain.split_once('~').unwrap_or((remain, ""));
+        let (number, precision) = s.split_once('~').unwrap_or((&s, ""));
+        let (int, fract) = number.split_once('.').unwrap_or((number, "0"));
         let precision = if precision.is_empty() {
             fract.len() as u64
         } else {
@@ -440,13 +443,15 @@ impl FromStr for CoinAmount {
                 .map_err(AmountParseError::InvalidPrecision)?
         };
         let int: u64 = int.parse().map_err(AmountParseError::InvalidInt)?;
-        let fract: u64 = fract.parse().map_err(AmountParseError::InvalidFract)?;
-        let precision = u8::try_from(precision)?;
-        Ok(CoinAmount {
-            int,
-            fract,
-            precision: Precision::try_from(precision)?,
-        })
+        let value: u64 = fract.parse().map_err(AmountParseError::InvalidFract)?;
+        let precision = Precision::try_from(u8::try_from(precision)?)?;
+        // trailing zeros of the fraction are not a part of the text
+        let fract = match (precision.decimals() as usize).checked_sub(fract.len()) {
+            Some(zeros) => value * 10u64.pow(zeros as u32),
+            None if value == 0 => 0,
+            None => return Err(AmountParseError::FractOverflow),
+        };
+        CoinAmount::with(int, fract, precision).map_err(|_| AmountParseError::FractOverflow)
     }
 }
 
-- 
2.43.0


From ce27f952ebb608f2756b9767fd57e05b49ba78cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:06:33 +0000
Subject: [PATCH 29/32] fix: keep the annotations of a supplement if a new one
 can't be added

---
 src/containers/suppl.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/containers/suppl.rs b/src/containers/suppl.rs
index 5da0ea8..b88ccb6 100644
--- a/src/containers/suppl.rs
+++ b/src/containers/suppl.rs
@@ -276,8 +276,9 @@ impl Supplement {
         name: impl Into<AnnotationName>,
         data: &impl StrictSerialize,
     ) -> Result<bool, SerializeError> {
-        let mut a = self
-            .annotations
+        // The present annotations must not be lost if the new one can't be added
+        let mut annotations = self.annotations.clone();
+        let mut a = annotations
             .remove(&sub)
             .expect("zero items allowed")
             .unwrap_or_default();
@@ -287,7 +288,8 @@ impl Supplement {
             .unwrap_or_default();
         let prev = b.insert(name.into(), data.to_strict_serialized()?)?;
         a.insert(item, b)?;
-        self.annotations.insert(sub, a)?;
+        annotations.insert(sub, a)?;
+        self.annotations = annotations;
         Ok(prev.is_some())
     }
 }
-- 
2.43.0


From 67fd12fd8cc30b8a745854b063407e753a6e7917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:25:21 +0000
Subject: [PATCH 30/32] fix: save changed stores also if they are not saved
 automatically

---
 src/persistence/memory.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 3f9cbb9..5289648 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -155,6 +155,14 @@ impl Persisting for MemStash {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    // The default implementation misses changes made when autosave is off
+    #[inline]
+    fn is_dirty(&self) -> bool {
+        self.persistence
+            .as_ref()
+            .map(|p| p.dirty || p.autosave)
+            .unwrap_or(true)
+    }
 }
 
 impl StoreTransaction for MemStash {
@@ -526,6 +534,14 @@ impl Persisting for MemState {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    // The default implementation misses changes made when autosave is off
+    #[inline]
+    fn is_dirty(&self) -> bool {
+        self.persistence
+            .as_ref()
+            .map(|p| p.dirty || p.autosave)
+            .unwrap_or(true)
+    }
 }
 
 impl StoreTransaction for MemState {
@@ -1231,6 +1247,14 @@ impl Persisting for MemIndex {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    // The default implementation misses changes made when autosave is off
+    #[inline]
+    fn is_dirty(&self) -> bool {
+        self.persistence
+            .as_ref()
+            .map(|p| p.dirty || p.autosave)
+            .unwrap_or(true)
+    }
 }
 
 impl StoreTransaction for MemIndex {
-- 
2.43.0


From 2b4a027c18c85f2d064254aad48fd7c7a9a1bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:36:46 +0000
Subject: [PATCH 31/32] fix: hash equal output assignments to the same value

---
 src/contract/assignments.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/contract/assignments.rs b/src/contract/assignments.rs
index d496752..899e9ff 100644
--- a/src/contract/assignments.rs
+++ b/src/contract/assignments.rs
@@ -22,7 +22,7 @@
 use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::fmt::Debug;
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 
 use amplify::confinement::SmallVec;
 use commit_verify::Conceal;
@@ -82,8 +82,7 @@ pub struct WitnessInfo {
     pub ord: WitnessOrd,
 }
 
-#[allow(clippy::derived_hash_with_manual_eq)]
-#[derive(Copy, Clone, Eq, Hash, Debug)]
+#[derive(Copy, Clone, Eq, Debug)]
 #[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
 #[strict_type(lib = LIB_NAME_RGB_STD)]
 #[cfg_attr(
@@ -113,6 +112,14 @@ impl<State: KnownState> PartialEq for OutputAssignment<State> {
     }
 }
 
+impl<State: KnownState> Hash for OutputAssignment<State> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // Must use only what is compared in `PartialEq`
+        self.opout.hash(state);
+        self.seal.hash(state);
+    }
+}
+
 impl<State: KnownState> PartialOrd for OutputAssignment<State> {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
 }
-- 
2.43.0


From 0c6d0cc28d08465bcb186575895f2b15ac002751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:36:46 +0000
Subject: [PATCH 32/32] fix: make order of tickers agree with their equality

---
 src/stl/specs.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/stl/specs.rs b/src/stl/specs.rs
index f51afc5..39e58c3 100644
--- a/src/stl/specs.rs
+++ b/src/stl/specs.rs
@@ -21,6 +21,7 @@
 
 #![allow(unused_braces)] // caused by rustc unable to understand strict_dumb
 
+use std::cmp::Ordering;
 use std::fmt::{self, Debug, Formatter};
 use std::hash::{Hash, Hasher};
 use std::str::FromStr;
@@ -79,7 +80,7 @@ pub struct Article(RString<Alpha, AlphaNum, 1, 32>);
 impl_ident_type!(Article);
 impl_ident_subtype!(Article);
 
-#[derive(Wrapper, Clone, Ord, PartialOrd, Eq, From)]
+#[derive(Wrapper, Clone, Eq, From)]
 #[wrapper(Deref, Display, FromStr)]
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
 #[strict_type(lib = LIB_NAME_RGB_CONTRACT, dumb = { Ticker::from("DUMB") })]
@@ -98,6 +99,18 @@ impl PartialEq for Ticker {
     }
 }
 
+impl Ord for Ticker {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.as_str()
+            .to_uppercase()
+            .cmp(&other.as_str().to_uppercase())
+    }
+}
+
+impl PartialOrd for Ticker {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
+}
+
 impl Hash for Ticker {
     fn hash<H: Hasher>(&self, state: &mut H) { self.as_str().to_uppercase().hash(state) }
 }
-- 
2.43.0

