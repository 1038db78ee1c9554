From 7b2b896b184aa70c7880e061c2f6f07a560c2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 01/17] fix: truncate keeps the integral part of negative
 values

---
 core/src/value.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/core/src/value.rs b/core/src/value.rs
index d0c1eaf..6262a98 100644
--- a/core/src/value.rs
+++ b/core/src/value.rs
@@ -160,23 +160,12 @@ impl<Rep> Value<Rep> {
     /// ```
     ///
     pub fn truncate(&self) -> Self {
-        let value = &self.value;
-
-        let value = if value < &BigDecimal::one() {
-            BigDecimal::from(0u64)
+        let value = if self.value.abs() < BigDecimal::one() {
+            BigDecimal::zero()
+        } else if self.value.fractional_digit_count() > 0 {
+            self.value.with_scale(0)
         } else {
-            let value = value.to_string();
-            let mut split = value.split('.');
-
-            if let Some(integer) = split.next() {
-                if let Ok(parsed) = integer.parse() {
-                    parsed
-                } else {
-                    BigDecimal::zero()
-                }
-            } else {
-                BigDecimal::zero()
-            }
+            self.value.clone()
         };
 
         Self::new(value)
-- 
2.43.0


From 5edf5b2d9d203c4f31019290d498f894da94d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 02/17] fix: MicroAlgo converts to Algo, not to Ether

---
 core/src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/value.rs b/core/src/value.rs
index 6262a98..cf8be8f 100644
--- a/core/src/value.rs
+++ b/core/src/value.rs
@@ -352,7 +352,7 @@ impl Value<algo::MicroAlgo> {
     }
 
     #[inline]
-    pub fn to_algo(&self) -> Value<evm::Ether> {
+    pub fn to_algo(&self) -> Value<algo::Algo> {
         Value {
             value: scale(&self.value, algo::ALGO_MICRO_SCALE_FACTOR),
             phantom_data: PhantomData,
-- 
2.43.0


From c6c6def524fa0c0c405a3bb21bc4163547956a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 03/17] fix: dropping one of several database handles must not
 shrink the files

---
 fraos/src/database.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 1860907..4c52065 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -163,6 +163,12 @@ impl Database {
 
 impl Drop for Database {
     fn drop(&mut self) {
+        // other handles may still append: shrinking the files under their
+        // memory maps would lose what they write
+        if Arc::strong_count(&self.write_lock) > 1 {
+            return;
+        }
+
         let _ = self.seqno_index.shrink_to_size();
         let _ = self.flatfile.shrink_to_size();
     }
-- 
2.43.0


From aa09d698e33199367724cca59c7d8c9d72b8f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 04/17] fix: a record number whose index offset overflows is
 past the end

---
 fraos/src/seqno.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index be3b673..b2dd440 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -88,7 +88,10 @@ impl SeqNoIndex {
         &self,
         seqno: usize,
     ) -> Result<Option<(usize, usize)>, FraosError> {
-        let offset = seqno * Self::SIZE_OF_USIZE * 2;
+        let offset = match seqno.checked_mul(Self::SIZE_OF_USIZE * 2) {
+            None => return Ok(None),
+            Some(offset) => offset,
+        };
 
         let result = self.inner.get_data(offset, |mmap| {
             let mut offset_buffer = [0u8; Self::SIZE_OF_USIZE];
-- 
2.43.0


From b0ccebc07c9b967d6f1f157c873aa121cb2a9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 05/17] fix: a sub-range starting after usize::MAX is empty

---
 fraos/src/shared_mmap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fraos/src/shared_mmap.rs b/fraos/src/shared_mmap.rs
index ab8492c..ce2ea64 100644
--- a/fraos/src/shared_mmap.rs
+++ b/fraos/src/shared_mmap.rs
@@ -43,7 +43,7 @@ impl SharedMmap {
         }
         let start = match bounds.start_bound() {
             Included(start) => *start,
-            Excluded(start) => start + 1,
+            Excluded(start) => start.saturating_add(1),
             Unbounded => 0,
         };
 
-- 
2.43.0


From 8abf717b32e983834c070c0446fbd6c5597eb785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 06/17] fix: multiverse: children of any removed block become
 roots

Removing a block that is not a root left its children out of the roots and
linked to the removed block, so removing one of them later could panic, and
the removed block could be selected as an ancestor while a handle to it was
alive.
---
 multiverse/src/lib.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7acbbe8..17452bc 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -413,17 +413,21 @@ where
             return Err(MultiverseError::NotFound);
         };
 
-        if self.roots.remove(key) {
-            // Removing the entry makes all the children "orphaned". So they
-            // need to become root themselves. Iterate through all the children
-            // and add them in the root set
-            for child in entry.children {
-                assert!(
-                    self.roots.insert(child.clone()),
-                    "Somehow a child ({child:?}) was already in the set of root entries. \
-                This should not happen in normal circumstances.",
-                );
+        self.roots.remove(key);
+
+        // Removing the entry makes all the children "orphaned". So they
+        // need to become root themselves. Iterate through all the children
+        // and add them in the root set. Their link to the removed entry is
+        // cut: a handle to it may still be alive somewhere.
+        for child in entry.children {
+            if let Some(child) = self.all.get_mut(&child) {
+                child.parent = EntryWeakRef::new();
             }
+            assert!(
+                self.roots.insert(child.clone()),
+                "Somehow a child ({child:?}) was already in the set of root entries. \
+                This should not happen in normal circumstances.",
+            );
         }
 
         // if the entry had a parent, it then may become a tip (if that
-- 
2.43.0


From e1a3891249da7cef4a4a4d63872f19fbbf31834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 07/17] fix: multiverse: iterate over every block sharing a
 block number

Draining the set for one element dropped all the other blocks with the same
block number from the iteration.
---
 multiverse/src/visitor/depth_ordered.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multiverse/src/visitor/depth_ordered.rs b/multiverse/src/visitor/depth_ordered.rs
index 330628d..df4ed05 100644
--- a/multiverse/src/visitor/depth_ordered.rs
+++ b/multiverse/src/visitor/depth_ordered.rs
@@ -32,7 +32,9 @@ where
             let (bn, set) = self.tree.iter_mut().next()?;
             let bn = *bn;
 
-            if let Some(entry_ref) = set.drain().next() {
+            // take one element only: draining the set would lose the others
+            if let Some(entry_ref) = set.iter().next().cloned() {
+                set.remove(&entry_ref);
                 let entry = self.inner.all.get(&entry_ref)?;
                 return Some(&entry.value);
             }
-- 
2.43.0


From 76ad56163b69926847a7cafaf125a7d53d54f4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 08/17] fix: random-improve: set_available_inputs makes the new
 inputs available

The indices of the former inputs were kept, so new inputs were ignored or the
selection indexed out of bounds.
---
 utxo-selection/src/algorithms/random_improve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 26a32c4..6465a4e 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -47,7 +47,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         &mut self,
         available_inputs: Vec<Self::InputUtxo>,
     ) -> anyhow::Result<()> {
-        let _available_indices = BTreeSet::from_iter(0..available_inputs.len());
+        self.available_indices = BTreeSet::from_iter(0..available_inputs.len());
         self.available_inputs = available_inputs;
         Ok(())
     }
-- 
2.43.0


From 386b81b3ac6790715deffbd68e9747d3a92f21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 09/17] fix: random-improve: the last phase covers the fee too

It stopped as soon as the inputs covered the outputs, so a selection could
succeed without covering the estimated fee.
---
 utxo-selection/src/algorithms/random_improve.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 6465a4e..0317293 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -1,4 +1,5 @@
 use crate::algorithm::InputSelectionAlgorithm;
+use crate::calculate_main_token_balance;
 use crate::common::{InputOutputSetup, InputSelectionResult};
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
@@ -131,7 +132,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // Phase 3: add extra inputs needed for fees (not covered by CIP-2)
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
-        while input_balance < output_balance {
+        while calculate_main_token_balance(&input_balance, &output_balance, &fee).in_debt() {
             if self.available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-- 
2.43.0


From 86cc5b8675e4e359eee87e4eb23850c788c63ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 10/17] fix: random-improve: count the inputs of equal outputs
 once

The inputs of equal outputs were kept under one key and then added once per
output; an output that needs no input made the selection fail.
---
 .../src/algorithms/random_improve.rs          | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 0317293..6b5a3ff 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -8,7 +8,7 @@ use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
 use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
     available_inputs: Vec<UTxODetails>,
@@ -215,14 +215,15 @@ where
         .cloned()
         .collect::<Vec<usize>>();
 
-    let mut associated_indices: BTreeMap<UTxOBuilder, Vec<usize>> = BTreeMap::new();
     let mut outputs = explicit_outputs
         .iter()
         .filter(|output| by_output(output).is_some())
         .cloned()
         .collect::<Vec<UTxOBuilder>>();
     outputs.sort_by_key(|output| by_output(output).expect("filtered above"));
-    for output in outputs.iter().rev() {
+    // by position in `outputs`: two outputs may be equal
+    let mut associated_indices: Vec<Vec<usize>> = vec![vec![]; outputs.len()];
+    for (position, output) in outputs.iter().enumerate().rev() {
         // TODO: how should we adapt this to inputs being associated when running for other assets?
         // if we do these two phases for each asset and don't take into account the other runs for other assets
         // then we over-add (and potentially fail if we don't have plenty of inputs)
@@ -251,19 +252,13 @@ where
             let input = &available_inputs[i];
             added +=
                 &by_input(input).expect("do not call on asset types that aren't in the output");
-            associated_indices
-                .entry(output.clone())
-                .or_default()
-                .push(i);
+            associated_indices[position].push(i);
         }
     }
 
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
-        for output in outputs.iter_mut() {
-            let associated = associated_indices
-                .get_mut(output)
-                .ok_or_else(|| anyhow!("Associated index by output key not found"))?;
+        for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
@@ -293,12 +288,8 @@ where
     }
 
     // after finalizing the improvement we need to actually add these results to the builder
-    for output in outputs.iter() {
-        for i in associated_indices
-            .get(output)
-            .ok_or_else(|| anyhow!("Transaction output key not found"))?
-            .iter()
-        {
+    for associated in associated_indices.iter() {
+        for i in associated.iter() {
             let input = &available_inputs[*i];
             let input_fee = &estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
-- 
2.43.0


From 90e98e66683a1f4289c95a2fd85d403c60787d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 11/17] fix: random-improve: select inputs for the requested
 assets

Assets were looked up under "policy:name" instead of their fingerprint, so no
input was selected for them, and the improvement compared main token amounts
(panicking on large ones) and could swap out what an output needs.
---
 .../src/algorithms/random_improve.rs          | 65 +++++++++++--------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 6b5a3ff..69f02e9 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -5,9 +5,7 @@ use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
 use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
-use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
-use std::cmp::Ordering;
 use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
@@ -74,18 +72,17 @@ impl InputSelectionAlgorithm for RandomImprove {
         let mut rng = rand::thread_rng();
         let mut policy_ids_to_asset_names = asset_output_balance
             .values()
-            .map(|asset: &TransactionAsset| (asset.policy_id.clone(), asset.asset_name.clone()))
-            .collect::<Vec<(PolicyId, AssetName)>>();
-        policy_ids_to_asset_names.sort_by(
-            |left: &(PolicyId, AssetName), right: &(PolicyId, AssetName)| match left.0.cmp(&right.0)
-            {
-                Ordering::Equal => left.1.cmp(&right.1),
-                x => x,
-            },
-        );
-
-        for (policy_id, asset_name) in policy_ids_to_asset_names.iter() {
-            let token = TokenId::new(format!("{policy_id}:{asset_name}"));
+            .map(|asset: &TransactionAsset| {
+                (
+                    asset.policy_id.clone(),
+                    asset.asset_name.clone(),
+                    asset.fingerprint.clone(),
+                )
+            })
+            .collect::<Vec<(PolicyId, AssetName, TokenId)>>();
+        policy_ids_to_asset_names.sort();
+
+        for (_policy_id, _asset_name, token) in policy_ids_to_asset_names.iter() {
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
                 &mut self.available_indices,
@@ -98,14 +95,14 @@ impl InputSelectionAlgorithm for RandomImprove {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 |value: &UTxOBuilder| {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 &mut rng,
@@ -185,6 +182,17 @@ impl InputSelectionAlgorithm for RandomImprove {
     }
 }
 
+fn distance(
+    left: &dcspark_core::Value<Regulated>,
+    right: &dcspark_core::Value<Regulated>,
+) -> dcspark_core::Value<Regulated> {
+    if left > right {
+        left - right
+    } else {
+        right - left
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn select_input_and_update_balances<
     Estimate: TransactionFeeEstimator<InputUtxo = UTxODetails, OutputUtxo = UTxOBuilder>,
@@ -259,26 +267,31 @@ where
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
         for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
+            let min = by_output(output)
+                .ok_or_else(|| anyhow!("Transaction output proper amount is not found"))?;
+            let mut added: dcspark_core::Value<Regulated> = associated
+                .iter()
+                .filter_map(|i| by_input(&available_inputs[*i]))
+                .sum();
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
                     .get_mut(random_index)
                     .ok_or_else(|| anyhow!("Relevant index by random index not found"))?;
+                let cur = by_input(&available_inputs[*i]).unwrap_or_default();
+                let new = by_input(&available_inputs[*j]).unwrap_or_default();
+                let swapped = &added - &cur + &new;
                 let should_improve = {
-                    let input = &available_inputs[*i];
-                    let new_input = &available_inputs[*j];
-                    let cur = input.value.raw().to_u64().unwrap();
-                    let new = new_input.value.raw().to_u64().unwrap();
-                    let min = output.value.raw().to_u64().unwrap();
-                    let ideal = 2 * min;
-                    let max = 3 * min;
-                    let move_closer =
-                        (ideal as i128 - new as i128).abs() < (ideal as i128 - cur as i128).abs();
+                    let ideal = &min + &min;
+                    let max = &ideal + &min;
+                    let move_closer = distance(&ideal, &new) < distance(&ideal, &cur);
                     let not_exceed_max = new < max;
+                    let still_covered = swapped >= min;
 
-                    move_closer && not_exceed_max
+                    move_closer && not_exceed_max && still_covered
                 };
                 if should_improve {
+                    added = swapped;
                     available_indices.insert(*i);
                     available_indices.remove(j);
                     std::mem::swap(i, j);
-- 
2.43.0


From 21522adf8f2d355b347a87f5520f1805d57c2247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 12/17] fix: single-output change: refuse a change that cannot
 pay its own fee

Its value became negative.
---
 .../src/algorithms/balance_change_single_output.rs         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utxo-selection/src/algorithms/balance_change_single_output.rs b/utxo-selection/src/algorithms/balance_change_single_output.rs
index e04a411..7f99351 100644
--- a/utxo-selection/src/algorithms/balance_change_single_output.rs
+++ b/utxo-selection/src/algorithms/balance_change_single_output.rs
@@ -110,6 +110,13 @@ impl InputSelectionAlgorithm for SingleOutputChangeBalancer {
         };
 
         let fee_for_change = estimator.fee_for_output(&change)?;
+        if change.value < fee_for_change {
+            return Err(anyhow!(
+                "there's not enough main token to pay for the change output: {} < {}",
+                change.value,
+                fee_for_change
+            ));
+        }
         change.value -= &fee_for_change;
         fee += &fee_for_change;
 
-- 
2.43.0


From 95fc24d627b711a8f3d496ef1818b909b2a33a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 13/17] fix: thermostat: take assets out of a change only when
 it is split

When the main token was too small to split, half of the asset was lost.
---
 utxo-selection/src/algorithms/thermostat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index d1f322c..3994bd0 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -420,7 +420,7 @@ impl Thermostat {
                     if asset.quantity > pivot {
                         let quantity = &mut new.assets.get_mut(0).unwrap().quantity;
                         *quantity = (quantity.clone() / 2).truncate();
-                        asset.quantity -= quantity.clone();
+                        let quantity = quantity.clone();
 
                         let fee_for_output = estimate.fee_for_output(&new)?;
                         let fee_new = (&fee_for_output / 2).truncate();
@@ -433,6 +433,7 @@ impl Thermostat {
                         // new.value + change.value + fee_for_output = original value
                         // (original valuye / 2 - fee_new) + (original value - original_value / 2 + fee_new - (fee_new + (fee_for_output - fee_new)) + fee_for_output =? original value
 
+                        asset.quantity -= quantity;
                         new.value = &value - &fee_new;
                         change.value = &change.value - &new.value - &fee_for_output;
                         self.balance += &fee_for_output;
-- 
2.43.0


From e300ae34763abc1c0053e8fc89f29a16ebd33079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 14/17] fix: fork handling source: pull from the start of the
 chain on an empty multiverse

---
 blockchain-source/src/multiverse/rollback.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 5abf862..cb140ef 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -208,11 +208,14 @@ where
             self.events
                 .pop()
                 .expect("no common ancestor between branches")
-        } else {
+        } else if let Some(from) = from {
             // if the db is empty, send a rollback event to the `from` argument, just to be
             // safe
             self.events.push(Event::InnerEvent(block));
-            Event::Rollback(from.as_ref().unwrap().clone())
+            Event::Rollback(from.clone())
+        } else {
+            // nothing to roll back to
+            Event::InnerEvent(block)
         };
 
         Ok(Some(new_event))
-- 
2.43.0


From d432ef669fec4a12f931ed70e2cf811e6d136b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 15/17] fix: fork handling source: refuse a fork that meets no
 block kept

---
 blockchain-source/src/multiverse/rollback.rs | 24 ++++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index cb140ef..d400f03 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -164,7 +164,7 @@ where
             .unwrap_or(false)
         {
             Event::InnerEvent(block)
-        } else if let Some(mut previous_branch_cursor) = previous_tip {
+        } else if let Some(previous_tip) = previous_tip {
             // algorithm:
             //
             // Traverse the previous branch backwards, building a hashset with all the hashes in
@@ -180,6 +180,7 @@ where
             //
             // Then events are popped until the stack is empty.
             let mut blocks_in_previous_branch = HashSet::new();
+            let mut previous_branch_cursor = previous_tip.clone();
 
             while let Some(entry) = self.multiverse.get(&previous_branch_cursor) {
                 blocks_in_previous_branch.insert(entry.id());
@@ -199,15 +200,18 @@ where
                 current_branch_cursor = entry.parent_id().clone();
             }
 
-            // this will always be a rollback event.
-            //
-            // if it's empty, it probably means the confirmation depth is not big enough, in which
-            // case there is nothing to do.
-            //
-            // we could return an error though.
-            self.events
-                .pop()
-                .expect("no common ancestor between branches")
+            match self.events.pop() {
+                Some(rollback @ Event::Rollback(_)) => rollback,
+                // the walk left the multiverse before it met the previous branch. It means the
+                // confirmation depth is not big enough: the blocks found are not connected to
+                // what was already sent.
+                _ => {
+                    self.events.clear();
+                    self.last.replace(previous_tip);
+
+                    return Err(anyhow!("no common ancestor between branches"));
+                }
+            }
         } else if let Some(from) = from {
             // if the db is empty, send a rollback event to the `from` argument, just to be
             // safe
-- 
2.43.0


From 4e9ecf0aaace717bb4f7bb58cecf9b3ba5fc8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 16/17] fix: thermostat estimator: the protocol magic adds to
 the size of the transaction

---
 utxo-selection/src/estimators/thermostat_estimator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/estimators/thermostat_estimator.rs b/utxo-selection/src/estimators/thermostat_estimator.rs
index e1cf5c5..9bc84db 100644
--- a/utxo-selection/src/estimators/thermostat_estimator.rs
+++ b/utxo-selection/src/estimators/thermostat_estimator.rs
@@ -91,7 +91,7 @@ impl ThermostatFeeEstimator {
 
     #[allow(unused)]
     pub fn add_protocol_magic(&mut self, protocol_magic: impl AsRef<str>) {
-        self.current_size = protocol_magic.as_ref().len() + 5;
+        self.current_size += protocol_magic.as_ref().len() + 5;
         self.cost_metadata = {
             let v = self
                 .network_info
-- 
2.43.0


From 1765d27ab7bbda0ac3d4d99b865b105db971f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 17/17] fix: utxo conversion: a token's name is its bytes, not
 their encoding

---
 cardano-utils/src/utxo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cardano-utils/src/utxo.rs b/cardano-utils/src/utxo.rs
index 62347c5..3b0d191 100644
--- a/cardano-utils/src/utxo.rs
+++ b/cardano-utils/src/utxo.rs
@@ -191,7 +191,7 @@ fn csl_value_to_tokens(
     let mut tokens = HashMap::<TokenId, TransactionAsset>::new();
     multiasset_iter(value, |policy_id, asset_name, quantity| {
         let policy_id = PolicyId::new(hex::encode(policy_id.to_bytes()));
-        let asset_name = AssetName::new(hex::encode(asset_name.to_bytes()));
+        let asset_name = AssetName::new(hex::encode(asset_name.name()));
         let fingerprint = fingerprint(&policy_id, &asset_name)
             .map_err(|err| anyhow!("Can't create fingerprint {err}"))?;
         let quantity = quantity.ok_or_else(|| anyhow!("not found asset quantity"))?;
-- 
2.43.0

