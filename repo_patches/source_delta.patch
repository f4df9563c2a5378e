From ef4d3b5baab72771682378ed90d969dd3b81809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 01/21] fix: check for duplicate input count not output count

Decoding PSBT_GLOBAL_INPUT_COUNT tested output_count, so a duplicate
input count key was accepted and a valid PSBT that lists its output count
before its input count was rejected as having a duplicate key.
---
 src/v2/map/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index adbb5c9..ae40e8d 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -216,7 +216,7 @@ impl Global {
                     },
                 PSBT_GLOBAL_INPUT_COUNT => {
                     if pair.key.key.is_empty() {
-                        if output_count.is_none() {
+                        if input_count.is_none() {
                             // TODO: Do we need to check the length for a VarInt?
                             // let vlen: usize = pair.value.len();
                             let mut decoder = Cursor::new(pair.value);
-- 
2.43.0


From 7071c6bdef9a8013ea916ab9d55e4584ee50bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 02/21] fix: do not preallocate using the untrusted
 input/output counts

The counts come straight out of the global map, a tiny PSBT claiming
2^63 inputs panicked with a capacity overflow (or aborted on allocation).
---
 src/v2/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index be34b9a..51872f6 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -630,7 +630,7 @@ impl Psbt {
 
         let inputs: Vec<Input> = {
             let inputs_len: usize = global.input_count;
-            let mut inputs: Vec<Input> = Vec::with_capacity(inputs_len);
+            let mut inputs: Vec<Input> = Vec::new();
 
             for _ in 0..inputs_len {
                 inputs.push(Input::decode(&mut d)?);
@@ -641,7 +641,7 @@ impl Psbt {
 
         let outputs: Vec<Output> = {
             let outputs_len: usize = global.output_count;
-            let mut outputs: Vec<Output> = Vec::with_capacity(outputs_len);
+            let mut outputs: Vec<Output> = Vec::new();
 
             for _ in 0..outputs_len {
                 outputs.push(Output::decode(&mut d)?)
-- 
2.43.0


From c5d930f3c59ed8f761d75133e5ca599de4e3743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 03/21] fix: use the final sequence number when sequence is
 omitted

BIP-370 says an omitted PSBT_IN_SEQUENCE means 0xffffffff. The unsigned
transaction, which is what the Signer signs, used 0 while the extracted
transaction used 0xffffffff, so signatures did not verify.
---
 src/v2/map/input.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f1d6a86..a35fdfa 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -306,8 +306,8 @@ impl Input {
         TxIn {
             previous_output: self.out_point(),
             script_sig: ScriptBuf::default(),
-            // TODO: Check this ZERO is correct.
-            sequence: self.sequence.unwrap_or(Sequence::ZERO),
+            // > If omitted, assumed to be the final sequence number (0xffffffff).
+            sequence: self.sequence.unwrap_or(Sequence::MAX),
             witness: Witness::default(),
         }
     }
-- 
2.43.0


From ca27b91ef9114527da26c6947d23f2241f22ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 04/21] fix: do not panic when printing an ExtractTxError

---
 src/v2/extract.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/v2/extract.rs b/src/v2/extract.rs
index 657793b..aadb897 100644
--- a/src/v2/extract.rs
+++ b/src/v2/extract.rs
@@ -223,12 +223,26 @@ pub enum ExtractTxError {
 }
 
 impl fmt::Display for ExtractTxError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized => write!(f, "attempted to extract tx from an unfinalized PSBT"),
+            DetermineLockTime(ref e) => write_err!(f, "failed to determine the lock time"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for ExtractTxError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use ExtractTxError::*;
+
+        match *self {
+            DetermineLockTime(ref e) => Some(e),
+            Unfinalized => None,
+        }
+    }
 }
 
 impl From<DetermineLockTimeError> for ExtractTxError {
-- 
2.43.0


From 62e3d909086dedcee1f82d6f8ca8ce485a37819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 05/21] fix: do not panic or clear modifiable flags when
 nothing was signed

If the sighash could not be calculated and there was no key for the input
the Signer panicked instead of skipping the input. If there was no key it
cleared the transaction modifiable flags even though no signature was
added.
---
 src/v2/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 51872f6..5e5e0f9 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -810,8 +810,10 @@ impl Psbt {
             used.push(pk);
         }
 
-        let ty = sighash_ty.expect("at this stage we know its ok");
-        self.clear_tx_modifiable(ty as u8);
+        // The flags only need updating if we added a signature (implies sighash was calculated ok).
+        if let (Some(ty), false) = (sighash_ty, used.is_empty()) {
+            self.clear_tx_modifiable(ty as u8);
+        }
 
         Ok(used)
     }
-- 
2.43.0


From 490cceee2575d8ff61f857fed506ec6bc383044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:18 +0000
Subject: [PATCH 06/21] fix: do not panic combining xpubs with conflicting key
 sources

If the new derivation path was shorter than, but not a suffix of, the one
already present the subtraction overflowed. Also report the error, as
documented, if the paths are equal and the fingerprints are not.
---
 src/v0/bitcoin/mod.rs | 5 +++--
 src/v2/map/global.rs  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index e99cf49..8c5770b 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -259,8 +259,9 @@ impl Psbt {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation1.len() > derivation2.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index ae40e8d..aac520b 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -432,8 +432,9 @@ impl Global {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation1.len() > derivation2.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From a746e18e14ab20482137c96f5c2b3846d04f14ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 07/21] fix: compare the xpriv's own fingerprint when getting a
 key from a set

A key source holds the fingerprint of the key the path is derived from,
which is what GetKey for Xpriv uses, the sets compared the fingerprint of
the xpriv's parent so did not find the key.
---
 src/v0/bitcoin/mod.rs | 2 +-
 src/v2/mod.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 8c5770b..7ea7f8d 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -811,7 +811,7 @@ impl GetKey for $set<Xpriv> {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
             KeyRequest::Bip32((fingerprint, path)) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
+                    if xpriv.fingerprint(secp) == fingerprint {
                         let k = xpriv.derive_priv(secp, &path)?;
                         return Ok(Some(k.to_priv()));
                     }
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 5e5e0f9..9fc1be6 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -1075,7 +1075,7 @@ impl GetKey for $set<Xpriv> {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
             KeyRequest::Bip32((fingerprint, path)) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
+                    if xpriv.fingerprint(secp) == fingerprint {
                         let k = xpriv.derive_priv(secp, &path)?;
                         return Ok(Some(k.to_priv()));
                     }
-- 
2.43.0


From 582e708c6fd904d90eda9165f25204a6d7ff06ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 08/21] fix: reject key data on the required input and output
 fields

PSBT_IN_PREVIOUS_TXID, PSBT_IN_OUTPUT_INDEX, PSBT_OUT_AMOUNT and
PSBT_OUT_SCRIPT have no key data, any present was silently dropped.
---
 src/v2/map/input.rs  | 6 ++++++
 src/v2/map/output.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index a35fdfa..df10bad 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -429,6 +429,9 @@ impl Input {
 
         match raw_key.type_value {
             PSBT_IN_PREVIOUS_TXID => {
+                if !raw_key.key.is_empty() {
+                    return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
+                }
                 if self.previous_txid != Txid::all_zeros() {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
@@ -436,6 +439,9 @@ impl Input {
                 self.previous_txid = txid;
             }
             PSBT_IN_OUTPUT_INDEX => {
+                if !raw_key.key.is_empty() {
+                    return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
+                }
                 if self.spent_output_index != u32::MAX {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index a853e72..8b15830 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -140,6 +140,9 @@ impl Output {
 
         match raw_key.type_value {
             PSBT_OUT_AMOUNT => {
+                if !raw_key.key.is_empty() {
+                    return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
+                }
                 if self.amount != Amount::ZERO {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
@@ -147,6 +150,9 @@ impl Output {
                 self.amount = amount;
             }
             PSBT_OUT_SCRIPT => {
+                if !raw_key.key.is_empty() {
+                    return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
+                }
                 if self.script_pubkey != ScriptBuf::default() {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
-- 
2.43.0


From 556402ce519fc3a8a2dce7b8ba0c4a7c3c455f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 09/21] fix: do not use sentinel values for required fields
 when decoding

A PSBT with a zero value output (e.g. OP_RETURN), or an empty scriptPubkey,
could be created and serialized but not deserialized. Also a duplicate key
was accepted if the first value was the sentinel.
---
 src/v2/map/input.rs  | 28 +++++++++++++++++++---------
 src/v2/map/output.rs | 28 +++++++++++++++++++---------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index df10bad..2fbbbee 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -393,22 +393,25 @@ impl Input {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Input`.
-        let invalid = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
-        let mut rv = Self::new(&invalid);
+        // These are placeholder values, overwritten when the required fields are decoded.
+        let placeholder = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
+        let mut rv = Self::new(&placeholder);
+
+        let mut have_txid = false;
+        let mut have_index = false;
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => rv.insert_pair(pair, &mut have_txid, &mut have_index)?,
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.previous_txid == Txid::all_zeros() {
+        if !have_txid {
             return Err(DecodeError::MissingPreviousTxid);
         }
-        if rv.spent_output_index == u32::MAX {
+        if !have_index {
             return Err(DecodeError::MissingSpentOutputIndex);
         }
 
@@ -424,7 +427,12 @@ impl Input {
         Ok(rv)
     }
 
-    fn insert_pair(&mut self, pair: raw::Pair) -> Result<(), InsertPairError> {
+    fn insert_pair(
+        &mut self,
+        pair: raw::Pair,
+        have_txid: &mut bool,
+        have_index: &mut bool,
+    ) -> Result<(), InsertPairError> {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
@@ -432,21 +440,23 @@ impl Input {
                 if !raw_key.key.is_empty() {
                     return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
                 }
-                if self.previous_txid != Txid::all_zeros() {
+                if *have_txid {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
                 let txid: Txid = Deserialize::deserialize(&raw_value)?;
                 self.previous_txid = txid;
+                *have_txid = true;
             }
             PSBT_IN_OUTPUT_INDEX => {
                 if !raw_key.key.is_empty() {
                     return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
                 }
-                if self.spent_output_index != u32::MAX {
+                if *have_index {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
                 let vout: u32 = Deserialize::deserialize(&raw_value)?;
                 self.spent_output_index = vout;
+                *have_index = true;
             }
             PSBT_IN_SEQUENCE => {
                 v2_impl_psbt_insert_pair! {
diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index 8b15830..27a0a3a 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -106,24 +106,27 @@ impl Output {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Output`.
-        let invalid = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() };
-        let mut rv = Self::new(invalid);
+        // These are placeholder values, overwritten when the required fields are decoded.
+        let placeholder = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() };
+        let mut rv = Self::new(placeholder);
+
+        let mut have_amount = false;
+        let mut have_script_pubkey = false;
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => rv.insert_pair(pair, &mut have_amount, &mut have_script_pubkey)?,
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.amount == Amount::ZERO {
+        if !have_amount {
             return Err(DecodeError::MissingValue);
         }
         // BIP-375 allows outputs to be missing scriptPubkey
         #[cfg(not(feature = "silent-payments"))]
-        if rv.script_pubkey == ScriptBuf::default() {
+        if !have_script_pubkey {
             return Err(DecodeError::MissingScriptPubkey);
         }
 
@@ -135,7 +138,12 @@ impl Output {
         Ok(rv)
     }
 
-    fn insert_pair(&mut self, pair: raw::Pair) -> Result<(), InsertPairError> {
+    fn insert_pair(
+        &mut self,
+        pair: raw::Pair,
+        have_amount: &mut bool,
+        have_script_pubkey: &mut bool,
+    ) -> Result<(), InsertPairError> {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
@@ -143,21 +151,23 @@ impl Output {
                 if !raw_key.key.is_empty() {
                     return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
                 }
-                if self.amount != Amount::ZERO {
+                if *have_amount {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
                 let amount: Amount = Deserialize::deserialize(&raw_value)?;
                 self.amount = amount;
+                *have_amount = true;
             }
             PSBT_OUT_SCRIPT => {
                 if !raw_key.key.is_empty() {
                     return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
                 }
-                if self.script_pubkey != ScriptBuf::default() {
+                if *have_script_pubkey {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
                 let script: ScriptBuf = Deserialize::deserialize(&raw_value)?;
                 self.script_pubkey = script;
+                *have_script_pubkey = true;
             }
 
             PSBT_OUT_REDEEM_SCRIPT => {
-- 
2.43.0


From 4db519267e4e487b6236531889d66396e4455dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:38 +0000
Subject: [PATCH 10/21] fix: combine the sighash type of inputs

A combined PSBT must include all the key-value pairs of both PSBTs.
---
 src/v0/bitcoin/map/input.rs | 1 +
 src/v2/map/input.rs         | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index e442ac8..0a3dcdc 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -323,6 +323,7 @@ impl Input {
         self.proprietary.extend(other.proprietary);
         self.unknown.extend(other.unknown);
 
+        combine!(sighash_type, self, other);
         combine!(redeem_script, self, other);
         combine!(witness_script, self, other);
         combine!(final_script_sig, self, other);
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 2fbbbee..f71003a 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -645,7 +645,7 @@ impl Input {
         }
 
         v2_combine_map!(partial_sigs, self, other);
-        // TODO: Why do we not combine sighash_type?
+        v2_combine_option!(sighash_type, self, other);
         v2_combine_option!(redeem_script, self, other);
         v2_combine_option!(witness_script, self, other);
         v2_combine_map!(bip32_derivations, self, other);
-- 
2.43.0


From f57818a5618501188eaf43d9bb6fbe72aeba6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 11/21] fix: keep the non-witness UTXO when combining in a
 witness UTXO

BIP-174 requires all the key-value pairs of both PSBTs to be in the
result. If one had only the non-witness UTXO and the other a witness UTXO
the former was dropped, but only when combined in that order.
---
 src/v0/bitcoin/map/input.rs | 6 +-----
 src/v2/map/input.rs         | 7 +------
 2 files changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index 0a3dcdc..a5f81ce 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -305,11 +305,7 @@ impl Input {
     /// Combines this [`Input`] with `other` `Input` (as described by BIP 174).
     pub fn combine(&mut self, other: Self) {
         combine!(non_witness_utxo, self, other);
-
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
+        combine!(witness_utxo, self, other);
 
         self.partial_sigs.extend(other.partial_sigs);
         self.bip32_derivation.extend(other.bip32_derivation);
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f71003a..1da70d3 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -637,12 +637,7 @@ impl Input {
         v2_combine_option!(min_time, self, other);
         v2_combine_option!(min_height, self, other);
         v2_combine_option!(non_witness_utxo, self, other);
-
-        // TODO: Copied from v0, confirm this is correct.
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
+        v2_combine_option!(witness_utxo, self, other);
 
         v2_combine_map!(partial_sigs, self, other);
         v2_combine_option!(sighash_type, self, other);
-- 
2.43.0


From 515140a1b5ae23a49f179638de956be50ed1eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:30 +0000
Subject: [PATCH 12/21] fix: error when combining PSBTs with different input or
 output counts

The maps were zipped together so any extra inputs/outputs of the other
PSBT were silently dropped.
---
 src/v2/map/global.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index aac520b..fa1fb99 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -405,6 +405,21 @@ impl Global {
             });
         }
 
+        // PSBTs with a different number of inputs or outputs are not for the same transaction.
+        if self.input_count != other.input_count {
+            return Err(CombineError::InputCountMismatch {
+                this: self.input_count,
+                that: other.input_count,
+            });
+        }
+
+        if self.output_count != other.output_count {
+            return Err(CombineError::OutputCountMismatch {
+                this: self.output_count,
+                that: other.output_count,
+            });
+        }
+
         // BIP 174: The Combiner must remove any duplicate key-value pairs, in accordance with
         //          the specification. It can pick arbitrarily when conflicts occur.
 
@@ -745,6 +760,20 @@ pub enum CombineError {
         /// Into a PBST with `that` tx version.
         that: transaction::Version,
     },
+    /// The input counts are not the same.
+    InputCountMismatch {
+        /// Attempted to combine a PBST with `this` input count.
+        this: usize,
+        /// Into a PBST with `that` input count.
+        that: usize,
+    },
+    /// The output counts are not the same.
+    OutputCountMismatch {
+        /// Attempted to combine a PBST with `this` output count.
+        this: usize,
+        /// Into a PBST with `that` output count.
+        that: usize,
+    },
     /// Xpubs have inconsistent key sources.
     InconsistentKeySources(InconsistentKeySourcesError),
 }
@@ -760,6 +789,12 @@ impl fmt::Display for CombineError {
             TxVersionMismatch { ref this, ref that } => {
                 write!(f, "combine two PSBTs with different tx versions: {:?} {:?}", this, that)
             }
+            InputCountMismatch { this, that } => {
+                write!(f, "combine two PSBTs with different input counts: {} {}", this, that)
+            }
+            OutputCountMismatch { this, that } => {
+                write!(f, "combine two PSBTs with different output counts: {} {}", this, that)
+            }
             InconsistentKeySources(ref e) => {
                 write_err!(f, "combine with inconsistent key sources"; e)
             }
@@ -774,7 +809,10 @@ impl std::error::Error for CombineError {
 
         match *self {
             InconsistentKeySources(ref e) => Some(e),
-            VersionMismatch { .. } | TxVersionMismatch { .. } => None,
+            VersionMismatch { .. }
+            | TxVersionMismatch { .. }
+            | InputCountMismatch { .. }
+            | OutputCountMismatch { .. } => None,
         }
     }
 }
-- 
2.43.0


From bc0809a3a3e0e956431ffd4d3a14214505c67e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 13/21] fix: combine the fallback lock time and modifiable
 flags

Depending on the order PSBTs were combined in these were lost. In
particular combining a signed PSBT into an unsigned one resulted in a PSBT
with signatures that was still marked as modifiable.
---
 src/v2/map/global.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index fa1fb99..b3ee435 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -459,6 +459,13 @@ impl Global {
             }
         }
 
+        v2_combine_option!(fallback_lock_time, self, other);
+
+        // If either PSBT has a signature that restricts modification so does the combined PSBT.
+        let modifiable = INPUTS_MODIFIABLE | OUTPUTS_MODIFIABLE;
+        self.tx_modifiable_flags = (self.tx_modifiable_flags & other.tx_modifiable_flags)
+            | ((self.tx_modifiable_flags | other.tx_modifiable_flags) & !modifiable);
+
         #[cfg(feature = "silent-payments")]
         v2_combine_map!(sp_ecdh_shares, self, other);
         #[cfg(feature = "silent-payments")]
-- 
2.43.0


From 8c7cc0f9d478e9a19b394d12d4c9df80512b542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 14/21] fix: keep the sequence and lock times when finalizing
 an input

These fields are used to construct the transaction, if they are cleared
the extracted transaction is not the one that was signed.
---
 src/v2/map/input.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 1da70d3..85aeafc 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -223,14 +223,16 @@ impl Input {
             non_witness_utxo: self.non_witness_utxo.clone(),
             witness_utxo: self.witness_utxo.clone(),
 
+            // The extracted transaction must match the one that was signed.
+            sequence: self.sequence,
+            min_time: self.min_time,
+            min_height: self.min_height,
+
             // Set below.
             final_script_sig: None,
             final_script_witness: None,
 
             // Clear everything else.
-            sequence: None,
-            min_time: None,
-            min_height: None,
             partial_sigs: BTreeMap::new(),
             sighash_type: None,
             redeem_script: None,
-- 
2.43.0


From 6b4f1c692f4a53c39054111133af27ac285654ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 15/21] fix: keep unknown and proprietary fields when
 finalizing an input

BIP-174 requires the finalizer to keep the UTXO and unknown fields.
---
 src/v0/miniscript/finalizer.rs | 2 ++
 src/v2/map/input.rs            | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 92d07bc..50b8831 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -445,6 +445,8 @@ pub(super) fn finalize_input<C: secp256k1::Verification>(
         let input = &mut psbt.inputs[index];
         input.non_witness_utxo = original.non_witness_utxo;
         input.witness_utxo = original.witness_utxo;
+        input.proprietary = original.proprietary;
+        input.unknown = original.unknown;
         input.final_script_sig = if script_sig.is_empty() {
             None
         } else {
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 85aeafc..351f88a 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -223,6 +223,10 @@ impl Input {
             non_witness_utxo: self.non_witness_utxo.clone(),
             witness_utxo: self.witness_utxo.clone(),
 
+            // > All other data except the UTXO and unknown fields [..] should be cleared
+            proprietaries: self.proprietaries.clone(),
+            unknowns: self.unknowns.clone(),
+
             // The extracted transaction must match the one that was signed.
             sequence: self.sequence,
             min_time: self.min_time,
@@ -252,8 +256,6 @@ impl Input {
             sp_ecdh_shares: BTreeMap::new(),
             #[cfg(feature = "silent-payments")]
             sp_dleq_proofs: BTreeMap::new(),
-            proprietaries: BTreeMap::new(),
-            unknowns: BTreeMap::new(),
         };
 
         // TODO: These errors should only trigger if there are bugs in this crate or miniscript.
-- 
2.43.0


From 0d0c2084bf6c00e58a66033593d65c770e475636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 16/21] fix: set the final script witness when finalizing a
 legacy input

A finalized input must have both final fields set (the witness is empty
for legacy inputs), without it the interpreter check that follows panicked.

Also remove the debugging output.
---
 src/v2/map/input.rs           | 1 +
 src/v2/miniscript/finalize.rs | 2 --
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 351f88a..10b7b31 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -269,6 +269,7 @@ impl Input {
         } else {
             // TODO: Any checks should do here?
             ret.final_script_sig = Some(final_script_sig);
+            ret.final_script_witness = Some(final_script_witness);
         }
 
         Ok(ret)
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index f7c60e3..9c0779c 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -126,8 +126,6 @@ impl Finalizer {
         };
 
         let witness = Witness::from_slice(&witness);
-        println!("{:#?}", script_sig);
-        println!("{:#?}", witness);
         Ok((script_sig, witness))
     }
 
-- 
2.43.0


From 5cd1a7f96e278d2119be3cbcd3103abeac211bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 17/21] fix: do not panic if the v0 prevout index is not in the
 non-witness UTXO

Nothing guarantees that the non-witness UTXO of a PSBT received from
another party has as many outputs as the unsigned transaction claims,
return an error from signing, finalizing, and extracting instead.
---
 src/v0/bitcoin/mod.rs          | 4 ++--
 src/v0/miniscript/finalizer.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 7ea7f8d..35f205b 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -193,7 +193,7 @@ impl Psbt {
     ) -> Result<Transaction, ExtractTxError> {
         let fee = match self.fee() {
             Ok(fee) => fee,
-            Err(Error::MissingUtxo) =>
+            Err(Error::MissingUtxo) | Err(Error::PsbtUtxoOutOfbounds) =>
                 return Err(ExtractTxError::MissingInputValue { tx: self.internal_extract_tx() }),
             Err(Error::NegativeFee) => return Err(ExtractTxError::SendingTooMuch { psbt: self }),
             Err(Error::FeeOverflow) =>
@@ -623,7 +623,7 @@ impl Psbt {
             witness_utxo
         } else if let Some(non_witness_utxo) = &input.non_witness_utxo {
             let vout = self.unsigned_tx.input[input_index].previous_output.vout;
-            &non_witness_utxo.output[vout as usize]
+            non_witness_utxo.output.get(vout as usize).ok_or(SignError::MissingSpendUtxo)?
         } else {
             return Err(SignError::MissingSpendUtxo);
         };
diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 50b8831..ff8aac5 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -116,7 +116,7 @@ pub(super) fn get_utxo(psbt: &Psbt, index: usize) -> Result<&bitcoin::TxOut, Inp
         witness_utxo
     } else if let Some(ref non_witness_utxo) = inp.non_witness_utxo {
         let vout = psbt.unsigned_tx.input[index].previous_output.vout;
-        &non_witness_utxo.output[vout as usize]
+        non_witness_utxo.output.get(vout as usize).ok_or(InputError::MissingUtxo)?
     } else {
         return Err(InputError::MissingUtxo);
     };
-- 
2.43.0


From b053a1d63c8d6d0911415489c1c5e003175da33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 18/21] fix: check the witness script against the redeem script
 for p2sh-p2wsh

The p2wsh script of the redeem script was compared with the p2sh
scriptPubkey so valid PSBTs always failed the signer checks.
---
 src/v0/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 070f905..7d8e0d0 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -95,8 +95,8 @@ impl Psbt {
                             }
                         } else if script_pubkey.is_p2sh() {
                             if let Some(ref redeem_script) = input.redeem_script {
-                                if ScriptBuf::new_p2wsh(&redeem_script.wscript_hash())
-                                    != *script_pubkey
+                                if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
+                                    != *redeem_script
                                 {
                                     return Err(SignerChecksError::WitnessScriptMismatchShWsh);
                                 }
-- 
2.43.0


From 0078088460385ab93b7b9a3c7d1cd713efda937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 19/21] fix: use the non-witness UTXO in signer checks if there
 is no witness UTXO

A p2sh input with a redeem script must use the non-witness UTXO, it always
failed the signer checks.
---
 src/v0/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 7d8e0d0..080df02 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -72,20 +72,20 @@ impl Psbt {
             }
 
             if let Some(ref redeem_script) = input.redeem_script {
-                match input.witness_utxo {
-                    Some(ref tx_out) => {
+                match self.spend_utxo(i) {
+                    Ok(tx_out) => {
                         let script_pubkey = ScriptBuf::new_p2sh(&redeem_script.script_hash());
                         if tx_out.script_pubkey != script_pubkey {
                             return Err(SignerChecksError::RedeemScriptMismatch);
                         }
                     }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                    Err(_) => return Err(SignerChecksError::MissingTxOut),
                 }
             }
 
             if let Some(ref witness_script) = input.witness_script {
-                match input.witness_utxo {
-                    Some(ref utxo) => {
+                match self.spend_utxo(i) {
+                    Ok(utxo) => {
                         let script_pubkey = &utxo.script_pubkey;
                         if script_pubkey.is_p2wsh() {
                             if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
@@ -105,7 +105,7 @@ impl Psbt {
                             // BIP does not specifically say there should not be a witness script here?
                         }
                     }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                    Err(_) => return Err(SignerChecksError::MissingTxOut),
                 }
             }
 
@@ -130,7 +130,7 @@ pub enum SignerChecksError {
     WitnessAndNonWitnessUtxo,
     /// Redeem script hash did not match the hash in the script_pubkey.
     RedeemScriptMismatch,
-    /// Missing witness_utxo.
+    /// Missing witness_utxo and non_witness_utxo.
     MissingTxOut,
     /// Native segwit p2wsh script_pubkey did not match witness script hash.
     WitnessScriptMismatchWsh,
@@ -149,7 +149,7 @@ impl fmt::Display for SignerChecksError {
             WitnessAndNonWitnessUtxo => write!(f, "input has both witness and non-witness utxos"),
             RedeemScriptMismatch =>
                 write!(f, "redeem script hash did not match the hash in the script_pubkey"),
-            MissingTxOut => write!(f, "missing witness_utxo"),
+            MissingTxOut => write!(f, "missing witness_utxo and non_witness_utxo"),
             WitnessScriptMismatchWsh =>
                 write!(f, "native segwit p2wsh script_pubkey did not match witness script hash"),
             WitnessScriptMismatchShWsh =>
-- 
2.43.0


From f37d3f64875a42bed93803cacbb44ff1e09b5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 20/21] fix: displaying a v2 DeserializeError panicked
 (todo!())

---
 src/v2/error.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/v2/error.rs b/src/v2/error.rs
index 60d6533..3999612 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -34,12 +34,32 @@ pub enum DeserializeError {
 }
 
 impl fmt::Display for DeserializeError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic => f.write_str("invalid magic"),
+            InvalidSeparator => f.write_str("invalid separator"),
+            NoMorePairs => f.write_str("no more key-value pairs for this psbt map"),
+            DecodeGlobal(ref e) => write_err!(f, "global map decode error"; e),
+            DecodeInput(ref e) => write_err!(f, "input map decode error"; e),
+            DecodeOutput(ref e) => write_err!(f, "output map decode error"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for DeserializeError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+            DecodeGlobal(ref e) => Some(e),
+            DecodeInput(ref e) => Some(e),
+            DecodeOutput(ref e) => Some(e),
+        }
+    }
 }
 
 impl From<global::DecodeError> for DeserializeError {
-- 
2.43.0


From 8807d6dca9b6db8ce9616081a6977d3535db4e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 21/21] fix: reject uncompressed keys in silent payment fields

`CompressedPublicKey::from_slice` accepts the 65 byte uncompressed encoding
too, so scan keys and ECDH shares that are not 33 bytes were accepted (and
then serialized differently).
---
 src/macros.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index 6e5cc88..e323977 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -137,8 +137,15 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.is_empty() {
             return Err(InsertPairError::InvalidKeyDataEmpty($raw_key).into());
         }
+        // `from_slice` also accepts 65 byte uncompressed keys.
+        if $raw_key.key.len() != 33 {
+            return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
+        }
         let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
             .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
+        if $raw_value.len() != 33 {
+            return Err(InsertPairError::ValueWrongLength($raw_value.len(), 33).into());
+        }
         let value = bitcoin::CompressedPublicKey::from_slice(&$raw_value)
             .map_err(|_| InsertPairError::ValueWrongLength($raw_value.len(), 33))?;
         match $map.entry(scan_key) {
@@ -154,6 +161,10 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.is_empty() {
             return Err(InsertPairError::InvalidKeyDataEmpty($raw_key).into());
         }
+        // `from_slice` also accepts 65 byte uncompressed keys.
+        if $raw_key.key.len() != 33 {
+            return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
+        }
         let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
             .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
         let value = $crate::v2::dleq::DleqProof::try_from($raw_value.as_slice())
-- 
2.43.0

