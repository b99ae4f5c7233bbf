From 89ebbfa9ba3ac51a5c87727b9a9402e41cce0157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:57 +0000
Subject: [PATCH 01/19] fix: carry the merged node, not the leaf, when adding
 accumulator leaves

---
 sia/src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/merkle.rs b/sia/src/merkle.rs
index 1b1d4f5..3dc8d90 100644
--- a/sia/src/merkle.rs
+++ b/sia/src/merkle.rs
@@ -31,7 +31,7 @@ impl Accumulator {
         let mut i = 0;
         let mut node = *h;
         while self.has_tree_at_height(i) {
-            node = sum_node(&self.params, &self.trees[i], h);
+            node = sum_node(&self.params, &self.trees[i], &node);
             i += 1;
         }
         self.trees[i] = node;
-- 
2.43.0


From 0769c3e8f45fceaec17c5a2c2508665a7336feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:57 +0000
Subject: [PATCH 02/19] fix: hash every segment of the sector, each once

---
 sia/src/rhp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/rhp.rs b/sia/src/rhp.rs
index bfaf2bd..a6a3d99 100644
--- a/sia/src/rhp.rs
+++ b/sia/src/rhp.rs
@@ -22,8 +22,8 @@ pub fn sector_root(sector: &[u8]) -> Hash256 {
             let mut inputs = [[0u8; SEGMENT_SIZE + 1]; 4];
             for (j, input) in inputs.iter_mut().enumerate() {
                 input[0] = LEAF_HASH_PREFIX[0];
-                input[1..]
-                    .copy_from_slice(&sector[SEGMENT_SIZE * (i + j)..SEGMENT_SIZE * (i + j + 1)]);
+                let k = 4 * i + j;
+                input[1..].copy_from_slice(&sector[SEGMENT_SIZE * k..SEGMENT_SIZE * (k + 1)]);
             }
 
             // hash them
-- 
2.43.0


From 70d709c6efc765fc49280ce86b09568adcda2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:57 +0000
Subject: [PATCH 03/19] fix: return an error when decoding an out-of-range
 timestamp

---
 sia/src/encoding/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index db53b28..9fe3b94 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -67,7 +67,7 @@ impl SiaEncodable for OffsetDateTime {
 impl SiaDecodable for OffsetDateTime {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let timestamp = i64::decode(r)?;
-        Ok(OffsetDateTime::from_unix_timestamp(timestamp).unwrap())
+        OffsetDateTime::from_unix_timestamp(timestamp).map_err(|_| Error::InvalidTimestamp)
     }
 }
 
-- 
2.43.0


From d2ac0d76eb39ec95f1a0898e9a2eff11ad1ae414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:57 +0000
Subject: [PATCH 04/19] fix: do not preallocate from an untrusted length prefix

---
 sia/src/encoding/v1.rs | 2 +-
 sia/src/encoding/v2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index 59ece0d..fe8e69e 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -116,7 +116,7 @@ where
 {
     fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode_v1(r)?;
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::new(); // len is untrusted, do not preallocate
         for _ in 0..len {
             vec.push(T::decode_v1(r)?);
         }
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 9fe3b94..e94b148 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -162,7 +162,7 @@ where
 {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode(r)?;
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::new(); // len is untrusted, do not preallocate
         for _ in 0..len {
             vec.push(T::decode(r)?);
         }
-- 
2.43.0


From ae7d003c64cadd9d95658e745751a487bf4c31de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:57 +0000
Subject: [PATCH 05/19] fix: reject integers that do not fit the decoded type

---
 sia/src/encoding/v1.rs | 7 ++++++-
 sia/src/encoding/v2.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index fe8e69e..3c69c31 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -88,7 +88,12 @@ macro_rules! impl_sia_numeric {
                 fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let v = u64::from_le_bytes(buf);
+                    // reject values that do not fit instead of truncating them
+                    if (v as Self) as u64 != v {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(v as Self)
                 }
             }
         )*
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index e94b148..a9dc50d 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -134,7 +134,12 @@ macro_rules! impl_sia_numeric {
                 fn decode<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let v = u64::from_le_bytes(buf);
+                    // reject values that do not fit instead of truncating them
+                    if (v as Self) as u64 != v {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(v as Self)
                 }
             }
         )*
-- 
2.43.0


From 0070d83e1f19cf4f796bdddcd36026174ab97c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:57 +0000
Subject: [PATCH 06/19] fix: verification fails, instead of panicking, for an
 invalid public key

---
 sia/src/signing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 5a41db7..12aa564 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -48,7 +48,9 @@ impl PublicKey {
     }
 
     pub fn verify(&self, sig_hash: &Hash256, signature: &Signature) -> bool {
-        let pk = VerifyingKey::from_bytes(&self.0).unwrap();
+        let Ok(pk) = VerifyingKey::from_bytes(&self.0) else {
+            return false; // not a valid curve point
+        };
         pk.verify(
             sig_hash.as_ref(),
             &ED25519Signature::from_bytes(signature.as_ref()),
-- 
2.43.0


From 4e76a42411fac7acc12b9f84c1b9edb5382492bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:21 +0000
Subject: [PATCH 07/19] fix: parsing an overflowing or over-precise amount is
 an error, not an overflow

---
 sia/src/types/currency.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index d9be540..c91764e 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -200,11 +200,21 @@ impl Currency {
         };
 
         let frac_digits = parts.get(1).map_or(0, |frac| frac.len() as i32);
-        let integer = integer_part * 10u128.pow((SIACOIN_PRECISION_I32 + scaling_factor) as u32);
-        let fraction = fraction_part
-            * 10u128.pow((SIACOIN_PRECISION_I32 - frac_digits + scaling_factor) as u32);
-
-        Ok(Currency::new(integer + fraction))
+        let precision = SIACOIN_PRECISION_I32 + scaling_factor;
+        if frac_digits > precision {
+            return Err(CurrencyParseError::InvalidFormat(
+                "too many fractional digits".to_string(),
+            ));
+        }
+        integer_part
+            .checked_mul(10u128.pow(precision as u32))
+            .and_then(|integer| {
+                let fraction =
+                    fraction_part.checked_mul(10u128.pow((precision - frac_digits) as u32))?;
+                integer.checked_add(fraction)
+            })
+            .map(Currency::new)
+            .ok_or_else(|| CurrencyParseError::InvalidFormat("value too large".to_string()))
     }
 
     /// Converts a given amount of Siacoins into the `Currency` type.
-- 
2.43.0


From 39e554f31a77005f79c28ba93bc54169e9ba9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:21 +0000
Subject: [PATCH 08/19] fix: the child of the pre-genesis index is height zero

---
 sia/src/types/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index de8e37f..25094f3 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -154,7 +154,8 @@ pub struct ChainIndex {
 
 impl ChainIndex {
     pub fn child_height(&self) -> u64 {
-        self.height + 1
+        // the pre-genesis state has height u64::MAX, its child is block 0
+        self.height.wrapping_add(1)
     }
 }
 
-- 
2.43.0


From d5fa0ab0ece75974669a778211042f19ce979bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:21 +0000
Subject: [PATCH 09/19] fix: propagate write errors of the state's timestamps
 instead of panicking

---
 sia/src/consensus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 537736b..f195f38 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -383,7 +383,7 @@ impl SiaEncodable for State {
         self.prev_timestamps
             .iter()
             .take(timestamps_count)
-            .for_each(|ts| ts.encode(w).unwrap());
+            .try_for_each(|ts| ts.encode(w))?;
         self.depth.encode(w)?;
         self.child_target.encode(w)?;
         self.siafund_pool.encode(w)?;
-- 
2.43.0


From e425b4b8dda7ce1d286e98e87e7b3acdb20e7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:21 +0000
Subject: [PATCH 10/19] fix: pay the Foundation subsidy for every block of the
 month, to the current address

---
 sia/src/consensus.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index f195f38..6c18c9d 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -494,14 +494,14 @@ impl ChainState {
             return None;
         }
 
-        let subsidy_per_block = Currency::siacoins(30000);
+        let monthly_subsidy = Currency::siacoins(30000) * Currency::new(blocks_per_month as u128);
         Some(SiacoinOutput {
             value: if self.child_height() == self.network.hardfork_foundation.height {
-                subsidy_per_block * Currency::new(12)
+                monthly_subsidy * Currency::new(12)
             } else {
-                subsidy_per_block
+                monthly_subsidy
             },
-            address: self.network.hardfork_foundation.primary_address.clone(),
+            address: self.state.foundation_primary_address.clone(),
         })
     }
 
-- 
2.43.0


From 97872218f755ff49bbaca9ca25c249cb7d6a90bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:21 +0000
Subject: [PATCH 11/19] fix: the block reward is the minimum at heights where
 the reduction overflows

---
 sia/src/consensus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 6c18c9d..373ce58 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -450,10 +450,9 @@ impl ChainState {
 
     /// block_reward returns the reward for mining a child block
     pub fn block_reward(&self) -> Currency {
-        let reward = self
-            .network
-            .initial_coinbase
-            .checked_sub(Currency::siacoins(self.child_height()));
+        let reward = Currency::siacoins(1)
+            .checked_mul(Currency::new(self.child_height() as u128))
+            .and_then(|reduction| self.network.initial_coinbase.checked_sub(reduction));
 
         match reward {
             Some(reward) if reward >= self.network.minimum_coinbase => reward,
-- 
2.43.0


From 98d345d990a7fc05202d86ff6ec2f56c7c1fcd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:21 +0000
Subject: [PATCH 12/19] fix: domain-separate the v2 transaction id

---
 sia/src/types/v2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sia/src/types/v2.rs b/sia/src/types/v2.rs
index 4405adb..a6bf436 100644
--- a/sia/src/types/v2.rs
+++ b/sia/src/types/v2.rs
@@ -513,6 +513,7 @@ impl Transaction {
 
     pub fn id(&self) -> TransactionID {
         let mut state = Params::new().hash_length(32).to_state();
+        state.update("sia/id/transaction|".as_bytes());
         self.encode_semantics(&mut state).unwrap();
         state.finalize().into()
     }
-- 
2.43.0


From 68253728f9167ac875b364f09cf8fb735c2dd4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:21 +0000
Subject: [PATCH 13/19] fix: use the protocol's distinguishers for v2 contract
 output and renewal ids

---
 sia/src/types/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index 25094f3..0f3cb3f 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -97,8 +97,8 @@ impl_hash_id!(FileContractID);
 
 impl FileContractID {
     const PROOF_OUTPUT_ID_PREFIX: Specifier = specifier!("storage proof");
-    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "id/v2filecontractoutput";
-    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "id/v2filecontractrenewal";
+    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "sia/id/v2filecontractoutput|";
+    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "sia/id/v2filecontractrenewal|";
 
     fn derive_proof_output_id<T: From<blake2b_simd::Hash>>(&self, valid: bool, i: usize) -> T {
         let mut state = Params::new().hash_length(32).to_state();
-- 
2.43.0


From ce5a684d5a22d1a3af3d22eb9b100a3cd308808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:59 +0000
Subject: [PATCH 14/19] fix: serializing an unlock key without a text form is
 an error, not a panic

---
 sia/src/types/v1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index fb82e24..0af78db 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -37,7 +37,11 @@ pub struct UnlockKey {
 
 impl Serialize for UnlockKey {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        String::serialize(&self.to_string(), serializer)
+        use fmt::Write;
+        // an algorithm that is not UTF-8 has no text form
+        let mut s = String::new();
+        write!(s, "{}", self).map_err(serde::ser::Error::custom)?;
+        serializer.serialize_str(&s)
     }
 }
 
-- 
2.43.0


From 2b877c84c53a3c9e4f0dca8ce890f1ec5ce72994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:59 +0000
Subject: [PATCH 15/19] fix: parse unlock keys whose algorithm contains a colon

---
 sia/src/types/v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index 0af78db..61290a0 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -70,7 +70,7 @@ impl UnlockKey {
     /// Parses an UnlockKey from a string
     /// The string should be in the format "algorithm:public_key"
     pub fn parse_string(s: &str) -> Result<Self, HexParseError> {
-        let (prefix, key_str) = s.split_once(':').ok_or(HexParseError::MissingPrefix)?;
+        let (prefix, key_str) = s.rsplit_once(':').ok_or(HexParseError::MissingPrefix)?;
         Ok(UnlockKey {
             algorithm: Specifier::from(prefix),
             key: hex::decode(key_str).map_err(HexParseError::HexError)?,
-- 
2.43.0


From 69ea7c723c2258e188676c464b4c485e0fc3af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:26 +0000
Subject: [PATCH 16/19] fix: bound the number of policies, and so the
 recursion, when decoding

---
 sia/src/types/spendpolicy.rs | 40 ++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 3b36001..8c493c9 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -21,6 +21,9 @@ const POLICY_OPAQUE_PREFIX: u8 = 6;
 #[deprecated]
 const POLICY_UNLOCK_CONDITIONS_PREFIX: u8 = 7;
 
+// the maximum number of policies in a decoded policy, to bound the recursion
+const MAX_POLICIES: usize = 1024;
+
 const POLICY_ABOVE_STR: &str = "above";
 const POLICY_AFTER_STR: &str = "after";
 const POLICY_PUBLIC_KEY_STR: &str = "pk";
@@ -346,8 +349,32 @@ impl SiaEncodable for SpendPolicy {
 impl SiaDecodable for SpendPolicy {
     fn decode<R: std::io::Read>(r: &mut R) -> encoding::Result<Self> {
         // helper to recursively decode policies
-        fn decode_policy<R: std::io::Read>(r: &mut R) -> encoding::Result<SpendPolicy> {
+        fn decode_policy<R: std::io::Read>(
+            r: &mut R,
+            total: &mut usize,
+        ) -> encoding::Result<SpendPolicy> {
             let policy_type = u8::decode(r)?;
+            if policy_type != POLICY_THRESHOLD_PREFIX {
+                return decode_leaf(policy_type, r);
+            }
+            let of: u8 = u8::decode(r)?;
+            let n = u8::decode(r)?;
+            *total += n as usize;
+            if *total > MAX_POLICIES {
+                return Err(encoding::Error::Custom("policy is too complex".to_string()));
+            }
+            let mut policies = Vec::with_capacity(n as usize);
+            while policies.len() < n as usize {
+                policies.push(decode_policy(r, total)?);
+            }
+            Ok(SpendPolicy::Threshold(of, policies))
+        }
+        // helper to decode policies without sub-policies, kept out of the
+        // recursive helper to bound its stack usage
+        fn decode_leaf<R: std::io::Read>(
+            policy_type: u8,
+            r: &mut R,
+        ) -> encoding::Result<SpendPolicy> {
             match policy_type {
                 POLICY_ABOVE_PREFIX => Ok(SpendPolicy::Above(u64::decode(r)?)),
                 POLICY_AFTER_PREFIX => {
@@ -360,15 +387,6 @@ impl SiaDecodable for SpendPolicy {
                 }
                 POLICY_PUBLIC_KEY_PREFIX => Ok(SpendPolicy::PublicKey(PublicKey::decode(r)?)),
                 POLICY_HASH_PREFIX => Ok(SpendPolicy::Hash(Hash256::decode(r)?)),
-                POLICY_THRESHOLD_PREFIX => {
-                    let of: u8 = u8::decode(r)?;
-                    let n = u8::decode(r)?;
-                    let mut policies = Vec::with_capacity(n as usize);
-                    while policies.len() < n as usize {
-                        policies.push(decode_policy(r)?);
-                    }
-                    Ok(SpendPolicy::Threshold(of, policies))
-                }
                 POLICY_OPAQUE_PREFIX => Ok(SpendPolicy::Opaque(Address::decode(r)?)),
                 #[allow(deprecated)]
                 POLICY_UNLOCK_CONDITIONS_PREFIX => {
@@ -383,7 +401,7 @@ impl SiaDecodable for SpendPolicy {
                 "invalid policy version".to_string(),
             ));
         }
-        decode_policy(r)
+        decode_policy(r, &mut 1)
     }
 }
 
-- 
2.43.0


From f860d2bf2a05af8bdf7eebd5e7cd976e3c4ca1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:12 +0000
Subject: [PATCH 17/19] fix: reject JSON durations that do not fit instead of
 wrapping them

---
 sia/src/types/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/utils.rs b/sia/src/types/utils.rs
index 39e1c83..dbf4487 100644
--- a/sia/src/types/utils.rs
+++ b/sia/src/types/utils.rs
@@ -113,6 +113,7 @@ pub(crate) mod nano_second_duration {
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Duration, D::Error> {
         let nanos = u64::deserialize(d)?;
-        Ok(Duration::nanoseconds(nanos as i64))
+        let nanos = i64::try_from(nanos).map_err(serde::de::Error::custom)?;
+        Ok(Duration::nanoseconds(nanos))
     }
 }
-- 
2.43.0


From 49a9668515f615df29b3c7f5cdbbc53e0c326489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:14 +0000
Subject: [PATCH 18/19] fix: currency operators fail, instead of wrapping in
 release builds, on overflow

---
 sia/src/types/currency.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index c91764e..7449d23 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -231,7 +231,10 @@ impl Currency {
     ///
     /// Returns a `Currency` instance representing the specified amount of Siacoins.
     pub const fn siacoins(n: u64) -> Self {
-        Currency::new((n as u128) * 10u128.pow(SIACOIN_PRECISION_U32))
+        match (n as u128).checked_mul(10u128.pow(SIACOIN_PRECISION_U32)) {
+            Some(value) => Currency::new(value),
+            None => panic!("currency overflow"),
+        }
     }
 
     pub fn checked_add(self, other: Currency) -> Option<Self> {
@@ -259,7 +262,7 @@ impl Add for Currency {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        Self(self.0 + other.0)
+        self.checked_add(other).expect("currency overflow")
     }
 }
 
@@ -267,7 +270,7 @@ impl Sub for Currency {
     type Output = Self;
 
     fn sub(self, other: Self) -> Self {
-        Self(self.0 - other.0)
+        self.checked_sub(other).expect("currency overflow")
     }
 }
 
@@ -275,7 +278,7 @@ impl Mul for Currency {
     type Output = Self;
 
     fn mul(self, other: Self) -> Self {
-        Self(self.0 * other.0)
+        self.checked_mul(other).expect("currency overflow")
     }
 }
 
-- 
2.43.0


From 544eae53877c0e770a9ea3d65be92327eaa13280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:41 +0000
Subject: [PATCH 19/19] fix: wipe dropped secrets with writes the compiler
 cannot remove

---
 sia/src/seed.rs    | 6 ++++--
 sia/src/signing.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sia/src/seed.rs b/sia/src/seed.rs
index e61e948..ca070ca 100644
--- a/sia/src/seed.rs
+++ b/sia/src/seed.rs
@@ -64,10 +64,12 @@ impl Seed {
 
 impl Drop for Seed {
     fn drop(&mut self) {
-        // Zero out the private key
+        // Zero out the seed, with volatile writes because the compiler
+        // may remove ordinary writes to memory that is about to be released
         for byte in self.0.iter_mut() {
-            *byte = 0;
+            unsafe { core::ptr::write_volatile(byte, 0) };
         }
+        core::sync::atomic::compiler_fence(core::sync::atomic::Ordering::SeqCst);
     }
 }
 
diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 12aa564..9aaf398 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -105,10 +105,12 @@ impl From<Hash256> for PrivateKey {
 
 impl Drop for PrivateKey {
     fn drop(&mut self) {
-        // Zero out the private key
+        // Zero out the private key, with volatile writes because the compiler
+        // may remove ordinary writes to memory that is about to be released
         for byte in self.0.iter_mut() {
-            *byte = 0;
+            unsafe { core::ptr::write_volatile(byte, 0) };
         }
+        core::sync::atomic::compiler_fence(core::sync::atomic::Ordering::SeqCst);
     }
 }
 
-- 
2.43.0

