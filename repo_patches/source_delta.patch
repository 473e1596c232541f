From 8c2f43c89c6628e16e6be8f8ca473637f4dab27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 01/17] fix: hmac pads the digest of a key longer than one
 block

A key longer than the block was hashed, but the original key was then padded:
length - key.len() underflowed and hmac panicked.
---
 jester_hashes/src/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_hashes/src/hmac.rs b/jester_hashes/src/hmac.rs
index b613313..0eca495 100644
--- a/jester_hashes/src/hmac.rs
+++ b/jester_hashes/src/hmac.rs
@@ -21,7 +21,7 @@ pub fn hmac<Hash, Context>(ctx: &Context, key: &[u8], message: &[u8]) -> Vec<u8>
     };
 
     let padded_key = if shortened_key.len() < block_size {
-        pad(key, block_size)
+        pad(&shortened_key, block_size)
     } else {
         shortened_key
     };
-- 
2.43.0


From 1f15efcee5c5ec5cbd89ec8b9129d0600374ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 02/17] fix: hkdf refuses more than 255 digests

The one-byte block counter was reduced modulo 256, so that longer requests reused counters.
---
 jester_hashes/src/kdf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_hashes/src/kdf.rs b/jester_hashes/src/kdf.rs
index fb3482c..7aee835 100644
--- a/jester_hashes/src/kdf.rs
+++ b/jester_hashes/src/kdf.rs
@@ -13,6 +13,7 @@ pub fn hkdf_derive_key<Hash, Context>(
 {
     let pseudo_random_key = hmac::<Hash, Context>(ctx, salt, ikm);
     let partials: usize = f64::ceil(output_length as f64 / Hash::output_size(ctx) as f64) as usize;
+    assert!(partials <= 255, "cannot derive more than 255 digests");
     let mut parts: Vec<Vec<u8>> = vec![vec![]; partials + 1];
 
     for i in 1..=partials {
-- 
2.43.0


From 6f344cdee15e949c041caf8fa8749565bdb8479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 03/17] fix: hkdf returns exactly the requested number of bytes

The output was a whole number of digests instead of its first output_length bytes.
---
 jester_hashes/src/kdf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_hashes/src/kdf.rs b/jester_hashes/src/kdf.rs
index 7aee835..6bff023 100644
--- a/jester_hashes/src/kdf.rs
+++ b/jester_hashes/src/kdf.rs
@@ -21,7 +21,9 @@ pub fn hkdf_derive_key<Hash, Context>(
                         &vec![parts[i - 1].deref(), info, &[(i & 0xFF) as u8]].concat())
     }
 
-    parts.concat()
+    let mut output_key = parts.concat();
+    output_key.truncate(output_length);
+    output_key
 }
 
 
-- 
2.43.0


From 5c874f3437fb72ac2bd06b3f9b3b87f66e734498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 04/17] fix: converting i64::MIN into a prime field does not
 overflow

---
 jester_maths/src/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_maths/src/prime.rs b/jester_maths/src/prime.rs
index 1fb8c15..046b7bf 100644
--- a/jester_maths/src/prime.rs
+++ b/jester_maths/src/prime.rs
@@ -193,7 +193,7 @@ macro_rules! prime_fields {
                 impl num::FromPrimitive for $name {
                     fn from_i64(n: i64) -> Option<Self> {
                         if n < 0 {
-                            $crate::prime::num_bigint::BigUint::from_i64(-n).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
+                            $crate::prime::num_bigint::BigUint::from_u64(n.unsigned_abs()).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
                         } else {
                             $crate::prime::num_bigint::BigUint::from_i64(n).map(|o| o.into())
                         }
-- 
2.43.0


From 698dc1e7e60f0729f917ee7ad0e0c25fe71e63ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 05/17] fix: rsa refuses messages and ciphers that do not lie
 below the modulus

Only numbers beyond the field prime were refused, others were silently reduced modulo n.
---
 jester_encryption/src/rsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jester_encryption/src/rsa.rs b/jester_encryption/src/rsa.rs
index c813ee1..7631853 100644
--- a/jester_encryption/src/rsa.rs
+++ b/jester_encryption/src/rsa.rs
@@ -31,7 +31,7 @@ impl<P> AsymmetricalEncryptionScheme for RSACryptoSystem<P>
     /// Performs the RSA encryption on the message interpreted as an integer from `P` in little
     /// endian byte order
     fn encrypt_message(key: &Self::PublicKey, message: &[u8]) -> Vec<u8> {
-        let n = P::from_bytes_le(message);
+        let n = P::from_bytes_le(message).filter(|m| m.as_uint() < key.n.as_uint());
         if let Some(msg) = n {
             msg.modpow(&key.e, &key.n).as_bytes_le()
         } else {
@@ -42,7 +42,7 @@ impl<P> AsymmetricalEncryptionScheme for RSACryptoSystem<P>
     /// Performs the RSA decryption on the cipher interpreted as an integer from `P` in little
     /// endian byte order
     fn decrypt_message(key: &Self::PrivateKey, cipher: &[u8]) -> Vec<u8> {
-        let n = P::from_bytes_le(cipher);
+        let n = P::from_bytes_le(cipher).filter(|c| c.as_uint() < key.n.as_uint());
         if let Some(c) = n {
             c.modpow(&key.d, &key.n).as_bytes_le()
         } else {
-- 
2.43.0


From ec8339a0d27509d7069c0921473b6cc9523665e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 06/17] fix: shamir evaluation points are raised in the field,
 not in usize

pow(x, index) overflowed for larger counts and thresholds, yielding wrong shares or a panic.
---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 49d3a9c..2262c18 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -107,7 +107,7 @@ where
                         .clone()
                         .iter()
                         .fold(secret.clone(), |akk, (index, val)| {
-                            akk + val.clone() * BigUint::from_usize(pow(x, *index)).unwrap().into()
+                            akk + val.clone() * pow(BigUint::from_usize(x).unwrap().into(), *index)
                         }),
                 )
             })
-- 
2.43.0


From 1317620209331321d21a00ab1cddda603832d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 07/17] fix: shamir refuses to generate as many shares as the
 field has members

The share for x = p is evaluated at zero and therefore is the secret itself.
---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 2262c18..d9a676e 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -94,6 +94,8 @@ where
         R: RngCore + CryptoRng + RandBigInt,
     {
         assert!(threshold > 1);
+        // evaluation points must neither repeat nor vanish modulo the prime, the latter would reveal the secret
+        assert!(BigUint::from_usize(count).unwrap() < T::field_prime().as_uint());
 
         let polynomial = (1..threshold)
             .map(|i| (i, T::generate_random_member(rng)))
-- 
2.43.0


From 6aecd6c964d80e43af2d0095f8890348f07fb077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 08/17] fix: shamir reconstruction interpolates through exactly
 threshold shares

The Lagrange coefficients were computed over all shares while only threshold of them were summed,
so surplus shares gave a wrong secret, and too few shares were accepted.
---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index d9a676e..3f89767 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -126,9 +126,11 @@ where
     /// Given that `threshold` matches the threshold at generation and enough shares are present, it will return an
     /// instance of `T` that is reconstructed from the shares
     fn reconstruct_secret(shares: &[(usize, T)], threshold: usize) -> T {
+        assert!(shares.len() >= threshold);
+        let shares = &shares[..threshold];
+
         shares
             .iter()
-            .take(threshold)
             .map(|(i, share)| {
                 share.clone().mul(
                     shares
-- 
2.43.0


From f8be4d5bdefac158afa1710a52777ac2f87e6a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 09/17] fix: unbounded or refuses more bits than the field has
 sample points

With l + 1 >= p the sample points of the interpolated polynomial collide and the result is garbage.
---
 jester_sharing/src/shared_or_function/joint_unbounded_or.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jester_sharing/src/shared_or_function/joint_unbounded_or.rs b/jester_sharing/src/shared_or_function/joint_unbounded_or.rs
index cb3a193..ac144d4 100644
--- a/jester_sharing/src/shared_or_function/joint_unbounded_or.rs
+++ b/jester_sharing/src/shared_or_function/joint_unbounded_or.rs
@@ -75,6 +75,8 @@ where
         R: RngCore + CryptoRng,
     {
         assert!(!bits.is_empty());
+        // the sample points `1..=l + 1` must be distinct and non-zero members of the field
+        assert!(BigUint::from(bits.len() + 1) < T::field_prime().as_uint());
 
         // compute a polynomial share of the sum of all `l` bits plus one.
         let sum = P::add_scalar(&P::sum_shares(bits).unwrap(), &T::one());
-- 
2.43.0


From 7b6509d03fd55b06ce2eb30c59df4dcd7776a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 10/17] fix: blake2 refuses output and key lengths outside of
 RFC 7693

Lengths beyond the limits were mixed into the parameter block and gave digests that are no BLAKE2 digests.
---
 jester_hashes/src/blake/blake2b.rs | 3 +++
 jester_hashes/src/blake/blake2s.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/jester_hashes/src/blake/blake2b.rs b/jester_hashes/src/blake/blake2b.rs
index db05425..e8b4034 100644
--- a/jester_hashes/src/blake/blake2b.rs
+++ b/jester_hashes/src/blake/blake2b.rs
@@ -48,6 +48,9 @@ impl HashFunction for Blake2b {
     type HashData = Blake2bHash;
 
     fn init_hash(ctx: &Self::Context) -> Self::HashState {
+        assert!(ctx.output_len >= 1 && ctx.output_len <= 64, "blake2b digests have 1 to 64 bytes");
+        assert!(ctx.key.len() <= 64, "blake2b keys have at most 64 bytes");
+
         let mut state = Blake2bState {
             hash: INITIAL_2B,
             message_length: 0,
diff --git a/jester_hashes/src/blake/blake2s.rs b/jester_hashes/src/blake/blake2s.rs
index e361e56..52584e3 100644
--- a/jester_hashes/src/blake/blake2s.rs
+++ b/jester_hashes/src/blake/blake2s.rs
@@ -44,6 +44,9 @@ impl HashFunction for Blake2s {
     type HashData = Blake2sHash;
 
     fn init_hash(ctx: &Self::Context) -> Self::HashState {
+        assert!(ctx.output_len >= 1 && ctx.output_len <= 32, "blake2s digests have 1 to 32 bytes");
+        assert!(ctx.key.len() <= 32, "blake2s keys have at most 32 bytes");
+
         let mut state = Blake2sState {
             hash: INITIAL_2S,
             message_length: 0,
-- 
2.43.0


From d88734617c90a4e26f705ac88e11d9961424714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 11/17] fix: skipped message keys are kept under their own
 message number

The chain length was advanced before the key was stored, so every skipped key was kept under the
number following its own and late messages were decrypted with the key of their predecessor.
---
 jester_double_ratchet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 4f3fa05..00ccbef 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -484,7 +484,6 @@ where
             let (new_chain_key, output_key) =
                 MessageKdf::derive_key_without_input(self.receiving_chain_key.take().unwrap());
             self.receiving_chain_key = Some(new_chain_key);
-            self.receiving_chain_length += 1;
             self.missed_messages.insert(
                 (
                     self.diffie_hellman_received_key.clone().unwrap(),
@@ -492,6 +491,7 @@ where
                 ),
                 output_key,
             );
+            self.receiving_chain_length += 1;
             current_chain_missed_messages -= 1;
         }
 
@@ -516,7 +516,6 @@ where
 
             // if messages of this new chain were missed:
             while next_chain_missed_messages > 0 {
-                self.receiving_chain_length += 1;
                 let (updated_receiving_chain_key, message_key) =
                     MessageKdf::derive_key_without_input(receiving_chain_key);
                 receiving_chain_key = updated_receiving_chain_key;
@@ -524,6 +523,7 @@ where
                     (message.public_key.clone(), self.receiving_chain_length),
                     message_key,
                 );
+                self.receiving_chain_length += 1;
                 next_chain_missed_messages -= 1;
             }
 
-- 
2.43.0


From 4249c4c974de067955253e4468fa9fe2b7d6aabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 12/17] fix: a new receiving chain counts the messages skipped
 at its start

The length was set to one even if messages were skipped, so the following message was taken to have
skipped messages again and was decrypted with a wrong key.
---
 jester_double_ratchet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 00ccbef..3a2242a 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -512,6 +512,7 @@ where
                 self.root_chain_key.take().unwrap(),
                 generated_dh_private_key,
             );
+            self.previous_receiving_chain_length = self.receiving_chain_length;
             self.receiving_chain_length = 0;
 
             // if messages of this new chain were missed:
@@ -548,10 +549,9 @@ where
             self.root_chain_key = Some(updated_root_key);
 
             // update stats
-            self.previous_receiving_chain_length = self.receiving_chain_length;
             self.previous_sending_chain_length = self.sending_chain_length;
             self.sending_chain_length = 0;
-            self.receiving_chain_length = 1;
+            self.receiving_chain_length += 1;
 
             message_key
         } else {
-- 
2.43.0


From 68e678dc53921f6dcb0464fddd46643ef2f938b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 13/17] fix: remember the ratchet key of a new receiving chain

The received key was never replaced, so the second message of a chain started yet another chain.
---
 jester_double_ratchet/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 3a2242a..7808af3 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -542,6 +542,7 @@ where
             self.sending_chain_key = Some(sending_chain_key);
 
             // update dh keys
+            self.diffie_hellman_received_key = Some(message.public_key.clone());
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
 
-- 
2.43.0


From e8062b5b2c7f686fe51955a8518268dfa9b905e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 14/17] fix: late messages of previous chains are decrypted
 with the key kept for them

Kept keys were only looked up for the current chain. A late message of a previous chain was taken for
the start of a new chain and destroyed the chains.
---
 jester_double_ratchet/src/lib.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 7808af3..6e7e64f 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -457,25 +457,22 @@ where
     where
         R: RngCore + CryptoRng,
     {
+        // a message that was skipped earlier, on this or on any previous chain, is decrypted with the key kept for it
+        let dictionary_key = (message.public_key.clone(), message.message_number);
+        if let Some(message_key) = self.missed_messages.remove(&dictionary_key) {
+            let decrypted_message =
+                EncryptionScheme::decrypt_message(&message_key, &message.message.unwrap());
+            return Err(OutOfOrderMessage { decrypted_message });
+        }
+
         let (mut current_chain_missed_messages, mut next_chain_missed_messages) =
             match detect_missing_messages(self, &message) {
                 Ok(v) => v,
                 Err(ProtocolException::IllegalMessageHeader { message }) => {
                     return Err(DecryptionException::InvalidMessageHeader {})
                 }
-                Err(ProtocolException::OutOfOrderMessage {
-                    public_key,
-                    message_number,
-                }) => {
-                    let dictionary_key = (public_key, message_number);
-                    if !self.missed_messages.contains_key(&dictionary_key) {
-                        return Err(UnknownMessageHeader {});
-                    }
-
-                    let message_key = self.missed_messages.remove(&dictionary_key).unwrap();
-                    let decrypted_message =
-                        EncryptionScheme::decrypt_message(&message_key, &message.message.unwrap());
-                    return Err(OutOfOrderMessage { decrypted_message });
+                Err(ProtocolException::OutOfOrderMessage { .. }) => {
+                    return Err(UnknownMessageHeader {});
                 }
             };
 
-- 
2.43.0


From 666f68955a0c94e12dbb011a2ffba5b3daeff421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 15/17] fix: messages without content or receiving chain are
 refused instead of panicking

---
 jester_double_ratchet/src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 6e7e64f..8a48697 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -457,6 +457,11 @@ where
     where
         R: RngCore + CryptoRng,
     {
+        // only the very first message of the initiator has no content, it cannot be decrypted
+        if message.message.is_none() {
+            return Err(DecryptionException::InvalidMessageHeader {});
+        }
+
         // a message that was skipped earlier, on this or on any previous chain, is decrypted with the key kept for it
         let dictionary_key = (message.public_key.clone(), message.message_number);
         if let Some(message_key) = self.missed_messages.remove(&dictionary_key) {
@@ -639,6 +644,13 @@ where
         .public_key
         .eq(protocol.diffie_hellman_received_key.as_ref().unwrap())
     {
+        if protocol.receiving_chain_key.is_none() {
+            // no chain exists for the initial key, it never belongs to a message with content
+            return Err(ProtocolException::IllegalMessageHeader {
+                message: "the message carries the initial key, for which no receiving chain exists.",
+            });
+        }
+
         if message.message_number >= protocol.receiving_chain_length {
             // this message belongs to the current chain, return the difference to the receiving chain length
             return Ok((message.message_number - protocol.receiving_chain_length, 0));
@@ -650,6 +662,13 @@ where
             })
         }
     } else {
+        if protocol.receiving_chain_key.is_none() && message.previous_chain_length > 0 {
+            // nothing can be missed of a chain that does not exist
+            return Err(ProtocolException::IllegalMessageHeader {
+                message: "the message reports messages of a previous chain, but there was none.",
+            });
+        }
+
         if message.previous_chain_length >= protocol.receiving_chain_length {
             // this message starts a new chain
             // return the number of missed messages from the currently active chain and the number of messages missed
-- 
2.43.0


From 844de9d0d3f9460c3506d1f62c5cb4f1b5a0086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 16/17] fix: bound the number of message keys a single header
 can cause to be derived

A header with a huge message number made the recipient derive and store keys without limit.
---
 jester_double_ratchet/src/lib.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 8a48697..ac23eaf 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -105,6 +105,10 @@ pub enum DecryptionException {
     UnknownMessageHeader {},
 }
 
+/// The number of messages that may be missing on a chain when a message arrives. A message header that claims more
+/// is refused, because deriving and storing all their keys could exhaust the recipient's resources.
+pub const MAX_SKIPPED_MESSAGES: usize = 1000;
+
 /// Double-Ratchet-Algorithm protocol state. It has some phantom markers for the used primitives and keeps track of
 /// all state required during protocol execution-
 ///
@@ -653,7 +657,14 @@ where
 
         if message.message_number >= protocol.receiving_chain_length {
             // this message belongs to the current chain, return the difference to the receiving chain length
-            return Ok((message.message_number - protocol.receiving_chain_length, 0));
+            let missed_messages = message.message_number - protocol.receiving_chain_length;
+            if missed_messages > MAX_SKIPPED_MESSAGES {
+                return Err(ProtocolException::IllegalMessageHeader {
+                    message: "the message reports too many missed messages.",
+                });
+            }
+
+            return Ok((missed_messages, 0));
         } else {
             // this message is received out of order and must be handled specially
             Err(ProtocolException::OutOfOrderMessage {
@@ -673,10 +684,16 @@ where
             // this message starts a new chain
             // return the number of missed messages from the currently active chain and the number of messages missed
             // in the new chain
-            Ok((
-                message.previous_chain_length - protocol.receiving_chain_length,
-                message.message_number,
-            ))
+            let missed_messages = message.previous_chain_length - protocol.receiving_chain_length;
+            if missed_messages > MAX_SKIPPED_MESSAGES
+                || message.message_number > MAX_SKIPPED_MESSAGES
+            {
+                return Err(ProtocolException::IllegalMessageHeader {
+                    message: "the message reports too many missed messages.",
+                });
+            }
+
+            Ok((missed_messages, message.message_number))
         } else {
             // the message reports less messages sent than received. Clearly something is wrong here!
             Err(ProtocolException::IllegalMessageHeader {
-- 
2.43.0


From 9c822b3f3bef8d0095458fc541eaa7cd5fe555ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 17/17] fix: the first message received by the initiator may
 have skipped others

Its message number was ignored, so that a first reply which overtook others was decrypted with a wrong key
and all following messages, too.
---
 jester_double_ratchet/src/lib.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index ac23eaf..64dacfe 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -291,8 +291,21 @@ where
         );
 
         // update receiving chain
-        let (updated_root_key, receiving_key) =
+        let (updated_root_key, mut receiving_key) =
             RootKdf::derive_key(self.root_chain_key.take().unwrap(), generated_dh_shared_key);
+
+        // if messages of the chain were missed, keep their keys
+        assert!(message.message_number <= MAX_SKIPPED_MESSAGES);
+        for missed_message_number in 0..message.message_number {
+            let (updated_receiving_key, message_key) =
+                MessageKdf::derive_key_without_input(receiving_key);
+            receiving_key = updated_receiving_key;
+            self.missed_messages.insert(
+                (message.public_key.clone(), missed_message_number),
+                message_key,
+            );
+        }
+
         let (receiving_chain_key, message_key) =
             MessageKdf::derive_key_without_input(receiving_key);
 
@@ -322,10 +335,10 @@ where
                 sending_chain_key: Some(sending_key),
                 receiving_chain_key: Some(receiving_chain_key),
                 sending_chain_length: 0,
-                receiving_chain_length: 1,
+                receiving_chain_length: message.message_number + 1,
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
-                missed_messages: HashMap::new(),
+                missed_messages: self.missed_messages,
             },
             clear_text,
         )
-- 
2.43.0

