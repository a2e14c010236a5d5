From fd637661edf1c561ce10498f1bdd0f232af0aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 01/17] verif hook: contracts and access to private items of
 vru-kyber under cfg(vru_verif)

---
 vru-kyber/src/coefficient.rs | 11 +++++++++++
 vru-kyber/src/indcpa.rs      | 16 ++++++++++++++++
 vru-kyber/src/lib.rs         |  8 ++++++++
 vru-kyber/src/poly.rs        | 35 +++++++++++++++++++++++++++++++++++
 4 files changed, 70 insertions(+)

diff --git a/vru-kyber/src/coefficient.rs b/vru-kyber/src/coefficient.rs
index caa8f3f..77be311 100644
--- a/vru-kyber/src/coefficient.rs
+++ b/vru-kyber/src/coefficient.rs
@@ -10,6 +10,8 @@ impl Coefficient {
     const Q_INV: u32 = 7679;
     const R_LOG: u32 = 18;
 
+    #[cfg_attr(all(kani, vru_verif), kani::requires(a <= 2_281_446_912))]
+    #[cfg_attr(all(kani, vru_verif), kani::ensures(|r| r.0 <= if a <= 1_070_000_000 { 11762 } else { 16383 }))]
     pub fn montgomery_reduce(mut a: u32) -> Self {
         let mut u = a.wrapping_mul(Self::Q_INV);
         u &= (1 << Self::R_LOG) - 1;
@@ -18,12 +20,14 @@ impl Coefficient {
         Coefficient((a >> Self::R_LOG) as u16)
     }
 
+    #[cfg_attr(all(kani, vru_verif), kani::ensures(|r| r.0 <= 11768 && r.0 % 7681 == a % 7681))]
     pub fn barrett_reduce(a: u16) -> Self {
         let mut u = a >> 13;
         u *= Self::Q;
         Coefficient(a - u)
     }
 
+    #[cfg_attr(all(kani, vru_verif), kani::ensures(|r| *r == self.0 % 7681))]
     pub fn freeze(&self) -> u16 {
         let r = Self::barrett_reduce(self.0).0;
 
@@ -76,3 +80,10 @@ impl<'a, 'b> Sub<&'b Coefficient> for &'a Coefficient {
         Coefficient::barrett_reduce(self.0 + 3 * Coefficient::Q - rhs.0)
     }
 }
+
+#[cfg(all(kani, vru_verif))]
+impl kani::Arbitrary for Coefficient {
+    fn any() -> Self {
+        Coefficient(kani::any())
+    }
+}
diff --git a/vru-kyber/src/indcpa.rs b/vru-kyber/src/indcpa.rs
index d4e99b6..669b9c7 100644
--- a/vru-kyber/src/indcpa.rs
+++ b/vru-kyber/src/indcpa.rs
@@ -351,3 +351,19 @@ where
         Self::try_clone_array(a).unwrap()
     }
 }
+
+#[cfg(vru_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn matrix<S, W, T>(
+        seed: &GenericArray<u8, typenum::U32>,
+    ) -> GenericArray<GenericArray<Poly<S, typenum::B0>, W>, W>
+    where
+        S: PolySize + Unsigned,
+        W: ArrayLength<Poly<S, typenum::B0>> + ArrayLength<GenericArray<Poly<S, typenum::B0>, W>>,
+        T: Bit,
+    {
+        gen_matrix::<S, W, T>(seed)
+    }
+}
diff --git a/vru-kyber/src/lib.rs b/vru-kyber/src/lib.rs
index f3b6a75..159609c 100644
--- a/vru-kyber/src/lib.rs
+++ b/vru-kyber/src/lib.rs
@@ -3,6 +3,7 @@
 #![allow(clippy::many_single_char_names)]
 #![allow(clippy::needless_range_loop)]
 #![allow(clippy::identity_op)]
+#![allow(unexpected_cfgs)]
 
 #[cfg(test)]
 #[macro_use]
@@ -18,3 +19,10 @@ mod kem;
 
 pub use self::kem::Kyber;
 pub use pq_kem::Kem;
+
+/// Verification hook: the private items the contracts talk about.
+#[cfg(vru_verif)]
+pub mod verif {
+    pub use crate::{coefficient::Coefficient, size::PolySize, poly_inner::*, poly::*};
+    pub use crate::indcpa::verif as indcpa;
+}
diff --git a/vru-kyber/src/poly.rs b/vru-kyber/src/poly.rs
index 6dc332f..049e385 100644
--- a/vru-kyber/src/poly.rs
+++ b/vru-kyber/src/poly.rs
@@ -315,3 +315,38 @@ where
         self.ntt_inner(zetas, omegas_inv_bit_rev_montgomery, psis_inv_montgomery)
     }
 }
+
+#[cfg(vru_verif)]
+impl<S, P> Poly<S, P>
+where
+    S: PolySize,
+    P: Bit,
+{
+    pub fn verif_new(inner: PolyInner<S>) -> Self {
+        Poly {
+            inner,
+            phantom_data: PhantomData,
+        }
+    }
+
+    pub fn verif_inner(&self) -> &PolyInner<S> {
+        &self.inner
+    }
+}
+
+#[cfg(vru_verif)]
+impl<S, P> Poly<S, P>
+where
+    S: PolySize,
+    P: Bit + Not,
+    <P as Not>::Output: Bit,
+{
+    pub fn verif_ntt_inner(
+        &self,
+        zetas: GenericArray<Coefficient, S::C>,
+        omegas: GenericArray<Coefficient, S::Omegas>,
+        psis: GenericArray<Coefficient, S::C>,
+    ) -> Poly<S, <P as Not>::Output> {
+        self.ntt_inner(zetas, omegas, psis)
+    }
+}
-- 
2.43.0


From 87c61853a3134303d3200c56d82b998b1f5a24b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 02/17] fix: derive the rejected shared secret from the
 received ciphertext

On a failed re-encryption check decapsulate hashed the recomputed
ciphertext, so different invalid ciphertexts that decrypt to the same
message produced the same shared secret.
---
 vru-kyber/src/kem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-kyber/src/kem.rs b/vru-kyber/src/kem.rs
index 4b6835b..af3a943 100644
--- a/vru-kyber/src/kem.rs
+++ b/vru-kyber/src/kem.rs
@@ -94,7 +94,7 @@ where
         let ct_prime = cipher_text.clone_line();
         let flag = ct.ct_eq(ct_prime.as_ref());
 
-        let ct_hash = Sha3_256::default().chain(ct).finalize_fixed();
+        let ct_hash = Sha3_256::default().chain(ct_prime).finalize_fixed();
         for i in 0..32 {
             r[i].conditional_assign(&reject[i], !flag);
         }
-- 
2.43.0


From d57974ebfe45e470aee3365b354ded6087b696c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 03/17] fix: round the public key when it is generated

A pair used without serializing the public key encapsulated with the
unrounded key while decapsulate re-encrypts with the rounded one, so
both sides derived different secrets.
---
 vru-kyber/src/indcpa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vru-kyber/src/indcpa.rs b/vru-kyber/src/indcpa.rs
index 669b9c7..9666735 100644
--- a/vru-kyber/src/indcpa.rs
+++ b/vru-kyber/src/indcpa.rs
@@ -124,7 +124,9 @@ where
             Coefficient::acc(a.iter().zip(b.iter()))
         });
         let p = p.ntt();
-        Poly::functor_2(&p, &e[i], |p, e| p + e)
+        let p: Poly<S, typenum::B1> = Poly::functor_2(&p, &e[i], |p, e| p + e);
+        // the public key is what its compressed line says
+        Poly::decompress_slightly(&p.compress_slightly())
     });
 
     (
-- 
2.43.0


From 6f2ecf9c9502a694044d0af0f84e10d54b8ceb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:48 +0000
Subject: [PATCH 04/17] verif hook: tighten the contract of montgomery_reduce

---
 vru-kyber/src/coefficient.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vru-kyber/src/coefficient.rs b/vru-kyber/src/coefficient.rs
index 77be311..cad1b9b 100644
--- a/vru-kyber/src/coefficient.rs
+++ b/vru-kyber/src/coefficient.rs
@@ -10,8 +10,8 @@ impl Coefficient {
     const Q_INV: u32 = 7679;
     const R_LOG: u32 = 18;
 
-    #[cfg_attr(all(kani, vru_verif), kani::requires(a <= 2_281_446_912))]
-    #[cfg_attr(all(kani, vru_verif), kani::ensures(|r| r.0 <= if a <= 1_070_000_000 { 11762 } else { 16383 }))]
+    #[cfg_attr(all(kani, vru_verif), kani::requires(a <= 1_070_000_000))]
+    #[cfg_attr(all(kani, vru_verif), kani::ensures(|r| r.0 <= 11762))]
     pub fn montgomery_reduce(mut a: u32) -> Self {
         let mut u = a.wrapping_mul(Self::Q_INV);
         u &= (1 << Self::R_LOG) - 1;
-- 
2.43.0


From b23235cd555ac93bd3050419d06734dcb2dff3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:21 +0000
Subject: [PATCH 05/17] verif hook: sharpen the contract of montgomery_reduce

---
 vru-kyber/src/coefficient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-kyber/src/coefficient.rs b/vru-kyber/src/coefficient.rs
index cad1b9b..4938509 100644
--- a/vru-kyber/src/coefficient.rs
+++ b/vru-kyber/src/coefficient.rs
@@ -11,7 +11,7 @@ impl Coefficient {
     const R_LOG: u32 = 18;
 
     #[cfg_attr(all(kani, vru_verif), kani::requires(a <= 1_070_000_000))]
-    #[cfg_attr(all(kani, vru_verif), kani::ensures(|r| r.0 <= 11762))]
+    #[cfg_attr(all(kani, vru_verif), kani::ensures(|r| r.0 <= 7681 + ((a >> 27) as u16 + 1) * 512))]
     pub fn montgomery_reduce(mut a: u32) -> Self {
         let mut u = a.wrapping_mul(Self::Q_INV);
         u &= (1 << Self::R_LOG) - 1;
-- 
2.43.0


From ec5a068591c728f7a849fe1f5679fbd451333e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 06/17] verif hook: state of the transport cipher under
 cfg(vru_verif)

---
 vru-noise/src/cipher_state.rs | 12 ++++++++++++
 vru-noise/src/lib.rs          |  1 +
 2 files changed, 13 insertions(+)

diff --git a/vru-noise/src/cipher_state.rs b/vru-noise/src/cipher_state.rs
index 96862b6..d9a0039 100644
--- a/vru-noise/src/cipher_state.rs
+++ b/vru-noise/src/cipher_state.rs
@@ -107,6 +107,18 @@ where
     }
 }
 
+#[cfg(vru_verif)]
+impl<C, R> Unidirectional<C, R>
+where
+    C: Config,
+    R: Rotor<C>,
+{
+    /// Verification hook: the contracts talk about an arbitrary state.
+    pub fn verif_parts(&mut self) -> (&mut C::Aead, &mut u64, &mut R) {
+        (&mut self.key, &mut self.nonce, &mut self.rotor)
+    }
+}
+
 impl<C, R> fmt::Debug for Unidirectional<C, R>
 where
     C: Config,
diff --git a/vru-noise/src/lib.rs b/vru-noise/src/lib.rs
index 84b0f1b..6a84021 100755
--- a/vru-noise/src/lib.rs
+++ b/vru-noise/src/lib.rs
@@ -1,6 +1,7 @@
 #![forbid(unsafe_code)]
 #![cfg_attr(not(feature = "std"), no_std)]
 #![allow(clippy::type_complexity)]
+#![allow(unexpected_cfgs)]
 
 #[cfg(test)]
 #[macro_use]
-- 
2.43.0


From 772386b250f5027db577809d3058ec37f2cd98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 07/17] fix: reject a buffer that is shorter than the tag

---
 vru-noise/src/cipher_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vru-noise/src/cipher_state.rs b/vru-noise/src/cipher_state.rs
index d9a0039..70263d1 100644
--- a/vru-noise/src/cipher_state.rs
+++ b/vru-noise/src/cipher_state.rs
@@ -195,7 +195,10 @@ where
         use generic_array::typenum::Unsigned;
 
         let mut tag = GenericArray::default();
-        let pos = buffer.len() - <<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE;
+        let pos = buffer
+            .len()
+            .checked_sub(<<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE)
+            .ok_or(MacMismatch)?;
         tag.clone_from_slice(&buffer[pos..]);
         buffer.resize(pos, 0);
         self.decrypt(associated_data, buffer.as_mut(), &tag)
-- 
2.43.0


From 008054b84a305e7d780770d983da5c9f9ad26a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 08/17] fix: reject an identity text of the wrong length

---
 vru-session/src/handshake/key.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 9d9a78b..0c957e4 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -119,6 +119,9 @@ impl FromStr for Identity {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let bytes = base64::decode(s)?;
+        if bytes.len() != 33 {
+            return Err(base64::DecodeError::InvalidLength);
+        }
         let mut hash = Array::default();
         hash.as_mut_slice().clone_from_slice(&bytes[1..33]);
         Ok(Identity { hash })
-- 
2.43.0


From 09ed0efaad3e9549d935ccc79384347e2d0e3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 09/17] fix: reject an inconsistent serialized public key
 instead of panicking

---
 vru-session/src/handshake/key.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 0c957e4..f8a9b7a 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -136,7 +136,7 @@ pub struct SecretKey {
 mod implementations {
     use serde::{ser, de};
     use rac::{Concat, Line, LineLike, LineValid};
-    use super::{PublicKey, SecretKey};
+    use super::{lattice, PublicKey, SecretKey};
 
     impl ser::Serialize for PublicKey {
         fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -156,9 +156,15 @@ mod implementations {
             D: de::Deserializer<'de>,
         {
             let LineLike(Concat(a, Concat(b, c))) = de::Deserialize::deserialize(deserializer)?;
+            let elliptic = LineValid::try_clone_array(&a)
+                .map_err(|_| de::Error::custom("invalid elliptic public key"))?;
+            let lattice = Line::clone_array(&b);
+            if lattice::pk_hash(&lattice) != c {
+                return Err(de::Error::custom("invalid lattice public key hash"));
+            }
             Ok(PublicKey {
-                elliptic: LineValid::try_clone_array(&a).unwrap(),
-                lattice: Line::clone_array(&b),
+                elliptic,
+                lattice,
                 lattice_hash: c,
             })
         }
-- 
2.43.0


From 7f506723be952cace550b6e37267a2234cdd181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 10/17] fix: report an invalid public key of the peer instead
 of panicking

---
 vru-session/src/handshake/key.rs | 11 ++++++++---
 vru-session/src/handshake/xx.rs  | 13 ++++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index f8a9b7a..d64fa01 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -40,15 +40,20 @@ impl PublicKey {
     }
 
     pub fn decompress(bytes: PublicKeyBytes) -> Self {
+        Self::try_decompress(bytes).unwrap()
+    }
+
+    /// `None` if the bytes are not a valid key
+    pub fn try_decompress(bytes: PublicKeyBytes) -> Option<Self> {
         let Concat(elliptic_bytes, lattice_bytes) = bytes;
         let lattice = Pk::clone_array(&lattice_bytes);
-        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).unwrap();
+        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).ok()?;
         let lattice_hash = lattice::pk_hash(&lattice);
-        PublicKey {
+        Some(PublicKey {
             elliptic,
             lattice,
             lattice_hash,
-        }
+        })
     }
 
     pub fn elliptic(&self) -> Array<typenum::U32> {
diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index f2b543b..a43662d 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -53,6 +53,8 @@ pub enum InitiatorsError {
     PayloadSMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("invalid public key")]
+    InvalidKey,
 }
 
 #[derive(Debug, Error)]
@@ -63,6 +65,8 @@ pub enum RespondersError {
     PayloadRMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("invalid public key")]
+    InvalidKey,
 }
 
 // the handshake variant is xx, but the initiator know responder pk
@@ -121,12 +125,14 @@ where
         .decrypt_line(payload_p)
         .map_err(InitiatorsError::PayloadPMac)?;
     let symmetric_state = symmetric_state.mix_hash(&peer_e_pkc.clone_line());
-    let peer_e_pk = PublicKey::decompress(peer_e_pkc);
+    let peer_e_pk =
+        PublicKey::try_decompress(peer_e_pkc).ok_or(InitiatorsError::InvalidKey)?;
     let (symmetric_state, peer_s_pkc) = symmetric_state
         .mix_shared_secret(&peer_e_pk.dh(&e_sk))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(InitiatorsError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).ok_or(InitiatorsError::InvalidKey)?;
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
@@ -263,7 +269,8 @@ where
         .mix_shared_secret(&s_pk.decapsulate(&s_sk, &peer_s_ct))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(RespondersError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).ok_or(RespondersError::InvalidKey)?;
     let (symmetric_state, payload_r) = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
         .decrypt_line(payload_r)
-- 
2.43.0


From b1bc36a328a433e6946f0598a106d1af83fd8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 11/17] fix: accept only the static key of the identity that
 was dialled

---
 vru-session/src/handshake/xx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index a43662d..5edbc0e 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -31,6 +31,7 @@ pub type Message3<S> = Concat<Ct, EncryptedDefault<S>>;
 
 pub struct InitiatorsEphemeral {
     symmetric_state: SymmetricState<Noise, ChainingKey<Noise>>,
+    peer_s_pi: Identity,
     e_pk: PublicKey,
     e_sk: SecretKey,
 }
@@ -55,6 +56,8 @@ pub enum InitiatorsError {
     StaticKeyMac(MacMismatch),
     #[error("invalid public key")]
     InvalidKey,
+    #[error("static key does not match the identity of the peer")]
+    IdentityMismatch,
 }
 
 #[derive(Debug, Error)]
@@ -88,6 +91,7 @@ pub fn out0(seed: &Array<typenum::U96>, peer_s_pi: &Identity) -> (InitiatorsEphe
     (
         InitiatorsEphemeral {
             symmetric_state,
+            peer_s_pi: peer_s_pi.clone(),
             e_pk,
             e_sk,
         },
@@ -116,6 +120,7 @@ where
     let (Concat(peer_e_ct, payload_p), peer_e_pkc, enc_peer_s_pkc) = message;
     let InitiatorsEphemeral {
         symmetric_state,
+        peer_s_pi,
         e_pk,
         e_sk,
     } = state;
@@ -133,6 +138,9 @@ where
         .map_err(InitiatorsError::StaticKeyMac)?;
     let peer_s_pk =
         PublicKey::try_decompress(peer_s_pkc).ok_or(InitiatorsError::InvalidKey)?;
+    if peer_s_pk.identity() != peer_s_pi {
+        return Err(InitiatorsError::IdentityMismatch);
+    }
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
-- 
2.43.0


From 91b5d471e2612e834ea543512432d976d0b94ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 12/17] fix: send the whole first message

---
 vru-udp/src/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 87e3f60..903519b 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -186,7 +186,7 @@ impl NodeState {
                 rand::Rng::fill(&mut rand::thread_rng(), seed.as_mut());
                 let mut datagram = Datagram::default();
                 let (state, message) = xx::out0(&seed, &peer_pi);
-                datagram.as_mut()[..1120].clone_from_slice(&message.0.clone_line());
+                datagram.as_mut()[..1120].clone_from_slice(&message.clone_line());
                 rand::Rng::fill(&mut rand::thread_rng(), datagram.as_mut()[1120..].as_mut());
                 if let Err(error) = self.socket.send_to(datagram.as_ref(), address) {
                     self.sender
-- 
2.43.0


From 54f267c801cfa0f9e71ad0a184293a151cbebc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 13/17] fix: flush the key of the node before it is used

---
 vru-node/src/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 5f768c7..3bd1679 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -27,6 +27,7 @@ impl Database {
         } else {
             randomize(&mut s);
             self.db.insert(b"key_seed", s.as_ref())?;
+            self.db.flush()?;
         }
         Ok(PublicKey::gen(&s))
     }
-- 
2.43.0


From 21b3b69335989f4e5142ae6a3ce45e451893b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 14/17] fix: line of a signature when coordinate and scalar
 lengths differ

---
 rac/src/schnorr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rac/src/schnorr.rs b/rac/src/schnorr.rs
index 09ae327..ed38c39 100644
--- a/rac/src/schnorr.rs
+++ b/rac/src/schnorr.rs
@@ -56,7 +56,7 @@ where
         use generic_array::typenum::Unsigned;
 
         let mut x = GenericArray::default();
-        let m = <<C::Scalar as LineValid>::Length as Unsigned>::USIZE;
+        let m = <C::CoordinateLength as Unsigned>::USIZE;
         x[..m].clone_from_slice(self.r.clone_line().as_ref());
         x[m..].clone_from_slice(self.s.clone_line().as_ref());
         x
-- 
2.43.0


From 6b545243461ce8057e178d91b8b8225cc787c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 15/17] fix: first local command for a connected peer borrows
 the handles twice

---
 vru-udp/src/global.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 903519b..7bf5ae5 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -106,14 +106,15 @@ impl Node {
                 destination,
                 command,
             } => {
-                if let Some(handle) = self.handles.borrow().get(&destination) {
+                let mut handles = self.handles.borrow_mut();
+                if let Some(handle) = handles.get(&destination) {
                     handle.send(command);
                 } else {
                     let mut h = self.pending_handles.lock().unwrap();
                     if let Some(handle) = h.remove(&destination) {
                         drop(h);
                         handle.send(command);
-                        self.handles.borrow_mut().insert(destination, handle);
+                        handles.insert(destination, handle);
                     }
                 }
             },
-- 
2.43.0


From 163f775cf45b5fac1e4acdcd89b678657d61c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 16/17] fix: a peer stops at its first command and the next
 message panics

---
 vru-udp/src/local.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 55c656a..0d6a112 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -82,10 +82,16 @@ impl PeerState {
     fn run(self) {
         // TODO:
         let _ = (&self.sk, &self.pk, &self.handshake_state);
-        while let Ok(PeerMessage::Network { address, datagram }) = self.receiver.recv() {
-            let _ = datagram;
-            self.event_sender
-                .report(Event::Info(format!("process connection with: {}", address)));
+        while let Ok(message) = self.receiver.recv() {
+            match message {
+                PeerMessage::Network { address, datagram } => {
+                    let _ = datagram;
+                    self.event_sender
+                        .report(Event::Info(format!("process connection with: {}", address)));
+                },
+                // TODO:
+                PeerMessage::Command(command) => drop(command),
+            }
         }
     }
 }
-- 
2.43.0


From 2c4f66b9d141a73bed87271352f371aef238134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 17/17] fix: a node that is stopped waits for its peers for
 ever

---
 vru-udp/src/global.rs | 3 +++
 vru-udp/src/local.rs  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 7bf5ae5..a6d8d6d 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -88,6 +88,8 @@ impl Node {
     }
 
     pub fn join(self) {
+        // the handles keep the peers running
+        drop(self.handles);
         self.main_thread.join().unwrap();
     }
 
@@ -168,6 +170,7 @@ impl NodeState {
             }
         }
 
+        self.pending_handles.lock().unwrap().clear();
         for (_, ctx) in self.connections {
             ctx.join();
         }
diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 0d6a112..14565d1 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -26,6 +26,8 @@ impl Peer {
     }
 
     pub fn join(self) {
+        // the worker runs while anyone can send to it
+        drop(self.sender);
         self.worker_thread.join().unwrap();
     }
 
-- 
2.43.0

