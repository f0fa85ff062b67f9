From 59e67c8bb518b6d6980d79371b89c9e1b70730bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 01/25] fix: kyber: derive the rejection secret from the
 received ciphertext

The secret hashed the re-encrypted ciphertext, so all ciphertexts that decode to
the same message gave the same secret, and different from the scheme's.
---
 vru-kyber/src/kem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-kyber/src/kem.rs b/vru-kyber/src/kem.rs
index 4b6835b..af3a943 100644
--- a/vru-kyber/src/kem.rs
+++ b/vru-kyber/src/kem.rs
@@ -94,7 +94,7 @@ where
         let ct_prime = cipher_text.clone_line();
         let flag = ct.ct_eq(ct_prime.as_ref());
 
-        let ct_hash = Sha3_256::default().chain(ct).finalize_fixed();
+        let ct_hash = Sha3_256::default().chain(ct_prime).finalize_fixed();
         for i in 0..32 {
             r[i].conditional_assign(&reject[i], !flag);
         }
-- 
2.43.0


From 58a411d6cdd5e58ea6bb5473cda36d0edb3c24f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 02/25] fix: kyber: a generated public key equals its re-read
 encoding

The generated key kept the polynomials before lossy compression, so encapsulating
to it gave a ciphertext that the owner of the key rejects.
---
 vru-kyber/src/indcpa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vru-kyber/src/indcpa.rs b/vru-kyber/src/indcpa.rs
index d4e99b6..8d384f1 100644
--- a/vru-kyber/src/indcpa.rs
+++ b/vru-kyber/src/indcpa.rs
@@ -124,7 +124,9 @@ where
             Coefficient::acc(a.iter().zip(b.iter()))
         });
         let p = p.ntt();
-        Poly::functor_2(&p, &e[i], |p, e| p + e)
+        let p: Poly<S, typenum::B1> = Poly::functor_2(&p, &e[i], |p, e| p + e);
+        // the key is defined by its encoding, which is lossy
+        Poly::decompress_slightly(&p.compress_slightly())
     });
 
     (
-- 
2.43.0


From 6a8fda1d608cff2ef8cc7d3ae8752c2520ab460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 03/25] fix: noise: mix the whole temporary hash of a psk, not
 its first key-size bytes

---
 vru-noise/src/hash.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/vru-noise/src/hash.rs b/vru-noise/src/hash.rs
index 5d5683c..3006cbd 100644
--- a/vru-noise/src/hash.rs
+++ b/vru-noise/src/hash.rs
@@ -119,7 +119,7 @@ where
         data: &[u8],
     ) -> (
         GenericArray<u8, Self::L>,
-        GenericArray<u8, A::KeySize>,
+        GenericArray<u8, Self::L>,
         GenericArray<u8, A::KeySize>,
     );
 }
@@ -170,15 +170,11 @@ where
         data: &[u8],
     ) -> (
         GenericArray<u8, Self::L>,
-        GenericArray<u8, A::KeySize>,
+        GenericArray<u8, Self::L>,
         GenericArray<u8, A::KeySize>,
     ) {
         let keys = Self::hkdf_split(Some(chaining_key), data);
         let [chaining_key, middle, key]: [_; 3] = keys.into();
-        (
-            chaining_key,
-            truncate::<A>(middle.as_ref()),
-            truncate::<A>(key.as_ref()),
-        )
+        (chaining_key, middle, truncate::<A>(key.as_ref()))
     }
 }
-- 
2.43.0


From be7c7a4436ad2c4f2921597a1608429276700ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 04/25] fix: noise: refuse a transport message shorter than its
 tag instead of panicking

---
 vru-noise/src/cipher_state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vru-noise/src/cipher_state.rs b/vru-noise/src/cipher_state.rs
index 96862b6..a407cf8 100644
--- a/vru-noise/src/cipher_state.rs
+++ b/vru-noise/src/cipher_state.rs
@@ -183,7 +183,8 @@ where
         use generic_array::typenum::Unsigned;
 
         let mut tag = GenericArray::default();
-        let pos = buffer.len() - <<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE;
+        let tag_size = <<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE;
+        let pos = buffer.len().checked_sub(tag_size).ok_or(MacMismatch)?;
         tag.clone_from_slice(&buffer[pos..]);
         buffer.resize(pos, 0);
         self.decrypt(associated_data, buffer.as_mut(), &tag)
-- 
2.43.0


From 8763111f446a4dfce33f008efb0ca9d3868a634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 05/25] fix: session: report an invalid curve point of a
 handshake message instead of panicking

---
 vru-session/src/handshake/key.rs | 18 +++++++++++++++---
 vru-session/src/handshake/mod.rs |  2 +-
 vru-session/src/handshake/xx.rs  | 17 +++++++++++++----
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 9d9a78b..651ecbc 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -1,10 +1,15 @@
 use std::{ops::Mul, fmt, str::FromStr};
 use curve25519_dalek::{edwards::EdwardsPoint, scalar::Scalar};
 use serde::{Serialize, Deserialize};
+use thiserror::Error;
 use rac::{Array, Concat, Curve, LineValid, Line, generic_array::typenum};
 use self::lattice::{Sk, Pk, PkHash};
 pub use self::lattice::{Ct, SharedSecret, Encapsulated};
 
+#[derive(Debug, Error)]
+#[error("invalid public key")]
+pub struct InvalidPublicKey;
+
 pub struct PublicKey {
     elliptic: EdwardsPoint,
     lattice: Pk,
@@ -39,16 +44,23 @@ impl PublicKey {
         )
     }
 
+    /// # Panics
+    /// if the elliptic part is not a valid point, see `try_decompress`
     pub fn decompress(bytes: PublicKeyBytes) -> Self {
+        Self::try_decompress(bytes).unwrap()
+    }
+
+    pub fn try_decompress(bytes: PublicKeyBytes) -> Result<Self, InvalidPublicKey> {
         let Concat(elliptic_bytes, lattice_bytes) = bytes;
         let lattice = Pk::clone_array(&lattice_bytes);
-        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).unwrap();
+        let elliptic =
+            EdwardsPoint::try_clone_array(&elliptic_bytes).map_err(|()| InvalidPublicKey)?;
         let lattice_hash = lattice::pk_hash(&lattice);
-        PublicKey {
+        Ok(PublicKey {
             elliptic,
             lattice,
             lattice_hash,
-        }
+        })
     }
 
     pub fn elliptic(&self) -> Array<typenum::U32> {
diff --git a/vru-session/src/handshake/mod.rs b/vru-session/src/handshake/mod.rs
index 3e24e4f..18258ca 100644
--- a/vru-session/src/handshake/mod.rs
+++ b/vru-session/src/handshake/mod.rs
@@ -1,5 +1,5 @@
 mod key;
-pub use self::key::{SecretKey, PublicKey, Identity};
+pub use self::key::{SecretKey, PublicKey, InvalidPublicKey, Identity};
 
 mod noise;
 pub use self::noise::{TrivialRotor, TrivialCipher, TrivialUnidirectional};
diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index f2b543b..0ad5dab 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -2,7 +2,7 @@ use vru_noise::{SymmetricState, MacMismatch, ChainingKey, Key, Cipher, Rotor};
 use rac::{Array, Concat, LineValid, Line, generic_array::typenum};
 use thiserror::Error;
 use super::{
-    key::{Identity, PublicKey, PublicKeyBytes, SecretKey, Ct},
+    key::{Identity, PublicKey, PublicKeyBytes, InvalidPublicKey, SecretKey, Ct},
     noise::{Noise, EncryptedDefault, SymmetricStateOps},
 };
 
@@ -53,6 +53,10 @@ pub enum InitiatorsError {
     PayloadSMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("ephemeral key {}", _0)]
+    EphemeralKey(InvalidPublicKey),
+    #[error("static key {}", _0)]
+    StaticKey(InvalidPublicKey),
 }
 
 #[derive(Debug, Error)]
@@ -63,6 +67,8 @@ pub enum RespondersError {
     PayloadRMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("static key {}", _0)]
+    StaticKey(InvalidPublicKey),
 }
 
 // the handshake variant is xx, but the initiator know responder pk
@@ -121,12 +127,14 @@ where
         .decrypt_line(payload_p)
         .map_err(InitiatorsError::PayloadPMac)?;
     let symmetric_state = symmetric_state.mix_hash(&peer_e_pkc.clone_line());
-    let peer_e_pk = PublicKey::decompress(peer_e_pkc);
+    let peer_e_pk =
+        PublicKey::try_decompress(peer_e_pkc).map_err(InitiatorsError::EphemeralKey)?;
     let (symmetric_state, peer_s_pkc) = symmetric_state
         .mix_shared_secret(&peer_e_pk.dh(&e_sk))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(InitiatorsError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).map_err(InitiatorsError::StaticKey)?;
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
@@ -263,7 +271,8 @@ where
         .mix_shared_secret(&s_pk.decapsulate(&s_sk, &peer_s_ct))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(RespondersError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).map_err(RespondersError::StaticKey)?;
     let (symmetric_state, payload_r) = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
         .decrypt_line(payload_r)
-- 
2.43.0


From eb44fd8d1d0aa9874ba08d3d96a94201ef5eaa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 06/25] fix: session: refuse a serialized public key with an
 invalid point or a wrong hash

---
 vru-session/src/handshake/key.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 651ecbc..76adb75 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -165,11 +165,11 @@ mod implementations {
             D: de::Deserializer<'de>,
         {
             let LineLike(Concat(a, Concat(b, c))) = de::Deserialize::deserialize(deserializer)?;
-            Ok(PublicKey {
-                elliptic: LineValid::try_clone_array(&a).unwrap(),
-                lattice: Line::clone_array(&b),
-                lattice_hash: c,
-            })
+            let pk = PublicKey::try_decompress(Concat(a, b)).map_err(de::Error::custom)?;
+            if pk.lattice_hash != c {
+                return Err(de::Error::custom("lattice key hash mismatch"));
+            }
+            Ok(pk)
         }
     }
 
-- 
2.43.0


From 9c7f115038dc2e4807be8e7f044f192d8ba3b063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 07/25] fix: session: refuse an identity text of a wrong length

---
 vru-session/src/handshake/key.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 76adb75..4f2cc72 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -131,6 +131,9 @@ impl FromStr for Identity {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let bytes = base64::decode(s)?;
+        if bytes.len() != 33 {
+            return Err(base64::DecodeError::InvalidLength);
+        }
         let mut hash = Array::default();
         hash.as_mut_slice().clone_from_slice(&bytes[1..33]);
         Ok(Identity { hash })
-- 
2.43.0


From cd03063ccc589639008ccbabb2487e676ac4f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 08/25] fix: session: the initiator accepts only the identity
 it dialled

---
 vru-session/src/handshake/xx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index 0ad5dab..2318658 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -30,6 +30,7 @@ pub type Message2<Q, R> = (
 pub type Message3<S> = Concat<Ct, EncryptedDefault<S>>;
 
 pub struct InitiatorsEphemeral {
+    peer_s_pi: Identity,
     symmetric_state: SymmetricState<Noise, ChainingKey<Noise>>,
     e_pk: PublicKey,
     e_sk: SecretKey,
@@ -53,6 +54,8 @@ pub enum InitiatorsError {
     PayloadSMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("static key does not match the identity")]
+    IdentityMismatch,
     #[error("ephemeral key {}", _0)]
     EphemeralKey(InvalidPublicKey),
     #[error("static key {}", _0)]
@@ -89,6 +92,7 @@ pub fn out0(seed: &Array<typenum::U96>, peer_s_pi: &Identity) -> (InitiatorsEphe
 
     (
         InitiatorsEphemeral {
+            peer_s_pi: peer_s_pi.clone(),
             symmetric_state,
             e_pk,
             e_sk,
@@ -117,6 +121,7 @@ where
 {
     let (Concat(peer_e_ct, payload_p), peer_e_pkc, enc_peer_s_pkc) = message;
     let InitiatorsEphemeral {
+        peer_s_pi,
         symmetric_state,
         e_pk,
         e_sk,
@@ -135,6 +140,9 @@ where
         .map_err(InitiatorsError::StaticKeyMac)?;
     let peer_s_pk =
         PublicKey::try_decompress(peer_s_pkc).map_err(InitiatorsError::StaticKey)?;
+    if peer_s_pk.identity() != peer_s_pi {
+        return Err(InitiatorsError::IdentityMismatch);
+    }
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
-- 
2.43.0


From 364d9e990743b3559ccf01006fb7e282c60fb632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 09/25] fix: rac: an encoded signature verifies after it is
 read back

---
 rac/src/curve25519_dalek_m.rs | 6 ++++++
 rac/src/elliptic.rs           | 6 ++++++
 rac/src/schnorr.rs            | 9 ++++++---
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/rac/src/curve25519_dalek_m.rs b/rac/src/curve25519_dalek_m.rs
index c35cfbb..9133d2b 100644
--- a/rac/src/curve25519_dalek_m.rs
+++ b/rac/src/curve25519_dalek_m.rs
@@ -26,6 +26,12 @@ impl LineValid for C25519Scalar {
 }
 
 impl Scalar for C25519Scalar {
+    fn decode(a: &Array<Self::Length>) -> Result<Self, ()> {
+        let mut buffer = [0; 32];
+        buffer.clone_from_slice(a.as_slice());
+        C25519Scalar::from_canonical_bytes(buffer).ok_or(())
+    }
+
     fn add_ff(&self, rhs: &Self) -> Result<Self, ()> {
         Ok(self + rhs)
     }
diff --git a/rac/src/elliptic.rs b/rac/src/elliptic.rs
index 4d23e80..4761a52 100644
--- a/rac/src/elliptic.rs
+++ b/rac/src/elliptic.rs
@@ -5,6 +5,12 @@ pub trait Scalar
 where
     Self: LineValid,
 {
+    /// Inverse of `clone_line` for every scalar, including a result of the arithmetic below,
+    /// whereas `try_clone_array` may adjust the bytes to make a secret key.
+    fn decode(a: &Array<Self::Length>) -> Result<Self, ()> {
+        Self::try_clone_array(a)
+    }
+
     fn add_ff(&self, rhs: &Self) -> Result<Self, ()>;
     fn sub_ff(&self, rhs: &Self) -> Result<Self, ()>;
     fn mul_ff(&self, rhs: &Self) -> Result<Self, ()>;
diff --git a/rac/src/schnorr.rs b/rac/src/schnorr.rs
index 09ae327..ae5e4ff 100644
--- a/rac/src/schnorr.rs
+++ b/rac/src/schnorr.rs
@@ -45,9 +45,12 @@ where
     type Length = <Concat<Array<C::CoordinateLength>, C::Scalar> as LineValid>::Length;
 
     fn try_clone_array(a: &Array<Self::Length>) -> Result<Self, ()> {
-        Concat::try_clone_array(a).map(|Concat(r, s)| Schnorr {
-            r: r,
-            s: s,
+        use generic_array::typenum::Unsigned;
+
+        let m = <C::CoordinateLength as Unsigned>::USIZE;
+        Ok(Schnorr {
+            r: Array::clone_from_slice(&a[..m]),
+            s: C::Scalar::decode(Array::from_slice(&a[m..]))?,
             phantom_data: PhantomData,
         })
     }
-- 
2.43.0


From a06ee6e1dcb1ec47ed1ba81a3300ed2cef804fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:27 +0000
Subject: [PATCH 10/25] fix: udp: copy the whole opening message into the
 datagram

---
 vru-udp/src/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 87e3f60..903519b 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -186,7 +186,7 @@ impl NodeState {
                 rand::Rng::fill(&mut rand::thread_rng(), seed.as_mut());
                 let mut datagram = Datagram::default();
                 let (state, message) = xx::out0(&seed, &peer_pi);
-                datagram.as_mut()[..1120].clone_from_slice(&message.0.clone_line());
+                datagram.as_mut()[..1120].clone_from_slice(&message.clone_line());
                 rand::Rng::fill(&mut rand::thread_rng(), datagram.as_mut()[1120..].as_mut());
                 if let Err(error) = self.socket.send_to(datagram.as_ref(), address) {
                     self.sender
-- 
2.43.0


From cd17d58174dd997aba05a69dac3da1f5599f56ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:27 +0000
Subject: [PATCH 11/25] fix: udp: report a datagram longer than expected
 instead of cutting it off

---
 vru-udp/src/global.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 903519b..fdf88ae 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -153,13 +153,18 @@ impl NodeState {
                     Err(error) => self.sender.report(Event::Error(Error::ReadSocket(error))),
                 }
             }
-            let mut datagram = Datagram::default();
-            match self.socket.recv_from(datagram.as_mut()) {
+            // one byte more than a datagram should have, to notice a longer one
+            let mut buffer = [0; Datagram::SIZE + 1];
+            match self.socket.recv_from(buffer.as_mut()) {
                 Ok((length, address)) => {
                     if length != Datagram::SIZE {
                         self.sender
                             .report(Event::Error(Error::FrameSize(address, length)));
                     } else {
+                        let mut datagram = Datagram::default();
+                        datagram
+                            .as_mut()
+                            .clone_from_slice(&buffer[..Datagram::SIZE]);
                         self.process(address, datagram);
                     }
                 },
-- 
2.43.0


From 5eccab1462a464094538a6a171e163f070580593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 12/25] fix: udp: do not borrow the handles twice when a peer
 gets its first command

---
 vru-udp/src/global.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index fdf88ae..28b6992 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -106,14 +106,15 @@ impl Node {
                 destination,
                 command,
             } => {
-                if let Some(handle) = self.handles.borrow().get(&destination) {
+                let mut handles = self.handles.borrow_mut();
+                if let Some(handle) = handles.get(&destination) {
                     handle.send(command);
                 } else {
                     let mut h = self.pending_handles.lock().unwrap();
                     if let Some(handle) = h.remove(&destination) {
                         drop(h);
                         handle.send(command);
-                        self.handles.borrow_mut().insert(destination, handle);
+                        handles.insert(destination, handle);
                     }
                 }
             },
-- 
2.43.0


From 67a64f2bde036a2eec85715b6fee21cc24cdab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 13/25] fix: udp: a command does not end the connection's
 worker

---
 vru-udp/src/local.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 55c656a..afb47e3 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -82,10 +82,16 @@ impl PeerState {
     fn run(self) {
         // TODO:
         let _ = (&self.sk, &self.pk, &self.handshake_state);
-        while let Ok(PeerMessage::Network { address, datagram }) = self.receiver.recv() {
-            let _ = datagram;
-            self.event_sender
-                .report(Event::Info(format!("process connection with: {}", address)));
+        while let Ok(message) = self.receiver.recv() {
+            match message {
+                PeerMessage::Network { address, datagram } => {
+                    let _ = datagram;
+                    self.event_sender
+                        .report(Event::Info(format!("process connection with: {}", address)));
+                },
+                // TODO:
+                PeerMessage::Command(_) => (),
+            }
         }
     }
 }
-- 
2.43.0


From c46367eade488cc008a406eea811425cbc34d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:56 +0000
Subject: [PATCH 14/25] fix: udp: stopping ends and joins the workers of all
 connections

---
 vru-udp/src/global.rs | 4 ++--
 vru-udp/src/local.rs  | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 28b6992..bf116e6 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -141,13 +141,13 @@ impl NodeState {
         sources.register((), &self.socket, interest::READ);
         let mut events = Events::with_capacity(1);
 
-        while running.load(Ordering::Acquire) {
+        'main: while running.load(Ordering::Acquire) {
             loop {
                 match sources.wait_timeout(&mut events, Duration::from_secs(2)) {
                     Ok(()) => break,
                     Err(error) if error.kind() == io::ErrorKind::TimedOut => {
                         if !running.load(Ordering::Acquire) {
-                            return;
+                            break 'main;
                         }
                     },
                     Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index afb47e3..3d591aa 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -11,6 +11,7 @@ enum PeerMessage {
         datagram: Datagram,
     },
     Command(LocalCommand),
+    Stop,
 }
 
 pub struct Peer {
@@ -26,6 +27,8 @@ impl Peer {
     }
 
     pub fn join(self) {
+        // the handle may live longer, so the worker does not see the channel closed
+        let _ = self.sender.send(PeerMessage::Stop);
         self.worker_thread.join().unwrap();
     }
 
@@ -65,7 +68,10 @@ pub struct PeerHandle {
 
 impl PeerHandle {
     pub fn send(&self, command: LocalCommand) {
-        self.sender.send(PeerMessage::Command(command)).unwrap()
+        match self.sender.send(PeerMessage::Command(command)) {
+            Ok(()) => (),
+            Err(mpsc::SendError(_)) => log::warn!("failed to send command: the node is stopped"),
+        }
     }
 }
 
@@ -91,6 +97,7 @@ impl PeerState {
                 },
                 // TODO:
                 PeerMessage::Command(_) => (),
+                PeerMessage::Stop => break,
             }
         }
     }
-- 
2.43.0


From 39851d30369433eb42ba3e99a2ab4ff3747deccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 15/25] fix: udp: an interrupted wait does not stop the node

---
 vru-udp/src/global.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index bf116e6..e38035c 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -145,12 +145,14 @@ impl NodeState {
             loop {
                 match sources.wait_timeout(&mut events, Duration::from_secs(2)) {
                     Ok(()) => break,
-                    Err(error) if error.kind() == io::ErrorKind::TimedOut => {
+                    Err(error)
+                        if error.kind() == io::ErrorKind::TimedOut
+                            || error.kind() == io::ErrorKind::Interrupted =>
+                    {
                         if !running.load(Ordering::Acquire) {
                             break 'main;
                         }
                     },
-                    Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
                     Err(error) => self.sender.report(Event::Error(Error::ReadSocket(error))),
                 }
             }
-- 
2.43.0


From 88b72c5380f11346dd210c8046bd6a72933d0d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 16/25] fix: tcp: report a failed connect instead of panicking

---
 vru-tcp/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 4e6346e..73e5141 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -107,7 +107,15 @@ where
     fn command(&self, command: Command<Self::Address>) {
         match command {
             Command::Connect { peer_pi, address } => {
-                let stream = TcpStream::connect(address).unwrap();
+                match TcpStream::connect(address) {
+                    Ok(stream) => (),
+                    Err(error) => match self.sender.send(Event::Error(NodeError::Io(error))) {
+                        Ok(()) => (),
+                        Err(mpsc::SendError(event)) => {
+                            log::warn!("failed to send event: {:?}", event)
+                        },
+                    },
+                }
             },
             _ => (),
         }
-- 
2.43.0


From 2b8c9eb56effb375c4d59071483545cd7e8035d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 17/25] fix: tcp: an interrupted wait does not stop the node

---
 vru-tcp/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 73e5141..90d3845 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -154,12 +154,14 @@ where
             loop {
                 match self.poll.poll(&mut events, Some(Duration::from_secs(1))) {
                     Ok(events) => break events,
-                    Err(error) if error.kind() == io::ErrorKind::TimedOut => {
+                    Err(error)
+                        if error.kind() == io::ErrorKind::TimedOut
+                            || error.kind() == io::ErrorKind::Interrupted =>
+                    {
                         if !running.load(Ordering::Acquire) {
                             return;
                         }
                     },
-                    Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
                     Err(error) => self.report(Event::Error(NodeError::Io(error))),
                 }
             }
-- 
2.43.0


From 269065ee1b5caea17d13239c35b7cbd0b4df1afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 18/25] fix: node: flush the new key before it is used

---
 vru-node/src/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 5f768c7..3bd1679 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -27,6 +27,7 @@ impl Database {
         } else {
             randomize(&mut s);
             self.db.insert(b"key_seed", s.as_ref())?;
+            self.db.flush()?;
         }
         Ok(PublicKey::gen(&s))
     }
-- 
2.43.0


From be39a65fc9241de5d5febf223f9a3f84dd7ca204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 19/25] fix: node: register the control socket once, not for
 every command

---
 vru-node/src/listener_unix.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index f64e4d1..45db38c 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -33,10 +33,13 @@ impl CommandListener {
         P: AsRef<Path>,
     {
         let _ = fs::remove_file(&path);
+        let listener = UnixListener::bind(path)?;
+        let mut sources = Sources::with_capacity(1);
+        sources.register((), &listener, interest::READ);
         Ok(CommandListener {
             running,
-            listener: UnixListener::bind(path)?,
-            sources: Sources::with_capacity(1),
+            listener,
+            sources,
             events: Events::with_capacity(1),
         })
     }
@@ -59,9 +62,6 @@ where
     type Item = bincode::Result<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.inner
-            .sources
-            .register((), &self.inner.listener, interest::READ);
         loop {
             match self
                 .inner
-- 
2.43.0


From cf1ff4b138880925c1b863ca67730fa2d564d437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 20/25] fix: node: an interrupted wait does not end the program

---
 vru-node/src/listener_unix.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 45db38c..c303a18 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -68,27 +68,21 @@ where
                 .sources
                 .wait_timeout(&mut self.inner.events, Duration::from_secs(2))
             {
-                Ok(()) => break,
+                Ok(()) => match self.inner.listener.accept() {
+                    Ok((stream, _)) => return Some(bincode::deserialize_from(stream)),
+                    Err(error) if error.kind() == io::ErrorKind::Interrupted => continue,
+                    Err(error) => return Some(Err(error.into())),
+                },
                 Err(error) if error.kind() == io::ErrorKind::TimedOut => {
                     if !self.inner.running.load(Ordering::Acquire) {
                         return None;
                     }
                 },
-                Err(error) if error.kind() == io::ErrorKind::Interrupted => return None,
+                Err(error) if error.kind() == io::ErrorKind::Interrupted => continue,
                 Err(error) => {
                     return Some(Err(error.into()));
                 },
             }
         }
-        match self.inner.listener.accept() {
-            Ok((stream, _)) => Some(bincode::deserialize_from(stream)),
-            Err(error) => {
-                if error.kind() == io::ErrorKind::Interrupted {
-                    None
-                } else {
-                    Some(Err(error.into()))
-                }
-            },
-        }
     }
 }
-- 
2.43.0


From 938e46614198d415a9cd3198dc079d27d86c4f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 21/25] fix: node: take the commands of clients that connected
 before the stop

---
 vru-node/src/listener_unix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index c303a18..5312153 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -63,6 +63,7 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
+            let running = self.inner.running.load(Ordering::Acquire);
             match self
                 .inner
                 .sources
@@ -74,7 +75,7 @@ where
                     Err(error) => return Some(Err(error.into())),
                 },
                 Err(error) if error.kind() == io::ErrorKind::TimedOut => {
-                    if !self.inner.running.load(Ordering::Acquire) {
+                    if !running {
                         return None;
                     }
                 },
-- 
2.43.0


From 98c7b6294ca43a8ea32485257e572546fc27b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 22/25] fix: node: a silent client does not block the control
 socket

---
 vru-node/src/listener_unix.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 5312153..8a4b66d 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -1,5 +1,5 @@
 use std::{
-    os::unix::net::UnixListener,
+    os::unix::net::{UnixListener, UnixStream},
     path::Path,
     io, fs,
     sync::{
@@ -55,6 +55,17 @@ impl CommandListener {
     }
 }
 
+impl<T> CommandListenerIter<T>
+where
+    T: DeserializeOwned,
+{
+    fn receive(stream: UnixStream) -> bincode::Result<T> {
+        // a client which stays silent must not keep the others and the stop waiting
+        stream.set_read_timeout(Some(Duration::from_secs(2)))?;
+        bincode::deserialize_from(stream)
+    }
+}
+
 impl<T> Iterator for CommandListenerIter<T>
 where
     T: DeserializeOwned,
@@ -70,7 +81,7 @@ where
                 .wait_timeout(&mut self.inner.events, Duration::from_secs(2))
             {
                 Ok(()) => match self.inner.listener.accept() {
-                    Ok((stream, _)) => return Some(bincode::deserialize_from(stream)),
+                    Ok((stream, _)) => return Some(Self::receive(stream)),
                     Err(error) if error.kind() == io::ErrorKind::Interrupted => continue,
                     Err(error) => return Some(Err(error.into())),
                 },
-- 
2.43.0


From e9e56596ce5b07bcbd599a3af90e39adbc2a5701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 23/25] fix: client: refuse a command line that is not UTF-8
 instead of panicking

---
 vru-node/src/bin/client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vru-node/src/bin/client.rs b/vru-node/src/bin/client.rs
index 5ac0352..822bffd 100644
--- a/vru-node/src/bin/client.rs
+++ b/vru-node/src/bin/client.rs
@@ -1,5 +1,5 @@
 use std::{path::PathBuf, net::SocketAddr};
-use structopt::StructOpt;
+use structopt::{clap::AppSettings, StructOpt};
 use vru_session::handshake::Identity;
 
 #[derive(StructOpt)]
@@ -12,7 +12,9 @@ pub struct Args {
 
 #[derive(StructOpt)]
 pub enum Cmd {
+    #[structopt(setting = AppSettings::StrictUtf8)]
     Connect { peer: Identity, address: SocketAddr },
+    #[structopt(setting = AppSettings::StrictUtf8)]
     SendText { peer: Identity, text: String },
 }
 
-- 
2.43.0


From 88c6eec8a6998a2ececf3a59c6316218d34667c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 24/25] fix: node, client: accept a directory name that is not
 UTF-8

---
 vru-node/src/bin/client.rs | 2 +-
 vru-node/src/main.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vru-node/src/bin/client.rs b/vru-node/src/bin/client.rs
index 822bffd..9b8d509 100644
--- a/vru-node/src/bin/client.rs
+++ b/vru-node/src/bin/client.rs
@@ -4,7 +4,7 @@ use vru_session::handshake::Identity;
 
 #[derive(StructOpt)]
 pub struct Args {
-    #[structopt(long)]
+    #[structopt(long, parse(from_os_str))]
     path: PathBuf,
     #[structopt(subcommand)]
     cmd: Cmd,
diff --git a/vru-node/src/main.rs b/vru-node/src/main.rs
index ee29e10..c8a74f5 100644
--- a/vru-node/src/main.rs
+++ b/vru-node/src/main.rs
@@ -11,7 +11,7 @@ use structopt::StructOpt;
 
 #[derive(StructOpt)]
 struct Args {
-    #[structopt(long)]
+    #[structopt(long, parse(from_os_str))]
     path: PathBuf,
     #[structopt(long)]
     port: u16,
-- 
2.43.0


From 13ffba794bd891da0f3ab066bc3c71d687873b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 25/25] fix: node: a client that never finishes its command
 does not block the control socket

---
 vru-node/src/listener_unix.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 8a4b66d..c21de18 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -7,7 +7,7 @@ use std::{
         atomic::{Ordering, AtomicBool},
     },
     marker::PhantomData,
-    time::Duration,
+    time::{Duration, Instant},
 };
 use serde::de::DeserializeOwned;
 use popol::{Sources, Events, interest};
@@ -60,9 +60,26 @@ where
     T: DeserializeOwned,
 {
     fn receive(stream: UnixStream) -> bincode::Result<T> {
-        // a client which stays silent must not keep the others and the stop waiting
-        stream.set_read_timeout(Some(Duration::from_secs(2)))?;
-        bincode::deserialize_from(stream)
+        // a client which stays silent or never finishes must not keep the others and the stop waiting
+        let deadline = Instant::now() + Duration::from_secs(2);
+        bincode::deserialize_from(ReadUntil { stream, deadline })
+    }
+}
+
+struct ReadUntil {
+    stream: UnixStream,
+    deadline: Instant,
+}
+
+impl io::Read for ReadUntil {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        match self.deadline.checked_duration_since(Instant::now()) {
+            Some(left) if left > Duration::from_secs(0) => {
+                self.stream.set_read_timeout(Some(left))?;
+                self.stream.read(buf)
+            },
+            _ => Err(io::ErrorKind::TimedOut.into()),
+        }
     }
 }
 
-- 
2.43.0

