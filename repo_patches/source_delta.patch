From 019a5a21565f8d5f0b2144e39e28ad76f6bdd207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:45 +0000
Subject: [PATCH 01/17] fix: reject secp256k1 signatures that do not verify

verify_hashed discarded the boolean result of libsecp256k1::verify, so any
well-formed DER signature was accepted for any message and key.
---
 keypair/src/secp256k1.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keypair/src/secp256k1.rs b/keypair/src/secp256k1.rs
index 64c4a85..b2f14ef 100644
--- a/keypair/src/secp256k1.rs
+++ b/keypair/src/secp256k1.rs
@@ -174,6 +174,13 @@ impl PublicKey {
                 libsecp256k1::Signature::parse_der(sig)
                     .map(|s| libsecp256k1::verify(&m, &s, &self.0))
             })
+            .and_then(|verified| {
+                if verified {
+                    Ok(())
+                } else {
+                    Err(libsecp256k1::Error::InvalidSignature)
+                }
+            })
             .map_err(|e| {
                 VerificationError::Secp256k1(
                     e,
@@ -181,7 +188,6 @@ impl PublicKey {
                     bs58::encode(self.0.serialize_compressed()).into_string(),
                 )
             })
-            .map(|_| ())
     }
 
     /// Encode the public key in compressed form, i.e. with one coordinate
-- 
2.43.0


From 5eced4c313f4706acfa2f725f2a488c2f8b38396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:45 +0000
Subject: [PATCH 02/17] fix: return an error for empty public keys and
 signatures instead of panicking

---
 keypair/src/public_key.rs | 3 ++-
 keypair/src/signature.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/keypair/src/public_key.rs b/keypair/src/public_key.rs
index 483b06b..e61223b 100644
--- a/keypair/src/public_key.rs
+++ b/keypair/src/public_key.rs
@@ -68,7 +68,8 @@ impl PublicKey {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<PublicKey, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        let prefix = *bytes.first().ok_or(DecodingError::InvalidTypeByte)?;
+        match KeyFormat::try_from(prefix)? {
             KeyFormat::Ed25519 => Ok(PublicKey::Ed25519(ed25519::PublicKey::decode(&bytes[1..])?)),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(PublicKey::Rsa(rsa::PublicKey::from_pkcs1(
diff --git a/keypair/src/signature.rs b/keypair/src/signature.rs
index fc89472..c33bd8f 100644
--- a/keypair/src/signature.rs
+++ b/keypair/src/signature.rs
@@ -64,7 +64,8 @@ impl Signature {
 
     /// decode with first byte set as keypair type
     pub fn decode(bytes: Vec<u8>) -> Result<Self, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        let prefix = *bytes.first().ok_or(DecodingError::InvalidTypeByte)?;
+        match KeyFormat::try_from(prefix)? {
             KeyFormat::Ed25519 => Ok(Signature::Ed25519(ed25519::Signature(bytes[1..].to_vec()))),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(Signature::Rsa(rsa::Signature(bytes[1..].to_vec()))),
-- 
2.43.0


From 7e04721b257d270cab86bd54b370ec6bea3522f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:45 +0000
Subject: [PATCH 03/17] fix: refuse trailing bytes after an encoded trust
 instead of panicking

---
 trust-graph/src/trust.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust.rs b/trust-graph/src/trust.rs
index 7618da5..d872700 100644
--- a/trust-graph/src/trust.rs
+++ b/trust-graph/src/trust.rs
@@ -206,7 +206,11 @@ impl Trust {
         offset += EXPIRATION_LEN;
 
         Self::check_arr_len(arr, "issued", offset + ISSUED_LEN)?;
-        let issued_bytes = &arr[offset..];
+        let issued_bytes = &arr[offset..offset + ISSUED_LEN];
+        offset += ISSUED_LEN;
+        if arr.len() != offset {
+            return Err(DecodeErrorInvalidSize("trust".to_string()));
+        }
         let issued_date = u64::from_le_bytes(issued_bytes.try_into().unwrap());
         let issued_date = Duration::from_secs(issued_date);
 
-- 
2.43.0


From bea616075ec28c0f8a7c2d8f214908c22a77afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:45 +0000
Subject: [PATCH 04/17] fix: refuse certificate texts without format and
 version lines instead of panicking

---
 trust-graph/src/certificate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index bf78daf..5f5f7e3 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -310,6 +310,10 @@ impl FromStr for Certificate {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let str_lines: Vec<&str> = s.lines().collect();
 
+        if str_lines.len() < 2 {
+            return Err(IncorrectCertificateFormat(s.to_string()));
+        }
+
         // TODO for future purposes
         let _format = str_lines[0];
         let _version = str_lines[1];
-- 
2.43.0


From dcb4e1f3ae2da64afb98ad6a0b2ae3ec69190cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:45 +0000
Subject: [PATCH 05/17] fix: refuse to extend an empty certificate instead of
 panicking

---
 trust-graph/src/certificate.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index 5f5f7e3..6c48d78 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -101,11 +101,8 @@ impl Certificate {
             });
         }
 
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
         // check if `issued_by` is allowed to issue a certificate (i.e., there’s a trust for it in a chain)
         let mut previous_trust_num: i32 = -1;
         for pk_id in 0..extend_cert.chain.len() {
@@ -166,11 +163,8 @@ impl Certificate {
         }
 
         // first, verify given certificate
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
 
         let issued_by_pk = issued_by.public();
 
-- 
2.43.0


From adc30ae605187b6602effea0fdaef9f205b4f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:45 +0000
Subject: [PATCH 06/17] fix: verify the appended trust in
 Certificate::issue_with_trust

---
 trust-graph/src/certificate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index 6c48d78..b067670 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -122,6 +122,10 @@ impl Certificate {
             .0
             .to_vec();
 
+        // the trust must be signed by `issued_by` and must not be expired
+        Trust::verify(&trust, &issued_by, cur_time)
+            .map_err(|e| VerificationError(new_chain.len(), e))?;
+
         new_chain.push(trust);
 
         Ok(Self { chain: new_chain })
-- 
2.43.0


From d1d09017f1a13369bf212783dc4c784b7e0e080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:45 +0000
Subject: [PATCH 07/17] fix: serialize PublicKeyHashable in the form it is
 deserialized from

It was written as raw bytes but read as a base58 string, so json and bincode
values could not be read back.
---
 trust-graph/src/public_key_hashable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trust-graph/src/public_key_hashable.rs b/trust-graph/src/public_key_hashable.rs
index 4ac8c54..31918c3 100644
--- a/trust-graph/src/public_key_hashable.rs
+++ b/trust-graph/src/public_key_hashable.rs
@@ -94,7 +94,7 @@ impl serde::Serialize for PublicKeyHashable {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(&self.0.encode())
+        serializer.collect_str(self)
     }
 }
 
-- 
2.43.0


From c91e2005465fd33cf83b84d9127e78b92075890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:31 +0000
Subject: [PATCH 08/17] fix: apply revocations of the first issuer when
 searching for chains

---
 trust-graph/src/trust_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 3da6716..3fa0986 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -279,7 +279,13 @@ where
 
         // put all auth in the queue as the first possible paths through the graph
         for auth in node_auths {
-            chains_queue.push_back(Chain::new(NonEmpty::new(auth), node_revocations.clone()));
+            // revocations of the issuer apply to this chain as well as revocations of the node itself
+            let issuer_revocations = self
+                .storage
+                .get_revocations(&auth.issued_by.clone().into())?;
+            let mut chain = Chain::new(NonEmpty::new(auth), node_revocations.clone());
+            chain.add_revocations(issuer_revocations);
+            chains_queue.push_back(chain);
         }
 
         // List of all chains that converge (terminate) to known roots
-- 
2.43.0


From 90e315274aaf691827b6a0bf5ea5c55a75ca80ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:33 +0000
Subject: [PATCH 09/17] fix: leave out chains longer than the maximum set for
 their root

---
 trust-graph/src/trust_graph.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 3fa0986..c602833 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -319,12 +319,21 @@ where
             // - end with a self-signed trust
             // - that trust must converge to one of the roots
             // - there should be more than 1 trust in the chain
+            // - it should not be longer than the root allows
             let self_signed = last.issued_by == last.trust.issued_for;
             let issued_by: &PK = last.issued_by.as_ref();
             let converges_to_root = roots.contains(issued_by);
 
             if self_signed && converges_to_root && cur_chain.auths.len() > 1 {
-                terminated_chains.push(cur_chain.auths.into());
+                let root_weight_factor = self
+                    .storage
+                    .get_root_weight_factor(issued_by)?
+                    .ok_or(NoRoot)?;
+                let weight_factor = root_weight_factor + cur_chain.auths.len() as u32 - 1;
+
+                if weight_factor <= MAX_WEIGHT_FACTOR {
+                    terminated_chains.push(cur_chain.auths.into());
+                }
             }
         }
 
-- 
2.43.0


From 5ff868d3ce64dd4c272775cc39d7b25b5c28418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:09 +0000
Subject: [PATCH 10/17] fix: replace the previous setting when a root is set
 again

---
 service/src/storage_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index 008623f..bdfdd5e 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -44,7 +44,7 @@ pub fn create_tables() {
     connection
         .execute(
             "CREATE TABLE IF NOT EXISTS roots(
-        public_key TEXT,
+        public_key TEXT PRIMARY KEY,
         weight_factor INTEGER
         );",
         )
-- 
2.43.0


From c45df664406d7b73d8450fdc4a1e7303c3a8d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:09 +0000
Subject: [PATCH 11/17] fix: keep trusts that expire after i64::MAX seconds

---
 service/src/storage_impl.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index bdfdd5e..adb3517 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -339,15 +339,17 @@ impl Storage for SQLiteStorage {
     }
 
     fn remove_expired(&mut self, cur_time: Duration) -> Result<(), Self::Error> {
+        // expiration times above `i64::MAX` are stored as negative integers, they are in the far future
         let mut cursor = self
             .connection
-            .prepare("DELETE FROM trust_relations WHERE expires_at <= ? AND relation_type = ?")?
+            .prepare(
+                "DELETE FROM trust_relations \
+             WHERE expires_at >= 0 AND expires_at <= ? AND relation_type = ?",
+            )?
             .cursor();
 
-        cursor.bind(&[
-            Value::Integer(cur_time.as_secs() as i64),
-            Value::Integer(AUTH_TYPE),
-        ])?;
+        let cur_time = i64::try_from(cur_time.as_secs()).unwrap_or(i64::MAX);
+        cursor.bind(&[Value::Integer(cur_time), Value::Integer(AUTH_TYPE)])?;
 
         cursor.next()?;
 
-- 
2.43.0


From 9bc009da311c6136a05c743d79c60cb1e3376b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:09 +0000
Subject: [PATCH 12/17] fix: check the provenance of the timestamp argument in
 get_weight_from

---
 service/src/service_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index ecd45cb..58047ae 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -139,7 +139,7 @@ fn get_weight(peer_id: String, timestamp_sec: u64) -> WeightResult {
 #[marine]
 fn get_weight_from(peer_id: String, issuer: String, timestamp_sec: u64) -> WeightResult {
     with_tg(|tg| {
-        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 2)?;
         let issued_for_pk = extract_public_key(peer_id.clone())?;
         let issuer_pk = extract_public_key(issuer)?;
         let weight =
-- 
2.43.0


From e35df7cf6eff0ed4f9d3550df869efdac0450bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:30 +0000
Subject: [PATCH 13/17] fix: refuse certificates with trusts issued later than
 the current timestamp

---
 service/src/service_api.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index 58047ae..1c991d8 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -34,6 +34,22 @@ fn set_root(peer_id: String, max_chain_len: u32) -> SetRootResult {
     }
 }
 
+/// A certificate can't contain trusts issued later than the current timestamp
+fn check_issue_times(
+    certificate: &trust_graph::Certificate,
+    timestamp_sec: Duration,
+) -> Result<(), ServiceError> {
+    if certificate
+        .chain
+        .iter()
+        .any(|trust| trust.issued_at > timestamp_sec)
+    {
+        return Err(ServiceError::InvalidTimestamp("trust".to_string()));
+    }
+
+    Ok(())
+}
+
 #[marine]
 /// add a certificate in string representation to trust graph if it is valid
 /// see `trust_graph::Certificate` class for string encoding/decoding
@@ -41,6 +57,7 @@ fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
         let certificate = trust_graph::Certificate::from_str(&certificate)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
+        check_issue_times(&certificate, timestamp_sec)?;
         tg.add(certificate, timestamp_sec)?;
         Ok(())
     })
@@ -53,10 +70,9 @@ fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
 fn insert_cert(certificate: Certificate, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
         let timestamp_sec = Duration::from_secs(timestamp_sec);
-        tg.add(
-            trust_graph::Certificate::try_from(certificate)?,
-            timestamp_sec,
-        )?;
+        let certificate = trust_graph::Certificate::try_from(certificate)?;
+        check_issue_times(&certificate, timestamp_sec)?;
+        tg.add(certificate, timestamp_sec)?;
         Ok(())
     })
     .into()
-- 
2.43.0


From 51a62707491d2c8fedd6793aada8661e71e179bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:23 +0000
Subject: [PATCH 14/17] fix: refuse bytes after the last trust of an encoded
 certificate

---
 trust-graph/src/certificate.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index b067670..1edf2bd 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -287,6 +287,11 @@ impl Certificate {
             offset += 1 + trust_len;
         }
 
+        // nothing may follow the announced trusts
+        if offset != arr.len() {
+            return Err(CertificateError::IncorrectByteLength);
+        }
+
         Ok(Self { chain })
     }
 }
-- 
2.43.0


From 0acca6ddc24308135d72339caa9a4b9ecad9c8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:02 +0000
Subject: [PATCH 15/17] fix: take secp256k1 secrets from the operating system

The thread's generator keeps a buffer, which a forked process shares: two
processes could generate the same key. Ed25519 keys are made this way already.
---
 keypair/src/secp256k1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keypair/src/secp256k1.rs b/keypair/src/secp256k1.rs
index b2f14ef..5c84e9f 100644
--- a/keypair/src/secp256k1.rs
+++ b/keypair/src/secp256k1.rs
@@ -91,7 +91,7 @@ impl fmt::Debug for SecretKey {
 impl SecretKey {
     /// Generate a new Secp256k1 secret key.
     pub fn generate() -> Self {
-        let mut r = rand::thread_rng();
+        let mut r = rand::rngs::OsRng;
         let mut b = [0; libsecp256k1::util::SECRET_KEY_SIZE];
         // This is how it is done in `secp256k1::SecretKey::random` which
         // we do not use here because it uses `rand::Rng` from rand-0.4.
-- 
2.43.0


From 72797535937cff1ce37a45b76237ba416a520594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:24 +0000
Subject: [PATCH 16/17] fix: expire trusts that expire after i64::MAX seconds

---
 service/src/storage_impl.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index adb3517..76e49f3 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -339,17 +339,21 @@ impl Storage for SQLiteStorage {
     }
 
     fn remove_expired(&mut self, cur_time: Duration) -> Result<(), Self::Error> {
-        // expiration times above `i64::MAX` are stored as negative integers, they are in the far future
+        // times above `i64::MAX` are stored as negative integers, they come after all others
         let mut cursor = self
             .connection
             .prepare(
                 "DELETE FROM trust_relations \
-             WHERE expires_at >= 0 AND expires_at <= ? AND relation_type = ?",
+             WHERE (expires_at < 0, expires_at) <= (? < 0, ?) AND relation_type = ?",
             )?
             .cursor();
 
-        let cur_time = i64::try_from(cur_time.as_secs()).unwrap_or(i64::MAX);
-        cursor.bind(&[Value::Integer(cur_time), Value::Integer(AUTH_TYPE)])?;
+        let cur_time = cur_time.as_secs() as i64;
+        cursor.bind(&[
+            Value::Integer(cur_time),
+            Value::Integer(cur_time),
+            Value::Integer(AUTH_TYPE),
+        ])?;
 
         cursor.next()?;
 
-- 
2.43.0


From 4df296b79ed9851691e50e3ac1cd918777d9f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:24 +0000
Subject: [PATCH 17/17] fix: stop the admin tool when a node refuses a step

---
 admin/index.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/admin/index.ts b/admin/index.ts
index 5600508..dedf438 100644
--- a/admin/index.ts
+++ b/admin/index.ts
@@ -35,9 +35,15 @@ let local: Node[] = [
 
 async function issue_trust_helper(node: string, issuer_kp: KeyPair, issuer_peer_id: string, issued_for_peer_id: string, expires_at_sec: number, issued_at_sec: number) {
     let trust_metadata = await get_trust_bytes(node, issued_for_peer_id, expires_at_sec, issued_at_sec);
+    if (!trust_metadata.success) {
+        throw new Error(`cannot get bytes of a trust for ${issued_for_peer_id}: ${trust_metadata.error}`);
+    }
     const signed_metadata = await issuer_kp.Libp2pPeerId.privKey.sign(Uint8Array.from(trust_metadata.result));
 
     let trust = await issue_trust(node, issued_for_peer_id, expires_at_sec, issued_at_sec, Array.from(signed_metadata));
+    if (!trust.success) {
+        throw new Error(`cannot issue a trust for ${issued_for_peer_id}: ${trust.error}`);
+    }
     return trust.trust
 }
 
-- 
2.43.0

