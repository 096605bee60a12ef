From 359537b4fa63fb4f662cd2784ef0dc05850f183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 1/5] fix: accept indexed values with empty content

An empty keyword or data is encoded as its one-byte prefix, but the decoder
rejected values shorter than two bytes: adding one made every later search
and compact operation reading it fail.
---
 src/findex_graph/structs.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/findex_graph/structs.rs b/src/findex_graph/structs.rs
index 00481d3..f723c47 100644
--- a/src/findex_graph/structs.rs
+++ b/src/findex_graph/structs.rs
@@ -64,11 +64,10 @@ impl<Tag: From<Vec<u8>>, Data: From<Vec<u8>>> TryFrom<&[u8]> for IndexedValue<Ta
     type Error = CoreError;
 
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
-        if value.len() < 2 {
-            return Err(Self::Error::Conversion(format!(
-                "indexed values should be at least two bytes long, {} given",
-                value.len()
-            )));
+        if value.is_empty() {
+            return Err(Self::Error::Conversion(
+                "indexed values should be at least one byte long, 0 given".to_string(),
+            ));
         }
         // TODO: change the leading value in v.7
         match value[0] {
-- 
2.43.0


From d1d17cf9ece88e95a21bc2b0339b82db22624493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 2/5] fix: do not delete existing entries when a compact
 operation fails

The insertion of the new entries fails without storing anything when one of
their tokens is already used. Deleting these tokens on such failure erased
entries this operation had not written.
---
 src/findex_mm/compact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 32d5d42..e5716a4 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -205,7 +205,6 @@ impl<
             }
         }
         let new_links_tokens = new_links.keys().copied().collect();
-        let new_entry_tokens = new_entries.keys().copied().collect();
 
         debug!(
             "Step 3: tries applying modifications, reverts modifications upon failure or removes \
@@ -231,8 +230,9 @@ impl<
             self.chain_table.delete(old_links).await?;
             self.entry_table.delete(old_entries).await?;
         } else {
+            // A failed `insert` does not store any entry: the ones found under these tokens
+            // belong to another index or to a concurrent operation and must be kept.
             self.chain_table.delete(new_links_tokens).await?;
-            self.entry_table.delete(new_entry_tokens).await?;
         }
 
         res
-- 
2.43.0


From f8c31eb76d88a973bf0dc7dc58170bf50a617164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 3/5] fix: refuse to compact two entries into the same token

Entries of the same keyword indexed under different labels share the token
generated for the new label: all but one were silently dropped while their
old entries were deleted.
---
 src/findex_mm/compact.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index e5716a4..f3d251a 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -196,11 +196,17 @@ impl<
             for (token, entry) in continuation.entries {
                 old_entries.insert(token);
                 if remaining_entry_tokens.get(&token).is_some() {
-                    new_entries.insert(
+                    let old_entry = new_entries.insert(
                         self.entry_table
                             .tokenize(new_key, &entry.tag_hash, Some(new_label)),
                         self.entry_table.prepare(rng, new_key, entry.into())?,
                     );
+                    if old_entry.is_some() {
+                        return Err(Error::Crypto(
+                            "cannot compact two entries of the same keyword into the same label"
+                                .to_string(),
+                        ));
+                    }
                 }
             }
         }
-- 
2.43.0


From ecd0acb722c970e65da062b2917c8b631e378bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 4/5] fix: write the value size when serializing the in-memory
 database

The deserializer reads the size of each value, as written by the previous
versions, but the serializer no longer wrote it: a serialized database could
not be read back. The announced length now also accounts for all prefixes.
---
 src/edx/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 0f64cae..7ed5564 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -166,7 +166,10 @@ pub mod in_memory {
     use async_trait::async_trait;
     use cosmian_crypto_core::CryptoCoreError;
     #[cfg(feature = "in_memory")]
-    use cosmian_crypto_core::{bytes_ser_de::Serializable, Nonce};
+    use cosmian_crypto_core::{
+        bytes_ser_de::{to_leb128_len, Serializable},
+        Nonce,
+    };
 
     use super::{
         DbInterface, Token, TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens,
@@ -242,8 +245,9 @@ pub mod in_memory {
         type Error = InMemoryDbError;
 
         fn length(&self) -> usize {
-            (self.lock().expect("could not lock mutex").deref()).len()
-                * (Token::LENGTH + NONCE_LENGTH + MAC_LENGTH + VALUE_LENGTH)
+            let n = self.len();
+            let value_length = EncryptedValue::<VALUE_LENGTH>::LENGTH;
+            to_leb128_len(n) + n * (Token::LENGTH + to_leb128_len(value_length) + value_length)
         }
 
         fn write(
@@ -254,6 +258,8 @@ pub mod in_memory {
             let mut n = ser.write_leb128_u64(table.len() as u64)?;
             for (k, v) in table.iter() {
                 n += ser.write_array(k)?;
+                // The size of the value is part of the format.
+                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;
                 n += ser.write_array(&v.nonce.0)?;
                 n += ser.write_array(&v.ciphertext)?;
                 n += ser.write_array(&v.tag)?;
@@ -268,7 +274,7 @@ pub mod in_memory {
             let mut table = HashMap::with_capacity(n);
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
-                // previous version used to write the size of the value.
+                // The size of the value is constant.
                 let _ = de.read_leb128_u64();
                 let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                 let ciphertext = de.read_array::<VALUE_LENGTH>()?;
-- 
2.43.0


From 073199230d5994c0e0d12fbcd9bc9a5282af8c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 5/5] fix: do not panic when deserializing a corrupted
 in-memory database

The number of lines is read from the input; allocating such a capacity
upfront panics or aborts on corrupted data instead of returning an error.
---
 src/edx/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 7ed5564..5855a09 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -271,7 +271,8 @@ pub mod in_memory {
             de: &mut cosmian_crypto_core::bytes_ser_de::Deserializer,
         ) -> Result<Self, Self::Error> {
             let n = de.read_leb128_u64()? as usize;
-            let mut table = HashMap::with_capacity(n);
+            // Do not allocate from the announced length: it is not trusted.
+            let mut table = HashMap::new();
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
                 // The size of the value is constant.
-- 
2.43.0

