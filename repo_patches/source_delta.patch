From 8414e8270d9ebfa0fd1f607141f78d1e3c2103de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 01/56] hook: cfg(kryoptic_verif) module and in-memory storage
 registration for the verification harness

---
 src/lib.rs         | 7 +++++++
 src/storage/mod.rs | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 111a908..05f3c39 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,6 +40,13 @@ mod log;
 pub mod fns;
 pub mod pkcs11;
 
+/* Verification harness hook: compiled only with --cfg kryoptic_verif */
+#[allow(unexpected_cfgs)]
+#[cfg(kryoptic_verif)]
+pub mod verif {
+    include!(concat!(env!("KRYOPTIC_VERIF_DIR"), "/inlib.rs"));
+}
+
 use config::Config;
 use error::Result;
 use pkcs11::*;
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 7a09190..15859e7 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -158,6 +158,11 @@ static STORAGE_DBS: LazyLock<Vec<&'static dyn StorageDBInfo>> =
         #[cfg(feature = "nssdb")]
         v.push(&nssdb::DBINFO);
 
+        /* Verification harness hook: in-memory storage backend */
+        #[allow(unexpected_cfgs)]
+        #[cfg(kryoptic_verif)]
+        v.push(&crate::verif::DBINFO);
+
         v
     });
 
-- 
2.43.0


From 70451b5b1a303dd2e8df1c44e15930c84e3b8c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 02/56] hook: cfg(kryoptic_verif) setter for the storage PBKDF2
 work factor

---
 src/storage/aci.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/storage/aci.rs b/src/storage/aci.rs
index d0e3f88..1711221 100644
--- a/src/storage/aci.rs
+++ b/src/storage/aci.rs
@@ -436,6 +436,13 @@ impl StorageACI {
         }
     }
 
+    /* Verification harness hook: bounds the PBKDF2 work factor */
+    #[allow(unexpected_cfgs)]
+    #[cfg(kryoptic_verif)]
+    pub fn set_iterations(&mut self, iterations: usize) {
+        self.def_iterations = iterations;
+    }
+
     /// Returns `true` if storage encryption is enabled.
     pub fn encrypts(&self) -> bool {
         self.encrypt
-- 
2.43.0


From cbd3aaccc8b8f60f268b85672a5635b9ae9beaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:20 +0000
Subject: [PATCH 03/56] fix: sessions opened while the SO is logged in report
 CKS_RW_SO_FUNCTIONS

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index ab48f2a..35f2c78 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -352,7 +352,7 @@ impl Session {
                     }
                     CKU_SO => {
                         if rw {
-                            CKS_RW_USER_FUNCTIONS
+                            CKS_RW_SO_FUNCTIONS
                         } else {
                             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
                         }
-- 
2.43.0


From 65743e743793f7834f3ee7bf37dc4cda21fa3e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 04/56] fix: setting a PIN clears the token's stale
 PIN-locked/count-low flags

---
 src/token.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index 8c7ce83..22cc67f 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -313,6 +313,8 @@ impl Token {
 
         self.storage.set_user_pin(&self.facilities, utype, pin)?;
 
+        /* setting a PIN resets the failed attempts counter */
+        self.update_auth_flags(utype, 0);
         if utype == CKU_USER {
             self.info.flags |= CKF_USER_PIN_INITIALIZED;
         }
-- 
2.43.0


From a0e1da48f74352a2a0331e3813ca45eedc9d855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 05/56] fix: class, key type, secret value and length of an
 object cannot be changed by set or copy

---
 src/aes.rs            |  6 +++---
 src/hotp.rs           |  8 ++++----
 src/object/factory.rs |  2 +-
 src/object/key.rs     | 12 ++++++------
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index d51d0ae..fc720d4 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -110,10 +110,10 @@ impl AesKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Defval | OAFlags::Sensitive
-            | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate;
-            Attribute::from_bytes; val Vec::new()));
+            | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate
+            | OAFlags::Unchangeable; Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate;
+            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
 
         factory.data.finalize();
diff --git a/src/hotp.rs b/src/hotp.rs
index 3047024..308490d 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -68,11 +68,11 @@ impl HOTPKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
-            | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
-            val Vec::new()));
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE_LEN; OAFlags::Defval; Attribute::from_ulong;
-            val 20));
+            CKA_VALUE_LEN; OAFlags::Defval | OAFlags::Unchangeable;
+            Attribute::from_ulong; val 20));
 
         /* default to true CKA_PRIVATE, CKA_SIGN, CKA_VERIFY */
         let private = attr_element!(
diff --git a/src/object/factory.rs b/src/object/factory.rs
index 4d74146..61d6fcb 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -265,7 +265,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
     fn add_common_object_attrs(&mut self) {
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_CLASS; OAFlags::RequiredOnCreate;
+            CKA_CLASS; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
             CKA_UNIQUE_ID; OAFlags::NeverSettable | OAFlags::Unchangeable;
diff --git a/src/object/key.rs b/src/object/key.rs
index ade2b24..085fb07 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -25,8 +25,8 @@ pub trait KeyFactory: ObjectFactory {
         self.add_common_storage_attrs(private);
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_KEY_TYPE; OAFlags::RequiredOnCreate; Attribute::from_ulong;
-            val CK_UNAVAILABLE_INFORMATION));
+            CKA_KEY_TYPE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
+            Attribute::from_ulong; val CK_UNAVAILABLE_INFORMATION));
         attrs.push(attr_element!(
             CKA_ID; OAFlags::empty(); Attribute::from_bytes;
             val Vec::new()));
@@ -528,11 +528,11 @@ impl GenericSecretKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
-            | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
-            val Vec::new()));
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate; Attribute::from_bytes;
-            val Vec::new()));
+            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
 
         /* default to private */
         let private = attr_element!(
-- 
2.43.0


From 10844186f210371f7a3b7e643ea53e4cc7390ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 06/56] fix: unwrapped keys carry CKA_LOCAL,
 CKA_ALWAYS_SENSITIVE and CKA_NEVER_EXTRACTABLE set to false

---
 src/object/key.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/object/key.rs b/src/object/key.rs
index 085fb07..c931d34 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -122,11 +122,16 @@ pub trait KeyFactory: ObjectFactory {
     ///
     /// Uses `internal_key_create()` with appropriate flags.
     fn key_unwrap(&self, template: &[CK_ATTRIBUTE]) -> Result<Object> {
-        self.internal_key_create(
+        let mut obj = self.internal_key_create(
             template,
             OAFlags::SettableOnlyOnCreate | OAFlags::NeverSettable,
             OAFlags::AlwaysRequired,
-        )
+        )?;
+        /* the key material came from outside of the token */
+        obj.set_attr(Attribute::from_bool(CKA_LOCAL, false))?;
+        obj.set_attr(Attribute::from_bool(CKA_ALWAYS_SENSITIVE, false))?;
+        obj.set_attr(Attribute::from_bool(CKA_NEVER_EXTRACTABLE, false))?;
+        Ok(obj)
     }
 
     /// The internal key object derivation function
-- 
2.43.0


From 21e0a752adc1ae6973d8422d8698aa8684c697e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 07/56] fix: C_CopyObject refuses attributes that applications
 can never set

---
 src/object/factory.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 61d6fcb..7e98cfe 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -408,6 +408,9 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
+                    if attr.is(OAFlags::NeverSettable) {
+                        return Err(CKR_ATTRIBUTE_READ_ONLY)?;
+                    }
                     if attr.is(OAFlags::Unchangeable) {
                         if attr
                             .is(OAFlags::ChangeToFalse | OAFlags::ChangeToTrue)
-- 
2.43.0


From 73aa72870d8f6f771292d67b57095b60a0371741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 08/56] fix: a refused C_SetAttributeValue changes no attribute
 of a session object

---
 src/object/factory.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 7e98cfe..8ebe952 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -532,9 +532,16 @@ pub trait ObjectFactory: Debug + Send + Sync {
         /* first check that all attributes can be changed */
         self.check_set_attributes(template)?;
 
-        /* if checks clear out, apply changes */
+        /* then that all values are valid, so that nothing is changed on
+         * failure */
+        let mut attrs = Vec::with_capacity(template.len());
         for ck_attr in template {
-            obj.set_attr(Attribute::from_ck_attr(ck_attr)?)?;
+            attrs.push(Attribute::from_ck_attr(ck_attr)?);
+        }
+
+        /* if checks clear out, apply changes */
+        for attr in attrs {
+            obj.set_attr(attr)?;
         }
 
         Ok(())
-- 
2.43.0


From e35acbabc681dd871343538e3bc9580c09128f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:19 +0000
Subject: [PATCH 09/56] fix: FFDH private key CKA_VALUE is a sensitive
 attribute

The private value of a Diffie-Hellman key was readable through
C_GetAttributeValue on sensitive/unextractable keys and was stored
unencrypted in the token, as the factory did not mark it sensitive.
---
 src/ffdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffdh.rs b/src/ffdh.rs
index 4e8d868..d91d38c 100644
--- a/src/ffdh.rs
+++ b/src/ffdh.rs
@@ -191,7 +191,7 @@ impl FFDHPrivFactory {
             CKA_BASE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE; OAFlags::RequiredOnCreate
+            CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
             | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-- 
2.43.0


From 6445392669b80f120e4688d09399fb0c496e0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:19 +0000
Subject: [PATCH 10/56] fix: certificate type and trusted flag cannot be
 changed by set/copy

Creation refuses CKA_TRUSTED=true, but C_SetAttributeValue and
C_CopyObject let any user set it, and allowed changing the certificate
type of an existing object.
---
 src/object/certs.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/object/certs.rs b/src/object/certs.rs
index 9d47268..0971eb9 100644
--- a/src/object/certs.rs
+++ b/src/object/certs.rs
@@ -24,11 +24,12 @@ pub trait CertFactory: ObjectFactory {
         self.add_common_storage_attrs(false);
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_CERTIFICATE_TYPE; OAFlags::AlwaysRequired;
+            CKA_CERTIFICATE_TYPE;
+            OAFlags::AlwaysRequired | OAFlags::Unchangeable;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
-            CKA_TRUSTED; OAFlags::Defval; Attribute::from_bool;
-            val false));
+            CKA_TRUSTED; OAFlags::Defval | OAFlags::ChangeToFalse;
+            Attribute::from_bool; val false));
         attrs.push(attr_element!(
             CKA_CERTIFICATE_CATEGORY; OAFlags::Defval;
             Attribute::from_ulong;
-- 
2.43.0


From 79faa6138ca2d3dd78946be546dc3599e9891dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:09 +0000
Subject: [PATCH 11/56] fix: C_GetObjectSize does not reveal private objects
 without a login

---
 src/token.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index 22cc67f..ca400da 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -871,6 +871,11 @@ impl Token {
                 &[],
             )?),
         };
+        if !self.is_logged_in(KRY_UNSPEC) && obj.is_token() && obj.is_private()
+        {
+            /* do not reveal if the object exists or not */
+            return Err(CKR_OBJECT_HANDLE_INVALID)?;
+        }
         obj.rough_size()
     }
 
-- 
2.43.0


From 3beff68f00b7592f193fa5714af7f6374b8eb0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:09 +0000
Subject: [PATCH 12/56] fix: C_DestroyObject reports a storage failure

The error was ignored and the handle dropped, so the call reported
success while the object was still stored in the token.
---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index ca400da..cd5aee5 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -766,7 +766,7 @@ impl Token {
                 if !obj.is_destroyable() {
                     return Err(CKR_ACTION_PROHIBITED)?;
                 }
-                let _ = self.storage.remove(&self.facilities, o_handle);
+                self.storage.remove(&self.facilities, o_handle)?;
             }
         }
         self.facilities.handles.remove(o_handle);
-- 
2.43.0


From 58814adcd131c779ff4aee14d29a1d469d9f8941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:09 +0000
Subject: [PATCH 13/56] fix: additional derived keys cannot be token objects in
 a read-only session

C_DeriveKey checked only the main template for CKA_TOKEN, the templates
of the additional SP800-108 keys could create token objects.
---
 src/fns/keymgmt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 4034047..521b22f 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -620,6 +620,10 @@ fn derive_key(
     if result.len() == 0 {
         return Err(CKR_GENERAL_ERROR)?;
     }
+    /* additional derived keys come with their own templates */
+    if !session.is_writable() && result.iter().any(|o| o.is_token()) {
+        return Err(CKR_SESSION_READ_ONLY)?;
+    }
 
     #[cfg(feature = "fips")]
     {
-- 
2.43.0


From 1fabad22ea5c4a95998e9a6e9fd3dcc7652bacfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:09 +0000
Subject: [PATCH 14/56] fix: C_CopyObject cannot create a token object in a
 read-only session

A copy inherits CKA_TOKEN from the source object when the template does
not set it, but only the template was checked.
---
 src/fns/objmgmt.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index 4555924..3873258 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -147,6 +147,15 @@ fn copy_object(
     let slot_id = session.get_slot_id();
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
 
+    /* the copy of a token object is a token object unless the template says
+     * otherwise */
+    if !session.is_writable()
+        && !tmpl.iter().any(|a| a.type_ == CKA_TOKEN)
+        && token.get_object_by_handle(o_handle)?.is_token()
+    {
+        return Err(CKR_SESSION_READ_ONLY)?;
+    }
+
     /* TODO: return CKR_ACTION_PROHIBITED instead of CKR_USER_NOT_LOGGED_IN ? */
     let oh = token.copy_object(s_handle, o_handle, tmpl)?;
 
-- 
2.43.0


From 7b12f2df27c6cdbdd8287528ebbdd2c60842b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:06 +0000
Subject: [PATCH 15/56] fix: a search does not confirm the value of an
 unextractable key

Searching by a secret component was refused only for sensitive keys, so
the value of an unextractable but not sensitive key could be guessed.
---
 src/storage/format.rs | 2 +-
 src/token.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index 611150b..d96be53 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -430,7 +430,7 @@ impl Storage for StdStorageFormat {
         let mut objects = self.store.search(template)?;
         let mut result = Vec::<CK_OBJECT_HANDLE>::with_capacity(objects.len());
         for mut obj in objects.drain(..) {
-            if obj.is_sensitive() {
+            if obj.is_sensitive() || !obj.is_extractable() {
                 obj.set_zeroize();
                 match facilities.factories.check_sensitive(&obj, template) {
                     Err(_) => continue,
diff --git a/src/token.rs b/src/token.rs
index cd5aee5..395fb14 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -922,7 +922,7 @@ impl Token {
 
         /* First add internal session objects */
         for (_, o) in &self.session_objects {
-            if o.is_sensitive() {
+            if o.is_sensitive() || !o.is_extractable() {
                 match self.facilities.factories.check_sensitive(o, template) {
                     Err(_) => continue,
                     Ok(()) => (),
-- 
2.43.0


From ec29d5117d59ce0eadb34aef8a838f0a40128ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:58 +0000
Subject: [PATCH 16/56] fix: C_DestroyObject keeps working on backends that
 cannot remove objects

Follow-up of the commit that reports storage failures: the NSS DB backend
does not implement object removal.
---
 src/token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 395fb14..9a433d4 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -766,7 +766,13 @@ impl Token {
                 if !obj.is_destroyable() {
                     return Err(CKR_ACTION_PROHIBITED)?;
                 }
-                self.storage.remove(&self.facilities, o_handle)?;
+                match self.storage.remove(&self.facilities, o_handle) {
+                    Ok(()) => (),
+                    /* the NSS DB backend can not remove objects yet, there
+                     * only the handle is dropped */
+                    Err(e) if e.rv() == CKR_FUNCTION_NOT_SUPPORTED => (),
+                    Err(e) => return Err(e),
+                }
             }
         }
         self.facilities.handles.remove(o_handle);
-- 
2.43.0


From 6281ccaaff7992a045f06bbe466defe2d29fe692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:26 +0000
Subject: [PATCH 17/56] fix: multi-part AES-GCM decryption does not skip
 ciphertext

---
 src/ossl/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 48f9a44..251068a 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1718,6 +1718,8 @@ impl Decryption for AesOperation {
                         self.buffer.extend_from_slice(&cipher[cipher_end..]);
                     } else {
                         self.buffer.extend_from_slice(cipher);
+                        /* The cipher buffer has been utilized */
+                        cipher_offset = cipher_end;
                         if self.buffer.len() > self.params.taglen {
                             let buflen = self.buffer.len() - self.params.taglen;
                             plain_offset = ctx
@@ -1733,8 +1735,6 @@ impl Decryption for AesOperation {
                             let _ = self.buffer.drain(..buflen);
                         }
                     }
-                    /* The cipher buffer has been utilized */
-                    cipher_offset = cipher_end;
                 } else if cipher_end > self.params.taglen {
                     cipher_end -= self.params.taglen;
                     self.buffer.extend_from_slice(&cipher[cipher_end..]);
-- 
2.43.0


From c53d89f9f879ff0b7fcf1c1a8d58e6efbeb7891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:26 +0000
Subject: [PATCH 18/56] fix: multi-part AES-CBC-PAD decryption accepts a first
 part that is not a whole block

---
 src/ossl/aes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 251068a..4fb5120 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1759,7 +1759,10 @@ impl Decryption for AesOperation {
                                 self.finalized = true;
                                 Err(CKR_DEVICE_ERROR)
                             })?;
-                        if plain_offset != AES_BLOCK_SIZE {
+                        /* with padding OpenSSL holds back the last block */
+                        if plain_offset != AES_BLOCK_SIZE
+                            && self.mech != CKM_AES_CBC_PAD
+                        {
                             return Err(self.op_err(CKR_DEVICE_ERROR));
                         }
                         zeromem(self.buffer.as_mut_slice());
-- 
2.43.0


From 44787721212e2e038adc95ed7a0463cc3b494599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:26 +0000
Subject: [PATCH 19/56] fix: the length of the last part of an AES-CBC-PAD
 decryption is reported

---
 src/ossl/aes.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 4fb5120..2ae18b5 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1597,7 +1597,6 @@ impl Decryption for AesOperation {
             }
             _ => (),
         }
-        self.in_use = true;
 
         let outlen = match self.mech {
             CKM_AES_CCM => {
@@ -1650,6 +1649,7 @@ impl Decryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.in_use = true;
 
         let ctx = match &mut self.ctx {
             Some(c) => c,
@@ -1837,6 +1837,14 @@ impl Decryption for AesOperation {
             None => return Err(self.op_err(CKR_GENERAL_ERROR)),
         };
 
+        if self.mech == CKM_AES_CBC_PAD
+            && self.buffer.len() == 0
+            && plain.len() < AES_BLOCK_SIZE
+        {
+            /* This is the only, non-fatal error */
+            return Err(error::Error::buf_too_small(AES_BLOCK_SIZE));
+        }
+
         self.finalized = true;
 
         #[cfg(feature = "fips")]
@@ -1945,7 +1953,9 @@ impl Decryption for AesOperation {
                     if (self.buffer.len() + data_len) % AES_BLOCK_SIZE != 0 {
                         return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
                     }
-                    self.buffer.len() + data_len
+                    /* OpenSSL holds back the last block of earlier updates */
+                    let held = if self.in_use { AES_BLOCK_SIZE } else { 0 };
+                    self.buffer.len() + data_len + held
                 }
                 CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
                     if data_len % AES_KWP_BLOCK != 0 {
-- 
2.43.0


From 11720ed729bbbeb32028c80045cfd67b719ae9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:26 +0000
Subject: [PATCH 20/56] fix: C_Encrypt can be repeated after
 CKR_BUFFER_TOO_SMALL with AES-CBC-PAD

---
 src/ossl/aes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 2ae18b5..a2e93ba 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1185,6 +1185,12 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        /* check this upfront, once data has been processed the call can't be
+         * repeated with a larger buffer */
+        let needed_len = self.encryption_len(plain.len(), true)?;
+        if cipher.len() < needed_len {
+            return Err(error::Error::buf_too_small(needed_len));
+        }
         let outl = self.encrypt_update(plain, cipher)?;
         if outl > cipher.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
-- 
2.43.0


From 5c59a8afff056e62dd57e3269709ce89e907e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:26 +0000
Subject: [PATCH 21/56] fix: AES-CTS works with any sufficient output buffer

---
 src/ossl/aes.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index a2e93ba..19b1751 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1218,9 +1218,7 @@ impl Encryption for AesOperation {
                 }
                 /* some modes are one shot, and we use blockctr to mark that update
                  * has already been called once */
-                if self.blockctr == 0 {
-                    self.blockctr = 1;
-                } else {
+                if self.blockctr != 0 {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
             }
@@ -1328,11 +1326,14 @@ impl Encryption for AesOperation {
                 }
             }
             CKM_AES_CTS => {
+                self.blockctr = 1;
                 /* CTS requires a minimum of 2 blocks to perform stealing
-                 * so if the output is smaller we need to use a support buffer
-                 * to call into OpenSSL */
-                if cipher.len() < AES_BLOCK_SIZE * 2 {
-                    let mut buffer = [0u8; AES_BLOCK_SIZE * 2];
+                 * and room for whole blocks, so if the output is smaller we
+                 * need to use a support buffer to call into OpenSSL */
+                let needed_len =
+                    ctx.buffer_size(plain.len()).max(AES_BLOCK_SIZE * 2);
+                if cipher.len() < needed_len {
+                    let mut buffer = vec![0u8; needed_len];
                     cipher_offset =
                         ctx.update(plain, &mut buffer).or_else(|_| {
                             self.finalized = true;
@@ -1341,7 +1342,8 @@ impl Encryption for AesOperation {
                     if cipher_offset != plain.len() {
                         return Err(self.op_err(CKR_DEVICE_ERROR));
                     }
-                    cipher.copy_from_slice(&buffer[..cipher_offset]);
+                    cipher[..cipher_offset]
+                        .copy_from_slice(&buffer[..cipher_offset]);
                     zeromem(&mut buffer);
                     /* input fully consumed */
                     plain_offset = plain_end;
@@ -1583,9 +1585,7 @@ impl Decryption for AesOperation {
 
                 /* CTS mode is one shot, and we use blockctr to mark that update
                  * has already been called once */
-                if self.blockctr == 0 {
-                    self.blockctr = 1;
-                } else {
+                if self.blockctr != 0 {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
             }
@@ -1785,11 +1785,14 @@ impl Decryption for AesOperation {
                 }
             }
             CKM_AES_CTS => {
+                self.blockctr = 1;
                 /* CTS requires a minimum of 2 blocks to perform stealing
-                 * so if the output is smaller we need to use a support buffer
-                 * to call into OpenSSL */
-                if plain.len() < AES_BLOCK_SIZE * 2 {
-                    let mut buffer = [0u8; AES_BLOCK_SIZE * 2];
+                 * and room for whole blocks, so if the output is smaller we
+                 * need to use a support buffer to call into OpenSSL */
+                let needed_len =
+                    ctx.buffer_size(cipher.len()).max(AES_BLOCK_SIZE * 2);
+                if plain.len() < needed_len {
+                    let mut buffer = vec![0u8; needed_len];
                     plain_offset =
                         ctx.update(cipher, &mut buffer).or_else(|_| {
                             self.finalized = true;
@@ -1798,7 +1801,8 @@ impl Decryption for AesOperation {
                     if plain_offset != cipher.len() {
                         return Err(self.op_err(CKR_DEVICE_ERROR));
                     }
-                    plain.copy_from_slice(&buffer[..plain_offset]);
+                    plain[..plain_offset]
+                        .copy_from_slice(&buffer[..plain_offset]);
                     zeromem(&mut buffer);
                     /* input fully consumed */
                     cipher_offset = cipher_end;
-- 
2.43.0


From da26948b2f4e9a3cb7a5486cb07e5d1869efe396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:26 +0000
Subject: [PATCH 22/56] fix: the output length of a part of an AES-CCM
 decryption is reported correctly

---
 src/ossl/aes.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 19b1751..1e7a052 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1977,12 +1977,8 @@ impl Decryption for AesOperation {
             }
         } else {
             match self.mech {
-                CKM_AES_CCM => {
-                    if self.buffer.len() + data_len < self.params.taglen {
-                        return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
-                    }
-                    self.buffer.len() + data_len - self.params.taglen
-                }
+                /* decrypt_update always wants room for all of the data */
+                CKM_AES_CCM => self.params.datalen,
                 CKM_AES_GCM => {
                     if self.buffer.len() + data_len < self.params.taglen {
                         0
-- 
2.43.0


From 564ab8c32ee77584e8ccd104591c5e61d79f1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 23/56] fix: the AES-CTR block limit honours all bits of a
 counter that is not whole bytes

---
 src/ossl/aes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 1e7a052..b948ea5 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -309,8 +309,9 @@ impl AesOperation {
                     }
                     let part = u128::try_from(ctrbits % 8)?;
                     if part > 0 {
+                        let mask = (1u128 << part) - 1;
                         maxblocks -=
-                            (u128::try_from(iv[15 - idx])? & part) << (idx * 8);
+                            (u128::try_from(iv[15 - idx])? & mask) << (idx * 8);
                     }
                     if maxblocks == 0 {
                         return Err(CKR_MECHANISM_PARAM_INVALID)?;
-- 
2.43.0


From 5f88647650e759a42ab2528b774f6a7f1889f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 24/56] fix: the AES-CTR block limit does not depend on how the
 data is split

---
 src/ossl/aes.rs | 52 ++++++++++++++++---------------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index b948ea5..e6f6afd 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -157,7 +157,7 @@ pub struct AesOperation {
     ctx: Option<OsslCipher>,
     /// Internal buffer for handling partial blocks or accumulating data.
     buffer: Vec<u8>,
-    /// Counter for blocks processed (used for CTR mode limits).
+    /// Counter for bytes processed (used for CTR mode limits).
     blockctr: u128,
     /// Option to report fips indicator status
     #[cfg(feature = "fips")]
@@ -731,6 +731,14 @@ impl AesOperation {
         Ok(result)
     }
 
+    /// Checks if processing `len` more bytes would exceed the number of
+    /// blocks allowed for CTR mode
+    fn ctr_exhausted(&self, len: usize) -> bool {
+        let blocks =
+            (self.blockctr + len as u128).div_ceil(AES_BLOCK_SIZE as u128);
+        self.params.maxblocks != 0 && blocks > self.params.maxblocks
+    }
+
     /// Internal helper for dealing with fatal errors
     fn op_err(&mut self, err: CK_RV) -> error::Error {
         self.finalized = true;
@@ -1242,14 +1250,8 @@ impl Encryption for AesOperation {
                 }
             }
             CKM_AES_CTR => {
-                if self.params.maxblocks != 0 {
-                    let reqblocks = ((plain.len() + AES_BLOCK_SIZE - 1)
-                        / AES_BLOCK_SIZE)
-                        as u128;
-                    if self.blockctr + reqblocks > self.params.maxblocks {
-                        return Err(self.op_err(CKR_DATA_LEN_RANGE));
-                    }
-                    self.blockctr += reqblocks;
+                if self.ctr_exhausted(plain.len()) {
+                    return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
             }
             CKM_AES_KEY_WRAP => {
@@ -1326,6 +1328,7 @@ impl Encryption for AesOperation {
                     self.buffer.extend_from_slice(&plain[plain_end..]);
                 }
             }
+            CKM_AES_CTR => self.blockctr += plain.len() as u128,
             CKM_AES_CTS => {
                 self.blockctr = 1;
                 /* CTS requires a minimum of 2 blocks to perform stealing
@@ -1407,16 +1410,7 @@ impl Encryption for AesOperation {
                 outlen = self.params.taglen;
                 ctx.get_tag(&mut cipher[..outlen])?;
             }
-            CKM_AES_CTR => {
-                self.finalized = true;
-                if self.params.maxblocks > 0 {
-                    if self.blockctr >= self.params.maxblocks {
-                        self.finalized = true;
-                        return Err(CKR_DATA_LEN_RANGE)?;
-                    }
-                }
-            }
-            CKM_AES_CTS => (),
+            CKM_AES_CTR | CKM_AES_CTS => (),
             #[cfg(not(feature = "fips"))]
             CKM_AES_CFB8 | CKM_AES_CFB1 | CKM_AES_CFB128 | CKM_AES_OFB => (),
             CKM_AES_ECB | CKM_AES_CBC => {
@@ -1626,14 +1620,8 @@ impl Decryption for AesOperation {
                 self.params.datalen
             }
             CKM_AES_CTR => {
-                if self.params.maxblocks != 0 {
-                    let reqblocks = ((cipher.len() + AES_BLOCK_SIZE - 1)
-                        / AES_BLOCK_SIZE)
-                        as u128;
-                    if self.blockctr + reqblocks > self.params.maxblocks {
-                        return Err(self.op_err(CKR_DATA_LEN_RANGE));
-                    }
-                    self.blockctr += reqblocks;
+                if self.ctr_exhausted(cipher.len()) {
+                    return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
                 cipher.len()
             }
@@ -1785,6 +1773,7 @@ impl Decryption for AesOperation {
                     self.buffer.extend_from_slice(&cipher[cipher_end..]);
                 }
             }
+            CKM_AES_CTR => self.blockctr += cipher.len() as u128,
             CKM_AES_CTS => {
                 self.blockctr = 1;
                 /* CTS requires a minimum of 2 blocks to perform stealing
@@ -1882,14 +1871,7 @@ impl Decryption for AesOperation {
                     Err(_) => return Err(CKR_ENCRYPTED_DATA_INVALID)?,
                 }
             }
-            CKM_AES_CTR => {
-                if self.params.maxblocks > 0 {
-                    if self.blockctr >= self.params.maxblocks {
-                        return Err(CKR_DATA_LEN_RANGE)?;
-                    }
-                }
-            }
-            CKM_AES_CTS => (),
+            CKM_AES_CTR | CKM_AES_CTS => (),
             CKM_AES_ECB | CKM_AES_CBC => {
                 if self.buffer.len() != 0 {
                     return Err(CKR_DATA_LEN_RANGE)?;
-- 
2.43.0


From 895449112700c8c619235051528b67824e06953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 25/56] fix: AES-CCM decryption does not succeed without any
 data

---
 src/ossl/aes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index e6f6afd..6812ed7 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1686,6 +1686,8 @@ impl Decryption for AesOperation {
                             self.finalized = true;
                             Err(CKR_DEVICE_ERROR)
                         })?;
+                    /* mark that the data has been verified */
+                    self.blockctr = 1;
 
                     zeromem(self.buffer.as_mut_slice());
                     self.buffer.clear();
@@ -1853,7 +1855,7 @@ impl Decryption for AesOperation {
         let mut outlen = 0;
         match self.mech {
             CKM_AES_CCM => {
-                if self.buffer.len() > 0 {
+                if self.buffer.len() > 0 || self.blockctr == 0 {
                     return Err(CKR_DATA_LEN_RANGE)?;
                 }
             }
-- 
2.43.0


From 6031606d706d97a557acc93b08d672b2fd49fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:41 +0000
Subject: [PATCH 26/56] fix: generated IVs do not repeat when the number of
 fixed bits changes

---
 src/ossl/aes.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 6812ed7..d052a1e 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -476,13 +476,12 @@ impl AesOperation {
     /// data in the operation object as needed.
     fn generate_iv(params: &mut AesParams) -> Result<()> {
         let genbits = params.iv.buf.len() * 8 - params.iv.fixedbits;
-        if params.iv.counter == 0 {
-            params.iv.maxcount = if genbits >= 64 {
-                u64::MAX
-            } else {
-                1u64 << genbits
-            }
-        }
+        /* the parameters may change with each message */
+        params.iv.maxcount = if genbits >= 64 {
+            u64::MAX
+        } else {
+            1u64 << genbits
+        };
 
         if params.iv.counter >= params.iv.maxcount {
             return Err(CKR_DATA_LEN_RANGE)?;
-- 
2.43.0


From 208181448b75be85423e8d257d2e8faf8b81a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:41 +0000
Subject: [PATCH 27/56] fix: one-shot message operations can be repeated after
 CKR_BUFFER_TOO_SMALL

---
 src/ossl/aes.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index d052a1e..202646c 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2028,6 +2028,11 @@ impl MsgEncryption for AesOperation {
         plain: &[u8],
         cipher: &mut [u8],
     ) -> Result<usize> {
+        /* check this upfront, once a message has begun this call can't be
+         * repeated with a larger buffer */
+        if cipher.len() < plain.len() {
+            return Err(error::Error::buf_too_small(plain.len()));
+        }
         self.msg_encrypt_begin(param, paramlen, aad)?;
         self.msg_encrypt_final(param, paramlen, plain, cipher)
     }
@@ -2218,6 +2223,11 @@ impl MsgDecryption for AesOperation {
         cipher: &[u8],
         plain: &mut [u8],
     ) -> Result<usize> {
+        /* check this upfront, once a message has begun this call can't be
+         * repeated with a larger buffer */
+        if plain.len() < cipher.len() {
+            return Err(error::Error::buf_too_small(cipher.len()));
+        }
         self.msg_decrypt_begin(param, paramlen, aad)?;
         self.msg_decrypt_final(param, paramlen, cipher, plain)
     }
-- 
2.43.0


From f858db0d1208f30fb670da2ed652b3d8e836a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:41 +0000
Subject: [PATCH 28/56] fix: a message that fails to begin does not leave the
 operation busy

---
 src/ossl/aes.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 202646c..9816ae3 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1029,9 +1029,6 @@ impl AesOperation {
 
         let iv_ptr = self.init_msg_params(parameter, parameter_len, aad)?;
 
-        self.finalized = false;
-        self.in_use = true;
-
         self.ctx = Some(Self::cipher_initialize(
             self.mech,
             &mut self.params,
@@ -1039,6 +1036,9 @@ impl AesOperation {
             true,
         )?);
 
+        self.finalized = false;
+        self.in_use = true;
+
         if self.params.iv.generator != CKG_NO_GENERATE {
             let iv = unsafe {
                 bytes_to_slice_mut(iv_ptr as *mut u8, self.params.iv.buf.len())
@@ -1099,9 +1099,6 @@ impl AesOperation {
 
         let _ = self.init_msg_params(parameter, parameter_len, aad)?;
 
-        self.finalized = false;
-        self.in_use = true;
-
         self.ctx = Some(Self::cipher_initialize(
             self.mech,
             &mut self.params,
@@ -1109,6 +1106,9 @@ impl AesOperation {
             false,
         )?);
 
+        self.finalized = false;
+        self.in_use = true;
+
         #[cfg(feature = "fips")]
         self.fips_approval_aead()?;
 
-- 
2.43.0


From edeb58bf5b8ec85070bbe80ce0dedde266c709e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:41 +0000
Subject: [PATCH 29/56] fix: AES-CCM messages are not mixed with data of an
 earlier multi-part message

---
 src/ossl/aes.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 9816ae3..48a4590 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1027,6 +1027,10 @@ impl AesOperation {
             self.fips_approval.reset();
         }
 
+        /* nothing is left over from an earlier message */
+        zeromem(self.buffer.as_mut_slice());
+        self.buffer.clear();
+
         let iv_ptr = self.init_msg_params(parameter, parameter_len, aad)?;
 
         self.ctx = Some(Self::cipher_initialize(
@@ -1097,6 +1101,10 @@ impl AesOperation {
             self.fips_approval.reset();
         }
 
+        /* nothing is left over from an earlier message */
+        zeromem(self.buffer.as_mut_slice());
+        self.buffer.clear();
+
         let _ = self.init_msg_params(parameter, parameter_len, aad)?;
 
         self.ctx = Some(Self::cipher_initialize(
-- 
2.43.0


From ccde5b5ef28dd8e0f3d1d268240c5095110d3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:41 +0000
Subject: [PATCH 30/56] fix: the output length of a one-shot AES-CCM message is
 reported correctly

---
 src/ossl/aes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 48a4590..cdc2e4e 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2211,8 +2211,8 @@ impl MsgEncryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         match self.mech {
-            CKM_AES_CCM => Ok(self.params.datalen),
-            CKM_AES_GCM => Ok(data_len),
+            CKM_AES_CCM if self.in_use => Ok(self.params.datalen),
+            CKM_AES_CCM | CKM_AES_GCM => Ok(data_len),
             _ => Err(self.op_err(CKR_GENERAL_ERROR)),
         }
     }
@@ -2420,8 +2420,8 @@ impl MsgDecryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         match self.mech {
-            CKM_AES_CCM => Ok(self.params.datalen),
-            CKM_AES_GCM => Ok(data_len),
+            CKM_AES_CCM if self.in_use => Ok(self.params.datalen),
+            CKM_AES_CCM | CKM_AES_GCM => Ok(data_len),
             _ => Err(self.op_err(CKR_GENERAL_ERROR)),
         }
     }
-- 
2.43.0


From 551078d780b5525968f851df384a68502a4ff3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 31/56] fix: track the pending context specific login per
 operation

The login requirement of a CKA_ALWAYS_AUTHENTICATE key was kept once per
session, so starting any other operation reset it and the key could be
used without a PIN.
---
 src/fns/sessmgmt.rs |  8 ++----
 src/session.rs      | 65 +++++++++++++++++----------------------------
 2 files changed, 27 insertions(+), 46 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index c433910..7e0770a 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -300,12 +300,8 @@ fn login(
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
     if user_type == CKU_CONTEXT_SPECIFIC {
         let session = rstate.get_session_mut(s_handle)?;
-        match session.check_login_status() {
-            Err(e) => match e.rv() {
-                CKR_USER_NOT_LOGGED_IN => (),
-                _ => return Err(CKR_OPERATION_NOT_INITIALIZED)?,
-            },
-            Ok(()) => return Err(CKR_OPERATION_NOT_INITIALIZED)?,
+        if !session.needs_login() {
+            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
     }
 
diff --git a/src/session.rs b/src/session.rs
index 35f2c78..0d7c115 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -5,6 +5,7 @@
 //! session state (login status, active operations), and handles
 //! session-specific operations like object searching.
 
+use std::any::TypeId;
 use std::sync::LazyLock;
 
 use crate::encryption;
@@ -48,22 +49,9 @@ impl SearchOperation for SessionSearch {
     }
 }
 
-/// Represents the login status requirement for an active operation.
-#[derive(Debug)]
-pub enum OpLoginStatus {
-    /// No operation active.
-    NotInitialized,
-    /// Active operation does not require login.
-    NotRequired,
-    /// Active operation requires login, but user is not logged in.
-    Required,
-    /// Active operation requires login, and user is logged in.
-    LoginOk,
-}
-
 /// Trait defining helper methods for managing specific active operation types
 /// within a `SessionOperations` struct.
-pub trait ManageOperation {
+pub trait ManageOperation: 'static {
     fn cancel_operation(so: &mut SessionOperations) -> Result<()>;
     fn check_op(so: &SessionOperations) -> Result<()>;
     fn check_no_op(so: &SessionOperations) -> Result<()>;
@@ -314,8 +302,9 @@ pub struct Session {
     //notify: CK_NOTIFY,
     /// Container for active cryptographic operations.
     operations: SessionOperations,
-    /// Tracks login requirement status for the current operation.
-    login_status: OpLoginStatus,
+    /// Tracks the operations that still require a context specific login,
+    /// in the order they were initialized.
+    login_pending: Vec<TypeId>,
     /// Tracks FIPS approval status for the current operation.
     fips_indicator: Option<bool>,
 }
@@ -365,7 +354,7 @@ impl Session {
             //application: std::ptr::null_mut(),
             //notify: unsafe { std::ptr::null_mut() },
             operations: SessionOperations::new(),
-            login_status: OpLoginStatus::NotInitialized,
+            login_pending: Vec::new(),
             fips_indicator: None,
         })
     }
@@ -509,6 +498,7 @@ impl Session {
     pub fn cancel_operation<O: ManageOperation + ?Sized>(
         &mut self,
     ) -> Result<()> {
+        self.login_pending.retain(|t| *t != TypeId::of::<O>());
         O::cancel_operation(&mut self.operations)
     }
 
@@ -522,52 +512,47 @@ impl Session {
         O::check_no_op(&self.operations)
     }
 
-    /// Checks if the current login state permits the active operation.
-    ///
-    /// Returns `CKR_USER_NOT_LOGGED_IN` if login is required but not satisfied.
-    pub fn check_login_status(&self) -> Result<()> {
-        match self.login_status {
-            OpLoginStatus::NotInitialized => {
-                Err(CKR_OPERATION_NOT_INITIALIZED)?
-            }
-            OpLoginStatus::NotRequired => Ok(()),
-            OpLoginStatus::Required => Err(CKR_USER_NOT_LOGGED_IN)?,
-            OpLoginStatus::LoginOk => Ok(()),
-        }
+    /// Checks if there is an active operation that requires a context
+    /// specific login.
+    pub fn needs_login(&self) -> bool {
+        !self.login_pending.is_empty()
     }
 
     /// Gets a mutable reference to the currently active operation of type `O`.
     ///
-    /// Checks login status before returning the operation.
+    /// Returns `CKR_USER_NOT_LOGGED_IN` if the operation requires a context
+    /// specific login that was not performed yet.
     pub fn get_operation<O: ManageOperation + ?Sized>(
         &mut self,
     ) -> Result<&mut O> {
-        self.check_login_status()?;
+        if self.login_pending.contains(&TypeId::of::<O>()) {
+            return Err(CKR_USER_NOT_LOGGED_IN)?;
+        }
         O::get_op(&mut self.operations)
     }
 
     /// Sets the active operation of type `O`.
     ///
-    /// Also resets the FIPS indicator and sets the login requirement status
-    /// based on `needs_login`.
+    /// Also resets the FIPS indicator and sets the login requirement of this
+    /// operation based on `needs_login`.
     pub fn set_operation<O: ManageOperation + ?Sized>(
         &mut self,
         op: Box<O>,
         needs_login: bool,
     ) {
         self.fips_indicator = None; /* FIXME: per operation ? */
-        self.login_status = if needs_login {
-            OpLoginStatus::Required
-        } else {
-            OpLoginStatus::NotRequired
-        };
+        self.login_pending.retain(|t| *t != TypeId::of::<O>());
+        if needs_login {
+            self.login_pending.push(TypeId::of::<O>());
+        }
 
         O::set_op(&mut self.operations, op);
     }
 
-    /// Marks the current operation's login requirement as satisfied.
+    /// Marks the login requirement of the last operation that asked for it
+    /// as satisfied.
     pub fn set_login_ok(&mut self) {
-        self.login_status = OpLoginStatus::LoginOk;
+        let _ = self.login_pending.pop();
     }
 
     pub fn state_size(&mut self) -> Result<usize> {
-- 
2.43.0


From a9f44c83777c7b769e3052eb6a2288646651edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 32/56] fix: check the type of the base key in ECDH and DH
 derivation

---
 src/ossl/ecdh.rs | 5 +++++
 src/ossl/ffdh.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/ossl/ecdh.rs b/src/ossl/ecdh.rs
index 3f054a6..76194a5 100644
--- a/src/ossl/ecdh.rs
+++ b/src/ossl/ecdh.rs
@@ -143,6 +143,11 @@ impl Derive for ECDHOperation {
         }
         self.finalized = true;
 
+        match key.get_attr_as_ulong(CKA_KEY_TYPE)? {
+            CKK_EC | CKK_EC_MONTGOMERY => (),
+            _ => return Err(CKR_KEY_TYPE_INCONSISTENT)?,
+        }
+
         let mut pkey = privkey_from_object(key)?;
         let mut ecdh = EcdhDerive::new(osslctx(), &mut pkey)?;
 
diff --git a/src/ossl/ffdh.rs b/src/ossl/ffdh.rs
index 0ba48de..4141938 100644
--- a/src/ossl/ffdh.rs
+++ b/src/ossl/ffdh.rs
@@ -166,6 +166,10 @@ impl Derive for FFDHOperation {
         }
         self.finalized = true;
 
+        if key.get_attr_as_ulong(CKA_KEY_TYPE)? != CKK_DH {
+            return Err(CKR_KEY_TYPE_INCONSISTENT)?;
+        }
+
         let factory =
             objectfactories.get_obj_factory_from_key_template(template)?;
 
-- 
2.43.0


From b90e11487930fc7d127b920d0067f58d23a1c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 33/56] fix: do not overwrite the allowed mechanisms given for
 a HOTP key

---
 src/hotp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hotp.rs b/src/hotp.rs
index 308490d..2e1f869 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -147,17 +147,18 @@ impl HOTPKeyFactory {
             }
         }
 
-        let set_mech = match obj.get_attr_as_bytes(CKA_ALLOWED_MECHANISMS) {
-            Ok(mechs) => {
+        let set_mech = match obj.get_attr(CKA_ALLOWED_MECHANISMS) {
+            Some(attr) => {
+                let mechs = attr.get_value();
                 if mechs.is_empty() {
                     true
-                } else if mechs != CKM_HOTP.to_ne_bytes().as_slice() {
+                } else if mechs.as_slice() != CKM_HOTP.to_ne_bytes() {
                     return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
                 } else {
                     false
                 }
             }
-            Err(_) => true,
+            None => true,
         };
         if set_mech {
             obj.set_attr(Attribute::from_bytes(
-- 
2.43.0


From 6525e2befda82085ae323d0de483aad24e938ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 34/56] fix: remove zero padding on AES-ECB and AES-CBC unwrap
 when the length is given

---
 src/aes.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/aes.rs b/src/aes.rs
index fc720d4..d02f5a4 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -358,7 +358,27 @@ impl Mechanism for AesMechanism {
         if self.info.flags & CKF_UNWRAP != CKF_UNWRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
-        let keydata = AesOperation::unwrap(mech, wrapping_key, data)?;
+        let mut keydata = AesOperation::unwrap(mech, wrapping_key, data)?;
+        match mech.mechanism {
+            CKM_AES_ECB | CKM_AES_CBC => {
+                /* remove the zero padding added when wrapping, if the
+                 * template tells how long the key is */
+                if let Some(len) = template
+                    .iter()
+                    .find(|a| a.type_ == CKA_VALUE_LEN)
+                    .and_then(|a| a.to_ulong().ok())
+                    .and_then(|l| usize::try_from(l).ok())
+                {
+                    if len < keydata.len()
+                        && keydata.len() - len < AES_BLOCK_SIZE
+                        && keydata[len..].iter().all(|b| *b == 0)
+                    {
+                        keydata.truncate(len);
+                    }
+                }
+            }
+            _ => (),
+        }
         key_template
             .as_key_factory()?
             .import_from_wrapped(keydata, template)
-- 
2.43.0


From cd4c988ed35a9dbf1d752cbfb3e2bfba29f7eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 35/56] fix: keys derived by concatenation, xor or extraction
 keep the protection of the base key

---
 src/native/simplekdf.rs | 72 ++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 41 deletions(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 0ecf0e7..89df446 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -202,47 +202,10 @@ impl Derive for SimpleKDFOperation {
             factory.as_key_factory()?.key_derive(tmpl.as_slice(), key)?;
 
         let other_data_len = match self.mech {
-            CKM_CONCATENATE_BASE_AND_KEY => {
-                let another_key_info = match &self.key_info {
-                    Some(k) => k,
-                    None => return Err(CKR_MECHANISM_PARAM_INVALID)?,
-                };
-
-                let mut sensitive =
-                    base_key_info.sensitive || another_key_info.sensitive;
-                if !sensitive {
-                    match tmpl.find_attr(CKA_SENSITIVE) {
-                        Some(b) => sensitive = b.to_bool()?,
-                        None => (),
-                    };
-                }
-                dkey.set_attr(Attribute::from_bool(CKA_SENSITIVE, sensitive))?;
-                let mut extractable =
-                    base_key_info.extractable && another_key_info.extractable;
-                if extractable {
-                    match tmpl.find_attr(CKA_EXTRACTABLE) {
-                        Some(b) => extractable = b.to_bool()?,
-                        None => (),
-                    };
-                }
-                dkey.set_attr(Attribute::from_bool(
-                    CKA_EXTRACTABLE,
-                    extractable,
-                ))?;
-                let always_sensitive = base_key_info.always_sensitive
-                    && another_key_info.always_sensitive;
-                dkey.set_attr(Attribute::from_bool(
-                    CKA_ALWAYS_SENSITIVE,
-                    always_sensitive,
-                ))?;
-                let never_extractable = base_key_info.never_extractable
-                    && another_key_info.never_extractable;
-                dkey.set_attr(Attribute::from_bool(
-                    CKA_NEVER_EXTRACTABLE,
-                    never_extractable,
-                ))?;
-                another_key_info.value.len()
-            }
+            CKM_CONCATENATE_BASE_AND_KEY => match &self.key_info {
+                Some(k) => k.value.len(),
+                None => return Err(CKR_MECHANISM_PARAM_INVALID)?,
+            },
             CKM_CONCATENATE_BASE_AND_DATA
             | CKM_CONCATENATE_DATA_AND_BASE
             | CKM_XOR_BASE_AND_DATA => match &self.data {
@@ -253,6 +216,33 @@ impl Derive for SimpleKDFOperation {
             _ => return Err(CKR_MECHANISM_INVALID)?,
         };
 
+        /* The derived value reveals the base key(s), so for all of these
+         * mechanisms the derived key must be protected at least as much */
+        let mut sensitive = base_key_info.sensitive;
+        let mut extractable = base_key_info.extractable;
+        let mut always_sensitive = base_key_info.always_sensitive;
+        let mut never_extractable = base_key_info.never_extractable;
+        if let Some(another_key_info) = &self.key_info {
+            sensitive |= another_key_info.sensitive;
+            extractable &= another_key_info.extractable;
+            always_sensitive &= another_key_info.always_sensitive;
+            never_extractable &= another_key_info.never_extractable;
+        }
+        if sensitive {
+            dkey.set_attr(Attribute::from_bool(CKA_SENSITIVE, true))?;
+        }
+        if !extractable {
+            dkey.set_attr(Attribute::from_bool(CKA_EXTRACTABLE, false))?;
+        }
+        dkey.set_attr(Attribute::from_bool(
+            CKA_ALWAYS_SENSITIVE,
+            always_sensitive && dkey.is_sensitive(),
+        ))?;
+        dkey.set_attr(Attribute::from_bool(
+            CKA_NEVER_EXTRACTABLE,
+            never_extractable && !dkey.is_extractable(),
+        ))?;
+
         let outlen = match self.mech {
             CKM_XOR_BASE_AND_DATA => {
                 std::cmp::min(base_key_info.value.len(), other_data_len)
-- 
2.43.0


From 2c4c648a8c560f799417c40efc16624956905c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 36/56] fix: CKM_EXTRACT_KEY_FROM_KEY at byte offsets, length
 and offset overflows

---
 src/native/simplekdf.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 89df446..bf71bb5 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -268,11 +268,7 @@ impl Derive for SimpleKDFOperation {
         if self.mech == CKM_EXTRACT_KEY_FROM_KEY {
             let bit_offset =
                 self.bit_offset.ok_or(CKR_MECHANISM_PARAM_INVALID)?;
-            let required_bits = keylen * 8;
-            let available_bits = base_key_info.value.len() * 8;
-            if (required_bits > available_bits)
-                || (bit_offset + 7) / 8 > available_bits as CK_ULONG
-            {
+            if keylen > outlen || bit_offset / 8 >= outlen as CK_ULONG {
                 return Err(CKR_TEMPLATE_INCONSISTENT)?;
             }
         } else if keylen > outlen {
@@ -334,10 +330,11 @@ impl Derive for SimpleKDFOperation {
                     let first_half = base_key_info.value
                         [(base_byte + i) % outlen]
                         << bit_shift;
-                    let second_half = base_key_info.value
+                    let second_half = (base_key_info.value
                         [(base_byte + i + 1) % outlen]
+                        as u16)
                         >> (8 - bit_shift);
-                    secret[i] = first_half | second_half;
+                    secret[i] = first_half | second_half as u8;
                 }
             }
             _ => return Err(CKR_MECHANISM_INVALID)?,
-- 
2.43.0


From 5cf69f200c5445a43e7053a86318cabfc32fd74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 37/56] fix: keep a copy of the IV in CKM_AES_CBC_ENCRYPT_DATA
 derivation

The operation kept a slice of the parameters it got by value.
---
 src/aes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index d02f5a4..1fa4894 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -557,7 +557,7 @@ impl Mechanism for AesMechanism {
 struct AesKDFOperation<'a> {
     mech: CK_MECHANISM_TYPE,
     finalized: bool,
-    iv: &'a [u8],
+    iv: Vec<u8>,
     data: &'a [u8],
     #[cfg(feature = "fips")]
     fips_approved: Option<bool>,
@@ -587,7 +587,7 @@ impl AesKDFOperation<'_> {
         Ok(AesKDFOperation {
             mech: CKM_AES_ECB,
             finalized: false,
-            iv: &[],
+            iv: Vec::new(),
             data: unsafe {
                 std::slice::from_raw_parts(
                     params.pData,
@@ -612,7 +612,7 @@ impl AesKDFOperation<'_> {
         Ok(AesKDFOperation {
             mech: CKM_AES_CBC,
             finalized: false,
-            iv: unsafe { std::slice::from_raw_parts(params.iv.as_ptr(), 16) },
+            iv: params.iv.to_vec(),
             data: unsafe {
                 std::slice::from_raw_parts(
                     params.pData,
-- 
2.43.0


From e60030c96a6b022aca7e0ec90eb578d31f7dba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 38/56] fix: encoding of the length of derived keying material
 in SP800-108

Lengths of 40, 48 and 56 bits panicked, and the length is to be reduced
modulo 2^n, not 2^n - 1.
---
 src/native/sp800_108.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index 96db177..a7a66c8 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -206,11 +206,11 @@ impl Sp800Operation {
         /* up to 64 bits */
         match param.bits {
             8 => {
-                len = len % maxsize!(8);
+                len &= maxsize!(8);
                 op.mac_update(&[len as u8])
             }
             16 => {
-                len = len % maxsize!(16);
+                len &= maxsize!(16);
                 let data = if param.le {
                     (len as u16).to_le_bytes()
                 } else {
@@ -219,7 +219,7 @@ impl Sp800Operation {
                 op.mac_update(&data)
             }
             24 => {
-                len = len % maxsize!(24);
+                len &= maxsize!(24);
                 let (data, s, e) = if param.le {
                     ((len as u32).to_le_bytes(), 0, 3)
                 } else {
@@ -228,7 +228,7 @@ impl Sp800Operation {
                 op.mac_update(&data[s..e])
             }
             32 => {
-                len = len % maxsize!(32);
+                len &= maxsize!(32);
                 let data = if param.le {
                     (len as u32).to_le_bytes()
                 } else {
@@ -237,34 +237,34 @@ impl Sp800Operation {
                 op.mac_update(&data)
             }
             40 => {
-                len = len % maxsize!(40);
+                len &= maxsize!(40);
                 let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 5)
+                    (len.to_le_bytes(), 0, 5)
                 } else {
-                    ((len as u32).to_be_bytes(), 3, 8)
+                    (len.to_be_bytes(), 3, 8)
                 };
                 op.mac_update(&data[s..e])
             }
             48 => {
-                len = len % maxsize!(48);
+                len &= maxsize!(48);
                 let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 6)
+                    (len.to_le_bytes(), 0, 6)
                 } else {
-                    ((len as u32).to_be_bytes(), 2, 8)
+                    (len.to_be_bytes(), 2, 8)
                 };
                 op.mac_update(&data[s..e])
             }
             56 => {
-                len = len % maxsize!(56);
+                len &= maxsize!(56);
                 let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 7)
+                    (len.to_le_bytes(), 0, 7)
                 } else {
-                    ((len as u32).to_be_bytes(), 1, 8)
+                    (len.to_be_bytes(), 1, 8)
                 };
                 op.mac_update(&data[s..e])
             }
             64 => {
-                len = len % maxsize!(64);
+                len &= maxsize!(64);
                 let data = if param.le {
                     (len as u64).to_le_bytes()
                 } else {
-- 
2.43.0


From 91a08db2c0e871e6c34de8d10f5c9fd3719fc899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 39/56] fix: keys from ECDH and DH are derived, not local

Their CKA_LOCAL, CKA_ALWAYS_SENSITIVE and CKA_NEVER_EXTRACTABLE ignored
the base key.
---
 src/ossl/ecdh.rs | 10 +++-------
 src/ossl/ffdh.rs | 13 ++++++-------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/ossl/ecdh.rs b/src/ossl/ecdh.rs
index 76194a5..f4f6852 100644
--- a/src/ossl/ecdh.rs
+++ b/src/ossl/ecdh.rs
@@ -7,11 +7,10 @@
 
 use std::borrow::Cow;
 
-use crate::attribute::CkAttrs;
 use crate::error::Result;
 use crate::mechanism::{Derive, MechOperation, Mechanisms};
 use crate::misc::{bytes_to_vec, zeromem};
-use crate::object::{default_key_attributes, Object, ObjectFactories};
+use crate::object::{Object, ObjectFactories};
 use crate::ossl::common::{osslctx, privkey_from_object};
 use crate::pkcs11::*;
 
@@ -235,12 +234,9 @@ impl Derive for ECDHOperation {
             secret = output;
         }
 
-        let mut tmpl = CkAttrs::from(template);
-        tmpl.add_vec(CKA_VALUE, secret)?;
-        tmpl.zeroize = true;
-        let mut obj = factory.create(tmpl.as_slice())?;
+        let mut obj = factory.as_key_factory()?.key_derive(template, key)?;
+        factory.as_secret_key_factory()?.set_key(&mut obj, secret)?;
 
-        default_key_attributes(&mut obj, self.mech)?;
         Ok(vec![obj])
     }
 }
diff --git a/src/ossl/ffdh.rs b/src/ossl/ffdh.rs
index 4141938..f7fcfe7 100644
--- a/src/ossl/ffdh.rs
+++ b/src/ossl/ffdh.rs
@@ -7,11 +7,11 @@
 
 use std::fmt::Debug;
 
-use crate::attribute::{Attribute, CkAttrs};
+use crate::attribute::Attribute;
 use crate::error::{Error, Result};
 use crate::ffdh_groups::{get_group_name, DHGroupName};
 use crate::mechanism::{Derive, MechOperation, Mechanisms};
-use crate::object::{default_key_attributes, Object, ObjectFactories};
+use crate::object::{Object, ObjectFactories};
 use crate::ossl::common::{osslctx, privkey_from_object};
 use crate::pkcs11::*;
 
@@ -232,12 +232,11 @@ impl Derive for FFDHOperation {
             }
         }
 
-        let mut tmpl = CkAttrs::from(template);
-        tmpl.add_vec(CKA_VALUE, secret.to_vec())?;
-        tmpl.zeroize = true;
-        let mut obj = factory.create(tmpl.as_slice())?;
+        let mut obj = factory.as_key_factory()?.key_derive(template, key)?;
+        factory
+            .as_secret_key_factory()?
+            .set_key(&mut obj, secret.to_vec())?;
 
-        default_key_attributes(&mut obj, self.mech)?;
         Ok(vec![obj])
     }
 }
-- 
2.43.0


From 3ee853530cc8f7ca6a5f035a42ed44fe078d7dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 40/56] fix: keys derived with HKDF, SP800-108 and SSH KDF must
 suit their type

Their value was set without the checks of the key type.
---
 src/native/sp800_108.rs | 9 ++++-----
 src/native/sshkdf.rs    | 9 ++++++++-
 src/ossl/hkdf.rs        | 9 ++++++++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index a7a66c8..af51d65 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -5,7 +5,6 @@
 //! defined in [NIST Special Publication 800-108 Revision 1](https://doi.org/10.6028/NIST.SP.800-108r1-upd1)
 //! _Recommendation for Key Derivation Using Pseudorandom Functions_
 
-use crate::attribute::Attribute;
 use crate::error::Result;
 use crate::mechanism::{Derive, Mac, MechOperation, Mechanisms};
 use crate::misc::{bytes_to_slice, bytes_to_vec};
@@ -508,10 +507,10 @@ impl Derive for Sp800Operation {
         for key in &mut keys {
             let keysize =
                 usize::try_from(key.get_attr_as_ulong(CKA_VALUE_LEN)?)?;
-            key.set_attr(Attribute::from_bytes(
-                CKA_VALUE,
-                dkm[cursor..(cursor + keysize)].to_vec(),
-            ))?;
+            objfactories
+                .get_object_factory(key)?
+                .as_secret_key_factory()?
+                .set_key(key, dkm[cursor..(cursor + keysize)].to_vec())?;
             cursor += Self::key_to_segment_size(keysize, segment);
         }
         Ok(keys)
diff --git a/src/native/sshkdf.rs b/src/native/sshkdf.rs
index 40d33e5..32f1a98 100644
--- a/src/native/sshkdf.rs
+++ b/src/native/sshkdf.rs
@@ -153,7 +153,14 @@ impl Derive for SSHKDFOperation {
             curlen += len;
         }
 
-        dobj.set_attr(Attribute::from_bytes(CKA_VALUE, dkm))?;
+        if self.is_data {
+            dobj.set_attr(Attribute::from_bytes(CKA_VALUE, dkm))?;
+        } else {
+            objfactories
+                .get_object_factory(&dobj)?
+                .as_secret_key_factory()?
+                .set_key(&mut dobj, dkm)?;
+        }
         Ok(vec![dobj])
     }
 }
diff --git a/src/ossl/hkdf.rs b/src/ossl/hkdf.rs
index 7d1dc03..3b0b79d 100644
--- a/src/ossl/hkdf.rs
+++ b/src/ossl/hkdf.rs
@@ -298,7 +298,14 @@ impl Derive for HKDFOperation {
         #[cfg(feature = "fips")]
         self.fips_approval.finalize();
 
-        obj.set_attr(Attribute::from_bytes(CKA_VALUE, dkm))?;
+        if self.emit_data_obj {
+            obj.set_attr(Attribute::from_bytes(CKA_VALUE, dkm))?;
+        } else {
+            objfactories
+                .get_object_factory(&obj)?
+                .as_secret_key_factory()?
+                .set_key(&mut obj, dkm)?;
+        }
 
         Ok(vec![obj])
     }
-- 
2.43.0


From d3b3a23a8b2242417414b5f6f6126886029af1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 41/56] fix: recommend AES keys of 24 and 16 bytes when there
 is just enough material

---
 src/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index 1fa4894..2b4ac36 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -221,9 +221,9 @@ impl SecretKeyFactory for AesKeyFactory {
     fn recommend_key_size(&self, max: usize) -> Result<usize> {
         if max >= MAX_AES_SIZE_BYTES {
             Ok(MAX_AES_SIZE_BYTES)
-        } else if max > MID_AES_SIZE_BYTES {
+        } else if max >= MID_AES_SIZE_BYTES {
             Ok(MID_AES_SIZE_BYTES)
-        } else if max > MIN_AES_SIZE_BYTES {
+        } else if max >= MIN_AES_SIZE_BYTES {
             Ok(MIN_AES_SIZE_BYTES)
         } else {
             Err(CKR_KEY_SIZE_RANGE)?
-- 
2.43.0


From af531454588b8e047fa9f4f4d2ba4f4ae81c4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 42/56] fix: DH derivation of a short key from a secret with
 leading zeroes

The derived value is shorter than the buffer then, and the key was taken
from the end of the buffer.
---
 ossl/src/derive.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ossl/src/derive.rs b/ossl/src/derive.rs
index eb214b0..52ca951 100644
--- a/ossl/src/derive.rs
+++ b/ossl/src/derive.rs
@@ -862,7 +862,8 @@ impl<'a> EcdhDerive<'a> {
             output.len()
         };
         if outvec.len() > 0 {
-            output[0..len].copy_from_slice(&outvec[(outvec.len() - len)..]);
+            output[0..len]
+                .copy_from_slice(&outvec[(outlen - len)..outlen]);
         }
 
         Ok(len)
@@ -953,7 +954,8 @@ impl FfdhDerive {
             output.len()
         };
         if outvec.len() > 0 {
-            output[0..len].copy_from_slice(&outvec[(outvec.len() - len)..]);
+            output[0..len]
+                .copy_from_slice(&outvec[(outlen - len)..outlen]);
         }
 
         Ok(len)
-- 
2.43.0


From 8c749548ee508889e8c1ffbf8f4e96ce81d21a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 43/56] fix: a failing logout leaves nobody logged in and no
 key behind

---
 src/fns/sessmgmt.rs   | 4 +++-
 src/storage/format.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index 7e0770a..ac73fb1 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -14,6 +14,7 @@ use crate::mechanism::{
 };
 use crate::misc::bytes_to_slice;
 use crate::object::Object;
+use crate::pkcs11::vendor::KRY_UNSPEC;
 use crate::pkcs11::*;
 use crate::STATE;
 
@@ -371,7 +372,8 @@ fn logout(s_handle: CK_SESSION_HANDLE) -> Result<()> {
     drop(session);
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
     let ret = token.logout();
-    if ret == CKR_OK {
+    /* even when the storage reports a problem nobody is logged in anymore */
+    if !token.is_logged_in(KRY_UNSPEC) {
         let _ = rstate.invalidate_session_states(slot_id);
     }
     if ret != CKR_OK {
diff --git a/src/storage/format.rs b/src/storage/format.rs
index d96be53..f7fa558 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -521,9 +521,10 @@ impl Storage for StdStorageFormat {
 
     /// Unauthenticates a user via the ACI layer (clears the master key).
     fn unauth_user(&mut self, user_type: CK_USER_TYPE) -> Result<()> {
+        /* the key goes away even if the storage has a problem */
+        self.aci.unauth();
         /* check it exists so we return the correct error */
         let _ = self.store.fetch_user(get_pin_uid(user_type)?)?;
-        self.aci.unauth();
         Ok(())
     }
 
-- 
2.43.0


From 7cd117935cc21bae24fe995290b941ebae694c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 44/56] fix: an interrupted token initialization can be done
 again

---
 src/storage/format.rs | 17 ++++++++++++++---
 src/token.rs          | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index f7fa558..e3e2ec6 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -189,8 +189,17 @@ impl StdStorageFormat {
     /// from the raw storage.
     fn init_pin_flags(&mut self) -> Result<CK_FLAGS> {
         let mut so_flags: CK_FLAGS = 0;
-        let info = self.store.fetch_user(SO_ID)?;
-        user_flags(CKU_SO, &info, &mut so_flags);
+        match self.store.fetch_user(SO_ID) {
+            Ok(info) => {
+                user_flags(CKU_SO, &info, &mut so_flags);
+            }
+            Err(e) => {
+                /* an interrupted initialization can leave no SO behind */
+                if e.rv() != CKR_USER_PIN_NOT_INITIALIZED {
+                    return Err(e);
+                }
+            }
+        };
 
         let mut usr_flags: CK_FLAGS = 0;
         match self.store.fetch_user(USER_ID) {
@@ -224,7 +233,6 @@ impl StdStorageFormat {
     ) -> Result<StorageTokenInfo> {
         /* TOKEN INFO */
         let mut info = StorageTokenInfo::default();
-        info.flags |= CKF_TOKEN_INITIALIZED;
         if encrypted {
             info.flags |= CKF_LOGIN_REQUIRED;
         }
@@ -233,6 +241,9 @@ impl StdStorageFormat {
         CSPRNG.with(|rng| rng.borrow_mut().generate_random(&mut value))?;
         info.serial.copy_from_slice(hex::encode(value).as_bytes());
         self.store.store_token_info(&info)?;
+        /* the token counts as initialized only once the caller, who still
+         * has to set the SO PIN, stores the completed info */
+        info.flags |= CKF_TOKEN_INITIALIZED;
         Ok(info)
     }
 }
diff --git a/src/token.rs b/src/token.rs
index 9a433d4..a82566a 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -257,7 +257,20 @@ impl Token {
         self.logged = KRY_UNSPEC;
 
         /* this inits from scratch or deletes and reinits an existing db */
-        let mut info = self.storage.reinit(&self.facilities)?;
+        let mut info = match self.storage.reinit(&self.facilities) {
+            Ok(i) => i,
+            Err(e) => {
+                match self.storage.load_token_info() {
+                    Ok(i) if i.flags & CKF_TOKEN_INITIALIZED != 0 => (),
+                    _ => self.uninitialized_token_info(),
+                }
+                return Err(e);
+            }
+        };
+
+        /* The previous contents are gone, the token is not usable, but can be
+         * initialized again, should any of the following steps fail */
+        self.uninitialized_token_info();
 
         /* Add SO PIN */
         match self.set_pin(CKU_SO, pin, &[]) {
-- 
2.43.0


From 4010ddfccc67306e70bdb791afa4c7587697e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 45/56] fix: an OTP counter is not set back by an operation
 started earlier

---
 src/fns/signing.rs | 46 +++++++++++++++++++++++++++++++------------
 src/hotp.rs        | 49 +++++++++++++++++++++++++---------------------
 src/mechanism.rs   | 21 +++++++++++++++++---
 src/token.rs       | 14 +++++++++++++
 4 files changed, 93 insertions(+), 37 deletions(-)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 023c0bc..4735df9 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -114,9 +114,14 @@ fn sign(
 
     operation.sign(data, signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .replace_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
+            /* no value must be released unless the update is recorded */
+            signature.fill(0);
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -242,9 +247,14 @@ fn sign_final(
         unsafe { std::slice::from_raw_parts_mut(psignature, signature_len) };
     operation.sign_final(signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .replace_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
+            /* no value must be released unless the update is recorded */
+            signature.fill(0);
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -395,9 +405,12 @@ fn verify(
         unsafe { std::slice::from_raw_parts(psignature, signature_len) };
     operation.verify(data, signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .replace_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -511,9 +524,12 @@ fn verify_final(
         unsafe { std::slice::from_raw_parts_mut(psignature, signature_len) };
     operation.verify_final(signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .replace_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -797,9 +813,12 @@ fn verify_signature(
     let data: &[u8] = unsafe { std::slice::from_raw_parts(pdata, dlen) };
     operation.verify(data)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .replace_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -883,9 +902,12 @@ fn verify_signature_final(s_handle: CK_SESSION_HANDLE) -> Result<()> {
     let operation = session.get_operation::<dyn VerifySignature>()?;
     operation.verify_final()?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .replace_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
diff --git a/src/hotp.rs b/src/hotp.rs
index 2e1f869..ed8e525 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -392,6 +392,7 @@ pub struct HOTPOperation {
     mech_type: CK_MECHANISM_TYPE,
     hmac: HMACOperation,
     counter: [u8; 8],
+    key_counter: [u8; 8],
     key_handle: CK_OBJECT_HANDLE,
     length: usize,
     mac_len: usize,
@@ -479,6 +480,7 @@ impl HOTPOperation {
             mech_type: mech.mechanism,
             hmac,
             counter,
+            key_counter: counter,
             key_handle: key.get_handle(),
             length,
             mac_len,
@@ -515,6 +517,23 @@ impl HOTPOperation {
     }
 }
 
+impl HOTPOperation {
+    /// The counter of the key this operation started from, and the one
+    /// that replaces it
+    fn counter_update(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
+        if self.update != Some(true) {
+            return None;
+        }
+        let mut old = CkAttrs::new();
+        old.add_slice(CKA_OTP_COUNTER, &self.key_counter).ok()?;
+        let mut new = CkAttrs::new();
+        new.add_slice(CKA_OTP_COUNTER, &self.counter).ok()?;
+        Some((self.key_handle, old, new))
+    }
+}
+
 impl MechOperation for HOTPOperation {
     fn mechanism(&self) -> Result<CK_MECHANISM_TYPE> {
         Ok(self.mech_type)
@@ -594,17 +613,10 @@ impl Sign for HOTPOperation {
         Ok(struct_size + param_size + self.length)
     }
 
-    fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
-        if self.update == Some(true) {
-            let mut attrs = CkAttrs::new();
-            if attrs
-                .add_owned_slice(CKA_OTP_COUNTER, &self.counter)
-                .is_ok()
-            {
-                return Some((self.key_handle, attrs));
-            }
-        }
-        None
+    fn updates_object(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
+        self.counter_update()
     }
 }
 
@@ -654,16 +666,9 @@ impl Verify for HOTPOperation {
         Ok(self.length)
     }
 
-    fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
-        if self.update == Some(true) {
-            let mut attrs = CkAttrs::new();
-            if attrs
-                .add_owned_slice(CKA_OTP_COUNTER, &self.counter)
-                .is_ok()
-            {
-                return Some((self.key_handle, attrs));
-            }
-        }
-        None
+    fn updates_object(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
+        self.counter_update()
     }
 }
diff --git a/src/mechanism.rs b/src/mechanism.rs
index 130eeb2..ab71cd6 100644
--- a/src/mechanism.rs
+++ b/src/mechanism.rs
@@ -568,7 +568,12 @@ pub trait Sign: MechOperation {
     ///
     /// This can be used by mechanisms to request the update of object
     /// attributes, such as an OTP counter, after an operation completes.
-    fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
+    ///
+    /// Returns the object, the attributes the operation was based on and
+    /// their new values.
+    fn updates_object(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
         None
     }
 }
@@ -614,7 +619,12 @@ pub trait Verify: MechOperation {
     ///
     /// This can be used by mechanisms to request the update of object
     /// attributes, such as an OTP counter, after an operation completes.
-    fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
+    ///
+    /// Returns the object, the attributes the operation was based on and
+    /// their new values.
+    fn updates_object(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
         None
     }
 }
@@ -847,7 +857,12 @@ pub trait VerifySignature: MechOperation {
     ///
     /// This can be used by mechanisms to request the update of object
     /// attributes, such as an OTP counter, after an operation completes.
-    fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
+    ///
+    /// Returns the object, the attributes the operation was based on and
+    /// their new values.
+    fn updates_object(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
         None
     }
 }
diff --git a/src/token.rs b/src/token.rs
index a82566a..07e8f1f 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -878,6 +878,20 @@ impl Token {
         }
     }
 
+    /// Changes attributes of an object, provided other attributes of it (or
+    /// the previous values of these) still are what the caller expects.
+    pub fn replace_object_attrs(
+        &mut self,
+        o_handle: CK_OBJECT_HANDLE,
+        expected: &[CK_ATTRIBUTE],
+        template: &[CK_ATTRIBUTE],
+    ) -> Result<()> {
+        if !self.get_object_by_handle(o_handle)?.match_template(expected) {
+            return Err(CKR_FUNCTION_FAILED)?;
+        }
+        self.set_object_attrs(o_handle, template)
+    }
+
     /// Estimates the memory size of an object (primarily for C_GetInfo
     /// reporting). Currently provides a rough estimate based on attribute
     /// count and value sizes.
-- 
2.43.0


From 4094ed908ff45dd5aa43df2a890452df14569f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 46/56] fix: the last OTP counter value does not overflow

---
 src/hotp.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/hotp.rs b/src/hotp.rs
index ed8e525..35f281d 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -571,6 +571,14 @@ impl Sign for HOTPOperation {
 
         self.finalized = true;
 
+        /* the last counter value can't be used, nothing would follow it */
+        let next = match self.update {
+            Some(_) => u64::from_be_bytes(self.counter)
+                .checked_add(1)
+                .ok_or(CKR_FUNCTION_FAILED)?,
+            None => 0,
+        };
+
         let mut otp = vec![0u8; self.length];
         let counter = self.counter;
         self.generate_otp(&counter, &mut otp)?;
@@ -598,9 +606,7 @@ impl Sign for HOTPOperation {
         }
 
         if self.update.is_some() {
-            let mut c_val = u64::from_be_bytes(self.counter);
-            c_val += 1;
-            self.counter = c_val.to_be_bytes();
+            self.counter = next.to_be_bytes();
             self.update = Some(true);
         }
 
@@ -648,16 +654,20 @@ impl Verify for HOTPOperation {
                 self.hmac.reset()?;
             }
             let current_counter = c_val.to_be_bytes();
+            let next = match c_val.checked_add(1) {
+                Some(n) => n,
+                None => break,
+            };
             let mut otp = vec![0u8; self.length];
             self.generate_otp(&current_counter, &mut otp)?;
             if signature == otp {
                 if self.update.is_some() {
-                    self.counter = (c_val + 1).to_be_bytes();
+                    self.counter = next.to_be_bytes();
                     self.update = Some(true);
                 }
                 return Ok(());
             }
-            c_val += 1;
+            c_val = next;
         }
         Err(CKR_SIGNATURE_INVALID)?
     }
-- 
2.43.0


From 1fe87e9f619bcd5c9ae571803104657cec10edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 47/56] fix: a list that does not fit tells its length

---
 src/fns/stmgmt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fns/stmgmt.rs b/src/fns/stmgmt.rs
index 87301d1..94fa7ba 100644
--- a/src/fns/stmgmt.rs
+++ b/src/fns/stmgmt.rs
@@ -36,6 +36,7 @@ fn get_slot_list(
     unsafe {
         let num: CK_ULONG = *count;
         if num < silen {
+            *count = silen;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
@@ -156,7 +157,11 @@ fn get_mechanism_list(
     }
     let mechs = token.get_mechs_list();
     let num = unsafe { *count };
-    if (num as usize) < mechs.len() {
+    let cnt = CK_ULONG::try_from(mechs.len()).map_err(|_| CKR_GENERAL_ERROR)?;
+    if num < cnt {
+        unsafe {
+            *count = cnt;
+        }
         return Err(CKR_BUFFER_TOO_SMALL)?;
     }
     for (udx, mech) in mechs.iter().enumerate() {
@@ -165,7 +170,6 @@ fn get_mechanism_list(
             core::ptr::write(mechanism_list.offset(idx), *mech);
         }
     }
-    let cnt = CK_ULONG::try_from(mechs.len()).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe {
         *count = cnt;
     }
-- 
2.43.0


From c7a481a0ca1f8fcb8963d3d99c5ca8cc256b2f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 48/56] fix: missing arguments are refused instead of being
 used

C_EncryptFinal and C_DecryptFinal without a length, C_SeedRandom,
C_GenerateRandom, C_SetOperationState and the PIN functions without data,
mechanism parameters and attribute values that are NULL although they have
a length.
---
 src/fns/encryption.rs |  4 ++--
 src/fns/mod.rs        |  6 ++++++
 src/fns/sessmgmt.rs   |  6 ++++++
 src/fns/stmgmt.rs     |  9 +++++++++
 src/hmac.rs           |  4 +++-
 src/misc.rs           |  9 +++++----
 src/ossl/aes.rs       |  3 +++
 src/pkcs11/mod.rs     | 18 +++++++++++++-----
 8 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 70e0e11..75e945b 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -242,7 +242,7 @@ fn encrypt_final(
     pul_last_encrypted_part_len: CK_ULONG_PTR,
 ) -> Result<()> {
     let rstate = STATE.rlock()?;
-    if last_encrypted_part.is_null() && pul_last_encrypted_part_len.is_null() {
+    if pul_last_encrypted_part_len.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     let mut session = rstate.get_session_mut(s_handle)?;
@@ -522,7 +522,7 @@ fn decrypt_final(
     last_part: CK_BYTE_PTR,
     pul_last_part_len: CK_ULONG_PTR,
 ) -> Result<()> {
-    if last_part.is_null() && pul_last_part_len.is_null() {
+    if pul_last_part_len.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     let rstate = STATE.rlock()?;
diff --git a/src/fns/mod.rs b/src/fns/mod.rs
index 6740160..6a18864 100644
--- a/src/fns/mod.rs
+++ b/src/fns/mod.rs
@@ -45,6 +45,9 @@ fn seed_random(
     seed: CK_BYTE_PTR,
     seed_len: CK_ULONG,
 ) -> Result<()> {
+    if seed.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     /* check session is valid */
     drop(STATE.rlock()?.get_session(s_handle)?);
     let len = usize::try_from(seed_len).map_err(|_| CKR_GENERAL_ERROR)?;
@@ -80,6 +83,9 @@ fn generate_random(
     random_data: CK_BYTE_PTR,
     random_len: CK_ULONG,
 ) -> Result<()> {
+    if random_data.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     /* check session is valid */
     drop(STATE.rlock()?.get_session(s_handle)?);
     let rndlen = usize::try_from(random_len).map_err(|_| CKR_GENERAL_ERROR)?;
diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index ac73fb1..39996fd 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -228,6 +228,9 @@ fn set_operation_state(
     encryption_key: CK_OBJECT_HANDLE,
     authentication_key: CK_OBJECT_HANDLE,
 ) -> Result<()> {
+    if operation_state.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     if encryption_key != CK_INVALID_HANDLE {
         return Err(CKR_KEY_NOT_NEEDED)?;
     }
@@ -287,6 +290,9 @@ fn login(
     pin: CK_UTF8CHAR_PTR,
     pin_len: CK_ULONG,
 ) -> Result<()> {
+    if pin.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let rstate = STATE.rlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
diff --git a/src/fns/stmgmt.rs b/src/fns/stmgmt.rs
index 94fa7ba..6bcd8e3 100644
--- a/src/fns/stmgmt.rs
+++ b/src/fns/stmgmt.rs
@@ -245,6 +245,9 @@ fn init_token(
     pin_len: CK_ULONG,
     label: CK_UTF8CHAR_PTR,
 ) -> Result<()> {
+    if pin.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let rstate = STATE.rlock()?;
     if rstate.has_sessions(slot_id)? {
         return Err(CKR_SESSION_EXISTS)?;
@@ -299,6 +302,9 @@ fn init_pin(
     pin: CK_UTF8CHAR_PTR,
     pin_len: CK_ULONG,
 ) -> Result<()> {
+    if pin.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let rstate = STATE.rlock()?;
     let mut token = rstate.get_token_from_session_mut(s_handle)?;
     if !token.is_logged_in(CKU_SO) {
@@ -340,6 +346,9 @@ fn set_pin(
     new_pin: CK_UTF8CHAR_PTR,
     new_len: CK_ULONG,
 ) -> Result<()> {
+    if old_pin.is_null() || new_pin.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let rstate = STATE.rlock()?;
     let session = rstate.get_session(s_handle)?;
     if !session.is_writable() {
diff --git a/src/hmac.rs b/src/hmac.rs
index 132f6ac..0dbd507 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -217,7 +217,9 @@ impl HMACMechanism {
             }
             return Ok(self.maxlen);
         }
-        if mech.ulParameterLen != sizeof!(CK_ULONG) {
+        if mech.ulParameterLen != sizeof!(CK_ULONG)
+            || mech.pParameter.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let genlen = usize::try_from(unsafe {
diff --git a/src/misc.rs b/src/misc.rs
index cc9dca8..d2bf8f7 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -62,12 +62,13 @@ pub(crate) use sizeof;
 /// Uses unsafe functions:
 /// - std::slice::from_raw_parts()
 ///
-/// If len is 0 and empty slice reference is returned
+/// If len is 0, or there is no data at all, an empty slice reference is
+/// returned
 pub(crate) unsafe fn bytes_to_slice<'a, T>(
     ptr: *const T,
     len: usize,
 ) -> &'a [T] {
-    if len > 0 {
+    if len > 0 && !ptr.is_null() {
         unsafe { std::slice::from_raw_parts(ptr, len) }
     } else {
         &[]
@@ -80,12 +81,12 @@ pub(crate) unsafe fn bytes_to_slice<'a, T>(
 /// Uses unsafe functions:
 /// - std::slice::from_raw_parts_mut()
 ///
-/// If len is 0 an error is returned
+/// If len is 0 or ptr is null an error is returned
 pub(crate) unsafe fn bytes_to_slice_mut<'a, T>(
     ptr: *mut T,
     len: usize,
 ) -> Result<&'a mut [T]> {
-    if len > 0 {
+    if len > 0 && !ptr.is_null() {
         Ok(unsafe { std::slice::from_raw_parts_mut(ptr, len) })
     } else {
         Err(CKR_GENERAL_ERROR)?
diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index cdc2e4e..4df8f9f 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -206,6 +206,9 @@ impl AesOperation {
     /// Parses the PKCS#11 mechanism parameters (`CK_MECHANISM`) and initializes
     /// an `AesParams` struct based on the specific AES mechanism type.
     fn init_params(mech: &CK_MECHANISM) -> Result<AesParams> {
+        if mech.pParameter.is_null() && mech.ulParameterLen != 0 {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
         match mech.mechanism {
             CKM_AES_CCM => {
                 let params = mech.get_parameters::<CK_CCM_PARAMS>()?;
diff --git a/src/pkcs11/mod.rs b/src/pkcs11/mod.rs
index 5591879..3ea0fb4 100644
--- a/src/pkcs11/mod.rs
+++ b/src/pkcs11/mod.rs
@@ -913,7 +913,9 @@ impl CK_ATTRIBUTE {
     ///
     /// Errors out if the data size does not match the size of a CK_ULONG
     pub fn to_ulong(&self) -> Result<CK_ULONG> {
-        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
         }
         Ok(unsafe { *(self.pValue as CK_ULONG_PTR) })
@@ -923,7 +925,9 @@ impl CK_ATTRIBUTE {
     ///
     /// Errors out if the data size does not match the size of a CK_BBOOL
     pub fn to_bool(self) -> Result<bool> {
-        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
         }
         let val: CK_BBOOL = unsafe { *(self.pValue as CK_BBOOL_PTR) };
@@ -1017,7 +1021,7 @@ impl CK_MECHANISM {
         let Ok(len) = usize::try_from(self.ulParameterLen) else {
             return Err(CKR_ARGUMENTS_BAD)?;
         };
-        if len != std::mem::size_of::<T>() {
+        if len != std::mem::size_of::<T>() || self.pParameter.is_null() {
             return Err(CKR_ARGUMENTS_BAD)?;
         }
         Ok(unsafe { std::ptr::read_unaligned(self.pParameter as *const T) })
@@ -1033,7 +1037,9 @@ impl CK_OTP_PARAM {
     ///
     /// Errors out if the data size does not match the size of a CK_ULONG
     pub fn to_ulong(&self) -> Result<CK_ULONG> {
-        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         Ok(unsafe { *(self.pValue as CK_ULONG_PTR) })
@@ -1043,7 +1049,9 @@ impl CK_OTP_PARAM {
     ///
     /// Errors out if the data size does not match the size of a CK_BBOOL
     pub fn to_bool(self) -> Result<bool> {
-        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let val: CK_BBOOL = unsafe { *(self.pValue as CK_BBOOL_PTR) };
-- 
2.43.0


From 123065109f41984a56988c0a9dfca54ccdc9f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 49/56] fix: a MAC of length zero is refused

It would verify whatever the data and the key.
---
 src/native/tlskdf.rs | 3 +++
 src/ossl/aes.rs      | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index 89f65d2..656ed2b 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -962,6 +962,9 @@ impl TLSMACOperation {
             Err(_) => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         };
         let maclen = params.ulMacLength as usize;
+        if maclen == 0 {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
 
         let label = match params.ulServerOrClient {
             1 => TLS_SERVER_FINISHED,
diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 4df8f9f..b717d0e 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2474,7 +2474,7 @@ impl AesCmacOperation {
             CKM_AES_CMAC_GENERAL => {
                 let params = mech.get_parameters::<CK_MAC_GENERAL_PARAMS>()?;
                 let val = params as usize;
-                if val > AES_BLOCK_SIZE {
+                if val == 0 || val > AES_BLOCK_SIZE {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
                 }
                 val
@@ -2781,7 +2781,7 @@ impl AesMacOperation {
                 let params = mech.get_parameters::<CK_MAC_GENERAL_PARAMS>()?;
                 let val = params as usize;
 
-                if val > AES_BLOCK_SIZE {
+                if val == 0 || val > AES_BLOCK_SIZE {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
                 }
                 val
-- 
2.43.0


From fe77efc22bc5b0811440a9fd7f2f21208f4a46d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 50/56] fix: TLS and SP800-108 derivation refuse missing
 pointers and absurd sizes

---
 src/native/sp800_108.rs | 14 ++++++++++++++
 src/native/tlskdf.rs    | 16 ++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index af51d65..fa0bb03 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -61,6 +61,18 @@ unsafe impl Send for Sp800Operation {}
 unsafe impl Sync for Sp800Operation {}
 
 impl Sp800Operation {
+    /// Checks that the additional keys have a template and a place where
+    /// their handle can be returned
+    fn check_derived_keys(keys: &[CK_DERIVED_KEY]) -> Result<()> {
+        if keys
+            .iter()
+            .any(|k| k.pTemplate.is_null() || k.phKey.is_null())
+        {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
+        Ok(())
+    }
+
     /// Instantiates the Counter Mode KDF
     pub fn counter_kdf_new(
         params: CK_SP800_108_KDF_PARAMS,
@@ -77,6 +89,7 @@ impl Sp800Operation {
                 params.ulAdditionalDerivedKeys as usize,
             )
         };
+        Self::check_derived_keys(addl_drv_keys)?;
         Ok(Sp800Operation {
             mech: CKM_SP800_108_COUNTER_KDF,
             prf: params.prfType,
@@ -105,6 +118,7 @@ impl Sp800Operation {
                 params.ulAdditionalDerivedKeys as usize,
             )
         };
+        Self::check_derived_keys(addl_drv_keys)?;
         let iv = if params.pIV != std::ptr::null_mut() && params.ulIVLen != 0 {
             bytes_to_vec(params.pIV, params.ulIVLen as usize)
         } else if params.pIV == std::ptr::null_mut() && params.ulIVLen == 0 {
diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index 656ed2b..158ab75 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -48,6 +48,8 @@ macro_rules! as_ck_bbool {
 
 pub const TLS_MASTER_SECRET_SIZE: CK_ULONG = 48;
 const TLS_RANDOM_SEED_SIZE: usize = 32;
+/// No MAC secret, key or IV is longer than this many bytes
+const TLS_MAX_KEY_MAT_SIZE: CK_ULONG = 65535;
 /// List of mechanisms allowed for a key derived as a TLS Master Secret.
 const TLS_MASTER_SECRET_ALLOWED_MECHS: [CK_ULONG; 6] = [
     CKM_TLS12_KEY_AND_MAC_DERIVE,
@@ -367,6 +369,12 @@ impl TLSKDFOperation {
         } else {
             params.ulIVSizeInBits / 8
         };
+        if maclen > TLS_MAX_KEY_MAT_SIZE
+            || keylen > TLS_MAX_KEY_MAT_SIZE
+            || ivlen > TLS_MAX_KEY_MAT_SIZE
+        {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
 
         if params.bIsExport != CK_FALSE {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
@@ -395,6 +403,14 @@ impl TLSKDFOperation {
         if params.pReturnedKeyMaterial.is_null() {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
+        if ivlen > 0 {
+            let mat_out = unsafe {
+                std::ptr::read_unaligned(params.pReturnedKeyMaterial)
+            };
+            if mat_out.pIVClient.is_null() || mat_out.pIVServer.is_null() {
+                return Err(CKR_MECHANISM_PARAM_INVALID)?;
+            }
+        }
 
         Ok(TLSKDFOperation {
             finalized: false,
-- 
2.43.0


From 8778a825120dc954e7eda9c73a33713f4b2fb86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 51/56] fix: absurd key lengths and missing derivation or
 signature data are refused

---
 src/fns/keymgmt.rs |  6 +++++-
 src/fns/mod.rs     | 12 ++++++++++++
 src/fns/signing.rs |  3 +++
 src/ossl/aes.rs    |  4 ++--
 src/sp800_108.rs   |  8 ++++++--
 5 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 521b22f..09cbfa6 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -12,7 +12,9 @@ use crate::log_debug;
 use crate::misc::bytes_to_slice;
 use crate::object;
 use crate::pkcs11::*;
-use crate::{fail_if_cka_token_true, STATE};
+use crate::{
+    fail_if_cka_token_true, fail_if_value_len_too_large, STATE,
+};
 
 #[cfg(feature = "fips")]
 use crate::fips;
@@ -45,6 +47,7 @@ fn generate_key(
     let cnt = usize::try_from(count).map_err(|_| CKR_GENERAL_ERROR)?;
     let tmpl: &mut [CK_ATTRIBUTE] =
         unsafe { std::slice::from_raw_parts_mut(template, cnt) };
+    fail_if_value_len_too_large(tmpl)?;
     if !session.is_writable() {
         fail_if_cka_token_true(tmpl)?;
     }
@@ -517,6 +520,7 @@ fn derive_key(
         usize::try_from(attribute_count).map_err(|_| CKR_GENERAL_ERROR)?;
     let tmpl: &mut [CK_ATTRIBUTE] =
         unsafe { std::slice::from_raw_parts_mut(template, cnt) };
+    fail_if_value_len_too_large(tmpl)?;
     if !session.is_writable() {
         fail_if_cka_token_true(tmpl)?;
     }
diff --git a/src/fns/mod.rs b/src/fns/mod.rs
index 6a18864..8b055f0 100644
--- a/src/fns/mod.rs
+++ b/src/fns/mod.rs
@@ -39,6 +39,18 @@ pub(crate) fn fail_if_cka_token_true(template: &[CK_ATTRIBUTE]) -> Result<()> {
     Ok(())
 }
 
+/// Fails if a template asks for a secret longer than any key could be
+pub(crate) fn fail_if_value_len_too_large(
+    template: &[CK_ATTRIBUTE],
+) -> Result<()> {
+    for ck_attr in template.iter().filter(|a| a.type_ == CKA_VALUE_LEN) {
+        if ck_attr.to_ulong()? > CK_ULONG::from(u32::MAX) {
+            return Err(CKR_KEY_SIZE_RANGE)?;
+        }
+    }
+    Ok(())
+}
+
 #[inline(always)]
 fn seed_random(
     s_handle: CK_SESSION_HANDLE,
diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 4735df9..3b146d3 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -750,6 +750,9 @@ fn verify_signature_init(
         return Err(CKR_MECHANISM_INVALID)?;
     }
 
+    if psignature.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let sig_len =
         usize::try_from(psignature_len).map_err(|_| CKR_GENERAL_ERROR)?;
     let signature: &[u8] =
diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index b717d0e..ca0c70c 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -217,7 +217,7 @@ impl AesOperation {
                 }
                 let l = 15 - params.ulNonceLen;
                 if params.ulDataLen == 0
-                    || params.ulDataLen > (1 << (8 * l))
+                    || (l < 8 && params.ulDataLen > (1 << (8 * l)))
                     || params.ulDataLen > (CK_ULONG::MAX - params.ulMACLen)
                 {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
@@ -774,7 +774,7 @@ impl AesOperation {
                 }
                 let l = 15 - params.ulNonceLen;
                 if params.ulDataLen == 0
-                    || params.ulDataLen > (1 << (8 * l))
+                    || (l < 8 && params.ulDataLen > (1 << (8 * l)))
                     || params.ulDataLen > (CK_ULONG::MAX - params.ulMACLen)
                 {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
diff --git a/src/sp800_108.rs b/src/sp800_108.rs
index b550c9c..0ec005d 100644
--- a/src/sp800_108.rs
+++ b/src/sp800_108.rs
@@ -107,7 +107,9 @@ impl Sp800Params {
                 bits: 16,
             });
         }
-        if p.ulValueLen != sizeof!(CK_SP800_108_COUNTER_FORMAT) {
+        if p.ulValueLen != sizeof!(CK_SP800_108_COUNTER_FORMAT)
+            || p.pValue.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let cf = unsafe { *(p.pValue as *const CK_SP800_108_COUNTER_FORMAT) };
@@ -133,7 +135,9 @@ impl Sp800Params {
     }
 
     fn parse_dkm_length(p: &CK_PRF_DATA_PARAM) -> Result<Sp800DKMLengthFormat> {
-        if p.ulValueLen != sizeof!(CK_SP800_108_DKM_LENGTH_FORMAT) {
+        if p.ulValueLen != sizeof!(CK_SP800_108_DKM_LENGTH_FORMAT)
+            || p.pValue.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let dkm =
-- 
2.43.0


From 6fc83ce0573ff4007436a28384041fb62ae2d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 52/56] fix: attributes only the module sets cannot be given
 when a key is generated, unwrapped or derived

---
 src/ffdh.rs           |  5 ++---
 src/hotp.rs           |  4 ++--
 src/object/factory.rs |  7 ++++++-
 src/object/otp.rs     | 12 ++++++------
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/ffdh.rs b/src/ffdh.rs
index d91d38c..c771467 100644
--- a/src/ffdh.rs
+++ b/src/ffdh.rs
@@ -195,9 +195,8 @@ impl FFDHPrivFactory {
             | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE_BITS;
-            OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
-            Attribute::from_ulong; val 0));
+            CKA_VALUE_BITS; OAFlags::Unchangeable; Attribute::from_ulong;
+            val 0));
 
         factory.data.finalize();
 
diff --git a/src/hotp.rs b/src/hotp.rs
index 35f281d..8b61e7f 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -96,7 +96,7 @@ impl HOTPKeyFactory {
 
         /* override CKA_OTP_COUNTER to have 8 bytes of 0s as defval */
         let counter = attr_element!(
-            CKA_OTP_COUNTER; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
+            CKA_OTP_COUNTER; OAFlags::Defval; Attribute::from_bytes;
             val vec![0; 8]);
         match attributes
             .iter()
@@ -108,7 +108,7 @@ impl HOTPKeyFactory {
 
         /* override CKA_OTP_FORMAT to be settable only on creation */
         let format = attr_element!(
-            CKA_OTP_FORMAT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong;
+            CKA_OTP_FORMAT; OAFlags::Defval; Attribute::from_ulong;
             val CK_OTP_FORMAT_DECIMAL);
         match attributes
             .iter()
diff --git a/src/object/factory.rs b/src/object/factory.rs
index 8ebe952..70afb56 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -129,6 +129,11 @@ impl ObjectAttr {
         self.flags.contains(val)
     }
 
+    /// Check if any of the flags is present on the ObjectAttr
+    pub fn is_any(&self, val: OAFlags) -> bool {
+        self.flags.intersects(val)
+    }
+
     /// Checks if the ObjectAttr has a default value
     pub fn has_default(&self) -> bool {
         self.flags.contains(OAFlags::Defval)
@@ -323,7 +328,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
-                    if attr.is(unacceptable_flags) {
+                    if attr.is_any(unacceptable_flags) {
                         return Err(CKR_ATTRIBUTE_TYPE_INVALID)?;
                     }
                     /* duplicate? */
diff --git a/src/object/otp.rs b/src/object/otp.rs
index c4c0e03..5cd79d4 100644
--- a/src/object/otp.rs
+++ b/src/object/otp.rs
@@ -17,19 +17,19 @@ pub trait OTPKeyFactory: SecretKeyFactory {
         self.add_common_secret_key_attrs();
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_OTP_FORMAT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val CK_OTP_FORMAT_DECIMAL));
+            CKA_OTP_FORMAT; OAFlags::Defval; Attribute::from_ulong; val CK_OTP_FORMAT_DECIMAL));
         attrs.push(attr_element!(
-            CKA_OTP_LENGTH; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val 6));
+            CKA_OTP_LENGTH; OAFlags::Defval; Attribute::from_ulong; val 6));
         attrs.push(attr_element!(
             CKA_OTP_USER_FRIENDLY_MODE; OAFlags::Defval; Attribute::from_bool; val false));
         attrs.push(attr_element!(
-            CKA_OTP_CHALLENGE_REQUIREMENT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
+            CKA_OTP_CHALLENGE_REQUIREMENT; OAFlags::Defval; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
         attrs.push(attr_element!(
-            CKA_OTP_TIME_REQUIREMENT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
+            CKA_OTP_TIME_REQUIREMENT; OAFlags::Defval; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
         attrs.push(attr_element!(
-            CKA_OTP_COUNTER_REQUIREMENT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
+            CKA_OTP_COUNTER_REQUIREMENT; OAFlags::Defval; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
         attrs.push(attr_element!(
-            CKA_OTP_PIN_REQUIREMENT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
+            CKA_OTP_PIN_REQUIREMENT; OAFlags::Defval; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
         attrs.push(attr_element!(
             CKA_OTP_COUNTER; OAFlags::Defval; Attribute::from_bytes; val vec![0u8; 8]));
         attrs.push(attr_element!(
-- 
2.43.0


From 7a41da2df84e8c9d75882cff067549c8bf56e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 53/56] fix: encryption and decryption with input and output in
 the same place

---
 src/fns/dualcrypto.rs | 27 ++++++++++++++++++++++--
 src/fns/encryption.rs | 49 ++++++++++++++++++++++++-------------------
 src/misc.rs           | 27 ++++++++++++++++++++++++
 3 files changed, 79 insertions(+), 24 deletions(-)

diff --git a/src/fns/dualcrypto.rs b/src/fns/dualcrypto.rs
index 73025b7..9ea8575 100644
--- a/src/fns/dualcrypto.rs
+++ b/src/fns/dualcrypto.rs
@@ -13,6 +13,7 @@ use crate::fns::encryption::{
 use crate::fns::log_debug;
 use crate::fns::signing::{internal_sign_update, internal_verify_update};
 use crate::mechanism::{Digest, Sign, Verify};
+use crate::misc;
 use crate::pkcs11::*;
 use crate::STATE;
 
@@ -36,6 +37,17 @@ fn digest_encrypt_update(
 
     session.check_op::<dyn Digest>()?;
 
+    /* the plain data is still needed after it has been encrypted */
+    let plain = unsafe {
+        misc::input_slice(
+            part,
+            usize::try_from(part_len).map_err(|_| CKR_ARGUMENTS_BAD)?,
+            encrypted_part,
+            usize::try_from(*pul_encrypted_part_len)
+                .map_err(|_| CKR_ARGUMENTS_BAD)?,
+        )
+    };
+
     internal_encrypt_update(
         &mut session,
         part,
@@ -47,7 +59,7 @@ fn digest_encrypt_update(
         return Ok(());
     }
 
-    internal_digest_update(&mut session, part, part_len)
+    internal_digest_update(&mut session, plain.as_ptr() as CK_BYTE_PTR, part_len)
 }
 
 pub extern "C" fn fn_digest_encrypt_update(
@@ -163,6 +175,17 @@ fn sign_encrypt_update(
 
     session.check_op::<dyn Sign>()?;
 
+    /* the plain data is still needed after it has been encrypted */
+    let plain = unsafe {
+        misc::input_slice(
+            part,
+            usize::try_from(part_len).map_err(|_| CKR_ARGUMENTS_BAD)?,
+            encrypted_part,
+            usize::try_from(*pul_encrypted_part_len)
+                .map_err(|_| CKR_ARGUMENTS_BAD)?,
+        )
+    };
+
     internal_encrypt_update(
         &mut session,
         part,
@@ -174,7 +197,7 @@ fn sign_encrypt_update(
         return Ok(());
     }
 
-    internal_sign_update(&mut session, part, part_len)
+    internal_sign_update(&mut session, plain.as_ptr() as CK_BYTE_PTR, part_len)
 }
 
 pub extern "C" fn fn_sign_encrypt_update(
diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 75e945b..df28fd4 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -12,6 +12,7 @@ use crate::check_allowed_mechs;
 use crate::error::Result;
 use crate::log_debug;
 use crate::mechanism::{Decryption, Encryption, MsgDecryption, MsgEncryption};
+use crate::misc;
 use crate::pkcs11::*;
 use crate::session::Session;
 use crate::STATE;
@@ -104,12 +105,13 @@ fn encrypt(
         }
         return Ok(());
     }
-    let data: &[u8] = unsafe { std::slice::from_raw_parts(pdata, dlen) };
     let penclen = unsafe { *pul_encrypted_data_len as CK_ULONG };
     let enclen = usize::try_from(penclen).map_err(|_| CKR_ARGUMENTS_BAD)?;
+    let data =
+        unsafe { misc::input_slice(pdata, dlen, encrypted_data, enclen) };
     let encdata: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(encrypted_data, enclen) };
-    let outlen = operation.encrypt(data, encdata)?;
+    let outlen = operation.encrypt(&data, encdata)?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_encrypted_data_len = retlen };
 
@@ -168,12 +170,13 @@ pub(crate) fn internal_encrypt_update(
     let len = if encrypted_part.is_null() {
         operation.encryption_len(plen, false)?
     } else {
-        let data: &[u8] = unsafe { std::slice::from_raw_parts(part, plen) };
         let penclen = unsafe { *pul_encrypted_part_len as CK_ULONG };
         let enclen = usize::try_from(penclen).map_err(|_| CKR_ARGUMENTS_BAD)?;
+        let data =
+            unsafe { misc::input_slice(part, plen, encrypted_part, enclen) };
         let encpart: &mut [u8] =
             unsafe { std::slice::from_raw_parts_mut(encrypted_part, enclen) };
-        operation.encrypt_update(data, encpart)?
+        operation.encrypt_update(&data, encpart)?
     };
     let cklen = CK_ULONG::try_from(len).map_err(|_| CKR_ARGUMENTS_BAD)?;
     unsafe { *pul_encrypted_part_len = cklen };
@@ -382,13 +385,12 @@ fn decrypt(
         }
         return Ok(());
     }
-    let enc: &[u8] =
-        unsafe { std::slice::from_raw_parts(encrypted_data, elen) };
     let pdlen = unsafe { *pul_data_len as CK_ULONG };
     let dlen = usize::try_from(pdlen).map_err(|_| CKR_ARGUMENTS_BAD)?;
+    let enc = unsafe { misc::input_slice(encrypted_data, elen, data, dlen) };
     let ddata: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(data, dlen) };
-    let outlen = operation.decrypt(enc, ddata)?;
+    let outlen = operation.decrypt(&enc, ddata)?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_data_len = retlen };
 
@@ -448,13 +450,13 @@ pub(crate) fn internal_decrypt_update(
     let len = if part.is_null() {
         operation.decryption_len(elen, false)?
     } else {
-        let enc: &[u8] =
-            unsafe { std::slice::from_raw_parts(encrypted_part, elen) };
         let pplen = unsafe { *pul_part_len as CK_ULONG };
         let plen = usize::try_from(pplen).map_err(|_| CKR_ARGUMENTS_BAD)?;
+        let enc =
+            unsafe { misc::input_slice(encrypted_part, elen, part, plen) };
         let dpart: &mut [u8] =
             unsafe { std::slice::from_raw_parts_mut(part, plen) };
-        operation.decrypt_update(enc, dpart)?
+        operation.decrypt_update(&enc, dpart)?
     };
     let cklen = CK_ULONG::try_from(len).map_err(|_| CKR_ARGUMENTS_BAD)?;
     unsafe { *pul_part_len = cklen };
@@ -682,7 +684,7 @@ fn encrypt_message(
     } else {
         unsafe { std::slice::from_raw_parts(associated_data, alen) }
     };
-    let plain: &[u8] = unsafe { std::slice::from_raw_parts(plaintext, plen) };
+    let plain = unsafe { misc::input_slice(plaintext, plen, ciphertext, clen) };
     let cipher: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(ciphertext, clen) };
 
@@ -690,7 +692,7 @@ fn encrypt_message(
         parameter,
         parameter_len,
         adata,
-        plain,
+        &plain,
         cipher,
     )?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
@@ -872,8 +874,9 @@ fn encrypt_message_next(
         return Ok(());
     }
 
-    let plain: &[u8] =
-        unsafe { std::slice::from_raw_parts(plaintext_part, plen) };
+    let plain = unsafe {
+        misc::input_slice(plaintext_part, plen, ciphertext_part, clen)
+    };
     let cipher: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(ciphertext_part, clen) };
 
@@ -881,13 +884,13 @@ fn encrypt_message_next(
         false => operation.msg_encrypt_next(
             parameter,
             parameter_len,
-            plain,
+            &plain,
             cipher,
         )?,
         true => operation.msg_encrypt_final(
             parameter,
             parameter_len,
-            plain,
+            &plain,
             cipher,
         )?,
     };
@@ -1076,7 +1079,8 @@ fn decrypt_message(
     } else {
         unsafe { std::slice::from_raw_parts(associated_data, alen) }
     };
-    let cipher: &[u8] = unsafe { std::slice::from_raw_parts(ciphertext, clen) };
+    let cipher =
+        unsafe { misc::input_slice(ciphertext, clen, plaintext, plen) };
     let plain: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(plaintext, plen) };
 
@@ -1084,7 +1088,7 @@ fn decrypt_message(
         parameter,
         parameter_len,
         adata,
-        cipher,
+        &cipher,
         plain,
     )?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
@@ -1266,8 +1270,9 @@ fn decrypt_message_next(
         return Ok(());
     }
 
-    let cipher: &[u8] =
-        unsafe { std::slice::from_raw_parts(ciphertext_part, clen) };
+    let cipher = unsafe {
+        misc::input_slice(ciphertext_part, clen, plaintext_part, plen)
+    };
     let plain: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(plaintext_part, plen) };
 
@@ -1275,13 +1280,13 @@ fn decrypt_message_next(
         false => operation.msg_decrypt_next(
             parameter,
             parameter_len,
-            cipher,
+            &cipher,
             plain,
         )?,
         true => operation.msg_decrypt_final(
             parameter,
             parameter_len,
-            cipher,
+            &cipher,
             plain,
         )?,
     };
diff --git a/src/misc.rs b/src/misc.rs
index d2bf8f7..d4bf2c2 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -4,6 +4,8 @@
 //! This module implements miscellaneous utilities that do not really
 //! belong in any specific module
 
+use std::borrow::Cow;
+
 use crate::attribute::{Attribute, CkAttrs};
 use crate::error::Result;
 use crate::object::{Object, ObjectFactories, ObjectType};
@@ -75,6 +77,31 @@ pub(crate) unsafe fn bytes_to_slice<'a, T>(
     }
 }
 
+/// Returns the input data of a call that writes its output to another
+/// buffer provided by the caller
+///
+/// Input and output are allowed to be in the same place, but the two must not
+/// overlap while they are processed, therefore in this case the input is
+/// copied first.
+///
+/// Uses unsafe functions: the pointers and lengths must refer to valid memory
+pub(crate) unsafe fn input_slice<'a>(
+    data: *const u8,
+    len: usize,
+    out: *const u8,
+    outlen: usize,
+) -> Cow<'a, [u8]> {
+    let (din, dout) = (data as usize, out as usize);
+    let overlaps = !out.is_null()
+        && din < dout.saturating_add(outlen)
+        && dout < din.saturating_add(len);
+    if overlaps {
+        Cow::Owned(bytes_to_vec(data, len))
+    } else {
+        Cow::Borrowed(unsafe { bytes_to_slice(data, len) })
+    }
+}
+
 /// Convenience function to return a mutable reference to a slice from
 /// a pointer+length obtained via FFI
 ///
-- 
2.43.0


From e1f76bf5e111ed6cf34f8cc5edabfc4d5fcd0cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 54/56] fix: PBKDF2 without any iteration is refused instead of
 giving a zero key

---
 src/pbkdf2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pbkdf2.rs b/src/pbkdf2.rs
index 8591709..9532f93 100644
--- a/src/pbkdf2.rs
+++ b/src/pbkdf2.rs
@@ -126,6 +126,9 @@ impl Mechanism for PBKDF2Mechanism {
             _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         };
         let iter = usize::try_from(params.iterations)?;
+        if iter == 0 {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
 
         /* check early that we have key class and type defined */
         let factory =
-- 
2.43.0


From af37d48617215bbe66b76187f02c7612eccb63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 55/56] fix: searching by a readable secret value finds
 encrypted token objects

The values of sensitive attributes are stored encrypted, so the storage back
end never found a token key by e.g. CKA_VALUE even if the key is neither
sensitive nor unextractable.
---
 src/object/factory.rs |  8 +++++++
 src/storage/format.rs | 56 ++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 70afb56..c1c1b60 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -904,6 +904,14 @@ impl ObjectFactories {
         self.get_factory(ObjectType::new(class, type_))
     }
 
+    /// Tells whether any kind of object has the given attribute as a
+    /// sensitive one
+    pub fn is_sensitive_type(&self, typ: CK_ATTRIBUTE_TYPE) -> bool {
+        self.factories
+            .values()
+            .any(|f| f.get_data().get_sensitive().contains(&typ))
+    }
+
     /// Helper to check if the template includes invalid or sensitive
     /// attributes related to the specified object. This is done by
     /// sourcing the object factory related to the provide object and
diff --git a/src/storage/format.rs b/src/storage/format.rs
index e3e2ec6..6b3db10 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -219,6 +219,45 @@ impl StdStorageFormat {
     }
 
     /// Sets the default SO PIN during token initialization.
+    /// Checks whether a stored object has all the values requested, which
+    /// are decrypted first if the object's factory protects them
+    fn match_secrets(
+        &self,
+        facilities: &TokenFacilities,
+        obj: &Object,
+        wanted: &[&CK_ATTRIBUTE],
+    ) -> bool {
+        if wanted.is_empty() {
+            return true;
+        }
+        let (uid, factory) = match (
+            obj.get_attr_as_string(CKA_UNIQUE_ID),
+            facilities.factories.get_object_factory(obj),
+        ) {
+            (Ok(u), Ok(f)) => (u, f),
+            _ => return false,
+        };
+        let ats = factory.get_data().get_sensitive();
+        wanted.iter().all(|w| {
+            let stored = match obj.get_attr(w.type_) {
+                Some(attr) => attr.get_value(),
+                None => return false,
+            };
+            let value = match w.to_buf() {
+                Ok(v) => v,
+                Err(_) => return false,
+            };
+            if ats.contains(&w.type_) {
+                match self.aci.decrypt_value(facilities, &uid, stored) {
+                    Ok(plain) => plain == value,
+                    Err(_) => false,
+                }
+            } else {
+                *stored == value
+            }
+        })
+    }
+
     fn default_so_pin(&mut self, facilities: &TokenFacilities) -> Result<()> {
         let data =
             self.aci
@@ -438,7 +477,19 @@ impl Storage for StdStorageFormat {
         facilities: &mut TokenFacilities,
         template: &[CK_ATTRIBUTE],
     ) -> Result<Vec<CK_OBJECT_HANDLE>> {
-        let mut objects = self.store.search(template)?;
+        /* encrypted values can not be matched by the raw storage, they have
+         * to be compared once the candidates are known */
+        let mut raw_template = CkAttrs::from(template);
+        let mut secrets = Vec::<&CK_ATTRIBUTE>::new();
+        if self.aci.encrypts() {
+            for attr in template {
+                if facilities.factories.is_sensitive_type(attr.type_) {
+                    while raw_template.remove_attr(attr.type_).is_some() {}
+                    secrets.push(attr);
+                }
+            }
+        }
+        let mut objects = self.store.search(raw_template.as_slice())?;
         let mut result = Vec::<CK_OBJECT_HANDLE>::with_capacity(objects.len());
         for mut obj in objects.drain(..) {
             if obj.is_sensitive() || !obj.is_extractable() {
@@ -448,6 +499,9 @@ impl Storage for StdStorageFormat {
                     Ok(()) => (),
                 }
             }
+            if !self.match_secrets(facilities, &obj, &secrets) {
+                continue;
+            }
             if let Ok(uid) = obj.get_attr_as_string(CKA_UNIQUE_ID) {
                 /* do not return internal objects */
                 if let Ok(numuid) = uid.parse::<usize>() {
-- 
2.43.0


From 3a34e1b0cbf9f7bdfc0a11630510f38c4ce3a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:02 +0000
Subject: [PATCH 56/56] hook: sqlite raw storage for the verification harness

---
 src/storage/sqlite.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/storage/sqlite.rs b/src/storage/sqlite.rs
index da54f1b..b8b7b3b 100644
--- a/src/storage/sqlite.rs
+++ b/src/storage/sqlite.rs
@@ -731,3 +731,16 @@ impl StorageDBInfo for SqliteDBInfo {
 
 /// Static instance of the SQLite storage backend information provider.
 pub static DBINFO: SqliteDBInfo = SqliteDBInfo { db_type: "sqlite" };
+
+/* Verification harness hook: the raw back end, to be put under a storage
+ * format with a bounded PBKDF2 work factor */
+#[allow(unexpected_cfgs)]
+#[cfg(kryoptic_verif)]
+impl SqliteStorage {
+    pub fn verif_new(filename: String) -> Result<SqliteStorage> {
+        Ok(SqliteStorage {
+            filename: filename,
+            conn: Arc::new(Mutex::from(Connection::open_in_memory()?)),
+        })
+    }
+}
-- 
2.43.0

