From 83e5929da706ca94e53d905717910298605e8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 01/13] fix: release network lists with the element type they
 were allocated with

---
 keychain-c/src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain-c/src/network.rs b/keychain-c/src/network.rs
index ab30ccc..97f3585 100644
--- a/keychain-c/src/network.rs
+++ b/keychain-c/src/network.rs
@@ -33,7 +33,7 @@ impl Ptr<[Network]> for NetworksPtr {
     if self.ptr.is_null() {
       return;
     }
-    let _ = Vec::from_raw_parts(self.ptr as *mut &[Network], self.count, self.count);
+    let _ = Vec::from_raw_parts(self.ptr as *mut Network, self.count, self.count);
     self.ptr = std::ptr::null();
   }
 }
-- 
2.43.0


From 7df7630da289e25554a70ad3e82486750b856f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 02/13] fix: do not dereference or release null C strings

---
 keychain-c/src/utils/string.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keychain-c/src/utils/string.rs b/keychain-c/src/utils/string.rs
index 4ab4ed0..13440c0 100644
--- a/keychain-c/src/utils/string.rs
+++ b/keychain-c/src/utils/string.rs
@@ -6,10 +6,14 @@ pub type CharPtr = *const c_char;
 
 impl Ptr<str> for CharPtr {
   unsafe fn rust_ref(&self) -> &str {
+    assert!(!self.is_null(), "null string pointer");
     CStr::from_ptr(*self).to_str().unwrap()
   }
 
   unsafe fn free(&mut self) {
+    if self.is_null() {
+      return;
+    }
     let _ = CString::from_raw(*self as *mut c_char);
     *self = std::ptr::null();
   }
-- 
2.43.0


From c46a7ba0c44dd044e827ccbcacb702b4f5a56fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 03/13] fix: refuse hardened path components of 2^31 and more
 instead of overflowing

---
 keychain/src/key_path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 5a9f8d5..790cd9d 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -71,7 +71,11 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    Self::soft_int(index, &s[..s.len() - 1]).map(|val| val + BIP44_SOFT_UPPER_BOUND)
+    let digits = &s[..s.len() - 1];
+    let val = Self::soft_int(index, digits)?;
+    // the hardened bit must be free, so a bigger value overflows
+    str::parse::<i32>(digits).map_err(|err| Error::ParseErrorAtIndex(index, err))?;
+    Ok(val + BIP44_SOFT_UPPER_BOUND)
   }
 
   fn soft_int(index: usize, s: &str) -> Result<u32, Error> {
-- 
2.43.0


From f1440ebc01297300013982f20c983e3ca8b5dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 04/13] fix: do not panic on path components ending with a
 multibyte character

---
 keychain/src/key_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 790cd9d..1b31c83 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -89,7 +89,7 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    if &s[s.len() - 1..] == "'" {
+    if s.ends_with("'") {
       Self::hard_int(index, s)
     } else {
       Self::soft_int(index, s)
-- 
2.43.0


From b7eb07d99d99a8cd1dad79aae33e77a19d03d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 05/13] fix: report the invalid address, not the change, from
 path constructors

---
 keychain/src/networks/bitcoin/key_path.rs | 2 +-
 keychain/src/networks/cardano/key_path.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/bitcoin/key_path.rs b/keychain/src/networks/bitcoin/key_path.rs
index da77a71..20e4b9d 100644
--- a/keychain/src/networks/bitcoin/key_path.rs
+++ b/keychain/src/networks/bitcoin/key_path.rs
@@ -40,7 +40,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(())
   }
diff --git a/keychain/src/networks/cardano/key_path.rs b/keychain/src/networks/cardano/key_path.rs
index 6bae86a..7cd2d8c 100644
--- a/keychain/src/networks/cardano/key_path.rs
+++ b/keychain/src/networks/cardano/key_path.rs
@@ -19,7 +19,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(KeyPath { account: account + BIP44_SOFT_UPPER_BOUND, change, address })
   }
-- 
2.43.0


From 9d77a082663d599247efbd818c976fb398e0c926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 06/13] fix: refuse oversized Cardano keys and signatures
 instead of panicking

---
 keychain/src/networks/cardano/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index c06be8d..ef840b4 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -48,7 +48,7 @@ pub struct Key {
 impl Key {
   pub fn from_data(data: &[u8]) -> Result<Self, Error> {
     let mut arr: [u8; XPRV_SIZE] = [0; XPRV_SIZE];
-    if data.len() < XPRV_SIZE {
+    if data.len() != XPRV_SIZE {
       return Err(Error::InvalidKeySize(data.len(), XPRV_SIZE));
     }
     arr.copy_from_slice(data);
@@ -126,7 +126,7 @@ impl IKey for Key {
 
   fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, Error> {
     let mut sign: [u8; SIGNATURE_SIZE] = [0; SIGNATURE_SIZE];
-    if signature.len() < SIGNATURE_SIZE {
+    if signature.len() != SIGNATURE_SIZE {
       return Err(Error::InvalidSignatureSize(signature.len(), SIGNATURE_SIZE));
     }
     sign.copy_from_slice(signature);
-- 
2.43.0


From 07e2e89955495b652e3a5e1ffe17d6dc68a7501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 07/13] fix: verify signatures in the form sign produces, with
 recovery id

---
 secp256k1_bip32/src/public.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/secp256k1_bip32/src/public.rs b/secp256k1_bip32/src/public.rs
index 2192c68..f8eb8df 100644
--- a/secp256k1_bip32/src/public.rs
+++ b/secp256k1_bip32/src/public.rs
@@ -20,7 +20,8 @@ impl XPub {
   }
 
   pub fn verify(&self, data: &[u8], signature: &[u8]) -> Result<bool, KeyError> {
-    if signature.len() != util::SIGNATURE_SIZE {
+    // XPrv::sign appends recovery id to the signature
+    if signature.len() != util::SIGNATURE_SIZE && signature.len() != util::SIGNATURE_SIZE + 1 {
       return Err(KeyError::InvalidSignature(signature.len(), util::SIGNATURE_SIZE));
     }
     let mut sha3 = Sha3::keccak256();
@@ -30,7 +31,7 @@ impl XPub {
 
     let message = Message::parse(&out);
 
-    Signature::parse_slice(signature)
+    Signature::parse_slice(&signature[..util::SIGNATURE_SIZE])
       .map(|signature| verify(&message, &signature, &self.0))
       .map_err(|err| err.into())
   }
-- 
2.43.0


From eb3d9f9cc465dd9b0d2ef66b2c4aa7d24017054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 08/13] fix: do not retry the last soft derivation index as a
 hardened one

---
 secp256k1_bip32/src/private.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/secp256k1_bip32/src/private.rs b/secp256k1_bip32/src/private.rs
index 226c445..0f92ae3 100644
--- a/secp256k1_bip32/src/private.rs
+++ b/secp256k1_bip32/src/private.rs
@@ -201,7 +201,8 @@ impl XPrv {
     let mut newpk = self.key.clone();
 
     if newpk.tweak_add_assign(&tweak_pk).is_err() {
-      if (hardened && index < std::u32::MAX) || (!hardened && index < BIP44_SOFT_UPPER_BOUND) {
+      if (hardened && index < std::u32::MAX) || (!hardened && index < BIP44_SOFT_UPPER_BOUND - 1)
+      {
         return self.derive(index + 1);
       } else {
         return Err(KeyError::TweakOutOfRange);
-- 
2.43.0


From 97a3af67879370784af5a5c10e7f9e9a5ec3d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 09/13] fix: decrypt data sealed from an empty plaintext

---
 keychain/src/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/crypt.rs b/keychain/src/crypt.rs
index 1a3b964..65980b6 100644
--- a/keychain/src/crypt.rs
+++ b/keychain/src/crypt.rs
@@ -72,7 +72,7 @@ pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
 pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
   use self::password_encryption_parameter::*;
 
-  if data.len() <= METADATA_SIZE {
+  if data.len() < METADATA_SIZE {
     // not enough input to decrypt.
     return Err(DecryptError::NotEnoughData);
   }
-- 
2.43.0


From 72aacda16ccf7008540985f03a1a032e25311592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 10/13] fix: refuse out of range word indexes instead of
 reading out of bounds

---
 bip39/src/bip39.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index c5568f2..dafa355 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -921,7 +921,10 @@ pub mod dictionary {
       }
     }
     fn lookup_word(&self, mnemonic: MnemonicIndex) -> Result<String> {
-      Ok(unsafe { self.words.get_unchecked(mnemonic.0 as usize) }).map(|s| String::from(*s))
+      match self.words.get(mnemonic.0 as usize) {
+        None => Err(Error::MnemonicWordNotFoundInDictionary(mnemonic.0.to_string())),
+        Some(s) => Ok(String::from(*s))
+      }
     }
   }
 
-- 
2.43.0


From bcab12766bde5f434cfac95115e7ec9b13adaaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 11/13] fix: wipe seeds and entropy with writes the compiler
 may not remove

---
 bip39/src/bip39.rs          |  2 +-
 bip39/src/util/securemem.rs | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index dafa355..b637cf8 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -512,7 +512,7 @@ impl Deref for Seed {
 }
 impl Drop for Seed {
   fn drop(&mut self) {
-    self.0.copy_from_slice(&[0; SEED_SIZE][..]);
+    securemem::zero(&mut self.0);
   }
 }
 
diff --git a/bip39/src/util/securemem.rs b/bip39/src/util/securemem.rs
index 61ba866..101d9ed 100755
--- a/bip39/src/util/securemem.rs
+++ b/bip39/src/util/securemem.rs
@@ -1,12 +1,13 @@
+use std::sync::atomic::{compiler_fence, Ordering};
+
 /// zero the given slice.
 ///
-/// We assume the compiler won't optimise out the call to this function
+/// The writes are volatile, so the compiler can't optimise them out, even when
+/// the memory is not used any more.
 pub fn zero(to_zero: &mut [u8]) {
-  // the unsafety of this call is bounded to the existence of the pointer
-  // and the accuracy of the length of the array.
-  //
-  // since to_zero existence is bound to live at least as long as the call
-  // of this function and that we use the length (in bytes) of the given
-  // slice, this call is safe.
-  unsafe { ::std::ptr::write_bytes(to_zero.as_mut_ptr(), 0, to_zero.len()) }
+  for byte in to_zero.iter_mut() {
+    // the write is safe, because it goes through an exclusive reference
+    unsafe { ::std::ptr::write_volatile(byte, 0) }
+  }
+  compiler_fence(Ordering::SeqCst);
 }
-- 
2.43.0


From 06e3f8b7a53c0f6aebf5ee28976cb668dd0d0d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 12/13] fix: report errors whose text contains NUL characters
 instead of aborting

---
 keychain-c/src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain-c/src/error.rs b/keychain-c/src/error.rs
index 85c1b4b..a46a34a 100644
--- a/keychain-c/src/error.rs
+++ b/keychain-c/src/error.rs
@@ -59,11 +59,16 @@ impl ErrorPtr {
   }
 
   pub fn new(err: &RError) -> Self {
-    Self { error_type: Self::error_type(err), message: format!("{}", err).to_cstr() }
+    Self { error_type: Self::error_type(err), message: Self::message(&format!("{}", err)) }
   }
 
   pub fn panic(msg: &str) -> Self {
-    Self { error_type: ErrorType::Panic, message: msg.to_cstr() }
+    Self { error_type: ErrorType::Panic, message: Self::message(msg) }
+  }
+
+  // C string can't hold NUL characters, but they must not stop the error from being reported
+  fn message(msg: &str) -> CharPtr {
+    msg.replace('\0', " ").to_cstr()
   }
 }
 
-- 
2.43.0


From f7136d3a79e34dc8e5248c9aa78bc548fefc4662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 13/13] fix: accept null C buffers of zero length without
 undefined behaviour

---
 keychain-c/src/backup.rs     |  6 +++---
 keychain-c/src/keychain_c.rs |  8 ++++----
 keychain-c/src/manager.rs    | 10 +++++-----
 keychain-c/src/utils/data.rs |  9 +++++++++
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/keychain-c/src/backup.rs b/keychain-c/src/backup.rs
index cdc6052..99a396f 100644
--- a/keychain-c/src/backup.rs
+++ b/keychain-c/src/backup.rs
@@ -2,7 +2,7 @@ use error::ErrorPtr;
 use keychain::Network as RNetwork;
 use manager::{KeychainManagerPtr, Language};
 use network::Network;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::handle_exception_result;
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -86,7 +86,7 @@ pub unsafe extern "C" fn keychain_manager_get_keys_data(
   data: &mut KeyBackupPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(encrypted, encrypted_len);
+    let data_slice = slice_from_c(encrypted, encrypted_len);
     manager
       .rust_ref()
       .get_keys_data(data_slice, password.rust_ref())
@@ -101,7 +101,7 @@ pub unsafe extern "C" fn keychain_manager_retrieve_mnemonic(
   mnemonic: &mut MnemonicInfoPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .retrieve_mnemonic(data_slice, password.rust_ref())
diff --git a/keychain-c/src/keychain_c.rs b/keychain-c/src/keychain_c.rs
index f4fc79a..fbe08cd 100644
--- a/keychain-c/src/keychain_c.rs
+++ b/keychain-c/src/keychain_c.rs
@@ -3,7 +3,7 @@ use key_path::KeyPath;
 use keychain::Keychain as RKeychain;
 use network::{Network, NetworksPtr};
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -54,7 +54,7 @@ pub unsafe extern "C" fn keychain_sign(
   signature: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     keychain.rust_ref().sign(&network.into(), data_slice, &path).map(|data| DataPtr::from(data))
   })
   .response(signature, error)
@@ -66,8 +66,8 @@ pub unsafe extern "C" fn keychain_verify(
   signature_len: usize, path: KeyPath, result: &mut bool, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
-    let signature_slice = std::slice::from_raw_parts(signature, signature_len);
+    let data_slice = slice_from_c(data, data_len);
+    let signature_slice = slice_from_c(signature, signature_len);
 
     keychain.rust_ref().verify(&network.into(), data_slice, signature_slice, &path)
   })
diff --git a/keychain-c/src/manager.rs b/keychain-c/src/manager.rs
index 0d0c1d0..d5187ab 100644
--- a/keychain-c/src/manager.rs
+++ b/keychain-c/src/manager.rs
@@ -4,7 +4,7 @@ use keychain_c::KeychainPtr;
 use network::Network;
 use num_traits::FromPrimitive;
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -92,7 +92,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_data_from_seed(
   data: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let seed_slice = std::slice::from_raw_parts(seed, seed_len);
+    let seed_slice = slice_from_c(seed, seed_len);
     manager
       .rust_ref()
       .keychain_data_from_seed(seed_slice, password.rust_ref())
@@ -121,7 +121,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_from_data(
   keychain: &mut KeychainPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .keychain_from_data(data_slice, password.rust_ref())
@@ -136,7 +136,7 @@ pub unsafe extern "C" fn keychain_manager_add_network(
   network: Network, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .add_network(data_slice, password.rust_ref(), network.into())
@@ -151,7 +151,7 @@ pub unsafe extern "C" fn keychain_manager_change_password(
   new_password: CharPtr, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .change_password(data_slice, old_password.rust_ref(), new_password.rust_ref())
diff --git a/keychain-c/src/utils/data.rs b/keychain-c/src/utils/data.rs
index 506f857..9d804e9 100644
--- a/keychain-c/src/utils/data.rs
+++ b/keychain-c/src/utils/data.rs
@@ -37,6 +37,15 @@ impl From<Vec<u8>> for DataPtr {
   }
 }
 
+/// Slice of the bytes given from C. Null is accepted for an empty slice.
+pub unsafe fn slice_from_c<'a>(ptr: *const u8, len: usize) -> &'a [u8] {
+  if ptr.is_null() {
+    assert!(len == 0, "null data pointer with non-zero length");
+    return &[];
+  }
+  std::slice::from_raw_parts(ptr, len)
+}
+
 #[no_mangle]
 pub unsafe extern "C" fn delete_data(data: &mut DataPtr) {
   data.free();
-- 
2.43.0

