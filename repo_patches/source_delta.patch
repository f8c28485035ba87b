From 2f907abb527637d0ba549ae476bf629849d0f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 01/22] fix: sign and verify messages of any size without
 overflowing the stack

---
 src/xmss-alt/algsxmss.c      |  7 +++++--
 src/xmss-alt/algsxmss_fast.c | 16 +++++++++-------
 src/xmss-alt/hash.c          | 12 +++++++++++-
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/xmss-alt/algsxmss.c b/src/xmss-alt/algsxmss.c
index 65e6fad..dd6bc20 100644
--- a/src/xmss-alt/algsxmss.c
+++ b/src/xmss-alt/algsxmss.c
@@ -5,6 +5,7 @@
 
 #include "algsxmss.h"
 #include <cstring>
+#include <vector>
 
 #include "hash.h"
 #include "hash_address.h"
@@ -121,10 +122,12 @@ static void compute_authpath_wots(eHashFunction hash_func,
                                   unsigned char *pub_seed,
                                   uint32_t addr[8]) {
     uint32_t i, j, level;
-    uint32_t n = params->n;
+    size_t n = params->n;
     uint32_t h = params->h;
 
-    unsigned char tree[2 * (1 << h) * n];
+    // The whole tree does not fit on the stack for larger heights
+    std::vector<unsigned char> tree_buf((static_cast<size_t>(2) << h) * n);
+    unsigned char *tree = tree_buf.data();
 
     uint32_t ots_addr[8];
     uint32_t ltree_addr[8];
diff --git a/src/xmss-alt/algsxmss_fast.c b/src/xmss-alt/algsxmss_fast.c
index 6e255fb..c145c50 100644
--- a/src/xmss-alt/algsxmss_fast.c
+++ b/src/xmss-alt/algsxmss_fast.c
@@ -616,13 +616,6 @@ int xmssfast_Signmsg(eHashFunction hash_func,
 
     unsigned char hash_key[3 * n];
 
-    // Update SK
-    sk[0] = ((idx + 1) >> 24) & 255;
-    sk[1] = ((idx + 1) >> 16) & 255;
-    sk[2] = ((idx + 1) >> 8) & 255;
-    sk[3] = (idx + 1) & 255;
-    // -- Secret key for this non-forward-secure version is now updated.
-    // -- A productive implementation should use a file handle instead and write the updated secret key at this point!
     unsigned long long sig_msg_len;
     // Init working params
     unsigned char R[n];
@@ -642,8 +635,17 @@ int xmssfast_Signmsg(eHashFunction hash_func,
     memcpy(hash_key + n, sk + 4 + 3 * n, n);
     to_byte(hash_key + 2 * n, idx, n);
     // Then use it for message digest
+    // (hashing a large message can run out of memory, so this comes before any state is changed)
     h_msg(hash_func, msg_h, msg, msglen, hash_key, 3 * n, n);
 
+    // Update SK
+    sk[0] = ((idx + 1) >> 24) & 255;
+    sk[1] = ((idx + 1) >> 16) & 255;
+    sk[2] = ((idx + 1) >> 8) & 255;
+    sk[3] = (idx + 1) & 255;
+    // -- Secret key for this non-forward-secure version is now updated.
+    // -- A productive implementation should use a file handle instead and write the updated secret key at this point!
+
     // Start collecting signature
     sig_msg_len = 0;
 
diff --git a/src/xmss-alt/hash.c b/src/xmss-alt/hash.c
index ca85d75..f6ef131 100644
--- a/src/xmss-alt/hash.c
+++ b/src/xmss-alt/hash.c
@@ -10,6 +10,7 @@ This code was taken from the XMSS reference implementation by Andreas Hülsing a
 #include "fips202.h"
 #include "shasha.h"
 #include <cstdio>
+#include <vector>
 
 unsigned char *addr_to_byte(unsigned char *bytes, const uint32_t addr[8]) {
 #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
@@ -32,7 +33,16 @@ int core_hash(eHashFunction hash_func,
               unsigned long long inlen,
               unsigned int n) {
     unsigned long long i = 0;
-    unsigned char buf[inlen + n + keylen];
+    const size_t buf_len = inlen + n + keylen;
+
+    // Messages can be of any size: only the fixed-size inputs fit on the stack
+    unsigned char small_buf[256];
+    std::vector<unsigned char> large_buf;
+    unsigned char *buf = small_buf;
+    if (buf_len > sizeof(small_buf)) {
+        large_buf.resize(buf_len);
+        buf = large_buf.data();
+    }
 
     // Input is (toByte(X, 32) || KEY || M)
 
-- 
2.43.0


From ddfa2093a49acd419ff3285508cb571ca9742999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 02/22] fix: refuse Winternitz parameters whose digits do not
 divide a byte evenly

---
 src/qrl/xmssFast.cpp | 2 +-
 src/xmss-alt/wots.c  | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qrl/xmssFast.cpp b/src/qrl/xmssFast.cpp
index ca25154..0654cf8 100644
--- a/src/qrl/xmssFast.cpp
+++ b/src/qrl/xmssFast.cpp
@@ -21,7 +21,6 @@ XmssFast::XmssFast(const TSEED& extended_seed)
 
 void XmssFast::initialize_tree(uint32_t wotsParamW)
 {
-    _sk = TKEY(132, 0);
     auto tmp = TKEY(64, 0);
 
     const uint32_t k = 2;
@@ -34,6 +33,7 @@ void XmssFast::initialize_tree(uint32_t wotsParamW)
 
     xmss_set_params(&params, n, _height, w, k);
 
+    _sk = TKEY(132, 0);
     _stackoffset = 0;
     _stack = std::vector<unsigned char>((_height + 1) * n);
     _stacklevels = std::vector<unsigned char>(_height + 1);
diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index bb02e9d..325437e 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -11,12 +11,18 @@ Public domain.
 
 #include <cmath>
 #include <cstdint>
+#include <stdexcept>
 #include "xmss_common.h"
 #include "hash.h"
 #include "hash_address.h"
 
 
 void wots_set_params(wots_params *params, int n, int w) {
+    // base_w needs digits that divide a byte evenly
+    if (w != 2 && w != 4 && w != 16 && w != 256) {
+        throw std::invalid_argument("Winternitz parameter should be 2, 4, 16 or 256");
+    }
+
     params->n = n;
     params->w = w;
     params->log_w = (int) log2(w);
-- 
2.43.0


From e7ae12b0622799ffb21ca10be5447bd29445b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 03/22] fix: do not drop the top bits of the Winternitz
 checksum when it fills whole bytes

---
 src/rust_wrapper/xmss_alt/wots.rs | 4 ++--
 src/xmss-alt/wots.c               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/wots.rs b/src/rust_wrapper/xmss_alt/wots.rs
index b1f5a33..16ea6ed 100644
--- a/src/rust_wrapper/xmss_alt/wots.rs
+++ b/src/rust_wrapper/xmss_alt/wots.rs
@@ -179,7 +179,7 @@ pub fn wots_sign(
         csum += params.w as i32 - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params.len_2 * params.log_w) % 8));
+    csum = csum << ((8 - ((params.len_2 * params.log_w) % 8)) % 8);
 
     let len_2_bytes = ((params.len_2 * params.log_w) + 7) / 8;
 
@@ -242,7 +242,7 @@ pub fn wots_pk_from_sig(
         csum += XMSS_WOTS_W - 1 - basew[i] as u32;
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(
         &mut csum_bytes,
diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index 325437e..72dd3fd 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -140,7 +140,7 @@ void wots_sign(eHashFunction hash_func,
         csum += params->w - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params->len_2 * params->log_w) % 8));
+    csum = csum << ((8 - ((params->len_2 * params->log_w) % 8)) % 8);
 
     uint32_t len_2_bytes = ((params->len_2 * params->log_w) + 7) / 8;
 
@@ -189,7 +189,7 @@ void wots_pkFromSig(eHashFunction hash_func,
         csum += XMSS_WOTS_W - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(csum_bytes, csum, ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) + 7) / 8);
     base_w(csum_basew, XMSS_WOTS_LEN2, csum_bytes, wotsParams);
-- 
2.43.0


From eaeb81040763a5edb3e64271e35ea5e73014904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 04/22] fix: decode the signature scheme of a descriptor from
 its four bits

---
 src/qrl/qrlDescriptor.h                | 2 +-
 src/rust_wrapper/qrl/qrl_descriptor.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index 626a8e5..d9d43d6 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -65,7 +65,7 @@ public:
         }
 
         auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
-        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0xF0);
+        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
         auto height = static_cast<uint8_t>((bytes[1] & 0x0F) << 1 );
         auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 );
 
diff --git a/src/rust_wrapper/qrl/qrl_descriptor.rs b/src/rust_wrapper/qrl/qrl_descriptor.rs
index f50c5a2..465b691 100644
--- a/src/rust_wrapper/qrl/qrl_descriptor.rs
+++ b/src/rust_wrapper/qrl/qrl_descriptor.rs
@@ -64,7 +64,7 @@ impl QRLDescriptor {
                 ))
             }
         };
-        let signature_type: SignatureType = match (bytes[0] >> 4) & 0xF0 {
+        let signature_type: SignatureType = match (bytes[0] >> 4) & 0x0F {
             0 => SignatureType::XMSS,
             _ => {
                 return Err(QRLError::FailedConversion(
-- 
2.43.0


From fd2f5e33dab0afa553a6af5e01289b400de82b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 05/22] fix: refuse hash functions and signature schemes the
 library does not implement

---
 src/qrl/xmssBase.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index a5b8c32..819b4ed 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -20,6 +20,13 @@
 
 constexpr size_t XMSS_MAX_HEIGHT=254;
 
+static bool isSupportedHash(eHashFunction hashFunction)
+{
+    return hashFunction==eHashFunction::SHA2_256 ||
+            hashFunction==eHashFunction::SHAKE_128 ||
+            hashFunction==eHashFunction::SHAKE_256;
+}
+
 // FIXME: Use a union for this
 constexpr size_t OFFSET_IDX = 0;
 
@@ -47,6 +54,10 @@ XmssBase::XmssBase(const TSEED& seed,
     if (height>XMSS_MAX_HEIGHT) {
         throw std::invalid_argument("Height should be <= 254");
     }
+
+    if (!isSupportedHash(hashFunction)) {
+        throw std::invalid_argument("Hash function not supported");
+    }
 }
 
 XmssBase::XmssBase(const TSEED& extended_seed)
@@ -64,6 +75,10 @@ XmssBase::XmssBase(const TSEED& extended_seed)
     _height = desc.getHeight();
     _hashFunction = desc.getHashFunction();
     _addrFormatType = desc.getAddrFormatType();
+
+    if (!isSupportedHash(_hashFunction) || desc.getSignatureType()!=eSignatureType::XMSS) {
+        throw std::invalid_argument("Hash function or signature type not supported");
+    }
 }
 
 uint32_t XmssBase::calculateSignatureBaseSize(uint32_t wotsParamW) {
@@ -231,6 +246,10 @@ bool XmssBase::verify(const TMESSAGE& message,
 
         auto hashFunction = desc.getHashFunction();
 
+        if (!isSupportedHash(hashFunction)) {
+            return false;
+        }
+
         xmss_params params{};
         const uint32_t k = 2;
         const uint32_t w = wotsParamW;
-- 
2.43.0


From 29863ed99fbb1a4ff4c71241b93677650c550f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 06/22] fix: refuse tree heights the key format and 32-bit
 indices cannot represent

---
 src/qrl/xmssBase.cpp               | 7 +++++--
 src/rust_wrapper/qrl/xmss_base.rs  | 7 +++++--
 src/rust_wrapper/qrl/xmss_basic.rs | 8 +++++++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index 819b4ed..63c4607 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -20,6 +20,9 @@
 
 constexpr size_t XMSS_MAX_HEIGHT=254;
 
+// The key descriptor holds height/2 in four bits and indices are 32-bit numbers
+constexpr size_t XMSS_MAX_TREE_HEIGHT=30;
+
 static bool isSupportedHash(eHashFunction hashFunction)
 {
     return hashFunction==eHashFunction::SHA2_256 ||
@@ -51,8 +54,8 @@ XmssBase::XmssBase(const TSEED& seed,
         throw std::invalid_argument("Seed should be 48 bytes. Other values are not currently supported");
     }
 
-    if (height>XMSS_MAX_HEIGHT) {
-        throw std::invalid_argument("Height should be <= 254");
+    if (height>XMSS_MAX_TREE_HEIGHT) {
+        throw std::invalid_argument("Height should be <= 30");
     }
 
     if (!isSupportedHash(hashFunction)) {
diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index acacf2c..fa5e892 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -33,6 +33,9 @@ pub type TKEY = Vec<u8>;
 
 const XMSS_MAX_HEIGHT: usize = 254;
 
+// The key descriptor holds height/2 in four bits and indices are 32-bit numbers
+pub const XMSS_MAX_TREE_HEIGHT: u8 = 30;
+
 // FIXME: Use a union for this
 const OFFSET_IDX: usize = 0;
 
@@ -64,9 +67,9 @@ impl XMSSBase {
             Err(QRLError::InvalidArgument(
                 "Seed should be 48 bytes. Other values are not currently supported".to_owned(),
             ))
-        } else if height as usize > XMSS_MAX_HEIGHT {
+        } else if height > XMSS_MAX_TREE_HEIGHT {
             Err(QRLError::InvalidArgument(
-                "Height should be <= 254".to_owned(),
+                "Height should be <= 30".to_owned(),
             ))
         } else {
             Ok(Self {
diff --git a/src/rust_wrapper/qrl/xmss_basic.rs b/src/rust_wrapper/qrl/xmss_basic.rs
index a17c086..c7a6779 100644
--- a/src/rust_wrapper/qrl/xmss_basic.rs
+++ b/src/rust_wrapper/qrl/xmss_basic.rs
@@ -1,6 +1,6 @@
 use super::{
     qrl_address_format::AddrFormatType,
-    xmss_base::{Sign, XMSSBase, XMSSBaseTrait, TKEY, TMESSAGE, TSEED, TSIGNATURE},
+    xmss_base::{Sign, XMSSBase, XMSSBaseTrait, TKEY, TMESSAGE, TSEED, TSIGNATURE, XMSS_MAX_TREE_HEIGHT},
 };
 use crate::rust_wrapper::xmss_alt::algsxmss::xmss_gen_keypair;
 use crate::rust_wrapper::xmss_alt::algsxmss::xmss_sign_msg;
@@ -53,6 +53,12 @@ impl XMSSBasic {
             ));
         }
 
+        if height > XMSS_MAX_TREE_HEIGHT {
+            return Err(QRLError::InvalidArgument(
+                "Height should be <= 30".to_owned(),
+            ));
+        }
+
         let params = XMSSParams::new(n, height as u32, w, k)?;
 
         xmss_gen_keypair(&hash_function, &params, &mut tmp, &mut sk, &mut seed);
-- 
2.43.0


From 2964f985e46adf6edb48455e84e97856b99b8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 07/22] fix: refuse signature sizes whose tree height does not
 fit

---
 src/qrl/xmssBase.cpp              | 4 ++++
 src/rust_wrapper/qrl/xmss_base.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index 63c4607..c69b5f9 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -111,6 +111,10 @@ uint8_t XmssBase::getHeightFromSigSize(size_t sigSize, uint32_t wotsParamW)
 
     auto height = (sigSize - SIGNATURE_BASE_SIZE)/32;
 
+    if (height>XMSS_MAX_HEIGHT) {
+        throw std::invalid_argument("Invalid signature size");
+    }
+
     return static_cast<uint8_t>(height);
 }
 
diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index fa5e892..4bd106a 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -176,6 +176,12 @@ pub trait XMSSBaseTrait {
 
         let height = (sig_size - signature_base_size) / 32;
 
+        if height > XMSS_MAX_HEIGHT {
+            return Err(QRLError::InvalidArgument(
+                "Invalid signature size".to_owned(),
+            ));
+        }
+
         Ok(height as u8)
     }
 
-- 
2.43.0


From 5d9025b59f0fe0a0f820f3a669467bded59ab201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 08/22] fix: never sign with, or move to, an index outside the
 tree

---
 src/qrl/xmssBase.cpp               | 5 +++++
 src/qrl/xmssBasic.cpp              | 4 ++++
 src/rust_wrapper/qrl/xmss_base.rs  | 4 ++++
 src/rust_wrapper/qrl/xmss_basic.rs | 4 ++++
 4 files changed, 17 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index c69b5f9..42028ca 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -162,6 +162,11 @@ uint32_t XmssBase::getIndex()
 
 uint32_t XmssBase::setIndex(uint32_t new_index)
 {
+    if (new_index>=getNumberSignatures())
+    {
+        throw std::invalid_argument("index too high");
+    }
+
     _sk[3] = static_cast<uint8_t>(new_index & 0xFF);
     new_index >>= 8;
     _sk[2] = static_cast<uint8_t>(new_index & 0xFF);
diff --git a/src/qrl/xmssBasic.cpp b/src/qrl/xmssBasic.cpp
index 895a7be..8b9bde1 100644
--- a/src/qrl/xmssBasic.cpp
+++ b/src/qrl/xmssBasic.cpp
@@ -50,6 +50,10 @@ XmssBasic::XmssBasic(const TSEED &seed,
 
 
 TSIGNATURE XmssBasic::sign(const TMESSAGE &message) {
+    if (getIndex() >= getNumberSignatures()) {
+        throw std::invalid_argument("index too high");
+    }
+
     auto signature = TSIGNATURE(getSignatureSize(params.wots_par.w), 0);
 
     xmss_Signmsg(_hashFunction,
diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index 4bd106a..f5d4b8e 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -129,6 +129,10 @@ impl XMSSBaseTrait for XMSSBase {
     }
 
     fn set_index(&mut self, mut new_index: u32) -> Result<u32, QRLError> {
+        if new_index >= self.get_number_signatures() {
+            return Err(QRLError::InvalidArgument("index too high".to_owned()));
+        }
+
         self.sk[3] = (new_index & 0xFF) as u8;
         new_index >>= 8;
         self.sk[2] = (new_index & 0xFF) as u8;
diff --git a/src/rust_wrapper/qrl/xmss_basic.rs b/src/rust_wrapper/qrl/xmss_basic.rs
index c7a6779..53efc9b 100644
--- a/src/rust_wrapper/qrl/xmss_basic.rs
+++ b/src/rust_wrapper/qrl/xmss_basic.rs
@@ -96,6 +96,10 @@ impl XMSSBaseTrait for XMSSBasic {
 
 impl Sign for XMSSBasic {
     fn sign(&mut self, message: &TMESSAGE) -> Result<TSIGNATURE, QRLError> {
+        if self.get_index() >= self.get_number_signatures() {
+            return Err(QRLError::InvalidArgument("index too high".to_owned()));
+        }
+
         let mut signature: TSIGNATURE =
             vec![0; self.get_signature_size(Some(self.params.wots_par.w)) as usize];
         let message_len = message.len();
-- 
2.43.0


From e82c16b0be00b040f1e66dffca44c98611cac113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 09/22] fix: count the words of a mnemonic, not its spaces

---
 src/qrl/misc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 0c71133..d1188de 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -86,7 +86,13 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
 
 std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
 {
-    auto word_count = std::count(mnemonic.cbegin(), mnemonic.cend(), ' ') + 1;
+    // Count the words themselves, not their separators
+    size_t word_count = 0;
+    std::string word;
+    for (std::stringstream words(mnemonic); words >> word;) {
+        word_count++;
+    }
+
     if (word_count%2!=0)
     {
         throw std::invalid_argument("word count = " + std::to_string(word_count) + " must be even ");
@@ -101,7 +107,6 @@ std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
     }
 
     std::stringstream ss(mnemonic);
-    std::string word;
 
     std::vector<unsigned char> result;
 
-- 
2.43.0


From 2e25f4997deffc05748d572cd232dad6fcadc5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 10/22] fix: refuse secret key updates to an index that does
 not fit

---
 src/rust_wrapper/xmss_alt/algsxmss.rs | 2 +-
 src/xmss-alt/algsxmss.c               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/algsxmss.rs b/src/rust_wrapper/xmss_alt/algsxmss.rs
index 8b77ee4..f16b28e 100644
--- a/src/rust_wrapper/xmss_alt/algsxmss.rs
+++ b/src/rust_wrapper/xmss_alt/algsxmss.rs
@@ -286,7 +286,7 @@ pub fn xmss_update_sk(sk: &mut [u8], k: u64) -> i32 {
     //idxkey = ((unsigned long)sig_msg[0] << 24) | ((unsigned long)sig_msg[1] << 16) | ((unsigned long)sig_msg[2] << 8) | sig_msg[3];
     let idxkey: u32 =
         ((sk[0] as u32) << 24) | ((sk[1] as u32) << 16) | ((sk[2] as u32) << 8) | sk[3] as u32;
-    if idxkey as u64 >= k {
+    if idxkey as u64 >= k || k > u32::MAX as u64 {
         return -1;
         //the secret key is updated more than the blockchain, so all fine
     } else {
diff --git a/src/xmss-alt/algsxmss.c b/src/xmss-alt/algsxmss.c
index dd6bc20..13f7b2c 100644
--- a/src/xmss-alt/algsxmss.c
+++ b/src/xmss-alt/algsxmss.c
@@ -204,7 +204,7 @@ int xmss_updateSK(unsigned char *sk, unsigned long k) {
     //idxkey = ((unsigned long)sig_msg[0] << 24) | ((unsigned long)sig_msg[1] << 16) | ((unsigned long)sig_msg[2] << 8) | sig_msg[3];
     uint32_t idxkey =
             ((unsigned long) sk[0] << 24) | ((unsigned long) sk[1] << 16) | ((unsigned long) sk[2] << 8) | sk[3];
-    if (idxkey >= k) {
+    if (idxkey >= k || k > UINT32_MAX) {
         return -1;
         //the secret key is updated more than the blockchain, so all fine
     } else {
-- 
2.43.0


From 7d987dcf43f9d845149cd51dbbd0067ebf318456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 11/22] fix: give a copied fast signer its own traversal state

---
 src/qrl/xmssFast.cpp | 48 ++++++++++++++++++++++++++++++++++++++++++++
 src/qrl/xmssFast.h   |  6 ++++++
 2 files changed, 54 insertions(+)

diff --git a/src/qrl/xmssFast.cpp b/src/qrl/xmssFast.cpp
index 0654cf8..394ac86 100644
--- a/src/qrl/xmssFast.cpp
+++ b/src/qrl/xmssFast.cpp
@@ -19,6 +19,54 @@ XmssFast::XmssFast(const TSEED& extended_seed)
     initialize_tree();
 }
 
+XmssFast::XmssFast(const XmssFast& other)
+    : XmssBase(other),
+      _state(other._state),
+      _stackoffset(other._stackoffset),
+      _stack(other._stack),
+      _stacklevels(other._stacklevels),
+      _auth(other._auth),
+      _keep(other._keep),
+      _treehash(other._treehash),
+      _th_nodes(other._th_nodes),
+      _retain(other._retain)
+{
+    bindState();
+}
+
+XmssFast& XmssFast::operator=(const XmssFast& other)
+{
+    XmssFast copy(other);
+
+    XmssBase::operator=(copy);
+    _state = copy._state;
+    _stackoffset = copy._stackoffset;
+    _stack.swap(copy._stack);
+    _stacklevels.swap(copy._stacklevels);
+    _auth.swap(copy._auth);
+    _keep.swap(copy._keep);
+    _treehash.swap(copy._treehash);
+    _th_nodes.swap(copy._th_nodes);
+    _retain.swap(copy._retain);
+    bindState();
+
+    return *this;
+}
+
+void XmssFast::bindState()
+{
+    _state.stack = _stack.data();
+    _state.stacklevels = _stacklevels.data();
+    _state.auth = _auth.data();
+    _state.keep = _keep.data();
+    _state.treehash = _treehash.data();
+    _state.retain = _retain.data();
+
+    for (size_t i = 0; i < _treehash.size(); i++) {
+        _treehash[i].node = &_th_nodes[params.n * i];
+    }
+}
+
 void XmssFast::initialize_tree(uint32_t wotsParamW)
 {
     auto tmp = TKEY(64, 0);
diff --git a/src/qrl/xmssFast.h b/src/qrl/xmssFast.h
index 97d6b40..d202820 100644
--- a/src/qrl/xmssFast.h
+++ b/src/qrl/xmssFast.h
@@ -19,11 +19,17 @@ public:
 
     XmssFast(const TSEED& extended_seed);
 
+    // The traversal state points into the buffers below, so a copy needs pointers of its own
+    XmssFast(const XmssFast& other);
+    XmssFast& operator=(const XmssFast& other);
+
     TSIGNATURE sign(const TMESSAGE& message) override;
 
     unsigned int setIndex(unsigned int new_index) override;
 
 protected:
+    void bindState();
+
     bds_state _state;
     unsigned int _stackoffset = 0;
     std::vector<unsigned char> _stack;
-- 
2.43.0


From 228ba4a4b1d0456bf1ad252e80c7916c7b9bc655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 12/22] fix: verify the sizes of Dilithium keys and signed
 messages

---
 src/dilithium/dilithium.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/dilithium/dilithium.cpp b/src/dilithium/dilithium.cpp
index ade7d34..6fb25e3 100644
--- a/src/dilithium/dilithium.cpp
+++ b/src/dilithium/dilithium.cpp
@@ -1,6 +1,7 @@
 // Distributed under the MIT software license, see the accompanying
 // file LICENSE or http://www.opensource.org/licenses/mit-license.php.
 
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include <cstdint>
@@ -18,7 +19,15 @@ Dilithium::Dilithium(const std::vector<uint8_t> &pk, const std::vector<uint8_t>
     _pk(pk),
     _sk(sk)
 {
-    // TODO: Verify sizes - CRYPTO_SECRETKEYBYTES / CRYPTO_PUBLICKEYBYTES
+    if (_pk.size()!=CRYPTO_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("pk. Invalid size");
+    }
+
+    if (_sk.size()!=CRYPTO_SECRETKEYBYTES)
+    {
+        throw std::invalid_argument("sk. Invalid size");
+    }
 }
 
 std::vector<uint8_t> Dilithium::sign(const std::vector<uint8_t> &message)
@@ -45,6 +54,14 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
                           const std::vector<uint8_t> &pk)
 {
     auto message_size = message_signed.size();
+
+    if (pk.size()!=CRYPTO_PUBLICKEYBYTES || message_size<CRYPTO_BYTES)
+    {
+        // As for any other rejected message, nothing but zeros comes out
+        message_output.assign(message_size, 0);
+        return false;
+    }
+
     message_output.resize(message_size);
 
     unsigned long long message_output_dummy;
@@ -60,10 +77,20 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
 
 std::vector<uint8_t> Dilithium::extract_message(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size()<CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("message_output. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin() + CRYPTO_BYTES, message_output.end());
 }
 
 std::vector<uint8_t> Dilithium::extract_signature(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size()<CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("message_output. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin(), message_output.begin() + CRYPTO_BYTES);
 }
-- 
2.43.0


From 9b71dd2412295dbc309a446d44ec2d91d057d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 13/22] fix: verify the sizes of Kyber public keys and
 ciphertexts

---
 src/kyber/kyber.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kyber/kyber.cpp b/src/kyber/kyber.cpp
index 5478ea2..6292dc0 100644
--- a/src/kyber/kyber.cpp
+++ b/src/kyber/kyber.cpp
@@ -34,7 +34,10 @@ Kyber::Kyber()
 
 bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 {
-    // TODO: Verify sizes (other_pk)
+    if (other_pk.size()!=KYBER_PUBLICKEYBYTES)
+    {
+        return false;
+    }
 
     _key.resize(KYBER_SYMBYTES);
     _ct.resize(KYBER_CIPHERTEXTBYTES);
@@ -48,7 +51,11 @@ bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 
 bool Kyber::kem_decode(const std::vector<uint8_t> &cyphertext)
 {
-    // TODO: Verify sizes (other_pk)
+    if (cyphertext.size()!=KYBER_CIPHERTEXTBYTES)
+    {
+        return false;
+    }
+
     _key.resize(KYBER_SYMBYTES);
 
     auto validation_error = crypto_kem_dec(_key.data(),
-- 
2.43.0


From 52df7b58ebb4b3e19ef5e4b16aa650ebd2f771af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 14/22] fix: extract Dilithium messages from one buffer in the
 JS bindings

---
 src/jswrapper/jsdilwrapper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index 079d2a9..f2ac5e1 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -65,8 +65,7 @@ namespace {
 
         static std::string extract_message(const std::string& message_output)
         {
-            std::vector<uint8_t> vec;
-            vec.assign( hstr2bin(message_output).begin(), hstr2bin(message_output).end());
+            std::vector<uint8_t> vec = hstr2bin(message_output);
             return bin2hstr( Dilithium::extract_message( vec ) );
         }
 
-- 
2.43.0


From 5d910c516b73c938387740deb6c185f61b7deec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 15/22] fix: refuse fractional sizes in the JS seed generator

---
 src/jswrapper/getRandomSeed.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jswrapper/getRandomSeed.js b/src/jswrapper/getRandomSeed.js
index 7ba5c5a..d640dac 100644
--- a/src/jswrapper/getRandomSeed.js
+++ b/src/jswrapper/getRandomSeed.js
@@ -11,7 +11,7 @@ Module['getRandomSeed'] = function (size) {
     if (size === undefined) {
         size = 48;
     }
-    if (!(size > 0)) {
+    if (!(size > 0) || Math.floor(size) !== size) {
         throw new Error('getRandomSeed: size must be a positive integer');
     }
 
-- 
2.43.0


From 788e20350cb9ad10ad84b35bd0d220badd708b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 16/22] fix: absorb Rust SHAKE inputs longer than one block
 block by block

---
 src/rust_wrapper/xmss_alt/fips202.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/fips202.rs b/src/rust_wrapper/xmss_alt/fips202.rs
index a81ba05..4575df4 100644
--- a/src/rust_wrapper/xmss_alt/fips202.rs
+++ b/src/rust_wrapper/xmss_alt/fips202.rs
@@ -334,7 +334,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
         }
         keccak_f1600_state_permute(s);
         mlen -= r as u64;
-        m_clone = &m_clone[r as usize..m.len()];
+        m_clone = &m_clone[r as usize..];
     }
 
     for i in 0..r {
@@ -342,7 +342,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
     }
 
     for i in 0..mlen {
-        t[i as usize] = m[i as usize];
+        t[i as usize] = m_clone[i as usize];
     }
 
     t[mlen as usize] = p;
-- 
2.43.0


From 1944606b2ceed6e7bebc7e284545bd833dc38300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 17/22] fix: refuse unsupported Winternitz parameters in the
 Rust library

---
 src/rust_wrapper/qrl/xmss_base.rs        |  2 ++
 src/rust_wrapper/xmss_alt/wots.rs        | 13 +++++++++++++
 src/rust_wrapper/xmss_alt/xmss_common.rs |  1 +
 3 files changed, 16 insertions(+)

diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index f5d4b8e..19a4bc6 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -165,6 +165,7 @@ pub trait XMSSBaseTrait {
         sig_size: usize,
         wots_param_w: Option<u32>,
     ) -> Result<u8, QRLError> {
+        WOTSParams::check_w(wots_param_w.unwrap_or(16))?;
         let signature_base_size = Self::calculate_signature_base_size(wots_param_w) as usize;
         if sig_size < signature_base_size {
             return Err(QRLError::InvalidArgument(
@@ -276,6 +277,7 @@ pub trait XMSSBaseTrait {
                 "Invalid extended_pk size. It should be 67 bytes".to_owned(),
             ));
         }
+        WOTSParams::check_w(wots_param_w.unwrap_or(16))?;
         let signature_base_size: usize = Self::calculate_signature_base_size(wots_param_w) as usize;
         if signature.len() > signature_base_size + XMSS_MAX_HEIGHT * 32 {
             return Err(QRLError::InvalidArgument(
diff --git a/src/rust_wrapper/xmss_alt/wots.rs b/src/rust_wrapper/xmss_alt/wots.rs
index 16ea6ed..4cec88e 100644
--- a/src/rust_wrapper/xmss_alt/wots.rs
+++ b/src/rust_wrapper/xmss_alt/wots.rs
@@ -2,6 +2,7 @@ use super::hash::{hash_f, prf};
 use super::hash_address::{set_chain_adrs, set_hash_adrs};
 use super::hash_functions::HashFunction;
 use super::xmss_common::to_byte;
+use crate::rust_wrapper::errors::QRLError;
 use std::cmp::min;
 
 macro_rules! log2 {
@@ -28,6 +29,18 @@ pub struct WOTSParams {
 }
 
 impl WOTSParams {
+    /**
+     * Every digit needs a whole number of bits that divides a byte evenly
+     */
+    pub fn check_w(w: u32) -> Result<(), QRLError> {
+        match w {
+            2 | 4 | 16 | 256 => Ok(()),
+            _ => Err(QRLError::InvalidArgument(
+                "Winternitz parameter should be 2, 4, 16 or 256".to_owned(),
+            )),
+        }
+    }
+
     /**
      * Set the WOTS parameters,
      * only n and w are required as inputs,
diff --git a/src/rust_wrapper/xmss_alt/xmss_common.rs b/src/rust_wrapper/xmss_alt/xmss_common.rs
index 73b8254..6c44273 100644
--- a/src/rust_wrapper/xmss_alt/xmss_common.rs
+++ b/src/rust_wrapper/xmss_alt/xmss_common.rs
@@ -26,6 +26,7 @@ impl XMSSParams {
                 "For BDS traversal, H - K must be even, with H > K >= 2!".to_owned(),
             ))
         } else {
+            WOTSParams::check_w(w)?;
             let wots_par = WOTSParams::new(n, w);
             Ok(XMSSParams { wots_par, n, h, k })
         }
-- 
2.43.0


From 624cfdcb6bfbac740f127e917a87d04ff2b6a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 18/22] fix: report Dilithium and Kyber keys of a wrong size
 instead of panicking in Rust

---
 src/rust_wrapper/dilithium/dilithium.rs | 4 ++--
 src/rust_wrapper/kyber/kyber.rs         | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rust_wrapper/dilithium/dilithium.rs b/src/rust_wrapper/dilithium/dilithium.rs
index f9706c7..5a9fe01 100644
--- a/src/rust_wrapper/dilithium/dilithium.rs
+++ b/src/rust_wrapper/dilithium/dilithium.rs
@@ -18,8 +18,8 @@ pub struct Dilithium {
 
 impl Dilithium {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes)?;
+        let sk = SecretKey::from_bytes(sk_bytes)?;
         Ok(Self { pk, sk })
     }
 
diff --git a/src/rust_wrapper/kyber/kyber.rs b/src/rust_wrapper/kyber/kyber.rs
index fc6e0eb..20ad978 100644
--- a/src/rust_wrapper/kyber/kyber.rs
+++ b/src/rust_wrapper/kyber/kyber.rs
@@ -5,7 +5,7 @@ pub use pqcrypto_traits::kem::{
     Ciphertext as CiphertextTrait, PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait,
     SharedSecret as SharedSecretTrait,
 };
-use std::io::Error;
+use std::io::{Error, ErrorKind};
 
 pub const KYBER_PUBLICKEYBYTES: usize = public_key_bytes();
 pub const KYBER_SECRETKEYBYTES: usize = secret_key_bytes();
@@ -22,8 +22,8 @@ pub struct Kyber {
 
 impl Kyber {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes).map_err(|_| Error::from(ErrorKind::InvalidInput))?;
+        let sk = SecretKey::from_bytes(sk_bytes).map_err(|_| Error::from(ErrorKind::InvalidInput))?;
         let (ss, ct) = encapsulate(&pk);
         Ok(Self { pk, sk, ss, ct })
     }
-- 
2.43.0


From 0f241c8a2202adc502294c3ef464752bd645fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 19/22] fix: split Rust Dilithium signed messages at the end of
 the signature

---
 src/rust_wrapper/dilithium/dilithium.rs | 34 +++++++++++++------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/rust_wrapper/dilithium/dilithium.rs b/src/rust_wrapper/dilithium/dilithium.rs
index 5a9fe01..e77cac6 100644
--- a/src/rust_wrapper/dilithium/dilithium.rs
+++ b/src/rust_wrapper/dilithium/dilithium.rs
@@ -2,8 +2,7 @@
 // file LICENSE or http://www.opensource.org/licenses/mit-license.php.
 use pqcrypto_dilithium::dilithium5::*;
 use pqcrypto_traits::sign::{
-    PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait, SignedMessage as SignedMessageTrait,
-    VerificationError,
+    PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait, VerificationError,
 };
 use pqcrypto_traits::Error;
 
@@ -54,23 +53,26 @@ impl Dilithium {
     }
 
     pub fn extract_message(message_output: &Vec<u8>) -> Result<Vec<u8>, Error> {
-        let valid_message_output = SignedMessage::from_bytes(message_output.as_slice())?;
-        Ok(Vec::from(
-            valid_message_output
-                .as_bytes()
-                .get(0..(valid_message_output.len() - CRYPTO_BYTES as usize))
-                .unwrap(),
-        ))
+        // A signed message is the signature followed by the message
+        match message_output.get(CRYPTO_BYTES..) {
+            Some(message) => Ok(Vec::from(message)),
+            None => Err(Self::too_short(message_output)),
+        }
     }
 
     pub fn extract_signature(message_output: &Vec<u8>) -> Result<Vec<u8>, Error> {
-        let valid_message_output = SignedMessage::from_bytes(message_output.as_slice())?;
-        Ok(Vec::from(
-            valid_message_output
-                .as_bytes()
-                .get((message_output.len() - CRYPTO_BYTES as usize)..(message_output.len()))
-                .unwrap(),
-        ))
+        match message_output.get(..CRYPTO_BYTES) {
+            Some(signature) => Ok(Vec::from(signature)),
+            None => Err(Self::too_short(message_output)),
+        }
+    }
+
+    fn too_short(message_output: &[u8]) -> Error {
+        Error::BadLength {
+            name: "SignedMessage",
+            actual: message_output.len(),
+            expected: CRYPTO_BYTES,
+        }
     }
 }
 
-- 
2.43.0


From 4fe6970f44e4fc2a3ef9037be205b7b4793b6fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 20/22] fix: report running out of memory while encoding
 instead of truncating the text

---
 src/qrl/misc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index d1188de..28d9fe4 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -13,6 +13,7 @@
 
 std::string bin2hstr(const std::vector<unsigned char> &vec, uint32_t wrap) {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);    // running out of memory must not truncate the text
 
     int count = 0;
     for (auto val : vec) {
@@ -71,6 +72,7 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
     }
 
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);    // running out of memory must not truncate the text
     std::string separator;
     for (int nibble = 0; nibble < vec.size() * 2; nibble += 3) {
         int p = nibble >> 1;
@@ -89,7 +91,9 @@ std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
     // Count the words themselves, not their separators
     size_t word_count = 0;
     std::string word;
-    for (std::stringstream words(mnemonic); words >> word;) {
+    std::stringstream words(mnemonic);
+    words.exceptions(std::ios::badbit);    // running out of memory must not end the text
+    while (words >> word) {
         word_count++;
     }
 
@@ -107,6 +111,7 @@ std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
     }
 
     std::stringstream ss(mnemonic);
+    ss.exceptions(std::ios::badbit);
 
     std::vector<unsigned char> result;
 
-- 
2.43.0


From 24d0bfcf0e08e3714bc1e0f0d8c1b9ba4e921a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 21/22] fix: keep a fast signer's state whole when signing or
 moving its index fails

---
 src/qrl/xmssFast.cpp | 45 ++++++++++++++++++++++++++++++--------------
 src/qrl/xmssFast.h   |  1 +
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/qrl/xmssFast.cpp b/src/qrl/xmssFast.cpp
index 394ac86..7fda5e7 100644
--- a/src/qrl/xmssFast.cpp
+++ b/src/qrl/xmssFast.cpp
@@ -1,6 +1,7 @@
 // Distributed under the MIT software license, see the accompanying
 // file LICENSE or http://www.opensource.org/licenses/mit-license.php.
 #include <iostream>
+#include <utility>
 #include <xmss-alt/xmss_params.h>
 #include "xmssFast.h"
 
@@ -39,20 +40,26 @@ XmssFast& XmssFast::operator=(const XmssFast& other)
     XmssFast copy(other);
 
     XmssBase::operator=(copy);
-    _state = copy._state;
-    _stackoffset = copy._stackoffset;
-    _stack.swap(copy._stack);
-    _stacklevels.swap(copy._stacklevels);
-    _auth.swap(copy._auth);
-    _keep.swap(copy._keep);
-    _treehash.swap(copy._treehash);
-    _th_nodes.swap(copy._th_nodes);
-    _retain.swap(copy._retain);
-    bindState();
+    swapState(copy);
 
     return *this;
 }
 
+void XmssFast::swapState(XmssFast& other)
+{
+    // Swapping the buffers does not move them, so the pointers into them stay valid
+    std::swap(_state, other._state);
+    std::swap(_stackoffset, other._stackoffset);
+    _sk.swap(other._sk);
+    _stack.swap(other._stack);
+    _stacklevels.swap(other._stacklevels);
+    _auth.swap(other._auth);
+    _keep.swap(other._keep);
+    _treehash.swap(other._treehash);
+    _th_nodes.swap(other._th_nodes);
+    _retain.swap(other._retain);
+}
+
 void XmssFast::bindState()
 {
     _state.stack = _stack.data();
@@ -115,12 +122,17 @@ void XmssFast::initialize_tree(uint32_t wotsParamW)
 
 unsigned int XmssFast::setIndex(unsigned int new_index)
 {
+    // Work on a copy: a failure half way must not leave a half updated traversal state
+    XmssFast next(*this);
+
     xmssfast_update(_hashFunction,
                     &params,
-                    _sk.data(),
-                    &_state,
+                    next._sk.data(),
+                    &next._state,
                     new_index);
 
+    swapState(next);
+
     return new_index;
 }
 
@@ -131,13 +143,18 @@ TSIGNATURE XmssFast::sign(const TMESSAGE &message)
     auto index = getIndex();
     setIndex(index);
 
+    // Work on a copy: a failure half way must not leave a half updated traversal state
+    XmssFast next(*this);
+
     xmssfast_Signmsg(_hashFunction,
                      &params,
-                     _sk.data(),
-                     &_state,
+                     next._sk.data(),
+                     &next._state,
                      signature.data(),
                      static_cast<TMESSAGE>(message).data(),
                      message.size());
 
+    swapState(next);
+
     return signature;
 }
diff --git a/src/qrl/xmssFast.h b/src/qrl/xmssFast.h
index d202820..b262f67 100644
--- a/src/qrl/xmssFast.h
+++ b/src/qrl/xmssFast.h
@@ -29,6 +29,7 @@ public:
 
 protected:
     void bindState();
+    void swapState(XmssFast& other);
 
     bds_state _state;
     unsigned int _stackoffset = 0;
-- 
2.43.0


From a07f1f76e27e79cb3dced99a21b77892d7e501c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 22/22] fix: restore JS keys through the library, which checks
 the whole descriptor

---
 src/jswrapper/jsqrlwrapper.cpp | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/src/jswrapper/jsqrlwrapper.cpp b/src/jswrapper/jsqrlwrapper.cpp
index 3725b6d..3f55627 100644
--- a/src/jswrapper/jsqrlwrapper.cpp
+++ b/src/jswrapper/jsqrlwrapper.cpp
@@ -17,6 +17,10 @@ class XmssWrapper {
             uint8_t height,
             eHashFunction hashFunction)
             :_xmss(seed, height, hashFunction) { }
+
+    // The library checks the descriptor and keeps all of it
+    explicit XmssWrapper(const std::vector<uint8_t>& extended_seed)
+            :_xmss(extended_seed) { }
 public:
     unsigned int getIndex()
     {
@@ -73,36 +77,12 @@ public:
 
     static XmssWrapper fromHexSeed(const std::string hexseed)
     {
-        auto extended_seed = hstr2bin(hexseed);
-        auto descr = QRLDescriptor::fromExtendedSeed(extended_seed);
-
-        auto raw_seed = std::vector<uint8_t>(
-            extended_seed.cbegin()+QRLDescriptor::getSize(),
-            extended_seed.cend()
-        );
-
-        return XmssWrapper(
-            raw_seed,
-            descr.getHeight(),
-            descr.getHashFunction()
-        );
+        return XmssWrapper(hstr2bin(hexseed));
     }
 
     static XmssWrapper fromMnemonic(const std::string mnemonic)
     {
-        auto extended_seed = mnemonic2bin(mnemonic);
-        auto descr = QRLDescriptor::fromExtendedSeed(extended_seed);
-
-        auto raw_seed = std::vector<uint8_t>(
-            extended_seed.cbegin()+QRLDescriptor::getSize(),
-            extended_seed.cend()
-        );
-
-        return XmssWrapper(
-            raw_seed,
-            descr.getHeight(),
-            descr.getHashFunction()
-        );
+        return XmssWrapper(mnemonic2bin(mnemonic));
     }
 
     /////////////////////////////////////
-- 
2.43.0

