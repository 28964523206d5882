From a66cdae9fd4a203571bcbdb88a17f018d5bf191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 01/16] fix: point subtraction with the point at infinity on
 either side

---
 includes/ecc_template.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 4eb6e95..739ea36 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -353,9 +353,12 @@ Field_XXX_p,
 Field_XXX_n
 >::operator- (const Point_XXX& P) const
 {
-    assert(*this->curve == *P.curve);
+    if(P.is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
+    assert(is_inf || *this->curve == *P.curve);
 
-    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, curve);
+    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, P.curve);
 
     
     return *this + Q;
-- 
2.43.0


From 7fd12a7ab1d202319d6e3763789690ad55742d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 02/16] fix: doubling the point at infinity dereferenced a null
 curve

---
 includes/ecc_template.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 739ea36..0889ed8 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -556,6 +556,9 @@ Field_XXX_p,
 Field_XXX_n
 >::pointDouble() const
 {
+    if(is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
     Field_XXX_p T1;
     Field_XXX_p T2;
     Field_XXX_p S;
-- 
2.43.0


From 483f5ac7c5b2c79a3be6ae8be3381e7c1dfe831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 03/16] fix: generateKeyPair did not compile

---
 includes/ecc_template.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 0889ed8..32d7e6e 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -664,7 +664,7 @@ Field_XXX_n
 >::generateKeyPair(void) const
 {
     mpz_class sk = Curve_XXX::rand.get_z_range(order);
-    Point pk = G * sk;
+    Point_XXX pk = G * sk;
     return KeyPair<Curve_XXX, Point_XXX, Field_XXX_p, Field_XXX_n>(sk,pk);
 }
 
-- 
2.43.0


From 1d1c0a01c610cfcba9decf3bf7eb946d5d1e5faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 04/16] fix: ciphertext comparison compared the ciphertext with
 itself

---
 src/dme/dme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index f3d8038..257edac 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -131,7 +131,7 @@ CTXT& CTXT::operator=(const CTXT& ctxt)
 
 bool CTXT::operator==(const CTXT& ctxt) const
 {
-    return this->u == u && this->mv == mv;
+    return this->u == ctxt.u && this->mv == ctxt.mv;
 }
 
 
-- 
2.43.0


From 4ccf55e7d3b7566bf9e94f2075d7f42eda24a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 05/16] fix: PUDA sum 65535 was never found

---
 src/puda/puda.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 2239a25..03a0f44 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -19,7 +19,7 @@ Puda::~Puda()
 
 msg_t Puda::compute_dlog(POINT1 c)
 {
-    for(uint16_t i=0; i!=USHRT_MAX; i++)
+    for(uint32_t i=0; i<=USHRT_MAX; i++)
     {
         if (pp.g1 * mpz_class(i) == c)
             return i;
-- 
2.43.0


From 3778342782fdc6ba765c29a44c3e458e30a2aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 06/16] fix: ElGamal key generation returned nothing

---
 includes/elgamal.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/includes/elgamal.hpp b/includes/elgamal.hpp
index b7975ff..b3f90a0 100644
--- a/includes/elgamal.hpp
+++ b/includes/elgamal.hpp
@@ -41,7 +41,13 @@ public:
     ElGamal(){}
     ~ElGamal(){}
 
-    keypair_t keyGen() const {curve.generateKeyPair();}
+    keypair_t keyGen() const
+    {
+        keypair_t keys;
+        keys.sk = curve.getRandomScalar();
+        keys.pk = curve.getDefaultGen() * keys.sk;
+        return keys;
+    }
     
     ctxt_t encrypt(const pkey_t pkey, const POINT msg) const;
     ctxt_t encrypt(const pkey_t pkey, const mpz_class msg) {return encrypt(pkey, encode(msg));}
-- 
2.43.0


From df168900362d6c593d0b9fee5f32c573d57be97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 07/16] fix: getShares with threshold 0 did not end

---
 src/shamirss/shamirss.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index b878c17..312fad8 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -27,7 +27,7 @@ share_v_t ShamirSS::getShares(size_t t, size_t n, FIELD secret)
 {
     field_v_t coefs = {secret};
     share_v_t shares;
-    for (size_t i = 0; i < t-1; i++)
+    for (size_t i = 1; i < t; i++)
     {
         coefs.push_back(FIELD((rand()+1) %100));
     }
-- 
2.43.0


From 817d3825094ba140cfa9ae5f1aa6d09e06d05b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 08/16] fix: Shamir coefficients were numbers below 100

---
 src/shamirss/shamirss.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index 312fad8..4446b84 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -3,6 +3,8 @@
 
 namespace sss
 {
+static gmp_randclass rng(gmp_randinit_default);
+
 ShamirSS::ShamirSS()
 {
 
@@ -29,7 +31,7 @@ share_v_t ShamirSS::getShares(size_t t, size_t n, FIELD secret)
     share_v_t shares;
     for (size_t i = 1; i < t; i++)
     {
-        coefs.push_back(FIELD((rand()+1) %100));
+        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));
     }
 
     for (size_t i = 1; i <= n; i++)
-- 
2.43.0


From 8a31b7a7b25a496d0c54d0342a0de72b541c9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 09/16] fix: AES::encrypt/decrypt took their arguments in the
 opposite order of the header

---
 src/utilities/aes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 570933a..85d8d7b 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -37,7 +37,7 @@ void AES::init()
     AES::iv = iv;
 }
 
-ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
+ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
@@ -88,7 +88,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     return utils::setRawMpz(ciphertext,ciphertext_len);
 }
 
-msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
+msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
@@ -145,13 +145,13 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
 {
     msg_t msg = appendCRC(plaintext);
-    return encrypt(msg, key);
+    return encrypt(key, msg);
 }
 
 msg_t AES::decryptCRC(const mpz_class key, const ctxt_t cipher) const
 {
     
-    msg_t m =  decrypt(cipher, key);
+    msg_t m =  decrypt(key, cipher);
     if(validateCRC(m))
     {
         m = removeCRC(m);
-- 
2.43.0


From 479fb0291e73145231b016e902368c312242f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 10/16] fix: AES read beyond IVs shorter than a block,
 AES::init() kept the old IV

---
 includes/aes.hpp      | 2 +-
 src/utilities/aes.cpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/includes/aes.hpp b/includes/aes.hpp
index c9ee756..f5cd806 100644
--- a/includes/aes.hpp
+++ b/includes/aes.hpp
@@ -16,7 +16,7 @@ namespace aes
 #define CRYPTO_NOOVERLAP 1 
 
 using std::string;
-static const string iv = "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
+static const string iv(16, '\0');
 
 
 typedef mpz_class ctxt_t;
diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 85d8d7b..3ed336b 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -11,7 +11,7 @@
 
 namespace aes
 {
-string AES::iv;
+string AES::iv(16, '\0');
 
 void handleErrors(void)
 {
@@ -30,11 +30,12 @@ void handleErrors(void)
 void AES::init(const string iv)
 {
     AES::iv = iv;
+    AES::iv.resize(16, '\0');
 }
 
 void AES::init()
 {
-    AES::iv = iv;
+    AES::iv = aes::iv;
 }
 
 ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From 32ed12584022b98ddabeb8a5da1431953b813ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 11/16] fix: AES read beyond keys shorter than 16 bytes

---
 src/utilities/aes.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 3ed336b..f45ddeb 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -3,6 +3,7 @@
 #include <openssl/aes.h>
 #include <openssl/err.h>
 #include <iostream>   
+#include <string.h>
 
 #include "aes.hpp"
 #include "utilities.hpp"
@@ -38,16 +39,30 @@ void AES::init()
     AES::iv = aes::iv;
 }
 
+// the key as a block of 16 bytes; shorter keys are padded with leading zeros
+static void exportKey(unsigned char* block, const mpz_class& key)
+{
+    uint8_t *arr;
+    size_t len = utils::getRawMpz(&arr, key);
+
+    memset(block, 0, CRYPTO_KEYBYTES);
+    if(len >= CRYPTO_KEYBYTES)
+        memcpy(block, arr, CRYPTO_KEYBYTES);
+    else if(len > 0)
+        memcpy(block + CRYPTO_KEYBYTES - len, arr, len);
+    free(arr);
+}
+
 ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
     unsigned char ciphertext[128];
     uint8_t *ptarr;
-    uint8_t *keyarr;
+    unsigned char keyarr[CRYPTO_KEYBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    utils::getRawMpz(&keyarr, key);
+    exportKey(keyarr, key);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
@@ -96,10 +111,10 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     // unsigned char plaintext[128];
     unsigned char plaintext[128];
     uint8_t *ctxtarr;
-    uint8_t *keyarr;
+    unsigned char keyarr[CRYPTO_KEYBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
-    utils::getRawMpz(&keyarr, key);
+    exportKey(keyarr, key);
 
 
     /* Create and initialise the context */
-- 
2.43.0


From 93c40a8e725353856d63a92789ef02bda9ea017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 12/16] fix: AES overflowed its stack buffer on inputs longer
 than 128 bytes

---
 src/utilities/aes.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index f45ddeb..33c7873 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -57,11 +57,11 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
-    unsigned char ciphertext[128];
     uint8_t *ptarr;
     unsigned char keyarr[CRYPTO_KEYBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
+    unsigned char *ciphertext = new unsigned char[pt_len + 1];
     exportKey(keyarr, key);
 
     /* Create and initialise the context */
@@ -101,19 +101,20 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext,ciphertext_len);
+    ctxt_t res = utils::setRawMpz(ciphertext,ciphertext_len);
+    delete[] ciphertext;
+    return res;
 }
 
 msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
-    // unsigned char plaintext[128];
-    unsigned char plaintext[128];
     uint8_t *ctxtarr;
     unsigned char keyarr[CRYPTO_KEYBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
+    unsigned char *plaintext = new unsigned char[ctxt_len + 1];
     exportKey(keyarr, key);
 
 
@@ -155,7 +156,9 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     EVP_CIPHER_CTX_free(ctx);
     // plaintext[plaintext_len] = '\0';
 
-    return utils::setRawMpz(plaintext, plaintext_len);
+    msg_t res = utils::setRawMpz(plaintext, plaintext_len);
+    delete[] plaintext;
+    return res;
 }    
 
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From d683a3d51629a1ec91b48be9a19b878f37a4eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 13/16] fix: AES lost the leading zero bytes of ciphertexts

---
 src/utilities/aes.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 33c7873..d5edaec 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -81,7 +81,9 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext, &len, (unsigned char*)ptarr, pt_len))
+    /* A leading byte 0x01 keeps the leading zero bytes of the encrypted output */
+    ciphertext[0] = 1;
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext + 1, &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
     ciphertext_len = len;
@@ -89,7 +91,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext + 1 + len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -101,7 +103,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    ctxt_t res = utils::setRawMpz(ciphertext,ciphertext_len);
+    ctxt_t res = utils::setRawMpz(ciphertext,ciphertext_len + 1);
     delete[] ciphertext;
     return res;
 }
@@ -114,7 +116,9 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     unsigned char keyarr[CRYPTO_KEYBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
-    unsigned char *plaintext = new unsigned char[ctxt_len + 1];
+    if(ctxt_len == 0)
+        return msg_t(0);
+    unsigned char *plaintext = new unsigned char[ctxt_len];
     exportKey(keyarr, key);
 
 
@@ -137,7 +141,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext, &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext, &len, (unsigned char*)ctxtarr + 1, ctxt_len - 1))
         handleErrors();
 
     plaintext_len = len;
-- 
2.43.0


From 9393d87bc1fcb8a684e9f80a75bdb893ba7c6671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 14/16] fix: AES leaked the exported input

---
 src/utilities/aes.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index d5edaec..eee5d3c 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -105,6 +105,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     // string t = string((char*)tag, 16);
     ctxt_t res = utils::setRawMpz(ciphertext,ciphertext_len + 1);
     delete[] ciphertext;
+    free(ptarr);
     return res;
 }
 
@@ -162,6 +163,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 
     msg_t res = utils::setRawMpz(plaintext, plaintext_len);
     delete[] plaintext;
+    free(ctxtarr);
     return res;
 }    
 
-- 
2.43.0


From a5c1d943889b1a1c7d6999f4ecbd9d6e18816163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 15/16] fix: appendCRC wrote four bytes beyond its buffer

---
 includes/crc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 68c257a..b9ad6f0 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -770,9 +770,11 @@ const mpz_class appendCRC(mpz_class n)
 
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);
+    res = (uint8_t*) realloc(res, len+4);
     memcpy(res+len, &crc32c, 4);
 
     mpz_class r = utils::setRawMpz(res, len+4);    
+    free(res);
     return r;
 
 }
-- 
2.43.0


From 05b778cad1073783e9f80820f109a29bb7bcc9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 16/16] fix: validateCRC and removeCRC read before numbers
 shorter than the checksum

---
 includes/crc.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index b9ad6f0..bd31b88 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -784,6 +784,12 @@ const bool validateCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
 
+    if(len < 4)
+    {
+        free(res);
+        return (len == 0);
+    }
+
     uint32_t value = 0;    
     value |= *(res + len -4) ;
     value |= *(res + len -3) << 8;
@@ -792,6 +798,7 @@ const bool validateCRC(mpz_class n)
     
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len-4);
+    free(res);
     
     return (crc32c == value);
 }
@@ -801,7 +808,8 @@ const mpz_class removeCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
     
-    mpz_class r = utils::setRawMpz(res, len-4);    
+    mpz_class r = utils::setRawMpz(res, len < 4 ? 0 : len-4);    
+    free(res);
     return r;
 
 }
-- 
2.43.0

