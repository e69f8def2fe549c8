From b0cce18dacf37bbba561d1c941de0ade91d45293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 001/115] fix: fail cipher initialisation when the random
 source fails

EVP treats any non-zero result of the init method as success, so the -1
returned here let encryption continue with no key or IV installed.
---
 gost_crypt.c              | 2 +-
 gost_grasshopper_cipher.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 516e598..6f69ee5 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -497,7 +497,7 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
 
         if (enc) {
             if (init_zero_kdf_seed(c->kdf_seed) == 0)
-                return -1;
+                return 0;
         }
     }
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index ef06e2d..7f918cf 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -243,7 +243,7 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
         if (enc && c->type == GRASSHOPPER_CIPHER_CTRACPKM) {
             gost_grasshopper_cipher_ctx_ctr *ctr = EVP_CIPHER_CTX_get_cipher_data(ctx);
             if (init_zero_kdf_seed(ctr->kdf_seed) == 0)
-                return -1;
+                return 0;
         }
     }
 
-- 
2.43.0


From b7f88343cde2ad803400f90c977fa20986221e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 002/115] fix: keep the ACPKM section size when a context gets
 its key after its parameters

CMS and PKCS#7 decode the algorithm parameters first and set the key
afterwards; the key setup put the section size back to its default, so
every enveloped message longer than one default section was decrypted
into garbage (or refused by the OMAC variants).
---
 gost_crypt.c              | 14 +++++++-------
 gost_grasshopper_cipher.c |  8 ++++++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 6f69ee5..0d8746b 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -495,6 +495,13 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
 
+        /* Default section size; KEY_MESH or decoded parameters override it */
+        if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
+         || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac)
+            c->key_meshing = 1024;
+        else
+            c->key_meshing = 0;
+
         if (enc) {
             if (init_zero_kdf_seed(c->kdf_seed) == 0)
                 return 0;
@@ -512,13 +519,6 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
-    if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
-     || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
-       c->key_meshing = 1024;
-    } else {
-       c->key_meshing = 0;
-    }
-
     return 1;
 }
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 7f918cf..9a3af97 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -331,7 +331,9 @@ gost_grasshopper_cipher_init_ctracpkm(EVP_CIPHER_CTX
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKM;
     EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    /* Default; KEY_MESH or decoded parameters override it */
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL)
+        c->section_size = 4096;
 
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
 }
@@ -347,7 +349,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKMOMAC;
     EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    /* Default; KEY_MESH or decoded parameters override it */
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL)
+        c->section_size = 4096;
 
     if (key) {
         unsigned char cipher_key[32];
-- 
2.43.0


From 14cb591216d75316e13562606c3b92503849429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 003/115] fix: refuse ACPKM section sizes that are not a whole
 number of blocks

---
 gost_crypt.c              | 4 ++++
 gost_grasshopper_cipher.c | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 0d8746b..c4073e9 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1277,6 +1277,10 @@ static int magma_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, void *ptr)
                 return -1;
             }
 
+            if (arg < 0 || arg % MAGMA_BLOCK_SIZE) {
+                return -1;
+            }
+
             c->key_meshing = arg;
             return 1;
         }
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 9a3af97..58913ce 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1110,7 +1110,7 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
                 EVP_CIPHER_CTX_get_cipher_data(ctx);
             if ((c->c.type != GRASSHOPPER_CIPHER_CTRACPKM &&
                 c->c.type != GRASSHOPPER_CIPHER_CTRACPKMOMAC)
-                || (arg == 0)
+                || (arg <= 0)
                || (arg % GRASSHOPPER_BLOCK_SIZE))
                 return -1;
             c->section_size = arg;
-- 
2.43.0


From 6caaa6bf8aacaa3fbc04c0e2004a20378b9bd501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 004/115] fix: gost89-cnt keeps and reports its parameter set

The CNT ciphers never recorded the parameter set, so their parameters
could not be encoded, and they put the default S-boxes back whenever a
key was set, so decoded parameters had no effect.
---
 gost_crypt.c | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index c4073e9..2ea998e 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -424,25 +424,6 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
-    if (key)
-        gost_key(&(c->cctx), key);
-    if (iv) {
-        memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
-               EVP_CIPHER_CTX_iv_length(ctx));
-    }
-    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
-           EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
-    return 1;
-}
-
-static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
-                                const unsigned char *key,
-                                const unsigned char *iv,
-                                gost_subst_block * block)
-{
-    struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-    gost_init(&(c->cctx), block);
-    c->key_meshing = 1;
     c->count = 0;
     if (key)
         gost_key(&(c->cctx), key);
@@ -458,14 +439,18 @@ static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
 static int gost_cipher_init_cpa(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                                 const unsigned char *iv, int enc)
 {
-    return gost_cipher_init_cnt(ctx, key, iv, &Gost28147_CryptoProParamSetA);
+    return gost_cipher_init_param(ctx, key, iv, enc,
+                                  NID_id_Gost28147_89_CryptoPro_A_ParamSet,
+                                  EVP_CIPH_OFB_MODE);
 }
 
 static int gost_cipher_init_cp_12(EVP_CIPHER_CTX *ctx,
                                   const unsigned char *key,
                                   const unsigned char *iv, int enc)
 {
-    return gost_cipher_init_cnt(ctx, key, iv, &Gost28147_TC26ParamSetZ);
+    return gost_cipher_init_param(ctx, key, iv, enc,
+                                  NID_id_tc26_gost_28147_param_Z,
+                                  EVP_CIPH_OFB_MODE);
 }
 
 /* Initializes EVP_CIPHER_CTX with default values */
-- 
2.43.0


From b6c85b27f546ff31f94874a453ac3752eb7d3a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 005/115] fix: setting a key or IV restarts the cipher stream
 completely

A context initialised again kept its position inside the last block, the
position inside the key meshing section, the low half of the CTR counter
and the meshed key, so its output differed from that of a new context.
---
 gost_crypt.c              | 16 +++++++++++++---
 gost_grasshopper_cipher.c |  7 +++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 2ea998e..715e8c9 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -425,8 +425,11 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
     c->count = 0;
+    EVP_CIPHER_CTX_set_num(ctx, 0);
     if (key)
-        gost_key(&(c->cctx), key);
+        magma_master_key(&(c->cctx), key);
+    /* Without a new key start again from the one set before any key meshing */
+    gost_key(&(c->cctx), (const unsigned char *)c->cctx.master_key);
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
@@ -469,6 +472,8 @@ static int gost_cipher_init_cbc(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                                   EVP_CIPH_CBC_MODE);
 }
 
+#define MAGMA_BLOCK_SIZE 8
+#define MAGMA_BLOCK_MASK (MAGMA_BLOCK_SIZE - 1)
 /* Initializes EVP_CIPHER_CTX with default values */
 static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                       const unsigned char *iv, int enc)
@@ -496,13 +501,20 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
     if (key) {
         magma_key(&(c->cctx), key);
         magma_master_key(&(c->cctx), key);
+    } else if (c->key_meshing) {
+        /* Start again from the key set before any key meshing */
+        magma_key(&(c->cctx), (const unsigned char *)c->cctx.master_key);
     }
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
+    /* For CTR modes IV is only the upper half of the counter block */
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, MAGMA_BLOCK_SIZE);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+    c->count = 0;
 
     return 1;
 }
@@ -794,8 +806,6 @@ static void ctr64_inc(unsigned char *counter)
     inc_counter(counter, 8);
 }
 
-#define MAGMA_BLOCK_SIZE 8
-#define MAGMA_BLOCK_MASK (MAGMA_BLOCK_SIZE - 1)
 static inline void apply_acpkm_magma(struct ossl_gost_cipher_ctx *
                                            ctx, unsigned int *num)
 {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 58913ce..7a566dd 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -250,6 +250,10 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
     if (key != NULL) {
         gost_grasshopper_cipher_key(c, key);
         gost_grasshopper_master_key(c, key);
+    } else if (c->type == GRASSHOPPER_CIPHER_CTRACPKM
+               || c->type == GRASSHOPPER_CIPHER_CTRACPKMOMAC) {
+        /* Start again from the key set before any key meshing */
+        gost_grasshopper_cipher_key(c, c->master_key.k.b);
     }
 
     if (iv != NULL) {
@@ -257,8 +261,11 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
 
+    /* For CTR modes IV is only the upper half of the counter block */
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, GRASSHOPPER_BLOCK_SIZE);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+    EVP_CIPHER_CTX_set_num(ctx, 0);
 
     grasshopper_zero128(&c->buffer);
 
-- 
2.43.0


From 9a468e17783cddb826523fe0b34cf06a6a571818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 006/115] fix: refuse malformed or absent cipher parameters

Undecodable GOST 28147-89 parameters and absent parameters crashed, and
malformed Magma parameters were accepted with the old UKM and IV.
---
 gost_crypt.c    | 11 +++++++----
 gost_gost2015.c |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 715e8c9..a61a75d 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1418,7 +1418,7 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
     int nid;
 
-    if (ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
+    if (params == NULL || ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
         return -1;
     }
 
@@ -1426,6 +1426,11 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
     gcp = d2i_GOST_CIPHER_PARAMS(NULL, (const unsigned char **)&p,
                                  params->value.sequence->length);
+    if (gcp == NULL) {
+        GOSTerr(GOST_F_GOST89_GET_ASN1_PARAMETERS,
+                GOST_R_INVALID_CIPHER_PARAMS);
+        return -1;
+    }
 
     len = gcp->iv->length;
     if (len != EVP_CIPHER_CTX_iv_length(ctx)) {
@@ -1470,9 +1475,7 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 	unsigned char iv[16];
 
-	c->key_meshing = 8192;
-
-	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) < 0)
+	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) <= 0)
 	    return -1;
 
 	memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, sizeof(iv));
diff --git a/gost_gost2015.c b/gost_gost2015.c
index 8989ab1..b6db2a0 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -60,7 +60,7 @@ int gost2015_get_asn1_params(const ASN1_TYPE *params, size_t ukm_size,
     memset(iv, 0, iv_len);
 
     /* Проверяем тип params */
-    if (ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
+    if (params == NULL || ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
         GOSTerr(GOST_F_GOST2015_GET_ASN1_PARAMS, GOST_R_INVALID_CIPHER_PARAMS);
         return 0;
     }
-- 
2.43.0


From 9d8b0c8a4fcc1ba92c5ff6486b5361f371fb5c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 007/115] fix: compute Z_1 for MGM decryption without
 associated data

gost_mgm128_decrypt() relied on gost_mgm128_aad() to initialise the
multilinear counter, so a valid message without AAD was refused.
---
 gost_gost2015.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index b6db2a0..3210610 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -385,6 +385,10 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     int bl = ctx->blocklen;
 
     if (mlen == 0) {
+        if (alen == 0) {
+            ctx->nonce.c[0] |= 0x80;
+            (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
+        }
         ctx->nonce.c[0] &= 0x7f;
         (*block) (ctx->nonce.c, ctx->Yi.c, key);  // Y_1 = E_K(0 || nonce)
     }
-- 
2.43.0


From bd7349056a1fd7bc152bc787efeb9bb9de302648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 008/115] fix: keep the MGM nonce for a later key change

A nonce given together with or after the key was not saved, so changing
only the key afterwards silently used an all-zero or older nonce.
---
 gost_crypt.c              | 7 ++++---
 gost_grasshopper_cipher.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index a61a75d..4bf7195 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -634,17 +634,18 @@ static int gost_magma_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *
         if (iv) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
+            if (iv != mctx->iv)
+                memcpy(mctx->iv, iv, mctx->ivlen);
             mctx->iv_set = 1;
         }
         mctx->key_set = 1;
     } else {
-        /* If key set use IV, otherwise copy */
+        /* If key set use IV; save it for a later change of the key */
         if (mctx->key_set) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
         }
-        else
-            memcpy(mctx->iv, iv, mctx->ivlen);
+        memcpy(mctx->iv, iv, mctx->ivlen);
         mctx->iv_set = 1;
     }
     return 1;
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 7a566dd..4fcd106 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -503,17 +503,18 @@ gost_grasshopper_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         if (iv) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
+            if (iv != mctx->iv)
+                memcpy(mctx->iv, iv, mctx->ivlen);
             mctx->iv_set = 1;
         }
         mctx->key_set = 1;
     } else {
-        /* If key set use IV, otherwise copy */
+        /* If key set use IV; save it for a later change of the key */
         if (mctx->key_set) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
         }
-        else
-            memcpy(mctx->iv, iv, mctx->ivlen);
+        memcpy(mctx->iv, iv, mctx->ivlen);
         mctx->iv_set = 1;
     }
     return 1;
-- 
2.43.0


From 11637a832b7a363d9f5f154b8737be6d1d34153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 009/115] fix: make copies of MGM contexts independent of the
 original

The copied context kept pointers to the key schedule and IV buffer of the
context it was copied from, which is a use after free once the original
is released and wrong results once it is re-keyed.
---
 gost_crypt.c              | 15 ++++++++++++++-
 gost_grasshopper_cipher.c | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 4bf7195..8d2ae05 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -258,7 +258,8 @@ GOST_cipher magma_ecb_cipher = {
     .iv_len = 8,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER |
+        EVP_CIPH_CUSTOM_COPY,
     .init = gost_magma_cipher_init_mgm,
     .do_cipher = gost_magma_cipher_do_mgm,
     .ctrl = gost_magma_mgm_ctrl,
@@ -1140,6 +1141,18 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         memcpy(ptr, buf, arg);
         return 1;
 
+    case EVP_CTRL_COPY: {
+        EVP_CIPHER_CTX *out = ptr;
+        gost_mgm_ctx *out_mctx =
+            (gost_mgm_ctx *)EVP_CIPHER_CTX_get_cipher_data(out);
+
+        /* Pointers into the context must not refer to the original one */
+        if (out_mctx->mgm.key != NULL)
+            out_mctx->mgm.key = &out_mctx->ks;
+        out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+        return 1;
+    }
+
     default:
         return -1;
     }
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 4fcd106..a40fac2 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -132,7 +132,8 @@ GOST_cipher grasshopper_mgm_cipher = {
     .iv_len = 16,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER |
+        EVP_CIPH_CUSTOM_COPY,
     .cleanup = gost_grasshopper_mgm_cleanup,
     .ctrl = gost_grasshopper_mgm_ctrl,
     .init = gost_grasshopper_cipher_init_mgm,
@@ -1097,6 +1098,18 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         memcpy(ptr, buf, arg);
         return 1;
 
+    case EVP_CTRL_COPY: {
+        EVP_CIPHER_CTX *out = ptr;
+        gost_mgm_ctx *out_mctx =
+            (gost_mgm_ctx *)EVP_CIPHER_CTX_get_cipher_data(out);
+
+        /* Pointers into the context must not refer to the original one */
+        if (out_mctx->mgm.key != NULL)
+            out_mctx->mgm.key = &out_mctx->ks;
+        out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+        return 1;
+    }
+
     default:
         return -1;
     }
-- 
2.43.0


From 1fdb357dee19eb2eae94a8c3cc2e19cd17505bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 010/115] fix: refuse MGM nonce lengths other than one block

Any other accepted length was used as the block length of the mode and
gave output that is not MGM.
---
 gost_crypt.c              | 10 ++--------
 gost_grasshopper_cipher.c | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 8d2ae05..59790f3 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1109,14 +1109,8 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
-            return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
-        mctx->ivlen = arg;
-        return 1;
+        /* The MGM nonce is exactly one block */
+        return arg == EVP_CIPHER_iv_length(EVP_CIPHER_CTX_cipher(c));
 
     case EVP_CTRL_AEAD_SET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index a40fac2..6fe38eb 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1066,14 +1066,8 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
-            return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
-        mctx->ivlen = arg;
-        return 1;
+        /* The MGM nonce is exactly one block */
+        return arg == EVP_CIPHER_iv_length(EVP_CIPHER_CTX_cipher(c));
 
     case EVP_CTRL_AEAD_SET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
-- 
2.43.0


From 9bc5fe29bfb7ba008df37c02e1879b24ff502ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 011/115] fix: MGM data limit is below 2^(n/2) bits

At exactly 2^(n/2) bits the length field of the magma variant wraps.
---
 gost_gost2015.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 3210610..302c5a4 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -258,7 +258,7 @@ int gost_mgm128_aad(mgm128_context *ctx, const unsigned char *aad,
     }
 
     alen += len;
-    if (alen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
+    if (alen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && alen < len)) {
             GOSTerr(GOST_F_GOST_MGM128_AAD,
                     GOST_R_DATA_TOO_LARGE);
@@ -327,9 +327,9 @@ int gost_mgm128_encrypt(mgm128_context *ctx, const unsigned char *in,
 
     mlen += len;
 
-    if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
+    if (mlen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && mlen < len) ||
-        (mlen + alen) > ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
+        (mlen + alen) >= ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
             GOSTerr(GOST_F_GOST_MGM128_ENCRYPT,
                     GOST_R_DATA_TOO_LARGE);
             return -1;
@@ -394,9 +394,9 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     }
 
     mlen += len;
-    if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
+    if (mlen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && mlen < len) ||
-        (mlen + alen) > ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
+        (mlen + alen) >= ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
             GOSTerr(GOST_F_GOST_MGM128_DECRYPT,
                     GOST_R_DATA_TOO_LARGE);
             return -1;
-- 
2.43.0


From f09c8758bc7890137930d122d94ea40a175db7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 012/115] fix: release the previous MAC context when a
 CTR-ACPKM-OMAC cipher is re-keyed

---
 gost_crypt.c              | 2 ++
 gost_grasshopper_cipher.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 59790f3..fb1d8fd 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -527,6 +527,8 @@ static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned
 	if (key) {
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 		unsigned char cipher_key[32];
+
+		EVP_MD_CTX_free(c->omac_ctx);
 		c->omac_ctx = EVP_MD_CTX_new();
 
 		if (c->omac_ctx == NULL) {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 6fe38eb..a1e5523 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -363,6 +363,8 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
 
     if (key) {
         unsigned char cipher_key[32];
+
+        EVP_MD_CTX_free(c->omac_ctx);
         c->omac_ctx = EVP_MD_CTX_new();
 
         if (c->omac_ctx == NULL) {
-- 
2.43.0


From 67111e11f51fe0b547811ab279d508f42a93f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 013/115] fix: CTR-ACPKM-OMAC contexts without a key can be
 copied and do not crash on use

---
 gost_crypt.c              | 5 +++++
 gost_grasshopper_cipher.c | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index fb1d8fd..86b15d5 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -876,6 +876,9 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
 {
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
+	if (c->omac_ctx == NULL) /* no key yet */
+		return -1;
+
 	if (in == NULL && inl == 0) /* Final call */
 		return gost2015_final_call(ctx, c->omac_ctx, MAGMA_MAC_MAX_SIZE, c->tag, magma_cipher_do_ctr);
 
@@ -1359,6 +1362,8 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
       struct ossl_gost_cipher_ctx *in_cctx  = EVP_CIPHER_CTX_get_cipher_data(ctx);
       struct ossl_gost_cipher_ctx *out_cctx = EVP_CIPHER_CTX_get_cipher_data(out);
 
+			if (in_cctx->omac_ctx == NULL) /* no key yet */
+				return 1;
 			if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index a1e5523..9c59469 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -741,6 +741,11 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
 {
     int result;
     gost_grasshopper_cipher_ctx_ctr *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
+    if (c->omac_ctx == NULL) { /* no key yet */
+        GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_DO_CTRACPKM_OMAC, ERR_R_EVP_LIB);
+        return -1;
+    }
     /* As in and out can be the same pointer, process unencrypted here */
     if (EVP_CIPHER_CTX_encrypting(ctx))
         EVP_DigestSignUpdate(c->omac_ctx, in, inl);
@@ -1227,6 +1232,8 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
         if (in_cctx->c.type != GRASSHOPPER_CIPHER_CTRACPKMOMAC)
             return -1;
 
+        if (in_cctx->omac_ctx == NULL) /* no key yet */
+            return 1;
         if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
-- 
2.43.0


From 72f1cd22f057e403bb7656fc70b387775c5b6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 014/115] fix: free the MAC attribute OID of CMS messages

OBJ_txt2obj() returns an object of its own for this unregistered OID.
---
 gost_gost2015.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 302c5a4..3b994f5 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -134,23 +134,31 @@ int gost2015_process_unprotected_attributes(
     STACK_OF(X509_ATTRIBUTE) *attrs,
     int encryption, size_t mac_len, unsigned char *final_tag)
 {
+    ASN1_OBJECT *mac_oid = OBJ_txt2obj(OID_GOST_CMS_MAC, 1);
+    int ret = -1;
+
+    if (mac_oid == NULL)
+        return -1;
+
     if (encryption == 0) /*Decrypting*/ {
         ASN1_OCTET_STRING *osExpectedMac = X509at_get0_data_by_OBJ(attrs,
-            OBJ_txt2obj(OID_GOST_CMS_MAC, 1), -3, V_ASN1_OCTET_STRING);
+            mac_oid, -3, V_ASN1_OCTET_STRING);
 
         if (!osExpectedMac || osExpectedMac->length != (int)mac_len)
-            return -1;
+            goto end;
 
         memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
+        ret = 1;
     } else {
         if (attrs == NULL)
-            return -1;
-        return (X509at_add1_attr_by_OBJ(&attrs,
-               OBJ_txt2obj(OID_GOST_CMS_MAC, 1),
-               V_ASN1_OCTET_STRING, final_tag,
-               mac_len) == NULL) ? -1 : 1;
+            goto end;
+        if (X509at_add1_attr_by_OBJ(&attrs, mac_oid,
+               V_ASN1_OCTET_STRING, final_tag, mac_len) != NULL)
+            ret = 1;
     }
-    return 1;
+end:
+    ASN1_OBJECT_free(mac_oid);
+    return ret;
 }
 
 int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
-- 
2.43.0


From df3330892cd989ee351748cd2cdf2d5c61cb6192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 015/115] fix: GOST 28147-89 MAC of one-block messages fed in
 pieces

An eight-byte message is padded with a zero block to two blocks, but not
when the block was completed by a second update, so the MAC depended on
how the message was split.
---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 86b15d5..57a7beb 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1554,7 +1554,8 @@ static int gost_imit_update(EVP_MD_CTX *ctx, const void *data, size_t count)
         for (i = c->bytes_left; i < 8 && bytes > 0; bytes--, i++, p++) {
             c->partial_block[i] = *p;
         }
-        if (i == 8) {
+        /* The last full block is kept, as messages of one block are special */
+        if (i == 8 && bytes > 0) {
             mac_block_mesh(c, c->partial_block);
         } else {
             c->bytes_left = i;
-- 
2.43.0


From 7ee8cc4edc51332270041f42a38b6db202135885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 016/115] fix: accept Kuznyechik MAC sizes up to 16 given as a
 string

The limit was that of Magma, although 16 is the default size.
---
 gost_pmeth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 44bfc75..2bf344a 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -917,7 +917,7 @@ static int pkey_gost_magma_mac_ctrl_str(EVP_PKEY_CTX *ctx,
 static int pkey_gost_grasshopper_mac_ctrl_str(EVP_PKEY_CTX *ctx,
                                   const char *type, const char *value)
 {
-    return pkey_gost_omac_ctrl_str(ctx, type, value, 8);
+    return pkey_gost_omac_ctrl_str(ctx, type, value, 16);
 }
 
 static int pkey_gost_mac_keygen_base(EVP_PKEY_CTX *ctx,
-- 
2.43.0


From 6385c9c5165da6d2726c24134277a81d0aea59bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 017/115] fix: release the previous MAC state when an OMAC
 context is re-initialised

---
 gost_omac.c       | 1 +
 gost_omac_acpkm.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gost_omac.c b/gost_omac.c
index 648cd8f..f163dae 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -41,6 +41,7 @@ typedef struct omac_ctx {
 static int omac_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+    CMAC_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 8a3c841..fdbcb47 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -311,6 +311,7 @@ typedef struct omac_acpkm_ctx {
 static int omac_acpkm_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+    CMAC_ACPKM_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_ACPKM_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
-- 
2.43.0


From af7ef9dd6683d6c52cd45a1729a29667659d7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 018/115] fix: refuse OMAC-ACPKM section settings that cannot
 be honoured

---
 gost_omac_acpkm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index fdbcb47..8ad86b4 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -465,15 +465,18 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_CTRL_KEY_MESH:
         {
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
-            if (!arg || (arg % EVP_MD_block_size(EVP_MD_CTX_md(ctx))))
+            if (arg <= 0 || (arg % EVP_MD_block_size(EVP_MD_CTX_md(ctx))))
                 return -1;
-            c->cmac_ctx->section_size = arg;
+            if (!c->cmac_ctx) {
+                GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return -1;
+            }
             if (ptr && *(int *)ptr) {
                 /* Set parameter T */
                 if (EVP_CIPHER_get0_provider(EVP_CIPHER_CTX_cipher(c->cmac_ctx->actx))
                     == NULL) {
-                    if (!EVP_CIPHER_CTX_ctrl(c->cmac_ctx->actx, EVP_CTRL_KEY_MESH,
-                                             *(int *)ptr, NULL))
+                    if (EVP_CIPHER_CTX_ctrl(c->cmac_ctx->actx, EVP_CTRL_KEY_MESH,
+                                            *(int *)ptr, NULL) <= 0)
                         return 0;
                 } else {
                     size_t cipher_key_mesh = (size_t)*(int *)ptr;
@@ -484,6 +487,7 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                         return 0;
                 }
             }
+            c->cmac_ctx->section_size = arg;
             return 1;
         }
     case EVP_MD_CTRL_XOF_LEN:   /* Supported in OpenSSL */
-- 
2.43.0


From aadf0613a2056c73f70e4f2fc35afe833a170e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 019/115] fix: a MAC key that is refused leaves no usable MAC
 context

---
 gost_crypt.c      | 1 +
 gost_omac.c       | 6 ++----
 gost_omac_acpkm.c | 3 ++-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 57a7beb..5857120 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1509,6 +1509,7 @@ static int gost_imit_init(EVP_MD_CTX *ctx, gost_subst_block * block)
     c->count = 0;
     c->bytes_left = 0;
     c->key_meshing = 1;
+    c->key_set = 0;
     c->dgst_size = 4;
     gost_init(&(c->cctx), block);
     return 1;
diff --git a/gost_omac.c b/gost_omac.c
index f163dae..221f9b2 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -148,10 +148,8 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
     }
 
     ret = CMAC_Init(c->cmac_ctx, key, key_size, cipher, NULL);
-    if (ret > 0) {
-        c->key_set = 1;
-    }
-    return 1;
+    c->key_set = ret > 0;
+    return ret;
 }
 
 /* Called directly by gost_kexp15() */
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 8ad86b4..79a7342 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -413,7 +413,7 @@ static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret;
 }
 
 int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
@@ -439,6 +439,7 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 && (cipher =
                     EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)) == NULL) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_CIPHER_NOT_FOUND);
+                goto set_key_end;
             }
             if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
-- 
2.43.0


From 0510ea2650ee25ca7736774c5d93fee516c3548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 020/115] fix: refuse empty and overflowing MAC size strings

---
 gost_pmeth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 2bf344a..cc50053 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -13,6 +13,7 @@
 #include <openssl/err.h>
 #include <openssl/x509v3.h>     /* For string_to_hex */
 #include <openssl/opensslv.h>   /* For OPENSSL_VERSION_MAJOR */
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
@@ -756,7 +757,7 @@ static int pkey_gost_mac_ctrl_str(EVP_PKEY_CTX *ctx,
     if (!strcmp(type, maclen_ctrl_string)) {
         char *endptr;
         long size = strtol(value, &endptr, 10);
-        if (*endptr != '\0') {
+        if (endptr == value || *endptr != '\0' || size < 1 || size > INT_MAX) {
             GOSTerr(GOST_F_PKEY_GOST_MAC_CTRL_STR, GOST_R_INVALID_MAC_SIZE);
             return 0;
         }
@@ -899,7 +900,7 @@ static int pkey_gost_omac_ctrl_str(EVP_PKEY_CTX *ctx,
     if (!strcmp(type, maclen_ctrl_string)) {
         char *endptr;
         long size = strtol(value, &endptr, 10);
-        if (*endptr != '\0') {
+        if (endptr == value || *endptr != '\0' || size < 1 || size > INT_MAX) {
             GOSTerr(GOST_F_PKEY_GOST_OMAC_CTRL_STR, GOST_R_INVALID_MAC_SIZE);
             return 0;
         }
-- 
2.43.0


From ed7e5bcc168b4dc6f24aedaf58cc7c2342eff1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 021/115] fix: refuse KExp15 IVs longer than a block

---
 gost_keyexpimp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 481d5b5..792ad6d 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -59,6 +59,11 @@ int gost_kexp15(const unsigned char *shared_key, const int shared_len,
         goto err;
     }
 
+    if (ivlen > 16) {
+        GOSTerr(GOST_F_GOST_KEXP15, ERR_R_INTERNAL_ERROR);
+        goto err;
+    }
+
     /* we expect IV of half length */
     memset(iv_full, 0, 16);
     memcpy(iv_full, iv, ivlen);
-- 
2.43.0


From f95a9fa4b93170da67b8b2dade10b808f16a8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 022/115] fix: KImp15 imports only exports of the exact length

---
 gost_keyexpimp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 792ad6d..e6c5b44 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -141,7 +141,7 @@ int gost_kimp15(const unsigned char *expkey, const size_t expkeylen,
         goto err;
     }
 
-    if (expkeylen > sizeof(out)) {
+    if (expkeylen != shared_len + mac_len) {
         GOSTerr(GOST_F_GOST_KIMP15, ERR_R_INTERNAL_ERROR);
         goto err;
     }
-- 
2.43.0


From c374f0a2d911e6bd285ccf6841a157cb44d87e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 023/115] fix: free the HMAC context of a refused key
 derivation

---
 gost_keyexpimp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index e6c5b44..80cbdda 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -225,6 +225,7 @@ int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len,
 
     if ((keyout_len == 0) || (keyout_len % 32 != 0)) {
         GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
+        HMAC_CTX_free(ctx);
         return 0;
     }
     iters = keyout_len / 32;
-- 
2.43.0


From 61e7aa96032f194301d7bdc3ac96a62ab6de056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 024/115] fix: KExp15 wrap ciphers report unauthentic and
 incomplete keys as failures

---
 gost_keyexpimp.c | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 80cbdda..a68930d 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -354,16 +354,15 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= MAGMA_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > MAGMA_WRAPPED_KEY_LEN)
-			return -1;
-
-		if (cctx->wrap_count + inl <= MAGMA_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	/* The key has been returned by the update that completed it */
+	if (in == NULL)
+		return cctx->wrap_count == MAGMA_WRAPPED_KEY_LEN ? 0 : -1;
+
+	if (inl > MAGMA_WRAPPED_KEY_LEN - cctx->wrap_count)
+		return -1;
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
 
 	if (cctx->wrap_count < MAGMA_WRAPPED_KEY_LEN)
 		return 0;
@@ -376,7 +375,7 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_magma_ctr,
-		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
@@ -407,16 +406,15 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= KUZNYECHIK_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > KUZNYECHIK_WRAPPED_KEY_LEN)
-			return -1;
+	/* The key has been returned by the update that completed it */
+	if (in == NULL)
+		return cctx->wrap_count == KUZNYECHIK_WRAPPED_KEY_LEN ? 0 : -1;
 
-		if (cctx->wrap_count + inl <= KUZNYECHIK_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (inl > KUZNYECHIK_WRAPPED_KEY_LEN - cctx->wrap_count)
+		return -1;
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
 
 	if (cctx->wrap_count < KUZNYECHIK_WRAPPED_KEY_LEN)
 		return 0;
@@ -429,7 +427,7 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_kuznyechik_ctr,
-		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
-- 
2.43.0


From 78636cfd4cd10718162239626cfc5787ef8bb997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 025/115] fix: KExp15 wrap ciphers honour an IV set apart from
 the key

---
 gost_keyexpimp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index a68930d..437b1d8 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -310,7 +310,7 @@ int gost_tlstree(int cipher_nid, const unsigned char *in, unsigned char *out,
     return 1;
 }
 
-#define GOST_WRAP_FLAGS  EVP_CIPH_CTRL_INIT | EVP_CIPH_WRAP_MODE | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_FLAG_DEFAULT_ASN1
+#define GOST_WRAP_FLAGS  EVP_CIPH_CTRL_INIT | EVP_CIPH_WRAP_MODE | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_ALWAYS_CALL_INIT | EVP_CIPH_FLAG_DEFAULT_ASN1
 
 #define MAGMA_MAC_WRAP_LEN 8
 #define KUZNYECHIK_MAC_WRAP_LEN 16
-- 
2.43.0


From 0123a94cac7e106af99176803917a1edb50cd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 026/115] fix: key generation reports a failing random source

---
 gost_pmeth.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index cc50053..d0f92b9 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -448,8 +448,7 @@ static int pkey_gost2001cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2001_paramgen(ctx, pkey))
         return 0;
     ec = EVP_PKEY_get0(pkey);
-    gost_ec_keygen(ec);
-    return 1;
+    return gost_ec_keygen(ec);
 }
 
 /* Generates GOST_R3410 2012 key and assigns it using specified type */
@@ -458,8 +457,7 @@ static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2012_paramgen(ctx, pkey))
         return 0;
 
-    gost_ec_keygen(EVP_PKEY_get0(pkey));
-    return 1;
+    return gost_ec_keygen(EVP_PKEY_get0(pkey));
 }
 
 /* ----------- sign callbacks --------------------------------------*/
-- 
2.43.0


From 0700224d967330f9ae37fd7f728da2aa5691d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 027/115] fix: refuse digests of unsupported length instead of
 aborting

---
 gost_ec_sign.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index a825dba..73b51f0 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -196,13 +196,17 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
 
     OPENSSL_assert(dgst != NULL && eckey != NULL);
 
+    if (dlen != 32 && dlen != 64) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_INVALID_DIGEST_TYPE);
+        return NULL;
+    }
+
     if (!(ctx = BN_CTX_secure_new())) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
         return NULL;
     }
 
     BN_CTX_start(ctx);
-    OPENSSL_assert(dlen == 32 || dlen == 64);
     md = BN_lebin2bn(dgst, dlen, NULL);
     newsig = ECDSA_SIG_new();
     if (!newsig || !md) {
@@ -337,6 +341,11 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
 
     OPENSSL_assert(dgst != NULL && sig != NULL && group != NULL);
 
+    if (dgst_len != 32 && dgst_len != 64) {
+        GOSTerr(GOST_F_GOST_EC_VERIFY, GOST_R_INVALID_DIGEST_TYPE);
+        return 0;
+    }
+
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_MALLOC_FAILURE);
         return 0;
@@ -371,7 +380,6 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
         goto err;
     }
 
-    OPENSSL_assert(dgst_len == 32 || dgst_len == 64);
     md = BN_lebin2bn(dgst, dgst_len, NULL);
     if (!md || !BN_mod(e, md, order, ctx)) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_INTERNAL_ERROR);
-- 
2.43.0


From 175349232d699816697d075075526292357714b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 028/115] fix: accept only signatures of the exact length of
 the key

---
 gost_pmeth.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index d0f92b9..d978139 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -538,7 +538,12 @@ static int pkey_gost_ec_cp_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
 {
     int ok = 0;
     EVP_PKEY *pub_key = EVP_PKEY_CTX_get0_pkey(ctx);
-    ECDSA_SIG *s = (sig) ? unpack_cp_signature(sig, siglen) : NULL;
+    ECDSA_SIG *s;
+
+    /* a signature is exactly two numbers of the size of the key */
+    if (!pub_key || siglen != (size_t)EVP_PKEY_size(pub_key))
+        return 0;
+    s = (sig) ? unpack_cp_signature(sig, siglen) : NULL;
     if (!s)
         return 0;
 #ifdef DEBUG_SIGN
-- 
2.43.0


From 72d0ff14db471a91eb6bd261a29dc3159e8b906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 029/115] fix: key agreement refuses missing keys and points of
 another curve

---
 gost_ec_keyx.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 8839c4a..f38ead4 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -51,7 +51,13 @@ int VKO_compute_key(unsigned char *shared_key,
         goto err;
     }
 
-    grp = EC_KEY_get0_group(priv_key);
+    if (priv_key == NULL || pub_key == NULL
+        || (grp = EC_KEY_get0_group(priv_key)) == NULL
+        || EC_KEY_get0_private_key(priv_key) == NULL
+        || EC_POINT_is_on_curve(grp, pub_key, ctx) <= 0) {
+        GOSTerr(GOST_F_VKO_COMPUTE_KEY, GOST_R_INCOMPATIBLE_PEER_KEY);
+        goto err;
+    }
     scalar = BN_CTX_get(ctx);
     X = BN_CTX_get(ctx);
 
@@ -203,6 +209,12 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
         return 0;
     }
 
+    if (key && (!my_key || !peer_key || !EVP_PKEY_get0(my_key)
+                || !EVP_PKEY_get0(peer_key))) {
+        GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_NO_PEER_KEY);
+        return 0;
+    }
+
     /* VKO */
     if (data->vko_dgst_nid) {
         if (!key) {
-- 
2.43.0


From 1b96c466a0b3febd0fd20797cf0236ada6361842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 030/115] fix: two-scalar multiplication handles the point of
 order two

---
 gost_ec_sign.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index 73b51f0..cb96a5a 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -503,6 +503,27 @@ int gost_ec_compute_public(EC_KEY *ec)
     return ok;
 }
 
+/*
+ * The Edwards form used for the curves with cofactor 4 cannot represent the
+ * image of the point of order two (the one with Y equal to zero).
+ */
+static int point_has_order_two(const EC_GROUP *group, const EC_POINT *q,
+                               BN_CTX *ctx)
+{
+    BIGNUM *y;
+    int ret = 0;
+
+    if (EC_POINT_is_at_infinity(group, q))
+        return 0;
+
+    BN_CTX_start(ctx);
+    y = BN_CTX_get(ctx);
+    if (y != NULL && EC_POINT_get_affine_coordinates(group, q, NULL, y, ctx))
+        ret = BN_is_zero(y);
+    BN_CTX_end(ctx);
+    return ret;
+}
+
 int gost_ec_point_mul(const EC_GROUP *group, EC_POINT *r, const BIGNUM *n,
                       const EC_POINT *q, const BIGNUM *m, BN_CTX *ctx)
 {
@@ -513,6 +534,8 @@ int gost_ec_point_mul(const EC_GROUP *group, EC_POINT *r, const BIGNUM *n,
         /* verification */
         if (q == NULL)
             return 0;
+        if (point_has_order_two(group, q, ctx))
+            return EC_POINT_mul(group, r, n, q, m, ctx);
         switch(EC_GROUP_get_curve_name(group)) {
             case NID_id_GostR3410_2001_CryptoPro_A_ParamSet:
             case NID_id_GostR3410_2001_CryptoPro_XchA_ParamSet:
-- 
2.43.0


From 94eb58042bac4dbc438cb5302364cdbf799b5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 031/115] fix: refuse an absent digest instead of aborting

---
 gost_ec_sign.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index cb96a5a..b4d34de 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -194,13 +194,13 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     EC_POINT *C = NULL;
     BN_CTX *ctx;
 
-    OPENSSL_assert(dgst != NULL && eckey != NULL);
-
     if (dlen != 32 && dlen != 64) {
         GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_INVALID_DIGEST_TYPE);
         return NULL;
     }
 
+    OPENSSL_assert(dgst != NULL && eckey != NULL);
+
     if (!(ctx = BN_CTX_secure_new())) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
         return NULL;
@@ -339,13 +339,13 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
     const EC_POINT *pub_key = NULL;
     int ok = 0;
 
-    OPENSSL_assert(dgst != NULL && sig != NULL && group != NULL);
-
     if (dgst_len != 32 && dgst_len != 64) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, GOST_R_INVALID_DIGEST_TYPE);
         return 0;
     }
 
+    OPENSSL_assert(dgst != NULL && sig != NULL && group != NULL);
+
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_MALLOC_FAILURE);
         return 0;
-- 
2.43.0


From fd0049ead6630ce88efb202755f1e58a628a13b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 032/115] fix: draw another signature nonce when the random
 source delivers zero

---
 gost_ec_sign.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index b4d34de..1f267e1 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -252,10 +252,13 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
 
     do {
         do {
-            if (!BN_rand_range(k, order)) {
-                GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_RNG_ERROR);
-                goto err;
+            do {
+                if (!BN_rand_range(k, order)) {
+                    GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_RNG_ERROR);
+                    goto err;
+                }
             }
+            while (BN_is_zero(k));
             if (!gost_ec_point_mul(group, C, k, NULL, NULL, ctx)) {
                 GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_EC_LIB);
                 goto err;
-- 
2.43.0


From a3ab0c93b8a2d96a4c80f82ac07be5d94c915022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 033/115] fix: key transport encrypts only session keys of 32
 bytes

---
 gost_ec_keyx.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index f38ead4..218b7c1 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -306,6 +306,11 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     EVP_PKEY *sec_key = EVP_PKEY_CTX_get0_peerkey(pctx);
     int res_len = 0;
 
+    if (key_len != 32) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
+        return -1;
+    }
+
     if (data->shared_ukm_size) {
         memcpy(ukm, data->shared_ukm, 8);
     } else {
@@ -456,6 +461,10 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
         return -1;
         break;
     }
+    if (key_len != 32) {
+        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
+        return -1;
+    }
     exp_len = key_len + mac_len;
     exp_buf = OPENSSL_malloc(exp_len);
     if (!exp_buf) {
-- 
2.43.0


From fc4a5007c8644aa5a0d051085745639fe0ad9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 034/115] fix: refuse key transport fields of wrong length
 instead of aborting

---
 gost_ec_keyx.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 218b7c1..c39f56b 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -644,12 +644,17 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
         goto err;
     }
 
+    if (gkt->key_agreement_info->eph_iv->length != 8
+        || gkt->key_info->encrypted_key->length != 32
+        || gkt->key_info->imit->length != 4) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
+                GOST_R_ERROR_PARSING_KEY_TRANSPORT_INFO);
+        goto err;
+    }
+
     gost_init(&ctx, param->sblock);
-    OPENSSL_assert(gkt->key_agreement_info->eph_iv->length == 8);
     memcpy(wrappedKey, gkt->key_agreement_info->eph_iv->data, 8);
-    OPENSSL_assert(gkt->key_info->encrypted_key->length == 32);
     memcpy(wrappedKey + 8, gkt->key_info->encrypted_key->data, 32);
-    OPENSSL_assert(gkt->key_info->imit->length == 4);
     memcpy(wrappedKey + 40, gkt->key_info->imit->data, 4);
 
     EVP_PKEY_get_default_digest_nid(priv, &dgst_nid);
-- 
2.43.0


From fb35801cc15edca20cd4c70ac7ddbd49bfcd32f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 035/115] fix: free the ephemeral key once when a key transport
 blob does not fit

---
 gost_ec_keyx.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index c39f56b..320214c 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -382,9 +382,10 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
     ASN1_OBJECT_free(gkt->key_agreement_info->cipher);
     gkt->key_agreement_info->cipher = OBJ_nid2obj(param->nid);
-    if (key_is_ephemeral)
+    if (key_is_ephemeral) {
         EVP_PKEY_free(sec_key);
-    if (!key_is_ephemeral) {
+        sec_key = NULL;
+    } else {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
             <= 0) {
-- 
2.43.0


From 5b39d5aa7bbe45cb01923126edaf8416afbb2905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 036/115] fix: PSKeyTransport refuses an ephemeral key of
 another type or curve

---
 gost_ec_keyx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 320214c..78be40b 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -760,6 +760,12 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
         }
     }
 
+    if (EVP_PKEY_base_id(eph_key) != pkey_nid
+        || EVP_PKEY_parameters_eq(eph_key, priv) != 1) {
+        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_INCOMPATIBLE_PEER_KEY);
+        goto err;
+    }
+
     if (gost_keg(data->shared_ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(eph_key)),
                  EVP_PKEY_get0(priv), expkeys) <= 0) {
-- 
2.43.0


From baffd735f33a69d96cdf63fd7adf2aa371bce914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 037/115] fix: PSKeyTransport uses only a 32-byte UKM, and that
 of the blob at hand

---
 gost_ec_keyx.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 78be40b..748856f 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -436,7 +436,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     EVP_PKEY *pubk = EVP_PKEY_CTX_get0_pkey(pctx);
     struct gost_pmeth_data *data = EVP_PKEY_CTX_get_data(pctx);
     int pkey_nid = EVP_PKEY_base_id(pubk);
-    unsigned char expkeys[64];
+    unsigned char expkeys[64], ukm[32];
     EVP_PKEY *sec_key = NULL;
     int ret = 0;
     int mac_nid = NID_undef;
@@ -493,14 +493,18 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
 
     if (data->shared_ukm_size == 0) {
-        if (RAND_bytes(data->shared_ukm, 32) <= 0) {
+        if (RAND_bytes(ukm, sizeof(ukm)) <= 0) {
             GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_INTERNAL_ERROR);
             goto err;
         }
-        data->shared_ukm_size = 32;
+    } else if (data->shared_ukm_size == sizeof(ukm)) {
+        memcpy(ukm, data->shared_ukm, sizeof(ukm));
+    } else {
+        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_UKM_NOT_SET);
+        goto err;
     }
 
-    if (gost_keg(data->shared_ukm, pkey_nid,
+    if (gost_keg(ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(pubk)),
                  EVP_PKEY_get0(sec_key), expkeys) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT,
@@ -509,7 +513,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
 
     if (gost_kexp15(key, key_len, data->cipher_nid, expkeys + 32,
-                    mac_nid, expkeys + 0, data->shared_ukm + 24, iv_len,
+                    mac_nid, expkeys + 0, ukm + 24, iv_len,
                     exp_buf, &exp_len) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_CANNOT_PACK_EPHEMERAL_KEY);
         goto err;
@@ -527,7 +531,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
         goto err;
     }
 
-    if (!ASN1_OCTET_STRING_set(pst->ukm, data->shared_ukm, data->shared_ukm_size)) {
+    if (!ASN1_OCTET_STRING_set(pst->ukm, ukm, sizeof(ukm))) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE);
         goto err;
     }
@@ -698,6 +702,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     PSKeyTransport_gost *pst = NULL;
     int ret = 0;
     unsigned char expkeys[64];
+    const unsigned char *ukm = NULL;
     EVP_PKEY *eph_key = NULL;
     int pkey_nid;
     int mac_nid = NID_undef;
@@ -752,12 +757,14 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
        goto err;
     }
 
-    if (data->shared_ukm_size == 0 && pst->ukm != NULL) {
-        if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
-        ASN1_STRING_length(pst->ukm), (void *)ASN1_STRING_get0_data(pst->ukm)) < 0) {
-            GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
-            goto err;
-        }
+    if (data->shared_ukm_size == 32)
+        ukm = data->shared_ukm;
+    else if (data->shared_ukm_size == 0 && pst->ukm != NULL
+             && ASN1_STRING_length(pst->ukm) == 32)
+        ukm = ASN1_STRING_get0_data(pst->ukm);
+    if (ukm == NULL) {
+        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
+        goto err;
     }
 
     if (EVP_PKEY_base_id(eph_key) != pkey_nid
@@ -766,7 +773,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
         goto err;
     }
 
-    if (gost_keg(data->shared_ukm, pkey_nid,
+    if (gost_keg(ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(eph_key)),
                  EVP_PKEY_get0(priv), expkeys) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT,
@@ -776,7 +783,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
     if (gost_kimp15(ASN1_STRING_get0_data(pst->psexp),
                     ASN1_STRING_length(pst->psexp), data->cipher_nid,
-                    expkeys + 32, mac_nid, expkeys + 0, data->shared_ukm + 24,
+                    expkeys + 32, mac_nid, expkeys + 0, ukm + 24,
                     iv_len, key) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_CANNOT_UNPACK_EPHEMERAL_KEY);
         goto err;
-- 
2.43.0


From 0ff1f2c6f24d75318004711a3d9e79611e5d0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 038/115] fix: refuse an unreadable ephemeral key instead of
 using an earlier peer key

The exchange fell back to whatever peer key the context already had when
the ephemeral key carried by the message could not be decoded.
---
 gost_ec_keyx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 748856f..0fe4e27 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -630,6 +630,10 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
                     GOST_R_INCOMPATIBLE_PEER_KEY);
             goto err;
         }
+    } else if (gkt->key_agreement_info->ephem_key) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
+                GOST_R_ERROR_DECODING_PUBLIC_KEY);
+        goto err;
     } else {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
-- 
2.43.0


From 0d7e5d866308fbf4942fe567d6b314ada730356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 039/115] fix: keep the key type when decoding GOST R
 34.10-2001 DH parameters

---
 gost_ameth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8e02a15..fd2cf82 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1149,7 +1149,7 @@ static int gost2001_param_decode(EVP_PKEY *pkey, const unsigned char **pder,
     nid = OBJ_obj2nid(obj);
     ASN1_OBJECT_free(obj);
 
-    return gost_decode_nid_params(pkey, NID_id_GostR3410_2001, nid);
+    return gost_decode_nid_params(pkey, EVP_PKEY_base_id(pkey), nid);
 }
 
 /* ----------------------------------------------------------------------*/
-- 
2.43.0


From 4fd4c6fea129b52ed27880b3c7da3a9bee91f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 040/115] fix: refuse key parameters of a curve that does not
 fit the key type

A 256-bit key type with a 512-bit curve, or the reverse, was accepted; such
a key then fails, or loses half of its bytes, wherever its size is used.
---
 gost_ameth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index fd2cf82..10bdbbb 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -137,7 +137,10 @@ static int gost_decode_nid_params(EVP_PKEY *pkey, int pkey_nid, int param_nid)
                 break;
             }
         }
-        return fill_GOST_EC_params(key_ptr, param_nid);
+        if (!fill_GOST_EC_params(key_ptr, param_nid))
+            return 0;
+        return (EC_GROUP_get_degree(EC_KEY_get0_group(key_ptr)) + 7) / 8
+            == pkey_bits_gost(pkey) / 8;
     }
 
     return 0;
-- 
2.43.0


From 8baa611da4ba8deb5ab49946b58a223a57c8ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 041/115] fix: check the length and range of a private key when
 decoding it

An empty key was read out of bounds; a key of the other size, a negative,
zero or oversized number was accepted.
---
 gost_ameth.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 10bdbbb..5b270cb 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -613,6 +613,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
+    if (priv_len <= 0) {
+        GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+        return 0;
+    }
+
     if (priv_len % expected_key_len == 0) {
         /* Key is not wrapped but masked */
         pk_num = unmask_priv_key(pk, pkey_buf, expected_key_len,
@@ -620,7 +625,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
     } else if (V_ASN1_OCTET_STRING == *p) {
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
-        if (!s || ((s->length != 32) && (s->length != 64))) {
+        if (!s || s->length != expected_key_len) {
             ASN1_STRING_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
@@ -644,7 +649,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         }
 
         priv_len = mgk->masked_priv_key->length;
-        if (priv_len % expected_key_len) {
+        if (priv_len == 0 || priv_len % expected_key_len) {
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
@@ -664,8 +669,15 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
+    if (BN_is_negative(pk_num) || BN_is_zero(pk_num)
+        || BN_num_bytes(pk_num) > expected_key_len) {
+        GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+        BN_clear_free(pk_num);
+        return 0;
+    }
+
     ret = gost_set_priv_key(pk, pk_num);
-    BN_free(pk_num);
+    BN_clear_free(pk_num);
     return ret;
 }
 
-- 
2.43.0


From 817167c39029868d692ab7ec3a5fc13ac16b5d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 042/115] fix: refuse a private key whose public key is the
 point at infinity

---
 gost_ec_sign.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index 1f267e1..1f34347 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -493,6 +493,10 @@ int gost_ec_compute_public(EC_KEY *ec)
         GOSTerr(GOST_F_GOST_EC_COMPUTE_PUBLIC, ERR_R_EC_LIB);
         goto err;
     }
+    if (EC_POINT_is_at_infinity(group, pub_key)) {
+        GOSTerr(GOST_F_GOST_EC_COMPUTE_PUBLIC, ERR_R_EC_LIB);
+        goto err;
+    }
     if (!EC_KEY_set_public_key(ec, pub_key)) {
         GOSTerr(GOST_F_GOST_EC_COMPUTE_PUBLIC, ERR_R_EC_LIB);
         goto err;
-- 
2.43.0


From 7cfd9583f67098101223c9d9cc6e25b867ae08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 043/115] fix: check the length of the octet string holding a
 public key

Coordinates of any width were accepted: a trailing byte was ignored and
wider or narrower encodings of the same point were taken.
---
 gost_ameth.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index 5b270cb..7dbe37c 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -942,6 +942,10 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
         goto ret;
     }
+    if (octet->length != 2 * (pkey_bits_gost(pk) / 8)) {
+        GOSTerr(GOST_F_PUB_DECODE_GOST_EC, EVP_R_DECODE_ERROR);
+        goto ret;
+    }
     databuf = OPENSSL_malloc(octet->length);
     if (!databuf) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
@@ -958,6 +962,10 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         goto ret;
     }
     pub_key = EC_POINT_new(group);
+    if (!pub_key) {
+        GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
+        goto ret;
+    }
     if (!EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_EC_LIB);
         goto ret;
-- 
2.43.0


From 31ebbb93f6d9fa25caf3c93ba63d929e7143e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 044/115] fix: refuse to encode a private key that is not there

---
 gost_ameth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 7dbe37c..ebd7ada 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -696,7 +696,8 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         return 0;
     }
 
-    if (!store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
+    if (!gost_get0_priv_key(pk)
+        || !store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
         OPENSSL_secure_free(buf);
         return 0;
     }
-- 
2.43.0


From 7c6e0a0c69be36720b395076aa92f2999e05a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 045/115] fix: fail cleanly when a public key cannot be encoded

The parameters were leaked, and a key without parameters, without a group
or with coordinates wider than its order was encoded as if it were whole.
---
 gost_ameth.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index ebd7ada..6b03480 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1000,7 +1000,14 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
 
     algobj = OBJ_nid2obj(EVP_PKEY_base_id(pk));
 
+    if (!ec || !EC_KEY_get0_group(ec)) {
+        GOSTerr(GOST_F_PUB_ENCODE_GOST_EC, GOST_R_KEY_PARAMETERS_MISSING);
+        return 0;
+    }
+
     params = encode_gost_algor_params(pk);
+    if (!params)
+        return 0;
     pval = params;
 
     order = BN_new();
@@ -1035,8 +1042,11 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
         goto err;
     }
 
-    store_bignum(X, databuf + data_len / 2, data_len / 2);
-    store_bignum(Y, databuf, data_len / 2);
+    if (!store_bignum(X, databuf + data_len / 2, data_len / 2)
+        || !store_bignum(Y, databuf, data_len / 2)) {
+        GOSTerr(GOST_F_PUB_ENCODE_GOST_EC, ERR_R_INTERNAL_ERROR);
+        goto err;
+    }
 
     BUF_reverse(databuf, NULL, data_len);
 
@@ -1063,9 +1073,13 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     if (databuf)
         OPENSSL_free(databuf);
 
-    if (ret < 0)
+    if (ret < 0 || !X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret)) {
+        ASN1_STRING_free(params);
+        if (ret >= 0)
+            OPENSSL_free(buf);
         return 0;
-    return X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret);
+    }
+    return 1;
 }
 
 static int pub_cmp_gost_ec(const EVP_PKEY *a, const EVP_PKEY *b)
-- 
2.43.0


From 97041b6f534c76f5170083895c5342b083328f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 046/115] fix: check the parameters and the UKM of a key
 agreement recipient

A missing parameter or UKM was dereferenced, and 8 bytes from offset 24 of
the UKM were read whatever its length.
---
 gost_ameth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 6b03480..cfb9b0a 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -259,7 +259,11 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		  goto err;
 
 	nid = OBJ_obj2nid(alg->algorithm);
-	if (alg->parameter->type != V_ASN1_SEQUENCE)
+	if (alg->parameter == NULL || alg->parameter->type != V_ASN1_SEQUENCE)
+		  goto err;
+
+	/* KEG takes a 32-byte UKM, and KExp15 its last 8 bytes */
+	if (ukm == NULL || ASN1_STRING_length(ukm) != 32)
 		  goto err;
 
 	switch (nid) {
-- 
2.43.0


From 0ab147af629a11d8c3e0a42ab5ff61f05f79a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 047/115] fix: do not take over the originator key of a key
 agreement recipient

The algorithm, parameters and key bytes belong to the CMS structure: they
were freed twice when the key was not usable, and the wrapper was leaked
when it was.
---
 gost_ameth.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index cfb9b0a..7864171 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -286,6 +286,9 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		const ASN1_OBJECT *paobj = NULL;
 		int ptype = 0;
 		const void *param = NULL;
+		ASN1_OBJECT *obj_copy = NULL;
+		ASN1_STRING *param_copy = NULL;
+		unsigned char *key_copy = NULL;
 
 		peer_key = EVP_PKEY_new();
 		tmp = X509_PUBKEY_new();
@@ -296,11 +299,22 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		}
 
 		X509_ALGOR_get0(&paobj, &ptype, &param, pubalg);
+		if (ptype != V_ASN1_SEQUENCE || ASN1_STRING_length(pubkey) == 0) {
+			GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_PUBLIC_KEY_UNDEFINED);
+			goto err;
+		}
 
-		if (X509_PUBKEY_set0_param(tmp, (ASN1_OBJECT *)paobj,
-			ptype, (void *)param,
-			(unsigned char *)ASN1_STRING_get0_data(pubkey),
-			ASN1_STRING_length(pubkey) ) == 0) {
+		/* tmp owns what it is given: give it copies */
+		obj_copy = OBJ_dup(paobj);
+		param_copy = ASN1_STRING_dup(param);
+		key_copy = OPENSSL_memdup(ASN1_STRING_get0_data(pubkey),
+			ASN1_STRING_length(pubkey));
+		if (obj_copy == NULL || param_copy == NULL || key_copy == NULL
+			|| X509_PUBKEY_set0_param(tmp, obj_copy, ptype, param_copy,
+				key_copy, ASN1_STRING_length(pubkey)) == 0) {
+				ASN1_OBJECT_free(obj_copy);
+				ASN1_STRING_free(param_copy);
+				OPENSSL_free(key_copy);
 				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_PUBLIC_KEY_UNDEFINED);
 				goto err;
 		}
@@ -329,9 +343,7 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 	ret = 1;
 err:
 	EVP_PKEY_free(peer_key);
-	if (ret == 0) {
-		X509_PUBKEY_free(tmp);
-	}
+	X509_PUBKEY_free(tmp);
 
 	return ret;
 }
-- 
2.43.0


From 68145dd7d583d487e1033c0e9b634a15c21bf83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 048/115] fix: gost12sum: do not read before the start of an
 empty line

Trimming the line break of an empty line (in a check list or in the list
of names of -x) read, and could clear, bytes before the buffer.
---
 gost12sum.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index e644a61..91f1d92 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -179,10 +179,9 @@ int main(int argc, char **argv)
         while (!feof(stdin)) {
             if (!fgets(filename, PATH_MAX, stdin))
                 break;
-            for (end = filename; *end; end++) ;
-            end--;
-            for (; *end == '\n' || *end == '\r'; end--)
-                *end = 0;
+            end = filename + strlen(filename);
+            while (end > filename && (end[-1] == '\n' || end[-1] == '\r'))
+                *--end = 0;
             if (!hash_file(&ctx, filename, sum, open_mode, hashsize)) {
                 errors++;
             } else {
@@ -261,8 +260,8 @@ int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
             ptr++;
 
         len = strlen(ptr);
-        while (ptr[--len] == '\n' || ptr[len] == '\r')
-            ptr[len] = 0;
+        while (len > 0 && (ptr[len - 1] == '\n' || ptr[len - 1] == '\r'))
+            ptr[--len] = 0;
 
         if (len == 0)
             goto nextline;
-- 
2.43.0


From f86aeca82382140d115959c2f9a18104f3897bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 049/115] fix: gost12sum: read lists with the longest file
 names

A line of a check list was cut at PATH_MAX bytes although it holds a
digest in front of the name, so a list the program had printed itself
could not be checked.
---
 gost12sum.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index 91f1d92..3b92801 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -29,6 +29,8 @@ typedef SSIZE_T ssize_t;
 #include "gosthash2012.h"
 #define BUF_SIZE 262144
 #define MAX_HASH_TXT_BYTES 128
+/* "<hash> <name>", the line break and the terminating zero */
+#define MAX_LINE (MAX_HASH_TXT_BYTES + 1 + PATH_MAX + 2)
 #define gost_hash_ctx gost2012_hash_ctx
 
 typedef unsigned char byte;
@@ -118,7 +120,7 @@ int main(int argc, char **argv)
 
     if (check_file) {
         char inhash[MAX_HASH_TXT_BYTES + 1], calcsum[MAX_HASH_TXT_BYTES + 1],
-            filename[PATH_MAX];
+            filename[MAX_LINE];
         int failcount = 0, count = 0;
         int expected_hash_size = 0;
         if (check_file == stdin && optind < argc) {
@@ -175,9 +177,9 @@ int main(int argc, char **argv)
         exit((failcount || errors) ? 1 : 0);
     } else if (filenames_from_stdin) {
         char sum[MAX_HASH_TXT_BYTES + 1];
-        char filename[PATH_MAX + 1], *end;
+        char filename[PATH_MAX + 2], *end;
         while (!feof(stdin)) {
-            if (!fgets(filename, PATH_MAX, stdin))
+            if (!fgets(filename, sizeof(filename), stdin))
                 break;
             end = filename + strlen(filename);
             while (end > filename && (end[-1] == '\n' || end[-1] == '\r'))
@@ -253,7 +255,7 @@ int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
     char *spacepos = NULL;
 
     while (!feof(f)) {
-        if (!fgets(filename, PATH_MAX, f))
+        if (!fgets(filename, MAX_LINE, f))
             return 0;
         ptr = filename;
         while (*ptr == ' ')
-- 
2.43.0


From 8ed22d1a11a9844bb07395f72597217670b48cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 050/115] fix: gostsum: do not stop silently at a malformed
 line of a check list

A malformed line ended the check, so the files listed after it were not
checked, and the exit status was still zero.  A line without a name made
the program crash.  Report the line, count it as an error and go on.
---
 gostsum.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/gostsum.c b/gostsum.c
index b61215c..8d17fea 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -26,6 +26,8 @@ typedef SSIZE_T ssize_t;
 #endif
 #include <string.h>
 #include "gosthash.h"
+/* "<hash> <name>", the line break and the terminating zero */
+#define MAX_LINE (64 + 1 + PATH_MAX + 2)
 #define BUF_SIZE 262144
 int hash_file(gost_hash_ctx * ctx, char *filename, char *sum, int mode);
 int hash_stream(gost_hash_ctx * ctx, int fd, char *sum);
@@ -85,8 +87,8 @@ int main(int argc, char **argv)
     }
     init_gost_hash_ctx(&ctx, b);
     if (check_file) {
-        char inhash[65], calcsum[65], filename[PATH_MAX];
-        int failcount = 0, count = 0;
+        char inhash[65], calcsum[65], filename[MAX_LINE];
+        int failcount = 0, count = 0, rc;
         errors = 0;
         if (check_file == stdin && optind < argc) {
             check_file = fopen(argv[optind], "r");
@@ -95,8 +97,12 @@ int main(int argc, char **argv)
                 exit(2);
             }
         }
-        while (get_line(check_file, inhash, filename)) {
+        while ((rc = get_line(check_file, inhash, filename)) != 0) {
             count++;
+            if (rc < 0) {
+                errors++;
+                continue;
+            }
             if (!hash_file(&ctx, filename, calcsum, open_mode)) {
                 errors++;
                 continue;
@@ -192,22 +198,26 @@ int hash_stream(gost_hash_ctx * ctx, int fd, char *sum)
 int get_line(FILE *f, char *hash, char *filename)
 {
     int i;
-    if (fread(hash, 1, 64, f) < 64)
-        return 0;
+    do {
+        if (!fgets(filename, MAX_LINE, f))
+            return 0;
+        i = strlen(filename);
+        while (i > 0 && (filename[i - 1] == '\n' || filename[i - 1] == '\r'))
+            filename[--i] = 0;
+    } while (i == 0);
+    strncpy(hash, filename, 64);
     hash[64] = 0;
     for (i = 0; i < 64; i++) {
         if (hash[i] < '0' || (hash[i] > '9' && hash[i] < 'A')
             || (hash[i] > 'F' && hash[i] < 'a') || hash[i] > 'f') {
             fprintf(stderr, "Not a hash value '%s'\n", hash);
-            return 0;
+            return -1;
         }
     }
-    if (fgetc(f) != ' ') {
+    if (filename[64] != ' ' || filename[65] == 0) {
         fprintf(stderr, "Malformed input line\n");
-        return 0;
+        return -1;
     }
-    i = strlen(fgets(filename, PATH_MAX, f));
-    while (filename[--i] == '\n' || filename[i] == '\r')
-        filename[i] = 0;
+    memmove(filename, filename + 65, strlen(filename + 65) + 1);
     return 1;
 }
-- 
2.43.0


From 401b04a862dcbe26ce5d02b36ec86b1b5147ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 051/115] fix: gostsum, gost12sum: report a check list that
 cannot be read

A read error on the list was taken for its end and the exit status was
zero although nothing had been checked.
---
 gost12sum.c | 4 ++++
 gostsum.c   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gost12sum.c b/gost12sum.c
index 3b92801..c759e9c 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -163,6 +163,10 @@ int main(int argc, char **argv)
                 failcount++;
             }
         }
+        if (ferror(check_file)) {
+            perror("check list");
+            exit(2);
+        }
         if (errors) {
             fprintf(stderr,
                     "%s: WARNING %d of %d file(s) cannot be processed\n",
diff --git a/gostsum.c b/gostsum.c
index 8d17fea..a7f0b54 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -122,6 +122,10 @@ int main(int argc, char **argv)
                 failcount++;
             }
         }
+        if (ferror(check_file)) {
+            perror("check list");
+            exit(2);
+        }
         if (errors) {
             fprintf(stderr,
                     "%s: WARNING %d of %d file(s) cannot be processed\n",
-- 
2.43.0


From 4f58503a8326ae4ba3ec218f3f914a77035e399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 052/115] fix: provider: let a cipher context take parameters
 before a key

A context that had no key yet refused every parameter, so initialising a
context on which padding had been turned off failed, as did parameters
given together with the key.  Apply the latter after the initialisation,
which would reset them.
---
 gost_prov_cipher.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index ce9665e..c2d1b66 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -64,7 +64,7 @@ static void cipher_freectx(void *vgctx)
     OPENSSL_free(gctx);
 }
 
-static GOST_CTX *cipher_newctx(void *provctx, GOST_cipher *descriptor,
+static GOST_CTX *cipher_newctx(PROV_CTX *provctx, GOST_cipher *descriptor,
                                 const OSSL_PARAM *known_params)
 {
     GOST_CTX *gctx = NULL;
@@ -76,7 +76,11 @@ static GOST_CTX *cipher_newctx(void *provctx, GOST_cipher *descriptor,
         gctx->cipher = GOST_init_cipher(descriptor);
         gctx->cctx = EVP_CIPHER_CTX_new();
 
-        if (gctx->cipher == NULL || gctx->cctx == NULL) {
+        /* Without a cipher, the context would refuse all parameters */
+        if (gctx->cipher == NULL
+            || gctx->cctx == NULL
+            || EVP_CipherInit_ex(gctx->cctx, gctx->cipher, provctx->e,
+                                 NULL, NULL, -1) <= 0) {
             cipher_freectx(gctx);
             gctx = NULL;
         }
@@ -214,13 +218,13 @@ static int cipher_encrypt_init(void *vgctx,
 {
     GOST_CTX *gctx = vgctx;
 
-    if (!cipher_set_ctx_params(vgctx, params)
-        || keylen > EVP_CIPHER_key_length(gctx->cipher)
+    if (keylen > EVP_CIPHER_key_length(gctx->cipher)
         || ivlen > EVP_CIPHER_iv_length(gctx->cipher))
         return 0;
 
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
-                             key, iv, 1);
+                             key, iv, 1) > 0
+        && cipher_set_ctx_params(vgctx, params);
 }
 
 static int cipher_decrypt_init(void *vgctx,
@@ -230,12 +234,12 @@ static int cipher_decrypt_init(void *vgctx,
 {
     GOST_CTX *gctx = vgctx;
 
-    if (!cipher_set_ctx_params(vgctx, params)
-        || keylen > EVP_CIPHER_key_length(gctx->cipher)
+    if (keylen > EVP_CIPHER_key_length(gctx->cipher)
         || ivlen > EVP_CIPHER_iv_length(gctx->cipher))
         return 0;
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
-                             key, iv, 0) > 0;
+                             key, iv, 0) > 0
+        && cipher_set_ctx_params(vgctx, params);
 }
 
 static int cipher_update(void *vgctx,
-- 
2.43.0


From cf03cfeadc2dc42e7575eba5464d1fad361fa43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 053/115] fix: provider: return the algorithm parameters, not
 their address

The alg_id_param parameter was filled from the stack around the pointer
to the encoding.
---
 gost_prov_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index c2d1b66..fd851a1 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -131,7 +131,7 @@ static int cipher_get_ctx_params(void *vgctx, OSSL_PARAM params[])
         ret = (algidparam = ASN1_TYPE_new()) != NULL
             && EVP_CIPHER_param_to_asn1(gctx->cctx, algidparam) > 0
             && (derlen = i2d_ASN1_TYPE(algidparam, &der)) >= 0
-            && OSSL_PARAM_set_octet_string(p, &der, (size_t)derlen);
+            && OSSL_PARAM_set_octet_string(p, der, (size_t)derlen);
 
         OPENSSL_free(der);
         ASN1_TYPE_free(algidparam);
-- 
2.43.0


From af895fa3372136aa0dcd9ccfac8f7c8fde7f768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 054/115] fix: choose the UKM seed of a context first
 initialised for decryption

The seed was only chosen if the first initialisation of a context was for
encryption; a context that went from decryption to encryption, as for
PBES2, put a seed of zeros into the algorithm parameters.
---
 gost_crypt.c              | 6 ++----
 gost_grasshopper_cipher.c | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 5857120..21c65cd 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -493,10 +493,8 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         else
             c->key_meshing = 0;
 
-        if (enc) {
-            if (init_zero_kdf_seed(c->kdf_seed) == 0)
-                return 0;
-        }
+        if (init_zero_kdf_seed(c->kdf_seed) == 0)
+            return 0;
     }
 
     if (key) {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 9c59469..90171a7 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -241,7 +241,7 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
 
     if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL) {
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
-        if (enc && c->type == GRASSHOPPER_CIPHER_CTRACPKM) {
+        if (c->type == GRASSHOPPER_CIPHER_CTRACPKM) {
             gost_grasshopper_cipher_ctx_ctr *ctr = EVP_CIPHER_CTX_get_cipher_data(ctx);
             if (init_zero_kdf_seed(ctr->kdf_seed) == 0)
                 return 0;
-- 
2.43.0


From 5e88d13bfd64877a5db3a7d2e5dc313b25e3e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 055/115] fix: provider: end the dispatch tables of the digests
 and the MACs

OpenSSL walks a dispatch table up to an entry of zeros; without it, it
reads on behind the table.
---
 gost_prov_digest.c | 1 +
 gost_prov_mac.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 79eb5a3..bd2228b 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -160,6 +160,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_DIGEST_INIT, (fptr_t)digest_init },                 \
         { OSSL_FUNC_DIGEST_UPDATE, (fptr_t)digest_update },             \
         { OSSL_FUNC_DIGEST_FINAL, (fptr_t)digest_final },               \
+        { 0, NULL },                                                    \
     }
 
 MAKE_FUNCTIONS(GostR3411_94_digest);
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index ab04a9c..b66d0d3 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -320,6 +320,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_MAC_SETTABLE_CTX_PARAMS,                            \
           (fptr_t)mac_settable_ctx_params },                            \
         { OSSL_FUNC_MAC_SET_CTX_PARAMS, (fptr_t)mac_set_ctx_params },   \
+        { 0, NULL },                                                    \
     }
 
 /*
-- 
2.43.0


From 5750c1c3d96657e2b20113ff6efec2ca7be5bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 056/115] fix: provider: keep the MAC size in a duplicated
 context

A duplicate produced a MAC of the default size, whatever size had been
set.
---
 gost_prov_mac.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index b66d0d3..8f43ae4 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -103,8 +103,14 @@ static void *mac_dupctx(void *vsrc)
     GOST_CTX *dst =
         mac_newctx(src->provctx, src->descriptor);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst != NULL) {
+        if (EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+            mac_freectx(dst);
+            return NULL;
+        }
+        dst->mac_size = src->mac_size;
+        dst->xof_mode = src->xof_mode;
+    }
     return dst;
 }
 
-- 
2.43.0


From 35c2fad29ec79bef1e5c747f0b9312dde02f7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 057/115] fix: provider: set the MAC key before the other
 parameters, check its length

The parameters were set before the key, so that key meshing could not be
chosen together with the key; a key of length 0 was taken for an internal
structure.
---
 gost_prov_mac.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 8f43ae4..4485bba 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -114,15 +114,23 @@ static void *mac_dupctx(void *vsrc)
     return dst;
 }
 
+static int mac_set_key(GOST_CTX *gctx, const unsigned char *key,
+                       size_t keylen)
+{
+    /* Note that a length of 0 would announce a struct gost_mac_key */
+    return keylen == 32
+        && EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
+                           (int)keylen, (void *)key) > 0;
+}
+
 static int mac_init(void *mctx, const unsigned char *key,
                     size_t keylen, const OSSL_PARAM params[])
 {
     GOST_CTX *gctx = mctx;
 
-    return mac_set_ctx_params(gctx, params)
-        && (key == NULL
-            || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                               (int)keylen, (void *)key) > 0);
+    /* Setting a key starts a new MAC; "key-mesh" needs the key to be set */
+    return (key == NULL || mac_set_key(gctx, key, keylen))
+        && mac_set_ctx_params(gctx, params);
 }
 
 static int mac_update(void *mctx, const unsigned char *in, size_t inl)
@@ -240,14 +248,9 @@ static int mac_set_ctx_params(void *mctx, const OSSL_PARAM params[])
     if ((p = OSSL_PARAM_locate_const(params, "key")) != NULL) {
         const unsigned char *key = NULL;
         size_t keylen = 0;
-        int ret;
-
-        if (!OSSL_PARAM_get_octet_string_ptr(p, (const void **)&key, &keylen))
-            return 0;
 
-        ret = EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                              (int)keylen, (void *)key);
-        if (ret <= 0 && ret != -2)
+        if (!OSSL_PARAM_get_octet_string_ptr(p, (const void **)&key, &keylen)
+            || !mac_set_key(gctx, key, keylen))
             return 0;
     }
     if ((p = OSSL_PARAM_locate_const(params, "xof")) != NULL
-- 
2.43.0


From 0611aa7f5e4d0b7506eb13367c5a2f463104df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 058/115] fix: do not crash when the size of a finished MAC is
 set

EVP_DigestFinal_ex cleans up the context, and the name of the cipher,
which the control needs to check the size, is gone then.
---
 gost_omac.c       | 5 +++++
 gost_omac_acpkm.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gost_omac.c b/gost_omac.c
index 221f9b2..1a9bd3c 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -213,6 +213,11 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_MD_CTRL_XOF_LEN:   /* Supported in OpenSSL */
         {
             OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+            /* The context has been cleaned up after the previous MAC */
+            if (c->cipher_name == NULL) {
+                GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return 0;
+            }
             switch (OBJ_txt2nid(c->cipher_name)) {
             case NID_magma_cbc:
                 if (arg < 1 || arg > 8) {
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 79a7342..4cb95d7 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -494,6 +494,11 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_MD_CTRL_XOF_LEN:   /* Supported in OpenSSL */
         {
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+            /* The context has been cleaned up after the previous MAC */
+            if (c->cipher_name == NULL) {
+                GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return 0;
+            }
             switch (OBJ_txt2nid(c->cipher_name)) {
             case NID_grasshopper_cbc:
                 if (arg < 1 || arg > 16) {
-- 
2.43.0


From 5b0e32fcee89b5a07efe2afa083be099cdfc9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 059/115] fix: provider: refuse MAC sizes that the MAC does not
 have

Such a size was announced to the caller, who got the default number of
MAC bytes followed by whatever was in the buffer.
---
 gost_prov_mac.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 4485bba..0de8a2d 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -242,9 +242,16 @@ static int mac_set_ctx_params(void *mctx, const OSSL_PARAM params[])
     GOST_CTX *gctx = mctx;
     const OSSL_PARAM *p = NULL;
 
-    if ((p = OSSL_PARAM_locate_const(params, "size")) != NULL
-        && !OSSL_PARAM_get_size_t(p, &gctx->mac_size))
-        return 0;
+    if ((p = OSSL_PARAM_locate_const(params, "size")) != NULL) {
+        size_t size = 0;
+
+        if (!OSSL_PARAM_get_size_t(p, &size)
+            || size > EVP_MAX_MD_SIZE
+            || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN,
+                               (int)size, NULL) <= 0)
+            return 0;
+        gctx->mac_size = size;
+    }
     if ((p = OSSL_PARAM_locate_const(params, "key")) != NULL) {
         const unsigned char *key = NULL;
         size_t keylen = 0;
-- 
2.43.0


From 21817ddaf8d67d338b4ffa8b0cf1aa057572f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 060/115] fix: provider: start a new MAC with the same key

Without a new key, the initialisation of a MAC reported success but the
context went on with the previous message, or had no key any more.
---
 gost_prov_mac.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 0de8a2d..d4ec056 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -46,6 +46,9 @@ struct gost_prov_mac_ctx_st {
     size_t mac_size;
     /* XOF mode, where applicable */
     int xof_mode;
+    /* The key, to start again with it */
+    unsigned char key[32];
+    int key_set;
 
     /*
      * Since existing functionality is mainly designed as EVP_MDs for
@@ -72,7 +75,7 @@ static void mac_freectx(void *vgctx)
      * GOST_prov_deinit_digests() (defined at the bottom of this file).
      */
     EVP_MD_CTX_free(gctx->dctx);
-    OPENSSL_free(gctx);
+    OPENSSL_clear_free(gctx, sizeof(*gctx));
 }
 
 static GOST_CTX *mac_newctx(void *provctx, const GOST_DESC *descriptor)
@@ -110,6 +113,8 @@ static void *mac_dupctx(void *vsrc)
         }
         dst->mac_size = src->mac_size;
         dst->xof_mode = src->xof_mode;
+        memcpy(dst->key, src->key, sizeof(dst->key));
+        dst->key_set = src->key_set;
     }
     return dst;
 }
@@ -118,9 +123,13 @@ static int mac_set_key(GOST_CTX *gctx, const unsigned char *key,
                        size_t keylen)
 {
     /* Note that a length of 0 would announce a struct gost_mac_key */
-    return keylen == 32
-        && EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                           (int)keylen, (void *)key) > 0;
+    if (keylen != sizeof(gctx->key)
+        || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
+                           (int)keylen, (void *)key) <= 0)
+        return 0;
+    memmove(gctx->key, key, keylen);
+    gctx->key_set = 1;
+    return 1;
 }
 
 static int mac_init(void *mctx, const unsigned char *key,
@@ -128,6 +137,12 @@ static int mac_init(void *mctx, const unsigned char *key,
 {
     GOST_CTX *gctx = mctx;
 
+    /* No key means the one set before */
+    if (key == NULL && gctx->key_set) {
+        key = gctx->key;
+        keylen = sizeof(gctx->key);
+    }
+
     /* Setting a key starts a new MAC; "key-mesh" needs the key to be set */
     return (key == NULL || mac_set_key(gctx, key, keylen))
         && mac_set_ctx_params(gctx, params);
-- 
2.43.0


From 4406aa9e94f327dce1ba6247a57b16d36dc5e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 061/115] fix: accept names and OIDs of TC26 256-bit parameter
 sets B, C and D

The paramset control knew them only as TCB, TCC and TCD.
---
 gost_pmeth.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index d978139..176652a 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -200,6 +200,24 @@ static int pkey_gost_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
     return -2;
 }
 
+/* Parameter sets of 256-bit keys, including those that are other names */
+static int is_paramset_256(int nid)
+{
+    const R3410_ec_params *p = R3410_2001_paramset;
+
+    switch (nid) {
+    case NID_undef:
+        return 0;
+    case NID_id_tc26_gost_3410_2012_256_paramSetB:
+    case NID_id_tc26_gost_3410_2012_256_paramSetC:
+    case NID_id_tc26_gost_3410_2012_256_paramSetD:
+        return 1;
+    }
+    while (p->nid != NID_undef && p->nid != nid)
+        p++;
+    return p->nid == nid;
+}
+
 static int pkey_gost_ec_ctrl_str_common(EVP_PKEY_CTX *ctx,
                                      const char *type, const char *value)
 {
@@ -294,16 +312,11 @@ static int pkey_gost_ec_ctrl_str_256(EVP_PKEY_CTX *ctx,
                 return 0;
             }
         } else {
-            R3410_ec_params *p = R3410_2001_paramset;
             param_nid = OBJ_txt2nid(value);
             if (param_nid == NID_undef) {
                 return 0;
             }
-            for (; p->nid != NID_undef; p++) {
-                if (p->nid == param_nid)
-                    break;
-            }
-            if (p->nid == NID_undef) {
+            if (!is_paramset_256(param_nid)) {
                 GOSTerr(GOST_F_PKEY_GOST_EC_CTRL_STR_256,
                         GOST_R_INVALID_PARAMSET);
                 return 0;
-- 
2.43.0


From 2e87acfdfba29fb38338fab44f660c993cdb900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 062/115] fix: refuse parameter sets that do not belong to the
 key type

EVP_PKEY_CTRL_GOST_PARAMSET accepted any identifier, so that keys of a
256-bit type could be generated on a 512-bit curve and vice versa.
---
 gost_pmeth.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 176652a..336c2e4 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -218,6 +218,34 @@ static int is_paramset_256(int nid)
     return p->nid == nid;
 }
 
+static int is_paramset_512(int nid)
+{
+    const R3410_ec_params *p = R3410_2012_512_paramset;
+
+    while (p->nid != NID_undef && p->nid != nid)
+        p++;
+    return nid != NID_undef && p->nid == nid;
+}
+
+/* The parameter set has to be one of those of the key type */
+static int pkey_gost_ctrl_256(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
+{
+    if (type == EVP_PKEY_CTRL_GOST_PARAMSET && !is_paramset_256(p1)) {
+        GOSTerr(GOST_F_PKEY_GOST_CTRL, GOST_R_INVALID_PARAMSET);
+        return 0;
+    }
+    return pkey_gost_ctrl(ctx, type, p1, p2);
+}
+
+static int pkey_gost_ctrl_512(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
+{
+    if (type == EVP_PKEY_CTRL_GOST_PARAMSET && !is_paramset_512(p1)) {
+        GOSTerr(GOST_F_PKEY_GOST_CTRL, GOST_R_INVALID_PARAMSET);
+        return 0;
+    }
+    return pkey_gost_ctrl(ctx, type, p1, p2);
+}
+
 static int pkey_gost_ec_ctrl_str_common(EVP_PKEY_CTX *ctx,
                                      const char *type, const char *value)
 {
@@ -1070,7 +1098,7 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
     case NID_id_GostR3410_2001:
     case NID_id_GostR3410_2001DH:
         EVP_PKEY_meth_set_ctrl(*pmeth,
-                               pkey_gost_ctrl, pkey_gost_ec_ctrl_str_256);
+                               pkey_gost_ctrl_256, pkey_gost_ec_ctrl_str_256);
         EVP_PKEY_meth_set_sign(*pmeth, NULL, pkey_gost_ec_cp_sign);
         EVP_PKEY_meth_set_verify(*pmeth, NULL, pkey_gost_ec_cp_verify);
 
@@ -1089,7 +1117,7 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
         break;
     case NID_id_GostR3410_2012_256:
         EVP_PKEY_meth_set_ctrl(*pmeth,
-                               pkey_gost_ctrl, pkey_gost_ec_ctrl_str_256);
+                               pkey_gost_ctrl_256, pkey_gost_ec_ctrl_str_256);
         EVP_PKEY_meth_set_sign(*pmeth, NULL, pkey_gost_ec_cp_sign);
         EVP_PKEY_meth_set_verify(*pmeth, NULL, pkey_gost_ec_cp_verify);
 
@@ -1109,7 +1137,7 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
         break;
     case NID_id_GostR3410_2012_512:
         EVP_PKEY_meth_set_ctrl(*pmeth,
-                               pkey_gost_ctrl, pkey_gost_ec_ctrl_str_512);
+                               pkey_gost_ctrl_512, pkey_gost_ec_ctrl_str_512);
         EVP_PKEY_meth_set_sign(*pmeth, NULL, pkey_gost_ec_cp_sign);
         EVP_PKEY_meth_set_verify(*pmeth, NULL, pkey_gost_ec_cp_verify);
 
-- 
2.43.0


From 608212164bf937447d951213062ed0d74fa24cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 063/115] fix: refuse malformed values of the vko control

The value was converted with atoi(), so any text that is not a number was
taken for 0, and text after the number was ignored.
---
 gost_pmeth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 336c2e4..8566670 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -266,9 +266,12 @@ static int pkey_gost_ec_ctrl_str_common(EVP_PKEY_CTX *ctx,
 
     return pkey_gost_ctrl(ctx, EVP_PKEY_CTRL_SET_IV, len, ukm_buf);
   } else if (strcmp(type, vko_ctrl_string) == 0) {
-      int bits = atoi(value);
+      char *end = NULL;
+      long bits = strtol(value, &end, 10);
       int vko_dgst_nid = 0;
 
+      if (end == value || *end != '\0')
+	  bits = -1;
       if (bits == 256)
 	  vko_dgst_nid = NID_id_GostR3411_2012_256;
       else if (bits == 512)
-- 
2.43.0


From 498f33e50167f50358d7330c4fa14959121019ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 064/115] fix: refuse a missing digest instead of stopping the
 program

EVP_PKEY_CTX_set_signature_md() with a null digest ended in an assertion
failure, or in a null pointer dereference for MAC keys.
---
 gost_pmeth.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 8566670..d86936b 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -101,7 +101,10 @@ static int pkey_gost_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
             EVP_PKEY *key = EVP_PKEY_CTX_get0_pkey(ctx);
             int pkey_nid = (key == NULL) ? NID_undef : EVP_PKEY_base_id(key);
 
-            OPENSSL_assert(p2 != NULL);
+            if (p2 == NULL) {
+                GOSTerr(GOST_F_PKEY_GOST_CTRL, GOST_R_INVALID_DIGEST_TYPE);
+                return 0;
+            }
 
             switch (EVP_MD_type((const EVP_MD *)p2)) {
             case NID_id_GostR3411_94:
@@ -703,7 +706,7 @@ static int pkey_gost_mac_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
     switch (type) {
     case EVP_PKEY_CTRL_MD:
         {
-            int nid = EVP_MD_type((const EVP_MD *)p2);
+            int nid = p2 ? EVP_MD_type((const EVP_MD *)p2) : NID_undef;
             if (nid != NID_id_Gost28147_89_MAC && nid != NID_gost_mac_12) {
                 GOSTerr(GOST_F_PKEY_GOST_MAC_CTRL,
                         GOST_R_INVALID_DIGEST_TYPE);
@@ -840,7 +843,7 @@ static int pkey_gost_omac_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2, si
     switch (type) {
     case EVP_PKEY_CTRL_MD:
         {
-            int nid = EVP_MD_type((const EVP_MD *)p2);
+            int nid = p2 ? EVP_MD_type((const EVP_MD *)p2) : NID_undef;
             if (nid != NID_magma_mac && nid != NID_grasshopper_mac
                 && nid != NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac /* FIXME beldmit */
                 && nid != NID_id_tc26_cipher_gostr3412_2015_magma_ctracpkm_omac) {
-- 
2.43.0


From 59372d9a5dd48e199dea0eee38126e2d51fc901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 065/115] fix: refuse a UKM that is shorter than key transport
 needs

The missing bytes were taken from whatever the context had held before.
---
 gost_ec_keyx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 0fe4e27..60a2577 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -312,6 +312,10 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
 
     if (data->shared_ukm_size) {
+        if (data->shared_ukm_size < 8) {
+            GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, GOST_R_UKM_NOT_SET);
+            return 0;
+        }
         memcpy(ukm, data->shared_ukm, 8);
     } else {
         if (RAND_bytes(ukm, 8) <= 0) {
-- 
2.43.0


From c085183740d9fa211b02eec1e86ca38711fb1fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 066/115] fix: refuse the controls of GOST 28147-89 for
 magma-cbc

The S-box of Magma is fixed, but the S-box control replaced it.
---
 gost_crypt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 21c65cd..42af87e 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -286,6 +286,7 @@ GOST_cipher magma_cbc_cipher = {
         EVP_CIPH_CUSTOM_IV,
     .init = magma_cipher_init,
     .do_cipher = magma_cipher_do_cbc,
+    .ctrl = magma_cipher_ctl,
 };
 
 /* Implementation of GOST 28147-89 in MAC (imitovstavka) mode */
-- 
2.43.0


From 6627f6e8fc37df60cf664addff3f1b88074d77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 067/115] fix: free the ephemeral key when its generation fails

---
 gost_ec_keyx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 60a2577..0e3fd4b 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -485,6 +485,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE );
         goto err;
       }
+      key_is_ephemeral = 1;
 
       if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
           || !EVP_PKEY_copy_parameters(sec_key, pubk)
@@ -493,7 +494,6 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
             GOST_R_ERROR_COMPUTING_SHARED_KEY);
         goto err;
       }
-      key_is_ephemeral = 1;
     }
 
     if (data->shared_ukm_size == 0) {
-- 
2.43.0


From 5a163ee3034e028c2b03301057893d37b29151b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 068/115] fix: choose the OMAC cipher by the identifier of the
 MAC

EVP_MD_is_a() compares names in OpenSSL's name map. A digest of an engine
that is loaded after the map was filled is not there, and then every name
compares equal: kuznyechik-mac with a key object used Magma.
---
 gost_omac.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 1a9bd3c..c6bbe93 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -167,9 +167,9 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             int ret = 0;
 
             if (c->cipher_name == NULL) {
-                if (EVP_MD_is_a(md, SN_magma_mac))
+                if (EVP_MD_nid(md) == NID_magma_mac)
                     c->cipher_name = SN_magma_cbc;
-                else if (EVP_MD_is_a(md, SN_grasshopper_mac))
+                else if (EVP_MD_nid(md) == NID_grasshopper_mac)
                     c->cipher_name = SN_grasshopper_cbc;
             }
             if ((cipher =
-- 
2.43.0


From 6a2a5cbd834f310f9ae72492ab19ef612422cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 069/115] fix: protect the cached groups of the parameter sets
 by a lock

fill_GOST_EC_params() keeps the group of a parameter set in the table and
names it by the identifier that was asked for. Identifiers that share a
curve share the table entry, so a thread could get a key named by another
thread's identifier, and threads filling the entry at the same time raced.
---
 gost_ec_sign.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index 1f34347..d734d0b 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -58,6 +58,16 @@ static R3410_ec_params *gost_nid2params(int nid)
     return NULL;
 }
 
+/* Protects the cached groups of the parameter sets */
+static const CRYPTO_ONCE group_lock_new = CRYPTO_ONCE_STATIC_INIT;
+static CRYPTO_ONCE group_lock_once = CRYPTO_ONCE_STATIC_INIT;
+static CRYPTO_RWLOCK *group_lock = NULL;
+
+static void group_lock_init(void)
+{
+    group_lock = CRYPTO_THREAD_lock_new();
+}
+
 void free_cached_groups()
 {
     R3410_ec_params *params;
@@ -77,6 +87,10 @@ void free_cached_groups()
 	params->group = NULL;
         params++;
     }
+
+    CRYPTO_THREAD_lock_free(group_lock);
+    group_lock = NULL;
+    group_lock_once = group_lock_new;
 }
 
 /*
@@ -102,18 +116,29 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
         return 0;
     }
 
+    /*
+     * The group is shared by all threads and by identifiers of the same
+     * curve. A key gets a copy of it, named by the identifier it asked for.
+     */
+    if (!CRYPTO_THREAD_run_once(&group_lock_once, group_lock_init)
+        || !group_lock || !CRYPTO_THREAD_write_lock(group_lock)) {
+        GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
+        return 0;
+    }
+
     if (params->group) {
         EC_GROUP_set_curve_name(params->group, nid);
         if (!EC_KEY_set_group(eckey, params->group)) {
             GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
             goto end;
         }
-        return 1;
+        ok = 1;
+        goto end;
     }
 
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_MALLOC_FAILURE);
-        return 0;
+        goto end;
     }
 
     BN_CTX_start(ctx);
@@ -169,6 +194,7 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
     }
     ok = 1;
  end:
+    CRYPTO_THREAD_unlock(group_lock);
     EC_POINT_free(P);
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
-- 
2.43.0


From 0c771634e370fee2335c482b38c320d1c6265133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 070/115] fix: protect the cached engine parameters by a lock

Two threads that read a parameter set in the environment for the first
time at the same time both stored a copy of it, and the second one freed
the string that the first one had returned to its caller.
---
 gost_ctl.c | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index 60280b1..ed2a3e3 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -18,6 +18,22 @@ static char *gost_params[GOST_PARAM_MAX + 1] = { NULL };
 static const char *gost_envnames[] =
     { "CRYPT_PARAMS", "GOST_PBE_HMAC", "GOST_PK_FORMAT" };
 
+/* Protects gost_params */
+static const CRYPTO_ONCE params_lock_new = CRYPTO_ONCE_STATIC_INIT;
+static CRYPTO_ONCE params_lock_once = CRYPTO_ONCE_STATIC_INIT;
+static CRYPTO_RWLOCK *params_lock = NULL;
+
+static void params_lock_init(void)
+{
+    params_lock = CRYPTO_THREAD_lock_new();
+}
+
+static int params_lock_take(void)
+{
+    return CRYPTO_THREAD_run_once(&params_lock_once, params_lock_init)
+        && params_lock && CRYPTO_THREAD_write_lock(params_lock);
+}
+
 void gost_param_free()
 {
     int i;
@@ -27,6 +43,9 @@ void gost_param_free()
         gost_params[i] = NULL;
     }
 
+    CRYPTO_THREAD_lock_free(params_lock);
+    params_lock = NULL;
+    params_lock_once = params_lock_new;
 }
 
 int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void))
@@ -43,18 +62,19 @@ int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void))
 const char *get_gost_engine_param(int param)
 {
     char *tmp;
+    const char *ret;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return NULL;
-    if (gost_params[param] != NULL) {
-        return gost_params[param];
-    }
-    tmp = getenv(gost_envnames[param]);
-    if (tmp) {
-        OPENSSL_free(gost_params[param]);
-        gost_params[param] = BUF_strdup(tmp);
-        return gost_params[param];
+    if (!params_lock_take())
+        return NULL;
+    if (gost_params[param] == NULL) {
+        tmp = getenv(gost_envnames[param]);
+        if (tmp)
+            gost_params[param] = BUF_strdup(tmp);
     }
-    return NULL;
+    ret = gost_params[param];
+    CRYPTO_THREAD_unlock(params_lock);
+    return ret;
 }
 
 int gost_set_default_param(int param, const char *value)
@@ -70,8 +90,11 @@ int gost_set_default_param(int param, const char *value)
     if (!tmp) {
         tmp = value;
     }
+    if (!params_lock_take())
+        return 0;
     OPENSSL_free(gost_params[param]);
     gost_params[param] = BUF_strdup(tmp);
+    CRYPTO_THREAD_unlock(params_lock);
 
     return 1;
 }
-- 
2.43.0


From 2bf80b417deb2b4ff9fef4b8051596826170e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 071/115] fix: a new IV restarts the MAC of the CTR-ACPKM-OMAC
 ciphers

Initialising a CTR-ACPKM-OMAC context with an IV but no key starts the
encryption again, but the MAC went on with the data of the previous
message, so the tag of the second message covered the first one as well.
---
 gost_crypt.c              | 11 ++++++++++-
 gost_gost2015.c           | 18 ++++++++++++++++++
 gost_gost2015.h           |  1 +
 gost_grasshopper_cipher.c |  8 ++++++++
 4 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 42af87e..07497ba 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -523,8 +523,9 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
 static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                       const unsigned char *iv, int enc)
 {
+	struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
 	if (key) {
-    struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 		unsigned char cipher_key[32];
 
 		EVP_MD_CTX_free(c->omac_ctx);
@@ -545,6 +546,14 @@ static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned
 		return magma_cipher_init(ctx, cipher_key, iv, enc);
 	}
 
+	/* The encryption starts again with the same key, and so does the MAC */
+	if (c->omac_ctx != NULL
+	    && gost2015_acpkm_omac_restart(NID_magma_mac, c->omac_ctx) != 1) {
+		EVP_MD_CTX_free(c->omac_ctx);
+		c->omac_ctx = NULL;
+		return 0;
+	}
+
 	return magma_cipher_init(ctx, key, iv, enc);
 }
 
diff --git a/gost_gost2015.c b/gost_gost2015.c
index 3b994f5..dfc4be2 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -201,6 +201,24 @@ end:
     return ret;
 }
 
+int gost2015_acpkm_omac_restart(int nid, EVP_MD_CTX *omac_ctx)
+{
+    int ret = 0;
+    const EVP_MD *md = EVP_get_digestbynid(nid);
+    EVP_PKEY *mac_key = EVP_PKEY_CTX_get0_pkey(EVP_MD_CTX_get_pkey_ctx(omac_ctx));
+
+    if (md == NULL || mac_key == NULL || EVP_PKEY_up_ref(mac_key) <= 0)
+        return 0;
+
+    if (EVP_MD_CTX_reset(omac_ctx) > 0
+        && EVP_DigestInit_ex(omac_ctx, md, NULL) > 0
+        && EVP_DigestSignInit(omac_ctx, NULL, md, NULL, mac_key) > 0)
+        ret = 1;
+
+    EVP_PKEY_free(mac_key);
+    return ret;
+}
+
 int init_zero_kdf_seed(unsigned char *kdf_seed)
 {
     int is_zero_kdfseed = 1, i;
diff --git a/gost_gost2015.h b/gost_gost2015.h
index 37b94d0..6473a26 100644
--- a/gost_gost2015.h
+++ b/gost_gost2015.h
@@ -79,6 +79,7 @@ int gost2015_process_unprotected_attributes(STACK_OF(X509_ATTRIBUTE) *attrs,
 int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
                              EVP_MD_CTX *omac_ctx,
                              unsigned char *outkey, unsigned char *kdf_seed);
+int gost2015_acpkm_omac_restart(int nid, EVP_MD_CTX *omac_ctx);
 int init_zero_kdf_seed(unsigned char *kdf_seed);
 
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 90171a7..4897b6e 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -382,6 +382,14 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
         return gost_grasshopper_cipher_init(ctx, cipher_key, iv, enc);
     }
 
+    /* The encryption starts again with the same key, and so does the MAC */
+    if (c->omac_ctx != NULL
+        && gost2015_acpkm_omac_restart(NID_kuznyechik_mac, c->omac_ctx) != 1) {
+        EVP_MD_CTX_free(c->omac_ctx);
+        c->omac_ctx = NULL;
+        return 0;
+    }
+
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
 }
 
-- 
2.43.0


From 19051ee96cb23d78fdd505975b0dadf335f155b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:19 +0000
Subject: [PATCH 072/115] fix: keep the odd bits of a GOST 28147-89 MAC whose
 length is not whole bytes

The mask of the last byte was computed by a comparison instead of a shift,
so it was always 0 and the last bits of such a MAC were lost.
---
 gost89.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost89.c b/gost89.c
index c103e72..94f7b73 100644
--- a/gost89.c
+++ b/gost89.c
@@ -687,7 +687,7 @@ void get_mac(byte * buffer, int nbits, byte * out)
 {
     int nbytes = nbits >> 3;
     int rembits = nbits & 7;
-    int mask = rembits ? ((1 < rembits) - 1) : 0;
+    int mask = rembits ? ((1 << rembits) - 1) : 0;
     int i;
     for (i = 0; i < nbytes; i++)
         out[i] = buffer[i];
-- 
2.43.0


From 60ff6483f8d757af0f34e3b96f707731e6d8b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 073/115] fix: unloading the engine takes its algorithm names
 back

The methods that bind_gost_engine() enters with EVP_add_digest() and
EVP_add_cipher() are freed when the engine is destroyed, but their names
stayed, so that a later lookup by name returned freed memory.
---
 gost_eng.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/gost_eng.c b/gost_eng.c
index 7ca5523..1ae44da 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -299,9 +299,34 @@ static int gost_engine_finish(ENGINE* e) {
 
 static void free_NIDs();
 
+/*
+ * Take back a name that EVP_add_digest() or EVP_add_cipher() entered, unless
+ * another method has taken it over since.
+ */
+static void forget_name(const char *name, int type, const void *method)
+{
+    if (name != NULL && method != NULL
+        && (const void *)OBJ_NAME_get(name, type) == method)
+        OBJ_NAME_remove(name, type);
+}
+
+static void forget_names(int nid, int type, const void *method)
+{
+    forget_name(OBJ_nid2sn(nid), type, method);
+    forget_name(OBJ_nid2ln(nid), type, method);
+}
+
 static int gost_engine_destroy(ENGINE* e) {
     int i;
 
+    /* The methods below are about to be freed, nobody may find them */
+    for (i = 0; i < OSSL_NELEM(gost_digest_array); i++)
+        forget_names(gost_digest_array[i]->nid, OBJ_NAME_TYPE_MD_METH,
+                     gost_digest_array[i]->digest);
+    for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++)
+        forget_names(gost_cipher_array[i]->nid, OBJ_NAME_TYPE_CIPHER_METH,
+                     gost_cipher_array[i]->cipher);
+
     for (i = 0; i < OSSL_NELEM(gost_digest_array); i++)
         GOST_deinit_digest(gost_digest_array[i]);
     for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++)
-- 
2.43.0


From c90d8742bec8def861f665341c7b96b58393342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 074/115] fix: let several library contexts load the provider

The object identifiers, the ENGINE methods and the algorithm descriptions
exist once, but every provider context set them up and tore them down:
the second load overwrote what the first had allocated, and unloading one
context freed descriptions that contexts of the other still used, and
freed the same objects again with the other.
---
 gost_prov.c | 76 ++++++++++++++++++++++++++++++++++++++++++++++-------
 gost_prov.h |  2 ++
 2 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/gost_prov.c b/gost_prov.c
index eab5918..66c2979 100644
--- a/gost_prov.c
+++ b/gost_prov.c
@@ -42,10 +42,24 @@ void ERR_GOST_error(int function, int reason, char *file, int line)
  *
  *****/
 
+/*
+ * The provider may be loaded into several library contexts.  The algorithm
+ * descriptions and the ENGINE exist only once, they are shared by all the
+ * provider contexts listed here, and go with the last of them.
+ */
+static PROV_CTX *provider_ctxs;
+static const CRYPTO_ONCE ctxs_lock_new = CRYPTO_ONCE_STATIC_INIT;
+static CRYPTO_ONCE ctxs_lock_once = CRYPTO_ONCE_STATIC_INIT;
+static CRYPTO_RWLOCK *ctxs_lock;
+
+static void ctxs_lock_init(void)
+{
+    ctxs_lock = CRYPTO_THREAD_lock_new();
+}
+
 static void provider_ctx_free(PROV_CTX *ctx)
 {
     if (ctx != NULL) {
-        ENGINE_free(ctx->e);
         proverr_free_handle(ctx->proverr_handle);
         OSSL_LIB_CTX_free(ctx->libctx);
     }
@@ -53,6 +67,56 @@ static void provider_ctx_free(PROV_CTX *ctx)
 }
 
 extern int populate_gost_engine(ENGINE *e);
+static int provider_ctx_link(PROV_CTX *ctx)
+{
+    if (!CRYPTO_THREAD_run_once(&ctxs_lock_once, ctxs_lock_init)
+        || ctxs_lock == NULL
+        || !CRYPTO_THREAD_write_lock(ctxs_lock))
+        return 0;
+    if (provider_ctxs != NULL) {
+        ctx->e = provider_ctxs->e;
+    } else if ((ctx->e = ENGINE_new()) != NULL
+               && !populate_gost_engine(ctx->e)) {
+        ENGINE_free(ctx->e);
+        ctx->e = NULL;
+    }
+    if (ctx->e != NULL) {
+        ctx->next = provider_ctxs;
+        provider_ctxs = ctx;
+
+        /* Ugly hack */
+        err_handle = ctx->proverr_handle;
+    }
+    CRYPTO_THREAD_unlock(ctxs_lock);
+    return ctx->e != NULL;
+}
+
+static void provider_ctx_unlink(PROV_CTX *ctx)
+{
+    PROV_CTX **p;
+    int last;
+
+    if (!CRYPTO_THREAD_write_lock(ctxs_lock))
+        return;
+    for (p = &provider_ctxs; *p != ctx; p = &(*p)->next)
+        continue;
+    *p = ctx->next;
+    last = provider_ctxs == NULL;
+    err_handle = last ? NULL : provider_ctxs->proverr_handle;
+    if (last) {
+        GOST_prov_deinit_ciphers();
+        GOST_prov_deinit_digests();
+        GOST_prov_deinit_mac_digests();
+        ENGINE_free(ctx->e);
+    }
+    CRYPTO_THREAD_unlock(ctxs_lock);
+    if (last) {
+        CRYPTO_THREAD_lock_free(ctxs_lock);
+        ctxs_lock = NULL;
+        ctxs_lock_once = ctxs_lock_new;
+    }
+}
+
 static PROV_CTX *provider_ctx_new(const OSSL_CORE_HANDLE *core,
                                   const OSSL_DISPATCH *in)
 {
@@ -61,12 +125,8 @@ static PROV_CTX *provider_ctx_new(const OSSL_CORE_HANDLE *core,
     if ((ctx = OPENSSL_zalloc(sizeof(*ctx))) != NULL
         && (ctx->proverr_handle = proverr_new_handle(core, in)) != NULL
         && (ctx->libctx = OSSL_LIB_CTX_new()) != NULL
-        && (ctx->e = ENGINE_new()) != NULL
-        && populate_gost_engine(ctx->e)) {
+        && provider_ctx_link(ctx)) {
         ctx->core_handle = core;
-
-        /* Ugly hack */
-        err_handle = ctx->proverr_handle;
     } else {
         provider_ctx_free(ctx);
         ctx = NULL;
@@ -123,9 +183,7 @@ static const OSSL_ITEM *gost_get_reason_strings(void *provctx)
 /* The function that tears down this provider */
 static void gost_teardown(void *vprovctx)
 {
-    GOST_prov_deinit_ciphers();
-    GOST_prov_deinit_digests();
-    GOST_prov_deinit_mac_digests();
+    provider_ctx_unlink(vprovctx);
     provider_ctx_free(vprovctx);
 }
 
diff --git a/gost_prov.h b/gost_prov.h
index c7f6e66..a18cb34 100644
--- a/gost_prov.h
+++ b/gost_prov.h
@@ -23,5 +23,7 @@ struct provider_ctx_st {
      * to do this.
      */
     ENGINE *e;
+
+    struct provider_ctx_st *next;
 };
 typedef struct provider_ctx_st PROV_CTX;
-- 
2.43.0


From 820225306ef7860d685f2086abdbffa55553584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 075/115] fix: OMAC of a provider outside the default library
 context

The MACs looked their block cipher up by name in the default library
context, and failed with "cipher not found" when the provider was loaded
in another one only.
---
 gost_omac.c       | 32 ++++++++++++++++++++++----------
 gost_omac_acpkm.c | 11 +++++------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index c6bbe93..593fe8c 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -152,6 +152,23 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
     return ret;
 }
 
+/*
+ * The block cipher of the MAC.  It is our own, there is no need to look it up:
+ * the provider that offers it may be loaded in another library context only.
+ */
+static const EVP_CIPHER *omac_cipher(const OMAC_CTX *c)
+{
+    if (c->cipher_name == NULL)
+        return NULL;
+    switch (OBJ_txt2nid(c->cipher_name)) {
+    case NID_magma_cbc:
+        return GOST_init_cipher(&magma_cbc_cipher);
+    case NID_grasshopper_cbc:
+        return GOST_init_cipher(&grasshopper_cbc_cipher);
+    }
+    return NULL;
+}
+
 /* Called directly by gost_kexp15() */
 int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
 {
@@ -163,7 +180,7 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
         {
             OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
             const EVP_MD *md = EVP_MD_CTX_md(ctx);
-            EVP_CIPHER *cipher = NULL;
+            const EVP_CIPHER *cipher = NULL;
             int ret = 0;
 
             if (c->cipher_name == NULL) {
@@ -172,10 +189,7 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 else if (EVP_MD_nid(md) == NID_grasshopper_mac)
                     c->cipher_name = SN_grasshopper_cbc;
             }
-            if ((cipher =
-                 (EVP_CIPHER *)EVP_get_cipherbyname(c->cipher_name)) == NULL
-                && (cipher =
-                    EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)) == NULL) {
+            if ((cipher = omac_cipher(c)) == NULL) {
                 GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_CIPHER_NOT_FOUND);
                 goto set_key_end;
             }
@@ -205,7 +219,6 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             }
             GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_INVALID_MAC_KEY_SIZE);
           set_key_end:
-            EVP_CIPHER_free(cipher);
             if (ret > 0)
                 return ret;
             return 0;
@@ -248,11 +261,10 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 if (gost_tlstree(OBJ_txt2nid(c->cipher_name),
                                  c->key, diversed_key,
                                  (const unsigned char *)ptr)) {
-                    EVP_CIPHER *cipher;
-                    if ((cipher = (EVP_CIPHER *)EVP_get_cipherbyname(c->cipher_name))
-                        || (cipher = EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)))
+                    const EVP_CIPHER *cipher = omac_cipher(c);
+
+                    if (cipher != NULL)
                         ret = omac_key(c, cipher, diversed_key, 32);
-                    EVP_CIPHER_free(cipher);
                 }
                 return ret;
             }
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 4cb95d7..e64c0b0 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -426,7 +426,7 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
         {
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
             const EVP_MD *md = EVP_MD_CTX_md(ctx);
-            EVP_CIPHER *cipher = NULL;
+            const EVP_CIPHER *cipher = NULL;
             int ret = 0;
 
             if (c->cipher_name == NULL) {
@@ -434,10 +434,10 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                     || EVP_MD_is_a(md, SN_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac))
                     c->cipher_name = SN_grasshopper_cbc;
             }
-            if ((cipher =
-                 (EVP_CIPHER *)EVP_get_cipherbyname(c->cipher_name)) == NULL
-                && (cipher =
-                    EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)) == NULL) {
+            /* Our own cipher, whatever library context we are loaded in */
+            if (c->cipher_name == NULL
+                || OBJ_txt2nid(c->cipher_name) != NID_grasshopper_cbc
+                || (cipher = GOST_init_cipher(&grasshopper_cbc_cipher)) == NULL) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_CIPHER_NOT_FOUND);
                 goto set_key_end;
             }
@@ -460,7 +460,6 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             }
             GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_INVALID_MAC_KEY_SIZE);
           set_key_end:
-            EVP_CIPHER_free(cipher);
             return ret;
         }
     case EVP_CTRL_KEY_MESH:
-- 
2.43.0


From f3bb8f14d9291e7a0c073df38752708fb82f1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 076/115] fix: do not lose an engine parameter when memory runs
 out

---
 gost_ctl.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index ed2a3e3..f120918 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -61,7 +61,7 @@ int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void))
 
 const char *get_gost_engine_param(int param)
 {
-    char *tmp;
+    char *tmp = NULL;
     const char *ret;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return NULL;
@@ -72,7 +72,7 @@ const char *get_gost_engine_param(int param)
         if (tmp)
             gost_params[param] = BUF_strdup(tmp);
     }
-    ret = gost_params[param];
+    ret = gost_params[param] ? gost_params[param] : tmp;
     CRYPTO_THREAD_unlock(params_lock);
     return ret;
 }
@@ -80,6 +80,7 @@ const char *get_gost_engine_param(int param)
 int gost_set_default_param(int param, const char *value)
 {
     const char *tmp;
+    char *copy = NULL;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return 0;
     tmp = getenv(gost_envnames[param]);
@@ -90,10 +91,14 @@ int gost_set_default_param(int param, const char *value)
     if (!tmp) {
         tmp = value;
     }
-    if (!params_lock_take())
+    if (tmp && (copy = BUF_strdup(tmp)) == NULL)
+        return 0;
+    if (!params_lock_take()) {
+        OPENSSL_free(copy);
         return 0;
+    }
     OPENSSL_free(gost_params[param]);
-    gost_params[param] = BUF_strdup(tmp);
+    gost_params[param] = copy;
     CRYPTO_THREAD_unlock(params_lock);
 
     return 1;
-- 
2.43.0


From ff96ba6b8c731e76d6095cf7b61ea42726b421c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 077/115] fix: NULL dereference in verification when memory
 runs out

---
 gost_pmeth.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index d86936b..e687747 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -575,7 +575,13 @@ ECDSA_SIG *unpack_cp_signature(const unsigned char *sigbuf, size_t siglen)
     }
     s = BN_bin2bn(sigbuf, siglen / 2, NULL);
     r = BN_bin2bn(sigbuf + siglen / 2, siglen / 2, NULL);
-    ECDSA_SIG_set0(sig, r, s);
+    if (r == NULL || s == NULL || !ECDSA_SIG_set0(sig, r, s)) {
+        GOSTerr(GOST_F_UNPACK_CP_SIGNATURE, ERR_R_MALLOC_FAILURE);
+        BN_free(r);
+        BN_free(s);
+        ECDSA_SIG_free(sig);
+        return NULL;
+    }
     return sig;
 }
 
-- 
2.43.0


From 0dbdc666596477e898089dd62b97437268d652be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 078/115] fix: report failures while a key is printed

---
 gost_ameth.c | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 7864171..d7bacc3 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -760,15 +760,16 @@ static int print_gost_priv(BIO *out, const EVP_PKEY *pkey, int indent)
 
     if (!BIO_indent(out, indent, 128))
         return 0;
-    BIO_printf(out, "Private key: ");
+    if (BIO_printf(out, "Private key: ") <= 0)
+        return 0;
     key = gost_get0_priv_key(pkey);
-    if (!key)
-        BIO_printf(out, "<undefined>");
-    else
-        BN_print(out, key);
-    BIO_printf(out, "\n");
+    if (!key) {
+        if (BIO_printf(out, "<undefined>") <= 0)
+            return 0;
+    } else if (!BN_print(out, key))
+        return 0;
 
-    return 1;
+    return BIO_printf(out, "\n") > 0;
 }
 
 static int print_gost_ec_pub(BIO *out, const EVP_PKEY *pkey, int indent)
@@ -798,19 +799,17 @@ static int print_gost_ec_pub(BIO *out, const EVP_PKEY *pkey, int indent)
         GOSTerr(GOST_F_PRINT_GOST_EC_PUB, ERR_R_EC_LIB);
         goto err;
     }
-    if (!BIO_indent(out, indent, 128))
-        goto err;
-    BIO_printf(out, "Public key:\n");
-    if (!BIO_indent(out, indent + 3, 128))
+    if (!BIO_indent(out, indent, 128)
+        || BIO_printf(out, "Public key:\n") <= 0
+        || !BIO_indent(out, indent + 3, 128)
+        || BIO_printf(out, "X:") <= 0
+        || !BN_print(out, X)
+        || BIO_printf(out, "\n") <= 0
+        || !BIO_indent(out, indent + 3, 128)
+        || BIO_printf(out, "Y:") <= 0
+        || !BN_print(out, Y)
+        || BIO_printf(out, "\n") <= 0)
         goto err;
-    BIO_printf(out, "X:");
-    BN_print(out, X);
-    BIO_printf(out, "\n");
-    if (!BIO_indent(out, indent + 3, 128))
-        goto err;
-    BIO_printf(out, "Y:");
-    BN_print(out, Y);
-    BIO_printf(out, "\n");
     ok = 1;
  err:
     BN_CTX_end(ctx);
@@ -831,9 +830,8 @@ static int print_gost_ec_param(BIO *out, const EVP_PKEY *pkey, int indent)
     param_nid = EC_GROUP_get_curve_name(group);
     if (!BIO_indent(out, indent, 128))
         return 0;
-    BIO_printf(out, "Parameter set: %s\n", OBJ_nid2ln(param_nid));
 
-    return 1;
+    return BIO_printf(out, "Parameter set: %s\n", OBJ_nid2ln(param_nid)) > 0;
 }
 
 static int print_gost_ec(BIO *out, const EVP_PKEY *pkey, int indent,
-- 
2.43.0


From d597d7ce8f79ced0952748fd1d3d160075e3b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 079/115] fix: CTR-ACPKM-OMAC must not use a MAC that was not
 calculated

---
 gost_gost2015.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index dfc4be2..b929458 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -23,7 +23,8 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
     memset(calculated_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
 
     if (EVP_CIPHER_CTX_encrypting(ctx)) {
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, encrypted_mac, calculated_mac, mac_size) <= 0) {
             return -1;
@@ -32,7 +33,8 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
         unsigned char expected_mac[KUZNYECHIK_MAC_MAX_SIZE];
 
         memset(expected_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, expected_mac, encrypted_mac, mac_size) <= 0) {
             return -1;
-- 
2.43.0


From c970cd5d8dd584d11cec5d062bc1df32b2ee2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:32 +0000
Subject: [PATCH 080/115] fix: CTR-ACPKM-OMAC must not skip data its MAC could
 not take

---
 gost_crypt.c              | 10 ++++++----
 gost_grasshopper_cipher.c | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 07497ba..9ed6f98 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -894,15 +894,17 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
       return -1;
 
 	/* As in and out can be the same pointer, process unencrypted here */
-	if (EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+	if (EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+		return -1;
 
   if (magma_cipher_do_ctr(ctx, out, in, inl) != inl)
       return -1;
 
 	/* As in and out can be the same pointer, process decrypted here */
-	if (!EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+	if (!EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+		return -1;
 
 	return inl;
 }
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 4897b6e..32370db 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -755,8 +755,9 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
         return -1;
     }
     /* As in and out can be the same pointer, process unencrypted here */
-    if (EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+    if (EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+        return -1;
 
     if (in == NULL && inl == 0) { /* Final call */
         return gost2015_final_call(ctx, c->omac_ctx, KUZNYECHIK_MAC_MAX_SIZE, c->tag, gost_grasshopper_cipher_do_ctracpkm);
@@ -769,8 +770,9 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
     result = gost_grasshopper_cipher_do_ctracpkm(ctx, out, in, inl);
 
     /* As in and out can be the same pointer, process decrypted here */
-    if (!EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+    if (!EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+        return -1;
 
     return result;
 }
-- 
2.43.0


From 15901c5b4e9bd0575bf91cf216044a3e7d278f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:32 +0000
Subject: [PATCH 081/115] fix: a CTR-ACPKM-OMAC context that cannot be copied
 is not copied

---
 gost_crypt.c              | 2 +-
 gost_grasshopper_cipher.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 9ed6f98..b58605f 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1378,7 +1378,7 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
 					GOSTerr(GOST_F_MAGMA_CIPHER_CTL_ACPKM_OMAC, ERR_R_MALLOC_FAILURE);
-					return -1;
+					return 0;
 				}
 			}
 			return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 32370db..8ae4c82 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1248,7 +1248,7 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
                 GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL, ERR_R_MALLOC_FAILURE);
-                return -1;
+                return 0;
             }
         }
         return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
-- 
2.43.0


From 78f93286fd97174020ddba07eaa1c0c5917000e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:32 +0000
Subject: [PATCH 082/115] fix: OMAC must not deliver a value that was not
 calculated

---
 gost_omac.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_omac.c b/gost_omac.c
index 593fe8c..248d1f3 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -91,7 +91,8 @@ static int omac_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
         return 0;
     }
 
-    CMAC_Final(c->cmac_ctx, mac, &mac_size);
+    if (CMAC_Final(c->cmac_ctx, mac, &mac_size) <= 0)
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
     return 1;
-- 
2.43.0


From fc4140f9545b719cab4f013877aa8575180c3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:32 +0000
Subject: [PATCH 083/115] fix: NULL dereference when an OMAC context is copied
 and memory runs out

---
 gost_omac.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 248d1f3..3a991a6 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -118,10 +118,14 @@ static int omac_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
         }
         return 1;
     }
-    if (c_to->cmac_ctx == c_from->cmac_ctx) {
+    if (c_to->cmac_ctx == c_from->cmac_ctx || c_to->cmac_ctx == NULL)
         c_to->cmac_ctx = CMAC_CTX_new();
+    if (c_to->cmac_ctx == NULL
+        || !CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx)) {
+        c_to->key_set = 0;
+        return 0;
     }
-    return CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx);
+    return 1;
 }
 
 /* Clean up imit ctx */
-- 
2.43.0


From d757bf9c46ff0f760223b5cb80849b06d19e10ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:25 +0000
Subject: [PATCH 084/115] fix: signed and enveloped messages without their
 algorithms when memory runs out

pkey_ctrl_gost did not look at the result of X509_ALGOR_set0: a message
whose signature algorithm, digest or key transport algorithm could not be
stored was reported as made, and could not be read by anyone.
---
 gost_ameth.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index d7bacc3..9379340 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -458,8 +458,9 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
         if (arg1 == 0) {
             PKCS7_SIGNER_INFO_get0_algs((PKCS7_SIGNER_INFO *)arg2, NULL,
                                         &alg1, &alg2);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0);
-            X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0)
+                || !X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                return -1;
         }
         return 1;
 #ifndef OPENSSL_NO_CMS
@@ -467,8 +468,9 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
         if (arg1 == 0) {
             CMS_SignerInfo_get0_algs((CMS_SignerInfo *)arg2, NULL, NULL,
                                      &alg1, &alg2);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0);
-            X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0)
+                || !X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                return -1;
         }
         return 1;
 #endif
@@ -479,8 +481,11 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
                 return -1;
             }
             PKCS7_RECIP_INFO_get0_alg((PKCS7_RECIP_INFO *)arg2, &alg1);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(EVP_PKEY_id(pkey)),
-                            V_ASN1_SEQUENCE, params);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(EVP_PKEY_id(pkey)),
+                                 V_ASN1_SEQUENCE, params)) {
+                ASN1_STRING_free(params);
+                return -1;
+            }
 				}
         return 1;
 #ifndef OPENSSL_NO_CMS
@@ -523,7 +528,10 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
 
           CMS_RecipientInfo_ktri_get0_algs((CMS_RecipientInfo *)arg2, NULL,
               NULL, &alg1);
-          X509_ALGOR_set0(alg1, OBJ_nid2obj(nid), V_ASN1_SEQUENCE, params);
+          if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(nid), V_ASN1_SEQUENCE, params)) {
+              ASN1_STRING_free(params);
+              return -1;
+          }
         } else {
           EVP_PKEY_CTX *pctx;
           CMS_RecipientInfo *ri = arg2;
-- 
2.43.0


From 0faff229d5174b5e0bdb578d59872e722a38c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:25 +0000
Subject: [PATCH 085/115] fix: a private key whose encoding failed was written
 empty

With GOST_PK_FORMAT set to LEGACY_PK_WRAP, priv_encode_gost stored an
empty key, and reported success, when the OCTET STRING around the key
could not be encoded. The key and its parameters were also lost when they
could not be stored.
---
 gost_ameth.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 9379340..1f58078 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -753,12 +753,26 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         ASN1_STRING_free(octet);
         OPENSSL_secure_free(buf);
 
-        return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                               priv_buf, priv_len);
+        if (priv_len <= 0) {
+            ASN1_STRING_free(params);
+            return 0;
+        }
+        if (!PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
+                             priv_buf, priv_len)) {
+            ASN1_STRING_free(params);
+            OPENSSL_clear_free(priv_buf, priv_len);
+            return 0;
+        }
+        return 1;
     }
 
-    return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                           buf, key_len);
+    if (!PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
+                         buf, key_len)) {
+        ASN1_STRING_free(params);
+        OPENSSL_secure_clear_free(buf, key_len);
+        return 0;
+    }
+    return 1;
 }
 
 /* --------- printing keys --------------------------------*/
-- 
2.43.0


From 8a8f3fd3ac951a09c3befe51f042182a13209da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:57 +0000
Subject: [PATCH 086/115] fix: a masked private key read as another key when
 memory runs out

unmask_priv_key did not look at the result of the multiplication by a
mask, nor whether the mask was there: the key was read as a different one,
without an error.
---
 gost_ameth.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 1f58078..afd661c 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -598,11 +598,16 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
         for (; p != buf; p -= len) {
             BIGNUM *mask = BN_lebin2bn(p, len, BN_secure_new());
             BN_CTX *ctx = BN_CTX_secure_new();
-
-            BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
+            int ok = mask != NULL && ctx != NULL
+                && BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
 
             BN_CTX_free(ctx);
-            BN_free(mask);
+            BN_clear_free(mask);
+            if (!ok) {
+                BN_clear_free(pknum_masked);
+                pknum_masked = NULL;
+                goto end;
+            }
         }
     }
 
-- 
2.43.0


From 0cd209473b5bd67ac0bfadbbdf02364f6563ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 087/115] fix: half of a signature lost when memory runs out

gost_ec_sign did not free the copy of one half of the signature when the
other could not be made.
---
 gost_ec_sign.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index d734d0b..f1ab585 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -333,6 +333,8 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     new_r = BN_dup(r);
     if (!new_s || !new_r) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
+        BN_free(new_s);
+        BN_free(new_r);
         goto err;
     }
     ECDSA_SIG_set0(newsig, new_r, new_s);
-- 
2.43.0


From 795e55a09b56d5eb94e82153754c9d796a6d5375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 088/115] fix: a number lost when a private key is read and
 memory runs out

BN_lebin2bn does not free the number it was given when it fails.
---
 gost_ameth.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index afd661c..002a28e 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -571,6 +571,17 @@ static void pkey_free_gost_ec(EVP_PKEY *key)
 
 /* ------------------ private key functions  -----------------------------*/
 
+static BIGNUM *secure_lebin2bn(const unsigned char *buf, int len)
+{
+    BIGNUM *bn = BN_secure_new();
+
+    if (bn != NULL && BN_lebin2bn(buf, len, bn) == NULL) {
+        BN_free(bn);
+        return NULL;
+    }
+    return bn;
+}
+
 static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
                                const unsigned char *buf, int len, int num_masks)
 {
@@ -578,7 +589,7 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
     const EC_KEY *key_ptr = (pk) ? EVP_PKEY_get0(pk) : NULL;
     const EC_GROUP *group = (key_ptr) ? EC_KEY_get0_group(key_ptr) : NULL;
 
-    pknum_masked = BN_lebin2bn(buf, len, BN_secure_new());
+    pknum_masked = secure_lebin2bn(buf, len);
     if (!pknum_masked)
         return NULL;
 
@@ -596,7 +607,7 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
         }
 
         for (; p != buf; p -= len) {
-            BIGNUM *mask = BN_lebin2bn(p, len, BN_secure_new());
+            BIGNUM *mask = secure_lebin2bn(p, len);
             BN_CTX *ctx = BN_CTX_secure_new();
             int ok = mask != NULL && ctx != NULL
                 && BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
@@ -659,7 +670,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-        pk_num = BN_lebin2bn(s->data, s->length, BN_secure_new());
+        pk_num = secure_lebin2bn(s->data, s->length);
         ASN1_STRING_free(s);
     } else if (V_ASN1_INTEGER == *p) {
         priv_key = d2i_ASN1_INTEGER(NULL, &p, priv_len);
-- 
2.43.0


From b61308e73cc2268f7743d9b87c14a1507f655e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 089/115] fix: a string lost when cipher parameters are written
 and memory runs out

---
 gost_crypt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index b58605f..48761bf 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1424,6 +1424,7 @@ static int gost89_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     os = ASN1_OCTET_STRING_new();
 
     if (!os || !ASN1_OCTET_STRING_set(os, buf, len)) {
+        ASN1_OCTET_STRING_free(os);
         OPENSSL_free(buf);
         GOSTerr(GOST_F_GOST89_SET_ASN1_PARAMETERS, ERR_R_MALLOC_FAILURE);
         return 0;
-- 
2.43.0


From 426e15f887654b35c74740b07fa7f8e083a7af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 090/115] fix: a MAC context lost when a CTR-ACPKM-OMAC context
 cannot be copied

EVP_CIPHER_CTX_copy() does not run the cipher's clean-up for a copy whose
EVP_CTRL_COPY failed.
---
 gost_crypt.c              | 8 +++++++-
 gost_grasshopper_cipher.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 48761bf..e0fafe6 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1381,7 +1381,13 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
 					return 0;
 				}
 			}
-			return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
+			if (!EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx)) {
+				/* the caller does not clean up a copy that was not made */
+				EVP_MD_CTX_free(out_cctx->omac_ctx);
+				out_cctx->omac_ctx = NULL;
+				return 0;
+			}
+			return 1;
 		}
 		default:
 			return magma_cipher_ctl(ctx, type, arg, ptr);
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 8ae4c82..efc7dea 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1251,7 +1251,13 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
                 return 0;
             }
         }
-        return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
+        if (!EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx)) {
+            /* the caller does not clean up a copy that was not made */
+            EVP_MD_CTX_free(out_cctx->omac_ctx);
+            out_cctx->omac_ctx = NULL;
+            return 0;
+        }
+        return 1;
     }
     default:
         GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL,
-- 
2.43.0


From bc042921e7a83f10bdac4acf6dfeefdb6a1fce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 091/115] fix: a number lost when an INTEGER private key is
 read and memory runs out

ASN1_INTEGER_to_BN does not free the number it was given when it fails.
---
 gost_ameth.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 002a28e..928a5ee 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -673,12 +673,17 @@ static int priv_decode_gost(EVP_PKEY *pk,
         pk_num = secure_lebin2bn(s->data, s->length);
         ASN1_STRING_free(s);
     } else if (V_ASN1_INTEGER == *p) {
+        BIGNUM *num;
+
         priv_key = d2i_ASN1_INTEGER(NULL, &p, priv_len);
         if (!priv_key) {
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-        pk_num = ASN1_INTEGER_to_BN(priv_key, BN_secure_new());
+        num = BN_secure_new();
+        pk_num = num != NULL ? ASN1_INTEGER_to_BN(priv_key, num) : NULL;
+        if (pk_num == NULL)
+            BN_free(num);
         ASN1_INTEGER_free(priv_key);
     } else if ((V_ASN1_SEQUENCE | V_ASN1_CONSTRUCTED) == *p) {
         MASKED_GOST_KEY *mgk = d2i_MASKED_GOST_KEY(NULL, &p, priv_len);
-- 
2.43.0


From 0204e7864a219cbddf3b349b9c757c37894b45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 092/115] fix: an ephemeral key lost when a key is encrypted
 and memory runs out

The EC_KEY of the ephemeral key was not freed when it could not be put into
an EVP_PKEY.
---
 gost_ec_keyx.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 0e3fd4b..c77a221 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -336,9 +336,15 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     } else {
         key_is_ephemeral = 1;
         if (out) {
+            EC_KEY *ec = EC_KEY_new();
+
             sec_key = EVP_PKEY_new();
-            if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
-                || !EVP_PKEY_copy_parameters(sec_key, pubk)
+            if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), ec)) {
+                EC_KEY_free(ec);
+                GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, ERR_R_MALLOC_FAILURE);
+                goto err;
+            }
+            if (!EVP_PKEY_copy_parameters(sec_key, pubk)
                 || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
                 GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT,
                         GOST_R_ERROR_COMPUTING_SHARED_KEY);
@@ -480,6 +486,8 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     sec_key = EVP_PKEY_CTX_get0_peerkey(pctx);
     if (!sec_key)
     {
+      EC_KEY *ec = NULL;
+
       sec_key = EVP_PKEY_new();
       if (sec_key == NULL) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE );
@@ -487,8 +495,13 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
       }
       key_is_ephemeral = 1;
 
-      if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
-          || !EVP_PKEY_copy_parameters(sec_key, pubk)
+      ec = EC_KEY_new();
+      if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), ec)) {
+        EC_KEY_free(ec);
+        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE );
+        goto err;
+      }
+      if (!EVP_PKEY_copy_parameters(sec_key, pubk)
           || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT,
             GOST_R_ERROR_COMPUTING_SHARED_KEY);
-- 
2.43.0


From b6f4cf6574e24be96744bfb843a72b398c1c1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:57 +0000
Subject: [PATCH 093/115] fix: NULL dereference when the provider's MAC context
 cannot be made

EVP_MAC_CTX_new() calls the freectx function also when newctx has returned
NULL.
---
 gost_prov_mac.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index d4ec056..37c3fa2 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -69,6 +69,9 @@ static void mac_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    if (gctx == NULL)
+        return;
+
     /*
      * We don't free gctx->digest here.
      * That will be done by the provider teardown, via
-- 
2.43.0


From 88d980e54864a7d5e82233b9f9da02cded9c3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:57 +0000
Subject: [PATCH 094/115] fix: the provider's contexts that could not be
 duplicated

A cipher or digest context whose contents could not be copied was handed
out as a duplicate, without key and data.
---
 gost_prov_cipher.c | 6 ++++--
 gost_prov_digest.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index fd851a1..5afcc20 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -94,8 +94,10 @@ static void *cipher_dupctx(void *vsrc)
     GOST_CTX *dst =
         cipher_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_CIPHER_CTX_copy(dst->cctx, src->cctx);
+    if (dst != NULL && EVP_CIPHER_CTX_copy(dst->cctx, src->cctx) <= 0) {
+        cipher_freectx(dst);
+        return NULL;
+    }
     return dst;
 }
 
diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index bd2228b..06c2b7a 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -86,8 +86,10 @@ static void *digest_dupctx(void *vsrc)
     GOST_CTX *dst =
         digest_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst != NULL && EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+        digest_freectx(dst);
+        return NULL;
+    }
     return dst;
 }
 
-- 
2.43.0


From d5f3a86e3b8666edbb158d8b9d24bce2638a8025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:58 +0000
Subject: [PATCH 095/115] fix: NULL dereference when a MAC context without its
 state is freed

---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index e0fafe6..7d78a4a 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1683,7 +1683,8 @@ static int gost_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
 /* Clean up imit ctx */
 static int gost_imit_cleanup(EVP_MD_CTX *ctx)
 {
-    memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(struct ossl_gost_imit_ctx));
+    if (EVP_MD_CTX_md_data(ctx))
+        memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(struct ossl_gost_imit_ctx));
     return 1;
 }
 /* vim: set expandtab cinoptions=\:0,l1,t0,g0,(0 sw=4 : */
-- 
2.43.0


From 8c16731312af291cf5d049e972a86f542fee59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:43 +0000
Subject: [PATCH 096/115] fix: the names of the MGM ciphers freed in part when
 memory runs out

---
 gost_eng.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_eng.c b/gost_eng.c
index 1ae44da..16ef0e6 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -369,7 +369,7 @@ static int create_NIDs() {
             ASN1_OBJECT_create(new_nid + i, NULL, 0, job->sn, job->ln);
         job->asn1 = obj;
         if (!obj || OBJ_add_object(obj) == NID_undef) {
-            OPENSSL_free(obj);
+            free_NIDs();
             return 0;
         }
         (*missing_NIDs[i]->callback)(new_nid + i);
@@ -381,6 +381,7 @@ static void free_NIDs() {
     int i;
     for (i = 0; i < OSSL_NELEM(missing_NIDs); i++) {
         ASN1_OBJECT_free(missing_NIDs[i]->asn1);
+        missing_NIDs[i]->asn1 = NULL;
     }
 }
 
-- 
2.43.0


From 27bc52f099baa35dd30d406f018a24d21bc29331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:43 +0000
Subject: [PATCH 097/115] fix: an engine that could not be loaded left its
 methods behind

---
 gost_eng.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/gost_eng.c b/gost_eng.c
index 16ef0e6..3bf494e 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -502,9 +502,26 @@ static int check_gost_engine(ENGINE* e, const char* id)
 
 static int make_gost_engine(ENGINE* e, const char* id)
 {
-    return check_gost_engine(e, id)
-        && populate_gost_engine(e)
-        && bind_gost_engine(e);
+    struct gost_meth_minfo *minfo;
+
+    if (!check_gost_engine(e, id))
+        return 0;
+    if (populate_gost_engine(e) && bind_gost_engine(e))
+        return 1;
+
+    /*
+     * Nothing may be left behind: OpenSSL neither calls the destroy function
+     * of an engine that could not be bound nor keeps its module in memory.
+     */
+    ENGINE_unregister_ciphers(e);
+    ENGINE_unregister_digests(e);
+    ENGINE_unregister_pkey_meths(e);
+    for (minfo = gost_meth_array; minfo->nid; minfo++) {
+        EVP_PKEY_meth_free(*minfo->pmeth);
+        EVP_PKEY_asn1_free(*minfo->ameth);
+    }
+    gost_engine_destroy(e);
+    return 0;
 }
 
 #ifndef BUILDING_ENGINE_AS_LIBRARY
-- 
2.43.0


From ef400e0875cf3b6c3bd07f92d9eac55136c8ced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:43 +0000
Subject: [PATCH 098/115] fix: a digest without its other name when memory runs
 out

---
 gost_md.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gost_md.c b/gost_md.c
index b8824eb..275fcd3 100644
--- a/gost_md.c
+++ b/gost_md.c
@@ -64,8 +64,10 @@ EVP_MD *GOST_init_digest(GOST_digest *d)
         EVP_MD_meth_free(md);
         md = NULL;
     }
-    if (md && d->alias)
-        EVP_add_digest_alias(EVP_MD_name(md), d->alias);
+    if (md && d->alias && !EVP_add_digest_alias(EVP_MD_name(md), d->alias)) {
+        EVP_MD_meth_free(md);
+        md = NULL;
+    }
     d->digest = md;
     return md;
 }
-- 
2.43.0


From ef69269369f438ee8b1f2d3139e51ef1cf4d1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:02 +0000
Subject: [PATCH 099/115] fix: keys and parameters unusable for good when
 memory ran out at their first use

---
 gost_ctl.c     | 13 +++++++++++++
 gost_ec_sign.c | 13 +++++++++++++
 gost_eng.c     |  2 ++
 gost_lcl.h     |  2 ++
 4 files changed, 30 insertions(+)

diff --git a/gost_ctl.c b/gost_ctl.c
index f120918..747e00f 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -34,6 +34,19 @@ static int params_lock_take(void)
         && params_lock && CRYPTO_THREAD_write_lock(params_lock);
 }
 
+/*
+ * Called while the engine is loaded, before it is used: a lock that cannot be
+ * made later would be missing for good.
+ */
+int gost_param_init(void)
+{
+    if (CRYPTO_THREAD_run_once(&params_lock_once, params_lock_init)
+        && params_lock)
+        return 1;
+    params_lock_once = params_lock_new;
+    return 0;
+}
+
 void gost_param_free()
 {
     int i;
diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index f1ab585..f2dec3a 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -68,6 +68,19 @@ static void group_lock_init(void)
     group_lock = CRYPTO_THREAD_lock_new();
 }
 
+/*
+ * Called while the engine is loaded, before it is used: a lock that cannot be
+ * made later would be missing for good.
+ */
+int init_cached_groups(void)
+{
+    if (CRYPTO_THREAD_run_once(&group_lock_once, group_lock_init)
+        && group_lock)
+        return 1;
+    group_lock_once = group_lock_new;
+    return 0;
+}
+
 void free_cached_groups()
 {
     R3410_ec_params *params;
diff --git a/gost_eng.c b/gost_eng.c
index 3bf494e..2a16e94 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -435,6 +435,8 @@ int populate_gost_engine(ENGINE* e) {
         || !ENGINE_set_finish_function(e, gost_engine_finish)) {
         goto end;
     }
+    if (!gost_param_init() || !init_cached_groups())
+        goto end;
 
     /*
      * "register" in "register_ameth_gost" and "register_pmeth_gost" is
diff --git a/gost_lcl.h b/gost_lcl.h
index ffa8c76..bfa3af4 100644
--- a/gost_lcl.h
+++ b/gost_lcl.h
@@ -44,12 +44,14 @@ typedef struct R3410_ec {
 extern R3410_ec_params R3410_2001_paramset[],
     *R3410_2012_256_paramset, R3410_2012_512_paramset[];
 
+int init_cached_groups(void);
 void free_cached_groups(void);
 
 extern const ENGINE_CMD_DEFN gost_cmds[];
 int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void));
 const char *get_gost_engine_param(int param);
 int gost_set_default_param(int param, const char *value);
+int gost_param_init(void);
 void gost_param_free(void);
 
 /* method registration */
-- 
2.43.0


From c0524bffa9938810b1bcb49c383125ca04714050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:50 +0000
Subject: [PATCH 100/115] fix: a curve lost when a key is set up and memory
 runs out

---
 gost_ec_sign.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index f2dec3a..f9f51f7 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -207,6 +207,8 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
     }
     ok = 1;
  end:
+    if (grp != NULL && params->group != grp)
+        EC_GROUP_free(grp);
     CRYPTO_THREAD_unlock(group_lock);
     EC_POINT_free(P);
     BN_CTX_end(ctx);
-- 
2.43.0


From 9215f4d248965615ad8125b8fe29a7b779820714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:33 +0000
Subject: [PATCH 101/115] fix: NULL dereference when the engine is loaded and
 memory runs out

---
 gost_eng.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gost_eng.c b/gost_eng.c
index 2a16e94..d77200e 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -479,7 +479,9 @@ static int bind_gost_engine(ENGINE* e) {
     }
 
     for (i = 0; i < OSSL_NELEM(gost_digest_array); i++) {
-        if (!EVP_add_digest(GOST_init_digest(gost_digest_array[i])))
+        EVP_MD *md = GOST_init_digest(gost_digest_array[i]);
+
+        if (md == NULL || !EVP_add_digest(md))
             goto end;
     }
 
-- 
2.43.0


From 768a40e4079b831cdfba4c39cbe4f0d1f1312052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 102/115] fix: a MAC longer than the digest in use was returned
 with uninitialised bytes

pkey_gost_mac_signctx ignored the refusal of the MAC length, so a key of
size 16 used with magma-mac gave 8 bytes of MAC and 8 of whatever was in
the caller's buffer, reported as a success.
---
 gost_pmeth.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index e687747..4fea01b 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -1084,8 +1084,10 @@ static int pkey_gost_mac_signctx(EVP_PKEY_CTX *ctx, unsigned char *sig,
         return 1;
     }
 
-    EVP_MD_meth_get_ctrl(EVP_MD_CTX_md(mctx))
-        (mctx, EVP_MD_CTRL_XOF_LEN, data->mac_size, NULL);
+    /* the MAC in use may be shorter than the size set for the key */
+    if (EVP_MD_meth_get_ctrl(EVP_MD_CTX_md(mctx))
+        (mctx, EVP_MD_CTRL_XOF_LEN, data->mac_size, NULL) <= 0)
+        return 0;
     ret = EVP_DigestFinal_ex(mctx, sig, &tmpsiglen);
     *siglen = data->mac_size;
     return ret;
-- 
2.43.0


From e52266a9d2d7bdc4a41d6e66dd27a0a1a2077eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:46 +0000
Subject: [PATCH 103/115] fix: gostsum and gost12sum succeeded when their
 output was not written

The digests were left to the flush at exit, so that a full disk went
unnoticed; gost12sum -x also took unreadable standard input for an empty
list of names.
---
 gost12sum.c | 18 ++++++++++++++++--
 gostsum.c   | 14 ++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index c759e9c..746ee78 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -75,6 +75,16 @@ int finish_hash(gost_hash_ctx * ctx, byte * hashval)
     return 1;
 }
 
+/* Digests that were not written must not look like a success */
+static int flush_output(void)
+{
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("stdout");
+        return 0;
+    }
+    return 1;
+}
+
 int main(int argc, char **argv)
 {
     int c, i;
@@ -194,6 +204,10 @@ int main(int argc, char **argv)
                 printf("%s %s\n", sum, filename);
             }
         }
+        if (ferror(stdin)) {
+            perror("stdin");
+            errors++;
+        }
 
     } else if (optind == argc) {
         char sum[MAX_HASH_TXT_BYTES + 1];
@@ -202,7 +216,7 @@ int main(int argc, char **argv)
             exit(1);
         }
         printf("%s -\n", sum);
-        exit(0);
+        exit(flush_output() ? 0 : 1);
     } else {
         for (i = optind; i < argc; i++) {
             char sum[MAX_HASH_TXT_BYTES + 1];
@@ -213,7 +227,7 @@ int main(int argc, char **argv)
             }
         }
     }
-    exit(errors ? 1 : 0);
+    exit((errors || !flush_output()) ? 1 : 0);
 }
 
 int hash_file(gost_hash_ctx * ctx, char *filename, char *sum, int mode,
diff --git a/gostsum.c b/gostsum.c
index a7f0b54..8779907 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -48,6 +48,16 @@ void help()
 # define O_BINARY 0
 #endif
 
+/* Digests that were not written must not look like a success */
+static int flush_output(void)
+{
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("stdout");
+        return 0;
+    }
+    return 1;
+}
+
 int main(int argc, char **argv)
 {
     int c, i;
@@ -151,7 +161,7 @@ int main(int argc, char **argv)
             exit(1);
         }
         printf("%s -\n", sum);
-        exit(0);
+        exit(flush_output() ? 0 : 1);
     }
     for (i = optind; i < argc; i++) {
         char sum[65];
@@ -161,7 +171,7 @@ int main(int argc, char **argv)
             printf("%s %s\n", sum, argv[i]);
         }
     }
-    exit(errors ? 1 : 0);
+    exit((errors || !flush_output()) ? 1 : 0);
 }
 
 int hash_file(gost_hash_ctx * ctx, char *filename, char *sum, int mode)
-- 
2.43.0


From 8acae9f2d717e96f2c8ba087067452cfe9e8082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:38 +0000
Subject: [PATCH 104/115] fix: erase the keys that MAC key operations keep or
 convert

---
 gost_pmeth.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 4fea01b..1785d0a 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -686,7 +686,7 @@ static void pkey_gost_mac_cleanup(EVP_PKEY_CTX *ctx)
 {
     struct gost_mac_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
     if (data)
-        OPENSSL_free(data);
+        OPENSSL_clear_free(data, sizeof(*data));
 }
 
 static int pkey_gost_mac_copy(EVP_PKEY_CTX *dst, ossl3_const EVP_PKEY_CTX *src)
@@ -802,11 +802,12 @@ static int pkey_gost_mac_ctrl_str(EVP_PKEY_CTX *ctx,
         if (!keybuf || keylen != 32) {
             GOSTerr(GOST_F_PKEY_GOST_MAC_CTRL_STR,
                     GOST_R_INVALID_MAC_KEY_LENGTH);
-            OPENSSL_free(keybuf);
+            if (keybuf)
+                OPENSSL_clear_free(keybuf, keylen);
             return 0;
         }
         ret = pkey_gost_mac_ctrl(ctx, EVP_PKEY_CTRL_SET_MAC_KEY, 32, keybuf);
-        OPENSSL_free(keybuf);
+        OPENSSL_clear_free(keybuf, keylen);
         return ret;
 
     }
@@ -945,11 +946,12 @@ static int pkey_gost_omac_ctrl_str(EVP_PKEY_CTX *ctx,
         if (!keybuf || keylen != 32) {
             GOSTerr(GOST_F_PKEY_GOST_OMAC_CTRL_STR,
                     GOST_R_INVALID_MAC_KEY_LENGTH);
-            OPENSSL_free(keybuf);
+            if (keybuf)
+                OPENSSL_clear_free(keybuf, keylen);
             return 0;
         }
         ret = pkey_gost_mac_ctrl(ctx, EVP_PKEY_CTRL_SET_MAC_KEY, 32, keybuf);
-        OPENSSL_free(keybuf);
+        OPENSSL_clear_free(keybuf, keylen);
         return ret;
 
     }
-- 
2.43.0


From 3ef5b7ae777cc6e528fdd3b6ba2ba90956321887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:38 +0000
Subject: [PATCH 105/115] fix: erase MAC keys when they are released

---
 gost_ameth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 928a5ee..98631c1 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1174,7 +1174,7 @@ static int pkey_size_gost(const EVP_PKEY *pk)
 /* ---------------------- ASN1 METHOD for GOST MAC  -------------------*/
 static void mackey_free_gost(EVP_PKEY *pk)
 {
-    OPENSSL_free(EVP_PKEY_get0(pk));
+    OPENSSL_clear_free(EVP_PKEY_get0(pk), sizeof(struct gost_mac_key));
 }
 
 static int mac_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
-- 
2.43.0


From b512b3c8dd6848f20581ec5442367586923cf6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:38 +0000
Subject: [PATCH 106/115] fix: erase the copies of a private key that its
 encoding makes

---
 gost_ameth.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 98631c1..427da72 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -743,13 +743,13 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
 
     if (!gost_get0_priv_key(pk)
         || !store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_secure_clear_free(buf, key_len);
         return 0;
     }
 
     params = encode_gost_algor_params(pk);
     if (!params) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_secure_clear_free(buf, key_len);
         return 0;
     }
 
@@ -765,14 +765,14 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         int priv_len = 0;
         unsigned char *priv_buf = NULL;
         if (!octet || !ASN1_OCTET_STRING_set(octet, buf, key_len)) {
-            ASN1_STRING_free(octet);
+            ASN1_STRING_clear_free(octet);
             ASN1_STRING_free(params);
-            OPENSSL_secure_free(buf);
+            OPENSSL_secure_clear_free(buf, key_len);
             return 0;
         }
         priv_len = i2d_ASN1_OCTET_STRING(octet, &priv_buf);
-        ASN1_STRING_free(octet);
-        OPENSSL_secure_free(buf);
+        ASN1_STRING_clear_free(octet);
+        OPENSSL_secure_clear_free(buf, key_len);
 
         if (priv_len <= 0) {
             ASN1_STRING_free(params);
-- 
2.43.0


From 73931f764bb342627e9292d8c951ee5aca260d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:38 +0000
Subject: [PATCH 107/115] fix: erase the copies of a private key that its
 decoding makes

---
 gost_ameth.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 427da72..2389b55 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -666,12 +666,12 @@ static int priv_decode_gost(EVP_PKEY *pk,
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
         if (!s || s->length != expected_key_len) {
-            ASN1_STRING_free(s);
+            ASN1_STRING_clear_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
         pk_num = secure_lebin2bn(s->data, s->length);
-        ASN1_STRING_free(s);
+        ASN1_STRING_clear_free(s);
     } else if (V_ASN1_INTEGER == *p) {
         BIGNUM *num;
 
@@ -684,7 +684,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         pk_num = num != NULL ? ASN1_INTEGER_to_BN(priv_key, num) : NULL;
         if (pk_num == NULL)
             BN_free(num);
-        ASN1_INTEGER_free(priv_key);
+        ASN1_STRING_clear_free(priv_key);
     } else if ((V_ASN1_SEQUENCE | V_ASN1_CONSTRUCTED) == *p) {
         MASKED_GOST_KEY *mgk = d2i_MASKED_GOST_KEY(NULL, &p, priv_len);
 
-- 
2.43.0


From 4fc90abfb1813ee750595c9d535e353698b4afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:38 +0000
Subject: [PATCH 108/115] fix: erase the point a key agreement computes

---
 gost_ec_keyx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index c77a221..5f2d177 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -36,7 +36,7 @@ int VKO_compute_key(unsigned char *shared_key,
     BN_CTX *ctx = NULL;
     EVP_MD_CTX *mdctx = NULL;
     const EVP_MD *md = NULL;
-    int buf_len, half_len;
+    int buf_len = 0, half_len;
     int ret = 0;
 
     if ((ctx = BN_CTX_secure_new()) == NULL) {
@@ -124,9 +124,9 @@ int VKO_compute_key(unsigned char *shared_key,
  err:
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
-    EC_POINT_free(pnt);
+    EC_POINT_clear_free(pnt);
     EVP_MD_CTX_free(mdctx);
-    OPENSSL_free(databuf);
+    OPENSSL_clear_free(databuf, buf_len);
 
     return ret;
 }
-- 
2.43.0


From 08823221b036ab3efb3c98ddf4b6b2ca56c9bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:05 +0000
Subject: [PATCH 109/115] fix: erase a masked private key after it is decoded

---
 gost_ameth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index 2389b55..11ea856 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -695,6 +695,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
 
         priv_len = mgk->masked_priv_key->length;
         if (priv_len == 0 || priv_len % expected_key_len) {
+            OPENSSL_cleanse(mgk->masked_priv_key->data, priv_len);
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
@@ -703,6 +704,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         pk_num = unmask_priv_key(pk, mgk->masked_priv_key->data,
                                  expected_key_len,
                                  priv_len / expected_key_len - 1);
+        OPENSSL_cleanse(mgk->masked_priv_key->data, priv_len);
         MASKED_GOST_KEY_free(mgk);
     } else {
         GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
-- 
2.43.0


From 6e6b4e77c0120072ad9e7c9fbe86fd05241efead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:59 +0000
Subject: [PATCH 110/115] fix: compare the MAC of a wrapped key in constant
 time

---
 gost_keywrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_keywrap.c b/gost_keywrap.c
index a2134c2..7d251c5 100644
--- a/gost_keywrap.c
+++ b/gost_keywrap.c
@@ -8,6 +8,7 @@
  *                  Doesn't need OpenSSL                              *
  **********************************************************************/
 #include <string.h>
+#include <openssl/crypto.h>
 #include "gost89.h"
 #include "gost_keywrap.h"
 
@@ -100,7 +101,7 @@ int keyUnwrapCryptoPro(gost_ctx * ctx, const unsigned char *keyExchangeKey,
     gost_key(ctx, kek_ukm);
     gost_dec(ctx, wrappedKey + 8, sessionKey, 4);
     gost_mac_iv(ctx, 32, wrappedKey, sessionKey, 32, cek_mac);
-    if (memcmp(cek_mac, wrappedKey + 40, 4)) {
+    if (CRYPTO_memcmp(cek_mac, wrappedKey + 40, 4)) {
         return 0;
     }
     return 1;
-- 
2.43.0


From 34b4368f80f86a22da6f6286b373e01e66369677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:59 +0000
Subject: [PATCH 111/115] fix: multiply in the field of MGM without branches on
 secret bits

---
 gost_crypt.c              | 17 ++++---------
 gost_grasshopper_cipher.c | 50 ++++++++++++---------------------------
 2 files changed, 19 insertions(+), 48 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 7d78a4a..0e87db0 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -596,22 +596,13 @@ static void gf64_mul (uint64_t *result, uint64_t *arg1, uint64_t *arg2)
 #endif
 
 	for (i = 0; i < 63; i++) {
-		if (t & 0x1) {
-			Z0 ^= X0;
-		}
+		/* both factors depend on the key: no branches on their bits */
+		Z0 ^= X0 & (0 - (t & 0x1));
 		t >>= 1;
-		if (X0 & 0x8000000000000000) {
-			X0 <<= 1;
-			X0 ^= 0x1b;
-		}
-		else {
-			X0 <<= 1;
-		}
+		X0 = (X0 << 1) ^ (0x1b & (0 - (X0 >> 63)));
 	}
 
-	if (t & 0x1) {
-		Z0 ^= X0;
-	}
+	Z0 ^= X0 & (0 - (t & 0x1));
 
 #ifdef L_ENDIAN
 	*(result) = BSWAP64(Z0);
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index efc7dea..0ef4149 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -413,7 +413,7 @@ void gost_grasshopper_encrypt_wrap(unsigned char *in, unsigned char *out,
 static void gf128_mul_uint64 (uint64_t *result, uint64_t *arg1, uint64_t *arg2)
 {
 	int i = 0;
-	register uint64_t t, X0, X1;
+	register uint64_t t, X0, X1, carry;
 	uint64_t Z0 = 0, Z1 = 0;
 
 #ifdef L_ENDIAN
@@ -432,22 +432,13 @@ static void gf128_mul_uint64 (uint64_t *result, uint64_t *arg1, uint64_t *arg2)
 #endif
 
 	for (i = 0; i < 64; i++) {
-		if (t & 0x1) {
-			Z0 ^= X0;
-			Z1 ^= X1;
-		}
+		/* both factors depend on the key: no branches on their bits */
+		Z0 ^= X0 & (0 - (t & 0x1));
+		Z1 ^= X1 & (0 - (t & 0x1));
 		t >>= 1;
-		if (X1 & 0x8000000000000000) {
-			X1 <<= 1;
-			X1 ^= X0>>63;
-			X0 <<= 1;
-			X0 ^= 0x87;
-		}
-		else {
-			X1 <<= 1;
-			X1 ^= X0>>63;
-			X0 <<= 1;
-		}
+		carry = 0 - (X1 >> 63);
+		X1 = (X1 << 1) ^ (X0 >> 63);
+		X0 = (X0 << 1) ^ (0x87 & carry);
 	}
 
 	//second 64 bits of arg2
@@ -458,28 +449,17 @@ static void gf128_mul_uint64 (uint64_t *result, uint64_t *arg1, uint64_t *arg2)
 #endif
 
 	for (i = 0; i < 63; i++) {
-		if (t & 0x1) {
-			Z0 ^= X0;
-			Z1 ^= X1;
-		}
+		/* both factors depend on the key: no branches on their bits */
+		Z0 ^= X0 & (0 - (t & 0x1));
+		Z1 ^= X1 & (0 - (t & 0x1));
 		t >>= 1;
-		if (X1 & 0x8000000000000000) {
-			X1 <<= 1;
-			X1 ^= X0>>63;
-			X0 <<= 1;
-			X0 ^= 0x87;
-		}
-		else {
-			X1 <<= 1;
-			X1 ^= X0>>63;
-			X0 <<= 1;
-		}
+		carry = 0 - (X1 >> 63);
+		X1 = (X1 << 1) ^ (X0 >> 63);
+		X0 = (X0 << 1) ^ (0x87 & carry);
 	}
 
-	if (t & 0x1) {
-		Z0 ^= X0;
-		Z1 ^= X1;
-	}
+	Z0 ^= X0 & (0 - (t & 0x1));
+	Z1 ^= X1 & (0 - (t & 0x1));
 
 #ifdef L_ENDIAN
 	result[0] = BSWAP64(Z1);
-- 
2.43.0


From af344a8eeb16094c04ffb364bf37a659727508c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:59 +0000
Subject: [PATCH 112/115] fix: expand Kuznyechik keys without branches on key
 bytes

---
 gost_grasshopper_math.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gost_grasshopper_math.h b/gost_grasshopper_math.h
index 91f276f..8508677 100644
--- a/gost_grasshopper_math.h
+++ b/gost_grasshopper_math.h
@@ -125,12 +125,11 @@ extern uint8_t grasshopper_galois_alpha_to[256];
 extern uint8_t grasshopper_galois_index_of[256];
 
 static GRASSHOPPER_INLINE uint8_t grasshopper_galois_mul(uint8_t x, uint8_t y) {
-    if (likely(x != 0 && y != 0)) {
-        return grasshopper_galois_alpha_to[(grasshopper_galois_index_of[x] + grasshopper_galois_index_of[y]) %
-                                         GRASSHOPPER_GALOIS_FIELD_SIZE];
-    } else {
-        return 0;
-    }
+    /* x depends on the key: zero factors are masked, not branched upon */
+    uint8_t nonzero = (uint8_t)(0 - ((x != 0) & (y != 0)));
+
+    return nonzero & grasshopper_galois_alpha_to[(grasshopper_galois_index_of[x] + grasshopper_galois_index_of[y]) %
+                                                 GRASSHOPPER_GALOIS_FIELD_SIZE];
 }
 
 #if defined(__cplusplus)
-- 
2.43.0


From a33b0e4edf04ec95c53b6624886335c393df613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:45 +0000
Subject: [PATCH 113/115] fix: increment MGM counters without branches on their
 value

---
 gost_grasshopper_cipher.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 0ef4149..27e0e67 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -583,17 +583,16 @@ static int gost_grasshopper_cipher_do_cbc(EVP_CIPHER_CTX *ctx, unsigned char *ou
 
 void inc_counter(unsigned char *counter, size_t counter_bytes)
 {
-    unsigned int n = counter_bytes;
+    size_t n = counter_bytes;
+    unsigned int carry = 1;
 
-    do {
-        unsigned char c;
+    /* MGM counters are secret: the carry goes through all of the bytes */
+    while (n > 0) {
         --n;
-        c = counter[n];
-        ++c;
-        counter[n] = c;
-        if (c)
-            return;
-    } while (n);
+        carry += counter[n];
+        counter[n] = (unsigned char)carry;
+        carry >>= 8;
+    }
 }
 
 /* increment counter (128-bit int) by 1 */
-- 
2.43.0


From 0f3803a4e74dc3c798a79e84f567f2aed5a0823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:45 +0000
Subject: [PATCH 114/115] fix: make OMAC-ACPKM subkeys without branches on
 secret bits

---
 gost_omac_acpkm.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index e64c0b0..e604f48 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -44,15 +44,13 @@ static unsigned char zero_iv[ACPKM_T_MAX];
 static void make_kn(unsigned char *k1, unsigned char *l, int bl)
 {
     int i;
+    unsigned char carry = l[0] >> 7;
     /* Shift block to left, including carry */
-    for (i = 0; i < bl; i++) {
-        k1[i] = l[i] << 1;
-        if (i < bl - 1 && l[i + 1] & 0x80)
-            k1[i] |= 1;
-    }
-    /* If MSB set fixup with R */
-    if (l[0] & 0x80)
-        k1[bl - 1] ^= bl == 16 ? 0x87 : 0x1b;
+    for (i = 0; i < bl - 1; i++)
+        k1[i] = (l[i] << 1) | (l[i + 1] >> 7);
+    k1[i] = l[i] << 1;
+    /* If MSB set fixup with R; the block is secret, so no branch on it */
+    k1[bl - 1] ^= (0 - carry) & (bl == 16 ? 0x87 : 0x1b);
 }
 
 static CMAC_ACPKM_CTX *CMAC_ACPKM_CTX_new(void)
-- 
2.43.0


From f4c28ed4848afa3a9f7ed3c315f64180fdddbd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:54 +0000
Subject: [PATCH 115/115] fix: make the methods of the provider before several
 threads can

The ciphers and digests are shared by the provider's instances in all
library contexts and were made at their first use without a lock: two
threads could make the same one, and one of the two was lost.
---
 gost_lcl.h         |  3 +++
 gost_prov.c        |  8 ++++++-
 gost_prov_cipher.c | 58 +++++++++++++++++++++++++++++-----------------
 gost_prov_digest.c | 30 ++++++++++++++++++------
 gost_prov_mac.c    | 34 ++++++++++++++++++++-------
 5 files changed, 95 insertions(+), 38 deletions(-)

diff --git a/gost_lcl.h b/gost_lcl.h
index bfa3af4..f29670e 100644
--- a/gost_lcl.h
+++ b/gost_lcl.h
@@ -58,6 +58,7 @@ void gost_param_free(void);
 
 /* Provider implementation data */
 extern const OSSL_ALGORITHM GOST_prov_macs[];
+int GOST_prov_init_mac_digests(void);
 void GOST_prov_deinit_mac_digests(void);
 
 int register_ameth_gost(int nid, EVP_PKEY_ASN1_METHOD **ameth,
@@ -368,6 +369,7 @@ extern GOST_cipher kuznyechik_kexp15_cipher;
 
 /* Provider implementation data */
 extern const OSSL_ALGORITHM GOST_prov_ciphers[];
+int GOST_prov_init_ciphers(void);
 void GOST_prov_deinit_ciphers(void);
 
 struct gost_digest_st {
@@ -403,6 +405,7 @@ extern GOST_digest kuznyechik_ctracpkm_omac_digest;
 
 /* Provider implementation data */
 extern const OSSL_ALGORITHM GOST_prov_digests[];
+int GOST_prov_init_digests(void);
 void GOST_prov_deinit_digests(void);
 
 /* job to initialize a missing NID */
diff --git a/gost_prov.c b/gost_prov.c
index 66c2979..43a421c 100644
--- a/gost_prov.c
+++ b/gost_prov.c
@@ -76,7 +76,13 @@ static int provider_ctx_link(PROV_CTX *ctx)
     if (provider_ctxs != NULL) {
         ctx->e = provider_ctxs->e;
     } else if ((ctx->e = ENGINE_new()) != NULL
-               && !populate_gost_engine(ctx->e)) {
+               && (!populate_gost_engine(ctx->e)
+                   || !GOST_prov_init_ciphers()
+                   || !GOST_prov_init_digests()
+                   || !GOST_prov_init_mac_digests())) {
+        GOST_prov_deinit_ciphers();
+        GOST_prov_deinit_digests();
+        GOST_prov_deinit_mac_digests();
         ENGINE_free(ctx->e);
         ctx->e = NULL;
     }
diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 5afcc20..945a91f 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -368,29 +368,45 @@ const OSSL_ALGORITHM GOST_prov_ciphers[] = {
     { NULL , NULL, NULL }
 };
 
-void GOST_prov_deinit_ciphers(void) {
-    static GOST_cipher *list[] = {
-        &Gost28147_89_cipher,
-        &Gost28147_89_cnt_cipher,
-        &Gost28147_89_cnt_12_cipher,
-        &Gost28147_89_cbc_cipher,
-        &grasshopper_ecb_cipher,
-        &grasshopper_cbc_cipher,
-        &grasshopper_cfb_cipher,
-        &grasshopper_ofb_cipher,
-        &grasshopper_ctr_cipher,
-        &magma_cbc_cipher,
-        &magma_ctr_cipher,
-        &magma_ctr_acpkm_cipher,
-        &magma_ctr_acpkm_omac_cipher,
-        &magma_mgm_cipher,
-        &grasshopper_ctr_acpkm_cipher,
-        &grasshopper_ctr_acpkm_omac_cipher,
-        &grasshopper_mgm_cipher,
-    };
-    size_t i;
+static GOST_cipher *list[] = {
+    &Gost28147_89_cipher,
+    &Gost28147_89_cnt_cipher,
+    &Gost28147_89_cnt_12_cipher,
+    &Gost28147_89_cbc_cipher,
+    &grasshopper_ecb_cipher,
+    &grasshopper_cbc_cipher,
+    &grasshopper_cfb_cipher,
+    &grasshopper_ofb_cipher,
+    &grasshopper_ctr_cipher,
+    &magma_cbc_cipher,
+    &magma_ctr_cipher,
+    &magma_ctr_acpkm_cipher,
+    &magma_ctr_acpkm_omac_cipher,
+    &magma_mgm_cipher,
+    &grasshopper_ctr_acpkm_cipher,
+    &grasshopper_ctr_acpkm_omac_cipher,
+    &grasshopper_mgm_cipher,
+};
 #define elems(l) (sizeof(l) / sizeof(l[0]))
 
+/*
+ * The methods are shared by all library contexts: they are made before the
+ * provider is used, for making them is not safe with several threads.
+ */
+int GOST_prov_init_ciphers(void)
+{
+    size_t i;
+
+    for (i = 0; i < elems(list); i++)
+        if (GOST_init_cipher(list[i]) == NULL)
+            return 0;
+    return 1;
+}
+
+void GOST_prov_deinit_ciphers(void)
+{
+    size_t i;
+
     for (i = 0; i < elems(list); i++)
         GOST_deinit_cipher(list[i]);
 }
diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 06c2b7a..2c04f2e 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -189,15 +189,31 @@ const OSSL_ALGORITHM GOST_prov_digests[] = {
     { NULL , NULL, NULL }
 };
 
-void GOST_prov_deinit_digests(void) {
-    static GOST_digest *list[] = {
-        &GostR3411_94_digest,
-        &GostR3411_2012_256_digest,
-        &GostR3411_2012_512_digest,
-    };
-    size_t i;
+static GOST_digest *list[] = {
+    &GostR3411_94_digest,
+    &GostR3411_2012_256_digest,
+    &GostR3411_2012_512_digest,
+};
 #define elems(l) (sizeof(l) / sizeof(l[0]))
 
+/*
+ * The methods are shared by all library contexts: they are made before the
+ * provider is used, for making them is not safe with several threads.
+ */
+int GOST_prov_init_digests(void)
+{
+    size_t i;
+
+    for (i = 0; i < elems(list); i++)
+        if (GOST_init_digest(list[i]) == NULL)
+            return 0;
+    return 1;
+}
+
+void GOST_prov_deinit_digests(void)
+{
+    size_t i;
+
     for (i = 0; i < elems(list); i++)
         GOST_deinit_digest(list[i]);
 }
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 37c3fa2..7a8e2ac 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -380,17 +380,33 @@ const OSSL_ALGORITHM GOST_prov_macs[] = {
     { NULL , NULL, NULL }
 };
 
-void GOST_prov_deinit_mac_digests(void) {
-    static GOST_digest *list[] = {
-        &Gost28147_89_MAC_digest,
-        &Gost28147_89_mac_12_digest,
-        &magma_mac_digest,
-        &grasshopper_mac_digest,
-        &kuznyechik_ctracpkm_omac_digest
-    };
-    size_t i;
+static GOST_digest *list[] = {
+    &Gost28147_89_MAC_digest,
+    &Gost28147_89_mac_12_digest,
+    &magma_mac_digest,
+    &grasshopper_mac_digest,
+    &kuznyechik_ctracpkm_omac_digest,
+};
 #define elems(l) (sizeof(l) / sizeof(l[0]))
 
+/*
+ * The methods are shared by all library contexts: they are made before the
+ * provider is used, for making them is not safe with several threads.
+ */
+int GOST_prov_init_mac_digests(void)
+{
+    size_t i;
+
+    for (i = 0; i < elems(list); i++)
+        if (GOST_init_digest(list[i]) == NULL)
+            return 0;
+    return 1;
+}
+
+void GOST_prov_deinit_mac_digests(void)
+{
+    size_t i;
+
     for (i = 0; i < elems(list); i++)
         GOST_deinit_digest(list[i]);
 }
-- 
2.43.0

