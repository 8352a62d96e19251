From d1558af97d8fa2c6e42c3d9478024929de9bd4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:47 +0000
Subject: [PATCH] fix: report failure of SPHINCS+ signing from crypto_sign

crypto_sign ignored the return code of crypto_sign_signature: when the random
source failed it returned 0 and a length computed from an uninitialised
variable. Propagate the failure instead.
---
 sphincs/sign.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sphincs/sign.c b/sphincs/sign.c
index e01b7fd..4fcea22 100644
--- a/sphincs/sign.c
+++ b/sphincs/sign.c
@@ -254,7 +254,9 @@ int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(uint8_t *sm, size_t *smlen,
                 const uint8_t *sk) {
     size_t siglen;
 
-    crypto_sign_signature(sm, &siglen, m, mlen, sk);
+    if (crypto_sign_signature(sm, &siglen, m, mlen, sk) != 0) {
+        return -1;
+    }
 
     memmove(sm + SPX_BYTES, m, mlen);
     *smlen = siglen + mlen;
-- 
2.43.0

