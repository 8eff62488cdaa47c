From 998da0c5e776220df2ae11f863f351be8596729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH] fix: ts_sign reads ctx->ps before rejecting a context that
 was never set up

---
 tiny_sphincs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny_sphincs.c b/tiny_sphincs.c
index eacb1f2..991e5c1 100644
--- a/tiny_sphincs.c
+++ b/tiny_sphincs.c
@@ -441,13 +441,13 @@ void ts_wots_leaf( unsigned char *output, int leaf_index,
 unsigned ts_sign( unsigned char *dest, unsigned m,
                   struct ts_context *ctx ) {
     unsigned orig_m = m;
-    unsigned n = ctx->ps->n;
 
     if (ctx->state <= ts_sign_state || ctx->state >= ts_verify_state) {
 	/* We've been handed an invalid context (or one that's been set */
 	/* up for verify) - don't do anything */
 	return 0;
     }
+    unsigned n = ctx->ps->n;
 
     while (m) {
 	/* If we have bytes left from the previous hash, given those to */
-- 
2.43.0

