From 358fd7260c983bba0ec628589e91ef2262cca907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 1/7] fix: free the expanded AES key if writing the output
 fails

scryptenc_file() and scryptdec_file_copy() returned SCRYPT_EWRFILE from
inside their main loop after freeing the AES-CTR stream but not the expanded
key it was using, leaving unzeroed key material allocated.
---
 lib/scryptenc/scryptenc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 5f87382..affbff8 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -627,6 +627,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 		HMAC_SHA256_Update(&hctx, buf, readlen);
 		if (fwrite(buf, 1, readlen, outfile) < readlen) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err1;
 		}
@@ -845,6 +846,7 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 		crypto_aesctr_stream(AES, buf, buf, buflen - 32);
 		if (fwrite(buf, 1, buflen - 32, outfile) < buflen - 32) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err0;
 		}
-- 
2.43.0


From d77ed4bb0132cf14594e4173ce484d8033d51b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 2/7] fix: report failure to write out buffered output

If closing the output file failed, scrypt printed a warning but exited with
status 0, and buffered data written to stdout was not checked at all; hence
'scrypt enc x /dev/full' claimed success.  Treat both as write errors.
---
 main.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index d4c106b..9427bc4 100644
--- a/main.c
+++ b/main.c
@@ -180,8 +180,13 @@ cleanup:
 	/* Close any files we opened. */
 	if ((infile != stdin) && fclose(infile))
 		warnp("fclose");
-	if ((outfile != stdout) && fclose(outfile))
-		warnp("fclose");
+	if ((outfile != stdout) ? fclose(outfile) : fflush(outfile)) {
+		/* Buffered data might not have been written. */
+		if (rc == SCRYPT_OK)
+			rc = SCRYPT_EWRFILE;
+		else
+			warnp("fclose");
+	}
 
 	/* If we failed, print the right error message and exit. */
 	if (rc != SCRYPT_OK) {
-- 
2.43.0


From b1caf630532a982ee87d29ff5241b3b8898afb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 3/7] fix: parsenum_float: NaN is not within the requested
 range

Both comparisons with a NaN are false, so '-m nan' was accepted (and later
failed an assertion in memtouse()), and '-t nan' silently turned the CPU time
limit off.
---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From abfe13169a34a2e514f25003234374b0e7b415fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 4/7] fix: refuse explicit parameters when decrypting

scryptdec_file_prep() asserts that logN, r, and p are unset, so specifying
them for 'scrypt dec' resulted in an assertion failure.
---
 main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.c b/main.c
index 9427bc4..8f3abea 100644
--- a/main.c
+++ b/main.c
@@ -351,6 +351,12 @@ main(int argc, char * argv[])
 		goto err0;
 	}
 
+	/* The parameters for decryption come from the encrypted file. */
+	if (dec && (params.logN != 0)) {
+		warn0("--logN, -r, and -p can only be set for encryption");
+		goto err0;
+	}
+
 	/* We can't have a maxmemfrac of 0. */
 	if (params.maxmemfrac == 0.0) {
 		warn0("-m must be greater than 0");
-- 
2.43.0


From 3c06956e571f851def8da89feeb22b6977342452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 5/7] fix: validate and compute displayed parameters without
 overflow

'scrypt info' displayed parameters from the (unauthenticated) header without
checking that logN is less than 64, resulting in an undefined shift; and the
minimum memory was computed with 128 * r reduced modulo 2^32, so headers with
a large r were reported as needing far less memory than they really do.
---
 lib/scryptenc/scryptenc.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index affbff8..4867ec6 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -72,8 +72,10 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
     double opps, double maxtime)
 {
 	uint64_t N = (uint64_t)(1) << logN;
-	uint64_t mem_minimum = 128 * r * N;
-	double expected_seconds = opps > 0 ? (double)(4 * N * r * p) / opps : 0;
+	uint64_t mem_minimum = ((r == 0) || (N <= UINT64_MAX / 128 / r)) ?
+	    (uint64_t)(128) * r * N : UINT64_MAX;
+	double expected_seconds = opps > 0 ?
+	    4.0 * (double)N * (double)r * (double)p / opps : 0;
 	char * human_memlimit = humansize(memlimit);
 	char * human_mem_minimum = humansize(mem_minimum);
 
@@ -334,6 +336,12 @@ scryptdec_file_printparams(FILE * infile)
 	r = be32dec(&header[8]);
 	p = be32dec(&header[12]);
 
+	/* Sanity-check N before computing it. */
+	if ((logN < 1) || (logN > 63)) {
+		rc = SCRYPT_EINVAL;
+		goto err0;
+	}
+
 	/* Print parameters. */
 	display_params(logN, r, p, 0, 0, 0);
 
-- 
2.43.0


From 542a3a428a075d62b8f6bc778077d457086441e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 6/7] fix: wipe the MAC state when encryption or decryption
 fails midway

The HMAC contexts of scryptenc_file and scryptdec_file_copy hold state
derived from the secret MAC key; HMAC_SHA256_Final wipes it, but the error
paths left it on the stack.
---
 lib/scryptenc/scryptenc.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 4867ec6..b74b375 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -612,7 +612,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 	HMAC_SHA256_Update(&hctx, header, 96);
 	if (fwrite(header, 96, 1, outfile) != 1) {
 		rc = SCRYPT_EWRFILE;
-		goto err1;
+		goto err2;
 	}
 
 	/*
@@ -621,12 +621,12 @@ scryptenc_file(FILE * infile, FILE * outfile,
 	 */
 	if ((key_enc_exp = crypto_aes_key_expand(key_enc, 32)) == NULL) {
 		rc = SCRYPT_EOPENSSL;
-		goto err1;
+		goto err2;
 	}
 	if ((AES = crypto_aesctr_init(key_enc_exp, 0)) == NULL) {
 		crypto_aes_key_free(key_enc_exp);
 		rc = SCRYPT_ENOMEM;
-		goto err1;
+		goto err2;
 	}
 	do {
 		if ((readlen = fread(buf, 1, ENCBLOCK, infile)) == 0)
@@ -637,7 +637,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 			crypto_aesctr_free(AES);
 			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
-			goto err1;
+			goto err2;
 		}
 	} while (1);
 	crypto_aesctr_free(AES);
@@ -646,14 +646,14 @@ scryptenc_file(FILE * infile, FILE * outfile,
 	/* Did we exit the loop due to a read error? */
 	if (ferror(infile)) {
 		rc = SCRYPT_ERDFILE;
-		goto err1;
+		goto err2;
 	}
 
 	/* Compute the final HMAC and output it. */
 	HMAC_SHA256_Final(hbuf, &hctx);
 	if (fwrite(hbuf, 32, 1, outfile) != 1) {
 		rc = SCRYPT_EWRFILE;
-		goto err1;
+		goto err2;
 	}
 
 	/* Zero sensitive data. */
@@ -662,6 +662,8 @@ scryptenc_file(FILE * infile, FILE * outfile,
 	/* Success! */
 	return (SCRYPT_OK);
 
+err2:
+	insecure_memzero(&hctx, sizeof(HMAC_SHA256_CTX));
 err1:
 	insecure_memzero(dk, 64);
 
@@ -889,6 +891,8 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 	return (SCRYPT_OK);
 
 err0:
+	insecure_memzero(&hctx, sizeof(HMAC_SHA256_CTX));
+
 	/* Failure! */
 	return (rc);
 }
-- 
2.43.0


From 5c595f93d58b84eae965e0fac2f19b7448cc7c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 7/7] fix: scrypt with p > 2^25 mixed the wrong blocks

The offset i * 128 was computed in 32 bits and wrapped for i >= 2^25, so
that the first blocks were mixed twice and the last ones not at all.
---
 lib-platform/crypto/crypto_scrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-platform/crypto/crypto_scrypt.c b/lib-platform/crypto/crypto_scrypt.c
index 6057f0a..3beabe8 100644
--- a/lib-platform/crypto/crypto_scrypt.c
+++ b/lib-platform/crypto/crypto_scrypt.c
@@ -63,7 +63,7 @@ crypto_scrypt_internal(const uint8_t * passwd, size_t passwdlen,
 	uint32_t * V;
 	uint32_t * XY;
 	size_t r = _r, p = _p;
-	uint32_t i;
+	size_t i;
 
 	/* Sanity-check parameters. */
 	if ((r == 0) || (p == 0)) {
-- 
2.43.0

