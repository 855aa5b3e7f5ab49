From 89ef2c7ef2b915f2a493e3061c02aad86e03dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 01/24] fix: fail generator creation when OS entropy cannot be
 read in full

RaRandomCreate() without a seed treated descriptor 0 as an error (and
leaked it), gave up on interrupted and short reads, and in every such
case silently went on with 32 zero bytes plus the clock.
---
 src/com/random.c | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/com/random.c b/src/com/random.c
index c7618da..eff58ba 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -15,6 +15,7 @@
 #		include <Windows.h>
 #		include <wincrypt.h>
 #else
+#	include <errno.h>
 #	include <fcntl.h>
 #	include <unistd.h>
 #	ifdef HAVE_TIMES
@@ -25,7 +26,7 @@
 #define RA_RAND_SEED_LEN		(32 + 4)
 
 static uint32_t RaRandomGetRandomSeed();
-static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN]);
+static int RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN]);
 
 static int RaRandomInit(struct RaRandom *ctx, enum RaRandomAlgorithm algorithm, uint8_t *seed, int seed_len);
 static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len);
@@ -82,7 +83,11 @@ static int RaRandomInit(struct RaRandom *ctx, enum RaRandomAlgorithm algorithm,
 	ctx->algorithm = algorithm;
 
 	if (seed == NULL) {
-		RaRandomGetRandomSeedBytes(default_seed);
+		result = RaRandomGetRandomSeedBytes(default_seed);
+		if (result != RA_ERR_SUCCESS) {
+			memset(default_seed, 0, RA_RAND_SEED_LEN);
+			return result;
+		}
 		seed = default_seed;
 		seed_len = RA_RAND_SEED_LEN;
 	}
@@ -137,11 +142,11 @@ static uint32_t RaRandomGetRandomSeed()
 	return seed * 1103515245 + 12345;
 }
 
-static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN])
+static int RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN])
 {
-	int result;
 	uint32_t seed;
 #ifdef _WIN32
+	int result;
 	HCRYPTPROV cryptProv;
 	result = CryptAcquireContext(&cryptProv, NULL, NULL, PROV_RSA_FULL, CRYPT_VERIFYCONTEXT | CRYPT_SILENT);
 	if (result) {
@@ -149,22 +154,30 @@ static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN
 		CryptReleaseContext(cryptProv, 0);
 	}
 	if (!result) {
-		memset(seedBytes, 0, RA_RAND_SEED_LEN - 4);
+		return RA_ERR_INVALID_DATA;
 	}
 #else
 	int fd;
 	int size;
-	result = RA_ERR_INVALID_DATA;
-	fd = open("/dev/urandom", O_RDONLY);
-	if (fd > 0) {
-		size = read(fd, seedBytes, RA_RAND_SEED_LEN - 4);
-		if (size == RA_RAND_SEED_LEN - 4) {
-			result = RA_ERR_SUCCESS;
+	int offset = 0;
+	do {
+		fd = open("/dev/urandom", O_RDONLY);
+	} while (fd < 0 && errno == EINTR);
+	if (fd < 0) {
+		return RA_ERR_INVALID_DATA;
+	}
+	while (offset < RA_RAND_SEED_LEN - 4) {
+		size = (int)read(fd, seedBytes + offset, RA_RAND_SEED_LEN - 4 - offset);
+		if (size > 0) {
+			offset += size;
+		}
+		else if (size == 0 || errno != EINTR) {
+			break;
 		}
-		close(fd);
 	}
-	if (result != RA_ERR_SUCCESS) {
-		memset(seedBytes, 0, RA_RAND_SEED_LEN - 4);
+	close(fd);
+	if (offset != RA_RAND_SEED_LEN - 4) {
+		return RA_ERR_INVALID_DATA;
 	}
 #endif
 	seed = RaRandomGetRandomSeed();
@@ -172,6 +185,8 @@ static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN
 	seedBytes[RA_RAND_SEED_LEN - 3] = (uint8_t)(seed >> 16);
 	seedBytes[RA_RAND_SEED_LEN - 2] = (uint8_t)(seed >> 8);
 	seedBytes[RA_RAND_SEED_LEN - 1] = (uint8_t)(seed);
+
+	return RA_ERR_SUCCESS;
 }
 
 static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len)
-- 
2.43.0


From 904500ef4fda8cdb462f83f56d2182fff00be05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 02/24] fix: RaRandom() could return 0

The result is documented to lie strictly between 0 and 1.
---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index eff58ba..1a17173 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -259,7 +259,7 @@ double RaRandom(struct RaRandom *ctx)
 	do {
 		RaRandomBytes(ctx, 4, rnd_buffer);
 		rnd_val = (rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
-	} while (rnd_val == UINT32_MAX);
+	} while (rnd_val == 0 || rnd_val == UINT32_MAX);
 
 	return (double)rnd_val / UINT32_MAX;
 }
-- 
2.43.0


From bb93dc73e820a3ed807a7bdd662bad536c41886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 03/24] fix: RaRandomInt() over the whole 32-bit range always
 returned min

max - min + 1 wraps to 0 there.
---
 src/com/random.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/com/random.c b/src/com/random.c
index 1a17173..a706aee 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -251,14 +251,20 @@ void RaRandomBytes(struct RaRandom *ctx, int len, /*out*/uint8_t *buffer)
 	}
 }
 
+static uint32_t RaRandomUInt32(struct RaRandom *ctx)
+{
+	uint8_t rnd_buffer[4];
+
+	RaRandomBytes(ctx, 4, rnd_buffer);
+	return ((uint32_t)rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
+}
+
 double RaRandom(struct RaRandom *ctx)
 {
 	uint32_t rnd_val;
-	uint8_t rnd_buffer[4];
 
 	do {
-		RaRandomBytes(ctx, 4, rnd_buffer);
-		rnd_val = (rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
+		rnd_val = RaRandomUInt32(ctx);
 	} while (rnd_val == 0 || rnd_val == UINT32_MAX);
 
 	return (double)rnd_val / UINT32_MAX;
@@ -267,5 +273,9 @@ double RaRandom(struct RaRandom *ctx)
 uint32_t RaRandomInt(struct RaRandom *ctx, uint32_t min, uint32_t max)
 {
 	uint32_t range = max - min + 1;
+	if (range == 0) {
+		// min to max covers the whole 32-bit range
+		return RaRandomUInt32(ctx);
+	}
 	return min + (uint32_t)(range * RaRandom(ctx));
 }
-- 
2.43.0


From 3e48e0a6c0ef6cd26f326b77cf8ffcb1347f6fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 04/24] fix: wiping of released objects was optimised away

The memset() before free() in the Destroy functions is a dead store that
gcc and clang remove at -O2, so keys and states stayed in released
memory. Write through a volatile pointer instead.
---
 src/cipher/aes.c      |  3 ++-
 src/cipher/aria.c     |  3 ++-
 src/cipher/blowfish.c |  3 ++-
 src/cipher/des.c      |  3 ++-
 src/cipher/rc4.c      |  4 +++-
 src/cipher/seed.c     |  3 ++-
 src/com/bignumber.c   |  4 +++-
 src/com/clear.h       | 20 ++++++++++++++++++++
 src/com/montexpmod.c  |  4 +++-
 src/com/random.c      |  6 ++++--
 src/digest/has160.c   |  4 +++-
 src/digest/md2.c      |  4 +++-
 src/digest/md4.c      |  4 +++-
 src/digest/md5.c      |  4 +++-
 src/digest/sha1.c     |  4 +++-
 src/digest/sha2.c     |  4 +++-
 src/pk/rsa.c          |  3 ++-
 17 files changed, 63 insertions(+), 17 deletions(-)
 create mode 100644 src/com/clear.h

diff --git a/src/cipher/aes.c b/src/cipher/aes.c
index da5c555..bf5ea6d 100644
--- a/src/cipher/aes.c
+++ b/src/cipher/aes.c
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 
 #include "block_cipher.h"
+#include "../com/clear.h"
 
 // The lookup tables are generated by the following source code
 /*
@@ -364,7 +365,7 @@ int RaAesCreate(const uint8_t *key, enum RaAesKeyType keyType, enum RaBlockCiphe
 void RaAesDestroy(struct RaAesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAesCtx));
+		RaClearMemory(ctx, sizeof(struct RaAesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/aria.c b/src/cipher/aria.c
index 0a060d0..ef45bf6 100644
--- a/src/cipher/aria.c
+++ b/src/cipher/aria.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include "block_cipher.h"
+#include "../com/clear.h"
 
 // The lookup tables are generated by the following source code
 /*
@@ -358,7 +359,7 @@ int RaAriaCreate(const uint8_t *key, enum RaAriaKeyType keyType, enum RaBlockCip
 void RaAriaDestroy(struct RaAriaCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAriaCtx));
+		RaClearMemory(ctx, sizeof(struct RaAriaCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/blowfish.c b/src/cipher/blowfish.c
index 2c3707a..459fba2 100644
--- a/src/cipher/blowfish.c
+++ b/src/cipher/blowfish.c
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 
 #include "block_cipher.h"
+#include "../com/clear.h"
 
 // The lookup tables are generated by the following source code
 /*
@@ -317,7 +318,7 @@ int RaBlowfishCreate(const uint8_t *key, int keyLen, enum RaBlockCipherMode opMo
 void RaBlowfishDestroy(struct RaBlowfishCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaBlowfishCtx));
+		RaClearMemory(ctx, sizeof(struct RaBlowfishCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/des.c b/src/cipher/des.c
index 3d5a7f4..950fc5a 100644
--- a/src/cipher/des.c
+++ b/src/cipher/des.c
@@ -6,6 +6,7 @@
 #include <string.h>
 
 #include "block_cipher.h"
+#include "../com/clear.h"
 
 #define GET_UINT32_BE(b)		(uint32_t)(((b)[0] << 24)|((b)[1] << 16)|((b)[2] << 8)|(b)[3])
 #define PUT_UINT32_BE(b, v)		{ (b)[0] = (uint8_t)((v)>>24); (b)[1] = (uint8_t)((v)>>16); (b)[2] = (uint8_t)((v)>>8); (b)[3] = (uint8_t)(v); }
@@ -569,7 +570,7 @@ int RaDesCreate(const uint8_t *key, enum RaDesKeyType keyType, enum RaBlockCiphe
 void RaDesDestroy(struct RaDesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaDesCtx));
+		RaClearMemory(ctx, sizeof(struct RaDesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/rc4.c b/src/cipher/rc4.c
index 5f08f42..82327f0 100644
--- a/src/cipher/rc4.c
+++ b/src/cipher/rc4.c
@@ -5,6 +5,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "../com/clear.h"
+
 int RaRc4Create(const uint8_t* key, int keyLen, struct RaRc4Ctx** ctxp)
 {
 	struct RaRc4Ctx *ctx;
@@ -22,7 +24,7 @@ int RaRc4Create(const uint8_t* key, int keyLen, struct RaRc4Ctx** ctxp)
 void RaRc4Destroy(struct RaRc4Ctx* ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaRc4Ctx));
+		RaClearMemory(ctx, sizeof(struct RaRc4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/seed.c b/src/cipher/seed.c
index 7c8bd69..fc7dd80 100644
--- a/src/cipher/seed.c
+++ b/src/cipher/seed.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include "block_cipher.h"
+#include "../com/clear.h"
 
 // The lookup tables are generated by the following source code
 /*
@@ -322,7 +323,7 @@ int RaSeedCreate(const uint8_t *key, enum RaBlockCipherMode opMode, struct RaSee
 void RaSeedDestroy(struct RaSeedCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSeedCtx));
+		RaClearMemory(ctx, sizeof(struct RaSeedCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 48fffad..67f9ed1 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -9,6 +9,8 @@
 #include <stdlib.h>
 #include <assert.h>
 
+#include "clear.h"
+
 static int _BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b);
 static int _BnSub(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b);
 static int _BnCmp(struct RaBigNumber *a, struct RaBigNumber *b);
@@ -67,7 +69,7 @@ void BnFree(struct RaBigNumber * bn)
 
 void BnClearFree(struct RaBigNumber* bn)
 {
-	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
+	RaClearMemory(bn, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
 
diff --git a/src/com/clear.h b/src/com/clear.h
new file mode 100644
index 0000000..f330b95
--- /dev/null
+++ b/src/com/clear.h
@@ -0,0 +1,20 @@
+/* Copyright 2017, Keonwoo Kim. Licensed under the BSD 2-clause license. */
+
+#ifndef __RA_CLEAR_H__
+#define __RA_CLEAR_H__
+
+#include <stddef.h>
+
+/*
+* Zero memory that is about to be released.
+* The compiler removes a memset() before free() as a dead store, so write through a volatile pointer.
+*/
+static inline void RaClearMemory(void *data, size_t len)
+{
+	volatile unsigned char *p = (volatile unsigned char *)data;
+	while (len-- > 0) {
+		*p++ = 0;
+	}
+}
+
+#endif
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 7d6ad32..25d6bd5 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -6,6 +6,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "clear.h"
+
 struct RaMontCtx
 {
 	struct RaBigNumber *N;
@@ -129,7 +131,7 @@ void RaMontDestroy(struct RaMontCtx* ctx)
 		BnClearFree(ctx->BB);
 		BnClearFree(ctx->tmp);
 		BnClearFree(ctx->mul);
-		memset(ctx, 0, sizeof(struct RaMontCtx));
+		RaClearMemory(ctx, sizeof(struct RaMontCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/random.c b/src/com/random.c
index a706aee..e98d4e9 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -8,6 +8,8 @@
 #include <assert.h>
 #include <time.h>
 
+#include "clear.h"
+
 #ifdef _WIN32
 #		ifndef WIN32_LEAN_AND_MEAN
 #			define WIN32_LEAN_AND_MEAN
@@ -41,7 +43,7 @@ int RaRandomCreate(enum RaRandomAlgorithm algorithm, uint8_t *seed, int seed_len
 	}
 	result = RaRandomInit(ctx, algorithm, seed, seed_len);
 	if (result != RA_ERR_SUCCESS) {
-		memset(ctx, 0, sizeof(struct RaRandom));
+		RaClearMemory(ctx, sizeof(struct RaRandom));
 		free(ctx);
 		return result;
 	}
@@ -69,7 +71,7 @@ void RaRandomDestroy(struct RaRandom *ctx)
 				break;
 			}
 		}
-		memset(ctx, 0, sizeof(struct RaRandom));
+		RaClearMemory(ctx, sizeof(struct RaRandom));
 		free(ctx);
 	}
 }
diff --git a/src/digest/has160.c b/src/digest/has160.c
index 30a367a..61ddc24 100644
--- a/src/digest/has160.c
+++ b/src/digest/has160.c
@@ -7,6 +7,8 @@
 #include <string.h>
 #include <assert.h>
 
+#include "../com/clear.h"
+
 #define RL(X, n)					((X << n) | (X >> (32 - n)))
 #define CHANGE_ENDIAN(X)            (RL(X, 8) & 0x00ff00ff) | (RL(X,24) & 0xff00ff00)
 
@@ -34,7 +36,7 @@ int RaHas160Create(struct RaHas160Ctx **ctxp)
 void RaHas160Destroy(struct RaHas160Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaHas160Ctx));
+		RaClearMemory(ctx, sizeof(struct RaHas160Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md2.c b/src/digest/md2.c
index d25a2a0..6d54d8e 100644
--- a/src/digest/md2.c
+++ b/src/digest/md2.c
@@ -7,6 +7,8 @@
 #include <string.h>
 #include <assert.h>
 
+#include "../com/clear.h"
+
 /* Permutation of 0..255 constructed from the digits of pi. It gives a
 "random" nonlinear byte substitution operation.
 */
@@ -48,7 +50,7 @@ int RaMd2Create(struct RaMd2Ctx **ctxp)
 void RaMd2Destroy(struct RaMd2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd2Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md4.c b/src/digest/md4.c
index 3a8ef2e..d75cdee 100644
--- a/src/digest/md4.c
+++ b/src/digest/md4.c
@@ -7,6 +7,8 @@
 #include <string.h>
 #include <assert.h>
 
+#include "../com/clear.h"
+
 #define RL(X, n)					((X << n) | (X >> (32 - n)))
 #define CHANGE_ENDIAN(X)            (RL(X, 8) & 0x00ff00ff) | (RL(X,24) & 0xff00ff00)
 
@@ -39,7 +41,7 @@ int RaMd4Create(struct RaMd4Ctx **ctxp)
 void RaMd4Destroy(struct RaMd4Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd4Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md5.c b/src/digest/md5.c
index 67fca1d..0906633 100644
--- a/src/digest/md5.c
+++ b/src/digest/md5.c
@@ -7,6 +7,8 @@
 #include <string.h>
 #include <assert.h>
 
+#include "../com/clear.h"
+
 #define RL(X, n)					((X << n) | (X >> (32 - n)))
 #define CHANGE_ENDIAN(X)            (RL(X, 8) & 0x00ff00ff) | (RL(X,24) & 0xff00ff00)
 
@@ -41,7 +43,7 @@ int RaMd5Create(struct RaMd5Ctx **ctxp)
 void RaMd5Destroy(struct RaMd5Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd5Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd5Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha1.c b/src/digest/sha1.c
index eabed91..ad7e52f 100644
--- a/src/digest/sha1.c
+++ b/src/digest/sha1.c
@@ -7,6 +7,8 @@
 #include <string.h>
 #include <assert.h>
 
+#include "../com/clear.h"
+
 #define RL(X, n)					((X << n) | (X >> (32 - n)))
 #define CHANGE_ENDIAN(X)            (RL(X, 8) & 0x00ff00ff) | (RL(X,24) & 0xff00ff00)
 
@@ -30,7 +32,7 @@ int RaSha1Create(struct RaSha1Ctx **ctxp)
 void RaSha1Destroy(struct RaSha1Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha1Ctx));
+		RaClearMemory(ctx, sizeof(struct RaSha1Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index fac0c6b..7d089f6 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -7,6 +7,8 @@
 #include <string.h>
 #include <assert.h>
 
+#include "../com/clear.h"
+
 #define RL(X, n)					((X << n) | (X >> (32 - n)))
 #define CHANGE_ENDIAN(X)            (RL(X, 8) & 0x00ff00ff) | (RL(X,24) & 0xff00ff00)
 
@@ -35,7 +37,7 @@ int RaSha2Create(enum RaDigestAlgorithm algorithm, struct RaSha2Ctx **ctxp)
 void RaSha2Destroy(struct RaSha2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha2Ctx));
+		RaClearMemory(ctx, sizeof(struct RaSha2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index f90f6ce..a5a7d39 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -8,6 +8,7 @@
 #include <assert.h>
 
 #include "asn1.h"
+#include "../com/clear.h"
 
 struct RaRsaKeyPair {
 	struct RaBigNumber *mod;		// n
@@ -147,7 +148,7 @@ void RaRsaDestroyKeyPair(struct RaRsaKeyPair *key)
 	if (key->mont != NULL) {
 		RaMontDestroy(key->mont);
 	}
-	memset(key, 0, sizeof(struct RaRsaKeyPair));
+	RaClearMemory(key, sizeof(struct RaRsaKeyPair));
 	free(key);
 }
 
-- 
2.43.0


From de4a7360754a81a7276eb2ac17d6e12b752eff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 05/24] fix: BnGenRandom() lost bits of the top word and
 ignored failures

The mask for the top word was computed in int, so with 64-bit words a
length of 32..63 bits modulo 64 kept only length - 32 random bits (and 31
overflowed). A failed generator was ignored and left the number, and its
sign, undefined.
---
 src/com/bignumber.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 67f9ed1..790e361 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1409,6 +1409,7 @@ int BnGetBitLength(struct RaBigNumber *bn)
 
 int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
+	int result;
 	int word;
 
 	if (bit <= 0) {
@@ -1422,14 +1423,19 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 		return RA_ERR_NUMBER_SIZE;
 	}
 
-	BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	result = BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	if (result != RA_ERR_SUCCESS) {
+		BnSetInt(bn, 0);
+		return result;
+	}
 
 	bit %= BN_WORD_BIT;
 
 	if (bit > 0) {
-		bn->data[word - 1] &= (1 << bit) - 1;
+		bn->data[word - 1] &= ((bn_uint_t)1 << bit) - 1;
 	}
 	bn->length = word;
+	bn->sign = 0;
 	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
 		bn->length--;
 
-- 
2.43.0


From 429bccc130321d500aa96499531ad173a42f55d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 06/24] fix: BnMod() wrote past a result as long as the modulus

r was used as the running remainder, which needs one word more than b,
although only r->max_length >= b->length is required (GetGCD() allocates
exactly that).
---
 src/com/bignumber.c | 56 +++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 790e361..5b9a6a3 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -577,6 +577,8 @@ int BnSqr(struct RaBigNumber *r, struct RaBigNumber *a)
 // r = a % b
 int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	int result;
+	struct RaBigNumber *rr;		// remainder, one word longer than b
 	struct RaBigNumber *aa;		// a << n
 	struct RaBigNumber *bb;		// b << n
 	struct RaBigNumber *bq;		// b * q
@@ -601,15 +603,16 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (a->length < b->length) {
-		BnSet(r, a);
-		return RA_ERR_SUCCESS;
+		return BnSet(r, a);
 	}
 
 	aa = BnNewW(a->length + 1);		// a << n
 	bb = BnNewW(b->length + 1);		// b << n
 	bq = BnNewW(b->length + 1);		// b * qu(32bit)
+	rr = BnNewW(b->length + 1);
 
-	if (aa == NULL || bb == NULL || bq == NULL) {
+	if (aa == NULL || bb == NULL || bq == NULL || rr == NULL) {
+		BN_SAFEFREE(rr);
 		BN_SAFEFREE(aa);
 		BN_SAFEFREE(bb);
 		BN_SAFEFREE(bq);
@@ -624,33 +627,33 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	BnShiftL(aa, (uint32_t)bit);
 	BnShiftL(bb, (uint32_t)bit);
 
-	// copy first bb->length-1 of aa->data to r
-	// this reduce loop count until r gets greater than bb
-	BnSetInt(r, 0);
+	// copy first bb->length-1 of aa->data to rr
+	// this reduce loop count until rr gets greater than bb
+	BnSetInt(rr, 0);
 	if (b->length > 1) {
-		memcpy(r->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
-		r->data[bb->length] = 0;
-		r->length = bb->length - 1;
+		memcpy(rr->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
+		rr->data[bb->length] = 0;
+		rr->length = bb->length - 1;
 	}
 
 	bu = bb->data[bb->length - 1];		// highst word of bb
 	ad = &aa->data[aa->length - bb->length];
-	rd = &r->data[bb->length - 1];
+	rd = &rr->data[bb->length - 1];
 
 #if BN_WORD_BYTE == 8
 	ru.high = 0;
 	ru.low = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 64);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 64);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length) {
+		if (rr->length > b->length) {
 			ru.low = *rd;
 			ru.high = *(rd + 1);
 		}
-		else if (r->length == b->length) {
+		else if (rr->length == b->length) {
 			ru.low = *rd;
 			ru.high = 0;
 		}
@@ -664,11 +667,11 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
@@ -677,13 +680,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	ru = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 32);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 32);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length)
+		if (rr->length > b->length)
 			ru = ((uint64_t)(*(rd + 1)) << 32) | (*rd);
-		else if (r->length == b->length)
+		else if (rr->length == b->length)
 			ru = *rd;
 		else
 			ru = 0;
@@ -696,25 +699,28 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
 	}
 #endif
 
-	BnShiftR(r, (uint32_t)bit);
-	r->sign = a->sign;
+	BnShiftR(rr, (uint32_t)bit);
+	rr->sign = a->sign;
 
+	result = BnSet(r, rr);
+
+	BnFree(rr);
 	BnFree(aa);
 	BnFree(bb);
 	BnFree(bq);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
-- 
2.43.0


From 3ef60cfe0101947906b11e09421333eefc6fc87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 07/24] fix: 32-bit BnDiv() tested a stale word for quotient
 overflow

When the running remainder was no longer than the divisor, *(rd + 1) was
not part of it; a chance match started the quotient at 0xFFFFFFFF and
counted it down one by one.
---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 5b9a6a3..901c6ae 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -862,7 +862,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 			ru = 0;
 
 		if (ru >= bu) {
-			if  (*(rd + 1) == bu)		// overflow
+			if ((ru >> 32) == bu)		// overflow
 				qu = 0xFFFFFFFF;
 			else
 				qu = (uint32_t)(ru / bu);		// guess the quotient
-- 
2.43.0


From 85618961fb590961ddfe78b0d22913b2ff0a482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 08/24] fix: BnToByteArray() of a negative number crashed when
 out of memory

---
 src/com/bignumber.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 901c6ae..e64b584 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1510,6 +1510,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 	if (bn->sign && !BN_ISZERO(bn)) {
 		struct RaBigNumber *neg;
 		neg = BnClone(bn);
+		if (neg == NULL) {
+			return 0;
+		}
 		BnAddInt(neg, 1);		// neg = ~bn + 1 = ~(bn + 1)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
-- 
2.43.0


From df12eced1dd9fb367dd5a1bdd62d15dd0fa341b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 09/24] fix: RaMontCreate() freed uninitialised pointers when
 out of memory

---
 src/com/montexpmod.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 25d6bd5..316ce9f 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -77,6 +77,7 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
 	}
+	memset(ctx, 0, sizeof(struct RaMontCtx));
 
 	B = BnNewW(2);
 	if (B == NULL) {
@@ -126,11 +127,16 @@ _EXIT:
 void RaMontDestroy(struct RaMontCtx* ctx)
 {
 	if (ctx != NULL) {
-		BnClearFree(ctx->N);
-		BnClearFree(ctx->NB);
-		BnClearFree(ctx->BB);
-		BnClearFree(ctx->tmp);
-		BnClearFree(ctx->mul);
+		if (ctx->N != NULL)
+			BnClearFree(ctx->N);
+		if (ctx->NB != NULL)
+			BnClearFree(ctx->NB);
+		if (ctx->BB != NULL)
+			BnClearFree(ctx->BB);
+		if (ctx->tmp != NULL)
+			BnClearFree(ctx->tmp);
+		if (ctx->mul != NULL)
+			BnClearFree(ctx->mul);
 		RaClearMemory(ctx, sizeof(struct RaMontCtx));
 		free(ctx);
 	}
-- 
2.43.0


From ca8949fc892009211e832cd22a2b0667c6795ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 10/24] fix: stored keys and messages could abort the process
 in Montgomery code

A zero modulus and a base longer than the modulus come straight from
imported keys and received messages, so report them as errors instead of
asserting. An even modulus was accepted and gave wrong results.
---
 src/com/montexpmod.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 316ce9f..b68a193 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -60,7 +60,7 @@ static inline void _RaMontMul128(bn_uint128_t* r, uint64_t a, uint64_t b)
 };
 #endif
 
-// N must be prime number
+// N must be odd number
 int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 {
 	int result;
@@ -68,10 +68,14 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 	struct RaBigNumber *B = NULL;
 
 	if (BN_ISZERO(N)) {
-		assert(0);
 		result = RA_ERR_DIVIDED_BY_ZERO;
 		goto _EXIT;
 	}
+	if (BN_ISEVEN(N)) {
+		// N has no inverse modulo B
+		result = RA_ERR_INVALID_PARAM;
+		goto _EXIT;
+	}
 	ctx = (struct RaMontCtx*)malloc(sizeof(struct RaMontCtx));
 	if (ctx == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
@@ -340,7 +344,6 @@ int RaMontExpMod(struct RaMontCtx *ctx, /*out*/struct RaBigNumber *r, struct RaB
 	memset(window, 0, sizeof(window));
 
 	if (a->length > ctx->N->length) {
-		assert(0);
 		result = RA_ERR_NUMBER_SIZE;
 		goto _EXIT;
 	}
-- 
2.43.0


From ca5b4318e1fd1c1a859106b58c317f587ea5dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 11/24] fix: primality test crashed when out of memory

---
 src/com/prime.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/prime.c b/src/com/prime.c
index 0f00fec..4d8f49f 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -292,6 +292,10 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	}
 
 	n1 = BnClone(bn);
+	if (n1 == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 	BnSubInt(n1, 1);	// n1 = n - 1
 
 	s = 0;
-- 
2.43.0


From 87e67fca91610a5ee5766c7d7a73a7374b693c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 12/24] fix: RaIsPrimeNumber(3) never returned

It waited for a random witness a with 1 < a < n - 1, which does not
exist for n = 3.
---
 src/com/prime.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/com/prime.c b/src/com/prime.c
index 4d8f49f..31fa1e2 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -290,6 +290,11 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 		*probable = BN_ISTWO(bn);
 		return RA_ERR_SUCCESS;
 	}
+	if (BnCmpInt(bn, 3) == 0) {
+		// there is no witness between 2 and n - 2
+		*probable = 1;
+		return RA_ERR_SUCCESS;
+	}
 
 	n1 = BnClone(bn);
 	if (n1 == NULL) {
-- 
2.43.0


From 14273193cc11d9cc50aa2ce85a8b7160db57d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 13/24] fix: prime generation ignored a failed random candidate

---
 src/com/prime.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 31fa1e2..070ff11 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -386,6 +386,7 @@ _EXIT:
 static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
 	uint32_t *mods = NULL;
+	int result;
 	int i;
 	uint32_t add;
 	uint64_t val;
@@ -397,7 +398,11 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	}
 
 	for (;;) {
-		BnGetRandomRSA(bn, bit, rnd);
+		result = BnGetRandomRSA(bn, bit, rnd);
+		if (result != RA_ERR_SUCCESS) {
+			free(mods);
+			return result;
+		}
 
 		for (i = 0; i < NUM_PRIME; i++) {
 			BnModUInt(bn, primes[i], &mod);
-- 
2.43.0


From 657f8442591b2caf4ac0f72761ccd690f522e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 14/24] fix: failed prime generation leaked its generator

---
 src/com/prime.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 070ff11..4bdce69 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -445,7 +445,7 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 	int count = 0;
 	int checkCount;
 	int isPrime;
-    struct RaRandom *tmpRnd = NULL;
+	struct RaRandom *tmpRnd = NULL;
 
 	if (rnd == NULL) {
 		result = RaRandomCreate(RA_RAND_SHA160, NULL, 0, &tmpRnd);
@@ -466,22 +466,20 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 				break;
 		}
 		result = GenProbablePrimeNumber(bn, bit, rnd);
-		if (result != RA_ERR_SUCCESS) {
-			return result;
-		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		result = CheckMillerRabin(bn, checkCount, rnd, &isPrime);
-		if (result != RA_ERR_SUCCESS) {
-			return result;
-		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 		if (isPrime) {
 			break;
 		}
 	}
+	result = RA_ERR_SUCCESS;
+_EXIT:
 	if (tmpRnd != NULL)
 		RaRandomDestroy(tmpRnd);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int RaIsPrimeNumber(struct RaBigNumber *bn)
-- 
2.43.0


From 7f02cae9bf3315aa730bebcfcfc8d17f79fd1918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 15/24] fix: small prime generation could hang or return a
 longer number

The sieve discarded every candidate that is one of the table's own
primes, and the overflow check looked at 64 bits only, so sizes below 17
bits never produced a prime of the requested size and other sizes below
64 bits could come out one bit too long.
---
 src/com/prime.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 4bdce69..310be4d 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -392,6 +392,10 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	uint64_t val;
 	bn_uint_t mod;
 
+	if (bit < 2) {
+		return RA_ERR_INVALID_PARAM;		// there is no such prime
+	}
+
 	mods = malloc(NUM_PRIME * sizeof(uint32_t));
 	if (mods == NULL) {
 		return RA_ERR_OUT_OF_MEMORY;
@@ -408,10 +412,12 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 			BnModUInt(bn, primes[i], &mod);
 			mods[i] = (uint32_t)mod;
 		}
+		// a candidate this small may be one of the table's own primes
+		val = bit <= 32 ? _BnGetUInt64(bn) : 0;
 		add = 0;
 		for (;;) {
 			for (i = 0; i < NUM_PRIME; i++) {
-				if ((mods[i] + add) % primes[i] == 0) {
+				if ((mods[i] + add) % primes[i] == 0 && val + add != primes[i]) {
 					add += 2;
 					break;
 				}
@@ -425,10 +431,13 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		if (val + add < val)
 			continue;
 
+		BnAddUInt(bn, add);
+		if (BnGetBitLength(bn) != bit)
+			continue;
+
 		break;
 	}
 
-	BnAddUInt(bn, add);
 	free(mods);
 
 	return RA_ERR_SUCCESS;
-- 
2.43.0


From 6fb3bc94fd7c7e2d1296015a1bf6aee097ff3ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 16/24] fix: ASN.1 parser lost what follows nested values
 ending together

Only one level was left when several constructed values ended at the
same byte, and an empty one stopped the parse, so intact PKCS#8 data was
refused. The nesting limit was ignored as well.
---
 src/pk/asn1.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pk/asn1.c b/src/pk/asn1.c
index d8e2d60..69f3bb9 100644
--- a/src/pk/asn1.c
+++ b/src/pk/asn1.c
@@ -187,12 +187,10 @@ static int ASN1Parse(struct RaAsn1Ctx *ctx)
 		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		if (ctx->cur->type & RA_ASN1_OBJ_TYPE_CONST) {
-			ASN1Push(ctx);
-			continue;
+			result = ASN1Push(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
 		}
-
-		if (ctx->dataIndex >= ctx->dataEnd ||
-			(ctx->cur->type == 0 && ctx->cur->dataLength == 0) ) {		// end-of-content
+		else if (ctx->cur->type == 0 && ctx->cur->dataLength == 0) {		// end-of-content
 			result = ASN1Pop(ctx);
 			if (result == RA_ERR_OUT_OF_BUFFER) {
 				result = RA_ERR_SUCCESS;
@@ -200,6 +198,16 @@ static int ASN1Parse(struct RaAsn1Ctx *ctx)
 			}
 			if (result != RA_ERR_SUCCESS) goto _EXIT;
 		}
+
+		// leave every constructed value that ends here
+		while (ctx->dataSP > 0 && ctx->dataIndex >= ctx->dataEnd) {
+			if (ctx->dataStack[ctx->dataSP - 1].prevObj->dataLength < 0) {	// no end-of-content
+				result = RA_ERR_OUT_OF_BUFFER;
+				goto _EXIT;
+			}
+			result = ASN1Pop(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
+		}
 	};
 
 	result = RA_ERR_SUCCESS;
-- 
2.43.0


From a58c1bc7e7c075475e5ffdc8a3f234892758b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 17/24] fix: RaRsaVerify() ignored failures and accepted
 oversized signatures

When memory ran out the comparison used a number nobody computed, and a
signature plus the modulus verified just like the signature itself.
---
 src/pk/rsa.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index a5a7d39..9695059 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -182,18 +182,21 @@ int RaRsaVerify(struct RaRsaKeyPair* key, struct RaBigNumber *secure, struct RaB
 	int result;
 	struct RaBigNumber *decrypted;
 
+	// there is one signature only for each message: below the modulus
+	if (BN_ISNEG(secure) || BnCmp(secure, key->mod) >= 0)
+		return RA_ERR_INVALID_DATA;
+
 	decrypted = BnNewW(key->mod->length);
 	if (decrypted == NULL)
 		return RA_ERR_OUT_OF_MEMORY;
 
-	RaMontExpMod(key->mont, decrypted, secure, key->pub);
-	result = BnCmp(message, decrypted);
+	result = RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	if (result == RA_ERR_SUCCESS && BnCmp(message, decrypted) != 0)
+		result = RA_ERR_INVALID_DATA;
 
 	BnFree(decrypted);
 
-	if (result == 0)
-		return RA_ERR_SUCCESS;	// validated
-	return RA_ERR_INVALID_DATA;
+	return result;
 }
 
 int RaRsaKeyBitLength( struct RaRsaKeyPair* key )
-- 
2.43.0


From e0dafdd7e08040fab3e2017c3d573fc94d61c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:56 +0000
Subject: [PATCH 18/24] fix: RaRsaVerifyKey() refused sound keys and crashed on
 some bad ones

Sound keys were refused when their primes' lengths add up to one more
than the modulus or d is reduced by lcm(p-1,q-1). Zero exponents ran
into an assertion, equal primes passed, and a failed allocation of the
temporary numbers was not noticed.
---
 src/pk/rsa.c | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 9695059..ca4d289 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -214,6 +214,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	struct RaBigNumber *prime1Sub1 = NULL;
 	struct RaBigNumber *prime2Sub1 = NULL;
 	int bit;
+	int primeBit;
 
 	CHECK_KEY_DATA(BnCmp(key->pub, key->mod) < 0);
 
@@ -223,10 +224,17 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	}
 
 	bit = BnGetBitLength(key->mod);
-	temp = BnNew(bit);
-	phi = BnNew(bit);
-
-	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
+	primeBit = BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2);
+	CHECK_KEY_DATA(primeBit == bit || primeBit == bit + 1);
+	CHECK_KEY_DATA(BnCmp(key->prime1, key->prime2) != 0);
+	CHECK_KEY_DATA(BnCmp(key->priv, key->mod) < 0);
+
+	temp = BnNewW((key->mod->length + 1) * 2);
+	phi = BnNewW((key->mod->length + 1) * 2);
+	if (temp == NULL || phi == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 
 	result = RaIsPrimeNumber(key->prime1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
@@ -247,13 +255,6 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	BnSubInt(prime1Sub1, 1);
 	BnSubInt(prime2Sub1, 1);
 
-	BnMul(phi, prime1Sub1, prime2Sub1);
-
-	result = GetGCDEx(NULL, temp, NULL, key->pub, phi, 1);
-	if (result != RA_ERR_SUCCESS) goto _EXIT;
-
-	CHECK_KEY_DATA(BnCmp(temp, key->priv) == 0);
-
 	result = BnMod(temp, key->priv, prime1Sub1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
@@ -264,10 +265,25 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 
 	CHECK_KEY_DATA(BnCmp(temp, key->exp2) == 0);
 
-	result = GetGCDEx(NULL, temp, NULL, key->prime2, key->prime1, 1);
+	// d may be the inverse of e modulo (p-1)(q-1) or any common multiple of p-1 and q-1
+	BnMul(phi, key->pub, key->exp1);
+	result = BnMod(temp, phi, prime1Sub1);
+	if (result != RA_ERR_SUCCESS) goto _EXIT;
+
+	CHECK_KEY_DATA(BN_ISONE(temp));
+
+	BnMul(phi, key->pub, key->exp2);
+	result = BnMod(temp, phi, prime2Sub1);
+	if (result != RA_ERR_SUCCESS) goto _EXIT;
+
+	CHECK_KEY_DATA(BN_ISONE(temp));
+
+	CHECK_KEY_DATA(BnCmp(key->coeff, key->prime1) < 0);
+	BnMul(phi, key->coeff, key->prime2);
+	result = BnMod(temp, phi, key->prime1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
-	CHECK_KEY_DATA(BnCmp(temp, key->coeff) == 0);
+	CHECK_KEY_DATA(BN_ISONE(temp));
 
 	result = RA_ERR_SUCCESS;
 
-- 
2.43.0


From 303e4e7b1e3a32f3564fbe41a39042384b2449ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 19/24] fix: RaRsaCreateKeyPair() could return a key without a
 private exponent

If p-1 or q-1 is a multiple of 65537 there is no inverse.
---
 src/pk/rsa.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index ca4d289..395017f 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -27,6 +27,8 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 	struct RaRsaKeyPair *key = NULL;
 	struct RaBigNumber *phi = NULL;
 	struct RaRandom *rnd = NULL;
+	bn_uint_t mod1;
+	bn_uint_t mod2;
 
 	assert((bit % 2) == 0);
 
@@ -77,7 +79,11 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 		} while ( BnCmp( key->prime1, key->prime2 ) == 0 );
 
 		BnMul(key->mod, key->prime1, key->prime2);
-	} while(BnGetBitLength(key->mod) != bit);
+
+		// the public exponent needs an inverse modulo (p-1)(q-1)
+		BnModUInt(key->prime1, 65537, &mod1);
+		BnModUInt(key->prime2, 65537, &mod2);
+	} while(BnGetBitLength(key->mod) != bit || mod1 == 1 || mod2 == 1);
 
 	BnSubInt(key->prime1, 1);
 	BnSubInt(key->prime2, 1);
-- 
2.43.0


From 178e8b8b67efafbf4500616dd400dc55afb367c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 20/24] fix: stored keys with empty, negative or cut components
 were misread

The first byte of an empty INTEGER and up to ten bytes of a shorter
OBJECT IDENTIFIER were read past the value, and a negative component was
taken for a valid one.
---
 src/pk/rsa.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 395017f..3f3e71b 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -312,8 +312,13 @@ static int RaRsaNewASN1Integer(const uint8_t *asn1Data, struct RaAsn1Node *node,
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
+	// key components are not negative
+	if (node->dataLength <= 0 || (asn1Data[node->dataOffset] & 0x80) != 0) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	bit = node->dataLength * 8;
-	if (asn1Data[node->dataOffset] == 0x00 || asn1Data[node->dataOffset] == 0xff) {
+	if (asn1Data[node->dataOffset] == 0x00) {
 		bit -= 8;
 	}
 
@@ -465,7 +470,7 @@ _EXIT:
 }
 
 #define OID_RSA_Encryption		"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01"		// 1.2.840.113549.1.1.1
-#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
+#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && (node)->dataLength == sizeof(oid)-1 && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
 
 
 // pkcs#8, byte array = BER
-- 
2.43.0


From ba986c7b2179f107271038948fb15fd7162e72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 21/24] fix: key export wrote empty integers for components
 larger than expected

The buffer was sized by the modulus, so an imported key with a larger
component was exported without it.
---
 src/pk/rsa.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 3f3e71b..88e4118 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -582,6 +582,34 @@ static const uint8_t rsakeyVersion[] = {
 	0x02, 0x01, 0x00
 };
 
+// encoded size of the largest component
+static int RsaMaxByteLength(struct RaRsaKeyPair *key)
+{
+	struct RaBigNumber *bn[8];
+	int len;
+	int maxlen;
+	int i;
+
+	bn[0] = key->mod;
+	bn[1] = key->pub;
+	bn[2] = key->priv;
+	bn[3] = key->prime1;
+	bn[4] = key->prime2;
+	bn[5] = key->exp1;
+	bn[6] = key->exp2;
+	bn[7] = key->coeff;
+
+	maxlen = 5;		// also holds an encoded length
+	for (i = 0; i < 8; i++) {
+		if (bn[i] != NULL) {
+			len = BnToByteArray(bn[i], NULL, 0);
+			if (len > maxlen)
+				maxlen = len;
+		}
+	}
+	return maxlen;
+}
+
 int RaRsaPrivKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data, int dataLen, /*out*/int *resultLen)
 {
 	int result;
@@ -589,11 +617,9 @@ int RaRsaPrivKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data,
 	uint8_t *temp = NULL;
 	int bufferlen;
 	int offset;
-	int bit;
 	int bytelen;
 	int len;
-	bit = BnGetBitLength(key->mod);
-	bytelen = bit * 8 + 1;	// max
+	bytelen = RsaMaxByteLength(key);	// max
 
 	if (key->priv == NULL) {
 		result = RA_ERR_INVALID_DATA;
@@ -762,11 +788,9 @@ int RaRsaPubKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data, i
 	uint8_t *temp = NULL;
 	int bufferlen;
 	int offset;
-	int bit;
 	int bytelen;
 	int len;
-	bit = BnGetBitLength(key->mod);
-	bytelen = bit * 8 + 1;	// max
+	bytelen = RsaMaxByteLength(key);	// max
 
 	temp = (uint8_t*)malloc(bytelen);
 	if (temp == NULL) {
-- 
2.43.0


From d773121b1155e9b339c97d4a85ada5fbf1806bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 22/24] fix: report missing entropy with a code of its own

RaIsPrimeNumber() and RaRsaVerifyKey() use RA_ERR_INVALID_DATA for their
negative verdict.
---
 src/com/random.c          | 6 +++---
 src/include/racrypt_com.h | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/com/random.c b/src/com/random.c
index e98d4e9..6c32190 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -156,7 +156,7 @@ static int RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN]
 		CryptReleaseContext(cryptProv, 0);
 	}
 	if (!result) {
-		return RA_ERR_INVALID_DATA;
+		return RA_ERR_NO_ENTROPY;
 	}
 #else
 	int fd;
@@ -166,7 +166,7 @@ static int RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN]
 		fd = open("/dev/urandom", O_RDONLY);
 	} while (fd < 0 && errno == EINTR);
 	if (fd < 0) {
-		return RA_ERR_INVALID_DATA;
+		return RA_ERR_NO_ENTROPY;
 	}
 	while (offset < RA_RAND_SEED_LEN - 4) {
 		size = (int)read(fd, seedBytes + offset, RA_RAND_SEED_LEN - 4 - offset);
@@ -179,7 +179,7 @@ static int RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN]
 	}
 	close(fd);
 	if (offset != RA_RAND_SEED_LEN - 4) {
-		return RA_ERR_INVALID_DATA;
+		return RA_ERR_NO_ENTROPY;
 	}
 #endif
 	seed = RaRandomGetRandomSeed();
diff --git a/src/include/racrypt_com.h b/src/include/racrypt_com.h
index edb8046..7c0817d 100644
--- a/src/include/racrypt_com.h
+++ b/src/include/racrypt_com.h
@@ -14,6 +14,7 @@ extern "C" {
 #define RA_ERR_NUMBER_SIZE					(-4)
 #define RA_ERR_INVALID_PARAM				(-5)
 #define RA_ERR_INVALID_DATA					(-6)
+#define RA_ERR_NO_ENTROPY					(-7)
 
 
 #ifdef __cplusplus
-- 
2.43.0


From ca2218e8aedda272d00e1406c4429b20c1987ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 23/24] fix: accept keys whose private exponent is not reduced

---
 src/pk/rsa.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 88e4118..4a270a6 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -233,7 +233,6 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	primeBit = BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2);
 	CHECK_KEY_DATA(primeBit == bit || primeBit == bit + 1);
 	CHECK_KEY_DATA(BnCmp(key->prime1, key->prime2) != 0);
-	CHECK_KEY_DATA(BnCmp(key->priv, key->mod) < 0);
 
 	temp = BnNewW((key->mod->length + 1) * 2);
 	phi = BnNewW((key->mod->length + 1) * 2);
-- 
2.43.0


From ef9ff872e0879258421968a5c318293f44933480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 24/24] fix: quotient guess overflow in the portable 128-bit
 division

Without a 128-bit integer type _BnDiv128 returned a wrapped quotient digit when
the high word is not below the divisor, where the other branches return the
largest digit. BnMod and BnDiv then kept a remainder above the divisor and
key generation and RSA operations hit an assertion.
---
 src/com/bignumber.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index e64b584..7a25bfd 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -2076,6 +2076,11 @@ static uint64_t _BnDiv128(bn_uint128_t a, uint64_t b, uint64_t *remainder)
 	bn_uint128_t bq;
 	int bit;
 
+	if (a.high >= b) {
+		// overflow
+		return UINT64_C(0xFFFFFFFFFFFFFFFF);
+	}
+
 	q = 0;
 
 	// make (ru / bu) fit to 32bit integer (ru = highst 64bit of r, bu = highst 32bit of bb)
-- 
2.43.0

