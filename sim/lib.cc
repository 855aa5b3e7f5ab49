#include "lib.h"

static RaAesKeyType aes_t(int a) { return a == C_AES128 ? RA_AES_128 : a == C_AES192 ? RA_AES_192 : RA_AES_256; }
static RaDesKeyType des_t(int a) { return a == C_DES ? RA_DES : a == C_EDE2 ? RA_DES_EDE2 : RA_DES_EDE3; }
static RaAriaKeyType aria_t(int a) { return a == C_ARIA128 ? RA_ARIA_128 : a == C_ARIA192 ? RA_ARIA_192 : RA_ARIA_256; }
static RaBlockCipherMode mode_t_(int m) { return m == M_ECB ? RA_BLOCK_MODE_ECB : m == M_CBC ? RA_BLOCK_MODE_CBC : m == M_CFB ? RA_BLOCK_MODE_CFB : RA_BLOCK_MODE_OFB; }
static RaBlockCipherPaddingType pad_t(int p) { return p == PAD_NONE ? RA_BLOCK_PADDING_NONE : p == PAD_ZERO ? RA_BLOCK_PADDING_ZERO : RA_BLOCK_PADDING_PKCS7; }

#define COMMON(T) \
	[](void *c) { Ra##T##Destroy((Ra##T##Ctx *)c); }, \
	[](void *c, const u8 *iv) { Ra##T##SetIV((Ra##T##Ctx *)c, iv); }, \
	[](void *c, u8 *iv) { Ra##T##GetIV((Ra##T##Ctx *)c, iv); }, \
	[](void *c, const u8 *i, int n, u8 *o) { return Ra##T##Encrypt((Ra##T##Ctx *)c, i, n, o); }, \
	[](void *c, const u8 *i, int n, u8 *o, int p) { return Ra##T##EncryptFinal((Ra##T##Ctx *)c, i, n, o, pad_t(p)); }, \
	[](void *c, const u8 *i, int n, u8 *o) { return Ra##T##Decrypt((Ra##T##Ctx *)c, i, n, o); }, \
	[](void *c, const u8 *i, int n, u8 *o, int p) { return Ra##T##DecryptFinal((Ra##T##Ctx *)c, i, n, o, pad_t(p)); }

static const CipherFn CF[F_N] = {
	{sizeof(RaAesCtx),
	 [](int a, const Bytes &k, int m, void **c) { return RaAesCreate(k.data(), aes_t(a), mode_t_(m), (RaAesCtx **)c); },
	 [](void *c, int a, const Bytes &k, int m) { RaAesInit((RaAesCtx *)c, k.data(), aes_t(a), mode_t_(m)); }, COMMON(Aes)},
	{sizeof(RaDesCtx),
	 [](int a, const Bytes &k, int m, void **c) { return RaDesCreate(k.data(), des_t(a), mode_t_(m), (RaDesCtx **)c); },
	 [](void *c, int a, const Bytes &k, int m) { RaDesInit((RaDesCtx *)c, k.data(), des_t(a), mode_t_(m)); }, COMMON(Des)},
	{sizeof(RaSeedCtx),
	 [](int, const Bytes &k, int m, void **c) { return RaSeedCreate(k.data(), mode_t_(m), (RaSeedCtx **)c); },
	 [](void *c, int, const Bytes &k, int m) { RaSeedInit((RaSeedCtx *)c, k.data(), mode_t_(m)); }, COMMON(Seed)},
	{sizeof(RaAriaCtx),
	 [](int a, const Bytes &k, int m, void **c) { return RaAriaCreate(k.data(), aria_t(a), mode_t_(m), (RaAriaCtx **)c); },
	 [](void *c, int a, const Bytes &k, int m) { RaAriaInit((RaAriaCtx *)c, k.data(), aria_t(a), mode_t_(m)); }, COMMON(Aria)},
	{sizeof(RaBlowfishCtx),
	 [](int, const Bytes &k, int m, void **c) { return RaBlowfishCreate(k.data(), (int)k.size(), mode_t_(m), (RaBlowfishCtx **)c); },
	 [](void *c, int, const Bytes &k, int m) { RaBlowfishInit((RaBlowfishCtx *)c, k.data(), (int)k.size(), mode_t_(m)); }, COMMON(Blowfish)},
	{sizeof(RaRc4Ctx),
	 [](int, const Bytes &k, int, void **c) { return RaRc4Create(k.data(), (int)k.size(), (RaRc4Ctx **)c); },
	 [](void *c, int, const Bytes &k, int) { RaRc4Init((RaRc4Ctx *)c, k.data(), (int)k.size()); },
	 [](void *c) { RaRc4Destroy((RaRc4Ctx *)c); }, nullptr, nullptr,
	 [](void *c, const u8 *i, int n, u8 *o) { return RaRc4Encrypt((RaRc4Ctx *)c, i, n, o); },
	 [](void *c, const u8 *i, int n, u8 *o, int) { return RaRc4Encrypt((RaRc4Ctx *)c, i, n, o); },
	 [](void *c, const u8 *i, int n, u8 *o) { return RaRc4Decrypt((RaRc4Ctx *)c, i, n, o); },
	 [](void *c, const u8 *i, int n, u8 *o, int) { return RaRc4Decrypt((RaRc4Ctx *)c, i, n, o); }},
};
int cipher_family(int a) {
	switch (a) {
	case C_AES128: case C_AES192: case C_AES256: return F_AES;
	case C_DES: case C_EDE2: case C_EDE3: return F_DES;
	case C_SEED: return F_SEED;
	case C_ARIA128: case C_ARIA192: case C_ARIA256: return F_ARIA;
	case C_BF: return F_BF;
	}
	return F_RC4;
}
const CipherFn &cipher_fn(int f) { return CF[f]; }

static RaDigestAlgorithm sha2_t(int a) {
	switch (a) {
	case D_SHA224: return RA_DGST_SHA2_224; case D_SHA256: return RA_DGST_SHA2_256; case D_SHA384: return RA_DGST_SHA2_384;
	case D_SHA512: return RA_DGST_SHA2_512; case D_SHA512_224: return RA_DGST_SHA2_512_224; default: return RA_DGST_SHA2_512_256;
	}
}
#define DIG(T) \
	{sizeof(Ra##T##Ctx), \
	 [](int, void **c) { return Ra##T##Create((Ra##T##Ctx **)c); }, \
	 [](void *c, int) { Ra##T##Init((Ra##T##Ctx *)c); }, \
	 [](void *c) { Ra##T##Destroy((Ra##T##Ctx *)c); }, \
	 [](void *c, int, const u8 *p, int n) { Ra##T##Update((Ra##T##Ctx *)c, p, n); }, \
	 [](void *c, int, u8 *o) { Ra##T##Final((Ra##T##Ctx *)c, o); }}
static const DigestFn DF[H_N] = {
	DIG(Md2), DIG(Md4), DIG(Md5), DIG(Sha1),
	{sizeof(RaSha2Ctx),
	 [](int a, void **c) { return RaSha2Create(sha2_t(a), (RaSha2Ctx **)c); },
	 [](void *c, int a) {
		 RaSha2Ctx *x = (RaSha2Ctx *)c;
		 if ((g->direct & 1) && a == D_SHA256) RaSha256Init(x);
		 else if ((g->direct & 1) && a == D_SHA512) RaSha512Init(x);
		 else RaSha2Init(x, sha2_t(a));
	 },
	 [](void *c) { RaSha2Destroy((RaSha2Ctx *)c); },
	 [](void *c, int a, const u8 *p, int n) {
		 RaSha2Ctx *x = (RaSha2Ctx *)c;
		 bool own = (g->direct & 2) && ((n ^ (g->direct >> 2)) & 3) != 0;
		 if (own && a == D_SHA256) RaSha256Update(x, p, n);
		 else if (own && a == D_SHA512) RaSha512Update(x, p, n);
		 else RaSha2Update(x, p, n);
	 },
	 [](void *c, int a, u8 *o) {
		 RaSha2Ctx *x = (RaSha2Ctx *)c;
		 if ((g->direct & 16) && a == D_SHA256) RaSha256Final(x, o);
		 else if ((g->direct & 16) && a == D_SHA512) RaSha512Final(x, o);
		 else RaSha2Final(x, o);
	 }},
	DIG(Has160),
};
int digest_family(int a) { switch (a) { case D_MD2: return H_MD2; case D_MD4: return H_MD4; case D_MD5: return H_MD5; case D_SHA1: return H_SHA1; case D_HAS160: return H_HAS160; } return H_SHA2; }
const DigestFn &digest_fn(int f) { return DF[f]; }
bool digest_oneshot(int a, const u8 *p, int n, u8 *o) {
	switch (a) {
	case D_MD2: RaMd2(p, n, o); return true;
	case D_MD4: RaMd4(p, n, o); return true;
	case D_MD5: RaMd5(p, n, o); return true;
	case D_SHA1: RaSha1(p, n, o); return true;
	case D_SHA256: RaSha256(p, n, o); return true;
	case D_SHA512: RaSha512(p, n, o); return true;
	case D_HAS160: RaHas160(p, n, o); return true;
	}
	return false;
}

struct Quiet { bool a; Quiet() : a(g->armed) { g->armed = false; } ~Quiet() { g->armed = a; } };
RaBigNumber *bn_of(const Z &z, int bits) {
	Quiet q;
	Bytes b = z.be();
	if (b.empty()) b.push_back(0);
	int nb = (int)b.size() * 8;
	RaBigNumber *r = BnNew(bits > nb ? bits : nb);
	if (!r || BnSetUByteArray(r, b.data(), (int)b.size()) != RA_ERR_SUCCESS)
		violation(g->prop + ":bnset", "a number of %d bytes cannot be loaded although memory is plentiful", (int)b.size());
	return r;
}
Bn::Bn(int bits) { Quiet q; b = BnNew(bits); }
Bn::Bn(const Z &z, int extra) { b = bn_of(z, z.bits() + extra); }
Bn::~Bn() { Quiet q; if (b) BnFree(b); }
Z bn_value(RaBigNumber *b, bool *neg) {
	Quiet q;
	if (neg) *neg = false;
	int n = BnToByteArray(b, nullptr, 0);
	Bytes v(n > 0 ? n + 8 : 8);
	int k = BnToByteArray(b, v.data(), (int)v.size());
	if (k <= 0) return Z(-1);
	Z z = Z::from_be(v.data(), k);
	if (v[0] & 0x80) { if (neg) *neg = true; Z m(1); mpz_mul_2exp(m.v, m.v, 8 * k); z = z - m; }
	return z;
}
Z Bn::get(bool *neg) const { return bn_value(b, neg); }
