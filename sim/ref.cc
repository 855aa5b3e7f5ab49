#define OPENSSL_SUPPRESS_DEPRECATED
#include "ref.h"
#include <openssl/aes.h>
#include <openssl/blowfish.h>
#include <openssl/des.h>
#include <openssl/evp.h>
#include <openssl/md4.h>
#include <openssl/md5.h>
#include <openssl/seed.h>
#include <openssl/sha.h>

int cipher_block(int c) { switch (c) { case C_DES: case C_EDE2: case C_EDE3: case C_BF: return 8; case C_RC4: return 1; default: return 16; } }
int cipher_keylen(int c) {
	switch (c) {
	case C_AES128: case C_ARIA128: case C_SEED: case C_EDE2: case C_BF: case C_RC4: return 16;
	case C_AES192: case C_ARIA192: case C_EDE3: return 24;
	case C_AES256: case C_ARIA256: return 32;
	default: return 8;
	}
}
const char *cipher_name(int c) { static const char *n[] = {"aes128", "aes192", "aes256", "des", "des-ede2", "des-ede3", "seed", "aria128", "aria192", "aria256", "blowfish", "rc4"}; return c >= 0 && c < C_NCIPHER ? n[c] : "?"; }
const char *digest_name(int d) { static const char *n[] = {"md2", "md4", "md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512-224", "sha512-256", "has160"}; return d >= 0 && d < D_N ? n[d] : "?"; }
int digest_len(int d) { static const int n[] = {16, 16, 16, 20, 28, 32, 48, 64, 28, 32, 20}; return n[d]; }

struct AesSt { AES_KEY e, d; };
// DES from its published tables. des_variant 1 has the one wrong entry (S1 input 63 -> 0) that is listed in known_findings.jsonl.
int ref_des_variant = 0;
struct Des1 { u8 rk[16][8]; };
struct DesSt { Des1 k[3]; };
static const u8 DES_S[8][64] = {
	{14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13},
	{15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9},
	{10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12},
	{7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14},
	{2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3},
	{12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13},
	{4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12},
	{13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11}};
static u32 DES_SP[2][8][64];
static void des_tables() {
	static bool done;
	if (done) return;
	static const u8 P[32] = {16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25};
	for (int v = 0; v < 2; v++) for (int s = 0; s < 8; s++) for (int i = 0; i < 64; i++) {
		int row = (i >> 5) << 1 | (i & 1), col = (i >> 1) & 15;
		u32 x = v == 1 && s == 0 && i == 63 ? 0 : (u32)DES_S[s][row * 16 + col] << (28 - 4 * s), y = 0;
		for (int b = 0; b < 32; b++) y |= ((x >> (32 - P[b])) & 1) << (31 - b);
		DES_SP[v][s][i] = y;
	}
	done = true;
}
static void des_key(Des1 *d, const u8 *key) {
	static const u8 PC1[56] = {57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4};
	static const u8 PC2[48] = {14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32};
	static const u8 SH[16] = {1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1};
	des_tables();
	u8 cd[56];
	for (int i = 0; i < 56; i++) cd[i] = (key[(PC1[i] - 1) / 8] >> (7 - (PC1[i] - 1) % 8)) & 1;
	int off = 0;
	for (int r = 0; r < 16; r++) {
		off += SH[r];
		for (int g = 0; g < 8; g++) {
			u8 v = 0;
			for (int b = 0; b < 6; b++) { int p = PC2[g * 6 + b] - 1; v = (u8)(v << 1 | cd[p < 28 ? (p + off) % 28 : 28 + (p - 28 + off) % 28]); }
			d->rk[r][g] = v;
		}
	}
}
static u64 des_perm(u64 x, bool inv) {
	static const u8 IP[64] = {58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7};
	u64 y = 0;
	for (int i = 0; i < 64; i++) if (inv) y |= ((x >> (63 - i)) & 1) << (64 - IP[i]); else y |= ((x >> (64 - IP[i])) & 1) << (63 - i);
	return y;
}
static u64 des_run(const Des1 *d, u64 x, bool dec) {
	x = des_perm(x, false);
	u32 l = (u32)(x >> 32), r = (u32)x;
	for (int i = 0; i < 16; i++) {
		const u8 *k = d->rk[dec ? 15 - i : i];
		u32 f = 0;
		for (int s = 0; s < 8; s++) { u32 e = (s == 0 ? ((r & 1) << 5 | r >> 27) : s == 7 ? (r << 1 | r >> 31) : r >> (27 - 4 * s)) & 63; f ^= DES_SP[ref_des_variant][s][e ^ k[s]]; }
		u32 t = l ^ f; l = r; r = t;
	}
	return des_perm((u64)r << 32 | l, true);
}
static void des_block(const DesSt *s, int c, const u8 *in, u8 *out, bool dec) {
	u64 x = 0;
	for (int i = 0; i < 8; i++) x = x << 8 | in[i];
	if (c == C_DES) x = des_run(&s->k[0], x, dec);
	else for (int i = 0; i < 3; i++) x = des_run(&s->k[dec ? 2 - i : i], x, dec != (i == 1));
	for (int i = 7; i >= 0; i--) { out[i] = (u8)x; x >>= 8; }
}
struct AriaSt { EVP_CIPHER_CTX *e, *d; };
static const EVP_CIPHER *aria_evp(int c) { return c == C_ARIA128 ? EVP_aria_128_ecb() : c == C_ARIA192 ? EVP_aria_192_ecb() : EVP_aria_256_ecb(); }

RefBlock::RefBlock(int cipher, const Bytes &key) : c(cipher) {
	switch (c) {
	case C_AES128: case C_AES192: case C_AES256: {
		auto *s = new AesSt; AES_set_encrypt_key(key.data(), cipher_keylen(c) * 8, &s->e); AES_set_decrypt_key(key.data(), cipher_keylen(c) * 8, &s->d); st = s; break; }
	case C_DES: case C_EDE2: case C_EDE3: {
		auto *s = new DesSt;
		for (int i = 0; i < 3; i++) { int o = c == C_DES ? 0 : c == C_EDE2 ? (i == 1 ? 8 : 0) : i * 8; des_key(&s->k[i], key.data() + o); }
		st = s; break; }
	case C_SEED: { auto *s = new SEED_KEY_SCHEDULE; SEED_set_key(key.data(), s); st = s; break; }
	case C_ARIA128: case C_ARIA192: case C_ARIA256: {
		auto *s = new AriaSt; s->e = EVP_CIPHER_CTX_new(); s->d = EVP_CIPHER_CTX_new();
		EVP_EncryptInit_ex(s->e, aria_evp(c), 0, key.data(), 0); EVP_CIPHER_CTX_set_padding(s->e, 0);
		EVP_DecryptInit_ex(s->d, aria_evp(c), 0, key.data(), 0); EVP_CIPHER_CTX_set_padding(s->d, 0);
		st = s; break; }
	case C_BF: { auto *s = new BF_KEY; BF_set_key(s, (int)(key.size() > 72 ? 72 : key.size()), key.data()); st = s; break; }
	}
}
RefBlock::~RefBlock() {
	switch (c) {
	case C_AES128: case C_AES192: case C_AES256: delete (AesSt *)st; break;
	case C_DES: case C_EDE2: case C_EDE3: delete (DesSt *)st; break;
	case C_SEED: delete (SEED_KEY_SCHEDULE *)st; break;
	case C_ARIA128: case C_ARIA192: case C_ARIA256: { auto *s = (AriaSt *)st; EVP_CIPHER_CTX_free(s->e); EVP_CIPHER_CTX_free(s->d); delete s; break; }
	case C_BF: delete (BF_KEY *)st; break;
	}
}
static void bf_one(BF_KEY *k, const u8 *in, u8 *out, int enc) { BF_ecb_encrypt(in, out, k, enc ? BF_ENCRYPT : BF_DECRYPT); }
void RefBlock::enc(const u8 *in, u8 *out) {
	switch (c) {
	case C_AES128: case C_AES192: case C_AES256: AES_encrypt(in, out, &((AesSt *)st)->e); break;
	case C_DES: case C_EDE2: case C_EDE3: des_block((DesSt *)st, c, in, out, false); break;
	case C_SEED: SEED_encrypt(in, out, (SEED_KEY_SCHEDULE *)st); break;
	case C_ARIA128: case C_ARIA192: case C_ARIA256: { int n = 0; EVP_EncryptUpdate(((AriaSt *)st)->e, out, &n, in, 16); break; }
	case C_BF: bf_one((BF_KEY *)st, in, out, 1); break;
	}
}
void RefBlock::dec(const u8 *in, u8 *out) {
	switch (c) {
	case C_AES128: case C_AES192: case C_AES256: AES_decrypt(in, out, &((AesSt *)st)->d); break;
	case C_DES: case C_EDE2: case C_EDE3: des_block((DesSt *)st, c, in, out, true); break;
	case C_SEED: SEED_decrypt(in, out, (SEED_KEY_SCHEDULE *)st); break;
	case C_ARIA128: case C_ARIA192: case C_ARIA256: { int n = 0; EVP_DecryptUpdate(((AriaSt *)st)->d, out, &n, in, 16); break; }
	case C_BF: bf_one((BF_KEY *)st, in, out, 0); break;
	}
}
RefCipher::RefCipher(int cipher, int m, const Bytes &key) : c(cipher), mode(m), bs(cipher_block(cipher)), blk(cipher, key), iv(cipher_block(cipher), 0) {}
void RefCipher::block(bool dec, const u8 *in, u8 *out) {
	u8 t[16], s[16];
	memcpy(s, in, bs);
	switch (mode) {
	case M_ECB: dec ? blk.dec(s, out) : blk.enc(s, out); break;
	case M_CBC:
		if (!dec) { for (int i = 0; i < bs; i++) t[i] = s[i] ^ iv[i]; blk.enc(t, out); memcpy(iv.data(), out, bs); }
		else { blk.dec(s, t); for (int i = 0; i < bs; i++) out[i] = t[i] ^ iv[i]; memcpy(iv.data(), s, bs); }
		break;
	case M_CFB:
		blk.enc(iv.data(), t);
		for (int i = 0; i < bs; i++) out[i] = t[i] ^ s[i];
		memcpy(iv.data(), dec ? s : out, bs);
		break;
	case M_OFB:
		blk.enc(iv.data(), t);
		memcpy(iv.data(), t, bs);
		for (int i = 0; i < bs; i++) out[i] = t[i] ^ s[i];
		break;
	}
}
Bytes RefCipher::update(bool dec, const u8 *p, size_t n) {
	pend.insert(pend.end(), p, p + n);
	size_t k = pend.size() / bs * bs;
	Bytes out(k);
	for (size_t i = 0; i < k; i += bs) block(dec, &pend[i], &out[i]);
	pend.erase(pend.begin(), pend.begin() + k);
	return out;
}
Bytes RefCipher::final(bool dec, const u8 *p, size_t n, int pad) {
	Bytes out = update(dec, p, n);
	if (!dec) {
		if (pad == PAD_NONE || (pad == PAD_ZERO && pend.empty())) { pend.clear(); return out; }
		size_t fill = bs - pend.size();
		Bytes last = pend;
		last.resize(bs, pad == PAD_PKCS7 ? (u8)fill : 0);
		pend.clear();
		Bytes o(bs);
		block(false, last.data(), o.data());
		out.insert(out.end(), o.begin(), o.end());
		return out;
	}
	pend.clear();
	if (pad == PAD_PKCS7 && !out.empty()) {
		size_t v = out.back();
		if (v >= 1 && v <= (size_t)bs) {
			bool ok = true;
			for (size_t i = 0; i < v; i++) if (out[out.size() - 1 - i] != v) ok = false;
			if (ok) out.resize(out.size() - v);
		}
	}
	return out;
}
RefRc4::RefRc4(const Bytes &key) {
	for (int i = 0; i < 256; i++) S[i] = (u8)i;
	for (int i = 0, j = 0; i < 256; i++) { j = (j + S[i] + key[i % key.size()]) & 255; std::swap(S[i], S[j]); }
}
Bytes RefRc4::run(const u8 *p, size_t n) {
	Bytes o(n);
	for (size_t i = 0; i < n; i++) { x = (x + 1) & 255; y = (y + S[x]) & 255; std::swap(S[x], S[y]); o[i] = p[i] ^ S[(S[x] + S[y]) & 255]; }
	return o;
}

// ---------------------------------------------------------------- digests
static const u8 MD2_S[256] = {
41,46,67,201,162,216,124,1,61,54,84,161,236,240,6,19,98,167,5,243,192,199,115,140,152,147,43,217,188,76,130,202,30,155,87,60,253,212,224,22,103,66,111,24,138,23,229,18,190,78,196,214,218,158,222,73,160,251,245,142,187,47,238,122,169,104,121,145,21,178,7,63,148,194,16,137,11,34,95,33,128,127,93,154,90,144,50,39,53,62,204,231,191,247,151,3,255,25,48,179,72,165,181,209,215,94,146,42,172,86,170,198,79,184,56,210,150,164,125,182,118,252,107,226,156,116,4,241,69,157,112,89,100,113,135,32,134,91,207,101,230,45,168,2,27,96,37,173,174,176,185,246,28,70,97,105,52,64,126,15,85,71,163,35,221,81,175,58,195,92,249,206,186,197,234,38,44,83,13,110,133,40,132,9,211,223,205,244,65,129,77,82,106,220,55,200,108,193,171,250,36,225,123,8,12,189,177,74,120,136,149,139,227,99,232,109,233,203,213,254,59,0,29,57,242,239,183,14,102,88,208,228,166,119,114,248,235,117,75,10,49,68,80,180,143,237,31,26,219,153,141,51,159,17,131,20};
struct Md2St { u8 x[16], c[16], b[16]; size_t n; };
static void md2_block(Md2St *s, const u8 *m) {
	u8 X[48];
	memcpy(X, s->x, 16); memcpy(X + 16, m, 16);
	for (int i = 0; i < 16; i++) X[32 + i] = X[i] ^ X[16 + i];
	u8 L = s->c[15];
	for (int i = 0; i < 16; i++) L = s->c[i] ^= MD2_S[m[i] ^ L];
	unsigned t = 0;
	for (int r = 0; r < 18; r++) { for (int i = 0; i < 48; i++) t = X[i] ^= MD2_S[t]; t = (t + r) & 255; }
	memcpy(s->x, X, 16);
}
struct HasSt { u32 h[5]; u8 b[64]; u64 n; };
static inline u32 rotl(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
// HAS-160 per TTAS.KO-12.0011/R1: message word order tables written out
static void has_block(HasSt *s, const u8 *m) {
	static const u8 ord[4][20] = {
		{18, 0, 1, 2, 3, 19, 4, 5, 6, 7, 16, 8, 9, 10, 11, 17, 12, 13, 14, 15},
		{18, 3, 6, 9, 12, 19, 15, 2, 5, 8, 16, 11, 14, 1, 4, 17, 7, 10, 13, 0},
		{18, 12, 5, 14, 7, 19, 0, 9, 2, 11, 16, 4, 13, 6, 15, 17, 8, 1, 10, 3},
		{18, 7, 2, 13, 8, 19, 3, 14, 9, 4, 16, 15, 10, 5, 0, 17, 11, 6, 1, 12}};
	static const int rot1[20] = {5, 11, 7, 15, 6, 13, 8, 14, 7, 12, 9, 11, 8, 15, 6, 12, 9, 14, 5, 13};
	static const int rot2[4] = {10, 17, 25, 30};
	static const u32 K[4] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc};
	u32 X[20];
	for (int i = 0; i < 16; i++) X[i] = m[4 * i] | m[4 * i + 1] << 8 | m[4 * i + 2] << 16 | (u32)m[4 * i + 3] << 24;
	u32 a = s->h[0], b = s->h[1], c = s->h[2], d = s->h[3], e = s->h[4];
	for (int r = 0; r < 4; r++) {
		// steps 0, 5, 10, 15 take the XOR of the four message words of the third, fourth, first and second group
		u32 W[20];
		for (int i = 0; i < 20; i++) W[i] = X[ord[r][i]];
		W[0] = X[ord[r][11]] ^ X[ord[r][12]] ^ X[ord[r][13]] ^ X[ord[r][14]];
		W[5] = X[ord[r][16]] ^ X[ord[r][17]] ^ X[ord[r][18]] ^ X[ord[r][19]];
		W[10] = X[ord[r][1]] ^ X[ord[r][2]] ^ X[ord[r][3]] ^ X[ord[r][4]];
		W[15] = X[ord[r][6]] ^ X[ord[r][7]] ^ X[ord[r][8]] ^ X[ord[r][9]];
		for (int i = 0; i < 20; i++) {
			u32 f = r == 0 ? ((b & c) | (~b & d)) : r == 2 ? (c ^ (b | ~d)) : (b ^ c ^ d);
			u32 t = rotl(a, rot1[i]) + f + e + W[i] + K[r];
			e = d; d = c; c = rotl(b, rot2[r]); b = a; a = t;
		}
	}
	s->h[0] += a; s->h[1] += b; s->h[2] += c; s->h[3] += d; s->h[4] += e;
}
static const EVP_MD *evp_md(int d) {
	switch (d) {
	case D_MD5: return EVP_md5(); case D_SHA1: return EVP_sha1(); case D_SHA224: return EVP_sha224(); case D_SHA256: return EVP_sha256();
	case D_SHA384: return EVP_sha384(); case D_SHA512: return EVP_sha512(); case D_SHA512_224: return EVP_sha512_224(); case D_SHA512_256: return EVP_sha512_256();
	}
	return nullptr;
}
RefDigest::RefDigest(int d_) : d(d_) {
	if (d == D_MD2) { auto *s = new Md2St; memset(s, 0, sizeof *s); st = s; }
	else if (d == D_HAS160) { auto *s = new HasSt; memset(s, 0, sizeof *s); u32 h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; memcpy(s->h, h, 20); st = s; }
	else if (d == D_MD4) { auto *s = new MD4_CTX; MD4_Init(s); st = s; }
	else { EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, evp_md(d), 0); st = c; }
}
RefDigest::RefDigest(const RefDigest &o) : d(o.d) {
	if (d == D_MD2) st = new Md2St(*(Md2St *)o.st);
	else if (d == D_HAS160) st = new HasSt(*(HasSt *)o.st);
	else if (d == D_MD4) st = new MD4_CTX(*(MD4_CTX *)o.st);
	else { EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_MD_CTX_copy_ex(c, (EVP_MD_CTX *)o.st); st = c; }
}
RefDigest::~RefDigest() {
	if (d == D_MD2) delete (Md2St *)st; else if (d == D_HAS160) delete (HasSt *)st; else if (d == D_MD4) delete (MD4_CTX *)st; else EVP_MD_CTX_free((EVP_MD_CTX *)st);
}
void RefDigest::update(const u8 *p, size_t n) {
	if (d == D_MD2) { auto *s = (Md2St *)st; for (size_t i = 0; i < n; i++) { s->b[s->n++] = p[i]; if (s->n == 16) { md2_block(s, s->b); s->n = 0; } } }
	else if (d == D_HAS160) {
		auto *s = (HasSt *)st;
		while (n) {
			size_t f = s->n & 63;
			if (f == 0 && n >= 64) { has_block(s, p); p += 64; n -= 64; s->n += 64; continue; }
			size_t k = 64 - f < n ? 64 - f : n;
			memcpy(s->b + f, p, k); s->n += k; p += k; n -= k;
			if ((s->n & 63) == 0) has_block(s, s->b);
		}
	}
	else if (d == D_MD4) MD4_Update((MD4_CTX *)st, p, n);
	else EVP_DigestUpdate((EVP_MD_CTX *)st, p, n);
}
Bytes RefDigest::final() const {
	Bytes o(64);
	if (d == D_MD2) {
		Md2St s = *(Md2St *)st; u8 padv = (u8)(16 - s.n);
		while (s.n < 16) s.b[s.n++] = padv;
		md2_block(&s, s.b); u8 c[16]; memcpy(c, s.c, 16); md2_block(&s, c);
		return Bytes(s.x, s.x + 16);
	}
	if (d == D_HAS160) {
		HasSt s = *(HasSt *)st; u64 bits = s.n * 8; size_t f = s.n & 63;
		s.b[f++] = 0x80;
		if (f > 56) { memset(s.b + f, 0, 64 - f); has_block(&s, s.b); f = 0; }
		memset(s.b + f, 0, 56 - f);
		for (int i = 0; i < 8; i++) s.b[56 + i] = (u8)(bits >> (8 * i));
		has_block(&s, s.b);
		Bytes r;
		for (int i = 0; i < 5; i++) for (int j = 0; j < 4; j++) r.push_back((u8)(s.h[i] >> (8 * j)));
		return r;
	}
	if (d == D_MD4) { MD4_CTX s = *(MD4_CTX *)st; MD4_Final(o.data(), &s); o.resize(16); return o; }
	EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_MD_CTX_copy_ex(c, (EVP_MD_CTX *)st);
	unsigned n = 0; EVP_DigestFinal_ex(c, o.data(), &n); EVP_MD_CTX_free(c); o.resize(n);
	return o;
}

// ---------------------------------------------------------------- integers
Bytes Z::be() const { size_t n = (mpz_sizeinbase(v, 2) + 7) / 8; Bytes b(n); size_t k = 0; if (mpz_sgn(v) == 0) return Bytes(); mpz_export(b.data(), &k, 1, 1, 1, 0, v); b.resize(k); return b; }
Bytes Z::be_fixed(size_t n) const { Bytes b = be(); if (b.size() < n) b.insert(b.begin(), n - b.size(), 0); return b; }
string Z::hex() const { char *s = mpz_get_str(nullptr, 16, v); string r = s; free(s); return r; }
Z zpowm(const Z &b, const Z &e, const Z &m) { Z r; mpz_powm(r.v, b.v, e.v, m.v); return r; }
Z zinv(const Z &a, const Z &m) { Z r; if (!mpz_invert(r.v, a.v, m.v)) mpz_set_si(r.v, -1); return r; }
bool zprime(const Z &a) { return mpz_probab_prime_p(a.v, 30) > 0; }
Z zedge_bits(u64 seed, int bits) {
	if (bits < 1) bits = 1;
	Rng r(seed); int nb = (bits + 7) / 8 + 8; Bytes b; bool w32 = r.pct(50);
	if (r.pct(30)) return zrand_bits(seed, bits, true);
	if (r.pct(15)) { Z t(1); mpz_mul_2exp(t.v, t.v, bits); return t - Z(1); }
	while ((int)b.size() < nb) {
		size_t w = w32 ? 4 : 8, n = w * (r.pct(70) ? 1 : (size_t)r.range(1, 4)); u64 v; int k = (int)r.below(7);
		switch (k) { case 0: v = 0; break; case 1: v = ~0ull; break; case 2: v = 1; break; case 3: v = 1ull << (8 * w - 1); break; case 4: v = (1ull << (8 * w - 1)) - 1; break; case 5: v = ~0ull - r.below(4); break; default: v = r.next(); }
		for (size_t i = 0; i < n; i++) b.insert(b.begin(), (u8)(v >> (8 * (i % w))));
	}
	Z z = Z::from_be(b);
	mpz_fdiv_r_2exp(z.v, z.v, bits);
	mpz_setbit(z.v, bits - 1);
	return z;
}
Z zrand_bits(u64 seed, int bits, bool top) {
	if (bits < 1) bits = 1;
	Rng r(seed); int nb = (bits + 7) / 8; Bytes b(nb);
	for (auto &x : b) x = (u8)r.next();
	Z z = Z::from_be(b);
	mpz_fdiv_r_2exp(z.v, z.v, bits);
	if (top && bits) mpz_setbit(z.v, bits - 1);
	return z;
}
Z zrand_below(u64 seed, const Z &n) { Z z = zrand_bits(seed, n.bits() + 64, false); return z % n; }
Z zprime_bits(u64 seed, int bits) {
	if (bits < 2) bits = 2;
	for (u64 k = 0;; k++) { Z z = zrand_bits(mix(seed, k), bits, true); mpz_setbit(z.v, 0); if (bits > 2) { mpz_sub_ui(z.v, z.v, 2); } mpz_nextprime(z.v, z.v); if (z.bits() == bits) return z; }
}

bool RefKey::consistent(string *why) const {
	auto no = [&](const char *w) { if (why) *why = w; return false; };
	if (!(e < n)) return no("e>=n");
	if (!priv) return true;
	if (mpz_cmp_ui(p.v, 2) < 0 || mpz_cmp_ui(q.v, 2) < 0) return no("p,q<2");
	if (p * q != n) return no("n!=pq");
	if (!zprime(p)) return no("p composite");
	if (!zprime(q)) return no("q composite");
	Z p1 = p - Z(1), q1 = q - Z(1), one(1);
	if (mpz_cmp_ui(p1.v, 1) <= 0 || mpz_cmp_ui(q1.v, 1) <= 0) return no("p,q==2");
	if ((e * d) % p1 != one || (e * d) % q1 != one) return no("ed!=1");
	if (dp != d % p1) return no("dp");
	if (dq != d % q1) return no("dq");
	if (qi != zinv(q % p, p)) return no("qinv");
	return true;
}
struct KeySpec { int pb, qb; long e; bool edge; };   // edge: primes next to powers of two, so that words of the modulus are all ones or zero
static const KeySpec KS[] = {
	{128, 128, 65537}, {256, 256, 65537}, {64, 64, 65537}, {128, 128, 3}, {192, 192, 17}, {96, 160, 65537}, {65, 64, 65537}, {127, 128, 257},
	{160, 96, 5}, {512, 512, 65537}, {129, 127, 65537}, {33, 32, 65537}, {256, 255, 3}, {72, 72, 65537}, {100, 92, 37}, {300, 212, 65537},
	{256, 256, 0x10001}, {63, 65, 3}, {80, 80, 0}, {128, 128, 0},
	{128, 128, 65537, true}, {64, 64, 3, true}, {64, 65, 65537, true}, {96, 96, 17, true}, {128, 64, 0, true}, {192, 192, 65537, true}, {256, 256, 3, true}, {512, 512, 65537, true},
};
// a prime just below 2^bits (high) or just above 2^(bits-1), the skip-th start from there
static Z zprime_edge(int bits, bool high, u64 skip) {
	Z z, one(1);
	mpz_mul_2exp(z.v, one.v, high ? bits : bits - 1);
	if (!high) { mpz_add_ui(z.v, z.v, skip * 1000); mpz_nextprime(z.v, z.v); return z; }
	mpz_sub_ui(z.v, z.v, skip * 1000);
	do mpz_sub_ui(z.v, z.v, 1); while (!zprime(z));
	return z;
}
int ref_key_count() { return (int)(sizeof KS / sizeof KS[0]) * 4; }
static RefKey make_key(int keyid) {
	const KeySpec &s = KS[(keyid / 4) % (sizeof KS / sizeof KS[0])];
	for (u64 k = 0;; k++) {
		RefKey r;
		u64 sd = mix(mix(0xbadc0de, keyid), k);
		if (s.edge) {
			r.p = zprime_edge(s.pb, keyid & 1, k);
			r.q = zprime_edge(s.qb, keyid & 2, k + (s.pb == s.qb));
		} else {
			r.p = zprime_bits(mix(sd, 1), s.pb);
			r.q = zprime_bits(mix(sd, 2), s.qb);
		}
		if (r.p == r.q) continue;
		r.n = r.p * r.q;
		Z p1 = r.p - Z(1), q1 = r.q - Z(1), phi = p1 * q1;
		if (s.e == 0) { r.e = zrand_bits(mix(sd, 3), phi.bits() - 3, true); mpz_setbit(r.e.v, 0); }
		else r.e = Z(s.e);
		r.d = zinv(r.e, phi);
		if (mpz_sgn(r.d.v) < 0) continue;
		r.dp = r.d % p1; r.dq = r.d % q1; r.qi = zinv(r.q % r.p, r.p);
		// keyid%4==3: ask for a component with a leading zero byte now and then
		if (!s.edge && keyid % 4 == 3 && k < 400 && (r.dp.bits() + 7) / 8 == (r.p.bits() + 7) / 8 && (r.qi.bits() + 7) / 8 == (r.p.bits() + 7) / 8) continue;
		return r;
	}
}
static std::map<int, RefKey> g_keys, g_keysl;
const RefKey &ref_key(int id) {
	id = ((id % ref_key_count()) + ref_key_count()) % ref_key_count();
	auto it = g_keys.find(id);
	if (it == g_keys.end()) it = g_keys.emplace(id, make_key(id)).first;
	return it->second;
}
const RefKey &ref_key_lambda(int id) {
	id = ((id % ref_key_count()) + ref_key_count()) % ref_key_count();
	auto it = g_keysl.find(id);
	if (it == g_keysl.end()) {
		RefKey r = ref_key(id);
		Z p1 = r.p - Z(1), q1 = r.q - Z(1), l;
		mpz_lcm(l.v, p1.v, q1.v);
		r.d = zinv(r.e % l, l); r.dp = r.d % p1; r.dq = r.d % q1;
		it = g_keysl.emplace(id, r).first;
	}
	return it->second;
}

// ---------------------------------------------------------------- DER
static void app(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
Bytes der_len(size_t n) {
	Bytes b;
	if (n < 128) { b.push_back((u8)n); return b; }
	Bytes t; while (n) { t.insert(t.begin(), (u8)n); n >>= 8; }
	b.push_back((u8)(0x80 | t.size())); app(b, t); return b;
}
Bytes der_tlv(u8 tag, const Bytes &v) { Bytes b{tag}; app(b, der_len(v.size())); app(b, v); return b; }
Bytes der_int(const Z &z) { Bytes v = z.be(); if (v.empty() || (v[0] & 0x80)) v.insert(v.begin(), 0); return der_tlv(2, v); }
Bytes der_pub_pkcs1(const RefKey &k) { Bytes v; app(v, der_int(k.n)); app(v, der_int(k.e)); return der_tlv(0x30, v); }
Bytes der_priv_pkcs1(const RefKey &k) {
	Bytes v{2, 1, 0};
	for (const Z *z : {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qi}) app(v, der_int(*z));
	return der_tlv(0x30, v);
}
static const Bytes ALG{0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00};
Bytes der_pub_spki(const RefKey &k) { Bytes bs{0}; app(bs, der_pub_pkcs1(k)); Bytes v = ALG; app(v, der_tlv(3, bs)); return der_tlv(0x30, v); }
Bytes der_priv_pkcs8(const RefKey &k) { Bytes v{2, 1, 0}; app(v, ALG); app(v, der_tlv(4, der_priv_pkcs1(k))); return der_tlv(0x30, v); }

// strict DER reader for exported keys
struct Rd {
	const u8 *p; size_t n; bool ok = true;
	Bytes tlv(u8 tag) {
		if (n < 2 || p[0] != tag) { ok = false; return {}; }
		size_t l = p[1], h = 2;
		if (l & 0x80) { size_t k = l & 0x7f; if (k == 0 || k > 4 || n < 2 + k) { ok = false; return {}; } l = 0; for (size_t i = 0; i < k; i++) l = l << 8 | p[2 + i]; h += k; if (l < 128 || (k > 1 && p[2] == 0)) ok = false; }
		if (n - h < l) { ok = false; return {}; }
		Bytes v(p + h, p + h + l); p += h + l; n -= h + l; return v;
	}
	Z integer() { Bytes v = tlv(2); if (!ok || v.empty() || (v[0] & 0x80) || (v.size() > 1 && v[0] == 0 && !(v[1] & 0x80))) { ok = false; return Z(); } return Z::from_be(v); }
};
bool der_parse_priv_pkcs8(const Bytes &b, RefKey &k) {
	Rd a{b.data(), b.size()}; Bytes s = a.tlv(0x30); if (!a.ok || a.n) return false;
	Rd r{s.data(), s.size()}; Z ver = r.integer(); Bytes alg = r.tlv(0x30); Bytes oct = r.tlv(4); if (!r.ok || r.n || mpz_sgn(ver.v)) return false;
	if (alg != Bytes(ALG.begin() + 2, ALG.end())) return false;
	Rd o{oct.data(), oct.size()}; Bytes seq = o.tlv(0x30); if (!o.ok || o.n) return false;
	Rd q{seq.data(), seq.size()}; Z v = q.integer();
	k.n = q.integer(); k.e = q.integer(); k.d = q.integer(); k.p = q.integer(); k.q = q.integer(); k.dp = q.integer(); k.dq = q.integer(); k.qi = q.integer();
	k.priv = true;
	return q.ok && q.n == 0 && mpz_sgn(v.v) == 0;
}
bool der_parse_pub_spki(const Bytes &b, RefKey &k) {
	Rd a{b.data(), b.size()}; Bytes s = a.tlv(0x30); if (!a.ok || a.n) return false;
	Rd r{s.data(), s.size()}; Bytes alg = r.tlv(0x30); Bytes bs = r.tlv(3); if (!r.ok || r.n || bs.size() < 2 || bs[0]) return false;
	if (alg != Bytes(ALG.begin() + 2, ALG.end())) return false;
	Rd o{bs.data() + 1, bs.size() - 1}; Bytes seq = o.tlv(0x30); if (!o.ok || o.n) return false;
	Rd q{seq.data(), seq.size()}; k.n = q.integer(); k.e = q.integer(); k.priv = false;
	return q.ok && q.n == 0;
}

// The model's own code against libcrypto and published vectors.
string ref_selftest() {
	int sv = ref_des_variant; ref_des_variant = 0;
	string bad;
	for (int t = 0; t < 200; t++) for (int c : {C_DES, C_EDE2, C_EDE3}) {
		Bytes key = gen_bytes(100 + t, cipher_keylen(c)), in = gen_bytes(400 + t, 8), o(8), b(8), w(8);
		RefBlock r(c, key); r.enc(in.data(), o.data()); r.dec(o.data(), b.data());
		DES_key_schedule k[3];
		for (int i = 0; i < 3; i++) { DES_cblock kb; memcpy(kb, key.data() + (c == C_DES ? 0 : c == C_EDE2 ? (i == 1 ? 8 : 0) : i * 8), 8); DES_set_key_unchecked(&kb, &k[i]); }
		if (c == C_DES) DES_ecb_encrypt((const_DES_cblock *)in.data(), (DES_cblock *)w.data(), &k[0], DES_ENCRYPT);
		else DES_ecb3_encrypt((const_DES_cblock *)in.data(), (DES_cblock *)w.data(), &k[0], &k[1], &k[2], DES_ENCRYPT);
		if (o != w || b != in) bad = "DES model differs from libcrypto";
	}
	ref_des_variant = sv;
	static const struct { int d; const char *in, *out; } V[] = {
		{D_MD2, "", "8350e5a3e24c153df2275c9f80692773"}, {D_MD2, "abc", "da853b0d3f88d99b30283a69e6ded6bb"},
		{D_MD2, "12345678901234567890123456789012345678901234567890123456789012345678901234567890", "d5976f79d83d3a0dc9806c3c66f3efd8"},
		{D_MD4, "abc", "a448017aaf21d8525fc10ae87aa6729d"},
		{D_HAS160, "", "307964ef34151d37c8047adec7ab50f4ff89762d"}, {D_HAS160, "abc", "975e810488cf2a3d49838478124afce4b1c78804"},
		{D_HAS160, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", "cb5d7efbca2f02e0fb7167cabb123af5795764e5"}};
	for (auto &v : V) {
		RefDigest d(v.d); d.update((const u8 *)v.in, strlen(v.in));
		string h; for (u8 x : d.final()) { char t[3]; snprintf(t, 3, "%02x", x); h += t; }
		if (h != v.out) bad = string(digest_name(v.d)) + " model: " + h + " instead of " + v.out;
	}
	return bad;
}
