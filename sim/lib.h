// Uniform view of the library's public interface. Only documented calls; the
// big-number and key structures are never looked into (build variants differ).
#pragma once
#include "ref.h"
extern "C" {
#include <racrypt.h>
}

// ---- ciphers: one table entry per family
struct CipherFn {
	size_t ctx_size;
	int (*create)(int alg, const Bytes &key, int mode, void **ctx);
	void (*init)(void *ctx, int alg, const Bytes &key, int mode);
	void (*destroy)(void *ctx);
	void (*setiv)(void *ctx, const u8 *iv);
	void (*getiv)(void *ctx, u8 *iv);
	int (*enc)(void *ctx, const u8 *in, int n, u8 *out);
	int (*encf)(void *ctx, const u8 *in, int n, u8 *out, int pad);
	int (*dec)(void *ctx, const u8 *in, int n, u8 *out);
	int (*decf)(void *ctx, const u8 *in, int n, u8 *out, int pad);
};
enum { F_AES, F_DES, F_SEED, F_ARIA, F_BF, F_RC4, F_N };
int cipher_family(int alg);
const CipherFn &cipher_fn(int family);

// ---- digests
struct DigestFn {
	size_t ctx_size;
	int (*create)(int alg, void **ctx);
	void (*init)(void *ctx, int alg);
	void (*destroy)(void *ctx);
	void (*update)(void *ctx, int alg, const u8 *p, int n);
	void (*final)(void *ctx, int alg, u8 *out);
};
enum { H_MD2, H_MD4, H_MD5, H_SHA1, H_SHA2, H_HAS160, H_N };
int digest_family(int alg);
const DigestFn &digest_fn(int family);
bool digest_oneshot(int alg, const u8 *p, int n, u8 *out);   // false when the library has none

// ---- numbers; made and read with failure injection off
struct Bn {
	RaBigNumber *b = nullptr;
	explicit Bn(int bits);
	Bn(const Z &z, int extra_bits = 0);
	~Bn();
	Bn(const Bn &) = delete;
	Z get(bool *neg = nullptr) const;
};
Z bn_value(RaBigNumber *b, bool *neg = nullptr);
RaBigNumber *bn_of(const Z &z, int bits);
