// Independent reference models (libcrypto, GMP and small own code). Never calls the library under test.
#pragma once
#include "sim.h"
#include <gmp.h>

enum { C_AES128, C_AES192, C_AES256, C_DES, C_EDE2, C_EDE3, C_SEED, C_ARIA128, C_ARIA192, C_ARIA256, C_BF, C_NBLOCK, C_RC4 = C_NBLOCK, C_NCIPHER };
enum { M_ECB, M_CBC, M_CFB, M_OFB };
enum { PAD_NONE, PAD_ZERO, PAD_PKCS7 };
enum { D_MD2, D_MD4, D_MD5, D_SHA1, D_SHA224, D_SHA256, D_SHA384, D_SHA512, D_SHA512_224, D_SHA512_256, D_HAS160, D_N };

int cipher_block(int c);
int cipher_keylen(int c);
const char *cipher_name(int c);
const char *digest_name(int d);
int digest_len(int d);

extern int ref_des_variant;
struct RefBlock {           // single-block permutation
	int c;
	void *st = nullptr;
	RefBlock(int cipher, const Bytes &key);
	~RefBlock();
	void enc(const u8 *in, u8 *out);
	void dec(const u8 *in, u8 *out);
	RefBlock(const RefBlock &) = delete;
};
struct RefCipher {          // streaming model of one context
	int c, mode, bs;
	RefBlock blk;
	Bytes iv, pend;
	RefCipher(int cipher, int mode, const Bytes &key);
	void set_iv(const Bytes &v) { iv = v; pend.clear(); }
	Bytes update(bool dec, const u8 *p, size_t n);
	Bytes final(bool dec, const u8 *p, size_t n, int pad);
	void block(bool dec, const u8 *in, u8 *out);
};
struct RefRc4 { u8 S[256]; int x = 0, y = 0; RefRc4(const Bytes &key); Bytes run(const u8 *p, size_t n); };

struct RefDigest {          // incremental
	int d; void *st = nullptr; Bytes buf;
	explicit RefDigest(int d);
	RefDigest(const RefDigest &o);
	RefDigest &operator=(const RefDigest &) = delete;
	~RefDigest();
	void update(const u8 *p, size_t n);
	Bytes final() const;     // does not disturb the state
};

struct Z {                  // integer
	mpz_t v;
	Z() { mpz_init(v); }
	Z(long x) { mpz_init_set_si(v, x); }
	Z(const Z &o) { mpz_init_set(v, o.v); }
	Z &operator=(const Z &o) { mpz_set(v, o.v); return *this; }
	~Z() { mpz_clear(v); }
	static Z from_be(const u8 *p, size_t n) { Z z; mpz_import(z.v, n, 1, 1, 1, 0, p); return z; }
	static Z from_be(const Bytes &b) { return from_be(b.data(), b.size()); }
	Bytes be() const;         // minimal big-endian, empty for 0
	Bytes be_fixed(size_t n) const;
	int bits() const { return mpz_sgn(v) ? (int)mpz_sizeinbase(v, 2) : 0; }
	bool odd() const { return mpz_odd_p(v); }
	string hex() const;
};
inline Z operator+(const Z &a, const Z &b) { Z r; mpz_add(r.v, a.v, b.v); return r; }
inline Z operator-(const Z &a, const Z &b) { Z r; mpz_sub(r.v, a.v, b.v); return r; }
inline Z operator*(const Z &a, const Z &b) { Z r; mpz_mul(r.v, a.v, b.v); return r; }
inline Z operator%(const Z &a, const Z &b) { Z r; mpz_mod(r.v, a.v, b.v); return r; }
inline bool operator==(const Z &a, const Z &b) { return mpz_cmp(a.v, b.v) == 0; }
inline bool operator!=(const Z &a, const Z &b) { return mpz_cmp(a.v, b.v) != 0; }
inline bool operator<(const Z &a, const Z &b) { return mpz_cmp(a.v, b.v) < 0; }
inline bool operator>=(const Z &a, const Z &b) { return mpz_cmp(a.v, b.v) >= 0; }
Z zpowm(const Z &b, const Z &e, const Z &m);
Z zinv(const Z &a, const Z &m);
bool zprime(const Z &a);
Z zrand_bits(u64 seed, int bits, bool top);
Z zedge_bits(u64 seed, int bits);
Z zrand_below(u64 seed, const Z &n);
Z zprime_bits(u64 seed, int bits);     // random prime with exactly that many bits

struct RefKey { Z n, e, d, p, q, dp, dq, qi; bool priv = true; bool consistent(string *why = nullptr) const; };
const RefKey &ref_key(int keyid);       // deterministic table of sound keys
int ref_key_count();
const RefKey &ref_key_lambda(int keyid); // same key with d reduced modulo lcm(p-1,q-1)

// DER
Bytes der_len(size_t n);
Bytes der_tlv(u8 tag, const Bytes &v);
Bytes der_int(const Z &z);
Bytes der_pub_pkcs1(const RefKey &k);
Bytes der_priv_pkcs1(const RefKey &k);
Bytes der_pub_spki(const RefKey &k);
Bytes der_priv_pkcs8(const RefKey &k);
bool der_parse_priv_pkcs8(const Bytes &b, RefKey &k);
bool der_parse_pub_spki(const Bytes &b, RefKey &k);
string ref_selftest();
