// The simulated world: objects owned by one simulated thread, one interpreter
// for all operations. An operation on a missing object is a no-op, so any
// subset of a plan is again a valid plan (needed for minimisation).
#pragma once
#include "lib.h"
#include <memory>

struct Call : LibCall {      // a library call of the run itself: failures may be injected
	bool was;
	bool fin = false;
	u64 af = 0, ef = 0, st = 0;
	Call(const char *n, u64 lim = 0) : LibCall(n, lim), was(g->armed) { g->armed = true; }
	void end() { if (!fin) { af = allocs_failed(); ef = ent_failed(); st = steps(); g->armed = was; fin = true; } }
	~Call() { end(); }
	bool faulted() { end(); return af || ef; }
};

struct CSlot {
	int alg = 0, mode = 0;
	Bytes key, iv0;
	void *ctx = nullptr;
	bool owned = false;              // allocated by the library
	std::unique_ptr<Buf> store;
	std::unique_ptr<RefCipher> ref;
	std::unique_ptr<RefRc4> rc4;
	bool wild = false;               // left the specified behaviour (direction change on held-back data)
	bool msg_started = false;
	int last_dir = -1;
	u64 nops = 0;                    // data calls so far
	size_t pend() const { return ref ? ref->pend.size() : 0; }
	int bs() const { return cipher_block(alg); }
};
struct DSlot {
	int alg = 0;
	void *ctx = nullptr;
	bool owned = false, finished = false;
	std::unique_ptr<Buf> store;
	std::unique_ptr<RefDigest> ref;
};
struct RSlot {
	int alg = 0;
	struct RaRandom *ctx = nullptr;
	bool seeded = false;
	Bytes seed;
	Bytes out;                       // all bytes drawn so far
	bool mixed = false;              // integer or real draws happened
};
struct KSlot {
	RaRsaKeyPair *k = nullptr;
	RefKey ref;                      // values the key must have
	bool known = false;              // ref is what is in k
	bool hostile = false;            // accepted from damaged data: only safety is required
	int bits = 0;                    // size of the modulus as far as we know
};
struct Chan {
	int alg = 0, mode = 0, pad = -1;
	Bytes key, iv, plain, ct;
	size_t rd = 0;
	bool damaged = false, closed = false;
	size_t first_bad = ~(size_t)0;
	Bytes out;
	bool begun = false, sync = false; // receiver started in step with the sender
	int rslot = -1, sslot = -1;
	u64 rnops = 0, snops = 0;
	bool torn = false;               // the sender encrypted something that is not on this channel
	std::unique_ptr<RefRc4> rc4;     // sender's keystream state at the start
};
struct Ckpt { bool have = false; int alg = 0, mode = 0; Bytes key, iv; Bytes raw; std::unique_ptr<RefRc4> rc4; std::unique_ptr<RefDigest> dig; };

struct World {
	int task = 0;
	bool model = true;               // compare every result with the references
	bool keep = false;
	vector<string> log;
	u64 rhash = 0x1234;
	bool faulty = false;             // the result of the current op was touched by an injected failure
	std::map<int, CSlot> c;
	std::map<int, DSlot> d;
	std::map<int, RSlot> r;
	std::map<int, KSlot> k;
	std::map<int, Chan> ch;
	std::map<int, Ckpt> ck;
	u64 limit = 0;                   // step limit per call (0: default)
	bool ok = false;                 // the last operation produced its object or number
	std::map<string, u64> last_allocs;
	vector<Op> pend;                 // failures to inject into the next operation

	~World() {}
	void res(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void res_bytes(const char *tag, const Bytes &b);
	[[noreturn]] void bad(const Op &o, const char *kind, const char *fmt, ...) __attribute__((format(printf, 4, 5)));

	void exec(const Op &o);
	bool pseudo(const Op &o);
	void inject(const Op &o);
	bool exec_sym(const Op &o);
	bool exec_rsa(const Op &o);
	void cleanup();                  // destroy every object

	// symmetric
	void cdrop(CSlot &s);
	void ddrop(DSlot &s);
	void cfresh(const Op &o, CSlot &s, int alg, int mode, const Bytes &key);
	void crun(const Op &o, CSlot &s, bool dec, const Bytes &in, size_t off, bool inplace, int fin /* -1 or padding */, Bytes *out);
	// rsa
	void put_key(int slot, struct RaRsaKeyPair *k, const RefKey *ref, bool hostile);
	bool key_read(struct RaRsaKeyPair *k, RefKey &out, bool priv);   // through the export calls, nothing injected
	void hostile_use(const Op &o, KSlot &s, u64 seed);
};
int gclamp(i64 v, i64 lo, i64 hi);
Bytes cipher_key(int alg, u64 seed, int len);
const char *err_name(int rc);
RefKey key_of(i64 id);               // id >= 100000: private exponent reduced modulo lcm(p-1,q-1)
Bytes forced_number(int kind, u64 seed, int bits);
u64 prime_limit(int bits);
