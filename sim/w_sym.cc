#include <unordered_map>
#include "world.h"
#include <cstdarg>
#include <sys/mman.h>
#include <unistd.h>

int gclamp(i64 v, i64 lo, i64 hi) { return (int)(v < lo ? lo : v > hi ? hi : v); }
const char *err_name(int rc) {
	switch (rc) { case 0: return "SUCCESS"; case -1: return "DIVIDED_BY_ZERO"; case -2: return "OUT_OF_MEMORY"; case -3: return "OUT_OF_BUFFER"; case -4: return "NUMBER_SIZE"; case -5: return "INVALID_PARAM"; case -6: return "INVALID_DATA"; case -7: return "NO_ENTROPY"; }
	return "?";
}
void World::res(const char *fmt, ...) {
	char buf[400];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	ev("%s", buf);
	for (char *q = buf; *q; q++) rhash = (rhash ^ (u8)*q) * 0x100000001b3ull;
	rhash = mix64(rhash);
	if (keep) log.push_back(buf);
}
void World::res_bytes(const char *tag, const Bytes &b) {
	u64 h = 0xcbf29ce484222325ull;
	for (u8 x : b) h = (h ^ x) * 0x100000001b3ull;
	res("%s n=%zu %016llx", tag, b.size(), (unsigned long long)h);
}
void World::bad(const Op &o, const char *kind, const char *fmt, ...) {
	char buf[1200];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	violation(g->prop + ":" + o.kind + ":" + kind, "%s", buf);
}
Bytes cipher_key(int alg, u64 seed, int len) {
	int n = cipher_keylen(alg);
	if (alg == C_BF) n = gclamp(len, 1, 90);
	if (alg == C_RC4) n = gclamp(len, 1, 256);
	return gen_bytes(mix(seed, 0x6b6579) ^ g->secret, n);
}
void World::cdrop(CSlot &s) {
	if (s.ctx && s.owned) {
		LibCall L("cipher destroy");
		cipher_fn(cipher_family(s.alg)).destroy(s.ctx);
	}
	s.ctx = nullptr;
}
void World::ddrop(DSlot &s) {
	if (s.ctx && s.owned) {
		LibCall L("digest destroy");
		digest_fn(digest_family(s.alg)).destroy(s.ctx);
	}
	s.ctx = nullptr;
}
// reference side of a context that was just created or initialised
void World::cfresh(const Op &, CSlot &s, int alg, int mode, const Bytes &key) {
	s.alg = alg; s.mode = mode; s.key = key;
	s.wild = false; s.last_dir = -1; s.msg_started = false;
	s.ref.reset(); s.rc4.reset();
	if (alg == C_RC4) s.rc4.reset(new RefRc4(key));
	else { s.ref.reset(new RefCipher(alg, mode, key)); s.iv0.assign(s.bs(), 0); }
}
void World::crun(const Op &o, CSlot &s, bool dec, const Bytes &in, size_t off, bool inplace, int fin, Bytes *outp) {
	const CipherFn &fn = cipher_fn(cipher_family(s.alg));
	size_t n = in.size(), bs = s.bs();
	s.nops++;
	if (s.alg == C_RC4) fin = -1;
	else {
		if (s.pend() && s.last_dir >= 0 && s.last_dir != (int)dec) s.wild = true;
		if (s.pend()) inplace = false;
		s.last_dir = dec;
		if (!s.msg_started) { s.iv0 = s.ref->iv; s.msg_started = true; }
	}
	Bytes want, pre;
	if (s.rc4) want = s.rc4->run(in.data(), n);
	else if (fin >= 0) want = s.ref->final(dec, in.data(), n, fin);
	else want = s.ref->update(dec, in.data(), n);
	size_t cap = n + (s.alg == C_RC4 ? 0 : bs);
	if (fin >= 0 && want.size() > cap) cap = want.size();
	if (s.wild && cap < n + 2 * bs) cap = n + 2 * bs;
	std::unique_ptr<Buf> ib, ob;
	const u8 *ip;
	if (inplace) {
		ob.reset(new Buf(cap, off & 15));
		if (n) memcpy(ob->p, in.data(), n);
		ip = ob->p;
	} else {
		ib.reset(new Buf(in, off & 15));
		ob.reset(new Buf(cap, (off >> 4) & 15));
		ip = ib->p;
	}
	int rc;
	{
		Call L(fin >= 0 ? (dec ? "decrypt final" : "encrypt final") : (dec ? "decrypt" : "encrypt"), default_limit() + 2000 * (u64)n);
		if (fin >= 0) rc = dec ? fn.decf(s.ctx, ip, (int)n, ob->p, fin) : fn.encf(s.ctx, ip, (int)n, ob->p, fin);
		else rc = dec ? fn.dec(s.ctx, ip, (int)n, ob->p) : fn.enc(s.ctx, ip, (int)n, ob->p);
	}
	if (fin >= 0) { s.last_dir = -1; s.msg_started = false; }
	if (rc < 0 || (size_t)rc > cap) bad(o, "length", "%s returned %d for %zu input bytes (%s)", dec ? "decrypt" : "encrypt", rc, n, cipher_name(s.alg));
	Bytes got = ob->bytes(rc);
	if (!inplace && n && memcmp(ib->p, in.data(), n)) bad(o, "input", "the input buffer was changed");
	res_bytes(dec ? "dec" : "enc", got);
	if (model && !s.wild) {
		if (got.size() != want.size())
			bad(o, "count", "%s mode %d %s%s: returned %zu bytes, the whole-message result has %zu here (input %zu)", cipher_name(s.alg), s.mode, dec ? "decrypt" : "encrypt", fin >= 0 ? " final" : "", got.size(), want.size(), n);
		if (got != want) {
			size_t i = 0; while (got[i] == want[i]) i++;
			bad(o, "data", "%s mode %d %s%s: byte %zu of %zu differs from the whole-message result: %s instead of %s", cipher_name(s.alg), s.mode, dec ? "decrypt" : "encrypt", fin >= 0 ? " final" : "", i, got.size(), hexs(got).c_str(), hexs(want).c_str());
		}
	}
	// held-back data changed direction: nothing more is specified until the next reset
	// (finishing ends that message: what follows is a fresh context at the reported IV)
	if (s.wild && fin >= 0) {
		Buf b(bs);
		{ Call L("get IV"); fn.getiv(s.ctx, b.p); }
		s.ref->set_iv(b.bytes(bs)); s.wild = false; s.last_dir = -1; s.msg_started = false;
	}
	if (outp) *outp = got;
	count("op.cipher");
}

// n bytes of a repeating pattern; the same 4 MiB of memory mapped over and over
struct RepeatBuf {
	u8 *p = nullptr; size_t len = 0;
	RepeatBuf(size_t n, u64 seed, size_t U = 4u << 20, bool writable = false) {
		len = (n + U - 1) / U * U;
		int fd = memfd_create("pattern", 0);
		if (fd < 0) return;
		Bytes pat = gen_bytes(seed, U);
		size_t off = 0;
		while (off < U) { ssize_t k = write(fd, pat.data() + off, U - off); if (k <= 0) { close(fd); return; } off += (size_t)k; }
		u8 *b = (u8 *)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (b == (u8 *)MAP_FAILED) { close(fd); return; }
		for (size_t o = 0; o < len; o += U) if (mmap(b + o, U, writable ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(b, len); close(fd); return; }
		close(fd); p = b;
	}
	~RepeatBuf() { if (p) munmap(p, len); }
};

// the receiver is in step with the sender if it starts the message with the
// same key, mode and chaining state and sees nothing but this channel
static void chan_begin(Chan &h, CSlot &s, int slot) {
	if (!h.begun) {
		h.begun = true; h.rslot = slot; h.rnops = s.nops;
		h.sync = h.rd == 0 && s.alg == h.alg && s.mode == h.mode && s.key == h.key && !s.wild;
		if (h.sync && s.rc4) h.sync = h.rc4 && !memcmp(s.rc4->S, h.rc4->S, 256) && s.rc4->x == h.rc4->x && s.rc4->y == h.rc4->y;
		else if (h.sync) h.sync = !s.msg_started && s.ref->iv == h.iv && s.ref->pend.empty();
	}
	if (h.rslot != slot || h.rnops != s.nops) h.sync = false;
}

static Bytes raw_seed(i64 v, i64 n) {   // a literal little-endian seed, found offline
	Bytes b((size_t)gclamp(n, 1, 8)); for (size_t i = 0; i < b.size(); i++) b[i] = (u8)((u64)v >> (8 * i)); return b;
}
bool World::exec_sym(const Op &o) {
	const string &kd = o.kind;
	int slot = (int)o.arg(0);
	// ---------------------------------------------------------- ciphers
	if (kd == "cnew") {            // slot alg mode keyseed keylen [where]
		if (c.count(slot)) { cdrop(c[slot]); c.erase(slot); }
		int alg = gclamp(o.arg(1), 0, C_NCIPHER - 1), mode = (int)(o.arg(2) & 3);
		Bytes key = cipher_key(alg, (u64)o.arg(3), (int)o.arg(4, 16));
		CSlot s;
		Buf kb(key, (size_t)(o.arg(3) & 7));
		Bytes kx(kb.p, kb.p + kb.n);
		const CipherFn &fn = cipher_fn(cipher_family(alg));
		if (o.arg(5)) {             // caller-provided storage, initialised in place
			s.store.reset(new Buf(fn.ctx_size));
			s.ctx = s.store->p;
			{ Call L("cipher init"); fn.init(s.ctx, alg, key, mode); }
		} else {
			void *sent = &s, *p = sent;
			int rc; bool flt;
			{ Call L("cipher create"); rc = fn.create(alg, key, mode, &p); flt = L.faulted(); }
			res("cnew %s %s", cipher_name(alg), flt ? "faulted" : err_name(rc));
			if (rc != RA_ERR_SUCCESS) {
				if (!flt) bad(o, "refused", "create returned %s although nothing failed", err_name(rc));
				if (p != sent && p) bad(o, "halfbuilt", "create failed but stored a pointer");
				return true;
			}
			if (p == sent || !p) bad(o, "nullsuccess", "create reported success without an object");
			s.ctx = p; s.owned = true;
		}
		cfresh(o, s, alg, mode, key);
		c[slot] = std::move(s);
		count("op.cipher");
		return true;
	}
	if (kd == "cini") {            // slot algpick mode keyseed keylen : re-initialise in place (same family)
		auto it = c.find(slot); if (it == c.end()) return true;
		CSlot &s = it->second;
		int f = cipher_family(s.alg);
		vector<int> same; for (int a = 0; a < C_NCIPHER; a++) if (cipher_family(a) == f) same.push_back(a);
		int alg = same[(size_t)(o.arg(1) & 0xff) % same.size()], mode = (int)(o.arg(2) & 3);
		Bytes key = cipher_key(alg, (u64)o.arg(3), (int)o.arg(4, 16));
		{ Call L("cipher init"); cipher_fn(f).init(s.ctx, alg, key, mode); }
		cfresh(o, s, alg, mode, key);
		res("cini %s", cipher_name(alg));
		return true;
	}
	if (kd == "civ") {             // slot ivseed
		auto it = c.find(slot); if (it == c.end() || !it->second.ref) return true;
		CSlot &s = it->second;
		Bytes iv = gen_bytes(mix((u64)o.arg(1), 0x1f), s.bs());
		Buf b(iv, (size_t)(o.arg(1) & 3));
		{ Call L("set IV"); cipher_fn(cipher_family(s.alg)).setiv(s.ctx, b.p); }
		s.ref->set_iv(iv); s.wild = false; s.last_dir = -1; s.msg_started = false;
		res("civ");
		return true;
	}
	if (kd == "cgiv") {            // slot
		auto it = c.find(slot); if (it == c.end() || !it->second.ref) return true;
		CSlot &s = it->second;
		Buf b(s.bs(), (size_t)(o.arg(1) & 3));
		{ Call L("get IV"); cipher_fn(cipher_family(s.alg)).getiv(s.ctx, b.p); }
		Bytes got = b.bytes(s.bs());
		if (s.wild) return true;
		if (s.mode != M_ECB) res_bytes("iv", got);
		if (model && s.mode != M_ECB && got != s.ref->iv) bad(o, "iv", "%s mode %d: reported IV %s is not the chaining value %s", cipher_name(s.alg), s.mode, hexs(got).c_str(), hexs(s.ref->iv).c_str());
		return true;
	}
	if (kd == "cupd" || kd == "cfin") {   // slot dec n seed off inplace|pad channel
		auto it = c.find(slot); if (it == c.end()) return true;
		CSlot &s = it->second;
		bool fin = kd == "cfin", dec = o.arg(1) & 1;
		Bytes in = gen_bytes((u64)o.arg(3) ^ g->secret, (size_t)gclamp(o.arg(2), 0, 9 << 20));
		int chn = (int)o.arg(6, -1);
		bool fresh = !s.msg_started;
		Bytes iv = s.ref ? s.ref->iv : Bytes();
		Bytes out;
		if (chn >= 0 && !dec) {
			Chan &h = ch[chn];
			if (s.alg == C_RC4 ? (h.closed || h.plain.empty() || h.key != s.key) : fresh) {
				h = Chan(); h.alg = s.alg; h.mode = s.mode; h.key = s.key; h.iv = iv;
				if (s.rc4) h.rc4.reset(new RefRc4(*s.rc4));
				h.sslot = slot; h.snops = s.nops;
			}
			if (h.sslot != slot || h.snops != s.nops) h.torn = true;
		}
		crun(o, s, dec, in, (size_t)o.arg(4), fin ? false : (o.arg(5) & 1), fin ? (int)(o.arg(5) % 3 + 3) % 3 : -1, &out);
		if (chn >= 0 && !dec && !s.wild) {
			Chan &h = ch[chn];
			if (!h.closed) {
				h.plain.insert(h.plain.end(), in.begin(), in.end());
				h.ct.insert(h.ct.end(), out.begin(), out.end());
				h.snops = s.nops;
				if (fin || s.alg == C_RC4) { h.closed = fin; h.pad = (int)(o.arg(5) % 3 + 3) % 3; }
			}
		}
		return true;
	}
	if (kd == "cbig") {            // slot dec bytes seed : one very long call
		auto it = c.find(slot); if (it == c.end()) return true;
		CSlot &s = it->second;
		bool dec = o.arg(1) & 1;
		const size_t U = 1u << 20, bs = (size_t)s.bs();
		size_t held = s.pend();
		i64 n = o.arg(2);
		// the return value counts whole blocks in an int
		if (n < 0) n = 0; if (n > 0x7fffffffll - (i64)held) n = 0x7fffffffll - (i64)held;
		if (s.wild || (held && s.last_dir >= 0 && s.last_dir != (int)dec)) return true;
		// output depends on nearby input only, so a repeating input gives a repeating output
		bool local = s.ref && (s.mode == M_ECB || (dec && (s.mode == M_CBC || s.mode == M_CFB)));
		if (!local && !s.rc4 && n > (48 << 20)) n = (48 << 20) + n % 4096;
		RepeatBuf in((size_t)n + 1, (u64)o.arg(3) | 1, U), out((size_t)n + 2 * bs, (u64)o.arg(3) | 2, U, true);
		if (!in.p || !out.p) return true;
		Bytes ring(out.p, out.p + U);
		size_t made = 0;
		auto put = [&](const Bytes &b, size_t at) { for (size_t i = b.size() > U ? b.size() - U : 0; i < b.size(); i++) ring[(at + i) % U] = b[i]; };
		size_t left = (size_t)n, round = 0;
		while (left) {
			size_t k = left < U ? left : U;
			Bytes w = s.rc4 ? s.rc4->run(in.p, k) : s.ref->update(dec, in.p, k);
			put(w, made); made += w.size(); left -= k;
			if (local && ++round == 2) { made += left / U * U; left %= U; }
		}
		s.nops++;
		if (s.ref) { s.last_dir = dec; if (!s.msg_started) { s.iv0 = s.ref->iv; s.msg_started = true; } }
		const CipherFn &fn = cipher_fn(cipher_family(s.alg));
		int rc;
		{ Call L(dec ? "decrypt" : "encrypt", ~0ull >> 2); rc = dec ? fn.dec(s.ctx, in.p, (int)n, out.p) : fn.enc(s.ctx, in.p, (int)n, out.p); }
		res("cbig %d", rc);
		if (rc < 0 || (size_t)rc != made) bad(o, "count", "%s mode %d: a call with %lld bytes returned %d instead of %zu", cipher_name(s.alg), s.mode, (long long)n, rc, made);
		if (model) for (size_t i = 0; i < U; i++) if (ring[i] != out.p[i]) bad(o, "data", "%s mode %d %s: a call with %lld bytes: output differs near its end (position %zu modulo 1 MiB)", cipher_name(s.alg), s.mode, dec ? "decrypt" : "encrypt", (long long)n, i);
		count("cipher.big_bytes", (u64)n); count("op.cipher");
		return true;
	}
	if (kd == "chflip") {          // chan pos bit
		auto it = ch.find(slot); if (it == ch.end() || it->second.ct.size() <= it->second.rd) return true;
		Chan &h = it->second;
		size_t left = h.ct.size() - h.rd, p = h.rd + (size_t)((u64)o.arg(1) % left);
		h.ct[p] ^= (u8)(1 << (o.arg(2) & 7));
		h.damaged = true; if (p < h.first_bad) h.first_bad = p;
		count("fault.channel_bitflip"); g->nontrivial = true;
		res("chflip %zu", p);
		return true;
	}
	if (kd == "chcut") {           // chan bytes to drop from the end
		auto it = ch.find(slot); if (it == ch.end() || it->second.ct.size() <= it->second.rd) return true;
		Chan &h = it->second;
		size_t left = h.ct.size() - h.rd, k2 = 1 + (size_t)((u64)o.arg(1) % left);
		h.ct.resize(h.ct.size() - k2);
		h.damaged = true; if (h.ct.size() < h.first_bad) h.first_bad = h.ct.size();
		count("fault.channel_truncated"); g->nontrivial = true;
		res("chcut %zu", k2);
		return true;
	}
	if (kd == "chdup" || kd == "chswap") {   // chan block : duplicate / reorder blocks in transit
		auto it = ch.find(slot); if (it == ch.end()) return true;
		Chan &h = it->second; size_t bs = cipher_block(h.alg);
		if (bs < 2) bs = 16;
		size_t nb = (h.ct.size() - h.rd) / bs; if (nb < 2) return true;
		size_t b = h.rd + (size_t)((u64)o.arg(1) % (nb - 1)) * bs;
		if (kd == "chdup") { Bytes t(h.ct.begin() + b, h.ct.begin() + b + bs); h.ct.insert(h.ct.begin() + b + bs, t.begin(), t.end()); b += bs; count("fault.channel_duplicate"); }
		else { for (size_t i = 0; i < bs; i++) std::swap(h.ct[b + i], h.ct[b + bs + i]); count("fault.channel_reorder"); }
		h.damaged = true; if (b < h.first_bad) h.first_bad = b; g->nontrivial = true;
		res("%s", kd.c_str());
		return true;
	}
	if (kd == "crecv") {           // slot chan n off : decrypt the next n bytes of the channel
		auto it = c.find(slot); auto hi = ch.find((int)o.arg(1)); if (it == c.end() || hi == ch.end()) return true;
		Chan &h = hi->second;
		size_t n = (size_t)gclamp(o.arg(2), 0, (i64)(h.ct.size() - h.rd));
		Bytes in(h.ct.begin() + h.rd, h.ct.begin() + h.rd + n), out;
		chan_begin(h, it->second, slot);
		crun(o, it->second, true, in, (size_t)o.arg(3), o.arg(4) & 1, -1, &out);
		h.rd += n; h.rnops = it->second.nops; h.out.insert(h.out.end(), out.begin(), out.end());
		return true;
	}
	if (kd == "crecvfin") {        // slot chan off keep : hand the rest to the finishing call
		auto it = c.find(slot); auto hi = ch.find((int)o.arg(1)); if (it == c.end() || hi == ch.end()) return true;
		Chan &h = hi->second; CSlot &s = it->second;
		if (!h.closed) return true;
		Bytes in(h.ct.begin() + h.rd, h.ct.end()), out;
		size_t received = h.ct.size(), bs = (size_t)s.bs(), tail = in.size() + s.pend();
		chan_begin(h, s, slot);
		bool match = h.sync && !h.torn;
		crun(o, s, true, in, (size_t)o.arg(2), false, h.pad, &out);
		h.out.insert(h.out.end(), out.begin(), out.end());
		if (h.out.size() > received) bad(o, "toolong", "decryptor produced %zu bytes from %zu received", h.out.size(), received);
		if (match && !s.wild && s.alg != C_RC4) {
			Bytes want = h.plain;
			size_t whole = want.size() / bs * bs;
			if (h.pad == PAD_NONE) want.resize(whole);
			else if (h.pad == PAD_ZERO) want.resize((want.size() + bs - 1) / bs * bs, 0);
			bool have_end = h.pad != PAD_PKCS7 || tail >= bs;
			if (!h.damaged && have_end) {
				if (h.out != want) bad(o, "roundtrip", "%s mode %d padding %d: %zu bytes sent, decryption gives %zu bytes and differs", cipher_name(s.alg), s.mode, h.pad, h.plain.size(), h.out.size());
				count("roundtrip.exact");
			} else if (h.damaged) {
				size_t safe = h.first_bad / bs * bs, m = h.out.size() < h.plain.size() ? h.out.size() : h.plain.size();
				if (safe > m) safe = m;
				if (safe && memcmp(h.out.data(), h.plain.data(), safe)) bad(o, "prefix", "%s mode %d: bytes before the damaged region differ", cipher_name(s.alg), s.mode);
				count("roundtrip.damaged");
			}
		} else if (s.alg == C_RC4 && match && !h.damaged && true) {
			if (h.out != h.plain) bad(o, "roundtrip", "rc4 stream of %zu bytes does not decrypt back", h.plain.size());
			count("roundtrip.exact");
		}
		ch.erase(hi);
		return true;
	}
	if (kd == "cdel") {
		auto it = c.find(slot); if (it == c.end()) return true;
		cdrop(it->second); c.erase(it); res("cdel");
		return true;
	}
	if (kd == "cck") {             // slot ck : checkpoint through the public interface only
		auto it = c.find(slot); if (it == c.end()) return true;
		CSlot &s = it->second;
		if (s.wild || s.pend()) return true;
		Ckpt &k2 = ck[(int)o.arg(1)];
		k2 = Ckpt(); k2.alg = s.alg; k2.mode = s.mode; k2.key = s.key; k2.have = true;
		if (s.alg == C_RC4) {
			k2.raw.assign((u8 *)s.ctx, (u8 *)s.ctx + cipher_fn(F_RC4).ctx_size);
			k2.rc4.reset(new RefRc4(*s.rc4));
		} else {
			Buf b(s.bs());
			{ Call L("get IV"); cipher_fn(cipher_family(s.alg)).getiv(s.ctx, b.p); }
			k2.iv = b.bytes(s.bs());
		}
		count("checkpoint");
		res("cck");
		return true;
	}
	if (kd == "cres") {            // slot ck where : build a fresh context from a checkpoint
		auto ki = ck.find((int)o.arg(1)); if (ki == ck.end() || !ki->second.have || ki->second.dig) return true;
		Ckpt &k2 = ki->second;
		Ckpt snap; snap.alg = k2.alg; snap.mode = k2.mode; snap.key = k2.key; snap.iv = k2.iv;
		if (c.count(slot)) { cdrop(c[slot]); c.erase(slot); }
		CSlot s;
		if (k2.alg == C_RC4) {
			s.store.reset(new Buf(cipher_fn(F_RC4).ctx_size));
			s.ctx = s.store->p;
			memcpy(s.ctx, k2.raw.data(), k2.raw.size());
			s.alg = C_RC4; s.key = k2.key; s.rc4.reset(new RefRc4(*k2.rc4));
		} else {
			const CipherFn &fn = cipher_fn(cipher_family(k2.alg));
			if (o.arg(2)) { s.store.reset(new Buf(fn.ctx_size)); s.ctx = s.store->p; Call L("cipher init"); fn.init(s.ctx, k2.alg, k2.key, k2.mode); }
			else {
				int rc; bool flt;
				{ Call L("cipher create"); rc = fn.create(k2.alg, k2.key, k2.mode, &s.ctx); flt = L.faulted(); }
				if (rc) { if (!flt) bad(o, "refused", "create returned %s", err_name(rc)); return true; }
				s.owned = true;
			}
			cfresh(o, s, k2.alg, k2.mode, k2.key);
			Buf b(k2.iv);
			{ Call L("set IV"); fn.setiv(s.ctx, b.p); }
			s.ref->set_iv(k2.iv);
		}
		c[slot] = std::move(s);
		count("fault.crash_restart"); g->nontrivial = true;
		res("cres");
		return true;
	}
	// two contexts fed the same next piece: original against the resumed one
	if (kd == "ctwin") {           // slotA slotB dec n seed fin pad
		auto a = c.find(slot), b = c.find((int)o.arg(1)); if (a == c.end() || b == c.end()) return true;
		if (a->second.alg != b->second.alg || a->second.mode != b->second.mode || a->second.key != b->second.key) return true;
		if (a->second.rc4 && (memcmp(a->second.rc4->S, b->second.rc4->S, 256) || a->second.rc4->x != b->second.rc4->x || a->second.rc4->y != b->second.rc4->y)) return true;
		if (a->second.ref && (a->second.ref->iv != b->second.ref->iv || a->second.ref->pend != b->second.ref->pend)) return true;
		Bytes in = gen_bytes((u64)o.arg(4), (size_t)gclamp(o.arg(3), 0, 1 << 16)), x, y;
		int fin = o.arg(5) ? (int)(o.arg(6) % 3 + 3) % 3 : -1;
		crun(o, a->second, o.arg(2) & 1, in, 0, false, fin, &x);
		crun(o, b->second, o.arg(2) & 1, in, 5, false, fin, &y);
		if (x != y) bad(o, "twin", "the resumed context produced a different continuation");
		return true;
	}
	// ---------------------------------------------------------- digests
	if (kd == "dnew") {            // slot alg where
		if (d.count(slot)) { ddrop(d[slot]); d.erase(slot); }
		int alg = gclamp(o.arg(1), 0, D_N - 1);
		const DigestFn &fn = digest_fn(digest_family(alg));
		DSlot s; s.alg = alg;
		if (o.arg(2)) { s.store.reset(new Buf(fn.ctx_size)); s.ctx = s.store->p; Call L("digest init"); fn.init(s.ctx, alg); }
		else {
			void *sent = &s, *p = sent; int rc; bool flt;
			{ Call L("digest create"); rc = fn.create(alg, &p); flt = L.faulted(); }
			res("dnew %s %s", digest_name(alg), flt ? "faulted" : err_name(rc));
			if (rc != RA_ERR_SUCCESS) {
				if (!flt) bad(o, "refused", "create returned %s although nothing failed", err_name(rc));
				if (p != sent && p) bad(o, "halfbuilt", "create failed but stored a pointer");
				return true;
			}
			if (p == sent || !p) bad(o, "nullsuccess", "create reported success without an object");
			s.ctx = p; s.owned = true;
		}
		s.ref.reset(new RefDigest(alg));
		d[slot] = std::move(s);
		count("op.digest");
		return true;
	}
	if (kd == "dini") {            // slot algpick
		auto it = d.find(slot); if (it == d.end()) return true;
		DSlot &s = it->second;
		int f = digest_family(s.alg);
		vector<int> same; for (int a = 0; a < D_N; a++) if (digest_family(a) == f) same.push_back(a);
		s.alg = same[(size_t)(o.arg(1) & 0xff) % same.size()];
		{ Call L("digest init"); digest_fn(f).init(s.ctx, s.alg); }
		s.finished = false;
		s.ref.reset(new RefDigest(s.alg));
		res("dini %s", digest_name(s.alg));
		return true;
	}
	if (kd == "dupd") {            // slot n seed off
		auto it = d.find(slot); if (it == d.end() || it->second.finished) return true;
		DSlot &s = it->second;
		Bytes in = gen_bytes((u64)o.arg(2) ^ g->secret, (size_t)gclamp(o.arg(1), 0, 9 << 20));
		Buf b(in, (size_t)(o.arg(3) & 63));
		{ Call L("digest update", default_limit() + 2000 * (u64)in.size()); digest_fn(digest_family(s.alg)).update(s.ctx, s.alg, b.p, (int)in.size()); }
		if (in.size() && memcmp(b.p, in.data(), in.size())) bad(o, "input", "the input buffer was changed");
		s.ref->update(in.data(), in.size());
		count("op.digest");
		return true;
	}
	if (kd == "dbig") {            // slot totalbytes chunk seed
		auto it = d.find(slot); if (it == d.end() || it->second.finished) return true;
		DSlot &s = it->second;
		i64 total = o.arg(1), chunk = gclamp(o.arg(2), 1, 0x7fffffff);
		RepeatBuf big((size_t)chunk + 64, (u64)o.arg(3) | 1);
		if (!big.p) return true;
		const DigestFn &fn = digest_fn(digest_family(s.alg));
		i64 done = 0; u64 k2 = 0;
		while (done < total) {
			i64 n = chunk; if (n > total - done) n = total - done;
			size_t at = (size_t)(k2++ % 64);
			{ Call L("digest update", ~0ull >> 2); fn.update(s.ctx, s.alg, big.p + at, (int)n); }
			s.ref->update(big.p + at, (size_t)n);
			done += n;
		}
		count("digest.big_bytes", (u64)done);
		count("op.digest");
		return true;
	}
	if (kd == "dfin") {            // slot off
		auto it = d.find(slot); if (it == d.end() || it->second.finished) return true;
		DSlot &s = it->second;
		size_t n = digest_len(s.alg);
		Buf b(n, (size_t)(o.arg(1) & 15));
		{ Call L("digest final"); digest_fn(digest_family(s.alg)).final(s.ctx, s.alg, b.p); }
		s.finished = true;
		Bytes got = b.bytes(n);
		res_bytes("dfin", got);
		Bytes want = s.ref->final();
		if (model && got != want) bad(o, "value", "%s: digest %s, the concatenated input has %s", digest_name(s.alg), hexs(got, 64).c_str(), hexs(want, 64).c_str());
		count("op.digest");
		return true;
	}
	if (kd == "dcopy") {           // slot to : byte copy continues independently
		auto it = d.find(slot); if (it == d.end() || it->second.finished || o.arg(1) == slot) return true;
		int to = (int)o.arg(1);
		if (d.count(to)) { ddrop(d[to]); d.erase(to); }
		DSlot s; DSlot &f = it->second;
		size_t n = digest_fn(digest_family(f.alg)).ctx_size;
		s.store.reset(new Buf(n)); s.ctx = s.store->p;
		memcpy(s.ctx, f.ctx, n);
		s.alg = f.alg; s.ref.reset(new RefDigest(*f.ref));
		d[to] = std::move(s);
		count("checkpoint");
		res("dcopy");
		return true;
	}
	if (kd == "done") {            // alg n seed off : one-shot helper
		int alg = gclamp(o.arg(0), 0, D_N - 1);
		Bytes in = gen_bytes((u64)o.arg(2), (size_t)gclamp(o.arg(1), 0, 1 << 20));
		Buf b(in, (size_t)(o.arg(3) & 15)), out(digest_len(alg));
		bool have;
		{ Call L("digest one-shot", default_limit() + 2000 * (u64)in.size()); have = digest_oneshot(alg, b.p, (int)in.size(), out.p); }
		if (!have) return true;
		Bytes got = out.bytes(digest_len(alg));
		res_bytes("done", got);
		RefDigest rd(alg); rd.update(in.data(), in.size());
		if (model && got != rd.final()) bad(o, "value", "one-shot %s of %zu bytes is wrong", digest_name(alg), in.size());
		return true;
	}
	if (kd == "ddel") {
		auto it = d.find(slot); if (it == d.end()) return true;
		ddrop(it->second); d.erase(it); res("ddel");
		return true;
	}
	// ---------------------------------------------------------- generators
	if (kd == "rnew") {            // slot alg seeded seed seedlen
		if (r.count(slot)) { LibCall L("random destroy"); RaRandomDestroy(r[slot].ctx); }
		r.erase(slot);
		RSlot s; s.alg = (int)(o.arg(1) & 3);
		static const RaRandomAlgorithm A[4] = {RA_RAND_SHA160, RA_RAND_SHA256, RA_RAND_SHA512, RA_RAND_MD5};
		s.seeded = o.arg(2);
		s.seed = o.arg(5) ? raw_seed(o.arg(3), o.arg(5)) : gen_bytes((u64)o.arg(3) ^ g->secret, (size_t)gclamp(o.arg(4), 0, 4096));
		Buf b(s.seed, (size_t)(o.arg(3) & 3));
		struct RaRandom *sent = (struct RaRandom *)&s, *p = sent; int rc; bool flt;
		{ Call L("random create"); rc = RaRandomCreate(A[s.alg], s.seeded ? b.p : nullptr, s.seeded ? (int)s.seed.size() : 0, &p); flt = L.faulted(); }
		res("rnew %s", flt ? "faulted" : err_name(rc));
		if (rc != RA_ERR_SUCCESS) {
			if (!flt) bad(o, "refused", "create returned %s although nothing failed", err_name(rc));
			if (p != sent && p) bad(o, "halfbuilt", "create failed but stored a pointer");
			return true;
		}
		if (p == sent || !p) bad(o, "nullsuccess", "create reported success without an object");
		s.ctx = p;
		ok = true;
		r[slot] = std::move(s);
		count("op.random");
		return true;
	}
	if (kd == "rget") {            // slot n off
		auto it = r.find(slot); if (it == r.end()) return true;
		RSlot &s = it->second;
		size_t n = (size_t)gclamp(o.arg(1), 0, 1 << 16);
		Buf b(n, (size_t)(o.arg(2) & 7));
		{ Call L("random bytes"); RaRandomBytes(s.ctx, (int)n, b.p); }
		Bytes got = b.bytes(n);
		s.out.insert(s.out.end(), got.begin(), got.end());
		res_bytes("rget", got);
		count("op.random");
		return true;
	}
	if (kd == "rint") {            // slot min max
		auto it = r.find(slot); if (it == r.end()) return true;
		u32 mn = (u32)o.arg(1), mx = (u32)o.arg(2), v;
		if (mn > mx) std::swap(mn, mx);
		{ Call L("random int"); v = RaRandomInt(it->second.ctx, mn, mx); }
		it->second.mixed = true;
		res("rint %u", v);
		if (v < mn || v > mx) bad(o, "range", "integer draw %u outside [%u, %u]", v, mn, mx);
		count("op.random");
		return true;
	}
	if (kd == "rspan") {           // slot min max n : many draws, coverage of the range
		auto it = r.find(slot); if (it == r.end()) return true;
		u32 mn = (u32)o.arg(1), mx = (u32)o.arg(2), v;
		if (mn > mx) std::swap(mn, mx);
		int n = gclamp(o.arg(3), 0, 2000);
		u64 span = (u64)mx - mn + 1, cells = span < 8 ? span : 8;
		vector<int> seen((size_t)cells);
		for (int i = 0; i < n; i++) {
			{ Call L("random int"); v = RaRandomInt(it->second.ctx, mn, mx); }
			if (v < mn || v > mx) bad(o, "range", "integer draw %u outside [%u, %u]", v, mn, mx);
			seen[(size_t)(((u64)(v - mn) * cells) / span)]++;
		}
		it->second.mixed = true;
		res("rspan %d", n);
		if (n >= 400) for (u64 i = 0; i < cells; i++) if (!seen[(size_t)i]) bad(o, "reach", "%d draws from [%u, %u] never reached part %llu of %llu of the range", n, mn, mx, (unsigned long long)i + 1, (unsigned long long)cells);
		count("op.random");
		return true;
	}
	if (kd == "rlong") {           // slot blocks : a long stretch of the stream repeats no block
		auto it = r.find(slot); if (it == r.end()) return true;
		static const size_t BL[4] = {20, 32, 64, 16};
		size_t bl = BL[it->second.alg], n = (size_t)gclamp(o.arg(1), 1, 80000), per = 64 * 1024 / bl;
		std::unordered_map<u64, size_t> seen; u64 dig = 0;
		for (size_t i = 0; i < n; i += per) {
			size_t k = std::min(per, n - i); Buf b(k * bl);
			{ Call L("random bytes"); RaRandomBytes(it->second.ctx, (int)(k * bl), b.p); }
			for (size_t j = 0; j < k; j++) {
				u64 w; memcpy(&w, b.p + j * bl, 8); dig = mix64(dig ^ w);
				auto x = seen.emplace(w, i + j);
				if (!x.second) bad(o, "repeat", "block %zu of the stream begins like block %zu", i + j, x.first->second);
			}
		}
		it->second.mixed = true;
		res("rlong %016llx", (unsigned long long)dig);
		count("op.random");
		return true;
	}
	if (kd == "rends") {           // slot min span : both ends of a range are reached
		auto it = r.find(slot); if (it == r.end()) return true;
		u32 span = (u32)gclamp(o.arg(2), 2, 70000), mn = (u32)((u64)o.arg(1) % (0xffffffffull - span)), mx = mn + span - 1, v = 0;
		int lo = 0, hi = 0;      // missed with probability exp(-30)
		for (u64 i = 0, n = 30ull * span; i < n && !(lo && hi); i += 64) {
			Call L("random int");
			for (int j = 0; j < 64; j++) {
				v = RaRandomInt(it->second.ctx, mn, mx);
				if (v < mn || v > mx) break;
				lo |= v == mn; hi |= v == mx;
			}
			if (v < mn || v > mx) break;
		}
		it->second.mixed = true;
		res("rends %u", v);
		if (v < mn || v > mx) bad(o, "range", "integer draw %u outside [%u, %u]", v, mn, mx);
		if (!lo || !hi) bad(o, "reach", "%llu draws from [%u, %u] never reached the %s", (unsigned long long)(30ull * span), mn, mx, lo ? "maximum" : "minimum");
		count("op.random");
		return true;
	}
	if (kd == "rdbl") {
		auto it = r.find(slot); if (it == r.end()) return true;
		double v;
		{ Call L("random real"); v = RaRandom(it->second.ctx); }
		it->second.mixed = true;
		res("rdbl %.17g", v);
		if (!(v > 0.0 && v < 1.0)) bad(o, "range", "real draw %.17g is not strictly between 0 and 1", v);
		count("op.random");
		return true;
	}
	if (kd == "rdel") {
		auto it = r.find(slot); if (it == r.end()) return true;
		{ LibCall L("random destroy"); RaRandomDestroy(it->second.ctx); }
		r.erase(it); res("rdel");
		return true;
	}
	return false;
}
// environment and failure directives that apply to the next operation
bool World::pseudo(const Op &o) {
	const string &k = o.kind;
	if (k == "afail" || k == "afrac" || k == "aprob" || k == "aenum" || k == "eopen" || k == "eread" || k == "estuck" || k == "force") { pend.push_back(o); return true; }
	if (k == "cpu") { g->cpu_allow = (int)(o.arg(0) & 7); ev("cpu %d", g->cpu_allow); return true; }
	if (k == "clkj") { g->clk_extra += (u64)o.arg(0); count("fault.clock_jump"); ev("clkj"); return true; }
	if (k == "junk") { g->junk = mix64((u64)o.arg(0)); return true; }
	return false;
}
void World::inject(const Op &o) {
	for (auto &f : pend) {
		if (f.kind == "afail") { for (i64 i = 0; i < gclamp(f.arg(1, 1), 1, 100000); i++) g->fail_at.insert(g->allocs + (u64)(f.arg(0) < 1 ? 1 : f.arg(0)) + i); }
		else if (f.kind == "afrac") {
			u64 n = last_allocs.count(o.kind) ? last_allocs[o.kind] : 4;
			u64 k = 1 + (u64)f.arg(0) % (n ? n : 1);
			for (i64 i = 0; i < gclamp(f.arg(1, 1), 1, 1000); i++) g->fail_at.insert(g->allocs + k + i);
		}
		else if (f.kind == "aprob") { g->fail_pm = f.arg(0); g->fail_rng = Rng(mix((u64)f.arg(1), 77)); }
		else if (f.kind == "eopen") g->ent.open_script.push_back(Fault{"ent_open", f.a});
		else if (f.kind == "eread") g->ent.read_script.push_back(Fault{"ent_read", f.a});
		else if (f.kind == "estuck") g->ent.stuck = f.arg(0) & 0xff, count("fault.entropy_stuck"), g->nontrivial = true;
		else if (f.kind == "force") {
			Sim::Force x; x.call = g->rnd_calls + (u64)(f.arg(0) < 1 ? 1 : f.arg(0)); x.kind = (int)f.arg(1);
			g->rnd_keep = true;
			if (x.kind == 2) x.data = forced_number((int)f.arg(2), (u64)f.arg(3), (int)f.arg(4));
			else if (x.kind == 3) { x.kind = 4; u64 j = g->rnd_calls + (u64)(f.arg(2) < 1 ? 1 : f.arg(2)); for (int b = 0; b < 8; b++) x.data.push_back((u8)(j >> (8 * b))); }
			g->forces.push_back(x);
		}
	}
	pend.clear();
}
void World::exec(const Op &o) {
	if (pseudo(o)) return;
	g->cnt["ops"]++;
	bool armed = false;
	i64 aenum = 0;
	for (auto &f : pend) { if (f.kind == "aenum") aenum = gclamp(f.arg(0), 1, 2000); else if (f.kind[0] == 'a') armed = true; }
	inject(o);
	ok = false;
	u64 a0 = g->allocs;
	bool known = exec_sym(o) || exec_rsa(o);
	if (aenum > 0 && known && g->tasks.size() <= 1) {
		// every single failure point of this call in turn: 1st, 2nd, ... allocation until none is left
		u64 done = 0;
		for (u64 k = 1; done < (u64)aenum; k++, done++) {
			g->fail_at.clear(); g->fail_pm = 0;
			u64 b0 = g->allocs;
			g->fail_at.insert(b0 + k);
			ok = false;
			if (!(exec_sym(o) || exec_rsa(o))) break;
			if (g->allocs - b0 < k) { count("alloc.enumerated_to_the_end"); break; }
		}
		count("alloc.points_enumerated", done);
	}
	if (!armed) last_allocs[o.kind] = g->allocs - a0;
	if (g->tasks.size() <= 1) {
		g->fail_at.clear(); g->fail_pm = 0;
		g->ent.open_script.clear(); g->ent.oi = 0; g->ent.read_script.clear(); g->ent.ri = 0;
		g->ent.stuck = -1; g->forces.clear();
	}
	if (!known) ev("unknown op %s", o.kind.c_str());
}
void World::cleanup() {
	for (auto &p : c) cdrop(p.second);
	c.clear();
	for (auto &p : d) ddrop(p.second);
	d.clear();
	for (auto &p : r) { LibCall L("random destroy"); RaRandomDestroy(p.second.ctx); }
	r.clear();
	for (auto &p : k) { LibCall L("key destroy"); RaRsaDestroyKeyPair(p.second.k); }
	k.clear();
	ch.clear(); ck.clear();
}
