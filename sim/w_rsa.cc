#include "world.h"

typedef struct RaRsaKeyPair Key;
struct NoFault { bool a; NoFault() : a(g->armed) { g->armed = false; } ~NoFault() { g->armed = a; } };

RefKey key_of(i64 id) { return id >= 100000 ? ref_key_lambda((int)(id - 100000)) : ref_key((int)id); }

// ---------------------------------------------------------------- encodings
enum { SF_LONG = 1, SF_ATTR = 2, SF_PARAM = 4, SF_NESTPARAM = 8, SF_EXTRAINT = 16, SF_INDEF = 32 };
static void app(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
struct Enc {
	int style; u64 salt; int nth = 0;
	Bytes len(size_t n) {
		if (!(style & SF_LONG)) return der_len(n);
		int k = 1 + (int)(mix(salt, nth++) % 4);
		if (n < 128 && mix(salt, 991 + nth) % 3 == 0) return der_len(n);
		while (k < 4 && (n >> (8 * k))) k++;
		Bytes b{(u8)(0x80 | k)};
		for (int i = k - 1; i >= 0; i--) b.push_back((u8)(n >> (8 * i)));
		return b;
	}
	Bytes tlv(u8 tag, const Bytes &v) {
		Bytes b{tag};
		if ((style & SF_INDEF) && (tag & 0x20) && mix(salt, 17 + nth++) % 3) { b.push_back(0x80); app(b, v); b.push_back(0); b.push_back(0); return b; }
		app(b, len(v.size())); app(b, v); return b;
	}
	Bytes num(const Z &z) {
		Bytes v;
		if (mpz_sgn(z.v) < 0) {      // two's complement
			size_t k = 1; Z lim(0x80), m(-1);
			Z a; mpz_neg(a.v, z.v);
			while (lim < a) { mpz_mul_2exp(lim.v, lim.v, 8); k++; }
			Z t(1); mpz_mul_2exp(t.v, t.v, 8 * k); t = t + z; v = t.be_fixed(k);
		} else { v = z.be(); if (v.empty() || (v[0] & 0x80)) v.insert(v.begin(), 0); }
		return tlv(2, v);
	}
	Bytes alg() {
		Bytes o{0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01}, v = o;
		if (style & SF_NESTPARAM) app(v, tlv(0x30, tlv(0x30, Bytes{5, 0})));
		else app(v, Bytes{5, 0});
		if (style & SF_PARAM) app(v, tlv(4, gen_bytes(salt, 5)));
		return tlv(0x30, v);
	}
	Bytes pub1(const RefKey &k) { Bytes v = num(k.n); app(v, num(k.e)); if (style & SF_EXTRAINT) app(v, tlv(4, gen_bytes(salt, 3))); return tlv(0x30, v); }
	Bytes priv1(const RefKey &k) {
		Bytes v = tlv(2, Bytes{0});
		for (const Z *z : {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qi}) app(v, num(*z));
		if (style & SF_EXTRAINT) app(v, tlv(0x30, tlv(0x30, num(Z(5)))));
		return tlv(0x30, v);
	}
	Bytes pkcs8(const RefKey &k) {
		Bytes v = tlv(2, Bytes{0}); app(v, alg()); app(v, tlv(4, priv1(k)));
		if (style & SF_ATTR) app(v, tlv(0xa0, tlv(0x30, tlv(4, gen_bytes(salt ^ 9, 9)))));
		return tlv(0x30, v);
	}
	Bytes spki(const RefKey &k) { Bytes bs{0}; app(bs, pub1(k)); Bytes v = alg(); app(v, tlv(3, bs)); if (style & SF_ATTR) app(v, tlv(0xa0, tlv(4, gen_bytes(salt, 4)))); return tlv(0x30, v); }
	Bytes form(const RefKey &k, int f) { switch (f & 3) { case 0: return pkcs8(k); case 1: return spki(k); case 2: return priv1(k); default: return pub1(k); } }
};
// positions of all tag-length headers found by walking the encoding
static void walk(const Bytes &b, size_t at, size_t end, vector<size_t> &hdr, int depth) {
	while (at + 2 <= end && depth < 12) {
		hdr.push_back(at);
		size_t l = b[at + 1], h = 2;
		if (l & 0x80) { size_t k = l & 0x7f; if (k == 0 || k > 4 || at + 2 + k > end) return; l = 0; for (size_t i = 0; i < k; i++) l = l << 8 | b[at + 2 + i]; h += k; }
		if (at + h + l > end) return;
		if (b[at] & 0x20) walk(b, at + h, at + h + l, hdr, depth + 1);
		else if (b[at] == 4) walk(b, at + h, at + h + l, hdr, depth + 1);
		else if (b[at] == 3 && l > 1) walk(b, at + h + 1, at + h + l, hdr, depth + 1);
		at += h + l;
	}
}
static const char *CK[] = {"", "stored_bitflip", "stored_truncated", "stored_byte", "stored_extended", "stored_byte_inserted", "stored_byte_lost", "stored_garbage", "stored_header", "stored_torn_sector", "stored_length", "stored_structure", "stored_element", "stored_reencoded", "stored_forest"};
// random nested structure, mostly well formed: definite and indefinite lengths, ends of content, edge lengths
static Bytes rand_ber(Rng &r, int depth, int budget) {
	Bytes out;
	int n = (int)r.range(0, 4);
	for (int i = 0; i < n && (int)out.size() < budget; i++) {
		static const u8 tags[] = {2, 2, 3, 4, 5, 6, 0, 0x30, 0x30, 0x30, 0x31, 0xa0, 0x20, 0x24};
		u8 tag = tags[r.below(sizeof tags)];
		if (depth <= 0) tag &= (u8)~0x20;
		Bytes v;
		if (tag & 0x20) v = rand_ber(r, depth - 1, budget / 2);
		else if (tag && tag != 5) v = gen_bytes(r.next(), r.pct(70) ? r.below(12) : r.below(140));
		out.push_back(tag);
		if ((tag & 0x20) && r.pct(45)) { out.push_back(0x80); app(out, v); if (!r.pct(8)) { out.push_back(0); out.push_back(0); } continue; }
		if (r.pct(6)) { static const u32 L[] = {0x7fffffff, 0x80000000, 0xffffffff, 0x7ffffff0, 0x10000, 0xfffffffe, 0xfffffff0, 0x7fffffc0, 0x100, 0xffff}; u32 l = L[r.below(10)] - (r.pct(30) ? (u32)r.below(64) : 0); out.push_back(0x84); for (int k = 3; k >= 0; k--) out.push_back((u8)(l >> (8 * k))); }
		else if (r.pct(8)) app(out, der_len(v.size() + r.below(3)));
		else if (r.pct(20)) { int k = (int)r.range(2, 4); out.push_back((u8)(0x80 | k)); for (int j = k - 1; j >= 0; j--) out.push_back((u8)(v.size() >> (8 * j))); }
		else app(out, der_len(v.size()));
		app(out, v);
	}
	return out;
}
// the same tree with one element changed and every length around it still right; elements are counted in order of their ends
static Bytes reencode(const Bytes &b, size_t at, size_t end, int &idx, int target, u64 val) {
	Bytes out;
	while (at < end) {
		size_t h = 2, l = at + 1 < end ? b[at + 1] : 0;
		if (at + 1 < end && l > 0x80 && l <= 0x84 && at + 2 + (l & 7) <= end) { size_t k = l & 7; l = 0; for (size_t i = 0; i < k; i++) l = l << 8 | b[at + 2 + i]; h += k; }
		else if (l >= 0x80) h = end;
		if (at + h + l > end || h + l < l) { out.insert(out.end(), b.begin() + at, b.begin() + end); return out; }
		u8 tag = b[at]; size_t c = at + h; Bytes v;
		if ((tag & 0x20) || (tag == 4 && l > 1 && b[c] == 0x30)) v = reencode(b, c, c + l, idx, target, val);
		else if (tag == 3 && l > 2 && b[c] == 0 && b[c + 1] == 0x30) { v = reencode(b, c + 1, c + l, idx, target, val); v.insert(v.begin(), 0); }
		else v.assign(b.begin() + c, b.begin() + c + l);
		at = c + l;
		if (idx++ == target) {
			Rng r(val);
			switch (r.below(10)) {
			case 0: v.clear(); break;
			case 1: v.resize(v.empty() ? 0 : r.below(v.size())); break;
			case 2: if (!v.empty()) v.erase(v.begin()); break;
			case 3: { Bytes x = gen_bytes(val, r.range(1, 8)); if (r.pct(50)) app(v, x); else v.insert(v.begin(), x.begin(), x.end()); break; }
			case 4: continue;                                                            // lost
			case 5: out.push_back(tag); app(out, der_len(v.size())); app(out, v); break; // twice
			case 6: return out;                                                          // and all after it lost
			case 7: { static const u8 t[] = {2, 3, 4, 5, 6, 0x30, 0x31, 0, 0x24, 0xa0}; tag = t[r.below(10)]; break; }
			case 8: v.assign(1, (u8)r.below(3)); break;
			default: { Bytes x = rand_ber(r, 2, 40); v = x; break; }
			}
		}
		out.push_back(tag); app(out, der_len(v.size())); app(out, v);
	}
	return out;
}
static bool corrupt(Bytes &b, int kind, u64 pos, u64 val) {
	if (kind < 1 || kind > 14) return false;
	if (b.empty() && kind != 7 && kind != 4 && kind != 11 && kind != 14) return false;
	switch (kind) {
	case 1: b[pos / 8 % b.size()] ^= (u8)(1 << (pos & 7)); break;
	case 2: b.resize(pos % b.size()); break;
	case 3: if (b[pos % b.size()] == (u8)val) return false; b[pos % b.size()] = (u8)val; break;
	case 4: { Bytes x = gen_bytes(val, 1 + pos % 40); app(b, x); break; }
	case 5: b.insert(b.begin() + pos % (b.size() + 1), (u8)val); break;
	case 6: b.erase(b.begin() + pos % b.size()); break;
	case 7: b = gen_bytes(val, pos % 600); if (b.size() > 2 && (val & 3)) { b[0] = 0x30; if (val & 4) b[1] = (u8)(b.size() - 2 < 128 ? b.size() - 2 : 0x80); } break;
	case 8: { vector<size_t> h; walk(b, 0, b.size(), h, 0); if (h.empty()) return false; size_t at = h[pos % h.size()];
		static const u8 special[] = {0x00, 0x01, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0xff, 0x30, 0x02, 0x04, 0x03, 0x05, 0x06, 0x20, 0xa0, 0x2f, 0xfe};
		u8 nv = special[val % sizeof special]; size_t w = at + (val >> 8) % 3; if (w >= b.size() || b[w] == nv) return false; b[w] = nv; break; }
	case 9: { size_t s = pos % b.size() / 64 * 64, e = s + 64 < b.size() ? s + 64 : b.size(); Bytes x = gen_bytes(val, e - s); if (val & 1) memset(x.data(), val & 2 ? 0xff : 0, x.size()); memcpy(&b[s], x.data(), x.size()); break; }
	case 10: { // one length field rewritten in a long form
		vector<size_t> h; walk(b, 0, b.size(), h, 0); if (h.empty()) return false;
		size_t at = h[pos % h.size()]; if (at + 2 > b.size()) return false;
		size_t old = 2 + ((b[at + 1] & 0x80) ? (b[at + 1] & 0x7f) : 0); if (at + old > b.size()) return false;
		u32 rest = (u32)(b.size() - at - old), l;
		static const u32 L[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x7ffffffe};
		switch (val & 3) { case 0: l = rest + (u32)(val >> 2 & 7) - 3; break; case 1: l = 0u - (u32)(val >> 2 & 1023); break; case 2: l = 0x7fffffff - (u32)(val >> 2 & 1023); break; default: l = L[(val >> 2) % 13]; }
		int k = (val >> 14 & 3) ? 4 : 1 + (int)(val >> 16 & 3); if (k < 4 && l >> (8 * k)) k = 4;
		Bytes x{(u8)(0x80 | k)}; for (int j = k - 1; j >= 0; j--) x.push_back((u8)(l >> (8 * j)));
		b.erase(b.begin() + at + 1, b.begin() + at + old); b.insert(b.begin() + at + 1, x.begin(), x.end()); break; }
	case 11: { Rng r(mix(pos, val)); Bytes in = rand_ber(r, (int)r.range(1, 9), 400); b.clear(); b.push_back(0x30); if (val & 1) { b.push_back(0x80); app(b, in); if (val & 6) { b.push_back(0); b.push_back(0); } } else { app(b, der_len(in.size())); app(b, in); } break; }
	case 12: { // one element's contents replaced, its length and those around it untouched
		vector<size_t> h; walk(b, 0, b.size(), h, 0); if (h.empty()) return false;
		size_t at = h[pos % h.size()] + (val & 1 ? 0 : 2); Rng r(val); Bytes x = rand_ber(r, 4, 60); if (x.empty() || at >= b.size()) return false;
		if (val & 2) { for (size_t i = 0; i < x.size() && at + i < b.size(); i++) b[at + i] = x[i]; } else b.insert(b.begin() + at, x.begin(), x.end()); break; }
	case 14: { // very many constructed elements side by side, or very deeply nested, all lengths right; alone or around an intact file
		Rng r(mix(pos, val)); int n = (int)r.range(8, r.pct(30) ? 1200 : 80); Bytes x = (val & 1) ? b : Bytes();
		static const u8 T[] = {0x30, 0x31, 0xa0, 0x24, 0x20};
		if (val & 2) for (int i = 0; i < n; i++) { u8 t = T[r.below(5)]; bool ind = r.pct((val & 4) ? 90 : 10); Bytes y(1, t); if (ind) { y.push_back(0x80); app(y, x); y.push_back(0); y.push_back(0); } else { app(y, der_len(x.size())); app(y, x); } x.swap(y); }
		else {
			Bytes y;
			for (int i = 0; i < n; i++) { u8 t = T[r.below(5)]; y.push_back(t); if (r.pct((val & 4) ? 60 : 10)) { y.push_back(0x80); y.push_back(0); y.push_back(0); } else if (r.pct(50)) y.push_back(0); else { y.push_back(3); y.push_back(2); y.push_back(1); y.push_back((u8)r.below(128)); } }
			if (val & 8) { Bytes z = y; app(z, x); x = z; } else app(x, y);
			Bytes z(1, 0x30); app(z, der_len(x.size())); app(z, x); x = z;
		}
		b = x; break; }
	case 13: { int n = 0; Bytes x = reencode(b, 0, b.size(), n, -1, 0); if (!n) return false; int k = 0; x = reencode(b, 0, b.size(), k, (int)(pos % n), val); if (x == b) return false; b = x; break; }
	}
	count(strf("fault.%s", CK[kind]).c_str());
	g->nontrivial = true;
	return true;
}

// structured storage damage to one component; how==0 leaves it
static void alter(RefKey &k, int comp, int how, u64 val) {
	Z *f[8] = {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qi};
	Z &z = *f[comp & 7];
	Z p1 = k.p - Z(1), q1 = k.q - Z(1);
	switch (how) {
	case 1: z = Z(0); break;
	case 2: z = Z(1); break;
	case 3: z = Z(2); break;
	case 4: mpz_combit(z.v, val % (z.bits() ? z.bits() : 1)); break;
	case 5: mpz_combit(z.v, 0); break;
	case 6: z = z + Z(2); break;
	case 7: z = z + k.n; break;
	case 8: mpz_mul_2exp(z.v, z.v, 1 + val % 64); break;
	case 9: mpz_fdiv_q_2exp(z.v, z.v, 1 + val % 64); break;
	case 10: mpz_neg(z.v, z.v); break;
	case 11: z = zrand_bits(val, z.bits() + (int)(val % 3) - 1 > 0 ? z.bits() + (int)(val % 3) - 1 : 1, true); break;
	case 12: z = *f[val & 7]; break;                     // another component
	case 13: std::swap(k.p, k.q); break;                 // primes swapped, the rest left
	case 14: std::swap(k.dp, k.dq); break;
	case 15: if ((comp & 7) == 2) z = z + p1; else if ((comp & 7) == 5) z = z + p1; else if ((comp & 7) == 6) z = z + q1; else if ((comp & 7) == 7) z = z + k.p; else z = z + Z(1); break;
	case 16: k.p = k.n; k.q = Z(1); break;
	case 17: { Z t = zprime_bits(val, k.p.bits()); k.p = t; break; }
	case 18: { Z t = zprime_bits(val, k.q.bits()); k.q = t; k.n = k.p * k.q; break; }
	case 19: k.d = k.d - Z(2); break;
	case 20: { const RefKey &o = ref_key((int)(val % 1000)); Z *g2[8] = {(Z *)&o.n, (Z *)&o.e, (Z *)&o.d, (Z *)&o.p, (Z *)&o.q, (Z *)&o.dp, (Z *)&o.dq, (Z *)&o.qi}; z = *g2[comp & 7]; break; }
	case 21: { // n the product of three primes, p composite: everything else recomputed
		Z &w = val & 8 ? k.p : k.q; int wb = w.bits(); Z a = zprime_bits(val, wb / 2 + 1), b = zprime_bits(val + 1, wb - wb / 2 - 1); w = a * b; k.n = k.p * k.q;
		Z phi = (k.p - Z(1)) * (k.q - Z(1)); Z d = zinv(k.e, phi); if (mpz_sgn(d.v) > 0) { k.d = d; k.dp = d % (k.p - Z(1)); k.dq = d % (k.q - Z(1)); k.qi = zinv(k.q % k.p, k.p); } break; }
	case 22: { Z phi = p1 * q1; k.d = k.d + phi; break; }    // equivalent exponent
	case 23: { // consistent except the CRT exponents taken with the primes exchanged
		k.dp = k.d % q1; k.dq = k.d % p1; break; }
	case 24: k.qi = zinv(k.p % k.q, k.q); break;             // inverse the wrong way round
	case 25: mpz_neg(k.qi.v, k.qi.v); k.qi = k.p + k.qi; break;
	case 26: { Z e2 = k.e + Z(2); k.e = e2; break; }
	case 27: { int b = k.n.bits() < 400 ? k.n.bits() * (int)(1 + val % 70) : k.n.bits() * 3; z = zrand_bits(val, b + (int)(val >> 8) % 64 + 1, true); break; }   // a component much longer than the rest
	case 29: // d wrong for one prime only, its CRT exponent recomputed to match
		if (val & 1) { k.d = k.d + q1; if (val & 2) mpz_fdiv_r(k.d.v, k.d.v, (p1 * q1).v); k.dp = k.d % p1; k.dq = k.d % q1; } else { k.d = k.d + p1; if (val & 2) mpz_fdiv_r(k.d.v, k.d.v, (p1 * q1).v); k.dp = k.d % p1; k.dq = k.d % q1; } break;
	case 30: std::swap(k.p, k.q); std::swap(k.dp, k.dq); if (val & 1) k.qi = zinv(k.q % k.p, k.p); break;
	case 31: { Z &w = val & 1 ? k.p : k.q; w = val & 1 ? k.q : k.p; k.n = k.p * k.q; Z o = k.p - Z(1); k.d = zinv(k.e, o); k.dp = k.dq = k.d % o; k.qi = Z((long)(val >> 1 & 3)); break; }
	case 32: if (val & 1) { k.p = Z(1); k.q = k.n; k.dp = Z(0); } else { k.q = Z(1); k.p = k.n; k.dq = Z(0); } break;
	case 33: { static const int len[] = {0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfff0, 0xffff, 0x10000, 0x10100, 0x12345, 0x1ff00}; int b = len[val % 12] * 8 + (int)(val >> 8 & 0xff) - 40; k.n = zrand_bits(val, b < 40 ? 40 : b, true); mpz_setbit(k.n.v, 0); break; }  // a modulus around the sizes where the encoded lengths grow
	case 28: k.n = Z((long)(val % 300)); break;              // a modulus much shorter than the rest
	case 34: { // the modulus another multiple of one of the primes, of the same size, everything else left
		Z &w = val & 1 ? k.q : k.p; Z &u = val & 1 ? k.p : k.q; int nb = k.n.bits();
		for (int i = 0; i < 8; i++) { Z t = val & 2 ? zprime_bits(val + i, u.bits()) : zrand_bits(val + i, u.bits(), true); Z m = w * t; if (t != u && m.bits() == nb && mpz_odd_p(m.v)) { k.n = m; break; } } break; }
	case 39: { // all components of one length, each with its top bit set (or just not)
		int b = val & 1 ? k.n.bits() : 1 + (int)((val >> 8) % 160); u64 t = mix(val, 39);
		for (Z *x : f) { *x = zrand_bits(t = mix(t, 1), val & 2 ? (b + 7) / 8 * 8 : b, true); if (val & 4) mpz_setbit(x->v, 0); }
		mpz_setbit(k.n.v, 0); break; }
	case 35: { int w = 32 << (val & 1), nb = k.n.bits(); if (val & 2) mpz_combit(k.n.v, 1 + (val >> 8) % (w - 1)); else mpz_combit(k.n.v, nb - 2 > w ? w + (val >> 8) % (nb - 1 - w) : nb / 2); break; }   // the modulus right in its lowest word only, or wrong there only
	case 36: k.e = k.e + (val & 1 ? p1 : q1); break;         // e right for one prime only
	case 37: { Z h; mpz_fdiv_q_2exp(h.v, (val & 1 ? p1 : q1).v, 1); k.d = k.d + h; k.dp = k.d % p1; k.dq = k.d % q1; break; }   // d right modulo half of p-1 only
	case 38: { int w = 32 << (val & 1); Z &v = val & 2 ? k.dp : val & 4 ? k.dq : k.qi; if (v.bits() > w + 1) mpz_combit(v.v, w + (val >> 8) % (v.bits() - 1 - w)); break; }   // a CRT value right in its lowest word only
	}
}

// ---------------------------------------------------------------- helpers
static Bytes export_quiet(Key *k, bool priv) {
	NoFault q;
	int n = 0;
	int rc = priv ? RaRsaPrivKeyToByteArray(k, nullptr, 0, &n) : RaRsaPubKeyToByteArray(k, nullptr, 0, &n);
	if (rc || n <= 0 || n > (1 << 20)) return {};
	Bytes b(n);
	rc = priv ? RaRsaPrivKeyToByteArray(k, b.data(), n, &n) : RaRsaPubKeyToByteArray(k, b.data(), n, &n);
	if (rc || n != (int)b.size()) return {};
	return b;
}
bool World::key_read(Key *k, RefKey &out, bool priv) {
	LibCall L("export");
	Bytes b = export_quiet(k, priv);
	if (b.empty()) return false;
	return priv ? der_parse_priv_pkcs8(b, out) : der_parse_pub_spki(b, out);
}
void World::put_key(int slot, Key *kp, const RefKey *ref, bool hostile) {
	if (k.count(slot)) { LibCall L("key destroy"); RaRsaDestroyKeyPair(k[slot].k); }
	KSlot s; s.k = kp; s.hostile = hostile;
	if (ref) { s.ref = *ref; s.known = true; s.bits = ref->n.bits(); }
	k[slot] = std::move(s);
}
static bool negative(const RefKey &k) { for (const Z *z : {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qi}) if (mpz_sgn(z->v) < 0) return true; return false; }
static bool same_key(const RefKey &a, const RefKey &b, bool priv) {
	if (a.n != b.n || a.e != b.e) return false;
	return !priv || (a.d == b.d && a.p == b.p && a.q == b.q && a.dp == b.dp && a.dq == b.dq && a.qi == b.qi);
}
static Z message(const RefKey &k, int kind, u64 seed) {
	switch (kind) {
	case 0: return Z(0);
	case 1: return Z(1);
	case 2: return k.n - Z(1);
	case 3: return Z((long)(seed % 1000));
	case 4: return k.priv ? k.p : zrand_below(seed, k.n);
	case 5: return k.priv ? (k.q * Z((long)(1 + seed % 5))) % k.n : zrand_below(seed, k.n);
	case 6: { Z z(1); mpz_mul_2exp(z.v, z.v, seed % (k.n.bits() > 1 ? k.n.bits() - 1 : 1)); return z; }
	case 7: return k.n - zrand_below(seed, Z(100)) - Z(1);
	case 8: { Z z(1); mpz_mul_2exp(z.v, z.v, 64 * (seed % (k.n.bits() / 64 + 1))); if (z >= k.n) return Z(2); z = z - Z(1); return z; }
	default: return zrand_below(seed, k.n);
	}
}
typedef int (*RsaFn)(Key *, struct RaBigNumber *, struct RaBigNumber *);

void World::hostile_use(const Op &o, KSlot &s, u64 seed) {
	int bits;
	{ Call L("key bits"); bits = RaRsaKeyBitLength(s.k); }
	if (bits < 0 || bits > (1 << 20)) bad(o, "bits", "key size %d", bits);
	Z one(1), big(1); mpz_mul_2exp(big.v, big.v, bits + 70);
	Z lim(1); mpz_mul_2exp(lim.v, lim.v, bits > 1 ? bits - 1 : 1);
	vector<Z> ms{Z(0), one, zrand_below(seed, lim), lim - one, big};
	static const RsaFn F[3] = {RaRsaEncrypt, RaRsaDecrypt, RaRsaSign};
	static const char *FN[3] = {"encrypt", "decrypt", "sign"};
	Rng r(seed);
	for (int i = 0; i < 4; i++) {
		Bn m(ms[r.below(ms.size())], (int)r.below(3) * 64), out(bits + 128);
		int f = (int)r.below(3), rc;
		{ Call L(FN[f]); rc = F[f](s.k, m.b, out.b); }
		res("huse %s %s", FN[f], rc ? "error" : "ok");
	}
	{ Bn a(ms[r.below(ms.size())]), b(ms[r.below(ms.size())]); int rc; { Call L("verify"); rc = RaRsaVerify(s.k, a.b, b.b); } res("huse verify %d", rc != 0); }
	{ int rc; { Call L("verify key"); rc = RaRsaVerifyKey(s.k); } res("huse verifykey %d", rc != 0); }
	for (int p = 0; p < 2; p++) {
		int n = -1, rc;
		{ Call L("export"); rc = p ? RaRsaPrivKeyToByteArray(s.k, nullptr, 0, &n) : RaRsaPubKeyToByteArray(s.k, nullptr, 0, &n); }
		if (rc == 0 && n > 0 && n < (1 << 20)) {
			Buf b(n); int n2 = -1;
			{ Call L("export"); rc = p ? RaRsaPrivKeyToByteArray(s.k, b.p, n, &n2) : RaRsaPubKeyToByteArray(s.k, b.p, n, &n2); }
		}
	}
	count("hostile_uses");
}

// start value for a search: what the byte array must look like for the number to be v
Bytes forced_number(int kind, u64 seed, int bits) {
	bits = gclamp(bits, 8, 2048);
	Z v;
	if (kind == 0 && bits < 22) kind = 3;
	if (kind == 0) {             // just below a prime that is 1 modulo the public exponent
		Z e(65537), k = zrand_bits(seed, bits - 16 > 2 ? bits - 16 : 2, true);
		mpz_setbit(k.v, 0); mpz_add_ui(k.v, k.v, 1);
		Z p = k * e + Z(1), two(65537 * 2);
		for (int i = 0; i < 20000; i++) { if (p.bits() > bits) { p = zrand_bits(seed, bits - 17, true) * Z(2) * e + Z(1); } if (p.bits() == bits && zprime(p)) break; p = p + two; }
		v = p;
	} else if (kind == 1) { v = Z(1); mpz_mul_2exp(v.v, v.v, bits); v = v - Z((long)(1 + seed % 200)); }   // top of the range
	else if (kind == 2) { v = Z(1); mpz_mul_2exp(v.v, v.v, bits - 1); v = v + Z((long)(seed % 200)); }   // bottom
	else if (kind == 3) v = zprime_bits(seed, bits);
	else { v = Z(1); mpz_mul_2exp(v.v, v.v, 64 * (bits / 64)); v = v - Z((long)(1 + seed % 64)); mpz_setbit(v.v, bits - 1); } // low words all ones
	Bytes be = v.be_fixed((size_t)(v.bits() + 7) / 8), le(be.rbegin(), be.rend());
	return le;
}
u64 prime_limit(int bits) {   // generous: about 50 times the measured mean
	u64 b = (u64)(bits < 64 ? 64 : bits);
	u64 l = 60ull * 1000 * 1000 + b * b * b * 40;
	return l;
}

// special numbers for primality questions
static const char *SPECIAL[] = {
	// Carmichael numbers and strong pseudoprimes to many small bases
	"561", "1105", "1729", "2465", "2821", "6601", "8911", "10585", "15841", "29341", "41041", "46657", "52633", "62745", "63973", "75361",
	"2047", "3277", "4033", "4681", "8321", "3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051",
	"318665857834031151167461", "3317044064679887385961981", "1373653", "25326001",
	"803837457453639491257079614341942108138837688287558145837488917522297427376533365218650233616396004545791504202360320876656996676098728404396540823292873879185086916685732826776177102938969773947016708230428687109997439976544144845341155872450633409279022275296229414984230688168540432645753401832978611129896064484521619165287259753901",
	"1195068768795265792518361315725116351898245581", "55245642489451", "9223372036854775783", "18446744073709551557", "18446744073709551629", "170141183460469231731687303715884105727", "340282366920938463463374607431768211297", "340282366920938463463374607431768211507"};
static Z special_number(int kind, u64 seed, int bits) {
	switch (kind) {
	case 0: return Z((long)(seed % 5000));
	case 1: return zprime_bits(seed, bits);
	case 2: { Z a = zprime_bits(seed, bits / 2), b = zprime_bits(seed + 1, bits - bits / 2); return a * b; }
	case 3: { Z z; mpz_set_str(z.v, SPECIAL[seed % (sizeof SPECIAL / sizeof *SPECIAL)], 10); return z; }
	case 4: { Z a = zprime_bits(seed, bits / 2); return a * a; }
	case 5: { Z z = zrand_bits(seed, bits, true); return z; }
	case 6: { Z z(1); mpz_mul_2exp(z.v, z.v, bits); z = z + Z((long)(seed % 41) - 20); return z; }
	case 7: { // (6k+1)(12k+1)(18k+1) Carmichael family
		for (u64 i = 0; i < 4000; i++) { Z k = zrand_bits(mix(seed, i), bits / 3 > 6 ? bits / 3 - 4 : 3, true); Z a = k * Z(6) + Z(1), b = k * Z(12) + Z(1), c = k * Z(18) + Z(1); if (zprime(a) && zprime(b) && zprime(c)) return a * b * c; }
		return Z(1729); }
	case 8: { // p, 2p-1: strong pseudoprime-rich
		for (u64 i = 0; i < 4000; i++) { Z p = zprime_bits(mix(seed, i), bits / 2 > 4 ? bits / 2 : 4); Z q = p * Z(2) - Z(1); if (zprime(q)) return p * q; }
		return Z(15); }
	case 9: { Z a = zprime_bits(seed, bits > 8 ? bits - 4 : 8); return a * Z((long)(3 + 2 * (seed % 5))); }
	case 10: { // prime just above/below a power of two; top/bottom bit patterns
		Z z(1); mpz_mul_2exp(z.v, z.v, bits); mpz_nextprime(z.v, z.v); return z; }
	case 11: { Z z(1); mpz_mul_2exp(z.v, z.v, 1 + seed % 60); mpz_mul_si(z.v, z.v, 3); for (int i = 0; i < 3000; i++) { Z t = z * Z(2 * i + 1) + Z(1); if (zprime(t)) return t; } return Z(13); }  // p-1 highly even
	default: return Z((long)(seed % 70000));
	}
}
struct Prog { int calls = 0, cancel = 0, after = 0, ret = 1; u64 at = 0; };
static int progress_cb(int, void *u) {
	Prog *p = (Prog *)u;
	if (p->cancel && p->calls >= p->cancel) p->after++;
	p->calls++;
	if (!p->cancel || p->calls < p->cancel) return 0;
	if (!p->at) p->at = g->steps;
	return p->ret;
}

bool World::exec_rsa(const Op &o) {
	const string &kd = o.kind;
	int slot = (int)o.arg(0);
	if (kd == "kimp" || kd == "kalt") {
		// kimp slot keyid form style [ck pos val]...     kalt slot keyid form style comp how val
		RefKey ref = key_of(o.arg(1));
		int form = (int)(o.arg(2) & 3);
		bool priv = form == 0 || form == 2;
		ref.priv = priv;
		Enc e{(int)o.arg(3), mix((u64)o.arg(1), (u64)o.arg(3))};
		bool damaged = false, prefix = false, altered = false;
		if (kd == "kalt") {
			RefKey before = ref;
			alter(ref, (int)o.arg(4), (int)o.arg(5), (u64)o.arg(6));
			altered = !same_key(before, ref, true);
			if (altered) { count("fault.component_altered"); g->nontrivial = true; }
		}
		Bytes enc = e.form(ref, form), orig = enc;
		if (kd == "kimp") {
			for (size_t i = 4; i + 2 < o.a.size(); i += 3) damaged |= corrupt(enc, (int)o.a[i], (u64)o.a[i + 1], (u64)o.a[i + 2]);
			if (enc == orig) damaged = false;
			prefix = enc.size() < orig.size() && std::equal(enc.begin(), enc.end(), orig.begin());
		}
		Buf b(enc, (size_t)(o.arg(1) & 7));
		Key *sent = (Key *)&b, *p = sent; int rc; bool flt;
		{
			Call L("key import", limit);
			if (form < 2) rc = RaRsaCreateKeyFromByteArray(b.p, (int)enc.size(), &p);
			else if (form == 2) rc = RaRsaCreateKeyPriv(b.p, (int)enc.size(), &p);
			else rc = RaRsaCreateKeyPub(b.p, (int)enc.size(), &p);
			flt = L.faulted();
		}
		res("import %s", flt ? "faulted" : rc ? "refused" : "ok");
		count("op.import");
		if (rc != RA_ERR_SUCCESS) {
			if (p != sent && p) bad(o, "halfbuilt", "import failed (%s) but stored a pointer", err_name(rc));
			if (!flt && !damaged && !altered) bad(o, "refused", "import of intact %s data (style %d, key of %d bits) failed: %s", form == 0 ? "PKCS#8" : form == 1 ? "SubjectPublicKeyInfo" : "PKCS#1", (int)o.arg(3), ref.n.bits(), err_name(rc));
			return true;
		}
		if (p == sent || !p) bad(o, "nullsuccess", "import reported success without a key");
		if (prefix) { put_key(slot, p, nullptr, true); bad(o, "prefix", "a strict prefix (%zu of %zu bytes) of a valid encoding was accepted", enc.size(), orig.size()); }
		if (damaged) {
			// what was read is whatever the export says; damage outside the key values is tolerated
			put_key(slot, p, nullptr, true);
			RefKey got;
			KSlot &s = k[slot];
			if (key_read(p, got, priv)) { s.ref = got; s.ref.priv = priv; s.known = true; s.bits = got.n.bits(); }
			count("import.damaged_accepted");
			return true;
		}
		put_key(slot, p, &ref, altered);
		bool neg = negative(ref);
		RefKey got;
		bool rd = key_read(p, got, priv);
		if (neg) { if (!rd) k[slot].known = false; return true; }
		if (!rd) bad(o, "unreadable", "an imported key cannot be exported again");
		if (!same_key(got, ref, priv)) bad(o, "value", "the imported key differs from the key that was written (%d bits, form %d, style %d)", ref.n.bits(), form, (int)o.arg(3));
		return true;
	}
	if (kd == "kgen") {            // slot bits
		int bits = gclamp(o.arg(1), 16, 4096) & ~1;
		Key *sent = (Key *)&bits, *p = sent; int rc; bool flt;
		u64 steps, rep0 = g->cnt["fault.rng_repeat"];
		{ Call L("key generation", limit ? limit : prime_limit(bits)); rc = RaRsaCreateKeyPair(bits, &p); flt = L.faulted(); steps = L.st; }
		res("kgen %d %s", bits, flt && rc ? "faulted" : err_name(rc));
		count("op.keygen");
		if (steps > g->cnt["max.keygen_steps"]) g->cnt["max.keygen_steps"] = steps;
		if (rc != RA_ERR_SUCCESS) {
			if (!flt) bad(o, "refused", "key generation of %d bits failed: %s", bits, err_name(rc));
			if (p != sent && p) bad(o, "halfbuilt", "key generation failed but stored a pointer");
			return true;
		}
		if (p == sent || !p) bad(o, "nullsuccess", "key generation reported success without a key");
		RefKey got;
		put_key(slot, p, nullptr, false);
		if (!key_read(p, got, true)) bad(o, "unreadable", "a generated key cannot be exported");
		string why;
		int kb; { LibCall L("key bits"); kb = RaRsaKeyBitLength(p); }
		if (got.n.bits() != bits || kb != bits) bad(o, "size", "asked for %d bits, the modulus has %d (reported %d)", bits, got.n.bits(), kb);
		if (got.e != Z(65537)) bad(o, "exponent", "public exponent is not 65537");
		if (got.p == got.q) bad(o, "equalprimes", "both primes of a %d bit key are the same", bits);
		if (got.p.bits() != bits / 2 || got.q.bits() != bits / 2) bad(o, "primesize", "primes of %d and %d bits for a %d bit key", got.p.bits(), got.q.bits(), bits);
		bool sound = got.consistent(&why);
		// with the same forced witness in every round no primality test can keep its promise
		if (!sound && g->cnt["fault.rng_repeat"] > rep0 + 1 && (why == "p composite" || why == "q composite")) { res("kgen unfair"); return true; }
		if (!sound) bad(o, "inconsistent", "generated %d bit key is not a valid RSA key: %s", bits, why.c_str());
		k[slot].ref = got; k[slot].known = true; k[slot].bits = bits; ok = true;
		res("kgen n=%s", got.n.hex().substr(0, 24).c_str());
		return true;
	}
	if (kd == "kdel") {
		auto it = k.find(slot); if (it == k.end()) return true;
		{ LibCall L("key destroy"); RaRsaDestroyKeyPair(it->second.k); }
		k.erase(it); res("kdel");
		return true;
	}
	if (kd == "kuse") {            // slot seed
		auto it = k.find(slot); if (it == k.end()) return true;
		hostile_use(o, it->second, (u64)o.arg(1));
		return true;
	}
	if (kd == "kbits") {
		auto it = k.find(slot); if (it == k.end()) return true;
		int b; { Call L("key bits"); b = RaRsaKeyBitLength(it->second.k); }
		res("kbits %d", b);
		if (it->second.known && !it->second.hostile && b != it->second.ref.n.bits()) bad(o, "value", "key size %d reported for a %d bit modulus", b, it->second.ref.n.bits());
		return true;
	}
	if (kd == "kenc" || kd == "kdec" || kd == "ksig") {   // slot mkind seed extrabits
		auto it = k.find(slot); if (it == k.end()) return true;
		KSlot &s = it->second;
		if (!s.known || s.hostile) return true;
		Z m = message(s.ref, (int)o.arg(1), (u64)o.arg(2)), want;
		bool pub = kd == "kenc", needpriv = !pub;
		if (kd == "kdec") m = zpowm(m, s.ref.e, s.ref.n);   // what the other machine sends
		Bn in(m, (int)(o.arg(3) & 3) * 64), out(s.ref.n.bits() + (int)(o.arg(3) >> 2 & 3) * 64);
		int rc; bool flt;
		{ Call L(pub ? "encrypt" : kd == "kdec" ? "decrypt" : "sign", limit); rc = pub ? RaRsaEncrypt(s.k, in.b, out.b) : kd == "kdec" ? RaRsaDecrypt(s.k, in.b, out.b) : RaRsaSign(s.k, in.b, out.b); flt = L.faulted(); }
		count("op.rsa");
		res("%s %s", kd.c_str(), flt && rc ? "faulted" : err_name(rc));
		if (needpriv && !s.ref.priv) {
			if (rc == RA_ERR_SUCCESS) bad(o, "nopriv", "a private-key operation succeeded on a public key");
			return true;
		}
		if (rc != RA_ERR_SUCCESS) { if (!flt) bad(o, "refused", "%s failed: %s", kd.c_str(), err_name(rc)); return true; }
		bool neg; Z got = out.get(&neg);
		if (in.get() != m) bad(o, "input", "the operand was changed");
		want = pub ? zpowm(m, s.ref.e, s.ref.n) : zpowm(m, s.ref.d, s.ref.n);
		if (neg || got != want) bad(o, "value", "%s under a %d bit key gives %s instead of %s", kd.c_str(), s.ref.n.bits(), got.hex().substr(0, 40).c_str(), want.hex().substr(0, 40).c_str());
		res("%s = %s", kd.c_str(), got.hex().substr(0, 32).c_str());
		// and back again with the inverse operation, where the key allows
		if (s.ref.priv && o.arg(4)) {
			Bn back(s.ref.n.bits());
			{ Call L(pub ? "decrypt" : "encrypt", limit); rc = pub ? RaRsaDecrypt(s.k, out.b, back.b) : RaRsaEncrypt(s.k, out.b, back.b); flt = L.faulted(); }
			if (rc != RA_ERR_SUCCESS) { if (!flt) bad(o, "refused", "inverse operation failed: %s", err_name(rc)); return true; }
			if (back.get() != m) bad(o, "inverse", "decrypting the encrypted message does not give it back (%d bit key)", s.ref.n.bits());
		}
		return true;
	}
	if (kd == "kver") {            // slot mkind seed tamper tval
		auto it = k.find(slot); if (it == k.end()) return true;
		KSlot &s = it->second;
		if (!s.known || s.hostile) return true;
		RefKey full = s.ref;
		Z m = message(full, (int)o.arg(1), (u64)o.arg(2)), sig;
		if (!full.priv) { // the signer is elsewhere: any s with its message s^e
			sig = m; m = zpowm(sig, full.e, full.n);
		} else sig = zpowm(m, full.d, full.n);
		u64 tv = (u64)o.arg(4);
		int nb = full.n.bits();
		switch (o.arg(3)) {
		case 0: break;
		case 1: mpz_combit(sig.v, tv % (nb ? nb : 1)); break;
		case 2: mpz_combit(m.v, tv % (nb ? nb : 1)); break;
		case 3: m = zrand_below(tv, full.n); break;
		case 4: sig = Z(0); break;
		case 5: sig = sig + full.n; break;
		case 6: { Z x(1); mpz_mul_2exp(x.v, x.v, nb + 64 + tv % 128); sig = sig + x; break; }
		case 7: std::swap(m, sig); break;
		case 8: sig = full.n - sig; break;
		case 9: sig = zrand_below(tv, full.n); break;
		case 10: m = m + full.n; break;
		case 11: m = Z(0); break;
		case 12: { Z x(1); mpz_mul_2exp(x.v, x.v, 64 * (nb / 64 + 1)); m = m + x; break; }     // same low words, longer
		case 13: { if (m.bits() > 64) mpz_fdiv_r_2exp(m.v, m.v, (m.bits() - 1) / 64 * 64); break; }   // top word lost
		case 14: sig = full.n; break;
		case 15: { if (sig.bits() > 64) mpz_fdiv_r_2exp(sig.v, sig.v, (sig.bits() - 1) / 64 * 64); break; }
		}
		if (o.arg(3)) { count("fault.tampered"); g->nontrivial = true; }
		bool should = sig < full.n && m < full.n && zpowm(sig, full.e, full.n) == m;
		if (o.arg(5) && mpz_sgn(sig.v) > 0) should = false;     // sign flipped on the signature
		Bn sb(sig, (int)(tv & 1) * 64), mb(m, (int)(tv >> 1 & 1) * 64);
		if (o.arg(5)) { NoFault q; _BnInvert(sb.b); if (mpz_sgn(sig.v) == 0) should = false, _BnInvert(sb.b), should = sig < full.n && m < full.n && zpowm(sig, full.e, full.n) == m; }
		int rc; bool flt;
		{ Call L("verify", limit); rc = RaRsaVerify(s.k, sb.b, mb.b); flt = L.faulted(); }
		count("op.rsa");
		res("kver %s", flt && rc ? "faulted" : rc ? "rejected" : "accepted");
		if (rc == RA_ERR_SUCCESS && !should) bad(o, "accepted", "a wrong signature was accepted (tamper kind %lld, %d bit key%s)", (long long)o.arg(3), nb, flt ? ", memory ran out during the check" : "");
		if (rc != RA_ERR_SUCCESS && should && !flt) bad(o, "rejected", "a true signature was rejected: %s (%d bit key)", err_name(rc), nb);
		return true;
	}
	if (kd == "kvfy") {            // slot
		auto it = k.find(slot); if (it == k.end()) return true;
		KSlot &s = it->second;
		int rc; bool flt;
		{ Call L("verify key", limit); rc = RaRsaVerifyKey(s.k); flt = L.faulted(); }
		count("op.verifykey");
		res("kvfy %s", flt && rc ? "faulted" : rc ? "rejected" : "accepted");
		if (s.known) {
			string why;
			bool ok = s.ref.consistent(&why);
			if (mpz_sgn(s.ref.n.v) <= 0 || mpz_sgn(s.ref.e.v) < 0) return true;
			if (rc == RA_ERR_SUCCESS && !ok) bad(o, "accepted", "an inconsistent key was accepted (%s)%s", why.c_str(), flt ? " while memory or entropy failed" : "");
			if (rc != RA_ERR_SUCCESS && ok && !flt) bad(o, "rejected", "a sound %d bit key (primes of %d and %d bits, e of %d bits) was rejected: %s", s.ref.n.bits(), s.ref.p.bits(), s.ref.q.bits(), s.ref.e.bits(), err_name(rc));
			if (rc == RA_ERR_INVALID_DATA && ok && flt) bad(o, "verdict", "a failure during the verification was turned into the verdict that a sound key is not valid");
			RefKey got;
			if (!s.hostile) {
				if (!key_read(s.k, got, s.ref.priv) || !same_key(got, s.ref, s.ref.priv)) bad(o, "corrupted", "the key changed during verification");
			}
		}
		return true;
	}
	if (kd == "kexp") {            // slot form capmode delta nolen
		auto it = k.find(slot); if (it == k.end()) return true;
		KSlot &s = it->second;
		if (!s.known || negative(s.ref)) return true;
		bool priv = !(o.arg(1) & 1);
		Bytes want = priv ? der_priv_pkcs8(s.ref) : der_pub_spki(s.ref);
		int L0 = (int)want.size(), mode = (int)(o.arg(2) & 3), delta = gclamp(o.arg(3), 0, 100000);
		int cap = mode == 1 ? L0 : mode == 2 ? L0 + delta : mode == 3 ? L0 - 1 - delta % L0 : 0;
		Buf b((size_t)(mode ? cap + 64 : 64));
		Bytes pre = b.bytes(b.n);
		int rl = -12345, rc; bool flt;
		{ Call L("export", limit); rc = priv ? RaRsaPrivKeyToByteArray(s.k, mode ? b.p : nullptr, cap, o.arg(4) ? nullptr : &rl) : RaRsaPubKeyToByteArray(s.k, mode ? b.p : nullptr, cap, o.arg(4) ? nullptr : &rl); flt = L.faulted(); }
		count("op.export");
		res("kexp %s %d", flt && rc ? "faulted" : err_name(rc), rc ? 0 : rl);
		Bytes post = b.bytes(b.n);
		if (priv && !s.ref.priv) {
			if (rc == RA_ERR_SUCCESS) bad(o, "publicasprivate", "a public key was exported as private");
			if (post != pre) bad(o, "wrote", "a refused export wrote to the buffer");
			return true;
		}
		if (rc == RA_ERR_SUCCESS) {
			if (mode == 3) bad(o, "short", "export into %d bytes succeeded, %d are needed", cap, L0);
			if (!o.arg(4) && rl != L0) bad(o, "length", "reported length %d, the canonical encoding has %d bytes", rl, L0);
			if (mode && !std::equal(want.begin(), want.end(), post.begin())) bad(o, "bytes", "the exported bytes are not the canonical encoding of the key (%d bits)", s.ref.n.bits());
			size_t from = mode ? (size_t)L0 : 0;
			if (!std::equal(post.begin() + from, post.end(), pre.begin() + from)) bad(o, "past", "bytes after the reported length were written");
		} else {
			if (!flt && mode != 3) bad(o, "refused", "export failed: %s (capacity %d, needed %d)", err_name(rc), cap, L0);
			if (post != pre) bad(o, "wrote", "a failed export wrote to the buffer");
		}
		return true;
	}
	if (kd == "krt") {             // slot to form : export and read back on another machine
		auto it = k.find(slot); if (it == k.end()) return true;
		KSlot &s = it->second;
		if (!s.known || negative(s.ref)) return true;
		bool priv = !(o.arg(2) & 1) && s.ref.priv;
		Bytes b = export_quiet(s.k, priv);
		if (b.empty()) bad(o, "export", "export failed");
		Buf ib(b);
		Key *p = nullptr; int rc; bool flt;
		{ Call L("key import", limit); rc = RaRsaCreateKeyFromByteArray(ib.p, (int)b.size(), &p); flt = L.faulted(); }
		if (rc) { if (!flt) bad(o, "refused", "re-importing the export failed: %s", err_name(rc)); return true; }
		RefKey ref = s.ref, got; ref.priv = priv;
		put_key((int)o.arg(1), p, &ref, s.hostile);
		if (!key_read(p, got, priv) || !same_key(got, ref, priv)) bad(o, "value", "re-importing the export gives a different key");
		res("krt");
		return true;
	}
	// ---------------------------------------------------------- primes and numbers
	if (kd == "pchk") {            // kind seed bits
		int bits = gclamp(o.arg(2), 2, 2048);
		Z z = special_number((int)o.arg(0), (u64)o.arg(1), bits < 8 ? 8 : bits);
		if (mpz_sgn(z.v) < 0) return true;
		Bn b(z, (int)(o.arg(3) & 3) * 64);
		int rc; bool flt;
		{ Call L("primality test", limit); rc = RaIsPrimeNumber(b.b); flt = L.faulted(); }
		bool prime = zprime(z);
		count("op.primality");
		res("pchk %s", flt && rc ? "faulted" : rc ? "no" : "prime");
		if (rc == RA_ERR_SUCCESS && !prime && g->tasks.size() <= 1 && !g->lanes) {   // (lanes: the run alone must ask for exactly what the interleaved one does)
			// a random round misses a composite with probability at most 1/4; 5 rounds (3 from 1024 bits on) may
			// therefore err once in 1024 (64) tests: ask again with fresh entropy and judge the rate
			g->fail_at.clear(); g->fail_pm = 0; g->ent.stuck = -1; g->forces.clear();
			g->ent.open_script.clear(); g->ent.oi = 0; g->ent.read_script.clear(); g->ent.ri = 0;
			int again = 0, tries = 12;
			for (int i = 0; i < tries; i++) { Bn b2(z, 0); Call L("primality test", limit); if (RaIsPrimeNumber(b2.b) == RA_ERR_SUCCESS) again++; }
			count("mr.false_prime_retested");
			if (again >= (z.bits() >= 1024 ? 5 : 3)) bad(o, "composite", "composite 0x%s declared prime, and again in %d of %d repetitions", z.hex().substr(0, 64).c_str(), again, tries);
		}
		if (rc != RA_ERR_SUCCESS && !flt && prime) bad(o, "prime", "prime 0x%s not recognised: %s", z.hex().substr(0, 64).c_str(), err_name(rc));
		if (rc != RA_ERR_SUCCESS && rc != RA_ERR_INVALID_DATA && !flt) bad(o, "error", "primality test of 0x%s failed: %s", z.hex().substr(0, 64).c_str(), err_name(rc));
		if (rc == RA_ERR_INVALID_DATA && flt && prime) bad(o, "verdict", "a failure during the test was turned into the verdict 'not prime' for a prime");
		if (b.get() != z) bad(o, "input", "the tested number was changed");
		return true;
	}
	if (kd == "pgen") {            // bits cancel_at rngslot(-1: automatic) extrabits
		int bits = gclamp(o.arg(0), 2, 2048);
		Prog pr; pr.cancel = (int)o.arg(1);
		struct RaRandom *rnd = nullptr;
		auto it = r.find((int)o.arg(2, -1)); if (it != r.end()) rnd = it->second.ctx;
		Bn b(bits + (int)(o.arg(3) & 3) * 64);
		int rc; bool flt; size_t live0 = g->live.size(); size_t fds = g->ent.open.size(); u64 st;
		u64 rep0 = g->cnt["fault.rng_repeat"];
		static const int RET[6] = {1, -1, 2, 256, INT_MIN, 65536};
		pr.ret = RET[(u64)(bits + pr.cancel) % 6];
		{ Call L("prime generation", limit ? limit : prime_limit(bits)); rc = o.arg(4) ? (pr.cancel = 0, RaGenPrimeNumber(b.b, bits)) : RaGenPrimeNumberEx(b.b, bits, pr.cancel || !o.arg(5) ? progress_cb : nullptr, &pr, rnd); flt = L.faulted(); st = L.st; }
		if (st > g->cnt["max.primegen_steps"]) g->cnt["max.primegen_steps"] = st;
		count("op.primegen");
		bool cancelled = pr.cancel && pr.calls >= pr.cancel;
		res("pgen %d %s%s", bits, flt && rc ? "faulted" : err_name(rc), cancelled ? " cancelled" : "");
		if (g->tasks.size() <= 1 && (g->live.size() != live0 || g->ent.open.size() != fds)) bad(o, "leak", "prime generation left %zd blocks and %zd descriptors behind", (ssize_t)(g->live.size() - live0), (ssize_t)(g->ent.open.size() - fds));
		if (pr.after) bad(o, "callback", "%d callbacks after cancellation", pr.after);
		if (cancelled && g->tasks.size() <= 1 && g->steps - pr.at > 200000) bad(o, "late", "%llu library steps of work after the cancellation", (unsigned long long)(g->steps - pr.at));
		if (cancelled) { count("fault.cancelled"); g->nontrivial = true; return true; }
		if (rc != RA_ERR_SUCCESS) { if (!flt) bad(o, "refused", "prime generation of %d bits failed: %s", bits, err_name(rc)); return true; }
		bool neg; Z z = b.get(&neg);
		// with the same forced witness in every round no primality test can keep its promise
		bool fair = g->cnt["fault.rng_repeat"] <= rep0 + 1;
		if (neg || (fair && !zprime(z))) bad(o, "composite", "generated number 0x%s is not prime", z.hex().substr(0, 64).c_str());
		if (z.bits() != bits) bad(o, "size", "asked for %d bits, got a prime of %d bits", bits, z.bits());
		ok = true;
		res("pgen = %s", z.hex().substr(0, 24).c_str());
		return true;
	}
	if (kd == "bnrnd") {           // bits kind rngslot
		int bits = gclamp(o.arg(0), 1, 1024), kind = (int)(o.arg(1) & 3);
		struct RaRandom *rnd = nullptr;
		auto it = r.find((int)o.arg(2, -1)); if (it != r.end()) rnd = it->second.ctx;
		int rc; bool flt;
		if (kind == 3) {
			Buf b((size_t)(bits + 7) / 8);
			{ Call L("random bytes"); rc = BnGenRandomByteArray(b.p, (int)b.n, rnd); flt = L.faulted(); }
			if (rc && !flt) bad(o, "refused", "random bytes failed: %s", err_name(rc));
			if (!rc) { ok = true; res_bytes("bnrnd", b.bytes(b.n)); } else res("bnrnd faulted");
			return true;
		}
		Bn b(bits + (int)(o.arg(3) & 1) * 64);
		{ Call L("random number"); rc = kind == 0 ? BnGenRandom(b.b, bits, rnd) : kind == 1 ? BnGetRandomOdd(b.b, bits, rnd) : BnGetRandomRSA(b.b, bits, rnd); flt = L.faulted(); }
		if (rc && !flt) bad(o, "refused", "random number failed: %s", err_name(rc));
		if (rc) { res("bnrnd faulted"); return true; }
		bool neg; Z z = b.get(&neg);
		if (neg || z.bits() > bits) bad(o, "size", "random number of %d bits requested, got %d bits%s", bits, z.bits(), neg ? " negative" : "");
		if (kind == 1 && !z.odd()) bad(o, "odd", "odd random number is even");
		if (kind == 2 && (!z.odd() || z.bits() != bits)) bad(o, "rsa", "candidate has %d bits, %d requested", z.bits(), bits);
		ok = true;
		res("bnrnd = %s", z.hex().substr(0, 32).c_str());
		return true;
	}
	if (kd == "bnop") {            // kind seed bitsA bitsB : number calls that allocate
		int kind = (int)(o.arg(0) % 8), ba = gclamp(o.arg(2), 1, 1024), bb = gclamp(o.arg(3), 1, 1024);
		u64 sd = (u64)o.arg(1);
		Z a = zedge_bits(mix(sd, 1), ba), b = zedge_bits(mix(sd, 2), bb);
		if (sd % 5 == 0) {     // operands that nearly divide
			Z q = zedge_bits(mix(sd, 5), 1 + (int)(sd / 5 % 100)), c(1 + (long)(sd / 500 % 3)); a = b * q + (b - c); if (mpz_sgn(a.v) <= 0) a = Z(1); ba = a.bits();
		} else if (sd % 5 == 1) { Z t(1); mpz_mul_2exp(t.v, t.v, bb + (int)(sd / 5 % 64)); a = b * t - Z((long)(sd / 500 % 3)); if (mpz_sgn(a.v) <= 0) a = Z(1); ba = a.bits(); }
		else if (sd % 10 == 2) { // words of all ones
			int wb = 32 * (1 + (int)(sd / 10 % 4)); Z t(1); mpz_mul_2exp(t.v, t.v, wb); b = t - Z(1); bb = wb;
			if (sd / 40 % 2) { Z u(1); mpz_mul_2exp(u.v, u.v, ba = 32 * (1 + ba / 32)); a = u - Z(1 + (long)(sd / 80 % 3)); }
		}
		Bn A(a), B(b), R(ba + bb + 128), S(ba + bb + 128);
		int rc = 0; bool flt = false, neg = false, neg2 = false;
		auto fin = [&](const char *n) { res("%s %s", n, flt && rc ? "faulted" : err_name(rc)); count("op.bn"); if (rc && !flt) bad(o, "refused", "%s failed: %s", n, err_name(rc)); return rc == 0; };
		if (kind == 0) {
			{ Call L("BnMod"); rc = BnMod(R.b, A.b, B.b); flt = L.faulted(); }
			if (fin("BnMod") && R.get() != a % b) bad(o, "value", "BnMod wrong");
		} else if (kind == 1) {
			{ Call L("BnDiv"); rc = BnDiv(S.b, R.b, A.b, B.b); flt = L.faulted(); }
			Z q; mpz_fdiv_q(q.v, a.v, b.v);
			if (fin("BnDiv") && (R.get() != a % b || S.get() != q)) bad(o, "value", "BnDiv wrong");
		} else if (kind == 2) {
			{ Call L("GetGCD"); rc = GetGCD(R.b, A.b, B.b); flt = L.faulted(); }
			Z q; mpz_gcd(q.v, a.v, b.v);
			if (fin("GetGCD") && R.get() != q) bad(o, "value", "GetGCD of %d and %d bit numbers is wrong", ba, bb);
		} else if (kind == 3) {
			Bn G(ba + bb + 128);
			{ Call L("GetGCDEx"); rc = GetGCDEx(G.b, R.b, S.b, A.b, B.b, 0); flt = L.faulted(); }
			Z q; mpz_gcd(q.v, a.v, b.v);
			if (fin("GetGCDEx") && (G.get() != q || a * R.get(&neg) + b * S.get(&neg2) != q)) bad(o, "value", "GetGCDEx wrong");
		} else if (kind == 4) {
			mpz_setbit(b.v, 0); mpz_setbit(b.v, bb > 2 ? bb - 1 : 2);
			Z base = a % b;
			if (sd % 3 == 0) { base = b - Z(1 + (long)(sd / 3 % 5)); if (mpz_sgn(base.v) < 0) base = Z(0); }
			else if (sd % 3 == 1) { Z t(1); mpz_mul_2exp(t.v, t.v, 32 * (1 + sd / 3 % 32)); base = (t - Z((long)(sd / 96 % 3))) % b; }
			Z e = zedge_bits(mix(sd, 3), gclamp(o.arg(4), 1, 300));
			Bn N(b), X(base), E(e), Y(b.bits());
			struct RaMontCtx *mc = nullptr;
			{ Call L("RaMontCreate"); rc = RaMontCreate(N.b, &mc); flt = L.faulted(); }
			if (!fin("RaMontCreate")) { if (mc) bad(o, "halfbuilt", "RaMontCreate failed but stored a pointer"); return true; }
			for (int i = 0; i < 2; i++) {
				{ Call L("RaMontExpMod"); rc = RaMontExpMod(mc, Y.b, X.b, E.b); flt = L.faulted(); }
				if (fin("RaMontExpMod")) { if (Y.get() != zpowm(base, e, b)) bad(o, "value", "modular power wrong (%d bit modulus)", b.bits()); break; }
			}
			{ LibCall L("RaMontDestroy"); RaMontDestroy(mc); }
		} else if (kind == 5) {
			struct RaBigNumber *cl;
			{ Call L("BnClone"); cl = BnClone(A.b); flt = L.faulted(); rc = cl ? 0 : RA_ERR_OUT_OF_MEMORY; }
			if (fin("BnClone")) { if (bn_value(cl) != a) bad(o, "value", "BnClone wrong"); LibCall L("BnClearFree"); BnClearFree(cl); }
		} else if (kind == 6) {    // encode, also negative numbers
			bool ng = sd & 1;
			if (ng) { NoFault q; _BnInvert(A.b); }
			Buf out((size_t)ba / 8 + 2); int n;
			{ Call L("BnToByteArray"); n = BnToByteArray(A.b, out.p, (int)out.n); flt = L.faulted(); rc = n > 0 ? 0 : RA_ERR_OUT_OF_MEMORY; }
			if (fin("BnToByteArray")) {
				Z v = Z::from_be(out.p, n); if (out.p[0] & 0x80) { Z m(1); mpz_mul_2exp(m.v, m.v, 8 * n); v = v - m; }
				Z w = a; if (ng) mpz_neg(w.v, w.v);
				if (v != w) bad(o, "value", "BnToByteArray wrong");
			}
		} else {
			Bn M(ba + bb + 64);
			{ Call L("BnMul"); rc = BnMul(M.b, A.b, B.b); flt = L.faulted(); }
			if (fin("BnMul") && M.get() != a * b) bad(o, "value", "BnMul wrong");
		}
		return true;
	}
	return false;
}
