#include "props.h"
#include <algorithm>
#include <cerrno>
#include <set>

// ================================================================ generators
static i64 rsize(Rng &r, int bs) {
	switch (r.below(9)) {
	case 0: return r.range(0, 3);
	case 1: case 2: { i64 v = bs * r.range(0, 6) + r.range(-1, 1); return v < 0 ? 0 : v; }
	case 3: return bs;
	case 4: return r.range(1, bs > 1 ? bs - 1 : 1);
	case 5: return r.range(0, 80);
	case 6: { i64 v = bs * 8 * r.range(1, 4) + r.range(-1, 1); return v; }
	case 7: return r.range(0, 300);
	default: if (r.below(50) == 0) return 65536 * (r.below(20) ? r.range(1, 2) : bs > 1 ? bs : 16) + r.range(-20, 40); return r.pct(15) ? r.range(0, 6000) : r.range(0, 40);
	}
}
static i64 dsize(Rng &r) {
	static const i64 edge[] = {0, 1, 3, 4, 7, 8, 15, 16, 17, 47, 48, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 121, 127, 128, 129, 191, 192, 239, 240, 255, 256, 257, 447, 448, 511, 512, 513};
	if (r.pct(55)) return edge[r.below(sizeof edge / sizeof *edge)];
	if (r.pct(10)) return r.range(0, 9000);
	return r.range(0, 300);
}
static int ralg(Rng &r) { return r.pct(35) ? (int)r.below(3) : (int)r.below(C_NCIPHER); }
static int rdig(Rng &r) { return (int)r.below(D_N); }
static i64 klen(Rng &r, int alg) { return alg == C_BF ? (r.pct(30) ? r.range(56, 76) : r.range(1, 56)) : alg == C_RC4 ? r.range(1, 256) : 16; }
static i64 sd(Rng &r) { return (i64)(r.next() >> 20); }
static i64 off(Rng &r) { return r.pct(40) ? 0 : (i64)r.below(256); }

static void common(Plan &p, Rng &r) {
	static const i64 clocks[] = {0, 1000000000ll, 4294967295000000000ll, 2147483647999000000ll, 86400000000000ll * 400, 999999999ll};
	p.cfg["junk"] = (i64)r.below(1000000);
	p.cfg["clk0"] = r.pct(50) ? clocks[r.below(6)] : (i64)(r.next() >> 4);
	p.cfg["cpu"] = r.pct(50) ? 7 : (i64)r.below(8);
	p.cfg["ent"] = sd(r);
	if (r.pct(35)) p.cfg["direct"] = (i64)r.range(1, 31);
	if (r.pct(15)) p.cfg["fd0"] = 1;
}
static void env(Plan &p, Rng &r, int t, int pct) {
	if (!r.pct(pct)) return;
	switch (r.below(3)) {
	case 0: p.op(t, "cpu", {(i64)r.below(8)}); break;
	case 1: p.op(t, "clkj", {r.pct(50) ? (i64)(r.next() >> 2) : -(i64)(r.next() >> 3)}); break;
	default: p.op(t, "junk", {sd(r)});
	}
}
// one encrypted or decrypted message on a context
static void message_ops(Plan &p, Rng &r, int t, int slot, int alg, int pieces) {
	int bs = cipher_block(alg), dec = (int)r.below(2);
	for (int i = 0; i < pieces; i++) {
		p.op(t, "cupd", {slot, dec, rsize(r, bs), sd(r), off(r), (i64)r.below(2)});
		if (r.pct(30)) p.op(t, "cgiv", {slot, (i64)r.below(4)});
	}
	if (r.pct(75)) p.op(t, "cfin", {slot, dec, rsize(r, bs), sd(r), off(r), (i64)r.below(3)});
	if (r.pct(40)) p.op(t, "cgiv", {slot, 0});
}
static void cnew(Plan &p, Rng &r, int t, int slot, int alg) { p.op(t, "cnew", {slot, alg, (i64)r.below(4), sd(r), klen(r, alg), r.pct(35)}); }

static u64 g_index;      // number of the run in its batch
static void gen_C01(Plan &p, Rng &r, bool) {
	if (p.variant == "ship") {   // very long calls, every cipher in turn
		int alg = (int)(g_index % C_NCIPHER), round = (int)(g_index / C_NCIPHER);
		bool quick = alg == C_RC4 || alg < 3;
		static const i64 base[] = {1ll << 24, 1ll << 26, 0x7fffffff, 1ll << 28, 1ll << 30};
		i64 n = base[quick ? (round + 2) % 5 : round % 4 == 2 ? 0 : round % 4];
		if (n != 0x7fffffff) n += r.range(-20, 70);
		bool loc = r.pct(75); int dec = (int)r.below(2);
		p.op(0, "cnew", {0, alg, loc ? (dec ? (i64)r.below(3) : (i64)M_ECB) : (i64)r.below(4), sd(r), klen(r, alg), r.pct(35)});
		p.op(0, "civ", {0, sd(r)});
		if (r.pct(50)) p.op(0, "cupd", {0, dec, r.range(1, 40), sd(r), 0, 0});
		p.op(0, "cbig", {0, dec, n, sd(r)});
		p.op(0, "cgiv", {0, 0});
		p.op(0, "cupd", {0, dec, r.range(1, 60), sd(r), 0, 0});
		p.op(0, "cfin", {0, dec, r.range(1, 40), sd(r), 0, (i64)r.below(3)});
		return;
	}
	int n = (int)r.range(1, 3);
	vector<int> alg(n);
	for (int i = 0; i < n; i++) { alg[i] = ralg(r); cnew(p, r, 0, i, alg[i]); if (r.pct(80)) p.op(0, "civ", {i, sd(r)}); }
	int m = (int)r.range(2, 6);
	for (int k = 0; k < m; k++) {
		int i = (int)r.below(n);
		env(p, r, 0, 10);
		message_ops(p, r, 0, i, alg[i], (int)r.range(1, 6));
		if (r.pct(30)) p.op(0, "civ", {i, sd(r)});
	}
}
static void gen_C02(Plan &p, Rng &r, bool) {
	int n = (int)r.range(1, 2);
	for (int c = 0; c < n; c++) {
		int alg = ralg(r), bs = cipher_block(alg), S = c * 2, R = c * 2 + 1;
		i64 mode = (i64)r.below(4), ks = sd(r), kl = klen(r, alg);
		p.op(0, "cnew", {S, alg, mode, ks, kl, r.pct(30)});
		if (r.pct(50)) p.op(0, "cpu", {(i64)r.below(8)});
		p.op(0, "cnew", {R, alg, mode, ks, kl, r.pct(30)});
		int msgs = (int)r.range(1, 3);
		for (int m = 0; m < msgs; m++) {
			if (r.pct(75)) { i64 iv = sd(r); p.op(0, "civ", {S, iv}); p.op(0, "civ", {R, iv}); }
			int pieces = (int)r.range(0, 5), early = r.pct(40);
			for (int i = 0; i < pieces; i++) {
				p.op(0, "cupd", {S, 0, rsize(r, bs), sd(r), off(r), (i64)r.below(2), c});
				if (early && r.pct(50)) p.op(0, "crecv", {R, c, rsize(r, bs), off(r), (i64)r.below(2)});
			}
			p.op(0, "cfin", {S, 0, rsize(r, bs), sd(r), off(r), (i64)r.below(3), c});
			if (r.pct(30)) { int f = (int)r.range(1, 3); for (int i = 0; i < f; i++) switch (r.below(5)) {
				case 0: case 1: p.op(0, "chflip", {c, sd(r), (i64)r.below(8)}); break;
				case 2: p.op(0, "chcut", {c, r.pct(60) ? (i64)r.below(20) : sd(r)}); break;
				case 3: p.op(0, "chdup", {c, sd(r)}); break;
				default: p.op(0, "chswap", {c, sd(r)}); } }
			int rc = (int)r.range(0, 6);
			for (int i = 0; i < rc; i++) p.op(0, "crecv", {R, c, rsize(r, bs), off(r), (i64)r.below(2)});
			p.op(0, "crecvfin", {R, c, off(r)});
		}
	}
}
static void digest_ops(Plan &p, Rng &r, int t, int slot, int upd, bool copies) {
	for (int i = 0; i < upd; i++) {
		if (p.prop == "C03" && r.below(4000) == 0) p.op(t, "dupd", {slot, 65536 * (16ll << r.below(4)) + r.range(-1, 200), sd(r), (i64)r.below(64)});   // 65536 blocks and more in one piece
		else p.op(t, "dupd", {slot, dsize(r), sd(r), r.pct(50) ? 0 : (i64)r.below(64)});
		if (copies && r.pct(20)) { int to = 4 + (int)r.below(3); p.op(t, "dcopy", {slot, to}); if (r.pct(60)) p.op(t, "dupd", {to, dsize(r), sd(r), 1}); if (r.pct(60)) p.op(t, "dfin", {to, 0}); }
	}
}
static void gen_C03(Plan &p, Rng &r, bool thorough) {
	if (p.variant == "ship") {   // streams beyond 2^29 and 2^32 bytes
		// every digest in turn: rounds 0 and 1 stop just short of 2^29 (2^32 bits) or 2^32 bytes and let copies of the
		// context cross it in different pieces, round 2 crosses it inside long pieces
		vector<int> ds;
		for (int d2 = 0; d2 < D_N; d2++) if (d2 != D_MD2) ds.push_back(d2);
		int d = ds[g_index % ds.size()]; int round = (int)(g_index / ds.size() % 3);
		i64 line = round == 0 ? 1ll << 29 : 1ll << 32, chunk;
		static const i64 ch[] = {1 << 22, (1 << 22) + 40, (300 << 20) + 7, 1 << 29, 1 << 30, 0x7fffff80, 0x7fffffff, 0x7fffff00, 0x7fffffff - 77};
		chunk = ch[r.below(9)];
		p.op(0, "dnew", {0, d, r.pct(50)});
		i64 a = r.pct(30) ? 0 : r.range(1, 130);
		if (a) p.op(0, "dupd", {0, a, sd(r), 0});
		if (round == 2) p.op(0, "dbig", {0, line + r.range(-a, 200), chunk, sd(r)});
		else {
			i64 gap = r.pct(30) ? 128 : r.range(1, 200);
			p.op(0, "dbig", {0, line - a - gap, chunk, sd(r)});
			for (int c = 1; c <= 6; c++) {
				i64 done = 0;
				p.op(0, "dcopy", {0, c});
				if (c == 1) while (done < gap + 130) { i64 k = r.range(1, 40); p.op(0, "dupd", {c, k, sd(r), r.below(8) ? 0 : 3}); done += k; }
				else if (c == 2) p.op(0, "dupd", {c, gap, sd(r), 0});                 // exactly to the line
				else if (c == 3) p.op(0, "dupd", {c, gap + r.range(1, 300), sd(r), 1});
				else if (c == 4) { i64 k = r.range(0, gap); p.op(0, "dupd", {c, k, sd(r), 0}); p.op(0, "dupd", {c, gap - k + (r.pct(50) ? 0 : r.range(1, 63)), sd(r), 0}); }
				else if (c == 5) p.op(0, "dupd", {c, r.pct(50) ? 1 << 20 : 128 * r.range(1, 9), sd(r), 0});
				else { p.op(0, "dupd", {c, gap - 1, sd(r), 0}); p.op(0, "dupd", {c, 1, sd(r), 0}); p.op(0, "dupd", {c, 0, sd(r), 0}); p.op(0, "dupd", {c, 1, sd(r), 0}); }
				p.op(0, "dfin", {c, 0});
			}
		}
		p.op(0, "dcopy", {0, 1});
		p.op(0, "dupd", {0, r.range(0, 300), sd(r), 3});
		p.op(0, "dfin", {0, 0}); p.op(0, "dfin", {1, 0});
		p.op(0, "dini", {0, sd(r)}); p.op(0, "dupd", {0, dsize(r), sd(r), 0}); p.op(0, "dfin", {0, 0});
		return;
	}
	int n = (int)r.range(1, 3);
	for (int i = 0; i < n; i++) p.op(0, "dnew", {i, rdig(r), r.pct(40)});
	int m = (int)r.range(2, 8);
	for (int k = 0; k < m; k++) {
		int i = (int)r.below(n);
		env(p, r, 0, 10);
		digest_ops(p, r, 0, i, (int)r.range(0, 6), true);
		if (r.pct(70)) p.op(0, "dfin", {i, (i64)r.below(16)});
		if (r.pct(60)) p.op(0, "dini", {i, sd(r)});
		if (r.pct(20)) p.op(0, "done", {rdig(r), dsize(r), sd(r), (i64)r.below(16)});
		if (r.pct(15)) p.op(0, "dnew", {i, rdig(r), r.pct(40)});
	}
	for (int i = 0; i < n; i++) p.op(0, "dfin", {i, 0});
}
static i64 small_key(Rng &r) {   // modulus up to about 260 bits
	static const int g2[] = {0, 2, 3, 5, 6, 7, 8, 10, 11, 13, 14, 17, 18, 19};
	if (r.pct(20)) return (20 + (i64)r.below(5)) * 4 + (i64)r.below(4) + (r.pct(25) ? 100000 : 0);   // primes at the edges
	return g2[r.below(14)] * 4 + (i64)r.below(4) + (r.pct(25) ? 100000 : 0);
}
static i64 any_key(Rng &r) { return (i64)r.below(ref_key_count()) + (r.pct(25) ? 100000 : 0); }
static i64 style(Rng &r) { return r.pct(50) ? 0 : (i64)r.below(64); }

static void gen_C04(Plan &p, Rng &r, bool) {
	int nt = (int)r.range(2, 4);
	p.cfg["lanes"] = 1;
	static const i64 sl[] = {2, 5, 17, 60, 200, 700, 3000, 20000};
	p.cfg["slice"] = sl[r.below(8)];
	int flavour = (int)r.below(5);     // which subsystem all threads share, 4 = anything
	for (int t = 0; t < nt; t++) {
		int k = (int)r.range(1, 5);
		for (int i = 0; i < k; i++) {
			int f = flavour == 4 || r.pct(15) ? (int)r.below(4) : flavour;
			if (f == 0) {
				int a = ralg(r), s = (int)r.below(2); cnew(p, r, t, s, a); if (r.pct(60)) p.op(t, "civ", {s, sd(r)});
				message_ops(p, r, t, s, a, (int)r.range(1, 3)); if (r.pct(40)) p.op(t, "cdel", {s});
			} else if (f == 1) {
				int s = (int)r.below(2); p.op(t, "dnew", {s, rdig(r), r.pct(40)}); digest_ops(p, r, t, s, (int)r.range(1, 4), false); p.op(t, "dfin", {s, 0});
				if (r.pct(40)) { p.op(t, "dini", {s, sd(r)}); p.op(t, "dupd", {s, dsize(r), sd(r), 0}); p.op(t, "dfin", {s, 0}); }
				if (r.pct(30)) p.op(t, "ddel", {s});
			} else if (f == 2) {
				int s = (int)r.below(2);
				p.op(t, "rnew", {s, (i64)r.below(4), r.pct(50), sd(r), r.range(1, 60)});
				p.op(t, "rget", {s, r.range(1, 200), 0}); if (r.pct(50)) p.op(t, "rint", {s, 0, (i64)r.below(100000)}); if (r.pct(50)) p.op(t, "rdbl", {s});
				p.op(t, "rget", {s, r.range(1, 100), 0}); if (r.pct(50)) p.op(t, "bnrnd", {r.range(1, 200), (i64)r.below(4), r.pct(50) ? s : -1, 0});
				if (r.pct(40)) p.op(t, "rdel", {s});
			} else {
				switch (r.below(6)) {
				case 0: p.op(t, "kimp", {0, small_key(r), (i64)r.below(4), style(r)}); p.op(t, "kenc", {0, 9, sd(r), 0, 0}); p.op(t, "kexp", {0, (i64)r.below(2), 1, 0, 0}); break;
				case 1: p.op(t, "kimp", {1, small_key(r), 2 * (i64)r.below(2), style(r)}); p.op(t, "ksig", {1, (i64)r.below(10), sd(r), 0, 0}); p.op(t, "kver", {1, 9, sd(r), (i64)r.below(3), sd(r)}); if (r.pct(50)) p.op(t, "kdel", {1}); break;
				case 2: p.op(t, "pchk", {(i64)r.below(12), sd(r), r.range(16, 72), 0}); break;
				case 3: p.op(t, "bnop", {(i64)r.below(8), sd(r), r.range(1, 200), r.range(1, 200), r.range(1, 40)}); break;
				case 4: p.op(t, "pgen", {r.range(16, 40), 0, -1, 0, 0, 0}); break;
				default: p.op(t, r.pct(50) ? "kgen" : "bnop", {3, r.pct(50) ? 64 : 48, 100, 100, 30});
				}
			}
		}
	}
}
static i64 nbits(Rng &r, int max) { return r.pct(40) ? r.range(1, 4) * (r.pct(60) ? 32 : 64) + (r.pct(25) ? (i64)r.below(3) - 1 : 0) : r.range(1, r.pct(20) ? 1024 : max); }
static void gen_C05(Plan &p, Rng &r, bool) {
	int k = (int)r.range(2, 6);
	p.cfg.erase("cpu");
	for (int i = 0; i < k; i++) {
		if (r.pct(8)) p.op(0, "bnop", {(i64)r.below(8), sd(r), nbits(r, 300), nbits(r, 300), r.range(1, 64)});
		int f = (int)r.below(10);
		if (f < 5) { int a = r.pct(60) ? (int)r.below(3) : ralg(r), s = (int)r.below(3); cnew(p, r, 0, s, a); if (r.pct(70)) p.op(0, "civ", {s, sd(r)}); for (int m = 0; m < 2; m++) message_ops(p, r, 0, s, a, (int)r.range(1, 5)); if (r.pct(30)) p.op(0, "cini", {s, sd(r), (i64)r.below(4), sd(r), klen(r, a)}), p.op(0, "cupd", {s, 0, rsize(r, 16), sd(r), 0, 0}); }
		else if (f < 8) { int s = (int)r.below(3); p.op(0, "dnew", {s, r.pct(60) ? (i64)(D_SHA1 + r.below(3)) : rdig(r), r.pct(40)}); digest_ops(p, r, 0, s, (int)r.range(1, 5), true); p.op(0, "dfin", {s, 0}); if (r.pct(30)) { p.op(0, "dini", {s, sd(r)}); p.op(0, "dupd", {s, dsize(r), sd(r), 1}); p.op(0, "dfin", {s, 0}); } }
		else if (f < 9) { p.op(0, "rnew", {0, (i64)r.below(4), 1, sd(r), r.range(1, 200)}); p.op(0, "rget", {0, r.range(1, 300), 0}); p.op(0, "rint", {0, 0, sd(r) & 0xffffffff}); p.op(0, "rdbl", {0}); p.op(0, "rget", {0, r.range(1, 100), 0}); }
		else { p.op(0, "kimp", {0, small_key(r), (i64)r.below(4), style(r)}); p.op(0, "kenc", {0, (i64)r.below(10), sd(r), (i64)r.below(16), 0}); p.op(0, "ksig", {0, (i64)r.below(10), sd(r), (i64)r.below(16), 0}); p.op(0, "kver", {0, (i64)r.below(10), sd(r), (i64)r.below(16), sd(r)}); p.op(0, "kexp", {0, (i64)r.below(2), 1, 0, 0}); }
	}
}
// an operation that allocates, with what it needs
static void alloc_target(Plan &p, Rng &r, vector<Op> &pre, Op &o) {
	auto add = [&](const char *k, vector<i64> a) { pre.push_back(Op{0, k, std::move(a)}); };
	o.task = 0;
	switch (r.below(17)) {
	case 0: { int a = ralg(r); o.kind = "cnew"; o.a = {7, a, (i64)r.below(4), sd(r), klen(r, a), 0}; break; }
	case 1: o.kind = "dnew"; o.a = {7, rdig(r), 0}; break;
	case 2: o.kind = "rnew"; o.a = {7, (i64)r.below(4), r.pct(60), sd(r), r.range(1, 60)}; break;
	case 3: case 4: o.kind = "kimp"; o.a = {7, small_key(r), (i64)r.below(4), style(r)}; break;
	case 5: add("kimp", {0, small_key(r), (i64)r.below(4), style(r)}); o.kind = "kenc"; o.a = {0, (i64)r.below(10), sd(r), (i64)r.below(16), r.pct(50)}; break;
	case 6: add("kimp", {0, small_key(r), 2 * (i64)r.below(2), style(r)}); o.kind = r.pct(50) ? "kdec" : "ksig"; o.a = {0, (i64)r.below(10), sd(r), (i64)r.below(16), 0}; break;
	case 7: add("kimp", {0, small_key(r), (i64)r.below(4), style(r)}); o.kind = "kver"; o.a = {0, (i64)r.below(10), sd(r), r.pct(50) ? (i64)r.below(16) : 0, sd(r), 0}; break;
	case 8: case 9: if (r.pct(60)) add("kimp", {0, small_key(r), 2 * (i64)r.below(2), style(r)}); else add("kalt", {0, small_key(r), 2 * (i64)r.below(2), 0, (i64)r.below(8), r.range(1, 32), sd(r)});
		o.kind = "kvfy"; o.a = {0}; break;
	case 10: add("kimp", {0, small_key(r), (i64)r.below(4), style(r)}); o.kind = "kexp"; o.a = {0, (i64)r.below(2), (i64)r.below(4), r.range(0, 30), 0}; break;
	case 11: add("kimp", {0, small_key(r), (i64)r.below(4), style(r)}); o.kind = "krt"; o.a = {0, 7, (i64)r.below(2)}; break;
	case 12: o.kind = "pchk"; o.a = {(i64)r.below(12), sd(r), r.range(8, 96), (i64)r.below(4)}; break;
	case 13: o.kind = "pgen"; o.a = {r.range(16, 80), 0, -1, (i64)r.below(4), r.pct(30), 0}; break;
	case 14: o.kind = "bnrnd"; o.a = {r.range(1, 300), (i64)r.below(4), -1, (i64)r.below(2)}; break;
	case 15: o.kind = "bnop"; o.a = {(i64)r.below(8), sd(r), r.range(1, 300), r.range(1, 300), r.range(1, 64)}; break;
	default: if (r.pct(30)) { o.kind = "kgen"; o.a = {7, 2 * r.range(32, 64)}; } else { o.kind = "bnop"; o.a = {4, sd(r), 10, r.range(3, 200), 40}; }
	}
}
static void gen_C06(Plan &p, Rng &r, bool) {
	int n = (int)r.range(1, 3);
	for (int i = 0; i < n; i++) {
		vector<Op> pre; Op o;
		alloc_target(p, r, pre, o);
		for (auto &x : pre) p.ops.push_back(x);
		if (r.pct(15)) { p.op(0, "aenum", {o.kind == "kgen" || o.kind == "pgen" ? r.range(10, 60) : 600}); p.ops.push_back(o); continue; }
		if (r.pct(90)) p.ops.push_back(o);       // how many allocations it makes when nothing fails
		int reps = (int)r.range(1, 4);
		for (int j = 0; j < reps; j++) {
			switch (r.below(8)) {
			case 0: p.op(0, "afail", {r.range(1, 6), 1}); break;
			case 1: p.op(0, "afail", {r.range(1, 12), r.range(1, 3)}); break;
			case 2: p.op(0, "aprob", {r.range(5, 400), sd(r)}); break;
			case 3: p.op(0, "afrac", {sd(r), r.range(2, 40)}); break;
			case 4: p.op(0, "afrac", {sd(r), 1}); p.op(0, "afrac", {sd(r), 1}); break;
			default: p.op(0, "afrac", {sd(r), 1});
			}
			p.ops.push_back(o);
		}
	}
}
static void eject(Plan &p, Rng &r) {   // device trouble for the next operation
	switch (r.below(7)) {
	case 0: p.op(0, "eopen", {ENOENT}); break;
	case 1: p.op(0, "eopen", {EMFILE}); break;
	case 2: p.op(0, "eread", {-EIO, r.pct(30)}); break;
	case 3: if (r.pct(40)) p.op(0, "eread", {r.pct(50) ? -EINTR : r.range(1, 31)}); p.op(0, "eread", {0, r.pct(50)}); break;
	case 4: p.op(0, "eread", {r.range(1, 31)}); p.op(0, "eread", {-EIO}); break;
	case 5: p.op(0, "eread", {-EINTR}); p.op(0, "eread", {r.range(1, 31)}); break;
	default: p.op(0, "eopen", {0, 0});
	}
}
static void gen_C07(Plan &p, Rng &r, bool) {
	int n = (int)r.range(2, 4);
	// survivors whose later behaviour is checked
	int a = ralg(r); cnew(p, r, 0, 0, a); p.op(0, "civ", {0, sd(r)});
	p.op(0, "dnew", {0, rdig(r), 0});
	p.op(0, "rnew", {0, (i64)r.below(4), 1, sd(r), 20});
	p.op(0, "kimp", {1, small_key(r), 2 * (i64)r.below(2), style(r)});
	for (int i = 0; i < n; i++) {
		vector<Op> pre; Op o;
		if (r.pct(20)) { p.op(0, "pgen", {r.range(16, 90), r.range(1, 4), r.pct(50) ? 0 : -1, 0, 0, 0}); }
		alloc_target(p, r, pre, o);
		if (o.kind == "kexp") pre.clear(), o.a[0] = 1; // a survivor under pressure
		if (o.kind == "kimp" && r.pct(40)) { o.a.push_back(r.range(1, 13)); o.a.push_back(sd(r)); o.a.push_back(sd(r)); }
		for (auto &x : pre) p.ops.push_back(x);
		if (r.pct(70)) p.ops.push_back(o);
		if (r.pct(25) && (o.kind == "rnew" || o.kind == "pgen" || o.kind == "bnrnd" || o.kind == "kgen" || o.kind == "pchk" || o.kind == "kvfy")) eject(p, r);
		else if (r.pct(70)) p.op(0, "afrac", {sd(r), r.pct(70) ? 1 : r.range(1, 30)});
		else if (r.pct(50)) p.op(0, "afail", {r.range(1, 10), 1});
		else p.op(0, "aprob", {r.range(5, 300), sd(r)});
		p.ops.push_back(o);
		p.ops.push_back(o);             // the retry must succeed
		message_ops(p, r, 0, 0, a, 2);
		p.op(0, "dupd", {0, dsize(r), sd(r), 0});
		if (r.pct(40)) p.op(0, "rget", {0, r.range(1, 40), 0});
		if (r.pct(60)) p.op(0, r.pct(50) ? "kdec" : "kver", {1, (i64)r.below(10), sd(r), 0, 0});
	}
	p.op(0, "dfin", {0, 0});
}
static void gen_C08(Plan &p, Rng &r, bool thorough) {
	int w = (int)r.range(0, 2);
	for (int i = 0; i < w; i++) switch (r.below(4)) {
		case 0: p.op(0, "rnew", {i, (i64)r.below(4), 0, 0, 0}); p.op(0, "rget", {i, 64, 0}); break;
		case 1: p.op(0, "bnrnd", {256, (i64)r.below(4), -1, 0}); break;
		case 2: p.op(0, "pchk", {1, sd(r), 40, 0}); break;
		default: eject(p, r); p.op(0, "rnew", {i, (i64)r.below(4), 0, 0, 0}); p.op(0, "rget", {i, 32, 0});
	}
	int f = (int)r.below(10);
	if (f < 3) {                       // reads interrupted and split
		int k = (int)r.range(1, 5);
		for (int i = 0; i < k; i++) switch (r.below(4)) { case 0: p.op(0, "eread", {-EINTR}); break; case 1: p.op(0, "eread", {1}); break; default: p.op(0, "eread", {r.range(1, 31)}); }
		if (r.pct(30)) p.op(0, "eopen", {EINTR});
	} else if (f < 8) {
		int k = (int)r.range(1, 2);
		for (int i = 0; i < k; i++) {
			if (r.pct(25)) p.op(0, "eread", {r.range(1, 31)});
			eject(p, r);
		}
	}
	if (r.pct(25)) p.op(0, "eopen", {0, 0});
	if (r.pct(30)) p.op(0, "clkj", {sd(r)});
	p.op(0, "mark", {sd(r)});
	int k = (int)r.below(thorough ? 10 : 12);
	if (k < 6) p.op(0, "rnew", {5, (i64)r.below(4), 0, 0, 0});
	else if (k < 8) p.op(0, "bnrnd", {r.range(200, 400), (i64)r.below(4), -1, 0});
	else if (k < 9) p.op(0, "kgen", {5, 2 * r.range(48, 56)});
	else p.op(0, "pgen", {r.range(64, 80), 0, -1, 0, r.pct(50), 0});
}
static const struct { int alg; i64 seed; int what; } DIRECTED[] = {
#include "directed.inc"
	{0, 1, 0}
};
static void gen_C09(Plan &p, Rng &r, bool) {
	int n = (int)r.range(1, 2);
	for (int i = 0; i < n; i++) {
		if (r.pct(25)) { auto &d = DIRECTED[r.below(sizeof DIRECTED / sizeof *DIRECTED)]; p.op(0, "rnew", {i, d.alg, 1, d.seed, 0, 8}); if (r.pct(70)) { if (r.pct(60)) p.op(0, "rdbl", {i}); else p.op(0, "rint", {i, (i64)r.below(5), (i64)(r.pct(50) ? 0xffffffffll : r.below(1000))}); } }
		else p.op(0, "rnew", {i, (i64)r.below(4), 1, sd(r), r.pct(10) ? r.range(100, 3000) : r.range(1, 90)});
	}
	int m = (int)r.range(3, 14);
	for (int k = 0; k < m; k++) {
		int i = (int)r.below(n);
		env(p, r, 0, 15);
		switch (r.below(10)) {
		case 0: p.op(0, "rint", {i, sd(r) & 0xffffffff, sd(r) & 0xffffffff}); break;
		case 1: { static const i64 lo[] = {0, 0, 5, 0, 0xfffffff0ll, 0, 0x7fffffff, 1, 0x80000000ll}, hi[] = {0xffffffffll, 1, 5, 0xfffffffell, 0xffffffffll, 0, 0x80000001ll, 0xffffffffll, 0xffffffffll}; int z = (int)r.below(9); p.op(0, "rint", {i, lo[z], hi[z]}); break; }
		case 2: p.op(0, "rdbl", {i}); break;
		case 3: if (r.pct(6)) { static const i64 sp[] = {9, 100, 256, 1000, 4096, 32768, 65536, 65537}; p.op(0, "rends", {i, r.pct(30) ? 0 : sd(r), r.pct(60) ? sp[r.below(8)] : r.pct(70) ? r.range(2, 2000) : r.range(2, 70000)}); } else if (r.pct(4)) p.op(0, "rlong", {i, r.pct(50) ? r.range(65537, 70000) : r.range(257, 4000)}); else if (r.pct(40)) { static const i64 hi[] = {0xffffffffll, 1, 2, 3, 6, 7, 99, 0xfffffffell, 0x80000000ll}; i64 h = hi[r.below(9)], l = r.pct(50) ? 0 : h / (i64)(2 + r.below(5)); p.op(0, "rspan", {i, l, h, 400}); } break;
		case 4: switch (r.below(6)) {    // other activity in the process
			case 0: p.op(0, "rnew", {8, (i64)r.below(4), 0, 0, 0}); p.op(0, "rget", {8, r.range(1, 90), 0}); break;
			case 1: p.op(0, "dnew", {8, rdig(r), 0}); p.op(0, "dupd", {8, dsize(r), sd(r), 0}); p.op(0, "dfin", {8, 0}); break;
			case 2: p.op(0, "bnrnd", {r.range(1, 200), (i64)r.below(4), -1, 0}); break;
			case 3: eject(p, r); p.op(0, "rnew", {8, (i64)r.below(4), 0, 0, 0}); break;
			case 4: p.op(0, "pchk", {1, sd(r), 24, 0}); break;
			default: p.op(0, "rnew", {9, (i64)r.below(4), 1, sd(r), 9}); p.op(0, "rget", {9, r.range(1, 90), 0}); p.op(0, "rdel", {9}); }
			break;
		case 5: if (r.pct(50)) p.op(0, "bnrnd", {r.range(1, 200), (i64)r.below(4), i, 0}); else p.op(0, "pgen", {r.range(16, 32), 0, i, 0, 0, 0}); break;
		default: p.op(0, "rget", {i, r.pct(30) ? r.range(0, 4) : r.pct(10) ? r.range(0, 2000) : r.range(1, 140), (i64)r.below(8)});
		}
	}
}
static void forces(Plan &p, Rng &r, int bits) {
	int k = (int)r.range(1, 3);
	for (int i = 0; i < k; i++) {
		i64 rel = r.pct(40) ? 1 : r.range(1, 40);
		switch (r.below(8)) {
		case 0: p.op(0, "force", {rel, 0}); break;
		case 1: p.op(0, "force", {rel, 1}); break;
		case 2: p.op(0, "force", {rel + 1, 3, r.range(1, rel)}); break;
		case 3: for (int j = 2; j < 60; j++) p.op(0, "force", {j, 3, 1}); break;   // the source keeps returning the same block
		default: p.op(0, "force", {rel, 2, (i64)r.below(5), sd(r), bits});
		}
	}
}
static void gen_C10(Plan &p, Rng &r, bool thorough) {
	int n = (int)r.range(1, 2);
	bool big = r.pct(thorough ? 25 : 8);
	for (int i = 0; i < n; i++) {
		int bits = big ? 2 * (int)r.range(90, thorough ? 300 : 130) : 2 * (int)r.range(32, 72);
		if (r.pct(25)) bits = 64 * (int)r.range(1, 3);
		if (r.pct(65)) forces(p, r, bits / 2);
		if (r.pct(20)) p.op(0, "clkj", {sd(r)});
		if (r.pct(10)) p.op(0, "eread", {r.range(1, 31)});
		if (r.pct(8)) eject(p, r);
		p.op(0, "kgen", {i, bits});
		if (r.pct(60)) p.op(0, "kvfy", {i});
		for (int j = 0; j < 2; j++) if (r.pct(60)) p.op(0, "kenc", {i, (i64)r.below(10), sd(r), 0, 1});
		if (r.pct(40)) p.op(0, "ksig", {i, (i64)r.below(10), sd(r), 0, 0});
		if (r.pct(30)) p.op(0, "krt", {i, i + 4, 0});
	}
}
static void gen_C11(Plan &p, Rng &r, bool) {
	int n = (int)r.range(1, 3);
	for (int i = 0; i < n; i++) {
		if (r.pct(30)) p.op(0, "estuck", {r.pct(50) ? (i64)(r.below(2) * 255) : (i64)r.below(256)});
		if (r.pct(20)) p.op(0, "clkj", {sd(r)});
		if (r.pct(20)) p.op(0, "afrac", {sd(r), 1});
		if (r.pct(15)) eject(p, r);
		if (r.pct(12)) p.op(0, "bnop", {(i64)r.below(5), sd(r), nbits(r, 300), nbits(r, 100), r.range(1, 64)});
		switch (r.below(8)) {
		case 0: { int bits = 2 * (int)r.range(32, 64); if (r.pct(50)) forces(p, r, bits / 2); p.op(0, "kgen", {i, bits}); break; }
		case 1: case 2: { int bits = (int)r.range(16, r.pct(20) ? 140 : 72); if (r.pct(60)) forces(p, r, bits); p.op(0, "pgen", {bits, 0, -1, (i64)r.below(4), r.pct(30), 0}); break; }
		case 3: case 4: p.op(0, "pchk", {(i64)r.below(13), r.pct(30) ? (i64)r.below(5000) : sd(r), r.range(2, 128), (i64)r.below(4)}); break;
		case 5: p.op(0, "pchk", {r.pct(50) ? 0 : 12, r.pct(30) ? (i64)r.below(20) : sd(r), 8, (i64)r.below(4)}); break;
		default: { vector<i64> a{i, small_key(r), (i64)r.below(4), style(r)}; int c = (int)r.range(1, 3); for (int j = 0; j < c; j++) { a.push_back(r.pct(30) ? 11 : r.range(1, 14)); a.push_back(sd(r)); a.push_back(sd(r)); } p.op(0, "kimp", a);
			if (r.pct(25)) { p.op(0, "kalt", {i, small_key(r), (i64)r.below(4), style(r), (i64)r.below(8), r.range(1, 32), sd(r)}); }
			p.op(0, "kuse", {i, sd(r)}); }
		}
	}
}
static void gen_C12(Plan &p, Rng &r, bool thorough) {
	i64 key = thorough && r.pct(30) ? any_key(r) : r.pct(8) ? any_key(r) : small_key(r);
	p.op(0, "kimp", {0, key, 2 * (i64)r.below(2), style(r)});
	p.op(0, "kimp", {1, key, 1 + 2 * (i64)r.below(2), style(r)});
	if (r.pct(30)) p.op(0, "kimp", {2, small_key(r), (i64)r.below(4), style(r)});
	int n = (int)r.range(2, 7);
	for (int i = 0; i < n; i++) {
		i64 s = (i64)r.below(3), mk = (i64)r.below(10);
		if (r.pct(15)) p.op(0, "afrac", {sd(r), r.pct(80) ? 1 : r.range(1, 20)});
		switch (r.below(8)) {
		case 0: p.op(0, "kenc", {s, mk, sd(r), (i64)r.below(16), 1}); break;
		case 1: p.op(0, "kdec", {s, mk, sd(r), (i64)r.below(16), 0}); break;
		case 2: p.op(0, "ksig", {s, mk, sd(r), (i64)r.below(16), 1}); break;
		case 3: p.op(0, "krt", {s, 3, (i64)r.below(2)}); break;
		default: p.op(0, "kver", {s, mk, sd(r), r.pct(35) ? 0 : (i64)r.below(16), sd(r), r.pct(6)});
		}
	}
}
static void gen_C13(Plan &p, Rng &r, bool) {
	int n = (int)r.range(1, 4);
	for (int i = 0; i < n; i++) {
		vector<i64> a{i, r.pct(85) ? small_key(r) : any_key(r), (i64)r.below(4), style(r)};
		int c = r.pct(25) ? 0 : r.pct(65) ? 1 : (int)r.range(2, 4);
		for (int j = 0; j < c; j++) { int k = r.pct(25) ? 8 : r.pct(25) ? 10 : r.pct(25) ? 13 : (int)r.range(1, 14); a.push_back(k); a.push_back(r.pct(30) ? (i64)r.below(40) : sd(r)); a.push_back(r.pct(30) ? (i64)r.below(256) : sd(r)); }
		p.op(0, "kimp", a);
		if (r.pct(20)) p.op(0, "kalt", {i, small_key(r), (i64)r.below(4), style(r), (i64)r.below(8), r.range(1, 32), sd(r)});
		if (c) p.op(0, "kuse", {i, sd(r)});
		else if (r.pct(50)) { p.op(0, "kbits", {i}); p.op(0, "kenc", {i, (i64)r.below(10), sd(r), 0, 1}); p.op(0, "krt", {i, i + 8, (i64)r.below(2)}); }
		if (r.pct(30)) p.op(0, "kdel", {i});
	}
}
static void gen_C14(Plan &p, Rng &r, bool) {
	int n = (int)r.range(1, 2);
	for (int i = 0; i < n; i++) {
		p.op(0, "kimp", {i, r.pct(70) ? small_key(r) : any_key(r), (i64)r.below(4), style(r)});
		if (r.pct(4)) p.op(0, "kgen", {i, 2 * r.range(32, 60)});
		if (r.pct(4)) p.op(0, "kalt", {i, small_key(r), 1 + 2 * (i64)r.below(2), style(r), 0, 33, sd(r)});
		if (r.pct(20)) p.op(0, "kalt", {i, small_key(r), (i64)r.below(4), style(r), (i64)r.below(8), r.pct(40) ? r.range(27, 28) : r.pct(30) ? 39 : r.range(1, 32), sd(r)});
		int m = (int)r.range(2, 6);
		for (int j = 0; j < m; j++) {
			if (r.pct(25)) p.op(0, "afrac", {sd(r), r.pct(70) ? 1 : r.range(1, 8)});
			if (r.pct(75)) p.op(0, "kexp", {i, (i64)r.below(2), (i64)r.below(4), r.pct(50) ? (i64)r.below(4) : (i64)r.below(2000), r.pct(10)});
			else p.op(0, "krt", {i, i + 4 * (i64)r.below(2), (i64)r.below(2)});
		}
	}
}
static void gen_C15(Plan &p, Rng &r, bool thorough) {
	int n = (int)r.range(1, 4);
	for (int i = 0; i < n; i++) {
		if (r.pct(20)) p.op(0, "estuck", {r.pct(50) ? (i64)(r.below(2) * 255) : (i64)r.below(256)});
		if (r.pct(15)) p.op(0, "afrac", {sd(r), 1});
		if (r.pct(15)) eject(p, r);
		if (r.pct(15)) p.op(0, "clkj", {sd(r)});
		int k = (int)r.below(10);
		int bits = r.pct(thorough ? 30 : 10) ? (int)r.range(64, 512) : (int)r.range(8, 130);
		if (k < 6) { i64 kd = (i64)r.below(13); p.op(0, "pchk", {kd, r.pct(40) ? (i64)r.below(60000) : sd(r), bits, (i64)r.below(4)}); if (r.pct(30)) p.op(0, "pchk", {0, (i64)r.below(300), 8, 0}); }
		else {
			int pb = (int)r.range(16, thorough ? 128 : 80);
			if (r.pct(20)) pb = (int)r.range(2, 20);
			if (r.pct(50)) forces(p, r, pb);
			if (r.pct(20)) { p.op(0, "rnew", {3, (i64)r.below(4), 1, sd(r), 12}); }
			p.op(0, "pgen", {pb, r.pct(35) ? r.range(1, 6) : 0, r.pct(30) ? 3 : -1, (i64)r.below(4), r.pct(25), r.pct(20)});
		}
	}
}
static void gen_C16(Plan &p, Rng &r, bool) {
	int n = (int)r.range(1, 4);
	for (int i = 0; i < n; i++) {
		env(p, r, 0, 20);
		switch (r.below(6)) {
		case 0: case 1: { int a = ralg(r); p.op(0, "cnew", {i, a, (i64)r.below(4), sd(r), klen(r, a), 0}); if (r.pct(50)) p.op(0, "civ", {i, sd(r)}); if (r.pct(75)) { message_ops(p, r, 0, i, a, (int)r.range(1, 4)); } if (r.pct(20)) p.op(0, "cini", {i, sd(r), (i64)r.below(4), sd(r), klen(r, a)}); p.op(0, "cdel", {i}); break; }
		case 2: p.op(0, "dnew", {i, rdig(r), 0}); if (r.pct(85)) digest_ops(p, r, 0, i, (int)r.range(1, 4), false); if (r.pct(40)) p.op(0, "dfin", {i, 0}); p.op(0, "ddel", {i}); break;
		case 3: p.op(0, "rnew", {i, (i64)r.below(4), r.pct(50), sd(r), r.range(1, 90)}); if (r.pct(80)) p.op(0, "rget", {i, r.range(1, 200), 0}); p.op(0, "rdel", {i}); break;
		case 4: if (r.pct(80)) { p.op(0, "kimp", {i, any_key(r), 2 * (i64)r.below(2), style(r)}); } else p.op(0, "kgen", {i, 2 * r.range(64, 100)});
			if (r.pct(60)) p.op(0, r.pct(50) ? "kdec" : "ksig", {i, 9, sd(r), 0, 0});
			if (r.pct(25)) p.op(0, "kvfy", {i});
			if (r.pct(25)) p.op(0, "kexp", {i, 0, 1, 0, 0});
			p.op(0, "kdel", {i}); break;
		default: { // import that fails half way: out of memory or damaged in the later fields
			vector<i64> a{i, any_key(r), 2 * (i64)r.below(2), style(r)};
			if (r.pct(50)) { p.ops.push_back(Op{0, "kimp", a}); p.op(0, "kdel", {i}); p.op(0, "afrac", {sd(r), 1}); }
			else { int c = (int)r.range(1, 2); for (int j = 0; j < c; j++) { a.push_back(r.pct(60) ? 8 : r.range(1, 6)); a.push_back(sd(r)); a.push_back(sd(r)); } }
			p.ops.push_back(Op{0, "kimp", a}); p.op(0, "kdel", {i}); }
		}
	}
	if (r.pct(4)) { p.op(0, "kgen", {15, 2 * r.range(128, 160), r.range(1, 30)}); p.op(0, "kdel", {15}); }
	if (r.pct(15)) { p.op(0, "afail", {r.range(1, 3), 1}); int a = ralg(r); p.op(0, r.pct(50) ? "rnew" : "cnew", {20, a & 3, 1, sd(r), 16}); p.op(0, "rdel", {20}); p.op(0, "cdel", {20}); }
}
static void gen_C17(Plan &p, Rng &r, bool) {
	if (r.pct(30)) {
		p.op(0, "dnew", {0, rdig(r), r.pct(40)});
		int m = (int)r.range(2, 8);
		for (int i = 0; i < m; i++) {
			p.op(0, "dupd", {(i64)r.below(2), dsize(r), sd(r), 0});
			if (r.pct(40)) { p.op(0, "dcopy", {(i64)r.below(2), (i64)r.below(2)}); if (r.pct(40)) p.op(0, r.pct(50) ? "ddel" : "dini", {(i64)r.below(2), sd(r)}); }
			if (r.pct(25)) p.op(0, "dfin", {(i64)r.below(2), 0});
		}
		p.op(0, "dfin", {0, 0}); p.op(0, "dfin", {1, 0});
		return;
	}
	int alg = ralg(r), bs = cipher_block(alg);
	cnew(p, r, 0, 0, alg); p.op(0, "civ", {0, sd(r)});
	int dir = (int)r.below(2), m = (int)r.range(2, 7);
	for (int i = 0; i < m; i++) {
		int k = (int)r.range(0, 3);
		for (int j = 0; j < k; j++) p.op(0, "cupd", {(i64)r.below(2), dir, r.pct(70) ? bs * r.range(0, 9) : rsize(r, bs), sd(r), off(r), (i64)r.below(2)});
		p.op(0, "cck", {(i64)r.below(2), (i64)r.below(2)});
		env(p, r, 0, 25);
		if (r.pct(30)) p.op(0, "cupd", {0, dir, rsize(r, bs), sd(r), 0, 0});
		if (r.pct(25)) p.op(0, "cdel", {0});
		p.op(0, "cres", {(i64)r.below(2), (i64)r.below(2), r.pct(40)});
		p.op(0, "ctwin", {0, 1, dir, rsize(r, bs), sd(r), r.pct(25), (i64)r.below(3)});
		if (r.pct(30)) p.op(0, "cgiv", {(i64)r.below(2), 0});
		if (r.pct(15)) dir ^= 1;
	}
	p.op(0, "cfin", {0, dir, rsize(r, bs), sd(r), 0, (i64)r.below(3)});
	p.op(0, "cfin", {1, dir, rsize(r, bs), sd(r), 0, (i64)r.below(3)});
}
static void gen_C18(Plan &p, Rng &r, bool thorough) {
	static const i64 HOW[21] = {15, 16, 17, 18, 21, 21, 22, 23, 24, 25, 29, 29, 30, 31, 32, 34, 34, 35, 36, 37, 38};    // all but one relation still hold
	int n = (int)r.range(1, 3);
	for (int i = 0; i < n; i++) {
		i64 key = r.pct(thorough ? 20 : 6) ? any_key(r) : small_key(r);
		if (r.pct(35)) p.op(0, "kimp", {i, key, (i64)r.below(4), style(r)});
		else p.op(0, "kalt", {i, key, r.pct(90) ? 2 * (i64)r.below(2) : (i64)r.below(4), style(r), (i64)r.below(8), r.pct(45) ? HOW[r.below(21)] : r.pct(80) ? r.range(1, 32) : r.range(34, 39), sd(r)});
		if (r.pct(20)) p.op(0, "estuck", {r.pct(50) ? (i64)(r.below(2) * 255) : (i64)r.below(256)});
		if (r.pct(30)) { p.op(0, "kvfy", {i}); p.op(0, "afrac", {sd(r), 1}); }
		else if (r.pct(15)) eject(p, r);
		p.op(0, "kvfy", {i});
		if (r.pct(20)) p.op(0, "kvfy", {i});
	}
}
static void gen_C19(Plan &p, Rng &r, bool) {
	if (r.pct(25)) {
		p.op(0, "dnew", {0, rdig(r), r.pct(40)});
		int m = (int)r.range(2, 6);
		for (int i = 0; i < m; i++) { digest_ops(p, r, 0, 0, (int)r.range(0, 3), false); if (r.pct(40)) p.op(0, "dfin", {0, 0}); env(p, r, 0, 10); p.op(0, "dini", {0, sd(r)}); if (r.pct(60)) { digest_ops(p, r, 0, 0, (int)r.range(0, 2), false); p.op(0, "dfin", {0, 0}); if (r.pct(60)) p.op(0, "dini", {0, sd(r)}); } }
		p.op(0, "dupd", {0, dsize(r), sd(r), 0}); p.op(0, "dfin", {0, 0});
		return;
	}
	int alg = ralg(r), bs = cipher_block(alg);
	cnew(p, r, 0, 0, alg);
	int m = (int)r.range(2, 8);
	for (int i = 0; i < m; i++) {
		int k = (int)r.range(0, 3);
		for (int j = 0; j < k; j++) p.op(0, "cupd", {0, (i64)r.below(2), rsize(r, bs), sd(r), off(r), 0});
		switch (r.below(4)) {
		case 0: if (r.pct(85)) { p.op(0, "civ", {0, sd(r)}); break; } // fall through
		case 1: env(p, r, 0, 20); p.op(0, "cini", {0, sd(r), (i64)r.below(4), sd(r), klen(r, alg)}); if (r.pct(60)) p.op(0, "civ", {0, sd(r)}); break;
		default: p.op(0, "cfin", {0, (i64)r.below(2), rsize(r, bs), sd(r), off(r), (i64)r.below(3)});
		}
		if (r.pct(30)) p.op(0, "cgiv", {0, 0});
		if (r.pct(70)) message_ops(p, r, 0, 0, alg, (int)r.range(1, 2));
	}
}

typedef void (*GenFn)(Plan &, Rng &, bool);
static const struct { const char *id; GenFn gen; } PROPS[] = {
	{"C01", gen_C01}, {"C02", gen_C02}, {"C03", gen_C03}, {"C04", gen_C04}, {"C05", gen_C05}, {"C06", gen_C06}, {"C07", gen_C07}, {"C08", gen_C08}, {"C09", gen_C09}, {"C10", gen_C10},
	{"C11", gen_C11}, {"C12", gen_C12}, {"C13", gen_C13}, {"C14", gen_C14}, {"C15", gen_C15}, {"C16", gen_C16}, {"C17", gen_C17}, {"C18", gen_C18}, {"C19", gen_C19},
};
vector<string> prop_list() { vector<string> v; for (auto &x : PROPS) v.push_back(x.id); return v; }
void gen_plan(const string &prop, u64 seed, u64 index, bool thorough, Plan &p) {
	p = Plan();
	p.prop = prop; p.seed = seed; p.variant = SIM_VARIANT;
	g_index = index;
	Rng r(mix(seed, 0x6e));
	common(p, r);
	for (auto &x : PROPS) if (prop == x.id) { x.gen(p, r, thorough); return; }
	fprintf(stderr, "unknown property %s\n", prop.c_str()); exit(2);
}

// ================================================================ runners
static void merge_counts(std::map<string, u64> &into, const std::map<string, u64> &from) {
	for (auto &kv : from) { if (!kv.first.compare(0, 4, "max.")) { if (kv.second > into[kv.first]) into[kv.first] = kv.second; } else into[kv.first] += kv.second; }
}
// a complete nested execution in a fresh process image
static void sub_run(const Plan &p, const std::function<void()> &setup, const std::function<void()> &body, int lane = 0) {
	Sim *outer = g;
	sim_begin(p, outer->trace);
	if (setup) setup();
	sched_run({body}, {lane});
	merge_counts(outer->cnt, g->cnt);
	outer->hash = mix(outer->hash, g->hash);
	outer->events += g->events;
	outer->steps += g->steps;
	outer->nontrivial |= g->nontrivial;
	sim_end();
	g = outer;
}
static vector<Op> task_ops(const Plan &p, int t) { vector<Op> v; for (auto &o : p.ops) if (o.task == t) v.push_back(o); return v; }
static u64 g_rhash;

static void run_std(const Plan &p) {
	vector<Op> ops = task_ops(p, 0);
	size_t pieces = 0;
	for (auto &o : ops) if (o.kind == "cupd" || o.kind == "dupd" || o.kind == "cfin" || o.kind == "crecv" || o.kind == "dbig") pieces++;
	if (pieces >= 2) g->nontrivial = true;
	sched_run({[&] {
		World w;
		w.limit = (u64)p.c("limit");
		for (auto &o : ops) w.exec(o);
		if (p.prop == "C10") {
			for (auto &a : w.k) for (auto &b : w.k) if (a.first < 2 && b.first < 2 && a.first < b.first && a.second.known && b.second.known && a.second.ref.priv && b.second.ref.priv && !g->cnt.count("fault.rng_repeat") && !g->cnt.count("fault.rng_chosen") && !g->cnt.count("fault.rng_zero") && !g->cnt.count("fault.rng_ones")) {
				const RefKey &x = a.second.ref, &y = b.second.ref;
				if (x.n.bits() >= 90 && y.n.bits() >= 90 && (x.p == y.p || x.p == y.q || x.q == y.p || x.q == y.q)) violation("C10:kgen:shared", "two generated keys share a prime");
			}
		}
		w.cleanup();
		g_rhash = w.rhash;
	}});
}
static void run_C04(const Plan &p) {
	int nt = 0;
	for (auto &o : p.ops) nt = std::max(nt, o.task + 1);
	if (!nt) return;
	nt = std::min(nt, 8);
	vector<vector<Op>> ops(nt);
	for (int t = 0; t < nt; t++) ops[t] = task_ops(p, t);
	vector<vector<string>> log(nt), solo(nt);
	auto body = [&](int t, vector<string> *out) {
		World w; w.task = t; w.keep = true;
		for (auto &o : ops[t]) w.exec(o);
		w.cleanup();
		*out = w.log;
	};
	vector<std::function<void()>> bodies; vector<int> lanes;
	for (int t = 0; t < nt; t++) { bodies.push_back([&, t] { body(t, &log[t]); }); lanes.push_back(t); }
	sched_run(bodies, lanes);
	for (int t = 0; t < nt; t++) sub_run(p, nullptr, [&, t] { body(t, &solo[t]); }, t);
	for (int t = 0; t < nt; t++) {
		size_t n = std::min(log[t].size(), solo[t].size()), i = 0;
		while (i < n && log[t][i] == solo[t][i]) i++;
		if (i < n || log[t].size() != solo[t].size())
			violation("C04:interference", "thread %d: result %zu is '%s' when interleaved with %d other thread(s) and '%s' when it runs alone", t, i, i < log[t].size() ? log[t][i].c_str() : "(none)", nt - 1, i < solo[t].size() ? solo[t][i].c_str() : "(none)");
	}
}
static void run_C05(const Plan &p) {
	vector<Op> ops = task_ops(p, 0);
	vector<string> base;
	Rng r(mix(p.seed, 0xc5));
	static const int masks[] = {7, 0, 1, 2, 4, 6, 5, 3};
	for (int k = 0; k < 4; k++) {
		int m = k < 2 ? masks[k] : k == 2 ? masks[2 + r.below(6)] : -1;
		u64 ms = r.next();
		vector<string> log; u64 rh = 0;
		sub_run(p, [&] { g->cpu_allow = m < 0 ? 7 : m; g->junk = mix64(ms); }, [&] {
			World w; w.keep = true; w.model = false;
			Rng q(ms);
			for (auto &o : ops) { if (m < 0) g->cpu_allow = (int)q.below(8); w.exec(o); }
			w.cleanup();
			log = w.log; rh = w.rhash;
		});
		if (k == 0) { base = log; g_rhash = rh; g->nontrivial = true; continue; }
		size_t n = std::min(log.size(), base.size()), i = 0;
		while (i < n && log[i] == base[i]) i++;
		if (i < n || log.size() != base.size())
			violation("C05:paths", "result %zu is '%s' with all accelerations and '%s' with processor features %s", i, i < base.size() ? base[i].c_str() : "(none)", i < log.size() ? log[i].c_str() : "(none)", m < 0 ? "changing per object" : strf("0x%x", m).c_str());
	}
}
static bool owns_nothing(const string &k) {
	static const std::set<string> s{"kenc", "kdec", "ksig", "kver", "kvfy", "kexp", "pchk", "pgen", "bnrnd", "bnop", "kuse", "kbits", "cupd", "cfin", "dupd", "dfin", "rget", "rint", "rends", "rlong", "rdbl", "civ", "cgiv"};
	return s.count(k) > 0;
}
static void run_C07(const Plan &p) {
	vector<Op> ops = task_ops(p, 0);
	sched_run({[&] {
		World w;
		for (auto &o : ops) {
			size_t b0 = g->live.size(), f0 = g->ent.open.size(); u64 m0 = g->live_bytes;
			// a creation into an occupied slot destroys the old object first
			bool fresh = (o.kind == "kimp" || o.kind == "kgen" || o.kind == "kalt") ? !w.k.count((int)o.arg(0)) : o.kind == "rnew" ? !w.r.count((int)o.arg(0)) : o.kind == "cnew" ? !w.c.count((int)o.arg(0)) : o.kind == "dnew" ? !w.d.count((int)o.arg(0)) : false;
			w.exec(o);
			bool made = (o.kind == "kimp" || o.kind == "kgen" || o.kind == "kalt") ? w.k.count((int)o.arg(0)) : o.kind == "rnew" ? w.r.count((int)o.arg(0)) : o.kind == "cnew" ? w.c.count((int)o.arg(0)) : o.kind == "dnew" ? w.d.count((int)o.arg(0)) : false;
			if (g->ent.open.size() != f0) violation("C07:" + o.kind + ":fd", "%s left %zd descriptor(s) open", o.kind.c_str(), (ssize_t)(g->ent.open.size() - f0));
			if ((owns_nothing(o.kind) || (fresh && !made)) && (g->live.size() != b0 || g->live_bytes != m0))
				violation("C07:" + o.kind + ":leak", "%s left %zd block(s) and %lld bytes behind", o.kind.c_str(), (ssize_t)(g->live.size() - b0), (long long)(g->live_bytes - m0));
		}
		w.cleanup();
		if (!g->live.empty()) violation("C07:end:leak", "%zu block(s) still allocated after every object was destroyed (first of %zu bytes)", g->live.size(), g->live.begin()->second.size);
		if (!g->ent.open.empty()) violation("C07:end:fd", "descriptors still open at the end");
		g_rhash = w.rhash;
	}});
}
static void run_C08(const Plan &p) {
	vector<Op> ops = task_ops(p, 0);
	size_t m = 0; u64 ms = 0;
	for (size_t i = 0; i < ops.size(); i++) if (ops[i].kind == "mark") { m = i + 1; ms = (u64)ops[i].arg(0); break; }
	auto once = [&](i64 flip, int bit, u64 &p0, u64 &p1, bool &ok) {
		vector<string> log;
		sub_run(p, [&] { g->clk_frozen = true; if (flip >= 0) g->ent.xors[(u64)flip] = (u8)(1 << bit); }, [&] {
			World w;
			vector<Op> use(ops.begin(), ops.end());
			for (size_t i = 0; i < use.size(); i++) {
				if (use[i].kind == "mark") continue;
				bool mine = m && i == m;
				if (mine) { p0 = g->ent.pos; w.keep = true; w.log.clear(); ok = false; }
				w.exec(use[i]);
				if (mine) {
					p1 = g->ent.pos; ok = w.ok;
					if (ok && use[i].kind == "rnew") { w.exec(Op{0, "rget", {use[i].arg(0), 64, 0}}); }
					log = w.log; w.keep = false;
				}
			}
			// automatic generators in one process must all differ
			for (auto &a : w.r) for (auto &b : w.r) if (a.first < b.first && !a.second.seeded && !b.second.seeded && a.second.out.size() >= 16 && b.second.out.size() >= 16 && std::equal(a.second.out.begin(), a.second.out.begin() + 16, b.second.out.begin()))
				violation("C08:rnew:repeat", "two automatically seeded generators deliver the same bytes");
			w.cleanup();
		});
		return log;
	};
	u64 p0 = 0, p1 = 0; bool ok = false;
	vector<string> base = once(-1, 0, p0, p1, ok);
	if (!m || m >= ops.size()) return;
	const string &kind = ops[m].kind;
	if (!ok) { count("seed.refused"); return; }
	count("seed.succeeded");
	if (p1 - p0 < 32) violation("C08:" + kind + ":short", "%s succeeded after obtaining only %llu bytes of entropy from the operating system", kind.c_str(), (unsigned long long)(p1 - p0));
	Rng r(ms);
	int good = 0; u64 tested = 0, span = p1 - p0;
	vector<u64> order;
	for (u64 i = 0; i < span && i < 4096; i++) order.push_back(p0 + i);
	u64 dead = 0;
	for (size_t i = 0; i < order.size() && good < 32 && tested < 400; i++) {
		u64 a, b; bool k2;
		vector<string> l = once((i64)order[i], (int)r.below(8), a, b, k2);
		tested++;
		if (l != base) good++; else if (!dead) dead = order[i] - p0 + 1;
	}
	count("seed.bits_flipped", tested);
	if (good < 32) violation("C08:" + kind + ":influence", "the result of %s depends on only %d of the %llu entropy bytes it read (byte %llu has no effect)", kind.c_str(), good, (unsigned long long)span, (unsigned long long)dead);
}
static bool is_r(const Op &o) { return (o.kind == "rnew" || o.kind == "rget" || o.kind == "rint" || o.kind == "rdbl" || o.kind == "rspan" || o.kind == "rends" || o.kind == "rlong") && o.arg(0) < 4; }
static bool is_rn(const Op &o) { return (o.kind == "bnrnd" || o.kind == "pgen") && o.arg(2, -1) >= 0 && o.arg(2, -1) < 4; }
static void run_C09(const Plan &p) {
	vector<Op> ops = task_ops(p, 0);
	struct Rec { size_t idx; vector<string> log; Bytes out; };
	vector<Rec> A, B;
	struct Sl { int alg; Bytes seed; vector<std::pair<Bytes, int>> seg; bool lost = false; };
	std::map<int, Sl> slots;
	auto play = [&](bool noisy, vector<Rec> &rec) {
		World w; w.keep = true;
		for (size_t i = 0; i < ops.size(); i++) {
			const Op &o = ops[i];
			bool mine = is_r(o) || is_rn(o);
			if (!noisy && !mine) continue;
			w.log.clear();
			size_t before = o.kind == "rget" && w.r.count((int)o.arg(0)) ? w.r[(int)o.arg(0)].out.size() : 0;
			if (mine && !noisy) {}
			w.exec(o);
			if (!mine) continue;
			Rec q; q.idx = i; q.log = w.log;
			if (noisy && is_r(o) && w.r.count((int)o.arg(0))) {
				RSlot &s = w.r[(int)o.arg(0)];
				Sl &t = slots[(int)o.arg(0)];
				if (o.kind == "rnew") { t = Sl(); t.alg = s.alg; t.seed = s.seed; if (!s.seeded) t.lost = true; }
				else if (o.kind == "rget") t.seg.push_back({Bytes(s.out.begin() + before, s.out.end()), 0});
				else if (o.kind == "rends" || o.kind == "rlong") t.lost = true;    // more draws than are worth following
				else t.seg.push_back({Bytes(), o.kind == "rspan" ? (int)gclamp(o.arg(3), 0, 2000) : 1});
			}
			if (noisy && is_rn(o)) slots[(int)o.arg(2)].lost = true;
			rec.push_back(q);
		}
		w.cleanup();
		if (noisy) g_rhash = w.rhash;
	};
	sub_run(p, nullptr, [&] { play(true, A); });
	sub_run(p, [&] { g->junk = mix64(p.seed ^ 0x999); g->clk_base = p.seed % 977777777777ull; g->cpu_allow = 0; g->ent.data_seed ^= 0x5555; }, [&] { play(false, B); });
	size_t n = std::min(A.size(), B.size());
	for (size_t i = 0; i < n; i++) if (A[i].log != B[i].log) {
		string a = A[i].log.empty() ? "(none)" : A[i].log.back(), b = B[i].log.empty() ? "(none)" : B[i].log.back();
		violation("C09:" + ops[A[i].idx].kind + ":env", "the same draw (operation %zu) gives '%s' in one environment and '%s' in another", A[i].idx, a.c_str(), b.c_str());
	}
	static const RaRandomAlgorithm AL[4] = {RA_RAND_SHA160, RA_RAND_SHA256, RA_RAND_SHA512, RA_RAND_MD5};
	for (auto &kv : slots) {
		Sl &t = kv.second;
		if (t.lost || t.seed.empty()) continue;
		size_t total = 1024;
		for (auto &s : t.seg) total += s.first.size() + (size_t)s.second * 16;
		Bytes lin; vector<Bytes> alt;
		auto stream = [&](int alg, const Bytes &seed, size_t k) {
			Buf b(seed), out(k); struct RaRandom *ctx = nullptr; int rc;
			{ Call L("random create"); rc = RaRandomCreate(AL[alg], b.p, (int)seed.size(), &ctx); }
			if (rc) violation("C09:rnew:refused", "create failed");
			{ Call L("random bytes"); RaRandomBytes(ctx, (int)k, out.p); }
			{ LibCall L("random destroy"); RaRandomDestroy(ctx); }
			return out.bytes(k);
		};
		vector<std::pair<int, Bytes>> others;
		{ Bytes s = t.seed; size_t bit = (size_t)(mix64(p.seed) % (s.size() * 8)); s[bit / 8] ^= (u8)(1 << (bit & 7)); others.push_back({t.alg, s}); }
		{ Bytes s = t.seed; s.back() ^= 1; others.push_back({t.alg, s}); }
		{ Bytes s = t.seed; s.push_back(0); others.push_back({t.alg, s}); }
		if (t.seed.size() > 1) { Bytes s = t.seed; s.pop_back(); others.push_back({t.alg, s}); }
		others.push_back({(t.alg + 1) & 3, t.seed}); others.push_back({(t.alg + 2) & 3, t.seed});
		sub_run(p, [&] { g->junk = 7; }, [&] {
			lin = stream(t.alg, t.seed, total);
			for (auto &o : others) alt.push_back(stream(o.first, o.second, 16));
		});
		for (size_t i = 0; i < alt.size(); i++) if (std::equal(alt[i].begin(), alt[i].end(), lin.begin())) violation("C09:rnew:same", "%s give the same stream", i >= alt.size() - 2 ? "two algorithms with one seed" : "two different seeds");
		std::set<Bytes> seen;
		for (size_t i = 0; i + 16 <= lin.size() && i < 40000; i += 4) if (!seen.insert(Bytes(lin.begin() + i, lin.begin() + i + 16)).second) violation("C09:rget:repeat", "16 output bytes at offset %zu already appeared earlier in the stream", i);
		size_t lo = 0, hi = 0;     // where in the linear stream we can be
		for (auto &s : t.seg) {
			if (s.second) { hi += (size_t)s.second * 16; continue; }
			if (s.first.empty()) continue;
			size_t at = lo; bool hit = false;
			for (; at <= hi && at + s.first.size() <= lin.size(); at++) if (std::equal(s.first.begin(), s.first.end(), lin.begin() + at)) { hit = true; break; }
			if (!hit) violation("C09:rget:split", "%zu bytes drawn at position %zu are not the ones a single large request delivers", s.first.size(), lo);
			if (lo == hi || s.first.size() >= 8) lo = hi = at + s.first.size(); else { lo += s.first.size(); hi += s.first.size(); }
		}
	}
}
// ---- C16
struct Freed { size_t size; Bytes data; string op; u64 base; };
// words of a private key that give it away in released memory
static std::set<u64> key_limbs(const RefKey &key) {
	std::set<u64> limbs;
	for (const Z *z : {&key.d, &key.p, &key.q, &key.dp, &key.dq, &key.qi}) {
		Bytes be = z->be(); Bytes le(be.rbegin(), be.rend());
		for (size_t i = 0; i + 8 <= le.size(); i += 8) { u64 v; memcpy(&v, &le[i], 8); if (v >> 40) limbs.insert(v); }
	}
	// only limbs that look random and occur nowhere in the public half identify a secret
	for (auto it = limbs.begin(); it != limbs.end();) { std::set<u8> d; for (int q = 0; q < 8; q++) d.insert((u8)(*it >> (8 * q))); if (d.size() < 5) it = limbs.erase(it); else ++it; }
	for (const Z *z : {&key.n, &key.e}) {
		Bytes be = z->be(); for (int q = 0; q < 8; q++) { be.insert(be.begin(), 0); be.push_back(0); }
		for (size_t q = 0; q + 8 <= be.size(); q++) { u64 v; memcpy(&v, &be[q], 8); limbs.erase(v); limbs.erase(__builtin_bswap64(v)); }
	}
	return limbs;
}
// A generation that fails for lack of memory: the blocks that would have made up the key hold none of it when they are released.
static void run_C16_gen(const Plan &p, const Op &o) {
	int bits = gclamp(o.arg(1), 16, 4096) & ~1;
	std::set<u64> own;
	RefKey key;
	bool have = false;
	u64 total = 0;
	sub_run(p, nullptr, [&] {
		World w; w.model = false;
		struct RaRsaKeyPair *k = nullptr; int rc; u64 a0 = g->allocs;
		{ Call L("key generation", prime_limit(bits)); rc = RaRsaCreateKeyPair(bits, &k); }
		total = g->allocs - a0;
		if (rc != RA_ERR_SUCCESS || !k) return;
		for (auto &kv : g->live) if (kv.second.ordinal > a0) own.insert(kv.second.ordinal - a0);
		have = w.key_read(k, key, true);
		LibCall L("destroy key"); RaRsaDestroyKeyPair(k);
	});
	u64 back = (u64)o.arg(2);
	if (!have || !total || back > total) return;
	u64 at = total + 1 - back;
	std::set<u64> limbs = key_limbs(key);
	sub_run(p, nullptr, [&] {
		struct RaRsaKeyPair *k = nullptr; int rc; u64 a0 = g->allocs;
		g->fail_at.insert(a0 + at);
		vector<Freed> fr;
		g->on_free = [&](void *q, size_t n) { auto it = g->live.find(q); u64 od = it == g->live.end() || it->second.ordinal <= a0 ? 0 : it->second.ordinal - a0; if (od && od < at && own.count(od)) fr.push_back(Freed{n, Bytes((u8 *)q, (u8 *)q + n), "kgen", od}); };
		{ Call L("key generation", prime_limit(bits)); rc = RaRsaCreateKeyPair(bits, &k); }
		g->on_free = nullptr;
		if (rc == RA_ERR_SUCCESS) { if (k) { LibCall L("destroy key"); RaRsaDestroyKeyPair(k); } return; }
		count("freed.scanned", fr.size()); count("op.keygen_failed");
		for (auto &f : fr) for (size_t i = 0; i + 8 <= f.data.size(); i++) {
			u64 v; memcpy(&v, &f.data[i], 8);
			if (limbs.count(v) || limbs.count(__builtin_bswap64(v)))
				violation("C16:kgen:residue", "a generation failed: a released block of %zu bytes of the key still holds 8 bytes of a private key component at offset %zu", f.size, i);
		}
	});
}
static void run_C16(const Plan &p) {
	vector<Op> ops = task_ops(p, 0);
	u64 lo = ~0ull, hi = 0;
	auto play = [&](u64 secret, vector<Freed> &out, bool scan) {
		sub_run(p, [&] { g->secret = secret; g->ent.data_seed ^= secret; }, [&] {
			World w; w.model = false;
			for (auto &o : ops) {
				int slot = (int)o.arg(0);
				bool del = o.kind == "cdel" || o.kind == "ddel" || o.kind == "rdel", kdel = o.kind == "kdel";
				bool make = o.kind == "cnew" || o.kind == "dnew" || o.kind == "rnew", imp = o.kind == "kimp";
				vector<Freed> fr;
				for (auto &kv : g->live) { u64 a = (u64)kv.first; lo = std::min(lo, a); hi = std::max(hi, a + kv.second.size); }
				if (del || kdel || make || imp) g->on_free = [&](void *q, size_t n) { fr.push_back(Freed{n, Bytes((u8 *)q, (u8 *)q + n), o.kind, (u64)q}); };
				RefKey key; bool havekey = false;
				if (kdel && w.k.count(slot) && w.k[slot].known && w.k[slot].ref.priv) { key = w.k[slot].ref; havekey = true; }
				w.exec(o);
				g->on_free = nullptr;
				if (imp && !w.k.count(slot)) { key = key_of(o.arg(1)); havekey = true; }
				if (del || make) for (auto &f : fr) out.push_back(f);
				if (scan && havekey && !fr.empty()) {
					std::set<u64> limbs = key_limbs(key);
					count("freed.scanned", fr.size());
					for (auto &f : fr) for (size_t i = 0; i + 8 <= f.data.size(); i++) {
						u64 v; memcpy(&v, &f.data[i], 8);
						if (limbs.count(v) || limbs.count(__builtin_bswap64(v)))
							violation("C16:" + o.kind + ":residue", "%s: a released block of %zu bytes still holds 8 bytes of a private key component at offset %zu", kdel ? "key destroyed" : "import failed", f.size, i);
					}
				}
			}
			w.cleanup();
		});
	};
	u64 s = mix64(p.seed ^ 0xabc) >> 8;
	for (auto &o : ops) if (o.kind == "kgen" && o.arg(2) > 0) run_C16_gen(p, o);
	vector<Freed> a, a2, b;
	play(0, a, true); play(0, a2, false); play(s, b, false);
	g->nontrivial = true;
	if (a.size() != b.size() || a.size() != a2.size()) { count("freed.uncomparable"); return; }
	for (size_t i = 0; i < a.size(); i++) {
		if (a[i].size != b[i].size || a[i].size != a2[i].size) { count("freed.uncomparable"); return; }
		for (size_t j = 0; j < a[i].size; j++) if (a[i].data[j] == a2[i].data[j] && a[i].data[j] != b[i].data[j]) {
			size_t w0 = j / 8 * 8; u64 x = 0, y = 0;
			if (w0 + 8 <= a[i].size) { memcpy(&x, &a[i].data[w0], 8); memcpy(&y, &b[i].data[w0], 8); }
			if (x >= lo && x < hi && y >= lo && y < hi) continue;      // addresses, not data
			violation("C16:" + a[i].op + ":residue", "%s: a released block of %zu bytes still holds data that depends on the secrets (byte %zu)", a[i].op.c_str(), a[i].size, j);
		}
		count("freed.compared");
	}
}

void run_plan(const Plan &p, bool trace, RunResult &out, std::map<string, u64> *totals) {
	g_rhash = 0;
	sim_begin(p, trace);
	if (p.prop == "C04") run_C04(p);
	else if (p.prop == "C05") run_C05(p);
	else if (p.prop == "C07") run_C07(p);
	else if (p.prop == "C08") run_C08(p);
	else if (p.prop == "C09") run_C09(p);
	else if (p.prop == "C16") run_C16(p);
	else run_std(p);
	out.hash = g->hash; out.rhash = g_rhash; out.steps = g->steps;
	out.clk_span = g->steps * 5 + g->clk_extra % (86400000000000ull * 365);
	out.sig = p.prop == "C04" ? g->sched_sig : g->hash;
	out.nontrivial = g->nontrivial;
	for (auto &kv : g->cnt) if (!kv.first.compare(0, 6, "fault.")) out.nontrivial = true;
	if (totals) merge_counts(*totals, g->cnt);
	sim_end();
}
