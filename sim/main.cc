// Command line of the simulator.
//   batch PROP BASE START STRIDE COUNT SECONDS OUTPREFIX THOROUGH
//   gen PROP SEED THOROUGH [INDEX]    print the plan of one seed
//   exec PLAN [trace] [realize]       run one plan file
#include "props.h"
#include "lib.h"
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + t.tv_nsec * 1e-9; }
static u64 prop_num(const string &p) { return strtoull(p.c_str() + 1, 0, 10); }
static u64 run_seed(u64 base, const string &prop, u64 index) { return mix(mix(base, prop_num(prop)), index) >> 1; }

static void dump_stats(const string &out, std::map<string, u64> &tot, u64 runs, u64 steps, u64 clk) {
	FILE *f = fopen((out + ".stats.tmp").c_str(), "w");
	if (!f) return;
	fprintf(f, "{\"runs\": %llu, \"steps\": %llu, \"sim_ns\": %llu, \"cov\": %zu, \"counts\": {", (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)clk, cov_count());
	bool first = true;
	for (auto &kv : tot) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", kv.first.c_str(), (unsigned long long)kv.second); first = false; }
	fprintf(f, "}}\n");
	fclose(f);
	rename((out + ".stats.tmp").c_str(), (out + ".stats").c_str());
	f = fopen((out + ".cov").c_str(), "w");
	if (f) { cov_dump(f); fclose(f); }
}

int main(int argc, char **argv) {
	if (argc < 2) return 2;
	g_instrumented = SIM_INSTRUMENTED;
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(sim_death);
	lib_globals_snapshot();
	string cmd = argv[1];
	if (cmd == "props") { for (auto &s : prop_list()) printf("%s\n", s.c_str()); return 0; }
	if (const char *v = getenv("SIM_DES")) ref_des_variant = atoi(v);
	if (cmd == "probe") {
		// which of the two known DES S1 tables does the tree have? 0 = published (or anything else), 1 = the listed defect
		int match[2] = {0, 0}, diff = 0;
		for (int t = 0; t < 64; t++) {
			Bytes key = gen_bytes(9000 + t, 8), in = gen_bytes(9100 + t, 64), out(64 + 8), r[2];
			std::vector<u8> ctx(cipher_fn(F_DES).ctx_size + 64);
			cipher_fn(F_DES).init(ctx.data(), C_DES, key, M_ECB);
			cipher_fn(F_DES).encf(ctx.data(), in.data(), 64, out.data(), PAD_NONE);
			out.resize(64);
			for (int v = 0; v < 2; v++) {
				ref_des_variant = v; r[v].resize(64);
				RefBlock b(C_DES, key);
				for (int i = 0; i < 64; i += 8) b.enc(&in[i], &r[v][i]);
				match[v] += r[v] == out;
			}
			diff += r[0] != r[1];
		}
		printf("DES %d %d %d %d\n", match[0] != 64 && match[1] == 64, match[0], match[1], diff);
		return 0;
	}
	if (cmd == "seed" && argc >= 5) { printf("%llu\n", (unsigned long long)run_seed(strtoull(argv[3], 0, 10), argv[2], strtoull(argv[4], 0, 10))); return 0; }
	if (cmd == "selftest") { string e = ref_selftest(); puts(e.empty() ? "ok" : e.c_str()); return e.empty() ? 0 : 1; }
	if (cmd == "gen" && argc >= 5) {
		Plan p; gen_plan(argv[2], strtoull(argv[3], 0, 10), argc > 5 ? strtoull(argv[5], 0, 10) : 0, atoi(argv[4]), p);
		fputs(p.text().c_str(), stdout);
		return 0;
	}
	if (cmd == "exec" && argc >= 3) {
		std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf();
		Plan p; string err;
		if (!f || !Plan::parse(ss.str(), p, err)) { fprintf(stderr, "bad plan: %s\n", err.c_str()); return 2; }
		bool trace = false;
		string vp;
		for (int i = 3; i < argc; i++) { if (!strcmp(argv[i], "trace")) trace = true; else vp = argv[i]; }
		if (!vp.empty()) g_viol_path = vp.c_str();
		RunResult r; std::map<string, u64> tot;
		run_plan(p, trace, r, &tot);
		printf("HASH %016llx RHASH %016llx STEPS %llu\n", (unsigned long long)r.hash, (unsigned long long)r.rhash, (unsigned long long)r.steps);
		if (trace) for (auto &kv : tot) printf("COUNT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
		return 0;
	}
	if (cmd == "batch" && argc >= 10) {
		string prop = argv[2], out = argv[8];
		u64 base = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), cnt = strtoull(argv[6], 0, 10);
		double secs = atof(argv[7]);
		bool thorough = atoi(argv[9]);
		int fd = open((out + ".status").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd < 0 || ftruncate(fd, 64)) return 3;
		volatile u64 *st = (volatile u64 *)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		static string vp; vp = out + ".viol"; g_viol_path = vp.c_str();
		FILE *runs = fopen((out + ".runs").c_str(), "w");
		if (!runs) return 3;
		std::map<string, u64> tot; u64 n = 0, steps = 0, clk = 0;
		double t0 = now();
		for (u64 k = 0; k < cnt; k++) {
			u64 index = start + k * stride, seed = run_seed(base, prop, index);
			st[0] = index; st[1] = seed; st[2] = k + 1; st[3] = 1;
			if (k && now() - t0 > secs) { st[3] = 0; break; }
			Plan p; gen_plan(prop, seed, index, thorough, p);
			RunResult r;
			run_plan(p, false, r, &tot);
			n++; steps += r.steps; clk += r.clk_span;
			fprintf(runs, "%llu %016llx %016llx %d %016llx\n", (unsigned long long)index, (unsigned long long)r.hash, (unsigned long long)r.sig, (int)r.nontrivial, (unsigned long long)r.rhash);
			if (n % 256 == 0) { fflush(runs); dump_stats(out, tot, n, steps, clk); }
		}
		st[3] = 0;
		fclose(runs);
		dump_stats(out, tot, n, steps, clk);
		return 0;
	}
	return 2;
}
