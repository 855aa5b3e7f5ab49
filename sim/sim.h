// Deterministic simulator core: one PRNG seed decides everything.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
using std::string;
using std::vector;
typedef vector<u8> Bytes;

u64 mix64(u64 x);
u64 mix(u64 a, u64 b);

struct Rng {
	u64 s;
	explicit Rng(u64 x) : s(mix64(x ^ 0x9e3779b97f4a7c15ull)) {}
	u64 next();
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
	bool pct(int p) { return (int)below(100) < p; }
	template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

// Deterministic data; some seeds give degenerate patterns on purpose.
Bytes gen_bytes(u64 seed, size_t n);

// ---- plan: the explicit, replayable description of one simulated run ----
struct Op {
	int task = 0;
	string kind;
	vector<i64> a;
	i64 arg(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Fault {
	string kind;
	vector<i64> a;
	i64 arg(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan {
	string prop;
	string variant;
	u64 seed = 0;
	std::map<string, i64> cfg;
	vector<Op> ops;
	vector<Fault> faults;
	bool explicit_sw = false;
	vector<std::pair<u64, int>> sw;
	i64 c(const char *k, i64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
	void op(int task, const char *kind, vector<i64> a) { ops.push_back(Op{task, kind, std::move(a)}); }
	void fault(const char *kind, vector<i64> a) { faults.push_back(Fault{kind, std::move(a)}); }
	string text() const;
	static bool parse(const string &txt, Plan &p, string &err);
};

// ---- simulator state ----
struct Block { size_t size; u64 ordinal; int task; u64 born_op; };

struct Task {
	std::function<void()> body;
	bool done = false, started = false;
	u64 used = 0;        // library steps executed by this task
	u64 op_start = 0, op_limit = 0;
	bool in_op = false;
	int lane = 0;
	const char *op_name = "";
	u64 allocs_failed = 0, ent_failed = 0, allocs = 0;
	void *stack = nullptr;
	void *fake = nullptr;
	vector<char> tls;            // library's thread-local data while not running
	struct Ctx *ctx = nullptr;
};

typedef std::function<void(void *p, size_t n)> FreeHook;

struct Sim {
	const Plan *plan = nullptr;
	string prop;
	u64 seed = 0;
	// event log
	u64 hash = 0, events = 0;
	bool trace = false;
	// steps and schedule
	u64 steps = 0, next_event = ~0ull, next_switch = ~0ull;
	u64 slice_start = 0;
	int cur = 0;
	bool lanes = false;          // each simulated thread has its own entropy stream and clock
	vector<Task *> tasks;
	Rng sched{0};
	u64 mean_slice = 0;
	u64 hot_writes = 0, hot_rate = 4;   // race build: writes to static storage so far; how readily the scheduler acts on them
	size_t sw_idx = 0;
	vector<std::pair<u64, int>> realized_sw;
	u64 sched_sig = 0;
	// allocator
	bool armed = false;
	u64 allocs = 0;
	std::set<u64> fail_at;
	u64 fail_from = 0, fail_n = 0;
	i64 fail_pm = 0;
	Rng fail_rng{0};
	vector<u64> realized_alloc;
	u64 junk = 0;
	i64 direct = 0;              // bits: use the algorithm's own entry points for init, update, final
	u64 secret = 0;              // mixed into every secret input (C16 twins)
	std::unordered_map<void *, Block> live;
	u64 live_bytes = 0, peak_bytes = 0;
	FreeHook on_free;
	// entropy device
	struct Ent {
		vector<Fault> open_script, read_script;
		size_t oi = 0, ri = 0;
		u64 data_seed = 0;
		u64 pos = 0;               // bytes delivered so far
		std::map<u64, u8> xors;    // position -> xor
		int next_fd = 5;
		std::map<int, bool> open;  // fd -> nonblocking flag
		u64 hard_fail = 0, soft_fail = 0;
		i64 stuck = -1;            // if >=0 every byte has this value
		u64 lane_pos[16] = {0};
	} ent;
	// clock
	u64 clk_base = 0, clk_extra = 0;
	vector<i64> clk_jumps;
	size_t clk_i = 0;
	u64 clk_reads = 0;
	bool clk_frozen = false;     // time advances only by reading it
	// CPU feature seam: bit0 aes, bit1 sha1, bit2 sha256 allowed
	int cpu_allow = 7;
	int cpu_taken = 0;
	// random-bytes seam
	struct Force { u64 call; int kind; Bytes data; };
	vector<Force> forces;
	u64 rnd_calls = 0;
	vector<Bytes> rnd_log;
	bool rnd_keep = false;
	// stats of this run
	std::map<string, u64> cnt;
	bool nontrivial = false;
	u64 sig = 0;
};
extern Sim *g;

void sim_begin(const Plan &p, bool trace);
void sim_death();
void sim_end();   // frees simulator-side state of the run
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_bytes(const char *tag, const void *p, size_t n);
[[noreturn]] void violation(const string &cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
inline void count(const char *k, u64 n = 1) { g->cnt[k] += n; }
void sim_reset_entropy(u64 data_seed);
void load_faults(const Plan &p);

// run bodies as simulated threads under the seeded scheduler
void sched_run(vector<std::function<void()>> bodies, const vector<int> &lanes = {});

// RAII around every call into the library
struct LibCall {
	LibCall(const char *name, u64 limit = 0);
	~LibCall();
	u64 allocs_failed() const;   // allocation failures injected during this call (this task)
	u64 ent_failed() const;
	u64 steps() const;
	u64 a0, e0, s0;
};
void scribble_stack();
u64 default_limit();

// buffers handed to the library (exact size, sanitizer red zones in instrumented builds)
struct Buf {
	u8 *base, *p;
	size_t n, off;
	Buf(size_t n, size_t off = 0);
	Buf(const Bytes &b, size_t off = 0);
	~Buf();
	Buf(const Buf &) = delete;
	Bytes bytes(size_t k) const { return Bytes(p, p + k); }
};

extern volatile bool g_instrumented;
size_t cov_count();
void cov_dump(FILE *f);
string hexs(const Bytes &b, size_t max = 24);
string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern const char *g_viol_path;
extern "C" void lib_globals_snapshot();
extern "C" void lib_globals_restore();
