#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cassert>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/times.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <malloc.h>

Sim *g = nullptr;
const char *g_viol_path = nullptr;
volatile bool g_instrumented = false;

// ------------------------------------------------------------ small utilities
u64 mix64(u64 x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
u64 mix(u64 a, u64 b) { return mix64(a * 0x2545f4914f6cdd1dull + mix64(b)); }
u64 Rng::next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

Bytes gen_bytes(u64 seed, size_t n) {
	Bytes b(n);
	int style = (int)(mix64(seed ^ 0x51) % 24);
	Rng r(seed);
	u64 w = 0;
	for (size_t i = 0; i < n; i++) {
		if ((i & 7) == 0) w = r.next();
		b[i] = (u8)(w >> (8 * (i & 7)));
	}
	if (style == 0) memset(b.data(), 0, n);
	else if (style == 1) memset(b.data(), 0xff, n);
	else if (style == 2) memset(b.data(), (int)(seed & 0xff), n);
	else if (style == 3) for (size_t i = 0; i < n; i++) b[i] &= 0x11;
	return b;
}
string strf(const char *fmt, ...) {
	char buf[2048];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	return buf;
}
string hexs(const Bytes &b, size_t max) {
	string s; char t[4];
	for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 4, "%02x", b[i]); s += t; }
	if (b.size() > max) s += strf("..(%zu)", b.size());
	return s;
}

// ------------------------------------------------------------ plan text
string Plan::text() const {
	string s;
	s += "prop " + prop + "\nseed " + std::to_string(seed) + "\nvariant " + variant + "\n";
	for (auto &kv : cfg) s += "cfg " + kv.first + " " + std::to_string(kv.second) + "\n";
	for (auto &f : faults) { s += "fault " + f.kind; for (i64 v : f.a) s += " " + std::to_string(v); s += "\n"; }
	if (explicit_sw) s += "explicit_sw\n";
	for (auto &p : sw) s += "sw " + std::to_string(p.first) + " " + std::to_string(p.second) + "\n";
	for (auto &o : ops) { s += "op " + std::to_string(o.task) + " " + o.kind; for (i64 v : o.a) s += " " + std::to_string(v); s += "\n"; }
	return s;
}
bool Plan::parse(const string &txt, Plan &p, string &err) {
	size_t pos = 0; int ln = 0;
	while (pos < txt.size()) {
		size_t e = txt.find('\n', pos);
		if (e == string::npos) e = txt.size();
		string line = txt.substr(pos, e - pos);
		pos = e + 1; ln++;
		vector<string> t; size_t q = 0;
		while (q < line.size()) { size_t r = line.find(' ', q); if (r == string::npos) r = line.size(); if (r > q) t.push_back(line.substr(q, r - q)); q = r + 1; }
		if (t.empty() || t[0][0] == '#') continue;
		auto nums = [&](size_t from) { vector<i64> v; for (size_t i = from; i < t.size(); i++) v.push_back((i64)strtoll(t[i].c_str(), 0, 10)); return v; };
		if (t[0] == "prop" && t.size() > 1) p.prop = t[1];
		else if (t[0] == "seed" && t.size() > 1) p.seed = strtoull(t[1].c_str(), 0, 10);
		else if (t[0] == "variant") p.variant = t.size() > 1 ? t[1] : "";
		else if (t[0] == "cfg" && t.size() > 2) p.cfg[t[1]] = strtoll(t[2].c_str(), 0, 10);
		else if (t[0] == "fault" && t.size() > 1) p.faults.push_back(Fault{t[1], nums(2)});
		else if (t[0] == "explicit_sw") p.explicit_sw = true;
		else if (t[0] == "sw" && t.size() > 2) p.sw.push_back({strtoull(t[1].c_str(), 0, 10), atoi(t[2].c_str())});
		else if (t[0] == "op" && t.size() > 2) p.ops.push_back(Op{atoi(t[1].c_str()), t[2], nums(3)});
		else { err = strf("line %d: %s", ln, line.c_str()); return false; }
	}
	return true;
}

// ------------------------------------------------------------ log and violations
void ev_raw(const char *buf, size_t n) {
	u64 h = g->hash;
	for (size_t i = 0; i < n; i++) h = (h ^ (u8)buf[i]) * 0x100000001b3ull;
	g->hash = mix64(h);
	g->events++;
}
void ev(const char *fmt, ...) {
	char buf[512];
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n < 0) n = 0;
	if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
	ev_raw(buf, n);
	if (g->trace) printf("EV %llu t%d s%llu %s\n", (unsigned long long)g->events, g->cur, (unsigned long long)g->steps, buf);
}
void ev_bytes(const char *tag, const void *p, size_t n) {
	u64 h = 0xcbf29ce484222325ull;
	const u8 *q = (const u8 *)p;
	for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 0x100000001b3ull;
	ev("%s n=%zu h=%016llx", tag, n, (unsigned long long)h);
}
static string jesc(const string &s) {
	string o;
	for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += ' '; else o += c; }
	return o;
}
static void write_realized() {
	if (!g_viol_path || !g->plan || g->plan->explicit_sw || g->realized_sw.empty()) return;
	Plan p = *g->plan;
	p.explicit_sw = true;
	p.sw = g->realized_sw;
	FILE *f = fopen((string(g_viol_path) + ".plan").c_str(), "w");
	if (f) { fputs(p.text().c_str(), f); fclose(f); }
}
void sim_death() { write_realized(); }
void violation(const string &cls, const char *fmt, ...) {
	char buf[1536];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	ev("VIOLATION %s", cls.c_str());
	string js = strf("{\"seed\": %llu, \"prop\": \"%s\", \"hash\": \"%016llx\", \"cls\": \"%s\", \"msg\": \"", (unsigned long long)g->seed, g->prop.c_str(), (unsigned long long)g->hash, jesc(cls).c_str()) + jesc(buf) + "\"}\n";
	if (g_viol_path) {
		FILE *f = fopen(g_viol_path, "w");
		if (f) { fputs(js.c_str(), f); fclose(f); }
	}
	write_realized();
	printf("VIOL %s\n", js.c_str());
	fflush(stdout);
	_exit(77);
}

// ------------------------------------------------------------ coverage / step callback
static const size_t COVSZ = 1 << 22;
static u8 *g_cov = nullptr;
extern "C" char __executable_start;
static void slow_event(uintptr_t pc);
extern "C" void __sanitizer_cov_trace_pc() {
	if (__builtin_expect(!g_cov, 0)) return;
	u64 s = ++g->steps;
	uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
	g_cov[pc & (COVSZ - 1)] = 1;
	if (__builtin_expect(s >= g->next_event, 0)) slow_event(pc);
}
size_t cov_count() { size_t n = 0; for (size_t i = 0; i < COVSZ; i++) n += g_cov[i]; return n; }
void cov_dump(FILE *f) { for (size_t i = 0; i < COVSZ; i++) if (g_cov[i]) fprintf(f, "%zx\n", i); }
__attribute__((constructor)) static void cov_init() {
	g_cov = (u8 *)mmap(0, COVSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	static Sim boot; g = &boot;
}

// ------------------------------------------------------------ simulated threads
struct Ctx { ucontext_t uc; };
static ucontext_t g_main;
static void *g_main_fake;
static const void *g_main_bottom; static size_t g_main_size;
extern "C" {
void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
}
static const size_t STK = 1 << 20;
static vector<void *> g_stacks;
static bool g_in_task = false;
static vector<Ctx *> g_ctxs;
// The "race" build also reports memory accesses (gcc's thread instrumentation, with these functions in place of its run-time
// library). Accesses to the library's static storage are scheduling points of their own; after a write there -- hidden
// mutable state -- the scheduler soon prefers to let somebody else run.
extern "C" char lib_data_begin[], lib_data_end[], lib_bss_begin[], lib_bss_end[];
static inline void race_step(uintptr_t pc) {
	if (__builtin_expect(!g_cov, 0)) return;
	u64 s = ++g->steps;
	if (__builtin_expect(s >= g->next_event, 0)) slow_event(pc - (uintptr_t)&__executable_start);
}
static void set_next_event();
static __attribute__((noinline)) void race_hot(bool wr, uintptr_t pc) {
	if (!g_cov || !g_in_task || g->tasks.size() <= 1) return;
	if (wr) { g->hot_writes++; if (g->hot_writes == 1) count("static_writes"); }
	if (!g->hot_writes) return;
	if (!g->plan->explicit_sw && g->sched.below(g->hot_rate) == 0) {
		u64 at = g->steps + 1 + (wr ? g->sched.below(4) : g->sched.below(2));
		if (at < g->next_switch) { g->next_switch = at; set_next_event(); }
	}
	race_step(pc);
}
static inline void race_acc(void *p, size_t n, bool wr, uintptr_t pc) {
	char *a = (char *)p;
	if ((a < lib_data_end && a + n > lib_data_begin) || (a < lib_bss_end && a + n > lib_bss_begin)) race_hot(wr, pc);
}
#define PC (uintptr_t)__builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() { race_step(PC); }
#define ACC(n) \
	void __tsan_read##n(void *p) { race_acc(p, n, false, PC); } \
	void __tsan_write##n(void *p) { race_acc(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void *p) { race_acc(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void *p) { race_acc(p, n, true, PC); } \
	void __tsan_volatile_read##n(void *p) { race_acc(p, n, false, PC); } \
	void __tsan_volatile_write##n(void *p) { race_acc(p, n, true, PC); } \
	void __tsan_unaligned_volatile_read##n(void *p) { race_acc(p, n, false, PC); } \
	void __tsan_unaligned_volatile_write##n(void *p) { race_acc(p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { race_acc(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { race_acc(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { race_acc(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { race_acc(p, 8, false, PC); }
#define ATO(B, T) \
	T __tsan_atomic##B##_load(const volatile T *p, int) { T v = *p; race_acc((void *)p, sizeof(T), false, PC); return v; } \
	void __tsan_atomic##B##_store(volatile T *p, T v, int) { *p = v; race_acc((void *)p, sizeof(T), true, PC); } \
	T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { T o = *p; *p = v; race_acc((void *)p, sizeof(T), true, PC); return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { T o = *p; *p = (T)(o + v); race_acc((void *)p, sizeof(T), true, PC); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { T o = *p; *p = (T)(o - v); race_acc((void *)p, sizeof(T), true, PC); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { T o = *p; *p = o & v; race_acc((void *)p, sizeof(T), true, PC); return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { T o = *p; *p = o | v; race_acc((void *)p, sizeof(T), true, PC); return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { T o = *p; *p = o ^ v; race_acc((void *)p, sizeof(T), true, PC); return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { int ok = *p == *c; if (ok) *p = v; else *c = *p; race_acc((void *)p, sizeof(T), true, PC); return ok; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *c, T v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, a, b); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T c, T v, int, int) { T o = *p; if (o == c) *p = v; race_acc((void *)p, sizeof(T), true, PC); return o; }
ATO(8, u8) ATO(16, uint16_t) ATO(32, u32) ATO(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *sim_memcpy(void *d, const void *s, size_t n) { race_acc((void *)s, n, false, PC); memcpy(d, s, n); race_acc(d, n, true, PC); return d; }
void *sim_memmove(void *d, const void *s, size_t n) { race_acc((void *)s, n, false, PC); memmove(d, s, n); race_acc(d, n, true, PC); return d; }
void *sim_memset(void *d, int c, size_t n) { memset(d, c, n); race_acc(d, n, true, PC); return d; }
}
#undef PC

extern "C" char *lib_tls_begin(int), *lib_tls_end(int);
// thread-local data of the library: the distance between the markers is the size
struct Span { char *p; size_t n; };
__attribute__((no_sanitize("address"), noinline)) static void tls_spans(Span s[2]) {
	char *a = lib_tls_begin(0), *b = lib_tls_end(0), *c = lib_tls_begin(1), *d = lib_tls_end(1);
	s[0] = {a, b > a ? (size_t)(b - a) : 0}; s[1] = {c, d > c ? (size_t)(d - c) : 0};
}
__attribute__((no_sanitize("address"), noinline)) static void tls_save(vector<char> &v) {
	Span s[2]; tls_spans(s);
	v.resize(s[0].n + s[1].n);
	size_t k = 0;
	for (auto &x : s) for (size_t i = 0; i < x.n; i++) v[k++] = ((volatile char *)x.p)[i];
}
__attribute__((no_sanitize("address"), noinline)) static void tls_load(const vector<char> &v) {
	Span s[2]; tls_spans(s);
	if (v.size() != s[0].n + s[1].n) return;
	size_t k = 0;
	for (auto &x : s) for (size_t i = 0; i < x.n; i++) ((volatile char *)x.p)[i] = v[k++];
}
static vector<char> g_tls_snap;
static void set_next_event() {
	u64 n = g->next_switch;
	Task *t = g->tasks.empty() ? nullptr : g->tasks[g->cur];
	if (t && t->in_op && t->op_limit) {
		// steps at which this task reaches its limit
		u64 lim = g->slice_start + (t->op_start + t->op_limit - t->used);
		if (lim < n) n = lim;
	}
	g->next_event = n;
}
static void draw_next_switch() {
	const Plan *p = g->plan;
	if (g->tasks.size() <= 1) { g->next_switch = ~0ull; return; }
	if (p->explicit_sw) {
		while (g->sw_idx < p->sw.size() && p->sw[g->sw_idx].first <= g->steps) g->sw_idx++;
		g->next_switch = g->sw_idx < p->sw.size() ? p->sw[g->sw_idx].first : ~0ull;
		return;
	}
	u64 m = g->mean_slice ? g->mean_slice : 200;
	u64 d;
	switch (g->sched.below(4)) {
	case 0: d = 1 + g->sched.below(4); break;
	case 1: d = 1 + g->sched.below(m * 4); break;
	default: d = 1 + g->sched.below(m); break;
	}
	g->next_switch = g->steps + d;
}
static void switch_to(int to) {   // from a task
	int from = g->cur;
	if (to == from) return;
	Task *a = g->tasks[from], *b = g->tasks[to];
	a->used += g->steps - g->slice_start;
	g->slice_start = g->steps;
	tls_save(a->tls); tls_load(b->tls);
	g->cur = to;
	b->started = true;
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(a->done ? nullptr : &a->fake, b->stack, STK);
	swapcontext(&a->ctx->uc, &b->ctx->uc);
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(a->fake, nullptr, nullptr);
}
static void switch_to_main_done() {
	Task *a = g->tasks[g->cur];
	a->used += g->steps - g->slice_start;
	g->slice_start = g->steps;
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(nullptr, g_main_bottom, g_main_size);
	swapcontext(&a->ctx->uc, &g_main);
}
static void do_switch(int to, uintptr_t where) {
	g->realized_sw.push_back({g->steps, to});
	g->sched_sig = mix(g->sched_sig, where * 31 + (u64)to);
	count("preemptions");
	g->nontrivial = true;
	switch_to(to);
}
static void slow_event(uintptr_t pc) {
	Task *t = g->tasks.empty() ? nullptr : g->tasks[g->cur];
	if (t && t->in_op && t->op_limit && t->used + (g->steps - g->slice_start) >= t->op_start + t->op_limit)
		violation(g->prop + ":hang:" + t->op_name, "call %s did not finish within %llu library steps", t->op_name, (unsigned long long)t->op_limit);
	if (g->steps >= g->next_switch && g->tasks.size() > 1 && g_in_task) {
		int to = -1;
		if (g->plan->explicit_sw) {
			if (g->sw_idx < g->plan->sw.size()) to = g->plan->sw[g->sw_idx++].second;
			if (to < 0 || to >= (int)g->tasks.size() || g->tasks[to]->done) to = -1;
		} else {
			vector<int> c;
			for (size_t i = 0; i < g->tasks.size(); i++) if (!g->tasks[i]->done && (int)i != g->cur) c.push_back((int)i);
			if (!c.empty()) to = c[g->sched.below(c.size())];
		}
		draw_next_switch();
		if (to >= 0 && to != g->cur) do_switch(to, pc);
	}
	set_next_event();
}
static void task_main() {
	if (__sanitizer_finish_switch_fiber) {
		const void *b; size_t s;
		__sanitizer_finish_switch_fiber(nullptr, &b, &s);
		if (!g_main_bottom) { g_main_bottom = b; g_main_size = s; }
	}
	Task *t = g->tasks[g->cur];
	set_next_event();
	t->body();
	t->done = true;
	ev("task %d done", g->cur);
	// next alive task in cyclic order; when none, back to main
	int n = (int)g->tasks.size();
	for (int k = 1; k < n; k++) {
		int to = (g->cur + k) % n;
		if (!g->tasks[to]->done) { draw_next_switch(); switch_to(to); abort(); }
	}
	switch_to_main_done();
	abort();
}
void sched_run(vector<std::function<void()>> bodies, const vector<int> &lanes) {
	size_t n = bodies.size();
	for (auto *t : g->tasks) delete t;
	g->tasks.clear();
	while (g_stacks.size() < n) {
		char *s = (char *)mmap(0, STK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(s, 65536, PROT_NONE);
		g_stacks.push_back(s + 65536);
		g_ctxs.push_back(new Ctx);
	}
	for (size_t i = 0; i < n; i++) {
		Task *t = new Task;
		t->body = bodies[i];
		t->tls = g_tls_snap;
		t->lane = i < lanes.size() ? lanes[i] : (int)i;
		t->stack = g_stacks[i];
		t->ctx = g_ctxs[i];
		if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(t->stack, STK);
		getcontext(&t->ctx->uc);
		t->ctx->uc.uc_stack.ss_sp = t->stack;
		t->ctx->uc.uc_stack.ss_size = STK;
		t->ctx->uc.uc_link = nullptr;
		makecontext(&t->ctx->uc, task_main, 0);
		g->tasks.push_back(t);
	}
	g->cur = 0;
	g->slice_start = g->steps;
	g_main_bottom = nullptr;
	draw_next_switch();
	g->tasks[0]->started = true;
	tls_load(g->tasks[0]->tls);
	g_in_task = true;
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&g_main_fake, g->tasks[0]->stack, STK);
	swapcontext(&g_main, &g->tasks[0]->ctx->uc);
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(g_main_fake, nullptr, nullptr);
	g_in_task = false;
	g->next_switch = ~0ull;
	g->next_event = ~0ull;
}

// ------------------------------------------------------------ call guard
u64 default_limit() { return 400000000ull; }
__attribute__((noinline)) void scribble_stack() {
	volatile u64 junk[768];
	u64 x = mix64(g->junk ^ g->steps ^ 0x5c);
	for (int i = 0; i < 768; i++) junk[i] = x += 0x9e3779b97f4a7c15ull;
	(void)junk[5];
}
LibCall::LibCall(const char *name, u64 limit) {
	scribble_stack();
	Task *t = g->tasks[g->cur];
	a0 = t->allocs_failed; e0 = t->ent_failed;
	u64 now = t->used + (g->steps - g->slice_start);
	s0 = now;
	t->op_name = name; t->op_start = now; t->op_limit = limit ? limit : default_limit();
	t->in_op = true;
	set_next_event();
}
LibCall::~LibCall() {
	Task *t = g->tasks[g->cur];
	t->in_op = false;
	set_next_event();
}
u64 LibCall::allocs_failed() const { return g->tasks[g->cur]->allocs_failed - a0; }
u64 LibCall::ent_failed() const { return g->tasks[g->cur]->ent_failed - e0; }
u64 LibCall::steps() const { Task *t = g->tasks[g->cur]; return t->used + (g->steps - g->slice_start) - s0; }

// ------------------------------------------------------------ buffers
Buf::Buf(size_t n_, size_t off_) : n(n_), off(off_) {
	base = (u8 *)::malloc(n + off ? n + off : 1);
	p = base + off;
	u64 x = g->junk;
	for (size_t i = 0; i < n + off; i++) { if ((i & 7) == 0) x = mix64(x + i); base[i] = (u8)(x >> (8 * (i & 7))); }
}
Buf::Buf(const Bytes &b, size_t off_) : n(b.size()), off(off_) {
	base = (u8 *)::malloc(n + off ? n + off : 1);
	p = base + off;
	if (n) memcpy(p, b.data(), n);
}
Buf::~Buf() { ::free(base); }

// ------------------------------------------------------------ library globals
extern "C" char lib_data_begin[], lib_data_end[], lib_bss_begin[], lib_bss_end[];
static vector<char> g_data_snap, g_bss_snap;
__attribute__((no_sanitize("address"), noinline)) static void rawcopy(volatile char *d, const volatile char *s, size_t n) {
	for (size_t i = 0; i < n; i++) d[i] = s[i];
}
void lib_globals_snapshot() {
	tls_save(g_tls_snap);
	if (&lib_data_end[0] > &lib_data_begin[0]) { g_data_snap.resize(lib_data_end - lib_data_begin); rawcopy(g_data_snap.data(), lib_data_begin, g_data_snap.size()); }
	if (&lib_bss_end[0] > &lib_bss_begin[0]) { g_bss_snap.resize(lib_bss_end - lib_bss_begin); rawcopy(g_bss_snap.data(), lib_bss_begin, g_bss_snap.size()); }
}
void lib_globals_restore() {
	if (!g_data_snap.empty()) rawcopy(lib_data_begin, g_data_snap.data(), g_data_snap.size());
	if (!g_bss_snap.empty()) rawcopy(lib_bss_begin, g_bss_snap.data(), g_bss_snap.size());
}

// ------------------------------------------------------------ run lifecycle
void sim_reset_entropy(u64 data_seed) {
	g->ent = Sim::Ent();
	g->ent.data_seed = data_seed;
}
void load_faults(const Plan &p) {
	for (auto &f : p.faults) {
		if (f.kind == "alloc") g->fail_at.insert((u64)f.arg(0));
		else if (f.kind == "allocfrom") { g->fail_from = (u64)f.arg(0); g->fail_n = (u64)f.arg(1, 1); }
		else if (f.kind == "allocp") { g->fail_pm = f.arg(0); g->fail_rng = Rng(mix(p.seed, (u64)f.arg(1))); }
		else if (f.kind == "ent_open") g->ent.open_script.push_back(f);
		else if (f.kind == "ent_read") g->ent.read_script.push_back(f);
		else if (f.kind == "ent_stuck") g->ent.stuck = f.arg(0);
		else if (f.kind == "clk") g->clk_jumps.push_back(f.arg(0));
	}
}
static vector<Sim *> g_pool;
void sim_begin(const Plan &p, bool trace) {
	Sim *s = new Sim;
	s->plan = &p;
	s->prop = p.prop;
	s->seed = p.seed;
	s->trace = trace;
	s->hash = mix(p.seed, 77);
	s->sched = Rng(mix(p.seed, 0x5ced));
	s->mean_slice = (u64)p.c("slice", 200);
	s->hot_rate = (u64)1 << (p.seed & 7);
	s->junk = mix64((u64)p.c("junk", 1));
	s->clk_base = (u64)p.c("clk0", 1000000000ll);
	s->cpu_allow = (int)p.c("cpu", 7);
	s->ent.data_seed = mix(p.seed, (u64)p.c("ent", 0));
	g = s;
	load_faults(p);
	s->direct = p.c("direct");
	if (p.c("fd0")) s->ent.next_fd = 0;
	lib_globals_restore();
	if (p.c("lanes") || p.prop == "C04") s->lanes = true;
	ev("begin %s seed %llu", p.prop.c_str(), (unsigned long long)p.seed);
}
void sim_end() {
	for (auto &kv : g->live) ::free(kv.first);
	for (auto *t : g->tasks) delete t;
	g->tasks.clear();
	Sim *s = g;
	static Sim boot;
	g = &boot;
	delete s;
}

// ------------------------------------------------------------ allocator seam
static bool should_fail(size_t n) {
	(void)n;
	if (!g->armed) return false;
	u64 k = ++g->allocs;
	bool f = false;
	if (g->fail_at.count(k)) f = true;
	if (g->fail_n && k >= g->fail_from && k < g->fail_from + g->fail_n) f = true;
	if (g->fail_pm && (i64)g->fail_rng.below(1000) < g->fail_pm) f = true;
	if (f) {
		g->realized_alloc.push_back(k);
		if (!g->tasks.empty()) g->tasks[g->cur]->allocs_failed++;
		count("fault.alloc_fail");
		g->nontrivial = true;
		ev("alloc-fail #%llu", (unsigned long long)k);
	}
	return f;
}
extern "C" {
void *sim_malloc(size_t n) {
	if (!g->tasks.empty()) g->tasks[g->cur]->allocs++;
	if (should_fail(n)) { errno = ENOMEM; return nullptr; }
	if (n > ((size_t)1 << 28)) { count("fault.alloc_huge"); ev("alloc-huge"); if (!g->tasks.empty()) g->tasks[g->cur]->allocs_failed++; errno = ENOMEM; return nullptr; }
	void *p = ::malloc(n ? n : 1);
	if (!p) { fprintf(stderr, "harness out of memory\n"); _exit(3); }
	u64 x = g->junk ^ mix64(g->allocs);
	u64 *w = (u64 *)p;
	size_t i;
	int style = (int)(g->junk % 4);
	for (i = 0; i + 8 <= n; i += 8) { u64 v; if (style == 0) v = 0; else if (style == 1) v = ~0ull; else v = (x += 0x9e3779b97f4a7c15ull) * 0xbf58476d1ce4e5b9ull; w[i / 8] = v; }
	for (; i < n; i++) ((u8 *)p)[i] = style == 0 ? 0 : style == 1 ? 0xff : (u8)(x >> (8 * (i & 7)));
	g->live[p] = Block{n, g->allocs, g->cur, 0};
	g->live_bytes += n;
	if (g->live_bytes > g->peak_bytes) g->peak_bytes = g->live_bytes;
	return p;
}
void sim_free(void *p) {
	if (!p) return;
	auto it = g->live.find(p);
	if (it == g->live.end())
		violation(g->prop + ":bad-free", "free of a pointer that is not a live heap block (double or wild free)");
	if (g->on_free) g->on_free(p, it->second.size);
	g->live_bytes -= it->second.size;
	g->live.erase(it);
	::free(p);
}
void *sim_calloc(size_t a, size_t b) {
	if (a && b > SIZE_MAX / a) return nullptr;
	void *p = sim_malloc(a * b);
	if (p) memset(p, 0, a * b);
	return p;
}
void *sim_realloc(void *o, size_t n) {
	if (!o) return sim_malloc(n);
	auto it = g->live.find(o);
	if (it == g->live.end()) violation(g->prop + ":bad-free", "realloc of a pointer that is not a live heap block");
	size_t on = it->second.size;
	void *p = sim_malloc(n);
	if (!p) return nullptr;
	memcpy(p, o, on < n ? on : n);
	sim_free(o);
	return p;
}
void *sim_aligned_alloc(size_t al, size_t n) { (void)al; return sim_malloc(n); }
int sim_posix_memalign(void **pp, size_t al, size_t n) { (void)al; void *p = sim_malloc(n); if (!p) return ENOMEM; *pp = p; return 0; }
void *sim_reallocarray(void *o, size_t a, size_t b) { if (a && b > SIZE_MAX / a) return nullptr; return sim_realloc(o, a * b); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
void sim_explicit_bzero(void *p, size_t n) { volatile u8 *q = (volatile u8 *)p; while (n--) *q++ = 0; }

// ------------------------------------------------------------ entropy device seam
static int lane() { return g->lanes && !g->tasks.empty() ? g->tasks[g->cur]->lane & 15 : 0; }
static u8 ent_byte(u64 pos) {
	if (g->ent.stuck >= 0) return (u8)g->ent.stuck;
	u64 w = mix(g->ent.data_seed + (u64)lane() * 0x1000193, pos / 8 + 1);
	u8 b = (u8)(w >> (8 * (pos & 7)));
	auto it = g->ent.xors.find(pos);
	if (it != g->ent.xors.end()) b ^= it->second;
	return b;
}
// soft: an interruption or a split read, which no caller may take for a failure of the device
static void ent_fail(bool hard, const char *what) {
	if (hard) g->ent.hard_fail++; else g->ent.soft_fail++;
	if (hard && !g->tasks.empty()) g->tasks[g->cur]->ent_failed++;
	g->nontrivial = true;
	count(what);
}
static bool is_rnd_path(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
int sim_open(const char *path, int flags, ...) {
	(void)flags;
	if (!is_rnd_path(path)) { ev("open other"); errno = ENOENT; return -1; }
	if (g->ent.oi < g->ent.open_script.size()) {
		Fault &f = g->ent.open_script[g->ent.oi++];
		i64 e = f.arg(0);
		if (e != 0) {
			ev("open errno %lld", (long long)e);
			ent_fail(e != EINTR, e == EINTR ? "fault.open_eintr" : e == EMFILE ? "fault.open_emfile" : "fault.open_enoent");
			errno = (int)e;
			return -1;
		}
		if (f.a.size() > 1) g->ent.next_fd = (int)f.a[1];
	}
	int fd = g->ent.next_fd;
	while (g->ent.open.count(fd)) fd++;
	g->ent.open[fd] = true;
	if (fd == 0) { count("fault.fd_zero"); g->nontrivial = true; }
	count("dev.open");
	ev("open fd %d", fd);
	return fd;
}
static ssize_t ent_read(void *buf, size_t n) {
	size_t k = n;
	if (g->ent.ri < g->ent.read_script.size()) {
		const Fault &f = g->ent.read_script[g->ent.ri];
		i64 r = f.arg(0);
		if (!f.arg(1)) g->ent.ri++;      // otherwise the device stays like this
		if (r < 0) {
			bool hard = r != -EINTR;
			ent_fail(hard, r == -EINTR ? "fault.read_eintr" : r == -EAGAIN ? "fault.read_eagain" : "fault.read_eio");
			ev("read errno %lld", (long long)-r);
			errno = (int)-r;
			return -1;
		}
		if (r == 0) { ent_fail(true, "fault.read_eof"); ev("read eof"); return 0; }
		if ((size_t)r < n) { k = (size_t)r; ent_fail(false, "fault.read_short"); }
	}
	u8 *q = (u8 *)buf;
	u64 &pos = g->lanes ? g->ent.lane_pos[lane()] : g->ent.pos;
	for (size_t i = 0; i < k; i++) q[i] = ent_byte(pos + i);
	pos += k;
	count("dev.bytes", k);
	ev("read %zu of %zu", k, n);
	return (ssize_t)k;
}
ssize_t sim_read(int fd, void *buf, size_t n) {
	if (!g->ent.open.count(fd)) {
		violation(g->prop + ":bad-fd", "read on descriptor %d which is not open", fd);
	}
	return ent_read(buf, n);
}
int sim_open64(const char *p, int fl, ...) { return sim_open(p, fl); }
ssize_t sim_pread(int fd, void *buf, size_t n, off_t) { return sim_read(fd, buf, n); }
ssize_t sim___read_chk(int fd, void *buf, size_t n, size_t) { return sim_read(fd, buf, n); }
int sim_close(int fd) {
	auto it = g->ent.open.find(fd);
	if (it == g->ent.open.end()) violation(g->prop + ":bad-fd", "close of descriptor %d which is not open", fd);
	g->ent.open.erase(it);
	ev("close %d", fd);
	return 0;
}
int sim_openat(int, const char *p, int fl, ...) { return sim_open(p, fl); }
int sim___open_2(const char *p, int fl) { return sim_open(p, fl); }
int sim___open64_2(const char *p, int fl) { return sim_open(p, fl); }
ssize_t sim_getrandom(void *buf, size_t n, unsigned) { return ent_read(buf, n); }
int sim_getentropy(void *buf, size_t n) {
	size_t got = 0;
	while (got < n) { ssize_t r = ent_read((u8 *)buf + got, n - got); if (r <= 0) { errno = EIO; return -1; } got += r; }
	return 0;
}
long sim_syscall(long nr, ...) {
	if (nr == SYS_getrandom) { va_list ap; va_start(ap, nr); void *b = va_arg(ap, void *); size_t n = va_arg(ap, size_t); va_end(ap); return ent_read(b, n); }
	errno = ENOSYS; return -1;
}
// minimal stdio over the device
struct SimFile { int fd; bool err, eof; };
FILE *sim_fopen(const char *p, const char *) {
	int fd = sim_open(p, 0);
	if (fd < 0) return nullptr;
	return (FILE *)new SimFile{fd, false, false};
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
size_t sim_fread(void *buf, size_t sz, size_t nm, FILE *f) {
	SimFile *s = (SimFile *)f;
	size_t want = sz * nm, got = 0;
	while (got < want) { ssize_t r = sim_read(s->fd, (u8 *)buf + got, want - got); if (r < 0) { s->err = true; break; } if (r == 0) { s->eof = true; break; } got += r; }
	return sz ? got / sz : 0;
}
int sim_fgetc(FILE *f) { u8 c; return sim_fread(&c, 1, 1, f) == 1 ? c : EOF; }
int sim_getc(FILE *f) { return sim_fgetc(f); }
int sim_fclose(FILE *f) { SimFile *s = (SimFile *)f; int r = sim_close(s->fd); delete s; return r; }
int sim_ferror(FILE *f) { return ((SimFile *)f)->err; }
int sim_feof(FILE *f) { return ((SimFile *)f)->eof; }
int sim_setvbuf(FILE *, char *, int, size_t) { return 0; }
void sim_setbuf(FILE *, char *) {}
int sim_fileno(FILE *f) { return ((SimFile *)f)->fd; }
int sim_fcntl(int, int, ...) { return 0; }
int sim_fcntl64(int, int, ...) { return 0; }
int sim_poll(void *, unsigned long n, int) { return (int)n; }

// ------------------------------------------------------------ clock seam
static u64 clk_now() {
	g->clk_reads++;
	if (g->clk_i < g->clk_jumps.size()) { g->clk_extra += (u64)g->clk_jumps[g->clk_i++]; count("fault.clock_jump"); }
	if (g->clk_frozen) return g->clk_base + g->clk_extra + g->clk_reads * 1000;
	if (g->lanes && !g->tasks.empty()) { Task *t = g->tasks[g->cur]; return g->clk_base + (u64)t->lane * 7777777 + (t->used + (g->steps - g->slice_start)) * 5; }
	return g->clk_base + g->clk_extra + g->steps * 5;
}
int sim_clock_gettime(clockid_t, struct timespec *ts) {
	u64 t = clk_now();
	ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull);
	ev("clock %llu", (unsigned long long)t);
	return 0;
}
time_t sim_time(time_t *p) { time_t t = (time_t)(clk_now() / 1000000000ull); if (p) *p = t; return t; }
int sim_gettimeofday(struct timeval *tv, void *) { u64 t = clk_now(); tv->tv_sec = t / 1000000000ull; tv->tv_usec = (t % 1000000000ull) / 1000; return 0; }
clock_t sim_times(struct tms *b) { u64 t = clk_now(); if (b) memset(b, 0, sizeof *b); return (clock_t)(t / 10000000ull); }
clock_t sim_clock(void) { return (clock_t)(clk_now() / 1000); }
int sim_timespec_get(struct timespec *ts, int base) { sim_clock_gettime(0, ts); return base; }
int sim_nanosleep(const struct timespec *r, struct timespec *) { g->clk_extra += (u64)r->tv_sec * 1000000000ull + r->tv_nsec; return 0; }
int sim_usleep(unsigned us) { g->clk_extra += (u64)us * 1000; return 0; }
unsigned sim_sleep(unsigned s) { g->clk_extra += (u64)s * 1000000000ull; return 0; }
int sim_sched_yield(void) { return 0; }
pid_t sim_getpid(void) { return 4242; }
pid_t sim_getppid(void) { return 4241; }
int sim_rand(void) { return 4; }
long sim_random(void) { return 4; }
void sim_srand(unsigned) {}
void sim_srandom(unsigned) {}

// ------------------------------------------------------------ assertion / abort seam
[[noreturn]] void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
	const char *b = strrchr(file, '/');
	(void)line;
	violation(g->prop + ":abort:" + (fn ? fn : "?"), "library assertion '%s' failed in %s (%s): the process would abort", e, fn ? fn : "?", b ? b + 1 : file);
}
[[noreturn]] void sim_abort(void) { violation(g->prop + ":abort:abort", "library called abort()"); }
[[noreturn]] void sim__exit(int c) { violation(g->prop + ":abort:exit", "library called _exit(%d)", c); }
[[noreturn]] void sim_exit(int c) { violation(g->prop + ":abort:exit", "library called exit(%d)", c); }

// ------------------------------------------------------------ CPU feature seam
void RaAesCheckForInstructionSet(void *) __attribute__((weak));
void RaSha1CheckForInstructionSet(void *) __attribute__((weak));
void RaSha256CheckForInstructionSet(void *) __attribute__((weak));
void sim_RaAesCheckForInstructionSet(void *c) {
	if ((g->cpu_allow & 1) && RaAesCheckForInstructionSet) { RaAesCheckForInstructionSet(c); g->cpu_taken |= 1; count("cpu.aes_offered"); } else count("cpu.aes_hidden");
}
void sim_RaSha1CheckForInstructionSet(void *c) {
	if ((g->cpu_allow & 2) && RaSha1CheckForInstructionSet) { RaSha1CheckForInstructionSet(c); g->cpu_taken |= 2; count("cpu.sha1_offered"); } else count("cpu.sha1_hidden");
}
void sim_RaSha256CheckForInstructionSet(void *c) {
	if ((g->cpu_allow & 4) && RaSha256CheckForInstructionSet) { RaSha256CheckForInstructionSet(c); g->cpu_taken |= 4; count("cpu.sha256_offered"); } else count("cpu.sha256_hidden");
}

// ------------------------------------------------------------ random-bytes seam (number generation only)
void RaRandomBytes(void *ctx, int len, u8 *out) __attribute__((weak));
void sim_RaRandomBytes(void *ctx, int len, u8 *out) {
	RaRandomBytes(ctx, len, out);
	u64 k = ++g->rnd_calls;
	for (auto &f : g->forces) if (f.call == k) {
		if (f.kind == 0) memset(out, 0, len);
		else if (f.kind == 1) memset(out, 0xff, len);
		else if (f.kind == 2) { size_t n = f.data.size() < (size_t)len ? f.data.size() : (size_t)len; memset(out, 0, len); memcpy(out, f.data.data(), n); }
		else if (f.kind == 4 && f.data.size() == 8) { size_t j = 0; memcpy(&j, f.data.data(), 8); if (j && j <= g->rnd_log.size()) { Bytes &b = g->rnd_log[j - 1]; if (b.size() == (size_t)len) memcpy(out, b.data(), len); } }
		count(f.kind == 0 ? "fault.rng_zero" : f.kind == 1 ? "fault.rng_ones" : f.kind == 2 ? "fault.rng_chosen" : "fault.rng_repeat");
		g->nontrivial = true;
		ev("force call %llu kind %d", (unsigned long long)k, f.kind);
	}
	if (g->rnd_keep) g->rnd_log.push_back(Bytes(out, out + len));
}
}
