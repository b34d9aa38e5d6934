// Controlled scheduler: runs the real code of several threads as coroutines and explores every schedule of them.
//
// The code under test is compiled with -fsanitize=thread but linked without the sanitizer's runtime: this file is the runtime.
// Every memory access, atomic operation and (on request) function entry of the code under test calls a hook below, which is
// where the scheduler may switch to another thread.  An execution is the list of choices made at those points; explore()
// enumerates all of them by depth-first re-execution up to a bound on preemptions.  Every execution is also checked for data
// races (vector clocks; only atomic and volatile accesses order threads, the scheduler's own switches do not), for use of
// released memory, for deadlock and livelock.  Memory is sequentially consistent here; what a weaker order could add is what
// the race check excludes.
#pragma once
#include "vh.hpp"
#include <unordered_map>

extern "C" void sch_switch(void **save, void *to);
asm(R"(
.text
.globl sch_switch
.type sch_switch,@function
sch_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sch_switch,.-sch_switch
)");

namespace sch {

static const int MAXT = 4;
static const size_t STACK = 512 * 1024, ARENA = 24u << 20;
typedef std::array<uint32_t, MAXT> VC;

enum { ACCESS = 1, SYNC = 2, ENTRY = 4 };          // kinds of scheduling points

// ---- memory: one arena per thread plus one for what is set up before the threads start; blocks are never reused within an execution
struct Arena { uint8_t *base = nullptr; size_t used = 0; size_t hi = 0; std::vector<uint8_t> snap; size_t snapused = 0; };
inline Arena arena[MAXT + 1];                        // arena[MAXT]: setup
inline uint8_t *dead[MAXT + 1];                      // one byte per 8: 1 = not allocated (any more)
inline std::vector<uint8_t> snapdead[MAXT + 1];
inline bool in_arena(const void *p, int *which = nullptr)
{
	for (int i = 0; i <= MAXT; i++) if ((const uint8_t *)p >= arena[i].base && (const uint8_t *)p < arena[i].base + ARENA) { if (which) *which = i; return true; }
	return false;
}

struct Thread {
	void *sp = nullptr; uint8_t *stack = nullptr;
	std::function<void()> body;
	bool done = true, spin = false;
	VC vc;
	std::vector<uint64_t> ring;                     // the thread's events since it last changed anything
	std::vector<std::pair<uintptr_t, uintptr_t>> seen;   // what these events looked at: a waiting thread goes on when one of these places changes
};
inline Thread th[MAXT];
inline int nth = 0, cur = -1;
inline void *mainsp;
inline bool active = false;                         // an execution is running
inline bool quiet = false;                          // in a hook or in harness code: no points, no checks
inline int points = ACCESS | SYNC;
inline uint64_t writes, events, horizon = 400000, stalls;
inline uint64_t total_schedules, total_points;
inline int setup_thread = MAXT;                     // whose arena malloc uses outside of executions
inline const uint8_t *ro_lo = nullptr, *ro_hi = nullptr;    // nothing may be written here while an execution runs
inline bool race_check = true;

struct Point { uint8_t n, chosen, thr; bool cur_enabled; int cost; };
inline std::vector<Point> path;                     // the execution so far
inline std::vector<Point> prefix;
inline int bound = -1;
inline std::string trace;

[[noreturn]] inline void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string schedule()
{
	std::string s; int last = -1, n = 0;
	for (auto &p : path) { if (p.thr == last) n++; else { if (n) s += vh::fmt("%d*%d ", last, n); last = p.thr; n = 1; } }
	if (n) s += vh::fmt("%d*%d", last, n);
	return s;
}
[[noreturn]] inline void fail(const char *f, ...)
{
	quiet = true;
	char b[1200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
	std::string s = schedule(); if (s.size() > 300) s = s.substr(0, 300) + "...";
	vh::fail("thread %d: %s; schedule (thread*choices): %s", cur, b, s.c_str());
}

// ---- race detection
struct Byte { uint32_t gen = 0; int8_t wt = -1; bool watomic = false; uint32_t wc = 0; std::array<uint32_t, MAXT> rc{}; std::array<uint32_t, MAXT> ac{}; };   // rc: plain reads, ac: atomic accesses
struct Shadow {
	std::vector<std::pair<uintptr_t, Byte>> t; uint32_t gen = 1; size_t mask, n = 0;
	Shadow() : t(1 << 16), mask((1 << 16) - 1) {}
	Byte &at(uintptr_t a)
	{
		for (size_t p = (a * 0x9e3779b97f4a7c15ULL >> 20) & mask;; p = (p + 1) & mask) {
			auto &e = t[p];
			if (e.second.gen != gen) { if (++n > mask / 2) { grow(); return at(a); } e.first = a; e.second = Byte(); e.second.gen = gen; return e.second; }
			if (e.first == a) return e.second;
		}
	}
	void grow()
	{
		auto old = t; uint32_t g = gen; size_t m = mask * 2 + 1;
		t.assign(m + 1, {}); mask = m; n = 0;
		for (auto &e : old) if (e.second.gen == g) { Byte b = e.second; at(e.first) = b; }
	}
	void clear() { gen++; n = 0; }
};
inline Shadow shadow;
inline std::unordered_map<uintptr_t, VC> syncvc;
inline void join(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }

inline bool own_stack(const void *p) { return cur >= 0 && (const uint8_t *)p >= th[cur].stack && (const uint8_t *)p < th[cur].stack + STACK; }

inline bool enabled(int t) { return !th[t].done && !th[t].spin; }

inline void wake(int t) { th[t].spin = false; th[t].ring.clear(); th[t].seen.clear(); }
inline void deadlock_or_wake()
{
	bool any = false, blocked = false;
	for (int t = 0; t < nth; t++) { if (enabled(t)) any = true; if (!th[t].done && th[t].spin) blocked = true; }
	if (any || !blocked) return;
	if (++stalls > 40) fail("every thread waits and nobody changes anything (deadlock)");
	for (int t = 0; t < nth; t++) wake(t);
}

inline int choose()
{
	deadlock_or_wake();
	int c[MAXT], n = 0; bool ce = cur >= 0 && enabled(cur);
	if (ce) c[n++] = cur;
	for (int t = 0; t < nth; t++) if (t != cur && enabled(t)) c[n++] = t;
	if (!n) return -1;
	if (n == 1) return c[0];
	size_t i = path.size(); int k = 0, cost = i ? path[i - 1].cost + (path[i - 1].chosen && path[i - 1].cur_enabled ? 1 : 0) : 0;
	if (i < prefix.size()) {
		if (prefix[i].n != n || prefix[i].cur_enabled != ce) { fprintf(stderr, "schedule diverged on replay\n"); fflush(stderr); _exit(77); }
		k = prefix[i].chosen;
	}
	path.push_back({(uint8_t)n, (uint8_t)k, (uint8_t)c[k], ce, cost});
	return c[k];
}
inline void go(int t)
{
	if (t == cur) return;
	int o = cur; cur = t;
	sch_switch(o < 0 ? &mainsp : &th[o].sp, t < 0 ? mainsp : th[t].sp);
}
inline void point() { total_points++; int t = choose(); go(t); quiet = true; }
inline void changed(const void *p, size_t n)
{
	writes++; stalls = 0; th[cur].ring.clear(); th[cur].seen.clear();
	for (int t = 0; t < nth; t++) if (th[t].spin) for (auto &r : th[t].seen) if ((uintptr_t)p < r.second && (uintptr_t)p + n > r.first) { wake(t); break; }
}
// an event that changed nothing: a thread that repeats the same ones waits for somebody else
inline void idle(uint64_t h, const void *p, size_t sz, bool prim = false)
{
	auto &r = th[cur].ring; r.push_back(h); th[cur].seen.push_back({(uintptr_t)p, (uintptr_t)p + sz});
	size_t n = r.size();
	for (size_t p = 1; p <= 4; p++) if (n >= (p == 1 && prim ? 2 : 3 * p)) {
		bool same = true;
		for (size_t i = n - (n >= 3 * p ? 2 * p : p); i < n && same; i++) same = r[i] == r[i - p];
		if (same) { th[cur].spin = true; r.clear(); th[cur].seen.erase(th[cur].seen.begin(), th[cur].seen.end() - p); quiet = true; int t = choose(); go(t); quiet = false; return; }
	}
	if (n > 64) { r.erase(r.begin(), r.begin() + 32); th[cur].seen.erase(th[cur].seen.begin(), th[cur].seen.begin() + 32); }
}
inline uint64_t peek(const void *p, size_t n) { uint64_t v = 0; if (n <= 8) __builtin_memcpy(&v, p, n); return v; }

inline void tick() { if (++events > horizon) fail("no end after %llu events (livelock)", (unsigned long long)horizon); }

inline void check_memory(const void *p, size_t n, bool write, bool rangecheck = true)
{
	int w;
	if (in_arena(p, &w)) {
		size_t o = (const uint8_t *)p - arena[w].base;
		if (o + n > ARENA || dead[w][o / 8] || (n && dead[w][(o + n - 1) / 8])) fail("%s of %zu bytes of memory that is not allocated (any more)", write ? "write" : "read", n);
	}
	if (write && (const uint8_t *)p < ro_hi && (const uint8_t *)p + n > ro_lo) fail("write to the shared object");
}
inline bool is_shared(const void *p)
{
	if (own_stack(p)) return false;
	int w;
	return !(in_arena(p, &w) && w == cur && nth == 1);
}
// pc is not part of the report: it is not stable
inline void race(const void *p, size_t n, bool write, bool atomic)
{
	if (!race_check) return;
	VC &vc = th[cur].vc;
	for (size_t i = 0; i < n; i++) {
		Byte &b = shadow.at((uintptr_t)p + i);
		if (b.wt >= 0 && b.wt != cur && b.wc > vc[b.wt] && !(b.watomic && atomic)) fail("data race: %s after unordered %s by thread %d", write ? "write" : "read", b.watomic ? "atomic write" : "write", b.wt);
		if (write) for (int t = 0; t < nth; t++) if (t != cur && (b.rc[t] > vc[t] || (!atomic && b.ac[t] > vc[t]))) fail("data race: write after unordered read by thread %d", t);
		if (write) { b.wt = cur; b.wc = vc[cur]; b.watomic = atomic; if (atomic) b.ac[cur] = vc[cur]; }
		else if (atomic) b.ac[cur] = vc[cur]; else b.rc[cur] = vc[cur];
	}
}
inline void plain(const void *p, size_t n, bool write)
{
	if (!active || quiet || cur < 0 || own_stack(p)) return;
	quiet = true;
	tick();
	if (points & ACCESS) point();
	check_memory(p, n, write);
	race(p, n, write, false);
	quiet = false;
	if (points & ACCESS) { if (write) changed(p, n); else idle(vh::mix(vh::mix((uintptr_t)p, n), peek(p, n)), p, n); }
	else if (write) changed(p, n);
}
// volatile accesses: the library's own primitives; they order threads like atomic loads and stores
inline void vol(const void *p, size_t n, bool write)
{
	if (!active || quiet || cur < 0 || own_stack(p)) return;
	quiet = true;
	tick();
	if (points & (ACCESS | SYNC)) point();
	check_memory(p, n, write);
	race(p, n, write, true);
	VC &s = syncvc[(uintptr_t)p];
	if (write) { join(s, th[cur].vc); th[cur].vc[cur]++; } else join(th[cur].vc, s);
	quiet = false;
	if (write) changed(p, n); else idle(vh::mix(vh::mix((uintptr_t)p, n), peek(p, n)), p, n);
}
template <class T, class F> T rmw(volatile T *p, bool load, bool store, F f)
{
	if (!active || quiet || cur < 0 || own_stack((const void *)p)) { T o = *p; T nv = f(o); if (store) *p = nv; return o; }
	quiet = true;
	tick();
	if (points & (ACCESS | SYNC)) point();
	check_memory((const void *)p, sizeof(T), store);
	T o = *p, nv = store ? f(o) : o;
	race((const void *)p, sizeof(T), store && nv != o, true);
	VC &s = syncvc[(uintptr_t)p];
	if (load) join(th[cur].vc, s);
	if (store) { *p = nv; join(s, th[cur].vc); th[cur].vc[cur]++; }
	quiet = false;
	if (store && nv != o) changed((const void *)p, sizeof(T)); else idle(vh::mix(vh::mix((uintptr_t)p, sizeof(T) + 100), (uint64_t)o), (const void *)p, sizeof(T), true);
	return o;
}
inline void entry() { if (!active || quiet || cur < 0 || !(points & ENTRY)) return; quiet = true; tick(); point(); quiet = false; }

// harness code inside a thread body: an ordinary access to shared memory of the harness
template <class T> T get(T &x) { plain(&x, sizeof x, false); return x; }
template <class T> void put(T &x, T v) { plain(&x, sizeof x, true); x = v; }

// a new operation of the thread begins: what it did before does not count as waiting
inline void op() { if (cur >= 0) { th[cur].ring.clear(); th[cur].seen.clear(); } }

// ---- running
extern "C" inline void sch_main()
{
	quiet = false;
	th[cur].body();
	quiet = true;
	th[cur].done = true; writes++; stalls = 0;
	int t = choose(); quiet = false;
	go(t);
	__builtin_trap();
}
inline void init()
{
	for (int i = 0; i <= MAXT; i++) {
		arena[i].base = (uint8_t *)mmap((void *)(0x200000000000ULL + (uint64_t)i * 0x100000000ULL), ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
		dead[i] = (uint8_t *)mmap(0, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		memset(dead[i], 1, ARENA / 8);
	}
	for (int i = 0; i < MAXT; i++) {
		uint8_t *m = (uint8_t *)mmap(0, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		mprotect(m, 4096, PROT_NONE);
		th[i].stack = m + 4096;
	}
}
inline void reset(Arena &a, int i, size_t to) { if (a.hi > to) { size_t e = (a.hi + 7) / 8; memset(dead[i] + to / 8, 1, e - to / 8); } a.used = a.hi = to; }
// forget everything allocated by earlier cases
inline void fresh() { for (int i = 0; i <= MAXT; i++) { reset(arena[i], i, 0); arena[i].snapused = 0; } setup_thread = MAXT; }
// keep the present contents of the arenas of the threads: each execution starts from them
inline void snapshot() { for (int i = 0; i <= MAXT; i++) { arena[i].snapused = arena[i].used; arena[i].snap.assign(arena[i].base, arena[i].base + arena[i].used); snapdead[i].assign(dead[i], dead[i] + (arena[i].used + 7) / 8); } }
inline void restore()
{
	for (int i = 0; i <= MAXT; i++) {
		Arena &a = arena[i];
		if (i == MAXT && ro_hi) continue;
		reset(a, i, a.snapused);
		memcpy(a.base, a.snap.data(), a.snapused); memcpy(dead[i], snapdead[i].data(), snapdead[i].size());
	}
}
inline void run_once(const std::vector<std::function<void()>> &bodies)
{
	nth = bodies.size(); cur = -1; path.clear(); writes = events = stalls = 0;
	shadow.clear(); syncvc.clear();
	for (int t = 0; t < nth; t++) {
		Thread &x = th[t];
		x.body = bodies[t]; x.done = false; x.spin = false; x.ring.clear(); x.seen.clear();
		x.vc.fill(0); x.vc[t] = 1;
		void **sp = (void **)(x.stack + STACK - 64);
		*--sp = nullptr; *--sp = (void *)sch_main;
		for (int i = 0; i < 6; i++) *--sp = nullptr;
		x.sp = sp;
	}
	active = true; quiet = true;
	int t = choose();
	go(t);
	active = false; quiet = false; cur = -1;
	total_schedules++;
}
// every schedule with at most pb preemptions (pb < 0: all).  setup and check run before and after each; returns the number of schedules.
inline uint64_t explore(int pb, const std::function<void()> &setup, const std::vector<std::function<void()>> &bodies, const std::function<void()> &check, uint64_t cap = ~0ULL)
{
	uint64_t n = 0;
	prefix.clear();
	for (;;) {
		restore();
		setup();
		run_once(bodies);
		check();
		n++;
		if (n >= cap) return n;
		size_t i = path.size(); bool found = false;
		while (i-- > 0) {
			Point &p = path[i];
			if (p.chosen + 1 < p.n && (pb < 0 || p.cost + (p.cur_enabled ? 1 : 0) <= pb)) {
				prefix.assign(path.begin(), path.begin() + i + 1);
				prefix[i].chosen++;
				found = true;
				break;
			}
		}
		if (!found) return n;
	}
}

inline void *alloc(size_t n)
{
	int i = active && cur >= 0 ? cur : setup_thread;
	Arena &a = arena[i];
	size_t need = (n + 15) / 16 * 16 + 32;            // 16 bytes of length in front, a dead gap behind
	if (a.used + need > ARENA) return nullptr;
	uint8_t *p = a.base + a.used + 16;
	*(size_t *)(p - 16) = n;
	memset(dead[i] + (a.used + 16) / 8, 0, (n + 7) / 8);
	a.used += need; if (a.used > a.hi) a.hi = a.used;
	return p;
}
inline bool release(void *p)
{
	int i;
	if (!in_arena(p, &i)) return false;
	size_t n = *(size_t *)((uint8_t *)p - 16), o = (uint8_t *)p - arena[i].base;
	if (n && dead[i][o / 8]) { if (active && cur >= 0) fail("memory released twice"); vh::fail("memory released twice"); }
	if (active && cur >= 0 && !quiet) { quiet = true; if (n) { check_memory(p, 1, false); race(p, n < 64 ? n : 64, true, false); } quiet = false; }
	memset(dead[i] + o / 8, 1, (n + 7) / 8);
	return true;
}

} // namespace sch

// ---- what the instrumented code calls
extern "C" {
// the code under test is compiled with -Dmalloc=sut_malloc and so on
void *sut_malloc(size_t n) { return sch::alloc(n); }
void sut_free(void *p) { if (p) sch::release(p); }
void *sut_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return nullptr; void *p = sch::alloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *sut_realloc(void *p, size_t n)
{
	void *q = sch::alloc(n);
	if (q && p) { size_t o = *(size_t *)((uint8_t *)p - 16); if (sch::active && sch::cur >= 0) sch::plain(p, 1, false); memcpy(q, p, o < n ? o : n); sch::release(p); }
	return q;
}
void *sut_memcpy(void *d, const void *s, size_t n) { if (n && sch::active && sch::cur >= 0) { sch::plain(s, n, false); sch::plain(d, n, true); } return memcpy(d, s, n); }
void *sut_memmove(void *d, const void *s, size_t n) { if (n && sch::active && sch::cur >= 0) { sch::plain(s, n, false); sch::plain(d, n, true); } return memmove(d, s, n); }
void *sut_memset(void *d, int c, size_t n) { if (n && sch::active && sch::cur >= 0) sch::plain(d, n, true); return memset(d, c, n); }
int sut_memcmp(const void *a, const void *b, size_t n) { if (n && sch::active && sch::cur >= 0) { sch::plain(a, n, false); sch::plain(b, n, false); } return memcmp(a, b, n); }
void __tsan_init() {}
void __tsan_func_entry(void *) { sch::entry(); }
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { sch::plain(p, 8, true); }
void __tsan_vptr_read(void **p) { sch::plain(p, 8, false); }
#define SCH_RW(n) \
	void __tsan_read##n(void *p) { sch::plain(p, n, false); } void __tsan_write##n(void *p) { sch::plain(p, n, true); } \
	void __tsan_unaligned_read##n(void *p) { sch::plain(p, n, false); } void __tsan_unaligned_write##n(void *p) { sch::plain(p, n, true); } \
	void __tsan_volatile_read##n(void *p) { sch::vol(p, n, false); } void __tsan_volatile_write##n(void *p) { sch::vol(p, n, true); }
SCH_RW(1) SCH_RW(2) SCH_RW(4) SCH_RW(8) SCH_RW(16)
void __tsan_read_range(void *p, size_t n) { sch::plain(p, n, false); }
void __tsan_write_range(void *p, size_t n) { sch::plain(p, n, true); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define SCH_AT(b, T) \
	T __tsan_atomic##b##_load(const volatile T *p, int) { return sch::rmw<T>((volatile T *)p, true, false, [](T o) { return o; }); } \
	void __tsan_atomic##b##_store(volatile T *p, T v, int) { sch::rmw<T>(p, false, true, [v](T) { return v; }); } \
	T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { return sch::rmw<T>(p, true, true, [v](T) { return v; }); } \
	T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { return sch::rmw<T>(p, true, true, [v](T o) { return (T)(o + v); }); } \
	T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { return sch::rmw<T>(p, true, true, [v](T o) { return (T)(o - v); }); } \
	T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { return sch::rmw<T>(p, true, true, [v](T o) { return (T)(o & v); }); } \
	T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { return sch::rmw<T>(p, true, true, [v](T o) { return (T)(o | v); }); } \
	T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { return sch::rmw<T>(p, true, true, [v](T o) { return (T)(o ^ v); }); } \
	T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int) { return sch::rmw<T>(p, true, true, [v](T o) { return (T)~(o & v); }); } \
	bool __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T d, int, int) { T x = *e; T o = sch::rmw<T>(p, true, true, [x, d](T o) { return o == x ? d : o; }); *e = o; return o == x; } \
	bool __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T d, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, d, a, c); } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T x, T d, int, int) { return sch::rmw<T>(p, true, true, [x, d](T o) { return o == x ? d : o; }); }
SCH_AT(8, uint8_t) SCH_AT(16, uint16_t) SCH_AT(32, uint32_t) SCH_AT(64, uint64_t)
}
