// L05: spin lock, atomic operations, reference counts and the locked allocation counters, under every schedule.
#include "sched.hpp"
extern "C" {
#include "rlib/rspinlock.h"
#include "rlib/ratomic.h"
#include "rlib/rref.h"
#include "rlib/rmem.h"
}
using namespace vh;
typedef std::vector<std::string> Prog;     // one text per thread, one character per operation

static std::string show(const Prog &p) { std::string s; for (auto &t : p) s += (s.empty() ? "" : " || ") + (t.empty() ? std::string("-") : t); return s; }

// ---- histories
static uint64_t clk;
struct Op { int thr; char op; uint64_t call, ret; int64_t res; bool done; };
static std::vector<Op> hist;
static size_t begin_op(int t, char c) { sch::op(); hist.push_back({t, c, ++clk, 0, 0, false}); return hist.size() - 1; }
static void end_op(size_t i, int64_t r) { hist[i].ret = ++clk; hist[i].res = r; hist[i].done = true; }

// is there an order of the operations, consistent with who finished before whom, in which the model gives every result?
template <class St> static bool linear(const St &st, std::vector<char> &used, size_t left, const std::function<bool(St &, const Op &)> &step, const std::function<bool(const St &)> &final)
{
	if (!left) return final(st);
	for (size_t i = 0; i < hist.size(); i++) {
		if (used[i]) continue;
		bool first = true;
		for (size_t j = 0; j < hist.size() && first; j++) if (!used[j] && j != i && hist[j].ret < hist[i].call) first = false;
		if (!first) continue;
		St n = st;
		if (!step(n, hist[i])) continue;
		used[i] = 1;
		if (linear<St>(n, used, left - 1, step, final)) { used[i] = 0; return true; }
		used[i] = 0;
	}
	return false;
}
static std::string showhist() { std::string s; for (auto &o : hist) s += fmt("%d:%c->%lld ", o.thr, o.op, (long long)o.res); return s; }
static void account(uint64_t n, uint64_t p0) { steps(sch::total_points - p0); traces(n); eval(n); }

// ---- spin lock: L lock, T try; l/t the same on a second lock; N lock the second inside the first
static void run_lock(const Prog &pr, int pb)
{
	struct W { rspinlock_t a, b; int x, y; } w;
	int owner[2], nlock[2]; uint64_t tries_failed = 0, p0 = sch::total_points;
	struct Span { int thr; uint64_t from, to; }; std::vector<Span> held[2];
	struct Miss { int thr; uint64_t from, to; }; std::vector<Miss> miss[2];
	auto enter = [&](int t, int k) { if (owner[k] != -1) sch::fail("lock %d is held by thread %d and by thread %d", k, owner[k], t); owner[k] = t; nlock[k]++; };
	auto leave = [&](int t, int k) { if (owner[k] != t) sch::fail("lock %d changed hands inside a critical section", k); owner[k] = -1; };
	auto cs = [&](int k) { int &v = k ? w.y : w.x; int o = sch::get(v); sch::put(v, o + 1); };
	auto lk = [&](int k) { return k ? &w.b : &w.a; };
	std::vector<std::function<void()>> bodies;
	for (size_t t = 0; t < pr.size(); t++) bodies.push_back([&, t]() {
		for (char c : pr[t]) {
			int k = islower(c) ? 1 : 0;
			sch::op();
			uint64_t t0 = ++clk;
			if (c == 'T' || c == 't') {
				rboolean r = r_spinlock_trylock(lk(k));
				if (!r) { miss[k].push_back({(int)t, t0, ++clk}); tries_failed++; continue; }
			} else r_spinlock_lock(lk(k));
			enter(t, k);
			cs(k);
			if (c == 'N') {
				sch::op();
				uint64_t u0 = ++clk;
				r_spinlock_lock(lk(1)); enter(t, 1); cs(1); leave(t, 1); r_spinlock_unlock(lk(1));
				held[1].push_back({(int)t, u0, ++clk});
				cs(k);
			}
			leave(t, k);
			r_spinlock_unlock(lk(k));
			held[k].push_back({(int)t, t0, ++clk});
		}
	});
	uint64_t h = hstr(show(pr)); std::set<uint64_t> outcomes;
	uint64_t n = sch::explore(pb, [&]() {
		w.a = w.b = 77; r_spinlock_init(&w.a); r_spinlock_init(&w.b); w.x = w.y = 0; clk = 0;
		for (int k = 0; k < 2; k++) { owner[k] = -1; nlock[k] = 0; held[k].clear(); miss[k].clear(); }
	}, bodies, [&]() {
		int n[2] = {0, 0};
		for (auto &p : pr) for (char c : p) { if (c == 'L') n[0]++; if (c == 'l') n[1]++; if (c == 'N') n[0] += 2, n[1]++; if (c == 'T') n[0]++; if (c == 't') n[1]++; }
		uint64_t o = 0;
		for (int k = 0; k < 2; k++) {
			int v = k ? w.y : w.x;
			if (v != n[k] - (int)miss[k].size()) sch::fail("lock %d: %d critical sections counted %d", k, n[k] - (int)miss[k].size(), v);
			for (auto &m : miss[k]) {
				bool ok = false;
				for (auto &s : held[k]) if (s.thr != m.thr && s.from < m.to && s.to > m.from) ok = true;
				if (!ok) sch::fail("thread %d: try-lock refused although nobody held the lock", m.thr);
			}
			if (!r_spinlock_trylock(lk(k))) sch::fail("lock %d is not free at the end", k);
			if (r_spinlock_trylock(lk(k))) sch::fail("lock %d taken twice", k);
			r_spinlock_unlock(lk(k));
			if (!r_spinlock_trylock(lk(k))) sch::fail("lock %d is not free after unlock", k);
			for (auto &m : miss[k]) o = mix(o, m.thr + 10 * k);
			for (auto &s : held[k]) o = mix(o, s.thr + 100 * k);
		}
		outcomes.insert(o);
	});
	for (auto o : outcomes) distinct(mix(h, o));
	account(n, p0);
}

// ---- atomics on one word
static const char ATOPS[] = "asx01gSbc";     // add 1, sub 1, exchange 5, cas 0->1, cas 1->0, get, set 2, add 0xffffffff, cas 5->7
static bool at_model(uint32_t &v, const Op &o)
{
	uint32_t old = v; int64_t r;
	switch (o.op) {
	case 'a': v += 1; r = old; break;
	case 's': v -= 1; r = old; break;
	case 'x': v = 5; r = old; break;
	case '0': r = old == 0; if (r) v = 1; break;
	case '1': r = old == 1; if (r) v = 0; break;
	case 'c': r = old == 5; if (r) v = 7; break;
	case 'g': r = old; break;
	case 'S': v = 2; r = 0; break;
	default: v += 0xffffffffu; r = old; break;
	}
	return r == o.res;
}
static int64_t at_do(volatile ratomic_t *p, char c)
{
	switch (c) {
	case 'a': return r_atomic_add(p, 1);
	case 's': return r_atomic_sub(p, 1);
	case 'x': return r_atomic_exchange(p, 5);
	case '0': return r_atomic_compare_and_exchange(p, 0, 1) ? 1 : 0;
	case '1': return r_atomic_compare_and_exchange(p, 1, 0) ? 1 : 0;
	case 'c': return r_atomic_compare_and_exchange(p, 5, 7) ? 1 : 0;
	case 'g': return r_atomic_get(p);
	case 'S': r_atomic_set(p, 2); return 0;
	default: return r_atomic_add(p, 0xffffffffu);
	}
}
static void run_atomic(const Prog &pr, uint32_t init, int pb)
{
	struct { uint32_t before; ratomic_t v; uint32_t after; } w;
	uint64_t p0 = sch::total_points;
	std::vector<std::function<void()>> bodies;
	for (size_t t = 0; t < pr.size(); t++) bodies.push_back([&, t]() { for (char c : pr[t]) { size_t i = begin_op(t, c); end_op(i, at_do(&w.v, c)); } });
	uint64_t h = hstr(show(pr), init); std::set<uint64_t> outcomes;
	uint64_t n = sch::explore(pb, [&]() { w.v = init; w.before = w.after = 0x55aa55aa; hist.clear(); clk = 0; }, bodies, [&]() {
		std::vector<char> used(hist.size(), 0);
		if (!linear<uint32_t>(init, used, hist.size(), at_model, [&](const uint32_t &v) { return v == w.v; })) sch::fail("from %u: no order of the operations explains %s and the final value %u", init, showhist().c_str(), w.v);
		if (w.before != 0x55aa55aa || w.after != 0x55aa55aa) sch::fail("neighbouring memory changed");
		uint64_t o = w.v; for (auto &x : hist) o = mix(o, x.res + 31 * x.thr);
		outcomes.insert(o);
	});
	for (auto o : outcomes) distinct(mix(h, o));
	account(n, p0);
}

// ---- reference counts: every thread owns one reference; I takes another one, D drops one
struct Obj { rref_t ref; int cleaned; };
static int destroyed, copies; static Obj *destroyed_obj;
static void obj_cleanup(robject_t *o)
{
	destroyed++; destroyed_obj = (Obj *)o;
	r_ref_cleanup(o);
}
struct RefSt { int64_t n; };
static void run_ref(const Prog &pr, bool plainobj, int pb)
{
	rref_t *ref = nullptr; uint64_t p0 = sch::total_points; size_t m0 = 0; int left = 0;
	for (auto &p : pr) { int n = 1; for (char c : p) n += c == 'I' ? 1 : -1; left += n; }
	std::vector<std::function<void()>> bodies;
	for (size_t t = 0; t < pr.size(); t++) bodies.push_back([&, t]() { for (char c : pr[t]) { size_t i = begin_op(t, c); end_op(i, c == 'I' ? r_ref_inc(ref) : r_ref_dec(ref)); } });
	uint64_t h = hstr(show(pr), plainobj); std::set<uint64_t> outcomes;
	uint64_t n = sch::explore(pb, [&]() {
		hist.clear(); clk = 0; destroyed = 0; destroyed_obj = nullptr;
		m0 = r_debug_get_allocmem();
		if (plainobj) { ref = r_ref_create(RREF_TYPE_SHARED); for (size_t i = 1; i < pr.size(); i++) r_ref_inc(ref); }
		else { ref = (rref_t *)r_object_create(sizeof(Obj)); r_ref_init((robject_t *)ref, R_OBJECT_REF, obj_cleanup, r_ref_copy, pr.size(), RREF_TYPE_SHARED); }
	}, bodies, [&]() {
		std::vector<char> used(hist.size(), 0);
		int64_t start = pr.size();
		if (!linear<int64_t>(start, used, hist.size(), [](int64_t &v, const Op &o) { v += o.op == 'I' ? 1 : -1; return v == o.res && v >= 0; }, [&](const int64_t &v) { return v == left; }))
			sch::fail("no order of the operations explains the returned counts %s", showhist().c_str());
		if (!plainobj && destroyed != (left ? 0 : 1)) sch::fail("%d references left, destroyed %d times", left, destroyed);
		if (left) {
			if (r_debug_get_allocmem() == m0) sch::fail("%d references left but the object is gone", left);
			if (r_ref_get(ref) != (ruint32)left) sch::fail("count %u, %d references left", r_ref_get(ref), left);
			for (int i = left; i-- > 0;) if (r_ref_dec(ref) != (ruint32)i) sch::fail("dropping the remaining references");
			if (!plainobj && destroyed != 1) sch::fail("dropped all references, destroyed %d times", destroyed);
		}
		if (r_debug_get_allocmem() != m0) sch::fail("%ld bytes stay allocated", (long)(r_debug_get_allocmem() - m0));
		uint64_t o = 1; for (auto &x : hist) o = mix(o, x.res + 31 * x.thr);
		outcomes.insert(o);
	});
	for (auto o : outcomes) distinct(mix(h, o));
	account(n, p0);
}

// ---- allocation counters: m malloc 16, c calloc 3*8, g realloc to 40, k realloc to 8, f free, z zmalloc 24, n realloc of nothing to 32; one block per thread
static const char MEMOPS[] = "mcgkfzn";
static bool mem_valid(const std::string &p) { bool have = false; for (char c : p) { if (strchr("mczn", c)) { if (have) return false; have = true; } else { if (!have) return false; if (c == 'f') have = false; } } return true; }
static int64_t mem_size(char c) { const size_t H = sizeof(ruword); return c == 'm' ? 16 + H : c == 'c' ? 24 + H : c == 'g' ? 40 + H : c == 'k' ? 8 + H : c == 'z' ? 24 + H : c == 'n' ? 32 + H : 0; }
static void run_mem(const Prog &pr, int pb)
{
	uint64_t p0 = sch::total_points; size_t m0 = 0, final = 0; uint8_t *blk[sch::MAXT];
	std::vector<std::vector<int64_t>> delta(pr.size());
	for (size_t t = 0; t < pr.size(); t++) { int64_t s = 0; for (char c : pr[t]) { delta[t].push_back(mem_size(c) - s); s = mem_size(c); } final += s; }
	// every value the largest sum can take
	std::set<int64_t> peaks;
	std::function<void(std::vector<size_t>, int64_t, int64_t)> rec = [&](std::vector<size_t> at, int64_t s, int64_t mx) {
		bool end = true;
		for (size_t t = 0; t < pr.size(); t++) if (at[t] < delta[t].size()) { end = false; auto b = at; int64_t v = s + delta[t][b[t]++]; rec(b, v, v > mx ? v : mx); }
		if (end) peaks.insert(mx);
	};
	rec(std::vector<size_t>(pr.size(), 0), 0, 0);
	std::vector<std::function<void()>> bodies;
	for (size_t t = 0; t < pr.size(); t++) bodies.push_back([&, t]() {
		uint8_t *&b = blk[t]; b = nullptr; size_t len = 0;
		for (char c : pr[t]) {
			sch::op();
			size_t n = mem_size(c) ? mem_size(c) - sizeof(ruword) : 0;
			switch (c) {
			case 'm': b = (uint8_t *)r_malloc(n); break;
			case 'c': b = (uint8_t *)r_calloc(3, 8); break;
			case 'z': b = (uint8_t *)r_zmalloc(n); break;
			case 'n': b = (uint8_t *)r_realloc(nullptr, n); break;
			case 'g': case 'k': b = (uint8_t *)r_realloc(b, n); break;
			default: r_free(b); b = nullptr; continue;
			}
			if (!b) sch::fail("%c refused", c);
			if (c == 'c' || c == 'z') for (size_t i = 0; i < n; i++) if (b[i]) sch::fail("%c: not zeroed", c);
			if (c == 'g' || c == 'k') for (size_t i = 0; i < n && i < len; i++) if (b[i] != (uint8_t)(t * 16 + i)) sch::fail("%c: contents changed", c);
			for (size_t i = 0; i < n; i++) b[i] = t * 16 + i;
			len = n;
		}
	});
	uint64_t h = hstr(show(pr)); std::set<uint64_t> outcomes;
	uint64_t n = sch::explore(pb, [&]() { m0 = r_debug_get_allocmem(); r_debug_reset_maxmem(); }, bodies, [&]() {
		int64_t now = r_debug_get_allocmem() - m0, mx = r_debug_get_maxmem() - m0;
		if (now != (int64_t)final) sch::fail("%lld bytes accounted, %lld live", (long long)now, (long long)final);
		if (!peaks.count(mx)) sch::fail("largest sum reported as %lld, which no order of the calls gives", (long long)mx);
		for (size_t t = 0; t < pr.size(); t++) if (blk[t]) r_free(blk[t]);
		if (r_debug_get_allocmem() != m0) sch::fail("%ld bytes accounted after everything was released", (long)(r_debug_get_allocmem() - m0));
		outcomes.insert(mix(now, mx));
	});
	for (auto o : outcomes) distinct(mix(h, o));
	account(n, p0);
}

// all multisets (threads are interchangeable) of programs from a list
static std::vector<Prog> multisets(const std::vector<std::string> &ps, int nt)
{
	std::vector<Prog> r;
	std::function<void(Prog, size_t)> rec = [&](Prog p, size_t from) {
		if ((int)p.size() == nt) { r.push_back(p); return; }
		for (size_t i = from; i < ps.size(); i++) { Prog q = p; q.push_back(ps[i]); rec(q, i); }
	};
	rec({}, 0);
	return r;
}
static std::vector<std::string> progs(const std::string &alpha, int lo, int hi, const std::function<bool(const std::string &)> &ok = nullptr)
{
	std::vector<std::string> r;
	for (uint64_t i = 0; i < nstrings(alpha.size(), hi); i++) { std::string s = nthtext(i, alpha); if ((int)s.size() >= lo && (!ok || ok(s))) r.push_back(s); }
	return r;
}
static bool ref_valid(const std::string &p) { int n = 1; for (char c : p) { if (n < 1) return false; n += c == 'I' ? 1 : -1; } return true; }

static std::deque<std::vector<Prog>> store;
static void fam(const std::string &name, std::vector<Prog> ps, int pb, std::function<void(const Prog &, int)> f, uint64_t chunk = 1)
{
	store.push_back(std::move(ps));
	const auto &v = store.back();
	families.push_back({name, v.size(), [&v, pb, f](uint64_t i) { sch::fresh(); sch::snapshot(); f(v[i], pb); }, [&v, pb, name](uint64_t i) { return name + " " + show(v[i]); }, chunk});
}
static void setup()
{
	case_timeout = 120;
	worker_init = []() { sch::init(); };
	bool th = thorough;
	fam("lock-2x2", multisets(progs("LT", 1, 2), 2), -1, run_lock);
	fam("lock-3x1", multisets(progs("LT", 1, 1), 3), -1, run_lock);
	fam("lock-2x3", multisets(progs("LT", 3, 3), 2), th ? 12 : 6, run_lock);
	fam("lock-3x2", multisets(progs("LT", 1, 2), 3), th ? 6 : 3, run_lock);
	fam("lock-4x1", multisets(progs("LT", 1, 1), 4), th ? 6 : 3, run_lock);
	fam("two-locks-2", multisets(progs("LTltN", 1, 2), 2), th ? 8 : 4, run_lock);
	fam("two-locks-3", multisets(progs("LTltN", 1, 1), 3), th ? 6 : 3, run_lock);
	for (uint32_t init : {0u, 1u, 5u, 0xffffffffu}) {
		auto f = [init](const Prog &p, int pb) { run_atomic(p, init, pb); };
		fam(fmt("atomic-2x2 from %u", init), multisets(progs(ATOPS, 1, 2), 2), -1, f, 16);
		fam(fmt("atomic-3x1 from %u", init), multisets(progs(ATOPS, 1, 1), 3), -1, f, 16);
		if (init == 0 || th) fam(fmt("atomic-2x3 from %u", init), multisets(progs(ATOPS, 3, 3), 2), th ? -1 : 2, f, 16);
		if (th) fam(fmt("atomic-3x2 from %u", init), multisets(progs(ATOPS, 1, 2), 3), 3, f, 16);
		if (init == 0 || th) fam(fmt("atomic-4x1 from %u", init), multisets(progs(ATOPS, 1, 1), 4), -1, f, 16);
	}
	auto rp = [](int lo, int hi) { return progs("DI", lo, hi, ref_valid); };
	for (bool po : {false, true}) {
		auto f = [po](const Prog &p, int pb) { run_ref(p, po, pb); };
		std::string s = po ? "plain-ref" : "ref";
		fam(s + "-2x1", multisets(rp(1, 1), 2), -1, f);
		fam(s + "-2x3", multisets(rp(1, 3), 2), th ? 8 : 4, f);
		fam(s + "-3x1", multisets(rp(1, 1), 3), th ? -1 : 4, f);
		fam(s + "-3x3", multisets(rp(1, 3), 3), th ? 3 : 2, f);
		fam(s + "-4x1", multisets(rp(1, 1), 4), th ? 4 : 2, f);
	}
	fam("mem-2x1", multisets(progs(MEMOPS, 1, 1, mem_valid), 2), -1, run_mem);
	fam("mem-2x3", multisets(progs(MEMOPS, 1, 3, mem_valid), 2), th ? 6 : 3, run_mem);
	fam("mem-3x2", multisets(progs(MEMOPS, 1, 2, mem_valid), 3), th ? 3 : 2, run_mem);
	fam("mem-4x1", multisets(progs(MEMOPS, 1, 1, mem_valid), 4), th ? 3 : 2, run_mem);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
