// Exhaustive-enumeration runner shared by all harnesses.
//
// A harness declares families of cases.  A family is a finite, totally indexed space [0,count): run(i) executes case i
// against the real code and its reference model and calls vh::fail() on disagreement; describe(i) prints case i.
// The runner executes every index of every family on several worker processes, isolates crashes and hangs to the case
// that caused them, and never samples.  A wall-clock budget may stop a run early: it is then reported as not exhaustive.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <deque>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {

struct Family {
	std::string name;
	uint64_t count;
	std::function<void(uint64_t)> run;
	std::function<std::string(uint64_t)> describe;
	uint64_t chunk = 64;
};

static const size_t SETSIZE = 1u << 23;
static const size_t MAXFAIL = 600, MSGLEN = 1600, KEYLEN = 400;
struct FailRec { int family; uint64_t idx; char kind[16]; char key[KEYLEN]; char msg[MSGLEN]; };
struct WCell { std::atomic<int> active; std::atomic<int> family; std::atomic<uint64_t> idx, end, seq; };
struct Shared {
	std::atomic<uint64_t> next[128], done[128], failed[128], ns[128];
	std::atomic<uint64_t> evals, steps, skipped, traces, distinct, overflow;
	std::atomic<uint64_t> nfail;
	std::atomic<int> stop;
	WCell cell[64];
	FailRec fails[MAXFAIL];
	std::atomic<uint64_t> set[SETSIZE];
};
inline Shared *S = nullptr;
inline bool replaying = false, thorough = false;
inline int cur_family = -1;
inline uint64_t cur_idx = 0;
inline std::vector<Family> families;
inline std::string cur_note;

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
inline uint64_t hstr(const std::string &s, uint64_t h = 1469598103934665603ULL) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return mix(h, s.size()); }

inline void distinct(uint64_t h)
{
	if (!S) return;
	if (!h) h = 1;
	size_t p = mix(h, 77) & (SETSIZE - 1);
	for (int n = 0; n < 64; n++, p = (p + 1) & (SETSIZE - 1)) {
		uint64_t v = S->set[p].load(std::memory_order_relaxed);
		if (v == h) return;
		if (!v) {
			if (S->set[p].compare_exchange_strong(v, h)) { S->distinct++; return; }
			if (v == h) return;
		}
	}
	S->overflow++;
}
inline void steps(uint64_t n) { if (S) S->steps += n; }
inline void eval(uint64_t n = 1) { if (S) S->evals += n; }
inline void traces(uint64_t n = 1) { if (S) S->traces += n; }
inline void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char *fmt, ...) { char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); cur_note = b; }

inline std::string esc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		char b[8];
		if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += (char)c;
	}
	return r;
}

inline void logfail(int family, uint64_t idx, const char *kind, const std::string &key, const std::string &msg)
{
	uint64_t n = S->nfail++;
	if (n >= MAXFAIL) return;
	FailRec &f = S->fails[n];
	f.family = family; f.idx = idx;
	snprintf(f.kind, sizeof f.kind, "%s", kind);
	snprintf(f.key, sizeof f.key, "%s", key.c_str());
	snprintf(f.msg, sizeof f.msg, "%s", msg.c_str());
}

// A failed case ends its worker, so nothing it left behind can disturb later cases.
[[noreturn]] inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char *fmt, ...)
{
	char b[MSGLEN]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	std::string d = families[cur_family].describe(cur_idx), m = d + (cur_note.empty() ? "" : " @ " + cur_note) + " :: " + b;
	if (replaying) { fprintf(stderr, "FAIL %s\n", esc(m).c_str()); fflush(stderr); _exit(1); }
	logfail(cur_family, cur_idx, "mismatch", esc(d), esc(m));
	_exit(3);
}
#define VH_CHECK(c, ...) do { if (!(c)) vh::fail(__VA_ARGS__); } while (0)

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// unranking helper
struct Idx {
	uint64_t v;
	explicit Idx(uint64_t x) : v(x) {}
	uint64_t take(uint64_t n) { uint64_t r = v % n; v /= n; return r; }
};
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
// all strings over alphabet of length 0..maxlen, shortest first
inline uint64_t nstrings(uint64_t k, unsigned maxlen) { uint64_t n = 0; for (unsigned l = 0; l <= maxlen; l++) n += ipow(k, l); return n; }
inline std::vector<int> nthstring(uint64_t i, uint64_t k)
{
	unsigned l = 0;
	while (i >= ipow(k, l)) { i -= ipow(k, l); l++; }
	std::vector<int> r(l);
	for (unsigned j = 0; j < l; j++) { r[l - 1 - j] = i % k; i /= k; }
	return r;
}
inline std::string nthtext(uint64_t i, const std::string &alpha) { std::string s; for (int c : nthstring(i, alpha.size())) s += alpha[c]; return s; }
inline std::string nthtext(uint64_t i, const std::vector<std::string> &alpha) { std::string s; for (int c : nthstring(i, alpha.size())) s += alpha[c]; return s; }

inline double case_timeout = 20.0;
inline rlim_t mem_limit = 0;   // RLIMIT_DATA for workers (non-ASan builds), bytes
inline std::function<void()> worker_init;

inline void runone(int f, uint64_t i) { cur_family = f; cur_idx = i; cur_note.clear(); families[f].run(i); }

inline void worker(int w, int pf, uint64_t pa, uint64_t pb, const char *errfile)
{
	int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd);
	fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
	if (mem_limit) { rlimit rl{mem_limit, mem_limit}; setrlimit(RLIMIT_DATA, &rl); }
	rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
	if (worker_init) worker_init();
	WCell &c = S->cell[w];
	int f = pf; uint64_t a = pa, b = pb;
	for (;;) {
		if (f < 0 || a >= b) {
			f = -1;
			if (S->stop) _exit(0);
			for (size_t k = 0; k < families.size(); k++) {
				if (S->next[k] >= families[k].count || S->failed[k] > 200) continue;
				uint64_t n = families[k].chunk, s = S->next[k].fetch_add(n);
				if (s >= families[k].count) continue;
				f = k; a = s; b = s + n < families[k].count ? s + n : families[k].count;
				break;
			}
			if (f < 0) _exit(0);
		}
		c.family = f; c.idx = a; c.end = b; c.seq++; c.active = 1;
		double r0 = now();
		runone(f, a);
		c.active = 0;
		S->ns[f] += (uint64_t)((now() - r0) * 1e9);
		S->done[f]++;
		a++;
	}
}

inline std::string slurp(const char *fn, size_t max = 6000)
{
	std::string r; FILE *f = fopen(fn, "r"); if (!f) return r;
	char b[512]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < max) r.append(b, n);
	fclose(f); return r;
}
inline std::string jstr(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
	return r + "\"";
}
inline std::string firstlines(const std::string &s)
{
	// the interesting part of a sanitizer report, without addresses (they are not stable)
	std::string r; size_t p = 0; int n = 0;
	while (p < s.size() && n < 14) {
		size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size();
		std::string l = s.substr(p, e - p); p = e + 1;
		if (l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("    #") != std::string::npos || l.find("Assert") != std::string::npos || l.find("terminate") != std::string::npos) {
			size_t q = l.find("0x"); if (q != std::string::npos) { size_t z = q; while (z < l.size() && l[z] != ' ') z++; l.erase(q, z - q); }
			r += l + " | "; n++;
		}
	}
	return r.empty() ? s.substr(0, 300) : r;
}

inline int main(int argc, char **argv, std::function<void()> setup)
{
	// usage: H run|replay|describe|count tier [...]
	if (argc < 3) { fprintf(stderr, "usage\n"); return 2; }
	std::string mode = argv[1];
	thorough = !strcmp(argv[2], "thorough");
	setup();
	if (const char *only = getenv("VH_ONLY")) { std::vector<Family> k; for (auto &f : families) if (f.name.find(only) != std::string::npos) k.push_back(f); families = k; }   // development only
	if (mode == "count") { for (auto &f : families) printf("%s %llu\n", f.name.c_str(), (unsigned long long)f.count); return 0; }
	if (mode == "describe" || mode == "replay") {
		for (size_t k = 0; k < families.size(); k++) if (families[k].name == argv[3]) {
			uint64_t i = strtoull(argv[4], 0, 10);
			if (i >= families[k].count) { fprintf(stderr, "index out of range\n"); return 2; }
			if (mode == "describe") { printf("%s\n", esc(families[k].describe(i)).c_str()); return 0; }
			replaying = true;
			if (mem_limit) { rlimit rl{mem_limit, mem_limit}; setrlimit(RLIMIT_DATA, &rl); }
			if (worker_init) worker_init();
			runone(k, i);
			printf("PASS\n"); fflush(stdout);
			_exit(0);
		}
		fprintf(stderr, "no such family\n"); return 2;
	}
	int nw = atoi(argv[3]); double budget = atof(argv[4]); const char *out = argv[5]; std::string tmp = argv[6];
	S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double t0 = now();
	struct Slot { pid_t pid = 0; uint64_t seq = ~0ULL; double since = 0; bool killed = false; };
	bool failfast = getenv("VH_FAILFAST");   // development only
	std::vector<Slot> slot(nw);
	std::vector<std::pair<int, uint64_t>> suspects;
	auto errf = [&](int w) { return tmp + "/err." + std::to_string(w); };
	auto spawn = [&](int w, int f, uint64_t a, uint64_t b) {
		S->cell[w].active = 0;
		fflush(stdout);
		pid_t p = fork();
		if (p < 0) { perror("fork"); exit(2); }
		if (!p) { worker(w, f, a, b, errf(w).c_str()); _exit(0); }
		slot[w].pid = p; slot[w].seq = ~0ULL; slot[w].since = now(); slot[w].killed = false;
	};
	for (int w = 0; w < nw; w++) spawn(w, -1, 0, 0);
	int live = nw; bool capped = false;
	while (live) {
		bool any = false;
		for (int w = 0; w < nw; w++) {
			Slot &s = slot[w];
			if (!s.pid) continue;
			int st; pid_t r = waitpid(s.pid, &st, WNOHANG);
			if (r == s.pid) {
				any = true;
				WCell &c = S->cell[w];
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !c.active) { s.pid = 0; live--; continue; }
				int f = c.family; uint64_t i = c.idx, e = c.end;
				if (c.active) {
					S->done[f]++;
					if (s.killed) suspects.push_back({f, i});
					else {
						S->failed[f]++;
						if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) {
							std::string d = esc(families[f].describe(i)), why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
							logfail(f, i, "crash", d, d + " :: crash: " + why + " " + firstlines(slurp(errf(w).c_str())));
						}
					}
					if (S->failed[f] > 200 || suspects.size() > 60) e = i + 1;   // this family is broken enough
					if (suspects.size() > 60) S->stop = 1;
					spawn(w, f, i + 1, e);
				} else { fprintf(stderr, "worker died outside a case: status %d\n%s\n", st, slurp(errf(w).c_str()).c_str()); return 2; }
				continue;
			}
			uint64_t q = S->cell[w].seq;
			if (q != s.seq) { s.seq = q; s.since = now(); }
			else if (S->cell[w].active && now() - s.since > case_timeout && !s.killed) { s.killed = true; kill(s.pid, SIGKILL); }
		}
		if (!S->stop && now() - t0 > budget) { S->stop = 1; capped = true; }
		if (failfast && S->nfail) S->stop = 1;
		if (!any) usleep(5000);
	}
	// a timed-out case is re-run alone with a longer limit before it is called a hang
	size_t nsus = 0;
	for (auto &q : suspects) {
		if (++nsus > 6) { break; }
		spawn(0, q.first, q.second, q.second + 1);
		S->stop = 1;
		double s0 = now(); int st = 0; bool dead = false;
		while (now() - s0 < 3 * case_timeout) { if (waitpid(slot[0].pid, &st, WNOHANG) == slot[0].pid) { dead = true; break; } usleep(20000); }
		if (!dead) {
			kill(slot[0].pid, SIGKILL); waitpid(slot[0].pid, &st, 0);
			std::string d = esc(families[q.first].describe(q.second));
			logfail(q.first, q.second, "hang", d, d + " :: hang: no result after " + std::to_string((int)(3 * case_timeout)) + " s alone");
		} else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !(WIFEXITED(st) && WEXITSTATUS(st) == 3)) {
			std::string d = esc(families[q.first].describe(q.second));
			logfail(q.first, q.second, "crash", d, d + " :: crash " + firstlines(slurp(errf(0).c_str())));
		}
	}
	bool exhaustive = !capped;
	std::string j = "{\"families\":[";
	for (size_t k = 0; k < families.size(); k++) {
		uint64_t c = families[k].count, d = S->done[k];
		if (d < c) exhaustive = false;
		j += std::string(k ? "," : "") + "{\"name\":" + jstr(families[k].name) + ",\"cases\":" + std::to_string(c) + ",\"executed\":" + std::to_string(d) + ",\"cpu_s\":" + std::to_string(S->ns[k] / 1e9) + ",\"samples\":[";
		if (c) { j += jstr(esc(families[k].describe(c / 2))); if (c > 2) j += "," + jstr(esc(families[k].describe(c - 1))); }
		j += "]}";
	}
	j += "],\"evals\":" + std::to_string(S->evals) + ",\"steps\":" + std::to_string(S->steps) + ",\"traces\":" + std::to_string(S->traces) + ",\"distinct\":" + std::to_string(S->distinct)
		+ ",\"distinct_overflow\":" + std::to_string(S->overflow) + ",\"suspects\":" + std::to_string(suspects.size())
		+ ",\"exhaustive\":" + (exhaustive ? "true" : "false") + ",\"capped\":" + (capped ? "true" : "false") + ",\"wall\":" + std::to_string(now() - t0) + ",\"nfail\":" + std::to_string(S->nfail) + ",\"fails\":[";
	uint64_t n = S->nfail < MAXFAIL ? (uint64_t)S->nfail : MAXFAIL;
	for (uint64_t k = 0; k < n; k++) {
		FailRec &f = S->fails[k];
		j += std::string(k ? "," : "") + "{\"family\":" + jstr(families[f.family].name) + ",\"idx\":" + std::to_string(f.idx) + ",\"kind\":" + jstr(f.kind) + ",\"key\":" + jstr(f.key) + ",\"msg\":" + jstr(f.msg) + "}";
	}
	j += "]}\n";
	FILE *o = fopen(out, "w"); if (!o) { perror(out); return 2; }
	fputs(j.c_str(), o); fclose(o);
	return 0;
}

} // namespace vh

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=2000:hard_rss_limit_mb=3500"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=66:print_stacktrace=1"; }
#endif
