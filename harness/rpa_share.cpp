// P07: threads that share one compiled grammar or one automaton, each with its own matcher, under every schedule.
#include "sched.hpp"
#include "rpaapi.hpp"
#include "rexmodel.hpp"
extern "C" {
#include "rlib/rmem.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexdfasimulator.h"
#include "rex/rexnfasimulator.h"
#include "rpa/rpadbex.h"
void *sut_malloc(size_t);
}
using namespace vh;
struct Out { long ret = -9, err = 0, where = -1; std::vector<std::array<long, 6>> recs; bool operator==(const Out &o) const { return ret == o.ret && err == o.err && where == o.where && recs == o.recs; } };
static std::string show(const Out &o) { std::string s = fmt("%ld error %ld at %ld", o.ret, o.err, o.where); for (auto &r : o.recs) s += fmt(" (%ld rule %ld %ld+%ld)", r[0], r[1], r[3], r[4]); return s; }

// everything allocated up to now becomes read only while f runs
static void frozen(const std::function<void()> &f)
{
	sch::Arena &a = sch::arena[sch::MAXT];
	size_t n = (a.used + 4095) / 4096 * 4096;
	sch::ro_lo = a.base; sch::ro_hi = a.base + a.used;
	mprotect(a.base, n, PROT_READ);
	f();
	mprotect(a.base, n, PROT_READ | PROT_WRITE);
	sch::ro_lo = sch::ro_hi = nullptr;
}
static void account(uint64_t n, uint64_t p0) { steps(sch::total_points - p0); traces(n); eval(n); }

// ---- grammars
struct Call { int kind; int rule; unsigned enc; std::string in; };     // kind 0 match 1 parse 2 scan, 3: create a matcher, parse, destroy it
static std::string show(const Call &c) { static const char *k[] = {"match", "parse", "scan", "create+parse"}; return fmt("%s #%d %s'%s'", k[c.kind], c.rule, c.enc & RPA_ENCODING_ICASE ? "ignoring case " : "", esc(c.in).c_str()); }
struct Share {
	rpadbex_t *db; std::vector<rparule_t> rids;
	rpastat_t *st[sch::MAXT]; rarray_t *recs[sch::MAXT]; std::vector<Call> calls[sch::MAXT]; std::vector<char *> in[sch::MAXT]; std::vector<Out> got[sch::MAXT];
	void build(const std::string &t)
	{
		sch::fresh();
		db = rpa_dbex_create(); rpa_dbex_open(db);
		if (rpa_dbex_load(db, t.data(), t.size()) < 0) vh::fail("valid grammar refused");
		rpa_dbex_close(db);
		if (rpa_dbex_compile(db) < 0) vh::fail("compile refused");
		rids.clear();
		for (const char *r : {"S", "A", "B"}) rids.push_back(rpa_dbex_lookup_s(db, r));
	}
	void matchers(int n)
	{
		for (int t = 0; t < n; t++) { sch::setup_thread = t; st[t] = rpa_stat_create(db, 600); recs[t] = rpa_records_create(); }
		sch::setup_thread = sch::MAXT;
	}
	void inputs(int t, const std::vector<Call> &c)
	{
		calls[t] = c; in[t].clear();
		for (auto &x : c) { char *p = (char *)sut_malloc(x.in.size() + 1); memcpy(p, x.in.data(), x.in.size()); p[x.in.size()] = 0; in[t].push_back(p); }
	}
	Out one(const Call &c, const char *p, rpastat_t *s, rarray_t *rc)
	{
		Out o; size_t n = c.in.size(); rparule_t id = rids[c.rule];
		if (c.kind == 3) {
			s = rpa_stat_create(db, 600); rc = rpa_records_create();
			Call d = c; d.kind = 1; o = one(d, p, s, rc);
			rpa_records_destroy(rc); rpa_stat_destroy(s);
			return o;
		}
		const char *w = nullptr;
		if (c.kind == 0) o.ret = rpa_stat_match(s, id, c.enc, p, p, p + n);
		else if (c.kind == 2) { o.ret = rpa_stat_scan(s, id, c.enc, p, p, p + n, &w); if (o.ret > 0) o.where = w - p; }
		else { r_array_setlength(rc, 0); o.ret = rpa_stat_parse(s, id, c.enc, p, p, p + n, rc); if (o.ret > 0) for (long i = 0; i < (long)r_array_length(rc); i++) { rparecord_t *r = rpa_record_get(rc, i); o.recs.push_back({(long)r->type, (long)r->ruleid, (long)r->ruleuid, (long)r->inputoff, (long)r->inputsiz, (long)(r->input - p)}); } }
		o.err = rpa_stat_lasterror(s);
		return o;
	}
	void run(int t) { got[t].clear(); for (size_t i = 0; i < calls[t].size(); i++) { sch::op(); got[t].push_back(one(calls[t][i], in[t][i], st[t], recs[t])); } }
};
// what each call gives when nobody else runs, and then every schedule
static void share(Share &s, int nt, int pb, int pts)
{
	uint64_t p0 = sch::total_points, n = 0, h = 5; std::vector<Out> alone[sch::MAXT];
	std::vector<std::function<void()>> b;
	for (int t = 0; t < nt; t++) b.push_back([&s, t]() { s.run(t); });
	auto nothing = []() {};
	sch::points = pts;
	frozen([&]() {
		for (int t = 0; t < nt; t++) {
			std::vector<std::function<void()>> one;
			for (int k = 0; k < nt; k++) if (k == t) one.push_back(b[k]); else one.push_back([]() {});
			n += sch::explore(0, nothing, one, [&]() { alone[t] = s.got[t]; }, 1);
		}
		for (int t = 0; t < nt; t++) for (auto &o : alone[t]) h = mix(h, o.ret * 64 + o.recs.size() + 7 * o.where);
		n += sch::explore(pb, nothing, b, [&]() {
			for (int t = 0; t < nt; t++) for (size_t i = 0; i < alone[t].size(); i++) if (!(s.got[t][i] == alone[t][i])) sch::fail("thread %d: %s gives %s, alone it gives %s", t, show(s.calls[t][i]).c_str(), show(s.got[t][i]).c_str(), show(alone[t][i]).c_str());
		});
	});
	distinct(h); account(n, p0);
}

struct Job { const std::string *g; std::vector<std::vector<Call>> c; };
static std::deque<std::string> gtext; static std::deque<std::vector<Job>> jobs;
static std::string show(const Job &j) { std::string s = *j.g; for (auto &t : j.c) { s += "|| "; for (auto &c : t) s += show(c) + "; "; } return s; }
static void fam(const std::string &name, std::vector<Job> js, int pb, int pts, uint64_t chunk = 1)
{
	jobs.push_back(std::move(js)); const auto &v = jobs.back();
	families.push_back({name, v.size(), [&v, pb, pts](uint64_t i) {
		Share s; const Job &j = v[i]; s.build(*j.g);
		for (size_t t = 0; t < j.c.size(); t++) s.inputs(t, j.c[t]);
		s.matchers(j.c.size()); sch::snapshot();
		share(s, j.c.size(), pb, pts);
	}, [&v](uint64_t i) { return show(v[i]); }, chunk});
}
// one grammar, all inputs: no schedule but both orders; the race and write checks see every access of every call
static std::deque<peg::Grammar> grammars; static std::vector<std::string> allin;
static void serial(const std::string &t, int nrules)
{
	std::vector<Call> c;
	for (auto &in : allin) for (int r = 0; r < nrules; r++) c.push_back({1, r, RPA_ENCODING_UTF8, in});
	for (auto &in : allin) c.push_back({2, 0, RPA_ENCODING_UTF8 | RPA_ENCODING_ICASE, in});
	Share s; s.build(t); s.inputs(0, c); std::reverse(c.begin(), c.end()); s.inputs(1, c); s.matchers(2); sch::snapshot();
	share(s, 2, 0, sch::SYNC);
}

// ---- automata
struct Rx { std::vector<std::string> ex; };
static std::vector<Rx> rxs; static std::vector<std::string> rin;
struct RShare { rexdb_t *nfa, *db; rexdfa_t *dfa; long start; };
static std::string rshow(uint64_t i) { std::string s; for (auto &e : rxs[i].ex) s += e + "  "; return s; }
static void rex(uint64_t gi, int kinds, int a, int b, int pb, int pts)
{
	// kinds: thread 0 kind + 3 * thread 1 kind; 0 frozen table, 1 deterministic simulator, 2 non-deterministic simulator
	sch::fresh();
	RShare r; r.nfa = rex_db_create(REXDB_TYPE_NFA); r.start = -1;
	for (size_t k = 0; k < rxs[gi].ex.size(); k++) { r.start = rex_db_addexpression(r.nfa, r.start, rxs[gi].ex[k].c_str(), rxs[gi].ex[k].size(), k + 10); if (r.start < 0) vh::fail("valid expression refused"); }
	r.db = rex_db_createdfa(r.nfa, r.start); r.dfa = rex_db_todfa(r.db, 1);
	struct Th { rex_dfasimulator_t *d; rex_nfasimulator_t *n; std::vector<long> got, alone; const char *p; size_t len; int kind; } th[2];
	for (int t = 0; t < 2; t++) {
		sch::setup_thread = t; th[t].d = rex_dfasimulator_create(); th[t].n = rex_nfasimulator_create(); th[t].kind = t ? kinds / 3 : kinds % 3;
		sch::setup_thread = sch::MAXT;
		const std::string &s = rin[t ? b : a]; char *p = (char *)sut_malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); th[t].p = p; th[t].len = s.size();
	}
	sch::snapshot();
	auto body = [&](int t) {
		Th &x = th[t]; x.got.clear();
		for (size_t from = 0; from <= x.len; from++) {
			sch::op();
			const char *p = x.p + from; size_t n = x.len - from;
			if (x.kind == 1) { x.got.push_back(rex_dfasimulator_run(x.d, r.db, 1, p, n)); }
			else if (x.kind == 2) x.got.push_back(rex_nfasimulator_run(x.n, r.nfa, r.start, p, n));
			else {
				rexuint_t st = REX_DFA_STARTSTATE; long last = 0, tag = 0;
				for (size_t i = 0; i < n; i++) {
					st = rex_dfa_next(r.dfa, st, (unsigned char)p[i]);
					rexdfs_t *s = rex_dfa_state(r.dfa, st);
					if (s->type == REX_STATETYPE_DEAD) break;
					if (s->type == REX_STATETYPE_ACCEPT) { last = i + 1; tag = rex_dfa_accsubstate(r.dfa, st, 0)->userdata; }
				}
				x.got.push_back(last); x.got.push_back(tag);
			}
		}
	};
	uint64_t p0 = sch::total_points, n = 0, h = 11;
	sch::points = pts;
	frozen([&]() {
		for (int t = 0; t < 2; t++) { std::vector<std::function<void()>> one = {[]() {}, []() {}}; one[t] = [&body, t]() { body(t); }; n += sch::explore(0, []() {}, one, [&]() { th[t].alone = th[t].got; }, 1); }
		for (auto &x : th) for (long v : x.alone) h = mix(h, v);
		n += sch::explore(pb, []() {}, {[&]() { body(0); }, [&]() { body(1); }}, [&]() { for (int t = 0; t < 2; t++) if (th[t].got != th[t].alone) sch::fail("thread %d gets other lengths than alone", t); });
	});
	distinct(h); account(n, p0);
}

static void setup()
{
	using namespace peg;
	bool T = thorough;
	case_timeout = 120;
	worker_init = []() { sch::horizon = 30000000; sch::init(); };
	// every reachable kind of instruction in a few grammars
	static const char *gs[] = {
		"S ::= <A> 'x' | <A> 'b' | <A>\nA ::= <B> 'a' | <B>\nB ::= 'a'+ | 'b'\n",
		"S ::= <S> 'b' <A> | <A>\nA ::= 'a' | 'b'\nB ::= .\n",
		"S ::= <A> 'b' | 'b'\nA ::= <S> 'a' | 'a'\nB ::= <S>\n",
		"#!abort B\nS ::= 'b' <B> | 'a'\nA ::= 'b' | 'a' <S>?\nB ::= 'a' 'b'\n",
		"#!noemit A\n#!emitid S 7\nS ::= <A>* <B>\nA ::= 'a' ^'c' | <B> 'a'\nB ::= 'b'\n",
		"S ::= (<A> - <B>)+ | <B> <S>\nA ::= .\nB ::= 'a' 'b' | 'b' 'c'\n",
		"S ::= [ab]+ | [c-e]?\nA ::= [#x60-#x70]* 'b'\nB ::= 'ab'\n",
		"S ::= 'a' <A> 'b' | 'a' <A> | 'b'\nA ::= <B>+ | 'a'\nB ::= 'b' 'a'\n",
	};
	for (auto g : gs) gtext.push_back(g);
	std::vector<Call> calls, few;
	for (const char *in : {"ab", "ba", "aab", "bcab"}) for (int k = 0; k < 3; k++) for (int r = 0; r < 2; r++) calls.push_back({k, r, RPA_ENCODING_UTF8, in});
	for (auto &c : calls) if ((c.in == "ab" || c.in == "ba") && (c.kind == 1 || c.rule == 0)) few.push_back(c);
	std::vector<Job> pairs, two, three, deep, create, seq;
	for (size_t g = 0; g < gtext.size(); g++) {
		for (size_t i = 0; i < calls.size(); i++) for (size_t j = i; j < calls.size(); j++) if (T || (i + j + g) % 6 == 0 || i == j) pairs.push_back({&gtext[g], {{calls[i]}, {calls[j]}}});
		for (size_t i = 0; i < few.size(); i++) for (size_t j = 0; j < few.size(); j++) if (T || i % 3 == g % 3) seq.push_back({&gtext[g], {{few[i], few[j]}, {few[j]}}});
		three.push_back({&gtext[g], {{{1, 0, RPA_ENCODING_UTF8, "ab"}}, {{1, 0, RPA_ENCODING_UTF8, "ab"}}, {{2, 0, RPA_ENCODING_UTF8, "ba"}}}});
		deep.push_back({&gtext[g], {{{1, 2, RPA_ENCODING_UTF8, "b"}}, {{0, 0, RPA_ENCODING_UTF8, "a"}}}});
		deep.push_back({&gtext[g], {{{1, 0, RPA_ENCODING_UTF8, "a"}}, {{1, 0, RPA_ENCODING_UTF8, "a"}}}});
		for (int n = 2; n <= 3; n++) { Job j{&gtext[g], {}}; for (int t = 0; t < n; t++) j.c.push_back({{3, t % 2, RPA_ENCODING_UTF8, t ? "ba" : "ab"}}); create.push_back(j); }
	}
	fam("two-threads", pairs, 1, sch::SYNC | sch::ENTRY);
	fam("two-calls", seq, 1, sch::SYNC | sch::ENTRY);
	fam("three-threads", three, 1, sch::SYNC | sch::ENTRY);
	fam("two-preemptions", deep, T ? 2 : 1, sch::SYNC | sch::ENTRY);
	fam("own-life", create, 0, sch::SYNC);
	// many grammars
	for (auto in : {"", "a", "b", "ab", "ba", "aab", "abb", "bab"}) allin.push_back(in);
	{ Gen *g = new Gen; g->leaves = {chr('a'), chr('b'), any(), cls("[ab]", {{'a', 'b'}}), ref(0)}; for (PP x : g->upto(T ? 4 : 3)) grammars.push_back({{{"S", x}}}); }
	{ Gen *x = new Gen; x->leaves = {chr('a'), ref(1)}; Gen *y = new Gen; y->leaves = {chr('b'), ref(0)}; for (PP p : x->upto(3)) for (PP q : y->upto(T ? 3 : 2)) grammars.push_back({{{"S", p}, {"A", q}}}); }
	families.push_back({"grammars", grammars.size(), [](uint64_t i) { serial(text(grammars[i]), grammars[i].r.size()); }, [](uint64_t i) { return text(grammars[i]); }, 8});
	// automata
	rxs = {{{"a*b"}}, {{"(a|b)*abb"}}, {{"ab", "a", "[a-c]+"}}, {{"[^b]+b?", "."}}, {{"(ab){1,2}", "b+"}}, {{"a{2,3}", "(a|bc)+"}}};
	rin = {"ab", "aabb", "bca", "abab", ""};
	uint64_t R = rxs.size(), I = rin.size();
	families.push_back({"automata", R * 9 * I * I, [R, I](uint64_t i) { Idx x(i); int k = x.take(9), a = x.take(I), b = x.take(I); rex(x.take(R), k, a, b, 1, sch::SYNC | sch::ENTRY); },
		[R, I](uint64_t i) { Idx x(i); int k = x.take(9), a = x.take(I), b = x.take(I); static const char *n[] = {"table", "dfa", "nfa"}; return fmt("%s on '%s' || %s on '%s': ", n[k % 3], rin[a].c_str(), n[k / 3], rin[b].c_str()) + rshow(x.take(R)); }, 2});
	if (T) families.push_back({"automata-two-preemptions", R * 9 * 4, [R](uint64_t i) { Idx x(i); int k = x.take(9), a = x.take(2), b = x.take(2); rex(x.take(R), k, a * 2, b * 2, 2, sch::SYNC | sch::ENTRY); },
		[R](uint64_t i) { Idx x(i); int k = x.take(9), a = x.take(2), b = x.take(2); return fmt("kinds %d inputs %d %d: ", k, a * 2, b * 2) + rshow(x.take(R)); }, 1});
}
int main(int c, char **v) { return vh::main(c, v, setup); }
