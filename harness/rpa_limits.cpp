// P08: every stack size, every abort directive and every abort point: either the result P01 defines or an error, nothing else.
#include "vh.hpp"
#include "rpaapi.hpp"
#include "rparecs.hpp"
extern "C" {
#include "rpa/rpastatpriv.h"
#include "rvm/rvmcpu.h"
}
using namespace peg;
typedef std::vector<uint32_t> In;
static std::vector<In> ins, few;
static void mkinputs(std::vector<In> &o, const std::vector<uint32_t> &al, unsigned maxlen) { for (uint64_t i = 0; i < vh::nstrings(al.size(), maxlen); i++) { In v; for (int c : vh::nthstring(i, al.size())) v.push_back(al[c]); o.push_back(v); } }

struct Want { long len; std::vector<Rec> recs; };
// ---- 1. every stack size
static void stacks(const Grammar &g, const std::vector<In> &in, int step)
{
	Model m(g); if (m.anyleft() && g.r.size() > 2) return;
	std::string t = text(g); Db db;
	if (!db.load(t)) vh::fail("valid grammar refused: %s", db.err.c_str());
	std::vector<rparule_t> ids; for (auto &r : g.r) ids.push_back(db.rule(r.name.c_str()));
	// the reference outcome is that of the default stack where the model leaves it open
	std::vector<std::vector<Want>> want(in.size());
	{ Matcher big(db.d); rarray_t *rc = rpa_records_create();
	  for (size_t q = 0; q < in.size(); q++) for (size_t k = 0; k < g.r.size(); k++) {
		long w = m.match(k, in[q]); if (m.anyleft()) w = big.match(ids[k], utf8(in[q]));
		want[q].push_back({w, m.recs}); if (m.anyleft()) want[q].back().recs.clear(); }
	  rpa_records_destroy(rc); }
	rarray_t *recs = rpa_records_create();
	uint64_t h = 11; size_t allok = 0;
	for (unsigned long size = 1; allok < 3 && size < 6000; size += size < 150 ? 1 : step) {
		Matcher ma(db.d, size);
		if (!ma.s) vh::fail("no matcher with a stack of %lu", size);
		bool all = true;
		for (size_t q = 0; q < in.size(); q++) for (size_t k = 0; k < g.r.size(); k++) {
			std::string s = utf8(in[q]); const Want &w = want[q][k];
			vh::note("stack %lu rule %s input '%s'", size, g.r[k].name.c_str(), s.c_str());
			long a = ma.match(ids[k], s), e = rpa_stat_lasterror(ma.s);
			if (a < 0 ? !e : a != w.len || e) vh::fail("match gives %ld with error %ld, should be %ld or an error", a, e, w.len);
			r_array_setlength(recs, 0);
			long b = rpa_stat_parse(ma.s, ids[k], RPA_ENCODING_UTF8, s.data(), s.data(), s.data() + s.size(), recs); e = rpa_stat_lasterror(ma.s);
			if (b < 0 ? !e : b != w.len || e) vh::fail("parse gives %ld with error %ld, should be %ld or an error", b, e, w.len);
			if (b >= 0 && !m.anyleft()) { std::string d = diffrecs(recs, w.recs, g, s); if (d.size()) vh::fail("records of the parse: %s", d.c_str()); }
			if (b == 0 && r_array_length(recs)) vh::fail("failed parse leaves records");
			const char *where = nullptr; long c = rpa_stat_scan(ma.s, ids[k], RPA_ENCODING_UTF8, s.data(), s.data(), s.data() + s.size(), &where); e = rpa_stat_lasterror(ma.s);
			if (c < 0 ? !e : w.len > 0 && (c != w.len || where != s.data())) vh::fail("scan gives %ld at %ld with error %ld, should be %ld", c, where ? (long)(where - s.data()) : -1L, e, w.len);
			all = all && a >= 0 && b >= 0 && c >= 0;
			h = vh::mix(h, (a >= 0) + 2 * (b >= 0) + 4 * (c >= 0));
			vh::eval(3); vh::steps(1);
		}
		if (all) allok++; else if (allok) vh::fail("stack %lu is not enough, a smaller one was", size);
	}
	if (!allok) vh::fail("no stack is enough");
	rpa_records_destroy(recs);
	vh::distinct(h);
}
// ---- 2. abort directives
static void directives(const Grammar &g)
{
	Model m(g);
	std::string t = text(g), d; for (auto &r : g.r) if (r.abort) d += "#!abort " + r.name + "\n";
	for (int place = 0; place < 1; place++) {   // directives take effect on the rules that follow them
		Db db; if (!db.load(place ? t + d : d + t)) vh::fail("valid grammar refused: %s", db.err.c_str());
		Matcher ma(db.d); std::vector<rparule_t> ids; for (auto &r : g.r) ids.push_back(db.rule(r.name.c_str()));
		rarray_t *recs = rpa_records_create(); uint64_t h = 17;
		for (auto &in : ins) for (size_t k = 0; k < g.r.size(); k++) {
			std::string s = utf8(in); long w = m.match(k, in);
			vh::note("directives %s, rule %s input '%s'", place ? "last" : "first", g.r[k].name.c_str(), s.c_str());
			for (int parse = 0; parse < 2; parse++) {
				r_array_setlength(recs, 0);
				long a = parse ? rpa_stat_parse(ma.s, ids[k], RPA_ENCODING_UTF8, s.data(), s.data(), s.data() + s.size(), recs) : ma.match(ids[k], s);
				rpa_errinfo_t e; memset(&e, 0, sizeof e); rpa_stat_lasterrorinfo(ma.s, &e);
				if (m.aborted) {
					if (a != -1 || e.code != RPA_E_RULEABORT || rpa_stat_lasterror(ma.s) != e.code) vh::fail("gives %ld with error %ld, should be aborted by %s", a, e.code, g.r[m.abortrule].name.c_str());
					bool min = false; std::function<void(PP)> look = [&](PP x) { if (x->k == MIN && x->kid.size() > 2) min = true; for (PP y : x->kid) look(y); }; for (auto &r : g.r) look(r.body);
					if (!min && (g.r[m.abortrule].name != e.name || e.offset != m.abortoff)) vh::fail("the abort names %s at %ld, should be %s at %ld", e.name, e.offset, g.r[m.abortrule].name.c_str(), m.abortoff);
				} else {
					if (a != w || e.code) vh::fail("gives %ld with error %ld, should be %ld", a, e.code, w);
					if (parse) { std::string df = diffrecs(recs, m.recs, g, s); if (df.size()) vh::fail("records: %s", df.c_str()); }
				}
			}
			h = vh::mix(h, m.aborted ? -1 - m.abortrule * 100 - m.abortoff : w); vh::eval(2); vh::steps(m.steps);
		}
		rpa_records_destroy(recs); vh::distinct(h);
	}
}
// ---- 3. the abort call at every instruction
static rpastat_t *astat; static uint64_t count, fire; static bool after; static void (*orig[256])(rvmcpu_t *, rvm_asmins_t *);
static void hook(rvmcpu_t *cpu, rvm_asmins_t *ins)
{
	bool now = ++count == fire;
	if (now && !after) rpa_stat_abort(astat);
	orig[ins->opcode](cpu, ins);
	if (now && after) rpa_stat_abort(astat);
}
static void aborts(const Grammar &g)
{
	Model m(g); std::string t = text(g); Db db;
	if (!db.load(t)) vh::fail("valid grammar refused: %s", db.err.c_str());
	Matcher ma(db.d), clean(db.d); astat = ma.s;
	rvmcpu_t *cpu = ma.s->cpu;
	for (int i = 0; i < RVM_COUNT && i < 256; i++) { orig[i] = cpu->ops[i].op; rvm_cpu_setophandler(cpu, i, cpu->ops[i].name, hook); }
	rarray_t *recs = rpa_records_create(), *r2 = rpa_records_create(); uint64_t h = 5;
	for (auto &in : few) for (size_t k = 0; k < g.r.size(); k++) for (int how = 0; how < 3; how++) {
		std::string s = utf8(in); rparule_t id = db.rule(g.r[k].name.c_str());
		auto go = [&](rpastat_t *st, rarray_t *rc, const char **where) { r_array_setlength(rc, 0); *where = nullptr; return how == 0 ? rpa_stat_match(st, id, RPA_ENCODING_UTF8, s.data(), s.data(), s.data() + s.size()) : how == 1 ? rpa_stat_parse(st, id, RPA_ENCODING_UTF8, s.data(), s.data(), s.data() + s.size(), rc) : rpa_stat_scan(st, id, RPA_ENCODING_UTF8, s.data(), s.data(), s.data() + s.size(), where); };
		const char *w0, *w1; long want = go(clean.s, r2, &w0);
		count = 0; fire = 0; long g0 = go(ma.s, recs, &w1); uint64_t total = count;
		if (g0 != want || w0 != w1) vh::fail("a second matcher gives %ld instead of %ld", g0, want);
		if (total > 400) total = 400;
		for (uint64_t at = 1; at <= total; at++) for (int aft = 0; aft < 2; aft++) {
			vh::note("rule %s input '%s' %s, abort %s instruction %lu of %lu", g.r[k].name.c_str(), s.c_str(), how == 0 ? "match" : how == 1 ? "parse" : "scan", aft ? "after" : "before", at, total);
			count = 0; fire = at; after = aft;
			long a = go(ma.s, recs, &w1); long e = rpa_stat_lasterror(ma.s);
			if (a != -1 || !e) vh::fail("gives %ld with error %ld", a, e);
			if (e != RPA_E_USERABORT) vh::fail("reports error %ld", e);
			fire = 0; a = go(ma.s, recs, &w1);
			if (a != want || w0 != w1 || rpa_stat_lasterror(ma.s) != rpa_stat_lasterror(clean.s)) vh::fail("the next call gives %ld instead of %ld", a, want);
			if (how == 1) { bool same = r_array_length(recs) == r_array_length(r2); for (long i = 0; same && i < (long)r_array_length(recs); i++) same = !memcmp(rpa_record_get(recs, i), rpa_record_get(r2, i), sizeof(rparecord_t)); if (!same) vh::fail("the next call leaves the records %s instead of %s", showrecs(recs).c_str(), showrecs(r2).c_str()); }
			vh::eval(2); vh::steps(1);
		}
		h = vh::mix(h, total * 1000 + want);
	}
	rpa_records_destroy(recs); rpa_records_destroy(r2); vh::distinct(h);
}
static void reg(const std::string &n, std::vector<Grammar> *gs, std::function<void(const Grammar &)> f, bool ab = false)
{
	vh::families.push_back({n, gs->size(), [gs, f](uint64_t i) { f((*gs)[i]); }, [gs, ab](uint64_t i) { std::string s; if (ab) for (auto &r : (*gs)[i].r) if (r.abort) s += "#!abort " + r.name + "\n"; return s + text((*gs)[i]); }, 4});
}
static void setup()
{
	bool T = vh::thorough;
	mkinputs(ins, {'a', 'b', 'c'}, T ? 4 : 3); mkinputs(few, {'a', 'b'}, T ? 3 : 2);
	vh::case_timeout = 30;
	PP a = chr('a'), b = chr('b'), c = chr('c'); (void)c;
	auto seq = [](std::vector<PP> v) { return node(SEQ, v); };
	auto *g1 = new std::vector<Grammar>, *g2 = new std::vector<Grammar>, *g3 = new std::vector<Grammar>, *g4 = new std::vector<Grammar>;
	{ Gen *g = new Gen; g->leaves = {a, b, ref(0)}; for (PP x : g->upto(T ? 4 : 3)) g1->push_back({{{"S", x}}}); }
	{ Gen *gs = new Gen; gs->leaves = {a, ref(1)}; Gen *ga = new Gen; ga->leaves = {b, a, ref(0)}; for (PP x : gs->upto(3)) for (PP y : ga->upto(T ? 3 : 2)) g1->push_back({{{"S", x}, {"A", y}}}); }
	reg("stack-sizes", g1, [T](const Grammar &g) { stacks(g, few, T ? 1 : 7); });
	{ PP S = ref(0), A = ref(1);
	  g2->push_back({{{"S", node(ALT, {seq({a, S, b}), seq({a, b})})}}}); g2->push_back({{{"S", node(ALT, {seq({a, S}), seq({a})})}}}); g2->push_back({{{"S", node(ALT, {seq({S, b}), seq({a})})}}}); g2->push_back({{{"S", node(ALT, {seq({S, a}), seq({a})})}}});
	  g2->push_back({{{"S", seq({withq(A, '*'), b})}, {"A", node(ALT, {seq({a, A}), seq({a})})}}}); g2->push_back({{{"S", seq({withq(node(GRP, {seq({A})}), '+')})}, {"A", node(ALT, {seq({a, S, b}), seq({b})})}}}); }
	auto *li = new std::vector<In>; for (int n : {0, 1, 5, 20, 60, 130}) { if (!T && n > 60) continue; In x(n, 'a'), y(n, 'a'), z; x.push_back('b'); for (int k = 0; k < n; k++) { y.push_back('b'); z.push_back('a'); z.push_back('b'); } li->push_back(In(n, 'a')); li->push_back(x); li->push_back(y); li->push_back(z); }
	for (auto &q : *li) { static std::deque<std::vector<In>> one; one.push_back({q}); auto *o = &one.back(); reg(vh::fmt("stack-sizes-deep-%zu", one.size()), g2, [o, T](const Grammar &g) { stacks(g, *o, T ? 1 : 3); }); }
	{ Gen *gs = new Gen; gs->leaves = {a, ref(1)}; Gen *ga = new Gen; ga->leaves = {b, a, ref(0)};
	  for (PP x : gs->upto(T ? 4 : 3)) for (PP y : ga->upto(T ? 3 : 2)) for (int d = 1; d < 4; d++) { Grammar g{{{"S", x}, {"A", y}}}; Model m(g); if (m.anyleft()) continue; g.r[0].abort = d & 1; g.r[1].abort = d & 2; g3->push_back(g); } }
	reg("abort-directives", g3, directives, true);
	{ Gen *g = new Gen; g->leaves = {a, b, ref(0)}; for (PP x : g->upto(3)) g4->push_back({{{"S", x}}}); Gen *gs = new Gen; gs->leaves = {a, ref(1)}; Gen *ga = new Gen; ga->leaves = {b, a, ref(0)}; for (PP x : gs->upto(T ? 3 : 2)) for (PP y : ga->upto(2)) g4->push_back({{{"S", x}, {"A", y}}}); }
	reg("abort-calls", g4, aborts);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
