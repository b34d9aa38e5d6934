// P02: left-recursive grammars against seed growing, and termination of every grammar.
#include "vh.hpp"
#include "rpaapi.hpp"
#include "rparecs.hpp"
#include "lrspec.hpp"
#include "rpalarge.hpp"
using namespace peg;

static std::vector<std::vector<uint32_t>> inputs;
static void mkinputs(const std::vector<uint32_t> &al, unsigned maxlen)
{
	for (uint64_t i = 0; i < vh::nstrings(al.size(), maxlen); i++) { std::vector<uint32_t> v; for (int c : vh::nthstring(i, al.size())) v.push_back(al[c]); inputs.push_back(v); }
}
static void check(const Grammar &g, const std::vector<std::vector<uint32_t>> &inputs, const std::vector<int> &only = {})
{
	Model m(g);
	if (!m.anyleft()) return;      // P01's subject
	bool spec = lrspecified(m);
	std::string t = text(g);
	Db db;
	if (!db.load(t)) vh::fail("valid grammar refused: %s", db.err.c_str());
	Matcher ma(db.d);
	uint64_t h = 7;
	std::vector<rparule_t> ids;
	for (auto &r : g.r) ids.push_back(db.rule(r.name.c_str()));
	rarray_t *recs = rpa_records_create();
	for (auto &in : inputs) {
		std::string s = utf8(in); std::vector<unsigned> offs{0}; for (uint32_t c : in) offs.push_back(offs.back() + utf8({c}).size());
		for (size_t kk = 0; kk < (only.empty() ? g.r.size() : only.size()); kk++) {
			size_t k = only.empty() ? kk : only[kk];
			bool known = spec;
			long want = -2;
			if (known) { want = m.match(k, in); if (want > 0) want = offs[want]; if (m.unspecified) known = false; }
			vh::note("rule %s input '%s'", g.r[k].name.c_str(), s.c_str());
			long got = ma.match(ids[k], s);
			vh::eval(); vh::steps(m.steps);
			h = vh::mix(h, got);
			if (known) { if (got != want) vh::fail("match gives %ld, growing the seed gives %ld", got, want); }
			else if (got < -1 || got > (long)s.size()) vh::fail("match gives %ld for %zu bytes of input", got, s.size());
			r_array_setlength(recs, 0);
			long gp = rpa_stat_parse(ma.s, ids[k], RPA_ENCODING_UTF8, s.data(), s.data(), s.data() + s.size(), recs);
			if (gp != got) vh::fail("parse gives %ld, match gives %ld", gp, got);
			if (known) { std::string d = diffrecs(recs, m.recs, g, s, &offs); if (d.size()) vh::fail("parse tree: %s", d.c_str()); }
		}
	}
	rpa_records_destroy(recs);
	vh::distinct(h);
}
static void fam(const std::string &name, std::vector<Grammar> *gs, unsigned chunk = 16)
{
	vh::Family f;
	f.name = name; f.count = gs->size(); f.chunk = chunk;
	f.run = [gs](uint64_t i) { check((*gs)[i], inputs); };
	f.describe = [gs](uint64_t i) { return text((*gs)[i]); };
	vh::families.push_back(f);
}

// long left-recursive cycles, rules with many left-recursive alternatives, many levels of precedence
static std::vector<LargeG> largeleft(bool big)
{
	std::vector<LargeG> o; auto nm = [](unsigned i) { return "r" + std::to_string(i) + "_"; };
	auto tails = [](const std::string &base, unsigned n) { return [=] { std::vector<LIn> r; for (unsigned k : {0u, 1u, 2u, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n}) { std::string s = base, u = base; for (unsigned i = 0; i < k; i++) { s += 'x'; u += "xyz"[(k - 1 - i) % 3]; } r.push_back(lin(s)); r.push_back(lin(u)); r.push_back(lin(s + "b")); } r.push_back(lin("x")); r.push_back(lin("bx")); return r; }; };
	for (unsigned n = 2; n <= (big ? 60u : 36u); n += n < 8 ? 1 : n < 30 ? 7 : 3) for (int f = 0; f < 4; f++)
		o.push_back({"left-ring", [=] { Grammar g; for (unsigned i = 0; i < n; i++) { PP nx = ref((i + 1) % n); std::vector<PP> b{nx, chr(f == 1 ? "xyz"[i % 3] : 'x')}; if (f == 2) b = {withq(chr('b'), '?'), nx, chr('x')}; std::vector<PP> alts{node(SEQ, b)}; if (f != 3 || i == n / 2) alts.push_back(node(SEQ, {chr('a')})); PP body = alts.size() == 1 ? alts[0] : node(ALT, alts); g.r.push_back({nm(i), body}); } return g; }, tails("a", n), {0, 1, (int)n / 2, (int)n - 1}});
	for (unsigned n : lsizes(big ? 258 : 130)) for (int f = 0; f < 3; f++)
		o.push_back({"left-wide", [=] { std::vector<PP> v; for (unsigned i = 0; i < n; i++) { uint32_t c = 0x100 + (f == 1 ? n - 1 - i : i); PP op = cls("[" + lcode(c) + "]", {{c, c}}); v.push_back(f == 2 ? node(SEQ, {ref(0), op, ref(1)}) : node(SEQ, {ref(0), op})); } v.insert(v.begin() + (f == 1 ? n / 2 : n), node(SEQ, {ref(1)})); return Grammar{{{"E", node(ALT, v)}, {"T", node(SEQ, {chr('a'), withq(chr('b'), '*')})}}}; }, [=] { std::vector<LIn> r; for (uint32_t c = 0xff; c <= 0x100 + n; c++) { r.push_back({'a', c}); r.push_back({'a', 'b', c, 'a', c, 'a', 'b', 0x100}); r.push_back({'a', c, c ^ 1, c}); } LIn l{'a'}; for (unsigned i = 0; i < n; i++) { l.push_back(0x100 + i); if (f == 2) l.push_back('a'); } r.push_back(l); return r; }, {0}});
	for (unsigned n = 3; n <= (big ? 20u : 12u); n++) for (int f = 0; f < 3; f++)
		o.push_back({"left-levels", [=] { Grammar g; for (unsigned i = 0; i <= n; i++) { if (i == n) { g.r.push_back({"F", f == 1 ? node(SEQ, {chr('a')}) : node(ALT, {node(SEQ, {chr('a')}), node(SEQ, {chr('('), ref(0), chr(')')})})}); break; } PP op = str(vh::fmt("'%c'", "+-*&/,:;%!"[i % 10]), {(uint32_t)"+-*&/,:;%!"[i % 10]}); std::vector<PP> alts{node(SEQ, {ref(i), op, ref(i + 1)}), node(SEQ, {ref(i + 1)})}; if (f == 2) std::swap(alts[0], alts[1]); g.r.push_back({nm(i), node(ALT, alts)}); } return g; }, [=] { std::vector<LIn> r; const char *ops = "+-*&/,:;%!"; for (unsigned i = 0; i < n && i < 10; i++) for (unsigned j = 0; j < n && j < 10; j++) { std::string s = "a"; s += ops[i]; s += "a"; s += ops[j]; s += "a"; r.push_back(lin(s)); if (n <= 5) r.push_back(lin("(" + s + ")" + ops[i] + "a")); } r.push_back(lin("a+")); r.push_back(lin("a+b")); std::string l = "a"; for (unsigned i = 0; i < 3 * n; i++) { l += ops[i % n % 10]; l += "a"; } r.push_back(lin(l)); return r; }, {0, (int)n / 2, (int)n}});
	return o;
}
static void setup()
{
	bool T = vh::thorough;
	mkinputs({'a', 'b', 'c'}, T ? 5 : 4);
	vh::mem_limit = 3ull << 30;
	vh::case_timeout = 4;
	auto *g1 = new std::vector<Grammar>;
	{ Gen *g = new Gen; g->leaves = {chr('a'), chr('b'), ref(0)}; for (PP x : g->upto(T ? 6 : 5)) g1->push_back({{{"S", x}}}); }
	fam("direct", g1);
	auto *g2 = new std::vector<Grammar>;
	{ Gen *gs = new Gen; gs->leaves = {chr('a'), ref(1), ref(0)}; Gen *ga = new Gen; ga->leaves = {chr('b'), ref(0)};
	  for (PP x : gs->upto(T ? 4 : 3)) for (PP y : ga->upto(T ? 5 : 4)) g2->push_back({{{"S", x}, {"A", y}}}); }
	fam("indirect", g2);
	// both rules may start with either
	auto *g5 = new std::vector<Grammar>;
	{ Gen *gs = new Gen; gs->leaves = {chr('a'), ref(1), ref(0)}; Gen *ga = new Gen; ga->leaves = {chr('b'), ref(0), ref(1)};
	  for (PP x : gs->upto(T ? 4 : 3)) for (PP y : ga->upto(T ? 4 : 3)) g5->push_back({{{"S", x}, {"A", y}}});
	  std::vector<PP> as = {node(ALT, {node(SEQ, {ref(1), chr('b')}), node(SEQ, {chr('b')})}), node(ALT, {node(SEQ, {chr('b')}), node(SEQ, {ref(1), chr('b'), ref(0)})}), node(ALT, {node(SEQ, {withq(chr('c'), '?'), ref(1)}), node(SEQ, {chr('b')})})};
	  for (PP x : gs->upto(T ? 5 : 4)) for (PP y : as) g5->push_back({{{"S", x}, {"A", y}}}); }
	fam("both", g5);
	// E ::= permutations of recursive and plain alternatives; each alternative is a short sequence
	auto *g3 = new std::vector<Grammar>;
	{ PP a = chr('a'), b = chr('b'), c = chr('c'), S = ref(0);
	  std::vector<PP> alts = {node(SEQ, {a}), node(SEQ, {b}), node(SEQ, {a, c}), node(SEQ, {S, a}), node(SEQ, {S, b}), node(SEQ, {S, c, S}), node(SEQ, {S, b, a}), node(SEQ, {c, S}), node(SEQ, {S, withq(c, '?'), a}), node(SEQ, {node(GRP, {node(ALT, {node(SEQ, {S, c}), node(SEQ, {b})})}), a})};
	  int n = alts.size();
	  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) { g3->push_back({{{"S", node(ALT, {alts[i], alts[j], alts[k]})}}});
	    if (T) for (int l = 0; l < n; l++) g3->push_back({{{"S", node(ALT, {alts[i], alts[j], alts[k], alts[l]})}}}); } }
	fam("alternatives", g3);
	// three rules: expression / term / factor shapes and a cycle through three rules
	auto *g4 = new std::vector<Grammar>;
	{ PP a = chr('a'), b = chr('b'), c = chr('c'), E = ref(0), Tm = ref(1), F = ref(2);
	  auto s = [](std::vector<PP> v) { return node(SEQ, v); };
	  std::vector<PP> eb, tb, fb;
	  for (PP x : {s({E, b, Tm}), s({Tm, b}), s({Tm}), s({E, b, E}), s({F, c}), s({a, b}), s({Tm, b, E})}) eb.push_back(x);
	  for (PP x : {s({Tm, c, F}), s({F, c}), s({F}), s({E, c}), s({b}), s({Tm, c, Tm})}) tb.push_back(x);
	  for (PP x : {s({a}), s({c, E, b}), s({E, a}), s({Tm, b}), s({F, a}), s({c})}) fb.push_back(x);
	  std::vector<PP> e2, t2, f2;
	  auto two = [](std::vector<PP> &v, std::vector<PP> &o) { for (PP x : v) { o.push_back(x); for (PP y : v) if (x != y) o.push_back(node(ALT, {x, y})); } };
	  two(eb, e2); two(tb, t2); two(fb, f2);
	  for (PP x : e2) for (PP y : t2) for (PP z : f2) if (T || ((x->k == ALT) + (y->k == ALT) + (z->k == ALT) >= 2 && (g4->size() >= 0))) g4->push_back({{{"E", x}, {"T", y}, {"F", z}}}); }
	fam("three-rules", g4);
	static std::vector<LargeG> LA = largeleft(T);
	vh::families.push_back({"large", LA.size(), [](uint64_t i) { size_t n = pool().size(); { Grammar g = LA[i].g(); check(g, LA[i].in(), LA[i].rules); } while (pool().size() > n) pool().pop_back(); }, [](uint64_t i) { return LA[i].name + " " + text(LA[i].g()); }, 1});
}
int main(int c, char **v) { return vh::main(c, v, setup); }
