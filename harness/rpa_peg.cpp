// P01: every small grammar x every short input against the parsing-expression reference evaluator.
#include "vh.hpp"
#include "rpaapi.hpp"
#include "rpalarge.hpp"
using namespace peg;

static std::vector<std::vector<uint32_t>> inputs;
static void mkinputs(const std::vector<uint32_t> &al, unsigned maxlen)
{
	for (uint64_t i = 0; i < vh::nstrings(al.size(), maxlen); i++) { std::vector<uint32_t> v; for (int c : vh::nthstring(i, al.size())) v.push_back(al[c]); inputs.push_back(v); }
}

static void check(const Grammar &g, const std::vector<std::vector<uint32_t>> &ins, const std::vector<int> &only = {})
{
	Model m(g);
	if (m.anyleft()) return;      // P02's subject
	std::string t = text(g);
	Db db;
	if (!db.load(t)) vh::fail("valid grammar refused: %s", db.err.c_str());
	Matcher ma(db.d);
	uint64_t h = 7;
	std::vector<rparule_t> ids;
	for (auto &r : g.r) ids.push_back(db.rule(r.name.c_str()));
	rarray_t *recs = rpa_records_create();
	for (auto &in : ins) {
		std::string s = utf8(in);
		for (size_t k = 0; k < g.r.size(); k++) {
			if (only.size() && std::find(only.begin(), only.end(), (int)k) == only.end()) continue;
			int want = m.match(k, in);
			vh::note("rule %s input '%s'", g.r[k].name.c_str(), s.c_str());
			long got = ma.match(ids[k], s);
			long wb = utf8(std::vector<uint32_t>(in.begin(), in.begin() + want)).size();
			if (got != wb) vh::fail("match gives %ld, parsing expression gives %ld", got, wb);
			vh::eval(); vh::steps(m.steps);
			h = vh::mix(h, want);
			r_array_setlength(recs, 0);
			long gp = rpa_stat_parse(ma.s, ids[k], RPA_ENCODING_UTF8, s.data(), s.data(), s.data() + s.size(), recs);
			if (gp != wb) vh::fail("parse gives %ld, parsing expression gives %ld", gp, wb);
			if (wb == 0 && r_array_length(recs)) vh::fail("failed parse leaves %ld records", (long)r_array_length(recs));
		}
	}
	rpa_records_destroy(recs);
	vh::distinct(h);
}

static void fam(const std::string &name, std::vector<Grammar> *gs, unsigned chunk = 16)
{
	vh::Family f;
	f.name = name; f.count = gs->size(); f.chunk = chunk;
	f.run = [gs](uint64_t i) { check((*gs)[i], inputs); };
	f.describe = [gs](uint64_t i) { return text((*gs)[i]); };
	vh::families.push_back(f);
}

static void setup()
{
	bool T = vh::thorough;
	mkinputs({'a', 'b', 'c'}, T ? 5 : 4);
	vh::mem_limit = 3ull << 30;
	vh::case_timeout = 4;
	// one rule, every expression
	auto *g1 = new std::vector<Grammar>;
	{ Gen *g = new Gen; g->leaves = {chr('a'), chr('b'), any(), cls("[ab]", {{'a', 'b'}})};
	  for (PP x : g->upto(T ? 5 : 4)) g1->push_back({{{"S", x}}}); }
	{ Gen *g = new Gen; g->leaves = {chr('a'), chr('b')}; g->maxalt = 3;
	  for (PP x : g->orexps(T ? 6 : 5)) g1->push_back({{{"S", x}}}); }
	fam("one-rule", g1);
	// strings, escapes, numeric classes
	auto *g2 = new std::vector<Grammar>;
	{ Gen *g = new Gen; g->leaves = {str("'ab'", {'a', 'b'}), str("\"ba\"", {'b', 'a'}), cls("[#x61]", {{'a', 'a'}}), cls("[#x62-#x63]", {{'b', 'c'}}), cls("[#97-#98]", {{'a', 'b'}}), cls("[c-b]", {{'b', 'c'}}), cls("[#x62-#x61]", {{'a', 'b'}}), cls("[#99-#98]", {{'b', 'c'}}), cls("[ac]", {{'a', 'a'}, {'c', 'c'}})};
	  for (PP x : g->upto(T ? 4 : 3)) g2->push_back({{{"S", x}}}); }
	fam("leaf-forms", g2);
	// two rules: S calls A (anywhere), A is any small expression (it may call S or itself behind something)
	auto *g3 = new std::vector<Grammar>;
	{ Gen *gs = new Gen; gs->leaves = {chr('a'), ref(1)}; Gen *ga = new Gen; ga->leaves = {chr('b'), chr('a'), ref(0)};
	  for (PP x : gs->upto(T ? 4 : 3)) for (PP y : ga->upto(3)) g3->push_back({{{"S", x}, {"A", y}}});
	  if (!T) for (PP x : gs->orexps(4)) for (PP y : ga->upto(2)) g3->push_back({{{"S", x}, {"A", y}}}); }
	fam("two-rules", g3);
	// recursion: S and A each refer to both, behind a consuming prefix or in brackets
	auto *g4 = new std::vector<Grammar>;
	{ Gen *gs = new Gen; gs->leaves = {chr('a'), chr('b'), ref(0)}; gs->nots = false; gs->mins = false;
	  for (PP x : gs->upto(T ? 6 : 5)) g4->push_back({{{"S", x}}}); }
	fam("recursive", g4);
	static std::vector<LargeG> LA = largegrammars(T);
	vh::families.push_back({"large", LA.size(), [](uint64_t i) { size_t n = pool().size(); { Grammar g = LA[i].g(); check(g, LA[i].in(), LA[i].rules); } while (pool().size() > n) pool().pop_back(); }, [](uint64_t i) { return LA[i].name + " " + text(LA[i].g()); }, 1});
}
int main(int c, char **v) { return vh::main(c, v, setup); }
