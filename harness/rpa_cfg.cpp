// P04: every combination of optimisation, first-character prefilter and result cache gives the same outcome; byte, UTF-8
// and UTF-16LE views of the same characters match the same characters; case-insensitive matching folds ASCII letters.
#include "vh.hpp"
#include "rpalarge.hpp"
#include <algorithm>
#include "rpaapi.hpp"
#include "rparecs.hpp"
#include "lrspec.hpp"
using namespace peg;
typedef std::vector<uint32_t> In;
static void mkinputs(std::vector<In> &o, const std::vector<uint32_t> &al, unsigned maxlen)
{
	for (uint64_t i = 0; i < vh::nstrings(al.size(), maxlen); i++) { In v; for (int c : vh::nthstring(i, al.size())) v.push_back(al[c]); o.push_back(v); }
}
static std::vector<In> abc, mod64, letters, wide, bytes;
static std::vector<std::string> longs;

static std::string outcome(rpastat_t *s, rparule_t id, unsigned enc, const std::string &in, rarray_t *recs, bool show)
{
	long m = rpa_stat_match(s, id, enc, in.data(), in.data(), in.data() + in.size());
	long e1 = rpa_stat_lasterror(s);
	r_array_setlength(recs, 0);
	long p = rpa_stat_parse(s, id, enc, in.data(), in.data(), in.data() + in.size(), recs);
	rpa_errinfo_t ei; memset(&ei, 0, sizeof ei);
	rpa_stat_lasterrorinfo(s, &ei);
	uint64_t h = 1;
	for (long i = 0; i < (long)r_array_length(recs); i++) { rparecord_t *r = rpa_record_get(recs, i); h = vh::mix(h, (r->inputoff << 24) + (r->inputsiz << 4) + r->type); h = vh::mix(h, ((uint64_t)r->ruleid << 32) + r->ruleuid); h = vh::hstr(r->rule, h); }
	char b[256]; snprintf(b, sizeof b, "match %ld error %ld parse %ld error %ld at %ld in '%s' records %ld:%016llx", m, e1, p, (long)ei.code, ei.code ? (long)ei.offset : 0L, ei.code ? ei.name : "", (long)r_array_length(recs), (unsigned long long)h);
	std::string o = b;
	if (show) o += " " + showrecs(recs);
	return o;
}
static const char *cfgname(int c) { static char b[96]; snprintf(b, sizeof b, "optimisation %d prefilter %d cache %d", c & 1, c >> 1 & 1, c >> 2 & 1); return b; }

// all 8 configurations agree; outcome is compared with the plainest one
static void invariant(const std::string &t, const std::vector<std::string> &names, const std::vector<std::string> &ins, unsigned enc)
{
	Db db[4];
	std::vector<std::vector<rparule_t>> ids(4);
	for (int c = 0; c < 4; c++) {
		if (!db[c].load(t, c & 1, c >> 1 & 1)) vh::fail("valid grammar refused with %s: %s", cfgname(c), db[c].err.c_str());
		for (auto &n : names) { rparule_t id = db[c].rule(n.c_str()); if (id < 0) vh::fail("rule %s not found", n.c_str()); ids[c].push_back(id); }
	}
	std::deque<Matcher> ms;
	for (int c = 0; c < 8; c++) { ms.emplace_back(db[c & 3].d); rpa_stat_cachedisable(ms.back().s, !(c >> 2 & 1)); }
	rarray_t *recs = rpa_records_create();
	uint64_t h = 3;
	for (auto &s : ins) for (size_t k = 0; k < names.size(); k++) {
		vh::note("rule %s input '%s'", names[k].c_str(), s.size() > 200 ? (s.substr(0, 200) + "...").c_str() : s.c_str());
		std::string ref = outcome(ms[0].s, ids[0][k], enc, s, recs, false);
		h = vh::hstr(ref, h);
		for (int c = 1; c < 8; c++) {
			std::string o = outcome(ms[c].s, ids[c & 3][k], enc, s, recs, false);
			if (o != ref) vh::fail("with %s: %s; with everything off: %s", cfgname(c), outcome(ms[c].s, ids[c & 3][k], enc, s, recs, true).c_str(), outcome(ms[0].s, ids[0][k], enc, s, recs, true).c_str());
		}
		vh::eval(8); vh::steps(8);
	}
	rpa_records_destroy(recs);
	vh::distinct(h);
}
static std::vector<std::string> enc8(const std::vector<In> &v) { std::vector<std::string> o; for (auto &i : v) o.push_back(utf8(i)); return o; }
static std::vector<std::string> names(const Grammar &g) { std::vector<std::string> o; for (auto &r : g.r) o.push_back(r.name); return o; }
struct Txt { std::string t; std::vector<std::string> names; };
static void famcfg(const std::string &name, std::vector<Txt> *cs, const std::vector<std::string> *ins, unsigned enc, unsigned chunk = 8)
{
	vh::Family f;
	f.name = name; f.count = cs->size(); f.chunk = chunk;
	f.run = [cs, ins, enc](uint64_t i) { invariant((*cs)[i].t, (*cs)[i].names, *ins, enc); };
	f.describe = [cs](uint64_t i) { return (*cs)[i].t; };
	vh::families.push_back(f);
}

// encodings: the number of characters matched is the model's, in every view of the characters
static void views(const Grammar &g, const std::vector<In> &ins, bool bytesonly, const std::vector<int> &only = {})
{
	Model m(g);
	if (m.anyleft()) return;
	std::string t = text(g);
	Db db;
	if (!db.load(t)) vh::fail("valid grammar refused: %s", db.err.c_str());
	Matcher ma(db.d);
	rarray_t *recs = rpa_records_create();
	std::vector<rparule_t> ids;
	for (auto &r : g.r) ids.push_back(db.rule(r.name.c_str()));
	uint64_t h = 5;
	for (auto &in : ins) {
		bool fits = true, ascii = true;
		for (uint32_t c : in) { fits = fits && c < 256; ascii = ascii && c < 128; }
		for (int icase = 0; icase < 2; icase++) for (size_t k = 0; k < g.r.size(); k++) {
			if (only.size() && (std::find(only.begin(), only.end(), (int)k) == only.end() || (icase && !ascii))) continue;   // large: letter case is specified for ASCII
			m.icase = icase;
			long want = m.match(k, in);
			h = vh::mix(h, want);
			for (unsigned enc : {RPA_ENCODING_UTF8, RPA_ENCODING_BYTE, RPA_ENCODING_UTF16LE}) {
				if (enc == RPA_ENCODING_BYTE && !fits) continue;
				if (bytesonly && enc != RPA_ENCODING_BYTE) continue;
				std::string s; std::vector<unsigned> offs{0};
				for (uint32_t c : in) { s += enc == RPA_ENCODING_UTF8 ? utf8({c}) : enc == RPA_ENCODING_UTF16LE ? utf16({c}) : std::string(1, (char)c); offs.push_back(s.size()); }
				unsigned e = enc | (icase ? RPA_ENCODING_ICASE : 0);
				vh::note("rule %s input '%s' encoding %s%s", g.r[k].name.c_str(), s.c_str(), enc == RPA_ENCODING_UTF8 ? "UTF-8" : enc == RPA_ENCODING_BYTE ? "byte" : "UTF-16LE", icase ? " ignoring case" : "");
				std::string exact = s;   // no terminator to lean on
				char *p = (char *)malloc(exact.size() + 1); memcpy(p, exact.data(), exact.size());
				long got = rpa_stat_match(ma.s, ids[k], e, p, p, p + exact.size());
				if (got != offs[want]) vh::fail("match gives %ld bytes, should be %u (%ld characters)", got, offs[want], want);
				r_array_setlength(recs, 0);
				got = rpa_stat_parse(ma.s, ids[k], e, p, p, p + exact.size(), recs);
				if (got != offs[want]) vh::fail("parse gives %ld bytes, should be %u (%ld characters)", got, offs[want], want);
				std::string d = diffrecs(recs, m.recs, g, std::string(), &offs);
				// diffrecs compares addresses against its text argument; compare offsets here instead
				bool ok = r_array_length(recs) == m.recs.size();
				for (size_t i = 0; ok && i < m.recs.size(); i++) { rparecord_t *r = rpa_record_get(recs, i); const Rec &w = m.recs[i]; ok = r->input == p + offs[w.off] && r->inputoff == offs[w.off] && r->inputsiz == offs[w.off + w.size] - offs[w.off] && g.r[w.rule].name == r->rule; }
				if (!ok) vh::fail("records: got %s want (in characters) %s", showrecs(recs).c_str(), showrecs(m.recs, g).c_str());
				free(p);
				vh::eval(); vh::steps(m.steps);
			}
		}
	}
	rpa_records_destroy(recs);
	vh::distinct(h);
}
static void famview(const std::string &name, std::vector<Grammar> *gs, const std::vector<In> *ins, bool bytesonly)
{
	vh::Family f;
	f.name = name; f.count = gs->size(); f.chunk = 4;
	f.run = [gs, ins, bytesonly](uint64_t i) { views((*gs)[i], *ins, bytesonly); };
	f.describe = [gs](uint64_t i) { return text((*gs)[i]); };
	vh::families.push_back(f);
}

static void setup()
{
	bool T = vh::thorough;
	vh::mem_limit = 3ull << 30;
	vh::case_timeout = 10;
	mkinputs(abc, {'a', 'b', 'c'}, T ? 4 : 3);
	mkinputs(mod64, {'a', '!', 0x161, 'b'}, 3);
	mkinputs(letters, {'a', 'A', 'z', 'Z', '[', '{', '@', '`', 0x20ac}, T ? 3 : 2);
	mkinputs(wide, {'a', 'A', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff}, T ? 3 : 2);
	mkinputs(bytes, {'a', 0x80, 0xe9, 0xff, 0x00}, 3);
	auto *iabc = new std::vector<std::string>(enc8(abc)), *imod = new std::vector<std::string>(enc8(mod64)), *ilet = new std::vector<std::string>(enc8(letters));
	PP a = chr('a'), b = chr('b'), c = chr('c');
	auto seq = [](std::vector<PP> v) { return node(SEQ, v); };
	auto add = [](std::vector<Txt> *o, const Grammar &g, const std::string &before = "", const std::string &after = "") { o->push_back({before + text(g) + after, names(g)}); };

	auto *g1 = new std::vector<Txt>;
	{ Gen *g = new Gen; g->leaves = {a, b, cls("[ab]", {{'a', 'b'}})}; for (PP x : g->upto(T ? 5 : 4)) add(g1, {{{"S", x}}}); }
	{ Gen *g = new Gen; g->leaves = {a, b}; g->maxalt = 3; g->nots = g->mins = false; for (PP x : g->orexps(T ? 6 : 5)) add(g1, {{{"S", x}}}); }
	famcfg("one-rule", g1, iabc, RPA_ENCODING_UTF8);

	auto *g2 = new std::vector<Txt>;
	{ Gen *gs = new Gen; gs->leaves = {a, ref(1)}; Gen *ga = new Gen; ga->leaves = {b, a, ref(0)};
	  for (PP x : gs->upto(3)) for (PP y : ga->upto(T ? 3 : 2)) add(g2, {{{"S", x}, {"A", y}}});
	  for (PP x : gs->orexps(4)) for (PP y : {seq({b}), node(ALT, {seq({b, b}), seq({b})})}) add(g2, {{{"S", x}, {"A", y}}}); }
	famcfg("two-rules", g2, iabc, RPA_ENCODING_UTF8);

	auto *g3 = new std::vector<Txt>;
	{ PP A = ref(1), B = ref(2), S = ref(0);
	  std::vector<PP> sb = {node(ALT, {seq({A, B, c}), seq({A, A})}), node(ALT, {seq({A, c}), seq({A, b}), seq({B})}), seq({withq(A, '*'), B}), seq({withq(A, '+'), withq(B, '?'), c}), seq({withq(node(GRP, {seq({A, B})}), '*'), A}), seq({node(NOT, {A}), B}), node(MIN, {seq({A}), seq({B, B})}), node(ALT, {seq({A, node(GRP, {node(ALT, {seq({B, c}), seq({B})})})}), seq({B})}), seq({A, withq(node(GRP, {node(ALT, {seq({b, A}), seq({B, A, c})})}), '?')}), node(ALT, {seq({S, A}), seq({B})}), node(ALT, {seq({S, A, B}), seq({S, A}), seq({A})})};
	  std::vector<PP> ab = {seq({a}), node(ALT, {seq({a, b}), seq({a})}), seq({B, a}), node(ALT, {seq({B, c}), seq({a, B})}), seq({withq(B, '?'), a}), seq({c, S, c}), node(ALT, {seq({B, B}), seq({B})}), seq({S, a}), node(ALT, {seq({b}), seq({S, c})}), node(ALT, {seq({A, B}), seq({a})})};
	  std::vector<PP> bb = {seq({b}), seq({withq(b, '+')}), node(ALT, {seq({b, A}), seq({b})}), node(ALT, {seq({b, c}), seq({a, b})}), seq({node(NOT, {a})}), node(ALT, {seq({A, c}), seq({b})}), node(ALT, {seq({B, a}), seq({S, b}), seq({b})})};
	  for (PP x : sb) for (PP y : ab) for (PP z : bb) for (const char *d : {"", "#!noemit A\n", "#!noemit B\n#!emitid S 5\n"}) add(g3, {{{"S", x}, {"A", y}, {"B", z}}}, d); }
	auto *iabc4 = new std::vector<std::string>; { std::vector<In> v; mkinputs(v, {'a', 'b', 'c'}, T ? 5 : 4); *iabc4 = enc8(v); }
	famcfg("three-rules", g3, iabc4, RPA_ENCODING_UTF8, 2);

	// left recursion (also where the tree is left unspecified: the configurations still have to agree)
	auto *g4 = new std::vector<Txt>;
	{ Gen *g = new Gen; g->leaves = {a, b, ref(0)}; for (PP x : g->upto(T ? 5 : 4)) add(g4, {{{"S", x}}}); }
	famcfg("left-recursive", g4, iabc, RPA_ENCODING_UTF8);

	// abort directives, wherever they stand
	auto *g5 = new std::vector<Txt>;
	{ Gen *gs = new Gen; gs->leaves = {a, ref(1)}; Gen *ga = new Gen; ga->leaves = {b, a};
	  for (PP x : gs->upto(3)) for (PP y : ga->upto(2)) { Grammar g{{{"S", x}, {"A", y}}}; std::string s1 = text({{{"S", x}, {"A", y}}}), l1 = s1.substr(0, s1.find('\n') + 1), l2 = s1.substr(l1.size());
	    add(g5, g, "#!abort A\n"); add(g5, g, "#!abort S\n"); add(g5, g, "#!abort A\n#!abort S\n"); add(g5, g, "", "#!abort A\n"); g5->push_back({l1 + "#!abort A\n" + l2, {"S", "A"}}); g5->push_back({l1 + "#!abort S\n" + l2, {"S", "A"}}); } }
	famcfg("abort", g5, iabc, RPA_ENCODING_UTF8);

	// characters that share a bit of the prefilter
	auto *g6 = new std::vector<Txt>;
	{ Gen *g = new Gen; g->leaves = {a, cls("[#x21]", {}), cls("[!-a]", {}), cls("[#x22-#x60]", {}), cls("[#x161]", {}), cls("[a!]", {}), cls("[#x130-#x200]", {}), cls("'\xc5\xa1'", {}), cls("[b-a]", {}), cls("[#x61#x21-#x23]", {}), cls("'!'", {}), cls("[\xc5\xa1!]", {}), any(), ref(1)};
	  for (PP x : g->upto(3)) { add(g6, {{{"S", x}, {"A", seq({cls("[#x61-#x62]", {})})}}}); if (!T) continue; add(g6, {{{"S", x}, {"A", node(ALT, {seq({cls("'!'", {})}), seq({b})})}}}); } }
	famcfg("shared-bits", g6, imod, RPA_ENCODING_UTF8);
	auto *g7 = new std::vector<Txt>;
	{ Gen *g = new Gen; g->leaves = {a, chr('Z'), cls("[A-Z]", {}), cls("[Z-a]", {}), cls("[#x5b]", {}), cls("[aZ]", {}), ref(1)}; g->nots = g->mins = false;
	  for (PP x : g->upto(3)) add(g7, {{{"S", x}, {"A", node(ALT, {seq({chr('z')}), seq({cls("[@a]", {})})})}}}); }
	famcfg("shared-bits-ignoring-case", g7, ilet, RPA_ENCODING_UTF8 | RPA_ENCODING_ICASE);

	// character classes in alternations (merged by the optimiser)
	auto *g8 = new std::vector<Txt>;
	{ std::vector<PP> lv = {a, cls("[ab]", {}), cls("[#x62-#x63]", {}), str("'ab'", {}), cls("\"c\"", {}), any(), ref(1), withq(b, '?'), withq(cls("[a]", {}), '+'), node(GRP, {seq({b})}), node(NOT, {a}), cls("[c-a]", {}), cls("<:nl:>", {})};
	  std::vector<PP> two; for (PP x : lv) for (PP y : lv) two.push_back(node(ALT, {seq({x}), seq({y})}));
	  for (PP x : lv) for (PP y : lv) for (PP z : lv) { PP al = node(ALT, {seq({x}), seq({y}), seq({z})}); add(g8, {{{"S", al}, {"A", seq({c})}, {"nl", seq({b})}}}); }
	  for (PP al : two) { PP gr = node(GRP, {al}); for (PP x : {gr, withq(gr, '*'), withq(gr, '?'), withq(gr, '+'), node(NOT, {gr})}) for (PP y : {seq({x}), seq({x, a}), node(ALT, {seq({x, c}), seq({b})}), node(MIN, {seq({x}), seq({c})}), node(MIN, {seq({any()}), seq({x})})}) add(g8, {{{"S", y}, {"A", seq({c})}, {"nl", seq({b})}}}); } }
	famcfg("alternatives-of-characters", g8, iabc, RPA_ENCODING_UTF8);

	// long inputs: more positions than cache buckets, and more records than one cache entry keeps
	auto *gl = new std::vector<Txt>;
	for (const char *t : {
		"S ::= <W> 'x' | <W> 'y' | <W>\nW ::= <A>+\nA ::= 'a' | 'b'\n",
		"S ::= <E>\nE ::= <E> 'b' <T> | <T>\nT ::= 'a'+\n",
		"S ::= (<A> <B> 'x' | <A> <B>)*\nA ::= 'a'+\nB ::= 'b'+\n",
		"S ::= (<P> 'x' | <P> 'y' | <P>)+\nP ::= <A> <B>? <A>?\nA ::= 'a'\nB ::= 'b'\n",
		"S ::= <L> 'x' | <L>\nL ::= <L> <I> | <I>\nI ::= <A> 'b' | <A>\nA ::= 'a'\n",
		"S ::= (<A> <A> <A> 'b' | <A> <A> | <A>)* <B>?\nA ::= 'a'\nB ::= 'b'+\n",
		"S ::= (^<Z>)+\nZ ::= 'b' 'b' 'a'\n",
		"S ::= (<A> - <Z>)+\nZ ::= 'a' 'a' 'b'\nA ::= [ab]\n",
		"S ::= <X> <Y>\nX ::= (<A> <A>)* \nY ::= <A>? <B>*\nA ::= 'a'\nB ::= 'b'\n",
		"S ::= (<C1> | <C2> | <C3> | <C4>)+\nC1 ::= <A> <A> <A> <B>\nC2 ::= <A> <A> <B>\nC3 ::= <A> <B>\nC4 ::= <A> | <B>\nA ::= 'a'\nB ::= 'b'\n" }) {
		Txt x; x.t = t;
		for (size_t p = 0, q; p < x.t.size(); p = q + 1) { q = x.t.find('\n', p); x.names.push_back(x.t.substr(p, x.t.find(' ', p) - p)); }
		gl->push_back(x);
	}
	std::vector<int> ns; for (int n : {1, 2, 3, 7, 20, 43, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 131, 150, 200, 255, 256, 257, 300}) ns.push_back(n);
	for (int n : ns) { if (!T && n > 270) continue; std::string as(n, 'a'), ab, aab; for (int i = 0; i < n; i++) { ab += "ab"; aab += "aab"; } longs.push_back(as); longs.push_back(as + "b"); longs.push_back(ab); longs.push_back(aab); longs.push_back(as + "bba" + as); longs.push_back(ab + "a" + as); if (n <= 64) longs.push_back(as + std::string(n, 'b')); }
	{ auto *gx = new std::vector<Txt>; // one case per (grammar, input): they are slow
	  vh::Family f; f.name = "long-inputs"; f.count = gl->size() * longs.size(); f.chunk = 2;
	  f.run = [gl](uint64_t i) { const Txt &x = (*gl)[i % gl->size()]; invariant(x.t, x.names, {longs[i / gl->size()]}, RPA_ENCODING_UTF8); };
	  f.describe = [gl](uint64_t i) { const std::string &s = longs[i / gl->size()]; return (*gl)[i % gl->size()].t + " input " + s; };
	  vh::families.push_back(f); (void)gx; }

	auto *v1 = new std::vector<Grammar>;
	{ Gen *g = new Gen; g->leaves = {a, chr('Z'), cls("[A-Z]", {{'A', 'Z'}}), cls("[Z-a]", {{'Z', 'a'}}), cls("[`\xe2\x82\xac]", {{'`', '`'}, {0x20ac, 0x20ac}}), cls("[#x5b]", {{0x5b, 0x5b}}), str("'aZ'", {'a', 'Z'}), any(), ref(1)};
	  for (PP x : g->upto(T ? 4 : 3)) v1->push_back({{{"S", x}, {"A", node(ALT, {seq({chr('z')}), seq({chr('a'), chr('[')})})}}}); }
	famview("encodings-letters", v1, &letters, false);
	auto *v2 = new std::vector<Grammar>;
	{ Gen *g = new Gen; g->leaves = {a, cls("[#x80-#x7ff]", {{0x80, 0x7ff}}), cls("[#x800]", {{0x800, 0x800}}), cls("'\xf0\x90\x80\x80'", {{0x10000, 0x10000}}), cls("[\xef\xbf\xbf-\xf4\x8f\xbf\xbf]", {{0xffff, 0x10ffff}}), any(), ref(1)}; g->leaves[3] = chr(0x10000, "'\xf0\x90\x80\x80'");
	  for (PP x : g->upto(T ? 4 : 3)) v2->push_back({{{"S", x}, {"A", seq({cls("[#x7f-#x80]", {{0x7f, 0x80}})})}}}); }
	famview("encodings-wide", v2, &wide, false);
	auto *v3 = new std::vector<Grammar>;
	{ Gen *g = new Gen; g->leaves = {a, cls("[#x80-#xff]", {{0x80, 0xff}}), chr(0xe9, "'\xc3\xa9'"), cls("[#x0]", {{0, 0}}), any()}; g->leaves[3] = cls("[#xff]", {{255, 255}});
	  for (PP x : g->upto(T ? 4 : 3)) v3->push_back({{{"S", x}}}); }
	famview("encodings-bytes", v3, &bytes, false);
	// ranges of every width around the size of a bitmap, written as characters and as numbers, in places where something is looked up first
	struct RW { uint32_t lo, hi; bool num; int form; };
	auto *rw = new std::vector<RW>;
	{ std::vector<uint32_t> ws; for (uint32_t w = 0; w < (T ? 140 : 70); w++) ws.push_back(w); for (uint32_t w : {126, 127, 128, 129, 191, 192, 255, 256}) ws.push_back(w);
	  for (uint32_t lo : {0x21u, 0x3fu, 0x40u, 0x61u, 0xe9u, 0x7c0u}) for (uint32_t w : ws) for (int num = 0; num < 2; num++) for (int form = 0; form < 3; form++) {
		uint32_t hi = lo + w; if (!num && (hi == ']' || hi == '\\' || hi == '-' || hi == '#' || hi == '[' || (hi >= 0x7f && hi < 0xa0))) continue;
		rw->push_back({lo, hi, !!num, form}); } }
	vh::families.push_back({"range-widths", rw->size(), [rw, seq](uint64_t i) {
		const RW &r = (*rw)[i]; std::string c;
		if (r.num) c = vh::fmt("[#x%x-#x%x]", r.lo, r.hi); else c = "[" + enc8({In{r.lo}})[0] + "-" + enc8({In{r.hi}})[0] + "]";
		std::string t = r.form == 0 ? "S ::= " + c + "\n" : r.form == 1 ? "S ::= " + c + " | <A>\nA ::= [#x1] 'x'\n" : "S ::= (<A> | <B> 'x')+\nA ::= " + c + " " + c + "\nB ::= " + c + "+\n";
		std::vector<In> in; for (uint32_t x = r.lo - 1; x <= r.hi + 1; x++) { in.push_back({x}); if (r.form == 2) { in.push_back({x, r.hi}); in.push_back({r.hi, r.hi, x, 'x'}); } }
		std::vector<std::string> nm{"S"}; if (r.form) nm.push_back("A"); if (r.form == 2) nm.push_back("B");
		invariant(t, nm, enc8(in), RPA_ENCODING_UTF8);
		if (r.form == 0 && (r.hi < 0xb0 || r.lo >= 0x700)) { size_t n = pool().size(); Grammar g{{{"S", seq({cls(c.c_str(), std::vector<std::pair<uint32_t, uint32_t>>{{r.lo, r.hi}})})}}}; views(g, in, false); while (pool().size() > n) pool().pop_back(); }
	  }, [rw](uint64_t i) { const RW &r = (*rw)[i]; return vh::fmt("a class with the range 0x%x-0x%x%s, form %d", r.lo, r.hi, r.num ? " (numbers)" : "", r.form); }, 2});
	static std::vector<LargeG> LA = largegrammars(T);
	vh::families.push_back({"large", LA.size() * 2, [](uint64_t i) {
		size_t n = pool().size();
		{ const LargeG &l = LA[i / 2]; Grammar g = l.g(); std::vector<In> in = l.in(), some; for (size_t k = 0; k < in.size(); k += in.size() > 200 ? in.size() / 100 : 1) some.push_back(in[k]);
		  if (i & 1) views(g, some, false, l.rules); else { std::vector<std::string> nm; for (int r : l.rules) nm.push_back(g.r[r].name); invariant(text(g), nm, enc8(some), RPA_ENCODING_UTF8); } }
		while (pool().size() > n) pool().pop_back(); }, [](uint64_t i) { return LA[i / 2].name + (i & 1 ? " in all encodings " : " in all configurations ") + text(LA[i / 2].g()); }, 1});
}
int main(int c, char **v) { return vh::main(c, v, setup); }
