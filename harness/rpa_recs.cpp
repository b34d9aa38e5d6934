// P03: parse records against the derivation of the reference evaluator under every emission setting, and tree navigation
// against an explicit tree.
#include "vh.hpp"
#include "rpalarge.hpp"
#include <algorithm>
#include "rpaapi.hpp"
#include "rparecs.hpp"
#include "lrspec.hpp"
using namespace peg;

typedef std::vector<uint32_t> In;
static std::vector<In> inputs, wide;
static void mkinputs(std::vector<In> &o, const std::vector<uint32_t> &al, unsigned maxlen)
{
	for (uint64_t i = 0; i < vh::nstrings(al.size(), maxlen); i++) { In v; for (int c : vh::nthstring(i, al.size())) v.push_back(al[c]); o.push_back(v); }
}
// byte offset of every character boundary
static std::vector<unsigned> offsets(const In &v, bool u16) { std::vector<unsigned> o{0}; for (uint32_t c : v) o.push_back(o.back() + (u16 ? utf16({c}) : utf8({c})).size()); return o; }

// ---- navigation ---------------------------------------------------------------------------------------------------
struct Node { long start, end; int parent; std::vector<int> kids; };
static std::string wantnav(long got, long want, const char *fn, long rec, unsigned type) { char b[160]; snprintf(b, sizeof b, "%s(%ld, %s) = %ld, the tree says %ld", fn, rec, type == RPA_RECORD_START ? "START" : "END", got, want); return b; }
struct Walk { std::vector<long> seen; };
static long onwalk(rarray_t *, long rec, rpointer u) { ((Walk *)u)->seen.push_back(rec); return 0; }

static void navigate(rarray_t *recs)
{
	long n = r_array_length(recs);
	std::vector<Node> t; std::vector<int> of(n, -1), stack, roots;
	for (long i = 0; i < n; i++) {
		rparecord_t *r = rpa_record_get(recs, i);
		if (r->type == RPA_RECORD_START) { int p = stack.empty() ? -1 : stack.back(); t.push_back({i, -1, p, {}}); int k = t.size() - 1; (p < 0 ? roots : t[p].kids).push_back(k); stack.push_back(k); of[i] = k; }
		else if (r->type == RPA_RECORD_END) { if (stack.empty()) vh::fail("end record %ld closes nothing", i); t[stack.back()].end = i; of[i] = stack.back(); stack.pop_back(); }
		else vh::fail("record %ld has type %u", i, r->type);
	}
	if (stack.size()) vh::fail("%zu start records are never closed", stack.size());
	rarray_t *copy = rpa_records_create();
	for (long i = 0; i < n; i++) {
		const Node &d = t[of[i]];
		const std::vector<int> &sib = d.parent < 0 ? roots : t[d.parent].kids;
		int pos = 0; while (sib[pos] != of[i]) pos++;
		for (unsigned ty : {RPA_RECORD_START, RPA_RECORD_END}) {
			auto pick = [&](int k) { return k < 0 ? -1L : ty == RPA_RECORD_START ? t[k].start : t[k].end; };
			long g, w;
#define NAV(fn, k) g = fn(recs, i, ty); w = pick(k); if (g != w) vh::fail("%s", wantnav(g, w, #fn, i, ty).c_str());
			NAV(rpa_recordtree_get, of[i])
			NAV(rpa_recordtree_firstchild, d.kids.empty() ? -1 : d.kids.front())
			NAV(rpa_recordtree_lastchild, d.kids.empty() ? -1 : d.kids.back())
			NAV(rpa_recordtree_next, pos + 1 < (int)sib.size() ? sib[pos + 1] : -1)
			NAV(rpa_recordtree_prev, pos > 0 ? sib[pos - 1] : -1)
			NAV(rpa_recordtree_parent, d.parent)
		}
		long size = d.end - d.start + 1;
		if (rpa_recordtree_size(recs, i) != size) vh::fail("size of the branch at %ld is %ld, should be %ld", i, rpa_recordtree_size(recs, i), size);
		r_array_setlength(copy, 0);
		long c = rpa_recordtree_copy(copy, recs, i);
		if (c != size || (long)r_array_length(copy) != size) vh::fail("copy of the branch at %ld has %ld records (returned %ld), should have %ld", i, (long)r_array_length(copy), c, size);
		for (long k = 0; k < size; k++) if (memcmp(rpa_record_get(copy, k), rpa_record_get(recs, d.start + k), sizeof(rparecord_t))) vh::fail("record %ld of the copy of the branch at %ld is not record %ld of the tree", k, i, d.start + k);
		Walk w;
		int depth = 0; std::function<int(int)> height = [&](int k) { int h = 0; for (int c : t[k].kids) h = std::max(h, height(c)); return h + 1; };
		depth = height(of[i]);
		long r = rpa_recordtree_walk(recs, i, 0, onwalk, &w);
		if (depth <= 128) {
			if (r < 0) vh::fail("walk of the branch at %ld refused", i);
			if ((long)w.seen.size() != size) vh::fail("walk of the branch at %ld visits %zu records of %ld", i, w.seen.size(), size);
			for (long k = 0; k < size; k++) if (w.seen[k] != d.start + k) vh::fail("walk of the branch at %ld visits record %ld as number %ld", i, w.seen[k], k);
		} else if (r >= 0 && (long)w.seen.size() != size) vh::fail("walk of the branch at %ld stops early without an error", i);
		rpa_record_setusertype(recs, i, 0x40, RVALSET_OR);
		for (long k = 0; k < n; k++) if (rpa_record_get(recs, k)->usertype != (k == d.start || k == d.end ? 0x40u : 0u)) vh::fail("user type of branch %ld shows at record %ld", i, k);
		if (rpa_record_getusertype(recs, i) != 0x40) vh::fail("user type of branch %ld reads back as %ld", i, rpa_record_getusertype(recs, i));
		rpa_record_setusertype(recs, i, 0, RVALSET_AND);
		if (rpa_record_getruleuid(recs, i) != (long)rpa_record_get(recs, d.start)->ruleuid) vh::fail("rule uid of branch %ld", i);
	}
	for (long bad : {-1L, n, n + 5}) {
		if (rpa_recordtree_get(recs, bad, RPA_RECORD_START) != -1 || rpa_recordtree_firstchild(recs, bad, RPA_RECORD_START) != -1 || rpa_recordtree_lastchild(recs, bad, RPA_RECORD_START) != -1 || rpa_recordtree_next(recs, bad, RPA_RECORD_START) != -1 ||
		    rpa_recordtree_prev(recs, bad, RPA_RECORD_START) != -1 || rpa_recordtree_parent(recs, bad, RPA_RECORD_START) != -1 || rpa_recordtree_size(recs, bad) != -1 || rpa_record_get(recs, bad) || rpa_records_slot(recs, bad)) vh::fail("record %ld of %ld is not refused", bad, n);
	}
	if (rpa_records_length(recs) != n) vh::fail("length");
	rpa_records_destroy(copy);
	vh::eval(n * 14);
}

// ---- records of a parse -------------------------------------------------------------------------------------------
struct Case { Grammar g; std::string before, after; bool trees = true; };   // directive lines before and after the rules
static std::string full(const Case &c) { return c.before + text(c.g) + c.after; }

static void check(const Case &c, const std::vector<In> &ins, bool nav, const std::vector<int> &only = {})
{
	const Grammar &g = c.g;
	Model m(g);
	bool spec = m.anyleft() ? lrspecified(m) : true;
	if (!spec) return;
	Db db;
	if (!db.load(full(c))) vh::fail("valid grammar refused: %s", db.err.c_str());
	Matcher ma(db.d);
	uint64_t h = 7;
	std::vector<rparule_t> ids;
	for (auto &r : g.r) ids.push_back(db.rule(r.name.c_str()));
	rarray_t *recs = rpa_records_create();
	for (auto &in : ins) {
		std::string s = utf8(in);
		std::vector<unsigned> offs = offsets(in, false);
		for (size_t k = 0; k < g.r.size(); k++) {
			if (only.size() && std::find(only.begin(), only.end(), (int)k) == only.end()) continue;
			long want = m.match(k, in);
			if (m.unspecified) continue;
			long wb = offs[want];
			vh::note("rule %s input '%s'", g.r[k].name.c_str(), s.c_str());
			r_array_setlength(recs, 0);
			long got = rpa_stat_parse(ma.s, ids[k], RPA_ENCODING_UTF8, s.data(), s.data(), s.data() + s.size(), recs);
			vh::eval(); vh::steps(m.steps);
			if (got != wb) vh::fail("parse gives %ld, the parsing expression gives %ld", got, wb);
			if (!c.trees) continue;
			std::string d = diffrecs(recs, m.recs, g, s, &offs);
			if (d.size()) vh::fail("records: %s", d.c_str());
			for (long i = 0; i < (long)r_array_length(recs); i++) {
				rparecord_t *r = rpa_record_get(recs, i);
				if (r->ruleid != (ruint32)ids[m.recs[i].rule]) vh::fail("record %ld has rule id %u, the rule's is %ld", i, r->ruleid, (long)ids[m.recs[i].rule]);
				if (r->usertype || r->userdata) vh::fail("record %ld starts with user type %u and user data %lu", i, r->usertype, (unsigned long)r->userdata);
				h = vh::mix(h, (r->inputoff << 20) + (r->inputsiz << 4) + r->type); h = vh::hstr(r->rule, h);
			}
			if (nav) navigate(recs);
			// parsing from inside the buffer, and into an array that already holds records
			if (in.size() >= 2 && m.recs.size()) {
				std::string pre = "\xc3\xa9x", s2 = pre + s;
				r_array_setlength(recs, 0);
				rparecord_t z; memset(&z, 0x5a, sizeof z);
				r_array_add(recs, &z); r_array_add(recs, &z);
				long g2 = rpa_stat_parse(ma.s, ids[k], RPA_ENCODING_UTF8, s2.data() + pre.size(), s2.data(), s2.data() + s2.size(), recs);
				if (g2 != wb) vh::fail("parse from inside a buffer gives %ld, should be %ld", g2, wb);
				if (r_array_length(recs) != m.recs.size() + 2) vh::fail("parse into an array of 2 records leaves %ld, should be %zu", (long)r_array_length(recs), m.recs.size() + 2);
				if (memcmp(rpa_record_get(recs, 0), &z, sizeof z) || memcmp(rpa_record_get(recs, 1), &z, sizeof z)) vh::fail("parse overwrites earlier records");
				for (size_t i = 0; i < m.recs.size(); i++) {
					rparecord_t *r = rpa_record_get(recs, i + 2); const Rec &w = m.recs[i];
					if (g.r[w.rule].name != r->rule || (r->type == RPA_RECORD_START) != w.start || r->inputoff != pre.size() + offs[w.off] || r->input != s2.data() + pre.size() + offs[w.off] || r->inputsiz != offs[w.off + w.size] - offs[w.off]) vh::fail("record %zu after earlier records is wrong: %s", i, showrecs(recs).c_str());
				}
				vh::eval();
			}
		}
	}
	rpa_records_destroy(recs);
	vh::distinct(h);
}
static void fam(const std::string &name, std::vector<Case> *cs, const std::vector<In> *ins, bool nav, unsigned chunk = 16)
{
	vh::Family f;
	f.name = name; f.count = cs->size(); f.chunk = chunk;
	f.run = [cs, ins, nav](uint64_t i) { check((*cs)[i], *ins, nav); };
	f.describe = [cs](uint64_t i) { return full((*cs)[i]); };
	vh::families.push_back(f);
}
// every way to silence or number the rules, by directives in front of the rules
static void settings(const Grammar &g, std::vector<Case> *out, bool uids)
{
	int n = g.r.size(), base = uids ? 3 : 2, tot = 1;
	for (int i = 0; i < n; i++) tot *= base;
	for (int k = 0; k < tot; k++) {
		Case c; c.g = g; int v = k; std::string d, e;
		int off = 0;
		for (int i = 0; i < n; i++, v /= base) {
			int w = v % base;
			if (w == 1) { c.g.r[i].emit = false; d += "#!noemit " + g.r[i].name + "\n"; off++; }
			if (w == 2) { c.g.r[i].uid = 7 + i; d += "#!emitid " + g.r[i].name + " " + std::to_string(7 + i) + "\n"; }
		}
		c.before = d;
		out->push_back(c);
		if (!uids && off) { // the same setting stated the other way round
			d = "#!emitnone\n";
			for (int i = 0; i < n; i++) if (c.g.r[i].emit) d += "#!emit " + g.r[i].name + "\n";
			c.before = d; out->push_back(c);
		}
	}
}

// all forests with n nodes, as bracket strings
static void forests(int n, std::vector<std::string> &out)
{
	std::function<void(std::string, int, int)> rec = [&](std::string s, int open, int left) {
		if (!open && !left) { out.push_back(s); return; }
		if (left) rec(s + "(", open + 1, left - 1);
		if (open) rec(s + ")", open - 1, left);
	};
	rec("", 0, n);
}
static void navforest(const std::string &s)
{
	rarray_t *recs = rpa_records_create();
	long n = 0;
	for (char ch : s) { rparecord_t r; memset(&r, 0, sizeof r); r.type = ch == '(' ? RPA_RECORD_START : RPA_RECORD_END; r.rule = "x"; r.top = n++; r.ruleuid = n; r_array_add(recs, &r); }
	if (s.size() > 2) for (long k = 0; k < n; k++) { // moving a block of records
		rarray_t *c = rpa_records_create();
		for (long i = 0; i < n; i++) r_array_add(c, r_array_slot(recs, i));
		for (long dst = 0; dst < n; dst++) {
			long size = 2;
			if (k + size > n) break;
			for (long i = 0; i < n; i++) *rpa_record_get(c, i) = *rpa_record_get(recs, i);
			int r = rpa_recordtree_move(c, dst, k, size);
			if ((r < 0) != (dst + size > n)) vh::fail("move of %ld records from %ld to %ld returns %d", size, k, dst, r);
			for (long i = 0; i < n; i++) { long src = r == 0 && i >= dst && i < dst + size ? k + i - dst : i; if (rpa_record_get(c, i)->top != (ruint32)src) vh::fail("move of %ld records from %ld to %ld puts %u at %ld", size, k, dst, rpa_record_get(c, i)->top, i); }
			vh::eval();
		}
		rpa_records_destroy(c);
	}
	navigate(recs);
	rpa_records_destroy(recs);
	vh::distinct(vh::hstr(s));
}

static void setup()
{
	bool T = vh::thorough;
	mkinputs(inputs, {'a', 'b', 'c'}, T ? 5 : 4);
	mkinputs(wide, {0xe9, 0x20ac, 0x1f600, 'a'}, T ? 4 : 3);
	vh::mem_limit = 3ull << 30;
	vh::case_timeout = 4;
	PP a = chr('a'), b = chr('b'), c = chr('c');
	auto seq = [](std::vector<PP> v) { return node(SEQ, v); };
	// S calls A in every position, A calls S behind something: every expression shape, every emission setting
	auto *e2 = new std::vector<Case>;
	{ Gen *gs = new Gen; gs->leaves = {a, ref(1)}; Gen *ga = new Gen; ga->leaves = {b, ref(0)};
	  for (PP x : gs->upto(T ? 4 : 3)) for (PP y : ga->upto(T ? 3 : 2)) settings({{{"S", x}, {"A", y}}}, e2, false);
	  for (PP x : gs->orexps(4)) settings({{{"S", x}, {"A", seq({b})}}}, e2, false);
	  if (!T) for (PP x : gs->upto(2)) for (PP y : ga->orexps(3)) settings({{{"S", x}, {"A", y}}}, e2, false); }
	fam("emission", e2, &inputs, false);
	// one left-recursive cycle, every emission setting
	auto *el = new std::vector<Case>;
	{ Gen *gs = new Gen; gs->leaves = {a, ref(0), ref(1)}; gs->nots = gs->mins = false; gs->quants = "?+";
	  std::vector<PP> as = {seq({b}), seq({b, b}), node(ALT, {seq({b, c}), seq({b})}), seq({ref(0), b}), node(ALT, {seq({ref(0), b}), seq({b})}), node(ALT, {seq({b}), seq({ref(0), c})}), node(ALT, {seq({ref(1), b}), seq({b})}), seq({ref(0)}), node(ALT, {seq({ref(0)}), seq({c})})};
	  for (PP x : gs->upto(T ? 5 : 4)) for (PP y : as) { Grammar g{{{"S", x}, {"A", y}}}; Model m(g); if (m.anyleft() && lrspecified(m)) settings(g, el, false); } }
	fam("left-recursive-emission", el, &inputs, false);
	// three rules: abandoned alternatives at every depth, with numbered rules
	auto *e3 = new std::vector<Case>;
	{ PP A = ref(1), B = ref(2), S = ref(0);
	  std::vector<PP> sb = {node(ALT, {seq({A, B, c}), seq({A, A})}), node(ALT, {seq({A, c}), seq({A, b}), seq({B})}), seq({withq(A, '*'), B}), seq({withq(A, '+'), withq(B, '?'), c}), seq({withq(node(GRP, {seq({A, B})}), '*'), A}), seq({node(NOT, {A}), B}), node(MIN, {seq({A}), seq({B, B})}), node(ALT, {seq({A, node(GRP, {node(ALT, {seq({B, c}), seq({B})})})}), seq({B})}), seq({A, withq(node(GRP, {node(ALT, {seq({b, A}), seq({B, A, c})})}), '?')}), node(ALT, {seq({S, A}), seq({B})}), node(ALT, {seq({S, A, B}), seq({S, A}), seq({A})})};
	  std::vector<PP> ab = {seq({a}), node(ALT, {seq({a, b}), seq({a})}), seq({B, a}), node(ALT, {seq({B, c}), seq({a, B})}), seq({withq(B, '?'), a}), seq({c, S, c}), node(ALT, {seq({B, B}), seq({B})})};
	  std::vector<PP> bb = {seq({b}), seq({withq(b, '+')}), node(ALT, {seq({b, A}), seq({b})}), node(ALT, {seq({b, c}), seq({a, b})}), seq({node(NOT, {a})})};
	  for (PP x : sb) for (PP y : ab) for (PP z : bb) settings({{{"S", x}, {"A", y}, {"B", z}}}, e3, true); }
	fam("three-rules", e3, &inputs, false);
	// every short list of directives, in front of the rules (the last one that names a rule decides), and after them
	auto *ed = new std::vector<Case>;
	{ std::vector<std::string> dirs = {"#!noemit S\n", "#!emit S\n", "#!noemit A\n", "#!emit A\n", "#!emitall\n", "#!emitnone\n", "#!emitid S 3\n", "#!emitid A ALIAS 65535\n", "#!emitid A 1\n"};
	  PP A = ref(1);
	  std::vector<Grammar> gs = {{{{"S", seq({A, b})}, {"A", seq({a})}}}, {{{"S", node(ALT, {seq({A, b, c}), seq({A, A})})}, {"A", node(ALT, {seq({a, b}), seq({a})})}}}, {{{"S", node(ALT, {seq({ref(0), A}), seq({b})})}, {"A", seq({a})}}}};
	  for (auto &g : gs) for (uint64_t i = 0; i < vh::nstrings(dirs.size(), T ? 4 : 3); i++) {
		Case cc; cc.g = g;
		for (int d : vh::nthstring(i, dirs.size())) {
			cc.before += dirs[d];
			Rule &S = cc.g.r[0], &Ar = cc.g.r[1];
			switch (d) { case 0: S.emit = false; break; case 1: S.emit = true; break; case 2: Ar.emit = false; break; case 3: Ar.emit = true; break; case 4: S.emit = Ar.emit = true; break; case 5: S.emit = Ar.emit = false; break;
				case 6: S.emit = true; S.uid = 3; break; case 7: Ar.emit = true; Ar.uid = 65535; break; case 8: Ar.emit = true; Ar.uid = 1; break; }
		}
		ed->push_back(cc);
		Case ca = cc; ca.g = g; std::swap(ca.before, ca.after); ca.trees = false; ed->push_back(ca);
	  } }
	fam("directive-lists", ed, &inputs, false);
	// characters of every width
	auto *ew = new std::vector<Case>;
	{ PP e = chr(0xe9, "'\xc3\xa9'"), u = cls("[\xe2\x82\xac]", {{0x20ac, 0x20ac}}), z = cls("[#x1f600]", {{0x1f600, 0x1f600}}), A = ref(1);
	  Gen *gs = new Gen; gs->leaves = {e, A}; for (PP x : gs->upto(3)) for (PP y : {seq({u}), node(ALT, {seq({u, z}), seq({u})}), seq({withq(z, '+')}), seq({any(), z})}) settings({{{"S", x}, {"A", y}}}, ew, false); }
	fam("wide-characters", ew, &wide, false);
	// navigation on the records of real parses and on every small forest
	auto *en = new std::vector<Case>;
	for (size_t i = 0; i < e3->size(); i += 27) en->push_back((*e3)[i]);
	for (size_t i = 0; i < el->size(); i++) { bool all = true; for (auto &r : (*el)[i].g.r) all = all && r.emit; if (all && i % 4 == 0) en->push_back((*el)[i]); }
	fam("parse-navigation", en, &inputs, true, 2);
	// many records: lengths on both sides of every size at which remembered results are kept, dropped or share a place
	{ auto *lg = new std::vector<Case>;
	  PP A = ref(1), B = ref(2);
	  std::vector<PP> sb = {node(ALT, {seq({A, c}), seq({A, b})}), node(ALT, {seq({B, A, c}), seq({B, A})}), node(ALT, {seq({A, A}), seq({A, withq(b, '?')})}), node(ALT, {seq({node(NOT, {seq({A, c})}), c}), seq({A, b})})};
	  std::vector<PP> ab = {seq({withq(B, '+')}), node(ALT, {seq({B, A}), seq({B})}), seq({B, withq(A, '?')}), seq({withq(node(GRP, {seq({B, withq(b, '?')})}), '*')})};
	  for (PP x : sb) for (PP y : ab) { Grammar g{{{"S", x}, {"A", y}, {"B", seq({a})}}}; Case cc; cc.g = g; lg->push_back(cc); cc.g.r[1].emit = false; cc.before = "#!noemit A\n"; lg->push_back(cc); }
	  unsigned L = T ? 300 : 140;
	  auto text = [L](uint64_t i) { unsigned n = i % L + 1; In v; for (unsigned k = 0; k < n; k++) v.push_back('a'); switch (i / L) { case 1: v.push_back('b'); break; case 2: v.push_back('c'); break; } return v; };
	  vh::Family f; f.name = "many-records"; f.count = lg->size() * L * 3; f.chunk = 35;
	  f.run = [lg, L, text](uint64_t i) { check((*lg)[i / (L * 3)], {text(i % (L * 3))}, false); };
	  f.describe = [lg, L, text](uint64_t i) { return full((*lg)[i / (L * 3)]) + "with " + utf8(text(i % (L * 3))); };
	  vh::families.push_back(f); }
	auto *fs = new std::vector<std::string>;
	for (int n = 0; n <= (T ? 10 : 8); n++) forests(n, *fs);
	for (int d : {20, 127, 128, 129, 130, 200}) { fs->push_back(std::string(d, '(') + std::string(d, ')')); fs->push_back("()" + std::string(d, '(') + "()" + std::string(d, ')') + "()"); }
	vh::Family f; f.name = "forests"; f.count = fs->size(); f.chunk = 4; f.run = [fs](uint64_t i) { navforest((*fs)[i]); }; f.describe = [fs](uint64_t i) { return (*fs)[i]; };
	vh::families.push_back(f);
	static std::vector<LargeG> LA = largegrammars(T);
	vh::families.push_back({"large", LA.size(), [](uint64_t i) { size_t n = pool().size(); { Case c; c.g = LA[i].g(); c.trees = true; check(c, LA[i].in(), false, LA[i].rules); } while (pool().size() > n) pool().pop_back(); }, [](uint64_t i) { return LA[i].name + " " + text(LA[i].g()); }, 1});
}
int main(int c, char **v) { return vh::main(c, v, setup); }
