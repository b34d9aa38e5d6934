// P06: no call influences a later one, and scanning finds the leftmost match.
#include "vh.hpp"
#include "rpaapi.hpp"
#include "rparecs.hpp"
#include "rlib/rutf.h"
using namespace peg;
typedef std::vector<uint32_t> In;
static void mkinputs(std::vector<In> &o, const std::vector<uint32_t> &al, unsigned maxlen) { for (uint64_t i = 0; i < vh::nstrings(al.size(), maxlen); i++) { In v; for (int c : vh::nthstring(i, al.size())) v.push_back(al[c]); o.push_back(v); } }
static std::string view(const In &in, unsigned enc) { std::string s; for (uint32_t c : in) s += (enc & RPA_ENCODING_MASK) == RPA_ENCODING_UTF8 ? utf8({c}) : (enc & RPA_ENCODING_MASK) == RPA_ENCODING_UTF16LE ? utf16({c}) : std::string(1, (char)c); return s; }

// ---- scanning: the model says where the leftmost match is, in every view of the characters and from every position
static std::vector<In> sins, wins;
static void scans(const Grammar &g, const std::vector<In> &ins)
{
	Model m(g); if (m.anyleft()) return;
	std::string t = text(g), d; for (auto &r : g.r) if (r.abort) d += "#!abort " + r.name + "\n";
	Db db; if (!db.load(d + t)) vh::fail("valid grammar refused: %s", db.err.c_str());
	Matcher ma(db.d); uint64_t h = 3;
	for (auto &in : ins) for (int icase = 0; icase < 2; icase++) for (size_t k = 0; k < g.r.size(); k++) {
		m.icase = icase; rparule_t id = db.rule(g.r[k].name.c_str());
		std::vector<long> len; for (size_t p = 0; p <= in.size(); p++) { long r = m.match(k, in, p); len.push_back(r < 0 ? 0 : r); }     // an abort: no match here
		for (unsigned enc : {RPA_ENCODING_UTF8, RPA_ENCODING_BYTE, RPA_ENCODING_UTF16LE}) {
			bool fits = true; for (uint32_t c : in) fits = fits && c < 256; if (enc == RPA_ENCODING_BYTE && !fits) continue;
			std::string s; std::vector<size_t> offs{0}; for (uint32_t c : in) { s += view({c}, enc); offs.push_back(s.size()); }
			char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p = (char *)realloc(p, s.size() ? s.size() : 1);
			for (size_t from = 0; from <= in.size(); from++) {
				size_t at = from; while (at < in.size() && !len[at]) at++;
				const char *where = nullptr;
				vh::note("rule %s text '%s' from %zu encoding %u%s", g.r[k].name.c_str(), s.c_str(), from, enc, icase ? " ignoring case" : "");
				long got = rpa_stat_scan(ma.s, id, enc | (icase ? RPA_ENCODING_ICASE : 0), p + offs[from], p, p + s.size(), &where);
				if (at >= in.size()) { if (got != 0) vh::fail("scan finds %ld at %ld where nothing matches", got, where ? (long)(where - p) : -1L); }
				else if (got != (long)(offs[at + len[at]] - offs[at]) || where != p + offs[at]) vh::fail("scan finds %ld at %ld, the leftmost match is %zu at %zu", got, where ? (long)(where - p) : -1L, offs[at + len[at]] - offs[at], offs[at]);
				h = vh::mix(h, at * 64 + (at < in.size() ? len[at] : 0)); vh::eval(); vh::steps(m.steps);
			}
			free(p);
		}
	}
	vh::distinct(h);
}
// malformed text: every byte that does not start a character stands for itself; positions still advance
static void rawscan(const std::string &t, const std::string &s)
{
	Db db; if (!db.load(t)) vh::fail("valid grammar refused: %s", db.err.c_str());
	Matcher ma(db.d), fresh(db.d); rparule_t id = db.rule("S");
	for (unsigned enc : {RPA_ENCODING_UTF8, RPA_ENCODING_BYTE, RPA_ENCODING_UTF16LE}) {
		char *p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size());
		size_t at = 0; long want = 0;
		while (at < s.size()) {
			long r = rpa_stat_match(fresh.s, id, enc, p + at, p, p + s.size());
			if (r > 0) { want = r; break; }
			ruint32 wc; int n = enc == RPA_ENCODING_BYTE ? 1 : enc == RPA_ENCODING_UTF8 ? r_utf8_mbtowc(&wc, (unsigned char *)p + at, (unsigned char *)p + s.size()) : r_utf16_mbtowc(&wc, (unsigned char *)p + at, (unsigned char *)p + s.size());
			if (n <= 0) vh::fail("no character at %zu", at);
			at += n;
		}
		const char *where = nullptr; long got = rpa_stat_scan(ma.s, id, enc, p, p, p + s.size(), &where);
		vh::note("encoding %u", enc);
		if (want ? got != want || where != p + at : got != 0) vh::fail("scan finds %ld at %ld, should be %ld at %zu", got, where ? (long)(where - p) : -1L, want, at);
		free(p); vh::eval(); vh::distinct(vh::mix(want, at));
	}
}
// ---- histories
struct Op { int kind; size_t rule; unsigned enc; int txt; int from; bool icase, noclear; };       // kind 0 match 1 parse 2 scan 3 refused 4 cache off/on
struct Out { long ret, err; long where; std::vector<std::array<uint64_t, 6>> recs; std::string name; bool operator==(const Out &o) const { return ret == o.ret && err == o.err && where == o.where && recs == o.recs && name == o.name; } };
struct Gr { std::string t; std::vector<std::string> rules; };
static std::vector<Gr> grs; static std::vector<In> texts; static std::vector<Op> ops, core; static int hl, clen;
static std::vector<Db *> dbs; static std::vector<std::map<int, Out>> base;
static char *buf;                    // all texts are given in the same buffer
static Out run(rpastat_t *st, const Gr &g, Db &db, const Op &o, rarray_t *recs)
{
	Out r; r.where = -1; r.err = 0; r.ret = -9; r.name = "";
	std::string s = view(texts[o.txt], o.enc); unsigned enc = o.enc | (o.icase ? RPA_ENCODING_ICASE : 0);
	size_t n = s.size(); char *p = buf; memcpy(p, s.data(), n); memset(p + n, 'a', 8);
	size_t f = std::min<size_t>(n, (size_t)o.from * ((o.enc & RPA_ENCODING_MASK) == RPA_ENCODING_UTF16LE ? 2 : 1));
	rparule_t id = db.rule(g.rules[o.rule % g.rules.size()].c_str());
	long old = r_array_length(recs);
	switch (o.kind) {
	case 0: r.ret = rpa_stat_match(st, id, enc, p + f, p, p + n); break;
	case 1: r.ret = rpa_stat_parse(st, id, enc, p + f, p, p + n, recs); break;
	case 2: { const char *w = nullptr; r.ret = rpa_stat_scan(st, id, enc, p + f, p, p + n, &w); r.where = r.ret > 0 ? w - p : -1; break; }
	case 3: r.ret = rpa_stat_parse(st, id, enc, p + n + 1, p, p + n, recs); break;
	}
	r.err = rpa_stat_lasterror(st);
	if (r.err) { rpa_errinfo_t e; memset(&e, 0, sizeof e); rpa_stat_lasterrorinfo(st, &e); r.name = std::string(e.name) + " " + std::to_string(e.mask & RPA_ERRINFO_OFFSET ? e.offset : -1); }
	if (o.kind == 1 && r.ret > 0) for (long i = old; i < (long)r_array_length(recs); i++) { rparecord_t *c = rpa_record_get(recs, i); r.recs.push_back({c->type, c->ruleid, c->ruleuid, c->inputoff, c->inputsiz, (uint64_t)(c->input - p)}); }
	return r;
}
static std::string show(const Op &o, const Gr &g)
{
	static const char *k[] = {"match ", "parse ", "scan ", "refused parse ", "cache "};
	std::string s = k[o.kind]; if (o.kind == 4) return s + (o.txt ? "off" : "on");
	return s + g.rules[o.rule % g.rules.size()] + " on '" + vh::esc(utf8(texts[o.txt])) + "' from " + std::to_string(o.from) + (o.enc == RPA_ENCODING_UTF16LE ? " utf16" : o.enc == RPA_ENCODING_BYTE ? " bytes" : "") + (o.icase ? " ignoring case" : "") + (o.noclear ? " appending" : "");
}
static std::string show(const Out &o) { std::string s = vh::fmt("%ld error %ld %s at %ld records", o.ret, o.err, o.name.c_str(), o.where); for (auto &r : o.recs) s += vh::fmt(" (%lu rule %lu uid %lu %lu+%lu@%lu)", r[0], r[1], r[2], r[3], r[4], r[5]); return s; }
// one case: all histories that start with the same calls, one after the other with the same handle
static void history(uint64_t idx, const std::vector<Op> &al, int len)
{
	vh::Idx x(idx); std::vector<int> h(len); for (int k = len - 1; k--;) h[k] = x.take(al.size()); size_t gi = x.take(grs.size());
	const Gr &g = grs[gi]; if (!dbs[gi]) { dbs[gi] = new Db; if (!dbs[gi]->load(g.t)) vh::fail("valid grammar refused: %s", dbs[gi]->err.c_str()); }
	Db &db = *dbs[gi]; Matcher ma(db.d);
	rarray_t *recs = rpa_records_create(); uint64_t sig = gi;
	auto trail = [&](int k) { std::string t; for (int q = 0; q <= k; q++) t += show(al[h[q]], g) + "; "; return t; };
	for (size_t last = 0; last < al.size(); last++) {
		h[len - 1] = last;
		rpa_stat_cachedisable(ma.s, 0); r_array_setlength(recs, 0);
		for (int k = 0; k < len; k++) {
			const Op &o = al[h[k]];
			if (o.kind == 4) { rpa_stat_cachedisable(ma.s, o.txt); continue; }
			int key = (&al == &core ? 100000 : 0) + h[k];
			if (!base[gi].count(key)) { Matcher f(db.d); rarray_t *r = rpa_records_create(); base[gi][key] = run(f.s, g, db, o, r); rpa_records_destroy(r); }
			const Out &want = base[gi][key];
			std::vector<rparecord_t> before; if (!o.noclear) r_array_setlength(recs, 0); else for (long i = 0; i < (long)r_array_length(recs); i++) before.push_back(*rpa_record_get(recs, i));
			Out got = run(ma.s, g, db, o, recs);
			if (!(got == want)) vh::fail("[%s] the last call gives %s, alone it gives %s", trail(k).c_str(), show(got).c_str(), show(want).c_str());
			if (o.noclear) for (size_t i = 0; i < before.size(); i++) if ((long)i >= (long)r_array_length(recs) || memcmp(&before[i], rpa_record_get(recs, i), sizeof(rparecord_t))) vh::fail("[%s] the last call changes record %zu of an earlier one", trail(k).c_str(), i);
			sig = vh::mix(sig, got.ret * 31 + got.err); vh::eval();
		}
		vh::steps(len);
	}
	rpa_records_destroy(recs); vh::distinct(sig);
}
// one call again and again with a handle that has only a small stack, then any other call: nothing may have piled up
static std::vector<unsigned long> stks; static std::vector<Gr> rgrs; static std::vector<Op> rops; static int repeats;
static void repeated(uint64_t idx)
{
	vh::Idx x(idx); const Op &a = rops[x.take(rops.size())]; unsigned long sz = stks[x.take(stks.size())]; const Gr &g = rgrs[x.take(rgrs.size())];
	Db db; if (!db.load(g.t)) vh::fail("valid grammar refused: %s", db.err.c_str());
	std::vector<Out> want; { Matcher f(db.d, sz); rarray_t *r = rpa_records_create(); Out w = run(f.s, g, db, a, r); want.push_back(w); rpa_records_destroy(r); }
	for (const Op &o : rops) { Matcher f(db.d, sz); rarray_t *r = rpa_records_create(); want.push_back(run(f.s, g, db, o, r)); rpa_records_destroy(r); }
	Matcher ma(db.d, sz); rarray_t *recs = rpa_records_create(); uint64_t sig = idx;
	for (size_t q = 0; q < rops.size(); q++) {
		for (int k = 0; k < repeats; k++) { r_array_setlength(recs, 0); Out got = run(ma.s, g, db, a, recs); if (!(got == want[0])) vh::fail("call %d of [%s] gives %s, at first it gives %s", k, show(a, g).c_str(), show(got).c_str(), show(want[0]).c_str()); vh::eval(); }
		r_array_setlength(recs, 0); Out got = run(ma.s, g, db, rops[q], recs);
		if (!(got == want[q + 1])) vh::fail("[%s] after %d times [%s] gives %s, alone it gives %s", show(rops[q], g).c_str(), repeats, show(a, g).c_str(), show(got).c_str(), show(want[q + 1]).c_str());
		sig = vh::mix(sig, got.ret * 31 + got.err); vh::eval(); vh::steps(repeats + 1);
	}
	rpa_records_destroy(recs); vh::distinct(sig);
}
// two calls with a long run of other calls (one for each place of a scan that finds nothing) between them
static std::vector<size_t> apart; static std::vector<Op> aparts;
static void far_apart(uint64_t idx)
{
	vh::Idx x(idx); size_t k = apart[x.take(apart.size())]; const Op &a = aparts[x.take(aparts.size())]; size_t gi = x.take(grs.size()); const Gr &g = grs[gi];
	if (!vh::thorough && k > 5000 && gi != 0 && gi != 6) return;
	if (!vh::thorough && gi != 0 && gi != 1 && gi != 4 && gi != 6) return;
	Db db; if (!db.load(g.t)) vh::fail("valid grammar refused: %s", db.err.c_str());
	std::string fill(k, 'z'); rparule_t id = db.rule(g.rules[0].c_str()); rarray_t *recs = rpa_records_create();
	std::vector<Out> want; for (const Op &o : aparts) { Matcher f(db.d); r_array_setlength(recs, 0); want.push_back(run(f.s, g, db, o, recs)); }
	Matcher ma(db.d); uint64_t sig = idx;
	for (size_t q = 0; q < aparts.size(); q++) {
		r_array_setlength(recs, 0); run(ma.s, g, db, a, recs);
		const char *w; rpa_stat_scan(ma.s, id, RPA_ENCODING_BYTE, fill.data(), fill.data(), fill.data() + k, &w);
		r_array_setlength(recs, 0); Out got = run(ma.s, g, db, aparts[q], recs);
		if (!(got == want[q])) vh::fail("[%s] after [%s] and a scan of %zu characters gives %s, alone it gives %s", show(aparts[q], g).c_str(), show(a, g).c_str(), k, show(got).c_str(), show(want[q]).c_str());
		sig = vh::mix(sig, got.ret * 31 + got.err); vh::eval(); vh::steps(k + 2);
	}
	rpa_records_destroy(recs); vh::distinct(sig);
}
static void setup()
{
	bool T = vh::thorough; vh::case_timeout = 20;
	PP a = chr('a'), b = chr('b');
	mkinputs(sins, {'a', 'b', 'c'}, T ? 4 : 3); mkinputs(wins, {'a', 'b', 0xe9, 0x1f600}, 3);
	auto *g1 = new std::vector<Grammar>; auto *g2 = new std::vector<Grammar>;
	{ Gen *g = new Gen; g->leaves = {a, b, any(), cls("[ab]", {{'a', 'b'}})}; for (PP x : g->upto(T ? 4 : 3)) g1->push_back({{{"S", x}}});
	  Gen *gs = new Gen; gs->leaves = {a, ref(1)}; Gen *ga = new Gen; ga->leaves = {b, a}; for (PP x : gs->upto(3)) for (PP y : ga->upto(2)) { for (int d = 0; d < 3; d++) { Grammar q{{{"S", x}, {"A", y}}}; q.r[0].abort = d == 1; q.r[1].abort = d == 2; g1->push_back(q); } } }
	{ Gen *g = new Gen; g->leaves = {a, chr('B'), chr(0xe9, "'\xc3\xa9'"), cls("[#x80-#x10ffff]", {{0x80, 0x10ffff}}), any()}; for (PP x : g->upto(T ? 4 : 3)) { g2->push_back({{{"S", x}}}); Grammar q{{{"S", x}}}; q.r[0].abort = true; g2->push_back(q); } }
	auto fs = [](const char *n, std::vector<Grammar> *g, std::vector<In> *i) { vh::families.push_back({n, g->size(), [g, i](uint64_t k) { scans((*g)[k], *i); }, [g](uint64_t k) { std::string s; for (auto &r : (*g)[k].r) if (r.abort) s += "#!abort " + r.name + "\n"; return s + text((*g)[k]); }, 8}); };
	fs("scan", g1, &sins); fs("scan-wide", g2, &wins);
	static std::vector<std::string> rawt = {"S ::= 'a'\n", "S ::= 'a' 'b'\n", "S ::= [#x80-#xff]\n", "S ::= [#xc3] 'a'\n", "S ::= ^'a'\n", "S ::= '\xc3\xa9'\n", "S ::= 'b'+ 'a'\n", "S ::= . 'a'\n", "S ::= [#x100-#xffff]\n"}, rawa = {"a", "b", "\xc3", "\xa9", "\xe2", "\xff", "\xf0\x9f", std::string(1, '\0')};
	uint64_t rn = vh::nstrings(rawa.size(), T ? 5 : 4);
	vh::families.push_back({"scan-malformed-text", rawt.size() * rn, [rn](uint64_t i) { rawscan(rawt[i / rn], vh::nthtext(i % rn, rawa)); }, [rn](uint64_t i) { return rawt[i / rn] + " on " + vh::nthtext(i % rn, rawa); }, 64});
	// histories
	buf = (char *)malloc(4096);
	grs = {
		{"S ::= <A> 'x' | <A> 'b' | <A>\nA ::= <B> 'a' | <B>\nB ::= 'a'+ | 'b'\n", {"S", "A", "B"}},
		{"S ::= <S> 'b' <A> | <A>\nA ::= 'a' | 'b'\n", {"S", "A"}},
		{"S ::= <A> 'b' | 'b'\nA ::= <S> 'a' | 'a'\n", {"S", "A"}},
		{"#!abort A\nS ::= 'b' <A> | 'a'\nA ::= 'a' 'b'\n", {"S", "A"}},
		{"#!noemit A\n#!emitid S 7\nS ::= <A>* <B>\nA ::= 'a' ^'c' | <B> 'a'\nB ::= 'b'\n", {"S", "A", "B"}},
		{"S ::= (<A> - <B>)+ | <B> <S>\nA ::= .\nB ::= 'a' 'b' | 'b' '\xc3\xa9'\n", {"S", "A", "B"}},
		{"S ::= 'a' <A> 'b' | 'a' <A> | 'b'\nA ::= <B>+ | 'a'\nB ::= 'b' 'a'\n", {"S", "A", "B"}},
		{"S ::= <A>? ([A-B] | [#xe9])\nA ::= <B> <A> | <B>\nB ::= [ab]\n", {"S", "A", "B"}},
	};
	dbs.assign(grs.size(), nullptr); base.resize(grs.size());
	auto str = [](const char *s) { In v; for (; *s; s++) v.push_back((unsigned char)*s); return v; };
	texts = {str(""), str("a"), str("b"), str("ab"), str("ba"), str("aab"), str("abab"), {'a', 0xe9, 'b'}, {'b', 0xe9}, {}, {}};
	for (int k = 0; k < 150; k++) { texts[9].push_back('a'); texts[10].push_back(k & 1 ? 'b' : 'a'); }
	for (int kind = 0; kind < 3; kind++) for (size_t r = 0; r < 3; r++) for (int t = 0; t < (int)texts.size(); t++) for (unsigned e : {RPA_ENCODING_UTF8, RPA_ENCODING_BYTE, RPA_ENCODING_UTF16LE}) for (int from = 0; from < 2; from++) {
		if (from && (t < 3 || t > 6)) continue;
		if (e != RPA_ENCODING_UTF8 && t != 3 && t != 7 && t != 10) continue;
		ops.push_back({kind, r, e, t, from, false, false}); if (t == 7 || t == 3) ops.push_back({kind, r, e, t, from, true, false});
		if (kind == 1 && e == RPA_ENCODING_UTF8) ops.push_back({1, r, e, t, from, false, true});
	}
	ops.push_back({3, 0, RPA_ENCODING_UTF8, 3, 0, false, false}); ops.push_back({4, 0, 0, 0, 0, false, false}); ops.push_back({4, 0, 0, 1, 0, false, false});
	for (auto &o : ops) { bool k = o.kind > 2 || (o.rule < 2 && !o.icase && o.from == 0 && (o.kind < 2 || o.txt == 5) && (o.enc == RPA_ENCODING_UTF8 ? (o.txt == 1 || o.txt == 3 || o.txt == 5 || o.txt == 6) : o.enc == RPA_ENCODING_UTF16LE && o.txt == 3)); if (k) core.push_back(o); }
	hl = 2; clen = T ? 4 : 3;
	auto fh = [](const char *n, const std::vector<Op> *al, int len) { vh::families.push_back({n, grs.size() * vh::ipow(al->size(), len - 1), [al, len](uint64_t i) { history(i, *al, len); }, [al, len](uint64_t i) { vh::Idx x(i); std::vector<int> h(len - 1); for (int k = len - 1; k--;) h[k] = x.take(al->size()); const Gr &g = grs[x.take(grs.size())]; std::string s = g.t; for (int k : h) s += show((*al)[k], g) + "; "; return s + "then any call"; }, 16}); };
	rgrs = grs; rgrs.push_back({"#!abort A\nS ::= 'a' <S> | <A>\nA ::= 'b'\n", {"S", "A"}}); rgrs.push_back({"#!abort A\nS ::= ('a' <B>*)+ 'c' | <B>\nB ::= 'b' <S> | <A>\nA ::= 'b' 'b'\n", {"S", "A", "B"}});
	for (auto &o : ops) if (o.kind < 3 && o.from == 0 && o.rule < 2 && !o.icase && !o.noclear && o.enc == RPA_ENCODING_UTF8 && (o.txt == 3 || o.txt == 5 || o.txt == 6 || o.txt == 9 || o.txt == 1)) rops.push_back(o);
	stks = {100, 150, 200, 300, 400, 600, 1000}; if (T) for (unsigned long k = 50; k < 800; k += 30) stks.push_back(k); repeats = T ? 100 : 30;
	vh::families.push_back({"repeated-calls", rgrs.size() * stks.size() * rops.size(), repeated, [](uint64_t i) { vh::Idx x(i); const Op &a = rops[x.take(rops.size())]; unsigned long sz = stks[x.take(stks.size())]; const Gr &g = rgrs[x.take(rgrs.size())]; return g.t + "stack " + std::to_string(sz) + " repeating " + show(a, g); }, 4});
	for (size_t k = 0; k <= (T ? 520 : 258); k++) apart.push_back(k);
	for (size_t p : {512, 1024, 2048, 4096, 65536}) for (size_t k = p - 3; k <= p + 1; k++) if (k > apart.back() && (T || k + 1 == p)) apart.push_back(k);
	for (auto &o : core) if (o.kind == 1 && o.enc == RPA_ENCODING_UTF8) aparts.push_back(o);
	vh::families.push_back({"calls-apart", grs.size() * aparts.size() * apart.size(), far_apart, [](uint64_t i) { vh::Idx x(i); size_t k = apart[x.take(apart.size())]; const Op &a = aparts[x.take(aparts.size())]; const Gr &g = grs[x.take(grs.size())]; return g.t + show(a, g) + ", then a scan of " + std::to_string(k) + " characters, then any call"; }, 4});
#ifdef ONLY_APART
	vh::families.erase(vh::families.begin(), vh::families.end() - 1);
	return;
#else
	vh::families.pop_back();
#endif
	fh("pairs-of-calls", &ops, hl); fh("histories", &core, clen);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
