// P05: every short grammar text -- valid or not -- against the reference reader: is it accepted, where does reading stop, which
// error is reported, which rules does it declare, what do they match; and the handle stays usable afterwards.
#include "vh.hpp"
#include "rpaapi.hpp"
#include "rparecs.hpp"
#include "lrspec.hpp"
#include "bnfreader.hpp"
#include <fstream>
#include <sstream>
extern "C" {
#include "rlib/rmem.h"
}
using namespace peg;

typedef std::vector<uint32_t> In;
static std::vector<In> mkin(const std::vector<uint32_t> &al, unsigned maxlen)
{
	std::vector<In> o;
	for (uint64_t i = 0; i < vh::nstrings(al.size(), maxlen); i++) { In v; for (int c : vh::nthstring(i, al.size())) v.push_back(al[c]); o.push_back(v); }
	return o;
}
static std::string sub(const std::string &s) { return s.size() > 200 ? s.substr(0, 200) + "..." : s; }

struct Loaded { rpadbex_t *d; long ret; };

// what the loaded and compiled database does, against the meaning of the text
static uint64_t behave(rpadbex_t *d, const bnf::Text &rt, bnf::Meaning &me, const std::string &t, const std::vector<In> &ins, bool rec)
{
	Grammar &g = me.g;
	uint64_t h = 3;
	// the items, in order
	size_t k = 0; long nitems = 0; std::vector<rparule_t> ids;
	for (rparule_t r = rpa_dbex_first(d); r >= 0; r = rpa_dbex_next(d, r), k++) {
		if (k >= rt.items.size()) vh::fail("the database lists more than the %zu items of the text", rt.items.size());
		const bnf::Item &it = rt.items[k];
		std::string src = t.substr(it.from, it.to - it.from), want = it.t == bnf::Item::NAMED ? it.name : src;
		const char *nm = rpa_dbex_name(d, r);
		if (!nm || strcmp(want.c_str(), nm)) vh::fail("item %zu is called '%s', the text says '%s'", k, nm ? nm : "(null)", want.c_str());
		if (rpa_dbex_strlen(d, r) != (long)src.size()) vh::fail("item %zu: source length %ld, should be %zu", k, rpa_dbex_strlen(d, r), src.size());
		std::vector<char> b(src.size() + 2, '\x7f');
		if (rpa_dbex_strncpy(d, b.data(), r, src.size()) != (long)src.size() || memcmp(b.data(), src.data(), src.size()) || b[src.size()] != '\x7f') vh::fail("item %zu: source text copied wrongly", k);
		if (it.t != bnf::Item::DIR) ids.push_back(r);
		nitems++;
	}
	if (k != rt.items.size()) vh::fail("the database lists %zu items, the text has %zu", k, rt.items.size());
	if (rt.items.size() && rpa_dbex_last(d) != nitems - 1) vh::fail("last item is %ld of %ld", (long)rpa_dbex_last(d), nitems);
	for (size_t i = 0; i < g.r.size(); i++) if (g.r[i].name.size()) {
		if (rpa_dbex_lookup_s(d, g.r[i].name.c_str()) != ids[i]) vh::fail("rule '%s' looked up as %ld, it is item %ld", g.r[i].name.c_str(), (long)rpa_dbex_lookup_s(d, g.r[i].name.c_str()), (long)ids[i]);
	}
	if (rpa_dbex_lookup_s(d, "No_Such_Rule") >= 0) vh::fail("a rule that is not there is found");
	if (rpa_dbex_lasterror(d) != RPA_E_NOTFOUND) vh::fail("looking up a missing rule gives error %ld", rpa_dbex_lasterror(d));
	Model m(g);
	m.limit = 200000;
	bool abt = false; for (auto &r : g.r) if (r.abort) abt = true;
	bool left = m.anyleft();
	if (left && (abt || !lrspecified(m))) left = true; else if (left) left = false;
	bool dirs = false; for (auto &it : rt.items) if (it.t == bnf::Item::DIR) dirs = true;
	if (m.anyleft() && dirs) left = true;
	Matcher ma(d);
	rarray_t *recs = rpa_records_create();
	for (auto &in : ins) {
		std::string s = utf8(in);
		std::vector<unsigned> offs{0}; for (uint32_t c : in) offs.push_back(offs.back() + utf8({c}).size());
		for (size_t i = 0; i < g.r.size(); i++) {
			if (i >= 6 && i + 2 < g.r.size()) continue;
			vh::note("rule %s input '%s'", g.r[i].name.c_str(), vh::esc(s).c_str());
			vh::eval();
			if (left) { ma.match(ids[i], s); continue; }
			long want = m.match(i, in);
			vh::steps(m.steps);
			if (m.unspecified) { ma.match(ids[i], s); continue; }
			long got = ma.match(ids[i], s);
			h = vh::mix(h, want);
			if (m.aborted) { if (got != -1 || rpa_stat_lasterror(ma.s) != RPA_E_RULEABORT) vh::fail("match gives %ld (error %ld), rule '%s' should abort it", got, rpa_stat_lasterror(ma.s), g.r[m.abortrule].name.c_str()); continue; }
			if (got != (long)offs[want]) vh::fail("match gives %ld, the text means %u", got, offs[want]);
			if (!rec) continue;
			r_array_setlength(recs, 0);
			long gp = rpa_stat_parse(ma.s, ids[i], RPA_ENCODING_UTF8, s.data(), s.data(), s.data() + s.size(), recs);
			if (gp != (long)offs[want]) vh::fail("parse gives %ld, the text means %u", gp, offs[want]);
			if (want <= 0) { if (r_array_length(recs)) vh::fail("failed parse leaves records"); continue; }
			std::string df = diffrecs(recs, m.recs, g, s, &offs);
			if (df.size()) vh::fail("records: %s", df.c_str());
		}
	}
	vh::note("%s", "");
	rpa_records_destroy(recs);
	return h;
}

static void check(const std::string &t0, const std::vector<In> &ins, bool rec = true, bool after = true, bool deep = false)
{
	pool().clear();
	std::string t = t0;
	bnf::Reader rd(t);
	bnf::Text rt = rd.read();
	vh::note("%s", "");
	unsigned long mem0 = r_debug_get_allocmem();
	uint64_t h = vh::mix(rt.stop, rt.items.size());
	{
	Db db;
	db.d = rpa_dbex_create();
	rpadbex_t *d = db.d;
	rpa_dbex_open(d);
	std::string buf = t;                       // the caller's buffer goes away after the call
	long r = rpa_dbex_load(d, buf.data(), buf.size());
	std::fill(buf.begin(), buf.end(), '\xee');
	vh::eval();
	bool ok = rt.stop == t.size();
	if (deep && ok && r < 0) {   // nested deeper than the parser can follow: refused, and said so
		if (!rpa_dbex_lasterror(d)) vh::fail("a deeply nested text is refused without an error");
	} else if (ok != (r >= 0)) vh::fail("load gives %ld (error %ld), the text %s", r, rpa_dbex_lasterror(d), ok ? "is a grammar" : "is not a grammar");
	if (!ok || r < 0) {
		rpa_errinfo_t e; rpa_dbex_lasterrorinfo(d, &e);
		if (!deep) {
			if (rpa_dbex_lasterror(d) != RPA_E_SYNTAXERROR || e.code != RPA_E_SYNTAXERROR) vh::fail("error %ld reported for a malformed text", rpa_dbex_lasterror(d));
			if (!(e.mask & RPA_ERRINFO_OFFSET) || e.offset != (long)rt.stop) vh::fail("error offset %ld, reading stops at %zu", e.offset, rt.stop);
			long line = 1; for (size_t i = 0; i < rt.stop; i++) if (t[i] == '\n') line++;
			if (!(e.mask & RPA_ERRINFO_LINE) || e.line != line) vh::fail("error line %ld, should be %ld", e.line, line);
		}
		h = vh::mix(h, 99);
		if (after) {   // nothing of the refused text remains
			std::string z = "Zz ::= 'z' <Yy>?\nYy ::= 'y'\n";
			if (rpa_dbex_load(d, z.data(), z.size()) != (long)z.size()) vh::fail("after the refused text, a valid one is refused too (error %ld)", rpa_dbex_lasterror(d));
			rpa_dbex_close(d);
			if (rpa_dbex_compile(d) < 0) vh::fail("after the refused text, a valid one does not compile (error %ld)", rpa_dbex_lasterror(d));
			if (rpa_dbex_first(d) != 0 || rpa_dbex_last(d) != 1) vh::fail("rules of the refused text remain");
			Matcher ma(d);
			rparule_t id = db.rule("Zz");
			if (ma.match(id, "zy") != 2 || ma.match(id, "z") != 1 || ma.match(id, "y") != 0) vh::fail("after the refused text, a valid one matches wrongly");
		}
	} else {
		if (r != (long)t.size()) vh::fail("load gives %ld, the text has %zu bytes", r, t.size());
		rpa_dbex_close(d);
		bnf::Meaning me = bnf::meaning(rt);
		int c = rpa_dbex_compile(d);
		if (me.missing.size()) {
			rpa_errinfo_t e; rpa_dbex_lasterrorinfo(d, &e);
			if (c >= 0) vh::fail("compiles although '%s' is not defined", me.missing[0].c_str());
			if (rpa_dbex_lasterror(d) != RPA_E_UNRESOLVEDSYMBOL) vh::fail("error %ld reported for undefined '%s'", rpa_dbex_lasterror(d), me.missing[0].c_str());
			bool named = false; for (auto &n : me.missing) if (n.substr(0, sizeof e.name - 1) == e.name) named = true;
			if (!(e.mask & RPA_ERRINFO_NAME) || !named) vh::fail("the error names '%s', undefined is '%s'", e.name, me.missing[0].c_str());
			if (rpa_dbex_executable(d) || rpa_dbex_executableoffset(d, 0) >= 0) vh::fail("a database that did not compile is executable");
			if (rpa_dbex_lasterror(d) != RPA_E_NOTCOMPILED) vh::fail("error %ld reported for running what did not compile", rpa_dbex_lasterror(d));
			// reopen, add what is missing, go on
			if (after && !rt.custom && !me.dup) {
				std::string t2 = t;
				std::string add; for (auto &n : me.missing) add += "\n" + n + " ::= 'x'";
				if (rpa_dbex_open(d) < 0) vh::fail("cannot be opened again");
				if (rpa_dbex_load(d, add.data(), add.size()) != (long)add.size()) vh::fail("the missing rules are refused (error %ld)", rpa_dbex_lasterror(d));
				rpa_dbex_close(d);
				if (rpa_dbex_compile(d) < 0) vh::fail("does not compile with the missing rules added (error %ld)", rpa_dbex_lasterror(d));
				t2 += ";" + add;       // what the two texts say together
				bnf::Reader rd2(t2); bnf::Text rt2 = rd2.read(); bnf::Meaning me2 = bnf::meaning(rt2);
				if (rt2.stop == t2.size() && me2.missing.empty() && !me2.dup && rt2.items.size() == rt.items.size() + me.missing.size()) h = vh::mix(h, behave(d, rt2, me2, t2, ins, rec));
			}
		} else {
			if (c < 0) { if (!rt.custom) vh::fail("compile refused (error %ld), the text is a grammar", rpa_dbex_lasterror(d)); }
			else if (!rt.custom && !me.dup) h = vh::mix(h, behave(d, rt, me, t, ins, rec));
			else if (me.g.r.size()) {
				Matcher ma(d);
				for (rparule_t id = rpa_dbex_first(d); id >= 0; id = rpa_dbex_next(d, id)) for (auto &in : ins) ma.match(id, utf8(in));
			}
		}
	}
	}
	if (r_debug_get_allocmem() != mem0) vh::fail("%ld bytes remain allocated", (long)(r_debug_get_allocmem() - mem0));
	vh::distinct(h);
}

static void fam(const std::string &name, uint64_t count, std::function<std::string(uint64_t)> text, const std::vector<In> &ins, unsigned chunk = 64, bool rec = true, bool after = true, bool deep = false)
{
	vh::Family f;
	f.name = name; f.count = count; f.chunk = chunk;
	f.run = [=](uint64_t i) { check(text(i), ins, rec, after, deep); };
	f.describe = [=](uint64_t i) { std::string t = text(i); return t.size() > 300 ? t.substr(0, 140) + " ... " + t.substr(t.size() - 140) : t; };
	vh::families.push_back(f);
}
// ---- all short histories of calls on one handle, with one matcher attached from the start; after every call everything observable
// is compared with a state machine of the handle
static const char *const hload[] = {"R ::= 'a' <A>?\nA ::= 'b' | 'c'", "B ::= <R>+ | <B> 'c'", "C ::= <Miss> <R> | 'c' <C> | 'c'", "Miss ::= 'm'", "#!emitnone\nD ::= ('d'", "A ::= ["};
enum { HN = 6 };
static const char *const hname[] = {"R", "A", "B", "C", "Miss", "D"};
static std::vector<In> hins;
// what is printed by a call
template <class F> static std::string printed(F f)
{
	char *b = nullptr; size_t n = 0; FILE *m = open_memstream(&b, &n), *so = stdout; stdout = m; f(); stdout = so; fclose(m); std::string s(b, n); free(b); return s;
}
// the calls that list what is in the database: for ids that exist, and for those that do not
static void queries(rpadbex_t *d, bool open)
{
	long e0 = 0, n = open ? 0 : rpa_dbex_last(d) + 1; if (n < 0) n = 0; (void)e0;
	if (!open) {
		std::vector<long> f, b; for (rparule_t i = rpa_dbex_first(d); i >= 0; i = rpa_dbex_next(d, i)) f.push_back(i); for (rparule_t i = rpa_dbex_last(d); i >= 0; i = rpa_dbex_prev(d, i)) b.insert(b.begin(), i);
		if (f != b || (long)f.size() != n) vh::fail("%zu items forwards, %zu backwards, %ld in all", f.size(), b.size(), n);
	}
	std::string all;
	for (long i = -2; i < n + 2; i++) {
		bool is = i >= 0 && i < n; char buf[64] = "";
		const char *nm = rpa_dbex_name(d, i); long l = rpa_dbex_strlen(d, i), c = rpa_dbex_strncpy(d, buf, i, 7);
		if ((nm != nullptr) != is) vh::fail("the name of item %ld of %ld is %s", i, n, nm ? nm : "missing");
		if (is != (l >= 0) || is != (c >= 0) || (is && (c != std::min(l, 7l) || buf[c]))) vh::fail("item %ld of %ld has %ld characters, %ld copied", i, n, l, c);
		if (!is) continue;
		std::string s(l, 0), t2(l + 9, '#'); rpa_dbex_strncpy(d, &s[0], i, l); if (rpa_dbex_strncpy(d, &t2[0], i, l + 9) != l || t2.substr(0, l) != s || t2[l] != '#' || s.substr(0, 7) != buf) vh::fail("item %ld copied in different ways: '%s', '%s'", i, s.c_str(), t2.c_str());
		all += "   " + s + "\n";
	}
	if (open || n == 0) return;
	std::string p = printed([&] { rpa_dbex_dumpproductions(d); });
	if (p != all) vh::fail("the productions are listed as '%s', the items are '%s'", p.c_str(), all.c_str());
}
// every database text of some directives that give numbers: what is listed for inclusion in a program
static void uids(const std::vector<int> &v)
{
	static const char *const ln[] = {"#!emitid A ONE 5", "#!emitid A 7", "#!emitid B TWO_x 40", "#!emitid B three 2147483647", "#!emitall", "#!emitid A ONE 6", "A ::= 'a'", "B ::= <A>", "#!noemit A"};
	static const char *const ls[] = {"#define ONE 5\n", "", "#define TWO_x 40\n", "#define three 2147483647\n", "", "#define ONE 6\n", "", "", ""};
	std::string t, want; for (int c : v) { t += std::string(ln[c]) + "\n"; want += ls[c]; }
	vh::note("%s", t.c_str());
	Db db; db.d = rpa_dbex_create(); rpa_dbex_open(db.d);
	unsigned long mem0 = r_debug_get_allocmem();
	if (rpa_dbex_dumpuids(db.d) != -1 || rpa_dbex_dumpuids(nullptr) != -1 || rpa_dbex_dumpinfo(db.d) != -1 || rpa_dbex_dumprecords(db.d) != -1 || rpa_dbex_dumpproductions(db.d) != -1 || rpa_dbex_dumptree(db.d, 0) != -1 || rpa_dbex_dumpcode(db.d, 0) != -1) vh::fail("an open database is listed");
	if (r_debug_get_allocmem() != mem0) vh::fail("refusing to list left %ld bytes behind", (long)(r_debug_get_allocmem() - mem0));
	if (!t.empty() && rpa_dbex_load(db.d, t.data(), t.size()) != (long)t.size()) vh::fail("refused");
	rpa_dbex_close(db.d); queries(db.d, false);
	for (int c = 0; c < 2; c++) {
		unsigned long m1 = r_debug_get_allocmem(); int r = -9;
		std::string p = printed([&] { r = rpa_dbex_dumpuids(db.d); });
		if (r != 0 || p != want) vh::fail("listed (%d): '%s' instead of '%s'", r, p.c_str(), want.c_str());
		printed([&] { r = rpa_dbex_dumpinfo(db.d) | rpa_dbex_dumprecords(db.d); for (rparule_t i = -1; i < (rparule_t)v.size() + 1; i++) { bool is = i >= 0 && i < (rparule_t)v.size(); if ((rpa_dbex_dumptree(db.d, i) == 0) != is || (rpa_dbex_dumpcode(db.d, i) == 0) != is) r = 5; } });
		if (r) vh::fail("listing gives %d", r);
		if (r_debug_get_allocmem() != m1) vh::fail("listing left %ld bytes behind", (long)(r_debug_get_allocmem() - m1));
		vh::eval();
		if (c == 0) rpa_dbex_compile(db.d);
	}
	vh::distinct(vh::hstr(want)); vh::steps(v.size());
}
static void handle(uint64_t idx, unsigned nops, int len)
{
	vh::Idx x(idx); std::vector<int> ops(len); for (int k = len; k--;) ops[k] = x.take(nops);
	unsigned long mem0 = r_debug_get_allocmem();
	uint64_t h = 5;
	{
	Db db; db.d = rpa_dbex_create(); rpadbex_t *d = db.d; Matcher ma(d, 4096);
	bool open = false, compiled = false, opt = rpa_dbex_cfgget(d, RPA_DBEXCFG_OPTIMIZATIONS); std::vector<int> loaded; std::string trail;
	rparule_t ids[6]; for (int i = 0; i < 6; i++) ids[i] = i;
	for (int k = 0; k < len; k++) {
		int o = ops[k]; long r; long err = 0;
		bool missing = false; { bool c = false, m = false, b = false, ra = false; for (int t : loaded) { if (t == 2) c = true; if (t == 3) m = true; if (t == 1) b = true; if (t == 0) ra = true; } missing = (c && (!m || !ra)) || (b && !ra); }
		if (o < HN) {
			trail += vh::fmt("load %d; ", o); vh::note("%s", trail.c_str());
			std::string t = hload[o]; r = rpa_dbex_load(d, t.data(), t.size());
			bool bad = o >= 4;
			if (!open) err = RPA_E_NOTOPEN; else if (bad) err = RPA_E_SYNTAXERROR; else loaded.push_back(o);
			if (err ? r != -1 : r != (long)t.size()) vh::fail("load gives %ld", r);
		} else if (o == HN) { trail += "open; "; vh::note("%s", trail.c_str()); r = rpa_dbex_open(d); open = true; compiled = false; if (r) vh::fail("open gives %ld", r); }
		else if (o == HN + 1) { trail += "close; "; vh::note("%s", trail.c_str()); rpa_dbex_close(d); if (open) open = false; }
		else if (o == HN + 2) {
			trail += "compile; "; vh::note("%s", trail.c_str()); r = rpa_dbex_compile(d);
			if (open) err = RPA_E_NOTCLOSED; else { compiled = !missing; if (missing) err = RPA_E_UNRESOLVEDSYMBOL; }
			if (err ? r != -1 : r != 0) vh::fail("compile gives %ld (error %ld)", r, rpa_dbex_lasterror(d));
			if (missing && !open) { rpa_errinfo_t e; rpa_dbex_lasterrorinfo(d, &e); std::string n(e.name); if (!(e.mask & RPA_ERRINFO_NAME) || (n != "Miss" && n != "R")) vh::fail("the error names '%s'", e.name); for (int t : loaded) if ((n == "Miss" && t == 3) || (n == "R" && t == 0)) vh::fail("the error names '%s', which is defined", e.name); }
		} else { opt = !opt; trail += "toggle options; "; vh::note("%s", trail.c_str()); rpa_dbex_cfgset(d, RPA_DBEXCFG_OPTIMIZATIONS, opt); rpa_dbex_cfgset(d, RPA_DBEXCFG_BITMAP, opt); }
		if (err && rpa_dbex_lasterror(d) != err) vh::fail("error %ld reported, should be %ld", rpa_dbex_lasterror(d), err);
		h = vh::mix(h, open * 4 + compiled * 2 + missing + loaded.size() * 8);
		// observe
		vh::eval();
		queries(d, open);
		if (open) {
			if (rpa_dbex_first(d) >= 0 || rpa_dbex_last(d) >= 0 || rpa_dbex_lookup_s(d, "R") >= 0) vh::fail("an open database has rules");
			if (rpa_dbex_lasterror(d) != RPA_E_NOTCLOSED) vh::fail("error %ld reported for using an open database", rpa_dbex_lasterror(d));
		} else {
			long n = 0; for (int t : loaded) n += t == 0 ? 2 : 1;
			std::set<int> u(loaded.begin(), loaded.end());
			if (u.size() == loaded.size()) { long c = 0; for (rparule_t i = rpa_dbex_first(d); i >= 0; i = rpa_dbex_next(d, i)) c++; if (c != n) vh::fail("%ld items, loaded are %ld", c, n); }
			for (int i = 0; i < 6; i++) {
				bool def = i < 5 && u.count(i < 2 ? 0 : i - 1);
				rparule_t id = rpa_dbex_lookup_s(d, hname[i]);
				if (def != (id >= 0)) vh::fail("rule %s looked up as %ld", hname[i], (long)id);
				if (!def && rpa_dbex_lasterror(d) != RPA_E_NOTFOUND) vh::fail("error %ld reported for a missing rule", rpa_dbex_lasterror(d));
				ids[i] = id >= 0 ? id : 0;
				if (id >= 0 && std::string(rpa_dbex_name(d, id)) != hname[i]) vh::fail("rule %s is called %s", hname[i], rpa_dbex_name(d, id));
			}
		}
		if (!compiled || loaded.empty()) {
			for (int i = 0; i < 6; i += 2) {
				long m = ma.match(ids[i], "ab");
				if (m != -1 || rpa_stat_lasterror(ma.s) == 0) vh::fail("a match without a compiled grammar gives %ld, error %ld", m, rpa_stat_lasterror(ma.s));
			}
			if (rpa_dbex_lasterror(d) != (open ? RPA_E_NOTCLOSED : RPA_E_NOTCOMPILED)) vh::fail("error %ld reported for running what is not compiled", rpa_dbex_lasterror(d));
		} else {
			std::string t; std::set<int> u; for (int l : loaded) if (u.insert(l).second) t += std::string(hload[l]) + "\n";
			static std::map<std::string, std::map<std::string, std::vector<long>>> memo;
			auto &mm = memo[t];
			if (mm.empty()) {
				pool().clear(); bnf::Reader rd(t); bnf::Text rt = rd.read(); bnf::Meaning me = bnf::meaning(rt); Model m(me.g);
				for (size_t i = 0; i < me.g.r.size(); i++) { auto &v = mm[me.g.r[i].name]; for (auto &in : hins) { v.push_back(me.g.r[i].name == "B" ? -2 : m.match(i, in)); vh::steps(m.steps); } }
			}
			for (int i = 0; i < 5; i++) {
				auto f = mm.find(hname[i]); if (f == mm.end()) continue;
				for (size_t q = 0; q < hins.size(); q++) {
					std::string s = utf8(hins[q]); long want = f->second[q];
					if (want == -2) {   // B ::= <R>+ | <B> 'c': one or more of a, ab, ac, then c's -- each prefix is a match, the longest is taken
						size_t p = 0; while (p < s.size() && s[p] == 'a') { p++; if (p < s.size() && (s[p] == 'b' || s[p] == 'c')) p++; }
						if (p) while (p < s.size() && s[p] == 'c') p++;
						want = p;
					}
					long got = ma.match(ids[i], s);
					if (got != want) vh::fail("%s on '%s' gives %ld, should be %ld", hname[i], s.c_str(), got, want);
				}
			}
		}
	}
	}
	vh::steps(len); vh::note("%s", "");
	if (r_debug_get_allocmem() != mem0) vh::fail("%ld bytes remain allocated", (long)(r_debug_get_allocmem() - mem0));
	vh::distinct(h);
}
static std::string slurpfile(const std::string &fn) { std::ifstream f(fn); std::stringstream s; s << f.rdbuf(); return s.str(); }

static void setup()
{
	bool T = vh::thorough, asan = false;
#if defined(__SANITIZE_ADDRESS__)
	asan = true;
#else
	vh::mem_limit = 3ull << 30;
#endif
	vh::case_timeout = 6;
	int D = T ? 1 : 0; if (asan) D = T ? 0 : -1;
	// bodies: every short token sequence
	{
		static const std::vector<std::string> tok{"a", "b", " ", "|", "-", "^", "(", ")", "'", "<R>", "<A>", "+", "?", ".", "\\", "~", "\n"};
		fam("body-tokens", vh::nstrings(tok.size(), 4 + D), [](uint64_t i) { return "R ::= " + vh::nthtext(i, tok) + "\nA::=b"; }, mkin({'a', 'b', ' '}, 2), 128, true, false);
	}
	{
		static const std::vector<std::string> tok{"a", "b", "|", "-", "^", "(", ")", "<A>", "*"};
		fam("operators", vh::nstrings(tok.size(), 5 + D), [](uint64_t i) { return "R ::= " + vh::nthtext(i, tok) + "\nA::=b|ba"; }, mkin({'a', 'b'}, 3), 128, false, false);
	}
	// quoting
	{
		static const std::vector<std::string> tok{"a", "'", "\"", "\\", "n", " ", "+", "\n", "\xc3\xa9"};
		fam("quotes", vh::nstrings(tok.size(), 5 + D), [](uint64_t i) { return "R::=" + vh::nthtext(i, tok); }, mkin({'a', '\\', 'n', 0xe9, '\n'}, 2), 128, false);
	}
	// character classes
	{
		static const std::vector<std::string> tok{"a", "c", "-", "\\", "]", "[", "n", "#", "x", "6", "1", "^"};
		fam("classes", vh::nstrings(tok.size(), 5 + D), [](uint64_t i) { return "R::=[" + vh::nthtext(i, tok) + "]"; }, mkin({'a', 'b', 'n', '-', ']', '^', '\n', 6, 'x', 0x61}, 1), 128, false, false);
		static const std::vector<std::string> num{"#", "x", "0", "1", "6", "-", "X", "f", " "};
		fam("numeric-classes", vh::nstrings(num.size(), (T ? 6 : 5) + D), [](uint64_t i) { return "R::=[#" + vh::nthtext(i, num) + "]"; }, mkin({1, 6, 0x10, 0x16, 'a', 0xf, 0x60, 61}, 1), 128, false, false);
	}
	// references and names
	{
		static const std::vector<std::string> tok{"<", ">", "A", "_", "1", ":", "::=", " ", "\n", "a"};
		fam("names", vh::nstrings(tok.size(), asan && !T ? 3 : 5 + D), [](uint64_t i) { return vh::nthtext(i, tok); }, mkin({'a', 'A', ':', '='}, 1), 128, true);
	}
	// directives
	{
		static const std::vector<std::string> tok{"#", "!", " ", "emit", "id", "all", "none", "no", "abort", "A", "7", "\n", "x"};
		fam("directive-tokens", vh::nstrings(tok.size(), 4 + D), [](uint64_t i) { return "#!" + vh::nthtext(i, tok) + "\nR::=<A>b\nA::=a|c"; }, mkin({'a', 'b', 'c'}, 2), 128, true, false);
	}
	// lines: rules, directives, comments, continuation, junk in every order
	{
		static const std::vector<std::string> ln{"R ::= <A> 'b'", "A ::= a | c", "B ::= <A>+ <R>?", "#!emitall", "#!emitnone", "#!emit A", "#!noemit A", "#!noemit R #!emit A", "#!emitid A alias 5", "#!emitid R 9", "#!abort A", "# comment", "", "a \\", "| b", "<A> c", ";", "R := a", " X ::= <Q>", ")"};
		fam("lines", vh::nstrings(ln.size(), T ? 4 : asan ? 2 : 3), [](uint64_t i) { std::string o; for (int c : vh::nthstring(i, ln.size())) o += ln[c] + "\n"; return o; }, mkin({'a', 'b', 'c'}, 2), 64);
		static const std::vector<std::string> eol{"R::=a", "|b", "\r\n", "\n", "\r", ";", " ", "\\", "#c", "A::=c"};
		fam("line-ends", vh::nstrings(eol.size(), asan && !T ? 3 : 5 + D), [](uint64_t i) { return vh::nthtext(i, eol); }, mkin({'a', 'b', 'c'}, 1), 128, true, false);
	}
	// raw bytes
	{
		static const std::string al("a|\x80\xc3\xa9\xff\xf0\x9f'<[#\x01\0", 14);
		fam("bytes", vh::nstrings(al.size(), 3 + D), [](uint64_t i) { return "R::=a" + vh::nthtext(i, al) + "b"; }, mkin({'a', 0xe9, 0}, 1), 128, false);
		static const std::vector<std::string> nul{std::string(1, 0), "'", "a", "[", "]", "^", "-", "\\", "#", "\n", "S::=b"};
		fam("nul", vh::nstrings(nul.size(), 4 + D), [](uint64_t i) { return "R::=" + vh::nthtext(i, nul); }, mkin({'a', 0}, 2), 128, false);
		fam("byte-pairs", asan && !T ? 256 * 16 : 256 * 256, [](uint64_t i) { char b[2] = {(char)(i & 255), (char)(i >> 8)}; return "R::=" + std::string(b, 2); }, mkin({'a', 0}, 1), 256, false, false);
	}
	// the grammars that come with the project: cut anywhere, one character replaced, dropped or inserted
	{
		std::string dir = vh::fmt("%s/tests/datapatterns/", REPO);
		for (const char *fn : {"calc.rpa", "number.rpa", "inet.rpa", "loopy.rpa", "sip.rpa", "intordouble.rpa", "url.rpa", "xml.rpa", "json.rpa", "kicad-lib.rpa", "ecma262.rpa"}) {
			std::string t = slurpfile(dir + fn);
			if (t.empty()) continue;
			bool big = t.size() > 3000;
			if (t.size() > 3000 && asan) continue;
			uint64_t stepn = big ? (T ? 1 : 16) : 1;   // every position, except in the largest one
			fam(std::string("cut-") + fn, t.size() / stepn + 1, [t, stepn](uint64_t i) { return t.substr(0, i * stepn); }, mkin({'1'}, 1), big ? 4 : 16, false, false);
			if (t.size() > 1200 && !T) continue;
			if (asan && !T && t.size() > 260) continue;
			if (big) continue;
			static const std::string rep("|-^()'\"[]<>+?.#!\\\n ;:=~a&\x01\xff\0", 28);
			fam(std::string("edit-") + fn, t.size() * rep.size(), [t](uint64_t i) { std::string o = t; o[i / rep.size()] = rep[i % rep.size()]; return o; }, mkin({'1'}, 1), 64, false, false);
			fam(std::string("drop-") + fn, t.size(), [t](uint64_t i) { std::string o = t; o.erase(i, 1); return o; }, mkin({'1'}, 1), 64, false, false);
		}
	}
	vh::families.push_back({"listing", vh::nstrings(9, 4 + D), [](uint64_t i) { uids(vh::nthstring(i, 9)); }, [](uint64_t i) { std::string o; for (int c : vh::nthstring(i, 9)) o += vh::fmt("%d ", c); return o; }, 64});
	// sizes
	hins = mkin({'a', 'b', 'c', 'm'}, 2); hins.push_back({'a', 'b', 'a', 'c', 'c'}); hins.push_back({'c', 'c', 'm', 'a'});
	for (int q = 0; q < 2; q++) {
		unsigned nops = q ? HN + 4 : HN + 3; int len = (q ? 4 : 5) + (T ? asan ? 1 : 2 : 0) - (asan ? 1 : 0);
		vh::families.push_back({q ? "handle-options" : "handle", vh::ipow(nops, len), [=](uint64_t i) { handle(i, nops, len); }, [=](uint64_t i) { vh::Idx x(i); std::vector<int> v(len); for (int k = len; k--;) v[k] = x.take(nops); std::string o; for (int c : v) o += c < HN ? vh::fmt("load '%s'; ", hload[c]) : c == HN ? "open; " : c == HN + 1 ? "close; " : c == HN + 2 ? "compile; " : "toggle options; "; return o; }, 64});
	}
	auto rep = [](const std::string &s, uint64_t n) { std::string o; while (n--) o += s; return o; };
	uint64_t W = asan ? 60 : T ? 300 : 200;
	std::vector<In> ia = mkin({'a', 'b'}, 2);
	// nesting: the parser backtracks over it, so only what is quick is explored: shallow (understood) and very deep (refused)
	auto dep = [](uint64_t i, uint64_t shallow, uint64_t from) { return i <= shallow ? i : from + (i - shallow - 1) * 3; };
	fam("deep-brackets", 80 + W / 4, [=](uint64_t k) { uint64_t i = dep(k, 79, 130); return "R::=" + rep("(", i) + "a" + rep(")", i) + "b\nS::=b"; }, ia, 1, false, true, true);
	fam("deep-alternatives", 36, [=](uint64_t i) { return "R::=" + rep("(b|", i) + "a" + rep(")", i) + "b\nS::=b"; }, ia, 1, false, true, true);
	fam("deep-unbalanced", 80 + W / 4, [=](uint64_t k) { uint64_t i = dep(k, 79, 130); return "R::=" + rep("(", i) + "a" + rep(")", i / 2) + "\nS::=b"; }, ia, 1, false, true, true);
	fam("deep-operators", T ? 28 : 24, [=](uint64_t i) { return "R::=" + rep("^(a-", i) + "b" + rep(")", i) + "\nS::=b"; }, ia, 1, false, true, true);
	fam("long-name", 320, [rep](uint64_t i) { return "R::=<" + rep("n", i) + ">\n" + rep("n", i) + "::=a"; }, ia, 4, true);
	fam("long-missing", 320, [rep](uint64_t i) { return "R::=a<" + rep("n", i) + ">"; }, ia, 4, true);
	fam("long-string", W * 4, [rep](uint64_t i) { return "R::='" + rep("a", i) + "'\nS::=a*"; }, {In(), In(37, 97), In(700, 97)}, 4, true);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
