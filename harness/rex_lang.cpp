// R01: longest-prefix language equivalence on four engines.
#include "vh.hpp"
#include "rexmodel.hpp"
#include <algorithm>
extern "C" {
#include "rlib/rmem.h"
#include "rex/rexdef.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexdfasimulator.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexregex.h"
}
using namespace rm;
static std::vector<P> E, EU, EB, EC;
static std::vector<Text> IN, INU, INB, INC;
static std::vector<std::string> BN, BU, BB, BC;

static size_t chars_to_bytes(const Text &t, int n, bool utf) { if (!utf) return n; Text u(t.begin(), t.begin() + n); return utf8(u).size(); }

static void check(const P &e, const std::vector<Text> &ins, const std::vector<std::string> &bytes, bool utf, bool byteenc)
{
	long mem0 = r_debug_get_allocmem();
	rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA);
	long start = rex_db_addexpression(nfa, -1, e->s.c_str(), e->s.size(), 7);
	VH_CHECK(start >= 0, "valid expression rejected");
	rexdb_t *db = rex_db_createdfa(nfa, start);
	VH_CHECK(db, "no DFA");
	rexdfa_t *dfa = rex_db_todfa(db, 1);
	VH_CHECK(dfa, "no frozen DFA");
	rex_nfasimulator_t *ns = rex_nfasimulator_create();
	rex_dfasimulator_t *ds = rex_dfasimulator_create();
	rexregex_t *rx = rex_regex_create(e->s.c_str(), e->s.size());
	VH_CHECK(rx, "regex object refused");
	uint64_t h = 5;
	for (size_t k = 0; k < ins.size(); k++) {
		const Text &t = ins[k];
		const std::string &b = bytes[k];
		int m = longest(e, t);
		size_t want = chars_to_bytes(t, m, utf);
		std::string heap = b;   // exact-size copy so that reading past the end is noticed
		char *p = (char *)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
		if (!byteenc) {
			rex_nfasimulator_run(ns, nfa, start, p, b.size());
			size_t got = r_array_length(ns->accepts) ? ((rex_accept_t *)r_array_lastslot(ns->accepts))->inputsize : 0;
			VH_CHECK(got == want, "input '%s': NFA simulator matched %zu bytes, language says %zu", vh::esc(b).c_str(), got, want);
			if (r_array_length(ns->accepts)) VH_CHECK(((rex_accept_t *)r_array_lastslot(ns->accepts))->count == (size_t)m, "input '%s': NFA simulator counted %zu characters, want %d", vh::esc(b).c_str(), ((rex_accept_t *)r_array_lastslot(ns->accepts))->count, m);
			got = rex_dfasimulator_run(ds, db, REX_DFA_STARTSTATE, p, b.size());
			VH_CHECK(got == want, "input '%s': DFA simulator matched %zu bytes, language says %zu", vh::esc(b).c_str(), got, want);
		}
		{
			size_t got = 0; rexuint_t st = REX_DFA_STARTSTATE; size_t pos = 0;
			for (size_t i = 0; i < t.size(); i++) {
				rexchar_t inp = t[i]; rexuint_t s2 = rex_dfa_next(dfa, st, inp), s3 = st;
				REX_DFA_NEXT(dfa, s3, inp, &s3);
				VH_CHECK(s2 == s3 && s2 < dfa->nstates, "frozen DFA goes to state %u/%u of %u", s2, s3, dfa->nstates);
				st = s2; pos += utf ? u8c(t[i]).size() : 1;
				if (st == REX_DFA_DEADSTATE) break;
				if (rex_dfa_state(dfa, st)->type == REX_STATETYPE_ACCEPT) got = pos;
			}
			VH_CHECK(got == want, "input '%s': frozen DFA matched %zu bytes, language says %zu", vh::esc(b).c_str(), got, want);
		}
		if (utf) {
			int r = rex_regex_match(rx, REX_ENCODING_UTF8, p, p + b.size());
			VH_CHECK(r == (int)want, "input '%s': UTF-8 regex matched %d bytes, language says %zu", vh::esc(b).c_str(), r, want);
		}
		bool ascii = true; for (auto c : t) if (c >= 0x80) ascii = false;
		if (byteenc || ascii) {
			int r = rex_regex_match(rx, REX_ENCODING_BYTE, p, p + b.size());
			VH_CHECK(r == (int)want, "input '%s': byte regex matched %d bytes, language says %zu", vh::esc(b).c_str(), r, want);
		}
		free(p);
		h = vh::mix(h, m);
	}
	vh::eval(ins.size()); vh::traces(ins.size() * 4); vh::steps(ins.size());
	vh::distinct(h);
	rex_nfasimulator_destroy(ns); rex_dfasimulator_destroy(ds); rex_regex_destroy(rx);
	rex_dfa_destroy(dfa); rex_db_destroy(db); rex_db_destroy(nfa);
	VH_CHECK((long)r_debug_get_allocmem() == mem0, "%ld bytes still allocated after destroying everything", (long)r_debug_get_allocmem() - mem0);
}

static void inputs(std::vector<Text> &out, std::vector<std::string> &by, const std::vector<uint32_t> &al, unsigned len, bool utf)
{
	for (uint64_t i = 0; i < vh::nstrings(al.size(), len); i++) { Text t; for (int c : vh::nthstring(i, al.size())) t.push_back(al[c]); out.push_back(t); std::string s; if (utf) s = utf8(t); else for (auto c : t) s += (char)c; by.push_back(s); }
}
static void setup()
{
	bool th = vh::thorough;
	E = exprs(th);
	inputs(IN, BN, {'a', 'b', 'c', '\n'}, th ? 5 : 4, true);
	// longer runs over two letters, so that counted repeats up to 9 copies are told apart
	for (uint64_t i = vh::nstrings(2, th ? 5 : 4); i < vh::nstrings(2, th ? 9 : 8); i++) { Text t; for (int c : vh::nthstring(i, 2)) t.push_back("ab"[c]); IN.push_back(t); BN.push_back(utf8(t)); }
	// multi-byte characters, including ones whose low byte equals an operator character
	std::vector<P> A = {uch(0xe9), uch(0x4e2d), uch(0x1f600), uch(0x17b), uch(0x128), uch(0x15d), uch(0x10ffff), atom("[" + u8c(0xe0) + "-" + u8c(0xff) + "]", {{0xe0, 0xff}}), atom("[#x4e00-#x4eff]", {{0x4e00, 0x4eff}}), atom("[^" + u8c(0xe9) + "]", {{0xe9, 0xe9}}, true), any(), ch('a'), atom("[a" + u8c(0x17b) + u8c(0x1f600) + "]", {{'a', 'a'}, {0x17b, 0x17b}, {0x1f600, 0x1f600}}), atom("[^#x80-#x10ffff]", {{0x80, 0x10ffff}}, true), uch(0x2028), uch(0x7f), uch(0x80), uch(0x7ff), uch(0x800), uch(0xffff), uch(0x10000), uch(0x12a), uch(0x12b), uch(0x13f), uch(0x17c), uch(0x15b), uch(0x129), uch(0x12e), uch(0x15c), uch(0x123), uch(0x120), uch(0x10a), uch(0x10d), uch(0x109)};
	for (auto &x : A) for (auto &z : QALL) EU.push_back(q(x, z));
	for (auto &x : A) for (auto &y : A) { EU.push_back(cat(x, y)); EU.push_back(alt(x, y)); EU.push_back(cat(q(x, QTINY[1]), y)); EU.push_back(q(alt(x, y), QTINY[3])); }
	inputs(INU, BU, {'a', 0xe9, 0x4e2d, 0x1f600, 0x17b, 0x128, 0x15d, 0xff, '\n'}, 3, true);
	for (uint32_t c : {0x7fu, 0x80u, 0x7ffu, 0x800u, 0xffffu, 0x10000u, 0x10ffffu, 0x2028u, 0x12au, 0x12bu, 0x13fu, 0x17cu, 0x15bu, 0x129u, 0x12eu, 0x15cu, 0x123u, 0x120u, 0x10au, 0x10du, 0x109u, 0x7bu, 0x28u, 0x5du, 0xe0u, 0xdfu, 0x100u}) for (uint32_t d : {0u, 0x61u, 0xe9u, 0x7fu, 0x80u, 0x7ffu, 0x800u, 0xffffu, 0x10000u, 0x10ffffu, 0x12au, 0x15du}) { Text t{c}; if (d) t.push_back(d); INU.push_back(t); BU.push_back(utf8(t)); }
	// bytes
	std::vector<P> B = {atom("[#x80-#xff]", {{0x80, 0xff}}), atom("[#xe9]", {{0xe9, 0xe9}}), atom("[^#x80]", {{0x80, 0x80}}, true), any(), ch('a'), atom("[^a]", {{'a', 'a'}}, true), atom("[#xff]", {{0xff, 0xff}}), atom("[#x7f-#x80]", {{0x7f, 0x80}})};
	for (auto &x : B) for (auto &z : QALL) EB.push_back(q(x, z));
	for (auto &x : B) for (auto &y : B) { EB.push_back(cat(x, y)); EB.push_back(alt(x, y)); EB.push_back(cat(q(x, QTINY[1]), y)); EB.push_back(q(alt(x, y), QTINY[3])); }
	inputs(INB, BB, {'a', 0xe9, 0x80, 0x7f, 0xff, '\n', 0xc3}, 4, false);
	// classes: every one of up to three members out of the letters and ranges of a..e, alone and two of them in an expression
	{
		std::vector<std::pair<uint32_t, uint32_t>> m; std::vector<P> two;
		for (uint32_t x = 'a'; x <= 'e'; x++) for (uint32_t y = x; y <= 'e'; y++) m.push_back({x, y});
		for (uint64_t i = 1; i < vh::nstrings(m.size(), th ? 4 : 3); i++) for (int neg = 0; neg < 2; neg++) {
			std::string t = neg ? "[^" : "["; std::vector<std::pair<uint32_t, uint32_t>> r;
			for (int c : vh::nthstring(i, m.size())) { t += (char)m[c].first; if (m[c].first != m[c].second) { t += '-'; t += (char)m[c].second; } r.push_back(m[c]); }
			EC.push_back(atom(t + "]", r, neg)); if (r.size() <= 1) two.push_back(EC.back()); else if (r.size() == 2) EC.push_back(cat(EC.back(), ch('a')));
		}
		for (auto &x : two) for (auto &y : two) { EC.push_back(alt(cat(x, ch('b')), cat(y, ch('c')))); EC.push_back(alt(cat(x, ch('b')), y)); EC.push_back(cat(q(x, QTINY[1]), y)); for (auto &z : two) if (!z->neg) EC.push_back(alt(alt(cat(x, ch('a')), cat(y, ch('c'))), cat(z, ch('e')))); }
		inputs(INC, BC, {'`', 'a', 'b', 'c', 'd', 'e', 'f'}, 2, true);
	}
	auto reg = [](const char *n, std::vector<P> &v, std::vector<Text> &in, std::vector<std::string> &b, bool u, bool y) {
		vh::families.push_back({n, v.size(), [&v, &in, &b, u, y](uint64_t i) { check(v[i], in, b, u, y); }, [&v](uint64_t i) { return v[i]->s; }, 16});
	};
	reg("ascii", E, IN, BN, true, false);
	reg("classes", EC, INC, BC, true, false);
	reg("utf8", EU, INU, BU, true, false);
	reg("byte", EB, INB, BB, false, true);
	static std::vector<Large> LA = larges(th);
	vh::families.push_back({"large", LA.size(), [](uint64_t i) { P e = LA[i].e(); std::vector<Text> in = LA[i].in(e); in.erase(std::remove_if(in.begin(), in.end(), [](const Text &t) { return t.size() > 1000; }), in.end()); std::vector<std::string> by; for (auto &t : in) by.push_back(utf8(t)); check(e, in, by, true, false); }, [](uint64_t i) { return LA[i].name + " " + LA[i].e()->s; }, 2});
}
int main(int c, char **v) { return vh::main(c, v, setup); }
