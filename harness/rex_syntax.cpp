// R04: which texts are expressions, and what a rejected text does to the database it was offered to.
// Reference: a recursive-descent reader of the documented expression syntax, written without looking at the token tricks
// of the compiler, producing the tree of rexmodel.hpp.
#include "vh.hpp"
#include "rexmodel.hpp"
extern "C" {
#include "rlib/rmem.h"
#include "rex/rexdef.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexregex.h"
}
using namespace rm;

struct Reader {
	std::string s; size_t p = 0; bool bad = false, vague = false;
	explicit Reader(const std::string &x) : s(x) { skip(); }
	// a line end ends the expression; where blanks may stand, a backslash in front of it continues on the next line;
	// behind '|' any white space may stand, line ends included
	bool end() { return p >= s.size() || s[p] == '\n' || s[p] == '\r'; }
	int cur() { return end() ? -1 : (unsigned char)s[p]; }
	void skip(bool all = false) { for (;;) { if (p < s.size() && (s[p] == ' ' || s[p] == '\t' || (all && s[p] && strchr("\n\r\v\f", s[p])))) p++; else if (s.compare(p, 2, "\\\n") == 0) p += 2; else if (s.compare(p, 3, "\\\r\n") == 0) p += 3; else return; } }
	int take() { return end() ? -1 : (unsigned char)s[p++]; }
	P err() { bad = true; return nullptr; }
	static int escaped(int c) { switch (c) { case 'n': return '\n'; case 'r': return '\r'; case 't': return '\t'; case '0': return 0; case 'f': return '\f'; case 'v': return '\v'; } return c; }
	P alternation()
	{
		P l = sequence(); if (bad) return l;
		while (cur() == '|') { p++; skip(true); P r = sequence(); if (bad) return r; l = alt(l, r); }
		return l;
	}
	P sequence()
	{
		P l;
		while (!end() && cur() != '|' && cur() != ')') { P r = item(); if (bad) return r; l = l ? cat(l, r) : r; }
		return l ? l : err();
	}
	P item()
	{
		P x; int c = cur();
		if (c && strchr("{}*?+]", c)) return err();
		if (c == '[') x = klass();
		else if (c == '(') { p++; skip(); x = alternation(); if (bad) return x; if (cur() != ')') return err(); p++; skip(); }
		else if (c == '.') { x = any(); p++; skip(); }
		else { int v = take(); if (v == '\\') { if (end()) return err(); v = escaped(take()); } x = atom("?", {{(uint32_t)v, (uint32_t)v}}); skip(); }
		if (bad) return x;
		switch (cur()) {
		case '*': p++; skip(); return rep(x, 0, INF, "*");
		case '+': p++; skip(); return rep(x, 1, INF, "+");
		case '?': p++; skip(); return rep(x, 0, 1, "?");
		case '{': {
			unsigned lo, hi;
			p++; skip();
			if (!number(lo)) return err();
			hi = lo; skip();
			if (cur() == ',') { p++; skip(); if (isdigit(cur())) { if (!number(hi)) return err(); skip(); } else hi = INF; }
			if (cur() != '}') return err();
			p++; skip();
			if (hi != INF && lo > hi) return err();
			return rep(x, lo, hi, "{}");
		}
		}
		return x;
	}
	bool number(unsigned &v) { if (end() || !isdigit(cur())) return false; size_t from = p; v = 0; while (!end() && isdigit(cur())) v = v * 10 + (take() - '0'); if (p - from > 127) vague = true; return true; }
	bool member(uint32_t &v)
	{
		int c = cur();
		if (c < 0 || c == '[' || c == ']' || c == '-') return false;
		if (c == '#') {
			p++; unsigned base = 10; std::string d;
			if (cur() == 'x') { p++; base = 16; }
			else if (cur() == '0') { p++; if (cur() == 'x') { p++; base = 16; } else { base = 8; d = "0"; } }
			else if (end() || !isdigit(cur())) return false;
			while (!end() && (base == 16 ? isxdigit(cur()) : isdigit(cur()))) d += (char)take();
			if (d.size() > 126) vague = true;
			if (d.empty() || (base == 8 && d.find_first_of("89") != std::string::npos)) { vague = true; d = "0"; }
			v = strtoul(d.c_str(), 0, base);
			return true;
		}
		p++;
		if (c == '\\') { if (end()) return false; c = escaped(take()); }
		v = c; return true;
	}
	P klass()
	{
		p++; bool neg = false; std::vector<std::pair<uint32_t, uint32_t>> r;
		if (cur() == '^') { neg = true; p++; }
		do {
			uint32_t a, b; if (!member(a)) return err();
			b = a;
			if (cur() == '-') { p++; if (!member(b)) return err(); }
			r.push_back({std::min(a, b), std::max(a, b)});
		} while (cur() != ']');
		p++; skip();
		return atom("[]", r, neg);
	}
	P read() { P e = alternation(); if (!bad && !end()) return err(); return e; }
};

static std::vector<Text> IN; static std::vector<std::string> BY;
static Text T(const char *s) { Text t; for (; *s; s++) t.push_back((unsigned char)*s); return t; }

static void check(const std::string &e, bool full)
{
	Reader rd(e); P ref = rd.read();
	bool ok = !rd.bad;
	long mem0 = r_debug_get_allocmem();
	char *p = (char *)malloc(e.size() ? e.size() : 1); memcpy(p, e.data(), e.size());   // exact size: over-reads are noticed
	{
		rexdb_t *db = rex_db_create(REXDB_TYPE_NFA);
		long r = rex_db_addexpression(db, -1, p, e.size(), 5);
		VH_CHECK(rd.vague || (r >= 0) == ok, "an empty database %s it, the syntax says it is %s", r >= 0 ? "accepted" : "refused", ok ? "an expression" : "malformed");
		if (r < 0) VH_CHECK(rex_db_numstates(db) == 0, "%ld states left in an empty database by a refused expression", (long)rex_db_numstates(db));
		rex_db_destroy(db);
	}
	uint64_t h = ok;
	if (full || ok) {
		rexregex_t *rx = rex_regex_create(p, e.size());
		VH_CHECK(rd.vague || (rx != NULL) == ok, "regex object %s, the syntax says it is %s", rx ? "created" : "refused", ok ? "an expression" : "malformed");
		if (rx) {
			if (ok && !rd.vague) for (size_t k = 0; k < IN.size(); k++) {
				int m = longest(ref, IN[k]); int g = rex_regex_match(rx, REX_ENCODING_BYTE, BY[k].data(), BY[k].data() + BY[k].size());
				VH_CHECK(m == g, "on '%s' the regex object matches %d bytes, the expression says %d", vh::esc(BY[k]).c_str(), g, m);
				h = vh::mix(h, m);
			}
			vh::steps(IN.size()); vh::traces(IN.size());
			rex_regex_destroy(rx);
		}
	}
	if (full) {
		// between two good expressions
		rexdb_t *db = rex_db_create(REXDB_TYPE_NFA);
		long s0 = rex_db_addexpression_s(db, -1, "ab|c", 1);
		VH_CHECK(s0 >= 0, "good expression refused");
		long n0 = rex_db_numstates(db);
		long r = rex_db_addexpression(db, s0, p, e.size(), 2);
		VH_CHECK(rd.vague || (r == s0) == ok, "second expression: returned %ld, the syntax says it is %s", r, ok ? "an expression" : "malformed");
		if (r < 0) VH_CHECK(rex_db_numstates(db) == n0, "a refused expression changed the number of states from %ld to %ld", n0, (long)rex_db_numstates(db));
		long r3 = rex_db_addexpression_s(db, s0, "b[a-b]{2}", 3);
		VH_CHECK(r3 == s0, "a good expression after it is refused");
		rexdb_t *dfa = rex_db_createdfa(db, s0); VH_CHECK(dfa, "no DFA");
		rexdfa_t *d = rex_db_todfa(dfa, 0); VH_CHECK(d, "no frozen DFA");
		static P g1 = alt(cat(ch('a'), ch('b')), ch('c')), g3 = cat(ch('b'), rep(atom("", {{'a', 'b'}}), 2, 2, ""));
		for (size_t k = 0; k < IN.size(); k++) if (!IN[k].empty()) {
			rexuint_t st = REX_DFA_STARTSTATE; for (auto c : IN[k]) st = rex_dfa_next(d, st, c);
			unsigned got = 0, want = 0;
			rexdfs_t *ds = rex_dfa_state(d, st);
			for (rexuint_t a = 0; a < ds->naccsubstates; a++) got |= 1u << rex_dfa_accsubstate(d, st, a)->userdata;
			if (whole(g1, IN[k])) want |= 2;
			if (whole(g3, IN[k])) want |= 8;
			if (rd.vague) got &= ~4u; else if (ok && whole(ref, IN[k])) want |= 4;
			VH_CHECK(got == want, "on '%s' the database reports expressions %x, want %x", vh::esc(BY[k]).c_str(), got, want);
			h = vh::mix(h, got);
		}
		vh::steps(IN.size()); vh::traces(IN.size());
		rex_dfa_destroy(d); rex_db_destroy(dfa); rex_db_destroy(db);
	}
	free(p);
	VH_CHECK((long)r_debug_get_allocmem() == mem0, "memory not released");
	vh::distinct(h); vh::eval(); vh::traces();
}
static std::vector<std::string> names, alphas;
static void setup()
{
	bool th = vh::thorough;
	for (uint64_t i = 0; i < vh::nstrings(3, 4); i++) { Text t; for (int c : vh::nthstring(i, 3)) t.push_back("abc"[c]); IN.push_back(t); }
	const char *al = "()[]|*?+{}12,-^\\.#x0\n ";
	for (const char *q = al; *q; q++) { IN.push_back({(uint32_t)*q}); IN.push_back({'a', (uint32_t)*q}); IN.push_back({(uint32_t)*q, 'a'}); IN.push_back({(uint32_t)*q, (uint32_t)*q}); }
	for (uint32_t c = 0; c < 20; c++) IN.push_back({c});
	IN.push_back(T("12")); IN.push_back(T("a-b")); IN.push_back(T("a,1")); IN.push_back(T("1,2"));
	for (int n = 5; n < 29; n++) IN.push_back(Text(n, 'a'));
	BY.clear(); for (auto &t : IN) BY.push_back(utf8(t));
	auto reg = [](const char *n, const std::string &a, unsigned len, unsigned fulllen, const char *pre, const char *post) {
		std::string A = a, p0 = pre, p1 = post; uint64_t lim = vh::nstrings(A.size(), fulllen);
		vh::families.push_back({n, vh::nstrings(A.size(), len), [A, lim, p0, p1](uint64_t i) { check(p0 + vh::nthtext(i, A) + p1, i < lim); }, [A, p0, p1](uint64_t i) { return p0 + vh::nthtext(i, A) + p1; }, 256});
	};
	reg("all", "ab()[]|*?+{}12,-^\\.#", th ? 5 : 4, th ? 4 : 3, "", "");
	reg("groups", "a()|*{", th ? 8 : 6, th ? 7 : 5, "", "");
	reg("class", "]ab-^\\#1x[", th ? 6 : 5, th ? 5 : 4, "[", "");
	reg("class-closed", "]ab-^\\#1x0", th ? 6 : 5, th ? 5 : 4, "[", "]");
	reg("counts", "}012, a", th ? 6 : 5, th ? 5 : 4, "(ab){", "");
	reg("counts-closed", "12,0} *a", th ? 5 : 4, th ? 4 : 4, "b{", "}");
	reg("blanks", "a \t|(){*}[]\\", th ? 5 : 4, th ? 4 : 3, "", "");
	// every part of an expression that can be made longer, at every length
	static const struct { const char *pre, *unit, *mid, *close, *post; int max; } PUMP[] = {
		{"a{", "0", "2", "", "}", 600}, {"a{1,", "0", "3", "", "}b", 600}, {"(ab){", "0", "1,", "0", "2}", 600}, {"a{", "0", "2,", "", "}", 600}, {"a{", "0", "", "", "", 600}, {"a{1,", "0", "", "", "", 600}, {"a{1", " ", ",", " ", "2}", 600}, {"a{", "0", "2 x", "", "}", 600},
		{"[#", "0", "141", "", "]", 600}, {"[#x", "0", "61", "", "]", 600}, {"[#0x", "0", "61", "", "]b", 600}, {"[a-#x", "0", "63", "", "]", 600}, {"[#x", "0", "61-#98", "", "]", 600}, {"[#", "0", "", "", "", 600}, {"[#x", "0", "", "", "", 600},
		{"", "a", "", "", "", 200}, {"b", "a?", "", "", "", 40}, {"", "(", "a", ")", "", 300}, {"", "(", "a", ")", "*", 300}, {"", "(", "a", "", "", 300}, {"a", ")", "", "", "", 300}, {"", "(a", "", ")", "", 200}, {"", "(a|", "b", ")", "", 200},
		{"[", "a", "", "", "]", 600}, {"[", "a-c", "", "", "]b", 600}, {"[^", "a", "b", "", "]", 600}, {"[", "a", "", "", "", 600}, {"[", "\\n", "", "", "]", 600}, {"", "\\n", "", "", "", 200}, {"", "\\", "", "", "", 200}, {"a", " ", "b", " ", "", 600}, {"a", "|a", "", "", "", 200}, {"a", "|", "", "", "", 200}, {"", "a*", "", "", "", 60}, {"a", "*", "", "", "", 200}, {"a", "{1}", "", "", "", 60}, {"", "[", "a", "]", "", 200}, {"[", "^", "", "", "]", 600}, {"[a", "-", "b", "", "]", 600}, {"[", "#98", "", "", "]", 300},
	};
	auto pump = [](uint64_t i, bool &full) { for (auto &p : PUMP) { if (i < (uint64_t)p.max) { full = i < 140 || i % 16 == 0; std::string s = p.pre; for (uint64_t k = 0; k <= i; k++) s += p.unit; s += p.mid; for (uint64_t k = 0; k <= i; k++) s += p.close; return s + p.post; } i -= p.max; } return std::string(); };
	uint64_t total = 0; for (auto &p : PUMP) total += p.max;
	vh::families.push_back({"long", total, [pump](uint64_t i) { bool f; std::string s = pump(i, f); check(s, f); }, [pump](uint64_t i) { bool f; return pump(i, f); }, 8});
	reg("nul", std::string("\0a|()*\\[]-", 10), th ? 6 : 5, th ? 5 : 4, "", "");
	reg("lines", "\n\\\ra|(*) ", th ? 6 : 5, th ? 5 : 4, "", "");
	reg("lines-class", "\n\\\ra-]", th ? 6 : 5, th ? 5 : 4, "[", "");
	reg("escapes", "\\nrt0fvd\"'.*[]-", th ? 5 : 4, th ? 4 : 3, "", "");
}
int main(int c, char **v) { return vh::main(c, v, setup); }
