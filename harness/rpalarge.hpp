// Grammars with many rules, alternatives, members, elements or levels, each with the inputs that tell its neighbours apart.
#pragma once
#include "pegmodel.hpp"
namespace peg {
typedef std::vector<uint32_t> LIn;
struct LargeG { std::string name; std::function<Grammar()> g; std::function<std::vector<LIn>()> in; std::vector<int> rules; };   // rules: the ones to try
inline std::string lword(uint64_t i, const std::string &al) { std::string w; i++; while (i) { i--; w += al[i % al.size()]; i /= al.size(); } return w; }
inline LIn lin(const std::string &s) { return LIn(s.begin(), s.end()); }
inline LIn lrep(const std::string &s, unsigned n) { LIn r; while (n--) for (char c : s) r.push_back(c); return r; }
inline LIn ljoin(LIn a, const LIn &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline PP lstr(const std::string &w) { return w.size() == 1 ? chr(w[0]) : str("'" + w + "'", LIn(w.begin(), w.end())); }
inline PP lseq(const std::string &w) { std::vector<PP> v; for (char c : w) v.push_back(chr(c)); return node(SEQ, v); }
inline std::string lcode(uint32_t c) { char b[16]; snprintf(b, sizeof b, "#x%x", c); return b; }
inline std::vector<unsigned> lsizes(unsigned to) { std::vector<unsigned> r; for (unsigned n = 3; n <= to; n++) if (n <= 20 || (n >= 30 && n <= 34) || (n >= 62 && n <= 66) || (n >= 126 && n <= 130) || n % 40 == 0 || (n >= 254 && n <= 258)) r.push_back(n); return r; }
inline std::vector<LargeG> largegrammars(bool big)
{
	std::vector<LargeG> o;
	auto add = [&](const char *n, std::function<Grammar()> g, std::function<std::vector<LIn>()> in, std::vector<int> rules = {0}) { o.push_back({n, g, in, rules}); };
	// long literals, as a string or as a sequence
	for (unsigned k : lsizes(big ? 258 : 130)) for (int f = 0; f < 3; f++) {
		std::string w; for (unsigned i = 0; i < k; i++) w += "abcde"[(i * i + i / 7) % 5];
		add("literal", [=] { PP x = f == 0 ? node(SEQ, {lstr(w)}) : f == 1 ? lseq(w) : node(SEQ, {withq(lstr(w), '+')}); return Grammar{{{"S", x}}}; }, [=] { std::vector<LIn> r; LIn t = lin(w); r.push_back(t); r.push_back(ljoin(t, t)); r.push_back(ljoin(lin("a"), t)); LIn e(3, t.back()); r.push_back(ljoin(t, e)); for (unsigned i = 0; i < k; i++) { LIn q = t; q[i] = q[i] == 'e' ? 'a' : q[i] + 1; r.push_back(q); } t.pop_back(); r.push_back(t); return r; });
	}
	auto words = [](unsigned n) { std::vector<LIn> r; for (unsigned i = 0; i < n && i < 363; i++) { r.push_back(lin(lword(i, "abc"))); r.push_back(lin(lword(i, "abc") + "d")); } return r; };
	// many alternatives
	for (unsigned n : lsizes(big ? 300 : 130)) for (int f = 0; f < 4; f++)
		add("alternatives", [=] { std::vector<PP> v; for (unsigned i = 0; i < n; i++) { std::string w = lword(f == 2 ? n - 1 - i : i * 7 % 363, "abc"); v.push_back(f & 1 ? lseq(w) : node(SEQ, {lstr(w)})); } PP a = node(ALT, v); if (f == 3) a = node(SEQ, {node(NOT, {chr('b')}), withq(node(GRP, {a}), '*')}); return Grammar{{{"S", a}}}; }, [=] { return words(n + 20); });
	// many members: of a class, of an alternation of characters
	for (unsigned n : lsizes(big ? 300 : 130)) for (int f = 0; f < 4; f++)
		add("members", [=] { std::vector<std::pair<uint32_t, uint32_t>> m; std::string t = "["; std::vector<PP> v;
			for (unsigned i = 0; i < n; i++) { uint32_t c = 0x7e + 3 * (f == 1 ? n - i : i), d = i & 1 ? c + 1 : c; std::string x = lcode(c); if (d != c) x += "-" + lcode(d); m.push_back({c, d}); t += x; if (f == 2) v.push_back(node(SEQ, {cls("[" + x + "]", {{c, d}})})); if (f == 3) v.push_back(node(SEQ, {cls("[" + x + "]", {{c, d}}), withq(chr('a'), '?')})); }
			PP a = f < 2 ? node(SEQ, {cls(t + "]", m), withq(chr('a'), '?')}) : f == 2 ? node(SEQ, {withq(node(GRP, {node(ALT, v)}), '+')}) : node(ALT, v); return Grammar{{{"S", a}}}; }, [=] { std::vector<LIn> r; for (uint32_t c = 0x7d; c <= 0x84 + 3 * n; c++) r.push_back({c, 'a'}); r.push_back({0x7e, 0x81, 0x82, 0x83}); return r; });
	// many elements
	for (unsigned n : lsizes(130)) for (int f = 0; f < 3; f++)
		add("elements", [=] { std::vector<PP> v; for (unsigned i = 0; i < n; i++) v.push_back(f == 0 ? withq(chr("ab"[i & 1]), '?') : f == 1 ? withq(chr("abc"[i % 3]), "*+?"[i % 3]) : withq(cls("[ab]", {{'a', 'b'}}), i % 4 ? 0 : '?')); return Grammar{{{"S", node(SEQ, v)}}}; }, [=] { std::vector<LIn> r; for (unsigned k = 0; k <= n + 1; k++) { r.push_back(lrep("a", k)); r.push_back(lrep("ab", k)); r.push_back(lrep("abc", k)); r.push_back(ljoin(lrep("ba", k), lin("cc"))); } return r; });
	// many rules: each calling the next, in the order of the text or against it
	auto nm = [](unsigned i) { return "r" + std::to_string(i) + "_"; };
	for (unsigned n : lsizes(big ? 258 : 130)) for (int f = 0; f < 4; f++)
		add("chain", [=] { Grammar g; for (unsigned i = 0; i < n; i++) { int nx = f & 1 ? (int)i - 1 : i + 1 < n ? (int)i + 1 : -1; std::vector<PP> v; if (f & 2) v.push_back(chr("ab"[i & 1])); v.push_back(nx < 0 ? chr('c') : ref(nx)); if (!(f & 2)) v.push_back(withq(chr("ab"[i & 1]), '?')); g.r.push_back({nm(i), node(SEQ, v)}); } return g; }, [=] { std::vector<LIn> r; for (unsigned k = 0; k <= n; k += n < 40 ? 1 : 7) { LIn p; for (unsigned i = 0; i < k; i++) p.push_back(f == 3 ? "ab"[(n - 1 - i) & 1] : "ab"[i & 1]); p.push_back('c'); r.push_back(p); LIn q = lin("c"); for (unsigned i = 0; i < k; i++) q.push_back("ab"[(f & 1 ? i : n - 2 - i) & 1]); r.push_back(q); r.push_back(ljoin(lrep("ba", k), lin("c"))); r.push_back(lrep("ab", k)); } LIn p; for (unsigned i = 0; i + 1 < n; i++) p.push_back("ab"[(f == 3 ? n - 1 - i : i) & 1]); p.push_back('c'); r.push_back(p); return r; }, {0, (int)n - 1, (int)n / 2});
	// one rule choosing among many
	for (unsigned n : lsizes(big ? 300 : 130)) for (int f = 0; f < 3; f++)
		add("fan", [=] { Grammar g; std::vector<PP> v; for (unsigned i = 0; i < n; i++) v.push_back(node(SEQ, {f == 2 ? withq(ref(i), '+') : ref(i)})); for (unsigned i = 0; i < n; i++) g.r.push_back({nm(i), lseq(lword(f == 1 ? n - 1 - i : i * 7 % 363, "abc"))}); g.r.push_back({"S", node(ALT, v)}); return g; }, [=] { return words(n + 20); }, {(int)n, 0, (int)n - 1});
	// rules in a ring
	for (unsigned n : lsizes(66)) for (int f = 0; f < 2; f++)
		add("ring", [=] { Grammar g; for (unsigned i = 0; i < n; i++) { PP nx = ref((i + (f ? 3 : 1)) % n); g.r.push_back({nm(i), node(ALT, {node(SEQ, {chr("ab"[i & 1]), nx}), node(SEQ, {chr('c'), nx, chr('c')}), node(SEQ, {chr("abc"[i % 3])})})}); } return g; }, [=] { std::vector<LIn> r; for (unsigned k = 1; k < 12; k++) { r.push_back(lrep("ab", k)); r.push_back(lrep("a", k)); r.push_back(ljoin(lrep("c", k), lin("abacc"))); r.push_back(lrep("abb", k)); } return r; }, {0, 1, (int)n - 1});
	// many exclusions, many levels of brackets
	for (unsigned n : lsizes(66)) add("exclusions", [=] { std::vector<PP> v{node(SEQ, {any()})}; for (unsigned i = 0; i < n; i++) v.push_back(node(SEQ, {cls("[" + lcode(0x60 + 2 * i) + "]", {{0x60 + 2 * i, 0x60 + 2 * i}})})); std::vector<PP> w; for (PP x : v) w.push_back(x->kid[0]); return Grammar{{{"S", node(SEQ, {withq(node(GRP, {node(MIN, w)}), '+')})}}}; }, [=] { std::vector<LIn> r; for (uint32_t c = 0x5f; c < 0x62 + 2 * n; c++) { r.push_back({c}); r.push_back({0x61, c, 0x61}); } return r; });
	for (unsigned n = 3; n <= 16; n++) for (int f = 0; f < 4; f++)
		add("levels", [=] { PP e = chr('a'); for (unsigned i = 0; i < n; i++) { PP c = chr("bc"[i & 1]); PP in = f == 0 ? node(SEQ, {e, c}) : f == 1 ? node(SEQ, {c, e}) : node(ALT, {node(SEQ, {c, e}), node(SEQ, {chr('a')})}); e = f == 3 ? withq(node(GRP, {in}), "?+*"[i % 3]) : i + 1 < n ? node(GRP, {in}) : in; } return Grammar{{{"S", e->k == ALT || e->k == SEQ ? e : node(SEQ, {e})}}}; }, [=] { std::vector<LIn> r; for (unsigned k = 0; k <= n + 1; k++) { LIn d; for (unsigned i = 0; i < k; i++) d.push_back("bc"[(n - 1 - i) & 1]); r.push_back(ljoin(d, lin("a"))); r.push_back(d); r.push_back(ljoin(lin("a"), lrep("bc", k))); r.push_back(ljoin(ljoin(d, lin("a")), ljoin(d, lin("a")))); } return r; });
	return o;
}
}
