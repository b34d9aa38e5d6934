// Reference model of the rex pattern language: an expression tree, its text, and a set-of-positions matcher.
#pragma once
#include <bitset>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <utility>

namespace rm {
typedef std::vector<uint32_t> Text;       // an input as a sequence of characters
struct N;
typedef std::shared_ptr<const N> P;
struct N {
	enum K { SET, CAT, ALT, REP } k;
	std::vector<std::pair<uint32_t, uint32_t>> set; // SET: accepted ranges
	bool neg = false;
	P a, b;
	unsigned lo = 0, hi = 0;               // REP: hi = ~0u means unbounded
	std::string s;                         // text
};
inline P atom(const std::string &text, std::vector<std::pair<uint32_t, uint32_t>> r, bool neg = false) { auto n = std::make_shared<N>(); n->k = N::SET; n->set = r; n->neg = neg; n->s = text; return n; }
inline P ch(char c) { return atom(std::string(1, c), {{(unsigned char)c, (unsigned char)c}}); }
inline P any() { return atom(".", {{'\n', '\n'}}, true); }
inline P cat(P a, P b) { auto n = std::make_shared<N>(); n->k = N::CAT; n->a = a; n->b = b; n->s = (a->k == N::ALT ? "(" + a->s + ")" : a->s) + (b->k == N::ALT ? "(" + b->s + ")" : b->s); return n; }
inline P alt(P a, P b) { auto n = std::make_shared<N>(); n->k = N::ALT; n->a = a; n->b = b; n->s = a->s + "|" + b->s; return n; }
inline P rep(P a, unsigned lo, unsigned hi, const std::string &q) { auto n = std::make_shared<N>(); n->k = N::REP; n->a = a; n->lo = lo; n->hi = hi; n->s = (a->k == N::SET ? a->s : "(" + a->s + ")") + q; return n; }
struct Q { const char *s; unsigned lo, hi; };
static const unsigned INF = ~0u;
inline P q(P a, const Q &x) { return *x.s ? rep(a, x.lo, x.hi, x.s) : a; }

inline bool has(const N &n, uint32_t c) { bool in = false; for (auto &r : n.set) if (c >= r.first && c <= r.second) in = true; return in != n.neg; }
// set of end positions (bit i = position i) reachable from the set of start positions
inline uint32_t ends(const P &n, const Text &t, uint32_t from)
{
	if (!from) return 0;
	switch (n->k) {
	case N::SET: { uint32_t r = 0; for (size_t i = 0; i < t.size(); i++) if ((from >> i & 1) && has(*n, t[i])) r |= 1u << (i + 1); return r; }
	case N::CAT: return ends(n->b, t, ends(n->a, t, from));
	case N::ALT: return ends(n->a, t, from) | ends(n->b, t, from);
	case N::REP: {
		uint32_t cur = from, acc = 0;
		for (unsigned i = 0; i < n->lo; i++) cur = ends(n->a, t, cur);
		acc = cur;
		if (n->hi == INF) { for (;;) { uint32_t nx = acc | ends(n->a, t, acc); if (nx == acc) break; acc = nx; } }
		else for (unsigned i = n->lo; i < n->hi; i++) { cur = ends(n->a, t, cur); acc |= cur; if (!cur) break; }
		return acc;
	}
	}
	return 0;
}
// the same for texts of up to 1023 characters
typedef std::bitset<1024> Big;
inline Big ends(const P &n, const Text &t, const Big &from)
{
	if (from.none()) return from;
	switch (n->k) {
	case N::SET: { Big r; for (size_t i = from._Find_first(); i < t.size(); i = from._Find_next(i)) if (has(*n, t[i])) r.set(i + 1); return r; }
	case N::CAT: return ends(n->b, t, ends(n->a, t, from));
	case N::ALT: return ends(n->a, t, from) | ends(n->b, t, from);
	case N::REP: {
		Big cur = from, acc;
		for (unsigned i = 0; i < n->lo; i++) cur = ends(n->a, t, cur);
		acc = cur;
		if (n->hi == INF) { for (;;) { Big nx = acc | ends(n->a, t, acc); if (nx == acc) break; acc = nx; } }
		else for (unsigned i = n->lo; i < n->hi; i++) { cur = ends(n->a, t, cur); acc |= cur; if (cur.none()) break; }
		return acc;
	}
	}
	return Big();
}
// longest non-empty match starting at position p: number of characters, 0 when there is none
inline int longest(const P &n, const Text &t, size_t p = 0)
{
	if (t.size() > 31) { Big f; f.set(p); Big e = ends(n, t, f); for (size_t i = t.size(); i > p; i--) if (e[i]) return i - p; return 0; }
	uint32_t e = ends(n, t, 1u << p);
	for (int i = (int)t.size(); i > (int)p; i--) if (e >> i & 1) return i - (int)p;
	return 0;
}
inline bool whole(const P &n, const Text &t) { if (t.size() > 31) { Big f; f.set(0); return ends(n, t, f)[t.size()]; } return ends(n, t, 1u) >> t.size() & 1; }

inline void put8(std::string &s, uint32_t c)
{
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
}
inline std::string utf8(const Text &t) { std::string s; for (auto c : t) put8(s, c); return s; }
inline std::string u8c(uint32_t c) { std::string s; put8(s, c); return s; }
inline P uch(uint32_t c) { return atom(u8c(c), {{c, c}}); }

// Expression families, smallest first.
static const Q QALL[] = {{"", 1, 1}, {"*", 0, INF}, {"+", 1, INF}, {"?", 0, 1}, {"{2}", 2, 2}, {"{0}", 0, 0}, {"{1}", 1, 1}, {"{0,1}", 0, 1}, {"{1,2}", 1, 2}, {"{0,2}", 0, 2}, {"{2,}", 2, INF}, {"{1,}", 1, INF}, {"{0,}", 0, INF}, {"{2,3}", 2, 3}, {"{3}", 3, 3}, {"{1,3}", 1, 3}};
static const Q QSMALL[] = {{"", 1, 1}, {"*", 0, INF}, {"?", 0, 1}, {"{2}", 2, 2}, {"{1,2}", 1, 2}, {"{0}", 0, 0}, {"+", 1, INF}};
static const Q QTINY[] = {{"", 1, 1}, {"*", 0, INF}, {"?", 0, 1}, {"+", 1, INF}};
struct Gen {
	std::vector<P> v;
	void add(P p) { v.push_back(p); }
};
inline std::vector<P> quant(const std::vector<P> &a, const Q *qs, size_t n) { std::vector<P> r; for (size_t i = 0; i < n; i++) for (auto &x : a) r.push_back(q(x, qs[i])); return r; }
#define RMQ(x) rm::x, sizeof(rm::x) / sizeof(rm::x[0])
inline std::vector<P> exprs(bool big)
{
	std::vector<P> out;
	std::vector<P> A = {ch('a'), ch('b'), any(), atom("[ab]", {{'a', 'b'}}), atom("[^a]", {{'a', 'a'}}, true), atom("[b-c]", {{'b', 'c'}}), atom("[^b-c]", {{'b', 'c'}}, true), atom("[#x61]", {{'a', 'a'}}), atom("[^#98\\n]", {{'b', 'b'}, {10, 10}}, true), atom("\\n", {{10, 10}}), atom("[a\\n]", {{'a', 'a'}, {10, 10}}), atom("[ca-b]", {{'a', 'c'}}), atom("[#x61-#98]", {{'a', 'b'}}), atom("[^cab]", {{'a', 'c'}}, true), atom("[^a-bb-c]", {{'a', 'c'}}, true), atom("[#0x62-c]", {{'b', 'c'}}), atom("[#0142]", {{'b', 'b'}})};
	std::vector<P> a5(A.begin(), A.begin() + 5), a3(A.begin(), A.begin() + 3), a2(A.begin(), A.begin() + 2);
	auto q1 = quant(A, RMQ(QALL));
	for (auto &x : q1) out.push_back(x);                                    // atom q
	auto q5 = quant(a5, RMQ(QALL));
	for (auto &x : q5) for (auto &y : q5) { out.push_back(cat(x, y)); out.push_back(alt(x, y)); }
	for (auto &x : q1) for (auto &y : A) { out.push_back(cat(x, y)); out.push_back(alt(y, x)); }
	auto s3 = quant(a3, RMQ(QSMALL)), s2 = quant(a2, RMQ(QSMALL)), t2 = quant(a2, RMQ(QTINY));
	std::vector<P> grp;                                                       // (x y) q and (x|y) q
	for (auto &x : s3) for (auto &y : s3) for (auto &z : QALL) { if (!*z.s) continue; grp.push_back(q(cat(x, y), z)); grp.push_back(q(alt(x, y), z)); }
	for (auto &x : grp) out.push_back(x);
	for (auto &x : s2) for (auto &z : QALL) if (*z.s) for (auto &w : QALL) if (*w.s) if (x->k == N::REP) out.push_back(q(rep(x, z.lo, z.hi, z.s), w));  // ((x q) q) q
	for (auto &x : s3) if (x->k == N::REP) for (auto &z : QALL) if (*z.s) out.push_back(rep(x, z.lo, z.hi, z.s));
	for (auto &x : s2) for (auto &y : s2) for (auto &z : s2) { out.push_back(cat(cat(x, y), z)); out.push_back(alt(alt(x, y), z)); out.push_back(alt(cat(x, y), z)); out.push_back(cat(x, alt(y, z))); out.push_back(cat(alt(x, y), z)); out.push_back(alt(x, cat(y, z))); }
	// a group, quantified, with something before or after it
	for (auto &x : t2) for (auto &y : t2) for (auto &z : QALL) { if (!*z.s) continue; for (auto &w : a3) { P g = q(cat(x, y), z), h = q(alt(x, y), z); out.push_back(cat(g, w)); out.push_back(cat(w, g)); out.push_back(cat(h, w)); out.push_back(cat(w, h)); out.push_back(alt(h, w)); out.push_back(alt(w, g)); } }
	// nested groups
	for (auto &x : t2) for (auto &y : t2) for (auto &z : QSMALL) for (auto &w : a2) for (auto &u : QSMALL) { if (!*z.s || !*u.s) continue; out.push_back(q(cat(q(alt(x, y), z), w), u)); out.push_back(q(alt(q(cat(x, y), z), w), u)); }
	if (big) {
		for (auto &x : s2) for (auto &y : s2) for (auto &z : s2) for (auto &u : QALL) { if (!*u.s) continue; out.push_back(q(cat(cat(x, y), z), u)); out.push_back(q(alt(cat(x, y), z), u)); out.push_back(q(cat(x, alt(y, z)), u)); }
		for (auto &x : t2) for (auto &y : t2) for (auto &z : t2) for (auto &w : t2) { out.push_back(cat(alt(x, y), alt(z, w))); out.push_back(alt(cat(x, y), cat(z, w))); out.push_back(cat(q(alt(x, y), QTINY[1]), cat(z, w))); out.push_back(cat(cat(x, y), q(cat(z, w), QTINY[3]))); out.push_back(alt(alt(x, y), cat(z, w))); }
		for (size_t i = 0; i < grp.size(); i += 1) for (auto &w : a2) out.push_back(cat(grp[i], w));
	}
	return out;
}
// Expressions with many states, characters, alternatives or levels, each with the texts that tell its neighbours apart.
struct Large { std::string name; std::function<P()> e; std::function<std::vector<Text>(const P &)> in; };
inline Text txt(const std::string &s) { return Text(s.begin(), s.end()); }
inline Text rpt(const std::string &s, unsigned n) { Text r; while (n--) for (char c : s) r.push_back(c); return r; }
inline Text join(Text a, const Text &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline std::string word(uint64_t i, const std::string &al) { std::string w; i++; while (i) { i--; w += al[i % al.size()]; i /= al.size(); } return w; }      // words in order of length
inline P lit(const std::string &w) { P e = ch(w[0]); for (size_t i = 1; i < w.size(); i++) e = cat(e, ch(w[i])); return e; }
inline std::vector<Large> larges(bool big)
{
	std::vector<Large> o;
	std::vector<unsigned> ks; for (unsigned k = 4; k <= 300; k++) if (k <= 34 || (k >= 62 && k <= 66) || (k >= 126 && k <= 130) || (k >= 254 && k <= 258) || k == 300 || (big && k % 5 == 0)) ks.push_back(k);
	// counted repeats
	for (unsigned k : ks) for (int f = 0; f < 6; f++) {
		std::string n = std::to_string(k);
		o.push_back({"repeat", [=] { switch (f) { case 0: return rep(ch('a'), k, k, "{" + n + "}"); case 1: return rep(ch('a'), k, INF, "{" + n + ",}"); case 2: return rep(ch('a'), 0, k, "{0," + n + "}"); case 3: return rep(alt(ch('a'), ch('b')), k, k + 1, "{" + n + "," + std::to_string(k + 1) + "}"); case 4: return rep(lit("ab"), k, k, "{" + n + "}"); } return cat(rep(ch('a'), k, k + 2, "{" + n + "," + std::to_string(k + 2) + "}"), ch('b')); }, [=](const P &) {
			std::vector<Text> r; for (unsigned x : {0u, 1u, k - 1, k, k + 1, k + 2, k + 3, 2 * k, 2 * k + 1, 3 * k}) { r.push_back(rpt("a", x)); r.push_back(join(rpt("a", x), txt("b"))); r.push_back(join(rpt("a", x), txt("ba"))); r.push_back(rpt("ab", x)); r.push_back(join(rpt("ab", x), txt("a"))); r.push_back(join(rpt("ba", x), txt("b"))); } return r; }});
	}
	// automata with exponentially many states
	for (unsigned k = 1; k <= (big ? 9u : 8u); k++) for (int f = 0; f < 3; f++) o.push_back({"window", [=] { P ab = alt(ch('a'), ch('b')), e = f == 2 ? cat(rep(any(), 0, INF, "*"), ch('a')) : cat(rep(ab, 0, INF, "*"), ch('a')); if (f == 0) { for (unsigned i = 0; i < k; i++) e = cat(e, ab); return e; } return cat(e, rep(f == 2 ? any() : ab, k, k, "{" + std::to_string(k) + "}")); }, [=](const P &) {
		std::vector<Text> r; for (unsigned m = 0; m < (2u << k); m++) { Text t; for (unsigned i = 0; i <= k; i++) t.push_back(m >> i & 1 ? 'a' : 'b'); r.push_back(t); r.push_back(join(t, t)); } return r; }});
	// long literals
	for (unsigned k = 5; k <= (big ? 300u : 130u); k += k < 40 ? 1 : 15) o.push_back({"literal", [=] { std::string w; for (unsigned i = 0; i < k; i++) w += "abcde"[(i * i + i / 7) % 5]; return lit(w); }, [=](const P &e) {
		std::vector<Text> r; Text w = txt(e->s); r.push_back(w); r.push_back(join(w, w)); r.push_back(join(w, txt("a"))); r.push_back(join(txt("ab"), w)); Text p = w; p.pop_back(); r.push_back(p); r.push_back(join(p, w)); for (unsigned i = 0; i < k; i++) { Text q = w; q[i] = q[i] == 'e' ? 'a' : q[i] + 1; r.push_back(q); } return r; }});
	// many words, many members, many alternatives
	for (unsigned n = 3; n <= (big ? 360u : 160u); n += n < 40 ? 1 : 8) for (int f = 0; f < 3; f++) o.push_back({"words", [=] { std::string al = f == 1 ? "cba" : "abc"; P e; for (unsigned i = 0; i < n; i++) { P w = lit(word(f == 2 ? i * 7 % 363 : i, al)); e = e ? alt(e, w) : w; } return e; }, [](const P &) { std::vector<Text> r; for (unsigned i = 0; i < 363; i++) r.push_back(txt(word(i, "abc"))); for (unsigned i = 0; i < 100; i++) r.push_back(join(txt("d"), txt(word(i * 3, "abc")))); return r; }});
	for (unsigned n = 3; n <= 200; n += n < 40 ? 1 : 20) for (int f = 0; f < 4; f++) o.push_back({"members", [=] {
		std::vector<std::pair<uint32_t, uint32_t>> m; std::string t = f == 1 ? "[^" : "["; P e;
		for (unsigned i = 0; i < n; i++) { uint32_t c = f == 3 ? 0x7e + 2 * (n - i) : 0x100 + 3 * (f == 2 ? n - i : i); if (f == 3) { P x = cat(uch(c), ch('a')); e = e ? alt(e, x) : x; continue; } m.push_back({c, i & 1 ? c + 1 : c}); t += u8c(c); if (i & 1) t += "-" + u8c(c + 1); }
		return f == 3 ? e : cat(atom(t + "]", m, f == 1), rep(ch('a'), 0, 1, "?")); }, [=](const P &) { std::vector<Text> r; for (uint32_t c = 0x7d; c <= 0x7e + 2 * n + 2 || c < 0x104 + 3 * n; c++) { r.push_back({c, 'a'}); } return r; }});
	for (unsigned n = 3; n <= 40; n++) for (int f = 0; f < 4; f++) if (f != 1 || n <= 12) o.push_back({"levels", [=] { P e = ch('a'); for (unsigned i = 0; i < n; i++) { e = f == 3 ? alt(cat(ch("bc"[i & 1]), e), ch('a')) : cat(e, ch("bc"[i & 1])); if (f != 3) e = q(e, f == 0 ? QTINY[2] : f == 1 ? QTINY[i % 3 ? 3 : 2] : Q{"{1}", 1, 1}); } return e; }, [=](const P &) { std::vector<Text> r; Text all = txt("a"); for (unsigned i = 0; i < n; i++) { r.push_back(all); all.push_back("bc"[i & 1]); r.push_back(join(all, txt("a"))); r.push_back(join(all, all)); } r.push_back(all); all = txt("a"); for (unsigned i = 0; i < n; i++) { all.insert(all.begin(), "bc"[i & 1]); r.push_back(all); } return r; }});
	for (unsigned n = 3; n <= 40; n++) for (int f = 0; f < 3; f++) o.push_back({"optional", [=] { P e; for (unsigned i = 0; i < n; i++) { P x = q(ch("ab"[f == 2 ? 0 : i & 1]), f == 1 ? QTINY[1] : QTINY[2]); e = e ? cat(e, x) : x; } return e; }, [=](const P &) { std::vector<Text> r; for (unsigned k = 0; k <= n + 1; k++) { r.push_back(rpt("a", k)); r.push_back(rpt("ab", k)); r.push_back(rpt("ba", k)); r.push_back(rpt("aab", k)); } for (unsigned i = 0; i < 200; i++) r.push_back(txt(word(i, "ab"))); return r; }});
	// many alternatives that stay alive together, and a few among them that tell the states apart
	for (unsigned n = 3; n <= (big ? 260u : 140u); n += n < 12 || (n >= 28 && n < 34) || (n >= 58 && n < 68) || (n >= 124 && n < 130) ? 1 : 10) for (int f = 0; f < 4; f++) o.push_back({"alive", [=] {
		P ab = atom("[ab]", {{'a', 'b'}}), loop = cat(rep(ab, 0, INF, "*"), ch('c')), e; auto add = [&](P x) { e = e ? alt(e, x) : x; };
		for (unsigned i = 0; i <= n; i++) { if (i == (f == 0 ? n : f == 1 ? 0 : n / 2)) { add(lit("ax")); add(f == 3 ? cat(ch('b'), rep(ch('b'), 0, 1, "?")) : lit("by")); } if (i < n) add(loop); }
		return e; }, [](const P &) { std::vector<Text> r; std::string al = "abcxy"; for (unsigned i = 0; i < 155; i++) r.push_back(txt(word(i, al))); for (const char *s : {"abax", "abbac", "aaxc", "ababababc", "bbbby"}) r.push_back(txt(s)); return r; }});
	return o;
}
}
