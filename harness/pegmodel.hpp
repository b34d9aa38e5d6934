// Parsing-expression trees, their grammar text, and a reference evaluator (matching, records, left recursion by seed growing).
#pragma once
#include <cstdint>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <functional>

namespace peg {

enum K { CHR, ANY, CLS, STR, GRP, REF, NOT, SEQ, MIN, ALT };
struct P {
	K k; uint32_t ch = 0; int rule = -1; char q = 0;
	std::vector<std::pair<uint32_t, uint32_t>> rg;   // CLS
	std::string txt;                                 // how a CHR/CLS/STR/ANY leaf is written
	std::vector<uint32_t> str;                       // STR
	std::vector<const P *> kid;
};
typedef const P *PP;

inline std::deque<P> &pool() { static std::deque<P> p; return p; }
inline PP mk(P p) { pool().push_back(std::move(p)); return &pool().back(); }
inline PP chr(uint32_t c, std::string t = "") { P p{CHR}; p.ch = c; p.txt = t.size() ? t : std::string("'") + (char)c + "'"; return mk(p); }
inline PP any() { P p{ANY}; p.txt = "."; return mk(p); }
inline PP cls(std::string t, std::vector<std::pair<uint32_t, uint32_t>> rg) { P p{CLS}; p.txt = t; p.rg = rg; return mk(p); }
inline PP str(std::string t, std::vector<uint32_t> s) { P p{STR}; p.txt = t; p.str = s; return mk(p); }
inline PP ref(int r) { P p{REF}; p.rule = r; return mk(p); }
inline PP node(K k, std::vector<PP> kids) { P p{k}; p.kid = std::move(kids); return mk(p); }
inline PP withq(PP x, char q) { P p = *x; p.q = q; return mk(p); }

struct Rule { std::string name; PP body; bool emit = true; long uid = 0; bool abort = false; };
struct Grammar { std::vector<Rule> r; };

inline void print(PP e, const std::vector<Rule> &rules, std::string &o)
{
	switch (e->k) {
	case CHR: case ANY: case CLS: case STR: o += e->txt; break;
	case REF: o += "<" + rules[e->rule].name + ">"; break;
	case GRP: o += "( "; print(e->kid[0], rules, o); o += " )"; break;
	case NOT: o += "^"; print(e->kid[0], rules, o); break;
	case SEQ: for (size_t i = 0; i < e->kid.size(); i++) { if (i) o += " "; print(e->kid[i], rules, o); } break;
	case MIN: for (size_t i = 0; i < e->kid.size(); i++) { if (i) o += " - "; print(e->kid[i], rules, o); } break;
	case ALT: for (size_t i = 0; i < e->kid.size(); i++) { if (i) o += " | "; print(e->kid[i], rules, o); } break;
	}
	if (e->q) o += e->q;
}
inline std::string text(const Grammar &g)
{
	std::string o;
	for (auto &r : g.r) { o += r.name + " ::= "; print(r.body, g.r, o); o += "\n"; }
	return o;
}

// can the expression succeed without consuming?  (a rule or an alternation never does)
inline bool nullable(PP e)
{
	if (e->q == '?' || e->q == '*') return true;
	switch (e->k) {
	case GRP: return e->q == '+' ? false : nullable(e->kid[0]);
	case SEQ: for (PP x : e->kid) if (!nullable(x)) return false; return true;
	case MIN: return nullable(e->kid[0]);
	default: return false;
	}
}
// rules that may be called at the position where e starts
inline void leftrefs(PP e, std::vector<bool> &out, bool *look = nullptr, bool under = false)
{
	switch (e->k) {
	case REF: out[e->rule] = true; if (under && look) *look = true; break;
	case GRP: leftrefs(e->kid[0], out, look, under); break;
	case NOT: leftrefs(e->kid[0], out, look, true); break;
	case SEQ: for (PP x : e->kid) { leftrefs(x, out, look, under); if (!nullable(x)) break; } break;
	case MIN: for (size_t i = 0; i < e->kid.size(); i++) leftrefs(e->kid[i], out, look, under || i > 0); break;
	case ALT: for (PP x : e->kid) leftrefs(x, out, look, under); break;
	default: break;
	}
}

struct Rec { int rule; bool start; uint32_t off, size; bool operator==(const Rec &o) const { return rule == o.rule && start == o.start && off == o.off && size == o.size; } };

struct Model {
	const Grammar &g;
	int n;
	std::vector<std::vector<bool>> reach;   // reach[a][b]: a's body may call b at its own start (transitively)
	std::vector<std::vector<bool>> direct;
	std::vector<bool> leftrec;
	// inputs
	const std::vector<uint32_t> *in = nullptr;
	bool icase = false;
	std::vector<Rec> recs;
	uint64_t steps = 0, limit = 2000000;
	bool unspecified = false;               // met a construct whose meaning the property leaves open
	bool aborted = false; int abortrule = -1; long abortoff = -1; // abort directive fired

	struct Frame { int head, pos, seed; std::vector<Rec> seedrecs; std::vector<int> inl; };
	std::vector<Frame> fr;
	std::map<PP, std::vector<bool>> lrc;

	explicit Model(const Grammar &gg) : g(gg), n(gg.r.size())
	{
		direct.assign(n, std::vector<bool>(n, false));
		for (int i = 0; i < n; i++) leftrefs(g.r[i].body, direct[i]);
		reach = direct;
		for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (reach[i][k]) for (int j = 0; j < n; j++) if (reach[k][j]) reach[i][j] = true;
		leftrec.assign(n, false);
		for (int i = 0; i < n; i++) leftrec[i] = reach[i][i];
	}
	bool anyleft() const { for (bool b : leftrec) if (b) return true; return false; }
	// does e left-reach rule h?
	bool lr(PP e, int h)
	{
		auto it = lrc.find(e);
		if (it == lrc.end()) {
			std::vector<bool> d(n, false); leftrefs(e, d);
			std::vector<bool> r = d;
			for (int i = 0; i < n; i++) if (d[i]) for (int j = 0; j < n; j++) if (reach[i][j]) r[j] = true;
			it = lrc.emplace(e, r).first;
		}
		return it->second[h];
	}
	static uint32_t lower(uint32_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
	static uint32_t flip(uint32_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c >= 'a' && c <= 'z' ? c - 32 : c; }
	bool meets(uint32_t c, uint32_t lo, uint32_t hi) { if (c >= lo && c <= hi) return true; if (!icase) return false; c = flip(c); return c >= lo && c <= hi; }

	int base(PP e, int p)
	{
		int N = in->size();
		if (++steps > limit) { unspecified = true; return -1; }
		switch (e->k) {
		case CHR: return p < N && meets((*in)[p], e->ch, e->ch) ? 1 : -1;
		case ANY: return p < N ? 1 : -1;
		case CLS: if (p < N) for (auto &r : e->rg) if (meets((*in)[p], r.first, r.second)) return 1; return -1;
		case STR: for (size_t i = 0; i < e->str.size(); i++) if (p + (int)i >= N || !meets((*in)[p + i], e->str[i], e->str[i])) return -1; return e->str.size();
		case REF: return callref(e->rule, p);
		case GRP: return ev(e->kid[0], p);
		case NOT: {
			size_t m = recs.size();
			int r = ev(e->kid[0], p);
			recs.resize(m);
			if (aborted) return -1;
			if (r >= 0) return -1;
			return p < N ? 1 : -1; }
		case SEQ: {
			size_t m = recs.size(); int q = p;
			for (PP x : e->kid) { int r = ev(x, q); if (r < 0) { recs.resize(m); return -1; } q += r; }
			return q - p; }
		case MIN: {
			size_t m = recs.size();
			// later exclusions are tried last; the order is not observable except through abort directives
			for (size_t i = 1; i < e->kid.size(); i++) { int r = ev(e->kid[i], p); recs.resize(m); if (aborted) return -1; if (r > 0) return -1; }
			return ev(e->kid[0], p); }
		case ALT: {
			bool loopalt = !fr.empty() && fr.back().pos == p && fr.back().seed > 0 && lr(e, fr.back().head);
			for (PP x : e->kid) {
				if (loopalt && !lr(x, fr.back().head)) continue;
				size_t m = recs.size();
				int r = ev(x, p);
				if (aborted) return -1;
				if (r > 0) return r;
				recs.resize(m);
			}
			return -1; }
		}
		return -1;
	}
	int ev(PP e, int p)
	{
		if (e->k == STR && e->q) { // the quantifier belongs to the last character
			for (size_t i = 0; i + 1 < e->str.size(); i++) if (p + (int)i >= (int)in->size() || !meets((*in)[p + i], e->str[i], e->str[i])) return -1;
			int pre = e->str.size() - 1, c = 0;
			uint32_t l = e->str.back();
			while (p + pre + c < (int)in->size() && meets((*in)[p + pre + c], l, l)) { c++; if (e->q == '?') break; }
			if (!c && e->q == '+') return -1;
			return pre + c;
		}
		if (!e->q) return base(e, p);
		size_t m = recs.size();
		int r = base(e, p);
		if (aborted) return -1;
		if (e->q == '?') { if (r < 0) { recs.resize(m); return 0; } return r; }
		int tot = 0;
		while (r > 0) { tot += r; m = recs.size(); r = base(e, p + tot); if (aborted) return -1; }
		recs.resize(m);
		if (!tot && e->q == '+') return -1;
		return tot;
	}
	int wrap(int x, int p)   // body with records, restored on failure or empty result
	{
		size_t m = recs.size();
		bool em = g.r[x].emit;
		if (em) recs.push_back({x, true, (uint32_t)p, 0});
		int r = ev(g.r[x].body, p);
		if (r <= 0) { recs.resize(m); return -1; }
		if (em) { recs[m].size = r; recs.push_back({x, false, (uint32_t)p, (uint32_t)r}); }
		return r;
	}
	int callref(int x, int p)
	{
		if (!fr.empty() && fr.back().pos == p) {
			Frame &f = fr.back();
			if (x == f.head) {
				if (f.seed <= 0) return -1;
				int s = f.seed;
				recs.insert(recs.end(), f.seedrecs.begin(), f.seedrecs.end());
				return s;
			}
			if (reach[x][f.head] && reach[f.head][x]) {
				for (int y : f.inl) if (y == x) { unspecified = true; return -1; }  // a second, interlocking cycle
				f.inl.push_back(x);
				int r = wrap(x, p);
				fr.back().inl.pop_back();
				return r;
			}
		}
		return rule(x, p);
	}
	int rule(int x, int p)
	{
		if (++steps > limit) { unspecified = true; return -1; }
		if (!leftrec[x]) {
			size_t d = fr.size();
			fr.push_back({-1, -1, 0, {}, {}});
			int r = wrap(x, p);
			fr.resize(d);
			if (r <= 0 && g.r[x].abort && !aborted) { aborted = true; abortrule = x; abortoff = p; }
			return r;
		}
		size_t d = fr.size(), m = recs.size();
		fr.push_back({x, p, 0, {}, {}});
		for (;;) {
			int r = wrap(x, p);
			if (aborted || unspecified) break;
			if (r <= fr[d].seed) break;
			fr[d].seed = r;
			fr[d].seedrecs.assign(recs.begin() + m, recs.end());
			recs.resize(m);
		}
		int s = fr[d].seed;
		recs.resize(m);
		if (s > 0) recs.insert(recs.end(), fr[d].seedrecs.begin(), fr[d].seedrecs.end());
		fr.resize(d);
		if (s <= 0 && g.r[x].abort && !aborted) { aborted = true; abortrule = x; abortoff = p; }
		return s > 0 ? s : -1;
	}
	// -> number of characters, 0 when there is no match; negative when an abort directive fired
	int match(int r, const std::vector<uint32_t> &input, int at = 0)
	{
		in = &input; recs.clear(); fr.clear(); steps = 0; unspecified = aborted = false;
		int x = rule(r, at);
		if (aborted) return -1;
		if (x <= 0) { recs.clear(); return 0; }
		return x;
	}
};

// ---- enumeration of expressions by size -------------------------------------------------------------------------
struct Gen {
	std::vector<PP> leaves;                 // size 1
	std::string quants = "?*+";
	bool seqs = true, alts = true, grps = true, nots = true, mins = true, grpseqonly = false;
	int maxseq = 3, maxalt = 2;
	std::map<int, std::vector<PP>> T, E, S, B, O;   // terminals, elements, sequences, branches (seq|min), orexps; by exact size
	const std::vector<PP> &terms(int n)
	{
		auto it = T.find(n); if (it != T.end()) return it->second;
		std::vector<PP> v;
		if (n == 1) v = leaves;
		if (n >= 2) for (PP x : terms1(n - 1)) for (char q : quants) v.push_back(withq(x, q));
		if (grps && n >= 3) for (PP x : orexps(n - 1)) v.push_back(node(GRP, {x}));
		return T[n] = v;
	}
	std::vector<PP> terms1(int n) { std::vector<PP> v; for (PP x : terms(n)) if (!x->q) v.push_back(x); return v; }
	const std::vector<PP> &elems(int n)
	{
		auto it = E.find(n); if (it != E.end()) return it->second;
		std::vector<PP> v = terms(n);
		if (nots && n >= 2) for (PP x : terms(n - 1)) v.push_back(node(NOT, {x}));
		return E[n] = v;
	}
	void seqrec(int n, int left, std::vector<PP> &cur, std::vector<PP> &out)
	{
		if (n == 0) { if (cur.size()) out.push_back(node(SEQ, cur)); return; }
		if (left == 0) return;
		for (int k = 1; k <= n; k++) for (PP x : elems(k)) { cur.push_back(x); seqrec(n - k, left - 1, cur, out); cur.pop_back(); }
	}
	const std::vector<PP> &seqsof(int n)
	{
		auto it = S.find(n); if (it != S.end()) return it->second;
		std::vector<PP> v, cur; seqrec(n, seqs ? maxseq : 1, cur, v);
		return S[n] = v;
	}
	const std::vector<PP> &branches(int n)
	{
		auto it = B.find(n); if (it != B.end()) return it->second;
		std::vector<PP> v = seqsof(n);
		if (mins) for (int k = 1; k + 2 <= n; k++) for (PP a : seqsof(k)) for (PP b : seqsof(n - 1 - k)) v.push_back(node(MIN, {a, b}));
		return B[n] = v;
	}
	void altrec(int n, int left, std::vector<PP> &cur, std::vector<PP> &out)
	{
		if (n == 0) { if (cur.size() > 1) out.push_back(node(ALT, cur)); return; }
		if (left == 0) return;
		for (int k = 1; k <= n; k++) for (PP x : branches(k)) { cur.push_back(x); altrec(n - k, left - 1, cur, out); cur.pop_back(); }
	}
	const std::vector<PP> &orexps(int n)
	{
		auto it = O.find(n); if (it != O.end()) return it->second;
		std::vector<PP> v = branches(n), cur;
		if (alts) altrec(n, maxalt, cur, v);
		return O[n] = v;
	}
	std::vector<PP> upto(int n) { std::vector<PP> v; for (int i = 1; i <= n; i++) for (PP x : orexps(i)) v.push_back(x); return v; }
};

inline std::string utf8(const std::vector<uint32_t> &v)
{
	std::string o;
	for (uint32_t c : v) {
		if (c < 0x80) o += (char)c;
		else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
		else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
	}
	return o;
}
inline std::string utf16(const std::vector<uint32_t> &v)
{
	std::string o;
	auto u = [&](unsigned x) { o += (char)(x & 255); o += (char)(x >> 8); };
	for (uint32_t c : v) if (c < 0x10000) u(c); else { u(0xd800 + ((c - 0x10000) >> 10)); u(0xdc00 + ((c - 0x10000) & 1023)); }
	return o;
}

} // namespace peg
