// A reference reader for the grammar language (rpa/doc/rpa_bnf.txt and the productions of rpa/rpaparser.c), written as a
// recursive descent over the text.  It says where reading stops, which rules and directives the text declares, and what
// parsing expression each rule denotes.
#pragma once
#include "pegmodel.hpp"
#include <string>
#include <vector>
#include <map>
#include <set>

namespace bnf {
using namespace peg;

struct Item { enum T { NAMED, ANON, DIR } t; size_t from, to; std::string name; PP body = nullptr; std::string dir, arg; unsigned long num = 0; };
struct Text {
	size_t stop = 0;                  // bytes read; == size when the text is a grammar
	std::vector<Item> items;
	std::vector<std::string> refs;    // names referred to, index == P.rule
	bool custom = false;              // uses a construct whose meaning is not documented (<:x:>, numbers beyond 32 bits)
};

struct Reader {
	const std::string t; const size_t N;
	Text out;
	std::map<std::string, int> ids;
	struct R { long len = -1; PP p = nullptr; };
	std::map<size_t, R> memo[4];
	explicit Reader(const std::string &s) : t(s), N(s.size()) {}
	int at(size_t i) const { return i < N ? (unsigned char)t[i] : -1; }
	// one character
	long ch(size_t i, uint32_t *c = nullptr)
	{
		if (i >= N) return -1;
		unsigned char b = t[i];
		int n = b < 0x80 ? 1 : b < 0xc2 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf5 ? 4 : 0;
		// a byte that does not begin a well formed character stands for itself
		for (int k = 1; k < n; k++) if (i + k >= N || ((unsigned char)t[i + k] & 0xc0) != 0x80) { n = 0; break; }
		if (b == 0xf4 && n && (unsigned char)t[i + 1] >= 0x90) n = 0;
		if (!n) { if (c) *c = b; return 1; }
		uint32_t v = n == 1 ? b : b & (0xff >> (n + 1));
		for (int k = 1; k < n; k++) v = v << 6 | ((unsigned char)t[i + k] & 63);
		if (c) *c = v;
		return n;
	}
	long opt(long r) { return r < 0 ? 0 : r; }
	long space(size_t i)
	{
		size_t s = i;
		for (;;) {
			if (at(i) == ' ' || at(i) == '\t') i++;
			else if (at(i) == '\\' && at(i + 1) == '\n') i += 2;
			else if (at(i) == '\\' && at(i + 1) == '\r' && at(i + 2) == '\n') i += 3;
			else break;
		}
		return i > s ? (long)(i - s) : -1;
	}
	static bool al(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
	static bool dg(int c) { return c >= '0' && c <= '9'; }
	long rulename(size_t i) { if (!(al(at(i)) || at(i) == '_')) return -1; size_t s = i; while (al(at(i)) || dg(at(i)) || at(i) == '_') i++; return i - s; }
	long alias(size_t i) { if (!al(at(i))) return -1; return rulename(i); }
	long dec(size_t i) { if (!(dg(at(i)) && at(i) != '0')) return -1; size_t s = i; while (dg(at(i))) i++; return i - s; }
	// '#' ( '0'? [xX] hex | dec )
	long num(size_t i, uint32_t *v)
	{
		if (at(i) != '#') return -1;
		size_t j = i + 1, k = at(j) == '0' ? j + 1 : j;
		int base = 16; size_t d;
		auto hx = [](int c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
		if ((at(k) == 'x' || at(k) == 'X') && hx(at(k + 1))) { d = k + 1; k = d; while (hx(at(k))) k++; }
		else { base = 10; d = j; long l = dec(j); if (l < 0) return -1; k = j + l; }
		std::string s = t.substr(d, k - d);
		while (s.size() > 1 && s[0] == '0') s.erase(0, 1);
		if (k - d > 20 || strtoull(s.c_str(), 0, base) > 0xffffffffULL || s.size() > 12) out.custom = true;
		*v = (uint32_t)strtoull(s.c_str(), 0, base);
		return k - i;
	}
	bool clsx(int c) { return c < 0 || strchr(" #\\-[]\t\r\n", c) || c == 0; }
	long occ(size_t i, char *q) { int c = at(i); if (c == '?' || c == '+' || c == '*') { *q = c; return 1; } return -1; }
	R cls(size_t i)
	{
		if (at(i) != '[') return {};
		std::vector<std::pair<uint32_t, uint32_t>> rg;
		size_t j = i + 1;
		for (;;) {
			uint32_t a, b; long l = num(j, &a);
			if (l < 0) break;
			j += l;
			long m = at(j) == '-' ? num(j + 1, &b) : -1;
			if (m > 0) { j += 1 + m; rg.push_back({std::min(a, b), std::max(a, b)}); } else rg.push_back({a, a});
		}
		if (rg.size() && at(j) == ']') return {(long)(j + 1 - i), mkcls(rg)};
		rg.clear(); j = i + 1;
		for (;;) {
			uint32_t a, b; long l, m;
			if (!clsx(at(j)) && (l = ch(j, &a)) > 0) {
				if (at(j + l) == '-' && !clsx(at(j + l + 1)) && (m = ch(j + l + 1, &b)) > 0) { rg.push_back({std::min(a, b), std::max(a, b)}); j += l + 1 + m; }
				else { rg.push_back({a, a}); j += l; }
			} else if (at(j) == '\\' && (l = ch(j + 1, &a)) > 0) { a = a == 'r' ? '\r' : a == 'n' ? '\n' : a == 't' ? '\t' : a; rg.push_back({a, a}); j += 1 + l; }
			else break;
		}
		if (rg.size() && at(j) == ']') return {(long)(j + 1 - i), mkcls(rg)};
		return {};
	}
	PP mkcls(const std::vector<std::pair<uint32_t, uint32_t>> &rg) { return peg::cls("", rg); }
	PP mkchr(uint32_t c) { P p{CHR}; p.ch = c; return mk(p); }
	PP mkref(const std::string &n) { auto it = ids.find(n); if (it == ids.end()) { it = ids.emplace(n, (int)out.refs.size()).first; out.refs.push_back(n); } return ref(it->second); }
	R quoted(size_t i)
	{
		int q = at(i);
		if (q != '\'' && q != '"') return {};
		std::vector<uint32_t> v; size_t j = i + 1; uint32_t c; long l;
		while (at(j) != q && (l = ch(j, &c)) > 0) { v.push_back(c); j += l; }
		if (v.empty() || at(j) != q) return {};
		return {(long)(j + 1 - i), peg::str("", v)};
	}
	R terminal(size_t i)
	{
		R r;
		if ((r = cls(i)).len > 0 || (r = quoted(i)).len > 0) return r;
		if (at(i) == '<' && at(i + 1) == ':') { long l = rulename(i + 2); if (l > 0 && at(i + 2 + l) == ':' && at(i + 3 + l) == '>') { out.custom = true; return {l + 4, mkref(t.substr(i + 2, l))}; } }
		if (at(i) == '<') { long l = rulename(i + 1); if (l > 0 && at(i + 1 + l) == '>') return {l + 2, mkref(t.substr(i + 1, l))}; return {}; }
		if (at(i) == '(') {
			size_t j = i + 1; j += opt(space(j));
			R x = orexp(j); if (x.len < 0) return {};
			j += x.len; j += opt(space(j));
			if (at(j) != ')') return {};
			return {(long)(j + 1 - i), node(GRP, {x.p})};
		}
		return {};
	}
	R quant(size_t i, R x)
	{
		size_t j = i + x.len; char q = 0;
		j += opt(space(j)); j += opt(occ(j, &q)); j += opt(space(j));
		return {(long)(j - i), q ? withq(x.p, q) : x.p};
	}
	R qexp(size_t i)
	{
		R x = terminal(i);
		if (x.len > 0) return quant(i, x);
		int c = at(i); uint32_t v; long l;
		if (c < 0) return {};
		if (c == '.') return quant(i, {1, any()});
		if (c == '\\' && (l = ch(i + 1, &v)) > 0) return quant(i, {1 + l, mkchr(v == 'r' ? '\r' : v == 'n' ? '\n' : v == 't' ? '\t' : v)});
		if (c == 0 || strchr(" ~#^-|&+*?\"'()[]<>.;\t\r\n", c)) return {};
		if ((l = ch(i, &v)) > 0) return quant(i, {l, mkchr(v)});
		return {};
	}
	R anchorexp(size_t i)
	{
		R x; size_t j = i;
		if (at(i) == '~') { j = i + 1; j += opt(space(j)); x = qexp(j); } else x = qexp(i);
		if (x.len < 0) return {};
		j += x.len; j += opt(space(j));
		return {(long)(j - i), x.p};
	}
	R notexp(size_t i)
	{
		size_t j = i; R x;
		if (at(i) == '^') { j++; j += opt(space(j)); x = anchorexp(j); if (x.len > 0) x.p = node(NOT, {x.p}); } else x = anchorexp(i);
		if (x.len < 0) return {};
		j += x.len; j += opt(space(j));
		return {(long)(j - i), x.p};
	}
	R exp(size_t i)
	{
		auto it = memo[0].find(i); if (it != memo[0].end()) return it->second;
		size_t j = i; std::vector<PP> v; R x;
		while ((x = notexp(j)).len > 0) { v.push_back(x.p); j += x.len; }
		return memo[0][i] = v.empty() ? R{} : R{(long)(j - i), v.size() == 1 ? v[0] : node(SEQ, v)};
	}
	R minexp(size_t i)
	{
		auto it = memo[1].find(i); if (it != memo[1].end()) return it->second;
		R a = exp(i); if (a.len < 0) return memo[1][i] = {};
		size_t j = i + a.len; std::vector<PP> v{a.p};
		for (;;) {
			size_t k = j + opt(space(j)); if (at(k) != '-') break;
			k++; k += opt(space(k));
			R b = exp(k); if (b.len < 0) break;
			v.push_back(b.p); j = k + b.len;
		}
		return memo[1][i] = R{(long)(j - i), v.size() == 1 ? v[0] : node(MIN, v)};
	}
	R orexp(size_t i)
	{
		auto it = memo[2].find(i); if (it != memo[2].end()) return it->second;
		R a = minexp(i); if (a.len < 0) return memo[2][i] = {};
		size_t j = i + a.len; std::vector<PP> v{a.p};
		auto gap = [&](size_t k) { k += opt(space(k)); if (at(k) == '\r') k++; if (at(k) == '\n') k++; return k + opt(space(k)); };
		for (;;) {
			size_t k = gap(j); if (at(k) != '|') break;
			k = gap(k + 1);
			R b = minexp(k); if (b.len < 0) break;
			v.push_back(b.p); j = k + b.len;
		}
		return memo[2][i] = R{(long)(j - i), v.size() == 1 ? v[0] : node(ALT, v)};
	}
	long word(size_t i, const char *w) { size_t n = strlen(w); return t.compare(i, n, w) == 0 ? (long)n : -1; }
	long directive(size_t i, Item *d)
	{
		if (at(i) != '#') return -1;
		size_t j = i + 1; j += opt(space(j)); if (at(j) != '!') return -1;
		j++; j += opt(space(j));
		long l;
		auto named = [&](const char *w) -> bool {
			long a = word(j, w); if (a < 0) return false;
			long s = space(j + a); if (s < 0) return false;
			long n = rulename(j + a + s); if (n < 0) return false;
			d->dir = w; d->arg = t.substr(j + a + s, n); l = a + s + n; return true;
		};
		*d = Item{Item::DIR, i, 0, ""};
		if (named("emit") || named("noemit")) {}
		else if ((l = word(j, "emitall")) > 0) d->dir = "emitall";
		else if ((l = word(j, "emitnone")) > 0) d->dir = "emitnone";
		else if (named("abort")) {}
		else if (named("emitid")) {
			size_t k = j + l; long s = space(k); if (s < 0) return -1;
			k += s; k += opt(alias(k)); k += opt(space(k));
			long n = dec(k); if (n < 0) return -1;
			std::string v = t.substr(k, n);
			if (v.size() > 10 || strtoull(v.c_str(), 0, 10) > 0x7fffffffULL) out.custom = true;
			d->num = strtoul(v.c_str(), 0, 10);
			l = k + n - j;
		} else return -1;
		d->to = j + l;
		return j + l - i;
	}
	Text read()
	{
		size_t i = 0;
		for (;;) {
			size_t s = i; long l;
			if ((l = space(i)) > 0) i += l;
			Item d; bool any = false;
			size_t junk;
			while ((l = directive(i, &d)) > 0) { out.items.push_back(d); i += l; any = true; }
			if (any) { uint32_t c; while (at(i) >= 0 && at(i) != '\r' && at(i) != '\n' && (l = ch(i, &c)) > 0) i += l; continue; }
			if (i > s) continue;
			(void)junk;
			if (at(i) == '#') { i++; uint32_t c; while (at(i) > 0 && at(i) != '\r' && at(i) != '\n' && (l = ch(i, &c)) > 0) i += l; continue; }
			while (at(i) == '\r' || at(i) == '\n' || at(i) == ';' || at(i) == 0) i++;
			if (i > s) continue;
			// name ::= expression
			if ((l = rulename(i)) > 0) {
				size_t j = i + l; j += opt(space(j));
				if (word(j, "::=") > 0) {
					size_t k = j + 3; k += opt(space(k));
					R b = orexp(k);
					if (b.len > 0) { out.items.push_back({Item::NAMED, i, k + (size_t)b.len, t.substr(i, l), b.p}); i = k + b.len; continue; }
				}
			}
			R b = orexp(i);
			if (b.len > 0) { out.items.push_back({Item::ANON, i, i + (size_t)b.len, t.substr(i, b.len), b.p}); i += b.len; continue; }
			break;
		}
		out.stop = i;
		return out;
	}
};

// The grammar a text denotes: named rules first seen by reference or definition; nullptr body = undefined.
struct Meaning {
	Grammar g;                        // defined rules in order of definition, anonymous ones named ""
	std::vector<std::string> missing; // referenced, not defined
	bool dup = false;                 // a name defined twice, or the text of an anonymous rule equal to another item's
};
inline PP remap(PP e, const std::vector<int> &m)
{
	P p = *e;
	if (p.k == REF) p.rule = m[p.rule];
	for (auto &k : p.kid) k = remap(k, m);
	return mk(p);
}
inline Meaning meaning(const Text &t)
{
	Meaning o;
	std::map<std::string, int> at; std::set<std::string> seen;
	bool emitall = true; (void)emitall;
	for (auto &it : t.items) {
		if (!seen.insert(it.t == Item::DIR ? "#" + std::to_string(it.from) : it.name).second) o.dup = true;
		if (it.t == Item::NAMED) { at[it.name] = o.g.r.size(); Rule r; r.name = it.name; r.body = it.body; o.g.r.push_back(r); }
		if (it.t == Item::ANON) { Rule r; r.name = ""; r.body = it.body; r.emit = false; o.g.r.push_back(r); }
	}
	std::vector<int> m;
	for (auto &n : t.refs) { auto f = at.find(n); if (f == at.end()) { o.missing.push_back(n); m.push_back(-1); } else m.push_back(f->second); }
	if (o.missing.size()) return o;
	for (auto &r : o.g.r) r.body = remap(r.body, m);
	// directives act on the rules that follow them
	std::map<std::string, Rule> pref; for (auto &r : o.g.r) if (r.name.size()) { pref[r.name].emit = true; }
	int k = 0;
	for (auto &it : t.items) {
		if (it.t == Item::DIR) {
			if (it.dir == "emitall" || it.dir == "emitnone") { for (auto &r : o.g.r) if (r.name.size()) pref[r.name].emit = it.dir == "emitall"; }
			else if (it.dir == "emit") pref[it.arg].emit = true;
			else if (it.dir == "noemit") pref[it.arg].emit = false;
			else if (it.dir == "abort") pref[it.arg].abort = true;
			else { pref[it.arg].emit = true; pref[it.arg].uid = it.num; }
			continue;
		}
		Rule &r = o.g.r[k++];
		if (r.name.size()) { r.emit = pref[r.name].emit; r.uid = pref[r.name].uid; r.abort = pref[r.name].abort; }
	}
	return o;
}
} // namespace bnf
