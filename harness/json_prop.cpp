// J04: rexjson::property trees against a model: navigation of every path, typed access, hooks, enumeration, histories of copies.
#include "vh.hpp"
#include <functional>
#include <memory>
#include <algorithm>
#include "jsonref.hpp"
#include "rexjsonrpc/property.h"
using rexjson::property; using rexjson::property_map; using rexjson::property_array; using rexjson::value;
typedef JV J;
static value val(const J &m)
{
	switch (m.t) {
	case J::Null: return value();
	case J::Bool: return value(m.b);
	case J::Int: return value((int64_t)m.i);
	case J::Real: return value(m.d);
	case J::Str: return value(m.s);
	case J::Arr: { rexjson::array a; for (auto &e : m.a) a.push_back(val(e)); return value(a); }
	case J::Obj: { rexjson::object o; for (auto &e : m.o) o[e.first] = val(e.second); return value(o); }
	}
	return value();
}
static std::string show(const J &m)
{
	switch (m.t) {
	case J::Null: return "null"; case J::Bool: return m.b ? "true" : "false"; case J::Int: return std::to_string(m.i); case J::Real: return std::to_string(m.d); case J::Str: return "\"" + m.s + "\"";
	case J::Arr: { std::string r = "["; for (auto &e : m.a) r += show(e) + " "; return r + "]"; }
	default: return "{}";
	}
}
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }

// ---- shapes
struct N { char k = 'l'; int slot = 0; std::vector<std::pair<std::string, N>> c; };   // l leaf, m map, a array, e empty
static int vars[64];
static property build(const N &n)
{
	switch (n.k) {
	case 'l': return property(&vars[n.slot]);
	case 'm': { property_map m; property p(m); if (n.c.size()) { // property_map has only a list constructor
			switch (n.c.size()) {
			case 1: return property(property_map({{n.c[0].first, build(n.c[0].second)}}));
			case 2: return property(property_map({{n.c[0].first, build(n.c[0].second)}, {n.c[1].first, build(n.c[1].second)}}));
			case 3: return property(property_map({{n.c[0].first, build(n.c[0].second)}, {n.c[1].first, build(n.c[1].second)}, {n.c[2].first, build(n.c[2].second)}}));
			default: return property(property_map({{n.c[0].first, build(n.c[0].second)}, {n.c[1].first, build(n.c[1].second)}, {n.c[2].first, build(n.c[2].second)}, {n.c[3].first, build(n.c[3].second)}}));
			} } return p; }
	case 'a': { property p{property_array()}; for (auto &x : n.c) p.push_back(build(x.second)); return p; }
	}
	return property();
}
static std::string show(const N &n)
{
	switch (n.k) {
	case 'l': return "v" + std::to_string(n.slot);
	case 'm': { std::string r = "{"; for (auto &x : n.c) r += "\"" + x.first + "\":" + show(x.second) + " "; return r + "}"; }
	case 'a': { std::string r = "["; for (auto &x : n.c) r += show(x.second) + " "; return r + "]"; }
	}
	return "empty";
}
static int renumber(N &n, int k) { if (n.k == 'l') n.slot = k++; for (auto &x : n.c) k = renumber(x.second, k); return k; }
// every tree of exactly size s
static const char *nm[] = {"", "a", "a1", "b"};
static std::vector<std::vector<N>> bysize;
static void forests(int s, int maxk, std::vector<N> cur, const std::function<void(const std::vector<N> &)> &f)
{
	if (!s) { f(cur); return; }
	if (!maxk) return;
	for (int k = 1; k <= s; k++) for (auto &t : bysize[k]) { cur.push_back(t); forests(s - k, maxk - 1, cur, f); cur.pop_back(); }
}
static void gentrees(int upto)
{
	bysize.assign(upto + 1, {});
	for (int s = 1; s <= upto; s++) {
		std::vector<N> &o = bysize[s]; N n;
		if (s == 1) { n.k = 'l'; o.push_back(n); n.k = 'e'; o.push_back(n); n.k = 'm'; o.push_back(n); n.k = 'a'; o.push_back(n); continue; }
		forests(s - 1, 99, {}, [&](const std::vector<N> &f) { N a; a.k = 'a'; for (auto &t : f) a.c.push_back({"", t}); o.push_back(a); });
		forests(s - 1, 4, {}, [&](const std::vector<N> &f) {
			for (int mask = 0; mask < 16; mask++) { if (__builtin_popcount(mask) != (int)f.size()) continue; N m; m.k = 'm'; int q = 0; for (int b = 0; b < 4; b++) if (mask >> b & 1) m.c.push_back({nm[b], f[q++]}); o.push_back(m); } });
	}
}
// the node a path leads to
static const N *nav(const N &n, const std::string &p, std::vector<std::string> &steps)
{
	switch (n.k) {
	case 'l': return p.empty() ? &n : nullptr;
	case 'm': {
		if (p.empty()) return nullptr;
		size_t e = 1; while (e < p.size() && p[e] != '.' && p[e] != '[') e++;
		std::string name = p.substr(p[0] == '.' ? 1 : 0, p[0] == '.' ? e - 1 : e);
		for (auto &x : n.c) if (x.first == name) { steps.push_back(name); return nav(x.second, p.substr(e), steps); }
		return nullptr; }
	case 'a': {
		size_t e = p.find(']'); if (p.empty() || p[0] != '[' || e == std::string::npos || e < 2 || e > 8) return nullptr;
		size_t idx = 0; for (size_t k = 1; k < e; k++) { if (p[k] < '0' || p[k] > '9') return nullptr; idx = idx * 10 + p[k] - '0'; }
		if (idx >= n.c.size()) return nullptr;
		steps.push_back(std::to_string(idx)); return nav(n.c[idx].second, p.substr(e + 1), steps); }
	}
	return nullptr;
}
static void initvars() { for (int k = 0; k < 64; k++) vars[k] = 1000 + k; }
static void checkvars(const char *when) { for (int k = 0; k < 64; k++) if (vars[k] != 1000 + k) vh::fail("%s: variable %d holds %d", when, k, vars[k]); }
static uint64_t verify(property &p, const N &n, int depth = 0)
{
	uint64_t sig = n.k;
	bool cont = n.k != 'l';
	if (throws([&] { p.get_prop(); }) != cont) vh::fail("reading %s", show(n).c_str());
	if (throws([&] { p.access(); }) != cont) vh::fail("access of %s", show(n).c_str());
	if (cont && !throws([&] { p.set_prop(value(3)); })) vh::fail("writing %s", show(n).c_str());
	if (n.k == 'l') {
		if (p.get_prop().get_int() != 1000 + n.slot || p.access() != rexjson::readwrite || &p.navigate("") != &p) vh::fail("leaf v%d reads %s", n.slot, p.get_prop().write().c_str());
		p.set_prop(value(7)); if (vars[n.slot] != 7) vh::fail("leaf v%d writes elsewhere", n.slot); vars[n.slot] = 1000 + n.slot; checkvars("write");
	} else if (!throws([&] { p.navigate(""); })) vh::fail("the empty path of %s", show(n).c_str());
	if (n.k == 'm') {
		for (auto &x : n.c) { property &q = p[x.first]; if (&p["" + x.first] != &q) vh::fail("member %s moves", x.first.c_str()); sig = vh::mix(sig, vh::mix(vh::hstr(x.first), verify(q, x.second, depth + 1))); }
		for (auto s : nm) { bool in = false; for (auto &x : n.c) in |= x.first == s; if (throws([&] { p[std::string(s)]; }) == in) vh::fail("member %s of %s", s, show(n).c_str()); }
		if (!throws([&] { p[std::string("z")]; })) vh::fail("member z of %s", show(n).c_str());
	} else if (n.k == 'a') {
		for (size_t k = 0; k < n.c.size(); k++) { property &q = p[k]; if (&p[std::to_string(k)] != &q) vh::fail("element %zu by name", k); sig = vh::mix(sig, verify(q, n.c[k].second, depth + 1)); }
		if (!throws([&] { p[n.c.size()]; }) || !throws([&] { p[(size_t)-1]; })) vh::fail("element beyond the end of %s", show(n).c_str());
	} else if (!throws([&] { p[std::string("a")]; }) || !throws([&] { p[(size_t)0]; })) vh::fail("a member of %s", show(n).c_str());
	if (n.k != 'a' && !throws([&] { p.push_back(property(&vars[0])); })) vh::fail("push_back into %s", show(n).c_str());
	vh::eval();
	return sig;
}
static property *atsteps(property &r, const std::vector<std::string> &steps) { property *p = &r; for (auto &s : steps) p = &(*p)[s]; return p; }

// ---- every path
static const std::string alpha = ".[]ab01x- ";
static std::vector<N> ptrees; static std::vector<std::unique_ptr<property>> pbuilt; static int plen;
static void runpath(uint64_t i)
{
	uint64_t ns = vh::nstrings(alpha.size(), plen); const N &n = ptrees[i / ns]; auto &bp = pbuilt[i / ns];
	if (!bp) bp.reset(new property(build(n)));
	std::string s = vh::nthtext(i % ns, alpha);
	std::vector<std::string> steps; const N *w = nav(n, s, steps);
	property *g = nullptr; try { g = &bp->navigate(s); } catch (std::exception &) { }
	if (!w != !g) vh::fail("the path %s", g ? "should not exist" : "should exist");
	if (w) { property *e = atsteps(*bp, steps); if (e != g || g->get_prop().get_int() != 1000 + w->slot) vh::fail("the path leads to %s", g->get_prop().write().c_str()); vh::distinct(vh::mix(i / ns, w->slot)); }
	vh::eval(); vh::steps(1);
}
// ---- enumeration and structure
static std::vector<N> etrees;
static void leaves(const N &n, const std::string &p, std::vector<std::pair<std::string, int>> &o, bool &bad) { if (n.k == 'l') o.push_back({p, n.slot}); else if (n.k == 'e') bad = true; else for (size_t k = 0; k < n.c.size(); k++) leaves(n.c[k].second, n.k == 'm' ? p + "." + n.c[k].first : p + "[" + std::to_string(k) + "]", o, bad); }
static void runenum(uint64_t i)
{
	const N &n = etrees[i]; initvars(); property p = build(n); bool bad = false; std::vector<std::pair<std::string, int>> want, got; leaves(n, "", want, bad);
	std::string prefix = i % 2 ? "pre" : "";
	bool th = throws([&] { p.enumerate_children(prefix, [&](const std::string &s, property &q) {
		if (s.substr(0, prefix.size()) != prefix) vh::fail("path %s", s.c_str());
		std::string t = s.substr(prefix.size());
		if (&q != &p.navigate(t)) vh::fail("the path %s of the enumeration leads elsewhere", t.c_str());
		got.push_back({t, q.get_prop().get_int() - 1000}); }); });
	if (th != bad) vh::fail("the enumeration %s", th ? "throws" : "skips the empty property");
	if (!bad) {
		std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if (want != got) vh::fail("the enumeration visits %zu leaves of %zu", got.size(), want.size());
		value j = p.to_json();
		if (want.empty() ? !(j.get_type() == rexjson::obj_type && j.get_obj().empty()) : j.get_obj().size() != want.size()) vh::fail("to_json is %s", j.write().c_str());
		for (auto &w : want) if (!j.get_obj().count(w.first) || j.get_obj().at(w.first).get_int() != 1000 + w.second) vh::fail("to_json is %s", j.write().c_str());
	} else if (!throws([&] { p.to_json(); })) vh::fail("to_json skips the empty property");
	property c(p), m(std::move(c)); property a; a = m;
	uint64_t sig = verify(p, n); verify(m, n); verify(a, n);
	for (auto &l : want) if (&a.navigate(l.first) == &m.navigate(l.first)) vh::fail("a copy shares its nodes");
	vh::steps(3); vh::eval(); vh::distinct(sig);
}
// ---- many elements, long names, deep trees
static const int sizes[] = {0, 1, 2, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024, 9999, 10000, 10001};
static const char *shapes[] = {"elements", "elements that are maps", "letters in a name", "levels of arrays", "levels of maps", "levels of both", "copies"};
static void runmany(uint64_t i)
{
	vh::Idx x(i); int n = sizes[x.take(sizeof sizes / sizeof *sizes)], sh = x.take(7); uint64_t sig = i; std::vector<int> v(n + 2); for (int k = 0; k < n + 2; k++) v[k] = 5000 + k;
	auto leaf = [&](int k) { return property(&v[k]); };
	auto expect = [&](property &p, const std::string &path, int k) {
		property *g = nullptr; try { g = &p.navigate(path); } catch (std::exception &) { }
		if (!g != (k < 0)) vh::fail("%d %s: the path %.60s %s", n, shapes[sh], path.c_str(), g ? "should not exist" : "should exist");
		if (g) { if (g->get_prop().get_int() != 5000 + k) vh::fail("%d %s: the path %.60s leads to %s", n, shapes[sh], path.c_str(), g->get_prop().write().c_str()); g->set_prop(value(3)); if (v[k] != 3) vh::fail("%d %s: the path %.60s writes elsewhere", n, shapes[sh], path.c_str()); v[k] = 5000 + k; }
		vh::eval(); vh::steps(1);
	};
	auto visits = [&](property &p, std::vector<std::pair<std::string, int>> want) {
		std::vector<std::pair<std::string, int>> got; p.enumerate_children("", [&](const std::string &s, property &q) { got.push_back({s, q.get_prop().get_int() - 5000}); });
		std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (got != want) vh::fail("%d %s: the enumeration visits %zu leaves of %zu", n, shapes[sh], got.size(), want.size());
		value j = p.to_json(); for (auto &w : want) if (!j.get_obj().count(w.first) || j.get_obj().at(w.first).get_int() != 5000 + w.second) vh::fail("%d %s: to_json lacks %.60s", n, shapes[sh], w.first.c_str());
	};
	if (n > 1100 && sh > 1) return;
	std::vector<std::pair<std::string, int>> want; property p;
	switch (sh) {
	case 0: case 1: {
		property a{property_array()}; std::string tail = sh ? ".leaf" : "";
		for (int k = 0; k < n; k++) { if (sh) { property m(property_map({{"leaf", leaf(k)}})); a.push_back(m); } else a.push_back(leaf(k)); want.push_back({"[" + std::to_string(k) + "]" + tail, k}); }
		for (int k = 0; k < n; k++) expect(a, want[k].first, k);
		for (int k : {n, n + 1, n + 256, n + 65536}) expect(a, "[" + std::to_string(k) + "]" + tail, -1);
		expect(a, "[0" + std::to_string(n) + "]" + tail, -1); if (n) expect(a, "[00" + std::to_string(n - 1) + "]" + tail, n - 1);
		visits(a, want); property c(a); for (int k = 0; k < n; k += 7) { expect(c, want[k].first, k); if (&c.navigate(want[k].first) == &a.navigate(want[k].first)) vh::fail("a copy shares its nodes"); }
		if (throws([&] { a[(size_t)n]; }) == false) vh::fail("element beyond the end");
		break; }
	case 2: { std::string name; for (int k = 0; k < n; k++) name += (char)('a' + k % 26); std::string pre = n ? name.substr(0, n - 1) : "-"; p = property(property_map({{name, leaf(0)}, {name + "x", leaf(1)}})); expect(p, "." + name, 0); expect(p, "." + name + "x", 1); expect(p, "." + pre, -1); expect(p, "." + name + "y", -1); visits(p, {{"." + name, 0}, {"." + name + "x", 1}}); break; }
	case 3: case 4: case 5: {
		p = leaf(0); std::string path;
		for (int k = 0; k < n; k++) { bool arr = sh == 3 || (sh == 5 && k % 2); if (arr) { property a{property_array()}; a.push_back(p); p = a; path = "[0]" + path; } else { property m(property_map({{"n", p}})); p = m; path = ".n" + path; } if (n > 300 && k > 300) break; }
		expect(p, path, 0); expect(p, path + "[0]", -1); if (n) { expect(p, path.substr(path[0] == '.' ? 2 : 3), -1); visits(p, {{path, 0}}); }
		break; }
	case 6: { p = property{property_array()}; p.push_back(leaf(0)); for (int k = 0; k < n; k++) { property c(p); p = c; if (k % 3 == 1) { property m(std::move(p)); p = std::move(m); } } expect(p, "[0]", 0); expect(p, "[1]", -1); visits(p, {{"[0]", 0}}); break; }
	}
	vh::distinct(sig);
}
// ---- typed access
enum En : short { E0, E1, E5 = 5 };
struct Bank { int i = 11; uint8_t u = 12; int64_t l = 13; double d = 1.25; float f = 2.5; std::string s = "init"; bool b = true; En e = E1; int r[5] = {91, 21, 22, 23, 92}; double rd[4] = {-1, 1.5, 2.5, -2}; std::string rs[3] = {"p", "q", "r"}; };
static Bank bank, ref; static int nchecks, nmods, ctxtag; static void *seenctx; static J oldv;
static const char *kinds[] = {"int", "uint8_t", "int64_t", "double", "float", "string", "bool", "enum", "int range", "double range", "string range"};
static J readref(const Bank &k, int kind)
{
	J a = J::mk(J::Arr);
	switch (kind) {
	case 0: return J::I(k.i); case 1: return J::I(k.u); case 2: return J::I(k.l); case 3: return J::D(k.d); case 4: return J::D(k.f); case 5: return J::S(k.s); case 6: return J::B(k.b); case 7: return J::I(k.e);
	case 8: for (int q = 1; q < 4; q++) a.a.push_back(J::I(k.r[q])); return a;
	case 9: for (int q = 1; q < 3; q++) a.a.push_back(J::D(k.rd[q])); return a;
	default: a.a.push_back(J::S(k.rs[1])); return a;
	}
}
static bool asint(const J &v, int64_t &o) { if (v.t == J::Int) o = v.i; else if (v.t == J::Real) o = (int64_t)v.d; else if (v.t == J::Bool) o = v.b; else return false; return true; }
static bool asreal(const J &v, double &o) { if (v.t == J::Int) o = v.i; else if (v.t == J::Real) o = v.d; else return false; return true; }
static bool writeref(Bank &k, int kind, const J &v)
{
	int64_t x; double y;
	switch (kind) {
	case 0: if (!asint(v, x)) return false; k.i = x; return true;
	case 1: if (!asint(v, x)) return false; k.u = x; return true;
	case 2: if (!asint(v, x)) return false; k.l = x; return true;
	case 3: if (!asreal(v, y)) return false; k.d = y; return true;
	case 4: if (!asreal(v, y)) return false; k.f = y; return true;
	case 5: if (v.t != J::Str) return false; k.s = v.s; return true;
	case 6: if (v.t != J::Bool) return false; k.b = v.b; return true;
	case 7: if (v.t != J::Int) return false; k.e = (En)v.i; return true;
	}
	if (v.t != J::Arr || v.a.size() > (kind == 8 ? 3u : kind == 9 ? 2u : 1u)) return false;
	Bank t = k;
	for (size_t q = 0; q < v.a.size(); q++) {
		if (kind == 8) { if (!asint(v.a[q], x)) return false; t.r[1 + q] = x; }
		if (kind == 9) { if (!asreal(v.a[q], y)) return false; t.rd[1 + q] = y; }
		if (kind == 10) { if (v.a[q].t != J::Str) return false; t.rs[1 + q] = v.a[q].s; }
	}
	k = t; return true;
}
static std::string samebank() { for (int k = 0; k < 11; k++) { if (show(readref(bank, k)) != show(readref(ref, k))) return std::string("the ") + kinds[k] + " holds " + show(readref(bank, k)) + " instead of " + show(readref(ref, k)); } if (bank.r[0] != 91 || bank.r[4] != 92 || bank.rd[0] != -1 || bank.rd[3] != -2 || bank.rs[0] != "p" || bank.rs[2] != "r") return "a neighbour of a range is written"; return ""; }
static std::vector<J> vals;
static bool refuses(const J &v) { return (v.t == J::Int && v.i == 5) || (v.t == J::Str && v.s == "x") || (v.t == J::Real && v.d == 1.5) || (v.t == J::Bool && v.b) || (v.t == J::Arr && v.a.size() == 1); }
static std::function<void(const value &)> chk(int kind, int hook)
{
	return [=](const value &v) {
		nchecks++;
		if (show(readref(bank, kind)) != show(oldv)) vh::fail("the check hook runs after the write");
		if (hook == 2 && ((v.get_type() == rexjson::int_type && v.get_int64() == 5) || (v.get_type() == rexjson::str_type && v.get_str() == "x") || (v.get_type() == rexjson::real_type && v.get_real() == 1.5) || (v.get_type() == rexjson::bool_type && v.get_bool()) || (v.get_type() == rexjson::array_type && v.get_array().size() == 1))) throw std::runtime_error("refused");
	};
}
template <class T> static property mkleaf(T *p, size_t n, rexjson::property_access a, int kind, int hook)
{
	std::function<void(const value &)> c = chk(kind, hook);
	std::function<void(void *)> m = [=](void *x) { nmods++; seenctx = x; if (show(readref(bank, kind)) != show(readref(ref, kind))) vh::fail("the modified hook runs before the write"); };
	if constexpr (!std::is_same<T, bool>::value) if (n) return hook ? property(p, n, a, c, m, &ctxtag) : a == rexjson::readwrite ? property(p, n) : property(p, n, a);
	return hook ? property(p, a, c, m, &ctxtag) : a == rexjson::readwrite ? property(p) : property(p, a);
}
static property leafof(int kind, rexjson::property_access a, int hook)
{
	switch (kind) {
	case 0: return mkleaf(&bank.i, 0, a, kind, hook); case 1: return mkleaf(&bank.u, 0, a, kind, hook); case 2: return mkleaf(&bank.l, 0, a, kind, hook); case 3: return mkleaf(&bank.d, 0, a, kind, hook);
	case 4: return mkleaf(&bank.f, 0, a, kind, hook); case 5: return mkleaf(&bank.s, 0, a, kind, hook); case 6: return mkleaf(&bank.b, 0, a, kind, hook); case 7: return mkleaf(&bank.e, 0, a, kind, hook);
	case 8: return mkleaf(bank.r + 1, 3, a, kind, hook); case 9: return mkleaf(bank.rd + 1, 2, a, kind, hook); default: return mkleaf(bank.rs + 1, 1, a, kind, hook);
	}
}
static int nset;
static const char *vias[] = {"the leaf", "a member", "a path", "a copied tree", "an element of an assigned tree"};
struct Acc { int kind, acc, hook, via; std::vector<int> v; };
static Acc accof(uint64_t i) { vh::Idx x(i); Acc a; a.v.resize(nset); for (int k = nset; k--;) a.v[k] = x.take(vals.size()); a.via = x.take(5); a.hook = x.take(3); a.acc = 1 + x.take(3); a.kind = x.take(11); return a; }
static std::string showacc(uint64_t i) { Acc a = accof(i); std::string s = std::string(kinds[a.kind]) + " access " + std::to_string(a.acc) + " hooks " + std::to_string(a.hook) + " by " + vias[a.via] + ", writes"; for (int v : a.v) s += " " + show(vals[v]); return s; }
static void runacc(uint64_t i)
{
	Acc a = accof(i); bank = Bank(); ref = Bank(); auto pa = (rexjson::property_access)a.acc; uint64_t sig = i / vh::ipow(vals.size(), nset);
	property other = leafof((a.kind + 1) % 11, rexjson::readwrite, 0), leaf = leafof(a.kind, pa, a.hook);
	property tree(property_map({{"n", other}, {"k", property(property_array({other, leaf}))}, {"kk", other}}));
	property copy(tree), assigned; assigned = copy;
	property *p = &leaf;
	switch (a.via) { case 1: p = &tree["k"][1]; break; case 2: p = &tree.navigate(".k[1]"); break; case 3: p = &copy["k"]["1"]; tree = property(); break; case 4: p = &assigned.navigate("k[1]"); copy = leaf; tree = copy; break; }
	if (p->access() != pa) vh::fail("access %d", (int)p->access());
	for (int k = 0; k <= nset; k++) {
		bool rd = !throws([&] { std::string e = differ(readref(ref, a.kind), p->get_prop(), 0, false); if (!e.empty()) vh::fail("after %d writes the property reads %s", k, e.c_str()); });
		if (rd != !!(pa & 1)) vh::fail("reading with access %d", a.acc);
		if (k == nset) break;
		const J &v = vals[a.v[k]];
		if ((a.kind == 0 || a.kind == 1 || a.kind == 7) && ((v.t == J::Int && (v.i > 2000000000 || v.i < -2000000000)) || (v.t == J::Real && v.d > 2e9))) break;     // likewise
		if (a.kind == 1 && ((v.t == J::Int && v.i < 0) || (v.t == J::Real && v.d <= -1))) break;     // out of the variable's range
		Bank t = ref; bool ok = (pa & 2) && !(a.hook == 2 && refuses(v)) && writeref(t, a.kind, v);
		oldv = readref(ref, a.kind); if (ok) ref = t; nchecks = nmods = 0; seenctx = nullptr;
		value w = val(v); bool done = !throws([&] { p->set_prop(w); });
		if (done != ok) vh::fail("write %d is %s", k + 1, done ? "accepted" : "refused");
		std::string e = samebank(); if (!e.empty()) vh::fail("after write %d %s", k + 1, e.c_str());
		if (a.hook && (nmods != ok || nchecks > 1 || (ok && nchecks != 1) || (!(pa & 2) && nchecks))) vh::fail("write %d ran the check hook %d times and the modified hook %d times", k + 1, nchecks, nmods);
		if (a.hook && ok && seenctx != &ctxtag) vh::fail("the modified hook got another context");
		sig = vh::mix(sig, ok ? vh::hstr(show(readref(ref, a.kind))) : 1); vh::eval();
	}
	vh::steps(nset); vh::distinct(sig);
}
// ---- histories of copies and assignments
static int hl;
static const char *hops[] = {"p0=p1", "p1=p0", "p0=p0", "p0=p0[k]", "p0[k]=p0", "p1=p0[k]", "p0[k]=p1", "p0.push(p1)", "p0.push(p0)", "p0.push(p0[k])", "p0[k].push(p1)", "p1=empty", "p0=map", "p0=array", "p1=move(copy p0)", "p0=leaf"};
static N *kid(N &n) { return n.c.size() && (n.k == 'm' || n.k == 'a') ? &n.c.back().second : nullptr; }
static std::vector<N> seeds;
static int weight(const N &n) { int w = 1; for (auto &x : n.c) w += weight(x.second); return w; }
static void runhist(uint64_t i)
{
	vh::Idx x(i); std::vector<int> o(hl); for (int k = hl; k--;) o[k] = x.take(16);
	int s = x.take(seeds.size()); initvars();
	N m[2] = {seeds[s], seeds[(s + 1) % seeds.size()]}; property p[2] = {build(m[0]), build(m[1])};
	N map; map.k = 'm'; N l1, l2; l1.slot = 31; l2.slot = 32; map.c = {{"a", l1}, {"b", l2}}; N arr; arr.k = 'a'; arr.c = {{"", l2}, {"", map}}; uint64_t sig = s;
	for (int k = 0; k < hl; k++) {
		N *c = kid(m[0]); std::string nmk = !c ? "a" : m[0].k == 'm' ? m[0].c.back().first : std::to_string(m[0].c.size() - 1); bool want = true, did;
		if (weight(m[0]) + weight(m[1]) > 60) break;
		did = !throws([&] {
			switch (o[k]) {
			case 0: m[0] = N(m[1]); p[0] = p[1]; break;
			case 1: m[1] = N(m[0]); p[1] = p[0]; break;
			case 2: { property &q = p[0]; p[0] = q; break; }
			case 3: want = c; if (c) { N t = *c; m[0] = t; } p[0] = p[0][nmk]; break;
			case 4: want = c; if (c) { N t = m[0]; *c = t; } p[0][nmk] = p[0]; break;
			case 5: want = c; if (c) m[1] = *c; p[1] = p[0][nmk]; break;
			case 6: want = c; if (c) *c = m[1]; p[0][nmk] = p[1]; break;
			case 7: want = m[0].k == 'a'; if (want) m[0].c.push_back({"", m[1]}); { property &r = p[0].push_back(p[1]); if (&r != &p[0][m[0].c.size() - 1]) vh::fail("push_back returns another element"); } break;
			case 8: want = m[0].k == 'a'; if (want) { N t = m[0]; m[0].c.push_back({"", t}); } p[0].push_back(p[0]); break;
			case 9: want = m[0].k == 'a' && c; if (want) { N t = *c; m[0].c.push_back({"", t}); } p[0].push_back(p[0][nmk]); break;
			case 10: want = c && c->k == 'a'; if (want) c->c.push_back({"", m[1]}); p[0][nmk].push_back(p[1]); break;
			case 11: m[1] = N(); m[1].k = 'e'; p[1] = property(); break;
			case 12: m[0] = map; p[0] = build(map); break;
			case 13: m[0] = arr; p[0] = build(arr); break;
			case 14: { m[1] = N(m[0]); property t(p[0]); property u(std::move(t)); p[1] = u; if (!throws([&] { t.get_prop(); }) || !throws([&] { t.access(); })) vh::fail("a moved property is not empty"); t = u; break; }
			case 15: m[0] = l1; p[0] = property(&vars[31]); break;
			}
		});
		if (did != want) vh::fail("%s %s", hops[o[k]], did ? "is accepted" : "throws");
		sig = vh::mix(vh::mix(sig, verify(p[0], m[0])), verify(p[1], m[1]));
	}
	vh::steps(hl); vh::eval(); vh::distinct(sig);
}
static void setup()
{
	initvars(); int es = vh::thorough ? 6 : 5; gentrees(es);
	for (int s = 1; s <= es; s++) for (auto &t : bysize[s]) { etrees.push_back(t); renumber(etrees.back(), 0); if (s <= 3) ptrees.push_back(etrees.back()); }
	{ N a; a.k = 'a'; for (int k = 0; k < 12; k++) { N l; a.c.push_back({"", l}); } N m; m.k = 'm'; m.c = {{"a", a}, {"b", etrees[0]}}; N o; o.k = 'a'; o.c = {{"", a}, {"", m}}; for (N *t : {&a, &m, &o}) { renumber(*t, 0); ptrees.push_back(*t); } }
	pbuilt.resize(ptrees.size()); plen = vh::thorough ? 5 : 4; nset = vh::thorough ? 3 : 2; hl = vh::thorough ? 4 : 3;
	for (auto &t : etrees) { bool r = false; for (auto &x : t.c) r |= x.second.k != 'e' && x.second.c.size() > 0; if (r && weight(t) == 4 && t.k != 'l') { seeds.push_back(t); } if (weight(t) <= 2) seeds.push_back(t); }
	{ std::vector<N> k; for (size_t q = 0; q < seeds.size(); q += seeds.size() > 40 ? seeds.size() / 40 + 1 : 1) k.push_back(seeds[q]); for (auto &t : seeds) if (weight(t) == 1) k.push_back(t); seeds = k; }
	J a = J::mk(J::Arr); auto L = [&](std::vector<J> v) { a.a = v; vals.push_back(a); };
	vals = {J(), J::mk(J::Obj), J::S("x"), J::S(""), J::S("new"), J::B(true), J::B(false), J::I(0), J::I(5), J::I(-3), J::I(120), J::D(1.5), J::D(-2.75), J::D(0), J::I(5000000000), J::I(-4000000001), J::I(1ll << 53), J::D(6e9)};
	L({}); L({J::I(1)}); L({J::I(1), J::I(2)}); L({J::I(4), J::B(true), J::D(3.5)}); L({J::I(1), J::I(2), J::I(3), J::I(4)}); L({J::I(7), J::S("x")}); L({J::I(7), J::I(8), J::S("x")}); L({J::D(1.5), J::I(2)}); L({J::S("y")}); L({J::S("y"), J::S("z")}); L({J::I(9), J()}); L({a});
	vh::Family f; f.chunk = 256;
	f.name = "paths"; f.count = ptrees.size() * vh::nstrings(alpha.size(), plen); f.run = runpath; f.describe = [](uint64_t i) { uint64_t ns = vh::nstrings(alpha.size(), plen); std::string s = vh::nthtext(i % ns, alpha); return show(ptrees[i / ns]) + " path " + s; }; vh::families.push_back(f);
	f.chunk = 32;
	f.name = "trees"; f.count = etrees.size(); f.run = runenum; f.describe = [](uint64_t i) { return show(etrees[i]); }; vh::families.push_back(f);
	f.name = "access"; f.count = 11 * 3 * 3 * 5 * vh::ipow(vals.size(), nset); f.run = runacc; f.describe = showacc; vh::families.push_back(f);
	f.name = "histories"; f.count = seeds.size() * vh::ipow(16, hl); f.run = runhist; f.describe = [](uint64_t i) { vh::Idx x(i); std::vector<int> o(hl); for (int k = hl; k--;) o[k] = x.take(16); int s = x.take(seeds.size()); std::string r = "p0=" + show(seeds[s]) + " p1=" + show(seeds[(s + 1) % seeds.size()]) + ":"; for (int k : o) r += std::string(" ") + hops[k]; return r; }; vh::families.push_back(f);
	f.name = "many"; f.count = 7 * (sizeof sizes / sizeof *sizes); f.run = runmany; f.describe = [](uint64_t i) { vh::Idx x(i); int n = sizes[x.take(sizeof sizes / sizeof *sizes)]; return vh::fmt("%d %s", n, shapes[x.take(7)]); }; vh::families.push_back(f);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
