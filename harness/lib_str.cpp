// L03: every history of operations on string objects against std::string, and every pair of short strings through the string functions.
#include "vh.hpp"
#include "pump.hpp"
#include <climits>
#include <cfloat>
#include <cmath>
extern "C" {
#include "rlib/rstring.h"
#include "rlib/rcharconv.h"
#include "rlib/robject.h"
#include "rlib/rmem.h"
char *r_strtrimr(char *s, const char *chrs);
}
static int depth = 4;
// every literal is handed over in a heap block of exactly its size
struct Buf { char *p; Buf(const std::string &s, bool term) { p = new char[s.size() + term]; memcpy(p, s.data(), s.size()); if (term) p[s.size()] = 0; } ~Buf() { delete[] p; } };
static std::string LIT[6];
static const int NS = 3;
static int NOPS;
struct Op { int k, s, a; };
static std::vector<Op> ops;
static std::string opname(const Op &o)
{
	char b[128];
	static const char *k[] = {"%d = terminated literal %d", "%d = counted literal %d", "%d = copy of %d", "%d = object copy of %d", "append literal %d to %d", "%d = %d + next", "%d = int %d", "%d = double %d", "append zero bytes to %d", "%d = counted literal %d with an embedded NUL", "%d = nothing, counted %d", "append %d to %d", "%d = rstr duplicate of literal %d"};
	if (o.k == 4 || o.k == 11) snprintf(b, sizeof b, k[o.k], o.a, o.s); else snprintf(b, sizeof b, k[o.k], o.s, o.a);
	return b;
}
static std::string show(uint64_t i) { std::string s = "strings:"; std::vector<int> o(depth); for (int k = depth; k--;) { o[k] = i % NOPS; i /= NOPS; } for (int x : o) s += " " + opname(ops[x]) + ";"; return s; }
static const long INTS[] = {0, -1, LONG_MAX, LONG_MIN, 42, 1000000000000L};
static void run(uint64_t i)
{
	std::vector<int> o_(depth); for (int k = depth; k--;) { o_[k] = i % NOPS; i /= NOPS; }
	if (P.size()) o_ = P;
	long mem = r_debug_get_allocmem();
	rstring_t *s[NS]; std::string m[NS]; uint64_t sig = 0;
	for (int k = 0; k < NS; k++) s[k] = r_string_create_from_ansi("");
	auto check = [&](const std::string &after) {
		for (int k = 0; k < NS; k++) {
			if (!s[k]) vh::fail("after %s: string %d was not created", after.c_str(), k);
			if (s[k]->size != m[k].size() || memcmp(s[k]->str, m[k].c_str(), m[k].size() + 1)) vh::fail("after %s: string %d is '%s' (%zu), should be '%s' (%zu)", after.c_str(), k, vh::esc(s[k]->str).c_str(), s[k]->size, vh::esc(m[k]).c_str(), m[k].size());
			if (R_STRING2ANSI(s[k]) != s[k]->str || (r_string_empty(s[k])) != m[k].empty()) vh::fail("after %s: string %d says it is%s empty", after.c_str(), k, m[k].empty() ? " not" : "");
			if (r_object_typeget((robject_t *)s[k]) != R_OBJECT_STRING) vh::fail("after %s: not a string object", after.c_str());
			for (int j = 0; j < k; j++) if (s[j]->str == s[k]->str) vh::fail("after %s: strings %d and %d share their text", after.c_str(), j, k);
			sig = vh::hstr(m[k], sig);
		}
	};
	check("creation");
	for (size_t k = 0; k < o_.size(); k++) {
		const Op &o = ops[o_[k]];
		if (P.size() && ((o.k == 5 && m[o.a].size() + m[(o.a + 1) % NS].size() > 3000) || (o.k == 11 && m[o.s].size() + m[o.a].size() > 3000) || (o.k == 4 && m[o.s].size() > 3000))) continue;   // stays small enough to compare every time
		rstring_t *n = nullptr; std::string v; bool assign = true;
		switch (o.k) {
		case 0: { Buf b(LIT[o.a], true); n = r_string_create_from_ansi(b.p); v = LIT[o.a]; memset(b.p, 'z', v.size()); } break;
		case 1: { Buf b(LIT[o.a], false); n = r_string_create_from_str_len(b.p, LIT[o.a].size()); v = LIT[o.a]; memset(b.p, 'z', v.size()); } break;
		case 2: n = r_string_create_from_string(s[o.a]); v = m[o.a]; break;
		case 3: n = (rstring_t *)s[o.a]->obj.copy((robject_t *)s[o.a]); v = m[o.a]; break;
		case 4: { Buf b(LIT[o.a], false); r_string_cat_len(s[o.s], b.p, LIT[o.a].size()); m[o.s] += LIT[o.a]; memset(b.p, 'z', LIT[o.a].size()); assign = false; } break;
		case 5: { int q = (o.a + 1) % NS; n = r_string_cat(s[o.a], s[q]); v = m[o.a] + m[q]; } break;
		case 6: n = r_string_create_from_int(INTS[o.a]); v = std::to_string(INTS[o.a]); break;
		case 7: { double d = o.a ? -12345.678901234 : 1e20; n = r_string_create_from_double(d); v = std::to_string(d); } break;
		case 8: r_string_cat_len(s[o.s], "x", 0); r_string_cat_len(s[o.s], NULL, 4); assign = false; break;
		case 9: { std::string w = LIT[o.a] + std::string(1, 0) + "tail"; Buf b(w, false); n = r_string_create_from_str_len(b.p, w.size()); v = LIT[o.a]; } break;
		case 10: n = r_string_create_from_str_len(NULL, o.a * 4); break;
		case 11: { if (o.a == o.s) { assign = false; break; } r_string_cat_len(s[o.s], s[o.a]->str, s[o.a]->size); m[o.s] += m[o.a]; assign = false; } break;
		case 12: { Buf b(LIT[o.a], false); rstr_t *r = r_rstrdup(b.p, LIT[o.a].size()); memset(b.p, 'z', LIT[o.a].size()); if (r->size != LIT[o.a].size() || memcmp(r->str, LIT[o.a].c_str(), r->size + 1)) vh::fail("duplicate differs"); n = r_string_create_from_str_len(r->str, r->size); r_rstr_free(r); v = LIT[o.a]; } break;
		}
		if (assign) { r_string_destroy(s[o.s]); s[o.s] = n; m[o.s] = v; }
		check(opname(o));
	}
	for (int k = 0; k < NS; k++) r_string_destroy(s[k]);
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::eval(o_.size() + 1); vh::steps(o_.size()); vh::distinct(sig);
}

// ---- functions on every pair of short strings
static const std::string alpha("ab\x80\xffA ");
static unsigned plen = 2;
static std::vector<std::string> pool;
static void pairfn(const std::string &a, const std::string &b, uint64_t i);
static void runp(uint64_t i) { pairfn(pool[i / pool.size()], pool[i % pool.size()], i); }
// the same for long strings, with seconds that end, repeat or nearly repeat the first
static const int LONGB = 9;
static std::string longa(uint64_t n) { std::string a; for (uint64_t k = 0; k < n; k++) a += k % 11 == 3 ? ' ' : "abA\x80"[(k * k + k / 3) % 4]; return a; }
static std::string longb(uint64_t i)
{
	std::string a = longa(i / LONGB), b = a; size_t n = a.size();
	switch (i % LONGB) { case 0: break; case 1: b += "b"; break; case 2: if (n) b.pop_back(); break; case 3: if (n) b[n - 1] ^= 1; break; case 4: if (n) b[n / 2] ^= 0x41; break; case 5: b = n > 3 ? a.substr(n - 3) : a; break; case 6: b = " "; break; case 7: b = n > 40 ? a.substr(n / 2, 37) : a; break; case 8: if (n) b[0] ^= 1; break; }
	for (char &c : b) if (!c) c = 'q';
	return b;
}
static void runlong(uint64_t i) { pairfn(longa(i / LONGB), longb(i), i); }
static std::string showp(uint64_t i) { return "functions on '" + pool[i / pool.size()] + "' and '" + pool[i % pool.size()] + "'"; }
static int sgn(int x) { return (x > 0) - (x < 0); }
static int ref(const std::string &a, const std::string &b) { return sgn(a.compare(b)); }
static void pairfn(const std::string &a, const std::string &b, uint64_t i)
{
	Buf A(a, true), B(b, true);
	long mem = r_debug_get_allocmem();
	auto ucmp = [](const std::string &x, const std::string &y) { size_t n = std::min(x.size(), y.size()); int c = memcmp(x.data(), y.data(), n); return c ? sgn(c) : sgn((int)x.size() - (int)y.size()); };
	if (sgn(r_strcmp(A.p, B.p)) != ucmp(a, b) || sgn(r_strcmp(B.p, A.p)) != -ucmp(a, b)) vh::fail("strcmp");
	if (r_strlen(A.p) != a.size() || r_strlen(NULL) != 0) vh::fail("strlen");
	for (size_t n = 0; n <= a.size() + 2; n++) {
		std::string pa = a.substr(0, n), pb = b.substr(0, n);
		if (sgn(r_strncmp(A.p, B.p, n)) != ucmp(pa, pb)) vh::fail("strncmp of %zu", n);
		if (n <= b.size()) { Buf C(b.substr(0, n), n < b.size() ? true : true); if (!!r_stringncmp(A.p, B.p, n) != (a.size() == n && a == pb)) vh::fail("stringncmp of %zu gives %d", n, (int)r_stringncmp(A.p, B.p, n)); }
		{ char *d = r_strndup(A.p, n); if (strcmp(d, pa.c_str())) vh::fail("strndup of %zu", n); r_free(d); }
		if (n <= a.size()) { Buf C(pa, false); char *d = r_strndup(C.p, n); if (strcmp(d, pa.c_str())) vh::fail("strndup of %zu", n); r_free(d);
			rstr_t *r = r_rstrdup(C.p, n); if (r->size != n || memcmp(r->str, pa.c_str(), n + 1)) vh::fail("rstrdup of %zu", n); r_rstr_free(r); }
		{ char *d = new char[n + 1]; memset(d, 'q', n + 1); if (r_strncpy(d, A.p, n) != d || d[n] != 'q') vh::fail("strncpy of %zu", n); for (size_t k = 0; k < n; k++) if (d[k] != (k < a.size() ? a[k] : 0)) vh::fail("strncpy of %zu", n); delete[] d; }
		{ std::string w = b + pa; char *d = new char[w.size() + 1]; strcpy(d, b.c_str()); if (r_strncat(d, A.p, n) != d || w != d) vh::fail("strncat of %zu", n); delete[] d; }
		{ std::vector<char> d_(n + 1, 'q'); char *d = d_.data(); int k = r_snprintf(d, n, "%s|%d", A.p, (int)i); std::string w = a + "|" + std::to_string(i); if (k != (int)w.size() || (n && w.substr(0, n - 1) != std::string(d).substr(0)) || d[n] != 'q') vh::fail("snprintf into %zu", n); }
	}
	{ char *d = r_strdup(A.p); if (a != d || d == A.p) vh::fail("strdup"); r_free(d); }
	{ char *d = new char[a.size() + 1]; if (r_strcpy(d, A.p) != d || a != d) vh::fail("strcpy"); delete[] d; }
	{ std::string w = a + b; char *d = new char[w.size() + 1]; strcpy(d, A.p); if (r_strcat(d, B.p) != d || w != d) vh::fail("strcat"); delete[] d; }
	{ char *p = r_strstr(A.p, B.p); size_t w = a.find(b); if (p != (w == std::string::npos ? NULL : A.p + w)) vh::fail("strstr"); }
	for (char c : alpha) { char *p = r_strchr(A.p, c); size_t w = a.find(c); if (p != (w == std::string::npos ? NULL : A.p + w)) vh::fail("strchr"); }
	if (r_strchr(A.p, 0) != A.p + a.size()) vh::fail("strchr of NUL");
	{ Buf C(a, true); std::string w = a; while (!w.empty() && b.find(w.back()) != std::string::npos) w.pop_back(); if (r_strtrimr(C.p, B.p) != C.p || w != C.p) vh::fail("strtrimr"); }
	{ rstr_t *r = r_rstrdup(NULL, 3); if (r->size != 3 || memcmp(r->str, "\0\0\0", 4)) vh::fail("rstrdup of nothing"); r_rstr_free(r); }
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::eval(20); vh::steps(1); vh::distinct(vh::hstr(a + "|" + b) );
}
// ---- numbers
static std::vector<std::string> numtexts; static std::vector<long> ints; static std::vector<double> dbls;
static std::string shown(uint64_t i)
{
	char b[600];
	if (i < ints.size()) { snprintf(b, sizeof b, "string from %ld", ints[i]); return b; }
	i -= ints.size();
	if (i < dbls.size()) { snprintf(b, sizeof b, "string from %.17g", dbls[i]); return b; }
	return "numbers read from '" + numtexts[i - dbls.size()] + "'";
}
static void runn(uint64_t i)
{
	vh::eval(); vh::steps(1); vh::distinct(i + 1);
	if (i < ints.size()) {
		rstring_t *s = r_string_create_from_int(ints[i]); if (!s || std::to_string(ints[i]) != s->str || s->size != strlen(s->str)) vh::fail("gives '%s'", s ? s->str : "nothing");
		char *e; if (r_strtol(s->str, &e, 10) != ints[i] || *e) vh::fail("does not read back"); r_string_destroy(s); return;
	}
	i -= ints.size();
	if (i < dbls.size()) {
		char b[600]; int n = snprintf(b, sizeof b, "%f", dbls[i]);
		rstring_t *s = r_string_create_from_double(dbls[i]);
		if (!s) { if (n < 100) vh::fail("gives nothing"); return; }     // very long numbers may be refused, but not cut
		if (strcmp(b, s->str) || s->size != strlen(b)) vh::fail("gives '%s'", s->str);
		r_string_destroy(s); return;
	}
	const std::string &t = numtexts[i - dbls.size()]; Buf T(t, true); char *e1, *e2;
	for (int base : {0, 8, 10, 16, 2}) {
		if (r_strtol(T.p, &e1, base) != strtol(T.p, &e2, base) || e1 != e2) vh::fail("strtol base %d", base);
		if (r_strtoul(T.p, &e1, base) != strtoul(T.p, &e2, base) || e1 != e2) vh::fail("strtoul base %d", base);
	}
	double a = r_strtod(T.p, &e1), b = strtod(T.p, &e2); if (memcmp(&a, &b, 8) || e1 != e2) vh::fail("strtod");
}
// ---- character case, every code point
static std::string showc(uint64_t i) { char b[64]; snprintf(b, sizeof b, "case of the characters from U+%04lX", (unsigned long)i * 256); return b; }
static void runc(uint64_t i)
{
	for (unsigned long c = i * 256; c < i * 256 + 256; c++) {
		unsigned long lo = c >= 'A' && c <= 'Z' ? c + 32 : c, hi = c >= 'a' && c <= 'z' ? c - 32 : c, ic = lo != c ? lo : hi;
		if (r_charlow(c) != lo || r_charhigh(c) != hi) vh::fail("U+%04lX: lower %lx upper %lx", c, r_charlow(c), r_charhigh(c));
		if (c < 128 && r_charicase(c) != ic) vh::fail("U+%04lX: other case %lx", c, r_charicase(c));
		if (c >= 128 && r_charicase(c) < 128) vh::fail("U+%04lX: other case %lx", c, r_charicase(c));
		if (r_charicase(r_charicase(c)) != c) vh::fail("U+%04lX: the other case of the other case is %lx", c, r_charicase(r_charicase(c)));
	}
	vh::eval(256); vh::steps(256); vh::distinct(i + 1);
}
// ---- counted texts with NULs anywhere: a text ends at its first NUL, a duplicate keeps all of it
static std::vector<std::string> cnt;
static std::string showk(uint64_t i) { std::string s = "counted texts"; for (int k = 0; k < 3; k++, i /= cnt.size()) s += " '" + vh::esc(cnt[i % cnt.size()]) + "'"; return s; }
static void runk(uint64_t i)
{
	long mem = r_debug_get_allocmem(); std::string m; rstring_t *s = nullptr; uint64_t h = i;
	for (int k = 0; k < 3; k++, h /= cnt.size()) {
		const std::string &t = cnt[h % cnt.size()]; Buf b(t, false);
		if (!k) s = r_string_create_from_str_len(b.p, t.size()); else r_string_cat_len(s, b.p, t.size());
		m += t.substr(0, t.find('\0'));
		if (s->size != m.size() || memcmp(s->str, m.c_str(), m.size() + 1)) vh::fail("after text %d: '%s' (%zu), should be '%s' (%zu)", k, vh::esc(s->str).c_str(), s->size, vh::esc(m).c_str(), m.size());
		rstr_t *r = r_rstrdup(b.p, t.size()); if (r->size != t.size() || memcmp(r->str, t.data(), t.size()) || r->str[t.size()]) vh::fail("duplicate of text %d differs", k); r_rstr_free(r);
		{ char *d = r_strndup(b.p, t.size()); if (t.substr(0, t.find('\0')) != d) vh::fail("strndup of text %d differs", k); r_free(d); }
	}
	rstring_t *c = (rstring_t *)s->obj.copy((robject_t *)s), *d = r_string_create_from_string(s), *e = r_string_cat(s, c);
	if (c->size != m.size() || m != c->str || d->size != m.size() || m != d->str || e->size != 2 * m.size() || m + m != e->str) vh::fail("copies differ");
	for (rstring_t *x : {s, c, d, e}) r_string_destroy(x);
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::eval(6); vh::steps(3); vh::distinct(vh::hstr(m));
}
static void setup()
{
	depth = vh::thorough ? 5 : 4;
	LIT[0] = ""; LIT[1] = "a"; LIT[2] = "longer than any small buffer could be, really: 0123456789 0123456789 0123456789"; LIT[3] = "\xff\x80%s\n"; LIT[4] = std::string(300, 'w'); LIT[5] = "b c";
	for (int s = 0; s < NS; s++) {
		for (int a = 0; a < 4; a++) ops.push_back({0, s, a});
		if (s < 2) for (int a : {0, 1, 3, 4}) ops.push_back({1, s, a});
		for (int a = 0; a < NS; a++) if (s < 2) ops.push_back({2, s, a});
		ops.push_back({3, s, (s + 1) % NS});
		for (int a : {1, 2, 0}) if (s < 2) ops.push_back({4, s, a});
		for (int a = 0; a < NS; a++) if (s < 2) ops.push_back({5, s, a});
		ops.push_back({11, s, (s + 1) % NS});
	}
	for (int a : {0, 1, 3}) ops.push_back({6, a % NS, a});
	ops.push_back({7, 0, 0}); ops.push_back({7, 1, 1}); ops.push_back({8, 0, 0}); ops.push_back({9, 1, 1}); ops.push_back({9, 2, 0}); ops.push_back({10, 0, 1}); ops.push_back({12, 2, 3});
	NOPS = ops.size();
	plen = vh::thorough ? 4 : 3;
	for (uint64_t k = 0; k < vh::nstrings(alpha.size(), plen); k++) pool.push_back(vh::nthtext(k, alpha));
	for (long b = 0; b < 63; b++) for (long d : {-1L, 0L, 1L}) { ints.push_back((1L << b) + d); ints.push_back(-(1L << b) + d); }
	ints.push_back(LONG_MIN); ints.push_back(LONG_MAX);
	for (long p = 1, k = 0; k < 19; k++, p *= 10) { ints.push_back(p); ints.push_back(-p); ints.push_back(p - 1); }
	for (int e = -30; e < 308; e++) for (double f : {1.0, -1.0, 9.9999999, 1.25}) dbls.push_back(f * pow(10, e));
	for (double d : {0.0, -0.0, DBL_MAX, -DBL_MAX, DBL_MIN, (double)INFINITY, -(double)INFINITY, (double)NAN, 0.1, 0.5, 1.5, 2.5, 0.0000005}) dbls.push_back(d);
	std::string na = "+-019afx.e ";
	for (uint64_t k = 0; k < vh::nstrings(na.size(), 4); k++) numtexts.push_back(vh::nthtext(k, na));
	for (const char *t : {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e308", "1e309", "4.9e-324", "inf", "nan", "0x1p4"}) numtexts.push_back(t);
	vh::Family f; f.chunk = 256;
	f.name = "histories"; f.count = vh::ipow(NOPS, depth); f.run = run; f.describe = show; vh::families.push_back(f);
	{ std::string ca("ab\0", 3); for (uint64_t k = 0; k < vh::nstrings(3, vh::thorough ? 4 : 3); k++) cnt.push_back(vh::nthtext(k, ca)); cnt.push_back(std::string(40, 'x') + std::string(2, 0) + "y"); }
	f.name = "counted-texts"; f.count = cnt.size() * cnt.size() * cnt.size(); f.run = runk; f.describe = showk; vh::families.push_back(f);
	f.name = "functions"; f.count = pool.size() * pool.size(); f.run = runp; f.describe = showp; vh::families.push_back(f);
	f.chunk = 8;
	f.name = "functions-long"; f.count = LONGB * (vh::thorough ? 600 : 300); f.run = runlong; f.describe = [](uint64_t i) { return "functions on '" + vh::esc(longa(i / LONGB)) + "' and '" + vh::esc(longb(i)) + "'"; }; vh::families.push_back(f);
	static std::vector<std::string> nm; for (auto &o : ops) nm.push_back(opname(o)); static std::vector<const char *> nmp; for (auto &x : nm) nmp.push_back(x.c_str());
	pumps = vh::thorough ? 200 : 60;
	f.name = "histories-long"; f.count = npump(NOPS); f.run = [](uint64_t i) { P = pump(i, NOPS); struct R { ~R() { P.clear(); } } x; run(0); }; f.describe = [](uint64_t i) { return "strings: " + showpump(i, NOPS, nmp.data()); }; vh::families.push_back(f);
	f.chunk = 256;
	f.name = "numbers"; f.count = ints.size() + dbls.size() + numtexts.size(); f.run = runn; f.describe = shown; vh::families.push_back(f);
	f.name = "letter-case"; f.count = 0x110000 / 256; f.run = runc; f.describe = showc; vh::families.push_back(f);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
