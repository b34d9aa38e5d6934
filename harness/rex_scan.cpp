// R02: scanning is leftmost-longest.  malloc is wrapped to hand out filled memory, so that the prefilter table never
// depends on what a recycled block happened to contain.
#include "vh.hpp"
#include "rexmodel.hpp"
extern "C" {
#include "rlib/rmem.h"
#include "rex/rexregex.h"
extern void *__real_malloc(size_t);
static int fillbyte = 0;
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) memset(p, fillbyte, n); return p; }
}
using namespace rm;
struct Set { std::vector<P> e; std::vector<Text> in; std::vector<std::string> by; bool utf; int fill; };
static std::vector<Set> sets;
static void check(const Set &s, uint64_t i)
{
	const P &e = s.e[i];
	fillbyte = s.fill;
	long mem0 = r_debug_get_allocmem();
	rexregex_t *rx = rex_regex_create(e->s.c_str(), e->s.size());
	VH_CHECK(rx, "valid expression rejected");
	uint64_t h = 9;
	for (size_t k = 0; k < s.in.size(); k++) {
		const Text &t = s.in[k]; const std::string &b = s.by[k];
		int want = 0; size_t at = 0, pos = 0;
		for (size_t p = 0; p < t.size(); p++) {
			int m = longest(e, t, p);
			if (m) { at = pos; for (int j = 0; j < m; j++) want += s.utf ? u8c(t[p + j]).size() : 1; break; }
			pos += s.utf ? u8c(t[p]).size() : 1;
		}
		char *p = (char *)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
		bool ascii = true; for (auto c : t) if (c >= 0x80) ascii = false;
		for (int enc = 0; enc < 2; enc++) {
			if (enc == REX_ENCODING_UTF8 ? !s.utf : (s.utf && !ascii)) continue;
			const char *where = NULL;
			int r = rex_regex_scan(rx, enc, p, p + b.size(), &where);
			VH_CHECK(r == want, "input '%s' (%s): scan returned %d, want %d", vh::esc(b).c_str(), enc ? "byte" : "utf8", r, want);
			if (want) VH_CHECK(where == p + at, "input '%s' (%s): scan found offset %ld, leftmost is %zu", vh::esc(b).c_str(), enc ? "byte" : "utf8", (long)(where - p), at);
			int r2 = rex_regex_scan(rx, enc, p, p + b.size(), NULL);
			VH_CHECK(r2 == want, "scan without position argument returned %d, want %d", r2, want);
			vh::traces(2);
		}
		free(p);
		h = vh::mix(h, want * 64 + at);
	}
	vh::eval(s.in.size()); vh::steps(s.in.size()); vh::distinct(h);
	rex_regex_destroy(rx);
	VH_CHECK((long)r_debug_get_allocmem() == mem0, "memory not released");
}
static void inputs(Set &s, const std::vector<uint32_t> &al, unsigned from, unsigned len)
{
	for (uint64_t i = from ? vh::nstrings(al.size(), from - 1) : 0; i < vh::nstrings(al.size(), len); i++) { Text t; for (int c : vh::nthstring(i, al.size())) t.push_back(al[c]); s.in.push_back(t); std::string x; if (s.utf) x = utf8(t); else for (auto c : t) x += (char)c; s.by.push_back(x); }
}
// the same text embedded at every offset of runs of filler characters
static void embed(Set &s, const std::vector<uint32_t> &al, unsigned len, const std::vector<uint32_t> &fill, unsigned maxpad)
{
	for (uint64_t i = 1; i < vh::nstrings(al.size(), len); i++) for (auto f : fill) for (unsigned pre = 0; pre <= maxpad; pre++) for (unsigned post = 0; post <= maxpad; post++) {
		if (!pre && !post) continue;
		Text t(pre, f); for (int c : vh::nthstring(i, al.size())) t.push_back(al[c]); for (unsigned k = 0; k < post; k++) t.push_back(f);
		s.in.push_back(t); std::string x; if (s.utf) x = utf8(t); else for (auto c : t) x += (char)c; s.by.push_back(x);
	}
}
static void setup()
{
	bool th = vh::thorough;
	std::vector<P> A = {ch('a'), ch('b'), any(), atom("[ab]", {{'a', 'b'}}), atom("[^a]", {{'a', 'a'}}, true), atom("[A-z]", {{'A', 'z'}}), atom("[^#0-#0x7e]", {{0, 0x7e}}, true)};
	std::vector<P> E;
	auto s3 = quant({A[0], A[1], A[4]}, RMQ(QSMALL)), t3 = quant({A[0], A[1], A[3]}, RMQ(QTINY));
	for (auto &x : quant(A, RMQ(QALL))) E.push_back(x);
	for (auto &x : s3) for (auto &y : s3) { E.push_back(cat(x, y)); E.push_back(alt(x, y)); }
	for (auto &x : t3) for (auto &y : t3) for (auto &z : t3) { E.push_back(cat(cat(x, y), z)); E.push_back(alt(cat(x, y), z)); E.push_back(cat(alt(x, y), z)); }
	for (auto &x : t3) for (auto &y : t3) for (auto &z : QALL) if (*z.s) { E.push_back(q(cat(x, y), z)); E.push_back(q(alt(x, y), z)); }
	std::vector<P> lit;   // longer literals and combinations longer than the prefilter window
	for (uint64_t i = 1; i < vh::nstrings(3, 5); i++) { auto d = vh::nthstring(i, 3); P e = ch("abc"[d[0]]); for (size_t k = 1; k < d.size(); k++) e = cat(e, ch("abc"[d[k]])); lit.push_back(e); }
	for (size_t i = 0; i < lit.size(); i++) { E.push_back(lit[i]); if (i < 39) for (size_t j = 0; j < 39; j++) E.push_back(alt(lit[i], lit[j])); }
	for (size_t i = 0; i < 39; i++) for (auto &x : t3) { E.push_back(cat(lit[i], x)); E.push_back(cat(x, lit[i])); }
	Set s; s.e = E; s.utf = true; s.fill = 0;
	inputs(s, {'a', 'b', 'c'}, 0, th ? 7 : 5);
	inputs(s, {'a', 'b', '`', 'A', 1, 0}, 0, th ? 4 : 3);
	embed(s, {'a', 'b', 'c'}, 3, {'x', '`', 'A'}, 3);
	sets.push_back(s);
	Set f = s; f.fill = 0xff; f.e.resize(600); sets.push_back(f);
	// multi-byte characters in pattern and text
	Set u; u.utf = true; u.fill = 0;
	std::vector<P> U = {ch('a'), uch(0xe9), uch(0x4e2d), uch(0x1f600), atom("[" + u8c(0xe0) + "-" + u8c(0xff) + "]", {{0xe0, 0xff}}), atom("[^" + u8c(0xe9) + "]", {{0xe9, 0xe9}}, true), any(), uch(0xe1), uch(0x161), atom("[a" + u8c(0x4e2d) + "]", {{'a', 'a'}, {0x4e2d, 0x4e2d}}), atom("[#x4e00-#x4e1f]", {{0x4e00, 0x4e1f}}), atom("[#x4e00-#x9fff]", {{0x4e00, 0x9fff}})};
	for (auto &x : quant(U, RMQ(QSMALL))) u.e.push_back(x);
	for (auto &x : U) for (auto &y : U) { u.e.push_back(cat(x, y)); u.e.push_back(alt(x, y)); for (auto &z : U) { u.e.push_back(cat(cat(x, y), z)); if (th) { u.e.push_back(alt(cat(x, y), z)); u.e.push_back(cat(cat(cat(x, y), z), y)); } } }
	inputs(u, {'a', 0xe9, 0x4e2d, 0x1f600, 0x161}, 0, th ? 5 : 4);
	embed(u, {'a', 0xe9, 0x4e2d, 0x1f600, 0xe1}, 2, {'x', 0xe9, 0x1f600, 0x4e0d}, 3);
	sets.push_back(u);
	Set y; y.utf = false; y.fill = 0;
	std::vector<P> B = {ch('a'), atom("[#xe9]", {{0xe9, 0xe9}}), atom("[#x80-#xff]", {{0x80, 0xff}}), atom("[^#x80]", {{0x80, 0x80}}, true), any(), atom("[#x7f-#x80]", {{0x7f, 0x80}}), atom("[#xff]", {{0xff, 0xff}}), atom("[#0]", {{0, 0}}), atom("[#x80]", {{0x80, 0x80}})};
	for (auto &x : quant(B, RMQ(QSMALL))) y.e.push_back(x);
	for (auto &a : B) for (auto &b : B) { y.e.push_back(cat(a, b)); y.e.push_back(alt(a, b)); for (auto &c : B) { y.e.push_back(cat(cat(a, b), c)); y.e.push_back(cat(cat(cat(a, b), c), a)); } }
	inputs(y, {'a', 0xe9, 0x80, 0x7f, 0xff, 0}, 0, th ? 5 : 4);
	embed(y, {'a', 0xe9, 0xff}, 3, {'x', 0x80, 0xff}, 3);
	sets.push_back(y);
	static std::vector<Large> LA = larges(th);
	vh::families.push_back({"large", LA.size(), [](uint64_t i) { Set s; s.utf = true; s.fill = 0; s.e.push_back(LA[i].e()); for (auto &t : LA[i].in(s.e[0])) { if (t.size() > 140) continue; for (int k = 0; k < 2; k++) { s.in.push_back(k ? join(txt("xb"), t) : t); s.by.push_back(utf8(s.in.back())); } } check(s, 0); }, [](uint64_t i) { return LA[i].name + " " + LA[i].e()->s; }, 2});
	// ranges of every width around the sizes of the prefilter's character field
	struct RW { uint32_t lo, w; int form; };
	static std::vector<RW> rw;
	{ std::vector<uint32_t> ws; for (uint32_t w = 0; w < (th ? 140 : 70); w++) ws.push_back(w); for (uint32_t w : {95, 96, 126, 127, 128, 129, 255, 256}) ws.push_back(w);
	  for (uint32_t lo : {0x21u, 0x40u, 0x61u, 0xe9u, 0x7c0u}) for (uint32_t w : ws) for (int form = 0; form < 4; form++) rw.push_back({lo, w, form}); }
	vh::families.push_back({"range-widths", rw.size(), [](uint64_t i) {
		const RW &r = rw[i]; uint32_t hi = r.lo + r.w; Set s; s.utf = true; s.fill = 0;
		auto c = atom(vh::fmt("[#x%x-#x%x]", r.lo, hi), {{r.lo, hi}}), n = atom(vh::fmt("[^#x%x-#x%x]", r.lo, hi), {{r.lo, hi}}, true);
		s.e.push_back(r.form == 0 ? c : r.form == 1 ? cat(ch('!'), c) : r.form == 2 ? cat(cat(c, c), ch('~')) : cat(n, c));
		for (uint32_t x = r.lo - 1; x <= hi + 1; x++) for (const Text &t : {Text{x}, Text{' ', x, 0x7e}, Text{'!', x, ' '}, Text{hi, x, '~', ' ', ' '}, Text{' ', ' ', ' ', ' ', x, hi, 0x7e}}) { s.in.push_back(t); s.by.push_back(utf8(t)); }
		check(s, 0);
	  }, [](uint64_t i) { return vh::fmt("the range 0x%x-0x%x, form %d", rw[i].lo, rw[i].lo + rw[i].w, rw[i].form); }, 4});
	const char *nm[] = {"ascii", "ascii-fill", "utf8", "byte"};
	for (size_t k = 0; k < sets.size(); k++) vh::families.push_back({nm[k], sets[k].e.size(), [k](uint64_t i) { check(sets[k], i); }, [k](uint64_t i) { return sets[k].e[i]->s; }, 8});
}
int main(int c, char **v) { return vh::main(c, v, setup); }
