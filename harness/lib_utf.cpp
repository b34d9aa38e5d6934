// L04: every code point through both encodings, and every byte sequence over class representatives through both decoders, at the end of a heap block.
#include "vh.hpp"
extern "C" {
#include "rlib/rutf.h"
}
typedef uint32_t W;
static std::string enc8(W c)
{
	std::string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 + (c >> 6)); s += (char)(0x80 + (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 + (c >> 12)); s += (char)(0x80 + (c >> 6 & 63)); s += (char)(0x80 + (c & 63)); }
	else { s += (char)(0xF0 + (c >> 18)); s += (char)(0x80 + (c >> 12 & 63)); s += (char)(0x80 + (c >> 6 & 63)); s += (char)(0x80 + (c & 63)); }
	return s;
}
static std::string enc16(W c)
{
	std::string s;
	auto u = [&](unsigned v) { s += (char)(v & 255); s += (char)(v >> 8); };
	if (c < 0x10000) u(c); else { c -= 0x10000; u(0xD800 + (c >> 10)); u(0xDC00 + (c & 0x3FF)); }
	return s;
}
static bool surr(W c) { return c >= 0xD800 && c < 0xE000; }
struct Buf { unsigned char *p; size_t n; Buf(const std::string &s) : n(s.size()) { p = new unsigned char[n]; memcpy(p, s.data(), n); } ~Buf() { delete[] p; } };
static std::string showcp(uint64_t i) { char b[64]; snprintf(b, sizeof b, "code points U+%04lX..", (unsigned long)i * 64); return b; }
static void runcp(uint64_t i)
{
	for (W c = i * 64; c < i * 64 + 64; c++) {
		bool ok = c <= 0x10FFFF;
		for (int e = 0; e < 2; e++) {
			std::string want = ok ? e ? enc16(c) : enc8(c) : "";
			for (unsigned size = 0; size <= 6; size++) {
				unsigned char *o = new unsigned char[size]; memset(o, 0x5A, size);
				int r = e ? r_utf16_wctomb(c, o, size) : r_utf8_wctomb(c, o, size);
				if (!surr(c)) {
					bool fits = ok && size >= want.size();
					if (r != (fits ? (int)want.size() : 0)) vh::fail("U+%04X into %u bytes of UTF-%d: %d bytes", c, size, e ? 16 : 8, r);
					if (fits && memcmp(o, want.data(), r)) vh::fail("U+%04X: wrong UTF-%d bytes", c, e ? 16 : 8);
					for (unsigned k = fits ? r : 0; k < size; k++) if (o[k] != 0x5A) vh::fail("U+%04X into %u bytes of UTF-%d: byte %u touched", c, size, e ? 16 : 8, k);
				}
				delete[] o;
			}
			if (!ok || surr(c)) continue;
			for (int tail = 0; tail < 4; tail++) {
				static const char *tails[] = {"", "A", "\x80\x80\x80", "\xff\xff"};
				Buf b(want + tails[tail]); W w = 0x12345678;
				int r = e ? r_utf16_mbtowc(&w, b.p, b.p + b.n) : r_utf8_mbtowc(&w, b.p, b.p + b.n);
				if (r != (int)want.size() || w != c) vh::fail("UTF-%d bytes of U+%04X decode to U+%04X, %d bytes", e ? 16 : 8, c, w, r);
			}
		}
		vh::distinct(c + 1);
	}
	vh::eval(64 * 22); vh::steps(64);
}
static std::vector<unsigned> r8, r16;
static int n8 = 4, n16 = 3;
static std::string text(uint64_t i, int e) { std::string s; if (e == 0) { for (int c : vh::nthstring(i, r8.size())) s += (char)r8[c]; } else { bool odd = i & 1; for (int c : vh::nthstring(i >> 1, r16.size())) { s += (char)(r16[c] & 255); s += (char)(r16[c] >> 8); } if (odd) s += 'q'; } return s; }
static std::string show8(uint64_t i) { return "UTF-8 bytes '" + text(i, 0) + "'"; }
static std::string show16(uint64_t i) { return "UTF-16 bytes '" + text(i, 1) + "'"; }
// reference decoder: one character and its length; known=false for overlong forms and encoded surrogates, where only progress and bounds are required
static int dec8(const std::string &s, size_t at, W &w, bool &known)
{
	unsigned c = (unsigned char)s[at]; known = true; w = c;
	int n = c < 0x80 ? 1 : c >= 0xC0 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF8 ? 4 : 1;
	if (c == 0xC0 || c == 0xC1 || c >= 0xF5) { if (c < 0xF8 && c >= 0xC0) { } return 1; }
	if (n == 1) return 1;
	if (at + n > s.size()) return 1;
	W v = c & (0x7F >> n);
	for (int k = 1; k < n; k++) { unsigned t = (unsigned char)s[at + k]; if ((t & 0xC0) != 0x80) return 1; v = v << 6 | (t & 63); }
	w = v;
	if ((n == 3 && v < 0x800) || (n == 4 && (v < 0x10000)) || surr(v)) known = false;
	else if (v > 0x10FFFF) { w = c; return 1; }   // no character: malformed
	return n;
}
static int dec16(const std::string &s, size_t at, W &w, bool &known)
{
	known = true; w = (unsigned char)s[at];
	if (at + 2 > s.size()) return 1;
	W a = (unsigned char)s[at] | (unsigned char)s[at + 1] << 8;
	if (!surr(a)) { w = a; return 2; }
	if (a >= 0xDC00 || at + 4 > s.size()) return 1;
	W b = (unsigned char)s[at + 2] | (unsigned char)s[at + 3] << 8;
	if (b < 0xDC00 || b >= 0xE000) return 1;
	w = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00);
	return 4;
}
static void runt(uint64_t i, int e)
{
	std::string s = text(i, e); Buf b(s); uint64_t sig = e;
	W w = 99; int r;
	r = e ? r_utf16_mbtowc(&w, b.p + b.n, b.p + b.n) : r_utf8_mbtowc(&w, b.p + b.n, b.p + b.n);
	if (r != 0 || w != 0) vh::fail("at the end: %d bytes", r);
	// every suffix is decoded from its start to its end, with every earlier end as well
	for (size_t end = 1; end <= s.size(); end++) {
		std::string t = s.substr(0, end); Buf q(t);
		for (size_t at = 0; at < end; at++) {
			W want; bool known; int n = e ? dec16(t, at, want, known) : dec8(t, at, want, known);
			w = 0x5A5A5A5A; r = e ? r_utf16_mbtowc(&w, q.p + at, q.p + end) : r_utf8_mbtowc(&w, q.p + at, q.p + end);
			if (r < 1 || r > (int)(end - at)) vh::fail("at %zu of %zu: %d bytes are consumed", at, end, r);
			if (known && (r != n || w != want)) vh::fail("at %zu of %zu: U+%04X, %d bytes; should be U+%04X, %d", at, end, w, r, want, n);
			sig = vh::mix(sig, w * 8 + r);
		}
		vh::steps(end);
	}
	vh::eval(s.size()); vh::distinct(sig);
}
static void setup()
{
	for (unsigned c : {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xD5, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF}) r8.push_back(c);
	for (unsigned c : {0x0000, 0x0041, 0x00E9, 0x4E2D, 0x4100, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC41, 0xDFFF, 0xE000, 0xFEFF, 0xFFFF}) r16.push_back(c);
	n8 = vh::thorough ? 5 : 4; n16 = vh::thorough ? 5 : 4;
	vh::Family f; f.chunk = 128;
	f.name = "code-points"; f.count = 0x110000 / 64 + 8; f.run = runcp; f.describe = showcp; vh::families.push_back(f);
	f.name = "utf8-bytes"; f.count = vh::nstrings(r8.size(), n8); f.run = [](uint64_t i) { runt(i, 0); }; f.describe = show8; vh::families.push_back(f);
	f.name = "utf16-units"; f.count = 2 * vh::nstrings(r16.size(), n16); f.run = [](uint64_t i) { runt(i, 1); }; f.describe = show16; vh::families.push_back(f);
	f.name = "all-pairs-and-triples"; f.count = 0x10000 + (vh::thorough ? 0x1000000 : 0);
	f.run = [](uint64_t i) {
		std::string s; if (i < 0x10000) { s += (char)i; s += (char)(i >> 8); } else { i -= 0x10000; s += (char)i; s += (char)(i >> 8); s += (char)(i >> 16); }
		for (int e = 0; e < 2; e++) { Buf b(s); for (size_t at = 0; at < s.size();) { W w, want; bool known; int n = e ? dec16(s, at, want, known) : dec8(s, at, want, known); int r = e ? r_utf16_mbtowc(&w, b.p + at, b.p + b.n) : r_utf8_mbtowc(&w, b.p + at, b.p + b.n);
			if (r < 1 || r > (int)(s.size() - at) || (known && (r != n || w != want))) vh::fail("UTF-%d at %zu: U+%04X, %d bytes; should be U+%04X, %d", e ? 16 : 8, at, w, r, want, n); at += r; } }
		vh::eval(2);
	};
	f.describe = [](uint64_t i) { char b[32]; if (i < 0x10000) snprintf(b, sizeof b, "bytes %02x %02x", (unsigned)i & 255, (unsigned)i >> 8); else { i -= 0x10000; snprintf(b, sizeof b, "bytes %02x %02x %02x", (unsigned)i & 255, (unsigned)(i >> 8) & 255, (unsigned)i >> 16); } return std::string(b); };
	f.chunk = 4096; vh::families.push_back(f);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
