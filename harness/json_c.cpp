// J01: rexjson.c against an independent recursive-descent reader of RFC 8259, on every text of the stated spaces, with every
// record limit, depth limit and truncation.  Buffers are exactly as long as announced, so AddressSanitizer sees any overrun.
#include "vh.hpp"
#include "jsontexts.hpp"
#include "rexjson/rexjson.h"

typedef rexjson_record_t Rec;
static const int BIG = 400;

struct Ref {
	const std::string &s; size_t p = 0; std::vector<Rec> r; size_t depth = 0; bool ok = true;
	explicit Ref(const std::string &t) : s(t) {}
	int at(size_t q) const { return q < s.size() ? (unsigned char)s[q] : -1; }
	void ws() { while (at(p) == ' ' || at(p) == '\t' || at(p) == '\r' || at(p) == '\n') p++; }
	static bool dig(int c) { return c >= '0' && c <= '9'; }
	size_t str() const
	{
		size_t q = p + 1;
		for (;;) {
			int c = at(q);
			if (c < 0x20) return 0;
			if (c == '"') return q + 1 - p;
			if (c != '\\') { q++; continue; }
			c = at(q + 1);
			if (c == 'u') { for (int k = 2; k < 6; k++) if (at(q + k) < 0 || !isxdigit(at(q + k))) return 0; q += 6; }
			else if (c > 0 && strchr("\"\\/bfnrt", c)) q += 2;
			else return 0;
		}
	}
	size_t num(bool &isint) const
	{
		size_t q = p, e; isint = true;
		if (at(q) == '-') q++;
		if (at(q) == '0') q++; else if (dig(at(q))) while (dig(at(q))) q++; else return 0;
		e = q;
		if (at(q) == '.' && dig(at(q + 1))) { q++; while (dig(at(q))) q++; e = q; isint = false; }
		if (at(q) == 'e' || at(q) == 'E') { size_t z = q + 1; if (at(z) == '+' || at(z) == '-') z++; if (dig(at(z))) { while (dig(at(z))) z++; e = z; isint = false; } }
		return e - p;
	}
	// reads one value at p (after white space); name span given
	void value(size_t name, size_t namesize, size_t d)
	{
		depth = std::max(depth, d);
		Rec b; memset(&b, 0, sizeof b); b.rectype = REXJSON_RECORD_BEGIN; b.name = name; b.namesize = namesize;
		size_t me = r.size(); r.push_back(b); size_t start = p; rexjson_valuetype_t t; int c = at(p);
		if (c == '{' || c == '[') {
			int close = c == '{' ? '}' : ']'; t = c == '{' ? REXJSON_VALUE_OBJECT : REXJSON_VALUE_ARRAY;
			p++; ws();
			if (at(p) == close) p++;
			else for (;;) {
				size_t n = 0, ns = 0;
				if (c == '{') { if (at(p) != '"' || !(ns = str())) { ok = false; return; } n = p; p += ns; ws(); if (at(p) != ':') { ok = false; return; } p++; ws(); }
				value(n, ns, d + 1); if (!ok) return;
				ws();
				if (at(p) == close) { p++; break; }
				if (at(p) != ',') { ok = false; return; }
				p++; ws();
			}
		} else if (c == '"') { size_t n = str(); if (!n) { ok = false; return; } p += n; t = REXJSON_VALUE_STRING; }
		else if (c == '-' || dig(c)) { bool in; size_t n = num(in); if (!n) { ok = false; return; } p += n; t = in ? REXJSON_VALUE_INT : REXJSON_VALUE_NUMBER; }
		else if (s.compare(p, 4, "true") == 0) { p += 4; t = REXJSON_VALUE_TRUE; }
		else if (s.compare(p, 5, "false") == 0) { p += 5; t = REXJSON_VALUE_FALSE; }
		else if (s.compare(p, 4, "null") == 0) { p += 4; t = REXJSON_VALUE_NULL; }
		else { ok = false; return; }
		r[me].valtype = t; r[me].value = start; r[me].valuesize = p - start;
		Rec e = r[me]; e.rectype = REXJSON_RECORD_END; r.push_back(e);
	}
	bool run() { ws(); value(0, 0, 1); return ok; }
};
struct Exact { char *p; Exact(const void *q, size_t n) { p = (char *)malloc(n ? n : 1); memcpy(p, q, n); if (!n) { free(p); p = (char *)malloc(1); } } ~Exact() { free(p); } };

static uint64_t one(const std::string &s, const Ref &ref, bool ok, size_t recsize, size_t levels, bool nav)
{
	char *buf = (char *)malloc(s.size() ? s.size() : 1); memcpy(buf, s.data(), s.size());
	// stale records everywhere, as if the array had been used before
	Rec *rec = (Rec *)malloc(sizeof(Rec) * recsize + (recsize ? 0 : 1));
	for (size_t k = 0; k < recsize; k++) { memset(&rec[k], 0x41, sizeof(Rec)); rec[k].rectype = (k & 1) ? REXJSON_RECORD_END : REXJSON_RECORD_BEGIN; rec[k].valtype = REXJSON_VALUE_NULL; rec[k].name = rec[k].namesize = rec[k].value = rec[k].valuesize = 0; }
	rexjson_t ctx; memset(&ctx, 0x5A, sizeof ctx);
	ssize_t r = rexjson_parse_buffer(&ctx, rec, recsize, buf, s.size(), levels);
	bool want = ok && ref.r.size() <= recsize && ref.depth <= levels;
	if (want != (r > 0)) vh::fail("%zu records, depth %zu: returned %zd (error %d at %zu), the text is %s and needs %zu records and depth %zu", recsize, levels, r, rexjson_get_error(&ctx), rexjson_get_error_offset(&ctx), ok ? "a value" : "not a value", ref.r.size(), ref.depth);
	if (!want) {
		if (r >= 0) vh::fail("%zu records, depth %zu: returned %zd instead of a negative result", recsize, levels, r);
		int e = rexjson_get_error(&ctx);
		if (!e) vh::fail("%zu records, depth %zu: failure without an error code", recsize, levels);
		if (rexjson_get_error_offset(&ctx) > s.size()) vh::fail("error offset %zu is outside of the text", rexjson_get_error_offset(&ctx));
	} else {
		if ((size_t)r != ref.r[0].valuesize) vh::fail("%zu records, depth %zu: returned %zd, the value has %zu bytes", recsize, levels, r, ref.r[0].valuesize);
		for (size_t k = 0; k < ref.r.size(); k++) {
			const Rec &a = rec[k], &b = ref.r[k];
			if (a.rectype != b.rectype || a.valtype != b.valtype || a.value != b.value || a.valuesize != b.valuesize || a.namesize != b.namesize || (b.namesize && a.name != b.name))
				vh::fail("record %zu is type %d kind %d name %zu+%zu value %zu+%zu; should be type %d kind %d name %zu+%zu value %zu+%zu", k, a.rectype, a.valtype, a.name, a.namesize, a.value, a.valuesize, b.rectype, b.valtype, b.name, b.namesize, b.value, b.valuesize);
		}
		if (ref.r.size() < recsize && rec[ref.r.size()].rectype != REXJSON_RECORD_NONE) vh::fail("%zu records for %zu: a stale record follows the last one", recsize, ref.r.size());
		if (nav) {
			// explicit tree of the records
			std::vector<ssize_t> endof(ref.r.size(), -1), stack; size_t n = ref.r.size();
			for (size_t k = 0; k < n; k++) if (ref.r[k].rectype == REXJSON_RECORD_BEGIN) stack.push_back(k); else { endof[stack.back()] = k; stack.pop_back(); }
			for (ssize_t k = -2; k < (ssize_t)n + 2; k++) {
				ssize_t fc = -1, nx = -1;
				if (k >= 0 && k < (ssize_t)n && ref.r[k].rectype == REXJSON_RECORD_BEGIN) {
					if (k + 1 < endof[k]) fc = k + 1;
					if (endof[k] + 1 < (ssize_t)n && ref.r[endof[k] + 1].rectype == REXJSON_RECORD_BEGIN) nx = endof[k] + 1;
				} else if (k >= (ssize_t)recsize) {}
				else if (k >= (ssize_t)n + 1) continue;
				ssize_t a = rexjson_recordtree_firstchild(rec, recsize, k), b = rexjson_recordtree_next(rec, recsize, k);
				if (a != fc || b != nx) vh::fail("record %zd: first child %zd, next %zd; should be %zd, %zd", k, a, b, fc, nx);
			}
		}
	}
	uint64_t sig = vh::mix(r, rexjson_get_error(&ctx));
	free(buf); free(rec);
	return sig;
}
static void text(const std::string &s, bool trunc)
{
	Ref ref(s); bool ok = ref.run();
	uint64_t sig = one(s, ref, ok, BIG, 50, true);
	if (ok) {
		size_t n = ref.r.size();
		for (size_t k = 0; k < n + 3; k++) one(s, ref, ok, k, 50, true);
		for (size_t d = 0; d < ref.depth + 2; d++) one(s, ref, ok, BIG, d, false);
		vh::eval(n + 3 + ref.depth + 2);
	}
	if (trunc) for (size_t k = 0; k < s.size(); k++) { std::string t = s.substr(0, k); Ref q(t); bool o = q.run(); one(t, q, o, BIG, 50, false); vh::eval(); }
	vh::eval(); vh::steps(s.size() + 1);
	for (auto &x : ref.r) sig = vh::mix(sig, x.rectype * 64 + x.valtype * 8 + x.valuesize);
	vh::distinct(sig);
}

static void setup() { addtexts(text, true); }
int main(int c, char **v) { return vh::main(c, v, setup); }
