// An independent reader of RFC 8259 with decoded values, and comparison with rexjson::value.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <cmath>
#include <cstring>
#include <cstdint>
#include "rexjson/rexjson++.h"

struct JV {
	enum T { Null, Obj, Arr, Str, Bool, Int, Real } t = Null;
	bool b = false, loose = false;      // loose: the exact contents are not specified (lone surrogates, integers beyond 64 bits)
	int64_t i = 0; double d = 0; std::string s; std::vector<JV> a; std::map<std::string, JV> o;
	static JV mk(T t) { JV v; v.t = t; return v; }
	static JV I(int64_t x) { JV v = mk(Int); v.i = x; return v; }
	static JV D(double x) { JV v = mk(Real); v.d = x; return v; }
	static JV S(const std::string &x) { JV v = mk(Str); v.s = x; return v; }
	static JV B(bool x) { JV v = mk(Bool); v.b = x; return v; }
};
inline std::string u8(unsigned long c)
{
	std::string r;
	if (c < 0x80) r += (char)c;
	else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
	else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
	return r;
}
struct JReader {
	const std::string &s; size_t p = 0, depth = 0; bool ok = true;
	explicit JReader(const std::string &t) : s(t) {}
	int at(size_t q) const { return q < s.size() ? (unsigned char)s[q] : -1; }
	void ws() { while (at(p) == ' ' || at(p) == '\t' || at(p) == '\r' || at(p) == '\n') p++; }
	static bool dig(int c) { return c >= '0' && c <= '9'; }
	static int hex(int c) { return dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
	long u4(size_t q) const { long v = 0; for (int k = 0; k < 4; k++) { int h = hex(at(q + k)); if (h < 0) return -1; v = v * 16 + h; } return v; }
	bool str(std::string &out, bool &loose)
	{
		if (at(p) != '"') return false;
		p++; out.clear();
		for (;;) {
			int c = at(p);
			if (c < 0x20) return false;
			if (c == '"') { p++; return true; }
			if (c != '\\') { out += (char)c; p++; continue; }
			c = at(p + 1);
			switch (c) {
			case '"': case '\\': case '/': out += (char)c; p += 2; break;
			case 'b': out += '\b'; p += 2; break;
			case 'f': out += '\f'; p += 2; break;
			case 'n': out += '\n'; p += 2; break;
			case 'r': out += '\r'; p += 2; break;
			case 't': out += '\t'; p += 2; break;
			case 'u': {
				long v = u4(p + 2); if (v < 0) return false;
				p += 6;
				if (v >= 0xD800 && v < 0xDC00 && at(p) == '\\' && at(p + 1) == 'u') { long w = u4(p + 2); if (w >= 0xDC00 && w < 0xE000) { p += 6; out += u8(0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00)); break; } }
				if (v >= 0xD800 && v < 0xE000) loose = true;
				out += u8(v); break; }
			default: return false;
			}
		}
	}
	JV value(size_t d)
	{
		depth = std::max(depth, d); JV v; int c = at(p);
		if (c == '{') {
			v.t = JV::Obj; p++; ws();
			if (at(p) == '}') { p++; return v; }
			for (;;) {
				std::string n; bool lo = false; if (!str(n, lo)) { ok = false; return v; }
				v.loose |= lo;
				ws(); if (at(p) != ':') { ok = false; return v; } p++; ws();
				JV e = value(d + 1); if (!ok) return v;
				v.o[n] = e; ws();
				if (at(p) == '}') { p++; return v; }
				if (at(p) != ',') { ok = false; return v; } p++; ws();
			}
		}
		if (c == '[') {
			v.t = JV::Arr; p++; ws();
			if (at(p) == ']') { p++; return v; }
			for (;;) {
				JV e = value(d + 1); if (!ok) return v;
				v.a.push_back(e); ws();
				if (at(p) == ']') { p++; return v; }
				if (at(p) != ',') { ok = false; return v; } p++; ws();
			}
		}
		if (c == '"') { v.t = JV::Str; ok = str(v.s, v.loose); return v; }
		if (c == '-' || dig(c)) {
			size_t q = p, e; bool in = true;
			if (at(q) == '-') q++;
			if (at(q) == '0') q++; else if (dig(at(q))) while (dig(at(q))) q++; else { ok = false; return v; }
			e = q;
			if (at(q) == '.' && dig(at(q + 1))) { q++; while (dig(at(q))) q++; e = q; in = false; }
			if (at(q) == 'e' || at(q) == 'E') { size_t z = q + 1; if (at(z) == '+' || at(z) == '-') z++; if (dig(at(z))) { while (dig(at(z))) z++; e = z; in = false; } }
			std::string t = s.substr(p, e - p); p = e;
			if (in) {
				v.t = JV::Int; bool neg = t[0] == '-'; __int128 x = 0;
				for (char k : t) if (k != '-') { x = x * 10 + (k - '0'); if (x > ((__int128)1 << 64)) x = (__int128)1 << 64; }
				if (neg) x = -x;
				if (x > INT64_MAX || x < INT64_MIN) v.loose = true; else v.i = (int64_t)x;
			} else { v.t = JV::Real; v.d = strtod(t.c_str(), nullptr); }
			return v;
		}
		if (s.compare(p, 4, "true") == 0) { p += 4; return JV::B(true); }
		if (s.compare(p, 5, "false") == 0) { p += 5; return JV::B(false); }
		if (s.compare(p, 4, "null") == 0) { p += 4; return v; }
		ok = false; return v;
	}
	JV run() { ws(); JV v = value(1); return v; }
	// the whole text must be one value
	JV whole() { JV v = run(); if (ok) { ws(); if (p != s.size()) ok = false; } return v; }
};
// tolerance of reals: absolute error of the written digits
inline std::string differ(const JV &m, const rexjson::value &v, double tol, bool asreal)
{
	static const rexjson::value_type ty[] = {rexjson::null_type, rexjson::obj_type, rexjson::array_type, rexjson::str_type, rexjson::bool_type, rexjson::int_type, rexjson::real_type};
	if (m.t == JV::Real && asreal && !std::isfinite(m.d)) return v.get_type() == rexjson::null_type ? "" : "a number that is not finite became " + v.get_typename();
	if (m.t == JV::Real && asreal && v.get_type() == rexjson::int_type) { double b = (double)v.get_int64(); return fabs(m.d - b) <= tol ? "" : "real " + std::to_string(m.d) + " became " + std::to_string(b); }
	if (v.get_type() != ty[m.t]) return std::string("type ") + v.get_typename() + " instead of " + rexjson::value::get_typename(ty[m.t]);
	if (m.loose && m.t != JV::Obj) return "";
	switch (m.t) {
	case JV::Null: return "";
	case JV::Bool: return v.get_bool() == m.b ? "" : "boolean differs";
	case JV::Int: return v.get_int64() == m.i ? "" : "integer " + std::to_string(v.get_int64()) + " instead of " + std::to_string(m.i);
	case JV::Real: return v.get_real() == m.d || fabs(v.get_real() - m.d) <= tol || (std::isnan(m.d) && std::isnan(v.get_real())) ? "" : "real " + std::to_string(v.get_real()) + " instead of " + std::to_string(m.d);
	case JV::Str: return v.get_str() == m.s ? "" : "text '" + v.get_str() + "' instead of '" + m.s + "'";
	case JV::Arr: {
		const rexjson::array &a = v.get_array(); if (a.size() != m.a.size()) return "array of " + std::to_string(a.size()) + " instead of " + std::to_string(m.a.size());
		for (size_t k = 0; k < a.size(); k++) { std::string e = differ(m.a[k], a[k], tol, asreal); if (!e.empty()) return "[" + std::to_string(k) + "] " + e; }
		return ""; }
	case JV::Obj: {
		const rexjson::object &o = v.get_obj(); if (m.loose) return "";
		if (o.size() != m.o.size()) return "object of " + std::to_string(o.size()) + " members instead of " + std::to_string(m.o.size());
		auto x = o.begin(); for (auto &y : m.o) { if (x->first != y.first) return "member '" + x->first + "' instead of '" + y.first + "'"; std::string e = differ(y.second, x->second, tol, asreal); if (!e.empty()) return "." + y.first + " " + e; ++x; }
		return ""; }
	}
	return "";
}
// the same comparison between two reference values
inline std::string differ(const JV &m, const JV &v, double tol)
{
	if (m.t == JV::Real && !std::isfinite(m.d)) return v.t == JV::Null ? "" : "a number that is not finite was not written as null";
	if (m.t == JV::Real && (v.t == JV::Int || v.t == JV::Real)) { if (v.loose) return ""; double b = v.t == JV::Int ? (double)v.i : v.d; return fabs(m.d - b) <= tol || m.d == b ? "" : "real " + std::to_string(m.d) + " written as " + std::to_string(b); }
	if (m.t != v.t) return "type differs";
	if (m.b != v.b || m.i != v.i || m.s != v.s) return "contents differ: '" + v.s + "' " + std::to_string(v.i) + " instead of '" + m.s + "' " + std::to_string(m.i);
	if (m.a.size() != v.a.size() || m.o.size() != v.o.size()) return "number of elements differs";
	for (size_t k = 0; k < m.a.size(); k++) { std::string e = differ(m.a[k], v.a[k], tol); if (!e.empty()) return "[" + std::to_string(k) + "] " + e; }
	auto x = v.o.begin(); for (auto &y : m.o) { if (x->first != y.first) return "member name differs"; std::string e = differ(y.second, x->second, tol); if (!e.empty()) return "." + y.first + " " + e; ++x; }
	return "";
}
