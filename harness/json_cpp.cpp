// J02: rexjson::value, its reader and its writer, against an independent reader and an explicit value model.
#include "vh.hpp"
#include "jsontexts.hpp"
#include "jsonref.hpp"
#include <limits>
#include <stdexcept>
typedef rexjson::value V;

// JSON escapes for text handed to constructors and assignments
static std::string escaped(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) { char b[8]; if (c < 32 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; }
	return r;
}
static V build(const JV &m)
{
	switch (m.t) {
	case JV::Null: return V();
	case JV::Bool: return V(m.b);
	case JV::Int: return V((long)m.i);
	case JV::Real: return V(m.d);
	case JV::Str: return V(escaped(m.s));
	case JV::Arr: { V v = rexjson::array(); for (auto &e : m.a) v.push_back(build(e)); return v; }
	case JV::Obj: { V v = rexjson::object(); for (auto &e : m.o) v[e.first] = build(e.second); return v; }
	}
	return V();
}
static std::string show(const JV &m)
{
	char b[64];
	switch (m.t) {
	case JV::Null: return "null";
	case JV::Bool: return m.b ? "true" : "false";
	case JV::Int: return std::to_string(m.i);
	case JV::Real: snprintf(b, sizeof b, "real(%.17g)", m.d); return b;
	case JV::Str: return "'" + vh::esc(m.s) + "'";
	case JV::Arr: { std::string r = "["; for (auto &e : m.a) r += show(e) + ","; return r + "]"; }
	case JV::Obj: { std::string r = "{"; for (auto &e : m.o) r += vh::esc(e.first) + ":" + show(e.second) + ","; return r + "}"; }
	}
	return "";
}
static JV strip(const JV &m)
{
	JV r = m;
	for (auto &e : r.a) e = strip(e);
	for (auto it = r.o.begin(); it != r.o.end();) { if (it->second.t == JV::Null) it = r.o.erase(it); else { it->second = strip(it->second); ++it; } }
	return r;
}
static double maxabs(const JV &m) { double r = m.t == JV::Real && std::isfinite(m.d) ? fabs(m.d) : 0; for (auto &e : m.a) r = std::max(r, maxabs(e)); for (auto &e : m.o) r = std::max(r, maxabs(e.second)); return r; }
static uint64_t writes(const JV &m, const V &v, bool all)
{
	uint64_t sig = 0;
	static const int precs[] = {4, 0, 1, 17}, tabs[] = {4, 0, 1, 9};
	for (int pretty = 0; pretty < 2; pretty++) for (int np = 0; np < 2; np++) for (int q = 0; q < (all ? 4 : 1); q++) {
		std::string t = v.write(pretty, np, tabs[q], precs[q]);
		double tol = 0.5000001 * pow(10, -precs[q]) + maxabs(m) * 1e-15;
		JReader r(t); JV b = r.whole();
		if (!r.ok) vh::fail("written (formatted %d, nulls %d, precision %d) as a text that is not JSON: %s", pretty, np, precs[q], vh::esc(t).substr(0, 300).c_str());
		JV want = np ? m : strip(m);
		std::string e = differ(want, b, tol);
		if (!e.empty()) vh::fail("written (formatted %d, nulls %d, precision %d) as %s: %s", pretty, np, precs[q], vh::esc(t).substr(0, 300).c_str(), e.c_str());
		if (!precs[q] && maxabs(m) > 9e18) continue;   // without a fraction these are integers beyond 64 bits
		V w; try { w.read(t, 1000); } catch (std::exception &x) { vh::fail("written as %s, which is refused: %s", vh::esc(t).substr(0, 300).c_str(), x.what()); }
		e = differ(want, w, tol, true);
		if (!e.empty()) vh::fail("written as %s, which reads back differently: %s", vh::esc(t).substr(0, 300).c_str(), e.c_str());
		std::ostringstream os; rexjson::output(pretty, np, tabs[q], precs[q]).write(v, os); if (os.str() != t) vh::fail("the two writers differ");
		if (!pretty && t.find('\n') != std::string::npos) vh::fail("compact text has line breaks");
		sig = vh::mix(sig, vh::hstr(t)); vh::eval();
	}
	return sig;
}
static void text(const std::string &s, bool trunc)
{
	JReader r(s); JV m = r.run();
	int nx = r.ok ? r.at(r.p) : -1;
	bool open = r.ok && (m.t == JV::Int || m.t == JV::Real) && (nx == '.' || nx == 'e' || nx == 'E');   // "1.", "1e+": not specified at top level
	V v("old"); bool thrown = false; std::string why;
	try { v.read(s, 50); } catch (std::runtime_error &e) { thrown = true; why = e.what(); if (why.empty()) vh::fail("refused without a message"); }
	if (!open && thrown != !(r.ok && r.depth <= 50)) vh::fail("%s: the text is %s", thrown ? ("refused: " + why).c_str() : "accepted", r.ok ? "a value" : "not a value");
	uint64_t sig = thrown;
	V n; bool nt = rexjson::read_no_throw(n, s, 50); if (nt == thrown) vh::fail("read_no_throw and read disagree");
	if (!thrown) {
		std::string e = differ(m, v, 0, false); if (!e.empty()) vh::fail("read as something else: %s", e.c_str());
		e = differ(m, n, 0, false); if (!e.empty()) vh::fail("read_no_throw: %s", e.c_str());
		bool loose = false; std::function<void(const JV &)> f = [&](const JV &x) { loose |= x.loose; for (auto &y : x.a) f(y); for (auto &y : x.o) f(y.second); }; f(m);
		if (!loose) sig = writes(m, v, false);
		for (size_t d = 0; d < r.depth + 2; d++) { V w; bool th = false; try { w.read(s.data(), s.size(), d); } catch (std::runtime_error &) { th = true; } if (th != (d < r.depth)) vh::fail("with %zu levels: %s, the text needs %zu", d, th ? "refused" : "accepted", r.depth); }
		vh::eval(r.depth + 2);
	}
	if (trunc) for (size_t k = 0; k < s.size(); k++) text(s.substr(0, k), false);
	vh::eval(); vh::steps(s.size() + 1); vh::distinct(sig);
}

// ---------------------------------------------------------------- values
static std::vector<JV> leaves; static std::vector<std::vector<JV>> vt;
static const std::vector<std::string> names = {"", "a", "q\"\\/", "\n\x01", "\xc3\xa9", "b"};
static void gen(int n)
{
	for (int64_t i : {(int64_t)0, (int64_t)-7, INT64_MAX, INT64_MIN}) leaves.push_back(JV::I(i));
	for (double d : {0.5, -1e22, 1.0 / 3}) leaves.push_back(JV::D(d));
	for (auto s : {std::string(""), std::string("\"\\/\b\f\n\r\t"), std::string("\0x", 2), std::string("\x7f\x80\xff\x1f"), std::string("\xf0\x9f\x98\x80\\u0041")}) leaves.push_back(JV::S(s));
	leaves.push_back(JV()); leaves.push_back(JV::B(true)); leaves.push_back(JV::B(false)); leaves.push_back(JV::D(INFINITY)); leaves.push_back(JV::D(NAN)); leaves.push_back(JV::D(-INFINITY));
	vt.resize(n + 1);
	for (int k = 1; k <= n; k++) {
		std::vector<JV> t; if (k == 1) t = leaves;
		std::function<void(int, JV, JV)> rec = [&](int left, JV a, JV o) {
			if (!left) { t.push_back(a); if (o.o.size() == a.a.size()) t.push_back(o); return; }
			for (int m = 1; m <= left; m++) {
				size_t step = k <= 3 ? 1 : m == 1 ? 5 : 1 + vt[m].size() / 40;
				for (size_t q = (k + left) % step; q < vt[m].size(); q += step) { JV a2 = a, o2 = o; a2.a.push_back(vt[m][q]); o2.o[names[(o.o.size() * 2 + left + q) % names.size()]] = vt[m][q]; rec(left - m, a2, o2); }
			}
		};
		rec(k - 1, JV::mk(JV::Arr), JV::mk(JV::Obj));
		vt[k] = t;
	}
}
static std::vector<JV> allv;
static void runvalue(uint64_t i)
{
	const JV &m = allv[i]; V v = build(m);
	std::string e = differ(m, v, 0, false); if (!e.empty()) vh::fail("built as something else: %s", e.c_str());
	uint64_t sig = writes(m, v, true);
	// access with the wrong type is refused
	for (int g = 0; g < 6; g++) {
		bool th = false;
		try { const V &c = v; switch (g) { case 0: c.get_obj(); break; case 1: c.get_array(); break; case 2: c.get_str(); break; case 3: c.get_bool(); break; case 4: c.get_int64(); break; case 5: c.get_real(); break; } } catch (std::runtime_error &) { th = true; }
		static const int ok[] = {1 << JV::Obj, 1 << JV::Arr, 1 << JV::Str, 1 << JV::Bool, 1 << JV::Int, 1 << JV::Int | 1 << JV::Real};
		if (th == !!(ok[g] >> m.t & 1)) vh::fail("accessor %d %s", g, th ? "refuses the value" : "accepts the value");
	}
	vh::steps(20); vh::distinct(sig);
}
// ---------------------------------------------------------------- reals, integers, strings
static std::vector<double> reals;
static void genreals()
{
	for (double b : {0.0, 1.0, 0.5, 0.1, 2.5, 0.00005, 0.00015, 1e-5, 9.99995, 123456.789, 1e15, 9007199254740993.0, 1e21, 1e100, std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(), 4294967296.5, 2147483648.0, 0.3, 1e16, 999999.99995})
		for (double x : {b, nextafter(b, INFINITY), nextafter(b, -INFINITY)}) { reals.push_back(x); reals.push_back(-x); }
	reals.push_back(INFINITY); reals.push_back(-INFINITY); reals.push_back(NAN); reals.push_back(-NAN);
}
static void runreal(uint64_t i)
{
	vh::Idx x(i); int prec = x.take(21); int how = x.take(3); double d = reals[x.v];
	V v = how == 2 ? V() : V(d); if (how == 2) v = d; if (how == 1) { V a = rexjson::array(); a.push_back(1); a.push_back(d); v = a; }
	std::string t = v.write(false, true, 4, prec);
	JV m = JV::D(d); if (how == 1) { JV a = JV::mk(JV::Arr); a.a = {JV::I(1), m}; m = a; }
	double tol = 0.5000001 * pow(10, -prec) + (std::isfinite(d) ? fabs(d) : 0) * 1e-15;
	JReader r(t); JV b = r.whole(); if (!r.ok) vh::fail("written as %s", t.c_str());
	std::string e = differ(m, b, tol); if (!e.empty()) vh::fail("written as %s: %s", t.substr(0, 400).c_str(), e.c_str());
	if (v.write(false, true, 4, prec) != t) vh::fail("written differently the second time");
	vh::eval(); vh::steps(1); vh::distinct(vh::hstr(t));
}
static const int64_t ints[] = {0, 1, -1, 2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, 255, 65536, 4000000000LL};
static void runint(uint64_t i)
{
	vh::Idx x(i); int how = x.take(9); int64_t n = ints[x.v]; V v; int64_t want = n;
	switch (how) {
	case 0: v = V((int)n); want = (int)n; break;
	case 1: v = V((unsigned)n); want = (unsigned)n; break;
	case 2: v = V((long)n); break;
	case 3: if (n < 0) return; v = V((unsigned long)n); break;
	case 4: v = V((long long)n); break;
	case 5: if (n < 0) return; v = V((unsigned long long)n); break;
	case 6: v = (int)n; want = (int)n; break;
	case 7: v = n; break;
	case 8: v.set_int(n); break;
	}
	if (v.get_type() != rexjson::int_type || v.get_int64() != want) vh::fail("holds %lld instead of %lld", (long long)v.get_int64(), (long long)want);
	if (v.get_int() != (int)want || v.get_real() != (double)want) vh::fail("other accessors differ");
	if (v.get_value<int64_t>() != want || (int64_t)v != want) vh::fail("conversions differ");
	if (v.write() != std::to_string(want)) vh::fail("written as %s", v.write().c_str());
	vh::eval(); vh::steps(1); vh::distinct(vh::mix(how, want));
}
static std::string memstr(uint64_t i)
{
	static const std::string pal = std::string("\"\\/bu0a\n\x1f\x80") + '\0';
	if (i < 256) return std::string(1, (char)i);
	i -= 256; if (i < 65536) return std::string(1, (char)i) + (char)(i >> 8);
	return vh::nthtext(i - 65536, pal);
}
static void runstr(uint64_t i)
{
	vh::Idx x(i); int how = x.take(4); std::string s = memstr(x.v); JV m; V v;
	switch (how) {
	case 0: m = JV::S(s); v = V(escaped(s)); break;
	case 1: m = JV::mk(JV::Obj); m.o[s] = JV::I(1); v = rexjson::object(); v[s] = 1; break;
	case 2: m = JV::S(s); v = escaped(s).c_str(); break;
	case 3: m = JV::S(s); v.set_str(escaped(s)); break;
	}
	std::string e = differ(m, v, 0, false); if (!e.empty()) vh::fail("stored as %s", e.c_str());
	vh::distinct(writes(m, v, false)); vh::steps(1);
}
static void runu(uint64_t i)
{
	vh::Idx x(i); bool name = x.take(2), upper = x.take(2); char b[40];
	uint64_t n = x.v; if (n < 65536) snprintf(b, sizeof b, upper ? "\\u%04X" : "\\u%04x", (unsigned)n);
	else { n -= 65536; unsigned lead, trail; if (n < 1024 * 8) { static const unsigned t[] = {0xDC00, 0xDFFF, 0xDC01, 0xDD55, 0xDE00, 0xDCFF, 0xDD00, 0xDFC0}; lead = 0xD800 + n / 8; trail = t[n % 8]; } else { n -= 1024 * 8; static const unsigned t[] = {0xD800, 0xDBFF, 0xD83D, 0xD83C, 0xD801, 0xDA00, 0xD8FF, 0xDB40}; lead = t[n % 8]; trail = 0xDC00 + n / 8; } snprintf(b, sizeof b, upper ? "\\u%04X\\u%04X" : "\\u%04x\\u%04x", lead, trail); }
	std::string t = name ? std::string("{\"<") + b + ">\":[]}" : std::string("\"<") + b + ">\"";
	text(t, false);
}
// ---------------------------------------------------------------- histories
static const char *hop[] = {"A=B", "B=A", "A=A[a]", "A[a]=A", "A[x]=B", "A.push(A)", "A.push(A[0])", "A=A[0]", "A[0]=A", "B=5", "A=A.text", "A=A", "move B into A", "A={}", "A=[]", "B='t'", "bad read A", "A=its own container", "copy C, change C", "A[0]=B", "erase a", "A.read", "B.read", "A=A[a][0]", "A.push()", "B=1.5", "A=null"};
static const int NH = sizeof hop / sizeof *hop; static int hdepth;
static std::string showh(uint64_t i) { vh::Idx x(i); int st = x.take(3); std::string s = std::string("start ") + "012"[st] + ":"; std::vector<int> o(hdepth); for (int k = hdepth; k--;) o[k] = x.take(NH); for (int q : o) s += std::string(" ") + hop[q] + ";"; return s; }
static void runh(uint64_t i)
{
	vh::Idx x(i); int st = x.take(3); std::vector<int> ops(hdepth); for (int k = hdepth; k--;) ops[k] = x.take(NH);
	V A, B; JV a, b; uint64_t sig = st;
	auto rd = [](V &v, JV &m, const char *t) { v.read(t); std::string s(t); JReader r(s); m = r.run(); };
	static const char *ta = "{\"a\":[{\"b\":\"deep\"},2],\"n\":null,\"s\":\"text\"}", *tb = "[\"one\",[2,{\"a\":[]}],true]";
	if (st >= 1) rd(A, a, ta); if (st == 2) rd(B, b, tb);
	for (int o : ops) {
		bool th = false, wth = false;
		JV *aa = a.t == JV::Obj && a.o.count("a") ? &a.o["a"] : nullptr;
		JV *a0 = a.t == JV::Arr && !a.a.empty() ? &a.a[0] : nullptr;
		try {
			switch (o) {
			case 0: A = B; a = b; break;
			case 1: B = A; b = a; break;
			case 2: wth = a.t != JV::Obj; if (!wth) { JV t = aa ? *aa : JV(); a = t; } A = A["a"]; break;
			case 3: wth = a.t != JV::Obj; if (!wth) { if (!aa) a.o["a"] = JV(); JV t = a; a.o["a"] = t; } { V &r = A["a"]; r = A; } break;
			case 4: wth = a.t != JV::Obj; if (!wth) a.o["x"] = b; A["x"] = B; break;
			case 5: wth = a.t != JV::Arr; if (!wth) { JV t = a; a.a.push_back(t); } A.push_back(A); break;
			case 6: wth = !a0; if (!wth) { JV t = *a0; a.a.push_back(t); } A.push_back(A[0]); break;
			case 7: wth = !a0; if (!wth) { JV t = *a0; a = t; } A = A[0]; break;
			case 8: wth = !a0; if (!wth) { JV t = a; a.a[0] = t; } { V &r = A[0]; r = A; } break;
			case 9: B = 5; b = JV::I(5); break;
			case 10: wth = a.t != JV::Str; A = A.get_str().c_str(); break;
			case 11: { V &r = A; A = r; } break;
			case 12: { V t; t.move(B); if (!B.is_null()) vh::fail("moving leaves something behind"); A = t; a = b; b = JV(); } break;
			case 13: A = rexjson::object(); a = JV::mk(JV::Obj); break;
			case 14: A = rexjson::array(); a = JV::mk(JV::Arr); break;
			case 15: B = std::string("t"); b = JV::S("t"); break;
			case 16: wth = true; try { A.read("[1,{\"a\":2},"); } catch (...) { A = V(); a = JV(); throw; } break;
			case 17: if (a.t == JV::Obj) A = A.get_obj(); else if (a.t == JV::Arr) A = A.get_array(); else if (a.t == JV::Str) A.set_str(A.get_str()); break;
			case 18: { V C(A); std::string e = differ(a, C, 0, false); if (!e.empty()) vh::fail("the copy differs: %s", e.c_str()); if (C.get_type() == rexjson::obj_type) { C["new"] = 1; C["a"] = "changed"; } else if (C.get_type() == rexjson::array_type) { C.push_back(9); C[0] = "changed"; } C = V(); } break;
			case 19: wth = !a0; if (!wth) *a0 = b; A[0] = B; break;
			case 20: wth = a.t != JV::Obj; if (!wth) a.o.erase("a"); A.get_obj().erase("a"); break;
			case 21: rd(A, a, ta); break;
			case 22: rd(B, b, tb); break;
			case 23: wth = a.t != JV::Obj || !aa || aa->t != JV::Arr || aa->a.empty(); if (a.t == JV::Obj && !aa) a.o["a"] = JV(); if (!wth) { JV t = aa->a[0]; a = t; } A = A["a"][0]; break;
			case 24: wth = a.t != JV::Arr; if (!wth) a.a.push_back(JV()); A.push_back(); break;
			case 25: B = 1.5; b = JV::D(1.5); break;
			case 26: A = V::null; a = JV(); break;
			}
		} catch (std::runtime_error &) { th = true; }
		if (th != wth) vh::fail("%s: %s", hop[o], th ? "throws" : "does not throw");
		std::string e = differ(a, A, 0, false); if (!e.empty()) vh::fail("after %s: A %s", hop[o], e.c_str());
		e = differ(b, B, 0, false); if (!e.empty()) vh::fail("after %s: B %s", hop[o], e.c_str());
		if (!V::null.is_null()) vh::fail("the shared null value was changed");
		sig = vh::mix(sig, vh::hstr(A.write()) * 3 + vh::hstr(B.write()));
	}
	vh::eval(ops.size()); vh::steps(ops.size()); vh::distinct(sig);
}
static void setup()
{
	hdepth = vh::thorough ? 5 : 3;
	addtexts(text, false);
	gen(vh::thorough ? 6 : 5); for (auto &v : vt) for (auto &m : v) allv.push_back(m);
	genreals();
	vh::Family f; f.chunk = 64;
	f.name = "values"; f.count = allv.size(); f.run = runvalue; f.describe = [](uint64_t i) { return show(allv[i]); }; vh::families.push_back(f);
	f.name = "reals"; f.count = reals.size() * 63; f.run = runreal; f.describe = [](uint64_t i) { vh::Idx x(i); int p = x.take(21), h = x.take(3); char b[80]; snprintf(b, sizeof b, "%.17g with precision %d, form %d", reals[x.v], p, h); return std::string(b); }; vh::families.push_back(f);
	f.name = "integers"; f.count = 9 * (sizeof ints / sizeof *ints); f.run = runint; f.describe = [](uint64_t i) { vh::Idx x(i); int h = x.take(9); return "integer " + std::to_string(ints[x.v]) + " through form " + std::to_string(h); }; vh::families.push_back(f);
	f.name = "strings"; f.count = 4 * (256 + 65536 + vh::nstrings(11, vh::thorough ? 5 : 4)); f.run = runstr; f.describe = [](uint64_t i) { vh::Idx x(i); int h = x.take(4); return "form " + std::to_string(h) + ": '" + memstr(x.v) + "'"; }; vh::families.push_back(f);
	f.name = "unicode-escapes"; f.count = 4 * (65536 + 2 * 8192); f.run = runu; f.describe = [](uint64_t i) { vh::Idx x(i); int nm = x.take(2), up = x.take(2); char b[60]; snprintf(b, sizeof b, "escape #%llx as %s, %s digits", (unsigned long long)x.v, nm ? "name" : "value", up ? "upper" : "lower"); return std::string(b); }; vh::families.push_back(f);
	f.name = "histories"; f.count = 3 * vh::ipow(NH, hdepth); f.run = runh; f.describe = showh; vh::families.push_back(f);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
