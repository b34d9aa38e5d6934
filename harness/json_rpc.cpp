// J03: rexjson::rpc_server, every request of the stated spaces, as value, as text and by name, against a model of the reply.
#include "vh.hpp"
#include <array>
#include <tuple>
#include "jsonref.hpp"
#include "rexjsonrpc/rpcserver.h"
using rexjson::value; using rexjson::rpc_exec_mode;

static int ran[16];
enum { ECHO, FAIL, FAILRPC, NEED, F2, FS, FV, FD, F0, MIX, MEM, CONSTM, THROWW, NM };
static const char *mname[] = {"echo", "fail", "failrpc", "need", "f2", "fs", "fv", "fd", "f0", "mix", "mem", "constm", "throww", "help", "spec", "helpspec"};
static int f2(int a, int b) { ran[F2]++; return a + b; }
static std::string fs(std::string s) { ran[FS]++; return "<" + s + ">"; }
static void fv(bool) { ran[FV]++; }
static double fd(double x) { ran[FD]++; return x * 2; }
static int f0() { ran[F0]++; return 7; }
static std::string mix(int a, std::string s, bool b, double d, float f) { ran[MIX]++; return std::to_string(a) + s + (b ? "T" : "F") + std::to_string((int)(d * 4)) + std::to_string((int)(f * 4)); }
static int throww(int a) { ran[THROWW]++; if (a > 0) throw std::invalid_argument("positive"); return a; }
struct Srv : rexjson::rpc_server<Srv> {
	Srv()
	{
		add("echo", &Srv::echo); add("fail", &Srv::failm); add("failrpc", &Srv::failrpc); add("need", &Srv::need);
		add("f2", rexjson::make_rpc_wrapper(f2, "adds")); add("fs", rexjson::make_rpc_wrapper(fs, "brackets")); add("fv", rexjson::make_rpc_wrapper(fv)); add("fd", rexjson::make_rpc_wrapper(fd));
		add("f0", rexjson::make_rpc_wrapper(f0)); add("mix", rexjson::make_rpc_wrapper(mix)); add("mem", rexjson::make_rpc_wrapper(this, &Srv::mem)); add("constm", rexjson::make_rpc_wrapper_const((const Srv *)this, &Srv::constm)); add("throww", rexjson::make_rpc_wrapper(throww));
	}
	value echo(rexjson::array &p, rpc_exec_mode m) { if (m != rexjson::execute) return noexec(p, m, nullptr, 0, "echo help"); ran[ECHO]++; value r = p; p.clear(); p.push_back("spoiled"); return r; }
	value failm(rexjson::array &p, rpc_exec_mode m) { if (m != rexjson::execute) return noexec(p, m, nullptr, 0, "fail help"); ran[FAIL]++; throw std::runtime_error("boom"); }
	value failrpc(rexjson::array &p, rpc_exec_mode m) { if (m != rexjson::execute) return noexec(p, m, nullptr, 0, "failrpc help"); ran[FAILRPC]++; throw create_rpc_error(rexjson::RPC_INTERNAL_ERROR, "rpc boom"); }
	value need(rexjson::array &p, rpc_exec_mode m)
	{
		static unsigned int t[] = {rexjson::rpc_str_type, rexjson::rpc_int_type | rexjson::rpc_real_type, rexjson::rpc_obj_type | rexjson::rpc_array_type | rexjson::rpc_null_type};
		if (m != rexjson::execute) return noexec(p, m, t, 3, "need help");
		verify_parameters(p, t, 3); ran[NEED]++; return p;
	}
	long base = 100;
	long mem(long x) { ran[MEM]++; return base + x; }
	bool constm(bool x) const { ran[CONSTM]++; return !x; }
};
typedef JV J;
static std::string enc(const J &m)
{
	switch (m.t) {
	case J::Null: return "null";
	case J::Bool: return m.b ? "true" : "false";
	case J::Int: return std::to_string(m.i);
	case J::Real: { char b[40]; snprintf(b, sizeof b, "%.17g", m.d); return strpbrk(b, ".e") ? b : std::string(b) + ".0"; }
	case J::Str: { std::string r = "\""; for (unsigned char c : m.s) { char b[8]; if (c < 32 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
	case J::Arr: { std::string r = "["; for (size_t k = 0; k < m.a.size(); k++) r += (k ? ", " : "") + enc(m.a[k]); return r + "]"; }
	case J::Obj: { std::string r = "{"; bool f = true; for (auto &e : m.o) { r += (f ? "" : ",") + enc(J::S(e.first)) + " : " + enc(e.second); f = false; } return r + "}"; }
	}
	return "";
}
static value val(const J &m) { value v; v.read(enc(m), 1000); return v; }
static J types(std::initializer_list<int> l) { J r = J::mk(J::Arr); for (int x : l) r.a.push_back(J::I(x)); return r; }
static J specof(int m)   // types of the parameters, one level: number or array of numbers
{
	J r = J::mk(J::Arr);
	switch (m) {
	case NEED: r.a = {J::I(3), types({5, 6}), types({1, 2, 0})}; break;
	case F2: return types({5, 5}); case FS: return types({3}); case FV: return types({4}); case FD: return types({6}); case MIX: return types({5, 3, 4, 6, 6}); case MEM: return types({5}); case CONSTM: return types({4}); case THROWW: return types({5});
	case NM: r.a = {types({3, 0})}; break;       // help
	case NM + 1: case NM + 2: return types({3});
	}
	return r;
}
static J names(J t) { static const char *n[] = {"null", "object", "array", "string", "boolean", "integer", "real"}; if (t.t == J::Arr) { for (auto &e : t.a) e = names(e); return t; } return J::S(n[t.i]); }
struct Want { bool ok = false; J result; std::vector<int> codes; std::string message; J id; int runs = -1; bool anytext = false; };
static int mode_of(const Want &) { return 0; }
static void domodel(const J &method, std::vector<J> params, int mode, Want &w)
{
	auto err = [&](std::vector<int> c, const char *m = "") { w.ok = false; w.codes = c; w.message = m; };
	auto ok = [&](const J &r) { w.ok = true; w.result = r; };
	if (method.t != J::Str) return err({-32600});
	int m = -1; for (int k = 0; k < NM + 3; k++) if (method.s == mname[k]) m = k;
	if (m < 0) return err({-32601});
	if (mode == 1) return ok(specof(m));
	if (mode == 2) return ok(names(specof(m)));
	if (mode == 3) {
		static const char *h[] = {"echo help", "fail help", "failrpc help", "need help", "adds", "brackets"};
		if (m >= NM) { w.anytext = true; return ok(J::S("")); }
		return ok(J::S(m < 6 ? h[m] : ""));
	}
	auto is = [&](size_t k, std::initializer_list<J::T> ts) { J p = k < params.size() ? params[k] : J(); for (auto t : ts) if (p.t == t) return true; return false; };
	std::vector<int> bad = {-32602, -1};
	switch (m) {
	case ECHO: { w.runs = m; J r = J::mk(J::Arr); r.a = params; return ok(r); }
	case FAIL: w.runs = m; return err({-1}, "boom");
	case FAILRPC: w.runs = m; return err({-32603}, "rpc boom");
	case NEED: { params.resize(3); if (!is(0, {J::Str}) || !is(1, {J::Int, J::Real}) || !is(2, {J::Obj, J::Arr, J::Null})) return err({-32602}); w.runs = m; J r = J::mk(J::Arr); r.a = params; return ok(r); }
	case F2: if (!is(0, {J::Int}) || !is(1, {J::Int})) return err(bad); w.runs = m; return ok(J::I(params[0].i + params[1].i));
	case FS: if (!is(0, {J::Str})) return err(bad); w.runs = m; { std::string t = params[0].s; if (t == "q\\\"") t = "q\""; return ok(J::S("<" + t + ">")); }   // a value made from a C++ string takes its escapes
	case FV: if (!is(0, {J::Bool})) return err(bad); w.runs = m; return ok(J::S(""));
	case FD: if (!is(0, {J::Int, J::Real})) return err(bad); w.runs = m; return ok(J::D(2 * (params[0].t == J::Int ? params[0].i : params[0].d)));
	case F0: w.runs = m; return ok(J::I(7));
	case MIX: {
		if (!is(0, {J::Int}) || !is(1, {J::Str}) || !is(2, {J::Bool}) || !is(3, {J::Int, J::Real}) || !is(4, {J::Int, J::Real})) return err(bad);
		auto num = [&](int k) { return params[k].t == J::Int ? (double)params[k].i : params[k].d; };
		w.runs = m; return ok(J::S(std::to_string(params[0].i) + params[1].s + (params[2].b ? "T" : "F") + std::to_string((int)(num(3) * 4)) + std::to_string((int)((float)num(4) * 4)))); }
	case MEM: if (!is(0, {J::Int})) return err(bad); w.runs = m; return ok(J::I(100 + params[0].i));
	case CONSTM: if (!is(0, {J::Bool})) return err(bad); w.runs = m; return ok(J::B(!params[0].b));
	case THROWW: if (!is(0, {J::Int})) return err(bad); w.runs = m; if (params[0].i > 0) return err({-1}, "positive"); return ok(J::I(params[0].i));
	case NM: {   // help
		if (!is(0, {J::Str, J::Null})) return err({-32602});
		if (params.empty() || params[0].t == J::Null) { std::set<std::string> all(mname, mname + NM + 3); std::string r; for (auto &s : all) r += s + "\n"; return ok(J::S(r)); }
		return domodel(params[0], {}, 3, w); }
	case NM + 1: if (!is(0, {J::Str})) return err({-32602}); return domodel(params[0], {}, 1, w);
	case NM + 2: if (!is(0, {J::Str})) return err({-32602}); return domodel(params[0], {}, 2, w);
	}
}
static Want model(const J &req, int mode = 0)
{
	Want w;
	if (req.t != J::Obj) { w.codes = {-32700, -32600}; return w; }
	if (req.o.count("id")) w.id = req.o.at("id");
	std::vector<J> params;
	if (req.o.count("params")) { if (req.o.at("params").t != J::Arr) { w.codes = {-32600}; return w; } params = req.o.at("params").a; }
	if (!req.o.count("method")) { w.codes = {-32600}; return w; }
	domodel(req.o.at("method"), params, mode, w);
	return w;
}
static uint64_t checkreply(const value &r, const Want &w, const int *before, const char *how)
{
	if (r.get_type() != rexjson::obj_type) vh::fail("%s: the reply is not an object: %s", how, r.write().c_str());
	const rexjson::object &o = r.get_obj();
	if (o.size() != 3 || !o.count("result") || !o.count("id") || !o.count("error")) vh::fail("%s: the reply is %s", how, r.write().c_str());
	std::string e = differ(w.id, o.at("id"), 0, false); if (!e.empty()) vh::fail("%s: the id %s in %s", how, e.c_str(), r.write().c_str());
	if (w.ok) {
		if (!o.at("error").is_null()) vh::fail("%s: unexpected error in %s", how, r.write().c_str());
		if (w.anytext) { if (o.at("result").get_type() != rexjson::str_type || o.at("result").get_str().empty()) vh::fail("%s: no help text", how); }
		else { e = differ(w.result, o.at("result"), 0, false); if (!e.empty()) vh::fail("%s: the result %s in %s", how, e.c_str(), r.write().c_str()); }
	} else {
		if (!o.at("result").is_null()) vh::fail("%s: a result beside the error in %s", how, r.write().c_str());
		const value &x = o.at("error");
		if (x.get_type() != rexjson::obj_type || !x.get_obj().count("code") || !x.get_obj().count("message") || x.get_obj().at("code").get_type() != rexjson::int_type || x.get_obj().at("message").get_type() != rexjson::str_type || x.get_obj().at("message").get_str().empty()) vh::fail("%s: malformed error in %s", how, r.write().c_str());
		int c = x.get_obj().at("code").get_int(); bool in = false; for (int k : w.codes) in |= k == c;
		if (!in) vh::fail("%s: error code %d, should be %d: %s", how, c, w.codes.empty() ? 0 : w.codes[0], r.write().c_str());
		if (!w.message.empty() && x.get_obj().at("message").get_str() != w.message) vh::fail("%s: error message %s", how, x.get_obj().at("message").get_str().c_str());
	}
	for (int k = 0; k < NM; k++) if (ran[k] - before[k] != (k == w.runs)) vh::fail("%s: method %s ran %d times", how, mname[k], ran[k] - before[k]);
	std::string t = r.write(); JReader jr(t); jr.whole(); if (!jr.ok) vh::fail("%s: the reply is not well-formed: %s", how, t.c_str());
	vh::eval();
	return vh::hstr(t);
}
static Srv *srv;
static std::vector<J> ids, methods, pars, extras; static std::vector<bool> hasid, hasm, hasp;
static J request(uint64_t i)
{
	vh::Idx x(i); J r = J::mk(J::Obj);
	size_t d = x.take(ids.size() + 1), m = x.take(methods.size() + 1), p = x.take(pars.size() + 1), e = x.take(2);
	if (d) r.o["id"] = ids[d - 1];
	if (m) r.o["method"] = methods[m - 1];
	if (p) r.o["params"] = pars[p - 1];
	if (e) { r.o["jsonrpc"] = J::S("2.0"); r.o["Params"] = J::I(1); r.o["result"] = J::S("mine"); }
	return r;
}
static void runreq(uint64_t i)
{
	J q = request(i); int before[16]; uint64_t sig = 0; value v = val(q); const std::string orig = v.write(false, true, 4, 17);
	for (int mode = 0; mode < 4; mode++) {
		Want w = model(q, mode);
		memcpy(before, ran, sizeof before);
		sig = vh::mix(sig, checkreply(srv->call(v, (rpc_exec_mode)mode), w, before, "as a value"));
		if (v.write(false, true, 4, 17) != orig) vh::fail("the request was changed");
		memcpy(before, ran, sizeof before);
		checkreply(srv->call(enc(q), (rpc_exec_mode)mode), w, before, "as text");
		if (q.o.count("method") && q.o.at("method").t == J::Str && q.o.count("params") && q.o.at("params").t == J::Arr) {
			memcpy(before, ran, sizeof before);
			checkreply(srv->call(q.o.at("method").s, q.o.count("id") ? val(q.o.at("id")) : value(), val(q.o.at("params")).get_array(), (rpc_exec_mode)mode), w, before, "by name");
		}
	}
	vh::steps(12); vh::distinct(sig);
}
static void runtext(const std::string &s)
{
	JReader r(s); J q = r.run(); Want w; int nx = r.ok ? r.at(r.p) : -1;
	if (r.ok && (q.t == J::Int || q.t == J::Real) && (nx == '.' || nx == 'e' || nx == 'E')) { vh::eval(); return; }
	if (!r.ok || r.depth > 32) w.codes = {-32700}; else w = model(q);
	int before[16]; memcpy(before, ran, sizeof before);
	vh::distinct(checkreply(srv->call(s), w, before, "as text")); vh::steps(1);
}
static const std::vector<std::string> toks = {"{", "}", "[", "]", ",", ":", "\"id\"", "\"method\"", "\"params\"", "\"echo\"", "7", "null", "\"f0\"", "x", "{\"method\":\"f0\"", "\"params\":[1]"};
static const std::vector<std::string> samples = {
	"{\"id\":1,\"method\":\"f2\",\"params\":[1,2]}", "{\"id\":\"a\",\"method\":\"echo\",\"params\":[{\"b\":[null,1.5]},\"\\u00e9\"]}", "{\"method\":\"help\",\"id\":[2]}", "{\"id\":{},\"params\":[],\"method\":\"fail\"}",
	"{\"id\":3,\"method\":\"need\",\"params\":[\"s\",2,{}],\"method\":\"f0\"}", "[{\"id\":3,\"method\":\"f0\"}]", "{\"id\":4,\"method\":\"spec\",\"params\":[\"need\"]}", "{\"id\":5,\"params\":{},\"method\":\"f0\"}"};
static const std::string mut = std::string("{}[],:\"\\ 0-.etx\n\x80") + '\0';
static std::vector<std::string> muts;
static std::vector<J> reps; static int hlen;
static void runhist(uint64_t i)
{
	vh::Idx x(i); Srv s; uint64_t sig = 0; std::vector<int> o(hlen); for (int k = hlen; k--;) o[k] = x.take(reps.size() + 2);
	for (int k : o) {
		int before[16]; memcpy(before, ran, sizeof before);
		if (k == (int)reps.size()) { Want w; w.codes = {-32700}; sig = vh::mix(sig, checkreply(s.call(std::string("{\"id\":1,")), w, before, "broken text")); }
		else if (k == (int)reps.size() + 1) { Want w; w.codes = {-32700, -32600}; sig = vh::mix(sig, checkreply(s.call(value(5)), w, before, "no object")); }
		else sig = vh::mix(sig, checkreply((k & 1) ? s.call(val(reps[k])) : s.call(enc(reps[k])), model(reps[k]), before, "in a history"));
	}
	vh::steps(hlen); vh::distinct(sig);
}
static const char *aop[] = {"add m1", "add m2 under the same name", "add without a name", "add nothing", "call", "call other", "add other"};
static void runadd(uint64_t i)
{
	vh::Idx x(i); rexjson::rpc_server<> s; int cur = 0, other = 0; uint64_t sig = 0;
	for (int k = 0; k < 5; k++) {
		int o = x.take(7);
		auto meth = [](int n) { return [n](rexjson::array &, rpc_exec_mode) -> value { return n; }; };
		auto callm = [&](const char *n, int want) {
			rexjson::array none; value r = s.call(std::string(n), value(9), none);
			if (r["id"].get_int() != 9) vh::fail("id lost");
			if (want ? r["result"].is_null() || r["result"].get_int() != want || !r["error"].is_null() : r["error"].is_null() || r["error"]["code"].get_int() != -32601) vh::fail("after %d operations: %s", k, r.write().c_str());
			sig = vh::mix(sig, vh::hstr(r.write()));
		};
		bool th = false, wth = o == 2 || o == 3;
		try {
			switch (o) {
			case 0: s.add("m", meth(1)); cur = 1; break;
			case 1: s.add("m", meth(2)); cur = 2; break;
			case 2: s.add("", meth(3)); break;
			case 3: s.add("m", rexjson::rpc_server<>::rpc_method_type()); break;
			case 4: callm("m", cur); break;
			case 5: callm("o", other); break;
			case 6: s.add("o", meth(4)); other = 4; break;
			}
		} catch (std::runtime_error &) { th = true; }
		if (th != wth) vh::fail("%s %s", aop[o], th ? "throws" : "is accepted");
	}
	vh::eval(5); vh::steps(5); vh::distinct(sig);
}
// servers of many methods, requests with many parameters and with long names and identifiers
static const int sizes[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025};
static const char *shapes[] = {"methods", "parameters of every type", "nested parameters", "a long method name", "a long id", "many members beside", "a long parameter", "a history"};
static void runmany(uint64_t i)
{
	vh::Idx x(i); int n = sizes[x.take(sizeof sizes / sizeof *sizes)], sh = x.take(8); uint64_t sig = i; int before[16];
	J q = J::mk(J::Obj); q.o["id"] = J::I(n); q.o["method"] = J::S("echo"); J pa = J::mk(J::Arr); std::string lng; for (int k = 0; k < n; k++) lng += (char)('a' + k % 23);
	auto both = [&](Srv &s, const J &r) {
		Want w = model(r);
		memcpy(before, ran, sizeof before); sig = vh::mix(sig, checkreply(s.call(val(r)), w, before, "as a value"));
		memcpy(before, ran, sizeof before); checkreply(s.call(enc(r)), w, before, "as text"); vh::steps(2);
	};
	switch (sh) {
	case 0: {
		rexjson::rpc_server<> s; std::set<std::string> all = {"help", "spec", "helpspec"};
		auto name = [](int k) { return (k % 3 ? "m" : "a long method name ") + std::to_string(k); };
		for (int k = 0; k < n; k++) { all.insert(name(k)); s.add(name(k), [k](rexjson::array &p, rpc_exec_mode m) -> value { (void)m; return value((int64_t)(k * 10 + (int)p.size())); }); }
		for (int k = 0; k < n; k++) { rexjson::array p; for (int z = 0; z < k % 4; z++) p.push_back(z); value r = s.call(name(k), value(k), p); if (r["id"].get_int() != k || !r["error"].is_null() || r["result"].get_int() != k * 10 + k % 4) vh::fail("method %d of %d: %s", k, n, r.write().c_str()); vh::eval(); }
		{ rexjson::array none; value r = s.call(name(n), value(1), none); if (r["error"].is_null() || r["error"]["code"].get_int() != -32601) vh::fail("a method that is not there: %s", r.write().c_str()); }
		std::string want; for (auto &a : all) want += a + "\n";
		rexjson::array none; value r = s.call("help", value(1), none); if (!r["error"].is_null() || r["result"].get_str() != want) vh::fail("help lists %s", r["result"].write().substr(0, 300).c_str());
		break; }
	case 1: for (int k = 0; k < n; k++) pa.a.push_back(k % 5 == 0 ? J::I(k) : k % 5 == 1 ? J::S("p" + std::to_string(k)) : k % 5 == 2 ? J::B(k % 2) : k % 5 == 3 ? J() : J::D(k + 0.5)); q.o["params"] = pa; both(*srv, q); q.o["method"] = J::S("f0"); both(*srv, q); q.o["method"] = J::S("f2"); both(*srv, q); break;
	case 2: { J o = J::mk(J::Obj); for (int k = 0; k < n; k++) { J a = J::mk(J::Arr); a.a = {J::I(k), J::S(std::to_string(k))}; o.o["k" + std::to_string(k)] = a; } pa.a = {o, J::I(1)}; q.o["params"] = pa; both(*srv, q); break; }
	case 3: q.o["method"] = J::S(lng); both(*srv, q); q.o["method"] = J::S("echo" + lng); both(*srv, q); break;
	case 4: q.o["id"] = J::S(lng); both(*srv, q); q.o["method"] = J::S("nope"); both(*srv, q); break;
	case 5: for (int k = 0; k < n; k++) q.o["x" + std::to_string(k)] = J::I(k); both(*srv, q); break;
	case 6: pa.a = {J::S(lng)}; q.o["params"] = pa; for (auto m : {"echo", "fs", "help", "spec"}) { q.o["method"] = J::S(m); both(*srv, q); } break;
	case 7: { Srv s; for (int k = 0; k < n; k++) both(s, reps[k * 7 % reps.size()]); break; }
	}
	vh::eval(); vh::distinct(sig);
}
static void setup()
{
	J l = J::mk(J::Arr); l.a = {J::I(1), J::mk(J::Obj)}; J ob = J::mk(J::Obj); ob.o["k"] = l;
	ids = {J(), J::I(0), J::I(-5), J::S("x\"y"), J::S(""), J::D(1.5), J::B(true), l, ob};
	for (auto n : mname) methods.push_back(J::S(n));
	for (auto n : {"", "nope", "Echo", "echo "}) methods.push_back(J::S(n));
	methods.push_back(J()); methods.push_back(J::I(5)); J am = J::mk(J::Arr); am.a = {J::S("echo")}; methods.push_back(am); methods.push_back(J::mk(J::Obj));
	pars = {J(), J::S("s"), J::I(3), J::mk(J::Obj), J::B(false)};
	std::vector<J> pal = {J::I(5), J::S("f2"), J::B(true), J::D(-2.5), J(), l, ob, J::S("nope"), J::I(-3), J::S("q\\\"")}, pal3 = {J::I(5), J::S("t"), J::B(false), J::D(0.25), J(), ob};
	J a = J::mk(J::Arr); pars.push_back(a);
	for (auto &p : pal) { a.a = {p}; pars.push_back(a); }
	for (auto &p : pal) for (auto &q : pal) { a.a = {p, q}; pars.push_back(a); }
	for (auto &p : pal3) for (auto &q : pal3) for (auto &r : pal3) { a.a = {p, q, r}; pars.push_back(a); }
	for (auto &p : pal3) for (auto &q : pal3) for (int k = 0; k < 5; k++) { a.a = {J::I(2), J::S("m"), J::B(true), J::D(1.25), J::I(3)}; a.a[k] = p; a.a[(k + 1) % 5] = q; pars.push_back(a); }
	{ std::vector<int> sm = {ECHO, FAIL, FAILRPC, NEED, F2, FS, THROWW, NM, NM + 1}; for (int m : sm) for (int p = 0; p < 4; p++) { J r = J::mk(J::Obj); r.o["id"] = J::I(m * 10 + p); r.o["method"] = J::S(mname[m]); J pa = J::mk(J::Arr); if (p == 1) pa.a = {J::S("f2")}; if (p == 2) pa.a = {J::I(1), J::I(2), J()}; if (p == 3) pa = J::I(3); r.o["params"] = pa; reps.push_back(r); } }
	for (auto &s : samples) { for (size_t k = 0; k <= s.size(); k++) muts.push_back(s.substr(0, k)); for (size_t k = 0; k < s.size(); k++) { for (char c : mut) { std::string t = s; t[k] = c; muts.push_back(t); muts.push_back(s.substr(0, k) + c + s.substr(k)); } muts.push_back(s.substr(0, k) + s.substr(k + 1)); } }
	for (int k = 25; k < 40; k++) { std::string d = "{\"method\":\"echo\",\"params\":"; for (int q = 0; q < k; q++) d += "["; for (int q = 0; q < k; q++) d += "]"; muts.push_back(d + "}"); }
	hlen = vh::thorough ? 4 : 3; int nt = vh::thorough ? 6 : 5;
	srv = new Srv;
	vh::Family f; f.chunk = 64;
	f.name = "requests"; f.count = (ids.size() + 1) * (methods.size() + 1) * (pars.size() + 1) * 2; f.run = runreq; f.describe = [](uint64_t i) { return enc(request(i)); }; vh::families.push_back(f);
	f.name = "texts"; f.count = vh::nstrings(toks.size(), nt); f.run = [](uint64_t i) { runtext(vh::nthtext(i, toks)); }; f.describe = [](uint64_t i) { return vh::nthtext(i, toks); }; vh::families.push_back(f);
	f.name = "mutated-requests"; f.count = muts.size(); f.run = [](uint64_t i) { runtext(muts[i]); }; f.describe = [](uint64_t i) { return muts[i]; }; vh::families.push_back(f);
	f.name = "histories"; f.count = vh::ipow(reps.size() + 2, hlen); f.run = runhist; f.describe = [](uint64_t i) { vh::Idx x(i); std::vector<int> o(hlen); for (int k = hlen; k--;) o[k] = x.take(reps.size() + 2); std::string s = "history:"; for (int k : o) s += " " + (k == (int)reps.size() ? "{\"id\":1," : k == (int)reps.size() + 1 ? "5" : enc(reps[k])); return s; }; vh::families.push_back(f);
	f.name = "registrations"; f.count = vh::ipow(7, 5); f.run = runadd; f.describe = [](uint64_t i) { vh::Idx x(i); std::string s; for (int k = 0; k < 5; k++) s += std::string(aop[x.take(7)]) + "; "; return s; }; vh::families.push_back(f);
	f.name = "many"; f.count = 8 * (sizeof sizes / sizeof *sizes); f.run = runmany; f.describe = [](uint64_t i) { vh::Idx x(i); int n = sizes[x.take(sizeof sizes / sizeof *sizes)]; return vh::fmt("%d: %s", n, shapes[x.take(8)]); }; vh::families.push_back(f);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
