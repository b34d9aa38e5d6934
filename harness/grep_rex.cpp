// G01 (regex tool): rexgrep prints exactly the leftmost-longest matches, or exactly the lines that contain one.
#include "toolrun.hpp"
#include "rexmodel.hpp"
#include <dirent.h>
extern "C" {
#include "rlib/rutf.h"
#include "rlib/rmem.h"
}
using namespace rm;
using tool::Out;

// a text as characters and the byte position of each; a byte that starts no character stands for itself
struct Tx { std::string b; Text c; std::vector<size_t> at; };
static Tx decode(const std::string &b)
{
	Tx t; t.b = b; size_t i = 0; const unsigned char *p = (const unsigned char *)b.data(), *e = p + b.size();
	while (i < b.size()) { ruint32 wc = 0; int n = r_utf8_mbtowc(&wc, p + i, e); if (n <= 0) { n = 1; wc = p[i]; } t.c.push_back(wc); t.at.push_back(i); i += n; }
	t.at.push_back(b.size());
	return t;
}
// what the tool prints for one text; empty when nothing matches
static std::string want(const P &e, const Tx &t, bool lines, const std::string &name)
{
	std::string o;
	if (!lines) {
		for (size_t p = 0; p < t.c.size();) { int m = longest(e, t.c, p); if (m) { o += name + t.b.substr(t.at[p], t.at[p + m] - t.at[p]) + "\n"; p += m; } else p++; }
		return o;
	}
	for (size_t s = 0; s < t.b.size();) {
		size_t n = t.b.find('\n', s); n = n == std::string::npos ? t.b.size() : n + 1;
		Tx l = decode(t.b.substr(s, n - s));
		for (size_t p = 0; p < l.c.size(); p++) if (longest(e, l.c, p)) { o += name + l.b; break; }
		s = n;
	}
	return o;
}
static const char *MODE[] = {"dfa", "dfa with sub-states", "nfa", "saved dfa", "saved dfa with sub-states"};
static std::vector<std::string> modeargs(int m, const std::vector<std::string> &pat)
{
	std::vector<std::string> a;
	if (m < 3) { a = pat; if (m == 1) a.push_back("-S"); if (m == 2) a.push_back("-N"); return a; }
	a = pat; a.insert(a.end(), {"-c", "-b", "saved.bin"}); if (m == 4) a.push_back("-S");
	tool::run(a);
	return {"-b", "saved.bin"};
}
static std::vector<std::string> plus(std::vector<std::string> a, const std::vector<std::string> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static std::string line(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + x; return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
static void expect(const std::vector<std::string> &args, const std::string &w, const std::string *in = nullptr, bool pipes = false)
{
	Out o = tool::run(args, in, pipes);
	if (o.s != w) vh::fail("rexgrep %s %s", vh::esc(line(args)).c_str(), tool::diff(o.s, w).c_str());
	if (o.ret != (w.empty() ? 1 : 0)) vh::fail("rexgrep %s: exit status %d although %s", vh::esc(line(args)).c_str(), o.ret, w.empty() ? "nothing matches" : "something matches");
}

// ---- files
static std::vector<std::vector<Tx>> texts;                       // the text sets
static std::set<size_t> written;
static std::vector<std::string> files(size_t k)
{
	std::vector<std::string> n; for (size_t i = 0; i < texts[k].size(); i++) n.push_back("t" + std::to_string(k) + "_" + std::to_string(i));
	if (written.insert(k).second) for (size_t i = 0; i < n.size(); i++) tool::spit(n[i], texts[k][i].b);
	return n;
}
static void onset(const P &e, size_t k)
{
	auto fs = files(k); uint64_t h = 5;
	for (int l = 0; l < 2; l++) {
		std::vector<std::string> out; std::string all; for (size_t i = 0; i < fs.size(); i++) { all += want(e, texts[k][i], l, fs[i] + ":"); h = vh::mix(h, all.size()); }
		for (int m = 0; m < 5; m++) {
			auto a = plus(modeargs(m, {"-e", e->s}), {"-H", l ? "-l" : "-o"});
			vh::note("%s", MODE[m]); expect(plus(a, fs), all); vh::eval(fs.size()); vh::traces(fs.size()); vh::steps(fs.size());
		}
	}
	vh::distinct(h);
}
// one text at a time: no name printed, the default mode, quiet mode, the text as an argument, options after the names
static void single(const P &e, const std::string &s)
{
	Tx t = decode(s); tool::spit("one", s); std::string l = want(e, t, true, ""), o = want(e, t, false, ""); uint64_t h = vh::mix(l.size(), o.size());
	expect({"-e", e->s, "one"}, l); expect({"one", "-e", e->s, "--only-matching"}, o); expect({"-N", "-o", "-e", e->s, "one", "one"}, o + o);
	expect({"-l", "-e", e->s}, l, &s); expect({"-o", "-e", e->s, "-N"}, o, &s); expect({"-e", e->s, "-o"}, o, &s, s.size() > 2);
	Out q = tool::run({"-q", "-o", "-e", e->s, "one"}); if (q.s.size() || q.ret != (o.empty() ? 1 : 0)) vh::fail("quiet mode prints %zu bytes, exit status %d", q.s.size(), q.ret);
	if (s.find('\0') == s.npos) {
		expect({"-e", e->s, "-s", s}, l); expect({"-o", "-s", s, "-e", e->s, "-N"}, o); expect({"-s", s, "-o", "-s", s, "-e", e->s}, o + o);
		if (s.size() && s[0] != '-' && s.find('/') == s.npos && s.size() < 200 && s != "one") { tool::spit(s, "ab\nba"); expect({"-o", "-e", e->s, "-s", s}, o); unlink(s.c_str()); }
	}
	vh::eval(8); vh::distinct(h);
}
// texts of every size around the buffers the tool reads in
static std::string filled(int kind, size_t n)
{
	std::string s(n, kind == 1 ? '\n' : '.');
	if (kind == 2) for (size_t i = 15; i < n; i += 16) s[i] = '\n';
	if (kind == 3) s.assign(n, 'a');
	return s;
}
static void sized(size_t n, bool file)
{
	uint64_t h = n;
	for (int kind = 0; kind < 4; kind++) for (int where = 0; where < 4; where++) {
		std::string s = filled(kind, n);
		auto put = [&](size_t p) { if (p + 2 <= n) { s[p] = 'a'; s[p + 1] = 'b'; } };
		if (where == 1) put(0);
		if (where >= 2 && n >= 2) put(n - 2);
		if (where == 3) for (size_t p = 253; p + 2 <= n; p += 255) put(p);
		std::string o, l; size_t ls = 0; bool hit = false;
		for (size_t i = 0; i < n; i++) {
			if (s[i] == 'a' && i + 1 < n && s[i + 1] == 'b') { o += "ab\n"; hit = true; }
			if (s[i] == '\n' || i + 1 == n) { if (hit) l += s.substr(ls, i + 1 - ls); hit = false; ls = i + 1; }
		}
		if (file) tool::spit("sized", s);
		for (int nfa = 0; nfa < 2; nfa++) {
			std::vector<std::string> a{"-e", "ab"}; if (nfa) a.push_back("-N"); if (file) a.push_back("sized");
			vh::note("%zu bytes, filler %d, places %d", n, kind, where);
			expect(plus(a, {"-o"}), o, file ? nullptr : &s); expect(plus(a, {"-l"}), l, file ? nullptr : &s);
		}
		// one long run
		if (kind == 3 && !where && n) { expect({"-e", "a+", "-o"}, s + "\n", &s); expect({"-e", "a+", "-o", "-N"}, s + "\n", &s); if (n < 600) expect({"-e", "a{" + std::to_string(n) + "}", "-o"}, s + "\n", &s); }
		h = vh::mix(h, o.size() * 7 + l.size()); vh::eval(4);
	}
	vh::distinct(h);
}
// several patterns, pattern files, refused patterns
static std::vector<P> pe;
static void several(size_t i, size_t j, size_t k)
{
	P e = alt(pe[i], pe[j]); auto fs = files(k); std::vector<std::string> pat{"-e", pe[i]->s, "-e", pe[j]->s}, pf{"-f", "pat", "-e", pe[j]->s};
	tool::spit("pat", pe[i]->s + ((i + j) % 2 ? "\n" : ""));
	for (int l = 0; l < 2; l++) {
		std::string all; for (size_t f = 0; f < fs.size(); f++) all += want(e, texts[k][f], l, fs[f] + ":");
		for (int m = 0; m < 5; m++) { vh::note("%s", MODE[m]); expect(plus(plus(modeargs(m, (m + l) % 2 ? pf : pat), {"-H", l ? "-l" : "-o"}), fs), all); vh::eval(fs.size()); }
		vh::distinct(vh::hstr(all));
	}
}
static void refused(const std::string &x, int form)
{
	tool::spit("one", "ab(*\n"); tool::spit("pat", x);
	std::vector<std::vector<std::string>> v{{"-e", x, "one"}, {"-e", "a", "-e", x, "one"}, {"-e", x, "-e", "a", "-o", "one"}, {"-f", "pat", "one"}, {"-N", "-e", x, "-s", "ab"}, {"-e", x}};
	Out o = tool::run(v[form]); if (o.s.size() || o.ret != 2) vh::fail("rexgrep %s prints '%s', exit status %d", vh::esc(line(v[form])).c_str(), vh::esc(o.s).c_str(), o.ret);
	vh::eval(); vh::distinct(vh::mix(vh::hstr(x), form));
}
// ---- directories: every tree of the given shapes; every regular file of it is searched once, hidden directories and links are not entered
struct Ent { std::string name; bool dir; std::vector<Ent> kid; };
static void mk(const std::string &at, const std::vector<Ent> &v, std::vector<std::string> &fs, bool hidden, int &n)
{
	for (auto &e : v) {
		std::string p = at + "/" + e.name;
		if (e.dir) { mkdir(p.c_str(), 0777); mk(p, e.kid, fs, hidden || e.name[0] == '.', n); }
		else { tool::spit(p, n++ % 3 == 2 ? "xx\n" : "1 ab\nab"); if (!hidden) fs.push_back(p); }
	}
}
static void rmtree(const std::string &at, const std::vector<Ent> &v) { for (auto &e : v) { std::string p = at + "/" + e.name; if (e.dir) { rmtree(p, e.kid); rmdir(p.c_str()); } else unlink(p.c_str()); } }
static std::string showtree(const std::vector<Ent> &v) { std::string s; for (auto &e : v) s += e.name + (e.dir ? "{" + showtree(e.kid) + "}" : "") + " "; return s; }
static std::vector<std::vector<Ent>> trees(int size)
{
	static std::map<int, std::vector<std::vector<Ent>>> memo; auto it = memo.find(size); if (it != memo.end()) return it->second;
	std::vector<std::vector<Ent>> out; if (!size) { out.push_back({}); return memo[0] = out; }
	static const char *FN[] = {"f", "g", ".h", "with space", "x.txt", "f2", "g2"}, *DN[] = {"d", ".e", "dd", "f.d", "d2", "d3", "d4"};
	for (auto &rest : trees(size - 1)) { auto v = rest; int k = 0; for (auto &e : rest) k += !e.dir; if (k < 3 && (rest.empty() || !rest.back().dir)) { v.push_back({FN[k], false, {}}); out.push_back(v); } }
	for (int k = 0; k < size; k++) for (auto &sub : trees(k)) for (auto &rest : trees(size - 1 - k)) { auto v = rest; int d = 0; for (auto &e : rest) d += e.dir; if (d < 3) { v.push_back({DN[d], true, sub}); out.push_back(v); } }
	return memo[size] = out;
}
static std::vector<std::vector<Ent>> tr;
static void dirs(const std::vector<Ent> &v)
{
	std::vector<std::string> fs; int n = 0; rmtree("top", v); mkdir("top", 0777); mk("top", v, fs, false, n);
	auto sorted = [](const std::string &s) { std::vector<std::string> r; size_t a = 0; while (a < s.size()) { size_t e = s.find('\n', a); e = e == s.npos ? s.size() : e; r.push_back(s.substr(a, e - a)); a = e + 1; } std::sort(r.begin(), r.end()); return r; };
	for (int form = 0; form < 4; form++) {
		std::string root = form == 0 ? "top" : form == 1 ? "top/" : form == 2 ? "./top" : tool::dir + "/top", pre = form == 1 ? "top" : root;
		Out o = tool::run({"-H", "-o", "-e", "ab", root});
		std::string w; for (auto &f : fs) { struct stat st; stat(f.c_str(), &st); if (st.st_size > 4) for (int k = 0; k < 2; k++) w += pre + f.substr(3) + ":ab\n"; }
		if (sorted(o.s) != sorted(w)) vh::fail("directory %s: prints %s, should print (in some order) %s", root.c_str(), vh::esc(o.s).c_str(), vh::esc(w).c_str());
		if (o.ret != (w.empty() ? 1 : 0)) vh::fail("directory %s: exit status %d", root.c_str(), o.ret);
		vh::eval(); vh::distinct(vh::hstr(w));
	}
	rmtree("top", v); rmdir("top");
}
// a directory that the user may not read gives nothing, and what is beside it is still searched
static void unreadable(int form)
{
	mkdir("top", 0777); mkdir("top/no", 0777); mkdir("top/yes", 0777); tool::spit("top/yes/f", "ab\n"); tool::spit("top/no/f", "ab\n"); tool::spit("one", "ab\n"); chmod("top/no", 0); if (form >= 2) chmod("top", 0);
	bool able = !seteuid(65534);
	if (able) { FILE *f = fopen("one", "rb"); if (f) fclose(f); else able = false; if (able && !access("top/no", F_OK) && opendir("top/no")) able = false; }
	Out o = tool::run(form % 2 ? std::vector<std::string>{"-H", "-o", "-e", "ab", "top", "one"} : std::vector<std::string>{"-H", "-o", "-e", "ab", "top/no", "one"});
	if (geteuid() && seteuid(0)) vh::fail("seteuid back");
	chmod("top", 0777); chmod("top/no", 0777); for (auto f : {"top/yes/f", "top/no/f", "one"}) unlink(f); for (auto d : {"top/no", "top/yes", "top"}) rmdir(d);
	std::string w = std::string(form == 1 ? "top/yes/f:ab\n" : "") + "one:ab\n";
	if (!able) return;   // nothing here is unreadable
	if (o.s != w || o.ret) vh::fail("prints '%s', should print '%s', exit status %d", vh::esc(o.s).c_str(), vh::esc(w).c_str(), o.ret);
	vh::eval(); vh::distinct(form);
}

static void setup()
{
	bool T = vh::thorough;
	vh::worker_init = []() { tool::setup(); written.clear(); };
	vh::case_timeout = 120;
	auto mkset = [&](const std::vector<std::string> &al, unsigned len) { std::vector<Tx> v; for (uint64_t i = 0; i < vh::nstrings(al.size(), len); i++) { std::string s; for (int c : vh::nthstring(i, al.size())) s += al[c]; v.push_back(decode(s)); } texts.push_back(v); return texts.size() - 1; };
	size_t s0 = mkset({"a", "b", "\n"}, T ? 6 : 5);
	auto all = exprs(false); std::vector<P> E; for (size_t i = 0; i < all.size(); i += T ? 5 : 67) E.push_back(all[i]);
	static std::vector<P> E0 = E;
	vh::families.push_back({"expressions", E0.size(), [s0](uint64_t i) { onset(E0[i], s0); }, [](uint64_t i) { return E0[i]->s; }, 1});
	// wide and malformed texts, expressions of up to three wide characters
	size_t s1 = mkset({"a", "b", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x90\x80\x80", "\xff", "\xc3", "\x80", std::string(1, 0), "\n"}, T ? 4 : 3);
	size_t s2 = mkset({"a", "\xc3\xa9", "\xc3", "\n"}, T ? 7 : 5);
	P a = ch('a'), b = ch('b'), e1 = uch(0xe9), e2 = uch(0x20ac), e3 = uch(0x10000), na = atom("[^a]", {{'a', 'a'}}, true), w = atom("[#x80-#x10ffff]", {{0x80, 0x10ffff}}), z = atom("[#0]", {{0, 0}}), ac = atom("[#xc3#xff]", {{0xc3, 0xc3}, {0xff, 0xff}}), ae = atom("[a\xc3\xa9]", {{'a', 'a'}, {0xe9, 0xe9}});
	static std::vector<P> W = {e1, e2, e3, any(), na, w, z, ac, ae, cat(a, e1), cat(e1, a), cat(e1, b), cat(a, cat(e1, a)), cat(e1, e1), cat(e1, cat(e1, e1)), cat(a, cat(b, e2)), cat(e2, cat(a, b)), cat(any(), cat(any(), any())), cat(any(), e1), cat(ac, a), cat(a, ac), cat(z, a), rep(e1, 1, INF, "+"), cat(rep(a, 0, INF, "*"), e1), cat(rep(w, 2, 3, "{2,3}"), a), cat(na, cat(a, na)), cat(a, cat(any(), cat(any(), e1))), alt(cat(a, e1), cat(e2, b)), cat(rep(any(), 0, INF, "*"), e2), cat(e3, rep(any(), 0, 1, "?")), cat(a, rep(e1, 0, 2, "{0,2}")), cat(ae, cat(ae, ae))};
	vh::families.push_back({"wide characters", W.size() * 2, [s1, s2](uint64_t i) { onset(W[i / 2], i % 2 ? s2 : s1); }, [](uint64_t i) { return W[i / 2]->s; }, 1});
	// the same small text behind every number of other characters
	static std::vector<P> F = {cat(a, b), a, cat(a, cat(b, a)), cat(e1, a), cat(a, e1), cat(cat(a, b), cat(a, b)), cat(b, rep(a, 2, 2, "{2}")), cat(a, rep(any(), 0, 1, "?")), cat(e1, cat(e1, a)), cat(rep(na, 1, 2, "{1,2}"), cat(a, b)), cat(a, cat(b, e2))};
	std::vector<Tx> padded;
	for (auto fill : {"x", "\xc3\xa9", "\xff", "b"}) for (int pre = 0; pre <= 8; pre++) for (auto core : {"ab", "aba", "\xc3\xa9" "a", "a\xc3\xa9", "abab", "baa", "a", "ab\xe2\x82\xac"}) for (int post = 0; post <= (T ? 5 : 3); post++) { std::string s; for (int k = 0; k < pre; k++) s += fill; s += core; for (int k = 0; k < post; k++) s += k % 2 ? "x" : fill; padded.push_back(decode(s)); }
	texts.push_back(padded); size_t s3 = texts.size() - 1;
	vh::families.push_back({"padding", F.size(), [s3](uint64_t i) { onset(F[i], s3); }, [](uint64_t i) { return F[i]->s; }, 1});
	static const std::vector<std::string> al = {"a", "b", "\n", "\xc3\xa9", " "};
	static unsigned L = T ? 4 : 3; static std::vector<P> S = {cat(a, b), rep(any(), 1, INF, "+"), na, cat(a, rep(b, 0, INF, "*")), uch(' '), cat(a, uch(' ')), atom("\\n", {{10, 10}}), cat(na, na)};
	vh::families.push_back({"one text", S.size() * vh::nstrings(al.size(), L), [](uint64_t i) { std::string s; for (int c : vh::nthstring(i / S.size(), al.size())) s += al[c]; single(S[i % S.size()], s); }, [](uint64_t i) { std::string s; for (int c : vh::nthstring(i / S.size(), al.size())) s += al[c]; return S[i % S.size()]->s + " on '" + vh::esc(s) + "'"; }, 16});
	static std::vector<size_t> sizes; for (size_t n = 0; n <= 2100; n++) if (T || n < 20 || (n + 12) % 128 < 24) sizes.push_back(n); for (size_t n : {2047u, 2048u, 2049u, 4095u, 4096u, 4097u, 8191u, 8192u, 8193u, 65535u, 65536u, 65537u}) sizes.push_back(n);
	for (int f = 0; f < 2; f++) vh::families.push_back({f ? "file sizes" : "standard input sizes", sizes.size(), [f](uint64_t i) { sized(sizes[i], f); }, [](uint64_t i) { return std::to_string(sizes[i]) + " bytes"; }, 16});
	size_t s4 = mkset({"a", "b", "\n"}, 4);
	pe = quant({a, b, any(), atom("[ab]", {{'a', 'b'}})}, RMQ(QTINY)); for (auto &x : {a, b}) for (auto &y : {a, b, na}) pe.push_back(cat(x, y)); pe.push_back(cat(a, uch(' '))); pe.push_back(rep(cat(a, b), 1, 2, "{1,2}"));
	vh::families.push_back({"two patterns", pe.size() * pe.size(), [s4](uint64_t i) { several(i / pe.size(), i % pe.size(), s4); }, [](uint64_t i) { return pe[i / pe.size()]->s + " , " + pe[i % pe.size()]->s; }, 2});
	static const std::vector<std::string> bad = {"(a", "a)", "[a", "*", "a|", "a||b", "a{", "()", "|a", "(", "+a", "a{2"};
	vh::families.push_back({"refused", bad.size() * 6, [](uint64_t i) { refused(bad[i / 6], i % 6); }, [](uint64_t i) { return bad[i / 6]; }, 2});
	for (int k = 0; k <= (T ? 6 : 5); k++) for (auto &x : trees(k)) tr.push_back(x);
	vh::families.push_back({"unreadable directories", 4, [](uint64_t i) { unreadable(i); }, [](uint64_t i) { return std::to_string(i); }, 1});
	vh::families.push_back({"directories", tr.size(), [](uint64_t i) { dirs(tr[i]); }, [](uint64_t i) { return showtree(tr[i]); }, 8});
	// mapped for real, and through pipes of short reads
	vh::families.push_back({"real mappings", F.size(), [s3](uint64_t i) { tool_rawmap = true; onset(F[i], s3); tool_rawmap = false; }, [](uint64_t i) { return F[i]->s; }, 1});
}
int main(int c, char **v) { return vh::main(c, v, setup); }
