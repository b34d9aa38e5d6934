// G01 (grammar tool): rpagrep prints exactly the leftmost matches of the last rule, the lines that contain one, or the parse records.
#include "toolrun.hpp"
#include "pegmodel.hpp"
using namespace peg;
using tool::Out;
typedef std::vector<uint32_t> In;
enum { SCAN, LINES, MATCH, PARSE, NOPROD, KINDS };
static const char *KA[] = {"", "-l", "-m", "-p", "-x"};
enum { U8, BYTES, BOM, FORCED, VIEWS };
static std::string bytes(const In &in, int v) { return v == BYTES || v == U8 ? utf8(in) : (v == BOM ? std::string("\xff\xfe") : std::string()) + utf16(in); }
static size_t width(uint32_t c, int v) { return v == BYTES ? 1 : v == U8 ? utf8({c}).size() : utf16({c}).size(); }
static std::string show(const In &in, size_t a, size_t n) { return utf8(In(in.begin() + a, in.begin() + a + n)); }

static std::string want(Model &m, int kind, const In &in, int v, const std::string &name)
{
	int k = m.n - 1; std::string o, head = name.empty() ? "" : name + ":\n";
	std::vector<size_t> off{0}; for (auto c : in) off.push_back(off.back() + width(c, v));
	auto recs = [&](bool full) { for (auto &r : m.recs) if (!r.start) { if (full) { char b[200]; snprintf(b, sizeof b, "%s (%zu, %zu): ", m.g.r[r.rule].name.c_str(), off[r.off], off[r.off + r.size] - off[r.off]); o += b; } o += show(in, r.off, r.size); if (full) o += "\n"; } };
	switch (kind) {
	case SCAN: for (size_t p = 0; p < in.size();) { int n = m.match(k, in, p); if (n > 0) { if (o.empty()) o = head; o += show(in, p, n) + "\n"; p += n; } else p++; } break;
	case LINES:
		for (size_t s = 0; s < in.size();) {
			size_t e = s; while (e < in.size() && in[e] != '\n') e++; if (e < in.size()) e++;
			In l(in.begin() + s, in.begin() + e);
			for (size_t p = 0; p < l.size(); p++) if (m.match(k, l, p) > 0) { if (o.empty()) o = head; o += show(l, 0, l.size()); break; }
			s = e;
		}
		break;
	case MATCH: { int n = m.match(k, in, 0); if (n > 0) o = head + show(in, 0, n) + "\n"; break; }
	case PARSE: if (m.match(k, in, 0) > 0) recs(true); break;
	case NOPROD: if (m.match(k, in, 0) > 0) recs(false); break;
	}
	return o;
}
static bool found(Model &m, int kind, const In &in) { if (kind == SCAN || kind == LINES) return want(m, kind, in, U8, "").size(); return m.match(m.n - 1, in, 0) > 0; }
static std::string line(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + x; return vh::esc(s.size() > 300 ? s.substr(0, 300) + "..." : s); }
static void expect(const std::vector<std::string> &args, const std::string &w, bool hit, const std::string *in = nullptr, bool pipes = false)
{
	Out o = tool::run(args, in, pipes);
	if (o.s != w) vh::fail("rpagrep %s %s", line(args).c_str(), tool::diff(o.s, w).c_str());
	if (o.ret != (hit ? 0 : 1)) vh::fail("rpagrep %s: exit status %d although %s", line(args).c_str(), o.ret, hit ? "something matches" : "nothing matches");
}
// ---- sets of texts as files, in every view
static std::vector<std::vector<In>> texts;
static std::set<std::pair<size_t, int>> written;
static std::vector<std::string> files(size_t k, int v)
{
	std::vector<std::string> n; for (size_t i = 0; i < texts[k].size(); i++) n.push_back(std::string("t") + "ubcd"[v] + std::to_string(k) + "_" + std::to_string(i));
	if (written.insert({k, v}).second) for (size_t i = 0; i < n.size(); i++) tool::spit(n[i], bytes(texts[k][i], v));
	return n;
}
static const std::vector<std::string> OPT[] = {{}, {"--no-optimizations"}, {"--no-bitmap"}, {"--no-cache"}, {"--no-bitmap", "--no-optimizations", "--no-cache"}};
static void onset(const Grammar &g, size_t k, int v, size_t turn)
{
	Model m(g); if (m.anyleft()) return;
	std::string t = text(g); uint64_t h = 3;
	for (int kind = 0; kind < KINDS; kind++) {
		m.icase = (turn / 5 + kind) % 3 == 2;
		auto fs = files(k, v); std::string all; bool hit = false;
		std::vector<std::string> use;
		for (size_t i = 0; i < fs.size(); i++) { all += want(m, kind, texts[k][i], v, fs[i]); hit = hit || found(m, kind, texts[k][i]); if (m.unspecified) return; h = vh::mix(h, all.size()); }
		std::vector<std::string> a; if (turn % 2) { tool::spit("gram", t); a = {"-f", "gram"}; } else a = {"-e", t};
		if (*KA[kind]) a.push_back(KA[kind]); if (m.icase) a.push_back("-i"); if (v == BYTES) a.push_back("-b"); if (v == FORCED) a.push_back("-16");
		auto &x = OPT[(turn + kind) % 5]; a.insert(a.end(), x.begin(), x.end()); a.insert(a.end(), fs.begin(), fs.end());
		expect(a, all, hit); vh::eval(fs.size()); vh::traces(fs.size()); vh::steps(fs.size());
	}
	vh::distinct(h);
}
static void single(const Grammar &g, const In &in)
{
	Model m(g); std::string t = text(g), s = utf8(in), u = bytes(in, FORCED), b = bytes(in, BOM); tool::spit("one", s); tool::spit("wide", b);
	for (int kind = 0; kind < KINDS; kind++) {
		std::string w = want(m, kind, in, U8, ""), f = want(m, kind, in, U8, "one"), w2 = want(m, kind, in, FORCED, ""), f2 = want(m, kind, in, BOM, "wide"); bool hit = found(m, kind, in);
		std::vector<std::string> ka; if (*KA[kind]) ka.push_back(KA[kind]);
		auto with = [&](std::vector<std::string> a) { a.insert(kind % 2 ? a.begin() : a.end(), ka.begin(), ka.end()); return a; };
		expect(with({"-e", t, "-s", s}), w, hit); expect(with({"-e", t}), w, hit, &s); expect(with({"-e", t}), w, hit, &s, s.size() > 2); expect(with({"-e", t, "-16"}), w2, hit, &u); expect(with({"-e", t}), w2, hit, &b);
		expect(with({"-e", t, "one"}), f, hit); expect(with({"one", "-e", t, "wide", "one"}), f + f2 + f, hit); expect(with({"-16", "-e", t, "wide"}), f2, hit);
		if (s.size() && s[0] != '-' && s != "one" && s != "wide" && s.find('/') == s.npos) { tool::spit(s, "ab\nba"); expect(with({"-e", t, "-s", s}), w, hit); unlink(s.c_str()); }
		expect(with({"-q", "-e", t, "one"}), "", hit);
		vh::eval(9); vh::distinct(vh::hstr(w + f2));
	}
	// several patterns: the last one counts, the others are its rules; an expression without a name
	if (g.r.size() > 1) {
		Grammar a; a.r.assign(g.r.begin(), g.r.end() - 1); std::string last = text(g).substr(text(a).size()), body = last.substr(last.find("::= ") + 4); tool::spit("gram", text(a));
		std::string w = want(m, SCAN, in, U8, ""); bool hit = found(m, SCAN, in);
		expect({"-e", text(a), "-e", last, "-s", s}, w, hit); expect({"-e", last, "-f", "gram", "-s", s}, w, hit); expect({"-s", s, "-e", text(a), "-e", body}, w, hit);
	}
}
static void sized(size_t n, int v)
{
	static Grammar g{{{"S", node(SEQ, {chr('a'), chr('b')})}}}; Model m(g); uint64_t h = n;
	for (int kind = 0; kind < 3; kind++) for (int where = 0; where < 4; where++) {
		In in(n, kind == 1 ? '\n' : '.'); if (kind == 2) for (size_t i = 15; i < n; i += 16) in[i] = '\n';
		auto put = [&](size_t p) { if (p + 2 <= n) { in[p] = 'a'; in[p + 1] = 'b'; } };
		if (where == 1) put(0); if (where >= 2 && n >= 2) put(n - 2); if (where == 3) for (size_t p = 125; p + 2 <= n; p += 128) put(p);
		std::string s = bytes(in, v); bool hit = found(m, SCAN, in); if (where == 1) tool::spit("sized", s);
		for (int k : {SCAN, LINES}) {
			std::string w = want(m, k, in, v, ""), f = want(m, k, in, v, "sized");
			std::vector<std::string> a{"-e", "S ::= 'a' 'b'\n"}; if (k) a.push_back("-l"); if (v == FORCED) a.push_back("-16"); if (v == BYTES) a.push_back("-b");
			vh::note("%zu characters, filler %d, places %d, view %d", n, kind, where, v);
			expect(a, w, hit, &s); if (where == 1) { a.push_back("sized"); expect(a, f, hit); }
			h = vh::mix(h, w.size()); vh::eval();
		}
	}
	vh::distinct(h);
}
static void refused(const std::string &x, int form)
{
	tool::spit("one", "ab(*\n"); tool::spit("gram", x);
	std::vector<std::vector<std::string>> v{{"-e", x, "one"}, {"-e", "A ::= 'a'\n", "-e", x, "one"}, {"-e", x, "-e", "A ::= 'a'\n", "-l", "one"}, {"-f", "gram", "one"}, {"-p", "-e", x, "-s", "ab"}, {"-e", x}};
	Out o = tool::run(v[form]); bool says = o.s.find("ERROR") != o.s.npos && o.s.find('\n') == o.s.size() - 1;
	if (!says || o.ret != 2) vh::fail("rpagrep %s prints '%s', exit status %d", line(v[form]).c_str(), vh::esc(o.s).c_str(), o.ret);
	vh::eval(); vh::distinct(vh::mix(vh::hstr(x), form));
}
static void unresolved(int form)
{
	tool::spit("one", "ab\n"); std::vector<std::vector<std::string>> v{{"-e", "S ::= 'a' <Q>\n", "one"}, {"-e", "<Q>", "one"}, {"-e", "T ::= <S>\n", "-e", "S ::= 'a' <Q>\n", "-p", "one"}};
	Out o = tool::run(v[form]); if (o.s != "ERROR: Unresolved Symbol: Q\n" || o.ret == 0) vh::fail("rpagrep %s prints '%s', exit status %d", line(v[form]).c_str(), vh::esc(o.s).c_str(), o.ret);
	vh::eval(); vh::distinct(form);
}
// ---- directories
struct Ent { std::string name; bool dir; std::vector<Ent> kid; };
static void mk(const std::string &at, const std::vector<Ent> &v, std::vector<std::pair<std::string, std::string>> &fs, bool hidden, int &n)
{
	for (auto &e : v) {
		std::string p = at + "/" + e.name;
		if (e.dir) { mkdir(p.c_str(), 0777); mk(p, e.kid, fs, hidden || e.name[0] == '.', n); }
		else { std::string t = n % 3 == 2 ? "xx\n" : "c" + std::string(n + 1, 'a') + "\nb"; n++; tool::spit(p, t); if (!hidden && t[0] == 'c') fs.push_back({p, t}); }
	}
}
static void rmtree(const std::string &at, const std::vector<Ent> &v) { for (auto &e : v) { std::string p = at + "/" + e.name; if (e.dir) { rmtree(p, e.kid); rmdir(p.c_str()); } else unlink(p.c_str()); } }
static std::string showtree(const std::vector<Ent> &v) { std::string s; for (auto &e : v) s += e.name + (e.dir ? "{" + showtree(e.kid) + "}" : "") + " "; return s; }
static std::vector<std::vector<Ent>> trees(int size)
{
	static std::map<int, std::vector<std::vector<Ent>>> memo; auto it = memo.find(size); if (it != memo.end()) return it->second;
	std::vector<std::vector<Ent>> out; if (!size) { out.push_back({}); return memo[0] = out; }
	static const char *FN[] = {"f", "g", ".h", "i"}, *DN[] = {"d", ".e", "dd", "f.d"};
	for (auto &rest : trees(size - 1)) { auto v = rest; int k = 0; for (auto &e : rest) k += !e.dir; if (k < 3 && (rest.empty() || !rest.back().dir)) { v.push_back({FN[k], false, {}}); out.push_back(v); } }
	for (int k = 0; k < size; k++) for (auto &sub : trees(k)) for (auto &rest : trees(size - 1 - k)) { auto v = rest; int d = 0; for (auto &e : rest) d += e.dir; if (d < 3) { v.push_back({DN[d], true, sub}); out.push_back(v); } }
	return memo[size] = out;
}
static std::vector<std::vector<Ent>> tr;
static void dirs(const std::vector<Ent> &v)
{
	std::vector<std::pair<std::string, std::string>> fs; int n = 0; rmtree("top", v); mkdir("top", 0777); mk("top", v, fs, false, n);
	for (int form = 0; form < 4; form++) {
		std::string root = form == 0 ? "top" : form == 1 ? "top/" : form == 2 ? "./top" : tool::dir + "/top", pre = form == 1 ? "top" : root;
		Out o = tool::run({"-e", "S ::= 'a'+\n", root}); std::string s = o.s;
		std::vector<std::string> left; for (auto &f : fs) left.push_back(pre + f.first.substr(3) + ":\n" + f.second.substr(1, f.second.find('\n')));
		while (s.size()) { bool ok = false; for (size_t i = 0; i < left.size() && !ok; i++) if (!s.compare(0, left[i].size(), left[i])) { s.erase(0, left[i].size()); left.erase(left.begin() + i); ok = true; } if (!ok) vh::fail("directory %s: prints %s", root.c_str(), vh::esc(o.s).c_str()); }
		if (left.size()) vh::fail("directory %s: '%s' is missing in %s", root.c_str(), vh::esc(left[0]).c_str(), vh::esc(o.s).c_str());
		if (o.ret != (fs.empty() ? 1 : 0)) vh::fail("directory %s: exit status %d", root.c_str(), o.ret);
		vh::eval(); vh::distinct(vh::hstr(o.s));
	}
	rmtree("top", v); rmdir("top");
}
static std::vector<Grammar> g1, g2; static std::vector<In> ones;
static void setup()
{
	bool T = vh::thorough;
	vh::worker_init = []() { tool::setup(); written.clear(); };
	vh::case_timeout = 120;
	auto mkset = [&](const std::vector<uint32_t> &al, unsigned len) { std::vector<In> v; for (uint64_t i = 0; i < vh::nstrings(al.size(), len); i++) { In s; for (int c : vh::nthstring(i, al.size())) s.push_back(al[c]); v.push_back(s); } texts.push_back(v); return texts.size() - 1; };
	size_t s0 = mkset({'a', 'B', '\n'}, T ? 5 : 3), s1 = mkset({'a', 0xe9, 0x20ac, 0x10000, '\n', 0x010a, 0x0a0a}, T ? 3 : 2);
	{ Gen *x = new Gen; x->leaves = {chr('a'), any(), cls("[ab]", {{'a', 'b'}}), cls("[#xa]", {{'\n', '\n'}})}; for (PP p : x->upto(3)) g1.push_back({{{"S", p}}}); }
	{ Gen *x = new Gen; x->leaves = {chr('a'), chr('b'), ref(1)}; Gen *y = new Gen; y->leaves = {chr('a'), chr('b'), ref(0)}; std::vector<PP> xs = x->upto(2), ys = y->upto(3); for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < ys.size(); j++) if (T || (i + j) % 6 == 0) { Grammar g{{{"S", xs[i]}, {"A", ys[j]}}}; Model m(g); if (!m.anyleft()) g1.push_back(g); } }
	{ Gen *x = new Gen; x->leaves = {chr('a'), cls("[#xe9]", {{0xe9, 0xe9}}), cls("[#x20ac-#x10ffff]", {{0x20ac, 0x10ffff}}), any(), cls("[#x10a]", {{0x10a, 0x10a}})}; for (PP p : x->upto(T ? 3 : 2)) g2.push_back({{{"S", p}}}); }
	vh::families.push_back({"grammars", g1.size() * 2, [s0](uint64_t i) { onset(g1[i / 2], s0, i % 2 ? (i / 2 % 2 ? FORCED : BOM) : (i / 2 % 2 ? U8 : BYTES), i / 2); }, [](uint64_t i) { return text(g1[i / 2]); }, 2});
	vh::families.push_back({"wide characters", g2.size() * 3, [s1](uint64_t i) { static const int V[] = {U8, BOM, FORCED}; onset(g2[i / 3], s1, V[i % 3], i / 3); }, [](uint64_t i) { return text(g2[i / 3]); }, 2});
	static std::vector<Grammar> gs = {{{{"S", node(SEQ, {chr('a'), chr('b')})}}}, {{{"A", withq(cls("[ab]", {{'a', 'b'}}), '+')}, {"S", node(SEQ, {ref(0), cls("[#xa]", {{'\n', '\n'}})})}}}, {{{"A", chr('a')}, {"B", withq(ref(0), '+')}, {"S", node(ALT, {node(SEQ, {ref(1), chr('b')}), any()})}}}, {{{"A", chr('b')}, {"S", node(NOT, {ref(0)})}}}};
	for (uint64_t i = 0; i < vh::nstrings(4, T ? 4 : 3); i++) { static const uint32_t al[] = {'a', 'b', '\n', 0xe9}; In s; for (int c : vh::nthstring(i, 4)) s.push_back(al[c]); ones.push_back(s); }
	vh::families.push_back({"one text", gs.size() * ones.size(), [](uint64_t i) { single(gs[i % gs.size()], ones[i / gs.size()]); }, [](uint64_t i) { return text(gs[i % gs.size()]) + " on '" + vh::esc(utf8(ones[i / gs.size()])) + "'"; }, 4});
	static std::vector<size_t> sizes; for (size_t n = 0; n <= 1100; n++) if (T || n < 20 || (n + 10) % 128 < 20) sizes.push_back(n); for (size_t n : {2047u, 2048u, 2049u, 4095u, 4096u, 4097u, 8191u, 8192u, 8193u}) sizes.push_back(n);
	vh::families.push_back({"sizes", sizes.size() * 3, [](uint64_t i) { static const int V[] = {U8, BYTES, FORCED}; sized(sizes[i / 3], V[i % 3]); }, [](uint64_t i) { return std::to_string(sizes[i / 3]) + " characters"; }, 8});
	static const std::vector<std::string> bad = {"S ::= (\n", "S ::= 'a\n", "S ::= )\n", "S ::= [a\n", "S ::= 'a' |\n", "S ::= <A\n", "S ::= 'a'\nT ::= 'b' )\n", "S ::= 'a' - \n", "'a", "(", "S ::= 'a'\n)"};
	vh::families.push_back({"refused", bad.size() * 6, [](uint64_t i) { refused(bad[i / 6], i % 6); }, [](uint64_t i) { return bad[i / 6]; }, 2});
	vh::families.push_back({"unresolved", 3, [](uint64_t i) { unresolved(i); }, [](uint64_t i) { return std::to_string(i); }, 1});
	for (int k = 0; k <= (T ? 5 : 4); k++) for (auto &x : trees(k)) tr.push_back(x);
	vh::families.push_back({"directories", tr.size(), [](uint64_t i) { dirs(tr[i]); }, [](uint64_t i) { return showtree(tr[i]); }, 8});
	vh::families.push_back({"real mappings", 8, [s0](uint64_t i) { tool_rawmap = true; onset(g1[i * 11], s0, i % 2 ? BOM : U8, i); tool_rawmap = false; }, [](uint64_t i) { return text(g1[i * 11]); }, 1});
}
// with the address sanitizer every matcher costs milliseconds: there a part of each family is run, all of it in the plain build
static void thin()
{
#ifdef __SANITIZE_ADDRESS__
	for (auto &f : vh::families) {
		uint64_t by = f.name == "grammars" ? 48 : f.name == "one text" || f.name == "sizes" ? 6 : f.name == "wide characters" ? 4 : 1;
		if (by == 1) continue;
		auto run = f.run; auto d = f.describe; uint64_t n = f.count; f.count = (n + by - 1) / by;
		f.run = [run, by, n](uint64_t i) { run(std::min(n - 1, i * by + i % by)); }; f.describe = [d, by, n](uint64_t i) { return d(std::min(n - 1, i * by + i % by)); };
	}
#endif
}
static void setup2() { setup(); thin(); }
int main(int c, char **v) { return vh::main(c, v, setup2); }
