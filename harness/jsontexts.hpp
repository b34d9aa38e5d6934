// The texts both JSON readers are run on.
#pragma once
#include "vh.hpp"
// token sequences
static const std::vector<std::string> toks = {"{", "}", "[", "]", ",", ":", "\"\"", "\"k\"", "1", "-2.5e+3", "true", "false", "null", " ", "x", "\"\\u00e9\\n\"", "01", "-", std::string("\0", 1), "\n\t"};
static const std::vector<std::string> toks2 = {"{", "}", "[", "]", ",", ":", "\"k\"", "1", " "};
// number characters and contexts
static const std::string numc = "-+0129.eE";
static const std::vector<std::pair<std::string, std::string>> ctxs = {{"", ""}, {"[", "]"}, {"{\"a\":", "}"}, {" [1, ", ",2] "}};
// characters inside of strings
static const std::vector<std::string> strc = {"\"", "\\", "/", "b", "u", "0", "f", "F", "g", "n", std::string("\0", 1), "\x1f", " ", "\x7f", "\x80", "\xff", "[", "]", "^"};
static const std::vector<std::string> words = {"t", "r", "u", "e", "f", "a", "l", "s", "n", "T", ","};

// all JSON trees with up to n nodes, by ranks: tree(n) = primitive | array of trees | object of trees
static std::vector<std::vector<std::string>> trees;   // trees[n]: texts with exactly n nodes
static void gentrees(int n)
{
	static const char *prim[] = {"7", "\"s\"", "null", "false", "-0.5"};
	trees.resize(n + 1);
	for (int k = 1; k <= n; k++) {
		std::vector<std::string> &t = trees[k];
		if (k == 1) for (auto p : prim) t.push_back(p);
		// sequences of trees with k-1 nodes in total
		std::vector<std::vector<std::string>> seqs[2];
		std::function<void(int, std::string, std::string, int)> rec = [&](int left, std::string a, std::string o, int cnt) {
			if (!left) { t.push_back("[" + a + "]"); t.push_back("{ " + o + " }"); return; }
			for (int m = 1; m <= left; m++) for (size_t q = 0; q < trees[m].size(); q += (m > 1 || k < 4 ? 1 : 2)) {
				std::string key = cnt == 0 ? "\"a\"" : cnt == 1 ? "\"\\u0041b\"" : "\"\"";
				rec(left - m, a + (cnt ? "," : "") + trees[m][q], o + (cnt ? " , " : "") + key + " : " + trees[m][q], cnt + 1);
			}
		};
		rec(k - 1, "", "", 0);
	}
}
static std::vector<std::string> docs;
static int ntok, ntok2, nnum, nstr, nword;
static std::string numtext(uint64_t i) { vh::Idx x(i); auto c = ctxs[x.take(ctxs.size())]; return c.first + vh::nthtext(x.v, numc) + c.second; }
static std::string strtext(uint64_t i) { vh::Idx x(i); int c = x.take(3); std::string b = "\"" + vh::nthtext(x.v, strc) + "\""; return c == 0 ? b : c == 1 ? "{" + b + ":1}" : "[" + b + ",0]"; }
static std::string bytetext(uint64_t i) { static const std::vector<std::pair<std::string, std::string>> c = {{"", ""}, {"\"", "\""}, {"[", "]"}, {"\"\\", "\""}, {"1", ""}, {"{\"", "\":null}"}, {"\"\\u00", "\""}}; vh::Idx x(i); auto &q = c[x.take(c.size())]; std::string s; if (x.v < 256) s += (char)x.v; else { x.v -= 256; s += (char)x.v; s += (char)(x.v >> 8); } return q.first + s + q.second; }
static std::string wordtext(uint64_t i) { return "[" + vh::nthtext(i, words) + "]"; }


// long texts: many elements, members, digits, characters, escapes, blanks, levels
static const int lsz[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 99, 100, 101, 126, 127, 128, 129, 130, 150, 190};
static const int LSZ = sizeof lsz / sizeof *lsz, LSH = 22;
static std::string longtext(uint64_t i)
{
	int n = lsz[i % LSZ]; std::string s; auto rep = [&](const std::string &x, int k) { std::string r; while (k-- > 0) r += x; return r; };
	auto seq = [&](std::function<std::string(int)> f) { std::string r; for (int k = 0; k < n; k++) r += (k ? "," : "") + f(k); return r; };
	switch (i / LSZ) {
	case 0: return "[" + seq([](int k) { return std::to_string(k * 37); }) + "]";
	case 1: return "{" + seq([](int k) { return "\"m" + std::to_string(k * 7 % 1000) + "\":" + std::to_string(k); }) + "}";
	case 2: return "{" + seq([](int k) { return std::string(k & 1 ? "\"a\":" : "\"b\":") + std::to_string(k); }) + "}";
	case 3: return "[" + seq([](int k) { return std::string(k % 3 == 0 ? "[]" : k % 3 == 1 ? "{\"x\":[1]}" : "\"\""); }) + "]";
	case 4: return "\"" + rep("x", n) + "\"";
	case 5: return "[\"" + rep("\\n", n) + "\"]";
	case 6: return "{\"" + rep("\\u00e9", n) + "\":1}";
	case 7: return "\"" + rep("\xc3\xa9", n) + "\"";
	case 8: return "[0." + rep("25", n) + "]";
	case 9: return "[" + rep("1", std::min(n, 18)) + "]";
	case 10: return "[1" + rep(" ", n) + "," + rep("\n", n) + "2" + rep("\t", n) + "]";
	case 11: return rep(" ", n) + "{" + rep("\r\n", n) + "\"a\"" + rep(" ", n) + ":" + rep(" ", n) + "null" + rep(" ", n) + "}";
	case 12: { std::string r = "0"; for (int k = 0; k < std::min(n, 45); k++) r = k & 1 ? "[" + r + "," + std::to_string(k) + "]" : "{\"l" + std::to_string(k) + "\":" + r + ",\"t\":[]}"; return r; }
	case 13: return "{\"" + rep("k", n) + "\":\"" + rep("v", n) + "\",\"" + rep("k", n - 1) + "\":2}";
	case 14: return "[" + seq([](int k) { return std::string(k & 1 ? "true" : k & 2 ? "false" : "null"); }) + "]";
	case 15: return "[" + seq([](int k) { return "\"" + std::string(k % 20, 's') + "\""; }) + "]";
	case 16: return "[-" + rep("0", 1) + "." + rep("0", n) + "5]";
	case 17: return "[" + rep("[],", n) + "[]]";
	case 18: return "[" + rep("[1,[2]],", n / 2) + "{}]";
	case 19: return "\"" + rep("\\ud83d\\ude00", n / 2 + 1) + "\"";
	case 20: return "\"" + rep("ab\\\"", n / 2 + 1) + "\"";
	case 21: return "[1e-" + rep("0", n) + "3]";
	}
	return s;
}
static void addtexts(std::function<void(const std::string &, bool)> text, bool big)
{
	ntok = vh::thorough ? (big ? 6 : 5) : 4; ntok2 = vh::thorough ? (big ? 8 : 7) : (big ? 7 : 6); nnum = vh::thorough ? 7 : 5; nstr = vh::thorough ? (big ? 6 : 5) : 4; nword = vh::thorough ? 6 : 5;
	gentrees(vh::thorough ? 6 : 5);
	for (auto &v : trees) for (auto &s : v) docs.push_back(s);
	auto add = [&](const char *n, uint64_t c, std::function<std::string(uint64_t)> g, bool trunc) {
		vh::Family f; f.name = n; f.count = c; f.chunk = 256; f.run = [g, trunc, text](uint64_t i) { text(g(i), trunc); }; f.describe = [g](uint64_t i) { return g(i); }; vh::families.push_back(f); };
	add("token-sequences", vh::nstrings(toks.size(), ntok), [](uint64_t i) { return vh::nthtext(i, toks); }, false);
	add("structures", vh::nstrings(toks2.size(), ntok2), [](uint64_t i) { return vh::nthtext(i, toks2); }, false);
	add("numbers", vh::nstrings(numc.size(), nnum) * ctxs.size(), numtext, false);
	add("string-bodies", vh::nstrings(strc.size(), nstr) * 3, strtext, false);
	add("all-bytes", (256 + 65536) * 7, bytetext, false);
	add("words", vh::nstrings(words.size(), nword), wordtext, false);
	add("documents-and-their-prefixes", docs.size(), [](uint64_t i) { return docs[i]; }, true);
	add("long", LSZ * LSH, longtext, true); vh::families.back().chunk = 4;
	add("deep", 200, [](uint64_t i) { std::string o, c; int n = i / 2 + 1; for (int k = 0; k < n; k++) { o += i % 2 ? "{\"d\":" : "["; c += i % 2 ? "}" : "]"; } return o + "1" + c; }, true);
}
