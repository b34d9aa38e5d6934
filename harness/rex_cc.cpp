// R05: tables exported by rexcc: every token file of the stated shapes is run through the real generator, the generated C is compiled and loaded, and the table is
// walked with the macros of its own header over every input up to the bounds, against the reference matcher and the in-memory automaton.
#include "vh.hpp"
#include "rexmodel.hpp"
#include <algorithm>
#include <array>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <spawn.h>
extern "C" {
#include "rlib/rmem.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
}
using namespace rm;
extern char **environ;

struct Tok { std::string id; unsigned long val; P ex; bool str = false; };            // str: the identifier is a C string literal with the contents of `id` (between quotes)
struct File { std::string text, pro, epi; std::vector<Tok> toks; int in = 0; bool ok = true, mem = true; bool sub = false; const char *bad = ""; };
static std::vector<std::vector<Text>> INS;
static std::string DIR, RXCC, TMP;

static std::string slurp(const std::string &f) { std::string s; FILE *p = fopen(f.c_str(), "rb"); if (!p) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static void spit(const std::string &f, const std::string &s) { FILE *p = fopen(f.c_str(), "wb"); if (!p || fwrite(s.data(), 1, s.size(), p) != s.size()) { perror(f.c_str()); _exit(2); } fclose(p); }
// run a program, standard output to `out`, standard error to `err`; returns the wait status
static int run(const std::vector<std::string> &av, const std::string &out, const std::string &err)
{
	std::vector<char *> a; for (auto &s : av) a.push_back((char *)s.c_str()); a.push_back(nullptr);
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
	posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	pid_t pid; int st = -1;
	if (posix_spawnp(&pid, a[0], &fa, nullptr, a.data(), environ) != 0) { perror(a[0]); _exit(2); }
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	posix_spawn_file_actions_destroy(&fa);
	return st;
}
// one run of the generator; the second puts the same options elsewhere on the command line and writes to the standard output
static std::string generate(const File &f, const std::string &base, bool second)
{
	std::string tf = base + ".rexcc", of = base + ".c", o2 = base + ".out";
	std::vector<std::string> av = {RXCC};
	if (!second) { spit(tf, f.text); unlink(of.c_str()); av.insert(av.end(), {tf, "-o", of}); if (f.sub) av.push_back("-s"); }
	else { if (f.sub) av.push_back("-s"); av.push_back(tf); }
	int st = run(av, o2, base + ".err");
	VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 66, "rexcc died (status %x) on '%s': %s", st, vh::esc(f.text).c_str(), slurp(base + ".err").substr(0, 900).c_str());
	return slurp(second ? o2 : of);
}

static void walk(const File &f, rexdfa_t *d, uint64_t &h)
{
	// in-memory automaton of the same expressions
	rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA); long start = -1;
	for (size_t k = 0; f.mem && k < f.toks.size(); k++) { start = rex_db_addexpression(nfa, start, f.toks[k].ex->s.c_str(), f.toks[k].ex->s.size(), k); VH_CHECK(start >= 0, "expression '%s' refused in memory", f.toks[k].ex->s.c_str()); }
	rexdb_t *db = f.mem ? rex_db_createdfa(nfa, start) : nullptr; rexdfa_t *m = db ? rex_db_todfa(db, 0) : d;
	VH_CHECK(m, "no in-memory automaton");
	std::string what = "token file '" + vh::esc(f.text) + "'";
	VH_CHECK(d->nstates >= 2 && d->states[0].type == REX_STATETYPE_DEAD, "%s: the exported table has no dead state", what.c_str());
	for (rexuint_t s = 0; s < d->nstates; s++) {
		rexdfs_t *st = REX_DFA_STATE(d, s);
		VH_CHECK((uint64_t)st->trans + st->ntrans <= d->ntrans && (uint64_t)st->accsubstates + st->naccsubstates <= d->naccsubstates && (!f.sub || (uint64_t)st->substates + st->nsubstates <= d->nsubstates), "%s: state %u refers past the end of the tables", what.c_str(), s);
		uint64_t next = 0;
		for (rexuint_t k = 0; k < st->ntrans; k++) { rexdft_t *x = REX_DFA_TRANSITION(d, s, k); VH_CHECK(x->lowin == next && x->highin >= x->lowin && x->state < d->nstates, "%s: state %u transition %u is [%u,%u]->%u", what.c_str(), s, k, x->lowin, x->highin, x->state); next = (uint64_t)x->highin + 1; }
		VH_CHECK(next == 1ull << 32, "%s: transitions of state %u stop at %llu", what.c_str(), s, (unsigned long long)next);
		if (f.sub && s) {
			VH_CHECK(d->substates && st->nsubstates > 0, "%s: no sub-states exported with -s for state %u", what.c_str(), s);
			std::vector<std::pair<rexuint_t, rexuserdata_t>> a, b;
			for (rexuint_t k = 0; k < st->nsubstates; k++) { rexdfss_t *x = REX_DFA_SUBSTATE(d, s, k); if (x->type == REX_STATETYPE_ACCEPT) a.push_back({x->uid, x->userdata}); }
			for (rexuint_t k = 0; k < st->naccsubstates; k++) { rexdfss_t *x = REX_DFA_ACCSUBSTATE(d, s, k); b.push_back({x->uid, x->userdata}); }
			std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
			// string literals may be two copies
			bool same = a.size() == b.size();
			for (size_t k = 0; same && k < a.size(); k++) if (a[k].first != b[k].first || (a[k].second != b[k].second && strcmp((char *)a[k].second, (char *)b[k].second))) same = false;
			VH_CHECK(same, "%s: state %u has accepting sub-states in -s output that differ from its accepting list", what.c_str(), s);
		}
	}
	for (const Text &t : INS[f.in]) {
		if (t.empty()) continue;
		rexuint_t ns = REX_DFA_STARTSTATE, ms = REX_DFA_STARTSTATE;
		std::vector<uint32_t> e; for (auto &k : f.toks) e.push_back(ends(k.ex, t, 1));
		for (size_t i = 0; i < t.size(); i++) {
			uint32_t in = t[i]; REX_DFA_NEXT(d, ns, in, &ns); REX_DFA_NEXT(m, ms, in, &ms);
			if (!ns) { for (auto x : e) VH_CHECK(!(x >> (i + 1)), "%s, input '%s': the exported table is dead after %zu characters although an expression matches more", what.c_str(), vh::esc(utf8(t)).c_str(), i + 1); break; }
			std::vector<size_t> want; for (size_t k = 0; k < e.size(); k++) if (e[k] >> (i + 1) & 1) want.push_back(k);
			rexdfs_t *st = REX_DFA_STATE(d, ns);
			VH_CHECK((st->type == REX_STATETYPE_ACCEPT) == !want.empty(), "%s, input '%s': after %zu characters accepted=%d but %zu expressions match", what.c_str(), vh::esc(utf8(t)).c_str(), i + 1, st->type == REX_STATETYPE_ACCEPT, want.size());
			VH_CHECK((REX_DFA_STATE(m, ms)->type == REX_STATETYPE_ACCEPT) == !want.empty(), "%s, input '%s': the in-memory automaton disagrees", what.c_str(), vh::esc(utf8(t)).c_str());
			VH_CHECK(st->naccsubstates == want.size(), "%s, input '%s': %u tokens listed, %zu expressions match", what.c_str(), vh::esc(utf8(t)).c_str(), st->naccsubstates, want.size());
			for (size_t k = 0; k < want.size(); k++) {
				rexdfss_t *a = REX_DFA_ACCSUBSTATE(d, ns, k); const Tok &w = f.toks[want[k]];
				VH_CHECK(a && a->type == REX_STATETYPE_ACCEPT, "%s: accepting entry missing", what.c_str());
				if (w.str) VH_CHECK(a->userdata > 4096 && w.id == (const char *)a->userdata, "%s, input '%s': token number %zu is not the string \"%s\"", what.c_str(), vh::esc(utf8(t)).c_str(), k, w.id.c_str());
				else VH_CHECK(a->userdata == w.val, "%s, input '%s': after %zu characters entry %zu is token %lu, expected %lu", what.c_str(), vh::esc(utf8(t)).c_str(), i + 1, k, (unsigned long)a->userdata, w.val);
			}
			h = vh::mix(h, want.size() * 8 + (want.empty() ? 7 : want[0] & 7));
		}
		h = vh::mix(h, ns == 0);
	}
	vh::eval(INS[f.in].size()); vh::traces(INS[f.in].size() * 2); vh::steps(d->ntrans);
	vh::distinct(h);
	if (db) { rex_dfa_destroy(m); rex_db_destroy(db); }
	rex_db_destroy(nfa);
}

static void batch(const std::vector<File> &fs, const std::string &tag)
{
	std::string base = TMP + "/w" + std::to_string(getpid()) + "_" + tag;
	std::string tu = "#include <stddef.h>\n#include \"rex/rexdfa.h\"\nenum { T1 = 301, T2 = 302, T3 = 303, T4 = 304, T5 = 305 };\n", list;
	std::vector<std::string> outs, trash; std::vector<int> idx(fs.size(), -1); int n = 0;
	for (size_t i = 0; i < fs.size(); i++) {
		std::string b = base + "_" + std::to_string(i);
		for (auto x : {".rexcc", ".c", ".out", ".err"}) trash.push_back(b + x);
		std::string o = generate(fs[i], b, false), said = slurp(b + ".out"), o2 = generate(fs[i], b, true);
		if (!fs[i].ok) {
			VH_CHECK(o.find("ccdfa") == std::string::npos, "token file '%s' (%s) gave a table", vh::esc(fs[i].text).c_str(), fs[i].bad);
			vh::eval(2); vh::distinct(vh::hstr(fs[i].text) ^ 0x55);
			continue;
		}
		VH_CHECK(o.find("ccdfa") != std::string::npos, "token file '%s' gave no table: %s", vh::esc(fs[i].text).c_str(), said.substr(0, 300).c_str());
		VH_CHECK(o == o2, "token file '%s': two runs wrote different tables", vh::esc(fs[i].text).c_str());
		size_t p = o.find(fs[i].pro), q = o.find("ccdfa");
		VH_CHECK(fs[i].pro.empty() || p < q, "token file '%s': the prolog is not in front of the table", vh::esc(fs[i].text).c_str());
		VH_CHECK(o.size() >= fs[i].epi.size() && o.compare(o.size() - fs[i].epi.size(), fs[i].epi.size(), fs[i].epi) == 0, "token file '%s': the epilog is not at the end", vh::esc(fs[i].text).c_str());
		VH_CHECK(fs[i].pro.empty() || o.find(fs[i].pro) != std::string::npos, "token file '%s': the prolog was not copied", vh::esc(fs[i].text).c_str());
		idx[i] = n++;
		tu += "rexdfa_t *tb" + std::to_string(i) + "(void) {\n#include \"" + b + ".c\"\n\nreturn &ccdfa; }\n";
	}
	if (n) {
		std::string cf = base + ".tu.c", so = base + ".so";
		trash.insert(trash.end(), {cf, so, base + ".ccout", base + ".ccerr"});
		spit(cf, tu);
		int st = run({"gcc", "-std=gnu11", "-O0", "-w", "-fPIC", "-shared", "-I" REPO, "-I" REPO "/arch/unix", "-I" REPO "/rex", cf, "-o", so}, base + ".ccout", base + ".ccerr");
		VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "generated tables do not compile: %s", slurp(base + ".ccerr").substr(0, 700).c_str());
		void *dl = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
		VH_CHECK(dl, "cannot load the generated tables: %s", dlerror());
		for (size_t i = 0; i < fs.size(); i++) if (idx[i] >= 0) {
			auto fn = (rexdfa_t * (*)()) dlsym(dl, ("tb" + std::to_string(i)).c_str());
			VH_CHECK(fn, "table missing");
			uint64_t h = 17; walk(fs[i], fn(), h);
		}
		dlclose(dl);
	}
	for (auto &x : trash) unlink(x.c_str());
}

static std::string line(const Tok &t, const std::string &sep = "\t", const std::string &eol = "\n") { return (t.str ? "\"" + t.id + "\"" : t.id) + sep + t.ex->s + eol; }
static File plain(const std::vector<P> &ex, bool sub = false, int in = 0)
{
	File f; f.sub = sub; f.in = in; f.pro = "#include \"rex/rexdfa.h\"\n"; f.epi = "rexdfa_t *dfa = &ccdfa;\n";
	static const std::pair<const char *, unsigned long> IDS[] = {{"T1", 301}, {"T2", 302}, {"3", 3}, {"T4", 304}, {"(T5+1)", 306}, {"-1", ~0ul}, {"0x10", 16}};
	f.text = f.pro + "%%\n";
	for (size_t k = 0; k < ex.size(); k++) { Tok t; t.id = IDS[k % 7].first; t.val = IDS[k % 7].second; t.ex = ex[k]; f.toks.push_back(t); f.text += line(t); }
	f.text += "%%\n" + f.epi;
	return f;
}
static void family(const char *name, std::vector<File> fs, size_t per = 32)
{
	auto v = std::make_shared<std::vector<File>>(std::move(fs));
	uint64_t n = (v->size() + per - 1) / per; std::string nm = name;
	vh::families.push_back({nm, n, [v, per, nm](uint64_t i) { batch(std::vector<File>(v->begin() + i * per, v->begin() + std::min(v->size(), (i + 1) * per)), nm + std::to_string(i)); },
		[v, per](uint64_t i) { return "token files " + std::to_string(i * per) + ".. starting with '" + vh::esc((*v)[i * per].text).substr(0, 300) + "'"; }, 1});
}

static void setup()
{
	bool th = vh::thorough;
	char b[4096]; ssize_t r = readlink("/proc/self/exe", b, sizeof b - 1); b[r > 0 ? r : 0] = 0; DIR = b; DIR = DIR.substr(0, DIR.rfind('/')); RXCC = DIR + "/rexcc";
	const char *t = getenv("VH_TMP"); TMP = t ? t : "/tmp";
	setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=66:allocator_may_return_null=1", 1);
	// inputs: 0 = all strings over a b d up to a length, plus large characters
	std::vector<Text> I;
	for (uint64_t i = 0; i < vh::nstrings(3, th ? 7 : 6); i++) { Text x; for (int c : vh::nthstring(i, 3)) x.push_back("abd"[c]); I.push_back(x); }
	for (uint32_t c : {0x1fffu, 0x20acu, 0xffffu, 0x10000u, 0x10ffffu, 0x61u, 0x65u, 0u, 10u, 9u, 32u, 0x27u, 0x22u, 0x5cu, 0x5du, 0xffffffffu, 0x80000000u}) for (uint32_t d : {0x61u, 0x62u, 0xe9u}) { I.push_back({c, d}); I.push_back({d, c}); I.push_back({c}); }
	INS.push_back(I);

	std::vector<P> A = {ch('a'), ch('b'), any(), atom("[ab]", {{'a', 'b'}}), atom("[^a]", {{'a', 'a'}}, true), atom("[b-d]", {{'b', 'd'}}), atom("[#0x62-#xffff]", {{0x62, 0xffff}}), uch(0x20ac), atom("[#x10000-#x10ffff]", {{0x10000, 0x10ffff}}), atom("\\t", {{9, 9}}), atom("[ ]", {{32, 32}}), atom("\\ ", {{32, 32}})};
	auto all = exprs(false);
	std::vector<File> v;
	for (auto &x : A) v.push_back(plain({x}));
	size_t step = th ? 2 : 11;
	for (size_t i = 0; i < all.size(); i += step) v.push_back(plain({all[i]}, i % 2));
	family("one expression", v);
	std::vector<P> E2;
	for (auto &x : quant({A[0], A[1], A[2], A[3], A[4], A[6]}, RMQ(QTINY))) E2.push_back(x);
	for (auto &x : {A[0], A[1]}) for (auto &y : {A[0], A[1], A[3]}) { E2.push_back(cat(x, y)); E2.push_back(alt(x, y)); }
	E2.push_back(rep(A[0], 2, 3, "{2,3}")); E2.push_back(q(cat(A[0], A[1]), QTINY[3])); E2.push_back(cat(q(alt(A[0], A[1]), QTINY[1]), A[0]));
	v.clear();
	for (size_t i = 0; i < E2.size(); i++) for (size_t j = 0; j < E2.size(); j++) v.push_back(plain({E2[i], E2[j]}, (i + j) % 2));
	family("two expressions", v);
	std::vector<P> E3 = {A[0], A[1], A[2], A[3], A[4], q(A[0], QTINY[1]), q(A[3], QTINY[3]), cat(A[0], A[1]), cat(A[0], q(A[1], QTINY[1])), rep(A[0], 2, 3, "{2,3}")};
	v.clear();
	for (auto &x : E3) for (auto &y : E3) for (auto &z : E3) v.push_back(plain({x, y, z}, v.size() % 2));
	family("three expressions", v);

	// layouts of the token file: prolog, delimiters, identifiers, separators, line ends, continuation and blank lines, epilog
	v.clear();
	static const char *PRO[] = {"", "#include \"rex/rexdfa.h\"\n", "/* 50% %% */\n", "#define PP \"%%\"\n\n", "#define QQ %%\n", "\n\n", "#define RR 5\r\n"};
	static const char *EPI[] = {"", "rexdfa_t *dfa = &ccdfa;\n", "rexdfa_t *dfa = &ccdfa;", "\n\n/*\n%%\n*/\n", "/* T1 a */"};
	struct Id { const char *t; unsigned long v; bool s; };
	static const Id IDS[] = {{"T1", 301, false}, {"256", 256, false}, {"keyword", 0, true}, {"'a'", 'a', false}, {"(T2)", 302, false}, {"a b", 0, true}, {"' '", ' ', false}, {"-2", ~1ul, false}, {"T1|T2", 301 | 302, false}, {"", 0, true}};
	struct Re { const char *t; P ex; };
	P pa = ch('a'), pb = ch('b'), pd = ch('d');
	static const std::vector<Re> RES = {{"a", pa}, {"a|b", alt(pa, pb)}, {"a b", cat(pa, pb)}, {"a \\\n\tb", cat(pa, pb)}, {"a|\\\r\n  b", alt(pa, pb)}, {"['\"]", atom("['\"]", {{'\'', '\''}, {'"', '"'}})}, {"[ ]", atom("[ ]", {{' ', ' '}})}, {"'", uch('\'')}, {"'a'", cat(cat(uch('\''), pa), uch('\''))}, {"\"a\"", cat(cat(uch('"'), pa), uch('"'))}, {"\\\\", atom("\\\\", {{'\\', '\\'}})}, {"%%", cat(uch('%'), uch('%'))}, {"a ", pa}, {"a\t\t", pa}, {"\\#", atom("\\#", {{'#', '#'}})}};
	static const char *SEP[] = {" ", "\t", "   ", " \t"};
	static const char *EOL[] = {"\n", "\r\n"};
	static const char *GAP[] = {"", "\n", " \n", "\t \t\n", "\r\n", "  \r\n"};
	auto put = [&](int pro, int epi, int eol, int gap, std::vector<std::array<int, 3>> ls) {
		File f; f.pro = PRO[pro]; f.epi = EPI[epi]; f.text = f.pro + "%%" + EOL[eol];
		for (auto &l : ls) {
			f.text += GAP[gap]; Tok k; k.id = IDS[l[0]].t; k.val = IDS[l[0]].v; k.str = IDS[l[0]].s; k.ex = RES[l[2]].ex; f.toks.push_back(k);
			f.text += (k.str ? "\"" + k.id + "\"" : k.id) + SEP[l[1]] + RES[l[2]].t + EOL[eol];
		}
		f.text += GAP[gap]; f.text += std::string("%%") + EOL[eol]; f.text += f.epi;
		v.push_back(f);
	};
	int nid = sizeof IDS / sizeof *IDS, nre = RES.size();
	for (int p = 0; p < 7; p++) for (int e = 0; e < 5; e++) for (int el = 0; el < 2; el++) { put(p, e, el, 0, {{{0, 0, 0}}}); put(p, e, el, 1, {{{0, 0, 0}}, {{1, 1, 1}}}); }
	for (int id = 0; id < nid; id++) for (int re = 0; re < nre; re++) for (int el = 0; el < 2; el++) { put(1, 1, el, 0, {{{id, 1, re}}, {{1, 1, 0}}}); put(1, 1, el, 0, {{{1, 1, 0}}, {{id, 0, re}}}); }
	for (int g = 0; g < 6; g++) for (int s = 0; s < 4; s++) for (int re = 0; re < 5; re++) for (int el = 0; el < 2; el++) put(1, 1, el, g, {{{0, s, re}}, {{2, s, 0}}, {{1, s, re}}});
	if (th) for (int i = 0; i < nid; i++) for (int j = 0; j < nid; j++) for (int a = 0; a < nre; a++) for (int c = 0; c < nre; c++) put(1, 1, (a + c) & 1, 0, {{{i, 0, a}}, {{j, 1, c}}});
	family("layouts", v);

	// invalid token files give no table; every cut of a small file gives either the complete table or none, without dying
	v.clear();
	auto bad = [&](const std::string &s, const char *why) { File f; f.text = s; f.ok = false; f.bad = why; v.push_back(f); };
	static const char *BADRE[] = {"(a", "a)", "[a", "*", "a|", "a||b", "a{", "a{2,1}x)", "()"};
	for (auto x : BADRE) { bad(std::string("%%\nT1 ") + x + "\n%%\n", "malformed expression"); bad(std::string("%%\nT2 b\nT1 ") + x + "\n%%\nx", "malformed expression"); bad(std::string("%%\nT1 ") + x + "\nT2 b\n%%\nx\n", "malformed expression"); }
	bad("T1 a\n", "no section"); bad("%%\nT1 a\n", "section not closed"); bad("%%\nT1\n%%\n", "no expression"); bad("%%\nT1 \n%%\n", "no expression"); bad("%%\nT1 a\nT2\n%%\nx\n", "no expression"); bad("x", "no section"); bad("%", "no section"); bad("%%", "no section"); bad("%%\n", "no section"); bad("%%\n%%", "no expression"); bad("%%\n%%\n", "no expression"); bad("\n", "no section"); bad("%%\n\n%%\nx", "no expression");
	bad("%%\n\"a T1\n%%\n", "string not closed"); bad("%%\n'a T1\n%%\n", "character constant not closed");
	std::string whole1 = "#define XX 1\n%%\nT1 a\nT2 [ab]+\n%%\n";
	for (size_t i = 1; i < whole1.size() - 1; i++) if (i != whole1.size() - 1) bad(whole1.substr(0, i), "cut");
	family("refused", v);

	// many tokens in one file
	v.clear();
	{
		std::vector<Text> K;
		static const char *KW[] = {"do", "double", "while", "with", "void", "var", "if", "in", "instanceof", "int", "for", "function", "finally", "final", "else", "enum", "export", "extends", "try", "typeof", "throw", "throws", "this", "class", "const", "continue", "case", "catch", "new", "null", "return", "break", "default", "delete", "debugger", "switch", "super", "static"};
		std::set<Text> S;
		for (auto k : KW) { Text x(k, k + strlen(k)); for (size_t l = 0; l <= x.size(); l++) { Text p(x.begin(), x.begin() + l); S.insert(p); for (char c : {'a', 'e', 'x', '1', ' ', '_'}) { Text y = p; y.push_back(c); S.insert(y); if (l < x.size()) { Text z = x; z[l] = c; S.insert(z); z = x; z.insert(z.begin() + l, c); S.insert(z); } } } }
		for (auto &x : S) K.push_back(x);
		INS.push_back(K);
		auto word = [](const char *k) { P p = ch(k[0]); for (k++; *k; k++) p = cat(p, ch(*k)); return p; };
		P az = atom("[a-z]", {{'a', 'z'}}), az9 = atom("[a-z0-9_]", {{'a', 'z'}, {'0', '9'}, {'_', '_'}}), id = cat(az, rep(az9, 0, INF, "*")), sp = rep(atom("[ \\t]", {{32, 32}, {9, 9}}), 1, INF, "+");
		size_t nk = sizeof KW / sizeof *KW;
		for (size_t n = 1; n <= nk; n++) {
			std::vector<P> ex; for (size_t k = 0; k < n; k++) ex.push_back(word(KW[k])); ex.push_back(id); ex.push_back(sp);
			v.push_back(plain(ex, n & 1, 1));
			P a = word(KW[0]); for (size_t k = 1; k < n; k++) a = alt(a, word(KW[k]));
			v.push_back(plain({a, id, sp}, n & 1, 1));
			v.push_back(plain({id, a, sp}, n & 1, 1));
		}
		// long character classes: an expression of many alternatives with distinct characters gives long transition lists
		std::vector<Text> W; for (uint32_t c = 0; c < 700; c++) { W.push_back({c}); W.push_back({c, c}); } INS.push_back(W);
		for (unsigned n : {2u, 3u, 10u, 31u, 32u, 33u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 200u}) {
			P p; for (unsigned k = 0; k < n; k++) { unsigned c = 1 + 3 * k; char s[32]; snprintf(s, sizeof s, "[#%u]", c); P a = atom(s, {{c, c}}); p = p ? alt(p, a) : a; }
			v.push_back(plain({p, atom("[#0-#300]", {{0, 300}})}, n & 1, 2));
			v.push_back(plain({rep(p, 1, INF, "+"), any()}, n & 1, 2));
		}
	}
	family("many tokens", v, 8);

	// the JSON token file that comes with the project
	v.clear();
	{
		std::vector<Text> J; static const char AL[] = "-0129.eE+\"\\u,{a";
		int na = sizeof AL - 1;
		for (uint64_t i = 0; i < vh::nstrings(na, th ? 5 : 4); i++) { Text x; for (int c : vh::nthstring(i, na)) x.push_back((unsigned char)AL[c]); J.push_back(x); }
		for (auto k : {"true", "tru", "truee", "false", "null", "nul", "[", "]", "}", ":", " \t\r\n", "\"\\u00e9\"", "\"\\u00e\"", "\"\\\"\\\\\\/\\b\\f\\n\\r\\t\"", "\"\\x\"", "-1.5e+10", "-1.5e", "01", "-0.0", "\"\x1f\""}) J.push_back(Text(k, k + strlen(k)));
		for (uint32_t c = 0; c < 0x90; c++) { J.push_back({'"', c, '"'}); J.push_back({c}); J.push_back({'"', '\\', c, '"'}); }
		J.push_back({'"', 0x20ac, 0x10ffff, '"'});
		INS.push_back(J);
		auto S = [](std::vector<std::pair<uint32_t, uint32_t>> r, bool neg = false) { return atom("", r, neg); };
		auto C = [](std::vector<P> v) { P p = v[0]; for (size_t i = 1; i < v.size(); i++) p = cat(p, v[i]); return p; };
		auto W = [&](const char *w) { std::vector<P> v; for (; *w; w++) v.push_back(uch((unsigned char)*w)); return C(v); };
		P hx = S({{'0', '9'}, {'a', 'f'}, {'A', 'F'}}), d09 = S({{'0', '9'}}), d19 = S({{'1', '9'}}), mi = rep(uch('-'), 0, 1, "?");
		P str = C({uch('"'), rep(alt(S({{'"', '"'}, {'\\', '\\'}, {0, 0x1f}}, true), cat(uch('\\'), alt(S({{'"', '"'}, {'\\', '\\'}, {'/', '/'}, {'b', 'b'}, {'f', 'f'}, {'n', 'n'}, {'r', 'r'}, {'t', 't'}}), C({uch('u'), hx, hx, hx, hx})))), 0, INF, "*"), uch('"')});
		P in = alt(cat(mi, d09), C({mi, d19, rep(d09, 1, INF, "+")}));
		P num = C({mi, alt(cat(d19, rep(d09, 0, INF, "*")), uch('0')), rep(cat(uch('.'), rep(d09, 1, INF, "+")), 0, 1, "?"), rep(C({S({{'e', 'e'}, {'E', 'E'}}), rep(S({{'+', '+'}, {'-', '-'}}), 0, 1, "?"), rep(d09, 1, INF, "+")}), 0, 1, "?")});
		File f; f.in = (int)INS.size() - 1; f.mem = false; f.text = slurp(REPO "/rexjson/rexjsondfa.rexcc"); f.epi = "\n";
		struct { unsigned long v; P ex; } L[] = {{261, str}, {262, in}, {263, num}, {264, W("true")}, {266, W("false")}, {267, W("null")}, {268, W(",")}, {269, W(":")}, {270, W("[")}, {271, W("]")}, {272, W("{")}, {273, W("}")}, {257, rep(S({{9, 10}, {13, 13}, {32, 32}}), 1, INF, "+")}};
		for (auto &l : L) { Tok k; k.val = l.v; k.ex = l.ex; f.toks.push_back(k); }
		v.push_back(f); f.sub = true; v.push_back(f);
	}
	family("JSON tokens", v, 1);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
