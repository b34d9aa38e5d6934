// V03: every history of emitting code, data, labels, references, redefinitions, relocations and clears up to a depth, against
// a plain symbol table; and relocated programs of functions calling each other, executed.
#include "vh.hpp"
#include "pump.hpp"
extern "C" {
#include "rvm/rvmcpu.h"
#include "rvm/rvmcodegen.h"
#include "rlib/rmem.h"
}
typedef uint64_t U; typedef int64_t L;
struct Lab { int kind = 2; U val = 0; };          // 0 code offset (instructions), 1 pointer, 2 not defined, 3 data offset (bytes)
struct Ins { rvm_asmins_t i; U src; };
struct Ref { int type; size_t at; std::string lab; };
struct Model { std::vector<Ins> code; std::vector<Ref> refs; std::map<std::string, Lab> labs; std::string data; U cursrc = 0; bool applied = false; };
static const char *NA = "lab", *NB = "labx";
static char ptarget[64] = "pointed text";
static const int NOPS = 29;
static const char *opnames[NOPS] = {"emit", "emit 40", "branch lab", "jump lab", "address lab", "branch labx", "jump labx", "label lab here", "label labx here", "labelled instruction lab", "redefine lab here", "redefine labx at 0", "undefine lab", "point labx elsewhere", "data D 3 bytes", "data D2 17 bytes", "string S", "string reference S", "address D", "address D2", "relocate", "replace first", "clear", "function lab", "function end", "numbered label and branch to it", "variadic function labx", "undefine label 7 of n", "label labx at 1"};
static rvm_codegen_t *cg; static Model m; static std::string hist; static unsigned uniq;
static rvm_asmins_t plain() { uniq++; return rvm_asm(RVM_ADD, uniq % 8, (uniq / 8) % 8, DA, 0x1000 + uniq); }
static void emit(rvm_asmins_t i, unsigned long got, const char *what)
{
	if (got != m.code.size()) vh::fail("[%s] %s returns index %lu, should be %zu", hist.c_str(), what, got, m.code.size());
	m.code.push_back({i, m.cursrc});
}
static bool sameins(const rvm_asmins_t &a, const rvm_asmins_t &b) { return a.opcode == b.opcode && a.op1 == b.op1 && a.op2 == b.op2 && a.op3 == b.op3 && a.da == b.da && a.swi == b.swi && a.cond == b.cond && a.data.v.w == b.data.v.w && a.data.type == b.data.type && a.data.flags == b.data.flags && a.data.size == b.data.size; }
static bool value(const std::string &n, U &v)
{
	auto it = m.labs.find(n);
	if (it == m.labs.end() || it->second.kind == 2) return false;
	const Lab &l = it->second;
	v = l.kind == 0 ? (U)rvm_codegen_getcode(cg, 0) + l.val * sizeof(rvm_asmins_t) : l.kind == 1 ? l.val : (U)r_array_slot(cg->staticdata, 0) + l.val;
	return true;
}
static void checklabels()
{
	for (const char *n : {NA, NB, "D", "D2", "S", "la", "L0000007__n:"}) {
		long ix = rvm_codemap_lookup_s(cg->codemap, n), ix2 = rvm_codemap_lookup(cg->codemap, (std::string(n) + "zz").c_str(), (unsigned)strlen(n));
		auto it = m.labs.find(n);
		if ((ix >= 0) != (it != m.labs.end())) vh::fail("[%s] label %s %s", hist.c_str(), n, ix >= 0 ? "is known, should not be" : "is lost");
		if (ix != ix2) vh::fail("[%s] counted and terminated lookup of %s differ", hist.c_str(), n);
		if (ix < 0) continue;
		if (!!rvm_codegen_validlabel(cg, ix) != (it->second.kind != 2)) vh::fail("[%s] label %s validity is %ld", hist.c_str(), n, rvm_codegen_validlabel(cg, ix));
		rvm_codelabel_t *l = rvm_codemap_label(cg->codemap, ix);
		if (!l || !l->name || std::string(l->name->str, l->name->size) != n) vh::fail("[%s] label %s has another name", hist.c_str(), n);
	}
}
// the code must be exactly what was emitted, references resolved where the last relocation succeeded
static void checkcode(bool resolved)
{
	if (rvm_codegen_getcodesize(cg) != m.code.size()) vh::fail("[%s] %lu instructions, should be %zu", hist.c_str(), rvm_codegen_getcodesize(cg), m.code.size());
	std::vector<const Ref *> ref(m.code.size());
	for (auto &r : m.refs) ref[r.at] = &r;
	for (size_t k = 0; k < m.code.size(); k++) {
		rvm_asmins_t got = *rvm_codegen_getcode(cg, k), want = m.code[k].i;
		if (ref[k]) {
			if (!resolved) { got.data.v.w = want.data.v.w; got.data.size = want.data.size; }     // may hold an earlier resolution
			else {
				U v; if (!value(ref[k]->lab, v)) vh::fail("[%s] relocation succeeds with %s undefined", hist.c_str(), ref[k]->lab.c_str());
				switch (ref[k]->type) {
				case RVM_RELOC_BRANCH: want.data.v.w = (U)((L)(v - (U)rvm_codegen_getcode(cg, k)) / (L)sizeof(rvm_asmins_t)); break;
				case RVM_RELOC_JUMP: want.data.v.w = v - sizeof(rvm_asmins_t); break;
				case RVM_RELOC_STRING: want.data.v.w = v; want.data.size = strlen((char *)v); break;
				default: want.data.v.w = v;
				}
			}
		}
		if (!sameins(got, want)) vh::fail("[%s] instruction %zu: opcode %d operands %d,%d,%d immediate %lx size %u, should be opcode %d %d,%d,%d immediate %lx size %u%s%s", hist.c_str(), k, got.opcode, got.op1, got.op2, got.op3, got.data.v.w, got.data.size, want.opcode, want.op1, want.op2, want.op3, want.data.v.w, want.data.size, ref[k] ? " reference to " : "", ref[k] ? ref[k]->lab.c_str() : "");
		if ((U)rvm_codegen_getsource(cg, k) != m.code[k].src) vh::fail("[%s] instruction %zu has source %ld, should be %lu", hist.c_str(), k, rvm_codegen_getsource(cg, k), m.code[k].src);
	}
	if (rvm_codegen_getsource(cg, m.code.size()) != -1) vh::fail("[%s] there is a source for an instruction beyond the code", hist.c_str());
	for (auto &l : m.labs) if (l.second.kind == 3) {
		// the block is as given wherever the data moved to
		const char *p = (const char *)r_array_slot(cg->staticdata, l.second.val);
		std::string want = l.first == "D" ? std::string("abc") : l.first == "D2" ? std::string("0123456789abcdefg") : std::string("text", 5);
		if (memcmp(p, want.data(), want.size())) vh::fail("[%s] data block %s changed", hist.c_str(), l.first.c_str());
		if (l.second.val % sizeof(ruword)) vh::fail("[%s] data block %s is not aligned", hist.c_str(), l.first.c_str());
	}
}
static void relocate()
{
	std::string bad; U v;
	for (auto &r : m.refs) if (!value(r.lab, v)) { bad = r.lab; break; }
	rvm_codelabel_t *err = nullptr;
	int ret = rvm_codegen_relocate(cg, &err);
	if (bad.empty()) {
		if (ret || err) vh::fail("[%s] relocation reports %s", hist.c_str(), err && err->name ? err->name->str : "an error");
		checkcode(true);
	} else {
		if (!ret) vh::fail("[%s] relocation succeeds although %s is not defined", hist.c_str(), bad.c_str());
		if (!err || !err->name || std::string(err->name->str, err->name->size) != bad) vh::fail("[%s] relocation names %s, the undefined label is %s", hist.c_str(), err && err->name ? err->name->str : "nothing", bad.c_str());
		checkcode(false);
	}
	vh::distinct(vh::hstr(bad, vh::mix(m.code.size(), m.refs.size() * 31 + m.labs.size())));
}
static void reference(int type, const char *n)
{
	uniq++;
	rvm_asmins_t i = rvm_asm(type == RVM_RELOC_BRANCH ? RVM_B : type == RVM_RELOC_JUMP ? RVM_BX : RVM_MOV, type == RVM_RELOC_BRANCH || type == RVM_RELOC_JUMP ? DA : R0, DA, XX, 0);
	m.refs.push_back({type, m.code.size(), n});
	if (!m.labs.count(n)) m.labs[n] = Lab{};
	emit(i, rvm_codegen_addrelocins_s(cg, (rvm_reloctype_t)type, n, i), "reference");
}
static void doop(int o)
{
	m.cursrc = m.code.size() * 3 + 1; rvm_codegen_setsource(cg, m.cursrc);
	rvm_asmins_t i;
	auto here = [&](const char *n) { m.labs[n] = Lab{0, m.code.size()}; };
	auto data = [&](const char *n, const std::string &d) { size_t at = (m.data.size() + 7) / 8 * 8; m.data.resize(at); m.data += d; m.data.resize(m.data.size() + 9); m.labs[n] = Lab{3, at}; };
	switch (o) {
	case 0: i = plain(); emit(i, rvm_codegen_addins(cg, i), "emit"); break;
	case 1: for (int k = 0; k < 40; k++) { i = plain(); emit(i, rvm_codegen_addins(cg, i), "emit"); } break;
	case 2: reference(RVM_RELOC_BRANCH, NA); break;
	case 3: reference(RVM_RELOC_JUMP, NA); break;
	case 4: reference(RVM_RELOC_DEFAULT, NA); break;
	case 5: reference(RVM_RELOC_BRANCH, NB); break;
	case 6: reference(RVM_RELOC_JUMP, NB); break;
	case 7: here(NA); rvm_codegen_addlabel_default_s(cg, NA); break;
	case 8: here(NB); rvm_codegen_addlabel(cg, NB, 4, rvm_codegen_getcodesize(cg)); break;
	case 9: here(NA); i = plain(); emit(i, rvm_codegen_addlabelins(cg, "labyrinth", 3, i), "labelled instruction"); break;
	case 10: { long ix = rvm_codemap_lookup_s(cg->codemap, NA); if (ix < 0) break; here(NA); if (rvm_codegen_redefinelabel_default(cg, ix) != ix) vh::fail("[%s] redefinition returns another index", hist.c_str()); } break;
	case 11: { long ix = rvm_codemap_lookup_s(cg->codemap, NB); if (ix < 0) break; m.labs[NB] = Lab{0, 0}; rvm_codegen_redefinelabel(cg, ix, 0); } break;
	case 12: m.labs[NA] = Lab{}; rvm_codegen_invalid_addlabel_s(cg, NA); break;
	case 13: { long ix = rvm_codemap_lookup_s(cg->codemap, NB); if (ix < 0) break; m.labs[NB] = Lab{1, (U)ptarget}; rvm_codegen_redefinepointer(cg, ix, ptarget); } break;
	case 14: data("D", "abc"); rvm_codegen_adddata_s(cg, "D", "abc", 3); break;
	case 15: data("D2", "0123456789abcdefg"); rvm_codegen_adddata(cg, "D2x", 2, "0123456789abcdefg", 17); break;
	case 16: data("S", std::string("text", 5)); rvm_codegen_addstring_s(cg, "S", "text"); break;
	case 17: reference(RVM_RELOC_STRING, "S"); break;
	case 18: reference(RVM_RELOC_BLOB, "D"); break;
	case 19: reference(RVM_RELOC_BLOB, "D2"); break;
	case 20: relocate(); break;
	case 21: if (m.code.empty()) break; { bool isref = false; for (auto &r : m.refs) if (r.at == 0) isref = true; if (isref) break; i = plain(); m.code[0].i = i; rvm_codegen_replaceins(cg, 0, i); } break;
	case 22: rvm_codegen_clear(cg); m = Model(); break;
	case 23: {
		std::vector<rvm_asmins_t> f = {rvm_asm(RVM_NOP, XX, XX, XX, 0), rvm_asm(RVM_PUSHM, DA, XX, XX, 1 << FP | 1 << SP | 1 << LR), rvm_asm(RVM_MOV, FP, SP, XX, 0), rvm_asm(RVM_ADD, SP, SP, DA, 3)};
		m.code.push_back({f[0], m.cursrc}); here(NA); for (int k = 1; k < 4; k++) m.code.push_back({f[k], m.cursrc});
		unsigned at = rvm_codegen_funcstart_s(cg, NA, 3); if (at != m.labs[NA].val) vh::fail("[%s] function starts at %u", hist.c_str(), at);
	} break;
	case 24: for (auto &f : {rvm_asm(RVM_MOV, SP, FP, XX, 0), rvm_asm(RVM_POPM, DA, XX, XX, 1 << FP | 1 << SP | 1 << LR), rvm_asm(RVM_BX, LR, XX, XX, 0)}) m.code.push_back({f, m.cursrc}); rvm_codegen_funcend(cg); break;
	case 26: {
		std::vector<rvm_asmins_t> f = {rvm_asm(RVM_NOP, XX, XX, XX, 0), rvm_asm(RVM_PUSHM, DA, XX, XX, 1 << FP | 1 << SP | 1 << LR), rvm_asm(RVM_MOV, FP, SP, XX, 0), rvm_asm(RVM_ADD, SP, SP, R0, 0)};
		m.code.push_back({f[0], m.cursrc}); here(NB); for (int k = 1; k < 4; k++) m.code.push_back({f[k], m.cursrc});
		unsigned at = rvm_codegen_vargs_funcstart_s(cg, NB); if (at != m.labs[NB].val) vh::fail("[%s] variadic function starts at %u", hist.c_str(), at);
	} break;
	case 27: m.labs["L0000007__n:"] = Lab{}; rvm_codegen_invalid_add_numlabel_s(cg, "n", 7); break;
	case 28: m.labs[NB] = Lab{0, 1}; rvm_codegen_addlabel_s(cg, NB, 1); break;
	case 25: m.labs["L0000007__n:"] = Lab{0, m.code.size()}; rvm_codegen_add_numlabel_s(cg, "n", 7); reference(RVM_RELOC_BRANCH, "L0000007__n:"); break;
	}
}
static void history(uint64_t idx)
{
	std::vector<int> h = P.size() ? P : vh::nthstring(idx, NOPS);
	hist.clear(); if (P.size()) hist = showpump(idx, NOPS, opnames); else for (int o : h) hist += (hist.empty() ? "" : ", ") + std::string(opnames[o]);
	long mem = r_debug_get_allocmem();
	cg = rvm_codegen_create(); m = Model(); uniq = 0;
	for (int o : h) doop(o);
	checklabels();
	relocate();
	relocate();      // again: the same code
	rvm_codegen_destroy(cg);
	if (r_debug_get_allocmem() != mem) vh::fail("[%s] leaks %ld bytes", hist.c_str(), (long)r_debug_get_allocmem() - mem);
	vh::eval(); vh::steps(h.size() + 2);
}
// a function with n arguments calls one with m arguments: each sees its own, none loses any, and the stack is balanced afterwards
static void arguments(uint64_t idx)
{
	vh::Idx ix(idx);
	int n = ix.take(10), k = ix.take(10), kind = ix.take(3), variadic = ix.take(4), first = ix.take(2);
	rvm_codegen_t *g = rvm_codegen_create();
	auto call = [&](const char *f) {
		if (kind == 0) rvm_codegen_addrelocins_s(g, RVM_RELOC_BRANCH, f, rvm_asm(RVM_BL, DA, XX, XX, 0));
		else if (kind == 1) rvm_codegen_addrelocins_s(g, RVM_RELOC_JUMP, f, rvm_asm(RVM_BXL, DA, XX, XX, 0));
		else rvm_codegen_addrelocins_s(g, RVM_RELOC_JUMP, f, rvm_asmf(RVM_CALL, DA, XX, XX, 0));
	};
	auto add = [&](rvm_asmins_t i) { rvm_codegen_addins(g, i); };
	auto pass = [&](int cnt, U base, int slots) {
		for (int i = 1; i <= cnt; i++) { add(rvm_asm(RVM_MOV, R5, DA, XX, base + i * i)); add(rvm_asm(RVM_STS, R5, SP, DA, i + RVM_CODEGEN_FUNCINITOFFSET)); }
		add(rvm_asm(RVM_MOV, R0, DA, XX, slots));
	};
	auto sum = [&](int cnt) { add(rvm_asm(RVM_MOV, R2, DA, XX, 0)); for (int i = 1; i <= cnt; i++) { add(rvm_asm(RVM_LDS, R1, FP, DA, i)); add(rvm_asm(RVM_MUL, R1, R1, DA, i)); add(rvm_asm(RVM_ADD, R2, R2, R1, 0)); } };
	auto val = [](int cnt, U base) { U v = 0; for (int i = 1; i <= cnt; i++) v += (base + i * i) * i; return v; };
	long start = -1;
	for (int s = 0; s < 3; s++) {
		int w = first ? s : 2 - s;
		if (w == 0) { start = rvm_codegen_getcodesize(g); pass(n, 1000, n + 1); call("outer"); add(rvm_asm(RVM_EXT, XX, XX, XX, 0)); }
		if (w == 1) {
			if (variadic & 1) rvm_codegen_vargs_funcstart_s(g, "outer"); else rvm_codegen_funcstart_s(g, "outer", n + 1);
			sum(n); add(rvm_asm(RVM_STS, R2, FP, DA, n + 1));
			pass(k, 50, k); call("inner"); add(rvm_asm(RVM_MUL, R4, R0, DA, 3));
			sum(n); add(rvm_asm(RVM_MUL, R2, R2, DA, 7)); add(rvm_asm(RVM_LDS, R0, FP, DA, n + 1)); add(rvm_asm(RVM_ADD, R0, R0, R2, 0)); add(rvm_asm(RVM_ADD, R0, R0, R4, 0));
			rvm_codegen_funcend(g);
		}
		if (w == 2) { if (variadic & 2) rvm_codegen_vargs_funcstart(g, "innermost", 5); else rvm_codegen_funcstart(g, "innermost", 5, k); sum(k); add(rvm_asm(RVM_MOV, R0, R2, XX, 0)); rvm_codegen_funcend(g); }
	}
	rvm_codelabel_t *err = nullptr;
	if (rvm_codegen_relocate(g, &err)) vh::fail("relocation of a complete program names %s", err && err->name ? err->name->str : "?");
	static rvmcpu_t *cpu; if (!cpu) cpu = rvm_cpu_create_default();
	for (int i = 0; i < RVM_REGS_NUM; i++) rvm_reg_setunsigned(&cpu->r[i], 0);
	int ret = rvm_cpu_exec(cpu, rvm_codegen_getcode(g, 0), start);
	U want = val(n, 1000) * 8 + val(k, 50) * 3;
	if (ret || cpu->r[R0].v.w != want) vh::fail("%d arguments, then %d, kind %d, variadic %d, order %d: returns %d result %lu, should be %lu", n, k, kind, variadic, first, ret, cpu->r[R0].v.w, want);
	if (cpu->r[SP].v.w != 0 || cpu->r[FP].v.w != 0) vh::fail("the stack is not balanced after the program");
	rvm_codegen_destroy(g);
	vh::eval(); vh::steps(12 * n + 8 * k); vh::distinct(vh::mix(want, kind * 8 + variadic * 2 + first));
}
// functions f0,f1,f2 and a main program, in every order of emission, with every call graph without cycles and every kind of call
static void linked(uint64_t idx)
{
	vh::Idx ix(idx);
	int order = ix.take(24), graph = ix.take(64), kind = ix.take(3), main_ = ix.take(8), loop = ix.take(3);
	std::vector<int> seq = {0, 1, 2, 3}; for (int k = 0; k < order; k++) std::next_permutation(seq.begin(), seq.end());
	rvm_codegen_t *g = rvm_codegen_create();
	auto call = [&](int f) {
		char n[8]; snprintf(n, sizeof n, "f%d", f);
		if (kind == 0) rvm_codegen_addrelocins_s(g, RVM_RELOC_BRANCH, n, rvm_asm(RVM_BL, DA, XX, XX, 0));
		else if (kind == 1) rvm_codegen_addrelocins_s(g, RVM_RELOC_JUMP, n, rvm_asm(RVM_BXL, DA, XX, XX, 0));
		else rvm_codegen_addrelocins_s(g, RVM_RELOC_JUMP, n, rvm_asmf(RVM_CALL, DA, XX, XX, 0));
	};
	// bits of graph: which functions each function calls (f0 may call f1,f2 twice; f1 may call f2)
	auto callees = [&](int f) { std::vector<int> v; if (f == 0) { if (graph & 1) v.push_back(1); if (graph & 2) v.push_back(2); if (graph & 4) v.push_back(1); if (graph & 8) v.push_back(2); } if (f == 1) { if (graph & 16) v.push_back(2); if (graph & 32) v.push_back(2); } return v; };
	std::function<U(int)> val = [&](int f) { U v = f == 0 ? 1 : f == 1 ? 100 : 10000; v *= loop + 1; for (int c : callees(f)) v += val(c); return v; };
	U want = 0; long start = -1;
	for (int s : seq) {
		if (s == 3) {
			start = rvm_codegen_addlabelins_s(g, "main", rvm_asm(RVM_MOV, R0, DA, XX, 0));
			for (int b = 0; b < 3; b++) if (main_ >> b & 1) { call(b); want += val(b); }
			rvm_codegen_addrelocins_s(g, RVM_RELOC_BRANCH, "out", rvm_asm(RVM_B, DA, XX, XX, 0));
			rvm_codegen_addins(g, rvm_asm(RVM_MOV, R0, DA, XX, 1));
			rvm_codegen_addlabelins_s(g, "out", rvm_asm(RVM_EXT, XX, XX, XX, 0));
			continue;
		}
		char n[8], l[8]; snprintf(n, sizeof n, "f%d", s); snprintf(l, sizeof l, "l%d", s);
		rvm_codegen_funcstart_s(g, n, 1);
		rvm_codegen_addins(g, rvm_asm(RVM_MOV, R1, DA, XX, loop));
		rvm_codegen_addlabelins_s(g, l, rvm_asm(RVM_ADD, R0, R0, DA, s == 0 ? 1 : s == 1 ? 100 : 10000));
		rvm_codegen_addins(g, rvm_asm(RVM_CMP, R1, DA, XX, 0));
		rvm_codegen_addins(g, rvm_asm(RVM_DEC, R1, XX, XX, 0));
		rvm_codegen_addrelocins_s(g, RVM_RELOC_BRANCH, l, rvm_asm(RVM_BNEQ, DA, XX, XX, 0));
		for (int c : callees(s)) call(c);
		rvm_codegen_funcend(g);
	}
	rvm_codelabel_t *err = nullptr;
	if (rvm_codegen_relocate(g, &err)) vh::fail("relocation of a complete program names %s", err && err->name ? err->name->str : "?");
	static rvmcpu_t *cpu; if (!cpu) cpu = rvm_cpu_create_default();
	for (int i = 0; i < RVM_REGS_NUM; i++) rvm_reg_setunsigned(&cpu->r[i], 0);
	int ret = rvm_cpu_exec(cpu, rvm_codegen_getcode(g, 0), start);
	if (ret || cpu->r[R0].v.w != want) vh::fail("emission order %d%d%d%d calls %d kind %d main %d loop %d: returns %d result %lu, should be %lu", seq[0], seq[1], seq[2], seq[3], graph, kind, main_, loop, ret, cpu->r[R0].v.w, want);
	if (cpu->r[SP].v.w != 0 || cpu->r[FP].v.w != 0) vh::fail("the stack is not balanced after the program");
	rvm_codegen_destroy(g);
	vh::eval(); vh::distinct(vh::mix(want, 77));
}
// labels given relative to other labels: every history of (re)definitions of four labels
static const char *gname[4] = {"a", "ab", "b", "long name of a label"};
static void graphs(uint64_t idx)
{
	struct G { int kind = 2; U val = 0; int base = 0; } g[4];      // 1 pointer, 0 relative, 2 not defined
	std::vector<int> h = vh::nthstring(idx, 24); std::string txt;
	rvm_codemap_t *cm = rvm_codemap_create();
	long ix[4];
	for (int k = 0; k < 4; k++) { ix[k] = rvm_codemap_lookupadd_s(cm, gname[k]); VH_CHECK(ix[k] == k, "label %d gets index %ld", k, ix[k]); }
	for (size_t n = 0; n < h.size(); n++) {
		int l = h[n] % 4, w = h[n] / 4; U off = 8 * (n + 1) + 1000 * (l + 1); long r;
		if (w < 4) { g[l].kind = 0; g[l].base = w; g[l].val = off; r = n & 1 ? rvm_codemap_addoffset_s(cm, gname[l], w, off) : rvm_codemap_addoffset(cm, gname[l], strlen(gname[l]), w, off); txt += vh::fmt("%s = %s+%lu; ", gname[l], gname[w], off); }
		else if (w == 4) { g[l].kind = 1; g[l].val = (U)(ptarget + n); r = rvm_codemap_addpointer_s(cm, gname[l], ptarget + n); txt += vh::fmt("%s = pointer %zu; ", gname[l], n); }
		else { g[l].kind = 2; r = rvm_codemap_invalid_add_s(cm, gname[l]); txt += vh::fmt("%s undefined; ", gname[l]); }
		VH_CHECK(r == l, "[%s] definition returns %ld", txt.c_str(), r);
	}
	for (int k = 0; k < 4; k++) {
		int at = k, steps = 0; U v = 0;
		while (g[at].kind == 0 && steps++ < 5) { v += g[at].val; at = g[at].base; }
		if (steps >= 5) continue;      // labels relative to each other have no value
		rvm_codelabel_t *err = nullptr; U got = rvm_codemap_resolve(cm, k, &err);
		VH_CHECK(!!rvm_codemap_validindex(cm, k) == (g[k].kind != 2), "[%s] validity of %s", txt.c_str(), gname[k]);
		rvm_relocmap_t *rm = rvm_relocmap_create();
		rvm_asmins_t code[3] = {rvm_asm(RVM_NOP, XX, XX, XX, 5), rvm_asm(RVM_MOV, R0, DA, XX, 7), rvm_asm(RVM_NOP, XX, XX, XX, 6)};
		rvm_relocmap_add(rm, RVM_RELOC_CODE, RVM_RELOC_DEFAULT, 1, k);
		rvm_codelabel_t *err2 = nullptr; int ret = rvm_relocmap_relocate(rm, cm, code, &err2);
		if (g[at].kind == 2) {
			VH_CHECK(got == (U)-1 && err && err->name && !strcmp(err->name->str, gname[at]), "[%s] %s resolves to %lx, names %s, should name %s", txt.c_str(), gname[k], got, err && err->name ? err->name->str : "nothing", gname[at]);
			VH_CHECK(ret == -1 && err2 == err, "[%s] relocation of %s gives %d", txt.c_str(), gname[k], ret);
		} else {
			v += g[at].val;
			VH_CHECK(got == v && !err, "[%s] %s resolves to %lx, should be %lx", txt.c_str(), gname[k], got, v);
			VH_CHECK(ret == 0 && code[1].data.v.w == v && code[0].data.v.w == 5 && code[2].data.v.w == 6, "[%s] relocation of %s gives %d, %lx", txt.c_str(), gname[k], ret, code[1].data.v.w);
		}
		vh::distinct(vh::mix(g[at].kind, vh::mix(k, steps * 8 + at)));
		rvm_relocmap_destroy(rm);
		vh::steps(1);
	}
	rvm_codemap_destroy(cm);
	vh::eval();
}
// many labels with as many references: before, after and around their definitions, every third defined again; one of them missing
static const int NL_[] = {5, 17, 33, 64, 100, 129, 256, 257, 300, 513};
static const int CROWD_[][2] = {{4097, 0}, {4097, 1}, {4097, 2}, {4097, 3}, {66000, 1}};
static std::string showlabs(uint64_t i, bool crowd = false) { vh::Idx x(i); int cr = crowd ? x.take(5) : 0, n = crowd ? CROWD_[cr][0] : NL_[x.take(10)], order = crowd ? CROWD_[cr][1] : x.take(4), type = x.take(3), miss = x.take(5); return vh::fmt("%d labels, order %d, reference kind %d, missing kind %d", n, order, type, miss); }
static void manylabels(uint64_t idx, bool crowd)
{
	vh::Idx x(idx); int cr = crowd ? x.take(5) : 0, n = crowd ? CROWD_[cr][0] : NL_[x.take(10)], order = crowd ? CROWD_[cr][1] : x.take(4), type = x.take(3), miss = x.take(5);
	int missing = miss == 0 ? -1 : miss == 1 ? 0 : miss == 2 ? n - 1 : miss == 3 ? n / 2 : 4;
	long mem = r_debug_get_allocmem();
	rvm_codegen_t *g = rvm_codegen_create(); std::vector<long> def(n, -1); std::vector<std::pair<long, int>> refs;
	auto name = [&](int k) { return "f" + std::to_string((long)k * k) + std::string(k % 9, '_'); };
	auto pad = [&](int k) { for (int q = 0; q < k; q++) rvm_codegen_addins(g, rvm_asm(RVM_NOP, XX, XX, XX, 0)); };
	auto define = [&](int k) { if (k == missing) return; def[k] = rvm_codegen_getcodesize(g); if (k & 1) rvm_codegen_addlabelins_s(g, name(k).c_str(), rvm_asm(RVM_NOP, XX, XX, XX, 0)); else { rvm_codegen_addlabel_default_s(g, name(k).c_str()); pad(1); } };
	auto refer = [&](int k) { if (crowd && k % 509 && k < n - 20) return; rvm_reloctype_t t = type == 0 ? RVM_RELOC_BRANCH : type == 1 ? RVM_RELOC_JUMP : RVM_RELOC_DEFAULT; long at = rvm_codegen_addrelocins_s(g, t, name(k).c_str(), rvm_asm(RVM_MOV, R0, DA, XX, 0)); refs.push_back({at, k}); };
	for (int k = 0; k < n; k++) switch (order) {
	case 0: refer(k); if (k == n - 1) for (int q = 0; q < n; q++) define(q); break;
	case 1: define(k); pad(k % 3); if (k == n - 1) for (int q = n; q--;) refer(q); break;
	case 2: refer((k * 7 + 3) % n); define(k); if (k == n - 1) for (int q = 0; q < n; q++) refer(q); break;
	case 3: define(k); refer(n - 1 - k); if (k % 3 == 0) define(k); break;
	}
	std::string bad; for (auto &r : refs) if (r.second == missing) { bad = name(missing); break; }
	for (int round = 0; round < 2; round++) {
		rvm_codelabel_t *err = nullptr; int ret = rvm_codegen_relocate(g, &err);
		if (!!ret != !bad.empty()) vh::fail("relocation returns %d", ret);
		if (ret && (!err || !err->name || std::string(err->name->str, err->name->size) != bad)) vh::fail("relocation names %s, the missing label is %s", err && err->name ? err->name->str : "nothing", bad.c_str());
		if (!ret) for (auto &r : refs) {
			U v = (U)rvm_codegen_getcode(g, def[r.second]), at = (U)rvm_codegen_getcode(g, r.first), want = type == 0 ? (U)((L)(v - at) / (L)sizeof(rvm_asmins_t)) : type == 1 ? v - sizeof(rvm_asmins_t) : v;
			if (rvm_codegen_getcode(g, r.first)->data.v.w != want) vh::fail("the reference to %s holds %lx, should be %lx", name(r.second).c_str(), rvm_codegen_getcode(g, r.first)->data.v.w, want);
		}
		vh::eval();
	}
	rvm_codegen_destroy(g);
	if (r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::steps(2 * n); vh::distinct(vh::hstr(bad, idx));
}
static void setup()
{
	bool T = vh::thorough;
	int depth = T ? 5 : 4;
#ifdef VH_SHALLOW
	depth--;
#endif
	vh::Family f; f.name = "histories"; f.count = vh::nstrings(NOPS, depth); f.run = history; f.chunk = 256;
	f.describe = [](uint64_t i) { std::string s; for (int o : vh::nthstring(i, NOPS)) s += (s.empty() ? "" : ", ") + std::string(opnames[o]); return s; };
	vh::families.push_back(f);
	pumps = T ? 200 : 70;
	f.name = "histories-long"; f.count = npump(NOPS); f.run = [](uint64_t i) { P = pump(i, NOPS); struct R { ~R() { P.clear(); } } x; history(i); }; f.describe = [](uint64_t i) { return showpump(i, NOPS, opnames); }; f.chunk = 8; vh::families.push_back(f);
	f.name = "many-labels"; f.count = 10 * 4 * 3 * 5; f.run = [](uint64_t i) { manylabels(i, false); }; f.describe = [](uint64_t i) { return showlabs(i); }; f.chunk = 4; vh::families.push_back(f);
	f.name = "crowd-of-labels"; f.count = 5 * 3; f.run = [](uint64_t i) { manylabels(i, true); }; f.describe = [](uint64_t i) { return showlabs(i, true); }; f.chunk = 1; vh::families.push_back(f);
	vh::Family gr; gr.name = "relative-labels"; gr.count = vh::nstrings(24, T ? 5 : 4); gr.run = graphs; gr.chunk = 256; gr.describe = [](uint64_t i) { std::string s; for (int o : vh::nthstring(i, 24)) s += vh::fmt("%s %s, ", gname[o % 4], o / 4 < 4 ? gname[o / 4] : o / 4 == 4 ? "pointer" : "undefined"); return s; }; vh::families.push_back(gr);
	vh::Family l; l.name = "linked-programs"; l.count = 24ull * 64 * 3 * 8 * 3; l.run = linked; l.describe = [](uint64_t i) { return "program #" + std::to_string(i); }; vh::families.push_back(l);
	l.name = "arguments"; l.count = 10 * 10 * 3 * 4 * 2; l.run = arguments; l.describe = [](uint64_t i) { return "program #" + std::to_string(i); }; vh::families.push_back(l);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
