// V01: every data-processing instruction and conditional branch of the virtual machine, for all operand values of a
// boundary set x all incoming flags x all register/immediate operand forms, against a table of definitions.
#include "vh.hpp"
extern "C" {
#include "rvm/rvmcpu.h"
}
typedef __int128 i128; typedef unsigned __int128 u128;
typedef uint64_t U; typedef int64_t L;
static std::vector<U> vals;
static const U TOP = 1ull << 63;
enum { Z = RVM_STATUS_Z, N = RVM_STATUS_N, C = RVM_STATUS_C, V = RVM_STATUS_V, E = RVM_STATUS_E };
struct Out { bool err = false; int ecode = 0; bool writes = true; U res = 0; int keep = -1; int set = 0; bool any = false; };   // keep: mask of flags preserved, set: flags set
// keep = -1: no flag changes.  any: result not defined for these operands
static int nz(U r) { return (r ? 0 : Z) | (r & TOP ? N : 0); }
struct Op { int code; const char *name; int form; std::function<Out(U, U, U, int)> f; };   // form 3: op1=f(op2,op3); 2: op1=f(op2); 1: op1=f(op1); c: flags from op1,op2; d: flags from op2,op3
static std::vector<Op> ops;
static Out val(U r) { Out o; o.res = r; return o; }
static Out log_(U r) { Out o; o.res = r; o.keep = 0; o.set = nz(r); return o; }     // result flags only, the others cleared
static Out ari(U r, bool c, bool v) { Out o; o.res = r; o.keep = E; o.set = nz(r) | (c ? C : 0) | (v ? V : 0); return o; }
static Out flags(Out o) { o.writes = false; return o; }
static bool s(U x) { return x & TOP; }
static Out addf(U a, U b, U c) { U r = a + b + c; return ari(r, ((u128)a + b + c) >> 64, s(a) == s(b) && s(r) != s(a)); }
// After a subtraction V is set when the signs of the operands differ and the result keeps the sign of the first one: that is how the machine's own tests define it.
static Out subf(U a, U b, U borrow) { U r = a - b - borrow; return ari(r, !((u128)a < (u128)b + borrow), s(a) != s(b) && s(r) == s(a)); }
static void mkops()
{
	auto sh = [](U n) { return n < 64; };
	ops = {
		{RVM_MOV, "MOV", 2, [](U, U a, U, int) { return val(a); }},
		{RVM_MOVS, "MOVS", 2, [](U, U a, U, int) { return log_(a); }},
		{RVM_INC, "INC", 1, [](U d, U, U, int) { return val(d + 1); }},
		{RVM_DEC, "DEC", 1, [](U d, U, U, int) { return val(d - 1); }},
		{RVM_ADD, "ADD", 3, [](U, U a, U b, int) { return val(a + b); }},
		{RVM_ADDS, "ADDS", 3, [](U, U a, U b, int) { return addf(a, b, 0); }},
		{RVM_ADC, "ADC", 3, [](U, U a, U b, int st) { return addf(a, b, st & C ? 1 : 0); }},
		{RVM_SUB, "SUB", 3, [](U, U a, U b, int) { return val(a - b); }},
		{RVM_SUBS, "SUBS", 3, [](U, U a, U b, int) { return subf(a, b, 0); }},
		{RVM_SBC, "SBC", 3, [](U, U a, U b, int st) { return subf(a, b, st & C ? 0 : 1); }},
		{RVM_AND, "AND", 3, [](U, U a, U b, int) { return log_(a & b); }},
		{RVM_ORR, "ORR", 3, [](U, U a, U b, int) { return log_(a | b); }},
		{RVM_XOR, "XOR", 3, [](U, U a, U b, int) { return log_(a ^ b); }},
		{RVM_BIC, "BIC", 3, [](U, U a, U b, int) { return log_(a & ~b); }},
		{RVM_NOT, "NOT", 2, [](U, U a, U, int) { return log_(~a); }},
		{RVM_CLZ, "CLZ", 2, [](U, U a, U, int) { return val(a ? __builtin_clzll(a) : 64); }},
		{RVM_MUL, "MUL", 3, [](U, U a, U b, int) { return val(a * b); }},
		{RVM_MLS, "MLS", 3, [](U, U a, U b, int) { return log_(a * b); }},
		{RVM_MULS, "MULS", 3, [](U, U a, U b, int) { Out o = log_(a * b); if (((u128)a * b) >> 64) o.set |= C; return o; }},
		{RVM_DIV, "DIV", 3, [](U, U a, U b, int) { Out o; if (!b) { o.err = true; o.ecode = RVM_E_DIVZERO; return o; } return val(a / b); }},
		{RVM_DIVS, "DIVS", 3, [](U, U a, U b, int) { Out o; if (!b) { o.err = true; o.ecode = RVM_E_DIVZERO; return o; } return log_(a / b); }},
		{RVM_MOD, "MOD", 3, [](U, U a, U b, int) { Out o; if (!b) { o.err = true; o.ecode = RVM_E_DIVZERO; return o; } return val(a % b); }},
		{RVM_DVS, "DVS", 3, [](U, U a, U b, int) { Out o; if (!b) { o.err = true; o.ecode = RVM_E_DIVZERO; return o; } return log_((U)(L)((i128)(L)a / (i128)(L)b)); }},
		{RVM_MODS, "MODS", 3, [](U, U a, U b, int) { Out o; if (!b) { o.err = true; o.ecode = RVM_E_DIVZERO; return o; } return log_((U)(L)((i128)(L)a % (i128)(L)b)); }},
		{RVM_LSL, "LSL", 3, [sh](U, U a, U b, int) { Out o; if (!sh(b)) { o.any = true; return o; } return log_(a << b); }},
		{RVM_LSR, "LSR", 3, [sh](U, U a, U b, int) { Out o; if (!sh(b)) { o.any = true; return o; } return log_(a >> b); }},
		{RVM_LSRS, "LSRS", 3, [sh](U, U a, U b, int) { Out o; if (!sh(b)) { o.any = true; return o; } return log_((U)((L)a >> b)); }},
		{RVM_ASR, "ASR", 3, [sh](U, U a, U b, int) { Out o; if (!sh(b)) { o.any = true; return o; } return log_((U)((L)a >> b)); }},
		{RVM_ROR, "ROR", 3, [](U, U a, U b, int) { U n = b % 64, r = n ? a >> n | a << (64 - n) : a; Out o = log_(r); if (s(r)) o.set |= C; return o; }},
		{RVM_TST, "TST", 'c', [](U a, U b, U, int) { return flags(log_(a & b)); }},
		{RVM_TEQ, "TEQ", 'd', [](U, U a, U b, int) { return flags(log_(a ^ b)); }},
		{RVM_CMP, "CMP", 'c', [](U a, U b, U, int) { Out o = subf(a, b, 0); o.set ^= C; return flags(o); }},  // here C is the borrow itself
		{RVM_CMN, "CMN", 'c', [](U a, U b, U, int) { return flags(addf(a, b, 0)); }},
		{RVM_NOP, "NOP", 0, [](U, U, U, int) { Out o; o.writes = false; return o; }},
		{RVM_CFLAG, "CFLAG", 'f', [](U a, U, U, int st) { Out o; o.writes = false; o.keep = (int)(RVM_STATUS_ALL & ~a); (void)st; return o; }},
	};
}
struct Reg { U w; int type; };
static rvmcpu_t *cpu;
static std::string hex(U v) { char b[24]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
static void reset(Reg *r, int st)
{
	for (int i = 0; i < DA; i++) { r[i].w = 0x1111111111111111ull * (i + 1) + 0x8000000000000001ull; r[i].type = RVM_DTYPE_UNSIGNED; }
	r[SP].w = 8; r[FP].w = 3;
	(void)st;
}
static void load(const Reg *r, int st)
{
	for (int i = 0; i < DA; i++) { rvm_reg_setunsigned(&cpu->r[i], r[i].w); RVM_REG_SETTYPE(&cpu->r[i], r[i].type); }
	cpu->status = st;
}
static void runop(const Op &op, int r1, int r2, int r3, U v1, U v2, U v3, int st)
{
	// operand registers (DA means the immediate); equal registers hold the last value given
	static Reg r[RVM_REGS_NUM];
	reset(r, st);
	U imm = 0;
	auto put = [&](int n, U v) { if (n == DA) imm = v; else if (n != XX) r[n].w = v; };
	put(r3, v3); put(r2, v2); if (op.form == 1 || op.form == 'c' || op.form == 'f' || r1 == DA) put(r1, v1);
	auto get = [&](int n) { return n == DA ? imm : n == XX ? 0 : r[n].w; };
	U a1 = get(r1), a2 = get(r2), a3 = get(r3);
	Out o = op.f(a1, a2, a3, st);
	if (o.any) return;
	load(r, st);
	rvm_asmins_t prog[2] = {rvm_asm(op.code, r1, r2, r3, imm), rvm_asm(RVM_EXT, XX, XX, XX, 0)};
	int ret = rvm_cpu_exec(cpu, prog, 0);
	vh::eval();
	std::string what = std::string(op.name) + " r" + std::to_string(r1) + "," + std::to_string(r2) + "," + std::to_string(r3) + " (13=PC 14=immediate 15=none) with " + hex(a1) + "," + hex(a2) + "," + hex(a3) + " flags " + std::to_string(st);
	if (o.err) {
		if (ret != -1 || cpu->error != (ruword)o.ecode) vh::fail("%s: returns %d error %lu, should report error %d", what.c_str(), ret, cpu->error, o.ecode);
		return;
	}
	if (ret) vh::fail("%s: returns %d error %lu", what.c_str(), ret, cpu->error);
	if (o.writes) r[r1].w = o.res;
	for (int i = 0; i < DA; i++) {
		if (i == PC) continue;
		if (cpu->r[i].v.w != r[i].w) vh::fail("%s: r%d is %s, should be %s", what.c_str(), i, hex(cpu->r[i].v.w).c_str(), hex(r[i].w).c_str());
		if (i != r1 && (cpu->r[i].type != r[i].type || cpu->r[i].flags)) vh::fail("%s: type of r%d changed", what.c_str(), i);
	}
	int want = o.keep == -1 ? st : (st & o.keep) | o.set;
	if ((int)cpu->status != want) vh::fail("%s: flags are %d, should be %d (1=Z 2=N 4=C 8=V 16=E)", what.c_str(), (int)cpu->status, want);
}
// operand forms: which registers the three operands name
static std::vector<std::array<int, 3>> forms(int f)
{
	switch (f) {
	case 3: return {{R0, R1, R2}, {R0, R0, R1}, {R0, R1, R0}, {R0, R0, R0}, {R0, R1, R1}, {R0, R1, DA}, {R0, DA, R1}, {R0, R0, DA}, {R0, DA, R0}, {R7, FP, SP}, {LR, TP, R5}, {FP, FP, DA}};
	case 2: return {{R0, R1, XX}, {R0, R0, XX}, {R0, DA, XX}, {LR, FP, XX}};
	case 1: return {{R0, XX, XX}, {R7, XX, XX}, {LR, XX, XX}};
	case 'c': return {{R0, R1, XX}, {R0, R0, XX}, {R0, DA, XX}, {DA, R0, XX}, {TP, LR, XX}};
	case 'd': return {{XX, R0, R1}, {XX, R0, DA}, {XX, DA, R0}, {XX, R1, R1}};
	case 'f': return {{R0, XX, XX}, {DA, XX, XX}};
	}
	return {{XX, XX, XX}};
}
struct Cell { int op, form; };
static std::vector<Cell> cells;
static int flagset = 32;

// branches: taken exactly under their condition, for every flag setting, distance and direction
struct Br { int code; const char *name; int kind; std::function<bool(int)> cond; };   // kind 0: relative, 1: register
static std::vector<Br> brs = {
	{RVM_B, "B", 0, [](int) { return true; }}, {RVM_BL, "BL", 2, [](int) { return true; }},
	{RVM_BEQ, "BEQ", 0, [](int s) { return !!(s & Z); }}, {RVM_BNEQ, "BNEQ", 0, [](int s) { return !(s & Z); }},
	{RVM_BLEQ, "BLEQ", 0, [](int s) { return (s & N) || (s & Z); }}, {RVM_BGEQ, "BGEQ", 0, [](int s) { return !(s & N) || (s & Z); }},
	{RVM_BLES, "BLES", 0, [](int s) { return !!(s & N); }}, {RVM_BGRE, "BGRE", 0, [](int s) { return !(s & N) && !(s & Z); }},
	{RVM_BX, "BX", 1, [](int) { return true; }}, {RVM_BXL, "BXL", 3, [](int) { return true; }},
	{RVM_BXEQ, "BXEQ", 1, [](int s) { return !!(s & Z); }}, {RVM_BXNEQ, "BXNEQ", 1, [](int s) { return !(s & Z); }},
	{RVM_BXLEQ, "BXLEQ", 1, [](int s) { return (s & N) || (s & Z); }}, {RVM_BXGEQ, "BXGEQ", 1, [](int s) { return !(s & N) || (s & Z); }},
	{RVM_BXLES, "BXLES", 1, [](int s) { return !!(s & N); }}, {RVM_BXGRE, "BXGRE", 1, [](int s) { return !(s & N) && !(s & Z); }},
};
static void branch(uint64_t idx)
{
	vh::Idx ix(idx);
	const Br &b = brs[ix.take(brs.size())];
	int st = ix.take(32), dist = (int)ix.take(7) - 3, reg = ix.take(2);
	if (!dist) return;
	rvm_asmins_t prog[9];
	for (int i = 0; i < 9; i++) prog[i] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
	Reg r[RVM_REGS_NUM]; reset(r, st);
	int src = reg ? R3 : DA;
	// a code address register holds the instruction before the one jumped to, as the link register does
	U v = (b.kind & 1) ? (U)&prog[4 + dist - 1] : (U)(L)dist;
	if (reg) r[R3].w = v;
	load(r, st);
	prog[4] = rvm_asm(b.code, src, XX, XX, reg ? 0 : v);
	int ret = rvm_cpu_exec(cpu, prog, 4);
	vh::eval();
	bool taken = b.cond(st);
	L at = (rvm_asmins_t *)cpu->r[PC].v.p - prog - 1;   // the EXT that ended the run
	L want = taken ? 4 + dist : 5;
	if (ret || at != want) vh::fail("%s by %d %s flags %d: ended at %+ld, should end at %+ld", b.name, dist, reg ? "register" : "immediate", st, (long)at - 4, (long)want - 4);
	if (b.kind >= 2) r[LR].w = (U)&prog[4];
	for (int i = 0; i < DA; i++) if (i != PC && cpu->r[i].v.w != r[i].w) vh::fail("%s flags %d: r%d changed", b.name, st, i);
	if ((int)cpu->status != st) vh::fail("%s: flags changed from %d to %d", b.name, st, (int)cpu->status);
	vh::distinct(idx);
}
// whole-register moves: value, type and flags travel together
static void moves(uint64_t idx)
{
	vh::Idx ix(idx);
	int k = ix.take(8), t1 = ix.take(18), t2 = ix.take(18), st = ix.take(4) * 5, f1 = ix.take(2), f2 = ix.take(2);
	Reg r[RVM_REGS_NUM]; reset(r, st); load(r, st);
	rvmreg_t a = cpu->r[R1], b = cpu->r[R2], w1, w2; a.v.w = 0x123456789abcdef0ull; a.type = t1; a.flags = f1; a.size = 7; b.v.w = TOP | 5; b.type = t2; b.flags = f2 << 1; b.size = 9; w1 = a; w2 = b;
	rvmreg_t mem[3] = {b, a, b};
	rvm_asmins_t ins = rvm_asm(RVM_NOP, XX, XX, XX, 0);
	const char *n = "";
	switch (k) {
	case 0: n = "MOV"; ins = rvm_asm(RVM_MOV, R1, R2, XX, 0); w1 = b; break;
	case 1: n = "SWP"; ins = rvm_asm(RVM_SWP, R1, R2, XX, 0); w1 = b; w2 = a; break;
	case 2: n = "SWP same"; ins = rvm_asm(RVM_SWP, R1, R1, XX, 0); break;
	case 3: n = "CLR"; ins = rvm_asm(RVM_CLR, R1, XX, XX, 0); w1.v.w = 0; w1.type = RVM_DTYPE_UNDEF; w1.flags = 0; break;
	case 4: n = "TYPE"; ins = rvm_asm(RVM_TYPE, R1, R2, XX, 0); w1.v.w = t2; w1.type = RVM_DTYPE_UNSIGNED; break;
	case 5: n = "SETTYPE"; ins = rvm_asm(RVM_SETTYPE, R1, DA, XX, t2); w1.type = t2; break;
	case 6: n = "LDRR"; ins = rvm_asm(RVM_LDRR, R1, DA, XX, (U)&mem[1]); w1 = a; break;
	case 7: n = "STRR"; ins = rvm_asmp(RVM_STRR, R2, DA, XX, &mem[1]); break;
	}
	if (k == 6) cpu->r[R1] = b; else cpu->r[R1] = a;
	cpu->r[R2] = b;
	rvm_asmins_t prog[2] = {ins, rvm_asm(RVM_EXT, XX, XX, XX, 0)};
	int ret = rvm_cpu_exec(cpu, prog, 0);
	vh::eval();
	auto same = [](const rvmreg_t &x, const rvmreg_t &y) { return x.v.w == y.v.w && x.type == y.type && x.flags == y.flags; };
	if (ret) vh::fail("%s fails", n);
	if (!same(cpu->r[R1], w1) || !same(cpu->r[R2], w2)) vh::fail("%s types %d,%d: r1 %lx/%d/%d r2 %lx/%d/%d", n, t1, t2, cpu->r[R1].v.w, cpu->r[R1].type, cpu->r[R1].flags, cpu->r[R2].v.w, cpu->r[R2].type, cpu->r[R2].flags);
	if (k == 7 && (!same(mem[1], b) || mem[1].size != b.size)) vh::fail("STRR stored something else");
	if (!same(mem[0], b) || !same(mem[2], b)) vh::fail("%s wrote beside its target", n);
	for (int i = 0; i < DA; i++) if (i != PC && i != R1 && i != R2 && (cpu->r[i].v.w != r[i].w || cpu->r[i].type != r[i].type)) vh::fail("%s: r%d changed", n, i);
	if ((int)cpu->status != st) vh::fail("%s: flags changed", n);
	vh::distinct(idx * 2 + 1);
}
static void setup()
{
	bool T = vh::thorough;
	mkops();
	std::set<U> v = {0, 1, 2, 3, 5, 7, 10, 31, 32, 33, 62, 63, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x100000001ull, TOP - 1, TOP, TOP + 1, TOP | 0x7fffffff, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x0123456789abcdefull, (U)-1, (U)-2, (U)-3, (U)-7, (U)-64, 0xffffffff00000000ull, 0xc000000000000000ull, 0x4000000000000000ull};
	if (T) for (int i = 0; i < 64; i++) for (int d = -1; d <= 1; d++) { v.insert((1ull << i) + d); v.insert(-((1ull << i) + d)); }
	vals.assign(v.begin(), v.end());
	for (size_t i = 0; i < ops.size(); i++) { size_t n = forms(ops[i].form).size(); for (size_t f = 0; f < n; f++) cells.push_back({(int)i, (int)f}); }
	vh::worker_init = [] { cpu = rvm_cpu_create_default(); };
	vh::case_timeout = 60;
	vh::Family f;
	f.name = "instructions"; f.count = cells.size() * vals.size(); f.chunk = 4;
	f.run = [T](uint64_t i) {
		const Cell &c = cells[i / vals.size()]; const Op &op = ops[c.op]; auto fm = forms(op.form)[c.form]; U v1 = vals[i % vals.size()];
		for (U v2 : vals) for (int st = 0; st < 32; st++) runop(op, fm[0], fm[1], fm[2], op.form == 'd' ? 0 : op.form == 3 ? 0x5a5a : v1, op.form == 'c' ? v2 : v1, v2, st);
		vh::distinct(vh::mix(i, 3)); vh::steps(vals.size() * 32);
	};
	f.describe = [](uint64_t i) { const Cell &c = cells[i / vals.size()]; auto fm = forms(ops[c.op].form)[c.form]; return std::string(ops[c.op].name) + " operands " + std::to_string(fm[0]) + "," + std::to_string(fm[1]) + "," + std::to_string(fm[2]) + " first value " + hex(vals[i % vals.size()]); };
	vh::families.push_back(f);
	vh::Family b; b.name = "branches"; b.count = brs.size() * 32 * 7 * 2; b.run = branch; b.describe = [](uint64_t i) { vh::Idx x(i); std::string s = brs[x.take(brs.size())].name; int st = x.take(32), d = (int)x.take(7) - 3; return s + " flags " + std::to_string(st) + " distance " + std::to_string(d); }; vh::families.push_back(b);
	vh::Family m; m.name = "whole-registers"; m.count = 8 * 18 * 18 * 4 * 4; m.run = moves; m.describe = [](uint64_t i) { return "move #" + std::to_string(i); }; vh::families.push_back(m);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
