// V02: every program up to a length over small instruction alphabets, run on the real machine in lockstep with a reference
// interpreter: after every instruction all registers, flags, the stack, the memory and the error state must agree.
#include "vh.hpp"
extern "C" {
#include "rvm/rvmcpu.h"
}
typedef uint64_t U; typedef int64_t L;
enum { Z = RVM_STATUS_Z, N = RVM_STATUS_N, C = RVM_STATUS_C, V = RVM_STATUS_V };
struct I { int op; int a, b, c; U imm = 0; int type = RVM_DTYPE_UNSIGNED; const char *txt = ""; };
static const int PAD = 8, MAXP = 40, MAXST = 64, STEPS = 80;
static rvm_asmins_t prog[MAXP + 2 * PAD];
static const int MEM = 160;
alignas(16) static unsigned char mem[MEM];
static const unsigned USERSWI = RVM_SWI_ID(0, 1);
// ---------------------------------------------------------------- reference interpreter
static const unsigned KEEP = 0xfffffff0;   // clearing keeps the unused size field of the cell
struct R { U w = 0; int type = 0, flags = 0; unsigned size = 0; bool operator==(const R &o) const { return w == o.w && type == o.type && flags == o.flags && size == o.size; } };
struct M {
	R r[RVM_REGS_NUM]; int st = 0; U err = 0; bool stop = false, undef = false; int nst = 0; std::vector<R> stk; unsigned char mem[MEM]; U swis = 0, ophs = 0;
	const I *code = nullptr; int ncode = 0;
	const I *at() const
	{
		static const I ext{RVM_EXT, XX, XX, XX};
		U d = r[PC].w - (U)prog;
		if (r[PC].w < (U)prog || d % sizeof(rvm_asmins_t) || d / sizeof(rvm_asmins_t) >= (U)(ncode + 2 * PAD)) return nullptr;
		int i = (int)(d / sizeof(rvm_asmins_t)) - PAD;
		return i < 0 || i >= ncode ? &ext : &code[i];
	}
	void fail(U e) { err = e; stop = true; }
	bool ok(U sp) const { return sp < (U)nst; }
	unsigned char *addr(U a, size_t n) { U o = a - (U)::mem; if (a < (U)::mem || o + n > sizeof mem) { undef = true; return nullptr; } return mem + o; }
	void nz(U v) { st = (v ? 0 : Z) | (v >> 63 ? N : 0); }
	void op(const I &i)      // one instruction, without the step to the next one
	{
		if (i.a == DA || i.b == DA || i.c == DA) { r[DA].w = i.imm; r[DA].type = i.type; r[DA].flags = 0; r[DA].size = 0; }
		U a = r[i.a].w, b = r[i.b].w, c = r[i.c].w;
		const U W = sizeof(rvm_asmins_t);
		auto rel = [&](bool t) { if (t) r[PC].w += (a - 1) * W; };
		auto reg = [&](bool t) { if (t) r[PC].w = a; };
		auto off = [&] { return (i.b != XX ? b : 0) + (i.c != XX ? c : 0); };
		auto ld = [&](size_t n) { unsigned char *p = addr(b, n); if (!p) return; U v = 0; memcpy(&v, p, n); r[i.a].w = v; };
		auto sd = [&](size_t n) { unsigned char *p = addr(b, n); if (p) memcpy(p, &a, n); };
		auto cell = [&](U p, R *out, const R *in) {
			unsigned char *q = addr(p, sizeof(rvmreg_t)); if (!q) return;
			rvmreg_t x; memcpy(&x, q, sizeof x);
			if (out) { out->w = x.v.w; out->type = x.type; out->flags = x.flags; out->size = x.size; }
			if (in) { x.v.w = in->w; x.type = in->type; x.flags = in->flags; if (in->size != KEEP) x.size = in->size; memcpy(q, &x, sizeof x); }
		};
		auto bits = [](U v) { std::vector<int> x; for (int k = 0; k < RLST; k++) if (v >> k & 1) x.push_back(k); return x; };
		switch (i.op) {
		case RVM_EXT: stop = true; break;
		case RVM_ABORT: fail(a); break;
		case RVM_NOP: break;
		case RVM_MOV: r[i.a] = r[i.b]; break;
		case RVM_MOVS: r[i.a].w = b; nz(b); break;
		case RVM_SWP: std::swap(r[i.a], r[i.b]); break;
		case RVM_INC: r[i.a].w++; break;
		case RVM_DEC: r[i.a].w--; break;
		case RVM_ADD: r[i.a].w = b + c; break;
		case RVM_SUB: r[i.a].w = b - c; break;
		case RVM_MUL: r[i.a].w = b * c; break;
		case RVM_CLR: r[i.a] = R{0, RVM_DTYPE_UNDEF, 0, r[i.a].size}; break;
		case RVM_TYPE: { int t = r[i.b].type; r[i.a].w = t; r[i.a].type = RVM_DTYPE_UNSIGNED; } break;
		case RVM_SETTYPE: r[i.a].type = (int)(uint16_t)b; break;
		case RVM_CMP: { U x = a - b; st &= RVM_STATUS_E; st |= (x ? 0 : Z) | (x >> 63 ? N : 0) | (a < b ? C : 0) | ((a >> 63) != (b >> 63) && (x >> 63) == (a >> 63) ? V : 0); } break;
		case RVM_B: rel(true); break;
		case RVM_BEQ: rel(st & Z); break;
		case RVM_BNEQ: rel(!(st & Z)); break;
		case RVM_BLES: rel(st & N); break;
		case RVM_BGRE: rel(!(st & N) && !(st & Z)); break;
		case RVM_BLEQ: rel((st & N) || (st & Z)); break;
		case RVM_BGEQ: rel(!(st & N) || (st & Z)); break;
		case RVM_BL: { U here = r[PC].w; rel(true); r[LR].w = here; } break;
		case RVM_BX: reg(true); break;
		case RVM_BXEQ: reg(st & Z); break;
		case RVM_BXNEQ: reg(!(st & Z)); break;
		case RVM_BXL: { U here = r[PC].w; if (i.a == LR) a = here; r[PC].w = a; r[LR].w = here; } break;
		case RVM_RET: r[PC].w = r[LR].w; break;
		case RVM_PUSH: { U sp = r[SP].w + 1; if (!ok(sp)) { fail(RVM_E_NOMEM); break; } stk[sp] = r[i.a]; r[SP].w = sp; } break;
		case RVM_POP: { U sp = r[SP].w; if (!ok(sp)) { fail(RVM_E_NOMEM); break; } r[i.a] = stk[sp]; if (i.a != SP) r[SP].w = sp - 1; } break;
		case RVM_PUSHM: {
			U sp = r[SP].w; if (!ok(sp + RVM_REGS_NUM)) { fail(RVM_E_NOMEM); break; }
			for (int k : bits(a)) { sp++; if (!ok(sp)) { undef = true; return; } stk[sp] = r[k]; }
			r[SP].w = sp;
		} break;
		case RVM_POPM: {
			U sp = r[SP].w; auto v = bits(a);
			for (size_t k = v.size(); k-- > 0;) { if (!ok(sp)) { fail(RVM_E_NOMEM); break; } r[v[k]] = stk[sp]; sp--; }
			if (!err && !(a >> SP & 1)) r[SP].w = sp;
		} break;
		case RVM_LDS: { U p = off(); if (!ok(p)) fail(RVM_E_NOMEM); else r[i.a] = stk[p]; } break;
		case RVM_STS: { U p = off(); if (!ok(p)) fail(RVM_E_NOMEM); else stk[p] = r[i.a]; } break;
		case RVM_LDR: ld(8); break;
		case RVM_LDRP: ld(sizeof(void *)); break;
		case RVM_LDRW: ld(4); break;
		case RVM_LDRH: ld(2); break;
		case RVM_LDRB: ld(1); break;
		case RVM_STR: sd(8); break;
		case RVM_STRP: sd(sizeof(void *)); break;
		case RVM_STRW: sd(4); break;
		case RVM_STRH: sd(2); break;
		case RVM_STRB: sd(1); break;
		case RVM_LDRR: cell(b, &r[i.a], nullptr); break;
		case RVM_STRR: if (r[i.b].type != RVM_DTYPE_POINTER) fail(RVM_E_LVALUE); else cell(b, nullptr, &r[i.a]); break;
		case RVM_CLRR: { R z{0, RVM_DTYPE_UNDEF, 0, KEEP}; cell(a, nullptr, &z); } break;
		case RVM_STM: { U p = a; for (int k : bits(b)) { unsigned char *q = addr(p, 8); if (!q) return; memcpy(q, &r[k].w, 8); p += 8; } } break;
		case RVM_LDM: { U p = a; for (int k : bits(b)) { unsigned char *q = addr(p, 8); if (!q) return; U v; memcpy(&v, q, 8); r[k] = R{v, 0, 0, r[k].size}; p += 8; } } break;
		case RVM_SWI: swi(USERSWI); break;
		case RVM_SWIID: if (a != USERSWI && a >> 8 == 0) undef = true; else swi(a); break;
		case RVM_CALL:
			if (r[i.a].type == RVM_DTYPE_SWIID) { U id = i.a == LR ? r[PC].w : a; r[LR].w = r[PC].w; if (id != USERSWI && id >> 8 == 0) undef = true; else swi(id); }
			else if (r[i.a].type == RVM_DTYPE_FUNCTION) { U here = r[PC].w; r[PC].w = i.a == LR ? here : a; r[LR].w = here; }
			else if (r[i.a].type == RVM_DTYPE_OPHANDLER) { if (a != (U)oph()) { undef = true; break; } r[R3].w += 100; ophs++; }
			else fail(RVM_E_NOTFUNCTION);
			break;
		case RVM_USER130: r[i.a].w = r[i.b].w ^ 0xff; break;
		default: abort();
		}
	}
	void swi(U id) { if ((id >> 8 & 0xffffffff) != 0) { fail(RVM_E_SWITABLE); return; } r[R4].w += 10; swis++; }   // the one table has the one call below
	static void *oph();
	bool inaccurate(U id) const { (void)id; return false; }
};
// ---------------------------------------------------------------- the real machine, observed after every instruction
static rvmcpu_t *obs, *plain; static rvm_optable_t orig[RVM_COUNT]; static M m; static int nsteps;
static const std::vector<I> *cur;
static void usercall(rvmcpu_t *cpu, rvm_asmins_t *) { cpu->r[R4].v.w += 10; }
static void nullcall(rvmcpu_t *, rvm_asmins_t *) { abort(); }
static void useroph(rvmcpu_t *cpu, rvm_asmins_t *) { cpu->r[R3].v.w += 100; }
static void userop(rvmcpu_t *cpu, rvm_asmins_t *ins) { cpu->r[ins->op1].v.w = cpu->r[ins->op2].v.w ^ 0xff; }
void *M::oph() { return (void *)useroph; }
static rvm_switable_t swis[] = {{"first", nullcall}, {"second", usercall}, {nullptr, nullptr}};
static std::string show(const std::vector<I> &p)
{
	std::string s;
	for (size_t i = 0; i < p.size(); i++) s += (i ? "; " : "") + std::string(p[i].txt);
	return s;
}
static void compare(rvmcpu_t *cpu, const char *when, int k)
{
	for (int i = 0; i < RLST; i++) {
		const rvmreg_t &x = cpu->r[i];
		if (x.v.w != m.r[i].w || x.type != m.r[i].type || x.flags != m.r[i].flags || x.size != m.r[i].size)
			vh::fail("[%s] %s %d: r%d is %lx type %d, should be %lx type %d", show(*cur).c_str(), when, k, i, x.v.w, x.type, m.r[i].w, m.r[i].type);
	}
	if ((int)cpu->status != m.st) vh::fail("[%s] %s %d: flags %d, should be %d", show(*cur).c_str(), when, k, (int)cpu->status, m.st);
	if (cpu->error != m.err || !!cpu->abort != m.stop) vh::fail("[%s] %s %d: error %ld stopped %ld, should be %ld %d", show(*cur).c_str(), when, k, cpu->error, cpu->abort, (long)m.err, m.stop);
	const rvmreg_t *s = (const rvmreg_t *)cpu->stack;
	for (int i = 0; i < m.nst; i++) if (s[i].v.w != m.stk[i].w || s[i].type != m.stk[i].type) vh::fail("[%s] %s %d: stack[%d] is %lx type %d, should be %lx type %d", show(*cur).c_str(), when, k, i, s[i].v.w, s[i].type, m.stk[i].w, m.stk[i].type);
	for (int i = 0; i < MEM; i++) if (mem[i] != m.mem[i]) {
		vh::fail("[%s] %s %d: memory[%d] is %02x, should be %02x", show(*cur).c_str(), when, k, i, mem[i], m.mem[i]);
	}
}
static void step(rvmcpu_t *cpu, rvm_asmins_t *ins)
{
	const I *i = m.at();
	if (!i || cpu->r[PC].v.w != m.r[PC].w) { if (!i) { m.undef = true; cpu->abort = 1; return; } vh::fail("[%s] step %d: at instruction %ld, should be at %ld", show(*cur).c_str(), nsteps, (long)((rvm_asmins_t *)cpu->r[PC].v.p - prog) - PAD, (long)((rvm_asmins_t *)m.r[PC].w - prog) - PAD); }
	m.op(*i);
	if (m.undef) { cpu->abort = 1; return; }
	orig[ins->opcode].op(cpu, ins);
	nsteps++;
	compare(cpu, "after step", nsteps);
	if (m.stop) return;
	m.r[PC].w += sizeof(rvm_asmins_t);
	const I *nx = m.at();
	if (!nx || nsteps >= STEPS) { m.undef = !nx; cpu->abort = 1; m.stop = true; }
}
static int stacksize = 22;
static unsigned char pattern(int i) { return (unsigned char)(0x81 + i * 37); }
// registers: r5, r6 point into memory, r1 to an instruction, sp and fp to the bottom of the stack
static void init(rvmcpu_t *cpu, int variant)
{
	for (int i = 0; i < MEM; i++) mem[i] = pattern(i);
	for (int k = 0; k < 4; k++) mem[k * 16 + 8] = mem[k * 16 + 9] = mem[k * 16 + 10] = mem[k * 16 + 11] = 0;   // the size field of a stored register
	memset(cpu->stack, 0, sizeof(rvmreg_t) * stacksize);
	for (int i = 0; i < RVM_REGS_NUM; i++) { rvmreg_t &x = cpu->r[i]; x.v.w = 0; x.type = RVM_DTYPE_UNSIGNED; x.flags = 0; x.size = 0; }
	cpu->r[R0].v.w = variant & 1 ? 0x8877665544332211ull : 0; cpu->r[R1].v.w = (U)&prog[PAD + 1]; cpu->r[R2].v.w = variant & 1 ? (U)-3 : 7; cpu->r[R2].type = RVM_DTYPE_SIGNED;
	cpu->r[R3].v.w = 1; cpu->r[R4].v.w = 2;
	cpu->r[R5].v.w = (U)mem; cpu->r[R5].type = RVM_DTYPE_POINTER; cpu->r[R6].v.w = (U)(mem + 16); cpu->r[R6].type = RVM_DTYPE_POINTER; cpu->r[R7].v.w = 2;
	cpu->r[LR].v.w = (U)&prog[PAD + (int)cur->size()]; cpu->r[SP].v.w = variant & 2 ? 3 : 0; cpu->r[FP].v.w = 1; cpu->r[TP].v.w = 5;
	cpu->status = variant & 2 ? Z : 0;
	for (int k = 0; k < 4; k++) { rvmreg_t *s = (rvmreg_t *)cpu->stack + k + 1; s->v.w = 1000 + k; s->type = k; }
}
static rvm_asmins_t real(const I &i)
{
	rvm_asmins_t x = i.op == RVM_SWI ? rvm_asm(RVM_OPSWI(USERSWI), i.a, i.b, i.c, i.imm) : rvm_asm(i.op, i.a, i.b, i.c, i.imm);
	x.data.type = i.type;
	return x;
}
static void load(const std::vector<I> &p)
{
	cur = &p;
	for (size_t i = 0; i < p.size() + 2 * PAD; i++) prog[i] = i < PAD || i >= PAD + p.size() ? rvm_asm(RVM_EXT, XX, XX, XX, 0) : real(p[i - PAD]);
}
static void runprog(const std::vector<I> &p, int variant, bool debug = false)
{
	load(p);
	init(obs, variant);
	m = M(); m.code = p.data(); m.ncode = (int)p.size(); m.nst = stacksize; m.stk.resize(stacksize);
	for (int i = 0; i < RVM_REGS_NUM; i++) m.r[i] = R{obs->r[i].v.w, obs->r[i].type, obs->r[i].flags};
	for (int i = 0; i < stacksize; i++) { rvmreg_t *s = (rvmreg_t *)obs->stack + i; m.stk[i] = R{s->v.w, s->type, s->flags}; }
	memcpy(m.mem, mem, MEM); m.st = obs->status; m.r[PC].w = (U)&prog[PAD];
	nsteps = 0;
	int ret = rvm_cpu_exec(obs, prog, PAD);
	vh::steps(nsteps); vh::eval();
	bool ended = !m.undef && nsteps < STEPS;
	U h = vh::mix(nsteps, m.err); for (int i = 0; i < RLST; i++) if (i != PC && i != LR && i != R1) h = vh::mix(h, i == R5 || i == R6 ? m.r[i].w - (U)mem : m.r[i].w);
	vh::distinct(h);
	if (!ended) return;
	if (ret != (m.err ? -1 : 0)) vh::fail("[%s] returns %d with error %ld", show(p).c_str(), ret, (long)m.err);
	m.r[PC].w += sizeof(rvm_asmins_t);
	// once more without the observer
	init(plain, variant);
	int r2 = debug ? rvm_cpu_exec_debug(plain, prog, PAD) : rvm_cpu_exec(plain, prog, PAD);
	vh::traces();
	if (r2 != ret) vh::fail("[%s] unobserved run returns %d", show(p).c_str(), r2);
	compare(plain, debug ? "end of debug run" : "end of plain run", nsteps);
}
#define A(...) I{__VA_ARGS__}
static std::vector<I> control = {
	A(RVM_ADD, R0, R0, DA, 1, 0, "ADD R0,R0,1"), A(RVM_CMP, R0, DA, XX, 2, 0, "CMP R0,2"), A(RVM_DEC, R2, XX, XX, 0, 0, "DEC R2"), A(RVM_CMP, R2, DA, XX, 5, 0, "CMP R2,5"),
	A(RVM_B, DA, XX, XX, 2, 0, "B +2"), A(RVM_B, DA, XX, XX, (U)-2, 0, "B -2"), A(RVM_BEQ, DA, XX, XX, 2, 0, "BEQ +2"), A(RVM_BNEQ, DA, XX, XX, (U)-2, 0, "BNEQ -2"),
	A(RVM_BLES, DA, XX, XX, (U)-1, 0, "BLES -1"), A(RVM_BGRE, R7, XX, XX, 0, 0, "BGRE R7"), A(RVM_BL, DA, XX, XX, 2, 0, "BL +2"), A(RVM_BL, DA, XX, XX, (U)-2, 0, "BL -2"),
	A(RVM_RET, XX, XX, XX, 0, 0, "RET"), A(RVM_MOV, R1, LR, XX, 0, 0, "MOV R1,LR"), A(RVM_MOV, LR, R1, XX, 0, 0, "MOV LR,R1"), A(RVM_BX, R1, XX, XX, 0, 0, "BX R1"), A(RVM_BXL, R1, XX, XX, 0, 0, "BXL R1"), A(RVM_MOV, R1, PC, XX, 0, 0, "MOV R1,PC"),
};
static std::vector<I> stackops = {
	A(RVM_PUSH, R0, XX, XX, 0, 0, "PUSH R0"), A(RVM_PUSH, R2, XX, XX, 0, 0, "PUSH R2"), A(RVM_PUSH, DA, XX, XX, 9, RVM_DTYPE_SIGNED, "PUSH 9"), A(RVM_POP, R0, XX, XX, 0, 0, "POP R0"), A(RVM_POP, R2, XX, XX, 0, 0, "POP R2"), A(RVM_POP, SP, XX, XX, 0, 0, "POP SP"),
	A(RVM_INC, R0, XX, XX, 0, 0, "INC R0"), A(RVM_PUSHM, DA, XX, XX, 1 << R0 | 1 << R2, 0, "PUSHM R0,R2"), A(RVM_POPM, DA, XX, XX, 1 << R0 | 1 << R2, 0, "POPM R0,R2"), A(RVM_PUSHM, DA, XX, XX, 1 << FP | 1 << SP | 1 << LR, 0, "PUSHM FP,SP,LR"), A(RVM_POPM, DA, XX, XX, 1 << FP | 1 << SP | 1 << LR, 0, "POPM FP,SP,LR"),
	A(RVM_POPM, DA, XX, XX, 1 << FP | 1 << LR | 1 << R7, 0, "POPM R7,FP,LR"), A(RVM_MOV, FP, SP, XX, 0, 0, "MOV FP,SP"), A(RVM_MOV, SP, FP, XX, 0, 0, "MOV SP,FP"), A(RVM_ADD, SP, SP, DA, 2, 0, "ADD SP,SP,2"), A(RVM_SUB, SP, SP, DA, 1, 0, "SUB SP,SP,1"),
	A(RVM_LDS, R2, FP, DA, 1, 0, "LDS R2,FP,1"), A(RVM_STS, R0, SP, XX, 0, 0, "STS R0,SP"), A(RVM_LDS, R0, SP, DA, (U)-1, 0, "LDS R0,SP,-1"), A(RVM_STS, R2, FP, R7, 0, 0, "STS R2,FP,R7"), A(RVM_LDS, R3, XX, DA, 21, 0, "LDS R3,21"), A(RVM_STS, R3, DA, XX, 22, 0, "STS R3,22"),
	A(RVM_PUSHM, DA, XX, XX, 0x7fff, 0, "PUSHM all"), A(RVM_BL, DA, XX, XX, 2, 0, "BL +2"), A(RVM_RET, XX, XX, XX, 0, 0, "RET"),
};
static std::vector<I> memops = {
	A(RVM_LDRB, R0, R5, XX, 0, 0, "LDRB R0,R5"), A(RVM_LDRH, R0, R5, XX, 0, 0, "LDRH R0,R5"), A(RVM_LDRW, R0, R5, XX, 0, 0, "LDRW R0,R5"), A(RVM_LDR, R0, R5, XX, 0, 0, "LDR R0,R5"), A(RVM_LDRP, R2, R6, XX, 0, 0, "LDRP R2,R6"), A(RVM_LDRR, R2, R6, XX, 0, 0, "LDRR R2,R6"),
	A(RVM_STRB, R2, R5, XX, 0, 0, "STRB R2,R5"), A(RVM_STRH, R2, R5, XX, 0, 0, "STRH R2,R5"), A(RVM_STRW, R2, R5, XX, 0, 0, "STRW R2,R5"), A(RVM_STR, R0, R6, XX, 0, 0, "STR R0,R6"), A(RVM_STRP, R0, R5, XX, 0, 0, "STRP R0,R5"), A(RVM_STRR, R2, R6, XX, 0, 0, "STRR R2,R6"), A(RVM_STRR, R0, R2, XX, 0, 0, "STRR R0,R2"), A(RVM_CLRR, R6, XX, XX, 0, 0, "CLRR R6"),
	A(RVM_INC, R5, XX, XX, 0, 0, "INC R5"), A(RVM_ADD, R5, R5, DA, 3, 0, "ADD R5,R5,3"), A(RVM_STM, R6, DA, XX, 1 << R0 | 1 << R2 | 1 << SP, 0, "STM R6,{R0,R2,SP}"), A(RVM_LDM, R5, DA, XX, 1 << R0 | 1 << R2 | 1 << R7, 0, "LDM R5,{R0,R2,R7}"), A(RVM_LDM, R6, DA, XX, 1 << R2 | 1 << FP, 0, "LDM R6,{R2,FP}"), A(RVM_STM, R5, R4, XX, 0, 0, "STM R5,{by R4}"), A(RVM_SWP, R0, R2, XX, 0, 0, "SWP R0,R2"), A(RVM_MOV, R0, DA, XX, 0xfedcba9876543210ull, 0, "MOV R0,big"),
};
static std::vector<I> callops;
static std::vector<I> mixed;
static void gen(std::vector<I> &p, const std::vector<I> &al, uint64_t i) { p.clear(); for (int c : vh::nthstring(i, al.size())) p.push_back(al[c]); }
static void add(const char *name, const std::vector<I> *al, int maxlen, int variants, bool debug = false)
{
	vh::Family f;
	f.name = name; f.count = vh::nstrings(al->size(), maxlen) * variants; f.chunk = debug ? 16 : 256;
	f.run = [al, variants, debug](uint64_t i) { static std::vector<I> p; gen(p, *al, i / variants); runprog(p, (int)(i % variants), debug); };
	f.describe = [al, variants](uint64_t i) { std::vector<I> p; gen(p, *al, i / variants); return show(p) + " (variant " + std::to_string(i % variants) + ")"; };
	vh::families.push_back(f);
}
// a recursive function, for every depth and stack size: sum(n) with full frames; the stack either suffices or the run ends with the error
static void recursion(uint64_t i)
{
	static std::vector<I> p; p.clear();
	int n = (int)(i % 8), kind = (int)(i / 8 % 3), size = (int)(i / 24) + 1;
	U regs = 1 << R0 | 1 << LR | (kind == 2 ? 1 << FP : 0);
	p.push_back(A(RVM_MOV, R0, DA, XX, (U)n, 0, "MOV R0,n"));
	p.push_back(A(RVM_MOV, R7, DA, XX, 0, 0, "MOV R7,0"));
	p.push_back(A(RVM_BL, DA, XX, XX, 2, 0, "BL f"));
	p.push_back(A(RVM_EXT, XX, XX, XX, 0, 0, "EXT"));
	if (kind == 0) { p.push_back(A(RVM_PUSH, LR, XX, XX, 0, 0, "PUSH LR")); p.push_back(A(RVM_PUSH, R0, XX, XX, 0, 0, "PUSH R0")); }
	else p.push_back(A(RVM_PUSHM, DA, XX, XX, regs, 0, "PUSHM"));
	if (kind == 2) p.push_back(A(RVM_MOV, FP, SP, XX, 0, 0, "MOV FP,SP"));
	int entry = 4;
	p.push_back(A(RVM_CMP, R0, DA, XX, 0, 0, "CMP R0,0"));
	int at = (int)p.size();
	p.push_back(A(RVM_BEQ, DA, XX, XX, 4, 0, "BEQ out"));
	p.push_back(A(RVM_ADD, R7, R7, R0, 0, 0, "ADD R7,R7,R0"));
	p.push_back(A(RVM_DEC, R0, XX, XX, 0, 0, "DEC R0"));
	p.push_back(A(RVM_BL, DA, XX, XX, (U)(L)(entry - (at + 3)), 0, "BL f"));
	if (kind == 0) { p.push_back(A(RVM_POP, R0, XX, XX, 0, 0, "POP R0")); p.push_back(A(RVM_POP, LR, XX, XX, 0, 0, "POP LR")); }
	else p.push_back(A(RVM_POPM, DA, XX, XX, regs, 0, "POPM"));
	p.push_back(A(RVM_RET, XX, XX, XX, 0, 0, "RET"));
	rvmcpu_t *so = obs, *sp = plain; int ss = stacksize;
	stacksize = size < 6 ? 6 : size; obs = rvm_cpu_create(stacksize); plain = rvm_cpu_create(stacksize);
	for (int k = 0; k < RVM_COUNT; k++) if (obs->ops[k].op) obs->ops[k].op = step;
	// an independent account of the outcome
	U perframe = kind == 2 ? 3 : 2, spv = 0; bool over = false;
	for (int d = 0; d <= n; d++) { U need = kind == 0 ? spv + 2 : spv + RVM_REGS_NUM; if (need >= (U)stacksize) { over = true; break; } spv += perframe; }
	runprog(p, 0);
	if (nsteps < STEPS && (over != (m.err == RVM_E_NOMEM) || (!over && m.r[R7].w != (U)(n * (n + 1) / 2)))) vh::fail("recursion depth %d stack %d kind %d: error %ld sum %ld", n, stacksize, kind, (long)m.err, (long)m.r[R7].w);
	rvm_cpu_destroy(obs); rvm_cpu_destroy(plain);
	obs = so; plain = sp; stacksize = ss;
}
// every set of registers through every multi-register instruction
static void regsets(uint64_t i)
{
	static std::vector<I> p; p.clear();
	vh::Idx ix(i);
	int variant = ix.take(2) * 2, kind = ix.take(6); U set = ix.take(1 << RLST);
	I push = A(RVM_PUSHM, DA, XX, XX, set, 0, "PUSHM set"), pop = A(RVM_POPM, DA, XX, XX, set, 0, "POPM set"), st = A(RVM_STM, R5, DA, XX, set, 0, "STM R5,set"), ld = A(RVM_LDM, R5, DA, XX, set, 0, "LDM R5,set");
	I chg[] = {A(RVM_MOV, R0, DA, XX, 77, 0, "MOV R0,77"), A(RVM_MOV, R7, DA, XX, 78, RVM_DTYPE_SIGNED, "MOV R7,78"), A(RVM_MOV, FP, R0, XX, 0, 0, "MOV FP,R0"), A(RVM_INC, R2, XX, XX, 0, 0, "INC R2"), A(RVM_MOV, R4, R3, XX, 0, 0, "MOV R4,R3"), A(RVM_ADD, LR, LR, DA, 32, 0, "ADD LR,LR,32")};
	auto clobber = [&] { for (auto &c : chg) p.push_back(c); };
	switch (kind) {
	case 0: p.push_back(push); clobber(); p.push_back(pop); break;
	case 1: p.push_back(pop); break;
	case 2: p.push_back(st); clobber(); p.push_back(ld); break;
	case 3: p.push_back(ld); break;
	case 4: p.push_back(A(RVM_MOV, R0, DA, XX, set, 0, "MOV R0,set")); p.push_back(A(RVM_PUSHM, R0, XX, XX, 0, 0, "PUSHM R0")); clobber(); p.push_back(pop); break;
	case 5: p.push_back(A(RVM_MOV, SP, DA, XX, 15, 0, "MOV SP,15")); p.push_back(pop); p.push_back(A(RVM_POP, R1, XX, XX, 0, 0, "POP R1")); break;
	}
	runprog(p, variant);
}
// every instruction with every choice of operand registers
static std::vector<std::pair<int, const char *>> ops3 = {
	{RVM_MOV, "MOV"}, {RVM_MOVS, "MOVS"}, {RVM_SWP, "SWP"}, {RVM_INC, "INC"}, {RVM_DEC, "DEC"}, {RVM_ADD, "ADD"}, {RVM_SUB, "SUB"}, {RVM_MUL, "MUL"}, {RVM_CLR, "CLR"}, {RVM_TYPE, "TYPE"}, {RVM_SETTYPE, "SETTYPE"}, {RVM_CMP, "CMP"},
	{RVM_B, "B"}, {RVM_BEQ, "BEQ"}, {RVM_BNEQ, "BNEQ"}, {RVM_BLES, "BLES"}, {RVM_BGRE, "BGRE"}, {RVM_BLEQ, "BLEQ"}, {RVM_BGEQ, "BGEQ"}, {RVM_BL, "BL"}, {RVM_BX, "BX"}, {RVM_BXEQ, "BXEQ"}, {RVM_BXNEQ, "BXNEQ"}, {RVM_BXL, "BXL"}, {RVM_RET, "RET"},
	{RVM_PUSH, "PUSH"}, {RVM_POP, "POP"}, {RVM_PUSHM, "PUSHM"}, {RVM_POPM, "POPM"}, {RVM_LDS, "LDS"}, {RVM_STS, "STS"}, {RVM_LDR, "LDR"}, {RVM_LDRP, "LDRP"}, {RVM_LDRW, "LDRW"}, {RVM_LDRH, "LDRH"}, {RVM_LDRB, "LDRB"}, {RVM_STR, "STR"}, {RVM_STRP, "STRP"}, {RVM_STRW, "STRW"}, {RVM_STRH, "STRH"}, {RVM_STRB, "STRB"},
	{RVM_LDRR, "LDRR"}, {RVM_STRR, "STRR"}, {RVM_CLRR, "CLRR"}, {RVM_STM, "STM"}, {RVM_LDM, "LDM"}, {RVM_USER130, "USER130"},
};
static void operands(uint64_t i)
{
	static std::vector<I> p; p.clear(); static char txt[64];
	vh::Idx ix(i);
	int variant = ix.take(4), imm = ix.take(3), a = ix.take(RLST), b = ix.take(RVM_REGS_NUM), c = ix.take(RVM_REGS_NUM); auto &o = ops3[ix.take(ops3.size())];
	U v = imm == 0 ? 2 : imm == 1 ? (U)(mem + 8) : (U)-1;
	snprintf(txt, sizeof txt, "%s r%d,r%d,r%d imm %d", o.second, a, b, c, imm);
	p.push_back(A(o.first, a, b, c, v, 0, txt));
	p.push_back(A(RVM_INC, R3, XX, XX, 0, 0, "INC R3"));
	runprog(p, variant);
}
static void setup()
{
	bool T = vh::thorough;
	callops = {
		A(RVM_SWI, XX, XX, XX, 0, 0, "SWI second"), A(RVM_SWIID, DA, XX, XX, USERSWI, 0, "SWIID second"), A(RVM_SWIID, DA, XX, XX, 0x301, 0, "SWIID bad table"), A(RVM_CALL, DA, XX, XX, USERSWI, RVM_DTYPE_SWIID, "CALL swi"), A(RVM_CALL, R0, XX, XX, 0, 0, "CALL R0"), A(RVM_CALL, R1, XX, XX, 0, 0, "CALL R1"),
		A(RVM_CALL, DA, XX, XX, (U)useroph, RVM_DTYPE_OPHANDLER, "CALL handler"), A(RVM_SETTYPE, R1, DA, XX, RVM_DTYPE_FUNCTION, 0, "SETTYPE R1,function"), A(RVM_SETTYPE, R1, DA, XX, RVM_DTYPE_SWIID, 0, "SETTYPE R1,swiid"), A(RVM_TYPE, R0, R1, XX, 0, 0, "TYPE R0,R1"), A(RVM_MOV, R0, DA, XX, USERSWI, RVM_DTYPE_SWIID, "MOV R0,swiid"), A(RVM_SWP, R0, R1, XX, 0, 0, "SWP R0,R1"),
		A(RVM_RET, XX, XX, XX, 0, 0, "RET"), A(RVM_USER130, R0, R2, XX, 0, 0, "USER130 R0,R2"), A(RVM_ABORT, DA, XX, XX, 77, 0, "ABORT 77"), A(RVM_CLR, R1, XX, XX, 0, 0, "CLR R1"), A(RVM_MOV, R1, LR, XX, 0, 0, "MOV R1,LR"), A(RVM_MOV, R1, PC, XX, 0, 0, "MOV R1,PC"), A(RVM_EXT, XX, XX, XX, 0, 0, "EXT"),
	};
	mixed = {control[0], control[1], control[7], control[6], control[10], control[12], stackops[0], stackops[3], stackops[7], stackops[8], stackops[12], stackops[17], stackops[18], memops[1], memops[7], memops[14], memops[16], memops[17], callops[0], control[5]};
	vh::worker_init = [] {
		obs = rvm_cpu_create(stacksize); plain = rvm_cpu_create(stacksize);
		for (rvmcpu_t *c : {obs, plain}) { rvm_cpu_addswitable(c, "tab", swis); rvm_cpu_setophandler(c, RVM_USER130, "USER130", userop); }
		memcpy(orig, obs->ops, sizeof orig);
		for (int k = 0; k < RVM_COUNT; k++) if (obs->ops[k].op) obs->ops[k].op = step;
		if (!vh::replaying && !freopen("/dev/null", "w", stdout)) _exit(4);
	};
	add("control", &control, T ? 6 : 5, 2);
	add("stack", &stackops, T ? 5 : 4, 2);
	add("memory", &memops, T ? 5 : 4, 2);
	add("calls", &callops, T ? 6 : 5, 1);
	add("mixed", &mixed, T ? 6 : 5, 1);
	add("debug-run-control", &control, T ? 4 : 3, 4, true);
	add("debug-run-stack", &stackops, T ? 4 : 3, 4, true);
	add("debug-run-memory", &memops, T ? 4 : 3, 4, true);
	vh::Family q; q.name = "register-sets"; q.count = 12ull << RLST; q.run = regsets; q.chunk = 256; q.describe = [](uint64_t i) { return "register set " + std::to_string(i / 12) + " kind " + std::to_string(i / 2 % 6); }; vh::families.push_back(q);
	q.name = "operands"; q.count = 12ull * RLST * RVM_REGS_NUM * RVM_REGS_NUM * ops3.size(); q.run = operands; q.describe = [](uint64_t i) { vh::Idx ix(i); int v = ix.take(4), m = ix.take(3), a = ix.take(RLST), b = ix.take(RVM_REGS_NUM), c = ix.take(RVM_REGS_NUM); return std::string(ops3[ix.take(ops3.size())].second) + " " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + " variant " + std::to_string(v) + " immediate " + std::to_string(m); }; vh::families.push_back(q);
	vh::Family r; r.name = "recursion"; r.count = 24 * 60; r.run = recursion; r.describe = [](uint64_t i) { return "recursive sum of " + std::to_string(i % 8) + " frame kind " + std::to_string(i / 8 % 3) + " stack " + std::to_string(i / 24 + 1); }; vh::families.push_back(r);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
