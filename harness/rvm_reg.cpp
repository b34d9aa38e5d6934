// V05: typed register values: every history of register functions against a model of what each register holds, every
// instruction constructor, every text converted to a number, every small graph of containers through the collector's helper.
#include "vh.hpp"
#include <cfloat>
#include <climits>
#include <cmath>
extern "C" {
#include "rvm/rvmcpu.h"
#include "rvm/rvmreg.h"
#include "rlib/rmem.h"
#include "rlib/rgc.h"
#include "rlib/rstring.h"
rvmreg_t *rvm_reg_copy(rvmreg_t *dst, const rvmreg_t *src);     // exported, but in no header
}
typedef uint64_t U; typedef int64_t L;
static char pool[16];
struct Val { int kind; U w; uint32_t size; std::string s; };     // what a value is: kind, bits, text of strings
static std::vector<Val> vals;
static U bits(double d) { U u; memcpy(&u, &d, 8); return u; }
static U pairbits(uint32_t a, uint32_t b) { rpair_t p; memset(&p, 0, sizeof p); p.p1 = a; p.p2 = b; U u = 0; memcpy(&u, &p, 8); return u; }
static void mkvals()
{
	for (U w : {(U)0, (U)1, ~(U)0, (U)1 << 63}) vals.push_back({RVM_DTYPE_UNSIGNED, w, 0, ""});
	for (L l : {(L)0, (L)-1, (L)LONG_MIN, (L)77}) vals.push_back({RVM_DTYPE_SIGNED, (U)l, 0, ""});
	for (U b : {(U)0, (U)1}) vals.push_back({RVM_DTYPE_BOOLEAN, b, 0, ""});
	for (double d : {0.0, 2.5, -1e300}) vals.push_back({RVM_DTYPE_DOUBLE, bits(d), 0, ""});
	vals.push_back({RVM_DTYPE_PAIR, pairbits(0xffffffffu, 7), 0, ""}); vals.push_back({RVM_DTYPE_PAIR, pairbits(0, 0xfffffffeu), 0, ""});
	vals.push_back({RVM_DTYPE_POINTER, (U)(pool + 3), 0, ""}); vals.push_back({RVM_DTYPE_SWIID, 0x304, 0, ""}); vals.push_back({RVM_DTYPE_OPHANDLER, (U)(pool + 1), 0, ""}); vals.push_back({RVM_DTYPE_PROPHANDLER, (U)(pool + 2), 0, ""});
	vals.push_back({RVM_DTYPE_STRPTR, (U)pool, 5, ""}); vals.push_back({RVM_DTYPE_STRPTR, (U)pool, 0, ""});
	vals.push_back({RVM_DTYPE_UNDEF, 0, 0, ""});
	for (const char *s : {"", "text", "-12.5e1"}) vals.push_back({RVM_DTYPE_STRING, 0, 0, s});
	vals.push_back({RVM_DTYPE_ARRAY, 3, 0, ""}); vals.push_back({RVM_DTYPE_HARRAY, 2, 0, ""}); vals.push_back({RVM_DTYPE_MAP, 2, 0, ""});
}
static std::string name(const Val &v) { static const char *n[] = {"unsigned", "signed", "pointer", "boolean", "double", "pair", "undefined", "text pointer", "string", "array", "harray", "nan", "map", "function", "call number", "handler", "property handler"}; return std::string(n[v.kind]) + (v.kind == RVM_DTYPE_STRING ? " '" + v.s + "'" : vh::fmt(" %lx", v.w)); }
static bool isobj(int k) { return k == RVM_DTYPE_STRING || k == RVM_DTYPE_ARRAY || k == RVM_DTYPE_HARRAY || k == RVM_DTYPE_MAP; }
static rvmreg_t mk(const Val &v, bool viaset)
{
	rvmreg_t r; memset(&r, 0x5a, sizeof r);
	switch (v.kind) {
	case RVM_DTYPE_UNSIGNED: rvm_reg_setunsigned(&r, v.w); break;
	case RVM_DTYPE_SIGNED: if (viaset) rvm_reg_setsigned(&r, (rword)v.w); else r = rvm_reg_create_signed((rword)v.w); break;
	case RVM_DTYPE_BOOLEAN: rvm_reg_setboolean(&r, viaset ? v.w : v.w * 2); break;
	case RVM_DTYPE_DOUBLE: { double d; memcpy(&d, &v.w, 8); if (viaset) rvm_reg_setdouble(&r, d); else r = rvm_reg_create_double(d); } break;
	case RVM_DTYPE_PAIR: { rpair_t p; memcpy(&p, &v.w, sizeof p); if (viaset) rvm_reg_setpair(&r, p.p1, p.p2); else r = rvm_reg_create_pair(p.p1, p.p2); } break;
	case RVM_DTYPE_POINTER: if (viaset) rvm_reg_setpointer(&r, (rpointer)v.w); else r = rvm_reg_create_pointer((rpointer)v.w); break;
	case RVM_DTYPE_SWIID: if (viaset) rvm_reg_setswi(&r, v.w); else r = rvm_reg_create_swi(v.w); break;
	case RVM_DTYPE_OPHANDLER: if (viaset) rvm_reg_setophandler(&r, (rpointer)v.w); else r = rvm_reg_create_ophandler((rpointer)v.w); break;
	case RVM_DTYPE_PROPHANDLER: if (viaset) rvm_reg_setprophandler(&r, (rpointer)v.w); else r = rvm_reg_create_prophandler((rpointer)v.w); break;
	case RVM_DTYPE_STRPTR: strcpy(pool, "hello world"); if (viaset) rvm_reg_setstrptr(&r, (char *)v.w, v.size); else r = rvm_reg_create_strptr((char *)v.w, v.size); break;
	case RVM_DTYPE_UNDEF: rvm_reg_setundef(&r); break;
	case RVM_DTYPE_STRING: { if (viaset) rvm_reg_setstring(&r, r_string_create_from_ansi(v.s.c_str())); else if (v.s.size() & 1) r = rvm_reg_create_string_ansi(v.s.c_str()); else { rstr_t *q = r_rstrdup(v.s.data(), v.s.size()); r = rvm_reg_create_string(q); r_rstr_free(q); } } break;
	case RVM_DTYPE_ARRAY: { rarray_t *a = r_array_create(sizeof(long)); for (long k = 0; k < (long)v.w; k++) r_array_add(a, &k); rvm_reg_setarray(&r, (robject_t *)a); } break;
	case RVM_DTYPE_HARRAY: { rharray_t *a = r_harray_create(sizeof(long)); for (long k = 0; k < (long)v.w; k++) r_harray_add_s(a, k ? "one" : "zero", &k); rvm_reg_setharray(&r, (robject_t *)a); } break;
	case RVM_DTYPE_MAP: { rmap_t *a = r_map_create(sizeof(long), 3); for (long k = 0; k < (long)v.w; k++) r_map_add_s(a, k ? "one" : "zero", &k); if (viaset) rvm_reg_setmap(&r, (robject_t *)a); else rvm_reg_setjsobject(&r, (robject_t *)a); } break;
	}
	return r;
}
struct Slot { int v = -1; int type = 0; int flags = 0; robject_t *o = nullptr; };    // v: index of the value held, -1: cleared
static void contents(const rvmreg_t &r, const Val &v, const char *what)
{
	robject_t *o = (robject_t *)RVM_REG_GETP(&r);
	switch (v.kind) {
	case RVM_DTYPE_STRING: { rstring_t *s = (rstring_t *)o; if (!s->str || v.s != s->str || s->size != v.s.size()) vh::fail("%s: the string is '%s'", what, s->str ? s->str : "(nothing)"); } break;
	case RVM_DTYPE_ARRAY: { rarray_t *a = (rarray_t *)o; if (r_array_length(a) != v.w) vh::fail("%s: the array has %lu elements", what, (unsigned long)r_array_length(a)); for (long k = 0; k < (long)v.w; k++) if (r_array_index(a, k, long) != k) vh::fail("%s: array element %ld", what, k); } break;
	case RVM_DTYPE_HARRAY: { rharray_t *a = (rharray_t *)o; if (r_harray_length(a) != v.w) vh::fail("%s: the named array has %ld elements", what, (long)r_harray_length(a)); for (long k = 0; k < (long)v.w; k++) { long i = r_harray_lookup_s(a, k ? "one" : "zero"); if (i != k || *(long *)r_harray_get(a, i) != k) vh::fail("%s: named element %ld", what, k); } } break;
	case RVM_DTYPE_MAP: { rmap_t *a = (rmap_t *)o; for (long k = 0; k < (long)v.w; k++) { long i = r_map_lookup_s(a, k ? "one" : "zero"); if (i < 0 || *(long *)r_map_value(a, i) != k) vh::fail("%s: map entry %ld", what, k); } } break;
	}
}
static void check(const rvmreg_t &r, const Slot &s, const char *what)
{
	if (rvm_reg_gettype(&r) != s.type) vh::fail("%s: the kind is %d, should be %d", what, rvm_reg_gettype(&r), s.type);
	for (int f : {RVM_INFOBIT_ROBJECT, RVM_INFOBIT_GLOBAL, RVM_INFOBIT_LAST}) if (!!rvm_reg_tstflag(&r, f) != !!(s.flags & f)) vh::fail("%s: flag %d", what, f);
	if (s.v < 0) { if (r.v.w) vh::fail("%s: holds %lx after it was cleared", what, r.v.w); return; }
	const Val &v = vals[s.v];
	if (isobj(v.kind)) { if (RVM_REG_GETP(&r) != s.o || rvm_reg_pointer(&r) != s.o) vh::fail("%s: refers to another object", what); contents(r, v, what); if (v.kind == s.type && v.kind == RVM_DTYPE_STRING && (void *)rvm_reg_string(&r) != s.o) vh::fail("%s: string", what); if (v.kind == s.type && v.kind == RVM_DTYPE_MAP && (void *)rvm_reg_jsobject(&r) != s.o) vh::fail("%s: map", what); return; }
	if (v.kind == RVM_DTYPE_PAIR ? memcmp(&r.v, &v.w, sizeof(rpair_t)) : r.v.w != v.w) vh::fail("%s: holds %lx, should be %lx", what, r.v.w, v.w);
	if (v.kind == RVM_DTYPE_STRPTR && RVM_REG_GETSIZE(&r) != v.size) vh::fail("%s: size %u", what, RVM_REG_GETSIZE(&r));
	if (rvm_reg_signed(&r) != (rword)v.w || rvm_reg_int(&r) != (int)v.w || (U)rvm_reg_pointer(&r) != v.w || !!rvm_reg_boolean(&r) != (v.w != 0)) vh::fail("%s: read as a number", what);
	double d; if (s.type == RVM_DTYPE_DOUBLE) memcpy(&d, &v.w, 8); else d = (double)(L)v.w;
	if (s.type == v.kind && (v.kind == RVM_DTYPE_DOUBLE || v.kind == RVM_DTYPE_SIGNED) && rvm_reg_double(&r) != d) vh::fail("%s: read as %g, should be %g", what, rvm_reg_double(&r), d);
}
// ---- histories over two registers
static int depth; static const int NR = 2;
struct Op { int k, r, a; };
static std::vector<Op> ops;
static std::string opname(const Op &o) { switch (o.k) { case 0: return vh::fmt("r%d = %s", o.r, name(vals[o.a]).c_str()); case 1: return vh::fmt("create r%d = %s", o.r, name(vals[o.a]).c_str()); case 2: return vh::fmt("copy r%d to r%d", o.a, o.r); case 3: return vh::fmt("clean r%d", o.r); case 4: return vh::fmt("init r%d", o.r); case 5: return vh::fmt("kind of r%d = %d", o.r, o.a); case 6: return vh::fmt("set flag %d of r%d", o.a, o.r); case 7: return vh::fmt("clear flag %d of r%d", o.a, o.r); } return "?"; }
static std::string show(uint64_t i) { std::string s; std::vector<int> o(depth); for (int k = depth; k--;) { o[k] = i % ops.size(); i /= ops.size(); } for (int x : o) s += opname(ops[x]) + "; "; return s; }
static void run(uint64_t i)
{
	int q[8]; for (int k = depth; k--;) { q[k] = i % ops.size(); i /= ops.size(); }
	long mem = r_debug_get_allocmem(); U sig = 0; std::vector<std::pair<robject_t *, int>> live;      // every object made, with its value
	rvmreg_t r[NR]; Slot s[NR]; for (int k = 0; k < NR; k++) { memset(&r[k], 0, sizeof r[k]); rvm_reg_init(&r[k]); }
	for (int k = 0; k < depth; k++) {
		const Op &o = ops[q[k]]; rvmreg_t &d = r[o.r]; Slot &t = s[o.r];
		switch (o.k) {
		case 0: case 1: d = mk(vals[o.a], o.k == 0); t = Slot{o.a, vals[o.a].kind, isobj(vals[o.a].kind) ? RVM_INFOBIT_ROBJECT : 0, nullptr}; if (isobj(vals[o.a].kind)) { t.o = (robject_t *)RVM_REG_GETP(&d); live.push_back({t.o, o.a}); } break;
		case 2: {
			const Slot from = s[o.a]; if ((from.flags & RVM_INFOBIT_ROBJECT) && (!from.o || vals[from.v].kind == RVM_DTYPE_MAP)) break;      // a flag put on something else: not defined; maps cannot be copied
			rvmreg_t before = r[o.a]; if (rvm_reg_copy(&d, &r[o.a]) != &d) vh::fail("copy returns another register"); if (o.a != o.r && memcmp(&before, &r[o.a], sizeof before)) vh::fail("copying changes the source"); t = from;
			if (from.o && (from.flags & RVM_INFOBIT_ROBJECT)) { t.o = (robject_t *)RVM_REG_GETP(&d); if (!t.o || t.o == from.o) vh::fail("[%s] the copy of an object is the object itself", opname(o).c_str()); live.push_back({t.o, t.v}); if (t.o->type != from.o->type) vh::fail("the copy of an object is of another kind"); } } break;
		case 3: rvm_reg_cleanup(&d); t = Slot(); break;
		case 4: rvm_reg_init(&d); t = Slot(); break;
		case 5: rvm_reg_settype(&d, o.a); t.type = o.a; break;
		case 6: rvm_reg_setflag(&d, o.a); t.flags |= o.a; break;
		case 7: rvm_reg_clrflag(&d, o.a); t.flags &= ~o.a; break;
		}
		for (int j = 0; j < NR; j++) { check(r[j], s[j], opname(o).c_str()); sig = vh::mix(sig, s[j].v * 100 + s[j].type * 8 + s[j].flags); }
		for (auto &l : live) { rvmreg_t x; memset(&x, 0, sizeof x); RVM_REG_SETP(&x, l.first); contents(x, vals[l.second], "an object made earlier"); }
	}
	for (auto &l : live) r_object_destroy(l.first);
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::eval(depth); vh::steps(depth); vh::distinct(sig);
}
// ---- instruction constructors: what the instruction carries, and what a machine receives from it
static rvmcpu_t *cpu;
static std::vector<std::array<int, 3>> forms = {{R0, DA, XX}, {DA, R1, XX}, {R0, R1, DA}, {R0, R1, R2}, {XX, XX, XX}, {DA, DA, DA}};
static void ctor(uint64_t i)
{
	vh::Idx x(i); const Val &v = vals[x.take(vals.size())]; auto f = forms[x.take(forms.size())]; int cond = x.take(8); int code = x.take(2) ? RVM_MOV : RVM_USER130; int fn = x.take(2);
	rvm_asmins_t a; double d; memcpy(&d, &v.w, 8); rpair_t p; memcpy(&p, &v.w, sizeof p); int kind = v.kind;
#define MK(n, ...) (cond ? rvm_cond_##n(cond, code, f[0], f[1], f[2], __VA_ARGS__) : rvm_##n(code, f[0], f[1], f[2], __VA_ARGS__))
	switch (v.kind) {
	case RVM_DTYPE_UNSIGNED: if (fn) { a = MK(asmf, v.w); kind = RVM_DTYPE_FUNCTION; } else a = MK(asm, v.w); break;
	case RVM_DTYPE_SIGNED: a = MK(asml, (long)v.w); break;
	case RVM_DTYPE_BOOLEAN: a = MK(asmb, fn ? v.w * 4 : v.w); break;
	case RVM_DTYPE_DOUBLE: a = MK(asmd, d); break;
	case RVM_DTYPE_PAIR: a = MK(asm2, p.p1, p.p2); break;
	case RVM_DTYPE_POINTER: a = MK(asmp, (rpointer)v.w); break;
	case RVM_DTYPE_SWIID: a = MK(asms, v.w); break;
	case RVM_DTYPE_STRPTR: a = MK(asma, (char *)v.w, v.size); break;
	default: return;
	}
	bool da = f[0] == DA || f[1] == DA || f[2] == DA;
	if (a.opcode != (unsigned)code || a.op1 != f[0] || a.op2 != f[1] || a.op3 != f[2] || !!a.da != da || a.cond != cond || a.swi) vh::fail("the instruction is opcode %d %d,%d,%d immediate %d condition %d call %d", (int)a.opcode, a.op1, a.op2, a.op3, (int)a.da, (int)a.cond, (int)a.swi);
	if (a.data.type != kind || a.data.flags || (kind == RVM_DTYPE_PAIR ? memcmp(&a.data.v, &v.w, sizeof(rpair_t)) : a.data.v.w != v.w) || (kind == RVM_DTYPE_STRPTR && a.data.size != v.size)) vh::fail("the immediate is %lx of kind %d, should be %lx of kind %d", a.data.v.w, a.data.type, v.w, kind);
	vh::eval(); vh::steps(1); vh::distinct(i);
	if (code != RVM_MOV || f[0] != R0 || f[1] != DA || cond) return;
	rvm_asmins_t prog[4] = {a, rvm_asm(RVM_PUSH, R0, XX, XX, 0), rvm_asm(RVM_POP, R7, XX, XX, 0), rvm_asm(RVM_EXT, XX, XX, XX, 0)};
	rvmreg_t z = rvm_reg_create_signed(5); for (int k = R0; k <= R7; k++) rvm_cpu_setreg(cpu, k, &z); rvm_reg_setunsigned(&z, 0); rvm_cpu_setreg(cpu, SP, &z);
	if (rvm_cpu_exec(cpu, prog, 0)) vh::fail("does not run");
	for (int k : {R0, R7}) { rvmreg_t *r = rvm_cpu_getreg(cpu, k); if (r->type != kind || r->v.w != a.data.v.w || r->size != a.data.size || r->flags) vh::fail("r%d holds %lx of kind %d", k, r->v.w, r->type); }
	if (rvm_cpu_getreg(cpu, RLST) || !rvm_cpu_getreg(cpu, RLST - 1) || rvm_cpu_setreg(cpu, RLST, &z) != -1) vh::fail("register numbers are not checked");
}
// ---- texts read as numbers
static std::vector<std::string> texts;
static void nums(uint64_t i)
{
	const std::string &t = texts[i]; rvmreg_t s = rvm_reg_create_string_ansi(t.c_str()), d; long mem = r_debug_get_allocmem();
	char *e; long l = strtol(t.c_str(), &e, 10); double v = strtod(t.c_str(), nullptr); bool fl = *e == '.';
	memset(&d, 0x33, sizeof d); if (rvm_reg_str2num(&d, &s)) vh::fail("refused as a number");
	if (fl ? d.type != RVM_DTYPE_DOUBLE || d.v.w != bits(v) : d.type != RVM_DTYPE_SIGNED || (long)d.v.w != l) vh::fail("read as %lx of kind %d", d.v.w, d.type);
	if (d.flags) vh::fail("flags of a number");
	memset(&d, 0x33, sizeof d); if (rvm_reg_str2double(&d, &s) || d.type != RVM_DTYPE_DOUBLE || d.flags || d.v.w != bits(v)) vh::fail("read as the double %lx", d.v.w);
	if (fabs(v) < 9e18) { memset(&d, 0x33, sizeof d); if (rvm_reg_str2signed(&d, &s) || d.type != RVM_DTYPE_SIGNED || d.flags || (long)d.v.w != (long)v) vh::fail("read as the signed %ld", (long)d.v.w); }
	if (strcmp(R_STRING2ANSI(RVM_REG_GETP(&s)), t.c_str()) || (long)r_debug_get_allocmem() != mem) vh::fail("the text was changed");
	// in place
	robject_t *o = (robject_t *)RVM_REG_GETP(&s); if (rvm_reg_str2num(&s, &s) || s.type != (fl ? RVM_DTYPE_DOUBLE : RVM_DTYPE_SIGNED) || s.v.w != (fl ? bits(v) : (U)l) || s.flags) vh::fail("in place: read as %lx of kind %d", s.v.w, s.type);
	r_object_destroy(o); vh::eval(4); vh::steps(4); vh::distinct(vh::mix(l, bits(v)));
}
// ---- the collector's helper, on every small graph of containers
static int nn; static const int EDGES = 2;
static std::string gshow(uint64_t i) { vh::Idx x(i); std::string s; for (int k = 0; k < nn; k++) { static const char *kn[] = {"string", "array", "carray", "harray"}; int kd = x.take(k ? 4 : 3) + (k ? 0 : 1), g = x.take(2); s += vh::fmt("%d: %s%s", k, kn[kd], g ? " (collected)" : ""); for (int e = 0; e < EDGES; e++) { int to = x.take(nn + 2); if (kd && to < nn) s += vh::fmt(" ->%d", to); if (kd && to == nn) s += " 4"; } s += "; "; } return s; }
static void graph(uint64_t i)
{
	vh::Idx x(i); int kind[4], gc[4], to[4][EDGES];
	for (int k = 0; k < nn; k++) { kind[k] = x.take(k ? 4 : 3) + (k ? 0 : 1); gc[k] = x.take(2); for (int e = 0; e < EDGES; e++) to[k][e] = x.take(nn + 2); }
	long mem = r_debug_get_allocmem(); rgc_t *c = r_gc_create(); robject_t *ob[4];
	for (int k = 0; k < nn; k++) { ob[k] = kind[k] == 0 ? (robject_t *)r_string_create_from_ansi("leaf") : kind[k] == 1 ? (robject_t *)r_array_create(sizeof(rvmreg_t)) : kind[k] == 2 ? (robject_t *)r_carray_create(sizeof(rvmreg_t)) : (robject_t *)r_harray_create(sizeof(rvmreg_t)); if (gc[k]) r_gc_add(c, ob[k]); }
	auto add = [&](int k, rvmreg_t *r, const char *nm) { if (kind[k] == 1) r_array_add((rarray_t *)ob[k], r); else if (kind[k] == 2) r_carray_add((rcarray_t *)ob[k], r); else r_harray_add_s((rharray_t *)ob[k], nm, r); };
	auto slot = [&](int k, long e) { return kind[k] == 1 ? (rvmreg_t *)r_array_slot((rarray_t *)ob[k], e) : kind[k] == 2 ? (rvmreg_t *)r_carray_slot((rcarray_t *)ob[k], e) : (rvmreg_t *)r_harray_get((rharray_t *)ob[k], e); };
	auto len = [&](int k) { return kind[k] == 1 ? (long)r_array_length((rarray_t *)ob[k]) : kind[k] == 2 ? (long)r_carray_length((rcarray_t *)ob[k]) : (long)r_harray_length((rharray_t *)ob[k]); };
	struct E { int to; bool cleared; }; std::vector<E> el[4];
	for (int k = 0; k < nn; k++) if (kind[k]) for (int e = 0; e < EDGES; e++) { int q = to[k][e]; rvmreg_t r; if (q > nn) continue; if (q == nn) r = rvm_reg_create_signed(40 + e); else { memset(&r, 0, sizeof r); RVM_REG_SETP(&r, ob[q]); RVM_REG_SETTYPE(&r, kind[q] == 0 ? RVM_DTYPE_STRING : RVM_DTYPE_ARRAY); RVM_REG_SETFLAG(&r, RVM_INFOBIT_ROBJECT); } add(k, &r, e ? "e1" : "e0"); el[k].push_back({q, false}); }
	std::vector<int> seen(nn, 0); std::function<void(int)> walk = [&](int k) { if (seen[k] || !kind[k]) return; seen[k] = 1; for (auto &e : el[k]) if (e.to < nn && gc[e.to]) { walk(e.to); e.cleared = true; } };
	walk(0);
	rvm_reg_array_unref_gcdata(ob[0]);
	U sig = i; auto verify = [&](const char *when, long extra) {
		for (int k = 0; k < nn; k++) if (kind[k]) {
			if (len(k) != (long)el[k].size() + extra) vh::fail("%s: container %d has %ld elements", when, k, len(k));
			for (size_t e = 0; e < el[k].size(); e++) {
				rvmreg_t *r = slot(k, e);
				if (el[k][e].cleared ? r->v.w || r->type || r->flags : el[k][e].to == nn ? r->v.w < 40 || r->v.w > 41 || r->type != RVM_DTYPE_SIGNED : RVM_REG_GETP(r) != ob[el[k][e].to] || !rvm_reg_tstflag(r, RVM_INFOBIT_ROBJECT)) vh::fail("%s: element %zu of container %d %s", when, e, k, el[k][e].cleared ? "still refers to a collected object" : "was changed");
			}
			for (long e = 0; e < extra; e++) if (slot(k, el[k].size() + e)->v.w != (U)e) vh::fail("%s: element added %ld to container %d", when, e, k);
		} };
	verify("afterwards", 0);
	for (int k = 0; k < nn; k++) if (kind[k]) for (long e = 0; e < 3; e++) { rvmreg_t r = rvm_reg_create_signed(e); char nm[16]; snprintf(nm, sizeof nm, "x%ld", e); add(k, &r, nm); }
	verify("after growing", 3);
	if (i % 64 == 0) { for (int k = 0; k < nn; k++) if (kind[k]) for (long e = 3; e < 600; e++) { rvmreg_t r = rvm_reg_create_signed(e); char nm[16]; snprintf(nm, sizeof nm, "x%ld", e); add(k, &r, nm); } verify("after growing much", 600); }
	for (int k = 0; k < nn; k++) if (!gc[k]) r_object_destroy(ob[k]);
	r_gc_destroy(c);
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::eval(2); vh::steps(nn); vh::distinct(sig);
}
static void setup()
{
	bool T = vh::thorough; strcpy(pool, "hello world"); mkvals(); depth = T ? 4 : 3; nn = 3;
	for (int r = 0; r < NR; r++) {
		for (size_t a = 0; a < vals.size(); a++) { ops.push_back({0, r, (int)a}); if (vals[a].kind != RVM_DTYPE_UNSIGNED && vals[a].kind != RVM_DTYPE_UNDEF) ops.push_back({1, r, (int)a}); }
		for (int a = 0; a < NR; a++) ops.push_back({2, r, a});
		ops.push_back({3, r, 0}); ops.push_back({4, r, 0}); ops.push_back({5, r, RVM_DTYPE_USER}); ops.push_back({5, r, RVM_DTYPE_MAX}); ops.push_back({6, r, RVM_INFOBIT_GLOBAL}); ops.push_back({7, r, RVM_INFOBIT_GLOBAL}); ops.push_back({7, r, RVM_INFOBIT_ROBJECT});
	}
	std::string na = "+-019.e x"; for (U k = 0; k < vh::nstrings(na.size(), T ? 6 : 5); k++) texts.push_back(vh::nthtext(k, na));
	for (const char *t : {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e308", "1e309", "4.9e-324", "0.1", "123456789.123456789", "inf", "nan", "0x10", "0x1p4", " \t\n7"}) texts.push_back(t);
	cpu = rvm_cpu_create(32);
	auto fam = [](const char *n, U c, void (*r)(uint64_t), std::string (*d)(uint64_t), unsigned ch) { vh::Family f; f.name = n; f.count = c; f.run = r; f.describe = d; f.chunk = ch; vh::families.push_back(f); };
	fam("histories", vh::ipow(ops.size(), depth), run, show, 256);
	fam("instructions", vals.size() * forms.size() * 8 * 2 * 2, ctor, [](uint64_t i) { vh::Idx x(i); std::string s = name(vals[x.take(vals.size())]); int f = x.take(forms.size()); return s + vh::fmt(" form %d,%d,%d condition %lu", forms[f][0], forms[f][1], forms[f][2], x.take(8)); }, 64);
	fam("numbers", texts.size(), nums, [](uint64_t i) { return "'" + vh::esc(texts[i]) + "'"; }, 256);
	U g = 1; for (int k = 0; k < nn; k++) g *= (k ? 4 : 3) * 2 * (nn + 2) * (nn + 2);
	fam("containers", g, graph, gshow, 256);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
