// L06: allocation accounting under every history, with every underlying allocation refused in turn; arrays and duplicates under refusal;
// create/use/destroy histories of every kind of object, with the underlying blocks counted as well.
#include "vh.hpp"
extern "C" {
#include "rlib/rmem.h"
#include "rlib/rarray.h"
#include "rlib/rcarray.h"
#include "rlib/rhash.h"
#include "rlib/rharray.h"
#include "rlib/rmap.h"
#include "rlib/rgc.h"
#include "rlib/rref.h"
#include "rlib/rbuffer.h"
#include "rlib/rstring.h"
#include "rvm/rvmcpu.h"
#include "rvm/rvmcodegen.h"
#include "rvm/rvmscope.h"
#include "rvm/rvmreg.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexregex.h"
#include "rex/rexcompiler.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexdfasimulator.h"
#include "rpa/rpadbex.h"
#include "rpa/rpastat.h"
#include "rpa/rparecord.h"
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static long live_blocks = 0, fail_at = -1, asked = 0;   // fail_at: ordinal of the request to refuse
static bool refuse(size_t n) { asked++; return (fail_at > 0 && asked == fail_at) || n > (1ul << 40); }
void *__wrap_malloc(size_t n) { if (refuse(n)) return NULL; live_blocks++; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (refuse(b && a > (1ul << 40) / b ? ~0ul : a * b)) return NULL; live_blocks++; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (refuse(n)) return NULL; if (!p) live_blocks++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) live_blocks--; __real_free(p); }
}
// the counters above also see the harness's own C allocations through libvh: it makes none while a case runs (operator new is not wrapped)

// ------------------------------------------------------------ A: the allocator
struct AOp { int k, s; size_t a, b; };
static std::vector<AOp> aops; static int adepth = 4;
static std::string aname(const AOp &o) { char b[96]; static const char *n[] = {"%d = malloc(%zd)", "%d = zmalloc(%zd)", "%d = calloc(%zd, %zd)", "%d = realloc(%zd)", "free %d", "reset maximum", "refuse the next request", "free NULL"}; snprintf(b, sizeof b, n[o.k], o.s, o.a, o.b); return b; }
static std::string showa(uint64_t i) { std::string s = "allocator:"; std::vector<int> o(adepth); for (int k = adepth; k--;) { o[k] = i % aops.size(); i /= aops.size(); } for (int x : o) s += " " + aname(aops[x]) + ";"; return s; }
static void runa(uint64_t i)
{
	int o_[8]; for (int k = adepth; k--;) { o_[k] = i % aops.size(); i /= aops.size(); }
	struct Blk { unsigned char *p = nullptr; size_t n = 0; long cost = 0; unsigned char fill = 0; } b[2];
	long base = r_debug_get_allocmem(), blocks0 = live_blocks, want = base; r_debug_reset_maxmem(); long peak = base;
	asked = 0; fail_at = -1; bool failing = false; unsigned char nf = 0; uint64_t sig = 0;
	auto check = [&](const std::string &after, long transient) {
		long got = r_debug_get_allocmem();
		if (got != want) vh::fail("after %s: %ld bytes are reported, should be %ld", after.c_str(), got - base, want - base);
		peak = std::max(peak, want); (void)transient;
		if ((long)r_debug_get_maxmem() != peak) vh::fail("after %s: the maximum is %ld, should be %ld", after.c_str(), (long)r_debug_get_maxmem() - base, peak - base);
		for (auto &x : b) for (size_t k = 0; k < x.n; k++) if (x.p[k] != x.fill) vh::fail("after %s: contents changed", after.c_str());
		sig = vh::mix(sig, got - base);
	};
	auto cost = [&](size_t n, const std::string &nm) { long c = (long)r_debug_get_allocmem() - want; if (c < (long)n || c > (long)n + 64) vh::fail("%s adds %ld bytes to the account", nm.c_str(), c); return c; };
	auto fill = [&](Blk &x) { x.fill = ++nf; memset(x.p, x.fill, x.n); };
	for (int k = 0; k < adepth; k++) {
		const AOp &o = aops[o_[k]]; std::string nm = aname(o); Blk &x = b[o.s];
		bool big = o.a > (1ul << 40) || (o.k == 2 && o.b && o.a > (1ul << 40) / o.b), fails = failing || big;
		fail_at = failing ? asked + 1 : -1;
		switch (o.k) {
		case 0: case 1: case 2: {
			if (x.p) { k = adepth; break; }   // the slot is taken: not a history of its own
			unsigned char *p = (unsigned char *)(o.k == 0 ? r_malloc(o.a) : o.k == 1 ? r_zmalloc(o.a) : r_calloc(o.a, o.b));
			size_t n = o.k == 2 ? o.a * o.b : o.a;
			if (!!p == fails) vh::fail("%s %s", nm.c_str(), p ? "succeeds though memory is refused" : "fails");
			failing = false;
			if (!p) break;
			if ((size_t)p % 8) vh::fail("%s gives an unaligned block", nm.c_str());
			if (o.k) for (size_t q = 0; q < n; q++) if (p[q]) vh::fail("%s gives a block that is not zeroed", nm.c_str());
			x.p = p; x.n = n; x.cost = cost(n, nm); want += x.cost; fill(x);
		} break;
		case 3: {
			unsigned char *p = (unsigned char *)r_realloc(x.p, o.a);
			if (!!p == fails) vh::fail("%s %s", nm.c_str(), p ? "succeeds though memory is refused" : "fails");
			failing = false;
			if (!p) break;
			for (size_t q = 0; q < std::min(x.n, (size_t)o.a); q++) if (p[q] != x.fill) vh::fail("%s loses the contents", nm.c_str());
			want -= x.cost; x.p = p; x.n = o.a; x.cost = cost(o.a, nm); want += x.cost; fill(x);
		} break;
		case 4: if (!x.p) { k = adepth; break; } r_free(x.p); want -= x.cost; x = Blk(); break;
		case 5: r_debug_reset_maxmem(); peak = want; break;
		case 6: failing = true; break;
		case 7: r_free(NULL); break;
		}
		if (k < adepth) check(nm, 0);
	}
	fail_at = -1;
	for (auto &x : b) if (x.p) { r_free(x.p); want -= x.cost; x = Blk(); check("the end", 0); }
	if (live_blocks != blocks0) vh::fail("%ld underlying blocks are left", live_blocks - blocks0);
	vh::eval(adepth); vh::steps(adepth); vh::distinct(sig);
}

// ------------------------------------------------------------ B: arrays and duplicates under refusal
static const char *bop[] = {"add", "insert at 0", "insert at end + 3", "replace at end", "setlength +7", "setlength huge", "insert at a huge index", "expand 40", "slot_expand +20", "slot_expand huge", "delete first", "push", "strdup", "rstrdup", "strndup", "buffer"};
static const int NB = sizeof bop / sizeof *bop; static int bdepth = 3; static const int BF = 6;
static std::string showb(uint64_t i) { vh::Idx x(i); int f = x.take(BF); std::string s = f ? "request " + std::to_string(f) + " refused:" : "no request refused:"; std::vector<int> o(bdepth); for (int k = bdepth; k--;) o[k] = x.take(NB); for (int v : o) s += std::string(" ") + bop[v] + ";"; return s; }
static void runb(uint64_t i)
{
	vh::Idx x(i); int f = x.take(BF); int ops[8]; for (int k = bdepth; k--;) ops[k] = x.take(NB);
	long base = r_debug_get_allocmem(), blocks0 = live_blocks;
	rarray_t *a = r_array_create(sizeof(long)); std::vector<long> m; long n = 0; const size_t NO = (size_t)-1;
	asked = 0; fail_at = f ? f : -1; uint64_t sig = f;
	auto check = [&](const char *after) {
		if (r_array_length(a) != m.size()) vh::fail("after %s: length %zu, should be %zu", after, (size_t)r_array_length(a), m.size());
		for (size_t k = 0; k < m.size(); k++) { if (m[k] >= 0 && r_array_index(a, k, long) != m[k]) vh::fail("after %s: element %zu is %ld, should be %ld", after, k, r_array_index(a, k, long), m[k]); sig = vh::mix(sig, m[k]); }
	};
	for (int k = 0; k < bdepth; k++) {
		long v = ++n; size_t L = m.size(), r; const char *o = bop[ops[k]]; long before = asked; 
		auto refused = [&] { return fail_at > before && fail_at <= asked; };
		switch (ops[k]) {
		case 0: r = r_array_add(a, &v); if (refused() ? r != NO : r != L) vh::fail("add returns %zd", r); if (!refused()) m.push_back(v); break;
		case 1: r = r_array_insert(a, 0, &v); if (refused() ? r != NO : r != 0) vh::fail("insert returns %zd", r); if (!refused()) m.insert(m.begin(), v); break;
		case 2: r = r_array_insert(a, L + 3, &v); if (refused() ? r != NO : r != L + 3) vh::fail("insert returns %zd", r); if (!refused()) { m.resize(L + 3, -1); m.push_back(v); } break;
		case 3: r = r_array_replace(a, L, &v); if (refused() ? r != NO : r != L) vh::fail("replace returns %zd", r); if (!refused()) m.push_back(v); break;
		case 4: r = r_array_setlength(a, L + 7); if (refused() ? r != L : r != L + 7) vh::fail("setlength returns %zd", r); if (!refused()) m.resize(L + 7, -1); break;
		case 5: for (size_t h : {(size_t)-1, ((size_t)-1) / 2, ((size_t)-1) / 8 + 2, (size_t)1 << 50}) { r = r_array_setlength(a, h); if (r != L) vh::fail("setlength %zx returns %zd", h, r); } break;
		case 6: for (size_t h : {(size_t)-1, (size_t)-2, ((size_t)-1) / 8 + 2, (size_t)1 << 50}) { r = r_array_insert(a, h, &v); if (r != NO) vh::fail("insert at %zx returns %zd", h, r); r = r_array_replace(a, h, &v); if (r != NO) vh::fail("replace at %zx returns %zd", h, r); } break;
		case 7: r_array_expand(a, 40); break;
		case 8: { void *p = r_array_slot_expand(a, L + 20); if (!p != refused()) vh::fail("slot_expand"); if (p) *(long *)p = 7; } break;
		case 9: if (r_array_slot_expand(a, (size_t)1 << 50) || r_array_slot_expand(a, ((size_t)-1) / 8 + 1)) vh::fail("slot_expand"); break;
		case 10: r_array_delete(a, 0); if (L) m.erase(m.begin()); break;
		case 11: r_array_push(a, v, long); if (!refused()) m.push_back(v); break;
		case 12: { char *p = r_strdup("text"); if (!p != refused() || (p && strcmp(p, "text"))) vh::fail("strdup"); r_free(p); } break;
		case 13: { rstr_t *p = r_rstrdup("text", 3); if (!p != refused() || (p && strcmp(p->str, "tex"))) vh::fail("rstrdup"); r_rstr_free(p); } break;
		case 14: { char *p = r_strndup("text", 3); if (!p != refused() || (p && strcmp(p, "tex"))) vh::fail("strndup"); r_free(p); } break;
		case 15: { rbuffer_t *p = r_buffer_create(10); if (!p != refused()) vh::fail("buffer"); if (p) { if (p->size != 10 || p->s[10]) vh::fail("buffer size"); before = asked; char w[20] = "0123456789abcdefghi"; int rr = r_buffer_append(p, w, 19); if (rr != (refused() ? -1 : 0)) vh::fail("buffer growth returns %d", rr); if (p->s[p->size]) vh::fail("buffer is not terminated"); } r_buffer_destroy(p); } break;
		}
		check(o);
	}
	fail_at = -1;
	r_array_destroy(a);
	if ((long)r_debug_get_allocmem() != base) vh::fail("%ld bytes are left on the account", (long)r_debug_get_allocmem() - base);
	if (live_blocks != blocks0) vh::fail("%ld underlying blocks are left", live_blocks - blocks0);
	vh::eval(bdepth); vh::steps(bdepth); vh::distinct(sig);
}

// ------------------------------------------------------------ C: garbage collection and reference counting
static int destroyed[8];
struct Obj { robject_t o; int id; };
static void objclean(robject_t *o) { destroyed[((Obj *)o)->id]++; r_object_cleanup(o); }
struct Ref { rref_t r; int id; };
static void refclean(robject_t *o) { destroyed[((Ref *)o)->id]++; r_ref_cleanup(o); }
static const char *gop[] = {"object into collector", "string into collector", "map key into collector", "destroy the last object", "collect all", "new map entry", "delete map entry", "destroy and make the map", "array into collector", "object of its own, destroyed", "destroy and make the collector", "reference +", "reference -", "named array into collector"};
static const int NG = sizeof gop / sizeof *gop; static int gdepth = 5;
static std::string showg(uint64_t i) { std::string s = "collector:"; std::vector<int> o(gdepth); for (int k = gdepth; k--;) { o[k] = i % NG; i /= NG; } for (int v : o) s += std::string(" ") + gop[v] + ";"; return s; }
static void rung(uint64_t i)
{
	int ops[8]; for (int k = gdepth; k--;) { ops[k] = i % NG; i /= NG; }
	long base = r_debug_get_allocmem(), blocks0 = live_blocks; asked = 0; fail_at = -1;
	memset(destroyed, 0, sizeof destroyed);
	rgc_t *gc = r_gc_create(); rmap_t *map = r_map_create(sizeof(int), 2);
	std::vector<Obj *> in; std::vector<size_t> ent; int want[8] = {0}, next = 0; uint64_t sig = 0;
	Ref *ref = (Ref *)r_object_create(sizeof(Ref)); r_ref_init((robject_t *)ref, R_OBJECT_REF, refclean, r_ref_copy, 1, RREF_TYPE_SHARED); ref->id = 7; unsigned refs = 1;
	// a collected key must outlive every use: the map is destroyed before the collector empties, as the library itself does
	auto dropmap = [&] { r_map_destroy(map); map = nullptr; ent.clear(); };
	bool keys = false; int *v = new int(5);
	for (int k = 0; k < gdepth; k++) {
		switch (ops[k]) {
		case 0: { if (next >= 7) break; Obj *o = (Obj *)r_object_create(sizeof(Obj)); r_object_init(&o->o, R_OBJECT_USER, objclean, NULL); o->id = next++; r_gc_add(gc, &o->o); if (r_object_gcget(&o->o) != gc) vh::fail("not in the collector"); in.push_back(o); } break;
		case 1: { rstring_t *s = r_string_create_from_ansi("collected"); r_gc_add(gc, (robject_t *)s); } break;
		case 2: if (!ent.empty()) { rstring_t *s = r_map_key(map, ent.back()); if (!r_object_gcget((robject_t *)s)) { r_gc_add(gc, (robject_t *)s); keys = true; } } break;
		case 3: if (!in.empty()) { Obj *o = in.back(); in.pop_back(); want[o->id]++; r_object_destroy(&o->o); } break;
		case 4: if (keys) { dropmap(); map = r_map_create(sizeof(int), 2); keys = false; } r_gc_deallocateall(gc); for (auto o : in) want[o - o + (&o - &o)] += 0; in.clear(); for (int q = 0; q < next; q++) want[q] = 1; break;
		case 5: ent.push_back(r_map_add_s(map, k & 1 ? "odd" : "even", v)); break;
		case 6: if (!ent.empty()) { r_map_delete(map, ent.back()); ent.pop_back(); } break;
		case 7: dropmap(); map = r_map_create(sizeof(int), 2); break;
		case 8: { rarray_t *a = r_array_create(8); r_array_add(a, NULL); r_gc_add(gc, (robject_t *)a); } break;
		case 9: { if (next >= 7) break; Obj *o = (Obj *)r_object_create(sizeof(Obj)); r_object_init(&o->o, R_OBJECT_USER, objclean, NULL); o->id = next++; want[o->id]++; r_object_destroy(&o->o); } break;
		case 10: if (keys) { dropmap(); map = r_map_create(sizeof(int), 2); keys = false; } r_gc_destroy(gc); gc = r_gc_create(); in.clear(); for (int q = 0; q < next; q++) want[q] = 1; break;
		case 11: if (ref) { if (r_ref_inc(&ref->r) != ++refs || r_ref_get(&ref->r) != refs) vh::fail("reference count"); } break;
		case 12: if (ref) { if (r_ref_dec(&ref->r) != --refs) vh::fail("reference count"); if (!refs) { ref = nullptr; want[7]++; } } break;
		case 13: { rharray_t *h = r_harray_create(4); r_harray_add_s(h, "name", v); r_gc_add(gc, (robject_t *)h); } break;
		}
		if (memcmp(want, destroyed, sizeof want)) vh::fail("after %s: an object was destroyed %s", gop[ops[k]], "too often, too early or not at all");
		size_t c = r_list_count(r_gc_head(gc)); sig = vh::mix(sig, c * 100 + ent.size());
	}
	if (ref) while (r_ref_dec(&ref->r)) { }
	dropmap(); r_gc_destroy(gc); delete v;
	for (int q = 0; q < next; q++) if (destroyed[q] != 1) vh::fail("object %d was destroyed %d times", q, destroyed[q]);
	if (destroyed[7] != 1) vh::fail("the reference was destroyed %d times", destroyed[7]);
	if ((long)r_debug_get_allocmem() != base) vh::fail("%ld bytes are left on the account", (long)r_debug_get_allocmem() - base);
	if (live_blocks != blocks0) vh::fail("%ld underlying blocks are left", live_blocks - blocks0);
	vh::eval(gdepth); vh::steps(gdepth); vh::distinct(sig);
}

// ------------------------------------------------------------ D: grammar engine
static const char *dop[] = {"open", "load rules", "load more", "load malformed", "load undefined", "close", "compile", "new matcher", "parse", "match", "scan", "drop matcher", "drop database", "toggle optimisation", "dump and list", "new matcher, tiny stack", "load aborting", "toggle prefilter"};
static const int ND = sizeof dop / sizeof *dop; static int ddepth = 3;
static const std::vector<std::vector<int>> starts = {{}, {0, 1}, {0, 1, 5, 6}, {0, 1, 2, 5, 6, 7}, {0, 1, 2, 16, 5, 6, 7, 8}};
static std::string showd(uint64_t i) { vh::Idx x(i); int st = x.take(starts.size()); std::string s = "grammar engine:"; std::vector<int> o(ddepth); for (int k = ddepth; k--;) o[k] = x.take(ND); for (int v : starts[st]) s += std::string(" ") + dop[v] + ";"; s += " |"; for (int v : o) s += std::string(" ") + dop[v] + ";"; return s; }
static void rund(uint64_t i)
{
	vh::Idx x(i); std::vector<int> ops = starts[x.take(starts.size())]; { std::vector<int> o(ddepth); for (int k = ddepth; k--;) o[k] = x.take(ND); ops.insert(ops.end(), o.begin(), o.end()); }
	long base = r_debug_get_allocmem(), blocks0 = live_blocks; asked = 0; fail_at = -1;
	rpadbex_t *d = rpa_dbex_create(); rpastat_t *s = nullptr; uint64_t sig = 0;
	static const char in[] = "aabccc1aab";
	bool opened = false, compiled = false;
	auto drops = [&] { if (s) rpa_stat_destroy(s); s = nullptr; };
	for (int o : ops) {
		long r = 0;
		switch (o) {
		case 0: drops(); r = rpa_dbex_open(d); if (r == 0) { opened = true; compiled = false; } break;
		case 1: r = rpa_dbex_load_s(d, "#!emit\nT ::= 'a'+ 'b'\nR ::= R 'c' | T\n"); break;
		case 2: r = rpa_dbex_load_s(d, "S ::= [0-9] R | 'x' S '(' (R | S)* ')'\n"); break;
		case 3: r = rpa_dbex_load_s(d, "X ::= [[ 'a'\n"); break;
		case 4: r = rpa_dbex_load_s(d, "U ::= 'q' nope\n"); break;
		case 5: rpa_dbex_close(d); opened = false; break;
		case 6: drops(); r = rpa_dbex_compile(d); compiled = r == 0; break;
		case 7: drops(); s = rpa_stat_create(d, 0); r = !!s; break;
		case 8: if (s) { rarray_t *rec = rpa_records_create(); r = rpa_stat_parse(s, rpa_dbex_lookup_s(d, "R"), RPA_ENCODING_UTF8, in, in, in + 10, rec); sig = vh::mix(sig, r_array_length(rec)); rpa_records_destroy(rec); } break;
		case 9: if (s) { r = rpa_stat_match(s, rpa_dbex_lookup_s(d, "S"), RPA_ENCODING_BYTE, in + 6, in, in + 10); } break;
		case 10: if (s) { const char *w; r = rpa_stat_scan(s, rpa_dbex_lookup_s(d, "S"), RPA_ENCODING_UTF8, in, in, in + 10, &w); } break;
		case 11: drops(); break;
		case 12: drops(); rpa_dbex_destroy(d); d = rpa_dbex_create(); opened = compiled = false; break;
		case 13: r = rpa_dbex_cfgset(d, RPA_DBEXCFG_OPTIMIZATIONS, !rpa_dbex_cfgget(d, RPA_DBEXCFG_OPTIMIZATIONS)); break;
		case 17: r = rpa_dbex_cfgset(d, RPA_DBEXCFG_BITMAP, !rpa_dbex_cfgget(d, RPA_DBEXCFG_BITMAP)); break;
		case 14: { int guard = 0; for (rparule_t q = rpa_dbex_first(d); q >= 0 && guard++ < 50; q = rpa_dbex_next(d, q)) { char b[200]; const char *n = rpa_dbex_name(d, q); sig = vh::mix(sig, n ? n[0] : 0); rpa_dbex_strlen(d, q); rpa_dbex_strncpy(d, b, q, sizeof b); rpa_dbex_dumptree(d, q); rpa_dbex_dumpcode(d, q); } rpa_dbex_dumprecords(d); rpa_dbex_dumpproductions(d); rpa_errinfo_t e; rpa_dbex_lasterrorinfo(d, &e); } break;
		case 15: drops(); s = rpa_stat_create(d, 40); r = !!s; break;
		case 16: r = rpa_dbex_load_s(d, "#!abort Q\nQ ::= 'z'\nS ::= Q\n"); break;
		}
		sig = vh::mix(sig, o * 1000 + r + 7);
	}
	(void)opened; (void)compiled;
	drops(); rpa_dbex_destroy(d);
	if ((long)r_debug_get_allocmem() != base) vh::fail("%ld bytes are left on the account", (long)r_debug_get_allocmem() - base);
	if (live_blocks != blocks0) vh::fail("%ld underlying blocks are left", live_blocks - blocks0);
	vh::eval(ops.size()); vh::steps(ops.size()); vh::distinct(sig);
}

// ------------------------------------------------------------ E: regular expressions and the virtual machine
static const char *eop[] = {"add expression", "add malformed", "add empty", "add second", "set blanks", "make DFA", "freeze DFA with substates", "freeze DFA", "run NFA", "run DFA", "new regex", "bad regex", "match and scan", "dump", "drop database", "drop DFAs", "compiler of its own"};
static const int NE = sizeof eop / sizeof *eop; static int edepth = 4;
static std::string showe(uint64_t i) { std::string s = "regular expressions:"; std::vector<int> o(edepth); for (int k = edepth; k--;) { o[k] = i % NE; i /= NE; } for (int v : o) s += std::string(" ") + eop[v] + ";"; return s; }
static void rune(uint64_t i)
{
	int ops[8]; for (int k = edepth; k--;) { ops[k] = i % NE; i /= NE; }
	long base = r_debug_get_allocmem(), blocks0 = live_blocks; asked = 0; fail_at = -1;
	rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA), *dfa = nullptr; rexdfa_t *fd = nullptr; rexregex_t *re = nullptr; long start = -1; uint64_t sig = 0;
	auto dropd = [&] { if (dfa) rex_db_destroy(dfa); if (fd) rex_dfa_destroy(fd); dfa = nullptr; fd = nullptr; };
	for (int k = 0; k < edepth; k++) {
		long r = 0;
		switch (ops[k]) {
		case 0: r = rex_db_addexpression_s(nfa, start < 0 ? (size_t)-1 : start, "a(b|c)*[d-f]{1,2}", 3); if (r >= 0) start = r; break;
		case 1: r = rex_db_addexpression_s(nfa, start < 0 ? (size_t)-1 : start, "a(b[", 4); if (r >= 0) vh::fail("malformed accepted"); break;
		case 2: r = rex_db_addexpression_s(nfa, start < 0 ? (size_t)-1 : start, "", 5); if (r >= 0) start = r; break;
		case 3: r = rex_db_addexpression_s(nfa, start < 0 ? (size_t)-1 : start, "[^a]+\\.x?", 6); if (r >= 0) start = r; break;
		case 4: r = rex_db_setblanks_s(nfa, " \t"); break;
		case 5: if (start >= 0) { if (dfa) rex_db_destroy(dfa); dfa = rex_db_createdfa(nfa, start); r = rex_db_numstates(dfa); } break;
		case 6: case 7: if (dfa) { if (fd) rex_dfa_destroy(fd); fd = rex_db_todfa(dfa, ops[k] == 6); if (fd && ops[k] == 6) rex_dfa_hash(fd, 2, 4); } break;
		case 8: if (start >= 0) { rex_nfasimulator_t *si = rex_nfasimulator_create(); r = rex_nfasimulator_run_s(si, nfa, start, "abcbddz"); rex_nfasimulator_destroy(si); } break;
		case 9: if (dfa) { rex_dfasimulator_t *si = rex_dfasimulator_create(); r = rex_dfasimulator_run(si, dfa, 0, "abcbddz", 7); rex_dfasimulator_destroy(si); } break;
		case 10: if (re) rex_regex_destroy(re); re = rex_regex_create_s("x+(y|z)"); break;
		case 11: { rexregex_t *b = rex_regex_create_s("x(["); if (b) vh::fail("malformed accepted"); } break;
		case 12: if (re) { const char *w, *t = "aaxxyb"; r = rex_regex_match(re, REX_ENCODING_UTF8, t, t + 6); r += 10 * rex_regex_scan(re, REX_ENCODING_UTF8, t, t + 6, &w); } break;
		case 13: for (size_t u = 0; u < (size_t)rex_db_numstates(nfa); u++) rex_db_dumpstate(nfa, u); if (dfa) for (size_t u = 0; u < (size_t)rex_db_numstates(dfa); u++) rex_db_dumpstate(dfa, u); break;
		case 14: dropd(); rex_db_destroy(nfa); nfa = rex_db_create(REXDB_TYPE_NFA); start = -1; break;
		case 15: dropd(); break;
		case 16: { rexcompiler_t *co = rex_compiler_create(); rex_compiler_setblanks_s(co, " "); r = rex_compiler_addexpression_s(co, nfa, start < 0 ? (size_t)-1 : start, "q w|e", 9); if (r >= 0) start = r; rex_compiler_addexpression_s(co, nfa, start, "q w|(", 9); rex_compiler_destroy(co); } break;
		}
		sig = vh::mix(sig, ops[k] * 1000 + r + 7);
	}
	dropd(); rex_db_destroy(nfa); if (re) rex_regex_destroy(re);
	if ((long)r_debug_get_allocmem() != base) vh::fail("%ld bytes are left on the account", (long)r_debug_get_allocmem() - base);
	if (live_blocks != blocks0) vh::fail("%ld underlying blocks are left", live_blocks - blocks0);
	vh::eval(edepth); vh::steps(edepth); vh::distinct(sig);
}
static void swi1(rvmcpu_t *cpu, rvm_asmins_t *ins) { }
static rvm_switable_t tab[] = {{"one", (rvmcpu_swi)swi1}, {NULL, NULL}};
static const char *vop[] = {"run", "run an endless loop aborted by a bad instruction", "string register", "array register", "switable", "global", "code generator clear", "label and data", "unresolved label", "relocate", "stack overflow", "drop machine", "scope"};
static const int NV = sizeof vop / sizeof *vop; static int vdepth = 4;
static std::string showv(uint64_t i) { std::string s = "virtual machine:"; std::vector<int> o(vdepth); for (int k = vdepth; k--;) { o[k] = i % NV; i /= NV; } for (int v : o) s += std::string(" ") + vop[v] + ";"; return s; }
static void runv(uint64_t i)
{
	int ops[8]; for (int k = vdepth; k--;) { ops[k] = i % NV; i /= NV; }
	long base = r_debug_get_allocmem(), blocks0 = live_blocks; asked = 0; fail_at = -1;
	rvmcpu_t *vm = rvm_cpu_create(256); rvm_codegen_t *cg = rvm_codegen_create(); rvm_scope_t *sc = rvm_scope_create(); uint64_t sig = 0;
	for (int k = 0; k < vdepth; k++) {
		long r = 0;
		switch (ops[k]) {
		case 0: { rvm_asmins_t p[] = {rvm_asm(RVM_MOV, R0, DA, XX, 7), rvm_asm(RVM_PUSH, R0, XX, XX, 0), rvm_asm(RVM_POP, R1, XX, XX, 0), rvm_asm(RVM_EXT, XX, XX, XX, 0)}; r = rvm_cpu_exec(vm, p, 0); } break;
		case 1: { rvm_asmins_t p[] = {rvm_asm(RVM_DIV, R0, R0, DA, 0), rvm_asm(RVM_EXT, XX, XX, XX, 0)}; r = rvm_cpu_exec(vm, p, 0); } break;
		case 2: { rvmreg_t a = rvm_reg_create_string_ansi("reg"); r = rvm_reg_int(&a); r_object_destroy((robject_t *)a.v.p); a = rvm_reg_create_string_ansi("12"); rvmreg_t b; r_memset(&b, 0, sizeof b); rvm_reg_init(&b); rvm_reg_str2num(&b, &a); r += rvm_reg_int(&b); r_object_destroy((robject_t *)a.v.p); rvm_reg_cleanup(&a); rvm_cpu_setreg(vm, R2, &b); } break;
		case 3: { robject_t *arr = (robject_t *)r_array_create(8); r_gc_add(vm->gc, arr); rvmreg_t a; r_memset(&a, 0, sizeof a); rvm_reg_init(&a); rvm_reg_setarray(&a, arr); rvm_cpu_setreg(vm, R3, &a); } break;
		case 4: r = rvm_cpu_addswitable(vm, "tab", tab) + rvm_cpu_swilookup_s(vm, "tab", "one"); break;
		case 5: { rvmreg_t *g = rvm_cpu_alloc_global(vm); rvm_reg_setunsigned(g, 5); } break;
		case 6: rvm_codegen_clear(cg); break;
		case 7: rvm_codegen_addlabel_default_s(cg, "here"); rvm_codegen_addins(cg, rvm_asm(RVM_NOP, XX, XX, XX, 0)); rvm_codegen_addstring_s(cg, "str", "some text"); rvm_codegen_addrelocins_s(cg, RVM_RELOC_BRANCH, "here", rvm_asm(RVM_B, DA, XX, XX, 0)); break;
		case 8: rvm_codegen_addrelocins_s(cg, RVM_RELOC_BRANCH, "nowhere", rvm_asm(RVM_B, DA, XX, XX, 0)); break;
		case 9: { rvm_codelabel_t *err = NULL; r = rvm_codegen_relocate(cg, &err); } break;
		case 10: { rvm_asmins_t p[] = {rvm_asm(RVM_PUSH, R0, XX, XX, 0), rvm_asm(RVM_B, DA, XX, XX, -1)}; r = rvm_cpu_exec(vm, p, 0); rvmreg_t z; r_memset(&z, 0, sizeof z); rvm_reg_init(&z); rvm_reg_setunsigned(&z, (ruword)-1); rvm_cpu_setreg(vm, SP, &z); rvm_reg_setunsigned(&z, 0); rvm_cpu_setreg(vm, FP, &z); } break;
		case 11: rvm_cpu_destroy(vm); vm = rvm_cpu_create(256); break;
		case 12: rvm_scope_push(sc); rvm_scope_addoffset_s(sc, "name", 3); if (k & 1) rvm_scope_pop(sc); break;
		}
		sig = vh::mix(sig, ops[k] * 1000 + r + 7);
	}
	rvm_cpu_destroy(vm); rvm_codegen_destroy(cg); rvm_scope_destroy(sc);
	if ((long)r_debug_get_allocmem() != base) vh::fail("%ld bytes are left on the account", (long)r_debug_get_allocmem() - base);
	if (live_blocks != blocks0) vh::fail("%ld underlying blocks are left", live_blocks - blocks0);
	vh::eval(vdepth); vh::steps(vdepth); vh::distinct(sig);
}
static void setup()
{
	adepth = vh::thorough ? 5 : 4; bdepth = vh::thorough ? 5 : 4; gdepth = vh::thorough ? 6 : 5; ddepth = vh::thorough ? 4 : 3; edepth = vh::thorough ? 5 : 4; vdepth = vh::thorough ? 6 : 4;
	const size_t big[] = {(size_t)-1, (size_t)-8, (size_t)-7, (size_t)1 << 50};
	for (int s = 0; s < 2; s++) {
		for (size_t n : {0, 1, 8, 100}) aops.push_back({0, s, n, 0});
		for (size_t n : {0, 24}) aops.push_back({1, s, n, 0});
		for (auto p : std::vector<std::pair<size_t, size_t>>{{0, 8}, {3, 1}, {5, 0}, {4, 8}, {1, 3}}) aops.push_back({2, s, p.first, p.second});
		for (size_t n : {0, 1, 16, 100, 5000}) aops.push_back({3, s, n, 0});
		aops.push_back({4, s, 0, 0});
	}
	for (size_t n : big) { aops.push_back({0, 0, n, 0}); aops.push_back({3, 0, n, 0}); aops.push_back({2, 1, n, 1}); }
	aops.push_back({2, 0, (size_t)1 << 62, 8}); aops.push_back({2, 0, 3, ~0ul / 2});
	aops.push_back({5, 0, 0, 0}); aops.push_back({6, 0, 0, 0}); aops.push_back({7, 0, 0, 0});
	vh::Family f; f.chunk = 128;
	f.name = "allocator"; f.count = vh::ipow(aops.size(), adepth); f.run = runa; f.describe = showa; vh::families.push_back(f);
	f.name = "refusals"; f.count = BF * vh::ipow(NB, bdepth); f.run = runb; f.describe = showb; vh::families.push_back(f);
	f.name = "collector-and-references"; f.count = vh::ipow(NG, gdepth); f.run = rung; f.describe = showg; vh::families.push_back(f);
	f.name = "grammar-engine"; f.count = starts.size() * vh::ipow(ND, ddepth); f.run = rund; f.describe = showd; f.chunk = 16; vh::families.push_back(f);
	f.name = "regular-expressions"; f.count = vh::ipow(NE, edepth); f.run = rune; f.describe = showe; vh::families.push_back(f);
	f.name = "virtual-machine"; f.count = vh::ipow(NV, vdepth); f.run = runv; f.describe = showv; vh::families.push_back(f);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
