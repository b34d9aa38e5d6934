// V04: every history of pushing, popping and declaring over three names, with both lookups and the counts checked after every operation.
#include "vh.hpp"
#include "pump.hpp"
extern "C" {
#include "rvm/rvmscope.h"
#include "rlib/rmem.h"
}
struct D { std::string name; int type; unsigned long val; };
static const int NOPS = 9;
static const char *opn[NOPS] = {"push", "pop", "declare a", "declare ab", "declare pointer a", "declare b (counted)", "declare pointer ab (counted)", "declare 40 others", "add name ab"};
static int spots[64];
static std::string show(uint64_t i) { if (P.size()) return showpump(i, NOPS, opn); std::string s; for (int o : vh::nthstring(i, NOPS)) s += (s.empty() ? "" : ", ") + std::string(opn[o]); return s; }
static void history(uint64_t idx)
{
	auto h = P.size() ? P : vh::nthstring(idx, NOPS);
	long mem = r_debug_get_allocmem();
	rvm_scope_t *s = rvm_scope_create();
	std::vector<D> vars; std::vector<size_t> scopes;
	std::map<std::string, const char *> canon;
	unsigned n = 0;
	uint64_t sig = 0;
	auto declare = [&](const char *nm, int type, bool counted) {
		n++;
		char buf[16]; snprintf(buf, sizeof buf, "%sqq", nm);
		if (type) { void *p = &spots[n % 64]; if (counted) rvm_scope_addpointer(s, buf, (unsigned)strlen(nm), p); else rvm_scope_addpointer_s(s, nm, p); vars.push_back({nm, VARMAP_DATATYPE_PTR, (unsigned long)p}); }
		else { if (counted) rvm_scope_addoffset(s, buf, (unsigned)strlen(nm), n * 7); else rvm_scope_addoffset_s(s, nm, n * 7); vars.push_back({nm, VARMAP_DATATYPE_OFFSET, n * 7ul}); }
		memset(buf, 'z', sizeof buf);
	};
	auto check = [&](const char *after) {
		if (rvm_scope_count(s) != scopes.size()) vh::fail("[%s] %s: %u scopes, should be %zu", show(idx).c_str(), after, rvm_scope_count(s), scopes.size());
		if (rvm_scope_numentries(s) != vars.size()) vh::fail("[%s] %s: %u declarations, should be %zu", show(idx).c_str(), after, rvm_scope_numentries(s), vars.size());
		for (const char *nm : {"a", "ab", "b", "", "abc", "x39"}) for (int tip = 0; tip < 2; tip++) for (int counted = 0; counted < 2; counted++) {
			const D *want = nullptr;
			size_t lo = tip && !scopes.empty() ? scopes.back() : 0;
			for (size_t k = vars.size(); k-- > lo;) if (vars[k].name == nm) { want = &vars[k]; break; }
			char buf[16]; snprintf(buf, sizeof buf, "%sb", nm); unsigned len = (unsigned)strlen(nm);
			rvm_varmap_t *got = tip ? (counted ? rvm_scope_tiplookup(s, buf, len) : rvm_scope_tiplookup_s(s, nm)) : (counted ? rvm_scope_lookup(s, buf, len) : rvm_scope_lookup_s(s, nm));
			if (!!got != !!want) vh::fail("[%s] %s: %s lookup of '%s' %s", show(idx).c_str(), after, tip ? "innermost" : "full", nm, got ? "finds a declaration that is not live there" : "finds nothing");
			if (!got) { sig = vh::mix(sig, 1); continue; }
			unsigned long v = want->type == VARMAP_DATATYPE_PTR ? (unsigned long)got->data.ptr : got->data.offset;
			if ((int)got->datatype != want->type || v != want->val || strcmp(got->name, nm)) vh::fail("[%s] %s: %s lookup of '%s' finds %s with value %lx, should be %lx", show(idx).c_str(), after, tip ? "innermost" : "full", nm, got->name, v, want->val);
			sig = vh::mix(sig, want->type + 5);
			auto c = canon.find(nm);
			if (c == canon.end()) canon[nm] = got->name; else if (c->second != got->name) vh::fail("[%s] %s: two copies of the name '%s'", show(idx).c_str(), after, nm);
		}
	};
	check("start");
	for (int o : h) {
		switch (o) {
		case 0: rvm_scope_push(s); scopes.push_back(vars.size()); break;
		case 1: rvm_scope_pop(s); if (!scopes.empty()) { vars.resize(scopes.back()); scopes.pop_back(); } break;
		case 2: declare("a", 0, false); break;
		case 3: declare("ab", 0, false); break;
		case 4: declare("a", 1, false); break;
		case 5: declare("b", 0, true); break;
		case 6: declare("ab", 1, true); break;
		case 7: for (int k = 0; k < 40; k++) { char b[8]; snprintf(b, sizeof b, "x%d", k); declare(b, k & 1, false); } break;
		case 8: { char *p = rvm_scope_addname(s, "abba", 2); if (strcmp(p, "ab") || p != rvm_scope_addstrname(s, "ab")) vh::fail("[%s] the name table holds '%s'", show(idx).c_str(), p); } break;
		}
		check(opn[o]);
	}
	rvm_scope_destroy(s);
	if ((long)r_debug_get_allocmem() != mem) vh::fail("[%s] leaks", show(idx).c_str());
	vh::eval(h.size() + 1); vh::steps(h.size()); vh::distinct(sig);
}
static void setup()
{
	vh::Family f; f.name = "histories"; f.count = vh::nstrings(NOPS, vh::thorough ? 7 : 6); f.run = history; f.describe = show; f.chunk = 512; vh::families.push_back(f);
	pumps = vh::thorough ? 200 : 70; pword = 3;
	f.name = "histories-long"; f.count = npump(NOPS); f.run = [](uint64_t i) { P = pump(i, NOPS); struct R { ~R() { P.clear(); } } x; history(i); }; f.describe = [](uint64_t i) { return showpump(i, NOPS, opn); }; f.chunk = 8; vh::families.push_back(f);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
