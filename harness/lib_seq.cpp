// L01: every history of operations on the dynamic array, the chunked array and the linked list, compared with plain vectors after every operation.
#include "vh.hpp"
#include "pump.hpp"
extern "C" {
#include "rlib/rarray.h"
#include "rlib/rcarray.h"
#include "rlib/rlist.h"
#include "rlib/rmem.h"
void r_carray_declength(rcarray_t *carray);
}
typedef std::string E;   // one element's bytes
static E value(size_t sz, unsigned n) { E e(sz, 0); for (size_t k = 0; k < sz; k++) e[k] = (char)(17 * n + 31 * k + 1 + (k ? n * k : 0)); return e; }
struct Cell { E v; bool known; };

// ---------------------------------------------------------------- dynamic array
static const char *aop[] = {"add", "add zero", "insert at 0", "insert in the middle", "insert at end", "insert 2 past end", "insert zero at 0", "replace first", "replace last", "replace 1 past end", "replace first by zero",
	"delete first", "delete middle", "delete last", "delete past end", "removelast", "setlength 0", "setlength -1", "setlength +3", "move down", "move up", "move dst past end", "move src past end", "move wrapping",
	"pop", "push", "expand 5", "slot_expand next", "sort", "copy, go on with the copy", "copy, spoil and drop the copy", "slot_expand +4"};
static const int NA = sizeof aop / sizeof *aop;
static const size_t ESZ[] = {4, 1, 8, 24};
static const int LEN0[] = {0, 2, 5, 1, 3, 11};
static int adepth = 3;
static uint64_t apow; static int nlen0 = 3;
static std::string showa(uint64_t i)
{
	uint64_t h = i % apow; i /= apow;
	std::string s = "array of " + std::to_string(ESZ[i % 4]) + "-byte elements, " + std::to_string(LEN0[i / 4]) + " added:";
	std::vector<int> o(adepth); for (int k = adepth; k--;) { o[k] = h % NA; h /= NA; }
	for (int x : o) s += std::string(" ") + aop[x] + ";";
	return s;
}
static void runa(uint64_t i0)
{
	uint64_t i = i0, h = i % apow; i /= apow;
	size_t esz = ESZ[i % 4]; int l0 = LEN0[i / 4];
	std::vector<int> ops(adepth); for (int k = adepth; k--;) { ops[k] = h % NA; h /= NA; }
	if (P.size()) ops = P;
	long mem = r_debug_get_allocmem();
	rarray_t *a = r_array_create(esz);
	std::vector<Cell> m; size_t hw = 0;   // slots at or above hw were never used: they read as zero when they come into range
	unsigned n = 0;
	uint64_t sig = 0;
	auto check = [&](const char *after, rarray_t *a, std::vector<Cell> &m) {
		if (r_array_length(a) != m.size() || (r_array_empty(a) ? 1 : 0) != (m.empty() ? 1 : 0)) vh::fail("after %s: length %zu, should be %zu", after, (size_t)r_array_length(a), m.size());
		if (r_array_size(a) < m.size()) vh::fail("after %s: length beyond the allocation", after);
		for (size_t k = 0; k < m.size(); k++) {
			if (m[k].known && memcmp(r_array_slot(a, k), m[k].v.data(), esz)) vh::fail("after %s: element %zu is %s, should be %s", after, k, vh::esc(E((char *)r_array_slot(a, k), esz)).c_str(), vh::esc(m[k].v).c_str());
			if (!m[k].known) { m[k].v.assign((char *)r_array_slot(a, k), esz); m[k].known = true; }   // left over from earlier use: whatever it is, it must then stay
			sig = vh::hstr(m[k].v, sig + k);
		}
		if (m.empty() ? r_array_lastslot(a) != NULL : r_array_lastslot(a) != r_array_slot(a, m.size() - 1)) vh::fail("after %s: lastslot is wrong", after);
	};
	auto grow = [&](size_t len) { while (m.size() < len) m.push_back({E(esz, 0), m.size() >= hw}); };
	auto note = [&] { hw = std::max(hw, m.size()); };
	auto ins = [&](size_t at, const E &e) { if (at < m.size()) m.insert(m.begin() + at, {e, true}); else { grow(at); m.push_back({e, true}); } };
	auto same = [&](size_t got, size_t want, const char *what) { if (got != want) vh::fail("%s returns %zu, should be %zu", what, got, want); };
	for (int k = 0; k < l0; k++) { E e = value(esz, ++n); same(r_array_add(a, e.data()), m.size(), "add"); m.push_back({e, true}); }
	note(); check("filling", a, m);
	for (size_t k = 0; k < ops.size(); k++) {
		E e = value(esz, ++n), z(esz, 0); size_t L = m.size(); const char *o = aop[ops[k]];
		switch (ops[k]) {
		case 0: same(r_array_add(a, e.data()), L, o); m.push_back({e, true}); break;
		case 1: same(r_array_add(a, NULL), L, o); m.push_back({z, true}); break;
		case 2: same(r_array_insert(a, 0, e.data()), 0, o); ins(0, e); break;
		case 3: same(r_array_insert(a, L / 2, e.data()), L / 2, o); ins(L / 2, e); break;
		case 4: same(r_array_insert(a, L, e.data()), L, o); ins(L, e); break;
		case 5: same(r_array_insert(a, L + 2, e.data()), L + 2, o); ins(L + 2, e); break;
		case 6: same(r_array_insert(a, 0, NULL), 0, o); ins(0, z); break;
		case 7: same(r_array_replace(a, 0, e.data()), 0, o); if (L) m[0] = {e, true}; else ins(0, e); break;
		case 8: if (L) { same(r_array_replace(a, L - 1, e.data()), L - 1, o); m[L - 1] = {e, true}; } break;
		case 9: same(r_array_replace(a, L + 1, e.data()), L + 1, o); ins(L + 1, e); break;
		case 10: same(r_array_replace(a, 0, NULL), 0, o); if (L) m[0] = {z, true}; else ins(0, z); break;
		case 11: r_array_delete(a, 0); if (L) m.erase(m.begin()); break;
		case 12: r_array_delete(a, L / 2); if (L) m.erase(m.begin() + L / 2); break;
		case 13: if (L) { r_array_delete(a, L - 1); m.pop_back(); } break;
		case 14: r_array_delete(a, L); r_array_delete(a, L + 1); r_array_delete(a, (size_t)-1); break;
		case 15: same(r_array_removelast(a), L ? L - 1 : 0, o); if (L) m.pop_back(); break;
		case 16: same(r_array_setlength(a, 0), 0, o); m.clear(); break;
		case 17: if (L) { same(r_array_setlength(a, L - 1), L - 1, o); m.pop_back(); } break;
		case 18: same(r_array_setlength(a, L + 3), L + 3, o); grow(L + 3); break;
		case 19: if (L > 1) { size_t c = L - 1; if (r_array_move(a, 0, 1, c)) vh::fail("%s is refused", o); std::vector<Cell> t(m.begin() + 1, m.end()); std::copy(t.begin(), t.end(), m.begin()); } break;
		case 20: if (L > 1) { size_t c = L - 1; if (r_array_move(a, 1, 0, c)) vh::fail("%s is refused", o); std::vector<Cell> t(m.begin(), m.end() - 1); std::copy(t.begin(), t.end(), m.begin() + 1); } break;
		case 21: if (r_array_move(a, L, 0, 1) == 0 || r_array_move(a, 1, 0, L + (L == 0)) == 0) vh::fail("%s is accepted", o); break;
		case 22: if (r_array_move(a, 0, L, 1) == 0 || r_array_move(a, 0, 1, L + (L == 0)) == 0) vh::fail("%s is accepted", o); break;
		case 23: if (r_array_move(a, (size_t)-1, 0, 1) == 0 || r_array_move(a, 0, (size_t)-1, 1) == 0 || r_array_move(a, 1, 2, (size_t)-1) == 0) vh::fail("%s is accepted", o); break;
		case 24: if (L) {
			E got(esz, 0); struct S24 { char c[24]; };
			if (esz == 1) { char v = r_array_pop(a, char); memcpy(&got[0], &v, 1); } else if (esz == 4) { int v = r_array_pop(a, int); memcpy(&got[0], &v, 4); } else if (esz == 8) { long v = r_array_pop(a, long); memcpy(&got[0], &v, 8); } else { S24 v = r_array_pop(a, S24); memcpy(&got[0], &v, 24); }
			if (got != m.back().v) vh::fail("pop gives %s, should be %s", vh::esc(got).c_str(), vh::esc(m.back().v).c_str());
			m.pop_back();
		} else if (esz == 4) { (void)r_array_pop(a, int); } break;
		case 25:
			if (esz == 1) r_array_push(a, e[0], char); else if (esz == 4) { int v; memcpy(&v, e.data(), 4); r_array_push(a, v, int); } else if (esz == 8) { long v; memcpy(&v, e.data(), 8); r_array_push(a, v, long); } else { struct S24 { char c[24]; } v; memcpy(&v, e.data(), 24); r_array_push(a, v, S24); }
			m.push_back({e, true}); break;
		case 26: r_array_expand(a, 5); if (r_array_size(a) < L + 5) vh::fail("expand did not make room"); break;
		case 27: { void *p = r_array_slot_expand(a, L); if (p != r_array_slot(a, L) || r_array_size(a) <= L) vh::fail("slot_expand gives a wrong slot"); memcpy(p, e.data(), esz); hw = std::max(hw, L + 1); } break;
		case 28:
			if (esz == 4) r_array_sort(a, int); else if (esz == 1) r_array_sort(a, signed char); else if (esz == 8) r_array_sort(a, long); else break;
			std::stable_sort(m.begin(), m.end(), [&](const Cell &x, const Cell &y) { if (esz == 1) return (signed char)x.v[0] < (signed char)y.v[0]; if (esz == 4) { int p, q; memcpy(&p, x.v.data(), 4); memcpy(&q, y.v.data(), 4); return p < q; } long p, q; memcpy(&p, x.v.data(), 8); memcpy(&q, y.v.data(), 8); return p < q; });
			break;
		case 29: { rarray_t *c = (rarray_t *)r_array_copy((robject_t *)a); check("copying, the original", a, m); r_array_destroy(a); a = c; hw = m.size(); } break;
		case 30: { rarray_t *c = (rarray_t *)r_array_copy((robject_t *)a); check("copying, the copy", c, m); for (size_t q = 0; q < m.size(); q++) r_array_replace(c, q, NULL); r_array_add(c, e.data()); check("changing a copy, the original", a, m); r_array_destroy(c); } break;
		case 31: { char *p = (char *)r_array_slot_expand(a, L + 4); if (p != r_array_slot(a, L + 4) || r_array_size(a) <= L + 4) vh::fail("slot_expand gives a wrong slot"); p[esz - 1] = p[esz - 1]; } break;
		}
		note(); check(o, a, m);
	}
	r_array_destroy(a);
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::eval(ops.size() + 1); vh::steps(ops.size()); vh::distinct(sig);
}

// ---------------------------------------------------------------- chunked array
static const char *cop[] = {"add", "add zero", "add 15", "replace first", "replace last", "replace 20 past end", "replace first by zero", "setlength 0", "setlength +1", "setlength +17", "setlength 16", "inclength", "declength", "slot_expand next", "slot_expand +40", "copy, go on with the copy", "copy, spoil and drop the copy"};
static const int NC = sizeof cop / sizeof *cop;
static int cdepth = 4;
static std::string showc(uint64_t i)
{
	std::string s = "chunked array of " + std::to_string(ESZ[i % 4]) + "-byte elements:"; i /= 4;
	std::vector<int> o(cdepth); for (int k = cdepth; k--;) { o[k] = i % NC; i /= NC; }
	for (int x : o) s += std::string(" ") + cop[x] + ";";
	return s;
}
static void runc(uint64_t i)
{
	size_t esz = ESZ[i % 4]; i /= 4;
	std::vector<int> ops(cdepth); for (int k = cdepth; k--;) { ops[k] = i % NC; i /= NC; }
	if (P.size()) ops = P;
	long mem = r_debug_get_allocmem();
	rcarray_t *a = r_carray_create(esz);
	size_t len = 0; std::vector<Cell> st;   // every slot that has storage as far as the model knows; slots never written read as zero
	std::vector<void *> addr;
	unsigned n = 0; uint64_t sig = 0;
	size_t stale = 0;   // a copy may or may not carry what lay beyond the length of its source
	auto need = [&](size_t l) { while (st.size() < l) st.push_back({E(esz, 0), st.size() >= stale}); };
	auto check = [&](const char *after, rcarray_t *a, bool own) {
		if (r_carray_length(a) != len || (r_carray_empty(a) ? 1 : 0) != (len ? 0 : 1)) vh::fail("after %s: length %lu, should be %zu", after, r_carray_length(a), len);
		if (r_carray_size(a) < st.size() && own) vh::fail("after %s: %lu slots, %zu were asked for", after, r_carray_size(a), st.size());
		for (size_t k = 0; k < (own ? st.size() : len); k++) {
			if (st[k].known && memcmp(r_carray_slot(a, k), st[k].v.data(), esz)) vh::fail("after %s: element %zu is %s, should be %s", after, k, vh::esc(E((char *)r_carray_slot(a, k), esz)).c_str(), vh::esc(st[k].v).c_str());
			if (!st[k].known && own) { st[k].v.assign((char *)r_carray_slot(a, k), esz); st[k].known = true; }
			if (k < len) sig = vh::hstr(st[k].v, sig + k);
		}
		if (own) {
			for (size_t k = 0; k < addr.size(); k++) if (addr[k] != r_carray_slot(a, k)) vh::fail("after %s: element %zu moved in memory", after, k);
			while (addr.size() < st.size()) { addr.push_back(r_carray_slot(a, addr.size())); }
		}
	};
	auto add = [&](const E *e) { size_t r = r_carray_add(a, e ? e->data() : NULL); if (r != len) vh::fail("add returns %zu, should be %zu", r, len); need(len + 1); st[len++] = {e ? *e : E(esz, 0), true}; };
	auto rep = [&](size_t at, const E *e) { size_t r = r_carray_replace(a, at, e ? e->data() : NULL); if (r != at) vh::fail("replace returns %zu, should be %zu", r, at); need(at + 1); st[at] = {e ? *e : E(esz, 0), true}; };
	check("creation", a, true);
	for (size_t k = 0; k < ops.size(); k++) {
		E e = value(esz, ++n); const char *o = cop[ops[k]];
		switch (ops[k]) {
		case 0: add(&e); break;
		case 1: add(NULL); break;
		case 2: for (int q = 0; q < 15; q++) { e = value(esz, ++n); add(&e); } break;
		case 3: rep(0, &e); break;
		case 4: if (len) rep(len - 1, &e); break;
		case 5: rep(len + 20, &e); break;
		case 6: rep(0, NULL); break;
		case 7: r_carray_setlength(a, 0); len = 0; break;
		case 8: r_carray_setlength(a, ++len); need(len); break;
		case 9: r_carray_setlength(a, len += 17); need(len); break;
		case 10: r_carray_setlength(a, len = 16); need(len); break;
		case 11: r_carray_inclength(a); need(++len); break;
		case 12: r_carray_declength(a); if (len) len--; break;
		case 13: { need(len + 1); char *p = (char *)r_carray_slot_expand(a, len); if (p != r_carray_slot(a, len)) vh::fail("slot_expand gives a wrong slot"); memcpy(p, e.data(), esz); st[len] = {e, true}; } break;
		case 14: { need(len + 41); char *p = (char *)r_carray_slot_expand(a, len + 40); if (p != r_carray_slot(a, len + 40)) vh::fail("slot_expand gives a wrong slot"); memcpy(p, e.data(), esz); st[len + 40] = {e, true}; } break;
		case 15: { rcarray_t *c = (rcarray_t *)r_carray_copy((robject_t *)a); check("copying, the original", a, true); r_carray_destroy(a); a = c; addr.clear(); stale = std::max(stale, st.size()); st.resize(len); } break;
		case 16: { rcarray_t *c = (rcarray_t *)r_carray_copy((robject_t *)a); check("copying, the copy", c, false); for (size_t q = 0; q < len; q++) r_carray_replace(c, q, NULL); r_carray_add(c, e.data()); check("changing a copy, the original", a, true); r_carray_destroy(c); } break;
		}
		check(o, a, true);
	}
	r_carray_destroy(a);
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::eval(ops.size() + 1); vh::steps(ops.size()); vh::distinct(sig);
}

// ---------------------------------------------------------------- linked list
static const int NN = 4, NL = 5 * NN + 5 + 2 * NN;
static int ldepth = 4;
static std::string lopname(int o)
{
	static const char *k[] = {"add %d at head of A", "add %d at tail of A", "add %d at head of B", "add %d at tail of B", "delete %d"};
	char b[64];
	if (o < 5 * NN) { snprintf(b, sizeof b, k[o / NN], o % NN); return b; }
	o -= 5 * NN;
	static const char *m[] = {"splice A into B", "splice B into A", "take the first of A", "take the last of A", "move the first of A to the tail of B"};
	if (o < 5) return m[o];
	o -= 5;
	snprintf(b, sizeof b, o < NN ? "insert %d before the last of A" : "insert %d after the first of B", o % NN);
	return b;
}
static std::string showl(uint64_t i)
{
	std::string s = "lists:";
	std::vector<int> o(ldepth); for (int k = ldepth; k--;) { o[k] = i % NL; i /= NL; }
	for (int x : o) s += " " + lopname(x) + ";";
	return s;
}
struct Node { int pad; rlist_t lnk; int id; };
static void runl(uint64_t i)
{
	int ops[8]; for (int k = ldepth; k--;) { ops[k] = i % NL; i /= NL; }
	Node *nd = new Node[NN]; rlist_t *hd = new rlist_t[2];
	for (int k = 0; k < NN; k++) nd[k].id = k;
	r_list_init(&hd[0]); r_list_init(&hd[1]);
	std::vector<int> m[2];
	uint64_t sig = 0;
	auto where = [&](int x) { for (int l = 0; l < 2; l++) for (int y : m[l]) if (x == y) return l; return -1; };
	auto check = [&](const std::string &after) {
		for (int l = 0; l < 2; l++) {
			rlist_t *h = &hd[l], *p, *q; std::vector<int> f, b, sf, nx, pv;
			size_t guard = 0;
			r_list_foreach(p, h) { f.push_back(r_list_entry(p, Node, lnk)->id); if (++guard > 20) vh::fail("after %s: the list does not end", after.c_str()); }
			guard = 0;
			r_list_foreachreverse(p, h) { b.push_back(r_list_entry(p, Node, lnk)->id); if (++guard > 20) vh::fail("after %s: the list does not end backwards", after.c_str()); }
			r_list_for_eachsafe(p, q, h) sf.push_back(r_list_entry(p, Node, lnk)->id);
			for (p = r_list_first(h); p; p = r_list_next(h, p)) nx.push_back(r_list_entry(p, Node, lnk)->id);
			for (p = r_list_last(h); p; p = r_list_prev(h, p)) pv.push_back(r_list_entry(p, Node, lnk)->id);
			std::reverse(b.begin(), b.end()); std::reverse(pv.begin(), pv.end());
			if (f != m[l] || b != m[l] || sf != m[l] || nx != m[l] || pv != m[l]) vh::fail("after %s: list %c does not hold the right elements in the right order", after.c_str(), 'A' + l);
			if (r_list_count(h) != m[l].size() || (r_list_empty(h) ? 1 : 0) != (m[l].empty() ? 1 : 0)) vh::fail("after %s: list %c has %u elements, should be %zu", after.c_str(), 'A' + l, r_list_count(h), m[l].size());
			if (r_list_next(h, NULL) || r_list_prev(h, NULL)) vh::fail("a neighbour of nothing");
			for (int x : f) sig = vh::mix(sig, x + 1 + 10 * l);
		}
	};
	check("creation");
	int done = 0;
	for (int k = 0; k < ldepth; k++) {
		int o = ops[k], x = o % NN;
		if (o < 4 * NN) {
			if (where(x) >= 0) break;
			int l = o / NN / 2; bool head = (o / NN) % 2 == 0;
			if (head) { r_list_addh(&hd[l], &nd[x].lnk); m[l].insert(m[l].begin(), x); } else { r_list_addt(&hd[l], &nd[x].lnk); m[l].push_back(x); }
		} else if (o < 5 * NN) {
			int l = where(x); if (l < 0) break;
			r_list_del(&nd[x].lnk); m[l].erase(std::find(m[l].begin(), m[l].end(), x));
		} else if (o < 5 * NN + 2) {
			int s = o - 5 * NN, d = 1 - s;
			r_list_splice(&hd[s], &hd[d]); m[d].insert(m[d].begin(), m[s].begin(), m[s].end()); m[s].clear();
		} else if (o < 5 * NN + 5) {
			int w = o - 5 * NN - 2;
			rlist_t *p = w == 1 ? r_list_last(&hd[0]) : r_list_first(&hd[0]);
			if (!!p != !m[0].empty()) vh::fail("%s: wrong", lopname(o).c_str());
			if (!p) break;
			int id = r_list_entry(p, Node, lnk)->id;
			if (id != (w == 1 ? m[0].back() : m[0].front())) vh::fail("%s takes %d", lopname(o).c_str(), id);
			r_list_del(p); m[0].erase(w == 1 ? m[0].end() - 1 : m[0].begin());
			if (w == 2) { r_list_addt(&hd[1], p); m[1].push_back(id); }
		} else {
			bool bl = o - 5 * NN - 5 < NN; x = (o - 5 * NN - 5) % NN; int l = bl ? 0 : 1;
			if (where(x) >= 0 || m[l].empty()) break;
			rlist_t *p = bl ? r_list_last(&hd[0]) : r_list_first(&hd[1]);
			if (bl) { r_list_add(&nd[x].lnk, p->prev, p); m[0].insert(m[0].end() - 1, x); } else { r_list_add(&nd[x].lnk, p, p->next); m[1].insert(m[1].begin() + 1, x); }
		}
		check(lopname(o)); done++;
	}
	delete[] nd; delete[] hd;
	vh::eval(done + 1); vh::steps(done); vh::distinct(sig);
}
static void setup()
{
	adepth = vh::thorough ? 4 : 3; nlen0 = vh::thorough ? 6 : 5; cdepth = vh::thorough ? 6 : 5; ldepth = vh::thorough ? 5 : 4;
	apow = vh::ipow(NA, adepth);
	vh::Family f;
	f.name = "array"; f.count = apow * 4 * nlen0; f.run = runa; f.describe = showa; f.chunk = 512; vh::families.push_back(f);
	f.name = "chunked"; f.count = 4 * vh::ipow(NC, cdepth); f.run = runc; f.describe = showc; vh::families.push_back(f);
	static auto ESZN = [](uint64_t z) { return std::to_string(ESZ[z]) + "-byte elements: "; }; static auto run = [](std::vector<int> w, void (*r)(uint64_t), uint64_t at) { P = w; struct R { ~R() { P.clear(); } } x; r(at); };
	f.chunk = 8;
	f.name = "array-long"; f.count = 4 * npump(NA); f.run = [](uint64_t i) { run(pump(i / 4, NA), runa, (i % 4) * apow); }; f.describe = [](uint64_t i) { return "array of " + ESZN(i % 4) + showpump(i / 4, NA, aop); }; vh::families.push_back(f);
	f.name = "chunked-long"; f.count = 4 * npump(NC); f.run = [](uint64_t i) { run(pump(i / 4, NC), runc, i % 4); }; f.describe = [](uint64_t i) { return "chunked array of " + ESZN(i % 4) + showpump(i / 4, NC, cop); }; vh::families.push_back(f);
	f.chunk = 256;
	f.name = "list"; f.count = vh::ipow(NL, ldepth); f.run = runl; f.describe = showl; vh::families.push_back(f);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
