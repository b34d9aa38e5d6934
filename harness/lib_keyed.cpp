// L02: every history of operations on the hash table, the map and the name-indexed array, compared with a plain list of (key, value) in insertion order.
#include "vh.hpp"
#include "pump.hpp"
#include <set>
extern "C" {
#include "rlib/rhash.h"
#include "rlib/rmap.h"
#include "rlib/rharray.h"
#include "rlib/rstring.h"
#include "rlib/rmem.h"
}
static int hdepth = 4, mdepth = 4, ndepth = 4;
// ------------------------------------------------------------ hash table
static const int NK = 4;
// a pair that collides in one bucket, a prefix pair, the empty key
static const char *skeys[2][NK] = {{"a", "ab", "", "b"}, {"key", "keykey", "kez", "yek"}};
static const long lkeys[2][NK] = {{0, 32, 1, -32}, {5, 5 + (1L << 40), -1, 5 + 64}};
static const int HOPS = 2 * NK + 1, HT = 4, HB = 3;   // types: string, counted string, rstring, long
static const int hbits[HB] = {0, 1, 5};
static const char *htn[HT] = {"terminated", "counted", "rstring", "long"};
static std::string showh(uint64_t i)
{
	vh::Idx x(i); int t = x.take(HT), b = x.take(HB), ks = x.take(2);
	std::string s = std::string("hash table, ") + htn[t] + " keys set " + std::to_string(ks) + ", " + std::to_string(1 << hbits[b]) + " buckets:";
	std::vector<int> o(hdepth); for (int k = hdepth; k--;) o[k] = x.take(HOPS);
	for (int v : o) s += v == 2 * NK ? " remove all;" : std::string(v < NK ? " insert " : " remove ") + "key " + std::to_string(v % NK) + ";";
	return s;
}
static void runh(uint64_t i)
{
	vh::Idx x(i); int t = x.take(HT), hb = x.take(HB), ks = x.take(2); int ops[8]; for (int k = hdepth; k--;) ops[k] = x.take(HOPS);
	long mem = r_debug_get_allocmem();
	// two separate copies of every key: one stored, one used to look up
	std::vector<void *> kp[2]; std::vector<char *> bufs; std::vector<rstr_t *> rs; std::vector<rstring_t *> rstr; long *lk = new long[2 * NK];
	for (int c = 0; c < 2; c++) for (int k = 0; k < NK; k++) {
		const char *s = skeys[ks][k]; size_t n = strlen(s);
		switch (t) {
		case 0: { char *b = new char[n + 1]; memcpy(b, s, n + 1); bufs.push_back(b); kp[c].push_back(b); } break;
		case 1: { char *b = new char[n]; memcpy(b, s, n); bufs.push_back(b); rstr_t *r = new rstr_t; r->str = b; r->size = n; rs.push_back(r); kp[c].push_back(r); } break;
		case 2: { rstring_t *r = r_string_create_from_str_len(s, n); rstr.push_back(r); kp[c].push_back(r); } break;
		case 3: lk[c * NK + k] = lkeys[ks][k]; kp[c].push_back(&lk[c * NK + k]); break;
		}
	}
	r_hash_equalfunc eq = t == 0 ? r_hash_strequal : t == 1 ? r_hash_rstrequal : t == 2 ? r_hash_rstring_equal : r_hash_longequal;
	r_hash_hashfun hf = t == 0 ? r_hash_strhash : t == 1 ? r_hash_rstrhash : t == 2 ? r_hash_rstring_hash : r_hash_longhash;
	rhash_t *h = r_hash_create(hbits[hb], eq, hf), *h2 = r_hash_create(hbits[hb], eq, hf);   // one holds indices, the other objects
	struct En { int k; size_t v; };
	std::vector<En> m; unsigned n = 0; uint64_t sig = 0;
	auto check = [&](const char *after) {
		for (int k = 0; k < NK; k++) {
			void *key = kp[1][k]; std::vector<size_t> want, f, b, fo;
			for (auto &e : m) if (e.k == k) want.push_back(e.v);
			for (rhash_node_t *p = r_hash_nodelookup(h, NULL, key); p; p = r_hash_nodelookup(h, p, key)) { f.push_back(r_hash_index(p)); if (f.size() > 30) break; }
			for (rhash_node_t *p = r_hash_nodetaillookup(h, NULL, key); p; p = r_hash_nodetaillookup(h, p, key)) { b.push_back(r_hash_index(p)); if (b.size() > 30) break; }
			for (rhash_node_t *p = r_hash_nodelookup(h2, NULL, key); p; p = r_hash_nodelookup(h2, p, key)) { fo.push_back((size_t)r_hash_object(p)); if (fo.size() > 30) break; }
			std::reverse(b.begin(), b.end());
			if (f != want || b != want || fo != want) vh::fail("after %s: key %d has %zu/%zu/%zu entries (forwards, backwards, objects) or the wrong ones, should be %zu", after, k, f.size(), b.size(), fo.size(), want.size());
			if (r_hash_lookup_index(h, key) != (want.empty() ? R_HASH_INVALID_INDEXVAL : want.front())) vh::fail("after %s: lookup of key %d gives %zu", after, k, r_hash_lookup_index(h, key));
			if (r_hash_taillookup_index(h, key) != (want.empty() ? R_HASH_INVALID_INDEXVAL : want.back())) vh::fail("after %s: tail lookup of key %d gives %zu", after, k, r_hash_taillookup_index(h, key));
			if (r_hash_lookup_object(h2, key) != (want.empty() ? NULL : (void *)want.front())) vh::fail("after %s: object lookup of key %d", after, k);
			for (size_t v : want) sig = vh::mix(sig, v * 5 + k);
		}
	};
	check("creation");
	for (int k = 0; k < hdepth; k++) {
		int o = ops[k], key = o % NK;
		if (o == 2 * NK) { r_hash_removeall(h); r_hash_removeall(h2); m.clear(); check("remove all"); continue; }
		if (o < NK) { n++; r_hash_insert_index(h, kp[0][key], n * 3 - 3); r_hash_insert_object(h2, kp[0][key], (void *)(size_t)(n * 3 - 3)); m.push_back({key, n * 3 - 3}); check("insert"); }
		else { r_hash_remove(h, kp[1][key]); r_hash_remove(h2, kp[1][key]); m.erase(std::remove_if(m.begin(), m.end(), [&](En &e) { return e.k == key; }), m.end()); check("remove"); }
	}
	r_hash_destroy(h); r_hash_destroy(h2);
	for (auto b : bufs) delete[] b; for (auto r : rs) delete r; for (auto r : rstr) r_string_destroy(r); delete[] lk;
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::eval(hdepth + 1); vh::steps(hdepth); vh::distinct(sig);
}

// ------------------------------------------------------------ map
static const int MK = 5;
static const char *mkeys[MK] = {"", "a", "ab", "b", "the quick brown fox jumps over the lazy dog, twice"};
static const char *mop[] = {"add key 0", "add key 1", "add key 2", "add key 3", "add key 4", "add key 1 without value", "delete oldest of key 0", "delete oldest of key 1", "delete newest of key 1", "delete newest of key 2",
	"set oldest of key 1", "set newest of key 2", "delete the first", "delete the last", "delete a dead or wild index", "delete everything in order", "add 20 others", "add key 3 terminated", "set through the pointer", "add another key"};
static const int MOPS = sizeof mop / sizeof *mop;
static const size_t msz[] = {4, 1, 8, 40};
static const size_t mbits[] = {1, 4, 7};
static std::string showm(uint64_t i)
{
	vh::Idx x(i); int z = x.take(4), b = x.take(3);
	std::string s = "map of " + std::to_string(msz[z]) + "-byte values, " + std::to_string(1 << mbits[b]) + " buckets:";
	std::vector<int> o(mdepth); for (int k = mdepth; k--;) o[k] = x.take(MOPS);
	for (int v : o) s += std::string(" ") + mop[v] + ";";
	return s;
}
static void runm(uint64_t i)
{
	vh::Idx x(i); size_t sz = msz[x.take(4)], bits = mbits[x.take(3)]; std::vector<int> ops(mdepth); for (int k = mdepth; k--;) ops[k] = x.take(MOPS);
	if (P.size()) ops = P;
	long mem = r_debug_get_allocmem();
	rmap_t *map = r_map_create(sz, bits);
	struct En { std::string k, v; size_t idx; void *addr; };
	std::vector<En> m; unsigned n = 0; uint64_t sig = 0; std::set<size_t> ever;
	auto val = [&] { n++; std::string v(sz, 0); for (size_t q = 0; q < sz; q++) v[q] = (char)(n * 13 + q * 7 + 1); return v; };
	auto look = [&](const std::string &k, bool tail) -> En * { if (tail) { for (size_t q = m.size(); q--;) if (m[q].k == k) return &m[q]; } else for (auto &e : m) if (e.k == k) return &e; return nullptr; };
	auto check = [&](const char *after) {
		std::vector<size_t> f, b; const size_t NO = (size_t)-1;
		for (size_t p = r_map_first(map); p != NO; p = r_map_next(map, p)) { f.push_back(p); if (f.size() > 100000) vh::fail("after %s: iteration does not end", after); }
		for (size_t p = r_map_last(map); p != NO; p = r_map_prev(map, p)) { b.push_back(p); if (b.size() > 100000) vh::fail("after %s: iteration does not end", after); }
		std::reverse(b.begin(), b.end());
		std::vector<size_t> want; for (auto &e : m) want.push_back(e.idx);
		if (f != want) vh::fail("after %s: iteration visits %zu entries, or not in order; should be %zu", after, f.size(), want.size());
		if (b != want) vh::fail("after %s: backward iteration visits %zu entries, or not in order; should be %zu", after, b.size(), want.size());
		for (auto &e : m) {
			rstring_t *k = r_map_key(map, e.idx); void *v = r_map_value(map, e.idx);
			if (!k || k->size != e.k.size() || strcmp(k->str, e.k.c_str())) vh::fail("after %s: index %zu has the wrong key", after, e.idx);
			if (!v || memcmp(v, e.v.data(), sz)) vh::fail("after %s: the value at index %zu (key '%s') is %s, should be %s", after, e.idx, e.k.c_str(), v ? vh::esc(std::string((char *)v, sz)).c_str() : "missing", vh::esc(e.v).c_str());
			if (e.addr && e.addr != v) vh::fail("after %s: the value at index %zu moved in memory", after, e.idx);
			e.addr = v;
			sig = vh::hstr(e.k + e.v, sig);
		}
		std::set<size_t> alive; for (auto &e : m) alive.insert(e.idx);
		for (size_t d : ever) { if (!alive.count(d) && (r_map_key(map, d) || r_map_value(map, d) || r_map_next(map, d) != NO || r_map_prev(map, d) != NO)) vh::fail("after %s: index %zu is deleted but still answers", after, d); }
		for (int k = 0; k < MK + 2; k++) {
			std::string ks = k < MK ? mkeys[k] : k == MK ? "nope" : "n7";
			char *cb = new char[ks.size()]; memcpy(cb, ks.data(), ks.size());
			En *h = look(ks, false), *t = look(ks, true);
			if (r_map_lookup(map, cb, ks.size()) != (h ? h->idx : NO) || r_map_lookup_s(map, ks.c_str()) != (h ? h->idx : NO)) vh::fail("after %s: lookup of '%s' gives %zd", after, ks.c_str(), (ssize_t)r_map_lookup(map, cb, ks.size()));
			if (r_map_taillookup(map, cb, ks.size()) != (t ? t->idx : NO) || r_map_taillookup_s(map, ks.c_str()) != (t ? t->idx : NO)) vh::fail("after %s: tail lookup of '%s' gives %zd", after, ks.c_str(), (ssize_t)r_map_taillookup(map, cb, ks.size()));
			delete[] cb;
		}
		if (r_map_key(map, 10000000) || r_map_value(map, (size_t)-1) || r_map_next(map, 10000000) != NO || r_map_setvalue(map, 10000000, &n) != NO) vh::fail("after %s: a wild index answers", after);
	};
	auto add = [&](const std::string &k, bool hasval, bool terminated) {
		std::string v = hasval ? val() : std::string(sz, 0);
		char *cb = new char[k.size() + terminated]; memcpy(cb, k.data(), k.size()); if (terminated) cb[k.size()] = 0;
		size_t at = terminated ? r_map_add_s(map, cb, hasval ? v.data() : NULL) : r_map_add(map, cb, k.size(), hasval ? v.data() : NULL);
		memset(cb, 'x', k.size()); delete[] cb;
		for (auto &e : m) if (e.idx == at) vh::fail("add gives the index %zu, which is in use", at);
		m.push_back({k, v, at, nullptr}); ever.insert(at);
	};
	auto del = [&](const std::string &k, bool tail) {
		En *e = look(k, tail); size_t at = tail ? r_map_taillookup(map, k.data(), k.size()) : r_map_lookup(map, k.data(), k.size());
		rboolean r = r_map_delete(map, at);
		if (!!r != !!e) vh::fail("delete of index %zd says %d", (ssize_t)at, (int)r);
		if (e) { if (r_map_delete(map, at)) vh::fail("deleted twice"); m.erase(m.begin() + (e - &m[0])); }
	};
	auto set = [&](En *e) { if (!e) return; std::string v = val(); if (r_map_setvalue(map, e->idx, v.data()) != e->idx) vh::fail("setvalue is refused"); e->v = v; };
	check("creation");
	for (size_t k = 0; k < ops.size(); k++) {
		int o = ops[k];
		switch (o) {
		case 0: case 1: case 2: case 3: case 4: add(mkeys[o], true, false); break;
		case 5: add(mkeys[1], false, false); break;
		case 6: del(mkeys[0], false); break;
		case 7: del(mkeys[1], false); break;
		case 8: del(mkeys[1], true); break;
		case 9: del(mkeys[2], true); break;
		case 10: set(look(mkeys[1], false)); break;
		case 11: set(look(mkeys[2], true)); break;
		case 12: if (!m.empty()) { if (!r_map_delete(map, r_map_first(map))) vh::fail("delete is refused"); m.erase(m.begin()); } break;
		case 13: if (!m.empty()) { if (!r_map_delete(map, r_map_last(map))) vh::fail("delete is refused"); m.pop_back(); } break;
		case 14: {
			if (r_map_delete(map, 10000000) || r_map_delete(map, (size_t)-1)) vh::fail("a wild index is deleted");
			std::set<size_t> alive; for (auto &e : m) alive.insert(e.idx);
		for (size_t d : ever) { if (!alive.count(d) && (r_map_delete(map, d) || r_map_setvalue(map, d, mop) != (size_t)-1)) vh::fail("a dead index is deleted or set"); }
			} break;
		case 15: { size_t c = 0; for (size_t p = r_map_first(map); p != (size_t)-1;) { size_t q = r_map_next(map, p); if (!r_map_delete(map, p)) vh::fail("delete is refused"); p = q; c++; } if (c != m.size()) vh::fail("deleted %zu of %zu", c, m.size()); m.clear(); } break;
		case 16: for (int q = 0; q < 20; q++) add("n" + std::to_string(q), true, q & 1); break;
		case 17: add(mkeys[3], true, true); break;
		case 19: { std::string nk = "k" + std::to_string(n * 37 % 1009) + std::string(n % 40, 'z'); add(nk, true, n & 1); En *h = look(nk, false); if (r_map_lookup_s(map, nk.c_str()) != h->idx) vh::fail("the key just added is not found"); } break;
		case 18: if (!m.empty()) { En &e = m[m.size() / 2]; e.v = val(); memcpy(r_map_value(map, e.idx), e.v.data(), sz); } break;
		}
		check(mop[o]);
	}
	r_map_destroy(map);
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::eval(ops.size() + 1); vh::steps(ops.size()); vh::distinct(sig);
}
// numeric keys: every pair of them is either the same key or two different keys
static std::vector<long> nl; static std::vector<double> nd;
static std::string shown(uint64_t i) { char b[100]; if (i < nl.size()) snprintf(b, sizeof b, "map keyed by the integer %ld among others", nl[i]); else snprintf(b, sizeof b, "map keyed by the number %.17g among others", nd[i - nl.size()]); return b; }
static void runn(uint64_t i)
{
	rmap_t *map = r_map_create(sizeof(int), i % 16 + 1);
	bool l = i < nl.size(); size_t n = l ? nl.size() : nd.size(), at = l ? i : i - nl.size();
	std::vector<size_t> ix(n);
	for (size_t q = 0; q < n; q++) if (q != at) { int v = q; ix[q] = l ? r_map_add_l(map, nl[q], &v) : r_map_add_d(map, nd[q], &v); }
	size_t g = l ? r_map_lookup_l(map, nl[at]) : r_map_lookup_d(map, nd[at]);
	if (g != (size_t)-1) vh::fail("found before it is added: it shares its key with number %d", *(int *)r_map_value(map, g));
	int v = at; ix[at] = l ? r_map_add_l(map, nl[at], &v) : r_map_add_d(map, nd[at], &v);
	for (size_t q = 0; q < n; q++) { g = l ? r_map_lookup_l(map, nl[q]) : r_map_lookup_d(map, nd[q]); if (g != ix[q] || *(int *)r_map_value(map, g) != (int)q) vh::fail("lookup of number %zu gives index %zd", q, (ssize_t)g); }
	if (l) { char b[32]; snprintf(b, sizeof b, "%ld", nl[at]); if (r_map_lookup_s(map, b) != ix[at]) vh::fail("not found under its text"); }
	r_map_destroy(map);
	vh::eval(n); vh::steps(n); vh::distinct(i + 1);
}

// ------------------------------------------------------------ name-indexed array
static const char *nop[] = {"add key 0", "add key 1", "add key 2", "add key 3", "add key 4", "add key 1 without value", "add key 2 terminated", "replace key 0", "replace key 1", "replace key 2 terminated", "replace key 3 without value", "set 0", "set last", "set wild", "copy, go on with the copy", "copy, spoil and drop the copy", "add 20 others", "set through the pointer", "add another key"};
static const int NOPS = sizeof nop / sizeof *nop;
static std::string showa(uint64_t i)
{
	vh::Idx x(i); int z = x.take(4);
	std::string s = "named array of " + std::to_string(msz[z]) + "-byte elements:";
	std::vector<int> o(ndepth); for (int k = ndepth; k--;) o[k] = x.take(NOPS);
	for (int v : o) s += std::string(" ") + nop[v] + ";";
	return s;
}
static void runa(uint64_t i)
{
	vh::Idx x(i); size_t sz = msz[x.take(4)]; std::vector<int> ops(ndepth); for (int k = ndepth; k--;) ops[k] = x.take(NOPS);
	if (P.size()) ops = P;
	long mem = r_debug_get_allocmem();
	rharray_t *a = r_harray_create(sz);
	struct En { std::string k, v; };
	std::vector<En> m; unsigned n = 0; uint64_t sig = 0;
	auto val = [&] { n++; std::string v(sz, 0); for (size_t q = 0; q < sz; q++) v[q] = (char)(n * 13 + q * 7 + 1); return v; };
	auto look = [&](const std::string &k, bool tail) -> long { if (tail) { for (size_t q = m.size(); q--;) if (m[q].k == k) return q; } else for (size_t q = 0; q < m.size(); q++) if (m[q].k == k) return q; return -1; };
	auto check = [&](const char *after, rharray_t *a) {
		if (r_harray_length(a) != m.size()) vh::fail("after %s: length %lu, should be %zu", after, r_harray_length(a), m.size());
		for (size_t q = 0; q < m.size(); q++) {
			void *p = r_harray_get(a, q);
			if (!p || memcmp(p, m[q].v.data(), sz)) vh::fail("after %s: element %zu is %s, should be %s", after, q, p ? vh::esc(std::string((char *)p, sz)).c_str() : "missing", vh::esc(m[q].v).c_str());
			if (p != (void *)r_harray_slot(a, q)) vh::fail("after %s: get and slot differ", after);
			sig = vh::hstr(m[q].k + m[q].v, sig);
		}
		if (r_harray_get(a, m.size()) || r_harray_get(a, (unsigned long)-1)) vh::fail("after %s: get beyond the length answers", after);
		for (int k = 0; k < MK + 2; k++) {
			std::string ks = k < MK ? mkeys[k] : k == MK ? "nope" : "n7";
			char *cb = new char[ks.size()]; memcpy(cb, ks.data(), ks.size());
			long h = look(ks, false), t = look(ks, true);
			if (r_harray_lookup(a, cb, ks.size()) != h || r_harray_lookup_s(a, ks.c_str()) != h) vh::fail("after %s: lookup of '%s' gives %ld/%ld, should be %ld", after, ks.c_str(), r_harray_lookup(a, cb, ks.size()), r_harray_lookup_s(a, ks.c_str()), h);
			if (r_harray_taillookup(a, cb, ks.size()) != t || r_harray_taillookup_s(a, ks.c_str()) != t) vh::fail("after %s: tail lookup of '%s' gives %ld/%ld, should be %ld", after, ks.c_str(), r_harray_taillookup(a, cb, ks.size()), r_harray_taillookup_s(a, ks.c_str()), t);
			std::vector<size_t> want, f, b, fs, bs;
			for (size_t q = 0; q < m.size(); q++) if (m[q].k == ks) want.push_back(q);
			for (rhash_node_t *p = r_harray_nodelookup(a, NULL, cb, ks.size()); p; p = r_harray_nodelookup(a, p, cb, ks.size())) f.push_back(r_hash_index(p));
			for (rhash_node_t *p = r_harray_nodetaillookup(a, NULL, cb, ks.size()); p; p = r_harray_nodetaillookup(a, p, cb, ks.size())) b.push_back(r_hash_index(p));
			for (rhash_node_t *p = r_harray_nodelookup_s(a, NULL, ks.c_str()); p; p = r_harray_nodelookup_s(a, p, ks.c_str())) fs.push_back(r_hash_index(p));
			for (rhash_node_t *p = r_harray_nodetaillookup_s(a, NULL, ks.c_str()); p; p = r_harray_nodetaillookup_s(a, p, ks.c_str())) bs.push_back(r_hash_index(p));
			std::reverse(b.begin(), b.end()); std::reverse(bs.begin(), bs.end());
			if (f != want || b != want || fs != want || bs != want) vh::fail("after %s: the entries named '%s' are not the right ones", after, ks.c_str());
			delete[] cb;
		}
	};
	auto put = [&](const std::string &k, bool rep, bool hasval, bool terminated) {
		std::string v = hasval ? val() : std::string(sz, 0);
		char *cb = new char[k.size() + terminated]; memcpy(cb, k.data(), k.size()); if (terminated) cb[k.size()] = 0;
		const void *p = hasval ? v.data() : NULL;
		long at = rep ? (terminated ? r_harray_replace_s(a, cb, p) : r_harray_replace(a, cb, k.size(), p)) : terminated ? r_harray_add_s(a, cb, p) : r_harray_add(a, cb, k.size(), p);
		memset(cb, 'x', k.size()); delete[] cb;
		long want = rep ? look(k, false) : -1;
		if (want < 0) { want = m.size(); m.push_back({k, v}); } else m[want].v = v;
		if (at != want) vh::fail("index %ld, should be %ld", at, want);
	};
	check("creation", a);
	for (size_t k = 0; k < ops.size(); k++) {
		int o = ops[k];
		switch (o) {
		case 0: case 1: case 2: case 3: case 4: put(mkeys[o], false, true, false); break;
		case 5: put(mkeys[1], false, false, false); break;
		case 6: put(mkeys[2], false, true, true); break;
		case 7: put(mkeys[0], true, true, false); break;
		case 8: put(mkeys[1], true, true, false); break;
		case 9: put(mkeys[2], true, true, true); break;
		case 10: put(mkeys[3], true, false, false); break;
		case 11: case 12: if (!m.empty()) { size_t at = o == 11 ? 0 : m.size() - 1; std::string v = val(); if (r_harray_set(a, at, v.data())) vh::fail("set is refused"); m[at].v = v; } break;
		case 13: { std::string v = val(); if (r_harray_set(a, -1, v.data()) == 0 || r_harray_set(a, m.size(), v.data()) == 0 || r_harray_set(a, m.size() + 17, v.data()) == 0) vh::fail("set of an element that does not exist is accepted"); } break;
		case 14: { rharray_t *c = (rharray_t *)r_harray_copy((robject_t *)a); check("copying, the original", a); r_harray_destroy(a); a = c; } break;
		case 15: { rharray_t *c = (rharray_t *)r_harray_copy((robject_t *)a); check("copying, the copy", c); for (size_t q = 0; q < m.size(); q++) r_harray_set(c, q, NULL); r_harray_add_s(c, "a", NULL); check("changing a copy, the original", a); r_harray_destroy(c); } break;
		case 16: for (int q = 0; q < 20; q++) put("n" + std::to_string(q), false, true, q & 1); break;
		case 18: { std::string nk = "k" + std::to_string(n * 37 % 1009) + std::string(n % 40, 'z'); put(nk, false, true, n & 1); if (r_harray_lookup_s(a, nk.c_str()) != look(nk, false)) vh::fail("the key just added is not found"); } break;
		case 17: if (!m.empty()) { En &e = m[m.size() / 2]; e.v = val(); memcpy(r_harray_get(a, m.size() / 2), e.v.data(), sz); } break;
		}
		check(nop[o], a);
	}
	r_harray_destroy(a);
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::eval(ops.size() + 1); vh::steps(ops.size()); vh::distinct(sig);
}
// many keys: inserted, every p-th one removed, those inserted again, everything removed
static const size_t many[] = {5, 17, 31, 32, 33, 64, 100, 255, 256, 257, 300, 1000};
static std::string showmany(uint64_t i) { vh::Idx x(i); int t = x.take(2), b = x.take(8), p = x.take(4); return vh::fmt("hash table of %zu %s keys in %d buckets, every %d-th removed and put back", many[x.v], t ? "long" : "text", 1 << b, p + 1); }
static void runmany(uint64_t i)
{
	vh::Idx x(i); int t = x.take(2), b = x.take(8), p = x.take(4) + 1; size_t N = many[x.v];
	long mem = r_debug_get_allocmem(); uint64_t sig = i;
	std::vector<std::string> ks; std::vector<long> kl; for (size_t k = 0; k < N; k++) { ks.push_back("k" + std::to_string(k * k) + std::string(k % 7, 'y')); kl.push_back((long)k * 64 - 500); }
	auto key = [&](size_t k) -> const void * { return t ? (const void *)&kl[k] : ks[k].c_str(); };
	rhash_t *h = r_hash_create(b, t ? r_hash_longequal : r_hash_strequal, t ? r_hash_longhash : r_hash_strhash);
	std::vector<long> m(N, -1);
	auto check = [&](const char *after) { for (size_t k = 0; k < N; k++) { size_t g = r_hash_lookup_index(h, key(k)), gt = r_hash_taillookup_index(h, key(k)), w = m[k] < 0 ? R_HASH_INVALID_INDEXVAL : m[k]; if (g != w || gt != w) vh::fail("after %s: key %zu gives %zd/%zd, should be %zd", after, k, (ssize_t)g, (ssize_t)gt, (ssize_t)w); sig = vh::mix(sig, g); } vh::eval(); };
	for (size_t k = 0; k < N; k++) { r_hash_insert_index(h, key(k), k); m[k] = k; if (N <= 100) check("insert"); } check("inserting");
	for (size_t k = 0; k < N; k += p) { r_hash_remove(h, key(k)); m[k] = -1; if (N <= 100) check("remove"); } check("removing");
	for (size_t k = 0; k < N; k += p) { r_hash_insert_index(h, key(k), k + 5000); m[k] = k + 5000; } check("inserting again");
	r_hash_removeall(h); m.assign(N, -1); check("removing all");
	for (size_t k = N; k--;) { r_hash_insert_index(h, key(k), k); m[k] = k; } check("inserting backwards");
	r_hash_destroy(h);
	if ((long)r_debug_get_allocmem() != mem) vh::fail("leaks");
	vh::steps(4 * N); vh::distinct(sig);
}
static void setup()
{
	hdepth = vh::thorough ? 7 : 5; mdepth = vh::thorough ? 5 : 4; ndepth = vh::thorough ? 5 : 4;
	for (long v : {0L, 1L, -1L, 10L, -10L, 100L, 2147483647L, -2147483648L, 4294967296L, 9223372036854775807L, (long)(-9223372036854775807L - 1)}) nl.push_back(v);
	for (long b = 3; b < 62; b++) { nl.push_back(1L << b); nl.push_back(-(1L << b) - 1); }
	std::sort(nl.begin(), nl.end()); nl.erase(std::unique(nl.begin(), nl.end()), nl.end());
	for (double d : {0.0, 1.0, -1.0, 0.5, -0.5, 1e-15, 1e-14, 0.1, 0.2, 0.3, 0.30000000000001, 1e15, 1e15 + 1, 1e16, 123456789.125, 1e100, -1e100}) nd.push_back(d);
	for (int k = 1; k < 40; k++) nd.push_back(k * 1.25 + 7);
	vh::Family f; f.chunk = 256;
	f.name = "hash"; f.count = HT * HB * 2 * vh::ipow(HOPS, hdepth); f.run = runh; f.describe = showh; vh::families.push_back(f);
	f.name = "map"; f.count = 12 * vh::ipow(MOPS, mdepth); f.run = runm; f.describe = showm; vh::families.push_back(f);
	f.name = "numeric-keys"; f.count = nl.size() + nd.size(); f.run = runn; f.describe = shown; vh::families.push_back(f);
	f.name = "named-array"; f.count = 4 * vh::ipow(NOPS, ndepth); f.run = runa; f.describe = showa; vh::families.push_back(f);
	pumps = vh::thorough ? 200 : 100; f.chunk = 8;
	static auto run = [](std::vector<int> w, void (*r)(uint64_t), uint64_t at) { P = w; struct R { ~R() { P.clear(); } } x; r(at); };
	f.name = "map-long"; f.count = 3 * npump(MOPS); f.run = [](uint64_t i) { run(pump(i / 3, MOPS), runm, i % 3 * 5 + 1); }; f.describe = [](uint64_t i) { vh::Idx x(i); int b = x.take(3), z = b + 1; return "map of " + std::to_string(msz[z]) + "-byte values, " + std::to_string(1 << mbits[b]) + " buckets: " + showpump(x.v, MOPS, mop); }; vh::families.push_back(f);
	f.name = "named-array-long"; f.count = 2 * npump(NOPS); f.run = [](uint64_t i) { run(pump(i / 2, NOPS), runa, i % 2 * 3); }; f.describe = [](uint64_t i) { return "named array of " + std::to_string(msz[i % 2 * 3]) + "-byte elements: " + showpump(i / 2, NOPS, nop); }; vh::families.push_back(f);
	f.name = "hash-many"; f.count = 2 * 8 * 4 * (sizeof many / sizeof *many); f.run = runmany; f.describe = showmany; vh::families.push_back(f);
}
int main(int c, char **v) { return vh::main(c, v, setup); }
