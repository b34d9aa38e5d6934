// R03: databases holding several expressions: acceptance, tags, and well-formedness of the automaton.
#include "vh.hpp"
#include "rexmodel.hpp"
#include <algorithm>
extern "C" {
#include "rlib/rmem.h"
#include "rex/rexdef.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexdfasimulator.h"
#include "rex/rexnfasimulator.h"
}
using namespace rm;
static std::vector<P> E2, E3;
static std::vector<Text> IN; static std::vector<std::string> BY;
typedef std::set<size_t> Tags;

static void structure(rexdfa_t *d, bool sub)
{
	VH_CHECK(d->nstates >= 2, "automaton has %u states", d->nstates);
	for (rexuint_t s = 0; s < d->nstates; s++) {
		rexdfs_t *st = rex_dfa_state(d, s);
		VH_CHECK(st, "state %u missing", s);
		VH_CHECK(st->ntrans >= 1, "state %u has no transition", s);
		uint64_t next = 0;
		for (rexuint_t k = 0; k < st->ntrans; k++) {
			rexdft_t *x = rex_dfa_transition(d, s, k);
			VH_CHECK(x && x->lowin == next && x->highin >= x->lowin, "state %u: transition %u is [%u,%u], expected to start at %llu", s, k, x ? x->lowin : 0, x ? x->highin : 0, (unsigned long long)next);
			VH_CHECK(x->state < d->nstates, "state %u: transition to %u of %u", s, x->state, d->nstates);
			if (s == REX_DFA_DEADSTATE) VH_CHECK(x->state == REX_DFA_DEADSTATE, "the dead state is left towards %u", x->state);
			next = (uint64_t)x->highin + 1;
		}
		VH_CHECK(next == (1ULL << 32), "state %u: transitions stop at %llu", s, (unsigned long long)next);
		VH_CHECK(rex_dfa_transition(d, s, st->ntrans) == NULL, "transition past the last one");
		VH_CHECK((st->type == REX_STATETYPE_ACCEPT) <= (st->naccsubstates > 0), "state %u accepts without an expression", s);
		if (s > 1) VH_CHECK((st->type == REX_STATETYPE_ACCEPT) == (st->naccsubstates > 0), "state %u: accept mark disagrees with its %u accepting expressions", s, st->naccsubstates);
		for (rexuint_t k = 0; k < st->naccsubstates; k++) { rexdfss_t *a = rex_dfa_accsubstate(d, s, k); VH_CHECK(a && a->type == REX_STATETYPE_ACCEPT, "state %u: accepting sub-state %u bad", s, k); }
		VH_CHECK(rex_dfa_accsubstate(d, s, st->naccsubstates) == NULL, "accepting sub-state past the last one");
		if (sub && s != REX_DFA_DEADSTATE) {
			VH_CHECK(st->nsubstates > 0, "state %u stands for no state", s);
			rexuint_t acc = 0;
			for (rexuint_t k = 0; k < st->nsubstates; k++) { rexdfss_t *a = rex_dfa_substate(d, s, k); VH_CHECK(a, "sub-state missing"); if (a->type == REX_STATETYPE_ACCEPT) acc++; }
			VH_CHECK(acc == st->naccsubstates, "state %u: %u accepting sub-states of which %u listed", s, acc, st->naccsubstates);
		}
	}
	VH_CHECK(rex_dfa_state(d, 0)->type == REX_STATETYPE_DEAD, "state 0 is not dead");
	VH_CHECK(rex_dfa_state(d, d->nstates) == NULL, "state past the last one");
}

static void check(const std::vector<P> &ex, const std::vector<size_t> &tags, const std::vector<Text> &IN, const std::vector<std::string> &BY)
{
	long mem0 = r_debug_get_allocmem();
	rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA);
	long start = -1;
	for (size_t k = 0; k < ex.size(); k++) {
		long r = rex_db_addexpression(nfa, start, ex[k]->s.c_str(), ex[k]->s.size(), tags[k]);
		VH_CHECK(r >= 0 && (start < 0 || r == start), "adding expression %zu returned %ld", k, r);
		start = r;
	}
	rexdb_t *db = rex_db_createdfa(nfa, start);
	VH_CHECK(db, "no DFA");
	rexdfa_t *d0 = rex_db_todfa(db, 0), *d1 = rex_db_todfa(db, 1);
	VH_CHECK(d0 && d1, "no frozen DFA");
	structure(d0, false); structure(d1, true);
	rex_nfasimulator_t *ns = rex_nfasimulator_create();
	rex_dfasimulator_t *ds = rex_dfasimulator_create();
	uint64_t h = 3;
	for (size_t k = 0; k < IN.size(); k++) {
		const Text &t = IN[k]; const std::string &b = BY[k];
		if (t.empty()) continue;
		Tags want, got0, got1, gotn, gotd; size_t lw = 0;
		for (size_t i = 0; i < ex.size(); i++) { if (whole(ex[i], t)) want.insert(tags[i]); size_t l = longest(ex[i], t); if (l > lw) lw = l; }
		rexuint_t s0 = REX_DFA_STARTSTATE, s1 = s0; bool left = false;
		for (auto c : t) { s0 = rex_dfa_next(d0, s0, c); s1 = rex_dfa_next(d1, s1, c); VH_CHECK(!(left && s0), "dead state was left"); if (!s0) left = true; }
		for (rexuint_t a = 0; a < rex_dfa_state(d0, s0)->naccsubstates; a++) { auto x = rex_dfa_accsubstate(d0, s0, a); got0.insert(x->userdata); }
		for (rexuint_t a = 0; a < rex_dfa_state(d1, s1)->naccsubstates; a++) { auto x = rex_dfa_accsubstate(d1, s1, a); got1.insert(x->userdata); }
		VH_CHECK((rex_dfa_state(d0, s0)->type == REX_STATETYPE_ACCEPT) == !want.empty(), "input '%s': accepted=%d but %zu expressions match", vh::esc(b).c_str(), rex_dfa_state(d0, s0)->type == REX_STATETYPE_ACCEPT, want.size());
		VH_CHECK(got0 == want && got1 == want, "input '%s': the state lists %zu/%zu tags, %zu expressions match", vh::esc(b).c_str(), got0.size(), got1.size(), want.size());
		// tags reported by the NFA simulator for the longest match
		Tags wl; Text pre(t.begin(), t.begin() + lw); size_t lb = utf8(pre).size();
		if (lw) for (size_t i = 0; i < ex.size(); i++) if (whole(ex[i], pre)) wl.insert(tags[i]);
		rex_nfasimulator_run(ns, nfa, start, b.data(), b.size());
		size_t ll = 0;
		for (size_t i = 0; i < r_array_length(ns->accepts); i++) { rex_accept_t *a = (rex_accept_t *)r_array_slot(ns->accepts, i); if (a->inputsize > ll) { ll = a->inputsize; gotn.clear(); } if (a->inputsize == ll) gotn.insert(a->state->userdata); }
		VH_CHECK(ll == lb && gotn == wl, "input '%s': NFA simulator reports length %zu with %zu tags, want %zu with %zu", vh::esc(b).c_str(), ll, gotn.size(), lb, wl.size());
		size_t dl = rex_dfasimulator_run(ds, db, REX_DFA_STARTSTATE, b.data(), b.size());
		VH_CHECK(dl == lb, "input '%s': DFA simulator reports length %zu, want %zu", vh::esc(b).c_str(), dl, lb);
		if (dl) {
			rex_accept_t *a = (rex_accept_t *)r_array_lastslot(ds->accepts);
			for (size_t i = 0; i < r_array_length(a->state->subset); i++) { rexsubstate_t *ss = rex_db_getsubstate(db, r_array_index(a->state->subset, i, size_t)); if (ss && ss->ss_type == REX_STATETYPE_ACCEPT) gotd.insert(ss->ss_userdata); }
			VH_CHECK(gotd == wl, "input '%s': DFA simulator's state carries %zu tags, want %zu", vh::esc(b).c_str(), gotd.size(), wl.size());
		}
		h = vh::mix(h, want.size() * 16 + lw); for (auto x : want) h = vh::mix(h, x);
	}
	vh::distinct(h); vh::eval(IN.size()); vh::traces(IN.size() * 4); vh::steps(d0->ntrans);
	rex_nfasimulator_destroy(ns); rex_dfasimulator_destroy(ds);
	rex_dfa_destroy(d0); rex_dfa_destroy(d1); rex_db_destroy(db); rex_db_destroy(nfa);
	VH_CHECK((long)r_debug_get_allocmem() == mem0, "memory not released");
}
static void check(const std::vector<P> &ex, const std::vector<size_t> &tags) { check(ex, tags, IN, BY); }
// many expressions in one database: words, letters, words with an identifier behind or before them
struct Many { unsigned n; int f; };
static std::vector<Many> many;
static std::vector<Large> LA;
static std::vector<P> manyexprs(const Many &m, std::vector<size_t> &tags)
{
	std::vector<P> r; P id = rep(atom("[a-c]", {{'a', 'c'}}), 1, INF, "+");
	if (m.f == 1) { r.push_back(id); tags.push_back(1000); }
	for (unsigned i = 0; i < m.n; i++) {
		std::string w = word(m.f == 3 ? i * 11 % 363 : i, "abc"); P e = lit(w);
		if (m.f == 4) e = cat(e, q(ch('a'), QTINY[i % 4])); else if (m.f == 5) e = cat(uch(0x100 + i), ch('a'));
		r.push_back(e); tags.push_back(m.f == 2 ? m.n - i : m.f == 3 ? i / 2 : i);
	}
	if (m.f == 2 || m.f == 3) { r.push_back(id); tags.push_back(1000); }
	return r;
}
static void checkmany(uint64_t i)
{
	const Many &m = many[i]; std::vector<size_t> tags; std::vector<P> e = manyexprs(m, tags); std::vector<Text> in;
	if (m.f == 5) for (uint32_t c = 0xff; c <= 0x101 + m.n; c++) { in.push_back({c}); in.push_back({c, 'a'}); in.push_back({c, 'b'}); in.push_back({c, 'a', 'a'}); }
	else { unsigned w = m.n * 3 + 5; if (w > 363) w = 363; for (unsigned k = 0; k < w; k++) in.push_back(txt(word(k, "abc"))); for (unsigned k = 0; k < 20; k++) in.push_back(join(txt(word(k, "abc")), txt("d"))); }
	std::vector<std::string> by; for (auto &t : in) by.push_back(utf8(t));
	check(e, tags, in, by);
}
static void checklarge(uint64_t i)
{
	std::vector<P> e; std::vector<size_t> tags; P x = LA[i / 2].e(), id = rep(atom("[a-c]", {{'a', 'c'}}), 1, INF, "+");
	if (i & 1) e = {id, x}; else e = {x, id, ch('a')}; for (size_t k = 0; k < e.size(); k++) tags.push_back(3 - k);
	std::vector<Text> in; for (auto &t : LA[i / 2].in(x)) if (t.size() <= 200) in.push_back(t); std::vector<std::string> by; for (auto &t : in) by.push_back(utf8(t));
	check(e, tags, in, by);
}
static void setup()
{
	bool th = vh::thorough;
	std::vector<P> A = {ch('a'), ch('b'), any(), atom("[ab]", {{'a', 'b'}}), atom("[^a]", {{'a', 'a'}}, true), atom("[b-d]", {{'b', 'd'}}), atom("[#0x62-#xffff]", {{0x62, 0xffff}})};
	std::vector<P> t2 = quant({A[0], A[1]}, RMQ(QTINY));
	for (auto &x : quant(A, RMQ(QSMALL))) E2.push_back(x);
	for (auto &x : t2) for (auto &y : t2) { E2.push_back(cat(x, y)); E2.push_back(alt(x, y)); }
	for (auto &z : QTINY) if (*z.s) { E2.push_back(q(cat(A[0], A[1]), z)); E2.push_back(q(alt(A[0], A[1]), z)); E2.push_back(cat(q(alt(A[0], A[1]), z), A[0])); }
	E3 = {A[0], A[1], A[2], A[3], A[4], A[5], A[6], q(A[0], QTINY[1]), q(A[3], QTINY[3]), cat(A[0], A[1]), cat(A[0], q(A[1], QTINY[1])), cat(q(A[3], QTINY[1]), A[1]), q(cat(A[0], A[1]), QTINY[3]), rep(A[0], 2, 3, "{2,3}")};
	for (uint64_t i = 0; i < vh::nstrings(3, th ? 6 : 5); i++) { Text t; for (int c : vh::nthstring(i, 3)) t.push_back("abd"[c]); IN.push_back(t); BY.push_back(utf8(t)); }
	for (uint32_t c : {0x1fffu, 0xffffu, 0x10000u, 0x61u, 0x65u, 0u, 10u}) for (uint32_t d : {0x61u, 0x62u, 0xe9u}) { IN.push_back({c, d}); IN.push_back({d, c}); IN.push_back({c}); }
	BY.clear(); for (auto &t : IN) BY.push_back(utf8(t));
	static const std::vector<std::vector<size_t>> TG2 = {{1, 2}, {2, 1}, {5, 5}, {0, 1}};
	uint64_t n = E2.size();
	auto two = [n](uint64_t i) { return std::vector<P>{E2[i % n], E2[i / n % n]}; };
	vh::families.push_back({"pairs", n * n, [two](uint64_t i) { check(two(i), {11, 22}); }, [two](uint64_t i) { auto v = two(i); return v[0]->s + "  ,  " + v[1]->s; }, 16});
	uint64_t m = E3.size();
	auto three = [m](uint64_t i) { i /= 4; return std::vector<P>{E3[i % m], E3[i / m % m], E3[i / m / m % m]}; };
	auto tg = [](uint64_t i) { static const std::vector<size_t> T[] = {{1, 2, 3}, {3, 1, 2}, {7, 7, 1}, {(size_t)-1, 0, 1}}; return T[i % 4]; };
	vh::families.push_back({"triples", m * m * m * 4, [three, tg](uint64_t i) { check(three(i), tg(i)); }, [three, tg](uint64_t i) { auto v = three(i); auto t = tg(i); return v[0]->s + "#" + std::to_string(t[0]) + "  ,  " + v[1]->s + "#" + std::to_string(t[1]) + "  ,  " + v[2]->s + "#" + std::to_string(t[2]); }, 16});
	for (int f = 0; f < 6; f++) for (unsigned n = 3; n <= (th ? 200 : 100); n += n < 20 ? 1 : 10) many.push_back({n, f});
	vh::families.push_back({"many", many.size(), checkmany, [](uint64_t i) { std::vector<size_t> tags; std::string s; for (auto &e : manyexprs(many[i], tags)) s += e->s + "  "; return s; }, 1});
	LA = larges(th);
	vh::families.push_back({"large", LA.size() * 2, checklarge, [](uint64_t i) { return LA[i / 2].name + " " + LA[i / 2].e()->s + (i & 1 ? " after [a-c]+" : " before [a-c]+"); }, 2});
}
int main(int c, char **v) { return vh::main(c, v, setup); }
