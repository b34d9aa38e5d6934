// Which left-recursive grammars have a defined meaning (see the statement of P02).
#pragma once
#include "pegmodel.hpp"
namespace peg {
// a repeated reference (* or +) that is itself part of a left-recursive cycle
inline bool repeatedloopref(const Model &m, int rule, PP e)
{
	if (e->k == REF && (e->q == '*' || e->q == '+') && m.reach[e->rule][rule]) return true;
	for (PP x : e->kid) if (repeatedloopref(m, rule, x)) return true;
	return false;
}
// a reference of a left-recursive cycle under ^ or on the right of -
inline bool lookaheadloop(const Model &m, int rule, PP e, bool under)
{
	if (e->k == REF && under && m.reach[e->rule][rule]) return true;
	for (size_t i = 0; i < e->kid.size(); i++) if (lookaheadloop(m, rule, e->kid[i], under || e->k == NOT || (e->k == MIN && i > 0))) return true;
	return false;
}
inline bool lrspecified(const Model &m)
{
	bool spec = true;
	for (int i = 0; i < m.n; i++) if (m.leftrec[i]) spec = spec && !repeatedloopref(m, i, m.g.r[i].body) && !lookaheadloop(m, i, m.g.r[i].body, false);
	// one cycle only: no left-recursive rule may have a second cycle avoiding another rule of its component
	for (int h = 0; h < m.n && spec; h++) if (m.leftrec[h]) for (int x = 0; x < m.n; x++) if (x != h && m.reach[h][x] && m.reach[x][h]) {
		std::vector<std::vector<bool>> r = m.direct;
		for (int i = 0; i < m.n; i++) r[h][i] = r[i][h] = false;
		for (int k = 0; k < m.n; k++) for (int i = 0; i < m.n; i++) if (r[i][k]) for (int j = 0; j < m.n; j++) if (r[k][j]) r[i][j] = true;
		if (r[x][x]) spec = false;
	}
	return spec;
}
}
