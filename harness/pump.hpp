// Pumped histories: every short word of operations again and again, and every operation many times followed by another many times.
#pragma once
#include "vh.hpp"
static std::vector<int> P; static int pumps = 300, pword = 2;
static uint64_t npump(int ops) { return vh::nstrings(ops, pword) - 1 + (uint64_t)ops * ops; }
static std::vector<int> pump(uint64_t i, int ops)
{
	uint64_t w = vh::nstrings(ops, pword) - 1; std::vector<int> r;
	if (i < w) { auto v = vh::nthstring(i + 1, ops); for (int k = 0; k < pumps; k++) r.push_back(v[k % v.size()]); }
	else { i -= w; for (int k = 0; k < 2 * pumps; k++) r.push_back(k < pumps ? i / ops : i % ops); }
	return r;
}
static std::string showpump(uint64_t i, int ops, const char *const *names)
{
	uint64_t w = vh::nstrings(ops, pword) - 1;
	if (i >= w) { i -= w; return std::to_string(pumps) + " times " + names[i / ops] + ", then " + std::to_string(pumps) + " times " + names[i % ops]; }
	std::string s = std::to_string(pumps) + " operations of the repeated"; for (int o : vh::nthstring(i + 1, ops)) s += std::string(" ") + names[o] + ";"; return s;
}
