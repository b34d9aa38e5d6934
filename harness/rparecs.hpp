// Comparing the engine's record array with the model's.
#pragma once
#include "rpaapi.hpp"
#include <cstring>
inline std::string showrecs(const std::vector<peg::Rec> &v, const peg::Grammar &g)
{
	std::string o;
	for (auto &r : v) o += (r.start ? "<" : "</") + g.r[r.rule].name + " " + std::to_string(r.off) + "+" + std::to_string(r.size) + "> ";
	return o;
}
inline std::string showrecs(rarray_t *recs)
{
	std::string o;
	for (long i = 0; i < (long)r_array_length(recs); i++) { rparecord_t *r = rpa_record_get(recs, i);
		o += std::string(r->type == RPA_RECORD_START ? "<" : r->type == RPA_RECORD_END ? "</" : "?") + (r->rule ? r->rule : "(none)") + " " + std::to_string(r->inputoff) + "+" + std::to_string(r->inputsiz) + "> "; }
	return o;
}
// want holds character offsets; the input here is one byte per character unless offs maps them
inline std::string diffrecs(rarray_t *recs, const std::vector<peg::Rec> &want, const peg::Grammar &g, const std::string &s, const std::vector<unsigned> *offs = nullptr)
{
	long n = r_array_length(recs);
	bool ok = n == (long)want.size();
	auto at = [&](uint32_t c) { return offs ? (*offs)[c] : c; };
	for (long i = 0; ok && i < n; i++) {
		rparecord_t *r = rpa_record_get(recs, i);
		const peg::Rec &w = want[i];
		const peg::Rule &rule = g.r[w.rule];
		ok = r->rule && rule.name == r->rule && (r->type & (RPA_RECORD_START | RPA_RECORD_END)) == (w.start ? RPA_RECORD_START : RPA_RECORD_END) && r->input == s.data() + at(w.off) && r->inputoff == at(w.off) &&
		     r->inputsiz == at(w.off + w.size) - at(w.off) && r->ruleuid == (ruint32)rule.uid;
	}
	if (ok) return "";
	return "got " + showrecs(recs) + "want " + showrecs(want, g);
}
