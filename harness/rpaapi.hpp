// The grammar engine under test, wrapped for the harnesses.
#pragma once
#include <string>
#include <vector>
#include "pegmodel.hpp"
extern "C" {
#include "rpa/rpadbex.h"
#include "rpa/rpastat.h"
#include "rpa/rparecord.h"
#include "rpa/rpaerror.h"
#include "rlib/rarray.h"
void rpa_stat_cachedisable(rpastat_t *stat, unsigned int disable);
}

struct Db {
	rpadbex_t *d = nullptr;
	std::string err;
	bool load(const std::string &text, int opt = 1, int bitmap = 1, bool quiet = false)
	{
		d = rpa_dbex_create();
		rpa_dbex_cfgset(d, RPA_DBEXCFG_OPTIMIZATIONS, opt);
		rpa_dbex_cfgset(d, RPA_DBEXCFG_BITMAP, bitmap);
		rpa_dbex_open(d);
		if (rpa_dbex_load(d, text.data(), text.size()) < 0) { err = "load refused, error " + std::to_string(rpa_dbex_lasterror(d)); return false; }
		rpa_dbex_close(d);
		if (rpa_dbex_compile(d) < 0) { err = "compile refused, error " + std::to_string(rpa_dbex_lasterror(d)); return false; }
		return true;
	}
	rparule_t rule(const char *name) { return rpa_dbex_lookup_s(d, name); }
	~Db() { if (d) rpa_dbex_destroy(d); }
};
struct Matcher {
	rpastat_t *s;
	explicit Matcher(rpadbex_t *d, unsigned long stack = 0) { s = rpa_stat_create(d, stack); }
	~Matcher() { rpa_stat_destroy(s); }
	long match(rparule_t r, const std::string &in, unsigned enc = RPA_ENCODING_UTF8) { return rpa_stat_match(s, r, enc, in.data(), in.data(), in.data() + in.size()); }
};
