#pragma once
#include <functional>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include "model.h"
#include "dns.h"

struct dnstable_query; struct dnstable_iter; struct dnstable_reader; struct dnstable_entry;
typedef std::vector<std::string> Plan;		// one operation per line

struct Checks {		// which oracles are on
	bool answers = false, order = false, timeouts = false, offset = false, leaks = false, stats = false, filter = false,
	     persist = false, reload = false, format = false, setters = false;
};
Checks checks_for(const std::string &profile);
Plan make_plan(const std::string &profile, uint64_t seed);
struct RunResult { uint64_t hash = 0; uint64_t nontrivial = 0; uint64_t sim_ns = 0; };
RunResult run_plan(const std::string &profile, const Plan &);
// live heap blocks of the code under test (see wraps.cc)
uint64_t heap_live();
void heap_reset();
std::vector<std::string> split(const std::string &s);
// operations another world adds
struct ExtraEnv {
	const std::map<std::string, FileModel> *pub; const std::map<std::string, QParams> *qs;
	uint64_t *nontrivial;
	std::function<void(const std::vector<std::string> &, void *)> merge;	// run a merger with this merge function
};
extern bool (*extra_op)(const std::vector<std::string> &, const ExtraEnv &);
