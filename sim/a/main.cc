#include "../main_common.h"
#include "world.h"
Plan world_plan(const std::string &profile, uint64_t seed) { return make_plan(profile, seed); }
RunOut world_run(const std::string &profile, const Plan &plan)
{
	RunResult r = run_plan(profile, plan);
	return {r.hash, r.nontrivial, r.sim_ns, 0};
}
