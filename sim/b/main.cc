#define SIM_CPU_S 4
#include "../main_common.h"
#include "harness.h"
Out OUT;
static const Profile *ALL[] = {&P_FILESET, &P_SPOOL, &P_QUEUE, &P_RATE, &P_IO, &P_ZONE, &P_THNUM, &P_CRC, &P_CODEC, &P_ATOMS};
static const Profile &prof(const std::string &n)
{
	for (auto p : ALL) if (n == p->name) return *p;
	fprintf(stderr, "unknown profile %s\n", n.c_str());
	exit(2);
}
std::string fmt(const char *f, ...)
{
	char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	return b;
}
void fail(const std::string &c, const std::string &m) { sim_die(c, m); }
void gen_sched(Rng &r, Plan &p, unsigned threads, unsigned horizon)
{
	unsigned style = r.below(4);
	std::vector<std::pair<uint64_t, int>> v;
	if (style == 0) { unsigned k = r.range(1, 4); while (k--) v.push_back({r.range(1, horizon), (int)r.below(threads)}); }
	else { static const unsigned den[] = {2, 3, 6, 15}; unsigned d = den[r.below(4)]; for (uint64_t s = 1; s < horizon; s++) if (r.chance(1, d)) v.push_back({s, (int)r.below(threads)}); }
	for (size_t i = 0; i < v.size(); i += 10) {
		std::string l = "pre -";
		for (size_t j = i; j < std::min(v.size(), i + 10); j++) l += fmt(" %llu=%d", (unsigned long long)v[j].first, v[j].second);
		p.push_back(l);
	}
}
void plan_sched(const std::vector<Line> &p)
{
	SchedCfg c;
	for (auto &l : p) if (l.verb == "cfg") { c.step_ns = l.num("step", 1000); c.max_steps = l.num("maxsteps", 200000); }
	sched_reset(c); fault_reset();
	for (auto &l : p) {
		if (l.verb == "pre") for (auto &k : l.kv) sched_pre(strtoull(k.first.c_str(), nullptr, 10), atoi(k.second.c_str()));
		else if (l.verb == "crash" && l.w.size() >= 2) sched_crash(atoi(l.w[0].c_str()), strtoull(l.w[1].c_str(), nullptr, 10));
		else if (l.verb == "fault" && l.w.size() >= 3) fault_add(l.w[0], strtoull(l.w[1].c_str(), nullptr, 10), l.w[2]);
	}
}
Plan world_plan(const std::string &profile, uint64_t seed)
{
	Rng r(seed);
	return prof(profile).gen(r);
}
RunOut world_run(const std::string &profile, const Plan &plan)
{
	std::vector<Line> ls;
	for (auto &l : plan) ls.push_back(parse_line(l));
	SIM.begin(3600ULL * 1000000000ULL);
	VFS.reset(); heap_reset(); oversleep_ns = 0; OUT = Out();
	plan_sched(ls);
	prof(profile).run(ls);
	RunOut o;
	o.hash = SIM.hash; o.nontrivial = OUT.nontrivial; o.sim_ns = SIM.now_ns - SIM.start_ns; o.states = sched_steps();
	return o;
}
