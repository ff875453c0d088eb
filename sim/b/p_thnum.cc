// threadnum: threads register under every interleaving of their memory accesses.
#include "harness.h"
#include <algorithm>
extern "C" {
#include "libmy/threadnum.h"
}
namespace {
int base;			// numbers given out so far in this process
Plan gen(Rng &r)
{
	Plan p; unsigned n = r.chance(1, 60) ? r.range(20, 300) : r.range(2, 6);
	for (unsigned i = 0; i < n; i++) p.push_back(fmt("thr - reads=%u wait=%u", (unsigned)r.below(4), (unsigned)r.below(4)));
	gen_sched(r, p, n, 12 * n);
	return p;
}
void run(const std::vector<Line> &p)
{
	std::vector<int> got; unsigned n = 0;
	for (auto &l : p) if (l.verb == "thr") {
		unsigned reads = l.num("reads"), wait = l.num("wait");
		unsigned k = n++; got.push_back(-1);
		sched_spawn(0, [&, k, reads, wait] {
			for (unsigned i = 0; i < wait; i++) sched_point("idle");
			my_threadnum_register();
			int v = my_threadnum(); got[k] = v;
			SIM.log("thread %u has number %d", k, v - base);
			for (unsigned i = 0; i < reads; i++) { sched_point("idle"); if (my_threadnum() != v) fail("threadnum-changed", fmt("the number of a thread went from %d to %d", v - base, my_threadnum() - base)); }
		});
	}
	if (!n) return;
	sched_run();
	std::vector<int> s = got; std::sort(s.begin(), s.end());
	for (unsigned i = 0; i < n; i++) {
		if (i && s[i] == s[i - 1]) fail("threadnum-twice", fmt("two threads have number %d", s[i] - base));
		if (s[i] != base + (int)i) fail("threadnum-gap", fmt("numbers are not the next %u: %d at place %u", n, s[i] - base, i));
	}
	base += n; OUT.nontrivial = true; SIM.count("threads_registered", n);
}
}
const Profile P_THNUM = {"thnum", gen, run};
