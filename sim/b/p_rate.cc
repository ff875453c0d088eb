// my_rate under oversleeping, interruptions and slow callers, for the monotonic
// and for the portable build.
#include "harness.h"
#include <algorithm>
#include <cmath>
extern "C" {
struct my_rate;
struct my_rate *my_rate_init(unsigned, unsigned); void my_rate_destroy(struct my_rate **); void my_rate_sleep(struct my_rate *);
struct my_rate *portable_rate_init(unsigned, unsigned); void portable_rate_destroy(struct my_rate **); void portable_rate_sleep(struct my_rate *);
}
namespace {
Plan gen(Rng &r)
{
	Plan p;
	static const unsigned rates[] = {1, 1, 2, 3, 5, 7, 10, 30, 50, 99, 100, 101, 333, 1000, 1024, 3000};
	unsigned rate = r.chance(1, 3) ? r.range(1, 2000) : rates[r.below(16)], freq = r.chance(1, 2) ? 0 : r.range(10, 50);
	// adjusting in windows of fewer than ten events overshoots by more than can be bounded here
	uint64_t per = 1000000000ULL / rate;
	p.push_back(fmt("cfg - rate=%u freq=%u portable=%d over=%llu step=%u start=%llu", rate, freq, (int)r.chance(1, 3), (unsigned long long)(r.chance(1, 2) ? 0 : r.below(per / 5 + 1)), (unsigned)r.range(20, 300), (unsigned long long)r.below(2000000000)));
	if (freq && r.chance(1, 3)) {		// a caller that loses ticks now and then, which only adjusting makes good
		freq = r.range(10, 20); p.clear();
		p.push_back(fmt("cfg - rate=%u freq=%u portable=%d over=0 step=50 start=%llu", rate, freq, (int)r.chance(1, 3), (unsigned long long)r.below(2000000000)));
		p.push_back(fmt("ev - n=5000 work=0 stall=%llu every=%u", (unsigned long long)(per * r.range(21, 27) / 10), (unsigned)r.range(5, 7)));
		return p;
	}
	unsigned ph = r.range(1, 3);
	for (unsigned i = 0; i < ph; i++) {
		unsigned k = r.below(4);
		// a caller that is at times slower than the rate only when nothing is averaged
		uint64_t work = k < 2 ? 0 : k == 2 ? r.below(per / 5 + 1) : freq ? r.below(per / 2 + 1) : r.below(3 * per);
		p.push_back(fmt("ev - n=%u work=%llu vary=%d", (unsigned)(freq ? r.range(500, 900) : r.range(5, 60)), (unsigned long long)work, (int)r.chance(1, 2)));
	}
	unsigned f = r.chance(1, 2) ? r.range(1, 6) : 0;
	while (f--) { static const char *w[] = {"EINTR", "EINTR0", "EINTR9"}; p.push_back(fmt("fault sleep %u %s", (unsigned)r.range(1, 60), w[r.below(3)])); }
	return p;
}
void run(const std::vector<Line> &p)
{
	unsigned rate = 10, freq = 0; bool port = false; uint64_t start = 0;
	for (auto &l : p) if (l.verb == "cfg") { rate = l.num("rate", 10); freq = l.num("freq"); port = l.num("portable"); oversleep_ns = l.num("over"); start = l.num("start"); }
	if (port) oversleep_ns += 2000;		// a real sleep ends later than the microsecond clock can tell
	if (!rate) rate = 1;
	SIM.now_ns += start; SIM.start_ns = SIM.now_ns;
	uint64_t per = 1000000000ULL / rate, maxwork = 0;
	std::vector<uint64_t> t; uint64_t t_first = 0; bool stalling = false;
	sched_spawn(0, [&] {
		my_rate *r; { Track k; r = port ? portable_rate_init(rate, freq) : my_rate_init(rate, freq); }
		if (!r) fail("init-null", "my_rate_init failed");
		uint64_t x = 1; uint64_t work = 0, bad = 0;
		for (auto &l : p) if (l.verb == "ev") {
			uint64_t w = l.num("work"), stall = l.num("stall"), every = l.num("every", 1); bool vary = l.num("vary"); stalling = stalling || stall;
			for (uint64_t i = l.num("n"); i; i--) {
				uint64_t t0 = SIM.now_ns, f0 = fault_taken();
				if (t.empty()) t_first = t0;
				{ Track k; if (port) portable_rate_sleep(r); else my_rate_sleep(r); }
				uint64_t now = SIM.now_ns, intr = fault_taken() - f0;
				t.push_back(now);
				SIM.log("event %zu %llu", t.size(), (unsigned long long)now);
				size_t n = t.size();
				if (!freq) {
					// at most one event per tick: ticks are the multiples of the period in each second
					for (size_t back : {1, 2, 3, 5, 8, 20}) if (n > back) {
						uint64_t win = now - t[n - 1 - back];
						if (back + 1 > win / per + win / 1000000000 + 3) fail("too-fast", fmt("%zu events in %llu ns at rate %u", back + 1, (unsigned long long)win, rate));
					}
					if (n >= 2 && per > 20000) {		// an event never comes in the tick of the event before it
						uint64_t off = port ? SIM.rt_off_ns : 0, prev = t[n - 2] + off;
						uint64_t tick = (prev % 1000000000) / per * per + per + prev / 1000000000 * 1000000000, grain = port ? 2000 : 400;
						bool after = (prev % 1000000000) % per >= 2000;		// the limiter's own look at the clock came in the same tick
						if (after && tick > prev + grain + 400 && now + off + grain < tick) fail("early-event", fmt("an event %llu ns before its tick at rate %u", (unsigned long long)(tick - now - off), rate));
					}
					if (n >= 2 && per > 20000) {		// nor later than the first tick after it, if the caller is there
						uint64_t off = port ? SIM.rt_off_ns : 0, prev = t[n - 2] + off;
						uint64_t tick = (prev % 1000000000) / per * per + per + prev / 1000000000 * 1000000000;
						uint64_t due = std::max(t0 + off, tick) + (intr + 1) * (oversleep_ns + 8 * 300 + 2000);
						if (now + off > due) fail("late-event", fmt("an event %llu ns after its tick at rate %u", (unsigned long long)(now + off - tick), rate));
					}
					uint64_t lim = per + (intr + 1) * (oversleep_ns + 8 * 300 + 2000);
					if (now - t0 > lim) fail("starved", fmt("a call waited %llu ns at rate %u", (unsigned long long)(now - t0), rate));
				} else if (now - t0 > 4 * per + 1000000 + (intr + 1) * (oversleep_ns + 5000)) fail("starved", fmt("a call waited %llu ns at rate %u with adjustment", (unsigned long long)(now - t0), rate));
				uint64_t d = vary ? w * (x % 8) / 7 : w; x = x * 6364136223846793005ULL + 1442695040888963407ULL; x ^= x >> 29;
				if (stall && x % every == 0) d += stall;
				if (d) sched_sleep_until(SIM.now_ns + d);
				work += d; maxwork = std::max(maxwork, d); (void)bad;
			}
		}
		{ Track k; if (port) portable_rate_destroy(&r); else my_rate_destroy(&r); }
		if (r) fail("destroy-null", "my_rate_destroy leaves the pointer set");
	});
	sched_run();
	if (heap_live()) fail("leak", "my_rate leaks");
	SIM.count("rate_events", t.size()); OUT.nontrivial = t.size() > 3;
	if (freq && t.size() >= 500 && (stalling || maxwork + oversleep_ns < per / 2) && per > 100000) {
		double avg = (t.size() - 1) / ((t.back() - t_first) / 1e9), tol = stalling ? 0.08 : 0.12;
		SIM.count("rate_averages_checked");
		if (std::fabs(avg - rate) > tol * rate + 0.02) fail("average-off", fmt("average %.3f per second over %zu events for rate %u, adjusted every %u", avg, t.size(), rate, freq));
	}
}
}
const Profile P_RATE = {"rate", gen, run};
