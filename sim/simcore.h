// Core of the deterministic simulator: PRNG, simulated clock, event log,
// counters, violation slot.  No real clock and no other source of randomness.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <string>
#include <vector>

struct Rng {			// splitmix64
	uint64_t s;
	// the step below is an addition: seeds are mixed first, or the streams of
	// neighbouring seeds would be one stream at different offsets
	explicit Rng(uint64_t seed = 0) : s(seed ^ 0xd6e8feb86659fd93ULL) { for (int i = 0; i < 3; i++) { s ^= s >> 32; s *= 0xd6e8feb86659fd93ULL; } s ^= s >> 32; }
	uint64_t u64() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
	uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template <class V> const typename V::value_type &pick(const V &v) { return v[below(v.size())]; }
};

// shared page between the worker and the child that runs the seeds
struct SimShared {
	uint64_t cur_seed;
	uint64_t ops_done;
	int violated;
	char cls[160];
	char msg[4000];
	uint64_t hash;
};

struct SimCore {
	uint64_t now_ns = 0;		// CLOCK_MONOTONIC
	uint64_t rt_off_ns = 0;		// CLOCK_REALTIME - CLOCK_MONOTONIC
	uint64_t coarse_ns = 4000000;	// granule of CLOCK_MONOTONIC_COARSE
	uint64_t clock_cost_ns = 20;	// one clock read
	uint64_t start_ns = 0;
	uint64_t hash = 1469598103934665603ULL;
	bool verbose = false;
	bool violated = false;
	std::string vcls, vmsg;
	SimShared *shared = nullptr;
	std::map<std::string, uint64_t> *counters = nullptr;

	void begin(uint64_t start) {
		now_ns = start_ns = start; rt_off_ns = 1600000000ULL * 1000000000ULL;
		hash = 1469598103934665603ULL; violated = false; vcls.clear(); vmsg.clear();
	}
	void count(const char *k, uint64_t n = 1) { if (counters && n) (*counters)[k] += n; }
	void log(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
		char buf[2048];
		va_list ap; va_start(ap, fmt);
		int n = vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
		for (int i = 0; i < n; i++) { hash ^= (uint8_t)buf[i]; hash *= 1099511628211ULL; }
		hash ^= '\n'; hash *= 1099511628211ULL;
		if (verbose) fprintf(stderr, "%s\n", buf);
	}
	void logs(const std::string &s) {
		for (unsigned char c : s) { hash ^= c; hash *= 1099511628211ULL; }
		hash ^= '\n'; hash *= 1099511628211ULL;
		if (verbose) fprintf(stderr, "%s\n", s.c_str());
	}
	void violation(const std::string &cls, const std::string &msg) {
		if (violated) return;
		violated = true; vcls = cls; vmsg = msg;
		if (verbose) fprintf(stderr, "!! violation %s: %s\n", cls.c_str(), msg.c_str());
		if (shared) {
			shared->violated = 1;
			snprintf(shared->cls, sizeof shared->cls, "%s", cls.c_str());
			snprintf(shared->msg, sizeof shared->msg, "%s", msg.c_str());
			shared->hash = hash;
		}
	}
};
extern SimCore SIM;
