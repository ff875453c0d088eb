// Seams placed with ld --wrap: clock, sleep, heap, assertion failures.
#include "../simcore.h"
#include <cerrno>
#include <ctime>
#include <sys/time.h>
#include <unordered_set>
#include <unistd.h>

static std::unordered_set<void *> *live;
uint64_t heap_live() { return live ? live->size() : 0; }
void heap_reset() { if (!live) live = new std::unordered_set<void *>; live->clear(); }
[[noreturn]] void sim_die(const std::string &cls, const std::string &msg);

static void track(void *p) { if (p && live) live->insert(p); }
static void untrack(void *p) { if (p && live) live->erase(p); }

extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);

void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); track(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); track(p); return p; }
void *__wrap_realloc(void *o, size_t n) { untrack(o); void *p = __real_realloc(o, n); track(p ? p : (n ? o : nullptr)); return p; }
void __wrap_free(void *p) { untrack(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); track(p); return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); track(p); return p; }

int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
	uint64_t t = SIM.now_ns;
	SIM.now_ns += SIM.clock_cost_ns;
	if (id == CLOCK_MONOTONIC_COARSE) t -= t % SIM.coarse_ns;
	else if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += SIM.rt_off_ns;
	else if (id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_RAW && id != CLOCK_BOOTTIME) { errno = EINVAL; return -1; }
	ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
	return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *)
{
	uint64_t t = SIM.now_ns + SIM.rt_off_ns;
	SIM.now_ns += SIM.clock_cost_ns;
	tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000;
	return 0;
}
time_t __wrap_time(time_t *p)
{
	time_t t = (SIM.now_ns + SIM.rt_off_ns) / 1000000000;
	SIM.now_ns += SIM.clock_cost_ns;
	if (p) *p = t;
	return t;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *)
{
	SIM.now_ns += a->tv_sec * 1000000000ULL + a->tv_nsec;
	return 0;
}
[[noreturn]] void __wrap___assert_fail(const char *e, const char *f, unsigned line, const char *fn)
{
	const char *b = strrchr(f, '/');
	sim_die(std::string("assert:") + fn + ":" + e, std::string("assertion failed in ") + fn + " (" + (b ? b + 1 : f) + ":" + std::to_string(line) + "): " + e);
}
}
uint64_t real_ns()
{
	struct timespec ts; __real_clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec * 1000000000ULL + ts.tv_nsec;
}
