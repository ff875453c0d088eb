#include "sched.h"
#include <csetjmp>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

static std::vector<std::string> split(const std::string &s)
{
	std::vector<std::string> r; size_t i = 0;
	while (i < s.size()) { size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size(); if (j > i) r.push_back(s.substr(i, j - i)); i = j + 1; }
	return r;
}
Line parse_line(const std::string &s)
{
	Line l; auto w = split(s);
	if (w.empty()) return l;
	l.verb = w[0];
	for (size_t i = 1; i < w.size(); i++) {
		size_t e = w[i].find('=');
		if (e == std::string::npos) l.w.push_back(w[i]); else l.kv.push_back({w[i].substr(0, e), w[i].substr(e + 1)});
	}
	return l;
}
uint64_t Line::num(const char *k, uint64_t d) const { for (auto &x : kv) if (x.first == k) return strtoull(x.second.c_str(), nullptr, 0); return d; }
std::string Line::str(const char *k, const char *d) const { for (auto &x : kv) if (x.first == k) return x.second; return d; }
bool Line::has(const char *k) const { for (auto &x : kv) if (x.first == k) return true; return false; }

extern "C" { int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_mutex_destroy(pthread_mutex_t *); }

std::function<void(const std::string &)> sched_stuck;
namespace {
enum St { READY, SLEEP, BLOCK, DONE };
struct Thr { int id, proc; std::function<void()> fn; pthread_t th; sem_t sem; St st = READY; uint64_t until = 0; void *on = nullptr; sigjmp_buf top; };
SchedCfg cfg;
std::vector<std::unique_ptr<Thr>> T;
std::map<uint64_t, int> pre;
std::map<int, std::set<uint64_t>> crash_at;
std::map<int, uint64_t> proc_pts;
std::set<int> dead;
struct Mx { int owner = -1; int proc = 0; };
std::map<void *, Mx> mx;
uint64_t steps; int cur = -1; sem_t main_sem; bool stopped;
void (*sw_out)(int); void (*sw_in)(int);
thread_local int self_id = -1;

bool runnable(Thr &t)
{
	if (t.st == DONE) return false;
	if (dead.count(t.proc)) return true;		// must run once more, to unwind
	if (t.st == READY) return true;
	if (t.st == SLEEP) return SIM.now_ns >= t.until;
	if (t.st == BLOCK) return mx[t.on].owner < 0;
	return false;
}
int choose(int prefer)
{
	auto p = pre.find(steps);
	if (p != pre.end() && p->second >= 0 && p->second < (int)T.size() && runnable(*T[p->second])) return p->second;
	if (prefer >= 0 && runnable(*T[prefer])) return prefer;
	for (size_t k = 1; k <= T.size(); k++) { size_t i = (cur + k) % T.size(); if (runnable(*T[i])) return i; }
	return -1;
}
void give(int to)
{
	int me = self_id;
	if (to == me) return;
	SIM.count("context_switches");
	if (sw_out && me >= 0) sw_out(me);
	cur = to;
	if (sw_in) sw_in(to);
	sem_post(&T[to]->sem);
	if (me >= 0) while (sem_wait(&T[me]->sem)) ;
}
// pick who runs next; the caller is not necessarily runnable
void reschedule(int prefer)
{
	for (;;) {
		int n = choose(prefer);
		if (n >= 0) {
			if (n != self_id) SIM.log("  -> T%d", n);
			T[n]->st = T[n]->st == DONE ? DONE : READY;
			give(n);
			return;
		}
		uint64_t at = UINT64_MAX;
		for (auto &t : T) if (t->st == SLEEP) at = std::min(at, t->until);
		if (at == UINT64_MAX) {
			if (self_id >= 0 && T[self_id]->st == DONE) {
				bool all = true; for (auto &t : T) all = all && t->st == DONE;
				if (all) { sem_post(&main_sem); return; }
			}
			sim_die("deadlock", "every thread waits for a lock");
		}
		if (at > SIM.now_ns) SIM.now_ns = at;
	}
}
void check_dead()
{
	Thr &t = *T[self_id];
	if (dead.count(t.proc)) siglongjmp(t.top, 1);
}
void *entry(void *v)
{
	Thr &t = *(Thr *)v;
	self_id = t.id;
	while (sem_wait(&t.sem)) ;
	if (sigsetjmp(t.top, 0) == 0) {
		if (!dead.count(t.proc)) t.fn();
	}
	t.st = DONE;
	// a dead process leaves no thread waiting on its locks, and its locks are gone
	if (dead.count(t.proc)) for (auto i = mx.begin(); i != mx.end();) if (i->second.proc == t.proc && i->second.owner == t.id) i = mx.erase(i); else ++i;
	bool all = true; for (auto &x : T) all = all && x->st == DONE;
	if (all) { if (sw_out) sw_out(self_id); sem_post(&main_sem); } else {
		// hand over without waiting
		for (;;) {
			int n = choose(-1);
			if (n >= 0) { SIM.log("  -> T%d", n); T[n]->st = READY; if (sw_out) sw_out(self_id); cur = n; if (sw_in) sw_in(n); sem_post(&T[n]->sem); break; }
			uint64_t at = UINT64_MAX;
			for (auto &x : T) if (x->st == SLEEP) at = std::min(at, x->until);
			if (at == UINT64_MAX) sim_die("deadlock", "every thread waits for a lock");
			if (at > SIM.now_ns) SIM.now_ns = at;
		}
	}
	return nullptr;
}
}
void sched_reset(const SchedCfg &c) { cfg = c; T.clear(); pre.clear(); crash_at.clear(); proc_pts.clear(); dead.clear(); mx.clear(); steps = 0; cur = -1; stopped = false; sw_out = sw_in = nullptr; }
void sched_pre(uint64_t s, int t) { pre[s] = t; }
void sched_crash(int p, uint64_t n) { crash_at[p].insert(n); }
int sched_spawn(int proc, const std::function<void()> &fn)
{
	T.emplace_back(new Thr); Thr &t = *T.back();
	t.id = T.size() - 1; t.proc = proc; t.fn = fn; sem_init(&t.sem, 0, 0);
	return t.id;
}
void sched_run()
{
	if (T.empty()) return;
	sem_init(&main_sem, 0, 0);
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 * 1024);
	for (auto &t : T) if (pthread_create(&t->th, &a, entry, t.get())) { fprintf(stderr, "pthread_create failed\n"); _exit(2); }
	pthread_attr_destroy(&a);
	int first = choose(-1);
	cur = first;
	if (sw_in) sw_in(first);
	sem_post(&T[first]->sem);
	while (sem_wait(&main_sem)) ;
	for (auto &t : T) { pthread_join(t->th, nullptr); sem_destroy(&t->sem); }
	sem_destroy(&main_sem);
	T.clear();
}
bool sched_active() { return self_id >= 0; }
int sched_self() { return self_id; }
int sched_proc() { return self_id >= 0 ? T[self_id]->proc : -1; }
uint64_t sched_steps() { return steps; }
bool sched_proc_dead(int p) { return dead.count(p); }
void sched_on_switch(void (*o)(int), void (*i)(int)) { sw_out = o; sw_in = i; }
static void tick(const char *what)
{
	steps++;
	SIM.now_ns += cfg.step_ns;
	SIM.log("%llu T%d %s", (unsigned long long)steps, self_id, what);
	if (steps > cfg.max_steps) { if (sched_stuck) sched_stuck(what); sim_die("no-progress", std::string("step limit reached in ") + what); }
	Thr &t = *T[self_id];
	uint64_t n = ++proc_pts[t.proc];
	auto c = crash_at.find(t.proc);
	if (c != crash_at.end() && c->second.count(n) && !dead.count(t.proc)) {
		SIM.log("crash of process %d", t.proc); SIM.count("process_crashes");
		dead.insert(t.proc);
	}
	check_dead();
}
void sched_point(const char *what)
{
	Pause pz;
	if (self_id < 0) return;
	tick(what);
	reschedule(self_id);
	check_dead();
}
void sched_yield_to_others(const char *what)
{
	Pause pz;
	if (self_id < 0) return;
	tick(what);
	int best = -1;
	for (size_t k = 1; k < T.size(); k++) { size_t i = (self_id + k) % T.size(); if (runnable(*T[i])) { best = i; break; } }
	reschedule(best >= 0 ? best : self_id);
	check_dead();
}
void sched_sleep_until(uint64_t ns)
{
	Pause pz;
	if (self_id < 0) { if (ns > SIM.now_ns) SIM.now_ns = ns; return; }
	Thr &t = *T[self_id];
	t.st = SLEEP; t.until = ns;
	reschedule(-1);
	check_dead();
}
// --- mutexes
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	Pause pz;
	if (self_id < 0) { return 0; }
	sched_point("lock");
	for (;;) {
		Mx &x = mx[m];
		if (x.owner < 0 || (dead.count(x.proc) && x.proc != T[self_id]->proc)) { x.owner = self_id; x.proc = T[self_id]->proc; return 0; }
		if (x.owner == self_id) sim_die("self-deadlock", "a thread locks a mutex it holds");
		SIM.count("lock_waits");
		Thr &t = *T[self_id]; t.st = BLOCK; t.on = m;
		reschedule(-1);
		check_dead();
	}
}
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	Pause pz;
	if (self_id < 0) return 0;
	sched_point("trylock");
	Mx &x = mx[m];
	if (x.owner >= 0) return 16;
	x.owner = self_id; x.proc = T[self_id]->proc;
	return 0;
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	Pause pz;
	if (self_id < 0) return 0;
	Mx &x = mx[m];
	if (x.owner != self_id) sim_die("unlock-not-owner", "a mutex is unlocked by a thread that does not hold it");
	x.owner = -1;
	sched_point("unlock");
	return 0;
}
extern "C" int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { Pause pz; memset(m, 0, sizeof *m); mx[m] = Mx(); return 0; }
extern "C" int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	Pause pz;
	auto i = mx.find(m);
	if (i != mx.end()) { if (i->second.owner >= 0) sim_die("destroy-locked", "a locked mutex is destroyed"); mx.erase(i); }
	return 0;
}
// --- faults
static std::map<std::string, std::map<uint64_t, std::string>> faults; static std::map<std::string, uint64_t> fcalls; static bool fstop; static uint64_t ftaken;
static uint64_t fhard, fshort;
uint64_t fault_short() { return fshort; }
uint64_t fault_taken() { return ftaken; }
uint64_t fault_hard() { return fhard; }
void fault_reset() { faults.clear(); fcalls.clear(); fstop = false; ftaken = fhard = fshort = 0; }
void fault_add(const std::string &op, uint64_t n, const std::string &w) { faults[op][n] = w; }
void fault_stop() { fstop = true; }
void fault_start() { fstop = false; fcalls.clear(); }
std::string fault_take(const char *op)
{
	uint64_t n = ++fcalls[op];
	if (fstop) return "";
	auto i = faults.find(op);
	if (i == faults.end()) return "";
	auto j = i->second.find(n);
	if (j == i->second.end()) return "";
	ftaken++; if (j->second == "short") fshort++;
	if (j->second != "short" && j->second.compare(0, 5, "EINTR")) fhard++;
	SIM.count(("fault_" + std::string(op) + "_" + j->second).c_str());
	SIM.log("fault %s %s", op, j->second.c_str());
	return j->second;
}
