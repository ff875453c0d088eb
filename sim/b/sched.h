// World B: cooperative scheduler, simulated processes, clock and file system
// around the libmy components.  Threads are real, but exactly one of them holds
// the baton; every switch is taken from the plan.
#pragma once
#include "simcore.h"
#include <functional>
#include <memory>
#include <set>

[[noreturn]] void sim_die(const std::string &cls, const std::string &msg);
[[noreturn]] void sim_hang(const char *what);

// --- plan words:  "verb - a=b c=d"
typedef std::vector<std::string> Plan;
struct Line {
	std::string verb; std::vector<std::string> w; std::vector<std::pair<std::string, std::string>> kv;
	uint64_t num(const char *k, uint64_t dflt = 0) const;
	std::string str(const char *k, const char *dflt = "") const;
	bool has(const char *k) const;
};
Line parse_line(const std::string &s);

// --- threads
struct SchedCfg { uint64_t step_ns = 1000, max_steps = 200000; };
void sched_reset(const SchedCfg &);
void sched_pre(uint64_t step, int thread);			// at this step run that thread, if it can
void sched_crash(int proc, uint64_t nth);			// the process stops at its nth scheduling point
int sched_spawn(int proc, const std::function<void()> &fn);	// returns thread id
void sched_run();						// until every thread is done
void sched_point(const char *what);				// a possible switch
void sched_yield_to_others(const char *what);			// a busy waiter gives way
int sched_self(); int sched_proc(); uint64_t sched_steps();
bool sched_active();						// inside a simulated thread
void sched_sleep_until(uint64_t ns);
bool sched_proc_dead(int proc);
void sched_on_switch(void (*out)(int), void (*in)(int));	// memory model hooks
extern std::function<void(const std::string &)> sched_stuck;	// called when step limit is reached

// --- faults: nth call of an operation fails
void fault_reset();
void fault_add(const std::string &op, uint64_t nth, const std::string &what);
std::string fault_take(const char *op);				// "" or what
uint64_t fault_taken();					// faults met so far
uint64_t fault_short();					// those that only deliver less at a time
uint64_t fault_hard();						// those that are no interruption and no short read
void fault_stop(); void fault_start();

// --- file system
struct Inode { uint64_t ino; bool dir; int64_t mtime; std::string data; bool special = false, dangling = false, gz = false; };	// special: a pipe, socket or device; gz: stored compressed
typedef std::shared_ptr<Inode> InodeP;
struct Vfs {
	std::map<std::string, InodeP> f;
	uint64_t next_ino = 100;
	std::string slow;
	void reset();
	InodeP get(const std::string &p);
	void mkdir(const std::string &p);
	InodeP put(const std::string &p, const std::string &data, int64_t mtime);	// new inode
	bool rename(const std::string &a, const std::string &b);
	bool unlink(const std::string &p);
	bool exists(const std::string &p) { return f.count(p); }
	std::vector<std::string> list(const std::string &dir);
	uint64_t salt = 0;		// order of directory listings
	uint64_t open_handles = 0;
	uint64_t chunk = 4096;		// largest read
	std::function<void(const char *op, const std::string &path, const std::string &path2)> watch;	// destructive calls
};
extern Vfs VFS;

// --- heap accounting of the code under test
extern thread_local int heap_tracking;
struct Pause { int s; Pause() : s(heap_tracking) { heap_tracking = 0; } ~Pause() { heap_tracking = s; } };	// the simulator's own allocations are not counted
struct Track { Track(); ~Track(); };	// blocks allocated while one exists are counted
uint64_t heap_live();
void heap_reset();
void heap_forget_proc(int proc);
std::string heap_report();
void heap_blocks(const std::function<void(const volatile void *, size_t)> &f);

// --- clock faults
extern uint64_t oversleep_ns;		// added to every sleep
