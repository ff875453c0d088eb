#pragma once
#include "sched.h"
struct Profile {
	const char *name;
	Plan (*gen)(Rng &);
	void (*run)(const std::vector<Line> &);		// sets up threads, runs, checks
};
extern const Profile P_FILESET, P_SPOOL, P_QUEUE, P_RATE, P_IO, P_ZONE, P_THNUM, P_CRC, P_CODEC, P_ATOMS;
struct Out { bool nontrivial = false; };
extern Out OUT;
void fail(const std::string &cls, const std::string &msg);	// records the violation and ends the run
void gen_sched(Rng &r, Plan &p, unsigned threads, unsigned horizon);	// preemptions
void plan_sched(const std::vector<Line> &);			// reads pre, crash and fault lines
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
