// Memory accesses of instrumented code (gcc -fsanitize=thread hooks) as
// scheduling points, with store buffers on chosen blocks.
#pragma once
#include "sched.h"
enum MmMode { MM_SC, MM_TSO, MM_PSO, MM_WEAK };
void mm_reset(MmMode mode, uint64_t seed, unsigned drain_den);
void mm_share(const volatile void *p, size_t n);	// stores to this block are buffered
void mm_op_end();					// the operation returned: its loads are complete
void mm_flush();					// everything becomes visible
uint64_t mm_buffered();					// stores that some thread did not see at once
extern "C" void sim_mb(); extern "C" void sim_rmb(); extern "C" void sim_wmb();
