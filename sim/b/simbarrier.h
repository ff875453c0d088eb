/* forced in front of the queue sources: barriers and copies become calls into the simulator */
#include <string.h>
#include "libmy/my_memory_barrier.h"
void sim_mb(void); void sim_rmb(void); void sim_wmb(void);
void *sim_memcpy(void *, const void *, size_t); void *sim_memmove(void *, const void *, size_t);
#undef smp_mb
#undef smp_rmb
#undef smp_wmb
#define smp_mb() sim_mb()
#define smp_rmb() sim_rmb()
#define smp_wmb() sim_wmb()
#define memcpy sim_memcpy
#define memmove sim_memmove
