/* the atomic counters and pointers of libmy, as functions whose memory accesses are scheduling points */
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "libmy/atomic.h"
#include "libmy/atomic_64.h"
#include "libmy/atomic_ptr.h"
#include "atoms.h"
static atomic_t a32 = ATOMIC_INIT(0); static atomic64_t a64 = ATOMIC64_INIT(0); static atomic_ptr_t ap;
static char target[64];
#define OPS(P, V) switch (op) { \
	case AT_ADD: P##_add(x, V); return 0; \
	case AT_SUB: P##_sub(x, V); return 0; \
	case AT_ZERO: return P##_zero(V); \
	case AT_SUB_TEST: return P##_sub_and_test(x, V); \
	case AT_INC: P##_inc(V); return 0; \
	case AT_DEC: P##_dec(V); return 0; \
	case AT_DEC_TEST: return P##_dec_and_test(V); \
	case AT_INC_TEST: return P##_inc_and_test(V); \
	case AT_ADD_NEG: return P##_add_negative(x, V); \
	case AT_SET: P##_set(V, x); return 0; \
	default: return P##_read(V); }
int64_t atom_op(int kind, int op, int64_t x)
{
	if (kind == 32) OPS(atomic, &a32)
	if (kind == 64) OPS(atomic64, &a64)
	if (op == AT_SET) return atomic_ptr_set(&ap, x ? target + x : NULL);
	char *p = atomic_ptr_get(&ap);
	return p ? p - target : 0;
}
void atom_start(int kind, int64_t x)
{
	if (kind == 32) { atomic_t v = ATOMIC_INIT(x); a32 = v; }
	else if (kind == 64) { atomic64_t v = ATOMIC64_INIT(x); a64 = v; }
	else ap.ptr = x ? target + x : NULL;
}
