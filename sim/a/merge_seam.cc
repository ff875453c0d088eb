// Seam: counts the calls of dnstable's own merge function (ld --wrap).
#include <cstddef>
#include <cstdint>

uint64_t merge_func_calls;
extern "C" {
void __real_dnstable_merge_func(void *, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, uint8_t **, size_t *);
void __wrap_dnstable_merge_func(void *c, const uint8_t *k, size_t lk, const uint8_t *a, size_t la, const uint8_t *b, size_t lb, uint8_t **m, size_t *lm)
{
	merge_func_calls++;
	__real_dnstable_merge_func(c, k, lk, a, la, b, lb, m, lm);
}
}
