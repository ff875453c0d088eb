/* the inline helpers of libmy, as functions */
#include <stddef.h>
#include "libmy/read_bytes.h"
#include "libmy/my_time.h"
bool shim_read_bytes(int fd, uint8_t *buf, size_t n) { return read_bytes(fd, buf, n); }
void shim_nanosleep(const struct timespec *t) { my_nanosleep(t); }
void shim_gettime(clockid_t c, struct timespec *t) { my_gettime(c, t); }
