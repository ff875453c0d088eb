#pragma once
#include <stdint.h>
enum { AT_ADD, AT_SUB, AT_ZERO, AT_SUB_TEST, AT_INC, AT_DEC, AT_DEC_TEST, AT_INC_TEST, AT_ADD_NEG, AT_SET, AT_READ, AT_OPS };
#ifdef __cplusplus
extern "C" {
#endif
int64_t atom_op(int kind, int op, int64_t x);
void atom_start(int kind, int64_t x);
#ifdef __cplusplus
}
#endif
