#include "vc.h"
#include "../common/memops_proof.inc"
//@ inv MemOps::.*copy_forward_inline_t< 0 inv_copy
//@ inv MemOps::.*fill_inline_t< 0 inv_fill
H void h_copy_u8() { memops_copy<uint8_t>(); }
H void h_fill0_u8() { memops_fill0<uint8_t>(); }
