//@ opt merge=0
//@ contract MemOps::.*copy_forward_inline_t<unsigned.int> ct_copy32
//@ contract MemOps::.*fill_inline_t<unsigned.int> ct_fill32
#include "ba.inc"
MODES(resize, { uint32_t n = uint32_t(vc_in("n", 0, BMAX)); BLResult r = bl_bit_array_resize(&g.core, n);
  if (r) OOM(r); else POST(n, k < g.size ? spec_old_bit(g, k) : 0); })
