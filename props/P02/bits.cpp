//@ opt merge=0
//@ contract MemOps::.*copy_forward_inline_t<unsigned.int> ct_copy32
//@ contract MemOps::.*fill_inline_t<unsigned.int> ct_fill32
#include "ba.inc"
// ---- single bits -------------------------------------------------------------------------------------------
MODES(set_bit, { uint32_t i = uint32_t(vc_in("i", 0, BMAX)); BLResult r = bl_bit_array_set_bit(&g.core, i);
  if (i >= g.size) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) OOM(r); else POST(g.size, k == i ? 1 : spec_old_bit(g, k)); })
MODES(clear_bit, { uint32_t i = uint32_t(vc_in("i", 0, BMAX)); BLResult r = bl_bit_array_clear_bit(&g.core, i);
  if (i >= g.size) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) OOM(r); else POST(g.size, k == i ? 0 : spec_old_bit(g, k)); })
MODES(append_bit, { bool v = vc_nd_bool("v"); BLResult r = bl_bit_array_append_bit(&g.core, v);
  if (g.size == 0xFFFFFFFFu) FAILED(r, BL_ERROR_OUT_OF_MEMORY); else if (r) OOM(r); else POST(g.size + 1, k == g.size ? v : spec_old_bit(g, k)); })
