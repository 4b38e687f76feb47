//@ opt merge=0
//@ contract MemOps::.*copy_forward_inline_t<unsigned.int> ct_copy32
//@ contract MemOps::.*fill_inline_t<unsigned.int> ct_fill32
#include "ba.inc"
// ---- whole-array operations -----------------------------------------------------------------------------------
MODES(reserve, { uint32_t n = uint32_t(vc_in("n", 0, BMAX)); BLResult r = bl_bit_array_reserve(&g.core, n);
  if (r) OOM(r); else { POST(g.size, spec_old_bit(g, k)); VC_ASSERT(bl_bit_array_get_capacity(&g.core) >= n); } })
MODES(shrink, { BLResult r = bl_bit_array_shrink(&g.core); if (r) OOM(r); else POST(g.size, spec_old_bit(g, k)); })
MODES(clear, { BLResult r = bl_bit_array_clear(&g.core); VC_ASSERT(r == BL_SUCCESS); POST(0, 0); })
MODES(reset, { BLResult r = bl_bit_array_reset(&g.core); VC_ASSERT(r == BL_SUCCESS); POST(0, 0); VC_ASSERT(g.core._d.sso()); })
MODES(replace_op, { uint32_t n = uint32_t(vc_in("n", 0, BMAX)); uint32_t* out = nullptr; BLResult r = bl_bit_array_replace_op(&g.core, n, &out);
  if (r) OOM(r); else { VC_ASSERT(out == words_of(&g.core)); POST(n, 0); } })
MODES(assign_words, { uint32_t m = uint32_t(vc_in("m", 0, WMAX)); uint32_t* src = (uint32_t*)vc_alloc_ro(size_t(m) * 4, "src"); BLResult r = bl_bit_array_assign_words(&g.core, src, m);
  if (m >= 0x08000000u) FAILED(r, BL_ERROR_OUT_OF_MEMORY); else if (r) OOM(r); else POST(size_t(m) * 32, spec_bit(src, k)); })
// ---- copies -----------------------------------------------------------------------------------------------------
MODES(init_weak, { BLBitArrayCore c; BLResult r = bl_bit_array_init_weak(&c, &g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(same_bits(c._d, g.d0) && same_bits(g.core._d, g.d0)); VC_ASSERT(vc_live() == g.live0);
  if (!g.sso) VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count + 1); })
MODES(init_move, { BLBitArrayCore c; BLResult r = bl_bit_array_init_move(&c, &g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(same_bits(c._d, g.d0)); VC_ASSERT(rep_ok(&g.core) && g.core._d.sso() && size_of(&g.core) == 0); VC_ASSERT(vc_live() == g.live0);
  if (!g.sso) VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count); })
MODES(destroy, { BLResult r = bl_bit_array_destroy(&g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(vc_live() == g.live0 - (g.sso || g.shared ? 0 : 1)); if (g.shared) VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count - 1); })
// assignment between two arrays (including self assignment)
template<int MB> static void assign_two(Ghost& g, bool move) {
  Ghost b; mk(b, "b", MB); size_t live = vc_live(); bool self = vc_nd_bool("self");
  BLBitArrayCore* o = self ? &g.core : &b.core;
  BLResult r = move ? bl_bit_array_assign_move(&g.core, o) : bl_bit_array_assign_weak(&g.core, o);
  VC_ASSERT(r == BL_SUCCESS);
  if (self) { VC_ASSERT(vc_live() == live); if (!g.sso) { VC_ASSERT(vc_is_live(g.impl)); }
    if (!move) { VC_ASSERT(same_bits(g.core._d, g.d0)); if (!g.sso) VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count); } }
  else {
    VC_ASSERT(same_bits(g.core._d, b.d0)); if (!b.sso) VC_ASSERT(refs_of(b.impl) == ((const BLObjectImplHeader*)b.snap)->ref_count + (move ? 0 : 1));
    VC_ASSERT(move ? rep_ok(&b.core) && b.core._d.sso() && size_of(&b.core) == 0 : same_bits(b.core._d, b.d0));
    if (!g.sso) { VC_ASSERT(vc_is_live(g.impl) == g.shared); if (g.shared) VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count - 1); }
    VC_ASSERT(vc_live() == live - (g.sso || g.shared ? 0 : 1));
  }
}
MODES(assign_weak, { assign_two<1>(g, false); })
MODES(assign_move, { assign_two<1>(g, true); })
MODES(assign_weak_s, { assign_two<0>(g, false); })
MODES(assign_move_s, { assign_two<0>(g, true); })
// ---- observers ----------------------------------------------------------------------------------------------------
MODES(accessors, { VC_ASSERT(bl_bit_array_get_size(&g.core) == g.size && bl_bit_array_is_empty(&g.core) == (g.size == 0)); VC_ASSERT(bl_bit_array_get_word_count(&g.core) == (g.size + 31) / 32);
  VC_ASSERT(bl_bit_array_get_data(&g.core) == words_of(&g.core)); VC_ASSERT(bl_bit_array_get_capacity(&g.core) == (g.sso ? 96 : g.impl->capacity));
  uint32_t i = vc_nd_u32("i"); VC_ASSERT(bl_bit_array_has_bit(&g.core, i) == (i < g.size && spec_old_bit(g, i))); check_unchanged(g); })
