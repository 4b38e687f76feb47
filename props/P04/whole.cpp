//@ opt merge=0
//@ contract MemOps::.*copy_small\( ct_copy_small
//@ contract MemOps::.*fill_inline_t<unsigned.char> ct_fill8
//@ harness *_s6_* quick=0
//@ harness *_s24_* quick=0
//@ harness *_u8_* quick=0
//@ contract MemOps::.*copy_forward_inline_t<unsigned.char> ct_copy8

#include "ar.inc"
MODES(reserve, { size_t n = vc_in("n", 0, NMAX); BLResult r = bl_array_reserve(&g.core, n); if (r) OOM(r, n); else { POST(g.size, OLD(k)); VC_ASSERT(bl_array_get_capacity(&g.core) >= n); } })
MODES(shrink, { BLResult r = bl_array_shrink(&g.core); if (r) OOM(r, 0u); else POST(g.size, OLD(k)); })
MODES(clear, { BLResult r = bl_array_clear(&g.core); VC_ASSERT(r == BL_SUCCESS); POST(0, 0); })
MODES(reset, { BLResult r = bl_array_reset(&g.core); VC_ASSERT(r == BL_SUCCESS); POST(0, 0); VC_ASSERT(g.core._d.sso()); })
MODES(make_mutable, { void* out = nullptr; BLResult r = bl_array_make_mutable(&g.core, &out); if (r) OOM(r, 0u); else { VC_ASSERT(out == bytes_of(&g.core)); if (!g.core._d.sso()) VC_ASSERT(refs_of(g.core._d.impl) == 1); POST(g.size, OLD(k)); } })
MODES(init_weak, { BLArrayCore c; BLResult r = bl_array_init_weak(&c, &g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(same_bits(c._d, g.d0) && same_bits(g.core._d, g.d0)); VC_ASSERT(vc_live() == g.live0);
  if (!g.sso) VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count + 1); })
MODES(init_move, { BLArrayCore c; BLResult r = bl_array_init_move(&c, &g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(same_bits(c._d, g.d0)); VC_ASSERT(rep_ok<T>(&g.core) && g.core._d.sso() && size_of(&g.core) == 0); VC_ASSERT(vc_live() == g.live0); })
MODES(destroy, { BLResult r = bl_array_destroy(&g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(vc_live() == g.live0 - (g.sso || g.shared ? 0 : 1)); if (g.shared) VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count - 1); })
MODES(accessors, { VC_ASSERT(bl_array_get_size(&g.core) == g.size); VC_ASSERT(bl_array_get_data(&g.core) == bytes_of(&g.core)); VC_ASSERT(bl_array_get_capacity(&g.core) == g.cap); VC_ASSERT(bl_array_get_item_size(&g.core) == isz); check_unchanged(g); })
H void h_expand() { size_t n = vc_nd_size("n"); 
  size_t r = bl_object_expand_impl_size(BLObjectImplSize(n)).value();
  VC_ASSERT(r >= n); VC_ASSERT(n >= (uint64_t(1) << 62) || r <= n * 2 + 256); }
