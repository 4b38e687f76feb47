//@ opt merge=0
//@ contract MemOps::.*copy_small\( ct_copy_small
//@ contract MemOps::.*fill_inline_t<char> ct_fill8
//@ contract MemOps::.*fill_small_t<char> ct_fill8

#include "st.inc"
MODES(reserve, { size_t n = vc_in("n", 0, NMAX); BLResult r = bl_string_reserve(&g.core, n); if (r) OOM(r, n); else { POST(g.size, OLD(k)); VC_ASSERT(bl_string_get_capacity(&g.core) >= n); } })
MODES(shrink, { BLResult r = bl_string_shrink(&g.core); if (r) OOM(r, 0u); else POST(g.size, OLD(k)); })
MODES(clear, { BLResult r = bl_string_clear(&g.core); VC_ASSERT(r == BL_SUCCESS); POST(0, 0); })
MODES(reset, { BLResult r = bl_string_reset(&g.core); VC_ASSERT(r == BL_SUCCESS); POST(0, 0); VC_ASSERT(g.core._d.sso()); })
MODES(make_mutable, { char* out = nullptr; BLResult r = bl_string_make_mutable(&g.core, &out); if (r) OOM(r, 0u); else { VC_ASSERT((uint8_t*)out == bytes_of(&g.core)); if (!g.core._d.sso()) VC_ASSERT(refs_of(g.core._d.impl) == 1); POST(g.size, OLD(k)); } })
MODES(init_weak, { BLStringCore c; BLResult r = bl_string_init_weak(&c, &g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(same_bits(c._d, g.d0) && same_bits(g.core._d, g.d0)); VC_ASSERT(vc_live() == g.live0);
  if (!g.sso) VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count + 1); })
MODES(init_move, { BLStringCore c; BLResult r = bl_string_init_move(&c, &g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(same_bits(c._d, g.d0)); VC_ASSERT(rep_ok(&g.core) && g.core._d.sso() && size_of(&g.core) == 0); VC_ASSERT(vc_live() == g.live0); })
MODES(destroy, { BLResult r = bl_string_destroy(&g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(vc_live() == g.live0 - (g.sso || g.shared ? 0 : 1)); if (g.shared) VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count - 1); })
MODES(accessors, { VC_ASSERT(bl_string_get_size(&g.core) == g.size); VC_ASSERT((const uint8_t*)bl_string_get_data(&g.core) == bytes_of(&g.core)); VC_ASSERT(bl_string_get_capacity(&g.core) == g.cap); VC_ASSERT(bl_string_get_data(&g.core)[g.size] == 0); check_unchanged(g); })
H void h_expand() { size_t n = vc_nd_size("n"); size_t r = bl_object_expand_impl_size(BLObjectImplSize(n)).value(); VC_ASSERT(r >= n); VC_ASSERT(n >= (uint64_t(1) << 62) || r <= n * 2 + 256); }
H void h_init_data() { size_t n = vc_in("n", 0, CMAX); const char* p = (const char*)vc_alloc_ro(n, "text"); size_t l0 = vc_live(); BLStringCore c; BLResult r = bl_string_init_with_data(&c, p, n); VC_ASSERT(rep_ok(&c));
  if (r) { VC_ASSERT(r == BLResult(BL_ERROR_OUT_OF_MEMORY)); VC_ASSERT(vc_oom_flag != 0); VC_ASSERT(c._d.sso() && size_of(&c) == 0); VC_ASSERT(vc_live() == l0); }
  else { VC_ASSERT(size_of(&c) == n); size_t k = pick(n); if (k < n) VC_ASSERT(bytes_of(&c)[k] == uint8_t(p[k])); VC_ASSERT(vc_live() == l0 + (c._d.sso() ? 0 : 1)); vc_cover("ok"); } }
