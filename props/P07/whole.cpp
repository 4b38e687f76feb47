//@ opt merge=0
//@ contract ^bl_object_expand_impl_size\( ct_expand
//@ harness * bounded="at most 3 stops"
#include "gr.inc"
#define FULL(R) do { VC_ASSERT((R) == BLResult(BL_ERROR_OUT_OF_MEMORY)); VC_ASSERT(vc_oom_flag != 0); check_unchanged(g); } while (0)
CASES(reset_stops, { BLResult r = bl_gradient_reset_stops(&g.core); L e; e.n = 0; if (N == 0) FAILED(r, BL_SUCCESS); else if (r) FULL(r); else GOOD(e, false); })
CASES(reserve, { size_t n = vc_in("n", 0, 8); n = vc_concretize(n); BLResult r = bl_gradient_reserve(&g.core, n); if (r) FULL(r); else { GOOD(g.l, true); VC_ASSERT(bl_gradient_get_capacity(&g.core) >= n); } })
CASES(shrink, { BLResult r = bl_gradient_shrink(&g.core); if (r) FULL(r); else GOOD(g.l, true); })
CASES(set_value, { size_t i = vc_in("i", 0, NV); i = vc_concretize(i); double v = vc_nd_f64("v"); BLResult r = bl_gradient_set_value(&g.core, i, v); if (i >= NV) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) FULL(r);
  else { VC_ASSERT(deq(get_impl(&g.core)->values[i], v)); double was = g.v[i]; g.v[i] = v; check_list(g, g.l); check_rest(g); g.v[i] = was; check_share(g, true); VC_ASSERT(!g.shared || get_impl(&g.core) != g.impl); } })
CASES(set_type, { uint32_t t = vc_in("t", 0, BL_GRADIENT_TYPE_MAX_VALUE + 1); BLResult r = bl_gradient_set_type(&g.core, BLGradientType(t)); if (t > BL_GRADIENT_TYPE_MAX_VALUE) FAILED(r, BL_ERROR_INVALID_VALUE);
  else { VC_ASSERT(r == BL_SUCCESS && bl_gradient_get_type(&g.core) == BLGradientType(t)); g.core._d.info.set_a_field(BL_GRADIENT_TYPE_RADIAL); check_unchanged(g); } })
CASES(set_extend, { uint32_t t = vc_in("t", 0, BL_EXTEND_MODE_SIMPLE_MAX_VALUE + 1); BLResult r = bl_gradient_set_extend_mode(&g.core, BLExtendMode(t)); if (t > BL_EXTEND_MODE_SIMPLE_MAX_VALUE) FAILED(r, BL_ERROR_INVALID_VALUE);
  else { VC_ASSERT(r == BL_SUCCESS && bl_gradient_get_extend_mode(&g.core) == BLExtendMode(t)); g.core._d.info.set_b_field(BL_EXTEND_MODE_REFLECT); check_unchanged(g); } })
CASES(init_weak, { BLGradientCore c; BLResult r = bl_gradient_init_weak(&c, &g.core); VC_ASSERT(r == BL_SUCCESS && same_bits(c._d, g.d0) && same_bits(g.core._d, g.d0)); VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count + 1); check_same_as_before(g); VC_ASSERT(vc_live() == g.live0); })
CASES(destroy, { BLResult r = bl_gradient_destroy(&g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(vc_is_live(g.impl) == g.shared);
  if (g.shared) { VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count - 1); check_same_as_before(g); if (g.lut) VC_ASSERT(g.lut->ref_count == g.lutref); }
  else if (g.lut) { VC_ASSERT(vc_is_live(g.lut) == (g.lutref > 1)); if (g.lutref > 1) VC_ASSERT(g.lut->ref_count == g.lutref - 1); } })
// two gradients are equal exactly when type, extend mode, values, transformation and stops are
CASES(equals, { Ghost h; mk(h, N, N, false, 0, "other"); bool e = bl_gradient_equals(&g.core, &h.core); bool s = true; size_t sz = sizeof(double) * NV;
  s = s && memcmp(g.impl->values, h.impl->values, sz) == 0; for (size_t i = 0; i < N; i++) s = s && bits_of(g.l.o[i]) == bits_of(h.l.o[i]) && g.l.c[i] == h.l.c[i];
  s = s && g.impl->transform == h.impl->transform; VC_ASSERT(e == s); VC_ASSERT(vc_live() == h.live0); check_same_as_before(g); })
