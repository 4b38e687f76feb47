//@ opt merge=0
//@ contract GradientInternal::copy_stops\( ct_copy_stops
//@ contract ^bl_object_expand_impl_size\( ct_expand
// gradients with any number of stops; k is an arbitrary stop
#include "gr.inc"
// ascending copy: a memmove unless the destination starts inside the source (proved in copy.cpp)
extern "C" size_t ct_copy_stops(BLGradientStop* dst, const BLGradientStop* src, size_t n) { VC_ASSERT(n == 0 || !vc_same_object(dst, src) || (uintptr_t)dst <= (uintptr_t)src); memmove(dst, src, n * sizeof(BLGradientStop)); return n; }
#ifdef VC_NATIVE
#define CMAX 9
#else
#define CMAX (uint64_t(1) << 40)
#endif
struct U { BLGradientCore core; BLObjectDetail d0; BLGradientPrivateImpl* impl; const BLGradientPrivateImpl* q; const BLGradientStop* s0; size_t size, cap, refs, live0, lutref; bool shared; BLGradientLUT* lut; };
static inline void mku(U& g, bool shared, bool full) {
  g.shared = shared; g.cap = vc_in("cap", 0, CMAX); g.size = vc_in("size", 0, CMAX);
#ifdef VC_NATIVE
  g.size %= g.cap + 1; if (full) g.size = g.cap;
#endif
  vc_assume(g.size <= g.cap); if (full) vc_assume(g.size == g.cap);
  g.impl = (BLGradientPrivateImpl*)mk_impl(&g.core, BL_OBJECT_TYPE_GRADIENT, sizeof(BLGradientPrivateImpl) + g.cap * sizeof(BLGradientStop), shared, "impl");
  g.core._d.info.bits |= pack_abcp(BL_GRADIENT_TYPE_RADIAL, BL_EXTEND_MODE_REFLECT, BL_TRANSFORM_TYPE_AFFINE);
  BLGradientPrivateImpl* p = g.impl; p->stops = (BLGradientStop*)((uint8_t*)p + sizeof(BLGradientPrivateImpl)); p->size = g.size; p->capacity = g.cap;
  g.lut = (BLGradientLUT*)vc_heap(sizeof(BLGradientLUT) + 16, "lut"); g.lutref = vc_in("lutref", 1, 1000000); g.lut->ref_count = g.lutref; g.lut->size = 4; p->lut32 = g.lut; p->lut64 = nullptr;
  g.q = (const BLGradientPrivateImpl*)vc_snapshot(p); g.s0 = (const BLGradientStop*)((const uint8_t*)g.q + sizeof(BLGradientPrivateImpl)); g.refs = refs_of(p); g.d0 = g.core._d; g.live0 = vc_live();
}
static inline void same_rest(const BLGradientPrivateImpl* p, const BLGradientPrivateImpl* q) {
  for (size_t i = 0; i < NV; i++) VC_ASSERT(deq(p->values[i], q->values[i]));
  VC_ASSERT(deq(p->transform.m00, q->transform.m00) & deq(p->transform.m01, q->transform.m01) & deq(p->transform.m10, q->transform.m10) & deq(p->transform.m11, q->transform.m11) & deq(p->transform.m20, q->transform.m20) & deq(p->transform.m21, q->transform.m21));
}
static inline size_t pick(size_t n) {
#ifdef VC_NATIVE
  return n ? vc_in("k", 0, n - 1) : 0;
#else
  return vc_nd_size("k");
#endif
}
static inline bool same_stop(const BLGradientStop& a, const BLGradientStop& b) { return deq(a.offset, b.offset) & (a.rgba.value == b.rgba.value); }
static inline void old_intact(U& g) { VC_ASSERT((g.impl->stops == g.q->stops) & (g.impl->size == g.size) & (g.impl->capacity == g.cap) & (g.impl->lut32 == g.lut) & (g.impl->info32.packed == g.q->info32.packed)); same_rest(g.impl, g.q); size_t k = pick(g.size); if (k < g.size) VC_ASSERT(same_stop(g.impl->stops[k], g.s0[k])); }
static inline void unchanged_u(U& g) { VC_ASSERT(same_bits(g.core._d, g.d0)); VC_ASSERT(vc_live() == g.live0); VC_ASSERT(refs_of(g.impl) == g.refs); VC_ASSERT(g.lut->ref_count == g.lutref); old_intact(g); vc_cover("unchanged"); }
#define UFAILED(R, E) do { VC_ASSERT((R) == BLResult(E)); unchanged_u(g); } while (0)
#define UOOM(R, N) do { VC_ASSERT((R) == BLResult(BL_ERROR_OUT_OF_MEMORY)); VC_ASSERT(vc_oom_flag != 0 || (N) > CMAX); unchanged_u(g); } while (0)
// n stops afterwards, stop k is VAL; cached: the tables may stay because the stops are the same
#define UGOOD(N, VAL, CACHED) do { size_t n_ = (N); BLGradientPrivateImpl* p = get_impl(&g.core); bool kept = p == g.impl; VC_ASSERT(vc_is_live(p)); VC_ASSERT(g.core._d.info.bits == g.d0.info.bits); VC_ASSERT((uint8_t*)p->stops == (uint8_t*)p + sizeof(BLGradientPrivateImpl)); VC_ASSERT(p->size == n_ && p->size <= p->capacity); \
  VC_ASSERT(p->capacity <= (impl_room(p) - sizeof(BLGradientPrivateImpl)) / sizeof(BLGradientStop)); same_rest(p, g.q); VC_ASSERT(p->lut64 == nullptr); size_t k = pick(n_); if (k < n_) VC_ASSERT(same_stop(p->stops[k], VAL)); \
  size_t r = g.lutref - 1; if (g.shared) { VC_ASSERT(refs_of(g.impl) == g.refs - (kept ? 0 : 1)); VC_ASSERT(!kept || (CACHED)); old_intact(g); r++; } else if (!kept) VC_ASSERT(!vc_is_live(g.impl)); if (!kept) VC_ASSERT(refs_of(p) == 1); \
  if (!(g.shared && kept)) { if (CACHED) { VC_ASSERT(p->lut32 == nullptr || p->lut32 == g.lut); if (p->lut32) r++; } else { VC_ASSERT(p->lut32 == nullptr && p->info32.packed == 0); } } \
  if (r) VC_ASSERT(vc_is_live(g.lut) && g.lut->ref_count == r); else VC_ASSERT(!vc_is_live(g.lut)); VC_ASSERT(vc_live() == g.live0 - (r ? 0 : 1) + (g.shared && !kept ? 1 : 0)); vc_cover("ok"); } while (0)
#define UCASES(NAME, ...) H void h_any_##NAME##_own() { U g; mku(g, false, false); __VA_ARGS__ } H void h_any_##NAME##_shared() { U g; mku(g, true, false); __VA_ARGS__ }
UCASES(reset_stops, { BLResult r = bl_gradient_reset_stops(&g.core); if (g.size == 0) UFAILED(r, BL_SUCCESS); else if (r) UOOM(r, 0u); else UGOOD(0, g.s0[k], false); })
UCASES(reserve, { size_t n = vc_in("n", 0, CMAX); BLResult r = bl_gradient_reserve(&g.core, n); if (r) UOOM(r, n); else { UGOOD(g.size, g.s0[k], true); VC_ASSERT(bl_gradient_get_capacity(&g.core) >= n); } })
UCASES(shrink, { BLResult r = bl_gradient_shrink(&g.core); if (r) UOOM(r, 0u); else UGOOD(g.size, g.s0[k], true); })
UCASES(init_weak, { BLGradientCore c; BLResult r = bl_gradient_init_weak(&c, &g.core); VC_ASSERT(r == BL_SUCCESS && same_bits(c._d, g.d0) && same_bits(g.core._d, g.d0)); VC_ASSERT(refs_of(g.impl) == g.refs + 1); old_intact(g); VC_ASSERT(vc_live() == g.live0); })
UCASES(destroy, { BLResult r = bl_gradient_destroy(&g.core); VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(vc_is_live(g.impl) == g.shared); if (g.shared) { VC_ASSERT(refs_of(g.impl) == g.refs - 1); old_intact(g); VC_ASSERT(g.lut->ref_count == g.lutref); } else { VC_ASSERT(vc_is_live(g.lut) == (g.lutref > 1)); if (g.lutref > 1) VC_ASSERT(g.lut->ref_count == g.lutref - 1); } })
UCASES(set_type, { uint32_t t = vc_in("t", 0, BL_GRADIENT_TYPE_MAX_VALUE + 1); BLResult r = bl_gradient_set_type(&g.core, BLGradientType(t)); if (t > BL_GRADIENT_TYPE_MAX_VALUE) UFAILED(r, BL_ERROR_INVALID_VALUE);
  else { VC_ASSERT(r == BL_SUCCESS && bl_gradient_get_type(&g.core) == BLGradientType(t)); g.core._d.info.set_a_field(BL_GRADIENT_TYPE_RADIAL); unchanged_u(g); } })
UCASES(set_extend, { uint32_t t = vc_in("t", 0, BL_EXTEND_MODE_SIMPLE_MAX_VALUE + 1); BLResult r = bl_gradient_set_extend_mode(&g.core, BLExtendMode(t)); if (t > BL_EXTEND_MODE_SIMPLE_MAX_VALUE) UFAILED(r, BL_ERROR_INVALID_VALUE);
  else { VC_ASSERT(r == BL_SUCCESS && bl_gradient_get_extend_mode(&g.core) == BLExtendMode(t)); g.core._d.info.set_b_field(BL_EXTEND_MODE_REFLECT); unchanged_u(g); } })
UCASES(accessors, { VC_ASSERT(bl_gradient_get_size(&g.core) == g.size && bl_gradient_get_capacity(&g.core) == g.cap && bl_gradient_get_stops(&g.core) == g.impl->stops); unchanged_u(g); })
