//@ opt merge=0
//@ contract ^bl_object_expand_impl_size\( ct_expand
//@ harness * bounded="at most 3 stops assigned to a gradient of at most 2"
//@ harness h_create_*_from_3 quick=0
//@ harness h_assign_stops_2_full_from_3 quick=0
//@ harness h_assign_stops_1_shared_from_3 quick=0
#include "gr.inc"
// any stops: the result is the stable order by offset, of three or more at one offset only the first and the last stay
static inline L normal(const double* o, const uint64_t* c, size_t n) {
  L s; s.n = 0;
  for (size_t i = 0; i < n; i++) { size_t at = s.n; while (at > 0 && s.o[at - 1] > o[i]) { s.o[at] = s.o[at - 1]; s.c[at] = s.c[at - 1]; at--; } s.o[at] = o[i]; s.c[at] = c[i]; s.n++; }
  L e; e.n = 0;
  for (size_t i = 0; i < n; i++) { if (i > 0 && i + 1 < n && s.o[i - 1] == s.o[i] && s.o[i] == s.o[i + 1]) continue; e.o[e.n] = s.o[i]; e.c[e.n] = s.c[i]; e.n++; }
  return e;
}
struct In { BLGradientStop* p; double o[MAXN]; uint64_t c[MAXN]; bool bad; };
static inline void mk_in(In& x, size_t m) { x.p = (BLGradientStop*)vc_alloc(m * sizeof(BLGradientStop) + 16, "in"); x.bad = false; for (size_t i = 0; i < m; i++) { x.o[i] = any_offset("in"); x.c[i] = vc_nd_u64("inc"); x.p[i].offset = x.o[i]; x.p[i].rgba.value = x.c[i]; x.bad |= !((x.o[i] >= 0.0) & (x.o[i] <= 1.0)); } }
#define A1(NAME, SFX, NN, CC, SH, LU, MM, ...) H void h_##NAME##_##SFX##_from_##MM() { constexpr size_t N = NN, CAP = CC, M = MM; (void)N; (void)CAP; Ghost g; mk(g, N, CAP, SH, LU, "impl"); In x; mk_in(x, M); __VA_ARGS__ }
#define AM(NAME, MM, ...) A1(NAME, 1_own, 1, 3, false, 1, MM, __VA_ARGS__) A1(NAME, 2_full, 2, 2, false, 2, MM, __VA_ARGS__) A1(NAME, 1_shared, 1, 3, true, 2, MM, __VA_ARGS__)
#define ACASES(NAME, ...) AM(NAME, 1, __VA_ARGS__) AM(NAME, 2, __VA_ARGS__) AM(NAME, 3, __VA_ARGS__)
#define AOOM(R) do { VC_ASSERT((R) == BLResult(BL_ERROR_OUT_OF_MEMORY)); VC_ASSERT(vc_oom_flag != 0); VC_ASSERT(g.shared || CAP < M); check_unchanged(g); } while (0)
ACASES(assign_stops, { BLResult r = bl_gradient_assign_stops(&g.core, x.p, M); if (x.bad) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) AOOM(r); else GOOD(normal(x.o, x.c, M), false); })
ACASES(create, { uint32_t t = vc_in("type", 0, BL_GRADIENT_TYPE_MAX_VALUE + 1), e = vc_in("ext", 0, BL_EXTEND_MODE_SIMPLE_MAX_VALUE + 1); if (M == 1) { t = uint32_t(vc_concretize(t)); e = uint32_t(vc_concretize(e)); } else { vc_assume(t == BL_GRADIENT_TYPE_CONIC); vc_assume(e == BL_EXTEND_MODE_REPEAT); t = BL_GRADIENT_TYPE_CONIC; e = BL_EXTEND_MODE_REPEAT; }
  double* v = (double*)vc_alloc(sizeof(double) * NV, "values"); BLResult r = bl_gradient_create(&g.core, BLGradientType(t), v, BLExtendMode(e), x.p, M, nullptr);
  if (x.bad || t > BL_GRADIENT_TYPE_MAX_VALUE || e > BL_EXTEND_MODE_SIMPLE_MAX_VALUE) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) AOOM(r);
  else { size_t nv = t == BL_GRADIENT_TYPE_LINEAR ? 4 : t == BL_GRADIENT_TYPE_RADIAL ? 6 : 4; check_list(g, normal(x.o, x.c, M)); BLGradientPrivateImpl* p = get_impl(&g.core);
    for (size_t i = 0; i < NV; i++) VC_ASSERT(deq(p->values[i], i < nv ? v[i] : 0.0));
    VC_ASSERT((p->transform.m00 == 1.0) & (p->transform.m01 == 0.0) & (p->transform.m10 == 0.0) & (p->transform.m11 == 1.0) & (p->transform.m20 == 0.0) & (p->transform.m21 == 0.0));
    VC_ASSERT(get_gradient_type(&g.core) == BLGradientType(t) && get_extend_mode(&g.core) == BLExtendMode(e) && get_transform_type(&g.core) == BL_TRANSFORM_TYPE_IDENTITY); check_share(g, false); } })
