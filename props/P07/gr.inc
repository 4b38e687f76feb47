#include "vc.h"
// gradients: stops (offset, colour) in order, values, transformation and cached lookup tables; own and shared implementations
#include "../common/object.inc"
#include <blend2d/core/gradient.cpp>
using namespace bl; using namespace bl::GradientInternal;
extern "C" size_t ct_expand(size_t n) { size_t r = vc_nd_size("grown"); vc_assume(r >= n); vc_assume(n >= (uint64_t(1) << 62) || r <= n * 2 + 256); return r; }
#define NV (BL_GRADIENT_VALUE_MAX_VALUE + 1)
#define MAXN 5
struct L { size_t n; double o[MAXN]; uint64_t c[MAXN]; };   // abstract value: the list of stops
struct Ghost { BLGradientCore core; BLObjectDetail d0; BLGradientPrivateImpl* impl; const uint8_t* snap; L l; bool shared; size_t live0; BLGradientLUT* lut; size_t lutref; double v[NV]; double m[6]; };
static inline void mk_fp(double& d, const char* l) { 
#ifdef VC_NATIVE
  d = double(vc_in(l, 0, 4)) / 4.0;
#else
  d = vc_nd_f64(l);
#endif
}
static inline double any_offset(const char* l) {
#ifdef VC_NATIVE
  uint64_t k = vc_in(l, 0, 8); return k <= 4 ? double(k) / 4.0 : k == 5 ? -0.5 : k == 6 ? 1.5 : k == 7 ? __builtin_nan("") : -0.0;
#else
  return vc_nd_f64(l);
#endif
}
static inline bool valid(double o) { return (o >= 0.0) & (o <= 1.0); }
// invariant of every gradient: offsets within [0, 1], ascending, at most two stops at the same offset
static inline bool list_ok(const L& l) {
  bool r = true;
  for (size_t i = 0; i < l.n; i++) { r &= (l.o[i] >= 0.0) & (l.o[i] <= 1.0); if (i >= 1) r &= l.o[i - 1] <= l.o[i]; if (i >= 2) r &= !((l.o[i - 2] == l.o[i - 1]) & (l.o[i - 1] == l.o[i])); }
  return r;
}
static inline bool is_nan(double d) { return d != d; }
static inline uint64_t bits_of(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
// a lookup table shared with somebody else (a rendering context), or none
static inline void mk(Ghost& g, size_t n, size_t cap, bool shared, int lut, const char* name) {
  g.shared = shared;
  g.impl = (BLGradientPrivateImpl*)mk_impl(&g.core, BL_OBJECT_TYPE_GRADIENT, sizeof(BLGradientPrivateImpl) + cap * sizeof(BLGradientStop), shared, name);
  g.core._d.info.bits |= pack_abcp(BL_GRADIENT_TYPE_RADIAL, BL_EXTEND_MODE_REFLECT, BL_TRANSFORM_TYPE_AFFINE);
  BLGradientPrivateImpl* p = g.impl; p->stops = (BLGradientStop*)((uint8_t*)p + sizeof(BLGradientPrivateImpl)); p->size = n; p->capacity = cap;
  g.l.n = n;
  for (size_t i = 0; i < n; i++) { mk_fp(g.l.o[i], "offset"); g.l.c[i] = vc_nd_u64("rgba"); p->stops[i].offset = g.l.o[i]; p->stops[i].rgba.value = g.l.c[i]; }
  vc_assume(list_ok(g.l));
  g.lut = nullptr; g.lutref = 0;
  if (lut) { g.lut = (BLGradientLUT*)vc_heap(sizeof(BLGradientLUT) + 16, "lut"); g.lutref = lut == 1 ? 1 : vc_in("lutref", 2, 1000000); g.lut->ref_count = g.lutref; g.lut->size = 4; }
  p->lut32 = g.lut; p->lut64 = nullptr; p->info32.packed = lut ? vc_nd_u32("info") : 0;
  for (size_t i = 0; i < NV; i++) g.v[i] = p->values[i];
  g.m[0] = p->transform.m00; g.m[1] = p->transform.m01; g.m[2] = p->transform.m10; g.m[3] = p->transform.m11; g.m[4] = p->transform.m20; g.m[5] = p->transform.m21;
  g.snap = (const uint8_t*)vc_snapshot(p) - sizeof(BLObjectImplHeader);
  g.d0 = g.core._d; g.live0 = vc_live();
}
static inline bool deq(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static inline void check_rest(Ghost& g) {
  BLGradientPrivateImpl* p = get_impl(&g.core);
  VC_ASSERT(g.core._d.info.bits == g.d0.info.bits);
  for (size_t i = 0; i < NV; i++) VC_ASSERT(deq(p->values[i], g.v[i]));
  VC_ASSERT(deq(p->transform.m00, g.m[0]) & deq(p->transform.m01, g.m[1]) & deq(p->transform.m10, g.m[2]) & deq(p->transform.m11, g.m[3]) & deq(p->transform.m20, g.m[4]) & deq(p->transform.m21, g.m[5]));
}
static inline void check_same_as_before(Ghost& g) { BLGradientPrivateImpl* p = g.impl; size_t h = ((const BLObjectImplHeader*)g.snap)->ref_count; (void)h;
  const BLGradientPrivateImpl* q = (const BLGradientPrivateImpl*)(g.snap + sizeof(BLObjectImplHeader));
  VC_ASSERT((p->stops == q->stops) & (p->size == q->size) & (p->capacity == q->capacity) & (p->lut32 == q->lut32) & (p->lut64 == q->lut64) & (p->info32.packed == q->info32.packed));
  for (size_t i = 0; i < g.l.n; i++) VC_ASSERT((p->stops[i].offset == g.l.o[i]) & (p->stops[i].rgba.value == g.l.c[i]));
  for (size_t i = 0; i < NV; i++) VC_ASSERT(deq(p->values[i], g.v[i]));
  VC_ASSERT(deq(p->transform.m00, g.m[0]) & deq(p->transform.m01, g.m[1]) & deq(p->transform.m10, g.m[2]) & deq(p->transform.m11, g.m[3]) & deq(p->transform.m20, g.m[4]) & deq(p->transform.m21, g.m[5]));
}
static inline void check_unchanged(Ghost& g) { VC_ASSERT(same_bits(g.core._d, g.d0)); VC_ASSERT(vc_live() == g.live0); check_same_as_before(g);
  VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count); if (g.lut) VC_ASSERT(g.lut->ref_count == g.lutref); vc_cover("unchanged"); }
// cache: 0 = the stops may have changed, no cached table may survive; 1 = kept or dropped, but only together with the right stops
static inline void check_share(Ghost& g, bool cache_kept) {
  BLGradientPrivateImpl* p = get_impl(&g.core); bool kept = p == g.impl;
  VC_ASSERT(vc_is_live(p)); VC_ASSERT((uint8_t*)p->stops == (uint8_t*)p + sizeof(BLGradientPrivateImpl)); VC_ASSERT(p->size <= p->capacity);
  VC_ASSERT(p->capacity <= (impl_room(p) - sizeof(BLGradientPrivateImpl)) / sizeof(BLGradientStop));
  VC_ASSERT(p->lut64 == nullptr);
  size_t holders = 0;
  if (g.shared) { VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count - (kept ? 0 : 1)); check_same_as_before(g); holders++; VC_ASSERT(!kept || cache_kept); }
  if (!kept) VC_ASSERT(refs_of(p) == 1);
  if (!kept && !g.shared) VC_ASSERT(!vc_is_live(g.impl));
  if (!(g.shared && kept)) { VC_ASSERT(p->lut32 == nullptr || (cache_kept && p->lut32 == g.lut)); if (!cache_kept) VC_ASSERT(p->info32.packed == 0); if (p->lut32) { holders++; VC_ASSERT(p->info32.packed == 0 || p->info32.packed == ((const BLGradientPrivateImpl*)(g.snap + sizeof(BLObjectImplHeader)))->info32.packed); } }
  size_t lutlive = 0;
  if (g.lut) { size_t r = g.lutref - 1 + holders; VC_ASSERT(vc_is_live(g.lut) == (r != 0)); if (r) { VC_ASSERT(g.lut->ref_count == r); } else lutlive = 1; }
  VC_ASSERT(vc_live() == g.live0 - lutlive + (g.shared && !kept ? 1 : 0));
}
static inline void check_list(Ghost& g, const L& e) {
  BLGradientPrivateImpl* p = get_impl(&g.core);
  VC_ASSERT(list_ok(e));
  VC_ASSERT(p->size == e.n);
  for (size_t i = 0; i < e.n; i++) { VC_ASSERT(p->stops[i].offset == e.o[i]); VC_ASSERT(p->stops[i].rgba.value == e.c[i]); }
  vc_cover("ok");
}
static inline L without(const L& l, size_t a, size_t b) { L e; e.n = 0; for (size_t i = 0; i < l.n; i++) if (i < a || i >= b) { e.o[e.n] = l.o[i]; e.c[e.n] = l.c[i]; e.n++; } return e; }
// a new stop goes behind every stop with the same or a smaller offset, but replaces the second of two with the same offset
static inline L with(const L& l, double o, uint64_t c) {
  L e = l; size_t at = 0, eq = 0; for (size_t i = 0; i < l.n; i++) { if (l.o[i] <= o) at = i + 1; if (l.o[i] == o) eq++; }
  if (eq >= 2) { e.c[at - 1] = c; return e; }
  for (size_t i = l.n; i > at; i--) { e.o[i] = e.o[i - 1]; e.c[i] = e.c[i - 1]; }
  e.o[at] = o; e.c[at] = c; e.n = l.n + 1; return e;
}
#define GOOD(E, CK) do { check_list(g, (E)); check_rest(g); check_share(g, CK); } while (0)
#define FAILED(R, E) do { VC_ASSERT((R) == BLResult(E)); check_unchanged(g); } while (0)
#define OOM(R) do { VC_ASSERT((R) == BLResult(BL_ERROR_OUT_OF_MEMORY)); VC_ASSERT(vc_oom_flag != 0); VC_ASSERT(g.shared || CAP == N); check_unchanged(g); } while (0)
// N stops, spare capacity or none, own or shared, without / with a cached table
#define C1(NAME, SFX, NN, CC, SH, LU, ...) H void h_##NAME##_##SFX() { constexpr size_t N = NN, CAP = CC; (void)N; (void)CAP; Ghost g; mk(g, N, CAP, SH, LU, "impl"); __VA_ARGS__ }
#define CN(NAME, NN, ...) C1(NAME, NN##_own, NN, NN + 2, false, 1, __VA_ARGS__) C1(NAME, NN##_full, NN, NN, false, 2, __VA_ARGS__) C1(NAME, NN##_shared, NN, NN + 2, true, 2, __VA_ARGS__)
#define CASES(NAME, ...) CN(NAME, 0, __VA_ARGS__) CN(NAME, 1, __VA_ARGS__) CN(NAME, 2, __VA_ARGS__) CN(NAME, 3, __VA_ARGS__)
