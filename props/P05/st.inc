#include "vc.h"
// every string operation against the abstract byte sequence with its null terminator, for every representation (in-place, heap, shared)
#include "../common/object.inc"
#include <blend2d/core/string.cpp>
using namespace bl; using namespace bl::StringInternal;
extern "C" void ct_copy_small(void* dst, const void* src, size_t n) { memmove(dst, src, n); }
extern "C" void ct_fill8(char* dst, const char& pattern, size_t count) { memset(dst, uint8_t(pattern), count); }
// growth policy: at least what was asked for, at most double plus a cache line (proved in P04 and here)
extern "C" size_t ct_expand(size_t n) { size_t r = vc_nd_size("grown"); vc_assume(r >= n); vc_assume(n >= (uint64_t(1) << 62) || r <= n * 2 + 256); return r; }
#ifdef VC_NATIVE
#define CMAX 22
#define NMAX 30
#else
#define CMAX (uint64_t(1) << 40)
#define NMAX (~uint64_t(0))
#endif
static const uint32_t SSOC = 14;   // BLString::kSSOCapacity (checked in every representation check)
struct Ghost { BLStringCore core; BLObjectDetail d0; BLStringImpl* impl; const uint8_t* b0; const uint8_t* snap; size_t size, cap; bool sso, shared; size_t live0; };
static inline uint32_t base_bits() { return BLObjectInfo::from_type_with_marker(BL_OBJECT_TYPE_STRING).bits; }
static inline void mk(Ghost& g, int mode) {
  g.sso = mode == 0; g.shared = mode == 2;
  if (g.sso) {
    g.size = vc_in("size", 0, SSOC); g.cap = SSOC; g.impl = nullptr;
    g.core._d.init_static(BLObjectInfo::from_type_with_marker(BL_OBJECT_TYPE_STRING) | BLObjectInfo::from_abcp(uint32_t(g.size) ^ SSOC));
    uint8_t* s = (uint8_t*)vc_alloc(15, "bytes"); s[g.size] = 0;
    for (uint32_t i = 0; i < SSOC; i++) g.core._d.u8_data[i] = s[i];
    g.b0 = (const uint8_t*)vc_snapshot(s); g.snap = nullptr;
  }
  else {
    g.cap = vc_in("cap", SSOC + 1, CMAX); g.size = vc_in("size", 0, CMAX);
#ifdef VC_NATIVE
    g.size %= g.cap + 1;
#endif
    vc_assume(g.size <= g.cap);
    g.impl = (BLStringImpl*)mk_impl(&g.core, BL_OBJECT_TYPE_STRING, sizeof(BLStringImpl) + g.cap + 1, g.shared, "impl");
    g.impl->capacity = g.cap; g.impl->size = g.size; g.impl->data()[g.size] = 0;
    g.snap = (const uint8_t*)vc_snapshot(g.impl) - sizeof(BLObjectImplHeader);
    g.b0 = g.snap + sizeof(BLObjectImplHeader) + sizeof(BLStringImpl);
  }
  g.d0 = g.core._d; g.live0 = vc_live();
}
static inline uint8_t* bytes_of(const BLStringCore* c) { return c->_d.sso() ? (uint8_t*)c->_d.u8_data : (uint8_t*)c->_d.impl + sizeof(BLStringImpl); }
static inline size_t size_of(const BLStringCore* c) { return c->_d.sso() ? c->_d.a_field() ^ SSOC : ((const BLStringImpl*)c->_d.impl)->size; }
static inline bool rep_ok(BLStringCore* c) {
  if (c->_d.sso()) { VC_ASSERT((c->_d.info.bits & ~(uint32_t(BL_OBJECT_INFO_A_MASK) | 0xFFFFu)) == base_bits()); VC_ASSERT((c->_d.a_field() ^ SSOC) <= SSOC); VC_ASSERT(bytes_of(c)[size_of(c)] == 0 || size_of(c) == SSOC); VC_ASSERT(size_of(c) != SSOC || c->_d.u8_data[SSOC] == 0); return true; }
  VC_ASSERT(c->_d.info.bits == (base_bits() | BL_OBJECT_INFO_D_FLAG | BL_OBJECT_INFO_M_FLAG | BL_OBJECT_INFO_R_FLAG));
  BLStringImpl* i = (BLStringImpl*)c->_d.impl;
  VC_ASSERT(vc_is_live(i)); VC_ASSERT(i->size <= i->capacity); VC_ASSERT(refs_of(i) >= 1);
  VC_ASSERT(i->capacity <= (uint64_t(1) << 60)); VC_ASSERT(i->capacity + 1 <= impl_room(i) - sizeof(BLStringImpl));
  VC_ASSERT(bytes_of(c)[i->size] == 0);
  return true;
}
static inline void check_share(const Ghost& g) {
  if (g.sso) { VC_ASSERT(vc_live() == g.live0 + (g.core._d.sso() ? 0 : 1)); return; }
  bool kept = !g.core._d.sso() && g.core._d.impl == g.impl;
  if (g.shared) {
    VC_ASSERT(vc_is_live(g.impl));
    VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count - (kept ? 0 : 1));
    size_t k = vc_nd_size("shk");
#ifdef VC_NATIVE
    k %= vc_objsize(g.snap);
#endif
    vc_assume(k >= 8 && k < vc_objsize(g.snap));
    VC_ASSERT(((const uint8_t*)g.impl)[int64_t(k) - 16] == g.snap[k]);
    VC_ASSERT(vc_live() == g.live0 + (kept || g.core._d.sso() ? 0 : 1));
  }
  else {
    VC_ASSERT(kept == vc_is_live(g.impl));
    VC_ASSERT(vc_live() == g.live0 - (g.core._d.sso() ? 1 : 0));
  }
  if (!kept && !g.core._d.sso()) VC_ASSERT(refs_of(g.core._d.impl) == 1);
}
static inline size_t pick(size_t n) {
#ifdef VC_NATIVE
  return n ? vc_in("k", 0, n - 1) : 0;
#else
  return vc_nd_size("k");
#endif
}
static inline void check_unchanged(Ghost& g) {
  VC_ASSERT(same_bits(g.core._d, g.d0)); VC_ASSERT(vc_live() == g.live0);
  if (!g.sso) { size_t k = vc_nd_size("uk");
#ifdef VC_NATIVE
    k %= vc_objsize(g.snap);
#endif
    vc_assume(k < vc_objsize(g.snap)); VC_ASSERT(((const uint8_t*)g.impl)[int64_t(k) - 16] == g.snap[k]); }
}
#define MODES(NAME, ...) \
  H void h_##NAME##_sso()  { Ghost g; mk(g, 0); __VA_ARGS__ } \
  H void h_##NAME##_heap() { Ghost g; mk(g, 1); __VA_ARGS__ } \
  H void h_##NAME##_shared() { Ghost g; mk(g, 2); __VA_ARGS__ }
// post state: n bytes, byte k equal to VAL for every k < n, terminated, representation valid, sharing respected
#define POST(N, VAL) do { size_t n_ = (N); VC_ASSERT(rep_ok(&g.core)); VC_ASSERT(size_of(&g.core) == n_); check_share(g); size_t k = pick(n_); if (k < n_) VC_ASSERT(bytes_of(&g.core)[k] == uint8_t(VAL)); vc_cover("ok"); } while (0)
#define OLD(K) g.b0[K]
#define MAXCAP (BL_OBJECT_IMPL_MAX_SIZE - sizeof(BLStringImpl) - 1)
#define OOM(R, N) do { VC_ASSERT((R) == BLResult(BL_ERROR_OUT_OF_MEMORY)); VC_ASSERT(vc_oom_flag != 0 || (N) > MAXCAP / 4); check_unchanged(g); } while (0)
