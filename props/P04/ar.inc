#include "vc.h"
// every array operation against the abstract byte sequence (size * item_size bytes), for every representation (in-place, heap, shared)
#include "../common/object.inc"
#include <blend2d/core/array.cpp>
#include <blend2d/core/var.cpp>
using namespace bl;
// rep movsb (inline assembly): bytes in ascending order; only used where that equals a memmove
extern "C" void ct_copy_small(void* dst, const void* src, size_t n) { memmove(dst, src, n); }
extern "C" void ct_fill8(uint8_t* dst, const uint8_t& pattern, size_t count) { ct_fill0_t(dst, pattern, count); }
extern "C" void ct_copy8(uint8_t* dst, const uint8_t* src, size_t count) { memmove(dst, src, count); }
// growth policy: at least what was asked for, at most double plus a cache line (proved in whole.cpp)
extern "C" size_t ct_expand(size_t n) { size_t r = vc_nd_size("grown"); vc_assume(r >= n); vc_assume(n >= (uint64_t(1) << 62) || r <= n * 2 + 256); return r; }
#ifdef VC_NATIVE
#define CMAX 9
#define NMAX 12
#else
#define CMAX (uint64_t(1) << 40)
#define NMAX (~uint64_t(0))
#endif
struct Ghost { BLArrayCore core; BLObjectDetail d0; BLArrayImpl* impl; const uint8_t* b0; const uint8_t* snap; size_t size, cap; bool sso, shared; size_t live0; };
template<uint32_t T> struct Ty {
  static constexpr uint32_t isz = ArrayInternal::ItemSizeGen::value(T);
  static constexpr uint32_t ssoc = ArrayInternal::SSOCapacityGen::value(T);
};
static inline uint32_t base_bits(uint32_t t) { return BLObjectInfo::from_type_with_marker(BLObjectType(t)).bits; }
template<uint32_t T> static inline void mk(Ghost& g, const char* l, int mode) {
  constexpr uint32_t isz = Ty<T>::isz, ssoc = Ty<T>::ssoc;
  bl_object_defaults[T]._d.init_static(BLObjectInfo::from_type_with_marker(BLObjectType(T)) | BLObjectInfo::from_abcp(0, ssoc));
  g.sso = mode == 0; g.shared = mode == 2;
  if (g.sso) {
    g.size = vc_in("size", 0, ssoc); g.cap = ssoc; g.impl = nullptr;
    g.core._d.init_static(BLObjectInfo::from_type_with_marker(BLObjectType(T)) | BLObjectInfo::from_abcp(uint32_t(g.size), ssoc));
    uint8_t* s = (uint8_t*)vc_alloc(12, "bytes");
    for (uint32_t i = 0; i < 12; i++) g.core._d.u8_data[i] = s[i];
    g.b0 = (const uint8_t*)vc_snapshot(s); g.snap = nullptr;
  }
  else {
    g.cap = vc_in("cap", ssoc + 1, CMAX); g.size = vc_in("size", 0, CMAX);
#ifdef VC_NATIVE
    g.size %= g.cap + 1;
#endif
    vc_assume(g.size <= g.cap);
    g.impl = (BLArrayImpl*)mk_impl(&g.core, T, sizeof(BLArrayImpl) + g.cap * isz, g.shared, "impl");
    g.impl->capacity = g.cap; g.impl->size = g.size; g.impl->data = (uint8_t*)g.impl + sizeof(BLArrayImpl);
    g.snap = (const uint8_t*)vc_snapshot(g.impl) - sizeof(BLObjectImplHeader);
    g.b0 = g.snap + sizeof(BLObjectImplHeader) + sizeof(BLArrayImpl);
  }
  g.d0 = g.core._d; g.live0 = vc_live();
}
static inline uint8_t* bytes_of(BLArrayCore* c) { return c->_d.sso() ? c->_d.u8_data : (uint8_t*)((BLArrayImpl*)c->_d.impl)->data; }
static inline size_t size_of(const BLArrayCore* c) { return c->_d.sso() ? c->_d.a_field() : ((const BLArrayImpl*)c->_d.impl)->size; }
template<uint32_t T> static inline bool rep_ok(BLArrayCore* c) {
  if (c->_d.sso()) { VC_ASSERT((c->_d.info.bits & ~uint32_t(BL_OBJECT_INFO_A_MASK)) == (base_bits(T) | BLObjectInfo::from_abcp(0, Ty<T>::ssoc).bits)); VC_ASSERT(c->_d.a_field() <= Ty<T>::ssoc); return true; }
  VC_ASSERT(c->_d.info.bits == (base_bits(T) | BL_OBJECT_INFO_D_FLAG | BL_OBJECT_INFO_M_FLAG | BL_OBJECT_INFO_R_FLAG));
  BLArrayImpl* i = (BLArrayImpl*)c->_d.impl;
  VC_ASSERT(vc_is_live(i)); VC_ASSERT(i->data == (uint8_t*)i + sizeof(BLArrayImpl)); VC_ASSERT(i->size <= i->capacity); VC_ASSERT(refs_of(i) >= 1);
  VC_ASSERT(i->capacity <= (uint64_t(1) << 58)); VC_ASSERT(i->capacity * Ty<T>::isz <= impl_room(i) - sizeof(BLArrayImpl));
  return true;
}
// the other owner of a shared implementation sees nothing
static inline void check_share(const Ghost& g) {
  if (g.sso) { VC_ASSERT(vc_live() == g.live0 + (g.core._d.sso() ? 0 : 1)); return; }
  bool kept = !g.core._d.sso() && g.core._d.impl == g.impl;
  if (g.shared) {
    VC_ASSERT(vc_is_live(g.impl));
    VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count - (kept ? 0 : 1));
    size_t k = vc_nd_size("shk");
#ifdef VC_NATIVE
    k %= vc_objsize(g.snap);
#endif
    vc_assume(k >= 8 && k < vc_objsize(g.snap));
    VC_ASSERT(((const uint8_t*)g.impl)[int64_t(k) - 16] == g.snap[k]);
    VC_ASSERT(vc_live() == g.live0 + (kept || g.core._d.sso() ? 0 : 1));
  }
  else {
    VC_ASSERT(kept == vc_is_live(g.impl));
    VC_ASSERT(vc_live() == g.live0 - (g.core._d.sso() ? 1 : 0));
  }
  if (!kept && !g.core._d.sso()) VC_ASSERT(refs_of(g.core._d.impl) == 1);
}
static inline size_t pick(size_t n) {
#ifdef VC_NATIVE
  return n ? vc_in("k", 0, n - 1) : 0;
#else
  return vc_nd_size("k");
#endif
}
static inline void check_unchanged(Ghost& g) {
  VC_ASSERT(same_bits(g.core._d, g.d0)); VC_ASSERT(vc_live() == g.live0);
  if (!g.sso) { size_t k = vc_nd_size("uk");
#ifdef VC_NATIVE
    k %= vc_objsize(g.snap);
#endif
    vc_assume(k < vc_objsize(g.snap)); VC_ASSERT(((const uint8_t*)g.impl)[int64_t(k) - 16] == g.snap[k]); }
}
// item types under proof: 4 bytes (three in place), thorough also 1 (twelve in place), 6 (two in place, not a power of two) and 24 bytes (never in place)
#define MODES1(NAME, TN, TV, ...) \
  H void h_##NAME##_##TN##_sso()  { constexpr uint32_t T = TV; constexpr uint32_t isz = Ty<T>::isz; (void)isz; Ghost g; mk<T>(g, "a", 0); __VA_ARGS__ } \
  H void h_##NAME##_##TN##_heap() { constexpr uint32_t T = TV; constexpr uint32_t isz = Ty<T>::isz; (void)isz; Ghost g; mk<T>(g, "a", 1); __VA_ARGS__ } \
  H void h_##NAME##_##TN##_shared() { constexpr uint32_t T = TV; constexpr uint32_t isz = Ty<T>::isz; (void)isz; Ghost g; mk<T>(g, "a", 2); __VA_ARGS__ }
#define MODES(NAME, ...) MODES1(NAME, u32, BL_OBJECT_TYPE_ARRAY_UINT32, __VA_ARGS__) MODES1(NAME, s6, BL_OBJECT_TYPE_ARRAY_STRUCT_6, __VA_ARGS__) MODES1(NAME, s24, BL_OBJECT_TYPE_ARRAY_STRUCT_24, __VA_ARGS__) MODES1(NAME, u8, BL_OBJECT_TYPE_ARRAY_UINT8, __VA_ARGS__)
// post state: n items, byte k equal to `val` for every k < n * isz, representation valid, sharing respected
#define POST(N, VAL) do { size_t n_ = (N); VC_ASSERT(rep_ok<T>(&g.core)); VC_ASSERT(size_of(&g.core) == n_); check_share(g); size_t k = pick(n_ * isz); if (k < n_ * isz) VC_ASSERT(bytes_of(&g.core)[k] == uint8_t(VAL)); vc_cover("ok"); } while (0)
#define OLD(K) g.b0[K]
#define FAILED(R, E) do { VC_ASSERT((R) == BLResult(E)); check_unchanged(g); vc_cover("failed"); } while (0)
#define MAXCAP ((BL_OBJECT_IMPL_MAX_SIZE - sizeof(BLArrayImpl)) / isz)
// an error is only allowed when an allocation failed or the size is not representable; nothing changes then
#define OOM(R, N) do { VC_ASSERT((R) == BLResult(BL_ERROR_OUT_OF_MEMORY)); VC_ASSERT(vc_oom_flag != 0 || (N) > MAXCAP / 4); check_unchanged(g); } while (0)
