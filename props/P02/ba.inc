#include "vc.h"
// every bit array operation against the abstract sequence of bits, for every representation (small, heap, shared).
#include "../common/object.inc"
#include <blend2d/core/bitarray.cpp>
using namespace bl;
extern "C" void ct_copy32(uint32_t* dst, const uint32_t* src, size_t count) { ct_copy_t(dst, src, count); }
extern "C" void ct_fill32(uint32_t* dst, const uint32_t& pattern, size_t count) { ct_fill0_t(dst, pattern, count); }

struct Ghost { BLBitArrayCore core; BLObjectDetail d0; BLBitArrayImpl* impl; const uint32_t* w0; const uint8_t* snap; size_t size; bool sso, shared; size_t live0; };
static inline uint32_t spec_bit(const uint32_t* w, size_t i) { return (w[i >> 5] >> (31 - (i & 31))) & 1u; }
static inline uint32_t* words_of(BLBitArrayCore* c) { return c->_d.sso() ? c->_d.u32_data : ((BLBitArrayImpl*)c->_d.impl)->data(); }
static inline size_t size_of(const BLBitArrayCore* c) { return c->_d.sso() ? c->_d.p_field() : ((BLBitArrayImpl*)c->_d.impl)->size; }
#ifdef VC_NATIVE
#define WMAX 12
#define BMAX 420
#else
#define WMAX (1u << 27)
#define BMAX 0xFFFFFFFFu
#endif
// rep invariant: unused bits of the last word are zero; small arrays have every unused bit zero; capacity matches the allocation
static inline bool tail_ok(const uint32_t* w, size_t size) { return (size & 31) == 0 || (w[size >> 5] << (size & 31)) == 0; }
static inline bool spec_sso_ok(const uint32_t* w, size_t size) {
  if (size > 96) return false;
  uint32_t bad = 0;
  for (uint32_t i = 0; i < 3; i++) { uint32_t b = i * 32; uint32_t keep = size >= b + 32 ? 0xFFFFFFFFu : size <= b ? 0u : ~(0xFFFFFFFFu >> ((size - b) & 31)); bad |= w[i] & ~keep; }
  return bad == 0;
}
static inline void mk(Ghost& g, const char* l, int mode) {
  g.sso = mode == 0; g.shared = mode == 2;
  if (g.sso) {
    g.size = vc_in("size", 0, 96); g.impl = nullptr;
    g.core._d.init_static(BLObjectInfo::from_type_with_marker(BL_OBJECT_TYPE_BIT_ARRAY) | BLObjectInfo::from_abcp(0, 0, 0, uint32_t(g.size)));
    uint32_t* s = (uint32_t*)vc_alloc(12, "words");
    for (int i = 0; i < 3; i++) { if (size_t(i) * 32 >= g.size) s[i] = 0; else if (g.size - i * 32 < 32) s[i] &= ~(0xFFFFFFFFu >> (g.size - i * 32)); g.core._d.u32_data[i] = s[i]; }
    g.w0 = (const uint32_t*)vc_snapshot(s); g.snap = nullptr;
  }
  else {
    size_t W = vc_in("capwords", 0, WMAX);
    size_t cap = W * 32 > 0xFFFFFFFFu ? 0xFFFFFFFFu : W * 32;
    g.size = vc_in("size", 0, BMAX); 
#ifdef VC_NATIVE
    if (g.size > cap) g.size = cap;
#endif
    vc_assume(g.size <= cap);
    g.impl = (BLBitArrayImpl*)mk_impl(&g.core, BL_OBJECT_TYPE_BIT_ARRAY, sizeof(BLBitArrayImpl) + W * 4, g.shared, "impl");
    g.impl->capacity = uint32_t(cap); g.impl->size = uint32_t(g.size);
    uint32_t* w = g.impl->data();
#ifdef VC_NATIVE
    if (g.size & 31) w[g.size >> 5] &= ~(0xFFFFFFFFu >> (g.size & 31));
#endif
    vc_assume(tail_ok(w, g.size));
    g.snap = (const uint8_t*)vc_snapshot(g.impl) - sizeof(BLObjectImplHeader);   // whole object including the header
    g.w0 = (const uint32_t*)(g.snap + sizeof(BLObjectImplHeader) + sizeof(BLBitArrayImpl));
  }
  g.d0 = g.core._d; g.live0 = vc_live();
}
static inline uint32_t spec_old_bit(const Ghost& g, size_t i) { return spec_bit(g.w0, i); }
static inline bool rep_ok(BLBitArrayCore* c) {
  if ((c->_d.info.bits & ~uint32_t(BL_OBJECT_INFO_P_MASK)) != ((BLObjectInfo::from_type_with_marker(BL_OBJECT_TYPE_BIT_ARRAY).bits | (c->_d.sso() ? 0u : uint32_t(BL_OBJECT_INFO_D_FLAG | BL_OBJECT_INFO_M_FLAG | BL_OBJECT_INFO_R_FLAG))))) return false;
  if (c->_d.sso()) return spec_sso_ok(c->_d.u32_data, c->_d.p_field());
  BLBitArrayImpl* i = (BLBitArrayImpl*)c->_d.impl;
  if (!(vc_is_live(i) && i->size <= i->capacity && (size_t(i->capacity) + 31) / 32 * 4 + sizeof(BLBitArrayImpl) <= impl_room(i))) return false;
  return (refs_of(i) >= 1) & tail_ok(i->data(), i->size);
}
// the other owner of a shared implementation sees nothing
static inline void check_share(const Ghost& g) {
  if (g.sso) { VC_ASSERT(vc_live() == g.live0 + (g.core._d.sso() ? 0 : 1)); return; }
  bool kept = !g.core._d.sso() && g.core._d.impl == g.impl;
  if (g.shared) {
    VC_ASSERT(vc_is_live(g.impl));
    VC_ASSERT(refs_of(g.impl) == ((const BLObjectImplHeader*)g.snap)->ref_count - (kept ? 0 : 1));
    size_t k = vc_nd_size("shk"); 
#ifdef VC_NATIVE
    k %= vc_objsize(g.snap);
#endif
    vc_assume(k >= 8 && k < vc_objsize(g.snap));
    VC_ASSERT(((const uint8_t*)g.impl)[int64_t(k) - 16] == g.snap[k]);
    VC_ASSERT(vc_live() == g.live0 + (kept || g.core._d.sso() ? 0 : 1));
  }
  else {
    VC_ASSERT(kept == vc_is_live(g.impl));
    VC_ASSERT(vc_live() == g.live0 - (g.core._d.sso() ? 1 : 0));
  }
  if (!kept && !g.core._d.sso()) VC_ASSERT(refs_of(g.core._d.impl) == 1);
}
static inline size_t pick(size_t n) {
#ifdef VC_NATIVE
  return n ? vc_in("k", 0, n - 1) : 0;
#else
  size_t k = vc_in("k", 0, 0xFFFFFFFFu); return k;
#endif
}
static inline void check_unchanged(Ghost& g) {
  VC_ASSERT(same_bits(g.core._d, g.d0)); VC_ASSERT(vc_live() == g.live0);
  if (!g.sso) { size_t k = vc_nd_size("uk");
#ifdef VC_NATIVE
    k %= vc_objsize(g.snap);
#endif
    vc_assume(k < vc_objsize(g.snap)); VC_ASSERT(((const uint8_t*)g.impl)[int64_t(k) - 16] == g.snap[k]); }
}
#define MODES(NAME, ...) \
  H void h_##NAME##_sso()  { Ghost g; mk(g, "a", 0); __VA_ARGS__ } \
  H void h_##NAME##_heap() { Ghost g; mk(g, "a", 1); __VA_ARGS__ } \
  H void h_##NAME##_shared() { Ghost g; mk(g, "a", 2); __VA_ARGS__ }
// post state: size n, bit k equal to `val` for every k < n, representation valid, sharing respected
#define POST(N, VAL) do { size_t n_ = (N); VC_ASSERT(rep_ok(&g.core)); VC_ASSERT(size_of(&g.core) == n_); check_share(g); size_t k = pick(n_); if (k < n_) VC_ASSERT(spec_bit(words_of(&g.core), k) == uint32_t(VAL)); vc_cover("ok"); } while (0)
#define FAILED(R, E) do { VC_ASSERT((R) == BLResult(E)); check_unchanged(g); if (!g.sso) vc_cover("failed"); } while (0)
// an error is only allowed when an allocation failed (or the size is not representable)
#define OOM(R) do { VC_ASSERT((R) == BLResult(BL_ERROR_OUT_OF_MEMORY)); VC_ASSERT(vc_oom_flag != 0); check_unchanged(g); } while (0)

