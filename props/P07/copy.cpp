//@ opt merge=0
//@ inv GradientInternal::copy_stops\( 0 inv_copy_stops
#include "gr.inc"
static BLGradientStop* cd; static const BLGradientStop* cs; static const BLGradientStop* cd0; static size_t cn, ck;
static inline bool eqs(const BLGradientStop& a, const BLGradientStop& b) { return deq(a.offset, b.offset) & (a.rgba.value == b.rgba.value); }
extern "C" void inv_copy_stops(const void* dst, const void* src, size_t n, size_t i) { vc_inv(i <= n); vc_inv(ck < i ? eqs(cd[ck], cs[ck]) : eqs(cd[ck], cd0[ck])); }
H void h_copy_stops() { cn = vc_in("n", 0, 1u << 20); size_t tail = vc_in("tail", 1, 9); size_t len = (cn + tail) * sizeof(BLGradientStop); cd = (BLGradientStop*)vc_alloc(len, "dst"); cd0 = (const BLGradientStop*)vc_snapshot(cd); cs = (const BLGradientStop*)vc_alloc_ro(len, "src");
  ck = vc_in("k", 0, 1u << 21);
#ifdef VC_NATIVE
  ck %= cn + tail;
#endif
  vc_assume(ck < cn + tail); size_t r = copy_stops(cd, cs, cn); VC_ASSERT(r == cn); VC_ASSERT(ck < cn ? eqs(cd[ck], cs[ck]) : eqs(cd[ck], cd0[ck])); vc_cover("end"); }
