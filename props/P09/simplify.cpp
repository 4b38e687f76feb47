// P09: replacing a compositing operator by its simplified form never changes the pixel (exact arithmetic, all premultiplied operands).
#include "vc.h"
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/compopinfo.cpp>
using namespace bl;
// A pixel channel and its alpha, as integers 0..255 standing for 0..1; results are scaled by 255.
struct Px { uint32_t c, a; };
// Separable blends whose colour formula is not polynomial: the colour is an arbitrary function of the four operands that leaves the destination alone when the source is transparent.
extern "C" uint32_t uf_blend(uint32_t op, uint32_t dc, uint32_t da, uint32_t sc, uint32_t sa)
#ifdef VC_NATIVE
{ return op * 7919u ^ dc * 31u ^ da * 131u ^ sc * 5003u ^ sa * 65599u; }
#else
;
#endif
static const uint32_t kOne = 255;
static inline uint32_t spec_min(uint32_t a, uint32_t b) { return a < b ? a : b; }
static inline Px spec_eval(CompOpExt op, Px d, Px s) {
  uint32_t nda = kOne - d.a, nsa = kOne - s.a, over = d.a * kOne + s.a * nda;
  switch (op) {
    case CompOpExt::kSrcOver:  return { s.c * kOne + d.c * nsa, s.a * kOne + d.a * nsa };
    case CompOpExt::kSrcCopy:  return { s.c * kOne, s.a * kOne };
    case CompOpExt::kSrcIn:    return { s.c * d.a, s.a * d.a };
    case CompOpExt::kSrcOut:   return { s.c * nda, s.a * nda };
    case CompOpExt::kSrcAtop:  return { s.c * d.a + d.c * nsa, d.a * kOne };
    case CompOpExt::kDstOver:  return { d.c * kOne + s.c * nda, d.a * kOne + s.a * nda };
    case CompOpExt::kDstCopy:  return { d.c * kOne, d.a * kOne };
    case CompOpExt::kDstIn:    return { d.c * s.a, d.a * s.a };
    case CompOpExt::kDstOut:   return { d.c * nsa, d.a * nsa };
    case CompOpExt::kDstAtop:  return { d.c * s.a + s.c * nda, s.a * kOne };
    case CompOpExt::kXor:      return { d.c * nsa + s.c * nda, d.a * nsa + s.a * nda };
    case CompOpExt::kClear:    return { 0, 0 };
    case CompOpExt::kPlus:     return { spec_min(d.c + s.c, kOne) * kOne, spec_min(d.a + s.a, kOne) * kOne };
    case CompOpExt::kMinus:    return { (d.c - spec_min(d.c, s.c)) * kOne, over };
    case CompOpExt::kModulate: return { d.c * s.c, d.a * s.a };
    case CompOpExt::kMultiply: return { d.c * (s.c + nsa) + s.c * nda, over };
    case CompOpExt::kScreen:   return { d.c * kOne + s.c * (kOne - d.c), over };
    case CompOpExt::kAlphaInv: return { nda * kOne, nda * kOne };
    default:                   return { (s.c | s.a) == 0 ? d.c * kOne : uf_blend(uint32_t(op), d.c, d.a, s.c, s.a), over };
  }
}
static inline void check(CompOpExt op, FormatExt df, FormatExt sf, Px d, Px s, uint32_t xs) {
  // What the operator means for these formats: no destination alpha = opaque; only alpha = colour not stored.
  Px d0 = d, s0 = s;
  if (df == FormatExt::kXRGB32) d0.a = kOne;
  if (sf == FormatExt::kXRGB32 || sf == FormatExt::kFRGB32) s0.a = kOne;
  if (sf == FormatExt::kZERO32) s0.c = s0.a = 0;
  Px want = spec_eval(op, d0, s0);
  // What the simplified operator does. The unused byte of an XRGB32 source is arbitrary (xs).
  CompOpSimplifyInfo i = comp_op_simplify_info(op, df, sf);
  if (i.solid_id() == CompOpSolidId::kAlwaysNop) {
    VC_ASSERT(i.data == CompOpSimplifyInfo::dst_copy().data);
    if (df != FormatExt::kA8) VC_ASSERT(want.c == d0.c * kOne);
    if (df != FormatExt::kXRGB32) VC_ASSERT(want.a == d0.a * kOne);
    return;
  }
  VC_ASSERT(i.comp_op() != CompOpExt::kDstCopy);
  Px s1 = s0, d1 = d0;
  if (sf == FormatExt::kXRGB32) s1.a = xs;
  if (i.src_format() == FormatExt::kXRGB32 || i.src_format() == FormatExt::kFRGB32) s1.a = kOne;
  if (i.src_format() == FormatExt::kZERO32) s1.c = s1.a = 0;
  if (i.solid_id() == CompOpSolidId::kTransparent) s1.c = s1.a = 0;
  if (i.solid_id() == CompOpSolidId::kOpaqueBlack) { s1.c = 0; s1.a = kOne; }
  if (i.solid_id() == CompOpSolidId::kOpaqueWhite) { s1.c = kOne; s1.a = kOne; }
  VC_ASSERT(i.dst_format() == FormatExt::kPRGB32 || i.dst_format() == df);
  VC_ASSERT(df != FormatExt::kA8 || i.dst_format() == FormatExt::kA8);
  Px got = spec_eval(i.comp_op(), d1, s1);
  if (df != FormatExt::kA8) VC_ASSERT(got.c == want.c);
  if (df != FormatExt::kXRGB32) VC_ASSERT(got.a == want.a);
}
static void all(CompOpExt op) {
  Px d, s; d.a = vc_nd_u8("Da"); d.c = vc_nd_u8("Dca"); s.a = vc_nd_u8("Sa"); s.c = vc_nd_u8("Sca"); uint32_t xs = vc_nd_u8("source X"); vc_assume((d.c <= d.a) & (s.c <= s.a));
  static const FormatExt DF[3] = {FormatExt::kPRGB32, FormatExt::kXRGB32, FormatExt::kA8}, SF[4] = {FormatExt::kPRGB32, FormatExt::kXRGB32, FormatExt::kFRGB32, FormatExt::kZERO32};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) check(op, DF[i], SF[j], d, s, xs);
  vc_cover("all format pairs");
}
#define OP(name) H void h_simplify_##name() { all(CompOpExt::k##name); }
OP(SrcOver) OP(SrcCopy) OP(SrcIn) OP(SrcOut) OP(SrcAtop) OP(DstOver) OP(DstCopy) OP(DstIn) OP(DstOut) OP(DstAtop) OP(Xor) OP(Clear) OP(Plus) OP(Minus) OP(Modulate) OP(Multiply) OP(Screen)
OP(Overlay) OP(Darken) OP(Lighten) OP(ColorDodge) OP(ColorBurn) OP(LinearBurn) OP(LinearLight) OP(PinLight) OP(HardLight) OP(SoftLight) OP(Difference) OP(Exclusion)
