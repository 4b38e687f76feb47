// P08: exact per-channel results of the composition operators of the portable pipeline, for every pixel and mask.
//@ opt merge=0 lanes=1
#include "vc.h"
#include <blend2d/core/api-build_p.h>
#include <blend2d/pipeline/reference/compopgeneric_p.h>
#include <blend2d/pipeline/reference/fillgeneric_p.h>
using namespace bl; using namespace bl::Pipeline; using namespace bl::Pipeline::Reference;
using P32 = Pixel::P32_A8R8G8B8; using P8 = Pixel::P8_Alpha;
// q is THE correctly rounded value of x/255 (255 is odd: there are no ties).
static bool spec_round255(uint32_t q, uint32_t x) { return 2u * 255u * q + 255u > 2u * x && 2u * 255u * q < 2u * x + 255u; }
static uint32_t spec_ch(uint32_t p, uint32_t i) { return (p >> (8 * i)) & 0xFFu; }
static bool spec_premul(uint32_t p) { uint32_t a = p >> 24; return spec_ch(p, 0) <= a && spec_ch(p, 1) <= a && spec_ch(p, 2) <= a; }
// callee contract of the rounding division, used as the definition of "x/255" in the operator contracts
static uint32_t spec_div255(uint32_t x) { return (x + 128u + ((x + 128u) >> 8)) >> 8; }
H void h_div255() { uint32_t x = uint32_t(vc_in("x", 0, 255 * 255)); VC_ASSERT(spec_round255(spec_div255(x), x)); VC_ASSERT(PixelOps::Scalar::udiv255(x) == spec_div255(x)); vc_cover("ok"); }
H void h_neg255() { uint32_t x = uint32_t(vc_in("x", 0, 255)); VC_ASSERT(PixelOps::Scalar::neg255(x) == 255u - x); }
// monotonicity and identity lemmas of the rounding division
H void h_div255_mono() { uint32_t x = uint32_t(vc_in("x", 0, 255 * 255)), y = uint32_t(vc_in("y", 0, 255 * 255)); vc_assume(x <= y); VC_ASSERT(spec_div255(x) <= spec_div255(y)); }
H void h_div255_id() { uint32_t x = uint32_t(vc_in("x", 0, 255)); VC_ASSERT(spec_div255(x * 255u) == x); VC_ASSERT(spec_div255(x * (255u - 0u)) + spec_div255(x * 0u) == x); }
H void h_div255_split() { uint32_t x = vc_nd_u8("x"), m = vc_nd_u8("m"); VC_ASSERT(spec_div255(x * m) <= x && spec_div255(x * m) <= m); }

#define IN32 P32 d{vc_nd_u32("d")}, s{vc_nd_u32("s")}; uint32_t sa = s.p >> 24; bl_unused(sa);
#define ALL(R, X) for (uint32_t i = 0; i < 4; i++) { uint32_t dc = spec_ch(d.p, i), sc = spec_ch(s.p, i); bl_unused(dc, sc); VC_ASSERT(spec_ch(R, i) == (X)); }
#define INM uint32_t m = vc_nd_u8("m");
H void h_unpack_pack() { P32 p{vc_nd_u32("p")}; VC_ASSERT(p.unpack().pack().p == p.p); VC_ASSERT(p.a() == p.p >> 24 && p.r() == spec_ch(p.p, 2) && p.g() == spec_ch(p.p, 1) && p.b() == spec_ch(p.p, 0)); auto u = p.unpack(); VC_ASSERT(u.a() == p.a() && u.r() == p.r() && u.g() == p.g() && u.b() == p.b()); }
H void h_copy_32() { IN32 VC_ASSERT(CompOp_SrcCopy_Op<P32>::op_prgb32_prgb32(d, s).p == s.p); }
H void h_copy_m_32() { IN32 INM uint32_t r = CompOp_SrcCopy_Op<P32>::op_prgb32_prgb32(d, s, m).p; ALL(r, spec_div255(dc * (255u - m) + sc * m)) vc_cover("ok"); }
H void h_copy_m_32_ends() { IN32 VC_ASSERT(CompOp_SrcCopy_Op<P32>::op_prgb32_prgb32(d, s, 0).p == d.p); VC_ASSERT(CompOp_SrcCopy_Op<P32>::op_prgb32_prgb32(d, s, 255).p == s.p); }
H void h_over_32() { IN32 vc_assume(spec_premul(s.p)); uint32_t r = CompOp_SrcOver_Op<P32>::op_prgb32_prgb32(d, s).p; ALL(r, sc + spec_div255(dc * (255u - sa))) vc_cover("ok"); }
H void h_over_32_ends() { IN32 if (s.p == 0) VC_ASSERT(CompOp_SrcOver_Op<P32>::op_prgb32_prgb32(d, s).p == d.p); if (sa == 255) VC_ASSERT(CompOp_SrcOver_Op<P32>::op_prgb32_prgb32(d, s).p == s.p); }
H void h_scale_32() { P32 s{vc_nd_u32("s")}; INM uint32_t r = (s.unpack() * Pixel::Repeat{m}).div255().pack().p; for (uint32_t i = 0; i < 4; i++) VC_ASSERT(spec_ch(r, i) == spec_div255(spec_ch(s.p, i) * m)); }
// masked SRC_OVER is SRC_OVER of the source scaled by the mask (which stays premultiplied: h_lemma_mask_premul)
H void h_over_m_32() { IN32 INM P32 t{0}; for (uint32_t i = 0; i < 4; i++) t.p |= spec_div255(spec_ch(s.p, i) * m) << (8 * i); VC_ASSERT(CompOp_SrcOver_Op<P32>::op_prgb32_prgb32(d, s, m).p == CompOp_SrcOver_Op<P32>::op_prgb32_prgb32(d, t).p); vc_cover("ok"); }
static uint32_t spec_adds(uint32_t a, uint32_t b) { return a + b > 255u ? 255u : a + b; }
H void h_plus_32() { IN32 ALL(CompOp_Plus_Op<P32>::op_prgb32_prgb32(d, s).p, spec_adds(dc, sc)) }
H void h_plus_m_32() { IN32 INM ALL(CompOp_Plus_Op<P32>::op_prgb32_prgb32(d, s, m).p, spec_adds(dc, spec_div255(sc * m))) }
#define IN8 P8 d{vc_nd_u8("d")}, s{vc_nd_u8("s")}; uint32_t dc = d.p, sc = s.p, sa = s.p; bl_unused(dc, sc, sa);
H void h_copy_8() { IN8 INM VC_ASSERT(CompOp_SrcCopy_Op<P8>::op_prgb32_prgb32(d, s).p == s.p); VC_ASSERT(CompOp_SrcCopy_Op<P8>::op_prgb32_prgb32(d, s, m).p == spec_div255(dc * (255u - m) + sc * m)); }
H void h_over_8() { IN8 VC_ASSERT(CompOp_SrcOver_Op<P8>::op_prgb32_prgb32(d, s).p == sc + spec_div255(dc * (255u - sa))); }
H void h_over_m_8() { IN8 INM uint32_t sm = spec_div255(sc * m); VC_ASSERT(CompOp_SrcOver_Op<P8>::op_prgb32_prgb32(d, s, m).p == sm + spec_div255(dc * (255u - sm))); }
H void h_plus_8() { IN8 VC_ASSERT(CompOp_Plus_Op<P8>::op_prgb32_prgb32(d, s).p == spec_adds(dc, sc)); }
H void h_plus_m_8() { IN8 INM VC_ASSERT(CompOp_Plus_Op<P8>::op_prgb32_prgb32(d, s, m).p == spec_adds(dc, spec_div255(sc * m))); }
H void h_mul256_div() { P32 p{vc_nd_u32("p")}; uint32_t m = uint32_t(vc_in("m", 0, 256)); for (uint32_t i = 0; i < 4; i++) VC_ASSERT(spec_ch((p.unpack() * Pixel::Repeat{m}).div256().pack().p, i) == (spec_ch(p.p, i) * m) >> 8); }
H void h_cmul() { P32 p{vc_nd_u32("p")}, q{vc_nd_u32("q")}; for (uint32_t i = 0; i < 4; i++) VC_ASSERT(spec_ch((p.unpack() * q.unpack()).div255().pack().p, i) == spec_div255(spec_ch(p.p, i) * spec_ch(q.p, i))); }
// pixel load/store conversions
H void h_io() { uint32_t* p = (uint32_t*)vc_alloc(4, "p"); uint32_t v = *p; uint8_t* b = (uint8_t*)vc_alloc(1, "b"); uint8_t bv = *b;
  VC_ASSERT((PixelIO<P32, FormatExt::kPRGB32>::fetch(p).p == v)); VC_ASSERT((PixelIO<P32, FormatExt::kFRGB32>::fetch(p).p == v)); VC_ASSERT((PixelIO<P32, FormatExt::kXRGB32>::fetch(p).p == (v | 0xFF000000u)));
  VC_ASSERT((PixelIO<P32, FormatExt::kA8>::fetch(b).p == uint32_t(bv) * 0x01010101u)); VC_ASSERT((PixelIO<P8, FormatExt::kPRGB32>::fetch(p).p == v >> 24)); VC_ASSERT((PixelIO<P8, FormatExt::kXRGB32>::fetch(p).p == 255)); VC_ASSERT((PixelIO<P8, FormatExt::kA8>::fetch(b).p == bv));
  P32 q{vc_nd_u32("q")}; PixelIO<P32, FormatExt::kA8>::store(b, q); VC_ASSERT(*b == q.p >> 24); PixelIO<P32, FormatExt::kPRGB32>::store(p, q); VC_ASSERT(*p == q.p); P8 c{vc_nd_u8("c")}; PixelIO<P8, FormatExt::kA8>::store(b, c); VC_ASSERT(*b == c.p); }
H void h_io_make() { uint32_t r = vc_nd_u8("r"), g = vc_nd_u8("g"), b = vc_nd_u8("b"), a = vc_nd_u8("a"); VC_ASSERT((PixelIO<P32, FormatExt::kPRGB32>::make(r, g, b, a).p == ((a << 24) | (r << 16) | (g << 8) | b))); VC_ASSERT((PixelIO<P32, FormatExt::kXRGB32>::make(r, g, b, a).p == ((255u << 24) | (r << 16) | (g << 8) | b))); VC_ASSERT((PixelIO<P8, FormatExt::kPRGB32>::make(r, g, b, a).p == a)); }
// coverage accumulator -> mask: |clamp| for non-zero, triangle wave for even-odd
typedef FillAnalytic_Base<CompOp_Base<CompOp_SrcOver_Op<P32>, P32, FetchSolid<P32>, 4>> FA;
H void h_calc_mask_nonzero() { int32_t c = int32_t(vc_nd_u32("c")); uint32_t ga = uint32_t(vc_in("ga", 0, 255)); vc_assume(c >= -(1 << 29) && c < (1 << 29)); uint32_t cov = uint32_t(c) + (256u << 9); int64_t t = c >> 9; uint64_t m = uint64_t(t < 0 ? -t : t); if (m > 256) m = 256; VC_ASSERT(FA::calc_mask(cov, 0xFFFFFFFFu, ga) == (uint32_t(m) * ga) >> 8); VC_ASSERT(FA::calc_mask(cov, 0xFFFFFFFFu, ga) <= ga); vc_cover("ok"); }
H void h_calc_mask_evenodd() { int32_t c = int32_t(vc_nd_u32("c")); uint32_t ga = uint32_t(vc_in("ga", 0, 255)); vc_assume(c >= -(1 << 29) && c < (1 << 29)); uint32_t cov = uint32_t(c) + (256u << 9); int32_t t = (c >> 9) & 511; uint32_t m = uint32_t(t > 256 ? 512 - t : t); VC_ASSERT(FA::calc_mask(cov, 0x1FFu, ga) == (m * ga) >> 8); VC_ASSERT(FA::calc_mask(cov, 0x1FFu, ga) <= ga); vc_cover("ok"); }

// Lemmas over the formulas above: premultiplied operands give a premultiplied result, no channel can exceed 255, a mask of 0 leaves the destination, a mask of 255 is the unmasked operator.
#define BYTE(X) uint32_t X = vc_nd_u8(#X)
#define MONO(X, Y, K) (!((X) <= (Y)) || (spec_div255((X) * (K)) <= spec_div255((Y) * (K)) && spec_div255((X) * (K)) <= (X) && spec_div255((Y) * (K)) <= (Y) && (X) * (K) <= (Y) * (K)))
H void h_lemma_mul() { BYTE(x); BYTE(y); BYTE(k); vc_assume(x <= y); VC_ASSERT(x * k <= y * k); VC_ASSERT(x * k <= x * 255u); VC_ASSERT(y * k <= y * 255u); }
H void h_lemma_mono() { BYTE(x); BYTE(y); BYTE(k); vc_assume(x <= y); uint32_t a = x * k, b = y * k; vc_assume(a <= b && a <= x * 255u && b <= y * 255u); VC_ASSERT(MONO(x, y, k)); vc_cover("ok"); }
H void h_lemma_over_premul() { BYTE(dc); BYTE(da); BYTE(sc); BYTE(sa); vc_assume(dc <= da && sc <= sa); uint32_t k = 255u - sa; vc_assume(MONO(dc, da, k)); vc_assume(spec_div255(da * k) <= k); VC_ASSERT(sc + spec_div255(dc * k) <= sa + spec_div255(da * k)); VC_ASSERT(sa + spec_div255(da * k) <= 255u); vc_cover("ok"); }
H void h_lemma_le() { BYTE(x); BYTE(k); VC_ASSERT(spec_div255(x * k) <= k && spec_div255(x * k) <= x); VC_ASSERT(spec_div255(x * 255u) == x && spec_div255(x * 0u) == 0); }
H void h_lemma_mask_premul() { BYTE(sc); BYTE(sa); BYTE(m); vc_assume(sc <= sa); vc_assume(MONO(sc, sa, m)); VC_ASSERT(spec_div255(sc * m) <= spec_div255(sa * m)); }
H void h_lemma_copy_premul() { BYTE(dc); BYTE(da); BYTE(sc); BYTE(sa); BYTE(m); uint32_t k = 255u - m; vc_assume(dc <= da && sc <= sa); vc_assume(MONO(dc, da, k) && MONO(sc, sa, m)); uint32_t x = dc * k + sc * m, y = da * k + sa * m; vc_assume(y <= 255u * 255u); VC_ASSERT(x <= y); VC_ASSERT(spec_div255(x) <= spec_div255(y)); }
H void h_lemma_convex() { BYTE(da); BYTE(sa); BYTE(m); VC_ASSERT(da * (255u - m) + sa * m <= 255u * 255u); }
