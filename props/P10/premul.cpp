#include "vc.h"
// conversion of a straight colour to the premultiplied colour the engine paints with: each channel rounded to the nearest of c*a/255
#include <blend2d/tables/tables.cpp>
#include <blend2d/pixelops/scalar_p.h>
using namespace bl;
static inline uint32_t ch(uint32_t c, uint32_t i) { return (c >> (i * 8)) & 255; }
static inline void chk(uint32_t c, uint32_t r, uint32_t i) { uint32_t n = ch(c, i) * (c >> 24), v = ch(r, i), e = v * 255 > n ? v * 255 - n : n - v * 255; VC_ASSERT(e <= 127); }
H void h_premul0() { uint32_t c = vc_nd_u32("rgba"); chk(c, PixelOps::Scalar::cvt_prgb32_8888_from_argb32_8888(c), 0); }
H void h_premul1() { uint32_t c = vc_nd_u32("rgba"); chk(c, PixelOps::Scalar::cvt_prgb32_8888_from_argb32_8888(c), 1); }
H void h_premul2() { uint32_t c = vc_nd_u32("rgba"); chk(c, PixelOps::Scalar::cvt_prgb32_8888_from_argb32_8888(c), 2); }
H void h_premul3() { uint32_t c = vc_nd_u32("rgba"); VC_ASSERT(ch(PixelOps::Scalar::cvt_prgb32_8888_from_argb32_8888(c), 3) == c >> 24); }
