// P08: span and box fills of the portable pipeline touch exactly the requested pixels, each exactly once, with the operator's result.
//@ opt merge=0 lanes=1
#include "vc.h"
#include <blend2d/core/api-build_p.h>
#include <blend2d/pipeline/reference/compopgeneric_p.h>
#include <blend2d/pipeline/reference/fillgeneric_p.h>
using namespace bl; using namespace bl::Pipeline; using namespace bl::Pipeline::Reference;
using P32 = Pixel::P32_A8R8G8B8; using P8 = Pixel::P8_Alpha;
//@ inv CompOp_Base<.*compositeCSpanOpaque 0 inv_copaque
//@ inv CompOp_Base<.*compositeCSpanMasked 0 inv_cmasked
//@ inv CompOp_Base<.*compositeVSpanWithGA 0 inv_vga
//@ inv CompOp_Base<.*compositeVSpanWithoutGA 0 inv_vnoga
template<typename P, typename O, uint32_t B> using CO = CompOp_Base<O, P, FetchSolid<P>, B>;
typedef CO<P32, CompOp_SrcOver_Op<P32>, 4> Over32; typedef CO<P32, CompOp_SrcCopy_Op<P32>, 4> Copy32; typedef CO<P32, CompOp_Plus_Op<P32>, 4> Plus32;
typedef CO<P8, CompOp_SrcOver_Op<P8>, 1> Over8; typedef CO<P8, CompOp_SrcCopy_Op<P8>, 1> Copy8; typedef CO<P8, CompOp_Plus_Op<P8>, 1> Plus8;

static uint8_t* vcg_base; static uint8_t* vcg_old; static size_t vcg_off, vcg_w, vcg_k, vcg_n; static uint32_t vcg_bpp, vcg_want, vcg_was;
static const uint8_t* vcg_mask; 
static uint32_t spec_px(const uint8_t* p) { return vcg_bpp == 4 ? *(const uint32_t*)p : *p; }
static void spec_span(uint8_t* dst_ptr, size_t w, size_t i) {
  size_t done = w - i;
  vc_inv(w == vcg_w && i >= 1 && i <= w && dst_ptr == vcg_base + vcg_off + done * vcg_bpp);
  vc_inv(spec_px(vcg_base + vcg_off + vcg_k * vcg_bpp) == (vcg_k < done ? vcg_want : vcg_was));
  // bytes outside the span are untouched (vcg_n: arbitrary byte outside)
  vc_inv(vcg_base[vcg_n] == vcg_old[vcg_n]);
}
extern "C" void inv_copaque(uint8_t* dst_ptr, size_t w, size_t i) { spec_span(dst_ptr, w, i); }
extern "C" void inv_cmasked(uint8_t* dst_ptr, size_t w, size_t i) { spec_span(dst_ptr, w, i); }
extern "C" void inv_vga(uint8_t* dst_ptr, const uint8_t* mask_ptr, size_t w, size_t i) { spec_span(dst_ptr, w, i); vc_inv(mask_ptr == vcg_mask + (w - i)); }
extern "C" void inv_vnoga(uint8_t* dst_ptr, const uint8_t* mask_ptr, size_t w, size_t i) { spec_span(dst_ptr, w, i); vc_inv(mask_ptr == vcg_mask + (w - i)); }
#ifdef VC_NATIVE
#define WMAX 40
#else
#define WMAX (1u << 27)
#endif
// The operators are opaque here: their results are specified in ops.cpp.  (The same opaque function stands for the code's and the specification's operator.)
extern "C" VC_NOINLINE VC_USED uint64_t uf_op(uint64_t kind, uint64_t d, uint64_t s, uint64_t m) {
  switch (kind) { case 0: return CompOp_SrcOver_Op<P32>::op_prgb32_prgb32(P32{uint32_t(d)}, P32{uint32_t(s)}).p; case 1: return CompOp_SrcOver_Op<P32>::op_prgb32_prgb32(P32{uint32_t(d)}, P32{uint32_t(s)}, uint32_t(m)).p;
    case 3: return CompOp_SrcCopy_Op<P32>::op_prgb32_prgb32(P32{uint32_t(d)}, P32{uint32_t(s)}, uint32_t(m)).p; case 5: return CompOp_Plus_Op<P32>::op_prgb32_prgb32(P32{uint32_t(d)}, P32{uint32_t(s)}, uint32_t(m)).p; case 4: return CompOp_Plus_Op<P32>::op_prgb32_prgb32(P32{uint32_t(d)}, P32{uint32_t(s)}).p;
    case 6: return CompOp_SrcOver_Op<P8>::op_prgb32_prgb32(P8{uint8_t(d)}, P8{uint8_t(s)}).p; case 7: return CompOp_SrcOver_Op<P8>::op_prgb32_prgb32(P8{uint8_t(d)}, P8{uint8_t(s)}, uint32_t(m)).p; case 9: return CompOp_SrcCopy_Op<P8>::op_prgb32_prgb32(P8{uint8_t(d)}, P8{uint8_t(s)}, uint32_t(m)).p; }
  return PixelOps::Scalar::udiv255(uint32_t(d)); }
extern "C" P32 ct_over32(P32 d, P32 s) { return P32{uint32_t(uf_op(0, d.p, s.p, 0))}; }
extern "C" P32 ct_over32m(P32 d, P32 s, uint32_t m) { vc_assert(m <= 255, "mask range"); return P32{uint32_t(uf_op(1, d.p, s.p, m))}; }
extern "C" P32 ct_copy32m(P32 d, P32 s, uint32_t m) { vc_assert(m <= 255, "mask range"); return P32{uint32_t(uf_op(3, d.p, s.p, m))}; }
extern "C" P32 ct_plus32(P32 d, P32 s) { return P32{uint32_t(uf_op(4, d.p, s.p, 0))}; }
extern "C" P32 ct_plus32m(P32 d, P32 s, uint32_t m) { vc_assert(m <= 255, "mask range"); return P32{uint32_t(uf_op(5, d.p, s.p, m))}; }
extern "C" P8 ct_over8(P8 d, P8 s) { return P8{uint8_t(uf_op(6, d.p, s.p, 0))}; }
extern "C" P8 ct_over8m(P8 d, P8 s, uint32_t m) { vc_assert(m <= 255, "mask range"); return P8{uint8_t(uf_op(7, d.p, s.p, m))}; }
extern "C" P8 ct_copy8m(P8 d, P8 s, uint32_t m) { vc_assert(m <= 255, "mask range"); return P8{uint8_t(uf_op(9, d.p, s.p, m))}; }
extern "C" uint32_t ct_udiv255(uint32_t x) { vc_assert(x <= 255 * 255, "udiv255 range"); uint32_t r = uint32_t(uf_op(100, x, 0, 0)); vc_assume(r <= 255); return r; }
template<typename P> static P pxof(uint32_t v) { P p; p.p = decltype(p.p)(v); return p; }
//@ contract CompOp_SrcOver_Op<.*P32_8888.*>::op_prgb32_prgb32\(.*>\)$ ct_over32
//@ contract CompOp_SrcOver_Op<.*P32_8888.*>::op_prgb32_prgb32\(.*int\)$ ct_over32m
//@ contract CompOp_SrcCopy_Op<.*P32_8888.*>::op_prgb32_prgb32\(.*int\)$ ct_copy32m
//@ contract CompOp_Plus_Op<.*P32_8888.*>::op_prgb32_prgb32\(.*>\)$ ct_plus32
//@ contract CompOp_Plus_Op<.*P32_8888.*>::op_prgb32_prgb32\(.*int\)$ ct_plus32m
//@ contract CompOp_SrcOver_Op<.*P8_Alpha>::op_prgb32_prgb32\(.*Alpha\)$ ct_over8
//@ contract CompOp_SrcOver_Op<.*P8_Alpha>::op_prgb32_prgb32\(.*int\)$ ct_over8m
//@ contract CompOp_SrcCopy_Op<.*P8_Alpha>::op_prgb32_prgb32\(.*int\)$ ct_copy8m
//@ contract Scalar::udiv255 ct_udiv255
template<typename C, typename P, uint32_t B> static void setup(C& c, uint32_t& src) {
  vcg_bpp = B; vcg_w = vc_in("w", 1, WMAX); size_t pre = vc_in("pre", 0, 64), post = vc_in("post", 0, 64); vcg_off = pre * B;
  size_t n = (pre + vcg_w + post) * B; vcg_base = (uint8_t*)vc_alloc(n, "dst"); vcg_old = (uint8_t*)vc_snapshot(vcg_base);
  vcg_k = vc_in("k", 0, vcg_w - 1); vcg_n = vc_in("n", 0, n); vc_assume(vcg_n < vcg_off || (vcg_n >= vcg_off + vcg_w * B && vcg_n < n));
  if (pre + post == 0) vcg_n = vcg_off; // no byte outside: excluded by the assumption above
  src = B == 4 ? vc_nd_u32("src") : vc_nd_u8("src"); c.fetch_op._src = pxof<P>(src); vcg_was = spec_px(vcg_base + vcg_off + vcg_k * B);
}
#define SPANS(NAME, C, P, O, B) \
  H void h_opaque_##NAME() { C c; uint32_t s; setup<C, P, B>(c, s); vcg_want = O<P>::op_prgb32_prgb32(pxof<P>(vcg_was), pxof<P>(s)).p; uint8_t* e = c.compositeCSpanOpaque(vcg_base + vcg_off, vcg_w); DONE } \
  H void h_masked_##NAME() { C c; uint32_t s, m = vc_nd_u8("m"); setup<C, P, B>(c, s); vcg_want = O<P>::op_prgb32_prgb32(pxof<P>(vcg_was), pxof<P>(s), m).p; uint8_t* e = c.compositeCSpanMasked(vcg_base + vcg_off, vcg_w, m); DONE } \
  H void h_cspan_##NAME() { C c; uint32_t s, m = vc_nd_u8("m"); setup<C, P, B>(c, s); vcg_want = C::kOptimizeOpaque && m == 255 ? O<P>::op_prgb32_prgb32(pxof<P>(vcg_was), pxof<P>(s)).p : O<P>::op_prgb32_prgb32(pxof<P>(vcg_was), pxof<P>(s), m).p; uint8_t* e = c.compositeCSpan(vcg_base + vcg_off, vcg_w, m); DONE } \
  H void h_vspan_ga_##NAME() { C c; uint32_t s; setup<C, P, B>(c, s); vcg_mask = (uint8_t*)vc_alloc_ro(vcg_w, "mask"); vcg_want = O<P>::op_prgb32_prgb32(pxof<P>(vcg_was), pxof<P>(s), vcg_mask[vcg_k]).p; uint8_t* e = c.compositeVSpanWithGA(vcg_base + vcg_off, vcg_mask, vcg_w); DONE } \
  H void h_vspan_noga_##NAME() { C c; uint32_t s, ga = vc_nd_u8("ga"); setup<C, P, B>(c, s); vcg_mask = (uint8_t*)vc_alloc_ro(vcg_w, "mask"); vcg_want = O<P>::op_prgb32_prgb32(pxof<P>(vcg_was), pxof<P>(s), PixelOps::Scalar::udiv255(vcg_mask[vcg_k] * ga)).p; uint8_t* e = c.compositeVSpanWithoutGA(vcg_base + vcg_off, vcg_mask, ga, vcg_w); DONE }
#define DONE VC_ASSERT(e == vcg_base + vcg_off + vcg_w * vcg_bpp); VC_ASSERT(spec_px(vcg_base + vcg_off + vcg_k * vcg_bpp) == vcg_want); VC_ASSERT(vcg_base[vcg_n] == vcg_old[vcg_n]); vc_cover("ok");
SPANS(over32, Over32, P32, CompOp_SrcOver_Op, 4)
SPANS(copy32, Copy32, P32, CompOp_SrcCopy_Op, 4)
SPANS(plus32, Plus32, P32, CompOp_Plus_Op, 4)
SPANS(over8, Over8, P8, CompOp_SrcOver_Op, 1)
SPANS(copy8, Copy8, P8, CompOp_SrcCopy_Op, 1)
