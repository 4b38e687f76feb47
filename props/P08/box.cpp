// P08: a box fill calls the span compositor once per row, top to bottom, at exactly the left edge of the row, with the box width and the fill alpha.
//@ opt merge=0
#include "vc.h"
#include <blend2d/core/api-build_p.h>
#include <blend2d/pipeline/reference/compopgeneric_p.h>
#include <blend2d/pipeline/reference/fillgeneric_p.h>
using namespace bl; using namespace bl::Pipeline; using namespace bl::Pipeline::Reference;
using P32 = Pixel::P32_A8R8G8B8; using P8 = Pixel::P8_Alpha;
//@ inv FillBoxA_Base<.*fill_func 0 inv_rows
//@ inv FillBoxA_Base<.*fill_func 1 inv_rows
//@ contract CompOp_Base<.*compositeCSpanOpaque ct_opaque
//@ contract CompOp_Base<.*compositeCSpanMasked ct_masked
template<typename P, typename O, uint32_t B> using CO = CompOp_Base<O, P, FetchSolid<P>, B>;
typedef CO<P32, CompOp_SrcOver_Op<P32>, 4> Over32; typedef CO<P32, CompOp_SrcCopy_Op<P32>, 4> Copy32;
typedef CO<P8, CompOp_SrcOver_Op<P8>, 1> Over8; typedef CO<P8, CompOp_SrcCopy_Op<P8>, 1> Copy8;
static uint8_t* vcg_buf; static size_t vcg_off; static uint32_t vcg_rows, vcg_h, vcg_w, vcg_bpp, vcg_msk, vcg_src; static intptr_t vcg_stride;
static uint32_t spec_srcval(void* comp_op) { return vcg_bpp == 4 ? *(uint32_t*)comp_op : *(uint8_t*)comp_op; }
static uint8_t* spec_call(void* comp_op, uint8_t* dst_ptr, size_t w, uint32_t m) {
  vc_assert(dst_ptr == vcg_buf + vcg_off, "a span starts at the left edge of the next row of the box");
  vc_assert(w == vcg_w, "a span is as wide as the box"); vc_assert(m == vcg_msk, "a span uses the fill alpha");
  vc_assert(vcg_rows < vcg_h, "no row outside the box is filled"); vc_assert(spec_srcval(comp_op) == vcg_src, "the source colour is the one of the fetch data");
  vcg_rows++; vcg_off += size_t(vcg_stride); return dst_ptr + w * vcg_bpp;
}
extern "C" uint8_t* ct_opaque(void* self, uint8_t* dst_ptr, size_t w) { return spec_call(self, dst_ptr, w, 255); }
extern "C" uint8_t* ct_masked(void* self, uint8_t* dst_ptr, size_t w, uint32_t m) { return spec_call(self, dst_ptr, w, m); }
extern "C" void inv_rows(uint8_t* dst_ptr, intptr_t dst_stride, uint32_t w, uint32_t h, uint32_t msk, void* comp_op) {
  vc_inv(h <= vcg_h && vcg_rows == vcg_h - h); vc_inv(dst_ptr == vcg_buf + vcg_off);
  vc_inv(w == vcg_w && msk == vcg_msk); vc_inv(dst_stride == vcg_stride - intptr_t(size_t(vcg_w) * vcg_bpp));
  vc_inv(spec_srcval(comp_op) == vcg_src);
}
#ifdef VC_NATIVE
template<typename C, typename P, typename O, uint32_t B> static void go() {
  int32_t x0 = int32_t(vc_in("x0", 0, 5)), y0 = int32_t(vc_in("y0", 0, 5)), x1 = x0 + 1 + int32_t(vc_in("x1", 0, 5)), y1 = y0 + 1 + int32_t(vc_in("y1", 0, 5)); bool neg = vc_nd_bool("stride");
  size_t W = size_t(x1) + 2, HH = size_t(y1) + 2; intptr_t st = intptr_t(W * B); uint8_t* buf = (uint8_t*)vc_alloc(W * HH * B, "pixels"); uint8_t* old = (uint8_t*)vc_snapshot(buf);
  uint8_t* top = neg ? buf + intptr_t(HH - 1) * st : buf; if (neg) st = -st; ContextData cd; memset(&cd, 0, sizeof cd); cd.dst.pixel_data = top; cd.dst.stride = st;
  FillData::BoxA f; f.box.x0 = x0; f.box.y0 = y0; f.box.x1 = x1; f.box.y1 = y1; uint32_t m = f.alpha.u = vc_nd_u8("alpha"); FetchData::Solid s; memset(&s, 0, sizeof s); s.prgb32 = vc_nd_u32("src");
  P src; src.p = decltype(src.p)(B == 4 ? s.prgb32 : s.prgb32 >> 24);
  FillBoxA_Base<C>::fill_func(&cd, &f, &s);
  for (int y = 0; y < int(HH); y++) for (int x = 0; x < int(W); x++) { uint8_t* p = top + y * st + x * intptr_t(B); uint8_t* q = old + (p - buf); P d; memcpy(&d.p, q, B); uint32_t want = d.p;
    if (x >= x0 && x < x1 && y >= y0 && y < y1) want = C::kOptimizeOpaque && m == 255 ? O::op_prgb32_prgb32(d, src).p : O::op_prgb32_prgb32(d, src, m).p;
    VC_ASSERT(memcmp(p, &want, B) == 0); }
}
#else
template<typename C, typename P, typename O, uint32_t B> static void go() {
  ContextData cd; memset(&cd, 0, sizeof cd); vcg_buf = (uint8_t*)vc_nd_u64("pixels"); /* any address: memory is only accessed by the span functions, see fill.cpp */ cd.dst.pixel_data = vcg_buf; cd.dst.stride = vcg_stride = intptr_t(vc_nd_i32("stride"));
  FillData::BoxA f; int32_t x0 = vc_nd_i32("x0"), y0 = vc_nd_i32("y0"), x1 = vc_nd_i32("x1"), y1 = vc_nd_i32("y1"); vc_assume(x0 >= 0 && y0 >= 0 && x0 < x1 && y0 < y1);
  f.box.x0 = x0; f.box.y0 = y0; f.box.x1 = x1; f.box.y1 = y1; f.alpha.u = vcg_msk = vc_nd_u8("alpha");
  FetchData::Solid s; memset(&s, 0, sizeof s); s.prgb32 = vc_nd_u32("src"); vcg_bpp = B; vcg_src = B == 4 ? s.prgb32 : s.prgb32 >> 24;
  vcg_rows = 0; vcg_h = uint32_t(y1) - uint32_t(y0); vcg_w = uint32_t(x1) - uint32_t(x0); vcg_off = size_t(uint32_t(y0)) * size_t(vcg_stride) + size_t(uint32_t(x0)) * B;
  FillBoxA_Base<C>::fill_func(&cd, &f, &s);
  VC_ASSERT(vcg_rows == vcg_h); vc_cover("done");
}
#endif
H void h_box_over32() { go<Over32, P32, CompOp_SrcOver_Op<P32>, 4>(); }
H void h_box_copy32() { go<Copy32, P32, CompOp_SrcCopy_Op<P32>, 4>(); }
H void h_box_over8() { go<Over8, P8, CompOp_SrcOver_Op<P8>, 1>(); }
H void h_box_copy8() { go<Copy8, P8, CompOp_SrcCopy_Op<P8>, 1>(); }
