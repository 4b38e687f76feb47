//@ opt solve=60 solve_total=400
//@ contract translate_and_clip_rect_to_blit_i\( ct_geom
//@ contract Scalar::.*cvt_prgb32_8888_from_argb32_8888\(unsigned\ int\) ct_premul
//@ contract ensure_fetch_and_dispatch_data\( ct_dispatch
//@ harness h_geom* contracts=0
#include "vc.h"
// integer rectangles (fill, clear, blit, mask) reach the pipeline as exactly the part of the rectangle inside the clip
#include <blend2d/core/compopinfo.cpp>
#include <blend2d/raster/rastercontext.cpp>
using namespace bl; using namespace bl::RasterEngine;
static uint32_t paints, pSig, pAlpha, disp, pPrgb; static BLBoxI pBox; static const void* pFetch; static const void* pCtx; static RenderFetchDataHeader* pDisp; static Pipeline::FetchData::Pattern pPat; static bool wantPat;
static Pipeline::MaskCommand pCmd[2];
static void BL_CDECL my_fill(Pipeline::ContextData* c, const void* fill, const void* fetch) noexcept {
  const Pipeline::FillData* f = (const Pipeline::FillData*)fill; paints++; pBox = f->common.box; pFetch = fetch;
#ifdef VC_NATIVE
  pDisp = (RenderFetchDataHeader*)((uint8_t*)fetch - sizeof(RenderFetchDataHeader));
#endif
  pCtx = c; pAlpha = f->common.alpha.u;
  if (wantPat && Pipeline::Signature{pSig}.fetch_type() == Pipeline::FetchType::kPatternAlignedBlit) pPat = ((const Pipeline::FetchData*)fetch)->pattern;
  if (!wantPat) pPrgb = ((const Pipeline::FetchData::Solid*)fetch)->prgb32;
  if (Pipeline::Signature{pSig}.fill_type() == Pipeline::FillType::kMask) {
    pCmd[0] = f->mask.mask_command_data[0]; pCmd[1] = f->mask.mask_command_data[1];
  }
}
#ifdef VC_NATIVE
static BLResult BL_CDECL my_get(Pipeline::PipeRuntime*, uint32_t sig, Pipeline::DispatchData* out, Pipeline::PipeLookupCache*) noexcept { disp++; if (vc_nd_bool("err")) return BL_ERROR_OUT_OF_MEMORY; pSig = sig; pDisp = nullptr; out->fill_func = my_fill; out->fetch_func = nullptr; return BL_SUCCESS; }
#endif
extern "C" BLResult ct_dispatch(BLRasterContextImpl* c, Pipeline::Signature sig, RenderFetchDataHeader* fd, Pipeline::DispatchData* out) { disp++; if (vc_nd_bool("err")) return BL_ERROR_OUT_OF_MEMORY; pSig = sig.value; pDisp = fd; out->fill_func = my_fill; out->fetch_func = nullptr; return BL_SUCCESS; }
static constexpr uint32_t kSigMask = Pipeline::Signature::kMaskCompOp | Pipeline::Signature::kMaskDstFormat | Pipeline::Signature::kMaskSrcFormat;
struct Clip { int64_t x0, y0, x1, y1, tx, ty; };
static BLRasterContextImpl* ctx; static Clip clip; static RenderFetchDataSolid solids[5]; static CompOpSimplifyInfo info[uint32_t(FormatExt::kMaxValue) + 1];
// context with arbitrary state, whose translation is integral
static inline void mk() {
  BLRasterContextImpl* c = (BLRasterContextImpl*)vc_alloc(sizeof(BLRasterContextImpl), "ctx"); ctx = c;
#ifdef VC_NATIVE
  new(&c->pipe_lookup_cache) Pipeline::PipeLookupCache(); c->pipe_lookup_cache.reset(); c->pipe_provider._funcs.get = my_get;
  uint64_t cs = vc_in("clipsel", 0, 5); if (cs) { BLRectI cb{int(vc_in("cx", 0, 20)), int(vc_in("cy", 0, 20)), int(vc_in("cw", 0, 20)), int(vc_in("ch", 0, 20))}; c->internal_state.final_clip_box_i.reset(cb.x, cb.y, cb.x + cb.w, cb.y + cb.h); if (cs > 2) c->internal_state.final_clip_box_i.reset(0, 0, 40, 40); c->internal_state.translation_i.reset(int(vc_in("tx", 0, 20)) - 10, int(vc_in("ty", 0, 20)) - 10); }
#endif
  const BLBoxI& k = c->internal_state.final_clip_box_i; clip = Clip{k.x0, k.y0, k.x1, k.y1, c->internal_state.translation_i.x, c->internal_state.translation_i.y};
  // the clip lies inside the target
  vc_assume(k.x0 >= 0 && k.y0 >= 0 && k.x1 >= k.x0 && k.y1 >= k.y0 && k.x1 <= 65535 && k.y1 <= 65535);
#ifdef VC_NATIVE
  uint32_t fl = vc_nd_u32("flags"); uint32_t fs = uint32_t(vc_in("flagsel", 0, 24)); if (fs > 14) fl = 0; else if (fs > 2) fl = 1u << (fs - 1);
  for (uint32_t i = 0; i <= uint32_t(FormatExt::kMaxValue); i++) { info[i].data = vc_nd_u32("info"); uint32_t k = uint32_t(vc_in("id", 0, 12)); if (k) info[i].data = (info[i].data & kSigMask) | 1 | ((k - 1) / 3 << 16); }
#else
  uint32_t fl = vc_nd_u32("flags");
  for (uint32_t i = 0; i <= uint32_t(FormatExt::kMaxValue); i++) info[i].data = vc_nd_u32("info");
#endif
  c->context_flags = ContextFlags(fl & ~7u) | ContextFlags::kInfoIntegralTranslation;
  for (uint32_t i = 0; i <= uint32_t(FormatExt::kMaxValue); i++) { vc_assume(uint32_t(info[i].solid_id()) <= 4 && info[i].data != 0 && (info[i].data & 0xFFFF & ~kSigMask) == 0); }
  c->comp_op_simplify_info = info; c->solid_override_fill_table = solids;
  for (uint32_t i = 0; i < 5; i++) { solids[i].pipeline_data.prgb32 = vc_nd_u32("solid"); solids[i].signature.reset(); c->solid_fetch_data_override_table[i] = i ? &solids[i] : nullptr; }
  paints = 0; disp = 0; wantPat = false;
}
static inline int32_t in_coord(const char* l) {
  int32_t v = int32_t(vc_nd_u32(l));
#ifdef VC_NATIVE
  uint64_t s = vc_in("coordsel", 0, 40); if (s == 37) return 2147483647; if (s == 38) return -2147483647 - 1; if (s && s < 37) return int32_t(s) - 10;
#endif
  return v;
}
static inline bool in_box(const BLBoxI& b, int64_t x, int64_t y) { return x >= b.x0 && x < b.x1 && y >= b.y0 && y < b.y1; }
static inline bool in_clip(int64_t x, int64_t y) { return x >= clip.x0 && x < clip.x1 && y >= clip.y0 && y < clip.y1; }
static inline bool in_rect(int64_t x, int64_t y, int64_t rx, int64_t ry, int64_t rw, int64_t rh) { return x >= rx + clip.tx && x < rx + clip.tx + rw && y >= ry + clip.ty && y < ry + clip.ty + rh; }
static inline int64_t pixel(const char* l) {
  int64_t v = vc_nd_i32(l);
#ifdef VC_NATIVE
  uint64_t s = vc_in("pixsel", 0, 60); if (s) return int64_t(s) - 5;
#endif
  return v;
}
#define PIX int64_t px = pixel("px"), py = pixel("py");
// the pixel (px, py) is painted if and only if it is inside the clip and the rectangle, unless the operation is dropped for a reason given by the state
static inline void check(BLResult r, uint32_t dropped, bool inside, int64_t px, int64_t py) {
  VC_ASSERT(paints <= 1); VC_ASSERT(r == BL_SUCCESS || paints == 0);
  bool painted = paints == 1 && in_box(pBox, px, py);
  if (r == BL_SUCCESS) VC_ASSERT(painted == (inside && !dropped)); else VC_ASSERT(disp == 1);
  if (paints) { VC_ASSERT(pBox.x0 >= clip.x0 && pBox.y0 >= clip.y0 && pBox.x1 <= clip.x1 && pBox.y1 <= clip.y1); VC_ASSERT(pCtx == &ctx->sync_work_data.ctx_data); VC_ASSERT(pFetch == pDisp->get_pipeline_data()); vc_cover("painted"); }
}
#define RECT BLRectI r{in_coord("x"), in_coord("y"), in_coord("w"), in_coord("h")}; PIX
static inline uint32_t drop(ContextFlags nop, CompOpSimplifyInfo i) { return (uint32_t(ctx->context_flags) & uint32_t(nop) & ~7u) | (i.solid_id() >= CompOpSolidId::kAlwaysNop ? 4u : 0u); }
static inline void sig(uint32_t i, RenderFetchDataHeader* f, Pipeline::FillType t) { VC_ASSERT(pSig == (i | f->signature.value | Pipeline::Signature::from_fill_type(t).value)); VC_ASSERT(pDisp == f); }
static inline uint32_t color(CompOpSimplifyInfo i, uint32_t c) { uint32_t s = uint32_t(i.solid_id()); return s ? solids[s].pipeline_data.prgb32 : c; }
static inline FormatExt rgba_fmt(uint32_t c) { return c == 0 ? FormatExt::kZERO32 : (c >> 24) == 255 ? FormatExt::kFRGB32 : FormatExt::kPRGB32; }
// premultiplied colour (proved in premul.cpp)
extern "C" uint32_t uf_premul(uint32_t c)
#ifdef VC_NATIVE
{ uint32_t a = c >> 24, r = 0; for (uint32_t i = 0; i < 3; i++) { uint32_t x = ((c >> (i * 8)) & 255) * a + 128; r |= ((x + (x >> 8)) >> 8) << (i * 8); } return r | (a << 24); }
#else
;
#endif
extern "C" uint32_t ct_premul(uint32_t c) { return uf_premul(c); }
#define IMPLICIT RenderFetchDataSolid st; st.init_header(0, FormatExt(vc_in("fmt", 0, uint64_t(FormatExt::kMaxValue)))); st.pipeline_data.prgb32 = vc_nd_u32("color"); ctx->internal_state.style[0].fetch_data = &st; uint32_t al = ctx->internal_state.styleAlphaI[0]; CompOpSimplifyInfo i = info[st.extra.format];
#define IMPLICIT_DONE(type) if (paints) { VC_ASSERT(pAlpha == al); VC_ASSERT(pPrgb == color(i, st.pipeline_data.prgb32)); uint32_t k = uint32_t(i.solid_id()); sig(i.signature().value, k ? &solids[k] : &st, type); }
#define EXPLICIT uint32_t rgba = vc_nd_u32("rgba"), al = ctx->internal_state.styleAlphaI[0]; CompOpSimplifyInfo i = info[uint32_t(rgba_fmt(rgba))];
#define EXPLICIT_DONE(type) if (paints) { VC_ASSERT(pAlpha == al); VC_ASSERT(pPrgb == color(i, uf_premul(rgba))); VC_ASSERT(pSig == (i.signature().value | Pipeline::Signature::from_fill_type(type).value)); }
#define INSIDE_RECT (in_clip(px, py) && in_rect(px, py, r.x, r.y, r.w, r.h))
H void h_fill_rect_i() { mk(); RECT IMPLICIT BLResult e = fill_rect_i_impl<kSync>(ctx, &r); check(e, drop(ContextFlags::kNoFillOpImplicit, i), INSIDE_RECT, px, py); IMPLICIT_DONE(Pipeline::FillType::kBoxA) }
H void h_fill_rect_i_rgba32() { mk(); RECT EXPLICIT BLResult e = fill_rect_i_rgba32_impl<kSync>(ctx, &r, rgba); check(e, drop(ContextFlags::kNoFillOpExplicit, i), INSIDE_RECT, px, py); EXPLICIT_DONE(Pipeline::FillType::kBoxA) }
H void h_fill_rect_i_ext() { mk(); RECT EXPLICIT BLVarCore v; v._d.rgba32.value = rgba; v._d.info.bits = BLObjectInfo::from_type_with_marker(BL_OBJECT_TYPE_RGBA32).bits; BLResult e = fill_rect_i_ext_impl<kSync>(ctx, &r, (BLObjectCore*)&v); check(e, drop(ContextFlags::kNoFillOpExplicit, i), INSIDE_RECT, px, py); EXPLICIT_DONE(Pipeline::FillType::kBoxA) }
H void h_fill_rect_i_null() { mk(); RECT BLVarCore v; v._d.init_static(BLObjectInfo::from_type_with_marker(BL_OBJECT_TYPE_NULL)); BLResult e = fill_rect_i_ext_impl<kSync>(ctx, &r, (BLObjectCore*)&v); VC_ASSERT(e == BL_SUCCESS && paints == 0 && disp == 0); (void)px; (void)py; }
#define CLEAR ctx->sync_work_data.clip_mode = BL_CLIP_MODE_ALIGNED_RECT; ctx->dst_data.format = uint32_t(vc_in("dst", 1, 3)); uint32_t al = ctx->render_target_info.fullAlphaI; CompOpSimplifyInfo i = comp_op_simplify_info(CompOpExt::kSrcCopy, ctx->format(), FormatExt::kPRGB32);
#define CLEAR_DONE if (paints) { VC_ASSERT(pAlpha == al); uint32_t k = uint32_t(i.solid_id()); VC_ASSERT(pPrgb == solids[k].pipeline_data.prgb32); sig(i.signature().value, &solids[k], Pipeline::FillType::kBoxA); }
H void h_clear_rect_i() { mk(); RECT CLEAR BLResult e = clear_rect_i_impl<kSync>(ctx, &r); check(e, drop(ContextFlags::kNoClearOp, i), INSIDE_RECT, px, py); CLEAR_DONE }
#define ALIGNED ctx->sync_work_data.clip_mode = BL_CLIP_MODE_ALIGNED_RECT; vc_assume(clip.x0 < clip.x1 && clip.y0 < clip.y1);
H void h_clear_all() { mk(); PIX CLEAR ALIGNED BLResult e = clear_all_impl<kSync>(ctx); check(e, drop(ContextFlags::kNoClearOpAll, i), in_clip(px, py), px, py); CLEAR_DONE }
H void h_fill_all() { mk(); PIX ALIGNED IMPLICIT BLResult e = fill_all_impl<kSync>(ctx); check(e, drop(ContextFlags::kNoFillOpAllImplicit, i), in_clip(px, py), px, py); IMPLICIT_DONE(Pipeline::FillType::kBoxA) }
H void h_fill_all_rgba32() { mk(); PIX ALIGNED EXPLICIT BLResult e = fill_all_rgba32_impl<kSync>(ctx, rgba); check(e, drop(ContextFlags::kNoFillOpAllExplicit, i), in_clip(px, py), px, py); EXPLICIT_DONE(Pipeline::FillType::kBoxA) }
// pixels an image or mask area maps to: the pixel (px, py) comes from the source pixel (sx, sy)
struct Area { bool valid; int64_t ox, oy, w, h; };
static BLImageImpl* im; static BLImageCore img; static BLRectI ar; static bool hasArea;
static inline Area area_of(bool area, const BLSizeI& sz) {
  hasArea = area;
#ifdef VC_NATIVE
  ar.reset(int(vc_in("ax", 0, 9)) - 1, int(vc_in("ay", 0, 9)) - 1, int(vc_in("aw", 0, 20)), int(vc_in("ah", 0, 20)));
#else
  ar.x = vc_nd_i32("ax"); ar.y = vc_nd_i32("ay"); ar.w = vc_nd_i32("aw"); ar.h = vc_nd_i32("ah");
#endif
  if (!hasArea) return Area{true, 0, 0, sz.w, sz.h};
  bool ok = ar.x >= 0 && ar.y >= 0 && ar.w >= 0 && ar.h >= 0 && int64_t(ar.x) + ar.w <= sz.w && int64_t(ar.y) + ar.h <= sz.h;
  return Area{ok, ar.x, ar.y, ar.w, ar.h};
}
static inline void mk_image(uint32_t minFmt, uint32_t maxFmt, bool up, bool area) {
  im = (BLImageImpl*)vc_alloc(sizeof(BLImagePrivateImpl), "image"); im->format = uint8_t(vc_in("ifmt", minFmt, maxFmt)); im->depth = im->format == BL_FORMAT_A8 ? 8 : 32; im->size.w = int(vc_in("iw", 1, 65535)); im->size.h = int(vc_in("ih", 1, 65535));
  im->stride = up ? -1048576 : 1048576; im->pixel_data = vc_alloc(1, "pixels"); img._d.impl = im; area_of(area, im->size);
}
// Contract of translate_and_clip_rect_to_blit_i (proved by the h_geom harnesses): the part of the image or area inside the clip, and the source pixel of its first pixel
struct Geom { bool some; BLResult r; BLBoxI box; BLPointI src; };
static Geom g;
static inline bool geom_ok(const BLSizeI* sz) { return g.box.x0 >= clip.x0 && g.box.y0 >= clip.y0 && g.box.x1 <= clip.x1 && g.box.y1 <= clip.y1 && g.box.x0 < g.box.x1 && g.box.y0 < g.box.y1 && g.src.x >= 0 && g.src.y >= 0 && int64_t(g.src.x) + (int64_t(g.box.x1) - g.box.x0) <= sz->w && int64_t(g.src.y) + (int64_t(g.box.y1) - g.box.y0) <= sz->h; }
static inline Geom spec(const BLPointI* o, const BLRectI* a, const BLSizeI* sz) {
  Geom q; q.some = false; q.r = BL_SUCCESS; q.box.reset(); q.src.reset(); int64_t ax = 0, ay = 0, aw = sz->w, ah = sz->h;
  if (a) { if (a->x < 0 || a->y < 0 || a->w < 0 || a->h < 0 || int64_t(a->x) + a->w > sz->w || int64_t(a->y) + a->h > sz->h) { q.r = BL_ERROR_INVALID_VALUE; return q; } ax = a->x; ay = a->y; aw = a->w; ah = a->h; }
  int64_t x0 = o->x + clip.tx, y0 = o->y + clip.ty, x1 = x0 + aw, y1 = y0 + ah, dx = x0, dy = y0;
  if (x0 < clip.x0) x0 = clip.x0; if (y0 < clip.y0) y0 = clip.y0; if (x1 > clip.x1) x1 = clip.x1; if (y1 > clip.y1) y1 = clip.y1;
  if (x0 >= x1 || y0 >= y1) return q;
  q.some = true; q.box.reset(int(x0), int(y0), int(x1), int(y1)); q.src.reset(int(ax + x0 - dx), int(ay + y0 - dy)); return q;
}
static uint32_t geoms; static const BLPointI* gO; static const BLRectI* gA; static const BLSizeI* gS;
extern "C" bool ct_geom(const BLRasterContextImpl* c, const BLPointI* o, const BLRectI* a, const BLSizeI* sz, BLResult* r, BLBoxI* box, BLPointI* src) {
  geoms++; VC_ASSERT(c == ctx); VC_ASSERT(o == gO); VC_ASSERT(a == gA); VC_ASSERT(sz->w == gS->w); VC_ASSERT(sz->h == gS->h);
  g.r = a && vc_nd_bool("badarea") ? BLResult(BL_ERROR_INVALID_VALUE) : BLResult(BL_SUCCESS); g.some = g.r == BL_SUCCESS && vc_nd_bool("some");
  *r = g.r; src->x = vc_nd_i32("gsx"); src->y = vc_nd_i32("gsy"); if (!g.some) return false;
  box->x0 = vc_nd_i32("gx0"); box->y0 = vc_nd_i32("gy0"); box->x1 = vc_nd_i32("gx1"); box->y1 = vc_nd_i32("gy1"); g.box = *box; g.src = *src; vc_assume(geom_ok(sz)); return true;
}
static inline void geom(bool area) { mk(); BLSizeI sz(int(vc_in("iw", 1, 65535)), int(vc_in("ih", 1, 65535))); Area a = area_of(area, sz); (void)a; BLPointI o{in_coord("x"), in_coord("y")}; BLResult r; BLBoxI box; BLPointI src; PIX
  const BLRectI* pa = area ? &ar : nullptr; bool ok = translate_and_clip_rect_to_blit_i(ctx, &o, pa, &sz, &r, &box, &src);
  VC_ASSERT((r == BL_SUCCESS) == a.valid); if (!a.valid) { VC_ASSERT(r == BL_ERROR_INVALID_VALUE); VC_ASSERT(!ok); if (area) vc_cover("invalid"); return; }
  bool inside = in_clip(px, py) && in_rect(px, py, o.x, o.y, a.w, a.h); VC_ASSERT((ok && in_box(box, px, py)) == inside);
  if (!ok) return; vc_cover("visible");
  VC_ASSERT(box.x0 >= clip.x0); VC_ASSERT(box.y0 >= clip.y0); VC_ASSERT(box.x1 <= clip.x1); VC_ASSERT(box.y1 <= clip.y1); VC_ASSERT(box.x0 < box.x1); VC_ASSERT(box.y0 < box.y1);
  VC_ASSERT(src.x == a.ox + (box.x0 - clip.tx - o.x)); VC_ASSERT(src.y == a.oy + (box.y0 - clip.ty - o.y));
  VC_ASSERT(src.x >= a.ox); VC_ASSERT(src.y >= a.oy); VC_ASSERT(int64_t(src.x) + (box.x1 - box.x0) <= a.ox + a.w); VC_ASSERT(int64_t(src.y) + (box.y1 - box.y0) <= a.oy + a.h); }
H void h_geom_whole() { geom(false); }
H void h_geom_area() { geom(true); }
#define AREA(lo, hi) mk_image(lo, hi, up, area); BLPointI o{in_coord("x"), in_coord("y")}; PIX const BLRectI* pa = hasArea ? &ar : nullptr; geoms = 0; gO = &o; gA = pa; gS = &im->size; AREA_NATIVE
#ifdef VC_NATIVE
#define AREA_NATIVE g = spec(&o, pa, &im->size); geoms = 1;
#else
#define AREA_NATIVE
#endif
// outcome of an operation that paints the box reported by the geometry contract
#define INVALID() VC_ASSERT(geoms == 1); if (g.r) { VC_ASSERT(e == g.r); VC_ASSERT(paints == 0); if (area) vc_cover("invalid"); return; }
#define INSIDE_GEOM (g.some && in_box(g.box, px, py))
static inline void no_override() { for (uint32_t i = 0; i <= uint32_t(FormatExt::kMaxValue); i++) { uint32_t s = uint32_t(info[i].solid_id()); vc_assume(s == 0 || s == 4); } }
static inline void blit(bool up, bool area, bool solid) { mk(); wantPat = true; AREA(1, 2)
  if (!solid) no_override(); CompOpSimplifyInfo i = info[im->format]; uint32_t al = ctx->internal_state.global_alpha_i;
  BLResult e = blit_image_i_impl<kSync>(ctx, &o, &img, pa); INVALID()
  check(e, drop(ContextFlags::kNoBlitFlags, i), INSIDE_GEOM, px, py);
  if (paints) { VC_ASSERT(pAlpha == al); uint32_t k = uint32_t(i.solid_id());
    if (k) { VC_ASSERT(pDisp == &solids[k]); VC_ASSERT(pSig == (i.signature().value | Pipeline::Signature::from_fill_type(Pipeline::FillType::kBoxA).value)); }
    else { VC_ASSERT(pSig == (i.signature().value | Pipeline::Signature::from_fetch_type(Pipeline::FetchType::kPatternAlignedBlit).value | Pipeline::Signature::from_fill_type(Pipeline::FillType::kBoxA).value));
      if (solid) return;
      // source of the first painted pixel; the area that may be read is exactly the painted size and lies in the image
      int64_t sx = g.src.x, sy = g.src.y;
      VC_ASSERT(pPat.src.stride == im->stride); VC_ASSERT(pPat.simple.tx == pBox.x0); VC_ASSERT(pPat.simple.ty == pBox.y0);
      VC_ASSERT(pPat.src.size.w == pBox.x1 - pBox.x0); VC_ASSERT(pPat.src.size.h == pBox.y1 - pBox.y0);
      VC_ASSERT(pPat.src.pixel_data - (const uint8_t*)im->pixel_data == sy * (up ? -1048576 : 1048576) + sx * 4); } } }
H void h_blit_i_whole() { blit(false, false, false); }
H void h_blit_i_area() { blit(false, true, false); }
H void h_blit_i_bottom_up() { blit(true, true, false); }
H void h_blit_i_solid() { blit(false, false, true); }
static inline void mask_done(bool up) {
  if (paints) { int64_t sx = g.src.x, sy = g.src.y;
    VC_ASSERT(int64_t(pCmd[0].x0()) == pBox.x0); VC_ASSERT(int64_t(pCmd[0].x1()) == pBox.x1); VC_ASSERT(pCmd[0].mask_advance() == im->stride);
    VC_ASSERT(pCmd[0].type() == Pipeline::MaskCommandType::kVMaskA8WithoutGA || (pCmd[0].type() == Pipeline::MaskCommandType::kVMaskA8WithGA && pAlpha >= 255));
    VC_ASSERT(pCmd[1].type() == Pipeline::MaskCommandType::kEndOrRepeat); VC_ASSERT(int64_t(pCmd[1].repeat_count()) >= pBox.y1 - pBox.y0);
    VC_ASSERT((const uint8_t*)pCmd[0].mask_data() - (const uint8_t*)im->pixel_data == sy * (up ? -1048576 : 1048576) + sx); } }
static inline void fmask(bool up, bool area, bool solid) { mk(); AREA(3, 3) if (!solid) no_override(); IMPLICIT BLResult e = fill_mask_i_impl<kSync>(ctx, &o, &img, pa); INVALID() check(e, drop(ContextFlags::kNoFillOpImplicit, i), INSIDE_GEOM, px, py); if (!solid) mask_done(up); else { IMPLICIT_DONE(Pipeline::FillType::kMask) } }
H void h_mask_i_whole() { fmask(false, false, false); }
H void h_mask_i_area() { fmask(false, true, false); }
H void h_mask_i_bottom_up() { fmask(true, true, false); }
H void h_mask_i_solid() { fmask(false, false, true); }
static inline void fmaskc(bool area, bool solid) { bool up = false; mk(); AREA(3, 3) if (!solid) no_override(); EXPLICIT BLResult e = fill_mask_i_rgba32_impl<kSync>(ctx, &o, &img, pa, rgba); INVALID() check(e, drop(ContextFlags::kNoFillOpExplicit, i), INSIDE_GEOM, px, py); if (!solid) mask_done(up); else { EXPLICIT_DONE(Pipeline::FillType::kMask) } }
H void h_mask_i_rgba32_whole() { fmaskc(false, false); }
H void h_mask_i_rgba32_area() { fmaskc(true, false); }
H void h_mask_i_rgba32_solid() { fmaskc(false, true); }
static inline void fmaske(bool area, bool solid) { bool up = false; mk(); AREA(3, 3) if (!solid) no_override(); EXPLICIT BLVarCore v; v._d.rgba32.value = rgba; v._d.info.bits = BLObjectInfo::from_type_with_marker(BL_OBJECT_TYPE_RGBA32).bits; BLResult e = fill_mask_i_ext_impl<kSync>(ctx, &o, &img, pa, (BLObjectCore*)&v); INVALID() check(e, drop(ContextFlags::kNoFillOpExplicit, i), INSIDE_GEOM, px, py); if (!solid) mask_done(up); else { EXPLICIT_DONE(Pipeline::FillType::kMask) } }
H void h_mask_i_ext_whole() { fmaske(false, false); }
H void h_mask_i_ext_area() { fmaske(true, false); }
H void h_mask_i_ext_solid() { fmaske(false, true); }
// restricting the clip leaves exactly the pixels in both the old clip and the rectangle
H void h_clip_to_rect_i() { mk(); RECT ctx->context_flags &= ~ContextFlags::kWeakStateClip; ctx->sync_work_data.clip_mode = BL_CLIP_MODE_ALIGNED_RECT; ctx->render_target_info.fp_scale_d = 256.0; bool no = bl_test_flag(ctx->context_flags, ContextFlags::kNoClipRect); if (no) vc_assume(clip.x0 == clip.x1 && clip.y0 == clip.y1);
  BLResult e = clip_to_rect_i_impl(ctx, &r); VC_ASSERT(e == BL_SUCCESS); const BLBoxI& k = ctx->internal_state.final_clip_box_i;
  VC_ASSERT(in_box(k, px, py) == INSIDE_RECT);
  VC_ASSERT(k.x0 >= 0); VC_ASSERT(k.y0 >= 0); VC_ASSERT(k.x1 <= 65535); VC_ASSERT(k.y1 <= 65535); VC_ASSERT(k.x0 <= k.x1); VC_ASSERT(k.y0 <= k.y1);
  bool empty = !(k.x0 < k.x1 && k.y0 < k.y1); VC_ASSERT(bl_test_flag(ctx->context_flags, ContextFlags::kNoClipRect) == (empty || no));
  VC_ASSERT(ctx->clip_mode() == BL_CLIP_MODE_ALIGNED_RECT); }
