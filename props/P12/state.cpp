//@ opt solve=20 solve_total=100
//@ contract Scalar::.*cvt_prgb32_8888_from_argb32_8888\(unsigned\ int\) ct_premul
//@ contract alloc_saved_state\( ct_alloc_state
//@ contract free_saved_state\( ct_free_state
//@ contract alloc_fetch_data\( ct_alloc_fetch
//@ contract init_non_solid_fetch_data< ct_init_fetch
//@ contract ^bl_matrix2d_apply_op ct_matrix_op
//@ contract ^bl_matrix2d_get_type ct_matrix_type
//@ contract simd_cvt_f64_to_scalar_i32\( ct_round_d
//@ contract simd_cvt_f32_to_scalar_i32\( ct_round_f
#include "vc.h"
// save() and restore(): the state that restore() has to bring back is preserved by every other operation
#include <blend2d/core/compopinfo.cpp>
#include <blend2d/core/object.cpp>
#include <blend2d/core/array.cpp>
#include <blend2d/core/path.cpp>
#ifdef VC_NATIVE
#include <blend2d/support/arenaallocator.cpp>
#include <blend2d/core/matrix.cpp>
#endif
#include <blend2d/raster/rastercontext.cpp>
using namespace bl; using namespace bl::RasterEngine;
#ifdef VC_NATIVE
#define DASHSZ 512
#define NATIVE0(h) memset(h, 0, DASHSZ);
#define IFPROOF(x)
#else
#define DASHSZ 64
#define NATIVE0(h)
#define IFPROOF(x) x
#endif
static BLRasterContextImpl* ctx; static SavedState *ss; static RenderFetchData* pool[4]; static BLObjectImpl* dash[3]; static uint32_t ref0[4]; static size_t dref0[3]; static uint32_t own0[4]; static size_t down0[3];
// which derived values an operation may change
enum : uint32_t { TOL = 1, XF = 2, CLIP = 4, STALE = 8, XFU = 16 }; static uint32_t D; static int xw = -1; static ContextFlags fix_mask, fix_bits;
static void BL_CDECL on_destroy(BLRasterContextImpl*, RenderFetchData*) noexcept { VC_ASSERT(false && "destroyed while referenced"); }
static constexpr ContextFlags WU = ContextFlags::kWeakStateUserTransform, WM = ContextFlags::kWeakStateMetaTransform, WO = ContextFlags::kWeakStateStrokeOptions, WC = ContextFlags::kWeakStateClip, WCFG = ContextFlags::kWeakStateConfig;
static constexpr ContextFlags VOLATILE = ContextFlags::kPreservedFlags | ContextFlags::kSharedStateAllFlags;
static inline bool weak(ContextFlags f) { return bl_test_flag(ctx->context_flags, f); }
static inline bool weak_style(int i) { return weak(ContextFlags::kWeakStateBaseStyle << i); }
static inline bool fetch_of(ContextFlags f, int i) { return bl_test_flag(f, ContextFlags::kFetchDataBase << i); }
static inline bool none_of(ContextFlags f, int i) { return bl_test_flag(f, ContextFlags::kNoBaseStyle << i); }
// a style refers to a fetch data, or is solid, or (if disabled) refers to anything
static inline void mk_style(StyleData& s, ContextFlags f, int i, RenderFetchData* d) { bool use = fetch_of(f, i); if (D & STALE) use = use || (none_of(f, i) && vc_nd_bool("stale")); if (use) s.fetch_data = d; else s.make_fetch_data_implicit(); }
static inline void mk_dash(BLArrayCore& a, int k) { a._d.u64_data[0] = 0; a._d.u64_data[1] = 0; a._d.impl = dash[k]; a._d.info.bits = BLObjectInfo::from_type_with_marker(BL_OBJECT_TYPE_ARRAY_FLOAT64).bits | BL_OBJECT_INFO_D_FLAG | BL_OBJECT_INFO_M_FLAG | BL_OBJECT_INFO_R_FLAG; }
static inline size_t& dash_rc(int k) { return ObjectInternal::get_impl_header(dash[k])->ref_count; }
// number of references to a fetch data or dash array held by the context and its top saved state
static inline uint32_t owners(RenderFetchData* f) { uint32_t n = 0; for (int i = 0; i < 2; i++) { n += uint32_t(fetch_of(ctx->context_flags, i) & (ctx->internal_state.style[i].fetch_data == f)); if (ss) n += uint32_t(!weak_style(i) & fetch_of(ss->prev_context_flags, i) & (ss->style[i].fetch_data == f)); } return n; }
static inline size_t dash_owners(int k) { size_t n = size_t(ctx->internal_state.stroke_options.dash_array._d.impl == dash[k]); if (ss) n += size_t(!weak(WO) & (ss->stroke_options.dash_array._d.impl == dash[k])); return n; }
static inline void assume_clip(const BLBox& d) { vc_assume(d.x0 >= 0.0 && d.x0 <= 65535.0 && d.y0 >= 0.0 && d.y0 <= 65535.0 && d.x1 >= 0.0 && d.x1 <= 65535.0 && d.y1 >= 0.0 && d.y1 <= 65535.0); }
static inline SavedState* mk_saved(const char* l) { SavedState* s = (SavedState*)vc_alloc(sizeof(SavedState), l); s->prev_state = nullptr; s->comp_op = uint8_t(vc_in("compop", 0, BL_COMP_OP_MAX_VALUE)); return s; }
static inline bool weak_ok(int i) { ContextFlags d = ctx->context_flags ^ ss->prev_context_flags; return !fetch_of(d, i) && !none_of(d, i); }
// arbitrary context, with or without saved state
static inline void mk_(bool saved) {
  BLRasterContextImpl* c = (BLRasterContextImpl*)vc_alloc(sizeof(BLRasterContextImpl), "ctx"); ctx = c;
  RasterContextState& s = c->internal_state; uint32_t fl = vc_nd_u32("flags");
#ifdef VC_NATIVE
  new(&c->base_zone) ArenaAllocator(8192, 16); c->fetch_data_pool.reset(); c->saved_state_pool.reset();
#endif
  c->context_flags = ContextFlags(fl & ~7u & ~uint32_t(ContextFlags::kFetchDataInvalidStyle)); if (!saved) c->context_flags &= ~ContextFlags::kWeakStateAllFlags; if (xw >= 0) c->context_flags = (c->context_flags & ~(WU | WM)) | (xw == 0 ? WU | WM : xw == 1 ? WM : ContextFlags::kNoFlagsSet); c->context_flags = (c->context_flags & ~fix_mask) | fix_bits;
  c->render_target_info.fp_scale_d = 256.0; c->render_target_info.fpMaskI = 255; c->render_target_info.fpShiftI = 8; c->render_target_info.full_alpha_d = 255.0; c->render_target_info.fullAlphaI = 255;
  c->dst_data.format = uint32_t(vc_in("dstfmt", 1, 3)); s.comp_op = uint8_t(vc_in("compop", 0, BL_COMP_OP_MAX_VALUE));
  for (int i = 0; i < 4; i++) { pool[i] = (RenderFetchData*)vc_alloc(sizeof(RenderFetchData), "fetch"); pool[i]->destroy_func = on_destroy; pool[i]->ref_count = uint32_t(vc_in("ref", 4, 1000)); ref0[i] = pool[i]->ref_count; }
  for (int i = 0; i < 3; i++) { size_t* h = (size_t*)vc_alloc(DASHSZ, "dash"); NATIVE0(h) dash[i] = (BLObjectImpl*)(h + 2); h[0] = size_t(vc_in("dref", 4, 1000)); h[1] = 1; dref0[i] = h[0]; }
  for (int i = 0; i < 2; i++) mk_style(s.style[i], c->context_flags, i, pool[i]);
  mk_dash(s.stroke_options.dash_array, 0); if (D & CLIP) { assume_clip(s.final_clip_box_d); const BLBoxI& k = s.final_clip_box_i; vc_assume(k.x0 >= 0 && k.y0 >= 0 && k.x1 >= 0 && k.y1 >= 0 && k.x0 <= 65535 && k.y0 <= 65535 && k.x1 <= 65535 && k.y1 <= 65535); }
  ss = nullptr; c->saved_state = nullptr; s.saved_state_count = 0;
  if (saved) { if (xw < 0) vc_assume(!weak(WU) || weak(WM)); ss = mk_saved("saved"); c->saved_state = ss; s.saved_state_count = uint32_t(vc_in("count", 1, 1000));
    for (int i = 0; i < 2; i++) mk_style(ss->style[i], ss->prev_context_flags, i, pool[i + 2]);
    mk_dash(ss->stroke_options.dash_array, 1); if (D & CLIP) assume_clip(ss->final_clip_box_d);
    ss->prev_context_flags &= ~(ContextFlags::kPreservedFlags | ContextFlags::kFetchDataInvalidStyle | ContextFlags(7)); for (int i = 0; i < 2; i++) vc_assume(!weak_style(i) || weak_ok(i)); }
  for (int i = 0; i < 4; i++) own0[i] = owners(pool[i]); for (int k = 0; k < 3; k++) down0[k] = dash_owners(k);
  // values derived from others
  if (D & TOL) { s.toleranceFixedD = s.approximation_options.flatten_tolerance * 256.0; c->sync_work_data.edge_builder.set_flatten_tolerance_sq(Math::square(s.toleranceFixedD)); }
  if (D & XF) { TransformInternal::multiply(s.final_transform, s.user_transform, s.meta_transform); s.final_transform_fixed = s.final_transform; s.final_transform_fixed.post_scale(256.0); s.meta_transform_fixed = s.meta_transform; s.meta_transform_fixed.post_scale(256.0);
    if (saved && !weak(WU) && weak(WM)) TransformInternal::multiply(ss->alt_transform, ss->user_transform, s.meta_transform); }
  c->fp_min_safe_coord_d = -2147483647.0 * 256.0; c->fp_max_safe_coord_d = 2147400000.0 * 256.0;
  c->comp_op_simplify_info = comp_op_simplify_info_array_of(CompOpExt(s.comp_op), c->format());
}
struct Words { uint64_t w[128]; uint32_t n; double f[6]; };
static inline void put(Words& o, const void* p, size_t n) { for (size_t i = 0; i < n; i += 8) { uint64_t v; memcpy(&v, (const uint8_t*)p + i, 8); o.w[o.n++] = v; } }
static inline void put2(Words& o, bool c, const void* a, const void* b, size_t n) { for (size_t i = 0; i < n; i += 8) { uint64_t v, u; memcpy(&v, (const uint8_t*)a + i, 8); memcpy(&u, (const uint8_t*)b + i, 8); o.w[o.n++] = c ? v : u; } }
static inline void put1(Words& o, uint64_t v) { o.w[o.n++] = v; }
static constexpr size_t kStyleBytes = sizeof(StyleData) - sizeof(void*);
static inline uint64_t ptr_of(ContextFlags f, int i, const StyleData& s) { return fetch_of(f, i) ? uint64_t(uintptr_t(s.fetch_data)) : none_of(f, i) ? 0 : s.has_implicit_fetch_data() ? 1 : 2; }
// state of the context
static inline void current(Words& o, ContextFlags flags, const RasterContextState& s, const BLRasterContextImpl* c) {
  o.n = 0; put(o, &s.hints, 8); put1(o, s.comp_op); put1(o, s.fill_rule); put1(o, s.style_type[0]); put1(o, s.style_type[1]); put1(o, c->sync_work_data.clip_mode); put1(o, uint32_t(flags & ~VOLATILE)); put1(o, s.transform_types_packed);
  put1(o, s.global_alpha_i); put1(o, s.styleAlphaI[0]); put1(o, s.styleAlphaI[1]); put(o, &s.global_alpha, 8); put(o, s.style_alpha, 16); put(o, &s.translation_i, 8);
  put(o, &s.approximation_options, sizeof(s.approximation_options)); put(o, &s.final_clip_box_d, 32); for (int i = 0; i < 2; i++) { put1(o, ptr_of(flags, i, s.style[i])); put(o, &s.style[i].solid, kStyleBytes); }
  put(o, &s.stroke_options, sizeof(s.stroke_options)); put(o, &s.user_transform, 48); put(o, &s.meta_transform, 48); put(o, &s.final_transform, 48); }
// state that restore() brings back
static inline void restored(Words& o) {
  const RasterContextState& s = ctx->internal_state; const SavedState& p = *ss; ContextFlags pf = p.prev_context_flags;
  o.n = 0; put(o, &p.hints, 8); put1(o, p.comp_op); put1(o, p.fill_rule); put1(o, p.style_type[0]); put1(o, p.style_type[1]); put1(o, p.clip_mode); put1(o, uint32_t(pf & ~VOLATILE)); put1(o, p.transform_types_packed);
  put1(o, p.global_alpha_i); put1(o, p.styleAlphaI[0]); put1(o, p.styleAlphaI[1]); put(o, &p.global_alpha, 8); put(o, p.style_alpha, 16); put(o, &p.translation_i, 8);
  put2(o, weak(WCFG), &s.approximation_options, &p.approximation_options, sizeof(s.approximation_options)); put2(o, weak(WC), &s.final_clip_box_d, &p.final_clip_box_d, 32);
  for (int i = 0; i < 2; i++) { if (weak_style(i)) { put1(o, ptr_of(pf, i, s.style[i])); } else put1(o, ptr_of(pf, i, p.style[i])); put2(o, weak_style(i), &s.style[i].solid, &p.style[i].solid, kStyleBytes); }
  put2(o, weak(WO), &s.stroke_options, &p.stroke_options, sizeof(s.stroke_options)); put2(o, weak(WU), &s.user_transform, &p.user_transform, 48); put2(o, weak(WM), &s.meta_transform, &p.alt_transform, 48);
  if (!(D & XF)) { put2(o, weak(WU), &s.final_transform, &p.alt_transform, 48); return; }
  // the matrix that is not saved is the product of the other two
  BLMatrix2D f; TransformInternal::multiply(f, p.user_transform, p.alt_transform); for (int i = 0; i < 6; i++) o.f[i] = weak(WU) ? s.final_transform.m[i] : weak(WM) ? p.alt_transform.m[i] : f.m[i]; }
static inline void same(const Words& a, const Words& b) { VC_ASSERT(a.n == b.n); for (uint32_t i = 0; i < a.n; i++) VC_ASSERT(a.w[i] == b.w[i]); }
static inline void same_d(const double* a, const double* b, int n) { for (int i = 0; i < n; i++) VC_ASSERT((a[i] == b[i]) | ((a[i] != a[i]) & (b[i] != b[i]))); }
static inline void raw(Words& o) { const RasterContextState& s = ctx->internal_state; o.n = 0; EdgeBuilder<int>& e = ctx->sync_work_data.edge_builder;
  if (!(D & TOL)) { put(o, &s.toleranceFixedD, 8); put(o, &e._flatten_tolerance_sq, 8); } if (!(D & XF)) { put(o, &s.final_transform_fixed, 48); put(o, &s.meta_transform_fixed, 48); } if (!(D & CLIP)) { put(o, &e._clip_box_d, 32); put(o, &s.final_clip_box_i, 16); BLBoxI k = ctx->final_clip_box_fixed_i(); put(o, &k, 16); } }
// values derived from others are up to date, and every shared object is owned exactly as often as it is referenced
static inline void derived() { const RasterContextState& s = ctx->internal_state;
  if (D & TOL) { double t = s.approximation_options.flatten_tolerance * 256.0, q = Math::square(t); same_d(&s.toleranceFixedD, &t, 1); same_d(&ctx->sync_work_data.edge_builder._flatten_tolerance_sq, &q, 1); }
  if ((D & XF) && !(D & XFU)) { BLMatrix2D m; m = s.final_transform; m.post_scale(256.0); same_d(s.final_transform_fixed.m, m.m, 6); m = s.meta_transform; m.post_scale(256.0); same_d(s.meta_transform_fixed.m, m.m, 6); }
  VC_ASSERT(ctx->comp_op_simplify_info == comp_op_simplify_info_array_of(CompOpExt(s.comp_op), ctx->format())); }
static inline void owned() { for (int i = 0; i < 4; i++) VC_ASSERT(pool[i]->ref_count - owners(pool[i]) == ref0[i] - own0[i]); for (int k = 0; k < 3; k++) VC_ASSERT(dash_rc(k) - dash_owners(k) == dref0[k] - down0[k]); if (ss) { VC_ASSERT(!weak(WU) || weak(WM)); for (int i = 0; i < 2; i++) VC_ASSERT(!weak_style(i) || weak_ok(i)); } }
static inline void clip_fixed(const BLBox& d) { BLBox e = BLBox(d.x0 * 256.0, d.y0 * 256.0, d.x1 * 256.0, d.y1 * 256.0); same_d(&ctx->sync_work_data.edge_builder._clip_box_d.x0, &e.x0, 4); }
static Words before, after, cur0, cur1, raw0, raw1; static uint64_t id0; static SavedState* prev0; static uint32_t count0;
static inline void begin(bool saved, uint32_t d) { D = d; mk_(saved); if (saved) { restored(before); id0 = ss->state_id; prev0 = ss->prev_state; } count0 = ctx->internal_state.saved_state_count; current(cur0, ctx->context_flags, ctx->internal_state, ctx); raw(raw0); }
static inline void end() { VC_ASSERT(ctx->saved_state == ss); VC_ASSERT(ctx->internal_state.saved_state_count == count0); if (ss) { VC_ASSERT(ss->state_id == id0); VC_ASSERT(ss->prev_state == prev0); restored(after); same(before, after); if (D & XF) same_d(before.f, after.f, 6); } owned(); derived(); raw(raw1); same(raw0, raw1); VC_ASSERT((uint32_t(ctx->context_flags) & (7u | uint32_t(ContextFlags::kFetchDataInvalidStyle))) == 0); vc_cover("end"); }
#define OP(name, d, ...) H void h_##name() { begin(true, d); __VA_ARGS__ end(); } H void h_##name##_0() { begin(false, d); __VA_ARGS__ end(); }
#define CTX ctx
extern "C" SavedState* ct_alloc_state(BLRasterContextImpl*) { if (vc_nd_bool("oom")) return nullptr; return (SavedState*)vc_alloc(sizeof(SavedState), "newstate"); }
static uint32_t freed; static SavedState* freed1; extern "C" void ct_free_state(BLRasterContextImpl*, SavedState* s) { freed++; freed1 = s; }
static RenderFetchData* newf; extern "C" RenderFetchData* ct_alloc_fetch(BLRasterContextImpl*) { if (vc_nd_bool("oom")) return nullptr; newf = (RenderFetchData*)vc_alloc(sizeof(RenderFetchData), "newfetch"); return newf; }
extern "C" bool ct_init_fetch(BLRasterContextImpl* c, RenderFetchData* f, const BLObjectCore*, BLObjectType t, BLContextStyleTransformMode, NonSolidFetchStateApplier& a) { c->internal_state.style_type[a._slot] = uint8_t(t); vc_havoc(&c->internal_state.style[a._slot].non_solid, 48, "adj"); if (vc_nd_bool("nop")) a._style_flags |= ContextFlags::kNoBaseStyle; c->context_flags = a._context_flags | (a._style_flags << uint32_t(a._slot)); return true; }
extern "C" BLResult ct_matrix_op(BLMatrix2D* m, BLTransformOp, const void*) { if (vc_nd_bool("badop")) return BL_ERROR_INVALID_VALUE; vc_havoc(m, 48, "newmat"); return BL_SUCCESS; }
extern "C" BLTransformType ct_matrix_type(const BLMatrix2D*) { return BLTransformType(vc_in("mtype", 0, BL_TRANSFORM_TYPE_INVALID)); }
#include <immintrin.h>
extern "C" int ct_round_d(const __m128d&) { return int(vc_in("rounded", 0, 255)); }
extern "C" int ct_round_f(const __m128&) { return int(vc_in("rounded", 0, 255)); }
extern "C" uint32_t uf_premul(uint32_t c)
#ifdef VC_NATIVE
{ uint32_t a = c >> 24, r = 0; for (uint32_t i = 0; i < 3; i++) { uint32_t x = ((c >> (i * 8)) & 255) * a + 128; r |= ((x + (x >> 8)) >> 8) << (i * 8); } return r | (a << 24); }
#else
;
#endif
extern "C" uint32_t ct_premul(uint32_t c) { return uf_premul(c); }
static inline BLContextStyleSlot slot() { return BLContextStyleSlot(2); }
OP(set_hint, 0, set_hint_impl(CTX, BLContextHint(vc_in("hint", 0, 4)), vc_nd_u32("v"));)
OP(set_hints, 0, BLContextHints h; vc_havoc(&h, sizeof(h), "hints"); set_hints_impl(CTX, &h);)
OP(flatten_mode, 0, set_flatten_mode_impl(CTX, BLFlattenMode(vc_nd_u32("v")));)
OP(flatten_tolerance, TOL, set_flatten_tolerance_impl(CTX, vc_nd_f64("v"));)
OP(approximation, TOL, BLApproximationOptions a; vc_havoc(&a, sizeof(a), "a"); set_approximation_options_impl(CTX, &a);)
OP(comp_op, 0, set_comp_op_impl(CTX, BLCompOp(vc_nd_u32("v")));)
OP(fill_rule, 0, set_fill_rule_impl(CTX, BLFillRule(vc_nd_u32("v")));)
OP(stroke_width, 0, set_stroke_width_impl(CTX, vc_nd_f64("v"));)
OP(stroke_miter, 0, set_stroke_miter_limit_impl(CTX, vc_nd_f64("v"));)
OP(stroke_cap, 0, set_stroke_cap_impl(CTX, BLStrokeCapPosition(vc_nd_u32("p")), BLStrokeCap(vc_nd_u32("v")));)
OP(stroke_caps, 0, set_stroke_caps_impl(CTX, BLStrokeCap(vc_nd_u32("v")));)
OP(stroke_join, 0, set_stroke_join_impl(CTX, BLStrokeJoin(vc_nd_u32("v")));)
OP(stroke_dash_offset, 0, set_stroke_dash_offset_impl(CTX, vc_nd_f64("v"));)
OP(stroke_order, 0, set_stroke_transform_order_impl(CTX, BLStrokeTransformOrder(vc_nd_u32("v")));)
OP(stroke_dash, 0, BLArrayCore a; mk_dash(a, 2); set_stroke_dash_array_impl(CTX, &a);)
OP(stroke_dash_own, 0, set_stroke_dash_array_impl(CTX, &ctx->internal_state.stroke_options.dash_array);)
OP(disable_style_s0, 0, disable_style_impl(CTX, BL_CONTEXT_STYLE_SLOT_FILL);)
OP(disable_style_s1, 0, disable_style_impl(CTX, BL_CONTEXT_STYLE_SLOT_STROKE);)
OP(disable_style_s2, 0, disable_style_impl(CTX, slot());)
OP(style_rgba32_s0, 0, set_style_rgba32_impl(CTX, BL_CONTEXT_STYLE_SLOT_FILL, vc_nd_u32("c"));)
OP(style_rgba32_s1, 0, set_style_rgba32_impl(CTX, BL_CONTEXT_STYLE_SLOT_STROKE, vc_nd_u32("c"));)
OP(style_rgba32_s2, 0, set_style_rgba32_impl(CTX, slot(), vc_nd_u32("c"));)
OP(style_rgba64_s0, 0, set_style_rgba64_impl(CTX, BL_CONTEXT_STYLE_SLOT_FILL, vc_nd_u64("c"));)
OP(style_rgba64_s1, 0, set_style_rgba64_impl(CTX, BL_CONTEXT_STYLE_SLOT_STROKE, vc_nd_u64("c"));)
OP(style_rgba64_s2, 0, set_style_rgba64_impl(CTX, slot(), vc_nd_u64("c"));)
OP(swap_styles, 0, swap_styles_impl(CTX, BLContextStyleSwapMode(vc_nd_u32("m")));)
H void h_apply_transform_x0() { xw = 0; begin(true, XF | XFU); BLPoint by{vc_nd_f64("tx"), vc_nd_f64("ty")}; apply_transform_op_impl(CTX, BL_TRANSFORM_OP_TRANSLATE, &by); end(); }
H void h_apply_transform_x1() { xw = 1; begin(true, XF | XFU); BLPoint by{vc_nd_f64("tx"), vc_nd_f64("ty")}; apply_transform_op_impl(CTX, BL_TRANSFORM_OP_TRANSLATE, &by); end(); }
H void h_apply_transform_x2() { xw = 2; begin(true, XF | XFU); BLPoint by{vc_nd_f64("tx"), vc_nd_f64("ty")}; apply_transform_op_impl(CTX, BL_TRANSFORM_OP_TRANSLATE, &by); end(); }
H void h_apply_transform_0() { begin(false, XF | XFU); BLPoint by{vc_nd_f64("tx"), vc_nd_f64("ty")}; apply_transform_op_impl(CTX, BL_TRANSFORM_OP_TRANSLATE, &by); end(); }
H void h_user_to_meta_x0() { xw = 0; begin(true, XF); user_to_meta_impl(CTX); end(); }
H void h_user_to_meta_x1() { xw = 1; begin(true, XF); user_to_meta_impl(CTX); end(); }
H void h_user_to_meta_x2() { xw = 2; begin(true, XF); user_to_meta_impl(CTX); end(); }
H void h_user_to_meta_0() { begin(false, XF); user_to_meta_impl(CTX); end(); }
H void h_restore_clipping() { begin(true, CLIP); restore_clipping_impl(CTX); if (!weak(WC)) { const BLBox& d = ctx->internal_state.final_clip_box_d; uint64_t a[4], b[4]; memcpy(a, &d, 32); memcpy(b, &ss->final_clip_box_d, 32); for (int i = 0; i < 4; i++) VC_ASSERT(a[i] == b[i]); VC_ASSERT(ctx->clip_mode() == ss->clip_mode); VC_ASSERT(((ctx->context_flags ^ ss->prev_context_flags) & ContextFlags::kNoClipRect) == ContextFlags::kNoFlagsSet); clip_fixed(d); } end(); }
H void h_clip_to_rect_i() { begin(true, CLIP); ctx->sync_work_data.clip_mode = BL_CLIP_MODE_ALIGNED_RECT; ctx->context_flags |= ContextFlags::kInfoIntegralTranslation; restored(before); BLRectI r{int(vc_nd_u32("x")), int(vc_nd_u32("y")), int(vc_nd_u32("w")), int(vc_nd_u32("h"))}; clip_to_rect_i_impl(CTX, &r); end(); }
static inline void unit(double& d) { vc_assume(d >= 0.0 && d <= 1.0); }
#define ALPHA ctx->render_target_info.full_alpha_d = 255.0; unit(ctx->internal_state.global_alpha); unit(ctx->internal_state.style_alpha[0]); unit(ctx->internal_state.style_alpha[1]);
OP(global_alpha, 0, ALPHA set_global_alpha_impl(CTX, vc_nd_f64("alpha"));)
OP(style_alpha_s0, 0, ALPHA set_style_alpha_impl(CTX, BL_CONTEXT_STYLE_SLOT_FILL, vc_nd_f64("alpha"));)
OP(style_alpha_s1, 0, ALPHA set_style_alpha_impl(CTX, BL_CONTEXT_STYLE_SLOT_STROKE, vc_nd_f64("alpha"));)
OP(style_rgba_s0, 0, BLRgba c{vc_nd_f32("r"), vc_nd_f32("g"), vc_nd_f32("b"), vc_nd_f32("a")}; set_style_rgba_impl(CTX, BL_CONTEXT_STYLE_SLOT_FILL, &c);)
OP(style_rgba_s1, 0, BLRgba c{vc_nd_f32("r"), vc_nd_f32("g"), vc_nd_f32("b"), vc_nd_f32("a")}; set_style_rgba_impl(CTX, BL_CONTEXT_STYLE_SLOT_STROKE, &c);)
// a style object: one new fetch data holding one reference to the object
static inline void set_object(bool saved, int i) { begin(saved, 0); newf = nullptr; ctx->transform_ptrs[BL_CONTEXT_STYLE_TRANSFORM_MODE_USER] = &ctx->internal_state.final_transform; BLArrayCore a; mk_dash(a, 2); a._d.info.bits = BLObjectInfo::from_type_with_marker(BL_OBJECT_TYPE_GRADIENT).bits | BL_OBJECT_INFO_D_FLAG | BL_OBJECT_INFO_M_FLAG | BL_OBJECT_INFO_R_FLAG;
  BLResult e = set_style_impl(CTX, BLContextStyleSlot(i), (BLObjectCore*)&a, BL_CONTEXT_STYLE_TRANSFORM_MODE_USER); VC_ASSERT(e == BL_SUCCESS || !newf);
  if (e == BL_SUCCESS) { VC_ASSERT(ctx->internal_state.style[i].fetch_data == newf); VC_ASSERT(newf->ref_count == 1); VC_ASSERT(fetch_of(ctx->context_flags, i)); VC_ASSERT(!weak_style(i)); VC_ASSERT(newf->style._d.impl == dash[2]); VC_ASSERT(dash_rc(2) == dref0[2] + 1); dash_rc(2)--; VC_ASSERT(ctx->internal_state.style_type[i] == BL_OBJECT_TYPE_GRADIENT); } end(); }
H void h_style_object_s0() { set_object(true, 0); }
H void h_style_object_s0_0() { set_object(false, 0); }
H void h_style_object_s1() { set_object(true, 1); }
H void h_style_object_s1_0() { set_object(false, 1); }
OP(stroke_options, 0, BLStrokeOptionsCore o; vc_havoc(&o, sizeof(o), "opt"); mk_dash(*(BLArrayCore*)&o.dash_array, 2); set_stroke_options_impl(CTX, &o);)
// save: the new top state restores to the state at the time of the call; the old one is kept as it was
static inline void save(bool saved, bool with_cookie) { begin(saved, 0); Words s0, s1; s0.n = s1.n = 0; if (ss) put(s0, ss, sizeof(SavedState)); ContextFlags f0 = ctx->context_flags; SavedState* old = ss; ctx->saved_state_limit = uint32_t(vc_in("limit", 0, 5000)); uint64_t counter = ctx->state_id_counter; vc_assume(counter < ~uint64_t(0) - 1); BLContextCookie k; k.reset();
  BLResult e = save_impl(CTX, with_cookie ? &k : nullptr); if (ss) { put(s1, ss, sizeof(SavedState)); same(s0, s1); } raw(raw1); same(raw0, raw1); current(cur1, ctx->context_flags & ~ContextFlags::kWeakStateAllFlags, ctx->internal_state, ctx); current(cur0, f0 & ~ContextFlags::kWeakStateAllFlags, ctx->internal_state, ctx); same(cur0, cur1);
  if (e != BL_SUCCESS) { VC_ASSERT(e == BL_ERROR_TOO_MANY_SAVED_STATES || e == BL_ERROR_OUT_OF_MEMORY); VC_ASSERT(ctx->context_flags == f0); end(); return; }
  ss = ctx->saved_state; VC_ASSERT(ss && ss != old); VC_ASSERT(ss->prev_state == old); VC_ASSERT(ctx->internal_state.saved_state_count == count0 + 1); VC_ASSERT((ctx->context_flags & ContextFlags::kWeakStateAllFlags) == ContextFlags::kWeakStateAllFlags); VC_ASSERT((ss->prev_context_flags & ~VOLATILE) == (f0 & ~VOLATILE));
  current(cur0, f0, ctx->internal_state, ctx); restored(after); same(cur0, after);
  if (with_cookie) { VC_ASSERT(k.data[0] == ctx->context_origin_id); VC_ASSERT(k.data[1] == counter + 1); VC_ASSERT(ss->state_id == counter + 1); VC_ASSERT(ctx->state_id_counter == counter + 1); } else { VC_ASSERT(ss->state_id == ~uint64_t(0)); VC_ASSERT(ctx->state_id_counter == counter); }
  for (int i = 0; i < 4; i++) VC_ASSERT(pool[i]->ref_count == ref0[i]); for (int i = 0; i < 3; i++) VC_ASSERT(dash_rc(i) == dref0[i]); vc_cover("saved"); }
H void h_save() { save(true, false); }
H void h_save_0() { save(false, false); }
H void h_save_cookie() { save(true, true); }
H void h_save_cookie_0() { save(false, true); }
// restore of the top state
static inline void restore(bool with_cookie, uint32_t part) { begin(true, TOL | XF | CLIP); freed = 0; freed1 = nullptr; SavedState* old = ss; ContextFlags f0 = ctx->context_flags; bool other = vc_nd_bool("deeper"); SavedState* deeper = nullptr; if (other) { deeper = mk_saved("deeper"); deeper->prev_state = nullptr; vc_assume(deeper->state_id < ss->state_id || deeper->state_id == ~uint64_t(0)); } ss->prev_state = deeper; BLContextCookie k; k.data[0] = vc_nd_u64("origin"); k.data[1] = ss->state_id; if (with_cookie) vc_assume(ss->state_id < ~uint64_t(0));
  raw(raw0); current(cur0, f0, ctx->internal_state, ctx);
  BLResult e = restore_impl(CTX, with_cookie ? &k : nullptr);
  VC_ASSERT((e == BL_SUCCESS) == (with_cookie ? k.data[0] == ctx->context_origin_id : id0 == ~uint64_t(0)));
  if (e != BL_SUCCESS) { VC_ASSERT(e == BL_ERROR_NO_MATCHING_COOKIE); VC_ASSERT(ctx->context_flags == f0); VC_ASSERT(ctx->saved_state == old); VC_ASSERT(freed == 0); current(cur1, f0, ctx->internal_state, ctx); same(cur0, cur1); vc_cover("refused"); return; }
  VC_ASSERT(ctx->saved_state == deeper); IFPROOF(VC_ASSERT(freed == 1); VC_ASSERT(freed1 == old);) VC_ASSERT(ctx->internal_state.saved_state_count == count0 - 1);
  ss = nullptr; vc_cover("restored");
  if (part == 0) { current(cur1, ctx->context_flags, ctx->internal_state, ctx); cur1.n -= 6; same(before, cur1); owned(); D = 0; derived(); VC_ASSERT((ctx->context_flags & ContextFlags::kSharedStateAllFlags & ~f0) == ContextFlags::kNoFlagsSet); }
  if (part == XF) { same_d(before.f, ctx->internal_state.final_transform.m, 6); }
  if (part & (XF | TOL)) { D = part; derived(); }
  if (part == CLIP && !bl_test_flag(f0, WC)) clip_fixed(ctx->internal_state.final_clip_box_d); }
H void h_restore() { restore(false, 0); }
H void h_restore_cookie() { restore(true, 0); }
H void h_restore_x0() { xw = 0; restore(false, XF); }
H void h_restore_x1() { xw = 1; restore(false, XF); }
H void h_restore_x2() { xw = 2; restore(false, XF); }
H void h_restore_tolerance() { fix_mask = WCFG; restore(false, TOL); }
H void h_restore_tolerance_weak() { fix_bits = WCFG; restore(false, TOL); }
H void h_restore_clip() { fix_mask = WC; restore(false, CLIP); }
H void h_restore_0() { begin(false, 0); VC_ASSERT(restore_impl(CTX, nullptr) == BL_ERROR_NO_STATES_TO_RESTORE); end(); }
// the context ends with one saved state: every reference that only the saved state held is given back
H void h_discard() { begin(true, 0); freed = 0; freed1 = nullptr; SavedState* old = ss; ContextFlags f0 = ctx->context_flags; discard_states(CTX, nullptr); IFPROOF(VC_ASSERT(freed == 1); VC_ASSERT(freed1 == old);) VC_ASSERT(ctx->saved_state == nullptr); ss = nullptr; for (int i = 0; i < 2; i++) VC_ASSERT(fetch_of(ctx->context_flags, i) == fetch_of(f0, i)); owned(); current(cur1, f0, ctx->internal_state, ctx); current(cur0, f0, ctx->internal_state, ctx); same(cur0, cur1); vc_cover("end"); }
H void h_discard_0() { begin(false, 0); discard_states(CTX, nullptr); end(); }
// the number of levels a cookie asks for: the level that carries it, none if it is not on the stack (cookies of deeper levels are older)
//@ harness h_cookie_level bounded="at most three saved states"
H void h_cookie_level() { SavedState* s[3]; uint32_t n = uint32_t(vc_in("levels", 1, 3)); uint64_t last = ~uint64_t(0);
  for (int i = 0; i < 3; i++) { s[i] = (SavedState*)vc_alloc(sizeof(SavedState), "level"); s[i]->prev_state = nullptr; uint64_t id = s[i]->state_id; if (id != ~uint64_t(0)) { vc_assume(id < last); last = id; } if (i) s[i - 1]->prev_state = uint32_t(i) < n ? s[i] : nullptr; }
  uint64_t k = vc_nd_u64("cookie"); vc_assume(k != ~uint64_t(0)); uint32_t want = s[0]->state_id == k ? 1 : n > 1 && s[1]->state_id == k ? 2 : n > 2 && s[2]->state_id == k ? 3 : 0; VC_ASSERT(get_num_states_to_restore(s[0], k) == want); vc_cover("end"); }
static inline void relocate(StyleData& c, const StyleData& s) { if (s.has_implicit_fetch_data()) c.make_fetch_data_implicit(); }
// two levels at once are the same as one level after the other, for the state and for the references
//@ harness h_restore_two bounded="two saved states"
H void h_restore_two() { begin(true, CLIP); SavedState* deep = mk_saved("deep"); assume_clip(deep->final_clip_box_d); ss->prev_state = deep; ContextFlags df = deep->prev_context_flags & ~(ContextFlags::kPreservedFlags | ContextFlags::kFetchDataInvalidStyle | ContextFlags(7)); deep->prev_context_flags = df; 
  // styles and dash arrays of the deeper level: only looked at where they were saved
  for (int i = 0; i < 2; i++) mk_style(deep->style[i], df, i, pool[i]); mk_dash(deep->stroke_options.dash_array, 2);
  ContextFlags w1 = ss->prev_context_flags; vc_assume(!bl_test_flag(w1, WU) || bl_test_flag(w1, WM)); for (int i = 0; i < 2; i++) vc_assume(!bl_test_flag(w1, ContextFlags::kWeakStateBaseStyle << i) || (!fetch_of(w1 ^ df, i) && !none_of(w1 ^ df, i)));
  vc_assume(ctx->internal_state.saved_state_count >= 2); deep->state_id = 1; ss->state_id = 2; BLContextCookie k1, k2; k1.reset(ctx->context_origin_id, 1); k2.reset(ctx->context_origin_id, 2);
  BLRasterContextImpl* copy = (BLRasterContextImpl*)vc_alloc(sizeof(BLRasterContextImpl), "copy"); memcpy((void*)copy, (const void*)ctx, sizeof(*ctx)); SavedState* a = mk_saved("copy1"); SavedState* b = mk_saved("copy2"); memcpy((void*)a, (const void*)ss, sizeof(*a)); memcpy((void*)b, (const void*)deep, sizeof(*b)); copy->saved_state = a; a->prev_state = b; for (int i = 0; i < 2; i++) { relocate(copy->internal_state.style[i], ctx->internal_state.style[i]); relocate(a->style[i], ss->style[i]); relocate(b->style[i], deep->style[i]); }
  VC_ASSERT(restore_impl(ctx, &k1) == BL_SUCCESS); uint32_t r1[4]; size_t q1[3]; for (int i = 0; i < 4; i++) { r1[i] = pool[i]->ref_count; pool[i]->ref_count = ref0[i]; } for (int i = 0; i < 3; i++) { q1[i] = dash_rc(i); dash_rc(i) = dref0[i]; }
  VC_ASSERT(restore_impl(copy, &k2) == BL_SUCCESS); VC_ASSERT(restore_impl(copy, &k1) == BL_SUCCESS);
  for (int i = 0; i < 4; i++) VC_ASSERT(r1[i] == pool[i]->ref_count); for (int i = 0; i < 3; i++) VC_ASSERT(q1[i] == dash_rc(i));
  VC_ASSERT(ctx->saved_state == nullptr); VC_ASSERT(copy->saved_state == nullptr); VC_ASSERT(ctx->context_flags == copy->context_flags); VC_ASSERT(ctx->internal_state.saved_state_count == copy->internal_state.saved_state_count);
  current(cur0, ctx->context_flags, ctx->internal_state, ctx); current(cur1, copy->context_flags, copy->internal_state, copy); cur0.n -= 6; cur1.n -= 6; same(cur0, cur1); vc_cover("end"); }
//@ harness h_discard_two bounded="two saved states"
H void h_discard_two() { begin(true, 0); SavedState* deep = mk_saved("deep"); ss->prev_state = deep; ContextFlags df = deep->prev_context_flags & ~(ContextFlags::kPreservedFlags | ContextFlags::kFetchDataInvalidStyle | ContextFlags(7)); deep->prev_context_flags = df; freed = 0;
  for (int i = 0; i < 2; i++) mk_style(deep->style[i], df, i, pool[i]); mk_dash(deep->stroke_options.dash_array, 2); ContextFlags w0 = ctx->context_flags, w1 = ss->prev_context_flags;
  discard_states(ctx, nullptr); IFPROOF(VC_ASSERT(freed == 2);) VC_ASSERT(ctx->saved_state == nullptr);
  // every level gives back exactly what it held: the top one decides by the flags of the context, the next one by the flags saved in the top one
  for (int i = 0; i < 2; i++) { VC_ASSERT(ref0[i] - pool[i]->ref_count == uint32_t(!bl_test_flag(w1, ContextFlags::kWeakStateBaseStyle << i) && fetch_of(df, i))); VC_ASSERT(ref0[i + 2] - pool[i + 2]->ref_count == uint32_t(!bl_test_flag(w0, ContextFlags::kWeakStateBaseStyle << i) && fetch_of(w1, i))); }
  VC_ASSERT(dref0[2] - dash_rc(2) == size_t(!bl_test_flag(w1, WO))); VC_ASSERT(dref0[1] - dash_rc(1) == size_t(!bl_test_flag(w0, WO))); VC_ASSERT(dash_rc(0) == dref0[0]);
  for (int i = 0; i < 2; i++) VC_ASSERT(fetch_of(ctx->context_flags, i) == fetch_of(w0, i)); vc_cover("end"); }
