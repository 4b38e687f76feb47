//@ opt merge=0
//@ contract ^bl_object_expand_impl_size\( ct_expand
//@ harness * bounded="at most 3 stops"
#include "gr.inc"
CASES(add_stop, { double o = any_offset("o"); uint64_t c = vc_nd_u64("c"); BLResult r = bl_gradient_add_stop_rgba64(&g.core, o, c);
  if (!valid(o)) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) OOM(r); else GOOD(with(g.l, o, c), false); })
CASES(replace_stop, { size_t i = vc_in("i", 0, N + 1); double o = any_offset("o"); uint64_t c = vc_nd_u64("c"); i = vc_concretize(i); BLResult r = bl_gradient_replace_stop_rgba64(&g.core, i, o, c);
  if (i >= N || !valid(o)) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) OOM(r);
  else if (g.l.o[i] == o) { L e = g.l; e.c[i] = c; GOOD(e, false); } else GOOD(with(without(g.l, i, i + 1), o, c), false); })
CASES(remove_stop, { size_t i = vc_nd_size("i"); 
#ifdef VC_NATIVE
  i %= N + 2;
#endif
  if (i <= N) i = vc_concretize(i); BLResult r = bl_gradient_remove_stop(&g.core, i);
  if (i > N || (i == N && r)) FAILED(r, BL_ERROR_INVALID_VALUE); else if (i == N) FAILED(r, BL_SUCCESS); else if (r) OOM(r); else GOOD(without(g.l, i, i + 1), false); })
CASES(remove_stops, { size_t a = vc_nd_size("a"), b = vc_nd_size("b");
#ifdef VC_NATIVE
  a %= N + 2; b %= N + 3;
#endif
  if (a <= N) a = vc_concretize(a); if (b <= N) b = vc_concretize(b); BLResult r = bl_gradient_remove_stops_by_index(&g.core, a, b); size_t e = b < N ? b : N;
  if (a > N || e < a) FAILED(r, BL_ERROR_INVALID_VALUE); else if (a == e) FAILED(r, BL_SUCCESS); else if (r) OOM(r); else GOOD(without(g.l, a, e), false); })
#define REMOVE_IF(COND, BAD) { BLResult r = CALL; size_t a = 0, b = 0; for (size_t i = N; i-- > 0;) if (COND) { a = i; } for (size_t i = 0; i < N; i++) if (COND) b = i + 1; \
  if (BAD) FAILED(r, BL_ERROR_INVALID_VALUE); else if (b <= a) FAILED(r, BL_SUCCESS); else if (r) OOM(r); else GOOD(without(g.l, a, b), false); }
#define CALL bl_gradient_remove_stop_by_offset(&g.core, o, 1)
CASES(remove_offset_all, { double o = any_offset("o"); REMOVE_IF(g.l.o[i] == o, !valid(o)) })
#undef CALL
#define CALL bl_gradient_remove_stop_by_offset(&g.core, o, 0)
CASES(remove_offset_one, { double o = any_offset("o"); REMOVE_IF(g.l.o[i] == o && (i == 0 || g.l.o[i - 1] != o), !valid(o)) })
#undef CALL
#define CALL bl_gradient_remove_stops_by_offset(&g.core, lo, hi)
CASES(remove_between, { double lo = any_offset("lo"), hi = any_offset("hi"); vc_assume(lo == lo && hi == hi); REMOVE_IF(g.l.o[i] >= lo && g.l.o[i] <= hi, hi < lo) })
CASES(index_of, { double o = any_offset("o"); size_t r = bl_gradient_index_of_stop(&g.core, o); size_t e = SIZE_MAX; for (size_t i = N; i-- > 0;) if (g.l.o[i] == o) e = i; VC_ASSERT(r == e); check_unchanged(g); })
CASES(accessors, { VC_ASSERT(bl_gradient_get_size(&g.core) == N); VC_ASSERT(bl_gradient_get_capacity(&g.core) == CAP); VC_ASSERT(bl_gradient_get_stops(&g.core) == g.impl->stops); VC_ASSERT(bl_gradient_get_type(&g.core) == BL_GRADIENT_TYPE_RADIAL); VC_ASSERT(bl_gradient_get_extend_mode(&g.core) == BL_EXTEND_MODE_REFLECT); VC_ASSERT(bl_gradient_get_transform_type(&g.core) == BL_TRANSFORM_TYPE_AFFINE);
  size_t i = vc_in("i", 0, NV + 1); i = vc_concretize(i); double v = bl_gradient_get_value(&g.core, i); VC_ASSERT(i < NV ? deq(v, g.v[i]) : v != v); check_unchanged(g); })
