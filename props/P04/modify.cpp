//@ opt merge=0
//@ contract MemOps::.*copy_small\( ct_copy_small
//@ contract MemOps::.*fill_inline_t<unsigned.char> ct_fill8
//@ harness *_s6_* quick=0
//@ harness *_s24_* quick=0
//@ harness *_u8_* quick=0
//@ contract MemOps::.*copy_forward_inline_t<unsigned.char> ct_copy8
//@ contract ^bl_object_expand_impl_size\( ct_expand
#include "ar.inc"
// resize without a fill item zero-fills
MODES(resize, { size_t n = vc_in("n", 0, NMAX); BLResult r = bl_array_resize(&g.core, n, nullptr); if (r) OOM(r, n); else POST(n, k < g.size * isz ? OLD(k) : 0); })
MODES(modify_append, { bool fit = vc_nd_bool("fit"); size_t n = vc_in("n", 0, NMAX); void* out = nullptr; BLResult r = bl_array_modify_op(&g.core, fit ? BL_MODIFY_OP_APPEND_FIT : BL_MODIFY_OP_APPEND_GROW, n, &out);
  size_t na = g.size + n; bool of = na < n;
  if (r) OOM(r, of ? ~size_t(0) : na); else { VC_ASSERT(!of); VC_ASSERT(out == bytes_of(&g.core) + g.size * isz); POST(na, k < g.size * isz ? OLD(k) : bytes_of(&g.core)[k]); } })
MODES(modify_assign, { bool fit = vc_nd_bool("fit"); size_t n = vc_in("n", 0, NMAX); void* out = nullptr; BLResult r = bl_array_modify_op(&g.core, fit ? BL_MODIFY_OP_ASSIGN_FIT : BL_MODIFY_OP_ASSIGN_GROW, n, &out);
  if (r) OOM(r, n); else { VC_ASSERT(out == bytes_of(&g.core)); POST(n, bytes_of(&g.core)[k]); } })
MODES(insert_op, { size_t n = vc_in("n", 0, NMAX); size_t i = vc_in("i", 0, CMAX); 
#ifdef VC_NATIVE
  i %= g.size + 1;
#endif
  vc_assume(i <= g.size); void* out = nullptr; BLResult r = bl_array_insert_op(&g.core, i, n, &out);
  size_t na = g.size + n; bool of = na < n;
  if (r) OOM(r, of ? ~size_t(0) : na); else { VC_ASSERT(!of); VC_ASSERT(out == bytes_of(&g.core) + i * isz); POST(na, k < i * isz ? OLD(k) : k >= (i + n) * isz ? OLD(k - n * isz) : bytes_of(&g.core)[k]); } })
MODES(remove_range, { size_t a = vc_nd_size("a"), b = vc_nd_size("b"); 
#ifdef VC_NATIVE
  a %= g.size + 3; b %= g.size + 3;
#endif
  BLResult r = bl_array_remove_range(&g.core, a, b); size_t e = b < g.size ? b : g.size; size_t i = a < e ? a : e; size_t n = e - i;
  if (r) OOM(r, 0u); else POST(g.size - n, k < i * isz ? OLD(k) : OLD(k + n * isz)); })
