//@ harness h_insert_data_alias_sso quick=0
//@ harness h_remove_range_shared quick=0
//@ opt merge=0
//@ contract MemOps::.*copy_small\( ct_copy_small
//@ contract MemOps::.*fill_inline_t<char> ct_fill8
//@ contract MemOps::.*fill_small_t<char> ct_fill8
//@ contract ^bl_object_expand_impl_size\( ct_expand
#include "st.inc"
MODES(resize, { size_t n = vc_in("n", 0, NMAX); char f = char(vc_nd_u8("fill")); BLResult r = bl_string_resize(&g.core, n, f); if (r) OOM(r, n); else POST(n, k < g.size ? OLD(k) : uint8_t(f)); })
static inline BLModifyOp app(bool fit) { return fit ? BL_MODIFY_OP_APPEND_FIT : BL_MODIFY_OP_APPEND_GROW; }
static inline BLModifyOp ass(bool fit) { return fit ? BL_MODIFY_OP_ASSIGN_FIT : BL_MODIFY_OP_ASSIGN_GROW; }
MODES(modify_append, { bool fit = vc_nd_bool("fit"); size_t n = vc_in("n", 0, NMAX); char* out = nullptr; BLResult r = bl_string_modify_op(&g.core, app(fit), n, &out);
  size_t na = g.size + n; bool of = na < n;
  if (r) OOM(r, of ? ~size_t(0) : na); else { VC_ASSERT(!of); VC_ASSERT((uint8_t*)out == bytes_of(&g.core) + g.size); POST(na, k < g.size ? OLD(k) : bytes_of(&g.core)[k]); } })
MODES(modify_assign, { bool fit = vc_nd_bool("fit"); size_t n = vc_in("n", 0, NMAX); char* out = nullptr; BLResult r = bl_string_modify_op(&g.core, ass(fit), n, &out);
  if (r) OOM(r, n); else { VC_ASSERT((uint8_t*)out == bytes_of(&g.core)); POST(n, bytes_of(&g.core)[k]); } })
static inline size_t mk_index(Ghost& g, size_t lim) { size_t i = vc_in("i", 0, CMAX);
#ifdef VC_NATIVE
  i %= lim + 1;
#endif
  vc_assume(i <= lim); return i; }
MODES(insert_op, { size_t n = vc_in("n", 0, NMAX); size_t i = mk_index(g, g.size); char* out = nullptr; BLResult r = bl_string_insert_op(&g.core, i, n, &out);
  size_t na = g.size + n; bool of = na < n;
  if (r) OOM(r, of ? ~size_t(0) : na); else { VC_ASSERT(!of); VC_ASSERT((uint8_t*)out == bytes_of(&g.core) + i); POST(na, k < i ? OLD(k) : k >= i + n ? OLD(k - n) : bytes_of(&g.core)[k]); } })
MODES(insert_char, { size_t n = vc_in("n", 0, NMAX); char f = char(vc_nd_u8("fill")); size_t i = mk_index(g, g.size); BLResult r = bl_string_insert_char(&g.core, i, f, n);
  size_t na = g.size + n; bool of = na < n; if (r) OOM(r, of ? ~size_t(0) : na); else { VC_ASSERT(!of); POST(na, k < i ? OLD(k) : k >= i + n ? OLD(k - n) : uint8_t(f)); } })
MODES(apply_char, { bool fit = vc_nd_bool("fit"); size_t n = vc_in("n", 0, NMAX); char f = char(vc_nd_u8("fill")); BLResult r = bl_string_apply_op_char(&g.core, app(fit), f, n);
  size_t na = g.size + n; bool of = na < n; if (r) OOM(r, of ? ~size_t(0) : na); else { VC_ASSERT(!of); POST(na, k < g.size ? OLD(k) : uint8_t(f)); } })
MODES(assign_char, { bool fit = vc_nd_bool("fit"); size_t n = vc_in("n", 0, NMAX); char f = char(vc_nd_u8("fill")); BLResult r = bl_string_apply_op_char(&g.core, ass(fit), f, n); if (r) OOM(r, n); else POST(n, uint8_t(f)); })
#ifdef VC_NATIVE
#define VCN(...) __VA_ARGS__
#else
#define VCN(...)
#endif
#define REMOVE(LO, HI) { size_t a = vc_nd_size("a"), b = vc_nd_size("b"); \
  VCN(a %= g.size + 3; b %= g.size + 3;) \
  size_t e = b < g.size ? b : g.size; size_t i = a < e ? a : e; size_t n = e - i; vc_assume(g.size - n >= LO && g.size - n <= HI); BLResult r = bl_string_remove_range(&g.core, a, b); \
  if (r) OOM(r, 0u); else POST(g.size - n, k < i ? OLD(k) : OLD(k + n)); }
static_assert(BLString::kSSOCapacity == 14, "");
MODES(remove_range, REMOVE(0, BLString::kSSOCapacity))
MODES(remove_range_long, REMOVE(15, ~size_t(0)))
// text given by the caller: a separate object, or a part of the string itself
struct Src { const char* p; const uint8_t* old; size_t n; };
static inline Src mk_src(Ghost& g, bool alias) {
  Src s; s.n = vc_in("n", 0, CMAX);
  if (alias) {
    size_t off = vc_in("off", 0, CMAX);
#ifdef VC_NATIVE
    off %= g.size + 1; if (s.n > g.size - off) s.n = g.size - off;
#endif
    vc_assume(off <= g.size && s.n <= g.size - off); s.p = (const char*)bytes_of(&g.core) + off; s.old = g.b0 + off;
  }
  else { s.p = (const char*)vc_alloc_ro(s.n, "text"); s.old = (const uint8_t*)s.p; }
  return s;
}
#define ASSIGN(ALIAS) { Src s = mk_src(g, ALIAS); size_t n = s.n; bool fit = vc_nd_bool("fit"); BLResult r = fit ? bl_string_assign_data(&g.core, s.p, n) : bl_string_apply_op_data(&g.core, ass(false), s.p, n); if (r) OOM(r, n); else POST(n, s.old[k]); }
MODES(assign_data, ASSIGN(false))
MODES(assign_data_alias, ASSIGN(true))
#define APPEND(ALIAS) { Src s = mk_src(g, ALIAS); size_t n = s.n; bool fit = vc_nd_bool("fit"); BLResult r = bl_string_apply_op_data(&g.core, app(fit), s.p, n); if (r) OOM(r, g.size + n); else POST(g.size + n, k < g.size ? OLD(k) : s.old[k - g.size]); }
MODES(append_data, APPEND(false))
MODES(append_data_alias, APPEND(true))
#define INSERT(ALIAS) { Src s = mk_src(g, ALIAS); size_t n = s.n; size_t i = mk_index(g, g.size); BLResult r = bl_string_insert_data(&g.core, i, s.p, n); size_t na = g.size + n; if (r) OOM(r, na); \
  else POST(na, k < i ? OLD(k) : k >= i + n ? OLD(k - n) : s.old[k - i]); }
MODES(insert_data, INSERT(false))
MODES(insert_data_alias, INSERT(true))
// whole-string operations where the other string is the string itself
MODES(append_self, { bool fit = vc_nd_bool("fit"); BLResult r = bl_string_apply_op_string(&g.core, app(fit), &g.core); if (r) OOM(r, g.size * 2); else POST(g.size * 2, k < g.size ? OLD(k) : OLD(k - g.size)); })
MODES(assign_deep_self, { BLResult r = bl_string_assign_deep(&g.core, &g.core); if (r) OOM(r, g.size); else POST(g.size, OLD(k)); })
MODES(insert_self, { size_t i = mk_index(g, g.size); BLResult r = bl_string_insert_string(&g.core, i, &g.core); if (r) OOM(r, g.size * 2); else POST(g.size * 2, k < i ? OLD(k) : k >= i + g.size ? OLD(k - g.size) : OLD(k - i)); })
