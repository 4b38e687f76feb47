//@ opt merge=0
//@ contract MemOps::.*copy_small\( ct_copy_small
//@ contract MemOps::.*fill_inline_t<unsigned.char> ct_fill8
//@ harness h_replace_data_* quick=0
//@ harness h_replace_norm_alias_*_s* quick=0
//@ harness *_s6_* quick=0
//@ harness *_s24_* quick=0
//@ harness *_u8_* quick=0
//@ contract MemOps::.*copy_forward_inline_t<unsigned.char> ct_copy8
//@ contract ^bl_object_expand_impl_size\( ct_expand
#include "ar.inc"
// operations that take items: the items are a separate object, or a part of the array itself (alias)
struct Src { const uint8_t* p; const uint8_t* old; size_t n; };
static inline Src mk_src(Ghost& g, uint32_t isz, bool alias, size_t n) {
  Src s; s.n = n;
  if (alias) {
    size_t off = vc_in("off", 0, CMAX);
#ifdef VC_NATIVE
    off %= g.size + 1; if (s.n > g.size - off) s.n = g.size - off;
#endif
    vc_assume(off <= g.size && s.n <= g.size - off); s.p = bytes_of(&g.core) + off * isz; s.old = g.b0 + off * isz;
  }
  else { vc_assume(s.n <= CMAX); s.p = (const uint8_t*)vc_alloc_ro(s.n * isz, "items"); s.old = s.p; }
  return s;
}
#define NN size_t n = vc_in("n", 0, CMAX)
#define SRC(ALIAS) NN; Src s = mk_src(g, isz, ALIAS, n); n = s.n
#define ASSIGN(ALIAS) { SRC(ALIAS); BLResult r = bl_array_assign_data(&g.core, s.p, n); if (r) OOM(r, n); else POST(n, s.old[k]); }
MODES(assign_data, ASSIGN(false))
MODES(assign_data_alias, ASSIGN(true))
#define APPEND(ALIAS) { SRC(ALIAS); BLResult r = bl_array_append_data(&g.core, s.p, n); if (r) OOM(r, g.size + n); else POST(g.size + n, k < g.size * isz ? OLD(k) : s.old[k - g.size * isz]); }
MODES(append_data, APPEND(false))
MODES(append_data_alias, APPEND(true))
#define APPEND1(ALIAS) { Src s = mk_src(g, isz, ALIAS, 1); if (s.n != 1) return; BLResult r = bl_array_append_item(&g.core, s.p); if (r) OOM(r, g.size + 1); else POST(g.size + 1, k < g.size * isz ? OLD(k) : s.old[k - g.size * isz]); }
MODES(append_item, APPEND1(false))
MODES(append_item_alias, APPEND1(true))
static inline size_t mk_index(Ghost& g, size_t lim) { size_t i = vc_in("i", 0, CMAX);
#ifdef VC_NATIVE
  i %= lim + 1;
#endif
  vc_assume(i <= lim); return i; }
#define INSERT(ALIAS) { SRC(ALIAS); size_t i = mk_index(g, g.size); BLResult r = bl_array_insert_data(&g.core, i, s.p, n); size_t na = g.size + n; if (r) OOM(r, na); \
  else POST(na, k < i * isz ? OLD(k) : k >= (i + n) * isz ? OLD(k - n * isz) : s.old[k - i * isz]); }
MODES(insert_data, INSERT(false))
MODES(insert_data_alias, INSERT(true))
#define REPL1(ALIAS) { Src s = mk_src(g, isz, ALIAS, 1); if (s.n != 1) return; size_t i = mk_index(g, g.size); BLResult r = bl_array_replace_item(&g.core, i, s.p); if (i >= g.size) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) OOM(r, g.size); \
  else POST(g.size, k >= i * isz && k < i * isz + isz ? s.old[k - i * isz] : OLD(k)); }
MODES(replace_item, REPL1(false))
MODES(replace_item_alias, REPL1(true))
#define REPL(ALIAS) { SRC(ALIAS); size_t a = vc_nd_size("a"), b = vc_nd_size("b"); RANGE_FIX BLResult r = bl_array_replace_data(&g.core, a, b, s.p, n); size_t e = b < g.size ? b : g.size; size_t i = a < e ? a : e; size_t m = e - i; size_t na = g.size - m + n; \
  if (r) OOM(r, na); else POST(na, k < i * isz ? OLD(k) : k >= (i + n) * isz ? OLD(k - n * isz + m * isz) : s.old[k - i * isz]); }
#ifdef VC_NATIVE
#define RANGE_FIX a %= g.size + 3; b %= g.size + 3;
#else
#define RANGE_FIX
#endif
#define REPLN(ALIAS) { SRC(ALIAS); size_t e = mk_index(g, g.size), i = vc_in("a", 0, CMAX); RANGE_FIX2 vc_assume(i < e);   /* the empty range is an insertion: replace_data (thorough) */ BLResult r = bl_array_replace_data(&g.core, i, e, s.p, n); size_t m = e - i; size_t na = g.size - m + n; \
  if (r) OOM(r, na); else POST(na, k < i * isz ? OLD(k) : k >= (i + n) * isz ? OLD(k - n * isz + m * isz) : s.old[k - i * isz]); }
#ifdef VC_NATIVE
#define RANGE_FIX2 if (e == 0) return; i %= e;
#else
#define RANGE_FIX2
#endif
MODES(replace_norm, REPLN(false))
MODES(replace_norm_alias, REPLN(true))
MODES(replace_data, REPL(false))
MODES(replace_data_alias, REPL(true))
