//@ opt merge=0
//@ contract MemOps::.*copy_forward_inline_t<unsigned.int> ct_copy32
//@ contract MemOps::.*fill_inline_t<unsigned.int> ct_fill32
//@ contract combine_word_data<bl::BitOperator::.*Assign> ct_cw_assign
//@ contract combine_word_data<bl::BitOperator::.*Or> ct_cw_or
//@ contract combine_word_data<bl::BitOperator::.*AndNot> ct_cw_andnot
//@ contract bit_array_op<bl::BitOperator::.*Or, ct_fill_op
//@ contract bit_array_op<bl::BitOperator::.*AndNot, ct_clear_op
#include "ba.inc"
#include "combine.inc"
using namespace bl::BitArrayInternal;
// Contracts proved by combine.cpp, instantiated for the two words the callers talk about: the word of the arbitrary bit vcg_k and the last word.
static size_t vcg_k;
static uint32_t spec_newbit(int op, uint32_t ob, size_t k, size_t bi, size_t end, const uint32_t* src) { return k >= bi && k < end ? spec_op(op, ob, src ? spec_bit(src, k - bi) : 1u) & 1u : ob; }
static void ct_words(int op, uint32_t* w, size_t size, size_t bi, size_t end, const uint32_t* src, size_t wc) {
  size_t n = (size + 31) / 32;
  vc_assert(vc_is_live(w) && vc_offset(w) + n * 4 <= vc_objsize(w), "words writable");
  vc_assert(tail_ok(w, size), "bits after the last one are zero");
  if (src) vc_assert(vc_offset(src) + wc * 4 <= vc_objsize(src), "words readable");
  if (bi >= end) return;
  uint32_t ob = vcg_k < size ? spec_bit(w, vcg_k) : 0;
  vc_havoc(w, n * 4, "words");
  vc_assume(vcg_k >= size || spec_bit(w, vcg_k) == spec_newbit(op, ob, vcg_k, bi, end, src));
  vc_assume(tail_ok(w, size));
}
static BLResult ct_cw(int op, BitData d, size_t bi, const uint32_t* src, size_t wc) {
  vc_assert((wc == 0 || bi < d.size) && d.size <= 0xFFFFFFFFu && wc <= 0xFFFFFFFFu, "combine_word_data precondition");
  ct_words(op, d.data, d.size, bi, spec_end(bi, wc, d.size), src, wc); return BL_SUCCESS;
}
extern "C" BLResult ct_cw_assign(BitData d, size_t bi, const uint32_t* src, size_t wc) { return ct_cw(OP_ASSIGN, d, bi, src, wc); }
extern "C" BLResult ct_cw_or(BitData d, size_t bi, const uint32_t* src, size_t wc) { return ct_cw(OP_OR, d, bi, src, wc); }
extern "C" BLResult ct_cw_andnot(BitData d, size_t bi, const uint32_t* src, size_t wc) { return ct_cw(OP_ANDNOT, d, bi, src, wc); }
static size_t vcg_size;
extern "C" void ct_fill_op(uint32_t* buf, size_t index, size_t count) { vc_assert(index + count <= vcg_size && count <= vcg_size, "range within the array"); if (count) ct_words(OP_OR, buf, vcg_size, index, index + count, nullptr, 0); }
extern "C" void ct_clear_op(uint32_t* buf, size_t index, size_t count) { vc_assert(index + count <= vcg_size && count <= vcg_size, "range within the array"); if (count) ct_words(OP_ANDNOT, buf, vcg_size, index, index + count, nullptr, 0); }
#define POSTK(N, VAL) do { size_t n_ = (N); VC_ASSERT(rep_ok(&g.core)); VC_ASSERT(size_of(&g.core) == n_); check_share(g); size_t k = vcg_k; if (k < n_) VC_ASSERT(spec_bit(words_of(&g.core), k) == uint32_t(VAL)); vc_cover("ok"); } while (0)
#define WORDS(NAME, OP, CALL) MODES(NAME, { vcg_k = pick(g.size); uint32_t i = uint32_t(vc_in("i", 0, BMAX)), m = uint32_t(vc_in("m", 0, BMAX)); uint32_t* src = (uint32_t*)vc_alloc_ro(size_t(m) * 4, "src"); \
  BLResult r = CALL(&g.core, i, src, m); if (i >= g.size) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) OOM(r); else POSTK(g.size, spec_newbit(OP, spec_old_bit(g, k), k, i, spec_end(i, m, g.size), src)); })
WORDS(fill_words, OP_OR, bl_bit_array_fill_words)
WORDS(clear_words, OP_ANDNOT, bl_bit_array_clear_words)
WORDS(replace_words, OP_ASSIGN, bl_bit_array_replace_words)
#define RANGE(NAME, V, CALL) MODES(NAME, { vcg_k = pick(g.size); vcg_size = g.size; uint32_t i = uint32_t(vc_in("i", 0, BMAX)), j = uint32_t(vc_in("j", 0, BMAX)); \
  BLResult r = CALL(&g.core, i, j); if (i >= j || i >= g.size) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) OOM(r); else POSTK(g.size, k >= i && k < j ? V : spec_old_bit(g, k)); })
RANGE(fill_range, 1u, bl_bit_array_fill_range)
RANGE(clear_range, 0u, bl_bit_array_clear_range)
MODES(append_words, { uint32_t m = uint32_t(vc_in("m", 0, BMAX)); vcg_k = pick(g.size + m * 32); uint32_t* src = (uint32_t*)vc_alloc_ro(size_t(m) * 4, "src"); BLResult r = bl_bit_array_append_words(&g.core, src, m);
  size_t n = g.size + size_t(m) * 32;
  if (n > 0xFFFFFFFFu) FAILED(r, BL_ERROR_OUT_OF_MEMORY); else if (r) OOM(r);
  else POSTK(n, k < g.size ? spec_old_bit(g, k) : spec_bit(src, k - g.size)); })
MODES(replace_bit, { uint32_t i = uint32_t(vc_in("i", 0, BMAX)); bool v = vc_nd_bool("v"); vcg_k = pick(g.size); BLResult r = bl_bit_array_replace_bit(&g.core, i, v);
  if (i >= g.size) FAILED(r, BL_ERROR_INVALID_VALUE); else if (r) OOM(r); else POSTK(g.size, k == i ? v : spec_old_bit(g, k)); })
