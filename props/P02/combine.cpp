//@ opt merge=0
#include "ba.inc"
#include "combine.inc"
using namespace bl::BitArrayInternal;
// ---- unit proofs of the loops behind fill/clear/replace/append words and ranges: every word gets exactly its specified value --
static uint32_t* vcg_d; static const uint32_t* vcg_d0; static const uint32_t* vcg_src; static size_t vcg_bi, vcg_end, vcg_wc, vcg_kw, vcg_n; static int vcg_op;
static inline uint32_t spec_want(bool done) { uint32_t o = vcg_d0[vcg_kw]; return done ? spec_word(vcg_op, o, vcg_kw, vcg_bi, vcg_end, vcg_src ? spec_src(vcg_kw, vcg_bi, vcg_src, vcg_wc) : 0xFFFFFFFFu) : o; }
//@ inv combine_word_data< 0 inv_cw
//@ inv bit_array_combine_words< 0 inv_al
//@ inv bit_array_op< 0 inv_op
extern "C" void inv_cw(size_t i, size_t n, uint32_t w, size_t bit_count) {
  size_t w0 = vcg_bi >> 5, sh = vcg_bi & 31;
  vc_inv((w0 + 1 + n) * 32 <= vcg_end && vcg_end < (w0 + 2 + n) * 32);
  vc_inv(i >= 1 && i <= n + 1 && n == bit_count >> 5 && bit_count == vcg_end - vcg_bi - (32 - sh) && w == vcg_src[i - 1]);
  vc_inv(vcg_d[vcg_kw] == spec_want(vcg_kw < w0 + i));
}
extern "C" void inv_al(size_t count, size_t i) { size_t w0 = vcg_bi >> 5; vc_inv(i <= count && (w0 + count) * 32 <= vcg_end); vc_inv(vcg_d[vcg_kw] == spec_want(vcg_kw < w0 + i)); }
extern "C" void inv_op(size_t word_index, size_t count) { vc_inv(count <= vcg_end && word_index * 32 + count == vcg_end && word_index == (vcg_end - count) >> 5 && word_index > vcg_bi >> 5); vc_inv(vcg_d[vcg_kw] == spec_want(vcg_kw < word_index)); }
static BitData setup(bool with_src) {
  size_t size = vc_in("size", 0, BMAX); vcg_n = (size + 31) / 32;
  vcg_d = (uint32_t*)vc_alloc(vcg_n * 4, "dst"); vcg_d0 = (const uint32_t*)vc_snapshot(vcg_d); vcg_kw = vc_in("kw", 0, WMAX); vc_assume(vcg_kw < vcg_n);
  vcg_bi = vc_in("bi", 0, BMAX); vc_assume(vcg_bi < size);
  if (with_src) { vcg_wc = vc_in("wc", 0, BMAX / 32 + 1); vcg_src = (const uint32_t*)vc_alloc_ro(vcg_wc * 4, "src"); vcg_end = spec_end(vcg_bi, vcg_wc, size); }
  else { vcg_src = nullptr; vcg_wc = 0; vcg_end = vc_in("end", 0, BMAX); vc_assume(vcg_end >= vcg_bi && vcg_end <= size); }
  return BitData{vcg_d, size};
}
// the arbitrary word has its value; if it is the last word and its unused bits were zero, they still are
#define POSTW VC_ASSERT(vcg_d[vcg_kw] == spec_want(true))
H void h_lemma_tail() { size_t size = vc_in("size", 1, BMAX), bi = vc_in("bi", 0, BMAX), end = vc_in("end", 0, BMAX); vc_assume(bi <= end && end <= size && (size & 31) != 0); uint32_t o = vc_nd_u32("old"), v = vc_nd_u32("v"); int op = int(vc_in("op", 0, 2));
  vc_assume((o << (size & 31)) == 0); VC_ASSERT((spec_word(op, o, size >> 5, bi, end, v) << (size & 31)) == 0); }
#define U(NAME, OPT, OP) H void h_combine_##NAME() { vcg_op = OP; BitData d = setup(true); combine_word_data<OPT>(d, vcg_bi, vcg_src, vcg_wc); POSTW; vc_cover("end"); }
U(assign, bl::BitOperator::Assign, OP_ASSIGN) U(or, bl::BitOperator::Or, OP_OR) U(andnot, bl::BitOperator::AndNot, OP_ANDNOT)
H void h_range_fill() { vcg_op = OP_OR; setup(false); bl::BitArrayOps::bit_array_fill(vcg_d, vcg_bi, vcg_end - vcg_bi); POSTW; vc_cover("end"); }
H void h_range_clear() { vcg_op = OP_ANDNOT; setup(false); bl::BitArrayOps::bit_array_clear(vcg_d, vcg_bi, vcg_end - vcg_bi); POSTW; vc_cover("end"); }
// ---- the word formula means what it says on bits ---------------------------------------------------------------
H void h_lemma_bits() {
  size_t size = vc_in("size", 1, BMAX), bi = vc_in("bi", 0, BMAX), wc = vc_in("wc", 0, BMAX / 32 + 1), k = vc_in("k", 0, BMAX); vc_assume(bi <= size && k < size);
  const uint32_t* src = (const uint32_t*)vc_alloc_ro(wc * 4, "src"); uint32_t o = vc_nd_u32("old"); int op = int(vc_in("op", 0, 2)); size_t end = spec_end(bi, wc, size);
  uint32_t w = spec_word(op, o, k >> 5, bi, end, spec_src(k >> 5, bi, src, wc)), sh = 31 - (k & 31), ob = (o >> sh) & 1;
  uint32_t want_bit = k >= bi && k < end ? spec_op(op, ob, spec_bit(src, k - bi)) & 1 : ob;
  VC_ASSERT(((w >> sh) & 1) == want_bit);
}
