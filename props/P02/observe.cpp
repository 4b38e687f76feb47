//@ opt merge=0
#include "ba.inc"
using namespace bl::BitArrayInternal;
#include "combine.inc"
// ---- queries, against "the first word for which ..." (recursive specification), on two arbitrary arrays -----------------------
static const uint32_t* vcg_a; static const uint32_t* vcg_b; static size_t vcg_na, vcg_nb, vcg_lo, vcg_hi, vcg_s, vcg_e;
enum { Q_RANGE, Q_NOTSUB, Q_INTER, Q_DIFF, Q_SET };
static inline uint32_t spec_wa(size_t i) { return i < vcg_na ? vcg_a[i] : 0; }
static inline uint32_t spec_wb(size_t i) { return i < vcg_nb ? vcg_b[i] : 0; }
static inline bool spec_hit(int q, size_t i) {
  uint32_t a = spec_wa(i), b = q == Q_RANGE || q == Q_SET ? 0 : spec_wb(i);
  return q == Q_RANGE ? (a & spec_mask(i, vcg_s, vcg_e)) != 0 : q == Q_NOTSUB ? (b & ~a) != 0 : q == Q_INTER ? (a & b) != 0 : q == Q_DIFF ? a != b : a != 0;
}
// smallest i in [i, vcg_hi) with a hit, vcg_hi when there is none
#define FIRST(N, Q) extern "C" VC_NOINLINE VC_USED uint64_t uf_first##N(uint64_t i) { return i >= vcg_hi ? vcg_hi : spec_hit(Q, i) ? i : uf_first##N(i + 1); }
FIRST(R, Q_RANGE) FIRST(S, Q_NOTSUB) FIRST(I, Q_INTER) FIRST(D, Q_DIFF) FIRST(B, Q_SET)
// largest i + 1 in (0, i] with a set bit in word i, 0 when there is none
extern "C" VC_NOINLINE VC_USED uint64_t uf_last(uint64_t i) { return i == 0 ? 0 : spec_wa(i - 1) != 0 ? i : uf_last(i - 1); }
#define STEP(N, I) do { size_t i_ = (I); vc_unfold1((void*)uf_first##N, i_); vc_inv(uf_first##N(vcg_lo) == uf_first##N(i_)); } while (0)
//@ inv bl_bit_array_has_bits_in_range 0 inv_range
//@ inv bl_bit_array_subsumes 0 inv_sub0
//@ inv bl_bit_array_subsumes 1 inv_sub1
//@ inv bl_bit_array_intersects 0 inv_inter
//@ inv bl_bit_array_equals 0 inv_eq
//@ inv bl_bit_array_compare 0 inv_cmp
//@ inv bl_bit_array_get_range 0 inv_r0
//@ inv bl_bit_array_get_range 1 inv_r1
extern "C" void inv_range(size_t i, size_t last_word) { vc_inv(i >= (vcg_s >> 5) + 1 && i <= last_word && last_word == (vcg_e - 1) >> 5); STEP(R, i); }
extern "C" void inv_sub0(size_t i, size_t shared_word_count) { vc_inv(i <= shared_word_count && shared_word_count == (vcg_na < vcg_nb ? vcg_na : vcg_nb)); STEP(S, i); }
extern "C" void inv_sub1(size_t i, size_t shared_word_count, size_t bWordCount) { vc_inv(bWordCount == vcg_nb && shared_word_count == (vcg_na < vcg_nb ? vcg_na : vcg_nb)); vc_inv(i >= shared_word_count && i <= bWordCount); STEP(S, i); }
extern "C" void inv_inter(size_t i, size_t shared_word_count) { vc_inv(i <= shared_word_count && shared_word_count == vcg_hi); STEP(I, i); }
extern "C" void inv_eq(size_t i, size_t word_count) { vc_inv(i <= word_count && word_count == vcg_hi); STEP(D, i); }
extern "C" void inv_cmp(size_t i, size_t word_count) { vc_inv(i <= word_count && word_count == vcg_hi); STEP(D, i); }
extern "C" void inv_r0(size_t i, size_t word_count) { vc_inv(i <= word_count && word_count == vcg_hi); STEP(B, i); }
extern "C" void inv_r1(size_t j, size_t i, size_t word_count) { vc_inv(word_count == vcg_hi && i < word_count && j > i && j <= word_count && vcg_a[i] != 0); vc_unfold1((void*)uf_last, j); vc_inv(uf_last(vcg_hi) == uf_last(j)); }
static void two(Ghost& a, Ghost& b, int ma, int mb) { mk(a, "a", ma); mk(b, "b", mb);
  vcg_a = words_of(&a.core); vcg_b = words_of(&b.core); vcg_na = (a.size + 31) / 32; vcg_nb = (b.size + 31) / 32; vcg_lo = 0; }
#define TWO(NAME, ...) H void h_##NAME##_ss() { Ghost a, b; two(a, b, 0, 0); __VA_ARGS__ } H void h_##NAME##_sh() { Ghost a, b; two(a, b, 0, 1); __VA_ARGS__ } \
  H void h_##NAME##_hs() { Ghost a, b; two(a, b, 1, 0); __VA_ARGS__ } H void h_##NAME##_hh() { Ghost a, b; two(a, b, 1, 1); __VA_ARGS__ }
#define ONE(NAME, ...) H void h_##NAME##_s() { Ghost g; one(g, 0); __VA_ARGS__ } H void h_##NAME##_h() { Ghost g; one(g, 1); __VA_ARGS__ }
static void one(Ghost& a, int m) { mk(a, "a", m); vcg_a = words_of(&a.core); vcg_na = (a.size + 31) / 32; vcg_lo = 0; vcg_nb = 0; }
ONE(has_bits_in_range, uint32_t s = uint32_t(vc_in("s", 0, BMAX)), e = uint32_t(vc_in("e", 0, BMAX)); vcg_s = s; vcg_e = e < g.size ? e : g.size;
  vcg_lo = vcg_s >> 5; vcg_hi = (vcg_e + 31) >> 5; vc_unfold1((void*)uf_firstR, vcg_lo); vc_unfold1((void*)uf_firstR, vcg_hi); if (vcg_hi) vc_unfold1((void*)uf_firstR, vcg_hi - 1); bool r = bl_bit_array_has_bits_in_range(&g.core, s, e);
  if (vcg_s >= vcg_e) { VC_ASSERT(!r); return; }
  VC_ASSERT(r == (uf_firstR(vcg_lo) < vcg_hi)); vc_cover("end");)
TWO(subsumes, vcg_hi = vcg_nb; vc_unfold1((void*)uf_firstS, 0); bool r = bl_bit_array_subsumes(&a.core, &b.core); VC_ASSERT(r == (uf_firstS(0) == vcg_hi)); vc_cover("end");)
TWO(intersects, vcg_hi = vcg_na < vcg_nb ? vcg_na : vcg_nb; vc_unfold1((void*)uf_firstI, 0); bool r = bl_bit_array_intersects(&a.core, &b.core); VC_ASSERT(r == (uf_firstI(0) < vcg_hi)); vc_cover("end");)
TWO(equals, vcg_hi = vcg_na; vc_unfold1((void*)uf_firstD, 0); bool r = bl_bit_array_equals(&a.core, &b.core); VC_ASSERT(r == (a.size == b.size && uf_firstD(0) == vcg_hi)); vc_cover("end");)
// order: first differing bit decides (a set bit is greater), a prefix is smaller
TWO(compare, size_t m = a.size < b.size ? a.size : b.size; vcg_hi = (m + 31) / 32; vc_unfold1((void*)uf_firstD, 0); int r = bl_bit_array_compare(&a.core, &b.core);
  size_t d = uf_firstD(0); if (d < vcg_hi) VC_ASSERT((r < 0) == (vcg_a[d] < vcg_b[d]) && r != 0 && (r > 0) == (vcg_a[d] > vcg_b[d])); else VC_ASSERT((r < 0) == (a.size < b.size) && (r > 0) == (a.size > b.size)); vc_cover("end");)
ONE(get_range, vcg_hi = vcg_na; vc_unfold1((void*)uf_firstB, 0); vc_unfold1((void*)uf_last, vcg_hi); uint32_t s, e; bool r = bl_bit_array_get_range(&g.core, &s, &e); size_t f = uf_firstB(0), l = uf_last(vcg_hi);
  VC_ASSERT(r == (f < vcg_hi));
  if (!r) VC_ASSERT(s == 0 && e == 0);
  else { VC_ASSERT((s >> 5) == f && vcg_a[f] >> (31 - (s & 31)) == 1u); vc_cover("some");
    VC_ASSERT(e > 0 && (e - 1) >> 5 == l - 1); VC_ASSERT(uint32_t(vcg_a[l - 1] << ((e - 1) & 31)) == 0x80000000u); })
// lemma: the order of two words is the order of their most significant differing bit
H void h_lemma_order() { uint32_t x = vc_nd_u32("x"), y = vc_nd_u32("y"); vc_assume(x != y); uint32_t d = x ^ y; int p = 31 - __builtin_clz(d); VC_ASSERT((x < y) == (((y >> p) & 1) == 1)); }
