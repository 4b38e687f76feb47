// Word-level specification of the range / word-combination operations, shared by the unit proofs and by the contracts.
enum { OP_ASSIGN, OP_OR, OP_ANDNOT };
static inline uint32_t spec_op(int op, uint32_t a, uint32_t b) { return op == OP_ASSIGN ? b : op == OP_OR ? (a | b) : (a & ~b); }
// bits [from, to) of the word whose first bit is 32 * x (bit 0 of a word is its most significant bit)
static inline uint32_t spec_mask(size_t x, size_t from, size_t to) {
  size_t b = x * 32; uint32_t m = 0xFFFFFFFFu;
  if (from >= b + 32 || to <= b) return 0;
  if (from > b) m &= 0xFFFFFFFFu >> (from - b);
  if (to < b + 32) m &= ~(0xFFFFFFFFu >> (to - b));
  return m;
}
// the 32 source bits that fall on word x when `src` (wc words) is laid out starting at bit `bi`
static inline uint32_t spec_src(size_t x, size_t bi, const uint32_t* src, size_t wc) {
  size_t y = x - (bi >> 5); uint32_t sh = uint32_t(bi & 31); uint32_t v = 0;
  if (y < wc) v |= src[y] >> sh;
  if (sh && y >= 1 && y - 1 < wc) v |= src[y - 1] << (32 - sh);
  return v;
}
static inline uint32_t spec_word(int op, uint32_t old, size_t x, size_t bi, size_t end, uint32_t v) { uint32_t m = spec_mask(x, bi, end); return (old & ~m) | (spec_op(op, old, v) & m); }
static inline size_t spec_end(size_t bi, size_t wc, size_t size) { return wc * 32 < size - bi ? bi + wc * 32 : size; }
