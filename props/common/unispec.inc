// Independent specification of the Unicode encoding forms (RFC 3629 / Unicode D92..D95), native byte order.
struct Dec { uint32_t err; uint32_t cp; uint32_t len; };
static inline bool spec_cont(uint32_t b) { return (b & 0xC0u) == 0x80u; }
static inline Dec spec_dec8(const uint8_t* p, size_t pos, size_t n, bool strict) {
  Dec d; d.err = BL_SUCCESS; d.cp = 0; d.len = 1;
  uint32_t b0 = p[pos];
  if (b0 < 0x80u) { d.cp = b0; return d; }
  if (b0 < 0xC2u || b0 > 0xF4u) { d.err = BL_ERROR_INVALID_STRING;
    return d; }
  uint32_t len = b0 < 0xE0u ? 2u : b0 < 0xF0u ? 3u : 4u;
  d.len = len;
  if (n - pos < len) { d.err = BL_ERROR_DATA_TRUNCATED; return d; }
  uint32_t b1 = p[pos + 1], b2 = len > 2 ? p[pos + 2] : 0x80u, b3 = len > 3 ? p[pos + 3] : 0x80u;
  if (!(spec_cont(b1) & spec_cont(b2) & spec_cont(b3))) { d.err = BL_ERROR_INVALID_STRING; return d; }
  uint32_t cp = len == 2 ? ((b0 & 0x1Fu) << 6) | (b1 & 0x3Fu) : len == 3 ? ((b0 & 0x0Fu) << 12) | ((b1 & 0x3Fu) << 6) | (b2 & 0x3Fu)
              : ((b0 & 0x07u) << 18) | ((b1 & 0x3Fu) << 12) | ((b2 & 0x3Fu) << 6) | (b3 & 0x3Fu);
  if ((len == 3 && cp < 0x800u) || (len == 4 && (cp < 0x10000u || cp > 0x10FFFFu))) d.err = BL_ERROR_INVALID_STRING;
  if (strict && cp >= 0xD800u && cp <= 0xDFFFu) d.err = BL_ERROR_INVALID_STRING;
  d.cp = cp;
  return d;
}
static inline uint32_t spec_u16(const uint8_t* p) { return uint32_t(p[0]) | (uint32_t(p[1]) << 8); }
static inline uint32_t spec_u32(const uint8_t* p) { return spec_u16(p) | (spec_u16(p + 2) << 16); }
// n is a multiple of 2
static inline Dec spec_dec16(const uint8_t* p, size_t pos, size_t n, bool strict) {
  Dec d; d.err = BL_SUCCESS; d.len = 2;
  uint32_t u = spec_u16(p + pos); d.cp = u;
  if ((u & 0xF800u) != 0xD800u) return d;
  if (u >= 0xDC00u) { if (strict) d.err = BL_ERROR_INVALID_STRING; return d; }
  if (n - pos < 4) { if (strict) d.err = BL_ERROR_DATA_TRUNCATED; return d; }
  uint32_t v = spec_u16(p + pos + 2);
  if ((v & 0xFC00u) != 0xDC00u) { if (strict) d.err = BL_ERROR_INVALID_STRING; return d; }
  d.cp = 0x10000u + ((u & 0x3FFu) << 10) + (v & 0x3FFu); d.len = 4;
  return d;
}
static inline Dec spec_dec32(const uint8_t* p, size_t pos, size_t n, bool strict) {
  Dec d; d.err = BL_SUCCESS; d.len = 4; d.cp = spec_u32(p + pos);
  if (d.cp > 0x10FFFFu || (strict && (d.cp & 0xFFFFF800u) == 0xD800u)) d.err = BL_ERROR_INVALID_STRING;
  return d;
}
template<int E> static inline Dec spec_dec(const uint8_t* p, size_t pos, size_t n) {
  if (E == 1) return spec_dec8(p, pos, n, true);
  if (E == 2) return spec_dec16(p, pos, n, true);
  return spec_dec32(p, pos, n, true);
}
static inline uint32_t spec_len8(uint32_t cp) { return cp < 0x80u ? 1u : cp < 0x800u ? 2u : cp < 0x10000u ? 3u : 4u; }
static inline uint32_t spec_len16(uint32_t cp) { return cp < 0x10000u ? 2u : 4u; }
template<int E> static inline uint32_t spec_len(uint32_t cp) { return E == 1 ? spec_len8(cp) : E == 2 ? spec_len16(cp) : 4u; }
// byte i of the encoded form of cp
template<int E> static inline uint8_t spec_enc(uint32_t cp, uint32_t i) {
  if (E == 1) {
    uint32_t len = spec_len8(cp);
    if (len == 1) return uint8_t(cp);
    uint32_t lead = len == 2 ? 0xC0u : len == 3 ? 0xE0u : 0xF0u;
    uint32_t bits = (cp >> (6u * (len - 1u - i))) & 0x3Fu;
    return uint8_t(i == 0 ? (lead | (cp >> (6u * (len - 1u)))) : (0x80u | bits));
  }
  if (E == 2) {
    if (cp < 0x10000u) return uint8_t(cp >> (8u * i));
    uint32_t v = cp - 0x10000u; uint32_t hi = 0xD800u + (v >> 10), lo = 0xDC00u + (v & 0x3FFu);
    return uint8_t((i < 2 ? hi : lo) >> (8u * (i & 1u)));
  }
  return uint8_t(cp >> (8u * i));
}
