// P01: each UTF reader step decodes exactly the well-formed sequences; each writer step encodes exactly the scalar value.
#include "vc.h"
#include <blend2d/unicode/unicode.cpp>
using namespace bl; using namespace bl::Unicode;
#include "../common/unispec.inc"

template<typename Reader, int E, IOFlags F> static void reader_step() {
  size_t n = vc_in("n", 1, 1u << 30);
  uint8_t* p = (uint8_t*)vc_alloc_ro(n, "p");
  size_t na = n / Reader::kCharSize * Reader::kCharSize;
  Reader it(p, n);
  size_t pos = vc_in("pos", 0, n); vc_assume(pos < na && pos % Reader::kCharSize == 0);
  it._ptr = (const char*)p + pos;
  size_t i8 = it.utf8_index(p), i16 = it.utf16_index(p), i32 = it.utf32_index(p);
  VC_ASSERT(it.has_next()); VC_ASSERT(it.remaining_byte_size() == na - pos); VC_ASSERT(it.byte_index(p) == pos);
  bool strict = bl_test_flag(F, IOFlags::kStrict);
  Dec d = E == 1 ? spec_dec8(p, pos, na, strict) : E == 2 ? spec_dec16(p, pos, na, strict) : spec_dec32(p, pos, na, strict);
  uint32_t uc = 0; size_t len = 0;
  BLResult r = it.template next<F>(uc, len);
  VC_ASSERT(r == d.err);
  VC_ASSERT(it.byte_index(p) == pos + (r == BL_SUCCESS ? d.len : 0));
  if (r == BL_SUCCESS) {
    VC_ASSERT(uc == d.cp); VC_ASSERT(len == d.len);
    if (bl_test_flag(F, IOFlags::kCalcIndex)) {
      VC_ASSERT(it.utf32_index(p) - i32 == 1);
      VC_ASSERT(it.utf16_index(p) - i16 == (d.cp >= 0x10000u ? 2u : 1u));
      VC_ASSERT(it.utf8_index(p) - i8 == spec_len8(d.cp));
    }
    vc_cover("success");
  }
  else vc_cover("error");
}
H void h_read8_strict() { reader_step<Utf8Reader, 1, IOFlags::kStrict | IOFlags::kCalcIndex>(); }
H void h_read8() { reader_step<Utf8Reader, 1, IOFlags::kCalcIndex>(); }
H void h_read8_noidx() { reader_step<Utf8Reader, 1, IOFlags::kStrict>(); }
H void h_read16_strict() { reader_step<Utf16Reader, 2, IOFlags::kStrict | IOFlags::kCalcIndex | IOFlags::kUnaligned>(); }
H void h_read16_aligned() { reader_step<Utf16Reader, 2, IOFlags::kStrict>(); }
H void h_read32_strict() { reader_step<Utf32Reader, 4, IOFlags::kStrict | IOFlags::kCalcIndex | IOFlags::kUnaligned>(); }
H void h_read32() { reader_step<Utf32Reader, 4, IOFlags::kCalcIndex>(); }
H void h_read32_noidx() { reader_step<Utf32Reader, 4, IOFlags::kNoFlags>(); }
// big-endian UTF-16 (OpenType names): same as native order on byte-swapped input
H void h_read16_be() {
  uint8_t* p = (uint8_t*)vc_alloc_ro(4, "p"); uint8_t q[4] = { p[1], p[0], p[3], p[2] };
  size_t n = vc_in("n", 2, 4); n &= ~size_t(1);
  Utf16Reader it(p, n); uint32_t uc = 0; size_t len = 0;
  BLResult r = it.next<IOFlags::kUnaligned | IOFlags::kByteOrderBE | IOFlags::kStrict>(uc, len);
  Dec d = spec_dec16(q, 0, n, true);
  VC_ASSERT(r == d.err); VC_ASSERT(it.byte_index(p) == (r == BL_SUCCESS ? d.len : 0));
  if (r == BL_SUCCESS) { VC_ASSERT(uc == d.cp); VC_ASSERT(len == d.len); }
}

template<typename Writer, typename CharT, int E, typename Fn> static void writer_step(Fn fn, bool unsafe) {
  size_t n = vc_in("n", 0, 1u << 28);   // characters
  CharT* p = (CharT*)vc_alloc(n * sizeof(CharT), "p");
  CharT* p0 = (CharT*)vc_snapshot(p);
  Writer w(p, n);
  size_t pos = vc_in("pos", 0, n); w._ptr = p + pos;
  uint32_t uc = vc_nd_u32("uc"); vc_assume(uc <= 0x10FFFFu);
  size_t len = spec_len<E>(uc) / sizeof(CharT);
  if (unsafe) vc_assume(n - pos >= len);
  VC_ASSERT(w.at_end() == (pos == n)); VC_ASSERT(w.index(p) == pos); VC_ASSERT(w.remaining_size() == n - pos);
  BLResult r = fn(w, uc);
  VC_ASSERT((r == BL_SUCCESS) == (n - pos >= len));
  VC_ASSERT(r == BL_SUCCESS || r == BL_ERROR_NO_SPACE_LEFT);
  VC_ASSERT(w.index(p) == pos + (r == BL_SUCCESS ? len : 0));
  size_t k = vc_nd_size("k"); vc_assume(k < n * sizeof(CharT));
  size_t b = pos * sizeof(CharT);
  uint8_t expect = r == BL_SUCCESS && k >= b && k < b + len * sizeof(CharT) ? spec_enc<E>(uc, uint32_t(k - b)) : ((uint8_t*)p0)[k];
  VC_ASSERT(((uint8_t*)p)[k] == expect);
  vc_cover("end");
}
H void h_write8() { writer_step<Utf8Writer, char, 1>([](Utf8Writer& w, uint32_t uc) { return w.write(uc); }, false); }
H void h_write8_unsafe() { writer_step<Utf8Writer, char, 1>([](Utf8Writer& w, uint32_t uc) { return w.write_unsafe(uc); }, true); }
H void h_write16() { writer_step<Utf16Writer<>, uint16_t, 2>([](Utf16Writer<>& w, uint32_t uc) { return w.write(uc); }, false); }
H void h_write16_u() { typedef Utf16Writer<BL_BYTE_ORDER_NATIVE, 1> W; writer_step<W, uint16_t, 2>([](W& w, uint32_t uc) { return w.write(uc); }, false); }
H void h_write16_unsafe() { writer_step<Utf16Writer<>, uint16_t, 2>([](Utf16Writer<>& w, uint32_t uc) { return uc < 0x10000u ? w.writeBMPUnsafe(uc) : w.writeSMPUnsafe(uc); }, true); }
H void h_write32() { writer_step<Utf32Writer<>, uint32_t, 4>([](Utf32Writer<>& w, uint32_t uc) { return w.write(uc); }, false); }
H void h_write32_u() { typedef Utf32Writer<BL_BYTE_ORDER_NATIVE, 1> W; writer_step<W, uint32_t, 4>([](W& w, uint32_t uc) { return w.write(uc); }, false); }

// classification helpers and the lead-byte table
H void h_tables() {
  uint8_t c = vc_nd_u8("c");
  uint32_t len = c < 0x80 ? 1u : c < 0xC2 ? 0u : c < 0xE0 ? 2u : c < 0xF0 ? 3u : c < 0xF5 ? 4u : 0u;
  VC_ASSERT(utf8_char_size(c) == len);
  VC_ASSERT(utf8_char_size((signed char)c) == len);
  uint32_t u = vc_nd_u32("u");
  VC_ASSERT(is_surrogate(u) == (u >= 0xD800u && u <= 0xDFFFu));
  VC_ASSERT(is_hi_surrogate(u) == (u >= 0xD800u && u <= 0xDBFFu));
  VC_ASSERT(is_lo_surrogate(u) == (u >= 0xDC00u && u <= 0xDFFFu));
  if (u >= 0x10000u && u <= 0x10FFFFu) { uint32_t hi, lo; bl_char_to_surrogate(u, hi, lo); VC_ASSERT(is_hi_surrogate(hi) && is_lo_surrogate(lo)); VC_ASSERT(char_from_surrogate(hi, lo) == u); }
  VC_ASSERT(ascii_to_lower(u) == (u >= 'A' && u <= 'Z' ? u + 32 : u));
  VC_ASSERT(ascii_to_upper(u) == (u >= 'a' && u <= 'z' ? u - 32 : u));
  VC_ASSERT(is_ascii_digit(u) == (u >= '0' && u <= '9'));
  VC_ASSERT(is_ascii_alpha(u) == ((u >= 'a' && u <= 'z') || (u >= 'A' && u <= 'Z')));
  VC_ASSERT(is_ascii_alnum(u) == (is_ascii_digit(u) || is_ascii_alpha(u)));
}
