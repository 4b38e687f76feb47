// P01: validation and conversion of whole strings, unbounded length (loop invariants over a forward recursive specification).
//@ harness h_validate_utf8 merge=0
//@ harness h_copy_1 merge=0
//@ harness h_validate_utf16 merge=0
//@ harness h_copy_2 merge=0
#include "vc.h"
#include <blend2d/unicode/unicode.cpp>
using namespace bl; using namespace bl::Unicode;
#include "../common/unispec.inc"
//@ inv Utf8Reader::validate< 0 inv_v8
//@ inv Utf16Reader::validate< 0 inv_v16
//@ inv Utf32Reader::validate< 0 inv_v32
//@ inv convert_unicode_impl<bl::Unicode::Utf8Writer.*bl::Unicode::Utf16Reader 0 inv_c12
//@ inv convert_unicode_impl<bl::Unicode::Utf8Writer.*bl::Unicode::Utf32Reader 0 inv_c13
//@ inv convert_unicode_impl<bl::Unicode::Utf16Writer.*bl::Unicode::Utf8Reader 0 inv_c21
//@ inv convert_unicode_impl<bl::Unicode::Utf16Writer.*bl::Unicode::Utf32Reader 0 inv_c23
//@ inv convert_unicode_impl<bl::Unicode::Utf32Writer.*bl::Unicode::Utf8Reader 0 inv_c31
//@ inv convert_unicode_impl<bl::Unicode::Utf32Writer.*bl::Unicode::Utf16Reader 0 inv_c32
//@ inv convert_unicode_impl<bl::Unicode::Utf32Writer.*bl::Unicode::Utf32Reader 0 inv_c33
//@ inv validate_latin1_string 0 inv_vl1

static const uint8_t* vcg_s; static size_t vcg_n;     // source bytes; vcg_n is a multiple of the code unit size
static uint8_t* vcg_d; static uint8_t* vcg_d0; static size_t vcg_cap; static size_t vcg_k;

// ---- validation: forward recursive specification -------------------------------------------------------------
#define VALSPEC(E) \
  extern "C" VC_NOINLINE VC_USED uint64_t uf_vres##E(uint64_t pos) { if (pos >= vcg_n) return BL_SUCCESS; Dec d = spec_dec<E>(vcg_s, pos, vcg_n); if (d.err) return d.err; return uf_vres##E(pos + d.len); } \
  extern "C" VC_NOINLINE VC_USED uint64_t uf_vend##E(uint64_t pos) { if (pos >= vcg_n) return pos; Dec d = spec_dec<E>(vcg_s, pos, vcg_n); if (d.err) return pos; return uf_vend##E(pos + d.len); } \
  extern "C" VC_NOINLINE VC_USED uint64_t uf_vn32##E(uint64_t pos) { if (pos >= vcg_n) return 0; Dec d = spec_dec<E>(vcg_s, pos, vcg_n); if (d.err) return 0; return 1 + uf_vn32##E(pos + d.len); } \
  extern "C" VC_NOINLINE VC_USED uint64_t uf_vn16##E(uint64_t pos) { if (pos >= vcg_n) return 0; Dec d = spec_dec<E>(vcg_s, pos, vcg_n); if (d.err) return 0; return (d.cp >= 0x10000u ? 2u : 1u) + uf_vn16##E(pos + d.len); } \
  extern "C" VC_NOINLINE VC_USED uint64_t uf_vn8##E(uint64_t pos) { if (pos >= vcg_n) return 0; Dec d = spec_dec<E>(vcg_s, pos, vcg_n); if (d.err) return 0; return spec_len8(d.cp) + uf_vn8##E(pos + d.len); }
VALSPEC(1) VALSPEC(2) VALSPEC(3)
#define UNF(E, pos) vc_unfold1((void*)uf_vres##E, pos); vc_unfold1((void*)uf_vend##E, pos); vc_unfold1((void*)uf_vn32##E, pos); vc_unfold1((void*)uf_vn16##E, pos); vc_unfold1((void*)uf_vn8##E, pos);
#define VALINV(E, R, U) extern "C" void inv_v##R(Utf##R##Reader* this_, BLResult result) { \
  size_t pos = size_t((const uint8_t*)this_->_ptr - vcg_s); \
  vc_inv(vc_same_object(this_->_ptr, vcg_s) && vc_same_object(this_->_end, vcg_s)); \
  vc_inv(pos <= vcg_n && pos % U == 0 && (const uint8_t*)this_->_end == vcg_s + vcg_n && result == BL_SUCCESS); \
  UNF(E, pos) \
  vc_inv(uf_vres##E(0) == uf_vres##E(pos)); vc_inv(uf_vend##E(0) == uf_vend##E(pos)); \
  vc_inv(uf_vn8##E(0) == uf_vn8##E(pos) + this_->utf8_index(vcg_s)); vc_inv(uf_vn16##E(0) == uf_vn16##E(pos) + this_->utf16_index(vcg_s)); vc_inv(uf_vn32##E(0) == uf_vn32##E(pos) + this_->utf32_index(vcg_s)); \
}
VALINV(1, 8, 1) VALINV(2, 16, 2) VALINV(3, 32, 4)

#ifdef VC_NATIVE
#define NMAX 200
#else
#define NMAX (1u << 30)
#endif
// In native runs sources are drawn from a mix of well-formed sequences so that long valid prefixes are likely.
static size_t setup_src(uint32_t unit) {
  size_t n = vc_in("n", 0, NMAX);
  vcg_s = (const uint8_t*)vc_alloc_ro(n, "src");
  vcg_n = n / unit * unit;
  return n;
}
template<int E> static void validate_full() {
  const uint32_t U = E == 1 ? 1 : E == 2 ? 2 : 4;
  size_t n = setup_src(U);
  ValidationState st;
  BLResult r = bl_validate_unicode(vcg_s, n, BLTextEncoding(E - 1), st);
  uint64_t er, e8, e16, e32, end;
  if (E == 1) { er = uf_vres1(0); e8 = uf_vn81(0); e16 = uf_vn161(0); e32 = uf_vn321(0); end = uf_vend1(0); UNF(1, 0) }
  else if (E == 2) { er = uf_vres2(0); e8 = uf_vn82(0); e16 = uf_vn162(0); e32 = uf_vn322(0); end = uf_vend2(0); UNF(2, 0) }
  else { er = uf_vres3(0); e8 = uf_vn83(0); e16 = uf_vn163(0); e32 = uf_vn323(0); end = uf_vend3(0); UNF(3, 0) }
  if (er == BL_SUCCESS && vcg_n != n) er = BL_ERROR_DATA_TRUNCATED;
  VC_ASSERT(r == er);
  VC_ASSERT(st.utf8_index == e8); VC_ASSERT(st.utf16_index == e16); VC_ASSERT(st.utf32_index == e32);
  vc_cover("end");
}
H void h_validate_utf8() { validate_full<1>(); }
H void h_validate_utf16() { validate_full<2>(); }
H void h_validate_utf32() { validate_full<3>(); }

extern "C" VC_NOINLINE VC_USED uint64_t uf_hi(uint64_t i) { return i == 0 ? 0 : uf_hi(i - 1) + (vcg_s[i - 1] >= 0x80 ? 1 : 0); }
extern "C" void inv_vl1(const char* data, size_t size, size_t extra, size_t i) {
  vc_inv(i <= size && extra <= i); vc_unfold1((void*)uf_hi, i); vc_unfold1((void*)uf_hi, i + 1 <= vcg_n ? i + 1 : 0); vc_inv(extra == uf_hi(i)); }
H void h_validate_latin1() {
  size_t n = setup_src(1); ValidationState st;
  BLResult r = bl_validate_unicode(vcg_s, n, BL_TEXT_ENCODING_LATIN1, st);
  VC_ASSERT(r == BL_SUCCESS); VC_ASSERT(st.utf8_index == n + uf_hi(n)); VC_ASSERT(st.utf16_index == n); VC_ASSERT(st.utf32_index == n);
}
H void h_validate_invalid() {
  uint32_t e = vc_nd_u32("e"); vc_assume(e > BL_TEXT_ENCODING_MAX_VALUE); ValidationState st;
  VC_ASSERT(bl_validate_unicode(nullptr, 0, BLTextEncoding(e), st) == BL_ERROR_INVALID_VALUE);
  uint32_t d = vc_nd_u32("d"); vc_assume(d <= 2);
  ConversionState cs; VC_ASSERT(convert_unicode(nullptr, 0, BL_TEXT_ENCODING_LATIN1, nullptr, 0, d, cs) == BL_ERROR_INVALID_VALUE);
  VC_ASSERT(cs.dst_index == 0 && cs.src_index == 0);
}

// ---- conversion ------------------------------------------------------------------------------------------------
// uf_c*(s, d): outcome of converting from source position s with d bytes already written
#define CONVSPEC(T, DE, SE) \
  static inline bool stop##T(uint64_t s, uint64_t d, Dec& x) { x.err = 0; x.cp = 0; x.len = 0; if (s >= vcg_n) return true; x = spec_dec<SE>(vcg_s, s, vcg_n); if (x.err) return true; \
    if (vcg_cap - d < spec_len<DE>(x.cp)) { x.err = BL_ERROR_NO_SPACE_LEFT; return true; } return false; } \
  extern "C" VC_NOINLINE VC_USED uint64_t uf_cres##T(uint64_t s, uint64_t d) { Dec x; if (stop##T(s, d, x)) return x.err; return uf_cres##T(s + x.len, d + spec_len<DE>(x.cp)); } \
  extern "C" VC_NOINLINE VC_USED uint64_t uf_csrc##T(uint64_t s, uint64_t d) { Dec x; if (stop##T(s, d, x)) return s; return uf_csrc##T(s + x.len, d + spec_len<DE>(x.cp)); } \
  extern "C" VC_NOINLINE VC_USED uint64_t uf_cdst##T(uint64_t s, uint64_t d) { Dec x; if (stop##T(s, d, x)) return d; return uf_cdst##T(s + x.len, d + spec_len<DE>(x.cp)); } \
  extern "C" VC_NOINLINE VC_USED uint64_t uf_cout##T(uint64_t s, uint64_t d) { Dec x; if (stop##T(s, d, x)) return vcg_k < vcg_cap0 ? vcg_d0[vcg_k] : 0; uint32_t l = spec_len<DE>(x.cp); \
    if (vcg_k >= d && vcg_k < d + l) return spec_enc<DE>(x.cp, uint32_t(vcg_k - d)); return uf_cout##T(s + x.len, d + l); }
static size_t vcg_cap0;
CONVSPEC(12, 1, 2) CONVSPEC(13, 1, 3) CONVSPEC(21, 2, 1) CONVSPEC(23, 2, 3) CONVSPEC(31, 3, 1) CONVSPEC(32, 3, 2) CONVSPEC(33, 3, 3)
CONVSPEC(11, 1, 1) CONVSPEC(22, 2, 2)
struct RW { uint8_t* _ptr; uint8_t* _end; };
#define CONVINV(T, DU, SU) extern "C" void inv_c##T(RW& writer, RW& iter, BLResult result) { \
  vc_inv(vc_same_object(writer._ptr, vcg_d) && vc_same_object(iter._ptr, vcg_s)); \
  vc_inv(writer._end == vcg_d + vcg_cap && iter._end == vcg_s + vcg_n && result == BL_SUCCESS); \
  size_t s = size_t(iter._ptr - vcg_s), d = size_t(writer._ptr - vcg_d); \
  vc_inv(s <= vcg_n && d <= vcg_cap && s % SU == 0 && d % DU == 0); \
  vc_unfold2((void*)uf_cres##T, s, d); vc_unfold2((void*)uf_csrc##T, s, d); vc_unfold2((void*)uf_cdst##T, s, d); vc_unfold2((void*)uf_cout##T, s, d); \
  vc_inv(uf_cres##T(0, 0) == uf_cres##T(s, d)); vc_inv(uf_csrc##T(0, 0) == uf_csrc##T(s, d)); vc_inv(uf_cdst##T(0, 0) == uf_cdst##T(s, d)); \
  vc_inv(vcg_k < d ? vcg_d[vcg_k] == uf_cout##T(0, 0) : (vcg_d[vcg_k] == vcg_d0[vcg_k] && uf_cout##T(0, 0) == uf_cout##T(s, d))); \
}
CONVINV(12, 1, 2) CONVINV(13, 1, 4) CONVINV(21, 2, 1) CONVINV(23, 2, 4) CONVINV(31, 4, 1) CONVINV(32, 4, 2) CONVINV(33, 4, 4)
#define CONV(T, DE, SE, DU, SU) H void h_convert_##T() { \
  size_t n = setup_src(SU); \
  vcg_cap0 = vc_in("cap", 1, NMAX); vcg_cap = vcg_cap0 / DU * DU; vcg_d = (uint8_t*)vc_alloc(vcg_cap0, "dst"); vcg_d0 = (uint8_t*)vc_snapshot(vcg_d); \
  vcg_k = vc_in("k", 0, NMAX - 1); vc_assume(vcg_k < vcg_cap0); \
  ConversionState cs; BLResult r = convert_unicode(vcg_d, vcg_cap0, DE - 1, vcg_s, n, SE - 1, cs); \
  uint64_t er = uf_cres##T(0, 0); if (er == BL_SUCCESS && n != vcg_n) er = BL_ERROR_DATA_TRUNCATED; \
  VC_ASSERT(r == er); VC_ASSERT(cs.src_index == uf_csrc##T(0, 0)); VC_ASSERT(cs.dst_index == uf_cdst##T(0, 0)); \
  VC_ASSERT(vcg_d[vcg_k] == uf_cout##T(0, 0)); vc_cover("end"); }
CONV(12, 1, 2, 1, 2) CONV(13, 1, 3, 1, 4) CONV(21, 2, 1, 2, 1) CONV(23, 2, 3, 2, 4) CONV(31, 3, 1, 4, 1) CONV(32, 3, 2, 4, 2) CONV(33, 3, 3, 4, 4)

// ---- same-encoding copies: the longest valid prefix that fits is copied, the rest of the destination is untouched ----
#define COPY(E, U) H void h_copy_##E() { \
  size_t n = setup_src(1); vcg_cap0 = vc_in("cap", 1, NMAX); vcg_d = (uint8_t*)vc_alloc(vcg_cap0, "dst"); vcg_d0 = (uint8_t*)vc_snapshot(vcg_d); \
  size_t k = vc_in("k", 0, NMAX - 1); vc_assume(k < vcg_cap0); \
  size_t m = (n < vcg_cap0 ? n : vcg_cap0) / U * U; vcg_n = m; \
  ConversionState cs; BLResult r = convert_unicode(vcg_d, vcg_cap0, E - 1, vcg_s, n, E - 1, cs); \
  UNF(E, 0) uint64_t er = uf_vres##E(0); bool cut = m < n / U * U; \
  if (cut && (er == BL_SUCCESS || er == BL_ERROR_DATA_TRUNCATED)) er = BL_ERROR_NO_SPACE_LEFT; \
  if (er == BL_SUCCESS && n % U != 0) er = BL_ERROR_DATA_TRUNCATED; \
  size_t e = E == 1 ? uf_vn8##E(0) : uf_vn16##E(0) * 2; \
  VC_ASSERT(r == er); VC_ASSERT(cs.src_index == e && cs.dst_index == e); VC_ASSERT(vcg_d[k] == (k < e ? vcg_s[k] : vcg_d0[k])); vc_cover("end"); }
COPY(1, 1) COPY(2, 2)
H void h_copy_latin1() {
  size_t n = setup_src(1); vcg_cap0 = vc_in("cap", 1, NMAX); vcg_d = (uint8_t*)vc_alloc(vcg_cap0, "dst"); vcg_d0 = (uint8_t*)vc_snapshot(vcg_d);
  size_t k = vc_in("k", 0, NMAX - 1); vc_assume(k < vcg_cap0);
  ConversionState cs; BLResult r = convert_unicode(vcg_d, vcg_cap0, BL_TEXT_ENCODING_LATIN1, vcg_s, n, BL_TEXT_ENCODING_LATIN1, cs);
  size_t m = n < vcg_cap0 ? n : vcg_cap0;
  VC_ASSERT(r == (n <= vcg_cap0 ? BL_SUCCESS : BL_ERROR_NO_SPACE_LEFT)); VC_ASSERT(cs.src_index == m && cs.dst_index == m); VC_ASSERT(vcg_d[k] == (k < m ? vcg_s[k] : vcg_d0[k]));
}
// ---- Latin-1 sources ---------------------------------------------------------------------------------------------
//@ inv Unicode::convert_unicode\( 0 inv_l8
//@ inv Unicode::convert_unicode\( 1 inv_l8
template<> inline Dec spec_dec<4>(const uint8_t* p, size_t pos, size_t) { Dec d; d.err = BL_SUCCESS; d.cp = p[pos]; d.len = 1; return d; }
CONVSPEC(14, 1, 4)
extern "C" void inv_l8(RW& writer, size_t i, BLResult result) {
  vc_inv(vc_same_object(writer._ptr, vcg_d) && writer._end == vcg_d + vcg_cap && result == BL_SUCCESS && i <= vcg_n);
  size_t d = size_t(writer._ptr - vcg_d); vc_inv(d <= vcg_cap && d <= 2 * i);
  vc_unfold2((void*)uf_cres14, i, d); vc_unfold2((void*)uf_csrc14, i, d); vc_unfold2((void*)uf_cdst14, i, d); vc_unfold2((void*)uf_cout14, i, d);
  vc_inv(uf_cres14(0, 0) == uf_cres14(i, d)); vc_inv(uf_csrc14(0, 0) == uf_csrc14(i, d)); vc_inv(uf_cdst14(0, 0) == uf_cdst14(i, d));
  vc_inv(vcg_k < d ? vcg_d[vcg_k] == uf_cout14(0, 0) : (vcg_d[vcg_k] == vcg_d0[vcg_k] && uf_cout14(0, 0) == uf_cout14(i, d)));
}
#undef SU4
H void h_convert_14() { 
  size_t n = setup_src(1); 
  vcg_cap0 = vcg_cap = vc_in("cap", 1, NMAX); vcg_d = (uint8_t*)vc_alloc(vcg_cap0, "dst"); vcg_d0 = (uint8_t*)vc_snapshot(vcg_d); 
  vcg_k = vc_in("k", 0, NMAX - 1); vc_assume(vcg_k < vcg_cap0);
  ConversionState cs; BLResult r = convert_unicode(vcg_d, vcg_cap0, BL_TEXT_ENCODING_UTF8, vcg_s, n, BL_TEXT_ENCODING_LATIN1, cs); 
  VC_ASSERT(r == uf_cres14(0, 0)); VC_ASSERT(cs.src_index == uf_csrc14(0, 0)); VC_ASSERT(cs.dst_index == uf_cdst14(0, 0)); 
  VC_ASSERT(vcg_d[vcg_k] == uf_cout14(0, 0)); vc_cover("end"); }
//@ inv Unicode::convert_unicode\( 2 inv_l16
//@ inv Unicode::convert_unicode\( 3 inv_l32
template<uint32_t U> static inline uint8_t wide(size_t k, size_t i) { return k < i * U ? (k % U == 0 ? vcg_s[k / U] : 0) : vcg_d0[k]; }
extern "C" void inv_l16(size_t i, size_t count) { vc_inv(i <= count && count <= vcg_n && count * 2 <= vcg_cap0); vc_inv(vcg_d[vcg_k] == wide<2>(vcg_k, i)); }
extern "C" void inv_l32(size_t i, size_t count) { vc_inv(i <= count && count <= vcg_n && count * 4 <= vcg_cap0); vc_inv(vcg_d[vcg_k] == wide<4>(vcg_k, i)); }
#define WIDE(E, U) H void h_convert_##E##4() { \
  size_t n = setup_src(1); vcg_cap0 = vc_in("cap", 1, NMAX); vcg_d = (uint8_t*)vc_alloc(vcg_cap0, "dst"); vcg_d0 = (uint8_t*)vc_snapshot(vcg_d); \
  vcg_k = vc_in("k", 0, NMAX - 1); vc_assume(vcg_k < vcg_cap0); \
  ConversionState cs; BLResult r = convert_unicode(vcg_d, vcg_cap0, E - 1, vcg_s, n, BL_TEXT_ENCODING_LATIN1, cs); \
  size_t m = vcg_cap0 / U < n ? vcg_cap0 / U : n; \
  VC_ASSERT(r == (m == n ? BL_SUCCESS : BL_ERROR_NO_SPACE_LEFT)); VC_ASSERT(cs.src_index == m && cs.dst_index == m * U); VC_ASSERT(vcg_d[vcg_k] == wide<U>(vcg_k, m)); vc_cover("end"); }
WIDE(2, 2) WIDE(3, 4)
