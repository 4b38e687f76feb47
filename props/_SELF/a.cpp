#include "vc.h"
//@ inv sum_to 0 inv_sum
//@ inv find_max 0 inv_max
//@ inv fillz 0 inv_fillz
static uint32_t clz(uint32_t x) { uint32_t n = 0; while (n < 32 && !(x & 0x80000000u)) { x <<= 1; n++; } return n; }
H void h_ok_clz() { uint32_t x = vc_nd_u32("x"); vc_assume(x != 0); VC_ASSERT(clz(x) == uint32_t(__builtin_clz(x))); }
H void h_bad_clz() { uint32_t x = vc_nd_u32("x"); vc_assume(x != 0); VC_ASSERT(clz(x) == uint32_t(__builtin_clz(x)) + (x == 77777)); }
VC_NOINLINE static uint64_t sum_to(uint32_t n) { uint64_t s = 0; for (uint32_t i = 0; i < n; i++) s += i; return s; }
extern "C" void inv_sum(uint32_t n, uint32_t i, uint64_t s) { vc_inv(i <= n); vc_inv(2 * s == (uint64_t(i) * (uint64_t(i) - 1))); vc_inv(s < (1ull << 63)); }
H void h_ok_sum() { uint32_t n = uint32_t(vc_in("n", 1, 1000)); uint64_t r = sum_to(n); VC_ASSERT(2 * r == uint64_t(n) * (n - 1)); }
VC_NOINLINE static size_t find_max(const uint32_t* a, size_t n) { size_t best = 0; for (size_t i = 1; i < n; i++) if (a[i] > a[best]) best = i; return best; }
size_t vcg_k;
extern "C" void inv_max(const uint32_t* a, size_t n, size_t best, size_t i) { vc_inv(i >= 1 && i <= n && best < i); vc_inv(!(vcg_k < i) || a[vcg_k] <= a[best]); }
H void h_ok_max() { size_t n = vc_in("n", 1, 1u << 20); uint32_t* a = (uint32_t*)vc_alloc_ro(n * 4, "a"); vcg_k = vc_in("k", 0, n - 1); size_t m = find_max(a, n); VC_ASSERT(m < n); VC_ASSERT(a[m] >= a[vcg_k]); vc_cover("end"); }
H void h_bad_max() { size_t n = vc_in("n", 1, 1u << 20); uint32_t* a = (uint32_t*)vc_alloc_ro(n * 4, "a"); vcg_k = vc_in("k", 0, n - 1); size_t m = find_max(a, n); VC_ASSERT(a[m] > a[vcg_k]); }
H void h_bad_oob() { size_t n = vc_in("n", 1, 1u << 20); uint32_t* a = (uint32_t*)vc_alloc(n * 4, "a"); size_t i = vc_in("i", 0, n); a[i] = 4; }
VC_NOINLINE static void fillz(uint8_t* p, size_t n) { uint8_t* e = p + n; while (p != e) { *p = 0; p++; } }
uint8_t* vcg_p;
extern "C" void inv_fillz(uint8_t* p, size_t n, uint8_t* e) { vc_inv(e == vcg_p + n && vc_same_object(p, vcg_p) && p <= e && p >= vcg_p); vc_inv(!(vcg_k < size_t(p - vcg_p)) || vcg_p[vcg_k] == 0); }
H void h_ok_fillz() { size_t n = vc_in("n", 1, 1u << 20); vcg_p = (uint8_t*)vc_alloc(n, "a"); vcg_k = vc_in("k", 0, n - 1); fillz(vcg_p, n); VC_ASSERT(vcg_p[vcg_k] == 0); vc_cover("end"); }
H void h_bad_fillz() { size_t n = vc_in("n", 1, 1u << 20); vcg_p = (uint8_t*)vc_alloc(n, "a"); vcg_k = vc_in("k", 0, n - 1); fillz(vcg_p, n - 1); VC_ASSERT(vcg_p[vcg_k] == 0); }
H void h_ok_malloc() { uint64_t* p = (uint64_t*)malloc(24); if (p) { p[2] = 7; VC_ASSERT(p[2] == 7); VC_ASSERT(vc_live() == 1); free(p); } VC_ASSERT(vc_live() == 0); vc_cover("end"); }
H void h_bad_uaf() { uint64_t* p = (uint64_t*)malloc(24); if (p) { p[2] = 7; free(p); VC_ASSERT(p[2] == 7); } }
H void h_bad_null() { uint64_t* p = (uint64_t*)malloc(24); p[2] = 7; free(p); }
H void h_ok_cpy() { size_t n = vc_in("n", 1, 1u << 20); uint8_t* a = (uint8_t*)vc_alloc(n, "a"); uint8_t* b = (uint8_t*)vc_alloc(n + 4, "b"); uint8_t* b0 = (uint8_t*)vc_snapshot(b); memcpy(b + 2, a, n); size_t k = vc_in("k", 0, n + 3); uint8_t e = k < 2 || k >= n + 2 ? b0[k] : a[k - 2]; VC_ASSERT(b[k] == e); }
H void h_bad_cpy() { size_t n = vc_in("n", 1, 1u << 20); uint8_t* a = (uint8_t*)vc_alloc(n, "a"); uint8_t* b = (uint8_t*)vc_alloc(n + 4, "b"); memcpy(b + 5, a, n); }
struct S { uint32_t a; uint16_t b[6]; };
H void h_ok_struct() { S s; s.a = vc_nd_u32("a"); for (int i = 0; i < 6; i++) s.b[i] = vc_nd_u16("b"); size_t i = vc_in("i", 0, 5); s.b[i] = 3; S t = s; VC_ASSERT(t.b[i] == 3); VC_ASSERT(t.a == s.a); uint32_t x; memcpy(&x, &t.b[2], 4); VC_ASSERT((x & 0xFFFF) == t.b[2] && (x >> 16) == t.b[3]); }
H void h_bad_ovf() { int a = vc_nd_i32("a"); int b = a + 1; VC_ASSERT(b != 12345 || a == 12344); }
H void h_ok_f() { double x = vc_nd_f64("x"); vc_assume(x >= 0 && x <= 100); int i = int(x); VC_ASSERT(i >= 0 && i <= 100); double y = x * 2; VC_ASSERT(y >= x); }
H void h_bad_f() { double x = vc_nd_f64("x"); vc_assume(x >= 0); int i = int(x); VC_ASSERT(i >= 0); }
