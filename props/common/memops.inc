// Contracts of the element-wise copy / fill helpers.  The contract bodies are executed at call sites; the harnesses below
// prove the real loops against them (instantiated per property with MEMOPS_PROOF).
#ifndef MEMOPS_INC
#define MEMOPS_INC
#include <blend2d/support/memops_p.h>
template<typename T> static inline void ct_copy_t(T* dst, const T* src, size_t count) {
  vc_assert(count < (size_t(1) << 40), "copy: sane count");
  memmove(dst, src, count * sizeof(T));
}
template<typename T> static inline void ct_fill0_t(T* dst, const T& pattern, size_t count) {
  vc_assert(count < (size_t(1) << 40), "fill: sane count");
  vc_assert(pattern == 0, "fill: only zero fills are specified");
  memset(dst, 0, count * sizeof(T));
}
#endif
