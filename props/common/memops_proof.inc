// Proof of the helpers against the contracts of memops.inc: every element below count is written, nothing else is.
#include "memops.inc"
//@ inv MemOps::.*copy_forward_inline_t< 0 inv_copy
//@ inv MemOps::.*fill_inline_t< 0 inv_fill
static uint8_t* vcg_md; static uint8_t* vcg_md0; static const uint8_t* vcg_ms; static size_t vcg_moff, vcg_mk, vcg_msz;
extern "C" void inv_copy(const void* dst, const void* src, size_t count, size_t i) {
  vc_inv(i <= count);
  size_t end = vcg_moff + i * vcg_msz;
  vc_inv(vcg_md[vcg_mk] == (vcg_mk >= vcg_moff && vcg_mk < end ? vcg_ms[vcg_mk - vcg_moff] : vcg_md0[vcg_mk]));
}
extern "C" void inv_fill(size_t count, size_t i) {
  vc_inv(i <= count);
  size_t end = vcg_moff + i * vcg_msz;
  vc_inv(vcg_md[vcg_mk] == (vcg_mk >= vcg_moff && vcg_mk < end ? 0 : vcg_md0[vcg_mk]));
}
#ifdef VC_NATIVE
#define MO_MAX 64
#else
#define MO_MAX (size_t(1) << 36)
#endif
template<typename T> static void memops_setup(size_t& count, T*& dst) {
  count = vc_in("count", 0, MO_MAX / sizeof(T)); size_t off = vc_in("off", 0, 8); size_t tail = vc_in("tail", 0, 8);
  vcg_msz = sizeof(T); vcg_moff = off * sizeof(T);
  size_t n = (off + count + tail + 1) * sizeof(T);
  vcg_md = (uint8_t*)vc_alloc(n, "dst"); vcg_md0 = (uint8_t*)vc_snapshot(vcg_md); vcg_mk = vc_in("k", 0, MO_MAX * 2); vc_assume(vcg_mk < n);
  dst = (T*)(vcg_md + vcg_moff);
}
template<typename T> static void memops_copy() {
  size_t count; T* dst; memops_setup(count, dst);
  vcg_ms = (const uint8_t*)vc_alloc_ro(count * sizeof(T) + 1, "src");
  bl::MemOps::copy_forward_inline_t(dst, (const T*)vcg_ms, count);
  VC_ASSERT(vcg_md[vcg_mk] == (vcg_mk >= vcg_moff && vcg_mk < vcg_moff + count * sizeof(T) ? vcg_ms[vcg_mk - vcg_moff] : vcg_md0[vcg_mk])); vc_cover("end");
}
template<typename T> static void memops_fill0() {
  size_t count; T* dst; memops_setup(count, dst);
  bl::MemOps::fill_inline_t(dst, T(0), count);
  VC_ASSERT(vcg_md[vcg_mk] == (vcg_mk >= vcg_moff && vcg_mk < vcg_moff + count * sizeof(T) ? 0 : vcg_md0[vcg_mk])); vc_cover("end");
}
