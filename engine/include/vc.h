// Contract language of the verifier.  In proof mode (default) the vc_* functions are interpreted by engine/vcgen.py.
// With -DVC_NATIVE the same harness is compiled to an executable: nondeterministic values come from a replay file or a
// random generator, vc_assume() discards the run and vc_assert() reports a failure.
#ifndef VC_H
#define VC_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>

#define VC_NOINLINE __attribute__((noinline))
#define VC_USED __attribute__((used))
#define H extern "C" VC_USED VC_NOINLINE

extern "C" {
uint8_t  vc_nd_u8(const char* label);
uint16_t vc_nd_u16(const char* label);
uint32_t vc_nd_u32(const char* label);
uint64_t vc_nd_u64(const char* label);
float    vc_nd_f32(const char* label);
double   vc_nd_f64(const char* label);
bool     vc_nd_bool(const char* label);
void     vc_assume(bool c);
void     vc_assert(bool c, const char* label);
void     vc_inv(bool c);
void     vc_cover(const char* label);
void*    vc_alloc(size_t n, const char* label);      // object of n bytes with arbitrary contents
void*    vc_alloc_ro(size_t n, const char* label);   // same, but any write through it is a violation
void*    vc_heap(size_t n, const char* label);       // object of n bytes that the code may free()
void     vc_havoc(void* p, size_t n, const char* label);
void*    vc_snapshot(const void* p);                 // read-only copy of the current contents of the object p points into
size_t   vc_live(void);                              // number of live heap objects
bool     vc_is_live(const void* p);
size_t   vc_objsize(const void* p);
size_t   vc_offset(const void* p);
bool     vc_same_object(const void* a, const void* b);
bool     vc_native(void);
uint64_t vc_concretize(uint64_t v);
extern uint8_t vc_oom_flag;                          // set when an allocation failed on this path
void     vc_unfold1(const void* f, uint64_t a);
void     vc_unfold2(const void* f, uint64_t a, uint64_t b);
void     vc_unfold3(const void* f, uint64_t a, uint64_t b, uint64_t c);
}

#ifndef VC_NATIVE
extern "C" { uint8_t vc_oom_flag = 0; }
#endif
#ifdef VC_NATIVE
extern "C" uint64_t vc_native_range(const char* label, uint64_t lo, uint64_t hi);
static inline uint64_t vc_in(const char* label, uint64_t lo, uint64_t hi) { return vc_native_range(label, lo, hi); }
#else
static inline uint64_t vc_in(const char* label, uint64_t lo, uint64_t hi) { uint64_t v = vc_nd_u64(label); vc_assume((v >= lo) & (v <= hi)); return v; }
#endif
static inline int32_t vc_nd_i32(const char* l) { return int32_t(vc_nd_u32(l)); }
static inline int64_t vc_nd_i64(const char* l) { return int64_t(vc_nd_u64(l)); }
static inline size_t vc_nd_size(const char* l) { return size_t(vc_nd_u64(l)); }

#define VC_STR2(x) #x
#define VC_STR(x) VC_STR2(x)
#define VC_ASSERT(...) vc_assert((__VA_ARGS__), __FILE_NAME__ ":" VC_STR(__LINE__) ": " #__VA_ARGS__)
#endif
