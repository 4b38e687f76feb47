// Native runtime of the contract language: replays a counterexample or searches for one by random testing.
#include "vc.h"
#include <stdio.h>
#include <dlfcn.h>
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <map>
#include <string>
#include <vector>
#include <time.h>

static std::map<std::string, uint64_t> g_nd;                      // replay values
static std::map<std::string, std::map<uint64_t, uint8_t>> g_mem;  // replay contents
static bool g_random;
static uint64_t g_s0, g_s1;
static uint64_t rnd() { uint64_t a = g_s0, b = g_s1; g_s0 = b; a ^= a << 23; g_s1 = a ^ b ^ (a >> 17) ^ (b >> 26); return g_s1 + b; }
static void seed(uint64_t x) { g_s0 = x * 0x9E3779B97F4A7C15ull + 0x1234567; g_s1 = (x ^ 0xDEADBEEFCAFEull) * 0xBF58476D1CE4E5B9ull + 1; for (int i = 0; i < 20; i++) rnd(); }
static std::map<std::string, unsigned> g_cnt;
static std::vector<std::string> g_log;
static jmp_buf g_jmp;
static bool g_fail; static const char* g_fail_label;
static std::vector<void*> g_allocs;
static std::map<void*, size_t> g_size;    // vc_alloc'ed
static std::map<void*, size_t> g_heap;    // live heap
static const char* g_out;
static uint64_t g_seed;
static unsigned g_small;

static std::string key(const char* l) { char b[32]; unsigned k = g_cnt[l]++; snprintf(b, 32, "#%u", k); return std::string(l) + b; }
static void logv(const std::string& k, uint64_t v) { char b[64]; snprintf(b, 64, " %llx", (unsigned long long)v); g_log.push_back("nd " + k + b); }
static uint64_t rand_val(unsigned w) {
  uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1, v;
  switch (rnd() % 12) {
    case 0: v = 0; break;
    case 1: v = ~0ull; break;
    case 2: v = rnd() % 4; break;
    case 3: v = rnd() % 20; break;
    case 4: v = 1ull << (rnd() % w); break;
    case 5: v = (1ull << (rnd() % w)) - 1; break;
    case 6: v = rnd() % 300; break;
    case 7: v = ~(rnd() % 300); break;
    case 8: v = (1ull << (rnd() % w)) + (rnd() % 7) - 3; break;
    case 9: v = rnd() >> (rnd() % 64); break;
    default: v = rnd();
  }
  return v & m;
}
static uint64_t nd(const char* l, unsigned w) {
  std::string k = key(l); uint64_t v;
  if (g_random) v = rand_val(w); else { auto it = g_nd.find(k); v = it == g_nd.end() ? 0 : it->second; }
  if (w < 64) v &= (1ull << w) - 1;
  logv(k, v); return v;
}
extern "C" {
uint8_t vc_nd_u8(const char* l) { return nd(l, 8); }
uint16_t vc_nd_u16(const char* l) { return nd(l, 16); }
uint32_t vc_nd_u32(const char* l) { return nd(l, 32); }
uint64_t vc_nd_u64(const char* l) { return nd(l, 64); }
bool vc_nd_bool(const char* l) { return (g_random ? (nd(l, 8) & 1) : nd(l, 8)) == 1; }
float vc_nd_f32(const char* l) {
  if (g_random && rnd() % 4) { float f = float(int64_t(rnd() % 4001) - 2000) / float(1 << (rnd() % 8)); uint32_t b; memcpy(&b, &f, 4); logv(key(l), b); return f; }
  uint32_t b = nd(l, 32); float f; memcpy(&f, &b, 4); return f; }
double vc_nd_f64(const char* l) {
  if (g_random && rnd() % 4) { double f = double(int64_t(rnd() % 4001) - 2000) / double(1 << (rnd() % 8)); uint64_t b; memcpy(&b, &f, 8); logv(key(l), b); return f; }
  uint64_t b = nd(l, 64); double f; memcpy(&f, &b, 8); return f; }
uint64_t vc_native_range(const char* l, uint64_t lo, uint64_t hi) {
  std::string k = key(l); uint64_t v;
  if (g_random) {
    uint64_t n = hi - lo + 1;
    if (n && g_small && rnd() % 16) { uint64_t c = n < 40 ? n : 40; v = lo + rnd() % c; }
    else switch (rnd() % 8) { case 0: v = lo; break; case 1: v = hi; break; case 2: v = lo + (n ? rnd() % (n < 8 ? n : 8) : rnd()); break;
      case 3: v = lo + (n ? rnd() % (n < 70 ? n : 70) : rnd()); break; case 4: v = hi - (n ? rnd() % (n < 8 ? n : 8) : rnd()); break;
      default: v = lo + (n ? rnd() % n : rnd()); }
  } else { auto it = g_nd.find(k); v = it == g_nd.end() ? 0 : it->second; }
  logv(k, v); vc_assume(v >= lo && v <= hi); return v; }
void vc_assume(bool c) { if (!c) longjmp(g_jmp, 2); }
void vc_assert(bool c, const char* l) { if (!c) { g_fail = true; g_fail_label = l; longjmp(g_jmp, 3); } }
void vc_inv(bool) {}
void vc_cover(const char*) {}
static void* fill(void* p, size_t n, const std::string& k) {
  uint8_t* b = (uint8_t*)p;
  if (g_random) {
    unsigned mode = rnd() % 6;
    for (size_t i = 0; i < n; i++) b[i] = mode == 0 ? 0 : mode == 1 ? 0xFF : mode == 2 ? ((rnd() % 8) ? 0 : rnd()) : mode == 3 ? rnd() % 4 : mode == 4 ? ((rnd() % 8) ? 0xFF : rnd()) : rnd();
    if (n <= 65536) { std::string h = "mem " + k + " 0 "; char t[4]; for (size_t i = 0; i < n; i++) { snprintf(t, 4, "%02x", b[i]); h += t; } g_log.push_back(h); }
  } else {
    memset(p, 0, n);
    auto it = g_mem.find(k);
    if (it != g_mem.end()) for (auto& e : it->second) if (e.first < n) b[e.first] = e.second;
  }
  return p;
}
void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t);
static bool g_active;
void* vc_alloc(size_t n, const char* l) {
  std::string k = key(l);
  if (n > (size_t(1) << (g_random ? 22 : 31))) longjmp(g_jmp, 2);
  void* p = __real_malloc(n ? n : 1); if (!p) longjmp(g_jmp, 2);
  g_allocs.push_back(p); g_size[p] = n; return fill(p, n, k); }
void* vc_alloc_ro(size_t n, const char* l) { return vc_alloc(n, l); }
void* vc_heap(size_t n, const char* l) { std::string k = key(l); if (n > (size_t(1) << 28)) longjmp(g_jmp, 2); void* p = __real_malloc(n ? n : 1); g_heap[p] = n; return fill(p, n, k); }
void vc_havoc(void* p, size_t n, const char* l) { fill(p, n, key(l)); }
static void* objof(const void* p, size_t& n) {
  for (auto* m : { &g_size, &g_heap }) { auto it = m->upper_bound((void*)p); if (it != m->begin()) { --it; if ((char*)p <= (char*)it->first + it->second) { n = it->second; return it->first; } } }
  return nullptr; }
void* vc_snapshot(const void* p) { size_t n; void* o = objof(p, n); if (!o) return (void*)p;
  void* q = __real_malloc(n ? n : 1); memcpy(q, o, n); g_allocs.push_back(q); g_size[q] = n; return (char*)q + ((char*)p - (char*)o); }
size_t vc_live(void) { return g_heap.size(); }
bool vc_is_live(const void* p) { size_t n; return objof(p, n) != nullptr; }
size_t vc_objsize(const void* p) { size_t n = 0; objof(p, n); return n; }
size_t vc_offset(const void* p) { size_t n; void* o = objof(p, n); return o ? (char*)p - (char*)o : 0; }
bool vc_same_object(const void* a, const void* b) { size_t n; return objof(a, n) == objof(b, n); }
bool vc_native(void) { return true; }
uint64_t vc_concretize(uint64_t v) { return v; }
void vc_unfold1(const void*, uint64_t) {} void vc_unfold2(const void*, uint64_t, uint64_t) {} void vc_unfold3(const void*, uint64_t, uint64_t, uint64_t) {}

static int g_mf; uint8_t vc_oom_flag;
void* __wrap_malloc(size_t n) {
  if (!g_active) return __real_malloc(n);
  g_active = false; std::string k = key("malloc"); bool f = false;
  if (g_random) f = g_mf && rnd() % 24 == 0; else { auto it = g_nd.find(k); f = it != g_nd.end() && it->second == 1; }
  if (n > (size_t(1) << 30)) f = true;
  if (f) { logv(k, 1); vc_oom_flag = 1; }
  void* p = f ? nullptr : __real_malloc(n ? n : 1);
  if (p) { g_heap[p] = n; if (g_random && n) memset(p, 0xA5 ^ (int)(rnd() & 0xFF), n); else if (n) { memset(p, 0xA5, n);
      auto it = g_mem.find("malloc" + k.substr(7)); if (it != g_mem.end()) for (auto& e : it->second) if (e.first < n) ((uint8_t*)p)[e.first] = e.second; } }
  g_active = true; return p; }
void __wrap_free(void* p) { if (g_active) { g_active = false; g_heap.erase(p); g_active = true; } __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (!g_active) return __real_calloc(a, b); void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
}
static void dump(const char* why) {
  FILE* f = g_out ? fopen(g_out, "a") : nullptr; if (!f) f = stdout;
  fprintf(f, "# native failure: %s\n# seed %llu\n", why, (unsigned long long)g_seed);
  for (auto& s : g_log) fprintf(f, "%s\n", s.c_str());
  if (f != stdout) fclose(f);
}
extern "C" void __asan_on_error() { g_active = false; dump("sanitizer report (see stderr)"); }
extern "C" void __ubsan_on_report(void) { g_active = false; dump("undefined-behaviour report (see stderr)"); }
static void on_sig(int sig) { char b[64]; snprintf(b, 64, "signal %d", sig); g_active = false; dump(b); fprintf(stderr, "VC-FAIL %s\n", b); _exit(1); }
static volatile bool g_tmo;
static void on_alarm(int) { if (g_random) { g_tmo = true; fprintf(stderr, "VC-DONE timeout-in-run\n"); _exit(0); } g_active = false; dump("non-termination (10 s)"); fprintf(stderr, "VC-FAIL non-termination\n"); _exit(1); }

int main(int argc, char** argv) {
  // prog harness replay FILE | prog harness random SEED SECONDS OUT malloc_fail
  if (argc < 4) return 3;
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "VC-NOSYM\n"); return 3; }
  g_random = !strcmp(argv[2], "random");
  signal(SIGABRT, on_sig); signal(SIGALRM, on_alarm); signal(SIGFPE, on_sig); signal(SIGILL, on_sig); signal(SIGTRAP, on_sig);
  unsigned long long runs = 0, ok = 0;
  if (!g_random) {
    FILE* f = fopen(argv[3], "r"); if (!f) return 3;
    static char line[1 << 20]; 
    while (fgets(line, sizeof line, f)) {
      char k[600]; unsigned long long a; int pos;
      if (sscanf(line, "nd %599s %llx", k, &a) == 2) g_nd[k] = a;
      else if (sscanf(line, "mem %599s %llu %n", k, &a, &pos) == 2) {
        const char* p = line + pos; unsigned v;
        while (sscanf(p, "%2x", &v) == 1) { g_mem[k][a++] = v; p += 2; }
      }
    }
    fclose(f);
    alarm(10);
    int r = setjmp(g_jmp);
    if (r == 0) { g_active = true; fn(); g_active = false; fprintf(stderr, "VC-OK\n"); return 0; }
    g_active = false;
    if (r == 2) { fprintf(stderr, "VC-REJECTED\n"); return 2; }
    fprintf(stderr, "VC-FAIL %s\n", g_fail_label); return 1;
  }
  uint64_t sd = strtoull(argv[3], 0, 10); double secs = argc > 4 ? atof(argv[4]) : 5; g_out = argc > 5 ? argv[5] : nullptr; g_mf = argc > 6 ? atoi(argv[6]) : 1;
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  for (;;) {
    g_seed = sd++; seed(g_seed); g_cnt.clear(); g_log.clear(); g_heap.clear(); vc_oom_flag = 0; g_small = rnd() % 4;
    alarm(10);
    int r = setjmp(g_jmp);
    if (r == 0) { g_active = true; fn(); ok++; }
    g_active = false; runs++;
    if (r == 3) { dump(g_fail_label); fprintf(stderr, "VC-FAIL %s (seed %llu)\n", g_fail_label, (unsigned long long)g_seed); return 1; }
    for (void* p : g_allocs) __real_free(p);
    g_allocs.clear(); g_size.clear();
    for (auto& e : g_heap) __real_free(e.first);
    g_heap.clear(); vc_oom_flag = 0;
    if ((runs & 31) == 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; }
  }
  fprintf(stderr, "VC-DONE runs=%llu accepted=%llu\n", runs, ok);
  return 0;
}

extern "C" void vc_nosym() { fprintf(stderr, "VC-NOSYM call to a function that is not linked\n"); _exit(3); }
