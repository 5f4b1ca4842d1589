// Native replay runtime: feeds the values of a solver model to a harness compiled against the real code.
#include "sym.h"
#include <cstdio>
#include <map>
#include <string>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#define RT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define RT_ASAN 1
#endif
#endif
static std::map<std::pair<std::string, int>, std::pair<char, std::string> >* vals;
static int failed = 0;
#ifdef RT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int sym_heap_live() { return (int)__sanitizer_get_current_allocated_bytes(); }
#else
#include <new>
static long live = 0;
static void* A(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; const char* f = getenv("SYM_FILL"); if (f) memset(p, atoi(f), n); return p; }
void* operator new(size_t n) { return A(n); }
void* operator new[](size_t n) { return A(n); }
void operator delete(void* p) noexcept { if (p) { live--; free(p); } }
void operator delete[](void* p) noexcept { if (p) { live--; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { live--; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { live--; free(p); } }
extern "C" int sym_heap_live() { return (int)live; }
#endif
extern "C" void harness();
extern "C" {
static const std::pair<char, std::string>* get(const char* n, const char* suf, int i) { std::map<std::pair<std::string, int>, std::pair<char, std::string> >::iterator it = vals->find(std::make_pair(std::string(n) + suf, i)); return it == vals->end() ? 0 : &it->second; }
static const std::pair<char, std::string>* getR(const char* n, char k, double lo, double hi, int i) { char b[96]; snprintf(b, sizeof b, "#%c[%.17g,%.17g]", k, lo, hi); return get(n, b, i); }
static int32_t symI(const char* n, char k, int i, int lo, int hi) { if (lo == hi) return lo; const std::pair<char, std::string>* p = getR(n, k, lo, hi, i); int v = lo > 0 ? lo : hi < 0 ? hi : 0; if (p) v = (int)strtoll(p->second.c_str(), 0, 10); if (v < lo || v > hi) { fprintf(stderr, "ASSUME-FAIL range %s\n", n); _exit(78); } return v; }
int32_t sym_int(const char* n, int i, int lo, int hi) { return symI(n, 'i', i, lo, hi); }
uint64_t sym_bits(const char* n, int i, int w) { char b[16]; snprintf(b, sizeof b, "#b%d", w); const std::pair<char, std::string>* p = get(n, b, i); if (!p) return 0; uint64_t v = strtoull(p->second.c_str(), 0, 10); if (p->second[0] == '-') v = (uint64_t)strtoll(p->second.c_str(), 0, 10); return w >= 64 ? v : v & ((1ull << w) - 1); }
float sym_f32(const char* n, int i, float lo, float hi) { const std::pair<char, std::string>* p = getR(n, 'f', lo, hi, i); if (!p) return lo > 0 ? lo : hi < 0 ? hi : 0; if (p->first == 'r') return (float)strtod(p->second.c_str(), 0); uint32_t b = (uint32_t)strtoull(p->second.c_str(), 0, 10); float f; memcpy(&f, &b, 4); return f; }
double sym_f64(const char* n, int i, double lo, double hi) { const std::pair<char, std::string>* p = getR(n, 'd', lo, hi, i); if (!p) return lo > 0 ? lo : hi < 0 ? hi : 0; if (p->first == 'r') return strtod(p->second.c_str(), 0); uint64_t b = strtoull(p->second.c_str(), 0, 10); double f; memcpy(&f, &b, 8); return f; }
int32_t sym_fork(const char* n, int lo, int hi) { return symI(n, 'k', 0, lo, hi); }
int32_t sym_concretize(int v) { return v; }
void sym_assume(int c) { if (!c) { fprintf(stderr, "ASSUME-FAIL\n"); _exit(78); } }
void sym_check(int c, const char* m) { if (!c) { fprintf(stderr, "CHECK-FAIL %s\n", m); failed = 1; if (!getenv("SYM_ALL")) _exit(77); } }
void sym_close(double a, double b, double tol, const char* m) { double d = a - b; if (!(a == b || (d <= tol && -d <= tol))) { fprintf(stderr, "CHECK-FAIL %s (%.9g vs %.9g)\n", m, a, b); failed = 1; if (!getenv("SYM_ALL")) _exit(77); } }
void sym_cover(const char* m) { static const char* c = getenv("SYM_COVER"); if (c && !strcmp(c, m)) fprintf(stderr, "COVER-REACHED\n"); }
int sym_is_symbolic() { return 0; }
int sym_real_mode() { return getenv("SYM_REAL") != 0; }
int sym_tier() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
void jni_function_not_modelled() { _exit(failed ? 77 : 0); }
void sym_tag(const char*) {}
void sym_end() { _exit(failed ? 77 : 0); }
void sym_shard() {}
void sym_debug(int v) { fprintf(stderr, "[debug] %d\n", v); }
}
int main(int argc, char** argv) {
  static std::map<std::pair<std::string, int>, std::pair<char, std::string> > m; vals = &m;
  if (argc > 1) { FILE* f = fopen(argv[1], "r"); char line[1024];
    while (f && fgets(line, sizeof line, f)) { char n[256], t, v[256]; int i; if (sscanf(line, "var %255s %d %c %255s", n, &i, &t, v) == 4) m[std::make_pair(std::string(n), i)] = std::make_pair(t, std::string(v)); }
    if (f) fclose(f); }
  harness();
  if (failed) return 77;
  return 0;
}
