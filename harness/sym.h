// Interface between the harnesses and (a) the symbolic executor, (b) the native replay runtime (rt.cpp).
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <stdexcept>
#include <vector>
extern "C" {
int32_t sym_int(const char* name, int idx, int lo, int hi);          // symbolic int in [lo,hi]
uint64_t sym_bits(const char* name, int idx, int width);             // width arbitrary bits
float sym_f32(const char* name, int idx, float lo, float hi);        // finite, in [lo,hi]
double sym_f64(const char* name, int idx, double lo, double hi);
int32_t sym_fork(const char* name, int lo, int hi);                  // every value, one path each
int32_t sym_concretize(int v);                                       // one path per feasible value
void sym_assume(int c);
void sym_check(int c, const char* msg);
void sym_close(double a, double b, double tol, const char* msg);
void sym_cover(const char* what);                                    // reachability witness
int sym_heap_live();                                                 // live heap allocations (engine) / a comparable measure (native)
int sym_is_symbolic();
int sym_real_mode();
int sym_tier();                                                      // 0 quick, 1 thorough
void sym_tag(const char* op);                                        // identifies the call site in reports
void sym_end();                                                      // ends this path
void sym_shard();                                                    // work-distribution point
void sym_debug(int v);
}
#define HARNESS extern "C" void harness()
template <class T> struct SymT;
template <> struct SymT<uint8_t> { static uint8_t any(const char* n, int i) { return (uint8_t)sym_bits(n, i, 8); } };
template <> struct SymT<int8_t> { static int8_t any(const char* n, int i) { return (int8_t)sym_bits(n, i, 8); } };
template <> struct SymT<uint16_t> { static uint16_t any(const char* n, int i) { return (uint16_t)sym_bits(n, i, 16); } };
template <> struct SymT<int16_t> { static int16_t any(const char* n, int i) { return (int16_t)sym_bits(n, i, 16); } };
template <> struct SymT<int32_t> { static int32_t any(const char* n, int i) { return (int32_t)sym_bits(n, i, 32); } };
template <> struct SymT<uint32_t> { static uint32_t any(const char* n, int i) { return (uint32_t)sym_bits(n, i, 32); } };
template <> struct SymT<int64_t> { static int64_t any(const char* n, int i) { return (int64_t)sym_bits(n, i, 64); } };
template <> struct SymT<uint64_t> { static uint64_t any(const char* n, int i) { return sym_bits(n, i, 64); } };
template <> struct SymT<float> { static float any(const char* n, int i) { return sym_f32(n, i, -1000.0f, 1000.0f); } };
template <> struct SymT<double> { static double any(const char* n, int i) { return sym_f64(n, i, -1000.0, 1000.0); } };
template <class T> inline T symAny(const char* n, int i) { return SymT<T>::any(n, i); }
#include <exception>
// runs f; 0: returned, 1: threw invalid_argument, 2: threw another std::exception
template <class F> inline int outcome(F f) { try { f(); return 0; } catch (const std::invalid_argument&) { return 1; } catch (const std::exception&) { return 2; } }
#ifdef THOROUGH
#define TH(q, t) (t)
#else
#define TH(q, t) (q)
#endif
