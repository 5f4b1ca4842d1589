// C09: kernel containers, normalization, float to integer conversion
#include "sym.h"
#include "base_types.h"
#include "image_types.h"
#include "convolve_kernels.h"
using namespace boofcv;
typedef TYPE T; typedef TypeInfo<T>::sum_type S;
static const bool FL = std::is_floating_point<T>::value;
template <class Q> Q absv(Q v) { return v < 0 ? -v : v; }
template <class Q> struct El { static Q any(int i) { return symAny<Q>("k", i); } };
template <> struct El<int32_t> { static int32_t any(int i) { return sym_int("k", i, -100000000, 100000000); } };
static void load(KernelBase<T>& k) { for (uint32_t i = 0; i < k.data.size; i++) k.data[i] = El<T>::any(i); }
template <bool> struct Conv { static void go(bool, int, int, const KernelBase<T>&) {} };
template <> struct Conv<true> { static void go(bool two, int w, int off, const KernelBase<T>& src) { } };
#ifndef __clang__  // the replay is built with g++ and rounds
static bool near_trunc(int g, double e) { return e >= 0 ? (double)g <= e + 1e-6 && e - 1e-6 < (double)g + 1 && g >= 0 : (double)g >= e - 1e-6 && e + 1e-6 > (double)g - 1 && g <= 0; }
#else
static bool near_trunc(int g, double e) { return g == (int)e; } // exact reals
#endif
static void fti() { // float_to_int on any kernel
  int two = sym_fork("two", 0, 1), w = sym_fork("w", 1, two ? 2 : TH(4, 5)), off = sym_fork("off", 0, w - 1); sym_shard(); int n = two ? w * w : w; double frac = sym_f64("frac", 0, 0.001, 1.0);
  Kernel1D<double> a(two ? 1 : w, two ? 0 : off); Kernel2D<double> b(two ? w : 1, two ? off : 0); double* d = two ? b.data.data : a.data.data;
  for (int i = 0; i < n; i++) { d[i] = sym_f64("v", i, -1000, 1000); } KernelBase<double>& kk = two ? (KernelBase<double>&)b : (KernelBase<double>&)a; double hi = kk.element_abs_max(), lo = kk.element_abs_min(); // decided by the part "extrema"
  sym_assume(hi >= 0.01); double m = std::max(lo, hi * frac);
  Kernel1D<int32_t> ka; Kernel2D<int32_t> kb; if (two) kb = FactoryKernel::float_to_int<int32_t>(b, frac); else ka = FactoryKernel::float_to_int<int32_t>(a, frac);
  sym_check(two ? kb.width == w && kb.offset == off && kb.data.size == n : ka.width == w && ka.offset == off && ka.data.size == n, "converted kernel has the same shape");
  for (int i = 0; i < n; i++) { double e = d[i] / m; int g = two ? kb.data[i] : ka.data[i]; bool ok = near_trunc(g, e); sym_check(ok, "element divided by the scale, truncated"); }
  sym_cover("float_to_int");
}
HARNESS {
  static const char* N[] = {"normalize", "extrema", "mean1D", "access", "copies", "offset", "float_to_int"};
  int part = sym_fork("part", 0, std::is_same<T, double>::value ? 6 : 5); sym_tag(N[part]);
  if (part == 6) { fti(); return; }
  if (part == 2) { // constant kernels
    int w = sym_fork("w", 1, TH(13, 25)); sym_shard(); Kernel1D<T> t = FactoryKernel::table1D<T>(w), m = FactoryKernel::mean1D<T>(w); S sum = 0; bool ok = t.width == w && t.offset == w / 2 && m.width == w && m.offset == w / 2 && m.data.size == w; for (int i = 0; i < w; i++) { ok = ok & (t[i] == (T)1) & (m[i] == m[0]); sum += m[i]; } sym_check(ok, "table1D and mean1D elements"); 
    if (FL) sym_close(sum, 1.0, 1e-4, "mean1D sums to one"); else sym_check(m[0] == (T)1, "integer mean1D is not scaled"); sym_check(outcome([&] { FactoryKernel::mean1D<T>(0); FactoryKernel::table1D<T>(0); }) == 1, "width 0 is rejected"); sym_cover("mean1D"); return; }
  if (part == 5) { // an offset outside of the kernel
    int how = sym_fork("how", 0, 6); sym_shard(); uint32_t w = (uint32_t)sym_fork("w", 0, 3), off = (uint32_t)sym_bits("offset", 0, 32); if (w == 0 && (how == 4 || how == 5)) sym_end(); int r = 0;
    if (how == 0) r = outcome([&] { Kernel1D<T> k(w, off); sym_check(k.width == w && k.offset == off && k.data.size == w, "constructed kernel"); });
    else if (how == 1) r = outcome([&] { Kernel2D<T> k(w, off); sym_check(k.width == w && k.offset == off && k.data.size == w * w, "constructed kernel"); });
    else if (how == 2) { w = 3; r = outcome([&] { Kernel1D<T> k(off, {(T)1, (T)2, (T)3}); sym_check(k.offset == off && k.width == 3 && k.at(1) == (T)2, "constructed kernel"); }); }
    else if (how == 3) { w = 2; r = outcome([&] { Kernel2D<T> k(off, {{(T)1, (T)2}, {(T)3, (T)4}}); sym_check(k.offset == off && k.width == 2 && k.at(1, 0) == (T)2 && k.at(0, 1) == (T)3, "constructed kernel"); }); }
    else if (how == 4) { Kernel1D<T> k(2, 1); r = outcome([&] { k.reshape(w, off); sym_check(k.width == w && k.offset == off && k.data.size == w, "reshaped kernel"); }); if (r) sym_check(k.width == 2 && k.offset == 1 && k.data.size == 2, "rejected reshape changed the kernel"); }
    else if (how == 5) { Kernel2D<T> k(2, 1); r = outcome([&] { k.reshape(w, off); sym_check(k.width == w && k.offset == off && k.data.size == w * w, "reshaped kernel"); }); if (r) sym_check(k.width == 2 && k.offset == 1 && k.data.size == 4, "rejected reshape changed the kernel"); }
    else { w = 2; off = 0; sym_check(outcome([&] { Kernel2D<T> k(1, {{(T)1, (T)2}, {(T)3}}); }) == 1, "ragged rows are rejected"); sym_end(); }
    sym_check((r == 1) == (off >= w) && r != 2, "an offset outside of the kernel is rejected"); if (r == 1) sym_cover("rejected offset"); return; }
  int two = sym_fork("two", 0, 1), w = sym_fork("w", 1, two ? TH(3, 4) : TH(6, 13)), off = w - 1; sym_shard(); int n = two ? w * w : w;
  Kernel1D<T> a(two ? 1 : w, two ? 0 : off); Kernel2D<T> b(two ? w : 1, two ? off : 0); KernelBase<T>& k = two ? (KernelBase<T>&)b : (KernelBase<T>&)a; load(k); std::vector<T> v(k.data.data, k.data.data + n);
  sym_check(k.dimension() == (two ? 2 : 1) && k.radius() == w / 2, "dimension and radius");
  if (part == 0) {
    S sum = 0; for (int i = 0; i < n; i++) sum += v[i];
    if (FL) { if (n > 6) for (int i = 0; i < n; i++) sym_assume(v[i] >= (T)0.01); sym_assume((sum >= (S)0.05) | (sum <= -(S)0.05)); }
    FactoryKernel::normalize(k);
    if (FL) for (int i = 0; i < n; i++) sym_close(k.data[i] * sum, v[i], 0.5, "every element is divided by the sum"); 
    else { bool ok = true; for (int i = 0; i < n; i++) ok = ok & (k.data[i] == v[i]); sym_check(ok, "integer kernels are left alone"); }
    sym_check(k.width == w && k.offset == off && k.data.size == n, "shape kept"); if (two && w > 1) sym_cover("2D normalize");
  } else if (part == 1) {
    S sum = 0; for (int i = 0; i < n; i++) sum += v[i]; if (FL) sym_close(k.sum(), sum, 0.05, "sum of all elements"); else sym_check(k.sum() == sum, "sum of all elements");
    T mn = k.element_min(), mx = k.element_max(), an = k.element_abs_min(), ax = k.element_abs_max(); bool i0 = false, i1 = false, i2 = false, i3 = false, bd = true;
    for (int i = 0; i < n; i++) { T q = absv(v[i]); i0 = i0 | (v[i] == mn); i1 = i1 | (v[i] == mx); i2 = i2 | (q == an); i3 = i3 | (q == ax); bd = bd & (mn <= v[i]) & (mx >= v[i]) & (an <= q) & (ax >= q); }
    sym_check(i0 & i1 & i2 & i3, "extrema are elements"); sym_check(bd, "no element is beyond the extrema"); sym_cover("extrema");
  } else if (part == 3) {
    uint32_t x = (uint32_t)sym_bits("x", 0, 32), y = (uint32_t)sym_bits("y", 0, 32); T* p = 0; int r = two ? outcome([&] { p = &b.at(x, y); }) : outcome([&] { p = &a.at(x); });
    bool in = two ? (x < (uint32_t)w) & (y < (uint32_t)w) : x < (uint32_t)w; sym_check((r != 0) == !in, "at() rejects exactly the indexes outside of the kernel");
    if (r == 0) { bool ok = false; if (two) { for (int j = 0; j < w; j++) for (int i = 0; i < w; i++) ok = ok | ((x == (uint32_t)i) & (y == (uint32_t)j) & (p == &b.data.data[j * w + i])); } else for (int i = 0; i < w; i++) ok = ok | ((x == (uint32_t)i) & (p == &a.data.data[i])); sym_check(ok, "at() addresses row y column x"); sym_cover("at"); }
    if (!two) { bool ok = true; for (int i = 0; i < w; i++) ok = ok & (a[i] == v[i]); sym_check(ok, "operator[]"); }
  } else if (part == 4) {
    int how = sym_fork("how", 0, 3); bool ok = true; int live = sym_heap_live();
    { Kernel1D<T> c1(a), d1(3, 0), e1; Kernel2D<T> c2(b), d2(2, 0), e2; d1 = a; d2 = b; e1 = a; e2 = b; if (how & 1) { e1 = d1; e2 = d2; d1 = c1; d2 = c2; }
      KernelBase<T>* K[] = {two ? (KernelBase<T>*)&c2 : &c1, two ? (KernelBase<T>*)&d2 : &d1, two ? (KernelBase<T>*)&e2 : &e1};
      for (int q = 0; q < 3; q++) { ok = ok & (K[q]->width == w) & (K[q]->offset == off) & (K[q]->data.size == n); for (int i = 0; i < n; i++) ok = ok & (K[q]->data[i] == v[i]); }
      sym_check(ok, "copies are equal"); 
      for (int i = 0; i < n; i++) K[(how >> 1) ? 0 : 1]->data[i] = (T)7; ok = true; for (int i = 0; i < n; i++) ok = ok & (k.data[i] == v[i]) & (K[2]->data[i] == v[i]); sym_check(ok, "copies are independent"); }
    sym_check(sym_heap_live() == live, "copies are released"); sym_cover("copies");
  }
}
