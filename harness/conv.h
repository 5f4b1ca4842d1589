// Specification of border extension and convolution, shared by the convolution harnesses.
#pragma once
#include "img.h"
#include "image_border.h"
#include "convolve.h"
// index inside [0,n) that extended coordinate x refers to, -1: constant
inline int extend(int x, int n, int type) {
  if (x >= 0 && x < n) return x;
  if (type == EXTENDED) return x < 0 ? 0 : n - 1;
  if (type == WRAP) { int m = x % n; return m < 0 ? m + n : m; }
  if (type == REFLECT) { if (n == 1) return 0; int p = 2 * (n - 1), m = x % p; if (m < 0) m += p; return m < n ? m : p - m; }
  return -1;
}
static const BorderType BORDERS[] = {EXTENDED, REFLECT, WRAP, ZERO};
static const char* const BNAMES[] = {"EXTENDED", "REFLECT", "WRAP", "ZERO"};
template <class S> struct KSym { static S any(int i) { return symAny<S>("k", i); } };
template <> struct KSym<float> { static float any(int i) { return sym_f32("k", i, -8.0f, 8.0f); } };
template <> struct KSym<double> { static double any(int i) { return sym_f64("k", i, -8.0, 8.0); } };
// equality of results: exact for integers, up to rounding for floats (pixels <= 1000, kernel weights <= 8, <= 81 taps)
template <class R> inline void same(R a, R b, const char* msg, typename std::enable_if<std::is_integral<R>::value>::type* = 0) { sym_check(a == b, msg); }
template <class R> inline void same(R a, R b, const char* msg, typename std::enable_if<std::is_floating_point<R>::value>::type* = 0) { sym_close(a, b, 1.0, msg); }
// an output image holding arbitrary values: a sub-image of the right shape or a stand-alone image of another shape
template <class R> struct Out {
  SImg<R>* s; Out(int w, int h, int sub) { s = sub ? new SImg<R>("o", w, h, 1) : new SImg<R>("o", w > 1 ? w - 1 : 2, h + 1, 0); }
  ~Out() { delete s; } Gray<R>& img() { return s->img(); }
};
