// C14: convolution normalized by the weights inside of the image
#include "conv.h"
typedef TYPE E; typedef TypeInfo<E>::signed_type S;
template <class Q> Q quot(Q t, Q w, typename std::enable_if<std::is_integral<Q>::value>::type* = 0) { return (t + w / 2) / w; }
template <class Q> Q quot(Q t, Q w, typename std::enable_if<std::is_floating_point<Q>::value>::type* = 0) { return t / w; }
template <class Q> bool usable(Q w, typename std::enable_if<std::is_integral<Q>::value>::type* = 0) { return w != 0; }
template <class Q> bool usable(Q w, typename std::enable_if<std::is_floating_point<Q>::value>::type* = 0) { return (w >= 0.5f) | (w <= -0.5f); }
static E one(const Kernel1D<S>& k, int c, int n, const E* line) {
  S t = 0, wt = 0; for (int i = 0; i < (int)k.width; i++) { int e = c + i - (int)k.offset; if (e >= 0 && e < n) { t += line[e] * k[i]; wt += k[i]; } }
  return (E)quot<S>(t, wt);
}
static void pass(const Kernel1D<S>& k, int dir, int w, int h, const std::vector<E>& in, std::vector<E>& out) {
  out.resize(w * h);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    E line[64]; int n = dir == 0 ? w : h; for (int i = 0; i < n; i++) line[i] = dir == 0 ? in[y * w + i] : in[i * w + x];
    out[y * w + x] = one(k, dir == 0 ? x : y, n, line);
  }
}
HARNESS {
  static const char* N[] = {"horizontal", "vertical", "convolve"};
  int op = sym_fork("op", 0, 2), kw = sym_fork("kw", 1, op == 2 ? TH(4, 5) : 13), off = sym_fork("off", 0, kw - 1), dn = sym_fork("dn", 0, TH(4, 5)), sg = sym_fork("weights", 0, std::is_integral<S>::value ? kw <= (op == 2 ? 2 : 5) ? 1 : 0 : 2), sub = sym_fork("sub", 0, 1); sym_shard();
  // weights: 0 positive, 1 any sign, 2 (floats) positive with sum exactly one
  if (std::is_floating_point<S>::value && sg == 1 && kw > (op == 2 ? 2 : 3)) sym_end();
  const int NN[] = {1, kw > 2 ? (kw + 1) / 2 : 2, kw, kw + 1, kw + 3, 2 * kw}; int n = NN[dn], m = op == 2 ? NN[(dn + kw) % 5] : 1 + (kw + off) % 2;
  // smallest image in which every window holds a tap: off < n and kw-off-1 < n is not required, only that a window is not empty
  int w = op == 1 ? m : n, h = op == 1 ? n : op == 2 ? m : m; if (op == 2 && w * h > TH(20, 36)) sym_end();
  sym_tag(N[op]);
  SImg<E> in("p", w, h, sub); Kernel1D<S> k(kw, off);
  for (int i = 0; i < kw; i++) k[i] = std::is_integral<S>::value ? (S)sym_int(sg ? "ks" : "k", i, sg ? -2000 : 1, sg ? 2000 : 4000) : sg == 2 ? (S)sym_f32("kn", i, 0.01f, 0.05f) : (S)sym_f32(sg ? "ks" : "k", i, sg ? -4.0f : 0.5f, 4.0f);
  if (sg == 2) { S t = 1; for (int i = 1; i < kw; i++) t -= k[i]; k[0] = t; }
  else if (std::is_floating_point<S>::value) { S t = 0; for (int i = 0; i < kw; i++) t += k[i]; sym_assume(t != (S)1); }
  for (int dir = 0; dir < 2; dir++) if (op == 2 || op == dir) { int L = dir == 0 ? w : h; for (int c = 0; c < L; c++) { S wt = 0; bool any = false; for (int i = 0; i < kw; i++) if (c + i - off >= 0 && c + i - off < L) { wt += k[i]; any = true; } if (!any) sym_end(); if (sg == 1) sym_assume(usable<S>(wt)); } }
  std::vector<E> a(w * h), r, r2; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) a[y * w + x] = in.px(x, y);
  Out<E> out(w, h, op != 2 || sub), work(w, h, 0);
  if (op == 0) ConvolveNormalized::horizontal(k, in.img(), out.img()); else if (op == 1) ConvolveNormalized::vertical(k, in.img(), out.img()); else ConvolveNormalized::convolve(k, in.img(), out.img(), work.img());
  if (op < 2) pass(k, op, w, h, a, r); else { pass(k, 0, w, h, a, r2); pass(k, 1, w, h, r2, r); }
  Gray<E>& o = out.img(); sym_check(o.width == w && o.height == h, "output shape");
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) same<E>(o.data[o.offset + y * o.stride + x], r[y * w + x], "weighted sum divided by the weights inside of the image");
  sym_check(in.unchanged(), "input changed"); sym_check(out.s->frameOk(), "wrote outside of the output");
  if (n > kw && kw > 5) sym_cover("optimized"); if (n < kw && kw > 3) sym_cover("smaller than the kernel"); if (sg == 1) sym_cover("negative weights");
}
