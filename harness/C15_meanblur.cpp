// C15: mean blur equals the two-pass box average
#include "conv.h"
#include "image_blur.h"
typedef TYPE T; typedef TypeInfo<T>::sum_type S;
static const bool FL = std::is_floating_point<T>::value;
// average of the n summed pixels
template <class Q> Q avg(typename TypeInfo<Q>::sum_type t, int n, typename std::enable_if<std::is_integral<Q>::value>::type* = 0) { typedef typename TypeInfo<Q>::sum_type S; return (Q)((t + (S)(n / 2)) / (S)n); }
template <class Q> Q avg(typename TypeInfo<Q>::sum_type t, int n, typename std::enable_if<std::is_floating_point<Q>::value>::type* = 0) { return (Q)(t / n); }
static void pass(std::vector<T>& p, int w, int h, int r, bool vert) {
  std::vector<T> q(p.size());
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { S t = 0; int n = 0; int c = vert ? y : x, N = vert ? h : w; for (int i = c - r; i <= c + r; i++) if (i >= 0 && i < N) { t += vert ? p[i * w + x] : p[y * w + i]; n++; } q[y * w + x] = avg<T>(t, n); }
  p = q;
}
HARNESS {
  int part = sym_fork("part", 0, 2); sym_tag(part == 0 ? "mean" : part == 1 ? "radius 0" : "horizontal/vertical");
  if (part == 1) { int w = sym_fork("w", 0, 2); SImg<T> a("p", w, 2, 0); Out<T> o(2, 2, 0), s(2, 2, 0); sym_check(outcome([&] { BlurImageOps::mean(a.img(), o.img(), 0u, s.img()); }) == 1, "radius 0 is rejected"); sym_check(a.unchanged() && o.s->unchanged() && s.s->unchanged(), "nothing changed"); sym_cover("radius 0"); return; }
  int r = sym_fork("r", 1, TH(4, 7)), sub = sym_fork("sub", 0, 3); int big = 2 * r + 3;
  int w = sym_fork("w", 1, TH(11, 17)), h = sym_fork("h", 1, TH(11, 17)); if (w > big || h > big) sym_end(); sym_shard();
  // every shape for a small radius, shapes around the box width for larger ones
  if (r > 2 && !((w < 3 || (w >= 2 * r && w <= big)) && (h < 3 || (h >= 2 * r && h <= big)))) sym_end();
  SImg<T> a("p", w, h, sub & 1); std::vector<T> e; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) e.push_back(a.px(x, y));
  if (part == 2) {
    int vert = sym_fork("vert", 0, 1); SImg<T> o("o", w, h, sub >> 1); if (vert) ConvolveImageMean::vertical(a.img(), o.img(), (uint32_t)r); else ConvolveImageMean::horizontal(a.img(), o.img(), (uint32_t)r);
    pass(e, w, h, r, vert); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) same<T>(o.now(x, y), e[y * w + x], "average of the neighbours inside of the image");
    sym_check(a.unchanged() && o.frameOk(), "input and surroundings unchanged"); SImg<T> q("q", w + 1, h, 0); sym_check(outcome([&] { if (vert) ConvolveImageMean::vertical(a.img(), q.img(), (uint32_t)r); else ConvolveImageMean::horizontal(a.img(), q.img(), (uint32_t)r); }) == 1 && q.unchanged(), "different shapes are rejected");
    if (2 * r + 1 <= w && h < 2 * r + 1) sym_cover("wide image"); if (2 * r + 1 <= h && w < 2 * r + 1) sym_cover("tall image"); return;
  }
  Out<T> o(w, h, sub >> 1), s(w, h, (sub >> 1) ^ (sub & 1)); BlurImageOps::mean(a.img(), o.img(), (uint32_t)r, s.img());
  sym_check(o.img().width == w && o.img().height == h && s.img().width == w && s.img().height == h, "output and work image take the shape of the input");
  pass(e, w, h, r, false); pass(e, w, h, r, true);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) same<T>(o.img().at(x, y), e[y * w + x], "horizontal then vertical average");
  sym_check(a.unchanged() && o.s->frameOk() && s.s->frameOk(), "input and surroundings unchanged"); if (w > 2 * r + 1 && h > 2 * r + 1) sym_cover("blur"); if (w == 1 || h == 1) sym_cover("thin image");
}
