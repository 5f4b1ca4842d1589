// C19: Otsu's threshold.  Doubles are exact reals.
#include "img.h"
#include "binary_ops.h"
typedef GrowArray<uint32_t> H;
static double sq(double v) { return v * v; }
// between-class variance of splitting after bin t of n bins, bins in [0,1)
struct Split { double var, mB, mF; };
static bool split(const uint32_t* c, int n, int t, Split& s) {
  uint32_t wB = 0, wF = 0; double b = 0, f = 0; for (int i = 0; i < n; i++) { if (i <= t) { wB += c[i]; b += (double)i / n * c[i]; } else { wF += c[i]; f += (double)i / n * c[i]; } }
  if (wB == 0 || wF == 0) return false; s.mB = b / wB; s.mF = f / wF; s.var = (double)wB * (double)wF * sq(s.mB - s.mF); return true;
}
static int rnd(double v) { return (int)(v + 0.5); }
HARNESS {
  static const char* N[] = {"otsu", "otsu2", "options", "image", "filter"};
  int part = sym_fork("part", std::is_same<TYPE, uint8_t>::value ? 0 : 3, 4); sym_tag(N[part]);
  if (part >= 3) { // image threshold: the histogram threshold of the pixels, expressed in pixel values
    int w = sym_fork("w", 1, TH(2, 4)), h = sym_fork("h", 1, 1 + (w < 2)), sub = sym_fork("sub", 0, 1), range = sym_fork("range", 1, TH(3, 4)), mn = sym_fork("min", 0, 2); bool o2 = part == 3 && sym_fork("otsu2", 0, 1), down = part == 3 || sym_fork("down", 0, 1); sym_shard();
    typedef TYPE T; T MN[] = {(T)0, (T)7, (T)(std::numeric_limits<T>::is_signed ? -300 : 200)}; T lo = MN[mn], hi = (T)(lo + range - 1);
    SImg<T> a("p", w, h, sub, true, 1, 1); H hist(range); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int k = sym_int("b", y * w + x, 0, range - 1); a.img().at(x, y) = (T)(lo + k); } a.snap();
    ImageStatistics::histogram(a.img(), lo, hist); // decided by C26
    ComputeOtsu q(o2, 0, true, 1.0); q.compute(hist, w * h); T e = (T)(lo + (int)q.threshold);
    if (part == 3) { T g = ThresholdOps::computeOtsu(a.img(), lo, hi, o2); sym_check(g == e, "threshold in pixel values"); sym_check(a.unchanged(), "input changed"); sym_cover("image"); }
    else { SImg<U8> o("o", sub ? w : w + 1, h, sub); GlobalOtsuBinaryFilter<T> f(lo, hi, down); f.process(a.img(), o.img()); sym_check(o.img().width == (uint32_t)w && o.img().height == (uint32_t)h, "output shape"); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) sym_check(o.img().at(x, y) == (down ? a.px(x, y) <= e : a.px(x, y) > e), "classified by Otsu's threshold"); sym_check(a.unchanged() && o.frameOk(), "input and surroundings unchanged"); sym_cover("filter"); }
    return;
  }
  int n = sym_fork("bins", 1, TH(4, 5) + (part < 2)), big = n == TH(4, 5) + 1, zero = sym_fork("empty", 0, big ? 3 : (1 << n) - 1); sym_shard(); if (big) n = 256;
  static const int POS[4][3] = {{0, 255, 255}, {3, 200, 201}, {254, 255, 255}, {127, 128, 128}}; // a full size histogram with two or three bins in use
  H h(n); static uint32_t c[256]; uint32_t total = 0; int used = 0; for (int i = 0; i < n; i++) { c[i] = (big ? i != POS[zero][0] && i != POS[zero][1] && i != POS[zero][2] : zero >> i & 1) ? 0 : (uint32_t)sym_int("count", i, 1, 1000); h[i] = c[i]; total += c[i]; used += c[i] != 0; }
  if (part < 2) {
    int t = -1; Split s, best = {0, 0, 0}; for (int i = 0; i < n; i++) if (split(c, n, i, s)) { if (s.var > best.var) { best = s; t = i; } }
    ComputeOtsu q(part == 1, true); q.compute(h, total);
    if (part == 0) sym_check(q.threshold == (double)(t < 0 ? 0 : t), "lowest split with the largest between-class variance"); else { double m = n * (best.mB + best.mF) / 2; sym_close(q.threshold, (double)rnd(m), 1e-9, "midpoint of the class means"); }
    if (used == 0 || n == 1) sym_check(q.threshold == 0, "nothing to separate");
    if (used > 2) sym_cover("threshold"); if (big) sym_cover("256 bins"); ComputeOtsu r(part == 1, 0, false, 1.0); r.compute(h, total); sym_check(r.threshold == q.threshold, "direction does not matter without penalty"); return;
  }
  // options: penalty and scale
  if (used != 2 && used != 1) sym_end(); bool o2 = sym_fork("otsu2", 0, 1), down = sym_fork("down", 0, 1); double tuning = sym_f64("tuning", 0, 0, 10), scale = sym_f64("scale", 0, 0, 2);
  ComputeOtsu p(o2, down), q(o2, tuning, down, scale), q1(o2, tuning, down, 1.0), q0(o2, 0.0, down, scale); p.compute(h, total); q.compute(h, total); q1.compute(h, total); q0.compute(h, total);
  sym_check(q0.threshold <= (double)p.threshold * scale + (o2 ? scale : 0.0) + 0.5 && q0.threshold >= 0, "scaled threshold"); if (!o2) sym_check(q0.threshold + 0.5 >= p.threshold * scale, "scaled threshold, lower bound");
  sym_check(down ? q1.threshold <= p.threshold : q1.threshold >= p.threshold, "the penalty lowers the threshold when thresholding down and raises it when up"); sym_check(q1.threshold >= 0 && q.threshold >= 0, "not negative"); 
  sym_cover("options");
}
