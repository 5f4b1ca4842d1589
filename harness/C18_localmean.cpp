// C18: local mean threshold.  The box average is BlurImageOps::mean, decided by C15.
#include "img.h"
#include "binary_ops.h"
typedef TYPE T;
// region widths: length, fraction
static const double CFG[][2] = {{3, -1}, {2, -1}, {4, -1}, {5, -1}, {7, -1}, {0, 0.5}, {3, 0.9}, {2.5, -1}, {0, 1.0}, {1, -1}, {0, 0.2}};
static double regionWidth(int c, int total) { double v = CFG[c][0]; if (CFG[c][1] >= 0) { double f = CFG[c][1] * total; if (f > v) v = f; } return v; }
static int radius(int c, int w, int h) { return (int)(regionWidth(c, w < h ? w : h) + 0.5) / 2; }
static void expect(SImg<T>& a, Gray<U8>& o, int w, int h, int r, float scale, bool down, const char* msg) {
  Gray<T> copy(w, h), m(w, h), s(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) copy.at(x, y) = a.px(x, y);
  BlurImageOps::mean(copy, m, (uint32_t)r, s);
  sym_check(o.width == (uint32_t)w && o.height == (uint32_t)h, "output shape");
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { T v = a.px(x, y), q = m.at(x, y); bool e = down ? v <= q * scale : v * scale > q; sym_check(o.at(x, y) == (U8)e, msg); }
}
HARNESS {
  static const int SH[][2] = {{1, 1}, {1, 3}, {4, 1}, {2, 2}, {3, 3}, {4, 3}, {3, 5}, {5, 2}, {6, 6}}; int NS = TH(8, 9);
  int part = sym_fork("part", 0, 1); sym_tag(part ? "LocalMeanBinaryFilter" : "localMean");
  int c = sym_fork("config", 0, TH(10, 10)), sh = sym_fork("shape", 0, NS - 1), down = sym_fork("down", 0, 1), sub = sym_fork("sub", 0, 3), sc = sym_fork("scale", 0, 2); sym_shard();
  int w = SH[sh][0], h = SH[sh][1], r = radius(c, w, h); float scale = sc == 0 ? 0.95f : sc == 1 ? 1.0f : sym_f32("scale", 0, 0.0f, 2.0f);
  ConfigLength len(CFG[c][0], CFG[c][1]);
  SImg<T> a("a", w, h, sub & 1); SImg<U8> o("o", sub & 2 ? w : w + 1, sub & 2 ? h : 1, sub >> 1);
  if (part == 0) {
    SImg<T> s1("s", w + 1, 2, 0), s2("t", sub & 1 ? w : 1, sub & 1 ? h : 1, sub & 1);
    int rc = outcome([&] { ThresholdOps::localMean(a.img(), o.img(), len, scale, down != 0, s1.img(), s2.img()); });
    sym_check(a.unchanged() && o.frameOk() && s2.frameOk(), "input and surroundings unchanged");
    if (r == 0) { sym_check(rc == 1, "a region narrower than two pixels is rejected"); sym_cover("rejected"); return; }
    sym_check(rc == 0, "accepted"); expect(a, o.img(), w, h, r, scale, down, "pixel against scaled local mean");
    sym_check(s1.img().width == (uint32_t)w && s1.img().height == (uint32_t)h && s2.img().width == (uint32_t)w && s2.img().height == (uint32_t)h, "work images take the shape of the input"); if (w > 3 && r == 1) sym_cover("mean"); if (sc == 2) sym_cover("any scale");
  } else {
    if (sc == 2 || r == 0) sym_end(); int sh2 = sym_fork("before", 0, NS - 1), w2 = SH[sh2][0], h2 = SH[sh2][1];
    LocalMeanBinaryFilter<T> f(len, scale, down != 0); SImg<T> b("b", w2, h2, 0); Gray<U8> o2(1, 1);
    int rc0 = outcome([&] { f.process(b.img(), o2); }); sym_check((rc0 == 1) == (radius(c, w2, h2) == 0) && rc0 < 2, "first image"); // may be rejected, must not matter later
    f.process(a.img(), o.img()); sym_check(a.unchanged() && o.frameOk(), "input and surroundings unchanged"); expect(a, o.img(), w, h, r, scale, down, "reused filter"); if (w2 * h2 > w * h) sym_cover("smaller image after a larger one"); if (w2 * h2 < w * h) sym_cover("larger image after a smaller one");
  }
}
