// C22: block Otsu threshold.  The Otsu computation itself (decided by C19) is replaced by an arbitrary linear function of
// histogram, pixel count and options: two histograms give the same threshold for every such function iff they are equal.
#include "img.h"
#include "binary_ops.h"
namespace boofcv {
static int32_t K[256 + 5];
struct AnyThreshold {
  double threshold, variance; bool down; bool otsu2; double tuning, scale;
  AnyThreshold(bool otsu2, double tuning, bool down, double scale) : threshold(-77), variance(0), down(down), otsu2(otsu2), tuning(tuning), scale(scale) {}
  AnyThreshold(bool otsu2, bool down) : AnyThreshold(otsu2, 0, down, 1.0) {}
  void compute(const GrowArray<uint32_t>& histogram, uint32_t total) {
    int32_t t = K[256] * (int32_t)total + K[257] * (int)otsu2 + K[258] * (int)(tuning * 100) + K[259] * (int)down + K[260] * (int)(scale * 100); for (uint32_t i = 0; i < histogram.size; i++) t += K[i & 255] * (int32_t)histogram[i]; if (histogram.size != 256) t += 1234567; threshold = (double)(t & 255);
  }
};
}
#define ComputeOtsu AnyThreshold
#include "block.h"
typedef TYPE T;
HARNESS {
  static const int V[] = {0, 126, 252};
  int c = sym_fork("block", 0, 9), w = sym_fork("w", 0, 10), h = sym_fork("h", 0, 10), local = sym_fork("local", 0, 1), down = sym_fork("down", 0, 1), sub = sym_fork("sub", 0, 3), opt = sym_fork("options", 0, 2);
  if (extraShape(w, h) ? c != 1 && c != 2 || sub != opt || w * h > TH(30, 50) : w * h > TH(12, 25) || w > TH(5, 7) || h > TH(5, 7) || (sub && w + h > 6) || (sub + opt) % 3 != down) sym_end(); sym_shard();
  double tuning = opt == 1 ? 0.02 : 0, scale = opt == 2 ? 0.9 : 1.0; bool otsu2 = opt == 2; int base = V[(c + w + h + opt) % 3];
  for (int i = 0; i < 261; i++) K[i] = sym_int("K", i, -1000, 1000);
  ConfigLength len(BLOCKS[c][0], BLOCKS[c][1]); ThresholdBlockOtsu<T> f(otsu2, len, tuning, scale, down != 0, local != 0); sym_tag("ThresholdBlockOtsu");
  SImg<T> a("p", w, h, sub & 1, false); SImg<U8> o("o", w, h, sub >> 1); Grid g(w, h, blockRequest(c, w, h));
  for (uint32_t i = 0; i < a.parent->data_length; i++) a.parent->data[i] = (T)(base + sym_int("v", i, 0, 3)); a.snap();
  if (sub >= 2) { Gray<T> b(4, 3); for (int i = 0; i < 12; i++) b.data[i] = (T)(base + (i & 3)); Gray<U8> o2(4, 3); outcome([&] { f.process(b, o2); }); } // used before
  int rc = outcome([&] { f.process(a.img(), o.img()); });
  sym_check(a.unchanged() && o.frameOk(), "input and surroundings unchanged");
  if (!g.ok) { sym_check(rc == 1, "block size is rejected"); sym_check(o.unchanged(), "nothing is written"); if (w > 2 && h > 2) sym_cover("rejected"); return; }
  sym_check(rc == 0, "accepted");
  std::vector<std::vector<uint32_t>> hs; for (int by = 0; by < g.ny; by++) for (int bx = 0; bx < g.nx; bx++) { std::vector<uint32_t> q(256); for (int y = g.y0(by); y < g.y1(by); y++) for (int x = g.x0(bx); x < g.x1(bx); x++) q[(U8)a.px(x, y)]++; hs.push_back(q); }
  for (int by = 0; by < g.ny; by++) for (int bx = 0; bx < g.nx; bx++) {
    GrowArray<uint32_t> hist(256); hist.fill(0); uint32_t n = 0; around(g, bx, by, local, [&](int i, int j) { for (int k = 0; k < 256; k++) hist[k] += hs[j * g.nx + i][k]; }); for (int k = 0; k < 256; k++) n += hist[k];
    AnyThreshold q(otsu2, tuning, down != 0, scale); q.compute(hist, n);
    for (int y = g.y0(by); y < g.y1(by); y++) for (int x = g.x0(bx); x < g.x1(bx); x++) { U8 v = (U8)a.px(x, y); bool e = down ? v <= q.threshold : v > q.threshold; sym_check(o.now(x, y) == (U8)e, "pixel against the threshold of its blocks"); }
    if (bx == 1 && by == 1 && local) sym_cover("local"); if (g.nx * g.ny > 1 && sub >= 2) sym_cover("used before");
  }
  SImg<U8> q("r", w, h + 1, 0); sym_check(outcome([&] { f.process(a.img(), q.img()); }) == 1 && q.unchanged(), "output of another shape is rejected");
}
