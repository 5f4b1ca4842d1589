// C20: block mean threshold
#include "block.h"
typedef TYPE T; typedef TypeInfo<T>::sum_type S;
static T blockMean(SImg<T>& a, Grid& g, int bx, int by, float scale) {
  S t = 0; for (int y = g.y0(by); y < g.y1(by); y++) for (int x = g.x0(bx); x < g.x1(bx); x++) t += a.px(x, y);
  int n = (g.x1(bx) - g.x0(bx)) * (g.y1(by) - g.y0(by)); float m = scale * t / (float)n; return std::is_integral<T>::value ? (T)(S)(m + 0.5f) : (T)m;
}
HARNESS {
  int c = sym_fork("block", 0, 9), w = sym_fork("w", 0, TH(10, 11)), h = sym_fork("h", 0, TH(10, 11)), local = sym_fork("local", 0, 1), down = sym_fork("down", 0, 1), sub = sym_fork("sub", 0, 3), sc = sym_fork("scale", 0, 1);
  if (extraShape(w, h) ? sub != 3 : w + h > TH(11, 19) || w > TH(7, 11) || h > TH(7, 11) || (w > 5 && sub) || (sub == 1 && sc)) sym_end(); sym_shard();
  float scale = sc ? 0.9f : 1.0f; ConfigLength len(BLOCKS[c][0], BLOCKS[c][1]); ThresholdBlockMean<T> f(len, local != 0, scale, down != 0); sym_tag("ThresholdBlockMean");
  SImg<T> a("p", w, h, sub & 1); SImg<U8> o("o", w, h, sub >> 1); Grid g(w, h, blockRequest(c, w, h));
  if (sub == 2) { SImg<T> b("q", 5, 4, 0); Gray<U8> o2(5, 4); outcome([&] { f.process(b.img(), o2); }); } // used before
  int rc = outcome([&] { f.process(a.img(), o.img()); });
  sym_check(a.unchanged() && o.frameOk(), "input and surroundings unchanged");
  if (!g.ok) { sym_check(rc == 1, "block size is rejected"); sym_check(o.unchanged(), "nothing is written"); if (w > 2 && h > 2) sym_cover("rejected"); return; }
  sym_check(rc == 0, "accepted");
  std::vector<T> m; for (int y = 0; y < g.ny; y++) for (int x = 0; x < g.nx; x++) m.push_back(blockMean(a, g, x, y, scale));
  std::vector<T> th; for (int y = 0; y < g.ny; y++) for (int x = 0; x < g.nx; x++) { S t = 0; int n = 0; around(g, x, y, local, [&](int i, int j) { t += m[j * g.nx + i]; n++; }); th.push_back((T)(t / (S)n)); }
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { T t = th[g.by(y) * g.nx + g.bx(x)]; sym_check(o.now(x, y) == (U8)(down ? a.px(x, y) <= t : a.px(x, y) > t), "pixel against the mean of its blocks"); }
  if (g.nx > 2 && g.ny > 2 && local) sym_cover("local"); if (w % g.bw && h % g.bh && !local) sym_cover("remainder"); 
  SImg<U8> q("r", w, h + 1, 0); sym_check(outcome([&] { f.process(a.img(), q.img()); }) == 1 && q.unchanged(), "output of another shape is rejected");
}
