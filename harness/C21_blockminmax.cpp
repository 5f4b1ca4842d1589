// C21: block min-max threshold
#include "block.h"
typedef TYPE T; typedef TypeInfo<T>::sum_type S;
HARNESS {
  int c = sym_fork("block", 0, 9), w = sym_fork("w", 0, 10), h = sym_fork("h", 0, 10), local = sym_fork("local", 0, 1), down = sym_fork("down", 0, 1), sub = sym_fork("sub", 0, 3), sp = sym_fork("spread", 0, 4);
  if (extraShape(w, h) ? sub != 2 || sp > 1 : w + h > TH(9, 14) || w > TH(6, 9) || h > TH(6, 9) || (w > 4 && sub) || (sub == 1 && (sp & 1)) || (sub > 1 && !(sp & 1))) sym_end(); sym_shard();
  static const float SP[] = {0, -1, 10.5f, 100, -20}; float scale = sp == 0 ? 1.0f : sp == 1 ? 0.8f : sp == 2 ? 1.3f : 0.95f; ConfigLength len(BLOCKS[c][0], BLOCKS[c][1]); ThresholdBlockMinMax<T> f(SP[sp], len, local != 0, scale, down != 0); sym_tag("ThresholdBlockMinMax");
  SImg<T> a("p", w, h, sub & 1); SImg<U8> o("o", w, h, sub >> 1); Grid g(w, h, blockRequest(c, w, h));
  if (sub == 2) { SImg<T> b("q", 4, 3, 0); Gray<U8> o2(4, 3); outcome([&] { f.process(b.img(), o2); }); } // used before
  int rc = outcome([&] { f.process(a.img(), o.img()); });
  sym_check(a.unchanged() && o.frameOk(), "input and surroundings unchanged");
  if (!g.ok) { sym_check(rc == 1, "block size is rejected"); sym_check(o.unchanged(), "nothing is written"); if (w > 2 && h > 2) sym_cover("rejected"); return; }
  sym_check(rc == 0, "accepted");
  std::vector<T> mn, mx; // extrema of each block
  for (int by = 0; by < g.ny; by++) for (int bx = 0; bx < g.nx; bx++) {
    T lo, hi; lo = hi = a.px(g.x0(bx), g.y0(by)); for (int y = g.y0(by); y < g.y1(by); y++) for (int x = g.x0(bx); x < g.x1(bx); x++) { T v = a.px(x, y); if (v < lo) lo = v; else if (v > hi) hi = v; }
    mn.push_back(lo); mx.push_back(hi);
  }
  for (int by = 0; by < g.ny; by++) for (int bx = 0; bx < g.nx; bx++) {
    T lo = std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::lowest(); around(g, bx, by, local, [&](int i, int j) { T a0 = mn[j * g.nx + i], b0 = mx[j * g.nx + i]; if (a0 < lo) lo = a0; if (b0 > hi) hi = b0; });
    bool flat = SP[sp] > -1 && hi - lo <= (S)SP[sp]; S t = (S)(scale * ((hi + lo) / 2));
    for (int y = g.y0(by); y < g.y1(by); y++) for (int x = g.x0(bx); x < g.x1(bx); x++) { T v = a.px(x, y); bool e = down ? v <= t : v > t; sym_check(o.now(x, y) == (U8)(flat ? 1 : e), "pixel against the middle of its blocks"); }
    if (bx == 1 && by == 1 && local) sym_cover("local"); if (sp == 1) sym_cover("no texture test");
  }
  SImg<U8> q("r", w + 1, h, 0); sym_check(outcome([&] { f.process(a.img(), q.img()); }) == 1 && q.unchanged(), "output of another shape is rejected");
}
