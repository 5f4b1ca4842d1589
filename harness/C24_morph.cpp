// C24: 4-neighbour erosion and dilation of binary images
#include "img.h"
#include "binary_ops.h"
HARNESS {
  int op = sym_fork("op", 0, 1), w = sym_fork("w", 0, TH(5, 7)), h = sym_fork("h", 0, TH(5, 7)), sub = sym_fork("sub", 0, 3); sym_tag(op ? "dilate4" : "erode4"); sym_shard();
  SImg<U8> a("a", w, h, sub & 1, false, 1, 2), o("o", sub & 2 ? w : w + 1, sub & 2 ? h : h > 1 ? h - 1 : 2, sub >> 1);
  for (uint32_t i = 0; i < a.parent->data_length; i++) a.parent->data[i] = (U8)sym_int("p", i, 0, 1);
  a.snap();
  if (op) BinaryImageOps::dilate4(a.img(), o.img()); else BinaryImageOps::erode4(a.img(), o.img());
  sym_check(o.img().width == (uint32_t)w && o.img().height == (uint32_t)h, "output shape"); sym_check(a.unchanged() && o.frameOk(), "input and surroundings unchanged");
  auto at = [&](int x, int y) { return (int)a.px(x, y); };
  for (int y = 1; y + 1 < h; y++) for (int x = 1; x + 1 < w; x++) { int n = at(x, y) + at(x - 1, y) + at(x + 1, y) + at(x, y - 1) + at(x, y + 1); sym_check(o.img().at(x, y) == (op ? n > 0 : n == 5), "4-neighbourhood"); }
  // duality: the complement's result of the other operation
  if (w > 2 && h > 2) { Gray<U8> c(w, h), d(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) c.at(x, y) = 1 - a.px(x, y); if (op) BinaryImageOps::erode4(c, d); else BinaryImageOps::dilate4(c, d); for (int y = 1; y + 1 < h; y++) for (int x = 1; x + 1 < w; x++) sym_check(o.img().at(x, y) == 1 - d.at(x, y), "erosion and dilation are dual"); sym_cover("interior"); }
  if (w < 3 || h < 3) sym_cover("no interior");
}
