// C23: logical operators
#include "img.h"
#include "binary_ops.h"
HARNESS {
  int op = sym_fork("op", 0, 1), w = sym_fork("w", 0, TH(3, 5)), h = sym_fork("h", 0, TH(3, 4)), sub = sym_fork("sub", 0, 3), out = sym_fork("out", 0, 3); sym_tag(op ? "logicOr" : "logicAnd"); sym_shard();
  auto run = [&](Gray<U8>& a, Gray<U8>& b, Gray<U8>& o) { if (op) BinaryImageOps::logicOr(a, b, o); else BinaryImageOps::logicAnd(a, b, o); };
  SImg<U8> a("a", w, h, sub & 1, true, 2, 1), b("b", w, h, sub >> 1), o("o", out == 1 ? w : w + 1, out == 1 ? h : h > 1 ? h - 1 : 2, out == 1);
  Gray<U8>& res = out == 2 ? a.img() : out == 3 ? b.img() : o.img();
  run(a.img(), b.img(), res);
  sym_check(res.width == (uint32_t)w && res.height == (uint32_t)h, "output shape");
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { bool p = a.px(x, y) != 0, q = b.px(x, y) != 0; sym_check(res.at(x, y) == (U8)(op ? p || q : p && q), "truth table"); }
  sym_check(out == 2 ? a.frameOk() : a.unchanged(), "first input"); sym_check(out == 3 ? b.frameOk() : b.unchanged(), "second input"); if (out == 1) sym_check(o.frameOk(), "write outside of the output");
  if (w == 3 && h == 3 && out == 2) sym_cover("output is the first input"); if (w == 3 && h == 2 && out == 1) sym_cover("sub-image");
  if (out < 2) { SImg<U8> c("c", w + sym_fork("dw", 0, 1), h + 1, 0); SImg<U8> d("d", w, h, 1); sym_check(outcome([&] { run(a.img(), c.img(), d.img()); }) == 1, "different shapes are rejected"); sym_check(d.unchanged(), "nothing is written"); }
}
