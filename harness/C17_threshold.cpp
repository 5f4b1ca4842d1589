#include "img.h"
#include "binary_ops.h"
template <class T> static void go(const char* tag) {
  sym_tag(tag);
  int w = sym_fork("w", 0, 3), h = sym_fork("h", 0, 3), si = sym_fork("subin", 0, 1), so = sym_fork("subout", 0, 1);
  bool down = sym_fork("down", 0, 1);
  sym_shard();
  SImg<T> in("in", w, h, si);
  SImg<U8> out("out", w, h, so);
  T thr = symAny<T>("thr", 0);
  ThresholdOps::threshold(in.img(), thr, down, out.img());
  sym_check(out.img().width == (uint32_t)w && out.img().height == (uint32_t)h, "output shape");
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    T v = in.px(x, y); bool e = down ? v <= thr : v > thr;
    sym_check(out.now(x, y) == (e ? 1 : 0), "threshold class");
  }
  sym_check(in.unchanged(), "input modified"); sym_check(out.frameOk(), "write outside the output");
  if (w == 3 && h == 2) sym_cover("3x2 image");
}
HARNESS {
  int t = sym_fork("type", 0, 3);
  if (t == 0) go<U8>("U8"); else if (t == 1) go<S16>("S16"); else if (t == 2) go<F32>("F32"); else go<U16>("U16");
}
