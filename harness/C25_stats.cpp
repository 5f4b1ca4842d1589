// C25: min, max, sum, mean
#include "img.h"
#include "image_statistics.h"
typedef TYPE T;
HARNESS {
  int w = sym_fork("w", 1, TH(3, 5)), h = sym_fork("h", 1, TH(3, 4)), sub = sym_fork("sub", 0, 2), op = sym_fork("op", 0, 3); sym_shard();
  SImg<T> im("p", w, h, sub, true, sub & 1, sub & 1, 1, 1); // 2: whole rows of a taller image
  static const char* N[] = {"min", "max", "sum", "mean"}; sym_tag(N[op]);
  typedef TypeInfo<T>::sum_type S;
  if (op < 2) {
    T r = op == 0 ? ImageStatistics::min(im.img()) : ImageStatistics::max(im.img()); bool is = false, bound = true;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { T p = im.px(x, y); is = is | (p == r); bound = bound & (op == 0 ? r <= p : r >= p); }
    sym_check(is, "the extremum is a visible pixel"); sym_check(bound, "no visible pixel is beyond the extremum");
  } else {
    S total = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) total += im.px(x, y);
    if (std::is_integral<T>::value) {
      // keep the exact sum representable
      if (sizeof(T) >= 4) { int64_t t = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) t += (int64_t)im.px(x, y); sym_assume(t >= -2147483648ll && t <= 2147483647ll); }
      if (op == 2) sym_check(ImageStatistics::sum(im.img()) == total, "sum of the visible pixels");
      else { int64_t n = w * h, q = (int64_t)total / n; sym_check((int64_t)ImageStatistics::mean(im.img()) == q, "truncated mean of the visible pixels"); }
    } else if (op == 2) sym_close(ImageStatistics::sum(im.img()), total, 0.05, "sum of the visible pixels");
    else sym_close(ImageStatistics::mean(im.img()), total / (T)(w * h), 0.01, "mean of the visible pixels");
  }
  sym_check(im.unchanged(), "statistics changed the image"); if (w == 3 && sub) sym_cover("sub-image");
}
