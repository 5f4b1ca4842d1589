// C26: histogram
#include "img.h"
#include "image_statistics.h"
typedef TYPE T;
HARNESS {
  int w = sym_fork("w", 0, TH(sizeof(T) == 1 ? 3 : 2, 4)), h = sym_fork("h", 0, TH(2, 3)), sub = sym_fork("sub", 0, 1), bins = sym_fork("bins", 1, TH(3, 6)); sym_tag("histogram"); sym_shard();
  SImg<T> im("p", w, h, sub); T mn = symAny<T>("min", 0);
  if (std::is_integral<T>::value) { if (mn > std::numeric_limits<T>::max() - bins) sym_end(); } else sym_assume(mn == (T)(int)mn);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { T v = im.px(x, y); sym_assume((v >= mn) & (v - mn < bins)); }
  GrowArray<uint32_t> hist(bins); for (int i = 0; i < bins; i++) hist[i] = symAny<uint32_t>("stale", i);
  ImageStatistics::histogram(im.img(), mn, hist);
  sym_check(hist.size == (uint32_t)bins, "number of bins"); uint32_t total = 0;
  for (int i = 0; i < bins; i++) { uint32_t n = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) n += (uint32_t)(im.px(x, y) - mn) == (uint32_t)i ? 1 : 0; total += hist[i]; sym_check(hist[i] == n, "each bin counts its pixels"); }
  sym_check(total == (uint32_t)(w * h), "bins add up to the number of pixels");
  sym_check(im.unchanged(), "histogram changed the image"); if (w == 2 && h == 2 && bins == 3) sym_cover("2x2 image with 3 bins");
}
