// C27: fill operations
#include "img.h"
#include "image_misc_ops.h"
typedef TYPE T;
struct SymRng { typedef uint32_t result_type; int n, lim; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; } uint32_t operator()() { if (n >= lim) sym_end(); return (uint32_t)sym_bits("rng", n++, 32); } };
static void gray() {
  int op = sym_fork("op", 0, 1), w = sym_fork("w", 0, TH(4, 6)), h = sym_fork("h", 0, TH(4, 5)), sub = sym_fork("sub", 0, 1), r = op ? sym_fork("radius", 0, TH(4, 6)) : 0; sym_tag(op ? "fill_border" : "fill"); sym_shard();
  SImg<T> im("p", w, h, sub); T v = symAny<T>("value", 0);
  if (op) ImageMiscOps::fill_border(im.img(), v, (uint32_t)r); else ImageMiscOps::fill(im.img(), v);
  bool in = true, keep = true;
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (!op || x < r || y < r || x >= w - r || y >= h - r) in = in & (im.now(x, y) == v); else keep = keep & (im.now(x, y) == im.px(x, y));
  sym_check(in, "requested pixels are filled"); sym_check(keep, "pixels farther than the radius keep their value"); sym_check(im.frameOk(), "fill wrote outside the image"); if (op && w == 4 && h == 4 && r == 1) sym_cover("border ring");
}
static void interleaved() {
  sym_tag("fill Interleaved"); int w = sym_fork("w", 0, TH(2, 3)), h = sym_fork("h", 0, TH(2, 3)), b = sym_fork("b", 1, 3), sub = sym_fork("sub", 0, 1); sym_shard();
  Interleaved<T> parent(w + 2, h + 2, b); for (uint32_t i = 0; i < parent.data_length; i++) parent.data[i] = symAny<T>("p", i);
  std::vector<T> before(parent.data, parent.data + parent.data_length); T v = symAny<T>("value", 0);
  if (sub) { Interleaved<T> s = parent.makeSubimage(1, 1, w + 1, h + 1); ImageMiscOps::fill(s, v); } else ImageMiscOps::fill(parent, v);
  bool ok = true, frame = true; for (int y = 0; y < h + 2; y++) for (int x = 0; x < w + 2; x++) for (int k = 0; k < b; k++) { T q = parent.at(x, y, k); if (!sub || (x > 0 && y > 0 && x <= w && y <= h)) ok = ok & (q == v); else frame = frame & (q == before[(y * (w + 2) + x) * b + k]); }
  sym_check(ok, "requested pixels are filled"); sym_check(frame, "fill wrote outside the image"); sym_cover("interleaved");
}
static void uniform() {
  sym_tag("fill_uniform"); int w = sym_fork("w", 0, TH(2, 3)), h = sym_fork("h", 0, 2), sub = sym_fork("sub", 0, 1);
  int a = sym_fork("lo", 0, 2), n = sym_fork("span", 1, 3); sym_shard();
  T lo = std::is_unsigned<T>::value ? (T)(a * 100) : (T)(a * 100 - 100); static const int span[] = {0, 1, 8, 50}; T hi = (T)(lo + span[n]);
  SImg<T> im("p", w, h, sub); SymRng rng; rng.n = 0; rng.lim = w * h + 2;
  ImageMiscOps::fill_uniform(im.img(), lo, hi, rng); 
  bool ok = true; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { T v = im.now(x, y); ok = ok & (v >= lo) & (v < hi); }
  sym_check(ok, "every pixel is inside [min,max)"); sym_check(im.frameOk(), "fill wrote outside the image"); sym_cover("uniform");
  sym_check(rng.n >= w * h, "every pixel draws its own random number");
}
HARNESS { int t = sym_fork("part", 0, 2); if (t == 0) gray(); else if (t == 1) interleaved(); else uniform(); }
