// C10: border-extended access for every 32-bit coordinate
#include "img.h"
#include "image_border.h"
typedef TYPE T;
static int64_t pos(int64_t x, int64_t n, int type) {
  if (type == EXTENDED) return x < 0 ? 0 : x >= n ? n - 1 : x;
  if (type == WRAP) { int64_t m = x % n; return m < 0 ? m + n : m; }
  if (n == 1) return 0; int64_t p = 2 * (n - 1), m = x % p; if (m < 0) m += p; return m < n ? m : p - m;
}
HARNESS {
  static const BorderType B[] = {EXTENDED, REFLECT, WRAP, ZERO, ZERO}; static const char* N[] = {"EXTENDED", "REFLECT", "WRAP", "ZERO", "VALUE"};
  int b = sym_fork("border", 0, 4), w = sym_fork("w", 1, TH(4, 6)), h = sym_fork("h", 1, TH(3, 6)), sub = sym_fork("sub", 0, 1); sym_tag(N[b]); sym_shard();
  SImg<T> im("p", w, h, sub); T v = b == 4 ? symAny<T>("value", 0) : (T)0;
  std::shared_ptr<ImageBorder<T> > B0 = b == 4 ? FactoryImageBorder::value_SB<T>(v) : FactoryImageBorder::create_SB<T>(B[b]);
  B0->setImage(im.img()); sym_check(B0->getWidth() == (uint32_t)w && B0->getHeight() == (uint32_t)h, "reported size");
  const int R = TH(64, 100000);
  int x = sym_int("x", 0, -R, R), y = sym_int("y", 0, -R, R);
  T got = B0->get(x, y);
  bool in = (x >= 0) & (y >= 0) & (x < w) & (y < h), ok = false;
  if (b >= 3) { for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) ok = ok | ((x == i) & (y == j) & (got == im.px(i, j))); ok = ok | (!in & (got == v)); }
  else { int64_t mx = pos(x, w, B[b]), my = pos(y, h, B[b]); for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) ok = ok | ((mx == i) & (my == j) & (got == im.px(i, j))); }
  sym_check(ok, "value of a border extended access");
  sym_check(im.unchanged(), "reading changed the image");
  if (!in) sym_cover("outside coordinate"); 
}
