// C01: geometry, aliasing and bounds checks of Gray images and (nested) sub-images
#include "img.h"
template <class T> static void geometry(const char* tag) {
  sym_tag(tag);
  int w = sym_fork("w", 0, TH(3, 5)), h = sym_fork("h", 0, TH(3, 5)), how = sym_fork("how", 0, 2); sym_shard();
  Gray<T>* g;
  if (how == 0) g = new Gray<T>(w, h);
  else if (how == 1) { g = new Gray<T>(); sym_check(g->width == 0 && g->height == 0, "default image is empty"); g->reshape(w, h); }
  else { g = new Gray<T>(h + 1, w); g->reshape(w, h); }
  sym_check(g->width == (uint32_t)w && g->getWidth() == (uint32_t)w, "width");
  sym_check(g->height == (uint32_t)h && g->getHeight() == (uint32_t)h, "height");
  sym_check(g->total_pixels() == (uint32_t)(w * h), "total_pixels");
  if (how != 2) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) sym_check(g->at(x, y) == 0, "starts zero filled");
  uint32_t x = symAny<uint32_t>("x", 0), y = symAny<uint32_t>("y", 0);
  bool in = x < (uint32_t)w && y < (uint32_t)h; T* p = 0;
  int r = outcome([&] { p = &g->at(x, y); });
  sym_check((r == 1) == !in && r != 2, "at rejects exactly the out-of-range coordinates");
  sym_check(g->isInBounds(x, y) == in, "isInBounds");
  if (r == 0) {
    sym_cover("in range access");
    sym_check(p == &g->unsafe_at(x, y) && p == g->data + g->index_of(x, y), "at, unsafe_at and index_of agree");
    // distinct elements: a write is seen exactly at its own coordinate
    for (int b = 0; b < h; b++) for (int a = 0; a < w; a++) g->at(a, b) = (T)(b * w + a + 1);
    T v = symAny<T>("v", 0); g->at(x, y) = v;
    for (int b = 0; b < h; b++) for (int a = 0; a < w; a++) { bool me = x == (uint32_t)a && y == (uint32_t)b; T e = me ? v : (T)(b * w + a + 1); sym_check(g->at(a, b) == e, "each pixel has its own element"); }
  }
  delete g;
}
template <class T> static void views(const char* tag) {
  sym_tag(tag);
  int w = sym_fork("vw", 0, TH(3, 4)), h = sym_fork("vh", 0, TH(3, 4)), sub = sym_fork("sub", 0, 1); sym_shard();
  SImg<T> im("p", w, h, sub); Gray<T>& g = im.img();
  uint32_t x0 = symAny<uint32_t>("x0", 0), y0 = symAny<uint32_t>("y0", 0), x1 = symAny<uint32_t>("x1", 0), y1 = symAny<uint32_t>("y1", 0);
  bool legal = (x0 <= x1) & (x1 <= (uint32_t)w) & (y0 <= y1) & (y1 <= (uint32_t)h);
  int r = outcome([&] {
    Gray<T> s = g.makeSubimage(x0, y0, x1, y1);
    sym_check(legal, "illegal rectangle accepted");
    sym_check(s.width == x1 - x0 && s.height == y1 - y0 && s.getWidth() == x1 - x0 && s.getHeight() == y1 - y0, "sub-image shape");
    sym_check(s.subimage, "sub-image flag");
    uint32_t x = symAny<uint32_t>("x", 0), y = symAny<uint32_t>("y", 0); T* p = 0;
    bool in = (x < x1 - x0) & (y < y1 - y0);
    int q = outcome([&] { p = &s.at(x, y); });
    sym_check((q == 1) == !in && q != 2, "at of a sub-image rejects exactly the out-of-range coordinates");
    if (q == 0) { sym_check(p == &g.at(x0 + x, y0 + y), "sub-image aliases the parent's pixel"); sym_cover("sub-image pixel"); }
    // a sub-image of the sub-image
    uint32_t a0 = symAny<uint32_t>("a0", 0), b0 = symAny<uint32_t>("b0", 0), a1 = symAny<uint32_t>("a1", 0), b1 = symAny<uint32_t>("b1", 0);
    bool legal2 = (a0 <= a1) & (a1 <= x1 - x0) & (b0 <= b1) & (b1 <= y1 - y0);
    int t = outcome([&] {
      Gray<T> n = s.makeSubimage(a0, b0, a1, b1);
      sym_check(legal2, "illegal nested rectangle accepted");
      sym_check(n.width == a1 - a0 && n.height == b1 - b0, "nested sub-image shape");
      T* p2 = 0; int q2 = outcome([&] { p2 = &n.at(x, y); });
      sym_check((q2 == 1) == !((x < a1 - a0) & (y < b1 - b0)), "nested sub-image bounds");
      if (q2 == 0) { sym_check(p2 == &g.at(x0 + a0 + x, y0 + b0 + y), "nested sub-image aliases the parent's pixel"); sym_cover("nested sub-image pixel"); }
    });
    sym_check((t == 1) == !legal2 && t != 2, "nested rectangles outside the sub-image are rejected");
  });
  sym_check((r == 1) == !legal && r != 2, "rectangles outside the image are rejected");
  sym_check(im.unchanged(), "making views changes no pixel");
}
static void literal() {
  sym_tag("initializer list");
  float a = symAny<float>("l", 0), b = symAny<float>("l", 1), c = symAny<float>("l", 2), d = symAny<float>("l", 3), e = symAny<float>("l", 4), f = symAny<float>("l", 5);
  Gray<F32> g({{a, b, c}, {d, e, f}});
  sym_check(g.width == 3 && g.height == 2 && g.getHeight() == 2, "shape of a literal image");
  sym_check(g.at(0, 0) == a && g.at(1, 0) == b && g.at(2, 0) == c && g.at(0, 1) == d && g.at(1, 1) == e && g.at(2, 1) == f, "pixels of a literal image");
  Gray<F32> z({}); sym_check(z.width == 0 && z.height == 0, "empty literal image");
  int live = sym_heap_live();
  sym_check(outcome([&] { Gray<F32> bad({{a, b, c}, {d, e}}); }) == 1, "ragged literal is rejected");
  sym_check(sym_heap_live() == live, "rejecting a ragged literal leaks");
}
HARNESS {
  int t = sym_fork("type", 0, 6);
  if (t == 0) geometry<U8>("U8"); else if (t == 1) geometry<S16>("S16"); else if (t == 2) geometry<F32>("F32");
  else if (t == 3) views<U8>("view U8"); else if (t == 4) views<F32>("view F32"); else if (t == 5) views<S32>("view S32"); else literal();
}
