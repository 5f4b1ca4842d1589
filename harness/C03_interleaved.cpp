// C03: Interleaved images
#include "img.h"
typedef TYPE T;
struct II { Interleaved<T>* parent; Interleaved<T>* view; uint32_t w, h, b; std::vector<T> before;
  II(const char* n, uint32_t w, uint32_t h, uint32_t b, int sub) : w(w), h(h), b(b) {
    if (sub) { parent = new Interleaved<T>(w + 2, h + 2, b); view = new Interleaved<T>(parent->data, parent->data_length, w, h, b, parent->stride + b, parent->stride); }
    else { parent = new Interleaved<T>(w, h, b); view = parent; }
    for (uint32_t i = 0; i < parent->data_length; i++) parent->data[i] = symAny<T>(n, i);
    before.assign(parent->data, parent->data + parent->data_length); }
  ~II() { if (view != parent) delete view; delete parent; }
  T px(uint32_t x, uint32_t y, uint32_t k) { return view == parent ? before[(y * w + x) * b + k] : before[((y + 1) * (w + 2) + x + 1) * b + k]; }
  bool frameOk() { bool ok = true; if (view == parent) return true; for (uint32_t y = 0; y < h + 2; y++) for (uint32_t x = 0; x < w + 2; x++) if (!(x > 0 && x <= w && y > 0 && y <= h)) for (uint32_t k = 0; k < b; k++) { uint32_t i = (y * (w + 2) + x) * b + k; ok = ok & (parent->data[i] == before[i]); } return ok; }
  bool unchanged() { bool ok = true; for (size_t i = 0; i < before.size(); i++) ok = ok & (parent->data[i] == before[i]); return ok; }
};
static void addressable(Interleaved<T>& g, uint32_t w, uint32_t h, uint32_t b) {
  sym_check(g.width == w && g.height == h && g.num_bands == b && g.getWidth() == w && g.getHeight() == h, "shape");
  if (g.width != w || g.height != h || g.num_bands != b) sym_end();
  T c = 1; for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) for (uint32_t k = 0; k < b; k++) g.at(x, y, k) = c++;
  c = 1; bool ok = true; for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) for (uint32_t k = 0; k < b; k++) ok = ok & (g.at(x, y, k) == c++);
  sym_check(ok, "every (x,y,band) has its own element");
}
static void access() {
  sym_tag("access");
  int w = sym_fork("w", 0, TH(2, 3)), h = sym_fork("h", 0, TH(2, 3)), b = sym_fork("b", 0, 3), sub = sym_fork("sub", 0, 1); sym_shard();
  II im("p", w, h, b, sub); Interleaved<T>& g = *im.view;
  uint32_t x = symAny<uint32_t>("x", 0), y = symAny<uint32_t>("y", 0), k = symAny<uint32_t>("k", 0); T* p = 0;
  bool in = (x < (uint32_t)w) & (y < (uint32_t)h) & (k < (uint32_t)b);
  int r = outcome([&] { p = &g.at(x, y, k); });
  sym_check((r == 1) == !in && r != 2, "at rejects exactly the out-of-range coordinates and bands");
  if (r == 0 && in) { sym_check(p == &g.unsafe_at(x, y, k) && p == g.data + g.index_of(x, y, k), "at, unsafe_at, index_of agree"); sym_check(*p == g.data[g.offset + y * g.stride + x * b + k], "band layout"); sym_cover("in range access"); }
  uint32_t x0 = symAny<uint32_t>("x0", 0), y0 = symAny<uint32_t>("y0", 0), x1 = symAny<uint32_t>("x1", 0), y1 = symAny<uint32_t>("y1", 0);
  bool legal = (x0 <= x1) & (x1 <= (uint32_t)w) & (y0 <= y1) & (y1 <= (uint32_t)h);
  r = outcome([&] {
    Interleaved<T> s = g.makeSubimage(x0, y0, x1, y1); sym_check(legal, "illegal rectangle accepted");
    sym_check(s.width == x1 - x0 && s.height == y1 - y0 && s.num_bands == (uint32_t)b && s.subimage, "sub-image shape");
    T* q = 0; int t = outcome([&] { q = &s.at(x, y, k); }); bool in2 = (x < x1 - x0) & (y < y1 - y0) & (k < (uint32_t)b);
    sym_check((t == 1) == !in2 && t != 2, "bounds of a sub-image");
    if (t == 0 && in2) { sym_check(q == &g.at(x0 + x, y0 + y, k), "sub-image aliases the parent's pixel"); sym_cover("sub-image pixel"); }
  });
  sym_check((r == 1) == !legal && r != 2, "rectangles outside the image are rejected");
  sym_check(im.unchanged(), "access changes no pixel");
}
static void setto() {
  sym_tag("setTo");
  int w = sym_fork("w", 0, 2), h = sym_fork("h", 0, TH(1, 2)), b = sym_fork("b", 1, TH(2, 3)), sa = sym_fork("suba", 0, 1), sb = sym_fork("subb", 0, 1);
  int w2 = sym_fork("w2", 0, 2), h2 = sym_fork("h2", 0, TH(1, 2)), b2 = sym_fork("b2", 1, TH(2, 3)); sym_shard();
  int live = sym_heap_live();
  { II s("s", w, h, b, sa), d("d", w2, h2, b2, sb);
    bool ok = !sb || (w == w2 && h == h2 && b == b2);
    int r = outcome([&] { d.view->setTo(*s.view); });
    sym_check((r == 0) == ok && r != 2, "setTo is rejected iff a view has another shape");
    sym_check(s.unchanged(), "setTo changed its source");
    if (!ok) sym_check(d.unchanged(), "rejected setTo changed pixels");
    if (r == 0) {
      Interleaved<T>& g = *d.view; sym_check(g.width == (uint32_t)w && g.height == (uint32_t)h && g.num_bands == (uint32_t)b, "setTo shape");
      for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < b; k++) sym_check(g.at(x, y, k) == s.px(x, y, k), "setTo copies every band of every pixel");
      if (sb) sym_check(d.frameOk(), "setTo wrote outside the destination");
      sym_cover("setTo");
    } }
  sym_check(sym_heap_live() == live, "storage balance");
}
static void reshapes() {
  sym_tag("reshape");
  int sub = sym_fork("sub", 0, 1), w = sym_fork("w", 0, 2), h = sym_fork("h", 1, 2), b = sym_fork("b", 1, 2);
  int o1 = sym_fork("o1", 0, 2), w1 = sym_fork("w1", 0, 2), b1 = sym_fork("b1", 0, 3), o2 = sym_fork("o2", 0, 2), w2 = sym_fork("w2", 0, 2), b2 = sym_fork("b2", 0, 3); sym_shard();
  int live = sym_heap_live();
  { II s("s", w, h, b, sub); Interleaved<T>& g = *s.view; uint32_t W = w, H = h, B = b;
    for (int i = 0; i < 2; i++) {
      int o = i ? o2 : o1; uint32_t nw = i ? w2 : w1, nb = i ? b2 : b1, nh = 2; if (o == 0) nw = W, nh = H; if (o == 1) nb = B;
      bool same = nw == W && nh == H && nb == B;
      int r = outcome([&] { if (o == 0) g.setNumberOfBands(nb); else if (o == 1) g.reshape(nw, nh); else g.reshape(nw, nh, nb); });
      sym_check((r == 0) == (!sub || same) && r != 2, "reshaping a sub-image to another shape is rejected");
      if (r == 0) { W = nw; H = nh; B = nb; }
      if (sub || (same && i == 0)) { sym_check(s.unchanged(), "pixels changed by a rejected or identity reshape"); sym_check(g.width == W && g.height == H && g.num_bands == B, "shape after a rejected or identity reshape"); if (sub) continue; }
      addressable(g, W, H, B);
    }
    sym_cover("reshaped twice"); }
  sym_check(sym_heap_live() == live, "storage balance");
}
static void copies() {
  sym_tag("copies");
  int sa = sym_fork("suba", 0, 1), sb = sym_fork("subb", 0, 1), w = sym_fork("w", 0, 2), w2 = sym_fork("w2", 0, 2), how = sym_fork("how", 0, 1); sym_shard();
  int live = sym_heap_live();
  { II s("s", w, 2, 2, sa), d("d", w2, 2, 2, sb);
    if (how == 0) { Interleaved<T> c(*s.view); sym_check(c.subimage == (sa != 0) && c.width == (uint32_t)w && c.height == 2 && c.num_bands == 2, "copy construction"); bool ok = true, al = true; for (int y = 0; y < 2; y++) for (int x = 0; x < w; x++) for (int k = 0; k < 2; k++) { ok = ok & (c.at(x, y, k) == s.px(x, y, k)); al = al & ((&c.at(x, y, k) == &s.view->at(x, y, k)) == (sa != 0)); } sym_check(ok, "copy construction keeps the pixels"); sym_check(al, "copy of an owner is independent, copy of a view is a view"); }
    else { int r = outcome([&] { *d.view = *s.view; }); bool ok = sa || !sb || w == w2; sym_check((r == 0) == ok && r != 2, "assignment is rejected iff a view has another shape");
      if (r == 0) { Interleaved<T>& c = *d.view; sym_check(c.width == (uint32_t)w && c.height == 2 && c.num_bands == 2, "assignment shape"); bool eq = true, al = true; for (int y = 0; y < 2; y++) for (int x = 0; x < w; x++) for (int k = 0; k < 2; k++) { eq = eq & (c.at(x, y, k) == s.px(x, y, k)); al = al & ((&c.at(x, y, k) == &s.view->at(x, y, k)) == (sa != 0)); } sym_check(eq, "assignment copies the pixels"); sym_check(al, "assigning an owner copies, assigning a sub-image views"); } }
    sym_check(s.unchanged(), "copying changed the source"); }
  sym_check(sym_heap_live() == live, "storage balance");
}
HARNESS { int t = sym_fork("part", 0, 3); if (t == 0) access(); else if (t == 1) setto(); else if (t == 2) reshapes(); else copies(); }
