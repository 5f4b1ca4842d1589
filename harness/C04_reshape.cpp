// C04: reshape histories of Gray / Interleaved / Planar images
#include "img.h"
static const int N = TH(3, 4), M = TH(2, 3);
static void steps(int* w, int* h, bool three) {
  static const char* nw[] = {"w0", "w1", "w2", "w3", "w4"}; static const char* nh[] = {"h0", "h1", "h2", "h3", "h4"};
  for (int i = 0; i <= N; i++) { w[i] = sym_fork(nw[i], 0, M); h[i] = sym_fork(nh[i], 0, M); if (i == 2) sym_shard(); }
}
static void gray() {
  sym_tag("Gray"); int w[6], h[6]; steps(w, h, false);
  int live = sym_heap_live();
  { Gray<S16> g(w[0], h[0]);
    for (int i = 0; i <= N; i++) {
      std::vector<S16> old; bool same = i > 0 && g.width == (uint32_t)w[i] && g.height == (uint32_t)h[i];
      if (same) for (int y = 0; y < h[i]; y++) for (int x = 0; x < w[i]; x++) old.push_back(g.at(x, y));
      if (i) g.reshape(w[i], h[i]);
      sym_check(g.width == (uint32_t)w[i] && g.height == (uint32_t)h[i] && g.getWidth() == g.width && g.getHeight() == g.height, "requested shape");
      sym_check(g.data_length >= (uint32_t)(w[i] * h[i]), "storage covers the image");
      if (same) { bool ok = true; size_t k = 0; for (int y = 0; y < h[i]; y++) for (int x = 0; x < w[i]; x++) ok = ok & (g.at(x, y) == old[k++]); sym_check(ok, "reshape to the current shape keeps the pixels"); sym_cover("identity reshape"); }
      for (int y = 0; y < h[i]; y++) for (int x = 0; x < w[i]; x++) g.at(x, y) = symAny<S16>("v", (i * 10 + y) * 10 + x);
      bool ok = true; for (int y = 0; y < h[i]; y++) for (int x = 0; x < w[i]; x++) ok = ok & (g.at(x, y) == symAny<S16>("v", (i * 10 + y) * 10 + x));
      sym_check(ok, "every pixel keeps its value independently");
    } }
  sym_check(sym_heap_live() == live, "all storage is released exactly once"); sym_cover("Gray history");
}
static void inter() {
  sym_tag("Interleaved"); int w[6], h[6], b[6]; steps(w, h, true);
  b[0] = sym_fork("b0", 0, 2); for (int i = 1; i <= N; i++) b[i] = (b[0] + i * w[i] + h[i]) % 3 + (i == 1); 
  int live = sym_heap_live();
  { Interleaved<S16> g(w[0], h[0], b[0]);
    for (int i = 0; i <= N; i++) {
      int W = w[i], H = h[i], B = b[i]; if (i == 1) { W = g.width; H = g.height; } else if (i == 2) B = g.num_bands;
      bool same = i > 0 && g.width == (uint32_t)W && g.height == (uint32_t)H && g.num_bands == (uint32_t)B; std::vector<S16> old;
      if (same) for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) for (int k = 0; k < B; k++) old.push_back(g.at(x, y, k));
      if (i == 1) g.setNumberOfBands(B); else if (i == 2) g.reshape(W, H); else if (i) g.reshape(W, H, B);
      sym_check(g.width == (uint32_t)W && g.height == (uint32_t)H && g.num_bands == (uint32_t)B && g.getHeight() == g.height, "requested shape and bands");
      sym_check(g.data_length >= (uint32_t)(W * H * B), "storage covers the image");
      if (same) { bool ok = true; size_t q = 0; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) for (int k = 0; k < B; k++) ok = ok & (g.at(x, y, k) == old[q++]); sym_check(ok, "reshape to the current shape keeps the pixels"); }
      int n = 0; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) for (int k = 0; k < B; k++) g.at(x, y, k) = symAny<S16>("v", i * 100 + n++);
      n = 0; bool ok = true; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) for (int k = 0; k < B; k++) ok = ok & (g.at(x, y, k) == symAny<S16>("v", i * 100 + n++));
      sym_check(ok, "every pixel keeps its value independently");
    } }
  sym_check(sym_heap_live() == live, "all storage is released exactly once"); sym_cover("Interleaved history");
}
static void planar() {
  sym_tag("Planar"); int w[6], h[6], b[6]; steps(w, h, true); b[0] = sym_fork("b0", 0, 2); for (int i = 1; i <= N; i++) b[i] = (b[0] + i * w[i] + h[i]) % 4;
  int live = sym_heap_live();
  { Planar<Gray<S16> > g(w[0], h[0], b[0]);
    for (int i = 0; i <= N; i++) {
      int W = w[i], H = h[i], B = b[i];
      if (i) { if (i & 1) { g.setNumberOfBands(B); g.reshape(W, H); } else { g.reshape(W, H); g.setNumberOfBands(B); } }
      sym_check(g.width == (uint32_t)W && g.height == (uint32_t)H && g.num_bands == (uint32_t)B, "requested shape and bands");
      int n = 0; bool ok = true;
      for (int k = 0; k < B; k++) { Gray<S16>& q = g.getBand(k); sym_check(q.width == (uint32_t)W && q.height == (uint32_t)H, "shape of every band"); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) q.at(x, y) = symAny<S16>("v", i * 100 + n++); }
      n = 0; for (int k = 0; k < B; k++) for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) ok = ok & (g.getBand(k).at(x, y) == symAny<S16>("v", i * 100 + n++));
      sym_check(ok, "every pixel keeps its value independently");
    } }
  sym_check(sym_heap_live() == live, "all storage is released exactly once"); sym_cover("Planar history");
}
static void subimages() {
  sym_tag("sub-image"); int w = sym_fork("w0", 0, 3), h = sym_fork("h0", 0, 3), t = sym_fork("kind", 0, 1); sym_shard();
  uint32_t nw = symAny<uint32_t>("nw", 0), nh = symAny<uint32_t>("nh", 0); bool same = (nw == (uint32_t)w) & (nh == (uint32_t)h);
  if (t == 0) { SImg<F32> s("s", w, h, 1); int r = outcome([&] { s.img().reshape(nw, nh); }); sym_check((r == 0) == same && r != 2, "reshaping a sub-image to another shape is rejected"); sym_check(s.img().width == (uint32_t)w && s.img().height == (uint32_t)h && s.unchanged(), "sub-image untouched"); }
  else { std::vector<U8> buf(64, (U8)7); Interleaved<U8> s(buf.data(), 64, w, h, 2, 3, 9); int r = outcome([&] { s.reshape(nw, nh); }); sym_check((r == 0) == same && r != 2, "reshaping a sub-image to another shape is rejected"); sym_check(s.width == (uint32_t)w && s.height == (uint32_t)h && s.num_bands == 2 && s.stride == 9 && s.offset == 3, "sub-image untouched");
    uint32_t nb = symAny<uint32_t>("nb", 0); r = outcome([&] { s.setNumberOfBands(nb); }); sym_check((r == 0) == (nb == 2) && r != 2, "changing the bands of a sub-image is rejected"); r = outcome([&] { s.reshape(nw, nh, nb); }); sym_check((r == 0) == (same & (nb == 2)) && r != 2, "reshaping a sub-image to another shape is rejected"); sym_check(s.num_bands == 2 && s.stride == 9, "sub-image untouched"); }
  sym_cover("sub-image reshape");
}
HARNESS { int t = sym_fork("part", 0, 3); if (t == 0) gray(); else if (t == 1) inter(); else if (t == 2) planar(); else subimages(); }
