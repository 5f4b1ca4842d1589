// C39: Planar images
#include "img.h"
typedef TYPE T;
typedef Planar<Gray<T> > P;
static void fillSym(P& p, const char* n) { int k = 0; for (uint32_t b = 0; b < p.num_bands; b++) for (uint32_t y = 0; y < p.height; y++) for (uint32_t x = 0; x < p.width; x++) p.getBand(b).at(x, y) = symAny<T>(n, k++); }
static void basics() {
  sym_tag("basics"); int w = sym_fork("w", 0, 3), h = sym_fork("h", 0, 2), b = sym_fork("b", 0, 3); sym_shard();
  int live = sym_heap_live();
  { P p(w, h, b); sym_check(p.width == (uint32_t)w && p.height == (uint32_t)h && p.num_bands == (uint32_t)b && p.getHeight() == (uint32_t)h, "shape and bands");
    for (int k = 0; k < b; k++) { Gray<T>& g = p.getBand(k); sym_check(g.width == (uint32_t)w && g.height == (uint32_t)h, "shape of a band"); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) sym_check(g.at(x, y) == 0, "bands start zero filled"); }
    uint32_t q = symAny<uint32_t>("band", 0); int r = outcome([&] { p.getBand(q); }); sym_check((r == 1) == (q >= (uint32_t)b) && r != 2, "getBand rejects exactly the out-of-range bands");
    fillSym(p, "v"); bool ok = true; int n = 0; for (int k = 0; k < b; k++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) ok = ok & (p.getBand(k).at(x, y) == symAny<T>("v", n++)); sym_check(ok, "bands are independent images");
    uint32_t x = symAny<uint32_t>("x", 0), y = symAny<uint32_t>("y", 0); bool in = (q < (uint32_t)b) & (x < (uint32_t)w) & (y < (uint32_t)h);
    T* e = 0; r = outcome([&] { e = &p.at(x, y, q); }); sym_check((r == 1) == !in && r != 2, "at rejects exactly the out-of-range coordinates"); if (r == 0 && in) { sym_check(e == &p.getBand(q).at(x, y), "at addresses the pixel of the band"); sym_cover("pixel access"); } }
  sym_check(sym_heap_live() == live, "every band is released exactly once"); { P d; sym_check(d.num_bands == 0 && d.width == 0, "default image"); }
}
static void bandCount() {
  sym_tag("setNumberOfBands"); int w = sym_fork("w", 0, 2), h = sym_fork("h", 1, 2), b = sym_fork("b", 0, 3), c = sym_fork("c", 0, 3), d = sym_fork("d", 0, 3); sym_shard();
  int live = sym_heap_live();
  { P p(w, h, b); fillSym(p, "v"); int now = b, keep = b;
    for (int i = 0; i < 2; i++) { int n = i ? d : c; p.setNumberOfBands(n); if (n < keep) keep = n; now = n; sym_check(p.num_bands == (uint32_t)n, "number of bands");
      bool ok = true, z = true; for (int k = 0; k < n; k++) { Gray<T>& g = p.getBand(k); sym_check(g.width == (uint32_t)w && g.height == (uint32_t)h, "shape of every band"); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (k < keep) ok = ok & (g.at(x, y) == symAny<T>("v", (k * h + y) * w + x)); else z = z & (g.at(x, y) == 0); }
      sym_check(ok, "surviving bands keep their pixels"); sym_check(z, "new bands are zero filled"); }
    int nw = 2 - w; p.reshape(nw, h + 1); sym_check(p.width == (uint32_t)nw && p.height == (uint32_t)h + 1, "reshape"); for (int k = 0; k < now; k++) sym_check(p.getBand(k).width == (uint32_t)nw && p.getBand(k).height == (uint32_t)h + 1, "reshape reshapes every band"); fillSym(p, "r"); }
  sym_check(sym_heap_live() == live, "every band is released exactly once"); sym_cover("band count");
}
static void setTo() {
  sym_tag("setTo"); int w = sym_fork("w", 0, 2), h = sym_fork("h", 0, 2), b = sym_fork("b", 0, 2), w2 = sym_fork("w2", 0, 2), h2 = sym_fork("h2", 0, 2), b2 = sym_fork("b2", 0, 2); sym_shard();
  int live = sym_heap_live();
  { P s(w, h, b), d(w2, h2, b2); fillSym(s, "s"); fillSym(d, "d"); d.setTo(s); sym_check(d.width == (uint32_t)w && d.height == (uint32_t)h && d.num_bands == (uint32_t)b, "setTo shape");
    bool ok = true, src = true; for (int k = 0; k < b; k++) { sym_check(d.getBand(k).width == (uint32_t)w && d.getBand(k).height == (uint32_t)h, "setTo shape of bands"); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { T e = symAny<T>("s", (k * h + y) * w + x); ok = ok & (d.getBand(k).at(x, y) == e); src = src & (s.getBand(k).at(x, y) == e); d.getBand(k).at(x, y) = 3; src = src & (s.getBand(k).at(x, y) == e); } }
    sym_check(ok, "setTo copies every band"); sym_check(src, "setTo yields an independent image and keeps its source"); }
  sym_check(sym_heap_live() == live, "every band is released exactly once"); sym_cover("setTo");
}
HARNESS { int t = sym_fork("part", 0, 2); if (t == 0) basics(); else if (t == 1) bandCount(); else setTo(); }
