// Specification of the block partition shared by the block threshold harnesses.
#pragma once
#include "img.h"
#include "threshold_block_filters.h"
// lengths: length, fraction
static const double BLOCKS[][2] = {{1, -1}, {2, -1}, {3, -1}, {0, 0.5}, {2, 0.9}, {2.5, -1}, {0, -1}, {4, -1}, {0, 0.2}, {-1, -1}};
inline int blockRequest(int c, int w, int h) { double t = w < h ? w : h, v = BLOCKS[c][0]; if (BLOCKS[c][1] >= 0 && BLOCKS[c][1] * t > v) v = BLOCKS[c][1] * t; return v >= 0 ? (int)(v + 0.5) : -1; }
// shapes whose width and height split differently, beyond the small ones
inline bool extraShape(int w, int h) { return (w == 3 && h == 9) || (w == 9 && h == 3) || (w == 5 && h == 10) || (w == 10 && h == 5); }
struct Grid {
  int w, h, bw, bh, nx, ny; bool ok;
  Grid(int w, int h, int req) : w(w), h(h) { ok = req > 0 && w >= req && h >= req; if (!ok) return; bw = w / (w / req); bh = h / (h / req); nx = w / bw; ny = h / bh; }
  int bx(int x) { int b = x / bw; return b < nx ? b : nx - 1; }
  int by(int y) { int b = y / bh; return b < ny ? b : ny - 1; }
  int x0(int b) { return b * bw; } int x1(int b) { return b == nx - 1 ? w : (b + 1) * bw; }
  int y0(int b) { return b * bh; } int y1(int b) { return b == ny - 1 ? h : (b + 1) * bh; }
};
// f(block x, block y) over the blocks that decide block (bx,by)
template <class F> inline void around(Grid& g, int bx, int by, bool local, F f) {
  int r = local ? 1 : 0; for (int y = by - r; y <= by + r; y++) for (int x = bx - r; x <= bx + r; x++) if (x >= 0 && y >= 0 && x < g.nx && y < g.ny) f(x, y);
}
