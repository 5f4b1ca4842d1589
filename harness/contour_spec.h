// Specification of blobs and contours, shared by the contour harnesses.
#pragma once
#include "img.h"
#include "contour.h"
// image families: every shape up to a size with every pixel free, and larger patterns with some free pixels (?)
struct Family { int w, h; const char* p; };
static const Family FAM[] = {
  {5, 5, "######???##???##???######"}, {7, 5, "########.....##.???.##.....########"}, {5, 3, "?#?#?#?#?#?#?#?"}, {5, 5, "##?###?.?#?...?#?.?###?##"}, {6, 4, "?####?#?..?##..?.#?####?"}, {7, 3, "#?#?#?##.#.#.##?#?#?#"}, {4, 5, "?..?.##..??..##.?..?"},
  {7, 7, "########.....##.?#?.##.#?#.##.?#?.##.....########"}, {7, 3, "?.?#?.?.?...?.?.?#?.?"}, {6, 6, "######?....??.##.??.##.??....?######"}, {6, 4, ".#..?####.?.#.#?..####??"}, {6, 5, "?#..#.###?##?.##.####?#?.##.##"}, {8, 4, "#.#?#.#?.#.#?#.#?#.#?#.#.#?#.#?#"} };
static const int NFAM = sizeof(FAM) / sizeof(FAM[0]);
struct Bits { int w, h; std::vector<int> v; int at(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h ? v[y * w + x] : 0; } };
static void flood(std::vector<int>& out, const std::vector<int>& in, int w, int h, int start, int val, int id, bool eight) {
  std::vector<int> st(1, start); out[start] = id;
  while (!st.empty()) { int i = st.back(); st.pop_back(); int x = i % w, y = i / w; for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) { if ((!dx && !dy) || (!eight && dx && dy)) continue; int a = x + dx, b = y + dy; if (a < 0 || b < 0 || a >= w || b >= h) continue; int j = b * w + a; if (in[j] == val && out[j] < 0) { out[j] = id; st.push_back(j); } } }
}
// components of the pixels with the given value, numbered in raster order of their first pixel; -1 elsewhere
static int components(std::vector<int>& out, const std::vector<int>& in, int w, int h, int val, bool eight) { out.assign(w * h, -1); int n = 0; for (int i = 0; i < w * h; i++) if (in[i] == val && out[i] < 0) flood(out, in, w, h, i, val, n++, eight); return n; }
typedef std::vector<Point2D<S32>> Pts;
static bool neighbours(const Point2D<S32>& a, const Point2D<S32>& b, bool eight) { int dx = a.x - b.x, dy = a.y - b.y; if (dx < 0) dx = -dx; if (dy < 0) dy = -dy; return eight ? dx <= 1 && dy <= 1 && dx + dy : dx + dy == 1; }
// does the set of points of the contour equal the mask?
static bool visitsExactly(const Pts& p, const std::vector<int>& mask, int w, int h) {
  std::vector<int> m(mask); for (size_t i = 0; i < p.size(); i++) { if (p[i].x < 0 || p[i].y < 0 || p[i].x >= w || p[i].y >= h) return false; int& q = m[p[i].y * w + p[i].x]; if (!q) return false; q = 2; } for (size_t i = 0; i < m.size(); i++) if (m[i] == 1) return false; return true;
}
static bool cyclic(const Pts& p, bool eight) { if (p.size() < 2) return p.size() == 1; for (size_t i = 0; i < p.size(); i++) if (!neighbours(p[i], p[(i + 1) % p.size()], eight)) return false; return true; }
struct Spec {
  Bits b; bool eight; int n; std::vector<int> lab; // labels -1, 0..n-1
  Spec(const Bits& b, bool eight) : b(b), eight(eight) { n = components(lab, b.v, b.w, b.h, 1, eight); }
  // border of blob k with each component of its complement; [0] is the outside
  std::vector<std::vector<int>> borders(int k) {
    int W = b.w + 2, H = b.h + 2; std::vector<int> m(W * H, 0); for (int y = 0; y < b.h; y++) for (int x = 0; x < b.w; x++) if (lab[y * b.w + x] == k) m[(y + 1) * W + x + 1] = 1;
    std::vector<int> c; int nc = components(c, m, W, H, 0, !eight); std::vector<std::vector<int>> r(nc, std::vector<int>(b.w * b.h, 0));
    for (int y = 0; y < b.h; y++) for (int x = 0; x < b.w; x++) if (lab[y * b.w + x] == k) for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) { if (eight && dx && dy) continue; int q = c[(y + 1 + dy) * W + x + 1 + dx]; if (q >= 0) r[q][y * b.w + x] = 1; }
    return r;
  }
};
// a symbolic binary image of family f (f < 0: every pixel free)
static void symBinary(Gray<U8>& g, const char* name, int f) { for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) { char c = f < 0 ? '?' : FAM[f].p[y * g.width + x]; g.at(x, y) = c == '?' ? (U8)sym_int(name, y * g.width + x, 0, 1) : c == '#'; } }
static Bits readBits(const Gray<U8>& g) { Bits b; b.w = g.width; b.h = g.height; for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) b.v.push_back(sym_concretize(g.at(x, y))); return b; }
