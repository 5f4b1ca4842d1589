// C31: contour finder: reuse and size limits
#include "contour_spec.h"
typedef LinearContourLabelChang2004 F;
static bool samePts(const Pts& a, const Pts& b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); i++) ok = ok & (a[i].x == b[i].x) & (a[i].y == b[i].y); return ok; }
static Pts load(F& f, uint32_t i) { Pts p; f.packedPoints.load_set(i, p); return p; }
struct ReuseCase { int w, h; const char *first, *second; };
// (first image, second image), ? free
static const ReuseCase RC[] = { {3, 2, "??????", "??????"}, {2, 3, "??????", "??????"}, {3, 3, "###???###", "#?#?????#"}, {3, 3, "????.????", "#########"}, {3, 3, "?.?###?#?", "..??.?.??"}, {5, 4, "#?###.?.##.?.##?#?", 0}, {4, 4, "#####..##..##??#", "?##?#..##.?#?##?"} };
HARNESS {
  int part = sym_fork("part", 0, 1); int eight = sym_fork("eight", 0, 1);
  if (part == 0) {
    sym_tag("reuse"); int c = sym_fork("case", 0, 6), shape = sym_fork("shape", 0, 2), rule1 = sym_fork("rule1", 0, 1); if (!RC[c].second || (shape == 2 && c > 1) || (shape && c < 2 && rule1 != eight)) sym_end();  sym_shard();
    const ReuseCase& r = RC[c]; int w = r.w, h = r.h; static const int SH[][2] = {{3, 3}, {4, 2}};
    Gray<U8> b(w, h), a(shape == 2 ? h : shape ? SH[c & 1][0] : w, shape == 2 ? w : shape ? SH[c & 1][1] : h);
    if (shape && c > 1) { for (uint32_t i = 0; i < a.width * a.height; i++) a.data[i] = i % 4 == 1 ? (U8)sym_int("a", i, 0, 1) : i != 4; } else for (uint32_t i = 0; i < a.width * a.height; i++) { char q = shape == 1 ? (i % 2 ? '?' : '#') : r.first[i]; a.data[i] = q == '?' ? (U8)sym_int("a", i, 0, 1) : q == '#'; }
    { int z = 0; for (uint32_t i = 0; i < a.width * a.height; i++) z += sym_concretize(a.data[i]); sym_shard(); }
    for (int i = 0; i < w * h; i++) b.data[i] = r.second[i] == '?' ? (U8)sym_int("b", i, 0, 1) : r.second[i] == '#';
    F f(rule1 ? EIGHT : FOUR), g(eight ? EIGHT : FOUR); Gray<S32> l(1, 1), m(1, 1); f.process(a, l); if (rule1 != eight) f.setConnectRule(eight ? EIGHT : FOUR); sym_check(f.getConnectRule() == (eight ? EIGHT : FOUR), "connectivity rule"); f.process(b, l); g.process(b, m);
    bool ok = l.width == (uint32_t)w && l.height == (uint32_t)h; sym_check(ok, "label image takes the shape of the input"); for (int i = 0; i < w * h; i++) ok = ok & (l.data[i] == m.data[i]); sym_check(ok, "same labels");
    sym_check(f.contours.size() == g.contours.size() && f.packedPoints.number_of_sets() == g.packedPoints.number_of_sets(), "same number of blobs and contours"); ok = true;
    for (size_t i = 0; i < f.contours.size(); i++) { ContourPacked &p = f.contours[i], &q = g.contours[i]; ok = ok & (p.id == q.id) & (p.externalIndex == q.externalIndex) & (p.internalIndexes == q.internalIndexes); } sym_check(ok, "same contour indexes");
    for (uint32_t i = 0; i < f.packedPoints.number_of_sets(); i++) ok = ok & samePts(load(f, i), load(g, i)); sym_check(ok, "same contours"); if (shape && g.contours.size() > 1) sym_cover("another shape before"); if (!shape && rule1 != eight) sym_cover("another rule before"); return;
  }
  sym_tag("limits"); int fam = sym_fork("family", -1, 2), save = sym_fork("save", 0, 1), w = 3, h = 3; static const char* PAT[] = {"#######.?.##.?.#?######", "?##.###?####?.#", "#?##..####?#..?######"}; static const int PS[][2] = {{6, 4}, {5, 3}, {7, 3}}; sym_shard();
  if (fam >= 0) { w = PS[fam][0]; h = PS[fam][1]; if (fam == 0) { w = 5; h = 4; } }
  Gray<U8> a(w, h); static const char* P0 = "######.?.##?#.?#####"; const char* p = fam == 0 ? P0 : fam > 0 ? PAT[fam] : 0; for (int i = 0; i < w * h; i++) { char q = p ? p[i] : '?'; a.data[i] = q == '?' ? (U8)sym_int("p", i, 0, 1) : q == '#'; }
  { int z = 0; for (int i = 0; i < w * h; i++) z += sym_concretize(a.data[i]); sym_shard(); }
  F f(eight ? EIGHT : FOUR), g(eight ? EIGHT : FOUR); Gray<S32> l(1, 1), m(1, 1); g.process(a, m);
  f.minContourSize = (uint32_t)sym_int("min", 0, 0, 9); f.maxContourSize = (uint32_t)sym_int("max", 0, 0, 13); f.saveInternalContours = save != 0; f.process(a, l); uint32_t lo = f.minContourSize, hi = f.maxContourSize;
  bool ok = true; for (int i = 0; i < w * h; i++) ok = ok & (l.data[i] == m.data[i]); sym_check(ok, "limits do not change the labels"); sym_check(f.contours.size() == g.contours.size() && f.packedPoints.number_of_sets() == g.packedPoints.number_of_sets(), "limits do not change the number of blobs and contours");
  auto expect = [&](uint32_t i, bool external) { Pts e = load(g, i), q = load(f, i); uint32_t n = e.size(); bool keep = n >= lo && n < hi && (external || save); if (!keep) { sym_check(q.empty(), "contours outside of the limits are empty"); sym_cover("discarded"); } else { sym_check(samePts(q, e), "contours within the limits are complete"); if (!external) sym_cover("internal contour"); } };
  for (size_t i = 0; i < f.contours.size(); i++) { ContourPacked &c = f.contours[i], &q = g.contours[i]; sym_check(c.id == q.id && c.externalIndex == q.externalIndex && c.internalIndexes == q.internalIndexes, "limits do not change the contour indexes"); expect(c.externalIndex, true); for (uint32_t k : c.internalIndexes) expect(k, false); }
}
