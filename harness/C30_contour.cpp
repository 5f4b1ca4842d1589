// C30: contours trace exactly the blob boundaries
#include "contour_spec.h"
HARNESS {
  int eight = sym_fork("eight", 0, 1), fam = sym_fork("family", -1, NFAM - 1), w, h; sym_tag(eight ? "EIGHT" : "FOUR");
  if (fam < 0) { w = sym_fork("w", 1, TH(5, 6)); h = sym_fork("h", 1, TH(4, 5)); if (w * h > TH(12, 16)) sym_end(); } else { w = FAM[fam].w; h = FAM[fam].h; } sym_shard();
  Gray<U8> a(w, h); symBinary(a, "p", fam); Gray<S32> l(1, 1); LinearContourLabelChang2004 f(eight ? EIGHT : FOUR); f.process(a, l);
  Bits b = readBits(a); Spec s(b, eight); sym_check((int)f.contours.size() == s.n, "one contour entry per blob"); uint32_t sets = 0, points = 0;
  for (int k = 0; k < s.n; k++) {
    std::vector<std::vector<int>> br = s.borders(k); ContourPacked& c = f.contours[k]; sets += br.size();
    Pts e; f.packedPoints.load_set(c.externalIndex, e); points += e.size(); sym_check(visitsExactly(e, br[0], w, h), "the external contour visits exactly the pixels next to the outside"); sym_check(cyclic(e, eight), "consecutive points are neighbours");
    sym_check(c.internalIndexes.size() == br.size() - 1, "one internal contour per hole"); std::vector<int> used(br.size(), 0);
    for (size_t i = 0; i < c.internalIndexes.size(); i++) { Pts p; f.packedPoints.load_set(c.internalIndexes[i], p); points += p.size(); bool any = false; for (size_t q = 1; q < br.size() && !any; q++) if (!used[q] && visitsExactly(p, br[q], w, h)) used[q] = any = true; sym_check(any, "an internal contour visits exactly the pixels next to its hole"); sym_check(cyclic(p, eight), "consecutive points are neighbours"); }
    if (br.size() > 2) sym_cover("two holes");
  }
  sym_check(f.packedPoints.number_of_sets() == sets, "every contour is stored once"); if (s.n > 2) sym_cover("three blobs");
}
