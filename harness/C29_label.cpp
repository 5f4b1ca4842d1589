// C29: blob labelling equals connected components
#include "contour_spec.h"
HARNESS {
  int eight = sym_fork("eight", 0, 1), fam = sym_fork("family", -1, NFAM - 1), w, h; sym_tag(eight ? "EIGHT" : "FOUR");
  if (fam < 0) { w = sym_fork("w", 0, TH(5, 6)); h = sym_fork("h", 0, TH(4, 5)); if (w * h > TH(12, 16)) sym_end(); } else { w = FAM[fam].w; h = FAM[fam].h; }
  int sub = sym_fork("sub", 0, 3); sym_shard(); if (sub && (fam >= 0 || w * h > 6)) sym_end();
  SImg<U8> a("p", w, h, sub & 1, false); for (uint32_t i = 0; i < a.parent->data_length; i++) a.parent->data[i] = 1; // what surrounds a sub-image must not matter
  symBinary(a.img(), "p", fam); a.snap(); SImg<S32> l("l", sub & 2 ? w : w + 1, sub & 2 ? h : 2, sub >> 1);
  LinearContourLabelChang2004 f(eight ? EIGHT : FOUR); f.process(a.img(), l.img());
  sym_check(l.img().width == (uint32_t)w && l.img().height == (uint32_t)h, "label image takes the shape of the input"); sym_check(a.unchanged() && l.frameOk(), "input and surroundings unchanged");
  Bits b = readBits(a.img()); Spec s(b, eight); bool ok = true; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) ok = ok & (l.now(x, y) == s.lab[y * w + x] + 1);
  sym_check(ok, "labels are the connected components in raster order"); sym_check((int)f.contours.size() == s.n, "one contour entry per blob"); bool ids = true; for (size_t i = 0; i < f.contours.size(); i++) ids = ids & (f.contours[i].id == i + 1); sym_check(ids, "contour entries are numbered like the labels");
  if (s.n > 3) sym_cover("several blobs"); if (fam == 0 && s.n == 2) sym_cover("nested blobs"); if (w * h == 0) sym_cover("empty");
}
