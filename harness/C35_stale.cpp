// C35: results do not depend on what output images, work images and filters held before
#include "ops.h"
typedef TYPE T; typedef TypeInfo<T>::signed_type R;
HARNESS {
  int op = sym_fork("op", 0, numOps<T>() - 1), w = sym_fork("w", 1, TH(4, 6)), h = sym_fork("h", 1, TH(4, 6)), k = sym_fork("k", 0, 3), prev = sym_fork("previous", 0, 4), wp = sym_fork("work", 0, 2); sym_tag(ONAME[op]);
  if (inPlace(op) || w * h > (op == HI ? 6 : TH(12, 20)) || (op == KO && (w * h > TH(4, 9) || k > 1 || (prev > 2 && !TH(0, 1)))) || (op == BM && !k) || (op == ER || op == DI || op == AND || op == OR || op == ST || op == HI || op == CP ? k > 0 : 0) || (needsSameOutput(op) && prev != 1 && op < KM) || (op < NC || op == TG || op > LM ? wp : 0)) sym_end(); sym_shard();
  int pw[] = {0, w, h + 1, w + 2, w - 1}, ph[] = {0, h, w + 1, 1, h + 2}; int b = (w + h + k) % 4, off = (w + 2 * h) % (k + 1); ConfigLength len(k + 1, -1); bool local = (w + h) & 1, down = (w ^ k) & 1; bool same = needsSameOutput(op); int W = same ? w : pw[prev], H = same ? h : ph[prev], X = pw[(prev + wp) % 5], Y = ph[(prev + wp) % 5];
  SImg<T> a("a", w, h, 0), a2("b", w, h, 0), o("o", W, H, 0), w1("w1", X, Y, 0), w2("w2", X, Y, 0); SImg<U8> bin("bin", W, H, 0); SImg<R> res("res", W, H, 0);
  for (uint32_t i = 0; i < a.parent->data_length; i++) a.parent->data[i] = pixel<T>(op, "pix", i); a.snap();
  Gray<T> co, cw1, cw2; Gray<U8> cb; Gray<R> cr; if (same) { co.reshape(w, h); cb.reshape(w, h); }
  Filters<T> f(len, local, down), g(len, local, down); Args<T> va(a.img(), a2.img(), o.img(), w1.img(), w2.img(), bin.img(), res.img()), vc(a.img(), a2.img(), co, cw1, cw2, cb, cr);
  if (op >= LM && op <= KO) { int fw = pw[prev], fh = ph[prev]; if (op != KO || fw * fh < TH(5, 9)) { SImg<T> e("e", fw, fh, 0, false); for (uint32_t i = 0; i < e.parent->data_length; i++) e.parent->data[i] = pixel<T>(op, "first", i); Gray<U8> eb(fw, fh); Args<T> ve(e.img(), e.img(), o.img(), w1.img(), w2.img(), eb, res.img()); outcome([&] { apply(op, ve, f, k, off, b); }); } }
  for (int i = 0; i < 4; i++) va.hist[i] = 5u + i;
  int rv = outcome([&] { apply(op, va, f, k, off, b); }), rc = outcome([&] { apply(op, vc, g, k, off, b); }); sym_check(rv == rc, "same outcome"); bool ok = true;
  if (rc == 0) { int kind = kindOf(op);
    if (kind < 3) { const ImageBase& v = kind == 0 ? (const ImageBase&)o.img() : kind == 1 ? (const ImageBase&)bin.img() : (const ImageBase&)res.img(); sym_check(v.width == (uint32_t)w && v.height == (uint32_t)h, "output takes the shape of the input"); }
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (defined(op, x, y, w, h)) ok = ok & (kind == 0 ? o.img().at(x, y) == co.at(x, y) : kind == 1 ? bin.img().at(x, y) == cb.at(x, y) : kind == 2 ? res.img().at(x, y) == cr.at(x, y) : true); if (kind == 3) for (size_t i = 0; i < va.num.size(); i++) ok = ok & (va.num[i] == vc.num[i]); sym_check(ok, "same result as with fresh images");
    if (w == 3 && h == 2 && prev == 2) { if (kind == 0) sym_cover("image"); if (kind == 1) sym_cover("binary"); if (kind == 2) sym_cover("wide"); } }
}
