// C33: sub-images give the result of stand-alone images and nothing outside of them is touched
#include "ops.h"
typedef TYPE T; typedef TypeInfo<T>::signed_type R;
static const int PAD[][4] = {{1, 1, 1, 1}, {0, 0, 2, 1}, {2, 0, 0, 0}, {0, 0, 0, 0}}; // left, right, top, bottom
template <class I> static SImg<I>* mk(const char* n, int w, int h, int p) { return new SImg<I>(n, w, h, 1, true, PAD[p][0], PAD[p][1], PAD[p][2], PAD[p][3]); }
HARNESS {
  static const int PQ[][2] = {{0, 0}, {1, 2}, {2, 1}, {1, 3}, {3, 1}};
  int op = sym_fork("op", 0, numOps<T>() - 1), w = sym_fork("w", 1, TH(4, 6)), h = sym_fork("h", 1, TH(4, 6)), k = sym_fork("k", 0, 3), pq = sym_fork("placement", 0, 4); sym_tag(ONAME[op]);
  if ((w * h > (op == HI ? 6 : TH(12, 20))) || (op == KO && (w * h > TH(4, 9) || k > 1 || pq > 1)) || (op == BM && !k) || (op == ER || op == DI || op == AND || op == OR || op == ST || op == HI || op == CP || op == FI ? k > 0 : 0)) sym_end(); sym_shard();
  int b = (w + h + k) % 4, off = (w + 2 * h) % (k + 1), p = PQ[pq][0], q = PQ[pq][1]; ConfigLength len(k + 1, -1); bool local = (w + h) & 1, down = (w ^ k) & 1;
  SImg<T>*a = mk<T>("a", w, h, p), *a2 = mk<T>("b", w, h, (p + 1) % 4), *o = mk<T>("o", w, h, q), *w1 = mk<T>("w1", w, h, p), *w2 = mk<T>("w2", w, h, q); SImg<U8>* bin = mk<U8>("bin", w, h, q); SImg<R>* res = mk<R>("res", w, h, q);
  for (uint32_t i = 0; i < a->parent->data_length; i++) a->parent->data[i] = pixel<T>(op, "pix", i); a->snap();
  Gray<T> c(w, h), c2(w, h), co(w, h), cw1(w, h), cw2(w, h); Gray<U8> cb(w, h); Gray<R> cr(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { c.at(x, y) = a->px(x, y); c2.at(x, y) = a2->px(x, y); if (inPlace(op)) co.at(x, y) = o->px(x, y); }
  Filters<T> f(len, local, down), g(len, local, down); Args<T> va(a->img(), a2->img(), o->img(), w1->img(), w2->img(), bin->img(), res->img()), vc(c, c2, co, cw1, cw2, cb, cr);
  int rv = outcome([&] { apply(op, va, f, k, off, b); }), rc = outcome([&] { apply(op, vc, g, k, off, b); }); sym_check(rv == rc, "same outcome"); bool ok = true;
  if (rc == 0) { int kind = kindOf(op); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (defined(op, x, y, w, h)) ok = ok & (kind == 0 ? o->now(x, y) == co.at(x, y) : kind == 1 ? bin->now(x, y) == cb.at(x, y) : kind == 2 ? res->now(x, y) == cr.at(x, y) : true); if (kind == 3) for (size_t i = 0; i < va.num.size(); i++) ok = ok & (va.num[i] == vc.num[i]); sym_check(ok, "same result as on stand-alone images"); }
  sym_check(a->unchanged() && a2->unchanged(), "inputs changed"); sym_check(o->frameOk() && bin->frameOk() && res->frameOk(), "write outside of the output"); sym_check(w1->frameOk() && w2->frameOk(), "write outside of the work image");
  if (w == 3 && h == 2 && pq == 1 && rc == 0) { if (kindOf(op) == 0) sym_cover("image"); if (kindOf(op) == 1) sym_cover("binary"); if (kindOf(op) == 2) sym_cover("wide"); if (kindOf(op) == 3) sym_cover("numbers"); }
}
