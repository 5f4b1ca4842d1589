// C34: degenerate shapes and oversized arguments: the defined result or an exception, and no foreign memory
#include "ops.h"
#include "contour.h"
#include "image_convert.h"
typedef TYPE T; typedef TypeInfo<T>::signed_type R;
HARNESS {
  int op = sym_fork("op", 0, numOps<T>() + 2), w = sym_fork("w", 0, TH(4, 5)), h = sym_fork("h", 0, TH(4, 5)), k = sym_fork("k", 0, TH(6, 9)), sub = sym_fork("sub", 0, 1);
  int n = numOps<T>(); sym_tag(op < n ? ONAME[op] : op == n ? "LinearContourLabelChang2004" : op == n + 1 ? "convert_average" : "GlobalOtsuBinaryFilter"); if ((op == HI && (w * h > 6 || k)) || (op == KO && (w * h > 4 || sub || (w * h > 2 && k > 2 && !TH(0, 1)))) || (sub && (w == 2 || h == 2) && op <= BG && !TH(0, 1)) || (w && h && w < 4 && h < 4 && op > CV && op <= BG && k > 4 && sub)) sym_end(); sym_shard();
  int rc;
  if (op == n) { if (k > 3) sym_end(); Gray<U8> a(w, h); for (int i = 0; i < w * h; i++) a.data[i] = k == 0 ? 1 : k == 1 ? i % 2 : k == 2 ? i % 3 != 1 : (U8)(i % 4 == 1 ? 1 : 255); Gray<S32> l; LinearContourLabelChang2004 f(sub ? EIGHT : FOUR); rc = outcome([&] { f.process(a, l); }); sym_check(rc == 0 && l.width == (uint32_t)w && l.height == (uint32_t)h, "labels"); return; }
  if (op == n + 1) { if (k > 3) sym_end(); Interleaved<T> a(w, h, k); for (uint32_t i = 0; i < a.data_length; i++) a.data[i] = symAny<T>("p", i); Gray<T> o; if (k == 0) return; rc = outcome([&] { convert_average(a, o); }); sym_check(rc == 0 && o.width == (uint32_t)w && o.height == (uint32_t)h, "average"); return; }
  if (op == n + 2) { if (k > 3) sym_end(); Gray<T> a(w, h); for (int i = 0; i < w * h; i++) a.data[i] = (T)(k == 0 ? 2 : (i * k) % 3); Gray<U8> o; GlobalOtsuBinaryFilter<T> f((T)0, (T)2, sub); rc = outcome([&] { f.process(a, o); }); sym_check(rc == 0 && o.width == (uint32_t)w && o.height == (uint32_t)h, "otsu"); return; }
  SImg<T> a("a", w, h, sub, true, 0, 0), a2("b", w, h, 0, false), o("o", w, h, 0, false); for (uint32_t i = 0; i < a.parent->data_length; i++) a.parent->data[i] = pixel<T>(op, "pix", i);
  Gray<T> w1, w2; Gray<U8> bin(needsSameOutput(op) ? w : 0, needsSameOutput(op) ? h : 0); Gray<R> res; Args<T> v(a.img(), a2.img(), o.img(), w1, w2, bin, res);
  int off = sym_fork("origin", 0, op <= NC ? k : 0), b = (w + h + off) % 4; if (op <= NC && k > 3 && off != 0 && off != k / 2 && off != k) sym_end(); ConfigLength len = k == 6 ? ConfigLength(0, -1) : k == 5 ? ConfigLength(0, 0.3) : ConfigLength(k, -1); Filters<T> f(len, (w ^ k) & 1, (h ^ k) & 1);
  rc = outcome([&] { apply(op, v, f, k, off, b); }); sym_check(rc <= 1, "result or invalid_argument");
  if (op <= NV || op == NC || op == MH || op == MV || op == TG || op == HI || op == CP || op >= FI) { sym_check(rc == 0, "defined for every shape"); } if ((op == BM || op == BG) && k > 0) sym_check(rc == 0, "defined for every shape");
  if (rc == 0 && kindOf(op) < 3) { const ImageBase& q = kindOf(op) == 0 ? (const ImageBase&)o.img() : kindOf(op) == 1 ? (const ImageBase&)bin : (const ImageBase&)res; sym_check(q.width == (uint32_t)w && q.height == (uint32_t)h, "shape of the output"); }
  if (w == 0 && h > 0 && rc == 0) sym_cover("empty image"); if (w == 1 && h == 2 && k == 5 && op == C2) sym_cover("kernel larger than the image"); if (op == KM && rc == 1) sym_cover("rejected block size");
}
