// C13: inner-only and border-only passes
#include "conv.h"
typedef TIN E; typedef TOUT R; typedef TypeInfo<E>::signed_type S;
template <class T> struct Div { typedef T type; };
static const bool SAME = std::is_same<E, R>::value;
template <class Q> R fin(S t, bool div, Q d, typename std::enable_if<std::is_integral<Q>::value>::type* = 0) { return div ? (R)((t + d / 2) / d) : (R)t; }
template <class Q> R fin(S t, bool div, Q d, typename std::enable_if<std::is_floating_point<Q>::value>::type* = 0) { return div ? (R)(t / d) : (R)t; }
template <bool> struct WithDiv { static void go(int, const Kernel1D<S>&, const Kernel2D<S>&, Gray<E>&, Gray<R>&, S) { sym_end(); } };
template <> struct WithDiv<true> { template <class X> static void go(int op, const Kernel1D<S>& k, const Kernel2D<S>& k2, Gray<E>& i, X& o, S d) {
  if (op == 0) ConvolveImage_Inner::horizontal(k, i, o, d); else if (op == 1) ConvolveImage_Inner::vertical(k, i, o, d); else if (op == 2) ConvolveImage_Inner::convolve(k2, i, o, d);
  else if (op == 3) ConvolveImage_Inner::horizontal_unrolled(k, i, o, d); else ConvolveImage_Inner::vertical_unrolled(k, i, o, d); } };
HARNESS {
  static const char* N[] = {"inner horizontal", "inner vertical", "inner convolve", "inner horizontal_unrolled", "inner vertical_unrolled", "border horizontal", "border vertical", "border convolve"};
  int op = sym_fork("op", 0, 7); bool two = op == 2 || op == 7, border = op >= 5; int dir = two ? 2 : border ? op - 5 : op % 3;
  int kw = sym_fork("kw", 1, two ? TH(4, 6) : 13), off = sym_fork("off", 0, kw - 1), div = border ? 0 : sym_fork("div", 0, SAME ? 1 : 0), dn = sym_fork("dn", 0, 2), sub = sym_fork("sub", 0, 1); sym_shard();
  int b = (kw + off + dn) % 4, m = 1 + (off + kw) % 3; // border rule and size across the kernel: varied with the other choices
#ifdef THOROUGH
  if (border) b = sym_fork("b", 0, 3);
#endif
  int w = dir == 1 ? m : kw + dn, h = dir == 0 ? m : kw + (two ? (dn + off) % 3 : dn); 
  sym_tag(N[op]);
  SImg<E> in("p", w, h, sub); SImg<R> out("o", w, h, 1 - sub); Kernel1D<S> k(kw, off); Kernel2D<S> k2(kw, off); for (int i = 0; i < kw * (two ? kw : 1); i++) { S v = KSym<S>::any(i); if (!two) k[i] = v; else k2.data[i] = v; }
  S d = std::is_integral<S>::value ? (S)sym_int("divisor", 0, 1, 1 << 30) : (S)sym_f64("divisor", 0, 0.5, 100.0);
  if (border) {
    std::shared_ptr<ImageBorder<E> > B = FactoryImageBorder::create_SB<E>(BORDERS[b]); B->setImage(in.img());
    if (op == 5) ConvolveImage_Border::horizontal(k, *B, out.img()); else if (op == 6) ConvolveImage_Border::vertical(k, *B, out.img()); else ConvolveImage_Border::convolve(k2, *B, out.img());
  } else if (div) WithDiv<SAME>::go(op, k, k2, in.img(), out.img(), d);
  else if (op == 0) ConvolveImage_Inner::horizontal(k, in.img(), out.img()); else if (op == 1) ConvolveImage_Inner::vertical(k, in.img(), out.img()); else if (op == 2) ConvolveImage_Inner::convolve(k2, in.img(), out.img());
  else if (op == 3) ConvolveImage_Inner::horizontal_unrolled(k, in.img(), out.img()); else ConvolveImage_Inner::vertical_unrolled(k, in.img(), out.img());
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    bool ix = x - off >= 0 && x - off + kw <= w, iy = y - off >= 0 && y - off + kw <= h, inside = dir == 0 ? ix : dir == 1 ? iy : ix && iy;
    R got = out.now(x, y);
    if (inside == border) { sym_check(SImg<R>::same(got, out.px(x, y)), "pixel outside of the pass was changed"); continue; }
    S t = 0;
    for (int i = 0; i < (dir == 0 ? 1 : kw); i++) for (int j = 0; j < (dir == 1 ? 1 : kw); j++) {
      int ex = dir == 1 ? x : extend(x + j - off, w, BORDERS[b]), ey = dir == 0 ? y : extend(y + i - off, h, BORDERS[b]);
      if (ex >= 0 && ey >= 0) t += (S)in.px(ex, ey) * (dir == 0 ? k[j] : dir == 1 ? k[i] : k2.data[i * kw + j]);
    }
    same<R>(got, fin<S>(t, div, d), "value of a pixel covered by the pass");
  }
  sym_check(in.unchanged(), "input changed"); sym_check(out.frameOk(), "wrote outside of the output");
  if (border && dn == 0 && kw > 2) sym_cover("border, image as large as the kernel"); if (!border && dn == 2) sym_cover("inner"); 
}
