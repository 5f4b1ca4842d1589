// C16: Gaussian blur is the separable normalized convolution with the kernel of (sigma, width)
#include "conv.h"
#include "image_blur.h"
typedef TYPE E; typedef TypeInfo<E>::signed_type S;
static const bool FL = std::is_floating_point<E>::value;
template <class Q> Q quot(Q t, Q w, typename std::enable_if<std::is_integral<Q>::value>::type* = 0) { return (t + w / 2) / w; }
template <class Q> Q quot(Q t, Q w, typename std::enable_if<std::is_floating_point<Q>::value>::type* = 0) { return t / w; }
static void pass(const Kernel1D<S>& k, bool vert, int w, int h, std::vector<E>& p) {
  std::vector<E> q(p.size());
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { S t = 0, wt = 0; int c = vert ? y : x, N = vert ? h : w; for (int i = 0; i < (int)k.width; i++) { int e = c + i - (int)k.width / 2; if (e >= 0 && e < N) { t += (vert ? p[e * w + x] : p[y * w + e]) * k[i]; wt += k[i]; } } q[y * w + x] = (E)quot<S>(t, wt); }
  p = q;
}
static const double SG[] = {-1, 0, -1, 0.5, 1.0, 2.0, 1.5, 0.8, 0.6, 3.0, -2, 0, -1, 2.6};
static const int WD[] = {3, 4, 5, 0, -1, 0, 7, 1, 2, 9, 1, 0, -3, 0};
HARNESS {
  int cs = sym_fork("case", 0, FL ? 14 : 13), sub = sym_fork("sub", 0, 3), cst = sym_fork("constant", 0, 1), dn = sym_fork("dn", 0, 4); if (cst && sub != 1) sym_end(); sym_shard();
  bool any = cs == 14; double sigma = any ? sym_f64("sigma", 0, 0.4, 6.0) : SG[cs]; int width = any ? sym_fork("width", 1, 5) : WD[cs];
  sym_tag(any ? "any sigma" : width <= 0 ? "derived width" : sigma <= 0 ? "derived sigma" : "sigma and width");
  Kernel1D<S> k; int r = outcome([&] { k = FactoryKernel::gaussian1D<S>(sigma, width); }); int kw = r ? 3 : (int)k.width;
  const int NN[] = {1, 2, kw, kw + 1, kw + 2}; int w = NN[dn], h = NN[(dn * 2 + cs + sub) % 5]; if (sub == 2) { int q = w; w = h; h = q; } if (w * h > TH(90, 200)) h = 2; if (any && w * h > 20) { w = w > 4 ? 4 : w; h = h > 3 ? 3 : h; }
  SImg<E> a("p", w, h, sub & 1); if (cst) { E v = FL ? symAny<E>("c", 0) : (E)sym_int("c", 0, 0, std::numeric_limits<E>::is_signed ? 127 : 255); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) a.img().at(x, y) = v; a.snap(); }
  Out<E> o(w, h, sub >> 1), s(w, h, (sub >> 1) ^ (sub & 1)); int g = outcome([&] { BlurImageOps::gaussian(a.img(), o.img(), sigma, width, s.img()); });
  sym_check(g == r, "throws exactly if there is no such kernel"); sym_check(a.unchanged() && o.s->frameOk() && s.s->frameOk(), "input and surroundings unchanged"); if (r) { sym_check(r == 1, "invalid_argument"); sym_cover("rejected"); return; }
  std::vector<E> e; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) e.push_back(a.px(x, y)); E c = e[0];
  sym_check((int)o.img().width == w && (int)o.img().height == h && (int)s.img().width == w && (int)s.img().height == h, "output and work image take the shape of the input");
  pass(k, false, w, h, e); pass(k, true, w, h, e);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { same<E>(o.img().at(x, y), e[y * w + x], "horizontal then vertical normalized convolution"); if (cst) same<E>(o.img().at(x, y), c, "a constant image is reproduced"); }
  if (cst) sym_cover("constant image"); if (w > kw && h > kw) sym_cover("larger than the kernel"); if (any) sym_cover("any sigma");
}
