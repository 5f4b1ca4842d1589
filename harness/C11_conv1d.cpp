// C11: whole-image 1D convolution
#include "conv.h"
typedef TIN E; typedef TOUT R; typedef TypeInfo<E>::signed_type S;
HARNESS {
  int dir = sym_fork("dir", 0, 1), kw = sym_fork("kw", 1, 13), off = sym_fork("off", 0, kw - 1), b = sym_fork("border", 0, 3), dn = sym_fork("dn", 0, TH(3, 5)); sym_shard();
  // size along the kernel: 1, kw, kw+1, kw+2 (thorough also kw-1 and 2kw)
  const int N[] = {1, kw, kw + 1, kw + 2, kw > 1 ? kw - 1 : 1, 2 * kw}; int n = N[dn];
  int m = TH(1 + (kw + off + b) % 2, sym_fork("m", 1, 2)), sub = TH((off + b + dn) % 2, sym_fork("sub", 0, 1));
  int w = dir == 0 ? n : m, h = dir == 0 ? m : n;
  sym_tag(dir == 0 ? "horizontal" : "vertical");
  SImg<E> in("p", w, h, sub); Out<R> out(w, h, !sub || (b & 1)); Kernel1D<S> k(kw, off); for (int i = 0; i < kw; i++) k[i] = KSym<S>::any(i);
  std::shared_ptr<ImageBorder<E> > B = FactoryImageBorder::create_SB<E>(BORDERS[b]); B->setImage(in.img());
  if (dir == 0) ConvolveImage::horizontal(k, *B, out.img()); else ConvolveImage::vertical(k, *B, out.img());
  sym_check(out.img().width == w && out.img().height == h, "output shape");
  Gray<R>& o = out.img();
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    S t = 0; for (int i = 0; i < kw; i++) { int c = (dir == 0 ? x : y) + i - off, e = extend(c, n, BORDERS[b]); if (e >= 0) t += (S)(dir == 0 ? in.px(e, y) : in.px(x, e)) * k[i]; }
    same<R>(o.data[o.offset + y * o.stride + x], (R)t, "output pixel is the kernel weighted sum");
  }
  sym_check(in.unchanged(), "input changed"); sym_check(out.s->frameOk(), "wrote outside of the output");
  if (n > kw && kw > 11) sym_cover("generic width, optimized"); if (n > kw && kw == 5) sym_cover("unrolled width"); if (n <= kw && kw > 1) sym_cover("naive");
}
