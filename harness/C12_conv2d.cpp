// C12: whole-image 2D convolution
#include "conv.h"
typedef TIN E; typedef TOUT R; typedef TypeInfo<E>::signed_type S;
HARNESS {
  int kw = sym_fork("kw", 1, TH(5, 7)), off = sym_fork("off", 0, kw - 1), b = sym_fork("border", 0, 3), dw = sym_fork("dw", 0, TH(2, 3)), dh = sym_fork("dh", 0, TH(2, 3)), sub = sym_fork("sub", 0, 1); sym_shard();
  const int N[] = {kw + 1, kw > 1 ? kw - 1 : 1, kw + 2, kw}; int w = N[dw], h = N[dh];
  sym_tag("convolve");
  SImg<E> in("p", w, h, sub); Out<R> out(w, h, !sub || (b & 1)); Kernel2D<S> k(kw, off); for (int i = 0; i < kw * kw; i++) k.data[i] = KSym<S>::any(i);
  std::shared_ptr<ImageBorder<E> > B = FactoryImageBorder::create_SB<E>(BORDERS[b]); B->setImage(in.img());
  ConvolveImage::convolve(k, *B, out.img());
  sym_check(out.img().width == w && out.img().height == h, "output shape");
  Gray<R>& o = out.img();
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    S t = 0; for (int i = 0; i < kw; i++) { int ey = extend(y + i - off, h, BORDERS[b]); for (int j = 0; j < kw; j++) { int ex = extend(x + j - off, w, BORDERS[b]); if (ex >= 0 && ey >= 0) t += (S)in.px(ex, ey) * k.data[i * kw + j]; } }
    same<R>(o.data[o.offset + y * o.stride + x], (R)t, "output pixel is the kernel weighted sum");
  }
  sym_check(in.unchanged(), "input changed"); sym_check(out.s->frameOk(), "wrote outside of the output");
  if (w > kw && h > kw && kw > 1) sym_cover("optimized"); if (w < kw) sym_cover("naive");
}
