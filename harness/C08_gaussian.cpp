// C08: Gaussian kernels, for every sigma (exact reals; exp is an uninterpreted positive increasing function with exp(x) >= 1+x)
#include "sym.h"
#include "base_types.h"
#include "image_types.h"
#include "convolve_kernels.h"
using namespace boofcv;
typedef TYPE T;
static double sig(double lo, double hi) { return sym_f64("sigma", 0, lo, hi); }
template <class K> static bool eqk(const K& a, const K& b) { if (a.width != b.width || a.offset != b.offset || a.data.size != b.data.size) return false; bool ok = true; for (uint32_t i = 0; i < a.data.size; i++) ok = ok & (a.data[i] == b.data[i]); return ok; }
HARNESS {
  static const char* N[] = {"gaussian1D", "gaussian1D sigma<=0", "gaussian1D width<=0", "gaussian2D", "gaussian2D width<=0", "integer 1D", "integer 2D", "helpers"};
  int part = sym_fork("part", 0, 7); sym_tag(N[part]);
  if (part == 0) {
    int w = sym_fork("w", 1, TH(15, 31)); sym_shard(); double s = sig(0.05, 50);
    Kernel1D<T> k = FactoryKernel::gaussian1D<T>(s, w); sym_check(k.width == w && k.offset == w / 2 && k.data.size == w, "width and origin");
    T sum = 0; for (int i = 0; i < w; i++) sum += k[i]; sym_close(sum, 1.0, 1e-3, "sums to one");
    for (int i = 0; i < w; i++) { sym_close(k[i], k[w - 1 - i], 1e-4, "symmetric about the center"); sym_check(k[i] >= 0, "no negative element"); if (i + 1 <= w / 2 && 2 * (i + 1) < w + 1) sym_check(k[i] <= k[i + 1], "not increasing away from the center"); }
    // the shape is the Gaussian density: ratios of elements are ratios of densities
    double c = w % 2 ? 0 : 0.5;
    for (int i = 0; i + 1 < w; i++) { double a = i - w / 2 + c, b = a + 1; if (w > 5) continue; double pa = FactoryKernel::computePDF(0, s, a), pb = FactoryKernel::computePDF(0, s, b); if (s > 0.5) sym_close(k[i] * pb, k[i + 1] * pa, 1e-3, "proportional to the density"); }
    if (w == 4) sym_cover("even width"); if (w == 7) sym_cover("odd width");
  } else if (part == 1) {
    int w = sym_fork("w", 2, TH(9, 15)); sym_shard(); double s = sym_f64("nsigma", 0, -100, 0); Kernel1D<T> a = FactoryKernel::gaussian1D<T>(s, w), b = FactoryKernel::gaussian1D<T>(((w / 2) * 2.0 + 1.0) / 5.0, w);
    sym_check(eqk(a, b), "sigma is derived from the width"); Kernel2D<T> c = FactoryKernel::gaussian2D<T>(s, w > 4 ? 2 : w), d = FactoryKernel::gaussian2D<T>(((w > 4 ? 1 : w / 2) * 2.0 + 1.0) / 5.0, w > 4 ? 2 : w); sym_check(eqk(c, d), "sigma is derived from the width, 2D");
    sym_cover("derived sigma");
  } else if (part == 2) {
    int w = sym_fork("w", -2, 0); sym_shard(); double s = sig(0.05, TH(5, 12)); Kernel1D<T> a = FactoryKernel::gaussian1D<T>(s, w); int W = sym_concretize(a.width); sym_check(W % 2 == 1 && a.offset == W / 2, "odd derived width"); int r = W / 2;
    sym_check(2 * r >= 5 * s - 1 - 1e-9 && 2 * r < 5 * s + 1 + 1e-9, "the width is derived from sigma"); Kernel1D<T> b = FactoryKernel::gaussian1D<T>(s, W); sym_check(eqk(a, b), "same kernel as with that width"); if (W == 5) sym_cover("derived width");
  } else if (part == 3) {
    int w = sym_fork("w", 1, TH(5, 7)); sym_shard(); double s = sig(0.05, 50); Kernel2D<T> k = FactoryKernel::gaussian2D<T>(s, w); Kernel1D<T> g = FactoryKernel::gaussian1D<T>(s, w); sym_check(k.width == w && k.offset == w / 2 && k.data.size == w * w, "width and origin");
    if (w <= 2 || w == 3) { T sum = 0; for (int i = 0; i < w * w; i++) sum += k.data[i]; sym_close(sum, 1.0, 1e-3, "sums to one, 2D"); }
    T gs = 0; for (int i = 0; i < w; i++) for (int j = 0; j < w; j++) gs += g[i] * g[j];
    for (int y = 0; y < w; y++) for (int x = 0; x < w; x++) { T v = k.data[y * w + x]; sym_close(v * gs, g[x] * g[y], 1e-3, "outer product of the 1D kernels, normalized"); sym_close(v, k.data[x * w + y], 1e-4, "symmetric under transposition"); sym_close(v, k.data[(w - 1 - y) * w + w - 1 - x], 1e-4, "symmetric about the center"); if (w < 3) sym_check(v >= 0, "no negative element"); }
    sym_cover("2D");
  } else if (part == 4) {
    int w = sym_fork("w", -1, 0); sym_shard(); double s = sig(0.05, TH(1.7, 3.3)); Kernel2D<T> a = FactoryKernel::gaussian2D<T>(s, w); int W = sym_concretize(a.width); Kernel1D<T> b = FactoryKernel::gaussian1D<T>(s, w); sym_check(b.width == W && a.data.size == W * W && a.offset == W / 2, "2D width is consistent with 1D"); Kernel2D<T> c = FactoryKernel::gaussian2D<T>(s, W); sym_check(eqk(a, c), "same kernel as with that width"); sym_cover("derived 2D width");
  } else if (part == 5) {
    int w = sym_fork("w", 1, TH(9, 15)); sym_shard(); double s = sig(0.4, 20); Kernel1D<int32_t> k = FactoryKernel::gaussian1D<int32_t>(s, w); Kernel1D<double> f = FactoryKernel::gaussian1D<double>(s, w); double hi = f[0], lo = f[0]; for (int i = 1; i < w; i++) { if (f[i] > hi) hi = f[i]; if (f[i] < lo) lo = f[i]; } double m = lo > hi / 100 ? lo : hi / 100;
    sym_check(k.width == w && k.offset == w / 2, "width and origin"); for (int i = 0; i < w; i++) { sym_check((double)k[i] <= f[i] / m + 1e-6 && f[i] / m - 1e-6 < (double)k[i] + 1, "float kernel divided by its scale, truncated"); sym_check(k[i] == k[w - 1 - i] && k[i] >= 0 , "symmetric and not negative"); }
    sym_cover("integer");
  } else if (part == 6) {
    int w = sym_fork("w", 1, 2); sym_shard(); double s = sig(0.4, 20); Kernel2D<int32_t> k = FactoryKernel::gaussian2D<int32_t>(s, w); Kernel2D<double> f = FactoryKernel::gaussian2D<double>(s, w); double hi = f.data[0], lo = f.data[0]; for (int i = 1; i < w * w; i++) { if (f.data[i] > hi) hi = f.data[i]; if (f.data[i] < lo) lo = f.data[i]; } double m = lo > hi / 100 ? lo : hi / 100;
    sym_check(k.width == w && k.offset == w / 2 && k.data.size == w * w, "width and origin"); for (int i = 0; i < w * w; i++) sym_check((double)k.data[i] <= f.data[i] / m + 1e-6 && f.data[i] / m - 1e-6 < (double)k.data[i] + 1, "float kernel divided by its scale, truncated");
    sym_cover("integer 2D");
  } else {
    int o = sym_fork("order", 0, 4); sym_shard(); double r = sym_f64("radius", 0, -1000, 1000), s = sym_f64("s", 0, -1000, 1000), v = 0; int i = 0;
    int c1 = outcome([&] { v = FactoryKernel::sigmaForRadius(r, o); }), c2 = outcome([&] { i = FactoryKernel::radiusForSigma(s, o); });
    sym_check((c1 == 1) == (r <= 0) && c1 != 2, "sigmaForRadius rejects exactly radius <= 0"); sym_check((c2 == 1) == (s <= 0) && c2 != 2, "radiusForSigma rejects exactly sigma <= 0");
    if (c1 == 0) { sym_close(v * (5 + 0.8 * o), 2 * r + 1, 1e-6, "sigmaForRadius"); sym_cover("sigmaForRadius"); }
    if (c2 == 0) { double e = (5 + 0.8 * o) * s - 1; sym_check(2.0 * i >= e - 1e-6 && 2.0 * i < e + 2 + 1e-6, "radiusForSigma"); sym_cover("radiusForSigma"); }
    sym_check(outcome([&] { FactoryKernel::gaussian1D<T>(-1.0, 0); }) == 1 && outcome([&] { FactoryKernel::gaussian2D<T>(0.0, -3); }) == 1, "neither width nor sigma");
  }
}
