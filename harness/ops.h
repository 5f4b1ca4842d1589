// Every image operation of the library behind one interface, for the properties that quantify over all of them.
#pragma once
#include "conv.h"
#include "image_blur.h"
#include "image_statistics.h"
#include "image_misc_ops.h"
#include "binary_ops.h"
namespace boofcv { // Otsu's computation is decided by C19: here any function of the histogram
struct AnyThreshold {
  double threshold, variance; bool down, otsu2; double tuning, scale;
  AnyThreshold(bool otsu2, double tuning, bool down, double scale) : threshold(0), variance(0), down(down), otsu2(otsu2), tuning(tuning), scale(scale) {}
  AnyThreshold(bool otsu2, bool down) : AnyThreshold(otsu2, 0, down, 1.0) {}
  void compute(const GrowArray<uint32_t>& h, uint32_t total) { uint32_t t = 7 * total; for (uint32_t i = 0; i < h.size; i++) t += (3 * i + 1) * h[i]; threshold = (double)(t & 3); }
};
}
#define ComputeOtsu AnyThreshold
#include "threshold_block_filters.h"
#undef ComputeOtsu
enum { CH, CV, C2, NH, NV, NC, MH, MV, BM, BG, TG, LM, KM, KX, KO, ST, HI, CP, FI, FB, NT, AND = NT, OR, ER, DI, NU8 };
static const char* const ONAME[] = {"ConvolveImage::horizontal", "ConvolveImage::vertical", "ConvolveImage::convolve", "ConvolveNormalized::horizontal", "ConvolveNormalized::vertical", "ConvolveNormalized::convolve", "ConvolveImageMean::horizontal", "ConvolveImageMean::vertical", "BlurImageOps::mean", "BlurImageOps::gaussian", "ThresholdOps::threshold", "LocalMeanBinaryFilter", "ThresholdBlockMean", "ThresholdBlockMinMax", "ThresholdBlockOtsu", "ImageStatistics", "ImageStatistics::histogram", "Gray::copy", "ImageMiscOps::fill", "ImageMiscOps::fill_border", "logicAnd", "logicOr", "erode4", "dilate4"};
// what an operation writes: 0 image of the input's type, 1 binary image, 2 wide image, 3 numbers
inline int kindOf(int op) { return op <= C2 ? 2 : op == ST || op == HI ? 3 : (op >= NH && op <= BG) || (op >= CP && op <= FB) ? 0 : 1; }
inline bool needsSameOutput(int op) { return (op >= NH && op <= NV) || op == MH || op == MV || (op >= KM && op <= KO); } // otherwise the output is reshaped
inline bool inPlace(int op) { return op == FI || op == FB; }
template <class T> struct Lim { static const int hi = 0; };
template <class T> struct BinOps { template <class A> static void run(int, A&) {} };
template <class T> struct Args {
  typedef typename TypeInfo<T>::signed_type R; Gray<T>&in, &in2, &out, &w1, &w2; Gray<U8>& bin; Gray<R>& res; std::vector<double> num; GrowArray<uint32_t> hist;
  Args(Gray<T>& in, Gray<T>& in2, Gray<T>& out, Gray<T>& w1, Gray<T>& w2, Gray<U8>& bin, Gray<R>& res) : in(in), in2(in2), out(out), w1(w1), w2(w2), bin(bin), res(res), hist(4) {}
};
template <> struct BinOps<uint8_t> { template <class A> static void run(int op, A& a) { switch (op) { case AND: BinaryImageOps::logicAnd(a.in, a.in2, a.bin); break; case OR: BinaryImageOps::logicOr(a.in, a.in2, a.bin); break; case ER: BinaryImageOps::erode4(a.in, a.bin); break; case DI: BinaryImageOps::dilate4(a.in, a.bin); break; } } };
// filters that may be used more than once
template <class T> struct Filters {
  LocalMeanBinaryFilter<T> lm; ThresholdBlockMean<T> km; ThresholdBlockMinMax<T> kx; ThresholdBlockOtsu<T> ko;
  Filters(const ConfigLength& l, bool local, bool down) : lm(l, 0.95f, down), km(l, local, 0.95, down), kx(2.0f, l, local, 0.95f, down), ko(false, l, 0, 1.0, down, local) {}
};
// kernel: width k+1, origin off, border rule b, radius k
template <class T> void apply(int op, Args<T>& a, Filters<T>& f, int k, int off, int b) {
  typedef typename TypeInfo<T>::signed_type R; static const int W[] = {3, 5, 2, 7, 1, 4, 6, 2, 9, 8, 3, 1, 5, 2};
  Kernel1D<R> k1(k + 1, off); Kernel2D<R> k2(k + 1, off); for (int i = 0; i <= k; i++) k1.data[i] = (R)W[i % 14]; for (int i = 0; i < (k + 1) * (k + 1); i++) k2.data[i] = (R)(i % 5 == 3 ? -W[i % 14] : W[i % 13]);
  std::shared_ptr<ImageBorder<T>> border = FactoryImageBorder::create_SB<T>(BORDERS[b]); border->setImage(a.in);
  switch (op) {
    case CH: ConvolveImage::horizontal(k1, *border, a.res); break; case CV: ConvolveImage::vertical(k1, *border, a.res); break; case C2: ConvolveImage::convolve(k2, *border, a.res); break;
    case NH: ConvolveNormalized::horizontal(k1, a.in, a.out); break; case NV: ConvolveNormalized::vertical(k1, a.in, a.out); break; case NC: ConvolveNormalized::convolve(k1, a.in, a.out, a.w1); break;
    case MH: ConvolveImageMean::horizontal(a.in, a.out, (uint32_t)k); break; case MV: ConvolveImageMean::vertical(a.in, a.out, (uint32_t)k); break; case BM: BlurImageOps::mean(a.in, a.out, (uint32_t)k, a.w1); break;
    case BG: BlurImageOps::gaussian(a.in, a.out, -1.0, 2 * k + 1, a.w1); break; case TG: ThresholdOps::threshold(a.in, (T)(k * 40 - 50), b & 1, a.bin); break;
    case LM: f.lm.process(a.in, a.bin); break; case KM: f.km.process(a.in, a.bin); break; case KX: f.kx.process(a.in, a.bin); break; case KO: f.ko.process(a.in, a.bin); break;
    case ST: a.num.clear(); a.num.push_back(ImageStatistics::min(a.in)); a.num.push_back(ImageStatistics::max(a.in)); a.num.push_back(ImageStatistics::sum(a.in)); a.num.push_back(ImageStatistics::mean(a.in)); break;
    case HI: ImageStatistics::histogram(a.in, (T)0, a.hist); a.num.clear(); for (int i = 0; i < 4; i++) a.num.push_back(a.hist[i]); break;
    case CP: a.out.copy(a.in); break; case FI: ImageMiscOps::fill(a.out, (T)(k + 3)); break; case FB: ImageMiscOps::fill_border(a.out, (T)(k + 3), (uint32_t)k); break;
    default: BinOps<T>::run(op, a);
  }
}
// pixels that take part: 0..3 where values index a histogram, 0/1 for binary images, otherwise everything
template <class T> T pixel(int op, const char* n, int i) { if (op == HI || op == KO) return (T)sym_int(n, i, 0, 3); if (op == ER || op == DI) return (T)sym_int(n, i, 0, 1); return symAny<T>(n, i); }
// a pixel the operation defines
inline bool defined(int op, int x, int y, int w, int h) { return (op != ER && op != DI) || (x > 0 && y > 0 && x + 1 < w && y + 1 < h); }
template <class T> int numOps() { return std::is_same<T, uint8_t>::value ? NU8 : NT; }
