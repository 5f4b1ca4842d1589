// The image entry points of the JNI layer, run against the virtual machine of jvm.h and compared with the C++ operations.
#pragma once
#include "jvm.h"
#include "conv.h"
#include "image_blur.h"
#include "binary_ops.h"
#include "threshold_block_filters.h"
#define JT(n) Java_org_boofcpp_threshold_Native##n
#define JC(n) Java_org_boofcpp_convolve_Native##n
extern "C" {
void JT(GlobalFixed_nativeinit)(JNIEnv*, jobject, jdouble, jboolean); void JT(GlobalOtsu_nativeinit)(JNIEnv*, jobject, jdouble, jdouble, jboolean); void JT(LocalMean_nativeinit)(JNIEnv*, jobject, jobject, jdouble, jboolean);
void JT(BlockMean_nativeinit)(JNIEnv*, jobject, jobject, jdouble, jboolean, jboolean); void JT(BlockMinMax_nativeinit)(JNIEnv*, jobject, jobject, jdouble, jboolean, jdouble, jboolean); void JT(BlockOtsu_nativeinit)(JNIEnv*, jobject, jboolean, jobject, jdouble, jdouble, jboolean, jboolean);
#define JP(n) void JT(n##_nativedestroy)(JNIEnv*, jobject); void JT(n##_nativeprocess)(JNIEnv*, jobject, jobject, jobject);
JP(GlobalFixed) JP(GlobalOtsu) JP(LocalMean) JP(BlockMean) JP(BlockMinMax) JP(BlockOtsu)
void JC(ImageBlurOps_nativeMean)(JNIEnv*, jobject, jobject, jobject, jint, jobject); void JC(ImageBlurOps_nativeGaussian)(JNIEnv*, jobject, jobject, jobject, jdouble, jint, jobject);
void JC(ConvolveImage_nativeHorizontal)(JNIEnv*, jobject, jobject, jobject, jobject, jint); void JC(ConvolveImage_nativeVertical)(JNIEnv*, jobject, jobject, jobject, jobject, jint); void JC(ConvolveImage_nativeConvolve)(JNIEnv*, jobject, jobject, jobject, jobject, jint);
void JC(ImageConvolveNormalized_nativehorizontal)(JNIEnv*, jobject, jobject, jobject, jobject); void JC(ImageConvolveNormalized_nativevertical)(JNIEnv*, jobject, jobject, jobject, jobject);
}
enum { GF, GO, LM, KM, KX, KO, BM, BG, CH, CV, C2, NH, NV, NENTRY };
static const char* const ENAME[] = {"NativeGlobalFixed", "NativeGlobalOtsu", "NativeLocalMean", "NativeBlockMean", "NativeBlockMinMax", "NativeBlockOtsu", "NativeImageBlurOps.nativeMean", "NativeImageBlurOps.nativeGaussian", "NativeConvolveImage.nativeHorizontal", "NativeConvolveImage.nativeVertical", "NativeConvolveImage.nativeConvolve", "NativeImageConvolveNormalized.nativehorizontal", "NativeImageConvolveNormalized.nativevertical"};
typedef TYPE T; typedef TypeInfo<T>::signed_type R; static const bool INT = std::is_integral<T>::value;
template <class X> static Gray<X>* plain(JImg<X>& a) { Gray<X>* g = new Gray<X>(a.w, a.h); for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) g->at(x, y) = a.px(x, y); return g; }
struct Setup { int e, w, h, start, pad, tail, dw, cfg, off, bits, fail; bool result; }; // dw: the output is wider by dw; fail: number of the array access that fails
static const int JB[] = {1, 3, 4, 5, 0, 2, 6};
template <class O> static void runEntry(const Setup& s) {
  int heap = sym_heap_live();
  { vmStart(); int e = s.e, w = s.w, h = s.h, cfg = s.cfg; sym_tag(ENAME[e]); bool otsu = e == GO || e == KO;
  JImg<T> in(w, h, s.start, s.pad, s.tail), sto(w, h, s.pad, s.start, 1); JImg<O> out(w + s.dw, h, s.pad, s.start, s.tail);
  in.fill([&](int i) { return otsu ? (T)((i * 7 + cfg) % 5 * 50) : symAny<T>("p", i); }); out.fill([&](int i) { return (O)(i + 3); }); sto.fill([&](int i) { return symAny<T>("s", i); });
  JObj self; self.add("isInteger", "Z", INT).add("nativePtr", "J", 0).add("inputBits", "I", s.bits & 8 ? 16 : 8 * sizeof(T)).add("outputBits", "I", s.bits & 4 ? 64 : 8 * sizeof(O)); jobject me = (jobject)&self;
  JObj len; static const double L[][2] = {{3, -1}, {2, -1}, {0, 0.6}, {1, -1}, {0, -1}, {9, -1}}; double l0 = L[cfg % 6][0], l1 = L[cfg % 6][1]; len.add("length", "D", 0, l0).add("fraction", "D", 0, l1); jobject jl = (jobject)&len; ConfigLength cl(l0, l1);
  bool down = (cfg ^ w) & 1, local = (cfg >> 1 ^ h) & 1; double scale = cfg & 1 ? 1.0 : 0.9; Gray<T>*ref = plain(in), *rsto = new Gray<T>(w, h); Gray<O> want(w + s.dw, h); want.subimage = s.dw != 0; InputToBinary<Gray<T>>* f = nullptr; int rc = 0; bool ok = true; int repeat = 0;
  Gray<U8>& wantB = (Gray<U8>&)want; Gray<T>& wantT = (Gray<T>&)want; if (e >= CH && e <= C2) want.subimage = s.dw != 0; J.failAt = 0;
  if (e <= KO) {
    ok = callJava([&](JNIEnv* v) { switch (e) {
      case GF: JT(GlobalFixed_nativeinit)(v, me, 37.0 * cfg, down); break; case GO: JT(GlobalOtsu_nativeinit)(v, me, 0, 200, down); break; case LM: JT(LocalMean_nativeinit)(v, me, jl, scale, down); break;
      case KM: JT(BlockMean_nativeinit)(v, me, jl, scale, down, local); break; case KX: JT(BlockMinMax_nativeinit)(v, me, jl, scale, down, 10.0 * cfg - 10, local); break; case KO: JT(BlockOtsu_nativeinit)(v, me, cfg & 2, jl, 0.5 * (cfg & 1), scale, down, local); break; } });
    sym_check(ok && self.f[1].i != 0, "native object is created");
    switch (e) { case GF: f = new GlobalFixedBinaryFilter<T>((T)(37.0 * cfg), down); break; case GO: f = new GlobalOtsuBinaryFilter<T>((T)0, (T)200, down); break; case LM: f = new LocalMeanBinaryFilter<T>(cl, scale, down); break; case KM: f = new ThresholdBlockMean<T>(cl, local, scale, down); break; case KX: f = new ThresholdBlockMinMax<T>((float)(10.0 * cfg - 10), cl, local, (float)scale, down); break; case KO: f = new ThresholdBlockOtsu<T>(cfg & 2, cl, 0.5 * (cfg & 1), scale, down, local); break; }
    rc = outcome([&] { f->process(*ref, wantB); }); J.failAt = s.fail;
    ok = callJava([&](JNIEnv* v) { switch (e) { case GF: JT(GlobalFixed_nativeprocess)(v, me, in, out); break; case GO: JT(GlobalOtsu_nativeprocess)(v, me, in, out); break; case LM: JT(LocalMean_nativeprocess)(v, me, in, out); break; case KM: JT(BlockMean_nativeprocess)(v, me, in, out); break; case KX: JT(BlockMinMax_nativeprocess)(v, me, in, out); break; case KO: JT(BlockOtsu_nativeprocess)(v, me, in, out); break; } });
  } else {
    int k = cfg % 3 + 1, radius = cfg % 3, off = s.off == 3 ? (int)sym_bits("origin", 0, 32) : s.off; if (s.off == 3) sym_assume((uint32_t)off >= (uint32_t)k); JObj kd(ARRAY), jk; JObj* karr = newArray(INT ? 'I' : 'F', e == C2 ? k * k : k); typedef typename std::conditional<INT, jint, jfloat>::type K; typedef typename std::conditional<INT, S32, F32>::type KS; for (int i = 0; i < karr->length; i++) elems<K>(karr)[i] = (K)(e >= NH ? i + 2 : sym_int("k", i, -100, 100)); jk.add("data", INT ? "[I" : "[F", 0, 0, karr).add("width", "I", k).add("offset", "I", off); jobject jkk = (jobject)&jk;
    int b = cfg == 6 ? (int)sym_bits("border", 0, 32) : JB[cfg]; if (cfg == 6) sym_assume(b != 1 && b != 3 && b != 4 && b != 5); double sigma = radius ? -1 : cfg == 3 ? -1 : 0.7; BorderType bt = b == 1 ? BorderType::EXTENDED : b == 3 ? BorderType::REFLECT : b == 4 ? BorderType::WRAP : BorderType::ZERO; if (e == NH || e == NV) k = cfg % 3 + 1;
    rc = outcome([&] {
      if (e >= CH && e <= C2 && ((b != 1 && b != 3 && b != 4 && b != 5) || s.bits & 12)) throw std::invalid_argument("not supported"); 
      Kernel1D<KS> k1(e == C2 || e < CH ? 1 : k, e == C2 || e < CH ? 0 : off); Kernel2D<KS> k2(e == C2 ? k : 1, e == C2 ? off : 0); if (e >= CH && e != C2) for (int i = 0; i < k; i++) k1.data[i] = elems<K>(karr)[i]; if (e == C2) for (int i = 0; i < k * k; i++) k2.data[i] = elems<K>(karr)[i];
      std::shared_ptr<ImageBorder<T>> border = FactoryImageBorder::create_SB<T>(bt); border->setImage(*ref);
      switch (e) { case BM: BlurImageOps::mean(*ref, wantT, (uint32_t)radius, *rsto); break; case BG: BlurImageOps::gaussian(*ref, wantT, sigma, radius > 0 ? 2 * radius + 1 : -1, *rsto); break; case CH: ConvolveImage::horizontal(k1, *border, want); break; case CV: ConvolveImage::vertical(k1, *border, want); break; case C2: ConvolveImage::convolve(k2, *border, want); break; case NH: ConvolveNormalized::horizontal(k1, *ref, wantT); break; case NV: ConvolveNormalized::vertical(k1, *ref, wantT); break; } });
    J.failAt = s.fail;
    ok = callJava([&](JNIEnv* v) { switch (e) { case BM: JC(ImageBlurOps_nativeMean)(v, me, in, out, radius, sto); break; case BG: JC(ImageBlurOps_nativeGaussian)(v, me, in, out, sigma, radius, sto); break; case CH: JC(ConvolveImage_nativeHorizontal)(v, me, jkk, in, out, b); break; case CV: JC(ConvolveImage_nativeVertical)(v, me, jkk, in, out, b); break; case C2: JC(ConvolveImage_nativeConvolve)(v, me, jkk, in, out, b); break; case NH: JC(ImageConvolveNormalized_nativehorizontal)(v, me, jkk, in, out); break; case NV: JC(ImageConvolveNormalized_nativevertical)(v, me, jkk, in, out); break; } });
    freeArray(karr);
  }
  bool failed = s.fail && J.acquired >= s.fail; sym_check(in.unchanged(), "input array changed"); sym_check(out.frameOk(), "elements outside of the output image changed");
  if (failed || rc) { sym_check(!ok, "failure is reported to Java"); if (failed) sym_cover("failing array access"); else { sym_cover("failing operation"); } }
  else { sym_check(ok, "Java exception without a failure"); bool same = true; if (s.result) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) same = same & (out.now(x, y) == want.at(x, y)); sym_check(same, "same result as the C++ operation"); if (w == 3 && h == 2) sym_cover("result"); if (w == 3 && h == 2 && e > KO) sym_cover("convolution"); }
  if (e <= KO) { delete f; J.failAt = 0; ok = callJava([&](JNIEnv* v) { switch (e) { case GF: JT(GlobalFixed_nativedestroy)(v, me); break; case GO: JT(GlobalOtsu_nativedestroy)(v, me); break; case LM: JT(LocalMean_nativedestroy)(v, me); break; case KM: JT(BlockMean_nativedestroy)(v, me); break; case KX: JT(BlockMinMax_nativedestroy)(v, me); break; case KO: JT(BlockOtsu_nativedestroy)(v, me); break; } }); sym_check(ok, "destroy"); }
  want.subimage = false; delete ref; delete rsto; }
  sym_check(sym_heap_live() == heap, "native memory is freed");
}
static bool outputFits(int e, int bits) { return e <= KO ? bits == 1 : e >= CH && e <= C2 ? (INT ? bits != 1 : bits == 2) : bits == (INT ? 1 : 2); } // 0 S16, 1 U8, 2 wide
static void dispatch(const Setup& s, int bits) { if (bits == 0) runEntry<S16>(s); else if (bits == 1) runEntry<U8>(s); else runEntry<typename std::conditional<INT, S32, F32>::type>(s); }
