// C36: the contour finder of the JNI layer: arrays, native memory and exceptions whatever fails
#include "jni_contour.h"
HARNESS {
  int shape = sym_fork("shape", 0, 4), fail = sym_fork("fail", 0, 9), what = sym_fork("what", 0, 3), n = sym_fork("pixels", 0, 3); if ((fail && what) || (n == 3 && shape != 1 && shape != 4)) sym_end(); sym_shard(); static const int SH[][2] = {{3, 3}, {2, 1}, {0, 2}, {4, 3}, {3, 2}}; int w = SH[shape][0], h = SH[shape][1];
  int heap = sym_heap_live();
  { vmStart(); JFinder f(what == 1 ? 8 : 6); bool ok = callJava([&](JNIEnv* v) { JCH(native_1init)(v, f); }); sym_check(ok && f.native(), "native object is created"); if (!f.native()) return; f.native()->packedPoints._size_of_block = 3;
    if (what == 2) { JObj rule(RULE); rule.ordinal = (int)sym_bits("ordinal", 0, 32); sym_assume(rule.ordinal < 0 || rule.ordinal > 1); ok = callJava([&](JNIEnv* v) { JCH(setConnectRule)(v, f, (jobject)&rule); }); sym_check(!ok, "failure is reported to Java"); sym_cover("unknown rule"); }
    if (what == 3) { Finder* p = f.native(); f.self.f[0].name = "otherName"; ok = callJava([&](JNIEnv* v) { JCH(setConnectRule)(v, f, (jobject)&f.four); }); sym_check(!ok, "failure is reported to Java"); f.self.f[0].name = "nativePtr"; sym_check(f.native() == p, "native object is kept"); }
    JImg<U8> in(w, h, 1, n & 1, 1); JImg<S32> lab(w, h, 0, 1, 1); in.fill([&](int) { return (U8)1; }); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) elems<U8>(in.arr)[in.start + y * in.stride + x] = n == 3 ? (U8)sym_concretize(sym_int("p", y * w + x, 0, 1)) : n == 0 ? 0 : n == 1 ? x != 1 || y != 1 : (x + y) % 2 == 0; in.snap(); lab.fill([](int i) { return i + 40; });
    J.failAt = fail; ok = call(f, in, lab); bool failed = fail && J.acquired >= fail; sym_check(in.unchanged() && lab.frameOk(), "input and surroundings unchanged");
    if (failed || what == 1) { sym_check(!ok, "failure is reported to Java"); if (failed && fail > 2) sym_cover("failing array access after processing"); if (failed && fail <= 2) sym_cover("failing image"); } else sym_check(ok, "Java exception without a failure");
    J.failAt = 0; J.contours = 0; if (what != 1) { Gray<U8> a(w, h); Gray<S32> l(w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) a.at(x, y) = in.px(x, y); Finder g(FOUR); g.maxContourSize = 0x7fffffff; g.process(a, l); sym_check(call(f, in, lab), "works again after a failure"); sameFinder(f, g, lab, l); }
    ok = callJava([&](JNIEnv* v) { JCH(native_1destroy)(v, f); }); sym_check(ok && !f.native(), "destroy");
  }
  sym_check(sym_heap_live() == heap, "native memory is freed");
}
