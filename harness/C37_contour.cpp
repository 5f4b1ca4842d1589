// C37: the contour finder of the JNI layer gives what LinearContourLabelChang2004 gives
#include "jni_contour.h"
HARNESS {
  int eight = sym_fork("eight", 0, 1), fam = sym_fork("family", -1, NFAM - 1), w, h; if (fam < 0) { w = sym_fork("w", 0, 4); h = sym_fork("h", 0, 3); if (w * h > TH(9, 12)) sym_end(); } else { w = FAM[fam].w; h = FAM[fam].h; }
  int place = sym_fork("place", 0, 2), block = sym_fork("block", 0, 2), again = sym_fork("again", 0, 1), limits = sym_fork("limits", 0, 2); if (fam < 0 && w * h > TH(6, 9) && (place || again || limits || block != 2)) sym_end(); if (fam >= 0 && (w * h > TH(28, 36) || fam == 2 || fam == 6 || fam == 8 || (!TH(0, 1) && fam % 3 == 0) || place == 1 || again || limits || block == 1)) sym_end(); if (!block && (w * h > 4 || place || limits)) sym_end(); if (limits && (place || again || block == 1)) sym_end(); sym_shard();
  int heap = sym_heap_live();
  { vmStart(); JFinder f(block ? block == 1 ? 6 : 10 : 4000); bool ok = callJava([&](JNIEnv* v) { JCH(native_1init)(v, f); }); sym_check(ok && f.native(), "native object is created"); if (!f.native()) return; if (block) f.native()->packedPoints._size_of_block = block == 1 ? 3 : 5;
    Finder g(eight ? EIGHT : FOUR); g.maxContourSize = 0x7fffffff;
    ok = callJava([&](JNIEnv* v) { sym_check(JCH(getMinContour)(v, f) == 0 && JCH(getMaxContour)(v, f) == 0x7fffffff && JCH(isSaveInternalContours)(v, f) && JCH(getConnectRule)(v, f) == (jobject)&f.four, "initial settings"); JCH(setConnectRule)(v, f, (jobject)(eight ? &f.eight : &f.four)); sym_check(JCH(getConnectRule)(v, f) == (jobject)(eight ? &f.eight : &f.four), "connectivity rule is kept"); }); sym_check(ok, "settings");
    if (limits) { int lo = sym_fork("min", 0, 5), hi = sym_fork("max", 2, 9); g.minContourSize = lo; g.maxContourSize = hi; g.saveInternalContours = limits == 2; ok = callJava([&](JNIEnv* v) { JCH(setMinContour)(v, f, lo); JCH(setMaxContour)(v, f, hi); JCH(setSaveInnerContour)(v, f, limits == 2); sym_check(JCH(getMinContour)(v, f) == lo && JCH(getMaxContour)(v, f) == hi && !JCH(isSaveInternalContours)(v, f) == (limits != 2), "settings are kept"); }); sym_check(ok, "settings"); }
    JImg<U8> in(w, h, place, place & 1, 1); JImg<S32> lab(w, h, 2 - place, place >> 1, 1); Gray<U8> a(w, h); Gray<S32> l(w, h);
    if (again) { Gray<U8> b(2, 2); JImg<U8> jb(2, 2, 0, 0, 0); JImg<S32> jl(2, 2, 0, 0, 0); for (int i = 0; i < 4; i++) { b.data[i] = i != 1; } jb.fill([&](int i) { return (U8)(i != 1); }); jl.fill([](int) { return 0; }); sym_check(call(f, jb, jl), "first image"); J.contours = 0; }
    symBinary(a, "p", fam); readBits(a); in.fill([&](int) { return (U8)1; }); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) elems<U8>(in.arr)[in.start + y * in.stride + x] = a.at(x, y); in.snap(); lab.fill([](int i) { return i + 40; });
    g.process(a, l); ok = call(f, in, lab); sym_check(ok, "Java exception without a failure"); sym_check(in.unchanged() && lab.frameOk(), "input and surroundings unchanged"); sameFinder(f, g, lab, l);
    if (g.contours.size() > 2 && block) sym_cover("three blobs"); if (f.blocks.f[0].i > 2) sym_cover("several blocks"); if (g.contours.size() && g.contours[0].internalIndexes.size()) sym_cover("internal contour"); if (!block) sym_cover("default block size");
    ok = callJava([&](JNIEnv* v) { JCH(native_1destroy)(v, f); }); sym_check(ok && !f.native(), "destroy");
  }
  sym_check(sym_heap_live() == heap, "native memory is freed");
}
