// The contour finder of the JNI layer, run against the virtual machine of jvm.h and compared with LinearContourLabelChang2004.
#pragma once
#include "jvm.h"
#include "contour_spec.h"
#define JCH(n) Java_org_boofcpp_contour_NativeChang2004_##n
extern "C" {
void JCH(native_1init)(JNIEnv*, jobject); void JCH(native_1destroy)(JNIEnv*, jobject); void JCH(native_1process)(JNIEnv*, jobject, jobject, jobject);
void JCH(setSaveInnerContour)(JNIEnv*, jobject, jboolean); jboolean JCH(isSaveInternalContours)(JNIEnv*, jobject); void JCH(setMinContour)(JNIEnv*, jobject, jint); jint JCH(getMinContour)(JNIEnv*, jobject); void JCH(setMaxContour)(JNIEnv*, jobject, jint); jint JCH(getMaxContour)(JNIEnv*, jobject); void JCH(setConnectRule)(JNIEnv*, jobject, jobject); jobject JCH(getConnectRule)(JNIEnv*, jobject);
}
typedef LinearContourLabelChang2004 Finder;
// the Java side of a contour finder: class NativeChang2004 and what it refers to
struct JFinder {
  JObj self, grow, packed, blocks, sets, four, eight; JObj* growArr; enum { NB = 8, NS = 32 }; JObj *bi[NB], *si[NS]; int blockLength;
  JFinder(int blockLength) : self(CHANG), grow(GROWQUEUE), blocks(FASTQUEUE), sets(FASTQUEUE), four(RULE), eight(RULE), blockLength(blockLength) {
    growArr = newArray('I', 1); grow.add("data", "[I", 0, 0, growArr).add("size", "I", 0); eight.ordinal = 1;
    for (int i = 0; i < NB; i++) bi[i] = newArray('I', blockLength); for (int i = 0; i < NS; i++) { si[i] = new JObj(BLOCKINDEX); si[i]->add("start", "I", 0).add("length", "I", 0).add("block", "I", 0); }
    blocks.items = bi; blocks.nitems = NB; blocks.add("size", "I", 0); sets.items = si; sets.nitems = NS; sets.add("size", "I", 0);
    packed.add("blockLength", "I", blockLength).add("blocks", "Lorg/ddogleg/struct/FastQueue;", 0, 0, &blocks).add("sets", "Lorg/ddogleg/struct/FastQueue;", 0, 0, &sets);
    self.add("nativePtr", "J", 0).add("storagePoints", "Lorg/ddogleg/struct/GrowQueue_I32;", 0, 0, &grow).add("packedPoints", "Lboofcv/struct/PackedSetsPoint2D_I32;", 0, 0, &packed).add("FOUR", "Lboofcv/struct/ConnectRule;", 0, 0, &four).add("EIGHT", "Lboofcv/struct/ConnectRule;", 0, 0, &eight); J.chang = &self;
  }
  ~JFinder() { freeArray(fieldOf(&grow, "data")->o); for (int i = 0; i < NB; i++) freeArray(bi[i]); for (int i = 0; i < NS; i++) delete si[i]; }
  operator jobject() { return (jobject)&self; }
  Finder* native() { return (Finder*)self.f[0].i; }
  // what PackedSetsPoint2D_I32.getSet returns
  bool sameSet(int i, const Pts& want) { if (i >= (int)sets.f[0].i) return false; JObj* s = si[i]; int start = (int)s->f[0].i, n = (int)s->f[1].i, block = (int)s->f[2].i; if (n != (int)want.size()) return false; for (int k = 0; k < n; k++) { if (block >= (int)blocks.f[0].i || start + 2 > blockLength) return false; if (elems<jint>(bi[block])[start] != want[k].x || elems<jint>(bi[block])[start + 1] != want[k].y) return false; start += 2; if (start == blockLength) { start = 0; block++; } } return true; }
};
static void sameFinder(JFinder& j, Finder& g, JImg<S32>& label, Gray<S32>& want) {
  bool ok = true; for (int y = 0; y < label.h; y++) for (int x = 0; x < label.w; x++) ok = ok & (label.now(x, y) == want.at(x, y)); sym_check(ok, "same labels"); sym_check(J.contours == (int)g.contours.size(), "addContour is called once per blob"); ok = J.contours <= 32;
  for (int i = 0; i < J.contours && ok; i++) { ContourPacked& c = g.contours[i]; ok = ok & (J.id[i] == (int)c.id) & (J.ext[i] == (int)c.externalIndex) & (J.ninn[i] == (int)c.internalIndexes.size()); for (size_t k = 0; ok && k < c.internalIndexes.size(); k++) ok = ok & (J.inn[i][k] == (int)c.internalIndexes[k]); } sym_check(ok, "same contour indexes");
  ok = (int)j.sets.f[0].i == (int)g.packedPoints.number_of_sets(); for (uint32_t i = 0; ok && i < g.packedPoints.number_of_sets(); i++) { Pts p; g.packedPoints.load_set(i, p); ok = ok && j.sameSet(i, p); } sym_check(ok, "same contours");
}
static int call(JFinder& f, jobject in, jobject lab) { return callJava([&](JNIEnv* v) { JCH(native_1process)(v, f, in, lab); }); }
