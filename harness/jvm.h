// A Java virtual machine as far as JNI code can see it: objects with typed fields, primitive arrays handed out as copies, and the rules of the JNI specification.
#pragma once
#include "img.h"
#include <jni.h>
extern "C" void jni_function_not_modelled();
struct JObj;
struct JField { const char* name; const char* sig; int64_t i; double d; JObj* o; };
enum JKind { PLAIN, ARRAY, GROWQUEUE, FASTQUEUE, BLOCKINDEX, CHANG, RULE, CLASS };
struct JObj {
  JKind kind; JField f[10]; int nf; int ordinal; JObj** items; int nitems; // FastQueue
  char elem; int length; unsigned char* data; void* handed; bool critical; int writes; // arrays
  JObj(JKind k = PLAIN) : kind(k), nf(0), ordinal(0), items(nullptr), nitems(0), elem(0), length(0), data(nullptr), handed(nullptr), critical(false), writes(0) {}
  JObj& add(const char* n, const char* s, int64_t i, double d = 0, JObj* o = nullptr) { JField& q = f[nf++]; q.name = n; q.sig = s; q.i = i; q.d = d; q.o = o; return *this; }
};
static inline bool eqs(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static inline JField* fieldOf(JObj* o, const char* n) { for (int i = 0; i < o->nf; i++) if (eqs(o->f[i].name, n)) return &o->f[i]; return nullptr; }
static struct VM {
  JNINativeInterface_ table; JNIEnv env; bool pending, thrown; int critical, held, failAt, acquired, contours; 
  int id[32], ext[32], inn[32][16], ninn[32]; // what addContour received
  JObj *chang;
} J;
#define JO(x) ((JObj*)(x))
static void violated(const char* m) { sym_check(false, m); }
static void rules(bool okPending = false) { if (J.critical) violated("JNI call inside a critical region"); if (J.pending && !okPending) violated("JNI call with a pending Java exception"); }
static JObj theClass(CLASS), runtimeEx(CLASS);
static inline int esize(char c) { return c == 'B' ? 1 : c == 'S' ? 2 : c == 'J' || c == 'D' ? 8 : 4; }
static JObj* newArray(char e, int n) { JObj* a = new JObj(ARRAY); a->elem = e; a->length = n; a->data = new unsigned char[n * esize(e)](); return a; }
static void freeArray(JObj* a) { delete[] a->data; delete a; }
template <class T> static T* elems(JObj* a) { return (T*)a->data; }
static void* acquire(jarray a, bool crit) {
  JObj* o = JO(a); if (!o || o->kind != ARRAY) { violated("not an array"); return nullptr; } if (o->handed) violated("array acquired twice");
  if (++J.acquired == J.failAt) return nullptr; int n = o->length * esize(o->elem); o->handed = malloc(n ? n : 1); memcpy(o->handed, o->data, n); o->critical = crit; J.held++; if (crit) J.critical++; return o->handed;
}
static void release(jarray a, void* p, jint mode, bool crit) {
  JObj* o = JO(a); if (!o || o->kind != ARRAY || !o->handed) { violated("release of an array that is not held"); return; } if (o->handed != p) { violated("release with another pointer"); return; } if (o->critical != crit) violated("released with the wrong function");
  if (mode != JNI_ABORT) { memcpy(o->data, p, o->length * esize(o->elem)); o->writes++; } if (mode == JNI_COMMIT) return; free(p); o->handed = nullptr; J.held--; if (crit) J.critical--;
}
// --- classes and fields
static jclass JNICALL jGetObjectClass(JNIEnv*, jobject o) { rules(); if (!o) violated("null object"); return (jclass)o; }
static jclass JNICALL jFindClass(JNIEnv*, const char* n) { rules(); if (n[0] == 'j' && n[1] == 'a' && n[2] == 'v' && n[3] == 'a') return (jclass)&runtimeEx; if (eqs(n, "boofcv/struct/BlockIndexLength")) { theClass.kind = BLOCKINDEX; return (jclass)&theClass; } if (eqs(n, "boofcv/struct/ConnectRule")) return (jclass)J.chang; J.pending = true; return nullptr; }
static jfieldID JNICALL jGetFieldID(JNIEnv*, jclass c, const char* n, const char* s) { rules(); JField* q = fieldOf(JO(c), n); if (!q || !eqs(q->sig, s)) { J.pending = true; return nullptr; } return (jfieldID)q; }
static JField* sel(jobject o, jfieldID f, char s) { rules(); static JField none; if (!o || !f) { violated("null object or field"); return &none; } JField* q = fieldOf(JO(o), ((JField*)f)->name); if (!q || q->sig[0] != s) { violated("no such field of this type"); return &none; } return q; }
static jobject JNICALL jGetObjectField(JNIEnv*, jobject o, jfieldID f) { rules(); if (!o || !f) { violated("null object or field"); return nullptr; } JField* q = fieldOf(JO(o), ((JField*)f)->name); if (!q || (q->sig[0] != '[' && q->sig[0] != 'L')) { violated("no such field of this type"); return nullptr; } return (jobject)q->o; }
static jint JNICALL jGetIntField(JNIEnv*, jobject o, jfieldID f) { return (jint)sel(o, f, 'I')->i; }
static jlong JNICALL jGetLongField(JNIEnv*, jobject o, jfieldID f) { return sel(o, f, 'J')->i; }
static jboolean JNICALL jGetBooleanField(JNIEnv*, jobject o, jfieldID f) { return (jboolean)sel(o, f, 'Z')->i; }
static jdouble JNICALL jGetDoubleField(JNIEnv*, jobject o, jfieldID f) { return sel(o, f, 'D')->d; }
static void JNICALL jSetIntField(JNIEnv*, jobject o, jfieldID f, jint v) { sel(o, f, 'I')->i = v; }
static void JNICALL jSetLongField(JNIEnv*, jobject o, jfieldID f, jlong v) { sel(o, f, 'J')->i = v; }
static jfieldID JNICALL jGetStaticFieldID(JNIEnv* e, jclass c, const char* n, const char* s) { return jGetFieldID(e, c, n, s); }
static jobject JNICALL jGetStaticObjectField(JNIEnv* e, jclass c, jfieldID f) { return jGetObjectField(e, (jobject)c, f); }
// --- methods
static const char* METHODS[] = {"resize", "get", "set", "addContour", "ordinal"}; static const char* MSIGS[] = {"(I)V", "(I)Ljava/lang/Object;", "(III)V", "(II)V", "()I"};
static bool has(JKind k, int m) { return m == 0 ? k == GROWQUEUE || k == FASTQUEUE : m == 1 ? k == FASTQUEUE : m == 2 ? k == BLOCKINDEX : m == 3 ? k == CHANG : k == RULE; }
static jmethodID JNICALL jGetMethodID(JNIEnv*, jclass c, const char* n, const char* s) { rules(); for (int m = 0; m < 5; m++) if (eqs(METHODS[m], n) && eqs(MSIGS[m], s) && has(JO(c)->kind, m)) return (jmethodID)(METHODS + m); J.pending = true; return nullptr; }
static int methodOf(jobject o, jmethodID m) { rules(); int k = (int)((const char**)m - METHODS); if (!o || !m || !has(JO(o)->kind, k)) { violated("call of a method the object does not have"); return -1; } return k; }
static void JNICALL jCallVoidMethodV(JNIEnv*, jobject o, jmethodID m, va_list a) {
  int k = methodOf(o, m); JObj* q = JO(o);
  if (k == 0 && q->kind == GROWQUEUE) { int n = va_arg(a, jint); sym_check(n >= 0, "negative size"); JField* d = fieldOf(q, "data"); if (d->o->handed) violated("array replaced while it is held"); if (n > d->o->length) { freeArray(d->o); d->o = newArray('I', n); } fieldOf(q, "size")->i = n; }
  else if (k == 0) { int n = va_arg(a, jint); sym_check(n >= 0 && n <= q->nitems, "size of the queue"); fieldOf(q, "size")->i = n; }
  else if (k == 2) { q->f[0].i = va_arg(a, jint); q->f[1].i = va_arg(a, jint); q->f[2].i = va_arg(a, jint); }
  else if (k == 3) { int c = J.contours++; J.id[c] = va_arg(a, jint); J.ext[c] = va_arg(a, jint); JObj* g = fieldOf(q, "storagePoints")->o; JObj* d = fieldOf(g, "data")->o; if (d->handed) violated("Java reads an array that is held"); J.ninn[c] = (int)fieldOf(g, "size")->i; for (int i = 0; i < J.ninn[c] && i < 16; i++) J.inn[c][i] = elems<jint>(d)[i]; }
}
static jobject JNICALL jCallObjectMethodV(JNIEnv*, jobject o, jmethodID m, va_list a) { int k = methodOf(o, m); if (k != 1) return nullptr; int i = va_arg(a, jint); if (i < 0 || i >= fieldOf(JO(o), "size")->i) { violated("index outside of the queue"); return nullptr; } return (jobject)JO(o)->items[i]; }
static jint JNICALL jCallIntMethodV(JNIEnv*, jobject o, jmethodID m, va_list) { methodOf(o, m); return JO(o)->ordinal; }
// --- arrays
static jsize JNICALL jGetArrayLength(JNIEnv*, jarray a) { rules(); if (!a || JO(a)->kind != ARRAY) { violated("not an array"); return 0; } return JO(a)->length; }
static void* JNICALL jGetCritical(JNIEnv*, jarray a, jboolean* c) { if (J.pending) violated("JNI call with a pending Java exception"); if (c) *c = 1; return acquire(a, true); }
static void JNICALL jReleaseCritical(JNIEnv*, jarray a, void* p, jint m) { release(a, p, m, true); }
#define JARR(T, N, C) static j##T* JNICALL jGet##N(JNIEnv*, j##T##Array a, jboolean* c) { rules(); if (c) *c = 1; if (a && JO(a)->elem != C) violated("array of another type"); return (j##T*)acquire(a, false); } static void JNICALL jRelease##N(JNIEnv*, j##T##Array a, j##T* p, jint m) { rules(true); release(a, p, m, false); } \
  static void JNICALL jGetRegion##N(JNIEnv*, j##T##Array a, jsize s, jsize n, j##T* b) { rules(); if (!a || JO(a)->elem != C) { violated("array of another type"); return; } if (s < 0 || n < 0 || s + n > JO(a)->length) { J.pending = true; return; } memcpy(b, JO(a)->data + s * sizeof(j##T), n * sizeof(j##T)); } \
  static void JNICALL jSetRegion##N(JNIEnv*, j##T##Array a, jsize s, jsize n, const j##T* b) { rules(); if (!a || JO(a)->elem != C) { violated("array of another type"); return; } if (s < 0 || n < 0 || s + n > JO(a)->length) { J.pending = true; return; } memcpy(JO(a)->data + s * sizeof(j##T), b, n * sizeof(j##T)); JO(a)->writes++; }
JARR(byte, Byte, 'B') JARR(short, Short, 'S') JARR(int, Int, 'I') JARR(float, Float, 'F')
// --- exceptions and references
static jboolean JNICALL jExceptionCheck(JNIEnv*) { if (J.critical) violated("JNI call inside a critical region"); return J.pending; }
static jthrowable JNICALL jExceptionOccurred(JNIEnv*) { if (J.critical) violated("JNI call inside a critical region"); return J.pending ? (jthrowable)&runtimeEx : nullptr; }
static void JNICALL jExceptionDescribe(JNIEnv*) { rules(true); }
static void JNICALL jExceptionClear(JNIEnv*) { rules(true); J.pending = false; }
static jint JNICALL jThrowNew(JNIEnv*, jclass c, const char*) { rules(); if (!c) violated("null class"); J.pending = true; J.thrown = true; return 0; }
static jint JNICALL jThrow(JNIEnv*, jthrowable) { rules(); J.pending = true; J.thrown = true; return 0; }
static void JNICALL jDeleteRef(JNIEnv*, jobject) { rules(true); }
static jobject JNICALL jSameRef(JNIEnv*, jobject o) { rules(); return o; }
static jint JNICALL jOk(JNIEnv*, jint) { rules(); return 0; }
static jobject JNICALL jPopFrame(JNIEnv*, jobject o) { rules(true); return o; }
static void vmStart() {
  memset(&J, 0, sizeof J); void (**slot)() = (void (**)()) & J.table; for (size_t i = 4; i < sizeof(J.table) / sizeof(void*); i++) slot[i] = jni_function_not_modelled;
  JNINativeInterface_& t = J.table; t.GetObjectClass = jGetObjectClass; t.FindClass = jFindClass; t.GetFieldID = jGetFieldID; t.GetObjectField = jGetObjectField; t.GetIntField = jGetIntField; t.GetLongField = jGetLongField; t.GetBooleanField = jGetBooleanField; t.GetDoubleField = jGetDoubleField; t.SetIntField = jSetIntField; t.SetLongField = jSetLongField; t.GetStaticFieldID = jGetStaticFieldID; t.GetStaticObjectField = jGetStaticObjectField;
  t.GetMethodID = jGetMethodID; t.CallVoidMethodV = jCallVoidMethodV; t.CallObjectMethodV = jCallObjectMethodV; t.CallIntMethodV = jCallIntMethodV; t.GetArrayLength = jGetArrayLength; t.GetPrimitiveArrayCritical = jGetCritical; t.ReleasePrimitiveArrayCritical = jReleaseCritical;
  t.GetByteArrayElements = jGetByte; t.GetShortArrayElements = jGetShort; t.GetIntArrayElements = jGetInt; t.GetFloatArrayElements = jGetFloat; t.ReleaseByteArrayElements = jReleaseByte; t.ReleaseShortArrayElements = jReleaseShort; t.ReleaseIntArrayElements = jReleaseInt; t.ReleaseFloatArrayElements = jReleaseFloat;
  t.GetByteArrayRegion = jGetRegionByte; t.GetShortArrayRegion = jGetRegionShort; t.GetIntArrayRegion = jGetRegionInt; t.GetFloatArrayRegion = jGetRegionFloat; t.SetByteArrayRegion = jSetRegionByte; t.SetShortArrayRegion = jSetRegionShort; t.SetIntArrayRegion = jSetRegionInt; t.SetFloatArrayRegion = jSetRegionFloat;
  t.ExceptionCheck = jExceptionCheck; t.ExceptionOccurred = jExceptionOccurred; t.ExceptionDescribe = jExceptionDescribe; t.ExceptionClear = jExceptionClear; t.ThrowNew = jThrowNew; t.Throw = jThrow; t.DeleteLocalRef = jDeleteRef; t.DeleteGlobalRef = jDeleteRef; t.NewLocalRef = jSameRef; t.NewGlobalRef = jSameRef; t.EnsureLocalCapacity = jOk; t.PushLocalFrame = jOk; t.PopLocalFrame = jPopFrame;
  J.env.functions = &J.table;
}
// a Java image: an array of `extra` elements before and after the pixels and a row stride beyond the width
template <class T> struct JImg {
  JObj obj; JObj* arr; int w, h, start, stride, n; std::vector<T> before; static char code() { return sizeof(T) == 1 ? 'B' : sizeof(T) == 2 ? 'S' : std::is_integral<T>::value ? 'I' : 'F'; } static const char* sig() { return sizeof(T) == 1 ? "[B" : sizeof(T) == 2 ? "[S" : std::is_integral<T>::value ? "[I" : "[F"; }
  JImg(int w, int h, int start, int pad, int tail) : w(w), h(h), start(start), stride(w + pad) { n = start + h * stride + tail; arr = newArray(code(), n); obj.add("data", sig(), 0, 0, arr).add("width", "I", w).add("height", "I", h).add("startIndex", "I", start).add("stride", "I", stride); }
  ~JImg() { freeArray(arr); }
  template <class F> void fill(F f) { for (int i = 0; i < n; i++) elems<T>(arr)[i] = f(i); snap(); }
  void snap() { before.assign(elems<T>(arr), elems<T>(arr) + n); }
  T now(int x, int y) { return elems<T>(arr)[start + y * stride + x]; }
  T px(int x, int y) { return before[start + y * stride + x]; }
  bool frameOk() { bool ok = true; for (int i = 0; i < n; i++) { int r = i - start; bool in = r >= 0 && w > 0 && r / stride < h && r % stride < w; if (!in) ok = ok & (elems<T>(arr)[i] == before[i]); } return ok; }
  bool unchanged() { bool ok = true; for (int i = 0; i < n; i++) ok = ok & (elems<T>(arr)[i] == before[i]); return ok; }
  operator jobject() { return (jobject)&obj; }
};
// runs an entry point; every exit must leave the virtual machine in order
template <class F> static bool callJava(F f) {
  J.pending = J.thrown = false; J.acquired = 0; int escaped = 0; try { f(&J.env); } catch (...) { escaped = 1; }
  sym_check(!escaped, "C++ exception leaves the native method"); sym_check(J.held == 0 && J.critical == 0, "array not released"); bool ok = !J.pending; J.pending = false; J.held = J.critical = 0; return ok;
}
