// Hash-consed expression DAG used by the symbolic executor.
//  - bit-vectors (1..64 bits) kept in polynomial normal form modulo 2^w,
//  - IEEE binary32/binary64 (bit precise), and
//  - an optional exact real-arithmetic reading of float/double, also in polynomial normal form.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <climits>
#include <cfloat>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <map>
#include <memory>
#include <gmpxx.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef __int128 i128;

enum Sort : uint8_t { BV, F32S, F64S, REAL };
enum Kind : uint8_t {
  KConst, KVar, KPoly, KMono,
  KUDiv, KURem, KSDiv, KSRem, KAnd, KOr, KXor, KNot, KShl, KLShr, KAShr,
  KZExt, KSExt, KTrunc /*extract low*/, KExtract /*c = low bit*/, KConcat, KIte,
  KEq, KUlt, KSlt,
  // IEEE
  KFAdd, KFSub, KFMul, KFDiv, KFRem, KFNeg, KFAbs, KFSqrt, KFRound /*c=mode 0 floor 1 ceil 2 trunc 3 nearest-away 4 nearest-even*/,
  KFEq, KFLt, KFLe, KFNan, KFInf, KFPExt, KFPTrunc, KSIToFP, KUIToFP, KFPToSI, KFPToUI, KBitsToFP, KFPToBits,
  // real
  KRInv, KRExp, KRFun /*name in str*/, KREq0, KRLt0, KRLe0, KIntToReal, KUIntToReal, KRealToInt
};

struct Node {
  Kind k; Sort s; uint16_t w; uint32_t id;
  u64 c = 0;                       // constant / auxiliary / poly constant
  std::vector<Node*> ops;
  std::vector<u64> coef;           // KPoly BV
  std::vector<mpq_class> rcoef;    // KPoly REAL
  mpq_class rc;                    // REAL const / poly constant
  std::string name; int idx = 0;   // KVar, KRFun
  // analysis
  u64 ulo, uhi; i64 slo, shi;      // BV ranges
  double flo = -INFINITY, fhi = INFINITY; bool mayNan = true;
  uint8_t sg = 7;                  // REAL: possible signs, 1 negative, 2 zero, 4 positive
  uint32_t iteConst = 0;           // number of constant leaves if an ite-tree of constants, else 0
  uint32_t dagsize = 1;
  bool isVarLess = false;
  // evaluation cache
  uint32_t evStamp = 0; u64 evVal = 0; std::shared_ptr<mpq_class> evR;
  std::shared_ptr<std::vector<uint32_t>> vars; // sorted var node ids
  bool isConst() const { return k == KConst; }
  bool isTrue() const { return k == KConst && s == BV && w == 1 && c == 1; }
  bool isFalse() const { return k == KConst && s == BV && w == 1 && c == 0; }
};
typedef Node* E;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
inline i64 sminw(unsigned w) { return w >= 64 ? INT64_MIN : -(i64)(1ull << (w - 1)); }
inline i64 smaxw(unsigned w) { return w >= 64 ? INT64_MAX : (i64)((1ull << (w - 1)) - 1); }

extern std::vector<E> allVars;

// constructors
E bv(unsigned w, u64 v);
inline E mkBool(bool b) { return bv(1, b); }
E f32c(float f); E f64c(double d); E fpBits(Sort s, u64 bits); E realc(const mpq_class& q);
E mkVar(Sort s, unsigned w, const std::string& name, int idx, bool ranged = false, i64 lo = 0, i64 hi = 0, bool sgn = false);
E mkFVar(Sort s, const std::string& name, int idx, double lo, double hi);

E add(E a, E b); E sub(E a, E b); E mul(E a, E b); E neg(E a);
E udiv(E a, E b); E urem(E a, E b); E sdiv(E a, E b, bool exact = false); E srem(E a, E b);
E band(E a, E b); E bor(E a, E b); E bxor(E a, E b); E bnot(E a);
E shl(E a, E b); E lshr(E a, E b, bool exact = false); E ashr(E a, E b, bool exact = false);
E zext(E a, unsigned w); E sext(E a, unsigned w); E trunc(E a, unsigned w); E extract(E a, unsigned lo, unsigned w); E concat(E hi, E lo);
E ite(E c, E a, E b);
E eq(E a, E b); E ult(E a, E b); E slt(E a, E b);
inline E ule(E a, E b) { return bnot(ult(b, a)); }
inline E sle(E a, E b) { return bnot(slt(b, a)); }
// floats (either IEEE or REAL sort)
E fadd(E a, E b); E fsub(E a, E b); E fmul(E a, E b); E fdiv(E a, E b); E frem_(E a, E b); E fneg(E a); E fabs_(E a); E fsqrt_(E a); E fround_(E a, int mode);
E feq(E a, E b); E flt(E a, E b); E fle(E a, E b); E fisnan(E a); E fisinf(E a);
E fpext(E a, Sort s); E fptrunc(E a, Sort s);
E sitofp(E a, Sort s); E uitofp(E a, Sort s); E fptosi(E a, unsigned w, bool inRange = false); E fptoui(E a, unsigned w, bool inRange = false);
E rtrunc(E a);                   // REAL: rounded towards zero
E bitsToFp(E a, Sort s); E fpToBits(E a);
E rfun(const std::string& name, const std::vector<E>& args);
mpq_class fpToRat(E c);
// evaluation
struct Assign { std::unordered_map<uint32_t, u64> bv; std::unordered_map<uint32_t, mpq_class> re; };
void evalBegin(const Assign* a);
u64 evalBV(E e);            // BV or IEEE bits
mpq_class evalR(E e);
const std::vector<uint32_t>& varsOf(E e);
std::string show(E e, int depth = 6);
extern size_t nodeCount;
