#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <iostream>
#include <deque>
#include <set>

SolverStats sstats;
unsigned solverTimeoutMs = 20000;
bool (*solverExpired)() = nullptr;
static z3::context* C;
static std::unordered_map<uint32_t, z3::expr>* memo;      // node id -> z3 expression
static std::unordered_map<uint32_t, std::vector<uint32_t>> sideOf; // node id (KRInv, KRFun) -> nothing, kept for completeness
static std::vector<E> nodeOf;                             // special nodes by insertion

void solverInit() { C = new z3::context(); memo = new std::unordered_map<uint32_t, z3::expr>(); }

static z3::sort fpSort(Sort s) { return s == F32S ? C->fpa_sort(8, 24) : C->fpa_sort(11, 53); }
static z3::expr rat(const mpq_class& q) { return C->real_val(q.get_str().c_str()); }
static z3::expr mk(Z3_ast a) { C->check_error(); return z3::expr(*C, a); }
static z3::expr RM(Z3_ast (*f)(Z3_context)) { return mk(f(*C)); }
static z3::expr RNE() { return RM(Z3_mk_fpa_rne); }
static z3::expr RTZ() { return RM(Z3_mk_fpa_rtz); }
static z3::expr fpconst(Sort s, u64 bits) { return mk(Z3_mk_fpa_to_fp_bv(*C, C->bv_val((uint64_t)bits, s == F32S ? 32 : 64), fpSort(s))); }
static z3::expr tr(E e);
static z3::expr asBits(E e) { z3::expr x = tr(e); if (e->w == 1) return z3::ite(x, C->bv_val(1, 1), C->bv_val(0, 1)); return x; }
static z3::expr bvc(unsigned w, u64 v) { return C->bv_val((uint64_t)v, w); }
static z3::expr fpd(Sort s, double d) { if (s == F32S) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); return fpconst(s, b); } u64 b; memcpy(&b, &d, 8); return fpconst(s, b); }

static z3::expr fpToI(E a, unsigned w, unsigned rw) { // cvttss2si semantics at width w (32 or 64), truncated to rw
  z3::expr x = tr(a);
  z3::expr r = mk(Z3_mk_fpa_to_sbv(*C, RTZ(), x, w));
  double lim = w == 32 ? 2147483648.0 : 9223372036854775808.0;
  bool safe = !a->mayNan && a->flo > -lim && a->fhi < lim;
  if (!safe) {
    z3::expr hi = mk(Z3_mk_fpa_lt(*C, x, fpd(a->s, lim)));
    z3::expr lo = a->s == F64S && w == 32 ? mk(Z3_mk_fpa_gt(*C, x, fpd(a->s, -2147483649.0))) : mk(Z3_mk_fpa_geq(*C, x, fpd(a->s, -lim)));
    r = z3::ite(hi && lo, r, bvc(w, 1ull << (w - 1)));
  }
  if (rw < w) r = r.extract(rw - 1, 0);
  return r;
}
static z3::expr tr1(E e) {
  auto O = [&](int i) { return tr(e->ops[i]); };
  switch (e->k) {
    case KConst:
      if (e->s == BV) return e->w == 1 ? C->bool_val(e->c != 0) : bvc(e->w, e->c);
      if (e->s == REAL) return rat(e->rc);
      return fpconst(e->s, e->c);
    case KVar: {
      std::string n = e->name + "!" + std::to_string(e->idx);
      if (e->s == BV) return e->w == 1 ? C->bool_const(n.c_str()) : C->bv_const(n.c_str(), e->w);
      if (e->s == REAL) return C->real_const(n.c_str());
      return mk(Z3_mk_fpa_to_fp_bv(*C, C->bv_const(n.c_str(), e->w), fpSort(e->s))); }
    case KPoly: {
      if (e->s == REAL) {
        z3::expr_vector v(*C);
        if (e->rc != 0) v.push_back(rat(e->rc));
        for (size_t i = 0; i < e->ops.size(); i++) v.push_back(e->rcoef[i] == 1 ? O(i) : rat(e->rcoef[i]) * O(i));
        return v.size() == 1 ? v[0] : z3::sum(v);
      }
      // p = c + sum of positive terms - sum of negative terms
      z3::expr r(*C); bool has = false;
      if (e->c) { r = bvc(e->w, e->c); has = true; }
      for (int pass = 0; pass < 2; pass++) for (size_t i = 0; i < e->ops.size(); i++) {
        i64 k = sx(e->coef[i], e->w); bool ngt = k < 0 && k != INT64_MIN && e->w > 1;
        if ((pass == 0) == ngt) continue;
        u64 ab = ngt ? (u64)-k : e->coef[i];
        z3::expr t = O(i);
        if (ab != 1) t = bvc(e->w, ab) * t;
        if (!has) { r = ngt ? -t : t; has = true; } else r = ngt ? r - t : r + t;
      }
      return r; }
    case KMono: { z3::expr r = O(0); for (size_t i = 1; i < e->ops.size(); i++) r = r * O(i); return r; }
    case KUDiv: return z3::udiv(O(0), O(1));
    case KURem: return z3::urem(O(0), O(1));
    case KSDiv: return O(0) / O(1);
    case KSRem: return z3::srem(O(0), O(1));
    case KAnd: if (e->w == 1) { z3::expr_vector v(*C); for (size_t i = 0; i < e->ops.size(); i++) v.push_back(O(i)); return z3::mk_and(v); } return O(0) & O(1);
    case KOr: if (e->w == 1) { z3::expr_vector v(*C); for (size_t i = 0; i < e->ops.size(); i++) v.push_back(O(i)); return z3::mk_or(v); } return O(0) | O(1);
    case KXor: return O(0) ^ O(1);
    case KNot: return !O(0);
    case KShl: return z3::shl(O(0), O(1));
    case KLShr: return z3::lshr(O(0), O(1));
    case KAShr: return z3::ashr(O(0), O(1));
    case KZExt: return z3::zext(asBits(e->ops[0]), e->w - e->ops[0]->w);
    case KSExt: return z3::sext(asBits(e->ops[0]), e->w - e->ops[0]->w);
    case KTrunc: { z3::expr x = O(0).extract(e->w - 1, 0); return e->w == 1 ? x == bvc(1, 1) : x; }
    case KExtract: { z3::expr x = O(0).extract((unsigned)e->c + e->w - 1, (unsigned)e->c); return e->w == 1 ? x == bvc(1, 1) : x; }
    case KConcat: return z3::concat(asBits(e->ops[0]), asBits(e->ops[1]));
    case KIte: return z3::ite(O(0), O(1), O(2));
    case KEq: return O(0) == O(1);
    case KUlt: return z3::ult(O(0), O(1));
    case KSlt: return O(0) < O(1);
    case KFAdd: return mk(Z3_mk_fpa_add(*C, RNE(), O(0), O(1)));
    case KFSub: return mk(Z3_mk_fpa_sub(*C, RNE(), O(0), O(1)));
    case KFMul: return mk(Z3_mk_fpa_mul(*C, RNE(), O(0), O(1)));
    case KFDiv: return mk(Z3_mk_fpa_div(*C, RNE(), O(0), O(1)));
    case KFNeg: return mk(Z3_mk_fpa_neg(*C, O(0)));
    case KFAbs: return mk(Z3_mk_fpa_abs(*C, O(0)));
    case KFSqrt: return mk(Z3_mk_fpa_sqrt(*C, RNE(), O(0)));
    case KFRound: { z3::expr m = e->c == 0 ? RM(Z3_mk_fpa_rtn) : e->c == 1 ? RM(Z3_mk_fpa_rtp) : e->c == 2 ? RTZ() : e->c == 3 ? RM(Z3_mk_fpa_rna) : RNE();
      return mk(Z3_mk_fpa_round_to_integral(*C, m, O(0))); }
    case KFEq: return mk(Z3_mk_fpa_eq(*C, O(0), O(1)));
    case KFLt: return mk(Z3_mk_fpa_lt(*C, O(0), O(1)));
    case KFLe: return mk(Z3_mk_fpa_leq(*C, O(0), O(1)));
    case KFNan: return mk(Z3_mk_fpa_is_nan(*C, O(0)));
    case KFInf: return mk(Z3_mk_fpa_is_infinite(*C, O(0)));
    case KFPExt: case KFPTrunc: return mk(Z3_mk_fpa_to_fp_float(*C, RNE(), O(0), fpSort(e->s)));
    case KSIToFP: return mk(Z3_mk_fpa_to_fp_signed(*C, RNE(), asBits(e->ops[0]), fpSort(e->s)));
    case KUIToFP: return mk(Z3_mk_fpa_to_fp_unsigned(*C, RNE(), asBits(e->ops[0]), fpSort(e->s)));
    case KFPToSI: return fpToI(e->ops[0], e->w <= 32 ? 32 : 64, e->w);
    case KFPToUI: return fpToI(e->ops[0], e->w < 32 ? 32 : 64, e->w);
    case KBitsToFP: return mk(Z3_mk_fpa_to_fp_bv(*C, O(0), fpSort(e->s)));
    case KFPToBits: return mk(Z3_mk_fpa_to_ieee_bv(*C, O(0)));
    case KRInv: return C->real_const(("inv!" + std::to_string(e->id)).c_str());
    case KRFun: return C->real_const((e->name + "!f" + std::to_string(e->id)).c_str());
    case KREq0: return O(0) == C->real_val(0);
    case KRLt0: return O(0) < C->real_val(0);
    case KRLe0: return O(0) <= C->real_val(0);
    case KIntToReal: return z3::to_real(mk(Z3_mk_bv2int(*C, asBits(e->ops[0]), true)));
    case KUIntToReal: return z3::to_real(mk(Z3_mk_bv2int(*C, asBits(e->ops[0]), false)));
    case KRealToInt: { z3::expr x = O(0); z3::expr f = mk(Z3_mk_real2int(*C, x)), g = mk(Z3_mk_real2int(*C, -x));
      z3::expr i = z3::ite(x >= 0, f, -g); return mk(Z3_mk_int2bv(*C, e->w, i)); }
    default: throw std::runtime_error("untranslatable node " + show(e, 1));
  }
}
// iterative post-order to avoid deep native recursion on long chains
static z3::expr tr(E e) {
  auto it = memo->find(e->id);
  if (it != memo->end()) return it->second;
  std::vector<std::pair<E, size_t>> st; st.push_back({e, 0});
  while (!st.empty()) {
    E x = st.back().first;
    if (memo->count(x->id)) { st.pop_back(); continue; }
    if (st.back().second < x->ops.size()) { E o = x->ops[st.back().second++]; if (!memo->count(o->id)) st.push_back({o, 0}); continue; }
    z3::expr r = tr1(x);
    memo->emplace(x->id, r); st.pop_back();
  }
  return memo->find(e->id)->second;
}
bool evalUnder(const Assign& a, E c) { evalBegin(&a); return evalBV(c) != 0; }

// nodes that need side conditions / model values
struct Specials { std::vector<E> vars, inv, fun, mono; bool fp = false, real = false, bvop = false, nonlin = false; };
static void collect(const std::vector<E>& conj, Specials& s) {
  std::unordered_set<uint32_t> seen; std::vector<E> st(conj.begin(), conj.end());
  while (!st.empty()) {
    E e = st.back(); st.pop_back();
    if (!seen.insert(e->id).second) continue;
    if (e->k == KVar) s.vars.push_back(e);
    if (e->k == KRInv) { s.inv.push_back(e); s.nonlin = true; }
    if (e->k == KRFun) { s.fun.push_back(e); if (e->name == "floor") s.bvop = true; }
    if (e->s == F32S || e->s == F64S) s.fp = true;
    if (e->s == REAL) { s.real = true; if (e->k == KMono) { s.nonlin = true; s.mono.push_back(e); } }
    if (e->s == BV && e->w > 1) s.bvop = true;
    for (auto o : e->ops) st.push_back(o);
  }
}
static void ranges(E v, std::vector<z3::expr>& out) {
  z3::expr x = tr(v);
  if (v->s == BV && v->w > 1) {
    if (v->ulo > 0) out.push_back(z3::uge(x, bvc(v->w, v->ulo)));
    if (v->uhi < maskw(v->w)) out.push_back(z3::ule(x, bvc(v->w, v->uhi)));
    if (v->slo >= 0 && v->uhi <= (u64)smaxw(v->w)) return;
    if (v->slo > sminw(v->w)) out.push_back(x >= bvc(v->w, (u64)v->slo));
    if (v->shi < smaxw(v->w)) out.push_back(x <= bvc(v->w, (u64)v->shi));
  } else if (v->s == F32S || v->s == F64S) {
    if (!v->mayNan) {
      out.push_back(mk(Z3_mk_fpa_leq(*C, fpd(v->s, v->flo), x))); out.push_back(mk(Z3_mk_fpa_leq(*C, x, fpd(v->s, v->fhi))));
    }
  } else if (v->s == REAL) {
    if (std::isfinite(v->flo)) out.push_back(x >= rat(mpq_class(v->flo)));
    if (std::isfinite(v->fhi)) out.push_back(x <= rat(mpq_class(v->fhi)));
  }
}
// what interval and sign analysis knows about a non-linear term (redundant, but keeps the linear abstraction tight)
static void known(E v, std::vector<z3::expr>& out) {
  z3::expr x = tr(v), z = C->real_val(0);
  if (v->sg == 4) out.push_back(x > z); else if (v->sg == 1) out.push_back(x < z); else if (v->sg == 6) out.push_back(x >= z); else if (v->sg == 3) out.push_back(x <= z);
  if (std::isfinite(v->flo) && v->flo != 0) out.push_back(x >= rat(mpq_class(v->flo)));
  if (std::isfinite(v->fhi) && v->fhi != 0) out.push_back(x <= rat(mpq_class(v->fhi)));
}
static void sides(const Specials& s, std::vector<z3::expr>& out) {
  for (E v : s.inv) known(v, out); for (E v : s.fun) known(v, out); for (E v : s.mono) known(v, out);
  for (E v : s.inv) out.push_back(tr(v->ops[0]) * tr(v) == C->real_val(1));
  for (size_t i = 0; i < s.fun.size(); i++) {
    E f = s.fun[i]; z3::expr x = tr(f);
    if (f->name == "exp") {
      z3::expr a = tr(f->ops[0]);
      out.push_back(x > 0);
      out.push_back(z3::implies(a <= 0, x <= 1)); out.push_back(z3::implies(a >= 0, x >= 1)); out.push_back(x >= 1 + a);
      for (size_t j = 0; j < i; j++) if (s.fun[j]->name == "exp") { E g = s.fun[j]; out.push_back((a < tr(g->ops[0])) == (x < tr(g))); out.push_back((a == tr(g->ops[0])) == (x == tr(g))); }
    } else if (f->name == "sqrt") { z3::expr a = tr(f->ops[0]); out.push_back(x >= 0); out.push_back(z3::implies(a >= 0, x * x == a)); }
    else if (f->name == "floor") { z3::expr a = tr(f->ops[0]); z3::expr i = z3::to_real(C->int_const(("floor!" + std::to_string(f->id)).c_str())); out.push_back(x == i); out.push_back(i <= a); out.push_back(a < i + 1); continue; }
    for (size_t j = 0; j < i; j++) { // congruence
      E g = s.fun[j]; if (g->name != f->name || f->ops.empty() || g->ops.size() != f->ops.size() || f->name == "exp") continue;
      z3::expr_vector v(*C); for (size_t k = 0; k < f->ops.size(); k++) v.push_back(tr(f->ops[k]) == tr(g->ops[k]));
      out.push_back(z3::implies(z3::mk_and(v), x == tr(g)));
    }
  }
}
struct KeyHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003 + x; return h; } };
static std::unordered_map<std::vector<uint32_t>, std::pair<SRes, Model>, KeyHash> qcache;
static std::deque<Model> recent;

static bool tryModel(const Model& m, const std::vector<E>& conj) {
  evalBegin(m.get());
  for (E e : conj) if (!evalBV(e)) return false;
  return true;
}
static bool hasFun(E e) { // evaluation of uninterpreted functions is only meaningful in the model that produced them
  static std::unordered_map<uint32_t, bool> m; auto it = m.find(e->id); if (it != m.end()) return it->second;
  bool r = e->k == KRFun && e->name != "floor"; for (auto o : e->ops) { if (r) break; r = hasFun(o); } m[e->id] = r; return r;
}
static Model extract(z3::model& zm, const Specials& s) {
  Model m = std::make_shared<Assign>();
  auto real = [&](E v) {
    z3::expr r = zm.eval(tr(v), true);
    if (r.is_algebraic()) { r = mk(Z3_get_algebraic_number_lower(*C, r, 30)); }
    std::string str = r.is_numeral() ? r.get_decimal_string(0) : "";
    mpq_class q = 0;
    if (r.is_numeral()) { std::string num = Z3_get_numeral_string(*C, r); try { q = mpq_class(num); q.canonicalize(); } catch (...) { } }
    m->re[v->id] = q;
  };
  for (E v : s.vars) {
    if (v->s == BV && v->w == 1) { z3::expr r = zm.eval(tr(v), true); m->bv[v->id] = r.is_true(); }
    else if (v->s == BV) { z3::expr r = zm.eval(tr(v), true); uint64_t x = 0; r.is_numeral_u64(x); m->bv[v->id] = x; }
    else if (v->s == REAL) real(v);
    else { z3::expr b = C->bv_const((v->name + "!" + std::to_string(v->idx)).c_str(), v->w); z3::expr r = zm.eval(b, true); uint64_t x = 0; r.is_numeral_u64(x); m->bv[v->id] = x; }
  }
  for (E v : s.fun) real(v);
  return m;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

SRes solve(const std::vector<E>& in, Model* mo) {
  std::vector<E> conj;
  for (E e : in) { if (e->isFalse()) return SUnsat; if (e->isTrue()) continue; if (e->k == KAnd && e->w == 1) conj.insert(conj.end(), e->ops.begin(), e->ops.end()); else conj.push_back(e); }
  std::sort(conj.begin(), conj.end(), [](E a, E b) { return a->id < b->id; });
  conj.erase(std::unique(conj.begin(), conj.end()), conj.end());
  if (conj.empty()) { if (mo) *mo = std::make_shared<Assign>(); return SSat; }
  sstats.queries++;
  std::vector<uint32_t> key; for (E e : conj) key.push_back(e->id);
  { std::unordered_set<E> in2(conj.begin(), conj.end()); for (E e : conj) if (e->k == KNot && in2.count(e->ops[0])) return SUnsat; }
  auto it = qcache.find(key);
  if (it != qcache.end()) { sstats.cacheHits++; if (mo) *mo = it->second.second; return it->second.first; }
  bool fun = false; for (E e : conj) fun = fun || hasFun(e);
  if (!fun) {
    size_t tried = 0;
    for (auto& m : recent) { if (++tried > 12) break; if (tryModel(m, conj)) { sstats.modelHits++; if (mo) *mo = m; return SSat; } }
  }
  if (solverExpired && solverExpired()) { sstats.unknown++; return SUnknown; }
  Specials s; collect(conj, s);
  std::vector<z3::expr> fs;
  for (E v : s.vars) ranges(v, fs);
  sides(s, fs);
  for (E e : conj) fs.push_back(tr(e));
  const char* logic = s.real ? (s.bvop ? nullptr : s.nonlin ? "QF_NRA" : "QF_LRA") : s.fp ? "QF_BVFP" : "QF_BV";
  double t0 = now();
  SRes r = SUnknown; Model m;
  auto attempt = [&](z3::solver sv, unsigned to) {
    z3::params p(*C); p.set("timeout", to); sv.set(p);
    for (auto& f : fs) sv.add(f);
    z3::check_result cr = z3::unknown;
    try { cr = sv.check(); } catch (z3::exception& ex) { std::cerr << "[z3] " << ex.msg() << "\n"; }
    sstats.z3calls++;
    if (cr == z3::unsat) r = SUnsat;
    else if (cr == z3::sat) { r = SSat; z3::model zm = sv.get_model(); m = extract(zm, s); }
  };
  // A hard query is first given a fifth of its time; then, before the rest, restrictions of it in which some variables are fixed
  // are tried: a model of a restriction is a model of the query.
  auto full = [&](unsigned to) {
    if (s.fp && !s.real) attempt(z3::tactic(*C, "qffpbv").mk_solver(), to);
    else if (logic && !strcmp(logic, "QF_NRA")) { attempt(z3::solver(*C, "QF_NRA"), to / 2); if (r == SUnknown) attempt(z3::solver(*C, z3::solver::simple()), to / 2); }
    else if (logic) attempt(z3::solver(*C, logic), to);
    else attempt(z3::solver(*C), to);
  };
  full(solverTimeoutMs / 5);
  bool bvOnly = !s.fp && !s.real; // (a random full model is only a way of finding a counterexample early; it is replayed like any other)
  if (r == SUnknown && !fun && !s.fp && s.vars.size() > 1) {
    static u64 rs = 0x9E3779B97F4A7C15ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    auto pick = [&](E v, Assign& as) {
      if (v->s == BV) {
        u64 lo = v->ulo, hi = v->uhi, x; bool sg = v->w > 1 && v->name.find("[-") != std::string::npos; if (sg) { lo = (u64)v->slo; hi = (u64)v->shi; } u64 span = hi - lo;
        switch (rnd() % 4) { case 0: x = rnd() % 2 ? lo : hi; break; case 1: x = lo + (span ? rnd() % std::min<u64>(span, 7) : 0); break; default: x = lo + (span == ~0ull ? rnd() : rnd() % (span + 1)); }
        as.bv[v->id] = x & maskw(v->w);
      } else { double lo = std::isfinite(v->flo) ? v->flo : -100, hi = std::isfinite(v->fhi) ? v->fhi : 100; as.re[v->id] = mpq_class(lo + (hi - lo) * (double)(rnd() % 1025) / 1024.0); }
    };
    for (int k = 0; k < (bvOnly ? 24 : 100) && r == SUnknown; k++) { Model g = std::make_shared<Assign>(); for (E v : s.vars) pick(v, *g); if (tryModel(g, conj)) { r = SSat; m = g; } }
    for (int k = 0; k < 3 && r == SUnknown && !(solverExpired && solverExpired()); k++) {
      Assign as; size_t keep = fs.size();
      for (E v : s.vars) if (rnd() % 4 != 0) { pick(v, as); if (v->s == BV) fs.push_back(v->w == 1 ? (as.bv[v->id] ? tr(v) : !tr(v)) : tr(v) == bvc(v->w, as.bv[v->id])); else fs.push_back(tr(v) == rat(as.re[v->id])); }
      attempt(logic ? z3::solver(*C, logic) : z3::solver(*C), 1500);
      while (fs.size() > keep) fs.pop_back();
      if (r == SUnsat) r = SUnknown; // only the restriction is unsatisfiable
    }
  }
  if (r == SUnknown && !(solverExpired && solverExpired())) full(solverTimeoutMs);
  double dt = now() - t0; sstats.time += dt; sstats.maxTime = std::max(sstats.maxTime, dt);
  if (r == SSat && !fun && !s.nonlin && !tryModel(m, conj)) {
    // evaluator and solver disagree: never trust such an answer
    bool bad = true;
    if (bad) { std::cerr << "[engine] model does not satisfy the query under the evaluator\n"; for (E e : conj) { evalBegin(m.get()); if (!evalBV(e)) std::cerr << "   false: " << show(e, 4) << "\n"; } r = SUnknown; }
  }
  if (r == SUnsat) sstats.unsat++; else if (r == SSat) sstats.sat++; else sstats.unknown++;
  if (dt > 5 && getenv("BSYM_SLOW")) std::cerr << "[slow " << dt << "s] " << (r == SUnsat ? "unsat" : r == SSat ? "sat" : "unknown") << "\n" << dumpSmt(conj).substr(0, 3000) << "\n";
  qcache.emplace(key, std::make_pair(r, m));
  if (r == SSat && !fun) { recent.push_front(m); if (recent.size() > 64) recent.pop_back(); }
  if (mo) *mo = m;
  return r;
}
SRes solveSliced(const std::vector<E>& pc, E c, Model* mo) {
  if (c->isFalse()) return SUnsat;
  std::vector<E> todo; for (E e : pc) { if (e == c) { if (!mo) return SSat; } if (e == bnot(c)) return SUnsat; todo.push_back(e); }
  std::unordered_set<uint32_t> vs; for (auto v : varsOf(c)) vs.insert(v);
  std::vector<E> sel{c}; std::vector<char> used(todo.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < todo.size(); i++) if (!used[i]) {
      bool hit = false; auto& tv = varsOf(todo[i]); for (auto v : tv) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; sel.push_back(todo[i]); for (auto v : tv) vs.insert(v); ch = true; }
    }
  }
  return solve(sel, mo);
}
std::string dumpSmt(const std::vector<E>& conj) {
  Specials s; collect(conj, s); std::vector<z3::expr> fs; for (E v : s.vars) ranges(v, fs); sides(s, fs);
  z3::solver sv(*C); for (auto& f : fs) sv.add(f); for (E e : conj) sv.add(tr(e));
  return sv.to_smt2();
}
