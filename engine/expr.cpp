#include "expr.h"
#include <sstream>

std::vector<E> allVars;
size_t nodeCount = 0;

// ---------------------------------------------------------------- hash consing
static size_t hmix(size_t h, size_t v) { return h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2)); }
static size_t hnode(const Node* n) {
  size_t h = ((size_t)n->k << 24) ^ ((size_t)n->s << 16) ^ n->w;
  h = hmix(h, n->c);
  for (auto o : n->ops) h = hmix(h, o->id);
  for (auto c : n->coef) h = hmix(h, c);
  for (auto& r : n->rcoef) h = hmix(h, mpz_get_ui(r.get_num_mpz_t()) * 31 + mpz_get_ui(r.get_den_mpz_t()));
  if (n->s == REAL) h = hmix(h, mpz_get_ui(n->rc.get_num_mpz_t()) * 31 + mpz_get_ui(n->rc.get_den_mpz_t()) + mpz_sgn(n->rc.get_num_mpz_t()));
  if (n->k == KVar || n->k == KRFun) h = hmix(h, std::hash<std::string>()(n->name) + n->idx);
  return h;
}
static bool eqnode(const Node* a, const Node* b) {
  return a->k == b->k && a->s == b->s && a->w == b->w && a->c == b->c && a->ops == b->ops && a->coef == b->coef &&
         a->rcoef == b->rcoef && a->rc == b->rc && a->idx == b->idx && a->name == b->name;
}
struct HN { size_t operator()(const Node* n) const { return hnode(n); } };
struct EN { bool operator()(const Node* a, const Node* b) const { return eqnode(a, b); } };
static std::unordered_set<Node*, HN, EN> table;
static uint32_t nextId = 1;
static void analyse(Node* n);

static E intern(Node& t) {
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Node* n = new Node(std::move(t));
  n->id = nextId++;
  nodeCount++;
  analyse(n);
  table.insert(n);
  return n;
}
static Node T(Kind k, Sort s, unsigned w, std::vector<E> ops = {}, u64 c = 0) {
  Node t; t.k = k; t.s = s; t.w = (uint16_t)w; t.c = c; t.ops = std::move(ops); t.id = 0; return t;
}
static E N(Kind k, Sort s, unsigned w, std::vector<E> ops = {}, u64 c = 0) { Node t = T(k, s, w, std::move(ops), c); return intern(t); }

static unsigned fw(Sort s) { return s == F32S ? 32 : s == F64S ? 64 : 0; }
static double fval(E e) { if (e->s == F32S) { float f; uint32_t b = (uint32_t)e->c; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &e->c, 8); return d; }

// ---------------------------------------------------------------- ranges
static void setU(Node* n, u64 lo, u64 hi) {
  n->ulo = lo; n->uhi = hi;
  u64 half = 1ull << (n->w - 1);
  if (hi < half || lo >= half) { n->slo = sx(lo, n->w); n->shi = sx(hi, n->w); }
  else { n->slo = sminw(n->w); n->shi = smaxw(n->w); }
}
static void setS(Node* n, i64 lo, i64 hi) {
  n->slo = lo; n->shi = hi;
  if (lo >= 0 || hi < 0) { n->ulo = (u64)lo & maskw(n->w); n->uhi = (u64)hi & maskw(n->w); }
  else { n->ulo = 0; n->uhi = maskw(n->w); }
}
static void setFull(Node* n) { n->ulo = 0; n->uhi = maskw(n->w); n->slo = sminw(n->w); n->shi = smaxw(n->w); }

// integer-valued range of a poly when atoms are read unsigned (us) or signed
static bool polyRange(const Node* n, bool us, i128& lo, i128& hi) {
  lo = hi = (i128)sx(n->c, n->w);
  for (size_t i = 0; i < n->ops.size(); i++) {
    i128 c = sx(n->coef[i], n->w);
    i128 a = us ? (i128)n->ops[i]->ulo : (i128)n->ops[i]->slo, b = us ? (i128)n->ops[i]->uhi : (i128)n->ops[i]->shi;
    if (c >= 0) { lo += c * a; hi += c * b; } else { lo += c * b; hi += c * a; }
    if (lo < -((i128)1 << 100) || hi > ((i128)1 << 100)) return false;
  }
  return true;
}
static double dn(double x) { return std::isinf(x) ? x : nextafter(x, -INFINITY); }
static double up(double x) { return std::isinf(x) ? x : nextafter(x, INFINITY); }
static double f32dn(double x) { if (std::isinf(x)) return x; float f = (float)x; return nextafterf(f, -INFINITY); }
static double f32up(double x) { if (std::isinf(x)) return x; float f = (float)x; return nextafterf(f, INFINITY); }

static void analyse(Node* n) {
  n->dagsize = 1;
  n->isVarLess = n->k != KVar;
  for (auto o : n->ops) { n->dagsize = (uint32_t)std::min<u64>((u64)n->dagsize + o->dagsize, 1u << 30); n->isVarLess = n->isVarLess && o->isVarLess; }
  if (n->k == KConst) n->iteConst = 1;
  else if (n->k == KIte && n->ops[1]->iteConst && n->ops[2]->iteConst) n->iteConst = std::min<uint32_t>(1000, n->ops[1]->iteConst + n->ops[2]->iteConst);
  if (n->s == BV) {
    setFull(n);
    switch (n->k) {
      case KConst: setU(n, n->c, n->c); break;
      case KPoly: {
        i128 lo, hi; bool done = false;
        if (polyRange(n, false, lo, hi)) {
          if (lo >= sminw(n->w) && hi <= smaxw(n->w)) { setS(n, (i64)lo, (i64)hi); done = true; }
          else if (lo >= 0 && hi <= (i128)maskw(n->w)) { setU(n, (u64)lo, (u64)hi); done = true; }
        }
        if (!done && polyRange(n, true, lo, hi)) {
          if (lo >= 0 && hi <= (i128)maskw(n->w)) setU(n, (u64)lo, (u64)hi);
          else if (lo >= sminw(n->w) && hi <= smaxw(n->w)) setS(n, (i64)lo, (i64)hi);
        }
        break; }
      case KMono: {
        i128 lo = 1, hi = 1; bool ok = true;
        for (auto o : n->ops) {
          i128 a = o->slo, b = o->shi;
          i128 p[4] = {lo * a, lo * b, hi * a, hi * b};
          lo = std::min(std::min(p[0], p[1]), std::min(p[2], p[3])); hi = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
          if (lo < -((i128)1 << 62) || hi > ((i128)1 << 62)) { ok = false; break; }
        }
        if (ok && lo >= sminw(n->w) && hi <= smaxw(n->w)) setS(n, (i64)lo, (i64)hi);
        break; }
      case KZExt: setU(n, n->ops[0]->ulo, n->ops[0]->uhi); break;
      case KSExt: setS(n, n->ops[0]->slo, n->ops[0]->shi); break;
      case KTrunc: {
        E a = n->ops[0];
        if (a->uhi <= maskw(n->w)) setU(n, a->ulo, a->uhi);
        else if (a->slo >= sminw(n->w) && a->shi <= smaxw(n->w)) setS(n, a->slo, a->shi);
        break; }
      case KIte: {
        E a = n->ops[1], b = n->ops[2];
        u64 ul = std::min(a->ulo, b->ulo), uh = std::max(a->uhi, b->uhi);
        i64 sl = std::min(a->slo, b->slo), sh = std::max(a->shi, b->shi);
        n->ulo = ul; n->uhi = uh; n->slo = sl; n->shi = sh; break; }
      case KUDiv: if (n->ops[1]->ulo > 0) setU(n, n->ops[0]->ulo / n->ops[1]->uhi, n->ops[0]->uhi / n->ops[1]->ulo); break;
      case KURem: { u64 m = n->ops[1]->uhi; if (n->ops[1]->ulo > 0) setU(n, 0, std::min(n->ops[0]->uhi, m - 1)); else setU(n, 0, n->ops[0]->uhi); break; }
      case KSDiv: if (n->ops[1]->isConst() && sx(n->ops[1]->c, n->w) > 0) { i64 c = sx(n->ops[1]->c, n->w); setS(n, n->ops[0]->slo / c, n->ops[0]->shi / c); }
                  break;
      case KSRem: if (n->ops[1]->isConst() && sx(n->ops[1]->c, n->w) > 0) { i64 c = sx(n->ops[1]->c, n->w); setS(n, n->ops[0]->slo < 0 ? -(c - 1) : 0, n->ops[0]->shi > 0 ? c - 1 : 0); } break;
      case KAnd: if (n->w > 1) setU(n, 0, std::min(n->ops[0]->uhi, n->ops[1]->uhi)); break;
      case KOr: case KXor: if (n->w > 1) { u64 m = std::max(n->ops[0]->uhi, n->ops[1]->uhi); u64 p = 1; while (p && p <= m) p <<= 1; setU(n, 0, p ? p - 1 : ~0ull); if (n->uhi > maskw(n->w)) setFull(n); } break;
      case KLShr: if (n->ops[1]->isConst() && n->ops[1]->c < n->w) setU(n, n->ops[0]->ulo >> n->ops[1]->c, n->ops[0]->uhi >> n->ops[1]->c); break;
      case KAShr: if (n->ops[1]->isConst() && n->ops[1]->c < n->w) setS(n, n->ops[0]->slo >> n->ops[1]->c, n->ops[0]->shi >> n->ops[1]->c); break;
      case KFPToSI: { E a = n->ops[0]; if (!a->mayNan && a->flo > -9e18 && a->fhi < 9e18) { double l = std::trunc(a->flo), h = std::trunc(a->fhi); if (l >= (double)sminw(n->w) && h <= (double)smaxw(n->w) - (n->w == 64 ? 1024 : 0)) setS(n, (i64)l, (i64)h); } break; }
      case KFPToUI: { E a = n->ops[0]; if (!a->mayNan && a->flo > -1 && a->fhi < 9e18) { double l = std::max(0.0, std::trunc(a->flo)), h = std::trunc(a->fhi); if (h <= (double)maskw(n->w)) setU(n, (u64)l, (u64)h); } break; }
      case KRealToInt: { E a = n->ops[0]; if (n->c && a->flo > -9e18 && a->fhi < 9e18) { double l = std::floor(a->flo), h = std::ceil(a->fhi); if (l >= (double)sminw(n->w) && h <= (double)smaxw(n->w) - (n->w == 64 ? 2048 : 0)) setS(n, (i64)l, (i64)h); } if (n->c && !(a->sg & 1) && n->slo < 0) setS(n, 0, n->shi); break; }
      default: break;
    }
  } else if (n->s == F32S || n->s == F64S) {
    n->ulo = 0; n->uhi = ~0ull; n->slo = INT64_MIN; n->shi = INT64_MAX;
    bool f32 = n->s == F32S;
    double lo = -INFINITY, hi = INFINITY; bool nan = true;
    auto fin = [&](E a) { return !a->mayNan && !std::isinf(a->flo) && !std::isinf(a->fhi); };
    auto put = [&](double l, double h) {
      if (f32) { l = f32dn(l); h = f32up(h); } else { l = dn(l); h = up(h); }
      double mx = f32 ? FLT_MAX : DBL_MAX;
      if (std::fabs(l) <= mx && std::fabs(h) <= mx) { lo = l; hi = h; nan = false; }
    };
    switch (n->k) {
      case KConst: { double d = fval(n); if (!std::isnan(d)) { lo = hi = d; nan = false; } break; }
      case KVar: lo = n->flo; hi = n->fhi; nan = n->mayNan; break;
      case KIte: lo = std::min(n->ops[1]->flo, n->ops[2]->flo); hi = std::max(n->ops[1]->fhi, n->ops[2]->fhi); nan = n->ops[1]->mayNan || n->ops[2]->mayNan; break;
      case KFNeg: lo = -n->ops[0]->fhi; hi = -n->ops[0]->flo; nan = n->ops[0]->mayNan; break;
      case KFAbs: { E a = n->ops[0]; nan = a->mayNan; hi = std::max(std::fabs(a->flo), std::fabs(a->fhi)); lo = (a->flo <= 0 && a->fhi >= 0) ? 0 : std::min(std::fabs(a->flo), std::fabs(a->fhi)); break; }
      case KFAdd: if (fin(n->ops[0]) && fin(n->ops[1])) put(n->ops[0]->flo + n->ops[1]->flo, n->ops[0]->fhi + n->ops[1]->fhi); break;
      case KFSub: if (fin(n->ops[0]) && fin(n->ops[1])) put(n->ops[0]->flo - n->ops[1]->fhi, n->ops[0]->fhi - n->ops[1]->flo); break;
      case KFMul: case KFDiv: if (fin(n->ops[0]) && fin(n->ops[1])) {
          E a = n->ops[0], b = n->ops[1];
          if (n->k == KFDiv && b->flo <= 0 && b->fhi >= 0) break;
          double p[4] = {n->k == KFMul ? a->flo * b->flo : a->flo / b->flo, n->k == KFMul ? a->flo * b->fhi : a->flo / b->fhi,
                         n->k == KFMul ? a->fhi * b->flo : a->fhi / b->flo, n->k == KFMul ? a->fhi * b->fhi : a->fhi / b->fhi};
          double l = p[0], h = p[0]; bool bad = false;
          for (double q : p) { if (std::isnan(q)) bad = true; l = std::min(l, q); h = std::max(h, q); }
          if (!bad) put(l, h);
        } break;
      case KFSqrt: if (fin(n->ops[0]) && n->ops[0]->flo >= 0) put(std::sqrt(n->ops[0]->flo), std::sqrt(n->ops[0]->fhi)); break;
      case KFRound: if (fin(n->ops[0])) { put(std::floor(n->ops[0]->flo), std::ceil(n->ops[0]->fhi)); } break;
      case KFPExt: case KFPTrunc: if (fin(n->ops[0])) put(n->ops[0]->flo, n->ops[0]->fhi); break;
      case KSIToFP: put((double)n->ops[0]->slo, (double)n->ops[0]->shi); break;
      case KUIToFP: put((double)n->ops[0]->ulo, (double)n->ops[0]->uhi); if (!nan && lo < 0) lo = 0; break;
      default: break;
    }
    n->flo = lo; n->fhi = hi; n->mayNan = nan;
  } else {
    n->ulo = 0; n->uhi = ~0ull; n->slo = INT64_MIN; n->shi = INT64_MAX; n->mayNan = false;
    double lo = -INFINITY, hi = INFINITY; uint8_t sg = 7;
    auto ssign = [](const mpq_class& q) { int k = ::sgn(q); return (uint8_t)(k < 0 ? 1 : k == 0 ? 2 : 4); };
    auto smul = [](uint8_t a, uint8_t b) { uint8_t r = 0; if ((a & 2) || (b & 2)) r |= 2; if (((a & 4) && (b & 4)) || ((a & 1) && (b & 1))) r |= 4; if (((a & 4) && (b & 1)) || ((a & 1) && (b & 4))) r |= 1; return r; };
    auto imul = [](double a, double b, double c, double d, double& l, double& h) {
      double p[4] = {a * c, a * d, b * c, b * d}; for (double& q : p) if (std::isnan(q)) q = 0; // 0 * inf: the factor is exactly zero there
      l = dn(std::min(std::min(p[0], p[1]), std::min(p[2], p[3]))); h = up(std::max(std::max(p[0], p[1]), std::max(p[2], p[3]))); };
    switch (n->k) {
      case KConst: { double d = n->rc.get_d(); lo = dn(d); hi = up(d); sg = ssign(n->rc); break; }
      case KVar: lo = n->flo; hi = n->fhi; break;
      case KPoly: {
        double d = n->rc.get_d(); lo = dn(d); hi = up(d); uint8_t u = ssign(n->rc); bool az = n->rc == 0;
        for (size_t i = 0; i < n->ops.size(); i++) {
          E o = n->ops[i]; double c = n->rcoef[i].get_d(), l, h; imul(dn(c), up(c), o->flo, o->fhi, l, h); lo = dn(lo + l); hi = up(hi + h); if (std::isnan(lo)) lo = -INFINITY; if (std::isnan(hi)) hi = INFINITY;
          uint8_t t = smul(ssign(n->rcoef[i]), o->sg); u |= t; if (!(t & 2)) az = false;
        }
        sg = u & 5; if ((u & 5) == 5) sg = 7; else if (az) sg |= 2; break; }
      case KMono: {
        lo = hi = 1; sg = 4;
        for (size_t i = 0; i < n->ops.size();) {
          E o = n->ops[i]; size_t k = i; while (i < n->ops.size() && n->ops[i] == o) i++; size_t p = i - k;
          double l = o->flo, h = o->fhi; uint8_t q = o->sg;
          for (; p >= 2; p -= 2) { double m = std::max(std::fabs(o->flo), std::fabs(o->fhi)), z = (o->flo <= 0 && o->fhi >= 0) ? 0 : std::min(std::fabs(o->flo), std::fabs(o->fhi)); double l2, h2; imul(lo, hi, z == 0 ? 0 : dn(z * z), up(m * m), l2, h2); lo = l2; hi = h2; sg = smul(sg, (uint8_t)((o->sg & 2) | ((o->sg & 5) ? 4 : 0))); }
          if (p) { double l2, h2; imul(lo, hi, l, h, l2, h2); lo = l2; hi = h2; sg = smul(sg, q); }
        } break; }
      case KIte: lo = std::min(n->ops[1]->flo, n->ops[2]->flo); hi = std::max(n->ops[1]->fhi, n->ops[2]->fhi); sg = n->ops[1]->sg | n->ops[2]->sg; break;
      case KRInv: { E o = n->ops[0]; sg = o->sg & 5; if (o->flo > 0) { lo = dn(1 / o->fhi); hi = up(1 / o->flo); } else if (o->fhi < 0) { lo = dn(1 / o->fhi); hi = up(1 / o->flo); } else if (sg == 4) lo = 0; else if (sg == 1) hi = 0; break; }
      case KRFun: {
        if (n->ops.empty()) break; E o = n->ops[0];
        if (n->name == "exp") { sg = 4; lo = 0; hi = o->fhi < 700 ? up(up(std::exp(o->fhi))) * 1.0000001 : INFINITY; if (o->flo > -700) lo = dn(dn(std::exp(o->flo))) * 0.9999999; }
        else if (n->name == "sqrt") { sg = 6; lo = 0; if (o->fhi < 1e300) hi = up(std::sqrt(std::max(0.0, o->fhi))); }
        else if (n->name == "floor") { lo = std::floor(o->flo); hi = std::floor(o->fhi); if (o->sg == 4 || o->sg == 6 || o->sg == 2) sg &= 6; if (o->sg == 1) sg &= 1; }
        break; }
      case KIntToReal: lo = dn((double)n->ops[0]->slo); hi = up((double)n->ops[0]->shi); sg = (n->ops[0]->slo < 0 ? 1 : 0) | (n->ops[0]->shi > 0 ? 4 : 0) | (n->ops[0]->slo <= 0 && n->ops[0]->shi >= 0 ? 2 : 0); break;
      case KUIntToReal: lo = dn((double)n->ops[0]->ulo); hi = up((double)n->ops[0]->uhi); sg = 4 | (n->ops[0]->ulo == 0 ? 2 : 0); break;
      default: break;
    }
    if (lo >= 0 && n->k != KConst) sg &= 6; if (lo > 0) sg &= 4; if (hi <= 0 && n->k != KConst) sg &= 3; if (hi < 0) sg &= 1;
    if (sg == 0) sg = 7; // contradictory: unreachable
    if (!(sg & 1) && lo < 0) lo = 0; if (!(sg & 4) && hi > 0) hi = 0;
    n->flo = lo; n->fhi = hi; n->sg = sg;
  }
}

// ---------------------------------------------------------------- leaves
E bv(unsigned w, u64 v) { return N(KConst, BV, w, {}, v & maskw(w)); }
E fpBits(Sort s, u64 b) { return N(KConst, s, fw(s), {}, b & maskw(fw(s))); }
E f32c(float f) { if (std::isnan(f)) return fpBits(F32S, 0x7fc00000); uint32_t b; memcpy(&b, &f, 4); return fpBits(F32S, b); }
E f64c(double d) { if (std::isnan(d)) return fpBits(F64S, 0x7ff8000000000000ull); u64 b; memcpy(&b, &d, 8); return fpBits(F64S, b); }
static E fpc(Sort s, double d) { return s == F32S ? f32c((float)d) : f64c(d); }
E realc(const mpq_class& q) { Node t = T(KConst, REAL, 0); t.rc = q; t.rc.canonicalize(); return intern(t); }
mpq_class fpToRat(E c) { return mpq_class(fval(c)); }

static std::map<std::pair<std::string, int>, E> varTab;
E mkVar(Sort s, unsigned w, const std::string& name, int idx, bool ranged, i64 lo, i64 hi, bool sgn) {
  auto it = varTab.find({name, idx});
  if (it != varTab.end()) return it->second;
  Node t = T(KVar, s, w); t.name = name; t.idx = idx;
  E e = intern(t);
  if (s == BV && ranged) { if (sgn) setS(e, lo, hi); else setU(e, (u64)lo, (u64)hi); }
  varTab[{name, idx}] = e; allVars.push_back(e);
  return e;
}
E mkFVar(Sort s, const std::string& name, int idx, double lo, double hi) {
  auto it = varTab.find({name, idx});
  if (it != varTab.end()) return it->second;
  Node t = T(KVar, s, fw(s)); t.name = name; t.idx = idx; t.flo = lo; t.fhi = hi; t.mayNan = false;
  E e = intern(t);
  e->flo = lo; e->fhi = hi; e->mayNan = false; if (s == REAL) e->sg = (lo < 0 ? 1 : 0) | (lo <= 0 && hi >= 0 ? 2 : 0) | (hi > 0 ? 4 : 0);
  varTab[{name, idx}] = e; allVars.push_back(e);
  return e;
}

// ---------------------------------------------------------------- BV polynomials
struct Lin { u64 c = 0; std::vector<std::pair<E, u64>> t; };
static Lin toLin(E a) {
  Lin l;
  if (a->isConst()) l.c = a->c;
  else if (a->k == KPoly) { l.c = a->c; for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({a->ops[i], a->coef[i]}); }
  else l.t.push_back({a, 1});
  return l;
}
static E fromLin(Lin& l, unsigned w) {
  std::sort(l.t.begin(), l.t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  Node t = T(KPoly, BV, w); t.c = l.c & maskw(w);
  for (size_t i = 0; i < l.t.size();) {
    u64 c = 0; E m = l.t[i].first;
    for (; i < l.t.size() && l.t[i].first == m; i++) c += l.t[i].second;
    c &= maskw(w);
    if (c) { t.ops.push_back(m); t.coef.push_back(c); }
  }
  if (t.ops.empty()) return bv(w, t.c);
  if (t.ops.size() == 1 && t.coef[0] == 1 && t.c == 0) return t.ops[0];
  return intern(t);
}
static E mkMono(std::vector<E> at, Sort s, unsigned w) {
  if (s == REAL) { // cancel x * 1/x
    for (bool ch = true; ch;) {
      ch = false;
      for (size_t i = 0; i < at.size() && !ch; i++) if (at[i]->k == KRInv)
        for (size_t j = 0; j < at.size(); j++) if (j != i && at[j] == at[i]->ops[0]) {
          size_t a = std::max(i, j), b = std::min(i, j); at.erase(at.begin() + a); at.erase(at.begin() + b); ch = true; break; }
    }
    if (at.empty()) return realc(1);
  }
  if (at.size() == 1) return at[0];
  std::sort(at.begin(), at.end(), [](E x, E y) { return x->id < y->id; });
  return N(KMono, s, w, at);
}
static void atomsOf(E m, std::vector<E>& out) { if (m->k == KMono) for (auto o : m->ops) out.push_back(o); else out.push_back(m); }

E add(E a, E b) {
  if (a->w == 1) return bxor(a, b);
  if (a->isConst() && b->isConst()) return bv(a->w, a->c + b->c);
  if (a->isConst() && a->c == 0) return b;
  if (b->isConst() && b->c == 0) return a;
  Lin l = toLin(a), r = toLin(b); l.c += r.c; l.t.insert(l.t.end(), r.t.begin(), r.t.end());
  return fromLin(l, a->w);
}
static E scale(E a, u64 k) { Lin l = toLin(a); l.c *= k; for (auto& p : l.t) p.second *= k; return fromLin(l, a->w); }
E neg(E a) { if (a->w == 1) return a; return scale(a, ~0ull); }
E sub(E a, E b) { if (a->w == 1) return bxor(a, b); if (a == b) return bv(a->w, 0); return add(a, neg(b)); }
E mul(E a, E b) {
  if (a->w == 1) return band(a, b);
  if (b->isConst()) std::swap(a, b);
  if (a->isConst()) { if (a->c == 1) return b; if (a->c == 0) return a; return scale(b, a->c); }
  Lin l = toLin(a), r = toLin(b);
  size_t na = l.t.size() + (l.c != 0), nb = r.t.size() + (r.c != 0);
  if (na * nb > 256) return mkMono({a, b}, BV, a->w);
  Lin o;
  if (l.c && r.c) o.c = l.c * r.c;
  if (l.c) for (auto& p : r.t) o.t.push_back({p.first, p.second * l.c});
  if (r.c) for (auto& p : l.t) o.t.push_back({p.first, p.second * r.c});
  for (auto& p : l.t) for (auto& q : r.t) {
    std::vector<E> at; atomsOf(p.first, at); atomsOf(q.first, at);
    o.t.push_back({mkMono(at, BV, a->w), p.second * q.second});
  }
  return fromLin(o, a->w);
}

// ---------------------------------------------------------------- ite-of-constants distribution
static const uint32_t ITELIM = 40;
static E mapIte(E a, const std::function<E(E)>& f) {
  if (a->k == KIte) return ite(a->ops[0], mapIte(a->ops[1], f), mapIte(a->ops[2], f));
  return f(a);
}
static bool smallIte(E a) { return a->k == KIte && a->iteConst && a->iteConst <= ITELIM; }

// ---------------------------------------------------------------- division, shifts
E udiv(E a, E b) {
  if (b->isConst() && b->c) {
    if (a->isConst()) return bv(a->w, a->c / b->c);
    if (b->c == 1) return a;
    if (a->uhi < b->c) return bv(a->w, 0);
    if (a->ulo / b->c == a->uhi / b->c) return bv(a->w, a->ulo / b->c);
    if ((b->c & (b->c - 1)) == 0) { unsigned s = __builtin_ctzll(b->c); return lshr(a, bv(a->w, s)); }
    if (smallIte(a)) return mapIte(a, [&](E x) { return udiv(x, b); });
    if (a->k == KZExt && b->c <= maskw(a->ops[0]->w)) return zext(udiv(a->ops[0], bv(a->ops[0]->w, b->c)), a->w);
    // exact multiple: all coefficients divisible and no overflow
    if (a->k == KPoly) { i128 lo, hi; if (polyRange(a, true, lo, hi) && lo >= 0 && hi <= (i128)maskw(a->w)) {
        bool ok = a->c % b->c == 0; for (auto c : a->coef) if ((u64)sx(c, a->w) > (u64)INT64_MAX || c % b->c) ok = false;
        if (ok) { Lin l; l.c = a->c / b->c; for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({a->ops[i], a->coef[i] / b->c}); return fromLin(l, a->w); } } }
  }
  if (a->uhi < b->ulo) return bv(a->w, 0);
  return N(KUDiv, BV, a->w, {a, b});
}
E urem(E a, E b) {
  if (b->isConst() && b->c) {
    if (a->isConst()) return bv(a->w, a->c % b->c);
    if (b->c == 1) return bv(a->w, 0);
    if (a->uhi < b->c) return a;
    if ((b->c & (b->c - 1)) == 0) return band(a, bv(a->w, b->c - 1));
    if (smallIte(a)) return mapIte(a, [&](E x) { return urem(x, b); });
  }
  if (a->uhi < b->ulo) return a;
  return N(KURem, BV, a->w, {a, b});
}
E sdiv(E a, E b, bool exact) {
  if (a->slo >= 0 && b->slo >= 0) {
    if (!(exact && b->isConst() && a->k == KPoly)) return udiv(a, b);
  }
  if (b->isConst() && b->c) {
    i64 d = sx(b->c, b->w);
    if (a->isConst()) { i64 n = sx(a->c, a->w); if (!(n == INT64_MIN && d == -1)) return bv(a->w, (u64)(n / d)); }
    if (d == 1) return a;
    if (a->k == KPoly) {
      i128 lo, hi; bool norange = exact || (polyRange(a, false, lo, hi) && lo >= sminw(a->w) && hi <= smaxw(a->w));
      bool ok = norange && sx(a->c, a->w) % d == 0; for (auto c : a->coef) if (sx(c, a->w) % d) ok = false;
      if (ok) { Lin l; l.c = (u64)(sx(a->c, a->w) / d); for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({a->ops[i], (u64)(sx(a->coef[i], a->w) / d)}); return fromLin(l, a->w); }
    }
    if (smallIte(a)) return mapIte(a, [&](E x) { return sdiv(x, b, exact); });
  }
  return N(KSDiv, BV, a->w, {a, b});
}
E srem(E a, E b) {
  if (a->slo >= 0 && b->slo >= 0) return urem(a, b);
  if (b->isConst() && b->c && a->isConst()) { i64 n = sx(a->c, a->w), d = sx(b->c, b->w); if (d == -1) return bv(a->w, 0); return bv(a->w, (u64)(n % d)); }
  if (b->isConst() && b->c && smallIte(a)) return mapIte(a, [&](E x) { return srem(x, b); });
  return N(KSRem, BV, a->w, {a, b});
}
E shl(E a, E b) {
  if (b->isConst()) { if (b->c >= a->w) return bv(a->w, 0); if (a->w > 1) return mul(a, bv(a->w, 1ull << b->c)); return a; }
  return N(KShl, BV, a->w, {a, b});
}
E lshr(E a, E b, bool exact) {
  if (b->isConst()) {
    if (b->c >= a->w) return bv(a->w, 0);
    if (b->c == 0) return a;
    if (a->isConst()) return bv(a->w, a->c >> b->c);
    if ((a->uhi >> b->c) == (a->ulo >> b->c)) return bv(a->w, a->ulo >> b->c);
    if (exact && a->slo >= 0) return sdiv(a, bv(a->w, 1ull << b->c), true);
    return zext(extract(a, (unsigned)b->c, a->w - (unsigned)b->c), a->w);
  }
  return N(KLShr, BV, a->w, {a, b});
}
E ashr(E a, E b, bool exact) {
  if (b->isConst()) {
    if (b->c == 0) return a;
    if (a->isConst()) return bv(a->w, (u64)(sx(a->c, a->w) >> std::min<u64>(b->c, 63)));
    if (exact && b->c < a->w - 1) { E d = sdiv(a, bv(a->w, 1ull << b->c), true); if (d->k != KSDiv) return d; }
    if (a->slo >= 0) return lshr(a, b);
  }
  return N(KAShr, BV, a->w, {a, b});
}

// ---------------------------------------------------------------- width changes
E zext(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return bv(w, a->c);
  if (a->w == 1) return ite(a, bv(w, 1), bv(w, 0));
  if (a->k == KZExt) return zext(a->ops[0], w);
  if (smallIte(a)) return mapIte(a, [&](E x) { return zext(x, w); });
  if (a->k == KSExt && a->ops[0]->slo >= 0) return zext(a->ops[0], w);
  if (a->k == KPoly) {
    i128 lo, hi;
    if (polyRange(a, true, lo, hi) && lo >= 0 && hi <= (i128)maskw(a->w)) {
      Lin l; l.c = (u64)sx(a->c, a->w); for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({zext(a->ops[i], w), (u64)sx(a->coef[i], a->w)}); return fromLin(l, w); }
    if (polyRange(a, false, lo, hi) && lo >= 0 && hi <= (i128)smaxw(a->w)) {
      Lin l; l.c = (u64)sx(a->c, a->w); for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({sext(a->ops[i], w), (u64)sx(a->coef[i], a->w)}); return fromLin(l, w); }
    { i128 m = a->c; bool pos = true; for (size_t i = 0; i < a->ops.size() && pos; i++) { if (sx(a->coef[i], a->w) < 0) pos = false; m += (i128)a->coef[i] * a->ops[i]->uhi; if (m > (i128)maskw(a->w)) pos = false; }
      if (pos) { Lin l; l.c = a->c; for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({zext(a->ops[i], w), a->coef[i]}); return fromLin(l, w); } }
  }
  if (a->k == KMono && a->uhi <= (u64)smaxw(a->w)) {
    bool ok = true; i128 p = 1; for (auto o : a->ops) { if (o->slo < 0) ok = false; p *= (i128)o->uhi; if (p > (i128)1 << 62) ok = false; if (!ok) break; }
    if (ok && p <= (i128)maskw(a->w)) { E r = zext(a->ops[0], w); for (size_t i = 1; i < a->ops.size(); i++) r = mul(r, zext(a->ops[i], w)); return r; }
  }
  if (a->k == KTrunc && a->ops[0]->uhi <= maskw(a->w)) { // lossless truncation
    E b = a->ops[0]; if (b->w == w) return b; if (b->w < w) return zext(b, w); return trunc(b, w); }
  if (a->k == KIte && a->dagsize < 2000) { E x = a->ops[1], y = a->ops[2]; if (x->isConst() || y->isConst()) return ite(a->ops[0], zext(x, w), zext(y, w)); }
  return N(KZExt, BV, w, {a});
}
E sext(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return bv(w, (u64)sx(a->c, a->w));
  if (a->w == 1) return ite(a, bv(w, ~0ull), bv(w, 0));
  if (a->k == KSExt) return sext(a->ops[0], w);
  if (a->k == KZExt) return zext(a->ops[0], w);
  if (smallIte(a)) return mapIte(a, [&](E x) { return sext(x, w); });
  if (a->k == KPoly) {
    i128 lo, hi;
    if (polyRange(a, false, lo, hi) && lo >= sminw(a->w) && hi <= smaxw(a->w)) {
      Lin l; l.c = (u64)sx(a->c, a->w); for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({sext(a->ops[i], w), (u64)sx(a->coef[i], a->w)}); return fromLin(l, w); }
  }
  if (a->k == KMono) {
    i128 lo = 1, hi = 1; bool ok = true;
    for (auto o : a->ops) { i128 x = o->slo, y = o->shi; i128 p[4] = {lo * x, lo * y, hi * x, hi * y};
      lo = std::min(std::min(p[0], p[1]), std::min(p[2], p[3])); hi = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
      if (lo < -((i128)1 << 62) || hi > ((i128)1 << 62)) { ok = false; break; } }
    if (ok && lo >= sminw(a->w) && hi <= smaxw(a->w)) { E r = sext(a->ops[0], w); for (size_t i = 1; i < a->ops.size(); i++) r = mul(r, sext(a->ops[i], w)); return r; }
  }
  if (a->k == KTrunc && a->ops[0]->slo >= sminw(a->w) && a->ops[0]->shi <= smaxw(a->w)) {
    E b = a->ops[0]; if (b->w == w) return b; if (b->w < w) return sext(b, w); return trunc(b, w); }
  if (a->slo >= 0) return zext(a, w);
  if (a->k == KIte && a->dagsize < 2000) { E x = a->ops[1], y = a->ops[2]; if (x->isConst() || y->isConst()) return ite(a->ops[0], sext(x, w), sext(y, w)); }
  return N(KSExt, BV, w, {a});
}
E trunc(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return bv(w, a->c);
  if (a->k == KZExt || a->k == KSExt) {
    E b = a->ops[0];
    if (b->w == w) return b;
    if (b->w > w) return trunc(b, w);
    return a->k == KZExt ? zext(b, w) : sext(b, w);
  }
  if (a->k == KTrunc) return trunc(a->ops[0], w);
  if (a->k == KConcat && a->ops[1]->w >= w) return trunc(a->ops[1], w);
  if (smallIte(a) || (a->k == KIte && w == 1) || (a->k == KIte && (a->ops[1]->isConst() || a->ops[2]->isConst()))) return ite(a->ops[0], trunc(a->ops[1], w), trunc(a->ops[2], w));
  if (w > 1) {
    if (a->k == KPoly) { Lin l; l.c = a->c; for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({trunc(a->ops[i], w), a->coef[i]});
      E r = nullptr; { // terms may be polys themselves after truncation
        Lin o; o.c = l.c; for (auto& p : l.t) { Lin q = toLin(p.first); o.c += q.c * p.second; for (auto& z : q.t) o.t.push_back({z.first, z.second * p.second}); } r = fromLin(o, w); }
      return r; }
    if (a->k == KMono) { E r = trunc(a->ops[0], w); for (size_t i = 1; i < a->ops.size(); i++) r = mul(r, trunc(a->ops[i], w)); return r; }
    if (a->k == KAnd) return band(trunc(a->ops[0], w), trunc(a->ops[1], w));
    if (a->k == KOr) return bor(trunc(a->ops[0], w), trunc(a->ops[1], w));
    if (a->k == KXor) return bxor(trunc(a->ops[0], w), trunc(a->ops[1], w));
    if (a->k == KNot) return bnot(trunc(a->ops[0], w));
  }
  if (a->uhi <= 1 && w == 1) return eq(a, bv(a->w, 1));
  if (w == 1) return eq(band(a, bv(a->w, 1)), bv(a->w, 1));
  if (a->k == KExtract) return extract(a->ops[0], (unsigned)a->c, w);
  return N(KTrunc, BV, w, {a});
}
E extract(E a, unsigned lo, unsigned w) {
  if (lo == 0) return trunc(a, w);
  if (a->isConst()) return bv(w, a->c >> lo);
  if (a->k == KExtract) return extract(a->ops[0], lo + (unsigned)a->c, w);
  if (a->k == KConcat) {
    unsigned lw = a->ops[1]->w;
    if (lo >= lw) return extract(a->ops[0], lo - lw, w);
    if (lo + w <= lw) return extract(a->ops[1], lo, w);
  }
  if (a->k == KZExt) { unsigned bw = a->ops[0]->w; if (lo >= bw) return bv(w, 0); if (lo + w <= bw) return extract(a->ops[0], lo, w); return zext(extract(a->ops[0], lo, bw - lo), w); }
  if (a->k == KTrunc) return extract(a->ops[0], lo, w);
  if (a->uhi < (lo >= 64 ? 0 : (1ull << lo))) return bv(w, 0);
  if (smallIte(a)) return mapIte(a, [&](E x) { return extract(x, lo, w); });
  return N(KExtract, BV, w, {a}, lo);
}
E concat(E h, E l) {
  unsigned w = h->w + l->w;
  if (h->isConst() && l->isConst() && w <= 64) return bv(w, (h->c << l->w) | l->c);
  if (h->isConst() && h->c == 0 && w <= 64) return zext(l, w);
  // consecutive slices of one value
  auto base = [](E x, unsigned& lo) -> E { if (x->k == KExtract) { lo = (unsigned)x->c; return x->ops[0]; } if (x->k == KTrunc) { lo = 0; return x->ops[0]; } lo = 0; return nullptr; };
  unsigned hl, ll; E hb = base(h, hl), lb = base(l, ll);
  if (hb && hb == lb && hl == ll + l->w) return extract(hb, ll, w);
  if (hb && !lb && hl == l->w && hb == l) return extract(hb, 0, w);
  return N(KConcat, BV, w, {h, l});
}

// ---------------------------------------------------------------- logic
static E nary(Kind k, E a, E b) { // width-1 AND/OR, flattened and sorted
  std::vector<E> v;
  auto pushAll = [&](E x) { if (x->k == k) v.insert(v.end(), x->ops.begin(), x->ops.end()); else v.push_back(x); };
  pushAll(a); pushAll(b);
  std::sort(v.begin(), v.end(), [](E x, E y) { return x->id < y->id; });
  v.erase(std::unique(v.begin(), v.end()), v.end());
  std::unordered_set<E> in(v.begin(), v.end());
  for (auto x : v) if (x->k == KNot && in.count(x->ops[0])) return mkBool(k == KOr);
  for (auto x : v) if ((x->k == KRLt0 || x->k == KRLe0) && in.count(bnot(x))) return mkBool(k == KOr);
  // absorption: or(c, and(!c, x)) -> or(c, x); and dually
  Kind d = k == KOr ? KAnd : KOr;
  bool changed = false; std::vector<E> o;
  for (auto x : v) {
    if (x->k == d) {
      std::vector<E> keep; bool absorbed = false;
      for (auto y : x->ops) { if (in.count(y)) { absorbed = true; break; } if (!in.count(bnot(y))) keep.push_back(y); }
      if (absorbed) { changed = true; continue; }
      if (keep.size() != x->ops.size()) {
        changed = true;
        if (keep.empty()) return mkBool(k == KOr); // whole inner term is neutral for d => (d-neutral) dominates k
        E r = keep[0]; for (size_t i = 1; i < keep.size(); i++) r = d == KAnd ? band(r, keep[i]) : bor(r, keep[i]);
        o.push_back(r); continue;
      }
    }
    o.push_back(x);
  }
  if (changed) {
    if (o.empty()) return mkBool(k != KOr);
    E r = o[0]; for (size_t i = 1; i < o.size(); i++) r = k == KOr ? bor(r, o[i]) : band(r, o[i]);
    return r;
  }
  if (v.size() == 1) return v[0];
  // or of two conjunctions sharing all but a complementary literal: (p&x)|(p&!x) -> p
  if (v.size() == 2 && v[0]->k == d && v[1]->k == d) {
    std::vector<E> common, ra, rb;
    std::unordered_set<E> sb(v[1]->ops.begin(), v[1]->ops.end()), sa(v[0]->ops.begin(), v[0]->ops.end());
    for (auto x : v[0]->ops) if (sb.count(x)) common.push_back(x); else ra.push_back(x);
    for (auto x : v[1]->ops) if (!sa.count(x)) rb.push_back(x);
    if (ra.size() == 1 && rb.size() == 1 && bnot(ra[0]) == rb[0] && !common.empty()) {
      E r = common[0]; for (size_t i = 1; i < common.size(); i++) r = d == KAnd ? band(r, common[i]) : bor(r, common[i]);
      return r;
    }
  }
  return N(k, BV, 1, v);
}
E band(E a, E b) {
  if (a->isConst() && b->isConst()) return bv(a->w, a->c & b->c);
  if (b->isConst()) std::swap(a, b);
  if (a->isConst()) {
    if (a->c == 0) return a;
    if (a->c == maskw(a->w)) return b;
    if ((a->c & (a->c + 1)) == 0) { unsigned n = __builtin_popcountll(a->c); if (b->uhi <= a->c) return b; if (n > 1 || true) { if (n >= 2) return zext(trunc(b, n), b->w); } }
    if (smallIte(b)) return mapIte(b, [&](E x) { return band(a, x); });
  }
  if (a == b) return a;
  if (a->w == 1) return nary(KAnd, a, b);
  if (a->k == KIte && b->k == KIte && a->iteConst && b->iteConst && a->iteConst * b->iteConst <= 16) return mapIte(a, [&](E x) { return mapIte(b, [&](E y) { return band(x, y); }); });
  if (a->id > b->id) std::swap(a, b);
  return N(KAnd, BV, a->w, {a, b});
}
E bor(E a, E b) {
  if (a->isConst() && b->isConst()) return bv(a->w, a->c | b->c);
  if (b->isConst()) std::swap(a, b);
  if (a->isConst()) { if (a->c == 0) return b; if (a->c == maskw(a->w)) return a; if (smallIte(b)) return mapIte(b, [&](E x) { return bor(a, x); }); }
  if (a == b) return a;
  if (a->w == 1) return nary(KOr, a, b);
  if (a->k == KIte && b->k == KIte && a->iteConst && b->iteConst && a->iteConst * b->iteConst <= 16) return mapIte(a, [&](E x) { return mapIte(b, [&](E y) { return bor(x, y); }); });
  if (a->id > b->id) std::swap(a, b);
  return N(KOr, BV, a->w, {a, b});
}
E bxor(E a, E b) {
  if (a->isConst() && b->isConst()) return bv(a->w, a->c ^ b->c);
  if (b->isConst()) std::swap(a, b);
  if (a->isConst()) { if (a->c == 0) return b; if (a->c == maskw(a->w)) return bnot(b); }
  if (a == b) return bv(a->w, 0);
  if (a->w == 1) { if (a->k == KNot) return bnot(bxor(a->ops[0], b)); if (b->k == KNot) return bnot(bxor(a, b->ops[0])); return bnot(eq(a, b)); }
  if (a->id > b->id) std::swap(a, b);
  return N(KXor, BV, a->w, {a, b});
}
static E rcmp(Kind k, E d);
E bnot(E a) {
  if (a->isConst()) return bv(a->w, ~a->c);
  if (a->k == KNot) return a->ops[0];
  if (a->w > 1) return sub(bv(a->w, ~0ull), a); // ~a = -1 - a
  if (a->k == KRLt0) return rcmp(KRLe0, fneg(a->ops[0]));
  if (a->k == KRLe0) return rcmp(KRLt0, fneg(a->ops[0]));
  return N(KNot, BV, a->w, {a});
}
static bool region(E p, u64& base) { // pointer-like value: constant part selects an object
  u64 c; if (p->isConst()) c = p->c; else if (p->k == KPoly) c = p->c; else return false;
  base = (c + (1ull << 31)) & ~0xffffffffull; return base != 0 && base < (1ull << 60);
}
E ite(E c, E a, E b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == KNot) return ite(c->ops[0], b, a);
  if (a->s == BV && a->w == 1) {
    if (a->isConst() && b->isConst()) return a->c ? c : bnot(c);
    if (a->isConst()) return a->c ? bor(c, b) : band(bnot(c), b);
    if (b->isConst()) return b->c ? bor(bnot(c), a) : band(c, a);
    if (a == c) return bor(c, b);
    if (b == c) return band(c, a);
  }
  if (a->k == KIte && a->ops[0] == c) a = a->ops[1];
  if (b->k == KIte && b->ops[0] == c) b = b->ops[2];
  if (a == b) return a;
  if (b->k == KIte && b->ops[1] == a) return ite(bor(c, b->ops[0]), a, b->ops[2]);
  if (a->k == KIte && a->ops[2] == b) return ite(band(c, a->ops[0]), a->ops[1], b);
  if (a->s == BV && a->w == 64) {
    u64 ra, rb;
    if (region(a, ra) && region(b, rb) && ra == rb) { E k = bv(64, ra); return add(k, N(KIte, BV, 64, {c, sub(a, k), sub(b, k)})); }
  }
  return N(KIte, a->s, a->w, {c, a, b});
}

// ---------------------------------------------------------------- comparisons
static E rcmp(Kind k, E d); static E radd(E a, E b); static E rscale(E a, const mpq_class& k);
// exact real value of a signed bit-vector made from converted reals, or null
static bool hasR2I(E a) { if (a->k == KRealToInt) return true; if (a->k == KSExt || a->k == KZExt) return hasR2I(a->ops[0]); if (a->k == KPoly && a->s == BV) for (auto o : a->ops) if (hasR2I(o)) return true; return false; }
static E exactReal(E a) {
  if (a->isConst()) return realc(mpq_class((long)sx(a->c, a->w)));
  if (a->k == KRealToInt) return a->c ? a->ops[0] : nullptr;
  if (a->k == KSExt) return exactReal(a->ops[0]);
  if (a->k == KZExt && a->ops[0]->slo >= 0) return exactReal(a->ops[0]);
  if (a->k == KPoly) { i128 lo, hi; if (!polyRange(a, false, lo, hi) || lo < sminw(a->w) || hi > smaxw(a->w)) return nullptr; E r = realc(mpq_class((long)sx(a->c, a->w))); for (size_t i = 0; i < a->ops.size(); i++) { E o = exactReal(a->ops[i]); if (!o) return nullptr; r = radd(r, rscale(o, mpq_class((long)sx(a->coef[i], a->w)))); } return r; }
  if (a->k == KIte) { E x = exactReal(a->ops[1]); if (!x) return nullptr; E y = exactReal(a->ops[2]); return y ? ite(a->ops[0], x, y) : nullptr; }
  return nullptr;
}
E eq(E a, E b) {
  if (a == b) return mkBool(true);
  if (a->isConst() && b->isConst()) return mkBool(a->c == b->c);
  if (a->w > 1 && (hasR2I(a) || hasR2I(b))) { E x = exactReal(a), y = x ? exactReal(b) : nullptr; if (y) return rcmp(KREq0, radd(x, rscale(y, -1))); }
  if (b->isConst()) std::swap(a, b); // const first
  if (a->w == 1) {
    if (a->isConst()) return a->c ? b : bnot(b);
    if (bnot(a) == b) return mkBool(false);
    if (a->k == KNot && b->k == KNot) return eq(a->ops[0], b->ops[0]);
    if (a->id > b->id) std::swap(a, b);
    return N(KEq, BV, 1, {a, b});
  }
  if (a->ulo > b->uhi || b->ulo > a->uhi || a->slo > b->shi || b->slo > a->shi) return mkBool(false);
  if (a->isConst()) {
    if (b->k == KIte && b->iteConst && b->iteConst <= 400) return mapIte(b, [&](E x) { return eq(a, x); });
    if (b->k == KIte && (b->ops[1]->isConst() || b->ops[2]->isConst())) return ite(b->ops[0], eq(a, b->ops[1]), eq(a, b->ops[2]));
    if (b->k == KZExt) { if (a->c > maskw(b->ops[0]->w)) return mkBool(false); return eq(bv(b->ops[0]->w, a->c), b->ops[0]); }
    if (b->k == KSExt) { if ((i64)sx(a->c, a->w) != sx(a->c, b->ops[0]->w)) return mkBool(false); return eq(bv(b->ops[0]->w, a->c), b->ops[0]); }
  }
  if (a->k == KZExt && b->k == KZExt && a->ops[0]->w == b->ops[0]->w) return eq(a->ops[0], b->ops[0]);
  if (a->k == KSExt && b->k == KSExt && a->ops[0]->w == b->ops[0]->w) return eq(a->ops[0], b->ops[0]);
  if (smallIte(a) && smallIte(b) && a->iteConst * b->iteConst <= 64) return mapIte(a, [&](E x) { return mapIte(b, [&](E y) { return eq(x, y); }); });
  E d = sub(a, b);
  if (d->isConst()) return mkBool(d->c == 0);
  if (d->ulo > 0) return mkBool(false);
  if (d->k == KPoly && (a->k == KPoly || b->k == KPoly)) { // canonical: poly == const
    u64 c = d->c; Lin l = toLin(d); l.c = 0; E lhs = fromLin(l, d->w); E rhs = bv(d->w, (u64)0 - c);
    if (lhs->k == KPoly && lhs->coef.size() && (lhs->coef[0] >> (d->w - 1)) ) { lhs = neg(lhs); rhs = neg(rhs); }
    if (lhs->k == KZExt || lhs->k == KSExt || lhs->k == KIte) return eq(rhs, lhs);
    if (rhs->ulo > lhs->uhi || lhs->ulo > rhs->uhi) return mkBool(false);
    if (lhs->k == KPoly && lhs->ops.size() == 1 && lhs->c == 0 && sx(lhs->coef[0], d->w) > 1 && (i128)lhs->coef[0] * lhs->ops[0]->uhi <= (i128)maskw(d->w)) { u64 k = lhs->coef[0]; return rhs->c % k ? mkBool(false) : eq(bv(d->w, rhs->c / k), lhs->ops[0]); }
    return N(KEq, BV, 1, {rhs, lhs});
  }
  if (!a->isConst() && a->id > b->id) std::swap(a, b);
  return N(KEq, BV, 1, {a, b});
}
E ult(E a, E b) {
  if (a == b) return mkBool(false);
  if (a->isConst() && b->isConst()) return mkBool(a->c < b->c);
  if (a->w == 1) return band(bnot(a), b);
  if (a->uhi < b->ulo) return mkBool(true);
  if (a->ulo >= b->uhi) return mkBool(false);
  if (a->isConst() && smallIte(b)) return mapIte(b, [&](E x) { return ult(a, x); });
  if (b->isConst() && smallIte(a)) return mapIte(a, [&](E x) { return ult(x, b); });
  if (a->k == KZExt && b->k == KZExt && a->ops[0]->w == b->ops[0]->w) return ult(a->ops[0], b->ops[0]);
  if (a->isConst() && b->k == KZExt && a->c <= maskw(b->ops[0]->w)) return ult(bv(b->ops[0]->w, a->c), b->ops[0]);
  if (b->isConst() && a->k == KZExt && b->c <= maskw(a->ops[0]->w)) return ult(a->ops[0], bv(a->ops[0]->w, b->c));
  if (b->isConst() && b->c == 1) return eq(a, bv(a->w, 0));
  if (a->isConst() && a->c == 0) return bnot(eq(b, a));
  return N(KUlt, BV, 1, {a, b});
}
E slt(E a, E b) {
  if (a == b) return mkBool(false);
  if (a->isConst() && b->isConst()) return mkBool(sx(a->c, a->w) < sx(b->c, b->w));
  if (a->w > 1 && (hasR2I(a) || hasR2I(b))) { E x = exactReal(a), y = x ? exactReal(b) : nullptr; if (y) return rcmp(KRLt0, radd(x, rscale(y, -1))); }
  if (a->shi < b->slo) return mkBool(true);
  if (a->slo >= b->shi) return mkBool(false);
  if (a->w == 1) return band(a, bnot(b));
  if (a->slo >= 0 && b->slo >= 0) return ult(a, b);
  if (a->isConst() && smallIte(b)) return mapIte(b, [&](E x) { return slt(a, x); });
  if (b->isConst() && smallIte(a)) return mapIte(a, [&](E x) { return slt(x, b); });
  if (a->k == KSExt && b->k == KSExt && a->ops[0]->w == b->ops[0]->w) return slt(a->ops[0], b->ops[0]);
  if (a->isConst() && b->k == KSExt) { i64 v = sx(a->c, a->w); unsigned w = b->ops[0]->w; if (v >= sminw(w) && v <= smaxw(w)) return slt(bv(w, (u64)v), b->ops[0]); }
  if (b->isConst() && a->k == KSExt) { i64 v = sx(b->c, b->w); unsigned w = a->ops[0]->w; if (v >= sminw(w) && v <= smaxw(w)) return slt(a->ops[0], bv(w, (u64)v)); }
  return N(KSlt, BV, 1, {a, b});
}

// ---------------------------------------------------------------- real polynomials
struct RLin { mpq_class c = 0; std::vector<std::pair<E, mpq_class>> t; };
static RLin toR(E a) {
  RLin l;
  if (a->isConst()) l.c = a->rc;
  else if (a->k == KPoly) { l.c = a->rc; for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({a->ops[i], a->rcoef[i]}); }
  else l.t.push_back({a, 1});
  return l;
}
static E fromR(RLin& l) {
  std::sort(l.t.begin(), l.t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  Node t = T(KPoly, REAL, 0); t.rc = l.c;
  for (size_t i = 0; i < l.t.size();) {
    mpq_class c = 0; E m = l.t[i].first;
    for (; i < l.t.size() && l.t[i].first == m; i++) c += l.t[i].second;
    if (c != 0) { if (m->isConst()) t.rc += c * m->rc; else { t.ops.push_back(m); t.rcoef.push_back(c); } }
  }
  if (t.ops.empty()) return realc(t.rc);
  if (t.ops.size() == 1 && t.rcoef[0] == 1 && t.rc == 0) return t.ops[0];
  return intern(t);
}
static E rscale(E a, const mpq_class& k) { RLin l = toR(a); l.c *= k; for (auto& p : l.t) p.second *= k; return fromR(l); }
static E radd(E a, E b) { RLin l = toR(a), r = toR(b); l.c += r.c; l.t.insert(l.t.end(), r.t.begin(), r.t.end()); return fromR(l); }
static E rmul(E a, E b) {
  if (a->isConst()) return rscale(b, a->rc);
  if (b->isConst()) return rscale(a, b->rc);
  RLin l = toR(a), r = toR(b);
  if ((l.t.size() + 1) * (r.t.size() + 1) > 4096) return mkMono({a, b}, REAL, 0);
  RLin o; o.c = l.c * r.c;
  if (l.c != 0) for (auto& p : r.t) o.t.push_back({p.first, p.second * l.c});
  if (r.c != 0) for (auto& p : l.t) o.t.push_back({p.first, p.second * r.c});
  for (auto& p : l.t) for (auto& q : r.t) { std::vector<E> at; atomsOf(p.first, at); atomsOf(q.first, at); o.t.push_back({mkMono(at, REAL, 0), p.second * q.second}); }
  return fromR(o);
}
static E divMono(E d, const std::vector<E>& com) { // every monomial of d contains the factors com
  RLin l; l.c = 0; RLin r = toR(d);
  for (auto& p : r.t) { std::vector<E> at; atomsOf(p.first, at); for (E a : com) at.erase(std::find(at.begin(), at.end(), a)); l.t.push_back({at.empty() ? realc(1) : mkMono(at, REAL, 0), p.second}); }
  return fromR(l);
}
static E rinv(E b) {
  if (b->isConst()) { if (b->rc == 0) return rfun("divzero", {}); return realc(1 / b->rc); }
  if (b->k == KRInv) return b->ops[0];
  if (b->k == KPoly) { mpq_class k = b->rcoef[0]; if (k != 1) return rscale(rinv(rscale(b, 1 / k)), 1 / k); }
  if (b->k == KPoly && b->rc == 0 && b->ops.size() > 1) { // common factors
    std::vector<E> com; atomsOf(b->ops[0], com);
    for (size_t i = 1; i < b->ops.size() && !com.empty(); i++) { std::vector<E> at, c2; atomsOf(b->ops[i], at); for (E a : com) { auto it = std::find(at.begin(), at.end(), a); if (it != at.end()) { c2.push_back(a); at.erase(it); } } com = c2; }
    if (!com.empty()) { E m = mkMono(com, REAL, 0), q = divMono(b, com); return rmul(rinv(m), rinv(q)); }
  }
  if (b->k == KMono) { E r = realc(1); for (auto o : b->ops) r = rmul(r, rinv(o)); return r; }
  return N(KRInv, REAL, 0, {b});
}
static E rcmp(Kind k, E d);
static E rcmpFlip(Kind k, E d, bool flip) { return rcmp(k, flip ? rscale(d, -1) : d); }
// sign of d: d < 0, d <= 0, d == 0
static E rcmp(Kind k, E d) {
  if (d->isConst()) { int s = sgn(d->rc); return mkBool(k == KREq0 ? s == 0 : k == KRLt0 ? s < 0 : s <= 0); }
  if (k == KRLt0) { if (!(d->sg & 1)) return mkBool(false); if (d->sg == 1) return mkBool(true); }
  if (k == KRLe0) { if (d->sg == 4) return mkBool(false); if (!(d->sg & 4)) return mkBool(true); }
  if (k == KREq0) { if (!(d->sg & 2)) return mkBool(false); }
  if (d->k == KIte && d->iteConst) return ite(d->ops[0], rcmp(k, d->ops[1]), rcmp(k, d->ops[2]));
  if (d->k == KPoly || d->k == KMono) {
    RLin l = toR(d);
    // clear denominators of known sign
    E den = nullptr;
    for (auto& p : l.t) { std::vector<E> at; atomsOf(p.first, at); for (E a : at) if (a->k == KRInv && (a->ops[0]->sg == 4 || a->ops[0]->sg == 1) && (!den || a->id > den->id)) den = a; }
    if (den && (den->ops[0]->k != KPoly || den->ops[0]->ops.size() * l.t.size() <= 2000)) {
      E P = den->ops[0]; E o = l.c != 0 ? rscale(P, l.c) : realc(0);
      std::vector<E> parts; RLin keep;
      for (auto& p : l.t) { std::vector<E> at; atomsOf(p.first, at); auto it = std::find(at.begin(), at.end(), den); if (it != at.end()) { at.erase(it); keep.t.push_back({at.empty() ? realc(1) : mkMono(at, REAL, 0), p.second}); } else o = radd(o, rscale(rmul(p.first, P), p.second)); }
      o = radd(o, fromR(keep));
      return rcmpFlip(k, o, P->sg == 1);
    }
    // drop common factors of known sign
    if (l.c == 0) {
      std::vector<E> com; bool first = true;
      for (auto& p : l.t) { std::vector<E> at; atomsOf(p.first, at); if (first) { com = at; first = false; continue; } std::vector<E> c2; for (E a : com) { auto it = std::find(at.begin(), at.end(), a); if (it != at.end()) { c2.push_back(a); at.erase(it); } } com = c2; }
      std::vector<E> strict; bool flip = false; for (E a : com) if (a->sg == 4 || a->sg == 1) { strict.push_back(a); if (a->sg == 1) flip = !flip; }
      if (!strict.empty()) return rcmpFlip(k, divMono(d, strict), flip);
      // exp(a) against exp(b)
      if (l.t.size() == 2 && l.t[0].second == -l.t[1].second && l.t[0].first->k == KRFun && l.t[1].first->k == KRFun && l.t[0].first->name == "exp" && l.t[1].first->name == "exp")
        return rcmpFlip(k, radd(l.t[0].first->ops[0], rscale(l.t[1].first->ops[0], -1)), l.t[0].second < 0);
    }
  }
  if (d->k == KPoly) { mpq_class q = abs(d->rcoef[0]); if (k == KREq0) q = d->rcoef[0]; if (q != 1) d = rscale(d, 1 / q); }
  return N(k, BV, 1, {d});
}
E rfun(const std::string& name, const std::vector<E>& args) { Node t = T(KRFun, REAL, 0, args); t.name = name; return intern(t); }

// ---------------------------------------------------------------- floats
// exact integer view of an IEEE value: e = sitofp(i64 expr) with |i| <= 2^24 (f32) / 2^53 (f64)
static i64 exactLim(Sort s) { return s == F32S ? (1 << 24) : (1ll << 53); }
static E asInt(E e) { // returns 64-bit signed integer expr or null.  (+0/-0: integral constants -0.0 excluded)
  if (e->isConst()) { double d = fval(e); if (std::isnan(d) || std::isinf(d) || d != std::trunc(d) || std::fabs(d) > (double)exactLim(e->s)) return nullptr; if (d == 0 && std::signbit(d)) return nullptr; return bv(64, (u64)(i64)d); }
  if (e->k == KSIToFP) { E a = e->ops[0]; if (a->slo < -exactLim(e->s) || a->shi > exactLim(e->s)) return nullptr; return sext(a, 64); }
  if (e->k == KUIToFP) { E a = e->ops[0]; if (a->uhi > (u64)exactLim(e->s)) return nullptr; return zext(a, 64); }
  if (e->k == KIte) { E x = asInt(e->ops[1]); if (!x) return nullptr; E y = asInt(e->ops[2]); if (!y) return nullptr; return ite(e->ops[0], x, y); }
  return nullptr;
}
static E fromInt(E i, Sort s) { // i 64 bit, in exact range
  if (i->isConst()) return fpc(s, (double)(i64)i->c);
  return N(KSIToFP, s, fw(s), {i});
}
static bool inLim(E i, Sort s) { return i->slo >= -exactLim(s) && i->shi <= exactLim(s); }
static bool smallF(E a) { return a->k == KIte && a->iteConst && a->iteConst <= 300; }
static E fbin(Kind k, E a, E b) {
  Sort s = a->s;
  if (a->isConst() && b->isConst()) {
    if (s == F32S) { float x = (float)fval(a), y = (float)fval(b), r = 0; switch (k) { case KFAdd: r = x + y; break; case KFSub: r = x - y; break; case KFMul: r = x * y; break; case KFDiv: r = x / y; break; default: r = fmodf(x, y); } return f32c(r); }
    double x = fval(a), y = fval(b), r = 0; switch (k) { case KFAdd: r = x + y; break; case KFSub: r = x - y; break; case KFMul: r = x * y; break; case KFDiv: r = x / y; break; default: r = fmod(x, y); } return f64c(r);
  }
  if (smallF(a) && b->isConst()) return mapIte(a, [&](E x) { return fbin(k, x, b); });
  if (smallF(b) && a->isConst()) return mapIte(b, [&](E x) { return fbin(k, a, x); });
  if (k == KFMul && b->isConst() && fval(b) == 1.0) return a;
  if (k == KFMul && a->isConst() && fval(a) == 1.0) return b;
  if (k == KFDiv && b->isConst() && fval(b) == 1.0) return a;
  if (k == KFSub && b->isConst() && b->c == 0) return a;           // x - (+0) = x
  if (k == KFAdd || k == KFSub || k == KFMul) {
    E x = asInt(a), y = x ? asInt(b) : nullptr;
    if (x && y) {
      // signed zero: int 0 is +0; 0 - 0 = +0, 0 + 0 = +0; product with a negative and zero is -0 => require sign knowledge
      E r = k == KFAdd ? add(x, y) : k == KFSub ? sub(x, y) : mul(x, y);
      bool ok = inLim(r, s);
      if (k == KFMul && ok) { bool xz = x->slo <= 0 && x->shi >= 0, yz = y->slo <= 0 && y->shi >= 0; if ((xz && y->slo < 0) || (yz && x->slo < 0)) ok = false; }
      if (ok) return fromInt(r, s);
    }
  }
  // division by a power of two is multiplication by its reciprocal
  if (k == KFDiv && b->isConst()) { double d = fval(b); int ex; if (d != 0 && std::fabs(std::frexp(d, &ex)) == 0.5 && std::abs(ex) < 60) return fbin(KFMul, a, fpc(s, 1.0 / d)); }
  if ((k == KFAdd || k == KFMul) && a->id > b->id) std::swap(a, b);
  return N(k, s, fw(s), {a, b});
}
E fadd(E a, E b) { if (a->s == REAL) return radd(a, b); return fbin(KFAdd, a, b); }
E fsub(E a, E b) { if (a->s == REAL) return radd(a, rscale(b, -1)); return fbin(KFSub, a, b); }
E fmul(E a, E b) { if (a->s == REAL) return rmul(a, b); return fbin(KFMul, a, b); }
E fdiv(E a, E b) { if (a->s == REAL) return rmul(a, rinv(b)); return fbin(KFDiv, a, b); }
E frem_(E a, E b) { if (a->s == REAL) return rfun("fmod", {a, b}); return fbin(KFRem, a, b); }
E fneg(E a) { if (a->s == REAL) return rscale(a, -1); if (a->isConst()) return fpBits(a->s, a->c ^ (1ull << (a->w - 1))); if (a->k == KFNeg) return a->ops[0];
  if (E x = asInt(a)) if (x->slo > 0 || x->shi < 0) return fromInt(neg(x), a->s);
  return N(KFNeg, a->s, a->w, {a}); }
E fabs_(E a) {
  if (a->s == REAL) { if (a->isConst()) return realc(abs(a->rc)); return ite(flt(a, realc(0)), fneg(a), a); }
  if (a->isConst()) return fpBits(a->s, a->c & ~(1ull << (a->w - 1)));
  if (E x = asInt(a)) if (x->slo > -exactLim(a->s)) return fromInt(ite(slt(x, bv(64, 0)), neg(x), x), a->s);
  if (!a->mayNan && a->flo > 0) return a;
  return N(KFAbs, a->s, a->w, {a}); }
E fsqrt_(E a) {
  if (a->s == REAL) return rfun("sqrt", {a});
  if (a->isConst()) return a->s == F32S ? f32c(sqrtf((float)fval(a))) : f64c(std::sqrt(fval(a)));
  return N(KFSqrt, a->s, a->w, {a}); }
static bool isIntegral(E a) {
  if (a->isConst()) return a->rc.get_den() == 1;
  if (a->k == KIntToReal || a->k == KUIntToReal) return true;
  if (a->k == KRFun) return a->name == "floor";
  if (a->k == KIte) return isIntegral(a->ops[1]) && isIntegral(a->ops[2]);
  if (a->k == KPoly) { if (a->rc.get_den() != 1) return false; for (size_t i = 0; i < a->ops.size(); i++) if (a->rcoef[i].get_den() != 1 || !isIntegral(a->ops[i])) return false; return true; }
  if (a->k == KMono) { for (auto o : a->ops) if (!isIntegral(o)) return false; return true; }
  return false;
}
static E rnearest(E a) { mpq_class v = a->rc + mpq_class(1, 2); mpz_class q; mpz_fdiv_q(q.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); if (mpq_class(q) == v && (q % 2) != 0) q -= 1; return realc(mpq_class(q)); }
E rtrunc(E a) { return fround_(a, 2); }
E fround_(E a, int m) {
  if (a->s == REAL) {
    if (m == 4 && !isIntegral(a)) return a->isConst() ? rnearest(a) : rfun("rint", {a});
    if (a->isConst() || isIntegral(a)) { if (!a->isConst()) return a; mpz_class q; mpq_class v = a->rc; if (m == 3) { v += mpq_class(sgn(v) < 0 ? -1 : 1, 2); m = 2; } if (m == 0) mpz_fdiv_q(q.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); else if (m == 1) mpz_cdiv_q(q.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); else mpz_tdiv_q(q.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); return realc(mpq_class(q)); }
    if (a->k == KIte) return ite(a->ops[0], fround_(a->ops[1], m), fround_(a->ops[2], m));
    if (m == 1) return rscale(fround_(rscale(a, -1), 0), -1);
    if (m == 2) { if (!(a->sg & 1)) return fround_(a, 0); if (!(a->sg & 4)) return fround_(a, 1); return ite(rcmp(KRLt0, a), fround_(a, 1), fround_(a, 0)); }
    if (m == 3) { E h = realc(mpq_class(1, 2)); if (!(a->sg & 1)) return fround_(radd(a, h), 0); if (!(a->sg & 4)) return fround_(radd(a, rscale(h, -1)), 1); return ite(rcmp(KRLt0, a), fround_(radd(a, rscale(h, -1)), 1), fround_(radd(a, h), 0)); }
    // floor: integral terms move out
    RLin l = toR(a), in, out; mpz_class q; mpz_fdiv_q(q.get_mpz_t(), l.c.get_num_mpz_t(), l.c.get_den_mpz_t()); out.c = mpq_class(q); in.c = l.c - out.c;
    for (auto& p : l.t) if (p.second.get_den() == 1 && isIntegral(p.first)) out.t.push_back(p); else in.t.push_back(p);
    if (in.t.empty()) return fromR(out);
    return radd(fromR(out), rfun("floor", {fromR(in)}));
  }
  if (a->isConst()) { double d = fval(a); double r = m == 0 ? std::floor(d) : m == 1 ? std::ceil(d) : m == 2 ? std::trunc(d) : m == 3 ? std::round(d) : std::nearbyint(d); return fpc(a->s, r); }
  if (asInt(a)) return a;
  return N(KFRound, a->s, a->w, {a}, (u64)m); }
static E fcmp(Kind k, E a, E b) {
  if (a->isConst() && b->isConst()) { double x = fval(a), y = fval(b); return mkBool(k == KFEq ? x == y : k == KFLt ? x < y : x <= y); }
  if (!a->mayNan && !b->mayNan) {
    if (k == KFLt) { if (a->fhi < b->flo) return mkBool(true); if (a->flo >= b->fhi) return mkBool(false); if (a == b) return mkBool(false); }
    if (k == KFLe) { if (a->fhi <= b->flo) return mkBool(true); if (a->flo > b->fhi) return mkBool(false); if (a == b) return mkBool(true); }
    if (k == KFEq) { if (a->fhi < b->flo || b->fhi < a->flo) return mkBool(false); if (a == b) return mkBool(true); }
    // canonical: le(a,b) = not lt(b,a)
    if (k == KFLe) return bnot(fcmp(KFLt, b, a));
  }
  if (smallF(a) && b->isConst()) return mapIte(a, [&](E x) { return fcmp(k, x, b); });
  if (smallF(b) && a->isConst()) return mapIte(b, [&](E x) { return fcmp(k, a, x); });
  E x = asInt(a), y = asInt(b);
  if (x && y) return k == KFEq ? eq(x, y) : k == KFLt ? slt(x, y) : sle(x, y);
  // integer against non-integer constant
  if (x && b->isConst()) { double d = fval(b); if (std::isfinite(d) && std::fabs(d) < 1e15 && !(d == 0)) { if (k == KFEq) return d == std::floor(d) ? eq(x, bv(64, (u64)(i64)d)) : mkBool(false); if (k == KFLt) return slt(x, bv(64, (u64)(i64)std::ceil(d))); return sle(x, bv(64, (u64)(i64)std::floor(d))); } if (d == 0) return k == KFEq ? eq(x, bv(64, 0)) : k == KFLt ? slt(x, bv(64, 0)) : sle(x, bv(64, 0)); }
  if (y && a->isConst()) { double d = fval(a); if (std::isfinite(d) && std::fabs(d) < 1e15) { if (k == KFEq) return d == std::floor(d) ? eq(y, bv(64, (u64)(i64)d)) : mkBool(false); if (k == KFLt) return slt(bv(64, (u64)(i64)std::floor(d)), y); return sle(bv(64, (u64)(i64)std::ceil(d)), y); } }
  // comparing exactly widened floats
  if (a->k == KFPExt && b->k == KFPExt) return fcmp(k, a->ops[0], b->ops[0]);
  if (k == KFEq && a->id > b->id) std::swap(a, b);
  return N(k, BV, 1, {a, b});
}
E feq(E a, E b) { if (a->s == REAL) return rcmp(KREq0, radd(a, rscale(b, -1))); return fcmp(KFEq, a, b); }
E flt(E a, E b) { if (a->s == REAL) return rcmp(KRLt0, radd(a, rscale(b, -1))); return fcmp(KFLt, a, b); }
E fle(E a, E b) { if (a->s == REAL) return rcmp(KRLe0, radd(a, rscale(b, -1))); return fcmp(KFLe, a, b); }
E fisnan(E a) { if (a->s == REAL || !a->mayNan) return mkBool(false); if (a->isConst()) return mkBool(std::isnan(fval(a))); return N(KFNan, BV, 1, {a}); }
E fisinf(E a) { if (a->s == REAL) return mkBool(false); if (a->isConst()) return mkBool(std::isinf(fval(a))); if (!a->mayNan && std::isfinite(a->flo) && std::isfinite(a->fhi)) return mkBool(false); return N(KFInf, BV, 1, {a}); }
E fpext(E a, Sort s) {
  if (a->s == REAL || a->s == s) return a;
  if (a->isConst()) return f64c(fval(a));
  if (E x = asInt(a)) return fromInt(x, s);
  if (smallF(a)) return mapIte(a, [&](E x) { return fpext(x, s); });
  return N(KFPExt, s, fw(s), {a});
}
E fptrunc(E a, Sort s) {
  if (a->s == REAL || a->s == s) return a;
  if (a->isConst()) return f32c((float)fval(a));
  if (a->k == KFPExt) return a->ops[0];
  if (E x = asInt(a)) if (inLim(x, s)) return fromInt(x, s);
  if (smallF(a)) return mapIte(a, [&](E x) { return fptrunc(x, s); });
  return N(KFPTrunc, s, fw(s), {a});
}
E sitofp(E a, Sort s) {
  if (s == REAL) { if (a->isConst()) return realc(mpq_class((long)sx(a->c, a->w)));
    if (a->k == KRealToInt && a->c) return a->ops[0];
    if (a->k == KPoly) { i128 lo, hi; if (polyRange(a, false, lo, hi) && lo >= sminw(a->w) && hi <= smaxw(a->w)) { RLin l; l.c = (long)sx(a->c, a->w); for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({sitofp(a->ops[i], s), mpq_class((long)sx(a->coef[i], a->w))}); return fromR(l); } }
    if (a->k == KIte) return ite(a->ops[0], sitofp(a->ops[1], s), sitofp(a->ops[2], s));
    if (a->slo >= 0) return uitofp(a, s);
    if (a->k == KSExt) return sitofp(a->ops[0], s);
    return N(KIntToReal, REAL, 0, {a}); }
  if (a->isConst()) return s == F32S ? f32c((float)sx(a->c, a->w)) : f64c((double)sx(a->c, a->w));
  if (a->slo >= -exactLim(s) && a->shi <= exactLim(s)) return fromInt(sext(a, 64), s);
  return N(KSIToFP, s, fw(s), {a});
}
E uitofp(E a, Sort s) {
  if (s == REAL) { if (a->isConst()) return realc(mpq_class((unsigned long)a->c));
    if (a->k == KZExt) return uitofp(a->ops[0], s);
    if (a->k == KPoly) { i128 lo, hi; if (polyRange(a, true, lo, hi) && lo >= 0 && hi <= (i128)maskw(a->w)) { RLin l; l.c = (long)sx(a->c, a->w); for (size_t i = 0; i < a->ops.size(); i++) l.t.push_back({uitofp(a->ops[i], s), mpq_class((long)sx(a->coef[i], a->w))}); return fromR(l); } }
    if (a->k == KIte) return ite(a->ops[0], uitofp(a->ops[1], s), uitofp(a->ops[2], s));
    if (a->k == KRealToInt && a->c && !(a->ops[0]->sg & 1)) return a->ops[0];
    return N(KUIntToReal, REAL, 0, {a}); }
  if (a->isConst()) return s == F32S ? f32c((float)a->c) : f64c((double)a->c);
  if (a->uhi <= (u64)exactLim(s)) return fromInt(zext(a, 64), s);
  return N(KUIToFP, s, fw(s), {a});
}
E fptosi(E a, unsigned w, bool inRange) {
  if (a->s == REAL) { if (a->isConst()) { mpz_class q; mpz_tdiv_q(q.get_mpz_t(), a->rc.get_num_mpz_t(), a->rc.get_den_mpz_t()); return bv(w, (u64)q.get_si()); }
    E t = rtrunc(a); if (t->isConst()) return fptosi(t, w);
    if (t->k == KIte) return ite(t->ops[0], fptosi(t->ops[1], w, inRange), fptosi(t->ops[2], w, inRange));
    if (t->k == KIntToReal && t->ops[0]->w <= w) return sext(t->ops[0], w); if (t->k == KUIntToReal && t->ops[0]->w < w) return zext(t->ops[0], w);
    return N(KRealToInt, BV, w, {t}, inRange || (t->flo >= (double)sminw(w) && t->fhi <= (double)smaxw(w) - (w == 64 ? 2048 : 0))); }
  if (a->isConst()) { double d = fval(a); i64 r; if (std::isnan(d) || d >= 9.2233720368547758e18 || d < -9.2233720368547758e18) r = INT64_MIN; else r = (i64)d;
    if (w <= 32 && (r > INT32_MAX || r < INT32_MIN)) r = INT32_MIN; return bv(w, (u64)r); }
  if (E x = asInt(a)) { if (x->slo >= sminw(w) && x->shi <= smaxw(w)) return trunc(x, w); }
  if (smallF(a)) return mapIte(a, [&](E x) { return fptosi(x, w); });
  return N(KFPToSI, BV, w, {a});
}
E fptoui(E a, unsigned w, bool inRange) {
  if (a->s == REAL) return fptosi(a, w, inRange && !(a->sg & 1) && a->fhi <= (double)smaxw(w));
  if (a->isConst()) { double d = fval(a); if (d > -1 && d < 1.8446744073709552e19) return bv(w, (u64)d); if (w <= 32) { i64 r = (std::isnan(d) || std::fabs(d) >= 9.2e18) ? INT64_MIN : (i64)d; return bv(w, (u64)r); } return bv(w, 1ull << 63); }
  if (E x = asInt(a)) { if (x->slo >= 0 && (u64)x->shi <= maskw(w)) return trunc(x, w); }
  if (smallF(a)) return mapIte(a, [&](E x) { return fptoui(x, w); });
  return N(KFPToUI, BV, w, {a});
}
E bitsToFp(E a, Sort s) { if (a->isConst()) return fpBits(s, a->c); if (a->k == KFPToBits && a->ops[0]->s == s) return a->ops[0]; if (smallIte(a)) return mapIte(a, [&](E x) { return bitsToFp(x, s); }); return N(KBitsToFP, s, fw(s), {a}); }
E fpToBits(E a) { if (a->isConst()) return bv(a->w, a->c); if (a->k == KBitsToFP) return a->ops[0]; if (smallF(a)) return mapIte(a, [&](E x) { return fpToBits(x); }); return N(KFPToBits, BV, a->w, {a}); }

// ---------------------------------------------------------------- evaluation
static uint32_t stampCtr = 0; static const Assign* curA = nullptr;
void evalBegin(const Assign* a) { curA = a; stampCtr++; }
mpq_class evalR(E e) {
  if (e->isConst()) return e->rc;
  if (e->evStamp == stampCtr && e->evR) return *e->evR;
  mpq_class r = 0;
  switch (e->k) {
    case KRFun: if (e->name == "floor") { mpq_class v = evalR(e->ops[0]); mpz_class q; mpz_fdiv_q(q.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); r = mpq_class(q); break; }
      if (!curA->re.count(e->id) && e->ops.size() == 1) { double x = evalR(e->ops[0]).get_d(), y = NAN; if (e->name == "exp") { y = std::exp(x); if (y < 1e-300) y = 1e-300; } else if (e->name == "sqrt" && x >= 0) y = std::sqrt(x); if (std::isfinite(y)) { r = mpq_class(y); break; } } // else as a variable
    case KVar: { auto it = curA->re.find(e->id); if (it != curA->re.end()) r = it->second; else if (e->k == KVar && (e->flo > 0 || e->fhi < 0)) r = mpq_class(e->flo > 0 ? e->flo : e->fhi); break; }
    case KPoly: r = e->rc; for (size_t i = 0; i < e->ops.size(); i++) r += e->rcoef[i] * evalR(e->ops[i]); break;
    case KMono: r = 1; for (auto o : e->ops) r *= evalR(o); break;
    case KIte: r = evalBV(e->ops[0]) ? evalR(e->ops[1]) : evalR(e->ops[2]); break;
    case KRInv: { mpq_class d = evalR(e->ops[0]); if (d != 0) r = 1 / d; break; }
    case KIntToReal: r = mpq_class((long)sx(evalBV(e->ops[0]), e->ops[0]->w)); break;
    case KUIntToReal: r = mpq_class((unsigned long)evalBV(e->ops[0])); break;
    default: break;
  }
  e->evStamp = stampCtr; e->evR = std::make_shared<mpq_class>(r);
  return r;
}
static double b2d(Sort s, u64 b) { if (s == F32S) { float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static u64 d2b(Sort s, double d) { if (std::isnan(d)) return s == F32S ? 0x7fc00000u : 0x7ff8000000000000ull; if (s == F32S) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 b; memcpy(&b, &d, 8); return b; }
u64 evalBV(E e) {
  if (e->isConst()) return e->c;
  if (e->evStamp == stampCtr && !e->evR) return e->evVal;
  u64 r = 0; unsigned w = e->w;
  auto O = [&](int i) { return evalBV(e->ops[i]); };
  auto W = [&](int i) { return e->ops[i]->w; };
  auto F = [&](int i) { return b2d(e->ops[i]->s, evalBV(e->ops[i])); };
  switch (e->k) {
    case KVar: { auto it = curA->bv.find(e->id); if (it != curA->bv.end()) r = it->second; else if (e->s == BV) r = (e->ulo > 0) ? e->ulo : (e->slo > 0 ? (u64)e->slo : (e->shi < 0 ? (u64)e->shi : 0)); else r = d2b(e->s, e->flo > 0 ? e->flo : e->fhi < 0 ? e->fhi : 0.0); break; }
    case KPoly: r = e->c; for (size_t i = 0; i < e->ops.size(); i++) r += e->coef[i] * O(i); break;
    case KMono: r = 1; for (size_t i = 0; i < e->ops.size(); i++) r *= O(i); break;
    case KUDiv: { u64 d = O(1); r = d ? O(0) / d : ~0ull; break; }
    case KURem: { u64 d = O(1); r = d ? O(0) % d : O(0); break; }
    case KSDiv: { i64 n = sx(O(0), w), d = sx(O(1), w); r = d == 0 ? (n < 0 ? 1 : ~0ull) : d == -1 ? (u64)0 - (u64)n : (u64)(n / d); break; }
    case KSRem: { i64 n = sx(O(0), w), d = sx(O(1), w); r = d == 0 ? (u64)n : d == -1 ? 0 : (u64)(n % d); break; }
    case KAnd: r = O(0); for (size_t i = 1; i < e->ops.size(); i++) r &= O(i); break;
    case KOr: r = O(0); for (size_t i = 1; i < e->ops.size(); i++) r |= O(i); break;
    case KXor: r = O(0) ^ O(1); break;
    case KNot: r = ~O(0); break;
    case KShl: { u64 s = O(1); r = s >= w ? 0 : O(0) << s; break; }
    case KLShr: { u64 s = O(1); r = s >= w ? 0 : O(0) >> s; break; }
    case KAShr: { u64 s = O(1); i64 v = sx(O(0), w); r = (u64)(v >> std::min<u64>(s, 63)); break; }
    case KZExt: r = O(0); break;
    case KSExt: r = (u64)sx(O(0), W(0)); break;
    case KTrunc: r = O(0); break;
    case KExtract: r = O(0) >> e->c; break;
    case KConcat: r = (W(1) >= 64 ? 0 : O(0) << W(1)) | O(1); break;
    case KIte: r = O(0) ? O(1) : O(2); break;
    case KEq: r = O(0) == O(1); break;
    case KUlt: r = O(0) < O(1); break;
    case KSlt: r = sx(O(0), W(0)) < sx(O(1), W(1)); break;
    case KFAdd: r = e->s == F32S ? d2b(F32S, (float)F(0) + (float)F(1)) : d2b(F64S, F(0) + F(1)); break;
    case KFSub: r = e->s == F32S ? d2b(F32S, (float)F(0) - (float)F(1)) : d2b(F64S, F(0) - F(1)); break;
    case KFMul: r = e->s == F32S ? d2b(F32S, (float)F(0) * (float)F(1)) : d2b(F64S, F(0) * F(1)); break;
    case KFDiv: r = e->s == F32S ? d2b(F32S, (float)F(0) / (float)F(1)) : d2b(F64S, F(0) / F(1)); break;
    case KFRem: r = d2b(e->s, std::fmod(F(0), F(1))); break;
    case KFNeg: r = O(0) ^ (1ull << (w - 1)); break;
    case KFAbs: r = O(0) & ~(1ull << (w - 1)); break;
    case KFSqrt: r = e->s == F32S ? d2b(F32S, sqrtf((float)F(0))) : d2b(F64S, std::sqrt(F(0))); break;
    case KFRound: { double d = F(0); r = d2b(e->s, e->c == 0 ? std::floor(d) : e->c == 1 ? std::ceil(d) : e->c == 2 ? std::trunc(d) : e->c == 3 ? std::round(d) : std::nearbyint(d)); break; }
    case KFEq: r = F(0) == F(1); break;
    case KFLt: r = F(0) < F(1); break;
    case KFLe: r = F(0) <= F(1); break;
    case KFNan: r = std::isnan(F(0)); break;
    case KFInf: r = std::isinf(F(0)); break;
    case KFPExt: case KFPTrunc: r = d2b(e->s, F(0)); break;
    case KSIToFP: { i64 v = sx(O(0), W(0)); r = e->s == F32S ? ({ float f = (float)v; uint32_t x; memcpy(&x, &f, 4); (u64)x; }) : d2b(F64S, (double)v); break; }
    case KUIToFP: { u64 v = O(0); r = e->s == F32S ? ({ float f = (float)v; uint32_t x; memcpy(&x, &f, 4); (u64)x; }) : d2b(F64S, (double)v); break; }
    case KFPToSI: r = fptosi(fpBits(e->ops[0]->s, O(0)), w)->c; break;
    case KFPToUI: r = fptoui(fpBits(e->ops[0]->s, O(0)), w)->c; break;
    case KBitsToFP: case KFPToBits: r = O(0); break;
    case KREq0: r = sgn(evalR(e->ops[0])) == 0; break;
    case KRLt0: r = sgn(evalR(e->ops[0])) < 0; break;
    case KRLe0: r = sgn(evalR(e->ops[0])) <= 0; break;
    case KRealToInt: { mpq_class q = evalR(e->ops[0]); mpz_class z; mpz_tdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); r = (u64)z.get_si(); break; }
    default: break;
  }
  if (w && w < 64) r &= maskw(w);
  e->evStamp = stampCtr; e->evVal = r; e->evR.reset();
  return r;
}
static const std::vector<uint32_t> noVars;
const std::vector<uint32_t>& varsOf(E e) {
  if (e->isVarLess && e->k != KRFun) return noVars;
  if (e->vars) return *e->vars;
  std::vector<uint32_t> v;
  if (e->k == KVar || e->k == KRFun) v.push_back(e->id);
  // iterative union
  for (auto o : e->ops) { auto& x = varsOf(o); std::vector<uint32_t> m; m.reserve(v.size() + x.size()); std::set_union(v.begin(), v.end(), x.begin(), x.end(), std::back_inserter(m)); v.swap(m); }
  e->vars = std::make_shared<std::vector<uint32_t>>(std::move(v));
  return *e->vars;
}
static const char* kn[] = {"const","var","poly","mono","udiv","urem","sdiv","srem","and","or","xor","not","shl","lshr","ashr","zext","sext","trunc","extract","concat","ite","eq","ult","slt","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","fround","feq","flt","fle","fnan","finf","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","bits2fp","fp2bits","rinv","rexp","rfun","req0","rlt0","rle0","int2real","uint2real","real2int"};
std::string show(E e, int d) {
  std::ostringstream o;
  if (e->isConst()) { if (e->s == REAL) o << e->rc; else if (e->s == BV) o << e->c << ":" << e->w; else o << fval(e) << "f"; return o.str(); }
  if (e->k == KVar) { o << e->name << "[" << e->idx << "]"; return o.str(); }
  o << "(" << kn[e->k] << ":" << e->w; if (e->k == KRFun) o << " " << e->name;
  if (d <= 0) { o << " ...)"; return o.str(); }
  if (e->k == KPoly) { if (e->s == REAL) o << " " << e->rc; else o << " " << sx(e->c, e->w); for (size_t i = 0; i < e->ops.size(); i++) { o << " + "; if (e->s == REAL) o << e->rcoef[i]; else o << sx(e->coef[i], e->w); o << "*" << show(e->ops[i], d - 1); } }
  else { if (e->c) o << " #" << e->c; for (auto x : e->ops) o << " " << show(x, d - 1); }
  o << ")"; return o.str();
}
