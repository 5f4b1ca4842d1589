// bsym: symbolic executor for LLVM IR (see DESIGN.md)
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pthread.h>
#include <atomic>
#include <csignal>

using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options / results
static bool realMode = false, ubFloat = false, verbose = false;
static double deadline = 1e18, grace = 1e18; static std::atomic<double>* sharedStop = nullptr; // set by the first worker that finds a violation
static bool expired() { double t = now(); return t > deadline || (sharedStop && t > sharedStop->load()); }
static bool noMerge = false;            // paths stay separate after branches; small variables decided by a branch become constants
static u64 forkRound = 0;            // fork on rounding results with at most this many values
static u64 maxSteps = 60000000;      // instructions on one path since the last shard point
static size_t maxViol = 5;
static const u64 allocLimit = 1ull << 28;
struct Violation { std::string kind, msg, where, tag; Assign model; };
static std::vector<Violation> violations;
static struct { u64 steps = 0, branches = 0, forks = 0, merges = 0, mergeFail = 0, paths = 0, checks = 0, checkSimpl = 0, checkHint = 0, checkSolver = 0, checkUnknown = 0,
  memObl = 0, memSimpl = 0, memSolver = 0, feasUnknown = 0, shards = 0, shardsDone = 0, aborted = 0; } st;
static std::map<std::string, u64> covers, inconclusive, checkMsgs;
static std::map<std::string, Assign> coverModels;
static std::set<std::string> fnsEncoded;
struct Fatal { std::string why; };
[[noreturn]] static void unsupported(const std::string& w) { throw Fatal{w}; }
static bool stopAll = false;

// ------------------------------------------------------------------ values, memory, state
struct Val { E e = nullptr; std::shared_ptr<std::vector<Val>> agg; Val() {} Val(E x) : e(x) {} bool some() const { return e || agg; } };
template <class T> struct Ref {
  T* p = nullptr; Ref() {} Ref(T* x) : p(x) { if (p) p->rc++; } Ref(const Ref& o) : p(o.p) { if (p) p->rc++; } Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref& operator=(const Ref& o) { if (o.p) o.p->rc++; if (p && --p->rc == 0) delete p; p = o.p; return *this; }
  Ref& operator=(Ref&& o) noexcept { std::swap(p, o.p); return *this; }
  T* operator->() const { return p; } T& operator*() const { return *p; } explicit operator bool() const { return p != nullptr; }
};
struct Cell { E v = nullptr; uint8_t off = 0, size = 0; };
static const unsigned PG = 64;
struct Page { int rc = 0; Cell c[PG]; Page() {} Page(const Page& o) : rc(0) { memcpy(c, o.c, sizeof c); } };
enum OKind : uint8_t { OStack, ONew, ONewArr, OMalloc, OGlobal, OConst, OExc };
struct Obj { int rc = 0; OKind kind; u64 size; std::vector<Ref<Page>> pages; Obj(OKind k, u64 s) : kind(k), size(s), pages((s + PG - 1) / PG) {} Obj(const Obj& o) : rc(0), kind(o.kind), size(o.size), pages(o.pages) {} };
struct ObjInfo { OKind kind; u64 size; std::string where; };
static std::vector<ObjInfo> objInfo;   // by id; ids are never reused
static u64 baseOf(u64 id) { return (id + 1) << 32; }

struct FnInfo {
  Function* F; std::unordered_map<const Value*, int> num; int n = 0;
  std::unordered_map<const BasicBlock*, const BasicBlock*> ipdom, ipdomEH; std::unordered_map<const BasicBlock*, bool> reachRet;
};
struct Frame { int rc = 0; FnInfo* fi = nullptr; const BasicBlock* bb = nullptr; BasicBlock::const_iterator it; std::vector<Val> regs; std::vector<u64> allocas; Val lp; u64 va = 0; };
struct PCNode { int rc = 0; E c; Ref<PCNode> up; int depth; };
struct ExcState { u64 ptr; const GlobalVariable* ti; };
struct State {
  std::vector<Ref<Frame>> stack; std::vector<std::pair<u64, Ref<Obj>>> mem; // mem sorted by id
  std::vector<std::pair<const GlobalVariable*, Ref<Obj>>> dummy;
  Ref<PCNode> pc; Model hint; std::vector<ExcState> caught; std::map<u64, const GlobalVariable*> excTypes;
  std::vector<std::pair<E, u64>> conc; u64 steps = 0; bool sharded = false, maybeInfeasible = false; bool atStart = false; std::string tag;
  int heapLive = 0;
  Frame& top() { Ref<Frame>& f = stack.back(); if (f->rc > 1) { Frame* n = new Frame(*f.p); n->rc = 0; f = Ref<Frame>(n); } return *f.p; }
};
static std::vector<E> pcList(State* s) { std::vector<E> v; for (PCNode* p = s->pc.p; p; p = p->up.p) v.push_back(p->c); return v; }
static void pcAdd(State* s, E c) {
  if (c->isTrue()) return;
  if (c->k == KAnd && c->w == 1) { for (auto o : c->ops) pcAdd(s, o); return; }
  PCNode* n = new PCNode(); n->c = c; n->depth = s->pc ? s->pc->depth + 1 : 1; n->up = s->pc; s->pc = Ref<PCNode>(n);
}

// ------------------------------------------------------------------ module
static LLVMContext ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const Function*, FnInfo*> fnInfos;
static std::unordered_map<const GlobalVariable*, u64> gvId; static std::unordered_map<u64, Ref<Obj>> gvInit;
static std::unordered_map<const Function*, u64> fnAddr; static std::unordered_map<u64, const Function*> addrFn;
static Ref<Obj>* memFind(State* s, u64 id);

static void computeIpdom(FnInfo* fi, bool eh, std::unordered_map<const BasicBlock*, const BasicBlock*>& out) {
  Function& F = *fi->F;
  auto succs = [&](const BasicBlock* b, std::vector<const BasicBlock*>& v) {
    v.clear(); const Instruction* t = b->getTerminator();
    if (auto* iv = dyn_cast<InvokeInst>(t)) { v.push_back(iv->getNormalDest()); if (eh && fi->reachRet[iv->getUnwindDest()]) v.push_back(iv->getUnwindDest()); return; }
    for (auto* x : successors(b)) v.push_back(x);
  };
  std::unordered_map<const BasicBlock*, int> idx; std::vector<const BasicBlock*> post; // post order on the reverse graph from virtual exit
  std::unordered_map<const BasicBlock*, std::vector<const BasicBlock*>> pred, succ;
  std::vector<const BasicBlock*> exits; std::vector<const BasicBlock*> tmp;
  for (auto& b : F) { if (isa<ReturnInst>(b.getTerminator())) exits.push_back(&b); succs(&b, tmp); for (auto* x : tmp) { succ[&b].push_back(x); pred[x].push_back(&b); } }
  // reverse DFS
  std::set<const BasicBlock*> seen; std::vector<std::pair<const BasicBlock*, size_t>> stk;
  for (auto* e : exits) { if (seen.count(e)) continue; seen.insert(e); stk.push_back({e, 0});
    while (!stk.empty()) { auto& [b, i] = stk.back(); auto& p = pred[b]; if (i < p.size()) { auto* q = p[i++]; if (seen.insert(q).second) stk.push_back({q, 0}); } else { post.push_back(b); stk.pop_back(); } } }
  int n = (int)post.size(); for (int i = 0; i < n; i++) idx[post[i]] = i;
  std::vector<int> dom(n + 1, -1); dom[n] = n; // n = virtual exit
  auto inter = [&](int a, int b) { while (a != b) { while (a < b) a = dom[a]; while (b < a) b = dom[b]; } return a; };
  for (bool ch = true; ch;) { ch = false;
    for (int i = n - 1; i >= 0; i--) { const BasicBlock* b = post[i]; int nd = -1;
      if (isa<ReturnInst>(b->getTerminator())) nd = n;
      for (auto* x : succ[b]) { auto it = idx.find(x); if (it == idx.end()) continue; int j = it->second; if (dom[j] < 0) continue; nd = nd < 0 ? j : inter(nd, j); }
      if (nd >= 0 && dom[i] != nd) { dom[i] = nd; ch = true; } } }
  for (int i = 0; i < n; i++) out[post[i]] = dom[i] == n || dom[i] < 0 ? nullptr : post[dom[i]];
}
static FnInfo* info(const Function* F) {
  auto it = fnInfos.find(F); if (it != fnInfos.end()) return it->second;
  FnInfo* fi = new FnInfo(); fi->F = const_cast<Function*>(F);
  for (auto& a : F->args()) fi->num[&a] = fi->n++;
  for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) fi->num[&i] = fi->n++;
  // blocks from which a return is reachable (through any edge)
  std::vector<const BasicBlock*> w; for (auto& b : *F) if (isa<ReturnInst>(b.getTerminator())) { fi->reachRet[&b] = true; w.push_back(&b); }
  while (!w.empty()) { auto* b = w.back(); w.pop_back(); for (auto* p : predecessors(b)) if (!fi->reachRet[p]) { fi->reachRet[p] = true; w.push_back(p); } }
  computeIpdom(fi, false, fi->ipdom); computeIpdom(fi, true, fi->ipdomEH);
  fnInfos[F] = fi;
  std::string f; if (auto* sp = F->getSubprogram()) { f = sp->getFilename().str(); if (sp->getDirectory().size() && f.size() && f[0] != '/') f = sp->getDirectory().str() + "/" + f; }
  if (f.find("/boofcpp") != std::string::npos) fnsEncoded.insert(demangle(F->getName().str()));
  return fi;
}

// ------------------------------------------------------------------ types
static unsigned bitsOf(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) { unsigned b = t->getIntegerBitWidth(); if (b > 64) unsupported("integer wider than 64 bits"); return b; } unsupported("type without bit width"); }
static Sort sortOf(Type* t) { if (t->isFloatTy()) return realMode ? REAL : F32S; if (t->isDoubleTy()) return realMode ? REAL : F64S; if (t->isIntegerTy() || t->isPointerTy()) return BV; if (t->isX86_FP80Ty()) return realMode ? REAL : F64S; /* only concrete long double values are accepted, see exec1 */ unsupported("unsupported scalar type"); }
static bool isScalar(Type* t) { return t->isFloatingPointTy() || t->isIntegerTy() || t->isPointerTy(); }
static u64 undefCtr = 0;
static E freshUndef(Type* t) {
  Sort s = sortOf(t); int k = (int)undefCtr++;
  if (s == BV) return mkVar(BV, bitsOf(t), "undef" + std::to_string(bitsOf(t)), k);
  if (s == REAL) return mkVar(REAL, 0, "undefr", k);
  return bitsToFp(mkVar(BV, s == F32S ? 32 : 64, "undef" + std::to_string(s == F32S ? 32 : 64), k), s);
}
static Val zeroVal(Type* t) {
  if (isScalar(t)) { Sort s = sortOf(t); return s == BV ? bv(bitsOf(t), 0) : s == REAL ? realc(0) : fpBits(s, 0); }
  Val v; v.agg = std::make_shared<std::vector<Val>>();
  if (auto* sty = dyn_cast<StructType>(t)) for (auto* x : sty->elements()) v.agg->push_back(zeroVal(x));
  else if (auto* a = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) v.agg->push_back(zeroVal(a->getElementType()));
  else if (auto* a = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) v.agg->push_back(zeroVal(a->getElementType()));
  else unsupported("zero of type");
  return v;
}
static Val undefVal(Type* t) {
  if (isScalar(t)) return freshUndef(t);
  Val v; v.agg = std::make_shared<std::vector<Val>>();
  if (auto* sty = dyn_cast<StructType>(t)) for (auto* x : sty->elements()) v.agg->push_back(undefVal(x));
  else if (auto* a = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) v.agg->push_back(undefVal(a->getElementType()));
  else if (auto* a = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) v.agg->push_back(undefVal(a->getElementType()));
  else unsupported("undef of type");
  return v;
}

// ------------------------------------------------------------------ memory objects
static u64 newObj(State* s, OKind k, u64 size, const std::string& where) {
  u64 id = objInfo.size(); objInfo.push_back({k, size, where});
  s->mem.push_back({id, Ref<Obj>(new Obj(k, size))});
  if (k == ONew || k == ONewArr || k == OMalloc) s->heapLive++;
  return id;
}
static Ref<Obj>* memFind(State* s, u64 id) {
  auto it = std::lower_bound(s->mem.begin(), s->mem.end(), id, [](auto& a, u64 b) { return a.first < b; });
  if (it != s->mem.end() && it->first == id) return &it->second;
  auto g = gvInit.find(id);
  if (g != gvInit.end()) { if (g->second->kind == OConst) return &g->second; it = s->mem.insert(it, {id, g->second}); return &it->second; }
  return nullptr;
}
static void memErase(State* s, u64 id) {
  auto it = std::lower_bound(s->mem.begin(), s->mem.end(), id, [](auto& a, u64 b) { return a.first < b; });
  if (it != s->mem.end() && it->first == id) { OKind k = it->second->kind; if (k == ONew || k == ONewArr || k == OMalloc) s->heapLive--; s->mem.erase(it); }
}
static Obj& memW(State* s, u64 id) { Ref<Obj>* r = memFind(s, id); if ((*r)->rc > 1) { Obj* n = new Obj(**r); *r = Ref<Obj>(n); } return **r; }
static inline const Cell* cellR(const Obj& o, u64 i) { Page* p = o.pages[i / PG].p; return p ? &p->c[i % PG] : nullptr; }
static inline Cell& cellW(Obj& o, u64 i) { Ref<Page>& p = o.pages[i / PG]; if (!p) p = Ref<Page>(new Page()); else if (p->rc > 1) p = Ref<Page>(new Page(*p)); return p->c[i % PG]; }

static E byteOf(const Cell& c) { // byte c.off of c.v
  E v = c.v;
  if (v->s == REAL) { if (v->isConst() && v->rc == 0) return bv(8, 0); unsupported("byte access to a real-mode float"); }
  if (v->s != BV) v = fpToBits(v);
  if (v->w < 8) v = zext(v, 8);
  return extract(v, 8 * c.off, 8);
}
static E freshByte() { return mkVar(BV, 8, "undef8", (int)undefCtr++); }
// raw typed read at a concrete, in-bounds offset
static E rdObj(Obj& o, u64 off, unsigned size, Sort want, unsigned w) {
  const Cell* c0 = cellR(o, off);
  if (c0 && c0->v && c0->off == 0 && c0->size == size) {
    bool whole = true; E v = c0->v;
    for (unsigned i = 1; i < size; i++) { const Cell* c = cellR(o, off + i); if (!c || c->v != v || c->off != i || c->size != size) { whole = false; break; } }
    if (whole) {
      if (want == BV) { if (v->s == BV) return v; if (v->s == REAL) { if (v->isConst() && v->rc == 0) return bv(w, 0); unsupported("integer read of a real-mode float"); } return fpToBits(v); }
      if (v->s == want) return v;
      if (want == REAL) { if (v->isConst()) return realc(fpToRat(bitsToFp(v, size == 4 ? F32S : F64S))); unsupported("float read of integer memory in real mode"); }
      if (v->s == BV) return bitsToFp(v, want);
    }
  }
  bool anyUninit = false; E r = nullptr;
  std::vector<E> bytes(size);
  for (unsigned i = 0; i < size; i++) { const Cell* c = cellR(o, off + i); if (!c || !c->v) { anyUninit = true; bytes[i] = nullptr; } else bytes[i] = want == REAL && c->v->s == REAL && !(c->v->isConst() && c->v->rc == 0) ? (unsupported("partial read of a real-mode float"), nullptr) : byteOf(*c); }
  if (want == REAL) {
    bool all = true; for (auto b : bytes) if (b) all = false;
    if (all) { E v = mkVar(REAL, 0, "undefr", (int)undefCtr++); for (unsigned i = 0; i < size; i++) { Cell& c = cellW(o, off + i); c.v = v; c.off = i; c.size = size; } return v; }
  }
  if (anyUninit) for (unsigned i = 0; i < size; i++) if (!bytes[i]) { bytes[i] = freshByte(); Cell& c = cellW(o, off + i); c.v = bytes[i]; c.off = 0; c.size = 1; }
  r = bytes[0]; for (unsigned i = 1; i < size; i++) r = concat(bytes[i], r);
  if (want == BV) return r;
  if (want == REAL) { if (r->isConst()) return realc(fpToRat(bitsToFp(r, size == 4 ? F32S : F64S))); unsupported("float read of integer memory in real mode"); }
  return bitsToFp(r, want);
}
static void wrObj(Obj& o, u64 off, unsigned size, E v) {
  for (unsigned i = 0; i < size; i++) { Cell& c = cellW(o, off + i); c.v = v; c.off = (uint8_t)i; c.size = (uint8_t)size; }
}

// ------------------------------------------------------------------ feasibility, violations
static std::string locOf(State* s) {
  for (int i = (int)s->stack.size() - 1; i >= 0; i--) {
    Frame& f = *s->stack[i]; if (f.it == f.bb->end()) continue;
    if (auto& dl = f.it->getDebugLoc()) { std::string file = dl->getFilename().str(); if (file.find("/usr/") == 0 && i > 0) continue; size_t p = file.rfind('/'); return demangle(f.fi->F->getName().str()).substr(0, 160) + " (" + (p == std::string::npos ? file : file.substr(p + 1)) + ":" + std::to_string(dl.getLine()) + ")"; }
  }
  return s->stack.empty() ? "" : demangle(s->stack.back()->fi->F->getName().str());
}
static Model overlay(const Model& base, const Model& m) {
  if (!m) return nullptr; if (!base) return nullptr;
  Model r = std::make_shared<Assign>(*base); for (auto& p : m->bv) r->bv[p.first] = p.second; for (auto& p : m->re) r->re[p.first] = p.second; return r;
}
// 0 infeasible, 1 feasible, 2 unknown
static int feasible(State* s, E c, Model* nh) {
  if (c->isConst()) { if (nh) *nh = s->hint; return c->c ? 1 : 0; }
  if (s->hint && evalUnder(*s->hint, c)) { if (nh) *nh = s->hint; return 1; }
  Model m; SRes r = solveSliced(pcList(s), c, &m);
  if (r == SUnsat) return 0;
  if (r == SSat) { if (nh) { *nh = overlay(s->hint, m); if (*nh && !evalUnder(**nh, c)) *nh = nullptr; } return 1; }
  st.feasUnknown++; if (nh) *nh = nullptr; return 2;
}
static bool fullModel(State* s, E extra, Model hint, Assign& out) {
  if (hint && evalUnder(*hint, extra)) { bool ok = true; for (E e : pcList(s)) { evalBegin(hint.get()); if (!evalBV(e)) { ok = false; break; } } if (ok) { out = *hint; return true; } }
  std::vector<E> all = pcList(s); all.push_back(extra); Model m;
  SRes r = solve(all, &m); if (r != SSat || !m) return false; out = *m; return true;
}
static void dumpEval(E e, int depth, int ind) { std::cerr << std::string(ind * 2, ' ') << "#" << e->id << " kind " << (int)e->k << " " << e->name << " "; if (e->s == REAL) { std::cerr << evalR(e).get_d() << " [" << e->flo << "," << e->fhi << "] sg" << (int)e->sg; if (e->k == KPoly) { std::cerr << " c=" << e->rc.get_d(); for (auto& q : e->rcoef) std::cerr << " " << q.get_d(); } } else if (e->s == BV) std::cerr << evalBV(e); std::cerr << "\n"; if (depth) for (auto o : e->ops) dumpEval(o, depth - 1, ind + 1); }
static void report(State* s, const std::string& kind, const std::string& msg, E extra, Model hint) {
  std::string where = locOf(s);
  for (auto& v : violations) if (v.kind == kind && v.msg == msg && v.where == where && v.tag == s->tag) return;
  Violation v; v.kind = kind; v.msg = msg; v.where = where; v.tag = s->tag;
  if (!fullModel(s, extra, hint, v.model)) { inconclusive["no model for " + kind + ": " + msg]++; return; }
  violations.push_back(v);
  if (sharedStop && now() + grace < sharedStop->load()) { sharedStop->store(now() + grace); }
  if (getenv("BSYM_SHOW")) { evalBegin(&v.model); dumpEval(extra, 8, 0); std::cerr << "[bad] " << show(extra, 9) << "\n"; for (E e : pcList(s)) std::cerr << "  [pc] " << show(e, 7) << "\n"; for (auto& q : v.model.re) std::cerr << "  [m] " << q.first << " = " << q.second.get_d() << "\n"; }
  if (verbose) std::cerr << "[violation] " << kind << ": " << msg << " at " << where << " tag=" << s->tag << "\n";
  if (violations.size() >= maxViol) stopAll = true;
}
// obligation: cond must hold; returns false if the path cannot continue
static bool require(State* s, E guard, E cond, const std::string& kind, const std::string& msg) {
  E bad = band(guard, bnot(cond));
  st.memObl++;
  if (bad->isFalse()) { st.memSimpl++; return true; }
  Model m; int f = feasible(s, bad, &m);
  if (f == 0) { st.memSolver++; return true; }
  if (f == 2) { inconclusive[kind + ": " + msg + " at " + locOf(s)]++; return true; }
  if (s->maybeInfeasible) { inconclusive[kind + " on a path of unknown feasibility"]++; }
  report(s, kind, msg, bad, m);
  E good = bnot(bad); Model g; int k = feasible(s, good, &g);
  if (k == 0) return false;
  pcAdd(s, good); s->hint = g; return true;
}

// ------------------------------------------------------------------ pointers
struct Tgt { E guard; u64 id; E off; }; // off: 64-bit offset inside object id (id==~0: invalid)
static bool isPtrLeaf(E x) { return x->k == KIte && x->w == 64; }
static void resolve(E p, E guard, std::vector<Tgt>& out, int depth = 0) {
  if (guard->isFalse()) return;
  if (out.size() > 4000 || depth > 200) unsupported("pointer with too many targets");
  u64 c = p->isConst() ? p->c : p->k == KPoly ? p->c : 0;
  u64 region = (c + (1ull << 31)) >> 32;
  if (region && region < (1ull << 28)) { out.push_back({guard, region - 1, sub(p, bv(64, region << 32))}); return; }
  if (isPtrLeaf(p)) { resolve(p->ops[1], band(guard, p->ops[0]), out, depth + 1); resolve(p->ops[2], band(guard, bnot(p->ops[0])), out, depth + 1); return; }
  if (p->k == KPoly) for (size_t i = 0; i < p->ops.size(); i++) if (p->coef[i] == 1 && isPtrLeaf(p->ops[i])) {
    E a = p->ops[i]; E rest = sub(p, a);
    resolve(add(rest, a->ops[1]), band(guard, a->ops[0]), out, depth + 1); resolve(add(rest, a->ops[2]), band(guard, bnot(a->ops[0])), out, depth + 1); return; }
  out.push_back({guard, ~0ull, p});
}
static std::string objDesc(u64 id) {
  if (id >= objInfo.size()) return "invalid address";
  static const char* kn[] = {"stack variable", "object from new", "array from new[]", "malloc block", "global", "constant", "exception object"};
  return std::string(kn[objInfo[id].kind]) + " of " + std::to_string(objInfo[id].size) + " bytes";
}
static u64 gcd64(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
// candidate concrete offsets of a symbolic in-bounds offset
static void candidates(E off, u64 size, unsigned n, std::vector<u64>& out) {
  if (off->isConst()) { out.push_back(off->c); return; }
  i64 lo = 0, hi = (i64)size - (i64)n;
  if (off->slo > lo) lo = off->slo; if (off->shi < hi) hi = off->shi;
  if (off->ulo > (u64)lo && off->ulo < (1ull << 62)) lo = (i64)off->ulo;
  if (off->uhi < (u64)hi) hi = (i64)off->uhi;
  u64 stride = 1, res = 0;
  if (off->k == KPoly) { u64 g = 0; for (auto c : off->coef) { i64 k = sx(c, 64); g = gcd64(g, (u64)(k < 0 ? -k : k)); } stride = g & (~g + 1); if (g && g < (1u << 20)) stride = (g & (g - 1)) == 0 ? g : g; res = 0;
    i64 c = (i64)off->c; i64 r = c % (i64)stride; if (r < 0) r += stride; res = (u64)r; 
    // a poly over wrapped 64-bit arithmetic only keeps residues of powers of two in general; offsets are small here, so use the full gcd only when no term can wrap
    if ((stride & (stride - 1)) != 0) { u64 p2 = stride & (~stride + 1); bool safe = true; for (auto o : off->ops) if (o->slo < -(1ll << 40) || o->shi > (1ll << 40)) safe = false; if (!safe) { stride = p2; r = c % (i64)stride; if (r < 0) r += stride; res = (u64)r; } } }
  // small ite trees: take the leaves
  if (off->k == KIte && off->iteConst && off->iteConst < 1000) {
    std::set<u64> leaves; std::vector<E> stk{off}; while (!stk.empty()) { E x = stk.back(); stk.pop_back(); if (x->k == KIte) { stk.push_back(x->ops[1]); stk.push_back(x->ops[2]); } else leaves.insert(x->c); }
    for (u64 l : leaves) if ((i64)l >= lo && (i64)l <= hi) out.push_back(l); return; }
  i64 f = lo; while (f <= hi && (u64)f % stride != res) f++;
  for (i64 k = f; k <= hi; k += stride) { out.push_back((u64)k); if (out.size() > 20000) unsupported("symbolic offset with too many candidates"); }
}
static bool checkTgt(State* s, Tgt& t, unsigned n, bool write, const char* what) { // true: usable
  if (t.id == ~0ull || t.id >= objInfo.size()) {
    if (getenv("BSYM_DEBUG")) std::cerr << "bad pointer " << show(t.off, 4) << "\n";
    require(s, t.guard, mkBool(false), "memory", std::string(what) + " through an invalid or null pointer"); return false; }
  Ref<Obj>* r = memFind(s, t.id);
  if (!r) { require(s, t.guard, mkBool(false), "memory", std::string(what) + " of freed or dead memory (" + objDesc(t.id) + ")"); return false; }
  if (write && (*r)->kind == OConst) { require(s, t.guard, mkBool(false), "memory", "write to constant memory"); return false; }
  u64 sz = (*r)->size;
  if (sz < n) { require(s, t.guard, mkBool(false), "memory", std::string(what) + " of " + std::to_string(n) + " bytes outside " + objDesc(t.id)); return false; }
  E ok = ule(t.off, bv(64, sz - n));
  if (ok->isTrue()) { st.memObl++; st.memSimpl++; return true; }
  if (ok->isFalse() || !require(s, t.guard, ok, "memory", std::string(what) + " of " + std::to_string(n) + " bytes outside " + objDesc(t.id))) { if (ok->isFalse()) require(s, t.guard, mkBool(false), "memory", std::string(what) + " of " + std::to_string(n) + " bytes outside " + objDesc(t.id)); return false; }
  return true;
}
struct DeadPath {};
static E loadE(State* s, E addr, unsigned n, Sort want, unsigned w) {
  std::vector<Tgt> ts; resolve(addr, mkBool(true), ts);
  E r = nullptr;
  for (auto& t : ts) {
    if (ts.size() > 1) { E g = t.guard; if (!g->isTrue() && feasible(s, g, nullptr) == 0) continue; }
    if (!checkTgt(s, t, n, false, "read")) { if (ts.size() == 1) throw DeadPath(); continue; }
    std::vector<u64> cs; candidates(t.off, objInfo[t.id].size, n, cs);
    E v = nullptr; Ref<Obj>* ro = memFind(s, t.id);
    if (cs.size() > 1 || true) { // reading may materialise uninitialised bytes
      bool need = false; for (u64 c : cs) for (unsigned i = 0; i < n && !need; i++) { const Cell* q = cellR(**ro, c + i); if (!q || !q->v) need = true; }
      Obj& o = need ? memW(s, t.id) : **ro;
      for (size_t i = cs.size(); i-- > 0;) { E x = rdObj(o, cs[i], n, want, w); v = v ? ite(eq(t.off, bv(64, cs[i])), x, v) : x; }
    }
    if (!v) throw DeadPath();
    r = r ? ite(t.guard, v, r) : v;
  }
  if (!r) throw DeadPath();
  if (w == 1) return trunc(r, 1);
  return r->s == BV && w && r->w != w ? trunc(r, w) : r;
}
static void storeE(State* s, E addr, unsigned n, E v) {
  if (v->s == BV && v->w < 8 * n) v = zext(v, 8 * n);
  std::vector<Tgt> ts; resolve(addr, mkBool(true), ts);
  bool any = false;
  for (auto& t : ts) {
    if (ts.size() > 1) { E g = t.guard; if (!g->isTrue() && feasible(s, g, nullptr) == 0) continue; }
    if (!checkTgt(s, t, n, true, "write")) { if (ts.size() == 1) throw DeadPath(); continue; }
    any = true;
    std::vector<u64> cs; candidates(t.off, objInfo[t.id].size, n, cs);
    Obj& o = memW(s, t.id);
    for (u64 c : cs) {
      E g = band(t.guard, eq(t.off, bv(64, c)));
      if (cs.size() == 1) g = t.guard;
      if (g->isFalse()) continue;
      if (g->isTrue()) wrObj(o, c, n, v);
      else { E old = rdObj(o, c, n, v->s, v->s == BV ? v->w : 0); wrObj(o, c, n, ite(g, v, old)); }
    }
  }
  if (!any) throw DeadPath();
}
static Val loadVal(State* s, E addr, Type* t) {
  if (isScalar(t)) { unsigned n = (unsigned)DL->getTypeStoreSize(t); Sort so = sortOf(t); return loadE(s, addr, n, so, so == BV ? bitsOf(t) : 0); }
  Val v; v.agg = std::make_shared<std::vector<Val>>();
  if (auto* sty = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(sty); for (unsigned i = 0; i < sty->getNumElements(); i++) v.agg->push_back(loadVal(s, add(addr, bv(64, sl->getElementOffset(i))), sty->getElementType(i))); return v; }
  Type* et; u64 n; if (auto* a = dyn_cast<ArrayType>(t)) { et = a->getElementType(); n = a->getNumElements(); } else if (auto* a = dyn_cast<FixedVectorType>(t)) { et = a->getElementType(); n = a->getNumElements(); } else unsupported("load of type");
  u64 es = DL->getTypeAllocSize(et); for (u64 i = 0; i < n; i++) v.agg->push_back(loadVal(s, add(addr, bv(64, i * es)), et)); return v;
}
static void storeVal(State* s, E addr, Type* t, const Val& v) {
  if (isScalar(t)) { storeE(s, addr, (unsigned)DL->getTypeStoreSize(t), v.e); return; }
  if (auto* sty = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(sty); for (unsigned i = 0; i < sty->getNumElements(); i++) storeVal(s, add(addr, bv(64, sl->getElementOffset(i))), sty->getElementType(i), (*v.agg)[i]); return; }
  Type* et; u64 n; if (auto* a = dyn_cast<ArrayType>(t)) { et = a->getElementType(); n = a->getNumElements(); } else if (auto* a = dyn_cast<FixedVectorType>(t)) { et = a->getElementType(); n = a->getNumElements(); } else unsupported("store of type");
  u64 es = DL->getTypeAllocSize(et); for (u64 i = 0; i < n; i++) storeVal(s, add(addr, bv(64, i * es)), et, (*v.agg)[i]);
}

// ------------------------------------------------------------------ constants and globals
static u64 fnAddress(const Function* F) {
  auto it = fnAddr.find(F); if (it != fnAddr.end()) return it->second;
  u64 id = objInfo.size(); objInfo.push_back({OConst, 16, "function"}); Ref<Obj> o(new Obj(OConst, 16)); gvInit[id] = o;
  u64 a = baseOf(id); fnAddr[F] = a; addrFn[a] = F; return a;
}
static Val constVal(const Constant* c);
static void initObj(Obj& o, u64 off, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c)) { u64 n = DL->getTypeStoreSize(t); for (u64 i = 0; i < n; i++) wrObj(o, off + i, 1, bv(8, 0)); return; }
  if (isScalar(t)) { E v = constVal(c).e; unsigned n = (unsigned)DL->getTypeStoreSize(t); if (v->s == BV && v->w < 8 * n) v = zext(v, 8 * n); wrObj(o, off, n, v); return; }
  if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initObj(o, off + sl->getElementOffset(i), s->getOperand(i)); return; }
  if (auto* s = dyn_cast<ConstantDataSequential>(c)) { u64 es = s->getElementByteSize(); for (unsigned i = 0; i < s->getNumElements(); i++) initObj(o, off + i * es, s->getElementAsConstant(i)); return; }
  if (auto* s = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initObj(o, off + i * es, s->getOperand(i)); return; }
  unsupported("global initialiser");
}
static u64 gvAddress(const GlobalVariable* g) {
  auto it = gvId.find(g); if (it != gvId.end()) return baseOf(it->second);
  u64 size = g->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g->getValueType()) : 64;
  if (!g->hasInitializer() && size < 64) size = 64;
  u64 id = objInfo.size(); OKind k = g->isConstant() ? OConst : OGlobal; objInfo.push_back({k, size, g->getName().str()});
  gvId[g] = id; Ref<Obj> o(new Obj(k, size)); gvInit[id] = o;
  if (g->hasInitializer()) initObj(*o, 0, g->getInitializer());
  else for (u64 i = 0; i < size; i++) wrObj(*o, i, 1, bv(8, 0));
  return baseOf(id);
}
static std::unordered_map<const Constant*, Val> constCache;
static Val constVal(const Constant* c) {
  auto it = constCache.find(c); if (it != constCache.end()) return it->second;
  Val v;
  if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) unsupported("wide integer constant"); v = bv(i->getBitWidth(), i->getZExtValue()); }
  else if (auto* f = dyn_cast<ConstantFP>(c)) {
    APInt b = f->getValueAPF().bitcastToAPInt(); Type* t = c->getType();
    if (t->isFloatTy()) { E x = fpBits(F32S, b.getZExtValue()); v = realMode ? (f->getValueAPF().isFinite() ? realc(fpToRat(x)) : mkVar(REAL, 0, "inf", 0)) : x; }
    else if (t->isDoubleTy()) { E x = fpBits(F64S, b.getZExtValue()); v = realMode ? (f->getValueAPF().isFinite() ? realc(fpToRat(x)) : mkVar(REAL, 0, "inf", 0)) : x; }
    else if (t->isX86_FP80Ty()) { APFloat q = f->getValueAPF(); bool lost = false; q.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost); if (lost) unsupported("long double constant"); E x = f64c(q.convertToDouble()); v = realMode ? realc(fpToRat(x)) : x; }
    else unsupported("floating point constant");
  }
  else if (isa<ConstantPointerNull>(c)) v = bv(64, 0);
  else if (isa<ConstantAggregateZero>(c)) v = zeroVal(c->getType());
  else if (isa<UndefValue>(c)) { return undefVal(c->getType()); }
  else if (auto* F = dyn_cast<Function>(c)) v = bv(64, fnAddress(F));
  else if (auto* g = dyn_cast<GlobalVariable>(c)) v = bv(64, gvAddress(g));
  else if (auto* a = dyn_cast<GlobalAlias>(c)) v = constVal(a->getAliasee());
  else if (auto* s = dyn_cast<ConstantAggregate>(c)) { v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < s->getNumOperands(); i++) v.agg->push_back(constVal(s->getOperand(i))); }
  else if (auto* s = dyn_cast<ConstantDataSequential>(c)) { v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < s->getNumElements(); i++) v.agg->push_back(constVal(s->getElementAsConstant(i))); }
  else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto O = [&](int i) { return constVal(ce->getOperand(i)).e; };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsupported("constant gep"); v = add(O(0), bv(64, off.getZExtValue())); break; }
      case Instruction::PtrToInt: v = trunc(O(0), bitsOf(c->getType())); break;
      case Instruction::IntToPtr: v = zext(O(0), 64); break;
      case Instruction::BitCast: case Instruction::AddrSpaceCast: v = O(0); break;
      case Instruction::Sub: v = sub(O(0), O(1)); break;
      case Instruction::Add: v = add(O(0), O(1)); break;
      case Instruction::Trunc: v = trunc(O(0), bitsOf(c->getType())); break;
      default: unsupported("constant expression");
    }
  } else unsupported("constant");
  constCache[c] = v; return v;
}

// ------------------------------------------------------------------ state utilities
static Val getVal(Frame& f, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
  auto it = f.fi->num.find(v); if (it == f.fi->num.end()) unsupported("value");
  Val& r = f.regs[it->second];
  if (!r.some()) { if (v->getType()->isMetadataTy()) return Val(); return undefVal(v->getType()); } // dropped at a merge
  return r;
}
static void setVal(Frame& f, const Value* v, Val x) { f.regs[f.fi->num[v]] = std::move(x); }
static State* cloneState(State* s) { st.forks++; return new State(*s); }
static void enterBlock(State* s, const BasicBlock* bb, const BasicBlock* from) {
  Frame& f = s->top(); std::vector<std::pair<const PHINode*, Val>> vs; auto it = bb->begin();
  for (; auto* p = dyn_cast<PHINode>(&*it); ++it) vs.push_back({p, getVal(f, p->getIncomingValueForBlock(from))});
  for (auto& p : vs) setVal(f, p.first, p.second);
  f.bb = bb; f.it = it; s->atStart = true;
}
static void killFrame(State* s) { Frame& f = *s->stack.back(); for (u64 id : f.allocas) memErase(s, id); s->stack.pop_back(); }

// merge b into a; g is true exactly on a's side
static bool iteVal(E g, const Val& x, const Val& y, Val& o) {
  if (!x.some() || !y.some()) { o = Val(); return true; }
  if (x.agg || y.agg) { if (!x.agg || !y.agg || x.agg->size() != y.agg->size()) return false; if (x.agg == y.agg) { o = x; return true; } o.agg = std::make_shared<std::vector<Val>>(x.agg->size()); for (size_t i = 0; i < x.agg->size(); i++) if (!iteVal(g, (*x.agg)[i], (*y.agg)[i], (*o.agg)[i])) return false; return true; }
  if (x.e == y.e) { o = x; return true; }
  if (x.e->s != y.e->s || x.e->w != y.e->w) return false;
  o = Val(ite(g, x.e, y.e)); return true;
}
static bool mergeable(State* a, State* b) {
  if (a->stack.size() != b->stack.size() || a->sharded != b->sharded || a->tag != b->tag) return false;
  for (size_t i = 0; i < a->stack.size(); i++) { if (a->stack[i].p == b->stack[i].p) continue; Frame &x = *a->stack[i], &y = *b->stack[i]; if (x.fi != y.fi || x.bb != y.bb || x.it != y.it || x.allocas != y.allocas) return false; }
  if (a->caught.size() != b->caught.size()) return false;
  for (size_t i = 0; i < a->caught.size(); i++) if (a->caught[i].ptr != b->caught[i].ptr) return false;
  // same live non-global objects
  size_t i = 0, j = 0;
  while (i < a->mem.size() || j < b->mem.size()) {
    if (i < a->mem.size() && (j >= b->mem.size() || a->mem[i].first < b->mem[j].first)) { if (a->mem[i].second->kind != OGlobal) return false; i++; continue; }
    if (j < b->mem.size() && (i >= a->mem.size() || b->mem[j].first < a->mem[i].first)) { if (b->mem[j].second->kind != OGlobal) return false; j++; continue; }
    i++; j++;
  }
  return true;
}
static void mergeObj(State* a, u64 id, Obj& y, E g) {
  Ref<Obj>* r = memFind(a, id); if (r->p == &y) return;
  for (size_t p = 0; p < y.pages.size(); p++) {
    if ((*r)->pages[p].p == y.pages[p].p) continue;
    Obj& o = memW(a, id); r = memFind(a, id);
    u64 lo = p * PG, hi = std::min<u64>(y.size, lo + PG);
    for (u64 i = lo; i < hi; i++) {
      const Cell *ca = cellR(o, i), *cb = cellR(y, i); Cell A = ca ? *ca : Cell(), B = cb ? *cb : Cell();
      if (A.v == B.v && A.off == B.off && A.size == B.size) continue;
      if (!A.v && !B.v) continue;
      // choose a typed view: the side with a whole aligned value
      Sort so = BV; unsigned n = 1; 
      if (A.v && A.off == 0 && A.size > 1 && i + A.size <= y.size) { n = A.size; so = A.v->s; }
      if (B.v && B.off == 0 && B.size >= n && i + B.size <= y.size && (B.size > n || so == BV)) { n = B.size; so = B.v->s; }
      bool uninitA = true, uninitB = true; for (unsigned k = 0; k < n; k++) { auto* q = cellR(o, i + k); if (q && q->v) uninitA = false; q = cellR(y, i + k); if (q && q->v) uninitB = false; }
      unsigned w = so == BV ? 8 * n : 0; if (so == BV && n == 1) w = 8;
      E va = uninitA && n == 1 ? freshByte() : rdObj(o, i, n, so, w);
      E vb = uninitB && n == 1 ? freshByte() : rdObj(y, i, n, so, w);
      wrObj(o, i, n, ite(g, va, vb)); i += n - 1;
    }
  }
}
static E suffix(State* s, PCNode* base) { E r = mkBool(true); for (PCNode* p = s->pc.p; p != base; p = p->up.p) r = band(r, p->c); return r; }
static bool mergeInto(State* a, State* b, E g, PCNode* base) {
  if (!mergeable(a, b)) { st.mergeFail++; if (getenv("BSYM_DEBUGM")) std::cerr << "merge fail at " << locOf(a) << "\n"; return false; }
  E ga = suffix(a, base), gb = suffix(b, base);
  // frames
  for (size_t i = 0; i < a->stack.size(); i++) {
    if (a->stack[i].p == b->stack[i].p) continue;
    Frame* n = new Frame(*a->stack[i]); n->rc = 0; Frame& y = *b->stack[i];
    for (size_t k = 0; k < n->regs.size(); k++) if (!iteVal(g, n->regs[k], y.regs[k], n->regs[k])) { n->regs[k] = Val(); }
    a->stack[i] = Ref<Frame>(n);
  }
  for (auto& m : b->mem) { if (!memFind(a, m.first)) continue; mergeObj(a, m.first, *m.second, g); }
  for (auto& m : a->mem) if (m.second->kind == OGlobal) { Ref<Obj>* y = memFind(b, m.first); if (y->p != m.second.p) { u64 id = m.first; mergeObj(a, id, **y, g); } }
  Ref<PCNode> bs(base); a->pc = bs; pcAdd(a, bor(ga, gb));
  a->steps = std::max(a->steps, b->steps); a->maybeInfeasible = a->maybeInfeasible || b->maybeInfeasible;
  if (!a->hint) a->hint = b->hint;
  for (auto& x : b->excTypes) a->excTypes.insert(x);
  { std::vector<std::pair<E, u64>> keep; for (auto& p : a->conc) for (auto& q : b->conc) if (p == q) { keep.push_back(p); break; } a->conc = keep; }
  st.merges++; delete b; return true;
}

// ------------------------------------------------------------------ concretisation (forks on the value of an expression)
// rounding results (KRealToInt) inside of a concretised value become constants in the whole state, so that what is computed from them later is concrete too
static void roundAtoms(E a, std::vector<E>& out) { if (a->s != BV || a->k == KIte) return; if (a->k == KRealToInt) { if (std::find(out.begin(), out.end(), a) == out.end()) out.push_back(a); return; } for (auto o : a->ops) roundAtoms(o, out); }
typedef std::unordered_map<E, E> Subst;
static E substBV(E a, Subst& m, int depth = 0) {
  if (a->s != BV || a->isConst() || depth > 60) return a; auto it = m.find(a); if (it != m.end()) return it->second;
  std::vector<E> o; bool ch = false; for (auto x : a->ops) { E y = substBV(x, m, depth + 1); ch |= y != x; o.push_back(y); }
  E r = a;
  if (ch) switch (a->k) {
    case KPoly: { r = bv(a->w, a->c); for (size_t i = 0; i < o.size(); i++) r = add(r, mul(bv(a->w, a->coef[i]), o[i])); break; }
    case KMono: { r = o[0]; for (size_t i = 1; i < o.size(); i++) r = mul(r, o[i]); break; }
    case KUDiv: r = udiv(o[0], o[1]); break; case KURem: r = urem(o[0], o[1]); break; case KSDiv: r = sdiv(o[0], o[1]); break; case KSRem: r = srem(o[0], o[1]); break;
    case KAnd: r = o[0]; for (size_t i = 1; i < o.size(); i++) r = band(r, o[i]); break; case KOr: r = o[0]; for (size_t i = 1; i < o.size(); i++) r = bor(r, o[i]); break; case KXor: r = o[0]; for (size_t i = 1; i < o.size(); i++) r = bxor(r, o[i]); break;
    case KNot: r = bnot(o[0]); break; case KShl: r = shl(o[0], o[1]); break; case KLShr: r = lshr(o[0], o[1]); break; case KAShr: r = ashr(o[0], o[1]); break;
    case KZExt: r = zext(o[0], a->w); break; case KSExt: r = sext(o[0], a->w); break; case KTrunc: r = trunc(o[0], a->w); break;
    case KIte: r = ite(o[0], o[1], o[2]); break; case KEq: r = eq(o[0], o[1]); break; case KUlt: r = ult(o[0], o[1]); break; case KSlt: r = slt(o[0], o[1]); break;
    default: break;
  }
  m[a] = r; return r;
}
static Val substVal(const Val& v, Subst& m) { Val r = v; if (v.e) r.e = substBV(v.e, m); if (v.agg) { auto n = std::make_shared<std::vector<Val>>(*v.agg); for (auto& x : *n) x = substVal(x, m); r.agg = n; } return r; }
static void substState(State* s, Subst& m) {
  for (auto& f : s->stack) { Frame* n = new Frame(*f); n->rc = 0; for (auto& r : n->regs) r = substVal(r, m); f = Ref<Frame>(n); }
  for (size_t k = 0; k < s->mem.size(); k++) { u64 id = s->mem[k].first; Obj* o = s->mem[k].second.p; if (o->kind == OConst) continue;
    for (size_t pi = 0; pi < o->pages.size(); pi++) { if (!o->pages[pi]) continue; for (unsigned c = 0; c < PG; c++) { E v = o->pages[pi]->c[c].v; if (!v || v->s != BV || v->isConst()) continue; E y = substBV(v, m); if (y == v) continue;
      Obj& w = memW(s, id); o = &w; if (w.pages[pi]->rc > 1) w.pages[pi] = Ref<Page>(new Page(*w.pages[pi])); w.pages[pi]->c[c].v = y; } } }
}
// after branching on c in noMerge mode: a small variable that has only one value left becomes a constant in the whole state
static void narrow(State* s, E c, const Model& m) {
  auto& vs = varsOf(c); if (vs.size() != 1 || !m) return; E v = nullptr; { static std::unordered_map<uint32_t, E> byId; static size_t done = 0; for (; done < allVars.size(); done++) byId[allVars[done]->id] = allVars[done]; auto it = byId.find(vs[0]); if (it == byId.end()) return; v = it->second; } if (v->s != BV || v->w > 4) return; u64 k = (evalBegin(m.get()), evalBV(v)); E q = bv(v->w, k);
  if (feasible(s, bnot(eq(v, q)), nullptr) != 0) return; Subst sub; sub[v] = q; substState(s, sub); s->conc.push_back({v, k});
}
struct Retry {};   // the current instruction must be re-executed by the states pushed to 'pending'
static std::vector<State*>* pending = nullptr;
static u64 conc(State* s, E x, const char* why, u64 limit = 600) {
  if (x->isConst()) return x->c;
  for (auto& p : s->conc) if (p.first == x) return p.second;
  // enumerate feasible values with the solver
  std::vector<std::pair<u64, Model>> vals; E excl = mkBool(true); bool unk = false;
  for (;;) {
    Model m; int f = feasible(s, excl, &m);
    if (f == 0) break;
    if (f == 2) { unk = true; break; }
    if (!m) { std::vector<E> all = pcList(s); all.push_back(excl); if (solve(all, &m) != SSat || !m) { unk = true; break; } }
    u64 v = (evalBegin(m.get()), evalBV(x)); vals.push_back({v, m}); excl = band(excl, bnot(eq(x, bv(x->w, v))));
    if (vals.size() > limit) unsupported(std::string("too many values when concretising ") + why);
  }
  if (unk) inconclusive[std::string("concretisation incomplete: ") + why]++;
  for (auto it = vals.rbegin(); it != vals.rend(); ++it) { State* n = cloneState(s); E c = eq(x, bv(x->w, it->first)); pcAdd(n, c); n->hint = it->second; n->conc.push_back({x, it->first});
    std::vector<E> at; roundAtoms(x, at); Subst sub;
    for (E a : at) { u64 v = (evalBegin(it->second.get()), evalBV(a)); E k = bv(a->w, v); if (feasible(n, bnot(eq(a, k)), nullptr) == 0) { n->conc.push_back({a, v}); sub[a] = k; } }
    if (!sub.empty()) substState(n, sub);
    pending->push_back(n); }
  throw Retry();
}

// ------------------------------------------------------------------ exceptions
static const std::map<std::string, std::string>& stdParents() {
  static std::map<std::string, std::string> m = {
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
  return m;
}
static bool tiMatches(const GlobalVariable* thrown, const GlobalVariable* want) {
  if (!want) return true; if (!thrown) return false;
  std::string n = thrown->getName().str(), w = want->getName().str();
  for (int i = 0; i < 20; i++) {
    if (n == w) return true;
    auto it = stdParents().find(n); if (it != stdParents().end()) { n = it->second; continue; }
    auto* g = M->getGlobalVariable(n, true); if (!g || !g->hasInitializer()) return false;
    auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs || cs->getNumOperands() < 3) return false;
    auto* b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts()); if (!b) return false; n = b->getName().str();
  }
  return false;
}
static std::map<const Value*, u64> tiIds;
static u64 tiId(const Value* v) { v = v->stripPointerCasts(); auto it = tiIds.find(v); if (it != tiIds.end()) return it->second; u64 k = tiIds.size() + 1; tiIds[v] = k; return k; }
static const GlobalVariable* stdTi(const char* n) {
  if (auto* g = M->getGlobalVariable(n, true)) return g;
  return new GlobalVariable(*M, PointerType::get(ctx, 0), true, GlobalValue::ExternalLinkage, nullptr, n);
}
// unwind from the current instruction of the top frame; returns false when the path ended
static bool unwind(State* s, u64 ptr, const GlobalVariable* ti) {
  for (;;) {
    if (s->stack.empty()) { report(s, "terminate", "uncaught exception", mkBool(true), s->hint); return false; }
    Frame& f = s->top(); const Instruction& I = *f.it;
    if (auto* iv = dyn_cast<InvokeInst>(&I)) {
      const LandingPadInst* lp = iv->getLandingPadInst(); bool hit = lp->isCleanup(); u64 sel = 0; bool matched = false;
      for (unsigned i = 0; i < lp->getNumClauses() && !matched; i++) {
        if (lp->isCatch(i)) { const Value* c = lp->getClause(i)->stripPointerCasts(); auto* g = dyn_cast<GlobalVariable>(c);
          if (tiMatches(ti, g)) { matched = true; sel = tiId(c); } }
        else { auto* arr = lp->getClause(i); if (arr->getType()->getArrayNumElements() == 0) { report(s, "terminate", "exception escapes a function with an empty exception specification", mkBool(true), s->hint); return false; } }
      }
      if (hit || matched) {
        s->excTypes[ptr] = ti; Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(bv(64, ptr)); v.agg->push_back(bv(32, sel)); f.lp = v;
        enterBlock(s, iv->getUnwindDest(), f.bb); return true;
      }
    }
    if (f.fi->F->doesNotThrow() && !f.fi->F->hasPersonalityFn()) { report(s, "terminate", "exception leaves a noexcept function", mkBool(true), s->hint); return false; }
    killFrame(s);
  }
}
// the standard exception classes live in the C++ library: their objects get a table whose functions are the modelled what()
static u64 stdVtable() {
  static u64 id = ~0ull; if (id != ~0ull) return baseOf(id);
  Function* w = Function::Create(FunctionType::get(PointerType::get(ctx, 0), {PointerType::get(ctx, 0)}, false), GlobalValue::ExternalLinkage, "bsym_4whatEv", *M); id = objInfo.size(); objInfo.push_back({OConst, 40, "vtable of a standard exception"});
  Ref<Obj> o(new Obj(OConst, 40)); for (int i = 0; i < 5; i++) wrObj(*o, 8 * i, 8, bv(64, fnAddress(w))); gvInit[id] = o; return baseOf(id);
}
static bool throwStd(State* s, const char* ti) { u64 id = newObj(s, OExc, 64, "exception"); wrObj(memW(s, id), 0, 8, bv(64, stdVtable())); return unwind(s, baseOf(id), stdTi(ti)); }

// ------------------------------------------------------------------ symbolic API helpers
static std::string cstr(State* s, E p) {
  if (!p->isConst()) unsupported("symbolic string pointer");
  u64 id = (p->c >> 32) - 1, off = p->c & 0xffffffff; std::string r; Ref<Obj>* o = memFind(s, id); if (!o) unsupported("bad string");
  for (; off < (*o)->size; off++) { const Cell* c = cellR(**o, off); if (!c || !c->v) break; E b = byteOf(*c); if (!b->isConst()) unsupported("symbolic string"); if (!b->c) break; r += (char)b->c; }
  return r;
}
static void doCheck(State* s, E cond, const std::string& msg) {
  st.checks++; checkMsgs[msg]++;
  if (cond->isTrue()) { st.checkSimpl++; return; }
  Model m; E bad = bnot(cond); int f = feasible(s, bad, &m);
  if (f == 0) { st.checkSolver++; return; }
  if (f == 2) { st.checkUnknown++; inconclusive["check: " + msg]++; return; }
  report(s, "check", msg, bad, m);
  Model g; int k = feasible(s, cond, &g); if (k == 0) throw DeadPath(); pcAdd(s, cond); s->hint = g;
}
static std::atomic<int>* shardClaims = nullptr; static u64 shardCtr = 0; static int childIdx = 0, nChildren = 1; static const u64 MAXSHARD = 1 << 20;

// returns: 0 = not handled, 1 = handled (result set, advance), 2 = control transferred, 3 = path ended
static int external(State* s, const CallBase* cb, const std::string& n, std::vector<Val>& a, Val& ret);
static int intrinsic(State* s, const CallBase* cb, const Function* F, std::vector<Val>& a, Val& ret);

static int doFree(State* s, E p, OKind want, const char* what) {
  if (p->isConst() && p->c == 0) return 1;
  u64 v = conc(s, p, "pointer passed to a deallocation function"); if (v == 0) return 1;
  u64 id = ((v + (1ull << 31)) >> 32) - 1; Ref<Obj>* o = id < objInfo.size() ? memFind(s, id) : nullptr;
  if (!o) { require(s, mkBool(true), mkBool(false), "memory", std::string(what) + " of memory that is not live (double free)"); return 3; }
  if ((*o)->kind != want || v != baseOf(id)) { require(s, mkBool(true), mkBool(false), "memory", std::string(what) + " does not match the allocation (" + objDesc(id) + ")"); return 3; }
  memErase(s, id); return 1;
}
static int doAlloc(State* s, E sz, OKind k, Val& ret) {
  if (!sz->isConst()) { E big = ult(bv(64, allocLimit), sz); u64 b = conc(s, big, "allocation size limit"); if (b) return k == OMalloc ? (ret = bv(64, 0), 1) : (throwStd(s, "_ZTISt9bad_alloc") ? 2 : 3); }
  u64 n = conc(s, sz, "allocation size");
  if (n > allocLimit) { if (k == OMalloc) { ret = bv(64, 0); return 1; } return throwStd(s, "_ZTISt9bad_alloc") ? 2 : 3; }
  ret = bv(64, baseOf(newObj(s, k, n, ""))); return 1;
}
static void doCopy(State* s, E d, E src, u64 n) {
  if (!n) return;
  u64 da = conc(s, d, "memcpy destination"), sa = conc(s, src, "memcpy source");
  std::vector<Tgt> t1, t2; resolve(bv(64, da), mkBool(true), t1); resolve(bv(64, sa), mkBool(true), t2);
  unsigned nn = (unsigned)std::min<u64>(n, 1u << 31);
  if (!checkTgt(s, t2[0], nn, false, "read (memcpy)") || !checkTgt(s, t1[0], nn, true, "write (memcpy)")) throw DeadPath();
  Ref<Obj>* so = memFind(s, t2[0].id); std::vector<Cell> tmp(n);
  for (u64 i = 0; i < n; i++) { const Cell* c = cellR(**so, t2[0].off->c + i); if (c) tmp[i] = *c; }
  Obj& o = memW(s, t1[0].id); for (u64 i = 0; i < n; i++) cellW(o, t1[0].off->c + i) = tmp[i];
}
static void doSet(State* s, E d, E b, u64 n) {
  if (!n) return; u64 da = conc(s, d, "memset destination"); std::vector<Tgt> t1; resolve(bv(64, da), mkBool(true), t1);
  if (!checkTgt(s, t1[0], (unsigned)std::min<u64>(n, 1u << 31), true, "write (memset)")) throw DeadPath();
  Obj& o = memW(s, t1[0].id); for (u64 i = 0; i < n; i++) wrObj(o, t1[0].off->c + i, 1, b);
}
// the same name may be used at several types or ranges on different paths: each is its own variable
static std::string rangeName(char k, double lo, double hi) { char b[80]; snprintf(b, sizeof b, "#%c[%.17g,%.17g]", k, lo, hi); return b; }
static E roundF(E x, int mode) { return fround_(x, mode); }
static E expF(E x) { if (x->s == REAL) { if (x->isConst() && x->rc == 0) return realc(1); return rfun("exp", {x}); } if (x->isConst()) { if (x->s == F64S) { double d; memcpy(&d, &x->c, 8); return f64c(exp(d)); } float f; uint32_t b = (uint32_t)x->c; memcpy(&f, &b, 4); return f32c(expf(f)); } unsupported("exp of a symbolic IEEE value"); }

static int external(State* s, const CallBase* cb, const std::string& n, std::vector<Val>& a, Val& ret) {
  auto A = [&](int i) { return a[i].e; };
  auto starts = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  // --- symbolic API
  if (starts("sym_")) {
    if (n == "sym_int") { std::string nm = cstr(s, A(0)); int i = (int)(int32_t)conc(s, A(1), "sym idx"); i64 lo = sx(conc(s, A(2), "sym lo"), 32), hi = sx(conc(s, A(3), "sym hi"), 32);
      if (lo > hi) return 3; if (lo == hi) { ret = bv(32, (u64)lo); return 1; }
      unsigned w = 1; // narrow variables blast better
      if (lo >= 0) { while (w < 32 && (1ll << w) <= hi) w++; ret = zext(mkVar(BV, w, nm + rangeName('i', (double)lo, (double)hi), i, true, lo, hi, false), 32); }
      else { w = 2; while (w < 32 && !(lo >= -(1ll << (w - 1)) && hi < (1ll << (w - 1)))) w++; ret = sext(mkVar(BV, w, nm + rangeName('i', (double)lo, (double)hi), i, true, lo, hi, true), 32); }
      return 1; }
    if (n == "sym_bits") { std::string nm = cstr(s, A(0)); int i = (int)conc(s, A(1), "sym idx"); unsigned w = (unsigned)conc(s, A(2), "sym w"); E v = mkVar(BV, w, nm + "#b" + std::to_string(w), i); ret = zext(v, 64); return 1; }
    if (n == "sym_f32" || n == "sym_f64") { std::string nm = cstr(s, A(0)); int i = (int)conc(s, A(1), "sym idx"); E lo = A(2), hi = A(3); auto d = [&](E e) -> double { if (e->s == REAL) return e->rc.get_d(); if (e->s == F32S) { float f; uint32_t b = (uint32_t)e->c; memcpy(&f, &b, 4); return f; } double x; memcpy(&x, &e->c, 8); return x; };
      Sort so = n == "sym_f32" ? F32S : F64S;
      ret = mkFVar(realMode ? REAL : so, nm + rangeName(so == F32S ? 'f' : 'd', d(lo), d(hi)), i, d(lo), d(hi)); return 1; }
    if (n == "sym_fork") { std::string nm = cstr(s, A(0)); i64 lo = sx(conc(s, A(1), "sym lo"), 32), hi = sx(conc(s, A(2), "sym hi"), 32); if (lo > hi) return 3; if (lo == hi) { ret = bv(32, (u64)lo); return 1; } E v = mkVar(BV, 32, nm + rangeName('k', (double)lo, (double)hi), 0, true, lo, hi, true);
      for (auto& p : s->conc) if (p.first == v) { ret = bv(32, p.second); return 1; }
      for (i64 k = hi; k >= lo; k--) { State* c = cloneState(s); E q = eq(v, bv(32, (u64)k)); pcAdd(c, q); Model m = std::make_shared<Assign>(c->hint ? *c->hint : Assign()); m->bv[v->id] = (u64)k & 0xffffffff; if (c->hint) c->hint = m; c->conc.push_back({v, (u64)k & 0xffffffff}); pending->push_back(c); }
      throw Retry(); }
    if (n == "sym_concretize") { ret = bv(32, conc(s, A(0), "sym_concretize")); return 1; }
    if (n == "sym_assume") { E c = bnot(eq(A(0), bv(A(0)->w, 0))); Model m; int f = feasible(s, c, &m); if (f == 0) { st.aborted++; return 3; } if (f == 2) s->maybeInfeasible = true; pcAdd(s, c); s->hint = m; return 1; }
    if (n == "sym_check") { doCheck(s, bnot(eq(A(0), bv(A(0)->w, 0))), cstr(s, A(1))); return 1; }
    if (n == "sym_close") { // |x-y| <= tol
      E x = A(0), y = A(1), tol = A(2); E d = fsub(x, y); E c = x == y ? mkBool(true) : x->s == REAL ? band(fle(d, tol), fle(fneg(tol), d)) : bor(feq(x, y), band(fle(d, tol), fle(fneg(tol), d))); if (x != y && x->s == REAL && !c->isConst()) { E t2 = fmul(tol, realc(50)); doCheck(s, band(fle(d, t2), fle(fneg(t2), d)), cstr(s, A(3))); } // prefer counterexamples far from the tolerance
      doCheck(s, c, cstr(s, A(3))); return 1; }
    if (n == "sym_cover") { std::string m = cstr(s, A(0)); if (!s->maybeInfeasible) { covers[m]++; if (s->hint && !coverModels.count(m)) coverModels[m] = *s->hint; } return 1; }
    if (n == "sym_heap_live") { ret = bv(32, (u64)s->heapLive); return 1; }
    if (n == "sym_is_symbolic") { ret = bv(32, 1); return 1; }
    if (n == "sym_real_mode") { ret = bv(32, realMode); return 1; }
    if (n == "sym_tier") { ret = bv(32, getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough") ? 1 : 0); return 1; }
    if (n == "sym_tag") { s->tag = cstr(s, A(0)); return 1; }
    if (n == "sym_end") return 3;
    if (n == "sym_debug") { std::cerr << "[debug] " << show(A(0), 8) << "\n"; return 1; }
    if (n == "sym_shard") { if (s->sharded) return 1; u64 k = shardCtr++; st.shards = shardCtr; if (expired()) { stopAll = true; return 3; } if (k < MAXSHARD && shardClaims) { int z = 0; if (!shardClaims[k].compare_exchange_strong(z, 1)) return 3; } s->sharded = true; s->steps = 0; st.shardsDone++; return 1; }
    unsupported("unknown symbolic API " + n);
  }
  // --- allocation
  if (n == "_Znwm" || n == "_ZnwmRKSt9nothrow_t") return doAlloc(s, A(0), ONew, ret);
  if (n == "_Znam" || n == "_ZnamRKSt9nothrow_t") return doAlloc(s, A(0), ONewArr, ret);
  if (n == "malloc") return doAlloc(s, A(0), OMalloc, ret);
  if (n == "calloc") { int r = doAlloc(s, mul(A(0), A(1)), OMalloc, ret); if (r == 1 && ret.e->c) { u64 sz = conc(s, mul(A(0), A(1)), "calloc"); doSet(s, ret.e, bv(8, 0), sz); } return r; }
  if (n == "_ZdlPv" || n == "_ZdlPvm") return doFree(s, A(0), ONew, "delete");
  if (n == "_ZdaPv" || n == "_ZdaPvm") return doFree(s, A(0), ONewArr, "delete[]");
  if (n == "free") return doFree(s, A(0), OMalloc, "free");
  if (n == "realloc") { u64 p = conc(s, A(0), "realloc"); Val nv; int r = doAlloc(s, A(1), OMalloc, nv); if (r != 1) return r; if (p) { u64 id = (p >> 32) - 1; Ref<Obj>* o = memFind(s, id); if (!o) { require(s, mkBool(true), mkBool(false), "memory", "realloc of dead memory"); return 3; } u64 m = std::min((*o)->size, conc(s, A(1), "realloc size")); doCopy(s, nv.e, A(0), m); memErase(s, id); } ret = nv; return 1; }
  // --- exceptions
  if (n == "__cxa_allocate_exception") { ret = bv(64, baseOf(newObj(s, OExc, std::max<u64>(conc(s, A(0), "exc size"), 1), "exception"))); return 1; }
  if (n == "__cxa_free_exception") { memErase(s, (A(0)->c >> 32) - 1); return 1; }
  if (n == "__cxa_throw") { auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts()); return unwind(s, conc(s, A(0), "exception pointer"), g) ? 2 : 3; }
  if (n == "__cxa_rethrow") { if (s->caught.empty()) { report(s, "terminate", "rethrow without an exception", mkBool(true), s->hint); return 3; } ExcState x = s->caught.back(); return unwind(s, x.ptr, x.ti) ? 2 : 3; }
  if (n == "__cxa_begin_catch") { u64 p = A(0)->c; s->caught.push_back({p, s->excTypes[p]}); ret = A(0); return 1; }
  if (n == "__cxa_get_exception_ptr") { ret = A(0); return 1; }
  if (n == "__cxa_end_catch") { if (s->caught.empty()) return 1; u64 p = s->caught.back().ptr; s->caught.pop_back(); bool still = false; for (auto& c : s->caught) if (c.ptr == p) still = true;
    if (!still) memErase(s, (p >> 32) - 1); return 1; }
  if (n == "_ZSt9terminatev" || n == "abort" || n == "__clang_call_terminate") { report(s, "terminate", n == "abort" ? "abort() called" : "std::terminate called", mkBool(true), s->hint); return 3; }
  if (n == "_ZSt17__throw_bad_allocv" || n == "_ZSt28__throw_bad_array_new_lengthv" || n == "__cxa_throw_bad_array_new_length") return throwStd(s, "_ZTISt9bad_alloc") ? 2 : 3;
  if (n == "_ZSt20__throw_length_errorPKc") return throwStd(s, "_ZTISt12length_error") ? 2 : 3;
  if (n == "_ZSt20__throw_out_of_rangePKc" || n == "_ZSt24__throw_out_of_range_fmtPKcz") return throwStd(s, "_ZTISt12out_of_range") ? 2 : 3;
  if (n == "_ZSt19__throw_logic_errorPKc") return throwStd(s, "_ZTISt11logic_error") ? 2 : 3;
  if (n == "_ZSt24__throw_invalid_argumentPKc") return throwStd(s, "_ZTISt16invalid_argument") ? 2 : 3;
  if (n == "_ZSt25__throw_bad_function_callv") return throwStd(s, "_ZTISt17bad_function_call") ? 2 : 3;
  if (n == "__gxx_personality_v0") return 1;
  if (starts("_ZNSt") && (n.find("errorC") != std::string::npos || n.find("errorD") != std::string::npos || n.find("argumentC") != std::string::npos || n.find("argumentD") != std::string::npos || n.find("out_of_rangeC") != std::string::npos || n.find("out_of_rangeD") != std::string::npos || n.find("exceptionD") != std::string::npos || n.find("bad_allocD") != std::string::npos)) { if (n.find("C1E") != std::string::npos || n.find("C2E") != std::string::npos) storeE(s, A(0), 8, bv(64, stdVtable())); if (!cb->getType()->isVoidTy()) ret = A(0); return 1; }
  if (starts("_ZNKSt9exception4what") || n.find("4whatEv") != std::string::npos) { static u64 id = ~0ull; if (id == ~0ull) { id = objInfo.size(); objInfo.push_back({OConst, 1, "what"}); Ref<Obj> o(new Obj(OConst, 1)); wrObj(*o, 0, 1, bv(8, 0)); gvInit[id] = o; } ret = bv(64, baseOf(id)); return 1; }
  // --- runtime support
  if (n == "__cxa_atexit" || n == "atexit") { ret = bv(32, 0); return 1; }
  if (n == "__cxa_guard_acquire") { E g = loadE(s, A(0), 1, BV, 8); ret = bv(32, g->isConst() && g->c ? 0 : 1); return 1; }
  if (n == "__cxa_guard_release") { storeE(s, A(0), 1, bv(8, 1)); return 1; }
  if (n == "__cxa_guard_abort") return 1;
  if (n == "__cxa_pure_virtual") { report(s, "terminate", "pure virtual call", mkBool(true), s->hint); return 3; }
  if (n == "__errno_location") { static const GlobalVariable* g = new GlobalVariable(*M, Type::getInt32Ty(ctx), false, GlobalValue::InternalLinkage, ConstantInt::get(Type::getInt32Ty(ctx), 0), "bsym.errno"); ret = bv(64, gvAddress(g)); return 1; }
  // --- output: no effect
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs" || n == "fputc" || n == "fwrite") { ret = bv(bitsOf(cb->getType()), 0); return 1; }
  if (starts("_ZNSt8ios_base4Init") || starts("_ZNSt6localeC") || starts("_ZNSt6localeD")) return 1;
  if (starts("_ZStls") || starts("_ZNSols") || starts("_ZNSo") || starts("_ZSt4endl") || starts("_ZSt5flush") || starts("_ZSt16__ostream_insert")) { ret = a.empty() ? Val(bv(64, 0)) : a[0]; return 1; }
  // --- memory / strings
  if (n == "memcpy" || n == "memmove") { u64 len = conc(s, A(2), "memcpy length"); doCopy(s, A(0), A(1), len); ret = A(0); return 1; }
  if (n == "memset") { u64 len = conc(s, A(2), "memset length"); doSet(s, A(0), trunc(A(1), 8), len); ret = A(0); return 1; }
  if (n == "strlen") { std::string x = cstr(s, A(0)); ret = bv(64, x.size()); return 1; }
  if (n == "memcmp" || n == "bcmp") { u64 len = conc(s, A(2), "memcmp length"); E r = bv(32, 0); for (u64 i = len; i-- > 0;) { E x = loadE(s, add(A(0), bv(64, i)), 1, BV, 8), y = loadE(s, add(A(1), bv(64, i)), 1, BV, 8); r = ite(eq(x, y), r, ite(ult(x, y), bv(32, ~0ull), bv(32, 1))); } ret = r; return 1; }
  if (n == "memchr") { unsupported("memchr"); }
  // --- math
  auto f1 = [&](const char* b) { return n == b || n == std::string(b) + "f"; };
  if (f1("floor")) { ret = roundF(A(0), 0); return 1; } if (f1("ceil")) { ret = roundF(A(0), 1); return 1; } if (f1("trunc")) { ret = roundF(A(0), 2); return 1; }
  if (f1("round")) { ret = roundF(A(0), 3); return 1; } if (f1("rint") || f1("nearbyint")) { ret = roundF(A(0), 4); return 1; }
  if (f1("fabs")) { ret = fabs_(A(0)); return 1; } if (f1("sqrt")) { ret = fsqrt_(A(0)); return 1; } if (f1("exp")) { ret = expF(A(0)); return 1; }
  if (f1("log") || n == "logl") { E a = A(0); if (!a->isConst()) unsupported("log of a symbolic value"); double d; if (a->s == REAL) d = a->rc.get_d(); else if (a->s == F32S) { float f; uint32_t b = (uint32_t)a->c; memcpy(&f, &b, 4); ret = f32c(logf(f)); return 1; } else memcpy(&d, &a->c, 8); d = log(d); ret = a->s == REAL ? realc(mpq_class(d)) : f64c(d); return 1; }
  if (f1("nextafter")) { E a = A(0), b = A(1); if (!a->isConst() || !b->isConst() || a->s == REAL) unsupported("nextafter of a symbolic value"); if (a->s == F32S) { float f, g; uint32_t u = (uint32_t)a->c, w = (uint32_t)b->c; memcpy(&f, &u, 4); memcpy(&g, &w, 4); ret = f32c(nextafterf(f, g)); } else { double f, g; memcpy(&f, &a->c, 8); memcpy(&g, &b->c, 8); ret = f64c(nextafter(f, g)); } return 1; }
  if (f1("fmod")) { ret = frem_(A(0), A(1)); return 1; }
  if (f1("fmax") || f1("fmin")) { bool mx = n.compare(0, 4, "fmax") == 0; E x = A(0), y = A(1); E c = mx ? flt(x, y) : flt(y, x); ret = ite(fisnan(x), y, ite(fisnan(y), x, ite(c, y, x))); return 1; }
  if (f1("pow")) { E y = A(1); E x = A(0); if (y->s == REAL ? y->rc == 2 && y->isConst() : y->isConst() && y == (y->s == F64S ? f64c(2) : f32c(2))) { ret = fmul(x, x); return 1; } unsupported("pow"); }
  if (f1("lround") || f1("llround")) { ret = fptosi(roundF(A(0), 3), 64); return 1; }
  if (n == "abs") { E x = A(0); ret = ite(slt(x, bv(32, 0)), neg(x), x); return 1; }
  if (n == "rand") { ret = mkVar(BV, 32, "rand", (int)undefCtr++, true, 0, INT32_MAX, true); return 1; }
  return 0;
}
static int intrinsic(State* s, const CallBase* cb, const Function* F, std::vector<Val>& a, Val& ret) {
  auto A = [&](int i) { return a[i].e; };
  auto ovf = [&](E r, E o) { Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(r); v.agg->push_back(o); ret = v; return 1; };
  switch (F->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: return 1;
    case Intrinsic::vastart: { E p = A(0); u64 va = s->top().va; storeE(s, p, 4, bv(32, 48)); storeE(s, add(p, bv(64, 4)), 4, bv(32, 304)); storeE(s, add(p, bv(64, 8)), 8, bv(64, va)); storeE(s, add(p, bv(64, 16)), 8, bv(64, 0)); return 1; } // every register slot used up
    case Intrinsic::vaend: return 1;
    case Intrinsic::vacopy: doCopy(s, A(0), A(1), 24); return 1;
    case Intrinsic::stacksave: ret = bv(64, 0); return 1;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doCopy(s, A(0), A(1), conc(s, A(2), "memcpy length")); return 1;
    case Intrinsic::memset: case Intrinsic::memset_inline: doSet(s, A(0), A(1), conc(s, A(2), "memset length")); return 1;
    case Intrinsic::eh_typeid_for: ret = bv(32, tiId(cb->getArgOperand(0))); return 1;
    case Intrinsic::trap: case Intrinsic::ubsantrap: report(s, "memory", "trap reached", mkBool(true), s->hint); return 3;
    case Intrinsic::expect: ret = a[0]; return 1;
    case Intrinsic::expect_with_probability: ret = a[0]; return 1;
    case Intrinsic::objectsize: ret = bv(bitsOf(cb->getType()), ~0ull); return 1;
    case Intrinsic::is_constant: ret = bv(1, 0); return 1;
    case Intrinsic::fabs: ret = fabs_(A(0)); return 1;
    case Intrinsic::sqrt: ret = fsqrt_(A(0)); return 1;
    case Intrinsic::floor: ret = fround_(A(0), 0); return 1;
    case Intrinsic::ceil: ret = fround_(A(0), 1); return 1;
    case Intrinsic::trunc: ret = fround_(A(0), 2); return 1;
    case Intrinsic::round: ret = fround_(A(0), 3); return 1;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret = fround_(A(0), 4); return 1;
    case Intrinsic::exp: ret = expF(A(0)); return 1;
    case Intrinsic::fmuladd: ret = fadd(fmul(A(0), A(1)), A(2)); return 1;
    case Intrinsic::maxnum: case Intrinsic::minnum: { bool mx = F->getIntrinsicID() == Intrinsic::maxnum; E x = A(0), y = A(1); ret = ite(fisnan(x), y, ite(fisnan(y), x, ite(mx ? flt(x, y) : flt(y, x), y, x))); return 1; }
    case Intrinsic::smax: ret = ite(slt(A(0), A(1)), A(1), A(0)); return 1;
    case Intrinsic::smin: ret = ite(slt(A(1), A(0)), A(1), A(0)); return 1;
    case Intrinsic::umax: ret = ite(ult(A(0), A(1)), A(1), A(0)); return 1;
    case Intrinsic::umin: ret = ite(ult(A(1), A(0)), A(1), A(0)); return 1;
    case Intrinsic::abs: ret = ite(slt(A(0), bv(A(0)->w, 0)), neg(A(0)), A(0)); return 1;
    case Intrinsic::umul_with_overflow: { unsigned w = A(0)->w; E r = mul(A(0), A(1)); E o; if (A(0)->isConst() || A(1)->isConst()) { E k = A(0)->isConst() ? A(0) : A(1), x = A(0)->isConst() ? A(1) : A(0); o = k->c == 0 ? mkBool(false) : ult(bv(w, maskw(w) / k->c), x); } else { o = band(bnot(eq(A(0), bv(w, 0))), bnot(eq(udiv(r, A(0)), A(1)))); } return ovf(r, o); }
    case Intrinsic::uadd_with_overflow: { E r = add(A(0), A(1)); return ovf(r, ult(r, A(0))); }
    case Intrinsic::usub_with_overflow: return ovf(sub(A(0), A(1)), ult(A(0), A(1)));
    case Intrinsic::sadd_with_overflow: { E r = add(A(0), A(1)); E z = bv(r->w, 0); return ovf(r, bxor(slt(A(1), z), slt(r, A(0)))); }
    case Intrinsic::ssub_with_overflow: { E r = sub(A(0), A(1)); E z = bv(r->w, 0); return ovf(r, bxor(slt(A(1), z), slt(A(0), r))); }
    default: break;
  }
  if (F->getName().starts_with("llvm.lifetime") || F->getName().starts_with("llvm.dbg")) return 1;
  unsupported("intrinsic " + F->getName().str());
}

// ------------------------------------------------------------------ interpreter
struct Stop { size_t depth; const BasicBlock* bb; };
static int recursion = 0;
static void runUntil(State* s0, Stop stop, std::vector<State*>& out);

static void pushCall(State* s, const Function* F, std::vector<Val>& args, const CallBase* cb) {
  if (s->stack.size() > 400) { report(s, "hang", "unbounded recursion", mkBool(true), s->hint); throw DeadPath(); }
  FnInfo* fi = info(F); Frame* f = new Frame(); f->fi = fi; f->regs.resize(fi->n); unsigned i = 0;
  Ref<Frame> rf(f); 
  for (auto& a : F->args()) { if (i < args.size()) {
      if (cb && cb->isByValArgument(i)) { u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i)); u64 id = newObj(s, OStack, sz, "byval"); f->allocas.push_back(id); doCopy(s, bv(64, baseOf(id)), args[i].e, sz); f->regs[fi->num[&a]] = bv(64, baseOf(id)); }
      else f->regs[fi->num[&a]] = args[i]; } i++; }
  if (F->isVarArg()) { // the extra arguments, in the 8-byte slots of the x86-64 overflow area
    unsigned np = F->arg_size(), k = args.size() > np ? args.size() - np : 0; u64 id = newObj(s, OStack, 8 * std::max(k, 1u), "variable arguments"); f->allocas.push_back(id); f->va = baseOf(id);
    for (unsigned j = 0; j < k; j++) { E e = args[np + j].e; if (!e) unsupported("aggregate passed to a variadic function"); unsigned bits = e->s == BV ? e->w : 64; if (e->s == F32S || (bits != 32 && bits != 64)) unsupported("argument type of a variadic function"); storeE(s, bv(64, f->va + 8 * j), bits / 8, e); }
  }
  f->bb = &F->getEntryBlock(); f->it = f->bb->begin(); s->stack.push_back(rf); s->atStart = false;
}
static void finishCall(State* s, const Instruction* I) { // after a call returned normally
  Frame& f = s->top();
  if (auto* iv = dyn_cast<InvokeInst>(I)) enterBlock(s, iv->getNormalDest(), f.bb); else ++f.it;
}
static E cmp(const CmpInst* c, E x, E y) {
  switch (c->getPredicate()) {
    case CmpInst::ICMP_EQ: return eq(x, y); case CmpInst::ICMP_NE: return bnot(eq(x, y));
    case CmpInst::ICMP_ULT: return ult(x, y); case CmpInst::ICMP_ULE: return ule(x, y); case CmpInst::ICMP_UGT: return ult(y, x); case CmpInst::ICMP_UGE: return ule(y, x);
    case CmpInst::ICMP_SLT: return slt(x, y); case CmpInst::ICMP_SLE: return sle(x, y); case CmpInst::ICMP_SGT: return slt(y, x); case CmpInst::ICMP_SGE: return sle(y, x);
    default: break;
  }
  E un = bor(fisnan(x), fisnan(y));
  switch (c->getPredicate()) {
    case CmpInst::FCMP_FALSE: return mkBool(false); case CmpInst::FCMP_TRUE: return mkBool(true);
    case CmpInst::FCMP_OEQ: return feq(x, y); case CmpInst::FCMP_UEQ: return bor(un, feq(x, y));
    case CmpInst::FCMP_ONE: return band(bnot(un), bnot(feq(x, y))); case CmpInst::FCMP_UNE: return bnot(feq(x, y));
    case CmpInst::FCMP_OLT: return flt(x, y); case CmpInst::FCMP_ULT: return bor(un, flt(x, y));
    case CmpInst::FCMP_OLE: return fle(x, y); case CmpInst::FCMP_ULE: return bor(un, fle(x, y));
    case CmpInst::FCMP_OGT: return flt(y, x); case CmpInst::FCMP_UGT: return bor(un, flt(y, x));
    case CmpInst::FCMP_OGE: return fle(y, x); case CmpInst::FCMP_UGE: return bor(un, fle(y, x));
    case CmpInst::FCMP_ORD: return bnot(un); case CmpInst::FCMP_UNO: return un;
    default: unsupported("cmp");
  }
}
static Val lift2(const Val& x, const Val& y, const std::function<E(E, E)>& f) {
  if (x.agg) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < x.agg->size(); i++) v.agg->push_back(lift2((*x.agg)[i], (*y.agg)[i], f)); return v; }
  return f(x.e, y.e);
}
static void fcastCheck(State* s, E x, unsigned w, bool sgn) {
  if (!ubFloat) return;
  if (x->s == REAL) { mpq_class one = 1, two = 2; mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 2, sgn ? w - 1 : w); mpq_class hi(p), lo = sgn ? -hi - 1 : mpq_class(-1); require(s, mkBool(true), band(flt(realc(lo), x), flt(x, realc(hi))), "memory", "float to integer conversion out of range (undefined behaviour)"); return; }
  double lo = sgn ? -std::ldexp(1.0, w - 1) - 1 : -1, hi = std::ldexp(1.0, sgn ? w - 1 : w);
  Sort so = x->s; E l, h = so == F32S ? f32c((float)hi) : f64c(hi);
  E okl; if (so == F32S && sgn && w >= 25) okl = fle(f32c((float)-std::ldexp(1.0, w - 1)), x); else { l = so == F32S ? f32c((float)lo) : f64c(lo); okl = flt(l, x); }
  require(s, mkBool(true), band(band(bnot(fisnan(x)), okl), flt(x, h)), "memory", "float to integer conversion out of range (undefined behaviour)");
}
// true: the conversion of a real to a signed integer of w bits is in range on this path
static bool convInRange(State* s, E x, unsigned w) {
  if (x->s != REAL || x->isConst()) return false;
  mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 2, w - 1); mpq_class hi(p); E bad = bor(fle(x, realc(-hi - 1)), fle(realc(hi), x));
  if (bad->isConst()) return bad->isFalse();
  Model m; return feasible(s, bad, &m) == 0;
}
// executes one instruction.  returns: 0 continue, 1 path ended, 2 states pushed into 'succ' (this state consumed)
static int step(State* s, std::vector<State*>& work, const Stop& stop);

static void mergeAll(std::vector<State*>& v, PCNode* base) { // merge states at the same location (guards from their suffixes)
  for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size();) { State *a = v[i], *b = v[j]; if (mergeable(a, b)) { E g = suffix(a, base); if (mergeInto(a, b, g, base)) { v.erase(v.begin() + j); continue; } } j++; }
}
// run the alternatives (each a state already positioned in its successor) and merge at (depth, bb)
static void runAlternatives(std::vector<std::pair<State*, E>>& alts, PCNode* base, const BasicBlock* join, std::vector<State*>& work) {
  if (!join) { for (auto it = alts.rbegin(); it != alts.rend(); ++it) work.push_back(it->first); return; }
  size_t depth = alts[0].first->stack.size(); Stop st2{depth, join};
  Ref<PCNode> keep(base);
  std::vector<std::pair<std::vector<State*>, E>> groups; std::vector<State*> esc;
  for (auto& al : alts) {
    std::vector<State*> o, at; runUntil(al.first, st2, o);
    for (State* x : o) if (x->stack.size() == depth && x->top().bb == join && x->atStart) at.push_back(x); else esc.push_back(x);
    if (at.size() > 1) mergeAll(at, base);
    groups.push_back({at, al.second});
  }
  std::vector<State*> res;
  for (auto& g : groups) for (State* x : g.first) {
    bool done = false;
    for (State*& r : res) if (mergeable(r, x)) {
      E guard = (groups.size() == 2 && groups[0].first.size() <= 1 && groups[1].first.size() <= 1) ? groups[0].second : suffix(r, base);
      if (mergeInto(r, x, guard, base)) { done = true; break; } }
    if (!done) res.push_back(x);
  }
  // escaped states (exceptions / returns out of the frame): merge those at identical places
  for (size_t i = 0; i < esc.size(); i++) for (size_t j = i + 1; j < esc.size();) { if (mergeable(esc[i], esc[j]) && mergeInto(esc[i], esc[j], suffix(esc[i], base), base)) { esc.erase(esc.begin() + j); continue; } j++; }
  for (auto it = esc.rbegin(); it != esc.rend(); ++it) work.push_back(*it);
  for (auto it = res.rbegin(); it != res.rend(); ++it) work.push_back(*it);
}

static int step(State* s, std::vector<State*>& work, const Stop& stop) {
  Frame& f = s->top(); const Instruction& I = *f.it; s->atStart = false;
  st.steps++; s->steps++;
  if (s->steps > maxSteps) { report(s, "hang", "instruction budget exceeded: a loop does not terminate within the bound", mkBool(true), s->hint); inconclusive["instruction budget exceeded"]++; return 1; }
  auto V = [&](unsigned i) { return getVal(f, I.getOperand(i)); };
  auto Ev = [&](unsigned i) { return getVal(f, I.getOperand(i)).e; };
  auto set = [&](Val v) { setVal(f, &I, std::move(v)); ++f.it; return 0; };
  if (!realMode) {
    bool ld = I.getType()->isX86_FP80Ty(); for (auto& op : I.operands()) ld = ld || op->getType()->isX86_FP80Ty();
    if (ld && !isa<CallBase>(I)) for (unsigned i = 0; i < I.getNumOperands(); i++) if (I.getOperand(i)->getType()->isFloatingPointTy()) { E e = Ev(i); if (!e || !e->isConst()) unsupported("long double arithmetic on symbolic values"); }
  }
  switch (I.getOpcode()) {
    case Instruction::Add: return set(lift2(V(0), V(1), [](E a, E b) { return ::add(a, b); }));
    case Instruction::Sub: return set(lift2(V(0), V(1), [](E a, E b) { return ::sub(a, b); }));
    case Instruction::Mul: return set(lift2(V(0), V(1), [](E a, E b) { return ::mul(a, b); }));
    case Instruction::And: return set(lift2(V(0), V(1), [](E a, E b) { return ::band(a, b); }));
    case Instruction::Or: return set(lift2(V(0), V(1), [](E a, E b) { return ::bor(a, b); }));
    case Instruction::Xor: return set(lift2(V(0), V(1), [](E a, E b) { return ::bxor(a, b); }));
    case Instruction::Shl: return set(lift2(V(0), V(1), [](E a, E b) { return ::shl(a, b); }));
    case Instruction::LShr: { bool ex = I.isExact(); return set(lift2(V(0), V(1), [&](E a, E b) { return lshr(a, b, ex); })); }
    case Instruction::AShr: { bool ex = I.isExact(); return set(lift2(V(0), V(1), [&](E a, E b) { return ashr(a, b, ex); })); }
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      E a = Ev(0), b = Ev(1); if (!a) unsupported("vector division");
      if (!require(s, mkBool(true), bnot(eq(b, bv(b->w, 0))), "memory", "integer division by zero")) return 1;
      if ((I.getOpcode() == Instruction::SDiv || I.getOpcode() == Instruction::SRem) && a->slo == sminw(a->w) && b->slo <= -1 && b->shi >= -1)
        if (!require(s, mkBool(true), bnot(band(eq(a, bv(a->w, 1ull << (a->w - 1))), eq(b, bv(b->w, ~0ull)))), "memory", "integer division overflow")) return 1;
      Frame& g = s->top(); E r;
      switch (I.getOpcode()) { case Instruction::UDiv: r = udiv(a, b); break; case Instruction::URem: r = urem(a, b); break; case Instruction::SDiv: r = sdiv(a, b, I.isExact()); break; default: r = srem(a, b); }
      setVal(g, &I, r); ++g.it; return 0; }
    case Instruction::FAdd: return set(lift2(V(0), V(1), [](E a, E b) { return ::fadd(a, b); }));
    case Instruction::FSub: return set(lift2(V(0), V(1), [](E a, E b) { return ::fsub(a, b); }));
    case Instruction::FMul: return set(lift2(V(0), V(1), [](E a, E b) { return ::fmul(a, b); }));
    case Instruction::FDiv: return set(lift2(V(0), V(1), [](E a, E b) { return ::fdiv(a, b); }));
    case Instruction::FRem: return set(lift2(V(0), V(1), [](E a, E b) { return ::frem_(a, b); }));
    case Instruction::FNeg: { Val v = V(0); if (v.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto& x : *v.agg) r.agg->push_back(fneg(x.e)); return set(r); } return set(fneg(v.e)); }
    case Instruction::ICmp: case Instruction::FCmp: { auto* c = cast<CmpInst>(&I); return set(lift2(V(0), V(1), [&](E a, E b) { return cmp(c, a, b); })); }
    case Instruction::ZExt: return set(zext(Ev(0), bitsOf(I.getType())));
    case Instruction::SExt: return set(sext(Ev(0), bitsOf(I.getType())));
    case Instruction::Trunc: return set(trunc(Ev(0), bitsOf(I.getType())));
    case Instruction::FPExt: return set(fpext(Ev(0), sortOf(I.getType())));
    case Instruction::FPTrunc: return set(fptrunc(Ev(0), sortOf(I.getType())));
    case Instruction::SIToFP: return set(sitofp(Ev(0), sortOf(I.getType())));
    case Instruction::UIToFP: return set(uitofp(Ev(0), sortOf(I.getType())));
    case Instruction::FPToSI: { E x = Ev(0); unsigned w = bitsOf(I.getType()); fcastCheck(s, x, w, true); E r = fptosi(x, w, convInRange(s, x, w)); if (r->k == KRealToInt) for (auto& q : s->conc) if (q.first == r) { r = bv(w, q.second); break; } if (forkRound && r->k == KRealToInt && r->c && r->shi - r->slo < (i64)forkRound) { E a = r->ops[0]; r = bv(w, conc(s, r, "rounding")); (void)a; } Frame& g = s->top(); setVal(g, &I, r); ++g.it; return 0; }
    case Instruction::FPToUI: { E x = Ev(0); unsigned w = bitsOf(I.getType()); fcastCheck(s, x, w, false); Frame& g = s->top(); setVal(g, &I, fptoui(x, w, convInRange(s, x, w))); ++g.it; return 0; }
    case Instruction::PtrToInt: return set(trunc(Ev(0), bitsOf(I.getType())));
    case Instruction::IntToPtr: return set(zext(Ev(0), 64));
    case Instruction::BitCast: { Val v = V(0); Type *a = I.getOperand(0)->getType(), *b = I.getType(); if (a == b || (a->isPointerTy() && b->isPointerTy())) return set(v);
      if (isScalar(a) && isScalar(b)) { if (b->isFloatingPointTy() && a->isIntegerTy()) { if (realMode) { if (v.e->isConst()) return set(realc(fpToRat(bitsToFp(v.e, b->isFloatTy() ? F32S : F64S)))); unsupported("bitcast to float in real mode"); } return set(bitsToFp(v.e, sortOf(b))); } if (a->isFloatingPointTy() && b->isIntegerTy()) { if (realMode) unsupported("bitcast of float in real mode"); return set(fpToBits(v.e)); } }
      // vectors: through a scratch object
      u64 id = newObj(s, OStack, DL->getTypeAllocSize(a), "bitcast"); storeVal(s, bv(64, baseOf(id)), a, v); Val r = loadVal(s, bv(64, baseOf(id)), b); memErase(s, id); Frame& g = s->top(); setVal(g, &I, r); ++g.it; return 0; }
    case Instruction::AddrSpaceCast: return set(V(0));
    case Instruction::Freeze: return set(V(0));
    case Instruction::Select: { E c = Ev(0); Val x = V(1), y = V(2), r; if (!c) unsupported("vector select"); if (c->isConst()) return set(c->c ? x : y); if (!iteVal(c, x, y, r)) unsupported("select of values with different shapes"); return set(r); }
    case Instruction::GetElementPtr: {
      E p = Ev(0); u64 k = 0; if (!p) unsupported("vector gep");
      for (gep_type_iterator g = gep_type_begin(I), e = gep_type_end(I); g != e; ++g) {
        const Value* op = g.getOperand();
        if (StructType* sty = g.getStructTypeOrNull()) { k += DL->getStructLayout(sty)->getElementOffset((unsigned)cast<ConstantInt>(op)->getZExtValue()); continue; }
        u64 es = DL->getTypeAllocSize(g.getIndexedType()); E x = getVal(f, op).e; if (x->w < 64) x = sext(x, 64);
        if (x->isConst()) k += x->c * es; else p = add(p, mul(bv(64, es), x));
      }
      return set(add(p, bv(64, k))); }
    case Instruction::Alloca: { auto* al = cast<AllocaInst>(&I); u64 n = conc(s, zext(Ev(0), 64), "alloca size"); u64 es = DL->getTypeAllocSize(al->getAllocatedType()); if (n * es > allocLimit) { report(s, "memory", "stack overflow (huge variable length array)", mkBool(true), s->hint); return 1; } u64 id = newObj(s, OStack, n * es, "alloca"); Frame& g = s->top(); g.allocas.push_back(id); setVal(g, &I, bv(64, baseOf(id))); ++g.it; return 0; }
    case Instruction::Load: { Val v = loadVal(s, Ev(0), I.getType()); Frame& g = s->top(); setVal(g, &I, v); ++g.it; return 0; }
    case Instruction::Store: { Val v = V(0); storeVal(s, Ev(1), I.getOperand(0)->getType(), v); ++s->top().it; return 0; }
    case Instruction::AtomicRMW: { auto* r = cast<AtomicRMWInst>(&I); E p = Ev(0), x = Ev(1); E old = loadVal(s, p, I.getType()).e; E nv; switch (r->getOperation()) { case AtomicRMWInst::Add: nv = add(old, x); break; case AtomicRMWInst::Sub: nv = sub(old, x); break; case AtomicRMWInst::Xchg: nv = x; break; default: unsupported("atomicrmw"); } storeVal(s, p, I.getType(), nv); Frame& g = s->top(); setVal(g, &I, old); ++g.it; return 0; }
    case Instruction::Fence: ++f.it; return 0;
    case Instruction::ExtractValue: { Val v = V(0); for (unsigned i : cast<ExtractValueInst>(&I)->indices()) { Val t = (*v.agg)[i]; v = t; } return set(v); }
    case Instruction::InsertValue: { Val v = V(0); auto idx = cast<InsertValueInst>(&I)->getIndices(); Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); Val* cur = &r; for (size_t i = 0; i < idx.size(); i++) { cur->agg = std::make_shared<std::vector<Val>>(*cur->agg); cur = &(*cur->agg)[idx[i]]; } *cur = V(1); return set(r); }
    case Instruction::ExtractElement: { Val v = V(0); E i = Ev(1); if (!i->isConst()) unsupported("extractelement"); return set((*v.agg)[i->c]); }
    case Instruction::InsertElement: { Val v = V(0); E i = Ev(2); if (!i->isConst()) unsupported("insertelement"); Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[i->c] = V(1); return set(r); }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(&I); Val a = V(0), b = V(1), r; r.agg = std::make_shared<std::vector<Val>>(); int n = (int)a.agg->size(); for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? (*a.agg)[0] : m < n ? (*a.agg)[m] : (*b.agg)[m - n]); return set(r); }
    case Instruction::LandingPad: return set(f.lp);
    case Instruction::Resume: { Val v = V(0); u64 p = (*v.agg)[0].e->c; auto* ti = s->excTypes[p]; killFrame(s); if (s->stack.empty()) { report(s, "terminate", "uncaught exception", mkBool(true), s->hint); return 1; } return unwind(s, p, ti) ? 0 : 1; }
    case Instruction::Unreachable: inconclusive["unreachable instruction reached in " + demangle(f.fi->F->getName().str())]++; return 1;
    case Instruction::Ret: {
      Val v; if (I.getNumOperands()) v = V(0); killFrame(s);
      if (s->stack.empty()) { st.paths++; return 1; }
      Frame& g = s->top(); const Instruction* ci = &*g.it; if (!ci->getType()->isVoidTy()) setVal(g, ci, v); finishCall(s, ci); return 0; }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(&I); const BasicBlock* bb = f.bb;
      if (b->isUnconditional()) { enterBlock(s, b->getSuccessor(0), bb); return 0; }
      E c = getVal(f, b->getCondition()).e;
      if (c->isConst()) { enterBlock(s, b->getSuccessor(c->c ? 0 : 1), bb); return 0; }
      if (b->getSuccessor(0) == b->getSuccessor(1)) { enterBlock(s, b->getSuccessor(0), bb); return 0; }
      st.branches++;
      Model mt, mf; int ft = feasible(s, c, &mt), ff = feasible(s, bnot(c), &mf);
      if (!ft && !ff) { st.aborted++; return 1; }
      if (!ff) { enterBlock(s, b->getSuccessor(0), bb); return 0; }
      if (!ft) { enterBlock(s, b->getSuccessor(1), bb); return 0; }
      Ref<PCNode> base = s->pc; State* o = cloneState(s);
      if (ft == 2) s->maybeInfeasible = true; if (ff == 2) o->maybeInfeasible = true;
      pcAdd(s, c); s->hint = mt; pcAdd(o, bnot(c)); o->hint = mf;
      enterBlock(s, b->getSuccessor(0), bb); enterBlock(o, b->getSuccessor(1), bb);
      std::vector<std::pair<State*, E>> alts{{s, c}, {o, bnot(c)}};
      auto it = f.fi ? s->stack.back()->fi->ipdom.find(bb) : s->stack.back()->fi->ipdom.end();
      const BasicBlock* j = it != s->stack.back()->fi->ipdom.end() ? it->second : nullptr;
      if (noMerge) { narrow(s, c, mt); narrow(o, bnot(c), mf); j = nullptr; }
      runAlternatives(alts, base.p, j, work); return 2; }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(&I); const BasicBlock* bb = f.bb; E c = getVal(f, sw->getCondition()).e;
      std::vector<std::pair<const BasicBlock*, E>> tg; E none = mkBool(true);
      for (auto& k : sw->cases()) { E q = eq(c, constVal(k.getCaseValue()).e); none = band(none, bnot(q)); bool hit = false; for (auto& t : tg) if (t.first == k.getCaseSuccessor()) { t.second = bor(t.second, q); hit = true; } if (!hit) tg.push_back({k.getCaseSuccessor(), q}); }
      { bool hit = false; for (auto& t : tg) if (t.first == sw->getDefaultDest()) { t.second = bor(t.second, none); hit = true; } if (!hit) tg.push_back({sw->getDefaultDest(), none}); }
      std::vector<std::pair<State*, E>> alts; Ref<PCNode> base = s->pc; std::vector<std::tuple<const BasicBlock*, E, Model, int>> ok;
      for (auto& t : tg) { Model m; int fe = feasible(s, t.second, &m); if (fe) ok.push_back({t.first, t.second, m, fe}); }
      if (ok.empty()) { st.aborted++; return 1; }
      if (ok.size() == 1) { enterBlock(s, std::get<0>(ok[0]), bb); return 0; }
      for (auto& [t, g, m, fe] : ok) { State* o = cloneState(s); if (fe == 2) o->maybeInfeasible = true; pcAdd(o, g); o->hint = m; enterBlock(o, t, bb); alts.push_back({o, g}); }
      FnInfo* fi = s->stack.back()->fi; auto it = fi->ipdom.find(bb); const BasicBlock* j = it != fi->ipdom.end() ? it->second : nullptr; delete s;
      runAlternatives(alts, base.p, j, work); return 2; }
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(&I); std::vector<Val> args; 
      const Function* F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
      if (F && F->isIntrinsic() && (F->getName().starts_with("llvm.dbg") || F->getName().starts_with("llvm.lifetime"))) { ++f.it; return 0; }
      for (auto& a : cb->args()) args.push_back(a->getType()->isMetadataTy() ? Val() : getVal(f, a));
      if (!F) {
        if (cb->isInlineAsm()) { if (cb->getType()->isVoidTy()) { finishCall(s, &I); return 0; } unsupported("inline assembly"); }
        u64 p = conc(s, getVal(f, cb->getCalledOperand()).e, "indirect call target"); auto it = addrFn.find(p);
        if (it == addrFn.end()) { require(s, mkBool(true), mkBool(false), "memory", "call through an invalid function pointer"); return 1; } F = it->second; }
      Val ret; int h = 0;
      if (F->isIntrinsic()) h = intrinsic(s, cb, F, args, ret);
      else { std::string n = F->getName().str(); bool out = n.compare(0, 6, "_ZStls") == 0 || n.compare(0, 7, "_ZNSols") == 0 || n.compare(0, 4, "_ZNSo") == 0 && n.compare(0, 5, "_ZNSo") == 0 || n == "__clang_call_terminate" || n.compare(0, 9, "_ZSt4endl") == 0; if (F->isDeclaration() || out || n.compare(0, 4, "sym_") == 0) { h = external(s, cb, n, args, ret); if (h == 0) unsupported("external function " + demangle(n)); } }
      if (h == 1) { Frame& g = s->top(); if (!I.getType()->isVoidTy()) { if (!ret.some()) unsupported("missing return value of " + F->getName().str()); setVal(g, &I, ret); } finishCall(s, &I); return 0; }
      if (h == 2) return 0;
      if (h == 3) return 1;
      // a call inside a try block: run to the join of the normal and the exceptional continuation, then merge
      if (auto* iv = dyn_cast<InvokeInst>(&I)) {
        FnInfo* fi = f.fi; const BasicBlock* bb = f.bb;
        if (fi->reachRet[iv->getUnwindDest()] && !(stop.depth == s->stack.size() && stop.bb == nullptr)) {
          auto it = fi->ipdomEH.find(bb); const BasicBlock* j = it != fi->ipdomEH.end() ? it->second : nullptr;
          if (j) { Ref<PCNode> base = s->pc; size_t depth = s->stack.size(); pushCall(s, F, args, cb);
            std::vector<State*> o, at, esc; runUntil(s, Stop{depth, j}, o);
            for (State* x : o) if (x->stack.size() == depth && x->top().bb == j && x->atStart) at.push_back(x); else esc.push_back(x);
            if (at.size() > 1) mergeAll(at, base.p);
            for (auto i2 = esc.rbegin(); i2 != esc.rend(); ++i2) work.push_back(*i2);
            for (auto i2 = at.rbegin(); i2 != at.rend(); ++i2) work.push_back(*i2);
            return 2; } } }
      pushCall(s, F, args, cb); return 0; }
    default: unsupported(std::string("instruction ") + I.getOpcodeName());
  }
}
static void runUntil(State* s0, Stop stop, std::vector<State*>& out) {
  std::vector<State*> work{s0};
  while (!work.empty()) {
    State* s = work.back(); work.pop_back(); bool alive = true; u64 tick = 0;
    while (alive) {
      if (stopAll) { delete s; for (auto* x : work) delete x; return; }
      if ((++tick & 0xfff) == 0 && expired()) { stopAll = true; inconclusive["time budget exhausted"]++; }
      size_t d = s->stack.size();
      if (d < stop.depth || (d == stop.depth && s->atStart && s->stack.back()->bb == stop.bb)) { out.push_back(s); break; }
      std::vector<State*> pend; auto* savedPending = pending; pending = &pend;
      int r;
      try { r = step(s, work, stop); }
      catch (Retry&) { delete s; for (auto* x : pend) work.push_back(x); pending = savedPending; break; }
      catch (DeadPath&) { st.aborted++; delete s; pending = savedPending; break; }
      catch (Fatal& e) { inconclusive["unsupported: " + e.why + " at " + locOf(s)]++; st.aborted++; delete s; pending = savedPending; break; }
      pending = savedPending;
      if (r == 1) { delete s; alive = false; } else if (r == 2) alive = false;
    }
  }
}

// ------------------------------------------------------------------ results
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static std::string modelJson(const Assign& a) {
  std::ostringstream o; o << "["; bool first = true;
  for (E v : allVars) {
    if (v->name.compare(0, 5, "undef") == 0) continue;
    if (!first) o << ","; first = false;
    std::string nm = v->name; bool sg = v->s == BV && nm.find("[-") != std::string::npos; // the range in the name tells how the bits are read
    o << "[\"" << jesc(nm) << "\"," << v->idx << ",";
    if (v->s == REAL) { auto it = a.re.find(v->id); double d = it != a.re.end() ? it->second.get_d() : v->flo > 0 ? v->flo : v->fhi < 0 ? v->fhi : 0; char b[64]; snprintf(b, sizeof b, "%.17g", d); o << "\"r\",\"" << b << "\""; }
    else { evalBegin(&a); u64 x = evalBV(v); o << "\"" << (v->s == BV ? "b" : v->s == F32S ? "f" : "d") << "\",\"" << (sg ? std::to_string(sx(x, v->w)) : std::to_string(x)) << "\""; }
    o << "]";
  }
  o << "]"; return o.str();
}
static void writeResults(const std::string& file, double t0) {
  std::ofstream o(file); bool f;
  o << "{\"steps\":" << st.steps << ",\"branches\":" << st.branches << ",\"forks\":" << st.forks << ",\"merges\":" << st.merges << ",\"mergeFail\":" << st.mergeFail << ",\"paths\":" << st.paths
    << ",\"checks\":" << st.checks << ",\"checkSimpl\":" << st.checkSimpl << ",\"checkSolver\":" << st.checkSolver << ",\"checkUnknown\":" << st.checkUnknown
    << ",\"memObl\":" << st.memObl << ",\"memSimpl\":" << st.memSimpl << ",\"memSolver\":" << st.memSolver << ",\"feasUnknown\":" << st.feasUnknown << ",\"shards\":" << st.shards << ",\"shardsDone\":" << st.shardsDone << ",\"aborted\":" << st.aborted
    << ",\"queries\":" << sstats.queries << ",\"z3calls\":" << sstats.z3calls << ",\"unsat\":" << sstats.unsat << ",\"sat\":" << sstats.sat << ",\"unknown\":" << sstats.unknown << ",\"cacheHits\":" << sstats.cacheHits << ",\"modelHits\":" << sstats.modelHits
    << ",\"solverTime\":" << sstats.time << ",\"solverMax\":" << sstats.maxTime << ",\"nodes\":" << nodeCount << ",\"wall\":" << now() - t0;
  auto mp = [&](const char* n, std::map<std::string, u64>& m) { o << ",\"" << n << "\":{"; f = true; for (auto& p : m) { if (!f) o << ","; f = false; o << "\"" << jesc(p.first) << "\":" << p.second; } o << "}"; };
  mp("covers", covers); mp("inconclusive", inconclusive); mp("checkMsgs", checkMsgs);
  o << ",\"functions\":["; f = true; for (auto& x : fnsEncoded) { if (!f) o << ","; f = false; o << "\"" << jesc(x) << "\""; } o << "]";
  o << ",\"coverModels\":{"; f = true; for (auto& p : coverModels) { if (!f) o << ","; f = false; o << "\"" << jesc(p.first) << "\":" << modelJson(p.second); } o << "}";
  o << ",\"violations\":["; f = true; for (auto& v : violations) { if (!f) o << ","; f = false; o << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"tag\":\"" << jesc(v.tag) << "\",\"model\":" << modelJson(v.model) << "}"; } o << "]}\n";
}
static std::string entry = "harness", bcFile, outFile; static double budget = 600;
static void runCalls(const Function* F) {
  State* s = new State(); s->hint = std::make_shared<Assign>();
  // constructors
  std::vector<Val> none; std::vector<State*> out;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer()))
    for (unsigned i = 0; i < arr->getNumOperands(); i++) {
      auto* cs = cast<ConstantStruct>(arr->getOperand(i)); auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (!fn || fn->isDeclaration()) continue;
      // run the constructor on top of a sentinel frame of the entry function so that state survives
      pushCall(s, F, none, nullptr); pushCall(s, fn, none, nullptr); out.clear();
      // the sentinel's current instruction must be a call for 'ret'; emulate instead by stopping at depth 2
      runUntil(s, Stop{2, nullptr}, out);
      if (out.size() != 1) { inconclusive["global constructor did not finish"]++; return; } s = out[0]; s->stack.clear();
    }
  out.clear(); s->steps = 0; s->heapLive = 0; pushCall(s, F, none, nullptr); runUntil(s, Stop{0, nullptr}, out);
}
static double T0;
static void* worker(void*) {
  solverInit();
  auto* F = M->getFunction(entry);
  if (!F) { inconclusive["no entry function " + entry]++; }
  else { try { runCalls(F); } catch (Fatal& e) { inconclusive["unsupported: " + e.why]++; } catch (std::exception& e) { inconclusive[std::string("engine exception: ") + e.what()]++; } }
  writeResults(outFile + "." + std::to_string(childIdx), T0);
  return nullptr;
}
int main(int argc, char** argv) {
  int jobs = 8; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--real") realMode = true; else if (a == "--forkround") forkRound = std::stoull(argv[++i]); else if (a == "--nomerge") noMerge = true; else if (a == "--ubfloat") ubFloat = true; else if (a == "-v") verbose = true;
    else if (a == "--entry") entry = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--out") outFile = argv[++i];
    else if (a == "--budget") budget = atof(argv[++i]); else if (a == "--timeout") solverTimeoutMs = atoi(argv[++i]); else if (a == "--grace") grace = atof(argv[++i]); else if (a == "--maxsteps") maxSteps = strtoull(argv[++i], 0, 10); else if (a == "--maxviol") maxViol = atoi(argv[++i]); else bcFile = a; }
  T0 = now(); deadline = T0 + budget;
  SMDiagnostic err; M = parseIRFile(bcFile, err, ctx); if (!M) { err.print("bsym", errs()); return 2; } DL = &M->getDataLayout();
  sharedStop = (std::atomic<double>*)mmap(nullptr, sizeof(std::atomic<double>), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sharedStop->store(1e18); solverExpired = expired;
  shardClaims = (std::atomic<int>*)mmap(nullptr, MAXSHARD * sizeof(std::atomic<int>), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  nChildren = jobs; std::vector<pid_t> kids;
  for (int c = 0; c < jobs; c++) {
    pid_t p = fork();
    if (p == 0) {
      childIdx = c; struct rlimit rl{(rlim_t)6 << 30, (rlim_t)6 << 30}; (void)rl;
      pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30); pthread_t t;
      if (pthread_create(&t, &at, worker, nullptr)) { perror("pthread_create"); _exit(3); } pthread_join(t, nullptr); _exit(0);
    }
    kids.push_back(p);
  }
  int bad = 0; for (pid_t p : kids) { int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) bad++; }
  return bad ? 4 : 0;
}
