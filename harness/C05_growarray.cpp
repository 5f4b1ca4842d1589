// C05: operation sequences on GrowArray against a list model
#include "sym.h"
#include "base_types.h"
using namespace boofcv;
typedef TYPE T;
static int ctr;
static T val() { return symAny<T>("v", ctr++); }
struct Model { std::vector<T> v; std::vector<char> known; uint32_t cap; };
static void same(GrowArray<T>& g, Model& m, const char* msg, bool last = true) {
  sym_check(g.size == m.v.size(), "size");
  if (g.size != m.v.size()) sym_end();
  bool ok = true; for (size_t i = 0; i < m.v.size(); i++) if (m.known[i]) ok = ok & (g.at(i) == m.v[i]);
  sym_check(ok, msg);
  if (!last) return; uint32_t i = symAny<uint32_t>("index", 0); T* p = 0; int r = outcome([&] { p = &g.at(i); });
  sym_check((r == 1) == (i >= m.v.size()) && r != 2, "at rejects every index outside the array");
  if (r == 0) sym_check(p == g.data + i, "at addresses element i");
}
static void setAll(Model& m, const std::vector<T>& v) { m.v = v; m.known.assign(v.size(), 1); if (m.cap < v.size()) m.cap = v.size(); }
static void owned() {
  sym_tag("owned");
  const int L = TH(3, 4); int op[4], arg[4];
  static const char* on[] = {"op0", "op1", "op2", "op3"}; static const char* an[] = {"n0", "n1", "n2", "n3"};
  int init = sym_fork("init", 0, 3);
  for (int i = 0; i < L; i++) { op[i] = sym_fork(on[i], 0, 7); arg[i] = op[i] == 1 || op[i] >= 5 ? 0 : sym_fork(an[i], 0, op[i] == 4 ? 2 : TH(3, 4)); if (i == 1) sym_shard(); }
  int live = sym_heap_live();
  {
    GrowArray<T>* g; Model m;
    if (init == 3) { T a = val(), b = val(); g = new GrowArray<T>({a, b}); setAll(m, {a, b}); m.cap = 2; }
    else { g = new GrowArray<T>((uint32_t)init); m.v.assign(init, (T)0); m.known.assign(init, 1); m.cap = init; }
    same(*g, m, "initial contents");
    T dv = val(); g->default_value = dv;
    for (int i = 0; i < L; i++) {
      uint32_t n = arg[i];
      switch (op[i]) {
        case 0: { uint32_t os = m.v.size(); g->resize(n); m.v.resize(n); m.known.resize(n); for (uint32_t k = os; k < n; k++) { if (k >= m.cap) { m.v[k] = dv; m.known[k] = 1; } else m.known[k] = 0; } if (n > m.cap) m.cap = n; break; }
        case 1: { T x = val(); g->fill(x); for (size_t k = 0; k < m.v.size(); k++) { m.v[k] = x; m.known[k] = 1; } break; }
        case 2: g->grow_array(n); m.v.clear(); m.known.clear(); if (n > m.cap) m.cap = n; break;
        case 3: { std::vector<T> src; for (uint32_t k = 0; k < n; k++) src.push_back(val()); g->set(src.data(), n); setAll(m, src); break; }
        case 4: { std::vector<T> src; for (uint32_t k = 0; k < n; k++) src.push_back(val()); if (n == 0) g->setTo({}); else if (n == 1) g->setTo({src[0]}); else g->setTo({src[0], src[1]}); setAll(m, src); break; }
        case 5: { GrowArray<T> o({val(), val(), val()}); o.default_value = dv; std::vector<T> src(o.data, o.data + 3); *g = o; setAll(m, src); same(*g, m, "assignment copies"); o.fill(val()); sym_check(o.size == 3, "source of an assignment"); break; }
        case 6: { GrowArray<T> c(*g); Model cm = m; same(c, cm, "copy construction copies"); c.resize(c.size + 1); c.fill(val()); sym_cover("copied"); break; }
        case 7: { if (m.v.size()) { T x = val(); g->at(m.v.size() - 1) = x; (*g)[0] = x; m.v[m.v.size() - 1] = x; m.v[0] = x; m.known[0] = m.known[m.v.size() - 1] = 1; } *g = *g; break; }
      }
      same(*g, m, "contents after the sequence", i == L - 1);
    }
    delete g;
  }
  sym_check(sym_heap_live() == live, "every allocation is released exactly once");
  sym_cover("owned sequence");
}
static void wrapped() {
  sym_tag("wrapped"); int n = sym_fork("len", 0, 3), sz = sym_fork("size", 0, 3); if (sz > n) sym_end(); sym_shard();
  int live = sym_heap_live();
  { T* buf = new T[n]; std::vector<T> before; for (int i = 0; i < n; i++) { buf[i] = val(); before.push_back(buf[i]); }
    { GrowArray<T> g(buf, n, sz); uint32_t k = symAny<uint32_t>("k", 0);
      int o = sym_fork("wop", 0, 4); int r = 0; T x = val();
      if (o == 0) r = outcome([&] { g.resize(k); }); else if (o == 1) r = outcome([&] { g.grow_array(k); }); else if (o == 2) { int j = sym_fork("srclen", 0, 4); std::vector<T> src(j, x); r = outcome([&] { g.set(src.data(), j); }); }
      else if (o == 3) { g.fill(x); for (int i = 0; i < sz; i++) before[i] = x; } else { GrowArray<T> c(g); sym_check(c.size == (uint32_t)sz, "copy of a wrapper"); bool ok = true; for (int i = 0; i < sz; i++) { ok = ok & (c.at(i) == before[i]); c.at(i) = x; } sym_check(ok, "copy of a wrapper has its elements"); }
      sym_check(g.data == buf && g.array_length == (uint32_t)n, "a wrapped array is never replaced");
      if (o < 3) { sym_check(r == 1, "resizing a wrapped array is rejected"); sym_check(g.size == (uint32_t)sz, "size after a rejected resize"); } }
    bool ok = true; for (int i = 0; i < n; i++) ok = ok & (buf[i] == before[i]); sym_check(ok, "wrapped elements"); delete[] buf; }
  sym_check(sym_heap_live() == live, "wrapped storage balance"); sym_cover("wrapped");
}
static void defaults() {
  sym_tag("default"); sym_shard(); GrowArray<T> g; sym_check(g.size == 10, "default size"); bool ok = true; for (int i = 0; i < 10; i++) ok = ok & (g.at(i) == (T)0); sym_check(ok, "default contents");
}
HARNESS { int t = sym_fork("part", 0, 2); if (t == 0) owned(); else if (t == 1) wrapped(); else defaults(); }
