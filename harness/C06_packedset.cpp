// C06: PackedSet against a list-of-lists model
#include "sym.h"
#include "packed_sets.h"
using namespace boofcv;
typedef TYPE T;
typedef std::vector<std::vector<T> > Model;
static void observe(PackedSet<T>& p, Model& m, int k) {
  sym_check(p.number_of_sets() == m.size(), "number_of_sets");
  if (p.number_of_sets() != m.size()) sym_end();
  sym_check(p.size_of_tail() == (m.empty() ? 0 : m.back().size()), "size_of_tail");
  for (size_t i = 0; i < m.size(); i++) {
    std::vector<T> o; p.load_set(i, o); sym_check(o.size() == m[i].size(), "size of a loaded set"); if (o.size() != m[i].size()) sym_end();
    bool ok = true; for (size_t j = 0; j < o.size(); j++) ok = ok & (o[j] == m[i][j]); sym_check(ok, "load_set returns what was pushed");
    ok = true; for (size_t j = 0; j < m[i].size(); j++) ok = ok & (p.at(i, j) == m[i][j]); sym_check(ok, "at returns what was pushed");
  }
}
static void bounds(PackedSet<T>& p, Model& m) {
  uint32_t a = symAny<uint32_t>("set", 0), b = symAny<uint32_t>("element", 0); bool in = false;
  for (size_t i = 0; i < m.size(); i++) in = in | ((a == i) & (b < m[i].size()));
  int r = outcome([&] { p.at(a, b); });
  sym_check((r != 0) == !in, "at rejects exactly the out-of-range indexes");
  std::vector<T> o; r = outcome([&] { p.load_set(a, o); }); sym_check((r != 0) == (a >= m.size()), "load_set rejects out-of-range sets");
  std::vector<T> z(1, (T)1); bool fits = false; for (size_t i = 0; i < m.size(); i++) fits = fits | ((a == i) & (m[i].size() == 1));
  if (!in) { r = outcome([&] { p.write_set(a, z); }); sym_check((r == 0) == fits, "write_set rejects a wrong length or set"); if (r == 0) for (size_t i = 0; i < m.size(); i++) if (a == i) m[i][0] = 1; }
}
HARNESS {
  sym_tag("PackedSet");
  int bs = sym_fork("block", 1, TH(3, 4)); const int L = TH(5, 6); int op[8];
  static const char* on[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7"};
  for (int i = 0; i < L; i++) { op[i] = sym_fork(on[i], 0, 4); if (i == 2) sym_shard(); }
  int live = sym_heap_live();
  { PackedSet<T> p(bs); Model m; int c = 0; sym_check(p.size_of_tail() == 0 && p.number_of_sets() == 0, "starts empty");
    for (int i = 0; i < L; i++) {
      switch (op[i]) {
        case 0: p.start_new_set(); m.push_back(std::vector<T>()); break;
        case 1: { if (m.empty()) m.push_back(std::vector<T>()); T v = symAny<T>("v", c++); p.push_tail(v); m.back().push_back(v); break; }
        case 2: { if (m.empty()) m.push_back(std::vector<T>()); for (int k = 0; k < 2; k++) { T v = symAny<T>("v", c++); p.push_tail(v); m.back().push_back(v); } break; }
        case 3: p.remove_tail(); if (!m.empty()) m.pop_back(); break;
        case 4: if (i & 1) { p.clear(); m.clear(); } else if (!m.empty()) { size_t s = c % m.size(); std::vector<T> w; for (size_t j = 0; j < m[s].size(); j++) w.push_back(symAny<T>("w", c++)); p.write_set(s, w); m[s] = w; std::vector<T> bad(w); bad.push_back(w.empty() ? (T)0 : w[0]); sym_check(outcome([&] { p.write_set(s, bad); }) == 1, "write_set rejects a wrong length"); sym_cover("wrote a set"); } break;
      }
    }
    observe(p, m, L); bounds(p, m); if (op[L - 1] == 4) observe(p, m, L); if (m.size() > 1 && m[0].size() > 2) sym_cover("sets across blocks"); }
  sym_check(sym_heap_live() == live, "all storage is released exactly once");
}
