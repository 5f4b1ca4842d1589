// C02: copy / assignment histories of Gray images.  Every slot is an owner or a view; a small reference model tracks where its pixels must live.
#include "img.h"
typedef TYPE T;
struct Store { std::vector<T> v; };
struct Slot { Gray<T>* g; Store* st; bool view; uint32_t w, h, off, stride; };
static Store own[8]; 
static void expect(Slot& s, const char* m) {
  Gray<T>& g = *s.g;
  sym_check(g.width == s.w && g.height == s.h, m);
  if (g.width != s.w || g.height != s.h) sym_end();
  bool ok = true;
  for (uint32_t y = 0; y < s.h; y++) for (uint32_t x = 0; x < s.w; x++) ok = ok & (g.at(x, y) == s.st->v[s.off + y * s.stride + x]);
  sym_check(ok, m);
}
static bool copyModel(Slot& d, Slot& s) { // false: must be rejected
  if (d.view && (d.w != s.w || d.h != s.h)) return false;
  if (!d.view) { d.w = s.w; d.h = s.h; d.off = 0; d.stride = s.w; if (d.st != s.st) d.st->v.assign(s.w * s.h, 0); }
  for (uint32_t y = 0; y < s.h; y++) for (uint32_t x = 0; x < s.w; x++) d.st->v[d.off + y * d.stride + x] = s.st->v[s.off + y * s.stride + x];
  return true;
}
HARNESS {
  sym_tag("Gray");
  static const int W[] = {2, 1, 0, 3}, H[] = {1, 2, 2, 2};
  int live0 = sym_heap_live();
  {
  SImg<T>* par[2]; Slot sl[2]; Store pst[2]; Store ost[2];
  int shape[2] = {sym_fork("shapeA", 0, TH(2, 3)), sym_fork("shapeB", 0, TH(2, 3))}, kind[2] = {sym_fork("kindA", 0, 1), sym_fork("kindB", 0, 1)};
  const int N = TH(3, 4); int op[N]; 
  op[0] = sym_fork("op0", 0, 6); op[1] = sym_fork("op1", 0, 6); op[2] = sym_fork("op2", 0, 6); if (N > 3) op[N - 1] = sym_fork("op3", 0, 6);
  sym_shard();
  for (int i = 0; i < 2; i++) {
    int w = W[shape[i]], h = H[shape[i]];
    par[i] = new SImg<T>(i ? "B" : "A", w, h, kind[i]);
    if (kind[i]) { pst[i].v = par[i]->before; Gray<T>& v = par[i]->img(); sl[i] = Slot{&v, &pst[i], true, (uint32_t)w, (uint32_t)h, v.offset, v.stride}; }
    else { ost[i].v = par[i]->before; sl[i] = Slot{&par[i]->img(), &ost[i], false, (uint32_t)w, (uint32_t)h, 0, (uint32_t)w}; }
  }
  for (int k = 0; k < N; k++) {
    int o = op[k];
    if (o <= 3) {
      Slot &d = sl[o & 1], &s = sl[1 - (o & 1)];
      int r;
      if (o < 2) { // assignment
        r = outcome([&] { *d.g = *s.g; });
        if (s.view) { sym_check(r == 0, "assigning a sub-image succeeds"); d.st = s.st; d.view = true; d.w = s.w; d.h = s.h; d.off = s.off; d.stride = s.stride; sym_check(d.g->subimage, "assigning a sub-image yields a view");
          bool alias = d.g->width == s.g->width && d.g->height == s.g->height; if (alias) for (uint32_t y = 0; y < s.h; y++) for (uint32_t x = 0; x < s.w; x++) alias = alias & (&d.g->at(x, y) == &s.g->at(x, y)); sym_check(alias, "an assigned sub-image aliases the source's pixels"); sym_cover("assigned a view"); }
        else { bool ok = copyModel(d, s); sym_check((r == 0) == ok && r != 2, "assignment is rejected iff a view has another shape"); }
      } else { bool ok = copyModel(d, s); r = outcome([&] { d.g->copy(*s.g); }); sym_check((r == 0) == ok && r != 2, "copy is rejected iff a view has another shape"); }
    } else if (o == 4) { Gray<T>& a = *sl[0].g; a = *sl[0].g; }
    else { // copy construction
      Slot& s = sl[o - 5];
      Gray<T> c(*s.g); Slot cs = s; Store t; cs.g = &c;
      sym_check(c.subimage == s.g->subimage, "copy of an owner owns, copy of a view views");
      expect(cs, "copy construction keeps shape and pixels");
      if (!s.view) { for (uint32_t y = 0; y < s.h; y++) for (uint32_t x = 0; x < s.w; x++) { sym_check(&c.at(x, y) != &s.g->at(x, y), "copy of an owner shares pixels"); c.at(x, y) = (T)77; } sym_cover("copy constructed an owner"); }
    }
    for (int i = 0; i < 2; i++) { expect(sl[i], "contents after the history"); sym_check(sl[i].g->subimage == sl[i].view, "owner or view after the history"); }
  }
  for (int i = 0; i < 2; i++) if (kind[i]) { bool ok = true; for (size_t k = 0; k < pst[i].v.size(); k++) ok = ok & (par[i]->parent->data[k] == pst[i].v[k]); sym_check(ok, "pixels outside the destination were changed"); }
  for (int i = 0; i < 2; i++) delete par[i];
  }
  sym_check(sym_heap_live() == live0, "every allocation is released exactly once");
}
