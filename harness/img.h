// Symbolic images: every shape / sub-image placement is enumerated by the harness, pixels are symbolic.
#pragma once
#include "sym.h"
#include "base_types.h"
#include "image_types.h"
using namespace boofcv;
// A Gray image of the given shape.  mode 0: owns its data.  mode 1: sub-image at (ox,oy) inside a larger parent.
template <class T> struct SImg {
  Gray<T>* parent; Gray<T>* view; uint32_t w, h, ox, oy; const char* nm; std::vector<T> before; 
  SImg(const char* name, uint32_t w, uint32_t h, int sub, bool symbolicPixels = true, uint32_t padl = 1, uint32_t padr = 1, int padt = -1, int padb = -1) : w(w), h(h), nm(name) {
    if (padt < 0) padt = padl; if (padb < 0) padb = padr;
    if (sub) { ox = padl; oy = padt; parent = new Gray<T>(w + padl + padr, h + padt + padb); view = new Gray<T>(parent->data, parent->data_length, w, h, parent->offset + oy * parent->stride + ox, parent->stride); }
    else { ox = oy = 0; parent = new Gray<T>(w, h); view = parent; }
    if (symbolicPixels) for (uint32_t i = 0; i < parent->data_length; i++) parent->data[i] = symAny<T>(name, (int)i);
    snap();
  }
  ~SImg() { if (view != parent) delete view; delete parent; }
  void snap() { before.assign(parent->data, parent->data + parent->data_length); }
  Gray<T>& img() { return *view; }
  T px(uint32_t x, uint32_t y) { return before[view == parent ? y * w + x : (oy + y) * (w + (parent->width - w)) + ox + x]; } // value at snapshot time
  T now(uint32_t x, uint32_t y) { return view->data[view->offset + y * view->stride + x]; }
  // nothing outside the view's rectangle changed
  bool frameOk() { bool ok = true; if (view == parent) return true; for (uint32_t y = 0; y < parent->height; y++) for (uint32_t x = 0; x < parent->width; x++) { bool in = x >= ox && x < ox + w && y >= oy && y < oy + h; if (!in) ok = ok & same(parent->data[y * parent->stride + x], before[y * parent->stride + x]); } return ok; }
  bool unchanged() { bool ok = true; for (size_t i = 0; i < before.size(); i++) ok = ok & same(parent->data[i], before[i]); return ok; }
  static bool same(const T& a, const T& b) { return a == b; }
};
