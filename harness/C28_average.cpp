// C28: band averaging
#include "img.h"
#include "image_convert.h"
typedef TYPE T;
HARNESS {
  int w = sym_fork("w", 0, TH(2, 3)), h = sym_fork("h", 0, 2), b = sym_fork("b", 1, TH(3, 4)), si = sym_fork("subin", 0, 1), so = sym_fork("subout", 0, 1), ow = so ? w : sym_fork("oldw", 0, 3); sym_tag("convert_average"); sym_shard();
  Interleaved<T> parent(w + 2, h + 2, b); for (uint32_t i = 0; i < parent.data_length; i++) parent.data[i] = symAny<T>("p", i);
  std::vector<T> before(parent.data, parent.data + parent.data_length);
  Interleaved<T> own(w, h, b); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < b; k++) own.at(x, y, k) = parent.at(x + 1, y + 1, k);
  Interleaved<T> view = parent.makeSubimage(1, 1, w + 1, h + 1); SImg<T> out("o", ow, so ? h : 2, so);
  convert_average(si ? view : own, out.img());
  sym_check(out.img().width == (uint32_t)w && out.img().height == (uint32_t)h, "output shape");
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    T got = out.img().at(x, y);
    if (std::is_integral<T>::value) { int64_t s = 0; for (int k = 0; k < b; k++) s += (int64_t)before[((y + 1) * (w + 2) + x + 1) * b + k]; if (sizeof(T) >= 4) sym_assume((s >= -2147483648ll) & (s <= 2147483647ll)); sym_check((int64_t)got == s / b, "truncated average of the bands"); }
    else { TypeInfo<T>::sum_type s = 0; for (int k = 0; k < b; k++) s += before[((y + 1) * (w + 2) + x + 1) * b + k]; sym_close(got, s / b, 0.01, "average of the bands"); }
  }
  bool ok = true; for (uint32_t i = 0; i < before.size(); i++) ok = ok & (parent.data[i] == before[i]); sym_check(ok, "input changed"); if (so) sym_check(out.frameOk(), "wrote outside the output"); if (w == 2 && h == 2 && b == 3) sym_cover("three bands");
}
