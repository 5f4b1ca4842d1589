// C07: shape checks
#include "ops.h"
#include "sanity_checks.h"
typedef TYPE T; typedef TypeInfo<T>::signed_type R;
HARNESS {
  int part = sym_fork("part", 0, 2);
  if (part == 0) { // every 32-bit shape
    sym_tag("checkSameShape"); T dummy = 0; uint32_t s[6]; for (int i = 0; i < 6; i++) s[i] = (uint32_t)sym_bits("shape", i, 32); Gray<T> a(&dummy, 1, s[0], s[1], 3, 1), b(&dummy, 1, s[2], s[3], 0, 2), c(&dummy, 1, s[4], s[5], 1, 0); bool ab = s[0] == s[2] && s[1] == s[3], ac = s[0] == s[4] && s[1] == s[5];
    sym_check(outcome([&] { checkSameShape(a, b); }) == (ab ? 0 : 1), "two images"); sym_check(outcome([&] { checkSameShape(a, b, c); }) == (ab && ac ? 0 : 1), "three images"); if (ab && !ac) sym_cover("third differs"); if (ab && ac) sym_cover("same"); return; }
  int op = sym_fork("op", 0, numOps<T>() - 1); sym_tag(ONAME[op]); bool two = op == AND || op == OR; ConfigLength len(1, -1); Filters<T> f(len, true, true); f.lm.regionWidth = ConfigLength(3, -1);
  if (part == 1) { // small shapes, all pairs
    int w = sym_fork("w", 1, 3), h = sym_fork("h", 1, 3), W = sym_fork("W", 0, 4), H = sym_fork("H", 0, 4), sub = sym_fork("sub", 0, 1); if (inPlace(op) || kindOf(op) == 3 || (sub && (W == 4 || H == 4)) || (op == KO && w * h > 4)) sym_end(); sym_shard();
    SImg<T> a("a", w, h, sub, false), a2("b", two ? W : w, two ? H : h, sub, false), o("o", W, H, sub), w1("w1", W, H, 0, false), w2("w2", W, H, 0, false); SImg<U8> bin("bin", two ? 1 : W, two ? 2 : H, sub); SImg<R> res("res", W, H, sub); for (uint32_t i = 0; i < a.parent->data_length; i++) a.parent->data[i] = (T)(i % 2); a.snap();
    Args<T> v(a.img(), a2.img(), o.img(), w1.img(), w2.img(), bin.img(), res.img()); bool differ = w != W || h != H; int k = op == MH || op == MV || op == BM || op == BG, rc = outcome([&] { apply(op, v, f, k ? 1 : 2, 1, 0); });
    bool reject = differ && (two || needsSameOutput(op) || sub); if (two && sub && !differ && (w != 1 || h != 2)) reject = true; // a sub-image cannot be reshaped
    sym_check(rc == (reject ? 1 : 0), "rejected if and only if the shapes differ"); sym_check(a.unchanged() && a2.unchanged(), "inputs changed");
    if (rc) { sym_check(o.unchanged() && bin.unchanged() && res.unchanged(), "written before the shapes were checked"); if (needsSameOutput(op)) sym_cover("different output"); if (two) sym_cover("different inputs"); if (sub && op == CH) sym_cover("sub-image that cannot be reshaped"); }
    else { const ImageBase& q = kindOf(op) == 0 ? (const ImageBase&)o.img() : kindOf(op) == 1 ? (const ImageBase&)bin.img() : (const ImageBase&)res.img(); sym_check(q.width == (uint32_t)w && q.height == (uint32_t)h, "output takes the shape of the input"); if (differ) sym_cover("resized output"); }
    return; }
  // every pair of different 32-bit shapes, one side
  if (!needsSameOutput(op) && !two) sym_end(); sym_shard(); static T px[64], py[64]; static U8 pb[64]; for (int i = 0; i < 64; i++) { px[i] = 1; py[i] = (T)sym_int("o", i, 0, 3); pb[i] = (U8)sym_bits("b", i, 8); } std::vector<T> y0(py, py + 64); std::vector<U8> b0(pb, pb + 64);
  uint32_t s[4]; for (int i = 0; i < 4; i++) s[i] = (uint32_t)sym_bits("shape", i, 32); sym_assume(s[0] != s[2] || s[1] != s[3]);
  Gray<T> a(px, 64, s[0], s[1], 0, 1), o(py, 64, s[2], s[3], 0, 1), w1, w2; Gray<U8> bin(pb, 64, s[2], s[3], 0, 1); Gray<R> res; Args<T> v(a, two ? o : a, o, w1, w2, bin, res);
  sym_check(outcome([&] { apply(op, v, f, 1, 0, 0); }) == 1, "different shapes are rejected"); bool ok = true; for (int i = 0; i < 64; i++) ok = ok & (py[i] == y0[i]) & (pb[i] == b0[i]) & (px[i] == 1); sym_check(ok, "nothing is written"); sym_cover("any two different shapes");
}
