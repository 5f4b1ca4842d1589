// C32: ConfigLength over all doubles (bit precise)
#include "sym.h"
#include "config_types.h"
using namespace boofcv;
HARNESS {
  int part = sym_fork("part", 0, 3); sym_shard();
  if (part == 0) { // evaluation
    sym_tag("compute");
    double L = sym_f64("length", 0, -1e6, 1e6), F = sym_f64("fraction", 0, -1e3, 1e3), t = sym_f64("total", 0, 0, 1e6); ConfigLength c(L, F);
    double r = c.compute(t), p = F * t, e = F >= 0 ? (p > L ? p : L) : L;
    sym_check(r == e, "compute is max(fraction*total,length) for relative and length for fixed lengths");
    sym_check(c.isFixed() != c.isRelative(), "exactly one of isFixed and isRelative"); sym_check(c.isRelative() == (F >= 0), "isRelative");
    if (F >= 0) sym_cover("relative"); if (F < 0) sym_cover("fixed");
  } else if (part == 1) { // integer form of a fixed length
    sym_tag("computeI");
    double L = sym_f64("length", 0, -1e9, 1e9); ConfigLength c = ConfigLength::fixed(L); sym_check(c.isFixed() && !c.isRelative(), "fixed"); sym_check(c.compute(17) == L, "a fixed length ignores the total");
    int i = c.computeI(100); bool ok = L < 0 ? i == -1 : ((double)i <= L + 0.5) & ((double)i + 1 > L + 0.5); sym_check(ok, "computeI rounds half up and is -1 for negative lengths");
    if (L >= 0) sym_check(c.getLengthI() == i, "getLengthI"); if (L > 3.4 && L < 3.6) sym_cover("rounding");
  } else if (part == 2) {
    sym_tag("relative");
    double F = sym_f64("fraction", 0, 0, 1); int m = sym_int("min", 0, 0, 1000); ConfigLength c = ConfigLength::relative(F, m); sym_check(c.isRelative() && !c.isFixed(), "relative");
    sym_check(c.length == m && c.fraction == F, "relative stores its arguments");
    int tot = sym_fork("total", 0, TH(4, 40)) * 5; int i = c.computeI(tot); double e = F * tot; if (e < m) e = m; bool ok = ((double)i <= e + 0.5) & ((double)i + 1 > e + 0.5); sym_check(ok, "computeI of a relative length"); sym_cover("computeI");
  } else {
    sym_tag("checkValidity");
    double L = sym_f64("length", 0, -1e300, 1e300), F = sym_f64("fraction", 0, -1e300, 1e300); ConfigLength c(L, F); int r = outcome([&] { c.checkValidity(); }); sym_check((r == 1) == ((L < 0) & (F < 0)) && r != 2, "rejects exactly both negative"); ConfigLength d; sym_check(d.isFixed() && outcome([&] { d.checkValidity(); }) == 1, "default is invalid");
  }
}
