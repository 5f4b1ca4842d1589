// C40: point distances
#include "sym.h"
#include "geometry_types.h"
using namespace boofcv;
typedef TYPE T;
typedef Point2D<T> P; typedef P::sum_type S;
HARNESS {
  int part = sym_fork("part", 0, 1); sym_tag("distanceSq"); sym_shard();
  if (part == 1 && std::is_integral<T>::value) { // zero exactly for equal points: differences up to 100 (60 for bytes) around any base in range
    const int L = sizeof(T) == 1 ? 60 : 100; int cx = sym_int("cx", 0, 100, 190), cy = sym_int("cy", 0, 100, 190), dx = sym_int("dx", 0, -L, L), dy = sym_int("dy", 0, -L, L);
    P a((T)cx, (T)cy), b((T)(cx + dx), (T)(cy + dy)); sym_check((a.distanceSq(b) == 0) == ((dx == 0) & (dy == 0)), "zero exactly for equal points"); return;
  }
  T ax = symAny<T>("a", 0), ay = symAny<T>("a", 1), bx = symAny<T>("b", 0), by = symAny<T>("b", 1); P a(ax, ay), b(bx, by);
  P z; sym_check(z.x == 0 && z.y == 0, "default point");
  if (std::is_integral<T>::value) {
    int64_t dx = (int64_t)ax - (int64_t)bx, dy = (int64_t)ay - (int64_t)by;
    const int64_t L = sizeof(S) == 8 ? 2000000000ll : 32767; // squares of such differences add up inside the result type
    sym_assume((dx <= L) & (dx >= -L) & (dy <= L) & (dy >= -L));
    S d = a.distanceSq(b), d2 = b.distanceSq(a), d3 = a.distanceSq(bx, by);
    S sx = (S)((S)ax - (S)bx), sy = (S)((S)ay - (S)by), e = (S)(sx * sx + sy * sy);
    sym_check(d == e && d3 == e, "squared Euclidean distance"); sym_check(d2 == d, "symmetric"); sym_cover("distance");
  } else {
    double e = ((double)ax - bx) * ((double)ax - bx) + ((double)ay - by) * ((double)ay - by);
    sym_close(a.distanceSq(b), e, 2, "squared Euclidean distance"); sym_close(a.distanceSq(bx, by), e, 2, "squared Euclidean distance"); sym_close(b.distanceSq(a), a.distanceSq(b), 0.01, "symmetric"); sym_cover("distance");
  }
}
