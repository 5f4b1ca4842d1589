// C37: the image entry points give what the C++ operation gives
#include "jni_ops.h"
HARNESS {
  Setup s; s.e = sym_fork("entry", 0, NENTRY - 1); int bits = sym_fork("output", 0, 2); s.w = sym_fork("w", 1, TH(3, 5)); s.h = sym_fork("h", 1, TH(3, 4)); s.start = sym_fork("start", 0, 2); s.pad = sym_fork("pad", 0, TH(1, 2)); s.cfg = sym_fork("config", 0, 5); s.off = sym_fork("origin", 0, 2); s.tail = 1; s.dw = 0; s.bits = 0; s.fail = 0; s.result = true;
  if (!outputFits(s.e, bits) || (s.e < CH && s.off) || (s.e >= CH && s.off > s.cfg % 3) || (s.start == 1 && !s.pad)) sym_end(); sym_shard(); dispatch(s, bits);
}
