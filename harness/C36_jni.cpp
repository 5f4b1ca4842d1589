// C36: arrays, native memory and exceptions of the image entry points, whatever fails
#include "jni_ops.h"
HARNESS {
  Setup s; s.e = sym_fork("entry", 0, NENTRY - 1); int bits = sym_fork("output", 0, 2); s.w = sym_fork("w", 0, 3); s.h = sym_fork("h", 0, 2); s.start = 1; s.pad = sym_fork("pad", 0, 1); s.cfg = sym_fork("config", 0, 6); s.off = sym_fork("origin", 0, 3); s.tail = 0; s.dw = sym_fork("wider", 0, 1); s.bits = 4 * sym_fork("bits", 0, 2); int fails = sym_fork("fails", 0, 1); s.fail = fails ? sym_fork("fail", 1, 3) : 0; s.result = false;
  if (!outputFits(s.e, bits) || (s.e < CH && s.off) || (s.bits && (s.e < CH || s.e > C2 || fails)) || (fails && s.dw) || (s.e < CH && s.cfg == 6) || (s.off > 1 && fails)) sym_end(); sym_shard(); dispatch(s, bits);
}
