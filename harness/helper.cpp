#include "sym.h"
#include "vdtdiag_helper.h"

// C17
template<class T, class U> static void distance(T a, T b, U ia, U ib) {
  uint16_t r = vdth::diffbit(a, b);
  uint64_t d = ia > ib ? ia - ib : ib - ia;
  tell(1, r);
  claim(1, (r == 0) == (ia == ib));
  claim(2, (d == 0) | ((r >= 1) & (r <= 64) & ((d >> ((r - 1) & 63)) == 1)));
  claim(3, vdth::diffbit(b, a) == r);
}
SCENARIO(diffbit_double) { uint64_t a = sym64(), b = sym64(); distance(dbl(a), dbl(b), a, b); }
SCENARIO(diffbit_float) { uint32_t a = sym32(), b = sym32(); distance(flt(a), flt(b), a, b); }
