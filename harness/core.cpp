// C30: bits of a value, masks, split into mantissa and exponent
#include "sym.h"
#include "vdtcore_common.h"
using namespace vdt::details;
static void bits_double() {
  uint64_t n = sym64(), m = sym64();
  double x = uint642dp(n);
  claim(1, raw(x) == n);
  claim(1, dp2uint64(x) == n);
  claim(1, fp2uint(x) == n);
  claim(1, raw(int2fp(n)) == n);
  claim(2, raw(dpANDuint64(x, m)) == (n & m));
  claim(2, raw(dpORuint64(x, m)) == (n | m));
  claim(2, raw(dpXORuint64(x, m)) == (n ^ m));
  claim(3, getSignMask(x) == (n & 1ull << 63));
}
static void bits_float() {
  uint32_t n = sym32(), m = sym32();
  float x = uint322sp(n);
  claim(1, raw(x) == n);
  claim(1, sp2uint32(x) == n);
  claim(1, fp2uint(x) == n);
  claim(1, raw(int2fp(n)) == n);
  claim(2, raw(spANDuint32(x, m)) == (n & m));
  claim(2, raw(spORuint32(x, m)) == (n | m));
  claim(2, raw(spXORuint32(x, m)) == (n ^ m));
  claim(3, getSignMask(x) == (n & 1u << 31));
}
SCENARIO(words_double) { bits_double(); }
SCENARIO(words_float) { bits_float(); }
// positive normal numbers of the exponents in [from, to), any fraction
static void split_double(int from, int to) {
  for (int e = from; e < to; ++e) {
    uint64_t f = sym64() >> 12;
    double fe, m = getMantExponent(dbl((uint64_t)e << 52 | f), fe);
    claim(4, fe == e - 1023);
    claim(5, raw(m) == (0x3FEull << 52 | f));
  }
}
static void split_float(int from, int to) {
  for (int e = from; e < to; ++e) {
    uint32_t f = sym32() >> 9;
    float fe, m = getMantExponentf(flt((uint32_t)e << 23 | f), fe);
    claim(4, fe == e - 127);
    claim(5, raw(m) == (0x7Eu << 23 | f));
  }
}
SCENARIO(split_d0) { split_double(1, 300); }
SCENARIO(split_d1) { split_double(300, 600); }
SCENARIO(split_d2) { split_double(600, 900); }
SCENARIO(split_d3) { split_double(900, 1200); }
SCENARIO(split_d4) { split_double(1200, 1500); }
SCENARIO(split_d5) { split_double(1500, 1800); }
SCENARIO(split_d6) { split_double(1800, 2047); }
SCENARIO(split_f0) { split_float(1, 128); }
SCENARIO(split_f1) { split_float(128, 255); }
