// C23: random pools over unknown intervals, with unknown seeds
#include "sym.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <functional>
#include "vdtdiag_random.h"

template<class T> static bool eq(const std::vector<T>& a, const std::vector<T>& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i) r &= raw(a[i]) == raw(b[i]);
  return r;
}
template<class T> static void interval(T& lo, T& hi) {
  lo = any(T());
  hi = any(T());
  assume(lo < hi);                     // excludes NaN
  T most = std::numeric_limits<T>::max();
  assume((lo >= -most) & (hi <= most));
}
template<class T> static void inside(int id, const std::vector<T>& v, T lo, T hi) {
  for (size_t i = 0; i < v.size(); ++i) claim(id, (v[i] >= lo) & (v[i] <= hi));
}
static int32_t anyseed() { uint32_t s = sym32(); assume(s < 1u << 31); return (int32_t)s; }

template<class P, class T> static void one(int n) {
  T lo, hi;
  interval(lo, hi);
  int32_t seed = anyseed();
  P p(lo, hi, n, seed), q(lo, hi, n, seed);
  claim(1, p.getNumbers().size() == (size_t)n);
  inside(2, p.getNumbers(), lo, hi);
  claim(4, eq(p.getNumbers(), q.getNumbers()));
}
template<class T> static void two(int n) {
  T lo, hi, lo2, hi2;
  interval(lo, hi);
  interval(lo2, hi2);
  int32_t seed = anyseed();
  randomPool2D<T> p(lo, lo2, hi, hi2, n, seed), q(lo, lo2, hi, hi2, n, seed);
  claim(1, (p.getNumbersX().size() == (size_t)n) & (p.getNumbersY().size() == (size_t)n));
  inside(2, p.getNumbersX(), lo, hi);
  inside(3, p.getNumbersY(), lo2, hi2);
  claim(4, eq(p.getNumbersX(), q.getNumbersX()) & eq(p.getNumbersY(), q.getNumbersY()));
}
template<class P, class T> static void sizes(int n) {
  P p(T(-2), T(3), n, 7);
  claim(5, p.getSize() == (uint64_t)n);
}
#define ALL(N) \
SCENARIO(d1_##N) { one<randomPool1D<double>, double>(N); } \
SCENARIO(f1_##N) { one<randomPool1D<float>, float>(N); } \
SCENARIO(dold_##N) { one<randomPool_old<double>, double>(N); } \
SCENARIO(fold_##N) { one<randomPool_old<float>, float>(N); } \
SCENARIO(d2_##N) { two<double>(N); } \
SCENARIO(f2_##N) { two<float>(N); } \
SCENARIO(size_##N) { sizes<randomPool1D<double>, double>(N); sizes<randomPool1D<float>, float>(N); }
ALL(0) ALL(1) ALL(2) ALL(3) ALL(5) ALL(300)
#ifdef DEEP
ALL(8) ALL(16) ALL(33)
#endif
