// C19: statistics of a comparison, as written to its file
#include "sym.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include "vdtdiag_filePersistence.h"
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"

// n unknown values; with period p the first p of them over and over
template<class T> static std::vector<T> list(int n, int p) {
  std::vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(i < p ? any(T()) : v[i % p]);
  return v;
}
static bool near(double a, double b) {
#ifdef NATIVE
  return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b));
#else
  return raw(a) == raw(b);
#endif
}
template<class C, class T> static C make(const std::vector<T>& in, const std::vector<T>& o1, const std::vector<T>& o2, const fcnComparison2D<T>*) { return C("n", in, in, o1, o2); }
template<class C, class T, class D> static C make(const std::vector<T>& in, const std::vector<T>& o1, const std::vector<T>& o2, const D*) { return C("n", in, o1, o2); }

template<class C, class T> static void stats(int n, int p) {
  std::vector<T> in, o1 = list<T>(n, p), o2 = list<T>(n, p);
  for (int i = 0; i < n; ++i) in.push_back(T(i));
  C c = make<C, T>(in, o1, o2, (C*)0);
  // the expected numbers
  unsigned lo = 255, hi = 0;
  bool differ = false;
  double sum = 0, sum2 = 0;
  for (int i = 0; i < n; ++i) {
    unsigned d = vdth::diffbit(o1[i], o2[i]);
    lo = d < lo ? d : lo;
    hi = d > hi ? d : hi;
    differ |= raw(o1[i]) != raw(o2[i]);
    sum += d;
    sum2 += d * d;
  }
  double mean = sum / n, rms = n == 1 ? -1. : (sum2 - n * mean * mean) / (n - 1);
  claim(1, c.hasDifference() == differ);
  c.writeFile("s");
  std::ifstream f("s");
  std::string line;
  for (int i = 0; i < 5; ++i) std::getline(f, line);
  unsigned max = 0, min = 0;
  fpFromHex<double> m, r;
  claim(2, bool(f >> max >> min >> m >> r));
  claim(3, max == hi);
  claim(4, min == lo);
  claim(5, near(m.getValue(), mean));
  claim(6, near(r.getValue(), rms));
  // every row holds its own elements and their difference
  for (int i = 0; i < n; ++i) {
    fpFromHex<T> x, y, z;
    unsigned d = 0;
    std::string rest;
    f >> x;
    if (std::is_same<C, fcnComparison2D<T>>::value) f >> x;
    f >> y >> z >> d;
    claim(7, bool(f));
    claim(8, (raw(x.getValue()) == raw(in[i])) & (raw(y.getValue()) == raw(o1[i])) & (raw(z.getValue()) == raw(o2[i])) & (d == vdth::diffbit(o1[i], o2[i])));
    std::getline(f, rest);
  }
  // the table line shows the same numbers
  capture(1);
  c.printStats(true);
  capture(0);
  capture(1);
  std::cout << std::setw(30) << std::left << "n" << std::setw(5) << std::right << hi << std::setw(5) << lo << std::fixed << std::setw(7)
            << std::setprecision(2) << m.getValue() << std::setw(7) << r.getValue() << "\n";
  capture(0);
  claim(9, same_capture());
}
#define ALL(N, P) \
SCENARIO(d1_##N) { stats<fcnComparison1D<double>, double>(N, P); } \
SCENARIO(f1_##N) { stats<fcnComparison1D<float>, float>(N, P); } \
SCENARIO(d2_##N) { stats<fcnComparison2D<double>, double>(N, P); } \
SCENARIO(f2_##N) { stats<fcnComparison2D<float>, float>(N, P); } \
SCENARIO(dold_##N) { stats<fcnComparison_old<double>, double>(N, P); } \
SCENARIO(fold_##N) { stats<fcnComparison_old<float>, float>(N, P); }
ALL(1, 1)
ALL(2, 2)
ALL(3, 3)
// long lists of two pairs
#ifdef DEEP
ALL(4, 4)
ALL(5, 5)
#else
ALL(4, 2)
ALL(5, 2)
#endif
ALL(17, 2)
ALL(300, 2)
