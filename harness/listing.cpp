// C27: what the classes show on the screen
#include "sym.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <limits>
#include "vdtdiag_filePersistence.h"
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"

// long lists repeat their first values
template<class T> static std::vector<T> list(int n) {
  std::vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(i < 20 ? any(T()) : v[i * i % 7]);
  return v;
}
static void plain() { std::cout.flags(std::ios_base::dec | std::ios_base::skipws); std::cout.precision(6); }
template<class O> static void shown(O& o) {
  plain();
  capture(1);
  o.print();
  capture(0);
  plain();
  capture(1);
}
static void end(int id) { capture(0); claim(id, same_capture()); }
template<class T> static int digits() { return std::numeric_limits<T>::digits10; }

template<class T> static void pool1(int n) {
  randomPool1D<T> p(T(-2), T(5), n, 3);
  const std::vector<T>& v = p.getNumbers();
  shown(p);
  std::cout << "Random Pool 1D:\n" << std::setprecision(digits<T>());
  for (int i = 0; i < n; ++i) std::cout << i << "/" << n << " - " << v[i] << "\n";
  end(1);
}
template<class T> static void pool2(int n) {
  randomPool2D<T> p(T(-2), T(-3), T(5), T(7), n, 3);
  const std::vector<T>&v = p.getNumbersX(), &w = p.getNumbersY();
  shown(p);
  std::cout << "Random Pool 2D:\n" << std::setprecision(digits<T>());
  for (int i = 0; i < n; ++i) std::cout << i << "/" << n << " - " << v[i] << " " << w[i] << "\n";
  end(1);
}
template<class T> static void pool_old(int n) {
  randomPool_old<T> p(T(-2), T(5), n, 3);
  const std::vector<T>& v = p.getNumbers();
  shown(p);
  std::cout << "Random Pool:\n" << std::setprecision(digits<T>());
  for (int i = 0; i < n; ++i) std::cout << i + 1 << "/" << n << " - " << v[i] << "\n";
  end(1);
}
template<class T> static void response1(int n) {
  std::vector<T> in = list<T>(n);
  std::function<T(T)> f = [](T x) { return fn(x); };
  fcnResponse1D<T> r("f", in, f);
  shown(r);
  std::cout << "Function Performance (1 single input):\n" << std::setprecision(digits<T>());
  for (int i = 0; i < n; ++i) std::cout << i << "/" << n << " f(" << in[i] << ") = " << fn(in[i]) << "\n";
  end(2);
}
template<class T> static void response2(int n) {
  std::vector<T> in = list<T>(n), in2 = list<T>(n);
  std::function<T(T, T)> f = [](T x, T y) { return fn(x, y); };
  fcnResponse2D<T> r("f", in, in2, f);
  shown(r);
  std::cout << "Function Performance (2 inputs):\n" << std::setprecision(digits<T>());
  for (int i = 0; i < n; ++i) std::cout << i << "/" << n << " f(" << in[i] << ", " << in2[i] << " ) = " << fn(in[i], in2[i]) << "\n";
  end(2);
}
template<class T> static void response_old(int n) {
  std::vector<T> in = list<T>(n);
  std::function<T(T)> f = [](T x) { return fn(x); };
  fcnResponse_old<T> r("f", in, f);
  shown(r);
  std::cout << "Function Performance:\n" << std::setprecision(digits<T>());
  for (int i = 0; i < n; ++i) std::cout << i << "/" << n << " f(" << in[i] << ") = " << fn(in[i]) << "\n";
  end(2);
}
template<class C> static void totals(C& c) {         // the numbers of its file
  c.writeFile("s");
  std::ifstream f("s");
  std::string line;
  for (int i = 0; i < 5; ++i) std::getline(f, line);
  unsigned max = 0, min = 0;
  fpFromHex<double> m, r;
  f >> max >> min >> m >> r;
  std::cout << "Stats for n:\n" << std::setprecision(2) << "Max diff bit: " << max << "\nMin diff bit: " << min << "\nMean diff bit: " << m.getValue()
            << "\nRMS diff bit: " << r.getValue() << "\n";
}
template<class T> static void row(int i, int n, const T* x, const T* y, T a, T b) {
  int p = digits<T>() + 2, w = p + 7;
  std::cout << std::setprecision(p) << i << "/" << n << " n( " << std::scientific << std::setw(w) << *x;
  if (y) std::cout << ", " << *y;
  std::cout << " ) = " << std::setw(w) << a << " " << std::setw(w) << b;
  std::cout.unsetf(std::ios_base::floatfield);
  std::cout << std::showbase << std::hex;
  if (sizeof(T) == 8) std::cout << " " << raw(a) << " " << raw(b); else std::cout << " " << (uint32_t)raw(a) << " " << (uint32_t)raw(b);
  std::cout << std::dec << " " << vdth::diffbit(a, b) << "\n" << std::noshowbase;
}
template<class C, class T> static void comparison1(int n) {
  std::vector<T> in = list<T>(n), a = list<T>(n), b = list<T>(n);
  C c("n", in, a, b);
  shown(c);
  std::cout << "Function Performance Comparison:\n";
  for (int i = 0; i < n; ++i) row<T>(i, n, &in[i], 0, a[i], b[i]);
  totals(c);
  end(3);
}
template<class T> static void comparison2(int n) {
  std::vector<T> in = list<T>(n), in2 = list<T>(n), a = list<T>(n), b = list<T>(n);
  fcnComparison2D<T> c("n", in, in2, a, b);
  shown(c);
  std::cout << "Function Performance Comparison:\n";
  for (int i = 0; i < n; ++i) row<T>(i, n, &in[i], &in2[i], a[i], b[i]);
  totals(c);
  end(3);
}
#define ALL(N) \
SCENARIO(pool_##N) { pool1<double>(N); pool1<float>(N); pool2<double>(N); pool2<float>(N); pool_old<double>(N); pool_old<float>(N); } \
SCENARIO(response1_##N) { response1<double>(N); response1<float>(N); } \
SCENARIO(response2_##N) { response2<double>(N); response2<float>(N); } \
SCENARIO(response_old_##N) { response_old<double>(N); response_old<float>(N); }
#define ALLC(N) \
SCENARIO(d1_##N) { comparison1<fcnComparison1D<double>, double>(N); } \
SCENARIO(f1_##N) { comparison1<fcnComparison1D<float>, float>(N); } \
SCENARIO(dold_##N) { comparison1<fcnComparison_old<double>, double>(N); } \
SCENARIO(fold_##N) { comparison1<fcnComparison_old<float>, float>(N); } \
SCENARIO(d2_##N) { comparison2<double>(N); } \
SCENARIO(f2_##N) { comparison2<float>(N); }
ALL(0) ALL(1) ALL(2) ALL(3) ALL(12) ALL(300)
ALLC(1) ALLC(2)
#ifdef DEEP
ALLC(3)
#endif
