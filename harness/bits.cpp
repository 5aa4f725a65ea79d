// C26: text of a bit pattern; print-outs of differences
#include "sym.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include "vdtdiag_helper.h"

// sign, exponent and mantissa, highest bit first
static std::string fields(uint64_t b, int e, int m) {
  std::string s;
  for (int i = e + m; i >= 0; --i) {
    s += (char)('0' + ((b >> i) & 1));
    if (i == e + m || i == m) s += ' ';
  }
  return s;
}
static std::string shown(double x) { return fields(raw(x), 11, 52); }
static std::string shown(float x) { return fields(raw(x), 8, 23); }
static bool same(const std::string& a, const std::string& b) {
  bool r = a.size() == b.size();
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) r &= a[i] == b[i];
  return r;
}
template<class T> static void text() {
  T x = any(T());
  std::string s = vdth::getbsasstr(x);
  claim(1, same(s, shown(x)));
  claim(2, vdth::fp2uint64(x) == raw(x));
  claim(2, vdth::fp2bs(x).to_ullong() == raw(x));
}
// what a difference should look like
template<class T> static void expected(T a, T b, bool bits = true) {
  std::cout << "Different bit between " << a << " and " << b << " is " << vdth::diffbit(a, b) << "\n";
  if (bits) std::cout << shown(a) << "\n" << shown(b) << "\n\n";
}
template<class T> static void difference() {
  T a = any(T()), b = any(T());
  capture(1);
  vdth::print_different_bit(a, b);
  capture(0);
  std::cout.precision(10);
  capture(1);
  expected(a, b);
  capture(0);
  claim(3, same_capture());
  capture(1);
  vdth::print_different_bit(a, b, false);
  capture(0);
  capture(1);
  expected(a, b, false);
  capture(0);
  claim(3, same_capture());
}
template<class T> static T f1(T x) { return fn(x); }
template<class T> static T f2(T x) { return fn(x, x); }
template<class T> static T g1(T x, T y) { return fn(x, y); }
template<class T> static T g2(T x, T y) { return fn(fn(y, x)); }
template<class T> static void f1v(uint32_t n, T* x, T* r) { for (uint32_t i = 0; i < n; ++i) r[i] = f1(x[i]); }
template<class T> static void f2v(uint32_t n, T* x, T* r) { for (uint32_t i = 0; i < n; ++i) r[i] = f2(x[i]); }
template<class T> static void g1v(uint32_t n, T* x, T* y, T* r) { for (uint32_t i = 0; i < n; ++i) r[i] = g1(x[i], y[i]); }
template<class T> static void g2v(uint32_t n, T* x, T* y, T* r) { for (uint32_t i = 0; i < n; ++i) r[i] = g2(x[i], y[i]); }

template<class T> static void functions(int n) {
  T x[16], y[16];
  for (int i = 0; i < n; ++i) { x[i] = any(T()); y[i] = any(T()); }
  std::cout.precision(10);
  if (n == 1) {
    capture(1);
    vdth::printFuncDiff<T>("name", std::function<T(T)>(f1<T>), std::function<T(T)>(f2<T>), x[0]);
    vdth::printFuncDiff<T>("name", std::function<T(T, T)>(g1<T>), std::function<T(T, T)>(g2<T>), x[0], y[0]);
    capture(0);
    capture(1);
    std::cout << "Function name(" << x[0] << ")\n";
    expected(f1(x[0]), f2(x[0]));
    std::cout << "Function name(" << x[0] << ", " << y[0] << ")\n";
    expected(g1(x[0], y[0]), g2(x[0], y[0]));
    capture(0);
    claim(4, same_capture());
  }
  capture(1);
  vdth::printFuncDiff<T>("name", std::function<T(T)>(f1<T>), std::function<T(T)>(f2<T>), x, n);
  vdth::printFuncDiff<T>("name", std::function<T(T, T)>(g1<T>), std::function<T(T, T)>(g2<T>), x, y, n);
  capture(0);
  capture(1);
  for (int i = 0; i < n; ++i) {
    std::cout << "Function name(" << x[i] << ")\n";
    expected(f1(x[i]), f2(x[i]));
  }
  for (int i = 0; i < n; ++i) {
    std::cout << "Function name(" << x[i] << ", " << y[i] << ")\n";
    expected(g1(x[i], y[i]), g2(x[i], y[i]));
  }
  capture(0);
  claim(5, same_capture());
  capture(1);
  vdth::printFuncDiff<T>("name", vdth::genfpfunctionv<T>(f1v<T>), vdth::genfpfunctionv<T>(f2v<T>), x, n);
  vdth::printFuncDiff<T>("name", vdth::genfp2functionv<T>(g1v<T>), vdth::genfp2functionv<T>(g2v<T>), x, y, n);
  capture(0);
  capture(1);
  std::cout << "Function name\n";
  for (int i = 0; i < n; ++i) {
    std::cout << "Calculated in " << x[i] << "\n";
    expected(f1(x[i]), f2(x[i]));
  }
  std::cout << "Function name\n";
  for (int i = 0; i < n; ++i) {
    std::cout << "Calculated in (" << x[i] << ", " << y[i] << ")\n";
    expected(g1(x[i], y[i]), g2(x[i], y[i]));
  }
  capture(0);
  claim(6, same_capture());
}
SCENARIO(text_double) { text<double>(); }
SCENARIO(text_float) { text<float>(); }
SCENARIO(difference_double) { difference<double>(); }
SCENARIO(difference_float) { difference<float>(); }
#define ALL(N) \
SCENARIO(functions_double_##N) { functions<double>(N); } \
SCENARIO(functions_float_##N) { functions<float>(N); }
ALL(0) ALL(1) ALL(2) ALL(3) ALL(9)
