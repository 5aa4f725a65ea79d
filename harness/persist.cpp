// C18: values written in hexadecimal and read back
#include "sym.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include "vdtdiag_filePersistence.h"
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"
#ifndef ROWS
#define ROWS 2
#endif

template<class T> static bool eq(const std::vector<T>& a, const std::vector<T>& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i) r &= raw(a[i]) == raw(b[i]);
  return r;
}
// long lists repeat their first values
template<class T> static std::vector<T> list(int n) {
  std::vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(n <= 7 || i < 2 ? any(T()) : v[i % 2]);
  return v;
}

// one stream, several values, numbers in decimal between them
template<class T> static void sequence(int n) {
  std::stringstream s;
  std::vector<T> v = list<T>(n);
  for (int i = 0; i < n; ++i) s << fpToHex<T>(v[i]);
  s << 99 << ' ';
  for (int i = 0; i < n; ++i) s << fpToHex<T>(v[i]) << 10 + i << ' ';
  for (int i = 0; i < n; ++i) {
    fpFromHex<T> x;
    claim(1, bool(s >> x));
    claim(2, raw(x.getValue()) == raw(v[i]));
  }
  int d = 0;
  s >> d;
  claim(3, d == 99);
  fpFromHex<T> x;
  for (int i = 0; i < n; ++i) {
    claim(1, bool(s >> x >> d));
    claim(2, raw(x.getValue()) == raw(v[i]));
    claim(3, d == 10 + i);
  }
  claim(4, !(s >> x));
}
SCENARIO(hex_double) { sequence<double>(ROWS + 1); }
SCENARIO(hex_float) { sequence<float>(ROWS + 1); }
// both widths on one stream, and the separate streams of a file
SCENARIO(hex_mixed) {
  double a = any(double()), b = any(double());
  float f = any(float());
  { std::ofstream o("m"); o << fpToHex<double>(a) << fpToHex<float>(f) << std::endl << fpToHex<double>(b); }
  std::ifstream i("m");
  fpFromHex<double> x, z;
  fpFromHex<float> y;
  claim(1, bool(i >> x >> y >> z));
  claim(2, raw(x.getValue()) == raw(a));
  claim(2, raw(y.getValue()) == raw(f));
  claim(2, raw(z.getValue()) == raw(b));
}

template<class P, class T> static void pool(int n) {
  T lo = any(T()), hi = any(T());
  P p(lo, hi, n, 7);
  claim(10, p.getNumbers().size() == (size_t)n);
  p.writeFile("a");
  P q("a");
  claim(11, eq(p.getNumbers(), q.getNumbers()));
  q.writeFile("b");
  P r("b");
  claim(12, eq(p.getNumbers(), r.getNumbers()));
  r.writeFile("c");
  P s("c");
  claim(12, eq(p.getNumbers(), s.getNumbers()));
}
SCENARIO(pool1_double) { pool<randomPool1D<double>, double>(ROWS + 1); }
SCENARIO(pool1_float) { pool<randomPool1D<float>, float>(ROWS + 1); }
SCENARIO(pool1_long) { pool<randomPool1D<float>, float>(300); }
SCENARIO(pool1_one) { pool<randomPool1D<double>, double>(1); }
SCENARIO(poolold_double) { pool<randomPool_old<double>, double>(ROWS + 1); }
SCENARIO(poolold_float) { pool<randomPool_old<float>, float>(ROWS + 1); }
template<class T> static void pool2(int n) {
  typedef randomPool2D<T> P;
  T a = any(T()), b = any(T()), c = any(T()), d = any(T());
  P p(a, b, c, d, n, 7);
  claim(10, (p.getNumbersX().size() == (size_t)n) & (p.getNumbersY().size() == (size_t)n));
  p.writeFile("a");
  P q("a");
  claim(11, eq(p.getNumbersX(), q.getNumbersX()) & eq(p.getNumbersY(), q.getNumbersY()));
  q.writeFile("b");
  P r("b");
  claim(12, eq(p.getNumbersX(), r.getNumbersX()) & eq(p.getNumbersY(), r.getNumbersY()));
}
SCENARIO(pool2_double) { pool2<double>(ROWS + 1); }
SCENARIO(pool2_long) { pool2<double>(150); }
SCENARIO(pool2_float) { pool2<float>(ROWS + 1); }

static std::string label() {
  // any two characters inside the name, except the end of a line
  char a = sym8(), b = sym8();
  assume((a != '\n') & (b != '\n') & (a != 0) & (b != 0));
  std::string s("a name ");
  s += a;
  s += b;
  return s;
}
template<class R, class T> static void response(int n) {
  std::vector<T> in = list<T>(n);
  std::function<T(T)> f = [](T x) { return fn(x); };
  R p(label(), in, f);
  p.writeFile("a");
  R q("a");
  claim(21, eq(p.getInput(), q.getInput()) & eq(in, q.getInput()));
  claim(22, eq(p.getOutput(), q.getOutput()));
  q.writeFile("b");
  R r("b");
  claim(23, eq(p.getInput(), r.getInput()) & eq(p.getOutput(), r.getOutput()));
}
SCENARIO(resp1_double) { response<fcnResponse1D<double>, double>(ROWS); }
SCENARIO(resp1_float) { response<fcnResponse1D<float>, float>(ROWS); }
SCENARIO(resp1_long) { response<fcnResponse1D<double>, double>(300); }
SCENARIO(resp1_none) { response<fcnResponse1D<double>, double>(0); }
SCENARIO(respold_double) { response<fcnResponse_old<double>, double>(ROWS); }
SCENARIO(respold_float) { response<fcnResponse_old<float>, float>(ROWS); }
template<class T> static void response2(int n) {
  typedef fcnResponse2D<T> R;
  std::vector<T> in1 = list<T>(n), in2 = list<T>(n);
  std::function<T(T, T)> f = [](T x, T y) { return fn(x, y); };
  R p(label(), in1, in2, f);
  p.writeFile("a");
  R q("a");
  claim(21, eq(in1, q.getInput1()) & eq(in2, q.getInput2()));
  claim(22, eq(p.getOutput(), q.getOutput()));
  q.writeFile("b");
  R r("b");
  claim(23, eq(in1, r.getInput1()) & eq(in2, r.getInput2()) & eq(p.getOutput(), r.getOutput()));
}
SCENARIO(resp2_double) { response2<double>(ROWS); }
SCENARIO(resp2_long) { response2<float>(300); }
SCENARIO(resp2_float) { response2<float>(ROWS); }

template<class C> static void shown(C& c) {
  capture(1);
  c.print();
  capture(0);
}
// the printed text shows everything a comparison holds
template<class C, class T> static void comparison(int n) {
  std::vector<T> in = list<T>(n), o1 = list<T>(n), o2 = list<T>(n);
  C p("From a", in, o1, o2);
  p.writeFile("a");
  C q("a");
  shown(p);
  shown(q);
  claim(31, same_capture());
  claim(32, p.hasDifference() == q.hasDifference());
  q.writeFile("b");
  C r("b"), p2("From b", in, o1, o2);
  shown(p2);
  shown(r);
  claim(33, same_capture());
}
SCENARIO(comp1_double) { comparison<fcnComparison1D<double>, double>(ROWS); }
SCENARIO(comp1_long) { comparison<fcnComparison1D<float>, float>(70); }
SCENARIO(comp1_float) { comparison<fcnComparison1D<float>, float>(ROWS); }
SCENARIO(compold_double) { comparison<fcnComparison_old<double>, double>(ROWS); }
SCENARIO(compold_float) { comparison<fcnComparison_old<float>, float>(ROWS); }
template<class T> static void comparison2(int n) {
  typedef fcnComparison2D<T> C;
  std::vector<T> in1 = list<T>(n), in2 = list<T>(n), o1 = list<T>(n), o2 = list<T>(n);
  C p("From a", in1, in2, o1, o2);
  p.writeFile("a");
  C q("a");
  shown(p);
  shown(q);
  claim(31, same_capture());
  q.writeFile("b");
  C r("b"), p2("From b", in1, in2, o1, o2);
  shown(p2);
  shown(r);
  claim(33, same_capture());
}
SCENARIO(comp2_double) { comparison2<double>(ROWS); }
SCENARIO(comp2_long) { comparison2<double>(70); }
SCENARIO(comp2_float) { comparison2<float>(ROWS); }
