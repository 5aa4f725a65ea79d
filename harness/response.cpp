// C21: responses of unknown functions
#include "sym.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include "vdtdiag_filePersistence.h"
#include "vdtdiag_fcnResponse.h"

// long lists repeat their first values
template<class T> static std::vector<T> list(int n) {
  std::vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(i < 20 ? any(T()) : v[i * i % 7]);
  return v;
}
template<class T> static bool eq(const std::vector<T>& a, const std::vector<T>& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i) r &= raw(a[i]) == raw(b[i]);
  return r;
}
template<class R, class T> static void judge(R& r, std::vector<T> given, int n) {
  claim(1, eq(r.getInput(), given));
  claim(2, r.getOutput().size() == (size_t)n);
  if (r.getOutput().size() != (size_t)n) return;
  for (int i = 0; i < n; ++i) claim(3, raw(r.getOutput()[i]) == raw(fn(given[i])));
}
template<class R, class T> static void one(int n) {
  std::vector<T> in = list<T>(n), given = in;
  std::function<T(T)> f = [](T x) { return fn(x); };
  R r("f", in, f);
  for (auto& x : in) x = T(1);         // the caller's list does not matter any more
  judge(r, given, n);
}
template<class R, class T> static void onev(int n) {
  std::vector<T> in = list<T>(n), given = in;
  std::function<void(uint32_t, T*, T*)> f = [](uint32_t m, T* x, T* y) {
    for (uint32_t i = 0; i < m; ++i) y[i] = fn(x[i]);
  };
  R r("f", in, f);
  for (auto& x : in) x = T(1);
  judge(r, given, n);
}
template<class R, class T> static void judge2(R& r, std::vector<T> a, std::vector<T> b, int n) {
  claim(1, eq(r.getInput1(), a) & eq(r.getInput2(), b));
  claim(2, r.getOutput().size() == (size_t)n);
  if (r.getOutput().size() != (size_t)n) return;
  for (int i = 0; i < n; ++i) {
    claim(3, raw(r.getOutput()[i]) == raw(fn(a[i], b[i])));
    claim(5, (raw(r.outputVal(i)) == raw(fn(a[i], b[i]))) & (raw(r.input1Val(i)) == raw(a[i])) & (raw(r.input2Val(i)) == raw(b[i])));
  }
}
template<class T> static void two(int n) {
  std::vector<T> in1 = list<T>(n), in2 = list<T>(n), a = in1, b = in2;
  std::function<T(T, T)> f = [](T x, T y) { return fn(x, y); };
  fcnResponse2D<T> r("f", in1, in2, f);
  for (auto& x : in1) x = T(1);
  for (auto& x : in2) x = T(1);
  judge2(r, a, b, n);
}
template<class T> static void twov(int n) {
  std::vector<T> in1 = list<T>(n), in2 = list<T>(n), a = in1, b = in2;
  std::function<void(uint32_t, T*, T*, T*)> f = [](uint32_t m, T* x, T* y, T* z) {
    for (uint32_t i = 0; i < m; ++i) z[i] = fn(x[i], y[i]);
  };
  fcnResponse2D<T> r("f", in1, in2, f);
  for (auto& x : in1) x = T(1);
  for (auto& x : in2) x = T(1);
  judge2(r, a, b, n);
}
template<class T> static void accessors(int n) {
  std::vector<T> in = list<T>(n);
  std::function<T(T)> f = [](T x) { return fn(x); };
  fcnResponse1D<T> r("f", in, f);
  claim(2, r.getOutput().size() == (size_t)n);
  for (int i = 0; i < n; ++i) claim(5, (raw(r.inputVal(i)) == raw(in[i])) & (raw(r.outputVal(i)) == raw(fn(in[i]))));
}
#define ALL(N) \
SCENARIO(d1_##N) { one<fcnResponse1D<double>, double>(N); } \
SCENARIO(f1_##N) { one<fcnResponse1D<float>, float>(N); } \
SCENARIO(dold_##N) { one<fcnResponse_old<double>, double>(N); } \
SCENARIO(fold_##N) { one<fcnResponse_old<float>, float>(N); } \
SCENARIO(d2_##N) { two<double>(N); } \
SCENARIO(f2_##N) { two<float>(N); } \
SCENARIO(dacc_##N) { accessors<double>(N); } \
SCENARIO(facc_##N) { accessors<float>(N); }
#define ALLV(N) \
SCENARIO(d1v_##N) { onev<fcnResponse1D<double>, double>(N); } \
SCENARIO(f1v_##N) { onev<fcnResponse1D<float>, float>(N); } \
SCENARIO(doldv_##N) { onev<fcnResponse_old<double>, double>(N); } \
SCENARIO(foldv_##N) { onev<fcnResponse_old<float>, float>(N); } \
SCENARIO(d2v_##N) { twov<double>(N); } \
SCENARIO(f2v_##N) { twov<float>(N); }
ALL(0) ALL(1) ALL(2) ALL(3) ALL(5) ALL(8) ALL(17) ALL(300)
ALLV(1) ALLV(2) ALLV(3) ALLV(5) ALLV(8) ALLV(17) ALLV(300)
