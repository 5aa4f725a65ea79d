// C25: the benchmark tables
#include "sym.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <functional>
#include "vdtMath_signatures.cc"
#include "vdtdiag_fcnTuples.h"

// name without calling form and precision, function, argument pool
enum { SYM, POS, ONE, EXP };
static const double lowest[] = {-5000, 0, -1, -80}, highest[] = {5000, 5000, 1, 80};
template<class T> struct Row { const char* name; T (*f)(T); int pool; };
static const Row<double> rd[] = {
  {"Identity", vdt::identity, SYM}, {"Exp", ::exp, EXP}, {"Log", ::log, POS}, {"Sin", ::sin, SYM}, {"Cos", ::cos, SYM}, {"Tan", ::tan, SYM},
  {"Tanh", ::tanh, SYM}, {"Asin", ::asin, ONE}, {"Acos", ::acos, ONE}, {"Atan", ::atan, SYM}, {"Isqrt", vdt::isqrt, POS}, {"Inverse", vdt::inv, SYM},
  {"Fast_Exp", vdt::fast_exp, EXP}, {"Fast_Log", vdt::fast_log, POS}, {"Fast_Sin", vdt::fast_sin, SYM}, {"Fast_Cos", vdt::fast_cos, SYM},
  {"Fast_Tan", vdt::fast_tan, SYM}, {"Fast_Tanh", vdt::fast_tanh, SYM}, {"Fast_Asin", vdt::fast_asin, ONE}, {"Fast_Acos", vdt::fast_acos, ONE},
  {"Fast_Atan", vdt::fast_atan, SYM}, {"Fast_Isqrt", vdt::fast_isqrt, POS}, {"Fast_Inv", vdt::fast_inv, SYM},
  {"Fast_Apr_Isqrt", vdt::fast_approx_isqrt, POS}, {"Fast_Apr_Inv", vdt::fast_approx_inv, SYM}};
static const Row<float> rf[] = {
  {"Identity", vdt::identityf, SYM}, {"Exp", ::expf, EXP}, {"Log", ::logf, POS}, {"Sin", ::sinf, SYM}, {"Cos", ::cosf, SYM}, {"Tan", ::tanf, SYM},
  {"Tanh", ::tanhf, SYM}, {"Asin", ::asinf, ONE}, {"Acos", ::acosf, ONE}, {"Atan", ::atanf, SYM}, {"Isqrt", vdt::isqrtf, POS}, {"Inverse", vdt::invf, SYM},
  {"Fast_Exp", vdt::fast_expf, EXP}, {"Fast_Log", vdt::fast_logf, POS}, {"Fast_Sin", vdt::fast_sinf, SYM}, {"Fast_Cos", vdt::fast_cosf, SYM},
  {"Fast_Tan", vdt::fast_tanf, SYM}, {"Fast_Tanh", vdt::fast_tanhf, SYM}, {"Fast_Asin", vdt::fast_asinf, ONE}, {"Fast_Acos", vdt::fast_acosf, ONE},
  {"Fast_Atan", vdt::fast_atanf, SYM}, {"Fast_Isqrt", vdt::fast_isqrtf, POS}, {"Fast_Inv", vdt::fast_invf, SYM},
  {"Fast_Apr_Isqrt", vdt::fast_approx_isqrtf, POS}, {"Fast_Apr_Inv", vdt::fast_approx_invf, SYM}};
static const int N = sizeof(rd) / sizeof(*rd);
static const Row<double>* rows(double) { return rd; }
static const Row<float>* rows(float) { return rf; }
static const char* suffix(double) { return ""; }
static const char* suffix(float) { return "f"; }

template<class T> struct Pools {
  randomPool<T> sym, pos, one, ex;
  Pools() : sym(-5000, 5000, 2), pos(0, 5000, 2), one(-1, 1, 2), ex(-80, 80, 2) {}
  const std::vector<T>* get(int i) const { return &(i == SYM ? sym : i == POS ? pos : i == ONE ? one : ex).getNumbers(); }
};
template<class T> static void apply(const std::function<T(T)>& f, T* in, T* out, int n) { for (int i = 0; i < n; ++i) out[i] = f(in[i]); }
template<class T> static void apply(const std::function<void(uint32_t, T*, T*)>& f, T* in, T* out, int n) { f(n, in, out); }

template<class T, class Tuple> static void row(const std::vector<Tuple>& t, const Pools<T>& p, const std::string& form, int k) {
  const Row<T>& r = rows(T())[k];
  int found = 0;
  for (size_t i = 0; i < t.size(); ++i) {
    if (std::get<0>(t[i]) != r.name + form) continue;
    ++found;
    claim(2, &std::get<2>(t[i]) == p.get(r.pool));
    T in[2], out[3], keep[2];
    for (int j = 0; j < 2; ++j) {
      keep[j] = in[j] = any(T());
      assume((in[j] >= T(lowest[r.pool])) & (in[j] <= T(highest[r.pool])));
    }
    out[2] = T(7);
    apply(std::get<1>(t[i]), in, out, 2);
    for (int j = 0; j < 2; ++j) claim(1, raw(out[j]) == raw(r.f(keep[j])));
    claim(1, out[2] == T(7));
  }
  claim(3, found == 1);
}
template<class T> static void scalar(int k) {
  Pools<T> p;
  std::vector<genfpfcn_tuple<T>> t;
  getFunctionTuples(&t, p.sym, p.pos, p.one, p.ex);
  getFunctionTuples(&t, p.sym, p.pos, p.one, p.ex);        // filling again does not accumulate
  claim(4, t.size() == (size_t)N);
  row<T>(t, p, suffix(T()), k);
}
template<class T> static void vect(int k) {
  Pools<T> p;
  std::vector<genfpfcnv_tuple<T>> t;
  getFunctionTuplesvect(&t, p.sym, p.pos, p.one, p.ex);
  getFunctionTuplesvect(&t, p.sym, p.pos, p.one, p.ex);
  claim(4, t.size() == (size_t)N);
  row<T>(t, p, std::string(suffix(T())) + "v", k);
}
template<class T> struct Row2 { const char* name; T (*f)(T, T); };
static const Row2<double> rd2[] = {{"Identity2D", vdt::identity2D}, {"Atan2", ::atan2}, {"Fast_Atan2", vdt::fast_atan2}};
static const Row2<float> rf2[] = {{"Identity2D", vdt::identity2Df}, {"Atan2", ::atan2f}, {"Fast_Atan2", vdt::fast_atan2f}};
static const Row2<double>* rows2(double) { return rd2; }
static const Row2<float>* rows2(float) { return rf2; }
template<class T> static void apply2(const std::function<T(T, T)>& f, T* a, T* b, T* out, int n) { for (int i = 0; i < n; ++i) out[i] = f(a[i], b[i]); }
template<class T> static void apply2(const std::function<void(uint32_t, T*, T*, T*)>& f, T* a, T* b, T* out, int n) { f(n, a, b, out); }
template<class T, class Tuple> static void row2(const std::vector<Tuple>& t, const randomPool2D<T>& p, const std::string& form, int k) {
  const Row2<T>& r = rows2(T())[k];
  claim(4, t.size() == 3);
  int found = 0;
  for (size_t i = 0; i < t.size(); ++i) {
    if (std::get<0>(t[i]) != r.name + form) continue;
    ++found;
    claim(2, (&std::get<2>(t[i]) == &p.getNumbersX()) & (&std::get<3>(t[i]) == &p.getNumbersY()));
    T a = any(T()), b = any(T()), out[2] = {T(0), T(7)}, x = a, y = b;
    apply2(std::get<1>(t[i]), &x, &y, out, 1);
    claim(1, raw(out[0]) == raw(r.f(a, b)));
    claim(1, out[1] == T(7));
  }
  claim(3, found == 1);
}
template<class T> static void scalar2(int k) {
  randomPool2D<T> p(T(-1), T(-1), T(1), T(1), 2);
  std::vector<genfpfcn2D_tuple<T>> t;
  getFunctionTuples(&t, p);
  row2<T>(t, p, suffix(T()), k);
}
template<class T> static void vect2(int k) {
  randomPool2D<T> p(T(-1), T(-1), T(1), T(1), 2);
  std::vector<genfpfcn2Dv_tuple<T>> t;
  getFunctionTuplesvect(&t, p);
  row2<T>(t, p, std::string(suffix(T())) + "v", k);
}
SCENARIO(basic_names) {
  std::vector<std::string> n;
  n.push_back("old");
  getFunctionBasicNames(&n);
  static const char* want[] = {"Exp", "Log", "Sin", "Cos", "Tan", "Tanh", "Asin", "Acos", "Atan", "Isqrt", "Inverse"};
  claim(5, n.size() == 11);
  for (int i = 0; i < 11; ++i) {
    int c = 0;
    for (size_t j = 0; j < n.size(); ++j) c += n[j] == want[i];
    claim(5, c == 1);
  }
}
#define ROW(K) \
SCENARIO(d_##K) { scalar<double>(K); } \
SCENARIO(f_##K) { scalar<float>(K); } \
SCENARIO(dv_##K) { vect<double>(K); } \
SCENARIO(fv_##K) { vect<float>(K); }
ROW(0) ROW(1) ROW(2) ROW(3) ROW(4) ROW(5) ROW(6) ROW(7) ROW(8) ROW(9) ROW(10) ROW(11) ROW(12) ROW(13) ROW(14) ROW(15) ROW(16) ROW(17) ROW(18) ROW(19)
ROW(20) ROW(21) ROW(22) ROW(23) ROW(24)
#define ROW2(K) \
SCENARIO(d2_##K) { scalar2<double>(K); } \
SCENARIO(f2_##K) { scalar2<float>(K); } \
SCENARIO(d2v_##K) { vect2<double>(K); } \
SCENARIO(f2v_##K) { vect2<float>(K); }
ROW2(0) ROW2(1) ROW2(2)
