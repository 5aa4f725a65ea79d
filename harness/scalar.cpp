// Entry points for the scalar functions of the library under check.
#include "vdtMath.h"
#include "sincos.h"

#define ONE(n) \
  extern "C" double d_##n(double x){ return vdt::fast_##n(x); } \
  extern "C" float f_##n(float x){ return vdt::fast_##n##f(x); }
ONE(exp) ONE(log) ONE(sin) ONE(cos) ONE(tan) ONE(asin) ONE(acos) ONE(atan) ONE(tanh)
ONE(isqrt) ONE(approx_isqrt) ONE(inv) ONE(approx_inv)
extern "C" double d_atan2(double y, double x){ return vdt::fast_atan2(y,x); }
extern "C" float f_atan2(float y, float x){ return vdt::fast_atan2f(y,x); }
extern "C" void d_sincos(double x, double* s, double* c){ vdt::fast_sincos(x,*s,*c); }
extern "C" void f_sincos(float x, float* s, float* c){ vdt::fast_sincosf(x,*s,*c); }
