// Floating-point exception flags raised by the scalar functions.
#include "scalar.cpp"
#include <cfenv>
#define TR(p,T,n) \
  extern "C" int t_##p##_##n(T x){ std::feclearexcept(FE_ALL_EXCEPT); volatile T a=x; volatile T r=p##_##n(a); (void)r; \
    return std::fetestexcept(FE_INVALID|FE_DIVBYZERO|FE_OVERFLOW); }
#define BOTH(n) TR(d,double,n) TR(f,float,n)
BOTH(exp) BOTH(log) BOTH(sin) BOTH(cos) BOTH(tan) BOTH(asin) BOTH(acos) BOTH(atan) BOTH(tanh)
BOTH(isqrt) BOTH(approx_isqrt) BOTH(inv) BOTH(approx_inv)
#define TR2(p,T) \
  extern "C" int t_##p##_atan2(T y, T x){ std::feclearexcept(FE_ALL_EXCEPT); volatile T a=y, b=x; volatile T r=p##_atan2(a,b); (void)r; \
    return std::fetestexcept(FE_INVALID|FE_DIVBYZERO|FE_OVERFLOW); }
TR2(d,double) TR2(f,float)
