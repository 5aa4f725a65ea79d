// C24: benchmark of an unknown function that takes an unknown time
#include "sym.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <vector>
#include <functional>
#include <cmath>
#include <time.h>
static struct timespec now;
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept { *t = now; return 0; }
#include "vdtdiag_helper.h"
#include "vdtdiag_fcnPerformance.h"

// every evaluation takes an unknown time
static int calls, size, reps, order;
static uint64_t took[200];
// the clock stays within one second: that the timer carries over is the subject of C20
static uint64_t some() {
  uint64_t d = sym32();
  assume(d < 1 << 20);
  now.tv_nsec += d;
  return d;
}
static void begin(int n, int r) {
  size = n; reps = r; calls = 0; order = 1;
  now.tv_sec = 5;
  now.tv_nsec = 1000;
}
// one evaluation of element i
static void step(int i) {
  order &= calls % size == i;
  took[calls++ % 200] = some();
}
template<class T> static void judge(const fcnPerformance<T>& p) {
  int n = size * reps;
  claim(1, (calls % size == 0) & (calls >= n) & (calls <= 200));
  claim(2, order);
  uint64_t total = 0;                        // of the recorded repetitions; those before are the warm-up
  for (int i = calls - n; i < calls; ++i) total += took[i];
  double mean = (double)total / (uint64_t)n;
  claim(3, raw(p.getAvg()) == raw((T)mean));
  tell(1, calls);
}
template<class T> static std::vector<T> list(int n) { std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(T(i + 1)); return v; }
template<class T> static void one(int n, int r) {
  begin(n, r);
  std::vector<T> in = list<T>(n);
  std::function<T(T)> f = [](T x) { step((int)x - 1); return x; };
  judge(fcnPerformance<T>("f", in, f, r));
}
template<class T> static void two(int n, int r) {
  begin(n, r);
  std::vector<T> in = list<T>(n), in2;
  for (int i = 0; i < n; ++i) in2.push_back(T(100 + i));
  std::function<T(T, T)> f = [](T x, T y) { order &= y == x + T(99); step((int)x - 1); return y; };
  judge(fcnPerformance<T>("f", in, in2, f, r));
}
template<class T> static void onev(int n, int r) {
  begin(n, r);
  std::vector<T> in = list<T>(n);
  std::function<void(uint32_t, T*, T*)> f = [](uint32_t m, T* x, T* y) { for (uint32_t i = 0; i < m; ++i) { step((int)x[i] - 1); y[i] = x[i]; } };
  judge(fcnPerformance<T>("f", in, f, r));
}
template<class T> static void twov(int n, int r) {
  begin(n, r);
  std::vector<T> in = list<T>(n), in2;
  for (int i = 0; i < n; ++i) in2.push_back(T(100 + i));
  std::function<void(uint32_t, T*, T*, T*)> f = [](uint32_t m, T* x, T* y, T* z) {
    for (uint32_t i = 0; i < m; ++i) { order &= y[i] == x[i] + T(99); step((int)x[i] - 1); z[i] = y[i]; }
  };
  judge(fcnPerformance<T>("f", in, in2, f, r));
}
#define ALL(N, R) \
SCENARIO(d1_##N##_##R) { one<double>(N, R); } \
SCENARIO(f1_##N##_##R) { one<float>(N, R); } \
SCENARIO(d2_##N##_##R) { two<double>(N, R); } \
SCENARIO(f2_##N##_##R) { two<float>(N, R); } \
SCENARIO(d1v_##N##_##R) { onev<double>(N, R); } \
SCENARIO(f1v_##N##_##R) { onev<float>(N, R); } \
SCENARIO(d2v_##N##_##R) { twov<double>(N, R); } \
SCENARIO(f2v_##N##_##R) { twov<float>(N, R); }
ALL(1, 1) ALL(1, 2) ALL(3, 1) ALL(3, 2) ALL(2, 3) ALL(5, 2) ALL(4, 4)
