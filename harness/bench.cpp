// C29: the benchmark program, from its command line to its response files
#include "sym.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <functional>
#include <string>
#include <vector>
#include "vdtMath_signatures.cc"
#define main program
#include "progs/vdtArithmBenchmark.cpp"
#undef main

static std::string tick(int n) { return n == 1 ? "1" : n == 2 ? "2" : n == 3 ? "3" : "17"; }
static int call(const std::vector<std::string>& args) {
  char text[8][200];
  char* argv[10];
  for (size_t i = 0; i < args.size(); ++i) {
    for (size_t j = 0; j <= args[i].size(); ++j) text[i][j] = args[i].c_str()[j];
    argv[i] = text[i];
  }
  argv[args.size()] = 0;
  return program((int)args.size(), argv);
}
static bool exists(const std::string& n) { std::ifstream f(n); return f.is_open(); }
static bool header(const std::string& file, const std::string& name, bool dp) {
  std::ifstream f(file);
  std::string a, b, c;
  std::getline(f, a);
  std::getline(f, b);
  std::getline(f, c);
  return b == (dp ? "Double Precision" : "Single Precision") && c == "Function Name = " + name;
}
// the arguments each function is measured on
enum { SYM, POS, ONE, EXP };
template<class T> static T lowest(int p) { return p == SYM ? T(-5000) : p == POS ? (sizeof(T) == 8 ? T(.0001) : T(.0001f)) : p == ONE ? T(-1) : sizeof(T) == 8 ? T(-705) : T(-85); }
template<class T> static T highest(int p) { return p == SYM || p == POS ? T(5000) : p == ONE ? T(1) : sizeof(T) == 8 ? T(705) : T(85); }

template<class T> static void one(const char* name, T (*f)(T), int pool, int n) {
  for (int v = 0; v < 2; ++v) {
    std::string full = std::string(name) + (sizeof(T) == 8 ? "" : "f") + (v ? "v" : ""), file = "run__" + full + "__response.txt";
    claim(2, exists(file));
    if (!exists(file)) return;
    claim(3, header(file, full, sizeof(T) == 8));
    fcnResponse<T> r(file);
    claim(4, (r.getInput().size() == (size_t)n) & (r.getOutput().size() == (size_t)n));
    if (r.getInput().size() != (size_t)n || r.getOutput().size() != (size_t)n) return;
    for (int i = 0; i < n; ++i) {
      T x = r.getInput()[i];
      claim(5, (x >= lowest<T>(pool)) & (x <= highest<T>(pool)));
      claim(6, raw(r.getOutput()[i]) == raw(f(x)));
    }
  }
}
template<class T> static void two(const char* name, T (*f)(T, T), int n) {
  for (int v = 0; v < 2; ++v) {
    std::string full = std::string(name) + (sizeof(T) == 8 ? "" : "f") + (v ? "v" : ""), file = "run__" + full + "__response.txt";
    claim(2, exists(file));
    if (!exists(file)) return;
    claim(3, header(file, full, sizeof(T) == 8));
    fcnResponse2D<T> r(file);
    claim(4, (r.getInput1().size() == (size_t)n) & (r.getInput2().size() == (size_t)n) & (r.getOutput().size() == (size_t)n));
    if (r.getInput1().size() != (size_t)n || r.getInput2().size() != (size_t)n || r.getOutput().size() != (size_t)n) return;
    for (int i = 0; i < n; ++i) {
      T x = r.getInput1()[i], y = r.getInput2()[i];
      claim(5, (x >= T(-1)) & (x <= T(1)) & (y >= T(-1)) & (y <= T(1)));
      claim(6, raw(r.getOutput()[i]) == raw(f(x, y)));
    }
  }
}
static void results(int n) {
#define BOTH(NAME, F, POOL) one<double>(NAME, F, POOL, n); one<float>(NAME, F##f, POOL, n);
  BOTH("Identity", vdt::identity, SYM) BOTH("Exp", ::exp, EXP) BOTH("Log", ::log, POS) BOTH("Sin", ::sin, SYM) BOTH("Cos", ::cos, SYM) BOTH("Tan", ::tan, SYM)
  BOTH("Tanh", ::tanh, SYM) BOTH("Asin", ::asin, ONE) BOTH("Acos", ::acos, ONE) BOTH("Atan", ::atan, SYM) BOTH("Isqrt", vdt::isqrt, POS)
  BOTH("Inverse", vdt::inv, SYM) BOTH("Fast_Exp", vdt::fast_exp, EXP) BOTH("Fast_Log", vdt::fast_log, POS) BOTH("Fast_Sin", vdt::fast_sin, SYM)
  BOTH("Fast_Cos", vdt::fast_cos, SYM) BOTH("Fast_Tan", vdt::fast_tan, SYM) BOTH("Fast_Tanh", vdt::fast_tanh, SYM) BOTH("Fast_Asin", vdt::fast_asin, ONE)
  BOTH("Fast_Acos", vdt::fast_acos, ONE) BOTH("Fast_Atan", vdt::fast_atan, SYM) BOTH("Fast_Isqrt", vdt::fast_isqrt, POS) BOTH("Fast_Inv", vdt::fast_inv, SYM)
  BOTH("Fast_Apr_Isqrt", vdt::fast_approx_isqrt, POS) BOTH("Fast_Apr_Inv", vdt::fast_approx_inv, SYM)
  two<double>("Atan2", ::atan2, n); two<float>("Atan2", ::atan2f, n);
  two<double>("Fast_Atan2", vdt::fast_atan2, n); two<float>("Fast_Atan2", vdt::fast_atan2f, n);
}
static void bench(const char* nick, const char* size, int n, bool first) {
  std::vector<std::string> args;
  args.push_back("prog");
  if (first) args.push_back(std::string(nick) + "run");
  args.push_back(size + tick(n));
  if (!first) args.push_back(std::string(nick) + "run");
  call(args);
  results(n);
}
SCENARIO(run_1) { bench("-n=", "-s=", 1, true); }
SCENARIO(run_2) { bench("--nick=", "--size=", 2, false); }
SCENARIO(run_3) { bench("-n=", "--size=", 3, false); }
// without a name nothing is written
static void refused(const char* a, const char* b = 0) {
  std::vector<std::string> args;
  args.push_back("prog");
  args.push_back(a);
  if (b) args.push_back(b);
  call(args);
  claim(7, !exists("__Exp__response.txt") & !exists("run__Exp__response.txt") & !exists(" __Exp__response.txt"));
}
SCENARIO(no_name) { refused("-s=1"); }
SCENARIO(empty_name) { refused("-n=", "-s=1"); }
SCENARIO(unknown_option) { refused("-n=run", "-q=1"); }
SCENARIO(help) { refused("-h", "-n=run"); }
