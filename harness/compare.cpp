// C28: the comparison program, from its command line to its files
#include "sym.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <string>
#include <vector>
#include "vdtMath_signatures.cc"
#define main program
#include "progs/vdtArithmComparison.cpp"
#undef main

template<class T> static std::vector<T> list(int n) {
  std::vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(any(T()));
  return v;
}
static void plain() { std::cout.flags(std::ios_base::dec | std::ios_base::skipws); std::cout.precision(6); }
static bool exists(const std::string& n) { std::ifstream f(n); return f.is_open(); }
static void show(const std::string& n) { std::ifstream f(n); std::cout << f.rdbuf(); }

// one pair of response files
struct Pair {
  virtual void write() = 0;
  virtual void table() = 0;           // its line of the table
  virtual void comparison() = 0;      // its comparison file, as "want"
  virtual ~Pair() {}
  std::string ref, test, name, out;
};
static std::string nick(const std::string& f) { return f.substr(0, f.find("__")); }
// responses with the given values: functions of the position in the list
template<class T> struct One : Pair {
  std::vector<T> in, a, b;
  std::string fr, ft;
  One(int n, const char* r, const char* t, const char* fname_r, const char* fname_t, const char* plainname) : fr(fname_r), ft(fname_t) {
    ref = r; test = t; name = plainname;
    in = list<T>(n); a = list<T>(n); b = list<T>(n);
  }
  void save(const std::string& file, const std::string& f, const std::vector<T>& v) {
    size_t k = 0;
    std::function<T(T)> g = [&](T) { return v[k++]; };
    fcnResponse<T> x(f, in, g);
    x.writeFile(file);
  }
  void write() { save(ref, fr, a); save(test, ft, b); }
  void table() { fcnComparison<T> c(name + " " + nick(ref) + " VS " + nick(test), in, a, b); c.printStats(true); }
  void comparison() { fcnComparison<T> c(name + " " + nick(ref) + " VS " + nick(test), in, a, b); c.writeFile("want"); }
};
template<class T> struct Two : Pair {
  std::vector<T> in, in2, a, b;
  std::string fr, ft;
  Two(int n, const char* r, const char* t, const char* fname_r, const char* fname_t, const char* plainname) : fr(fname_r), ft(fname_t) {
    ref = r; test = t; name = plainname;
    in = list<T>(n); in2 = list<T>(n); a = list<T>(n); b = list<T>(n);
  }
  void save(const std::string& file, const std::string& f, const std::vector<T>& v) {
    size_t k = 0;
    std::function<T(T, T)> g = [&](T, T) { return v[k++]; };
    fcnResponse2D<T> x(f, in, in2, g);
    x.writeFile(file);
  }
  void write() { save(ref, fr, a); save(test, ft, b); }
  void table() { fcnComparison2D<T> c(name + " " + nick(ref) + " VS " + nick(test), in, in2, a, b); c.printStats(true); }
  void comparison() { fcnComparison2D<T> c(name + " " + nick(ref) + " VS " + nick(test), in, in2, a, b); c.writeFile("want"); }
};
static int call(std::vector<std::string> args) {
  char text[8][200];
  char* argv[10];
  for (size_t i = 0; i < args.size(); ++i) {
    for (size_t j = 0; j <= args[i].size(); ++j) text[i][j] = args[i].c_str()[j];
    argv[i] = text[i];
  }
  argv[args.size()] = 0;
  return program((int)args.size(), argv);
}
static void heading() {
  std::cout << std::setw(30) << std::left << "function name" << std::setw(5) << std::right << "max" << std::setw(5) << "min" << std::setw(6) << "mean"
            << std::setw(6) << "RMS\n";
}
// runs the program on n pairs, written with the given option texts; 'missing' are left unwritten (bit 2i: reference, 2i+1: tested)
static void compare(Pair** p, int n, const char* o1, const char* o2, const char* o3, int missing = 0) {
  std::string r = o2, t = o3;
  for (int i = 0; i < n; ++i) {
    p[i]->write();
    if (i) { r += ","; t += ","; }
    r += (missing >> (2 * i) & 1) ? "absent1" : p[i]->ref;
    t += (missing >> (2 * i + 1) & 1) ? "absent2" : p[i]->test;
  }
  std::vector<std::string> args;
  args.push_back("prog");
  args.push_back(t);
  args.push_back(o1);
  args.push_back(r);
  plain();
  capture(1);
  int e = call(args);
  capture(0);
  claim(1, e == 0);
  plain();
  capture(1);
  heading();
  for (int i = 0; i < n; ++i)
    if (missing >> (2 * i) & 1) std::cout << "Cannot find the absent1 file, skipping.\n";
    else if (missing >> (2 * i + 1) & 1) std::cout << "Cannot find the absent2 file, skipping.\n";
    else p[i]->table();
  capture(0);
  claim(2, same_capture());
  for (int i = 0; i < n; ++i) {
    std::string out = std::string("comparison__nk__") + p[i]->name + ".txt";
    if (missing >> (2 * i) & 3) { claim(3, !exists(out)); continue; }
    claim(3, exists(out));
    p[i]->comparison();
    capture(1);
    show(out);
    capture(0);
    capture(1);
    show("want");
    capture(0);
    claim(4, same_capture());
  }
}
#define PAIR(KIND, T, N, F) KIND<T> x(N, "base__" F "__response.txt", "new_run__Fast_" F "__response.txt", F, "Fast_" F, F); Pair* p[1] = {&x};
#define ALL(N) \
SCENARIO(d1_##N) { PAIR(One, double, N, "Exp") compare(p, 1, "-n=nk", "-R=", "-T="); } \
SCENARIO(f1_##N) { PAIR(One, float, N, "Sinfv") compare(p, 1, "--nick=nk", "--reference=", "--test="); } \
SCENARIO(d2_##N) { PAIR(Two, double, N, "Atan2") compare(p, 1, "-n=nk", "-R=", "-T="); } \
SCENARIO(f2_##N) { PAIR(Two, float, N, "Atan2fv") compare(p, 1, "-n=nk", "-R=", "-T="); }
ALL(1) ALL(2) ALL(3)
// a reference that is itself a fast function
SCENARIO(prefix) {
  One<double> x(2, "a__Fast_Log__response.txt", "b__Log__response.txt", "Fast_Log", "Log", "Log");
  Pair* p[1] = {&x};
  compare(p, 1, "-n=nk", "-R=", "-T=");
}
SCENARIO(prefix_other) {
  One<float> x(2, "a__VC_Expf__response.txt", "b__Fast_Expf__response.txt", "VC_Expf", "Fast_Expf", "Expf");
  Pair* p[1] = {&x};
  compare(p, 1, "-n=nk", "-R=", "-T=");
}
// several pairs, of every kind
static void several(int missing, int first = 0) {
  One<double> a(1, "r__Exp__response.txt", "t__Fast_Exp__response.txt", "Exp", "Fast_Exp", "Exp");
  Two<float> b(2, "r__Atan2f__response.txt", "t__Fast_Atan2f__response.txt", "Atan2f", "Fast_Atan2f", "Atan2f");
  One<float> c(1, "r__Tanhf__response.txt", "t__Fast_Tanhf__response.txt", "Tanhf", "Fast_Tanhf", "Tanhf");
  Two<double> d(1, "r__Atan2v__response.txt", "t__Fast_Atan2v__response.txt", "Atan2v", "Fast_Atan2v", "Atan2v");
  Pair* q[4] = {&a, &b, &c, &d};
  Pair* p[4];
  for (int i = 0; i < 4; ++i) p[i] = q[(i + first) & 3];
  compare(p, 4, "-n=nk", "-R=", "-T=", missing);
}
SCENARIO(four) { several(0); }
SCENARIO(four_from_second) { several(0, 1); }
SCENARIO(four_from_third) { several(0, 2); }
SCENARIO(four_from_fourth) { several(0, 3); }
SCENARIO(first_missing) { several(1); }
SCENARIO(second_missing) { several(2 << 2); }
SCENARIO(last_missing) { several(3 << 6); }
// command lines that leave something out, or with lists of different lengths
static void refused(const char* a, const char* b = 0, const char* c = 0) {
  One<double> x(1, "r__Exp__response.txt", "t__Exp__response.txt", "Exp", "Exp", "Exp");
  x.write();
  std::vector<std::string> args;
  args.push_back("prog");
  args.push_back(a);
  if (b) args.push_back(b);
  if (c) args.push_back(c);
  claim(5, call(args) != 0);
  claim(6, !exists("comparison__nk__Exp.txt") & !exists("comparison____Exp.txt"));
}
#define R1 "r__Exp__response.txt"
#define T1 "t__Exp__response.txt"
SCENARIO(no_name) { refused("-R=" R1, "-T=" T1); }
SCENARIO(empty_name) { refused("-n=", "-R=" R1, "-T=" T1); }
SCENARIO(no_reference) { refused("-n=nk", "-T=" T1); }
SCENARIO(no_test) { refused("-n=nk", "-R=" R1); }
SCENARIO(empty_reference) { refused("-n=nk", "-R=", "-T=" T1); }
SCENARIO(more_references) { refused("-n=nk", "-R=" R1 "," R1, "-T=" T1); }
SCENARIO(more_tests) { refused("-n=nk", "-T=" T1 "," T1, "-R=" R1); }
SCENARIO(unknown_option) { refused("-n=nk", "-q", "-R=" R1); }
// unknown bytes in the list of files
static void bytes(int n) {
  One<double> x(1, "p", "q", "Exp", "Exp", "Exp"), y(1, "pp", "qq", "Log", "Log", "Log");
  x.write();
  y.write();
  char t[8];
  for (int i = 0; i < n; ++i) { t[i] = (char)sym8(); assume((t[i] == 'p') | (t[i] == ',') | (t[i] == 'q')); }
  t[n] = 0;
  // the parts between the commas; nothing after the last one
  std::vector<std::string> part;
  std::string s;
  for (int i = 0; i < n; ++i) if (t[i] == ',') { part.push_back(s); s = ""; } else s += t[i];
  if (s.size()) part.push_back(s);
  std::vector<std::string> args;
  args.push_back("prog");
  args.push_back("-n=nk");
  args.push_back(std::string("-R=") + t);
  args.push_back("-T=q,qq");
  capture(1);
  int e = call(args);
  capture(0);
  claim(7, (e == 0) == (part.size() == 2));
  if (part.size() != 2 || e != 0) return;
  bool exp = part[0] == "p" || part[0] == "q" || part[1] == "p" || part[1] == "q";
  bool log = part[0] == "pp" || part[0] == "qq" || part[1] == "pp" || part[1] == "qq";
  claim(8, exists("comparison__nk__Exp.txt") == exp);
  claim(8, exists("comparison__nk__Log.txt") == log);
}
SCENARIO(bytes_1) { bytes(1); }
SCENARIO(bytes_2) { bytes(2); }
SCENARIO(bytes_3) { bytes(3); }
SCENARIO(bytes_4) { bytes(4); }
