// Native driver: runs one scenario of the compiled code with given values; files live in the current directory.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <map>
#include <vector>
#include <cmath>
static std::map<std::string, void (*)()>& table() { static std::map<std::string, void (*)()> t; return t; }
int enlist(const char* n, void (*f)()) { table()[n] = f; return 1; }
static std::vector<uint64_t> vals;
static size_t at;
static uint64_t next() { return at < vals.size() ? vals[at++] : (at++, 0); }
static std::string texts[2];
static std::ostringstream sink;
static std::streambuf* old;
extern "C" {
uint64_t sym64() { return next(); }
uint32_t sym32() { return (uint32_t)next(); }
uint8_t sym8() { return (uint8_t)next(); }
void assume(int ok) { if (!ok) { printf("ASSUME\n"); fflush(stdout); _Exit(0); } }
void claim(int id, int ok) { if (!ok) { fprintf(stderr, "FAIL %d\n", id); } else fprintf(stderr, "HELD %d\n", id); }
void tell(int id, uint64_t v) { fprintf(stderr, "TELL %d %llu\n", id, (unsigned long long)v); }
void capture(int on) {
  if (on) { sink.str(""); sink.clear(); old = std::cout.rdbuf(sink.rdbuf()); }
  else { std::cout.rdbuf(old); texts[0] = texts[1]; texts[1] = sink.str(); }
}
int same_capture() { return texts[0] == texts[1]; }
static uint64_t mix(uint64_t x, uint64_t y) {
  x = x * 0x9E3779B97F4A7C15ull + y * 0xC2B2AE3D27D4EB4Full + 0x165667B19E3779F9ull;
  x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
  return x;
}
} // extern "C"
// the unknown functions: the values given in the file named by VERIF_FN, some other value elsewhere
typedef std::pair<std::string, std::pair<uint64_t, uint64_t> > Call;
static std::map<Call, uint64_t>& given() {
  static std::map<Call, uint64_t> m;
  static bool read;
  if (read) return m;
  read = true;
  const char* file = getenv("VERIF_FN");
  FILE* f = file ? fopen(file, "r") : 0;
  char n[20];
  unsigned long long x, y, v;
  while (f && fscanf(f, "%19s %llu %llu %llu", n, &x, &y, &v) == 4) m[Call(n, std::make_pair(x, y))] = v;
  if (f) fclose(f);
  return m;
}
static uint64_t at_point(const char* n, uint64_t x, uint64_t y, uint64_t other) {
  std::map<Call, uint64_t>::iterator i = given().find(Call(n, std::make_pair(x, y)));
  return i == given().end() ? other : i->second;
}
extern "C" {
double any_fn(double x) { return dbl(at_point("any_fn", raw(x), 0, mix(raw(x), 1) & 0xBFEFFFFFFFFFFFFFull)); }
double any_fn2(double x, double y) { return dbl(at_point("any_fn2", raw(x), raw(y), mix(mix(raw(x), 2), raw(y)) & 0xBFEFFFFFFFFFFFFFull)); }
float any_fnf(float x) { return flt(at_point("any_fnf", raw(x), 0, mix(raw(x), 1) & 0xBF7FFFFFu)); }
float any_fn2f(float x, float y) { return flt(at_point("any_fn2f", raw(x), raw(y), mix(mix(raw(x), 2), raw(y)) & 0xBF7FFFFFu)); }
// draws of the random engine: the next values, the same for the same engine state and limits
static uint64_t drawn(int kind, uint64_t seed, uint64_t i, uint64_t lo, uint64_t hi) {
  static std::map<std::vector<uint64_t>, uint64_t> m;
  std::vector<uint64_t> k{(uint64_t)kind, seed, i, lo, hi};
  if (!m.count(k)) m[k] = next();
  return m[k];
}
uint64_t vs_draw(uint64_t s, uint64_t i) { return drawn(0, s, i, 0, 0); }
} // extern "C"
#ifdef LIMITS
template<class T> static T between(T v, T lo, T hi) { return lo <= v && v <= hi ? v : lo; }
#else
template<class T> static T between(T v, T, T) { return v; }
#endif
extern "C" {
double vs_real(uint64_t s, uint64_t i, double lo, double hi) { return between(dbl(drawn(1, s, i, raw(lo), raw(hi))), lo, hi); }
float vs_realf(uint64_t s, uint64_t i, float lo, float hi) { return between(flt(drawn(2, s, i, raw(lo), raw(hi))), lo, hi); }
}
int main(int argc, char** argv) {
  if (argc == 2 && !strcmp(argv[1], "-list")) {
    for (auto& e : table()) puts(e.first.c_str());
    return 0;
  }
  if (argc < 2 || !table().count(argv[1])) return 99;
  for (int i = 2; i < argc; ++i) vals.push_back(strtoull(argv[i], 0, 0));
  table()[argv[1]]();
  fflush(stderr);
  fprintf(stderr, "DONE\n");
  return 0;
}
