// Interface between the scenarios and whoever runs them: the symbolic executor or the native driver.
#ifndef SYM_H
#define SYM_H
#include <cstdint>
#include <cstring>
#include <string>
extern "C" {
uint64_t sym64();                      // an unknown value
uint32_t sym32();
uint8_t sym8();
void assume(int ok);                   // only executions with ok matter
void claim(int id, int ok);            // must hold
void tell(int id, uint64_t v);         // observation compared between model and compiled code
void capture(int on);                  // start (1) or stop (0) collecting what goes to standard output
int same_capture();                    // the last two collected outputs are the same text
double any_fn(double x);               // unknown functions
double any_fn2(double x, double y);
float any_fnf(float x);
float any_fn2f(float x, float y);
}
static inline double dbl(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline float flt(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
static inline uint64_t raw(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static inline uint64_t raw(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
static inline double any(double) { return dbl(sym64()); }
static inline float any(float) { return flt(sym32()); }
static inline double fn(double x) { return any_fn(x); }
static inline float fn(float x) { return any_fnf(x); }
static inline double fn(double x, double y) { return any_fn2(x, y); }
static inline float fn(float x, float y) { return any_fn2f(x, y); }
#ifdef NATIVE
#define SCENARIO(NAME) static void NAME(); static int reg_##NAME = enlist(#NAME, NAME); static void NAME()
int enlist(const char* name, void (*f)());
#else
#define SCENARIO(NAME) extern "C" void NAME()
#endif
#endif
