#include "sym.h"
#include "vdtdiag_helper.h"
#include <time.h>

// C20: the clock is this function
static struct timespec now;
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept { *t = now; return 0; }

static uint64_t advance(uint64_t most) {
  // a later (or equal) reading, at most so many seconds later
  struct timespec n;
  n.tv_sec = sym64();
  n.tv_nsec = sym64();
  assume((n.tv_nsec >= 0) & (n.tv_nsec < 1000000000));
  assume((n.tv_sec >= now.tv_sec) & ((uint64_t)n.tv_sec - (uint64_t)now.tv_sec <= most));
  assume((n.tv_sec > now.tv_sec) | (n.tv_nsec >= now.tv_nsec));
  uint64_t d = ((uint64_t)n.tv_sec - (uint64_t)now.tv_sec) * 1000000000u + (uint64_t)n.tv_nsec - (uint64_t)now.tv_nsec;
  now = n;
  return d;
}
static void origin() {
  now.tv_sec = sym64();
  now.tv_nsec = sym64();
  assume((now.tv_sec >= 0) & (now.tv_sec < (1l << 40)) & (now.tv_nsec >= 0) & (now.tv_nsec < 1000000000));
}
static const uint64_t DAYS = 200ull * 365 * 86400;
SCENARIO(timer_once) {
  origin();
  vdth::timer t;
  t.start();
  uint64_t d = advance(DAYS);
  t.stop();
  claim(1, t.get_elapsed_time() == d);
  claim(2, t.get_elapsed_time() == d);
}
SCENARIO(timer_again) {
  origin();
  vdth::timer t;
  t.start();
  uint64_t d = advance(DAYS);
  t.stop();
  claim(1, t.get_elapsed_time() == d);
  advance(DAYS);
  t.start();
  d = advance(DAYS);
  t.stop();
  claim(3, t.get_elapsed_time() == d);
  // a later stop measures from the same start
  d += advance(DAYS);
  t.stop();
  claim(4, t.get_elapsed_time() == d);
}
SCENARIO(timer_two) {
  origin();
  vdth::timer t, u;
  t.start();
  uint64_t a = advance(DAYS);
  u.start();
  uint64_t b = advance(DAYS);
  t.stop();
  uint64_t c = advance(DAYS);
  u.stop();
  claim(5, t.get_elapsed_time() == a + b);
  claim(6, u.get_elapsed_time() == b + c);
}
