// C22: option parsing of unknown argument lists
#include "sym.h"
#include <iostream>
#include "vdtdiag_simpleCmd.h"

struct Opt { const char *s, *l; };
static const Opt opts[] = {{"-h", "--help"}, {"-a", "--al"}, {"-ab", "--alb"}, {"-x", "--y"}, {"-n", "-m"}};
static const int NOPT = sizeof(opts) / sizeof(*opts);
// more declared options, with long names
#define L40 "-abcdefghijklmnopqrstuvwxyz-0123456789-ab"
static const Opt more[] = {{"-h", "--help"}, {"-a", "--al"}, {"-b", "--" L40}, {"-c", "--" L40 L40 L40 L40}, {"-d", "--del"}, {"-e", "--ech"}, {"-f", "--fox"},
                           {"-g", "--gol"}, {"-i", "--ind"}, {"-j", "--jul"}, {"-k", "--kil"}, {"-l", "--lim"}, {"-o", "--osc"}};
static const int NMORE = sizeof(more) / sizeof(*more);

struct Arg { char t[340]; int n; };
static void unknown(Arg& a, int n) {
  a.n = n;
  for (int i = 0; i < n; ++i) { a.t[i] = (char)sym8(); assume(a.t[i] != 0); }
  a.t[n] = 0;
}
// unknown text after a fixed beginning
static void begun(Arg& a, const char* s, int n) {
  int k = 0;
  for (; s[k]; ++k) a.t[k] = s[k];
  for (int i = 0; i < n; ++i, ++k) { a.t[k] = (char)sym8(); assume(a.t[k] != 0); }
  a.t[k] = 0;
  a.n = k;
}
static int len(const char* s) { int n = 0; while (s[n]) ++n; return n; }

// what the command line means, without branching on the text: position of the first '=' (or the length) ...
static int stem(const Arg& a) {
  int p = a.n;
  for (int i = a.n; i-- > 0;) p = a.t[i] == '=' ? i : p;
  return p;
}
// ... and whether the text before it is the name s
static int names(const Arg& a, int p, const char* s) {
  int n = len(s), r = p == n;
  for (int i = 0; i < n; ++i) r &= i < a.n && a.t[i] == s[i];
  return r;
}
static int rest(const Arg& a, int p, const std::string& v) {     // v is the text after position p
  int r = (int)v.size() == (p < a.n ? a.n - p - 1 : 0);
  for (size_t i = 0; i < v.size(); ++i) {
    int e = 0;
    for (int j = 0; j < a.n; ++j) e |= (j == p + 1 + (int)i) & (a.t[j] == v[i]);
    r &= e;
  }
  return r;
}
template<int NOPT> static void check(Arg* a, int n, const Opt (&opts)[NOPT]) {
  char prog[] = "prog=-a";
  char* argv[8] = {prog};
  for (int i = 0; i < n; ++i) argv[i + 1] = a[i].t;
  argv[n + 1] = 0;
  CmdOptions c;
  for (int j = 1; j < NOPT; ++j) c.addOption(opts[j].s, opts[j].l, "help");
  int r = c.parseCmd(n + 1, argv);
  int p[8], given[NOPT], good = 1;
  for (int j = 0; j < NOPT; ++j) given[j] = 0;
  for (int i = 0; i < n; ++i) {
    p[i] = stem(a[i]);
    int known = 0;
    for (int j = 0; j < NOPT; ++j) {
      int m = names(a[i], p[i], opts[j].s) | names(a[i], p[i], opts[j].l);
      known |= m;
      given[j] += m;
    }
    good &= known;
  }
  for (int j = 0; j < NOPT; ++j) good &= given[j] <= 1;
  claim(1, (r != 0) == good);
  tell(1, r);
  if (!r) return;
  for (int j = 0; j < NOPT; ++j) {
    bool set = c.isSet(opts[j].s);
    claim(2, set == (given[j] != 0));
    tell(2, set);
    std::string v = c.getArgument(opts[j].s);
    int e = given[j] == 0 && v.size() == 0;
    for (int i = 0; i < n; ++i) e |= (names(a[i], p[i], opts[j].s) | names(a[i], p[i], opts[j].l)) && rest(a[i], p[i], v);
    claim(3, e);
    tell(3, v.size());
  }
  claim(4, !c.isSet("-q") && c.getArgument("-q").size() == 0);
}
static void check(Arg* a, int n) { check(a, n, opts); }
static void lengths(int n, int l1, int l2 = 0, int l3 = 0) {
  Arg a[3];
  int l[3] = {l1, l2, l3};
  for (int i = 0; i < n; ++i) unknown(a[i], l[i]);
  check(a, n);
}
SCENARIO(none) { lengths(0, 0); }
#define ONE(A) SCENARIO(one_##A) { lengths(1, A); }
#define TWO(A, B) SCENARIO(two_##A##_##B) { lengths(2, A, B); }
#define THREE(A, B, C) SCENARIO(three_##A##_##B##_##C) { lengths(3, A, B, C); }
ONE(0) ONE(1) ONE(2) ONE(3) ONE(4) ONE(5) ONE(6) ONE(7)
#define TWOS(A) TWO(A, 2) TWO(A, 3) TWO(A, 4) TWO(A, 5) TWO(A, 6)
TWOS(1) TWOS(2) TWOS(3) TWOS(4) TWOS(5) TWOS(6)
THREE(2, 2, 2) THREE(2, 3, 4) THREE(4, 2, 3) THREE(3, 5, 2)
#define BEGUN(NAME, S, N) SCENARIO(NAME) { Arg a[1]; begun(a[0], S, N); check(a, 1); }
BEGUN(after_long, "--help", 3) BEGUN(after_eq, "--alb=", 3) BEGUN(after_eq2, "-x=", 5)
// many options; long names and arguments around the unknown bytes
#define TEXT40 "0123456789 value/of-an.option_TEXT=40-abc"
static void many(const char* s, int n, const char* s2 = 0, int n2 = 0) {
  Arg a[2];
  begun(a[0], s, n);
  if (s2) begun(a[1], s2, n2);
  check(a, s2 ? 2 : 1, more);
}
SCENARIO(many_short) { many("-", 1); }
SCENARIO(many_short_eq) { many("-", 1, "-", 2); }
SCENARIO(many_long) { many("--", 3); }
SCENARIO(many_long_last) { many("--os", 3, "-", 1); }
SCENARIO(long_argument) { many("-o=" TEXT40, 2); }
SCENARIO(long_argument2) { many("--osc=" TEXT40 TEXT40 TEXT40 TEXT40 TEXT40 TEXT40 TEXT40, 1, "-", 1); }
SCENARIO(long_name) { many("--" L40, 2); }
SCENARIO(long_name2) { many("--" L40 L40 L40 L40, 3); }
SCENARIO(long_unknown) { many("--" L40 L40 L40, 2); }
