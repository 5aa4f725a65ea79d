// C31: help texts and messages of the option parser
#include "sym.h"
#include <iostream>
#include "vdtdiag_simpleCmd.h"

struct Opt { const char *s, *l, *h; };
static const Opt opts[] = {{"-a", "--al", "first text"}, {"-ab", "--alb", "second, with two words"}, {"-x", "--a", ""}, {"-n", "-m", "fourth\n   of two lines"}, {"-o", "--out", "last = text"}};
static const int NOPT = sizeof(opts) / sizeof(*opts);
static void declare(CmdOptions& c, int n) { for (int j = 0; j < n; ++j) c.addOption(opts[j].s, opts[j].l, opts[j].h); }
static void entry(const Opt& o) { std::cout << o.s << "  " << o.l << "\n   " << o.h << "\n"; }
// text of the help option itself, which every parser declares first
static std::string own() {
  return "Prints help (no full functionality). All parametrized options must be in the form with '=' i.e. -o=parameter or --option=parameter, otherwise parameters will not be "
         "processed. Also, manual commandspecific help (like -o --hepl) does not work - works only in case of errorneous option.";
}
static void all(int n) {
  std::cout << "Help:\n" << "-h  --help\n   " << own() << "\n";
  for (int j = 0; j < n; ++j) entry(opts[j]);
}
// the whole help, on demand and by option
static void whole(int n, const char* by) {
  CmdOptions c;
  declare(c, n);
  char prog[] = "prog", a[40];
  int k = 0;
  for (; by && by[k]; ++k) a[k] = by[k];
  a[k] = 0;
  char* argv[3] = {prog, a, 0};
  capture(1);
  int r = 1;
  if (by) r = c.parseCmd(2, argv); else c.printHelp();
  capture(0);
  capture(1);
  all(n);
  capture(0);
  claim(1, same_capture());
  claim(2, r == 1);
}
SCENARIO(whole_0) { whole(0, 0); whole(0, "-h"); }
SCENARIO(whole_1) { whole(1, 0); whole(1, "--help"); }
SCENARIO(whole_5) { whole(NOPT, 0); whole(NOPT, "-h"); whole(NOPT, "-h=x"); whole(NOPT, "--help="); }
// help for one option named by n unknown bytes
static void single(int n) {
  CmdOptions c;
  declare(c, NOPT);
  std::string t;
  char b[8];
  for (int i = 0; i < n; ++i) { b[i] = (char)sym8(); assume(b[i] != 0); }
  b[n] = 0;
  t = b;
  capture(1);
  c.printHelp(t);
  capture(0);
  capture(1);
  bool found = false;
  if (t == "-h" || t == "--help") { std::cout << "Option-specific help:\n-h  --help\n   " << own() << "\n"; found = true; }
  for (int j = 0; j < NOPT; ++j)
    if (t == opts[j].s || t == opts[j].l) { std::cout << "Option-specific help:\n"; entry(opts[j]); found = true; }
  if (!found) std::cout << "Unknown option " << t << "\n";
  capture(0);
  claim(3, same_capture());
}
SCENARIO(single_1) { single(1); }
SCENARIO(single_2) { single(2); }
SCENARIO(single_3) { single(3); }
SCENARIO(single_4) { single(4); }
SCENARIO(single_5) { single(5); }
SCENARIO(single_6) { single(6); }
// messages of a command line that is refused; nothing is printed for one that is accepted
static void message(const char* first, int n) {
  CmdOptions c;
  declare(c, NOPT);
  char prog[] = "prog", a[20], b[8];
  int k = 0;
  for (; first[k]; ++k) a[k] = first[k];
  a[k] = 0;
  for (int i = 0; i < n; ++i) { b[i] = (char)sym8(); assume((b[i] != 0) & (b[i] != '=')); }
  b[n] = 0;
  std::string t = b;
  assume(!(t == "-h"));
  char* argv[4] = {prog, a, b, 0};
  capture(1);
  int r = c.parseCmd(3, argv);
  capture(0);
  int hit = -1;
  for (int j = 0; j < NOPT; ++j) if (t == opts[j].s || t == opts[j].l) hit = j;
  capture(1);
  if (hit < 0) std::cout << "Unknown option " << t << "\n";
  else if (std::string(opts[hit].s) == a) std::cout << "Option " << opts[hit].s << "specified multiple times, which is forbidden.\n";
  capture(0);
  claim(4, same_capture());
  claim(5, (r == 1) == (hit >= 0 && std::string(opts[hit].s) != a));
}
SCENARIO(message_1) { message("-a", 1); }
SCENARIO(message_2) { message("-a", 2); message("-ab", 2); }
SCENARIO(message_3) { message("-ab", 3); message("-x", 3); }
SCENARIO(message_4) { message("-a", 4); }
SCENARIO(message_5) { message("-o", 5); }
