// Small model of the C++ streams for symbolic execution: text is kept outside, as a sequence of
// characters and formatted numbers, by the vs_* functions (lib/diag.py).
#ifndef VSTREAM_H
#define VSTREAM_H
#include <iosfwd>
#include <string>
#include <cstdint>
#include <cstring>

extern "C" {
int vs_open(const char* name, unsigned long n, int mode);
int vs_new();
void vs_put(int h, const char* s, unsigned long n);
void vs_num(int h, uint64_t v, int sgn, int nbits, int flags, long width, int fill);
void vs_fp(int h, double v, int flags, long prec, long width, int fill);
void vs_fpf(int h, float v, int flags, long prec, long width, int fill);
int vs_end(int h);
int vs_skipws(int h);
int vs_getc(int h);
int vs_peekc(int h);
int vs_rnum(int h, int flags, int nbits, int sgn, uint64_t* out);
int vs_rfp(int h, double* out);
int vs_rfpf(int h, float* out);
int vs_line(int h, int delim);
int vs_word(int h, long width);
int vs_str(int h);
unsigned long vs_len();
void vs_copy(char* to);
long vs_copybuf(int to, int from);
void vs_flush(int h);
void vs_close(int h);
}

namespace std {

class ios_base {
public:
  typedef int fmtflags;
  typedef int iostate;
  typedef int openmode;
  typedef int seekdir;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256,
    showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384,
    adjustfield = 16 | 32 | 128, basefield = 2 | 8 | 64, floatfield = 4 | 256;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode in = 1, out = 2, trunc = 4, app = 8, ate = 16, binary = 32;
  class Init {};
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { fl_ &= ~f; }
  streamsize precision() const { return prec_; }
  streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
  streamsize width() const { return width_; }
  streamsize width(streamsize w) { streamsize o = width_; width_ = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
protected:
  ios_base() : fl_(skipws | dec), prec_(6), width_(0) {}
  fmtflags fl_;
  streamsize prec_, width_;
};

template<typename C, typename T> class basic_streambuf {
public:
  int h_;
  explicit basic_streambuf(int h = -1) : h_(h) {}
};
inline namespace __cxx11 {
template<typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
  string str() const;
};
}
template<typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {};

template<typename C, typename T> class basic_ios : public ios_base {
public:
  typedef C char_type;
  typedef T traits_type;
  typedef int int_type;
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; }
  void clear(iostate s = goodbit) { st_ = s; }
  void setstate(iostate s) { st_ |= s; }
  bool good() const { return st_ == 0; }
  bool eof() const { return (st_ & eofbit) != 0; }
  bool fail() const { return (st_ & (badbit | failbit)) != 0; }
  bool bad() const { return (st_ & badbit) != 0; }
  iostate exceptions() const { return 0; }
  C fill() const { return fill_; }
  C fill(C c) { C o = fill_; fill_ = c; return o; }
  C widen(char c) const { return c; }
  char narrow(C c, char) const { return c; }
  basic_streambuf<C, T>* rdbuf() const { return const_cast<basic_streambuf<C, T>*>(&sb_); }
  basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { static basic_streambuf<C, T> o; o = sb_; if (b) sb_ = *b; return &o; }
  basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; prec_ = o.prec_; width_ = o.width_; fill_ = o.fill_; return *this; }
  int handle() const { return sb_.h_; }
protected:
  basic_ios() : sb_(-1), st_(0), fill_(' ') {}
  basic_streambuf<C, T> sb_;
  iostate st_;
  C fill_;
};

template<typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
  typedef basic_ostream Self;
  Self& num(uint64_t v, int sgn, int nb) {
    if (this->good()) vs_num(this->handle(), v, sgn, nb, this->fl_, this->width_, this->fill_);
    else this->setstate(ios_base::badbit);
    this->width_ = 0;
    return *this;
  }
public:
  explicit basic_ostream(int h) { this->sb_.h_ = h; }
  explicit basic_ostream(basic_streambuf<C, T>* b) { this->sb_.h_ = b ? b->h_ : -1; }
  class sentry {
  public:
    explicit sentry(basic_ostream&) {}
    explicit operator bool() const { return true; }
  };
  Self& text(const char* s, unsigned long n) {
    if (!this->good()) { this->setstate(ios_base::badbit); return *this; }
    unsigned long w = this->width_ > 0 ? this->width_ : 0, pad = w > n ? w - n : 0;
    bool left = (this->fl_ & ios_base::adjustfield) == ios_base::left;
    if (!left) padding(pad);
    vs_put(this->handle(), s, n);
    if (left) padding(pad);
    this->width_ = 0;
    return *this;
  }
  void padding(unsigned long n) { char c = this->fill_; while (n--) vs_put(this->handle(), &c, 1); }
  Self& operator<<(unsigned short v) { return num(v, 0, 16); }
  Self& operator<<(short v) { return num((uint64_t)(int64_t)v, 1, 16); }
  Self& operator<<(unsigned int v) { return num(v, 0, 32); }
  Self& operator<<(int v) { return num((uint64_t)(int64_t)v, 1, 32); }
  Self& operator<<(unsigned long v) { return num(v, 0, 64); }
  Self& operator<<(long v) { return num((uint64_t)v, 1, 64); }
  Self& operator<<(unsigned long long v) { return num(v, 0, 64); }
  Self& operator<<(long long v) { return num((uint64_t)v, 1, 64); }
  Self& operator<<(bool v) {
    if (this->fl_ & ios_base::boolalpha) return v ? text("true", 4) : text("false", 5);
    return num(v, 1, 32);
  }
  Self& operator<<(double v) {
    if (this->good()) vs_fp(this->handle(), v, this->fl_, this->prec_, this->width_, this->fill_);
    else this->setstate(ios_base::badbit);
    this->width_ = 0;
    return *this;
  }
  Self& operator<<(float v) {
    if (this->good()) vs_fpf(this->handle(), v, this->fl_, this->prec_, this->width_, this->fill_);
    else this->setstate(ios_base::badbit);
    this->width_ = 0;
    return *this;
  }
  Self& operator<<(Self& (*f)(Self&)) { return f(*this); }
  Self& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
  Self& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  Self& operator<<(basic_streambuf<C, T>* b) {
    if (!b) { this->setstate(ios_base::badbit); return *this; }
    if (!this->good()) { this->setstate(ios_base::badbit); return *this; }
    if (vs_copybuf(this->handle(), b->h_) == 0) this->setstate(ios_base::failbit);
    return *this;
  }
  Self& put(char c) { vs_put(this->handle(), &c, 1); return *this; }
  Self& write(const char* s, streamsize n) { vs_put(this->handle(), s, n); return *this; }
  Self& flush() { if (this->handle() >= 0) vs_flush(this->handle()); return *this; }
protected:
  basic_ostream() {}
};

template<> inline basic_ostream<char>& __ostream_insert(basic_ostream<char>& o, const char* s, streamsize n) { return o.text(s, n); }
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) {
  if (!s) { o.setstate(ios_base::badbit); return o; }
  return o.text(s, strlen(s));
}
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.text(&c, 1); }
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { return o << (char)c; }
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return o << (char)c; }
template<typename C, typename T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n').flush(); }
template<typename C, typename T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }
template<typename C, typename T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }

template<typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
  typedef basic_istream Self;
  streamsize gc_ = 0;
public:
  // formatted input may start: good, and not at the end after white space
  bool ready(bool ws = true) {
    if (!this->good()) { this->setstate(ios_base::failbit); return false; }
    if (ws && (this->fl_ & ios_base::skipws) && vs_skipws(this->handle())) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
    return true;
  }
  class sentry {
    bool ok_;
  public:
    explicit sentry(basic_istream& i, bool noskip = false) : ok_(i.ready(!noskip)) {}
    explicit operator bool() const { return ok_; }
  };
private:
  template<typename V> Self& num(V& v, int nb, int sgn) {
    if (ready()) {
      uint64_t r = 0;
      this->setstate(vs_rnum(this->handle(), this->fl_, nb, sgn, &r));
      v = (V)r;
    }
    return *this;
  }
public:
  explicit basic_istream(int h) { this->sb_.h_ = h; }
  explicit basic_istream(basic_streambuf<C, T>* b) { this->sb_.h_ = b ? b->h_ : -1; }
  Self& operator>>(unsigned short& v) { return num(v, 16, 0); }
  Self& operator>>(short& v) { return num(v, 16, 1); }
  Self& operator>>(unsigned int& v) { return num(v, 32, 0); }
  Self& operator>>(int& v) { return num(v, 32, 1); }
  Self& operator>>(unsigned long& v) { return num(v, 64, 0); }
  Self& operator>>(long& v) { return num(v, 64, 1); }
  Self& operator>>(unsigned long long& v) { return num(v, 64, 0); }
  Self& operator>>(long long& v) { return num(v, 64, 1); }
  Self& operator>>(double& v) { if (ready()) this->setstate(vs_rfp(this->handle(), &v)); return *this; }
  Self& operator>>(float& v) { if (ready()) this->setstate(vs_rfpf(this->handle(), &v)); return *this; }
  Self& operator>>(Self& (*f)(Self&)) { return f(*this); }
  Self& operator>>(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
  Self& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  int get() {
    gc_ = 0;
    if (!ready(false)) return -1;
    int c = vs_getc(this->handle());
    if (c < 0) this->setstate(ios_base::eofbit | ios_base::failbit); else gc_ = 1;
    return c;
  }
  Self& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  int peek() {
    if (!this->good()) return -1;
    int c = vs_peekc(this->handle());
    if (c < 0) this->setstate(ios_base::eofbit);
    return c;
  }
  streamsize gcount() const { return gc_; }
  Self& ignore(streamsize n = 1, int delim = -1) {
    if (!ready(false)) return *this;
    for (gc_ = 0; gc_ < n; ++gc_) {
      int c = vs_getc(this->handle());
      if (c < 0) { this->setstate(ios_base::eofbit); break; }
      if (c == delim) { ++gc_; break; }
    }
    return *this;
  }
protected:
  basic_istream() {}
};
template<typename T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) {
  if (i.ready()) {
    int x = vs_getc(i.handle());
    if (x < 0) i.setstate(ios_base::eofbit | ios_base::failbit); else c = (char)x;
  }
  return i;
}
template<typename C, typename T> inline basic_istream<C, T>& ws(basic_istream<C, T>& i) {
  if (i.good() && vs_skipws(i.handle())) i.setstate(ios_base::eofbit);
  return i;
}
inline void vs_take(string& s) {
  unsigned long n = vs_len();
  s.assign(n, ' ');
  if (n) vs_copy(&s[0]);
}
template<> inline basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char d) {
  if (!i.ready(false)) return i;
  i.setstate(vs_line(i.handle(), (unsigned char)d));
  vs_take(s);
  return i;
}
template<> inline basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& s) {
  if (!i.ready()) return i;
  i.setstate(vs_word(i.handle(), i.width()));
  i.width(0);
  vs_take(s);
  return i;
}

template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
protected:
  basic_iostream() {}
};

inline namespace __cxx11 {
// string streams
template<typename C, typename T, typename A> inline string basic_stringbuf<C, T, A>::str() const { vs_str(this->h_); string s; vs_take(s); return s; }
#define VS_STRING(NAME, BASE) \
template<typename C, typename T, typename A> class NAME : public BASE<C, T> { \
public: \
  NAME() { this->sb_.h_ = vs_new(); } \
  explicit NAME(ios_base::openmode) { this->sb_.h_ = vs_new(); } \
  explicit NAME(const string& s, ios_base::openmode = 0) { this->sb_.h_ = vs_new(); vs_put(this->handle(), s.data(), s.size()); } \
  string str() const { vs_str(this->handle()); string s; vs_take(s); return s; } \
  void str(const string& s) { this->sb_.h_ = vs_new(); vs_put(this->handle(), s.data(), s.size()); } \
};
VS_STRING(basic_ostringstream, basic_ostream)
VS_STRING(basic_istringstream, basic_istream)
VS_STRING(basic_stringstream, basic_iostream)
}

// file streams
#define VS_FILE(NAME, BASE, MODE) \
template<typename C, typename T> class NAME : public BASE<C, T> { \
public: \
  NAME() {} \
  explicit NAME(const char* n, ios_base::openmode m = MODE) { open(n, m); } \
  explicit NAME(const string& n, ios_base::openmode m = MODE) { open(n, m); } \
  ~NAME() { if (this->handle() >= 0) vs_close(this->handle()); } \
  void open(const char* n, ios_base::openmode m = MODE) { open_(n, strlen(n), m | (MODE == (ios_base::in | ios_base::out) ? 0 : MODE)); } \
  void open(const string& n, ios_base::openmode m = MODE) { open_(n.data(), n.size(), m | (MODE == (ios_base::in | ios_base::out) ? 0 : MODE)); } \
  bool is_open() const { return this->handle() >= 0; } \
  void close() { if (this->handle() < 0) this->setstate(ios_base::failbit); else vs_close(this->handle()); this->sb_.h_ = -1; } \
private: \
  void open_(const char* n, unsigned long l, int m) { \
    this->sb_.h_ = vs_open(n, l, m); \
    if (this->handle() < 0) this->setstate(ios_base::failbit); else this->clear(); \
  } \
};
VS_FILE(basic_ofstream, basic_ostream, ios_base::out)
VS_FILE(basic_ifstream, basic_istream, ios_base::in)
VS_FILE(basic_fstream, basic_iostream, (ios_base::in | ios_base::out))

// manipulators
#define VS_FLAG(NAME, SET, MASK) inline ios_base& NAME(ios_base& b) { b.setf(SET, MASK); return b; }
VS_FLAG(dec, ios_base::dec, ios_base::basefield)
VS_FLAG(hex, ios_base::hex, ios_base::basefield)
VS_FLAG(oct, ios_base::oct, ios_base::basefield)
VS_FLAG(fixed, ios_base::fixed, ios_base::floatfield)
VS_FLAG(scientific, ios_base::scientific, ios_base::floatfield)
VS_FLAG(defaultfloat, 0, ios_base::floatfield)
VS_FLAG(hexfloat, ios_base::floatfield, ios_base::floatfield)
VS_FLAG(left, ios_base::left, ios_base::adjustfield)
VS_FLAG(right, ios_base::right, ios_base::adjustfield)
VS_FLAG(internal, ios_base::internal, ios_base::adjustfield)
VS_FLAG(showbase, ios_base::showbase, ios_base::showbase)
VS_FLAG(noshowbase, 0, ios_base::showbase)
VS_FLAG(showpoint, ios_base::showpoint, ios_base::showpoint)
VS_FLAG(noshowpoint, 0, ios_base::showpoint)
VS_FLAG(showpos, ios_base::showpos, ios_base::showpos)
VS_FLAG(noshowpos, 0, ios_base::showpos)
VS_FLAG(skipws, ios_base::skipws, ios_base::skipws)
VS_FLAG(noskipws, 0, ios_base::skipws)
VS_FLAG(uppercase, ios_base::uppercase, ios_base::uppercase)
VS_FLAG(nouppercase, 0, ios_base::uppercase)
VS_FLAG(boolalpha, ios_base::boolalpha, ios_base::boolalpha)
VS_FLAG(noboolalpha, 0, ios_base::boolalpha)
VS_FLAG(unitbuf, ios_base::unitbuf, ios_base::unitbuf)
VS_FLAG(nounitbuf, 0, ios_base::unitbuf)
#define VS_MANIP(NAME, TYPE, BODY) \
struct vs_##NAME { TYPE v; }; \
inline vs_##NAME NAME(TYPE v) { vs_##NAME r; r.v = v; return r; } \
template<typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& s, vs_##NAME m) { BODY; return s; } \
template<typename C, typename T> inline basic_istream<C, T>& operator>>(basic_istream<C, T>& s, vs_##NAME m) { BODY; return s; }
VS_MANIP(setbase, int, s.setf(m.v == 8 ? ios_base::oct : m.v == 10 ? ios_base::dec : m.v == 16 ? ios_base::hex : 0, ios_base::basefield))
VS_MANIP(setw, int, s.width(m.v))
VS_MANIP(setprecision, int, s.precision(m.v))
VS_MANIP(setiosflags, ios_base::fmtflags, s.setf(m.v))
VS_MANIP(resetiosflags, ios_base::fmtflags, s.unsetf(m.v))
VS_MANIP(setfill, char, s.fill(m.v))

static basic_ostream<char> cout(0), cerr(1), clog(1);
static basic_istream<char> cin(2);

} // namespace std
#endif
