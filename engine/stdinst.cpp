// Explicit instantiations of the libstdc++ templates that normally live in the (uninstrumented)
// shared library, so that strings and streams are executed symbolically.
#include <string>
#include <istream>
#include <ostream>
#include <iostream>
#include <sstream>
#include <streambuf>
#include <fstream>
namespace std {
template class basic_string<char>;
template class basic_streambuf<char>;
template class __cxx11::basic_stringbuf<char>;
template class __cxx11::basic_istringstream<char>;
template class __cxx11::basic_ostringstream<char>;
template class __cxx11::basic_stringstream<char>;
template istream &operator>>(istream &, string &);
template ostream &operator<<(ostream &, const string &);
template istream &getline(istream &, string &, char);
template istream &getline(istream &, string &);
template string operator+(const char *, const string &);
template string operator+(char, const string &);
template string operator+(const string &, const string &);
template ostream &operator<<(ostream &, char);
template ostream &operator<<(ostream &, const char *);
template istream &operator>>(istream &, char &);
template istream &ws(istream &);
template ostream &endl(ostream &);
template ostream &flush(ostream &);
template ostream &__ostream_insert(ostream &, const char *, streamsize);
}
namespace std {
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
}
// libstdc++ ships explicit specialisations of these for char; the pass redirects calls to them here.
#include <limits>
#include <cstdlib>
#include <stdint.h>
extern "C" void __sx_api_concbuf(const char *, uint64_t);
extern "C" {
std::istream &__sxm_istream_str(std::istream &in, std::string &s) {
  std::istream::sentry ok(in, false);
  std::ios_base::iostate err = std::ios_base::goodbit;
  size_t n = 0;
  if (ok) {
    s.erase();
    size_t w = in.width() > 0 ? (size_t)in.width() : s.max_size();
    for (;;) {
      if (n >= w) break;
      int c = in.rdbuf()->sgetc();
      if (c == EOF) { err |= std::ios_base::eofbit; break; }
      if ((c == ' ') | ((c >= 9) & (c <= 13))) break;
      s.push_back((char)c); n++;
      in.rdbuf()->sbumpc();
    }
    in.width(0);
  }
  if (n == 0) err |= std::ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
std::istream &__sxm_getline_delim(std::istream &in, std::string &s, char d) {
  std::istream::sentry ok(in, true);
  std::ios_base::iostate err = std::ios_base::goodbit;
  size_t n = 0;
  if (ok) {
    s.erase();
    for (;;) {
      int c = in.rdbuf()->sbumpc();
      if (c == EOF) { err |= std::ios_base::eofbit; break; }
      n++;
      if ((char)c == d) break;
      s.push_back((char)c);
    }
  }
  if (n == 0) err |= std::ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
std::istream &__sxm_getline(std::istream &in, std::string &s) { return __sxm_getline_delim(in, s, '\n'); }
std::istream &__sxm_istream_char(std::istream &in, char &ch) {
  std::istream::sentry ok(in, false);
  if (ok) {
    int c = in.rdbuf()->sbumpc();
    if (c != EOF) ch = (char)c; else in.setstate(std::ios_base::eofbit | std::ios_base::failbit);
  }
  return in;
}
std::istream &__sxm_ws(std::istream &in) {
  for (;;) {
    int c = in.rdbuf()->sgetc();
    if (c == EOF) { in.setstate(std::ios_base::eofbit); break; }
    if (!((c == ' ') | ((c >= 9) & (c <= 13)))) break;
    in.rdbuf()->sbumpc();
  }
  return in;
}
// integer extraction (in the base of the stream; as num_get: accumulates digits, out of range sets failbit and the limit)
static bool extract(std::istream &in, bool sgn, unsigned long maxpos, unsigned long maxneg, unsigned long &mag, bool &neg, bool &fail) {
  std::istream::sentry ok(in, false);
  fail = false; neg = false; mag = 0;
  if (!ok) return false;
  std::ios_base::iostate err = std::ios_base::goodbit;
  std::streambuf *b = in.rdbuf();
  int c = b->sgetc();
  if (c == '-' || c == '+') { neg = c == '-'; b->sbumpc(); c = b->sgetc(); }
  bool any = false, over = false;
  std::ios_base::fmtflags bf = in.flags() & std::ios_base::basefield;
  const unsigned base = bf == std::ios_base::hex ? 16 : bf == std::ios_base::oct ? 8 : 10;
  if (base == 16 && c == '0') { any = true; b->sbumpc(); c = b->sgetc(); if (c == 'x' || c == 'X') { any = false; b->sbumpc(); c = b->sgetc(); } }
  while (c != EOF) {
    unsigned d;
    if ((c >= '0') & (c <= (base == 8 ? '7' : '9'))) d = c - '0';
    else if (base == 16 && ((c >= 'a') & (c <= 'f'))) d = c - 'a' + 10;
    else if (base == 16 && ((c >= 'A') & (c <= 'F'))) d = c - 'A' + 10;
    else break;
    any = true;
    unsigned long lim = (neg && sgn) ? maxneg : maxpos;
    if (mag > (lim - d) / base || lim < d) over = true;
    mag = mag * base + d;
    b->sbumpc(); c = b->sgetc();
  }
  if (c == EOF) err |= std::ios_base::eofbit;
  if (!any) { mag = 0; neg = false; fail = true; }
  else if (over) { mag = (neg && sgn) ? maxneg : maxpos; if (!sgn) neg = false; fail = true; }
  if (fail) err |= std::ios_base::failbit;
  if (err) in.setstate(err);
  return true;
}
#define EXTRACT(NAME, T, SG) std::istream &NAME(std::istream &in, T &v) { unsigned long m; bool neg, fail; \
  if (extract(in, SG, (unsigned long)std::numeric_limits<T>::max(), SG ? (unsigned long)std::numeric_limits<T>::max() + 1 : 0, m, neg, fail)) v = (T)(neg ? 0 - m : m); return in; }
EXTRACT(__sxm_istream_int, int, true)
EXTRACT(__sxm_istream_long, long, true)
EXTRACT(__sxm_istream_uint, unsigned, false)
EXTRACT(__sxm_istream_ulong, unsigned long, false)
EXTRACT(__sxm_istream_short, short, true)
static bool dbl(std::istream &in, double &v) {
  std::istream::sentry ok(in, false);
  if (!ok) return false;
  std::streambuf *b = in.rdbuf();
  std::string t;
  bool dot = false, ex = false, dig = false;
  int c = b->sgetc();
  if (c == '-' || c == '+') { t.push_back((char)c); b->sbumpc(); c = b->sgetc(); }
  for (; c != EOF; b->sbumpc(), c = b->sgetc()) {
    if ((c >= '0') & (c <= '9')) { t.push_back((char)c); dig = true; }
    else if (c == '.' && !dot && !ex) { t.push_back('.'); dot = true; }
    else if ((c == 'e' || c == 'E') && !ex && dig) { t.push_back('e'); ex = true; b->sbumpc(); c = b->sgetc(); if (c == '-' || c == '+') { t.push_back((char)c); } else { b->sputbackc('e'); } }
    else break;
  }
  std::ios_base::iostate err = std::ios_base::goodbit;
  if (c == EOF) err |= std::ios_base::eofbit;
  __sx_api_concbuf(t.data(), t.size());
  char *e; v = strtod(t.c_str(), &e);
  if (!dig || *e) { v = 0; err |= std::ios_base::failbit; }
  if (err) in.setstate(err);
  return true;
}
std::istream &__sxm_istream_double(std::istream &in, double &v) { dbl(in, v); return in; }
std::istream &__sxm_istream_float(std::istream &in, float &v) { double d; if (dbl(in, d)) v = (float)d; return in; }
}
