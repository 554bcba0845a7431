// Stand-ins for exp and log: the piecewise linear functions that agree with 2^x and log2(x) at the integers (powers of two).
// They are exact in binary arithmetic, increasing, inverse to each other, and exp(x + k) = 2^k exp(x) for integers k, so that
// identities that hold for the real functions hold exactly here whenever at most one operand of a sum of logs is not an integer.
#ifndef SX_PEXP_H
#define SX_PEXP_H
#include "common.h"
#include <cmath>
#include <limits>
#ifndef PEXP_MAX
#define PEXP_MAX 8
#endif
const int PEXP_LO = -PEXP_MAX, PEXP_HI = PEXP_MAX;
inline double sx_exp_of(double x) {
  if (!(x >= PEXP_LO && x <= PEXP_HI)) {
    double c = sx::Concd(x);
    if (c != c) return c; if (c >= 1024) return std::numeric_limits<double>::infinity(); if (c < -1000) return 0;
    return ldexp(1 + (c - floor(c)), (int)floor(c));
  }
  double r = ldexp(1.0, PEXP_HI);
  for (int k = PEXP_HI - 1; k >= PEXP_LO; k--) { double v = ldexp(1.0, k) * (1 + (x - k)); r = x < k + 1 ? v : r; }
  return r;
}
inline double sx_log_of(double s) {
  if (!(s >= ldexp(1.0, PEXP_LO) && s <= ldexp(1.0, PEXP_HI))) {
    double c = sx::Concd(s);
    if (c != c || c < 0) return std::numeric_limits<double>::quiet_NaN(); if (c == 0) return -std::numeric_limits<double>::infinity(); if (c > 1e308) return c;
    int e; double m = frexp(c, &e); return e - 1 + (2 * m - 1);
  }
  double r = PEXP_HI;
  for (int k = PEXP_HI - 1; k >= PEXP_LO; k--) { double v = k + (s * ldexp(1.0, -k) - 1); r = s < ldexp(1.0, k + 1) ? v : r; }
  return r;
}
namespace std { inline double sx_exp(double x) { return sx_exp_of(x); } inline double sx_log(double x) { return sx_log_of(x); } }
using std::sx_exp; using std::sx_log;
#endif
