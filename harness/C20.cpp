// @sources lib/math-query.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds expr: every well-formed expression of 1..7 (thorough 9) tokens over +,-,*,(,) and operands from two fixed sequences of variables and constants, A and B symbolic m/2 with |m| <= 6, three ways of placing blanks
// @bounds divide: the same with division, A and B powers of two or -1/2
// @bounds number: constants of 1..2 digits, with up to one digit after the point, alone, before and after an operator, and in brackets
// @bounds bad: 20 malformed expressions are rejected
// @assume values are exact in binary, so that the order of evaluation decides the value exactly
// @harness expr quick=25 thorough=400
// @harness divide quick=10 thorough=100
// @harness number quick=10 thorough=30
// @harness bad quick=10 thorough=60
#include "common.h"
#include <travatar/math-query.h>
#include <travatar/dict.h>
using namespace travatar;
// recursive descent over the documented grammar; sets err on anything that is not an expression
struct Ref {
  std::vector<std::string> t; size_t i; bool err; double A, B;
  double prim() {
    if (err || i >= t.size()) { err = true; return 0; }
    std::string x = t[i++];
    if (x == "(") { double v = sum(); if (err || i >= t.size() || t[i] != ")") { err = true; return 0; } i++; return v; }
    if (x == "A") return A; if (x == "B") return B; if (x == "2") return 2; if (x == "4") return 4; if (x == "0.5") return 0.5; if (x == "10") return 10;
    err = true; return 0;
  }
  double prod() { double v = prim(); while (!err && i < t.size() && (t[i] == "*" || t[i] == "/")) { bool mul = t[i++] == "*"; double w = prim(); if (err) break; v = mul ? v * w : v / w; } return v; }
  double sum() { double v = prod(); while (!err && i < t.size() && (t[i] == "+" || t[i] == "-")) { bool add = t[i++] == "+"; double w = prod(); if (err) break; v = add ? v + w : v - w; } return v; }
  double run() { i = 0; err = false; double v = sum(); if (i != t.size()) err = true; return v; }
};
// every well-formed token string of the given length; operands are drawn from `opnd`, one per position
static void go(const char *const *opnd, int no, const char *ops, int len, double A, double B) {
  Ref r; std::string s; r.A = A; r.B = B; int blanks = sx::Pick("blanks", 0, 2), depth = 0, nopnd = 0; bool want = true;
  if (blanks) s += ' ';
  for (int i = 0; i < len; i++) {
    std::vector<std::string> c; int left = len - i - 1;
    if (want) { if (left >= depth && (left - depth == 0 || left - depth >= 2)) c.push_back(opnd[nopnd % no]); if (left >= depth + 2) c.push_back("("); }
    else { if (left >= depth + 1) for (const char *o = ops; *o; o++) c.push_back(std::string(1, *o)); if (depth) c.push_back(")"); }
    sx::Assume(!c.empty());
    std::string t = c[sx::Pick(nm("token", i), 0, (int)c.size() - 1)];
    if (t == "(") depth++; else if (t == ")") depth--; else if (want) { want = false; nopnd++; } else want = true;
    r.t.push_back(t); s += t; if (blanks == 1 || (blanks == 2 && i + 1 == len)) s += ' ';
  }
  sx::Assume(depth == 0 && !want);
  double v = r.run(); sx::Assume(!r.err);
  std::map<WordId, Real> vars; vars[Dict::WID("A")] = A; vars[Dict::WID("B")] = B;
  double got = 0; bool ok = true; SX_NOTHROW(got = MathQuery::Evaluate(vars, s), ok);
  sx::Assert(ok, "a well-formed expression is accepted"); sx::Assert(got == v, "the value is that of the usual precedence, left to right");
  MathQuery q(s, vars); sx::Assert(MathQuery::Evaluate(q) == v, "a parsed query evaluates to the same value");
  sx::Reach("end");
}
SX_HARNESS(expr) {
  static const char *o1[] = {"A", "B", "2", "A", "0.5"}; static const char *o2[] = {"10", "A", "A", "B", "2"};
  int len = sx::Pick("length", 1, sx::Q(7, 9));
  go(sx::Pick("operands", 0, 1) ? o1 : o2, 5, "+-*", len, sx::Fix("A", -6, 6, 1), sx::Fix("B", -6, 6, 1));
}
SX_HARNESS(divide) {
  static const double v[] = {-0.5, 0.5, 1, 2, 4}; static const char *o[] = {"2", "A", "B", "4", "A"};
  go(o, 5, "+-*/", sx::Pick("length", 1, sx::Q(7, 9)), v[sx::Pick("A", 0, sx::Q(2, 4))], v[sx::Pick("B", sx::Q(3, 1), 4)]);
}
SX_HARNESS(number) {
  int nd = sx::Pick("digits", 1, 2), frac = sx::Pick("fraction", 0, 2), d[3] = {0, 0, 0}; double v = 0; std::string n;
  for (int i = 0; i < nd; i++) { d[i] = sx::Pick(nm("digit", i), 0, 9); n += char('0' + d[i]); v = v * 10 + d[i]; }
  if (frac) { n += '.'; if (frac == 2) { d[2] = sx::Pick("last digit", 0, 3); n += d[2] == 0 ? "5" : d[2] == 1 ? "25" : d[2] == 2 ? "875" : "0"; v += d[2] == 0 ? 0.5 : d[2] == 1 ? 0.25 : d[2] == 2 ? 0.875 : 0; } }
  double a = sx::Fix("A", -6, 6, 1), want; std::string s; switch (sx::Pick("place", 0, 3)) { case 0: s = n; want = v; break; case 1: s = n + "+A"; want = v + a; break; case 2: s = "A-" + n; want = a - v; break; default: s = "(" + n + ")*A"; want = v * a; }
  std::map<WordId, Real> vars; vars[Dict::WID("A")] = a; bool ok = true; double got = 0; SX_NOTHROW(got = MathQuery::Evaluate(vars, s), ok);
  sx::Assert(ok, "a well-formed expression is accepted"); sx::Assert(got == want, "constants are read as decimal numbers"); sx::Reach("end");
}
// unbalanced brackets, missing operands and unknown names or characters are errors
SX_HARNESS(bad) {
  static const char *bads[] = {"(A", "A)", "A+", "*A", "A B", "(A+B", "A+B)", "C", "A+C", "A%B", "a", "()A)", "((A)", "A**B", "+", "A+(B", "A+(", ")", "A 2", "2 2"};
  std::string s = bads[sx::Pick("which", 0, 19)];
  std::map<WordId, Real> vars; vars[Dict::WID("A")] = sx::Fix("A", -6, 6, 1); vars[Dict::WID("B")] = 1;
  bool ok = true; SX_NOTHROW(MathQuery::Evaluate(vars, s), ok);
  sx::Assert(!ok, "a malformed expression is rejected"); sx::Reach("end");
}
