// @bounds sums: 0..3 (thorough 5) log probabilities, each a symbolic integer in -3..3 (thorough -4..4) plus -2000, 0 or 2000 (so that some may be negligible), in every order
// @bounds softmax: 0..3 (thorough 4) values, each a symbolic integer in -2..2 (thorough -3..3) plus -2000, 0 or 2000
// @stub exp and log are replaced by exact piecewise linear functions to the base two (harness/pexp.h); over integer operands the identities checked hold for them exactly when they hold for the real functions
// @assume operands are finite integers; rounding of the real exp and log is outside
// @harness sums quick=25 thorough=200
// @harness softmax quick=25 thorough=200
#define PEXP_MAX 10
#include "pexp.h"
#define exp sx_exp
#define log sx_log
#include <travatar/softmax.h>
#undef exp
#undef log
using namespace travatar;
static std::vector<int> big; static std::vector<double> sm;
static std::vector<Real> values(int n, int w) {
  std::vector<Real> v; big.clear(); sm.clear();
  for (int i = 0; i < n; i++) { big.push_back(sx::Pick(nm("big", i), -1, 1)); sm.push_back(sx::Int(nm("x", i), -w, w)); v.push_back(big[i] * 2000.0 + sm[i]); }
  return v;
}
static int top() { int b = -1; for (size_t i = 0; i < big.size(); i++) b = std::max(b, big[i]); return b; }
SX_HARNESS(sums) {
  int n = sx::Pick("n", 0, sx::Q(3, 5));
  std::vector<Real> v = values(n, sx::Q(3, 4)); int b = top();
  Real r = AddLogProbs(v);
  if (n == 0) { sx::Assert(r <= -1e300, "the empty sum is zero"); sx::Reach("end"); return; }
  double sum = 0; for (int i = 0; i < n; i++) if (big[i] == b) sum += sx_exp_of(sm[i]);
  sx::Assert(r == r && r < 1e6 && r > -1e6, "the sum of probabilities is a probability"); 
  sx::Assert(sx_exp_of(r - b * 2000.0) == sum, "the log of the sum of the probabilities");
  sx::Reach("end");
}
SX_HARNESS(softmax) {
  int n = sx::Pick("n", 0, sx::Q(3, 4));
  std::vector<Real> v = values(n, sx::Q(2, 3)); int b = top();
  std::vector<Real> r = Softmax(v);
  sx::Assert((int)r.size() == n, "one output for each input");
  double sum = 0, total = 0; for (int i = 0; i < n; i++) if (big[i] == b) sum += sx_exp_of(sm[i]);
  bool order = true, nonneg = true, right = true;
  for (int i = 0; i < n; i++) {
    total += r[i]; nonneg = sx::And(nonneg, r[i] >= 0);
    double want = big[i] == b ? sx_exp_of(sm[i]) : 0, d = r[i] * sum - want;
    right = sx::And(right, sx::And(d < 1.0 / (1 << 20), d > -1.0 / (1 << 20)));
    for (int j = 0; j < n; j++) if (big[i] == big[j]) order = sx::And(order, sx::Or(sm[i] > sm[j], r[i] <= r[j]));
  }
  sx::Assert(nonneg, "outputs are not negative"); sx::Assert(order, "outputs keep the order of the inputs"); sx::Assert(right, "each output is the share of its probability");
  if (n) sx::Assert(sx::And(total < 1 + 1.0 / (1 << 20), total > 1 - 1.0 / (1 << 20)), "outputs sum to one");
  sx::Reach("end");
}
