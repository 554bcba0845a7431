// @sources lib/gradient.cc lib/tune-lbfgs.cc lib/tune.cc lib/tuning-example-nbest.cc lib/mert-geometry.cc lib/weights.cc lib/eval-measure.cc lib/eval-measure-bleu.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc lib/translation-rule.cc
// @cut lm::|util::|LMComposer|LMFunc|MapEnumerateVocab
// @bounds average: 1..2 sentences of 1..3 (thorough 2, 3) candidates, 2 features with integer weights in -3..3, feature values in -3..3 and evaluation statistics in 0..7 (one of the three groups symbolic at a time; all concrete where the arithmetic is not exact), scale -1..2, possibly an empty sentence before, denominators 1 or 3, any of 4 (thorough 6) probability distributions (some that sum to slightly less than one), averaged, TER and inverted TER statistics, with and without L2 and entropy terms, automatic scaling and a multiplier of -1; the output buffer starts with any content
// @bounds bleu: 1..2 sentences of 1..2 candidates (quick: the second sentence fixed), n-grams up to order 2, statistics and distributions from small lists, smoothing 0 or 1, precision zero excluded, reference and system lengths that are not equal within 2%
// @bounds optimum: 1..3 (thorough 4) evaluations at any points in any order with any objective values
// @stub average, bleu: Softmax returns any of the distributions (that it computes the right one from its operands is C42; the operands are checked here); optimum: lbfgs() evaluates the objective at the start and at arbitrary points
// @assume BLEU is the plain one (geometric mean, precision, brevity penalty)
// @harness average quick=70 thorough=400
// @harness bleu quick=25 thorough=300
// @harness optimum quick=15 thorough=60
#include "common.h"
#include <cmath>
#include <cfloat>
#include <cstring>
#include <travatar/softmax.h>
static std::vector<std::vector<double> > dist, logits; 
inline std::vector<double> sx_softmax(const std::vector<double> &v) { if (v.empty()) return v; size_t k = logits.size(); logits.push_back(v); return k < dist.size() && dist[k].size() == v.size() ? dist[k] : std::vector<double>(v.size(), 0); }
#define Softmax sx_softmax
#include <lib/gradient-xeval.cc>
#undef Softmax
#include <travatar/tuning-example-nbest.h>
#include <travatar/eval-measure-ter.h>
#include <travatar/eval-measure-ribes.h>
#include <travatar/tune-lbfgs.h>
#include <travatar/weights.h>
#include <travatar/dict.h>
#include <liblbfgs/lbfgs.hpp>
static bool near(double a, double b, double tol = 1.0 / (1 << 20)) { double d = a - b; return sx::And(d <= tol, d >= -tol); }
struct Open : public GradientXeval { int idOf(WordId w) { return sparse2dense_[w]; } int size() { return dense2sparse_.size(); } };
static const double TINY = 1.0 / (1ll << 40);
static std::vector<double> pickDist(int i, int K) {
  int d = K == 1 ? sx::Pick(nm("dist", i), 0, 1) : sx::Pick(nm("dist", i), 0, sx::Q(3, 5)); std::vector<double> p(K, 0.0);
  if (K == 1) p[0] = d ? 1 - TINY : 1;
  else if (K == 2) { double a[6] = {.5, .25, 1, .75 - TINY, .125, 0}; p[0] = a[d]; p[1] = d == 3 ? .25 : 1 - a[d]; }
  else { double a[6] = {.5, .25, 0, .125, .75, 0}, b[6] = {.25, .25, .5, .125 - TINY, .25 - TINY, 1}; p[0] = a[d]; p[1] = b[d]; p[2] = d == 3 ? .75 : d == 4 ? 0 : 1 - a[d] - b[d]; }
  return p;
}
static double l2term(double w0, double w1, double gamma) { return (w0 * w0 + w1 * w1) * gamma * gamma; }
SX_HARNESS(average) {
  int N = sx::Pick("sentences", 1, 2), opt = sx::Pick("options", 0, 7), kind = opt < 2 || sx::Tier() ? sx::Pick("kind", 0, 2) : 0; double den = N == 1 && opt == 0 ? sx::Pick("denominator", 0, 1) * 2 + 1 : 1;
  double l2 = opt == 1 || opt == 4 || opt == 6 ? .25 : 0, ent = opt == 2 || opt == 4 || opt == 6 ? .5 : 0; bool aut = opt != 3 && opt != 6, neg = opt == 4 || opt == 5, hole = opt == 7; // 7: an empty sentence first
  WordId f[2] = {Dict::WID("f0"), Dict::WID("f1")}, sc = Dict::WID("__SCALE__");
  std::vector<boost::shared_ptr<TuningExample> > ex; dist.clear(); logits.clear();
  if (hole) ex.push_back(boost::shared_ptr<TuningExample>(new TuningExampleNbest));
  bool exact = den == 1; int mode = sx::Pick("symbolic", 0, N == 1 ? 2 : 1); std::vector<std::vector<double> > v(N); std::vector<std::vector<std::vector<double> > > ft(N);
  for (int i = 0; i < N; i++) {
    TuningExampleNbest *nb = new TuningExampleNbest; ex.push_back(boost::shared_ptr<TuningExample>(nb));
    int K = i == 0 ? sx::Pick(nm("candidates", i), 1, 3) : 2; dist.push_back(i == 0 ? pickDist(i, K) : std::vector<double>(2, .5));
    double total = 0; for (int k = 0; k < K; k++) total += dist[i][k]; exact = exact && total == 1;
    for (int k = 0; k < K; k++) {
      double val = exact && mode == 0 ? sx::Int(nm("val", i, k), 0, 7) : (3 * k + 2 * i + 1) % 8; v[i].push_back(val);
      std::vector<double> x(2); bool symb = exact && mode == 2 && K < 3; x[0] = k == 1 ? 0 : symb ? sx::Int(nm("featA", i, k), 1, 3) : k + 1; x[1] = k == 0 && i == 0 ? 0 : symb ? sx::Int(nm("featB", i, k), -3, -1) : -2 + i; ft[i].push_back(x);
      std::vector<SparsePair> m; if (k != 1) m.push_back(SparsePair(f[0], x[0])); if (k || i) m.push_back(SparsePair(f[1], x[1]));
      EvalStatsPtr s; if (kind == 0) s.reset(new EvalStatsAverage(val, den)); else s.reset(new EvalStatsTer(val, den, kind == 2));
      nb->AddHypothesis(SparseVector(m), s);
    }
  }
  Open g; g.SetAutoScale(aut); g.SetL2Coefficient(l2); g.SetEntCoefficient(ent); g.SetMult(neg ? -1 : 1); SparseMap init; init[f[0]] = 0; init[f[1]] = 0; g.Init(init, ex);
  int n = g.size(), a = g.idOf(f[0]), b = g.idOf(f[1]), c = g.idOf(sc); sx::Assert(n == 3 && a != b && b != c && a != c, "every feature and the scale has a dimension");
  std::vector<double> x(n), out(n);
  x[a] = exact && mode == 1 ? sx::Int("w0", -3, 3) : 2; x[b] = exact && mode == 1 ? sx::Int("w1", -3, 3) : -1; x[c] = sx::Pick("scale", opt < 3 ? -1 : 0, 2); double gamma = x[c] == 0 ? 1 : x[c];
  for (int i = 0; i < n; i++) out[i] = sx::Int(nm("old", i), -1, 1);
  double score = g.CalcGradient(n, &x[0], &out[0]);
  // reference
  double E = 0, D = 0, ga = 0, gb = 0, gs = 0, H = 0; bool lg = (int)logits.size() == N;
  for (int i = 0; i < N; i++) { double m = 0; for (size_t k = 0; k < dist[i].size(); k++) { m += dist[i][k] * v[i][k]; D += den / dist[i].size(); } E += m; }
  double sign = kind == 2 ? -1 : 1;
  for (int i = 0; i < N; i++) {
    double m = 0, h = 0; for (size_t k = 0; k < dist[i].size(); k++) { m += dist[i][k] * v[i][k]; if (dist[i][k] > 0) h -= dist[i][k] * log2(dist[i][k]); } H += h;
    for (size_t k = 0; k < dist[i].size(); k++) {
      double p = dist[i][k], lin = x[a] * ft[i][k][0] + x[b] * ft[i][k][1]; if (lg && k < logits[i].size()) lg = sx::And(lg, logits[i][k] == lin * gamma);
      double ds = sign * p * (v[i][k] - m) * (1 / D) + (p > 0 ? ent * -p * (log2(p) + h) : 0);
      ga += ds * gamma * ft[i][k][0]; gb += ds * gamma * ft[i][k][1]; gs += ds * lin;
    }
  }
  double want = (kind == 2 ? 1 - E * (1 / D) : E * (1 / D)) + ent * H;
  if (l2 != 0) { want -= l2 * l2term(x[a], x[b], gamma); ga -= 2 * l2 * x[a] * gamma * gamma; gb -= 2 * l2 * x[b] * gamma * gamma; gs -= 2 * l2 * (x[a] * x[a] + x[b] * x[b]) * gamma; }
  double mu = neg ? -1 : 1;
  sx::Assert(lg, "the probabilities of a sentence are those of the scaled model scores");
  sx::Assert(near(score, mu * want), "the objective is the expected score with its penalties");
  sx::Assert(sx::And(near(out[a], mu * ga), near(out[b], mu * gb)), "the gradient is the derivative of the objective by each weight");
  sx::Assert(near(out[c], aut ? mu * gs : 0), "the gradient is the derivative of the objective by the scale");
  sx::Reach("end");
}
SX_HARNESS(bleu) {
  int N = sx::Pick("sentences", 1, 2); double smooth = sx::Pick("smooth", 0, 1); double w = sx::Int("w", -3, 3), gamma = sx::Pick("scale", 1, 2); 
  WordId f[3] = {Dict::WID("f0"), Dict::WID("f1"), Dict::WID("f2")}, sc = Dict::WID("__SCALE__");
  // match, system and reference counts of orders 1 and 2
  static const double table[5][6] = {{2, 3, 4, 1, 2, 3}, {3, 3, 4, 2, 2, 3}, {1, 6, 4, 1, 5, 3}, {0, 1, 4, 0, 0, 3}, {4, 5, 4, 3, 4, 3}};
  std::vector<boost::shared_ptr<TuningExample> > ex; dist.clear(); logits.clear(); std::vector<std::vector<const double *> > st(N);
  std::vector<double> sum(6, 0.0);
  for (int i = 0; i < N; i++) {
    TuningExampleNbest *nb = new TuningExampleNbest; ex.push_back(boost::shared_ptr<TuningExample>(nb));
    int K = i == 0 ? sx::Pick(nm("candidates", i), 1, 2) : 2; dist.push_back(i == 0 || sx::Tier() ? pickDist(i, K) : std::vector<double>(2, .5));
    for (int k = 0; k < K; k++) {
      const double *t = table[i == 0 || sx::Tier() ? sx::Pick(nm("stats", i, k), 0, sx::Q(3, 4)) : 3 * k + 1]; st[i].push_back(t); std::vector<double> vals(t, t + 6); for (int j = 0; j < 6; j++) sum[j] += dist[i][k] * t[j];
      std::vector<SparsePair> m(1, SparsePair(f[k], i + 1)); nb->AddHypothesis(SparseVector(m), EvalStatsPtr(new EvalStatsBleu(vals, smooth)));
    }
  }
  double R = sum[2] / sum[1]; sx::Assume(sum[0] > 0 && sum[3] + smooth > 0 && (R > 1.02 || R < .98));
  Open g; g.SetAutoScale(true); g.Init(SparseMap(), ex); int n = g.size(); std::vector<double> x(n, 0.0), out(n, 0.0); int c = g.idOf(sc); int d[2] = {g.idOf(f[0]), g.idOf(f[1])};
  n = g.size(); x.resize(n); out.assign(n, 1.0); x[c] = gamma; x[d[0]] = w; 
  double score = g.CalcGradient(n, &x[0], &out[0]);
  double bleu = sqrt(sum[0] / sum[1] * (sum[3] + smooth) / (sum[4] + smooth)) * (R > 1 ? exp(1 - R) : 1), gr[2] = {0, 0}, gs = 0;
  for (int i = 0; i < N; i++) {
    std::vector<double> dl; double m = 0;
    for (size_t k = 0; k < st[i].size(); k++) {
      const double *t = st[i][k]; double q = (t[0] / sum[0] - t[1] / sum[1] + t[3] / (sum[3] + smooth) - (sum[4] + smooth > 0 ? t[4] / (sum[4] + smooth) : 0)) / 2 + (R > 1 ? -R * (t[2] / sum[2] - t[1] / sum[1]) : 0);
      dl.push_back(q); m += dist[i][k] * q;
    }
    for (size_t k = 0; k < st[i].size(); k++) { double ds = bleu * dist[i][k] * (dl[k] - m); gr[k] += ds * gamma * (i + 1); gs += ds * (i + 1) * (k == 0 ? w : 0.0); }
  }
  const double tol = 1.0 / (1 << 16);
  sx::Assert(near(score, bleu, tol), "the objective is the BLEU score of the expected statistics");
  sx::Assert(sx::And(near(out[d[0]], gr[0], tol), d[1] == d[0] || near(out[d[1]], gr[1], tol)), "the gradient of expected BLEU is its derivative by each weight");
  sx::Assert(near(out[c], gs, tol), "the gradient of expected BLEU is its derivative by the scale");
  sx::Reach("end");
}
struct Any : public Gradient {
  WordId f; std::vector<double> obj, at; int calls; 
  virtual void Init(const SparseMap &, const std::vector<boost::shared_ptr<TuningExample> > &) {}
  void setup(WordId x) { f = x; dense2sparse_.clear(); dense2sparse_.push_back(f); dense2sparse_.push_back(scale_id_); sparse2dense_[f] = 0; sparse2dense_[scale_id_] = dense_scale_id_ = 1; calls = 0; }
  virtual Real CalcGradient(size_t n, const Real *x, Real *g) const { Any *me = const_cast<Any *>(this); for (size_t i = 0; i < n; i++) g[i] = 0; me->at.push_back(x[0]); me->calls++; return GetMult() * obj[calls - 1]; }
};
static int evals;
extern "C" void lbfgs_parameter_init(lbfgs_parameter_t *p) { memset(p, 0, sizeof *p); }
extern "C" int lbfgs(int n, lbfgsfloatval_t *x, lbfgsfloatval_t *fx, lbfgs_evaluate_t eval, lbfgs_progress_t, void *inst, lbfgs_parameter_t *) {
  std::vector<double> p(x, x + n), g(n, 0.0);
  for (int i = 0; i < evals; i++) { if (i) p[0] = sx::Int(nm("point", i), 1, 9); if (fx) *fx = eval(inst, &p[0], &g[0], n, 1); else eval(inst, &p[0], &g[0], n, 1); }
  for (int i = 0; i < n; i++) x[i] = p[i];
  return 0;
}
SX_HARNESS(optimum) {
  evals = sx::Pick("evaluations", 1, sx::Q(3, 4)); Any *a = new Any; WordId f = Dict::WID("f0"); a->setup(f);
  for (int i = 0; i < evals; i++) a->obj.push_back(sx::Int(nm("objective", i), -5, 5));
  TuneLbfgs t(a); t.GetExamples().push_back(boost::shared_ptr<TuningExample>(new TuningExampleNbest));
  double start = sx::Int("start", 1, 9); SparseMap kv; kv[f] = start; 
  Real r = t.RunTuning(kv);
  sx::Assert(a->calls == evals && a->at[0] == start, "the search starts at the given weights");
  bool best = false, top = true; double got = kv[f];
  for (int i = 0; i < evals; i++) { top = sx::And(top, r >= a->obj[i]); best = sx::Or(best, sx::And(a->obj[i] == r, a->at[i] == got)); }
  sx::Assert(top, "the result is no worse than any point that was evaluated, the start included"); sx::Assert(best, "the weights are those of the best point");
  sx::Reach("end");
}
