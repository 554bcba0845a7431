// @sources lib/tune.cc lib/tune-mert.cc lib/gradient.cc lib/gradient-xeval.cc lib/tuning-example-nbest.cc lib/tuning-example-forest.cc lib/mert-geometry.cc lib/weights.cc lib/eval-measure.cc lib/eval-measure-bleu.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc lib/translation-rule.cc
// @cut lm::|util::|LMComposer|LMFunc|MapEnumerateVocab
// @bounds nbest: every list of 1..4 (thorough 5) candidates with slopes from {-1, 0, 1} (thorough also -2, 2) and solver-chosen scores (integers up to 8; thorough 1 binary digit), and every step t (2 binary digits)
// @bounds forest: forests of 3 nodes with 1..2 edges each, one or two added to a tuning example, slopes from {-1, 0, 1}, solver-chosen scores (quick: some fixed), multiplier 1 or 2, every step t
// @bounds search: 2 examples (n-best lists) of 3 and 2 (thorough 3) candidates, slopes {-1,0,1}, solver-chosen scores, evaluations from {0, 1, 2}, every step t, with and without a range
// @bounds tuning: greedy tuning over 2 examples of 2..3 candidates with 2 features from {0, 1, 2}, evaluations {0, 1, 2}, starting weights from {0, 1, -1}
// @bounds range: 2 features, gradients from {0, +-0.5, +-1, +-2}, solver-chosen weights
// @assume no rule has the literal target word <unk>
// @assume slopes differ by powers of two, so that intersections are exact
// @stub the evaluation measure gives every word sequence its own value
// @harness nbest quick=15 thorough=200
// @harness forest quick=30 thorough=300
// @harness search quick=20 thorough=300
// @harness tuning quick=20 thorough=200
// @harness range quick=5 thorough=60
#include "hg.h"
#include <math.h>
#include <travatar/tune.h>
#include <travatar/tune-mert.h>
#include <travatar/tuning-example-nbest.h>
#include <travatar/tuning-example-forest.h>
#include <travatar/eval-measure.h>
#include <travatar/global-debug.h>
static SparseVector two(double b, double m) { std::vector<SparsePair> p; p.push_back(SparsePair(1, b)); p.push_back(SparsePair(2, m)); return SparseVector(p); }
static SparseMap unit(int k) { SparseMap m; m[k] = 1; return m; }
// the segment of the hull that contains t; -1 if t is on a boundary
static int segAt(const ConvexHull &h, double t) {
  int s = 0; for (size_t i = 1; i < h.size(); i++) if (t > h[i].first.first) s = i; else if (t == h[i].first.first) return -1;
  return s;
}
static void shape(const ConvexHull &h) {
  sx::Assert(h.size() > 0, "the envelope is not empty"); sx::Assert(h[0].first.first == -REAL_MAX && h.back().first.second == REAL_MAX, "the envelope covers the line");
  for (size_t i = 1; i < h.size(); i++) sx::Assert(h[i - 1].first.first <= h[i].first.first, "intersections increase");
}
SX_HARNESS(nbest) {
  const int B = sx::Q(8, 16); int n = sx::Pick("candidates", 1, sx::Q(4, 5)); TuningExampleNbest ex; std::vector<double> m(n), b(n);
  for (int i = 0; i < n; i++) { static const double S[] = {-1, 0, 1, -2, 2}; m[i] = S[sx::Pick(nm("slope", i), 0, n < 5 ? sx::Q(2, 4) : 2)]; b[i] = sx::Fix(nm("score", i), -B, B, sx::Q(0, 1)); ex.AddHypothesis(two(b[i], m[i]), EvalStatsPtr(new EvalStatsAverage(i, 1))); }
  // slopes differ by powers of two
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (fabs(m[i] - m[j]) == 3) return;
  ConvexHull h = ex.CalculateConvexHull(unit(1), unit(2)); shape(h);
  for (size_t i = 1; i < h.size(); i++) sx::Assert(m[(int)h[i - 1].second->GetVals()[0]] < m[(int)h[i].second->GetVals()[0]], "lines come in order of their slope");
  double t = sx::Fix("step", -8 * B, 8 * B, 2); int s = segAt(h, t); if (s >= 0) { int k = (int)h[s].second->GetVals()[0]; bool best = true; for (int i = 0; i < n; i++) best = sx::And(best, b[k] + m[k] * t >= b[i] + m[i] * t); sx::Assert(best, "the envelope has the best line at every step"); }
  sx::Reach("end");
}
// gives each word sequence its own value
static double valueOf(const std::vector<int> &w) { double v = 1; for (size_t i = 0; i < w.size(); i++) v = v * 16 + w[i]; return v; }
struct Words : public EvalMeasure {
  virtual EvalStatsPtr CalculateStats(const Sentence &, const Sentence &sys) const { return EvalStatsPtr(new EvalStatsAverage(valueOf(sys), 1)); }
  virtual EvalStatsPtr ReadStats(const std::string &) { return EvalStatsPtr(); }
};
struct Line { double m, b; std::vector<int> words; };
static void linesOf(const HyperGraph &g, std::vector<Line> &out) {
  std::vector<Deriv> ds = allDerivs(g, g.GetNode(0)); for (size_t i = 0; i < ds.size(); i++) { Line l; l.m = l.b = 0; for (size_t e = 0; e < ds[i].edges.size(); e++) { const std::vector<SparsePair> &f = g.GetEdge(ds[i].edges[e])->GetFeatures().GetImpl(); for (size_t k = 0; k < f.size(); k++) (f[k].first == 1 ? l.b : l.m) += f[k].second; } l.words = ds[i].words; out.push_back(l); }
}
SX_HARNESS(forest) {
  Words meas; std::vector<Sentence> refs(1, Sentence(1, 3)); int forests = sx::Pick("forests", 1, 2); double mult = sx::Tier() ? sx::Pick("multiplier", 1, 2) : forests; TuningExampleForest ex(&meas, refs, 0, mult); std::vector<Line> lines;
  for (int k = 0; k < forests; k++) {
    boost::shared_ptr<HyperGraph> g(new HyperGraph); std::vector<HyperNode *> nd; for (int i = 0; i < 3; i++) { nd.push_back(new HyperNode); g->AddNode(nd[i]); nd[i]->SetSpan(std::make_pair(0, 1)); } g->SetWords(Sentence(1, 14));
    int shape = k && !sx::Tier() ? 0 : sx::Pick(nm("shape", k), forests == 2 && !sx::Tier() ? 1 : 0, sx::Tier() || forests == 1 ? 2 : 1), word = 4 + 5 * k;
    for (int i = 0; i < 3; i++) {
      int ne = i == 1 && k == 0 ? 2 : i == 0 && shape == 2 ? 2 : i == 2 && k == 0 && sx::Tier() ? 2 : 1;
      for (int e = 0; e < ne; e++) {
        std::vector<HyperNode *> tails; CfgDataVector d(1); d[0].words.push_back(word++);
        if (i == 0) { if (shape == 0 || e == 1) { tails.push_back(nd[1]); d[0].words.push_back(-1); } else { tails.push_back(nd[1]); tails.push_back(nd[2]); d[0].words.push_back(-2); d[0].words.push_back(-1); } }
        if (i == 1 && e == 1 && shape) { tails.push_back(nd[2]); d[0].words.push_back(-1); }
        HyperEdge *ed = mkEdge(*g, nd[i], tails, 0); ed->SetTrgData(d);
        static const double S[] = {0, 1, -1}; int si = i == 2 || (k && i && !sx::Tier()) ? (sx::Tier() ? sx::Pick(nm("slope", k * 3 + i, e), 0, 2) : 0) : sx::Pick(nm("slope", k * 3 + i, e), 0, i == 0 && !sx::Tier() ? 1 : 2); double m = S[si], b = (i == 2 || (i == 0 && !sx::Tier())) && !e ? 1 : k && !sx::Tier() ? i : sx::Fix(nm("score", k * 3 + i, e), sx::Q(-4, -8), sx::Q(4, 8), sx::Q(0, 1)); std::vector<SparsePair> f; f.push_back(SparsePair(1, b)); if (m != 0) f.push_back(SparsePair(2, m)); ed->SetFeatures(SparseVector(f));
      }
    }
    linesOf(*g, lines); ex.AddHypothesis(g);
  }
  for (size_t i = 0; i < lines.size(); i++) for (size_t j = 0; j < lines.size(); j++) { double d = fabs(lines[i].m - lines[j].m); if (d == 3 || d > 4) return; }
  if (sx::Tier() ? sx::Pick("features asked for", 0, 1) : forests == 2) { std::set<WordId> fs; ex.CountWeights(fs); sx::Assert(fs.count(1) == 1, "features of the forest are counted"); ex.FindActiveFeatures(); }
  ConvexHull h = ex.CalculateConvexHull(unit(1), unit(2)); shape(h);
  double t = sx::Fix("step", sx::Q(-64, -512), sx::Q(64, 512), sx::Q(2, 3)); int s = segAt(h, t);
  if (s >= 0) {
    bool best = false; double v = h[s].second->GetVals()[0] / mult; sx::Assert(h[s].second->GetVals()[1] == mult, "statistics are scaled by the multiplier");
    for (size_t k = 0; k < lines.size(); k++) if (valueOf(lines[k].words) == v) { bool top = true; for (size_t i = 0; i < lines.size(); i++) top = sx::And(top, lines[k].b + lines[k].m * t >= lines[i].b + lines[i].m * t); best = sx::Or(best, top); }
    sx::Assert(best, "at every step the envelope has the translation of a best derivation");
  }
  sx::Reach("end"); if (h.size() > 2) sx::Reach("three");
}
// @reach forest three
struct Cand { double m, b, e; };
typedef std::vector<std::vector<Cand> > Set;
// whether some choice of best candidates at a step has a total evaluation in [lo, hi]; no branching on symbolic values
static bool someAt(const Set &s, double t, double lo, double hi) {
  bool top0[2][4];
  for (size_t x = 0; x < s.size(); x++) for (size_t i = 0; i < s[x].size(); i++) { bool b = true; for (size_t j = 0; j < s[x].size(); j++) b = sx::And(b, s[x][i].b + s[x][i].m * t >= s[x][j].b + s[x][j].m * t); top0[x][i] = b; }
  bool r = false; for (size_t i = 0; i < s[0].size(); i++) for (size_t j = 0; j < s[1].size(); j++) { double e = (s[0][i].e + s[1][j].e) / 2; if (e >= lo - 1e-9 && e <= hi + 1e-9) r = sx::Or(r, sx::And(top0[0][i], top0[1][j])); }
  return r;
}
SX_HARNESS(search) {
  int n = sx::Q(2, 3); Set set(2); std::vector<boost::shared_ptr<TuningExample> > ex;
  for (int x = 0; x < 2; x++) { TuningExampleNbest *e = new TuningExampleNbest; ex.push_back(boost::shared_ptr<TuningExample>(e)); int k = x || sx::Tier() ? n : 3; for (int i = 0; i < k; i++) { Cand c; c.m = x && i == 0 && !sx::Tier() ? 0 : sx::Pick(nm("slope", x, i), !sx::Tier() && (x || i == 0) ? 0 : -1, 1); c.b = sx::Fix(nm("score", x, i), sx::Q(-4, -8), sx::Q(4, 8), sx::Q(0, 1)); if (!sx::Tier() && i == 0) c.b = x; c.e = (i + 2 * x) % 3 == 0 ? 1 : sx::Tier() ? sx::Pick(nm("evaluation", x, i), 0, 2) : 2 * sx::Pick(nm("evaluation", x, i), 0, 1); set[x].push_back(c); e->AddHypothesis(two(c.b, c.m), EvalStatsPtr(new EvalStatsAverage(c.e, 1))); } }
  bool ranged = sx::Pick("range", 0, 1); double lo = -1.5, hi = 2; LineSearchResult r = ranged ? TuneMert::LineSearch(unit(1), unit(2), ex, RealSpan(lo, hi)) : TuneMert::LineSearch(unit(1), unit(2), ex);
  if (ranged) sx::Assert(sx::And(r.pos >= lo, r.pos <= hi), "the step stays in the range");
  sx::Assert(sx::And(r.pos > -64, r.pos < 64), "the step is of the order of the scores");
  double after = r.after->ConvertToScore(), before = r.before->ConvertToScore();
  sx::Assert(someAt(set, r.pos, after, after), "the score reported is that of the outputs at the step");
  if (ranged) sx::Assert(sx::Or(sx::And(r.pos > lo, r.pos < hi), sx::Or(sx::And(r.pos <= lo, someAt(set, lo + 0.0009765625, after, after)), sx::And(r.pos >= hi, someAt(set, hi - 0.0009765625, after, after)))), "the score reported is attained inside the range");
  sx::Assert(someAt(set, 0, before, before) && fabs(r.gain - (after - before)) < 1e-9, "the score before is that of step zero");
  double t = sx::Fix("step", sx::Q(-32, -256), sx::Q(32, 256), sx::Q(2, 3)); if (ranged) sx::Assume(sx::And(t > lo, t < hi)); sx::Assert(someAt(set, t, -100, after), "no step has a better score"); sx::Reach("end");
}
SX_HARNESS(tuning) {
  TuneMert tune; int n = sx::Q(2, 3); std::vector<std::vector<SparseVector> > fs(2); std::vector<std::vector<double> > ev(2);
  for (int x = 0; x < 2; x++) { TuningExampleNbest *e = new TuningExampleNbest; for (int i = 0; i < n + (x == 0 && !sx::Tier()); i++) { double f1 = sx::Pick(nm("first", x, i), 0, 2), f2 = i == 0 ? x : sx::Pick(nm("second", x, i), 0, sx::Q(1, 2)); fs[x].push_back(two(f1, f2)); ev[x].push_back(i == 0 ? x : sx::Pick(nm("evaluation", x, i), x, 1 + x)); e->AddHypothesis(fs[x][i], EvalStatsPtr(new EvalStatsAverage(ev[x][i], 1))); } tune.AddExample(boost::shared_ptr<TuningExample>(e)); }
  SparseMap w; int w0 = sx::Pick("weight", 0, 2); if (w0) { w[1] = w0 == 1 ? 1 : -1; w[2] = 1; } SparseMap w1 = w; tune.Init(w); double got = tune.RunTuning(w);
  double lo[2] = {0, 0}, hi[2] = {0, 0}; for (int k = 0; k < 2; k++) for (int x = 0; x < 2; x++) { double top = -1e9, a = 0, z = 0; SparseMap &ww = k ? w : w1; for (size_t i = 0; i < fs[x].size(); i++) top = std::max(top, (double)(ww * fs[x][i])); bool first = true; for (size_t i = 0; i < fs[x].size(); i++) if (ww * fs[x][i] >= top - 1e-9) { if (first || ev[x][i] < a) a = ev[x][i]; if (first || ev[x][i] > z) z = ev[x][i]; first = false; } lo[k] += a / 2; hi[k] += z / 2; }
  sx::Assert(lo[1] <= got + 1e-6 && got <= hi[1] + 1e-6, "the score returned is that of the weights returned"); sx::Assert(got >= lo[0] - 1e-6, "tuning never loses against the starting weights");
  double norm = 0; for (SparseMap::const_iterator i = w.begin(); i != w.end(); ++i) norm += fabs(i->second); sx::Assert(norm == 0 || fabs(norm - 1) < 1e-9, "weights are normalised"); sx::Assert(w.find(tune.GetScaleId()) == w.end(), "no scale is left in the weights");
  // steps along each weight (ties count in favour of the result: positions are rounded)
  for (int f = 1; f <= 2; f++) for (int k = -12; k <= 12; k++) { SparseMap ww = w; ww[f] += k / 7.0; double l = 0; for (int x = 0; x < 2; x++) { double top = -1e9, a = 1e9; for (size_t i = 0; i < fs[x].size(); i++) top = std::max(top, (double)(ww * fs[x][i])); for (size_t i = 0; i < fs[x].size(); i++) if (ww * fs[x][i] >= top - 1e-9) a = std::min(a, ev[x][i]); l += a / 2; } sx::Assert(l <= got + 1e-4, "no single weight gives a better score"); }
  sx::Reach("end");
}
SX_HARNESS(range) {
  static const double G[] = {0, 0.5, -0.5, 1, -1, 2, -2}; TuneMert tune; SparseMap w, g; double wv[2], gv[2]; double lo = -2, hi = 3;
  for (int i = 0; i < 2; i++) { gv[i] = G[sx::Pick(nm("gradient", i), 0, 6)]; g[i + 1] = gv[i]; bool set = sx::Pick(nm("set", i), 0, 1); wv[i] = set ? sx::Fix(nm("weight", i), -4, 6, 1) : 0; if (set) w[i + 1] = wv[i]; }
  std::pair<Real, Real> r = tune.FindGradientRange(w, g, std::make_pair(lo, hi)); double t = sx::Fix("step", -256, 256, 3); bool ok = true; for (int i = 0; i < 2; i++) if (gv[i] != 0) ok = sx::And(ok, sx::And(wv[i] + t * gv[i] >= lo, wv[i] + t * gv[i] <= hi));
  bool in = sx::And(t >= r.first, t <= r.second); sx::Assert(ok == in, "the range has the steps that keep all weights in their range");
  tune.SetRange(1, lo, hi); r = tune.FindGradientRange(w, 1); in = sx::And(t >= r.first, t <= r.second); sx::Assert(in == sx::And(wv[0] + t >= lo, wv[0] + t <= hi), "a single weight stays in its own range");
  r = tune.FindGradientRange(w, 2); in = sx::And(t >= r.first, t <= r.second); sx::Assert(in, "weights without a range may take any step"); sx::Reach("end");
}
