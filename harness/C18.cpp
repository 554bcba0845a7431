// @sources lib/weights.cc lib/weights-perceptron.cc lib/weights-average-perceptron.cc lib/weights-pairwise.cc lib/weights-online-pro.cc lib/weights-adagrad.cc lib/eval-measure.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc lib/translation-rule.cc
// @cut lm::|util::|LMComposer|LMFunc|MapEnumerateVocab
// @bounds perceptron: every history of 3 (thorough 4) updates of 2 features with solver-chosen differences and initial weight (quick: of the first feature) (fixed point, two binary digits), violated or not, with and without L1 (0.25), rate 1 or 0.5, with and without a range, looks in between or not
// @bounds average, adagrad: every history of 3 (thorough 4) updates of 2 features with differences from {-1, 0.5, 2} or absent, violated or not, looks or requests of the final weights in between or not, with and without a range (and for adagrad L1)
// @bounds choose: every list of up to 3 candidates with symbolic model scores and evaluations, margin 0, 1 or 2
// @bounds sentences: n-best lists of up to 3 hypotheses of one or two edges, up to 2 references
// @bounds pro: sampled updates for every list of 2..3 candidates with evaluations from {0, 0.25, 1}, 3 seeds
// @stub time() returns a chosen seed; the evaluation measure counts matching words
// @assume initial weights lie in their ranges and ranges contain zero
// @harness perceptron quick=25 thorough=300
// @harness average quick=40 thorough=300
// @harness adagrad quick=20 thorough=300
// @harness choose quick=10 thorough=60
// @harness sentences quick=10 thorough=60
// @harness pro quick=10 thorough=60
#include "hg.h"
#include <time.h>
#include <math.h>
#include <travatar/weights.h>
#include <travatar/weights-perceptron.h>
#include <travatar/weights-average-perceptron.h>
#include <travatar/weights-delayed-perceptron.h>
#include <travatar/weights-adagrad.h>
#include <travatar/weights-online-pro.h>
#include <travatar/eval-measure.h>
static time_t g_now = 0;
extern "C" time_t time(time_t *) noexcept(true) { return g_now; }
static double clampTo(double v, bool on) { if (!on) return v; if (v < -1) return -1; if (v > 1) return 1; return v; }
static double shrink(double v, double l) { return v > 0 ? (v > l ? v - l : 0) : (v < -l ? v + l : 0); }
static SparseVector vec(int n, const double *v) { std::vector<SparsePair> p; for (int i = 0; i < n; i++) p.push_back(SparsePair(i + 1, v[i])); return SparseVector(p); }
static double mapAt(const SparseMap &m, int k) { SparseMap::const_iterator i = m.find(k); return i == m.end() ? 0.0 : (double)i->second; }
static bool near(double a, double b) { return fabs(a - b) < 1e-9; }
SX_HARNESS(perceptron) {
  const int F = 2, T = sx::Q(3, 4); int delayed = sx::Pick("delayed", 0, 1); bool l1 = !delayed && sx::Pick("L1", 0, 1), range = !delayed && (sx::Tier() || !l1) && sx::Pick("range", 0, 1); double rate = !delayed && !l1 && (sx::Tier() ? sx::Pick("slow", 0, 1) : range) ? 0.5 : 1, reg = l1 ? 0.25 : 0;
  double ref[F]; SparseMap init; for (int f = 0; f < F; f++) { bool set = !delayed && (sx::Tier() || f == 0) && sx::Pick(nm("initial weight", f), 0, 1); ref[f] = set && !delayed ? sx::Fix(nm("initial", f), -4, 4, 2) : 0; if (set && !delayed) init[f + 1] = ref[f]; }
  boost::shared_ptr<WeightsPairwise> w; if (delayed) w.reset(new WeightsDelayedPerceptron(init)); else { WeightsPerceptron *p = new WeightsPerceptron(init); if (l1) p->SetL1Coeff(reg); if (rate != 1) p->SetLearningRate(rate); w.reset(p); }
  if (range) w->SetRange(1, -1, 1);
  for (int t = 0; t < T; t++) {
    int what = sx::Pick(nm("update", t), 0, sx::Tier() || t == 1 ? 2 : 1);   // satisfied, violated, violated in the second feature too
    double o[F], s[F]; for (int f = 0; f < F; f++) { bool on = what && (f == 0 || what == 2); o[f] = on ? (f && !sx::Tier() ? 0.5 + t : sx::Fix(nm("better", t, f), -6, 6, 2)) : 0; s[f] = on && f ? 1 : 0; }
    double os = sx::Fix(nm("better score", t), -2, 2, 0), ss = sx::Fix(nm("worse score", t), -2, 2, 0); if (what) sx::Assume(ss >= os); else sx::Assume(ss < os);
    if (!what) { o[0] = 3; }
    w->Update(vec(F, o), os, 1, vec(F, s), ss, 0);
    for (int f = 0; f < F; f++) { if (what) ref[f] = clampTo(ref[f] + (o[f] - s[f]) * rate, range && f == 0); ref[f] = clampTo(shrink(ref[f], reg), range && f == 0); }
    int look = delayed || t + 1 == T ? 0 : sx::Pick(nm("look", t), 0, sx::Tier() || t == 1 ? 2 : 1);
    if (look == 1) sx::Assert(near(w->GetCurrent(1), ref[0]), "the weight looked at follows the update rule");
    if (look == 2) { const SparseMap &m = w->GetFinal(); for (int f = 0; f < F; f++) sx::Assert(near(mapAt(m, f + 1), ref[f]), "final weights requested early follow the update rule"); }
  }
  bool fin = delayed || sx::Pick("final", 0, 1);
  if (fin) { const SparseMap &m = w->GetFinal(); for (int f = 0; f < F; f++) sx::Assert(near(mapAt(m, f + 1), ref[f]), "final weights follow the update rule"); }
  else for (int f = 0; f < F; f++) sx::Assert(near(w->GetCurrent(f + 1), ref[f]), "weights follow the update rule");
  sx::Reach("end"); if (l1) sx::Reach("regularised"); if (range) sx::Reach("range"); if (delayed) sx::Reach("delayed");
}
// @reach perceptron regularised
// @reach perceptron range
// @reach perceptron delayed
static const double D[] = {0, -1, 0.5, 2};
SX_HARNESS(average) {
  const int F = 2, T = sx::Q(3, 4); bool range = sx::Pick("range", 0, 1); SparseMap init; double cur[F], sum[F]; int looked = 0;
  for (int f = 0; f < F; f++) { cur[f] = sx::Pick(nm("initial", f), 0, 1) ? 0.5 : 0; sum[f] = 0; if (cur[f] != 0) init[f + 1] = cur[f]; }
  WeightsAveragePerceptron w(init); if (range) w.SetRange(1, -1, 1);
  for (int t = 0; t < T; t++) {
    int what = sx::Pick(nm("update", t), 0, 1); double o[F], s[F] = {0, 0}; o[0] = D[what ? sx::Pick(nm("first", t), 0, 3) : 1]; o[1] = D[what && t != 1 ? sx::Pick(nm("second", t), 0, 1) : 0]; if (t == 2) std::swap(o[1], s[1]);
    w.Update(vec(F, o), 0, what ? 1 : t == 1 ? 0.25 : 0.5, vec(F, s), 1, 0.5); // no update when the evaluations are equal or the wrong way round
    for (int f = 0; f < F; f++) { if (what) cur[f] = clampTo(cur[f] + (o[f] - s[f]), range && f == 0); sum[f] += cur[f]; }
    int look = looked > 1 ? 0 : sx::Pick(nm("look", t), 0, 2); looked += look > 0;
    if (look == 1) sx::Assert(near(w.GetCurrent(1), cur[0]), "the current weight is the sum of the differences");
    if (look == 2) { const SparseMap &m = w.GetFinal(); for (int f = 0; f < F; f++) sx::Assert(near(mapAt(m, f + 1), sum[f] / (t + 1)), "the final weights requested early are averages over all steps so far"); }
  }
  const SparseMap &m = w.GetFinal(); for (int f = 0; f < F; f++) sx::Assert(near(mapAt(m, f + 1), sum[f] / T), "the final weights are averages over all steps"); sx::Reach("end");
}
SX_HARNESS(adagrad) {
  const int F = 2, T = sx::Q(3, 4); bool range = sx::Pick("range", 0, 1), l1 = sx::Pick("L1", 0, 1); double rate = (sx::Tier() ? sx::Pick("slow", 0, 1) : range) ? 0.5 : 1, reg = l1 ? 0.25 : 0, margin = sx::Tier() ? sx::Pick("margin", 0, 1) : l1, cur[F], sq[F]; SparseMap init;
  for (int f = 0; f < F; f++) { cur[f] = f && sx::Pick(nm("initial", f), 0, 1) ? 0.5 : 0; sq[f] = 0; if (cur[f] != 0) init[f + 1] = cur[f]; }
  WeightsAdagrad w(init); w.SetLearningRate(rate); w.SetMarginScale(margin); if (l1) w.SetL1Coeff(reg); if (range) w.SetRange(1, -1, 1);
  for (int t = 0; t < T; t++) {
    int what = sx::Pick(nm("update", t), 0, 2); double o[F], s[F] = {0, 0}; o[0] = D[what ? sx::Pick(nm("first", t), sx::Q(1, 0), 3) : 1]; o[1] = D[what && t == 1 ? sx::Pick(nm("second", t), 0, 1) : 0];
    double os = 2, ev = 0.5, ss = what == 0 ? (margin ? 1.25 : 1.75) : what == 1 ? 2 : margin ? 1.5 : 2.25;   // satisfied, violated, violated by the margin
    w.Update(vec(F, o), os, ev, vec(F, s), ss, 0);
    for (int f = 0; f < F; f++) {
      double d = o[f] - s[f]; cur[f] = clampTo(shrink(cur[f], reg), range && f == 0);
      if (what && d != 0) { sq[f] += d * d; cur[f] = clampTo(cur[f] + rate * d / sqrt(sq[f]), range && f == 0); }
    }
    int look = t + 1 < T ? sx::Pick(nm("look", t), 0, 2) : 0;
    if (look == 1) sx::Assert(near(w.GetCurrent(1), cur[0]), "the weight looked at has its closed form");
    if (look == 2) { const SparseMap &m = w.GetFinal(); for (int f = 0; f < F; f++) sx::Assert(near(mapAt(m, f + 1), cur[f]), "final weights requested early have their closed form"); }
  }
  if (sx::Pick("final", 0, 1)) { const SparseMap &m = w.GetFinal(); for (int f = 0; f < F; f++) sx::Assert(near(mapAt(m, f + 1), cur[f]), "final weights have their closed form"); }
  else for (int f = 0; f < F; f++) sx::Assert(near(w.GetCurrent(f + 1), cur[f]), "weights have their closed form");
  sx::Reach("end");
}
// records the updates asked for
template <class B> struct Record : public B {
  struct Up { double os, oe, ss, se; SparseVector o, s; }; std::vector<Up> ups;
  virtual void Update(const SparseVector &o, Real os, Real oe, const SparseVector &s, Real ss, Real se) { Up u; u.os = os; u.oe = oe; u.ss = ss; u.se = se; u.o = o; u.s = s; ups.push_back(u); }
};
static SparseVector one(int id) { std::vector<SparsePair> p(1, SparsePair(id + 1, 1.0)); return SparseVector(p); }
static int idOf(const SparseVector &v) { return v.GetImpl().empty() ? -1 : v.GetImpl()[0].first - 1; }
SX_HARNESS(choose) {
  int n = sx::Pick("candidates", 1, 3); double margin = sx::Pick("margin", 0, 2); Record<WeightsPerceptron> w; w.SetMarginScale(margin);
  std::vector<std::pair<Real, Real> > sc(n); std::vector<SparseVector> fs; std::vector<SparseVector *> fp; for (int i = 0; i < n; i++) { sc[i].first = sx::Fix(nm("score", i), -64, 64, 2); sc[i].second = sx::Fix(nm("evaluation", i), 0, 16, 4); fs.push_back(one(i)); }
  for (int i = 0; i < n; i++) fp.push_back(&fs[i]);
  w.AdjustNbest(sc, fp); sx::Assert(w.ups.size() == 1, "one update per list"); int o = idOf(w.ups[0].o), s = idOf(w.ups[0].s); sx::Assert(o >= 0 && s >= 0, "the candidates compared are of the list");
  bool best = true, worst = true; for (int i = 0; i < n; i++) { best = sx::And(best, sc[o].second >= sc[i].second); worst = sx::And(worst, sc[s].first - sc[s].second * margin >= sc[i].first - sc[i].second * margin); }
  sx::Assert(best, "the better candidate has the best evaluation"); sx::Assert(worst, "the worse candidate has the best margin-adjusted model score");
  sx::Assert(w.ups[0].os == sc[o].first && w.ups[0].oe == sc[o].second && w.ups[0].ss == sc[s].first && w.ups[0].se == sc[s].second, "scores belong to the candidates"); sx::Reach("end");
}
// fraction of positions with the reference word
struct Match : public EvalMeasure {
  virtual EvalStatsPtr CalculateStats(const Sentence &ref, const Sentence &sys) const { int c = 0; for (size_t i = 0; i < ref.size(); i++) c += i < sys.size() && ref[i] == sys[i]; return EvalStatsPtr(new EvalStatsAverage(c, ref.size())); }
  virtual EvalStatsPtr ReadStats(const std::string &) { return EvalStatsPtr(); }
};
struct Gather : public Weights { std::vector<std::pair<Real, Real> > sc; std::vector<SparseVector> fs; virtual void AdjustNbest(const std::vector<std::pair<Real, Real> > &s, const std::vector<SparseVector *> &f) { sc = s; for (size_t i = 0; i < f.size(); i++) fs.push_back(*f[i]); } };
SX_HARNESS(sentences) {
  int n = sx::Pick("hypotheses", 1, 3), r = sx::Pick("references", 1, 2), which = sx::Pick("learner", 0, 1); HyperGraph g; NbestList nb; std::vector<Sentence> refs; std::vector<double> ev, sc; Match m;
  Sentence src(2, 7); for (int i = 0; i < r; i++) { Sentence x(2); x[0] = 5 + sx::Pick(nm("reference", i), 0, 1); x[1] = 6; refs.push_back(x); }
  for (int i = 0; i < n; i++) {
    HyperNode *h = new HyperNode, *t = new HyperNode; g.AddNode(h); g.AddNode(t); boost::shared_ptr<HyperPath> p(new HyperPath); int two = sx::Pick(nm("edges", i), 0, 1); Sentence words(2); words[0] = 5 + sx::Pick(nm("word", i, 0), 0, 2); words[1] = 5 + sx::Pick(nm("word", i, 1), 0, 1);
    std::vector<HyperNode *> tails; if (two) tails.push_back(t); HyperEdge *e = mkEdge(g, h, tails, 0); CfgDataVector d(1); d[0].words = words; if (two) d[0].words[1] = -1; e->SetTrgData(d); e->SetFeatures(one(i)); p->AddEdge(e);
    if (two) { HyperEdge *f = mkEdge(g, t, std::vector<HyperNode *>(), 0); CfgDataVector c(1); c[0].words = Sentence(1, words[1]); f->SetTrgData(c); f->SetFeatures(one(i)); p->AddEdge(f); }
    double s = 3 - i * 0.5; p->SetScore(s); sc.push_back(s); CfgDataVector td(1); td[0].words = words; p->SetTrgData(td); nb.push_back(p);
    double best = -1; for (int k = 0; k < r; k++) { int c = (refs[k][0] == words[0]) + (refs[k][1] == words[1]); if (c / 2.0 > best) best = c / 2.0; } ev.push_back(best);
  }
  if (which == 0) {
    Gather w; w.Adjust(src, refs, m, nb); sx::Assert((int)w.sc.size() == n && (int)w.fs.size() == n, "every hypothesis is scored");
    for (int i = 0; i < n; i++) { sx::Assert(w.sc[i].first == sc[i], "model scores are those of the hypotheses"); sx::Assert(near(w.sc[i].second, ev[i]), "evaluations compare the hypothesis with its best reference"); sx::Assert(w.fs[i] == nb[i]->CalcFeatures(), "features are those of the hypothesis"); }
  } else {
    Record<WeightsPairwise> w; w.Adjust(src, refs, m, nb); sx::Assert(w.ups.size() == 1, "one update per list"); int o = idOf(w.ups[0].o); double top = *std::max_element(ev.begin(), ev.end());
    sx::Assert(o >= 0 && near(ev[o], top) && near(w.ups[0].oe, top) && w.ups[0].os == sc[o], "the better hypothesis has the best evaluation"); sx::Assert(idOf(w.ups[0].s) == 0 && w.ups[0].ss == sc[0] && near(w.ups[0].se, ev[0]), "the other one is the first of the list");
  }
  sx::Reach("end");
}
SX_HARNESS(pro) {
  static const double E[] = {0, 0.03, 0.25, 1}; g_now = sx::Pick("seed", 0, 2); int n = sx::Pick("candidates", 2, 3); std::vector<std::pair<Real, Real> > sc(n); std::vector<SparseVector> fs; std::vector<SparseVector *> fp; double alpha = sx::Pick("scale", 1, 2);
  for (int i = 0; i < n; i++) { sc[i].first = i; sc[i].second = E[sx::Pick(nm("evaluation", i), 0, 3)]; fs.push_back(one(i)); } for (int i = 0; i < n; i++) fp.push_back(&fs[i]);
  Record<Weights> *rec = new Record<Weights>; boost::shared_ptr<Weights> rp(rec); WeightsOnlinePro w(rp); w.SetAlphaScale(alpha); w.AdjustNbest(sc, fp);
  double last = 2; sx::Assert(rec->ups.size() <= 50, "at most 50 pairs are used");
  for (size_t i = 0; i < rec->ups.size(); i++) {
    int o = idOf(rec->ups[i].o), s = idOf(rec->ups[i].s); double d = sc[o].second - sc[s].second;
    sx::Assert(d * alpha > 0.05, "only pairs whose evaluations differ enough are used, the better one first"); sx::Assert(d <= last, "pairs come in order of decreasing difference"); last = d;
    sx::Assert(rec->ups[i].os == sc[o].first && rec->ups[i].ss == sc[s].first && rec->ups[i].oe > rec->ups[i].se, "scores belong to the candidates");
  }
  double widest = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) widest = std::max(widest, (double)(sc[i].second - sc[j].second)); if (widest >= 1) sx::Assert(rec->ups.size() == 50, "clear pairs are found"); sx::Reach("end");
}
