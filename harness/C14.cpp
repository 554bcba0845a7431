// @sources lib/eval-measure.cc lib/eval-measure-bleu.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @cut lm::|util::|HyperGraph|HyperPath|LMComposer|LMFunc|travatar::Weights|MapEnumerateVocab
// @bounds stats: every reference and hypothesis of 0..4 words over 3 (thorough: 5 words over 4) word types, n-gram order 3
// @bounds score: every pair of sentences of 0..3 words, 5 together, over 2 word types (thorough 4 words each), order 1..3, smoothing 0/1, f-measure weight 1/0.5/0.3, geometric or arithmetic mean, PINC inversion, brevity penalty on or off, single sentence and the sum of two
// @bounds cached: 2 (thorough 3) sentence pairs drawn from two references and two hypotheses of 2 words (quick: one of each fixed), with and without cache ids, in every order
// @harness stats quick=20 thorough=300
// @harness score quick=15 thorough=300
// @harness cached quick=10 thorough=100
#include "words.h"
#include <travatar/eval-measure-bleu.h>
#include <cmath>
using namespace travatar;
SX_HARNESS(stats) {
  int L = sx::Q(4, 5), W = sx::Q(2, 3), N = 3;
  Sent ref = sent("ref", sx::Pick("reflen", 0, L), 0, W), sys = sent("sys", sx::Pick("syslen", 0, L), 0, W);
  EvalMeasureBleu m(N); EvalStatsPtr st = ((const EvalMeasureBleu &)m).CalculateStats(ref, sys);
  const std::vector<EvalStatsDataType> &v = st->GetVals();
  sx::Assert((int)v.size() == 3 * N, "three numbers per n-gram order");
  for (int n = 1; n <= N; n++) {
    sx::Assert(v[3 * n - 3] == clipped(ref, sys, n), "matches are the clipped n-gram matches");
    sx::Assert(v[3 * n - 2] == std::max((int)sys.size() - n + 1, 0), "the number of hypothesis n-grams");
    sx::Assert(v[3 * n - 1] == std::max((int)ref.size() - n + 1, 0), "the number of reference n-grams");
  }
  sx::Reach("end");
}
static bool near(double a, double b) { double d = a - b; if (d < 0) d = -d; return d <= 1e-9; }
SX_HARNESS(score) {
  int L = sx::Q(3, 4), N = sx::Pick("order", 1, 3);
  static const double pw[] = {1, 0.5, 0.3};
  double smooth = sx::Pick("smooth", 0, 1), prec = pw[sx::Pick("prec", 0, 2)]; bool arith = sx::Pick("mean", 0, 1), inv = sx::Pick("inverse", 0, 1), brev = sx::Pick("brevity", 0, 1);
  int two = sx::Pick("sentences", 1, 2);
  EvalMeasureBleu m(N, smooth, CORPUS, prec, arith ? ARITHMETIC : GEOMETRIC, inv, brev);
  std::vector<double> c(3 * N, 0.0); EvalStatsPtr sum; bool identical = true, onlyOne = true;
  for (int k = 0; k < two; k++) {
    // the second sentence is one fixed pair
    Sent ref, sys;
    if (k == 0) { int rl = sx::Pick("reflen", 0, L); ref = sent("ref", rl, 0, 1); sys = sent("sys", sx::Pick("syslen", 0, sx::Tier() ? L : std::min(L, 5 - rl)), 0, 1); for (size_t i = 0; i < ref.size(); i++) ref[i] = sx::Conc(ref[i]); for (size_t i = 0; i < sys.size(); i++) sys[i] = sx::Conc(sys[i]); }
    else { ref.push_back(0); ref.push_back(1); ref.push_back(1); sys.push_back(1); sys.push_back(1); sys.push_back(0); }
    identical &= ref == sys;
    if (two == 1) {
      EvalMeasureBleu ms(N, smooth, SENTENCE, prec, arith ? ARITHMETIC : GEOMETRIC, inv, brev);
      EvalStatsPtr av = ((const EvalMeasureBleu &)ms).CalculateStats(ref, sys), st = ((const EvalMeasureBleu &)m).CalculateStats(ref, sys);
      sx::Assert(av->GetVals().size() == 2 && av->GetVals()[0] == st->ConvertToScore() && av->GetVals()[1] == 1, "sentence scope averages the sentence scores");
      sx::Reach("single");
    }
    EvalStatsPtr st = ((const EvalMeasureBleu &)m).CalculateStats(ref, sys);
    for (int n = 1; n <= N; n++) { c[3 * n - 3] += clipped(ref, sys, n); c[3 * n - 2] += std::max((int)sys.size() - n + 1, 0); c[3 * n - 1] += std::max((int)ref.size() - n + 1, 0); }
    if (sum) sum->PlusEquals(*st); else sum = st;
  }
  double got = -1; bool ok = true; SX_NOTHROW(got = sum->ConvertToScore(), ok);
  sx::Assert(ok, "the score of any statistics can be computed");
  double prod = 1, add = 0;
  for (int n = 0; n < N; n++) {
    double s = n ? smooth : 0, mat = c[3 * n] + s, sy = c[3 * n + 1] + s, rf = c[3 * n + 2] + s, f = sy == 0 ? 0 : mat / (prec * sy + (1 - prec) * rf);
    if (f > 1) f = 1;
    if (inv) f = 1 - f;
    prod *= f; add += f;
  }
  double base = arith ? add / N : std::pow(prod, 1.0 / N), bp = 1;
  if (brev && c[1] < c[2]) bp = c[1] == 0 ? 0 : std::exp(1 - c[2] / c[1]);
  sx::Assert(near(got, base * bp), "the score is the mean n-gram precision times the brevity penalty");
  sx::Assert(got >= 0 && got <= 1 + 1e-12, "the score lies in [0,1]");
  if (identical && !inv && c[3 * N - 2] > 0) sx::Assert(near(got, 1), "identical sentences score 1");
  sx::Reach("end");
}
// @reach score single
SX_HARNESS(cached) {
  Sent s[4]; for (int i = 0; i < 4; i++) s[i] = sent(i < 2 ? (i ? "refB" : "refA") : (i == 2 ? "sysA" : "sysB"), 2, 0, 1);
  if (!sx::Tier()) { s[0][0] = s[2][1] = 0; s[0][1] = s[2][0] = 1; }
  EvalMeasureBleu m(2, 1, sx::Pick("scope", 0, 1) ? SENTENCE : CORPUS), plain(m);
  for (int k = 0; k < sx::Q(2, 3); k++) {
    int r = sx::Pick(nm("ref", k), 0, 1), y = sx::Pick(nm("sys", k), 0, 1), mode = sx::Pick(nm("mode", k), 0, 2);
    if (sx::Pick(nm("clear", k), 0, k ? 1 : 0)) m.ClearCache();
    EvalStatsPtr a = m.CalculateStats(s[r], s[2 + y], mode & 1 ? r : INT_MAX, mode & 2 || mode == 1 ? 10 + y : INT_MAX);
    EvalStatsPtr b = ((const EvalMeasureBleu &)plain).CalculateStats(s[r], s[2 + y]);
    sx::Assert(a->Equals(*b), "cached statistics equal the ones computed afresh");
  }
  sx::Reach("end");
}
