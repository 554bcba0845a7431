// @sources lib/eval-measure.cc lib/eval-measure-wer.cc lib/eval-measure-ter.cc lib/eval-measure-ribes.cc lib/eval-measure-nist.cc lib/eval-measure-zeroone.cc tercpp/tercalc.cpp tercpp/hashMap.cpp tercpp/hashMapInfos.cpp tercpp/terAlignment.cpp tercpp/terShift.cpp tercpp/tools.cpp tercpp/infosHasher.cpp tercpp/stringHasher.cpp lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @cut lm::|util::|HyperGraph|HyperPath|LMComposer|LMFunc|travatar::Weights|MapEnumerateVocab
// @bounds wer: every reference and hypothesis of 0..5 (thorough 6) words over as many word types as fit
// @bounds ribes: every reference and hypothesis of 0..5 words over 3 word types (thorough 6), against an independent implementation of RIBES 1.02.3
// @bounds ter: every reference and hypothesis of 0..5 words over 3 word types (thorough 6)
// @bounds nist: every reference and hypothesis of 0..4 (thorough 5) words over 2 word types plus one other fixed reference, order 3
// @harness wer quick=15 thorough=300
// @harness ribes quick=15 thorough=300
// @harness ter quick=15 thorough=300
// @harness nist quick=10 thorough=200
#include "words.h"
#include <travatar/eval-measure-wer.h>
#include <travatar/eval-measure-ter.h>
#include <travatar/eval-measure-ribes.h>
#include <travatar/eval-measure-nist.h>
#include <travatar/eval-measure-zeroone.h>
#include <cmath>
using namespace travatar;
// the least cost over all monotone alignments of the two sentences: every unmatched word costs one, every matched pair of different words one
static int lev(const Sent &a, const Sent &b, int i = 0, int j = 0) {
  int n = a.size() - i, m = b.size() - j;
  if (!n || !m) return n + m;
  int best = n + m;                       // nothing more is matched
  for (int x = i; x < (int)a.size(); x++) for (int y = j; y < (int)b.size(); y++) { int c = (x - i) + (y - j) + (a[x] == b[y] ? 0 : 1) + lev(a, b, x + 1, y + 1); best = c < best ? c : best; }
  return best;
}
static double abs_(double x) { return x < 0 ? -x : x; }
SX_HARNESS(wer) {
  int L = sx::Q(5, 6), n = sx::Pick("reflen", 0, L), m = sx::Pick("syslen", 0, L);
  Sent ref = sent("ref", n, 0, n + m), sys = sent("sys", m, 0, n + m);
  bool rev = sx::Pick("reverse", 0, 1);
  EvalMeasureWer wer(rev); EvalStatsPtr s = wer.CalculateStats(ref, sys);
  int d = lev(ref, sys);
  sx::Assert(s->GetVals()[0] == d, "word error rate counts the Levenshtein distance"); sx::Assert(s->GetVals()[1] == n, "word error rate is relative to the reference length");
  bool id = n == m; for (int i = 0; i < n && i < m; i++) id = sx::And(id, ref[i] == sys[i]);
  EvalMeasureZeroOne z; EvalStatsPtr t = z.CalculateStats(ref, sys);
  sx::Assert((t->GetVals()[0] == 1) == id, "zero-one counts exact matches"); sx::Assert(t->GetVals()[1] == 1 && (t->GetVals()[0] == 1 || t->GetVals()[0] == 0), "one sentence counts once");
  int cd = sx::Conc(d); double e = n ? cd / (double)n : 0;
  sx::Assert(s->ConvertToScore() == (rev ? 1 - e : e), "the score is distance over length");
  sx::Reach("end");
}
static int cnt(const Sent &g, const Sent &in) { int c = 0; for (size_t i = 0; i + g.size() <= in.size(); i++) c += std::equal(g.begin(), g.end(), in.begin() + i); return c; }
static int find(const Sent &g, const Sent &in) { for (size_t i = 0; i + g.size() <= in.size(); i++) if (std::equal(g.begin(), g.end(), in.begin() + i)) return i; return -1; }
static double ribes(const Sent &ref, const Sent &hyp, double alpha, double beta) {
  int R = ref.size(), H = hyp.size();
  if (!R) return H ? 0 : 1;
  if (!H) return 0;
  double bp = std::min(1.0, std::exp(1.0 - 1.0 * R / H));
  Sent pos;
  for (int i = 0; i < H; i++) {
    Sent u(1, hyp[i]);
    if (!cnt(u, ref)) continue;
    if (cnt(u, ref) == 1 && cnt(u, hyp) == 1) { pos.push_back(find(u, ref)); continue; }
    for (int w = 1; w <= H; w++) {
      if (w <= i) { Sent g(hyp.begin() + i - w, hyp.begin() + i + 1); if (cnt(g, ref) == 1 && cnt(g, hyp) == 1) { pos.push_back(find(g, ref) + w); break; } }
      if (i + w < H) { Sent g(hyp.begin() + i, hyp.begin() + i + w + 1); if (cnt(g, ref) == 1 && cnt(g, hyp) == 1) { pos.push_back(find(g, ref)); break; } }
    }
  }
  int n = pos.size();
  if (n == 1 && R == 1) return std::pow(1.0 / H, alpha) * std::pow(bp, beta);
  if (n < 2) return 0;
  int asc = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) asc += pos[i] < pos[j];
  return asc / (n * (n - 1) / 2.0) * std::pow(1.0 * n / H, alpha) * std::pow(bp, beta);
}
SX_HARNESS(ribes) {
  int L = sx::Q(5, 6), W = sx::Q(3, 3), n = sx::Pick("reflen", 0, L), m = sx::Pick("syslen", 0, L);
  Sent ref, sys;
  // word types are numbered by first occurrence: renaming words changes nothing
  int used = 0;
  for (int i = 0; i < n; i++) { int w = sx::Pick(nm("ref", i), 0, std::min(used, W - 1)); used = std::max(used, w + 1); ref.push_back(100 + w); }
  for (int i = 0; i < m; i++) { int w = sx::Pick(nm("sys", i), 0, std::min(used, W - 1)); used = std::max(used, w + 1); sys.push_back(100 + w); }
  bool other = sx::Pick("other parameters", 0, 1); double al = other ? 1 : 0.25, be = other ? 0.5 : 0.1;
  EvalMeasureRibes r(al, be); EvalStatsPtr s = r.CalculateStats(ref, sys);
  double got = s->ConvertToScore();
  sx::Assert(abs_(got - ribes(ref, sys, al, be)) <= 1e-12, "RIBES is the rank correlation times the precision and length penalties");
  sx::Assert(got >= 0 && got <= 1, "RIBES lies in [0,1]");
  bool dist = true; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) dist &= ref[i] != ref[j];
  if (ref == sys && dist) { sx::Assert(got == 1, "identical sentences without repeated words have RIBES 1"); sx::Reach("identical"); }
  sx::Reach("end");
}
// @reach ribes identical
SX_HARNESS(ter) {
  int L = sx::Q(5, 6), n = sx::Pick("reflen", 0, L), m = sx::Pick("syslen", 0, L);
  Sent ref, sys; int used = 0, W = 3;
  for (int i = 0; i < n; i++) { int w = sx::Pick(nm("ref", i), 0, std::min(used, W - 1)); used = std::max(used, w + 1); ref.push_back(100 + w); }
  for (int i = 0; i < m; i++) { int w = sx::Pick(nm("sys", i), 0, std::min(used, W - 1)); used = std::max(used, w + 1); sys.push_back(100 + w); }
  EvalMeasureTer t(sx::Pick("inverse", 0, 1)); EvalStatsPtr s; bool ok = true; SX_NOTHROW(s = t.CalculateStats(ref, sys), ok);
  sx::Assert(ok, "every sentence pair has a translation error rate");
  double e = s->GetVals()[0]; int d = lev(ref, sys);
  int common = 0; for (int w = 100; w < 104; w++) common += std::min(std::count(ref.begin(), ref.end(), w), std::count(sys.begin(), sys.end(), w));
  sx::Assert(e <= d, "shifts only reduce the number of edits"); sx::Assert(e >= std::max(n, m) - common, "words that have no counterpart cost an edit");
  sx::Assert((e == 0) == (ref == sys), "only identical sentences have no edits"); sx::Assert(s->GetVals()[1] == n, "translation error rate is relative to the reference length");
  if (e < d) sx::Reach("shift");
  sx::Reach("end");
}
// @reach ter shift
SX_HARNESS(nist) {
  int n = sx::Pick("reflen", 0, sx::Q(4, 5)), m = sx::Pick("syslen", 0, sx::Q(4, 5)), N = 3;
  Sent ref, sys, extra; extra.push_back(100); extra.push_back(101); extra.push_back(100); extra.push_back(102);
  for (int i = 0; i < n; i++) ref.push_back(100 + sx::Pick(nm("ref", i), 0, 1));
  for (int i = 0; i < m; i++) sys.push_back(100 + sx::Pick(nm("sys", i), 0, 2));
  std::vector<std::vector<Sentence> > refs(2); refs[0].push_back(ref); refs[1].push_back(extra);
  EvalMeasureNist e(N); e.InitializeWithReferences(refs);
  EvalStatsPtr s = e.CalculateStats(ref, sys); double total = 0;
  for (int k = 1; k <= N; k++) {
    double info = 0;
    std::set<Sent> seen;
    for (int i = 0; i + k <= m; i++) {
      Sent g(sys.begin() + i, sys.begin() + i + k); if (!seen.insert(g).second) continue;
      int c = std::min(cnt(g, sys), cnt(g, ref)); if (!c) continue;
      Sent ctx(g.begin(), g.end() - 1); double den = k == 1 ? n + 4 : cnt(ctx, ref) + cnt(ctx, extra);
      info += c * std::log(den / (cnt(g, ref) + cnt(g, extra))) / std::log(2.0);
    }
    int tot = std::max(m - k + 1, 0);
    sx::Assert(abs_(s->GetVals()[2 * k - 2] - info) <= 1e-9, "matched n-grams are weighted with their information"); sx::Assert(s->GetVals()[2 * k - 1] == tot, "the number of hypothesis n-grams");
    total += tot ? info / tot : 0;
  }
  sx::Assert(s->GetVals()[2 * N] == n, "the last number is the reference length");
  double r = n ? m / (double)n : 1, bp = r >= 1 ? 1 : r <= 0 ? 0 : std::exp(-NIST_BETA_VALUE * std::log(r) * std::log(r));
  double got = s->ConvertToScore();
  sx::Assert(n == 0 ? got == 0 : abs_(got - total * bp) <= 1e-9, "NIST is the mean information times the length penalty"); sx::Assert(got >= 0, "NIST is not negative");
  sx::Reach("end");
}
