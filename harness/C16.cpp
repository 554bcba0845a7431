// @sources lib/eval-measure.cc lib/eval-measure-interp.cc lib/eval-measure-adv-interp.cc lib/eval-measure-bleu.cc lib/eval-measure-wer.cc lib/eval-measure-ter.cc lib/eval-measure-ribes.cc lib/eval-measure-nist.cc lib/eval-measure-zeroone.cc lib/eval-measure-loader.cc lib/math-query.cc tercpp/tercalc.cpp tercpp/hashMap.cpp tercpp/hashMapInfos.cpp tercpp/terAlignment.cpp tercpp/terShift.cpp tercpp/tools.cpp tercpp/infosHasher.cpp tercpp/stringHasher.cpp lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @cut lm::|util::|HyperGraph|HyperPath|LMComposer|LMFunc|travatar::Weights|MapEnumerateVocab
// @bounds algebra: 11 kinds of statistics (average, WER, TER, RIBES, zero-one, BLEU, NIST, and four interpolations of two or three of them, one with coefficients 0, -1/2 and 2), three operands whose coordinates are each any m/4 with |m| <= 64, scale factors m/4 with |m| <= 12
// @bounds equal: the same kinds, two operands that differ in any one coordinate by any m/4, or not at all
// @bounds text: each kind, coordinates from {0, 1, 0.5, 7, 1234567, 1/3, 123.456789, 20000.25}, written and read back through the measure, and the score
// @assume coordinates are exact in binary (multiples of 1/4), so that sums and products by the scale factors are exact
// @harness algebra quick=40 thorough=200
// @harness equal quick=10 thorough=100
// @harness text quick=25 thorough=200
#include "common.h"
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-bleu.h>
#include <travatar/eval-measure-wer.h>
#include <travatar/eval-measure-ter.h>
#include <travatar/eval-measure-ribes.h>
#include <travatar/eval-measure-nist.h>
#include <travatar/eval-measure-zeroone.h>
#include <travatar/eval-measure-interp.h>
#include <travatar/eval-measure-adv-interp.h>
#include <travatar/dict.h>
#include <math.h>
using namespace travatar;
typedef std::vector<double> V;
static const int NK = 11;
static int dims(int kind) { return kind < 5 ? 2 : kind == 5 ? 6 : kind == 6 ? 5 : kind > 8 ? 6 : 8; }
// statistics of the given kind with the given coordinates
static EvalStatsPtr make(int kind, const V &v) {
  if (kind == 0) return EvalStatsPtr(new EvalStatsAverage(v[0], v[1]));
  if (kind == 1) return EvalStatsPtr(new EvalStatsWer(v[0], v[1]));
  if (kind == 2) return EvalStatsPtr(new EvalStatsTer(v[0], v[1], true));
  if (kind == 3) return EvalStatsPtr(new EvalStatsRibes(v[0], v[1]));
  if (kind == 4) return EvalStatsPtr(new EvalStatsZeroOne(v[0], v[1]));
  if (kind == 5) return EvalStatsPtr(new EvalStatsBleu(v));
  if (kind == 6) return EvalStatsPtr(new EvalStatsNist(v));
  if (kind > 8) { // three parts, one with coefficient zero and one with a negative one; or a query with parentheses
    std::vector<EvalStatsPtr> s; s.push_back(make(1, V(v.begin(), v.begin() + 2))); s.push_back(make(4, V(v.begin() + 2, v.begin() + 4))); s.push_back(make(3, V(v.begin() + 4, v.end())));
    if (kind == 9) { static const Real C[] = {0, -0.5, 2}; return EvalStatsPtr(new EvalStatsInterp(s, std::vector<Real>(C, C + 3))); }
    std::vector<WordId> vars; vars.push_back(Dict::WID("E")); vars.push_back(Dict::WID("Z")); vars.push_back(Dict::WID("A")); return EvalStatsPtr(new EvalStatsAdvInterp(s, vars, "A*(2-E-Z)")); }
  std::vector<EvalStatsPtr> s; s.push_back(make(5, V(v.begin(), v.begin() + 6))); s.push_back(make(1, V(v.begin() + 6, v.begin() + 8)));
  if (kind == 7) { std::vector<Real> c; c.push_back(0.5); c.push_back(2); return EvalStatsPtr(new EvalStatsInterp(s, c)); }
  std::vector<WordId> vars; vars.push_back(Dict::WID("A")); vars.push_back(Dict::WID("B"));
  return EvalStatsPtr(new EvalStatsAdvInterp(s, vars, "A-B/4"));
}
static boost::shared_ptr<EvalMeasure> measure(int kind) {
  EvalMeasure *m = kind == 0 ? (EvalMeasure *)new EvalMeasureRibes(std::string("")) : kind == 1 ? (EvalMeasure *)new EvalMeasureWer(std::string("")) : kind == 2 ? (EvalMeasure *)new EvalMeasureTer(std::string("inverse=true")) :
    kind == 3 ? (EvalMeasure *)new EvalMeasureRibes(std::string("")) : kind == 4 ? (EvalMeasure *)new EvalMeasureZeroOne(std::string("")) : kind == 5 ? (EvalMeasure *)new EvalMeasureBleu(std::string("order=2")) :
    kind == 6 ? (EvalMeasure *)new EvalMeasureNist(std::string("order=2")) : kind == 9 ? (EvalMeasure *)new EvalMeasureInterp(std::string("0|wer|-0.5|zeroone|2|ribes")) : kind == 10 ? (EvalMeasure *)new EvalMeasureAdvInterp(std::string("E|wer|Z|zeroone|A|ribes|A*(2-E-Z)")) : kind == 7 ? (EvalMeasure *)new EvalMeasureInterp(std::string("0.5|bleu:order=2|2|wer")) : (EvalMeasure *)new EvalMeasureAdvInterp(std::string("A|bleu:order=2|B|wer|A-B/4"));
  return boost::shared_ptr<EvalMeasure>(m);
}
static V sym(const char *name, int n) { V v; for (int i = 0; i < n; i++) v.push_back(sx::Fix(nm(name, i), -64, 64, 2)); return v; }
static V lin(const V &a, const V &b, double p) { V r; for (size_t i = 0; i < a.size(); i++) r.push_back(a[i] + b[i] * p); return r; }
SX_HARNESS(algebra) {
  int kind = sx::Pick("kind", 0, NK - 1), n = dims(kind); V zero(n, 0.0);
  V va = sym("a", n), vb = sym("b", n), vc = sym("c", n);
  double p = sx::Pick("scale", -12, 12) * 0.25;
  EvalStatsPtr a = make(kind, va), b = make(kind, vb), c = make(kind, vc);
  sx::Assert(a->Plus(*b)->Equals(*make(kind, lin(va, vb, 1))), "the sum is coordinatewise");
  sx::Assert(b->Plus(*a)->Equals(*a->Plus(*b)), "addition is commutative");
  sx::Assert(a->Plus(*b)->Plus(*c)->Equals(*a->Plus(*b->Plus(*c))), "addition is associative");
  sx::Assert(a->Times(p)->Equals(*make(kind, lin(zero, va, p))), "scaling is coordinatewise");
  sx::Assert(a->Plus(*b)->Plus(*b->Times(-1))->Equals(*a), "adding and subtracting restores the value");
  sx::Assert(a->Plus(*make(kind, zero))->Equals(*a), "zero is neutral");
  sx::Assert(a->Equals(*make(kind, va)) && b->Equals(*make(kind, vb)), "Plus and Times leave their operands alone");
  EvalStatsPtr d = a->Clone(); d->PlusEqualsTimes(*b, p);
  sx::Assert(d->Equals(*make(kind, lin(va, vb, p))), "PlusEqualsTimes adds the scaled statistics");
  EvalStatsPtr e = a->Clone(); e->PlusEquals(*b); e->TimesEquals(p); e->PlusEquals(*c);
  sx::Assert(e->Equals(*make(kind, lin(vc, lin(va, vb, 1), p))), "in-place operations are coordinatewise");
  sx::Assert(a->Equals(*make(kind, va)) && b->Equals(*make(kind, vb)) && c->Equals(*make(kind, vc)), "a copy is independent of its original");
  bool z = true; for (int i = 0; i < n; i++) z = sx::And(z, va[i] == 0);
  sx::Assert(a->IsZero() == z, "IsZero holds exactly when every coordinate is zero");
  sx::Assert(make(kind, zero)->IsZero(), "the zero statistics are zero");
  if (kind == 5 || kind == 6) {
    EvalStatsPtr none = make(kind, V()); none->PlusEquals(*a);
    sx::Assert(none->Equals(*a), "empty statistics take over what is added to them");
    EvalStatsPtr none2 = make(kind, V()); none2->PlusEqualsTimes(*a, p);
    sx::Assert(none2->Equals(*make(kind, lin(zero, va, p))), "empty statistics take over what is added to them, scaled");
    EvalStatsPtr same = a->Clone(); same->PlusEquals(*make(kind, V())); sx::Assert(same->Equals(*a), "adding empty statistics changes nothing");
  }
  sx::Reach("end");
}
SX_HARNESS(equal) {
  int kind = sx::Pick("kind", 0, NK - 1), n = dims(kind), at = sx::Pick("coordinate", 0, n - 1);
  V va = sym("a", n), vb = va; vb[at] = va[at] + sx::Fix("difference", -64, 64, 2);
  EvalStatsPtr a = make(kind, va), b = make(kind, vb);
  bool eq = a->Equals(*b), want = va[at] == vb[at];
  sx::Assert(eq == want, "statistics are equal exactly when all coordinates are"); sx::Assert(b->Equals(*a) == want, "equality is symmetric"); sx::Assert(a->Equals(*a), "equality is reflexive");
  if (kind == 7 || kind == 8) {
    std::vector<EvalStatsPtr> s; s.push_back(make(5, V(va.begin(), va.begin() + 6))); s.push_back(make(1, V(va.begin() + 6, va.begin() + 8)));
    int other = sx::Pick("other", 0, 2); EvalStatsPtr x;
    if (kind == 7) { std::vector<Real> c; c.push_back(other == 1 ? 1 : 0.5); c.push_back(other == 2 ? 1 : 2); x.reset(new EvalStatsInterp(s, c)); }
    else { std::vector<WordId> vars; vars.push_back(Dict::WID("A")); vars.push_back(Dict::WID(other == 1 ? "C" : "B")); x.reset(new EvalStatsAdvInterp(s, vars, other == 2 ? "A-B/2" : "A-B/4")); }
    sx::Assert(a->Equals(*x) == (other == 0), "interpolations are equal only with the same coefficients, variables and query");
  }
  sx::Reach("end");
}
SX_HARNESS(text) {
  static const double vals[] = {0, 1, 0.5, 7, 1234567, 1.0 / 3, 123.456789, 20000.25};
  int kind = sx::Pick("kind", 0, NK - 1), n = dims(kind); V v;
  for (int i = 0; i < n; i++) {
    int k = sx::Pick(nm("value", i), 0, n <= 2 ? 7 : sx::Tier() ? (i < 3 ? 7 : 2) : (i < 2 ? 7 : 1)); double x = vals[k];
    // plausible counts: matches do not exceed totals, totals are positive
    if (kind == 5 || ((kind == 7 || kind == 8) && i < 6)) { if (i % 3) x = 20000.25 * 100 + x; } else if (kind == 6 && i % 2) x += 1;
    v.push_back(x);
  }
  EvalStatsPtr a = make(kind, v);
  EvalStatsPtr b = measure(kind)->ReadStats(a->WriteStats());
  sx::Assert(a->Equals(*b), "statistics written and read back are equal");
  sx::Assert(b->WriteStats() == a->WriteStats(), "written again they give the same text");
  double sa = a->ConvertToScore(), sb = b->ConvertToScore(); double diff = sa > sb ? sa - sb : sb - sa;
  sx::Assert(diff <= 1e-9 * (sa > 0 ? sa : -sa) + 1e-12, "statistics read back give the same score");
  if (kind == 0 || kind == 3 || kind == 4) sx::Assert(sa == (v[1] ? v[0] / v[1] : 0), "the score is the average");
  if (kind == 1) sx::Assert(sa == (v[1] ? v[0] / v[1] : 0), "the error rate is edits over length");
  if (kind == 2) sx::Assert(sa == 1 - (v[1] ? v[0] / v[1] : 0), "the inverse error rate is one minus edits over length");
  if (kind > 8) {
    double q[3]; for (int i = 0; i < 3; i++) q[i] = v[2 * i + 1] ? v[2 * i] / v[2 * i + 1] : 0;
    double want = kind == 9 ? (-0.5 * q[1] + 2 * q[2]) / 1.5 : q[2] * (2 - q[0] - q[1]), d = sa - want; sx::Assert(d <= 1e-9 * (1 + fabs(want)) && d >= -1e-9 * (1 + fabs(want)), "the score of an interpolation of three is that of its parts");
  }
  if (kind == 7 || kind == 8) {
    double s0 = make(5, V(v.begin(), v.begin() + 6))->ConvertToScore(), s1 = make(1, V(v.begin() + 6, v.end()))->ConvertToScore();
    sx::Assert(sa == (kind == 7 ? (0.5 * s0 + 2 * s1) / 2.5 : s0 - s1 / 4), "the score of an interpolation is that of its parts");
  }
  sx::Reach("end");
}
