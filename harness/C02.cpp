// @sources lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds posterior: every hypergraph with 3 (thorough 4) nodes below the root's 2 edges, 0..2 edges on the other nodes, every tail list of length <= 2 over later nodes (unreachable nodes included), symbolic integral edge scores in [-1,1] (thorough [-2,2])
// @bounds wide: a root with 3 edges of 0..1 tails over a node with 1..3 edges whose edges end in a shared leaf, scores in [-4,4], those of the root shifted by a common 0 or +-2000
// @bounds tails: a root edge with three tails (some of them the same), with or without a second edge with one or two tails, over nodes with 1..2 edges (quick: the first edge of each with score 0), scores in [-1,1] (thorough [-2,2])
// @harness tails quick=15 thorough=200
// @stub exp and log are replaced by exact piecewise linear functions to the base two (harness/pexp.h), with which the arithmetic of the algorithm is exact for the scores explored
// @assume scores are integers such that the total weight of the derivations below each node (and the posterior of each inner node) is a power of two; rounding of the real exp and log is outside
// @harness posterior quick=40 thorough=500
// @harness rare quick=10 thorough=30
// @bounds rare: a root edge against a chain of 1..3 edges (the last one single or double) that is 2^12, 2^25, 2^60, 2^300 (or powers of these) times less likely, up to a tolerance of 1/1024
// @harness wide quick=20 thorough=100
#define PEXP_MAX 10
#include "hg.h"
#include "pexp.h"
#include <queue>
#include <boost/regex.hpp>
#include <lm/left.hh>
#include <lm/model.hh>
#include <travatar/weights.h>
#include <travatar/translation-rule.h>
#include <travatar/global-debug.h>
#include <travatar/string-util.h>
#include <travatar/io-util.h>
#include <travatar/check-equal.h>
#define exp sx_exp
#define log sx_log
#include <travatar/softmax.h>
#include <lib/hyper-graph.cc>
#undef exp
#undef log
static bool pow2(double m) { bool ok = false; for (int k = PEXP_LO; k <= PEXP_HI; k++) ok = sx::Or(ok, m == ldexp(1.0, k)); return ok; }
// checks the normalised graph against masses computed from the scores before
static void check(HyperGraph &g, double shift) {
  int n = g.NumNodes(); std::vector<double> in(n, 0.0), mass(n, 0.0); std::vector<std::vector<double> > cond(n);
  // the weight below a node is 2^in, relative to the common shift of the edges of the root (which cancels)
  for (int i = n - 1; i >= 0; i--) {
    HyperNode *v = g.GetNode(i); double m = 0; std::vector<double> s;
    for (int e = 0; e < v->NumEdges(); e++) {
      double t = v->GetEdge(e)->GetScore() - (i == 0 ? shift : 0); for (int k = 0; k < v->GetEdge(e)->NumTails(); k++) t += in[v->GetEdge(e)->GetTail(k)->GetId()];
      s.push_back(t); m += sx_exp_of(t);
    }
    if (!v->NumEdges()) continue;
    sx::Assume(pow2(m)); in[i] = sx_log_of(m);
    for (size_t e = 0; e < s.size(); e++) cond[i].push_back(s[e] - in[i]);
  }
  mass[0] = 1;
  for (int i = 0; i < n; i++) {
    HyperNode *v = g.GetNode(i); bool inner = false;
    for (int e = 0; e < v->NumEdges(); e++) for (int k = 0; k < v->GetEdge(e)->NumTails(); k++) {
      HyperNode *t = v->GetEdge(e)->GetTail(k); inner = inner || t->NumEdges();
      // log2(mass) + cond, as a number: the mass of an inner node is a power of two
      mass[t->GetId()] += mass[i] == 0 ? 0 : sx_exp_of(sx_log_of(mass[i]) + cond[i][e]);
    }
    if (inner && i) sx::Assume(sx::Or(pow2(mass[i]), mass[i] == 0));
  }
  std::vector<int> heads(n); for (int i = 0; i < n; i++) heads[i] = g.GetNode(i)->NumEdges();
  g.InsideOutsideNormalize();
  bool right = true, zero = true, sums = true;
  for (int i = 0; i < n; i++) {
    HyperNode *v = g.GetNode(i); double total = 0;
    for (int e = 0; e < v->NumEdges(); e++) {
      double s = v->GetEdge(e)->GetScore();
      if (mass[i] == 0) { zero = sx::And(zero, s < -1000); continue; }
      double q = sx_exp_of(s); total += q;
      right = sx::And(right, q == sx_exp_of(sx_log_of(mass[i]) + cond[i][e]));
    }
    if (v->NumEdges() && mass[i] != 0) sums = sx::And(sums, total == mass[i]);
  }
  sx::Assert(zero, "unreachable edges get zero probability");
  sx::Assert(right, "each edge score is the log posterior of the edge");
  sx::Assert(sums, "edge posteriors sum to the posterior of their node, one at the root");
}
SX_HARNESS(posterior) {
  HyperGraph g; std::vector<HyperNode *> ns; const int N = sx::Q(3, 4), S = sx::Q(1, 2);
  for (int i = 0; i < N; i++) { ns.push_back(new HyperNode); g.AddNode(ns[i]); }
  for (int i = 0; i < N; i++) {
    std::vector<std::vector<int> > ch = tailChoices(i, N); int ne = i == 0 ? 2 : sx::Pick(nm("edges", i), 0, 2), prev = 0;
    for (int e = 0; e < ne; e++) {
      int c = sx::Pick(nm("tails", i, e), i == 0 && e == 0 ? 1 : prev, (int)ch.size() - 1); prev = c;
      std::vector<HyperNode *> t; for (size_t k = 0; k < ch[c].size(); k++) t.push_back(ns[ch[c][k]]);
      mkEdge(g, ns[i], t, sx::Int(nm("score", i, e), -S, S));
    }
  }
  check(g, 0);
  sx::Reach("end");
}
SX_HARNESS(tails) {
  HyperGraph g; std::vector<HyperNode *> ns; for (int i = 0; i < 4; i++) { ns.push_back(new HyperNode); g.AddNode(ns[i]); }
  static const int T[][3] = {{1, 2, 3}, {1, 1, 1}, {1, 2, 1}, {2, 1, 1}, {3, 1, 2}}; int shape = sx::Pick("shape", 0, 4), S = sx::Q(1, 2);
  std::vector<HyperNode *> t; for (int k = 0; k < 3; k++) t.push_back(ns[T[shape][k]]);
  mkEdge(g, ns[0], t, sx::Tier() ? sx::Int("root score", -S, S) : 0); if (sx::Pick("second", 0, 1)) mkEdge(g, ns[0], std::vector<HyperNode *>(1 + sx::Pick("twice", 0, 1), ns[sx::Pick("tail", 1, 2)]), sx::Int("second score", -S, S));
  for (int i = 1; i < 4; i++) { int ne = sx::Pick(nm("edges", i), 1, 2); for (int e = 0; e < ne; e++) { std::vector<HyperNode *> d; if (i < 3 && e && sx::Pick(nm("deep", i), 0, sx::Q(i == 1, 1))) d.assign(1, ns[3]); mkEdge(g, ns[i], d, e || sx::Tier() ? sx::Int(nm("score", i, e), -S, S) : 0); } }
  check(g, 0);
  sx::Reach("end");
}
SX_HARNESS(wide) {
  HyperGraph g; std::vector<HyperNode *> ns; double shift = 2000.0 * sx::Pick("shift", -1, 1);
  for (int i = 0; i < 3; i++) { ns.push_back(new HyperNode); g.AddNode(ns[i]); }
  for (int i = 0; i < 2; i++) {
    int ne = i == 0 ? 3 : sx::Pick("edges", 1, 3);
    for (int e = 0; e < ne; e++) { std::vector<HyperNode *> t; if (i == 0 ? e != sx::Tier() + 1 || sx::Pick("tail", 0, 1) : e > 0) t.push_back(ns[i + 1]); mkEdge(g, ns[i], t, sx::Int(nm("score", i, e), -4, 4) + (i == 1 ? 0 : shift)); }
  }
  check(g, shift);
  sx::Reach("end");
}
// a root edge that is worth almost nothing against the other: the posteriors below it are kept all the same
SX_HARNESS(rare) {
  static const int D[] = {12, 25, 60, 300}; double d = D[sx::Pick("distance", 0, 3)]; int len = sx::Pick("length", 0, 2), where = sx::Pick("where", 0, 2), n = sx::Pick("split", 0, 1); double s = sx::Int("score", -2, 2);
  HyperGraph g; std::vector<HyperNode *> ns; for (int i = 0; i < 5; i++) { ns.push_back(new HyperNode); g.AddNode(ns[i]); }
  // the distance is on the root edge, on the edges of a chain below it, or on the leaf
  HyperEdge *common = mkEdge(g, ns[0], std::vector<HyperNode *>(1, ns[4]), s); std::vector<HyperEdge *> low; std::vector<double> want; mkEdge(g, ns[4], std::vector<HyperNode *>(), 0); double sofar = 0;
  for (int i = 0; i <= len; i++) {
    double sc = where == 0 ? (i == 0 ? -d : 0) : where == 1 ? (i == len ? -d : 0) : -d; bool last = i == len, two = last && n && i; std::vector<HyperNode *> t; if (!last) t.push_back(ns[i + 1]);
    for (int k = 0; k <= (two ? 1 : 0); k++) { low.push_back(mkEdge(g, ns[i], t, sc + (i ? 0 : s))); want.push_back(two ? -1 : 0); } sofar += sc + (two ? 1 : 0);
  }
  g.InsideOutsideNormalize(); bool ok = true; const double T = 1.0 / 1024; double c = common->GetScore(); ok = sx::And(c <= T, c >= -T);
  for (size_t k = 0; k < low.size(); k++) { double v = low[k]->GetScore() - (sofar + want[k]); ok = sx::And(ok, sx::And(v <= T, v >= -T)); }
  sx::Assert(ok, "edges of small posterior keep it"); sx::Reach("end");
}
