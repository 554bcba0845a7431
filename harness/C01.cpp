// @sources lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds topo: every hypergraph with 3 nodes, 2 edges on the root, 1..2 on the others, every tail list of length <= 2 over later nodes, integral edge scores in [-1,1] per edge (thorough: [-4,4]), every n in 1..5
// @bounds uniq: root with 3 edges over <=2 children with 1..2 edges on the first and 1 on the second (thorough: 3), target words from {a,b} plus the children in either order, symbolic scores in [-1,1] (thorough: [-6,6], 4 root edges, 3 child edges), n 1..4
// @bounds inexact: root edge over two children with 2 or 3 edges each, scores from {0.1, 0.2, 0.3, 0.7} (not exact in binary), the full list
// @assume scores of topo and uniq are small integers, so that sums are exact; the scores of inexact are solver-enumerated constants
// @harness topo quick=40 thorough=400
// @bounds wide: an edge with 3 or 4 tails (some of them the same) over nodes with up to 2 (3) edges, with or without a second edge, or a chain of 5 nodes with two edges each, symbolic scores in [-1,1] (thorough [-3,3]), in half of the shapes divided by 4096, the 9 (thorough 20) best
// @harness wide quick=15 thorough=200
// @harness uniq quick=15 thorough=300
// @harness inexact quick=15 thorough=100
#include "hg.h"
static void checkNbest(HyperGraph &g, int n, bool exactScores = true) {
  std::vector<Deriv> all = allDerivs(g, g.GetNode(0));
  g.ResetViterbiScores();
  NbestList nb = g.GetNbest(n);
  bool ok = true;
  sx::Assert((int)nb.size() == std::min(n, (int)all.size()), "n-best list has min(n, #derivations) entries");
  for (int k = 1; k < n; k++) {
    NbestList p = g.GetNbest(k); bool same = (int)p.size() == std::min(k, (int)nb.size());
    for (size_t i = 0; same && i < p.size(); i++) same = p[i]->GetEdges() == nb[i]->GetEdges();
    sx::Assert(same, "a shorter n-best list is a prefix of a longer one");
  }
  std::vector<int> used(all.size(), 0);
  for (size_t i = 0; i < nb.size(); i++) {
    std::vector<int> es; BOOST_FOREACH(const HyperEdge *e, nb[i]->GetEdges()) es.push_back(e->GetId());
    int at = -1; for (size_t k = 0; k < all.size(); k++) if (all[k].edges == es) at = k;
    sx::Assert(at >= 0, "every n-best entry is a derivation of the forest");
    sx::Assert(!used[at], "no derivation appears twice in the n-best list");
    used[at] = 1;
    ok &= nb[i]->GetScore() == all[at].score;
    if (i) ok &= nb[i - 1]->GetScore() >= nb[i]->GetScore();
  }
  sx::Assert(ok, "n-best scores are the derivation scores, in non-increasing order");
  bool top = true;
  if (nb.size()) for (size_t k = 0; k < all.size(); k++) if (!used[k]) top &= all[k].score <= nb.back()->GetScore();
  sx::Assert(top, "no derivation outside the n-best list beats one inside it");
}
SX_HARNESS(topo) {
  HyperGraph g; std::vector<HyperNode *> ns;
  const int N = 3; int S = sx::Q(1, 4);
  for (int i = 0; i < N; i++) { ns.push_back(new HyperNode); g.AddNode(ns[i]); }
  for (int i = 0; i < N; i++) {
    std::vector<std::vector<int> > ch = tailChoices(i, N);
    int ne = i == 0 ? 2 : sx::Pick(nm("edges", i), 1, 2);
    int prev = 0;
    for (int e = 0; e < ne; e++) {
      int c = sx::Pick(nm("tails", i, e), i == 0 && e == 0 ? 1 : prev, (int)ch.size() - 1); prev = c;
      std::vector<HyperNode *> t; for (size_t k = 0; k < ch[c].size(); k++) t.push_back(ns[ch[c][k]]);
      mkEdge(g, ns[i], t, sx::Fix(nm("score", i, e), -S, S, 0));
    }
  }
  checkNbest(g, 5);
  sx::Reach("end");
}
SX_HARNESS(wide) {
  HyperGraph g; std::vector<HyperNode *> ns; for (int i = 0; i < 5; i++) { ns.push_back(new HyperNode); g.AddNode(ns[i]); }
  static const int T[][4] = {{1, 2, 3, 0}, {1, 1, 1, 0}, {1, 2, 1, 0}, {2, 1, 1, 0}, {1, 2, 3, 4}, {0, 0, 0, 0}}; int shape = sx::Pick("shape", 0, 5), S = sx::Q(1, 3), n = 0, fr = shape % 2 ? 0 : 12; // in some shapes the scores differ by very little
  if (shape < 5) {
    std::vector<HyperNode *> t; for (int k = 0; k < 4 && T[shape][k]; k++) { t.push_back(ns[T[shape][k]]); n = std::max(n, T[shape][k]); }
    mkEdge(g, ns[0], t, 0); if (sx::Pick("second", 0, 1)) mkEdge(g, ns[0], std::vector<HyperNode *>(1, ns[n]), sx::Fix("second score", -2, 0, fr));
    for (int i = 1; i <= n; i++) { mkEdge(g, ns[i], std::vector<HyperNode *>(), 0); if (i < 4 || sx::Tier()) mkEdge(g, ns[i], std::vector<HyperNode *>(), sx::Fix(nm("score", i), -S, S, fr)); if (shape == 1) mkEdge(g, ns[i], std::vector<HyperNode *>(), sx::Fix("third", -S, S, fr)); }
  } else for (int i = 0; i < 5; i++) for (int e = 0; e < 2; e++) // a chain of nodes with two edges each, one of which may skip a node
    mkEdge(g, ns[i], i == 4 ? std::vector<HyperNode *>() : std::vector<HyperNode *>(1, ns[std::min(4, i + 1 + (e ? sx::Pick(nm("skip", i), 0, 1) : 0))]), e ? sx::Fix(nm("score", i), -S, 0, fr) : 0);
  checkNbest(g, sx::Q(9, 20));
  sx::Reach("end");
}

// unique translations: the best derivation of each of the n best distinct yields
SX_HARNESS(uniq) {
  HyperGraph g; g.SetEdgeType(HyperGraph::HYPER_EDGE); std::vector<HyperNode *> ns;
  for (int i = 0; i < 3; i++) { ns.push_back(new HyperNode); g.AddNode(ns[i]); }
  int S = sx::Q(1, 6), RE = sx::Q(3, 4), CE = sx::Q(2, 3);
  for (int i = 0; i < 3; i++) {
    int ne = i == 0 ? RE : sx::Pick(nm("edges", i), 1, i == 2 ? sx::Q(1, CE) : CE);
    for (int e = 0; e < ne; e++) {
      std::vector<HyperNode *> t; Sentence w; int arity = i ? 0 : e == 0 ? 2 : sx::Pick(nm("arity", e), 0, e == 1 ? 2 : 1);
      for (int k = 0; k < arity; k++) t.push_back(ns[1 + k]);
      HyperEdge *ed = mkEdge(g, ns[i], t, sx::Fix(nm("score", i, e), -S, S, 0));
      if (arity == 2 && sx::Pick(nm("swap", i, e), 0, 1)) { w.push_back(-2); w.push_back(-1); }
      else for (int k = 0; k < arity; k++) w.push_back(-1 - k);
      if (arity < 2) { int x = sx::Pick(nm("word", i, e), 0, i == 0 ? 1 : e ? 1 : 0); w.push_back(Dict::WID(x ? "b" : "a")); }
      ed->SetTrgData(CfgDataVector(1, CfgData(w)));
    }
  }
  std::vector<Deriv> all = allDerivs(g, g.GetNode(0));
  std::map<std::vector<int>, std::vector<int> > byYield;
  for (size_t k = 0; k < all.size(); k++) byYield[all[k].words].push_back(k);
  int n = 4;
  NbestList nb = g.GetNbest(n, true);
  sx::Assert((int)nb.size() == std::min(n, (int)byYield.size()), "one entry per distinct translation, up to n");
  std::set<std::vector<int> > seen; bool ok = true;
  for (size_t i = 0; i < nb.size(); i++) {
    std::vector<int> es; BOOST_FOREACH(const HyperEdge *e, nb[i]->GetEdges()) es.push_back(e->GetId());
    int at = -1; for (size_t k = 0; k < all.size(); k++) if (all[k].edges == es) at = k;
    sx::Assert(at >= 0, "every unique n-best entry is a derivation");
    sx::Assert(nb[i]->GetTrgData().size() == 1 && nb[i]->GetTrgData()[0].words == all[at].words, "the entry carries the translation of its derivation");
    sx::Assert(seen.insert(all[at].words).second, "no translation appears twice");
    ok &= nb[i]->GetScore() == all[at].score;
    if (i) ok &= nb[i - 1]->GetScore() >= nb[i]->GetScore();
    const std::vector<int> &same = byYield[all[at].words];
    for (size_t k = 0; k < same.size(); k++) ok &= all[same[k]].score <= all[at].score;
  }
  sx::Assert(ok, "each translation is represented by its best derivation with its score, in order");
  bool top = true;
  for (size_t k = 0; k < all.size(); k++) if (!seen.count(all[k].words)) top &= all[k].score <= nb.back()->GetScore();
  sx::Assert(top, "no omitted translation is better");
  sx::Reach("end");
}
// scores without exact binary sums: still every derivation once
SX_HARNESS(inexact) {
  static const double vals[] = {-0.1, -0.2, -0.3, -0.7};
  HyperGraph g; std::vector<HyperNode *> ns;
  for (int i = 0; i < 3; i++) { ns.push_back(new HyperNode); g.AddNode(ns[i]); }
  std::vector<HyperNode *> t; t.push_back(ns[1]); t.push_back(ns[2]); mkEdge(g, ns[0], t, vals[sx::Pick("root", 0, 3)]);
  for (int i = 1; i < 3; i++) for (int e = 0; e < (i == 1 ? 2 : 3); e++) mkEdge(g, ns[i], std::vector<HyperNode *>(), vals[sx::Pick(nm("score", i, e), 0, 3)]);
  std::vector<Deriv> all = allDerivs(g, g.GetNode(0));
  NbestList nb = g.GetNbest(10);
  std::set<std::vector<int> > seen; bool near = true;
  for (size_t i = 0; i < nb.size(); i++) {
    std::vector<int> es; BOOST_FOREACH(const HyperEdge *e, nb[i]->GetEdges()) es.push_back(e->GetId());
    sx::Assert(seen.insert(es).second, "no derivation appears twice with inexact sums");
    for (size_t k = 0; k < all.size(); k++) if (all[k].edges == es) near &= std::fabs(all[k].score - nb[i]->GetScore()) <= 0x1p-40;
    if (i) near &= nb[i - 1]->GetScore() >= nb[i]->GetScore();
  }
  sx::Assert(near, "scores are those of the derivations to within rounding, in order");
  sx::Assert(nb.size() == all.size(), "the full list has every derivation once");
  sx::Reach("end");
}
