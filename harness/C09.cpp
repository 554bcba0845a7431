// @sources lib/trimmer.cc lib/trimmer-nbest.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds trim: every hypergraph with 3 nodes, 2 edges on the root (thorough: 1..3), 1..2 on the others, every tail list of length <= 2 over later nodes (also unreachable nodes), edge scores 0 or 1 (thorough: integral in [-4,4]), edges listed parents or children first, every n in 0..3 (thorough 0..6)
// @bounds wide: a root edge with 3 or 4 tails (some the same) and possibly a second one, over nodes with two edges, or a chain of 5 nodes, nodes numbered forwards or backwards, symbolic scores, n 0..3 (thorough 0..8)
// @harness wide quick=20 thorough=200
// @assume scores are small integers, so that sums are exact
// @harness trim quick=25 thorough=400
#include "hg.h"
#include <travatar/trimmer-nbest.h>
static void check(HyperGraph &g, const Sentence &w, const std::vector<HyperNode *> &ns, std::vector<HyperEdge *> &es, int maxn) {
  const int N = ns.size();
  if (sx::Pick("children first", 0, 1)) std::reverse(es.begin(), es.end());
  for (size_t i = 0; i < es.size(); i++) {
    es[i]->GetFeatures().Add(Dict::WID(std::string("f") + char('0' + i)), 1); es[i]->SetSrcStr(std::string("r") + char('0' + i));
    es[i]->AddTrgWord(Dict::WID(std::string("w") + char('0' + i))); g.AddEdge(es[i]);
  }
  int n = sx::Pick("n", 0, maxn);
  NbestList nb; if (n) nb = g.GetNbest(n);
  std::set<int> useN, useE; useN.insert(0);
  for (size_t i = 0; i < nb.size(); i++) BOOST_FOREACH(const HyperEdge *e, nb[i]->GetEdges()) { useE.insert(e->GetId()); useN.insert(e->GetHead()->GetId()); BOOST_FOREACH(const HyperNode *t, e->GetTails()) useN.insert(t->GetId()); }
  int nEdges = g.NumEdges();
  boost::shared_ptr<HyperGraph> out(TrimmerNbest(n).TransformGraph(g));
  sx::Assert(g.NumEdges() == nEdges && g.NumNodes() == N, "the input is left alone");
  sx::Assert(out->GetWords() == w, "the words are kept");
  sx::Assert(out->NumNodes() == (int)useN.size() && out->NumEdges() == (int)useE.size(), "exactly the used nodes and edges are kept");
  if (out->NumEdges() < nEdges) sx::Reach("trimmed");
  std::vector<int> oldN(out->NumNodes(), -1); std::set<int> seenN, seenE;
  for (int i = 0; i < out->NumNodes(); i++) {
    const HyperNode *x = out->GetNode(i); sx::Assert(x && x->GetId() == i, "node numbers are positions");
    for (int k = 0; k < N; k++) if (x->GetSym() == ns[k]->GetSym()) oldN[i] = k;
    int o = oldN[i]; sx::Assert(o >= 0 && useN.count(o) && seenN.insert(o).second && (i != 0 || o == 0), "each used node is kept once, the root first");
    sx::Assert(x != ns[o] && x->GetSpan() == ns[o]->GetSpan() && x->GetTrgSym() == ns[o]->GetTrgSym(), "labels and spans are kept");
  }
  for (int i = 0; i < out->NumNodes(); i++) {
    const HyperNode *x = out->GetNode(i), *y = ns[oldN[i]]; std::vector<const HyperEdge *> want;
    BOOST_FOREACH(const HyperEdge *e, y->GetEdges()) if (useE.count(e->GetId())) want.push_back(e);
    sx::Assert(x->NumEdges() == (int)want.size(), "a node keeps exactly its used edges");
    for (int k = 0; k < x->NumEdges(); k++) {
      const HyperEdge *a = x->GetEdge(k), *b = want[k];
      sx::Assert(a != b && a->GetId() >= 0 && a->GetId() < out->NumEdges() && out->GetEdge(a->GetId()) == a && a->GetHead() == x && seenE.insert(a->GetId()).second, "edges are listed once, under their head and their number");
      sx::Assert(a->GetFeatures() == b->GetFeatures() && a->GetTrgData() == b->GetTrgData() && a->GetSrcStr() == b->GetSrcStr(), "edges keep rule and features, in order");
      sx::Assert(a->GetScore() == b->GetScore(), "edges keep their score");
      sx::Assert(a->NumTails() == b->NumTails(), "edges keep their tails");
      for (int t = 0; t < a->NumTails(); t++) { int id = a->GetTail(t)->GetId(); sx::Assert(id >= 0 && id < out->NumNodes() && out->GetNode(id) == a->GetTail(t) && oldN[id] == b->GetTail(t)->GetId(), "tails keep their order"); }
    }
  }
  if (!n) { sx::Reach("end"); return; }
  out->ResetViterbiScores(); NbestList nb2 = out->GetNbest(n); bool ok = nb2.size() == nb.size();
  for (size_t i = 0; ok && i < nb.size(); i++) ok &= nb2[i]->GetScore() == nb[i]->GetScore();
  sx::Assert(ok, "the n-best scores of the trimmed forest are those of the original");
  sx::Reach("end");
}
SX_HARNESS(trim) {
  HyperGraph g; std::vector<HyperNode *> ns; const int N = 3; int S = sx::Q(1, 4);
  for (int i = 0; i < N; i++) { ns.push_back(new HyperNode); ns[i]->SetSym(Dict::WID(std::string("N") + char('0' + i))); ns[i]->SetTrgSym(Dict::WID(std::string("T") + char('0' + i))); ns[i]->SetSpan(std::make_pair(i, i + 3)); g.AddNode(ns[i]); }
  Sentence w; w.push_back(Dict::WID("x")); g.SetWords(w);
  std::vector<HyperEdge *> es;
  for (int i = 0; i < N; i++) {
    std::vector<std::vector<int> > ch = tailChoices(i, N); int ne = i == 0 ? (sx::Tier() ? sx::Pick("edges0", 1, 3) : 2) : sx::Pick(nm("edges", i), 1, 2), prev = 0;
    for (int e = 0; e < ne; e++) {
      int c = sx::Pick(nm("tails", i, e), i == 0 && e == 0 ? 1 : prev, (int)ch.size() - 1); prev = c;
      std::vector<HyperNode *> t; for (size_t k = 0; k < ch[c].size(); k++) t.push_back(ns[ch[c][k]]);
      HyperEdge *ed = new HyperEdge(ns[i]); ed->SetTails(t); ed->SetScore(sx::Fix(nm("score", i, e), sx::Q(0, -S), S, 0)); es.push_back(ed); ns[i]->AddEdge(ed);
    }
  }
  check(g, w, ns, es, sx::Q(3, 6));
}

SX_HARNESS(wide) {
  HyperGraph g; std::vector<HyperNode *> ns, by; const int N = 5; bool rev = sx::Pick("nodes reversed", 0, 1); std::vector<HyperEdge *> es; int S = sx::Q(1, 2);
  for (int i = 0; i < N; i++) { ns.push_back(new HyperNode); ns[i]->SetSym(Dict::WID(std::string("N") + char('0' + i))); ns[i]->SetTrgSym(Dict::WID(std::string("T") + char('0' + i))); ns[i]->SetSpan(std::make_pair(i, i + 3)); g.AddNode(ns[i]); by.push_back(ns[i]); }
  if (rev) std::reverse(by.begin() + 1, by.end());   // by[i]: i-th in topological order
  Sentence w; w.push_back(Dict::WID("x")); g.SetWords(w);
  static const int T[][4] = {{1, 2, 3, 0}, {1, 1, 1, 0}, {1, 2, 1, 0}, {3, 1, 2, 0}, {1, 2, 3, 4}, {0, 0, 0, 0}}; int shape = sx::Pick("shape", 0, 5);
  for (int i = 0; i < N; i++) for (int e = 0; e < 2; e++) {
    std::vector<HyperNode *> t;
    if (shape == 5) { if (i < 4) t.push_back(by[std::min(4, i + 1 + (e ? sx::Pick(nm("skip", i), 0, 1) : 0))]); }
    else if (i == 0) { if (e && (shape == 4 || !sx::Pick("second", 0, 1))) continue; if (e) t.push_back(by[sx::Pick("tail", 1, 2)]); else for (int k = 0; k < 4 && T[shape][k]; k++) t.push_back(by[T[shape][k]]); }
    else if (i < 4 && e && sx::Pick(nm("deep", i), 0, i < sx::Q(2, 3))) t.push_back(by[i + 1]);
    HyperEdge *ed = new HyperEdge(by[i]); ed->SetTails(t); ed->SetScore(e ? sx::Fix(nm("score", i), sx::Q(-1, -S), i && i < 4 ? sx::Q(0, S) : i ? 0 : S, 0) : 0); es.push_back(ed); by[i]->AddEdge(ed);
  }
  check(g, w, ns, es, sx::Q(3, 8));
}
// @reach wide trimmed
// @reach trim trimmed
