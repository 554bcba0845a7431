// @sources lib/unary-flattener.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds forest: every graph of 5 (thorough 6) nodes in which each node has no edge, one edge with 1..3 increasing later tails, or (nodes 0 and 1) two edges; node labels distinct or repeated, spans distinct or equal, symbolic scores; features on all edges, only on the even or only on the odd ones
// @harness forest quick=60 thorough=300
#include "hg.h"
#include <travatar/unary-flattener.h>
SX_HARNESS(forest) {
  HyperGraph g; std::vector<HyperNode *> ns; int N = sx::Q(5, 6);
    Sentence w; w.push_back(Dict::WID("x")); w.push_back(Dict::WID("y")); g.SetWords(w);
  int bare = sx::Pick("without features", 0, 2); // 1: the even edges, 2: the odd ones
  static const char *labels[2][6] = {{"A", "B", "C", "D", "E", "F"}, {"A", "A", "B", "B", "B", "A"}}; const char **lab = labels[bare == 2];
  for (int i = 0; i < N; i++) { ns.push_back(new HyperNode); ns[i]->SetSym(Dict::WID(lab[i])); ns[i]->SetSpan(std::make_pair(bare == 1 ? 0 : i, bare == 1 ? 2 : 10 - i)); g.AddNode(ns[i]); }
  std::vector<double> sc; std::vector<std::vector<std::vector<int> > > tails(N); std::vector<std::vector<int> > eids(N);
  for (int i = 0; i < N; i++) {
    int later = N - 1 - i, ne = sx::Pick(nm("edges", i), i == 0 ? 1 : 0, later == 0 ? 0 : i < 2 ? 2 : 1);
    for (int e = 0; e < ne; e++) {
      int mask = sx::Pick(nm("tails", i, e), 1, (1 << later) - 1); std::vector<HyperNode *> t; std::vector<int> ti;
      for (int k = 0; k < later; k++) if (mask >> k & 1) { t.push_back(ns[i + 1 + k]); ti.push_back(i + 1 + k); }
      sx::Assume(t.size() <= 3 && (e == 0 || t.size() <= 1));
      sc.push_back(sx::Fix(nm("score", i, e), -8, 8, 0)); HyperEdge *ed = mkEdge(g, ns[i], t, sc.back());
      if (bare == 0 || ed->GetId() % 2 != bare - 1) ed->GetFeatures().Add(Dict::WID(std::string("f") + char('0' + ed->GetId())), 1); eids[i].push_back(ed->GetId()); tails[i].push_back(ti);
    }
  }
  UnaryFlattener fl; boost::shared_ptr<HyperGraph> out(fl.TransformGraph(g));
  sx::Assert(out->GetWords() == w, "the words are kept"); sx::Assert(out->NumNodes() == N, "node numbers are kept");
  // walk what is reachable from the root
  std::vector<int> todo(1, 0), seen(N, 0); seen[0] = 1;
  while (!todo.empty()) {
    int i = todo.back(); todo.pop_back(); HyperNode *n = out->GetNode(i);
    sx::Assert(n->GetId() == i && n->GetSpan() == std::make_pair(bare == 1 ? 0 : i, bare == 1 ? 2 : 10 - i), "numbers and spans are kept");
    // where the chain starting here ends, and what it collects
    int at = i; std::string label = lab[i]; double score = 0; std::vector<int> feats;
    while (tails[at].size() == 1 && tails[at][0].size() == 1 && tails[tails[at][0][0]].size() == 1) { score += sc[eids[at][0]]; feats.push_back(eids[at][0]); at = tails[at][0][0]; label += std::string("_") + lab[at]; sx::Reach("merged"); }
    sx::Assert(Dict::WSym(n->GetSym()) == label, "the label joins the labels of the chain");
    sx::Assert(n->NumEdges() == (int)tails[at].size(), "the edges at the end of the chain are kept");
    for (int e = 0; e < n->NumEdges(); e++) {
      const HyperEdge *ed = n->GetEdge(e); sx::Assert(ed->GetHead() == n, "an edge is listed under its head");
      std::vector<int> t; BOOST_FOREACH(const HyperNode *x, ed->GetTails()) { t.push_back(x->GetId()); sx::Assert(out->GetNode(x->GetId()) == x, "tails are nodes of the result"); }
      sx::Assert(t == tails[at][e], "the children of the end of the chain are kept");
      sx::Assert(ed->GetScore() == score + sc[eids[at][e]], "scores along the chain add up");
      feats.push_back(eids[at][e]); SparseVector f; BOOST_FOREACH(int k, feats) if (bare == 0 || k % 2 != bare - 1) { SparseVector x; x.Add(Dict::WID(std::string("f") + char('0' + k)), 1); f += x; } feats.pop_back();
      sx::Assert(ed->GetFeatures() == f, "features along the chain add up");
      for (size_t k = 0; k < t.size(); k++) if (!seen[t[k]]) { seen[t[k]] = 1; todo.push_back(t[k]); }
      if (n->NumEdges() == 1 && t.size() == 1) sx::Assert(tails[t[0]].size() != 1, "no unary production over a single-edge non-terminal is left");
    }
  }
  // the input is unchanged
  for (int i = 0; i < N; i++) { sx::Assert(ns[i]->NumEdges() == (int)tails[i].size() && Dict::WSym(ns[i]->GetSym()) == lab[i], "the input is left alone"); }
  sx::Reach("end");
}
// @reach forest merged
