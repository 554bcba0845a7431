// Builds small hypergraphs with a symbolic topology / symbolic scores and enumerates their derivations.
#ifndef SX_HG_H
#define SX_HG_H
#include "common.h"
#include <travatar/hyper-graph.h>
#include <travatar/dict.h>
#include <travatar/cfg-data.h>
using namespace travatar;
struct Deriv { std::vector<int> edges; double score; std::vector<int> words; };
// All derivations below a node, edges in pre-order; independent of the implementation's recursion.
inline std::vector<Deriv> allDerivs(const HyperGraph &g, const HyperNode *n) {
  std::vector<Deriv> ret;
  for (int e = 0; e < n->NumEdges(); e++) {
    const HyperEdge *ed = n->GetEdge(e);
    std::vector<Deriv> part; Deriv d0; d0.edges.push_back(ed->GetId()); d0.score = ed->GetScore(); part.push_back(d0);
    std::vector<std::vector<std::vector<int> > > childWords(1);
    for (int t = 0; t < ed->NumTails(); t++) {
      std::vector<Deriv> ch = allDerivs(g, ed->GetTail(t)), np;
      std::vector<std::vector<std::vector<int> > > ncw;
      for (size_t a = 0; a < part.size(); a++) for (size_t b = 0; b < ch.size(); b++) {
        Deriv x = part[a]; x.edges.insert(x.edges.end(), ch[b].edges.begin(), ch[b].edges.end());
        x.score = x.score + ch[b].score; np.push_back(x);
        std::vector<std::vector<int> > cw = childWords[a]; cw.push_back(ch[b].words); ncw.push_back(cw);
      }
      part.swap(np); childWords.swap(ncw);
    }
    for (size_t a = 0; a < part.size(); a++) {
      if (ed->GetTrgData().size())
        for (size_t k = 0; k < ed->GetTrgData()[0].words.size(); k++) {
          int w = ed->GetTrgData()[0].words[k];
          if (w >= 0) part[a].words.push_back(w);
          else { const std::vector<int> &c = childWords[a][-1 - w]; part[a].words.insert(part[a].words.end(), c.begin(), c.end()); }
        }
      ret.push_back(part[a]);
    }
  }
  return ret;
}
inline HyperEdge *mkEdge(HyperGraph &g, HyperNode *head, const std::vector<HyperNode *> &tails, double score) {
  HyperEdge *e = new HyperEdge(head); e->SetTails(tails); e->SetScore(score); g.AddEdge(e); head->AddEdge(e); return e;
}
// topology table for the tails of one edge of node i in an n-node graph: lists of later nodes, length <= 2
inline std::vector<std::vector<int> > tailChoices(int i, int n, int maxlen = 2) {
  std::vector<std::vector<int> > r; r.push_back(std::vector<int>());
  for (int a = i + 1; a < n; a++) r.push_back(std::vector<int>(1, a));
  if (maxlen >= 2) for (int a = i + 1; a < n; a++) for (int b = i + 1; b < n; b++) { std::vector<int> v; v.push_back(a); v.push_back(b); r.push_back(v); }
  return r;
}
#endif
